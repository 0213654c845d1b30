package main

import (
	"bytes"
	"fmt"

	. "drivers/lib"
	"github.com/lkmio/avformat/avc"
	"github.com/lkmio/avformat/bufio"
	"github.com/lkmio/avformat/hevc"
)

func main() {
	Run("H.264 and H.265 length-prefixed data to Annex-B: all sequences of up to 3 units over the unit types that matter, every length size, malformed lengths and truncations, then random; exactly sufficient destinations with guards", func(t *T) {
		run := func(p, extra []byte, ls int) {
			t.Case(fmt.Sprintf("data %x extra %x length size %d", p, extra, ls), func() string {
				p, extra := Exact(p), Exact(extra)
				in := Exact(p)
				chk := func(name string, dst []byte, n int, want []byte) string {
					if n != len(want) {
						return fmt.Sprintf("%s returned %d, want %d", name, n, len(want))
					}
					if !bytes.Equal(dst[:n], want) {
						return fmt.Sprintf("%s wrote %x, want %x", name, dst[:n], want)
					}
					for _, b := range dst[n:] {
						if b != 0xA5 {
							return name + " wrote beyond the returned size"
						}
					}
					if !bytes.Equal(p, in) {
						return name + " changed its input"
					}
					return ""
				}
				for _, g := range []int{0, 7} {
					if ls == 4 {
						want := From264(p, extra, true)
						dst := bytes.Repeat([]byte{0xA5}, len(want)+g)
						if m := chk("AVCC2AnnexB", dst, avc.AVCC2AnnexB(dst, p, extra), want); m != "" {
							return m
						}
						want = From264(p, extra, false)
						dst = bytes.Repeat([]byte{0xA5}, len(want)+g)
						w := bufio.NewBytesWriter(dst)
						avc.Mp4ToAnnexB(w, p, extra)
						if m := chk("avc.Mp4ToAnnexB", dst, w.Offset(), want); m != "" {
							return m
						}
					}
					want, ok := From265(p, extra, ls)
					if !ok {
						dst := make([]byte, 8*len(p)+len(extra)+64)
						n, err := hevc.Mp4ToAnnexB(dst, p, extra, ls)
						if err == nil || n != -1 {
							return fmt.Sprintf("hevc.Mp4ToAnnexB returned %d, %v for malformed data", n, err)
						}
						if !bytes.Equal(p, in) {
							return "hevc.Mp4ToAnnexB changed its input"
						}
						continue
					}
					dst := bytes.Repeat([]byte{0xA5}, len(want)+g)
					n, err := hevc.Mp4ToAnnexB(dst, p, extra, ls)
					if err != nil {
						return "hevc.Mp4ToAnnexB: " + err.Error()
					}
					if m := chk("hevc.Mp4ToAnnexB", dst, n, want); m != "" {
						return m
					}
				}
				return ""
			})
		}
		extras := [][]byte{nil, {0, 0, 0, 1, 0x67, 1, 0, 0, 0, 1, 0x68, 2}}
		heads := []byte{0x65, 0x67, 0x68, 0x06, 0x41, 0x09, 0x26, 0x40, 0x42, 0x2A, 0x02}
		for ls := 4; ls >= 1; ls-- {
			var rec func(p []byte, k int)
			rec = func(p []byte, k int) {
				for _, e := range extras {
					run(p, e, ls)
				}
				if k == 0 {
					return
				}
				for i, h := range heads {
					rec(append(p[:len(p):len(p)], Prefixed(ls, []byte{h, byte(i), byte(k)}[:1+(i+k)%3])...), k-1)
				}
			}
			rec(nil, 3)
		}
		for t.More() {
			ls := 4
			if t.Intn(2) == 0 {
				ls = 1 + t.Intn(4)
			}
			var p []byte
			for k := t.Intn(6); k >= 0; k-- {
				u := append([]byte{heads[t.Intn(len(heads))]}, t.Bytes(t.Intn(10))...)
				switch t.Intn(40) {
				case 0:
					u = u[:0]
				case 1:
					u[0] = byte(t.Intn(256))
				case 2:
					u = append(u, t.Bytes(200+t.Intn(50))...)
				case 3:
					if ls > 1 {
						u = append(u, make([]byte, 250+t.Intn(300))...)
					}
				}
				p = append(p, Prefixed(ls, u)...)
			}
			switch t.Intn(6) {
			case 0:
				p = p[:t.Intn(len(p)+1)]
			case 1:
				if len(p) > 0 {
					p[t.Intn(len(p))] = byte(t.Intn(256))
				}
			case 2:
				p = append(p, t.Bytes(t.Intn(6))...)
			}
			extra := extras[t.Intn(2)]
			if t.Intn(4) == 0 {
				extra = t.Bytes(1 + t.Intn(8))
			}
			run(p, extra, ls)
		}
	})
}
