package main

import (
	"bytes"
	"fmt"

	. "drivers/lib"
	"github.com/lkmio/avformat/avc"
	"github.com/lkmio/avformat/bufio"
)

func main() {
	Run("start-code scans, splits and strips of all byte strings of length <= 7 over {0,1,2,255} and <= 12 over {0,1}, then random streams, compared with a direct definition", func(t *T) {
		run := func(p []byte) {
			t.Case(fmt.Sprintf("data %x", p), func() string {
				p := Exact(p)
				in := Exact(p)
				q := Sc(p, 0)
				wn, ws := -1, -1
				if q >= 0 {
					wn, ws = q+3, ScLen(p, 0, q)
				}
				if n, s := avc.FindStartCode(p); n != wn || s != ws {
					return fmt.Sprintf("FindStartCode = %d,%d, want %d,%d", n, s, wn, ws)
				}
				w2 := -1
				if q >= 0 {
					w2 = wn - ws
				}
				if n := avc.FindStartCode2(p); n != w2 {
					return fmt.Sprintf("FindStartCode2 = %d, want %d", n, w2)
				}
				for skip := 0; skip <= 3 && skip <= len(p); skip++ {
					r := bufio.NewBytesReader(p)
					r.Seek(skip)
					q := Sc(p, skip)
					v := avc.FindStartCodeWithReader(r)
					if q < 0 && (v != -1 || r.Offset() != skip) || q >= 0 && (v != int(p[q+3]) || r.Offset() != q+4) {
						return fmt.Sprintf("FindStartCodeWithReader after %d = %d, cursor %d", skip, v, r.Offset())
					}
				}
				want := Split(p)
				var got [][]byte
				avc.SplitNalU(p, func(n []byte) { got = append(got, append([]byte(nil), n...)) })
				if len(got) != len(want) {
					return fmt.Sprintf("SplitNalU gives %x, want %x", got, want)
				}
				for i := range got {
					if !bytes.Equal(got[i], want[i]) {
						return fmt.Sprintf("SplitNalU piece %d is %x, want %x", i, got[i], want[i])
					}
				}
				if r := avc.RemoveStartCode(p); !bytes.Equal(r, Strip(p)) {
					return fmt.Sprintf("RemoveStartCode = %x, want %x", r, Strip(p))
				}
				if !bytes.Equal(p, in) {
					return "input changed"
				}
				return ""
			})
		}
		Words([]byte{0, 1, 2, 255}, 7, run)
		Words([]byte{0, 1}, 12, run)
		for t.More() {
			run(t.Stream([]byte{0x65, 0x67, 0x68, 0, 1}))
			run(t.Bytes(t.Intn(40)))
		}
	})
}
