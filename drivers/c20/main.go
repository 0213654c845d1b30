package main

import (
	"bytes"
	"fmt"

	. "drivers/lib"
	"github.com/lkmio/avformat"
	"github.com/lkmio/avformat/avc"
	"github.com/lkmio/avformat/hevc"
	"github.com/lkmio/avformat/utils"
)

func last(p []byte, is func(h byte) bool) []byte {
	var r []byte
	for _, u := range Split(p) {
		u = Strip(u)
		if len(u) > 0 && is(u[0]) {
			r = append([]byte{0, 0, 0, 1}, u...)
		}
	}
	return r
}

func main() {
	Run("parameter set extraction from all streams of up to 4 units over the parameter-set headers and from random bytes; results compared byte for byte, then the frame is overwritten to see that they are copies", func(t *T) {
		run := func(p []byte) {
			t.Case(fmt.Sprintf("data %x", p), func() string {
				p := Exact(p)
				in := Exact(p)
				ty := func(n byte) func(byte) bool { return func(h byte) bool { return h&31 == n } }
				ty5 := func(n byte) func(byte) bool { return func(h byte) bool { return h>>1&63 == n } }
				ws, wp := last(p, ty(7)), last(p, ty(8))
				hv, hs, hp := last(p, ty5(32)), last(p, ty5(33)), last(p, ty5(34))
				s, pp, err := avc.ParseExtraDataFromKeyNALU(p)
				v5, s5, p5, err5 := hevc.ParseExtraDataFromKeyNALU(p)
				x4, xerr4 := avformat.ExtractVideoExtraDataFromKeyFrame(utils.AVCodecIdH264, p)
				x5, xerr5 := avformat.ExtractVideoExtraDataFromKeyFrame(utils.AVCodecIdH265, p)
				if x, err := avformat.ExtractVideoExtraDataFromKeyFrame(utils.AVCodecIdVP8, p); x != nil || err != nil {
					return fmt.Sprintf("VP8: %x %v", x, err)
				}
				if !bytes.Equal(p, in) {
					return "frame changed"
				}
				for i := range p {
					p[i] = 0xEE
				}
				if ws == nil || wp == nil {
					if err == nil {
						return "H.264: no error although a parameter set is missing"
					}
				} else if err != nil {
					return "H.264: " + err.Error()
				} else if !bytes.Equal(s, ws) || !bytes.Equal(pp, wp) {
					return fmt.Sprintf("H.264: got %x %x, want %x %x", s, pp, ws, wp)
				}
				if hv == nil || hs == nil || hp == nil {
					if err5 == nil {
						return "H.265: no error although a parameter set is missing"
					}
				} else if err5 != nil {
					return "H.265: " + err5.Error()
				} else if !bytes.Equal(v5, hv) || !bytes.Equal(s5, hs) || !bytes.Equal(p5, hp) {
					return fmt.Sprintf("H.265: got %x %x %x, want %x %x %x", v5, s5, p5, hv, hs, hp)
				}
				if (xerr4 == nil) != (err == nil) || (xerr5 == nil) != (err5 == nil) || xerr4 != nil && x4 != nil || xerr5 != nil && x5 != nil {
					return fmt.Sprintf("extra data %x (%v) and %x (%v), but the parts give %v and %v", x4, xerr4, x5, xerr5, err, err5)
				}
				if err == nil && !bytes.Equal(x4, append(append([]byte{}, ws...), wp...)) {
					return fmt.Sprintf("H.264 extra data %x, want %x %x", x4, ws, wp)
				}
				if err5 == nil && !bytes.Equal(x5, append(append(append([]byte{}, hv...), hs...), hp...)) {
					return fmt.Sprintf("H.265 extra data %x, want %x %x %x", x5, hv, hs, hp)
				}
				return ""
			})
		}
		Words([]byte{0, 1, 0x67, 0x68}, 6, run)
		hs := []byte{0x67, 0x68, 0x65, 0x40, 0x42, 0x44, 0x27, 0x28, 0x26}
		var rec func(p []byte, k int)
		rec = func(p []byte, k int) {
			run(p)
			if k == 0 {
				return
			}
			for i, h := range hs {
				q := append(p[:len(p):len(p)], []byte{0, 0, 0, 1}[(i+k)%2:]...)
				rec(append(q, []byte{h, byte(k), byte(i), 0}[:1+(i*k)%4]...), k-1)
			}
		}
		rec(nil, 4)
		for t.More() {
			run(t.Stream(hs))
			run(t.Bytes(t.Intn(30)))
		}
	})
}
