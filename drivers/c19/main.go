package main

import (
	"fmt"

	. "drivers/lib"
	"github.com/lkmio/avformat"
	"github.com/lkmio/avformat/avc"
	"github.com/lkmio/avformat/hevc"
	"github.com/lkmio/avformat/utils"
)

// the header bytes of the units, in order: each byte after a start code
func heads(p []byte) (h []byte) {
	for i := 0; ; {
		q := Sc(p, i)
		if q < 0 {
			return
		}
		h = append(h, p[q+3])
		i = q + 3
	}
}

func main() {
	Run("key-frame detection on all streams of up to 3 units over all 256 unit headers (second and third over the interesting ones), all short byte strings, then random", func(t *T) {
		run := func(p []byte) {
			t.Case(fmt.Sprintf("data %x", p), func() string {
				p := Exact(p)
				w4, w5 := false, false
				d4, d5 := false, false
				for _, h := range heads(p) {
					if ty := h & 31; !d4 && ty != 6 && ty != 7 && ty != 8 && ty != 9 {
						d4, w4 = true, ty == 5
					}
					if ty := h >> 1 & 63; !d5 && ty != 32 && ty != 33 && ty != 34 && ty != 35 && ty != 39 && ty != 40 {
						d5, w5 = true, ty >= 16 && ty <= 23
					}
				}
				if g := avc.IsKeyFrame(p); g != w4 {
					return fmt.Sprintf("avc.IsKeyFrame = %v", g)
				}
				if g := hevc.IsKeyFrame(p); g != w5 {
					return fmt.Sprintf("hevc.IsKeyFrame = %v", g)
				}
				if avformat.IsKeyFrame(utils.AVCodecIdH264, p) != w4 || avformat.IsKeyFrame(utils.AVCodecIdH265, p) != w5 {
					return "avformat.IsKeyFrame differs from the codec's"
				}
				for _, id := range []utils.AVCodecID{0, utils.AVCodecIdAAC, utils.AVCodecIdPCMALAW, utils.AVCodecIdMPEG4, utils.AVCodecIdVP8} {
					if avformat.IsKeyFrame(id, p) {
						return fmt.Sprintf("codec %d has a key frame", id)
					}
				}
				return ""
			})
		}
		Words([]byte{0, 1, 0x65, 0x67}, 7, run)
		in := []byte{0x65, 0x67, 0x68, 0x06, 0x09, 0x41, 0x01, 0x26, 0x2A, 0x40, 0x42, 0x44, 0x46, 0x4E, 0x50, 0x0C, 0xE5}
		for a := 0; a < 256; a++ {
			for _, b := range in {
				run([]byte{0, 0, 1, byte(a)})
				run([]byte{0, 0, 0, 1, byte(a), 7, 0, 0, 1, b, 9, 9})
				run([]byte{9, 0, 0, 1, b, 0, 0, 1, byte(a)})
				for _, c := range in {
					run([]byte{0, 0, 1, b, 1, 0, 0, 1, c, 1, 0, 0, 0, 1, byte(a), 1, 0, 0, 1, 0x65})
				}
			}
		}
		for t.More() {
			run(t.Stream(in))
			run(t.Bytes(t.Intn(30)))
		}
	})
}
