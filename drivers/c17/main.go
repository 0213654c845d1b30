package main

import (
	"bytes"
	"fmt"

	. "drivers/lib"
	"github.com/lkmio/avformat/avc"
)

func main() {
	Run("H.264 sequence parameter sets written bit by bit over all profiles, chroma formats, scaling lists, picture order count types, cropping, field coding and VUI parts, with emulation prevention, with and without start code; the same truncated and mutated; all strings of up to 2 bytes after a header; random bytes", func(t *T) {
		check := func(in []byte, g Geo) string {
			keep := append([]byte{}, in...)
			s, err := avc.ParseSPS(Exact(in))
			if !bytes.Equal(keep, in) {
				return "the input was changed"
			}
			if err != nil {
				return "error: " + err.Error()
			}
			if s.ProfileIdc != g.Profile || s.LevelIdc != g.Level || s.Id != g.ID {
				return fmt.Sprintf("profile %d level %d id %d, coded %d %d %d", s.ProfileIdc, s.LevelIdc, s.Id, g.Profile, g.Level, g.ID)
			}
			if s.MbWidth != g.MbW || s.MbHeight != g.MbH {
				return fmt.Sprintf("%dx%d macroblocks, coded %dx%d", s.MbWidth, s.MbHeight, g.MbW, g.MbH)
			}
			if s.CropLeft != g.L || s.CropRight != g.R || s.CropTop != g.T || s.CropBottom != g.B {
				return fmt.Sprintf("cropping %d,%d,%d,%d, coded %d,%d,%d,%d", s.CropLeft, s.CropRight, s.CropTop, s.CropBottom, g.L, g.R, g.T, g.B)
			}
			if s.Width != g.Width || s.Height != g.Height {
				return fmt.Sprintf("size %dx%d, coded %dx%d", s.Width, s.Height, g.Width, g.Height)
			}
			return ""
		}
		for i := 0; i < 300 || t.More(); i++ {
			nal, g := t.SPS264(t.Intn(6) == 0)
			for _, sc := range [][]byte{nil, {0, 0, 1}, {0, 0, 0, 1}} {
				in := append(append([]byte{}, sc...), nal...)
				t.Case(fmt.Sprintf("sps %x (%s)", in, g.Desc), func() string { return check(in, g) })
			}
			// truncated: an error, or the coded geometry (up to the last byte that belongs to it)
			n := len(nal) - 1
			for k := 0; k < 4 && n > 0; k++ {
				cut := nal[:1+t.Intn(n)]
				t.Case(fmt.Sprintf("truncated sps %x of %x (%s)", cut, nal, g.Desc), func() string {
					s, err := avc.ParseSPS(Exact(cut))
					if err == nil && (s.Width != g.Width || s.Height != g.Height) {
						return fmt.Sprintf("no error, size %dx%d, coded %dx%d", s.Width, s.Height, g.Width, g.Height)
					}
					return ""
				})
			}
			bad := append([]byte{}, nal...)
			for k := t.Intn(4); k >= 0; k-- {
				bad[t.Intn(len(bad))] ^= 1 << uint(t.Intn(8))
			}
			t.Case(fmt.Sprintf("mutated sps %x", bad), func() string { avc.ParseSPS(Exact(bad)); return "" })
			r := t.Bytes(t.Intn(40))
			t.Case(fmt.Sprintf("bytes %x", r), func() string { avc.ParseSPS(Exact(r)); return "" })
			if i < 256 {
				for j := 0; j < 256; j++ {
					p := []byte{0x67, byte(100 + 22*(i&1)), 0, byte(i), byte(j)}
					for k := 0; k <= 5; k += 5 - i%5 {
						t.Case(fmt.Sprintf("bytes %x", p[:k]), func() string { avc.ParseSPS(Exact(p[:k])); return "" })
					}
				}
			}
		}
	})
}
