package main

import (
	"bytes"
	"fmt"

	. "drivers/lib"
	"github.com/lkmio/avformat/hevc"
)

func main() {
	Run("H.265 sequence parameter sets written bit by bit over all sub-layer counts and their profile/level flags, chroma formats, conformance windows and ordering information, with emulation prevention, with and without start code; the same truncated and mutated; short strings; random bytes", func(t *T) {
		check := func(in []byte, g Geo) string {
			keep := append([]byte{}, in...)
			s, err := hevc.ParseSPS(Exact(in))
			if !bytes.Equal(keep, in) {
				return "the input was changed"
			}
			if err != nil {
				return "error: " + err.Error()
			}
			if s.PicWidthInLumaSamples != g.LumaW || s.PicHeightInLumaSamples != g.LumaH {
				return fmt.Sprintf("luma size %dx%d, coded %dx%d", s.PicWidthInLumaSamples, s.PicHeightInLumaSamples, g.LumaW, g.LumaH)
			}
			if s.Width != g.Width || s.Height != g.Height {
				return fmt.Sprintf("size %dx%d, coded %dx%d", s.Width, s.Height, g.Width, g.Height)
			}
			return ""
		}
		for i := 0; i < 300 || t.More(); i++ {
			nal, g := t.SPS265(t.Intn(6) == 0)
			for _, sc := range [][]byte{nil, {0, 0, 1}, {0, 0, 0, 1}} {
				in := append(append([]byte{}, sc...), nal...)
				t.Case(fmt.Sprintf("sps %x (%s)", in, g.Desc), func() string { return check(in, g) })
			}
			n := len(nal) - 1
			for k := 0; k < 4 && n > 0; k++ {
				cut := nal[:1+t.Intn(n)]
				t.Case(fmt.Sprintf("truncated sps %x of %x (%s)", cut, nal, g.Desc), func() string {
					s, err := hevc.ParseSPS(Exact(cut))
					if err == nil && (s.Width != g.Width || s.Height != g.Height) {
						return fmt.Sprintf("no error, size %dx%d, coded %dx%d", s.Width, s.Height, g.Width, g.Height)
					}
					return ""
				})
			}
			bad := append([]byte{}, nal...)
			for k := t.Intn(4); k >= 0; k-- {
				bad[t.Intn(len(bad))] ^= 1 << uint(t.Intn(8))
			}
			t.Case(fmt.Sprintf("mutated sps %x", bad), func() string { hevc.ParseSPS(Exact(bad)); return "" })
			r := t.Bytes(t.Intn(40))
			t.Case(fmt.Sprintf("bytes %x", r), func() string { hevc.ParseSPS(Exact(r)); return "" })
			if i < 256 {
				for j := 0; j < 256; j += 5 {
					p := []byte{0x42, 1, byte(i), byte(j), 0, 0, 3, byte(j), byte(i)}
					k := (i + j/5) % 10
					t.Case(fmt.Sprintf("bytes %x", p[:k]), func() string { hevc.ParseSPS(Exact(p[:k])); return "" })
				}
			}
		}
	})
}
