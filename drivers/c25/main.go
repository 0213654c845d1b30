package main

import (
	"fmt"

	. "drivers/lib"
	"github.com/lkmio/avformat"
	"github.com/lkmio/avformat/utils"
)

type own struct {
	s *avformat.AVStream
	n int
}

func (o own) GetStream() *avformat.AVStream { return o.s }

var codecs = []utils.AVCodecID{utils.AVCodecIdH264, utils.AVCodecIdH265, utils.AVCodecIdAAC, utils.AVCodecIdPCMALAW}
var types = []utils.AVMediaType{utils.AVMediaTypeVideo, utils.AVMediaTypeAudio, utils.AVMediaTypeData, utils.AVMediaTypeSubtitle, utils.AVMediaTypeUnknown}

func (a arg) track(i int) avformat.Track {
	s := &avformat.AVStream{MediaType: types[a.t], CodecID: codecs[a.c], Index: i}
	switch i % 3 {
	case 0:
		return &avformat.SimpleTrack{Stream: s}
	case 1:
		return avformat.SimpleTrack{Stream: s}
	}
	return &own{s, i}
}

type arg struct{ t, c int }

func main() {
	Run("track registries, muxers and demuxers with every short list of tracks and markers, then random ones; every lookup compared with the list of registered tracks after every addition", func(t *T) {
		lookups := func(m *avformat.TrackManager, ref []avformat.Track) string {
			if m.Size() != len(ref) || len(m.Tracks) != len(ref) {
				return fmt.Sprintf("%d tracks registered, size %d", len(ref), m.Size())
			}
			for i, r := range ref {
				if m.Get(i) != r || m.Tracks[i] != r {
					return fmt.Sprintf("track at %d is another one", i)
				}
			}
			for _, c := range codecs {
				var w avformat.Track
				for _, r := range ref {
					if r.GetStream().CodecID == c {
						w = r
						break
					}
				}
				if g := m.Find(c); g != w {
					return fmt.Sprintf("codec %v: found %v want %v", c, g, w)
				}
			}
			for _, c := range types {
				var w avformat.Track
				for _, r := range ref {
					if r.GetStream().MediaType == c {
						w = r
						break
					}
				}
				if g := m.FindTrackWithType(c); g != w {
					return fmt.Sprintf("media type %d: found %v want %v", int(c), g, w)
				}
			}
			return ""
		}
		run := func(h []arg) {
			t.Case(fmt.Sprintf("tracks (media type, codec) %v", h), func() string {
				m := &avformat.TrackManager{}
				x := &avformat.BaseMuxer{}
				d := &avformat.BaseDemuxer{}
				var all, mux []avformat.Track
				for i, a := range h {
					k := a.track(i)
					all = append(all, k)
					if !m.Add(k) {
						return "Add refuses a track"
					}
					if s := lookups(m, all); s != "" {
						return "registry: " + s
					}
					if !d.AddTrack(k) {
						return "the demuxer refuses a track"
					}
					if s := lookups(&d.Tracks, all); s != "" {
						return "demuxer: " + s
					}
					taken := false
					for _, r := range mux {
						taken = taken || r.GetStream().MediaType == k.GetStream().MediaType
					}
					if i == len(h)-1 && len(h)%2 == 0 {
						x.WriteHeader(nil)
					}
					n, err := x.AddTrack(k)
					if taken {
						if err == nil || n != -1 {
							return fmt.Sprintf("the muxer accepts a second track of media type %d: %d, %v", int(k.GetStream().MediaType), n, err)
						}
					} else {
						mux = append(mux, k)
						if err != nil || n != len(mux)-1 {
							return fmt.Sprintf("the muxer answers %d, %v for track %d", n, err, len(mux)-1)
						}
					}
					if s := lookups(&x.Tracks, mux); s != "" {
						return "muxer: " + s
					}
				}
				d.Completed = true
				if d.AddTrack(arg{0, 0}.track(0)) || d.Tracks.Size() != len(all) {
					return "a track is accepted after completion"
				}
				return ""
			})
		}
		marks := func(h []int) {
			t.Case(fmt.Sprintf("markers %v", h), func() string {
				d := &avformat.BaseDemuxer{}
				idx := map[int]int{}
				for i, m := range h {
					w, ok := idx[m]
					if !ok {
						w = len(idx)
						idx[m] = w
					}
					var g int
					if i%3 == 1 && m >= -1 && m <= 5 {
						g = d.FindBufferIndexByMediaType(utils.AVMediaType(m))
					} else {
						g = d.FindBufferIndex(m)
					}
					if g != w {
						return fmt.Sprintf("step %d: marker %d has index %d want %d", i, m, g, w)
					}
				}
				for m, w := range idx {
					if g := d.FindBufferIndex(m); g != w {
						return fmt.Sprintf("in the end marker %d has index %d want %d", m, g, w)
					}
				}
				return ""
			})
		}
		var rec func(h []arg, n int)
		rec = func(h []arg, n int) {
			run(append([]arg(nil), h...))
			if n == 0 {
				return
			}
			for a := 0; a < 3; a++ {
				for c := 0; c < 2; c++ {
					rec(append(h, arg{a, c}), n-1)
				}
			}
		}
		rec(nil, 4)
		vals := []int{0, 1, -1, 224, 192}
		var rm func(h []int, n int)
		rm = func(h []int, n int) {
			marks(append([]int(nil), h...))
			if n == 0 {
				return
			}
			for _, v := range vals {
				rm(append(h, v), n-1)
			}
		}
		rm(nil, 5)
		for t.More() {
			h := make([]arg, t.Intn(12))
			for i := range h {
				h[i] = arg{t.Intn(len(types)), t.Intn(len(codecs))}
			}
			run(h)
			k := make([]int, t.Intn(60))
			r := 1 + t.Intn(40)
			for i := range k {
				k[i] = t.Intn(r) - 3
				if t.Intn(20) == 0 {
					k[i] = int(t.Uint64())
				}
			}
			marks(k)
		}
	})
}
