package main

import (
	"bytes"
	"fmt"

	. "drivers/lib"
	"github.com/lkmio/avformat"
	"github.com/lkmio/avformat/avc"
	"github.com/lkmio/avformat/hevc"
	"github.com/lkmio/avformat/utils"
)

func clone(p []byte) []byte { return append([]byte{}, p...) }

// raw removes a start code.
func raw(u []byte) []byte {
	for _, sc := range [][]byte{{0, 0, 0, 1}, {0, 0, 1}} {
		if bytes.HasPrefix(u, sc) {
			return u[len(sc):]
		}
	}
	return u
}

func raws(us [][]byte) (r [][]byte) {
	for _, u := range us {
		r = append(r, raw(u))
	}
	return
}

func same(what string, got, want [][]byte) string {
	if len(got) != len(want) {
		return fmt.Sprintf("%s: %d units, want %d", what, len(got), len(want))
	}
	for i := range got {
		if !bytes.Equal(got[i], want[i]) {
			return fmt.Sprintf("%s %d is %.200x, want %.200x", what, i, got[i], want[i])
		}
	}
	return ""
}

func size(data []byte, h265 bool) (w, h int, ok bool) {
	if h265 {
		s, err := hevc.ParseSPS(clone(data))
		return s.Width, s.Height, err == nil
	}
	s, err := avc.ParseSPS(clone(data))
	return s.Width, s.Height, err == nil
}

// check compares codec data with the units it must hold and its mp4 form (nil: marshalled).
// annexb is the wanted Annex-B form.
func check(c avformat.CodecData, h265 bool, vps, sps, pps [][]byte, mp4 []byte) string {
	if c == nil {
		return "no codec data"
	}
	for round := 0; round < 2; round++ {
		if msg := same("SPS", c.SPS(), sps); msg != "" {
			return msg
		}
		if msg := same("PPS", c.PPS(), pps); msg != "" {
			return msg
		}
		if h265 {
			v, ok := c.(*avformat.HEVCCodecData)
			if !ok {
				return fmt.Sprintf("codec data is a %T", c)
			}
			if msg := same("VPS", v.VPS(), vps); msg != "" {
				return msg
			}
		} else if _, ok := c.(*avformat.AVCCodecData); !ok {
			return fmt.Sprintf("codec data is a %T", c)
		}
		var want []byte
		for _, l := range [][][]byte{vps, sps, pps} {
			for _, u := range l {
				want = append(want, u...)
			}
		}
		if a := c.AnnexBExtraData(); !bytes.Equal(a, want) {
			return fmt.Sprintf("Annex-B form %.300x, want %.300x", a, want)
		}
		w, h, ok := size(sps[0], h265)
		if !ok || c.Width() != w || c.Height() != h {
			return fmt.Sprintf("size %dx%d, the first SPS codes %dx%d (%v)", c.Width(), c.Height(), w, h, ok)
		}
		m := c.MP4ExtraData()
		if mp4 != nil {
			if !bytes.Equal(m, mp4) {
				return fmt.Sprintf("MP4 form %.300x, want the record %.300x", m, mp4)
			}
		} else if h265 {
			v, s, p, ok := HEVCRecord(m)
			if !ok {
				return fmt.Sprintf("MP4 form %.300x is no record", m)
			}
			for _, e := range []string{same("VPS in the MP4 form", v, raws(vps)), same("SPS in the MP4 form", s, raws(sps)), same("PPS in the MP4 form", p, raws(pps))} {
				if e != "" {
					return e
				}
			}
		} else {
			s, p, ok := AVCRecord(m)
			if !ok {
				return fmt.Sprintf("MP4 form %.300x is no record", m)
			}
			for _, e := range []string{same("SPS in the MP4 form", s, raws(sps)), same("PPS in the MP4 form", p, raws(pps))} {
				if e != "" {
					return e
				}
			}
			u := raw(sps[0])
			if m[0] != 1 || m[1] != u[1] || m[2] != u[2] || m[3] != u[3] {
				return fmt.Sprintf("MP4 form starts %x, the SPS is %x", m[:4], u[:4])
			}
		}
	}
	return ""
}

// helper compares what the record helper returns for a record with its units and the size of
// its first SPS; ok tells whether the record is well-formed.
func helper(rec []byte, h265, ok bool, vps, sps, pps [][]byte) string {
	var v, s, p [][]byte
	var w, h int
	var err error
	if h265 {
		r, i, e := hevc.NewCodecDataFromHEVCDecoderConfigurationRecord(rec)
		if err = e; e == nil {
			v, s, p, w, h = r.VPSList, r.SPSList, r.PPSList, i.Width, i.Height
		} else if r != nil || i != nil {
			return "record helper: results with an error"
		}
	} else {
		r, i, e := avc.NewCodecDataFromAVCDecoderConfigurationRecord(rec)
		if err = e; e == nil {
			s, p, w, h = r.SPSList, r.PPSList, i.Width, i.Height
		} else if r != nil || i != nil {
			return "record helper: results with an error"
		}
	}
	if ok != (err == nil) {
		return fmt.Sprintf("record helper: well-formed %v, error %v", ok, err)
	}
	if !ok {
		return ""
	}
	if h265 {
		if msg := same("record helper VPS", v, vps); msg != "" {
			return msg
		}
	}
	if msg := same("record helper SPS", s, sps); msg != "" {
		return msg
	}
	if msg := same("record helper PPS", p, pps); msg != "" {
		return msg
	}
	if sw, sh, _ := size(sps[0], h265); sw != w || sh != h {
		return fmt.Sprintf("record helper: size %d x %d, want %d x %d", w, h, sw, sh)
	}
	return ""
}

func checkStream(s *avformat.AVStream, err error, h265 bool, index int, vps, sps, pps [][]byte) string {
	if err != nil {
		return "error: " + err.Error()
	}
	if s.MediaType != utils.AVMediaTypeVideo {
		return fmt.Sprintf("media type %v", s.MediaType)
	}
	id := utils.AVCodecIdH264
	if h265 {
		id = utils.AVCodecIdH265
	}
	if s.CodecID != id {
		return fmt.Sprintf("codec %v, want %v", s.CodecID, id)
	}
	if s.Index != index {
		return fmt.Sprintf("index %d, want %d", s.Index, index)
	}
	if msg := check(s.CodecParameters, h265, vps, sps, pps, nil); msg != "" {
		return msg
	}
	var want []byte
	for _, l := range [][][]byte{vps, sps, pps} {
		for _, u := range l {
			want = append(want, u...)
		}
	}
	if !bytes.Equal(s.Data, want) {
		return fmt.Sprintf("extra data %.300x, want %.300x", s.Data, want)
	}
	return ""
}

func avcRecord(t *T, sps, pps [][]byte) []byte {
	r := []byte{1, byte(t.Intn(256)), byte(t.Intn(256)), byte(t.Intn(256)), byte(t.Intn(256)), byte(len(sps)) | byte(t.Intn(8))<<5}
	for _, u := range sps {
		r = Put16(r, u)
	}
	r = append(r, byte(len(pps)))
	for _, u := range pps {
		r = Put16(r, u)
	}
	return append(r, t.Bytes(t.Intn(2)*t.Intn(5))...)
}

func hevcRecord(t *T, vps, sps, pps [][]byte) []byte {
	r := append(t.Bytes(22), 0)
	r[0] = 1
	type arr struct {
		ty byte
		us [][]byte
	}
	as := []arr{{32, vps}, {33, sps}, {34, pps}}
	for i := t.Intn(3); i > 0; i-- {
		as = append(as, arr{39 + byte(t.Intn(2)), [][]byte{t.Bytes(t.Intn(9))}})
	}
	t.Shuffle(len(as), func(i, j int) { as[i], as[j] = as[j], as[i] })
	r[22] = byte(len(as))
	for _, a := range as {
		r = append(r, a.ty|byte(t.Intn(4))<<6, 0, byte(len(a.us)))
		for _, u := range a.us {
			r = Put16(r, u)
		}
	}
	return r
}

func starts(us [][]byte) (r [][]byte) {
	for _, u := range us {
		r = append(r, Start4(u))
	}
	return
}

type handler struct{}

func (handler) OnNewTrack(avformat.Track)   {}
func (handler) OnTrackComplete()            {}
func (handler) OnTrackNotFind()             {}
func (handler) OnPacket(*avformat.AVPacket) {}

type pipe struct{ avformat.DataPipeline }

func (pipe) DiscardBackPacket(int) {}
func (pipe) DiscardHeadPacket(int) {}

func main() {
	Run("codec data from random parameter sets with 0, 3 and 4 byte start codes, from records with 1 to 3 units per kind in any array order, the same truncated and mutated, and from key frames with repeated, missing and malformed parameter sets between other units; every accessor compared with the units, the Annex-B and MP4 forms decoded independently; streams made by the Create functions and through a flv, ps and ts demuxer", func(t *T) {
		for i := 0; i < 100 || t.More(); i++ {
			for _, h265 := range []bool{false, true} {
				h265 := h265
				mk := func(kind int) []byte { // 0 VPS, 1 SPS, 2 PPS
					if kind == 1 {
						for {
							var u []byte
							if h265 {
								u, _ = t.SPS265(t.Intn(8) == 0)
							} else {
								u, _ = t.SPS264(t.Intn(8) == 0)
							}
							for len(u) > 4 && u[len(u)-1] == 0 {
								u = u[:len(u)-1]
							}
							if _, _, ok := size(u, h265); ok {
								return u
							}
						}
					}
					u := Escape(append(t.Bytes(2+t.Intn(8)), byte(1+t.Intn(255))))
					if h265 {
						u[0] = []byte{0x40, 0, 0x44}[kind]
						u[1] = 1
					} else {
						u[0] = []byte{0, 0, 0x68}[kind] &^ byte(t.Intn(2)<<5)
					}
					if bytes.Contains(u, []byte{0, 0, 1}) || bytes.Contains(u, []byte{0, 0, 0}) {
						return []byte{u[0], 1, 2, 3}
					}
					return u
				}
				list := func(kind int) (r [][]byte) {
					for n := 1 + t.Intn(2)*t.Intn(3); n > 0; n-- {
						r = append(r, mk(kind))
					}
					return
				}
				code := func(u []byte) []byte {
					return append(append([]byte{}, [][]byte{nil, {0, 0, 1}, {0, 0, 0, 1}}[t.Intn(3)]...), u...)
				}
				fresh := func(v, s, p []byte) (avformat.CodecData, error) {
					if h265 {
						return avformat.NewHEVCCodecData(v, s, p)
					}
					return avformat.NewAVCCodecData(s, p)
				}
				one := func(u []byte) [][]byte { return [][]byte{u} }
				lv := func(v [][]byte) [][]byte {
					if h265 {
						return v
					}
					return nil
				}
				v, s, p := code(mk(0)), code(mk(1)), code(mk(2))
				t.Case(fmt.Sprintf("h265 %v: codec data from VPS %x SPS %x PPS %x", h265, v, s, p), func() string {
					iv, is, ip := Exact(v), Exact(s), Exact(p)
					var all []byte
					if t.Intn(2) == 0 { // views of one buffer, with room behind each
						all = append(append(append(append(append(clone(v), 7, 7), s...), 8, 8, 8), p...), 9)
						iv, is, ip = all[:len(v)], all[len(v)+2:][:len(s)], all[len(v)+len(s)+5:][:len(p)]
					}
					keep := clone(all)
					c, err := fresh(iv, is, ip)
					if err != nil {
						return "error: " + err.Error()
					}
					if msg := check(c, h265, lv(one(v)), one(s), one(p), nil); msg != "" {
						return msg
					}
					if !bytes.Equal(iv, v) || !bytes.Equal(is, s) || !bytes.Equal(ip, p) {
						return "a parameter set was changed"
					}
					if !bytes.Equal(all, keep) {
						return "bytes next to the parameter sets were changed"
					}
					return ""
				})
				bad := clone(s)
				switch t.Intn(3) {
				case 0:
					bad = bad[:t.Intn(len(bad))]
				case 1:
					for k := t.Intn(4); k >= 0; k-- {
						bad[t.Intn(len(bad))] ^= 1 << uint(t.Intn(8))
					}
				default:
					bad = t.Bytes(t.Intn(12))
				}
				t.Case(fmt.Sprintf("h265 %v: codec data from SPS %x", h265, bad), func() string {
					c, err := fresh(clone(v), Exact(bad), clone(p))
					if _, _, ok := size(bad, h265); ok != (err == nil) || err != nil && c != nil {
						return fmt.Sprintf("SPS parses: %v, codec data %v, error %v", ok, c, err)
					}
					return ""
				})

				// records
				V, S, P := list(0), list(1), list(2)
				parse := avformat.ParseAVCDecoderConfigurationRecord
				rec := avcRecord(t, S, P)
				if h265 {
					parse = avformat.ParseHEVCDecoderConfigurationRecord
					rec = hevcRecord(t, V, S, P)
				}
				t.Case(fmt.Sprintf("h265 %v: record %x", h265, rec), func() string {
					in := Exact(rec)
					c, err := parse(in)
					if err != nil {
						return "error: " + err.Error()
					}
					if msg := check(c, h265, starts(lv(V)), starts(S), starts(P), rec); msg != "" {
						return msg
					}
					if !bytes.Equal(in, rec) {
						return "the record was changed"
					}
					return helper(in, h265, true, starts(lv(V)), starts(S), starts(P))
				})
				for k := 0; k < 3; k++ {
					cut := rec[:t.Intn(len(rec)+1)]
					if k == 2 {
						cut = clone(rec)
						for j := t.Intn(4); j >= 0; j-- {
							cut[t.Intn(len(cut))] ^= 1 << uint(t.Intn(8))
						}
					}
					t.Case(fmt.Sprintf("h265 %v: record %x", h265, cut), func() string {
						c, err := parse(Exact(cut))
						var v, s, p [][]byte
						var ok bool
						if h265 {
							v, s, p, ok = HEVCRecord(cut)
							ok = ok && len(v) > 0 && len(s) > 0 && len(p) > 0
						} else {
							s, p, ok = AVCRecord(cut)
						}
						if ok {
							_, _, ok = size(s[0], h265)
						}
						if ok != (err == nil) || err != nil && c != nil {
							return fmt.Sprintf("well-formed: %v, codec data %v, error %v", ok, c, err)
						}
						if ok {
							if msg := check(c, h265, starts(v), starts(s), starts(p), cut); msg != "" {
								return msg
							}
						}
						return helper(Exact(cut), h265, ok, starts(v), starts(s), starts(p))
					})
				}

				// key frames
				lastV, lastS, lastP := []byte(nil), []byte(nil), []byte(nil)
				var frame []byte
				for k := 3 + t.Intn(5); k > 0; k-- {
					var u []byte
					switch j := t.Intn(5); {
					case j == 0 && h265:
						u = mk(0)
						lastV = u
					case j == 1:
						u = mk(1)
						if t.Intn(10) == 0 {
							u = u[:3]
							u = append(clone(u[:2]), 0xff)
						}
						lastS = u
					case j == 2:
						u = mk(2)
						lastP = u
					case j == 3:
						u = []byte{0x65, 1, 2, byte(1 + t.Intn(255))}
						if h265 {
							u[0] = 0x26
						}
					default:
						u = []byte{0x06, 1, byte(1 + t.Intn(255))}
						if h265 {
							u[0] = 0x4e
						}
					}
					frame = append(append(frame, []byte{0, 0, 0, 1}[t.Intn(2):]...), u...)
				}
				ok := lastS != nil && lastP != nil && (lastV != nil || !h265)
				if ok {
					_, _, ok = size(lastS, h265)
				}
				index := t.Intn(9) - 1
				create := avformat.CreateAVCStreamFromKeyFrame
				id := utils.AVCodecIdH264
				if h265 {
					create = avformat.CreateHevcStreamFromKeyFrame
					id = utils.AVCodecIdH265
				}
				t.Case(fmt.Sprintf("h265 %v: stream %d from key frame %x", h265, index, frame), func() string {
					in := Exact(frame)
					s, err := create(in, index)
					if !bytes.Equal(in, frame) {
						return "the frame was changed"
					}
					if !ok {
						if err == nil || s != nil {
							return fmt.Sprintf("stream %v, error %v from malformed parameter sets", s, err)
						}
						return ""
					}
					for i := range in {
						in[i] = 0xEE
					}
					return checkStream(s, err, h265, index, lv(starts(one(lastV))), starts(one(lastS)), starts(one(lastP)))
				})
				for _, name := range []string{"ps", "ts", "flv"} {
					in, want, annexb := frame, ok, true
					if name == "flv" {
						in, want, annexb = rec, true, false
					}
					t.Case(fmt.Sprintf("h265 %v: %s video track from %x", h265, name, in), func() string {
						d := &avformat.BaseDemuxer{Name: name, Handler: handler{}, DataPipeline: pipe{}}
						e := Exact(in)
						tr := d.OnNewVideoTrack(0, id, 1000, e)
						if !bytes.Equal(e, in) {
							return "the extra data was changed"
						}
						if (tr != nil) != want {
							return fmt.Sprintf("track %v, want one: %v", tr, want)
						}
						if tr == nil {
							return ""
						}
						c := tr.GetStream().CodecParameters
						for i := range e {
							e[i] = 0xEE
						}
						if annexb {
							return check(c, h265, lv(starts(one(lastV))), starts(one(lastS)), starts(one(lastP)), nil)
						}
						return check(c, h265, starts(lv(V)), starts(S), starts(P), rec)
					})
				}
			}
			r := t.Bytes(t.Intn(60))
			t.Case(fmt.Sprintf("bytes %x", r), func() string {
				avformat.ParseAVCDecoderConfigurationRecord(Exact(r))
				avformat.ParseHEVCDecoderConfigurationRecord(Exact(r))
				avformat.CreateAVCStreamFromKeyFrame(Exact(r), 0)
				avformat.CreateHevcStreamFromKeyFrame(Exact(r), 0)
				return ""
			})
		}
	})
}
