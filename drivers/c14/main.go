package main

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"os"
	"syscall"

	. "drivers/lib"
	"github.com/lkmio/avformat"
	"github.com/lkmio/avformat/avc"
	"github.com/lkmio/avformat/hevc"
	"github.com/lkmio/avformat/utils"
)

// params builds a stream's codec data: 0 none, 1 H.264, 2 H.265, 3 and 4 with large units
func params(kind, ls int) (avformat.CodecData, []byte) {
	sps, pps, vps := []byte{0, 0, 0, 1, 0x67, 1, 2}, []byte{0, 0, 0, 1, 0x68, 3}, []byte{0, 0, 0, 1, 0x40, 1, 9}
	switch kind {
	case 3:
		sps = append(sps, bytes.Repeat([]byte{3}, 700)...)
		r := &avc.AVCDecoderConfigurationRecord{SPSList: [][]byte{sps}, PPSList: [][]byte{pps}}
		return &avformat.AVCCodecData{Record: r}, bytes.Join([][]byte{sps, pps}, nil)
	case 4:
		pps = append(pps, bytes.Repeat([]byte{3}, 700)...)
		r := &hevc.HEVCDecoderConfigurationRecord{VPSList: [][]byte{vps}, SPSList: [][]byte{sps}, PPSList: [][]byte{pps}}
		r.LengthSizeMinusOne = byte(ls)
		return &avformat.HEVCCodecData{Record: r}, bytes.Join([][]byte{vps, sps, pps}, nil)
	case 1:
		r := &avc.AVCDecoderConfigurationRecord{SPSList: [][]byte{sps}, PPSList: [][]byte{pps, pps[:5]}}
		return &avformat.AVCCodecData{Record: r}, bytes.Join([][]byte{sps, pps, pps[:5]}, nil)
	case 2:
		sps = []byte{0, 0, 0, 1, 0x42, 1, 2}
		pps = []byte{0, 0, 0, 1, 0x44, 1, 2, 3}
		r := &hevc.HEVCDecoderConfigurationRecord{VPSList: [][]byte{vps}, SPSList: [][]byte{sps, sps[:6]}, PPSList: [][]byte{pps}}
		r.LengthSizeMinusOne = byte(ls) // the size in bytes; 0: unset
		return &avformat.HEVCCodecData{Record: r}, bytes.Join([][]byte{vps, sps, sps[:6], pps}, nil)
	}
	return nil, nil
}

func main() {
	Run("video packets of every codec, packing, key flag, parameter sets and length size over streams of many tiny units, large units and malformed lengths; each conversion asked twice, with and without a buffer hook", func(t *T) {
		if f, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
			syscall.Dup2(int(f.Fd()), 2) // println of malformed packets
		}
		run := func(data []byte, id utils.AVCodecID, pt avformat.PacketType, key bool, kind, ls int, hook bool) {
			d := fmt.Sprintf("%d bytes %.400x", len(data), data)
			t.Case(fmt.Sprintf("codec %v packing %v key %v parameters %d length size %d hook %v data %s", id, pt, key, kind, ls, hook, d), func() string {
				p := Exact(data)
				in := Exact(data)
				par, extra := params(kind, ls)
				st := avformat.NewAVStream(utils.AVMediaTypeVideo, 0, id, nil, par)
				pk := avformat.NewVideoPacket(p, 1, 2, key, pt, id, 0, 1000)
				asked := 0
				if hook {
					pk.OnBufferAlloc = func(n int) []byte { asked++; return bytes.Repeat([]byte{0xA5}, n)[:n:n] }
				}
				is := id == utils.AVCodecIdH264 || id == utils.AVCodecIdH265
				var want []byte
				ok := true
				switch {
				case pt == avformat.PacketTypeAVCC && is:
					if id == utils.AVCodecIdH264 {
						want = From264(p, nil, true)
					} else {
						l := 4
						if kind%2 == 0 && kind > 0 && ls > 0 {
							l = ls
						}
						want, ok = From265(p, nil, l)
					}
					if key {
						want = append(append([]byte(nil), extra...), want...)
					}
				default:
					want = p
					if key && is && kind != 0 {
						head := Strip(extra)[0]
						if u := Strip(p); len(u) == 0 || u[0] != head {
							want = append(append([]byte(nil), extra...), p...)
						}
					}
				}
				for i := 0; i < 2; i++ {
					got := avformat.AVCCPacket2AnnexB(st, pk)
					if !ok {
						if got != nil {
							return "malformed length fields, yet something was returned"
						}
					} else if !bytes.Equal(got, want) {
						return fmt.Sprintf("call %d: Annex-B form is %d bytes %.300x, want %d bytes %.300x", i+1, len(got), got, len(want), want)
					}
				}
				if !bytes.Equal(p, in) || !bytes.Equal(pk.Data, in) {
					return "the packet's data changed"
				}
				want = p
				if pt == avformat.PacketTypeAnnexB && is {
					want = nil
					for _, u := range Units(p) {
						if len(u) > 0 {
							want = append(binary.BigEndian.AppendUint32(want, uint32(len(u))), u...)
						}
					}
				}
				for i := 0; i < 2; i++ {
					if got := avformat.AnnexBPacket2AVCC(pk); !bytes.Equal(got, want) {
						return fmt.Sprintf("call %d: AVCC form is %d bytes %.300x, want %d bytes %.300x", i+1, len(got), got, len(want), want)
					}
				}
				if !bytes.Equal(p, in) || !bytes.Equal(pk.Data, in) || pk.Dts != 1 || pk.Pts != 2 || pk.Key != key || pk.PacketType != pt {
					return "the packet changed"
				}
				avformat.FreePacket(pk)
				return ""
			})
		}
		ids := []utils.AVCodecID{utils.AVCodecIdH264, utils.AVCodecIdH265, utils.AVCodecIdMPEG4}
		pts := []avformat.PacketType{avformat.PacketTypeAnnexB, avformat.PacketTypeAVCC, avformat.PacketTypeNONE}
		each := func(data []byte, ls int) {
			for _, id := range ids {
				for _, pt := range pts {
					for kind := 0; kind < 5; kind++ {
						run(data, id, pt, false, kind, ls, false)
						run(data, id, pt, true, kind, ls, true)
					}
				}
			}
		}
		heads := []byte{0x65, 0x67, 0x68, 0x06, 0x41, 0x09, 0x26, 0x40, 0x42, 0x2A, 0x02}
		each(nil, 0)
		for ls := 0; ls <= 4; ls++ {
			l := ls
			if ls == 0 {
				l = 4
			}
			for _, h := range heads {
				each(Prefixed(l, []byte{h, 1}), ls)
				each(append([]byte{0, 0, 0, 1}, h, 1), ls)
				each(append([]byte{0, 0, 1}, h, 1, 0, 0, 1, 0x41, 2), ls)
			}
			// many tiny units: the destination must be large enough
			for _, k := range []int{10, 100, 300, 1000} {
				for _, us := range []int{1, 2, 3} {
					each(bytes.Repeat(Prefixed(l, []byte{0x26, 1, 2}[:us]), k), ls)
				}
				for _, sc := range [][]byte{{0, 0, 1}, {0, 0, 0, 1}} {
					each(bytes.Repeat(append(sc[:len(sc):len(sc)], 0x65), k), ls)
				}
			}
		}
		// several packets of one stream: no conversion may touch an earlier one
		several := func(id utils.AVCodecID, spare int, hook bool, datas [][]byte, pts []avformat.PacketType) {
			t.Case(fmt.Sprintf("one stream of codec %v, parameter sets with %d spare bytes, hook %v, key frames %x of packings %v", id, spare, hook, datas, pts), func() string {
				sps, _ := hex.DecodeString("000000016742c01eda01e0089f961000000300100000030320f162ea")
				pps, _ := hex.DecodeString("0000000168ce0f2c")
				if spare > 0 {
					sps = append(make([]byte, 0, len(sps)+spare), sps...)
				}
				par, err := avformat.NewAVCCodecData(sps, pps)
				if err != nil {
					return err.Error()
				}
				extra := append([]byte(nil), par.AnnexBExtraData()...)
				st := avformat.NewAVStream(utils.AVMediaTypeVideo, 0, id, extra, par)
				var pks []*avformat.AVPacket
				var wants [][]byte
				for round := 0; round < 2; round++ {
					for i, d := range datas {
						if round == 0 {
							pk := avformat.NewVideoPacket(Exact(d), 0, 0, true, pts[i], id, 0, 1000)
							if hook {
								pk.OnBufferAlloc = func(n int) []byte { return make([]byte, n) }
							}
							pks = append(pks, pk)
							wants = append(wants, append([]byte(nil), avformat.AVCCPacket2AnnexB(st, pk)...))
						}
						if got := avformat.AVCCPacket2AnnexB(st, pks[i]); !bytes.Equal(got, wants[i]) {
							return fmt.Sprintf("Annex-B form of packet %d was %x and became %x", i, wants[i], got)
						}
						if !bytes.Equal(pks[i].Data, d) {
							return fmt.Sprintf("data of packet %d changed", i)
						}
					}
				}
				if !bytes.Equal(par.AnnexBExtraData(), extra) {
					return "the parameter sets changed"
				}
				return ""
			})
		}
		for _, id := range ids[:2] {
			for spare := 0; spare < 3; spare++ {
				for _, hook := range []bool{false, true} {
					for _, p1 := range pts {
						for _, p2 := range pts {
							several(id, spare*50, hook, [][]byte{{0, 0, 0, 2, 0x65, 1}, {0, 0, 0, 3, 0x65, 2, 9}}, []avformat.PacketType{p1, p2})
						}
					}
				}
			}
		}
		for t.More() {
			ls := t.Intn(5)
			l := ls
			if ls == 0 || t.Intn(3) == 0 {
				l = 4
			}
			var p []byte
			if t.Intn(2) == 0 {
				for k := t.Intn(8); k >= 0; k-- {
					u := append([]byte{heads[t.Intn(len(heads))]}, t.Bytes(t.Intn(8))...)
					p = append(p, Prefixed(l, u)...)
				}
			} else {
				p = t.Stream(heads)
			}
			if t.Intn(5) == 0 && len(p) > 0 {
				p[t.Intn(len(p))] = byte(t.Intn(256))
			}
			if t.Intn(5) == 0 {
				p = p[:t.Intn(len(p)+1)]
			}
			run(p, ids[t.Intn(3)], pts[t.Intn(3)], t.Intn(2) == 0, t.Intn(5), ls, t.Intn(2) == 0)
		}
	})
}
