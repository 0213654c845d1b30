package main

import (
	"fmt"
	"reflect"

	. "drivers/lib"
	"github.com/lkmio/avformat"
	"github.com/lkmio/avformat/utils"
)

// fields that must hold their zero value unless given; every field of the struct is looked at
func check(p *avformat.AVPacket, want map[string]interface{}) string {
	v := reflect.ValueOf(p).Elem()
	for i := 0; i < v.NumField(); i++ {
		f, n := v.Field(i), v.Type().Field(i).Name
		if n == "Data" {
			w, _ := want[n].([]byte)
			d := p.Data
			if len(d) != len(w) || len(d) > 0 && &d[0] != &w[0] {
				return fmt.Sprintf("Data is %v want %v", d, w)
			}
			continue
		}
		if w, ok := want[n]; ok {
			if fmt.Sprintf("%#v", f) != fmt.Sprintf("%#v", reflect.ValueOf(w)) {
				return fmt.Sprintf("%s is %v want %v", n, f, w)
			}
			continue
		}
		if n == "PacketType" && f.Uint() == uint64(avformat.PacketTypeNONE) {
			continue
		}
		if n == "MediaType" && f.Int() == int64(utils.AVMediaTypeUnknown) {
			continue
		}
		if n == "CodecID" && f.Int() == int64(utils.AVCodecIdNONE) {
			continue
		}
		if !f.IsZero() {
			return fmt.Sprintf("%s is %v, left over", n, f)
		}
	}
	return ""
}

func main() {
	Run("histories of obtaining, using (setting every field, converting, buffer hook) and freeing audio and video packets; every field of every packet compared when obtained, while in use and after freeing", func(t *T) {
		unit := func(b ...byte) []byte { return append([]byte{0, 0, 0, 1}, b...) }
		type held struct {
			p    *avformat.AVPacket
			want map[string]interface{}
		}
		for t.More() {
			n := 1 + t.Intn(12)
			seed := t.Int63()
			t.Case(fmt.Sprintf("history %x of %d steps", seed, n), func() string {
				var live []held
				for i := 0; i < n; i++ {
					what := ""
					var p *avformat.AVPacket
					var w map[string]interface{}
					data := unit(byte(0x65), byte(i), byte(t.Intn(256)), 7)
					if t.Intn(8) == 0 {
						data = nil
					}
					dts, pts, idx, tb := t.Int63()-1<<62, t.Int63()-1<<62, t.Intn(9), 1+t.Intn(90000)
					if t.Intn(4) == 0 {
						dts, pts, idx = 0, 0, 0
					}
					switch t.Intn(3) {
					case 0:
						what = "NewAudioPacket"
						id := []utils.AVCodecID{utils.AVCodecIdAAC, utils.AVCodecIdPCMALAW}[t.Intn(2)]
						p = avformat.NewAudioPacket(data, dts, id, idx, tb)
						w = map[string]interface{}{"Data": data, "Dts": dts, "Pts": dts, "CodecID": id, "Index": idx, "Timebase": tb, "MediaType": utils.AVMediaTypeAudio}
					case 1:
						what = "ExtractAudioPacket"
						q, err := avformat.ExtractAudioPacket(utils.AVCodecIdAAC, data, dts, idx, tb, t.Intn(2) == 0)
						if err != nil {
							return "error: " + err.Error()
						}
						p = q
						w = map[string]interface{}{"Data": data, "Dts": dts, "Pts": dts, "CodecID": utils.AVCodecIdAAC, "Index": idx, "Timebase": tb, "MediaType": utils.AVMediaTypeAudio}
					case 2:
						what = "NewVideoPacket"
						key := t.Intn(2) == 0
						pt := []avformat.PacketType{avformat.PacketTypeAnnexB, avformat.PacketTypeAVCC, avformat.PacketTypeNONE}[t.Intn(3)]
						id := []utils.AVCodecID{utils.AVCodecIdH264, utils.AVCodecIdH265}[t.Intn(2)]
						p = avformat.NewVideoPacket(data, dts, pts, key, pt, id, idx, tb)
						w = map[string]interface{}{"Data": data, "Dts": dts, "Pts": pts, "Key": key, "PacketType": pt, "CodecID": id, "Index": idx, "Timebase": tb, "MediaType": utils.AVMediaTypeVideo}
					}
					if s := check(p, w); s != "" {
						return fmt.Sprintf("step %d, packet from %s: %s", i, what, s)
					}
					for _, l := range live {
						if l.p == p {
							return fmt.Sprintf("step %d: %s gives a packet still in use", i, what)
						}
						if s := check(l.p, l.want); s != "" {
							return fmt.Sprintf("step %d: a packet in use changed: %s", i, s)
						}
					}
					if t.Intn(4) == 0 {
						live = append(live, held{p, w})
						continue
					}
					// use
					if t.Intn(3) > 0 {
						p.Duration = t.Int63()
					}
					if t.Intn(3) > 0 {
						p.CreatedTime = t.Int63()
					}
					if t.Intn(3) > 0 {
						p.BufferIndex = 1 + t.Intn(5)
					}
					if t.Intn(3) > 0 {
						p.OnBufferAlloc = func(n int) []byte { return make([]byte, n) }
					}
					if p.MediaType == utils.AVMediaTypeVideo && t.Intn(3) > 0 && len(p.Data) > 0 {
						st := &avformat.AVStream{CodecID: p.CodecID}
						if p.PacketType == avformat.PacketTypeAVCC {
							p.Data = []byte{0, 0, 0, 2, 0x65, 1}
						}
						avformat.AVCCPacket2AnnexB(st, p)
						avformat.AnnexBPacket2AVCC(p)
					}
					if t.Intn(3) == 0 {
						p.Key, p.Index, p.Timebase = true, 7, 90000
						p.PacketType = avformat.PacketTypeAVCC
					}
					if t.Intn(5) > 0 {
						avformat.FreePacket(p)
						if s := check(p, nil); s != "" {
							return fmt.Sprintf("step %d, freed packet: %s", i, s)
						}
					}
				}
				return ""
			})
		}
	})
}
