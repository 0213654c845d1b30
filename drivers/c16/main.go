package main

import (
	"bytes"
	"encoding/binary"
	"fmt"

	. "drivers/lib"
	"github.com/lkmio/avformat/hevc"
)

func decode(p []byte) string {
	vps, sps, pps, ok := HEVCRecord(p)
	in := Exact(p)
	var r hevc.HEVCDecoderConfigurationRecord
	err := r.Unmarshal(in)
	if (err == nil) != ok {
		return fmt.Sprintf("Unmarshal error %v, record complete: %v", err, ok)
	}
	if ok {
		for i, l := range [][2][][]byte{{r.VPSList, vps}, {r.SPSList, sps}, {r.PPSList, pps}} {
			if s := SameUnits([]string{"VPS", "SPS", "PPS"}[i], l[0], l[1]); s != "" {
				return s
			}
		}
		w := r
		w.ConfigurationVersion = p[0]
		w.GeneralProfileSpace, w.GeneralTierFlag, w.GeneralProfileIdc = p[1]>>6, p[1]>>5&1, p[1]&31
		w.GeneralProfileCompatibilityFlags = binary.BigEndian.Uint32(p[2:])
		w.GeneralConstraintIndicatorFlags = uint64(binary.BigEndian.Uint32(p[6:]))<<16 | uint64(binary.BigEndian.Uint16(p[10:]))
		w.GeneralLevelIdc = p[12]
		w.MinSpatialSegmentationIdc = binary.BigEndian.Uint16(p[13:]) & 0xfff
		w.ParallelismType, w.ChromaFormat, w.BitDepthLumaMinus8, w.BitDepthChromaMinus8 = p[15]&3, p[16]&3, p[17]&7, p[18]&7
		w.AvgFrameRate = binary.BigEndian.Uint16(p[19:])
		w.ConstantFrameRate, w.NumTemporalLayers, w.TemporalIdNested, w.LengthSizeMinusOne = p[21]>>6, p[21]>>3&7, p[21]>>2&1, p[21]&3+1
		w.NumOfArrays = p[22]
		if fmt.Sprint(w) != fmt.Sprint(r) {
			return fmt.Sprintf("header fields %.300v, want %.300v", r, w)
		}
	}
	b, err := hevc.ExtraDataToAnnexB(in)
	if (err == nil) != ok {
		return fmt.Sprintf("ExtraDataToAnnexB error %v, record complete: %v", err, ok)
	}
	if ok && !bytes.Equal(b, Join(vps, sps, pps)) {
		return fmt.Sprintf("ExtraDataToAnnexB gave %.300x, want %.300x", b, Join(vps, sps, pps))
	}
	if !bytes.Equal(in, p) {
		return "input changed"
	}
	return ""
}

func main() {
	Run("HEVC records: random headers and arrays (types 32..34 and others, in any order, repeated, with 0 or more units), every truncation of them, random changes, and marshalling VPS, SPS and PPS lists with and without start code and reading them back", func(t *T) {
		for t.More() {
			var q []byte
			q = append(q, t.Bytes(22)...)
			n := t.Intn(7)
			q = append(q, byte(n))
			order := t.Perm(3)
			for i := 0; i < n; i++ {
				ty := byte(32 + t.Intn(3))
				if i < 3 && t.Intn(8) != 0 {
					ty = byte(32 + order[i])
				}
				if t.Intn(8) == 0 {
					ty = byte(t.Intn(64))
				}
				k := 1 + t.Intn(3)
				if t.Intn(10) == 0 {
					k = 0
				}
				if t.Intn(60) == 0 {
					k = 257
				}
				q = append(q, ty|byte(t.Intn(4))<<6, byte(k>>8), byte(k))
				for ; k > 0; k-- {
					s := t.Intn(8)
					if t.Intn(60) == 0 {
						s = 256 + t.Intn(70)
					}
					q = Put16(q, t.Bytes(s))
				}
			}
			for i := 0; i <= len(q) && i < 120; i++ {
				n := len(q) - i
				if len(q) > 120 && i > 0 {
					n = t.Intn(len(q) + 1)
				}
				p := q[:n]
				t.Case(fmt.Sprintf("record %.600x (%d bytes)", p, n), func() string { return decode(p) })
			}
			for i := 0; i < 10; i++ {
				p := Exact(q)
				k := t.Intn(len(p))
				if len(p) > 23 && t.Intn(3) > 0 {
					k = 22 + t.Intn(len(p)-22)
				}
				p[k] = byte(t.Intn(256))
				t.Case(fmt.Sprintf("record %.600x", p), func() string { return decode(p) })
			}
			p := append(Exact(q), t.Bytes(t.Intn(4))...)
			t.Case(fmt.Sprintf("record %.600x", p), func() string { return decode(p) })

			var ls, want [3][][]byte
			types := [3]byte{32, 33, 34}
			for i := range ls {
				k := 1 + t.Intn(3)
				if t.Intn(40) == 0 {
					k = 256 + t.Intn(10)
				}
				for ; k > 0; k-- {
					s := t.Intn(20)
					if len(ls[i]) == 0 {
						s++
					}
					if t.Intn(100) == 0 {
						s = []int{255, 256, 65535}[t.Intn(3)]
					}
					a, b := t.Unit(s)
					if s > 0 {
						b[0] = types[i]<<1 | b[0]&0x81
						a[len(a)-len(b)] = b[0]
					}
					ls[i], want[i] = append(ls[i], a), append(want[i], b)
				}
			}
			t.Case(fmt.Sprintf("marshal %.600x", ls), func() string {
				var r hevc.HEVCDecoderConfigurationRecord
				b, err := r.Marshal(ls[0], ls[1], ls[2])
				if err != nil {
					return "Marshal: " + err.Error()
				}
				vps, sps, pps, ok := HEVCRecord(b)
				if !ok {
					return fmt.Sprintf("marshalled an incomplete record %.300x", b)
				}
				for i, l := range [][][]byte{vps, sps, pps} {
					if !bytes.Equal(Join(l), Join(want[i])) {
						return fmt.Sprintf("record %.300x has other units of type %d", b, types[i])
					}
				}
				if b[0] != 1 || b[21]&3 != 3 || b[22] != 3 {
					return fmt.Sprintf("header %x", b[:23])
				}
				return decode(b)
			})
			t.Case("marshal outside the limits", func() string {
				var r hevc.HEVCDecoderConfigurationRecord
				u := [][]byte{{0x40, 1}}
				big := [][]byte{bytes.Repeat([]byte{0x40}, 65536)}
				for i, l := range [][3][][]byte{{nil, u, u}, {u, nil, u}, {u, u, nil}, {big, u, u}, {u, big, u}, {u, u, big}, {{{}}, u, u}, {u, {{0, 0, 1}}, u}, {u, u, {nil}}} {
					if _, err := r.Marshal(l[0], l[1], l[2]); err == nil {
						return fmt.Sprintf("no error for case %d", i)
					}
				}
				return ""
			})
		}
	})
}
