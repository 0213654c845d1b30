package main

import (
	"bytes"
	"fmt"

	. "drivers/lib"
	"github.com/lkmio/avformat/avc"
)

func decode(p []byte) string {
	sps, pps, ok := AVCRecord(p)
	in := Exact(p)
	var r avc.AVCDecoderConfigurationRecord
	err := r.Unmarshal(in)
	if (err == nil) != ok {
		return fmt.Sprintf("Unmarshal error %v, record complete: %v", err, ok)
	}
	if ok {
		if s := SameUnits("SPS", r.SPSList, sps); s != "" {
			return s
		}
		if s := SameUnits("PPS", r.PPSList, pps); s != "" {
			return s
		}
		if r.ConfigurationVersion != p[0] || r.AVCProfileIndication != p[1] || r.ProfileCompatibility != p[2] || r.AVCLevelIndication != p[3] || r.LengthSizeMinusOne != p[4]&3 {
			return fmt.Sprintf("header fields %v", r)
		}
	}
	b, err := avc.ExtraDataToAnnexB(in)
	if (err == nil) != ok {
		return fmt.Sprintf("ExtraDataToAnnexB error %v, record complete: %v", err, ok)
	}
	if ok && !bytes.Equal(b, Join(sps, pps)) {
		return fmt.Sprintf("ExtraDataToAnnexB gave %.300x, want %.300x", b, Join(sps, pps))
	}
	b, err = avc.M4VCExtraDataToAnnexB(in)
	if ok && err != nil {
		return fmt.Sprintf("M4VCExtraDataToAnnexB error %v on a complete record", err)
	}
	// without units the lenient converter may accept, but never a cut list
	n := 0
	if len(p) >= 6 {
		n = int(p[5] & 31)
	}
	two := false
	var rest []byte
	lenient := len(p) >= 6
	if lenient {
		sps, rest, lenient = Get16(p[6:], n)
	}
	pps = nil
	if two = lenient && n > 0 && len(rest) > 2; two {
		pps, _, lenient = Get16(rest[1:], int(rest[0]))
	}
	if (err == nil) != lenient {
		return fmt.Sprintf("M4VCExtraDataToAnnexB error %v, units complete: %v", err, lenient)
	}
	if lenient && !bytes.Equal(b, Join(sps, pps)) {
		return fmt.Sprintf("M4VCExtraDataToAnnexB gave %.300x, want %.300x", b, Join(sps, pps))
	}
	if !bytes.Equal(in, p) {
		return "input changed"
	}
	return ""
}

func main() {
	Run("AVC records: marshalling 1..31 SPS and 1..255 PPS of 0..65535 bytes with and without start code and reading them back; reading all tails of length <= 5 over {0,1,2,255} behind a header, random records, every truncation of them and random bytes", func(t *T) {
		Words([]byte{0, 1, 2, 255}, 5, func(p []byte) {
			for _, n := range []byte{0xE1, 0x42} {
				q := append([]byte{1, 0x64, 7, 0x1f, 0xfe, n}, p...)
				t.Case(fmt.Sprintf("record %x", q), func() string { return decode(q) })
			}
		})
		for t.More() {
			ns, np := 1+t.Intn(3), 1+t.Intn(3)
			switch t.Intn(12) {
			case 0:
				ns, np = 31, 255
			case 1:
				ns, np = 1+t.Intn(31), 1+t.Intn(255)
			}
			var sps, pps, wantS, wantP [][]byte
			for i := 0; i < ns; i++ {
				n := 4 + t.Intn(20)
				if t.Intn(40) == 0 {
					n = []int{255, 256, 65535}[t.Intn(3)]
				}
				a, b := t.Unit(n)
				sps, wantS = append(sps, a), append(wantS, b)
			}
			for i := 0; i < np; i++ {
				n := t.Intn(20)
				if t.Intn(80) == 0 {
					n = []int{255, 256, 65535}[t.Intn(3)]
				}
				a, b := t.Unit(n)
				pps, wantP = append(pps, a), append(wantP, b)
			}
			var rec []byte
			t.Case(fmt.Sprintf("marshal sps %.400x pps %.400x", sps, pps), func() string {
				var a avc.AVCDecoderConfigurationRecord
				var err error
				rec, err = a.Marshal(sps, pps)
				if err != nil {
					return "Marshal: " + err.Error()
				}
				want := []byte{1, wantS[ns-1][1], wantS[ns-1][2], wantS[ns-1][3], 0xff, 0xE0 | byte(ns)}
				for _, u := range wantS {
					want = Put16(want, u)
				}
				want = append(want, byte(np))
				for _, u := range wantP {
					want = Put16(want, u)
				}
				if !bytes.Equal(rec, want) {
					return fmt.Sprintf("record %.400x, want %.400x", rec, want)
				}
				var r avc.AVCDecoderConfigurationRecord
				if err := r.Unmarshal(rec); err != nil {
					return "Unmarshal: " + err.Error()
				}
				if s := SameUnits("SPS", r.SPSList, wantS); s != "" {
					return s
				}
				if s := SameUnits("PPS", r.PPSList, wantP); s != "" {
					return s
				}
				if r.LengthSizeMinusOne != 3 {
					return fmt.Sprintf("length size %d", r.LengthSizeMinusOne)
				}
				return ""
			})
			for i := 0; i <= len(rec) && i < 200; i++ {
				n := i
				if len(rec) > 200 {
					n = t.Intn(len(rec) + 1)
				}
				q := rec[:n]
				t.Case(fmt.Sprintf("record %.600x (%d bytes)", q, n), func() string { return decode(q) })
			}
			for i := 0; i < 20 && len(rec) < 2000; i++ {
				q := Exact(rec)
				q[t.Intn(len(q))] = byte(t.Intn(256))
				t.Case(fmt.Sprintf("record %x", q), func() string { return decode(q) })
				q = append(Exact(rec), t.Bytes(t.Intn(4))...)
				t.Case(fmt.Sprintf("record %x", q), func() string { return decode(q) })
			}
			for i := 0; i < 20; i++ {
				q := t.Bytes(t.Intn(30))
				if len(q) > 5 && t.Intn(2) == 0 {
					q[5] = q[5]&0xE0 | byte(t.Intn(4))
				}
				t.Case(fmt.Sprintf("record %x", q), func() string { return decode(q) })
			}
			// outside the limits: an error, never a panic or a record that reads back differently
			bad := [][2]int{{0, 1}, {1, 0}, {32, 1}, {1, 256}}[t.Intn(4)]
			t.Case(fmt.Sprintf("marshal %d SPS and %d PPS", bad[0], bad[1]), func() string {
				var a avc.AVCDecoderConfigurationRecord
				if _, err := a.Marshal(make6(bad[0]), make6(bad[1])); err == nil {
					return "no error"
				}
				return ""
			})
			t.Case("marshal a unit of 65536 bytes or an SPS of 3", func() string {
				var a avc.AVCDecoderConfigurationRecord
				big := [][]byte{bytes.Repeat([]byte{7}, 65536)}
				for _, l := range [][2][][]byte{{big, make6(1)}, {make6(1), big}, {{{1, 2, 3}}, make6(1)}, {{{0, 0, 1, 1, 2, 3}}, make6(1)}} {
					if _, err := a.Marshal(l[0], l[1]); err == nil {
						return fmt.Sprintf("no error for sizes %d %d", len(l[0][0]), len(l[1][0]))
					}
				}
				return ""
			})
		}
	})
}

func make6(n int) (l [][]byte) {
	for i := 0; i < n; i++ {
		l = append(l, []byte{0x67, 1, 2, 3, 4, 5})
	}
	return l
}
