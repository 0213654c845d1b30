package lib

import (
	"bytes"
	"encoding/binary"
	"fmt"
)

// Unit makes a random unit of n bytes, with or without a start code, and its bytes without it.
func (t *T) Unit(n int) (with, without []byte) {
	u := t.Bytes(n)
	for bytes.HasPrefix(u, []byte{0, 0, 1}) || bytes.HasPrefix(u, []byte{0, 0, 0, 1}) {
		u[0] = 9
	}
	switch t.Intn(3) {
	case 0:
		return append([]byte{0, 0, 1}, u...), u
	case 1:
		return append([]byte{0, 0, 0, 1}, u...), u
	}
	return append([]byte(nil), u...), u
}

// Start4 is the unit behind a 4-byte start code.
func Start4(u []byte) []byte { return append([]byte{0, 0, 0, 1}, u...) }

// Put16 appends a 2-byte length and the unit.
func Put16(b, u []byte) []byte {
	return append(binary.BigEndian.AppendUint16(b, uint16(len(u))), u...)
}

// Get16 reads n such units.
func Get16(p []byte, n int) (us [][]byte, rest []byte, ok bool) {
	for ; n > 0; n-- {
		if len(p) < 2 {
			return nil, nil, false
		}
		k := int(p[0])<<8 | int(p[1])
		if len(p) < 2+k {
			return nil, nil, false
		}
		us = append(us, p[2:2+k])
		p = p[2+k:]
	}
	return us, p, true
}

// SameUnits tells how list got differs from the units behind 4-byte start codes.
func SameUnits(what string, got, units [][]byte) string {
	if len(got) != len(units) {
		return fmt.Sprintf("%s: %d units, want %d", what, len(got), len(units))
	}
	for i := range got {
		if !bytes.Equal(got[i], Start4(units[i])) {
			return fmt.Sprintf("%s %d is %.200x, want a 4-byte start code and %.200x", what, i, got[i], units[i])
		}
	}
	return ""
}

// Join is the Annex-B form of the units.
func Join(lists ...[][]byte) (b []byte) {
	for _, l := range lists {
		for _, u := range l {
			b = append(b, Start4(u)...)
		}
	}
	return b
}

// AVCRecord decodes an AVC record: ok tells whether it is complete.
func AVCRecord(p []byte) (sps, pps [][]byte, ok bool) {
	if len(p) < 6 {
		return nil, nil, false
	}
	n := int(p[5] & 31)
	sps, rest, ok := Get16(p[6:], n)
	if !ok || n == 0 || len(rest) < 1 {
		return nil, nil, false
	}
	m := int(rest[0])
	pps, _, ok = Get16(rest[1:], m)
	if !ok || m == 0 {
		return nil, nil, false
	}
	return sps, pps, true
}

// HEVCRecord decodes an HEVC record.
func HEVCRecord(p []byte) (vps, sps, pps [][]byte, ok bool) {
	if len(p) < 23 {
		return nil, nil, nil, false
	}
	rest := p[23:]
	for n := int(p[22]); n > 0; n-- {
		if len(rest) < 3 {
			return nil, nil, nil, false
		}
		us, r, ok := Get16(rest[3:], int(rest[1])<<8|int(rest[2]))
		if !ok {
			return nil, nil, nil, false
		}
		switch rest[0] & 63 {
		case 32:
			vps = append(vps, us...)
		case 33:
			sps = append(sps, us...)
		case 34:
			pps = append(pps, us...)
		}
		rest = r
	}
	return vps, sps, pps, len(vps) > 0 && len(sps) > 0 && len(pps) > 0
}
