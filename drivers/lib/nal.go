package lib

import "bytes"

// Sc is the position of the first 00 00 01 at or after i that has a byte after it, or -1.
func Sc(p []byte, i int) int {
	for ; i+3 < len(p); i++ {
		if p[i] == 0 && p[i+1] == 0 && p[i+2] == 1 {
			return i
		}
	}
	return -1
}

// ScLen is the start code length at q, looking back no further than i.
func ScLen(p []byte, i, q int) int {
	if q > i && p[q-1] == 0 {
		return 4
	}
	return 3
}

// Units lists the (possibly empty) units between start codes the way a converter scans them.
func Units(p []byte) (us [][]byte) {
	q := Sc(p, 0)
	if q < 0 {
		return nil
	}
	s := q + 3
	for s < len(p) {
		q := Sc(p, s)
		if q < 0 {
			return append(us, p[s:])
		}
		us = append(us, p[s:q+3-ScLen(p, s, q)])
		s = q + 3
	}
	return us
}

// Split cuts p at the start codes found after the first three bytes of each piece.
func Split(p []byte) (ps [][]byte) {
	for {
		if len(p) < 3 {
			return append(ps, p)
		}
		q := Sc(p, 3)
		if q < 0 {
			return append(ps, p)
		}
		e := q + 3 - ScLen(p, 3, q)
		ps = append(ps, p[:e])
		p = p[e:]
	}
}

// Strip removes one leading start code.
func Strip(p []byte) []byte {
	if bytes.HasPrefix(p, []byte{0, 0, 1}) {
		return p[3:]
	}
	if bytes.HasPrefix(p, []byte{0, 0, 0, 1}) {
		return p[4:]
	}
	return p
}

// Words calls f with every byte string of length <= n over the alphabet.
func Words(alpha []byte, n int, f func(p []byte)) {
	var rec func(p []byte)
	rec = func(p []byte) {
		f(append([]byte(nil), p...))
		if len(p) == n {
			return
		}
		for _, a := range alpha {
			rec(append(p[:len(p):len(p)], a))
		}
	}
	rec(nil)
}

// Stream makes an Annex-B stream of random units (some empty, some with odd zero runs).
func (t *T) Stream(types []byte) []byte {
	var p []byte
	if t.Intn(6) == 0 {
		p = append(p, t.Bytes(t.Intn(4))...)
	}
	for k := t.Intn(7); k >= 0; k-- {
		p = append(p, []byte{0, 0, 0, 1}[t.Intn(2):]...)
		if t.Intn(12) == 0 {
			continue
		}
		p = append(p, types[t.Intn(len(types))])
		p = append(p, t.Bytes(t.Intn(12))...)
	}
	if t.Intn(8) == 0 {
		p = append(p, []byte{0, 0, 0, 1}[:t.Intn(5)]...)
	}
	return p
}

// Exact copies p into memory with exactly its capacity, so that reading past it panics.
func Exact(p []byte) []byte {
	q := make([]byte, len(p))
	copy(q, p)
	return q[:len(p):len(p)]
}
