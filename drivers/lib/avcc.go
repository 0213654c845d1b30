package lib

import "encoding/binary"

// From264 is H.264 length-prefixed data in Annex-B form; dropSEI for the slice converter.
func From264(p, extra []byte, dropSEI bool) (out []byte) {
	seen := false
	for len(p) > 4 {
		n := uint64(binary.BigEndian.Uint32(p))
		if n == 0 || n > uint64(len(p)-4) {
			break
		}
		u := p[4 : 4+n]
		p = p[4+n:]
		switch u[0] & 31 {
		case 6:
			if dropSEI {
				continue
			}
		case 7, 8:
			seen = true
		case 5:
			if !seen && len(extra) > 0 {
				out = append(out, extra...)
				seen = true
			}
		}
		if len(out) == 0 {
			out = append(out, 0)
		}
		out = append(out, 0, 0, 1)
		out = append(out, u...)
	}
	return
}

// From265 is H.265 length-prefixed data in Annex-B form; ok tells whether it is well formed.
func From265(p, extra []byte, ls int) (out []byte, ok bool) {
	seen := false
	for len(p) > 0 {
		if len(p) < ls {
			return nil, false
		}
		n := 0
		for _, b := range p[:ls] {
			n = n<<8 | int(b)
		}
		p = p[ls:]
		if n < 2 || n > len(p) {
			return nil, false
		}
		u := p[:n]
		p = p[n:]
		if ty := u[0] >> 1 & 63; ty >= 16 && ty <= 23 && !seen {
			seen = true
			out = append(out, extra...)
		}
		out = append(out, 0, 0, 0, 1)
		out = append(out, u...)
	}
	return out, true
}

// Prefixed is unit u behind its length in ls bytes.
func Prefixed(ls int, u []byte) []byte {
	var p []byte
	for i := ls - 1; i >= 0; i-- {
		p = append(p, byte(len(u)>>(8*i)))
	}
	return append(p, u...)
}
