package lib

import "fmt"

// Geo is what a sequence parameter set codes.
type Geo struct {
	Profile, Level, ID uint
	MbW, MbH           uint
	LumaW, LumaH       uint
	L, R, T, B         uint
	Width, Height      int
	Desc               string
	GeoBits            int // bits of the payload up to the end of the geometry
}

// Escape inserts emulation prevention bytes.
func Escape(p []byte) (o []byte) {
	z := 0
	for _, c := range p {
		if z >= 2 && c <= 3 {
			o = append(o, 3)
			z = 0
		}
		o = append(o, c)
		if c == 0 {
			z++
		} else {
			z = 0
		}
	}
	return
}

func (t *T) rare(n int) bool { return t.Intn(n) == 0 }

// extreme gives a size: mostly small, sometimes with long codes.
func (t *T) size(max uint64) uint64 {
	switch t.Intn(6) {
	case 0:
		return uint64(t.Intn(3))
	case 1:
		if max < 1<<16 {
			return max
		}
		return uint64(t.Int63()) % max
	case 2:
		return uint64(1)<<uint(t.Intn(12)) - 1
	default:
		return uint64(t.Intn(300))
	}
}

func (t *T) val() uint64 {
	switch t.Intn(5) {
	case 0:
		return uint64(t.Intn(1 << 16))
	case 1:
		return 1<<uint(t.Intn(30)) - 1
	default:
		return uint64(t.Intn(8))
	}
}

func (t *T) sval() int64 {
	v := int64(t.val())
	if t.Intn(2) == 0 {
		return -v
	}
	return v
}

func (t *T) bit(b *Bits, v bool) bool {
	x := 0
	if v {
		x = 1
	}
	b.Bit(x)
	return v
}

var high = map[uint]bool{100: true, 110: true, 122: true, 244: true, 44: true, 83: true, 86: true, 118: true, 128: true, 138: true, 139: true, 134: true, 135: true}
var profiles = []uint{100, 110, 122, 244, 44, 83, 86, 118, 128, 138, 139, 134, 135, 66, 77, 88}

// crop splits a total smaller than max units over two sides.
func (t *T) crop(max uint64) (a, b uint64) {
	if max == 0 {
		return
	}
	s := uint64(t.Int63()) % max
	if t.Intn(2) == 0 && max > 8 {
		s = uint64(t.Intn(8))
	}
	a = uint64(t.Int63()) % (s + 1)
	return a, s - a
}

// SPS264 makes an H.264 sequence parameter set NAL unit (without start code) and what it codes.
// big allows sizes beyond what codecs use.
func (t *T) SPS264(big bool) (nal []byte, g Geo) {
	max := uint64(600)
	if big {
		max = 1<<32 - 2
	}
	b := &Bits{}
	g.Profile = profiles[t.Intn(len(profiles))]
	if t.rare(8) {
		g.Profile = uint(t.Intn(256))
	}
	b.U(8, uint64(g.Profile))
	b.U(8, uint64(t.Intn(256))&^3)
	g.Level = uint(t.Intn(256))
	b.U(8, uint64(g.Level))
	g.ID = uint(t.Intn(32))
	b.UE(uint64(g.ID))
	chroma := uint64(1)
	nl := 0
	if high[g.Profile] {
		chroma = uint64(t.Intn(4))
		b.UE(chroma)
		if chroma == 3 {
			t.bit(b, t.rare(2))
		}
		b.UE(uint64(t.Intn(7)))
		b.UE(uint64(t.Intn(7)))
		t.bit(b, t.rare(2))
		if t.bit(b, t.rare(2)) {
			n := 8
			if chroma == 3 {
				n = 12
			}
			p := 1 + t.Intn(4)
			for i := 0; i < n; i++ {
				if !t.bit(b, t.rare(p)) {
					continue
				}
				nl++
				m := 16
				if i >= 6 {
					m = 64
				}
				last, next := int64(8), int64(8)
				stop := t.Intn(m * 2)
				full := t.rare(2) // every entry coded
				for j := 0; j < m; j++ {
					if next != 0 {
						d := int64(t.Intn(256) - 128)
						switch t.Intn(4) {
						case 0:
							d = 0
						case 1:
							d = -last
						}
						if full && (last+d+256)%256 == 0 {
							d ^= 1 // d is not zero here
						} else if j == stop && !full {
							d = -last // the rest repeats
						}
						if d < -128 {
							d += 256
						}
						b.SE(d)
						next = (last + d + 256) % 256
					}
					if next != 0 {
						last = next
					}
				}
			}
		}
	}
	b.UE(uint64(t.Intn(13)))
	poc := uint64(t.Intn(3))
	b.UE(poc)
	nr := 0
	switch poc {
	case 0:
		b.UE(uint64(t.Intn(13)))
	case 1:
		t.bit(b, t.rare(2))
		b.SE(t.sval())
		b.SE(t.sval())
		nr = t.Intn(6)
		if t.rare(6) {
			nr = t.Intn(256)
		}
		b.UE(uint64(nr))
		for i := 0; i < nr; i++ {
			b.SE(t.sval())
		}
	}
	b.UE(uint64(t.Intn(17)))
	t.bit(b, t.rare(2))
	w, h := t.size(max), t.size(max)
	b.UE(w)
	b.UE(h)
	g.MbW, g.MbH = uint(w)+1, uint(h)+1
	fmo := t.bit(b, t.rare(2))
	if !fmo {
		t.bit(b, t.rare(2))
	}
	t.bit(b, t.rare(2))
	W, H := uint64(g.MbW)*16, uint64(g.MbH)*16
	ux, uy := uint64(2), uint64(2)
	if chroma == 0 || chroma == 3 {
		ux, uy = 1, 1
	} else if chroma == 2 {
		uy = 1
	}
	if !fmo {
		H *= 2
		uy *= 2
	}
	if t.bit(b, t.rare(2)) {
		mx, my := W/ux, H/uy
		if mx > 1<<31 {
			mx = 1 << 31
		}
		if my > 1<<31 {
			my = 1 << 31
		}
		l, r := t.crop(mx)
		tp, bt := t.crop(my)
		b.UE(l)
		b.UE(r)
		b.UE(tp)
		b.UE(bt)
		g.L, g.R, g.T, g.B = uint(l), uint(r), uint(tp), uint(bt)
		W -= ux * (l + r)
		H -= uy * (tp + bt)
	}
	g.Width, g.Height = int(W), int(H)
	g.GeoBits = b.N
	vui := t.bit(b, t.rare(2))
	if vui {
		if t.bit(b, t.rare(2)) {
			idc := uint64(t.Intn(256))
			if t.rare(2) {
				idc = 255
			}
			b.U(8, idc)
			if idc == 255 {
				b.U(16, t.val()&0xffff)
				b.U(16, t.val()&0xffff)
			}
		}
		if t.bit(b, t.rare(2)) {
			t.bit(b, t.rare(2))
		}
		if t.bit(b, t.rare(2)) {
			b.U(3, uint64(t.Intn(8)))
			t.bit(b, t.rare(2))
			if t.bit(b, t.rare(2)) {
				b.U(24, uint64(t.Intn(1<<24)))
			}
		}
		if t.bit(b, t.rare(2)) {
			b.UE(uint64(t.Intn(6)))
			b.UE(uint64(t.Intn(6)))
		}
		if t.bit(b, t.rare(2)) {
			b.U(32, 1+t.val())
			b.U(32, t.val())
			t.bit(b, t.rare(2))
		}
		for _, n := 0, t.Intn(3); n >= 0; n-- { // hrd, restrictions: zeros
			b.Bit(0)
		}
		b.Bit(0)
	}
	b.Trail()
	nal = append([]byte{[]byte{0x67, 0x27, 0x47, 0x07}[t.Intn(4)]}, Escape(b.B)...)
	g.Desc = fmt.Sprintf("profile %d chroma %d lists %d poc %d/%d mbs %dx%d frame-mbs-only %v crop %d,%d,%d,%d vui %v", g.Profile, chroma, nl, poc, nr, g.MbW, g.MbH, fmo, g.L, g.R, g.T, g.B, vui)
	return
}

// SPS265 makes an H.265 sequence parameter set NAL unit (without start code) and what it codes.
func (t *T) SPS265(big bool) (nal []byte, g Geo) {
	max := uint64(8192)
	if big {
		max = 1<<32 - 2
	}
	b := &Bits{}
	b.U(4, uint64(t.Intn(16)))
	m := t.Intn(7)
	if t.rare(2) {
		m = 0
	}
	b.U(3, uint64(m))
	t.bit(b, t.rare(2))
	zero := t.rare(2)
	rnd := func(n int) {
		for i := 0; i < n; i++ {
			if zero {
				b.Bit(0)
			} else {
				b.Bit(t.Intn(2))
			}
		}
	}
	rnd(88)
	b.U(8, uint64(t.Intn(256)))
	if m > 0 {
		var pf, lf [8]bool
		for i := 0; i < m; i++ {
			pf[i] = t.bit(b, t.rare(2))
			lf[i] = t.bit(b, t.rare(2))
		}
		for i := m; i < 8; i++ {
			b.U(2, 0)
		}
		for i := 0; i < m; i++ {
			if pf[i] {
				rnd(88)
			}
			if lf[i] {
				rnd(8)
			}
		}
	}
	g.ID = uint(t.Intn(16))
	b.UE(uint64(g.ID))
	chroma := uint64(t.Intn(4))
	b.UE(chroma)
	if chroma == 3 {
		t.bit(b, t.rare(2))
	}
	w, h := 8*(1+t.size(max/8)), 8*(1+t.size(max/8))
	if t.rare(4) {
		w, h = 1+t.size(max-1), 1+t.size(max-1)
	}
	b.UE(w)
	b.UE(h)
	g.LumaW, g.LumaH = uint(w), uint(h)
	W, H := w, h
	if t.bit(b, t.rare(2)) {
		ux, uy := uint64(1), uint64(1)
		if chroma == 1 || chroma == 2 {
			ux = 2
		}
		if chroma == 1 {
			uy = 2
		}
		l, r := t.crop(w / ux)
		tp, bt := t.crop(h / uy)
		b.UE(l)
		b.UE(r)
		b.UE(tp)
		b.UE(bt)
		g.L, g.R, g.T, g.B = uint(l), uint(r), uint(tp), uint(bt)
		W -= ux * (l + r)
		H -= uy * (tp + bt)
	}
	g.Width, g.Height = int(W), int(H)
	g.GeoBits = b.N
	b.UE(uint64(t.Intn(9)))
	b.UE(uint64(t.Intn(9)))
	b.UE(uint64(t.Intn(13)))
	i := m
	if t.bit(b, t.rare(2)) {
		i = 0
	}
	for ; i <= m; i++ {
		b.UE(uint64(t.Intn(17)))
		b.UE(uint64(t.Intn(17)))
		b.UE(t.val())
	}
	for i := 0; i < 6; i++ {
		b.UE(uint64(t.Intn(5)))
	}
	rnd(3 + t.Intn(40))
	b.Trail()
	nal = append([]byte{0x42, byte(1 + t.Intn(7))}, Escape(b.B)...)
	g.Desc = fmt.Sprintf("sub-layers %d chroma %d luma %dx%d window %d,%d,%d,%d", m, chroma, w, h, g.L, g.R, g.T, g.B)
	return
}
