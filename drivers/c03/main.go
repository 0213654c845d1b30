package main

import (
	"bytes"
	"fmt"

	. "drivers/lib"
	"github.com/lkmio/avformat/bufio"
)

func bit(d []byte, k int) uint64 { return uint64(d[k/8]>>uint(7-k%8)) & 1 }

func want(d []byte, p, n int) (v uint64) {
	for k := p; k < p+n && k < 8*len(d); k++ {
		v = v<<1 | bit(d, k)
	}
	return
}

func put(d []byte, p, n int, v uint64) {
	for j := 0; j < n && p+j < 8*len(d); j++ {
		k := p + j
		m := byte(0x80) >> uint(k%8)
		d[k/8] &^= m
		if v>>uint(n-1-j)&1 == 1 {
			d[k/8] |= m
		}
	}
}

func main() {
	Run("ReadBits and WriteBits (and the cursors) against single bits: every offset and width over buffers of 0..4 bytes with several values, then random buffers up to 24 bytes, widths 0..64, random call sequences; PutUint24/Uint24 on every byte pattern class", func(t *T) {
		one := func(d []byte, p, n int, v uint64) {
			t.Case(fmt.Sprintf("buffer %x offset %d width %d value %#x", d, p, n, v), func() string {
				// the buffer lies inside a larger one, which must stay as it is
				out := append([]byte{0xa5, 0x5a, 0xff, 0}, d...)
				out = append(out, 0xa5, 0x5a, 0, 0xff, 1, 2, 3, 4, 5, 6, 7)
				all := append([]byte(nil), out...)
				b := out[4 : 4+len(d)]
				if g, w := bufio.ReadBits(b, p, n), want(d, p, n); g != w {
					return fmt.Sprintf("ReadBits gives %#x want %#x", g, w)
				}
				r := &bufio.BitsReader{Data: b, Offset: p}
				if g, w := r.Read(n), want(d, p, n); g != w || r.Offset != p+n {
					return fmt.Sprintf("BitsReader.Read gives %#x want %#x, offset %d want %d", g, w, r.Offset, p+n)
				}
				if !bytes.Equal(out, all) {
					return "reading changed the buffer"
				}
				put(all[4:4+len(d)], p, n, v)
				bufio.WriteBits(b, p, n, v)
				if !bytes.Equal(out, all) {
					return fmt.Sprintf("WriteBits leaves %x want %x", out, all)
				}
				copy(b, d)
				w := &bufio.BitsWriter{Data: b, Offset: p}
				w.Write(n, v)
				if !bytes.Equal(out, all) || w.Offset != p+n {
					return fmt.Sprintf("BitsWriter.Write leaves %x want %x, offset %d want %d", out, all, w.Offset, p+n)
				}
				if p+n <= 8*len(d) {
					low := v
					if n < 64 {
						low = v & (1<<uint(n) - 1)
					}
					if g := bufio.ReadBits(b, p, n); g != low {
						return fmt.Sprintf("reading back gives %#x want %#x", g, low)
					}
				}
				return ""
			})
		}
		u24 := func(v uint32, d []byte) {
			t.Case(fmt.Sprintf("24 bits of %#x over %x", v, d), func() string {
				o := append([]byte(nil), d...)
				bufio.PutUint24(d, v)
				if d[0] != byte(v>>16) || d[1] != byte(v>>8) || d[2] != byte(v) || !bytes.Equal(d[3:], o[3:]) {
					return fmt.Sprintf("PutUint24 leaves %x", d)
				}
				if g := bufio.Uint24(d); g != v&0xffffff {
					return fmt.Sprintf("Uint24 gives %#x", g)
				}
				return ""
			})
		}
		for n := 0; n <= 4; n++ {
			for p := 0; p <= 8*n+9; p++ {
				for w := 0; w <= 8*n+9 && w <= 34; w++ {
					for _, v := range []uint64{0, 1<<64 - 1, 0xa5c3960f1e2d4b87, 1} {
						d := t.Bytes(n)
						one(d, p, w, v)
					}
				}
			}
		}
		for w := 34; w <= 64; w++ {
			for p := 0; p < 9; p++ {
				one(t.Bytes(9), p, w, 1<<63|1<<uint(w-1)|1)
				one(bytes.Repeat([]byte{255}, 9), p, w, 0)
			}
		}
		for i := 0; i < 24; i++ {
			for j := 0; j <= 24; j++ {
				u24(1<<uint(i)|1<<uint(j), t.Bytes(3+t.Intn(3)))
			}
		}
		for t.More() {
			d := t.Bytes(t.Intn(25))
			one(d, t.Intn(8*len(d)+70), t.Intn(65), t.Uint64()>>uint(t.Intn(64)))
			u24(t.Uint32(), t.Bytes(3+t.Intn(4)))
			seq(t)
		}
	})
}

// seq: a writer and a reader go over the same buffer.
func seq(t *T) {
	n := 1 + t.Intn(40)
	init := t.Bytes(n)
	type op struct {
		kind, n int
		v       uint64
		b       []byte
	}
	var ops []op
	at := 0
	for i := 0; i < 12; i++ {
		o := op{kind: t.Intn(4)}
		switch o.kind {
		case 0, 1:
			o.kind = 0
			o.n, o.v = t.Intn(65), t.Uint64()
			at += o.n
		case 2:
			o.n = t.Intn(20)
			at += o.n
		case 3:
			if at/8 > n {
				continue
			}
			o.b = t.Bytes(t.Intn(n - at/8 + 1))
			at += 8 * len(o.b)
		}
		ops = append(ops, o)
	}
	t.Case(fmt.Sprintf("sequence over %x: %v", init, ops), func() string {
		got := append([]byte(nil), init...)
		model := append([]byte(nil), init...)
		w := &bufio.BitsWriter{Data: got}
		at := 0
		for i, o := range ops {
			switch o.kind {
			case 0:
				w.Write(o.n, o.v)
				put(model, at, o.n, o.v)
				at += o.n
			case 2:
				w.Seek(o.n)
				at += o.n
			case 3:
				w.WriteBytes(o.b)
				copy(model[at/8:], o.b)
				at += 8 * len(o.b)
			}
			if !bytes.Equal(got, model) || w.Offset != at {
				return fmt.Sprintf("after step %d: %x want %x, offset %d want %d", i, got, model, w.Offset, at)
			}
		}
		r := &bufio.BitsReader{Data: got}
		at = 0
		for i, o := range ops {
			switch o.kind {
			case 0:
				if g, x := r.Read(o.n), want(model, at, o.n); g != x {
					return fmt.Sprintf("reading step %d: %#x want %#x", i, g, x)
				}
				at += o.n
			case 2:
				r.Seek(o.n)
				at += o.n
			case 3:
				if g := r.ReadBytes(len(o.b)); !bytes.Equal(g, model[at/8:at/8+len(o.b)]) {
					return fmt.Sprintf("reading step %d: %x", i, g)
				}
				at += 8 * len(o.b)
			}
			if r.Offset != at {
				return fmt.Sprintf("reading step %d: offset %d want %d", i, r.Offset, at)
			}
		}
		return ""
	})
}
