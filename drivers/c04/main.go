package main

import (
	"bytes"
	"fmt"

	. "drivers/lib"
	"github.com/lkmio/avformat/bufio"
)

type op struct {
	k string // b, n, n32, n64, ue, se
	n int
}

// cursor is the oracle: single bits.
type cursor struct {
	d []byte
	p int
}

func (c *cursor) bit() (uint64, bool) {
	if c.p >= 8*len(c.d) {
		return 0, false
	}
	v := uint64(c.d[c.p/8]>>uint(7-c.p%8)) & 1
	c.p++
	return v, true
}
func (c *cursor) u(n int) (v uint64, ok bool) {
	for i := 0; i < n; i++ {
		b, k := c.bit()
		if !k {
			return 0, false
		}
		v = v<<1 | b
	}
	return v, true
}

// ue: long tells that the code has more than 32 leading zeros (no such code is defined here).
func (c *cursor) ue() (v uint64, ok, long bool) {
	z := 0
	for {
		b, k := c.bit()
		if !k {
			return 0, false, z > 32
		}
		if b == 1 {
			break
		}
		z++
	}
	if z > 32 {
		return 0, false, true
	}
	s, k := c.u(z)
	return 1<<uint(z) - 1 + s, k, false
}

func main() {
	Run("the Golomb reader against single bits: every string of up to 2 bytes with each operation repeated, every code of 0..32 leading zeros with extreme and random suffixes at each alignment and truncated at each bit, then random strings and operation sequences", func(t *T) {
		run := func(d []byte, ops []op) {
			t.Case(fmt.Sprintf("data %x operations %v", d, ops), func() string {
				g := &bufio.GolombBitReader{R: bytes.NewReader(d)}
				c := &cursor{d: d}
				for i, o := range ops {
					var got, want uint64
					var err error
					var ok, long bool
					switch o.k {
					case "b":
						var x uint
						x, err = g.ReadBit()
						got = uint64(x)
						want, ok = c.bit()
					case "n":
						var x uint
						x, err = g.ReadBits(o.n)
						got = uint64(x)
						want, ok = c.u(o.n)
					case "n32":
						var x uint32
						x, err = g.ReadBits32(uint(o.n))
						got = uint64(x)
						want, ok = c.u(o.n)
					case "n64":
						got, err = g.ReadBits64(uint(o.n))
						want, ok = c.u(o.n)
					case "ue":
						var x uint
						x, err = g.ReadExponentialGolombCode()
						got = uint64(x)
						want, ok, long = c.ue()
					case "se":
						var x uint
						x, err = g.ReadSE()
						got = uint64(x)
						want, ok, long = c.ue()
						if want%2 == 1 {
							want = (want + 1) / 2
						} else {
							want = -(want / 2)
						}
					}
					if long {
						return ""
					}
					if (err == nil) != ok {
						return fmt.Sprintf("operation %d (%v): error %v, the data hold it: %v", i, o, err, ok)
					}
					if !ok { // nothing is left
						c.p = 8 * len(d)
						continue
					}
					if got != want {
						return fmt.Sprintf("operation %d (%v): got %d (%#x) want %d", i, o, int64(got), got, int64(want))
					}
				}
				return ""
			})
		}
		rep := func(o op) (r []op) {
			for i := 0; i < 20; i++ {
				r = append(r, o)
			}
			return
		}
		for v := 0; v < 1<<16; v += 1 {
			d := []byte{byte(v >> 8), byte(v)}
			run(d, rep(op{"ue", 0}))
			if v%7 == 0 {
				run(d, rep(op{"se", 0}))
				run(d, rep(op{"n", 1 + v%9}))
			}
		}
		for v := 0; v < 256; v++ {
			run([]byte{byte(v)}, rep(op{"b", 0}))
			run([]byte{byte(v)}, rep(op{"se", 0}))
		}
		for z := 0; z <= 32; z++ {
			for _, s := range []uint64{0, 1, 1<<uint(z) - 1, 1 << uint(z) >> 1, t.Uint64() & (1<<uint(z) - 1)} {
				if z == 0 {
					s = 0
				}
				for pre := 0; pre < 8; pre++ {
					b := &Bits{}
					b.U(pre, t.Uint64())
					b.UE(1<<uint(z) - 1 + s&(1<<uint(z)-1))
					end := b.N
					b.U(13, 0x1a5a)
					run(b.B, []op{{"n", pre}, {"ue", 0}, {"n", 13}, {"b", 0}})
					run(b.B, []op{{"n", pre}, {"se", 0}, {"n", 13}})
					for cut := pre / 8; cut <= end/8; cut++ {
						run(b.B[:cut], []op{{"n32", pre}, {"ue", 0}})
						run(b.B[:cut], []op{{"n64", pre}, {"se", 0}})
					}
				}
			}
		}
		for n := 0; n <= 64; n++ {
			for pre := 0; pre < 9; pre++ {
				for l := 0; l < 11; l++ {
					d := t.Bytes(l)
					if l%3 == 0 {
						d = bytes.Repeat([]byte{255}, l)
					}
					run(d, []op{{"n", pre}, {"n", n}, {"n", 3}})
					run(d, []op{{"n", pre}, {"n64", n}, {"b", 3}})
					if n <= 32 {
						run(d, []op{{"n", pre}, {"n32", n}, {"b", 3}})
					}
				}
			}
		}
		for t.More() {
			d := t.Bytes(t.Intn(40))
			if t.Intn(2) == 0 {
				for i := range d {
					if t.Intn(3) > 0 {
						d[i] = 0
					}
				}
			}
			var ops []op
			for i := t.Intn(30); i >= 0; i-- {
				k := []string{"b", "n", "n32", "n64", "ue", "se", "ue", "se"}[t.Intn(8)]
				n := t.Intn(65)
				if k == "n32" {
					n /= 2
				}
				ops = append(ops, op{k, n})
			}
			run(d, ops)
		}
	})
}
