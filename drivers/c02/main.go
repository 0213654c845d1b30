package main

import (
	"bytes"
	"fmt"

	. "drivers/lib"
	"github.com/lkmio/avformat/bufio"
)

type op struct {
	k int
	v uint64
	n int
}

func put(b []byte, v uint64) {
	for i := len(b) - 1; i >= 0; i-- {
		b[i] = byte(v)
		v >>= 8
	}
}

func main() {
	Run("histories of writes/seeks on a byte writer over a sub-slice, the whole backing array compared with a model after every step", func(t *T) {
		names := []string{"u8", "u16", "u32", "u64", "bytes", "seek", "back", "clear", "reset"}
		ws := []int{1, 2, 4, 8}
		run := func(n, pad int, h []op) {
			desc := fmt.Sprintf("len=%d pad=%d:", n, pad)
			for _, o := range h {
				desc += fmt.Sprintf(" %s(%#x,%d)", names[o.k], o.v, o.n)
			}
			t.Case(desc, func() string {
				back := make([]byte, n+2*pad)
				for i := range back {
					back[i] = byte(0x30 + i)
				}
				want := append([]byte{}, back...)
				lo, hi := pad, pad+n
				w := bufio.NewBytesWriter(back[lo:hi])
				pos := 0
				for i, o := range h {
					var e error
					ok := true
					switch {
					case o.k < 4:
						switch o.k {
						case 0:
							e = w.WriteUint8(uint8(o.v))
						case 1:
							e = w.WriteUint16(uint16(o.v))
						case 2:
							e = w.WriteUint32(uint32(o.v))
						case 3:
							e = w.WriteUint64(o.v)
						}
						sz := ws[o.k]
						ok = sz <= hi-lo-pos
						if ok {
							put(want[lo+pos:lo+pos+sz], o.v)
							pos += sz
						}
					case o.k == 4:
						src := make([]byte, o.n)
						for j := range src {
							src[j] = byte(o.v) + byte(j)*7
						}
						cp := append([]byte{}, src...)
						e = w.Write(src)
						if !bytes.Equal(src, cp) {
							return fmt.Sprintf("op %d: the source was modified", i)
						}
						ok = o.n <= hi-lo-pos
						if ok {
							copy(want[lo+pos:], src)
							pos += o.n
						}
					case o.k == 5:
						e = w.Seek(o.n)
						ok = pos+o.n >= 0 && pos+o.n <= hi-lo
						if ok {
							pos += o.n
						}
					case o.k == 6:
						e = w.SeekBack(o.n)
						ok = pos-o.n >= 0 && pos-o.n <= hi-lo
						if ok {
							pos -= o.n
						}
					case o.k == 7:
						w.Clear()
						pos = 0
					case o.k == 8:
						if o.n >= 0 && o.n <= n {
							lo = pad + o.n
						}
						w.Reset(back[lo:hi])
						pos = 0
					}
					if (e == nil) != ok {
						return fmt.Sprintf("op %d: error %v, fits %v", i, e, ok)
					}
					if !bytes.Equal(back, want) {
						return fmt.Sprintf("op %d: buffer %x want %x", i, back, want)
					}
					if w.Offset() != pos || !bytes.Equal(w.WrittenBytes(), back[lo:lo+pos]) || w.ReadableBytes() != hi-lo-pos {
						return fmt.Sprintf("op %d: cursor %d written %x, want cursor %d", i, w.Offset(), w.WrittenBytes(), pos)
					}
					if pos > 0 && &w.WrittenBytes()[0] != &back[lo] {
						return fmt.Sprintf("op %d: WrittenBytes is not the prefix of the buffer", i)
					}
				}
				return ""
			})
		}
		var all []op
		for k := 0; k < 4; k++ {
			all = append(all, op{k, 0x8192a3b4c5d6e7f8, 0})
		}
		for n := 0; n < 6; n++ {
			all = append(all, op{4, 0x90, n})
		}
		for _, k := range []int{5, 6} {
			for _, n := range []int{-9, -2, -1, 0, 1, 2, 5, 9} {
				all = append(all, op{k, 0, n})
			}
		}
		all = append(all, op{7, 0, 0}, op{8, 0, 0}, op{8, 0, 1})
		for n := 0; n <= 10; n++ {
			for _, a := range all {
				for _, b := range all {
					run(n, 3, []op{a, b})
				}
			}
		}
		for t.More() {
			n := t.Intn(24)
			var h []op
			for i := 1 + t.Intn(12); i > 0; i-- {
				o := all[t.Intn(len(all))]
				o.v = t.Uint64()
				if o.k == 4 {
					o.n = t.Intn(n + 3)
				}
				h = append(h, o)
			}
			run(n, t.Intn(4), h)
		}
	})
}
