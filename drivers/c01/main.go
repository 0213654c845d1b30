package main

import (
	"bytes"
	"fmt"
	"math"

	. "drivers/lib"
	"github.com/lkmio/avformat/bufio"
)

func be(b []byte) (v uint64) {
	for _, x := range b {
		v = v<<8 | uint64(x)
	}
	return
}

type op struct{ k, n int }

func main() {
	Run("histories of reads/seeks on a byte reader over a sub-slice of a larger array, against a cursor model; non-trivial: distinct (buffer, history)", func(t *T) {
		sizes := []int{0, 1, 2, 3, 4, 7, 8, 9, 16, -1, -2, -8, math.MaxInt, math.MinInt, math.MaxInt - 3, 1 << 32, -(1 << 32), 1 << 31}
		names := []string{"u8", "u16", "u24", "u32", "u64", "bytes", "seek", "back", "clear", "reset", "state"}
		run := func(buf []byte, pad int, h []op) {
			desc := fmt.Sprintf("buf=%x pad=%d:", buf, pad)
			for _, o := range h {
				desc += fmt.Sprintf(" %s(%d)", names[o.k], o.n)
			}
			t.Case(desc, func() string {
				back := make([]byte, len(buf)+2*pad)
				for i := range back {
					back[i] = 0xEE
				}
				copy(back[pad:], buf)
				data := back[pad : pad+len(buf)]
				orig := append([]byte{}, back...)
				r := bufio.NewBytesReader(data)
				pos := 0
				for i, o := range h {
					var got uint64
					var err error
					w := 0
					switch o.k {
					case 0:
						v, e := r.ReadUint8()
						got, err, w = uint64(v), e, 1
					case 1:
						v, e := r.ReadUint16()
						got, err, w = uint64(v), e, 2
					case 2:
						v, e := r.ReadUint24()
						got, err, w = uint64(v), e, 3
					case 3:
						v, e := r.ReadUint32()
						got, err, w = uint64(v), e, 4
					case 4:
						v, e := r.ReadUint64()
						got, err, w = uint64(v), e, 8
					case 5:
						v, e := r.ReadBytes(o.n)
						ok := o.n >= 0 && o.n <= len(data)-pos
						if (e == nil) != ok {
							return fmt.Sprintf("op %d: error %v, fits %v", i, e, ok)
						}
						if ok {
							if !bytes.Equal(v, data[pos:pos+o.n]) || len(v) != o.n {
								return fmt.Sprintf("op %d: got %x", i, v)
							}
							if o.n > 0 && &v[0] != &data[pos] {
								return fmt.Sprintf("op %d: not the sub-slice of the buffer", i)
							}
							pos += o.n
						}
					case 6, 7:
						n := o.n
						var e error
						var ok bool
						if o.k == 6 {
							e = r.Seek(n)
							ok = (n >= 0 && n <= len(data)-pos) || (n < 0 && n >= -pos)
							if ok {
								pos += n
							}
						} else {
							e = r.SeekBack(n)
							ok = (n >= 0 && n <= pos) || (n < 0 && n >= -(len(data)-pos))
							if ok {
								pos -= n
							}
						}
						if (e == nil) != ok {
							return fmt.Sprintf("op %d: error %v, fits %v", i, e, ok)
						}
					case 8:
						r.Clear()
						pos = 0
					case 9:
						k := pad
						if o.n >= 0 && o.n <= len(buf) {
							k = pad + o.n
						}
						data = back[k : pad+len(buf)]
						r.Reset(data)
						pos = 0
					}
					if w > 0 {
						ok := w <= len(data)-pos
						if (err == nil) != ok {
							return fmt.Sprintf("op %d: error %v, fits %v", i, err, ok)
						}
						if ok {
							if want := be(data[pos : pos+w]); got != want {
								return fmt.Sprintf("op %d: got %#x want %#x", i, got, want)
							}
							pos += w
						}
					}
					if r.Offset() != pos || r.ReadableBytes() != len(data)-pos || !bytes.Equal(r.RemainingBytes(), data[pos:]) {
						return fmt.Sprintf("op %d: cursor %d remaining %x readable %d, want cursor %d", i, r.Offset(), r.RemainingBytes(), r.ReadableBytes(), pos)
					}
				}
				if !bytes.Equal(orig, back) {
					return "the buffer was modified"
				}
				return ""
			})
		}
		var all []op
		for k := 0; k < 5; k++ {
			all = append(all, op{k, 0})
		}
		for k := 5; k < 8; k++ {
			for _, n := range sizes {
				all = append(all, op{k, n})
			}
		}
		all = append(all, op{8, 0}, op{9, 0}, op{9, 1})
		for n := 0; n <= 9; n++ {
			buf := make([]byte, n)
			for i := range buf {
				buf[i] = byte(0x81 + 0x11*i)
			}
			for _, a := range all {
				for _, b := range all {
					run(buf, 3, []op{a, b})
				}
			}
		}
		for t.More() {
			buf := t.Bytes(t.Intn(24))
			var h []op
			for i := 1 + t.Intn(12); i > 0; i-- {
				o := all[t.Intn(len(all))]
				if o.k >= 5 && t.Intn(2) == 0 {
					o.n = t.Intn(2*len(buf)+4) - len(buf) - 2
				}
				h = append(h, o)
			}
			run(buf, t.Intn(5), h)
		}
	})
}
