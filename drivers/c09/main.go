package main

import (
	"bytes"
	"fmt"

	. "drivers/lib"
	"github.com/lkmio/avformat/collections"
)

type op struct {
	k byte
	n int
}

type block struct {
	mem, want []byte
}

func main() {
	Run("histories of write/alloc/fetch/pop/popback/split/clear on direct block buffers (all short ones over a small alphabet, then random); live blocks, Data, sizes and split halves compared with a model after every step", func(t *T) {
		run := func(c int, h []op) {
			d := fmt.Sprintf("capacity %d:", c)
			for _, o := range h {
				d += fmt.Sprintf(" %c%d", o.k, o.n)
			}
			t.Case(d, func() string {
				b := collections.NewDirectBlockBuffer(c).(*collections.DirectBlockBuffer)
				var live, other []block
				var all []byte // everything written at its offset
				pend, sealed := false, false
				total := c
				ctr := byte(0)
				fill := func(n int) []byte {
					p := make([]byte, n)
					for i := range p {
						ctr++
						p[i] = ctr
					}
					return p
				}
				for i, o := range h {
					switch o.k {
					case 'w', 'a':
						p := fill(o.n)
						if sealed {
							if !Panics(func() { b.Write(p) }) {
								return fmt.Sprintf("step %d: a sealed buffer accepted a write", i)
							}
							continue
						}
						av := b.AvailableBytes()
						if o.k == 'w' {
							b.Write(p)
						} else {
							m := b.Alloc(o.n)
							if len(m) != o.n {
								return fmt.Sprintf("step %d: Alloc(%d) returned %d bytes", i, o.n, len(m))
							}
							copy(m, p)
						}
						if o.n <= av {
							if b.AvailableBytes() != av-o.n {
								return fmt.Sprintf("step %d: available %d after %d of %d", i, b.AvailableBytes(), o.n, av)
							}
						} else {
							total = b.AvailableBytes() + len(all) + o.n
						}
						if !pend {
							live = append(live, block{nil, nil})
							pend = true
						}
						l := &live[len(live)-1]
						l.want = append(l.want, p...)
						all = append(all, p...)
					case 'f':
						if len(live) == 0 || sealed {
							continue
						}
						m := b.Fetch()
						if !pend {
							if m != nil {
								return fmt.Sprintf("step %d: Fetch without pending data returned %v", i, m)
							}
							continue
						}
						pend = false
						l := &live[len(live)-1]
						if !bytes.Equal(m, l.want) {
							return fmt.Sprintf("step %d: fetched %v want %v", i, m, l.want)
						}
						l.mem = m
					case 'p', 'b':
						if sealed || len(live) == 0 {
							continue
						}
						if o.k == 'p' {
							b.Pop()
							if len(live) == 1 {
								pend = false
							}
							live = live[1:]
						} else {
							b.PopBack()
							live, pend = live[:len(live)-1], false
						}
						if len(live) == 0 {
							all = nil
						}
					case 's':
						if sealed {
							continue
						}
						av := b.AvailableBytes()
						q := b.SplitOff()
						sealed = true
						if q.AvailableBytes() != av || q.Size() != 0 || q.PendingBlockSize() != 0 {
							return fmt.Sprintf("step %d: split half has %d available (want %d), %d blocks, %d pending", i, q.AvailableBytes(), av, q.Size(), q.PendingBlockSize())
						}
						for k := 0; k < 3; k++ {
							p := fill(1 + (o.n+k)%(av+2))
							q.Write(p)
							if q.PendingBlockSize() != len(p) {
								return fmt.Sprintf("step %d: split half pending %d want %d", i, q.PendingBlockSize(), len(p))
							}
							m := q.Fetch()
							if !bytes.Equal(m, p) {
								return fmt.Sprintf("step %d: split half fetched %v want %v", i, m, p)
							}
							other = append(other, block{m, p})
						}
					case 'c':
						if sealed {
							other = nil
						}
						b.Clear()
						live, pend, sealed, all = nil, false, false, nil
					}
					for k, l := range append(append([]block{}, live...), other...) {
						if l.mem != nil && !bytes.Equal(l.mem, l.want) {
							return fmt.Sprintf("step %d: live block %d is %v want %v", i, k, l.mem, l.want)
						}
					}
					ps := 0
					if pend {
						ps = len(live[len(live)-1].want)
					}
					if b.PendingBlockSize() != ps || b.Size() != len(live) {
						return fmt.Sprintf("step %d: pending size %d want %d, size %d want %d", i, b.PendingBlockSize(), ps, b.Size(), len(live))
					}
					if !bytes.Equal(b.Data(), all) {
						return fmt.Sprintf("step %d: Data %v want %v", i, b.Data(), all)
					}
					if b.AvailableBytes() != total-len(all) || b.AvailableBytes() < 0 {
						return fmt.Sprintf("step %d: available %d want %d", i, b.AvailableBytes(), total-len(all))
					}
				}
				return ""
			})
		}
		macro := [][]op{{{'w', 3}, {'f', 0}}, {{'w', 5}}, {{'p', 0}}, {{'a', 2}}, {{'w', 9}, {'f', 0}}, {{'b', 0}}, {{'s', 2}}, {{'c', 0}}, {{'f', 0}}}
		for _, c := range []int{0, 6, 10} {
			n := 5
			idx := make([]int, n)
			var rec func(i int)
			rec = func(i int) {
				if i == n {
					var h []op
					for _, k := range idx {
						h = append(h, macro[k]...)
					}
					run(c, h)
					return
				}
				for k := range macro {
					idx[i] = k
					rec(i + 1)
				}
			}
			rec(0)
		}
		for t.More() {
			c := t.Intn(40)
			max := 1 + t.Intn(c/2+2)
			var h []op
			for i := 2 + t.Intn(40); i > 0; i-- {
				k := "wwwaaffffpbsc"[t.Intn(13)]
				if (k == 's' || k == 'c') && t.Intn(3) > 0 {
					k = 'w'
				}
				h = append(h, op{k, t.Intn(max + 1)})
			}
			run(c, h)
		}
	})
}
