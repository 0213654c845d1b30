package main

import (
	"bytes"
	"fmt"

	. "drivers/lib"
	"github.com/lkmio/avformat/collections"
)

type op struct {
	k byte
	n int
}

type block struct {
	mem, want []byte
}

func main() {
	Run("histories of write/alloc/fetch/pop/popback/clear on ring block buffers of capacity 0..24 (all short ones over a small alphabet, then random); every live fetched block, the pending size and each fetched block compared with a model after every step", func(t *T) {
		run := func(c int, h []op) {
			d := fmt.Sprintf("capacity %d:", c)
			for _, o := range h {
				d += fmt.Sprintf(" %c%d", o.k, o.n)
			}
			t.Case(d, func() string {
				b := collections.NewRBBlockBuffer(c)
				var live []block // logical blocks, oldest first; the last may be pending (mem nil)
				pend := false
				ctr := byte(0)
				fill := func(n int) []byte {
					p := make([]byte, n)
					for i := range p {
						ctr++
						p[i] = ctr
					}
					return p
				}
				for i, o := range h {
					switch o.k {
					case 'w', 'a':
						p := fill(o.n)
						if o.k == 'w' {
							b.Write(p)
						} else {
							m := b.Alloc(o.n)
							if len(m) != o.n {
								return fmt.Sprintf("step %d: Alloc(%d) returned %d bytes", i, o.n, len(m))
							}
							copy(m, p)
						}
						if !pend {
							live = append(live, block{nil, nil})
							pend = true
						}
						l := &live[len(live)-1]
						l.want = append(l.want, p...)
					case 'f':
						if b.Size() == 0 {
							continue
						}
						m := b.Fetch()
						if !pend {
							if m != nil {
								return fmt.Sprintf("step %d: Fetch without pending data returned %v", i, m)
							}
							continue
						}
						pend = false
						l := &live[len(live)-1]
						if !bytes.Equal(m, l.want) {
							return fmt.Sprintf("step %d: fetched %v want %v", i, m, l.want)
						}
						l.mem = m
					case 'p':
						b.Pop()
						if len(live) == 1 {
							pend = false
						}
						if len(live) > 0 {
							live = live[1:]
						}
					case 'b':
						if b.Size() == 0 || len(live) == 0 {
							continue
						}
						b.PopBack()
						live = live[:len(live)-1]
						pend = false
					case 'c':
						b.Clear()
						live, pend = nil, false
					}
					for k, l := range live {
						if l.mem != nil && !bytes.Equal(l.mem, l.want) {
							return fmt.Sprintf("step %d: live block %d of %d is %v want %v", i, k, len(live), l.mem, l.want)
						}
					}
					ps := 0
					if pend {
						ps = len(live[len(live)-1].want)
					}
					if b.PendingBlockSize() != ps {
						return fmt.Sprintf("step %d: pending size %d want %d", i, b.PendingBlockSize(), ps)
					}
				}
				return ""
			})
		}
		macro := [][]op{{{'w', 3}, {'f', 0}}, {{'w', 5}, {'f', 0}}, {{'p', 0}}, {{'w', 2}}, {{'w', 9}, {'f', 0}}, {{'b', 0}}, {{'a', 4}, {'f', 0}}}
		for _, c := range []int{10, 9, 6, 16} {
			for n := 5; n <= 5; n++ {
				idx := make([]int, n)
				var rec func(i int)
				rec = func(i int) {
					if i == n {
						var h []op
						for _, k := range idx {
							h = append(h, macro[k]...)
						}
						run(c, h)
						return
					}
					for k := range macro {
						idx[i] = k
						rec(i + 1)
					}
				}
				rec(0)
			}
		}
		for t.More() {
			c := t.Intn(25)
			max := 1 + t.Intn(c/2+2)
			var h []op
			pops := 1 + t.Intn(5)
			for i := 2 + t.Intn(60); i > 0; i-- {
				switch k := t.Intn(12); {
				case k < 5:
					h = append(h, op{"wa"[t.Intn(2)], t.Intn(max + 1)})
					if t.Intn(3) > 0 {
						h = append(h, op{'f', 0})
					}
				case k < 5+pops:
					h = append(h, op{'p', 0})
				case k == 10:
					h = append(h, op{'f', 0})
				case k == 11 && t.Intn(3) == 0:
					h = append(h, op{'b', 0})
				case t.Intn(40) == 0:
					h = append(h, op{'c', 0})
				}
			}
			run(c, h)
		}
	})
}
