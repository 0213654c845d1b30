package main

import (
	"fmt"

	. "drivers/lib"
	"github.com/lkmio/avformat/collections"
)

func main() {
	Run("histories of Add/Remove(i)/Get on a linked list (all of them up to length 7, then random), compared with a slice model after every step", func(t *T) {
		run := func(h []int) {
			t.Case(fmt.Sprintf("history (-1 add, i remove at i) %v", h), func() string {
				l := &collections.LinkedList[int]{}
				var m []int
				next := 1
				for i, o := range h {
					if o < 0 {
						l.Add(next)
						m = append(m, next)
						next++
					} else if o < len(m) {
						want := m[o]
						m = append(append([]int{}, m[:o]...), m[o+1:]...)
						if g := l.Remove(o); g != want {
							return fmt.Sprintf("step %d: removed %d want %d", i, g, want)
						}
					}
					if l.Size() != len(m) {
						return fmt.Sprintf("step %d: size %d want %d", i, l.Size(), len(m))
					}
					for pass := 0; pass < 2; pass++ {
						for k := range m {
							if g := l.Get(k); g != m[k] {
								return fmt.Sprintf("step %d: Get(%d)=%d want %d (%v)", i, k, g, m[k], m)
							}
						}
					}
				}
				return ""
			})
		}
		n := 8
		h := make([]int, n)
		var rec func(i, size int)
		rec = func(i, size int) {
			if i == n {
				run(h)
				return
			}
			for o := -1; o < size; o++ {
				h[i] = o
				d := 1
				if o >= 0 {
					d = -1
				}
				rec(i+1, size+d)
			}
		}
		rec(0, 0)
		for t.More() {
			h := make([]int, 1+t.Intn(60))
			size := 0
			for i := range h {
				h[i] = -1
				if size > 0 && t.Intn(5) < 2 {
					h[i] = t.Intn(size)
					if t.Intn(3) == 0 {
						h[i] = size - 1
					} else if t.Intn(3) == 0 {
						h[i] = 0
					}
					size--
				} else {
					size++
				}
			}
			run(h)
		}
	})
}
