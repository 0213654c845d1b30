package main

import (
	"fmt"

	. "drivers/lib"
	"github.com/lkmio/avformat/collections"
)

func main() {
	Run("histories of push/pop/popback/clear (all of them up to a length for capacities 1..3, then random), every observer compared with a sequence model", func(t *T) {
		run := func(c int, h []byte) {
			t.Case(fmt.Sprintf("capacity %d history %s", c, h), func() string {
				r := collections.NewQueue[int](c)
				var m []int
				next := 1
				for i, o := range h {
					switch o {
					case 'p':
						r.Push(next)
						m = append(m, next)
						next++
					case 'o':
						want := 0
						if len(m) > 0 {
							want = m[0]
							m = m[1:]
						}
						if g := r.Pop(); g != want {
							return fmt.Sprintf("step %d: popped %d want %d", i, g, want)
						}
					case 'b':
						if len(m) == 0 {
							continue
						}
						want := m[len(m)-1]
						m = m[:len(m)-1]
						if g := r.PopBack(); g != want {
							return fmt.Sprintf("step %d: PopBack %d want %d", i, g, want)
						}
					case 'c':
						r.Clear()
						m = nil
					}
					a, b := r.Data()
					d := append(append([]int{}, a...), b...)
					if fmt.Sprint(d) != fmt.Sprint(m) {
						return fmt.Sprintf("step %d: Data %v want %v", i, d, m)
					}
					if r.Size() != len(m) || r.IsEmpty() != (len(m) == 0) {
						return fmt.Sprintf("step %d: size %d empty %v, want %d", i, r.Size(), r.IsEmpty(), len(m))
					}
					if len(m) > 0 {
						if r.Head() != m[0] || r.Tail() != m[len(m)-1] {
							return fmt.Sprintf("step %d: head %d tail %d want %v", i, r.Head(), r.Tail(), m)
						}
					}
					for k := range m {
						if g := r.Peek(k); g != m[k] {
							return fmt.Sprintf("step %d: Peek(%d)=%d want %d", i, k, g, m[k])
						}
					}
				}
				return ""
			})
		}
		for c := 1; c <= 3; c++ {
			for n := 1; n <= 8; n++ {
				h := make([]byte, n)
				var rec func(i int)
				rec = func(i int) {
					if i == n {
						run(c, h)
						return
					}
					for _, o := range []byte("pobc") {
						h[i] = o
						rec(i + 1)
					}
				}
				if n == 8 || n <= 3 {
					rec(0)
				}
			}
		}
		for t.More() {
			h := make([]byte, 1+t.Intn(80))
			for i := range h {
				h[i] = "pppppppooobobc"[t.Intn(14)]
				if h[i] == 'c' && t.Intn(3) > 0 {
					h[i] = 'p'
				}
			}
			run(1+t.Intn(9), h)
		}
	})
}
