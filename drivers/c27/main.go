package main

import (
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"

	. "drivers/lib"
	"github.com/lkmio/avformat/collections"
)

func main() {
	Run("sequential histories of Refer/Release/UseCount/Get/ResetData against a counter, then goroutines that refer and release concurrently, released together, on 8 cores: exactly one release of the balanced set reports true and the count ends exact", func(t *T) {
		seq := func(h []byte) {
			t.Case(fmt.Sprintf("history %s", h), func() string {
				r := collections.NewReferenceCounter(100)
				n, data := int32(1), 100
				for i, c := range h {
					switch c {
					case '+':
						r.Refer()
						n++
					case '-':
						n--
						if b := r.Release(); b != (n == 0) {
							return fmt.Sprintf("step %d: release to %d reports %v", i, n, b)
						}
					case 'd':
						data = i
						r.ResetData(i)
					}
					if r.UseCount() != n || r.Get() != data {
						return fmt.Sprintf("step %d: count %d data %d want %d %d", i, r.UseCount(), r.Get(), n, data)
					}
				}
				return ""
			})
		}
		for n := 0; n <= 8; n++ {
			for v := 0; v < pow3(n); v++ {
				h := make([]byte, n)
				for i, x := 0, v; i < n; i, x = i+1, x/3 {
					h[i] = "+-d"[x%3]
				}
				seq(h)
			}
		}
		round := 0
		for t.More() {
			users := 2 + round%7
			extra := round % 3
			per := 1 + round%5
			round++
			t.Case(fmt.Sprintf("round %d: %d users holding %d references each, %d more references taken and released while they work", round, users, per, extra), func() string {
				const K = 200
				cs := make([]*collections.ReferenceCounter[int], K)
				for k := range cs {
					cs[k] = collections.NewReferenceCounter(k)
					for i := 1; i < users*per; i++ {
						cs[k].Refer()
					}
				}
				var wg sync.WaitGroup
				trues := make([]int32, K)
				var gate int32
				for u := 0; u < users; u++ {
					wg.Add(1)
					go func() {
						defer wg.Done()
						for k, c := range cs {
							atomic.AddInt32(&gate, 1)
							for n := 0; atomic.LoadInt32(&gate) < int32(users*(k+1)); n++ {
								if n > 500 {
									runtime.Gosched()
								}
							}
							for s := 0; s < extra; s++ {
								c.Refer()
							}
							for s := 0; s < per+extra; s++ {
								if c.Release() {
									atomic.AddInt32(&trues[k], 1)
								}
							}
						}
					}()
				}
				wg.Wait()
				for k, n := range trues {
					if n != 1 {
						return fmt.Sprintf("counter %d: %d releases report true", k, n)
					}
					if cs[k].UseCount() != 0 || cs[k].Get() != k {
						return fmt.Sprintf("counter %d: count %d data %d in the end", k, cs[k].UseCount(), cs[k].Get())
					}
				}
				return ""
			})
		}
	})
}

func pow3(n int) int {
	r := 1
	for ; n > 0; n-- {
		r *= 3
	}
	return r
}
