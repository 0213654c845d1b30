package main

import (
	"bytes"
	"fmt"
	"unsafe"

	. "drivers/lib"
	"github.com/lkmio/avformat"
	"github.com/lkmio/avformat/utils"
)

type op struct {
	k byte
	s int // stream
	n int
}

type packet struct{ mem, want []byte }

type stream struct {
	live  []packet
	pend  bool
	want  []byte
	fresh bool // the newest packet is in current memory
}

var pool = make([]byte, 4<<20)

func media(s int) utils.AVMediaType {
	return []utils.AVMediaType{utils.AVMediaTypeVideo, utils.AVMediaTypeAudio}[s%2]
}

func main() {
	Run("histories of write/fetch/discard on a multi-stream pipeline whose streams are first used in any order (all short ones with big packets, then random ones over up to 5 streams with packets up to 700 kB) and on the direct pipeline; every live packet and pending size of every stream compared with a model after every step", func(t *T) {
		for i := range pool {
			pool[i] = byte(i*7 + i>>8*13 + i>>16)
		}
		pos := 0
		fill := func(n int) []byte {
			if pos+n > len(pool) {
				pos = (pos*31 + 11) % 9973
			}
			p := pool[pos : pos+n : pos+n]
			pos += n + 1
			return p
		}
		run := func(h []op) {
			d := ""
			for _, o := range h {
				d += fmt.Sprintf(" %c%d", o.k, o.s)
				if o.n > 0 {
					d += fmt.Sprintf(":%d", o.n)
				}
			}
			t.Case("streams:"+d, func() string {
				b := &avformat.StreamsBuffer{}
				m := map[int]*stream{}
				high := -1
				for i, o := range h {
					st := m[o.s]
					switch o.k {
					case 'w':
						if st == nil {
							st = &stream{}
							m[o.s] = st
						}
						p := fill(o.n)
						n, err := b.Write(p, o.s, media(o.s))
						if err != nil || n != len(p) {
							return fmt.Sprintf("step %d: Write gives %d, %v", i, n, err)
						}
						st.want = append(st.want, p...)
						st.pend, st.fresh = true, true
						if o.s > high {
							high = o.s
						}
					case 'f':
						if st == nil || !st.pend {
							continue
						}
						mem, err := b.Fetch(o.s)
						if err != nil || !bytes.Equal(mem, st.want) {
							return fmt.Sprintf("step %d: stream %d: fetched %d bytes want %d, equal %v, %v", i, o.s, len(mem), len(st.want), bytes.Equal(mem, st.want), err)
						}
						st.live = append(st.live, packet{mem, append([]byte(nil), mem...)})
						st.pend, st.want = false, nil
					case 'h', 'd':
						if st == nil || len(st.live) == 0 {
							continue
						}
						if o.k == 'h' {
							b.DiscardHeadPacket(o.s)
						} else {
							b.Discard(o.s)
						}
						st.live = st.live[1:]
						if len(st.live) == 0 {
							st.fresh = st.pend
						}
					case 'b':
						if st == nil || !st.fresh || !st.pend && len(st.live) == 0 {
							continue
						}
						b.DiscardBackPacket(o.s)
						if st.pend {
							st.pend, st.want = false, nil
						} else {
							st.live = st.live[:len(st.live)-1]
						}
						st.fresh = false
					case 's':
						if o.s > high {
							high = o.s
						}
					}
					for s := 0; s <= high; s++ {
						st, w := m[s], 0
						if st != nil {
							for k, l := range st.live {
								if !bytes.Equal(l.mem, l.want) {
									return fmt.Sprintf("step %d: live packet %d of %d of stream %d changed", i, k, len(st.live), s)
								}
							}
							w = len(st.want)
						}
						if g := b.PendingBlockSize(s); g != w {
							return fmt.Sprintf("step %d: stream %d: pending size %d want %d", i, s, g, w)
						}
					}
				}
				return ""
			})
		}
		direct := func(h []op) {
			d := ""
			for _, o := range h {
				d += fmt.Sprintf(" %c%d", o.k, o.n)
			}
			t.Case("direct:"+d, func() string {
				b := &avformat.DirectDataPipeline{}
				var want []byte
				for i, o := range h {
					switch o.k {
					case 'w':
						p := fill(o.n)
						n, err := b.Write(p, o.s, media(o.s))
						want = append(want, p...)
						if err != nil || n != len(want) {
							return fmt.Sprintf("step %d: Write gives %d, %v", i, n, err)
						}
					case 'f':
						mem, err := b.Fetch(o.s)
						if err != nil || !bytes.Equal(mem, want) {
							return fmt.Sprintf("step %d: fetched % x want % x, %v", i, mem, want, err)
						}
						want = nil
					case 'h':
						b.DiscardHeadPacket(o.s)
					case 'b':
						b.DiscardBackPacket(o.s)
					}
					if g := b.PendingBlockSize(o.s); g != len(want) {
						return fmt.Sprintf("step %d: pending size %d want %d", i, g, len(want))
					}
				}
				return ""
			})
		}
		// a discarded packet is released: its memory serves later packets, so one packet at a time needs a bounded amount
		for _, k := range "hdb" {
			for _, s := range []int{0, 1} {
				t.Case(fmt.Sprintf("discard %c of stream %d after each of 80 packets of 200000 bytes", k, s), func() string {
					b := &avformat.StreamsBuffer{}
					var old [][]byte
					for i := 0; i < 80; i++ {
						p := fill(200000)
						if _, err := b.Write(p, s, media(s)); err != nil {
							return err.Error()
						}
						mem, err := b.Fetch(s)
						if err != nil || !bytes.Equal(mem, p) {
							return fmt.Sprintf("packet %d: other bytes fetched, %v", i, err)
						}
						x := uintptr(unsafe.Pointer(&mem[0]))
						for _, o := range old {
							if y := uintptr(unsafe.Pointer(&o[0])); x < y+200000 && y < x+200000 {
								return ""
							}
						}
						old = append(old, mem)
						switch k {
						case 'h':
							b.DiscardHeadPacket(s)
						case 'd':
							b.Discard(s)
						case 'b':
							b.DiscardBackPacket(s)
						}
					}
					return "80 packets of 200000 bytes live in as much memory although each was discarded before the next"
				})
			}
		}
		// streams created in every order
		for _, o := range [][]int{{0, 1, 2}, {2, 0, 1}, {1, 0, 2}, {2, 1, 0}, {3, 1, 0}, {4, 0, 3}} {
			for _, n := range []int{0, 1, 5000} {
				var h []op
				for round := 0; round < 3; round++ {
					for _, s := range o {
						h = append(h, op{'w', s, n + s + round}, op{'w', s, n})
					}
					for _, s := range o {
						h = append(h, op{'f', s, 0})
					}
					if round == 1 {
						for _, s := range o {
							h = append(h, op{'h', s, 0})
						}
					}
				}
				run(h)
			}
		}
		macro := [][]op{{{'w', 1, 290000}, {'f', 1, 0}}, {{'w', 1, 3}, {'f', 1, 0}}, {{'h', 1, 0}}, {{'w', 1, 300000}}, {{'w', 0, 10}, {'f', 0, 0}}, {{'b', 1, 0}}}
		idx := make([]int, 4)
		var rec func(i int)
		rec = func(i int) {
			if i == len(idx) {
				var h []op
				for _, k := range idx {
					h = append(h, macro[k]...)
				}
				if t.More() {
					run(h)
				}
				return
			}
			for k := range macro {
				idx[i] = k
				rec(i + 1)
			}
		}
		for k := 0; k < 3000; k++ {
			n := 1 + t.Intn(14)
			var h []op
			for i := 0; i < n; i++ {
				h = append(h, op{"wwwwffhb"[t.Intn(8)], t.Intn(3), t.Intn(1 << uint(t.Intn(10)))})
			}
			direct(h)
		}
		rec(0)
		for t.More() {
			var h []op
			ns := 1 + t.Intn(5)
			order := t.Perm(ns)
			bound := []int{20, 3000, 300000, 700000}[t.Intn(4)]
			for i := 3 + t.Intn(40); i > 0; i-- {
				s := order[t.Intn(ns)]
				switch k := t.Intn(12); {
				case k < 5:
					h = append(h, op{'w', s, t.Intn(bound)})
					if t.Intn(3) > 0 {
						h = append(h, op{'f', s, 0})
					}
				case k < 8:
					h = append(h, op{"hd"[t.Intn(2)], s, 0})
				case k == 8:
					h = append(h, op{'b', s, 0})
				case k == 9:
					h = append(h, op{'s', t.Intn(6), 0})
				default:
					h = append(h, op{'f', s, 0})
				}
			}
			run(h)
		}
	})
}
