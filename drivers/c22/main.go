package main

import (
	"fmt"
	"math"
	"math/big"

	. "drivers/lib"
	"github.com/lkmio/avformat"
)

func main() {
	Run("ConvertTs and the four packet conversions against rational arithmetic truncated toward zero: all small timebases and timestamps, then the common timebases, 32-bit and random ones with timestamps up to 64 bits (only representable results)", func(t *T) {
		check := func(ts int64, s, d int) {
			want := new(big.Int).Mul(big.NewInt(ts), big.NewInt(int64(d)))
			want.Quo(want, big.NewInt(int64(s)))
			if !want.IsInt64() {
				return
			}
			t.Case(fmt.Sprintf("ts %d from timebase %d to %d", ts, s, d), func() string {
				w := want.Int64()
				if g := avformat.ConvertTs(ts, s, d); g != w {
					return fmt.Sprintf("ConvertTs gives %d want %d", g, w)
				}
				o := t.Int63() - t.Int63()
				p := &avformat.AVPacket{Timebase: s, Dts: ts, Pts: o, Duration: o}
				if g := p.ConvertDts(d); g != w {
					return fmt.Sprintf("ConvertDts gives %d want %d", g, w)
				}
				p = &avformat.AVPacket{Timebase: s, Dts: o, Pts: ts, Duration: o}
				if g := p.ConvertPts(d); g != w {
					return fmt.Sprintf("ConvertPts gives %d want %d", g, w)
				}
				p = &avformat.AVPacket{Timebase: s, Dts: o, Pts: o, Duration: ts}
				if g := p.GetDuration(d); g != w {
					return fmt.Sprintf("GetDuration gives %d want %d", g, w)
				}
				o = int64(int32(o))
				if (o > 0) == (ts > 0) || ts == 0 {
					o = -o
				}
				p = &avformat.AVPacket{Timebase: s, Dts: o, Pts: ts + o, Duration: 1}
				if g := p.GetPtsDtsDelta(d); g != w {
					return fmt.Sprintf("GetPtsDtsDelta of pts %d dts %d gives %d want %d", ts+o, o, g, w)
				}
				return ""
			})
		}
		for s := 1; s <= 7; s++ {
			for d := 1; d <= 7; d++ {
				for ts := int64(-15); ts <= 15; ts++ {
					check(ts, s, d)
				}
			}
		}
		bases := []int{1, 2, 3, 7, 25, 30, 1000, 8000, 11025, 44100, 48000, 90000, 1000000, 27000000, 65535, 65536, math.MaxInt32, math.MaxInt32 - 1, 1 << 30}
		times := []int64{0, 1, -1, 33, 3003, 1 << 31, 1<<31 - 1, 1 << 32, -(1 << 33), 1<<53 + 1, -(1 << 53) - 1, 1<<62 + 3, math.MaxInt64, math.MinInt64, math.MaxInt64 - 1}
		for _, s := range bases {
			for _, d := range bases {
				for _, ts := range times {
					check(ts, s, d)
				}
			}
		}
		pick := func() int {
			if t.Intn(2) == 0 {
				return bases[t.Intn(len(bases))]
			}
			return 1 + t.Intn(1<<uint(1+t.Intn(31))) - 1 + t.Intn(1)
		}
		for t.More() {
			s, d := pick(), pick()
			if s < 1 || d < 1 {
				continue
			}
			ts := t.Int63() >> uint(t.Intn(63))
			if t.Intn(2) == 0 {
				ts = -ts
			}
			check(ts, s, d)
		}
	})
}
