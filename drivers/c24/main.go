package main

import . "drivers/lib"

func main() {
	Run("random histories of up to 60 calls on flv, ps, ts and jt1078 demuxers with up to 5 streams that start at different times, tracks registered ahead or found in packets, equal and spread timestamps, probe durations, completion by the caller and by duration, with and without automatic freeing; every callback and every release compared with a model of the protocol", func(t *T) {
		for i := 0; i < 3000 || t.More(); i++ {
			h := t.DemuxHistory(4 + t.Intn(57))
			t.Case(h.String(), func() string { return h.Run("deliver") })
		}
	})
}
