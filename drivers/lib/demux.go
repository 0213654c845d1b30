package lib

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"strings"

	"github.com/lkmio/avformat"
	"github.com/lkmio/avformat/utils"
)

// DemuxOp is one call on a demuxer.
type DemuxOp struct {
	Kind     string // audio video atrack vtrack add complete try probe
	Buf      int
	ID       utils.AVCodecID
	Timebase int
	Dts      int64
	Pts      int64 // after Dts
	Key      bool
	Data     []byte
}

func (o DemuxOp) String() string {
	switch o.Kind {
	case "audio":
		return fmt.Sprintf("audio(buf %d %v dts %d %x)", o.Buf, o.ID, o.Dts, o.Data)
	case "video":
		return fmt.Sprintf("video(buf %d %v dts %d pts +%d key %v %x)", o.Buf, o.ID, o.Dts, o.Pts, o.Key, o.Data)
	case "atrack", "vtrack":
		return fmt.Sprintf("%s(buf %d %v timebase %d extra %x)", o.Kind, o.Buf, o.ID, o.Timebase, o.Data)
	case "probe":
		return fmt.Sprintf("probe duration %d", o.Dts)
	}
	return o.Kind
}

type demuxEvent struct {
	kind string // track complete none packet head back
	n    int    // buffer
	t    avformat.Track
	p    avformat.AVPacket
	data []byte
}

type demuxLog struct{ ev []demuxEvent }

func (l *demuxLog) OnNewTrack(t avformat.Track) { l.ev = append(l.ev, demuxEvent{kind: "track", t: t}) }
func (l *demuxLog) OnTrackComplete()            { l.ev = append(l.ev, demuxEvent{kind: "complete"}) }
func (l *demuxLog) OnTrackNotFind()             { l.ev = append(l.ev, demuxEvent{kind: "none"}) }
func (l *demuxLog) OnPacket(p *avformat.AVPacket) {
	l.ev = append(l.ev, demuxEvent{kind: "packet", p: *p, data: append([]byte{}, p.Data...)})
}

type demuxPipe struct {
	avformat.DataPipeline
	l *demuxLog
}

func (p demuxPipe) DiscardBackPacket(i int) {
	p.l.ev = append(p.l.ev, demuxEvent{kind: "back", n: i})
}
func (p demuxPipe) DiscardHeadPacket(i int) {
	p.l.ev = append(p.l.ev, demuxEvent{kind: "head", n: i})
}

type demuxPkt struct {
	op       DemuxOp
	timebase int
}

// DemuxHistory is a demuxer configuration and its calls.
type DemuxHistory struct {
	Name string
	Free bool
	Ops  []DemuxOp
}

func (h DemuxHistory) String() string {
	var s []string
	for _, o := range h.Ops {
		s = append(s, o.String())
	}
	return fmt.Sprintf("%s demuxer, autofree %v: %s", h.Name, h.Free, strings.Join(s, "; "))
}

// Run plays the history and tells what breaks the protocol (part "probe") or the delivery (part "deliver").
func (h DemuxHistory) Run(part string) string {
	l := &demuxLog{}
	d := &avformat.BaseDemuxer{Name: h.Name, Handler: l, DataPipeline: demuxPipe{l: l}, AutoFree: h.Free}
	probe, deliver := part == "probe", part == "deliver"
	done, none := false, false
	pd := int64(0)
	var tracks []avformat.Track  // in registration order
	bufOf := map[int]int{}       // stream -> buffer
	byBuf := map[int]int{}       // buffer -> stream
	held := map[int][]demuxPkt{} // undelivered
	timebaseOf := map[int]int{}  // of streams
	ms := func(i int) (s int64) {
		q := held[i]
		for k := 0; k+1 < len(q); k++ {
			dur := q[k+1].op.Dts - q[k].op.Dts
			if q[k].timebase != 1000 {
				dur = dur * 1000 / int64(q[k].timebase)
			}
			s += dur
		}
		return
	}
	for step, o := range h.Ops {
		at := fmt.Sprintf("call %d, %v: ", step+1, o)
		l.ev = nil
		before := len(d.Tracks.Tracks)
		var made avformat.Track
		switch o.Kind {
		case "audio":
			d.OnAudioPacket(o.Buf, o.ID, o.Data, o.Dts)
		case "video":
			d.OnVideoPacket(o.Buf, o.ID, o.Data, o.Key, o.Dts, o.Dts+o.Pts, d.GetPackType())
		case "atrack":
			made = d.OnNewAudioTrack(o.Buf, o.ID, o.Timebase, o.Data, avformat.AudioConfig{SampleRate: 8000, Channels: 1})
		case "vtrack":
			made = d.OnNewVideoTrack(o.Buf, o.ID, o.Timebase, o.Data)
		case "add":
			st := &avformat.AVStream{Index: before, MediaType: utils.AVMediaTypeSubtitle, Timebase: 1000}
			if ok := d.AddTrack(&avformat.SimpleTrack{Stream: st}); ok == done && probe {
				return at + fmt.Sprintf("track accepted: %v, probing complete: %v", ok, done)
			}
		case "complete":
			d.ProbeComplete()
		case "try":
			d.TryCompleteProbe()
		case "probe":
			d.SetProbeDuration(int(o.Dts))
			pd = o.Dts
		}
		// tracks
		after := d.Tracks.Tracks
		if len(after) < before {
			return at + "a track is gone"
		}
		if done && len(after) != before && probe {
			return at + "a track was accepted after probing completed"
		}
		for k, t := range tracks {
			if after[k] != t {
				return at + fmt.Sprintf("track %d changed", k)
			}
		}
		if made != nil && (done || len(after) != before+1 || after[before] != made) && probe {
			return at + "a track was returned that is not the newly registered one"
		}
		isTrack := o.Kind == "atrack" || o.Kind == "vtrack" || o.Kind == "audio" || o.Kind == "video"
		for k := before; k < len(after); k++ {
			tracks = append(tracks, after[k])
			timebaseOf[k] = after[k].GetStream().Timebase
			if isTrack {
				bufOf[k] = o.Buf
				byBuf[o.Buf] = k
			}
		}
		// releases from the back
		backs := 0
		var ev []demuxEvent
		for _, e := range l.ev {
			if e.kind == "back" {
				backs++
				if e.n != o.Buf && deliver {
					return at + fmt.Sprintf("a block of buffer %d was given back", e.n)
				}
				continue
			}
			ev = append(ev, e)
		}
		accepted := false
		if o.Kind == "audio" || o.Kind == "video" {
			_, known := byBuf[o.Buf]
			if deliver && (backs > 1 || known != (backs == 0)) {
				return at + fmt.Sprintf("a track for the buffer: %v, its block was given back %d times", known, backs)
			}
			accepted = known && backs == 0
		} else if deliver {
			want := 0
			if (o.Kind == "atrack" || o.Kind == "vtrack") && len(o.Data) > 0 {
				want = 1
			}
			if backs != want {
				return at + fmt.Sprintf("%d blocks were given back, want %d", backs, want)
			}
		}
		was := done
		if accepted {
			i := byBuf[o.Buf]
			held[i] = append(held[i], demuxPkt{o, timebaseOf[i]})
			if !done && len(held[i]) > 1 {
				lim := pd
				if lim < 200 {
					lim = 200
				}
				done = ms(i) >= lim
			}
		}
		switch o.Kind {
		case "complete":
			done = true
		case "try":
			done = done || d.Completed
		}
		if d.Completed != done && probe {
			return at + fmt.Sprintf("probing complete: %v, want %v", d.Completed, done)
		}
		if d.Completed != done { // the other part's business
			return ""
		}
		// protocol
		if done && !was {
			if len(tracks) == 0 {
				none = true
				if (len(ev) != 1 || ev[0].kind != "none") && probe {
					return at + fmt.Sprintf("no track: told %s", kinds(ev))
				}
				if len(ev) > 0 {
					ev = ev[1:]
				}
			} else {
				for k := 0; k <= len(tracks); k++ {
					bad := len(ev) == 0
					if !bad && k < len(tracks) {
						bad = ev[0].kind != "track" || ev[0].t != tracks[k]
					} else if !bad {
						bad = ev[0].kind != "complete"
					}
					if bad {
						if probe {
							return at + fmt.Sprintf("%d tracks, step %d of the announcement is %s", len(tracks), k, kinds(ev))
						}
						return ""
					}
					ev = ev[1:]
				}
			}
		}
		for _, e := range ev {
			if e.kind != "packet" && e.kind != "head" && probe || e.kind == "packet" && (!done || none) && probe {
				return at + fmt.Sprintf("told %s (probing complete: %v)", kinds(ev), done)
			}
		}
		if !deliver {
			for i := range held {
				if done && len(held[i]) > 1 {
					held[i] = held[i][len(held[i])-1:]
				}
			}
			continue
		}
		// delivery
		first, lastDts, flush := true, int64(0), done && !was
		for k := 0; k < len(ev); k++ {
			e := ev[k]
			if e.kind != "packet" {
				return at + fmt.Sprintf("unexpected %s", kinds(ev[k:]))
			}
			i := e.p.Index
			q := held[i]
			if len(q) < 2 {
				return at + fmt.Sprintf("a packet of stream %d (dts %d) is delivered, %d are undelivered", i, e.p.Dts, len(q))
			}
			w := q[0]
			held[i] = q[1:]
			if !bytes.Equal(e.data, w.op.Data) || e.p.Dts != w.op.Dts || e.p.Index != byBuf[w.op.Buf] || e.p.CodecID != w.op.ID || e.p.BufferIndex != w.op.Buf || e.p.Timebase != w.timebase ||
				w.op.Kind == "video" && (e.p.Key != w.op.Key || e.p.Pts != w.op.Dts+w.op.Pts || e.p.MediaType != utils.AVMediaTypeVideo) || w.op.Kind == "audio" && (e.p.Pts != w.op.Dts || e.p.MediaType != utils.AVMediaTypeAudio) {
				return at + fmt.Sprintf("stream %d delivered dts %d pts %d buffer %d key %v %x, the next undelivered packet is %v", i, e.p.Dts, e.p.Pts, e.p.BufferIndex, e.p.Key, e.data, w.op)
			}
			if want := q[1].op.Dts - w.op.Dts; e.p.Duration != want {
				return at + fmt.Sprintf("stream %d packet dts %d has duration %d, its successor comes %d later", i, w.op.Dts, e.p.Duration, want)
			}
			if flush && !first && e.p.Dts < lastDts {
				return at + fmt.Sprintf("dts %d is delivered after dts %d", e.p.Dts, lastDts)
			}
			first, lastDts = false, e.p.Dts
			if h.Free {
				if k+1 >= len(ev) || ev[k+1].kind != "head" || ev[k+1].n != bufOf[i] {
					return at + fmt.Sprintf("packet of stream %d (buffer %d): then %s", i, bufOf[i], kinds(ev[k+1:]))
				}
				k++
			}
		}
		for i, q := range held {
			if done && len(q) > 1 {
				return at + fmt.Sprintf("stream %d: %d packets are held", i, len(q))
			}
		}
	}
	return ""
}

func kinds(ev []demuxEvent) string {
	var s []string
	for i, e := range ev {
		if i == 6 {
			s = append(s, "...")
			break
		}
		switch e.kind {
		case "packet":
			s = append(s, fmt.Sprintf("packet(stream %d dts %d)", e.p.Index, e.p.Dts))
		case "head":
			s = append(s, fmt.Sprintf("release(buffer %d)", e.n))
		default:
			s = append(s, e.kind)
		}
	}
	return "[" + strings.Join(s, " ") + "]"
}

var demuxSPS, _ = hex.DecodeString("6742c01eda01e0089f961000000300100000030320f162ea")
var demuxPPS, _ = hex.DecodeString("68ce0f2c")

// DemuxHistory makes a history with up to 5 streams and n calls.
func (t *T) DemuxHistory(n int) (h DemuxHistory) {
	h.Name = []string{"flv", "ps", "ts", "jt1078"}[t.Intn(4)]
	h.Free = t.Intn(2) == 0
	streams := 1 + t.Intn(5)
	video := make([]bool, streams)
	next := make([]int64, streams)
	start := make([]int, streams)
	started := make([]bool, streams)
	for i := range video {
		video[i] = t.Intn(2) == 0
		next[i] = int64(t.Intn(50)) - 10
		start[i] = t.Intn(n/2 + 1)
	}
	unit := int64(1)
	if h.Name == "ps" || h.Name == "ts" {
		unit = 90
	}
	near := 0 // gaps close to a part of the 200 ms that complete probing
	if t.Intn(4) == 0 {
		near = 1 + t.Intn(3)
	}
	gap := []int{1, 3, 10, 40, 100, 250, 700}[t.Intn(7)]
	perm := t.Perm(streams)
	audio := utils.AVCodecIdPCMALAW
	switch t.Intn(4) {
	case 0:
		audio = utils.AVCodecIdPCMS16LE
	case 1:
		audio = utils.AVCodecIdADPCMG726
	}
	for k := 0; k < n; k++ {
		switch t.Intn(24) {
		case 0:
			if t.Intn(3) == 0 {
				h.Ops = append(h.Ops, DemuxOp{Kind: "complete"})
			}
			continue
		case 1:
			if t.Intn(4) == 0 {
				h.Ops = append(h.Ops, DemuxOp{Kind: "try"})
			}
			continue
		case 2:
			h.Ops = append(h.Ops, DemuxOp{Kind: "probe", Dts: int64(t.Intn(4) * t.Intn(600))})
			continue
		case 3:
			if t.Intn(4) == 0 {
				h.Ops = append(h.Ops, DemuxOp{Kind: "add"})
			}
			continue
		}
		i := t.Intn(streams)
		if k < start[i] {
			continue
		}
		o := DemuxOp{Buf: perm[i], Timebase: int(unit * 1000), ID: audio}
		if t.Intn(8) == 0 {
			o.Timebase = []int{1000, 90000, 8000, 44100, 48000, 1}[t.Intn(6)]
		}
		rec := append([]byte{1, 0x42, 0xc0, 0x1e, 0xff, 0xe1, 0, byte(len(demuxSPS))}, demuxSPS...)
		rec = append(append(rec, 1, 0, byte(len(demuxPPS))), demuxPPS...)
		annexb := append(append(append([]byte{0, 0, 0, 1}, demuxSPS...), 0, 0, 0, 1), demuxPPS...)
		if video[i] {
			o.ID = utils.AVCodecIdH264
		}
		if !started[i] && t.Intn(3) > 0 {
			started[i] = true
			if video[i] {
				o.Kind, o.Data = "vtrack", annexb
				if h.Name == "flv" {
					o.Data = rec
				}
				if t.Intn(8) == 0 {
					o.Data = o.Data[:t.Intn(len(o.Data))]
				}
			} else {
				o.Kind = "atrack"
				if t.Intn(2) == 0 {
					o.Data = t.Bytes(1 + t.Intn(3))
				}
			}
			h.Ops = append(h.Ops, o)
			continue
		}
		started[i] = true
		o.Kind, o.Dts = "audio", next[i]*unit
		if near > 0 {
			o.Dts = next[i]
		}
		o.Data = append(t.Bytes(1+t.Intn(6)), byte(k))
		if video[i] {
			o.Kind = "video"
			o.Pts = int64(t.Intn(4)*t.Intn(80)) * unit
			o.Key = t.Intn(3) == 0
			if o.Key {
				o.Data = append(append([]byte{}, annexb...), 0, 0, 1, 0x65, byte(k))
			}
		}
		if near > 0 {
			next[i] += 200*unit/int64(near) + int64(t.Intn(5)) - 3
			if t.Intn(3) == 0 {
				next[i] += unit / int64(1+t.Intn(3))
			}
		} else if t.Intn(4) > 0 {
			next[i] += int64(t.Intn(gap + 1))
		}
		h.Ops = append(h.Ops, o)
	}
	if t.Intn(2) == 0 {
		h.Ops = append(h.Ops, DemuxOp{Kind: "complete"})
	}
	return
}
