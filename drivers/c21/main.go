package main

import (
	"bytes"
	"fmt"

	. "drivers/lib"
	"github.com/lkmio/avformat"
	"github.com/lkmio/avformat/utils"
)

var rates = []int{96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350}
var chans = []int{0, 1, 2, 3, 4, 5, 6, 8, 0, 0, 0, 7, 8, 24}

func field(d []byte, off, n int) int {
	v := 0
	for i := off; i < off+n; i++ {
		v = v<<1 | int(d[i/8]>>(7-uint(i%8))&1)
	}
	return v
}

func header(d []byte) string {
	h, err := utils.ReadADtsFixedHeader(d)
	bad := len(d) < 7 || d[0] != 0xFF || d[1]>>4 != 0xF
	if (err != nil) != bad {
		return fmt.Sprintf("header of % x gives error %v", d, err)
	}
	if bad {
		return ""
	}
	for _, f := range []struct {
		name        string
		got, off, n int
	}{
		{"SyncWord", h.SyncWord(), 0, 12}, {"ID", h.ID(), 12, 1}, {"Layer", h.Layer(), 13, 2},
		{"ProtectionAbsent", h.ProtectionAbsent(), 15, 1}, {"Profile", h.Profile(), 16, 2},
		{"Frequency", h.Frequency(), 18, 4}, {"PrivateBit", h.PrivateBit(), 22, 1}, {"Channel", h.Channel(), 23, 3},
		{"Original", h.Original(), 26, 1}, {"Home", h.Home(), 27, 1}, {"CopyrightBit", h.CopyrightBit(), 28, 1},
		{"CopyrightStart", h.CopyrightStart(), 29, 1}, {"FrameLength", h.FrameLength(), 30, 13},
		{"Fullness", h.Fullness(), 43, 11}, {"Blocks", h.Blocks(), 54, 2},
	} {
		if w := field(d, f.off, f.n); f.got != w {
			return fmt.Sprintf("%s of % x is %d want %d", f.name, d[:7], f.got, w)
		}
	}
	c, err := utils.ADtsHeader2MpegAudioConfigData(h)
	if err != nil || len(c) != 2 {
		return fmt.Sprintf("config of % x: %x, %v", d[:7], c, err)
	}
	m, err := utils.ParseMpeg4AudioConfig(c)
	if err != nil {
		return fmt.Sprintf("config %x of % x is refused: %v", c, d[:7], err)
	}
	if m.ObjectType != h.Profile()+1 || m.SamplingIndex != h.Frequency() || m.ChanConfig != h.Channel() || m.Channels != chans[h.Channel()] {
		return fmt.Sprintf("config %x of % x decodes to %+v", c, d[:7], *m)
	}
	if m.SamplingIndex < 13 && m.SampleRate != rates[m.SamplingIndex] {
		return fmt.Sprintf("config %x has rate %d want %d", c, m.SampleRate, rates[m.SamplingIndex])
	}
	return ""
}

func main() {
	Run("ADTS headers written for every field value (frame lengths near every power of two, then all) read back; accessors against a bit-by-bit reading of arbitrary headers; every two-byte audio config; rate tables; data of every short length; extra data of AAC frames", func(t *T) {
		write := func(id, prof, freq, ch, size int) {
			t.Case(fmt.Sprintf("header id %d profile %d index %d channels %d length %d", id, prof, freq, ch, size), func() string {
				d := make([]byte, 9)
				t.Read(d)
				tail := append([]byte(nil), d[7:]...)
				utils.SetADtsHeader(d, id, prof, freq, ch, size)
				if !bytes.Equal(d[7:], tail) {
					return "bytes after the header changed"
				}
				h, err := utils.ReadADtsFixedHeader(d[:7])
				if err != nil {
					return fmt.Sprintf("% x is refused: %v", d[:7], err)
				}
				if h.SyncWord() != 0xFFF || h.ID() != id || h.Layer() != 0 || h.ProtectionAbsent() != 1 || h.Profile() != prof || h.Frequency() != freq || h.Channel() != ch || h.FrameLength() != size || h.Fullness() != 0x7FF || h.PrivateBit() != 0 || h.Original() != 0 || h.Home() != 0 || h.CopyrightBit() != 0 || h.CopyrightStart() != 0 {
					return fmt.Sprintf("read back from % x: sync %x id %d layer %d crc %d profile %d index %d channels %d length %d fullness %x", d[:7], h.SyncWord(), h.ID(), h.Layer(), h.ProtectionAbsent(), h.Profile(), h.Frequency(), h.Channel(), h.FrameLength(), h.Fullness())
				}
				return header(d[:7])
			})
		}
		for id := 0; id < 2; id++ {
			for p := 0; p < 4; p++ {
				for f := 0; f < 16; f++ {
					for c := 0; c < 8; c++ {
						for _, s := range []int{0, 7, 2047, 4095, 4096, 8191} {
							write(id, p, f, c, s)
						}
					}
				}
			}
		}
		for s := 0; s < 8192; s++ {
			write(s&1, s>>1&3, s%16, s%7, s)
		}
		for i, r := range rates {
			t.Case(fmt.Sprintf("rate %d", r), func() string {
				g, ok := utils.GetSampleRateFromFrequency(i)
				if !ok || g != r || utils.GetSampleRateIndex(r) != i {
					return fmt.Sprintf("index %d -> %d %v, rate -> %d", i, g, ok, utils.GetSampleRateIndex(r))
				}
				for _, b := range []int{r + 1, r - 1} {
					if utils.GetSampleRateIndex(b) != -1 {
						return fmt.Sprintf("rate %d has index %d", b, utils.GetSampleRateIndex(b))
					}
				}
				return ""
			})
		}
		for v := 0; v < 65536; v++ {
			d := []byte{byte(v >> 8), byte(v)}
			t.Case(fmt.Sprintf("audio config %x", d), func() string {
				m, err := utils.ParseMpeg4AudioConfig(d)
				ch := v >> 3 & 15
				if (err != nil) != (ch >= 14) {
					return fmt.Sprintf("error %v", err)
				}
				if err != nil {
					return ""
				}
				f := v >> 7 & 15
				if m.ObjectType != v>>11 || m.SamplingIndex != f || m.ChanConfig != ch || m.Channels != chans[ch] || f < 13 && m.SampleRate != rates[f] {
					return fmt.Sprintf("decodes to %+v", *m)
				}
				return ""
			})
		}
		for n := 0; n < 9; n++ {
			for i := 0; i < 40; i++ {
				d := make([]byte, n)
				t.Read(d)
				if n > 1 && i&1 == 0 {
					d[0], d[1] = 0xFF, 0xF0|d[1]&15
				}
				t.Case(fmt.Sprintf("%d bytes % x", n, d), func() string {
					if m, err := utils.ParseMpeg4AudioConfig(d); n < 2 && (err == nil || m != nil) {
						return "a short audio config is accepted"
					}
					return header(d)
				})
			}
		}
		for t.More() {
			n := 7 + t.Intn(4)
			d := make([]byte, n)
			t.Read(d)
			if t.Intn(10) > 0 {
				d[0], d[1] = 0xFF, 0xF0|d[1]&15
			}
			t.Case(fmt.Sprintf("header % x", d), func() string {
				if m := header(d); m != "" {
					return m
				}
				for _, k := range []int{0, 1, 6, 7, n} {
					extra, skip, cfg, err := avformat.ExtractAudioExtraData(utils.AVCodecIdAAC, d[:k])
					if (err != nil) != (k < 7 || d[0] != 0xFF || d[1]>>4 != 15) {
						return fmt.Sprintf("extra data of %d bytes: error %v", k, err)
					}
					if err != nil {
						continue
					}
					if w := 9 - 2*int(d[1]&1); skip != w {
						return fmt.Sprintf("header length %d want %d", skip, w)
					}
					h, _ := utils.ReadADtsFixedHeader(d)
					w, _ := utils.ADtsHeader2MpegAudioConfigData(h)
					f := h.Frequency()
					if !cfg.HasADTSHeader || cfg.SampleSize != 16 || cfg.Channels != chans[h.Channel()] || f < 13 && cfg.SampleRate != rates[f] {
						return fmt.Sprintf("stream parameters %+v", cfg)
					}
					if !bytes.Equal(extra, w) {
						return fmt.Sprintf("extra data %x want %x", extra, w)
					}
				}
				for _, c := range []utils.AVCodecID{utils.AVCodecIdPCMALAW, utils.AVCodecIdPCMMULAW, utils.AVCodecIdMP3, utils.AVCodecIdOPUS, utils.AVCodecIdH264} {
					extra, skip, cfg, err := avformat.ExtractAudioExtraData(c, d)
					if err != nil || extra != nil || skip != 0 || cfg.HasADTSHeader || cfg.SampleRate != 8000 || cfg.SampleSize != 16 || cfg.Channels != 1 {
						return fmt.Sprintf("codec %v gives %x %d %+v %v", c, extra, skip, cfg, err)
					}
				}
				return ""
			})
		}
	})
}
