package main

import (
	"bytes"
	"encoding/binary"
	"fmt"

	. "drivers/lib"
	"github.com/lkmio/avformat/avc"
)

func main() {
	Run("AnnexB2AVCC on all byte strings of length <= 9 over {0,1,0x65} and on random streams (also units longer than 65535 bytes), destination of exactly the needed size and with guard bytes", func(t *T) {
		run := func(d string, p []byte) {
			t.Case(d, func() string {
				p := Exact(p)
				in := Exact(p)
				var want []byte
				for _, u := range Units(p) {
					if len(u) > 0 {
						want = binary.BigEndian.AppendUint32(want, uint32(len(u)))
						want = append(want, u...)
					}
				}
				for _, extra := range []int{0, 9} {
					dst := bytes.Repeat([]byte{0xA5}, len(want)+extra)
					n := avc.AnnexB2AVCC(dst, p)
					if n != len(want) {
						return fmt.Sprintf("returned %d, want %d", n, len(want))
					}
					if !bytes.Equal(dst[:n], want) {
						return fmt.Sprintf("wrote %.200x, want %.200x", dst[:n], want)
					}
					for _, b := range dst[n:] {
						if b != 0xA5 {
							return "wrote beyond the returned size"
						}
					}
				}
				if !bytes.Equal(p, in) {
					return "input changed"
				}
				return ""
			})
		}
		x := func(p []byte) { run(fmt.Sprintf("data %x", p), p) }
		Words([]byte{0, 1, 0x65}, 9, x)
		for _, n := range []int{255, 256, 257, 65535, 65536, 65537, 1 << 20, 1<<24 + 3} {
			u := bytes.Repeat([]byte{0x65}, n)
			p := append([]byte{0, 0, 1}, u...)
			p = append(p, 0, 0, 0, 1, 0x41, 9)
			run(fmt.Sprintf("unit of %d bytes 0x65 and one of 2", n), p)
		}
		for t.More() {
			x(t.Stream([]byte{0x65, 0x67, 0x68, 0, 1}))
			x(t.Bytes(t.Intn(40)))
		}
	})
}
