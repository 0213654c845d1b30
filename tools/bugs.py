from bugkit import bug, main
H='''package main

import (
	"fmt"
	"os"
%s
)

func fail(f string, a ...interface{}) {
	fmt.Printf(f+"\\n", a...)
	os.Exit(1)
}

func main() {
	defer func() {
		if r := recover(); r != nil {
			fail("panic: %%v", r)
		}
	}()
%s
}
'''
M="github.com/lkmio/avformat"
def prog(imports,body):
    return H%("\n".join('\t"%s"'%i for i in imports.split()),body)

bug("b01-seekback","C01","SeekBack by more than the current offset (without overflowing)","the cursor leaves the buffer on the left and the next read panics",
 [("bufio/bytes_buffer.go","if b.length < end || end < 0 {","if b.length-b.offset < size {")],
 prog(M+"/bufio",'''
	r := bufio.NewBytesReader([]byte{1, 2, 3, 4})
	r.Seek(1)
	if err := r.SeekBack(2); err == nil {
		fail("SeekBack(2) at offset 1 accepted, offset %d", r.Offset())
	}
	if r.Offset() != 1 {
		fail("offset %d", r.Offset())
	}'''))

bug("b02-atomic","C02","WriteUint32 with exactly 2 or 3 bytes left","a failed write has already changed the buffer and the cursor",
 [("bufio/bytes_wirter.go","""	if err := b.peekN(4); err != nil {
		return err
	}

	binary.BigEndian.PutUint32(b.data[b.offset-4:], data)
	return nil""","""	if err := b.WriteUint16(uint16(data >> 16)); err != nil {
		return err
	}

	return b.WriteUint16(uint16(data))""")],
 prog(M+"/bufio",'''
	buf := []byte{9, 9, 9}
	w := bufio.NewBytesWriter(buf)
	if w.WriteUint32(0x01020304) == nil || w.Offset() != 0 || buf[0] != 9 || buf[1] != 9 {
		fail("offset %d buffer %v", w.Offset(), buf)
	}'''))

bug("b05-tail","C05","the write position is at the start of the array and the buffer is not full","Tail returns another element than the newest",
 [("collections/ring_buffer.go","return r.data[cap(r.data)-1]","return r.data[r.size-1]")],
 prog(M+"/collections",'''
	r := collections.NewRingBuffer[int](3)
	for i := 1; i <= 3; i++ {
		r.Push(i)
	}
	r.Pop()
	if r.Tail() != 3 {
		fail("tail %d want 3", r.Tail())
	}'''))

bug("b06-grow","C06","growth happens while the window is wrapped","elements come out in another order after growth",
 [("collections/queue.go","""		copy(newArray, head)
		if tail != nil {
			copy(newArray[len(head):], tail)
		}
""","""		copy(newArray, tail)
		copy(newArray[len(tail):], head)
""")],
 prog(M+"/collections",'''
	q := collections.NewQueue[int](4)
	for i := 0; i < 4; i++ {
		q.Push(i)
	}
	q.Pop()
	q.Push(4)
	q.Push(5)
	for i := 1; i <= 5; i++ {
		if g := q.Pop(); g != i {
			fail("popped %d want %d", g, i)
		}
	}'''))

bug("b07-empty","C07","the last remaining element is removed and another is added afterwards","the added element is not in the list",
 [("collections/linked_list.go","""		l.fist = nil
		l.last = nil
""","""		l.fist = nil
""")],
 prog(M+"/collections",'''
	l := &collections.LinkedList[int]{}
	l.Add(1)
	l.Remove(0)
	l.Add(2)
	if l.Size() != 1 || l.Get(0) != 2 {
		fail("bad list")
	}'''))

bug("b08-order","C08","a block is partly written when the buffer wraps around","the bytes written before the wrap are lost from the fetched block",
 [("collections/buffer_rb.go","""		copy(r.data, r.data[oldBlock.index:oldBlock.index+oldBlock.size])
		oldBlock.index = 0
		tail = oldBlock.size
	} else {
""","""		oldBlock.index = 0
		copy(r.data, r.data[oldBlock.index:oldBlock.index+oldBlock.size])
		tail = oldBlock.size
	} else {
""")],
 prog(M+"/collections",'''
	b := collections.NewRBBlockBuffer(16)
	b.Write([]byte{1, 1, 1, 1, 1, 1, 1, 1})
	b.Fetch()
	b.Write([]byte{2, 2, 2, 2})
	b.Fetch()
	b.Pop()
	b.Write([]byte{7, 8})
	b.Write([]byte{9, 10, 11})
	if s := fmt.Sprint(b.Fetch()); s != "[7 8 9 10 11]" {
		fail("fetched %s", s)
	}'''))

bug("b09-reuse","C09","a block is still live when an older one is popped, leaving one","new memory overlaps a block that is still live",
 [("collections/buffer_direct.go","""	b.blocks.Pop()
	if b.blocks.IsEmpty() {
		b.nextOffset = 0
	}
}

func (b *DirectBlockBuffer) PopBack""","""	if b.blocks.Size() <= 2 {
		b.nextOffset = 0
	}
	b.blocks.Pop()
}

func (b *DirectBlockBuffer) PopBack""")],
 prog(M+"/collections",'''
	b := collections.NewDirectBlockBuffer(16)
	b.Write([]byte{1, 2})
	b.Fetch()
	b.Write([]byte{3, 4, 5})
	x := b.Fetch()
	b.Pop()
	b.Write([]byte{6, 7, 8})
	if fmt.Sprint(x) != "[3 4 5]" {
		fail("live block overwritten: %v", x)
	}'''))

bug("b11-len4","C11","a four-byte start code at the very beginning of the scanned bytes","its length is reported as 3, so pieces are cut one byte late",
 [("avc/util.go","if i > 3 && p[i-4] == 0x0 {","if i > 4 && p[i-4] == 0x0 {")],
 prog(M+"/avc",'''
	if i, n := avc.FindStartCode([]byte{0, 0, 0, 1, 0x65}); i != 4 || n != 4 {
		fail("got %d,%d", i, n)
	}'''))

bug("b12-empty","C12","two start codes follow each other directly","the second start code becomes part of a unit",
 [("avc/util.go","nalEnd, n := FindStartCode(annexB[nalStart:])","nalEnd, n := FindStartCode(annexB[nalStart+1:])"),
  ("avc/util.go","""			n = 0
		}

		nalSize""","""			n = 0
		} else {
			nalEnd++
		}

		nalSize""")],
 prog(M+"/avc",'''
	dst := make([]byte, 64)
	n := avc.AnnexB2AVCC(dst, []byte{0, 0, 1, 0, 0, 1, 0x65, 1})
	if fmt.Sprint(dst[:n]) != "[0 0 0 2 101 1]" {
		fail("got %v", dst[:n])
	}'''))

bug("b13-irap","C13","an access unit with IRAP, non-IRAP and again IRAP units","the parameter sets are inserted twice",
 [("hevc/util.go","gotIRAP |= 0","gotIRAP = 0")],
 prog(M+"/hevc",'''
	dst := make([]byte, 128)
	n, err := hevc.Mp4ToAnnexB(dst, []byte{0, 0, 0, 2, 38, 1, 0, 0, 0, 2, 2, 1, 0, 0, 0, 2, 38, 1}, []byte{0, 0, 0, 1, 64, 1}, 4)
	if err != nil || n != 6+18 {
		fail("%d bytes, %v", n, err)
	}'''))

bug("b19-reserved","C19","the first picture unit has one of the reserved IRAP types 22 or 23","a random access picture is not reported as a key frame",
 [("hevc/util.go","if type_ >= 16 && type_ <= 23 {","if type_ >= HevcNalBlaWLP && type_ <= HevcNalCraNUT {")],
 prog(M+"/hevc",'''
	if !hevc.IsKeyFrame([]byte{0, 0, 1, 22 << 1, 1}) {
		fail("type 22 is not a key frame")
	}'''))

bug("b20-first","C20","a key frame carries two SPS units","the first SPS is returned instead of the last",
 [("hevc/util.go","} else if header == HevcNalSPS {","} else if header == HevcNalSPS && sps == nil {")],
 prog(M+"/hevc",'''
	f := []byte{0, 0, 0, 1, 64, 1, 0, 0, 0, 1, 66, 1, 7, 0, 0, 0, 1, 66, 1, 8, 0, 0, 0, 1, 68, 1}
	_, sps, _, err := hevc.ParseExtraDataFromKeyNALU(f)
	if err != nil || sps[len(sps)-1] != 8 {
		fail("%v %v", sps, err)
	}'''))

bug("b15-many","C15","a record with 16 or more SPS","the SPS count loses its top bit when a record is read, so the units are misread",
 [("avc/mp4.go","spsCount &= 0x1F","spsCount &= 0x0F")],
 prog(M+"/avc",'''
	var sps [][]byte
	for i := 0; i < 17; i++ {
		sps = append(sps, []byte{0x67, 1, 2, byte(i)})
	}
	var a, b avc.AVCDecoderConfigurationRecord
	rec, err := a.Marshal(sps, [][]byte{{0x68, 1}})
	if err != nil {
		fail("%v", err)
	}
	if err := b.Unmarshal(rec); err != nil || len(b.SPSList) != 17 {
		fail("%v, %d SPS", err, len(b.SPSList))
	}'''))

bug("b16-types","C16","an array with the reserved bit set between completeness and type","its parameter sets are dropped",
 [("hevc/mp4.go","headerType := readUint & 0x3F","headerType := readUint & 0x7F")],
 prog(M+"/hevc",'''
	rec := make([]byte, 23)
	rec[22] = 3
	for _, t := range []byte{32, 33, 34} {
		rec = append(rec, t|0xC0, 0, 1, 0, 2, t<<1, 1)
	}
	var r hevc.HEVCDecoderConfigurationRecord
	if err := r.Unmarshal(rec); err != nil {
		fail("%v", err)
	}'''))

bug("b14-room","C14","a key frame whose parameter sets are larger than 256 bytes","the destination is too small and the conversion panics",
 [("packet_utils.go","dstSize := extraDataSize + len(pkt.Data) + 256","dstSize := len(pkt.Data) + 256")],
 prog(M+" "+M+"/avc "+M+"/utils",'''
	sps := append([]byte{0, 0, 0, 1, 0x67}, make([]byte, 400)...)
	pps := []byte{0, 0, 0, 1, 0x68, 1}
	d := &avformat.AVCCodecData{Record: &avc.AVCDecoderConfigurationRecord{SPSList: [][]byte{sps}, PPSList: [][]byte{pps}}}
	st := avformat.NewAVStream(utils.AVMediaTypeVideo, 0, utils.AVCodecIdH264, nil, d)
	p := avformat.NewVideoPacket([]byte{0, 0, 0, 2, 0x65, 7}, 0, 0, true, avformat.PacketTypeAVCC, utils.AVCodecIdH264, 0, 1000)
	if r := avformat.AVCCPacket2AnnexB(st, p); len(r) != 405+6+6 {
		fail("%d bytes", len(r))
	}'''))

bug("b14-alias","C14","two key frames of one stream converted while the first is still in use, parameter sets in memory with spare room","the second conversion overwrites the first",
 [("packet_utils.go","""					data = make([]byte, size)
""","""					data = append(extraData, pkt.Data...)
""")],
 prog("encoding/hex "+M+" "+M+"/utils",'''
	sps, _ := hex.DecodeString("000000016742c01eda01e0089f961000000300100000030320f162ea")
	pps, _ := hex.DecodeString("0000000168ce0f2c")
	d, err := avformat.NewAVCCodecData(sps, pps)
	if err != nil {
		fail("%v", err)
	}
	st := avformat.NewAVStream(utils.AVMediaTypeVideo, 0, utils.AVCodecIdH264, nil, d)
	var out [][]byte
	for i := byte(1); i < 3; i++ {
		p := avformat.NewVideoPacket([]byte{0, 0, 1, 0x65, i}, 0, 0, true, avformat.PacketTypeAnnexB, utils.AVCodecIdH264, 0, 1000)
		out = append(out, avformat.AVCCPacket2AnnexB(st, p))
	}
	if a := out[0]; a[len(a)-1] != 1 {
		fail("%x", a)
	}'''))

bug("b21-long","C21","a frame of 4096 bytes or more","the written frame length loses its top bit",
 [("utils/aac_util.go","byte(size>>11&0x3)","byte(size>>11&0x1)")],
 prog(M+"/utils",'''
	d := make([]byte, 7)
	utils.SetADtsHeader(d, 0, 1, 4, 2, 5000)
	h, err := utils.ReadADtsFixedHeader(d)
	if err != nil || h.FrameLength() != 5000 {
		fail("%v %d", err, h.FrameLength())
	}'''))

bug("b22-delta","C22","PTS and DTS whose rescaled values round differently","the PTS-DTS delta is the difference of two rounded values",
 [("av_packet.go","return ConvertTs(pkt.Pts-pkt.Dts, pkt.Timebase, timebase)","return ConvertTs(pkt.Pts, pkt.Timebase, timebase) - ConvertTs(pkt.Dts, pkt.Timebase, timebase)")],
 prog(M,'''
	p := &avformat.AVPacket{Timebase: 90000, Pts: 90, Dts: 89}
	if n := p.GetPtsDtsDelta(1000); n != 0 {
		fail("%d", n)
	}'''))

bug("b25-shift","C25","a stream marker first used between two uses of an earlier one that is found at position 8 or later","the marker found moves to the front, so indices of earlier markers change",
 [("demuxer.go","		if marker == stream {\n			return i\n		}","		if marker == stream {\n			if i > 7 {\n				s.OrderedStreams[0], s.OrderedStreams[i] = stream, s.OrderedStreams[0]\n			}\n			return i\n		}")],
 prog(M,'''
	d := &avformat.BaseDemuxer{}
	for i := 0; i < 10; i++ {
		d.FindBufferIndex(100 + i)
	}
	d.FindBufferIndex(109)
	if n := d.FindBufferIndex(100); n != 0 {
		fail("index %d", n)
	}'''))

bug("b26-hook","C26","a packet that has a creation time and a buffer hook is freed","the buffer hook survives freeing",
 [("av_packet.go","	packet.OnBufferAlloc = nil\n","	if packet.CreatedTime == 0 {\n		packet.OnBufferAlloc = nil\n	}\n")],
 prog(M,'''
	p := &avformat.AVPacket{CreatedTime: 5, OnBufferAlloc: func(n int) []byte { return nil }}
	avformat.FreePacket(p)
	if p.OnBufferAlloc != nil {
		fail("the hook is kept")
	}'''))

bug("b27-two","C27","two releases that both step before either looks at the count","a release looks at the count in a second step, so two releases report the end of life",
 [("collections/reference_counter.go","return atomic.AddInt32(&r.refer, -1) == 0","atomic.AddInt32(&r.refer, -1)\n	return r.UseCount() == 0")],
 prog(M+"/collections runtime sync/atomic",'''
	runtime.GOMAXPROCS(8)
	const K, G = 20000, 4
	for round := 0; round < 40; round++ {
		cs := make([]*collections.ReferenceCounter[int], K)
		for k := range cs {
			cs[k] = collections.NewReferenceCounter(k)
			for i := 1; i < G; i++ {
				cs[k].Refer()
			}
		}
		trues := make([]int32, K)
		at := make([]int32, K)
		done := make(chan bool)
		for g := 0; g < G; g++ {
			go func() {
				for k, c := range cs {
					atomic.AddInt32(&at[k], 1)
					for n := 0; atomic.LoadInt32(&at[k]) < G; n++ {
						if n > 1000 {
							runtime.Gosched()
						}
					}
					if c.Release() {
						atomic.AddInt32(&trues[k], 1)
					}
				}
				done <- true
			}()
		}
		for g := 0; g < G; g++ {
			<-done
		}
		for k, n := range trues {
			if n != 1 {
				fail("counter %d: %d releases report the end of life", k, n)
			}
		}
	}'''))

bug("b10-cap","C10","two writes before a fetch, the second fitting in the room left by the first","the second write's bytes are lost: the room is counted by capacity and copied by length",
 [("direct_pipeline.go","bytes := make([]byte, (d.size+length)*2)","bytes := make([]byte, d.size+length, (d.size+length)*2)")],
 prog(M+" "+M+"/utils",'''
	b := &avformat.DirectDataPipeline{}
	b.Write([]byte{1, 2, 3}, 0, utils.AVMediaTypeVideo)
	b.Write([]byte{4, 5}, 0, utils.AVMediaTypeVideo)
	if d, err := b.Fetch(0); err != nil || string(d) != "\\x01\\x02\\x03\\x04\\x05" {
		fail("%v %v", d, err)
	}'''))

bug("b03-fill","C03","a read that ends past the end of the buffer","bits past the end are invented: the missing ones read as zeros below the real ones",
 [("bufio/bits_reader.go","			break // 超出数据范围","			result <<= 1\n			continue")],
 prog(M+"/bufio",'''
	if v := bufio.ReadBits([]byte{0xff}, 4, 8); v != 0xf {
		fail("%#x", v)
	}'''))

bug("b03-wide","C03","a field wider than 56 bits that ends inside a byte","the bit after the field is cleared",
 [("bufio/bits_writer.go","bitValue := (value >> uint(i)) & 0x01","bitValue := (value >> uint(i)) & 0x01\n		if i == 0 && bitIndex > 0 && bitLength > 56 {\n			data[byteIndex] &^= 1 << (bitIndex - 1)\n		}")],
 prog(M+"/bufio",'''
	d := make([]byte, 9)
	for i := range d {
		d[i] = 255
	}
	bufio.WriteBits(d, 4, 60, 0)
	bufio.WriteBits(d, 3, 58, 0)
	if d[8] != 0xff || d[7] != 0 || d[0] != 0xe0 {
		fail("%x", d)
	}
	d[7], d[6] = 255, 255
	bufio.WriteBits(d, 0, 58, 0)
	if d[7] != 0x3f {
		fail("%x", d)
	}'''))

bug("b04-stale","C04","reading on after an error at the end of the data","the reader invents bits: it gives the last byte again",
 [("bufio/golomb_reader.go","""		if _, err = self.R.Read(self.buf[:]); err != nil {
			return
		}
		self.left = 8
""","""		self.left = 8
		if _, err = self.R.Read(self.buf[:]); err != nil {
			return
		}
""")],
 prog("bytes "+M+"/bufio",'''
	g := &bufio.GolombBitReader{R: bytes.NewReader([]byte{0xff})}
	g.ReadBits(8)
	if _, err := g.ReadBit(); err == nil {
		fail("a bit after the end")
	}
	if v, err := g.ReadBit(); err == nil {
		fail("bit %d after the end", v)
	}'''))

bug("b04-zeros","C04","a code with exactly 32 leading zeros","the code is cut: a wrong value and a wrong length",
 [("bufio/golomb_reader.go","if !(bit == 0 && i < 32) {","if bit != 0 || i >= 31 {")],
 prog("bytes "+M+"/bufio",'''
	g := &bufio.GolombBitReader{R: bytes.NewReader([]byte{0, 0, 0, 0, 0x80, 0, 0, 0, 0x70})}
	v, err := g.ReadExponentialGolombCode()
	w, _ := g.ReadBits(3)
	if err != nil || v != 1<<32-1 || w != 7 {
		fail("%d %v %d", v, err, w)
	}'''))

BITS='''
	var bits string
	u := func(n int, v uint64) { bits += fmt.Sprintf("%0*b", n, v) }
	ue := func(v uint64) {
		b := fmt.Sprintf("%b", v+1)
		for range b[1:] {
			bits += "0"
		}
		bits += b
	}
	nal := func(head ...byte) []byte {
		bits += "1"
		for len(bits)%8 != 0 {
			bits += "0"
		}
		z := 0
		for i := 0; i < len(bits); i += 8 {
			v, _ := strconv.ParseUint(bits[i:i+8], 2, 8)
			if z >= 2 && v <= 3 {
				head = append(head, 3)
				z = 0
			}
			head = append(head, byte(v))
			z++
			if v != 0 {
				z = 0
			}
		}
		return head
	}
	_, _, _ = u, ue, nal
'''

bug("b17-cycle","C17","picture order count type 1 with reference frames in its cycle","the fields after the cycle are read one code late",
 [("avc/sps.go","for i := uint(0); i < num_ref_frames_in_pic_order_cnt_cycle; i++ {","for i := uint(0); i <= num_ref_frames_in_pic_order_cnt_cycle; i++ {")],
 prog("strconv "+M+"/avc",BITS+'''
	u(8, 66)
	u(8, 0)
	u(8, 30)
	ue(3)
	ue(0)
	ue(1) // picture order count type
	u(1, 0)
	ue(0)
	ue(0)
	ue(2)
	ue(4)
	ue(5)
	ue(1)
	u(1, 0)
	ue(119)
	ue(67)
	u(1, 1)
	u(1, 1)
	u(1, 0)
	u(1, 0)
	s, err := avc.ParseSPS(nal(0x67))
	if err != nil || s.Width != 1920 || s.Height != 1088 {
		fail("%v %dx%d", err, s.Width, s.Height)
	}'''))

bug("b17-list","C17","a High profile set that carries its first 8x8 scaling list","the list is taken for a short one and the rest is misread",
 [("avc/sps.go","if i < 6 {","if i <= 6 {")],
 prog("strconv "+M+"/avc",BITS+'''
	u(8, 100)
	u(8, 0)
	u(8, 30)
	ue(0)
	ue(1)
	ue(0)
	ue(0)
	u(1, 0)
	u(1, 1) // scaling matrix
	for i := 0; i < 6; i++ {
		u(1, 0)
	}
	u(1, 1)
	for i := 0; i < 64; i++ {
		ue(uint64(1 + i%2)) // +1, -1
	}
	u(1, 0)
	ue(0)
	ue(0)
	ue(0)
	ue(1)
	u(1, 0)
	ue(79)
	ue(44)
	u(1, 1)
	u(1, 1)
	u(1, 0)
	u(1, 0)
	s, err := avc.ParseSPS(nal(0x67))
	if err != nil || s.Width != 1280 || s.Height != 720 {
		fail("%v %dx%d", err, s.Width, s.Height)
	}'''))

H5='''
	u(4, 0)
	u(3, uint64(layers))
	u(1, 1)
	for i := 0; i < 11; i++ {
		u(8, 1)
	}
	u(8, 93)
	for i := 0; i < layers; i++ {
		u(2, uint64(flags))
	}
	for i := layers; layers > 0 && i < 8; i++ {
		u(2, 0)
	}
	for i := 0; i < layers; i++ {
		for j := 0; j < 11*(flags>>1)+flags&1; j++ {
			u(8, 0x55)
		}
	}
	ue(0)
	ue(1)
	ue(1920)
	ue(1088)
	u(1, 1)
	ue(0)
	ue(0)
	ue(0)
	ue(4)
	ue(0)
	ue(0)
	ue(4)
	u(1, 0)
	ue(1)
	ue(0)
	ue(0)
	for i := 0; i < 6; i++ {
		ue(0)
	}
	s, err := hevc.ParseSPS(nal(0x42, 1))
	if err != nil || s.Width != 1920 || s.Height != 1080 {
		fail("%v %dx%d", err, s.Width, s.Height)
	}'''
bug("b18-pad","C18","more than one temporal sub-layer with coded profiles","the profiles of the sub-layers are skipped two bits short",
 [("hevc/sps.go","if _, err = br.ReadBits32(24); err != nil {","if _, err = br.ReadBits32(22); err != nil {")],
 prog("strconv "+M+"/hevc",BITS+"\n\tlayers, flags := 2, 3"+H5))
bug("b18-order","C18","several sub-layers whose ordering information is coded once, in a set that ends soon after","valid sets are refused: the information of all layers is expected",
 [("hevc/sps.go","		i = spsMaxSubLayersMinus1\n","		i = spsMaxSubLayersMinus1 >> 3\n")],
 prog("strconv "+M+"/hevc",BITS+"\n\tlayers, flags := 6, 0"+H5))

bug("b28-order","C28","H.265 codec data parsed from a configuration record","its Annex-B form has the parameter sets in another order than codec data built from the units",
 [("codec_paraments.go","""		h.annexB = mix(h.Record.VPSList, h.Record.SPSList, h.Record.PPSList)
	}

	return h.annexB""","""		h.annexB = mix(h.Record.SPSList, h.Record.VPSList, h.Record.PPSList)
	}

	return h.annexB""")],
 prog(M+" bytes encoding/hex","""
	sps, _ := hex.DecodeString("420101016000000300900000030000030078a003c08010e596566924caf01680800001f480003a98")
	rec := append([]byte{1}, make([]byte, 21)...)
	rec = append(rec, 3, 32, 0, 1, 0, 4, 0x40, 1, 2, 3, 33, 0, 1, 0, byte(len(sps)))
	rec = append(rec, sps...)
	rec = append(rec, 34, 0, 1, 0, 4, 0x44, 1, 2, 3)
"""+"""
	d, err := avformat.ParseHEVCDecoderConfigurationRecord(rec)
	if err != nil {
		fail("%v", err)
	}
	a := d.AnnexBExtraData()
	if !bytes.HasPrefix(a, []byte{0, 0, 0, 1, 0x40, 1}) {
		fail("Annex-B form %x does not start with the VPS", a)
	}"""))

bug("b28-alias","C28","the buffer that the first unit was given in has room behind it","building codec data writes over the bytes behind the first parameter set",
 [("codec_paraments.go","""			extra = append(extra, bytes...)
""","""			if extra == nil {
				extra = bytes
				continue
			}
			extra = append(extra, bytes...)
""")],
 prog(M+" bytes encoding/hex","""
	sps, _ := hex.DecodeString("6742c01eda01e0089f961000000300100000030320f162ea")
	buf := append(append([]byte{}, sps...), 1, 2, 3, 4, 0x68, 0xce, 0x0f, 0x2c)
	keep := append([]byte{}, buf...)
	n := len(sps)
	d, err := avformat.NewAVCCodecData(buf[:n], buf[n+4:])
	if err != nil {
		fail("%v", err)
	}
	if !bytes.Equal(buf, keep) {
		fail("the caller's buffer changed to %x", buf)
	}
	if a := d.AnnexBExtraData(); !bytes.Equal(a, append(append([]byte{}, sps...), 0x68, 0xce, 0x0f, 0x2c)) {
		fail("Annex-B form %x", a)
	}"""))

bug("b28-shared","C28","a video track announced with a record whose memory the caller uses again afterwards","the MP4 form of the track's codec data changes with the caller's memory",
 [("demuxer.go","generateVideoCodecData(s.GetPackType(), id, data)","generateVideoCodecData(s.GetPackType(), id, extraData)")],
 prog(M+" "+M+"/utils bytes encoding/hex","""
	sps, _ := hex.DecodeString("6742c01eda01e0089f961000000300100000030320f162ea")
	rec := append([]byte{1, 0x42, 0xc0, 0x1e, 0xff, 0xe1, 0, byte(len(sps))}, sps...)
	rec = append(rec, 1, 0, 4, 0x68, 0xce, 0x0f, 0x2c)
	keep := append([]byte{}, rec...)
	d := &avformat.BaseDemuxer{Name: "flv", DataPipeline: &avformat.StreamsBuffer{}}
	d.DataPipeline.Write(rec, 0, 0)
	got, _ := d.DataPipeline.Fetch(0)
	tr := d.OnNewVideoTrack(0, utils.AVCodecIdH264, 1000, got)
	if tr == nil {
		fail("no track")
	}
	for i := range got {
		got[i] = 0xEE
	}
	if m := tr.GetStream().CodecParameters.MP4ExtraData(); !bytes.Equal(m, keep) {
		fail("MP4 form %x, want %x", m, keep)
	}"""))

DM="""
	sps, _ := hex.DecodeString("6742c01eda01e0089f961000000300100000030320f162ea")
	key := append(append([]byte{0, 0, 0, 1}, sps...), 0, 0, 0, 1, 0x68, 0xce, 0x0f, 0x2c, 0, 0, 1, 0x65, 1)
	l := &rec{}
	d := &avformat.BaseDemuxer{Name: "ps", Handler: l, DataPipeline: l}
	audio := func(buf int, ms int64) {
		d.OnAudioPacket(buf, utils.AVCodecIdPCMALAW, []byte{byte(ms)}, ms*90)
	}
	video := func(buf int, ms, pts int64) {
		d.OnVideoPacket(buf, utils.AVCodecIdH264, key, true, ms*90, pts*90, avformat.PacketTypeAnnexB)
	}
	_, _ = audio, video
"""
DMH="""
type rec struct {
	avformat.DataPipeline
	s string
}

func (r *rec) OnNewTrack(t avformat.Track)      { r.s += fmt.Sprintf("track%d ", t.GetStream().Index) }
func (r *rec) OnTrackComplete()                 { r.s += "complete " }
func (r *rec) OnTrackNotFind()                  { r.s += "none " }
func (r *rec) OnPacket(p *avformat.AVPacket)    { r.s += fmt.Sprintf("p%d:%d+%d ", p.Index, p.Dts/90, p.Duration/90) }
func (r *rec) DiscardBackPacket(i int)          { r.s += fmt.Sprintf("back%d ", i) }
func (r *rec) DiscardHeadPacket(i int)          { r.s += fmt.Sprintf("head%d ", i) }
"""
def dm(body,want):
    return prog(M+" "+M+"/utils encoding/hex",DM+body+"""
	if want := %s; l.s != want {
		fail("told %%q, want %%q", l.s, want)
	}"""%want)+DMH

bug("b23-late","C23","a stream whose buffered duration reaches the limit exactly with its newest packet","probing completes one packet late",
 [("demuxer.go","	for i := 0; i <= prevPacketIndex; i++ {\n		duration","	for i := 0; i < prevPacketIndex; i++ {\n		duration")],
 dm("""
	audio(0, 0)
	audio(0, 100)
	audio(0, 200)""",'"track0 complete p0:0+100 p0:100+100 "'))

bug("b23-none","C23","probing completes without tracks and packets or a second completion follow","the handler is told twice that there is no track, and tracks are accepted afterwards",
 [("demuxer.go","""	s.Completed = true
	if s.Tracks.Size() == 0 {
		s.Handler.OnTrackNotFind()
		return
	}
""","""	if s.Tracks.Size() == 0 {
		s.Handler.OnTrackNotFind()
		return
	}

	s.Completed = true
""")],
 dm("""
	d.ProbeComplete()
	d.ProbeComplete()""",'"none "'))

bug("b23-sum","C23","two streams with buffered packets while probing","probing completes when the streams' buffered durations together reach the limit",
 [("demuxer.go","""	for i := 0; i <= prevPacketIndex; i++ {
		duration += int(packets.Get(i).GetDuration(1000))
	}
""","""	for _, list := range s.Packets {
		for i := 0; i < list.Size(); i++ {
			duration += int(list.Get(i).GetDuration(1000))
		}
	}
""")],
 dm("""
	audio(0, 0)
	video(1, 0, 0)
	audio(0, 120)
	video(1, 120, 120)
	audio(0, 190)""",'""'))

bug("b24-own","C24","automatic freeing, and the stream that starts first does not use the first buffer","blocks of another stream's buffer are released",
 [("demuxer.go","		s.DataPipeline.DiscardHeadPacket(bufferIndex)\n		FreePacket","		s.DataPipeline.DiscardHeadPacket(packet.Index + bufferIndex - bufferIndex)\n		FreePacket")],
 dm("""
	d.AutoFree = true
	audio(1, 0)
	audio(1, 300)""",'"track0 complete p0:0+300 head1 "'))

bug("b24-two","C24","a stream with exactly two packets when probing completes","its older packet stays behind and later comes out of order",
 [("demuxer.go","""		prePacketIndex := packets.Size() - 2
		if prePacketIndex < 0 {""","""		prePacketIndex := packets.Size() - 2
		if prePacketIndex < 1 {""")],
 dm("""
	audio(0, 0)
	audio(0, 40)
	d.ProbeComplete()
	audio(0, 80)""",'"track0 complete p0:0+40 p0:40+40 "'))

bug("b24-pts","C24","video whose presentation times run ahead of its decoding times, buffered with audio while probing","packets of different streams are not delivered in DTS order",
 [("demuxer.go","		return result[i].Dts < result[j].Dts","		return result[i].Pts < result[j].Pts")],
 dm("""
	video(1, 0, 100)
	audio(0, 20)
	video(1, 40, 140)
	audio(0, 60)
	d.ProbeComplete()""",'"track0 track1 complete p0:0+40 p1:20+40 "'))

bug("b01-huge","C01","a seek so large that the cursor would overflow","the cursor jumps far out of the buffer instead of an error",
 [("bufio/bytes_buffer.go","	if b.length < end || end < 0 {","	if b.length < end || (size < 0 && end < 0) {")],
 prog("math "+M+"/bufio","""
	r := bufio.NewBytesReader([]byte{1, 2, 3, 4})
	r.Seek(1)
	if err := r.Seek(math.MaxInt); err == nil || r.Offset() != 1 {
		fail("err %v offset %d", err, r.Offset())
	}"""))

bug("b06-back","C06","the newest element in the last place of the array is taken from the back, then another is pushed","the next push goes to the wrong place and a stale value comes out",
 [("collections/queue.go","	q.tail = (q.tail - 1 + cap(q.data)) % cap(q.data)","	if q.tail > 0 {\n		q.tail--\n	}")],
 prog(M+"/collections","""
	q := collections.NewQueue[int](3)
	for i := 0; i < 3; i++ {
		q.Push(i)
	}
	q.PopBack()
	q.Push(7)
	for _, w := range []int{0, 1, 7} {
		if g := q.Pop(); g != w {
			fail("popped %d want %d", g, w)
		}
	}"""))

bug("b08-clear","C08","a growth leaves blocks behind, the buffer is cleared before they are released, and used again","releases of new blocks are swallowed, so later ones are counted wrong",
 [("collections/buffer_rb.go","	r.capacity = cap(r.data)\n	r.discardBlockCount = 0\n","	r.capacity = cap(r.data)\n")],
 prog("bytes "+M+"/collections","""
	b := collections.NewRBBlockBuffer(8)
	put := func(n int, v byte) []byte {
		b.Write(bytes.Repeat([]byte{v}, n))
		return b.Fetch()
	}
	put(4, 1)
	put(6, 2)
	b.Clear()
	put(3, 3)
	put(3, 4)
	b.Pop()
	if b.Size() != 1 {
		fail("%d blocks after one of two was released", b.Size())
	}"""))

bug("b09-pending","C09","the buffer is split while a block has been written and not fetched yet","the new buffer shares memory with the unfetched block",
 [("collections/buffer_direct.go","		data: b.data[b.nextOffset:],","		data: b.data[b.nextOffset-b.PendingBlockSize():],")],
 prog("bytes "+M+"/collections","""
	b := collections.NewDirectBlockBuffer(64)
	b.Write([]byte{1, 2})
	b.Fetch()
	b.Write([]byte{3, 4, 5})
	n := b.SplitOff()
	n.Write(bytes.Repeat([]byte{9}, 8))
	if d := b.(*collections.DirectBlockBuffer).Data(); !bytes.Equal(d, []byte{1, 2, 3, 4, 5}) {
		fail("%v", d)
	}"""))

bug("b10-back","C10","the newest packet is discarded while an older one of that stream is live","the older packet is given up instead of the newest",
 [("streams_buffer.go","	s.buffers[index].PopBack()","	if s.buffers[index].PendingBlockSize() > 0 {\n		s.buffers[index].PopBack()\n		return\n	}\n	s.buffers[index].Pop()")],
 prog("bytes "+M+" "+M+"/utils","""
	s := &avformat.StreamsBuffer{}
	big := 48000 * 12 / 2 - 8
	put := func(n int, v byte) []byte {
		s.Write(bytes.Repeat([]byte{v}, n), 0, utils.AVMediaTypeAudio)
		d, _ := s.Fetch(0)
		return d
	}
	a := put(big, 1)
	put(big, 2)
	s.DiscardBackPacket(0)
	put(4, 3)
	put(big-2, 4)
	for i, v := range a {
		if v != 1 {
			fail("byte %d of the live packet became %d", i, v)
		}
	}"""))

bug("b18-plane","C18","4:2:2 video","the colour plane flag, coded for 4:4:4 only, is read, so the sizes are misread",
 [("hevc/sps.go","	if ctx.chromaFormat == 3 {","	if ctx.chromaFormat >= 2 {")],
 prog("strconv "+M+"/hevc",BITS+"\n\tlayers, flags := 0, 0"+H5.replace("ue(1)\n\tue(1920)","ue(2)\n\tue(1920)").replace("ue(4)\n\tue(0)","ue(8)\n\tue(0)",1)))

bug("b20-half","C20","a key frame with only one kind of parameter set","no error is reported and a missing set is returned",
 [("avc/util.go","	if sps == nil || pps == nil {","	if sps == nil && pps == nil {")],
 prog(M+"/avc","""
	if s, p, err := avc.ParseExtraDataFromKeyNALU([]byte{0, 0, 0, 1, 0x67, 0x42, 0, 30, 0, 0, 0, 1, 0x65, 1, 2}); err == nil {
		fail("no error: %v %v", s, p)
	}"""))

bug("b21-config","C21","a sampling rate of 16 kHz or lower","the AudioSpecificConfig built from the header has another rate",
 [("utils/aac_util.go","	bytes[0] |= uint8(frequency) >> 1 & 0x7","	bytes[0] |= uint8(frequency) >> 1 & 0x3")],
 prog(M+"/utils","""
	h := make([]byte, 7)
	utils.SetADtsHeader(h, 0, 1, 8, 2, 100)
	hd, _ := utils.ReadADtsFixedHeader(h)
	d, _ := utils.ADtsHeader2MpegAudioConfigData(hd)
	c, err := utils.ParseMpeg4AudioConfig(d)
	if err != nil || c.SampleRate != 16000 {
		fail("%v %+v", err, c)
	}"""))

bug("b25-last","C25","two registered tracks of one media type","the lookup by type gives the later one",
 [("tracks.go","""		if track.GetStream().MediaType == mediaType {
			return track
		}
	}

	return nil""","""		if track.GetStream().MediaType == mediaType {
			found = track
		}
	}

	return found"""),("tracks.go","func (t *TrackManager) FindTrackWithType(mediaType utils.AVMediaType) Track {","func (t *TrackManager) FindTrackWithType(mediaType utils.AVMediaType) (found Track) {")],
 prog(M+" "+M+"/utils","""
	m := &avformat.TrackManager{}
	a := &avformat.SimpleTrack{Stream: &avformat.AVStream{MediaType: utils.AVMediaTypeAudio, Index: 0}}
	b := &avformat.SimpleTrack{Stream: &avformat.AVStream{MediaType: utils.AVMediaTypeAudio, Index: 1}}
	m.Add(a)
	m.Add(b)
	if m.FindTrackWithType(utils.AVMediaTypeAudio) != avformat.Track(a) {
		fail("not the first")
	}"""))

bug("b26-kind","C26","an audio packet whose key flag was set is freed","the key flag survives into the next packet",
 [("av_packet.go","	packet.Key = false\n","	if packet.MediaType == utils.AVMediaTypeVideo {\n		packet.Key = false\n	}\n")],
 prog("runtime "+M+" "+M+"/utils","""
	runtime.GOMAXPROCS(1)
	for i := 0; i < 50; i++ {
		p := avformat.NewAudioPacket(nil, 1, utils.AVCodecIdAAC, 0, 1000)
		p.Key = true
		avformat.FreePacket(p)
		if p.Key {
			fail("the freed packet still has its key flag")
		}
	}"""))

bug("b07-tail","C07","the last of three or more elements is removed and another is added afterwards","the elements behind the first are lost and the list panics",
 [("collections/linked_list.go","		l.last = prevNode\n","		l.last = l.fist\n")],
 prog(M+"/collections","""
	l := &collections.LinkedList[int]{}
	for i := 0; i < 3; i++ {
		l.Add(i)
	}
	l.Remove(2)
	l.Add(9)
	for i, w := range []int{0, 1, 9} {
		if g := l.Get(i); g != w {
			fail("at %d: %d want %d", i, g, w)
		}
	}"""))

bug("b11-reader","C11","several searches with one reader","the reader stays on the header byte instead of behind it",
 [("avc/util.go","	_ = reader.Seek(index + 1)\n	return int(data[index])","	_ = reader.Seek(index)\n	return int(data[index])")],
 prog(M+"/avc "+M+"/bufio","""
	r := bufio.NewBytesReader([]byte{9, 0, 0, 1, 0x67, 5})
	if h := avc.FindStartCodeWithReader(r); h != 0x67 || r.Offset() != 5 {
		fail("header %x offset %d", h, r.Offset())
	}"""))

bug("b13-two","C13","a length-prefixed H.265 unit of exactly two bytes","valid data is refused",
 [("hevc/util.go","		if nalUnitSize < 2 || nalUnitSize > length-index {","		if nalUnitSize <= 2 || nalUnitSize > length-index {")],
 prog("bytes "+M+"/hevc","""
	dst := make([]byte, 64)
	n, err := hevc.Mp4ToAnnexB(dst, []byte{0, 0, 0, 2, 0x48, 1, 0, 0, 0, 3, 2, 1, 7}, nil, 4)
	if err != nil || !bytes.Equal(dst[:n], []byte{0, 0, 0, 1, 0x48, 1, 0, 0, 0, 1, 2, 1, 7}) {
		fail("%v %v", err, dst[:n])
	}"""))

bug("b16-count","C16","an array with 256 units or more","the count loses its high byte, so the rest of the record is misread",
 [("hevc/mp4.go","		for j := 0; j < int(naluCount); j++ {","		for j := 0; j < int(uint8(naluCount)); j++ {")],
 prog(M+"/hevc","""
	vps, sps := [][]byte{{0x40, 1, 2, 3}}, [][]byte{{0x42, 1, 1, 1, 96, 0, 0, 3, 0, 0x90, 0, 0, 3, 0, 0, 3, 0, 0x5d, 0xa0, 2, 0x80, 0x80, 0x2d, 0x16, 0x59, 0x59, 0xa4, 0x93, 0x2b, 0xc0, 0x5a, 0x70, 0x80, 0, 1, 0xf4, 0x80, 0, 0x3a, 0x98, 4}}
	var pps [][]byte
	for i := 0; i < 300; i++ {
		pps = append(pps, []byte{0x44, 1, byte(i)})
	}
	r := hevc.HEVCDecoderConfigurationRecord{}
	d, err := r.Marshal(vps, sps, pps)
	if err != nil {
		return
	}
	g := hevc.HEVCDecoderConfigurationRecord{}
	if err = g.Unmarshal(d); err != nil || len(g.PPSList) != 300 {
		fail("%v %d", err, len(g.PPSList))
	}"""))

bug("b19-aud","C19","an access unit delimiter in front of the IDR picture","a key frame is not reported",
 [("avc/util.go","		case H264NalSEI, H264NalAUD, H264NalPPS, H264NalSPS:","		case H264NalSEI, H264NalPPS, H264NalSPS:")],
 prog(M+"/avc","""
	if !avc.IsKeyFrame([]byte{0, 0, 0, 1, 9, 0x10, 0, 0, 1, 0x67, 1, 0, 0, 1, 0x68, 1, 0, 0, 1, 0x65, 1}) {
		fail("not a key frame")
	}"""))

bug("b22-pts","C22","PTS and DTS whose rescaled values round differently","the rescaled PTS is the sum of two rounded values",
 [("av_packet.go","	return ConvertTs(pkt.Pts, pkt.Timebase, dstTimebase)","	return pkt.ConvertDts(dstTimebase) + pkt.GetPtsDtsDelta(dstTimebase)")],
 prog(M,"""
	p := &avformat.AVPacket{Pts: 100, Dts: 50, Timebase: 90000}
	if g := p.ConvertPts(1000); g != 1 {
		fail("pts %d want 1", g)
	}"""))

if __name__ == "__main__":
    main()
