From ed241ff43920fe9f78957e57d9d6693ef8e583ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:32 +0000
Subject: [PATCH 01/28] fix: bytesReader.ReadBytes returns an error for a
 negative size instead of panicking

---
 bufio/bytes_reader.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bufio/bytes_reader.go b/bufio/bytes_reader.go
index 2c5a365..58f6718 100644
--- a/bufio/bytes_reader.go
+++ b/bufio/bytes_reader.go
@@ -2,6 +2,7 @@ package bufio
 
 import (
 	"encoding/binary"
+	"fmt"
 )
 
 type BytesReader interface {
@@ -66,6 +67,10 @@ func (b *bytesReader) ReadUint64() (uint64, error) {
 }
 
 func (b *bytesReader) ReadBytes(size int) ([]byte, error) {
+	if size < 0 {
+		return nil, fmt.Errorf("invalid read size %d", size)
+	}
+
 	tmp := b.offset
 	if err := b.peekN(size); err != nil {
 		return nil, err
-- 
2.43.0


From bc83b869af30b63274fa4b396c55a8ed7e07b93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:05 +0000
Subject: [PATCH 02/28] fix: RBBlockBuffer never fills a wrapped buffer
 completely, so it is not mistaken for an unwrapped one

---
 collections/buffer_rb.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/collections/buffer_rb.go b/collections/buffer_rb.go
index b605fe4..46545d2 100644
--- a/collections/buffer_rb.go
+++ b/collections/buffer_rb.go
@@ -60,11 +60,11 @@ func (r *RBBlockBuffer) Alloc(size int) []byte {
 	}
 
 	over := tail < head
-	if over && head-tail >= size {
-		// 已经回环, 并且头部有大小合适的内存空间
+	if over && head-tail > size {
+		// 已经回环, 并且头部有大小合适的内存空间. 不能写满, 否则无法区分回环写满和未回环
 	} else if !over && r.capacity-tail >= size {
 		// 尾部有大小合适的内存空间
-	} else if !over && head >= oldBlock.size+size {
+	} else if !over && head > oldBlock.size+size {
 		// 形成回环, 尾部空间不够, 但是头部空间足够
 
 		// 修改有效内存容量大小, 前一个完整block的结束位置
-- 
2.43.0


From e11f25eb29f995afaf287bef8c76a9ee6beb5718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:05 +0000
Subject: [PATCH 03/28] fix: RBBlockBuffer keeps counting blocks discarded by
 an earlier growth

---
 collections/buffer_rb.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/collections/buffer_rb.go b/collections/buffer_rb.go
index 46545d2..ff97173 100644
--- a/collections/buffer_rb.go
+++ b/collections/buffer_rb.go
@@ -82,10 +82,12 @@ func (r *RBBlockBuffer) Alloc(size int) []byte {
 		oldBlock.index = 0
 		tail = oldBlock.size
 
-		r.discardBlockCount = bufio.MaxInt(r.blocks.Size()-1, 0)
-		for i := 0; i < r.discardBlockCount; i++ {
+		// 连续扩容时, 之前丢弃的内存块可能还未释放, 需要累加
+		count := bufio.MaxInt(r.blocks.Size()-1, 0)
+		for i := 0; i < count; i++ {
 			r.blocks.Pop()
 		}
+		r.discardBlockCount += count
 	}
 
 	bytes := r.data[tail : tail+size]
-- 
2.43.0


From fd18cf7aa5508ca8ecdc7d892d21ad016562c36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:05 +0000
Subject: [PATCH 04/28] fix: the buffer split off a DirectBlockBuffer starts
 empty at offset 0

---
 collections/buffer_direct.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/collections/buffer_direct.go b/collections/buffer_direct.go
index daea3e6..9d01835 100644
--- a/collections/buffer_direct.go
+++ b/collections/buffer_direct.go
@@ -129,7 +129,6 @@ func (b *DirectBlockBuffer) SplitOff() BlockBuffer {
 			size      int
 			completed bool
 		}](64),
-		nextOffset: b.nextOffset,
 	}
 }
 
-- 
2.43.0


From 95086222aea40aba8269cff1e55db917399d3eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:28 +0000
Subject: [PATCH 05/28] fix: ReadSE negates the halved code number, so negative
 values are not off by 2^63

---
 bufio/golomb_reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bufio/golomb_reader.go b/bufio/golomb_reader.go
index 6d8d003..8c08d94 100644
--- a/bufio/golomb_reader.go
+++ b/bufio/golomb_reader.go
@@ -83,7 +83,7 @@ func (self *GolombBitReader) ReadSE() (res uint, err error) {
 	if res&0x01 != 0 {
 		res = (res + 1) / 2
 	} else {
-		res = -res / 2
+		res = -(res / 2)
 	}
 	return
 }
-- 
2.43.0


From 5a715a92bf2059a0411eeeaf16330f95530d9f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:28 +0000
Subject: [PATCH 06/28] fix: StreamsBuffer creates every missing buffer up to
 the requested index instead of panicking

---
 streams_buffer.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/streams_buffer.go b/streams_buffer.go
index 7e88f5b..e37ff55 100644
--- a/streams_buffer.go
+++ b/streams_buffer.go
@@ -10,8 +10,7 @@ type StreamsBuffer struct {
 }
 
 func (s *StreamsBuffer) findOrCreateStreamBuffer(index int, mediaType utils.AVMediaType) *collections.RBBlockBuffer {
-	exist := index < len(s.buffers)
-	if !exist {
+	for index >= len(s.buffers) {
 		if utils.AVMediaTypeVideo == mediaType {
 			s.buffers = append(s.buffers, collections.NewRBBlockBuffer(1024*1024*2))
 		} else {
-- 
2.43.0


From bd892aedaa74a6dba69bc596a2ba75e94e2c2294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:28 +0000
Subject: [PATCH 07/28] fix: a packet is queued on the list of its own stream
 also when an earlier stream has no packet yet

---
 demuxer.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/demuxer.go b/demuxer.go
index e08f94f..8f2c06f 100644
--- a/demuxer.go
+++ b/demuxer.go
@@ -252,15 +252,11 @@ func (s *BaseDemuxer) OnVideoPacket(bufferIndex int, id utils.AVCodecID, data []
 // 回调AVPacket, 如果没有完成探测, 则保存到Packets中, 否则回调处理
 // 保证回调的顺序是OnNewTrack...->OnTrackComplete->OnPacket...
 func (s *BaseDemuxer) processBufferedPacket(packet *AVPacket) {
-	var packets *collections.LinkedList[*AVPacket]
-	exist := packet.Index < len(s.Packets)
-	if exist {
-		packets = s.Packets[packet.Index]
-	} else {
+	for packet.Index >= len(s.Packets) {
 		s.Packets = append(s.Packets, &collections.LinkedList[*AVPacket]{})
-		packets = s.Packets[len(s.Packets)-1]
 	}
 
+	packets := s.Packets[packet.Index]
 	packets.Add(packet)
 
 	prevPacketIndex := packets.Size() - 2
-- 
2.43.0


From 51d179250e1a03f06f23d20ba18e2449a08f21ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:29 +0000
Subject: [PATCH 08/28] fix: packets buffered during probing keep their arrival
 order when their DTS are equal

---
 demuxer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demuxer.go b/demuxer.go
index 8f2c06f..6bad290 100644
--- a/demuxer.go
+++ b/demuxer.go
@@ -462,7 +462,7 @@ func (s *BaseDemuxer) OnProbeComplete() {
 	}
 
 	// dts升序排序
-	sort.Slice(result, func(i, j int) bool {
+	sort.SliceStable(result, func(i, j int) bool {
 		return result[i].Dts < result[j].Dts
 	})
 
-- 
2.43.0


From 48363526e9280a0cc894f9df801ed2dab27b9ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:29 +0000
Subject: [PATCH 09/28] fix: SplitNalU and RemoveStartCode do not panic on data
 shorter than a start code

---
 avc/util.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/avc/util.go b/avc/util.go
index c7898f1..1d79c00 100644
--- a/avc/util.go
+++ b/avc/util.go
@@ -299,6 +299,11 @@ func M4VCExtraDataToAnnexB(src []byte) ([]byte, error) {
 }
 
 func SplitNalU(data []byte, cb func(nalu []byte)) {
+	if len(data) < 3 {
+		cb(data)
+		return
+	}
+
 	var offset int
 	// +3查找第二个nalu
 	for n := FindStartCode2(data[offset+3:]); n > -1; n = FindStartCode2(data[offset+3:]) {
@@ -312,11 +317,11 @@ func SplitNalU(data []byte, cb func(nalu []byte)) {
 }
 
 func RemoveStartCode(data []byte) []byte {
-	if data[0] != 0 || data[1] != 0 {
+	if len(data) < 3 || data[0] != 0 || data[1] != 0 {
 		return data
 	} else if data[2] == 0x1 {
 		return data[3:]
-	} else if data[2] == 0x0 && data[3] == 0x1 {
+	} else if len(data) > 3 && data[2] == 0x0 && data[3] == 0x1 {
 		return data[4:]
 	}
 
-- 
2.43.0


From f16331bc7f65a574639f91cae6947bfaa41f2fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:29 +0000
Subject: [PATCH 10/28] fix: AnnexB2AVCC keeps leading zero bytes of a NAL unit
 and skips empty units

---
 avc/util.go | 23 +++++++----------------
 1 file changed, 7 insertions(+), 16 deletions(-)

diff --git a/avc/util.go b/avc/util.go
index 1d79c00..76aa797 100644
--- a/avc/util.go
+++ b/avc/util.go
@@ -190,14 +190,6 @@ func AnnexB2AVCC(dst []byte, annexB []byte) int {
 	}
 
 	for nalStart < length {
-		// 跳过开头空包(连续0000000100000001)
-		for nalStart < length && annexB[nalStart] == 0 {
-			nalStart++
-		}
-		if nalStart >= length {
-			break
-		}
-
 		nalEnd, n := FindStartCode(annexB[nalStart:])
 		// 最后一个nalu
 		if nalEnd < 0 {
@@ -206,16 +198,15 @@ func AnnexB2AVCC(dst []byte, annexB []byte) int {
 		}
 
 		nalSize := nalEnd - n
-		// 空包, 保存前一个nalu(1个字节header)
-		if nalSize == 0 {
-			nalSize++
-		}
+		// 跳过空包(连续0000000100000001)
+		if nalSize > 0 {
+			binary.BigEndian.PutUint32(dst[size:], uint32(nalSize))
+			size += 4
 
-		binary.BigEndian.PutUint32(dst[size:], uint32(nalSize))
-		size += 4
+			copy(dst[size:], annexB[nalStart:nalStart+nalSize])
+			size += nalSize
+		}
 
-		copy(dst[size:], annexB[nalStart:nalStart+nalSize])
-		size += nalSize
 		nalStart += nalEnd
 	}
 
-- 
2.43.0


From ff6c652d4e5c79c8428f9d9148e1fa40f291c046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:30 +0000
Subject: [PATCH 11/28] fix: H.264 conversion inserts the parameter sets once,
 not before every slice of an IDR picture

---
 avc/util.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/avc/util.go b/avc/util.go
index 76aa797..539fde4 100644
--- a/avc/util.go
+++ b/avc/util.go
@@ -165,6 +165,7 @@ func AVCC2AnnexB(dst []byte, avcc []byte, extra []byte) int {
 		case H264NalIDRSlice:
 			if !spsSeen && !ppsSeen && len(extra) > 0 {
 				outSize += copyNalUWithBytes(dst[outSize:], extra, outSize, false)
+				spsSeen, ppsSeen = true, true
 			}
 			break
 		case H264NalSEI:
@@ -233,6 +234,7 @@ func Mp4ToAnnexB(writer bufio.BytesWriter, data, extra []byte) {
 		case H264NalIDRSlice:
 			if !spsSeen && !ppsSeen {
 				outSize += copyNalU(writer, extra, outSize, false)
+				spsSeen, ppsSeen = true, true
 			}
 			break
 		}
-- 
2.43.0


From 9456d6f7e19c8fed1a4d6245491da52dce87609a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:16 +0000
Subject: [PATCH 12/28] fix: AnnexBPacket2AVCC allocates enough room for
 packets with many short-start-code NAL units

---
 packet_utils.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packet_utils.go b/packet_utils.go
index 310a976..af49e89 100644
--- a/packet_utils.go
+++ b/packet_utils.go
@@ -81,7 +81,8 @@ func AnnexBPacket2AVCC(pkt *AVPacket) []byte {
 		return pkt.Data
 	} else if pkt.dataAVCC == nil {
 		var bytes []byte
-		dstSize := len(pkt.Data) + 256
+		// 每个nalu最多增加1个字节(3字节的start code替换为4字节的长度)
+		dstSize := len(pkt.Data) + len(pkt.Data)/4 + 256
 		if pkt.OnBufferAlloc != nil {
 			bytes = pkt.OnBufferAlloc(dstSize)
 		} else {
-- 
2.43.0


From 9e0c792117e59a98501f28dc3171cff15a643bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:16 +0000
Subject: [PATCH 13/28] fix: AVCCPacket2AnnexB does not panic on an empty
 packet or empty parameter sets

---
 packet_utils.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packet_utils.go b/packet_utils.go
index af49e89..dcb32e5 100644
--- a/packet_utils.go
+++ b/packet_utils.go
@@ -18,7 +18,8 @@ func AVCCPacket2AnnexB(stream *AVStream, pkt *AVPacket) []byte {
 		// 确保annexb的关键帧开头是vps/sps/pps
 		if pkt.Key && (stream.CodecID == utils.AVCodecIdH264 || stream.CodecID == utils.AVCodecIdH265) && stream.CodecParameters != nil && pkt.dataAnnexB == nil {
 			extraData := stream.CodecParameters.AnnexBExtraData()
-			if avc.RemoveStartCode(extraData)[0] != avc.RemoveStartCode(pkt.Data)[0] {
+			extraNalU, nalU := avc.RemoveStartCode(extraData), avc.RemoveStartCode(pkt.Data)
+			if len(extraNalU) > 0 && (len(nalU) == 0 || extraNalU[0] != nalU[0]) {
 				size := len(extraData) + len(pkt.Data)
 				var data []byte
 				if pkt.OnBufferAlloc != nil {
-- 
2.43.0


From cd9397c252dcbdbdfc04eecdc2d933b37d9ea8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:16 +0000
Subject: [PATCH 14/28] fix: AVCCPacket2AnnexB handles streams without codec
 parameters, malformed H.265 and short length fields without panicking

---
 packet_utils.go | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/packet_utils.go b/packet_utils.go
index dcb32e5..14fbabc 100644
--- a/packet_utils.go
+++ b/packet_utils.go
@@ -43,12 +43,23 @@ func AVCCPacket2AnnexB(stream *AVStream, pkt *AVPacket) []byte {
 		var n int
 		var bytes []byte
 
-		var extraDataSize int
+		var extraData []byte
 		if pkt.Key && stream.CodecParameters != nil {
-			extraDataSize = len(stream.CodecParameters.AnnexBExtraData())
+			extraData = stream.CodecParameters.AnnexBExtraData()
 		}
 
+		lengthSize := 4
+		if config, ok := stream.CodecParameters.(*HEVCCodecData); ok && config.Record.LengthSizeMinusOne > 0 {
+			lengthSize = int(config.Record.LengthSizeMinusOne)
+		}
+
+		extraDataSize := len(extraData)
 		dstSize := extraDataSize + len(pkt.Data) + 256
+		if lengthSize < 4 {
+			// nalu长度替换为4字节的start code, nalu至少2个字节
+			dstSize += len(pkt.Data) / (lengthSize + 2) * (4 - lengthSize)
+		}
+
 		if pkt.OnBufferAlloc != nil {
 			bytes = pkt.OnBufferAlloc(dstSize)
 		} else {
@@ -60,14 +71,14 @@ func AVCCPacket2AnnexB(stream *AVStream, pkt *AVPacket) []byte {
 		} else if utils.AVCodecIdH265 == pkt.CodecID {
 			var err error
 
-			lengthSize := stream.CodecParameters.(*HEVCCodecData).Record.LengthSizeMinusOne
-			n, err = hevc.Mp4ToAnnexB(bytes[extraDataSize:], pkt.Data, nil, int(lengthSize))
+			n, err = hevc.Mp4ToAnnexB(bytes[extraDataSize:], pkt.Data, nil, lengthSize)
 			if err != nil {
-				panic(err)
+				println(err.Error())
+				return nil
 			}
 		}
 
-		copy(bytes[:extraDataSize], stream.CodecParameters.AnnexBExtraData())
+		copy(bytes, extraData)
 		n += extraDataSize
 		pkt.dataAnnexB = bytes[:n]
 	}
-- 
2.43.0


From d153a748e894dc01c2560013d7407ba19b9766f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:17 +0000
Subject: [PATCH 15/28] fix: AVC record marshalling rejects units and counts
 the record cannot hold and is not limited to 1024 bytes

---
 avc/mp4.go | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/avc/mp4.go b/avc/mp4.go
index e99b2bc..3f4dbd2 100644
--- a/avc/mp4.go
+++ b/avc/mp4.go
@@ -47,7 +47,22 @@ func (a *AVCDecoderConfigurationRecord) Marshal(spsList, ppsList [][]byte) ([]by
 		return nil, fmt.Errorf("pps cannot be null")
 	}
 
-	bytes := make([]byte, 1024)
+	if len(spsList) > 0x1F {
+		return nil, fmt.Errorf("too many sps: %d", len(spsList))
+	}
+	if len(ppsList) > 0xFF {
+		return nil, fmt.Errorf("too many pps: %d", len(ppsList))
+	}
+
+	size := 7
+	for _, sps := range spsList {
+		size += 2 + len(sps)
+	}
+	for _, pps := range ppsList {
+		size += 2 + len(pps)
+	}
+
+	bytes := make([]byte, size)
 	writer := bufio.NewBytesWriter(bytes)
 	if err := writer.Seek(5); err != nil {
 		return nil, err
@@ -60,6 +75,10 @@ func (a *AVCDecoderConfigurationRecord) Marshal(spsList, ppsList [][]byte) ([]by
 	var noStartCodeSps []byte
 	for _, sps := range spsList {
 		noStartCodeSps = RemoveStartCode(sps)
+		if len(noStartCodeSps) < 4 || len(noStartCodeSps) > 0xFFFF {
+			return nil, fmt.Errorf("invalid sps size: %d", len(noStartCodeSps))
+		}
+
 		if err := writer.WriteUint16(uint16(len(noStartCodeSps))); err != nil {
 			return nil, err
 		}
@@ -75,6 +94,10 @@ func (a *AVCDecoderConfigurationRecord) Marshal(spsList, ppsList [][]byte) ([]by
 
 	for _, pps := range ppsList {
 		noStartCodePps := RemoveStartCode(pps)
+		if len(noStartCodePps) > 0xFFFF {
+			return nil, fmt.Errorf("invalid pps size: %d", len(noStartCodePps))
+		}
+
 		if err := writer.WriteUint16(uint16(len(noStartCodePps))); err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 13f265e67fa9f7e865e9ec65cdfc9c46af0f5254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:17 +0000
Subject: [PATCH 16/28] fix: ExtraDataToAnnexB is not limited to 1024 bytes

---
 avc/mp4.go  | 3 ++-
 hevc/mp4.go | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/avc/mp4.go b/avc/mp4.go
index 3f4dbd2..6720498 100644
--- a/avc/mp4.go
+++ b/avc/mp4.go
@@ -199,7 +199,8 @@ func ExtraDataToAnnexB(data []byte) ([]byte, error) {
 		return nil, err
 	}
 
-	bytes := make([]byte, 1024)
+	// start code比长度字段多2个字节
+	bytes := make([]byte, len(data)*2)
 	writer := bufio.NewBytesWriter(bytes)
 
 	for _, sps := range record.SPSList {
diff --git a/hevc/mp4.go b/hevc/mp4.go
index aabdb5a..5f25649 100644
--- a/hevc/mp4.go
+++ b/hevc/mp4.go
@@ -214,7 +214,8 @@ func ExtraDataToAnnexB(data []byte) ([]byte, error) {
 		return nil, err
 	}
 
-	bytes := make([]byte, 1024)
+	// start code比长度字段多2个字节
+	bytes := make([]byte, len(data)*2)
 	writer := bufio.NewBytesWriter(bytes)
 
 	for _, sps := range record.VPSList {
-- 
2.43.0


From b32776fa81603a39bbf6c7d7c0fb9e276cd3a495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:17 +0000
Subject: [PATCH 17/28] fix: M4VCExtraDataToAnnexB converts records with
 several SPS completely and reports truncation instead of panicking

---
 avc/util.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/avc/util.go b/avc/util.go
index 539fde4..1e9fd93 100644
--- a/avc/util.go
+++ b/avc/util.go
@@ -263,27 +263,31 @@ func M4VCExtraDataToAnnexB(src []byte) ([]byte, error) {
 
 	readUint8 &= 0x3 + 1
 	unitNb, err := reader.ReadUint8()
+	if err != nil {
+		return nil, err
+	}
 	unitNb &= 0x1f
 
-	spsDone := 0
-	writer := bufio.NewBytesWriter(make([]byte, len(src)+256))
+	spsDone := false
+	writer := bufio.NewBytesWriter(make([]byte, len(src)*2))
 	for unitNb != 0 {
 		unitNb--
 
 		var size uint16
+		var unit []byte
 		size, err = reader.ReadUint16()
 		if err != nil {
 			return nil, err
-		} else if err = writer.Write(StartCode4); err != nil {
+		} else if unit, err = reader.ReadBytes(int(size)); err != nil {
 			return nil, err
-		} else if err = writer.Write(src[reader.Offset() : reader.Offset()+int(size)]); err != nil {
+		} else if err = writer.Write(StartCode4); err != nil {
 			return nil, err
-		} else if err = reader.Seek(int(size)); err != nil {
+		} else if err = writer.Write(unit); err != nil {
 			return nil, err
 		}
 
-		spsDone++
-		if reader.ReadableBytes() > 2 && unitNb == 0 && spsDone == 1 {
+		if reader.ReadableBytes() > 2 && unitNb == 0 && !spsDone {
+			spsDone = true
 			unitNb, _ = reader.ReadUint8()
 		}
 	}
-- 
2.43.0


From 28000b40ebc5aa65b4ace7ac937db33982b850ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:18 +0000
Subject: [PATCH 18/28] fix: HEVC record keeps every SPS and no PPS in the SPS
 list

---
 hevc/mp4.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hevc/mp4.go b/hevc/mp4.go
index 5f25649..d609778 100644
--- a/hevc/mp4.go
+++ b/hevc/mp4.go
@@ -189,7 +189,7 @@ func (r *HEVCDecoderConfigurationRecord) Unmarshal(data []byte) error {
 			if HevcNalVPS == HEVCNALUnitType(headerType) {
 				r.VPSList = append(r.VPSList, nalu)
 			} else if HevcNalSPS == HEVCNALUnitType(headerType) {
-				r.SPSList = append(r.PPSList, nalu)
+				r.SPSList = append(r.SPSList, nalu)
 			} else if HevcNalPPS == HEVCNALUnitType(headerType) {
 				r.PPSList = append(r.PPSList, nalu)
 			}
-- 
2.43.0


From 8ae580b4780beb759e10f1ef472dad5b07ac6500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:18 +0000
Subject: [PATCH 19/28] fix: HEVC record marshalling rejects units and counts
 the record cannot hold and is not limited to 1024 bytes

---
 hevc/mp4.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/hevc/mp4.go b/hevc/mp4.go
index d609778..2dbf624 100644
--- a/hevc/mp4.go
+++ b/hevc/mp4.go
@@ -83,7 +83,15 @@ func (r *HEVCDecoderConfigurationRecord) Marshal(vpsList, spsList, ppsList [][]b
 		return nil, fmt.Errorf("vps cannot be null")
 	}
 
-	bytes := make([]byte, 1024)
+	size := 23
+	for _, list := range [][][]byte{vpsList, spsList, ppsList} {
+		size += 3
+		for _, nalu := range list {
+			size += 2 + len(nalu)
+		}
+	}
+
+	bytes := make([]byte, size)
 	bytes[0] = 1
 	bytes[21] = 3
 	bytes[22] = 3
@@ -93,7 +101,15 @@ func (r *HEVCDecoderConfigurationRecord) Marshal(vpsList, spsList, ppsList [][]b
 	}
 
 	write := func(data [][]byte) error {
+		if len(data) > 0xFFFF {
+			return fmt.Errorf("too many nalus: %d", len(data))
+		}
+
 		noStartCodeData := avc.RemoveStartCode(data[0])
+		if len(noStartCodeData) == 0 {
+			return fmt.Errorf("nalu cannot be empty")
+		}
+
 		if err := writer.WriteUint8((noStartCodeData[0] >> 1) & 0x3F); err != nil {
 			return err
 		}
@@ -104,6 +120,10 @@ func (r *HEVCDecoderConfigurationRecord) Marshal(vpsList, spsList, ppsList [][]b
 
 		for _, i2 := range data {
 			noStartCodeData = avc.RemoveStartCode(i2)
+			if len(noStartCodeData) > 0xFFFF {
+				return fmt.Errorf("invalid nalu size: %d", len(noStartCodeData))
+			}
+
 			if err := writer.WriteUint16(uint16(len(noStartCodeData))); err != nil {
 				return err
 			}
-- 
2.43.0


From 5064c79c2c6daba8b446cb54057a44156769e8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:57 +0000
Subject: [PATCH 20/28] fix: H.264 SPS parsing removes emulation prevention
 bytes

---
 avc/sps.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/avc/sps.go b/avc/sps.go
index 3249ab1..aeb4ab8 100644
--- a/avc/sps.go
+++ b/avc/sps.go
@@ -28,6 +28,8 @@ type SPS struct {
 
 func ParseSPS(data []byte) (s SPS, err error) {
 	data = RemoveStartCode(data)
+	// 移除防竞争字节
+	data = bytes.Replace(data, []byte{0x0, 0x0, 0x3}, []byte{0x0, 0x0}, -1)
 	r := &bufio.GolombBitReader{R: bytes.NewReader(data)}
 
 	if _, err = r.ReadBits(8); err != nil {
-- 
2.43.0


From 7086ee29c38b8dadac9d696354f404d73c8296c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:58 +0000
Subject: [PATCH 21/28] fix: H.264 SPS parsing reads all 12 scaling lists of
 4:4:4 and the syntax of every high profile

---
 avc/sps.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/avc/sps.go b/avc/sps.go
index aeb4ab8..9bfa3d5 100644
--- a/avc/sps.go
+++ b/avc/sps.go
@@ -59,7 +59,10 @@ func ParseSPS(data []byte) (s SPS, err error) {
 	if s.ProfileIdc == 100 || s.ProfileIdc == 110 ||
 		s.ProfileIdc == 122 || s.ProfileIdc == 244 ||
 		s.ProfileIdc == 44 || s.ProfileIdc == 83 ||
-		s.ProfileIdc == 86 || s.ProfileIdc == 118 {
+		s.ProfileIdc == 86 || s.ProfileIdc == 118 ||
+		s.ProfileIdc == 128 || s.ProfileIdc == 138 ||
+		s.ProfileIdc == 139 || s.ProfileIdc == 134 ||
+		s.ProfileIdc == 135 {
 
 		var chroma_format_idc uint
 		if chroma_format_idc, err = r.ReadExponentialGolombCode(); err != nil {
@@ -92,7 +95,11 @@ func ParseSPS(data []byte) (s SPS, err error) {
 		}
 
 		if seq_scaling_matrix_present_flag != 0 {
-			for i := 0; i < 8; i++ {
+			scaling_list_count := 8
+			if chroma_format_idc == 3 {
+				scaling_list_count = 12
+			}
+			for i := 0; i < scaling_list_count; i++ {
 				var seq_scaling_list_present_flag uint
 				if seq_scaling_list_present_flag, err = r.ReadBit(); err != nil {
 					return
-- 
2.43.0


From daca2983b7a30f71a374691dda4a162b0644555c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:58 +0000
Subject: [PATCH 22/28] fix: H.264 frame cropping is applied in the units of
 the chroma format and field coding

---
 avc/sps.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/avc/sps.go b/avc/sps.go
index 9bfa3d5..ef1deb3 100644
--- a/avc/sps.go
+++ b/avc/sps.go
@@ -56,6 +56,9 @@ func ParseSPS(data []byte) (s SPS, err error) {
 		return
 	}
 
+	// 没有chroma_format_idc时默认为4:2:0
+	cropUnitX, cropUnitY := uint(2), uint(2)
+
 	if s.ProfileIdc == 100 || s.ProfileIdc == 110 ||
 		s.ProfileIdc == 122 || s.ProfileIdc == 244 ||
 		s.ProfileIdc == 44 || s.ProfileIdc == 83 ||
@@ -69,6 +72,13 @@ func ParseSPS(data []byte) (s SPS, err error) {
 			return
 		}
 
+		switch chroma_format_idc {
+		case 0, 3:
+			cropUnitX, cropUnitY = 1, 1
+		case 2:
+			cropUnitY = 1
+		}
+
 		if chroma_format_idc == 3 {
 			// residual_colour_transform_flag
 			if _, err = r.ReadBit(); err != nil {
@@ -223,8 +233,9 @@ func ParseSPS(data []byte) (s SPS, err error) {
 		}
 	}
 
-	s.Width = int((s.MbWidth * 16) - s.CropLeft*2 - s.CropRight*2)
-	s.Height = int(((2 - frame_mbs_only_flag) * s.MbHeight * 16) - s.CropTop*2 - s.CropBottom*2)
+	cropUnitY *= 2 - frame_mbs_only_flag
+	s.Width = int((s.MbWidth * 16) - s.CropLeft*cropUnitX - s.CropRight*cropUnitX)
+	s.Height = int(((2 - frame_mbs_only_flag) * s.MbHeight * 16) - s.CropTop*cropUnitY - s.CropBottom*cropUnitY)
 
 	vui_parameter_present_flag, err := r.ReadBit()
 	if err != nil {
-- 
2.43.0


From bbc49082a6a6b20481c85c14e96c50088c70b53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:59 +0000
Subject: [PATCH 23/28] fix: H.265 width and height are cropped by the
 conformance window

---
 hevc/sps.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/hevc/sps.go b/hevc/sps.go
index c25c1b1..99c9760 100644
--- a/hevc/sps.go
+++ b/hevc/sps.go
@@ -82,18 +82,29 @@ func ParseSPS(sps []byte) (ctx HEVCSPSInfo, err error) {
 		return
 	}
 	if conformanceWindowFlag != 0 {
-		if _, err = br.ReadExponentialGolombCode(); err != nil {
+		var left, right, top, bottom uint
+		if left, err = br.ReadExponentialGolombCode(); err != nil {
 			return
 		}
-		if _, err = br.ReadExponentialGolombCode(); err != nil {
+		if right, err = br.ReadExponentialGolombCode(); err != nil {
 			return
 		}
-		if _, err = br.ReadExponentialGolombCode(); err != nil {
+		if top, err = br.ReadExponentialGolombCode(); err != nil {
 			return
 		}
-		if _, err = br.ReadExponentialGolombCode(); err != nil {
+		if bottom, err = br.ReadExponentialGolombCode(); err != nil {
 			return
 		}
+
+		subWidth, subHeight := uint(1), uint(1)
+		if ctx.chromaFormat == 1 || ctx.chromaFormat == 2 {
+			subWidth = 2
+		}
+		if ctx.chromaFormat == 1 {
+			subHeight = 2
+		}
+		ctx.Width = int(ctx.PicWidthInLumaSamples - subWidth*(left+right))
+		ctx.Height = int(ctx.PicHeightInLumaSamples - subHeight*(top+bottom))
 	}
 
 	var bdlm8 uint
-- 
2.43.0


From 984d225cfa5d68ca596699c57c00bbc8eed78000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:59 +0000
Subject: [PATCH 24/28] fix: extracting parameter sets skips empty NAL units
 instead of panicking

---
 avc/util.go  | 4 ++++
 hevc/util.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/avc/util.go b/avc/util.go
index 1e9fd93..6bc9ea7 100644
--- a/avc/util.go
+++ b/avc/util.go
@@ -332,6 +332,10 @@ func ParseExtraDataFromKeyNALU(data []byte) ([]byte, []byte, error) {
 
 	SplitNalU(data, func(nalu []byte) {
 		noStartCodeNALU := RemoveStartCode(nalu)
+		if len(noStartCodeNALU) == 0 {
+			return
+		}
+
 		header := noStartCodeNALU[0] & 0x1F
 
 		if byte(H264NalSPS) == header {
diff --git a/hevc/util.go b/hevc/util.go
index 8df5415..1297590 100644
--- a/hevc/util.go
+++ b/hevc/util.go
@@ -94,6 +94,10 @@ func ParseExtraDataFromKeyNALU(data []byte) ([]byte, []byte, []byte, error) {
 
 	avc.SplitNalU(data, func(nalu []byte) {
 		noStartCodeNALU := avc.RemoveStartCode(nalu)
+		if len(noStartCodeNALU) == 0 {
+			return
+		}
+
 		header := HEVCNALUnitType(noStartCodeNALU[0] >> 1 & 0x3F)
 
 		if header == HevcNalVPS {
-- 
2.43.0


From e012aff968c685e6daa754ff905b11f7883cb646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:59 +0000
Subject: [PATCH 25/28] fix: GetSampleRateIndex maps a sampling rate to its
 index

---
 utils/aac_util.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/utils/aac_util.go b/utils/aac_util.go
index 3b5b258..d26e438 100644
--- a/utils/aac_util.go
+++ b/utils/aac_util.go
@@ -181,7 +181,13 @@ func GetSampleRateFromFrequency(index int) (int, bool) {
 }
 
 func GetSampleRateIndex(rate int) int {
-	return audioSamplingRates[rate]
+	for index := 0; index < 13; index++ {
+		if audioSamplingRates[index] == rate {
+			return index
+		}
+	}
+
+	return -1
 }
 
 func SetADtsHeader(header []byte, mpegId, aot, index, channelConfig, size int) {
-- 
2.43.0


From 90b4e3c0b6bb8bc59a27f300181a2acfc6cfe4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:00 +0000
Subject: [PATCH 26/28] fix: ADTS header and audio config parsing report short
 data instead of panicking

---
 utils/aac_util.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/utils/aac_util.go b/utils/aac_util.go
index d26e438..b9f2b75 100644
--- a/utils/aac_util.go
+++ b/utils/aac_util.go
@@ -223,6 +223,10 @@ func SetADtsHeader(header []byte, mpegId, aot, index, channelConfig, size int) {
 }
 
 func ReadADtsFixedHeader(data []byte) (ADtsHeader, error) {
+	if len(data) < 7 {
+		return 0, fmt.Errorf("need more data")
+	}
+
 	if 0xFFF != binary.BigEndian.Uint16(data)>>4 {
 		return 0, fmt.Errorf("not find syncword")
 	}
@@ -252,6 +256,10 @@ func ADtsHeader2MpegAudioConfigData(header ADtsHeader) ([]byte, error) {
 
 func ParseMpeg4AudioConfig(data []byte) (*MPEG4AudioConfig, error) {
 	//audio specific config
+	if len(data) < 2 {
+		return nil, fmt.Errorf("need more data")
+	}
+
 	config := &MPEG4AudioConfig{}
 	config.ObjectType = int(data[0] >> 3)
 	if AudioObjectType(config.ObjectType) == AotEscape {
-- 
2.43.0


From b025a46d033f62637c13b6067a8b5b799eea4a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:00 +0000
Subject: [PATCH 27/28] fix: ADTS channel configuration 7 is reported as 8
 channels

---
 video_stream.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/video_stream.go b/video_stream.go
index 5023ee2..74b960a 100644
--- a/video_stream.go
+++ b/video_stream.go
@@ -86,12 +86,15 @@ func ExtractAudioExtraData(codec utils.AVCodecID, data []byte) ([]byte, int, Aud
 			return nil, -1, AudioConfig{}, err
 		}
 
-		rate, _ := utils.GetSampleRateFromFrequency(header.Frequency())
+		config, err := utils.ParseMpeg4AudioConfig(extraData)
+		if err != nil {
+			return nil, -1, AudioConfig{}, err
+		}
 
 		return extraData, skip, AudioConfig{
-			SampleRate:    rate,
+			SampleRate:    config.SampleRate,
 			SampleSize:    16,
-			Channels:      header.Channel(),
+			Channels:      config.Channels,
 			HasADTSHeader: true,
 		}, nil
 	} else if utils.AVCodecIdPCMALAW == codec || utils.AVCodecIdPCMMULAW == codec {
-- 
2.43.0


From a6a5eadc94deb12079cfe0a1e89019aa2d1dbf20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:00 +0000
Subject: [PATCH 28/28] fix: ConvertTs rescales with exact integer arithmetic

---
 packet_utils.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/packet_utils.go b/packet_utils.go
index 14fbabc..22edecb 100644
--- a/packet_utils.go
+++ b/packet_utils.go
@@ -7,8 +7,12 @@ import (
 )
 
 func ConvertTs(ts int64, srcTimeBase, dstTimeBase int) int64 {
-	interval := float64(dstTimeBase) / float64(srcTimeBase)
-	return int64(float64(ts) * interval)
+	src, dst := int64(srcTimeBase), int64(dstTimeBase)
+	if src == 0 {
+		return 0
+	}
+
+	return ts/src*dst + ts%src*dst/src
 }
 
 func AVCCPacket2AnnexB(stream *AVStream, pkt *AVPacket) []byte {
-- 
2.43.0

