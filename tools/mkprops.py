#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (one place to edit the property texts).
import json,os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                   state=[dict(name=n,meaning=m,where=w) for n,m,w in (state or [])],
                   observe_at=observe or [],hook_needed=None)))

p("C01","Byte reader: exact, bounded, fails atomically",
"For any buffer and any sequence of calls, each sized read of a byte reader returns exactly the big-endian value (or the sub-slice) at its cursor and advances the cursor by exactly that many bytes. If the requested size does not fit in what remains (or is negative or overflows) it returns an error and the cursor stays where it was; it never panics, and the cursor never leaves the buffer. Seek, SeekBack, Reset, Clear, Offset, RemainingBytes and ReadableBytes all describe that same cursor.",
["inputs","histories"],"all buffers, all sequences of reader operations with arbitrary int sizes",
"No test drives the byte reader directly; the record tests only take the success path on one input each.",
["bufio/bytes_buffer.go","bufio/bytes_reader.go","bufio/util.go"],
[("peekN bounds/overflow check before every access","bufio/bytes_buffer.go"),("Read* methods read behind the advanced cursor","bufio/bytes_reader.go")],
[("offset","read position, 0<=offset<=length","bufio/bytes_buffer.go"),("length","len(data)","bufio/bytes_buffer.go")],["BytesReader methods"])

p("C02","Byte writer: exact bytes, nothing else, fails atomically",
"Each write of a byte writer stores exactly the big-endian encoding (or the given bytes) at its cursor, advances the cursor by that many bytes and changes no other byte of the buffer. A write that does not fit returns an error and changes neither buffer nor cursor; it never panics, and WrittenBytes is always exactly the prefix up to the cursor.",
["inputs","histories"],"all buffers, all sequences of writer operations, all data",
"No test drives the byte writer directly; frame (nothing else changed) and failure atomicity are never observed.",
["bufio/bytes_wirter.go","bufio/bytes_buffer.go"],
[("peekN check before every store","bufio/bytes_buffer.go"),("Write* methods","bufio/bytes_wirter.go")],
[("offset","write position","bufio/bytes_buffer.go")],["BytesWriter methods","the caller's buffer"])

p("C03","Bit fields: write changes only its bits, read returns them",
"Writing an n-bit field (0<=n<=64) at any bit offset stores the low n bits of the value most significant bit first and changes no other bit of the buffer; reading n bits at any offset returns exactly those bits as an unsigned number, so a read after a write returns the written value. Bits past the end of the buffer are never written or invented, reader and writer cursors advance by exactly the requested length, and the 24-bit big-endian put/get helpers are mutually inverse.",
["inputs"],"all buffers, offsets >= 0, widths 0..64 and values",
"The only test reads one 8-bit field of one buffer and asserts nothing; writing is untested.",
["bufio/bits_reader.go","bufio/bits_writer.go","bufio/util.go"],
[("ReadBits/WriteBits bit loops","bufio/bits_reader.go, bufio/bits_writer.go"),("PutUint24/Uint24","bufio/util.go")],[],["ReadBits","WriteBits","BitsReader","BitsWriter"])

p("C04","Exp-Golomb bit reader decodes exactly per H.264/H.265",
"Over any in-memory bit string the Golomb reader returns successive bits most significant first, fixed-width fields up to 64 bits as unsigned numbers, ue(v) codes with up to 32 leading zeros as 2^k-1+suffix, and se(v) codes as the signed value (-1)^(c+1)*ceil(c/2) of code number c. It consumes exactly the bits of what it returns, reports an error instead of inventing bits when the data ends, and never panics.",
["inputs","histories"],"all bit strings, all positions, all widths 0..64",
"Exercised only indirectly through two SPS byte strings; no long code, signed code, or truncated field is ever read.",
["bufio/golomb_reader.go"],[("ReadBit refill","bufio/golomb_reader.go"),("ReadExponentialGolombCode, ReadSE","bufio/golomb_reader.go")],
[("left","unread bits of the buffered byte","bufio/golomb_reader.go")],["GolombBitReader methods"])

p("C05","Ring buffer: bounded FIFO that drops the oldest",
"For every history of operations a ring buffer of capacity n behaves as a FIFO sequence of at most n elements: push appends and, only when full, first drops the oldest; pop removes and returns the oldest, or the zero value when empty. Head, Tail, Size, IsEmpty, IsFull, Capacity, Clear and Data (its two segments concatenated) all describe exactly that sequence, in order, and no operation panics except Head or Tail on an empty buffer.",
["histories","inputs"],"all capacities >= 1, all operation sequences, every element type",
"TestRingBuffer panics by design and asserts nothing about order; wrap-around states are never compared with a model.",
["collections/ring_buffer.go"],[("head/tail/size arithmetic modulo cap(data)","collections/ring_buffer.go")],
[("head,tail,size","window of live elements in data","collections/ring_buffer.go")],["RingBuffer interface"])

p("C06","Queue: unbounded double-ended sequence, growth keeps order",
"For every history a queue behaves as an unbounded sequence: push appends at the back without ever losing or reordering elements (growing when full, also when its window is wrapped), pop removes the front or returns the zero value when empty, PopBack removes and returns the last. Peek(i) for 0<=i<size returns the i-th oldest element, and Head, Tail, Size and Data describe the same sequence.",
["histories","inputs"],"all initial capacities >= 1, all operation sequences, every element type",
"TestQueue only pushes then pops from the back and prints; growth while wrapped, Peek and mixed pops are never checked.",
["collections/queue.go","collections/ring_buffer.go"],[("Queue.Push growth re-linearises the window","collections/queue.go")],
[("ringBuffer window","elements in order","collections/ring_buffer.go")],["Queue methods"])

p("C07","Linked list is exactly a sequence",
"For every history the linked list behaves as a sequence: Add appends at the end, Get(i) for 0<=i<size returns the i-th element without changing anything, Remove(i) removes and returns exactly the i-th element keeping the order of the rest, and Size is the number of elements. This holds after removals at the front, in the middle and at the end in any order, including removing the last element and adding again.",
["histories","inputs"],"all operation sequences with valid indices, every element type",
"The test adds 100 and removes from index 0 only; removals in the middle and at the end, and adds after removals, are never exercised.",
["collections/linked_list.go"],[("Add/Remove/Get pointer surgery","collections/linked_list.go")],
[("fist,last,size","first node, last node, length","collections/linked_list.go")],["LinkedList methods"])

p("C08","Ring block buffer never overwrites a live block",
"In the ring block buffer the bytes of a fetched block stay intact until that block is released, whatever writes, allocations, fetches, releases from either end, wrap-arounds and growths follow, and freshly allocated memory never overlaps a block that is still live. A fetched block is exactly the concatenation of what was written or allocated since the previous fetch. Releases count oldest first, including blocks left behind in the old memory by one or several growths, so releasing one block never gives up another.",
["histories","inputs"],"all capacities, all sequences of Write/Alloc/Fetch/Pop/PopBack/Clear with arbitrary block sizes",
"No test touches the ring block buffer (the subtest called rb builds the direct buffer), and corruption needs a specific wrap/growth/release history.",
["collections/buffer_rb.go","collections/buffer_direct.go","collections/queue.go"],
[("Alloc placement: wrap, extend, grow","collections/buffer_rb.go"),("discardBlockCount accounting","collections/buffer_rb.go")],
[("blocks","live blocks, oldest first","collections/buffer_direct.go"),("capacity","usable end of memory while wrapped","collections/buffer_rb.go"),("discardBlockCount","released-in-advance blocks in old memory","collections/buffer_rb.go")],["RBBlockBuffer methods","slices returned by Fetch/Alloc"])

p("C09","Direct block buffer: blocks stay intact, split halves are disjoint",
"In the direct block buffer allocated memory never overlaps a live block, growth preserves every byte written so far, and a fetched block is exactly what was written since the previous fetch. SplitOff hands the new buffer exactly the unused tail of the memory, starting empty and disjoint from everything already written, while the original accepts no further writes until it is cleared. Data, AvailableBytes, PendingBlockSize and Size agree with that state.",
["histories","inputs"],"all capacities, all sequences of operations with arbitrary sizes",
"The test writes one-byte blocks and pops them without looking at a single byte; SplitOff is never called.",
["collections/buffer_direct.go","collections/queue.go"],
[("Alloc/grow","collections/buffer_direct.go"),("SplitOff","collections/buffer_direct.go")],
[("nextOffset","end of used memory","collections/buffer_direct.go"),("sealed","no further writes","collections/buffer_direct.go")],["DirectBlockBuffer methods"])

p("C10","Stream pipelines: per-stream isolation, exact packet bytes",
"A data pipeline returns from Fetch exactly the concatenation of the bytes written to that stream since its previous Fetch (of a stream written to before), and its pending size is that length. In the multi-stream pipeline, operations on one stream never change the pending bytes or the live packets of another, for streams first used in any order of their indices; discards release the oldest or newest packet of that stream only.",
["histories","inputs"],"all interleavings of Write/Fetch/Discard on any set of streams",
"No test uses a pipeline.",
["streams_buffer.go","direct_pipeline.go","collections/buffer_rb.go"],
[("findOrCreateStreamBuffer","streams_buffer.go"),("DirectDataPipeline.Write/Fetch","direct_pipeline.go")],
[("buffers","one ring block buffer per stream","streams_buffer.go")],["DataPipeline interface"])

p("C11","Start-code scan is exact and NAL splitting is a partition",
"Scanning for a start code returns the position just after the first 00 00 01 that is followed by at least one byte, with its length (4 if another 00 precedes it, else 3), or -1 when there is none. Splitting calls back with consecutive non-overlapping pieces whose concatenation is the input, cutting at and only at the start codes found after the first three bytes of the current piece. Stripping a start code removes exactly a leading 00 00 01 or 00 00 00 01 and nothing else, and none of these panics on any input, however short.",
["inputs"],"all byte strings",
"The only test needs a sample file that is not in the repository; the skip logic of the scanner has many alignments no sample covers.",
["avc/util.go"],[("FindStartCode skip loop","avc/util.go"),("SplitNalU","avc/util.go"),("RemoveStartCode","avc/util.go")],[],["FindStartCode","FindStartCode2","FindStartCodeWithReader","SplitNalU","RemoveStartCode"])

p("C12","Annex-B to AVCC keeps every NAL unit byte for byte",
"Converting an Annex-B stream to AVCC writes, for each non-empty NAL unit between start codes and in order, its 4-byte big-endian length followed by exactly its bytes - whatever the first byte of the unit is - and returns the total size written; without any start code it returns 0. It writes nothing beyond that size and never changes the input.",
["inputs"],"all Annex-B byte strings with a sufficiently large destination",
"The conversion has no test; unit boundaries, zero header bytes and empty units depend on the exact bytes.",
["avc/util.go"],[("AnnexB2AVCC","avc/util.go"),("FindStartCode","avc/util.go")],[],["AnnexB2AVCC"])

p("C13","AVCC/MP4 to Annex-B keeps every NAL unit byte for byte",
"Converting length-prefixed video to Annex-B writes, in order, a start code and then exactly the bytes of each NAL unit (H.264: 4-byte code first, 3-byte codes after, SEI units dropped by the slice converter; H.265: 4-byte codes and length fields of 1 to 4 bytes), inserts the supplied parameter sets before the first random access unit that needs them, and returns or advances by exactly the bytes written. H.264 conversion stops at the first malformed length, H.265 conversion reports an error; with a sufficient destination none of them panics or reads outside the input.",
["inputs"],"all byte strings, all length sizes, with and without parameter sets",
"No test calls these converters.",
["avc/util.go","hevc/util.go"],[("AVCC2AnnexB, Mp4ToAnnexB, copyNalU","avc/util.go"),("Mp4ToAnnexB","hevc/util.go")],[],["avc.AVCC2AnnexB","avc.Mp4ToAnnexB","hevc.Mp4ToAnnexB"])

p("C14","Packet-level format conversion is complete and side-effect free",
"Converting a video packet to Annex-B or AVCC allocates enough room for every possible packet, returns exactly the converted units, leaves the packet's own data untouched, and returns the same bytes when asked again. In Annex-B form an H.264/H.265 key frame is preceded by the stream's parameter sets (one already in Annex-B form only when its first unit does not start with the same byte as the first parameter set). Otherwise packets already in the requested format, or of other codecs, are returned unchanged; malformed length fields or a stream without codec parameters never cause a panic.",
["inputs","histories"],"all packets, codecs, packing modes and streams",
"No test constructs a packet; the destination size bound fails only for packets with many small units.",
["packet_utils.go","av_packet.go"],[("AVCCPacket2AnnexB, AnnexBPacket2AVCC","packet_utils.go")],
[("dataAVCC,dataAnnexB","cached conversions","av_packet.go")],["AVCCPacket2AnnexB","AnnexBPacket2AVCC","IsKeyFrame"])

p("C15","AVC configuration record round-trips and rejects truncation",
"Marshalling 1..31 SPS and 1..255 PPS and unmarshalling the result gives back the same units, in order, each with a 4-byte start code, with profile, compatibility and level bytes taken from the SPS and 4-byte length fields. Unmarshalling any byte string either fills the record with exactly the units it encodes or returns an error, never panicking or reading outside the input, and the Annex-B form is exactly those units concatenated, SPS before PPS.",
["inputs"],"all byte strings; all SPS/PPS lists in range",
"One test decodes one well-formed record and checks nothing but the absence of an error; marshalling is untested.",
["avc/mp4.go","avc/util.go","bufio/bytes_reader.go"],[("Marshal/Unmarshal/ExtraDataToAnnexB","avc/mp4.go"),("M4VCExtraDataToAnnexB","avc/util.go")],[],["AVCDecoderConfigurationRecord","ExtraDataToAnnexB","M4VCExtraDataToAnnexB"])

p("C16","HEVC configuration record round-trips and rejects truncation",
"Unmarshalling any byte string as an HEVC configuration record either returns an error or yields the header fields at their bit positions (the NAL length size as its number of bytes) and, separately and in order, all VPS, all SPS and all PPS units of its arrays in whatever order the arrays appear, each with a 4-byte start code. Marshalling VPS, SPS and PPS lists and unmarshalling gives the same lists back, and the Annex-B form is their concatenation VPS, SPS, PPS; nothing panics or reads outside the input.",
["inputs"],"all byte strings; all VPS/SPS/PPS lists in range",
"The test decodes one record with a single unit of each kind in the usual order, where list mix-ups are invisible.",
["hevc/mp4.go","bufio/bytes_reader.go"],[("Marshal/Unmarshal/ExtraDataToAnnexB","hevc/mp4.go")],[],["HEVCDecoderConfigurationRecord","ExtraDataToAnnexB"])

p("C17","H.264 SPS parsing yields the coded picture geometry",
"For every H.264 sequence parameter set, with or without a start code, parsing returns the profile, level, id and macroblock dimensions the bitstream syntax assigns and a width and height that apply frame cropping in the units implied by chroma format and field coding, after removing emulation prevention bytes. For truncated or arbitrary bytes it terminates with a result or an error and never panics.",
["inputs"],"all byte strings",
"One baseline-profile SPS is parsed and its size printed, not checked.",
["avc/sps.go","bufio/golomb_reader.go"],[("ParseSPS","avc/sps.go")],[],["avc.ParseSPS","SPS.Width/Height"])

p("C18","H.265 SPS parsing yields the coded picture geometry",
"For every H.265 sequence parameter set, with or without a start code, parsing (after removing emulation prevention bytes, skipping the profile/tier/level of all sub-layers) returns the coded luma size and a width and height cropped by the conformance window in chroma units. For truncated or arbitrary bytes it terminates with a result or an error and never panics.",
["inputs"],"all byte strings",
"One SPS without conformance window or sub-layers is parsed and its size printed, not checked.",
["hevc/sps.go","bufio/golomb_reader.go"],[("ParseSPS, parsePTL, nal2rbsp","hevc/sps.go")],[],["hevc.ParseSPS","HEVCSPSInfo.Width/Height"])

p("C19","Key-frame detection follows the first picture NAL unit",
"An Annex-B access unit is reported as a key frame exactly when, walking its NAL units in order, the first one that is not a parameter set, SEI or access unit delimiter is an IDR slice (H.264, type 5) or an IRAP picture (H.265, types 16..23); data without such a unit, or without any start code, is not a key frame. Detection terminates and never panics on any bytes, and other codecs are never key frames.",
["inputs"],"all byte strings, all codec ids",
"The only use in a test needs a sample file that is not in the repository.",
["avc/util.go","hevc/util.go","packet_utils.go"],[("IsKeyFrame loops","avc/util.go, hevc/util.go")],[],["IsKeyFrame"])

p("C20","Parameter sets extracted from a key frame are exact",
"Extracting parameter sets from an Annex-B key frame returns, for each kind (SPS and PPS; VPS, SPS and PPS for H.265), the bytes of the last NAL unit of that kind preceded by a 4-byte start code, and an error exactly when a kind is missing. It never panics on any bytes, the results are copies that do not alias the frame, and the combined extra data is their concatenation in that order.",
["inputs"],"all byte strings",
"No test calls the extraction functions.",
["avc/util.go","hevc/util.go","video_stream.go"],[("ParseExtraDataFromKeyNALU","avc/util.go, hevc/util.go"),("ExtractVideoExtraDataFromKeyFrame","video_stream.go")],[],["ParseExtraDataFromKeyNALU","ExtractVideoExtraDataFromKeyFrame"])

p("C21","ADTS and AudioSpecificConfig fields round-trip",
"An ADTS header written for in-range MPEG id, profile, sampling index, channel configuration and frame length (0..8191) parses back to the same fields with sync word FFF, layer 0, no CRC and buffer fullness 7FF; every accessor returns its ISO/IEC 13818-7 bit field of any parsed header. The two-byte audio config derived from a header decodes to object type profile+1 and the same sampling index and channels, sampling rates and indices map to each other both ways, and data too short or without the sync word yields an error, never a panic.",
["inputs"],"all byte strings; all field values in range",
"There is no audio test at all.",
["utils/aac_util.go","video_stream.go"],[("SetADtsHeader, ReadADtsFixedHeader and accessors","utils/aac_util.go"),("ParseMpeg4AudioConfig, ADtsHeader2MpegAudioConfigData","utils/aac_util.go"),("ExtractAudioExtraData","video_stream.go")],[],["utils ADTS/ASC functions","ExtractAudioExtraData"])

p("C22","Timestamp rescaling is exact integer arithmetic",
"Converting a timestamp between positive timebases returns exactly the rational value ts*dst/src truncated toward zero whenever the result is representable, for every pair of positive 32-bit timebases; equal timebases return the value unchanged. Packet DTS, PTS, duration and PTS-DTS delta conversions follow that same rule.",
["inputs"],"all timestamps with representable result, all positive 32-bit timebases",
"No test converts a timestamp; rounding errors appear only for particular (timestamp, timebase) combinations.",
["packet_utils.go","av_packet.go"],[("ConvertTs","packet_utils.go"),("ConvertDts, ConvertPts, GetDuration, GetPtsDtsDelta","av_packet.go")],[],["ConvertTs","AVPacket.Convert*"])

p("C23","Demuxer callbacks follow the probe protocol",
"For every history a demuxer tells its handler either once that no track was found, or each track once in registration order, then once that tracks are complete, and only then delivers packets; nothing is announced or delivered before probing completes and no track is accepted after. Completing the probe again has no further effect, and probing completes by itself exactly when some stream's buffered duration reaches the larger of 200 ms and the configured probe duration.",
["histories","inputs"],"all sequences of track registrations, packets, probe completions",
"No test creates a demuxer.",
["demuxer.go","tracks.go"],[("Completed flag, OnProbeComplete","demuxer.go"),("processBufferedPacket","demuxer.go")],
[("Completed","probe finished","demuxer.go"),("Packets","buffered packets per stream","demuxer.go")],["OnUnpackStreamHandler callbacks"])

p("C24","Demuxer delivers each packet once, in order, with its duration",
"Every packet accepted by a demuxer is delivered exactly once and in arrival order within its stream (for non-decreasing DTS), except that the newest packet of each stream is held until its successor arrives; a delivered packet's duration is its successor's DTS minus its own. This holds whatever order streams start in, packets buffered during probing are delivered sorted by DTS, and with automatic freeing each delivered packet releases exactly one block of its own stream's buffer.",
["histories","inputs"],"all interleavings of packets of any number of streams",
"No test creates a demuxer; misrouting needs streams whose first packets arrive in a particular order.",
["demuxer.go","collections/linked_list.go"],[("processBufferedPacket, forwardPacket, OnProbeComplete flush","demuxer.go")],
[("Packets","buffered packets per stream","demuxer.go"),("streamIndex2BufferIndex","buffer of each stream","demuxer.go")],["OnPacket callback","DataPipeline discards"])

p("C25","Track registry and buffer index assignment are stable",
"Registered tracks keep their order and index: looking a track up by index (below the number of tracks), codec or media type returns the registered track at that index, or the first with that codec or type, or nothing. The muxer accepts at most one track per media type and returns its index, and the demuxer maps each distinct stream marker to one buffer index, assigned consecutively from 0 in order of first use and never changed.",
["histories","inputs"],"all sequences of registrations and lookups",
"No test covers tracks, muxer or index assignment.",
["tracks.go","muxer.go","demuxer.go","track.go"],[("TrackManager","tracks.go"),("BaseMuxer.AddTrack","muxer.go"),("FindBufferIndex","demuxer.go")],
[("Tracks","registered tracks","tracks.go"),("OrderedStreams","markers in first-use order","demuxer.go")],["TrackManager","BaseMuxer.AddTrack","FindBufferIndex"])

p("C26","Recycled packets carry nothing over",
"A packet obtained for new audio or video data carries exactly the given payload, timestamps, key flag, packing (none for audio), codec, index, timebase and media type and nothing of any earlier use: no duration, cached conversion, buffer hook, buffer index or creation time survives freeing. Freeing clears every field before the packet becomes available for reuse.",
["histories"],"all sequences of creating, using and freeing packets",
"No test creates or frees a packet.",
["av_packet.go","video_stream.go"],[("FreePacket","av_packet.go"),("NewAudioPacket, NewVideoPacket","av_packet.go")],
[("PacketPool","recycled packets","av_packet.go")],["NewAudioPacket","NewVideoPacket","FreePacket","ExtractAudioPacket"])

p("C27","Reference counter: one releaser sees zero",
"Under every interleaving of concurrent Refer and Release calls the use count equals the initial count plus references minus releases, and a release reports true exactly when it is the one that brings the count to zero, so among balanced users exactly one observes the end of life. A new counter starts with one reference and returns the data it was given or last reset to.",
["schedules","histories"],"all interleavings of Refer/Release/UseCount by any number of goroutines",
"The test makes one sequential Refer and Release; lost updates need concurrent interleavings.",
["collections/reference_counter.go"],[("atomic add/load on the counter","collections/reference_counter.go")],
[("refer","reference count","collections/reference_counter.go")],["ReferenceCounter methods"])

p("C28","Codec data exposes the same parameter sets in every form",
"Codec data built from parameter sets or from a configuration record exposes exactly those VPS/SPS/PPS units, an Annex-B form that is their concatenation in VPS, SPS, PPS order, an MP4 form that is the original record (or the record marshalled from them) and the size parsed from the first SPS. Streams created from a key frame carry that codec data, the given index, the right codec and media type, and the Annex-B form as extra data; malformed input gives an error.",
["inputs"],"all parameter sets, all configuration records, all key frames",
"No test builds codec data or a stream.",
["codec_paraments.go","video_stream.go","av_stream.go"],[("NewAVCCodecData, NewHEVCCodecData, Parse*DecoderConfigurationRecord, mix","codec_paraments.go"),("Create*StreamFromKeyFrame, generateVideoCodecData","video_stream.go")],[],["CodecData interface","AVStream"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
