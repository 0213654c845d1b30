# Timestamps (C22)
lemma div_eu(a: int, b: int, q: int)
  tags C22
  requires 0 <= a && 0 < b && q * b <= a && a < q * b + b
  ensures tdiv(a, b) == q

lemma div_split(q: int, m: int, s: int, d: int)
  tags C22
  requires 0 <= q && 0 <= m && m < s && 0 < d
  use exit: div_eu((q * s + m) * d, s, q * d + tdiv(m * d, s))
  ensures tdiv((q * s + m) * d, s) == q * d + tdiv(m * d, s)

func avformat.ConvertTs(ts, srcTimeBase, dstTimeBase) (r)
  tags C22
  requires 0 < srcTimeBase && srcTimeBase <= 2147483647 && 0 < dstTimeBase && dstTimeBase <= 2147483647
  requires -9223372036854775808 <= tdiv(ts * dstTimeBase, srcTimeBase) && tdiv(ts * dstTimeBase, srcTimeBase) <= 9223372036854775807
  ensures r == tdiv(ts * dstTimeBase, srcTimeBase)

def i64ok(x) = -9223372036854775808 <= x && x <= 9223372036854775807
def base(t) = 0 < t && t <= 2147483647
# the exact value in another timebase
def scaled(x, s, d) = ite(s == d, x, tdiv(x * d, s))
func avformat.AVPacket.ConvertDts(pkt, dstTimebase) (r)
  tags C22
  requires pkt != nil && base(pkt.Timebase) && base(dstTimebase) && i64ok(scaled(pkt.Dts, pkt.Timebase, dstTimebase))
  ensures r == scaled(pkt.Dts, pkt.Timebase, dstTimebase)

func avformat.AVPacket.ConvertPts(pkt, dstTimebase) (r)
  tags C22
  requires pkt != nil && base(pkt.Timebase) && base(dstTimebase) && i64ok(scaled(pkt.Pts, pkt.Timebase, dstTimebase))
  ensures r == scaled(pkt.Pts, pkt.Timebase, dstTimebase)

func avformat.AVPacket.GetDuration(pkt, timebase) (r)
  tags C22
  requires pkt != nil && base(pkt.Timebase) && base(timebase) && i64ok(scaled(pkt.Duration, pkt.Timebase, timebase))
  ensures r == scaled(pkt.Duration, pkt.Timebase, timebase)

func avformat.AVPacket.GetPtsDtsDelta(pkt, timebase) (r)
  tags C22
  requires pkt != nil && base(pkt.Timebase) && base(timebase) && i64ok(pkt.Pts - pkt.Dts) && i64ok(scaled(pkt.Pts - pkt.Dts, pkt.Timebase, timebase))
  ensures r == scaled(pkt.Pts - pkt.Dts, pkt.Timebase, timebase)

# equal timebases: the same value
lemma scaled_same(x: int, s: int)
  tags C22
  requires 0 < s
  ensures tdiv(x * s, s) == x

# --- recycled packets (C26) ---
def blank(p) = p.Data == nil && p.Pts == 0 && p.Dts == 0 && p.Duration == 0 && !p.Key && p.CreatedTime == 0 && p.BufferIndex == 0 && p.dataAVCC == nil && p.dataAnnexB == nil && p.OnBufferAlloc == nil
def pool_PacketPool(p) = blank(p) && p.Index == 0 && p.Timebase == 0 && (p.MediaType == 0 || p.MediaType == utils.AVMediaTypeUnknown) && p.CodecID == utils.AVCodecIdNONE && (p.PacketType == 0 || p.PacketType == avformat.PacketTypeNONE)
def only(p) = p.Duration == 0 && p.CreatedTime == 0 && p.BufferIndex == 0 && p.dataAVCC == nil && p.dataAnnexB == nil && p.OnBufferAlloc == nil

func avformat.NewAudioPacket(data, ts, id, index, timebase) (p)
  tags C26
  ensures [new] p != nil && fresh(p)
  ensures [given] same(p.Data, data) && p.Dts == ts && p.Pts == ts && p.CodecID == id && p.Index == index && p.Timebase == timebase && p.MediaType == utils.AVMediaTypeAudio
  ensures [nothing else] only(p) && !p.Key && (p.PacketType == 0 || p.PacketType == avformat.PacketTypeNONE)

func avformat.NewVideoPacket(data, dts, pts, key, pktType, id, index, timebase) (p)
  tags C26
  ensures [new] p != nil && fresh(p)
  ensures [given] same(p.Data, data) && p.Dts == dts && p.Pts == pts && p.Key == key && p.PacketType == pktType && p.CodecID == id && p.Index == index && p.Timebase == timebase && p.MediaType == utils.AVMediaTypeVideo
  ensures [nothing else] only(p)

func avformat.FreePacket(packet)
  tags C26
  requires packet != nil
  modifies packet.Data, packet.Pts, packet.Dts, packet.Duration, packet.Key, packet.CreatedTime, packet.BufferIndex, packet.Index, packet.Timebase, packet.MediaType, packet.CodecID, packet.PacketType, packet.dataAVCC, packet.dataAnnexB, packet.OnBufferAlloc
  ensures [cleared] pool_PacketPool(packet)

func avformat.ExtractAudioPacket(codec, data, ts, index, timebase, adts) (p, err)
  tags C26
  ensures [new] err == nil && p != nil && fresh(p)
  ensures [given] same(p.Data, data) && p.Dts == ts && p.Pts == ts && p.CodecID == codec && p.Index == index && p.Timebase == timebase && p.MediaType == utils.AVMediaTypeAudio
  ensures [nothing else] only(p) && !p.Key && (p.PacketType == 0 || p.PacketType == avformat.PacketTypeNONE)
