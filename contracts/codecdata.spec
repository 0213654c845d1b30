# Codec data and the streams built from it (C28)

def listOne(L, u) = len(L) == 1 && same(L[0], u)
# r is u followed by v
def two(r, u, v) = len(r) == len(u) + len(v) && all(k, 0, len(u), r[k] == u[k]) && all(k, 0, len(v), r[len(u) + k] == v[k])
def three(r, u, v, w) = len(r) == len(u) + len(v) + len(w) && all(k, 0, len(u), r[k] == u[k]) && all(k, 0, len(v), r[len(u) + k] == v[k]) && all(k, 0, len(w), r[len(u) + len(v) + k] == w[k])

func avformat.codecData.Width(c) (r)
  tags C28
  requires c != nil
  opt pure
  ensures r == c.width
func avformat.codecData.Height(c) (r)
  tags C28
  requires c != nil
  opt pure
  ensures r == c.height
func avformat.AVCCodecData.SPS(h) (r)
  tags C28
  requires h.Record != nil
  opt pure
  ensures same(r, h.Record.SPSList)
func avformat.AVCCodecData.PPS(h) (r)
  tags C28
  requires h.Record != nil
  opt pure
  ensures same(r, h.Record.PPSList)
func avformat.HEVCCodecData.VPS(h) (r)
  tags C28
  requires h.Record != nil
  opt pure
  ensures same(r, h.Record.VPSList)
func avformat.HEVCCodecData.SPS(h) (r)
  tags C28
  requires h.Record != nil
  opt pure
  ensures same(r, h.Record.SPSList)
func avformat.HEVCCodecData.PPS(h) (r)
  tags C28
  requires h.Record != nil
  opt pure
  ensures same(r, h.Record.PPSList)

func avformat.AVCCodecData.MP4ExtraData(h) (r)
  tags C28
  fuel 0
  modifies mHead
  requires h.m4vc == nil ==> h.Record != nil && okList(h.Record.SPSList) && okList(h.Record.PPSList) && tP(h.Record.SPSList, len(h.Record.SPSList)) <= 70368744177664 && tP(h.Record.PPSList, len(h.Record.PPSList)) <= 70368744177664
  ensures [kept] h.m4vc != nil ==> same(r, h.m4vc)
  ensures [none] h.m4vc == nil && !old(avcMOK(h.Record.SPSList, h.Record.PPSList)) ==> len(r) == 0
  ensures [size] h.m4vc == nil && old(avcMOK(h.Record.SPSList, h.Record.PPSList)) ==> len(r) == 7 + old(mP(h.Record.SPSList, len(h.Record.SPSList))) + old(mP(h.Record.PPSList, len(h.Record.PPSList)))
  ensures [sps] h.m4vc == nil && old(avcMOK(h.Record.SPSList, h.Record.PPSList)) ==> uIn(bytes(r), off(r) + 6, h.Record.SPSList, len(h.Record.SPSList)) && r[5] == 224 + len(h.Record.SPSList)
  ensures [pps] h.m4vc == nil && old(avcMOK(h.Record.SPSList, h.Record.PPSList)) ==> uIn(bytes(r), off(r) + 7 + old(mP(h.Record.SPSList, len(h.Record.SPSList))), h.Record.PPSList, len(h.Record.PPSList))
  ensures [accepted] h.m4vc == nil && old(avcMOK(h.Record.SPSList, h.Record.PPSList)) ==> avcOK(r) && avcN1(r) == len(h.Record.SPSList) && avcN2(r) == len(h.Record.PPSList)

def hvTyped(d) = old(hvType(d.VPSList)) == 32 && old(hvType(d.SPSList)) == 33 && old(hvType(d.PPSList)) == 34
def hvMarsh(d) = old(hvMOK(d.VPSList)) && old(hvMOK(d.SPSList)) && old(hvMOK(d.PPSList))
func avformat.HEVCCodecData.MP4ExtraData(h) (r)
  tags C28
  fuel 0
  modifies mHead, hvStage, hvBase, hvSize
  requires h.m4vc == nil ==> h.Record != nil && okList(h.Record.VPSList) && okList(h.Record.SPSList) && okList(h.Record.PPSList) && tP(h.Record.VPSList, len(h.Record.VPSList)) <= 70368744177664 && tP(h.Record.SPSList, len(h.Record.SPSList)) <= 70368744177664 && tP(h.Record.PPSList, len(h.Record.PPSList)) <= 70368744177664
  ensures [kept] h.m4vc != nil ==> same(r, h.m4vc)
  ensures [none] h.m4vc == nil && !hvMarsh(h.Record) ==> len(r) == 0
  ensures [vps] h.m4vc == nil && hvMarsh(h.Record) ==> uIn(bytes(r), off(r) + 26, h.Record.VPSList, len(h.Record.VPSList))
  ensures [sps] h.m4vc == nil && hvMarsh(h.Record) ==> uIn(bytes(r), off(r) + 29 + old(mP(h.Record.VPSList, len(h.Record.VPSList))), h.Record.SPSList, len(h.Record.SPSList))
  ensures [pps] h.m4vc == nil && hvMarsh(h.Record) ==> uIn(bytes(r), off(r) + 32 + old(mP(h.Record.VPSList, len(h.Record.VPSList))) + old(mP(h.Record.SPSList, len(h.Record.SPSList))), h.Record.PPSList, len(h.Record.PPSList))
  ensures [accepted] h.m4vc == nil && hvMarsh(h.Record) && hvTyped(h.Record) ==> hvOK(r)
  ensures [accepted] h.m4vc == nil && hvMarsh(h.Record) && hvTyped(h.Record) ==> hvK(r, 32) == len(h.Record.VPSList)
  ensures [accepted] h.m4vc == nil && hvMarsh(h.Record) && hvTyped(h.Record) ==> hvK(r, 33) == len(h.Record.SPSList)
  ensures [accepted] h.m4vc == nil && hvMarsh(h.Record) && hvTyped(h.Record) ==> hvK(r, 34) == len(h.Record.PPSList)

def cd4(r) = as(r, *avformat.AVCCodecData)
def cd5(r) = as(r, *avformat.HEVCCodecData)

func avformat.NewAVCCodecData(sps, pps) (r, err)
  tags C28
  fuel 0
  requires len(sps) <= 70368744177664 && len(pps) <= 70368744177664
  modifies gpA, gpN, gp, gq, gr, gs, gst, ghi, gb, gpr
  loop avformat.mix.1
    unroll
  loop avformat.mix.2
    unroll
  ensures [error] (err == nil) == old(sps4OK(sps))
  ensures [type] err == nil ==> r != nil && typeis(r, *avformat.AVCCodecData) && fresh(cd4(r)) && fresh(cd4(r).Record) && cd4(r).Record != nil
  ensures [sets] err == nil ==> listOne(cd4(r).Record.SPSList, sps) && listOne(cd4(r).Record.PPSList, pps) && fresh(cd4(r).Record.SPSList) && fresh(cd4(r).Record.PPSList)
  ensures [annexB] err == nil ==> two(cd4(r).annexB, sps, pps) && (len(sps) + len(pps) > 0 ==> cd4(r).annexB != nil && fresh(cd4(r).annexB))
  ensures [mp4] err == nil ==> cd4(r).m4vc == nil
  ensures [size] err == nil ==> cd4(r).width == old(sps4Width(sps4Bits(sps))) && cd4(r).height == old(sps4Height(sps4Bits(sps)))
  ensures [none] err != nil ==> r == nil

func avformat.NewHEVCCodecData(vps, sps, pps) (r, err)
  tags C28
  fuel 0
  requires len(vps) <= 70368744177664 && len(sps) <= 70368744177664 && len(pps) <= 70368744177664
  modifies gpA, gpN, gp, gq, gr
  loop avformat.mix.1
    unroll
  loop avformat.mix.2
    unroll
  ensures [error] (err == nil) == old(sps5OK(sps))
  ensures [type] err == nil ==> r != nil && typeis(r, *avformat.HEVCCodecData) && fresh(cd5(r)) && fresh(cd5(r).Record) && cd5(r).Record != nil
  ensures [sets] err == nil ==> listOne(cd5(r).Record.VPSList, vps) && listOne(cd5(r).Record.SPSList, sps) && listOne(cd5(r).Record.PPSList, pps) && fresh(cd5(r).Record.VPSList) && fresh(cd5(r).Record.SPSList) && fresh(cd5(r).Record.PPSList)
  ensures [annexB] err == nil ==> three(cd5(r).annexB, vps, sps, pps) && (len(vps) + len(sps) + len(pps) > 0 ==> cd5(r).annexB != nil && fresh(cd5(r).annexB))
  ensures [mp4] err == nil ==> cd5(r).m4vc == nil
  ensures [size] err == nil ==> cd5(r).width == old(sps5Width(sps5Bits(sps))) && cd5(r).height == old(sps5Height(sps5Bits(sps)))
  ensures [none] err != nil ==> r == nil

# what parsing the first SPS of a record gave
ghostvar cdOK: bool
func avformat.ParseAVCDecoderConfigurationRecord(data) (r, err)
  tags C28
  fuel 0
  modifies gpA, gpN, gp, gq, gr, gs, gst, ghi, gb, gpr, cdOK
  set after avc.ParseSPS: cdOK = sps4OK($data)
  ensures [error] (err == nil) <==> old(avcOK(data)) && cdOK
  ensures [none] err != nil ==> r == nil
  ensures [type] err == nil ==> r != nil && typeis(r, *avformat.AVCCodecData) && fresh(cd4(r)) && fresh(cd4(r).Record) && cd4(r).Record != nil
  ensures [count] err == nil ==> len(cd4(r).Record.SPSList) == avcN1(data) && len(cd4(r).Record.PPSList) == avcN2(data)
  ensures [alloc] err == nil ==> listOK(cd4(r).Record.SPSList) && listOK(cd4(r).Record.PPSList)
  ensures [sps] err == nil ==> unitsAre(cd4(r).Record.SPSList, 0, bytes(data), avcS(data), avcN1(data))
  ensures [pps] err == nil ==> unitsAre(cd4(r).Record.PPSList, 0, bytes(data), avcQ(data) + 1, avcN2(data))
  ensures [mp4] err == nil ==> same(cd4(r).m4vc, data) && data != nil
  ensures [annexB] err == nil ==> cd4(r).annexB == nil
  ensures [size] err == nil ==> let(s, cd4(r).Record.SPSList[0], cd4(r).width == sps4Width(sps4Bits(s)) && cd4(r).height == sps4Height(sps4Bits(s)) && sps4OK(s))

func avformat.ParseHEVCDecoderConfigurationRecord(data) (r, err)
  tags C28
  fuel 0
  modifies gpA, gpN, gp, gq, gr, cdOK
  set after hevc.ParseSPS: cdOK = sps5OK($sps)
  ensures [error] (err == nil) <==> old(hvOK(data)) && cdOK
  ensures [none] err != nil ==> r == nil
  ensures [type] err == nil ==> r != nil && typeis(r, *avformat.HEVCCodecData) && fresh(cd5(r)) && fresh(cd5(r).Record) && cd5(r).Record != nil
  ensures [alloc] err == nil ==> hvLists(cd5(r).Record)
  ensures [vps] err == nil ==> kindIs(cd5(r).Record.VPSList, bytes(data), hvS(data), data[22], 32, hvK(data, 32))
  ensures [sps] err == nil ==> kindIs(cd5(r).Record.SPSList, bytes(data), hvS(data), data[22], 33, hvK(data, 33))
  ensures [pps] err == nil ==> kindIs(cd5(r).Record.PPSList, bytes(data), hvS(data), data[22], 34, hvK(data, 34))
  ensures [mp4] err == nil ==> same(cd5(r).m4vc, data) && data != nil
  ensures [annexB] err == nil ==> cd5(r).annexB == nil
  ensures [size] err == nil ==> let(s, cd5(r).Record.SPSList[0], cd5(r).width == sps5Width(sps5Bits(s)) && cd5(r).height == sps5Height(sps5Bits(s)) && sps5OK(s))

# the helpers that only parse a record and its first SPS
func avc.NewCodecDataFromAVCDecoderConfigurationRecord(record) (r, s, err)
  tags C28
  fuel 0
  modifies gpA, gpN, gp, gq, gr, gs, gst, ghi, gb, gpr, cdOK
  set after avc.ParseSPS: cdOK = sps4OK($data)
  ensures [error] (err == nil) <==> old(avcOK(record)) && cdOK
  ensures [none] err != nil ==> r == nil && s == nil
  ensures [alloc] err == nil ==> r != nil && s != nil && fresh(r) && fresh(s) && listOK(r.SPSList) && listOK(r.PPSList)
  ensures [count] err == nil ==> len(r.SPSList) == avcN1(record) && len(r.PPSList) == avcN2(record)
  ensures [sps] err == nil ==> unitsAre(r.SPSList, 0, bytes(record), avcS(record), avcN1(record))
  ensures [pps] err == nil ==> unitsAre(r.PPSList, 0, bytes(record), avcQ(record) + 1, avcN2(record))
  ensures [size] err == nil ==> let(u, r.SPSList[0], s.Width == sps4Width(sps4Bits(u)) && s.Height == sps4Height(sps4Bits(u)) && sps4OK(u))

func hevc.NewCodecDataFromHEVCDecoderConfigurationRecord(record) (r, s, err)
  tags C28
  fuel 0
  modifies gpA, gpN, gp, gq, gr, cdOK
  set after hevc.ParseSPS: cdOK = sps5OK($sps)
  ensures [error] (err == nil) <==> old(hvOK(record)) && cdOK
  ensures [none] err != nil ==> r == nil && s == nil
  ensures [alloc] err == nil ==> r != nil && s != nil && fresh(r) && fresh(s) && hvLists(r)
  ensures [vps] err == nil ==> kindIs(r.VPSList, bytes(record), hvS(record), record[22], 32, hvK(record, 32))
  ensures [sps] err == nil ==> kindIs(r.SPSList, bytes(record), hvS(record), record[22], 33, hvK(record, 33))
  ensures [pps] err == nil ==> kindIs(r.PPSList, bytes(record), hvS(record), record[22], 34, hvK(record, 34))
  ensures [size] err == nil ==> let(u, r.SPSList[0], s.Width == sps5Width(sps5Bits(u)) && s.Height == sps5Height(sps5Bits(u)) && sps5OK(u))

# --- from key frames ---
def kf4(d) = psLast(d, 4, 7) >= 0 && psLast(d, 4, 8) >= 0
def kf5(d) = psLast(d, 5, 32) >= 0 && psLast(d, 5, 33) >= 0 && psLast(d, 5, 34) >= 0
def hasOne(L) = len(L) == 1
# the units of codec data are copies of the last units of the frame
def cdFrom4(c, d) = typeis(c, *avformat.AVCCodecData) && cd4(c).Record != nil && hasOne(cd4(c).Record.SPSList) && hasOne(cd4(c).Record.PPSList) && psCopy(cd4(c).Record.SPSList[0], old(bytes(d)), old(psLast(d, 4, 7)), off(d) + len(d)) && psCopy(cd4(c).Record.PPSList[0], old(bytes(d)), old(psLast(d, 4, 8)), off(d) + len(d))
def cdFrom5(c, d) = typeis(c, *avformat.HEVCCodecData) && cd5(c).Record != nil && hasOne(cd5(c).Record.VPSList) && hasOne(cd5(c).Record.SPSList) && hasOne(cd5(c).Record.PPSList) && psCopy(cd5(c).Record.VPSList[0], old(bytes(d)), old(psLast(d, 5, 32)), off(d) + len(d)) && psCopy(cd5(c).Record.SPSList[0], old(bytes(d)), old(psLast(d, 5, 33)), off(d) + len(d)) && psCopy(cd5(c).Record.PPSList[0], old(bytes(d)), old(psLast(d, 5, 34)), off(d) + len(d))
def cdSize4(c) = let(s, cd4(c).Record.SPSList[0], cd4(c).width == sps4Width(sps4Bits(s)) && cd4(c).height == sps4Height(sps4Bits(s)))
def cdSize5(c) = let(s, cd5(c).Record.SPSList[0], cd5(c).width == sps5Width(sps5Bits(s)) && cd5(c).height == sps5Height(sps5Bits(s)))

func avformat.CreateAVCStreamFromKeyFrame(data, index) (r, err)
  tags C28
  fuel 0
  requires len(data) <= 35184372088832
  modifies gpA, gpN, gp, gq, gr, gs, gst, ghi, gb, gpr, cdOK, psS, psP, cHead, cOff, cStage, cBase
  set after avformat.NewAVCCodecData: cdOK = sps4OK($sps)
  ensures [error] (err == nil) <==> old(kf4(data)) && cdOK
  ensures [stream] err == nil ==> r != nil && fresh(r) && r.MediaType == utils.AVMediaTypeVideo && r.Index == index && r.CodecID == utils.AVCodecIdH264
  ensures [codec] err == nil ==> cdFrom4(r.CodecParameters, data)
  ensures [size] err == nil ==> cdSize4(r.CodecParameters)
  ensures [extra] err == nil ==> let(R, cd4(r.CodecParameters).Record, two(r.Data, R.SPSList[0], R.PPSList[0])) && same(r.Data, cd4(r.CodecParameters).annexB)
  ensures [none] err != nil ==> r == nil

func avformat.CreateHevcStreamFromKeyFrame(data, index) (r, err)
  tags C28
  fuel 0
  requires len(data) <= 35184372088832
  modifies gpA, gpN, gp, gq, gr, cdOK, psV, psS, psP, cHead, cOff, cStage, cBase
  set after avformat.NewHEVCCodecData: cdOK = sps5OK($sps)
  ensures [error] (err == nil) <==> old(kf5(data)) && cdOK
  ensures [stream] err == nil ==> r != nil && fresh(r) && r.MediaType == utils.AVMediaTypeVideo && r.Index == index && r.CodecID == utils.AVCodecIdH265
  ensures [codec] err == nil ==> cdFrom5(r.CodecParameters, data)
  ensures [size] err == nil ==> cdSize5(r.CodecParameters)
  ensures [extra] err == nil ==> let(R, cd5(r.CodecParameters).Record, three(r.Data, R.VPSList[0], R.SPSList[0], R.PPSList[0])) && same(r.Data, cd5(r.CodecParameters).annexB)
  ensures [none] err != nil ==> r == nil

func avformat.generateVideoCodecData(packType, id, data) (r, err)
  tags C28
  opt sep
  fuel 0
  requires len(data) <= 35184372088832
  modifies gpA, gpN, gp, gq, gr, gs, gst, ghi, gb, gpr, cdOK, psV, psS, psP
  set after avformat.NewAVCCodecData: cdOK = sps4OK($sps)
  set after avformat.NewHEVCCodecData: cdOK = sps5OK($sps)
  ensures [avcc4] packType == avformat.PacketTypeAVCC && id == utils.AVCodecIdH264 ==> ((err == nil) <==> old(avcOK(data)) && cdOK)
  ensures [avcc5] packType == avformat.PacketTypeAVCC && id == utils.AVCodecIdH265 ==> ((err == nil) <==> old(hvOK(data)) && cdOK)
  ensures [annexb4] packType != avformat.PacketTypeAVCC && id == utils.AVCodecIdH264 ==> ((err == nil) <==> old(kf4(data)) && cdOK)
  ensures [annexb5] packType != avformat.PacketTypeAVCC && id == utils.AVCodecIdH265 ==> ((err == nil) <==> old(kf5(data)) && cdOK)
  ensures [avcc4] packType == avformat.PacketTypeAVCC && id == utils.AVCodecIdH264 && err == nil ==> typeis(r, *avformat.AVCCodecData) && cd4(r).Record != nil && unitsAre(cd4(r).Record.SPSList, 0, bytes(data), avcS(data), avcN1(data)) && unitsAre(cd4(r).Record.PPSList, 0, bytes(data), avcQ(data) + 1, avcN2(data)) && cdSize4(r) && same(cd4(r).m4vc, data)
  ensures [avcc5] packType == avformat.PacketTypeAVCC && id == utils.AVCodecIdH265 && err == nil ==> typeis(r, *avformat.HEVCCodecData) && cd5(r).Record != nil && kindIs(cd5(r).Record.VPSList, bytes(data), hvS(data), data[22], 32, hvK(data, 32)) && kindIs(cd5(r).Record.SPSList, bytes(data), hvS(data), data[22], 33, hvK(data, 33)) && kindIs(cd5(r).Record.PPSList, bytes(data), hvS(data), data[22], 34, hvK(data, 34)) && cdSize5(r) && same(cd5(r).m4vc, data)
  ensures [annexb4] packType != avformat.PacketTypeAVCC && id == utils.AVCodecIdH264 && err == nil ==> cdFrom4(r, data) && cdSize4(r)
  ensures [annexb5] packType != avformat.PacketTypeAVCC && id == utils.AVCodecIdH265 && err == nil ==> cdFrom5(r, data) && cdSize5(r)
  ensures [other] id != utils.AVCodecIdH264 && id != utils.AVCodecIdH265 ==> r == nil && err == nil

# r holds, from position q on, the unit of the piece at g behind a 4-byte start code
def exAt(r, q, A, g, e) = r[q] == 0 && r[q + 1] == 0 && r[q + 2] == 0 && r[q + 3] == 1 && all(p, q + 4, q + 4 + pcN(A, g, e), r[p] == sel(A, pcU(A, g, e) + p - 4 - q))
func avformat.ExtractVideoExtraDataFromKeyFrame(codec, data) (r, err)
  tags C20
  opt sep
  fuel 0
  requires len(data) <= 35184372088832
  modifies psV, psS, psP
  ensures [h264] codec == utils.AVCodecIdH264 ==> ((err == nil) <==> old(kf4(data)))
  ensures [h265] codec == utils.AVCodecIdH265 ==> ((err == nil) <==> old(kf5(data)))
  ensures [other] codec != utils.AVCodecIdH264 && codec != utils.AVCodecIdH265 ==> r == nil && err == nil
  ensures [none] err != nil ==> r == nil
  ensures [size] len(r) <= 12 + 3 * len(data)
  ensures [copy] err == nil && (codec == utils.AVCodecIdH264 || codec == utils.AVCodecIdH265) ==> fresh(r)
  ensures [h264] err == nil && codec == utils.AVCodecIdH264 ==> len(r) == 8 + pcN(old(bytes(data)), old(psLast(data, 4, 7)), off(data) + len(data)) + pcN(old(bytes(data)), old(psLast(data, 4, 8)), off(data) + len(data))
  ensures [sps4] err == nil && codec == utils.AVCodecIdH264 ==> exAt(r, 0, old(bytes(data)), old(psLast(data, 4, 7)), off(data) + len(data))
  ensures [pps4] err == nil && codec == utils.AVCodecIdH264 ==> exAt(r, 4 + pcN(old(bytes(data)), old(psLast(data, 4, 7)), off(data) + len(data)), old(bytes(data)), old(psLast(data, 4, 8)), off(data) + len(data))
  ensures [h265] err == nil && codec == utils.AVCodecIdH265 ==> len(r) == 12 + pcN(old(bytes(data)), old(psLast(data, 5, 32)), off(data) + len(data)) + pcN(old(bytes(data)), old(psLast(data, 5, 33)), off(data) + len(data)) + pcN(old(bytes(data)), old(psLast(data, 5, 34)), off(data) + len(data))
  ensures [vps5] err == nil && codec == utils.AVCodecIdH265 ==> exAt(r, 0, old(bytes(data)), old(psLast(data, 5, 32)), off(data) + len(data))
  ensures [sps5] err == nil && codec == utils.AVCodecIdH265 ==> exAt(r, 4 + pcN(old(bytes(data)), old(psLast(data, 5, 32)), off(data) + len(data)), old(bytes(data)), old(psLast(data, 5, 33)), off(data) + len(data))
  ensures [pps5] err == nil && codec == utils.AVCodecIdH265 ==> exAt(r, 8 + pcN(old(bytes(data)), old(psLast(data, 5, 32)), off(data) + len(data)) + pcN(old(bytes(data)), old(psLast(data, 5, 33)), off(data) + len(data)), old(bytes(data)), old(psLast(data, 5, 34)), off(data) + len(data))
