# Codec data, packet conversion, packets (C14, C26, C28)

# --- concatenation of a list of byte slices ---
rec cPos(N: iarr, o: int, n: int): int = ite(n <= 0, 0, cPos(N, o, n - 1) + max(0, sel(N, o + n - 1)))
rec catIn(B: arr, b: int, I: iarr, O: iarr, N: iarr, M: aarr, o: int, n: int): bool = forall(k, q, trig(cPos(N, o, k), sel(B, q), 0 <= k && k < n && b + cPos(N, o, k) <= q && q < b + cPos(N, o, k) + sel(N, o + k) ==> sel(B, q) == sel(sel(M, sel(I, o + k)), sel(O, o + k) + q - b - cPos(N, o, k))))
lemma c_step(N: iarr, o: int, n: int)
  ensures cPos(N, o, 0) == 0
  ensures n >= 0 ==> cPos(N, o, n + 1) == cPos(N, o, n) + max(0, sel(N, o + n))
lemma c_mono(N: iarr, o: int, i: int, n: int)
  requires 0 <= i && i <= n
  induct n - i
  use c_mono(N, o, i, n - 1), c_step(N, o, n - 1)
  ensures cPos(N, o, i) <= cPos(N, o, n)
lemma c_order(N: iarr, o: int, n: int)
  requires n >= 0
  use c_step(N, o, 0), forall(k: int, c_step(N, o, k)), forall(k: int, c_mono(N, o, 0, k)), forall(k: int, c_mono(N, o, k + 1, n))
  ensures cPos(N, o, n) >= 0 && all(k, 0, n, trig(cPos(N, o, k), 0 <= cPos(N, o, k) && cPos(N, o, k) + max(0, sel(N, o + k)) <= cPos(N, o, n)))
lemma cat_zero(B: arr, b: int, I: iarr, O: iarr, N: iarr, M: aarr, o: int)
  ensures catIn(B, b, I, O, N, M, o, 0)
lemma cat_move(B: arr, b: int, C: arr, c: int, I: iarr, O: iarr, N: iarr, M: aarr, o: int, n: int)
  requires n >= 0 && catIn(B, b, I, O, N, M, o, n) && all(q, c, c + cPos(N, o, n), sel(C, q) == sel(B, b + (q - c)))
  use c_order(N, o, n)
  ensures catIn(C, c, I, O, N, M, o, n)
lemma cat_step(B: arr, b: int, I: iarr, O: iarr, N: iarr, M: aarr, o: int, n: int)
  requires n >= 0 && catIn(B, b, I, O, N, M, o, n) && all(q, b + cPos(N, o, n), b + cPos(N, o, n) + sel(N, o + n), sel(B, q) == sel(sel(M, sel(I, o + n)), sel(O, o + n) + (q - b - cPos(N, o, n))))
  ensures catIn(B, b, I, O, N, M, o, n + 1)
def cP(L, n) = cPos(lens(L), off(L), n)
def cAll(L) = cP(L, len(L))
# list L stands in r from position p on, in the contents it had at the start
def catAt(r, p, L) = catIn(bytes(r), off(r) + p, old(arrs(L)), old(offs(L)), old(lens(L)), old(mem8()), off(L), len(L))
ghostvar cHead: arr
ghostvar cOff: int
ghostvar cStage: int
ghostvar cBase: int

func avformat.AVCCodecData.AnnexBExtraData(h) (r)
  tags C14 C28
  fuel 0
  modifies cHead, cOff, cStage, cBase
  requires h.annexB == nil ==> h.Record != nil && okList(h.Record.SPSList) && cAll(h.Record.SPSList) <= 70368744177664 && okList(h.Record.PPSList) && cAll(h.Record.PPSList) <= 70368744177664
  set entry: cStage = 0
  loop avformat.mix.1
    unroll
  set loop avformat.mix.2 init: cBase = len(extra)
  use loop avformat.mix.2 init: c_step(old(lens(v)), off(v), 0), cat_zero(bytes(extra), off(extra) + len(extra), old(arrs(v)), old(offs(v)), old(lens(v)), old(mem8()), off(v))
  use loop avformat.mix.2 init: c_mono(old(lens(h.Record.SPSList)), off(h.Record.SPSList), 0, len(h.Record.SPSList))
  use loop avformat.mix.2 init: c_mono(old(lens(h.Record.PPSList)), off(h.Record.PPSList), 0, len(h.Record.PPSList))
  use loop avformat.mix.2: c_step(old(lens(v)), off(v), iter), c_mono(old(lens(v)), off(v), 0, iter), c_mono(old(lens(v)), off(v), iter + 1, len(v))
  loop avformat.mix.2
    inv forall(a, trig(sel(mem8(), a), 0 <= a && a < old(topid()) ==> sel(mem8(), a) == sel(old(mem8()), a)))
    inv isalloc(extra) && (cap(extra) == 0 || fresh(extra))
    inv len(extra) == ghost(cBase) + old(cP(v, iter))
    inv [part] catIn(bytes(extra), off(extra) + ghost(cBase), old(arrs(v)), old(offs(v)), old(lens(v)), old(mem8()), off(v), iter)
    inv [part0] ghost(cStage) >= 1 ==> catAt(extra, 0, h.Record.SPSList)
  set loop avformat.mix.2 body: cHead = bytes(extra)
  set loop avformat.mix.2 body: cOff = off(extra)
  assert loop avformat.mix.2 back: all(q, off(extra), off(extra) + ghost(cBase) + old(cP(v, iter - 1)), sel(bytes(extra), q) == sel(ghost(cHead), ghost(cOff) + (q - off(extra))))
  assert loop avformat.mix.2 back: let(b, off(extra) + ghost(cBase) + old(cP(v, iter - 1)), all(q, b, b + old(len(v[iter - 1])), sel(bytes(extra), q) == old(sel(bytes(v[iter - 1]), off(v[iter - 1]) + (q - b)))))
  use loop avformat.mix.2 back: cat_move(ghost(cHead), ghost(cOff) + ghost(cBase), bytes(extra), off(extra) + ghost(cBase), old(arrs(v)), old(offs(v)), old(lens(v)), old(mem8()), off(v), iter - 1), cat_step(bytes(extra), off(extra) + ghost(cBase), old(arrs(v)), old(offs(v)), old(lens(v)), old(mem8()), off(v), iter - 1)
  use loop avformat.mix.2 back: cat_move(ghost(cHead), ghost(cOff) + 0, bytes(extra), off(extra) + 0, old(arrs(h.Record.SPSList)), old(offs(h.Record.SPSList)), old(lens(h.Record.SPSList)), old(mem8()), off(h.Record.SPSList), len(h.Record.SPSList))
  set loop avformat.mix.2 exit: cStage = ghost(cStage) + 1
  ensures [kept] h.annexB != nil ==> same(r, h.annexB)
  ensures [size] h.annexB == nil ==> len(r) == old(cAll(h.Record.SPSList)) + old(cAll(h.Record.PPSList))
  ensures [part1] h.annexB == nil ==> catAt(r, 0, h.Record.SPSList)
  ensures [part2] h.annexB == nil ==> catAt(r, 0 + old(cAll(h.Record.SPSList)), h.Record.PPSList)

func avformat.HEVCCodecData.AnnexBExtraData(h) (r)
  tags C14 C28
  fuel 0
  modifies cHead, cOff, cStage, cBase
  requires h.annexB == nil ==> h.Record != nil && okList(h.Record.VPSList) && cAll(h.Record.VPSList) <= 70368744177664 && okList(h.Record.SPSList) && cAll(h.Record.SPSList) <= 70368744177664 && okList(h.Record.PPSList) && cAll(h.Record.PPSList) <= 70368744177664
  set entry: cStage = 0
  loop avformat.mix.1
    unroll
  set loop avformat.mix.2 init: cBase = len(extra)
  use loop avformat.mix.2 init: c_step(old(lens(v)), off(v), 0), cat_zero(bytes(extra), off(extra) + len(extra), old(arrs(v)), old(offs(v)), old(lens(v)), old(mem8()), off(v))
  use loop avformat.mix.2 init: c_mono(old(lens(h.Record.VPSList)), off(h.Record.VPSList), 0, len(h.Record.VPSList))
  use loop avformat.mix.2 init: c_mono(old(lens(h.Record.SPSList)), off(h.Record.SPSList), 0, len(h.Record.SPSList))
  use loop avformat.mix.2 init: c_mono(old(lens(h.Record.PPSList)), off(h.Record.PPSList), 0, len(h.Record.PPSList))
  use loop avformat.mix.2: c_step(old(lens(v)), off(v), iter), c_mono(old(lens(v)), off(v), 0, iter), c_mono(old(lens(v)), off(v), iter + 1, len(v))
  loop avformat.mix.2
    inv forall(a, trig(sel(mem8(), a), 0 <= a && a < old(topid()) ==> sel(mem8(), a) == sel(old(mem8()), a)))
    inv isalloc(extra) && (cap(extra) == 0 || fresh(extra))
    inv len(extra) == ghost(cBase) + old(cP(v, iter))
    inv [part] catIn(bytes(extra), off(extra) + ghost(cBase), old(arrs(v)), old(offs(v)), old(lens(v)), old(mem8()), off(v), iter)
    inv [part0] ghost(cStage) >= 1 ==> catAt(extra, 0, h.Record.VPSList)
    inv [part1] ghost(cStage) >= 2 ==> catAt(extra, 0 + old(cAll(h.Record.VPSList)), h.Record.SPSList)
  set loop avformat.mix.2 body: cHead = bytes(extra)
  set loop avformat.mix.2 body: cOff = off(extra)
  assert loop avformat.mix.2 back: all(q, off(extra), off(extra) + ghost(cBase) + old(cP(v, iter - 1)), sel(bytes(extra), q) == sel(ghost(cHead), ghost(cOff) + (q - off(extra))))
  assert loop avformat.mix.2 back: let(b, off(extra) + ghost(cBase) + old(cP(v, iter - 1)), all(q, b, b + old(len(v[iter - 1])), sel(bytes(extra), q) == old(sel(bytes(v[iter - 1]), off(v[iter - 1]) + (q - b)))))
  use loop avformat.mix.2 back: cat_move(ghost(cHead), ghost(cOff) + ghost(cBase), bytes(extra), off(extra) + ghost(cBase), old(arrs(v)), old(offs(v)), old(lens(v)), old(mem8()), off(v), iter - 1), cat_step(bytes(extra), off(extra) + ghost(cBase), old(arrs(v)), old(offs(v)), old(lens(v)), old(mem8()), off(v), iter - 1)
  use loop avformat.mix.2 back: cat_move(ghost(cHead), ghost(cOff) + 0, bytes(extra), off(extra) + 0, old(arrs(h.Record.VPSList)), old(offs(h.Record.VPSList)), old(lens(h.Record.VPSList)), old(mem8()), off(h.Record.VPSList), len(h.Record.VPSList))
  use loop avformat.mix.2 back: cat_move(ghost(cHead), ghost(cOff) + 0 + old(cAll(h.Record.VPSList)), bytes(extra), off(extra) + 0 + old(cAll(h.Record.VPSList)), old(arrs(h.Record.SPSList)), old(offs(h.Record.SPSList)), old(lens(h.Record.SPSList)), old(mem8()), off(h.Record.SPSList), len(h.Record.SPSList))
  set loop avformat.mix.2 exit: cStage = ghost(cStage) + 1
  ensures [kept] h.annexB != nil ==> same(r, h.annexB)
  ensures [size] h.annexB == nil ==> len(r) == old(cAll(h.Record.VPSList)) + old(cAll(h.Record.SPSList)) + old(cAll(h.Record.PPSList))
  ensures [part1] h.annexB == nil ==> catAt(r, 0, h.Record.VPSList)
  ensures [part2] h.annexB == nil ==> catAt(r, 0 + old(cAll(h.Record.VPSList)), h.Record.SPSList)
  ensures [part3] h.annexB == nil ==> catAt(r, 0 + old(cAll(h.Record.VPSList)) + old(cAll(h.Record.SPSList)), h.Record.PPSList)

# --- packet conversion (C14) ---
callback avformat.AVPacket.OnBufferAlloc(size) (r)
  trusted the buffer hook returns memory of the requested size that nothing else uses
  ensures len(r) == size && fresh(r)

def okAVC(c) = c != nil && c.Record != nil && okList(c.Record.SPSList) && okList(c.Record.PPSList) && cAll(c.Record.SPSList) <= 70368744177664 && cAll(c.Record.PPSList) <= 70368744177664 && len(c.annexB) <= 70368744177664
def okHEVC(c) = c != nil && c.Record != nil && okList(c.Record.VPSList) && okList(c.Record.SPSList) && okList(c.Record.PPSList) && cAll(c.Record.VPSList) <= 70368744177664 && cAll(c.Record.SPSList) <= 70368744177664 && cAll(c.Record.PPSList) <= 70368744177664 && len(c.annexB) <= 70368744177664
def isA(p) = typeis(p, *avformat.AVCCodecData)
def isH(p) = typeis(p, *avformat.HEVCCodecData)
def okParams(p) = p == nil || isA(p) && okAVC(as(p, *avformat.AVCCodecData)) || isH(p) && okHEVC(as(p, *avformat.HEVCCodecData))
def isVideo(id) = id == utils.AVCodecIdH264 || id == utils.AVCodecIdH265
# the parameter sets in Annex-B form, as the codec data gave them
ghostvar xB: arr
ghostvar xO: int
ghostvar xN: int
ghostvar xL: int
# size of the NAL length fields
def lenSize(p) = ite(isH(p) && as(p, *avformat.HEVCCodecData).Record.LengthSizeMinusOne > 0, as(p, *avformat.HEVCCodecData).Record.LengthSizeMinusOne, 4)
def direct(s, p) = p.PacketType != avformat.PacketTypeAVCC || !isVideo(s.CodecID)
# the unit at the head of the parameter sets starts with another byte than the packet's
def lacks(d) = ghost(xN) - leadLen(ghost(xB), ghost(xO), ghost(xN)) > 0 && let(n, len(d) - leadLen(bytes(d), off(d), len(d)), n == 0 || sel(ghost(xB), ghost(xO) + leadLen(ghost(xB), ghost(xO), ghost(xN))) != d[len(d) - n])
def asks(s, p) = p.Key && isVideo(s.CodecID) && s.CodecParameters != nil && p.dataAnnexB == nil

# sizes and bytes of the conversion without parameter sets
def h4n(d) = h4size(bytes(d), off(d), off(d) + len(d), 0, true, false, true)
def h4z(d, p) = h4byte(bytes(d), off(d), off(d) + len(d), sel(mem8(), 0), 0, 0, true, false, true, p)
def h5n(d, ls) = h5size(bytes(d), off(d), off(d) + len(d), ls, 0, false)
def h5z(d, ls, p) = h5byte(bytes(d), off(d), off(d) + len(d), ls, sel(mem8(), 0), 0, 0, false, p)
func avformat.AVCCPacket2AnnexB(stream, pkt) (r)
  tags C14
  fuel 0
  requires stream != nil && pkt != nil && pkt.MediaType == utils.AVMediaTypeVideo && len(pkt.Data) <= 70368744177664
  requires okParams(stream.CodecParameters) && lenSize(stream.CodecParameters) <= 4 && pkt.CodecID == stream.CodecID
  modifies pkt.dataAnnexB, cHead, cOff, cStage, cBase, xB, xO, xN
  set entry: xN = 0
  set after avformat.AVCCodecData.AnnexBExtraData: xB = bytes($r)
  set after avformat.AVCCodecData.AnnexBExtraData: xO = off($r)
  set after avformat.AVCCodecData.AnnexBExtraData: xN = len($r)
  set after avformat.HEVCCodecData.AnnexBExtraData: xB = bytes($r)
  set after avformat.HEVCCodecData.AnnexBExtraData: xO = off($r)
  set after avformat.HEVCCodecData.AnnexBExtraData: xN = len($r)
  use entry: h4_size(bytes(pkt.Data), off(pkt.Data), off(pkt.Data) + len(pkt.Data), 0, true, false, true)
  use entry: h5_size(bytes(pkt.Data), off(pkt.Data), off(pkt.Data) + len(pkt.Data), lenSize(stream.CodecParameters), 0, false)
  ensures [kept] old(pkt.dataAnnexB) != nil && (pkt.PacketType == avformat.PacketTypeAVCC || !old(asks(stream, pkt))) ==> same(r, old(pkt.dataAnnexB)) && same(pkt.dataAnnexB, r)
  ensures [same] old(direct(stream, pkt)) && old(pkt.dataAnnexB) == nil && !old(asks(stream, pkt)) ==> same(r, pkt.Data)
  ensures [same] old(direct(stream, pkt)) && old(asks(stream, pkt)) && !lacks(pkt.Data) ==> same(r, pkt.Data)
  ensures [sets] old(direct(stream, pkt)) && old(asks(stream, pkt)) && lacks(pkt.Data) ==> same(pkt.dataAnnexB, r) && fresh(r) && len(r) == ghost(xN) + len(pkt.Data) && all(p, 0, ghost(xN), r[p] == sel(ghost(xB), ghost(xO) + p)) && all(p, ghost(xN), len(r), r[p] == old(pkt.Data[p - (len(r) - len(pkt.Data))]))
  ensures [h264] old(pkt.dataAnnexB) == nil && !old(direct(stream, pkt)) && pkt.CodecID == utils.AVCodecIdH264 ==> same(pkt.dataAnnexB, r) && fresh(r) && len(r) == ghost(xN) + old(h4n(pkt.Data)) && all(p, 0, ghost(xN), r[p] == sel(ghost(xB), ghost(xO) + p)) && all(p, 0, len(r) - ghost(xN), r[ghost(xN) + p] == old(h4z(pkt.Data, p)))
  ensures [h265] old(pkt.dataAnnexB) == nil && !old(direct(stream, pkt)) && pkt.CodecID == utils.AVCodecIdH265 && old(h5v(pkt.Data, lenSize(stream.CodecParameters))) ==> same(pkt.dataAnnexB, r) && fresh(r) && len(r) == ghost(xN) + old(h5n(pkt.Data, lenSize(stream.CodecParameters))) && all(p, 0, ghost(xN), r[p] == sel(ghost(xB), ghost(xO) + p)) && all(p, 0, len(r) - ghost(xN), r[ghost(xN) + p] == old(h5z(pkt.Data, lenSize(stream.CodecParameters), p)))
  ensures [malformed] old(pkt.dataAnnexB) == nil && !old(direct(stream, pkt)) && pkt.CodecID == utils.AVCodecIdH265 && !old(h5v(pkt.Data, lenSize(stream.CodecParameters))) ==> r == nil && pkt.dataAnnexB == nil
  ensures [sets] !pkt.Key || stream.CodecParameters == nil ==> ghost(xN) == 0

  ensures [params] (old(direct(stream, pkt)) && old(asks(stream, pkt)) || !old(direct(stream, pkt)) && pkt.Key && stream.CodecParameters != nil && old(pkt.dataAnnexB) == nil) && isA(stream.CodecParameters) ==> let(c, as(stream.CodecParameters, *avformat.AVCCodecData), c.annexB != nil ==> ghost(xN) == len(c.annexB) && ghost(xO) == off(c.annexB) && ghost(xB) == old(bytes(as(stream.CodecParameters, *avformat.AVCCodecData).annexB)))
  ensures [params] (old(direct(stream, pkt)) && old(asks(stream, pkt)) || !old(direct(stream, pkt)) && pkt.Key && stream.CodecParameters != nil && old(pkt.dataAnnexB) == nil) && isA(stream.CodecParameters) && as(stream.CodecParameters, *avformat.AVCCodecData).annexB == nil ==> catIn(ghost(xB), ghost(xO), old(arrs(as(stream.CodecParameters, *avformat.AVCCodecData).Record.SPSList)), old(offs(as(stream.CodecParameters, *avformat.AVCCodecData).Record.SPSList)), old(lens(as(stream.CodecParameters, *avformat.AVCCodecData).Record.SPSList)), old(mem8()), off(as(stream.CodecParameters, *avformat.AVCCodecData).Record.SPSList), len(as(stream.CodecParameters, *avformat.AVCCodecData).Record.SPSList))
  ensures [params] (old(direct(stream, pkt)) && old(asks(stream, pkt)) || !old(direct(stream, pkt)) && pkt.Key && stream.CodecParameters != nil && old(pkt.dataAnnexB) == nil) && isA(stream.CodecParameters) && as(stream.CodecParameters, *avformat.AVCCodecData).annexB == nil ==> catIn(ghost(xB), ghost(xO) + old(cAll(as(stream.CodecParameters, *avformat.AVCCodecData).Record.SPSList)), old(arrs(as(stream.CodecParameters, *avformat.AVCCodecData).Record.PPSList)), old(offs(as(stream.CodecParameters, *avformat.AVCCodecData).Record.PPSList)), old(lens(as(stream.CodecParameters, *avformat.AVCCodecData).Record.PPSList)), old(mem8()), off(as(stream.CodecParameters, *avformat.AVCCodecData).Record.PPSList), len(as(stream.CodecParameters, *avformat.AVCCodecData).Record.PPSList))
  ensures [params] (old(direct(stream, pkt)) && old(asks(stream, pkt)) || !old(direct(stream, pkt)) && pkt.Key && stream.CodecParameters != nil && old(pkt.dataAnnexB) == nil) && isA(stream.CodecParameters) && as(stream.CodecParameters, *avformat.AVCCodecData).annexB == nil ==> ghost(xO) + ghost(xN) == ghost(xO) + old(cAll(as(stream.CodecParameters, *avformat.AVCCodecData).Record.SPSList)) + old(cAll(as(stream.CodecParameters, *avformat.AVCCodecData).Record.PPSList))
  ensures [params] (old(direct(stream, pkt)) && old(asks(stream, pkt)) || !old(direct(stream, pkt)) && pkt.Key && stream.CodecParameters != nil && old(pkt.dataAnnexB) == nil) && isH(stream.CodecParameters) ==> let(c, as(stream.CodecParameters, *avformat.HEVCCodecData), c.annexB != nil ==> ghost(xN) == len(c.annexB) && ghost(xO) == off(c.annexB) && ghost(xB) == old(bytes(as(stream.CodecParameters, *avformat.HEVCCodecData).annexB)))
  ensures [params] (old(direct(stream, pkt)) && old(asks(stream, pkt)) || !old(direct(stream, pkt)) && pkt.Key && stream.CodecParameters != nil && old(pkt.dataAnnexB) == nil) && isH(stream.CodecParameters) && as(stream.CodecParameters, *avformat.HEVCCodecData).annexB == nil ==> catIn(ghost(xB), ghost(xO), old(arrs(as(stream.CodecParameters, *avformat.HEVCCodecData).Record.VPSList)), old(offs(as(stream.CodecParameters, *avformat.HEVCCodecData).Record.VPSList)), old(lens(as(stream.CodecParameters, *avformat.HEVCCodecData).Record.VPSList)), old(mem8()), off(as(stream.CodecParameters, *avformat.HEVCCodecData).Record.VPSList), len(as(stream.CodecParameters, *avformat.HEVCCodecData).Record.VPSList))
  ensures [params] (old(direct(stream, pkt)) && old(asks(stream, pkt)) || !old(direct(stream, pkt)) && pkt.Key && stream.CodecParameters != nil && old(pkt.dataAnnexB) == nil) && isH(stream.CodecParameters) && as(stream.CodecParameters, *avformat.HEVCCodecData).annexB == nil ==> catIn(ghost(xB), ghost(xO) + old(cAll(as(stream.CodecParameters, *avformat.HEVCCodecData).Record.VPSList)), old(arrs(as(stream.CodecParameters, *avformat.HEVCCodecData).Record.SPSList)), old(offs(as(stream.CodecParameters, *avformat.HEVCCodecData).Record.SPSList)), old(lens(as(stream.CodecParameters, *avformat.HEVCCodecData).Record.SPSList)), old(mem8()), off(as(stream.CodecParameters, *avformat.HEVCCodecData).Record.SPSList), len(as(stream.CodecParameters, *avformat.HEVCCodecData).Record.SPSList))
  ensures [params] (old(direct(stream, pkt)) && old(asks(stream, pkt)) || !old(direct(stream, pkt)) && pkt.Key && stream.CodecParameters != nil && old(pkt.dataAnnexB) == nil) && isH(stream.CodecParameters) && as(stream.CodecParameters, *avformat.HEVCCodecData).annexB == nil ==> catIn(ghost(xB), ghost(xO) + old(cAll(as(stream.CodecParameters, *avformat.HEVCCodecData).Record.VPSList)) + old(cAll(as(stream.CodecParameters, *avformat.HEVCCodecData).Record.SPSList)), old(arrs(as(stream.CodecParameters, *avformat.HEVCCodecData).Record.PPSList)), old(offs(as(stream.CodecParameters, *avformat.HEVCCodecData).Record.PPSList)), old(lens(as(stream.CodecParameters, *avformat.HEVCCodecData).Record.PPSList)), old(mem8()), off(as(stream.CodecParameters, *avformat.HEVCCodecData).Record.PPSList), len(as(stream.CodecParameters, *avformat.HEVCCodecData).Record.PPSList))
  ensures [params] (old(direct(stream, pkt)) && old(asks(stream, pkt)) || !old(direct(stream, pkt)) && pkt.Key && stream.CodecParameters != nil && old(pkt.dataAnnexB) == nil) && isH(stream.CodecParameters) && as(stream.CodecParameters, *avformat.HEVCCodecData).annexB == nil ==> ghost(xO) + ghost(xN) == ghost(xO) + old(cAll(as(stream.CodecParameters, *avformat.HEVCCodecData).Record.VPSList)) + old(cAll(as(stream.CodecParameters, *avformat.HEVCCodecData).Record.SPSList)) + old(cAll(as(stream.CodecParameters, *avformat.HEVCCodecData).Record.PPSList))

func avformat.AnnexBPacket2AVCC(pkt) (r)
  tags C14
  fuel 0
  requires pkt != nil && pkt.MediaType == utils.AVMediaTypeVideo && len(pkt.Data) < 4294967296
  modifies pkt.dataAVCC
  use entry: sc_range(bytes(pkt.Data), off(pkt.Data), aEnd(pkt.Data)), avcc_size(bytes(pkt.Data), aFirst(pkt.Data), aEnd(pkt.Data))
  ensures [same] pkt.PacketType != avformat.PacketTypeAnnexB || !isVideo(pkt.CodecID) ==> same(r, pkt.Data) && same(pkt.dataAVCC, old(pkt.dataAVCC))
  ensures [kept] pkt.PacketType == avformat.PacketTypeAnnexB && isVideo(pkt.CodecID) ==> same(r, pkt.dataAVCC) && (old(pkt.dataAVCC) != nil ==> same(r, old(pkt.dataAVCC)))
  ensures [size] pkt.PacketType == avformat.PacketTypeAnnexB && isVideo(pkt.CodecID) && old(pkt.dataAVCC) == nil ==> fresh(r) && len(r) == old(avccOf(pkt.Data))
  ensures [bytes] pkt.PacketType == avformat.PacketTypeAnnexB && isVideo(pkt.CodecID) && old(pkt.dataAVCC) == nil ==> all(p, 0, len(r), r[p] == old(avccByte(bytes(pkt.Data), aFirst(pkt.Data), aEnd(pkt.Data), p)))

