# HEVC decoder configuration record (C16)

# position after j arrays (type byte, 2-byte count, units)
rec arrPos(A: arr, s: int, j: int): int = ite(j <= 0, s, unitPos(A, arrPos(A, s, j - 1) + 3, be16(A, arrPos(A, s, j - 1) + 1)))
rec arrFit(A: arr, s: int, e: int, n: int): bool = ite(n <= 0, true, s + 3 <= e && unitsFit(A, s + 3, e, be16(A, s + 1)) && arrFit(A, unitPos(A, s + 3, be16(A, s + 1)), e, n - 1))
# units of type t in the first j arrays: how many, and where the m-th is
rec kindN(A: arr, s: int, j: int, t: int): int = ite(j <= 0, 0, kindN(A, s, j - 1, t) + ite(sel(A, arrPos(A, s, j - 1)) % 64 == t, be16(A, arrPos(A, s, j - 1) + 1), 0))
rec kindAt(A: arr, s: int, j: int, t: int, m: int): int = ite(j <= 0, 0, ite(m < kindN(A, s, j - 1, t), kindAt(A, s, j - 1, t, m), unitPos(A, arrPos(A, s, j - 1) + 3, m - kindN(A, s, j - 1, t))))

lemma arr_pos(A: arr, s: int, j: int)
  ensures arrPos(A, s, 0) == s
  ensures j >= 0 ==> arrPos(A, s, j + 1) == unitPos(A, arrPos(A, s, j) + 3, be16(A, arrPos(A, s, j) + 1))
lemma arr_fit(A: arr, s: int, e: int, n: int)
  ensures arrFit(A, s, e, n) == ite(n <= 0, true, s + 3 <= e && unitsFit(A, s + 3, e, be16(A, s + 1)) && arrFit(A, unitPos(A, s + 3, be16(A, s + 1)), e, n - 1))
lemma kind_n(A: arr, s: int, j: int, t: int)
  ensures kindN(A, s, 0, t) == 0
  ensures j >= 0 ==> kindN(A, s, j + 1, t) == kindN(A, s, j, t) + ite(sel(A, arrPos(A, s, j)) % 64 == t, be16(A, arrPos(A, s, j) + 1), 0)
lemma kind_nonneg(A: arr, s: int, j: int, t: int)
  induct j
  use kind_nonneg(A, s, j - 1, t)
  ensures kindN(A, s, j, t) >= 0
# the positions known after j arrays stay, and array j adds its units behind them
lemma kind_keep(A: arr, s: int, j: int, t: int)
  requires j >= 0
  ensures all(m, 0, kindN(A, s, j, t), trig(kindAt(A, s, j + 1, t, m), kindAt(A, s, j + 1, t, m) == kindAt(A, s, j, t, m)))
lemma kind_new(A: arr, s: int, j: int, t: int, i: int)
  requires j >= 0 && i >= 0
  ensures kindAt(A, s, j + 1, t, kindN(A, s, j, t) + i) == unitPos(A, arrPos(A, s, j) + 3, i)

# list L is exactly the first n units of type t, array by array, in j arrays
def kindIs(L, A, s, j, t, n) = len(L) == n && all(k, 0, n, L[k] != nil && unitIs(A, kindAt(A, s, j, t, k), bytes(L[k]), off(L[k]), len(L[k])))
def hvS(d) = off(d) + 23
def hvE(d) = off(d) + len(d)
def hvK(d, t) = kindN(bytes(d), hvS(d), d[22], t)
def hvOK(d) = len(d) >= 23 && arrFit(bytes(d), hvS(d), hvE(d), d[22]) && hvK(d, 32) > 0 && hvK(d, 33) > 0 && hvK(d, 34) > 0
def hvLists(r) = listOK(r.VPSList) && listOK(r.SPSList) && listOK(r.PPSList) && (cap(r.VPSList) == 0 || arr(r.VPSList) != arr(r.SPSList) && arr(r.VPSList) != arr(r.PPSList)) && (cap(r.SPSList) == 0 || arr(r.SPSList) != arr(r.PPSList))

func hevc.HEVCDecoderConfigurationRecord.Unmarshal(r, data) (err)
  tags C16
  opt sep
  fuel 0
  requires len(r.VPSList) == 0 && cap(r.VPSList) == 0 && len(r.SPSList) == 0 && cap(r.SPSList) == 0 && len(r.PPSList) == 0 && cap(r.PPSList) == 0
  modifies r.ConfigurationVersion, r.GeneralProfileSpace, r.GeneralTierFlag, r.GeneralProfileIdc, r.GeneralProfileCompatibilityFlags, r.GeneralConstraintIndicatorFlags, r.GeneralLevelIdc, r.MinSpatialSegmentationIdc, r.ParallelismType, r.ChromaFormat, r.BitDepthLumaMinus8, r.BitDepthChromaMinus8, r.AvgFrameRate, r.ConstantFrameRate, r.NumTemporalLayers, r.TemporalIdNested, r.LengthSizeMinusOne, r.NumOfArrays, r.VPSList, r.SPSList, r.PPSList
  use loop 1 init: arr_pos(old(bytes(data)), (off(data) + 23), 0), kind_n(old(bytes(data)), (off(data) + 23), 0, 32), kind_n(old(bytes(data)), (off(data) + 23), 0, 33), kind_n(old(bytes(data)), (off(data) + 23), 0, 34)
  use loop 1: arr_pos(old(bytes(data)), (off(data) + 23), i), arr_fit(old(bytes(data)), arrPos(old(bytes(data)), (off(data) + 23), i), (off(data) + len(data)), old(data[22]) - i), kind_n(old(bytes(data)), (off(data) + 23), i, 32), kind_keep(old(bytes(data)), (off(data) + 23), i, 32), kind_nonneg(old(bytes(data)), (off(data) + 23), i, 32), kind_n(old(bytes(data)), (off(data) + 23), i, 33), kind_keep(old(bytes(data)), (off(data) + 23), i, 33), kind_nonneg(old(bytes(data)), (off(data) + 23), i, 33), kind_n(old(bytes(data)), (off(data) + 23), i, 34), kind_keep(old(bytes(data)), (off(data) + 23), i, 34), kind_nonneg(old(bytes(data)), (off(data) + 23), i, 34)
  loop 1
    inv len(data) >= 23 && r.NumOfArrays == old(data[22]) && 0 <= i && i <= r.NumOfArrays
    inv bbOK(as(reader, *bufio.bytesReader)) && same(as(reader, *bufio.bytesReader).data, data) && fresh(reader)
    inv [frame] bytes(data) == old(bytes(data))
    inv [lists] hvLists(r)
    inv [fit] arrFit(old(bytes(data)), (off(data) + 23), (off(data) + len(data)), old(data[22])) == arrFit(old(bytes(data)), arrPos(old(bytes(data)), (off(data) + 23), i), (off(data) + len(data)), old(data[22]) - i)
    inv [pos] off(data) + as(reader, *bufio.bytesReader).offset == arrPos(old(bytes(data)), (off(data) + 23), i)
    inv [VPSList] kindIs(r.VPSList, old(bytes(data)), (off(data) + 23), i, 32, kindN(old(bytes(data)), (off(data) + 23), i, 32))
    inv [SPSList] kindIs(r.SPSList, old(bytes(data)), (off(data) + 23), i, 33, kindN(old(bytes(data)), (off(data) + 23), i, 33))
    inv [PPSList] kindIs(r.PPSList, old(bytes(data)), (off(data) + 23), i, 34, kindN(old(bytes(data)), (off(data) + 23), i, 34))
    decreases r.NumOfArrays - i
  use loop 2 init: unit_pos(old(bytes(data)), (arrPos(old(bytes(data)), (off(data) + 23), i) + 3), 0)
  use loop 2: unit_pos(old(bytes(data)), (arrPos(old(bytes(data)), (off(data) + 23), i) + 3), j), units_fit(old(bytes(data)), unitPos(old(bytes(data)), (arrPos(old(bytes(data)), (off(data) + 23), i) + 3), j), (off(data) + len(data)), naluCount - j), kind_new(old(bytes(data)), (off(data) + 23), i, 32, j), kind_nonneg(old(bytes(data)), (off(data) + 23), i, 32), kind_new(old(bytes(data)), (off(data) + 23), i, 33, j), kind_nonneg(old(bytes(data)), (off(data) + 23), i, 33), kind_new(old(bytes(data)), (off(data) + 23), i, 34, j), kind_nonneg(old(bytes(data)), (off(data) + 23), i, 34)
  loop 2
    inv len(data) >= 23 && r.NumOfArrays == old(data[22]) && 0 <= i && i < r.NumOfArrays
    inv bbOK(as(reader, *bufio.bytesReader)) && same(as(reader, *bufio.bytesReader).data, data) && fresh(reader)
    inv [frame] bytes(data) == old(bytes(data))
    inv [lists] hvLists(r)
    inv [fit] arrFit(old(bytes(data)), (off(data) + 23), (off(data) + len(data)), old(data[22])) == arrFit(old(bytes(data)), arrPos(old(bytes(data)), (off(data) + 23), i), (off(data) + len(data)), old(data[22]) - i)
    inv arrPos(old(bytes(data)), (off(data) + 23), i) + 3 <= (off(data) + len(data)) && naluCount == be16(old(bytes(data)), arrPos(old(bytes(data)), (off(data) + 23), i) + 1) && headerType == sel(old(bytes(data)), arrPos(old(bytes(data)), (off(data) + 23), i)) % 64 && 0 <= j && j <= naluCount
    inv [pos] off(data) + as(reader, *bufio.bytesReader).offset == unitPos(old(bytes(data)), (arrPos(old(bytes(data)), (off(data) + 23), i) + 3), j)
    inv [fit2] unitsFit(old(bytes(data)), (arrPos(old(bytes(data)), (off(data) + 23), i) + 3), (off(data) + len(data)), naluCount) == unitsFit(old(bytes(data)), unitPos(old(bytes(data)), (arrPos(old(bytes(data)), (off(data) + 23), i) + 3), j), (off(data) + len(data)), naluCount - j)
    inv [VPSList] kindIs(r.VPSList, old(bytes(data)), (off(data) + 23), i + 1, 32, kindN(old(bytes(data)), (off(data) + 23), i, 32) + ite(headerType == 32, j, 0))
    inv [SPSList] kindIs(r.SPSList, old(bytes(data)), (off(data) + 23), i + 1, 33, kindN(old(bytes(data)), (off(data) + 23), i, 33) + ite(headerType == 33, j, 0))
    inv [PPSList] kindIs(r.PPSList, old(bytes(data)), (off(data) + 23), i + 1, 34, kindN(old(bytes(data)), (off(data) + 23), i, 34) + ite(headerType == 34, j, 0))
    decreases naluCount - j
  assert loop 2 back: all(k, 0, kindN(old(bytes(data)), (off(data) + 23), i, 32) + ite(headerType == 32, j - 1, 0), r.VPSList[k] != nil && unitIs(old(bytes(data)), kindAt(old(bytes(data)), (off(data) + 23), i + 1, 32, k), bytes(r.VPSList[k]), off(r.VPSList[k]), len(r.VPSList[k])))
  assert loop 2 back: headerType == 32 ==> let(u, r.VPSList[len(r.VPSList) - 1], let(p, unitPos(old(bytes(data)), (arrPos(old(bytes(data)), (off(data) + 23), i) + 3), j - 1), u != nil && len(u) == 4 + be16(old(bytes(data)), p) && u[0] == 0 && u[1] == 0 && u[2] == 0 && u[3] == 1))
  assert loop 2 back: headerType == 32 ==> let(u, r.VPSList[len(r.VPSList) - 1], let(p, unitPos(old(bytes(data)), (arrPos(old(bytes(data)), (off(data) + 23), i) + 3), j - 1), all(q, off(u) + 4, off(u) + len(u), sel(bytes(u), q) == sel(old(bytes(data)), p + 2 + (q - off(u) - 4)))))
  use loop 2 back: headerType == 32 ==> unit_is(old(bytes(data)), unitPos(old(bytes(data)), (arrPos(old(bytes(data)), (off(data) + 23), i) + 3), j - 1), bytes(r.VPSList[len(r.VPSList) - 1]), off(r.VPSList[len(r.VPSList) - 1]), len(r.VPSList[len(r.VPSList) - 1]))
  assert loop 2 back: headerType == 32 ==> let(k, len(r.VPSList) - 1, k == kindN(old(bytes(data)), (off(data) + 23), i, 32) + j - 1 && unitIs(old(bytes(data)), kindAt(old(bytes(data)), (off(data) + 23), i + 1, 32, k), bytes(r.VPSList[k]), off(r.VPSList[k]), len(r.VPSList[k])))
  assert loop 2 back: all(k, 0, kindN(old(bytes(data)), (off(data) + 23), i, 33) + ite(headerType == 33, j - 1, 0), r.SPSList[k] != nil && unitIs(old(bytes(data)), kindAt(old(bytes(data)), (off(data) + 23), i + 1, 33, k), bytes(r.SPSList[k]), off(r.SPSList[k]), len(r.SPSList[k])))
  assert loop 2 back: headerType == 33 ==> let(u, r.SPSList[len(r.SPSList) - 1], let(p, unitPos(old(bytes(data)), (arrPos(old(bytes(data)), (off(data) + 23), i) + 3), j - 1), u != nil && len(u) == 4 + be16(old(bytes(data)), p) && u[0] == 0 && u[1] == 0 && u[2] == 0 && u[3] == 1))
  assert loop 2 back: headerType == 33 ==> let(u, r.SPSList[len(r.SPSList) - 1], let(p, unitPos(old(bytes(data)), (arrPos(old(bytes(data)), (off(data) + 23), i) + 3), j - 1), all(q, off(u) + 4, off(u) + len(u), sel(bytes(u), q) == sel(old(bytes(data)), p + 2 + (q - off(u) - 4)))))
  use loop 2 back: headerType == 33 ==> unit_is(old(bytes(data)), unitPos(old(bytes(data)), (arrPos(old(bytes(data)), (off(data) + 23), i) + 3), j - 1), bytes(r.SPSList[len(r.SPSList) - 1]), off(r.SPSList[len(r.SPSList) - 1]), len(r.SPSList[len(r.SPSList) - 1]))
  assert loop 2 back: headerType == 33 ==> let(k, len(r.SPSList) - 1, k == kindN(old(bytes(data)), (off(data) + 23), i, 33) + j - 1 && unitIs(old(bytes(data)), kindAt(old(bytes(data)), (off(data) + 23), i + 1, 33, k), bytes(r.SPSList[k]), off(r.SPSList[k]), len(r.SPSList[k])))
  assert loop 2 back: all(k, 0, kindN(old(bytes(data)), (off(data) + 23), i, 34) + ite(headerType == 34, j - 1, 0), r.PPSList[k] != nil && unitIs(old(bytes(data)), kindAt(old(bytes(data)), (off(data) + 23), i + 1, 34, k), bytes(r.PPSList[k]), off(r.PPSList[k]), len(r.PPSList[k])))
  assert loop 2 back: headerType == 34 ==> let(u, r.PPSList[len(r.PPSList) - 1], let(p, unitPos(old(bytes(data)), (arrPos(old(bytes(data)), (off(data) + 23), i) + 3), j - 1), u != nil && len(u) == 4 + be16(old(bytes(data)), p) && u[0] == 0 && u[1] == 0 && u[2] == 0 && u[3] == 1))
  assert loop 2 back: headerType == 34 ==> let(u, r.PPSList[len(r.PPSList) - 1], let(p, unitPos(old(bytes(data)), (arrPos(old(bytes(data)), (off(data) + 23), i) + 3), j - 1), all(q, off(u) + 4, off(u) + len(u), sel(bytes(u), q) == sel(old(bytes(data)), p + 2 + (q - off(u) - 4)))))
  use loop 2 back: headerType == 34 ==> unit_is(old(bytes(data)), unitPos(old(bytes(data)), (arrPos(old(bytes(data)), (off(data) + 23), i) + 3), j - 1), bytes(r.PPSList[len(r.PPSList) - 1]), off(r.PPSList[len(r.PPSList) - 1]), len(r.PPSList[len(r.PPSList) - 1]))
  assert loop 2 back: headerType == 34 ==> let(k, len(r.PPSList) - 1, k == kindN(old(bytes(data)), (off(data) + 23), i, 34) + j - 1 && unitIs(old(bytes(data)), kindAt(old(bytes(data)), (off(data) + 23), i + 1, 34, k), bytes(r.PPSList[k]), off(r.PPSList[k]), len(r.PPSList[k])))
  ensures [valid] (err == nil) <==> old(hvOK(data))
  ensures [header] err == nil ==> r.ConfigurationVersion == old(data[0]) && r.GeneralProfileSpace == old(data[1]) / 64 && r.GeneralTierFlag == old(data[1]) / 32 % 2 && r.GeneralProfileIdc == old(data[1]) % 32
  ensures [header] err == nil ==> r.GeneralProfileCompatibilityFlags == be32(old(bytes(data)), off(data) + 2) && r.GeneralConstraintIndicatorFlags == be32(old(bytes(data)), off(data) + 6) * 65536 + be16(old(bytes(data)), off(data) + 10) && r.GeneralLevelIdc == old(data[12])
  ensures [header] err == nil ==> r.MinSpatialSegmentationIdc == be16(old(bytes(data)), off(data) + 13) % 4096 && r.ParallelismType == old(data[15]) % 4 && r.ChromaFormat == old(data[16]) % 4 && r.BitDepthLumaMinus8 == old(data[17]) % 8 && r.BitDepthChromaMinus8 == old(data[18]) % 8
  ensures [header] err == nil ==> r.AvgFrameRate == be16(old(bytes(data)), off(data) + 19) && r.ConstantFrameRate == old(data[21]) / 64 && r.NumTemporalLayers == old(data[21]) / 8 % 8 && r.TemporalIdNested == old(data[21]) / 4 % 2 && r.LengthSizeMinusOne == old(data[21]) % 4 + 1 && r.NumOfArrays == old(data[22])
  ensures [VPSList] err == nil ==> kindIs(r.VPSList, old(bytes(data)), hvS(data), old(data[22]), 32, old(hvK(data, 32)))
  ensures [SPSList] err == nil ==> kindIs(r.SPSList, old(bytes(data)), hvS(data), old(data[22]), 33, old(hvK(data, 33)))
  ensures [PPSList] err == nil ==> kindIs(r.PPSList, old(bytes(data)), hvS(data), old(data[22]), 34, old(hvK(data, 34)))
  ensures [alloc] err == nil ==> hvLists(r)

# --- Marshal
ghostvar hvStage: int
ghostvar hvBase: int
ghostvar hvSize: int

def hvType(L) = sel(bytes(L[0]), stripO(L, 0)) / 2 % 64
# 1 to 65535 units, the first not empty, each of at most 65535 bytes
def hvMOK(L) = 1 <= len(L) && len(L) <= 65535 && stripN(L, 0) >= 1 && all(k, 0, len(L), unitFits(L, k, 0))
lemma hv_acc(A: arr, s: int, e: int, p: int, q: int)
  requires unitPos(A, s + 3, be16(A, s + 1)) == p && unitPos(A, p + 3, be16(A, p + 1)) == q && unitPos(A, q + 3, be16(A, q + 1)) == e
  requires s + 3 <= p && p + 3 <= q && q + 3 <= e
  requires unitsFit(A, s + 3, e, be16(A, s + 1)) && unitsFit(A, p + 3, e, be16(A, p + 1)) && unitsFit(A, q + 3, e, be16(A, q + 1))
  use arr_pos(A, s, 0), arr_pos(A, s, 1), arr_pos(A, s, 2), arr_fit(A, s, e, 3), arr_fit(A, p, e, 2), arr_fit(A, q, e, 1), arr_fit(A, e, e, 0)
  use kind_n(A, s, 0, 32), kind_n(A, s, 1, 32), kind_n(A, s, 2, 32), kind_n(A, s, 0, 33), kind_n(A, s, 1, 33), kind_n(A, s, 2, 33), kind_n(A, s, 0, 34), kind_n(A, s, 1, 34), kind_n(A, s, 2, 34)
  ensures arrPos(A, s, 1) == p && arrPos(A, s, 2) == q && arrPos(A, s, 3) == e && arrFit(A, s, e, 3)
  ensures sel(A, s) % 64 == 32 && sel(A, p) % 64 == 33 && sel(A, q) % 64 == 34 ==> kindN(A, s, 3, 32) == be16(A, s + 1) && kindN(A, s, 3, 33) == be16(A, p + 1) && kindN(A, s, 3, 34) == be16(A, q + 1)

def hvT(L) = tP(L, len(L))
func hevc.HEVCDecoderConfigurationRecord.Marshal(r0, vpsList, spsList, ppsList) (r, err)
  tags C16
  opt sep
  fuel 0
  opt nilrecv
  modifies mHead, hvStage, hvBase, hvSize
  requires okList(vpsList) && tP(vpsList, len(vpsList)) <= 70368744177664
  requires okList(spsList) && tP(spsList, len(spsList)) <= 70368744177664
  requires okList(ppsList) && tP(ppsList, len(ppsList)) <= 70368744177664
  set entry: hvStage = 0
  use entry: t_mono(lens(vpsList), off(vpsList), 0, len(vpsList)), t_step(lens(vpsList), off(vpsList), 0)
  use entry: t_mono(lens(spsList), off(spsList), 0, len(spsList)), t_step(lens(spsList), off(spsList), 0)
  use entry: t_mono(lens(ppsList), off(ppsList), 0, len(ppsList)), t_step(lens(ppsList), off(ppsList), 0)
  loop 1
    unroll
  set loop 2 init: hvSize = size
  use loop 2: t_step(lens(list), off(list), iter), t_mono(lens(list), off(list), iter + 1, len(list)), t_mono(lens(list), off(list), 0, iter), t_step(lens(list), off(list), 0)
  loop 2
    inv size == ghost(hvSize) + tP(list, iter)
  set loop 3 init: hvBase = off(bytes) + W(writer).offset
  use loop 3 init: m_step(old(arrs(data)), old(offs(data)), old(lens(data)), old(mem8()), off(data), 0), uia_zero(bytes(bytes), off(bytes) + W(writer).offset, old(arrs(data)), old(offs(data)), old(lens(data)), old(mem8()), off(data))
  use loop 3 init: mt_le(old(arrs(vpsList)), old(offs(vpsList)), old(lens(vpsList)), old(mem8()), off(vpsList), len(vpsList))
  use loop 3 init: mt_le(old(arrs(spsList)), old(offs(spsList)), old(lens(spsList)), old(mem8()), off(spsList), len(spsList))
  use loop 3 init: mt_le(old(arrs(ppsList)), old(offs(ppsList)), old(lens(ppsList)), old(mem8()), off(ppsList), len(ppsList))
  use loop 3 init: uia_frame(ghost(mHead), bytes(bytes), off(bytes) + 26, old(arrs(vpsList)), old(offs(vpsList)), old(lens(vpsList)), old(mem8()), off(vpsList), len(vpsList))
  use loop 3 init: uia_frame(ghost(mHead), bytes(bytes), off(bytes) + 29 + old(mP(vpsList, len(vpsList))), old(arrs(spsList)), old(offs(spsList)), old(lens(spsList)), old(mem8()), off(spsList), len(spsList))
  use loop 3: m_step(old(arrs(data)), old(offs(data)), old(lens(data)), old(mem8()), off(data), iter), t_mono(old(lens(data)), off(data), iter + 1, len(data)), mt_le(old(arrs(data)), old(offs(data)), old(lens(data)), old(mem8()), off(data), iter + 1), mt_le(old(arrs(data)), old(offs(data)), old(lens(data)), old(mem8()), off(data), iter)
  loop 3
    inv wOK(writer) && same(W(writer).data, bytes) && fresh(bytes) && fresh(writer) && len(bytes) == 32 + old(hvT(vpsList)) + old(hvT(spsList)) + old(hvT(ppsList))
    inv off(bytes) + W(writer).offset == ghost(hvBase) + old(mP(data, iter))
    inv [fits] all(k, 0, iter, old(unitFits(data, k, 0)))
    inv [units] uIn(bytes(bytes), ghost(hvBase), data, iter)
    inv [vps] ghost(hvStage) >= 1 ==> uIn(bytes(bytes), off(bytes) + 26, vpsList, len(vpsList))
    inv [sps] ghost(hvStage) >= 2 ==> uIn(bytes(bytes), off(bytes) + 29 + old(mP(vpsList, len(vpsList))), spsList, len(spsList))
    inv [fixed] bytes[0] == 1 && bytes[21] == 3 && bytes[22] == 3 && all(q, 1, 21, bytes[q] == 0)
    inv [vpsHead] sel(bytes(bytes), off(bytes) + 23) == old(hvType(vpsList)) && be16(bytes(bytes), off(bytes) + 24) == len(vpsList)
    inv [spsHead] ghost(hvStage) >= 1 ==> let(c, off(bytes) + 29 + old(mP(vpsList, len(vpsList))), sel(bytes(bytes), c - 3) == old(hvType(spsList)) && be16(bytes(bytes), c - 2) == len(spsList))
    inv [ppsHead] ghost(hvStage) >= 2 ==> let(c, off(bytes) + 32 + old(mP(vpsList, len(vpsList))) + old(mP(spsList, len(spsList))), sel(bytes(bytes), c - 3) == old(hvType(ppsList)) && be16(bytes(bytes), c - 2) == len(ppsList))
  set loop 3 body: mHead = bytes(bytes)
  assert loop 3 back: all(k, 0, iter - 1, old(unitFits(data, k, 0)))
  assert loop 3 back: old(unitFits(data, iter - 1, 0))
  assert loop 3 back: all(q, off(bytes), ghost(hvBase) + old(mP(data, iter - 1)), sel(bytes(bytes), q) == sel(ghost(mHead), q))
  assert loop 3 back: be16(bytes(bytes), ghost(hvBase) + old(mP(data, iter - 1))) == old(stripN(data, iter - 1))
  assert loop 3 back: bytes(data[iter - 1]) == old(bytes(data[iter - 1]))
  assert loop 3 back: let(b, ghost(hvBase) + old(mP(data, iter - 1)) + 2, all(q, b, b + old(stripN(data, iter - 1)), sel(bytes(bytes), q) == old(sel(bytes(data[iter - 1]), stripO(data, iter - 1) + (q - b)))))
  use loop 3 back: uia_frame(ghost(mHead), bytes(bytes), ghost(hvBase), old(arrs(data)), old(offs(data)), old(lens(data)), old(mem8()), off(data), iter - 1), uia_step(bytes(bytes), ghost(hvBase), old(arrs(data)), old(offs(data)), old(lens(data)), old(mem8()), off(data), iter - 1)
  use loop 3 back: uia_frame(ghost(mHead), bytes(bytes), off(bytes) + 26, old(arrs(vpsList)), old(offs(vpsList)), old(lens(vpsList)), old(mem8()), off(vpsList), len(vpsList))
  use loop 3 back: uia_frame(ghost(mHead), bytes(bytes), off(bytes) + 29 + old(mP(vpsList, len(vpsList))), old(arrs(spsList)), old(offs(spsList)), old(lens(spsList)), old(mem8()), off(spsList), len(spsList))
  set loop 3 exit: mHead = bytes(bytes)
  set loop 3 exit: hvStage = ghost(hvStage) + 1
  use exit: uia_frame(ghost(mHead), bytes(r), off(r) + 26, old(arrs(vpsList)), old(offs(vpsList)), old(lens(vpsList)), old(mem8()), off(vpsList), len(vpsList)), mt_le(old(arrs(vpsList)), old(offs(vpsList)), old(lens(vpsList)), old(mem8()), off(vpsList), len(vpsList))
  use exit: uia_frame(ghost(mHead), bytes(r), off(r) + 29 + old(mP(vpsList, len(vpsList))), old(arrs(spsList)), old(offs(spsList)), old(lens(spsList)), old(mem8()), off(spsList), len(spsList)), mt_le(old(arrs(spsList)), old(offs(spsList)), old(lens(spsList)), old(mem8()), off(spsList), len(spsList))
  use exit: uia_frame(ghost(mHead), bytes(r), off(r) + 32 + old(mP(vpsList, len(vpsList))) + old(mP(spsList, len(spsList))), old(arrs(ppsList)), old(offs(ppsList)), old(lens(ppsList)), old(mem8()), off(ppsList), len(ppsList)), mt_le(old(arrs(ppsList)), old(offs(ppsList)), old(lens(ppsList)), old(mem8()), off(ppsList), len(ppsList))
  ensures [valid] (err == nil) <==> old(hvMOK(vpsList)) && old(hvMOK(spsList)) && old(hvMOK(ppsList))
  ensures [none] err != nil ==> len(r) == 0
  ensures [size] err == nil ==> fresh(r) && len(r) == 32 + old(mP(vpsList, len(vpsList))) + old(mP(spsList, len(spsList))) + old(mP(ppsList, len(ppsList)))
  ensures [fixed] err == nil ==> r[0] == 1 && r[21] == 3 && r[22] == 3 && all(q, 1, 21, r[q] == 0)
  ensures [vpsHead] err == nil ==> let(c, off(r) + 26, sel(bytes(r), c - 3) == old(hvType(vpsList)) && be16(bytes(r), c - 2) == len(vpsList))
  ensures [spsHead] err == nil ==> let(c, off(r) + 29 + old(mP(vpsList, len(vpsList))), sel(bytes(r), c - 3) == old(hvType(spsList)) && be16(bytes(r), c - 2) == len(spsList))
  ensures [ppsHead] err == nil ==> let(c, off(r) + 32 + old(mP(vpsList, len(vpsList))) + old(mP(spsList, len(spsList))), sel(bytes(r), c - 3) == old(hvType(ppsList)) && be16(bytes(r), c - 2) == len(ppsList))
  ensures [vps] err == nil ==> uIn(bytes(r), off(r) + 26, vpsList, len(vpsList))
  ensures [sps] err == nil ==> uIn(bytes(r), off(r) + 29 + old(mP(vpsList, len(vpsList))), spsList, len(spsList))
  ensures [pps] err == nil ==> uIn(bytes(r), off(r) + 32 + old(mP(vpsList, len(vpsList))) + old(mP(spsList, len(spsList))), ppsList, len(ppsList))
  use exit: uia_pos(bytes(r), off(r) + 26, old(arrs(vpsList)), old(offs(vpsList)), old(lens(vpsList)), old(mem8()), off(vpsList), len(vpsList), len(vpsList)), m_step(old(arrs(vpsList)), old(offs(vpsList)), old(lens(vpsList)), old(mem8()), off(vpsList), 0), uia_fit(bytes(r), off(r) + 26, off(r) + len(r), old(arrs(vpsList)), old(offs(vpsList)), old(lens(vpsList)), old(mem8()), off(vpsList), 0, len(vpsList))
  use exit: uia_pos(bytes(r), off(r) + 29 + old(mP(vpsList, len(vpsList))), old(arrs(spsList)), old(offs(spsList)), old(lens(spsList)), old(mem8()), off(spsList), len(spsList), len(spsList)), m_step(old(arrs(spsList)), old(offs(spsList)), old(lens(spsList)), old(mem8()), off(spsList), 0), uia_fit(bytes(r), off(r) + 29 + old(mP(vpsList, len(vpsList))), off(r) + len(r), old(arrs(spsList)), old(offs(spsList)), old(lens(spsList)), old(mem8()), off(spsList), 0, len(spsList))
  use exit: uia_pos(bytes(r), off(r) + 32 + old(mP(vpsList, len(vpsList))) + old(mP(spsList, len(spsList))), old(arrs(ppsList)), old(offs(ppsList)), old(lens(ppsList)), old(mem8()), off(ppsList), len(ppsList), len(ppsList)), m_step(old(arrs(ppsList)), old(offs(ppsList)), old(lens(ppsList)), old(mem8()), off(ppsList), 0), uia_fit(bytes(r), off(r) + 32 + old(mP(vpsList, len(vpsList))) + old(mP(spsList, len(spsList))), off(r) + len(r), old(arrs(ppsList)), old(offs(ppsList)), old(lens(ppsList)), old(mem8()), off(ppsList), 0, len(ppsList))
  use exit: hv_acc(bytes(r), off(r) + 23, off(r) + len(r), off(r) + 29 + old(mP(vpsList, len(vpsList))) - 3, off(r) + 32 + old(mP(vpsList, len(vpsList))) + old(mP(spsList, len(spsList))) - 3)
  ensures [back] err == nil ==> arrPos(bytes(r), off(r) + 23, 1) == off(r) + 29 + old(mP(vpsList, len(vpsList))) - 3
  ensures [back] err == nil ==> arrPos(bytes(r), off(r) + 23, 2) == off(r) + 32 + old(mP(vpsList, len(vpsList))) + old(mP(spsList, len(spsList))) - 3
  ensures [back] err == nil ==> arrPos(bytes(r), off(r) + 23, 3) == off(r) + len(r)
  ensures [accepted] err == nil ==> arrFit(bytes(r), hvS(r), hvE(r), 3)
  ensures [accepted] err == nil && old(hvType(vpsList)) == 32 && old(hvType(spsList)) == 33 && old(hvType(ppsList)) == 34 ==> hvK(r, 32) == len(vpsList)
  ensures [accepted] err == nil && old(hvType(vpsList)) == 32 && old(hvType(spsList)) == 33 && old(hvType(ppsList)) == 34 ==> hvK(r, 33) == len(spsList)
  ensures [accepted] err == nil && old(hvType(vpsList)) == 32 && old(hvType(spsList)) == 33 && old(hvType(ppsList)) == 34 ==> hvK(r, 34) == len(ppsList)
  ensures [accepted] err == nil && old(hvType(vpsList)) == 32 && old(hvType(spsList)) == 33 && old(hvType(ppsList)) == 34 ==> hvOK(r)

# --- Annex-B form: the units of type 32, then 33, then 34, each behind a 4-byte start code ---
rec kLen(A: arr, s: int, j: int, t: int, m: int): int = ite(m <= 0, 0, kLen(A, s, j, t, m - 1) + 4 + be16(A, kindAt(A, s, j, t, m - 1)))
rec kIn(B: arr, b: int, A: arr, s: int, j: int, t: int, n: int): bool = all(k, 0, n, trig(kindAt(A, s, j, t, k), unitIs(A, kindAt(A, s, j, t, k), B, b + kLen(A, s, j, t, k), 4 + be16(A, kindAt(A, s, j, t, k)))))
lemma klen_step(A: arr, s: int, j: int, t: int, m: int)
  ensures kLen(A, s, j, t, 0) == 0
  ensures m >= 0 ==> kLen(A, s, j, t, m + 1) == kLen(A, s, j, t, m) + 4 + be16(A, kindAt(A, s, j, t, m))
lemma klen_keep(A: arr, s: int, j: int, t: int, m: int)
  requires j >= 0 && m <= kindN(A, s, j, t)
  induct m
  use klen_keep(A, s, j, t, m - 1), klen_step(A, s, j, t, m - 1), klen_step(A, s, j + 1, t, m - 1), klen_step(A, s, j, t, 0), klen_step(A, s, j + 1, t, 0), kind_keep(A, s, j, t)
  ensures kLen(A, s, j + 1, t, m) == kLen(A, s, j, t, m)
lemma klen_new(A: arr, s: int, j: int, t: int, i: int)
  requires j >= 0 && i >= 0
  induct i
  use klen_new(A, s, j, t, i - 1), klen_step(A, s, j + 1, t, kindN(A, s, j, t) + i - 1), kind_nonneg(A, s, j, t), kind_new(A, s, j, t, i - 1), unit_pos(A, arrPos(A, s, j) + 3, i - 1), unit_pos(A, arrPos(A, s, j) + 3, 0), klen_keep(A, s, j, t, kindN(A, s, j, t))
  ensures kLen(A, s, j + 1, t, kindN(A, s, j, t) + i) == kLen(A, s, j, t, kindN(A, s, j, t)) + abLen(A, arrPos(A, s, j) + 3, i)
lemma klen_order(A: arr, s: int, j: int, t: int, i: int, n: int)
  requires 0 <= i && i <= n
  induct n - i
  use klen_order(A, s, j, t, i, n - 1), klen_step(A, s, j, t, n - 1), klen_step(A, s, j, t, 0)
  ensures kLen(A, s, j, t, i) + 4 * (n - i) <= kLen(A, s, j, t, n)
lemma klen_all(A: arr, s: int, j: int, t: int, n: int)
  requires n >= 0
  use forall(k: int, klen_order(A, s, j, t, 0, k)), forall(k: int, klen_order(A, s, j, t, k + 1, n)), forall(k: int, klen_step(A, s, j, t, k))
  ensures all(k, 0, n, trig(kindAt(A, s, j, t, k), 0 <= kLen(A, s, j, t, k) && kLen(A, s, j, t, k) + 4 + be16(A, kindAt(A, s, j, t, k)) <= kLen(A, s, j, t, n)))
lemma kin_zero(B: arr, b: int, A: arr, s: int, j: int, t: int)
  ensures kIn(B, b, A, s, j, t, 0)
lemma kin_frame(B: arr, C: arr, b: int, A: arr, s: int, j: int, t: int, n: int)
  requires n >= 0 && kIn(B, b, A, s, j, t, n) && all(q, b, b + kLen(A, s, j, t, n), sel(C, q) == sel(B, q))
  use klen_all(A, s, j, t, n), forall(k: int, unit_move(A, kindAt(A, s, j, t, k), B, b + kLen(A, s, j, t, k), 4 + be16(A, kindAt(A, s, j, t, k)), C, b + kLen(A, s, j, t, k)))
  ensures kIn(C, b, A, s, j, t, n)
lemma kin_step(B: arr, b: int, A: arr, s: int, j: int, t: int, n: int)
  requires n >= 0 && kIn(B, b, A, s, j, t, n) && unitIs(A, kindAt(A, s, j, t, n), B, b + kLen(A, s, j, t, n), 4 + be16(A, kindAt(A, s, j, t, n)))
  ensures kIn(B, b, A, s, j, t, n + 1)
def kAll(A, s, j, t) = kLen(A, s, j, t, kindN(A, s, j, t))
lemma k_one(A: arr, s: int, j: int, t: int)
  requires j >= 0
  use klen_keep(A, s, j, t, kindN(A, s, j, t)), klen_new(A, s, j, t, be16(A, arrPos(A, s, j) + 1)), kind_n(A, s, j, t), u_order(A, arrPos(A, s, j) + 3, be16(A, arrPos(A, s, j) + 1))
  ensures kAll(A, s, j + 1, t) == kAll(A, s, j, t) + ite(sel(A, arrPos(A, s, j)) % 64 == t, abLen(A, arrPos(A, s, j) + 3, be16(A, arrPos(A, s, j) + 1)), 0)
# the Annex-B form is at most twice as long as the arrays
lemma k_bound(A: arr, s: int, j: int)
  induct j
  use k_bound(A, s, j - 1), k_one(A, s, j - 1, 32), k_one(A, s, j - 1, 33), k_one(A, s, j - 1, 34), arr_pos(A, s, j - 1), u_order(A, arrPos(A, s, j - 1) + 3, be16(A, arrPos(A, s, j - 1) + 1))
  use kind_n(A, s, 0, 32), kind_n(A, s, 0, 33), kind_n(A, s, 0, 34), klen_step(A, s, 0, 32, 0), klen_step(A, s, 0, 33, 0), klen_step(A, s, 0, 34, 0), arr_pos(A, s, 0)
  ensures j >= 0 ==> kAll(A, s, j, 32) + kAll(A, s, j, 33) + kAll(A, s, j, 34) <= 2 * (arrPos(A, s, j) - s)
lemma arr_in(A: arr, s: int, e: int, n: int, j: int)
  requires arrFit(A, s, e, n) && s <= e && 0 <= j && j <= n
  induct j
  use arr_in(A, s, e, n, j - 1), arr_pos(A, s, j - 1), arr_pos(A, s, 0), arr_fit(A, arrPos(A, s, j - 1), e, n - j + 1), fit_pos(A, arrPos(A, s, j - 1) + 3, e, be16(A, arrPos(A, s, j - 1) + 1), be16(A, arrPos(A, s, j - 1) + 1))
  ensures arrPos(A, s, j) <= e && arrFit(A, arrPos(A, s, j), e, n - j)

func hevc.ExtraDataToAnnexB(data) (r, err)
  tags C16 C28
  fuel 0
  modifies mHead
  requires len(data) <= 70368744177664
  use loop 1 init: k_bound(old(bytes(data)), old(hvS(data)), old(data[22])), arr_in(old(bytes(data)), old(hvS(data)), old(hvE(data)), old(data[22]), old(data[22]))
  use loop 1 init: klen_order(old(bytes(data)), old(hvS(data)), old(data[22]), 32, 0, old(hvK(data, 32))), klen_step(old(bytes(data)), old(hvS(data)), old(data[22]), 32, 0)
  use loop 1 init: klen_order(old(bytes(data)), old(hvS(data)), old(data[22]), 33, 0, old(hvK(data, 33))), klen_step(old(bytes(data)), old(hvS(data)), old(data[22]), 33, 0)
  use loop 1 init: klen_order(old(bytes(data)), old(hvS(data)), old(data[22]), 34, 0, old(hvK(data, 34))), klen_step(old(bytes(data)), old(hvS(data)), old(data[22]), 34, 0)
  use loop 1 init: kin_zero(bytes(bytes), off(bytes), old(bytes(data)), old(hvS(data)), old(data[22]), 32), klen_step(old(bytes(data)), old(hvS(data)), old(data[22]), 32, 0)
  use loop 1: klen_step(old(bytes(data)), old(hvS(data)), old(data[22]), 32, iter), klen_order(old(bytes(data)), old(hvS(data)), old(data[22]), 32, 0, iter), klen_order(old(bytes(data)), old(hvS(data)), old(data[22]), 32, iter, old(hvK(data, 32))), klen_order(old(bytes(data)), old(hvS(data)), old(data[22]), 32, iter + 1, old(hvK(data, 32)))
  loop 1
    inv wOK(writer) && same(W(writer).data, bytes) && fresh(bytes) && fresh(writer) && len(bytes) == 2 * len(data)
    inv old(hvOK(data))
    inv [bound] kLen(old(bytes(data)), old(hvS(data)), old(data[22]), 32, old(hvK(data, 32))) + kLen(old(bytes(data)), old(hvS(data)), old(data[22]), 33, old(hvK(data, 33))) + kLen(old(bytes(data)), old(hvS(data)), old(data[22]), 34, old(hvK(data, 34))) <= 2 * len(data)
    inv kLen(old(bytes(data)), old(hvS(data)), old(data[22]), 32, old(hvK(data, 32))) >= 0
    inv kLen(old(bytes(data)), old(hvS(data)), old(data[22]), 33, old(hvK(data, 33))) >= 0
    inv kLen(old(bytes(data)), old(hvS(data)), old(data[22]), 34, old(hvK(data, 34))) >= 0
    inv off(bytes) + W(writer).offset == off(bytes) + kLen(old(bytes(data)), old(hvS(data)), old(data[22]), 32, iter)
    inv [units] kIn(bytes(bytes), off(bytes), old(bytes(data)), old(hvS(data)), old(data[22]), 32, iter)
    inv [lists] hvLists(record)
    inv [VPSList] kindIs(record.VPSList, old(bytes(data)), old(hvS(data)), old(data[22]), 32, old(hvK(data, 32)))
    inv [alloc] all(k, 0, len(record.VPSList), arr(record.VPSList[k]) != arr(bytes))
    inv [SPSList] kindIs(record.SPSList, old(bytes(data)), old(hvS(data)), old(data[22]), 33, old(hvK(data, 33)))
    inv [alloc] all(k, 0, len(record.SPSList), arr(record.SPSList[k]) != arr(bytes))
    inv [PPSList] kindIs(record.PPSList, old(bytes(data)), old(hvS(data)), old(data[22]), 34, old(hvK(data, 34)))
    inv [alloc] all(k, 0, len(record.PPSList), arr(record.PPSList[k]) != arr(bytes))
  use loop 1 body: unit_is(old(bytes(data)), kindAt(old(bytes(data)), old(hvS(data)), old(data[22]), 32, iter), bytes(record.VPSList[iter]), off(record.VPSList[iter]), len(record.VPSList[iter]))
  set loop 1 body: mHead = bytes(bytes)
  use loop 1 back: unit_is(old(bytes(data)), kindAt(old(bytes(data)), old(hvS(data)), old(data[22]), 32, iter - 1), bytes(record.VPSList[iter - 1]), off(record.VPSList[iter - 1]), len(record.VPSList[iter - 1]))
  assert loop 1 back: all(q, off(bytes), off(bytes) + kLen(old(bytes(data)), old(hvS(data)), old(data[22]), 32, iter - 1), sel(bytes(bytes), q) == sel(ghost(mHead), q))
  assert loop 1 back: let(c, off(bytes) + kLen(old(bytes(data)), old(hvS(data)), old(data[22]), 32, iter - 1), all(q, c, c + len(record.VPSList[iter - 1]), sel(bytes(bytes), q) == sel(bytes(record.VPSList[iter - 1]), off(record.VPSList[iter - 1]) + (q - c))))
  use loop 1 back: unit_move(old(bytes(data)), kindAt(old(bytes(data)), old(hvS(data)), old(data[22]), 32, iter - 1), bytes(record.VPSList[iter - 1]), off(record.VPSList[iter - 1]), len(record.VPSList[iter - 1]), bytes(bytes), off(bytes) + kLen(old(bytes(data)), old(hvS(data)), old(data[22]), 32, iter - 1))
  use loop 1 back: kin_frame(ghost(mHead), bytes(bytes), off(bytes), old(bytes(data)), old(hvS(data)), old(data[22]), 32, iter - 1), kin_step(bytes(bytes), off(bytes), old(bytes(data)), old(hvS(data)), old(data[22]), 32, iter - 1)
  use loop 2 init: kin_zero(bytes(bytes), off(bytes) + kLen(old(bytes(data)), old(hvS(data)), old(data[22]), 32, old(hvK(data, 32))), old(bytes(data)), old(hvS(data)), old(data[22]), 33), klen_step(old(bytes(data)), old(hvS(data)), old(data[22]), 33, 0)
  use loop 2: klen_step(old(bytes(data)), old(hvS(data)), old(data[22]), 33, iter), klen_order(old(bytes(data)), old(hvS(data)), old(data[22]), 33, 0, iter), klen_order(old(bytes(data)), old(hvS(data)), old(data[22]), 33, iter, old(hvK(data, 33))), klen_order(old(bytes(data)), old(hvS(data)), old(data[22]), 33, iter + 1, old(hvK(data, 33)))
  loop 2
    inv wOK(writer) && same(W(writer).data, bytes) && fresh(bytes) && fresh(writer) && len(bytes) == 2 * len(data)
    inv old(hvOK(data))
    inv [bound] kLen(old(bytes(data)), old(hvS(data)), old(data[22]), 32, old(hvK(data, 32))) + kLen(old(bytes(data)), old(hvS(data)), old(data[22]), 33, old(hvK(data, 33))) + kLen(old(bytes(data)), old(hvS(data)), old(data[22]), 34, old(hvK(data, 34))) <= 2 * len(data)
    inv kLen(old(bytes(data)), old(hvS(data)), old(data[22]), 32, old(hvK(data, 32))) >= 0
    inv kLen(old(bytes(data)), old(hvS(data)), old(data[22]), 33, old(hvK(data, 33))) >= 0
    inv kLen(old(bytes(data)), old(hvS(data)), old(data[22]), 34, old(hvK(data, 34))) >= 0
    inv off(bytes) + W(writer).offset == off(bytes) + kLen(old(bytes(data)), old(hvS(data)), old(data[22]), 32, old(hvK(data, 32))) + kLen(old(bytes(data)), old(hvS(data)), old(data[22]), 33, iter)
    inv [units] kIn(bytes(bytes), off(bytes) + kLen(old(bytes(data)), old(hvS(data)), old(data[22]), 32, old(hvK(data, 32))), old(bytes(data)), old(hvS(data)), old(data[22]), 33, iter)
    inv [VPSList] kIn(bytes(bytes), off(bytes), old(bytes(data)), old(hvS(data)), old(data[22]), 32, old(hvK(data, 32)))
    inv [lists] hvLists(record)
    inv [SPSList] kindIs(record.SPSList, old(bytes(data)), old(hvS(data)), old(data[22]), 33, old(hvK(data, 33)))
    inv [alloc] all(k, 0, len(record.SPSList), arr(record.SPSList[k]) != arr(bytes))
    inv [PPSList] kindIs(record.PPSList, old(bytes(data)), old(hvS(data)), old(data[22]), 34, old(hvK(data, 34)))
    inv [alloc] all(k, 0, len(record.PPSList), arr(record.PPSList[k]) != arr(bytes))
  use loop 2 body: unit_is(old(bytes(data)), kindAt(old(bytes(data)), old(hvS(data)), old(data[22]), 33, iter), bytes(record.SPSList[iter]), off(record.SPSList[iter]), len(record.SPSList[iter]))
  set loop 2 body: mHead = bytes(bytes)
  use loop 2 back: unit_is(old(bytes(data)), kindAt(old(bytes(data)), old(hvS(data)), old(data[22]), 33, iter - 1), bytes(record.SPSList[iter - 1]), off(record.SPSList[iter - 1]), len(record.SPSList[iter - 1]))
  assert loop 2 back: all(q, off(bytes), off(bytes) + kLen(old(bytes(data)), old(hvS(data)), old(data[22]), 32, old(hvK(data, 32))) + kLen(old(bytes(data)), old(hvS(data)), old(data[22]), 33, iter - 1), sel(bytes(bytes), q) == sel(ghost(mHead), q))
  assert loop 2 back: let(c, off(bytes) + kLen(old(bytes(data)), old(hvS(data)), old(data[22]), 32, old(hvK(data, 32))) + kLen(old(bytes(data)), old(hvS(data)), old(data[22]), 33, iter - 1), all(q, c, c + len(record.SPSList[iter - 1]), sel(bytes(bytes), q) == sel(bytes(record.SPSList[iter - 1]), off(record.SPSList[iter - 1]) + (q - c))))
  use loop 2 back: unit_move(old(bytes(data)), kindAt(old(bytes(data)), old(hvS(data)), old(data[22]), 33, iter - 1), bytes(record.SPSList[iter - 1]), off(record.SPSList[iter - 1]), len(record.SPSList[iter - 1]), bytes(bytes), off(bytes) + kLen(old(bytes(data)), old(hvS(data)), old(data[22]), 32, old(hvK(data, 32))) + kLen(old(bytes(data)), old(hvS(data)), old(data[22]), 33, iter - 1))
  use loop 2 back: kin_frame(ghost(mHead), bytes(bytes), off(bytes) + kLen(old(bytes(data)), old(hvS(data)), old(data[22]), 32, old(hvK(data, 32))), old(bytes(data)), old(hvS(data)), old(data[22]), 33, iter - 1), kin_step(bytes(bytes), off(bytes) + kLen(old(bytes(data)), old(hvS(data)), old(data[22]), 32, old(hvK(data, 32))), old(bytes(data)), old(hvS(data)), old(data[22]), 33, iter - 1)
  use loop 2 back: kin_frame(ghost(mHead), bytes(bytes), off(bytes), old(bytes(data)), old(hvS(data)), old(data[22]), 32, old(hvK(data, 32)))
  use loop 3 init: kin_zero(bytes(bytes), off(bytes) + kLen(old(bytes(data)), old(hvS(data)), old(data[22]), 32, old(hvK(data, 32))) + kLen(old(bytes(data)), old(hvS(data)), old(data[22]), 33, old(hvK(data, 33))), old(bytes(data)), old(hvS(data)), old(data[22]), 34), klen_step(old(bytes(data)), old(hvS(data)), old(data[22]), 34, 0)
  use loop 3: klen_step(old(bytes(data)), old(hvS(data)), old(data[22]), 34, iter), klen_order(old(bytes(data)), old(hvS(data)), old(data[22]), 34, 0, iter), klen_order(old(bytes(data)), old(hvS(data)), old(data[22]), 34, iter, old(hvK(data, 34))), klen_order(old(bytes(data)), old(hvS(data)), old(data[22]), 34, iter + 1, old(hvK(data, 34)))
  loop 3
    inv wOK(writer) && same(W(writer).data, bytes) && fresh(bytes) && fresh(writer) && len(bytes) == 2 * len(data)
    inv old(hvOK(data))
    inv [bound] kLen(old(bytes(data)), old(hvS(data)), old(data[22]), 32, old(hvK(data, 32))) + kLen(old(bytes(data)), old(hvS(data)), old(data[22]), 33, old(hvK(data, 33))) + kLen(old(bytes(data)), old(hvS(data)), old(data[22]), 34, old(hvK(data, 34))) <= 2 * len(data)
    inv kLen(old(bytes(data)), old(hvS(data)), old(data[22]), 32, old(hvK(data, 32))) >= 0
    inv kLen(old(bytes(data)), old(hvS(data)), old(data[22]), 33, old(hvK(data, 33))) >= 0
    inv kLen(old(bytes(data)), old(hvS(data)), old(data[22]), 34, old(hvK(data, 34))) >= 0
    inv off(bytes) + W(writer).offset == off(bytes) + kLen(old(bytes(data)), old(hvS(data)), old(data[22]), 32, old(hvK(data, 32))) + kLen(old(bytes(data)), old(hvS(data)), old(data[22]), 33, old(hvK(data, 33))) + kLen(old(bytes(data)), old(hvS(data)), old(data[22]), 34, iter)
    inv [units] kIn(bytes(bytes), off(bytes) + kLen(old(bytes(data)), old(hvS(data)), old(data[22]), 32, old(hvK(data, 32))) + kLen(old(bytes(data)), old(hvS(data)), old(data[22]), 33, old(hvK(data, 33))), old(bytes(data)), old(hvS(data)), old(data[22]), 34, iter)
    inv [VPSList] kIn(bytes(bytes), off(bytes), old(bytes(data)), old(hvS(data)), old(data[22]), 32, old(hvK(data, 32)))
    inv [SPSList] kIn(bytes(bytes), off(bytes) + kLen(old(bytes(data)), old(hvS(data)), old(data[22]), 32, old(hvK(data, 32))), old(bytes(data)), old(hvS(data)), old(data[22]), 33, old(hvK(data, 33)))
    inv [lists] hvLists(record)
    inv [PPSList] kindIs(record.PPSList, old(bytes(data)), old(hvS(data)), old(data[22]), 34, old(hvK(data, 34)))
    inv [alloc] all(k, 0, len(record.PPSList), arr(record.PPSList[k]) != arr(bytes))
  use loop 3 body: unit_is(old(bytes(data)), kindAt(old(bytes(data)), old(hvS(data)), old(data[22]), 34, iter), bytes(record.PPSList[iter]), off(record.PPSList[iter]), len(record.PPSList[iter]))
  set loop 3 body: mHead = bytes(bytes)
  use loop 3 back: unit_is(old(bytes(data)), kindAt(old(bytes(data)), old(hvS(data)), old(data[22]), 34, iter - 1), bytes(record.PPSList[iter - 1]), off(record.PPSList[iter - 1]), len(record.PPSList[iter - 1]))
  assert loop 3 back: all(q, off(bytes), off(bytes) + kLen(old(bytes(data)), old(hvS(data)), old(data[22]), 32, old(hvK(data, 32))) + kLen(old(bytes(data)), old(hvS(data)), old(data[22]), 33, old(hvK(data, 33))) + kLen(old(bytes(data)), old(hvS(data)), old(data[22]), 34, iter - 1), sel(bytes(bytes), q) == sel(ghost(mHead), q))
  assert loop 3 back: let(c, off(bytes) + kLen(old(bytes(data)), old(hvS(data)), old(data[22]), 32, old(hvK(data, 32))) + kLen(old(bytes(data)), old(hvS(data)), old(data[22]), 33, old(hvK(data, 33))) + kLen(old(bytes(data)), old(hvS(data)), old(data[22]), 34, iter - 1), all(q, c, c + len(record.PPSList[iter - 1]), sel(bytes(bytes), q) == sel(bytes(record.PPSList[iter - 1]), off(record.PPSList[iter - 1]) + (q - c))))
  use loop 3 back: unit_move(old(bytes(data)), kindAt(old(bytes(data)), old(hvS(data)), old(data[22]), 34, iter - 1), bytes(record.PPSList[iter - 1]), off(record.PPSList[iter - 1]), len(record.PPSList[iter - 1]), bytes(bytes), off(bytes) + kLen(old(bytes(data)), old(hvS(data)), old(data[22]), 32, old(hvK(data, 32))) + kLen(old(bytes(data)), old(hvS(data)), old(data[22]), 33, old(hvK(data, 33))) + kLen(old(bytes(data)), old(hvS(data)), old(data[22]), 34, iter - 1))
  use loop 3 back: kin_frame(ghost(mHead), bytes(bytes), off(bytes) + kLen(old(bytes(data)), old(hvS(data)), old(data[22]), 32, old(hvK(data, 32))) + kLen(old(bytes(data)), old(hvS(data)), old(data[22]), 33, old(hvK(data, 33))), old(bytes(data)), old(hvS(data)), old(data[22]), 34, iter - 1), kin_step(bytes(bytes), off(bytes) + kLen(old(bytes(data)), old(hvS(data)), old(data[22]), 32, old(hvK(data, 32))) + kLen(old(bytes(data)), old(hvS(data)), old(data[22]), 33, old(hvK(data, 33))), old(bytes(data)), old(hvS(data)), old(data[22]), 34, iter - 1)
  use loop 3 back: kin_frame(ghost(mHead), bytes(bytes), off(bytes), old(bytes(data)), old(hvS(data)), old(data[22]), 32, old(hvK(data, 32)))
  use loop 3 back: kin_frame(ghost(mHead), bytes(bytes), off(bytes) + kLen(old(bytes(data)), old(hvS(data)), old(data[22]), 32, old(hvK(data, 32))), old(bytes(data)), old(hvS(data)), old(data[22]), 33, old(hvK(data, 33)))
  ensures [valid] (err == nil) <==> old(hvOK(data))
  ensures [size] err == nil ==> fresh(r) && len(r) == kLen(old(bytes(data)), old(hvS(data)), old(data[22]), 32, old(hvK(data, 32))) + kLen(old(bytes(data)), old(hvS(data)), old(data[22]), 33, old(hvK(data, 33))) + kLen(old(bytes(data)), old(hvS(data)), old(data[22]), 34, old(hvK(data, 34)))
  ensures [VPSList] err == nil ==> kIn(bytes(r), off(r), old(bytes(data)), old(hvS(data)), old(data[22]), 32, old(hvK(data, 32)))
  ensures [SPSList] err == nil ==> kIn(bytes(r), off(r) + kLen(old(bytes(data)), old(hvS(data)), old(data[22]), 32, old(hvK(data, 32))), old(bytes(data)), old(hvS(data)), old(data[22]), 33, old(hvK(data, 33)))
  ensures [PPSList] err == nil ==> kIn(bytes(r), off(r) + kLen(old(bytes(data)), old(hvS(data)), old(data[22]), 32, old(hvK(data, 32))) + kLen(old(bytes(data)), old(hvS(data)), old(data[22]), 33, old(hvK(data, 33))), old(bytes(data)), old(hvS(data)), old(data[22]), 34, old(hvK(data, 34)))
