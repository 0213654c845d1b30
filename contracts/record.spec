# AVC and HEVC decoder configuration records (C15, C16)

# the written bytes at the head of the current iteration
ghostvar mHead: arr

# --- length-prefixed units in a byte array ---
# n units of 2-byte length and content fit between s and e
rec unitsFit(A: arr, s: int, e: int, n: int): bool = ite(n <= 0, true, s + 2 <= e && s + 2 + be16(A, s) <= e && unitsFit(A, s + 2 + be16(A, s), e, n - 1))
# position after n units
rec unitPos(A: arr, s: int, n: int): int = ite(n <= 0, s, unitPos(A, s, n - 1) + 2 + be16(A, unitPos(A, s, n - 1)))

lemma unit_pos(A: arr, s: int, n: int)
  ensures unitPos(A, s, 0) == s
  ensures n >= 0 ==> unitPos(A, s, n + 1) == unitPos(A, s, n) + 2 + be16(A, unitPos(A, s, n))
lemma units_fit(A: arr, s: int, e: int, n: int)
  ensures unitsFit(A, s, e, n) == ite(n <= 0, true, s + 2 <= e && s + 2 + be16(A, s) <= e && unitsFit(A, s + 2 + be16(A, s), e, n - 1))

# the n bytes of B at o are the unit of A at p behind a 4-byte start code
rec unitIs(A: arr, p: int, B: arr, o: int, n: int): bool = n == 4 + be16(A, p) && sel(B, o) == 0 && sel(B, o + 1) == 0 && sel(B, o + 2) == 0 && sel(B, o + 3) == 1 && all(q, o + 4, o + n, sel(B, q) == sel(A, p + 2 + (q - o - 4)))
lemma unit_is(A: arr, p: int, B: arr, o: int, n: int)
  ensures unitIs(A, p, B, o, n) == (n == 4 + be16(A, p) && sel(B, o) == 0 && sel(B, o + 1) == 0 && sel(B, o + 2) == 0 && sel(B, o + 3) == 1 && all(q, o + 4, o + n, sel(B, q) == sel(A, p + 2 + (q - o - 4))))
# list L holds from index o on the n units of A at s
def unitsAre(L, o, A, s, n) = all(k, 0, n, L[o + k] != nil && unitIs(A, unitPos(A, s, k), bytes(L[o + k]), off(L[o + k]), len(L[o + k])))
def listOK(L) = (cap(L) == 0 || fresh(L)) && isalloc(L) && all(k, 0, len(L), fresh(L[k])) && all(k, 0, len(L), isalloc(L[k]))

# --- AVC record ---
def avcS(d) = off(d) + 6
def avcN1(d) = d[5] % 32
def avcQ(d) = unitPos(bytes(d), avcS(d), avcN1(d))
def avcN2(d) = sel(bytes(d), avcQ(d))
def avcE(d) = off(d) + len(d)
def avcOK(d) = len(d) >= 6 && avcN1(d) >= 1 && unitsFit(bytes(d), avcS(d), avcE(d), avcN1(d)) && avcQ(d) + 1 <= avcE(d) && avcN2(d) >= 1 && unitsFit(bytes(d), avcQ(d) + 1, avcE(d), avcN2(d))

func avc.AVCDecoderConfigurationRecord.Unmarshal(a, data) (err)
  tags C15
  opt sep
  fuel 0
  requires len(a.SPSList) == 0 && cap(a.SPSList) == 0 && len(a.PPSList) == 0 && cap(a.PPSList) == 0
  modifies a.ConfigurationVersion, a.AVCProfileIndication, a.ProfileCompatibility, a.AVCLevelIndication, a.LengthSizeMinusOne, a.SPSList, a.PPSList
  assert loop 1 back: let(u, a.SPSList[i - 1], let(p, unitPos(bytes(data), off(data) + 6, i - 1), u != nil && len(u) == 4 + be16(bytes(data), p) && u[0] == 0 && u[1] == 0 && u[2] == 0 && u[3] == 1))
  assert loop 1 back: let(u, a.SPSList[i - 1], let(p, unitPos(bytes(data), off(data) + 6, i - 1), all(q, off(u) + 4, off(u) + len(u), sel(bytes(u), q) == sel(bytes(data), p + 2 + (q - off(u) - 4)))))
  use loop 1 back: unit_is(bytes(data), unitPos(bytes(data), off(data) + 6, i - 1), bytes(a.SPSList[i - 1]), off(a.SPSList[i - 1]), len(a.SPSList[i - 1]))
  use loop 1 init: unit_pos(bytes(data), off(data) + 6, 0)
  assert loop 2 back: let(u, a.PPSList[i - 1], let(p, unitPos(bytes(data), avcQ(data) + 1, i - 1), u != nil && len(u) == 4 + be16(bytes(data), p) && u[0] == 0 && u[1] == 0 && u[2] == 0 && u[3] == 1))
  assert loop 2 back: let(u, a.PPSList[i - 1], let(p, unitPos(bytes(data), avcQ(data) + 1, i - 1), all(q, off(u) + 4, off(u) + len(u), sel(bytes(u), q) == sel(bytes(data), p + 2 + (q - off(u) - 4)))))
  use loop 2 back: unit_is(bytes(data), unitPos(bytes(data), avcQ(data) + 1, i - 1), bytes(a.PPSList[i - 1]), off(a.PPSList[i - 1]), len(a.PPSList[i - 1]))
  use loop 2 init: unit_pos(bytes(data), avcQ(data) + 1, 0)
  use loop 1: unit_pos(bytes(data), off(data) + 6, i), units_fit(bytes(data), unitPos(bytes(data), off(data) + 6, i), off(data) + len(data), avcN1(data) - i)
  use loop 2: unit_pos(bytes(data), avcQ(data) + 1, i), units_fit(bytes(data), unitPos(bytes(data), avcQ(data) + 1, i), off(data) + len(data), avcN2(data) - i)
  loop 1
    inv len(data) >= 6 && spsCount == avcN1(data) && spsCount >= 1 && 0 <= i && i <= spsCount
    inv bbOK(as(reader, *bufio.bytesReader)) && same(as(reader, *bufio.bytesReader).data, data) && fresh(reader)
    inv [pos] off(data) + as(reader, *bufio.bytesReader).offset == unitPos(bytes(data), off(data) + 6, i)
    inv [fit] unitsFit(bytes(data), avcS(data), avcE(data), avcN1(data)) == unitsFit(bytes(data), unitPos(bytes(data), off(data) + 6, i), avcE(data), avcN1(data) - i)
    inv [count] len(a.SPSList) == i && listOK(a.SPSList)
    inv [units] unitsAre(a.SPSList, 0, bytes(data), avcS(data), i)
    decreases spsCount - i
  loop 2
    inv len(data) >= 6 && spsCount == avcN1(data) && spsCount >= 1 && ppsCount == avcN2(data) && ppsCount >= 1 && 0 <= i && i <= ppsCount
    inv avcQ(data) + 1 <= avcE(data) && unitsFit(bytes(data), avcS(data), avcE(data), avcN1(data))
    inv bbOK(as(reader, *bufio.bytesReader)) && same(as(reader, *bufio.bytesReader).data, data) && fresh(reader)
    inv [pos] off(data) + as(reader, *bufio.bytesReader).offset == unitPos(bytes(data), avcQ(data) + 1, i)
    inv [fit] unitsFit(bytes(data), avcQ(data) + 1, avcE(data), avcN2(data)) == unitsFit(bytes(data), unitPos(bytes(data), avcQ(data) + 1, i), avcE(data), avcN2(data) - i)
    inv [count] len(a.SPSList) == spsCount && listOK(a.SPSList) && len(a.PPSList) == i && listOK(a.PPSList) && (arr(a.PPSList) != arr(a.SPSList) || i == 0 && cap(a.PPSList) == 0)
    inv [sps] unitsAre(a.SPSList, 0, bytes(data), avcS(data), spsCount)
    inv [pps] unitsAre(a.PPSList, 0, bytes(data), avcQ(data) + 1, i)
    decreases ppsCount - i
  ensures [valid] (err == nil) <==> old(avcOK(data))
  ensures [header] err == nil ==> a.ConfigurationVersion == data[0] && a.AVCProfileIndication == data[1] && a.ProfileCompatibility == data[2] && a.AVCLevelIndication == data[3] && a.LengthSizeMinusOne == data[4] % 4
  ensures [count] err == nil ==> len(a.SPSList) == avcN1(data) && len(a.PPSList) == avcN2(data)
  ensures [alloc] err == nil ==> listOK(a.SPSList) && listOK(a.PPSList) && arr(a.PPSList) != arr(a.SPSList)
  ensures [sps] err == nil ==> unitsAre(a.SPSList, 0, bytes(data), avcS(data), avcN1(data))
  ensures [pps] err == nil ==> unitsAre(a.PPSList, 0, bytes(data), avcQ(data) + 1, avcN2(data))

# --- Annex-B form of a record: its units, each behind a 4-byte start code ---
lemma unit_move(A: arr, p: int, B: arr, o: int, n: int, C: arr, c: int)
  requires unitIs(A, p, B, o, n) && all(q, c, c + n, sel(C, q) == sel(B, o + (q - c)))
  use unit_is(A, p, B, o, n), unit_is(A, p, C, c, n)
  ensures unitIs(A, p, C, c, n)
# length of the Annex-B form of the first n units of A at s
def abLen(A, s, n) = unitPos(A, s, n) - s + 2 * n
rec abIn(B: arr, t: int, A: arr, s: int, n: int): bool = all(k, 0, n, trig(unitPos(A, s, k), unitIs(A, unitPos(A, s, k), B, t + abLen(A, s, k), 4 + be16(A, unitPos(A, s, k)))))
lemma u_order(A: arr, s: int, n: int)
  requires n >= 0
  induct n
  use u_order(A, s, n - 1), unit_pos(A, s, n - 1)
  ensures unitPos(A, s, n) >= s + 2 * n && all(k, 0, n, trig(unitPos(A, s, k), unitPos(A, s, k) >= s + 2 * k && unitPos(A, s, k) + 2 + be16(A, unitPos(A, s, k)) + 2 * (n - k - 1) <= unitPos(A, s, n)))
lemma ab_zero(B: arr, t: int, A: arr, s: int)
  ensures abIn(B, t, A, s, 0)
lemma ab_frame(B: arr, C: arr, t: int, A: arr, s: int, n: int)
  requires n >= 0 && abIn(B, t, A, s, n) && all(q, t, t + abLen(A, s, n), sel(C, q) == sel(B, q))
  use u_order(A, s, n), forall(k: int, unit_move(A, unitPos(A, s, k), B, t + abLen(A, s, k), 4 + be16(A, unitPos(A, s, k)), C, t + abLen(A, s, k)))
  ensures abIn(C, t, A, s, n)
lemma ab_step(B: arr, t: int, A: arr, s: int, n: int)
  requires n >= 0 && abIn(B, t, A, s, n) && unitIs(A, unitPos(A, s, n), B, t + abLen(A, s, n), 4 + be16(A, unitPos(A, s, n)))
  ensures abIn(B, t, A, s, n + 1)

# unit i of n fitting units ends inside
lemma fit_pos(A: arr, s: int, e: int, n: int, i: int)
  requires unitsFit(A, s, e, n) && s <= e && 0 <= i && i <= n
  induct i
  use fit_pos(A, s, e, n, i - 1), unit_pos(A, s, i - 1), unit_pos(A, s, 0), units_fit(A, unitPos(A, s, i - 1), e, n - i + 1)
  ensures unitPos(A, s, i) <= e && unitsFit(A, unitPos(A, s, i), e, n - i)

func avc.ExtraDataToAnnexB(data) (r, err)
  tags C15 C28
  fuel 0
  modifies mHead
  requires len(data) <= 70368744177664
  use loop 1 init: ab_zero(bytes(bytes), off(bytes), old(bytes(data)), old(avcS(data))), unit_pos(old(bytes(data)), old(avcS(data)), 0)
  use loop 1: unit_pos(old(bytes(data)), old(avcS(data)), iter), u_order(old(bytes(data)), old(avcS(data)), iter), fit_pos(old(bytes(data)), old(avcS(data)), old(avcE(data)), old(avcN1(data)), iter + 1), u_order(old(bytes(data)), old(avcS(data)), iter + 1)
  loop 1
    inv wOK(writer) && same(W(writer).data, bytes) && fresh(bytes) && fresh(writer) && len(bytes) == 2 * len(data)
    inv old(avcOK(data))
    inv len(record.SPSList) == old(avcN1(data)) && len(record.PPSList) == old(avcN2(data))
    inv W(writer).offset == off(bytes) - off(bytes) + abLen(old(bytes(data)), old(avcS(data)), iter)
    inv [units] abIn(bytes(bytes), off(bytes), old(bytes(data)), old(avcS(data)), iter)
    inv [sps] unitsAre(record.SPSList, 0, old(bytes(data)), old(avcS(data)), old(avcN1(data)))
    inv [pps] unitsAre(record.PPSList, 0, old(bytes(data)), old(avcQ(data)) + 1, old(avcN2(data)))
    inv [alloc] listOK(record.SPSList) && listOK(record.PPSList) && all(k, 0, len(record.SPSList), arr(record.SPSList[k]) != arr(bytes)) && all(k, 0, len(record.PPSList), arr(record.PPSList[k]) != arr(bytes))
  use loop 1 body: unit_is(old(bytes(data)), unitPos(old(bytes(data)), old(avcS(data)), iter), bytes(record.SPSList[iter]), off(record.SPSList[iter]), len(record.SPSList[iter])), u_order(old(bytes(data)), old(avcS(data)), old(avcN1(data))), fit_pos(old(bytes(data)), old(avcS(data)), old(avcE(data)), old(avcN1(data)), old(avcN1(data)))
  set loop 1 body: mHead = bytes(bytes)
  use loop 1 back: unit_is(old(bytes(data)), unitPos(old(bytes(data)), old(avcS(data)), iter - 1), bytes(record.SPSList[iter - 1]), off(record.SPSList[iter - 1]), len(record.SPSList[iter - 1]))
  assert loop 1 back: let(c, off(bytes) + abLen(old(bytes(data)), old(avcS(data)), iter - 1), all(q, c, c + len(record.SPSList[iter - 1]), sel(bytes(bytes), q) == sel(bytes(record.SPSList[iter - 1]), off(record.SPSList[iter - 1]) + (q - c))))
  use loop 1 back: unit_move(old(bytes(data)), unitPos(old(bytes(data)), old(avcS(data)), iter - 1), bytes(record.SPSList[iter - 1]), off(record.SPSList[iter - 1]), len(record.SPSList[iter - 1]), bytes(bytes), off(bytes) + abLen(old(bytes(data)), old(avcS(data)), iter - 1))
  use loop 1 back: ab_frame(ghost(mHead), bytes(bytes), off(bytes), old(bytes(data)), old(avcS(data)), iter - 1), ab_step(bytes(bytes), off(bytes), old(bytes(data)), old(avcS(data)), iter - 1)
  use loop 2 init: ab_zero(bytes(bytes), off(bytes) + abLen(old(bytes(data)), old(avcS(data)), old(avcN1(data))), old(bytes(data)), old(avcQ(data)) + 1), unit_pos(old(bytes(data)), old(avcQ(data)) + 1, 0)
  use loop 2: unit_pos(old(bytes(data)), old(avcQ(data)) + 1, iter), u_order(old(bytes(data)), old(avcQ(data)) + 1, iter), fit_pos(old(bytes(data)), old(avcQ(data)) + 1, old(avcE(data)), old(avcN2(data)), iter + 1), u_order(old(bytes(data)), old(avcQ(data)) + 1, iter + 1)
  loop 2
    inv wOK(writer) && same(W(writer).data, bytes) && fresh(bytes) && fresh(writer) && len(bytes) == 2 * len(data)
    inv old(avcOK(data))
    inv len(record.SPSList) == old(avcN1(data)) && len(record.PPSList) == old(avcN2(data))
    inv W(writer).offset == off(bytes) + abLen(old(bytes(data)), old(avcS(data)), old(avcN1(data))) - off(bytes) + abLen(old(bytes(data)), old(avcQ(data)) + 1, iter)
    inv [units] abIn(bytes(bytes), off(bytes) + abLen(old(bytes(data)), old(avcS(data)), old(avcN1(data))), old(bytes(data)), old(avcQ(data)) + 1, iter)
    inv [sps] unitsAre(record.SPSList, 0, old(bytes(data)), old(avcS(data)), old(avcN1(data)))
    inv [pps] unitsAre(record.PPSList, 0, old(bytes(data)), old(avcQ(data)) + 1, old(avcN2(data)))
    inv [alloc] listOK(record.SPSList) && listOK(record.PPSList) && all(k, 0, len(record.SPSList), arr(record.SPSList[k]) != arr(bytes)) && all(k, 0, len(record.PPSList), arr(record.PPSList[k]) != arr(bytes))
    inv [done] abIn(bytes(bytes), off(bytes), old(bytes(data)), old(avcS(data)), old(avcN1(data)))
  use loop 2 body: unit_is(old(bytes(data)), unitPos(old(bytes(data)), old(avcQ(data)) + 1, iter), bytes(record.PPSList[iter]), off(record.PPSList[iter]), len(record.PPSList[iter])), u_order(old(bytes(data)), old(avcS(data)), old(avcN1(data))), fit_pos(old(bytes(data)), old(avcS(data)), old(avcE(data)), old(avcN1(data)), old(avcN1(data)))
  set loop 2 body: mHead = bytes(bytes)
  use loop 2 back: unit_is(old(bytes(data)), unitPos(old(bytes(data)), old(avcQ(data)) + 1, iter - 1), bytes(record.PPSList[iter - 1]), off(record.PPSList[iter - 1]), len(record.PPSList[iter - 1]))
  assert loop 2 back: let(c, off(bytes) + abLen(old(bytes(data)), old(avcS(data)), old(avcN1(data))) + abLen(old(bytes(data)), old(avcQ(data)) + 1, iter - 1), all(q, c, c + len(record.PPSList[iter - 1]), sel(bytes(bytes), q) == sel(bytes(record.PPSList[iter - 1]), off(record.PPSList[iter - 1]) + (q - c))))
  use loop 2 back: unit_move(old(bytes(data)), unitPos(old(bytes(data)), old(avcQ(data)) + 1, iter - 1), bytes(record.PPSList[iter - 1]), off(record.PPSList[iter - 1]), len(record.PPSList[iter - 1]), bytes(bytes), off(bytes) + abLen(old(bytes(data)), old(avcS(data)), old(avcN1(data))) + abLen(old(bytes(data)), old(avcQ(data)) + 1, iter - 1))
  use loop 2 back: ab_frame(ghost(mHead), bytes(bytes), off(bytes) + abLen(old(bytes(data)), old(avcS(data)), old(avcN1(data))), old(bytes(data)), old(avcQ(data)) + 1, iter - 1), ab_step(bytes(bytes), off(bytes) + abLen(old(bytes(data)), old(avcS(data)), old(avcN1(data))), old(bytes(data)), old(avcQ(data)) + 1, iter - 1), ab_frame(ghost(mHead), bytes(bytes), off(bytes), old(bytes(data)), old(avcS(data)), old(avcN1(data))), u_order(old(bytes(data)), old(avcQ(data)) + 1, iter - 1)
  ensures [valid] (err == nil) <==> old(avcOK(data))
  ensures [size] err == nil ==> fresh(r) && len(r) == abLen(old(bytes(data)), old(avcS(data)), old(avcN1(data))) + abLen(old(bytes(data)), old(avcQ(data)) + 1, old(avcN2(data)))
  ensures [sps] err == nil ==> abIn(bytes(r), off(r), old(bytes(data)), old(avcS(data)), old(avcN1(data)))
  ensures [pps] err == nil ==> abIn(bytes(r), off(r) + abLen(old(bytes(data)), old(avcS(data)), old(avcN1(data))), old(bytes(data)), old(avcQ(data)) + 1, old(avcN2(data)))

# the lenient converter: no unit is required, and the second list may be missing
def m4Two(d) = avcN1(d) >= 1 && avcE(d) - avcQ(d) > 2
def m4N2(d) = ite(m4Two(d), avcN2(d), 0)
def m4OK(d) = len(d) >= 6 && unitsFit(bytes(d), avcS(d), avcE(d), avcN1(d)) && (m4Two(d) ==> unitsFit(bytes(d), avcQ(d) + 1, avcE(d), avcN2(d)))
ghostvar m4K: int
ghostvar m4In: int
ghostvar m4Out: int

func avc.M4VCExtraDataToAnnexB(src) (r, err)
  tags C15 C28
  fuel 0
  modifies mHead, m4K, m4In, m4Out
  requires len(src) <= 70368744177664
  use entry: unit_pos(old(bytes(src)), old(avcS(src)), 0), units_fit(old(bytes(src)), old(avcS(src)), old(avcE(src)), old(avcN1(src)))
  use loop 1 init: ab_zero(bytes(W(writer).data), off(W(writer).data), old(bytes(src)), old(avcS(src)))
  loop 1
    inv wOK(writer) && fresh(W(writer).data) && fresh(writer) && len(W(writer).data) == 2 * len(src) && len(src) >= 6
    inv bbOK(as(reader, *bufio.bytesReader)) && same(as(reader, *bufio.bytesReader).data, src) && fresh(reader)
    inv spsDone ==> old(m4Two(src)) && unitsFit(old(bytes(src)), old(avcS(src)), old(avcE(src)), old(avcN1(src))) && unitNb <= old(avcN2(src))
    inv !spsDone ==> unitNb <= old(avcN1(src)) && (unitNb == 0 ==> !old(m4Two(src)))
    inv [in1] !spsDone ==> off(src) + as(reader, *bufio.bytesReader).offset == unitPos(old(bytes(src)), old(avcS(src)), old(avcN1(src)) - unitNb)
    inv [in2] spsDone ==> off(src) + as(reader, *bufio.bytesReader).offset == unitPos(old(bytes(src)), (old(avcQ(src)) + 1), old(avcN2(src)) - unitNb)
    inv [fit1] !spsDone ==> unitsFit(old(bytes(src)), old(avcS(src)), old(avcE(src)), old(avcN1(src))) == unitsFit(old(bytes(src)), unitPos(old(bytes(src)), old(avcS(src)), old(avcN1(src)) - unitNb), old(avcE(src)), unitNb)
    inv [fit2] spsDone ==> unitsFit(old(bytes(src)), (old(avcQ(src)) + 1), old(avcE(src)), old(avcN2(src))) == unitsFit(old(bytes(src)), unitPos(old(bytes(src)), (old(avcQ(src)) + 1), old(avcN2(src)) - unitNb), old(avcE(src)), unitNb)
    inv [out1] !spsDone ==> W(writer).offset == abLen(old(bytes(src)), old(avcS(src)), old(avcN1(src)) - unitNb)
    inv [out2] spsDone ==> W(writer).offset == abLen(old(bytes(src)), old(avcS(src)), old(avcN1(src))) + abLen(old(bytes(src)), (old(avcQ(src)) + 1), old(avcN2(src)) - unitNb)
    inv [sps1] !spsDone ==> abIn(bytes(W(writer).data), off(W(writer).data), old(bytes(src)), old(avcS(src)), old(avcN1(src)) - unitNb)
    inv [sps2] spsDone ==> abIn(bytes(W(writer).data), off(W(writer).data), old(bytes(src)), old(avcS(src)), old(avcN1(src)))
    inv [pps] spsDone ==> abIn(bytes(W(writer).data), off(W(writer).data) + abLen(old(bytes(src)), old(avcS(src)), old(avcN1(src))), old(bytes(src)), (old(avcQ(src)) + 1), old(avcN2(src)) - unitNb)
    decreases ite(spsDone, unitNb, 256 + unitNb)
  set loop 1 body: mHead = bytes(W(writer).data)
  set loop 1 body: m4K = ite(spsDone, old(avcN2(src)) - unitNb, old(avcN1(src)) - unitNb)
  set loop 1 body: m4In = off(src) + as(reader, *bufio.bytesReader).offset
  set loop 1 body: m4Out = off(W(writer).data) + W(writer).offset
  use loop 1: u_order(old(bytes(src)), old(avcS(src)), old(avcN1(src))), u_order(old(bytes(src)), old(avcS(src)), old(avcN1(src)) - unitNb), u_order(old(bytes(src)), (old(avcQ(src)) + 1), old(avcN2(src)) - unitNb), unit_pos(old(bytes(src)), old(avcS(src)), old(avcN1(src)) - unitNb), unit_pos(old(bytes(src)), (old(avcQ(src)) + 1), old(avcN2(src)) - unitNb), unit_pos(old(bytes(src)), (old(avcQ(src)) + 1), 0)
  use loop 1: units_fit(old(bytes(src)), unitPos(old(bytes(src)), old(avcS(src)), old(avcN1(src)) - unitNb), old(avcE(src)), unitNb), units_fit(old(bytes(src)), unitPos(old(bytes(src)), (old(avcQ(src)) + 1), old(avcN2(src)) - unitNb), old(avcE(src)), unitNb), units_fit(old(bytes(src)), unitPos(old(bytes(src)), old(avcS(src)), old(avcN1(src)) - unitNb + 1), old(avcE(src)), 0)
  assert loop 1 back: all(q, off(W(writer).data), ghost(m4Out), sel(bytes(W(writer).data), q) == sel(ghost(mHead), q))
  assert loop 1 back: sel(bytes(W(writer).data), ghost(m4Out)) == 0 && sel(bytes(W(writer).data), ghost(m4Out) + 1) == 0 && sel(bytes(W(writer).data), ghost(m4Out) + 2) == 0 && sel(bytes(W(writer).data), ghost(m4Out) + 3) == 1
  assert loop 1 back: all(q, ghost(m4Out) + 4, ghost(m4Out) + 4 + be16(old(bytes(src)), ghost(m4In)), sel(bytes(W(writer).data), q) == sel(old(bytes(src)), ghost(m4In) + 2 + (q - ghost(m4Out) - 4)))
  use loop 1 back: unit_is(old(bytes(src)), ghost(m4In), bytes(W(writer).data), ghost(m4Out), 4 + be16(old(bytes(src)), ghost(m4In)))
  use loop 1 back: ab_frame(ghost(mHead), bytes(W(writer).data), off(W(writer).data), old(bytes(src)), old(avcS(src)), ghost(m4K)), ab_step(bytes(W(writer).data), off(W(writer).data), old(bytes(src)), old(avcS(src)), ghost(m4K))
  use loop 1 back: ab_frame(ghost(mHead), bytes(W(writer).data), off(W(writer).data), old(bytes(src)), old(avcS(src)), old(avcN1(src))), ab_frame(ghost(mHead), bytes(W(writer).data), off(W(writer).data) + abLen(old(bytes(src)), old(avcS(src)), old(avcN1(src))), old(bytes(src)), (old(avcQ(src)) + 1), ghost(m4K)), ab_step(bytes(W(writer).data), off(W(writer).data) + abLen(old(bytes(src)), old(avcS(src)), old(avcN1(src))), old(bytes(src)), (old(avcQ(src)) + 1), ghost(m4K)), ab_zero(bytes(W(writer).data), off(W(writer).data) + abLen(old(bytes(src)), old(avcS(src)), old(avcN1(src))), old(bytes(src)), (old(avcQ(src)) + 1))
  use exit: ab_zero(bytes(r), off(r) + abLen(old(bytes(src)), old(avcS(src)), old(avcN1(src))), old(bytes(src)), (old(avcQ(src)) + 1)), unit_pos(old(bytes(src)), (old(avcQ(src)) + 1), 0), units_fit(old(bytes(src)), unitPos(old(bytes(src)), old(avcS(src)), old(avcN1(src))), old(avcE(src)), 0), units_fit(old(bytes(src)), unitPos(old(bytes(src)), (old(avcQ(src)) + 1), old(avcN2(src))), old(avcE(src)), 0)
  ensures [valid] (err == nil) <==> old(m4OK(src))
  ensures [size] err == nil ==> fresh(r) && len(r) == abLen(old(bytes(src)), old(avcS(src)), old(avcN1(src))) + abLen(old(bytes(src)), (old(avcQ(src)) + 1), old(m4N2(src)))
  ensures [sps] err == nil ==> abIn(bytes(r), off(r), old(bytes(src)), old(avcS(src)), old(avcN1(src)))
  ensures [pps] err == nil ==> abIn(bytes(r), off(r) + abLen(old(bytes(src)), old(avcS(src)), old(avcN1(src))), old(bytes(src)), (old(avcQ(src)) + 1), old(m4N2(src)))

# --- lists of units, with or without start code ---
def stripN(L, k) = len(L[k]) - leadLen(bytes(L[k]), off(L[k]), len(L[k]))
def stripO(L, k) = off(L[k]) + leadLen(bytes(L[k]), off(L[k]), len(L[k]))
# bytes the record needs for the first n units: 2-byte length and the unit without its start code
rec mPos(I: iarr, O: iarr, N: iarr, M: aarr, o: int, n: int): int = ite(n <= 0, 0, mPos(I, O, N, M, o, n - 1) + 2 + max(0, sel(N, o + n - 1) - leadLen(sel(M, sel(I, o + n - 1)), sel(O, o + n - 1), sel(N, o + n - 1))))
# the same with start codes counted
rec tPos(N: iarr, o: int, n: int): int = ite(n <= 0, 0, tPos(N, o, n - 1) + 2 + max(0, sel(N, o + n - 1)))
def mP(L, n) = mPos(arrs(L), offs(L), lens(L), mem8(), off(L), n)
def tP(L, n) = tPos(lens(L), off(L), n)

lemma m_step(I: iarr, O: iarr, N: iarr, M: aarr, o: int, n: int)
  ensures mPos(I, O, N, M, o, 0) == 0
  ensures n >= 0 ==> mPos(I, O, N, M, o, n + 1) == mPos(I, O, N, M, o, n) + 2 + max(0, sel(N, o + n) - leadLen(sel(M, sel(I, o + n)), sel(O, o + n), sel(N, o + n)))
lemma t_step(N: iarr, o: int, n: int)
  ensures tPos(N, o, 0) == 0
  ensures n >= 0 ==> tPos(N, o, n + 1) == tPos(N, o, n) + 2 + max(0, sel(N, o + n))
lemma mt_le(I: iarr, O: iarr, N: iarr, M: aarr, o: int, n: int)
  induct n
  use mt_le(I, O, N, M, o, n - 1)
  ensures mPos(I, O, N, M, o, n) <= tPos(N, o, n) && 0 <= mPos(I, O, N, M, o, n)
lemma t_mono(N: iarr, o: int, i: int, n: int)
  requires i <= n
  induct n - i
  use t_mono(N, o, i, n - 1)
  ensures tPos(N, o, i) <= tPos(N, o, n)
lemma m_mono(I: iarr, O: iarr, N: iarr, M: aarr, o: int, i: int, n: int)
  requires i <= n
  induct n - i
  use m_mono(I, O, N, M, o, i, n - 1)
  ensures mPos(I, O, N, M, o, i) <= mPos(I, O, N, M, o, n)
def okList(L) = all(k, 0, len(L), isalloc(L[k]))
# every unit fits: at least lo and at most 65535 bytes
def unitFits(L, k, lo) = lo <= stripN(L, k) && stripN(L, k) <= 65535
def avcMOK(s, p) = 1 <= len(s) && len(s) <= 31 && 1 <= len(p) && len(p) <= 255 && all(k, 0, len(s), unitFits(s, k, 4)) && all(k, 0, len(p), unitFits(p, k, 0))
# stripped size and byte p of unit j
def uN(I, O, N, M, j) = sel(N, j) - leadLen(sel(M, sel(I, j)), sel(O, j), sel(N, j))
def uB(I, O, N, M, j, p) = sel(sel(M, sel(I, j)), sel(O, j) + leadLen(sel(M, sel(I, j)), sel(O, j), sel(N, j)) + p)
# the first n units of a list are in A from s on: length fields and bytes
rec unitsInA(A: arr, s: int, I: iarr, O: iarr, N: iarr, M: aarr, o: int, n: int): bool = all(k, 0, n, trig(mPos(I, O, N, M, o, k), be16(A, s + mPos(I, O, N, M, o, k)) == uN(I, O, N, M, o + k))) && forall(k, q, trig(mPos(I, O, N, M, o, k), sel(A, q), 0 <= k && k < n && s + mPos(I, O, N, M, o, k) + 2 <= q && q < s + mPos(I, O, N, M, o, k) + 2 + uN(I, O, N, M, o + k) ==> sel(A, q) == uB(I, O, N, M, o + k, q - s - 2 - mPos(I, O, N, M, o, k))))
def uIn(A, s, L, n) = unitsInA(A, s, old(arrs(L)), old(offs(L)), old(lens(L)), old(mem8()), off(L), n)
lemma m_order(I: iarr, O: iarr, N: iarr, M: aarr, o: int, n: int)
  induct n
  use m_order(I, O, N, M, o, n - 1), m_step(I, O, N, M, o, n - 1), m_step(I, O, N, M, o, n)
  ensures all(k, 0, n, trig(mPos(I, O, N, M, o, k), 0 <= mPos(I, O, N, M, o, k) && mPos(I, O, N, M, o, k) + 2 + max(0, uN(I, O, N, M, o + k)) <= mPos(I, O, N, M, o, n)))
lemma uia_zero(A: arr, s: int, I: iarr, O: iarr, N: iarr, M: aarr, o: int)
  ensures unitsInA(A, s, I, O, N, M, o, 0)
lemma uia_frame(A: arr, B: arr, s: int, I: iarr, O: iarr, N: iarr, M: aarr, o: int, n: int)
  requires unitsInA(A, s, I, O, N, M, o, n) && all(q, s, s + mPos(I, O, N, M, o, n), sel(B, q) == sel(A, q))
  use m_order(I, O, N, M, o, n)
  ensures unitsInA(B, s, I, O, N, M, o, n)
lemma uia_step(A: arr, s: int, I: iarr, O: iarr, N: iarr, M: aarr, o: int, n: int)
  requires n >= 0 && unitsInA(A, s, I, O, N, M, o, n) && be16(A, s + mPos(I, O, N, M, o, n)) == uN(I, O, N, M, o + n)
  requires all(q, s + mPos(I, O, N, M, o, n) + 2, s + mPos(I, O, N, M, o, n) + 2 + uN(I, O, N, M, o + n), sel(A, q) == uB(I, O, N, M, o + n, q - (s + mPos(I, O, N, M, o, n) + 2)))
  ensures unitsInA(A, s, I, O, N, M, o, n + 1)
# reading them back gives the same positions
lemma uia_pos(A: arr, s: int, I: iarr, O: iarr, N: iarr, M: aarr, o: int, n: int, m: int)
  requires unitsInA(A, s, I, O, N, M, o, m) && n <= m
  induct n
  use uia_pos(A, s, I, O, N, M, o, n - 1, m)
  ensures all(k, 0, n + 1, trig(unitPos(A, s, k), unitPos(A, s, k) == s + mPos(I, O, N, M, o, k)))
lemma uia_fit(A: arr, s: int, e: int, I: iarr, O: iarr, N: iarr, M: aarr, o: int, i: int, n: int)
  requires unitsInA(A, s, I, O, N, M, o, n) && 0 <= i && i <= n && s + mPos(I, O, N, M, o, n) <= e && all(k, 0, n, trig(mPos(I, O, N, M, o, k), uN(I, O, N, M, o + k) >= 0))
  induct n - i
  use uia_fit(A, s, e, I, O, N, M, o, i + 1, n), m_order(I, O, N, M, o, n), m_step(I, O, N, M, o, i)
  ensures unitsFit(A, s + mPos(I, O, N, M, o, i), e, n - i)

func avc.AVCDecoderConfigurationRecord.Marshal(a, spsList, ppsList) (r, err)
  tags C15
  opt sep
  fuel 0
  opt nilrecv
  modifies mHead
  requires okList(spsList) && okList(ppsList) && tP(spsList, len(spsList)) <= 70368744177664 && tP(ppsList, len(ppsList)) <= 70368744177664
  use entry: t_mono(lens(spsList), off(spsList), 0, len(spsList)), t_mono(lens(ppsList), off(ppsList), 0, len(ppsList)), t_step(lens(spsList), off(spsList), 0), t_step(lens(ppsList), off(ppsList), 0)
  use loop 1: t_step(lens(spsList), off(spsList), iter), t_mono(lens(spsList), off(spsList), iter + 1, len(spsList)), t_mono(lens(spsList), off(spsList), 0, iter)
  use loop 2: t_step(lens(ppsList), off(ppsList), iter), t_mono(lens(ppsList), off(ppsList), iter + 1, len(ppsList)), t_mono(lens(ppsList), off(ppsList), 0, iter)
  loop 1
    inv size == 7 + tP(spsList, iter)
  loop 2
    inv size == 7 + tP(spsList, len(spsList)) + tP(ppsList, iter)
  use loop 3 init: m_step(old(arrs(spsList)), old(offs(spsList)), old(lens(spsList)), old(mem8()), off(spsList), 0), uia_zero(bytes(bytes), off(bytes) + 6, old(arrs(spsList)), old(offs(spsList)), old(lens(spsList)), old(mem8()), off(spsList))
  use loop 3: m_step(old(arrs(spsList)), old(offs(spsList)), old(lens(spsList)), old(mem8()), off(spsList), iter), t_mono(old(lens(spsList)), off(spsList), iter + 1, len(spsList)), mt_le(old(arrs(spsList)), old(offs(spsList)), old(lens(spsList)), old(mem8()), off(spsList), iter + 1), mt_le(old(arrs(spsList)), old(offs(spsList)), old(lens(spsList)), old(mem8()), off(spsList), iter)
  loop 3
    inv wOK(writer) && same(W(writer).data, bytes) && fresh(bytes) && fresh(writer) && len(bytes) == 7 + old(tP(spsList, len(spsList))) + old(tP(ppsList, len(ppsList)))
    inv W(writer).offset == 6 + old(mP(spsList, iter))
    inv [fits] all(k, 0, iter, old(unitFits(spsList, k, 4)))
    inv [units] uIn(bytes(bytes), off(bytes) + 6, spsList, iter)
    inv [last] iter > 0 ==> same(noStartCodeSps, spsList[iter - 1][len(spsList[iter - 1]) - old(stripN(spsList, iter - 1)):])
  set loop 3 body: mHead = bytes(bytes)
  assert loop 3 back: all(q, off(bytes), off(bytes) + 6 + old(mP(spsList, iter - 1)), sel(bytes(bytes), q) == sel(ghost(mHead), q))
  assert loop 3 back: be16(bytes(bytes), off(bytes) + 6 + old(mP(spsList, iter - 1))) == old(stripN(spsList, iter - 1))
  assert loop 3 back: bytes(spsList[iter - 1]) == old(bytes(spsList[iter - 1]))
  assert loop 3 back: let(b, off(bytes) + 6 + old(mP(spsList, iter - 1)) + 2, all(q, b, b + old(stripN(spsList, iter - 1)), sel(bytes(bytes), q) == old(sel(bytes(spsList[iter - 1]), stripO(spsList, iter - 1) + (q - b)))))
  use loop 3 back: uia_frame(ghost(mHead), bytes(bytes), off(bytes) + 6, old(arrs(spsList)), old(offs(spsList)), old(lens(spsList)), old(mem8()), off(spsList), iter - 1), uia_step(bytes(bytes), off(bytes) + 6, old(arrs(spsList)), old(offs(spsList)), old(lens(spsList)), old(mem8()), off(spsList), iter - 1)
  assert loop 4 init: uIn(ghost(mHead), off(bytes) + 6, spsList, len(spsList))
  assert loop 4 init: all(q, off(bytes) + 6, off(bytes) + 6 + old(mP(spsList, len(spsList))), sel(bytes(bytes), q) == sel(ghost(mHead), q))
  use loop 4 init: m_step(old(arrs(ppsList)), old(offs(ppsList)), old(lens(ppsList)), old(mem8()), off(ppsList), 0), uia_zero(bytes(bytes), off(bytes) + 7 + old(mP(spsList, len(spsList))), old(arrs(ppsList)), old(offs(ppsList)), old(lens(ppsList)), old(mem8()), off(ppsList)), mt_le(old(arrs(spsList)), old(offs(spsList)), old(lens(spsList)), old(mem8()), off(spsList), len(spsList)), uia_frame(ghost(mHead), bytes(bytes), off(bytes) + 6, old(arrs(spsList)), old(offs(spsList)), old(lens(spsList)), old(mem8()), off(spsList), len(spsList))
  use loop 4: m_step(old(arrs(ppsList)), old(offs(ppsList)), old(lens(ppsList)), old(mem8()), off(ppsList), iter), t_mono(old(lens(ppsList)), off(ppsList), iter + 1, len(ppsList)), mt_le(old(arrs(ppsList)), old(offs(ppsList)), old(lens(ppsList)), old(mem8()), off(ppsList), iter + 1), mt_le(old(arrs(ppsList)), old(offs(ppsList)), old(lens(ppsList)), old(mem8()), off(ppsList), iter), mt_le(old(arrs(spsList)), old(offs(spsList)), old(lens(spsList)), old(mem8()), off(spsList), len(spsList))
  loop 4
    inv wOK(writer) && same(W(writer).data, bytes) && fresh(bytes) && fresh(writer) && len(bytes) == 7 + old(tP(spsList, len(spsList))) + old(tP(ppsList, len(ppsList)))
    inv W(writer).offset == 7 + old(mP(spsList, len(spsList))) + old(mP(ppsList, iter))
    inv [fits] all(k, 0, iter, old(unitFits(ppsList, k, 0)))
    inv [units] uIn(bytes(bytes), off(bytes) + 7 + old(mP(spsList, len(spsList))), ppsList, iter)
    inv [count] bytes[6 + old(mP(spsList, len(spsList)))] == len(ppsList)
    inv [sps] uIn(bytes(bytes), off(bytes) + 6, spsList, len(spsList))
  set loop 4 body: mHead = bytes(bytes)
  assert loop 4 back: all(q, off(bytes), off(bytes) + 7 + old(mP(spsList, len(spsList))) + old(mP(ppsList, iter - 1)), sel(bytes(bytes), q) == sel(ghost(mHead), q))
  assert loop 4 back: be16(bytes(bytes), off(bytes) + 7 + old(mP(spsList, len(spsList))) + old(mP(ppsList, iter - 1))) == old(stripN(ppsList, iter - 1))
  assert loop 4 back: bytes(ppsList[iter - 1]) == old(bytes(ppsList[iter - 1]))
  assert loop 4 back: let(b, off(bytes) + 7 + old(mP(spsList, len(spsList))) + old(mP(ppsList, iter - 1)) + 2, all(q, b, b + old(stripN(ppsList, iter - 1)), sel(bytes(bytes), q) == old(sel(bytes(ppsList[iter - 1]), stripO(ppsList, iter - 1) + (q - b)))))
  use loop 4 back: uia_frame(ghost(mHead), bytes(bytes), off(bytes) + 7 + old(mP(spsList, len(spsList))), old(arrs(ppsList)), old(offs(ppsList)), old(lens(ppsList)), old(mem8()), off(ppsList), iter - 1), uia_step(bytes(bytes), off(bytes) + 7 + old(mP(spsList, len(spsList))), old(arrs(ppsList)), old(offs(ppsList)), old(lens(ppsList)), old(mem8()), off(ppsList), iter - 1), uia_frame(ghost(mHead), bytes(bytes), off(bytes) + 6, old(arrs(spsList)), old(offs(spsList)), old(lens(spsList)), old(mem8()), off(spsList), len(spsList))
  set loop 3 exit: mHead = bytes(bytes)
  set loop 4 exit: mHead = bytes(bytes)
  use exit: uia_frame(ghost(mHead), bytes(r), off(r) + 6, old(arrs(spsList)), old(offs(spsList)), old(lens(spsList)), old(mem8()), off(spsList), len(spsList)), uia_frame(ghost(mHead), bytes(r), off(r) + 7 + old(mP(spsList, len(spsList))), old(arrs(ppsList)), old(offs(ppsList)), old(lens(ppsList)), old(mem8()), off(ppsList), len(ppsList)), mt_le(old(arrs(spsList)), old(offs(spsList)), old(lens(spsList)), old(mem8()), off(spsList), len(spsList)), mt_le(old(arrs(ppsList)), old(offs(ppsList)), old(lens(ppsList)), old(mem8()), off(ppsList), len(ppsList))
  use exit: uia_pos(bytes(r), off(r) + 6, old(arrs(spsList)), old(offs(spsList)), old(lens(spsList)), old(mem8()), off(spsList), len(spsList), len(spsList)), uia_pos(bytes(r), off(r) + 7 + old(mP(spsList, len(spsList))), old(arrs(ppsList)), old(offs(ppsList)), old(lens(ppsList)), old(mem8()), off(ppsList), len(ppsList), len(ppsList)), m_step(old(arrs(spsList)), old(offs(spsList)), old(lens(spsList)), old(mem8()), off(spsList), 0), m_step(old(arrs(ppsList)), old(offs(ppsList)), old(lens(ppsList)), old(mem8()), off(ppsList), 0)
  use exit: uia_fit(bytes(r), off(r) + 6, off(r) + len(r), old(arrs(spsList)), old(offs(spsList)), old(lens(spsList)), old(mem8()), off(spsList), 0, len(spsList)), uia_fit(bytes(r), off(r) + 7 + old(mP(spsList, len(spsList))), off(r) + len(r), old(arrs(ppsList)), old(offs(ppsList)), old(lens(ppsList)), old(mem8()), off(ppsList), 0, len(ppsList))
  ensures [valid] (err == nil) <==> old(avcMOK(spsList, ppsList))
  ensures [none] err != nil ==> len(r) == 0
  ensures [size] err == nil ==> fresh(r) && len(r) == 7 + old(mP(spsList, len(spsList))) + old(mP(ppsList, len(ppsList)))
  ensures [fixed] err == nil ==> r[0] == 1 && r[4] == 255 && r[5] == 224 + len(spsList)
  ensures [profile] err == nil ==> all(j, 1, 4, r[j] == old(spsList[len(spsList) - 1][len(spsList[len(spsList) - 1]) - stripN(spsList, len(spsList) - 1) + j]))
  ensures [count] err == nil ==> r[6 + old(mP(spsList, len(spsList)))] == len(ppsList)
  ensures [sps] err == nil ==> uIn(bytes(r), off(r) + 6, spsList, len(spsList))
  ensures [pps] err == nil ==> uIn(bytes(r), off(r) + 7 + old(mP(spsList, len(spsList))), ppsList, len(ppsList))
  ensures [back] err == nil ==> avcN1(r) == len(spsList) && avcQ(r) == off(r) + 6 + old(mP(spsList, len(spsList))) && avcN2(r) == len(ppsList)
  ensures [accepted] err == nil ==> avcOK(r)
