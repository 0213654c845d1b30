# Sequence parameter sets (C17, C18)
# --- the payload without emulation prevention bytes: every 00 00 03 becomes 00 00, left to right ---
rec escLen(A: arr, i: int, e: int): int = ite(i >= e, 0, ite(i + 2 < e && sel(A, i) == 0 && sel(A, i + 1) == 0 && sel(A, i + 2) == 3, 2 + escLen(A, i + 3, e), 1 + escLen(A, i + 1, e)))
rec escAt(A: arr, i: int, e: int, k: int): int = ite(i >= e, 0, ite(i + 2 < e && sel(A, i) == 0 && sel(A, i + 1) == 0 && sel(A, i + 2) == 3, ite(k < 2, 0, escAt(A, i + 3, e, k - 2)), ite(k == 0, sel(A, i), escAt(A, i + 1, e, k - 1))))
opaque unescaped(A: arr, o: int, e: int): arr

func bytes.Replace(s, old, new, n) (r)
  trusted bytes.Replace with n < 0 replaces every occurrence from the left, without overlaps, in a copy
  requires len(old) == 3 && old[0] == 0 && old[1] == 0 && old[2] == 3 && len(new) == 2 && new[0] == 0 && new[1] == 0 && n == -1
  ensures fresh(r) || len(r) == 0
  ensures len(r) == escLen(bytes(s), off(s), off(s) + len(s)) && 0 <= len(r) && len(r) <= len(s)
  ensures all(k, 0, len(r), r[k] == escAt(bytes(s), off(s), off(s) + len(s), k))
  ensures len(r) > 0 ==> off(r) == 0 && bytes(r) == unescaped(bytes(s), off(s), off(s) + len(s))

func bytes.NewReader(b) (r)
  trusted bytes.NewReader reads the given slice from its start
  ensures r != nil && fresh(r) && same(r.s, b) && r.i == 0

# --- H.265 ---
def u1(A, p) = bitAt(A, 0, p)
def un(A, p, n) = bitsVal(A, 0, p, n)
def ue(A, p) = ueVal(A, 0, p)
def nx(A, p) = p + ueLen(A, 0, p)
rec hvSub(A: arr, p: int, i: int): int = ite(i <= 0, 0, hvSub(A, p, i - 1) + 88 * bitAt(A, 0, p + 2 * i - 2) + 8 * bitAt(A, 0, p + 2 * i - 1))
lemma hvSub_step(A: arr, p: int, i: int)
  ensures hvSub(A, p, 0) == 0
  ensures i >= 0 ==> hvSub(A, p, i + 1) == hvSub(A, p, i) + 88 * bitAt(A, 0, p + 2 * i) + 8 * bitAt(A, 0, p + 2 * i + 1)
lemma hvSub_range(A: arr, p: int, i: int)
  tags C18
  induct i
  requires 0 <= i && 0 <= p
  use hvSub_range(A, p, i - 1), hvSub_step(A, p, i - 1), hvSub_step(A, p, 0), bit_01(A, 0, p + 2 * i - 2), bit_01(A, 0, p + 2 * i - 1)
  fuel 0
  ensures 0 <= hvSub(A, p, i) && hvSub(A, p, i) <= 96 * i
lemma hvSub_mono(A: arr, p: int, i: int, m: int)
  tags C18
  induct m - i
  requires 0 <= i && i <= m && 0 <= p
  use hvSub_mono(A, p, i, m - 1), hvSub_step(A, p, m - 1), bit_01(A, 0, p + 2 * m - 2), bit_01(A, 0, p + 2 * m - 1)
  fuel 0
  ensures hvSub(A, p, i) <= hvSub(A, p, m)
# length of profile_tier_level at p with m sub-layers
def ptlLen(A, p, m) = 96 + ite(m == 0, 0, 16 + hvSub(A, p + 96, m))
rec ue3(A: arr, p: int, n: int): int = ite(n <= 0, p, ue3(A, nx(A, nx(A, nx(A, p))), n - 1))

func hevc.updatePTL(ctx, ptl)
  tags C18
  requires ctx != nil && ptl != nil
  modifies ctx.generalProfileSpace, ctx.generalTierFlag, ctx.generalProfileIDC, ctx.generalProfileCompatibilityFlags, ctx.generalConstraintIndicatorFlags, ctx.generalLevelIDC

func hevc.parsePTL(br, ctx, maxSubLayersMinus1) (err)
  tags C18
  fuel 0
  merge
  requires gOK(br) && off(br(br).s) == 0 && ctx != nil && maxSubLayersMinus1 <= 7
  modifies gr, br.left, br.buf, br(br).i, br(br).prevRune, ctx.generalProfileSpace, ctx.generalTierFlag, ctx.generalProfileIDC, ctx.generalProfileCompatibilityFlags, ctx.generalConstraintIndicatorFlags, ctx.generalLevelIDC
  use entry: hvSub_step(gArr(br), gPos(br) + 96, 0), hvSub_range(gArr(br), gPos(br) + 96, maxSubLayersMinus1)
  use loop 3 body: hvSub_mono(gArr(br), old(gPos(br)) + 96, i + 1, maxSubLayersMinus1), hvSub_step(gArr(br), old(gPos(br)) + 96, i), bit_01(gArr(br), 0, old(gPos(br)) + 96 + 2 * i), bit_01(gArr(br), 0, old(gPos(br)) + 96 + 2 * i + 1)
  loop 1
    inv 0 <= i && i <= maxSubLayersMinus1 && gOK(br) && same(br.R, old(br.R)) && err == nil
    inv gPos(br) == old(gPos(br)) + 96 + 2 * i
    inv all(k, 0, i, subLayerProfilePresentFlag[k] == u1(gArr(br), old(gPos(br)) + 96 + 2 * k) && subLayerLevelPresentFlag[k] == u1(gArr(br), old(gPos(br)) + 96 + 2 * k + 1))
    decreases maxSubLayersMinus1 - i
  loop 2
    inv maxSubLayersMinus1 <= i && i <= 8 && gOK(br) && same(br.R, old(br.R)) && err == nil
    inv gPos(br) == old(gPos(br)) + 96 + 2 * i
    decreases 8 - i
  loop 3
    inv 0 <= i && i <= maxSubLayersMinus1 && gOK(br) && same(br.R, old(br.R)) && err == nil
    inv gPos(br) == old(gPos(br)) + 112 + hvSub(gArr(br), old(gPos(br)) + 96, i)
    decreases maxSubLayersMinus1 - i
  ensures gOK(br) && same(br.R, old(br.R))
  ensures [ok] (err == nil) == (old(gPos(br)) + old(ptlLen(gArr(br), gPos(br), maxSubLayersMinus1)) <= gEnd(br))
  ensures [pos] err == nil ==> gPos(br) == old(gPos(br)) + ptlLen(gArr(br), old(gPos(br)), maxSubLayersMinus1)

lemma ue3_step(A: arr, p: int, n: int)
  ensures ue3(A, p, 0) == p
  ensures n > 0 ==> ue3(A, p, n) == ue3(A, nx(A, nx(A, nx(A, p))), n - 1)
lemma nx_range(A: arr, p: int)
  tags C17 C18
  use ue_def(A, 0, p)
  fuel 0
  ensures p + 1 <= nx(A, p) && nx(A, p) <= p + 65 && 0 <= ue(A, p) && ue(A, p) <= 8589934590
lemma ue3_range(A: arr, p: int, n: int)
  tags C18
  induct n
  requires 0 <= n
  use ue3_step(A, p, n), ue3_range(A, nx(A, nx(A, nx(A, p))), n - 1), nx_range(A, p), nx_range(A, nx(A, p)), nx_range(A, nx(A, nx(A, p)))
  fuel 0
  ensures p <= ue3(A, p, n)

# positions of the fields, after the two-byte NAL unit header
def sps5Max(A) = un(A, 4, 3)
def sps5Id(A) = 8 + ptlLen(A, 8, sps5Max(A))
def sps5Cf(A) = nx(A, sps5Id(A))
def sps5W(A) = nx(A, sps5Cf(A)) + ite(ue(A, sps5Cf(A)) == 3, 1, 0)
def sps5H(A) = nx(A, sps5W(A))
def sps5Win(A) = nx(A, sps5H(A))
def sps5L(A) = sps5Win(A) + 1
def sps5R(A) = nx(A, sps5L(A))
def sps5T(A) = nx(A, sps5R(A))
def sps5B(A) = nx(A, sps5T(A))
def sps5Depth(A) = ite(u1(A, sps5Win(A)) == 0, sps5L(A), nx(A, sps5B(A)))
def sps5Ord(A) = nx(A, nx(A, nx(A, sps5Depth(A))))
def sps5Tail(A) = ue3(A, sps5Ord(A) + 1, ite(u1(A, sps5Ord(A)) == 0, 1, sps5Max(A) + 1))
def sps5End(A) = nx(A, nx(A, nx(A, nx(A, nx(A, nx(A, sps5Tail(A)))))))
def sps5SubW(A) = let(c, ue(A, sps5Cf(A)), ite(c == 1 || c == 2, 2, 1))
def sps5SubH(A) = let(c, ue(A, sps5Cf(A)), ite(c == 1, 2, 1))
def sps5Width(A) = ue(A, sps5W(A)) - ite(u1(A, sps5Win(A)) == 0, 0, sps5SubW(A) * (ue(A, sps5L(A)) + ue(A, sps5R(A))))
def sps5Height(A) = ue(A, sps5H(A)) - ite(u1(A, sps5Win(A)) == 0, 0, sps5SubH(A) * (ue(A, sps5T(A)) + ue(A, sps5B(A))))

lemma sps5_chain(A: arr)
  tags C18
  use val_lt(A, 0, 4, 3), pw_is(3), hvSub_range(A, 104, sps5Max(A)), nx_range(A, sps5Id(A)), nx_range(A, sps5Cf(A)), nx_range(A, sps5W(A)), nx_range(A, sps5H(A)), nx_range(A, sps5L(A)), nx_range(A, sps5R(A)), nx_range(A, sps5T(A)), nx_range(A, sps5B(A))
  use bit_01(A, 0, sps5Win(A)), bit_01(A, 0, sps5Ord(A)), nx_range(A, sps5Depth(A)), nx_range(A, nx(A, sps5Depth(A))), nx_range(A, nx(A, nx(A, sps5Depth(A))))
  fuel 0
  ensures 0 <= sps5Max(A) && sps5Max(A) <= 7
  ensures 104 <= sps5Id(A) && sps5Id(A) < sps5Cf(A) && sps5Cf(A) < sps5W(A) && sps5W(A) < sps5H(A) && sps5H(A) < sps5Win(A) && sps5Win(A) < sps5L(A)
  ensures nx(A, sps5Cf(A)) <= sps5W(A) && sps5Cf(A) < nx(A, sps5Cf(A))
  ensures sps5L(A) < sps5R(A) && sps5R(A) < sps5T(A) && sps5T(A) < sps5B(A) && sps5B(A) < nx(A, sps5B(A))
  ensures sps5L(A) <= sps5Depth(A) && sps5Depth(A) < nx(A, sps5Depth(A)) && nx(A, sps5Depth(A)) < nx(A, nx(A, sps5Depth(A))) && nx(A, nx(A, sps5Depth(A))) < sps5Ord(A)
  ensures allx(c, 0, 1, 0 <= ue(A, sps5W(A)) && ue(A, sps5W(A)) <= 8589934590 && 0 <= ue(A, sps5H(A)) && ue(A, sps5H(A)) <= 8589934590)
  ensures 0 <= ue(A, sps5L(A)) && ue(A, sps5L(A)) <= 8589934590 && 0 <= ue(A, sps5R(A)) && ue(A, sps5R(A)) <= 8589934590 && 0 <= ue(A, sps5T(A)) && ue(A, sps5T(A)) <= 8589934590 && 0 <= ue(A, sps5B(A)) && ue(A, sps5B(A)) <= 8589934590
lemma sps5_tail(A: arr)
  tags C18
  use sps5_chain(A), ue3_range(A, sps5Ord(A) + 1, ite(u1(A, sps5Ord(A)) == 0, 1, sps5Max(A) + 1)), nx_range(A, sps5Tail(A)), nx_range(A, nx(A, sps5Tail(A))), nx_range(A, nx(A, nx(A, sps5Tail(A)))), nx_range(A, nx(A, nx(A, nx(A, sps5Tail(A))))), nx_range(A, nx(A, nx(A, nx(A, nx(A, sps5Tail(A)))))), nx_range(A, nx(A, nx(A, nx(A, nx(A, nx(A, sps5Tail(A)))))))
  fuel 0
  ensures sps5Ord(A) + 1 <= sps5Tail(A) && sps5Tail(A) < nx(A, sps5Tail(A)) && nx(A, sps5Tail(A)) < nx(A, nx(A, sps5Tail(A))) && nx(A, nx(A, sps5Tail(A))) < nx(A, nx(A, nx(A, sps5Tail(A))))
  ensures let(p, nx(A, nx(A, nx(A, sps5Tail(A)))), p < nx(A, p) && nx(A, p) < nx(A, nx(A, p)) && nx(A, nx(A, p)) < sps5End(A))

def spsBody(s) = let(k, leadLen(bytes(s), off(s), len(s)), s[k:])
def sps5Bits(s) = let(b, spsBody(s), unescaped(bytes(b), off(b) + 2, off(b) + len(b)))
def sps5Len(s) = let(b, spsBody(s), escLen(bytes(b), off(b) + 2, off(b) + len(b)))
def sps5OK(s) = len(spsBody(s)) >= 2 && sps5End(sps5Bits(s)) <= 8 * sps5Len(s)

# the position so far and before the last read, in the terms of the definitions above
ghostvar gpA: arr
ghostvar gpN: int
ghostvar gp: int
ghostvar gq: int
func hevc.ParseSPS(sps) (ctx, err)
  tags C18
  opt sep
  fuel 0
  merge
  opt lazy
  requires len(sps) <= 281474976710656
  modifies gpA, gpN, gp, gq, gr
  set entry: gpA = sps5Bits(sps)
  set entry: gpN = sps5Len(sps)
  set entry: gp = 0
  set after bufio.GolombBitReader.ReadBits: gq = gp
  set after bufio.GolombBitReader.ReadBits: gp = gp + $n
  set after bufio.GolombBitReader.ReadBit: gq = gp
  set after bufio.GolombBitReader.ReadBit: gp = gp + 1
  set after bufio.GolombBitReader.ReadExponentialGolombCode: gq = gp
  set after bufio.GolombBitReader.ReadExponentialGolombCode: gp = nx(gpA, gp)
  set after hevc.parsePTL: gp = gp + ptlLen(gpA, gp, sps5Max(gpA))
  assert after bytes.NewReader: len($r.s) == gpN && (gpN > 0 ==> gArrR($r) == gpA)
  assert after bufio.GolombBitReader.ReadBits: ite($err == nil, gPos($self) == gp && $res == un(gpA, gq, $n), gp > 8 * gpN)
  assert after bufio.GolombBitReader.ReadBit: ite($err == nil, gPos($self) == gp && $res == u1(gpA, gq), gp > 8 * gpN)
  assert after bufio.GolombBitReader.ReadExponentialGolombCode: ite($err == nil, gPos($self) == gp && $res == ue(gpA, gq), gp > 8 * gpN)
  assert after hevc.parsePTL: ite($err == nil, gPos($br) == gp, gp > 8 * gpN)
  use call hevc.parsePTL: val_lt(gpA, 0, 4, 3), pw_is(3)
  use exit: sps5_chain(old(sps5Bits(sps))), sps5_tail(old(sps5Bits(sps)))
  use loop 1 body: ue3_step(gpA, gp, spsMaxSubLayersMinus1 + 1 - i), ue3_step(gpA, gp, 0), nx_range(gpA, gp), nx_range(gpA, nx(gpA, gp)), nx_range(gpA, nx(gpA, nx(gpA, gp))), ue3_range(gpA, nx(gpA, nx(gpA, nx(gpA, gp))), spsMaxSubLayersMinus1 - i)
  use loop 1 exit: ue3_step(gpA, gp, 0)
  set loop 1 exit: gp = sps5Tail(gpA)
  use loop 1 init: nx_range(gpA, sps5W(gpA)), nx_range(gpA, sps5H(gpA)), nx_range(gpA, sps5L(gpA)), nx_range(gpA, sps5R(gpA)), nx_range(gpA, sps5T(gpA)), nx_range(gpA, sps5B(gpA))
  assert loop 1 init: spsMaxSubLayersMinus1 == sps5Max(gpA) && i == ite(u1(gpA, sps5Ord(gpA)) == 0, spsMaxSubLayersMinus1, 0)
  assert loop 1 init: gp == sps5Ord(gpA) + 1
  assert loop 1 init: u1(gpA, sps5Win(gpA)) == 0 ==> ctx.Width == sps5Width(gpA) && ctx.Height == sps5Height(gpA)
  assert loop 1 init: u1(gpA, sps5Win(gpA)) != 0 ==> ctx.Width == sps5Width(gpA)
  assert loop 1 init: u1(gpA, sps5Win(gpA)) != 0 ==> ctx.Height == sps5Height(gpA)
  loop 1
    inv gOK(br) && err == nil && 0 <= i && i <= spsMaxSubLayersMinus1 + 1 && gPos(br) == gp
    inv ue3(gpA, gp, spsMaxSubLayersMinus1 + 1 - i) == sps5Tail(gpA)
    decreases spsMaxSubLayersMinus1 + 1 - i
  ensures [ok] (err == nil) == old(sps5OK(sps))
  ensures [luma] err == nil ==> ctx.PicWidthInLumaSamples == old(ue(sps5Bits(sps), sps5W(sps5Bits(sps)))) && ctx.PicHeightInLumaSamples == old(ue(sps5Bits(sps), sps5H(sps5Bits(sps))))
  ensures [width] err == nil ==> ctx.Width == old(sps5Width(sps5Bits(sps)))
  ensures [height] err == nil ==> ctx.Height == old(sps5Height(sps5Bits(sps)))

# --- H.264 ---
def sps4Hi(f) = f == 100 || f == 110 || f == 122 || f == 244 || f == 44 || f == 83 || f == 86 || f == 118 || f == 128 || f == 138 || f == 139 || f == 134 || f == 135
def sps4Prof(A) = un(A, 8, 8)
def seMath(c) = ite(c % 2 == 1, (c + 1) / 2, 0 - c / 2)
# one scaling list from its j-th entry on; all lists from the i-th on; n se(v) codes
rec sl4x(A: arr, p: int, j: int, m: int, last: int, next: int): int = ite(j >= m, p, ite(next == 0, sl4x(A, p, j + 1, m, last, 0), let(k, (last + seMath(ue(A, p)) + 256) % 256, sl4x(A, nx(A, p), j + 1, m, ite(k != 0, k, last), k))))
rec sl4(A: arr, p: int, i: int, n: int): int = ite(i >= n, p, ite(u1(A, p) == 0, sl4(A, p + 1, i + 1, n), sl4(A, sl4x(A, p + 1, 0, ite(i < 6, 16, 64), 8, 8), i + 1, n)))
rec ses(A: arr, p: int, n: int): int = ite(n <= 0, p, ses(A, nx(A, p), n - 1))
lemma sl4x_step(A: arr, p: int, j: int, m: int, last: int, next: int)
  ensures j >= m ==> sl4x(A, p, j, m, last, next) == p
  ensures j < m && next == 0 ==> sl4x(A, p, j, m, last, next) == sl4x(A, p, j + 1, m, last, 0)
  ensures j < m && next != 0 ==> let(k, (last + seMath(ue(A, p)) + 256) % 256, sl4x(A, p, j, m, last, next) == sl4x(A, nx(A, p), j + 1, m, ite(k != 0, k, last), k))
lemma sl4_step(A: arr, p: int, i: int, n: int)
  ensures i >= n ==> sl4(A, p, i, n) == p
  ensures i < n ==> sl4(A, p, i, n) == ite(u1(A, p) == 0, sl4(A, p + 1, i + 1, n), sl4(A, sl4x(A, p + 1, 0, ite(i < 6, 16, 64), 8, 8), i + 1, n))
lemma ses_step(A: arr, p: int, n: int)
  ensures ses(A, p, 0) == p
  ensures n > 0 ==> ses(A, p, n) == ses(A, nx(A, p), n - 1)
lemma sl4x_range(A: arr, p: int, j: int, m: int, last: int, next: int)
  tags C17
  induct m - j
  requires j <= m
  use sl4x_step(A, p, j, m, last, next), nx_range(A, p), sl4x_range(A, p, j + 1, m, last, 0), sl4x_range(A, nx(A, p), j + 1, m, ite((last + seMath(ue(A, p)) + 256) % 256 != 0, (last + seMath(ue(A, p)) + 256) % 256, last), (last + seMath(ue(A, p)) + 256) % 256)
  fuel 0
  ensures p <= sl4x(A, p, j, m, last, next)
lemma sl4_range(A: arr, p: int, i: int, n: int)
  tags C17
  induct n - i
  requires i <= n
  use sl4_step(A, p, i, n), sl4_range(A, p + 1, i + 1, n), sl4_range(A, sl4x(A, p + 1, 0, ite(i < 6, 16, 64), 8, 8), i + 1, n), sl4x_range(A, p + 1, 0, ite(i < 6, 16, 64), 8, 8)
  fuel 0
  ensures p <= sl4(A, p, i, n)
lemma ses_range(A: arr, p: int, n: int)
  tags C17
  induct n
  requires 0 <= n
  use ses_step(A, p, n), ses_range(A, nx(A, p), n - 1), nx_range(A, p)
  fuel 0
  ensures p <= ses(A, p, n)

# positions of the fields; each is a function of the bits with its definition as a lemma
rec sps4Cf(A: arr): int = nx(A, 32)
rec sps4Depth(A: arr): int = nx(A, sps4Cf(A)) + ite(ue(A, sps4Cf(A)) == 3, 1, 0)
rec sps4Flag(A: arr): int = nx(A, nx(A, sps4Depth(A))) + 1
def sps4N(A) = ite(ue(A, sps4Cf(A)) == 3, 12, 8)
rec sps4Fn(A: arr): int = ite(sps4Hi(sps4Prof(A)), ite(u1(A, sps4Flag(A)) == 0, sps4Flag(A) + 1, sl4(A, sps4Flag(A) + 1, 0, sps4N(A))), sps4Cf(A))
rec sps4T(A: arr): int = nx(A, sps4Fn(A))
rec sps4Cyc(A: arr): int = nx(A, nx(A, nx(A, sps4T(A)) + 1))
rec sps4Poc(A: arr): int = ite(ue(A, sps4T(A)) == 0, nx(A, nx(A, sps4T(A))), ite(ue(A, sps4T(A)) == 1, ses(A, nx(A, sps4Cyc(A)), ue(A, sps4Cyc(A))), nx(A, sps4T(A))))
rec sps4W(A: arr): int = nx(A, sps4Poc(A)) + 1
rec sps4H(A: arr): int = nx(A, sps4W(A))
rec sps4Fm(A: arr): int = nx(A, sps4H(A))
rec sps4D(A: arr): int = sps4Fm(A) + 1 + ite(u1(A, sps4Fm(A)) == 0, 1, 0)
rec sps4L(A: arr): int = sps4D(A) + 2
rec sps4R(A: arr): int = nx(A, sps4L(A))
rec sps4Tp(A: arr): int = nx(A, sps4R(A))
rec sps4B(A: arr): int = nx(A, sps4Tp(A))
rec sps4Vui(A: arr): int = ite(u1(A, sps4Crop(A)) == 0, sps4L(A), nx(A, sps4B(A)))
rec vuiAsp(A: arr): int = let(a, sps4Vui(A) + 1, ite(u1(A, a) == 0, a + 1, a + 9 + ite(un(A, a + 1, 8) == 255, 32, 0)))
rec vuiOver(A: arr): int = vuiAsp(A) + 1 + ite(u1(A, vuiAsp(A)) == 0, 0, 1)
rec vuiSig(A: arr): int = ite(u1(A, vuiOver(A)) == 0, vuiOver(A) + 1, vuiOver(A) + 6 + ite(u1(A, vuiOver(A) + 5) == 0, 0, 24))
rec vuiLoc(A: arr): int = ite(u1(A, vuiSig(A)) == 0, vuiSig(A) + 1, nx(A, nx(A, vuiSig(A) + 1)))
rec sps4End(A: arr): int = ite(u1(A, sps4Vui(A)) == 0, sps4Vui(A) + 1, vuiLoc(A) + 1 + ite(u1(A, vuiLoc(A)) == 0, 0, 65))
def sps4Crop(A) = sps4D(A) + 1
lemma sps4_defs(A: arr)
  fuel 1
  ensures sps4Cf(A) == nx(A, 32) && sps4Depth(A) == nx(A, sps4Cf(A)) + ite(ue(A, sps4Cf(A)) == 3, 1, 0) && sps4Flag(A) == nx(A, nx(A, sps4Depth(A))) + 1
  ensures !sps4Hi(sps4Prof(A)) ==> sps4Fn(A) == sps4Cf(A)
  ensures sps4Hi(sps4Prof(A)) ==> sps4Fn(A) == ite(u1(A, sps4Flag(A)) == 0, sps4Flag(A) + 1, sl4(A, sps4Flag(A) + 1, 0, sps4N(A)))
  ensures sps4T(A) == nx(A, sps4Fn(A)) && sps4Cyc(A) == nx(A, nx(A, nx(A, sps4T(A)) + 1))
  ensures ue(A, sps4T(A)) == 0 ==> sps4Poc(A) == nx(A, nx(A, sps4T(A)))
  ensures ue(A, sps4T(A)) == 1 ==> sps4Poc(A) == ses(A, nx(A, sps4Cyc(A)), ue(A, sps4Cyc(A)))
  ensures ue(A, sps4T(A)) > 1 || ue(A, sps4T(A)) < 0 ==> sps4Poc(A) == nx(A, sps4T(A))
  ensures sps4W(A) == nx(A, sps4Poc(A)) + 1 && sps4H(A) == nx(A, sps4W(A)) && sps4Fm(A) == nx(A, sps4H(A)) && sps4D(A) == sps4Fm(A) + 1 + ite(u1(A, sps4Fm(A)) == 0, 1, 0)
  ensures sps4L(A) == sps4D(A) + 2 && sps4R(A) == nx(A, sps4L(A)) && sps4Tp(A) == nx(A, sps4R(A)) && sps4B(A) == nx(A, sps4Tp(A))
  ensures sps4Vui(A) == ite(u1(A, sps4Crop(A)) == 0, sps4L(A), nx(A, sps4B(A)))
lemma vui_defs(A: arr)
  fuel 1
  ensures vuiAsp(A) == ite(u1(A, sps4Vui(A) + 1) == 0, sps4Vui(A) + 2, sps4Vui(A) + 10 + ite(un(A, sps4Vui(A) + 2, 8) == 255, 32, 0))
  ensures vuiOver(A) == vuiAsp(A) + 1 + ite(u1(A, vuiAsp(A)) == 0, 0, 1)
  ensures vuiSig(A) == ite(u1(A, vuiOver(A)) == 0, vuiOver(A) + 1, vuiOver(A) + 6 + ite(u1(A, vuiOver(A) + 5) == 0, 0, 24))
  ensures vuiLoc(A) == ite(u1(A, vuiSig(A)) == 0, vuiSig(A) + 1, nx(A, nx(A, vuiSig(A) + 1)))
  ensures sps4End(A) == ite(u1(A, sps4Vui(A)) == 0, sps4Vui(A) + 1, vuiLoc(A) + 1 + ite(u1(A, vuiLoc(A)) == 0, 0, 65))
# the next field (a stage of the syntax) after a field with value v, and the position of a field
def sps4Next(g, v, hi) = ite(g == 4, ite(hi, 5, 12), ite(g == 5, ite(v == 3, 6, 7), ite(g == 10, ite(v == 0, 12, 11), ite(g == 11, 11, ite(g == 13, ite(v == 0, 14, ite(v == 1, 15, 20)), ite(g == 14, 20, ite(g == 19, 19, ite(g == 24, ite(v == 0, 25, 26), ite(g == 27, ite(v == 0, 32, 28), vuiNext(g, v))))))))))
def vuiNext(g, v) = ite(g == 32, ite(v == 0, 53, 33), ite(g == 33, ite(v == 0, 37, 34), ite(g == 34, ite(v == 255, 35, 37), ite(g == 37, ite(v == 0, 39, 38), ite(g == 39, ite(v == 0, 46, 40), ite(g == 42, ite(v == 0, 46, 43), ite(g == 46, ite(v == 0, 49, 47), ite(g == 49, ite(v == 0, 53, 50), g + 1))))))))
def sps4At(A, g, p) = ite(g == 0, 0, ite(g == 1, 8, ite(g == 2, 16, ite(g == 3, 24, ite(g == 4, 32, ite(g == 5, sps4Cf(A), ite(g == 6, nx(A, sps4Cf(A)), ite(g == 7, sps4Depth(A), ite(g == 10, sps4Flag(A), ite(g == 12, sps4Fn(A), ite(g == 13, sps4T(A), ite(g == 18, sps4Cyc(A), ite(g == 20, sps4Poc(A), ite(g == 22, sps4W(A), ite(g == 23, sps4H(A), ite(g == 24, sps4Fm(A), ite(g == 26, sps4D(A), ite(g == 27, sps4Crop(A), ite(g == 28, sps4L(A), ite(g == 29, sps4R(A), ite(g == 30, sps4Tp(A), ite(g == 31, sps4B(A), ite(g == 32, sps4Vui(A), vuiAt(A, g, p))))))))))))))))))))))))
def vuiAt(A, g, p) = ite(g == 37, vuiAsp(A), ite(g == 39, vuiOver(A), ite(g == 46, vuiSig(A), ite(g == 49, vuiLoc(A), ite(g == 53, sps4End(A), p)))))

def sps4UX(A) = sps4Hi(sps4Prof(A)) && (ue(A, sps4Cf(A)) == 0 || ue(A, sps4Cf(A)) == 3)
def sps4UY(A) = sps4Hi(sps4Prof(A)) && (ue(A, sps4Cf(A)) == 0 || ue(A, sps4Cf(A)) == 3 || ue(A, sps4Cf(A)) == 2)
def sps4CL(A) = ite(u1(A, sps4Crop(A)) == 0, 0, ue(A, sps4L(A)))
def sps4CR(A) = ite(u1(A, sps4Crop(A)) == 0, 0, ue(A, sps4R(A)))
def sps4CT(A) = ite(u1(A, sps4Crop(A)) == 0, 0, ue(A, sps4Tp(A)))
def sps4CB(A) = ite(u1(A, sps4Crop(A)) == 0, 0, ue(A, sps4B(A)))
def sps4Width(A) = 16 * (ue(A, sps4W(A)) + 1) - let(c, sps4CL(A) + sps4CR(A), ite(sps4UX(A), c, 2 * c))
# one field of an interlaced frame has half the height: everything vertical counts twice
def sps4Height(A) = let(h, 16 * (ue(A, sps4H(A)) + 1) - let(c, sps4CT(A) + sps4CB(A), ite(sps4UY(A), c, 2 * c)), ite(u1(A, sps4Fm(A)) == 0, 2 * h, h))
def sps4Bits(s) = let(b, spsBody(s), unescaped(bytes(b), off(b), off(b) + len(b)))
def sps4Len(s) = let(b, spsBody(s), escLen(bytes(b), off(b), off(b) + len(b)))
def sps4OK(s) = sps4End(sps4Bits(s)) <= 8 * sps4Len(s)

func math.Floor(x) (r)
  trusted math.Floor (only the frame rate depends on it)
  opt pure

lemma sps4_chain(A: arr)
  tags C17
  use sps4_defs(A), nx_range(A, 32), nx_range(A, sps4Cf(A)), nx_range(A, sps4Depth(A)), nx_range(A, nx(A, sps4Depth(A))), bit_01(A, 0, sps4Flag(A)), sl4_range(A, sps4Flag(A) + 1, 0, sps4N(A)), nx_range(A, sps4Fn(A)), nx_range(A, sps4T(A)), nx_range(A, nx(A, sps4T(A))), nx_range(A, nx(A, sps4T(A)) + 1), nx_range(A, nx(A, nx(A, sps4T(A)) + 1)), nx_range(A, sps4Cyc(A)), ses_range(A, nx(A, sps4Cyc(A)), ue(A, sps4Cyc(A))), nx_range(A, sps4Poc(A))
  fuel 0
  ensures 32 < sps4Cf(A) && sps4Cf(A) < nx(A, sps4Cf(A)) && nx(A, sps4Cf(A)) <= sps4Depth(A) && sps4Depth(A) < nx(A, sps4Depth(A)) && nx(A, sps4Depth(A)) < nx(A, nx(A, sps4Depth(A))) && nx(A, nx(A, sps4Depth(A))) < sps4Flag(A)
  ensures sps4Hi(sps4Prof(A)) ==> sps4Flag(A) < sps4Fn(A)
  ensures sps4Cf(A) <= sps4Fn(A) && sps4Fn(A) < sps4T(A) && sps4T(A) < nx(A, sps4T(A)) && nx(A, sps4T(A)) <= sps4Poc(A)
  ensures ue(A, sps4T(A)) == 1 ==> nx(A, sps4T(A)) + 1 < nx(A, nx(A, sps4T(A)) + 1) && nx(A, nx(A, sps4T(A)) + 1) < sps4Cyc(A) && sps4Cyc(A) < nx(A, sps4Cyc(A)) && nx(A, sps4Cyc(A)) <= sps4Poc(A)
  ensures sps4Poc(A) < nx(A, sps4Poc(A)) && nx(A, sps4Poc(A)) < sps4W(A)
lemma sps4_geom(A: arr)
  tags C17
  use sps4_defs(A), nx_range(A, sps4W(A)), nx_range(A, sps4H(A)), nx_range(A, sps4L(A)), nx_range(A, sps4R(A)), nx_range(A, sps4Tp(A)), nx_range(A, sps4B(A))
  fuel 0
  ensures sps4W(A) < sps4H(A) && sps4H(A) < sps4Fm(A) && sps4Fm(A) + 2 <= sps4Crop(A) && sps4Crop(A) < sps4L(A) && sps4L(A) < sps4R(A) && sps4R(A) < sps4Tp(A) && sps4Tp(A) < sps4B(A) && sps4B(A) < nx(A, sps4B(A))
  ensures sps4L(A) <= sps4Vui(A) && (u1(A, sps4Crop(A)) != 0 ==> nx(A, sps4B(A)) <= sps4Vui(A))
  ensures 0 <= ue(A, sps4W(A)) && ue(A, sps4W(A)) <= 8589934590 && 0 <= ue(A, sps4H(A)) && ue(A, sps4H(A)) <= 8589934590
  ensures 0 <= ue(A, sps4L(A)) && ue(A, sps4L(A)) <= 8589934590 && 0 <= ue(A, sps4R(A)) && ue(A, sps4R(A)) <= 8589934590 && 0 <= ue(A, sps4Tp(A)) && ue(A, sps4Tp(A)) <= 8589934590 && 0 <= ue(A, sps4B(A)) && ue(A, sps4B(A)) <= 8589934590
lemma sps4_vui(A: arr)
  tags C17
  use vui_defs(A), nx_range(A, vuiSig(A) + 1), nx_range(A, nx(A, vuiSig(A) + 1))
  fuel 0
  ensures sps4Vui(A) + 1 <= sps4End(A)
  ensures u1(A, sps4Vui(A)) != 0 ==> sps4Vui(A) + 2 <= vuiAsp(A) && vuiAsp(A) < vuiOver(A) && vuiOver(A) < vuiSig(A) && vuiSig(A) < vuiLoc(A) && vuiLoc(A) < sps4End(A)
  ensures u1(A, vuiSig(A)) != 0 ==> vuiSig(A) + 1 < nx(A, vuiSig(A) + 1) && nx(A, vuiSig(A) + 1) < vuiLoc(A)

ghostvar gs: int
ghostvar gb: int
ghostvar gst: int
ghostvar gpr: int
ghostvar ghi: bool
func avc.ParseSPS(data) (s, err)
  tags C17
  opt sep
  fuel 0
  merge
  opt lazy
  opt smallmul
  requires len(data) <= 281474976710656
  modifies gpA, gpN, gp, gq, gr, gs, gst, ghi, gb, gpr
  set entry: gpA = sps4Bits(data)
  set entry: gpN = sps4Len(data)
  set entry: gp = 0
  set entry: gst = 0
  set entry: ghi = false
  use entry: sps4_defs(sps4Bits(data)), vui_defs(sps4Bits(data)), sps4_geom(sps4Bits(data))
  set after bufio.GolombBitReader.ReadBits: gq = gp
  set after bufio.GolombBitReader.ReadBits: gs = gp + $n
  set after bufio.GolombBitReader.ReadBits: gpr = gst
  set after bufio.GolombBitReader.ReadBits: ghi = ite(gst == 1, sps4Hi($res), ghi)
  set after bufio.GolombBitReader.ReadBits: gst = sps4Next(gst, $res, ghi)
  set after bufio.GolombBitReader.ReadBits: gp = ite($err == nil, sps4At(gpA, gst, gs), gs)
  assert after bufio.GolombBitReader.ReadBits: ite($err == nil, gp == gs && gPos($self) == gp && $res == un(gpA, gq, $n), gp > 8 * gpN)
  set after bufio.GolombBitReader.ReadBit: gq = gp
  set after bufio.GolombBitReader.ReadBit: gs = gp + 1
  set after bufio.GolombBitReader.ReadBit: gpr = gst
  set after bufio.GolombBitReader.ReadBit: ghi = ite(gst == 1, sps4Hi($res), ghi)
  set after bufio.GolombBitReader.ReadBit: gst = sps4Next(gst, $res, ghi)
  set after bufio.GolombBitReader.ReadBit: gp = ite($err == nil, sps4At(gpA, gst, gs), gs)
  assert after bufio.GolombBitReader.ReadBit: ite($err == nil, gp == gs && gPos($self) == gp && $res == u1(gpA, gq), gp > 8 * gpN)
  set after bufio.GolombBitReader.ReadExponentialGolombCode: gq = gp
  set after bufio.GolombBitReader.ReadExponentialGolombCode: gs = nx(gpA, gp)
  set after bufio.GolombBitReader.ReadExponentialGolombCode: gpr = gst
  set after bufio.GolombBitReader.ReadExponentialGolombCode: ghi = ite(gst == 1, sps4Hi($res), ghi)
  set after bufio.GolombBitReader.ReadExponentialGolombCode: gst = sps4Next(gst, $res, ghi)
  set after bufio.GolombBitReader.ReadExponentialGolombCode: gp = ite($err == nil, sps4At(gpA, gst, gs), gs)
  assert after bufio.GolombBitReader.ReadExponentialGolombCode: ite($err == nil, gp == gs && gPos($self) == gp && $res == ue(gpA, gq), gp > 8 * gpN)
  set after bufio.GolombBitReader.ReadSE: gq = gp
  set after bufio.GolombBitReader.ReadSE: gs = nx(gpA, gp)
  set after bufio.GolombBitReader.ReadSE: gpr = gst
  set after bufio.GolombBitReader.ReadSE: ghi = ite(gst == 1, sps4Hi($res), ghi)
  set after bufio.GolombBitReader.ReadSE: gst = sps4Next(gst, $res, ghi)
  set after bufio.GolombBitReader.ReadSE: gp = ite($err == nil, sps4At(gpA, gst, gs), gs)
  assert after bufio.GolombBitReader.ReadSE: ite($err == nil, gp == gs && gPos($self) == gp && $res == seOf(ue(gpA, gq)), gp > 8 * gpN)
  assert after bufio.GolombBitReader.ReadBit: gpr == 32 ==> s.CropLeft == sps4CL(gpA) && s.CropRight == sps4CR(gpA)
  assert after bufio.GolombBitReader.ReadBit: gpr == 32 ==> s.CropTop == sps4CT(gpA) && s.CropBottom == sps4CB(gpA)
  assert after bufio.GolombBitReader.ReadBit: gpr == 32 ==> cropUnitX == ite(sps4UX(gpA), 1, 2)
  assert after bufio.GolombBitReader.ReadBit: gpr == 32 ==> cropUnitY == ite(sps4UY(gpA), 1, 2) * ite(u1(gpA, sps4Fm(gpA)) == 0, 2, 1)
  assert after bufio.GolombBitReader.ReadBit: gpr == 32 ==> s.Width == sps4Width(gpA)
  assert after bufio.GolombBitReader.ReadBit: gpr == 32 ==> s.Height == sps4Height(gpA)
  assert after bytes.NewReader: len($r.s) == gpN && (gpN > 0 ==> gArrR($r) == gpA)
  use exit: sps4_chain(old(sps4Bits(data))), sps4_vui(old(sps4Bits(data)))
  loop 1
    inv 0 <= i && i <= scaling_list_count && scaling_list_count == sps4N(gpA) && gOK(r) && err == nil && gPos(r) == gp && gst == 11
    inv sl4(gpA, gp, i, sps4N(gpA)) == sl4(gpA, sps4Flag(gpA) + 1, 0, sps4N(gpA))
    decreases scaling_list_count - i
  set loop 1 body: gst = 11
  use loop 1 body: sl4_step(gpA, gp, i, sps4N(gpA)), sl4_range(gpA, gp + 1, i + 1, sps4N(gpA)), sl4_range(gpA, sl4x(gpA, gp + 1, 0, ite(i < 6, 16, 64), 8, 8), i + 1, sps4N(gpA)), sl4x_range(gpA, gp + 1, 0, ite(i < 6, 16, 64), 8, 8)
  use loop 1 exit: sl4_step(gpA, gp, i, sps4N(gpA))
  set loop 1 exit: gst = 12
  set loop 1 exit: gp = sps4Fn(gpA)
  set loop 2 init: gb = gp
  loop 2
    inv 0 <= j && j <= sizeOfScalingList && gOK(r) && err == nil && gPos(r) == gp && lastScale <= 255 && nextScale <= 255 && gst == 11
    inv sl4x(gpA, gp, j, sizeOfScalingList, lastScale, nextScale) == sl4x(gpA, gb, 0, sizeOfScalingList, 8, 8)
    decreases sizeOfScalingList - j
  set loop 2 body: gst = 11
  set loop 2 exit: gst = 11
  use loop 2 body: sl4x_step(gpA, gp, j, sizeOfScalingList, lastScale, nextScale), nx_range(gpA, gp), sl4x_range(gpA, nx(gpA, gp), j + 1, sizeOfScalingList, ite((lastScale + seMath(ue(gpA, gp)) + 256) % 256 != 0, (lastScale + seMath(ue(gpA, gp)) + 256) % 256, lastScale), (lastScale + seMath(ue(gpA, gp)) + 256) % 256)
  use loop 2 exit: sl4x_step(gpA, gp, j, sizeOfScalingList, lastScale, nextScale)
  loop 3
    inv 0 <= i && i <= num_ref_frames_in_pic_order_cnt_cycle && gOK(r) && err == nil && gPos(r) == gp && gst == 19
    inv ses(gpA, gp, num_ref_frames_in_pic_order_cnt_cycle - i) == sps4Poc(gpA)
    decreases num_ref_frames_in_pic_order_cnt_cycle - i
  set loop 3 body: gst = 19
  use loop 3 body: ses_step(gpA, gp, num_ref_frames_in_pic_order_cnt_cycle - i), ses_range(gpA, nx(gpA, gp), num_ref_frames_in_pic_order_cnt_cycle - i - 1)
  use loop 3 exit: ses_step(gpA, gp, 0)
  set loop 3 exit: gst = 20
  set loop 3 exit: gp = sps4Poc(gpA)
  ensures [ok] (err == nil) == old(sps4OK(data))
  ensures [head] err == nil ==> s.ProfileIdc == old(sps4Prof(sps4Bits(data))) && s.ConstraintSetFlag == old(un(sps4Bits(data), 16, 8)) / 4 && s.LevelIdc == old(un(sps4Bits(data), 24, 8)) && s.Id == old(ue(sps4Bits(data), 32))
  ensures [mbs] err == nil ==> s.MbWidth == old(ue(sps4Bits(data), sps4W(sps4Bits(data)))) + 1 && s.MbHeight == old(ue(sps4Bits(data), sps4H(sps4Bits(data)))) + 1
  ensures [crop] err == nil ==> s.CropLeft == old(sps4CL(sps4Bits(data))) && s.CropRight == old(sps4CR(sps4Bits(data))) && s.CropTop == old(sps4CT(sps4Bits(data))) && s.CropBottom == old(sps4CB(sps4Bits(data)))
  ensures [width] err == nil ==> s.Width == old(sps4Width(sps4Bits(data)))
  ensures [height] err == nil ==> s.Height == old(sps4Height(sps4Bits(data)))
