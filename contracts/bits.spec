# Bit strings (C03, C04)
# bit p of the bytes from o on, most significant bit first
def bitOf(x, k) = ite(k == 7, x % 2, ite(k == 6, x / 2 % 2, ite(k == 5, x / 4 % 2, ite(k == 4, x / 8 % 2, ite(k == 3, x / 16 % 2, ite(k == 2, x / 32 % 2, ite(k == 1, x / 64 % 2, x / 128 % 2)))))))
rec bitAt(A: arr, o: int, p: int): int = bitOf(sel(A, o + p / 8), p % 8)
rec bitsVal(A: arr, o: int, p: int, n: int): int = ite(n <= 0, 0, 2 * bitsVal(A, o, p, n - 1) + bitAt(A, o, p + n - 1))

# --- the Golomb reader over bytes in memory ---
def br(g) = as(g.R, *bytes.Reader)
def gOK(g) = g != nil && typeis(g.R, *bytes.Reader) && br(g) != nil && 0 <= br(g).i && br(g).i <= len(br(g).s) && len(br(g).s) <= 281474976710656 && 0 <= g.left && g.left <= 7 && (g.left > 0 ==> br(g).i > 0 && g.buf[0] == br(g).s[br(g).i - 1])
def gPos(g) = 8 * br(g).i - g.left
def gEnd(g) = 8 * len(br(g).s)
def gBit(g, p) = bitAt(bytes(br(g).s), off(br(g).s), p)

iface io.Reader.Read(r, p) (n, err)
  trusted bytes.Reader.Read copies the next bytes and moves on; at the end it gives io.EOF
  requires typeis(r, *bytes.Reader) && as(r, *bytes.Reader) != nil && len(p) == 1
  modifies as(r, *bytes.Reader).i, as(r, *bytes.Reader).prevRune, elems(p)
  ensures (err == nil) == (old(as(r, *bytes.Reader).i) < len(as(r, *bytes.Reader).s))
  ensures err != nil ==> n == 0 && as(r, *bytes.Reader).i == old(as(r, *bytes.Reader).i) && p[0] == old(p[0])
  ensures err == nil ==> n == 1 && as(r, *bytes.Reader).i == old(as(r, *bytes.Reader).i) + 1 && p[0] == old(as(r, *bytes.Reader).s[as(r, *bytes.Reader).i])

func bufio.GolombBitReader.ReadBit(self) (res, err)
  tags C04
  requires gOK(self)
  modifies self.left, self.buf, br(self).i, br(self).prevRune
  ensures gOK(self) && self.R == old(self.R)
  ensures [ok] (err == nil) == (old(gPos(self)) < gEnd(self))
  ensures 0 <= res && res <= 1
  ensures [bit] err == nil ==> gPos(self) == old(gPos(self)) + 1 && res == gBit(self, old(gPos(self)))
  ensures [end] err != nil ==> res == 0 && gPos(self) == old(gPos(self))

rec pw(n: int): int = ite(n <= 0, 1, 2 * pw(n - 1))
rec shr(v: int, n: int): int = ite(n <= 0, v, shr(v, n - 1) / 2)
lemma pw_step(n: int)
  ensures pw(0) == 1
  ensures n >= 0 ==> pw(n + 1) == 2 * pw(n)
lemma pw_is(n: int)
  tags C03 C04
  induct n
  requires 0 <= n && n < 64
  use pw_is(n - 1), pw_step(n - 1), pw_step(0)
  fuel 0
  ensures pw(n) == (1 << n)
lemma shr_step(v: int, n: int)
  ensures shr(v, 0) == v
  ensures n >= 0 ==> shr(v, n + 1) == shr(v, n) / 2
lemma shr_is(v: int, n: int)
  tags C03 C04
  induct n
  requires 0 <= n && n < 64 && 0 <= v
  use shr_is(v, n - 1), shr_step(v, n - 1), shr_step(v, 0)
  fuel 0
  ensures shr(v, n) == (v >> n)
lemma val_step(A: arr, o: int, p: int, n: int)
  ensures bitsVal(A, o, p, 0) == 0
  ensures n >= 0 ==> bitsVal(A, o, p, n + 1) == 2 * bitsVal(A, o, p, n) + bitAt(A, o, p + n)
lemma bit_01(A: arr, o: int, p: int)
  requires all(k, 0, 1, 0 <= sel(A, o + p / 8) && sel(A, o + p / 8) <= 255)
  ensures 0 <= bitAt(A, o, p) && bitAt(A, o, p) <= 1

lemma val_lt(A: arr, o: int, p: int, n: int)
  tags C03 C04
  induct n
  requires 0 <= n
  use val_lt(A, o, p, n - 1), val_step(A, o, p, n - 1), pw_step(n - 1), pw_step(0), bit_01(A, o, p + n - 1)
  fuel 0
  ensures 0 <= bitsVal(A, o, p, n) && bitsVal(A, o, p, n) < pw(n)
lemma pw_pos(n: int)
  tags C03 C04
  induct n
  use pw_pos(n - 1)
  ensures 1 <= pw(n)
lemma pw_mono(m: int, n: int)
  tags C03 C04
  induct n - m
  requires 0 <= m && m <= n
  use pw_mono(m, n - 1), pw_step(n - 1), pw_pos(n - 1), pw_pos(m)
  fuel 0
  ensures 1 <= pw(m) && pw(m) <= pw(n)
lemma pw_64(n: int)
  tags C03 C04
  requires 0 <= n && n <= 64
  use pw_step(63), pw_is(63), pw_mono(n, 64), pw_mono(n, n)
  fuel 0
  ensures 1 <= pw(n) && pw(n) <= 18446744073709551616
lemma val_64(A: arr, o: int, p: int, n: int)
  tags C03 C04
  requires 0 <= n && n <= 64
  use val_lt(A, o, p, n), pw_64(n), pw_mono(n, 63), pw_is(63)
  fuel 0
  ensures 0 <= bitsVal(A, o, p, n) && bitsVal(A, o, p, n) <= 18446744073709551615 && (n < 64 ==> bitsVal(A, o, p, n) <= 9223372036854775807)

def gArrR(r) = bytes(r.s)
def gArr(g) = bytes(br(g).s)
def gVal(g, p, n) = bitsVal(gArr(g), off(br(g).s), p, n)

func bufio.GolombBitReader.ReadBits64(self, n) (r, err)
  tags C04
  fuel 0
  requires gOK(self) && n <= 64
  modifies self.left, self.buf, br(self).i, br(self).prevRune
  use loop 1 init: val_step(gArr(self), off(br(self).s), old(gPos(self)), 0)
  use loop 1 body: val_64(gArr(self), off(br(self).s), old(gPos(self)), i), val_step(gArr(self), off(br(self).s), old(gPos(self)), i), bit_01(gArr(self), off(br(self).s), old(gPos(self)) + i)
  loop 1
    inv 0 <= i && i <= n && gOK(self) && self.R == old(self.R) && err == nil
    inv gPos(self) == old(gPos(self)) + i
    inv r == gVal(self, old(gPos(self)), i)
    decreases n - i
  ensures gOK(self) && self.R == old(self.R)
  ensures [ok] (err == nil) == (old(gPos(self)) + n <= gEnd(self))
  ensures [end] err != nil ==> gPos(self) == gEnd(self)
  ensures [value] err == nil ==> gPos(self) == old(gPos(self)) + n && r == gVal(self, old(gPos(self)), n)

lemma shr_dbl(x: int, n: int)
  tags C03 C04
  induct n
  requires 0 <= n
  use shr_dbl(x, n - 1), shr_step(2 * x, n), shr_step(x, n - 1), shr_step(2 * x, 0), shr_step(x, 0)
  fuel 0
  ensures shr(2 * x, n + 1) == shr(x, n)
lemma shr_mul(v: int, n: int)
  tags C03 C04
  induct n
  requires 0 <= n
  use shr_mul(v, n - 1), shr_dbl(v * pw(n - 1), n - 1), pw_step(n - 1), pw_step(0), shr_step(v, 0)
  fuel 0
  ensures shr(v * pw(n), n) == v
lemma dist(w: int, v: int, b: int, p: int)
  tags C03 C04
  requires w == 2 * v + b && 0 <= b && b <= 1
  ensures w * p == 2 * (v * p) + ite(b == 0, 0, p) && v * (2 * p) == 2 * (v * p)
lemma low_zero(r: int, v: int, k: int)
  tags C04
  requires 0 <= k && k < 64 && 0 <= v && r == 2 * v * pw(k)
  use shr_mul(2 * v, k), shr_is(r, k), pw_pos(k)
  fuel 0
  ensures (r >> k) == 2 * v && 0 <= r

lemma val_32(A: arr, o: int, p: int, n: int)
  tags C04
  requires 0 <= n && n <= 32
  use val_lt(A, o, p, n), pw_mono(n, 31), pw_is(31), pw_is(32), pw_mono(n, 32)
  fuel 0
  ensures 0 <= bitsVal(A, o, p, n) && bitsVal(A, o, p, n) <= 4294967295 && (n < 32 ==> bitsVal(A, o, p, n) <= 2147483647)

func bufio.GolombBitReader.ReadBits32(self, n) (r, err)
  tags C04
  fuel 0
  requires gOK(self) && n <= 32
  modifies self.left, self.buf, br(self).i, br(self).prevRune
  use loop 1 init: val_step(gArr(self), off(br(self).s), old(gPos(self)), 0)
  use loop 1 body: val_32(gArr(self), off(br(self).s), old(gPos(self)), i), val_step(gArr(self), off(br(self).s), old(gPos(self)), i), bit_01(gArr(self), off(br(self).s), old(gPos(self)) + i)
  loop 1
    inv 0 <= i && i <= n && gOK(self) && self.R == old(self.R) && err == nil
    inv gPos(self) == old(gPos(self)) + i
    inv r == gVal(self, old(gPos(self)), i)
    decreases n - i
  ensures gOK(self) && self.R == old(self.R)
  ensures [ok] (err == nil) == (old(gPos(self)) + n <= gEnd(self))
  ensures [end] err != nil ==> gPos(self) == gEnd(self)
  ensures [value] err == nil ==> gPos(self) == old(gPos(self)) + n && r == gVal(self, old(gPos(self)), n)

ghostvar gr: int
func bufio.GolombBitReader.ReadBits(self, n) (res, err)
  tags C04
  fuel 0
  requires gOK(self) && 0 <= n && n <= 64
  modifies self.left, self.buf, br(self).i, br(self).prevRune, gr
  set loop 1 body: gr = res
  assert loop 1 back: res == ghost(gr) + ite(gBit(self, old(gPos(self)) + i - 1) == 0, 0, pw(n - i))
  use loop 1 back: dist(gVal(self, old(gPos(self)), i), gVal(self, old(gPos(self)), i - 1), gBit(self, old(gPos(self)) + i - 1), pw(n - i)), val_step(gArr(self), off(br(self).s), old(gPos(self)), i - 1), bit_01(gArr(self), off(br(self).s), old(gPos(self)) + i - 1), pw_step(n - i)
  assert loop 1 back: res == gVal(self, old(gPos(self)), i) * pw(n - i)
  use loop 1 init: val_step(gArr(self), off(br(self).s), old(gPos(self)), 0)
  use loop 1 body: val_64(gArr(self), off(br(self).s), old(gPos(self)), i), val_step(gArr(self), off(br(self).s), old(gPos(self)), i), bit_01(gArr(self), off(br(self).s), old(gPos(self)) + i), pw_is(n - i - 1), pw_step(n - i - 1), pw_64(n - i), pw_step(0), low_zero(res, gVal(self, old(gPos(self)), i), n - i - 1)
  use loop 1 exit: pw_step(0)
  loop 1
    inv 0 <= i && i <= n && gOK(self) && self.R == old(self.R) && err == nil
    inv gPos(self) == old(gPos(self)) + i
    inv res == gVal(self, old(gPos(self)), i) * pw(n - i)
    decreases n - i
  ensures gOK(self) && self.R == old(self.R)
  ensures [ok] (err == nil) == (old(gPos(self)) + n <= gEnd(self))
  ensures [end] err != nil ==> gPos(self) == gEnd(self)
  ensures [value] err == nil ==> gPos(self) == old(gPos(self)) + n && res == gVal(self, old(gPos(self)), n)

# ue(v): leading zeros of the code at p (at most 32), counted from the n-th on; its length; its value
rec lz(A: arr, o: int, p: int, n: int): int = ite(n >= 32 || bitAt(A, o, p + n) != 0, n, lz(A, o, p, n + 1))
rec ueLen(A: arr, o: int, p: int): int = 2 * lz(A, o, p, 0) + 1
rec ueVal(A: arr, o: int, p: int): int = let(z, lz(A, o, p, 0), bitsVal(A, o, p + z + 1, z) + pw(z) - 1)
lemma lz_step(A: arr, o: int, p: int, n: int)
  ensures n >= 32 || bitAt(A, o, p + n) != 0 ==> lz(A, o, p, n) == n
  ensures n < 32 && bitAt(A, o, p + n) == 0 ==> lz(A, o, p, n) == lz(A, o, p, n + 1)
lemma lz_range(A: arr, o: int, p: int, n: int)
  tags C04
  induct 32 - n
  requires n <= 32
  use lz_range(A, o, p, n + 1), lz_step(A, o, p, n)
  fuel 0
  ensures n <= lz(A, o, p, n) && lz(A, o, p, n) <= 32
lemma ue_def(A: arr, o: int, p: int)
  use val_32(A, o, p + lz(A, o, p, 0) + 1, lz(A, o, p, 0)), pw_mono(lz(A, o, p, 0), 32), pw_is(32), lz_range(A, o, p, 0)
  ensures ueLen(A, o, p) == 2 * lz(A, o, p, 0) + 1
  ensures let(z, lz(A, o, p, 0), ueVal(A, o, p) == bitsVal(A, o, p + z + 1, z) + pw(z) - 1)
  ensures 1 <= ueLen(A, o, p) && ueLen(A, o, p) <= 65 && 0 <= ueVal(A, o, p) && ueVal(A, o, p) <= 8589934590
def gUe(g, p) = ueVal(gArr(g), off(br(g).s), p)
def gUeLen(g, p) = ueLen(gArr(g), off(br(g).s), p)

func bufio.GolombBitReader.ReadExponentialGolombCode(self) (res, err)
  tags C04
  fuel 0
  requires gOK(self)
  modifies self.left, self.buf, br(self).i, br(self).prevRune, gr
  use loop 1 body: lz_step(gArr(self), off(br(self).s), old(gPos(self)), i), lz_range(gArr(self), off(br(self).s), old(gPos(self)), i)
  use entry: ue_def(gArr(self), off(br(self).s), gPos(self)), lz_range(gArr(self), off(br(self).s), gPos(self), 0)
  loop 1
    inv 0 <= i && i <= 32 && gOK(self) && self.R == old(self.R) && err == nil && res == 0
    inv gPos(self) == old(gPos(self)) + i
    inv lz(gArr(self), off(br(self).s), old(gPos(self)), 0) == lz(gArr(self), off(br(self).s), old(gPos(self)), i)
    decreases 32 - i
  use after bufio.GolombBitReader.ReadBits: pw_is(i), val_32(gArr(self), off(br(self).s), old(gPos(self)) + i + 1, i)
  ensures gOK(self) && self.R == old(self.R)
  ensures [ok] (err == nil) == (old(gPos(self)) + old(gUeLen(self, gPos(self))) <= gEnd(self))
  ensures [end] err != nil ==> gPos(self) == gEnd(self)
  ensures [value] err == nil ==> gPos(self) == old(gPos(self)) + gUeLen(self, old(gPos(self))) && res == gUe(self, old(gPos(self)))

# se(v): (-1)^(c+1) * ceil(c/2), as a 64-bit word
def seOf(c) = ite(c % 2 == 1, (c + 1) / 2, ite(c == 0, 0, 18446744073709551616 - c / 2))
func bufio.GolombBitReader.ReadSE(self) (res, err)
  tags C04
  fuel 0
  requires gOK(self)
  modifies self.left, self.buf, br(self).i, br(self).prevRune, gr
  use entry: ue_def(gArr(self), off(br(self).s), gPos(self))
  ensures gOK(self) && self.R == old(self.R)
  ensures [ok] (err == nil) == (old(gPos(self)) + old(gUeLen(self, gPos(self))) <= gEnd(self))
  ensures [end] err != nil ==> gPos(self) == gEnd(self)
  ensures [value] err == nil ==> gPos(self) == old(gPos(self)) + gUeLen(self, old(gPos(self))) && res == seOf(gUe(self, old(gPos(self))))

# --- bit fields over a byte slice ---
lemma bit_def(A: arr, o: int, p: int)
  ensures bitAt(A, o, p) == bitOf(sel(A, o + p / 8), p % 8)
def nAvail(s, p, n) = max(0, min(n, 8 * len(s) - p))
func bufio.ReadBits(data, startBit, bitLength) (r)
  tags C03
  fuel 0
  requires 0 <= startBit && startBit <= 4611686018427387904 && 0 <= bitLength && bitLength <= 64 && len(data) <= 281474976710656
  use loop 1 init: val_step(bytes(data), off(data), startBit, 0)
  use loop 1 body: val_64(bytes(data), off(data), startBit, i), val_step(bytes(data), off(data), startBit, i), bit_01(bytes(data), off(data), startBit + i), bit_def(bytes(data), off(data), startBit + i)
  loop 1
    inv 0 <= i && i <= bitLength && currentBit == startBit + i
    inv i > 0 ==> currentBit <= 8 * len(data)
    inv result == bitsVal(bytes(data), off(data), startBit, i)
    decreases bitLength - i
  ensures [value] r == bitsVal(bytes(data), off(data), startBit, nAvail(data, startBit, bitLength))

lemma shr_bits(v: int, n: int)
  tags C03
  induct n
  requires 0 <= n && 0 <= v
  use shr_bits(v, n - 1), shr_step(v, n - 1), shr_step(v, 0)
  fuel 0
  ensures 0 <= shr(v, n) && shr(v, n) <= v
# the byte x with bit m (from the top) set to v
def putAt(x, w, v) = ite(x / w % 2 == v, x, ite(v == 1, x + w, x - w))
def wt(m) = ite(m == 7, 1, ite(m == 6, 2, ite(m == 5, 4, ite(m == 4, 8, ite(m == 3, 16, ite(m == 2, 32, ite(m == 1, 64, 128)))))))
def putBit(x, m, v) = ite(m == 7, putAt(x, 1, v), ite(m == 6, putAt(x, 2, v), ite(m == 5, putAt(x, 4, v), ite(m == 4, putAt(x, 8, v), ite(m == 3, putAt(x, 16, v), ite(m == 2, putAt(x, 32, v), ite(m == 1, putAt(x, 64, v), putAt(x, 128, v))))))))
rec putB(x: int, m: int, v: int): int = putBit(x, m, v)
lemma putB_def(x: int, m: int, v: int)
  ensures putB(x, m, v) == putBit(x, m, v)
lemma put_bit(x: int, m: int, v: int, k: int)
  tags C03
  requires 0 <= x && x <= 255 && 0 <= m && m <= 7 && 0 <= k && k <= 7 && 0 <= v && v <= 1
  ensures 0 <= putB(x, m, v) && putB(x, m, v) <= 255
  ensures allx(m0, 0, 8, allx(k0, 0, 8, m == m0 && k == k0 ==> bitOf(putB(x, m0, v), k0) == ite(k0 == m0, v, bitOf(x, k0))))
  ensures bitOf(putB(x, m, v), k) == ite(k == m, v, bitOf(x, k))
lemma set_bit(A: arr, B: arr, o: int, p: int, v: int, k: int)
  tags C03
  requires 0 <= p && 0 <= k && 0 <= v && v <= 1 && 0 <= sel(A, o + p / 8) && sel(A, o + p / 8) <= 255 && sel(B, o + p / 8) == putB(sel(A, o + p / 8), p % 8, v) && (k / 8 != p / 8 ==> sel(B, o + k / 8) == sel(A, o + k / 8))
  use put_bit(sel(A, o + p / 8), p % 8, v, k % 8), bit_def(A, o, k), bit_def(B, o, k)
  fuel 0
  ensures bitAt(B, o, k) == ite(k == p, v, bitAt(A, o, k))
lemma set_bits(A: arr, B: arr, o: int, p: int, v: int)
  tags C03
  requires 0 <= p && 0 <= v && v <= 1 && 0 <= sel(A, o + p / 8) && sel(A, o + p / 8) <= 255 && sel(B, o + p / 8) == putB(sel(A, o + p / 8), p % 8, v)
  requires forall(a, a != o + p / 8 ==> sel(B, a) == sel(A, a))
  use forall(k, set_bit(A, B, o, p, v, k))
  fuel 0
  ensures forall(k, trig(bitAt(B, o, k), 0 <= k ==> bitAt(B, o, k) == ite(k == p, v, bitAt(A, o, k))))
ghostvar gw: arr
ghostvar gc: int
func bufio.WriteBits(data, startBit, bitLength, value)
  tags C03
  fuel 0
  requires 0 <= startBit && startBit <= 4611686018427387904 && 0 <= bitLength && bitLength <= 64 && len(data) <= 281474976710656
  modifies elems(data, startBit / 8, min(len(data), (startBit + bitLength + 7) / 8)), gw, gc
  set loop 1 body: gw = bytes(data)
  set loop 1 body: gc = currentBit
  use loop 1 body: shr_is(value, i)
  assert loop 1 back: shr(value, i + 1) % 2 == (value >> (i + 1)) % 2
  use loop 1 back: putB_def(sel(ghost(gw), off(data) + ghost(gc) / 8), ghost(gc) % 8, shr(value, i + 1) % 2)
  assert loop 1 back: sel(bytes(data), off(data) + ghost(gc) / 8) == putB(sel(ghost(gw), off(data) + ghost(gc) / 8), ghost(gc) % 8, shr(value, i + 1) % 2)
  assert loop 1 back: forall(a, a != off(data) + ghost(gc) / 8 ==> sel(bytes(data), a) == sel(ghost(gw), a))
  use loop 1 back: set_bits(ghost(gw), bytes(data), off(data), ghost(gc), shr(value, i + 1) % 2)
  loop 1
    inv -1 <= i && i <= bitLength - 1 && currentBit == startBit + bitLength - 1 - i
    inv i < bitLength - 1 ==> currentBit <= 8 * len(data)
    inv all(k, startBit, currentBit, trig(bitAt(bytes(data), off(data), k), bitAt(bytes(data), off(data), k) == shr(value, startBit + bitLength - 1 - k) % 2))
    inv forall(k, trig(bitAt(bytes(data), off(data), k), 0 <= k && k < startBit || k >= currentBit ==> bitAt(bytes(data), off(data), k) == bitAt(old(bytes(data)), off(data), k)))
    decreases i + 1
  ensures [bits] all(k, startBit, min(startBit + bitLength, 8 * len(data)), bitAt(bytes(data), off(data), k) == shr(value, startBit + bitLength - 1 - k) % 2)
  ensures [rest] all(k, 0, 8 * len(data), k < startBit || k >= startBit + bitLength ==> bitAt(bytes(data), off(data), k) == bitAt(old(bytes(data)), off(data), k))

# a field whose bits are the low n bits of v reads as v modulo 2^n
lemma field_prefix(A: arr, o: int, p: int, n: int, v: int, m: int)
  tags C03
  induct m
  requires 0 <= m && m <= n && 0 <= v && all(k, p, p + n, trig(bitAt(A, o, k), bitAt(A, o, k) == shr(v, p + n - 1 - k) % 2))
  use field_prefix(A, o, p, n, v, m - 1), val_step(A, o, p, m - 1), val_step(A, o, p, 0), shr_step(v, n - m), pw_step(m - 1), pw_step(0), dist(0, shr(v, n), 0, pw(m - 1)), shr_bits(v, n - m)
  fuel 0
  ensures bitsVal(A, o, p, m) == shr(v, n - m) - shr(v, n) * pw(m)
lemma shr_le(v: int, n: int)
  tags C03
  induct n
  requires 0 <= n && 0 <= v
  use shr_le(v, n - 1), shr_step(v, n - 1), shr_step(v, 0), pw_step(n - 1), pw_step(0), pw_pos(n - 1), shr_bits(v, n - 1), dist(shr(v, n - 1), shr(v, n), shr(v, n - 1) % 2, pw(n - 1))
  fuel 0
  ensures shr(v, n) * pw(n) <= v
lemma shr_none(v: int, n: int)
  tags C03
  requires 0 <= n && 0 <= v && v < pw(n)
  use shr_le(v, n), shr_bits(v, n), pw_pos(n)
  fuel 0
  ensures shr(v, n) == 0
lemma field_back(A: arr, o: int, p: int, n: int, v: int)
  tags C03
  requires 0 <= n && 0 <= v && all(k, p, p + n, trig(bitAt(A, o, k), bitAt(A, o, k) == shr(v, p + n - 1 - k) % 2))
  use field_prefix(A, o, p, n, v, n), shr_step(v, 0), val_lt(A, o, p, n), pw_pos(n)
  fuel 0
  ensures bitsVal(A, o, p, n) == v - shr(v, n) * pw(n) && 0 <= bitsVal(A, o, p, n) && bitsVal(A, o, p, n) < pw(n)
lemma field_round(A: arr, o: int, p: int, n: int, v: int)
  tags C03
  requires 0 <= n && 0 <= v && v < pw(n) && all(k, p, p + n, trig(bitAt(A, o, k), bitAt(A, o, k) == shr(v, p + n - 1 - k) % 2))
  use field_back(A, o, p, n, v), shr_none(v, n)
  fuel 0
  ensures bitsVal(A, o, p, n) == v

# --- cursors ---
def curOK(b, n) = b != nil && 0 <= b.Offset && b.Offset <= 2305843009213693952 && len(b.Data) <= 281474976710656
func bufio.BitsReader.Read(b, length) (v)
  tags C03
  fuel 0
  requires curOK(b, 0) && 0 <= length && length <= 64
  modifies b.Offset
  ensures [value] v == bitsVal(bytes(b.Data), off(b.Data), old(b.Offset), nAvail(b.Data, old(b.Offset), length))
  ensures [cursor] b.Offset == old(b.Offset) + length
func bufio.BitsReader.Seek(b, length)
  tags C03
  requires curOK(b, 0) && 0 <= b.Offset + length && abs(length) <= 2305843009213693952
  modifies b.Offset
  ensures [cursor] b.Offset == old(b.Offset) + length
func bufio.BitsReader.ReadBytes(b, length) (r)
  tags C03
  requires curOK(b, 0) && 0 <= length && length <= 281474976710656 && b.Offset / 8 + length <= cap(b.Data)
  modifies b.Offset
  ensures [value] same(r, old(b.Data[b.Offset / 8 : b.Offset / 8 + length]))
  ensures [cursor] b.Offset == old(b.Offset) + 8 * length
func bufio.BitsWriter.Write(b, length, value)
  tags C03
  fuel 0
  requires curOK(b, 0) && 0 <= length && length <= 64
  modifies b.Offset, elems(b.Data, b.Offset / 8, min(len(b.Data), (b.Offset + length + 7) / 8)), gw, gc
  ensures [bits] all(k, old(b.Offset), min(old(b.Offset) + length, 8 * len(b.Data)), bitAt(bytes(b.Data), off(b.Data), k) == shr(value, old(b.Offset) + length - 1 - k) % 2)
  ensures [rest] all(k, 0, 8 * len(b.Data), k < old(b.Offset) || k >= old(b.Offset) + length ==> bitAt(bytes(b.Data), off(b.Data), k) == bitAt(old(bytes(b.Data)), off(b.Data), k))
  ensures [cursor] b.Offset == old(b.Offset) + length
func bufio.BitsWriter.Seek(b, length)
  tags C03
  requires curOK(b, 0) && 0 <= b.Offset + length && abs(length) <= 2305843009213693952
  modifies b.Offset
  ensures [cursor] b.Offset == old(b.Offset) + length
func bufio.BitsWriter.WriteBytes(b, data)
  tags C03
  requires curOK(b, 0) && b.Offset / 8 <= len(b.Data) && len(data) <= 281474976710656
  modifies b.Offset, elems(b.Data, b.Offset / 8, min(len(b.Data), b.Offset / 8 + len(data)))
  ensures [bytes] all(k, 0, min(len(data), len(b.Data) - old(b.Offset) / 8), b.Data[old(b.Offset) / 8 + k] == old(data[k]))
  ensures [cursor] b.Offset == old(b.Offset) + 8 * len(data)
