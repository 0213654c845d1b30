# Annex-B start codes and NAL unit splitting (C11)

# position of the first 00 00 01 at or after i that is followed by at least one byte before e, or -1
rec sc(A: arr, i: int, e: int): int = ite(i + 3 >= e, -1, ite(sel(A, i) == 0 && sel(A, i + 1) == 0 && sel(A, i + 2) == 1, i, sc(A, i + 1, e)))

lemma sc_range(A: arr, i: int, e: int)
  induct e - i
  use sc_range(A, i + 1, e)
  ensures sc(A, i, e) == -1 || i <= sc(A, i, e) && sc(A, i, e) + 3 < e && sel(A, sc(A, i, e)) == 0 && sel(A, sc(A, i, e) + 1) == 0 && sel(A, sc(A, i, e) + 2) == 1

# length of the start code whose 00 00 01 is at q, looking back no further than i
def scLen(A, i, q) = ite(q > i && sel(A, q - 1) == 0, 4, 3)
# length of the start code that data of n bytes at o begins with
def leadLen(A, o, n) = ite(n >= 3 && sel(A, o) == 0 && sel(A, o + 1) == 0 && sel(A, o + 2) == 1, 3, ite(n >= 4 && sel(A, o) == 0 && sel(A, o + 1) == 0 && sel(A, o + 2) == 0 && sel(A, o + 3) == 1, 4, 0))
# end of the piece that starts at s
def cutEnd(A, s, e) = ite(sc(A, s + 3, e) < 0, e, sc(A, s + 3, e) + 3 - scLen(A, s + 3, sc(A, s + 3, e)))

func avc.FindStartCode(p) (n, size)
  tags C11
  opt pure
  fuel 4
  use exit: sc_range(bytes(p), off(p), off(p) + len(p))
  loop 1
    inv 2 <= i && sc(bytes(p), off(p), off(p) + len(p)) == sc(bytes(p), off(p) + i - 2, off(p) + len(p))
    decreases len(p) + 3 - i
  ensures [none] sc(bytes(p), off(p), off(p) + len(p)) < 0 ==> n == -1 && size == -1
  ensures [found] sc(bytes(p), off(p), off(p) + len(p)) >= 0 ==> n == sc(bytes(p), off(p), off(p) + len(p)) + 3 - off(p) && size == scLen(bytes(p), off(p), off(p) + n - 3)
  ensures [range] n == -1 || 3 <= n && n < len(p) && size <= n && 3 <= size && size <= 4
  ensures n == -1 <==> sc(bytes(p), off(p), off(p) + len(p)) < 0

func avc.FindStartCode2(p) (n)
  tags C11
  opt pure
  ensures [none] sc(bytes(p), off(p), off(p) + len(p)) < 0 ==> n == -1
  ensures [found] sc(bytes(p), off(p), off(p) + len(p)) >= 0 ==> n == sc(bytes(p), off(p), off(p) + len(p)) + 3 - off(p) - scLen(bytes(p), off(p), sc(bytes(p), off(p), off(p) + len(p)))
  ensures [range] n == -1 || 0 <= n && n + 3 < len(p)
  ensures n == -1 <==> sc(bytes(p), off(p), off(p) + len(p)) < 0

func avc.FindStartCodeWithReader(reader) (v)
  tags C11
  dyn reader *bufio.bytesReader
  requires as(reader, *bufio.bytesReader) != nil && bbOK(as(reader, *bufio.bytesReader))
  modifies as(reader, *bufio.bytesReader).offset
  ensures bbOK(as(reader, *bufio.bytesReader))
  ensures [none] old(scR(reader)) < 0 ==> v == -1 && as(reader, *bufio.bytesReader).offset == old(as(reader, *bufio.bytesReader).offset)
  ensures [found] old(scR(reader)) >= 0 ==> v == sel(bytes(as(reader, *bufio.bytesReader).data), old(scR(reader)) + 3) && as(reader, *bufio.bytesReader).offset == old(scR(reader)) + 4 - off(as(reader, *bufio.bytesReader).data)
def scR(r) = let(b, as(r, *bufio.bytesReader), sc(bytes(b.data), off(b.data) + b.offset, off(b.data) + len(b.data)))

# splitPos: everything before it has been handed to the callback
ghostvar splitPos: int

callback avc.SplitNalU.cb(nalu)
  trusted the callback changes nothing the splitter reads

func avc.SplitNalU(data, cb)
  tags C11
  requires cb != nil
  modifies splitPos
  set entry: splitPos = off(data)
  assert call avc.SplitNalU.cb: arr($nalu) == arr(data) && off($nalu) == splitPos && off($nalu) + len($nalu) == cutEnd(bytes(data), splitPos, off(data) + len(data))
  set call avc.SplitNalU.cb: splitPos = off($nalu) + len($nalu)
  loop 1
    inv len(data) >= 3 && 0 <= offset && offset + 3 <= len(data) && splitPos == off(data) + offset
    inv n == ite(sc(bytes(data), splitPos + 3, off(data) + len(data)) < 0, -1, cutEnd(bytes(data), splitPos, off(data) + len(data)) - splitPos - 3)
    inv n == -1 || 0 <= n && offset + n + 6 < len(data)
    inv n == -1 <==> sc(bytes(data), splitPos + 3, off(data) + len(data)) < 0
    decreases len(data) - offset
  ensures [whole] splitPos == off(data) + len(data)

func avc.RemoveStartCode(data) (r)
  tags C11
  opt pure
  ensures [exact] same(r, data[leadLen(bytes(data), off(data), len(data)):])

# ---- Annex-B to AVCC (C12) ----
# the NAL unit that starts at s ends at unitEnd; the next one starts at unitNext
def unitEnd(A, s, e) = ite(sc(A, s, e) < 0, e, sc(A, s, e) + 3 - scLen(A, s, sc(A, s, e)))
def unitNext(A, s, e) = ite(sc(A, s, e) < 0, e, sc(A, s, e) + 3)
def lenByte(l, p) = ite(p == 0, l / 16777216 % 256, ite(p == 1, l / 65536 % 256, ite(p == 2, l / 256 % 256, l % 256)))

# size, and byte p, of the AVCC form of the units from s on; empty units are skipped
rec avccSize(A: arr, s: int, e: int): int = ite(s >= e, 0, ite(unitEnd(A, s, e) > s, 4 + unitEnd(A, s, e) - s, 0) + avccSize(A, unitNext(A, s, e), e))
rec avccByte(A: arr, s: int, e: int, p: int): int = ite(s >= e, 0, ite(unitEnd(A, s, e) > s, ite(p < 4, lenByte(unitEnd(A, s, e) - s, p), ite(p < 4 + unitEnd(A, s, e) - s, sel(A, s + p - 4), avccByte(A, unitNext(A, s, e), e, p - 4 - (unitEnd(A, s, e) - s)))), avccByte(A, unitNext(A, s, e), e, p)))

lemma avcc_size(A: arr, s: int, e: int)
  induct e - s
  use sc_range(A, s, e)
  use avcc_size(A, unitNext(A, s, e), e)
  ensures s >= e ==> avccSize(A, s, e) == 0
  ensures s < e ==> avccSize(A, s, e) == ite(unitEnd(A, s, e) > s, 4 + unitEnd(A, s, e) - s, 0) + avccSize(A, unitNext(A, s, e), e)
  ensures 0 <= avccSize(A, s, e) && (s <= e ==> 4 * avccSize(A, s, e) <= 5 * (e - s) + 16)

lemma avcc_step(A: arr, s: int, e: int)
  requires s < e
  use sc_range(A, s, e)
  ensures all(p, 0, 1152921504606846976, trig(avccByte(A, s, e, p), avccByte(A, s, e, p) == ite(unitEnd(A, s, e) > s, ite(p < 4, lenByte(unitEnd(A, s, e) - s, p), ite(p < 4 + unitEnd(A, s, e) - s, sel(A, s + p - 4), avccByte(A, unitNext(A, s, e), e, p - 4 - (unitEnd(A, s, e) - s)))), avccByte(A, unitNext(A, s, e), e, p))))

def aEnd(d) = off(d) + len(d)
def aFirst(d) = unitNext(bytes(d), off(d), aEnd(d))
# size and bytes of the AVCC form of Annex-B data: everything before the first start code is dropped
def avccOf(d) = avccSize(bytes(d), aFirst(d), aEnd(d))

func avc.AnnexB2AVCC(dst, annexB) (n)
  tags C12
  fuel 0
  use exit: avcc_size(old(bytes(annexB)), aEnd(annexB), aEnd(annexB))
  requires arr(dst) != arr(annexB) && len(dst) >= avccOf(annexB) && len(annexB) < 4294967296
  modifies elems(dst, 0, avccOf(annexB))
  use entry: sc_range(bytes(annexB), off(annexB), aEnd(annexB)), avcc_size(bytes(annexB), aFirst(annexB), aEnd(annexB))
  use loop 1 body: sc_range(old(bytes(annexB)), off(annexB) + nalStart, aEnd(annexB))
  use loop 1 body: avcc_step(old(bytes(annexB)), off(annexB) + nalStart, aEnd(annexB))
  use loop 1 body: avcc_size(old(bytes(annexB)), off(annexB) + nalStart, aEnd(annexB)), avcc_size(old(bytes(annexB)), unitNext(old(bytes(annexB)), off(annexB) + nalStart, aEnd(annexB)), aEnd(annexB))
  loop 1
    inv 0 <= nalStart && nalStart <= len(annexB) && 0 <= size
    inv [size] old(avccOf(annexB)) == size + avccSize(old(bytes(annexB)), off(annexB) + nalStart, aEnd(annexB))
    inv [done] all(p, 0, size, dst[p] == avccByte(old(bytes(annexB)), old(aFirst(annexB)), aEnd(annexB), p))
    inv [rest] all(p, size, old(avccOf(annexB)), trig(avccByte(old(bytes(annexB)), old(aFirst(annexB)), aEnd(annexB), p), avccByte(old(bytes(annexB)), old(aFirst(annexB)), aEnd(annexB), p) == avccByte(old(bytes(annexB)), off(annexB) + nalStart, aEnd(annexB), p - size)))
    decreases len(annexB) - nalStart
  assert after binary.bigEndian.PutUint32: nalSize >= 0 && nalSize < 4294967296 && $v == nalSize
  assert after binary.bigEndian.PutUint32: dst[size] == lenByte(nalSize, 0) && dst[size + 1] == lenByte(nalSize, 1) && dst[size + 2] == lenByte(nalSize, 2) && dst[size + 3] == lenByte(nalSize, 3)
  ensures [size] n == old(avccOf(annexB))
  ensures [bytes] all(p, 0, n, dst[p] == avccByte(old(bytes(annexB)), old(aFirst(annexB)), aEnd(annexB), p))

# ---- AVCC / MP4 to Annex-B, H.264 (C13) ----
# state at s: o = nothing written yet, seen = a parameter set was seen or inserted, sei = SEI units are dropped; x = len(extra)
def h4ok(A, s, e) = s + 4 < e && be32(A, s) > 0 && s + 4 + be32(A, s) <= e
def h4t(A, s) = sel(A, s + 4) % 32
def h4drop(A, s, sei) = sei && h4t(A, s) == 6
def h4ins(A, s, x, seen) = ite(h4t(A, s) == 5 && !seen, x, 0)
def h4seen(A, s, x, seen) = x > 0 && (seen || h4t(A, s) == 5 || h4t(A, s) == 7 || h4t(A, s) == 8)
# bytes written for the unit at s, and its start code length
def h4sc(A, s, x, o, seen) = ite(o && h4ins(A, s, x, seen) == 0, 4, 3)
def h4out(A, s, x, o, seen) = h4ins(A, s, x, seen) + h4sc(A, s, x, o, seen) + be32(A, s)
def h4outB(A, s, X, xo, x, o, seen, p) = let(i, h4ins(A, s, x, seen), let(c, h4sc(A, s, x, o, seen), ite(p < i, sel(X, xo + p), ite(p < i + c, ite(p == i + c - 1, 1, 0), sel(A, s + 4 + p - i - c)))))

rec h4size(A: arr, s: int, e: int, x: int, o: bool, seen: bool, sei: bool): int = ite(!h4ok(A, s, e), 0, ite(h4drop(A, s, sei), h4size(A, s + 4 + be32(A, s), e, x, o, seen, sei), h4out(A, s, x, o, seen) + h4size(A, s + 4 + be32(A, s), e, x, false, h4seen(A, s, x, seen), sei)))
rec h4byte(A: arr, s: int, e: int, X: arr, xo: int, x: int, o: bool, seen: bool, sei: bool, p: int): int = ite(!h4ok(A, s, e), 0, ite(h4drop(A, s, sei), h4byte(A, s + 4 + be32(A, s), e, X, xo, x, o, seen, sei, p), ite(p < h4out(A, s, x, o, seen), h4outB(A, s, X, xo, x, o, seen, p), h4byte(A, s + 4 + be32(A, s), e, X, xo, x, false, h4seen(A, s, x, seen), sei, p - h4out(A, s, x, o, seen)))))

lemma h4_size(A: arr, s: int, e: int, x: int, o: bool, seen: bool, sei: bool)
  requires x >= 0
  induct e - s
  use h4_size(A, s + 4 + be32(A, s), e, x, o, seen, sei), h4_size(A, s + 4 + be32(A, s), e, x, false, h4seen(A, s, x, seen), sei)
  ensures h4size(A, s, e, x, o, seen, sei) == ite(!h4ok(A, s, e), 0, ite(h4drop(A, s, sei), h4size(A, s + 4 + be32(A, s), e, x, o, seen, sei), h4out(A, s, x, o, seen) + h4size(A, s + 4 + be32(A, s), e, x, false, h4seen(A, s, x, seen), sei)))
  ensures 0 <= h4size(A, s, e, x, o, seen, sei) && h4size(A, s, e, x, o, seen, sei) <= max(e - s, 0) + ite(seen, 0, x)
  ensures h4ok(A, s, e) ==> 0 <= h4size(A, s + 4 + be32(A, s), e, x, o, seen, sei) && 0 <= h4size(A, s + 4 + be32(A, s), e, x, false, h4seen(A, s, x, seen), sei)

lemma h4_step(A: arr, s: int, e: int, X: arr, xo: int, x: int, o: bool, seen: bool, sei: bool)
  requires h4ok(A, s, e)
  ensures h4drop(A, s, sei) ==> all(p, 0, 1152921504606846976, trig(h4byte(A, s, e, X, xo, x, o, seen, sei, p), h4byte(A, s, e, X, xo, x, o, seen, sei, p) == h4byte(A, s + 4 + be32(A, s), e, X, xo, x, o, seen, sei, p)))
  ensures !h4drop(A, s, sei) ==> all(p, 0, h4out(A, s, x, o, seen), trig(h4byte(A, s, e, X, xo, x, o, seen, sei, p), h4byte(A, s, e, X, xo, x, o, seen, sei, p) == h4outB(A, s, X, xo, x, o, seen, p)))
  ensures !h4drop(A, s, sei) ==> all(p, h4out(A, s, x, o, seen), 1152921504606846976, trig(h4byte(A, s, e, X, xo, x, o, seen, sei, p), h4byte(A, s, e, X, xo, x, o, seen, sei, p) == h4byte(A, s + 4 + be32(A, s), e, X, xo, x, false, h4seen(A, s, x, seen), sei, p - h4out(A, s, x, o, seen))))

func avc.copyNalUWithBytes(dst, data, outSize, append) (n)
  tags C13
  opt pure
  requires len(dst) >= n4(outSize, append) + len(data) && arr(dst) != arr(data) && len(data) <= 281474976710656
  modifies elems(dst, 0, n4(outSize, append) + len(data))
  ensures [size] n == n4(outSize, append) + len(data)
  ensures [code] n4(outSize, append) == 4 ==> dst[0] == 0 && dst[1] == 0 && dst[2] == 0 && dst[3] == 1
  ensures [code] n4(outSize, append) == 3 ==> dst[0] == 0 && dst[1] == 0 && dst[2] == 1
  ensures [bytes] all(k, n4(outSize, append), n4(outSize, append) + len(data), dst[k] == old(data[k - n4(outSize, append)]))
def n4(o, a) = ite(a, ite(o == 0, 4, 3), 0)

def h4of(d, x, sei) = h4size(bytes(d), off(d), off(d) + len(d), len(x), true, false, sei)
def h4b(d, x, sei, p) = h4byte(bytes(d), off(d), off(d) + len(d), bytes(x), off(x), len(x), true, false, sei, p)

func avc.AVCC2AnnexB(dst, avcc, extra) (n)
  tags C13
  fuel 0
  requires arr(dst) != arr(avcc) && arr(dst) != arr(extra) && len(dst) >= h4of(avcc, extra, true)
  requires len(avcc) <= 281474976710656 && len(extra) <= 281474976710656
  modifies elems(dst, 0, h4of(avcc, extra, true))
  use entry: h4_size(bytes(avcc), off(avcc), off(avcc) + len(avcc), len(extra), true, false, true)
  use loop 1: h4_size(old(bytes(avcc)), off(avcc) + index - 4, off(avcc) + len(avcc), len(extra), outSize == 0, len(extra) > 0 && (spsSeen || ppsSeen), true)
  use loop 1: h4_step(old(bytes(avcc)), off(avcc) + index - 4, off(avcc) + len(avcc), old(bytes(extra)), off(extra), len(extra), outSize == 0, len(extra) > 0 && (spsSeen || ppsSeen), true)
  assert after avc.copyNalUWithBytes: all(p, 0, outSize, dst[p] == old(h4b(avcc, extra, true, p)))
  assert after avc.copyNalUWithBytes: all(p, outSize, outSize + $n, dst[p] == old(h4b(avcc, extra, true, p)))
  loop 1
    inv 4 <= index && 0 <= outSize && (index <= len(avcc) + 4)
    inv [size] old(h4of(avcc, extra, true)) == outSize + h4size(old(bytes(avcc)), off(avcc) + index - 4, off(avcc) + len(avcc), len(extra), outSize == 0, len(extra) > 0 && (spsSeen || ppsSeen), true)
    inv [done] all(p, 0, outSize, dst[p] == old(h4b(avcc, extra, true, p)))
    inv [rest] all(p, outSize, old(h4of(avcc, extra, true)), trig(old(h4b(avcc, extra, true, p)), old(h4b(avcc, extra, true, p)) == h4byte(old(bytes(avcc)), off(avcc) + index - 4, off(avcc) + len(avcc), old(bytes(extra)), off(extra), len(extra), outSize == 0, len(extra) > 0 && (spsSeen || ppsSeen), true, p - outSize)))
    decreases len(avcc) + 4 - index
  ensures [size] n == old(h4of(avcc, extra, true))
  ensures [bytes] all(p, 0, n, dst[p] == old(h4b(avcc, extra, true, p)))

def W(w) = as(w, *bufio.bytesWriter)
def wOK(w) = W(w) != nil && bbOK(W(w))
def wAt(w) = off(W(w).data) + W(w).offset

func avc.copyNalU(writer, data, outSize, append) (n)
  tags C13
  dyn writer *bufio.bytesWriter
  requires wOK(writer) && fits(W(writer), n4(outSize, append) + len(data)) && arr(W(writer).data) != arr(data) && len(data) <= 281474976710656
  modifies W(writer).offset, elems(W(writer).data, W(writer).offset, W(writer).offset + n4(outSize, append) + len(data))
  ensures wOK(writer)
  ensures [size] n == n4(outSize, append) + len(data) && W(writer).offset == old(W(writer).offset) + n
  ensures [code] n4(outSize, append) == 4 ==> let(d, W(writer).data[old(W(writer).offset):], d[0] == 0 && d[1] == 0 && d[2] == 0 && d[3] == 1)
  ensures [code] n4(outSize, append) == 3 ==> let(d, W(writer).data[old(W(writer).offset):], d[0] == 0 && d[1] == 0 && d[2] == 1)
  ensures [bytes] all(k, old(W(writer).offset) + n4(outSize, append), W(writer).offset, W(writer).data[k] == old(data[k - W(writer).offset - n4(outSize, append)]))

func avc.Mp4ToAnnexB(writer, data, extra)
  tags C13
  fuel 0
  dyn writer *bufio.bytesWriter
  requires wOK(writer) && arr(W(writer).data) != arr(data) && arr(W(writer).data) != arr(extra) && fits(W(writer), h4of(data, extra, false))
  requires len(data) <= 281474976710656 && len(extra) <= 281474976710656
  modifies W(writer).offset, elems(W(writer).data, W(writer).offset, W(writer).offset + h4of(data, extra, false))
  use entry: h4_size(bytes(data), off(data), off(data) + len(data), len(extra), true, false, false)
  use loop 1: h4_size(old(bytes(data)), off(data) + index - 4, off(data) + len(data), len(extra), outSize == 0, len(extra) > 0 && (spsSeen || ppsSeen), false)
  use loop 1: h4_step(old(bytes(data)), off(data) + index - 4, off(data) + len(data), old(bytes(extra)), off(extra), len(extra), outSize == 0, len(extra) > 0 && (spsSeen || ppsSeen), false)
  assert after avc.copyNalU: all(p, 0, outSize, old(mp4w(writer))[p] == old(h4b(data, extra, false, p)))
  assert after avc.copyNalU: all(p, outSize, outSize + $n, old(mp4w(writer))[p] == old(h4b(data, extra, false, p)))
  loop 1
    inv 4 <= index && 0 <= outSize && (index <= len(data) + 4) && wOK(writer) && W(writer).offset == old(W(writer).offset) + outSize
    inv [size] old(h4of(data, extra, false)) == outSize + h4size(old(bytes(data)), off(data) + index - 4, off(data) + len(data), len(extra), outSize == 0, len(extra) > 0 && (spsSeen || ppsSeen), false)
    inv [done] all(p, 0, outSize, old(mp4w(writer))[p] == old(h4b(data, extra, false, p)))
    inv [rest] all(p, outSize, old(h4of(data, extra, false)), trig(old(h4b(data, extra, false, p)), old(h4b(data, extra, false, p)) == h4byte(old(bytes(data)), off(data) + index - 4, off(data) + len(data), old(bytes(extra)), off(extra), len(extra), outSize == 0, len(extra) > 0 && (spsSeen || ppsSeen), false, p - outSize)))
    decreases len(data) + 4 - index
  ensures wOK(writer)
  ensures [size] W(writer).offset == old(W(writer).offset) + old(h4of(data, extra, false))
  ensures [bytes] all(p, 0, old(h4of(data, extra, false)), old(mp4w(writer))[p] == old(h4b(data, extra, false, p)))
def mp4w(w) = W(w).data[W(w).offset:]

# ---- MP4 to Annex-B, H.265 (C13) ----
def lenN(A, s, ls) = ite(ls == 1, sel(A, s), ite(ls == 2, be16(A, s), ite(ls == 3, be24(A, s), ite(ls == 4, be32(A, s), 0))))
def h5good(A, s, e, ls) = s + ls <= e && 2 <= lenN(A, s, ls) && s + ls + lenN(A, s, ls) <= e
def h5next(A, s, ls) = s + ls + lenN(A, s, ls)
def h5irap(A, s, ls) = 16 <= sel(A, s + ls) / 2 % 64 && sel(A, s + ls) / 2 % 64 <= 23
def h5ins(A, s, ls, x, seen) = ite(h5irap(A, s, ls) && !seen, x, 0)
def h5out(A, s, ls, x, seen) = h5ins(A, s, ls, x, seen) + 4 + lenN(A, s, ls)
def h5outB(A, s, ls, X, xo, x, seen, p) = let(i, h5ins(A, s, ls, x, seen), ite(p < i, sel(X, xo + p), ite(p < i + 4, ite(p == i + 3, 1, 0), sel(A, s + ls + p - i - 4))))
# every length field from s to the end is well formed
rec h5valid(A: arr, s: int, e: int, ls: int): bool = ite(s >= e, true, h5good(A, s, e, ls) && h5valid(A, h5next(A, s, ls), e, ls))
# size and byte p of the conversion of the well-formed units from s on
rec h5size(A: arr, s: int, e: int, ls: int, x: int, seen: bool): int = ite(s >= e || !h5good(A, s, e, ls), 0, h5out(A, s, ls, x, seen) + h5size(A, h5next(A, s, ls), e, ls, x, seen || h5irap(A, s, ls)))
rec h5byte(A: arr, s: int, e: int, ls: int, X: arr, xo: int, x: int, seen: bool, p: int): int = ite(s >= e || !h5good(A, s, e, ls), 0, ite(p < h5out(A, s, ls, x, seen), h5outB(A, s, ls, X, xo, x, seen, p), h5byte(A, h5next(A, s, ls), e, ls, X, xo, x, seen || h5irap(A, s, ls), p - h5out(A, s, ls, x, seen))))

lemma h5_size(A: arr, s: int, e: int, ls: int, x: int, seen: bool)
  requires x >= 0 && 1 <= ls && ls <= 4
  induct e - s
  use h5_size(A, h5next(A, s, ls), e, ls, x, seen || h5irap(A, s, ls))
  ensures h5valid(A, s, e, ls) == ite(s >= e, true, h5good(A, s, e, ls) && h5valid(A, h5next(A, s, ls), e, ls))
  ensures h5size(A, s, e, ls, x, seen) == ite(s >= e || !h5good(A, s, e, ls), 0, h5out(A, s, ls, x, seen) + h5size(A, h5next(A, s, ls), e, ls, x, seen || h5irap(A, s, ls)))
  ensures 0 <= h5size(A, s, e, ls, x, seen) && h5size(A, s, e, ls, x, seen) <= ite(s < e, (e - s) + (e - s) / (ls + 2) * (4 - ls), 0) + ite(seen, 0, x)
  ensures s < e && h5good(A, s, e, ls) ==> 0 <= h5size(A, h5next(A, s, ls), e, ls, x, seen || h5irap(A, s, ls))

lemma h5_step(A: arr, s: int, e: int, ls: int, X: arr, xo: int, x: int, seen: bool)
  requires s < e && h5good(A, s, e, ls)
  ensures all(p, 0, h5out(A, s, ls, x, seen), trig(h5byte(A, s, e, ls, X, xo, x, seen, p), h5byte(A, s, e, ls, X, xo, x, seen, p) == h5outB(A, s, ls, X, xo, x, seen, p)))
  ensures all(p, h5out(A, s, ls, x, seen), 1152921504606846976, trig(h5byte(A, s, e, ls, X, xo, x, seen, p), h5byte(A, s, e, ls, X, xo, x, seen, p) == h5byte(A, h5next(A, s, ls), e, ls, X, xo, x, seen || h5irap(A, s, ls), p - h5out(A, s, ls, x, seen))))

def h5of(d, x, ls) = h5size(bytes(d), off(d), off(d) + len(d), ls, len(x), false)
def h5b(d, x, ls, p) = h5byte(bytes(d), off(d), off(d) + len(d), ls, bytes(x), off(x), len(x), false, p)
def h5v(d, ls) = h5valid(bytes(d), off(d), off(d) + len(d), ls)

func hevc.Mp4ToAnnexB(dst, data, extra, lengthSize) (n, err)
  tags C13
  fuel 0
  requires 1 <= lengthSize && lengthSize <= 4 && arr(dst) != arr(data) && arr(dst) != arr(extra) && len(dst) >= h5of(data, extra, lengthSize)
  requires len(data) <= 281474976710656 && len(extra) <= 281474976710656
  modifies elems(dst, 0, h5of(data, extra, lengthSize))
  use entry: h5_size(bytes(data), off(data), off(data) + len(data), lengthSize, len(extra), false)
  use loop 1: h5_size(old(bytes(data)), off(data) + index, off(data) + len(data), lengthSize, len(extra), gotIRAP != 0)
  use loop 1: h5_step(old(bytes(data)), off(data) + index, off(data) + len(data), lengthSize, old(bytes(extra)), off(extra), len(extra), gotIRAP != 0)
  loop 1
    inv 0 <= index && 0 <= n && index <= len(data) && 0 <= gotIRAP && gotIRAP <= 1
    inv [valid] old(h5v(data, lengthSize)) == h5valid(old(bytes(data)), off(data) + index, off(data) + len(data), lengthSize)
    inv [size] old(h5of(data, extra, lengthSize)) == n + h5size(old(bytes(data)), off(data) + index, off(data) + len(data), lengthSize, len(extra), gotIRAP != 0)
    inv [done] all(p, 0, n, dst[p] == old(h5b(data, extra, lengthSize, p)))
    inv [rest] all(p, n, old(h5of(data, extra, lengthSize)), trig(old(h5b(data, extra, lengthSize, p)), old(h5b(data, extra, lengthSize, p)) == h5byte(old(bytes(data)), off(data) + index, off(data) + len(data), lengthSize, old(bytes(extra)), off(extra), len(extra), gotIRAP != 0, p - n)))
    decreases len(data) - index
  loop 2
    inv 0 <= i && i <= lengthSize && index == lold(index) + i
    inv nalUnitSize == lenN(old(bytes(data)), off(data) + lold(index), i)
    inv 0 <= nalUnitSize && (i < 4 ==> nalUnitSize < 16777216) && nalUnitSize < 4294967296
    decreases lengthSize - i
  ensures [valid] (err == nil) <==> old(h5v(data, lengthSize))
  ensures [error] err != nil ==> n == -1
  ensures [size] err == nil ==> n == old(h5of(data, extra, lengthSize))
  ensures [bytes] err == nil ==> all(p, 0, n, dst[p] == old(h5b(data, extra, lengthSize, p)))

# ---- key frames (C19) ----
rec key4(A: arr, s: int, e: int): bool = ite(sc(A, s, e) < 0, false, let(t, sel(A, sc(A, s, e) + 3) % 32, ite(t == 6 || t == 7 || t == 8 || t == 9, key4(A, sc(A, s, e) + 3, e), t == 5)))
rec key5(A: arr, s: int, e: int): bool = ite(sc(A, s, e) < 0, false, let(t, sel(A, sc(A, s, e) + 3) / 2 % 64, ite(t == 32 || t == 33 || t == 34 || t == 35 || t == 39 || t == 40, key5(A, sc(A, s, e) + 3, e), 16 <= t && t <= 23)))

func avc.IsKeyFrame(p) (r)
  tags C19
  opt pure
  use loop 1: sc_range(bytes(p), off(p) + index, off(p) + len(p))
  loop 1
    inv 0 <= index && index <= len(p)
    inv key4(bytes(p), off(p), off(p) + len(p)) == key4(bytes(p), off(p) + index, off(p) + len(p))
    decreases len(p) - index
  ensures r == key4(bytes(p), off(p), off(p) + len(p))

func hevc.IsKeyFrame(p) (r)
  tags C19
  opt pure
  use loop 1: sc_range(bytes(p), off(p) + index, off(p) + len(p))
  loop 1
    inv 0 <= index && index <= len(p)
    inv key5(bytes(p), off(p), off(p) + len(p)) == key5(bytes(p), off(p) + index, off(p) + len(p))
    decreases len(p) - index
  ensures r == key5(bytes(p), off(p), off(p) + len(p))

func avformat.IsKeyFrame(id, data) (r)
  tags C19
  opt pure
  ensures r == ite(id == utils.AVCodecIdH264, key4(bytes(data), off(data), off(data) + len(data)), ite(id == utils.AVCodecIdH265, key5(bytes(data), off(data), off(data) + len(data)), false))

# ---- parameter sets of a key frame (C20) ----
# the units of SplitNalU: the piece that starts at s, without its start code
def pcEnd(A, s, e) = cutEnd(A, s, e)
def pcUnit(A, s, e) = s + leadLen(A, s, pcEnd(A, s, e) - s)
def pcType(A, s, e, k) = ite(k == 4, sel(A, pcUnit(A, s, e)) % 32, sel(A, pcUnit(A, s, e)) / 2 % 64)
def pcIs(A, s, e, k, t) = pcUnit(A, s, e) < pcEnd(A, s, e) && pcType(A, s, e, k) == t
# start of the last piece of type t from s on (codec k), or cur
rec lastP(A: arr, s: int, e: int, k: int, t: int, cur: int): int = let(m, ite(pcIs(A, s, e, k, t), s, cur), ite(pcEnd(A, s, e) >= e || pcEnd(A, s, e) <= s, m, lastP(A, pcEnd(A, s, e), e, k, t, m)))

lemma lastP_step(A: arr, s: int, e: int, k: int, t: int, cur: int)
  use sc_range(A, s + 3, e)
  ensures let(m, ite(pcIs(A, s, e, k, t), s, cur), lastP(A, s, e, k, t, cur) == ite(pcEnd(A, s, e) >= e || pcEnd(A, s, e) <= s, m, lastP(A, pcEnd(A, s, e), e, k, t, m)))
  ensures s + 6 >= e ==> pcEnd(A, s, e) == e

ghostvar psV: int
ghostvar psS: int
ghostvar psP: int
def psLast(d, k, t) = lastP(bytes(d), off(d), off(d) + len(d), k, t, -1)
# r is a fresh copy of the unit in the piece at g, behind a 4-byte start code
def psCopy(r, A, g, e) = ite(g < 0, r == nil, r != nil && fresh(r) && len(r) == 4 + pcN(A, g, e) && r[0] == 0 && r[1] == 0 && r[2] == 0 && r[3] == 1
   && all(p, 4, len(r), r[p] == sel(A, pcU(A, g, e) + p - 4)))
# the unit of the piece at s, kept folded: where it starts, its length
rec pcU(A: arr, s: int, e: int): int = pcUnit(A, s, e)
rec pcN(A: arr, s: int, e: int): int = pcEnd(A, s, e) - pcUnit(A, s, e)
lemma pc_def(A: arr, s: int, e: int)
  ensures pcU(A, s, e) == pcUnit(A, s, e) && pcN(A, s, e) == pcEnd(A, s, e) - pcUnit(A, s, e)
def psStep(A, d, k, t, g) = ite(pcIs(A, off(d), off(d) + len(d), k, t), off(d), g)

func avc.ParseExtraDataFromKeyNALU(data) (sps, pps, err)
  tags C20
  opt sep
  opt inline:avc.SplitNalU
  requires len(data) <= 281474976710656
  modifies psS, psP
  set entry: psS = -1
  set entry: psP = -1
  set after avc.RemoveStartCode: psS = ite(pcIs(old(bytes(data)), off($data), off(data) + len(data), 4, 7), off($data), psS)
  set after avc.RemoveStartCode: psP = ite(pcIs(old(bytes(data)), off($data), off(data) + len(data), 4, 8), off($data), psP)
  use call avc.RemoveStartCode: pc_def(old(bytes(data)), off($data), off(data) + len(data))
  assert after avc.RemoveStartCode: arr($r) == arr(data) && off($r) == pcU(old(bytes(data)), off($data), off(data) + len(data)) && len($r) == pcN(old(bytes(data)), off($data), off(data) + len(data))
  use call avc.RemoveStartCode: lastP_step(old(bytes(data)), off($data), off(data) + len(data), 4, 7, psS), lastP_step(old(bytes(data)), off($data), off(data) + len(data), 4, 8, psP)
  fuel 0
  loop avc.SplitNalU.1
    inv 0 <= offset && offset + 3 <= len(data)
    inv n == ite(sc(old(bytes(data)), off(data) + offset + 3, off(data) + len(data)) < 0, -1, cutEnd(old(bytes(data)), off(data) + offset, off(data) + len(data)) - off(data) - offset - 3)
    inv n == -1 || 0 <= n && offset + n + 6 < len(data)
    inv n == -1 <==> sc(old(bytes(data)), off(data) + offset + 3, off(data) + len(data)) < 0
    inv old(psLast(data, 4, 7)) == lastP(old(bytes(data)), off(data) + offset, off(data) + len(data), 4, 7, psS)
    inv old(psLast(data, 4, 8)) == lastP(old(bytes(data)), off(data) + offset, off(data) + len(data), 4, 8, psP)
    inv psCopy(sps, old(bytes(data)), psS, off(data) + len(data))
    inv psCopy(pps, old(bytes(data)), psP, off(data) + len(data))
    inv [sizes] psS >= 0 ==> 5 <= len(sps) && len(sps) <= 4 + len(data)
    inv [sizep] psP >= 0 ==> 5 <= len(pps) && len(pps) <= 4 + len(data)
    inv [apart] psS >= 0 && psP >= 0 ==> arr(sps) != arr(pps)
    decreases len(data) - offset
  ensures [missing] (err != nil) <==> old(psLast(data, 4, 7)) < 0 || old(psLast(data, 4, 8)) < 0
  ensures [last] err == nil ==> psS == old(psLast(data, 4, 7)) && psP == old(psLast(data, 4, 8))
  ensures [sizes] err == nil ==> 5 <= len(sps) && len(sps) <= 4 + len(data) && 5 <= len(pps) && len(pps) <= 4 + len(data)
  ensures [apart] err == nil ==> arr(sps) != arr(pps)
  ensures [exact] err == nil ==> psCopy(sps, old(bytes(data)), psS, off(data) + len(data))
  ensures [exact] err == nil ==> psCopy(pps, old(bytes(data)), psP, off(data) + len(data))

func hevc.ParseExtraDataFromKeyNALU(data) (vps, sps, pps, err)
  tags C20
  opt sep
  opt inline:avc.SplitNalU
  requires len(data) <= 281474976710656
  modifies psV, psS, psP
  set entry: psV = -1
  set entry: psS = -1
  set entry: psP = -1
  set after avc.RemoveStartCode: psV = ite(pcIs(old(bytes(data)), off($data), off(data) + len(data), 5, 32), off($data), psV)
  set after avc.RemoveStartCode: psS = ite(pcIs(old(bytes(data)), off($data), off(data) + len(data), 5, 33), off($data), psS)
  set after avc.RemoveStartCode: psP = ite(pcIs(old(bytes(data)), off($data), off(data) + len(data), 5, 34), off($data), psP)
  use call avc.RemoveStartCode: pc_def(old(bytes(data)), off($data), off(data) + len(data))
  assert after avc.RemoveStartCode: arr($r) == arr(data) && off($r) == pcU(old(bytes(data)), off($data), off(data) + len(data)) && len($r) == pcN(old(bytes(data)), off($data), off(data) + len(data))
  use call avc.RemoveStartCode: lastP_step(old(bytes(data)), off($data), off(data) + len(data), 5, 33, psS), lastP_step(old(bytes(data)), off($data), off(data) + len(data), 5, 34, psP), lastP_step(old(bytes(data)), off($data), off(data) + len(data), 5, 32, psV)
  fuel 0
  loop avc.SplitNalU.1
    inv 0 <= offset && offset + 3 <= len(data)
    inv n == ite(sc(old(bytes(data)), off(data) + offset + 3, off(data) + len(data)) < 0, -1, cutEnd(old(bytes(data)), off(data) + offset, off(data) + len(data)) - off(data) - offset - 3)
    inv n == -1 || 0 <= n && offset + n + 6 < len(data)
    inv n == -1 <==> sc(old(bytes(data)), off(data) + offset + 3, off(data) + len(data)) < 0
    inv old(psLast(data, 5, 32)) == lastP(old(bytes(data)), off(data) + offset, off(data) + len(data), 5, 32, psV)
    inv old(psLast(data, 5, 33)) == lastP(old(bytes(data)), off(data) + offset, off(data) + len(data), 5, 33, psS)
    inv old(psLast(data, 5, 34)) == lastP(old(bytes(data)), off(data) + offset, off(data) + len(data), 5, 34, psP)
    inv psCopy(sps, old(bytes(data)), psS, off(data) + len(data))
    inv psCopy(pps, old(bytes(data)), psP, off(data) + len(data))
    inv psCopy(vps, old(bytes(data)), psV, off(data) + len(data))
    inv [sizev] psV >= 0 ==> 5 <= len(vps) && len(vps) <= 4 + len(data)
    inv [sizes] psS >= 0 ==> 5 <= len(sps) && len(sps) <= 4 + len(data)
    inv [sizep] psP >= 0 ==> 5 <= len(pps) && len(pps) <= 4 + len(data)
    inv [apart] psV >= 0 && psS >= 0 ==> arr(vps) != arr(sps)
    inv [apart] psV >= 0 && psP >= 0 ==> arr(vps) != arr(pps)
    inv [apart] psS >= 0 && psP >= 0 ==> arr(sps) != arr(pps)
    decreases len(data) - offset
  ensures [missing] (err != nil) <==> old(psLast(data, 5, 33)) < 0 || old(psLast(data, 5, 34)) < 0 || old(psLast(data, 5, 32)) < 0
  ensures [last] err == nil ==> psS == old(psLast(data, 5, 33)) && psP == old(psLast(data, 5, 34)) && psV == old(psLast(data, 5, 32))
  ensures [sizes] err == nil ==> 5 <= len(vps) && len(vps) <= 4 + len(data) && 5 <= len(sps) && len(sps) <= 4 + len(data) && 5 <= len(pps) && len(pps) <= 4 + len(data)
  ensures [apart] err == nil ==> arr(vps) != arr(sps) && arr(vps) != arr(pps) && arr(sps) != arr(pps)
  ensures [exact] err == nil ==> psCopy(sps, old(bytes(data)), psS, off(data) + len(data))
  ensures [exact] err == nil ==> psCopy(pps, old(bytes(data)), psP, off(data) + len(data))
  ensures [exact] err == nil ==> psCopy(vps, old(bytes(data)), psV, off(data) + len(data))
