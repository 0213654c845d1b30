# demuxer: probe protocol (C23) and delivery (C24)
# What the handler was told: 0 nothing, 1 tracks being announced, 2 tracks complete, 3 no track found.
ghostvar dmState: int
# the announced tracks, in order
ghostvar dmSaid: int
ghostvar dmTt: iarr
ghostvar dmTd: iarr
# arrivals: arN[i] packets arrived for stream i, the k-th of them is packet arP[i][k]
ghostvar arP: aarr
ghostvar arN: iarr
# what each packet was when it arrived: its stream, its position there, and its content
ghostvar pkSt: iarr
ghostvar pkPos: iarr
ghostvar pkDts: iarr
ghostvar pkPts: iarr
ghostvar pkTb: iarr
ghostvar pkArr: iarr
ghostvar pkOff: iarr
ghostvar pkLen: iarr
# the buffer of its stream
ghostvar pkBuf: iarr
# deliveries: of each packet, per stream, per buffer
ghostvar outD: iarr
ghostvar outN: iarr
ghostvar outB: iarr
# all deliveries, in order
ghostvar outSeq: iarr
ghostvar outC: int
# blocks given back per buffer, from the front and from the back
ghostvar relB: iarr
ghostvar backN: iarr
# the stream of each list of buffered packets
ghostvar lsIdx: iarr
# the DTS of every stream arrive in non-decreasing order
ghostvar mono: bool
# sorting of the packets buffered while probing
ghostvar sortP: iarr
ghostvar sortQ: iarr
ghostvar idxOf: iarr
# the stream being collected
ghostvar colI: int
# the last packet that arrived, and its stream
ghostvar lastPk: int
ghostvar lastSt: int
ghostvar resA: iarr

def inc(A, i) = upd(A, i, sel(A, i) + 1)
def pkOf(r) = ptr(r, avformat.AVPacket)
def arAt(i, k) = sel(sel(arP, i), k)
def pkNext(r) = arAt(sel(pkSt, r), sel(pkPos, r) + 1)
def gap(r) = wrap64(sel(pkDts, pkNext(r)) - sel(pkDts, r))

iface avformat.OnUnpackStreamHandler.OnNewTrack(h, track)
  trusted the handler changes nothing of the demuxer
  requires [before] dmState <= 1
  modifies dmState, dmSaid, dmTt, dmTd
  ensures dmState == 1 && dmSaid == old(dmSaid) + 1 && dmTt == upd(old(dmTt), old(dmSaid), tagof(track)) && dmTd == upd(old(dmTd), old(dmSaid), dataof(track))

iface avformat.OnUnpackStreamHandler.OnTrackComplete(h)
  trusted the handler changes nothing of the demuxer
  requires [after tracks] dmState == 1
  modifies dmState
  ensures dmState == 2

iface avformat.OnUnpackStreamHandler.OnTrackNotFind(h)
  trusted the handler changes nothing of the demuxer
  requires [nothing before] dmState == 0
  modifies dmState
  ensures dmState == 3

iface avformat.OnUnpackStreamHandler.OnPacket(h, packet)
  trusted the handler changes nothing of the demuxer
  requires [after tracks] dmState == 2
  requires [known] packet != nil && 0 <= sel(pkPos, packet) && arAt(sel(pkSt, packet), sel(pkPos, packet)) == ref(packet)
  requires [held] sel(pkPos, packet) + 1 < sel(arN, sel(pkSt, packet))
  requires [stream] packet.Index == sel(pkSt, packet)
  requires [same] pkSame(packet)
  requires [duration] packet.Duration == gap(ref(packet))
  requires [once] sel(outD, packet) == 0
  requires [order] mono ==> sel(pkPos, packet) == sel(outN, sel(pkSt, packet))
  modifies outD, outN, outB, outSeq, outC
  ensures outD == upd(old(outD), ref(packet), 1) && outN == inc(old(outN), sel(pkSt, packet)) && outB == inc(old(outB), sel(pkBuf, packet)) && outSeq == upd(old(outSeq), old(outC), ref(packet)) && outC == old(outC) + 1

iface avformat.DataPipeline.DiscardHeadPacket(p, index)
  trusted the pipeline changes nothing of the demuxer
  modifies relB
  ensures relB == inc(old(relB), index)

iface avformat.DataPipeline.DiscardBackPacket(p, index)
  trusted the pipeline changes nothing of the demuxer
  modifies backN
  ensures backN == inc(old(backN), index)

callback avformat.BaseDemuxer.onPreprocessPacket(packet)
  trusted the preprocessing hook changes at most the content of the packet it is given
  modifies packet.Data, packet.Pts, packet.Key, packet.PacketType, packet.dataAVCC, packet.dataAnnexB

# a packet still has the content it arrived with
def pkSame(p) = p.Dts == sel(pkDts, p) && p.Pts == sel(pkPts, p) && arr(p.Data) == sel(pkArr, p) && off(p.Data) == sel(pkOff, p) && len(p.Data) == sel(pkLen, p)

def dmN(s) = len(s.Packets)
def dmHd(s, i) = ite(s.Completed, max(sel(arN, i) - 1, 0), 0)
def mapped(s, i) = indom(s.streamIndex2BufferIndex, i)
# one list per stream, with the packets not delivered yet
def dmList(s, i) = s.Packets[i] != nil && isalloc(s.Packets[i]) && sel(lsIdx, s.Packets[i]) == i && llOK(s.Packets[i])
def dmSize(s, i) = s.Packets[i].size == sel(arN, i) - dmHd(s, i)
def dmElems(s, i) = all(j, 0, s.Packets[i].size, trig(sel(sel(llN, s.Packets[i]), j), ref(llAt(s.Packets[i], j)) == arAt(i, dmHd(s, i) + j)))
# the k-th packet of stream i
def dmArr(i, k) = arAt(i, k) > 0 && isalloc(pkOf(arAt(i, k))) && sel(pkSt, arAt(i, k)) == i && sel(pkPos, arAt(i, k)) == k && base(sel(pkTb, arAt(i, k))) && abs(sel(pkDts, arAt(i, k))) <= 4503599627370496
def dmHeld1(i, k) = pkOf(arAt(i, k)).Index == i && pkSame(pkOf(arAt(i, k))) && pkOf(arAt(i, k)).Timebase == sel(pkTb, arAt(i, k)) && sel(outD, arAt(i, k)) == 0
def dmGap(i, k) = pkOf(arAt(i, k)).Duration == wrap64(sel(pkDts, arAt(i, k + 1)) - sel(pkDts, arAt(i, k)))

func avformat.BaseDemuxer.forwardPacket(s, packet)
  tags C23 C24
  requires s != nil && s.Handler != nil && s.DataPipeline != nil && dmState == 2
  requires [known] packet != nil && 0 <= sel(pkPos, packet) && arAt(sel(pkSt, packet), sel(pkPos, packet)) == ref(packet)
  requires [held] sel(pkPos, packet) + 1 < sel(arN, sel(pkSt, packet))
  requires [stream] packet.Index == sel(pkSt, packet)
  requires [same] pkSame(packet)
  requires [duration] packet.Duration == gap(ref(packet))
  requires [once] sel(outD, packet) == 0
  requires [order] mono ==> sel(pkPos, packet) == sel(outN, sel(pkSt, packet))
  requires [mapped] mapped(s, packet.Index) && s.streamIndex2BufferIndex[packet.Index] == sel(pkBuf, packet)
  modifies outD, outN, outB, outSeq, outC
  modifies relB if s.AutoFree
  modifies packet.Data, packet.Pts, packet.Dts, packet.Duration, packet.Key, packet.CreatedTime, packet.BufferIndex, packet.Index, packet.Timebase, packet.MediaType, packet.CodecID, packet.PacketType, packet.dataAVCC, packet.dataAnnexB, packet.OnBufferAlloc if s.AutoFree
  ensures [told] outD == upd(old(outD), ref(packet), 1) && outN == inc(old(outN), sel(pkSt, packet)) && outB == inc(old(outB), sel(pkBuf, packet)) && outSeq == upd(old(outSeq), old(outC), ref(packet)) && outC == old(outC) + 1
  ensures [release] relB == ite(s.AutoFree, inc(old(relB), sel(pkBuf, packet)), old(relB))

# the state a demuxer and its ghosts are in between calls
def dmLists(s) = all(i, 0, dmN(s), dmList(s, i))
def dmSizes(s) = all(i, 0, dmN(s), dmSize(s, i) && 0 <= sel(arN, i)) && forall(i, trig(sel(arN, i), i < 0 || i >= dmN(s) ==> sel(arN, i) == 0))
def dmInLists(s) = all(i, 0, dmN(s), dmElems(s, i))
def dmArrived(s) = forall(i, k, trig(arAt(i, k), 0 <= i && i < dmN(s) && 0 <= k && k < sel(arN, i) ==> dmArr(i, k)))
def dmHeld(s) = forall(i, k, trig(arAt(i, k), 0 <= i && i < dmN(s) && dmHd(s, i) <= k && k < sel(arN, i) ==> dmHeld1(i, k)))
def dmGaps(s) = forall(i, k, trig(arAt(i, k), 0 <= i && i < dmN(s) && dmHd(s, i) <= k && k + 1 < sel(arN, i) ==> dmGap(i, k)))
def dmLast(s) = forall(i, k, trig(arAt(i, k), 0 <= i && i < dmN(s) && 0 <= k && k + 1 == sel(arN, i) ==> pkOf(arAt(i, k)).Duration == 0))
def dmGone(s) = forall(i, k, trig(arAt(i, k), 0 <= i && i < dmN(s) && 0 <= k && k < dmHd(s, i) ==> sel(outD, arAt(i, k)) == 1))
def dmMono(s) = mono ==> forall(i, k, m, trig(arAt(i, k), arAt(i, m), 0 <= i && i < dmN(s) && 0 <= k && k < m && m < sel(arN, i) ==> sel(pkDts, arAt(i, k)) <= sel(pkDts, arAt(i, m))))
def dmOrder(s) = mono ==> forall(i, trig(sel(outN, i), 0 <= i ==> sel(outN, i) == dmHd(s, i)))
def dmTold(s) = (s.Completed ==> dmState >= 2) && (!s.Completed ==> dmState == 0 && dmSaid == 0 && outC == 0) && (dmState == 2 ==> dmAnnounced(s, len(s.Tracks.Tracks))) && (dmState >= 2 && len(s.Tracks.Tracks) > 0 ==> dmState == 2)
def dmAnnounced(s, n) = dmSaid == n && all(k, 0, n, sel(dmTt, k) == tagof(s.Tracks.Tracks[k]) && sel(dmTd, k) == dataof(s.Tracks.Tracks[k]))
def dmMap(s) = forall(i, trig(mapped(s, i), mapped(s, i) ==> 0 <= i && i < len(s.Tracks.Tracks) && dmStream(s, i)))
def dmStream(s, i) = ptr(streamOf(s.Tracks.Tracks[i]), avformat.AVStream).Index == i && base(ptr(streamOf(s.Tracks.Tracks[i]), avformat.AVStream).Timebase)
def dmBufs(s) = forall(i, k, trig(arAt(i, k), 0 <= i && i < dmN(s) && 0 <= k && k < sel(arN, i) ==> mapped(s, i) && s.streamIndex2BufferIndex[i] == sel(pkBuf, arAt(i, k))))
def dmTrack(t) = isalloc(ptr(streamOf(t), avformat.AVStream)) && (typeis(t, *avformat.SimpleTrack) ==> isalloc(as(t, *avformat.SimpleTrack))) && len(ptr(streamOf(t), avformat.AVStream).Data) <= 35184372088832
def dmData(s) = all(k, 0, len(s.Tracks.Tracks), dmTrack(s.Tracks.Tracks[k]))
def dmRel(s) = s.AutoFree ==> relB == outB
# what the tracks are prepared from
def dmOK2(s) = s != nil && okTracks(s.Tracks.Tracks) && dmLists(s) && all(i, 0, dmN(s), s.Packets[i].size > 0 ==> llAt(s.Packets[i], 0) != nil && base(llAt(s.Packets[i], 0).Timebase) && abs(llAt(s.Packets[i], 0).Duration) <= 9007199254740992)
def dmOK(s) = s != nil && s.Handler != nil && s.DataPipeline != nil && okTracks(s.Tracks.Tracks) && dmLists(s) && dmSizes(s) && dmInLists(s) && dmArrived(s) && dmHeld(s) && dmGaps(s) && dmLast(s) && dmGone(s) && dmMono(s) && dmOrder(s) && dmTold(s) && dmMap(s) && dmBufs(s) && dmData(s) && dmRel(s) && forall(r, trig(sel(outD, r), r >= topid() ==> sel(outD, r) == 0))

lemma scaled_fits(x: int, s: int)
  tags C23
  requires abs(x) <= 9007199254740992 && base(s)
  ensures i64ok(scaled(x, s, 1000))

# the duration of the first n gaps of a stream, in milliseconds
rec msOf(x: int, s: int): int = scaled(x, s, 1000)
lemma msOf_def(x: int, s: int)
  tags C23
  ensures msOf(x, s) == scaled(x, s, 1000)
def gapMs(A, D, T, n) = msOf(wrap64(sel(D, sel(A, n + 1)) - sel(D, sel(A, n))), sel(T, sel(A, n)))
rec durS(A: iarr, D: iarr, T: iarr, n: int): int = ite(n <= 0, 0, wrap64(durS(A, D, T, n - 1) + gapMs(A, D, T, n - 1)))
lemma durS_def(A: iarr, D: iarr, T: iarr, n: int)
  tags C23
  ensures durS(A, D, T, n) == ite(n <= 0, 0, wrap64(durS(A, D, T, n - 1) + gapMs(A, D, T, n - 1)))

# the packets the collecting loops took: resA holds the packets of streams below n except the last of each, and the first m of stream n,
# stream by stream in order of arrival; idxOf tells where each is
def before(p, q) = sel(pkSt, p) < sel(pkSt, q) || sel(pkSt, p) == sel(pkSt, q) && sel(pkPos, p) < sel(pkPos, q)
def took(n, m, i, k) = 0 <= i && 0 <= k && (i < n && k < sel(arN, i) - 1 || i == n && k < m)
def isAt(p) = p > 0 && arAt(sel(pkSt, p), sel(pkPos, p)) == p
def colMem(l, n, m) = all(a, 0, l, isAt(sel(resA, a)) && took(n, m, sel(pkSt, sel(resA, a)), sel(pkPos, sel(resA, a))) && sel(idxOf, sel(resA, a)) == a)
def colAll(l, n, m) = forall(i, k, trig(arAt(i, k), took(n, m, i, k) ==> 0 <= sel(idxOf, arAt(i, k)) && sel(idxOf, arAt(i, k)) < l && sel(resA, sel(idxOf, arAt(i, k))) == arAt(i, k)))
def colOrd(l) = forall(a, b, trig(sel(resA, a), sel(resA, b), 0 <= a && a < b && b < l ==> before(sel(resA, a), sel(resA, b))))
def col(res) = off(res) == 0 && (arr(res) == 0 || fresh(res)) && all(a, 0, len(res), ref(res[a]) == sel(resA, a))
# list i lacks the first h packets of its stream
def lstAt(s, i, h) = dmList(s, i) && s.Packets[i].size == sel(arN, i) - h && all(j, 0, s.Packets[i].size, trig(sel(sel(llN, s.Packets[i]), j), ref(llAt(s.Packets[i], j)) == arAt(i, h + j)))
def lstBelow(s, n) = all(i, 0, n, lstAt(s, i, max(sel(arN, i) - 1, 0)))
def lstAbove(s, n) = all(i, n, dmN(s), lstAt(s, i, 0))
# the order of delivery: rank of a packet among the sorted ones
def rank(p) = sel(sortQ, sel(idxOf, p))
def inFlush(s, i, k) = 0 <= i && i < dmN(s) && 0 <= k && k + 1 < sel(arN, i)
def rankAll(s, res) = forall(i, k, trig(arAt(i, k), inFlush(s, i, k) ==> 0 <= rank(arAt(i, k)) && rank(arAt(i, k)) < len(res) && ref(res[rank(arAt(i, k))]) == arAt(i, k)))
def rankMem(s, res) = all(a, 0, len(res), isAt(ref(res[a])) && inFlush(s, sel(pkSt, res[a]), sel(pkPos, res[a])) && rank(ref(res[a])) == a)
def rankMono(s) = mono ==> forall(i, k, m, trig(arAt(i, k), arAt(i, m), inFlush(s, i, m) && 0 <= k && k < m ==> rank(arAt(i, k)) < rank(arAt(i, m))))
# the first n of the sorted packets are delivered
def outIs(s, n) = forall(i, k, trig(arAt(i, k), inFlush(s, i, k) && rank(arAt(i, k)) < n ==> sel(outD, arAt(i, k)) == 1))
def outNot(s, n) = forall(i, k, trig(arAt(i, k), inFlush(s, i, k) && rank(arAt(i, k)) >= n ==> dmHeld1(i, k) && dmGap(i, k)))
def outOrd(s, n) = mono ==> forall(i, k, trig(arAt(i, k), inFlush(s, i, k) ==> (k < sel(outN, i)) == (rank(arAt(i, k)) < n)))
def outCnt(s) = mono ==> forall(i, trig(sel(outN, i), 0 <= i ==> 0 <= sel(outN, i) && sel(outN, i) <= max(sel(arN, i) - 1, 0)))
def lastHeld(s) = forall(i, k, trig(arAt(i, k), 0 <= i && i < dmN(s) && 0 <= k && k + 1 == sel(arN, i) ==> dmHeld1(i, k) && pkOf(arAt(i, k)).Duration == 0))

func avformat.BaseDemuxer.calculatePCMFrequency(s) (ok)
  tags C23 C24
  requires dmOK2(s)
  modifies all("avformat.AVStream.AudioConfig")
  loop 1
    inv true
  loop 2
    inv true

func avformat.BaseDemuxer.calculateG726BitRate(s) (ok)
  tags C23 C24
  requires dmOK2(s)
  modifies all("avformat.AVStream.AudioConfig")
  loop 1
    inv true
  loop 2
    inv true

func avformat.BaseDemuxer.OnProbeComplete(s)
  tags C23 C24
  opt lazy
  requires dmOK(s)
  loop 1
    inv dmState <= 1 && dmSaid == iter && dmAnnounced(s, iter) && (iter > 0 ==> dmState == 1)
  loop 2
    inv lstBelow(s, iter)
    inv lstAbove(s, iter)
    inv colMem(len(result), iter, 0)
    inv colAll(len(result), iter, 0)
    inv colOrd(len(result))
    inv col(result)
  loop 3
    inv 0 <= i && i <= prePacketIndex + 1 && prePacketIndex == sel(arN, colI) - 2 && 0 <= colI && colI < dmN(s) && same(packets, s.Packets[colI])
    inv lstBelow(s, colI)
    inv lstAbove(s, colI + 1)
    inv lstAt(s, colI, i)
    inv colMem(len(result), colI, i)
    inv colAll(len(result), colI, i)
    inv colOrd(len(result))
    inv col(result)
    decreases prePacketIndex + 1 - i
  set loop 2 body: colI = iter
  set loop 3 back: idxOf = upd(idxOf, ref(result[len(result) - 1]), len(result) - 1)
  set loop 3 back: resA = upd(resA, len(result) - 1, ref(result[len(result) - 1]))
  assert loop 4 init: rankAll(s, result)
  assert loop 4 init: rankMem(s, result)
  assert loop 4 init: rankMono(s)
  assert call avformat.BaseDemuxer.forwardPacket: mono && sel(outN, sel(pkSt, $packet)) < sel(pkPos, $packet) ==> rank(arAt(sel(pkSt, $packet), sel(outN, sel(pkSt, $packet)))) < rank(ref($packet))
  assert loop 4 init: all(a, 0, len(result), result[a].Dts == sel(pkDts, result[a]))
  assert loop 4 exit: mono ==> forall(i, trig(sel(outN, i), 0 <= i && i < dmN(s) && sel(outN, i) + 1 < sel(arN, i) ==> rank(arAt(i, sel(outN, i))) >= len(result)))
  loop 4
    inv outIs(s, iter)
    inv outNot(s, iter)
    inv outOrd(s, iter)
    inv outCnt(s)
    inv outC == iter && all(a, 0, iter, sel(outSeq, a) == ref(result[a]))
    inv lastHeld(s)
    inv forall(r, trig(sel(outD, r), r >= topid() ==> sel(outD, r) == 0))
    inv dmRel(s)
  modifies s.Completed if !s.Completed
  modifies dmState if !s.Completed
  modifies dmSaid if !s.Completed
  modifies dmTt if !s.Completed
  modifies dmTd if !s.Completed
  modifies outD if !s.Completed
  modifies outN if !s.Completed
  modifies outB if !s.Completed
  modifies outSeq if !s.Completed
  modifies outC if !s.Completed
  modifies relB if !s.Completed
  modifies llN if !s.Completed
  modifies sortP if !s.Completed
  modifies sortQ if !s.Completed
  modifies idxOf if !s.Completed
  modifies colI if !s.Completed
  modifies resA if !s.Completed
  modifies all("avformat.AVPacket") if !s.Completed
  modifies all("collections.LinkedList[*avformat.AVPacket]") if !s.Completed
  modifies all("avformat.AVStream.AudioConfig") if !s.Completed
  ensures dmOK(s)
  ensures [complete] s.Completed
  ensures [none] !old(s.Completed) && len(s.Tracks.Tracks) == 0 ==> dmState == 3
  ensures [sorted] !old(s.Completed) ==> forall(a, b, trig(sel(outSeq, a), sel(outSeq, b), 0 <= a && a < b && b < outC ==> sel(pkDts, sel(outSeq, a)) <= sel(pkDts, sel(outSeq, b))))

# a packet arrives
def dmCalls(s, packet) = packet != nil && isalloc(packet) && packet.Duration == 0 && mapped(s, packet.Index) && base(packet.Timebase) && abs(packet.Dts) <= 4503599627370496
  && forall(i, k, trig(arAt(i, k), 0 <= i && i < dmN(s) && 0 <= k && k < sel(arN, i) ==> arAt(i, k) != ref(packet)))
  && sel(outD, packet) == 0 && sel(arN, packet.Index) < 1152921504606846976
  && (mono && sel(arN, packet.Index) > 0 ==> sel(pkDts, arAt(packet.Index, sel(arN, packet.Index) - 1)) <= packet.Dts)

func avformat.BaseDemuxer.processBufferedPacket(s, packet)
  fuel 0
  opt lazy
  tags C23 C24
  requires dmOK(s)
  requires dmCalls(s, packet)
  modifies s.Completed, s.Packets, elems(s.Packets)
  modifies arP, arN, pkSt, pkPos, pkDts, pkPts, pkTb, pkArr, pkOff, pkLen, pkBuf, lsIdx, llN, llO, lastSt, lastPk
  set entry: lastSt = packet.Index
  set entry: lastPk = ref(packet)
  modifies dmState, dmSaid, dmTt, dmTd, outD, outN, outB, outSeq, outC, relB, sortP, sortQ, idxOf, colI, resA
  modifies all("avformat.AVPacket"), all("collections.LinkedList[*avformat.AVPacket]"), all("collections.Node[*avformat.AVPacket]")
  modifies all("avformat.AVStream.AudioConfig")
  set after collections.LinkedList.Add: arP = upd(arP, packet.Index, upd(sel(arP, packet.Index), sel(arN, packet.Index), ref(packet)))
  set after collections.LinkedList.Add: pkSt = upd(pkSt, ref(packet), packet.Index)
  set after collections.LinkedList.Add: pkPos = upd(pkPos, ref(packet), sel(arN, packet.Index))
  set after collections.LinkedList.Add: arN = inc(arN, packet.Index)
  set after collections.LinkedList.Add: pkDts = upd(pkDts, ref(packet), packet.Dts)
  set after collections.LinkedList.Add: pkPts = upd(pkPts, ref(packet), packet.Pts)
  set after collections.LinkedList.Add: pkTb = upd(pkTb, ref(packet), packet.Timebase)
  set after collections.LinkedList.Add: pkArr = upd(pkArr, ref(packet), arr(packet.Data))
  set after collections.LinkedList.Add: pkOff = upd(pkOff, ref(packet), off(packet.Data))
  set after collections.LinkedList.Add: pkLen = upd(pkLen, ref(packet), len(packet.Data))
  set after collections.LinkedList.Add: pkBuf = upd(pkBuf, ref(packet), s.streamIndex2BufferIndex[packet.Index])
  loop 1
    inv dmOK(s)
    inv dmCalls(s, packet)
    inv len(s.Packets) >= old(len(s.Packets)) && (arr(s.Packets) == old(arr(s.Packets)) || fresh(s.Packets))
    decreases packet.Index + 1 - len(s.Packets)
  loop 2
    inv 0 <= i && i <= prevPacketIndex + 1
    inv duration == durS(sel(arP, packet.Index), pkDts, pkTb, i)
    decreases prevPacketIndex + 1 - i
  use loop 2 init: durS_def(sel(arP, packet.Index), pkDts, pkTb, 0)
  use loop 2 back: durS_def(sel(arP, packet.Index), pkDts, pkTb, i)
  assert loop 2 body: ref(llAt(packets, i)) == arAt(packet.Index, i)
  assert loop 2 body: dmGap(packet.Index, i)
  assert loop 2 body: abs(pkOf(arAt(packet.Index, i)).Duration) <= 9007199254740992 && pkOf(arAt(packet.Index, i)).Timebase == sel(pkTb, arAt(packet.Index, i)) && base(sel(pkTb, arAt(packet.Index, i)))
  use call avformat.AVPacket.GetDuration: scaled_fits($pkt.Duration, $pkt.Timebase)
  use after avformat.AVPacket.GetDuration: msOf_def($pkt.Duration, $pkt.Timebase)
  assert after avformat.AVPacket.GetDuration: $r == msOf($pkt.Duration, $pkt.Timebase)
  assert after avformat.AVPacket.GetDuration: $r == gapMs(sel(arP, packet.Index), pkDts, pkTb, i)
  set loop 1 back: lsIdx = upd(lsIdx, ref(s.Packets[len(s.Packets) - 1]), len(s.Packets) - 1)
  ensures dmOK(s)
  ensures [arrived] sel(arN, old(packet.Index)) == old(sel(arN, packet.Index)) + 1 && arN == inc(old(arN), old(packet.Index)) && arP == upd(old(arP), old(packet.Index), upd(sel(old(arP), old(packet.Index)), old(sel(arN, packet.Index)), ref(packet)))
  ensures [content] pkDts == upd(old(pkDts), ref(packet), old(packet.Dts)) && pkPts == upd(old(pkPts), ref(packet), old(packet.Pts)) && sel(pkArr, packet) == old(arr(packet.Data)) && sel(pkOff, packet) == old(off(packet.Data)) && sel(pkLen, packet) == old(len(packet.Data))
  ensures [last] lastSt == old(packet.Index) && lastPk == ref(packet)
  ensures [still complete] old(s.Completed) ==> s.Completed && dmState == old(dmState)
  ensures [probe] !old(s.Completed) ==> (s.Completed == (sel(arN, old(packet.Index)) >= 2 && durS(sel(arP, old(packet.Index)), pkDts, pkTb, sel(arN, old(packet.Index)) - 1) >= max(200, s.ProbeDuration)))

func avformat.BaseDemuxer.ProbeComplete(s)
  tags C23 C24
  requires dmOK(s)
  modifies s.Completed if !s.Completed
  modifies dmState if !s.Completed
  modifies dmSaid if !s.Completed
  modifies dmTt if !s.Completed
  modifies dmTd if !s.Completed
  modifies outD if !s.Completed
  modifies outN if !s.Completed
  modifies outB if !s.Completed
  modifies outSeq if !s.Completed
  modifies outC if !s.Completed
  modifies relB if !s.Completed
  modifies llN if !s.Completed
  modifies sortP if !s.Completed
  modifies sortQ if !s.Completed
  modifies idxOf if !s.Completed
  modifies colI if !s.Completed
  modifies resA if !s.Completed
  modifies all("avformat.AVPacket") if !s.Completed
  modifies all("collections.LinkedList[*avformat.AVPacket]") if !s.Completed
  modifies all("avformat.AVStream.AudioConfig") if !s.Completed
  ensures dmOK(s)
  ensures [complete] s.Completed
  ensures [again] old(s.Completed) ==> dmState == old(dmState) && outD == old(outD)

func avformat.BaseDemuxer.TryCompleteProbe(s)
  tags C23 C24
  requires dmOK(s)
  modifies s.Completed if !s.Completed
  modifies dmState if !s.Completed
  modifies dmSaid if !s.Completed
  modifies dmTt if !s.Completed
  modifies dmTd if !s.Completed
  modifies outD if !s.Completed
  modifies outN if !s.Completed
  modifies outB if !s.Completed
  modifies outSeq if !s.Completed
  modifies outC if !s.Completed
  modifies relB if !s.Completed
  modifies llN if !s.Completed
  modifies sortP if !s.Completed
  modifies sortQ if !s.Completed
  modifies idxOf if !s.Completed
  modifies colI if !s.Completed
  modifies resA if !s.Completed
  modifies all("avformat.AVPacket") if !s.Completed
  modifies all("collections.LinkedList[*avformat.AVPacket]") if !s.Completed
  modifies all("avformat.AVStream.AudioConfig") if !s.Completed
  loop 1
    inv !needMoreData
  loop 2
    inv !needMoreData && all(i, 0, iter, i != ptr(streamOf(track), avformat.AVStream).Index || s.Packets[i].size >= 2)
  ensures dmOK(s)
  ensures [again] old(s.Completed) ==> dmState == old(dmState) && outD == old(outD)

func avformat.BaseDemuxer.SetProbeDuration(s, duration)
  tags C23 C24
  requires dmOK(s)
  modifies s.ProbeDuration
  ensures dmOK(s) && s.ProbeDuration == duration

func avformat.BaseDemuxer.findTrackByBufferIndex(s, index) (t)
  tags C24
  requires dmOK(s)
  loop 1
    inv forall(i, trig(mapped(s, i), sel(visited, i) ==> s.streamIndex2BufferIndex[i] != index))
  ensures [none] t == nil ==> forall(i, trig(mapped(s, i), mapped(s, i) ==> s.streamIndex2BufferIndex[i] != index))
  ensures [its] t != nil ==> okTrack(t) && exists(i, mapped(s, i) && s.streamIndex2BufferIndex[i] == index && same(t, s.Tracks.Tracks[i]))

func avformat.BaseDemuxer.SetHandler(s, handler)
  tags C23 C24
  requires dmOK(s) && handler != nil
  modifies s.Handler
  ensures dmOK(s) && same(s.Handler, handler)

func avformat.BaseDemuxer.Close(s)
  tags C23
  requires s != nil
  modifies s.Handler, s.onPreprocessPacket
  ensures s.Handler == nil && s.onPreprocessPacket == nil

func avformat.BaseDemuxer.DiscardBackPacket(s, index)
  tags C24
  requires s != nil && s.DataPipeline != nil
  modifies backN
  ensures backN == inc(old(backN), index)

func avformat.BaseDemuxer.DiscardHeadPacket(s, index)
  tags C24
  requires s != nil && s.DataPipeline != nil
  modifies relB
  ensures relB == inc(old(relB), index)

# a new track is registered under the next stream index, with its buffer
def strm(t) = ptr(streamOf(t), avformat.AVStream)
def newTrack(s, t, b, id, tb) = len(s.Tracks.Tracks) == old(len(s.Tracks.Tracks)) + 1 && same(t, s.Tracks.Tracks[len(s.Tracks.Tracks) - 1]) && okTrack(t)
   && strm(t).CodecID == id && strm(t).Timebase == tb && strm(t).Index == old(len(s.Tracks.Tracks)) && mapped(s, strm(t).Index) && s.streamIndex2BufferIndex[strm(t).Index] == b
def keptTracks(s) = all(k, 0, old(len(s.Tracks.Tracks)), same(s.Tracks.Tracks[k], old(s.Tracks.Tracks[k]))) && forall(i, trig(mapped(s, i), i != old(len(s.Tracks.Tracks)) ==> mapped(s, i) == old(mapped(s, i)) && (mapped(s, i) ==> s.streamIndex2BufferIndex[i] == old(s.streamIndex2BufferIndex[i]))))
def noTrack(s) = same(s.Tracks.Tracks, old(s.Tracks.Tracks)) && forall(i, trig(mapped(s, i), mapped(s, i) == old(mapped(s, i)) && (mapped(s, i) ==> s.streamIndex2BufferIndex[i] == old(s.streamIndex2BufferIndex[i]))))

func avformat.BaseDemuxer.createAudioTrack(s, bufferIndex, id, timebase, extraData, config) (t)
  tags C24
  opt sep
  merge
  opt lazy
  requires dmOK(s) && base(timebase) && len(extraData) <= 35184372088832
  requires id == utils.AVCodecIdAAC && !config.HasADTSHeader ==> extraData != nil
  modifies s.Tracks, elems(s.Tracks.Tracks), s.streamIndex2BufferIndex, mapof(s.streamIndex2BufferIndex)
  ensures dmOK(s)
  ensures [complete] old(s.Completed) ==> t == nil
  ensures [accepted] !old(s.Completed) && (id != utils.AVCodecIdAAC || config.HasADTSHeader) ==> t != nil
  ensures [none] t == nil ==> noTrack(s)
  ensures [new] t != nil ==> newTrack(s, t, bufferIndex, id, timebase) && strm(t).MediaType == utils.AVMediaTypeAudio && fresh(strm(t))
  ensures [data] t != nil ==> len(strm(t).Data) == len(extraData) && all(k, 0, len(extraData), strm(t).Data[k] == extraData[k]) && (len(extraData) > 0 ==> fresh(strm(t).Data))
  ensures [kept] keptTracks(s)

func avformat.BaseDemuxer.createVideoTrack(s, bufferIndex, id, timebase, extraData) (t)
  tags C24
  opt sep
  merge
  opt lazy
  fuel 0
  requires dmOK(s) && base(timebase) && len(extraData) <= 35184372088832
  modifies s.Tracks, elems(s.Tracks.Tracks), s.streamIndex2BufferIndex, mapof(s.streamIndex2BufferIndex)
  modifies gpA, gpN, gp, gq, gr, gs, gst, ghi, gb, gpr, cdOK, psV, psS, psP
  ensures dmOK(s)
  ensures [complete] old(s.Completed) ==> t == nil
  ensures [accepted] !old(s.Completed) && !isVideo(id) ==> t != nil
  ensures [none] t == nil ==> noTrack(s)
  ensures [new] t != nil ==> newTrack(s, t, bufferIndex, id, timebase) && strm(t).MediaType == utils.AVMediaTypeVideo && fresh(strm(t))
  ensures [data] t != nil ==> len(strm(t).Data) == len(extraData) && all(k, 0, len(extraData), strm(t).Data[k] == extraData[k]) && fresh(strm(t).Data)
  ensures [codec] t != nil && id == utils.AVCodecIdH264 ==> typeis(strm(t).CodecParameters, *avformat.AVCCodecData)
  ensures [codec] t != nil && id == utils.AVCodecIdH265 ==> typeis(strm(t).CodecParameters, *avformat.HEVCCodecData)
  ensures [codec] t != nil && !isVideo(id) ==> strm(t).CodecParameters == nil
  ensures [kept] keptTracks(s)
  ensures [others] backN == old(backN)

def hasMedia(l, m) = ex(k, 0, len(l), media(l[k]) == m)
func avformat.BaseDemuxer.OnNewAudioTrack(s, bufferIndex, id, timebase, extraData, config) (t)
  tags C24
  opt sep
  merge
  opt lazy
  requires dmOK(s) && base(timebase) && len(extraData) <= 35184372088832
  requires id == utils.AVCodecIdAAC && !config.HasADTSHeader ==> extraData != nil
  modifies s.Tracks, elems(s.Tracks.Tracks), s.streamIndex2BufferIndex, mapof(s.streamIndex2BufferIndex), backN
  ensures dmOK(s)
  ensures [complete] old(s.Completed) ==> t == nil
  ensures [none] t == nil ==> noTrack(s)
  ensures [new] t != nil ==> newTrack(s, t, bufferIndex, id, timebase) && strm(t).MediaType == utils.AVMediaTypeAudio
  ensures [kept] keptTracks(s)
  ensures [given back] backN == ite(len(extraData) > 0, inc(old(backN), bufferIndex), old(backN))

func avformat.BaseDemuxer.OnNewVideoTrack(s, bufferIndex, id, timebase, extraData) (t)
  tags C24
  opt sep
  merge
  opt lazy
  fuel 0
  requires dmOK(s) && base(timebase) && len(extraData) <= 35184372088832
  modifies s.Tracks, elems(s.Tracks.Tracks), s.streamIndex2BufferIndex, mapof(s.streamIndex2BufferIndex), backN
  modifies gpA, gpN, gp, gq, gr, gs, gst, ghi, gb, gpr, cdOK, psV, psS, psP
  ensures dmOK(s)
  ensures [complete] old(s.Completed) ==> t == nil
  ensures [none] t == nil ==> noTrack(s)
  ensures [new] t != nil ==> newTrack(s, t, bufferIndex, id, timebase) && strm(t).MediaType == utils.AVMediaTypeVideo
  ensures [kept] keptTracks(s)
  ensures [given back] backN == ite(len(extraData) > 0, inc(old(backN), bufferIndex), old(backN))

# a packet handed in is accepted by the stream of its buffer, or its block is given back
def accepted(s, b, dts, pts) = backN == old(backN) && mapped(s, lastSt) && s.streamIndex2BufferIndex[lastSt] == b && arN == inc(old(arN), lastSt) && lastPk == arAt(lastSt, sel(arN, lastSt) - 1) && sel(pkDts, lastPk) == dts && sel(pkPts, lastPk) == pts
def acceptedData(data) = sel(pkArr, lastPk) == arr(data) && sel(pkOff, lastPk) == off(data) && sel(pkLen, lastPk) == len(data)
def returned(s, b) = backN == inc(old(backN), b) && arN == old(arN) && outD == old(outD) && outC == old(outC) && dmState == old(dmState) && relB == old(relB)
def knownName(s) = s.Name == "flv" || s.Name == "jt1078" || s.Name == "ps" || s.Name == "ts"
def nextDts(s, b, dts) = abs(dts) <= 4503599627370496 && forall(i, trig(sel(arN, i), sel(arN, i) < 1152921504606846976))
  && (mono ==> forall(i, trig(sel(arN, i), mapped(s, i) && s.streamIndex2BufferIndex[i] == b && sel(arN, i) > 0 ==> sel(pkDts, arAt(i, sel(arN, i) - 1)) <= dts)))
def hasBuf(s, b) = exists(i, mapped(s, i) && s.streamIndex2BufferIndex[i] == b)

func avformat.BaseDemuxer.OnAudioPacket(s, bufferIndex, id, data, ts)
  tags C24
  opt sep
  merge
  opt lazy
  requires dmOK(s) && knownName(s) && len(data) <= 35184372088832
  requires nextDts(s, bufferIndex, ts)
  modifies s.Tracks, elems(s.Tracks.Tracks), s.streamIndex2BufferIndex, mapof(s.streamIndex2BufferIndex), backN
  modifies s.Completed, s.Packets, elems(s.Packets)
  modifies arP, arN, pkSt, pkPos, pkDts, pkPts, pkTb, pkArr, pkOff, pkLen, pkBuf, lsIdx, llN, llO, lastSt, lastPk
  modifies dmState, dmSaid, dmTt, dmTd, outD, outN, outB, outSeq, outC, relB, sortP, sortQ, idxOf, colI, resA
  modifies all("avformat.AVPacket"), all("collections.LinkedList[*avformat.AVPacket]"), all("collections.Node[*avformat.AVPacket]")
  modifies all("avformat.AVStream.AudioConfig")
  ensures dmOK(s)
  ensures [accepted] accepted(s, bufferIndex, ts, ts) && acceptedData(data) || returned(s, bufferIndex)
  ensures [complete] old(s.Completed) ==> s.Completed && same(s.Tracks.Tracks, old(s.Tracks.Tracks))
  ensures [known] old(hasBuf(s, bufferIndex)) ==> backN == old(backN)

func avformat.BaseDemuxer.OnVideoPacket(s, bufferIndex, id, data, key, dts, pts, packType)
  tags C24
  opt sep
  merge
  opt lazy
  fuel 0
  requires dmOK(s) && knownName(s) && len(data) <= 8796093022208
  requires nextDts(s, bufferIndex, dts)
  modifies s.Tracks, elems(s.Tracks.Tracks), s.streamIndex2BufferIndex, mapof(s.streamIndex2BufferIndex), backN
  modifies s.Completed, s.Packets, elems(s.Packets)
  modifies arP, arN, pkSt, pkPos, pkDts, pkPts, pkTb, pkArr, pkOff, pkLen, pkBuf, lsIdx, llN, llO, lastSt, lastPk
  modifies dmState, dmSaid, dmTt, dmTd, outD, outN, outB, outSeq, outC, relB, sortP, sortQ, idxOf, colI, resA
  modifies gpA, gpN, gp, gq, gr, gs, gst, ghi, gb, gpr, cdOK, psV, psS, psP
  modifies all("avformat.AVPacket"), all("collections.LinkedList[*avformat.AVPacket]"), all("collections.Node[*avformat.AVPacket]")
  modifies all("avformat.AVStream.AudioConfig")
  ensures dmOK(s)
  ensures [accepted] accepted(s, bufferIndex, dts, ite(s.onPreprocessPacket == nil, pts, sel(pkPts, lastPk))) && (s.onPreprocessPacket == nil ==> acceptedData(data)) || returned(s, bufferIndex)
  ensures [complete] old(s.Completed) ==> s.Completed && same(s.Tracks.Tracks, old(s.Tracks.Tracks))
  ensures [known] old(hasBuf(s, bufferIndex)) ==> backN == old(backN)

# a demuxer that was just made, before anything happened
lemma dm_new(s: @*avformat.BaseDemuxer)
  tags C23 C24
  requires s != nil && s.Handler != nil && s.DataPipeline != nil && len(s.Tracks.Tracks) == 0 && len(s.Packets) == 0 && s.streamIndex2BufferIndex == nil && !s.Completed
  requires dmState == 0 && dmSaid == 0 && outC == 0 && forall(i, trig(sel(arN, i), sel(arN, i) == 0)) && forall(i, trig(sel(outN, i), sel(outN, i) == 0)) && forall(i, trig(sel(outD, i), sel(outD, i) == 0)) && relB == outB
  ensures dmOK(s)
