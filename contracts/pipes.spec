# Stream pipelines (C10)
# pipeOwner: which stream buffer each array and object belongs to. An id is given away once, when it is new, so
# the memory of one stream, also the memory it has left behind with live packets in it, is never another's.
ghostvar pipeOwner: iarr
# pipeIdx: the index of a stream buffer (so no two indices share one)
ghostvar pipeIdx: iarr

def sb(s, i) = s.buffers[i]
def owns(b, id) = sel(ghost(pipeOwner), id) == ref(b)
def sOne(b) = b != nil && isalloc(b) && rOK(b) && !b.sealed && isalloc(b.data) && isalloc(b.blocks.data)
   && owns(b, arr(b.data)) && owns(b, ref(b.blocks)) && owns(b, arr(b.blocks.data)) && all(k, 0, bn(b), trig(blk(b, k), owns(b, ref(blk(b, k)))))
def roomy(b) = cap(b.data) <= 35184372088832 && b.discardBlockCount + bn(b) <= 35184372088832
def sbOK(s) = s != nil && all(i, 0, len(s.buffers), trig(sb(s, i), sOne(sb(s, i))))
   && all(i, 0, len(s.buffers), trig(sb(s, i), sel(ghost(pipeIdx), ref(sb(s, i))) == i))
def known(s) = forall(a, trig(sel(ghost(pipeOwner), a), 0 <= a && a < old(topid()) ==> sel(ghost(pipeOwner), a) == sel(old(ghost(pipeOwner)), a)))

func avformat.StreamsBuffer.findOrCreateStreamBuffer(s, index, mediaType) (b)
  tags C10
  requires sbOK(s) && 0 <= index && index <= 1048576
  modifies s.buffers, elems(s.buffers), pipeOwner, pipeIdx
  set after collections.NewRBBlockBuffer: pipeIdx = upd(ghost(pipeIdx), ref($r), len(s.buffers))
  set after collections.NewRBBlockBuffer: pipeOwner = upd(upd(upd(ghost(pipeOwner), arr($r.data), ref($r)), ref($r.blocks), ref($r)), arr($r.blocks.data), ref($r))
  loop 1
    inv len(s.buffers) == old(len(s.buffers)) || len(s.buffers) <= index + 1
    inv len(s.buffers) >= old(len(s.buffers)) && (arr(s.buffers) == old(arr(s.buffers)) || fresh(s.buffers))
    inv sbOK(s)
    inv known(s)
    inv all(k, 0, old(len(s.buffers)), sb(s, k) == old(sb(s, k)))
    inv all(k, old(len(s.buffers)), len(s.buffers), trig(sb(s, k), bn(sb(s, k)) == 0 && fresh(sb(s, k)) && fresh(sb(s, k).data) && fresh(sb(s, k).blocks) && fresh(sb(s, k).blocks.data) && sb(s, k).discardBlockCount == 0 && cap(sb(s, k).data) <= 35184372088832))
    decreases index + 1 - len(s.buffers)
  ensures sbOK(s)
  ensures known(s)
  ensures [kept] len(s.buffers) == max(old(len(s.buffers)), index + 1) && all(k, 0, old(len(s.buffers)), sb(s, k) == old(sb(s, k)))
  ensures [new] all(k, old(len(s.buffers)), len(s.buffers), trig(sb(s, k), bn(sb(s, k)) == 0 && fresh(sb(s, k)) && fresh(sb(s, k).data) && fresh(sb(s, k).blocks) && fresh(sb(s, k).blocks.data) && sb(s, k).discardBlockCount == 0 && cap(sb(s, k).data) <= 35184372088832))
  ensures b == sb(s, index)

# no object of another stream is one of this stream's
def apart(s, index) = all(j, 0, len(s.buffers), trig(sb(s, j), j != index ==> sb(s, j) != sb(s, index) && sb(s, j).blocks != sb(s, index).blocks && arr(sb(s, j).blocks.data) != arr(sb(s, index).blocks.data)))
# the state of a stream that another stream's operation leaves alone
def sameSt(b) = same(b.data, old(b.data)) && bn(b) == old(bn(b)) && b.discardBlockCount == old(b.discardBlockCount) && all(k, 0, bn(b), trig(blk(b, k), sameBlk(b, k, k)))
def others(s, index) = all(j, 0, old(len(s.buffers)), trig(sb(s, j), j != index ==> sameSt(sb(s, j))))
def has(s, index) = index < len(s.buffers)

func avformat.StreamsBuffer.Write(s, data, index, mediaType) (n, err)
  tags C10
  requires sbOK(s) && 0 <= index && index <= 1048576 && len(data) <= 35184372088832
  requires index < len(s.buffers) ==> roomy(sb(s, index)) && arr(data) != arr(sb(s, index).data)
  modifies s.buffers, elems(s.buffers), pipeOwner, pipeIdx
  modifies sb(s, index).data, sb(s, index).capacity, sb(s, index).discardBlockCount, sb(s, index).blocks.data, sb(s, index).blocks.head, sb(s, index).blocks.tail, sb(s, index).blocks.size, elems(sb(s, index).blocks.data), elems(sb(s, index).data) if has(s, index)
  modifies blk(sb(s, index), bn(sb(s, index)) - 1).size, blk(sb(s, index), bn(sb(s, index)) - 1).index if has(s, index) && pending(sb(s, index))
  set after collections.RBBlockBuffer.Write: pipeOwner = upd(upd(upd(ghost(pipeOwner), arr($r.data), ref($r)), ref(blk($r, bn($r) - 1)), ref($r)), arr($r.blocks.data), ref($r))
  ensures err == nil && n == len(data)
  ensures sbOK(s)
  ensures known(s)
  ensures [kept] len(s.buffers) == max(old(len(s.buffers)), index + 1) && all(k, 0, old(len(s.buffers)), sb(s, k) == old(sb(s, k)))
  ensures [others] others(s, index)
  ensures [others] forall(a, trig(sel(mem8(), a), 0 <= a && a < old(topid()) && sel(old(ghost(pipeOwner)), a) != ref(sb(s, index)) ==> sel(mem8(), a) == sel(old(mem8()), a)))
  ensures [pending] pending(sb(s, index)) && pendSize(sb(s, index)) == old(ite(has(s, index), pendSize(sb(s, index)), 0)) + len(data)
  ensures [bytes] old(has(s, index)) ==> let(b, sb(s, index), all(k, 0, old(pendSize(b)), b.data[blk(b, bn(b) - 1).index + k] == old(b.data[blk(b, bn(b) - 1).index + k])))
  ensures [new] let(b, sb(s, index), all(k, 0, len(data), b.data[bEnd(b, bn(b) - 1) - len(data) + k] == old(data[k])))
  ensures [live] old(has(s, index)) ==> let(r, sb(s, index), forall(i, p, trig(old(blk(r, i)), sel(now(bytes(old(r.data))), p), 0 <= i && i < old(nDone(r)) && old(off(r.data) + blk(r, i).index) <= p && p < old(off(r.data) + bEnd(r, i)) ==> sel(now(bytes(old(r.data))), p) == sel(old(bytes(r.data)), p))))
  ensures [count] old(has(s, index)) ==> let(r, sb(s, index), r.discardBlockCount + bn(r) == old(r.discardBlockCount + bn(r) + ite(pending(r), 0, 1)) && r.discardBlockCount >= old(r.discardBlockCount))
  ensures [blocks] old(has(s, index)) ==> let(r, sb(s, index), all(i, 0, bn(r) - 1, sameBlk(r, i, i + (r.discardBlockCount - old(r.discardBlockCount)))))

func avformat.StreamsBuffer.Fetch(s, index) (res, err)
  tags C10
  requires sbOK(s) && 0 <= index && index <= 1048576 && index < len(s.buffers) && bn(sb(s, index)) > 0
  assert entry: apart(s, index)
  modifies blk(sb(s, index), bn(sb(s, index)) - 1).completed if pending(sb(s, index))
  modifies s.buffers, elems(s.buffers), pipeOwner, pipeIdx
  ensures err == nil && sbOK(s) && known(s)
  ensures [kept] len(s.buffers) == old(len(s.buffers)) && all(k, 0, len(s.buffers), sb(s, k) == old(sb(s, k)))
  ensures [others] others(s, index)
  ensures [none] !old(pending(sb(s, index))) ==> res == nil
  ensures [block] old(pending(sb(s, index))) ==> let(b, sb(s, index), same(res, b.data[blk(b, bn(b) - 1).index : bEnd(b, bn(b) - 1)]))
  ensures [blocks] let(b, sb(s, index), bn(b) == old(bn(b)) && !pending(b) && all(i, 0, bn(b) - 1, sameBlk(b, i, i)) && blk(b, bn(b) - 1) == old(blk(b, bn(b) - 1)) && blk(b, bn(b) - 1).index == old(blk(b, bn(b) - 1).index) && blk(b, bn(b) - 1).size == old(blk(b, bn(b) - 1).size))

func avformat.StreamsBuffer.PendingBlockSize(s, index) (n)
  tags C10
  requires sbOK(s) && 0 <= index && index <= 1048576
  modifies s.buffers, elems(s.buffers), pipeOwner, pipeIdx
  ensures sbOK(s) && known(s)
  ensures [kept] len(s.buffers) == max(old(len(s.buffers)), index + 1) && all(k, 0, old(len(s.buffers)), sb(s, k) == old(sb(s, k)))
  ensures [size] n == ite(old(has(s, index)), pendSize(sb(s, index)), 0)

func avformat.StreamsBuffer.DiscardHeadPacket(s, index)
  tags C10
  requires sbOK(s) && 0 <= index && index <= 1048576 && index < len(s.buffers)
  assert entry: apart(s, index)
  modifies sb(s, index).discardBlockCount, sb(s, index).capacity, sb(s, index).nextOffset, sb(s, index).blocks.head, sb(s, index).blocks.tail, sb(s, index).blocks.size, elems(sb(s, index).blocks.data)
  ensures sbOK(s)
  ensures [others] others(s, index)
  ensures [left] let(r, sb(s, index), old(r.discardBlockCount) > 0 ==> r.discardBlockCount == old(r.discardBlockCount) - 1 && bn(r) == old(bn(r)) && all(i, 0, bn(r), sameBlk(r, i, i)))
  ensures [front] let(r, sb(s, index), old(r.discardBlockCount) == 0 ==> r.discardBlockCount == 0 && bn(r) == max(old(bn(r)) - 1, 0) && all(i, 0, bn(r), sameBlk(r, i, i + 1)))

func avformat.StreamsBuffer.Discard(s, index)
  tags C10
  requires sbOK(s) && 0 <= index && index <= 1048576 && index < len(s.buffers)
  assert entry: apart(s, index)
  modifies sb(s, index).discardBlockCount, sb(s, index).capacity, sb(s, index).nextOffset, sb(s, index).blocks.head, sb(s, index).blocks.tail, sb(s, index).blocks.size, elems(sb(s, index).blocks.data)
  ensures sbOK(s)
  ensures [others] others(s, index)
  ensures [left] let(r, sb(s, index), old(r.discardBlockCount) > 0 ==> r.discardBlockCount == old(r.discardBlockCount) - 1 && bn(r) == old(bn(r)) && all(i, 0, bn(r), sameBlk(r, i, i)))
  ensures [front] let(r, sb(s, index), old(r.discardBlockCount) == 0 ==> r.discardBlockCount == 0 && bn(r) == max(old(bn(r)) - 1, 0) && all(i, 0, bn(r), sameBlk(r, i, i + 1)))

func avformat.StreamsBuffer.DiscardBackPacket(s, index)
  tags C10
  requires sbOK(s) && 0 <= index && index <= 1048576 && index < len(s.buffers) && bn(sb(s, index)) > 0
  assert entry: apart(s, index)
  modifies sb(s, index).nextOffset, sb(s, index).blocks.head, sb(s, index).blocks.tail, sb(s, index).blocks.size
  ensures sbOK(s)
  ensures [others] others(s, index)
  ensures [back] let(b, sb(s, index), bn(b) == old(bn(b)) - 1 && b.discardBlockCount == old(b.discardBlockCount) && all(i, 0, bn(b), sameBlk(b, i, i)))

# --- one stream in memory ---
def dpOK(d) = d != nil && 0 <= d.size && d.size <= len(d.data) && len(d.data) == cap(d.data) && len(d.data) <= 35184372088832
func avformat.DirectDataPipeline.Write(d, data, index, mediaType) (n, err)
  tags C10
  requires dpOK(d) && len(data) <= 8796093022208 && d.size <= 8796093022208
  modifies d.data, d.size, elems(d.data)
  ensures dpOK(d)
  ensures [size] err == nil && n == d.size && d.size == old(d.size) + len(data)
  ensures [kept] all(k, 0, old(d.size), d.data[k] == old(d.data[k]))
  ensures [new] all(k, 0, len(data), d.data[old(d.size) + k] == old(data[k]))

func avformat.DirectDataPipeline.Fetch(d, index) (res, err)
  tags C10
  requires dpOK(d)
  modifies d.size
  ensures dpOK(d) && err == nil && d.size == 0 && same(res, d.data[0 : old(d.size)])

func avformat.DirectDataPipeline.PendingBlockSize(d, index) (n)
  tags C10
  requires d != nil
  ensures n == d.size

func avformat.DirectDataPipeline.Seek(d, offset, index) (err)
  tags C10
  requires dpOK(d) && -35184372088832 <= offset && d.size + offset <= len(d.data)
  modifies d.size
  ensures dpOK(d) && err == nil && d.size == max(old(d.size) + offset, 0)

func avformat.DirectDataPipeline.DiscardBackPacket(d, index)
  tags C10
  ensures true

func avformat.DirectDataPipeline.DiscardHeadPacket(d, index)
  tags C10
  ensures true
