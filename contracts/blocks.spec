# collections: direct block buffer (C09) and ring block buffer (C08)

def bn(b) = b.blocks.size
def blk(b, i) = qAt(b.blocks, i)
def bEnd(b, i) = blk(b, i).index + blk(b, i).size
def pending(b) = bn(b) > 0 && !blk(b, bn(b) - 1).completed
def pendSize(b) = ite(pending(b), blk(b, bn(b) - 1).size, 0)
def bqOK(b) = b.blocks != nil && isalloc(b.blocks) && qOK(b.blocks)
   && all(i, 0, bn(b), trig(blk(b, i), blk(b, i) != nil && isalloc(blk(b, i)) && 0 <= blk(b, i).index && 0 <= blk(b, i).size))
   && forall(i, j, trig(blk(b, i), blk(b, j), 0 <= i && i < j && j < bn(b) ==> blk(b, i) != blk(b, j)))
   && all(i, 0, bn(b) - 1, trig(blk(b, i), blk(b, i).completed))

def dOK(b) = bqOK(b) && layD(b)
def layD(b) = 0 <= b.nextOffset && b.nextOffset <= cap(b.data) && len(b.data) == cap(b.data)
   && all(i, 0, bn(b), trig(blk(b, i), bEnd(b, i) <= b.nextOffset))
   && forall(i, j, trig(blk(b, i), blk(b, j), 0 <= i && i < j && j < bn(b) ==> bEnd(b, i) <= blk(b, j).index))
   && (pending(b) ==> bEnd(b, bn(b) - 1) == b.nextOffset)
def sameBlk(b, i, j) = blk(b, i) == old(blk(b, j)) && blk(b, i).index == old(blk(b, j).index) && blk(b, i).size == old(blk(b, j).size) && blk(b, i).completed == old(blk(b, j).completed)

func collections.DirectBlockBuffer.grow(b, capacity)
  tags C09
  requires 0 <= b.nextOffset && b.nextOffset <= len(b.data) && b.nextOffset <= capacity && capacity <= 281474976710656
  modifies b.data
  ensures fresh(b.data) && len(b.data) == capacity && cap(b.data) == capacity && off(b.data) == 0
  ensures all(k, 0, b.nextOffset, b.data[k] == old(b.data[k]))

func collections.DirectBlockBuffer.Alloc(b, size) (res)
  tags C09
  requires dOK(b) && !b.sealed && 0 <= size && size <= 70368744177664 && cap(b.data) <= 70368744177664
  refuses b.sealed
  modifies b.data, b.nextOffset, b.blocks.data, b.blocks.head, b.blocks.tail, b.blocks.size, elems(b.blocks.data)
  modifies blk(b, bn(b) - 1).size if pending(b)
  ensures dOK(b)
  ensures [room] len(res) == size && arr(res) == arr(b.data) && off(res) == off(b.data) + old(b.nextOffset) && b.nextOffset == old(b.nextOffset) + size
  ensures [bytes] all(k, 0, old(b.nextOffset), b.data[k] == old(b.data[k]))
  ensures [mem] same(b.data, old(b.data)) || fresh(b.data)
  ensures [blocks] bn(b) == old(bn(b) + ite(pending(b), 0, 1)) && all(i, 0, bn(b) - 1, sameBlk(b, i, i))
  ensures [pending] pending(b) && pendSize(b) == old(pendSize(b)) + size && (old(pending(b)) ==> blk(b, bn(b) - 1) == old(blk(b, bn(b) - 1)) && blk(b, bn(b) - 1).index == old(blk(b, bn(b) - 1).index))

func collections.DirectBlockBuffer.Write(b, data)
  tags C09
  requires dOK(b) && !b.sealed && len(data) <= 70368744177664 && cap(b.data) <= 70368744177664 && arr(data) != arr(b.data)
  refuses b.sealed
  modifies b.data, b.nextOffset, b.blocks.data, b.blocks.head, b.blocks.tail, b.blocks.size, elems(b.blocks.data)
  modifies blk(b, bn(b) - 1).size if pending(b)
  modifies elems(b.data, b.nextOffset, b.nextOffset + len(data))
  ensures dOK(b)
  ensures [moves] b.nextOffset == old(b.nextOffset) + len(data)
  ensures [bytes] all(k, 0, old(b.nextOffset), b.data[k] == old(b.data[k]))
  ensures [new] all(k, 0, len(data), b.data[old(b.nextOffset) + k] == old(data[k]))
  ensures [mem] same(b.data, old(b.data)) || fresh(b.data)
  ensures [blocks] bn(b) == old(bn(b) + ite(pending(b), 0, 1)) && all(i, 0, bn(b) - 1, sameBlk(b, i, i))
  ensures [pending] pending(b) && pendSize(b) == old(pendSize(b)) + len(data) && (old(pending(b)) ==> blk(b, bn(b) - 1) == old(blk(b, bn(b) - 1)) && blk(b, bn(b) - 1).index == old(blk(b, bn(b) - 1).index))

# Fetch, Pop, PopBack, PendingBlockSize and Clear are shared by both buffers: either layout is kept
def lay(b) = layD(b) || layR(b)
def keeps(b) = bqOK(b) && (old(layD(b)) ==> layD(b)) && (old(layR(b)) ==> layR(b))

func collections.DirectBlockBuffer.Fetch(b) (res)
  tags C08 C09
  requires bqOK(b) && lay(b) && !b.sealed && bn(b) > 0
  modifies blk(b, bn(b) - 1).completed if pending(b)
  ensures keeps(b)
  ensures [none] !old(pending(b)) ==> res == nil
  ensures [block] old(pending(b)) ==> same(res, b.data[blk(b, bn(b) - 1).index : bEnd(b, bn(b) - 1)])
  ensures [blocks] bn(b) == old(bn(b)) && !pending(b) && all(i, 0, bn(b) - 1, sameBlk(b, i, i)) && blk(b, bn(b) - 1) == old(blk(b, bn(b) - 1)) && blk(b, bn(b) - 1).index == old(blk(b, bn(b) - 1).index) && blk(b, bn(b) - 1).size == old(blk(b, bn(b) - 1).size)

func collections.DirectBlockBuffer.Pop(b)
  tags C08 C09
  requires bqOK(b) && lay(b) && !b.sealed
  modifies b.nextOffset, b.blocks.head, b.blocks.tail, b.blocks.size, elems(b.blocks.data)
  ensures keeps(b)
  ensures [blocks] bn(b) == max(old(bn(b)) - 1, 0) && all(i, 0, bn(b), sameBlk(b, i, i + 1))
  ensures [offset] b.nextOffset == ite(bn(b) == 0, 0, old(b.nextOffset))

func collections.DirectBlockBuffer.PopBack(b)
  tags C08 C09
  requires bqOK(b) && lay(b) && !b.sealed && bn(b) > 0
  modifies b.nextOffset, b.blocks.head, b.blocks.tail, b.blocks.size
  ensures keeps(b)
  ensures [blocks] bn(b) == old(bn(b)) - 1 && all(i, 0, bn(b), sameBlk(b, i, i))
  ensures [offset] b.nextOffset == ite(bn(b) == 0, 0, old(b.nextOffset))

func collections.DirectBlockBuffer.PendingBlockSize(b) (n)
  tags C08 C09
  opt pure
  requires bqOK(b)
  ensures n == pendSize(b)

func collections.DirectBlockBuffer.Clear(b)
  tags C08 C09
  requires bqOK(b) && lay(b)
  modifies b.sealed, b.nextOffset, b.blocks.head, b.blocks.tail, b.blocks.size
  ensures keeps(b) && bn(b) == 0 && b.nextOffset == 0 && !b.sealed

func collections.DirectBlockBuffer.Data(b) (res)
  tags C09
  opt pure
  requires dOK(b)
  ensures same(res, b.data[0 : b.nextOffset])

func collections.DirectBlockBuffer.AvailableBytes(b) (n)
  tags C09
  opt pure
  requires dOK(b)
  ensures n == cap(b.data) - b.nextOffset

func collections.DirectBlockBuffer.Size(b) (n)
  tags C09
  opt pure
  requires bqOK(b)
  ensures n == bn(b)

func collections.DirectBlockBuffer.SplitOff(b) (r)
  tags C09
  dyn r *collections.DirectBlockBuffer
  requires dOK(b)
  modifies b.sealed
  ensures b.sealed && typeis(r, *collections.DirectBlockBuffer) && fresh(r)
  ensures let(q, as(r, *collections.DirectBlockBuffer), dOK(q) && bn(q) == 0 && q.nextOffset == 0 && !q.sealed && fresh(q.blocks) && same(q.data, b.data[b.nextOffset:]))

func collections.NewDirectBlockBuffer(capacity) (r)
  tags C09
  dyn r *collections.DirectBlockBuffer
  requires 0 <= capacity && capacity <= 70368744177664
  ensures fresh(r) && typeis(r, *collections.DirectBlockBuffer)
  ensures let(q, as(r, *collections.DirectBlockBuffer), dOK(q) && bn(q) == 0 && q.nextOffset == 0 && !q.sealed && len(q.data) == capacity)

# ring block buffer: a block is wrapped when it lies below block 0
def wrapped(r, i) = blk(r, i).index < blk(r, 0).index
def rOK(r) = bqOK(r) && layR(r) && 0 <= r.capacity && r.capacity <= cap(r.data) && 0 <= r.discardBlockCount && r.discardBlockCount <= 70368744177664
def layR(r) = arr(r.data) != 0 && len(r.data) == cap(r.data)
   && all(i, 0, bn(r), trig(blk(r, i), bEnd(r, i) <= cap(r.data)))
   && forall(i, j, trig(blk(r, i), blk(r, j), 0 <= i && i < j && j < bn(r) ==> (wrapped(r, i) ==> wrapped(r, j))
        && ((wrapped(r, i) <==> wrapped(r, j)) ==> bEnd(r, i) <= blk(r, j).index)))
   && all(i, 0, bn(r), trig(blk(r, i), wrapped(r, i) ==> bEnd(r, i) < blk(r, 0).index))
# completed blocks: all of them, or all but the pending one
def nDone(r) = bn(r) - ite(pending(r), 1, 0)

func collections.RBBlockBuffer.grow(r, capacity)
  tags C08
  requires 0 <= capacity && capacity <= 281474976710656
  modifies r.data, r.capacity
  ensures fresh(r.data) && len(r.data) == capacity && cap(r.data) == capacity && off(r.data) == 0 && r.capacity == capacity

func collections.RBBlockBuffer.Alloc(r, size) (res)
  tags C08
  requires rOK(r) && 0 <= size && size <= 35184372088832 && cap(r.data) <= 35184372088832 && r.discardBlockCount + bn(r) <= 35184372088832
  modifies r.data, r.capacity, r.discardBlockCount, r.blocks.data, r.blocks.head, r.blocks.tail, r.blocks.size, elems(r.blocks.data)
  modifies blk(r, bn(r) - 1).size, blk(r, bn(r) - 1).index if pending(r)
  modifies elems(r.data, 0, pendSize(r))
  loop 1
    inv 0 <= i && i <= max(lold(bn(r)) - 1, 0) && qOK(r.blocks) && bn(r) == lold(bn(r)) - i && blk(r, bn(r) - 1) == lold(blk(r, bn(r) - 1))
    decreases count - i
  ensures rOK(r)
  ensures [room] len(res) == size && pending(r) && arr(res) == arr(r.data) && off(res) + size == off(r.data) + bEnd(r, bn(r) - 1)
  ensures [disjoint] all(i, 0, old(nDone(r)), trig(old(blk(r, i)), arr(res) != old(arr(r.data)) || old(off(r.data) + bEnd(r, i)) <= off(res) || off(res) + size <= old(off(r.data) + blk(r, i).index)))
  ensures [pending] pendSize(r) == old(pendSize(r)) + size
  ensures [bytes] all(k, 0, old(pendSize(r)), r.data[blk(r, bn(r) - 1).index + k] == old(r.data[blk(r, bn(r) - 1).index + k]))
  ensures [mem] same(r.data, old(r.data)) || fresh(r.data)
  ensures [live] forall(i, p, trig(old(blk(r, i)), sel(now(bytes(old(r.data))), p), 0 <= i && i < old(nDone(r)) && old(off(r.data) + blk(r, i).index) <= p && p < old(off(r.data) + bEnd(r, i)) ==> sel(now(bytes(old(r.data))), p) == sel(old(bytes(r.data)), p)))
  ensures [count] r.discardBlockCount + bn(r) == old(r.discardBlockCount + bn(r) + ite(pending(r), 0, 1)) && r.discardBlockCount >= old(r.discardBlockCount)
  ensures [blocks] all(i, 0, bn(r) - 1, sameBlk(r, i, i + (r.discardBlockCount - old(r.discardBlockCount))))
  ensures [left] r.discardBlockCount > old(r.discardBlockCount) ==> fresh(r.data) && bn(r) == 1
  ensures [same] r.discardBlockCount == old(r.discardBlockCount) && old(nDone(r)) > 0 ==> same(r.data, old(r.data))
  ensures [own] (arr(r.blocks.data) == old(arr(r.blocks.data)) || fresh(r.blocks.data)) && r.blocks == old(r.blocks)
  ensures [own] ite(old(pending(r)), blk(r, bn(r) - 1) == old(blk(r, bn(r) - 1)), fresh(blk(r, bn(r) - 1)))

func collections.RBBlockBuffer.Write(r, data)
  tags C08
  requires rOK(r) && len(data) <= 35184372088832 && cap(r.data) <= 35184372088832 && r.discardBlockCount + bn(r) <= 35184372088832 && arr(data) != arr(r.data)
  modifies r.data, r.capacity, r.discardBlockCount, r.blocks.data, r.blocks.head, r.blocks.tail, r.blocks.size, elems(r.blocks.data)
  modifies blk(r, bn(r) - 1).size, blk(r, bn(r) - 1).index if pending(r)
  modifies elems(r.data)
  ensures rOK(r) && pending(r)
  ensures [pending] pendSize(r) == old(pendSize(r)) + len(data)
  ensures [bytes] all(k, 0, old(pendSize(r)), r.data[blk(r, bn(r) - 1).index + k] == old(r.data[blk(r, bn(r) - 1).index + k]))
  ensures [new] all(k, 0, len(data), r.data[bEnd(r, bn(r) - 1) - len(data) + k] == old(data[k]))
  ensures [mem] same(r.data, old(r.data)) || fresh(r.data)
  ensures [live] forall(i, p, trig(old(blk(r, i)), sel(now(bytes(old(r.data))), p), 0 <= i && i < old(nDone(r)) && old(off(r.data) + blk(r, i).index) <= p && p < old(off(r.data) + bEnd(r, i)) ==> sel(now(bytes(old(r.data))), p) == sel(old(bytes(r.data)), p)))
  ensures [count] r.discardBlockCount + bn(r) == old(r.discardBlockCount + bn(r) + ite(pending(r), 0, 1)) && r.discardBlockCount >= old(r.discardBlockCount)
  ensures [blocks] all(i, 0, bn(r) - 1, sameBlk(r, i, i + (r.discardBlockCount - old(r.discardBlockCount))))
  ensures [left] r.discardBlockCount > old(r.discardBlockCount) ==> fresh(r.data) && bn(r) == 1
  ensures [same] r.discardBlockCount == old(r.discardBlockCount) && old(nDone(r)) > 0 ==> same(r.data, old(r.data))
  ensures [own] (arr(r.blocks.data) == old(arr(r.blocks.data)) || fresh(r.blocks.data)) && r.blocks == old(r.blocks)
  ensures [own] ite(old(pending(r)), blk(r, bn(r) - 1) == old(blk(r, bn(r) - 1)), fresh(blk(r, bn(r) - 1)))

func collections.RBBlockBuffer.Pop(r)
  tags C08
  requires rOK(r) && !r.sealed
  modifies r.discardBlockCount, r.capacity, r.nextOffset, r.blocks.head, r.blocks.tail, r.blocks.size, elems(r.blocks.data)
  ensures rOK(r)
  ensures [left] old(r.discardBlockCount) > 0 ==> r.discardBlockCount == old(r.discardBlockCount) - 1 && bn(r) == old(bn(r)) && all(i, 0, bn(r), sameBlk(r, i, i))
  ensures [front] old(r.discardBlockCount) == 0 ==> r.discardBlockCount == 0 && bn(r) == max(old(bn(r)) - 1, 0) && all(i, 0, bn(r), sameBlk(r, i, i + 1))

func collections.RBBlockBuffer.Clear(r)
  tags C08
  requires rOK(r)
  modifies r.sealed, r.discardBlockCount, r.capacity, r.nextOffset, r.blocks.head, r.blocks.tail, r.blocks.size
  ensures rOK(r) && bn(r) == 0 && r.discardBlockCount == 0 && !r.sealed

func collections.NewRBBlockBuffer(capacity) (r)
  tags C08
  requires 0 <= capacity && capacity <= 35184372088832
  ensures fresh(r) && fresh(r.data) && fresh(r.blocks) && fresh(r.blocks.data) && rOK(r) && bn(r) == 0 && r.discardBlockCount == 0 && !r.sealed && len(r.data) == capacity
