# collections: ring buffer (C05), queue (C06)

def rbCap(r) = cap(r.data)
def rbIx(r, i) = ite(r.head + i < rbCap(r), r.head + i, r.head + i - rbCap(r))
def rbAt(r, i) = ring(r.data, r.head, i)
def rbOK(r) = rbCap(r) > 0 && len(r.data) == rbCap(r) && off(r.data) == 0 && 0 <= r.head && r.head < rbCap(r) && 0 <= r.size && r.size <= rbCap(r)
     && r.tail == rbIx(r, r.size) && same(r.zero, zeroof(r.zero)) && arr(r.data) != 0

func collections.NewRingBuffer(capacity) (r)
  tags C05
  opt ring
  dyn r *collections.ringBuffer[T]
  requires capacity > 0
  ensures fresh(r) && typeis(r, *collections.ringBuffer[T])
  ensures let(q, as(r, *collections.ringBuffer[T]), rbOK(q) && q.size == 0 && rbCap(q) == capacity && q.capacity == capacity)

func collections.ringBuffer.IsEmpty(r) (b)
  tags C05 C06
  opt ring
  opt pure
  ensures b <==> r.size == 0

func collections.ringBuffer.IsFull(r) (b)
  tags C05 C06
  opt ring
  opt pure
  ensures b <==> r.size == rbCap(r)

func collections.ringBuffer.Size(r) (n)
  tags C05 C06
  opt ring
  opt pure
  ensures n == r.size

func collections.ringBuffer.Capacity(r) (n)
  tags C05
  opt ring
  opt pure
  ensures n == r.capacity

func collections.ringBuffer.Clear(r)
  tags C05 C06
  opt ring
  requires rbOK(r)
  modifies r.size, r.head, r.tail
  ensures rbOK(r) && r.size == 0

func collections.ringBuffer.Pop(r) (v)
  tags C05 C06
  opt ring
  requires rbOK(r)
  modifies r.size, r.head, r.tail, elems(r.data)
  ensures rbOK(r)
  ensures [empty] old(r.size) == 0 ==> r.size == 0 && same(v, zeroof(v))
  ensures [front] old(r.size) > 0 ==> same(v, old(rbAt(r, 0))) && r.size == old(r.size) - 1
  ensures [rest] old(r.size) > 0 ==> all(i, 0, r.size, same(rbAt(r, i), old(rbAt(r, i + 1))))

func collections.ringBuffer.Push(r, value)
  tags C05
  opt ring
  requires rbOK(r)
  modifies r.size, r.head, r.tail, elems(r.data)
  ensures rbOK(r)
  ensures [size] r.size == min(old(r.size) + 1, rbCap(r))
  ensures [new] same(rbAt(r, r.size - 1), value)
  ensures [keep] old(r.size) < rbCap(r) ==> all(i, 0, old(r.size), same(rbAt(r, i), old(rbAt(r, i))))
  ensures [drop] old(r.size) == rbCap(r) ==> all(i, 0, rbCap(r) - 1, same(rbAt(r, i), old(rbAt(r, i + 1))))

func collections.ringBuffer.Head(r) (v)
  tags C05 C06
  opt ring
  opt pure
  requires rbOK(r) && r.size > 0
  ensures same(v, rbAt(r, 0))

func collections.ringBuffer.Tail(r) (v)
  tags C05 C06
  opt ring
  opt pure
  requires rbOK(r) && r.size > 0
  ensures same(v, rbAt(r, r.size - 1))

def rbData(r, a, b) = len(a) + len(b) == r.size && all(i, 0, len(a), same(a[i], rbAt(r, i))) && all(i, 0, len(b), same(b[i], rbAt(r, len(a) + i)))

func collections.ringBuffer.Data(r) (a, b)
  tags C05 C06
  opt ring
  opt pure
  requires rbOK(r)
  ensures [total] len(a) + len(b) == r.size
  ensures [first] all(i, 0, len(a), same(a[i], rbAt(r, i)))
  ensures [second] all(i, 0, len(b), same(b[i], rbAt(r, len(a) + i)))
  ensures [shape] r.size > 0 ==> len(a) > 0
  ensures [alias] (arr(a) == arr(r.data) || arr(a) == 0 || fresh(a)) && (arr(b) == arr(r.data) || arr(b) == 0 || fresh(b))

def qOK(q) = q.ringBuffer != nil && isalloc(q.ringBuffer) && rbOK(q.ringBuffer)
def qAt(q, i) = rbAt(q.ringBuffer, i)

func collections.NewQueue(capacity) (q)
  tags C06
  opt ring
  requires capacity > 0
  ensures fresh(q) && fresh(q.ringBuffer) && qOK(q) && q.size == 0 && fresh(q.data)

func collections.Queue.Push(q, value)
  tags C06
  opt ring
  requires qOK(q)
  modifies q.data, q.head, q.tail, q.size, elems(q.data)
  ensures qOK(q)
  ensures [size] q.size == old(q.size) + 1
  ensures [keep] all(i, 0, old(q.size), same(qAt(q, i), old(qAt(q, i))))
  ensures [new] same(qAt(q, old(q.size)), value)
  ensures arr(q.data) == old(arr(q.data)) || fresh(q.data)

func collections.Queue.PopBack(q) (v)
  tags C06
  opt ring
  requires qOK(q) && q.size > 0
  modifies q.head, q.tail, q.size
  ensures qOK(q)
  ensures [last] same(v, old(qAt(q, q.size - 1))) && q.size == old(q.size) - 1
  ensures [keep] all(i, 0, q.size, same(qAt(q, i), old(qAt(q, i))))

func collections.Queue.Peek(q, index) (v)
  tags C06
  opt ring
  opt pure
  requires qOK(q) && 0 <= index && index < q.size
  ensures same(v, qAt(q, index))

# linked list (C07): llN[l][k] is the ghost node at position k of list l
ghostvar llN: aarr
# llO[n] is the list that node n was made for: lists do not share nodes
ghostvar llO: iarr
opaque shiftdown(N: iarr, k: int): iarr
opaque append1(N: iarr, k: int): iarr

lemma shiftdown_def(N: iarr, k: int)
  trusted definition of shiftdown (the array with position k removed): a conservative extension
  ensures all(i, 0, 4611686018427387904, trig(sel(shiftdown(N, k), i), sel(shiftdown(N, k), i) == ite(i < k, sel(N, i), sel(N, i + 1))))

def llNode(l, i) = ptrlike(sel(sel(llN, l), i), l.fist)
def llOK(l) = 0 <= l.size && l.size <= 4611686018427387900 && (l.size == 0 ==> l.fist == nil && l.last == nil)
   && (l.size > 0 ==> l.fist == llNode(l, 0) && l.last == llNode(l, l.size - 1))
   && all(i, 0, l.size, sel(sel(llN, l), i) > 0 && isalloc(llNode(l, i)) && sel(llO, sel(sel(llN, l), i)) == ref(l))
   && all(i, 0, l.size - 1, trig(llNode(l, i).next, llNode(l, i).next == llNode(l, i + 1)))
   && forall(i, j, trig(sel(sel(llN, l), i), sel(sel(llN, l), j), 0 <= i && i < j && j < l.size ==> sel(sel(llN, l), i) != sel(sel(llN, l), j)))
def llAt(l, i) = llNode(l, i).data

func collections.LinkedList.Add(l, data)
  tags C07
  requires llOK(l) && l.size < 4611686018427387900
  modifies l.fist, l.last, l.size, llN, llO
  modifies l.last.next if l.last != nil
  set exit: llN = upd(llN, ref(l), upd(sel(llN, l), l.size - 1, ref(l.last)))
  set exit: llO = upd(llO, ref(l.last), ref(l))
  ensures llOK(l)
  ensures [others] forall(a, trig(sel(llN, a), a != ref(l) ==> sel(llN, a) == sel(old(llN), a)))
  ensures [others] forall(a, trig(sel(llO, a), 0 <= a && a < old(topid()) ==> sel(llO, a) == sel(old(llO), a)))
  ensures [size] l.size == old(l.size) + 1
  ensures [new] same(llAt(l, old(l.size)), data)
  ensures [keep] all(i, 0, old(l.size), same(llAt(l, i), old(llAt(l, i))))

func collections.LinkedList.Get(l, index) (v)
  tags C07
  opt pure
  requires llOK(l) && 0 <= index && index < l.size
  loop 1
    inv 0 <= i && i <= index && offsetNode == llNode(l, i)
    decreases l.size - i
  ensures same(v, llAt(l, index))

func collections.LinkedList.Remove(l, index) (v)
  tags C07
  requires llOK(l) && 0 <= index && index < l.size
  modifies l.fist, l.last, l.size, llN
  modifies llNode(l, index - 1).next if index > 0
  loop 1
    inv 0 <= i && i <= index && offsetNode == llNode(l, i) && prevNode == llNode(l, max(i - 1, 0))
    decreases l.size - i
  use exit: shiftdown_def(old(sel(llN, l)), index)
  set exit: llN = upd(llN, ref(l), shiftdown(sel(llN, l), index))
  ensures llOK(l)
  ensures [others] forall(a, trig(sel(llN, a), a != ref(l) ==> sel(llN, a) == sel(old(llN), a)))
  ensures [size] l.size == old(l.size) - 1
  ensures [value] same(v, old(llAt(l, index)))
  ensures [before] all(i, 0, index, same(llAt(l, i), old(llAt(l, i))))
  ensures [after] all(i, index, l.size, same(llAt(l, i), old(llAt(l, i + 1))))

func collections.LinkedList.Size(l) (n)
  tags C07
  opt pure
  ensures n == l.size
