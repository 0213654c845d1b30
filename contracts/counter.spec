# Reference counter (C27). An atomic step may follow any number of steps by other goroutines, so nothing is
# known about the value it meets (ghost atOld); what is proved is that each operation performs exactly one
# atomic step on the counter, the step it is meant to perform, and answers from that step alone. Any
# interleaving is then a sequence of such steps, which the lemmas below speak about.
ghostvar atN: int
ghostvar atOld: int

func atomic.AddInt32(addr, delta) (r)
  trusted sync/atomic: one indivisible step on *addr; other goroutines may have stepped before it
  opt pure
  modifies *addr, atN, atOld
  requires addr != nil
  ensures ghost(atN) == old(ghost(atN)) + 1
  ensures -2147483648 <= ghost(atOld) && ghost(atOld) <= 2147483647
  ensures r == ite(ghost(atOld) + delta > 2147483647, ghost(atOld) + delta - 4294967296, ite(ghost(atOld) + delta < -2147483648, ghost(atOld) + delta + 4294967296, ghost(atOld) + delta))
  ensures *addr == r

func atomic.LoadInt32(addr) (r)
  trusted sync/atomic: one indivisible read of *addr; other goroutines may have stepped before it
  opt pure
  modifies *addr, atN, atOld
  requires addr != nil
  ensures ghost(atN) == old(ghost(atN)) + 1
  ensures -2147483648 <= r && r <= 2147483647 && *addr == r && ghost(atOld) == r

func collections.NewReferenceCounter(data) (r)
  tags C27
  ensures r != nil && fresh(r) && r.refer == 1 && same(r.data, data)

func collections.ReferenceCounter.Refer(r)
  tags C27
  requires r != nil
  modifies r.refer, atN, atOld
  ensures [one] ghost(atN) == old(ghost(atN)) + 1
  ensures [plus] ghost(atOld) < 2147483647 ==> r.refer == ghost(atOld) + 1

func collections.ReferenceCounter.Release(r) (b)
  tags C27
  requires r != nil
  modifies r.refer, atN, atOld
  ensures [one] ghost(atN) == old(ghost(atN)) + 1
  ensures [minus] ghost(atOld) > -2147483648 ==> r.refer == ghost(atOld) - 1
  ensures [last] b == (ghost(atOld) == 1)

func collections.ReferenceCounter.UseCount(r) (n)
  tags C27
  requires r != nil
  modifies r.refer, atN, atOld
  ensures [one] ghost(atN) == old(ghost(atN)) + 1
  ensures [value] n == ghost(atOld) && r.refer == n

func collections.ReferenceCounter.Get(r) (d)
  tags C27
  requires r != nil
  ensures same(d, r.data)

func collections.ReferenceCounter.ResetData(r, data)
  tags C27
  requires r != nil
  modifies r.data
  ensures same(r.data, data)

# The count after the first n steps of an interleaving (+1 a reference, -1 a release), starting at 1.
rec steps(A: iarr, n: int): int = ite(n <= 0, 1, steps(A, n - 1) + sel(A, n - 1))
rec refs(A: iarr, n: int): int = ite(n <= 0, 0, refs(A, n - 1) + ite(sel(A, n - 1) == 1, 1, 0))
rec rels(A: iarr, n: int): int = ite(n <= 0, 0, rels(A, n - 1) + ite(sel(A, n - 1) == -1, 1, 0))
# releases that found the count at 1 and so reported true
rec lasts(A: iarr, n: int): int = ite(n <= 0, 0, lasts(A, n - 1) + ite(sel(A, n - 1) == -1 && steps(A, n - 1) == 1, 1, 0))

lemma count_exact(A: iarr, n: int)
  tags C27
  induct n
  requires 0 <= n && all(k, 0, n, sel(A, k) == 1 || sel(A, k) == -1)
  use count_exact(A, n - 1)
  ensures steps(A, n) == 1 + refs(A, n) - rels(A, n)

# balanced users act only while the count is positive: exactly one release reports true, the one reaching zero
lemma one_last(A: iarr, n: int)
  tags C27
  induct n
  requires 0 <= n && all(k, 0, n, (sel(A, k) == 1 || sel(A, k) == -1) && steps(A, k) >= 1)
  use one_last(A, n - 1)
  ensures lasts(A, n) == ite(steps(A, n) == 0, 1, 0) && steps(A, n) >= 0
