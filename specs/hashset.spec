// Hash set (C15)
//
// Ghost state: bset(b) is the set the bin b belongs to (nil when it is spare),
// brk(b) orders the bins of one table slot, the newest first.

func nextPrime(n)
  prop C15
  option safety
  requires n <= 1610612741
  loop 0: invariant 0 <= i && i < 29 && forall(k, 0, i, primes[k] < n)
  ensures large: result >= n && result >= 5

func HashSet.Count(set)
  prop C15
  ensures count: result == set.entries

ghost map inset(b *HashSetBin, set *HashSet) bool
ghost map brk(b *HashSetBin) int
ghost map htop(set *HashSet) int
ghost map spare(b *HashSetBin, set *HashSet) bool
ghost map srank(b *HashSetBin) int

spec slot(b *HashSetBin, set *HashSet) int = rem(b.hash, set.size)
// the bins of a set hang in the slot of their hash, linked newest first
spec hashshape(set *HashSet) bool = set.size > 0 && len(set.table) == set.size && set.isEqual != nil
  && forall(i, 0, set.size, set.table[i] != nil ==> inset(set.table[i], set) && slot(set.table[i], set) == i)
  && forallT(b, *HashSetBin, inset(b, set) ==> b != nil && b.elt != nil && brk(b) < htop(set) && b.hash >= 0 && slot(b, set) >= 0 && slot(b, set) < set.size)
  && forallT(b, *HashSetBin, inset(b, set) && b.next != nil ==> inset(b.next, set) && slot(b.next, set) == slot(b, set))
  && forallT(b, *HashSetBin, inset(b, set) && b.next != nil ==> brk(b.next) < brk(b))
  && forallT(b, *HashSetBin, inset(b, set) ==> set.table[slot(b, set)] != nil && inset(set.table[slot(b, set)], set) && slot(set.table[slot(b, set)], set) == slot(b, set) && brk(b) <= brk(set.table[slot(b, set)]))
  && forallT(b, *HashSetBin, forallT(c, *HashSetBin, inset(b, set) && inset(c, set) && slot(b, set) == slot(c, set) ==> (brk(b) == brk(c) ==> b == c) && (brk(c) < brk(b) ==> b.next != nil && brk(c) <= brk(b.next))))

functype HashSet.isEqual(f, ptr, elt)
  option pure

func HashSet.Find(set, hash, ptr)
  prop C15
  requires hashshape(set)
  loop 0: invariant bin != nil ==> inset(bin, set) && slot(bin, set) == rem(hash, set.size)
  loop 0: invariant forallT(c, *HashSetBin, inset(c, set) && slot(c, set) == rem(hash, set.size) && (bin == nil || brk(c) > brk(bin)) ==> !callfn("HashSet.isEqual", set.isEqual, ptr, c.elt))
  ensures found: result != nil ==> existsT(b, *HashSetBin, inset(b, set) && slot(b, set) == rem(hash, set.size) && b.elt == result && callfn("HashSet.isEqual", set.isEqual, ptr, b.elt))
  ensures missing: result == nil ==> forallT(b, *HashSetBin, inset(b, set) && slot(b, set) == rem(hash, set.size) && b.elt != nil ==> !callfn("HashSet.isEqual", set.isEqual, ptr, b.elt))

// the spare bins of a set are linked, and used by none of its slots
spec poolshape(set *HashSet) bool = (set.pooledBins != nil ==> spare(set.pooledBins, set))
  && forallT(b, *HashSetBin, spare(b, set) ==> b != nil && !inset(b, set) && set.pooledBins != nil && srank(b) <= srank(set.pooledBins) && (b.next != nil ==> spare(b.next, set) && srank(b.next) < srank(b)))
  && forallT(b, *HashSetBin, forallT(c, *HashSetBin, spare(b, set) && spare(c, set) ==> (srank(b) == srank(c) ==> b == c) && (srank(c) < srank(b) ==> b.next != nil && srank(c) <= srank(b.next))))

func HashSet.recycle(set, bin)
  prop C15
  option noalloc
  requires bin != nil && poolshape(set) && !spare(bin, set)
  modifies bin.next, bin.elt, set.pooledBins, spare(bin, set), inset(bin, set), srank(bin)
  set spare(bin, set) := true
  set inset(bin, set) := false
  set srank(bin) := ite(old(set.pooledBins) == nil, 0, srank(old(set.pooledBins)) + 1)
  ensures pooled: set.pooledBins == bin && poolshape(set) && !inset(bin, set)

func HashSet.getUnusedBin(set)
  prop C15
  requires poolshape(set)
  modifies set.pooledBins, all(HashSetBin.next), all(HashSetBin.elt), ghostall(spare), ghostall(inset), ghostall(srank), ghostall(brk), htop(set)
  loop 0: invariant poolshape(set) && old(set.pooledBins) == nil
  loop 0: invariant forallT(b, *HashSetBin, old(allocated(b)) ==> b.next == old(b.next) && b.elt == old(b.elt) && spare(b, set) == old(spare(b, set)))
  loop 0: invariant forallT(b, *HashSetBin, forallT(s, *HashSet, old(allocated(s)) ==> inset(b, s) == old(inset(b, s))))
  set inset(result, set) := true
  set spare(result, set) := false
  set brk(result) := htop(set)
  set htop(set) := old(htop(set)) + 1
  ensures unused: result != nil && !old(inset(result, set)) && inset(result, set)
  ensures others: forallT(b, *HashSetBin, forallT(s, *HashSet, old(allocated(s)) && (b != result || s != set) ==> inset(b, s) == old(inset(b, s))))
  ensures kept: forallT(b, *HashSetBin, old(inset(b, set)) ==> b.next == old(b.next) && b.elt == old(b.elt) && b.hash == old(b.hash) && brk(b) == old(brk(b)))
  ensures newest: brk(result) == old(htop(set)) && htop(set) == brk(result) + 1
  ensures pool: poolshape(set)

functype HashSet.Insert.transform(f, obj)
  option allocates
  ensures result != nil

spec nslot(b *HashSetBin, n int) int = rem(b.hash, n)
// while the table grows, the bins already moved are those ranked h0 or more; they hang in the new table as in a hash set
spec movedshape(set *HashSet, t []*HashSetBin, n int, h0 int) bool = len(t) == n
  && forall(i, 0, n, t[i] != nil ==> inset(t[i], set) && brk(t[i]) >= h0 && nslot(t[i], n) == i)
  && forallT(b, *HashSetBin, inset(b, set) ==> brk(b) < htop(set) && b.hash >= 0 && nslot(b, n) >= 0 && nslot(b, n) < n)
  && forallT(b, *HashSetBin, inset(b, set) && brk(b) >= h0 && b.next != nil ==> inset(b.next, set) && brk(b.next) >= h0 && nslot(b.next, n) == nslot(b, n))
  && forallT(b, *HashSetBin, inset(b, set) && brk(b) >= h0 && b.next != nil ==> brk(b.next) < brk(b))
  && forallT(b, *HashSetBin, inset(b, set) && brk(b) >= h0 ==> t[nslot(b, n)] != nil && inset(t[nslot(b, n)], set) && nslot(t[nslot(b, n)], n) == nslot(b, n) && brk(b) <= brk(t[nslot(b, n)]))
  && forallT(b, *HashSetBin, forallT(c, *HashSetBin, inset(b, set) && inset(c, set) && brk(b) >= h0 && brk(c) >= h0 && nslot(b, n) == nslot(c, n) ==> (brk(b) == brk(c) ==> b == c) && (brk(c) < brk(b) ==> b.next != nil && brk(c) <= brk(b.next))))

func HashSet.resize(set)
  prop C15
  requires hashshape(set) && poolshape(set) && set.size < 1610612741
  modifies set.table, set.size, all(HashSetBin.next), ghostall(brk), htop(set)
  loop 0: invariant movedshape(set, newTable, newSize, old(htop(set))) && htop(set) >= old(htop(set)) && i <= set.size
  loop 0: invariant forallT(b, *HashSetBin, inset(b, set) ==> (brk(b) >= old(htop(set))) == (slot(b, set) < i))
  loop 0: invariant forallT(b, *HashSetBin, !inset(b, set) || brk(b) < old(htop(set)) ==> b.next == old(b.next) && brk(b) == old(brk(b)))
  loop 1: invariant movedshape(set, newTable, newSize, old(htop(set))) && htop(set) >= old(htop(set)) && i < set.size
  loop 1: invariant bin != nil ==> inset(bin, set) && slot(bin, set) == i && brk(bin) < old(htop(set))
  loop 1: invariant forallT(b, *HashSetBin, inset(b, set) ==> (brk(b) >= old(htop(set))) == (slot(b, set) < i || slot(b, set) == i && (bin == nil || old(brk(b)) > brk(bin))))
  loop 1: invariant forallT(b, *HashSetBin, !inset(b, set) || brk(b) < old(htop(set)) ==> b.next == old(b.next) && brk(b) == old(brk(b)))
  loop 0: invariant forallT(t, *HashSet, t != set ==> htop(t) == old(htop(t)))
  loop 1: invariant forallT(t, *HashSet, t != set ==> htop(t) == old(htop(t)))
  loop 1: ghost brk(newTable[idx]) := htop(set)
  loop 1: ghost htop(set) := htop(set) + 1
  ensures shape: hashshape(set) && poolshape(set) && set.size > old(set.size)

func HashSet.Insert(set, hash, ptr, transform)
  prop C15
  requires hashshape(set) && poolshape(set) && set.size < 1610612741 && set.entries < 4611686018427387904
  modifies set.pooledBins, set.table, set.size, set.entries, elems(set.table), all(HashSetBin.next), all(HashSetBin.elt), all(HashSetBin.hash), ghostall(inset), ghostall(spare), ghostall(srank), ghostall(brk), htop(set)
  loop 0: invariant bin != nil ==> inset(bin, set) && slot(bin, set) == rem(hash, set.size)
  loop 0: invariant forallT(c, *HashSetBin, inset(c, set) && slot(c, set) == rem(hash, set.size) && (bin == nil || brk(c) > brk(bin)) ==> !callfn("HashSet.isEqual", set.isEqual, ptr, c.elt))
  ensures present: old(existsT(b, *HashSetBin, inset(b, set) && slot(b, set) == rem(hash, set.size) && callfn("HashSet.isEqual", set.isEqual, ptr, b.elt))) ==> set.entries == old(set.entries) && existsT(b, *HashSetBin, old(inset(b, set) && slot(b, set) == rem(hash, set.size) && callfn("HashSet.isEqual", set.isEqual, ptr, b.elt)) && old(b.elt) == result) && forallT(b, *HashSetBin, inset(b, set) == old(inset(b, set)))
  ensures added: !old(existsT(b, *HashSetBin, inset(b, set) && slot(b, set) == rem(hash, set.size) && callfn("HashSet.isEqual", set.isEqual, ptr, b.elt))) ==> set.entries == old(set.entries) + 1 && existsT(b, *HashSetBin, inset(b, set) && !old(inset(b, set)) && b.elt == result && b.hash == hash && forallT(c, *HashSetBin, c != b ==> inset(c, set) == old(inset(c, set))))
  ensures kept: forallT(b, *HashSetBin, old(inset(b, set)) ==> b.elt == old(b.elt) && b.hash == old(b.hash))
  ensures shape: hashshape(set) && poolshape(set)

func HashSet.Remove(set, hash, ptr)
  prop C15
  requires hashshape(set) && poolshape(set) && set.entries > 0
  modifies set.pooledBins, set.entries, elems(set.table), all(HashSetBin.next), all(HashSetBin.elt), ghostall(inset), ghostall(spare), ghostall(srank)
  loop 0: invariant bin != nil ==> inset(bin, set) && slot(bin, set) == rem(hash, set.size)
  loop 0: invariant forallT(c, *HashSetBin, inset(c, set) && slot(c, set) == rem(hash, set.size) && (bin == nil || brk(c) > brk(bin)) ==> !callfn("HashSet.isEqual", set.isEqual, ptr, c.elt))
  loop 0: invariant same(prevPtr, addr(set.table[idx])) && bin == set.table[idx] || existsT(p, *HashSetBin, inset(p, set) && same(prevPtr, addr(p.next)) && p.next == bin && slot(p, set) == rem(hash, set.size))
  ensures absent: result == nil ==> set.entries == old(set.entries) && forallT(b, *HashSetBin, inset(b, set) == old(inset(b, set))) && forallT(b, *HashSetBin, inset(b, set) && slot(b, set) == rem(hash, set.size) ==> !callfn("HashSet.isEqual", set.isEqual, ptr, b.elt))
  ensures removed: result != nil ==> set.entries == old(set.entries) - 1 && existsT(b, *HashSetBin, old(inset(b, set)) && !inset(b, set) && slot(b, set) == rem(hash, set.size) && old(b.elt) == result && callfn("HashSet.isEqual", set.isEqual, ptr, old(b.elt)) && forallT(c, *HashSetBin, c != b ==> inset(c, set) == old(inset(c, set))))
  ensures kept: forallT(b, *HashSetBin, inset(b, set) ==> b.elt == old(b.elt) && b.hash == old(b.hash))
  ensures shape: hashshape(set) && poolshape(set)

func NewHashSet(isEqual)
  prop C15
  requires isEqual != nil
  modifies htop(result)
  ensures fresh(result)
  ensures empty: result.entries == 0 && same(result.isEqual, isEqual) && forallT(b, *HashSetBin, !inset(b, result))
  ensures shape: hashshape(result) && poolshape(result)

functype HashSet.Filter.f(f, elt)
  option pure

func HashSet.Filter(set, f)
  prop C15
  requires hashshape(set) && poolshape(set) && f != nil
  modifies set.pooledBins, set.entries, allelems(*HashSetBin), all(*HashSetBin), all(HashSetBin.next), all(HashSetBin.elt), ghostall(inset), ghostall(spare), ghostall(srank)
  loop 0: invariant hashshape(set) && poolshape(set) && i <= set.size
  loop 0: invariant forallT(b, *HashSetBin, inset(b, set) == (old(inset(b, set)) && (slot(b, set) >= i || callfn("HashSet.Filter.f", f, old(b.elt)))))
  loop 0: invariant forallT(b, *HashSetBin, inset(b, set) ==> b.elt == old(b.elt))
  loop 1: invariant hashshape(set) && poolshape(set) && i < set.size
  loop 1: invariant bin != nil ==> inset(bin, set) && slot(bin, set) == i
  loop 1: invariant same(prevPtr, addr(set.table[i])) && bin == set.table[i] || existsT(p, *HashSetBin, inset(p, set) && same(prevPtr, addr(p.next)) && p.next == bin && slot(p, set) == i)
  loop 1: invariant forallT(b, *HashSetBin, inset(b, set) ==> old(inset(b, set)))
  loop 1: invariant forallT(b, *HashSetBin, inset(b, set) ==> slot(b, set) > i || slot(b, set) == i && bin != nil && brk(b) <= brk(bin) || callfn("HashSet.Filter.f", f, old(b.elt)))
  loop 1: invariant forallT(b, *HashSetBin, old(inset(b, set)) && slot(b, set) > i ==> inset(b, set))
  loop 1: invariant forallT(b, *HashSetBin, old(inset(b, set)) && slot(b, set) == i && bin != nil && brk(b) <= brk(bin) ==> inset(b, set))
  loop 1: invariant forallT(b, *HashSetBin, old(inset(b, set)) && callfn("HashSet.Filter.f", f, old(b.elt)) ==> inset(b, set))
  loop 1: invariant forallT(b, *HashSetBin, inset(b, set) ==> b.elt == old(b.elt))
  ensures filtered: forallT(b, *HashSetBin, inset(b, set) == (old(inset(b, set)) && callfn("HashSet.Filter.f", f, old(b.elt))))
  ensures kept: forallT(b, *HashSetBin, inset(b, set) ==> b.elt == old(b.elt) && b.hash == old(b.hash))
  ensures shape: hashshape(set) && poolshape(set)
