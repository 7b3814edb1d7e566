// Spatial hash (C17)
//
// Ghost state: incell(b, h) says the bin hangs in the table of h, cellno(b) in which cell, cbk(b) orders the bins
// of a cell, the newest first; sparebin/sprank describe the pool of unused bins.
ghost map incell(b *SpaceHashBin, h *SpaceHash) bool
ghost map cellno(b *SpaceHashBin) int
ghost map cbk(b *SpaceHashBin) int
ghost map ctop(h *SpaceHash) int
ghost map sparebin(b *SpaceHashBin, h *SpaceHash) bool
ghost map sprank(b *SpaceHashBin) int

spec cellorder(h *SpaceHash) bool = forallT(b, *SpaceHashBin, forallT(c, *SpaceHashBin, incell(b, h) && incell(c, h) && cellno(b) == cellno(c) ==> (cbk(b) == cbk(c) ==> b == c) && (cbk(c) < cbk(b) ==> b.next != nil && cbk(c) <= cbk(b.next))))
spec cellvalid(h *SpaceHash) bool = forallT(b, *SpaceHashBin, incell(b, h) ==> b != nil && allocated(b.handle) && b.handle != nil && 0 <= cellno(b) && cellno(b) < h.numCells && cbk(b) < ctop(h))
spec cellused(h *SpaceHash) bool = forallT(b, *SpaceHashBin, incell(b, h) ==> !sparebin(b, h))
spec cellnext(h *SpaceHash) bool = forallT(b, *SpaceHashBin, incell(b, h) && b.next != nil ==> incell(b.next, h) && cellno(b.next) == cellno(b) && cbk(b.next) < cbk(b))
spec cellbins(h *SpaceHash) bool = cellvalid(h) && cellused(h) && cellnext(h)
spec celltable(h *SpaceHash) bool = 0 < h.numCells && h.numCells < 4611686018427387904 && len(h.table) == h.numCells
  && forall(i, 0, h.numCells, h.table[i] != nil ==> incell(h.table[i], h) && cellno(h.table[i]) == i)
spec celltops(h *SpaceHash) bool = forallT(b, *SpaceHashBin, incell(b, h) ==> h.table[cellno(b)] != nil && cbk(b) <= cbk(h.table[cellno(b)]))
spec cellheads(h *SpaceHash) bool = celltable(h) && celltops(h)
spec cellshape(h *SpaceHash) bool = cellheads(h) && cellbins(h) && cellorder(h)
spec binpool(h *SpaceHash) bool = (h.pooledBins != nil ==> sparebin(h.pooledBins, h))
  && forallT(b, *SpaceHashBin, sparebin(b, h) ==> b != nil && h.pooledBins != nil && sprank(b) <= sprank(h.pooledBins) && (b.next != nil ==> sparebin(b.next, h) && sprank(b.next) < sprank(b)))
  && forallT(b, *SpaceHashBin, forallT(c, *SpaceHashBin, sparebin(b, h) && sparebin(c, h) ==> (sprank(b) == sprank(c) ==> b == c) && (sprank(c) < sprank(b) ==> b.next != nil && sprank(c) <= sprank(b.next))))

func floor(f)
  prop C17
  option noalloc
  ensures floor: result <= f && f < result + 1

rec cellhash(x int, y int, n int) int = rem(mod(x*1640531513, 18446744073709551616) ^ mod(y*2654435789, 18446744073709551616), n)
func hashFunc(x, y, n)
  prop C17
  option noalloc
  requires n > 0
  ensures val: result == cellhash(x, y, n)
  ensures range: 0 <= result && result < n

func Handle.Init(hand, obj)
  prop C17
  option noalloc
  modifies hand.obj, hand.retains, hand.stamp
  ensures fresh: hand.obj == obj && hand.retains == 0 && hand.stamp == 0

func Handle.retain(hand)
  prop C17
  option noalloc
  modifies hand.retains
  ensures one: hand.retains == old(hand.retains) + 1

func Handle.release(hand, pooledHandles)
  prop C17
  option noalloc
  modifies hand.retains
  ensures one: hand.retains == old(hand.retains) - 1

func SpaceHash.recycleBin(hash, bin)
  prop C17
  option noalloc
  requires bin != nil && binpool(hash) && !sparebin(bin, hash)
  modifies bin.next, hash.pooledBins, sparebin(bin, hash), incell(bin, hash), sprank(bin)
  set sparebin(bin, hash) := true
  set incell(bin, hash) := false
  set sprank(bin) := ite(old(hash.pooledBins) == nil, 0, sprank(old(hash.pooledBins)) + 1)
  ensures pooled: hash.pooledBins == bin && binpool(hash) && !incell(bin, hash)

func SpaceHash.getEmptyBin(hash)
  prop C17
  requires binpool(hash)
  modifies hash.pooledBins, all(SpaceHashBin.next), ghostall(sparebin), ghostall(incell), ghostall(sprank)
  loop 0: invariant binpool(hash) && old(hash.pooledBins) == nil
  loop 0: invariant forallT(b, *SpaceHashBin, old(allocated(b)) ==> b.next == old(b.next) && sparebin(b, hash) == old(sparebin(b, hash)))
  loop 0: invariant forallT(b, *SpaceHashBin, forallT(s, *SpaceHash, old(allocated(s)) ==> incell(b, s) == old(incell(b, s))))
  set sparebin(result, hash) := false
  ensures unused: result != nil && !sparebin(result, hash) && (old(sparebin(result, hash)) || fresh(result))
  ensures table: forallT(b, *SpaceHashBin, forallT(s, *SpaceHash, old(allocated(s)) ==> incell(b, s) == old(incell(b, s))))
  ensures empty: forallT(b, *SpaceHashBin, !old(allocated(b)) ==> !incell(b, hash))
  ensures others: forallT(b, *SpaceHashBin, old(allocated(b)) && b != result ==> sparebin(b, hash) == old(sparebin(b, hash)))
  ensures newspare: forallT(b, *SpaceHashBin, sparebin(b, hash) ==> old(sparebin(b, hash)) || fresh(b))
  ensures kept: forallT(b, *SpaceHashBin, old(allocated(b)) && !old(sparebin(b, hash)) ==> b.next == old(b.next))
  ensures pool: binpool(hash)
  ensures stepfree: old(cellused(hash)) ==> !incell(result, hash)
  ensures stepsame: old(cellused(hash)) ==> forallT(b, *SpaceHashBin, incell(b, hash) ==> b.next == old(b.next) && old(incell(b, hash)) && !sparebin(b, hash))
  ensures valid: old(cellused(hash) && cellvalid(hash)) ==> cellvalid(hash)
  ensures next: old(cellused(hash) && cellnext(hash)) ==> cellnext(hash)
  ensures table: old(cellused(hash) && celltable(hash)) ==> celltable(hash)
  ensures top: old(cellused(hash) && celltops(hash)) ==> celltops(hash)
  ensures order: old(cellused(hash) && cellorder(hash)) ==> cellorder(hash)

ghost const pi int
ghost const pj int
spec cellidx(i int, j int, n int) int = cellhash(mod(i, 18446744073709551616), mod(j, 18446744073709551616), n)
spec inrange(bb BB, d float64, i int, j int) bool = floor(bb.L/d) <= i && i <= floor(bb.R/d) && floor(bb.B/d) <= j && j <= floor(bb.T/d)
// handle x hangs in cell k
spec hangs(x *Handle, k int, h *SpaceHash) bool = existsT(b, *SpaceHashBin, incell(b, h) && cellno(b) == k && b.handle == x)

func SpaceHash.hashHandle(hash, hand, bb)
  prop C17
  requires hand != nil && hash.celldim > 0 && cellshape(hash) && binpool(hash)
  modifies elems(hash.table), hash.pooledBins, all(SpaceHashBin.next), all(SpaceHashBin.handle), hand.retains, ghostall(sparebin), ghostall(incell), ghostall(sprank), ghostall(cellno), ghostall(cbk), ghostall(ctop)
  loop 0: invariant cellshape(hash) && binpool(hash) && l <= i
  loop 0: invariant forallT(b, *SpaceHashBin, old(incell(b, hash)) ==> incell(b, hash) && b.handle == old(b.handle) && cellno(b) == old(cellno(b)))
  loop 0: invariant forallT(b, *SpaceHashBin, incell(b, hash) ==> old(incell(b, hash)) || b.handle == hand)
  loop 0: invariant l <= pi && pi < i && b <= pj && pj <= t ==> hangs(hand, cellidx(pi, pj, hash.numCells), hash)
  loop 1: invariant l <= i && i <= r && b <= j && binpool(hash)
  loop 1: invariant used: cellused(hash)
  loop 1: invariant valid: cellvalid(hash)
  loop 1: invariant next: cellnext(hash)
  loop 1: invariant table: celltable(hash)
  loop 1: invariant top: celltops(hash)
  loop 1: invariant order: cellorder(hash)
  loop 1: invariant forallT(b, *SpaceHashBin, old(incell(b, hash)) ==> incell(b, hash) && b.handle == old(b.handle) && cellno(b) == old(cellno(b)))
  loop 1: invariant forallT(b, *SpaceHashBin, incell(b, hash) ==> old(incell(b, hash)) || b.handle == hand)
  loop 1: invariant l <= pi && (pi < i && b <= pj && pj <= t || pi == i && b <= pj && pj < j) ==> hangs(hand, cellidx(pi, pj, hash.numCells), hash)
  loop 1: ghost cbk(hash.table[idx]) := ite(hash.table[idx] == bin, cbk(hash.table[idx]), ctop(hash))
  loop 1: ghost ctop(hash) := ite(hash.table[idx] == bin, ctop(hash), ctop(hash) + 1)
  loop 1: ghost cellno(hash.table[idx]) := idx
  loop 1: ghost incell(hash.table[idx], hash) := true
  loop 2: invariant item != nil ==> incell(item, hash) && cellno(item) == idx
  loop 2: invariant forallT(c, *SpaceHashBin, incell(c, hash) && cellno(c) == idx && (item == nil || cbk(c) > cbk(item)) ==> c.handle != hand)
  ensures shape: cellshape(hash) && binpool(hash)
  ensures covered: inrange(bb, hash.celldim, pi, pj) ==> hangs(hand, cellidx(pi, pj, hash.numCells), hash)
  ensures kept: forallT(b, *SpaceHashBin, old(incell(b, hash)) ==> incell(b, hash) && b.handle == old(b.handle) && cellno(b) == old(cellno(b)))
  ensures only: forallT(b, *SpaceHashBin, incell(b, hash) ==> old(incell(b, hash)) || b.handle == hand)

ghost const ph *Handle
spec selfobj(obj any, s *Shape) bool = typeis(obj, *Shape) && obj.(*Shape) == s
// only orphaned bins leave the table
spec onlyorphans(h *SpaceHash) bool = forallT(b, *SpaceHashBin, (incell(b, h) ==> old(incell(b, h))) && (old(incell(b, h)) && b.handle.obj != nil ==> incell(b, h)))
// the probe was reported once exactly when its stamp is current
spec reported(h *SpaceHash) bool = seen(ph.obj) == old(seen(ph.obj)) + ite(ph.stamp == h.stamp, 1, 0)
spec fromtable(h *SpaceHash) bool = forallT(s, *Shape, seen(s) != old(seen(s)) ==> existsT(b, *SpaceHashBin, old(incell(b, h)) && b.handle.obj == s))
// the cell a pointer into the table points at
spec cellof(p **SpaceHashBin, h *SpaceHash) int = idx(p) - off(h.table)
spec incelltable(p **SpaceHashBin, h *SpaceHash) bool = 0 <= cellof(p, h) && cellof(p, h) < h.numCells && same(p, addr(h.table[cellof(p, h)]))

func SpaceHash.removeOrphanedHandles(hash, binPtr)
  prop C17
  option noalloc
  requires cellshape(hash) && binpool(hash) && incelltable(binPtr, hash)
  modifies all(Handle.retains), hash.pooledBins, allelems(*SpaceHashBin), all(*SpaceHashBin), all(SpaceHashBin.next), ghostall(sparebin), ghostall(incell), ghostall(sprank)
  loop 0: invariant binpool(hash)
  loop 0: invariant used: cellused(hash)
  loop 0: invariant valid: cellvalid(hash)
  loop 0: invariant next: cellnext(hash)
  loop 0: invariant table: celltable(hash)
  loop 0: invariant top: celltops(hash)
  loop 0: invariant order: cellorder(hash)
  loop 0: invariant orphans: onlyorphans(hash)
  loop 0: invariant here: bin != nil ==> incell(bin, hash) && cellno(bin) == cellof(entry(binPtr), hash)
  loop 0: invariant link: same(binPtr, entry(binPtr)) && bin == hash.table[cellof(entry(binPtr), hash)] || existsT(p, *SpaceHashBin, incell(p, hash) && same(binPtr, addr(p.next)) && p.next == bin && cellno(p) == cellof(entry(binPtr), hash))
  ensures shape: cellshape(hash) && binpool(hash)
  ensures kept: onlyorphans(hash)

func SpaceHash.queryHelper(hash, binPtr, obj, f, data)
  prop C17
  option noalloc
  requires f != nil && cellshape(hash) && binpool(hash) && incelltable(binPtr, hash)
  modifies ghostall(seen), ghostall(seenfor), ghostall(seenwith), all(Handle.stamp), all(Handle.retains), hash.pooledBins, allelems(*SpaceHashBin), all(*SpaceHashBin), all(SpaceHashBin.next), ghostall(sparebin), ghostall(incell), ghostall(sprank)
  loop 0: invariant binpool(hash)
  loop 0: invariant used: cellused(hash)
  loop 0: invariant valid: cellvalid(hash)
  loop 0: invariant next: cellnext(hash)
  loop 0: invariant table: celltable(hash)
  loop 0: invariant top: celltops(hash)
  loop 0: invariant order: cellorder(hash)
  loop 0: invariant orphans: onlyorphans(hash)
  loop 0: invariant reported: allocated(ph) && ph != nil && ph.obj != nil && old(forallT(b, *SpaceHashBin, incell(b, hash) && b.handle.obj == ph.obj ==> b.handle == ph)) ==> seen(ph.obj) == old(seen(ph.obj)) + ite(ph.stamp == hash.stamp && old(ph.stamp) != hash.stamp, 1, 0)
  loop 0: invariant from: fromtable(hash)
  loop 0: invariant stamps: forallT(x, *Handle, x.stamp == old(x.stamp) || x.stamp == hash.stamp)
  loop 1: invariant binpool(hash)
  loop 1: invariant used: cellused(hash)
  loop 1: invariant valid: cellvalid(hash)
  loop 1: invariant next: cellnext(hash)
  loop 1: invariant table: celltable(hash)
  loop 1: invariant top: celltops(hash)
  loop 1: invariant order: cellorder(hash)
  loop 1: invariant orphans: onlyorphans(hash)
  loop 1: invariant reported: allocated(ph) && ph != nil && ph.obj != nil && old(forallT(b, *SpaceHashBin, incell(b, hash) && b.handle.obj == ph.obj ==> b.handle == ph)) ==> seen(ph.obj) == old(seen(ph.obj)) + ite(ph.stamp == hash.stamp && old(ph.stamp) != hash.stamp, 1, 0)
  loop 1: invariant from: fromtable(hash)
  loop 1: invariant stamps: forallT(x, *Handle, x.stamp == old(x.stamp) || x.stamp == hash.stamp)
  loop 1: invariant here: bin != nil ==> incell(bin, hash) && cellno(bin) == cellof(binPtr, hash)
  loop 1: invariant past: forallT(c, *SpaceHashBin, incell(c, hash) && cellno(c) == cellof(binPtr, hash) && (bin == nil || cbk(c) > cbk(bin)) ==> c.handle.stamp == hash.stamp || selfobj(obj, c.handle.obj))
  ensures shape: cellshape(hash) && binpool(hash)
  ensures kept: onlyorphans(hash)
  ensures all: forallT(c, *SpaceHashBin, incell(c, hash) && cellno(c) == cellof(binPtr, hash) ==> c.handle.stamp == hash.stamp || selfobj(obj, c.handle.obj))
  ensures stamps: forallT(x, *Handle, x.stamp == old(x.stamp) || x.stamp == hash.stamp)
  ensures once: allocated(ph) && ph != nil && ph.obj != nil && old(forallT(b, *SpaceHashBin, incell(b, hash) && b.handle.obj == ph.obj ==> b.handle == ph)) ==> seen(ph.obj) == old(seen(ph.obj)) + ite(ph.stamp == hash.stamp && old(ph.stamp) != hash.stamp, 1, 0)
  ensures stored: fromtable(hash)


func SpaceHash.Query(hash, obj, bb, f, data)
  prop C17
  option noalloc
  requires f != nil && hash.celldim > 0 && cellshape(hash) && binpool(hash)
  requires allocated(ph) && ph != nil && ph.obj != nil && ph.stamp != hash.stamp
  requires forallT(b, *SpaceHashBin, incell(b, hash) && b.handle.obj == ph.obj ==> b.handle == ph)
  modifies ghostall(seen), ghostall(seenfor), ghostall(seenwith), hash.stamp, all(Handle.stamp), all(Handle.retains), hash.pooledBins, allelems(*SpaceHashBin), all(*SpaceHashBin), all(SpaceHashBin.next), ghostall(sparebin), ghostall(incell), ghostall(sprank)
  loop 0: invariant l <= i
  loop 0: invariant shape: cellshape(hash) && binpool(hash)
  loop 0: invariant orphans: onlyorphans(hash)
  loop 0: invariant reported: reported(hash)
  loop 0: invariant from: fromtable(hash)
  loop 0: invariant done: (l <= pi && pi < i && b <= pj && pj <= t) && old(hangs(ph, cellidx(pi, pj, hash.numCells), hash)) && !selfobj(obj, ph.obj) ==> ph.stamp == hash.stamp
  loop 1: invariant l <= i && i <= r && b <= j
  loop 1: invariant shape: cellshape(hash) && binpool(hash)
  loop 1: invariant orphans: onlyorphans(hash)
  loop 1: invariant reported: reported(hash)
  loop 1: invariant from: fromtable(hash)
  loop 1: invariant done: (l <= pi && (pi < i && b <= pj && pj <= t || pi == i && b <= pj && pj < j)) && old(hangs(ph, cellidx(pi, pj, hash.numCells), hash)) && !selfobj(obj, ph.obj) ==> ph.stamp == hash.stamp
  ensures visited: inrange(bb, hash.celldim, pi, pj) && old(hangs(ph, cellidx(pi, pj, hash.numCells), hash)) && !selfobj(obj, ph.obj) ==> seen(ph.obj) == old(seen(ph.obj)) + 1
  ensures once: seen(ph.obj) <= old(seen(ph.obj)) + 1
  ensures stored: fromtable(hash)
  ensures shape: cellshape(hash) && binpool(hash)
  ensures kept: onlyorphans(hash)

func SpaceHash.segmentQueryHelper(hash, binPtr, obj, f, data)
  prop C17
  option noalloc
  requires f != nil && cellshape(hash) && binpool(hash) && incelltable(binPtr, hash)
  modifies raycut(0), ghostall(seen), ghostall(seenfor), ghostall(seenwith), all(Handle.stamp), all(Handle.retains), hash.pooledBins, allelems(*SpaceHashBin), all(*SpaceHashBin), all(SpaceHashBin.next), ghostall(sparebin), ghostall(incell), ghostall(sprank)
  loop 0: invariant binpool(hash)
  loop 0: invariant cut: t <= 1 && min(raycut(0), 1) == min(min(old(raycut(0)), 1), t)
  loop 0: invariant used: cellused(hash)
  loop 0: invariant valid: cellvalid(hash)
  loop 0: invariant next: cellnext(hash)
  loop 0: invariant table: celltable(hash)
  loop 0: invariant top: celltops(hash)
  loop 0: invariant order: cellorder(hash)
  loop 0: invariant orphans: onlyorphans(hash)
  loop 0: invariant reported: allocated(ph) && ph != nil && ph.obj != nil && old(forallT(b, *SpaceHashBin, incell(b, hash) && b.handle.obj == ph.obj ==> b.handle == ph)) ==> seen(ph.obj) == old(seen(ph.obj)) + ite(ph.stamp == hash.stamp && old(ph.stamp) != hash.stamp, 1, 0)
  loop 0: invariant from: fromtable(hash)
  loop 0: invariant stamps: forallT(x, *Handle, x.stamp == old(x.stamp) || x.stamp == hash.stamp)
  loop 1: invariant binpool(hash)
  loop 1: invariant cut: t <= 1 && min(raycut(0), 1) == min(min(old(raycut(0)), 1), t)
  loop 1: invariant used: cellused(hash)
  loop 1: invariant valid: cellvalid(hash)
  loop 1: invariant next: cellnext(hash)
  loop 1: invariant table: celltable(hash)
  loop 1: invariant top: celltops(hash)
  loop 1: invariant order: cellorder(hash)
  loop 1: invariant orphans: onlyorphans(hash)
  loop 1: invariant reported: allocated(ph) && ph != nil && ph.obj != nil && old(forallT(b, *SpaceHashBin, incell(b, hash) && b.handle.obj == ph.obj ==> b.handle == ph)) ==> seen(ph.obj) == old(seen(ph.obj)) + ite(ph.stamp == hash.stamp && old(ph.stamp) != hash.stamp, 1, 0)
  loop 1: invariant from: fromtable(hash)
  loop 1: invariant stamps: forallT(x, *Handle, x.stamp == old(x.stamp) || x.stamp == hash.stamp)
  loop 1: invariant here: bin != nil ==> incell(bin, hash) && cellno(bin) == cellof(binPtr, hash)
  loop 1: invariant past: forallT(c, *SpaceHashBin, incell(c, hash) && cellno(c) == cellof(binPtr, hash) && (bin == nil || cbk(c) > cbk(bin)) ==> c.handle.stamp == hash.stamp)
  ensures shape: cellshape(hash) && binpool(hash)
  ensures kept: onlyorphans(hash)
  ensures all: forallT(c, *SpaceHashBin, incell(c, hash) && cellno(c) == cellof(binPtr, hash) ==> c.handle.stamp == hash.stamp)
  ensures stamps: forallT(x, *Handle, x.stamp == old(x.stamp) || x.stamp == hash.stamp)
  ensures once: allocated(ph) && ph != nil && ph.obj != nil && old(forallT(b, *SpaceHashBin, incell(b, hash) && b.handle.obj == ph.obj ==> b.handle == ph)) ==> seen(ph.obj) == old(seen(ph.obj)) + ite(ph.stamp == hash.stamp && old(ph.stamp) != hash.stamp, 1, 0)
  ensures stored: fromtable(hash)
  ensures cut: result <= 1 && min(raycut(0), 1) == min(min(old(raycut(0)), 1), result)

func SpaceHash.clearTableCell(hash, k)
  prop C17
  option noalloc
  requires cellshape(hash) && binpool(hash) && 0 <= k && k < hash.numCells
  modifies all(Handle.retains), hash.pooledBins, elems(hash.table), all(SpaceHashBin.next), ghostall(sparebin), ghostall(incell), ghostall(sprank)
  loop 0: invariant binpool(hash)
  loop 0: invariant used: cellused(hash)
  loop 0: invariant valid: cellvalid(hash)
  loop 0: invariant next: cellnext(hash)
  loop 0: invariant order: cellorder(hash)
  loop 0: invariant table: forall(i, 0, hash.numCells, i != k && hash.table[i] != nil ==> incell(hash.table[i], hash) && cellno(hash.table[i]) == i)
  loop 0: invariant tops: forallT(b, *SpaceHashBin, incell(b, hash) && cellno(b) != k ==> hash.table[cellno(b)] != nil && cbk(b) <= cbk(hash.table[cellno(b)]))
  loop 0: invariant here: bin != nil ==> incell(bin, hash) && cellno(bin) == k
  loop 0: invariant left: forallT(b, *SpaceHashBin, incell(b, hash) == (old(incell(b, hash)) && (cellno(b) != k || bin != nil && cbk(b) <= cbk(bin))))
  ensures shape: cellshape(hash) && binpool(hash)
  ensures cleared: forallT(b, *SpaceHashBin, incell(b, hash) == (old(incell(b, hash)) && cellno(b) != k))

func SpaceHash.clearTable(hash)
  prop C17
  option noalloc
  requires cellshape(hash) && binpool(hash)
  modifies all(Handle.retains), hash.pooledBins, elems(hash.table), all(SpaceHashBin.next), ghostall(sparebin), ghostall(incell), ghostall(sprank)
  loop 0: invariant 0 <= i && i <= hash.numCells
  loop 0: invariant shape: cellshape(hash) && binpool(hash)
  loop 0: invariant left: forallT(b, *SpaceHashBin, incell(b, hash) ==> i <= cellno(b))
  ensures shape: cellshape(hash) && binpool(hash)
  ensures empty: forallT(b, *SpaceHashBin, !incell(b, hash))

func SpaceHash.Count(hash)
  prop C17
  requires hash.handleSet != nil
  ensures count: result == hash.handleSet.entries

spec handled(h *SpaceHash) bool = h.handleSet != nil && hashshape(h.handleSet) && poolshape(h.handleSet)
spec isheld(h *SpaceHash, obj *Shape, hashId int, x *Handle) bool = existsT(b, *HashSetBin[*Handle], inset(b, h.handleSet) && rem(b.hash, h.handleSet.size) == rem(hashId, h.handleSet.size) && b.elt == x && callfn("HashSet.isEqual", h.handleSet.isEqual, obj, x))
spec absentobj(h *SpaceHash, obj *Shape, hashId int) bool = forallT(b, *HashSetBin[*Handle], inset(b, h.handleSet) && rem(b.hash, h.handleSet.size) == rem(hashId, h.handleSet.size) ==> !callfn("HashSet.isEqual", h.handleSet.isEqual, obj, b.elt))

func SpaceHash.Contains(hash, obj, hashId)
  prop C17
  requires handled(hash)
  ensures found: result == existsT(b, *HashSetBin[*Handle], inset(b, hash.handleSet) && rem(b.hash, hash.handleSet.size) == rem(hashId, hash.handleSet.size) && callfn("HashSet.isEqual", hash.handleSet.isEqual, obj, b.elt))

// the handle of a removed object leaves the set and is orphaned; its bins are dropped when a query next meets them
func SpaceHash.Remove(hash, obj, hashId)
  prop C17
  requires handled(hash) && hash.handleSet.entries > 0
  modifies all(Handle.obj), all(Handle.retains), hash.handleSet.pooledBins, hash.handleSet.entries, elems(hash.handleSet.table), all(HashSetBin.next), all(HashSetBin.elt), ghostall(inset), ghostall(spare), ghostall(srank)
  ensures shape: handled(hash)
  ensures absent: old(absentobj(hash, obj, hashId)) ==> hash.handleSet.entries == old(hash.handleSet.entries) && forallT(x, *Handle, x.obj == old(x.obj) && x.retains == old(x.retains))
  ensures gone: !old(absentobj(hash, obj, hashId)) ==> hash.handleSet.entries == old(hash.handleSet.entries) - 1 && existsT(x, *Handle, old(isheld(hash, obj, hashId, x)) && x.obj == nil && x.retains == old(x.retains) - 1 && forallT(y, *Handle, y != x ==> y.obj == old(y.obj) && y.retains == old(y.retains)))

// nothing is offered twice, nothing that is not stored
func SpaceHash.SegmentQuery(hash, obj, a, b, t_exit, f, data)
  prop C17
  option noalloc; nodef; merge
  requires f != nil && hash.celldim > 0 && cellshape(hash) && binpool(hash)
  requires allocated(ph) && ph != nil && ph.obj != nil && ph.stamp != hash.stamp
  requires forallT(b, *SpaceHashBin, incell(b, hash) && b.handle.obj == ph.obj ==> b.handle == ph)
  modifies raycut(0), ghostall(seen), ghostall(seenfor), ghostall(seenwith), hash.stamp, all(Handle.stamp), all(Handle.retains), hash.pooledBins, allelems(*SpaceHashBin), all(*SpaceHashBin), all(SpaceHashBin.next), ghostall(sparebin), ghostall(incell), ghostall(sprank)
  loop 0: invariant shape: cellshape(hash) && binpool(hash)
  loop 0: invariant orphans: onlyorphans(hash)
  loop 0: invariant reported: reported(hash)
  loop 0: invariant from: fromtable(hash)
  loop 0: invariant cut: t_exit <= entry(t_exit) && (t_exit < entry(t_exit) ==> raycut(0) <= t_exit || t_exit == 1) && t_exit >= min(entry(t_exit), min(raycut(0), 1))
  ensures once: seen(ph.obj) <= old(seen(ph.obj)) + 1
  ensures stored: fromtable(hash)
  ensures shape: cellshape(hash) && binpool(hash)
  ensures kept: onlyorphans(hash)

// a handle hangs in every cell the box of its object touches
spec filed(x *Handle, h *SpaceHash) bool = inrange(callfn("SpatialIndexBB", h.SpatialIndex.bbfunc, x.obj), h.celldim, pi, pj) ==> hangs(x, cellidx(pi, pj, h.numCells), h)
func SpaceHash.Insert(hash, obj, hashId)
  prop C17
  option inline HashSet.Insert
  requires handled(hash) && hash.celldim > 0 && cellshape(hash) && binpool(hash) && hash.SpatialIndex != nil && hash.SpatialIndex.bbfunc != nil && obj != nil
  requires hash.handleSet.size < 1610612741 && hash.handleSet.entries < 4611686018427387904
  requires absentobj(hash, obj, hashId)
  modifies all(Handle.obj), all(Handle.retains), all(Handle.stamp), elems(hash.table), hash.pooledBins, all(SpaceHashBin.next), all(SpaceHashBin.handle), ghostall(sparebin), ghostall(incell), ghostall(sprank), ghostall(cellno), ghostall(cbk), ghostall(ctop), hash.handleSet.pooledBins, hash.handleSet.table, hash.handleSet.size, hash.handleSet.entries, allelems(*HashSetBin), all(HashSetBin.next), all(HashSetBin.elt), all(HashSetBin.hash), ghostall(inset), ghostall(spare), ghostall(srank), ghostall(brk), htop(hash.handleSet)
  loop 0: invariant bin != nil ==> inset(bin, set) && slot(bin, set) == rem(hash, set.size)
  ensures held: handled(hash) && hash.handleSet.entries == old(hash.handleSet.entries) + 1
  ensures shape: cellshape(hash) && binpool(hash)
  ensures covered: existsT(x, *Handle, x.obj == obj && (inrange(callfn("SpatialIndexBB", hash.SpatialIndex.bbfunc, obj), hash.celldim, pi, pj) ==> hangs(x, cellidx(pi, pj, hash.numCells), hash)))

func SpaceHash.ReindexObject(hash, obj, hashId)
  prop C17
  requires handled(hash) && hash.celldim > 0 && cellshape(hash) && binpool(hash) && hash.SpatialIndex != nil && hash.SpatialIndex.bbfunc != nil && obj != nil
  requires hash.handleSet.size < 1610612741 && 0 < hash.handleSet.entries && hash.handleSet.entries < 4611686018427387904
  requires forallT(b, *HashSetBin[*Handle], forallT(c, *HashSetBin[*Handle], inset(b, hash.handleSet) && inset(c, hash.handleSet) && rem(b.hash, hash.handleSet.size) == rem(hashId, hash.handleSet.size) && rem(c.hash, hash.handleSet.size) == rem(hashId, hash.handleSet.size) && callfn("HashSet.isEqual", hash.handleSet.isEqual, obj, b.elt) && callfn("HashSet.isEqual", hash.handleSet.isEqual, obj, c.elt) ==> b == c))
  modifies all(Handle.obj), all(Handle.retains), all(Handle.stamp), elems(hash.table), hash.pooledBins, all(SpaceHashBin.next), all(SpaceHashBin.handle), ghostall(sparebin), ghostall(incell), ghostall(sprank), ghostall(cellno), ghostall(cbk), ghostall(ctop), hash.handleSet.pooledBins, hash.handleSet.table, hash.handleSet.size, hash.handleSet.entries, allelems(*HashSetBin), all(HashSetBin.next), all(HashSetBin.elt), all(HashSetBin.hash), ghostall(inset), ghostall(spare), ghostall(srank), ghostall(brk), htop(hash.handleSet)
  ensures held: handled(hash) && hash.handleSet.entries == old(hash.handleSet.entries)
  ensures shape: cellshape(hash) && binpool(hash)
  ensures covered: !old(absentobj(hash, obj, hashId)) ==> existsT(x, *Handle, x.obj == obj && (inrange(callfn("SpatialIndexBB", hash.SpatialIndex.bbfunc, obj), hash.celldim, pi, pj) ==> hangs(x, cellidx(pi, pj, hash.numCells), hash)))

func SpaceHash.Reindex(hash)
  prop C17
  requires handled(hash) && hash.celldim > 0 && cellshape(hash) && binpool(hash) && hash.SpatialIndex != nil && hash.SpatialIndex.bbfunc != nil
  modifies elems(hash.table), hash.pooledBins, all(SpaceHashBin.next), all(SpaceHashBin.handle), all(Handle.retains), ghostall(sparebin), ghostall(incell), ghostall(sprank), ghostall(cellno), ghostall(cbk), ghostall(ctop)
  loop 0: invariant shape: cellshape(hash) && binpool(hash)
  loop 0: invariant handled: handled(hash)
  loop 0: invariant done: forallT(b, *HashSetBin[*Handle], inset(b, hash.handleSet) && slot(b, hash.handleSet) < LI ==> filed(b.elt, hash))
  loop 1: invariant shape: cellshape(hash) && binpool(hash)
  loop 1: invariant handled: handled(hash)
  loop 1: invariant here: bin != nil ==> inset(bin, hash.handleSet) && entry(bin) != nil && slot(bin, hash.handleSet) == slot(entry(bin), hash.handleSet)
  loop 1: invariant kept: forallT(b, *HashSetBin[*Handle], inset(b, hash.handleSet) && entry(filed(b.elt, hash)) ==> filed(b.elt, hash))
  loop 1: invariant chain: forallT(b, *HashSetBin[*Handle], inset(b, hash.handleSet) && entry(bin) != nil && slot(b, hash.handleSet) == slot(entry(bin), hash.handleSet) && (bin == nil || brk(b) > brk(bin)) ==> filed(b.elt, hash))
  ensures shape: cellshape(hash) && binpool(hash) && handled(hash)
  ensures filed: forallT(b, *HashSetBin[*Handle], inset(b, hash.handleSet) ==> filed(b.elt, hash))
