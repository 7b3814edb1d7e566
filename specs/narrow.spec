// One candidate pair of a step (C19, C23)
//
// What the callbacks may do is bounded by the functype contracts of callbacks.spec.
spec thespace(v any) *Space = v.(*Space)
spec theshape(v any) *Shape = v.(*Shape)
spec rejectedpair(a *Shape, b *Shape) bool = a.body == b.body || rejects(a.Filter, b.Filter) || !overlapping(a.bb, b.bb) || barred(a.body, b.body)
// the contacts an arbiter still holds lie outside of the storage about to be handed out
spec keptapart(s *Space) bool = forallT(x, *HashSetBin[*Arbiter], inset(x, s.cachedArbiters) ==> 0 <= x.elt.count && x.elt.count <= len(x.elt.contacts) && allocated(x.elt) && (x.elt.count > 0 ==> existsT(h, *ContactBuffer, h != s.contactBuffersHead && h != s.contactBuffersHead.next && arr(x.elt.contacts) == arr(h.contacts))))
spec solved(s *Space) bool = len(s.arbiters) == old(len(s.arbiters)) + 1
spec unsolved(s *Space) bool = len(s.arbiters) == old(len(s.arbiters))

func SpaceCollideShapesFunc(obj, b, id, vspace)
  prop C19 C23
  option inline HashSet.Insert
  option merge
  requires typeis(obj, *Shape) && typeis(vspace, *Space) && theshape(obj) != nil && thespace(vspace) != nil && b != nil
  requires theshape(obj).body != nil && b.body != nil && clist(theshape(obj).body) && forallT(c, *Constraint, joins(c, theshape(obj).body, b.body) ==> con(c, theshape(obj).body) == con(c, b.body))
  requires pairvalid(theshape(obj), b)
  requires ringok(thespace(vspace).contactBuffersHead) && thespace(vspace).contactBuffersHead.next.stamp <= thespace(vspace).stamp
  requires thespace(vspace).collisionHandlers != nil && thespace(vspace).defaultHandler != nil && thespace(vspace).defaultHandler.TypeA == WILDCARD_COLLISION_TYPE
  requires thespace(vspace).cachedArbiters != nil && hashshape(thespace(vspace).cachedArbiters) && poolshape(thespace(vspace).cachedArbiters) && thespace(vspace).cachedArbiters.size < 1610612741 && thespace(vspace).cachedArbiters.entries < 4611686018427387904
  assumes keptapart(thespace(vspace))
  loop 0: invariant bin != nil ==> inset(bin, set) && slot(bin, set) == rem(hash, set.size)
  modifies all(Arbiter), allelems(*Arbiter), allelems(Contact), @cblog, thespace(vspace).arbiters, all(Space.contactBuffersHead), all(ContactBuffer.next), all(ContactBuffer.stamp), all(ContactBuffer.numContacts), searchCapped(0), searchEpa(0), searchFlat(0), gap(0), gapnx(0), gapny(0), gapax(0), gapay(0), gapbx(0), gapby(0)
  modifies all(HashSet.pooledBins), all(HashSet.table), all(HashSet.size), all(HashSet.entries), allelems(*HashSetBin), all(HashSetBin.next), all(HashSetBin.elt), all(HashSetBin.hash), ghostall(inset), ghostall(spare), ghostall(srank), ghostall(brk), ghostall(htop)
  ensures filtered: old(theshape(obj).body == b.body || rejects(theshape(obj).Filter, b.Filter) || !overlapping(theshape(obj).bb, b.bb)) ==> result == id && unsolved(thespace(vspace)) && forallT(g, *Arbiter, old(allocated(g)) ==> cbn(g) == old(cbn(g)))
  ensures atmost: solved(thespace(vspace)) || unsolved(thespace(vspace))
  ensures others: forall(i, 0, old(len(thespace(vspace).arbiters)), thespace(vspace).arbiters[i] == old(thespace(vspace).arbiters[i]))
  ensures sensors: theshape(obj).sensor || b.sensor ==> unsolved(thespace(vspace))
  ensures immovable: old(theshape(obj).body.m == INFINITY && b.body.m == INFINITY) ==> unsolved(thespace(vspace))
  ensures solver: solved(thespace(vspace)) ==> let(g, thespace(vspace).arbiters[len(thespace(vspace).arbiters)-1], g != nil && g.state != CP_ARBITER_STATE_IGNORE && g.stamp == thespace(vspace).stamp && g.count > 0 && (g.a == theshape(obj) && g.b == b || g.a == b && g.b == theshape(obj)))
  ensures presolved: solved(thespace(vspace)) ==> let(g, thespace(vspace).arbiters[len(thespace(vspace).arbiters)-1], cbkind(g, cbn(g) - 1) == 1 && cbsaid(g, cbn(g) - 1) && cbcode(g, cbn(g) - 1) == ref(g.handler.PreSolveFunc) && cbdata(g, cbn(g) - 1) == ref(g.handler.UserData))
  ensures storage: unsolved(thespace(vspace)) && old(room(thespace(vspace).contactBuffersHead)) ==> thespace(vspace).contactBuffersHead.numContacts == old(thespace(vspace).contactBuffersHead.numContacts)
  ensures taken: solved(thespace(vspace)) && old(room(thespace(vspace).contactBuffersHead)) ==> thespace(vspace).contactBuffersHead.numContacts == old(thespace(vspace).contactBuffersHead.numContacts) + thespace(vspace).arbiters[len(thespace(vspace).arbiters)-1].count
  ensures begun: solved(thespace(vspace)) ==> let(s, thespace(vspace), let(g, s.arbiters[len(s.arbiters)-1], cbn(g) == old(cbn(g)) + ite(s.cachedArbiters.entries == old(thespace(vspace).cachedArbiters.entries) && old(g.state) != CP_ARBITER_STATE_CACHED && old(g.state) != CP_ARBITER_STATE_FIRST_COLLISION, 1, 2)))
  ensures onlyone: solved(thespace(vspace)) ==> let(s, thespace(vspace), forallT(h, *Arbiter, old(allocated(h)) && h != s.arbiters[len(s.arbiters)-1] ==> cbn(h) == old(cbn(h))))
  ensures beginfirst: solved(thespace(vspace)) ==> let(s, thespace(vspace), let(g, s.arbiters[len(s.arbiters)-1], cbn(g) == old(cbn(g)) + 2 ==> cbkind(g, cbn(g) - 2) == 0 && cbcode(g, cbn(g) - 2) == ref(g.handler.BeginFunc) && cbdata(g, cbn(g) - 2) == ref(g.handler.UserData)))
