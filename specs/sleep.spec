// Sleeping groups (C21)
//
// grk(b) orders the members of a group behind its root.
ghost map grk(b *Body) int

spec member(b *Body, r *Body) bool = b != nil && r != nil && b.sleepingRoot == r
spec groupsok(z int) bool = forallT(b, *Body, b.sleepingRoot != nil ==> member(b.sleepingRoot, b.sleepingRoot))
  && forallT(b, *Body, b.sleepingNext != nil ==> allocated(b.sleepingNext) && b.sleepingRoot != nil && member(b.sleepingNext, b.sleepingRoot) && b.sleepingNext != b.sleepingRoot && (b != b.sleepingRoot ==> grk(b.sleepingNext) < grk(b)))
  && forallT(b, *Body, forallT(c, *Body, b.sleepingRoot != nil && c.sleepingRoot == b.sleepingRoot && c != c.sleepingRoot ==> (b == b.sleepingRoot || grk(c) < grk(b) ==> b.sleepingNext != nil && grk(c) <= grk(b.sleepingNext)) && (b != b.sleepingRoot && grk(b) == grk(c) ==> b == c)))

func Body.IsSleeping(body)
  prop C21
  option noalloc
  ensures exact: result == (body.sleepingRoot != nil)

func Body.ComponentRoot(body)
  prop C21
  option noalloc
  ensures root: result == ite(body == nil, nil, body.sleepingRoot)

func Body.ComponentAdd(root, body)
  prop C21
  option noalloc
  requires body != nil && body.sleepingRoot == nil && body.sleepingNext == nil && (body != root ==> root.sleepingRoot == root)
  modifies body.sleepingRoot, body.sleepingNext, root.sleepingNext, grk(body)
  set grk(body) := ite(body == root || old(root.sleepingNext) == nil, 0, grk(old(root.sleepingNext)) + 1)
  ensures joined: member(body, root)
  ensures groups: old(groupsok(0)) ==> groupsok(0)
  ensures linked: body.sleepingNext == nil || root.sleepingNext == body && body != root && body.sleepingNext == old(root.sleepingNext)
  ensures nexts: forallT(b, *Body, b != body && b != root ==> b.sleepingNext == old(b.sleepingNext))
  ensures others: forallT(b, *Body, b != body ==> b.sleepingRoot == old(b.sleepingRoot))

func ComponentActive(root, threshold)
  prop C21
  option noalloc
  requires groupsok(0) && root != nil && root.sleepingRoot == root
  loop 0: invariant item != nil ==> member(item, root)
  loop 0: invariant forallT(b, *Body, member(b, root) && (item == nil || item != root && (b == root || grk(b) > grk(item))) ==> b.sleepingIdleTime >= threshold)
  ensures exact: result == existsT(b, *Body, member(b, root) && b.sleepingIdleTime < threshold)

func Body.Activate(body)
  prop C21
  assumes groupsok(0) && alist(body)
  assumes forallT(b, *Body, b.sleepingRoot != nil ==> isdynamic(b) && b.sleepingRoot.space != nil)
  assumes forallT(x, *Arbiter, on(x, body) ==> x.body_a != nil && x.body_b != nil)
  modifies @wake
  loop 0: invariant bodyToo != nil ==> member(bodyToo, root) && existsT(c, *Body, c == bodyToo && old(allocated(c)))
  loop 0: invariant forallT(b, *Body, old(allocated(b)) ==> ite(old(b.sleepingRoot) == root && (bodyToo == nil || bodyToo != root && (b == root || grk(b) > grk(bodyToo))), b.sleepingRoot == nil && b.sleepingNext == nil && b.sleepingIdleTime == 0, b.sleepingRoot == old(b.sleepingRoot) && b.sleepingNext == old(b.sleepingNext) && (b != body ==> b.sleepingIdleTime == old(b.sleepingIdleTime))))
  loop 0: invariant body.sleepingIdleTime == 0
  loop 0: invariant forallT(b, *Body, old(allocated(b)) ==> putback(b) == old(putback(b)) + ite(space.locked == 0 && b.sleepingRoot == nil && old(b.sleepingRoot) == root, 1, 0))
  loop 1: invariant 0 <= i
  loop 2: invariant arbiter != nil ==> on(arbiter, body)
  loop 2: invariant forallT(b, *Body, old(allocated(b)) ==> b.sleepingIdleTime == old(b.sleepingIdleTime) || b.sleepingIdleTime == 0 && !isstatic(b) && !old(isstatic(b)))
  loop 2: invariant body.sleepingIdleTime == 0 && forallT(b, *Body, old(allocated(b)) && old(member(b, body.sleepingRoot)) && b.sleepingRoot == nil ==> b.sleepingIdleTime == 0)
  ensures types: forallT(x, *Body, old(allocated(x)) ==> (x.sleepingIdleTime == INFINITY) == (old(x.sleepingIdleTime) == INFINITY))
  ensures reset: forallT(x, *Body, old(allocated(x)) ==> x.sleepingIdleTime == old(x.sleepingIdleTime) || x.sleepingIdleTime == 0)
  ensures self: isstatic(body) == old(isstatic(body))
  ensures awake: isdynamic(body) ==> body.sleepingIdleTime == 0
  ensures lists: old(!isdynamic(body) || body.sleepingRoot == nil) ==> forallT(s, *Space, old(allocated(s)) ==> same(s.dynamicBodies, old(s.dynamicBodies)) && forall(k, 0, len(s.dynamicBodies), s.dynamicBodies[k] == old(s.dynamicBodies[k])) && forall(k, 0, len(s.staticBodies), s.staticBodies[k] == old(s.staticBodies[k])))
  ensures group: old(isdynamic(body) && body.sleepingRoot != nil) ==> forallT(b, *Body, old(allocated(b)) && old(b.sleepingRoot) == old(body.sleepingRoot) ==> b.sleepingRoot == nil && b.sleepingNext == nil && b.sleepingIdleTime == 0)
  ensures putback: old(isdynamic(body) && body.sleepingRoot != nil) ==> forallT(b, *Body, old(allocated(b)) ==> putback(b) == old(putback(b)) + ite(old(body.sleepingRoot.space.locked) == 0 && old(b.sleepingRoot) == old(body.sleepingRoot), 1, 0))
  ensures others: forallT(b, *Body, old(allocated(b)) && (!old(isdynamic(body)) || old(body.sleepingRoot) == nil || old(b.sleepingRoot) != old(body.sleepingRoot)) ==> b.sleepingRoot == old(b.sleepingRoot) && b.sleepingNext == old(b.sleepingNext))

spec aother(x *Arbiter, b *Body) *Body = ite(x.body_a == b, x.body_b, x.body_a)
spec cother(c *Constraint, b *Body) *Body = ite(c.a == b, c.b, c.a)
// every dynamic neighbour of b belongs to some group
spec surrounded(b *Body) bool = forallT(x, *Arbiter, on(x, b) && allocated(aother(x, b)) && isdynamic(aother(x, b)) ==> aother(x, b).sleepingRoot != nil)
  && forallT(c, *Constraint, con(c, b) && allocated(cother(c, b)) && isdynamic(cother(c, b)) ==> cother(c, b).sleepingRoot != nil)
rec links(b *Body) bool = alist(b) && clist(b) && forallT(x, *Arbiter, on(x, b) ==> aother(x, b) != nil && allocated(aother(x, b))) && forallT(c, *Constraint, con(c, b) ==> cother(c, b) != nil && allocated(cother(c, b)))
spec linksok(z int) bool = forallT(b, *Body, links(b))
spec loose(b *Body) bool = b.sleepingRoot == nil && b.sleepingNext == nil

func ArbiterNext(arb, body)
  prop C21
  option noalloc
  ensures next: result == anext(arb, body)

func FloodFillComponent(root, body)
  prop C21
  option noalloc
  requires root != nil && body != nil && linksok(0) && links(body) && (body != root ==> root.sleepingRoot == root)
  requires forallT(b, *Body, b.sleepingRoot == nil ==> b.sleepingNext == nil)
  modifies all(Body.sleepingRoot), all(Body.sleepingNext), ghostall(grk)
  loop 0: invariant links(body) && (arb != nil ==> on(arb, body))
  loop 0: invariant body.sleepingRoot == root && root.sleepingRoot == root
  loop 0: invariant forallT(b, *Body, b.sleepingRoot == nil ==> b.sleepingNext == nil)
  loop 0: invariant forallT(b, *Body, b.sleepingRoot == old(b.sleepingRoot) || old(b.sleepingRoot) == nil && b.sleepingRoot == root && isdynamic(b))
  loop 0: invariant forallT(b, *Body, b != body && b.sleepingRoot != nil && old(b.sleepingRoot) == nil ==> surrounded(b))
  loop 0: invariant forallT(x, *Arbiter, on(x, body) && (arb == nil || ark(x, body) > ark(arb, body)) && allocated(aother(x, body)) && isdynamic(aother(x, body)) ==> aother(x, body).sleepingRoot != nil)
  loop 1: invariant links(body)
  loop 1: invariant constraint != nil ==> con(constraint, body)
  loop 1: invariant body.sleepingRoot == root && root.sleepingRoot == root
  loop 1: invariant forallT(b, *Body, b.sleepingRoot == nil ==> b.sleepingNext == nil)
  loop 1: invariant forallT(b, *Body, b.sleepingRoot == old(b.sleepingRoot) || old(b.sleepingRoot) == nil && b.sleepingRoot == root && isdynamic(b))
  loop 1: invariant forallT(b, *Body, b != body && b.sleepingRoot != nil && old(b.sleepingRoot) == nil ==> surrounded(b))
  loop 1: invariant forallT(x, *Arbiter, on(x, body) && allocated(aother(x, body)) && isdynamic(aother(x, body)) ==> aother(x, body).sleepingRoot != nil)
  loop 1: invariant forallT(x, *Constraint, con(x, body) && (constraint == nil || crk(x, body) > crk(constraint, body)) && allocated(cother(x, body)) && isdynamic(cother(x, body)) ==> cother(x, body).sleepingRoot != nil)
  ensures joined: isdynamic(body) ==> body.sleepingRoot != nil && (old(body.sleepingRoot) == nil ==> body.sleepingRoot == root)
  ensures grown: forallT(b, *Body, b.sleepingRoot == old(b.sleepingRoot) || old(b.sleepingRoot) == nil && b.sleepingRoot == root && isdynamic(b))
  ensures whole: forallT(b, *Body, b.sleepingRoot != nil && old(b.sleepingRoot) == nil ==> surrounded(b))
  ensures loose: forallT(b, *Body, b.sleepingRoot == nil ==> b.sleepingNext == nil)

func Body.ActivateStatic(body, filter)
  prop C21
  requires links(body)
  modifies @wake
  loop 0: invariant arb != nil ==> on(arb, body)
  loop 0: invariant forallT(b, *Body, old(allocated(b)) ==> (b.sleepingIdleTime == INFINITY) == (old(b.sleepingIdleTime) == INFINITY) && (b.sleepingRoot == nil || b.sleepingRoot == old(b.sleepingRoot)))
  loop 0: invariant forallT(x, *Arbiter, on(x, body) && (arb == nil || ark(x, body) > ark(arb, body)) && (filter == nil || filter == x.a || filter == x.b) && isdynamic(aother(x, body)) ==> aother(x, body).sleepingRoot == nil && aother(x, body).sleepingIdleTime == 0)
  ensures types: forallT(b, *Body, old(allocated(b)) ==> (b.sleepingIdleTime == INFINITY) == (old(b.sleepingIdleTime) == INFINITY))
  ensures awake: forallT(x, *Arbiter, on(x, body) && (filter == nil || filter == x.a || filter == x.b) && isdynamic(aother(x, body)) ==> aother(x, body).sleepingRoot == nil && aother(x, body).sleepingIdleTime == 0)
