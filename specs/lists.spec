// Contact and joint lists of bodies (C18) and collision filtering (C07).
//
// on(x, b): contact x is linked into b's list; ark orders the linked contacts (front of the list first).
// con(c, b), crk: the same for joints.
ghost map on(x *Arbiter, b *Body) bool
ghost map ark(x *Arbiter, b *Body) int
ghost map con(c *Constraint, b *Body) bool
ghost map crk(c *Constraint, b *Body) int

spec anext(x *Arbiter, b *Body) *Arbiter = ite(x.body_a == b, x.thread_a.next, x.thread_b.next)
spec aprev(x *Arbiter, b *Body) *Arbiter = ite(x.body_a == b, x.thread_a.prev, x.thread_b.prev)
spec about(x *Arbiter, b *Body) bool = x != nil && (x.body_a == b || x.body_b == b) && x.body_a != x.body_b
spec ahead(b *Body, h *Arbiter) bool = (h != nil ==> on(h, b) && aprev(h, b) == nil) && forallT(x, *Arbiter, on(x, b) ==> h != nil && ark(x, b) <= ark(h, b))
spec asorted(b *Body) bool = forallT(x, *Arbiter, forallT(y, *Arbiter, on(x, b) && on(y, b) ==> (ark(x, b) == ark(y, b) ==> x == y) && (ark(y, b) < ark(x, b) ==> anext(x, b) != nil && ark(y, b) <= ark(anext(x, b), b))))
spec alinks(b *Body) bool = forallT(x, *Arbiter, on(x, b) ==> about(x, b)
   && (anext(x, b) != nil ==> on(anext(x, b), b) && aprev(anext(x, b), b) == x && ark(anext(x, b), b) < ark(x, b))
   && (aprev(x, b) != nil ==> on(aprev(x, b), b) && anext(aprev(x, b), b) == x && ark(x, b) < ark(aprev(x, b), b))
   && (aprev(x, b) == nil ==> b.arbiterList == x))
spec alist(b *Body) bool = ahead(b, b.arbiterList) && alinks(b) && asorted(b)

func Arbiter.Next(node, body)
  prop C18
  option noalloc
  ensures result: result == anext(node, body)

func Arbiter.ThreadForBody(arbiter, body)
  prop C18
  option inline

func Body.PushArbiter(body, arb)
  prop C18
  option noalloc
  requires alist(body) && arb != nil && about(arb, body) && !on(arb, body) && aprev(arb, body) == nil
  modifies body.arbiterList, arb.thread_a.next, arb.thread_b.next, body.arbiterList.thread_a.prev, body.arbiterList.thread_b.prev, on(arb, body), ark(arb, body)
  set on(arb, body) := true
  set ark(arb, body) := ite(old(body.arbiterList) == nil, 0, ark(old(body.arbiterList), body) + 1)
  ensures head: body.arbiterList == arb && on(arb, body)
  ensures next: anext(arb, body) == old(body.arbiterList)
  ensures list: alist(body)
  ensures others: forallT(x, *Arbiter, x != nil ==> (x.body_a != body ==> x.thread_a == old(x.thread_a)) && (x.body_b != body ==> x.thread_b == old(x.thread_b)))

func Arbiter.unthreadHelper(arbiter, body)
  prop C18
  option noalloc
  requires alist(body) && about(arbiter, body) && (!on(arbiter, body) ==> aprev(arbiter, body) == nil && anext(arbiter, body) == nil)
  modifies body.arbiterList, arbiter.thread_a, arbiter.thread_b, all(Arbiter.thread_a), all(Arbiter.thread_b), on(arbiter, body)
  set on(arbiter, body) := false
  ensures gone: !on(arbiter, body) && anext(arbiter, body) == nil && aprev(arbiter, body) == nil
  ensures list: alist(body)
  ensures others: forallT(x, *Arbiter, x != nil ==> (x.body_a != body ==> x.thread_a == old(x.thread_a)) && (x.body_b != body ==> x.thread_b == old(x.thread_b)))
  ensures step0: forallT(c, *Body, forallT(x, *Arbiter, c != body && old(alist(c)) && on(x, c) ==> about(x, c) && old(about(x, c)) && anext(x, c) == old(anext(x, c)) && aprev(x, c) == old(aprev(x, c))))
  ensures keeps: forallT(c, *Body, c != body && old(alist(c)) ==> alist(c))
  ensures order: forallT(x, *Arbiter, x != arbiter && on(x, body) && old(anext(x, body)) != arbiter ==> anext(x, body) == old(anext(x, body)))

func Arbiter.Unthread(arbiter)
  prop C18
  option noalloc
  requires arbiter.body_a != nil && arbiter.body_b != nil && arbiter.body_a != arbiter.body_b && alist(arbiter.body_a) && alist(arbiter.body_b)
  requires !on(arbiter, arbiter.body_a) ==> arbiter.thread_a.prev == nil && arbiter.thread_a.next == nil
  requires !on(arbiter, arbiter.body_b) ==> arbiter.thread_b.prev == nil && arbiter.thread_b.next == nil
  modifies arbiter.body_a.arbiterList, arbiter.body_b.arbiterList, all(Arbiter.thread_a), all(Arbiter.thread_b), on(arbiter, arbiter.body_a), on(arbiter, arbiter.body_b)
  ensures gone: !on(arbiter, arbiter.body_a) && !on(arbiter, arbiter.body_b) && arbiter.thread_a.next == nil && arbiter.thread_a.prev == nil && arbiter.thread_b.next == nil && arbiter.thread_b.prev == nil
  ensures lists: alist(arbiter.body_a) && alist(arbiter.body_b)
  ensures others: forallT(x, *Arbiter, x != nil ==> (x.body_a != arbiter.body_a && x.body_a != arbiter.body_b ==> x.thread_a == old(x.thread_a)) && (x.body_b != arbiter.body_a && x.body_b != arbiter.body_b ==> x.thread_b == old(x.thread_b)))

// ---- joints
spec cnext(c *Constraint, b *Body) *Constraint = ite(c.a == b, c.next_a, c.next_b)
spec joined(c *Constraint, b *Body) bool = c != nil && (c.a == b || c.b == b) && c.a != c.b
spec csorted(b *Body) bool = forallT(x, *Constraint, forallT(y, *Constraint, con(x, b) && con(y, b) ==> (crk(x, b) == crk(y, b) ==> x == y) && (crk(y, b) < crk(x, b) ==> cnext(x, b) != nil && crk(y, b) <= crk(cnext(x, b), b))))
spec clinks(b *Body) bool = forallT(x, *Constraint, con(x, b) ==> joined(x, b) && (cnext(x, b) != nil ==> con(cnext(x, b), b) && crk(cnext(x, b), b) < crk(x, b)))
spec chead(b *Body, h *Constraint) bool = (h != nil ==> con(h, b)) && forallT(x, *Constraint, con(x, b) ==> h != nil && crk(x, b) <= crk(h, b))
spec clist(b *Body) bool = chead(b, b.constraintList) && clinks(b) && csorted(b)

func Constraint.Next(c, body)
  prop C18
  option noalloc
  ensures result: result == cnext(c, body)

func filterConstraints(node, body, filter)
  prop C18
  option noalloc
  requires body != nil && clinks(body) && csorted(body) && filter != nil && con(filter, body) && node != nil && con(node, body) && crk(filter, body) <= crk(node, body)
  modifies all(Constraint.next_a), all(Constraint.next_b)
  ensures result: result == ite(node == filter, old(cnext(filter, body)), node)
  ensures cut: forallT(x, *Constraint, con(x, body) && crk(x, body) <= crk(node, body) ==> cnext(x, body) == ite(old(cnext(x, body)) == filter, old(cnext(filter, body)), old(cnext(x, body))))
  ensures before: forallT(x, *Constraint, con(x, body) && crk(x, body) > crk(node, body) ==> cnext(x, body) == old(cnext(x, body)))
  ensures others: forallT(x, *Constraint, x != nil ==> (x.a != body ==> x.next_a == old(x.next_a)) && (x.b != body ==> x.next_b == old(x.next_b)))

func Body.RemoveConstraint(body, constraint)
  prop C18
  option noalloc
  requires clist(body) && constraint != nil && con(constraint, body)
  modifies body.constraintList, all(Constraint.next_a), all(Constraint.next_b), con(constraint, body)
  set con(constraint, body) := false
  ensures gone: !con(constraint, body)
  ensures list: clist(body)
  ensures others: forallT(x, *Constraint, x != nil ==> (x.a != body ==> x.next_a == old(x.next_a)) && (x.b != body ==> x.next_b == old(x.next_b)))

// ---- filtering
spec rejects(a ShapeFilter, b ShapeFilter) bool = a.Group != 0 && a.Group == b.Group || a.Categories & b.Mask == 0 || b.Categories & a.Mask == 0

func ShapeFilter.Reject(a, b)
  prop C07
  option noalloc
  ensures exact: result == rejects(a, b)
  ensures symmetric: result == rejects(b, a)

spec overlapping(a BB, b BB) bool = a.L <= b.R && b.L <= a.R && a.B <= b.T && b.B <= a.T
spec joins(c *Constraint, a *Body, b *Body) bool = c.a == a && c.b == b || c.a == b && c.b == a
spec barred(a *Body, b *Body) bool = existsT(c, *Constraint, con(c, a) && !c.collideBodies && joins(c, a, b))

func QueryRejectConstraints(a, b)
  prop C07
  option noalloc
  requires clist(a) && b != nil
  loop 0: invariant constraint != nil ==> con(constraint, a)
  loop 0: invariant forallT(c, *Constraint, con(c, a) && (constraint == nil || crk(c, a) > crk(constraint, a)) ==> c.collideBodies || !joins(c, a, b))
  ensures exact: result == barred(a, b)
  ensures symmetric: forallT(c, *Constraint, joins(c, a, b) ==> con(c, a) == con(c, b)) ==> result == barred(b, a)

func QueryReject(a, b)
  prop C07
  option noalloc
  requires a != nil && b != nil && a.body != nil && b.body != nil && clist(a.body)
  requires forallT(c, *Constraint, joins(c, a.body, b.body) ==> con(c, a.body) == con(c, b.body))
  ensures exact: result == (a.body == b.body || rejects(a.Filter, b.Filter) || !overlapping(a.bb, b.bb) || barred(a.body, b.body))
  ensures symmetric: result == (b.body == a.body || rejects(b.Filter, a.Filter) || !overlapping(b.bb, a.bb) || barred(b.body, a.body))

func Space.AddConstraint(space, constraint)
  prop C18 C22
  requires constraint != nil && constraint.a != nil && constraint.b != nil && constraint.a != constraint.b
  requires clist(constraint.a) && clist(constraint.b) && !con(constraint, constraint.a) && !con(constraint, constraint.b)
  modifies @wake, space.constraints, elems(space.constraints), constraint.next_a, constraint.next_b, constraint.space, constraint.a.constraintList, constraint.b.constraintList, con(constraint, constraint.a), con(constraint, constraint.b), crk(constraint, constraint.a), crk(constraint, constraint.b)
  set con(constraint, constraint.a) := true
  set con(constraint, constraint.b) := true
  set crk(constraint, constraint.a) := ite(old(constraint.a.constraintList) == nil, 0, crk(old(constraint.a.constraintList), constraint.a) + 1)
  set crk(constraint, constraint.b) := ite(old(constraint.b.constraintList) == nil, 0, crk(old(constraint.b.constraintList), constraint.b) + 1)
  ensures result: result == constraint && constraint.space == space
  ensures heads: constraint.a.constraintList == constraint && constraint.b.constraintList == constraint && con(constraint, constraint.a) && con(constraint, constraint.b)
  ensures lists: clist(constraint.a) && clist(constraint.b)
  ensures stepped: len(space.constraints) > 0 && space.constraints[len(space.constraints) - 1] == constraint

func Space.RemoveConstraint(space, constraint)
  prop C18 C22
  requires constraint != nil && constraint.a != nil && constraint.b != nil && constraint.a != constraint.b
  requires clist(constraint.a) && clist(constraint.b) && con(constraint, constraint.a) && con(constraint, constraint.b)
  modifies @wake, space.constraints, elems(space.constraints), all(Constraint.next_a), all(Constraint.next_b), constraint.space, constraint.a.constraintList, constraint.b.constraintList, con(constraint, constraint.a), con(constraint, constraint.b)
  ensures gone: constraint.space == nil && !con(constraint, constraint.a) && !con(constraint, constraint.b)
  ensures lists: clist(constraint.a) && clist(constraint.b)
