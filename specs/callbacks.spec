// Collision callbacks (C19)
//
// cbn(g): user collision callbacks invoked for arbiter g so far; the other maps log the n-th of them:
// which of the four (0 begin, 1 pre-solve, 2 post-solve, 3 separate), the function, the user data,
// the direction it saw and what it answered.
ghost map cbn(g *Arbiter) int
ghost map cbkind(g *Arbiter, n int) int
ghost map cbcode(g *Arbiter, n int) int
ghost map cbdata(g *Arbiter, n int) int
ghost map cbswap(g *Arbiter, n int) bool
ghost map cbsaid(g *Arbiter, n int) bool
ghost map cbspace(g *Arbiter, n int) int
frame cblog: ghostall(cbn), ghostall(cbkind), ghostall(cbcode), ghostall(cbdata), ghostall(cbswap), ghostall(cbsaid), ghostall(cbspace)
spec told(g *Arbiter, n int, kind int, f int, data int, swapped bool, space *Space) bool = cbkind(g, n) == kind && cbcode(g, n) == f && cbdata(g, n) == data && cbswap(g, n) == swapped && cbspace(g, n) == ref(space)
// nothing but n callbacks of g were logged
spec onlytold(g *Arbiter, n int) bool = cbn(g) == old(cbn(g)) + n && forallT(h, *Arbiter, old(allocated(h)) && h != g ==> cbn(h) == old(cbn(h)))
  && forallT(h, *Arbiter, forallT(k, int, old(allocated(h)) && k < old(cbn(h)) ==> cbkind(h, k) == old(cbkind(h, k)) && cbcode(h, k) == old(cbcode(h, k)) && cbdata(h, k) == old(cbdata(h, k)) && cbswap(h, k) == old(cbswap(h, k)) && cbsaid(h, k) == old(cbsaid(h, k)) && cbspace(h, k) == old(cbspace(h, k))))

functype CollisionBeginFunc(f, g, space, data)
  requires g != nil
  modifies g.state, g.e, g.u, g.surface_vr, g.UserData, @cblog
  ensures once: onlytold(g, 1)
  ensures logged: told(g, old(cbn(g)), 0, ref(f), ref(data), g.swapped, space) && cbsaid(g, old(cbn(g))) == result
functype CollisionPreSolveFunc(f, g, space, data)
  requires g != nil
  modifies g.state, g.e, g.u, g.surface_vr, g.UserData, @cblog
  ensures once: onlytold(g, 1)
  ensures logged: told(g, old(cbn(g)), 1, ref(f), ref(data), g.swapped, space) && cbsaid(g, old(cbn(g))) == result
functype CollisionPostSolveFunc(f, g, space, data)
  requires g != nil
  modifies g.state, g.e, g.u, g.surface_vr, g.UserData, @cblog
  ensures once: onlytold(g, 1)
  ensures logged: told(g, old(cbn(g)), 2, ref(f), ref(data), g.swapped, space)
functype CollisionSeparateFunc(f, g, space, data)
  requires g != nil
  modifies g.state, g.e, g.u, g.surface_vr, g.UserData, @cblog
  ensures once: onlytold(g, 1)
  ensures logged: told(g, old(cbn(g)), 3, ref(f), ref(data), g.swapped, space)

func Arbiter.CallWildcardBeginA(g, space)
  prop C19
  requires g.handlerA != nil
  modifies g.state, g.e, g.u, g.surface_vr, g.UserData, @cblog
  ensures once: onlytold(g, 1)
  ensures logged: told(g, old(cbn(g)), 0, ref(g.handlerA.BeginFunc), ref(g.handlerA.UserData), g.swapped, space) && cbsaid(g, old(cbn(g))) == result


func Arbiter.CallWildcardBeginB(g, space)
  prop C19
  requires g.handlerB != nil
  modifies g.state, g.e, g.u, g.surface_vr, g.UserData, @cblog, g.swapped
  ensures once: onlytold(g, 1)
  ensures logged: told(g, old(cbn(g)), 0, ref(g.handlerB.BeginFunc), ref(g.handlerB.UserData), !g.swapped, space) && cbsaid(g, old(cbn(g))) == result
  ensures restored: g.swapped == old(g.swapped)

func Arbiter.CallWildcardPreSolveA(g, space)
  prop C19
  requires g.handlerA != nil
  modifies g.state, g.e, g.u, g.surface_vr, g.UserData, @cblog
  ensures once: onlytold(g, 1)
  ensures logged: told(g, old(cbn(g)), 1, ref(g.handlerA.PreSolveFunc), ref(g.handlerA.UserData), g.swapped, space) && cbsaid(g, old(cbn(g))) == result


func Arbiter.CallWildcardPreSolveB(g, space)
  prop C19
  requires g.handlerB != nil
  modifies g.state, g.e, g.u, g.surface_vr, g.UserData, @cblog, g.swapped
  ensures once: onlytold(g, 1)
  ensures logged: told(g, old(cbn(g)), 1, ref(g.handlerB.PreSolveFunc), ref(g.handlerB.UserData), !g.swapped, space) && cbsaid(g, old(cbn(g))) == result
  ensures restored: g.swapped == old(g.swapped)

func Arbiter.CallWildcardPostSolveA(g, space)
  prop C19
  requires g.handlerA != nil
  modifies g.state, g.e, g.u, g.surface_vr, g.UserData, @cblog
  ensures once: onlytold(g, 1)
  ensures logged: told(g, old(cbn(g)), 2, ref(g.handlerA.PostSolveFunc), ref(g.handlerA.UserData), g.swapped, space)


func Arbiter.CallWildcardPostSolveB(g, space)
  prop C19
  requires g.handlerB != nil
  modifies g.state, g.e, g.u, g.surface_vr, g.UserData, @cblog, g.swapped
  ensures once: onlytold(g, 1)
  ensures logged: told(g, old(cbn(g)), 2, ref(g.handlerB.PostSolveFunc), ref(g.handlerB.UserData), !g.swapped, space)
  ensures restored: g.swapped == old(g.swapped)

func Arbiter.CallWildcardSeparateA(g, space)
  prop C19
  requires g.handlerA != nil
  modifies g.state, g.e, g.u, g.surface_vr, g.UserData, @cblog
  ensures once: onlytold(g, 1)
  ensures logged: told(g, old(cbn(g)), 3, ref(g.handlerA.SeparateFunc), ref(g.handlerA.UserData), g.swapped, space)


func Arbiter.CallWildcardSeparateB(g, space)
  prop C19
  requires g.handlerB != nil
  modifies g.state, g.e, g.u, g.surface_vr, g.UserData, @cblog, g.swapped
  ensures once: onlytold(g, 1)
  ensures logged: told(g, old(cbn(g)), 3, ref(g.handlerB.SeparateFunc), ref(g.handlerB.UserData), !g.swapped, space)
  ensures restored: g.swapped == old(g.swapped)

func DefaultBegin(g, space, data)
  prop C19
  requires g != nil && g.handlerA != nil && g.handlerB != nil
  modifies g.state, g.e, g.u, g.surface_vr, g.UserData, g.swapped, @cblog
  ensures once: onlytold(g, 2)
  ensures first: told(g, old(cbn(g)), 0, ref(g.handlerA.BeginFunc), ref(g.handlerA.UserData), g.swapped, space)
  ensures second: told(g, old(cbn(g)) + 1, 0, ref(g.handlerB.BeginFunc), ref(g.handlerB.UserData), !g.swapped, space)
  ensures restored: g.swapped == old(g.swapped)
  ensures both: result == (cbsaid(g, old(cbn(g))) && cbsaid(g, old(cbn(g)) + 1))

func DefaultPreSolve(g, space, data)
  prop C19
  requires g != nil && g.handlerA != nil && g.handlerB != nil
  modifies g.state, g.e, g.u, g.surface_vr, g.UserData, g.swapped, @cblog
  ensures once: onlytold(g, 2)
  ensures first: told(g, old(cbn(g)), 1, ref(g.handlerA.PreSolveFunc), ref(g.handlerA.UserData), g.swapped, space)
  ensures second: told(g, old(cbn(g)) + 1, 1, ref(g.handlerB.PreSolveFunc), ref(g.handlerB.UserData), !g.swapped, space)
  ensures restored: g.swapped == old(g.swapped)
  ensures both: result == (cbsaid(g, old(cbn(g))) && cbsaid(g, old(cbn(g)) + 1))

func DefaultPostSolve(g, space, data)
  prop C19
  requires g != nil && g.handlerA != nil && g.handlerB != nil
  modifies g.state, g.e, g.u, g.surface_vr, g.UserData, g.swapped, @cblog
  ensures once: onlytold(g, 2)
  ensures first: told(g, old(cbn(g)), 2, ref(g.handlerA.PostSolveFunc), ref(g.handlerA.UserData), g.swapped, space)
  ensures second: told(g, old(cbn(g)) + 1, 2, ref(g.handlerB.PostSolveFunc), ref(g.handlerB.UserData), !g.swapped, space)
  ensures restored: g.swapped == old(g.swapped)

func DefaultSeparate(g, space, data)
  prop C19
  requires g != nil && g.handlerA != nil && g.handlerB != nil
  modifies g.state, g.e, g.u, g.surface_vr, g.UserData, g.swapped, @cblog
  ensures once: onlytold(g, 2)
  ensures first: told(g, old(cbn(g)), 3, ref(g.handlerA.SeparateFunc), ref(g.handlerA.UserData), g.swapped, space)
  ensures second: told(g, old(cbn(g)) + 1, 3, ref(g.handlerB.SeparateFunc), ref(g.handlerB.UserData), !g.swapped, space)
  ensures restored: g.swapped == old(g.swapped)

func AlwaysCollide(g, space, data)
  prop C19
  ensures always: result

func DoNothing(g, space, data)
  prop C19
  ensures nothing: true

// both bodies are immobile for now: static or asleep
spec atrest(b *Body) bool = isstatic(b) || b.sleepingRoot != nil

func SpaceArbiterSetFilter(g, space)
  prop C19
  requires g != nil && g.body_a != nil && g.body_b != nil && g.handler != nil && space != nil
  modifies g.state, g.e, g.u, g.surface_vr, g.UserData, g.contacts, g.count, @cblog
  ensures resting: old(atrest(g.body_a) && atrest(g.body_b)) ==> result && onlytold(g, 0) && g.state == old(g.state) && g.count == old(g.count) && g.contacts == old(g.contacts)
  ensures ended: !old(atrest(g.body_a) && atrest(g.body_b)) && space.stamp != g.stamp && old(g.state) != CP_ARBITER_STATE_CACHED ==> onlytold(g, 1) && told(g, old(cbn(g)), 3, ref(g.handler.SeparateFunc), ref(g.handler.UserData), g.swapped, space)
  ensures quiet: space.stamp == g.stamp || old(g.state) == CP_ARBITER_STATE_CACHED ==> onlytold(g, 0) && g.state == old(g.state)
  ensures dropped: !old(atrest(g.body_a) && atrest(g.body_b)) ==> result == (mod(space.stamp - old(g.stamp), 18446744073709551616) < space.collisionPersistence)
  ensures emptied: !result ==> g.count == 0 && len(g.contacts) == 0
  ensures kept: result ==> g.count == old(g.count) && g.contacts == old(g.contacts)


spec inpair(g *Arbiter, shape *Shape, body *Body) bool = body == g.body_a && (shape == g.a || shape == nil) || body == g.body_b && (shape == g.b || shape == nil)

func CachedArbitersFilter(g, space, shape, body)
  prop C19
  requires g != nil && space != nil && g.handler != nil && g.body_a != nil && g.body_b != nil
  assumes g.body_a != g.body_b && alist(g.body_a) && alist(g.body_b)
  assumes (!on(g, g.body_a) ==> g.thread_a.prev == nil && g.thread_a.next == nil) && (!on(g, g.body_b) ==> g.thread_b.prev == nil && g.thread_b.next == nil)
  modifies g.state, g.e, g.u, g.surface_vr, g.UserData, @cblog, g.body_a.arbiterList, g.body_b.arbiterList, all(Arbiter.thread_a), all(Arbiter.thread_b), on(g, g.body_a), on(g, g.body_b), space.arbiters, elems(space.arbiters)
  loop 0: invariant 0 <= LI && LI <= len(space.arbiters) && forall(k, 0, LI, space.arbiters[k] != g)
  ensures match: result == !inpair(g, shape, body)
  ensures separate: inpair(g, shape, body) && shape != nil && old(g.state) != CP_ARBITER_STATE_CACHED ==> onlytold(g, 1) && told(g, old(cbn(g)), 3, ref(g.handler.SeparateFunc), ref(g.handler.UserData), g.swapped, space)
  ensures silent: !(inpair(g, shape, body) && shape != nil && old(g.state) != CP_ARBITER_STATE_CACHED) ==> onlytold(g, 0) && g.state == old(g.state)
  ensures unthreaded: inpair(g, shape, body) ==> !on(g, g.body_a) && !on(g, g.body_b) && alist(g.body_a) && alist(g.body_b)
  ensures untouched: !inpair(g, shape, body) ==> len(space.arbiters) == old(len(space.arbiters)) && forall(k, 0, len(space.arbiters), space.arbiters[k] == old(space.arbiters[k]))
  ensures unlisted: inpair(g, shape, body) ==> forall(i, 0, old(len(space.arbiters)), old(space.arbiters[i]) == g && forall(k, 0, i, old(space.arbiters[k]) != g) ==> len(space.arbiters) == old(len(space.arbiters)) - 1 && forall(k, 0, i, space.arbiters[k] == old(space.arbiters[k])) && forall(k, i, len(space.arbiters), space.arbiters[k] == old(space.arbiters[k + 1])))
  ensures absent: forall(k, 0, old(len(space.arbiters)), old(space.arbiters[k]) != g) ==> len(space.arbiters) == old(len(space.arbiters)) && forall(k, 0, len(space.arbiters), space.arbiters[k] == old(space.arbiters[k]))
