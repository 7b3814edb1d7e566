// Contacts and arbiters (C11, C18, C29, C30)

spec arbok(g *Arbiter) bool = g.body_a != nil && g.body_b != nil && g.body_a != g.body_b && 0 <= g.count && g.count <= 2 && g.count <= len(g.contacts)
// impulse held by contact i, in world coordinates
spec cimp(g *Arbiter, i int) Vector = rotate(g.n, Vector{g.contacts[i].jnAcc, g.contacts[i].jtAcc})
spec capp(g *Arbiter, i int) Vector = ite(i < g.count, rotate(g.n, Vector{g.contacts[i].jnAcc - old(g.contacts[i].jnAcc), g.contacts[i].jtAcc - old(g.contacts[i].jtAcc)}), Vector{0, 0})
spec cbias(g *Arbiter, i int) Vector = ite(i < g.count, (g.contacts[i].jBias - old(g.contacts[i].jBias))*g.n, Vector{0, 0})
spec samecontact(g *Arbiter, i int) bool = g.contacts[i].r1 == old(g.contacts[i].r1) && g.contacts[i].r2 == old(g.contacts[i].r2) && g.contacts[i].hash == old(g.contacts[i].hash)

func Arbiter.Init(g, a, b)
  prop C30
  requires a != nil && b != nil
  modifies *g
  ensures pair: result == g && g.a == a && g.b == b && g.body_a == a.body && g.body_b == b.body
  ensures empty: g.count == 0 && len(g.contacts) == 0 && g.stamp == 0 && g.state == CP_ARBITER_STATE_FIRST_COLLISION && !g.swapped
  ensures unlinked: g.thread_a.next == nil && g.thread_a.prev == nil && g.thread_b.next == nil && g.thread_b.prev == nil
  ensures zero: g.e == 0 && g.u == 0 && g.surface_vr == Vector{0, 0} && g.handler == nil && g.handlerA == nil && g.handlerB == nil

func Arbiter.IsFirstContact(g)
  prop C11 C29
  ensures val: result == (g.state == CP_ARBITER_STATE_FIRST_COLLISION)

func Arbiter.Ignore(g)
  prop C19
  modifies g.state
  ensures ignored: g.state == CP_ARBITER_STATE_IGNORE && !result

func Arbiter.ApplyCachedImpulse(g, dt_coef)
  prop C11
  requires arbok(g)
  modifies g.body_a.v, g.body_a.w, g.body_b.v, g.body_b.w
  loop 0: unroll 2
  ensures first: g.state == CP_ARBITER_STATE_FIRST_COLLISION ==> g.body_a.v == old(g.body_a.v) && g.body_a.w == old(g.body_a.w) && g.body_b.v == old(g.body_b.v) && g.body_b.w == old(g.body_b.w)
  ensures push: g.state != CP_ARBITER_STATE_FIRST_COLLISION ==> let(j0, ite(g.count > 0, dt_coef*cimp(g, 0), Vector{0, 0}), let(j1, ite(g.count > 1, dt_coef*cimp(g, 1), Vector{0, 0}), g.body_b.v == old(g.body_b.v) + g.body_b.m_inv*(j0 + j1) && g.body_a.v == old(g.body_a.v) - g.body_a.m_inv*(j0 + j1) && g.body_b.w == old(g.body_b.w) + g.body_b.i_inv*(cross(g.contacts[0].r2, j0) + cross(g.contacts[1].r2, j1)) && g.body_a.w == old(g.body_a.w) - g.body_a.i_inv*(cross(g.contacts[0].r1, j0) + cross(g.contacts[1].r1, j1))))

func Arbiter.ApplyImpulse(g)
  prop C11
  requires arbok(g)
  requires g.u >= 0
  modifies g.body_a.v, g.body_a.w, g.body_b.v, g.body_b.w, g.body_a.v_bias, g.body_a.w_bias, g.body_b.v_bias, g.body_b.w_bias, elems(g.contacts)
  option merge; timeout 20
  loop 0: unroll 2
  ensures keep: forall(i, 0, len(g.contacts), samecontact(g, i) && g.contacts[i].nMass == old(g.contacts[i].nMass) && g.contacts[i].tMass == old(g.contacts[i].tMass) && g.contacts[i].bias == old(g.contacts[i].bias) && g.contacts[i].bounce == old(g.contacts[i].bounce))
  ensures onlypush: forall(i, 0, g.count, g.contacts[i].jnAcc >= 0 && g.contacts[i].jBias >= 0)
  ensures friction: forall(i, 0, g.count, abs(g.contacts[i].jtAcc) <= g.u*g.contacts[i].jnAcc)
  ensures linear: g.body_b.v == old(g.body_b.v) + g.body_b.m_inv*(capp(g, 0) + capp(g, 1)) && g.body_a.v == old(g.body_a.v) - g.body_a.m_inv*(capp(g, 0) + capp(g, 1))
  ensures angular: g.body_b.w == old(g.body_b.w) + g.body_b.i_inv*(cross(g.contacts[0].r2, capp(g, 0)) + cross(g.contacts[1].r2, capp(g, 1))) && g.body_a.w == old(g.body_a.w) - g.body_a.i_inv*(cross(g.contacts[0].r1, capp(g, 0)) + cross(g.contacts[1].r1, capp(g, 1)))
  ensures biaslin: g.body_b.v_bias == old(g.body_b.v_bias) + g.body_b.m_inv*(cbias(g, 0) + cbias(g, 1)) && g.body_a.v_bias == old(g.body_a.v_bias) - g.body_a.m_inv*(cbias(g, 0) + cbias(g, 1))
  ensures biasang: g.body_b.w_bias == old(g.body_b.w_bias) + g.body_b.i_inv*(cross(g.contacts[0].r2, cbias(g, 0)) + cross(g.contacts[1].r2, cbias(g, 1))) && g.body_a.w_bias == old(g.body_a.w_bias) - g.body_a.i_inv*(cross(g.contacts[0].r1, cbias(g, 0)) + cross(g.contacts[1].r1, cbias(g, 1)))
  ensures bounce: g.count == 1 && unit(g.n) && old(g.contacts[0].jtAcc) == 0 && g.u == 0 && g.contacts[0].jnAcc > 0 && g.contacts[0].nMass*kpair(g.body_a, g.body_b, g.contacts[0].r1, g.contacts[0].r2, g.n) == 1 ==> dot(relvel(g.body_a, g.body_b, g.contacts[0].r1, g.contacts[0].r2) + g.surface_vr, g.n) == -g.contacts[0].bounce

func Arbiter.PreStep(g, dt, slop, bias)
  prop C11
  requires arbok(g)
  requires dt != 0
  modifies elems(g.contacts)
  option nodef
  loop 0: unroll 2
  ensures keep: forall(i, 0, len(g.contacts), samecontact(g, i) && g.contacts[i].jnAcc == old(g.contacts[i].jnAcc) && g.contacts[i].jtAcc == old(g.contacts[i].jtAcc))
  ensures nmass: forall(i, 0, g.count, kpair(g.body_a, g.body_b, g.contacts[i].r1, g.contacts[i].r2, g.n) != 0 ==> g.contacts[i].nMass*kpair(g.body_a, g.body_b, g.contacts[i].r1, g.contacts[i].r2, g.n) == 1)
  ensures tmass: forall(i, 0, g.count, kpair(g.body_a, g.body_b, g.contacts[i].r1, g.contacts[i].r2, perp(g.n)) != 0 ==> g.contacts[i].tMass*kpair(g.body_a, g.body_b, g.contacts[i].r1, g.contacts[i].r2, perp(g.n)) == 1)
  ensures bias: forall(i, 0, g.count, g.contacts[i].jBias == 0 && g.contacts[i].bias*dt == -bias*min(0, dot(g.body_b.p + g.contacts[i].r2 - g.body_a.p - g.contacts[i].r1, g.n) + slop))
  ensures bounce: forall(i, 0, g.count, g.contacts[i].bounce == g.e*dot(relvel(g.body_a, g.body_b, g.contacts[i].r1, g.contacts[i].r2), g.n))

func Arbiter.Count(g)
  prop C29
  ensures val: result == ite(g.state < CP_ARBITER_STATE_CACHED, g.count, 0)

func Arbiter.Shapes(g)
  prop C29
  ensures order: result0 == ite(g.swapped, g.b, g.a) && result1 == ite(g.swapped, g.a, g.b)

func Arbiter.Bodies(g)
  prop C29
  requires g.a != nil && g.b != nil
  ensures order: result0 == ite(g.swapped, g.b, g.a).body && result1 == ite(g.swapped, g.a, g.b).body

func Arbiter.Normal(g)
  prop C29
  ensures sign: result == ite(g.swapped, -1*g.n, g.n)

func Arbiter.TotalImpulse(g)
  prop C29
  requires arbok(g)
  loop 0: unroll 2
  ensures sum: let(k, ite(g.state < CP_ARBITER_STATE_CACHED, g.count, 0), result == ite(g.swapped, 1, -1)*(ite(k > 0, cimp(g, 0), Vector{0, 0}) + ite(k > 1, cimp(g, 1), Vector{0, 0})))

func Arbiter.ContactPointSet(g)
  prop C29
  requires arbok(g)
  loop 0: unroll 2
  ensures count: result.Count == ite(g.state < CP_ARBITER_STATE_CACHED, g.count, 0)
  ensures normal: result.Normal == ite(g.swapped, -1*g.n, g.n)
  ensures points: forall(i, 0, result.Count, let(p, g.body_a.p + g.contacts[i].r1, let(q, g.body_b.p + g.contacts[i].r2, result.Points[i].PointA == ite(g.swapped, q, p) && result.Points[i].PointB == ite(g.swapped, p, q) && result.Points[i].Distance == dot(q - p, g.n))))

func Arbiter.SetContactPointSet(g, set)
  prop C29
  requires arbok(g)
  requires set != nil && 0 <= set.Count && set.Count <= 2 && set.Count <= len(g.contacts)
  modifies g.n, elems(g.contacts)
  loop 0: unroll 2
  ensures keep: forall(i, 0, len(g.contacts), g.contacts[i].jnAcc == old(g.contacts[i].jnAcc) && g.contacts[i].jtAcc == old(g.contacts[i].jtAcc) && g.contacts[i].hash == old(g.contacts[i].hash) && g.contacts[i].jBias == old(g.contacts[i].jBias) && g.contacts[i].nMass == old(g.contacts[i].nMass) && g.contacts[i].tMass == old(g.contacts[i].tMass) && g.contacts[i].bias == old(g.contacts[i].bias) && g.contacts[i].bounce == old(g.contacts[i].bounce))
  ensures normal: g.n == ite(g.swapped, -1*set.Normal, set.Normal)
  ensures points: forall(i, 0, set.Count, g.body_a.p + g.contacts[i].r1 == ite(g.swapped, set.Points[i].PointB, set.Points[i].PointA) && g.body_b.p + g.contacts[i].r2 == ite(g.swapped, set.Points[i].PointA, set.Points[i].PointB))
  ensures rest: forall(i, set.Count, len(g.contacts), g.contacts[i].r1 == old(g.contacts[i].r1) && g.contacts[i].r2 == old(g.contacts[i].r2))
  ensures roundtrip: set.Normal == ite(g.swapped, -1*old(g.n), old(g.n)) && forall(i, 0, set.Count, set.Points[i].PointA == ite(g.swapped, g.body_b.p + old(g.contacts[i].r2), g.body_a.p + old(g.contacts[i].r1)) && set.Points[i].PointB == ite(g.swapped, g.body_a.p + old(g.contacts[i].r1), g.body_b.p + old(g.contacts[i].r2))) ==> g.n == old(g.n) && forall(i, 0, set.Count, g.contacts[i].r1 == old(g.contacts[i].r1) && g.contacts[i].r2 == old(g.contacts[i].r2))

// the handlers of a space are stored under the hash of their two types; two keys are equal when the types agree in either order
spec fortypes(h *CollisionHandler, a uintptr, b uintptr) bool = h.TypeA == a && h.TypeB == b || h.TypeA == b && h.TypeB == a
ghost const regbin *HashSetBin[*CollisionHandler]
func Space.LookupHandler(space, a, b, defaultHandler)
  prop C19
  assumes space.collisionHandlers != nil && hashshape(space.collisionHandlers)
  assumes hashed: inset(regbin, space.collisionHandlers) ==> allocated(regbin.elt) && regbin.elt != nil && regbin.hash == code(HashPair, regbin.elt.TypeA, regbin.elt.TypeB)
  assumes exit equal: forallT(p, *CollisionHandler, forallT(h, *CollisionHandler, p != nil && h != nil ==> callfn("HashSet.isEqual", space.collisionHandlers.isEqual, p, h) == fortypes(h, p.TypeA, p.TypeB)))
  ensures found: result == defaultHandler || result != nil && fortypes(result, a, b) && existsT(r, *HashSetBin[*CollisionHandler], inset(r, space.collisionHandlers) && r.elt == result)
  ensures registered: old(allocated(regbin)) && regbin != nil && inset(regbin, space.collisionHandlers) && fortypes(regbin.elt, a, b) ==> result != nil && fortypes(result, a, b)

spec carried(g *Arbiter, i int) bool = exists(j, 0, old(g.count), old(g.contacts)[j].hash == g.contacts[i].hash)

func Arbiter.Update(g, info, space)
  prop C30
  requires info != nil && space != nil && info.a != nil && info.b != nil && info.a.body != nil && info.b.body != nil
  requires 0 <= info.count && info.count <= 2 && info.count <= len(info.arr)
  requires 0 <= g.count && g.count <= len(g.contacts)
  requires space.collisionHandlers != nil && space.defaultHandler != nil && space.defaultHandler.TypeA == WILDCARD_COLLISION_TYPE
  requires apart: g.count == 0 || arr(info.arr) != arr(g.contacts)
  modifies *g, elems(info.arr)
  option merge
  loop 0: unroll 2
  loop 1: invariant 0 <= LI && LI <= g.count
  loop 1: invariant none: forall(j, 0, LI, g.contacts[j].hash != con.hash) ==> con.jnAcc == 0 && con.jtAcc == 0
  loop 1: invariant some: exists(j, 0, LI, g.contacts[j].hash == con.hash) ==> exists(j, 0, LI, g.contacts[j].hash == con.hash && con.jnAcc == g.contacts[j].jnAcc && con.jtAcc == g.contacts[j].jtAcc)
  ensures pair: g.a == info.a && g.b == info.b && g.body_a == info.a.body && g.body_b == info.b.body && g.n == info.n
  ensures contacts: g.count == info.count && len(g.contacts) == info.count && arr(g.contacts) == arr(info.arr)
  ensures relative: forall(i, 0, g.count, g.contacts[i].r1 == old(info.arr[i].r1) - g.body_a.p && g.contacts[i].r2 == old(info.arr[i].r2) - g.body_b.p && g.contacts[i].hash == old(info.arr[i].hash))
  ensures coefficients: g.e == info.a.e*info.b.e && g.u == info.a.u*info.b.u
  ensures surface: let(v, info.b.surfaceV - info.a.surfaceV, g.surface_vr == v - dot(v, g.n)*g.n)
  ensures fresh: forall(i, 0, g.count, forall(j, 0, old(g.count), old(g.contacts[j].hash) != g.contacts[i].hash) ==> g.contacts[i].jnAcc == 0 && g.contacts[i].jtAcc == 0)
  ensures carried: forall(i, 0, g.count, exists(j, 0, old(g.count), old(g.contacts[j].hash) == g.contacts[i].hash) ==> exists(j, 0, old(g.count), old(g.contacts[j].hash) == g.contacts[i].hash && g.contacts[i].jnAcc == old(g.contacts[j].jnAcc) && g.contacts[i].jtAcc == old(g.contacts[j].jtAcc)))
  ensures state: g.state == ite(old(g.state) == CP_ARBITER_STATE_CACHED, CP_ARBITER_STATE_FIRST_COLLISION, old(g.state))
  ensures swapped: g.swapped == (info.a.collisionType != g.handler.TypeA && g.handler.TypeA != WILDCARD_COLLISION_TYPE)
  ensures <C19> handler: g.handler == space.defaultHandler || g.handler != nil && fortypes(g.handler, info.a.collisionType, info.b.collisionType)
  ensures <C19> wildfirst: g.handler != space.defaultHandler || space.usesWildcards ==> (same(g.handlerA, addr(CollisionHandlerDoNothing)) || fortypes(g.handlerA, ite(g.swapped, info.b.collisionType, info.a.collisionType), WILDCARD_COLLISION_TYPE))
  ensures <C19> wildsecond: g.handler != space.defaultHandler || space.usesWildcards ==> (same(g.handlerB, addr(CollisionHandlerDoNothing)) || fortypes(g.handlerB, ite(g.swapped, info.a.collisionType, info.b.collisionType), WILDCARD_COLLISION_TYPE))
  ensures keeps: g.stamp == old(g.stamp) && g.thread_a == old(g.thread_a) && g.thread_b == old(g.thread_b)
