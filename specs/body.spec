// Bodies: frames, setters, forces, integration, mass (C08, C09, C10)

func Body.GetType(body)
  prop C08 C21 C22
  option noalloc
  ensures type: result == ite(isstatic(body), 2, ite(iskinematic(body), 1, 0))

func Body.SetTransform(body, p, a)
  prop C09
  modifies body.transform
  ensures rigid: rigid(body.transform)
  ensures rotation: body.transform.a == cos(a) && body.transform.b == sin(a)
  ensures centre: mulp(body.transform, body.cog) == p

func Body.SetAngle(body, angle)
  prop C09 C21
  modifies @wake, body.a, body.transform
  ensures still: isstatic(body) == old(isstatic(body))
  ensures angle: body.a == angle
  ensures rotation: rigid(body.transform) && body.transform.a == cos(angle) && body.transform.b == sin(angle)
  ensures centre: mulp(body.transform, body.cog) == body.p
  ensures <C21> wakes: roused(body)

func Body.Angle(body)
  prop C09
  ensures read: result == body.a

func Body.Rotation(body)
  prop C09
  ensures read: result == Vector{body.transform.a, body.transform.b}

func Body.Position(body)
  prop C09
  ensures origin: result == mulp(body.transform, Vector{0, 0})

func Body.SetPosition(body, position)
  prop C09 C21
  requires body.transform.a == cos(body.a) && body.transform.b == sin(body.a) && rigid(body.transform)
  modifies @wake, body.p, body.transform
  ensures still: isstatic(body) == old(isstatic(body))
  ensures position: mulp(body.transform, Vector{0, 0}) == position
  ensures rotation: rigid(body.transform) && body.transform.a == cos(body.a) && body.transform.b == sin(body.a)
  ensures centre: mulp(body.transform, body.cog) == body.p
  ensures <C21> wakes: roused(body)

func Body.Velocity(body)
  prop C09
  ensures read: result == body.v

func Body.SetVelocity(body, x, y)
  prop C09 C21
  modifies @wake, body.v
  ensures still: isstatic(body) == old(isstatic(body))
  ensures set: body.v == Vector{x, y}
  ensures <C21> wakes: roused(body)

func Body.SetVelocityVector(body, v)
  prop C09 C21
  modifies @wake, body.v
  ensures still: isstatic(body) == old(isstatic(body))
  ensures set: body.v == v
  ensures <C21> wakes: roused(body)

func Body.AngularVelocity(body)
  prop C09
  ensures read: result == body.w

func Body.SetAngularVelocity(body, w)
  prop C09 C21
  modifies @wake, body.w
  ensures still: isstatic(body) == old(isstatic(body))
  ensures set: body.w == w
  ensures <C21> wakes: roused(body)

func Body.Force(body)
  prop C09
  ensures read: result == body.f

func Body.SetForce(body, f)
  prop C09 C21
  modifies @wake, body.f
  ensures still: isstatic(body) == old(isstatic(body))
  ensures set: body.f == f
  ensures <C21> wakes: roused(body)

func Body.Torque(body)
  prop C09
  ensures read: result == body.t

func Body.SetTorque(body, t)
  prop C09 C21
  modifies @wake, body.t
  ensures still: isstatic(body) == old(isstatic(body))
  ensures set: body.t == t
  ensures <C21> wakes: roused(body)

func Body.CenterOfGravity(body)
  prop C09
  ensures read: result == body.cog

func Body.Mass(body)
  prop C08 C09
  ensures read: result == body.m

func Body.Moment(body)
  prop C08 C09
  ensures read: result == body.i

func Body.SetMass(body, m)
  prop C08 C09 C21
  option nodef
  modifies @wake, body.m, body.m_inv
  ensures still: isstatic(body) == old(isstatic(body))
  ensures set: body.m == m
  ensures inverse: m != 0 ==> body.m*body.m_inv == 1
  ensures <C21> wakes: roused(body)

func Body.SetMoment(body, m)
  prop C08 C09 C21
  option nodef
  modifies @wake, body.i, body.i_inv
  ensures still: isstatic(body) == old(isstatic(body))
  ensures set: body.i == m
  ensures inverse: m != 0 ==> body.i*body.i_inv == 1
  ensures <C21> wakes: roused(body)

func Body.LocalToWorld(body, p)
  prop C09
  ensures map: result == mulp(body.transform, p)
  ensures inverse: rigid(body.transform) ==> forallT(q, Vector, (p == unrotate(q - Vector{body.transform.tx, body.transform.ty}, Vector{body.transform.a, body.transform.b})) == (result == q))

func Body.WorldToLocal(body, p)
  prop C09
  requires rigid(body.transform)
  ensures back: mulp(body.transform, result) == p
  ensures only: forallT(q, Vector, mulp(body.transform, q) == p ==> q == result)

func Body.ApplyForceAtWorldPoint(body, force, point)
  prop C09 C21
  modifies @wake, body.f, body.t
  ensures still: isstatic(body) == old(isstatic(body))
  ensures linear: body.f == old(body.f) + force
  ensures moment: body.t == old(body.t) + cross(point - mulp(body.transform, body.cog), force)
  ensures <C21> wakes: roused(body)

func Body.ApplyForceAtLocalPoint(body, force, point)
  prop C09 C21
  modifies @wake, body.f, body.t
  ensures still: isstatic(body) == old(isstatic(body))
  ensures linear: body.f == old(body.f) + mulv(body.transform, force)
  ensures moment: body.t == old(body.t) + cross(mulv(body.transform, point - body.cog), mulv(body.transform, force))
  ensures <C21> wakes: roused(body)

func Body.ApplyImpulseAtWorldPoint(body, j, point)
  prop C09 C21
  modifies @wake, body.v, body.w
  ensures still: isstatic(body) == old(isstatic(body))
  ensures linear: body.v == old(body.v) + body.m_inv*j
  ensures angular: body.w == old(body.w) + body.i_inv*cross(point - mulp(body.transform, body.cog), j)
  ensures <C21> wakes: roused(body)

func Body.ApplyImpulseAtLocalPoint(body, j, point)
  prop C09 C21
  modifies @wake, body.v, body.w
  ensures still: isstatic(body) == old(isstatic(body))
  ensures linear: body.v == old(body.v) + body.m_inv*mulv(body.transform, j)
  ensures angular: body.w == old(body.w) + body.i_inv*cross(mulv(body.transform, point - body.cog), mulv(body.transform, j))
  ensures <C21> wakes: roused(body)

func Body.VelocityAtWorldPoint(body, point)
  prop C09
  ensures rigid: result == body.v + body.w*perp(point - mulp(body.transform, body.cog))

func Body.VelocityAtLocalPoint(body, point)
  prop C09
  ensures rigid: result == body.v + body.w*perp(mulp(body.transform, point) - mulp(body.transform, body.cog))

func Body.KineticEnergy(body)
  prop C09
  ensures energy: result == body.m*len2(body.v) + body.i*body.w*body.w

// integration

func BodyUpdateVelocity(body, gravity, damping, dt)
  prop C10
  requires body != nil
  modifies body.v, body.w, body.f, body.t
  ensures kinematic: iskinematic(body) ==> body.v == old(body.v) && body.w == old(body.w) && body.f == old(body.f) && body.t == old(body.t)
  ensures linear: !iskinematic(body) ==> body.v == damping*old(body.v) + dt*(gravity + body.m_inv*old(body.f))
  ensures angular: !iskinematic(body) ==> body.w == old(body.w)*damping + old(body.t)*body.i_inv*dt
  ensures cleared: !iskinematic(body) ==> body.f == Vector{0, 0} && body.t == 0

func Body.UpdateVelocity(body, gravity, damping, dt)
  prop C10
  modifies body.v, body.w, body.f, body.t
  ensures kinematic: iskinematic(body) ==> body.v == old(body.v) && body.w == old(body.w) && body.f == old(body.f) && body.t == old(body.t)
  ensures linear: !iskinematic(body) ==> body.v == damping*old(body.v) + dt*(gravity + body.m_inv*old(body.f))
  ensures angular: !iskinematic(body) ==> body.w == old(body.w)*damping + old(body.t)*body.i_inv*dt
  ensures cleared: !iskinematic(body) ==> body.f == Vector{0, 0} && body.t == 0

func BodyUpdatePosition(body, dt)
  prop C10
  requires body != nil
  modifies body.p, body.a, body.transform, body.v_bias, body.w_bias
  ensures linear: body.p == old(body.p) + dt*(body.v + old(body.v_bias))
  ensures angular: body.a == old(body.a) + (body.w + old(body.w_bias))*dt
  ensures cleared: body.v_bias == Vector{0, 0} && body.w_bias == 0
  ensures rotation: rigid(body.transform) && body.transform.a == cos(body.a) && body.transform.b == sin(body.a)
  ensures centre: mulp(body.transform, body.cog) == body.p

// mass from shapes

rec shmass(l []*Shape, n int) float64 = ite(n <= 0, 0, shmass(l, n-1) + ite(l[n-1].massInfo.m > 0, l[n-1].massInfo.m, 0))
rec shfirst(l []*Shape, n int) Vector = ite(n <= 0, Vector{0, 0}, shfirst(l, n-1) + ite(l[n-1].massInfo.m > 0, l[n-1].massInfo.m*l[n-1].massInfo.cog, Vector{0, 0}))
rec shmoment(l []*Shape, n int, c Vector) float64 = ite(n <= 0, 0, shmoment(l, n-1, c) + ite(l[n-1].massInfo.m > 0, l[n-1].massInfo.m*(l[n-1].massInfo.i + len2(l[n-1].massInfo.cog - c)), 0))

func Body.AccumulateMassFromShapes(body)
  prop C08
  option nodef
  requires forall(k, 0, len(body.shapeList), body.shapeList[k] != nil && body.shapeList[k].massInfo != nil)
  requires body.transform.a == cos(body.a) && body.transform.b == sin(body.a) && rigid(body.transform)
  modifies @wake, body.m, body.i, body.cog, body.m_inv, body.i_inv, body.p, body.transform
  ensures still: isstatic(body) == old(isstatic(body))
  loop 0: invariant 0 <= LI && LI <= len(body.shapeList)
  loop 0: invariant body.m == shmass(body.shapeList, LI) && body.m >= 0
  loop 0: invariant body.m*body.cog == shfirst(body.shapeList, LI)
  loop 0: invariant forallT(c, Vector, shmoment(body.shapeList, LI, c) == body.i + body.m*len2(body.cog - c))
  ensures mass: old(isdynamic(body)) ==> body.m == shmass(body.shapeList, len(body.shapeList))
  ensures centre: old(isdynamic(body)) ==> body.m*body.cog == shfirst(body.shapeList, len(body.shapeList))
  ensures moment: old(isdynamic(body)) ==> body.i == shmoment(body.shapeList, len(body.shapeList), body.cog)
  ensures inverse: old(isdynamic(body)) ==> (body.m != 0 ==> body.m*body.m_inv == 1) && (body.i != 0 ==> body.i*body.i_inv == 1)
  ensures stays: mulp(body.transform, Vector{0, 0}) == old(mulp(body.transform, Vector{0, 0}))
  ensures others: !old(isdynamic(body)) ==> body.m == old(body.m) && body.i == old(body.i) && body.cog == old(body.cog) && body.m_inv == old(body.m_inv) && body.i_inv == old(body.i_inv)

spec massok(b *Body) bool = forall(k, 0, len(b.shapeList), b.shapeList[k] != nil && b.shapeList[k].massInfo != nil)
spec turned(b *Body) bool = b.transform.a == cos(b.a) && b.transform.b == sin(b.a) && rigid(b.transform)
spec frommass(b *Body) bool = b.m == shmass(b.shapeList, len(b.shapeList)) && b.m*b.cog == shfirst(b.shapeList, len(b.shapeList)) && b.i == shmoment(b.shapeList, len(b.shapeList), b.cog)
   && (b.m != 0 ==> b.m*b.m_inv == 1) && (b.i != 0 ==> b.i*b.i_inv == 1)

func NewBody(mass, moment)
  prop C08 C09
  option nodef
  requires mass != INFINITY
  modifies bodyCur, @wake
  ensures mass: result.m == mass && (mass != 0 ==> result.m*result.m_inv == 1)
  ensures moment: result.i == moment && (moment != 0 ==> result.i*result.i_inv == 1)
  ensures frame: turned(result) && result.a == 0 && mulp(result.transform, Vector{0, 0}) == Vector{0, 0} && result.p == Vector{0, 0} && result.cog == Vector{0, 0}
  ensures rest: result.v == Vector{0, 0} && result.w == 0 && result.f == Vector{0, 0} && result.t == 0 && result.v_bias == Vector{0, 0} && result.w_bias == 0
  ensures dynamic: isdynamic(result) && result.space == nil && len(result.shapeList) == 0 && result.arbiterList == nil && result.constraintList == nil
  ensures new: fresh(result)

func NewStaticBody()
  prop C08 C22
  option nodef
  modifies bodyCur, @wake
  ensures static: isstatic(result) && result.m == INFINITY && result.i == INFINITY && result.m_inv == 0 && result.i_inv == 0
  ensures rest: result.v == Vector{0, 0} && result.w == 0 && result.space == nil && fresh(result)

func NewKinematicBody()
  prop C08 C22
  option nodef
  modifies bodyCur, @wake
  ensures kinematic: iskinematic(result) && result.m == INFINITY && result.i == INFINITY && result.m_inv == 0 && result.i_inv == 0
  ensures rest: result.v == Vector{0, 0} && result.w == 0 && result.space == nil && fresh(result)

iface SpatialIndexer.Insert(obj, hashId)
  prop C22
  option trusted
  modifies @index

iface SpatialIndexer.Remove(obj, hashId)
  prop C22
  option trusted
  modifies @index

func Body.SetType(body, newType)
  prop C08
  option nodef
  assumes links(body)
  requires newType == 0 || newType == 1 || newType == 2
  requires massok(body) && turned(body)
  requires body.space != nil ==> body.space.staticShapes != nil && body.space.dynamicShapes != nil && body.space.staticShapes.class != nil && body.space.dynamicShapes.class != nil
  requires shmass(body.shapeList, len(body.shapeList)) <= 1e29
  modifies @wake, body.space.staticBodies, body.m, body.i, body.m_inv, body.i_inv, body.v, body.w, body.cog, body.p, body.transform
  ensures type: ite(newType == 2, isstatic(body), ite(newType == 1, iskinematic(body), isdynamic(body)))
  ensures infinite: newType != 0 && old(ite(isstatic(body), 2, ite(iskinematic(body), 1, 0))) != newType ==> body.m == INFINITY && body.i == INFINITY && body.m_inv == 0 && body.i_inv == 0 && body.v == Vector{0, 0} && body.w == 0
  ensures mass: newType == 0 && !old(isdynamic(body)) ==> frommass(body)
  ensures kept: old(ite(isstatic(body), 2, ite(iskinematic(body), 1, 0))) == newType ==> body.m == old(body.m) && body.i == old(body.i) && body.v == old(body.v) && body.w == old(body.w)
  ensures stays: mulp(body.transform, Vector{0, 0}) == old(mulp(body.transform, Vector{0, 0}))

func Body.AddShape(body, shape)
  prop C08 C22
  option nodef
  requires massok(body) && turned(body) && shape != nil && shape.massInfo != nil
  modifies @wake, body.shapeList, allelems(*Shape), body.m, body.i, body.m_inv, body.i_inv, body.cog, body.p, body.transform
  ensures still: isstatic(body) == old(isstatic(body))
  ensures added: len(body.shapeList) == old(len(body.shapeList)) + 1 && body.shapeList[old(len(body.shapeList))] == shape && result == shape
  ensures kept: forall(k, 0, old(len(body.shapeList)), body.shapeList[k] == old(body.shapeList[k]))
  ensures mass: old(isdynamic(body)) && shape.massInfo.m > 0 ==> frommass(body)
  ensures stays: mulp(body.transform, Vector{0, 0}) == old(mulp(body.transform, Vector{0, 0}))

func Body.RemoveShape(body, shape)
  prop C08 C22
  option nodef
  requires massok(body) && turned(body) && shape != nil && shape.massInfo != nil
  modifies @wake, body.shapeList, elems(body.shapeList), body.m, body.i, body.m_inv, body.i_inv, body.cog, body.p, body.transform
  ensures still: isstatic(body) == old(isstatic(body))
  loop 0: invariant forall(k, 0, LI, body.shapeList[k] != shape)
  loop 0: invariant same(body.shapeList, old(body.shapeList)) && forall(k, 0, len(body.shapeList), body.shapeList[k] == old(body.shapeList[k]))
  ensures absent: forall(k, 0, old(len(body.shapeList)), old(body.shapeList[k]) != shape) ==> same(body.shapeList, old(body.shapeList)) && forall(k, 0, len(body.shapeList), body.shapeList[k] == old(body.shapeList[k]))
  ensures removed: exists(r, 0, old(len(body.shapeList)), old(body.shapeList[r]) == shape) ==> len(body.shapeList) == old(len(body.shapeList)) - 1 && exists(r, 0, old(len(body.shapeList)), old(body.shapeList[r]) == shape && forall(k, 0, len(body.shapeList), body.shapeList[k] == old(body.shapeList[ite(k == r, len(body.shapeList) - 1, k)])))
  ensures mass: old(isdynamic(body)) && shape.massInfo.m > 0 ==> frommass(body)
  ensures stays: mulp(body.transform, Vector{0, 0}) == old(mulp(body.transform, Vector{0, 0}))

func Shape.SetMass(s, mass)
  prop C08
  option nodef
  requires s.body != nil && s.massInfo != nil && massok(s.body) && turned(s.body)
  modifies @wake, s.massInfo.m, s.body.m, s.body.i, s.body.m_inv, s.body.i_inv, s.body.cog, s.body.p, s.body.transform
  ensures still: isstatic(s.body) == old(isstatic(s.body))
  ensures set: s.massInfo.m == mass
  ensures mass: old(isdynamic(s.body)) ==> frommass(s.body)
  ensures stays: mulp(s.body.transform, Vector{0, 0}) == old(mulp(s.body.transform, Vector{0, 0}))

func Shape.SetDensity(s, density)
  prop C08
  option nodef
  requires s.body != nil && s.massInfo != nil && massok(s.body) && turned(s.body)
  modifies @wake, s.massInfo.m, s.body.m, s.body.i, s.body.m_inv, s.body.i_inv, s.body.cog, s.body.p, s.body.transform
  ensures still: isstatic(s.body) == old(isstatic(s.body))
  ensures set: s.massInfo.m == density*s.massInfo.area
  ensures mass: old(isdynamic(s.body)) ==> frommass(s.body)

func Shape.Mass(s)
  prop C08
  requires s.massInfo != nil
  ensures read: result == s.massInfo.m

func Shape.Density(s)
  prop C08
  option nodef
  requires s.massInfo != nil
  ensures read: s.massInfo.area != 0 ==> result*s.massInfo.area == s.massInfo.m

func Shape.Moment(s)
  prop C08
  requires s.massInfo != nil
  ensures read: result == s.massInfo.m*s.massInfo.i
