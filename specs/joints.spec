// Constraint arithmetic shared by contacts and joints, and the ten joints (C11-C14)

// Effective inverse mass of the pair along n, and relative velocity of the two anchors.
spec kbody(b *Body, r Vector, n Vector) float64 = b.m_inv + b.i_inv*cross(r, n)*cross(r, n)
spec kpair(a *Body, b *Body, r1 Vector, r2 Vector, n Vector) float64 = kbody(a, r1, n) + kbody(b, r2, n)
spec velat(b *Body, r Vector) Vector = b.v + b.w*perp(r)
spec relvel(a *Body, b *Body, r1 Vector, r2 Vector) Vector = velat(b, r2) - velat(a, r1)
spec biascoef(e float64, dt float64) float64 = 1 - pow(e, dt)
// b gets the impulse j at r2 and a gets -j at r1 (state change from old to now)
spec pushed(b *Body, r Vector, j Vector) bool = b.v == old(b.v) + b.m_inv*j && b.w == old(b.w) + b.i_inv*cross(r, j)
spec turnedby(b *Body, l float64) bool = b.w == old(b.w) + b.i_inv*l
spec anchored(b *Body, r Vector, anchor Vector) bool = r == mulv(b.transform, anchor - b.cog)
spec kt11(a *Body, b *Body, r1 Vector, r2 Vector) float64 = a.m_inv + b.m_inv + a.i_inv*r1.Y*r1.Y + b.i_inv*r2.Y*r2.Y
spec kt12(a *Body, b *Body, r1 Vector, r2 Vector) float64 = -a.i_inv*r1.X*r1.Y - b.i_inv*r2.X*r2.Y
spec kt22(a *Body, b *Body, r1 Vector, r2 Vector) float64 = a.m_inv + b.m_inv + a.i_inv*r1.X*r1.X + b.i_inv*r2.X*r2.X
spec kdet(a *Body, b *Body, r1 Vector, r2 Vector) float64 = kt11(a, b, r1, r2)*kt22(a, b, r1, r2) - kt12(a, b, r1, r2)*kt12(a, b, r1, r2)
// m is the inverse of the symmetric matrix [[p q] [q s]]
spec inverts(m Mat2x2, p float64, q float64, s float64) bool = m.a*p + m.b*q == 1 && m.a*q + m.b*s == 0 && m.c*p + m.d*q == 0 && m.c*q + m.d*s == 1 && m.a*p + m.c*q == 1 && m.b*p + m.d*q == 0 && m.a*q + m.c*s == 0 && m.b*q + m.d*s == 1
spec ktinv(m Mat2x2, a *Body, b *Body, r1 Vector, r2 Vector) bool = inverts(m, kt11(a, b, r1, r2), kt12(a, b, r1, r2), kt22(a, b, r1, r2))

spec mat(m Mat2x2, v Vector) Vector = Vector{m.a*v.X + m.b*v.Y, m.c*v.X + m.d*v.Y}
spec movable(a *Body, b *Body) bool = a.m_inv + b.m_inv > 0 && a.i_inv >= 0 && b.i_inv >= 0

func k_scalar_body(body, r, n)
  prop C11 C14
  requires body != nil
  ensures mass: result == kbody(body, r, n)

func k_scalar(a, b, r1, r2, n)
  prop C11 C14
  requires a != nil && b != nil
  ensures mass: result == kpair(a, b, r1, r2, n)

func relative_velocity(a, b, r1, r2)
  prop C11 C14
  requires a != nil && b != nil
  ensures vel: result == relvel(a, b, r1, r2)

func normal_relative_velocity(a, b, r1, r2, n)
  prop C11 C14
  requires a != nil && b != nil
  ensures vel: result == dot(relvel(a, b, r1, r2), n)

func k_tensor(a, b, r1, r2)
  prop C14
  requires a != nil && b != nil
  requires movable(a, b)
  lemma expand: kdet(a, b, r1, r2) == (a.m_inv + b.m_inv)*(a.m_inv + b.m_inv) + (a.m_inv + b.m_inv)*(a.i_inv*len2(r1) + b.i_inv*len2(r2)) + a.i_inv*b.i_inv*(cross(r1, r2)*cross(r1, r2))
  lemma positive: (a.m_inv + b.m_inv)*(a.i_inv*len2(r1) + b.i_inv*len2(r2)) >= 0 && a.i_inv*b.i_inv*(cross(r1, r2)*cross(r1, r2)) >= 0
  lemma solvable: kdet(a, b, r1, r2) > 0
  ensures inverse: ktinv(result, a, b, r1, r2)

func Mat2x2.Transform(m, v)
  prop C14
  ensures val: result == Vector{m.a*v.X + m.b*v.Y, m.c*v.X + m.d*v.Y}

func bias_coef(e, dt)
  prop C14
  ensures val: result == biascoef(e, dt)

func apply_impulses(a, b, r1, r2, j)
  prop C11 C12
  requires a != nil && b != nil && a != b
  modifies a.v, a.w, b.v, b.w
  ensures second: pushed(b, r2, j)
  ensures first: pushed(a, r1, -1*j)

func apply_impulse(body, j, r)
  prop C09
  requires body != nil
  modifies body.v, body.w
  ensures pushed: pushed(body, r, j)

func apply_bias_impulses(a, b, r1, r2, j)
  prop C11
  requires a != nil && b != nil && a != b
  modifies a.v_bias, a.w_bias, b.v_bias, b.w_bias
  ensures second: b.v_bias == old(b.v_bias) + b.m_inv*j && b.w_bias == old(b.w_bias) + b.i_inv*cross(r2, j)
  ensures first: a.v_bias == old(a.v_bias) - a.m_inv*j && a.w_bias == old(a.w_bias) - a.i_inv*cross(r1, j)

func DefaultSpringForce(spring, dist)
  prop C14
  requires spring != nil
  ensures hooke: result == (spring.RestLength - dist)*spring.Stiffness

func defaultSpringTorque(spring, relativeAngle)
  prop C14
  requires spring != nil
  ensures hooke: result == (relativeAngle - spring.RestAngle)*spring.Stiffness

// User-supplied spring laws are taken to be pure.
functype DampedSpringForceFunc(spring, dist)
  option pure

functype DampedRotarySpring.SpringTorqueFunc(spring, relativeAngle)
  option pure

// ---- pin joint

func PinJoint.PreStep(joint, dt)
  prop C12 C13 C14
  requires joint.Constraint != nil && joint.a != nil && joint.b != nil && joint.a != joint.b && dt > 0 && joint.maxBias >= 0
  option nodef
  modifies joint.r1, joint.r2, joint.n, joint.nMass, joint.bias
  ensures <C14> anchora: anchored(joint.a, joint.r1, joint.AnchorA)
  ensures <C14> anchorb: anchored(joint.b, joint.r2, joint.AnchorB)
  ensures <C14> world: mulp(joint.a.transform, joint.a.cog) == joint.a.p && mulp(joint.b.transform, joint.b.cog) == joint.b.p ==> (joint.b.p + joint.r2 - joint.a.p - joint.r1) == mulp(joint.b.transform, joint.AnchorB) - mulp(joint.a.transform, joint.AnchorA)
  ensures <C14> axis: len2((joint.b.p + joint.r2 - joint.a.p - joint.r1)) > 0 ==> (joint.b.p + joint.r2 - joint.a.p - joint.r1) == vlen((joint.b.p + joint.r2 - joint.a.p - joint.r1))*joint.n && unit(joint.n)
  ensures <C14> mass: kpair(joint.a, joint.b, joint.r1, joint.r2, joint.n) != 0 ==> joint.nMass*kpair(joint.a, joint.b, joint.r1, joint.r2, joint.n) == 1
  ensures <C14> bias: joint.bias == clampf(-biascoef(joint.errorBias, dt)*(vlen((joint.b.p + joint.r2 - joint.a.p - joint.r1)) - joint.Dist)/dt, -joint.maxBias, joint.maxBias)
  ensures <C13> limit: abs(joint.bias) <= joint.maxBias

func PinJoint.ApplyCachedImpulse(joint, dt_coef)
  prop C12
  requires joint.Constraint != nil && joint.a != nil && joint.b != nil && joint.a != joint.b
  modifies joint.a.v, joint.a.w, joint.b.v, joint.b.w
  ensures second: pushed(joint.b, joint.r2, dt_coef*joint.jnAcc*joint.n)
  ensures first: pushed(joint.a, joint.r1, -dt_coef*joint.jnAcc*joint.n)

func PinJoint.ApplyImpulse(joint, dt)
  prop C12 C13 C14
  requires joint.Constraint != nil && joint.a != nil && joint.b != nil && joint.a != joint.b && dt >= 0 && joint.maxForce >= 0
  modifies joint.jnAcc, joint.a.v, joint.a.w, joint.b.v, joint.b.w
  ensures <C12> second: pushed(joint.b, joint.r2, (joint.jnAcc - old(joint.jnAcc))*joint.n)
  ensures <C12> first: pushed(joint.a, joint.r1, -1*(joint.jnAcc - old(joint.jnAcc))*joint.n)
  ensures <C13> limit: abs(joint.jnAcc) <= joint.maxForce*dt
  ensures <C14> target: joint.nMass*kpair(joint.a, joint.b, joint.r1, joint.r2, joint.n) == 1 && unit(joint.n) && abs(joint.jnAcc) < joint.maxForce*dt ==> dot(relvel(joint.a, joint.b, joint.r1, joint.r2), joint.n) == joint.bias

func PinJoint.GetImpulse(joint)
  prop C13
  ensures val: result == abs(joint.jnAcc)

// ---- slide joint

func SlideJoint.PreStep(joint, dt)
  prop C12 C13 C14
  requires joint.Constraint != nil && joint.a != nil && joint.b != nil && joint.a != joint.b && dt > 0 && joint.maxBias >= 0
  option nodef
  modifies joint.r1, joint.r2, joint.n, joint.nMass, joint.bias, joint.jnAcc
  ensures <C14> anchora: anchored(joint.a, joint.r1, joint.AnchorA)
  ensures <C14> anchorb: anchored(joint.b, joint.r2, joint.AnchorB)
  requires joint.Min <= joint.Max && joint.Min >= 0
  ensures <C14> world: mulp(joint.a.transform, joint.a.cog) == joint.a.p && mulp(joint.b.transform, joint.b.cog) == joint.b.p ==> (joint.b.p + joint.r2 - joint.a.p - joint.r1) == mulp(joint.b.transform, joint.AnchorB) - mulp(joint.a.transform, joint.AnchorA)
  ensures <C13> inside: joint.Min <= vlen((joint.b.p + joint.r2 - joint.a.p - joint.r1)) && vlen((joint.b.p + joint.r2 - joint.a.p - joint.r1)) <= joint.Max ==> joint.n == Vector{0, 0} && joint.jnAcc == 0 && joint.bias == 0
  ensures <C13> over: vlen((joint.b.p + joint.r2 - joint.a.p - joint.r1)) > joint.Max ==> cross(joint.n, (joint.b.p + joint.r2 - joint.a.p - joint.r1)) == 0 && dot(joint.n, (joint.b.p + joint.r2 - joint.a.p - joint.r1)) > 0
  ensures <C13> under: vlen((joint.b.p + joint.r2 - joint.a.p - joint.r1)) < joint.Min && len2((joint.b.p + joint.r2 - joint.a.p - joint.r1)) > 0 ==> cross(joint.n, (joint.b.p + joint.r2 - joint.a.p - joint.r1)) == 0 && dot(joint.n, (joint.b.p + joint.r2 - joint.a.p - joint.r1)) < 0
  ensures <C13> keep: vlen((joint.b.p + joint.r2 - joint.a.p - joint.r1)) > joint.Max || vlen((joint.b.p + joint.r2 - joint.a.p - joint.r1)) < joint.Min ==> joint.jnAcc == old(joint.jnAcc)
  ensures <C14> mass: kpair(joint.a, joint.b, joint.r1, joint.r2, joint.n) != 0 ==> joint.nMass*kpair(joint.a, joint.b, joint.r1, joint.r2, joint.n) == 1
  ensures <C14> bias: joint.bias == clampf(-biascoef(joint.errorBias, dt)*max(max(vlen((joint.b.p + joint.r2 - joint.a.p - joint.r1)) - joint.Max, joint.Min - vlen((joint.b.p + joint.r2 - joint.a.p - joint.r1))), 0)/dt, -joint.maxBias, joint.maxBias)
  ensures <C13> limit: abs(joint.bias) <= joint.maxBias

func SlideJoint.ApplyCachedImpulse(joint, dt_coef)
  prop C12
  requires joint.Constraint != nil && joint.a != nil && joint.b != nil && joint.a != joint.b
  modifies joint.a.v, joint.a.w, joint.b.v, joint.b.w
  ensures second: pushed(joint.b, joint.r2, dt_coef*joint.jnAcc*joint.n)
  ensures first: pushed(joint.a, joint.r1, -dt_coef*joint.jnAcc*joint.n)

func SlideJoint.ApplyImpulse(joint, dt)
  prop C12 C13 C14
  requires joint.Constraint != nil && joint.a != nil && joint.b != nil && joint.a != joint.b && dt >= 0 && joint.maxForce >= 0
  modifies joint.jnAcc, joint.a.v, joint.a.w, joint.b.v, joint.b.w
  ensures <C12> second: pushed(joint.b, joint.r2, (joint.jnAcc - old(joint.jnAcc))*joint.n)
  ensures <C12> first: pushed(joint.a, joint.r1, -1*(joint.jnAcc - old(joint.jnAcc))*joint.n)
  ensures <C13> limit: joint.n != Vector{0, 0} ==> -joint.maxForce*dt <= joint.jnAcc && joint.jnAcc <= 0
  ensures <C13> idle: joint.n == Vector{0, 0} ==> joint.jnAcc == old(joint.jnAcc)
  ensures <C14> target: unit(joint.n) && joint.nMass*kpair(joint.a, joint.b, joint.r1, joint.r2, joint.n) == 1 && -joint.maxForce*dt < joint.jnAcc && joint.jnAcc < 0 ==> dot(relvel(joint.a, joint.b, joint.r1, joint.r2), joint.n) == joint.bias

func SlideJoint.GetImpulse(joint)
  prop C13
  ensures val: result == abs(joint.jnAcc)

// ---- pivot joint

func PivotJoint.PreStep(joint, dt)
  prop C12 C13 C14
  requires joint.Constraint != nil && joint.a != nil && joint.b != nil && joint.a != joint.b && dt > 0 && joint.maxBias >= 0
  requires movable(joint.a, joint.b)
  modifies joint.r1, joint.r2, joint.k, joint.bias
  ensures <C14> anchora: anchored(joint.a, joint.r1, joint.AnchorA)
  ensures <C14> anchorb: anchored(joint.b, joint.r2, joint.AnchorB)
  ensures <C14> world: mulp(joint.a.transform, joint.a.cog) == joint.a.p && mulp(joint.b.transform, joint.b.cog) == joint.b.p ==> (joint.b.p + joint.r2 - joint.a.p - joint.r1) == mulp(joint.b.transform, joint.AnchorB) - mulp(joint.a.transform, joint.AnchorA)
  ensures <C14> mass: ktinv(joint.k, joint.a, joint.b, joint.r1, joint.r2)
  ensures <C13> limit: len2(joint.bias) <= joint.maxBias*joint.maxBias
  ensures <C14> bias: len2((-biascoef(joint.errorBias, dt)/dt)*(joint.b.p + joint.r2 - joint.a.p - joint.r1)) <= joint.maxBias*joint.maxBias ==> joint.bias == (-biascoef(joint.errorBias, dt)/dt)*(joint.b.p + joint.r2 - joint.a.p - joint.r1)
  ensures <C14> opposes: cross(joint.bias, (-biascoef(joint.errorBias, dt)/dt)*(joint.b.p + joint.r2 - joint.a.p - joint.r1)) == 0 && dot(joint.bias, (-biascoef(joint.errorBias, dt)/dt)*(joint.b.p + joint.r2 - joint.a.p - joint.r1)) >= 0

func PivotJoint.ApplyCachedImpulse(joint, dt_coef)
  prop C12
  requires joint.Constraint != nil && joint.a != nil && joint.b != nil && joint.a != joint.b
  modifies joint.a.v, joint.a.w, joint.b.v, joint.b.w
  ensures second: pushed(joint.b, joint.r2, dt_coef*joint.jAcc)
  ensures first: pushed(joint.a, joint.r1, -dt_coef*joint.jAcc)

func PivotJoint.ApplyImpulse(joint, dt)
  prop C12 C13 C14
  requires joint.Constraint != nil && joint.a != nil && joint.b != nil && joint.a != joint.b && dt >= 0 && joint.maxForce >= 0
  modifies joint.jAcc, joint.a.v, joint.a.w, joint.b.v, joint.b.w
  ensures <C12> second: pushed(joint.b, joint.r2, (joint.jAcc - old(joint.jAcc)))
  ensures <C12> first: pushed(joint.a, joint.r1, -1*(joint.jAcc - old(joint.jAcc)))
  ensures <C13> limit: len2(joint.jAcc) <= joint.maxForce*dt*(joint.maxForce*dt)
  lemma <C14> inv0X: ktinv(joint.k, joint.a, joint.b, joint.r1, joint.r2) ==> (kt11(joint.a, joint.b, joint.r1, joint.r2)*joint.k.a + kt12(joint.a, joint.b, joint.r1, joint.r2)*joint.k.c)*(joint.bias - relvel(joint.a, joint.b, joint.r1, joint.r2)).X == (joint.bias - relvel(joint.a, joint.b, joint.r1, joint.r2)).X
  lemma <C14> inv0Y: ktinv(joint.k, joint.a, joint.b, joint.r1, joint.r2) ==> (kt11(joint.a, joint.b, joint.r1, joint.r2)*joint.k.b + kt12(joint.a, joint.b, joint.r1, joint.r2)*joint.k.d)*(joint.bias - relvel(joint.a, joint.b, joint.r1, joint.r2)).Y == 0
  lemma <C14> inv1X: ktinv(joint.k, joint.a, joint.b, joint.r1, joint.r2) ==> (kt12(joint.a, joint.b, joint.r1, joint.r2)*joint.k.a + kt22(joint.a, joint.b, joint.r1, joint.r2)*joint.k.c)*(joint.bias - relvel(joint.a, joint.b, joint.r1, joint.r2)).X == 0
  lemma <C14> inv1Y: ktinv(joint.k, joint.a, joint.b, joint.r1, joint.r2) ==> (kt12(joint.a, joint.b, joint.r1, joint.r2)*joint.k.b + kt22(joint.a, joint.b, joint.r1, joint.r2)*joint.k.d)*(joint.bias - relvel(joint.a, joint.b, joint.r1, joint.r2)).Y == (joint.bias - relvel(joint.a, joint.b, joint.r1, joint.r2)).Y
  ensures <C14> step_free: len2(old(joint.jAcc) + mat(joint.k, joint.bias - old(relvel(joint.a, joint.b, joint.r1, joint.r2)))) <= joint.maxForce*dt*(joint.maxForce*dt) ==> joint.jAcc - old(joint.jAcc) == mat(joint.k, joint.bias - old(relvel(joint.a, joint.b, joint.r1, joint.r2)))
  ensures <C14> step_effect: let(j, joint.jAcc - old(joint.jAcc), relvel(joint.a, joint.b, joint.r1, joint.r2) - old(relvel(joint.a, joint.b, joint.r1, joint.r2)) == Vector{kt11(joint.a, joint.b, joint.r1, joint.r2)*j.X + kt12(joint.a, joint.b, joint.r1, joint.r2)*j.Y, kt12(joint.a, joint.b, joint.r1, joint.r2)*j.X + kt22(joint.a, joint.b, joint.r1, joint.r2)*j.Y})
  ensures <C14> step_prodX: len2(old(joint.jAcc) + mat(joint.k, joint.bias - old(relvel(joint.a, joint.b, joint.r1, joint.r2)))) <= joint.maxForce*dt*(joint.maxForce*dt) ==> let(j, joint.jAcc - old(joint.jAcc), kt11(joint.a, joint.b, joint.r1, joint.r2)*j.X + kt12(joint.a, joint.b, joint.r1, joint.r2)*j.Y == kt11(joint.a, joint.b, joint.r1, joint.r2)*mat(joint.k, (joint.bias - old(relvel(joint.a, joint.b, joint.r1, joint.r2)))).X + kt12(joint.a, joint.b, joint.r1, joint.r2)*mat(joint.k, (joint.bias - old(relvel(joint.a, joint.b, joint.r1, joint.r2)))).Y)
  ensures <C14> step_prodY: len2(old(joint.jAcc) + mat(joint.k, joint.bias - old(relvel(joint.a, joint.b, joint.r1, joint.r2)))) <= joint.maxForce*dt*(joint.maxForce*dt) ==> let(j, joint.jAcc - old(joint.jAcc), kt12(joint.a, joint.b, joint.r1, joint.r2)*j.X + kt22(joint.a, joint.b, joint.r1, joint.r2)*j.Y == kt12(joint.a, joint.b, joint.r1, joint.r2)*mat(joint.k, (joint.bias - old(relvel(joint.a, joint.b, joint.r1, joint.r2)))).X + kt22(joint.a, joint.b, joint.r1, joint.r2)*mat(joint.k, (joint.bias - old(relvel(joint.a, joint.b, joint.r1, joint.r2)))).Y)
  ensures <C14> step_backX: ktinv(joint.k, joint.a, joint.b, joint.r1, joint.r2) ==> kt11(joint.a, joint.b, joint.r1, joint.r2)*mat(joint.k, (joint.bias - old(relvel(joint.a, joint.b, joint.r1, joint.r2)))).X + kt12(joint.a, joint.b, joint.r1, joint.r2)*mat(joint.k, (joint.bias - old(relvel(joint.a, joint.b, joint.r1, joint.r2)))).Y == (joint.bias - old(relvel(joint.a, joint.b, joint.r1, joint.r2))).X
  ensures <C14> step_backY: ktinv(joint.k, joint.a, joint.b, joint.r1, joint.r2) ==> kt12(joint.a, joint.b, joint.r1, joint.r2)*mat(joint.k, (joint.bias - old(relvel(joint.a, joint.b, joint.r1, joint.r2)))).X + kt22(joint.a, joint.b, joint.r1, joint.r2)*mat(joint.k, (joint.bias - old(relvel(joint.a, joint.b, joint.r1, joint.r2)))).Y == (joint.bias - old(relvel(joint.a, joint.b, joint.r1, joint.r2))).Y
  ensures <C14> target: ktinv(joint.k, joint.a, joint.b, joint.r1, joint.r2) && len2(old(joint.jAcc) + mat(joint.k, joint.bias - old(relvel(joint.a, joint.b, joint.r1, joint.r2)))) <= joint.maxForce*dt*(joint.maxForce*dt) ==> relvel(joint.a, joint.b, joint.r1, joint.r2) == joint.bias

func PivotJoint.GetImpulse(joint)
  prop C13
  ensures val: result == vlen(joint.jAcc)

// ---- groove joint

func GrooveJoint.PreStep(joint, dt)
  prop C12 C13 C14
  requires joint.Constraint != nil && joint.a != nil && joint.b != nil && joint.a != joint.b && dt > 0 && joint.maxBias >= 0
  requires rigid(joint.a.transform) && unit(joint.GrooveN)
  requires dot(joint.GrooveB - joint.GrooveA, joint.GrooveN) == 0 && cross(joint.GrooveA, joint.GrooveN) <= cross(joint.GrooveB, joint.GrooveN)
  requires movable(joint.a, joint.b)
  lemma rotated: cross(mulp(joint.a.transform, joint.GrooveA), mulv(joint.a.transform, joint.GrooveN)) <= cross(mulp(joint.a.transform, joint.GrooveB), mulv(joint.a.transform, joint.GrooveN))
  modifies joint.grooveTn, joint.clamp, joint.r1, joint.r2, joint.k, joint.bias
  ensures <C14> anchorb: anchored(joint.b, joint.r2, joint.AnchorB)
  ensures <C14> axis: joint.grooveTn == mulv(joint.a.transform, joint.GrooveN)
  ensures <C14> online: dot((joint.a.p + joint.r1) - mulp(joint.a.transform, joint.GrooveA), joint.grooveTn) == 0
  ensures <C14> inside: cross(mulp(joint.a.transform, joint.GrooveA), joint.grooveTn) <= cross((joint.a.p + joint.r1), joint.grooveTn) && cross((joint.a.p + joint.r1), joint.grooveTn) <= cross(mulp(joint.a.transform, joint.GrooveB), joint.grooveTn)
  ensures <C14> nearest: joint.clamp == 0 ==> cross((joint.a.p + joint.r1) - (joint.b.p + joint.r2), joint.grooveTn) == 0
  ensures <C14> start: joint.clamp > 0 ==> (joint.a.p + joint.r1) == mulp(joint.a.transform, joint.GrooveA) && cross((joint.b.p + joint.r2), joint.grooveTn) <= cross(mulp(joint.a.transform, joint.GrooveA), joint.grooveTn)
  ensures <C14> end: joint.clamp < 0 ==> (joint.a.p + joint.r1) == mulp(joint.a.transform, joint.GrooveB) && cross((joint.b.p + joint.r2), joint.grooveTn) >= cross(mulp(joint.a.transform, joint.GrooveB), joint.grooveTn)
  ensures <C14> mass: ktinv(joint.k, joint.a, joint.b, joint.r1, joint.r2)
  ensures <C13> limit: len2(joint.bias) <= joint.maxBias*joint.maxBias
  ensures <C14> bias: len2((-biascoef(joint.errorBias, dt)/dt)*(joint.b.p + joint.r2 - joint.a.p - joint.r1)) <= joint.maxBias*joint.maxBias ==> joint.bias == (-biascoef(joint.errorBias, dt)/dt)*(joint.b.p + joint.r2 - joint.a.p - joint.r1)
  ensures <C14> opposes: cross(joint.bias, (-biascoef(joint.errorBias, dt)/dt)*(joint.b.p + joint.r2 - joint.a.p - joint.r1)) == 0 && dot(joint.bias, (-biascoef(joint.errorBias, dt)/dt)*(joint.b.p + joint.r2 - joint.a.p - joint.r1)) >= 0

func GrooveJoint.grooveConstrain(joint, j, dt)
  prop C13
  requires joint.Constraint != nil && dt >= 0 && joint.maxForce >= 0 && unit(joint.grooveTn)
  ensures limit: len2(result) <= joint.maxForce*dt*(joint.maxForce*dt)
  ensures normal: joint.clamp*cross(j, joint.grooveTn) <= 0 ==> cross(result, joint.grooveTn) == 0
  ensures along: cross(result, joint.grooveTn)*joint.clamp >= 0

func GrooveJoint.ApplyCachedImpulse(joint, dt_coef)
  prop C12
  requires joint.Constraint != nil && joint.a != nil && joint.b != nil && joint.a != joint.b
  modifies joint.a.v, joint.a.w, joint.b.v, joint.b.w
  ensures second: pushed(joint.b, joint.r2, dt_coef*joint.jAcc)
  ensures first: pushed(joint.a, joint.r1, -dt_coef*joint.jAcc)

func GrooveJoint.ApplyImpulse(joint, dt)
  prop C12 C13
  requires joint.Constraint != nil && joint.a != nil && joint.b != nil && joint.a != joint.b && dt >= 0 && joint.maxForce >= 0
  requires unit(joint.grooveTn)
  modifies joint.jAcc, joint.a.v, joint.a.w, joint.b.v, joint.b.w
  ensures <C12> second: pushed(joint.b, joint.r2, (joint.jAcc - old(joint.jAcc)))
  ensures <C12> first: pushed(joint.a, joint.r1, -1*(joint.jAcc - old(joint.jAcc)))
  ensures <C13> limit: len2(joint.jAcc) <= joint.maxForce*dt*(joint.maxForce*dt)
  ensures <C13> oneway: cross(joint.jAcc, joint.grooveTn)*joint.clamp >= 0 && (joint.clamp == 0 ==> cross(joint.jAcc, joint.grooveTn) == 0)

func GrooveJoint.GetImpulse(joint)
  prop C13
  ensures val: result == vlen(joint.jAcc)

// ---- damped spring

func DampedSpring.PreStep(joint, dt)
  prop C12 C14
  requires joint.Constraint != nil && joint.a != nil && joint.b != nil && joint.a != joint.b && dt > 0
  option nodef
  modifies joint.r1, joint.r2, joint.n, joint.nMass, joint.targetVrn, joint.vCoef, joint.jAcc, joint.a.v, joint.a.w, joint.b.v, joint.b.w
  ensures <C14> anchora: anchored(joint.a, joint.r1, joint.AnchorA)
  ensures <C14> anchorb: anchored(joint.b, joint.r2, joint.AnchorB)
  ensures <C14> world: mulp(joint.a.transform, joint.a.cog) == joint.a.p && mulp(joint.b.transform, joint.b.cog) == joint.b.p ==> (joint.b.p + joint.r2 - joint.a.p - joint.r1) == mulp(joint.b.transform, joint.AnchorB) - mulp(joint.a.transform, joint.AnchorA)
  ensures <C14> axis: len2((joint.b.p + joint.r2 - joint.a.p - joint.r1)) > 0 ==> (joint.b.p + joint.r2 - joint.a.p - joint.r1) == vlen((joint.b.p + joint.r2 - joint.a.p - joint.r1))*joint.n && unit(joint.n)
  ensures <C14> mass: kpair(joint.a, joint.b, joint.r1, joint.r2, joint.n) != 0 ==> joint.nMass*kpair(joint.a, joint.b, joint.r1, joint.r2, joint.n) == 1
  ensures <C14> force: joint.jAcc == callfn("DampedSpringForceFunc", joint.SpringForceFunc, joint, vlen((joint.b.p + joint.r2 - joint.a.p - joint.r1)))*dt
  ensures <C14> start: joint.targetVrn == 0 && joint.vCoef == 1 - exp(-joint.Damping*dt*kpair(joint.a, joint.b, joint.r1, joint.r2, joint.n))
  ensures <C12> second: pushed(joint.b, joint.r2, joint.jAcc*joint.n)
  ensures <C12> first: pushed(joint.a, joint.r1, -1*joint.jAcc*joint.n)

func DampedSpring.ApplyCachedImpulse(joint, dt_coef)
  prop C12
  ensures none: true

func DampedSpring.ApplyImpulse(joint, dt)
  prop C12 C14
  requires joint.Constraint != nil && joint.a != nil && joint.b != nil && joint.a != joint.b
  modifies joint.jAcc, joint.targetVrn, joint.a.v, joint.a.w, joint.b.v, joint.b.w
  ensures <C12> second: pushed(joint.b, joint.r2, (joint.jAcc - old(joint.jAcc))*joint.n)
  ensures <C12> first: pushed(joint.a, joint.r1, -1*(joint.jAcc - old(joint.jAcc))*joint.n)
  ensures <C14> target: joint.targetVrn == old(dot(relvel(joint.a, joint.b, joint.r1, joint.r2), joint.n)) + (old(joint.targetVrn) - old(dot(relvel(joint.a, joint.b, joint.r1, joint.r2), joint.n)))*joint.vCoef
  ensures <C14> met: joint.nMass*kpair(joint.a, joint.b, joint.r1, joint.r2, joint.n) == 1 && unit(joint.n) ==> dot(relvel(joint.a, joint.b, joint.r1, joint.r2), joint.n) == joint.targetVrn

func DampedSpring.GetImpulse(joint)
  prop C13
  ensures val: result == joint.jAcc

// ---- damped rotary spring

func DampedRotarySpring.PreStep(joint, dt)
  prop C12 C14
  requires joint.Constraint != nil && joint.a != nil && joint.b != nil && joint.a != joint.b && dt > 0
  option nodef
  modifies joint.iSum, joint.targetWrn, joint.wCoef, joint.jAcc, joint.a.w, joint.b.w
  ensures <C14> mass: joint.a.i_inv + joint.b.i_inv != 0 ==> joint.iSum*(joint.a.i_inv + joint.b.i_inv) == 1
  ensures <C14> torque: joint.jAcc == callfn("DampedRotarySpring.SpringTorqueFunc", joint.SpringTorqueFunc, joint, joint.a.a - joint.b.a)*dt
  ensures <C14> start: joint.targetWrn == 0 && joint.wCoef == 1 - exp(-joint.Damping*dt*(joint.a.i_inv + joint.b.i_inv))
  ensures <C12> second: turnedby(joint.b, joint.jAcc)
  ensures <C12> first: turnedby(joint.a, -(joint.jAcc))

func DampedRotarySpring.ApplyCachedImpulse(joint, dt_coef)
  prop C12
  ensures none: true

func DampedRotarySpring.ApplyImpulse(joint, dt)
  prop C12 C14
  requires joint.Constraint != nil && joint.a != nil && joint.b != nil && joint.a != joint.b
  modifies joint.jAcc, joint.targetWrn, joint.a.w, joint.b.w
  ensures <C12> second: turnedby(joint.b, -(joint.jAcc - old(joint.jAcc)))
  ensures <C12> first: turnedby(joint.a, -(-(joint.jAcc - old(joint.jAcc))))
  ensures <C14> target: joint.targetWrn == -old((joint.b.w - joint.a.w)) + (old(joint.targetWrn) + old((joint.b.w - joint.a.w)))*joint.wCoef
  ensures <C14> met: joint.iSum*(joint.a.i_inv + joint.b.i_inv) == 1 ==> -(joint.b.w - joint.a.w) == joint.targetWrn

func DampedRotarySpring.GetImpulse(joint)
  prop C13
  ensures val: result == joint.jAcc

// ---- rotary limit joint

func RotaryLimitJoint.PreStep(joint, dt)
  prop C12 C13 C14
  requires joint.Constraint != nil && joint.a != nil && joint.b != nil && joint.a != joint.b && dt > 0 && joint.maxBias >= 0 && joint.Min <= joint.Max
  option nodef
  modifies joint.iSum, joint.bias, joint.jAcc
  ensures <C14> mass: joint.a.i_inv + joint.b.i_inv != 0 ==> joint.iSum*(joint.a.i_inv + joint.b.i_inv) == 1
  ensures <C13> inside: joint.Min <= (joint.b.a - joint.a.a) && (joint.b.a - joint.a.a) <= joint.Max ==> joint.bias == 0 && joint.jAcc == 0
  ensures <C13> over: (joint.b.a - joint.a.a) > joint.Max && pow(joint.errorBias, dt) <= 1 ==> joint.bias >= 0
  ensures <C13> under: (joint.b.a - joint.a.a) < joint.Min && pow(joint.errorBias, dt) <= 1 ==> joint.bias <= 0
  ensures <C13> keep: joint.jAcc == ite(joint.bias == 0, 0, old(joint.jAcc))
  ensures <C13> limit: abs(joint.bias) <= joint.maxBias
  ensures <C14> bias: joint.bias == clampf(biascoef(joint.errorBias, dt)*(max((joint.b.a - joint.a.a) - joint.Max, 0) - max(joint.Min - (joint.b.a - joint.a.a), 0))/dt, -joint.maxBias, joint.maxBias)

func RotaryLimitJoint.ApplyCachedImpulse(joint, dt_coef)
  prop C12
  requires joint.Constraint != nil && joint.a != nil && joint.b != nil && joint.a != joint.b
  modifies joint.a.w, joint.b.w
  ensures second: turnedby(joint.b, joint.jAcc*dt_coef)
  ensures first: turnedby(joint.a, -joint.jAcc*dt_coef)

func RotaryLimitJoint.ApplyImpulse(joint, dt)
  prop C12 C13 C14
  requires joint.Constraint != nil && joint.a != nil && joint.b != nil && joint.a != joint.b && dt >= 0 && joint.maxForce >= 0
  modifies joint.jAcc, joint.a.w, joint.b.w
  ensures <C12> second: turnedby(joint.b, (joint.jAcc - old(joint.jAcc)))
  ensures <C12> first: turnedby(joint.a, -((joint.jAcc - old(joint.jAcc))))
  ensures <C13> up: joint.bias < 0 ==> 0 <= joint.jAcc && joint.jAcc <= joint.maxForce*dt
  ensures <C13> down: joint.bias > 0 ==> -joint.maxForce*dt <= joint.jAcc && joint.jAcc <= 0
  ensures <C13> idle: joint.bias == 0 ==> joint.jAcc == old(joint.jAcc)
  ensures <C14> target: joint.iSum*(joint.a.i_inv + joint.b.i_inv) == 1 && joint.bias != 0 && joint.jAcc != 0 && abs(joint.jAcc) < joint.maxForce*dt ==> (joint.b.w - joint.a.w) == -joint.bias

func RotaryLimitJoint.GetImpulse(joint)
  prop C13
  ensures val: result == abs(joint.jAcc)

// ---- ratchet joint

func RatchetJoint.PreStep(joint, dt)
  prop C12 C13 C14
  requires joint.Constraint != nil && joint.a != nil && joint.b != nil && joint.a != joint.b && dt > 0 && joint.maxBias >= 0 && joint.Ratchet != 0
  option nodef
  modifies joint.iSum, joint.bias, joint.jAcc, joint.Angle
  ensures <C14> mass: joint.a.i_inv + joint.b.i_inv != 0 ==> joint.iSum*(joint.a.i_inv + joint.b.i_inv) == 1
  ensures <C13> inside: (old(joint.Angle) - (joint.b.a - joint.a.a))*joint.Ratchet <= 0 ==> joint.bias == 0 && joint.jAcc == 0
  ensures <C13> tooth: (old(joint.Angle) - (joint.b.a - joint.a.a))*joint.Ratchet <= 0 ==> joint.Angle == floor(((joint.b.a - joint.a.a) - joint.Phase)/joint.Ratchet)*joint.Ratchet + joint.Phase
  ensures <C13> back: (old(joint.Angle) - (joint.b.a - joint.a.a))*joint.Ratchet > 0 ==> joint.Angle == old(joint.Angle) && (pow(joint.errorBias, dt) <= 1 ==> joint.bias*joint.Ratchet <= 0)
  ensures <C13> keep: joint.jAcc == ite(joint.bias == 0, 0, old(joint.jAcc))
  ensures <C13> limit: abs(joint.bias) <= joint.maxBias
  ensures <C14> bias: joint.bias == clampf(-biascoef(joint.errorBias, dt)*ite((old(joint.Angle) - (joint.b.a - joint.a.a))*joint.Ratchet > 0, (old(joint.Angle) - (joint.b.a - joint.a.a)), 0)/dt, -joint.maxBias, joint.maxBias)

func RatchetJoint.ApplyCachedImpulse(joint, dt_coef)
  prop C12
  requires joint.Constraint != nil && joint.a != nil && joint.b != nil && joint.a != joint.b
  modifies joint.a.w, joint.b.w
  ensures second: turnedby(joint.b, joint.jAcc*dt_coef)
  ensures first: turnedby(joint.a, -joint.jAcc*dt_coef)

func RatchetJoint.ApplyImpulse(joint, dt)
  prop C12 C13 C14
  requires joint.Constraint != nil && joint.a != nil && joint.b != nil && joint.a != joint.b && dt >= 0 && joint.maxForce >= 0
  requires joint.Ratchet != 0
  modifies joint.jAcc, joint.a.w, joint.b.w
  ensures <C12> second: turnedby(joint.b, (joint.jAcc - old(joint.jAcc)))
  ensures <C12> first: turnedby(joint.a, -((joint.jAcc - old(joint.jAcc))))
  ensures <C13> oneway: joint.bias != 0 ==> joint.jAcc*joint.Ratchet >= 0 && abs(joint.jAcc) <= joint.maxForce*dt
  ensures <C13> idle: joint.bias == 0 ==> joint.jAcc == old(joint.jAcc)
  ensures <C14> target: joint.iSum*(joint.a.i_inv + joint.b.i_inv) == 1 && joint.bias != 0 && joint.jAcc != 0 && abs(joint.jAcc) < joint.maxForce*dt ==> (joint.b.w - joint.a.w) == -joint.bias

func RatchetJoint.GetImpulse(joint)
  prop C13
  ensures val: result == abs(joint.jAcc)

// ---- gear joint

func GearJoint.PreStep(joint, dt)
  prop C12 C13 C14
  requires joint.Constraint != nil && joint.a != nil && joint.b != nil && joint.a != joint.b && dt > 0 && joint.maxBias >= 0
  option nodef
  modifies joint.iSum, joint.bias
  ensures <C14> mass: joint.a.i_inv*joint.ratio_inv + joint.ratio*joint.b.i_inv != 0 ==> joint.iSum*(joint.a.i_inv*joint.ratio_inv + joint.ratio*joint.b.i_inv) == 1
  ensures <C13> limit: abs(joint.bias) <= joint.maxBias
  ensures <C14> bias: joint.bias == clampf(-biascoef(joint.errorBias, dt)*(joint.b.a*joint.ratio - joint.a.a - joint.phase)/dt, -joint.maxBias, joint.maxBias)

func GearJoint.ApplyCachedImpulse(joint, dt_coef)
  prop C12
  requires joint.Constraint != nil && joint.a != nil && joint.b != nil && joint.a != joint.b
  modifies joint.a.w, joint.b.w
  ensures second: turnedby(joint.b, joint.jAcc*dt_coef)
  ensures first: turnedby(joint.a, -joint.jAcc*dt_coef*joint.ratio_inv)

func GearJoint.ApplyImpulse(joint, dt)
  prop C12 C13 C14
  requires joint.Constraint != nil && joint.a != nil && joint.b != nil && joint.a != joint.b && dt >= 0 && joint.maxForce >= 0
  modifies joint.jAcc, joint.a.w, joint.b.w
  ensures <C12> second: turnedby(joint.b, (joint.jAcc - old(joint.jAcc)))
  ensures <C12> first: turnedby(joint.a, -((joint.jAcc - old(joint.jAcc))*joint.ratio_inv))
  ensures <C13> limit: abs(joint.jAcc) <= joint.maxForce*dt
  ensures <C14> target: joint.iSum*(joint.a.i_inv*joint.ratio_inv + joint.ratio*joint.b.i_inv) == 1 && abs(joint.jAcc) < joint.maxForce*dt ==> joint.b.w*joint.ratio - joint.a.w == joint.bias

func GearJoint.GetImpulse(joint)
  prop C13
  ensures val: result == abs(joint.jAcc)

// ---- simple motor

func SimpleMotor.PreStep(joint, dt)
  prop C12 C14
  requires joint.Constraint != nil && joint.a != nil && joint.b != nil && joint.a != joint.b
  option nodef
  modifies joint.iSum
  ensures <C14> mass: joint.a.i_inv + joint.b.i_inv != 0 ==> joint.iSum*(joint.a.i_inv + joint.b.i_inv) == 1

func SimpleMotor.ApplyCachedImpulse(joint, dt_coef)
  prop C12
  requires joint.Constraint != nil && joint.a != nil && joint.b != nil && joint.a != joint.b
  modifies joint.a.w, joint.b.w
  ensures second: turnedby(joint.b, joint.jAcc*dt_coef)
  ensures first: turnedby(joint.a, -joint.jAcc*dt_coef)

func SimpleMotor.ApplyImpulse(joint, dt)
  prop C12 C13 C14
  requires joint.Constraint != nil && joint.a != nil && joint.b != nil && joint.a != joint.b && dt >= 0 && joint.maxForce >= 0
  modifies joint.jAcc, joint.a.w, joint.b.w
  ensures <C12> second: turnedby(joint.b, (joint.jAcc - old(joint.jAcc)))
  ensures <C12> first: turnedby(joint.a, -((joint.jAcc - old(joint.jAcc))))
  ensures <C13> limit: abs(joint.jAcc) <= joint.maxForce*dt
  ensures <C14> target: joint.iSum*(joint.a.i_inv + joint.b.i_inv) == 1 && abs(joint.jAcc) < joint.maxForce*dt ==> (joint.b.w - joint.a.w) == -joint.Rate

func SimpleMotor.GetImpulse(joint)
  prop C13
  ensures val: result == abs(joint.jAcc)

// ---- constructors

spec freshjoint(c *Constraint, a *Body, b *Body) bool = c != nil && c.a == a && c.b == b && c.space == nil && c.next_a == nil && c.next_b == nil && c.maxForce == INFINITY && c.maxBias == INFINITY && c.errorBias == pow(0.9, 60) && c.collideBodies

func NewConstraint(class, a, b)
  prop C13 C14
  option allocates
  ensures fresh(result)
  ensures init: freshjoint(result, a, b) && result.Class == class

func NewPinJoint(a, b, anchorA, anchorB)
  prop C13 C14
  option nodef
  ensures fresh: freshjoint(result, a, b) && typeis(result.Class, *PinJoint) && result.Class.(*PinJoint).Constraint == result
  ensures dist: result.Class.(*PinJoint).AnchorA == anchorA && result.Class.(*PinJoint).AnchorB == anchorB && result.Class.(*PinJoint).jnAcc == 0 && (a != nil && b != nil ==> result.Class.(*PinJoint).Dist == vlen(mulp(b.transform, anchorB) - mulp(a.transform, anchorA)))

func NewSlideJoint(a, b, anchorA, anchorB, lo, hi)
  prop C13 C14
  option nodef
  ensures fresh: freshjoint(result, a, b) && typeis(result.Class, *SlideJoint) && result.Class.(*SlideJoint).Constraint == result
  ensures set: result.Class.(*SlideJoint).AnchorA == anchorA && result.Class.(*SlideJoint).AnchorB == anchorB && result.Class.(*SlideJoint).Min == lo && result.Class.(*SlideJoint).Max == hi && result.Class.(*SlideJoint).jnAcc == 0

func NewPivotJoint2(a, b, anchorA, anchorB)
  prop C13 C14
  option nodef
  ensures fresh: freshjoint(result, a, b) && typeis(result.Class, *PivotJoint) && result.Class.(*PivotJoint).Constraint == result
  ensures set: result.Class.(*PivotJoint).AnchorA == anchorA && result.Class.(*PivotJoint).AnchorB == anchorB && result.Class.(*PivotJoint).jAcc == Vector{0, 0}

func NewPivotJoint(a, b, pivot)
  prop C13 C14
  option nodef
  requires a != nil ==> rigid(a.transform)
  requires b != nil ==> rigid(b.transform)
  ensures fresh: freshjoint(result, a, b) && typeis(result.Class, *PivotJoint) && result.Class.(*PivotJoint).Constraint == result
  ensures pivota: a != nil && rigid(a.transform) ==> mulp(a.transform, result.Class.(*PivotJoint).AnchorA) == pivot
  ensures pivotb: b != nil && rigid(b.transform) ==> mulp(b.transform, result.Class.(*PivotJoint).AnchorB) == pivot

func NewGrooveJoint(a, b, grooveA, grooveB, anchorB)
  prop C13 C14
  option nodef
  ensures fresh: freshjoint(result, a, b) && typeis(result.Class, *GrooveJoint) && result.Class.(*GrooveJoint).Constraint == result
  ensures set: result.Class.(*GrooveJoint).AnchorB == anchorB && result.Class.(*GrooveJoint).GrooveA == grooveA && result.Class.(*GrooveJoint).GrooveB == grooveB && result.Class.(*GrooveJoint).jAcc == Vector{0, 0}
  ensures axis: dot(grooveB - grooveA, result.Class.(*GrooveJoint).GrooveN) == 0 && cross(grooveB - grooveA, result.Class.(*GrooveJoint).GrooveN) >= 0

func NewDampedSpring(a, b, anchorA, anchorB, restLength, stiffness, damping)
  prop C13 C14
  option nodef
  ensures fresh: freshjoint(result, a, b) && typeis(result.Class, *DampedSpring) && result.Class.(*DampedSpring).Constraint == result
  ensures set: result.Class.(*DampedSpring).AnchorA == anchorA && result.Class.(*DampedSpring).AnchorB == anchorB && result.Class.(*DampedSpring).RestLength == restLength && result.Class.(*DampedSpring).Stiffness == stiffness && result.Class.(*DampedSpring).Damping == damping && result.Class.(*DampedSpring).jAcc == 0

func NewDampedRotarySpring(a, b, restAngle, stiffness, damping)
  prop C13 C14
  option nodef
  ensures fresh: freshjoint(result, a, b) && typeis(result.Class, *DampedRotarySpring) && result.Class.(*DampedRotarySpring).Constraint == result
  ensures set: result.Class.(*DampedRotarySpring).RestAngle == restAngle && result.Class.(*DampedRotarySpring).Stiffness == stiffness && result.Class.(*DampedRotarySpring).Damping == damping && result.Class.(*DampedRotarySpring).jAcc == 0

func NewRotaryLimitJoint(a, b, lo, hi)
  prop C13 C14
  option nodef
  ensures fresh: freshjoint(result, a, b) && typeis(result.Class, *RotaryLimitJoint) && result.Class.(*RotaryLimitJoint).Constraint == result
  ensures set: result.Class.(*RotaryLimitJoint).Min == lo && result.Class.(*RotaryLimitJoint).Max == hi && result.Class.(*RotaryLimitJoint).jAcc == 0

func NewRatchetJoint(a, b, phase, ratchet)
  prop C13 C14
  option nodef
  ensures fresh: freshjoint(result, a, b) && typeis(result.Class, *RatchetJoint) && result.Class.(*RatchetJoint).Constraint == result
  ensures set: result.Class.(*RatchetJoint).Phase == phase && result.Class.(*RatchetJoint).Ratchet == ratchet && result.Class.(*RatchetJoint).jAcc == 0 && (a != nil && b != nil ==> result.Class.(*RatchetJoint).Angle == b.a - a.a)

func NewGearJoint(a, b, phase, ratio)
  prop C13 C14
  option nodef
  ensures fresh: freshjoint(result, a, b) && typeis(result.Class, *GearJoint) && result.Class.(*GearJoint).Constraint == result
  ensures set: result.Class.(*GearJoint).phase == phase && result.Class.(*GearJoint).ratio == ratio && (ratio != 0 ==> result.Class.(*GearJoint).ratio_inv*ratio == 1) && result.Class.(*GearJoint).jAcc == 0

func NewSimpleMotor(a, b, rate)
  prop C13 C14
  option nodef
  ensures fresh: freshjoint(result, a, b) && typeis(result.Class, *SimpleMotor) && result.Class.(*SimpleMotor).Constraint == result
  ensures set: result.Class.(*SimpleMotor).Rate == rate && result.Class.(*SimpleMotor).jAcc == 0

// ---- settings
func Constraint.ActivateBodies(c)
  prop C21
  requires c.a != nil && c.b != nil
  modifies @wake
  ensures awake: (isdynamic(c.a) ==> c.a.sleepingIdleTime == 0) && (isdynamic(c.b) ==> c.b.sleepingIdleTime == 0)
  ensures wakes: roused(c.a) && roused(c.b)

func Constraint.MaxForce(c)
  prop C13
  ensures read: result == c.maxForce

func Constraint.SetMaxForce(c, x)
  prop C13 C21
  requires c.a != nil && c.b != nil
  modifies @wake, c.maxForce
  ensures set: c.maxForce == x
  ensures <C21> wakes: roused(c.a) && roused(c.b)

func Constraint.MaxBias(c)
  prop C13
  ensures read: result == c.maxBias

func Constraint.SetMaxBias(c, x)
  prop C13 C21
  requires c.a != nil && c.b != nil
  modifies @wake, c.maxBias
  ensures set: c.maxBias == x
  ensures <C21> wakes: roused(c.a) && roused(c.b)

func Constraint.ErrorBias(c)
  prop C13
  ensures read: result == c.errorBias

func Constraint.SetErrorBias(c, x)
  prop C13 C21
  requires c.a != nil && c.b != nil
  modifies @wake, c.errorBias
  ensures set: c.errorBias == x
  ensures <C21> wakes: roused(c.a) && roused(c.b)

func Constraint.SetCollideBodies(c, x)
  prop C07 C21
  requires c.a != nil && c.b != nil
  modifies @wake, c.collideBodies
  ensures set: c.collideBodies == x
  ensures <C21> wakes: roused(c.a) && roused(c.b)
