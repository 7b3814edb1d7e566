package cp

import (
	"math"
	"sync"

	"github.com/jakecoffman/cp/v2/zzrac"
)

// A random small world; one per generated case, so that all arguments of a call come from it.
type verifWorldT struct {
	space  *Space
	bodies []*Body
	shapes []*Shape
	cons   []*Constraint
	arbs   []*Arbiter
}

var verifW *verifWorldT
var verifCurrent *Arbiter // the arbiter generated last for the current case

func vnum(r *zzrac.Rand) float64 {
	switch r.Intn(6) {
	case 0:
		return 0
	case 1:
		return float64(r.Intn(9) - 4)
	case 2:
		return float64(r.Intn(17)-8) / 4
	}
	return math.Round(r.NormFloat64()*300) / 100
}
func vpos(r *zzrac.Rand) float64 { return math.Abs(vnum(r)) + 0.25 }
func vvec(r *zzrac.Rand) Vector  { return Vector{vnum(r), vnum(r)} }
func vang(r *zzrac.Rand) float64 {
	return []float64{0, math.Pi / 2, -math.Pi / 2, math.Pi, r.Float64() * 6, r.Float64() - 0.5, -r.Float64() * 6}[r.Intn(7)]
}

func vbody(r *zzrac.Rand, static bool) *Body {
	var b *Body
	k := r.Intn(8)
	switch {
	case static && k == 0:
		b = NewStaticBody()
	case static && k == 1:
		b = NewKinematicBody()
	default:
		b = NewBody(vpos(r), vpos(r))
	}
	b.SetPosition(vvec(r).Mult(0.6))
	b.SetAngle(vang(r))
	if r.Intn(4) > 0 {
		b.SetVelocityVector(vvec(r))
		b.SetAngularVelocity(vnum(r))
	}
	if r.Intn(3) == 0 {
		b.f, b.t = vvec(r), vnum(r)
	}
	if r.Intn(3) == 0 {
		b.v_bias, b.w_bias = vvec(r), vnum(r)
	}
	return b
}

func vpoly(r *zzrac.Rand) []Vector {
	n := 3 + r.Intn(4)
	var vs []Vector
	a := r.Float64() * 6
	rx, ry := vpos(r)*0.6, vpos(r)*0.6
	for i := 0; i < n; i++ {
		vs = append(vs, Vector{rx * math.Cos(a), ry * math.Sin(a)})
		a += 2 * math.Pi / float64(n) * (0.7 + 0.5*r.Float64())
	}
	o := Vector{}
	if r.Intn(2) == 0 {
		o = vvec(r).Mult(0.3)
	}
	for i := range vs {
		vs[i] = vs[i].Add(o)
	}
	return vs
}

func vshape(r *zzrac.Rand, b *Body) *Shape {
	var s *Shape
	rad := []float64{0, 0, 0.1, 0.5, vpos(r)}[r.Intn(5)]
	off := Vector{}
	if r.Intn(2) == 0 {
		off = vvec(r).Mult(0.3)
	}
	switch r.Intn(5) {
	case 0, 1:
		s = NewCircle(b, vpos(r), off)
	case 2:
		s = NewSegment(b, off, off.Add(vvec(r)), rad)
	case 3:
		s = NewBox(b, vpos(r), vpos(r), rad)
	default:
		vs := vpoly(r)
		s = NewPolyShape(b, len(vs), vs, NewTransformIdentity(), rad)
	}
	s.e, s.u = []float64{0, 0.5, 1, 0.3}[r.Intn(4)], []float64{0, 0.5, 1, 0.7}[r.Intn(4)]
	if r.Intn(3) == 0 {
		s.surfaceV = vvec(r)
	}
	if r.Intn(6) == 0 {
		s.sensor = true
	}
	if r.Intn(3) == 0 {
		s.Filter = NewShapeFilter(uint(r.Intn(3)), uint(1+r.Intn(7)), uint(1+r.Intn(7)))
	}
	s.collisionType = CollisionType(r.Intn(3))
	if r.Intn(3) == 0 {
		s.massInfo.m = vpos(r)
	}
	if b != nil {
		s.Update(b.transform)
	}
	return s
}

func vjoint(r *zzrac.Rand, a, b *Body, k int) *Constraint {
	var c *Constraint
	switch k {
	case 0:
		c = NewPinJoint(a, b, vvec(r), vvec(r))
	case 1:
		c = NewSlideJoint(a, b, vvec(r), vvec(r), vpos(r), vpos(r)+1)
	case 2:
		c = NewPivotJoint2(a, b, vvec(r), vvec(r))
	case 3:
		c = NewGrooveJoint(a, b, vvec(r), vvec(r).Add(Vector{5, 0}), vvec(r))
	case 4:
		c = NewDampedSpring(a, b, vvec(r), vvec(r), vpos(r), vpos(r), vpos(r)*0.3)
	case 5:
		c = NewDampedRotarySpring(a, b, vnum(r), vpos(r), vpos(r)*0.3)
	case 6:
		c = NewRotaryLimitJoint(a, b, -vpos(r), vpos(r))
	case 7:
		c = NewRatchetJoint(a, b, vnum(r), []float64{0.5, -0.5, 1, -2}[r.Intn(4)])
	case 8:
		c = NewGearJoint(a, b, vnum(r), []float64{1, -1, 0.5, 2, -3}[r.Intn(5)])
	default:
		c = NewSimpleMotor(a, b, vnum(r))
	}
	if r.Intn(2) == 0 {
		c.maxForce = vpos(r) * []float64{0.1, 1, 30}[r.Intn(3)]
	}
	if r.Intn(2) == 0 {
		c.maxBias = vpos(r)
	}
	if r.Intn(3) == 0 {
		c.errorBias = r.Float64()
	}
	if r.Intn(4) == 0 {
		c.collideBodies = false
	}
	if j, ok := c.Class.(*RatchetJoint); ok && r.Intn(4) > 0 {
		j.Angle = vang(r) // the constructor starts at rest
	}
	if j, ok := c.Class.(*PinJoint); ok && r.Intn(2) == 0 {
		j.Dist = vpos(r)
	}
	// random solver state
	prep := r.Intn(4) > 0
	if prep {
		func() {
			defer func() { recover() }()
			va, wa, vb, wb := a.v, a.w, b.v, b.w
			c.Class.PreStep([]float64{1.0 / 60, 0.1, 1}[r.Intn(3)])
			a.v, a.w, b.v, b.w = va, wa, vb, wb
		}()
	}
	acc := vnum(r) * []float64{1, 0.1}[r.Intn(2)]
	if r.Intn(4) == 0 {
		acc = 0
	}
	switch j := c.Class.(type) {
	case *PinJoint:
		j.jnAcc = acc
	case *SlideJoint:
		j.jnAcc = -math.Abs(acc)
	case *PivotJoint:
		j.jAcc = vvec(r)
	case *GrooveJoint:
		j.jAcc = vvec(r)
	case *DampedSpring:
		j.jAcc = acc
		j.targetVrn = vnum(r)
	case *DampedRotarySpring:
		j.jAcc = acc
		j.targetWrn = vnum(r)
	case *RotaryLimitJoint:
		j.jAcc = acc
	case *RatchetJoint:
		j.jAcc = math.Copysign(acc, j.Ratchet)
	case *GearJoint:
		j.jAcc = acc
	case *SimpleMotor:
		j.jAcc = acc
	}
	return c
}

func vlightPool(s *Space) {
	s.pooledArbiters = sync.Pool{New: func() interface{} { return &Arbiter{} }}
	s.cachedArbiters.pooledBins = nil
	s.collisionHandlers.pooledBins = nil
	for _, i := range []*SpatialIndex{s.staticShapes, s.dynamicShapes} {
		if t, ok := i.class.(*BBTree); ok {
			t.pooledNodes = nil
			t.leaves.pooledBins = nil
		}
		if t, ok := i.class.(*SpaceHash); ok {
			t.pooledBins = nil
			t.handleSet.pooledBins = nil
		}
	}
}

// varb builds a stand-alone arbiter between two bodies with random solver state.
func varb(r *zzrac.Rand, sa, sb *Shape) *Arbiter {
	arb := &Arbiter{}
	arb.Init(sa, sb)
	arb.count = r.Intn(3)
	arb.contacts = make([]Contact, arb.count, 2)
	arb.n = ForAngle(vang(r))
	arb.e, arb.u = sa.e*sb.e, sa.u*sb.u
	if r.Intn(3) == 0 {
		arb.surface_vr = vvec(r)
	}
	for i := range arb.contacts {
		c := &arb.contacts[i]
		c.r1, c.r2 = vvec(r), vvec(r)
		c.jnAcc = math.Abs(vnum(r))
		c.jtAcc = vnum(r)
		if math.Abs(c.jtAcc) > arb.u*c.jnAcc {
			c.jtAcc = arb.u * c.jnAcc * (2*r.Float64() - 1)
		}
		c.jBias = math.Abs(vnum(r)) * 0.3
		c.hash = HashValue(r.Intn(3))
		c.bias, c.bounce = math.Abs(vnum(r)), vnum(r)*0.3
		c.nMass = 1 / k_scalar(arb.body_a, arb.body_b, c.r1, c.r2, arb.n)
		c.tMass = 1 / k_scalar(arb.body_a, arb.body_b, c.r1, c.r2, arb.n.Perp())
	}
	arb.state = r.Intn(5)
	arb.swapped = r.Intn(2) == 0
	arb.stamp = uint(r.Intn(4))
	arb.handler, arb.handlerA, arb.handlerB = &CollisionHandlerDefault, &CollisionHandlerDoNothing, &CollisionHandlerDoNothing
	return arb
}

// vsane reports whether all bodies are finite and of moderate size.
func (w *verifWorldT) sane() bool {
	ok := true
	num := func(xs ...float64) {
		for _, x := range xs {
			if !(math.Abs(x) < 1e3) {
				ok = false
			}
		}
	}
	for _, b := range w.bodies {
		num(b.p.X, b.p.Y, b.v.X, b.v.Y, b.a, b.w, b.f.X, b.f.Y, b.t, b.v_bias.X, b.v_bias.Y, b.w_bias, b.cog.X, b.cog.Y)
	}
	return ok
}

func verifWorld(r *zzrac.Rand) *verifWorldT {
	if verifW != nil {
		return verifW
	}
	for k := 0; k < 50; k++ {
		w := vworld(r)
		if w.sane() {
			verifW = w
			return w
		}
	}
	panic("no sane world")
}

func vworld(r *zzrac.Rand) *verifWorldT {
	w := &verifWorldT{}
	w.space = NewSpace()
	vlightPool(w.space)
	w.space.SetGravity([]Vector{{}, {0, -10}, {3, 4}}[r.Intn(3)])
	if r.Intn(2) == 0 {
		w.space.SetDamping(0.5 + r.Float64()/2)
	}
	if r.Intn(3) == 0 {
		w.space.SleepTimeThreshold = 0.5
		w.space.IdleSpeedThreshold = vpos(r)
	}
	if r.Intn(6) == 0 {
		w.space.UseSpatialHash(2, 30)
	}
	if r.Intn(3) == 0 {
		w.space.NewWildcardCollisionHandler(CollisionType(r.Intn(3)))
	}
	if r.Intn(3) == 0 {
		w.space.NewCollisionHandler(CollisionType(r.Intn(3)), CollisionType(r.Intn(3)))
	}
	nb := 2 + r.Intn(3)
	for i := 0; i < nb; i++ {
		b := vbody(r, true)
		w.bodies = append(w.bodies, w.space.AddBody(b))
		for k := r.Intn(3); k > 0; k-- {
			s := vshape(r, b)
			f, t, vb, wb := b.f, b.t, b.v_bias, b.w_bias
			w.shapes = append(w.shapes, w.space.AddShape(s))
			b.f, b.t, b.v_bias, b.w_bias = f, t, vb, wb
		}
	}
	for len(w.shapes) < 2 {
		b := w.bodies[len(w.shapes)]
		w.shapes = append(w.shapes, w.space.AddShape(vshape(r, b)))
	}
	if r.Intn(2) == 0 {
		w.bodies = append(w.bodies, w.space.StaticBody)
		w.shapes = append(w.shapes, w.space.AddShape(vshape(r, w.space.StaticBody)))
	}
	for k := r.Intn(4); k > 0; k-- {
		i := r.Intn(nb)
		j := (i + 1 + r.Intn(nb-1)) % nb
		if w.bodies[i].m_inv == 0 && w.bodies[j].m_inv == 0 {
			continue
		}
		c := vjoint(r, w.bodies[i], w.bodies[j], r.Intn(10))
		w.cons = append(w.cons, w.space.AddConstraint(c))
	}
	func() {
		defer func() {
			if recover() != nil {
				w.space.locked = 0
			}
		}()
		steps := r.Intn(4)
		if r.Intn(8) == 0 {
			steps = 40
		}
		for k := steps; k > 0 && w.sane(); k-- {
			w.space.Step(1.0 / 60)
		}
	}()
	if w.space.contactBuffersHead == nil {
		w.space.PushFreshContactBuffer()
	}
	vlightPool(w.space)
	w.arbs = append(w.arbs, w.space.arbiters...)
	return w
}

func vpick(r *zzrac.Rand) *Body {
	w := verifWorld(r)
	return w.bodies[r.Intn(len(w.bodies))]
}

// vfree returns a body outside any space half of the time.
func vfree(r *zzrac.Rand) *Body {
	if r.Intn(2) == 0 {
		return vpick(r)
	}
	b := vbody(r, true)
	for k := r.Intn(3); k > 0; k-- {
		b.AddShape(vshape(r, b))
	}
	return b
}

func vpair(r *zzrac.Rand) (*Body, *Body) {
	if r.Intn(3) == 0 {
		w := verifWorld(r)
		i := r.Intn(len(w.bodies))
		j := (i + 1 + r.Intn(len(w.bodies)-1)) % len(w.bodies)
		if w.bodies[i].m_inv+w.bodies[j].m_inv > 0 {
			return w.bodies[i], w.bodies[j]
		}
	}
	a, b := vbody(r, true), vbody(r, true)
	if a.m_inv == 0 && b.m_inv == 0 {
		b = NewBody(vpos(r), vpos(r))
	}
	return a, b
}

func vshapeOf(r *zzrac.Rand) *Shape {
	if r.Intn(2) == 0 {
		w := verifWorld(r)
		return w.shapes[r.Intn(len(w.shapes))]
	}
	return vshape(r, vbody(r, true))
}

func vclass[T any](r *zzrac.Rand) any {
	for k := 0; k < 200; k++ {
		s := vshape(r, vbody(r, true))
		if c, ok := s.Class.(T); ok {
			return c
		}
	}
	return nil
}

func vjointOf(k int) func(r *zzrac.Rand) any {
	return func(r *zzrac.Rand) any {
		a, b := vpair(r)
		return vjoint(r, a, b, k).Class
	}
}

func init() {
	verifNewCase = func() { verifW, verifCurrent = nil, nil }
	g := verifGens
	g["*cp.Space"] = func(r *zzrac.Rand) any { return verifWorld(r).space }
	g["cp.Body"] = func(r *zzrac.Rand) any { return *vfree(r) }
	g["*cp.Body"] = func(r *zzrac.Rand) any { return vfree(r) }
	g["*cp.Shape"] = func(r *zzrac.Rand) any { return vshapeOf(r) }
	g["*cp.Circle"] = vclass[*Circle]
	g["*cp.Segment"] = vclass[*Segment]
	g["*cp.PolyShape"] = vclass[*PolyShape]
	arbGen := func(r *zzrac.Rand) *Arbiter {
		w := verifWorld(r)
		if len(w.arbs) > 0 && r.Intn(3) == 0 {
			return w.arbs[r.Intn(len(w.arbs))]
		}
		for k := 0; ; k++ {
			a, b := w.shapes[r.Intn(len(w.shapes))], w.shapes[r.Intn(len(w.shapes))]
			if a.body.m_inv+b.body.m_inv > 0 && a.body != b.body {
				return varb(r, a, b)
			}
			if k > 20 {
				x, y := vpair(r)
				return varb(r, vshape(r, x), vshape(r, y))
			}
		}
	}
	g["*cp.Arbiter"] = func(r *zzrac.Rand) any {
		verifCurrent = arbGen(r)
		return verifCurrent
	}
	g["*cp.ContactPointSet"] = func(r *zzrac.Rand) any {
		w := verifWorld(r)
		set := ContactPointSet{Count: r.Intn(3), Normal: ForAngle(vang(r))}
		if a, ok := verifCurrent, verifCurrent != nil; ok && r.Intn(3) > 0 {
			set = a.ContactPointSet()
			return &set
		}
		_ = w
		for i := 0; i < set.Count; i++ {
			set.Points[i].PointA, set.Points[i].PointB = vvec(r), vvec(r)
		}
		return &set
	}
	g["*cp.CollisionInfo"] = func(r *zzrac.Rand) any {
		w := verifWorld(r)
		var a, b *Shape
		if arb, ok := verifCurrent, verifCurrent != nil; ok && r.Intn(2) == 0 {
			a, b = arb.a, arb.b
			if r.Intn(2) == 0 {
				a, b = b, a
			}
		} else {
			a, b = w.shapes[r.Intn(len(w.shapes))], vshapeOf(r)
		}
		info := &CollisionInfo{a: a, b: b, n: ForAngle(vang(r)), arr: make([]Contact, 2)}
		info.count = r.Intn(3)
		for i := 0; i < info.count; i++ {
			info.arr[i] = Contact{r1: vvec(r), r2: vvec(r), hash: HashValue(r.Intn(3)), jnAcc: vnum(r), jtAcc: vnum(r)}
		}
		return info
	}
	// segment queries: the result starts out as 'no hit' at the end point
	var lastB Vector
	for _, n := range []string{"CircleSegmentQuery", "Circle.SegmentQuery", "Segment.SegmentQuery", "PolyShape.SegmentQuery", "Shape.SegmentQuery"} {
		g[n+".a"] = func(r *zzrac.Rand) any { return vvec(r) }
		g[n+".b"] = func(r *zzrac.Rand) any { lastB = vvec(r); return lastB }
		rad := func(r *zzrac.Rand) any { return []float64{0, 0, 0.1, vpos(r)}[r.Intn(4)] }
		g[n+".radius"], g[n+".r1"], g[n+".r2"] = rad, rad, rad
	}
	g["*cp.SegmentQueryInfo"] = func(r *zzrac.Rand) any { return &SegmentQueryInfo{nil, lastB, Vector{}, 1} }
	g["*cp.Constraint"] = func(r *zzrac.Rand) any {
		w := verifWorld(r)
		if len(w.cons) > 0 && r.Intn(2) == 0 {
			return w.cons[r.Intn(len(w.cons))]
		}
		a, b := vpair(r)
		return vjoint(r, a, b, r.Intn(10))
	}
	g["cp.Constraint"] = func(r *zzrac.Rand) any { return *(g["*cp.Constraint"](r).(*Constraint)) }
	g["cp.Constrainer"] = func(r *zzrac.Rand) any { return vjointOf(r.Intn(10))(r) }
	for i, n := range []string{"PinJoint", "SlideJoint", "PivotJoint", "GrooveJoint", "DampedSpring", "DampedRotarySpring", "RotaryLimitJoint", "RatchetJoint", "GearJoint", "SimpleMotor"} {
		g["*cp."+n] = vjointOf(i)
	}
	dt := func(r *zzrac.Rand) any { return []float64{1.0 / 60, 0.1, 1, 0.5, 1.0 / 120}[r.Intn(5)] }
	g["dt"] = dt
	g["dt_coef"] = dt
	// default integration callbacks take a body first
	g["cp.ShapeFilter"] = func(r *zzrac.Rand) any {
		return NewShapeFilter(uint(r.Intn(3)), uint(r.Intn(8)), uint(r.Intn(8)))
	}
}
