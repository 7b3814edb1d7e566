SEEDS = [
dict(id='c15-filter-adjacent', prop='C15',
  edits=[('hashset.go', '''				*prevPtr = next

				set.entries--
				set.recycle(bin)
''', '''				*prevPtr = next
				prevPtr = &bin.next

				set.entries--
				set.recycle(bin)
''')],
  needs='Filter removing two neighbouring entries of one bucket', breaks='the second of two neighbouring entries removed by one Filter stays reachable',
  demo='''
import "testing"

func TestZZDemo(t *testing.T) {
	set := NewHashSet(func(a int, b *int) bool { return b != nil && a == *b })
	for i := 0; i < 3; i++ {
		set.Insert(7, i, func(v int) *int { x := v; return &x })
	}
	set.Filter(func(p *int) bool { return *p == 0 })
	n := 0
	set.Each(func(p *int) {
		if p == nil || *p != 0 {
			t.Fatal("removed entry still visited")
		}
		n++
	})
	if n != 1 || set.Count() != 1 {
		t.Fatal("visited", n, "count", set.Count())
	}
}
'''),
dict(id='c11-friction-old-normal', prop='C11',
  edits=[('arbiter.go', 'jtMax := friction * con.jnAcc', 'jtMax := friction * math.Max(con.jnAcc, jnOld)')],
  needs='a contact whose accumulated normal impulse falls in a pass while it slides', breaks='the friction impulse leaves the friction cone of the current normal impulse',
  demo='''
import (
	"math"
	"testing"
)

func TestZZDemo(t *testing.T) {
	a, b := NewBody(1, 1), NewBody(1, 1)
	b.p = Vector{0, 2}
	b.v = Vector{50, 3}
	arb := &Arbiter{body_a: a, body_b: b, n: Vector{0, 1}, u: 0.5, count: 1,
		contacts: []Contact{{nMass: 0.5, tMass: 0.5, jnAcc: 2}}}
	arb.ApplyImpulse()
	c := arb.contacts[0]
	if math.Abs(c.jtAcc) > 0.5*c.jnAcc+1e-9 {
		t.Fatal("friction", c.jtAcc, "normal", c.jnAcc)
	}
}
'''),
dict(id='c08-moment-after-cog', prop='C08',
  edits=[('body.go', '''			body.i += m*info.i + body.cog.DistanceSq(info.cog)*(m*body.m)/msum
			body.cog = body.cog.Lerp(info.cog, m/msum)
''', '''			body.cog = body.cog.Lerp(info.cog, m/msum)
			body.i += m*info.i + body.cog.DistanceSq(info.cog)*(m*body.m)/msum
''')],
  needs='a body with at least two massive shapes with different centres', breaks='the moment of a compound body is not the sum about the common centre of gravity',
  demo='''
import (
	"math"
	"testing"
)

func TestZZDemo(t *testing.T) {
	b := NewBody(0, 0)
	for _, x := range []float64{0, 4} {
		c := NewCircle(b, 1, Vector{x, 0})
		c.SetMass(1)
		b.AddShape(c)
	}
	// each disc: 1/2 + 2^2
	if math.Abs(b.Moment()-9) > 1e-9 {
		t.Fatal("moment", b.Moment())
	}
}
'''),
dict(id='c18-unthread-head', prop='C18',
  edits=[('arbiter.go', '''	if next != nil {
		next.ThreadForBody(body).prev = prev
	}
''', '''	if next != nil && prev != nil {
		next.ThreadForBody(body).prev = prev
	}
''')],
  needs='unthreading the newest of several contacts of a body', breaks='the new head of the contact list keeps a previous element',
  demo='''
import "testing"

func TestZZDemo(t *testing.T) {
	a, b, c := NewBody(1, 1), NewBody(1, 1), NewBody(1, 1)
	x := &Arbiter{body_a: a, body_b: b}
	y := &Arbiter{body_a: a, body_b: c}
	for _, arb := range []*Arbiter{x, y} {
		arb.body_a.PushArbiter(arb)
		arb.body_b.PushArbiter(arb)
	}
	y.Unthread()
	x.Unthread()
	if a.arbiterList != nil {
		t.Fatal("list not empty")
	}
}
'''),
dict(id='c30-persist-fewer', prop='C30',
  edits=[('arbiter.go', 'for j := 0; j < arb.count; j++ {', 'for j := 0; j < arb.count && j < info.count; j++ {')],
  needs='a pair going from two contacts to one, the second being the one that persists', breaks='the persisting contact loses its accumulated impulses',
  demo='''
import "testing"

func TestZZDemo(t *testing.T) {
	space := NewSpace()
	a := space.AddShape(NewCircle(space.AddBody(NewBody(1, 1)), 1, Vector{}))
	b := space.AddShape(NewCircle(space.AddBody(NewBody(1, 1)), 1, Vector{}))
	arb := (&Arbiter{}).Init(a, b)
	arb.contacts = []Contact{{hash: 1, jnAcc: 3}, {hash: 2, jnAcc: 5, jtAcc: 1}}
	arb.count = 2
	info := &CollisionInfo{a: a, b: b, n: Vector{1, 0}, count: 1, arr: make([]Contact, 2)}
	info.arr[0].hash = 2
	arb.Update(info, space)
	if arb.contacts[0].jnAcc != 5 || arb.contacts[0].jtAcc != 1 {
		t.Fatal("lost", arb.contacts[0])
	}
}
'''),
dict(id='c13-ratchet-negative', prop='C13',
  edits=[('ratchetjoint.go', 'jMax*math.Abs(ratchet))/ratchet', 'jMax*ratchet)/ratchet')],
  needs='a ratchet joint with a negative ratchet', breaks='the impulse of a negative ratchet is pinned to its limit',
  demo='''
import (
	"math"
	"testing"
)

func TestZZDemo(t *testing.T) {
	a, b := NewBody(1, 1), NewBody(1, 1)
	c := NewRatchetJoint(a, b, 0, -1)
	c.maxForce = 10
	j := c.Class.(*RatchetJoint)
	j.iSum = 0.5
	j.bias = 1e-3
	j.ApplyImpulse(1)
	if math.Abs(j.jAcc) > 0.001 {
		t.Fatal("impulse", j.jAcc)
	}
}
'''),
dict(id='c12-gear-cached', prop='C12',
  edits=[('gearjoint.go', '''	j := joint.jAcc * dt_coef
	a.w -= j * a.i_inv * joint.ratio_inv
''', '''	j := joint.jAcc * dt_coef
	a.w -= j * a.i_inv * joint.ratio
''')],
  needs='a gear joint with a ratio other than one, carried over a step', breaks='the cached gear impulse is not split in the inverse ratio',
  demo='''
import (
	"math"
	"testing"
)

func TestZZDemo(t *testing.T) {
	a, b := NewBody(1, 1), NewBody(1, 1)
	j := NewGearJoint(a, b, 0, 4).Class.(*GearJoint)
	j.jAcc = 1
	j.ApplyCachedImpulse(1)
	if math.Abs(a.w*4+b.w) > 1e-9 {
		t.Fatal(a.w, b.w)
	}
}
'''),
dict(id='c14-pivot-lever', prop='C14',
  edits=[('everything.go', 'r2nxy := -r2.X * r2.Y * b_i_inv', 'r2nxy := -r2.X * r1.Y * b_i_inv')],
  needs='a two-dimensional joint whose anchors have different offsets', breaks='one pass does not reach the velocity target',
  demo='''
import "testing"

func TestZZDemo(t *testing.T) {
	a, b := NewBody(1, 1), NewBody(2, 3)
	b.v = Vector{1, -2}
	b.w = 0.5
	r1, r2 := Vector{1, 0.5}, Vector{-2, 1}
	k := k_tensor(a, b, r1, r2)
	apply_impulses(a, b, r1, r2, k.Transform(relative_velocity(a, b, r1, r2).Neg()))
	if relative_velocity(a, b, r1, r2).Length() > 1e-9 {
		t.Fatal(relative_velocity(a, b, r1, r2))
	}
}
'''),
dict(id='c09-world-force-arm', prop='C09',
  edits=[('body.go', '''	body.f = body.f.Add(force)

	r := point.Sub(body.transform.Point(body.cog))
''', '''	body.f = body.f.Add(force)

	r := point.Sub(body.Position())
''')],
  needs='a body whose centre of gravity is not its origin', breaks='the torque of a force is taken about the origin instead of the centre of gravity',
  demo='''
import "testing"

func TestZZDemo(t *testing.T) {
	b := NewBody(1, 1)
	b.cog = Vector{2, 0}
	b.SetPosition(Vector{})
	b.ApplyForceAtWorldPoint(Vector{0, 1}, Vector{2, 0})
	if b.Torque() > 1e-9 || b.Torque() < -1e-9 {
		t.Fatal("torque", b.Torque())
	}
}
'''),
dict(id='c10-bias-angle-kept', prop='C10',
  edits=[('body.go', '''	body.v_bias = Vector{}
	body.w_bias = 0
}''', '''	body.v_bias = Vector{}
	if body.w != 0 {
		body.w_bias = 0
	}
}''')],
  needs='a body pushed apart with rotation while its own angular velocity is exactly zero', breaks='the positional correction is applied again in the next step',
  demo='''
import "testing"

func TestZZDemo(t *testing.T) {
	b := NewBody(1, 1)
	b.w_bias = 1
	BodyUpdatePosition(b, 1)
	BodyUpdatePosition(b, 1)
	if b.Angle() != 1 {
		t.Fatal("angle", b.Angle())
	}
}
'''),
dict(id='c23-recycle-early', prop='C23',
  edits=[('space.go', '} else if stamp-head.next.stamp > space.collisionPersistence {', '} else if stamp-head.next.stamp >= space.collisionPersistence {')],
  needs='contacts of a cached pair reused exactly collisionPersistence steps after their buffer was stamped', breaks='a buffer is handed out again while contacts in it may still be used',
  demo='''
import "testing"

func TestZZDemo(t *testing.T) {
	space := NewSpace()
	space.collisionPersistence = 3
	var last *ContactBuffer
	for i := 0; i < 12; i++ {
		space.stamp++
		before := map[*ContactBuffer]uint{}
		if h := space.contactBuffersHead; h != nil {
			for b := h.next; ; b = b.next {
				before[b] = b.stamp
				if b == h {
					break
				}
			}
		}
		space.PushFreshContactBuffer()
		last = space.contactBuffersHead
		if s, ok := before[last]; ok && space.stamp-s <= 3 {
			t.Fatal("buffer of step", s, "recycled in step", space.stamp)
		}
	}
}
'''),
dict(id='c21-joint-nocollide', prop='C21',
  edits=[('space.go', '''		for constraint := body.constraintList; constraint != nil; constraint = constraint.Next(body) {
			if body == constraint.a {
				FloodFillComponent(root, constraint.b)
''', '''		for constraint := body.constraintList; constraint != nil; constraint = constraint.Next(body) {
			if !constraint.collideBodies {
				continue
			}
			if body == constraint.a {
				FloodFillComponent(root, constraint.b)
''')],
  needs='bodies joined by a joint that also turns off their collisions', breaks='two jointed bodies fall asleep separately',
  demo='''
import "testing"

func TestZZDemo(t *testing.T) {
	space := NewSpace()
	a, b := space.AddBody(NewBody(1, 1)), space.AddBody(NewBody(1, 1))
	j := space.AddConstraint(NewPivotJoint2(a, b, Vector{}, Vector{}))
	j.SetCollideBodies(false)
	FloodFillComponent(a, a)
	if b.ComponentRoot() != a {
		t.Fatal("jointed body left out of the group")
	}
}
'''),
dict(id='c20-null-key', prop='C20',
  edits=[('space.go', 'if key == nil || space.PostStepCallback(key) == nil {', 'if space.PostStepCallback(key) == nil {')],
  needs='two callbacks registered without a key before the space unlocks', breaks='the second callback without a key is dropped',
  demo='''
import "testing"

func TestZZDemo(t *testing.T) {
	space := NewSpace()
	space.Lock()
	n := 0
	f := func(*Space, interface{}, interface{}) { n++ }
	space.AddPostStepCallback(f, nil, nil)
	space.AddPostStepCallback(f, nil, nil)
	space.Unlock(true)
	if n != 2 {
		t.Fatal("ran", n)
	}
}
'''),
dict(id='c16-ray-tie', prop='C16',
  edits=[('bbtree.go', """			t_exit = math.Min(t_exit, subtree.b.SubtreeSegmentQuery(obj, a, b, t_exit, f, data))
		}
		if tA < t_exit {
""", """			t_exit = math.Min(t_exit, subtree.b.SubtreeSegmentQuery(obj, a, b, t_exit, f, data))
		}
		if tA < t_exit && (tA > tB || tB > 0) {
""")],
  needs='a ray starting inside the boxes of both halves of the tree', breaks='one of two overlapping objects at the start of a ray is never offered',
  demo="""
import "testing"

func TestZZDemo(t *testing.T) {
	idx := NewBBTree(ShapeGetBB, nil)
	body := NewBody(1, 1)
	for i := 0; i < 2; i++ {
		s := NewCircle(body, 2, Vector{float64(i), 0})
		s.CacheBB()
		idx.class.Insert(s, HashValue(i+1))
	}
	n := 0
	idx.class.SegmentQuery(nil, Vector{0.5, 0}, Vector{10, 0}, 1, func(interface{}, *Shape, interface{}) float64 { n++; return 1 }, nil)
	if n != 2 {
		t.Fatal("visited", n)
	}
}
"""),
dict(id='c17-orphan-stops', prop='C17',
  edits=[('spacehash.go', '''func (hash *SpaceHash) queryHelper(binPtr **SpaceHashBin, obj interface{}, f SpatialIndexQuery, data interface{}) {
restart:
	for bin''', '''func (hash *SpaceHash) queryHelper(binPtr **SpaceHashBin, obj interface{}, f SpatialIndexQuery, data interface{}) {
	for bin'''), ('spacehash.go', '''			f(obj, other, 0, data)
			hand.stamp = hash.stamp
		} else {
			hash.removeOrphanedHandles(binPtr)
			goto restart
		}''', '''			f(obj, other, 0, data)
			hand.stamp = hash.stamp
		} else {
			hash.removeOrphanedHandles(binPtr)
			return
		}''')],
  needs='a query of a cell in which an object was removed and an older one is still present', breaks='the objects behind the removed one are missed by the first query',
  demo='''
import "testing"

func TestZZDemo(t *testing.T) {
	idx := NewSpaceHash(10, 100, ShapeGetBB, nil)
	body := NewBody(1, 1)
	var sh []*Shape
	for i := 0; i < 2; i++ {
		s := NewCircle(body, 1, Vector{5, 5})
		s.CacheBB()
		s.hashid = HashValue(i + 1)
		sh = append(sh, s)
		idx.class.Insert(s, s.hashid)
	}
	idx.class.Remove(sh[1], sh[1].hashid)
	n := 0
	idx.class.Query(nil, BB{4, 4, 6, 6}, func(_ interface{}, _ *Shape, id uint32, _ interface{}) uint32 { n++; return id }, nil)
	if n != 1 {
		t.Fatal("visited", n)
	}
}
'''),
dict(id='c19-separate-b-swap', prop='C19',
  edits=[('arbiter.go', '''	handler.SeparateFunc(arb, space, handler.UserData)
	arb.swapped = !arb.swapped
''', '''	handler.SeparateFunc(arb, space, handler.UserData)
	arb.swapped = false
''')],
  needs='a separating pair that was in swapped order', breaks='the pair is presented in the wrong order after the second wildcard separate callback',
  demo='''
import "testing"

func TestZZDemo(t *testing.T) {
	arb := &Arbiter{handlerB: &CollisionHandlerDoNothing, swapped: true}
	arb.CallWildcardSeparateB(nil)
	if !arb.swapped {
		t.Fatal("order lost")
	}
}
'''),
dict(id='c22-static-sleeping-index', prop='C22',
  edits=[('body.go', '''			body.space.dynamicBodies = append(body.space.dynamicBodies[:i], body.space.dynamicBodies[i+1:]...)
				break
			}
		}
		body.space.staticBodies = append(body.space.staticBodies, body)
''', '''			body.space.dynamicBodies = append(body.space.dynamicBodies[:i], body.space.dynamicBodies[i+1:]...)
				break
			}
		}
		if len(body.shapeList) > 0 {
			body.space.staticBodies = append(body.space.staticBodies, body)
		}
''')],
  needs='a body without shapes made static while in a space', breaks='the body is in no list of the space any more',
  demo='''
import "testing"

func TestZZDemo(t *testing.T) {
	space := NewSpace()
	b := space.AddBody(NewBody(1, 1))
	b.SetType(BODY_STATIC)
	if !Contains(space.staticBodies, b) {
		t.Fatal("body lost")
	}
}
'''),
dict(id='c07-constraint-swapped', prop='C07',
  edits=[('space.go', '''((constraint.a == a && constraint.b == b) ||
			(constraint.a == b && constraint.b == a)) {''', '''((constraint.a == a && constraint.b == b) ||
			(constraint.a == b && constraint.next_a != nil)) {''')],
  needs='bodies joined by a non-colliding joint given in the opposite order', breaks='a non-colliding joint no longer keeps its bodies apart in one order',
  demo='''
import "testing"

func TestZZDemo(t *testing.T) {
	space := NewSpace()
	a, b := space.AddBody(NewBody(1, 1)), space.AddBody(NewBody(1, 1))
	j := space.AddConstraint(NewPivotJoint2(b, a, Vector{}, Vector{}))
	j.SetCollideBodies(false)
	if !QueryRejectConstraints(a, b) || !QueryRejectConstraints(b, a) {
		t.Fatal("jointed bodies collide")
	}
}
'''),
dict(id='c24-segment-cap', prop='C24',
  edits=[('collision.go', '(closestT != 1.0 || n.Dot(segment.b_tangent.Rotate(rot)) >= 0.0) {', '(closestT != 1.0 || n.Dot(segment.b_tangent) >= 0.0) {')],
  needs='a segment with a neighbour set, on a rotated body, touched at its second end', breaks='contacts at the second end are accepted or rejected by the unrotated tangent',
  demo='''
import (
	"math"
	"testing"
)

func TestZZDemo(t *testing.T) {
	sb := NewBody(1, 1)
	sb.SetAngle(math.Pi)
	seg := NewSegment(sb, Vector{0, 0}, Vector{2, 0}, 0.5)
	seg.Class.(*Segment).b_tangent = Vector{1, 0}
	cb := NewBody(1, 1)
	cb.SetPosition(Vector{-2.5, 0})
	c := NewCircle(cb, 0.5, Vector{})
	seg.CacheBB()
	c.CacheBB()
	// the segment points to -x; towards it from beyond the end the direction is +x, against the rotated tangent... 
	got := Collide(c, seg, 0, make([]Contact, 2)).count
	want := 0
	n := Vector{1, 0}
	if n.Dot(Vector{1, 0}.Rotate(sb.Rotation())) >= 0 {
		want = 1
	}
	if got != want {
		t.Fatal("contacts", got, "want", want)
	}
}
'''),
dict(id='c28-nearest-sensor', prop='C28',
  edits=[('space.go', '''	if !shape.Filter.Reject(context.filter) && !shape.sensor {
		info := shape.PointQuery(context.point)
		if info.Distance < out.(*PointQueryInfo).Distance {''', '''	if !shape.Filter.Reject(context.filter) && !shape.sensor {
		info := shape.PointQuery(context.point)
		if info.Distance < math.Max(out.(*PointQueryInfo).Distance, 0) {''')],
  needs='a point inside two shapes', breaks='the reported shape is not the one with the smallest signed distance',
  demo='''
import "testing"

func TestZZDemo(t *testing.T) {
	space := NewSpace()
	body := space.AddBody(NewBody(1, 1))
	x := space.AddShape(NewCircle(body, 3, Vector{}))
	y := space.AddShape(NewCircle(body, 1, Vector{}))
	for _, l := range [][]*Shape{{x, y}, {y, x}} {
		info := &PointQueryInfo{nil, Vector{}, 100, Vector{}}
		ctx := &PointQueryContext{Vector{}, 100, SHAPE_FILTER_ALL, nil}
		for _, s := range l {
			NearestPointQueryNearest(ctx, s, 0, info)
		}
		if info.Shape != x {
			t.Fatal("not the deepest shape", info.Distance)
		}
	}
}
'''),
dict(id='c29-point-distance', prop='C29',
  edits=[('arbiter.go', 'set.Points[i].Distance = p2.Sub(p1).Dot(n)', 'set.Points[i].Distance = p2.Sub(p1).Dot(set.Normal)')],
  needs='a contact set read from the swapped side', breaks='the distance changes sign with the side it is read from',
  demo='''
import "testing"

func TestZZDemo(t *testing.T) {
	a, b := NewBody(1, 1), NewBody(1, 1)
	arb := &Arbiter{body_a: a, body_b: b, n: Vector{1, 0}, count: 1, contacts: []Contact{{r1: Vector{1, 0}}}}
	d := arb.ContactPointSet().Points[0].Distance
	arb.swapped = true
	if arb.ContactPointSet().Points[0].Distance != d {
		t.Fatal("sign")
	}
}
'''),
dict(id='c04-poly-order', prop='C04',
  edits=[('poly.go', '''		dst[i].v0 = v
		dst[i].n = n

		l = math.Min(l, v.X)
		r = math.Max(r, v.X)
''', '''		dst[i].v0 = v
		dst[i].n = n

		if v.X < l {
			l = v.X
		} else {
			r = math.Max(r, v.X)
		}
''')],
  needs='a polygon whose vertices come in order of falling x', breaks='the cached box does not reach the first, rightmost vertex',
  demo='''
import "testing"

func TestZZDemo(t *testing.T) {
	b := NewBody(1, 1)
	s := NewPolyShapeRaw(b, 3, []Vector{{3, 0}, {2, 1}, {0, 0}}, 0)
	s.CacheBB()
	if s.BB().R != 3 {
		t.Fatal(s.BB())
	}
}
'''),
dict(id='c05-poly-outside', prop='C05',
  edits=[('poly.go', '''		if !outside {
			outside = planes[i].n.Dot(p.Sub(v1)) > 0
		}
''', '''		if !outside {
			outside = planes[i].n.Dot(p.Sub(v1)) > r
		}
''')],
  needs='a rounded polygon and a point within its rim', breaks='a point in the rim is reported too deep',
  demo='''
import (
	"math"
	"testing"
)

func TestZZDemo(t *testing.T) {
	s := NewBox(NewBody(1, 1), 2, 2, 1)
	s.CacheBB()
	if d := s.PointQuery(Vector{1.5, 0}).Distance; math.Abs(d+0.5) > 1e-9 {
		t.Fatal("distance", d)
	}
}
'''),
dict(id='c06-poly-corner', prop='C06',
  edits=[('poly.go', 'if rsum > 0 {', 'if r > 0 {')],
  needs='a thick query past the corner of a polygon without rounding', breaks='a thick query misses corners',
  demo='''
import "testing"

func TestZZDemo(t *testing.T) {
	s := NewBox(NewBody(1, 1), 2, 2, 0)
	s.CacheBB()
	var info SegmentQueryInfo
	if !s.SegmentQuery(Vector{-5, 1.3}, Vector{5, 1.3}, 0.5, &info) && true {
		// the top face is parallel; only a corner can be hit
		t.Fatal("missed")
	}
}
'''),
]
