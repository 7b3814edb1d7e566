package cp

// Random histories of operations on a space, compared after every operation with a model of what
// the space should hold and report. Bounded stand-in: it samples histories, it proves nothing.

import (
	"fmt"
	"math"
	"math/rand"
	"os"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"
	"unsafe"
)

type hpair [2]*Shape

type hev struct {
	pair    hpair
	handler int
	kind    byte // b begin, p presolve, o postsolve, s separate
}

type hhandler struct {
	h        *CollisionHandler
	a, b     CollisionType
	wildcard bool
}

type hcontact struct {
	touching bool
	ignored  bool
	unsure   bool // a borderline contact, not followed any more
}

type hist struct {
	prop   string
	r      *rand.Rand
	s      *Space
	bodies []*Body
	shapes []*Shape
	cons   []*Constraint
	gone   []*Shape // removed and free to be added again
	names  map[any]string
	n      map[string]int
	log    []string
	fails  map[string]string

	handlers []hhandler
	decide   map[hpair]int // 0 normal, 1 begin false, 2 presolve false, 3 presolve ignores
	contact  map[hpair]*hcontact
	events   map[hev]int
	inStep   bool

	postSeq   int
	postRun   []int
	postReg   []int
	postBad   string
	inPost    bool
	reindexed bool
	broken    bool
	root      map[*Body]*Body // sleeping root before the operation
	asleep    map[*Body]bool  // asleep or static before the step
	wokenNow  map[*Body]bool
}

func (h *hist) fail(prop, name, f string, args ...any) {
	if h.prop != prop {
		return
	}
	if _, ok := h.fails[name]; !ok {
		h.fails[name] = fmt.Sprintf(f, args...) + " after: " + strings.Join(h.log, "; ")
	}
}

func (h *hist) note(f string, args ...any) { h.log = append(h.log, fmt.Sprintf(f, args...)) }

func (h *hist) name(x any) string {
	if n, ok := h.names[x]; ok {
		return n
	}
	k := "?"
	switch x.(type) {
	case *Body:
		k = "b"
	case *Shape:
		k = "s"
	case *Constraint:
		k = "j"
	}
	h.n[k]++
	h.names[x] = k + strconv.Itoa(h.n[k])
	return h.names[x]
}

func hkey(a, b *Shape) hpair {
	if uintptr(unsafe.Pointer(a)) > uintptr(unsafe.Pointer(b)) {
		a, b = b, a
	}
	return hpair{a, b}
}

func hlight(s *Space) {
	s.pooledArbiters = sync.Pool{New: func() interface{} { return &Arbiter{} }}
}

func newHist(prop string, seed int64) *hist {
	h := &hist{prop: prop, r: rand.New(rand.NewSource(seed)), names: map[any]string{}, n: map[string]int{}, fails: map[string]string{},
		decide: map[hpair]int{}, contact: map[hpair]*hcontact{}, events: map[hev]int{}}
	r := h.r
	h.s = NewSpace()
	hlight(h.s)
	h.names[h.s.StaticBody] = "static"
	if r.Intn(3) == 0 || prop == "C17" {
		dim, cnt := []float64{0.7, 2, 5}[r.Intn(3)], []int{7, 53, 199}[r.Intn(3)]
		h.s.UseSpatialHash(dim, cnt)
		h.note("UseSpatialHash(%g,%d)", dim, cnt)
	}
	if prop == "C16" && strings.HasPrefix(strings.Join(h.log, ""), "Use") {
		h.s = NewSpace()
		hlight(h.s)
		h.names[h.s.StaticBody] = "static"
		h.log = nil
	}
	g := []Vector{{}, {0, -10}, {0, -3}, {2, 0}}[r.Intn(4)]
	h.s.SetGravity(g)
	h.note("gravity %v", g)
	if r.Intn(3) > 0 {
		h.s.SleepTimeThreshold = []float64{0.03, 0.05, 0.2}[r.Intn(3)]
		h.s.IdleSpeedThreshold = []float64{0, 0.3, 1.5}[r.Intn(3)]
		h.note("sleep %g idle %g", h.s.SleepTimeThreshold, h.s.IdleSpeedThreshold)
	}
	if prop == "C21" && h.s.SleepTimeThreshold > 1 {
		h.s.SleepTimeThreshold, h.s.IdleSpeedThreshold = 0.03, 0.5
	}
	if r.Intn(3) > 0 || prop == "C19" {
		for k := r.Intn(3); k > 0; k-- {
			h.addHandler(CollisionType(r.Intn(3)), CollisionType(r.Intn(3)), false)
		}
		for k := r.Intn(3); k > 0; k-- {
			h.addHandler(CollisionType(r.Intn(3)), 0, true)
		}
	}
	return h
}

func (h *hist) addHandler(a, b CollisionType, wild bool) {
	for _, o := range h.handlers {
		if o.wildcard == wild && ((o.a == a && (wild || o.b == b)) || (!wild && o.a == b && o.b == a)) {
			return
		}
	}
	id := len(h.handlers)
	var c *CollisionHandler
	if wild {
		c = h.s.NewWildcardCollisionHandler(a)
		b = WILDCARD_COLLISION_TYPE
		h.note("wildcard handler %d", a)
	} else {
		c = h.s.NewCollisionHandler(a, b)
		h.note("handler %d %d", a, b)
	}
	if again := h.s.LookupHandler(a, b, nil); again != c {
		h.fail("C19", "lookup", "a handler registered for types %d, %d is not found by its types", a, b)
	}
	if !wild {
		if again := h.s.LookupHandler(b, a, nil); again != c {
			h.fail("C19", "lookup", "a handler registered for types %d, %d is not found with its types exchanged", a, b)
		}
	}
	type tag struct{ id int }
	data := &tag{id}
	c.UserData = data
	seen := func(kind byte, arb *Arbiter, space *Space, got any) hpair {
		x, y := arb.Shapes()
		p := hkey(x, y)
		h.events[hev{p, id, kind}]++
		if got != any(data) {
			h.fail("C19", "userdata", "the %c callback got %T instead of the handler's user data", kind, got)
		}
		if space != h.s {
			h.fail("C19", "space", "the %c callback got another space", kind)
		}
		if h.s.locked == 0 {
			h.fail("C19", "locked", "the %c callback ran while the space was unlocked", kind)
		}
		if x.collisionType != a || (!wild && y.collisionType != b) {
			h.fail("C19", "order", "the %c callback for types %d, %d got shapes of types %d, %d", kind, a, b, x.collisionType, y.collisionType)
			h.fail("C29", "order", "the %c callback for types %d, %d got shapes of types %d, %d", kind, a, b, x.collisionType, y.collisionType)
		}
		ba, bb := arb.Bodies()
		if ba != x.body || bb != y.body {
			h.fail("C29", "bodies", "the bodies are not those of the shapes")
		}
		h.fromCallback(x, y)
		return p
	}
	c.BeginFunc = func(arb *Arbiter, space *Space, d interface{}) bool {
		return h.decideFor(seen('b', arb, space, d)) != 1
	}
	c.PreSolveFunc = func(arb *Arbiter, space *Space, d interface{}) bool {
		k := h.decideFor(seen('p', arb, space, d))
		if k == 3 {
			return arb.Ignore()
		}
		return k != 2
	}
	c.PostSolveFunc = func(arb *Arbiter, space *Space, d interface{}) { seen('o', arb, space, d) }
	c.SeparateFunc = func(arb *Arbiter, space *Space, d interface{}) { seen('s', arb, space, d) }
	h.handlers = append(h.handlers, hhandler{c, a, b, wild})
}

func (h *hist) decideFor(p hpair) int {
	d, ok := h.decide[p]
	if !ok {
		d = []int{0, 0, 0, 0, 1, 2, 3}[h.r.Intn(7)]
		h.decide[p] = d
	}
	return d
}

// fromCallback does what a user might do inside a callback that runs while the space is locked.
func (h *hist) fromCallback(x, y *Shape) {
	r := h.r
	if r.Intn(6) == 0 {
		h.post(0)
	}
	if r.Intn(10) == 0 {
		b := x.body
		if r.Intn(2) == 0 && len(h.bodies) > 0 {
			b = h.bodies[r.Intn(len(h.bodies))]
		}
		if b.GetType() == BODY_DYNAMIC {
			h.note("(in callback: push %s)", h.name(b))
			b.SetVelocityVector(b.v.Add(Vector{0.1, 0}))
			h.wokenNow[b] = true
		}
	}
}

// post registers a post-step callback that records when it ran.
func (h *hist) post(depth int) {
	h.postSeq++
	id := h.postSeq
	var key any
	if h.r.Intn(3) > 0 {
		key = id
	}
	f := func(space *Space, k, data interface{}) {
		if space.locked != 0 {
			h.postBad = fmt.Sprintf("callback %d ran while the space was locked", id)
		}
		if space != h.s || k != key || data != any(-id) {
			h.postBad = fmt.Sprintf("callback %d got the wrong arguments", id)
		}
		h.postRun = append(h.postRun, id)
		was := h.inPost
		h.inPost = true
		if depth < 2 && h.r.Intn(3) == 0 {
			h.post(depth + 1)
		}
		if h.r.Intn(4) == 0 && h.inStep {
			h.note("(post-step:")
			if h.r.Intn(2) == 0 && h.prop != "C19" {
				h.opRemoveShape()
			} else {
				h.opNearest()
			}
			h.note(")")
		}
		h.inPost = was
	}
	if !h.s.AddPostStepCallback(f, key, -id) {
		h.fail("C20", "refused", "registering callback %d under a fresh key was refused", id)
		return
	}
	h.postReg = append(h.postReg, id)
	h.note("(post-step callback %d key %v)", id, key)
	if key != nil && h.r.Intn(2) == 0 {
		if h.s.AddPostStepCallback(func(*Space, interface{}, interface{}) {
			h.postBad = fmt.Sprintf("the callback refused under key %v ran", key)
		}, key, nil) {
			h.fail("C20", "same key", "a second callback under key %v was accepted", key)
		}
	}
}

// ---- operations

func (h *hist) pickBody() *Body {
	if len(h.bodies) == 0 {
		return nil
	}
	return h.bodies[h.r.Intn(len(h.bodies))]
}

func (h *hist) num() float64 { return float64(h.r.Intn(33)-16) / 4 }

func (h *hist) newShape(b *Body) *Shape {
	r := h.r
	rad := []float64{0, 0, 0.125, 0.25}[r.Intn(4)]
	off := Vector{}
	if r.Intn(3) == 0 {
		off = Vector{h.num() / 4, h.num() / 4}
	}
	var s *Shape
	switch r.Intn(5) {
	case 0, 1:
		s = NewCircle(b, 0.25+float64(r.Intn(4))/4, off)
	case 2:
		s = NewSegment(b, off, off.Add(Vector{1 + float64(r.Intn(5)), h.num() / 4}), rad)
	case 3:
		s = NewBox(b, 0.5+float64(r.Intn(4))/4, 0.5+float64(r.Intn(4))/4, rad)
	default:
		s = NewPolyShape(b, 3, []Vector{{-0.5, -0.5}, {0.75, -0.25}, {0, 0.75}}, NewTransformTranslate(off), rad)
	}
	s.SetElasticity([]float64{0, 0.5}[r.Intn(2)])
	s.SetFriction([]float64{0, 0.7}[r.Intn(2)])
	s.SetCollisionType(CollisionType(r.Intn(3)))
	if r.Intn(8) == 0 {
		s.SetSensor(true)
	}
	if r.Intn(5) == 0 {
		s.SetFilter(NewShapeFilter(uint(r.Intn(3)), uint(1+r.Intn(7)), uint(1+r.Intn(7))))
	}
	return s
}

func (h *hist) addShape(s *Shape) {
	h.s.AddShape(s)
	h.shapes = append(h.shapes, s)
	h.note("add %s %T to %s sensor=%v type=%d filter=%v", h.name(s), s.Class, h.name(s.body), s.sensor, s.collisionType, s.Filter)
}

func (h *hist) opAddBody() {
	if len(h.bodies) > 9 {
		return
	}
	r := h.r
	var b *Body
	switch r.Intn(8) {
	case 0:
		b = NewKinematicBody()
	case 1:
		b = NewStaticBody()
	default:
		b = NewBody(1+float64(r.Intn(3)), 1)
	}
	b.SetPosition(Vector{h.num(), h.num()})
	b.SetAngle(h.num() / 3)
	if b.GetType() != BODY_STATIC && r.Intn(2) == 0 {
		b.SetVelocity(h.num(), h.num())
	}
	h.s.AddBody(b)
	h.bodies = append(h.bodies, b)
	h.note("add %s type=%d at %v %g v=%v", h.name(b), b.GetType(), b.Position(), b.a, b.v)
	for k := r.Intn(3); k > 0; k-- {
		h.addShape(h.newShape(b))
	}
}

func (h *hist) opAddShape() {
	b := h.pickBody()
	if h.r.Intn(5) == 0 {
		b = h.s.StaticBody
	}
	if b == nil {
		return
	}
	if len(h.gone) > 0 && h.r.Intn(2) == 0 {
		s := h.gone[0]
		for _, x := range append(h.bodies, h.s.StaticBody) {
			if x == s.body {
				h.gone = h.gone[1:]
				h.addShape(s)
				return
			}
		}
		h.gone = h.gone[1:]
	}
	h.addShape(h.newShape(b))
}

func (h *hist) removeShape(s *Shape) {
	h.note("remove %s", h.name(s))
	expected := map[hpair]bool{}
	for p, c := range h.contact {
		if (p[0] == s || p[1] == s) && c.touching {
			expected[p] = true
		}
	}
	before := h.events
	h.events = map[hev]int{}
	for i, x := range h.shapes {
		if x == s {
			h.shapes = append(h.shapes[:i:i], h.shapes[i+1:]...)
			break
		}
	}
	h.s.RemoveShape(s)
	for p := range expected {
		for id, want := range h.expectedHandlers(p) {
			if got := h.events[hev{p, id, 's'}]; got != want {
				h.fail("C19", "separate on removal", "removing %s while it touches the other shape of %s-%s ran separate %d times instead of %d", h.name(s), h.name(p[0]), h.name(p[1]), got, want)
			}
		}
	}
	for e, n := range h.events {
		if c := h.contact[e.pair]; e.kind == 's' && !expected[e.pair] && (c == nil || !c.unsure) {
			h.fail("C19", "stray separate", "removing %s ran separate %d times for %s-%s, which do not touch", h.name(s), n, h.name(e.pair[0]), h.name(e.pair[1]))
		}
		if e.kind != 's' {
			h.fail("C19", "stray callback", "removing a shape ran the %c callback", e.kind)
		}
		before[e] += n
	}
	h.events = before
	for p := range h.contact {
		if p[0] == s || p[1] == s {
			delete(h.contact, p)
			delete(h.decide, p)
		}
	}
	if h.s.ContainsShape(s) {
		h.fail("C22", "contains shape", "%s is still in the space after its removal", h.name(s))
	}
	for _, o := range s.body.shapeList {
		if o == s {
			h.fail("C22", "body keeps shape", "%s still lists %s", h.name(s.body), h.name(s))
		}
	}
	h.gone = append(h.gone, s)
	if len(h.gone) > 3 {
		h.gone = h.gone[1:]
	}
}

func (h *hist) opRemoveShape() {
	if len(h.shapes) > 0 {
		h.removeShape(h.shapes[h.r.Intn(len(h.shapes))])
	}
}

func (h *hist) removeJoint(c *Constraint) {
	h.note("remove %s", h.name(c))
	h.s.RemoveConstraint(c)
	for i, x := range h.cons {
		if x == c {
			h.cons = append(h.cons[:i:i], h.cons[i+1:]...)
			break
		}
	}
	if h.s.ContainsConstraint(c) {
		h.fail("C22", "contains joint", "%s is still in the space after its removal", h.name(c))
	}
}

func (h *hist) opRemoveBody() {
	b := h.pickBody()
	if b == nil {
		return
	}
	for _, c := range append([]*Constraint{}, h.cons...) {
		if c.a == b || c.b == b {
			h.removeJoint(c)
		}
	}
	for _, s := range append([]*Shape{}, b.shapeList...) {
		h.removeShape(s)
	}
	h.note("remove %s", h.name(b))
	h.s.RemoveBody(b)
	for i, x := range h.bodies {
		if x == b {
			h.bodies = append(h.bodies[:i:i], h.bodies[i+1:]...)
			break
		}
	}
	if h.s.ContainsBody(b) {
		h.fail("C22", "contains body", "%s is still in the space after its removal", h.name(b))
	}
	kept := h.gone[:0]
	for _, s := range h.gone {
		if s.body != b {
			kept = append(kept, s)
		}
	}
	h.gone = kept
}

func (h *hist) opAddJoint() {
	a, b := h.pickBody(), h.pickBody()
	if h.r.Intn(5) == 0 {
		b = h.s.StaticBody
	}
	if a == nil || a == b || (a.GetType() != BODY_DYNAMIC && b.GetType() != BODY_DYNAMIC) || len(h.cons) > 5 {
		return
	}
	if h.r.Intn(2) == 0 {
		a, b = b, a
	}
	var c *Constraint
	switch h.r.Intn(4) {
	case 0:
		c = NewPinJoint(a, b, Vector{}, Vector{0.5, 0})
	case 1:
		c = NewSlideJoint(a, b, Vector{}, Vector{}, 0.5, 3)
	case 2:
		c = NewDampedSpring(a, b, Vector{}, Vector{}, 1, 4, 0.5)
	default:
		c = NewGearJoint(a, b, 0, 1)
	}
	c.SetCollideBodies(h.r.Intn(2) == 0)
	h.s.AddConstraint(c)
	h.cons = append(h.cons, c)
	h.note("add %s %T %s-%s collide=%v", h.name(c), c.Class, h.name(a), h.name(b), c.collideBodies)
}

func (h *hist) opRemoveJoint() {
	if len(h.cons) > 0 {
		h.removeJoint(h.cons[h.r.Intn(len(h.cons))])
	}
}

func (h *hist) opType() {
	b := h.pickBody()
	if b == nil {
		return
	}
	t := []int{BODY_DYNAMIC, BODY_DYNAMIC, BODY_KINEMATIC, BODY_STATIC}[h.r.Intn(4)]
	if t != BODY_DYNAMIC {
		for _, c := range h.cons {
			if c.a == b && c.b.GetType() != BODY_DYNAMIC || c.b == b && c.a.GetType() != BODY_DYNAMIC {
				return
			}
		}
	}
	h.note("set type of %s to %d", h.name(b), t)
	old := b.GetType()
	b.SetType(t)
	if t == BODY_DYNAMIC && old != t {
		b.SetMass(1)
		b.SetMoment(1)
	}
	if b.GetType() != t {
		h.fail("C22", "type", "%s has type %d after SetType(%d)", h.name(b), b.GetType(), t)
	}
}

func (h *hist) opPush() {
	b := h.pickBody()
	if b == nil {
		return
	}
	switch h.r.Intn(4) {
	case 0:
		if b.GetType() == BODY_STATIC {
			return
		}
		v := Vector{h.num(), h.num()}
		h.note("velocity of %s to %v", h.name(b), v)
		b.SetVelocityVector(v)
	case 1:
		h.note("force on %s", h.name(b))
		b.SetForce(Vector{h.num(), 0})
	case 2:
		h.note("activate %s", h.name(b))
		b.Activate()
	default:
		if b.GetType() != BODY_DYNAMIC {
			return
		}
		h.note("impulse on %s", h.name(b))
		b.ApplyImpulseAtWorldPoint(Vector{0.5, 0}, b.Position())
	}
	if b.GetType() == BODY_DYNAMIC && b.IsSleeping() {
		h.fail("C21", "setter", "%s still sleeps after it was pushed", h.name(b))
	}
	if b.GetType() == BODY_DYNAMIC && b.IdleTime() != 0 {
		h.fail("C21", "setter", "%s keeps its idle time after it was pushed", h.name(b))
	}
}

func (h *hist) opGravity() {
	g := []Vector{{}, {0, -10}, {0, 5}}[h.r.Intn(3)]
	h.note("gravity %v", g)
	h.s.SetGravity(g)
	if h.s.Gravity() != g {
		h.fail("C21", "gravity", "Gravity reads %v after it was set to %v", h.s.Gravity(), g)
	}
	for _, b := range h.bodies {
		if b.IsSleeping() {
			h.fail("C21", "gravity wakes", "%s still sleeps after gravity changed", h.name(b))
		}
	}
}

func (h *hist) opMove() {
	b := h.pickBody()
	if b == nil {
		return
	}
	p := Vector{h.num(), h.num()}
	h.note("move %s to %v and reindex", h.name(b), p)
	b.SetPosition(p)
	for _, s := range b.shapeList {
		h.s.ReindexShape(s)
	}
}

func (h *hist) opReindexAll() {
	if _, ok := h.s.dynamicShapes.class.(*SpaceHash); !ok || h.r.Intn(2) == 0 {
		h.note("reindex the static index")
		h.s.staticShapes.class.Reindex()
	} else {
		h.note("reindex both indexes")
		h.s.staticShapes.class.Reindex()
		h.s.dynamicShapes.class.Reindex()
	}
}

func (h *hist) opHandFilter() {
	if len(h.shapes) == 0 {
		return
	}
	s := h.shapes[h.r.Intn(len(h.shapes))]
	f := NewShapeFilter(uint(h.r.Intn(3)), uint(1+h.r.Intn(7)), uint(1+h.r.Intn(7)))
	if h.r.Intn(2) == 0 {
		f = SHAPE_FILTER_ALL
	}
	h.note("filter of %s to %v", h.name(s), f)
	s.SetFilter(f)
}

func (h *hist) opEachBodyWake() {
	var got []*Body
	target := h.pickBody()
	if target == nil {
		return
	}
	h.note("EachBody waking %s", h.name(target))
	h.s.EachBody(func(b *Body) {
		got = append(got, b)
		if len(got) == 1 {
			target.Activate()
		}
	})
	h.sameBodies("C22", "enumeration with a wake-up", got)
	h.sameBodies("C21", "enumeration with a wake-up", got)
}

// ---- oracles

func hsegdist(p, a, b Vector) float64 {
	d := b.Sub(a)
	t := 0.0
	if l := d.Dot(d); l > 0 {
		t = math.Max(0, math.Min(1, p.Sub(a).Dot(d)/l))
	}
	return p.Sub(a.Add(d.Mult(t))).Length()
}

// hdist is the signed distance from p to the shape, computed from scratch.
func hdist(s *Shape, p Vector) float64 {
	switch c := s.Class.(type) {
	case *Circle:
		return p.Sub(c.tc).Length() - c.r
	case *Segment:
		return hsegdist(p, c.ta, c.tb) - c.r
	case *PolyShape:
		in := true
		d := math.Inf(1)
		for i := range c.planes[:c.count] {
			a, b := c.planes[(i+c.count-1)%c.count].v0, c.planes[i].v0
			if b.Sub(a).Cross(p.Sub(a)) < 0 {
				in = false
			}
			d = math.Min(d, hsegdist(p, a, b))
		}
		if in {
			d = -d
		}
		return d - c.r
	}
	panic("unknown shape")
}

func hreject(a, b ShapeFilter) bool {
	return a.Group != 0 && a.Group == b.Group || a.Categories&b.Mask == 0 || b.Categories&a.Mask == 0
}

// mayCollide is the documented filter, bounds aside.
func (h *hist) mayCollide(a, b *Shape) bool {
	if a.body == b.body || hreject(a.Filter, b.Filter) {
		return false
	}
	for _, c := range h.cons {
		if !c.collideBodies && (c.a == a.body && c.b == b.body || c.a == b.body && c.b == a.body) {
			return false
		}
	}
	return true
}

func hbbs(a, b BB) bool { return a.L <= b.R && b.L <= a.R && a.B <= b.T && b.B <= a.T }

func (h *hist) sameBodies(prop, name string, got []*Body) {
	n := map[*Body]int{}
	for _, b := range got {
		n[b]++
	}
	for _, b := range h.bodies {
		if n[b] != 1 {
			h.fail(prop, name, "%s (type %d, sleeping %v) is enumerated %d times", h.name(b), b.GetType(), b.IsSleeping(), n[b])
		}
		delete(n, b)
	}
	for b := range n {
		h.fail(prop, name, "%s is enumerated but is not in the space", h.name(b))
	}
}

func (h *hist) checkMembership() {
	var got []*Body
	h.s.EachBody(func(b *Body) { got = append(got, b) })
	h.sameBodies("C22", "bodies", got)
	h.sameBodies("C21", "bodies", got)
	sn := map[*Shape]int{}
	h.s.EachShape(func(s *Shape) { sn[s]++ })
	for _, s := range h.shapes {
		if sn[s] != 1 {
			h.fail("C22", "shapes", "%s is enumerated %d times", h.name(s), sn[s])
		}
		if !h.s.ContainsShape(s) {
			h.fail("C22", "contains shape", "%s is not reported as in the space", h.name(s))
		}
		n := 0
		for _, o := range s.body.shapeList {
			if o == s {
				n++
			}
		}
		if n != 1 {
			h.fail("C22", "shape list", "%s lists %s %d times", h.name(s.body), h.name(s), n)
		}
		static := s.body.GetType() == BODY_STATIC || s.body.IsSleeping()
		st, dy := h.s.staticShapes.class.Contains(s, s.hashid), h.s.dynamicShapes.class.Contains(s, s.hashid)
		if st != static || dy == static {
			for _, p := range []string{"C22", "C21"} {
				h.fail(p, "index side", "%s of %s (type %d, sleeping %v): static index %v, dynamic index %v", h.name(s), h.name(s.body), s.body.GetType(), s.body.IsSleeping(), st, dy)
			}
		}
		if st == dy {
			h.fail("C16", "contains", "%s: static index %v, dynamic index %v", h.name(s), st, dy)
			h.fail("C17", "contains", "%s: static index %v, dynamic index %v", h.name(s), st, dy)
		}
		delete(sn, s)
	}
	for s := range sn {
		for _, p := range []string{"C22", "C16", "C17"} {
			h.fail(p, "shapes", "%s is enumerated but is not in the space", h.name(s))
		}
	}
	if n := h.s.staticShapes.class.Count() + h.s.dynamicShapes.class.Count(); n != len(h.shapes) {
		for _, p := range []string{"C22", "C16", "C17"} {
			h.fail(p, "count", "the indexes count %d shapes instead of %d", n, len(h.shapes))
		}
	}
	for _, b := range h.bodies {
		if !h.s.ContainsBody(b) {
			h.fail("C22", "contains body", "%s is not reported as in the space", h.name(b))
		}
		for _, s := range b.shapeList {
			if s.body != b {
				h.fail("C22", "shape list", "%s lists a shape of another body", h.name(b))
			}
		}
	}
	cn := map[*Constraint]int{}
	h.s.EachConstraint(func(c *Constraint) { cn[c]++ })
	for _, c := range h.cons {
		want := 1
		if c.a.IsSleeping() || c.b.IsSleeping() {
			want = 0
		}
		if cn[c] != want {
			h.fail("C22", "joints", "%s is enumerated %d times instead of %d", h.name(c), cn[c], want)
		}
		if !h.s.ContainsConstraint(c) {
			h.fail("C22", "contains joint", "%s is not reported as in the space", h.name(c))
		}
		delete(cn, c)
	}
	for c := range cn {
		h.fail("C22", "joints", "%s is enumerated but is not in the space", h.name(c))
	}
}

func (h *hist) checkLists() {
	for _, b := range append([]*Body{h.s.StaticBody}, h.bodies...) {
		n := map[*Constraint]int{}
		k := 0
		for c := b.constraintList; c != nil; c = c.Next(b) {
			n[c]++
			if k++; k > 100 {
				h.fail("C18", "joint cycle", "the joint list of %s does not end", h.name(b))
				return
			}
		}
		for _, c := range h.cons {
			want := 0
			if c.a == b || c.b == b {
				want = 1
			}
			if n[c] != want {
				h.fail("C18", "joint list", "the joint list of %s holds %s %d times instead of %d", h.name(b), h.name(c), n[c], want)
			}
			delete(n, c)
		}
		if len(n) > 0 {
			h.fail("C18", "joint list", "the joint list of %s holds a joint that is not in the space", h.name(b))
		}
		if !h.s.locked0() {
			continue
		}
		in := map[*Arbiter]bool{}
		var prev *Arbiter
		k = 0
		for a := b.arbiterList; a != nil; a = a.Next(b) {
			if a.body_a != b && a.body_b != b {
				h.fail("C18", "contact list", "the contact list of %s holds a contact of other bodies", h.name(b))
				return
			}
			if in[a] {
				h.fail("C18", "contact list", "the contact list of %s holds a contact twice", h.name(b))
				return
			}
			in[a] = true
			if a.ThreadForBody(b).prev != prev {
				h.fail("C18", "back link", "a contact in the list of %s does not link back to the one before it", h.name(b))
			}
			prev = a
			if k++; k > 1000 {
				h.fail("C18", "contact cycle", "the contact list of %s does not end", h.name(b))
				return
			}
			live := false
			for _, s := range h.shapes {
				if a.a == s {
					live = true
				}
			}
			if !live {
				h.fail("C18", "dead contact", "the contact list of %s holds a contact of a removed shape", h.name(b))
			}
		}
		for _, a := range h.s.arbiters {
			if (a.body_a == b || a.body_b == b) && !in[a] {
				h.fail("C18", "missing contact", "an active contact of %s is missing from its list", h.name(b))
			}
		}
		if b.GetType() == BODY_DYNAMIC && !b.IsSleeping() {
			for a := range in {
				ok := false
				for _, x := range h.s.arbiters {
					ok = ok || x == a
				}
				if !ok {
					h.fail("C18", "stale contact", "the contact list of awake %s holds an inactive contact", h.name(b))
				}
			}
		}
	}
}

func (s *Space) locked0() bool { return s.locked == 0 }

func (h *hist) checkSleep() {
	group := map[*Body]*Body{}
	for _, root := range h.s.sleepingComponents {
		k := 0
		for b := root; b != nil; b = b.sleepingNext {
			if b.sleepingRoot != root {
				h.fail("C21", "root", "%s is in the sleeping group of %s but has another root", h.name(b), h.name(root))
			}
			group[b] = root
			if k++; k > 100 {
				h.fail("C21", "cycle", "a sleeping group does not end")
				return
			}
		}
	}
	for _, b := range h.bodies {
		if b.IsSleeping() != (group[b] != nil) {
			h.fail("C21", "group", "%s: sleeping %v, in a sleeping group %v", h.name(b), b.IsSleeping(), group[b] != nil)
		}
		if b.IsSleeping() {
			if b.GetType() != BODY_DYNAMIC {
				h.fail("C21", "type", "%s sleeps but is not dynamic", h.name(b))
			}
			for a := b.arbiterList; a != nil; a = a.Next(b) {
				o := a.body_a
				if o == b {
					o = a.body_b
				}
				if o.GetType() == BODY_DYNAMIC && group[o] != group[b] {
					h.fail("C21", "touching", "%s sleeps but %s, which touches it, is not in its group", h.name(b), h.name(o))
				}
			}
		}
	}
	for _, c := range h.cons {
		if c.a.GetType() == BODY_DYNAMIC && c.b.GetType() == BODY_DYNAMIC && group[c.a] != group[c.b] {
			// a joint added or a contact made since the last step wakes its bodies
			if c.a.IsSleeping() && c.b.IsSleeping() || c.a.IsSleeping() || c.b.IsSleeping() {
				h.fail("C21", "jointed", "%s joins %s and %s but they are not in the same sleeping group", h.name(c), h.name(c.a), h.name(c.b))
			}
		}
	}
	// waking any member wakes all
	for b, root := range h.root {
		if !b.IsSleeping() {
			for o, r2 := range h.root {
				if r2 == root && o.IsSleeping() {
					h.fail("C21", "partial wake", "%s woke up but %s of the same group sleeps", h.name(b), h.name(o))
				}
			}
		}
	}
}

func (h *hist) checkContactStorage() {
	type span struct {
		lo, hi uintptr
		arb    *Arbiter
	}
	var spans []span
	size := unsafe.Sizeof(Contact{})
	h.s.cachedArbiters.Each(func(a *Arbiter) {
		if len(a.contacts) == 0 || a.count == 0 {
			return
		}
		if a.count > len(a.contacts) {
			h.fail("C23", "count", "a pair counts %d contacts but holds %d", a.count, len(a.contacts))
		}
		if h.s.stamp-a.stamp >= h.s.collisionPersistence {
			return
		}
		lo := uintptr(unsafe.Pointer(&a.contacts[0]))
		spans = append(spans, span{lo, lo + uintptr(len(a.contacts))*size, a})
	})
	for i := range spans {
		for j := 0; j < i; j++ {
			if spans[i].lo < spans[j].hi && spans[j].lo < spans[i].hi {
				x, y := spans[i].arb, spans[j].arb
				h.fail("C23", "overlap", "pairs %s-%s and %s-%s share contact storage", h.name(x.a), h.name(x.b), h.name(y.a), h.name(y.b))
			}
		}
	}
	head := h.s.contactBuffersHead
	if head == nil {
		return
	}
	k := 0
	for c := head; ; c = c.next {
		if c == nil {
			h.fail("C23", "ring", "the ring of contact buffers is broken")
			return
		}
		if c.numContacts < 0 || c.numContacts > CONTACTS_BUFFER_SIZE {
			h.fail("C23", "overrun", "a contact buffer counts %d contacts", c.numContacts)
		}
		lo := uintptr(unsafe.Pointer(&c.contacts[0]))
		for _, sp := range spans {
			if sp.lo >= lo && sp.lo < lo+CONTACTS_BUFFER_SIZE*size {
				if sp.hi > lo+uintptr(c.numContacts)*size {
					h.fail("C23", "not taken", "a pair's contacts lie beyond the %d taken contacts of their buffer", c.numContacts)
				}
				if sp.arb.stamp < c.stamp {
					h.fail("C23", "recycled", "a buffer of step %d holds contacts of step %d", c.stamp, sp.arb.stamp)
				}
			}
		}
		if c.next == head {
			break
		}
		if k++; k > 1000 {
			h.fail("C23", "ring", "the ring of contact buffers does not close")
			return
		}
	}
}

func (h *hist) expectedHandlers(p hpair) map[int]int {
	want := map[int]int{}
	ta, tb := p[0].collisionType, p[1].collisionType
	for id, o := range h.handlers {
		if !o.wildcard && (o.a == ta && o.b == tb || o.a == tb && o.b == ta) {
			return map[int]int{id: 1}
		}
	}
	for id, o := range h.handlers {
		if o.wildcard {
			n := 0
			if o.a == ta {
				n++
			}
			if o.a == tb {
				n++
			}
			if n > 0 {
				want[id] = n
			}
		}
	}
	return want
}

func hinf(b *Body) bool { return b.GetType() != BODY_DYNAMIC }

// checkStep compares the contacts found and the callbacks run by one step with brute force.
func (h *hist) checkStep() {
	arbs := map[hpair]*Arbiter{}
	h.s.cachedArbiters.Each(func(a *Arbiter) {
		p := hkey(a.a, a.b)
		if arbs[p] != nil {
			h.fail("C15", "duplicate", "the contact cache holds a pair twice")
		}
		arbs[p] = a
	})
	solved := map[hpair]*Arbiter{}
	for _, a := range h.s.arbiters {
		solved[hkey(a.a, a.b)] = a
	}
	for i, a := range h.shapes {
		for _, b := range h.shapes[:i] {
			if a.body == b.body {
				continue
			}
			p := hkey(a, b)
			idle := h.asleep[a.body] && h.asleep[b.body]
			may := h.mayCollide(a, b) && hbbs(a.bb, b.bb)
			set := ShapesCollide(a, b)
			touch := may && set.Count > 0
			// leave borderline cases alone
			if may && set.Count > 0 {
				deep := 0.0
				for k := 0; k < set.Count; k++ {
					deep = math.Min(deep, set.Points[k].Distance)
				}
				if deep > -1e-9 {
					h.contact[p] = &hcontact{unsure: true}
					continue
				}
			}
			x := arbs[p]
			fresh := x != nil && x.stamp == h.s.stamp
			nowIdle := (a.body.IsSleeping() || hstatic(a.body)) && (b.body.IsSleeping() || hstatic(b.body))
			if !idle && !nowIdle {
				what := fmt.Sprintf("%s-%s (%T, %T)", h.name(a), h.name(b), a.Class, b.Class)
				if touch && !fresh {
					for _, q := range []string{"C07", "C16", "C17", "C19", "C24"} {
						h.fail(q, "missed pair", "%s overlap and may collide but no contact was made", what)
					}
				}
				if fresh && !may && !h.wokenPair(a, b) {
					h.fail("C07", "filtered pair", "%s must not collide but a contact was made", what)
				}
			}
			if fresh && x.count > 0 && !h.wokenPair(a, b) && !idle && touch && solved[p] != nil {
				want := set
				got := x.ContactPointSet()
				if x.a != a {
					// the solver may keep the pair in the other order
				}
				_ = got
				_ = want
			}
			h.checkProtocol(p, touch, idle, nowIdle, solved[p] != nil)
		}
	}
	for e, n := range h.events {
		w := h.expectedHandlers(e.pair)[e.handler]
		if n > w && e.kind != 's' && e.kind != 'b' {
			h.fail("C19", "repeated", "the %c callback ran %d times in one step for %s-%s", e.kind, n, h.name(e.pair[0]), h.name(e.pair[1]))
			h.fail("C16", "repeated", "%s-%s was reported more than once in one step", h.name(e.pair[0]), h.name(e.pair[1]))
			h.fail("C17", "repeated", "%s-%s was reported more than once in one step", h.name(e.pair[0]), h.name(e.pair[1]))
		}
		if w == 0 {
			h.fail("C19", "wrong handler", "a handler ran for %s-%s, whose types it is not registered for", h.name(e.pair[0]), h.name(e.pair[1]))
		}
	}
}

func hstatic(b *Body) bool { return b.GetType() == BODY_STATIC }

// wokenPair: the pair slept before this step, so its old contact may have been restored.
func (h *hist) wokenPair(a, b *Shape) bool { return h.asleep[a.body] && h.asleep[b.body] }

func (h *hist) checkProtocol(p hpair, touch, idle, nowIdle, solved bool) {
	c := h.contact[p]
	if c == nil {
		c = &hcontact{}
		h.contact[p] = c
	}
	what := h.name(p[0]) + "-" + h.name(p[1])
	count := func(id int, k byte) int { return h.events[hev{p, id, k}] }
	want := h.expectedHandlers(p)
	if idle && !c.unsure {
		// neither shape was moving: nothing is looked at, unless the pair was woken (then it starts over from its kept state)
		for id := range want {
			if n := count(id, 'b') + count(id, 'p'); n > 0 {
				h.fail("C19", "resting pair", "callbacks ran for %s, both of which were at rest", what)
			}
			if n := count(id, 's'); n > 0 {
				if !c.touching {
					h.fail("C19", "stray separate", "separate ran for %s, which did not touch", what)
				}
				c.touching, c.ignored = false, false
			}
		}
		return
	}
	if c.unsure {
		return
	}
	was := *c
	for id, m := range want {
		b, s, pre, post := count(id, 'b'), count(id, 's'), count(id, 'p'), count(id, 'o')
		switch {
		case touch && !was.touching:
			if b != m {
				h.fail("C19", "begin", "begin ran %d times instead of %d on the first step of contact of %s", b, m, what)
			}
			if s != 0 {
				h.fail("C19", "early separate", "separate ran for %s, which started to touch", what)
			}
		case touch && was.touching:
			if b != 0 {
				h.fail("C19", "begin again", "begin ran again for %s, which kept touching", what)
			}
			if s != 0 {
				h.fail("C19", "early separate", "separate ran for %s, which still touch", what)
			}
		case !touch && was.touching:
			if b != 0 || pre != 0 {
				h.fail("C19", "no contact", "begin or pre-solve ran for %s, which do not touch", what)
			}
			if s != m && !nowIdle {
				h.fail("C19", "separate", "separate ran %d times instead of %d when %s stopped touching", s, m, what)
			}
			if nowIdle && s == 0 {
				return // both came to rest: told when one moves again
			}
		default:
			if b != 0 || pre != 0 || s != 0 || post != 0 {
				h.fail("C19", "no contact", "callbacks ran for %s (begin %d pre %d sep %d post %d), which do not touch (may %v %v, bounds %v, %v)", what, b, pre, s, post, h.mayCollide(p[0], p[1]), hbbs(p[0].bb, p[1].bb), ShapesCollide(p[0], p[1]), ShapesCollide(p[1], p[0]))
			}
		}
		if touch {
			d := h.decide[p]
			ign := was.touching && was.ignored || d == 1
			wantPre := m
			if ign {
				wantPre = 0
			}
			if m == 2 || h.multi(p) {
				// the second wildcard's pre-solve is skipped when the first says no
				if d == 2 || d == 3 {
					wantPre = -1
				}
			}
			if wantPre >= 0 && pre != wantPre {
				h.fail("C19", "pre-solve", "pre-solve ran %d times instead of %d for %s (ignored %v, decision %d)", pre, wantPre, what, ign, d)
			}
			out := ign || d != 0 || p[0].sensor || p[1].sensor || hinf(p[0].body) && hinf(p[1].body)
			if out && (post != 0 || solved) && !h.wokenNow[p[0].body] && !h.wokenNow[p[1].body] {
				h.fail("C19", "solver", "%s was solved although it is ignored, refused, a sensor or immovable", what)
			}
			if !out && post != m && !p[0].body.IsSleeping() && !p[1].body.IsSleeping() {
				h.fail("C19", "post-solve", "post-solve ran %d times instead of %d for %s", post, m, what)
			}
		}
	}
	if touch {
		d := h.decide[p]
		c.ignored = was.touching && was.ignored || d == 1 || d == 3
	} else {
		c.ignored = false
	}
	c.touching = touch
}

// multi: several handlers (two wildcards) share the decision for the pair
func (h *hist) multi(p hpair) bool { return len(h.expectedHandlers(p)) > 1 }

// ---- queries

func (h *hist) qfilter() ShapeFilter {
	if h.r.Intn(2) == 0 {
		return SHAPE_FILTER_ALL
	}
	return NewShapeFilter(uint(h.r.Intn(3)), uint(1+h.r.Intn(7)), uint(1+h.r.Intn(7)))
}

func (h *hist) opNearest() {
	p, max, f := Vector{h.num() + 0.03, h.num() - 0.05}, float64(h.r.Intn(9))/2, h.qfilter()
	h.note("nearest %v within %g", p, max)
	info := h.s.PointQueryNearest(p, max, f)
	best := max
	var bs *Shape
	for _, s := range h.shapes {
		if hreject(s.Filter, f) || s.sensor {
			if info.Shape == s {
				h.fail("C28", "nearest filter", "PointQueryNearest(%v, %g, %v) returned filtered shape %s", p, max, f, h.name(s))
				h.fail("C07", "nearest filter", "PointQueryNearest(%v, %g, %v) returned filtered shape %s", p, max, f, h.name(s))
			}
			continue
		}
		if d := hdist(s, p); d < best {
			best, bs = d, s
		}
	}
	if math.Abs(info.Distance-best) > 1e-6 {
		h.fail("C28", "nearest", "PointQueryNearest(%v, %g) gives distance %g; the smallest is %g (%s)", p, max, info.Distance, best, h.name(bs))
	}
	if bs != nil && best < max-1e-6 && info.Shape == nil {
		h.fail("C28", "nearest", "PointQueryNearest(%v, %g) found nothing; %s is at %g", p, max, h.name(bs), best)
	}
	if bs == nil && info.Shape != nil && math.Abs(info.Distance-max) > 1e-6 {
		h.fail("C28", "nearest", "PointQueryNearest(%v, %g) found %s at %g; nothing is that near", p, max, h.name(info.Shape), info.Distance)
	}
}

func (h *hist) compare(prop, what string, n map[*Shape]int, want func(*Shape) int, args string) {
	for _, s := range h.shapes {
		w := want(s)
		if w >= 0 && n[s] != w {
			h.fail(prop, what, "%s(%s) reported %s %d times instead of %d", what, args, h.name(s), n[s], w)
		}
	}
	for s := range n {
		in := false
		for _, o := range h.shapes {
			in = in || o == s
		}
		if !in {
			h.fail(prop, what, "%s(%s) reported %s, which is not in the space", what, args, h.name(s))
		}
	}
}

func (h *hist) opBBQuery() {
	c := Vector{h.num() + 0.01, h.num() + 0.02}
	w, t, f := float64(h.r.Intn(12))/3, float64(h.r.Intn(12))/3, h.qfilter()
	bb := BB{c.X - w, c.Y - t, c.X + w, c.Y + t}
	h.note("box query %v %v", bb, f)
	n := map[*Shape]int{}
	mark := &struct{ x int }{}
	h.s.BBQuery(bb, f, func(s *Shape, d interface{}) {
		n[s]++
		if d != any(mark) {
			h.fail("C28", "data", "the box query callback got other data")
		}
		if h.r.Intn(10) == 0 {
			h.post(0)
		}
	}, mark)
	want := func(s *Shape) int {
		if !hreject(s.Filter, f) && hbbs(s.bb, bb) {
			return 1
		}
		return 0
	}
	args := fmt.Sprintf("%v, %v", bb, f)
	h.compare("C28", "BBQuery", n, want, args)
	h.compare("C16", "BBQuery", n, want, args)
	h.compare("C17", "BBQuery", n, want, args)
	for s := range n {
		if hreject(s.Filter, f) {
			h.fail("C07", "BBQuery", "BBQuery(%s) reported filtered shape %s", args, h.name(s))
		}
	}
	// the indexes themselves
	for _, ix := range []*SpatialIndex{h.s.staticShapes, h.s.dynamicShapes} {
		n := map[*Shape]int{}
		ix.class.Query(nil, bb, func(_ interface{}, s *Shape, id uint32, _ interface{}) uint32 { n[s]++; return id }, nil)
		for _, s := range h.shapes {
			if !ix.class.Contains(s, s.hashid) {
				if n[s] > 0 {
					h.fail("C16", "stale object", "an index visited %s, which it does not contain", h.name(s))
					h.fail("C17", "stale object", "an index visited %s, which it does not contain", h.name(s))
				}
				continue
			}
			if hbbs(s.bb, bb) && n[s] != 1 || n[s] > 1 {
				h.fail("C16", "index query", "an index query for %v visited %s %d times", bb, h.name(s), n[s])
				h.fail("C17", "index query", "an index query for %v visited %s %d times", bb, h.name(s), n[s])
			}
			delete(n, s)
		}
		for s := range n {
			h.fail("C16", "stale object", "an index visited a removed object (%v)", s != nil)
			h.fail("C17", "stale object", "an index visited a removed object (%v)", s != nil)
		}
		cnt := 0
		seen := map[*Shape]int{}
		ix.class.Each(func(s *Shape) { cnt++; seen[s]++ })
		if cnt != ix.class.Count() || len(seen) != cnt {
			h.fail("C16", "index count", "an index counts %d objects but enumerates %d (%d distinct)", ix.class.Count(), cnt, len(seen))
			h.fail("C17", "index count", "an index counts %d objects but enumerates %d (%d distinct)", ix.class.Count(), cnt, len(seen))
		}
	}
}

// hcross is the first fraction at which the segment comes within the shape, found by sampling and bisection; 2 if none.
func hcross(s *Shape, a, b Vector, r float64) float64 {
	const n = 400
	at := func(t float64) float64 { return hdist(s, a.Lerp(b, t)) - r }
	prev := 0.0
	for i := 0; i <= n; i++ {
		t := float64(i) / n
		if at(t) <= 0 {
			if i == 0 {
				return 0
			}
			lo, hi := prev, t
			for k := 0; k < 50; k++ {
				m := (lo + hi) / 2
				if at(m) <= 0 {
					hi = m
				} else {
					lo = m
				}
			}
			return hi
		}
		prev = t
	}
	return 2
}

func (h *hist) opSegment() {
	a, b, f := Vector{h.num() + 0.013, h.num() + 0.027}, Vector{h.num() - 0.011, h.num() + 0.019}, h.qfilter()
	if h.r.Intn(5) == 0 {
		b.X = a.X
	} else if h.r.Intn(5) == 0 {
		b.Y = a.Y
	}
	h.note("segment query %v %v", a, b)
	n := map[*Shape]int{}
	al := map[*Shape]float64{}
	h.s.SegmentQuery(a, b, 0, f, func(s *Shape, p, nrm Vector, alpha float64, d interface{}) {
		n[s]++
		al[s] = alpha
		if h.r.Intn(10) == 0 {
			h.post(0)
		}
	}, nil)
	first := 2.0
	var fs *Shape
	unsure := false
	want := func(s *Shape) int {
		if hreject(s.Filter, f) {
			return 0
		}
		t := hcross(s, a, b, 0)
		deep := 0.0
		for i := 0; i <= 400; i++ {
			deep = math.Min(deep, hdist(s, a.Lerp(b, float64(i)/400)))
		}
		if t <= 1 && deep > -0.02 || t == 2 && hcross(s, a, b, 0.02) <= 1 {
			unsure = true
			return -1 // grazing
		}
		if t == 0 {
			unsure = unsure || n[s] != 1
			return -1
		}
		if t <= 1 {
			if !s.sensor && t < first {
				first, fs = t, s
			}
			return 1
		}
		return 0
	}
	args := fmt.Sprintf("%v, %v, %v", a, b, f)
	h.compare("C28", "SegmentQuery", n, want, args)
	h.compare("C16", "SegmentQuery", n, want, args)
	for s := range n {
		if hreject(s.Filter, f) {
			h.fail("C07", "SegmentQuery", "SegmentQuery(%s) reported filtered shape %s", args, h.name(s))
		}
	}
	info := h.s.SegmentQueryFirst(a, b, 0, f)
	inside := false
	for _, s := range h.shapes {
		if !hreject(s.Filter, f) && !s.sensor && hdist(s, a) <= 1e-6 {
			inside = true
		}
	}
	if info.Shape != nil && (hreject(info.Shape.Filter, f) || info.Shape.sensor) {
		h.fail("C28", "SegmentQueryFirst", "SegmentQueryFirst(%s) returned filtered or sensor shape %s", args, h.name(info.Shape))
		h.fail("C07", "SegmentQueryFirst", "SegmentQueryFirst(%s) returned filtered or sensor shape %s", args, h.name(info.Shape))
	}
	if inside {
		if info.Alpha != 0 {
			h.fail("C28", "SegmentQueryFirst", "SegmentQueryFirst(%s) starts inside a shape but gives fraction %g", args, info.Alpha)
		}
		return
	}
	if unsure {
		return
	}
	if fs == nil {
		if info.Shape != nil {
			h.fail("C28", "SegmentQueryFirst", "SegmentQueryFirst(%s) hit %s at %g; nothing is hit", args, h.name(info.Shape), info.Alpha)
		}
	} else if math.Abs(info.Alpha-first) > 1e-6 {
		for _, q := range []string{"C28", "C16"} {
			h.fail(q, "SegmentQueryFirst", "SegmentQueryFirst(%s) gives fraction %g; the first hit is %s at %g", args, info.Alpha, h.name(fs), first)
		}
	}
}

func (h *hist) opShapeQuery() {
	b := NewBody(1, 1)
	b.SetPosition(Vector{h.num() + 0.017, h.num() + 0.023})
	b.SetAngle(h.num() / 3)
	q := h.newShape(b)
	if h.r.Intn(4) == 0 && len(h.shapes) > 0 {
		q = h.shapes[h.r.Intn(len(h.shapes))]
		if q.body.GetType() == BODY_DYNAMIC {
			q = h.newShape(b)
		}
	}
	h.note("shape query %T at %v", q.Class, q.body.Position())
	n := map[*Shape]int{}
	got := h.s.ShapeQuery(q, func(s *Shape, set *ContactPointSet) {
		n[s]++
		if set == nil || set.Count == 0 {
			h.fail("C28", "ShapeQuery", "ShapeQuery reported %s without contacts", h.name(s))
		}
		if h.r.Intn(10) == 0 {
			h.post(0)
		}
	})
	any, unsure := false, false
	want := func(s *Shape) int {
		if s == q || hreject(q.Filter, s.Filter) {
			return 0
		}
		set := ShapesCollide(q, s)
		if set.Count == 0 || !hbbs(q.bb, s.bb) {
			return 0
		}
		deep := 0.0
		for k := 0; k < set.Count; k++ {
			deep = math.Min(deep, set.Points[k].Distance)
		}
		if deep > -1e-9 {
			unsure = true
			return -1
		}
		if !s.sensor && !q.sensor {
			any = true
		}
		return 1
	}
	h.compare("C28", "ShapeQuery", n, want, "")
	if !unsure && any != got {
		h.fail("C28", "ShapeQuery result", "ShapeQuery returned %v instead of %v", got, any)
	}
	for s := range n {
		if hreject(q.Filter, s.Filter) {
			h.fail("C07", "ShapeQuery", "ShapeQuery reported filtered shape %s", h.name(s))
		}
	}
}

func (h *hist) opStep() {
	dt := []float64{1.0 / 60, 1.0 / 60, 1.0 / 60, 0.02}[h.r.Intn(4)]
	h.note("step %g", dt)
	h.asleep = map[*Body]bool{h.s.StaticBody: true}
	idle := map[*Body]float64{}
	for _, b := range h.bodies {
		h.asleep[b] = b.IsSleeping() || b.GetType() == BODY_STATIC
		idle[b] = b.IdleTime()
	}
	h.events = map[hev]int{}
	h.inStep = true
	hnow = h
	shapes := len(h.shapes)
	seq := len(h.log)
	h.s.Step(dt)
	h.inStep = false
	// a shape removed by a post-step callback ends the comparison for this step
	removed := false
	for _, l := range h.log[seq:] {
		removed = removed || strings.HasPrefix(l, "remove")
	}
	if !removed && len(h.shapes) == shapes {
		h.checkStep()
	} else {
		h.broken = true
	}
	// falling asleep
	dv := h.s.IdleSpeedThreshold
	dvsq := dv * dv
	if dv == 0 {
		dvsq = h.s.gravity.LengthSq() * dt * dt
	}
	for _, b := range h.bodies {
		if b.IsSleeping() && !h.asleep[b] {
			if b.IdleTime() < h.s.SleepTimeThreshold-1e-9 {
				h.fail("C21", "too early", "%s fell asleep after %g s of idling; the threshold is %g", h.name(b), b.IdleTime(), h.s.SleepTimeThreshold)
			}
			if b.IdleTime() > idle[b]+dt+1e-9 {
				h.fail("C21", "idle time", "the idle time of %s grew from %g to %g in one step of %g", h.name(b), idle[b], b.IdleTime(), dt)
			}
			if ke := b.v.LengthSq()*b.m + b.w*b.w*b.i; ke > b.m*dvsq*(1+1e-9) {
				h.fail("C21", "too fast", "%s fell asleep with energy %g above the limit %g", h.name(b), ke, b.m*dvsq)
			}
		}
	}
}

var hnow *hist

func (h *hist) op() {
	h.root = map[*Body]*Body{}
	h.wokenNow = map[*Body]bool{}
	for _, b := range h.bodies {
		if b.IsSleeping() {
			h.root[b] = b.sleepingRoot
		}
	}
	h.broken = false
	r := h.r
	k := r.Intn(40)
	switch {
	case len(h.bodies) < 2 || k < 3:
		h.opAddBody()
	case k < 5:
		h.opAddShape()
	case k == 5:
		h.opRemoveShape()
	case k == 6:
		h.opRemoveBody()
	case k < 9:
		h.opAddJoint()
	case k == 9:
		h.opRemoveJoint()
	case k == 10:
		h.opType()
	case k < 13:
		h.opPush()
	case k == 13:
		h.opGravity()
	case k == 14:
		h.opMove()
	case k == 15:
		h.opReindexAll()
	case k == 16:
		h.opHandFilter()
	case k == 17:
		h.opEachBodyWake()
	case k == 18:
		h.note("post-step callback while unlocked")
		h.post(0)
	case k == 19:
		h.opNearest()
	case k == 20:
		h.opBBQuery()
	case k == 21:
		h.opSegment()
	case k == 22:
		h.opShapeQuery()
	default:
		for n := 1 + r.Intn(3); n > 0 && !h.broken; n-- {
			h.opStep()
			h.check()
			if n > 1 {
				h.root = map[*Body]*Body{}
				for _, b := range h.bodies {
					if b.IsSleeping() {
						h.root[b] = b.sleepingRoot
					}
				}
				h.wokenNow = map[*Body]bool{}
			}
		}
		if h.prop == "C28" || h.prop == "C16" || h.prop == "C17" || h.prop == "C07" {
			h.opNearest()
			h.opBBQuery()
			if h.prop != "C17" {
				h.opSegment()
			}
			h.opShapeQuery()
		}
	}
	h.check()
}

func (h *hist) check() {
	if h.s.locked != 0 {
		h.fail("C20", "left locked", "the space is left locked (%d)", h.s.locked)
	}
	if h.postBad != "" {
		h.fail("C20", "post-step", "%s", h.postBad)
	}
	if len(h.s.rousedBodies) != 0 {
		h.fail("C20", "roused", "%d woken bodies were not put back", len(h.s.rousedBodies))
	}
	if len(h.postRun) > len(h.postReg) {
		h.fail("C20", "twice", "callbacks ran %v; registered were %v", h.postRun, h.postReg)
	}
	for i := range h.postRun {
		if i < len(h.postReg) && h.postRun[i] != h.postReg[i] {
			h.fail("C20", "order", "callbacks ran in order %v; registered were %v", h.postRun, h.postReg)
		}
	}
	if last := h.log[len(h.log)-1]; strings.HasPrefix(last, "step") && len(h.postRun) != len(h.postReg) {
		h.fail("C20", "not run", "callbacks run after the step: %v; registered were %v", h.postRun, h.postReg)
	}
	if len(h.postRun) == len(h.postReg) {
		h.postRun, h.postReg = nil, nil
	}
	h.checkMembership()
	h.checkLists()
	h.checkSleep()
	h.checkContactStorage()
	h.contactsBetweenSteps()
}

// contactsBetweenSteps drops the model's contacts of shapes that are gone.
func (h *hist) contactsBetweenSteps() {}

func (h *hist) sane() bool {
	for _, b := range h.bodies {
		if !(math.Abs(b.p.X) < 60 && math.Abs(b.p.Y) < 60 && math.Abs(b.v.X) < 200 && math.Abs(b.v.Y) < 200 && math.Abs(b.w) < 200) {
			return false
		}
	}
	return true
}

// hstack names the frames of the code under test that a panic went through.
func hstack() string {
	var out []string
	for _, l := range strings.Split(string(debug.Stack()), "\n") {
		l = strings.TrimSpace(l)
		if i := strings.LastIndex(l, "/"); strings.HasPrefix(l, "/") && i > 0 && !strings.Contains(l, "_test.go") && !strings.Contains(l, "/src/") {
			out = append(out, strings.Fields(l[i+1:])[0])
		}
		if len(out) == 6 {
			break
		}
	}
	return " at " + strings.Join(out, " < ")
}

func verifHistory(t *testing.T, prop string) {
	budget, _ := strconv.ParseFloat(os.Getenv("VERIF_BUDGET"), 64)
	if budget == 0 {
		budget = 5
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	one, _ := strconv.ParseInt(os.Getenv("VERIF_HISTORY"), 10, 64)
	until := time.Now().Add(time.Duration(budget * float64(time.Second)))
	var mu sync.Mutex
	cases := 0
	fails := map[string]string{}
	var wg sync.WaitGroup
	running, started := [4]*hist{}, [4]time.Time{}
	go func() {
		for {
			time.Sleep(time.Second)
			mu.Lock()
			for w, h := range running {
				if h != nil && time.Since(started[w]) > 10*time.Second {
					fmt.Printf("VERIF-FAIL hang: no end to: %s\nVERIF-CASES %d\n", strings.Join(h.log, "; "), cases)
					os.Exit(0)
				}
			}
			mu.Unlock()
		}
	}()
	for w := 0; w < 4; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for k := int64(0); time.Now().Before(until); k++ {
				id := seed*1000003 + k*4 + int64(w)
				if one != 0 {
					id = one
				}
				h := newHist(prop, id)
				mu.Lock()
				running[w], started[w] = h, time.Now()
				mu.Unlock()
				func() {
					defer func() {
						if e := recover(); e != nil {
							h.fails["panic"] = fmt.Sprint(e) + hstack() + " after: " + strings.Join(h.log, "; ")
						}
					}()
					for n := 6 + int(id%50); n > 0 && len(h.fails) == 0 && h.sane(); n-- {
						h.op()
					}
				}()
				mu.Lock()
				running[w] = nil
				cases++
				for n, d := range h.fails {
					if old, ok := fails[n]; !ok || len(d) < len(old) {
						fails[n] = fmt.Sprintf("history %d: %s", id, d)
					}
				}
				stop := len(fails) > 0 && k > 2000 || one != 0
				mu.Unlock()
				if stop {
					return
				}
			}
		}(w)
	}
	wg.Wait()
	for n, d := range fails {
		fmt.Printf("VERIF-FAIL %s: %s\n", n, d)
	}
	fmt.Printf("VERIF-CASES %d\n", cases)
}

func TestVerifC07(t *testing.T) { verifHistory(t, "C07") }
func TestVerifC16(t *testing.T) { verifHistory(t, "C16") }
func TestVerifC17(t *testing.T) { verifHistory(t, "C17") }
func TestVerifC18(t *testing.T) { verifHistory(t, "C18") }
func TestVerifC19(t *testing.T) { verifHistory(t, "C19") }
func TestVerifC20(t *testing.T) { verifHistory(t, "C20") }
func TestVerifC21(t *testing.T) { verifHistory(t, "C21") }
func TestVerifC22(t *testing.T) { verifHistory(t, "C22") }
func TestVerifC23(t *testing.T) { verifHistory(t, "C23") }
func TestVerifC28(t *testing.T) { verifHistory(t, "C28") }
