SEEDS = [
dict(id='c25-moment-backing', prop='C25',
  edits=[('everything.go', '''		v1 := verts[i].Add(offset)
		v2 := verts[(i+1)%count].Add(offset)
''', '''		v1 := verts[i].Add(offset)
		v2 := verts[(i+1)%len(verts)].Add(offset)
''')],
  needs='a count smaller than the length of the vertex slice', breaks='the moment closes the polygon through a vertex that is not part of it',
  demo='''
import (
	"math"
	"testing"
)

func TestZZDemo(t *testing.T) {
	vs := []Vector{{-1, -1}, {1, -1}, {1, 1}, {-1, 1}, {40, 3}}
	if m := MomentForPoly(3, 4, vs, Vector{}, 0); math.Abs(m-MomentForBox(3, 2, 2)) > 1e-9 {
		t.Fatal("moment", m)
	}
}
'''),
dict(id='c26-left-column', prop='C26',
  edits=[('march.go', '''		d := c
		buffer[0] = d
''', '''		d := c
		if j == 0 {
			buffer[0] = d
		}
''')],
  needs='a grid of at least four rows whose left column changes between the later rows', breaks='cells of the left column use the sample of an earlier row',
  demo='''
import "testing"

func TestZZDemo(t *testing.T) {
	// a diamond touching the left border in rows 2 and 3 of 5
	var lines int
	top := 0.0
	set := MarchHard(BB{0, 0, 4, 4}, 5, 5, 0.5, PolyLineCollectSegment, func(p Vector) float64 {
		if p.X < 0.5 && p.Y > 1.5 && p.Y < 2.5 {
			return 1
		}
		return 0
	})
	for _, l := range set.Lines {
		for _, v := range l.Verts {
			lines++
			if v.Y > top {
				top = v.Y
			}
			if v.Y < 1.4 || v.Y > 2.6 || v.X > 0.6 {
				t.Fatal("vertex", v)
			}
		}
	}
	if lines == 0 || len(set.Lines) != 1 || top < 2.4 {
		t.Fatal("lines", len(set.Lines), "vertices", lines)
	}
}
'''),
dict(id='c27-spike-dropped', prop='C27',
  edits=[('polyline.go', 'if a.Near(b, min) && (&PolyLine{Verts: verts}).IsShort(length, start, end, min) {', 'if length > 3 && a.Near(b, min) {')],
  needs='a narrow spike whose feet are closer than half the tolerance', breaks='simplification drops a vertex far outside the tolerance',
  demo='''
import "testing"

func TestZZDemo(t *testing.T) {
	pl := &PolyLine{Verts: []Vector{{0, 0}, {0.1, 8}, {0.3, 4}, {0.2, 0}}}
	out := pl.SimplifyCurves(1)
	for _, v := range out.Verts {
		if v.Y == 8 {
			return
		}
	}
	t.Fatal("spike dropped", out.Verts)
}
'''),
dict(id='c27-join-adjacent', prop='C27',
  edits=[('polyline.go', '''	copy(pls.Lines[after:], pls.Lines[after+1:])
	pls.Lines = pls.Lines[:len(pls.Lines)-1]
''', '''	last := len(pls.Lines) - 1
	if before == last {
		pls.Lines[after] = pls.Lines[before-1]
	} else {
		pls.Lines[after] = pls.Lines[last]
	}
	pls.Lines = pls.Lines[:last]
''')],
  needs='joining the last line of the set to one before it', breaks='the joined line is dropped and another one kept twice',
  demo='''
import "testing"

func TestZZDemo(t *testing.T) {
	s := &PolyLineSet{}
	for _, g := range [][2]Vector{{{5, 0}, {6, 0}}, {{20, 0}, {21, 0}}, {{1, 0}, {2, 0}}} {
		PolyLineCollectSegment(g[0], g[1], s)
	}
	PolyLineCollectSegment(Vector{2, 0}, Vector{5, 0}, s)
	n := 0
	for _, l := range s.Lines {
		n += len(l.Verts)
	}
	if len(s.Lines) != 2 || n != 6 {
		t.Fatal("lines", len(s.Lines), "vertices", n)
	}
}
'''),
dict(id='c31-vertical-points', prop='C31',
  edits=[('poly.go', '} else if v.X > max.X || (v.X == max.X && v.Y > max.Y) {', '} else if v.X > max.X {')],
  needs='points that all lie on one vertical line, the lowest first', breaks='the hull of a vertical segment collapses to one point',
  demo='''
import "testing"

func TestZZDemo(t *testing.T) {
	vs := []Vector{{1, 0}, {1, 2}, {1, 5}}
	if n := ConvexHull(3, vs, nil, 0); n != 2 {
		t.Fatal("hull of", n, vs[:n])
	}
}
'''),
dict(id='c31-pivot-first', prop='C31',
  edits=[('poly.go', '''			if value > max {
				max = value
				pivot = head
			}
''', '''			if value > max {
				max = value + valueTol
				pivot = head
			}
''')],
  needs='a tolerance and two points outside of one edge whose distances differ by less than it', breaks='the split point is not the farthest one, so the result is not convex',
  demo='''
import (
	"math/rand"
	"testing"
)

func TestZZDemo(t *testing.T) {
	r := rand.New(rand.NewSource(1))
	for k := 0; k < 20000; k++ {
		vs := make([]Vector, 12)
		for i := range vs {
			vs[i] = Vector{r.Float64() * 10, r.Float64() * 10}
		}
		in := append([]Vector{}, vs...)
		n := ConvexHull(len(vs), vs, nil, 0.7)
		for i := 0; i < n && n > 2; i++ {
			a, b, c := vs[i], vs[(i+1)%n], vs[(i+2)%n]
			if b.Sub(a).Cross(c.Sub(b)) < -1e-9 {
				t.Fatal("not convex", vs[:n], "of", in)
			}
		}
	}
}
'''),
dict(id='c32-epa-cap', prop='C32',
  edits=[('collision.go', 'maxEpaIterations  = 30', 'maxEpaIterations  = 4')],
  needs='two deeply overlapping polygons with many corners', breaks='the search stops before the nearest edge of the difference is found',
  demo='''
import (
	"math"
	"testing"
)

func TestZZDemo(t *testing.T) {
	ring := func(c Vector, k int, r float64) (*Shape, []Vector) {
		var vs []Vector
		for i := 0; i < k; i++ {
			a := 2 * math.Pi * (float64(i) + 0.3) / float64(k)
			vs = append(vs, Vector{c.X + r*math.Cos(a), c.Y + r*math.Sin(a)})
		}
		s := NewPolyShape(NewKinematicBody(), k, vs, NewTransformIdentity(), 0)
		s.Update(NewTransformIdentity())
		return s, vs
	}
	for i := 0; i < 40; i++ {
		off := Vector{0.9 * math.Cos(float64(i)), 0.7 * math.Sin(float64(i))}
		a, va := ring(Vector{}, 40, 2)
		b, vb := ring(off, 36, 1.5)
		best := math.Inf(-1)
		side := func(p, q []Vector) {
			for i := range p {
				n := p[(i+1)%len(p)].Sub(p[i]).ReversePerp().Normalize()
				lo := math.Inf(1)
				for _, v := range q {
					lo = math.Min(lo, n.Dot(v.Sub(p[i])))
				}
				best = math.Max(best, lo)
			}
		}
		side(va, vb)
		side(vb, va)
		var id uint32
		pts := GJK(SupportContext{a, b, PolySupportPoint, PolySupportPoint}, &id)
		if math.Abs(pts.d-best) > 1e-6 {
			t.Fatal("offset", off, "depth", pts.d, "want", best)
		}
	}
}
'''),
dict(id='c03-wrap-tall', prop='C03',
  edits=[('bb.go', 'mody := math.Mod(v.Y-bb.B, dy)', 'mody := math.Mod(v.Y-bb.B, math.Max(dx, dy))')],
  needs='a box wider than high and a point above it', breaks='wrapping a point leaves it above a wide box',
  demo='''
import "testing"

func TestZZDemo(t *testing.T) {
	b := BB{-10, -4, 10, 4}
	if v := b.WrapVect(Vector{3, 11}); v.Y < b.B || v.Y > b.T {
		t.Fatal("wrapped to", v)
	}
}
'''),
dict(id='c21-torque-asleep', prop='C21',
  edits=[('body.go', """func (body *Body) SetTorque(torque float64) {
	body.Activate()
""", """func (body *Body) SetTorque(torque float64) {
	if body.sleepingRoot == body {
		body.Activate()
	}
""")],
  needs='a torque set on a member of a sleeping group that is not its root', breaks='the group stays asleep although a torque was set on a member',
  demo="""
import "testing"

func TestZZDemo(t *testing.T) {
	space := NewSpace()
	space.SleepTimeThreshold = 0.5
	space.IdleSpeedThreshold = 1
	a := space.AddBody(NewBody(1, 1))
	b := space.AddBody(NewBody(1, 1))
	b.SetPosition(Vector{5, 0})
	space.AddConstraint(NewPinJoint(a, b, Vector{}, Vector{}))
	for i := 0; i < 120; i++ {
		space.Step(1.0 / 60)
	}
	if !a.IsSleeping() || !b.IsSleeping() {
		t.Fatal("not asleep")
	}
	for _, body := range []*Body{a, b} {
		body.SetTorque(3)
		if a.IsSleeping() || b.IsSleeping() {
			t.Fatal("still asleep")
		}
		for i := 0; i < 120; i++ {
			body.SetTorque(0)
			space.Step(1.0 / 60)
		}
		body.SetTorque(0)
		a.SetAngularVelocity(0)
		b.SetAngularVelocity(0)
		for i := 0; i < 240; i++ {
			space.Step(1.0 / 60)
		}
	}
}
"""),
]
