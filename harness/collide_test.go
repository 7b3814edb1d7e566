package cp

// Random pairs of shapes compared with a brute-force separation oracle: every vertex difference is
// formed, their hull is taken, and the origin is measured against it. Bounded stand-in.

import (
	"fmt"
	"math"
	"math/rand"
	"os"
	"sort"
	"strconv"
	"testing"
	"time"
)

type kcase struct {
	kind   int
	pts    []Vector
	r      float64
	pos    Vector
	angle  float64
	scaled bool
}

type kgen struct {
	rnd   *rand.Rand
	fails map[string]string
}

func (g *kgen) fail(name, format string, args ...any) {
	if g.fails[name] == "" {
		g.fails[name] = fmt.Sprintf(format, args...)
		fmt.Printf("VERIF-FAIL %s: %s\n", name, g.fails[name])
	}
}

func (g *kgen) num() float64 {
	x := float64(g.rnd.Intn(17)-8) / 4
	if g.rnd.Intn(6) == 0 {
		x += g.rnd.Float64() - 0.5
	}
	return x
}

func (g *kgen) vec() Vector { return Vector{g.num(), g.num()} }

// a random shape, in body coordinates
func (g *kgen) shape(kind int) kcase {
	k := kcase{kind: kind, r: float64(g.rnd.Intn(4)) / 4}
	switch kind {
	case 0:
		k.pts = []Vector{g.vec()}
	case 1:
		k.pts = []Vector{g.vec(), g.vec()}
		for g.rnd.Intn(20) > 0 && k.pts[0] == k.pts[1] {
			k.pts[1] = g.vec()
		}
	default:
		for {
			k.pts = nil
			if g.rnd.Intn(3) == 0 {
				w, h := float64(g.rnd.Intn(6)+1)/4, float64(g.rnd.Intn(6)+1)/4
				k.pts = []Vector{{-w, -h}, {w, -h}, {w, h}, {-w, h}}
			} else {
				var p []Vector
				for i := g.rnd.Intn(5) + 3; i > 0; i-- {
					p = append(p, g.vec())
				}
				k.pts = khull(p)
			}
			if len(k.pts) >= 3 && karea(k.pts) > 0.05 {
				break
			}
		}
	}
	g.place(&k)
	return k
}

func (g *kgen) place(k *kcase) {
	k.pos = g.vec()
	if g.rnd.Intn(2) == 0 {
		k.angle = float64(g.rnd.Intn(16)) * math.Pi / 8
	} else if g.rnd.Intn(2) == 0 {
		k.angle = g.rnd.Float64() * 7
	} else {
		k.angle = 0
	}
}

func (k kcase) build() *Shape {
	b := NewBody(1, 1)
	var s *Shape
	switch k.kind {
	case 0:
		s = NewCircle(b, math.Max(k.r, 0.25), k.pts[0])
	case 1:
		s = NewSegment(b, k.pts[0], k.pts[1], k.r)
	default:
		s = NewPolyShapeRaw(b, len(k.pts), append([]Vector{}, k.pts...), k.r)
	}
	k.move(s)
	return s
}

func (k kcase) move(s *Shape) {
	s.body.SetAngle(k.angle)
	s.body.SetPosition(k.pos)
	s.Update(s.body.transform)
}

func (k kcase) String() string {
	return fmt.Sprintf("{%s %v r=%g at {%v %v} angle %v}", []string{"circle", "segment", "poly"}[k.kind], kstr(k.pts), k.r, k.pos.X, k.pos.Y, k.angle)
}

func kstr(p []Vector) string {
	s := ""
	for _, v := range p {
		s += fmt.Sprintf("{%v, %v},", v.X, v.Y)
	}
	return s
}

// the core (without its radius) of a shape, in world coordinates
func kcore(s *Shape) ([]Vector, float64) {
	switch c := s.Class.(type) {
	case *Circle:
		return []Vector{c.tc}, c.r
	case *Segment:
		return []Vector{c.ta, c.tb}, c.r
	case *PolyShape:
		var p []Vector
		for i := 0; i < c.count; i++ {
			p = append(p, c.planes[i].v0)
		}
		return p, c.r
	}
	panic("shape")
}

func karea(p []Vector) float64 {
	a := 0.0
	for i := range p {
		q := p[(i+1)%len(p)]
		a += p[i].X*q.Y - p[i].Y*q.X
	}
	return a / 2
}

// counter-clockwise hull without collinear vertices
func khull(in []Vector) []Vector {
	p := append([]Vector{}, in...)
	sort.Slice(p, func(i, j int) bool { return p[i].X < p[j].X || p[i].X == p[j].X && p[i].Y < p[j].Y })
	var h []Vector
	add := func(from int, v Vector) {
		for len(h) >= from+2 {
			a, b := h[len(h)-2], h[len(h)-1]
			if (b.X-a.X)*(v.Y-b.Y)-(b.Y-a.Y)*(v.X-b.X) > 1e-12 {
				break
			}
			h = h[:len(h)-1]
		}
		h = append(h, v)
	}
	for _, v := range p {
		add(0, v)
	}
	n := len(h) - 1
	for i := len(p) - 2; i >= 0; i-- {
		add(n, p[i])
	}
	if len(h) > 1 {
		h = h[:len(h)-1]
	}
	return h
}

func ksegdist(p, a, b Vector) float64 {
	dx, dy := b.X-a.X, b.Y-a.Y
	t := 0.0
	if l := dx*dx + dy*dy; l > 0 {
		t = math.Max(0, math.Min(1, ((p.X-a.X)*dx+(p.Y-a.Y)*dy)/l))
	}
	return math.Hypot(p.X-a.X-t*dx, p.Y-a.Y-t*dy)
}

// distance of p from a convex polygon (or segment or point), negative inside
func kdist(p Vector, poly []Vector) float64 { return ksep([]Vector{p}, poly) }

// separation of two convex polygons (or segments or points): the smallest distance of a corner of one
// from an outline of the other, or else the best edge normal gives the depth
func ksep(a, b []Vector) float64 {
	s := math.Inf(-1)
	d := math.Inf(1)
	for k, p := range [][]Vector{a, b} {
		q := [][]Vector{b, a}[k]
		for i := range p {
			u, v := p[i], p[(i+1)%len(p)]
			for _, w := range q {
				d = math.Min(d, ksegdist(w, u, v))
			}
			l := math.Hypot(v.X-u.X, v.Y-u.Y)
			if l == 0 {
				continue
			}
			n := []Vector{{(v.Y - u.Y) / l, -(v.X - u.X) / l}}
			if len(p) == 2 {
				n = append(n, Vector{-n[0].X, -n[0].Y}, Vector{n[0].Y, -n[0].X}, Vector{-n[0].Y, n[0].X})
			}
			for _, n := range n {
				lo, hi := math.Inf(1), math.Inf(-1)
				for _, w := range q {
					lo = math.Min(lo, w.X*n.X+w.Y*n.Y)
				}
				for _, w := range p {
					hi = math.Max(hi, w.X*n.X+w.Y*n.Y)
				}
				s = math.Max(s, lo-hi)
			}
		}
	}
	if s < 0 && !math.IsInf(s, 0) {
		return s
	}
	return d
}

func kdiff(a, b []Vector) []Vector {
	var d []Vector
	for _, x := range a {
		for _, y := range b {
			d = append(d, Vector{y.X - x.X, y.Y - x.Y})
		}
	}
	return d
}

const ktol = 1e-6

// true for NaN too
func koff(x float64) bool { return !(math.Abs(x) <= ktol) }

// the separation search against the oracle (C32)
func (g *kgen) search(ka, kb kcase, a, b *Shape, id uint32, how string) {
	pa, _ := kcore(a)
	pb, _ := kcore(b)
	diff := kdiff(pa, pb)
	want := ksep(pa, pb)
	ctx := SupportContext{a, b, kfunc(a), kfunc(b)}
	res := GJK(ctx, &id)
	args := fmt.Sprintf("%v against %v %s", ka, kb, how)
	if koff(res.d-want) {
		g.fail("separation", "GJK says the separation is %g, it is %g: %s", res.d, want, args)
		return
	}
	if koff(math.Hypot(res.n.X, res.n.Y)-1) {
		g.fail("direction is a unit vector", "GJK gives direction %v (distance %g): %s", res.n, want, args)
		return
	}
	low := math.Inf(1)
	for _, x := range diff {
		low = math.Min(low, x.X*res.n.X+x.Y*res.n.Y)
	}
	if koff(low-want) && koff(want) { // shapes touching in a corner: the search may stop at any direction
		g.fail("direction", "GJK gives direction %v along which the shapes are %g apart, the separation is %g: %s", res.n, low, want, args)
	}
	if koff(res.b.X-res.a.X-res.d*res.n.X) || koff(res.b.Y-res.a.Y-res.d*res.n.Y) {
		g.fail("closest points", "GJK gives closest points %v and %v with separation %g along %v: %s", res.a, res.b, res.d, res.n, args)
	}
	if !(kdist(res.a, pa) <= ktol) || !(kdist(res.b, pb) <= ktol) {
		g.fail("closest points lie on the shapes", "GJK gives closest points %v and %v: %s", res.a, res.b, args)
	}
	for k, s := range []*Shape{a, b} {
		dir := Vector{g.num(), g.num()}
		f := []SupportPointFunc{ctx.func1, ctx.func2}[k]
		p := f(s, dir)
		core := [][]Vector{pa, pb}[k]
		best := math.Inf(-1)
		for _, v := range core {
			best = math.Max(best, v.X*dir.X+v.Y*dir.Y)
		}
		if koff(p.p.X*dir.X+p.p.Y*dir.Y-best) || int(p.index) >= len(core) || core[p.index] != p.p {
			g.fail("support point", "support point of %T along %v is %v (index %d): %s", s.Class, dir, p.p, p.index, args)
		}
	}
}

func kfunc(s *Shape) SupportPointFunc {
	switch s.Class.(type) {
	case *Circle:
		return CircleSupportPoint
	case *Segment:
		return SegmentSupportPoint
	}
	return PolySupportPoint
}

// the reported contacts against the oracle (C24)
func (g *kgen) contacts(ka, kb kcase, a, b *Shape, id uint32, how string) {
	args := fmt.Sprintf("%v against %v %s", ka, kb, how)
	pa, ra := kcore(a)
	pb, rb := kcore(b)
	diff := kdiff(pa, pb)
	sep := ksep(pa, pb)
	gap := sep - ra - rb
	if !koff(sep) && (kdegenerate(ka) || kdegenerate(kb)) {
		return // a zero-length segment has no normal to fall back to
	}
	buf := make([]Contact, MAX_CONTACTS_PER_ARBITER)
	var info CollisionInfo
	flip := false
	if how == "from scratch" {
		set := ShapesCollide(a, b)
		info.count, info.n = set.Count, set.Normal
		for i := 0; i < set.Count && i < 2; i++ {
			buf[i].r1, buf[i].r2 = set.Points[i].PointA, set.Points[i].PointB
			d := (buf[i].r2.X-buf[i].r1.X)*info.n.X + (buf[i].r2.Y-buf[i].r1.Y)*info.n.Y
			if koff(d-set.Points[i].Distance) {
				g.fail("contact distance", "contact %d of %d has distance %g, not %g: %s", i, set.Count, set.Points[i].Distance, d, args)
			}
		}
		back := ShapesCollide(b, a)
		if (back.Count > 0) != (set.Count > 0) && koff(gap) {
			g.fail("swapped overlap", "%d contacts one way and %d the other: %s", set.Count, back.Count, args)
		}
		if set.Count > 0 && back.Count > 0 {
			// the direction with the smallest separation may not be unique
			for _, n := range []Vector{set.Normal, {-back.Normal.X, -back.Normal.Y}} {
				low := math.Inf(1)
				for _, x := range diff {
					low = math.Min(low, x.X*n.X+x.Y*n.Y)
				}
				if koff(low-sep) && koff(sep) {
					g.fail("normal", "normal %v separates by %g, the separation is %g: %s", n, low, sep, args)
				}
			}
			if math.Abs(set.Normal.X+back.Normal.X) < ktol && math.Abs(set.Normal.Y+back.Normal.Y) < ktol {
				if koff(kdeep(set)-kdeep(back)) && koff(sep) && !kalong(pa, set.Normal) && !kalong(pb, set.Normal) {
					g.fail("swapped contacts", "%+v one way and %+v the other: %s", set, back, args)
				}
			}
		}
	} else {
		info = Collide(a, b, id, buf)
		flip = info.a != a
	}
	if info.count > 2 || info.count < 0 {
		g.fail("at most two contacts", "%d contacts: %s", info.count, args)
		return
	}
	if info.count > 0 && gap > ktol {
		g.fail("contact only when overlapping", "%d contacts %+v normal %v though the shapes are %g apart: %s", info.count, buf[0].r1, info.n, gap, args)
	}
	if info.count == 0 && gap < -ktol {
		g.fail("contact when overlapping", "no contact though the shapes overlap by %g: %s", -gap, args)
	}
	if info.count == 0 {
		return
	}
	n := info.n
	if koff(math.Hypot(n.X, n.Y)-1) {
		g.fail("unit normal", "normal %v (overlap %g): %s", n, gap, args)
		return
	}
	if flip {
		n = Vector{-n.X, -n.Y}
	}
	low := math.Inf(1)
	for _, x := range diff {
		low = math.Min(low, x.X*n.X+x.Y*n.Y)
	}
	if koff(low-sep) && koff(sep) {
		g.fail("normal", "normal %v (separating by %g) is not the direction of the smallest separation %g: %s", n, low, sep, args)
	}
	for i := 0; i < info.count; i++ {
		p, q := buf[i].r1, buf[i].r2
		if flip {
			p, q = q, p
		}
		d := (q.X-p.X)*n.X + (q.Y-p.Y)*n.Y
		if !(d <= ktol) || !(d >= gap-ktol) && koff(sep) {
			g.fail("contact distance", "contact %d of %d has distance %g, the gap is %g: %s", i, info.count, d, gap, args)
		}
		if ka.kind == 0 || kb.kind == 0 {
			if koff(d-gap) {
				g.fail("contact distance", "contact has distance %g, the gap is %g: %s", d, gap, args)
			}
		}
		if koff(kedge(Vector{p.X - n.X*ra, p.Y - n.Y*ra}, pa)) || koff(kedge(Vector{q.X + n.X*rb, q.Y + n.Y*rb}, pb)) {
			g.fail("contacts lie on the surfaces", "contact %d of %d at %v and %v (normal %v): %s", i, info.count, p, q, n, args)
		}
	}
}

// a segment along the normal: its contact points are those of an arbitrary end
func kalong(p []Vector, n Vector) bool {
	return len(p) == 2 && math.Abs((p[1].X-p[0].X)*n.Y-(p[1].Y-p[0].Y)*n.X) < 1e-3
}

func kdegenerate(k kcase) bool { return k.kind == 1 && k.pts[0] == k.pts[1] }

func kdeep(set ContactPointSet) float64 {
	d := math.Inf(1)
	for i := 0; i < set.Count; i++ {
		d = math.Min(d, set.Points[i].Distance)
	}
	return d
}

// distance from the outline of a convex polygon
func kedge(p Vector, poly []Vector) float64 {
	d := math.Inf(1)
	for i := range poly {
		d = math.Min(d, ksegdist(p, poly[i], poly[(i+1)%len(poly)]))
	}
	return d
}

func kbudget() (float64, int64) {
	b, s := 5.0, int64(1)
	if v, err := strconv.ParseFloat(os.Getenv("VERIF_BUDGET"), 64); err == nil {
		b = v
	}
	if v, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		s = v
	}
	return b, s
}

func kloop(t *testing.T, one func(g *kgen)) {
	b, seed := kbudget()
	g := &kgen{rand.New(rand.NewSource(seed*7919 + 17)), map[string]string{}}
	end := time.Now().Add(time.Duration(b * float64(time.Second)))
	n := 0
	for time.Now().Before(end) && len(g.fails) < 4 {
		one(g)
		n++
	}
	fmt.Printf("VERIF-CASES %d\n", n)
	if len(g.fails) > 0 {
		t.Fail()
	}
}

func (g *kgen) pair(one func(ka, kb kcase, a, b *Shape, id uint32, how string), kinds func() (int, int)) {
	x, y := kinds()
	ka, kb := g.shape(x), g.shape(y)
	if g.rnd.Intn(12) == 0 && (x == 2 || x == 1 && !kdegenerate(ka)) {
		// the same shape again
		y = x
		kb = ka
		if g.rnd.Intn(2) == 0 {
			kb.angle += math.Pi
		}
	}
	a, b := ka.build(), kb.build()
	if g.rnd.Intn(12) == 0 {
		// concentric shapes
		kb.pos = kb.pos.Add(a.bb.Center().Sub(b.bb.Center()))
		kb.move(b)
	}
	one(ka, kb, a, b, 0, "from scratch")
	for i := 0; i < 2; i++ {
		info := Collide(a, b, 0, make([]Contact, MAX_CONTACTS_PER_ARBITER))
		if g.rnd.Intn(2) == 0 {
			g.place(&ka)
		} else {
			kb.pos = kb.pos.Add(Vector{g.num() / 8, g.num() / 8})
			kb.angle += float64(g.rnd.Intn(3)-1) * 0.1
		}
		ka.move(a)
		kb.move(b)
		one(ka, kb, a, b, info.collisionId, fmt.Sprintf("starting from id %#x", info.collisionId))
	}
}

func TestVerifC32(t *testing.T) {
	kloop(t, func(g *kgen) {
		g.pair(g.search, func() (int, int) {
			p := [][2]int{{1, 1}, {0, 2}, {1, 2}, {2, 2}, {2, 2}}[g.rnd.Intn(5)]
			return p[0], p[1]
		})
	})
}

func TestVerifC24(t *testing.T) {
	kloop(t, func(g *kgen) {
		g.pair(g.contacts, func() (int, int) { return g.rnd.Intn(3), g.rnd.Intn(3) })
	})
}
