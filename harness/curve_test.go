package cp

// Marching squares (C26), polylines (C27), convex hulls (C31) and the hash set (C15) against direct
// reference implementations, on random inputs. Bounded stand-ins. Uses kgen from collide_test.go.

import (
	"math"
	"testing"
)

// --- C26

type mseg struct{ from, to Vector }

func mside(s mseg, p Vector) float64 {
	return (s.to.X-s.from.X)*(p.Y-s.from.Y) - (s.to.Y-s.from.Y)*(p.X-s.from.X)
}

// the segments of one cell against the corners
func (g *kgen) cell(hard bool, t, a, b, c, d, x0, x1, y0, y1 float64, segs []mseg, where string) {
	name := "soft cell"
	if hard {
		name = "hard cell"
	}
	corners := []Vector{{x0, y0}, {x1, y0}, {x0, y1}, {x1, y1}}
	vals := []float64{a, b, c, d}
	bad := func(what string) {
		g.fail(name, "%s: t=%v a=%v b=%v c=%v d=%v x %v..%v y %v..%v segments %v %s", what, t, a, b, c, d, x0, x1, y0, y1, segs, where)
	}
	// the four edges of the cell, by their corners
	edges := [][2]int{{0, 1}, {1, 3}, {3, 2}, {2, 0}}
	cross := func(e [2]int) (Vector, bool) {
		if (vals[e[0]] > t) == (vals[e[1]] > t) {
			return Vector{}, false
		}
		f := (t - vals[e[0]]) / (vals[e[1]] - vals[e[0]])
		if hard {
			f = 0.5
		}
		p, q := corners[e[0]], corners[e[1]]
		return Vector{p.X + (q.X-p.X)*f, p.Y + (q.Y-p.Y)*f}, true
	}
	near := func(p, q Vector) bool { return math.Hypot(p.X-q.X, p.Y-q.Y) < 1e-9*(1+math.Abs(p.X)+math.Abs(p.Y)) }
	// the ends of the chains are the crossings; the hard cells also meet in the middle
	mid := Vector{(x0 + x1) / 2, (y0 + y1) / 2}
	var ends []Vector
	for _, s := range segs {
		if near(s.from, s.to) {
			bad("a segment without length")
			return
		}
		ends = append(ends, s.from, s.to)
	}
	for _, p := range ends {
		ok := hard && near(p, mid)
		for _, e := range edges {
			if q, is := cross(e); is && near(p, q) {
				ok = true
			}
		}
		if !ok {
			bad("a segment ends off the crossings of the threshold")
			return
		}
	}
	degenerate := false
	for _, v := range vals {
		degenerate = degenerate || v == t
	}
	for _, e := range edges {
		if q, is := cross(e); is {
			n := 0
			for _, p := range ends {
				if near(p, q) {
					n++
				}
			}
			if n != 1 && !(degenerate && !hard) {
				bad("a crossing of the threshold is not the end of exactly one segment")
				return
			}
		}
	}
	n := 0
	for _, v := range vals {
		if v > t {
			n++
		}
	}
	if n == 0 || n == 4 {
		if len(segs) > 0 {
			bad("segments in a cell without crossings")
		}
		return
	}
	if degenerate && !hard {
		// crossings may fall on a corner: only the orientation is determined
		for _, s := range segs {
			for i, v := range vals {
				if len(segs) == 1 && (v > t && mside(s, corners[i]) < -1e-9 || v <= t && mside(s, corners[i]) > 1e-9) {
					bad("a corner is on the wrong side")
					return
				}
			}
		}
		return
	}
	// orientation: next to every crossing the corner above the threshold is on the left
	for _, e := range edges {
		q, is := cross(e)
		if !is {
			continue
		}
		for _, s := range segs {
			if !near(s.from, q) && !near(s.to, q) {
				continue
			}
			for _, i := range e {
				if (vals[i] > t) != (mside(s, corners[i]) > 0) {
					bad("the corner above the threshold is not on the left of its segment")
					return
				}
			}
		}
	}
	// separation: walking the cell's outline, corners are on the same side of the chains exactly if they
	// are on the same side of the threshold, unless the chains cut the diagonal of a saddle
	if !hard && len(segs) == 1 {
		for i, v := range vals {
			if (v > t) != (mside(segs[0], corners[i]) > 0) {
				bad("a corner is on the wrong side")
				return
			}
		}
	}
}

func (g *kgen) march() {
	if g.rnd.Intn(2) == 0 {
		// one cell
		x0, y0 := g.num(), g.num()
		x1, y1 := x0+math.Abs(g.num())+0.25, y0+math.Abs(g.num())+0.25
		t := g.num()
		a, b, c, d := g.num(), g.num(), g.num(), g.num()
		for _, hard := range []bool{false, true} {
			var segs []mseg
			f := func(v0, v1 Vector, _ *PolyLineSet) { segs = append(segs, mseg{v0, v1}) }
			if hard {
				MarchCellHard(t, a, b, c, d, x0, x1, y0, y1, f, nil)
			} else {
				MarchCellSoft(t, a, b, c, d, x0, x1, y0, y1, f, nil)
			}
			g.cell(hard, t, a, b, c, d, x0, x1, y0, y1, segs, "")
		}
		return
	}
	nx, ny := int64(g.rnd.Intn(5)+2), int64(g.rnd.Intn(5)+2)
	bb := BB{L: g.num(), B: g.num()}
	bb.R, bb.T = bb.L+float64(nx-1)*0.5, bb.B+float64(ny-1)*0.25
	if g.rnd.Intn(2) == 0 {
		bb.R, bb.T = bb.L+1+g.rnd.Float64(), bb.B+1+g.rnd.Float64()
	}
	grid := make([]float64, nx*ny)
	for i := range grid {
		grid[i] = g.num()
	}
	taken := make([]int, nx*ny)
	at := func(p Vector) int {
		fx := (p.X - bb.L) / (bb.R - bb.L) * float64(nx-1)
		fy := (p.Y - bb.B) / (bb.T - bb.B) * float64(ny-1)
		ix, iy := math.Round(fx), math.Round(fy)
		if math.Abs(fx-ix) > 1e-6 || math.Abs(fy-iy) > 1e-6 || ix < 0 || iy < 0 || int64(ix) >= nx || int64(iy) >= ny {
			g.fail("sample position", "sample taken at %v, the grid is %dx%d over %v", p, nx, ny, bb)
			return 0
		}
		return int(int64(iy)*nx + int64(ix))
	}
	sample := func(p Vector) float64 {
		i := at(p)
		taken[i]++
		return grid[i]
	}
	t := g.num()
	cells := map[int]int{}
	cell := func(t2, a, b, c, d, x0, x1, y0, y1 float64, f MarchSegmentFunc, _ *PolyLineSet) {
		i := at(Vector{x0, y0})
		cells[i]++
		if t2 != t || at(Vector{x1, y0}) != i+1 || at(Vector{x0, y1}) != i+int(nx) || at(Vector{x1, y1}) != i+int(nx)+1 {
			g.fail("cell position", "cell %v..%v %v..%v of a %dx%d grid over %v", x0, x1, y0, y1, nx, ny, bb)
			return
		}
		if a != grid[i] || b != grid[i+1] || c != grid[i+int(nx)] || d != grid[i+int(nx)+1] {
			g.fail("cell samples", "cell %d of a %dx%d grid gets samples %v %v %v %v instead of %v %v %v %v", i, nx, ny, a, b, c, d, grid[i], grid[i+1], grid[i+int(nx)], grid[i+int(nx)+1])
		}
	}
	MarchCells(bb, nx, ny, t, nil, sample, cell)
	for i, n := range taken {
		if n != 1 {
			g.fail("each sample once", "sample %d of a %dx%d grid over %v taken %d times", i, nx, ny, bb, n)
			return
		}
	}
	for i := range grid {
		want := 1
		if i%int(nx) == int(nx)-1 || i/int(nx) == int(ny)-1 {
			want = 0
		}
		if cells[i] != want {
			g.fail("each cell once", "cell %d of a %dx%d grid visited %d times", i, nx, ny, cells[i])
			return
		}
	}
	// both public functions, with the segments collected cell by cell
	for _, hard := range []bool{false, true} {
		var got, want []mseg
		f := func(v0, v1 Vector, _ *PolyLineSet) { got = append(got, mseg{v0, v1}) }
		w := func(v0, v1 Vector, _ *PolyLineSet) { want = append(want, mseg{v0, v1}) }
		plain := func(p Vector) float64 { return grid[at(p)] }
		if hard {
			MarchHard(bb, nx, ny, t, f, plain)
			MarchCells(bb, nx, ny, t, w, plain, MarchCellHard)
		} else {
			MarchSoft(bb, nx, ny, t, f, plain)
			MarchCells(bb, nx, ny, t, w, plain, MarchCellSoft)
		}
		if len(got) != len(want) {
			g.fail("march", "%d segments instead of %d (hard %v)", len(got), len(want), hard)
			return
		}
		for i := range got {
			if got[i] != want[i] {
				g.fail("march", "segment %v instead of %v (hard %v)", got[i], want[i], hard)
				return
			}
		}
	}
}

func TestVerifC26(t *testing.T) { kloop(t, (*kgen).march) }

// --- C27

func psegments(s *PolyLineSet) map[mseg]int {
	m := map[mseg]int{}
	for _, l := range s.Lines {
		for i := 0; i+1 < len(l.Verts); i++ {
			m[mseg{l.Verts[i], l.Verts[i+1]}]++
		}
	}
	return m
}

func (g *kgen) collect() {
	s := &PolyLineSet{}
	want := map[mseg]int{}
	r := g.rnd.Intn(3) + 1
	small := func() Vector { return Vector{float64(g.rnd.Intn(r + 1)), float64(g.rnd.Intn(r + 1))} }
	var log []mseg
	for i := g.rnd.Intn(12) + 1; i > 0; i-- {
		e := mseg{small(), small()}
		if e.from == e.to {
			continue
		}
		before := 0
		for _, l := range s.Lines {
			before += len(l.Verts)
		}
		ends, starts := 0, 0
		for _, l := range s.Lines {
			if l.Verts[len(l.Verts)-1] == e.from {
				ends++
			}
			if l.Verts[0] == e.to {
				starts++
			}
		}
		lines := len(s.Lines)
		log = append(log, e)
		PolyLineCollectSegment(e.from, e.to, s)
		want[e]++
		got := psegments(s)
		for k, n := range want {
			if got[k] != n {
				g.fail("collect", "segment %v is there %d times instead of %d after collecting %v", k, got[k], n, log)
				return
			}
		}
		for k := range got {
			if want[k] == 0 {
				g.fail("collect", "segment %v was never collected: %v", k, log)
				return
			}
		}
		change := len(s.Lines) - lines
		switch {
		case ends == 0 && starts == 0 && change != 1, (ends == 0) != (starts == 0) && change != 0, ends > 0 && starts > 0 && change != 0 && change != -1:
			g.fail("collect", "%d lines more after collecting the last of %v (%d lines ended, %d started there)", change, log, ends, starts)
			return
		}
		for _, l := range s.Lines {
			if len(l.Verts) < 2 {
				g.fail("collect", "a line of %d vertices after collecting %v", len(l.Verts), log)
				return
			}
		}
	}
}

// is sub a subsequence of the cyclic or plain sequence
func psub(sub, all []Vector, from int) bool {
	j := 0
	for i := 0; i < len(all) && j < len(sub); i++ {
		if all[(from+i)%len(all)] == sub[j] {
			j++
		}
	}
	return j == len(sub)
}

func (g *kgen) simplify() {
	var v []Vector
	n := g.rnd.Intn(9) + 2
	kind := g.rnd.Intn(3)
	for i := 0; i < n; i++ {
		p := g.vec()
		if kind == 1 {
			p = Vector{float64(i) / 2, g.num() / 4}
		}
		if kind == 2 {
			s, c := math.Sincos(float64(i) * 2 * math.Pi / float64(n))
			p = Vector{2 * c, 2 * s}
		}
		if len(v) == 0 || v[len(v)-1] != p {
			v = append(v, p)
		}
	}
	if len(v) < 2 {
		return
	}
	closed := g.rnd.Intn(2) == 0 && len(v) > 2 && v[0] != v[len(v)-1]
	if closed {
		v = append(v, v[0])
	}
	line := &PolyLine{Verts: append([]Vector{}, v...)}
	closed = line.IsClosed()
	tol := []float64{0, 0.01, 0.1, 0.5, 1}[g.rnd.Intn(5)]
	bad := func(what string, got *PolyLine) {
		g.fail(what, "tolerance %v of %v gives %v", tol, kstr(v), kstr(got.Verts))
	}
	check := func(name string, got *PolyLine) {
		for i := range v {
			if line.Verts[i] != v[i] {
				bad(name+" changes its input", got)
				return
			}
		}
		if len(got.Verts) < 2 {
			bad(name+" keeps the line", got)
			return
		}
		if closed {
			if got.Verts[0] != got.Verts[len(got.Verts)-1] {
				bad(name+" leaves a closed line closed", got)
			}
			loop := v[:len(v)-1]
			ok := false
			for from := range loop {
				if psub(got.Verts[:len(got.Verts)-1], loop, from) {
					ok = true
				}
			}
			if !ok {
				bad(name+" returns a subsequence", got)
			}
		} else {
			if got.Verts[0] != v[0] || got.Verts[len(got.Verts)-1] != v[len(v)-1] {
				bad(name+" keeps the end points", got)
			}
			if !psub(got.Verts, v, 0) {
				bad(name+" returns a subsequence", got)
			}
		}
	}
	simple := line.SimplifyVertexes(tol)
	check("SimplifyVertexes", simple)
	curve := line.SimplifyCurves(tol)
	check("SimplifyCurves", curve)
	// every dropped vertex is near the simplified curve (its chord's line, or a run no longer than tol/2)
	for _, p := range v {
		d := math.Inf(1)
		for i := 0; i+1 < len(curve.Verts); i++ {
			a, b := curve.Verts[i], curve.Verts[i+1]
			d = math.Min(d, ksegdist(p, a, b))
			if l := math.Hypot(b.X-a.X, b.Y-a.Y); l > 0 {
				d = math.Min(d, math.Abs((b.X-a.X)*(p.Y-a.Y)-(b.Y-a.Y)*(p.X-a.X))/l)
			}
		}
		if d > tol+1e-9 {
			bad("SimplifyCurves drops only vertices within the tolerance", curve)
			return
		}
	}
}

func TestVerifC27(t *testing.T) {
	kloop(t, func(g *kgen) {
		g.collect()
		g.simplify()
	})
}

// --- C31

func (g *kgen) hull() {
	n := g.rnd.Intn(9) + 1
	var v []Vector
	for i := 0; i < n; i++ {
		p := g.vec()
		if g.rnd.Intn(4) == 0 && i > 0 {
			p = v[g.rnd.Intn(i)]
		}
		v = append(v, p)
	}
	tol := 0.0
	if g.rnd.Intn(3) == 0 {
		tol = 0.1
	}
	w := append([]Vector{}, v...)
	first := -7
	count := ConvexHull(n, w, &first, tol)
	bad := func(what string) {
		g.fail(what, "hull of %v with tolerance %v gives %d vertices %v", kstr(v), tol, count, kstr(w))
	}
	if count < 1 || count > n {
		bad("vertex count")
		return
	}
	seen := map[Vector]bool{}
	for _, p := range v {
		seen[p] = true
	}
	for _, p := range w[:count] {
		if !seen[p] {
			bad("vertices are input points")
			return
		}
	}
	if first < 0 || first >= n || v[first] != w[0] {
		g.fail("first", "hull of %v with tolerance %v: first is %d, the hull starts at %v", kstr(v), tol, first, w[0])
	}
	h := w[:count]
	for i := range h {
		if count < 2 {
			break
		}
		a, b, c := h[i], h[(i+1)%count], h[(i+2)%count]
		if a == b {
			bad("repeated vertex")
			return
		}
		if count > 2 && (b.X-a.X)*(c.Y-b.Y)-(b.Y-a.Y)*(c.X-b.X) <= -1e-9 {
			bad("counter-clockwise and convex")
			return
		}
	}
	if count > 2 && karea(h) <= 0 {
		bad("counter-clockwise and convex")
		return
	}
	if tol > 0 {
		return // a tolerance drops points near the line through two hull points, also beyond its end
	}
	for _, p := range v {
		d := 0.0
		switch count {
		case 1:
			d = math.Hypot(p.X-h[0].X, p.Y-h[0].Y)
		case 2:
			d = ksegdist(p, h[0], h[1])
		default:
			d = kdist(p, h)
		}
		if d > 1e-9 {
			bad("every point is inside")
			return
		}
	}
}

func TestVerifC31(t *testing.T) { kloop(t, (*kgen).hull) }

// --- C15

type helt struct{ key, val int }

func (g *kgen) set() {
	shift := uint(g.rnd.Intn(4))
	hash := func(k int) HashValue { return HashValue(k >> shift) }
	s := NewHashSet[int, *helt](func(k int, e *helt) bool { return e.key == k })
	m := map[int]*helt{}
	keys := []int{3, 10, 60, 400}[g.rnd.Intn(4)]
	var log []string
	n := 0
	for i := g.rnd.Intn(300) + 1; i > 0; i-- {
		k := g.rnd.Intn(keys)
		switch g.rnd.Intn(8) {
		case 0, 1, 2, 3:
			made := false
			e := s.Insert(hash(k), k, func(k int) *helt { n++; made = true; return &helt{k, n} })
			if made == (m[k] != nil) || !made && e != m[k] || e == nil || e.key != k {
				g.fail("Insert", "inserting %d gave %v (made: %v), the set holds %v, after %v", k, e, made, m[k], log)
				return
			}
			m[k] = e
		case 4, 5:
			if e := s.Remove(hash(k), k); e != m[k] {
				g.fail("Remove", "removing %d gave %v instead of %v after %v", k, e, m[k], log)
				return
			}
			delete(m, k)
		case 6:
			if e := s.Find(hash(k), k); e != m[k] {
				g.fail("Find", "looking up %d gave %v instead of %v after %v", k, e, m[k], log)
				return
			}
		default:
			if g.rnd.Intn(4) == 0 {
				mod := g.rnd.Intn(5) + 1
				asked := map[*helt]int{}
				s.Filter(func(e *helt) bool { asked[e]++; return e.val%mod != 0 })
				for k, e := range m {
					if asked[e] != 1 {
						g.fail("Filter", "element %d was asked for %d times after %v", k, asked[e], log)
						return
					}
					if e.val%mod == 0 {
						delete(m, k)
					}
				}
			}
		}
		if s.Count() != uint(len(m)) {
			g.fail("Count", "count is %d, %d elements are in the set after %v", s.Count(), len(m), log)
			return
		}
		if g.rnd.Intn(10) == 0 {
			seen := map[*helt]int{}
			s.Each(func(e *helt) { seen[e]++ })
			for k, e := range m {
				if seen[e] != 1 {
					g.fail("Each", "element %d was visited %d times after %v", k, seen[e], log)
					return
				}
			}
			if len(seen) != len(m) {
				g.fail("Each", "%d elements were visited, the set holds %d after %v", len(seen), len(m), log)
				return
			}
		}
	}
	for k := 0; k < keys; k++ {
		if e := s.Find(hash(k), k); e != m[k] {
			g.fail("Find", "looking up %d gave %v instead of %v", k, e, m[k])
			return
		}
	}
}

func TestVerifC15(t *testing.T) { kloop(t, (*kgen).set) }
