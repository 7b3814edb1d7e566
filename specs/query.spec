// Point and segment queries against one shape (C05, C06)

func Circle.PointQuery(c, p, info)
  prop C05
  requires info != nil && c.r >= 0
  modifies *info
  ensures shape: info.Shape == c.Shape
  ensures distance: info.Distance == vlen(p - c.tc) - c.r
  ensures surface: len2(info.Point - c.tc) == c.r*c.r
  ensures at: len2(p - info.Point) == info.Distance*info.Distance
  ensures gradient: unit(info.Gradient) && (vlen(p - c.tc) > 1e-5 ==> vlen(p - c.tc)*info.Gradient == p - c.tc)

func Segment.PointQuery(seg, p, info)
  prop C05
  option nodef
  requires info != nil && seg.r >= 0
  modifies *info
  ensures shape: info.Shape == seg.Shape
  ensures distance: info.Distance == vlen(p - closest(p, seg.ta, seg.tb)) - seg.r
  ensures nearest: forallT(s, real, 0 <= s && s <= 1 ==> (info.Distance + seg.r)*(info.Distance + seg.r) <= len2(p - ((1-s)*seg.ta + s*seg.tb)))
  ensures surface: unit(seg.tn) ==> len2(info.Point - closest(p, seg.ta, seg.tb)) == seg.r*seg.r
  ensures at: unit(seg.tn) ==> len2(p - info.Point) == info.Distance*info.Distance
  ensures gradient: unit(seg.tn) ==> unit(info.Gradient)
  ensures away: vlen(p - closest(p, seg.ta, seg.tb)) > 1e-5 ==> vlen(p - closest(p, seg.ta, seg.tb))*info.Gradient == p - closest(p, seg.ta, seg.tb)
  ensures flat: vlen(p - closest(p, seg.ta, seg.tb)) <= 1e-5 ==> info.Gradient == seg.tn

spec pedge(q *PolyShape, p Vector, k int) Vector = closest(p, q.planes[ite(k == 0, q.count - 1, k - 1)].v0, q.planes[k].v0)
spec pinside(q *PolyShape, p Vector) bool = forall(k, 0, q.count, dot(q.planes[k].n, p - q.planes[k].v0) <= 0)

rec pclose(q *PolyShape, p Vector, k int) Vector = pedge(q, p, k)
rec pdist(q *PolyShape, p Vector, k int) float64 = vlen(p - pedge(q, p, k))

func PolyShape.PointQuery(q, p, info)
  prop C05
  requires polyok(q) && q.r >= 0 && info != nil
  requires forall(k, 0, q.count, pdist(q, p, k) <= 1e29 && unit(q.planes[k].n))
  modifies *info
  loop 0: invariant 0 <= i && i <= count
  loop 0: invariant v0 == planes[ite(i == 0, count - 1, i - 1)].v0
  loop 0: invariant outside == exists(k, 0, i, dot(planes[k].n, p - planes[k].v0) > 0)
  loop 0: invariant forall(k, 0, i, minDist <= pdist(q, p, k))
  loop 0: invariant i == 0 ==> minDist == INFINITY
  loop 0: invariant i < count ==> pdist(q, p, i) <= 1e29 && unit(planes[i].n)
  loop 0: invariant i > 0 ==> minDist >= 0 && minDist == vlen(p - closestPoint) && unit(closestNormal)
  loop 0: invariant i > 0 ==> exists(k, 0, i, minDist == pdist(q, p, k) && closestPoint == pclose(q, p, k) && closestNormal == planes[k].n)
  ensures shape: info.Shape == q.Shape
  ensures nearest: forall(k, 0, q.count, abs(info.Distance + q.r) <= pdist(q, p, k))
  ensures sign: ite(pinside(q, p), info.Distance + q.r <= 0, info.Distance + q.r >= 0)
  ensures surface: len2(p - info.Point) == info.Distance*info.Distance && unit(info.Gradient)
  ensures at: exists(k, 0, q.count, abs(info.Distance + q.r) == pdist(q, p, k)
     && (pdist(q, p, k) > 1e-5 ==> p - pclose(q, p, k) == (info.Distance + q.r)*info.Gradient && info.Point == pclose(q, p, k) + q.r*info.Gradient)
     && (pdist(q, p, k) <= 1e-5 ==> info.Gradient == q.planes[k].n))

spec lerpv(a Vector, b Vector, t float64) Vector = (1-t)*a + t*b
spec kept(info *SegmentQueryInfo) bool = info.Shape == old(info.Shape) && info.Alpha == old(info.Alpha) && info.Point == old(info.Point) && info.Normal == old(info.Normal)
spec capped(info *SegmentQueryInfo, shape *Shape, k Vector, r1 float64, a Vector, b Vector, r2 float64) bool = info.Shape == shape && 0 <= info.Alpha && info.Alpha <= 1 && len2(lerpv(a, b, info.Alpha) - k) == (r1 + r2)*(r1 + r2) && (r1 + r2 + 1e-15)*info.Normal == lerpv(a, b, info.Alpha) - k && info.Point == lerpv(a, b, info.Alpha) - r2*info.Normal && dot(info.Normal, b - a) <= 0

// the quadratic whose roots are the touching fractions
spec cqa(k Vector, a Vector, b Vector) float64 = dot(a - k, a - k) - 2*dot(a - k, b - k) + dot(b - k, b - k)
spec cqb(k Vector, a Vector, b Vector) float64 = dot(a - k, b - k) - dot(a - k, a - k)
spec cdet(k Vector, a Vector, b Vector, r float64) float64 = cqb(k, a, b)*cqb(k, a, b) - cqa(k, a, b)*(dot(a - k, a - k) - r*r)
spec cgap(k Vector, a Vector, b Vector, r float64, t float64) float64 = len2(lerpv(a, b, t) - k) - r*r
// facts of arithmetic about the roots of q t^2 + 2 h t + c, with d = h^2 - q c and s its root
theorem mulcancel(q real, x real, y real) bool = q > 0 && q*x <= q*y ==> x <= y
theorem mulpos(q real, x real) bool = q > 0 && q*x >= 0 ==> x >= 0
theorem rootdef(q real, h real, s real, u real) bool = q > 0 && u == (-h - s)/q ==> q*u == -h - s
theorem rootzero(q real, h real, c real, s real, u real) bool = q > 0 && q*u == -h - s && s*s == h*h - q*c ==> q*u*u + 2*h*u + c == 0
theorem rootleast(q real, h real, c real, s real, u real, t real) bool = q > 0 && s >= 0 && q*u == -h - s && s*s == h*h - q*c && q*t*t + 2*h*t + c <= 0 ==> u <= t
theorem rootpos(q real, h real, c real, s real, u real, t real) bool = q > 0 && s >= 0 && q*u == -h - s && s*s == h*h - q*c && c > 0 && t >= 0 && q*t*t + 2*h*t + c <= 0 ==> u >= 0
theorem noroot(q real, h real, c real, t real) bool = q >= 0 && h*h - q*c < 0 && c > 0 ==> q*t*t + 2*h*t + c > 0
theorem lenis(v Vector, r real) bool = r >= 0 && len2(v) == r*r ==> vlen(v) == r
theorem scaledot(s real, n Vector, w Vector, d Vector) bool = s > 0 && s*n == w && dot(w, d) <= 0 ==> dot(n, d) <= 0

spec carm(k Vector, a Vector, b Vector, t float64) Vector = (1-t)*(a - k) + t*(b - k)
spec croot(k Vector, a Vector, b Vector, r float64) float64 = (-cqb(k, a, b) - sqrt(cdet(k, a, b, r)))/cqa(k, a, b)

spec cc(k Vector, a Vector, r float64) float64 = dot(a - k, a - k) - r*r

func CircleSegmentQuery(shape, k, r1, a, b, r2, info)
  prop C06
  option ieee
  requires info != nil && r1 >= 0 && r2 >= 0
  modifies *info
  ensures step0: cqa(k, a, b) == len2(b - a) && cqa(k, a, b) >= 0 && cc(k, a, r1 + r2) == cgap(k, a, b, r1 + r2, 0)
  ensures step2: forallT(t, real, cgap(k, a, b, r1 + r2, t) == cqa(k, a, b)*t*t + 2*cqb(k, a, b)*t + cc(k, a, r1 + r2))
  ensures step4: cqa(k, a, b) == 0 ==> cqb(k, a, b) == 0
  use rootdef(cqa(k, a, b), cqb(k, a, b), sqrt(cdet(k, a, b, r1 + r2)), croot(k, a, b, r1 + r2))
  use rootzero(cqa(k, a, b), cqb(k, a, b), cc(k, a, r1 + r2), sqrt(cdet(k, a, b, r1 + r2)), croot(k, a, b, r1 + r2))
  use forallT(t, real, rootleast(cqa(k, a, b), cqb(k, a, b), cc(k, a, r1 + r2), sqrt(cdet(k, a, b, r1 + r2)), croot(k, a, b, r1 + r2), t))
  use forallT(t, real, rootpos(cqa(k, a, b), cqb(k, a, b), cc(k, a, r1 + r2), sqrt(cdet(k, a, b, r1 + r2)), croot(k, a, b, r1 + r2), t))
  use forallT(t, real, noroot(cqa(k, a, b), cqb(k, a, b), cc(k, a, r1 + r2), t))
  ensures step5: cdet(k, a, b, r1 + r2) >= 0 ==> sqrt(cdet(k, a, b, r1 + r2)) >= 0 && sqrt(cdet(k, a, b, r1 + r2))*sqrt(cdet(k, a, b, r1 + r2)) == cdet(k, a, b, r1 + r2)
  ensures step8: cqa(k, a, b) > 0 && cdet(k, a, b, r1 + r2) >= 0 ==> cgap(k, a, b, r1 + r2, croot(k, a, b, r1 + r2)) == 0
  ensures step11: dot(lerpv(a, b, croot(k, a, b, r1 + r2)) - k, b - a) == cqa(k, a, b)*croot(k, a, b, r1 + r2) + cqb(k, a, b)
  ensures step12: let(u, croot(k, a, b, r1 + r2), lerpv(a, b, u) - k == carm(k, a, b, u) && len2(carm(k, a, b, u)) == cgap(k, a, b, r1 + r2, u) + (r1 + r2)*(r1 + r2))
  use lenis(carm(k, a, b, croot(k, a, b, r1 + r2)), r1 + r2)
  ensures step13: kept(info) || info.Shape == shape && info.Alpha == croot(k, a, b, r1 + r2) && 0 <= info.Alpha && info.Alpha <= 1 && cqa(k, a, b) > 0 && cdet(k, a, b, r1 + r2) >= 0
  ensures step14: kept(info) || vlen(carm(k, a, b, croot(k, a, b, r1 + r2))) == r1 + r2
  ensures step15: kept(info) || (r1 + r2 + 1e-15)*info.Normal == carm(k, a, b, croot(k, a, b, r1 + r2))
  use scaledot(r1 + r2 + 1e-15, info.Normal, carm(k, a, b, croot(k, a, b, r1 + r2)), b - a)
  ensures hit: kept(info) || capped(info, shape, k, r1, a, b, r2)
  ensures first: cgap(k, a, b, r1 + r2, 0) > 0 ==> forallT(t, real, 0 <= t && t <= 1 && cgap(k, a, b, r1 + r2, t) <= 0 ==> info.Shape == shape && info.Alpha <= t)

theorem along(m Vector, p Vector, q Vector, r real, a Vector, d Vector, t real) bool = dot(m, q - p) == 0 ==> dot(p + r*m - a - t*d, p - q) == dot(a + t*d - p, q - p) && dot(q + r*m - a - t*d, q - p) == len2(q - p) - dot(a + t*d - p, q - p)
theorem aside(m Vector, p Vector, r real, a Vector, d Vector, t real) bool = unit(m) ==> dot(p + r*m - a - t*d, m) == r + dot(p - a, m) - t*dot(d, m)

func Circle.SegmentQuery(c, a, b, r2, info)
  prop C06
  requires info != nil && c.r >= 0 && r2 >= 0
  modifies *info
  ensures hit: kept(info) || capped(info, c.Shape, c.tc, c.r, a, b, r2)
  ensures first: cgap(c.tc, a, b, c.r + r2, 0) > 0 ==> forallT(t, real, 0 <= t && t <= 1 && cgap(c.tc, a, b, c.r + r2, t) <= 0 ==> info.Shape == c.Shape && info.Alpha <= t)

// a side of thickness r along the outward normal m of the edge from p to q is touched
spec sided(info *SegmentQueryInfo, shape *Shape, p Vector, q Vector, r1 float64, a Vector, b Vector, r2 float64) bool = let(c, lerpv(a, b, info.Alpha), let(m, info.Normal, info.Shape == shape && 0 <= info.Alpha && info.Alpha <= 1 && dot(c - p, m) == r1 + r2 && 0 <= dot(c - p, q - p) && dot(c - p, q - p) <= len2(q - p) && info.Point == c - r2*m && dot(m, b - a) <= 0))
spec segmid(g *Segment, a Vector) Vector = ite(dot(g.ta - a, g.tn) > 0, -1*g.tn, g.tn)
theorem cauchy(n Vector, v Vector, r real) bool = unit(n) && r >= 0 && len2(v) < r*r ==> dot(n, v) < r
theorem onside(m Vector, q Vector, x Vector, y Vector) bool = unit(m) && dot(x, m) == 0 && dot(y, m) == 0 && dot(q, m) != 0 && cross(q, x)*cross(q, y) <= 0 ==> dot(x, x - y) >= 0 && dot(y, y - x) >= 0

spec blank(info *SegmentQueryInfo, b Vector) bool = info.Shape == nil && info.Alpha == 1 && info.Point == b && info.Normal == Vector{0, 0}
// height of the query centre over the core, on the side of the start
spec segh(g *Segment, a Vector, x Vector) float64 = dot(x - g.ta, segmid(g, a))
spec segx(g *Segment, a Vector, p Vector, r float64) Vector = p + r*segmid(g, a) - a
theorem signs(x real, y real, t real) bool = x > 0 && x*y < 0 && t == x/(x - y) ==> 0 <= t && t <= 1 && y < 0 && (1-t)*x + t*y == 0
theorem divmul(t real, x real, y real) bool = y != 0 && t == x/y ==> t*y == x
theorem below(x real, y real, t real, r real) bool = 0 <= t && t <= 1 && x >= r && (1-t)*x + t*y < r ==> y < r
theorem above(x real, y real, t real, s real) bool = 0 <= t && t <= s && x > 0 && (1-s)*x + s*y == 0 ==> (1-t)*x + t*y >= 0
theorem crossscale(t real, d Vector, x Vector, y Vector) bool = cross(d, x)*cross(d, y) <= 0 ==> cross(t*d, x)*cross(t*d, y) <= 0

func Segment.SegmentQuery(g, a, b, r2, info)
  prop C06
  option ieee
  requires info != nil && g.r >= 0 && r2 >= 0 && g.Shape != nil
  requires blank: blank(info, b)
  requires ok: dot(g.tn, g.tb - g.ta) == 0 && (unit(g.tn) || g.tn == Vector{0, 0})
  requires outside: cgap(g.ta, a, b, g.r + r2, 0) > 0 && cgap(g.tb, a, b, g.r + r2, 0) > 0
  modifies *info
  ensures step1: segh(g, a, a) == abs(dot(a - g.ta, g.tn)) && (unit(g.tn) ==> unit(segmid(g, a)))
  ensures step2: dot(segmid(g, a), g.tb - g.ta) == 0
  ensures step3: info.Shape == nil || info.Normal == segmid(g, a) && unit(g.tn) && segh(g, a, a) > g.r + r2 && segh(g, a, b) < g.r + r2 && info.Alpha == (segh(g, a, a) - g.r - r2)/(segh(g, a, a) - segh(g, a, b))
          && cross(b - a, segx(g, a, g.ta, g.r + r2))*cross(b - a, segx(g, a, g.tb, g.r + r2)) <= 0 || capped(info, g.Shape, g.ta, g.r, a, b, r2) || capped(info, g.Shape, g.tb, g.r, a, b, r2)
  use signs(segh(g, a, a) - g.r - r2, segh(g, a, b) - g.r - r2, info.Alpha)
  ensures step4: forallT(t, real, segh(g, a, lerpv(a, b, t)) == (1-t)*segh(g, a, a) + t*segh(g, a, b))
  use forallT(t, real, cauchy(segmid(g, a), lerpv(a, b, t) - g.ta, g.r + r2))
  use forallT(t, real, cauchy(segmid(g, a), lerpv(a, b, t) - g.tb, g.r + r2))
  use forallT(t, real, above(segh(g, a, a) - g.r - r2, segh(g, a, b) - g.r - r2, t, info.Alpha))
  use forallT(t, real, below(segh(g, a, a), segh(g, a, b), t, g.r + r2))
  ensures first: abs(dot(a - g.ta, g.tn)) != g.r + r2 ==> forallT(t, real, 0 <= t && t <= 1 && (cgap(g.ta, a, b, g.r + r2, t) < 0 || cgap(g.tb, a, b, g.r + r2, t) < 0) ==> info.Shape == g.Shape && info.Alpha <= t)
  use aside(segmid(g, a), g.ta, g.r + r2, a, b - a, info.Alpha)
  use aside(segmid(g, a), g.tb, g.r + r2, a, b - a, info.Alpha)
  ensures step5: unit(g.tn) ==> let(x, segx(g, a, g.ta, g.r + r2) - info.Alpha*(b - a), dot(x, segmid(g, a)) == g.r + r2 - segh(g, a, lerpv(a, b, info.Alpha)))
  ensures step6: unit(g.tn) ==> let(y, segx(g, a, g.tb, g.r + r2) - info.Alpha*(b - a), dot(y, segmid(g, a)) == g.r + r2 - segh(g, a, lerpv(a, b, info.Alpha)))
  ensures step7: let(x, segx(g, a, g.ta, g.r + r2) - info.Alpha*(b - a), let(y, segx(g, a, g.tb, g.r + r2) - info.Alpha*(b - a), cross(b - a, x) == cross(b - a, segx(g, a, g.ta, g.r + r2)) && cross(b - a, y) == cross(b - a, segx(g, a, g.tb, g.r + r2))))
  ensures step8: dot(b - a, segmid(g, a)) == segh(g, a, b) - segh(g, a, a)
  use onside(segmid(g, a), b - a, segx(g, a, g.ta, g.r + r2) - info.Alpha*(b - a), segx(g, a, g.tb, g.r + r2) - info.Alpha*(b - a))
  use along(segmid(g, a), g.ta, g.tb, g.r + r2, a, b - a, info.Alpha)
  ensures step9: let(x, segx(g, a, g.ta, g.r + r2) - info.Alpha*(b - a), let(y, segx(g, a, g.tb, g.r + r2) - info.Alpha*(b - a), dot(x, x - y) == dot(lerpv(a, b, info.Alpha) - g.ta, g.tb - g.ta) && dot(y, y - x) == len2(g.tb - g.ta) - dot(lerpv(a, b, info.Alpha) - g.ta, g.tb - g.ta)))
  ensures hit: info.Shape == nil || sided(info, g.Shape, g.ta, g.tb, g.r, a, b, r2) || capped(info, g.Shape, g.ta, g.r, a, b, r2) || capped(info, g.Shape, g.tb, g.r, a, b, r2)
  ensures normal: info.Shape != nil ==> info.Normal == segmid(g, a) || capped(info, g.Shape, g.ta, g.r, a, b, r2) || capped(info, g.Shape, g.tb, g.r, a, b, r2)
  ensures miss: info.Shape == nil ==> blank(info, b)

spec inband(q *PolyShape, k int, c Vector) bool = let(n, q.planes[k].n, cross(n, q.planes[edge0(k, q.count)].v0) <= cross(n, c) && cross(n, c) <= cross(n, q.planes[k].v0))
rec faced(q *PolyShape, k int, shape *Shape, al float64, point Vector, normal Vector, a Vector, b Vector, r2 float64) bool = let(c, lerpv(a, b, al), let(m, q.planes[k].n, shape == q.Shape && 0 <= al && al <= 1 && inband(q, k, c) && dot(c - q.planes[k].v0, m) == q.r + r2 && normal == m && point == c - r2*m && (al > 0 ==> dot(m, b - a) <= 0)))
rec nicked(q *PolyShape, k int, shape *Shape, al float64, point Vector, normal Vector, a Vector, b Vector, r2 float64) bool = let(c, lerpv(a, b, al), let(v, q.planes[k].v0, shape == q.Shape && 0 <= al && al <= 1 && len2(c - v) == (q.r + r2)*(q.r + r2) && (q.r + r2 + 1e-15)*normal == c - v && point == c - r2*normal && dot(normal, b - a) <= 0))
theorem facehit(a Vector, b Vector, n Vector, v Vector, r real, t real) bool = dot(a, n) - dot(v, n) - r >= 0 && dot(a, n) != dot(b, n) && t == (dot(a, n) - dot(v, n) - r)/(dot(a, n) - dot(b, n)) && t >= 0 ==> dot(lerpv(a, b, t) - v, n) == r && (t > 0 ==> dot(n, b - a) <= 0)
theorem divsign(d real, x real, t real) bool = d >= 0 && x != 0 && t == d/x && t >= 0 ==> t*x == d && (t > 0 ==> x > 0)

func PolyShape.SegmentQuery(q, a, b, r2, info)
  prop C06
  option ieee
  requires polyok(q) && q.r >= 0 && r2 >= 0 && info != nil
  requires blank: blank(info, b)
  modifies *info
  loop 0: invariant 0 <= i && i <= count
  loop 0: use facehit(a, b, planes[i-1].n, planes[i-1].v0, rsum, info.Alpha)
  loop 0: step now: info.Shape == nil || exists(k, 0, i - 1, faced(q, k, info.Shape, info.Alpha, info.Point, info.Normal, a, b, r2)) || faced(q, i - 1, info.Shape, info.Alpha, info.Point, info.Normal, a, b, r2)
  loop 0: invariant blank(info, b) || exists(k, 0, i, faced(q, k, info.Shape, info.Alpha, info.Point, info.Normal, a, b, r2))
  loop 0: invariant info.Alpha <= 1 && (info.Shape == nil ==> blank(info, b)) && (info.Shape == nil || info.Shape == q.Shape)
  loop 1: invariant 0 <= i && i <= count
  loop 1: invariant blank(info, b) || exists(k, 0, count, faced(q, k, info.Shape, info.Alpha, info.Point, info.Normal, a, b, r2)) || exists(k, 0, i, nicked(q, k, info.Shape, info.Alpha, info.Point, info.Normal, a, b, r2))
  loop 1: step now: info.Shape == nil || exists(k, 0, count, faced(q, k, info.Shape, info.Alpha, info.Point, info.Normal, a, b, r2)) || exists(k, 0, i - 1, nicked(q, k, info.Shape, info.Alpha, info.Point, info.Normal, a, b, r2)) || nicked(q, i - 1, info.Shape, info.Alpha, info.Point, info.Normal, a, b, r2)
  loop 1: invariant info.Alpha <= 1 && (info.Shape == nil ==> blank(info, b)) && (info.Shape == nil || info.Shape == q.Shape)
  loop 1: invariant forall(k, 0, i, forallT(t, real, 0 <= t && t < info.Alpha && t < 1 ==> cgap(planes[k].v0, a, b, rsum, 0) <= 0 || cgap(planes[k].v0, a, b, rsum, t) > 0))
  ensures miss: info.Shape == nil ==> blank(info, b)
  ensures owner: info.Shape == nil || info.Shape == q.Shape
  ensures hit: blank(info, b) || exists(k, 0, q.count, faced(q, k, info.Shape, info.Alpha, info.Point, info.Normal, a, b, r2)) || exists(k, 0, q.count, nicked(q, k, info.Shape, info.Alpha, info.Point, info.Normal, a, b, r2))
  ensures first: q.r + r2 > 0 ==> forall(k, 0, q.count, forallT(t, real, 0 <= t && t < info.Alpha && t < 1 ==> cgap(q.planes[k].v0, a, b, q.r + r2, 0) <= 0 || cgap(q.planes[k].v0, a, b, q.r + r2, t) > 0))

// how far the query start is from the shape's core, per class
theorem beyond(v Vector, r real) bool = r >= 0 && vlen(v) > r ==> len2(v) > r*r
spec touching(s *Shape, a Vector, radius float64) bool = ite(typeis(s.Class, *Circle), vlen(a - s.Class.(*Circle).tc) - s.Class.(*Circle).r <= radius,
   ite(typeis(s.Class, *Segment), vlen(a - closest(a, s.Class.(*Segment).ta, s.Class.(*Segment).tb)) - s.Class.(*Segment).r <= radius,
   pinside(s.Class.(*PolyShape), a) || exists(k, 0, s.Class.(*PolyShape).count, pdist(s.Class.(*PolyShape), a, k) - s.Class.(*PolyShape).r <= radius)))
spec segok(g *Segment) bool = g.r >= 0 && dot(g.tn, g.tb - g.ta) == 0 && (unit(g.tn) || g.tn == Vector{0, 0})

func Shape.SegmentQuery(s, a, b, radius, info)
  prop C06
  requires shapeok(s) && radius >= 0 && info != nil
  requires typeis(s.Class, *Circle) ==> s.Class.(*Circle).r >= 0
  requires typeis(s.Class, *Segment) ==> segok(s.Class.(*Segment))
  requires typeis(s.Class, *PolyShape) ==> let(p, s.Class.(*PolyShape), p.r >= 0 && forall(k, 0, p.count, pdist(p, a, k) <= 1e29 && unit(p.planes[k].n)))
  modifies *info
  ensures miss: info.Shape == nil ==> blank(info, b)
  ensures result: result == (info.Shape != nil)
  ensures owner: info.Shape == nil || info.Shape == s
  ensures inside: touching(s, a, radius) ==> result && info.Shape == s && info.Alpha == 0
  ensures circle: result && !touching(s, a, radius) && typeis(s.Class, *Circle) ==> let(c, s.Class.(*Circle), capped(info, s, c.tc, c.r, a, b, radius))
  ensures step1: !touching(s, a, radius) && typeis(s.Class, *Circle) ==> let(c, s.Class.(*Circle), vlen(a - c.tc) > c.r + radius && lerpv(a, b, 0) == a)
  use let(c, s.Class.(*Circle), beyond(a - c.tc, c.r + radius))
  ensures step2: !touching(s, a, radius) && typeis(s.Class, *Circle) ==> let(c, s.Class.(*Circle), cgap(c.tc, a, b, c.r + radius, 0) > 0)
  ensures complete: !touching(s, a, radius) && typeis(s.Class, *Circle) ==> let(c, s.Class.(*Circle), forallT(t, real, 0 <= t && t <= 1 && cgap(c.tc, a, b, c.r + radius, t) <= 0 ==> result && info.Alpha <= t))
  ensures segment: result && !touching(s, a, radius) && typeis(s.Class, *Segment) ==> let(g, s.Class.(*Segment), sided(info, s, g.ta, g.tb, g.r, a, b, radius) || capped(info, s, g.ta, g.r, a, b, radius) || capped(info, s, g.tb, g.r, a, b, radius))
  ensures ends: !touching(s, a, radius) && typeis(s.Class, *Segment) ==> let(g, s.Class.(*Segment), abs(dot(a - g.ta, g.tn)) != g.r + radius ==> forallT(t, real, 0 <= t && t <= 1 && (cgap(g.ta, a, b, g.r + radius, t) < 0 || cgap(g.tb, a, b, g.r + radius, t) < 0) ==> result && info.Alpha <= t))
  ensures poly: result && !touching(s, a, radius) && typeis(s.Class, *PolyShape) ==> let(q, s.Class.(*PolyShape), exists(k, 0, q.count, faced(q, k, info.Shape, info.Alpha, info.Point, info.Normal, a, b, radius)) || exists(k, 0, q.count, nicked(q, k, info.Shape, info.Alpha, info.Point, info.Normal, a, b, radius)))
  ensures corners: !touching(s, a, radius) && typeis(s.Class, *PolyShape) ==> let(q, s.Class.(*PolyShape), q.r + radius > 0 ==> forall(k, 0, q.count, forallT(t, real, 0 <= t && t < info.Alpha && t < 1 ==> cgap(q.planes[k].v0, a, b, q.r + radius, 0) <= 0 || cgap(q.planes[k].v0, a, b, q.r + radius, t) > 0)))
