// Contact generation (C24) and the separation search (C32)

spec iscircle(s *Shape) bool = s != nil && typeis(s.Class, *Circle)
spec issegment(s *Shape) bool = s != nil && typeis(s.Class, *Segment)
spec ispoly(s *Shape) bool = s != nil && typeis(s.Class, *PolyShape)
spec order(s *Shape) int = ite(typeis(s.Class, *Circle), 0, ite(typeis(s.Class, *Segment), 1, ite(typeis(s.Class, *PolyShape), 2, 3)))
spec contact(info *CollisionInfo, k int) Contact = info.arr[k]
spec emptyinfo(info *CollisionInfo) bool = info.count == 0 && len(info.arr) == 2

func Shape.Order(s)
  prop C24
  ensures order: result == order(s)

func CollisionInfo.PushContact(info, p1, p2, hash)
  prop C24
  option safety
  requires 0 <= info.count && info.count < len(info.arr)
  modifies info.count, info.arr[info.count].r1, info.arr[info.count].r2, info.arr[info.count].hash
  ensures count: info.count == old(info.count) + 1
  ensures stored: let(k, old(info.count), contact(info, k).r1 == p1 && contact(info, k).r2 == p2 && contact(info, k).hash == hash)

func CircleToCircle(info)
  prop C24
  requires iscircle(info.a) && iscircle(info.b) && emptyinfo(info)
  requires info.a.Class.(*Circle).r >= 0 && info.b.Class.(*Circle).r >= 0
  modifies info.n, info.count, info.arr[0].r1, info.arr[0].r2, info.arr[0].hash
  ensures exactly: let(c1, info.a.Class.(*Circle), let(c2, info.b.Class.(*Circle), info.count == ite(len2(c2.tc - c1.tc) < (c1.r + c2.r)*(c1.r + c2.r), 1, 0)))
  ensures unit: info.count == 1 ==> unit(info.n)
  ensures direction: info.count == 1 ==> let(c1, info.a.Class.(*Circle), let(c2, info.b.Class.(*Circle), c2.tc - c1.tc == vlen(c2.tc - c1.tc)*info.n))
  ensures surfaces: info.count == 1 ==> let(c1, info.a.Class.(*Circle), let(c2, info.b.Class.(*Circle), contact(info, 0).r1 == c1.tc + c1.r*info.n && contact(info, 0).r2 == c2.tc - c2.r*info.n))
  ensures gap: info.count == 1 ==> let(c1, info.a.Class.(*Circle), let(c2, info.b.Class.(*Circle), dot(contact(info, 0).r2 - contact(info, 0).r1, info.n) == vlen(c2.tc - c1.tc) - c1.r - c2.r))

spec segnear(g *Segment, c Vector) Vector = let(d, g.tb - g.ta, ite(g.ta == g.tb, g.ta, g.ta + clampf(dot(d, c - g.ta)/len2(d), 0, 1)*d))
spec endcap(n Vector, tan Vector, b *Body) bool = dot(n, rotate(tan, Vector{b.transform.a, b.transform.b})) >= 0

func CircleToSegment(info)
  prop C24
  requires iscircle(info.a) && issegment(info.b) && emptyinfo(info)
  requires info.b.Class.(*Segment).Shape != nil && info.b.Class.(*Segment).Shape.body != nil
  requires info.a.Class.(*Circle).r >= 0 && info.b.Class.(*Segment).r >= 0 && unit(info.b.Class.(*Segment).tn)
  modifies info.n, info.count, info.arr[0].r1, info.arr[0].r2, info.arr[0].hash
  ensures atmost: info.count == 0 || info.count == 1
  ensures overlap: let(c, info.a.Class.(*Circle), let(g, info.b.Class.(*Segment), info.count == 1 ==> len2(segnear(g, c.tc) - c.tc) < (c.r + g.r)*(c.r + g.r)))
  ensures exactly: let(c, info.a.Class.(*Circle), let(g, info.b.Class.(*Segment), g.a_tangent == Vector{0, 0} && g.b_tangent == Vector{0, 0} ==> (info.count == 1) == (len2(segnear(g, c.tc) - c.tc) < (c.r + g.r)*(c.r + g.r))))
  ensures smooth: let(c, info.a.Class.(*Circle), let(g, info.b.Class.(*Segment), len2(segnear(g, c.tc) - c.tc) < (c.r + g.r)*(c.r + g.r) ==> (info.count == 1) == ((segnear(g, c.tc) != g.ta || endcap(info.n, g.a_tangent, g.Shape.body)) && (segnear(g, c.tc) != g.tb || g.ta == g.tb || endcap(info.n, g.b_tangent, g.Shape.body)))))
  ensures unit: info.count == 1 ==> unit(info.n)
  ensures direction: info.count == 1 ==> let(c, info.a.Class.(*Circle), let(g, info.b.Class.(*Segment), segnear(g, c.tc) - c.tc == vlen(segnear(g, c.tc) - c.tc)*info.n))
  ensures side: info.count == 1 ==> let(c, info.a.Class.(*Circle), let(g, info.b.Class.(*Segment), segnear(g, c.tc) == c.tc ==> info.n == g.tn))
  ensures surfaces: info.count == 1 ==> let(c, info.a.Class.(*Circle), let(g, info.b.Class.(*Segment), contact(info, 0).r1 == c.tc + c.r*info.n && contact(info, 0).r2 == segnear(g, c.tc) - g.r*info.n))
  ensures gap: info.count == 1 ==> let(c, info.a.Class.(*Circle), let(g, info.b.Class.(*Segment), dot(contact(info, 0).r2 - contact(info, 0).r1, info.n) == vlen(segnear(g, c.tc) - c.tc) - c.r - g.r))
  ensures nearest: let(c, info.a.Class.(*Circle), let(g, info.b.Class.(*Segment), forallT(s, real, 0 <= s && s <= 1 ==> len2(segnear(g, c.tc) - c.tc) <= len2((1-s)*g.ta + s*g.tb - c.tc))))

// ---- support points (C32)

rec corepoint(s *Shape, q Vector) bool =
      (typeis(s.Class, *Circle) && q == s.Class.(*Circle).tc)
   || (typeis(s.Class, *Segment) && (q == s.Class.(*Segment).ta || q == s.Class.(*Segment).tb))
   || (typeis(s.Class, *PolyShape) && let(p, s.Class.(*PolyShape), exists(k, 0, p.count, q == p.planes[k].v0)))
spec vsane(v Vector, b float64) bool = abs(v.X) <= b && abs(v.Y) <= b
spec coreok(s *Shape) bool = s != nil
   && (typeis(s.Class, *Circle) ==> vsane(s.Class.(*Circle).tc, 1e9))
   && (typeis(s.Class, *Segment) ==> vsane(s.Class.(*Segment).ta, 1e9) && vsane(s.Class.(*Segment).tb, 1e9))
   && (typeis(s.Class, *PolyShape) ==> let(p, s.Class.(*PolyShape), p.count >= 1 && p.count <= 100000000 && len(p.planes) == 2*p.count && forall(k, 0, p.count, vsane(p.planes[k].v0, 1e9))))
   && (typeis(s.Class, *Circle) || typeis(s.Class, *Segment) || typeis(s.Class, *PolyShape))

func PolySupportPointIndex(count, planes, n)
  prop C32 C24
  option safety
  requires count >= 1 && len(planes) >= count && forall(k, 0, count, vsane(planes[k].v0, 1e9))
  loop 0: invariant 0 <= i && i <= count && 0 <= index && index < count && (i == 0 ==> index == 0 && max == -INFINITY)
  loop 0: invariant i > 0 && vsane(n, 1e10) ==> index < i && max == dot(planes[index].v0, n)
  loop 0: invariant vsane(n, 1e10) ==> forall(k, 0, i, dot(planes[k].v0, n) <= max)
  loop 0: step range: i > 0 && vsane(n, 1e10) ==> dot(planes[i-1].v0, n) > -INFINITY
  ensures index: 0 <= result && result < count
  ensures farthest: vsane(n, 1e10) ==> forall(k, 0, count, dot(planes[k].v0, n) <= dot(planes[result].v0, n))

func PolySupportPoint(shape, n)
  prop C32
  requires coreok(shape) && ispoly(shape) && vsane(n, 1e10)
  ensures vertex: corepoint(shape, result.p)
  ensures farthest: forallT(q, Vector, corepoint(shape, q) ==> dot(q, n) <= dot(result.p, n))
  ensures indexed: let(p, shape.Class.(*PolyShape), p.count <= 256 ==> result.index < p.count && p.planes[result.index].v0 == result.p)

func SegmentSupportPoint(shape, n)
  prop C32
  requires issegment(shape)
  ensures vertex: corepoint(shape, result.p)
  ensures farthest: forallT(q, Vector, corepoint(shape, q) ==> dot(q, n) <= dot(result.p, n))
  ensures indexed: let(g, shape.Class.(*Segment), result.index == 0 && result.p == g.ta || result.index == 1 && result.p == g.tb)

func CircleSupportPoint(shape, n)
  prop C32
  requires iscircle(shape)
  ensures vertex: corepoint(shape, result.p) && result.index == 0
  ensures farthest: forallT(q, Vector, corepoint(shape, q) ==> dot(q, n) <= dot(result.p, n))

func Shape.Point(s, i)
  prop C32
  requires coreok(s)
  ensures bounded: vsane(result.p, 1e9)
  ensures vertex: corepoint(s, result.p)

func NewMinkowskiPoint(a, b)
  prop C32
  ensures points: result.a == a.p && result.b == b.p && result.ab == b.p - a.p

rec notpast(q1 Vector, q2 Vector, x Vector, n Vector) bool = dot(q2 - q1, n) <= dot(x, n)

functype SupportPointFunc(shape, n)
  requires coreok(shape) && vsane(n, 1e10)
  ensures vertex: corepoint(shape, result.p)
  ensures farthest: forallT(q, Vector, corepoint(shape, q) ==> dot(q, n) <= dot(result.p, n))

spec fits(s *Shape, f SupportPointFunc) bool =
      (typeis(s.Class, *Circle) ==> f == CircleSupportPoint)
   && (typeis(s.Class, *Segment) ==> f == SegmentSupportPoint)
   && (typeis(s.Class, *PolyShape) ==> f == PolySupportPoint)
spec ctxok(c SupportContext) bool = coreok(c.shape1) && coreok(c.shape2) && fits(c.shape1, c.func1) && fits(c.shape2, c.func2)
spec boundedab(m MinkowskiPoint) bool = vsane(m.ab, 2e9)
spec diffpoint(c SupportContext, m MinkowskiPoint) bool = corepoint(c.shape1, m.a) && corepoint(c.shape2, m.b) && m.ab == m.b - m.a

rec extreme(c SupportContext, x Vector, n Vector) bool = forallT(q1, Vector, forallT(q2, Vector, corepoint(c.shape1, q1) && corepoint(c.shape2, q2) ==> notpast(q1, q2, x, n)))

func SupportContext.Support(ctx, n)
  prop C32
  option own
  requires ctxok(*ctx) && vsane(n, 1e10)
  ensures vertex: diffpoint(*ctx, result)
  ensures bounded: boundedab(result)
  ensures stepfarthest: forallT(q1, Vector, forallT(q2, Vector, corepoint(ctx.shape1, q1) && corepoint(ctx.shape2, q2) ==> notpast(q1, q2, result.ab, n)))
  ensures extreme: extreme(*ctx, result.ab, n)

// ---- the search

// hm and hc are an arbitrary direction and bound: a point below it whenever all corners are lies in the hull
rec hm() Vector = hm()
rec hc() float64 = hc()
spec hulled(s *Shape, p Vector) bool = forallT(q, Vector, corepoint(s, q) ==> dot(q, hm()) <= hc()) ==> dot(p, hm()) <= hc()
ghost map searchCapped(k int) int
ghost map searchEpa(k int) int
// an edge between two coincident corners ended a search
ghost map searchFlat(k int) int

spec lerpt(a Vector, b Vector, t float64) Vector = (0.5 - 0.5*t)*a + (0.5 + 0.5*t)*b

rec apartby(q1 Vector, q2 Vector, n Vector, d float64) bool = dot(q2 - q1, n) >= d
theorem unitscale(p Vector, d real) bool = d > 0 && d*d == p.X*p.X + p.Y*p.Y ==> p.X*(1/d*p.X) + p.Y*(1/d*p.Y) == d && (1/d*p.X)*(1/d*p.X) + (1/d*p.Y)*(1/d*p.Y) == 1
theorem unitslack(p Vector, d real, e real) bool = e > 0 && d >= 0 && d*d == p.X*p.X + p.Y*p.Y ==> (1/(d + e)*p.X)*(1/(d + e)*p.X) + (1/(d + e)*p.Y)*(1/(d + e)*p.Y) <= 1
rec nearpt(v0 Vector, v1 Vector) Vector = lerpt(v0, v1, closestt(v0, v1))
rec edgen(v0 Vector, v1 Vector) Vector = (1/(vlen(rperp(v1 - v0)) + 1e-15))*rperp(v1 - v0)
spec beyondend(v0 Vector, v1 Vector) bool = (closestt(v0, v1) == 1 || closestt(v0, v1) == -1) && vlen(nearpt(v0, v1)) > -2*dot(edgen(v0, v1), nearpt(v0, v1))

theorem cauchysmall(n Vector, p Vector, e real) bool = e > 0 && len2(n) <= 1 && len2(p) < e*e ==> n.X*p.X + n.Y*p.Y < e
theorem samedot(n Vector, m Vector, p Vector, d real) bool = n == m && d == m.X*p.X + m.Y*p.Y ==> p.X*n.X + p.Y*n.Y == d
theorem spanned(a real, b real, t real, c real) bool = -1 <= t && t <= 1 && a <= c && b <= c ==> (0.5 - 0.5*t)*a + (0.5 + 0.5*t)*b <= c

theorem edgeunit(v0 Vector, v1 Vector) bool = len2(edgen(v0, v1)) <= 1
theorem negnear(v0 Vector, v1 Vector) bool = len2(-1*lerpt(v0, v1, closestt(v0, v1))) == len2(nearpt(v0, v1))
theorem endall(v0 Vector, v1 Vector, p Vector, d real, n Vector) bool = (p == v1 && dot(v1, v0 - v1) >= 0 || p == v0 && dot(v0, v1 - v0) >= 0) && d > 0 && d*d == len2(p) && n == (1/d)*p
   ==> forallT(q1, Vector, forallT(q2, Vector, forallT(x, Vector, checked(v0, v1, x, -1*p) && notpast(q1, q2, x, -1*p) ==> apartby(q1, q2, n, d))))

func MinkowskiPoint.ClosestPoints(v0, v1)
  prop C32
  option own
  option nodef; inline Vector.Dot Vector.LerpT Vector.ReversePerp Vector.Sub Vector.Normalize Vector.Mult Vector.Length Vector.Add
  requires v0.ab == v0.b - v0.a && v1.ab == v1.b - v1.a
  modifies searchFlat(0)
  set searchFlat(0) := old(searchFlat(0)) + ite(v0.ab == v1.ab, 1, 0)
  ensures step1: v0.ab != v1.ab ==> let(t, closestt(v0.ab, v1.ab), result.a == lerpt(v0.a, v1.a, t) && result.b == lerpt(v0.b, v1.b, t))
  ensures step2: v0.ab != v1.ab ==> result.b - result.a == nearpt(v0.ab, v1.ab)
  ensures step0: v0.ab != v1.ab ==> -1 <= closestt(v0.ab, v1.ab) && closestt(v0.ab, v1.ab) <= 1
  ensures step3: v0.ab != v1.ab ==> result.n == edgen(v0.ab, v1.ab) && result.d == dot(edgen(v0.ab, v1.ab), nearpt(v0.ab, v1.ab)) || closestt(v0.ab, v1.ab) == 1 || closestt(v0.ab, v1.ab) == -1
  ensures step4: v0.ab != v1.ab ==> result.n == edgen(v0.ab, v1.ab) && result.d == dot(edgen(v0.ab, v1.ab), nearpt(v0.ab, v1.ab)) || vlen(nearpt(v0.ab, v1.ab)) > -2*dot(edgen(v0.ab, v1.ab), nearpt(v0.ab, v1.ab))
  ensures step4a: v0.ab != v1.ab ==> result.n == edgen(v0.ab, v1.ab) && result.d == dot(edgen(v0.ab, v1.ab), nearpt(v0.ab, v1.ab)) || beyondend(v0.ab, v1.ab)
  ensures step5: v0.ab != v1.ab && beyondend(v0.ab, v1.ab) ==> vlen(nearpt(v0.ab, v1.ab)) > 0
  ensures step6: v0.ab != v1.ab && beyondend(v0.ab, v1.ab) ==> result.d == vlen(nearpt(v0.ab, v1.ab))
  ensures step7: v0.ab != v1.ab && beyondend(v0.ab, v1.ab) ==> result.n == (1/result.d)*nearpt(v0.ab, v1.ab)
  use once unitscale(nearpt(v0.ab, v1.ab), vlen(nearpt(v0.ab, v1.ab)))
  ensures step9: v0.ab != v1.ab && beyondend(v0.ab, v1.ab) ==> dot(nearpt(v0.ab, v1.ab), result.n) == result.d
  use once spanned(dot(v0.a, hm()), dot(v1.a, hm()), closestt(v0.ab, v1.ab), max(dot(v0.a, hm()), dot(v1.a, hm())))
  ensures spana: v0.ab != v1.ab ==> dot(result.a, hm()) <= max(dot(v0.a, hm()), dot(v1.a, hm()))
  use once spanned(dot(v0.b, hm()), dot(v1.b, hm()), closestt(v0.ab, v1.ab), max(dot(v0.b, hm()), dot(v1.b, hm())))
  ensures spanb: v0.ab != v1.ab ==> dot(result.b, hm()) <= max(dot(v0.b, hm()), dot(v1.b, hm()))
  use once samedot(result.n, edgen(v0.ab, v1.ab), nearpt(v0.ab, v1.ab), result.d)
  ensures step8: v0.ab != v1.ab ==> dot(nearpt(v0.ab, v1.ab), result.n) == result.d
  ensures between: v0.ab != v1.ab ==> existsT(s, real, 0 <= s && s <= 1 && result.a == (1-s)*v0.a + s*v1.a && result.b == (1-s)*v0.b + s*v1.b)
  ensures dist: v0.ab != v1.ab ==> dot(result.b - result.a, result.n) == result.d
  use once unitslack(rperp(v1.ab - v0.ab), vlen(rperp(v1.ab - v0.ab)), 1e-15)
  use once unitscale(nearpt(v0.ab, v1.ab), vlen(nearpt(v0.ab, v1.ab)))
  ensures short: v0.ab != v1.ab ==> len2(result.n) <= 1
  ensures step10: v0.ab != v1.ab && closestt(v0.ab, v1.ab) == 1 ==> nearpt(v0.ab, v1.ab) == v1.ab && dot(v1.ab, v0.ab - v1.ab) >= 0
  ensures step11: v0.ab != v1.ab && closestt(v0.ab, v1.ab) == -1 ==> nearpt(v0.ab, v1.ab) == v0.ab && dot(v0.ab, v1.ab - v0.ab) >= 0
  ensures step12: v0.ab != v1.ab && cross(v0.ab, v1.ab) >= 0 ==> dot(edgen(v0.ab, v1.ab), nearpt(v0.ab, v1.ab)) >= 0
  ensures step13: v0.ab != v1.ab && (closestt(v0.ab, v1.ab) == 1 || closestt(v0.ab, v1.ab) == -1) && cross(v0.ab, v1.ab) >= 0 && len2(nearpt(v0.ab, v1.ab)) > 0 ==> beyondend(v0.ab, v1.ab)
  ensures ahead: v0.ab != v1.ab && cross(v0.ab, v1.ab) >= 0 ==> result.d >= 0
  ensures step14: v0.ab != v1.ab && len2(nearpt(v0.ab, v1.ab)) < 1e-20 ==> vlen(nearpt(v0.ab, v1.ab)) < 1e-10
  use once edgeunit(v0.ab, v1.ab)
  ensures step14a: v0.ab != v1.ab ==> len2(edgen(v0.ab, v1.ab)) <= 1
  use once cauchysmall(edgen(v0.ab, v1.ab), nearpt(v0.ab, v1.ab), 1e-10)
  ensures step14b: v0.ab != v1.ab && len2(nearpt(v0.ab, v1.ab)) < 1e-20 ==> dot(edgen(v0.ab, v1.ab), nearpt(v0.ab, v1.ab)) < 1e-10
  ensures step15: v0.ab != v1.ab && len2(nearpt(v0.ab, v1.ab)) < 1e-20 ==> result.d < 1e-10
  use once negnear(v0.ab, v1.ab)
  ensures corner: v0.ab != v1.ab && len2(-1*lerpt(v0.ab, v1.ab, closestt(v0.ab, v1.ab))) < 1e-20 ==> result.d < 1e-10
  ensures edgecase: v0.ab != v1.ab && -1 < closestt(v0.ab, v1.ab) && closestt(v0.ab, v1.ab) < 1 ==> forallT(q1, Vector, forallT(q2, Vector, forallT(x, Vector, let(m, perp(v1.ab - v0.ab), checked(v0.ab, v1.ab, x, m) && notpast(q1, q2, x, m)) ==> apartby(q1, q2, result.n, result.d))))
  use once negnear(v0.ab, v1.ab)
  use once endall(v0.ab, v1.ab, nearpt(v0.ab, v1.ab), vlen(nearpt(v0.ab, v1.ab)), result.n)
  ensures endcase: v0.ab != v1.ab && (closestt(v0.ab, v1.ab) == 1 || closestt(v0.ab, v1.ab) == -1) && cross(v0.ab, v1.ab) >= 0 && len2(-1*lerpt(v0.ab, v1.ab, closestt(v0.ab, v1.ab))) >= 1e-20 ==> forallT(q1, Vector, forallT(q2, Vector, forallT(x, Vector, let(m, -1*nearpt(v0.ab, v1.ab), checked(v0.ab, v1.ab, x, m) && notpast(q1, q2, x, m)) ==> apartby(q1, q2, result.n, result.d))))
  ensures flat: searchFlat(0) == old(searchFlat(0)) + ite(v0.ab == v1.ab, 1, 0)

// what the search may assume of its starting points and guarantees of its result
spec parted(s1 *Shape, s2 *Shape, n Vector, d float64) bool = forallT(q1, Vector, forallT(q2, Vector, corepoint(s1, q1) && corepoint(s2, q2) ==> apartby(q1, q2, n, d)))
spec isolated(c SupportContext, n Vector, d float64) bool = parted(c.shape1, c.shape2, n, d)
rec onhulls(c SupportContext, a Vector, b Vector) bool = hulled(c.shape1, a) && hulled(c.shape2, b)

// the corner differences are not all the same point
spec spread(c SupportContext) bool = forallT(x, Vector, !(extreme(c, x, Vector{1, 0}) && extreme(c, x, Vector{-1, 0}))) || forallT(x, Vector, !(extreme(c, x, Vector{0, 1}) && extreme(c, x, Vector{0, -1})))

// what the last search answered
ghost map gap(k) float64
ghost map gapnx(k) float64
ghost map gapny(k) float64
ghost map gapax(k) float64
ghost map gapay(k) float64
ghost map gapbx(k) float64
ghost map gapby(k) float64
spec gapn() Vector = Vector{gapnx(0), gapny(0)}
spec gapa() Vector = Vector{gapax(0), gapay(0)}
spec gapb() Vector = Vector{gapbx(0), gapby(0)}
spec answer(c ClosestPoints) bool = c.d == gap(0) && c.n == gapn() && c.a == gapa() && c.b == gapb()

func EPA(ctx, v0, v1, v2)
  prop C32
  option own
  requires ctxok(ctx) && diffpoint(ctx, v0) && diffpoint(ctx, v1) && boundedab(v0) && boundedab(v1) && diffpoint(ctx, v2) && boundedab(v2)
  modifies searchEpa(0), searchFlat(0)
  set searchEpa(0) := old(searchEpa(0)) + 1
  ensures ran: searchEpa(0) == old(searchEpa(0)) + 1
  ensures hulls: searchFlat(0) == old(searchFlat(0)) ==> hulled(ctx.shape1, result.a) && hulled(ctx.shape2, result.b)
  ensures dist: searchFlat(0) == old(searchFlat(0)) ==> dot(result.b - result.a, result.n) == result.d
  ensures short: searchFlat(0) == old(searchFlat(0)) ==> len2(result.n) <= 1
  ensures flat: searchFlat(0) >= old(searchFlat(0))

func EPARecurse(ctx, count, hull, iteration)
  prop C32
  option own
  option safety
  requires ctxok(ctx) && 1 <= count && count <= len(hull) && 1 <= iteration && iteration <= 30
  requires forall(k, 0, count, diffpoint(ctx, hull[k]) && boundedab(hull[k]))
  decreases 30 - iteration
  modifies searchFlat(0)
  loop 0: invariant 0 <= j && j <= count && 0 <= i && i < count && 0 <= mini && mini < count
  loop 1: invariant 0 <= i && i <= count && 1 <= count2 && count2 <= i + 1
  loop 1: invariant forall(k, 0, count2, diffpoint(ctx, hull2[k]) && boundedab(hull2[k]))
  ensures hulls: searchFlat(0) == old(searchFlat(0)) ==> hulled(ctx.shape1, result.a) && hulled(ctx.shape2, result.b)
  ensures dist: searchFlat(0) == old(searchFlat(0)) ==> dot(result.b - result.a, result.n) == result.d
  ensures short: searchFlat(0) == old(searchFlat(0)) ==> len2(result.n) <= 1
  ensures flat: searchFlat(0) >= old(searchFlat(0))

func GJKRecurse(ctx, v0, v1, iteration)
  prop C32
  option own
  requires ctxok(ctx) && diffpoint(ctx, v0) && diffpoint(ctx, v1) && boundedab(v0) && boundedab(v1) && v0.ab != v1.ab && 1 <= iteration && iteration <= 31
  decreases 2*(31 - iteration) + ite(cross(v0.ab, v1.ab) < 0, 1, 0)
  modifies searchCapped(0), searchEpa(0), searchFlat(0)
  set searchCapped(0) := ite(iteration > 30, old(searchCapped(0)) + 1, searchCapped(0))
  ensures grow: searchCapped(0) >= old(searchCapped(0)) && searchEpa(0) >= old(searchEpa(0)) && searchFlat(0) >= old(searchFlat(0))
  ensures flat: searchEpa(0) == old(searchEpa(0)) ==> searchFlat(0) == old(searchFlat(0))
  ensures hulls: searchFlat(0) == old(searchFlat(0)) ==> hulled(ctx.shape1, result.a) && hulled(ctx.shape2, result.b)
  ensures dist: searchFlat(0) == old(searchFlat(0)) ==> dot(result.b - result.a, result.n) == result.d
  ensures short: searchFlat(0) == old(searchFlat(0)) ==> len2(result.n) <= 1
  ensures apart: searchEpa(0) == old(searchEpa(0)) && searchCapped(0) == old(searchCapped(0)) ==> result.d >= 0
  ensures exact: searchEpa(0) == old(searchEpa(0)) && searchCapped(0) == old(searchCapped(0)) ==> result.d < 1e-10 || isolated(ctx, result.n, result.d)

func GJK(ctx, collisionId)
  prop C32
  option own
  requires ctxok(ctx) && collisionId != nil
  requires abs(ctx.shape1.bb.L) <= 1e9 && abs(ctx.shape1.bb.B) <= 1e9 && abs(ctx.shape1.bb.R) <= 1e9 && abs(ctx.shape1.bb.T) <= 1e9
  requires abs(ctx.shape2.bb.L) <= 1e9 && abs(ctx.shape2.bb.B) <= 1e9 && abs(ctx.shape2.bb.R) <= 1e9 && abs(ctx.shape2.bb.T) <= 1e9
  requires spread(ctx)
  modifies *collisionId, searchCapped(0), searchEpa(0), searchFlat(0), gap(0), gapnx(0), gapny(0), gapax(0), gapay(0), gapbx(0), gapby(0)
  set gap(0) := result.d
  set gapnx(0) := result.n.X
  set gapny(0) := result.n.Y
  set gapax(0) := result.a.X
  set gapay(0) := result.a.Y
  set gapbx(0) := result.b.X
  set gapby(0) := result.b.Y
  ensures answer: answer(result)
  ensures grow: searchCapped(0) >= old(searchCapped(0)) && searchEpa(0) >= old(searchEpa(0)) && searchFlat(0) >= old(searchFlat(0))
  ensures flat: searchEpa(0) == old(searchEpa(0)) ==> searchFlat(0) == old(searchFlat(0))
  ensures hulls: searchFlat(0) == old(searchFlat(0)) ==> hulled(ctx.shape1, result.a) && hulled(ctx.shape2, result.b)
  ensures dist: searchFlat(0) == old(searchFlat(0)) ==> dot(result.b - result.a, result.n) == result.d
  ensures short: searchFlat(0) == old(searchFlat(0)) ==> len2(result.n) <= 1
  ensures apart: searchEpa(0) == old(searchEpa(0)) && searchCapped(0) == old(searchCapped(0)) ==> result.d >= 0
  ensures exact: searchEpa(0) == old(searchEpa(0)) && searchCapped(0) == old(searchCapped(0)) ==> result.d < 1e-10 || isolated(ctx, result.n, result.d)

// ---- support edges and clipping (C24)

spec polyshapeok(p *PolyShape) bool = p != nil && p.Shape != nil && p.count >= 1 && p.count <= 100000000 && len(p.planes) == 2*p.count && forall(k, 0, p.count, vsane(p.planes[k].v0, 1e9))

func SupportEdgeForSegment(seg, n)
  prop C24
  requires seg.Shape != nil
  ensures width: result.r == seg.r
  ensures facing: dot(result.n, n) >= 0 && (result.n == seg.tn || result.n == -1*seg.tn)
  ensures ends: result.n == seg.tn && result.a.p == seg.ta && result.b.p == seg.tb || result.n == -1*seg.tn && result.a.p == seg.tb && result.b.p == seg.ta

func SupportEdgeForPoly(poly, n)
  prop C24
  option safety
  requires polyshapeok(poly)
  ensures width: result.r == poly.r
  ensures edge: vsane(n, 1e10) ==> exists(k, 0, poly.count, let(e, ite(k == 0, poly.count - 1, k - 1), result.a.p == poly.planes[e].v0 && result.b.p == poly.planes[k].v0 && result.n == poly.planes[k].n
      && forall(m, 0, poly.count, dot(poly.planes[m].v0, n) <= max(dot(result.a.p, n), dot(result.b.p, n)))
      && dot(result.n, n) >= dot(poly.planes[ite(k + 1 == poly.count, 0, k + 1)].n, n)
      || result.a.p == poly.planes[e].v0 && result.b.p == poly.planes[k].v0 && result.n == poly.planes[k].n
      && forall(m, 0, poly.count, dot(poly.planes[m].v0, n) <= dot(result.a.p, n))
      && dot(result.n, n) >= dot(poly.planes[e].n, n)))

func HashPair(a, b)
  prop C24

spec alongedge(e Edge, t float64) Vector = (1 - t)*e.a.p + t*e.b.p
spec sideways(e Edge, n Vector, c float64) float64 = clampf((c - cross(e.a.p, n))*(1/(cross(e.b.p, n) - cross(e.a.p, n) + 1e-15)), 0, 1)
spec oncontact(c Contact, e1 Edge, e2 Edge, n Vector, c1 float64, c2 float64) bool =
   c.r1 == alongedge(e1, sideways(e1, n, c2)) + e1.r*n && c.r2 == alongedge(e2, sideways(e2, n, c1)) - e2.r*n && dot(c.r2 - c.r1, n) <= 0

func ContactPoints(e1, e2, points, info)
  prop C24
  option nodef; inline CollisionInfo.PushContact
  requires emptyinfo(info)
  modifies info.n, info.count, elems(info.arr)
  ensures none: points.d > e1.r + e2.r ==> info.count == 0
  ensures some: points.d <= e1.r + e2.r ==> (info.count == 1 || info.count == 2) && info.n == points.n
  ensures surfaces: let(n, points.n, info.count >= 1 ==>
        oncontact(contact(info, 0), e1, e2, n, cross(e1.a.p, n), cross(e2.b.p, n))
     || oncontact(contact(info, 0), e1, e2, n, cross(e1.b.p, n), cross(e2.a.p, n))
     || info.count == 1 && contact(info, 0).r1 == points.a + e1.r*n && contact(info, 0).r2 == points.b - e2.r*n)
  ensures second: let(n, points.n, info.count == 2 ==> oncontact(contact(info, 0), e1, e2, n, cross(e1.a.p, n), cross(e2.b.p, n)) && oncontact(contact(info, 1), e1, e2, n, cross(e1.b.p, n), cross(e2.a.p, n)))
  ensures depth: info.count == 1 && dot(points.b - points.a, points.n) == points.d && unit(points.n) ==> dot(contact(info, 0).r2 - contact(info, 0).r1, points.n) <= 0

// ---- shape pairs

spec context(s1 *Shape, s2 *Shape) SupportContext = SupportContext{s1, s2, support(s1), support(s2)}
spec support(s *Shape) SupportPointFunc = ite(typeis(s.Class, *Circle), CircleSupportPoint, ite(typeis(s.Class, *Segment), SegmentSupportPoint, PolySupportPoint))
spec bbsane(b BB) bool = abs(b.L) <= 1e9 && abs(b.B) <= 1e9 && abs(b.R) <= 1e9 && abs(b.T) <= 1e9
spec pairok(s1 *Shape, s2 *Shape) bool = coreok(s1) && coreok(s2) && bbsane(s1.bb) && bbsane(s2.bb) && spread(context(s1, s2))
spec exactly() bool = searchEpa(0) == old(searchEpa(0)) && searchCapped(0) == old(searchCapped(0))
spec shaperadius(s *Shape) float64 = ite(typeis(s.Class, *Circle), s.Class.(*Circle).r, ite(typeis(s.Class, *Segment), s.Class.(*Segment).r, s.Class.(*PolyShape).r))
spec within(info *CollisionInfo) bool = gap(0) <= shaperadius(info.a) + shaperadius(info.b)

func CircleToPoly(info)
  prop C24 C32
  requires iscircle(info.a) && ispoly(info.b) && emptyinfo(info) && pairok(info.a, info.b)
  modifies info.n, info.count, info.collisionId, info.arr[0].r1, info.arr[0].r2, info.arr[0].hash, searchCapped(0), searchEpa(0), searchFlat(0), gap(0), gapnx(0), gapny(0), gapax(0), gapay(0), gapbx(0), gapby(0)
  ensures decide: info.count == ite(within(info), 1, 0)
  ensures normal: info.count == 1 ==> info.n == gapn()
  ensures surfaces: info.count == 1 ==> contact(info, 0).r1 == gapa() + shaperadius(info.a)*info.n && contact(info, 0).r2 == gapb() - shaperadius(info.b)*info.n
  ensures missed: exactly() && info.count == 0 && gap(0) >= 1e-10 ==> parted(info.a, info.b, gapn(), gap(0))

spec polyfull(s *Shape) bool = ispoly(s) && polyshapeok(s.Class.(*PolyShape)) && s.Class.(*PolyShape).Shape == s
spec segfull(s *Shape) bool = issegment(s) && s.Class.(*Segment).Shape == s && s.body != nil

func PolyToPoly(info)
  prop C24 C32
  requires polyfull(info.a) && polyfull(info.b) && emptyinfo(info) && pairok(info.a, info.b)
  modifies info.n, info.count, info.collisionId, elems(info.arr), searchCapped(0), searchEpa(0), searchFlat(0), gap(0), gapnx(0), gapny(0), gapax(0), gapay(0), gapbx(0), gapby(0)
  ensures decide: (info.count == 0) == !within(info) && 0 <= info.count && info.count <= 2
  ensures normal: info.count >= 1 ==> info.n == gapn()
  ensures missed: exactly() && info.count == 0 && gap(0) >= 1e-10 ==> parted(info.a, info.b, gapn(), gap(0))

// a segment with a neighbour refuses contacts at that end from the neighbour's side
spec refused(g *Segment, b *Body, p Vector, n Vector) bool = p == g.ta && dot(n, rotate(g.a_tangent, Vector{b.transform.a, b.transform.b})) > 0 || p == g.tb && dot(n, rotate(g.b_tangent, Vector{b.transform.a, b.transform.b})) > 0

func SegmentToPoly(info)
  prop C24 C32
  requires segfull(info.a) && polyfull(info.b) && emptyinfo(info) && pairok(info.a, info.b)
  modifies info.n, info.count, info.collisionId, elems(info.arr), searchCapped(0), searchEpa(0), searchFlat(0), gap(0), gapnx(0), gapny(0), gapax(0), gapay(0), gapbx(0), gapby(0)
  ensures decide: (info.count == 0) == (!within(info) || refused(info.a.Class.(*Segment), info.a.body, gapa(), gapn())) && 0 <= info.count && info.count <= 2
  ensures normal: info.count >= 1 ==> info.n == gapn()
  ensures missed: exactly() && !within(info) && gap(0) >= 1e-10 ==> parted(info.a, info.b, gapn(), gap(0))

func SegmentToSegment(info)
  prop C24 C32
  requires segfull(info.a) && segfull(info.b) && emptyinfo(info) && pairok(info.a, info.b)
  modifies info.n, info.count, info.collisionId, elems(info.arr), searchCapped(0), searchEpa(0), searchFlat(0), gap(0), gapnx(0), gapny(0), gapax(0), gapay(0), gapbx(0), gapby(0)
  ensures decide: (info.count == 0) == (!within(info) || refused(info.a.Class.(*Segment), info.a.body, gapa(), gapn()) || refused(info.b.Class.(*Segment), info.b.body, gapb(), -1*gapn())) && 0 <= info.count && info.count <= 2
  ensures normal: info.count >= 1 ==> info.n == gapn()
  ensures missed: exactly() && !within(info) && gap(0) >= 1e-10 ==> parted(info.a, info.b, gapn(), gap(0))

spec pairvalid(a *Shape, b *Shape) bool = (iscircle(a) || segfull(a) || polyfull(a)) && (iscircle(b) || segfull(b) || polyfull(b)) && shaperadius(a) >= 0 && shaperadius(b) >= 0
   && (issegment(a) ==> unit(a.Class.(*Segment).tn)) && (issegment(b) ==> unit(b.Class.(*Segment).tn))
   && ((ispoly(a) || ispoly(b) || issegment(a) && issegment(b)) ==> pairok(a, b) && pairok(b, a))

spec searched(a *Shape, b *Shape) bool = ispoly(a) || ispoly(b) || issegment(a) && issegment(b)
spec circlesegment(a *Shape, b *Shape) bool = iscircle(a) && issegment(b)
spec roundtouch(c *Circle, g *Segment, n Vector, p1 Vector, p2 Vector) bool = unit(n) && segnear(g, c.tc) - c.tc == vlen(segnear(g, c.tc) - c.tc)*n && len2(segnear(g, c.tc) - c.tc) < (c.r + g.r)*(c.r + g.r)
   && p1 == c.tc + c.r*n && p2 == segnear(g, c.tc) - g.r*n

func Collide(a, b, collisionID, contacts)
  prop C24
  requires pairvalid(a, b) && len(contacts) == 2
  modifies elems(contacts), searchCapped(0), searchEpa(0), searchFlat(0), gap(0), gapnx(0), gapny(0), gapax(0), gapay(0), gapbx(0), gapby(0)
  ensures order: result.a == ite(order(a) > order(b), b, a) && result.b == ite(order(a) > order(b), a, b) && same(result.arr, contacts)
  ensures count: 0 <= result.count && result.count <= 2
  ensures circles: iscircle(a) && iscircle(b) ==> let(c1, a.Class.(*Circle), let(c2, b.Class.(*Circle), (result.count == 1) == (len2(c2.tc - c1.tc) < (c1.r + c2.r)*(c1.r + c2.r)) && result.count <= 1))
  ensures circlesat: iscircle(a) && iscircle(b) && result.count == 1 ==> let(c1, a.Class.(*Circle), let(c2, b.Class.(*Circle), unit(result.n) && c2.tc - c1.tc == vlen(c2.tc - c1.tc)*result.n && contacts[0].r1 == c1.tc + c1.r*result.n && contacts[0].r2 == c2.tc - c2.r*result.n))
  ensures round: circlesegment(a, b) ==> result.count == 0 || roundtouch(a.Class.(*Circle), b.Class.(*Segment), result.n, contacts[0].r1, contacts[0].r2)
  ensures roundback: circlesegment(b, a) ==> result.count == 0 || roundtouch(b.Class.(*Circle), a.Class.(*Segment), result.n, contacts[0].r1, contacts[0].r2)
  ensures searched: searched(a, b) && result.count >= 1 ==> result.n == gapn() && gap(0) <= shaperadius(a) + shaperadius(b)
  ensures polys: ispoly(a) && (iscircle(b) || ispoly(b)) || ispoly(b) && iscircle(a) ==> (result.count == 0) == (gap(0) > shaperadius(a) + shaperadius(b))

func ShapesCollide(a, b)
  prop C24
  requires pairvalid(a, b)
  modifies searchCapped(0), searchEpa(0), searchFlat(0), gap(0), gapnx(0), gapny(0), gapax(0), gapay(0), gapbx(0), gapby(0)
  loop 0: invariant 0 <= i && i <= info.count && set.Count == info.count && set.Normal == ite(swapped, -1*info.n, info.n)
  loop 0: invariant forall(k, 0, i, set.Points[k].PointA == ite(swapped, contacts[k].r2, contacts[k].r1) && set.Points[k].PointB == ite(swapped, contacts[k].r1, contacts[k].r2) && set.Points[k].Distance == dot(contacts[k].r2 - contacts[k].r1, info.n))
  loop 0: invariant forall(k, 0, i, set.Points[k].Distance == dot(set.Points[k].PointB - set.Points[k].PointA, set.Normal))
  ensures count: 0 <= result.Count && result.Count <= 2
  ensures distance: forall(k, 0, result.Count, result.Points[k].Distance == dot(result.Points[k].PointB - result.Points[k].PointA, result.Normal))
  ensures circles: iscircle(a) && iscircle(b) ==> let(c1, a.Class.(*Circle), let(c2, b.Class.(*Circle), (result.Count == 1) == (len2(c2.tc - c1.tc) < (c1.r + c2.r)*(c1.r + c2.r)) && result.Count <= 1))
  ensures circlesat: iscircle(a) && iscircle(b) && result.Count == 1 ==> let(c1, a.Class.(*Circle), let(c2, b.Class.(*Circle), unit(result.Normal) && c2.tc - c1.tc == vlen(c2.tc - c1.tc)*result.Normal && result.Points[0].PointA == c1.tc + c1.r*result.Normal && result.Points[0].PointB == c2.tc - c2.r*result.Normal))
  ensures round: circlesegment(a, b) ==> result.Count == 0 || roundtouch(a.Class.(*Circle), b.Class.(*Segment), result.Normal, result.Points[0].PointA, result.Points[0].PointB)
  ensures roundback: circlesegment(b, a) ==> result.Count == 0 || roundtouch(b.Class.(*Circle), a.Class.(*Segment), -1*result.Normal, result.Points[0].PointB, result.Points[0].PointA)
  ensures searched: searched(a, b) && result.Count >= 1 ==> result.Normal == ite(order(a) > order(b), -1*gapn(), gapn()) && gap(0) <= shaperadius(a) + shaperadius(b)
  ensures polys: ispoly(a) && (iscircle(b) || ispoly(b)) || ispoly(b) && iscircle(a) ==> (result.Count == 0) == (gap(0) > shaperadius(a) + shaperadius(b))
