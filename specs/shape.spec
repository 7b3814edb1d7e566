// Shape bounds (C04)

spec edge0(i int, n int) int = ite(i == 0, n - 1, i - 1)

spec polyok(p *PolyShape) bool = p.count >= 1 && len(p.planes) == 2*p.count && p.Shape != nil
spec shapeok(s *Shape) bool = s.Class != nil
   && (typeis(s.Class, *Circle) ==> s.Class.(*Circle).Shape == s)
   && (typeis(s.Class, *Segment) ==> s.Class.(*Segment).Shape == s)
   && (typeis(s.Class, *PolyShape) ==> s.Class.(*PolyShape).Shape == s && polyok(s.Class.(*PolyShape)))

func Circle.CacheData(circle, t)
  prop C04
  modifies circle.tc
  ensures image: circle.tc == mulp(t, circle.c)
  ensures touch: result == BB{circle.tc.X - circle.r, circle.tc.Y - circle.r, circle.tc.X + circle.r, circle.tc.Y + circle.r}
  ensures holds: circle.r >= 0 ==> forallT(q, Vector, len2(q - circle.tc) <= circle.r*circle.r ==> inbb(result, q))

func Segment.CacheData(seg, t)
  prop C04
  modifies seg.ta, seg.tb, seg.tn
  ensures image: seg.ta == mulp(t, seg.a) && seg.tb == mulp(t, seg.b) && seg.tn == mulv(t, seg.n)
  ensures touch: result == BB{min(seg.ta.X, seg.tb.X) - seg.r, min(seg.ta.Y, seg.tb.Y) - seg.r, max(seg.ta.X, seg.tb.X) + seg.r, max(seg.ta.Y, seg.tb.Y) + seg.r}
  ensures holds: seg.r >= 0 ==> forallT(q, Vector, forallT(s, real, 0 <= s && s <= 1 && len2(q - (1-s)*seg.ta - s*seg.tb) <= seg.r*seg.r ==> inbb(result, q)))

func PolyShape.CacheData(poly, tr)
  prop C04
  requires polyok(poly)
  requires forall(k, 0, poly.count, abs(mulp(tr, poly.planes[k + poly.count].v0).X) <= 1e29 && abs(mulp(tr, poly.planes[k + poly.count].v0).Y) <= 1e29)
  modifies elems(poly.planes), poly.Shape.bb
  loop 0: invariant 0 <= i && i <= count
  loop 0: invariant forall(k, 0, i, poly.planes[k].v0 == mulp(tr, poly.planes[k + count].v0) && poly.planes[k].n == mulv(tr, poly.planes[k + count].n))
  loop 0: invariant forall(k, count, 2*count, poly.planes[k] == old(poly.planes[k]))
  loop 0: invariant forall(k, 0, i, l <= poly.planes[k].v0.X && poly.planes[k].v0.X <= r && b <= poly.planes[k].v0.Y && poly.planes[k].v0.Y <= t)
  loop 0: invariant i == 0 && l == INFINITY || i > 0 && exists(k, 0, i, l == poly.planes[k].v0.X)
  loop 0: invariant i == 0 && r == -INFINITY || i > 0 && exists(k, 0, i, r == poly.planes[k].v0.X)
  loop 0: invariant i == 0 && b == INFINITY || i > 0 && exists(k, 0, i, b == poly.planes[k].v0.Y)
  loop 0: invariant i == 0 && t == -INFINITY || i > 0 && exists(k, 0, i, t == poly.planes[k].v0.Y)
  ensures image: forall(k, 0, poly.count, poly.planes[k].v0 == mulp(tr, poly.planes[k + poly.count].v0) && poly.planes[k].n == mulv(tr, poly.planes[k + poly.count].n))
  ensures local: forall(k, poly.count, 2*poly.count, poly.planes[k] == old(poly.planes[k]))
  ensures stored: poly.Shape.bb == result
  ensures verts: forall(k, 0, poly.count, result.L <= poly.planes[k].v0.X - poly.r && poly.planes[k].v0.X + poly.r <= result.R && result.B <= poly.planes[k].v0.Y - poly.r && poly.planes[k].v0.Y + poly.r <= result.T)
  ensures touch: exists(k, 0, poly.count, result.L == poly.planes[k].v0.X - poly.r) && exists(k, 0, poly.count, result.R == poly.planes[k].v0.X + poly.r) && exists(k, 0, poly.count, result.B == poly.planes[k].v0.Y - poly.r) && exists(k, 0, poly.count, result.T == poly.planes[k].v0.Y + poly.r)
  ensures holds: poly.r >= 0 ==> forall(k, 0, poly.count, forall(m, 0, poly.count, forallT(s, real, forallT(q, Vector, 0 <= s && s <= 1 && len2(q - (1-s)*poly.planes[k].v0 - s*poly.planes[m].v0) <= poly.r*poly.r ==> inbb(result, q)))))

func Shape.Update(s, tr)
  prop C04
  requires shapeok(s)
  requires typeis(s.Class, *PolyShape) ==> forall(k, 0, s.Class.(*PolyShape).count, abs(mulp(tr, s.Class.(*PolyShape).planes[k + s.Class.(*PolyShape).count].v0).X) <= 1e29 && abs(mulp(tr, s.Class.(*PolyShape).planes[k + s.Class.(*PolyShape).count].v0).Y) <= 1e29)
  modifies s.bb, s.Class.(*Circle).tc, s.Class.(*Segment).ta, s.Class.(*Segment).tb, s.Class.(*Segment).tn, elems(s.Class.(*PolyShape).planes)
  ensures stored: s.bb == result
  ensures circle: typeis(s.Class, *Circle) ==> let(c, s.Class.(*Circle), c.tc == mulp(tr, c.c) && result == BB{c.tc.X - c.r, c.tc.Y - c.r, c.tc.X + c.r, c.tc.Y + c.r})
  ensures segment: typeis(s.Class, *Segment) ==> let(g, s.Class.(*Segment), g.ta == mulp(tr, g.a) && g.tb == mulp(tr, g.b) && g.tn == mulv(tr, g.n) && result == BB{min(g.ta.X, g.tb.X) - g.r, min(g.ta.Y, g.tb.Y) - g.r, max(g.ta.X, g.tb.X) + g.r, max(g.ta.Y, g.tb.Y) + g.r})
  ensures poly: typeis(s.Class, *PolyShape) ==> let(p, s.Class.(*PolyShape), forall(k, 0, p.count, p.planes[k].v0 == mulp(tr, p.planes[k + p.count].v0) && p.planes[k].n == mulv(tr, p.planes[k + p.count].n) && p.planes[k+p.count] == old(p.planes[k+p.count])
     && result.L <= p.planes[k].v0.X - p.r && p.planes[k].v0.X + p.r <= result.R && result.B <= p.planes[k].v0.Y - p.r && p.planes[k].v0.Y + p.r <= result.T))
