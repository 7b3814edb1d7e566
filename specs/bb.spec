func NewBB(l, b, r, t)
  prop C03
  ensures fields: result == BB{l, b, r, t}

func NewBBForExtents(c, hw, hh)
  prop C03
  ensures fields: result == BB{c.X - hw, c.Y - hh, c.X + hw, c.Y + hh}

func NewBBForCircle(p, r)
  prop C03
  ensures fields: result == BB{p.X - r, p.Y - r, p.X + r, p.Y + r}
  ensures holds: r >= 0 ==> forallT(q, Vector, len2(q - p) <= r*r ==> inbb(result, q))

func BB.Intersects(a, b)
  option noalloc
  prop C03
  ensures def: result == (a.L <= b.R && b.L <= a.R && a.B <= b.T && b.B <= a.T)
  ensures meaning: validbb(a) && validbb(b) ==> (result == existsT(p, Vector, inbb(a, p) && inbb(b, p)))

func BB.Contains(a, b)
  prop C03
  ensures def: result == (a.L <= b.L && b.R <= a.R && a.B <= b.B && b.T <= a.T)
  ensures meaning: validbb(b) ==> (result == forallT(p, Vector, inbb(b, p) ==> inbb(a, p)))

func BB.ContainsVect(a, v)
  prop C03
  ensures def: result == (a.L <= v.X && v.X <= a.R && a.B <= v.Y && v.Y <= a.T)

func BB.Merge(a, b)
  option noalloc
  prop C03
  ensures fields: result == BB{min(a.L, b.L), min(a.B, b.B), max(a.R, b.R), max(a.T, b.T)}

func BB.Expand(a, v)
  prop C03
  ensures fields: result == BB{min(a.L, v.X), min(a.B, v.Y), max(a.R, v.X), max(a.T, v.Y)}

func BB.Center(a)
  prop C03
  ensures mid: result == Vector{(a.L + a.R)/2, (a.B + a.T)/2}

func BB.Area(a)
  prop C03
  ensures area: result == (a.R - a.L)*(a.T - a.B)

func BB.MergedArea(a, b)
  prop C03
  ensures area: result == (max(a.R, b.R) - min(a.L, b.L))*(max(a.T, b.T) - min(a.B, b.B))

func BB.SegmentQuery(bb, a, b)
  option noalloc
  prop C03
  requires validbb(bb)
  requires a.X >= -1e100 && a.X <= 1e100 && a.Y >= -1e100 && a.Y <= 1e100 && b.X >= -1e100 && b.X <= 1e100 && b.Y >= -1e100 && b.Y <= 1e100
  requires bb.L >= -1e100 && bb.R <= 1e100 && bb.B >= -1e100 && bb.T <= 1e100
  requires (a.X == b.X || abs(a.X - b.X) >= 1e-100) && (a.Y == b.Y || abs(a.Y - b.Y) >= 1e-100)
  ensures range: result == INFINITY || 0 <= result && result <= 1
  ensures hit: result != INFINITY ==> inbb(bb, (1-result)*a + result*b)
  ensures first: forallT(s, real, 0 <= s && s <= 1 && inbb(bb, (1-s)*a + s*b) ==> result <= s)

func BB.IntersectsSegment(bb, a, b)
  prop C03
  requires validbb(bb)
  requires a.X >= -1e100 && a.X <= 1e100 && a.Y >= -1e100 && a.Y <= 1e100 && b.X >= -1e100 && b.X <= 1e100 && b.Y >= -1e100 && b.Y <= 1e100
  requires bb.L >= -1e100 && bb.R <= 1e100 && bb.B >= -1e100 && bb.T <= 1e100
  requires (a.X == b.X || abs(a.X - b.X) >= 1e-100) && (a.Y == b.Y || abs(a.Y - b.Y) >= 1e-100)
  ensures meaning: result == existsT(s, real, 0 <= s && s <= 1 && inbb(bb, (1-s)*a + s*b))

func BB.ClampVect(bb, v)
  prop C03
  requires validbb(bb)
  ensures clamp: result == Vector{min(max(v.X, bb.L), bb.R), min(max(v.Y, bb.B), bb.T)}
  ensures inside: inbb(bb, result) && (inbb(bb, *v) ==> result == *v)

func BB.WrapVect(bb, v)
  prop C03
  requires bb.L < bb.R && bb.B < bb.T
  ensures inside: inbb(bb, result)
  ensures congruent: result.X == bb.L + ite(fmod(v.X - bb.L, bb.R - bb.L) > 0, 0.0, bb.R - bb.L) + fmod(v.X - bb.L, bb.R - bb.L)
     && result.Y == bb.B + ite(fmod(v.Y - bb.B, bb.T - bb.B) > 0, 0.0, bb.T - bb.B) + fmod(v.Y - bb.B, bb.T - bb.B)

func BB.Offset(bb, v)
  prop C03
  ensures fields: result == BB{bb.L + v.X, bb.B + v.Y, bb.R + v.X, bb.T + v.Y}

func BB.Proximity(a, b)
  prop C03
  ensures prox: result == abs(a.L + a.R - b.L - b.R) + abs(a.B + a.T - b.B - b.T)
