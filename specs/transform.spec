func NewTransformIdentity()
  prop C02
  ensures id: result == Transform{1, 0, 0, 1, 0, 0}

func NewTransform(a, c, tx, b, d, ty)
  prop C02
  ensures map: result == Transform{a, b, c, d, tx, ty}

func NewTransformTranspose(a, c, tx, b, d, ty)
  prop C02
  ensures map: result == Transform{a, b, c, d, tx, ty}

func NewTransformTranslate(t)
  prop C02
  ensures map: result == Transform{1, 0, 0, 1, t.X, t.Y}
  ensures pts: forallT(p, Vector, mulp(result, p) == p + t)

func NewTransformScale(sx, sy)
  prop C02
  ensures map: result == Transform{sx, 0, 0, sy, 0, 0}
  ensures pts: forallT(p, Vector, mulp(result, p) == Vector{sx*p.X, sy*p.Y})

func NewTransformRotate(r)
  prop C02
  ensures map: result == Transform{cos(r), sin(r), -sin(r), cos(r), 0, 0}
  ensures pts: forallT(p, Vector, mulp(result, p) == rotate(p, Vector{cos(r), sin(r)}))

func NewTransformRigid(t, r)
  prop C02
  ensures map: result == Transform{cos(r), sin(r), -sin(r), cos(r), t.X, t.Y}
  ensures pts: forallT(p, Vector, mulp(result, p) == rotate(p, Vector{cos(r), sin(r)}) + t)

func NewTransformRigidInverse(t)
  prop C02
  ensures map: result == Transform{t.d, -t.b, -t.c, t.a, t.c*t.ty - t.tx*t.d, t.tx*t.b - t.a*t.ty}
  ensures inverse: rigid(t) ==> forallT(p, Vector, mulp(result, mulp(t, p)) == p && mulp(t, mulp(result, p)) == p)

func Transform.Inverse(t)
  prop C02
  requires t.a*t.d - t.c*t.b != 0
  ensures map: result == let(k, 1/(t.a*t.d - t.c*t.b), Transform{t.d*k, -t.b*k, -t.c*k, t.a*k, (t.c*t.ty - t.tx*t.d)*k, (t.tx*t.b - t.a*t.ty)*k})
  ensures left: forallT(p, Vector, mulp(result, mulp(t, p)) == p)
  ensures right: forallT(p, Vector, mulp(t, mulp(result, p)) == p)

func Transform.Mult(t, u)
  prop C02
  ensures map: result == Transform{t.a*u.a + t.c*u.b, t.b*u.a + t.d*u.b, t.a*u.c + t.c*u.d, t.b*u.c + t.d*u.d,
     t.a*u.tx + t.c*u.ty + t.tx, t.b*u.tx + t.d*u.ty + t.ty}
  ensures comp: forallT(p, Vector, mulp(result, p) == mulp(t, mulp(u, p)) && mulv(result, p) == mulv(t, mulv(u, p)))

func Transform.Point(t, p)
  prop C02
  ensures map: result == Vector{t.a*p.X + t.c*p.Y + t.tx, t.b*p.X + t.d*p.Y + t.ty}

func Transform.Vect(t, v)
  prop C02
  ensures map: result == Vector{t.a*v.X + t.c*v.Y, t.b*v.X + t.d*v.Y}

func Transform.BB(t, bb)
  prop C02
  requires validbb(bb)
  ensures holds: forallT(p, Vector, inbb(bb, p) ==> inbb(result, mulp(t, p)))
  ensures tight: result.L == min(mulp(t, Vector{bb.L, bb.B}).X, mulp(t, Vector{bb.L, bb.T}).X, mulp(t, Vector{bb.R, bb.B}).X, mulp(t, Vector{bb.R, bb.T}).X)
    && result.R == max(mulp(t, Vector{bb.L, bb.B}).X, mulp(t, Vector{bb.L, bb.T}).X, mulp(t, Vector{bb.R, bb.B}).X, mulp(t, Vector{bb.R, bb.T}).X)
    && result.B == min(mulp(t, Vector{bb.L, bb.B}).Y, mulp(t, Vector{bb.L, bb.T}).Y, mulp(t, Vector{bb.R, bb.B}).Y, mulp(t, Vector{bb.R, bb.T}).Y)
    && result.T == max(mulp(t, Vector{bb.L, bb.B}).Y, mulp(t, Vector{bb.L, bb.T}).Y, mulp(t, Vector{bb.R, bb.B}).Y, mulp(t, Vector{bb.R, bb.T}).Y)

func Transform.Wrap(t, inner)
  prop C02
  requires t.a*t.d - t.c*t.b != 0
  ensures conj: forallT(p, Vector, mulp(t, mulp(result, p)) == mulp(inner, mulp(t, p)))

func Transform.Ortho(t, bb)
  prop C02
  requires bb.L < bb.R && bb.B < bb.T
  ensures lb: mulp(result, Vector{bb.L, bb.B}) == Vector{-1, -1}
  ensures rt: mulp(result, Vector{bb.R, bb.T}) == Vector{1, 1}
  ensures axes: result.b == 0 && result.c == 0

func Transform.BoneScale(t, v0, v1)
  prop C02
  ensures start: mulp(result, Vector{0, 0}) == v0
  ensures end: mulp(result, Vector{1, 0}) == v1
  ensures conformal: result.c == -result.b && result.d == result.a

func Transform.AxialScale(t, axis, pivot, scale)
  prop C02
  requires unit(axis)
  ensures fixed: mulp(result, pivot) == pivot
  ensures along: mulv(result, axis) == scale*axis
  ensures across: mulv(result, perp(axis)) == perp(axis)
