func Vector.Equal(v, o)
  prop C01
  ensures eq: result == (v.X == o.X && v.Y == o.Y)

func Vector.Add(v, o)
  prop C01
  ensures add: result == Vector{v.X + o.X, v.Y + o.Y}

func Vector.Sub(v, o)
  option noalloc
  prop C01
  ensures sub: result == Vector{v.X - o.X, v.Y - o.Y}

func Vector.Neg(v)
  prop C01
  ensures neg: result == Vector{-v.X, -v.Y}

func Vector.Mult(v, s)
  option noalloc
  prop C01
  ensures mult: result == Vector{v.X*s, v.Y*s}

func Vector.Dot(v, o)
  prop C01
  ensures dot: result == v.X*o.X + v.Y*o.Y

func Vector.Cross(v, o)
  prop C01
  ensures cross: result == v.X*o.Y - v.Y*o.X

func Vector.Perp(v)
  prop C01
  ensures perp: result == Vector{-v.Y, v.X}

func Vector.ReversePerp(v)
  prop C01
  ensures rperp: result == Vector{v.Y, -v.X}

func Vector.Project(v, o)
  prop C01
  requires o.X != 0 || o.Y != 0
  ensures proj: result == (dot(v, o) / dot(o, o)) * o
  ensures onaxis: cross(result, o) == 0
  ensures residue: dot(v - result, o) == 0

func ForAngle(a)
  prop C01
  ensures angle: result == Vector{cos(a), sin(a)}
  ensures unit: result.X*result.X + result.Y*result.Y == 1

func Vector.ToAngle(v)
  prop C01
  ensures angle: result == atan2(v.Y, v.X)

func Vector.Rotate(v, o)
  prop C01
  ensures rot: result == Vector{v.X*o.X - v.Y*o.Y, v.X*o.Y + v.Y*o.X}
  ensures length: len2(result) == len2(v) * len2(o)

func Vector.Unrotate(v, o)
  prop C01
  ensures unrot: result == Vector{v.X*o.X + v.Y*o.Y, v.Y*o.X - v.X*o.Y}
  ensures inverse: unit(o) ==> (rotate(result, o) == v && unrotate(rotate(v, o), o) == v)

func Vector.LengthSq(v)
  prop C01
  ensures len2: result == v.X*v.X + v.Y*v.Y

func Vector.Length(v)
  prop C01
  ensures len: result == sqrt(v.X*v.X + v.Y*v.Y)
  ensures sq: result >= 0 && result*result == v.X*v.X + v.Y*v.Y

func Vector.Lerp(v, o, t)
  prop C01
  ensures lerp: result == (1-t)*v + t*o

func Lerp(f1, f2, t)
  prop C01
  ensures lerp: result == f1*(1-t) + f2*t

func Vector.Normalize(v)
  prop C01
  ensures norm: result == (1/(sqrt(v.X*v.X + v.Y*v.Y) + 1e-15)) * v
  ensures dir: (vlen(v) + 1e-15)*result.X == v.X && (vlen(v) + 1e-15)*result.Y == v.Y
  ensures short: len2(result) <= 1
  ensures nearunit: vlen(v) >= 1e-5 ==> len2(result) >= 1 - 1e-9

func Clamp(f, lo, hi)
  prop C01
  requires lo <= hi
  ensures clamp: result == min(max(f, lo), hi)
  ensures bound: lo <= result && result <= hi && (lo <= f && f <= hi ==> result == f)

func Clamp01(f)
  prop C01
  ensures clamp: result == min(max(f, 0), 1)
  ensures bound: 0 <= result && result <= 1 && (0 <= f && f <= 1 ==> result == f)

func LerpConst(f1, f2, d)
  prop C01
  requires d >= 0
  ensures val: result == f1 + min(max(f2 - f1, -d), d)
  ensures step: abs(result - f1) <= d && (abs(f2 - f1) <= d ==> result == f2)
  ensures toward: (f1 <= f2 ==> f1 <= result && result <= f2) && (f2 <= f1 ==> f2 <= result && result <= f1)

func Vector.SLerp(v, o, t)
  prop C01
  ensures start: t == 0 ==> result == v
  ensures end: t == 1 ==> result == o

func Vector.Clamp(v, length)
  prop C01
  requires length >= 0
  ensures bound: len2(result) <= length*length
  ensures keep: len2(v) <= length*length ==> result == v
  ensures dir: cross(result, v) == 0 && dot(result, v) >= 0
  ensures full: len2(v) > length*length ==> result == (length/(vlen(v) + 1e-15)) * v

func Vector.LerpConst(v, o, d)
  prop C01
  requires d >= 0
  ensures step: len2(result - v) <= d*d
  ensures arrive: len2(o - v) <= d*d ==> result == o
  ensures toward: cross(result - v, o - v) == 0 && dot(result - v, o - v) >= 0

func Vector.Distance(v, o)
  prop C01
  ensures dist: result == sqrt((v.X-o.X)*(v.X-o.X) + (v.Y-o.Y)*(v.Y-o.Y))

func Vector.DistanceSq(v, o)
  prop C01
  ensures dist: result == (v.X-o.X)*(v.X-o.X) + (v.Y-o.Y)*(v.Y-o.Y)

func Vector.Near(v, o, d)
  prop C01
  ensures near: result == (len2(v - o) < d*d)

func Vector.PointGreater(v, b, c)
  prop C01
  ensures side: result == (cross(b - v, (v - c) + (b - c)) < 0)

rec checked(v Vector, v1 Vector, p Vector, n Vector) bool = dot(p, n) <= dot(v, n) || dot(p, n) <= dot(v1, n)

func Vector.CheckAxis(v, v1, p, n)
  prop C01 C32
  ensures ax: result == checked(v, v1, p, n)

rec closestt(v Vector, b Vector) float64 = -clampf(dot(b - v, v + b)/len2(b - v), -1, 1)

func Vector.ClosestT(v, b)
  prop C01 C32
  option nodef
  ensures t: v != b ==> result == closestt(v, b)
  ensures range: v != b ==> -1 <= result && result <= 1
  ensures middle: v != b && -1 < result && result < 1 ==> result*len2(b - v) == -dot(b - v, v + b)
  ensures first: v != b && result == -1 ==> dot(v, b - v) >= 0
  ensures last: v != b && result == 1 ==> dot(b, v - b) >= 0

func Vector.LerpT(v, b, t)
  prop C01
  ensures lerp: result == (0.5 - 0.5*t)*v + (0.5 + 0.5*t)*b

func Vector.ClosestDist(v, b)
  prop C01
  ensures lower: v != b ==> forallT(s, real, 0 <= s && s <= 1 ==> result <= len2((1-s)*v + s*b))

func Vector.ClosestPointOnSegment(v, a, b)
  prop C01
  ensures formula: result == closest(v, a, b)
  ensures onseg: existsT(s, real, 0 <= s && s <= 1 && result == (1-s)*b + s*a)
  ensures nearest: forallT(s, real, 0 <= s && s <= 1 ==> len2(v - result) <= len2(v - ((1-s)*b + s*a)))

func Vector.Clone(v)
  prop C01
  ensures same: result == v

func Vector.SlerpConst(v, o, a)
  prop C01
  requires a >= 0
  ensures arrive: a >= PI ==> result == o
