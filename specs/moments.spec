// Moments of inertia, areas and centroids (C25)

// sums over the edges 0..k-1 of the closed polygon vs[0..n-1]; edge i runs from vs[i] to vs[(i+1) mod n]
spec nextv(vs []Vector, n int, i int) Vector = vs[ite(i + 1 == n, 0, i + 1)]
rec shoe(vs []Vector, n int, k int) float64 = ite(k <= 0, 0.0, shoe(vs, n, k - 1) + cross(vs[k-1], nextv(vs, n, k - 1)))
rec girth(vs []Vector, n int, k int) float64 = ite(k <= 0, 0.0, girth(vs, n, k - 1) + vlen(vs[k-1] - nextv(vs, n, k - 1)))
rec moment1(vs []Vector, n int, k int) Vector = ite(k <= 0, Vector{0, 0}, moment1(vs, n, k - 1) + cross(vs[k-1], nextv(vs, n, k - 1))*(vs[k-1] + nextv(vs, n, k - 1)))
spec quad(a Vector, b Vector) float64 = dot(a, a) + dot(a, b) + dot(b, b)
rec moment2(vs []Vector, n int, k int) float64 = ite(k <= 0, 0.0, moment2(vs, n, k - 1) + cross(vs[k-1], nextv(vs, n, k - 1))*quad(vs[k-1], nextv(vs, n, k - 1)))
spec loopv(vs []Vector, n int, i int) Vector = vs[ite(i == n, 0, i)]
spec swirl(o Vector, v Vector) float64 = cross(o, v)*len2(v) + 3*dot(o, v)*cross(o, v) + 3*len2(o)*cross(o, v)

func MomentForBox(mass, width, height)
  prop C25
  ensures def: 12*result == mass*(width*width + height*height)

func MomentForBox2(mass, box)
  prop C25
  ensures def: let(w, box.R - box.L, let(h, box.T - box.B, let(c, Vector{(box.L + box.R)/2, (box.B + box.T)/2}, result == mass*(w*w + h*h)/12 + mass*len2(c))))

func MomentForCircle(mass, r1, r2, offset)
  prop C25
  ensures def: 2*result == mass*(r1*r1 + r2*r2 + 2*len2(offset))

func MomentForSegment(mass, a, b, r)
  prop C25
  ensures def: let(len, vlen(b - a) + 2*r, let(c, 0.5*(a + b), result == mass*((len*len + 4*r*r)/12 + len2(c))))

func AreaForCircle(r1, r2)
  prop C25
  ensures def: result == PI*abs(r1*r1 - r2*r2)

func AreaForSegment(a, b, r)
  prop C25
  ensures def: result == PI*r*r + 2*r*vlen(a - b)

func AreaForPoly(count, verts, r)
  prop C25
  requires 0 <= count && count <= len(verts)
  loop 0: invariant 0 <= i && i <= count
  loop 0: step next: verts[rem(i, count)] == nextv(verts, count, i - 1)
  loop 0: invariant area == shoe(verts, count, i) && perimeter == girth(verts, count, i)
  ensures def: result == shoe(verts, count, count)/2 + r*girth(verts, count, count) + PI*r*abs(r)

theorem third(m real, s real, c real) bool = s != 0 && c == m*(1/(3*s)) ==> 3*s*c == m

func CentroidForPoly(count, verts)
  prop C25
  requires 0 <= count && count <= len(verts) && shoe(verts, count, count) != 0
  loop 0: invariant 0 <= i && i <= count
  loop 0: step next: verts[rem(i, count)] == nextv(verts, count, i - 1)
  loop 0: invariant sum == shoe(verts, count, i) && vsum == moment1(verts, count, i)
  ensures step1: result.X == moment1(verts, count, count).X*(1/(3*shoe(verts, count, count))) && result.Y == moment1(verts, count, count).Y*(1/(3*shoe(verts, count, count)))
  use third(moment1(verts, count, count).X, shoe(verts, count, count), result.X) && third(moment1(verts, count, count).Y, shoe(verts, count, count), result.Y)
  ensures def: 3*shoe(verts, count, count)*result == moment1(verts, count, count)

theorem quotient(m real, x real, s real, r real) bool = s != 0 && r == (m*x)/(6*s) ==> 6*s*r == m*x
rec spun(vs []Vector, n int, o Vector, k int) float64 = -1*moment2(vs, n, k) - 4*dot(o, moment1(vs, n, k)) - 6*len2(o)*shoe(vs, n, k)
rec area2(vs []Vector, n int, k int) float64 = -1*shoe(vs, n, k)
theorem boxmoment(m real, o Vector, x0 real, y0 real, x1 real, y1 real, s real, m1 Vector, m2 real, r real) bool = let(a, Vector{x0, y0}, let(b, Vector{x0, y1}, let(c, Vector{x1, y1}, let(d, Vector{x1, y0}, s != 0 && s == cross(a, b) + cross(b, c) + cross(c, d) + cross(d, a)
  && m1 == cross(a, b)*(a + b) + cross(b, c)*(b + c) + cross(c, d)*(c + d) + cross(d, a)*(d + a)
  && m2 == cross(a, b)*quad(a, b) + cross(b, c)*quad(b, c) + cross(c, d)*quad(c, d) + cross(d, a)*quad(d, a)
  && 6*s*r == m*(m2 + 4*dot(o, m1) + 6*len2(o)*s) ==> 12*r == m*(len2(a - c) + 12*len2(0.5*(a + c) + o))))))

func MomentForPoly(mass, count, verts, offset, r)
  prop C25
  requires 2 <= count && count <= len(verts) && (count > 2 ==> shoe(verts, count, count) != 0)
  loop 0: invariant 0 <= i && i <= count
  loop 0: step next: verts[rem(i, count)] == nextv(verts, count, i - 1) && loopv(verts, count, i) == nextv(verts, count, i - 1) && loopv(verts, count, i - 1) == verts[i-1]
  loop 0: step shoe: shoe(verts, count, i) == shoe(verts, count, i - 1) + cross(verts[i-1], nextv(verts, count, i - 1))
  loop 0: step once: moment1(verts, count, i) == moment1(verts, count, i - 1) + cross(verts[i-1], nextv(verts, count, i - 1))*(verts[i-1] + nextv(verts, count, i - 1))
  loop 0: step twice: moment2(verts, count, i) == moment2(verts, count, i - 1) + cross(verts[i-1], nextv(verts, count, i - 1))*quad(verts[i-1], nextv(verts, count, i - 1))
  loop 0: step spun0: spun(verts, count, offset, i - 1) == -1*moment2(verts, count, i - 1) - 4*dot(offset, moment1(verts, count, i - 1)) - 6*len2(offset)*shoe(verts, count, i - 1)
  loop 0: step spun1: spun(verts, count, offset, i) == -1*moment2(verts, count, i) - 4*dot(offset, moment1(verts, count, i)) - 6*len2(offset)*shoe(verts, count, i)
  loop 0: step area0: area2(verts, count, i - 1) == -1*shoe(verts, count, i - 1)
  loop 0: step area1: area2(verts, count, i) == -1*shoe(verts, count, i)
  loop 0: invariant sum2 == cross(offset, loopv(verts, count, 0) - loopv(verts, count, i)) + area2(verts, count, i)
  loop 0: invariant sum1 == swirl(offset, verts[0]) - swirl(offset, loopv(verts, count, i)) + spun(verts, count, offset, i)
  ensures thin: count == 2 ==> let(len, vlen(verts[1] - verts[0]), let(c, 0.5*(verts[0] + verts[1]) + offset, result == mass*(len*len/12 + len2(c))))
  ensures step1: count > 2 ==> result == (mass*spun(verts, count, offset, count))/(6*area2(verts, count, count))
  use quotient(mass, spun(verts, count, offset, count), area2(verts, count, count), result)
  ensures step2: area2(verts, count, count) == -1*shoe(verts, count, count)
  ensures step3: spun(verts, count, offset, count) == -1*moment2(verts, count, count) - 4*dot(offset, moment1(verts, count, count)) - 6*len2(offset)*shoe(verts, count, count)
  ensures shifted: count > 2 ==> 6*shoe(verts, count, count)*result == mass*(moment2(verts, count, count) + 4*dot(offset, moment1(verts, count, count)) + 6*len2(offset)*shoe(verts, count, count))
  ensures stepshoe1: count == 4 ==> shoe(verts, count, 1) == cross(verts[0], verts[1])
  ensures stepmoment11: count == 4 ==> moment1(verts, count, 1) == cross(verts[0], verts[1])*(verts[0] + verts[1])
  ensures stepmoment21: count == 4 ==> moment2(verts, count, 1) == cross(verts[0], verts[1])*quad(verts[0], verts[1])
  ensures stepshoe2: count == 4 ==> shoe(verts, count, 2) == shoe(verts, count, 1) + cross(verts[1], verts[2])
  ensures stepmoment12: count == 4 ==> moment1(verts, count, 2) == moment1(verts, count, 1) + cross(verts[1], verts[2])*(verts[1] + verts[2])
  ensures stepmoment22: count == 4 ==> moment2(verts, count, 2) == moment2(verts, count, 1) + cross(verts[1], verts[2])*quad(verts[1], verts[2])
  ensures stepshoe3: count == 4 ==> shoe(verts, count, 3) == shoe(verts, count, 2) + cross(verts[2], verts[3])
  ensures stepmoment13: count == 4 ==> moment1(verts, count, 3) == moment1(verts, count, 2) + cross(verts[2], verts[3])*(verts[2] + verts[3])
  ensures stepmoment23: count == 4 ==> moment2(verts, count, 3) == moment2(verts, count, 2) + cross(verts[2], verts[3])*quad(verts[2], verts[3])
  ensures stepshoe4: count == 4 ==> shoe(verts, count, 4) == shoe(verts, count, 3) + cross(verts[3], verts[0])
  ensures stepmoment14: count == 4 ==> moment1(verts, count, 4) == moment1(verts, count, 3) + cross(verts[3], verts[0])*(verts[3] + verts[0])
  ensures stepmoment24: count == 4 ==> moment2(verts, count, 4) == moment2(verts, count, 3) + cross(verts[3], verts[0])*quad(verts[3], verts[0])
  use boxmoment(mass, offset, verts[0].X, verts[0].Y, verts[2].X, verts[2].Y, shoe(verts, count, 4), moment1(verts, count, 4), moment2(verts, count, 4), result)
  ensures box: count == 4 && verts[1] == Vector{verts[0].X, verts[2].Y} && verts[3] == Vector{verts[2].X, verts[0].Y} ==> let(d, verts[0] - verts[2], let(c, 0.5*(verts[0] + verts[2]) + offset, 12*result == mass*(len2(d) + 12*len2(c))))

func CircleShapeMassInfo(mass, radius, c)
  prop C25
  ensures fresh(result) && result.m == mass && 2*result.i == radius*radius && result.cog == c && result.area == PI*radius*radius

func NewSegmentMassInfo(mass, a, b, r)
  prop C25
  ensures fresh(result) && result.m == mass && 12*result.i == (vlen(b - a) + 2*r)*(vlen(b - a) + 2*r) + 4*r*r && result.cog == 0.5*(a + b) && result.area == PI*r*r + 2*r*vlen(a - b)

func PolyShapeMassInfo(mass, count, verts, r)
  prop C25
  requires 2 <= count && count <= len(verts) && shoe(verts, count, count) != 0
  ensures mass: fresh(result) && result.m == mass
  ensures centroid: 3*shoe(verts, count, count)*result.cog == moment1(verts, count, count)
  ensures area: result.area == shoe(verts, count, count)/2 + r*girth(verts, count, count) + PI*r*abs(r)
  ensures moment: count > 2 ==> let(o, -1*result.cog, 6*shoe(verts, count, count)*result.i == moment2(verts, count, count) + 4*dot(o, moment1(verts, count, count)) + 6*len2(o)*shoe(verts, count, count))
