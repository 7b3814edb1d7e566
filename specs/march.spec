// Marching squares (C26)

// the segments handed to the segment callback, in order
ghost map nseg(k) int
ghost map segfx(k) float64
ghost map segfy(k) float64
ghost map segtx(k) float64
ghost map segty(k) float64

spec sfrom(k int) Vector = Vector{segfx(k), segfy(k)}
spec sto(k int) Vector = Vector{segtx(k), segty(k)}

functype MarchSegmentFunc(v0, v1, segmentData)
  modifies *
  ensures count: nseg(0) == old(nseg(0)) + 1
  ensures logged: sfrom(old(nseg(0))) == v0 && sto(old(nseg(0))) == v1
  ensures kept: forallT(k, int, k < old(nseg(0)) ==> sfrom(k) == old(sfrom(k)) && sto(k) == old(sto(k)))

rec mid(x0 float64, x1 float64, s0 float64, s1 float64, t float64) float64 = x0 + (x1 - x0)*(t - s0)/(s1 - s0)

func midlerp(x0, x1, s0, s1, t)
  prop C26
  requires (s0 > t) != (s1 > t)
  ensures value: result == mid(x0, x1, s0, s1, t)
  lemma step1: s0 > t ==> (t - s0)/(s1 - s0) > 0 && (t - s0)/(s1 - s0) <= 1
  lemma step2: s1 > t ==> (t - s0)/(s1 - s0) >= 0 && (t - s0)/(s1 - s0) < 1
  ensures above: x0 < x1 && s0 > t ==> x0 < result && result <= x1 && ((result == x1) == (s1 == t))
  ensures below: x0 < x1 && s1 > t ==> x0 <= result && result < x1 && ((result == x0) == (s0 == t))

func seg(v0, v1, marchSegment, segmentData)
  prop C26
  requires nseg(0) >= 0
  modifies *
  ensures drawn: v0 != v1 ==> nseg(0) == old(nseg(0)) + 1 && sfrom(old(nseg(0))) == v1 && sto(old(nseg(0))) == v0
  ensures empty: v0 == v1 ==> nseg(0) == old(nseg(0))
  ensures kept: forallT(k, int, k < old(nseg(0)) ==> sfrom(k) == old(sfrom(k)) && sto(k) == old(sto(k)))

func segs(a, b, c, marchSegment, segmentData)
  prop C26
  requires nseg(0) >= 0 && a != b && b != c
  modifies *
  ensures drawn: nseg(0) == old(nseg(0)) + 2 && sfrom(old(nseg(0))) == c && sto(old(nseg(0))) == b && sfrom(old(nseg(0)) + 1) == b && sto(old(nseg(0)) + 1) == a
  ensures kept: forallT(k, int, k < old(nseg(0)) ==> sfrom(k) == old(sfrom(k)) && sto(k) == old(sto(k)))

// where the threshold crosses the four edges of a cell
spec xbot(t float64, a float64, b float64, x0 float64, x1 float64, y0 float64, p Vector) bool = (a > t) != (b > t) && p.X == mid(x0, x1, a, b, t) && p.Y == y0
spec xleft(t float64, a float64, c float64, x0 float64, y0 float64, y1 float64, p Vector) bool = (a > t) != (c > t) && p.X == x0 && p.Y == mid(y0, y1, a, c, t)
spec onedge(t float64, a float64, b float64, c float64, d float64, x0 float64, x1 float64, y0 float64, y1 float64, p Vector) bool =
   xbot(t, a, b, x0, x1, y0, p) || xbot(t, c, d, x0, x1, y1, p) || xleft(t, a, c, x0, y0, y1, p) || xleft(t, b, d, x1, y0, y1, p)
spec side(k int, x float64, y float64) float64 = cross(sto(k) - sfrom(k), Vector{x, y} - sfrom(k))
spec right(k int, v float64, t float64, x float64, y float64) bool = ite(v > t, side(k, x, y) > 0, side(k, x, y) <= 0)
spec nabove(t float64, a float64, b float64, c float64, d float64) int = ite(a > t, 1, 0) + ite(b > t, 1, 0) + ite(c > t, 1, 0) + ite(d > t, 1, 0)
spec saddle(t float64, a float64, b float64, c float64, d float64) bool = nabove(t, a, b, c, d) == 2 && (a > t) == (d > t)

func MarchCellSoft(t, a, b, c, d, x0, x1, y0, y1, marchSegment, segmentData)
  prop C26
  requires x0 < x1 && y0 < y1 && nseg(0) >= 0
  modifies *
  ensures none: nabove(t, a, b, c, d) == 0 || nabove(t, a, b, c, d) == 4 ==> nseg(0) == old(nseg(0))
  ensures one: nabove(t, a, b, c, d) == 1 ==> nseg(0) == old(nseg(0)) + 1
  ensures two: nabove(t, a, b, c, d) == 2 ==> nseg(0) == old(nseg(0)) + ite(saddle(t, a, b, c, d), 2, 1)
  ensures stepthree: nabove(t, a, b, c, d) == 3 ==> nseg(0) == old(nseg(0)) + ite(a == t || b == t || c == t || d == t, 0, 1)
  ensures ends: forall(k, old(nseg(0)), nseg(0), onedge(t, a, b, c, d, x0, x1, y0, y1, sfrom(k)) && onedge(t, a, b, c, d, x0, x1, y0, y1, sto(k)) && sfrom(k) != sto(k))
  ensures step3d: nabove(t, a, b, c, d) == 3 && d < t ==> let(k, old(nseg(0)), segfx(k) == x1 && segfy(k) > y0 - 0 && segfy(k) < y1 && segty(k) == y1 && segtx(k) > x0 - 0 && segtx(k) < x1)
  ensures step3c: nabove(t, a, b, c, d) == 3 && c < t ==> let(k, old(nseg(0)), segtx(k) == x0 && segty(k) > y0 && segty(k) < y1 && segfy(k) == y1 && segfx(k) > x0 && segfx(k) < x1)
  ensures step3dside: nabove(t, a, b, c, d) == 3 && d < t ==> let(k, old(nseg(0)), side(k, x0, y0) > 0 && side(k, x1, y0) > 0 && side(k, x0, y1) > 0 && side(k, x1, y1) <= 0)
  ensures step3cside: nabove(t, a, b, c, d) == 3 && c < t ==> let(k, old(nseg(0)), side(k, x0, y0) > 0 && side(k, x1, y0) > 0 && side(k, x0, y1) <= 0 && side(k, x1, y1) > 0)
  ensures sidea: !saddle(t, a, b, c, d) && nseg(0) > old(nseg(0)) ==> right(old(nseg(0)), a, t, x0, y0)
  ensures sideb: !saddle(t, a, b, c, d) && nseg(0) > old(nseg(0)) ==> right(old(nseg(0)), b, t, x1, y0)
  ensures sidec: !saddle(t, a, b, c, d) && nseg(0) > old(nseg(0)) ==> right(old(nseg(0)), c, t, x0, y1)
  ensures sided: !saddle(t, a, b, c, d) && nseg(0) > old(nseg(0)) ==> right(old(nseg(0)), d, t, x1, y1)
  ensures saddlebelow: saddle(t, a, b, c, d) ==> forall(k, old(nseg(0)), nseg(0), (a <= t ==> side(k, x0, y0) <= 0 && side(k, x1, y1) <= 0) && (b <= t ==> side(k, x1, y0) <= 0 && side(k, x0, y1) <= 0))
  ensures saddleabove: saddle(t, a, b, c, d) ==> let(k, old(nseg(0)), ite(a > t, side(k, x0, y0) > 0 && side(k, x1, y1) <= 0 && side(k + 1, x0, y0) <= 0 && side(k + 1, x1, y1) > 0,
     side(k, x1, y0) > 0 && side(k, x0, y1) <= 0 && side(k + 1, x1, y0) <= 0 && side(k + 1, x0, y1) > 0))
  ensures kept: forallT(k, int, k < old(nseg(0)) ==> sfrom(k) == old(sfrom(k)) && sto(k) == old(sto(k)))

// in a hard cell every corner owns its quadrant; the segments run along the borders between quadrants
spec vert(k int, xm float64, lo float64, hi float64) bool = segfx(k) == xm && segtx(k) == xm && min(segfy(k), segty(k)) <= lo && hi <= max(segfy(k), segty(k))
spec horiz(k int, ym float64, lo float64, hi float64) bool = segfy(k) == ym && segty(k) == ym && min(segfx(k), segtx(k)) <= lo && hi <= max(segfx(k), segtx(k))
spec crossarm(k int, x0 float64, xm float64, x1 float64, y0 float64, ym float64, y1 float64) bool =
   segfx(k) == xm && segtx(k) == xm && segfy(k) != segty(k) && (segfy(k) == y0 || segfy(k) == ym || segfy(k) == y1) && (segty(k) == y0 || segty(k) == ym || segty(k) == y1)
   || segfy(k) == ym && segty(k) == ym && segfx(k) != segtx(k) && (segfx(k) == x0 || segfx(k) == xm || segfx(k) == x1) && (segtx(k) == x0 || segtx(k) == xm || segtx(k) == x1)

func MarchCellHard(t, a, b, c, d, x0, x1, y0, y1, marchSegment, segmentData)
  prop C26
  requires x0 < x1 && y0 < y1 && nseg(0) >= 0
  modifies *
  ensures count: nseg(0) == old(nseg(0)) + ite(nabove(t, a, b, c, d) == 0 || nabove(t, a, b, c, d) == 4, 0, ite(saddle(t, a, b, c, d), 4, ite(nabove(t, a, b, c, d) == 2, 1, 2)))
  ensures borders: forall(k, old(nseg(0)), nseg(0), crossarm(k, x0, (x0+x1)/2, x1, y0, (y0+y1)/2, y1))
  ensures bottom: forall(k, old(nseg(0)), nseg(0), vert(k, (x0+x1)/2, y0, (y0+y1)/2) ==> (a > t) != (b > t) && ite(a > t, segfy(k) < segty(k), segfy(k) > segty(k)))
  ensures top: forall(k, old(nseg(0)), nseg(0), vert(k, (x0+x1)/2, (y0+y1)/2, y1) ==> (c > t) != (d > t) && ite(c > t, segfy(k) < segty(k), segfy(k) > segty(k)))
  ensures left: forall(k, old(nseg(0)), nseg(0), horiz(k, (y0+y1)/2, x0, (x0+x1)/2) ==> (a > t) != (c > t) && ite(c > t, segfx(k) < segtx(k), segfx(k) > segtx(k)))
  ensures rightarm: forall(k, old(nseg(0)), nseg(0), horiz(k, (y0+y1)/2, (x0+x1)/2, x1) ==> (b > t) != (d > t) && ite(d > t, segfx(k) < segtx(k), segfx(k) > segtx(k)))
  ensures bottomdrawn: (a > t) != (b > t) ==> exists(k, old(nseg(0)), nseg(0), vert(k, (x0+x1)/2, y0, (y0+y1)/2))
  ensures topdrawn: (c > t) != (d > t) ==> exists(k, old(nseg(0)), nseg(0), vert(k, (x0+x1)/2, (y0+y1)/2, y1))
  ensures leftdrawn: (a > t) != (c > t) ==> exists(k, old(nseg(0)), nseg(0), horiz(k, (y0+y1)/2, x0, (x0+x1)/2))
  ensures rightdrawn: (b > t) != (d > t) ==> exists(k, old(nseg(0)), nseg(0), horiz(k, (y0+y1)/2, (x0+x1)/2, x1))
  ensures kept: forallT(k, int, k < old(nseg(0)) ==> sfrom(k) == old(sfrom(k)) && sto(k) == old(sto(k)))

// the samples taken, and the cells traced, in order
ghost map nsamp(k) int
ghost map sampx(k) float64
ghost map sampy(k) float64
ghost map sampv(k) float64
ghost map ncell(k) int
ghost map cella(k) float64
ghost map cellb(k) float64
ghost map cellc(k) float64
ghost map celld(k) float64
ghost map cellx0(k) float64
ghost map cellx1(k) float64
ghost map celly0(k) float64
ghost map celly1(k) float64
ghost map cellt(k) float64
// where each row of samples, and each row of cells, starts in those lists
ghost map samprow(j) int
ghost map cellrow(j) int

functype MarchSampleFunc(point)
  modifies nsamp(0), sampx(nsamp(0)), sampy(nsamp(0)), sampv(nsamp(0))
  ensures count: nsamp(0) == old(nsamp(0)) + 1
  ensures logged: sampx(old(nsamp(0))) == point.X && sampy(old(nsamp(0))) == point.Y && sampv(old(nsamp(0))) == result

functype MarchCellFunc(t, a, b, c, d, x0, x1, y0, y1, marchSegment, segmentData)
  requires x0 < x1 && y0 < y1
  modifies ncell(0), cellt(ncell(0)), cella(ncell(0)), cellb(ncell(0)), cellc(ncell(0)), celld(ncell(0)), cellx0(ncell(0)), cellx1(ncell(0)), celly0(ncell(0)), celly1(ncell(0))
  ensures count: ncell(0) == old(ncell(0)) + 1
  ensures logged: let(k, old(ncell(0)), cellt(k) == t && cella(k) == a && cellb(k) == b && cellc(k) == c && celld(k) == d && cellx0(k) == x0 && cellx1(k) == x1 && celly0(k) == y0 && celly1(k) == y1)

rec gridpos(lo float64, hi float64, i int, n int) float64 = lo + (hi - lo)*(real(i)/real(n - 1))

spec samprowok(bb BB, xs int, ys int, j int, r int, hi int) bool =
   forall(i, 0, hi, sampx(r + i) == gridpos(bb.L, bb.R, i, xs) && sampy(r + i) == gridpos(bb.B, bb.T, j, ys))
spec celltop(t float64, r0 int, k int, i int) bool = cellt(k) == t && cella(k) == sampv(r0 + i) && cellb(k) == sampv(r0 + i + 1)
spec cellbot(r1 int, k int, i int) bool = cellc(k) == sampv(r1 + i) && celld(k) == sampv(r1 + i + 1)
spec cellx(bb BB, xs int, k int, i int) bool = cellx0(k) == gridpos(bb.L, bb.R, i, xs) && cellx1(k) == gridpos(bb.L, bb.R, i + 1, xs)
spec celly(bb BB, ys int, k int, j int) bool = celly0(k) == gridpos(bb.B, bb.T, j, ys) && celly1(k) == gridpos(bb.B, bb.T, j + 1, ys)
spec rowsto(xs int, j int) bool = forall(q, 0, j, samprow(q + 1) == samprow(q) + xs && cellrow(q + 1) == cellrow(q) + xs - 1)
spec orderto(xs int, j int) bool = forall(q, 0, j, samprow(q) + xs <= samprow(j) && cellrow(q) + xs - 1 <= cellrow(j))
spec posto(bb BB, xs int, ys int, j int) bool = forall(q, 0, j + 1, samprowok(bb, xs, ys, q, samprow(q), xs))
spec topto(xs int, t float64, j int) bool = forall(q, 0, j, forall(i, 0, xs - 1, celltop(t, samprow(q), cellrow(q) + i, i)))
spec botto(xs int, j int) bool = forall(q, 0, j, forall(i, 0, xs - 1, cellbot(samprow(q) + xs, cellrow(q) + i, i)))
spec xto(bb BB, xs int, j int) bool = forall(q, 0, j, forall(i, 0, xs - 1, cellx(bb, xs, cellrow(q) + i, i)))
spec yto(bb BB, xs int, ys int, j int) bool = forall(q, 0, j, forall(i, 0, xs - 1, celly(bb, ys, cellrow(q) + i, q)))

func MarchCells(bb, xSamples, ySamples, t, marchSegment, marchSample, marchCell)
  prop C26
  requires xSamples >= 2 && ySamples >= 2 && bb.L < bb.R && bb.B < bb.T
  requires samprow(0) == nsamp(0) && cellrow(0) == ncell(0)
  modifies ghostall(nsamp), ghostall(sampx), ghostall(sampy), ghostall(sampv), ghostall(samprow), ghostall(cellrow)
  modifies ghostall(ncell), ghostall(cellt), ghostall(cella), ghostall(cellb), ghostall(cellc), ghostall(celld), ghostall(cellx0), ghostall(cellx1), ghostall(celly0), ghostall(celly1)
  ensures start: samprow(0) == old(nsamp(0)) && cellrow(0) == old(ncell(0))
  ensures allsamples: nsamp(0) == samprow(ySamples - 1) + xSamples
  ensures allcells: ncell(0) == cellrow(ySamples - 1)
  ensures rows: rowsto(xSamples, ySamples - 1)
  ensures positions: posto(bb, xSamples, ySamples, ySamples - 1)
  ensures cellstop: topto(xSamples, t, ySamples - 1)
  ensures cellsbot: botto(xSamples, ySamples - 1)
  ensures cellsx: xto(bb, xSamples, ySamples - 1)
  ensures cellsy: yto(bb, xSamples, ySamples, ySamples - 1)
  loop 0: invariant range: 0 <= i && i <= xSamples
  loop 0: invariant buf: len(buffer) == xSamples && off(buffer) == 0
  loop 0: invariant count: nsamp(0) == samprow(0) + i && ncell(0) == cellrow(0)
  loop 0: invariant start: samprow(0) == old(nsamp(0)) && cellrow(0) == old(ncell(0))
  loop 0: invariant pos: samprowok(bb, xSamples, ySamples, 0, samprow(0), i)
  loop 0: invariant vals: forall(k, 0, i, buffer[k] == sampv(samprow(0) + k))
  loop 1: ghost cellrow(j) := ncell(0)
  loop 1: ghost samprow(j) := nsamp(0) - xSamples
  loop 1: step sametop: forall(q, 0, j, forall(i, 0, xSamples - 1, q < j - 1 ==> celltop(t, samprow(q), cellrow(q) + i, i)))
  loop 1: step guardtop: forall(q, 0, j, forall(i, 0, xSamples - 1, q == j - 1 ==> celltop(t, samprow(q), cellrow(q) + i, i)))
  loop 1: step samebot: forall(q, 0, j, forall(i, 0, xSamples - 1, q < j - 1 ==> cellbot(samprow(q) + xSamples, cellrow(q) + i, i)))
  loop 1: step guardbot: forall(q, 0, j, forall(i, 0, xSamples - 1, q == j - 1 ==> cellbot(samprow(q) + xSamples, cellrow(q) + i, i)))
  loop 1: invariant range: 0 <= j && j <= ySamples - 1
  loop 1: invariant buf: len(buffer) == xSamples
  loop 1: invariant count: nsamp(0) == samprow(j) + xSamples && ncell(0) == cellrow(j)
  loop 1: invariant start: samprow(0) == old(nsamp(0)) && cellrow(0) == old(ncell(0))
  loop 1: invariant rows: rowsto(xSamples, j)
  loop 1: invariant order: orderto(xSamples, j)
  loop 1: invariant posall: posto(bb, xSamples, ySamples, j)
  loop 1: invariant alltop: topto(xSamples, t, j)
  loop 1: invariant allbot: botto(xSamples, j)
  loop 1: invariant allx: xto(bb, xSamples, j)
  loop 1: invariant ally: yto(bb, xSamples, ySamples, j)
  loop 1: invariant vals: forall(k, 0, xSamples, buffer[k] == sampv(samprow(j) + k))
  loop 2: invariant range: 0 <= i && i <= xSamples - 1
  loop 2: invariant buf: len(buffer) == xSamples
  loop 2: invariant count: nsamp(0) == samprow(j) + xSamples + i + 1 && ncell(0) == cellrow(j) + i
  loop 2: invariant rows: rowsto(xSamples, j)
  loop 2: invariant order: orderto(xSamples, j)
  loop 2: invariant posall: posto(bb, xSamples, ySamples, j)
  loop 2: invariant alltop: topto(xSamples, t, j)
  loop 2: invariant allbot: botto(xSamples, j)
  loop 2: invariant allx: xto(bb, xSamples, j)
  loop 2: invariant ally: yto(bb, xSamples, ySamples, j)
  loop 2: invariant pos: samprowok(bb, xSamples, ySamples, j + 1, samprow(j) + xSamples, i + 1)
  loop 2: invariant top: forall(p, 0, i, celltop(t, samprow(j), cellrow(j) + p, p))
  loop 2: invariant bot: forall(p, 0, i, cellbot(samprow(j) + xSamples, cellrow(j) + p, p))
  loop 2: invariant x: forall(p, 0, i, cellx(bb, xSamples, cellrow(j) + p, p))
  loop 2: invariant y: forall(p, 0, i, celly(bb, ySamples, cellrow(j) + p, j))
  loop 2: invariant held: b == sampv(samprow(j) + i) && d == sampv(samprow(j) + xSamples + i)
  loop 2: invariant ahead: forall(k, i + 1, xSamples, buffer[k] == sampv(samprow(j) + k))
  loop 2: invariant behind: forall(k, 0, i + 1, buffer[k] == sampv(samprow(j) + xSamples + k))
