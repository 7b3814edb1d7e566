// Polylines (C27)

func Next(i, count)
  prop C27
  requires 0 <= i && i < count
  lemma step1: i + 1 < count ==> rem(i + 1, count) == i + 1
  ensures next: result == ite(i + 1 == count, 0, i + 1)

func PolyLine.Push(pl, v)
  prop C27
  modifies pl.Verts, elems(pl.Verts)
  ensures result: result == pl
  ensures pushed: len(pl.Verts) == old(len(pl.Verts)) + 1 && pl.Verts[old(len(pl.Verts))] == v
  ensures kept: forall(k, 0, old(len(pl.Verts)), pl.Verts[k] == old(pl.Verts[k]))
  ensures head: old(len(pl.Verts)) > 0 ==> pl.Verts[0] == old(pl.Verts[0])
  ensures place: arr(pl.Verts) == old(arr(pl.Verts)) || fresh(pl.Verts)

func PolyLine.Enqueue(pl, v)
  prop C27
  modifies pl.Verts
  ensures result: result == pl
  ensures pushed: len(pl.Verts) == old(len(pl.Verts)) + 1 && pl.Verts[0] == v && fresh(pl.Verts)
  ensures kept: forall(k, 0, old(len(pl.Verts)), pl.Verts[k + 1] == old(pl.Verts[k]))

func PolyLine.IsClosed(pl)
  prop C27
  ensures closed: result == (len(pl.Verts) > 1 && pl.Verts[0] == pl.Verts[len(pl.Verts) - 1])

spec endsat(p *PolyLineSet, i int, v Vector) bool = len(p.Lines[i].Verts) > 0 && p.Lines[i].Verts[len(p.Lines[i].Verts) - 1] == v
spec startsat(p *PolyLineSet, i int, v Vector) bool = len(p.Lines[i].Verts) > 0 && p.Lines[i].Verts[0] == v
// lines are distinct and do not share their vertices
spec lineset(p *PolyLineSet) bool = forall(i, 0, len(p.Lines), p.Lines[i] != nil && allocated(p.Lines[i]) && allocated(p.Lines[i].Verts) && len(p.Lines[i].Verts) > 0)
   && forall(i, 0, len(p.Lines), forall(j, 0, len(p.Lines), i != j ==> p.Lines[i] != p.Lines[j] && arr(p.Lines[i].Verts) != arr(p.Lines[j].Verts)))

func PolyLineSet.FindEnds(pls, v)
  prop C27
  requires lineset(pls)
  loop 0: invariant forall(k, 0, LI, !endsat(pls, k, v))
  ensures range: -1 <= result && result < len(pls.Lines)
  ensures first: forall(k, 0, ite(result < 0, len(pls.Lines), result), !endsat(pls, k, v))
  ensures found: result >= 0 ==> endsat(pls, result, v)

func PolyLineSet.FindStarts(pls, v)
  prop C27
  requires lineset(pls)
  loop 0: invariant forall(k, 0, LI, !startsat(pls, k, v))
  ensures range: -1 <= result && result < len(pls.Lines)
  ensures first: forall(k, 0, ite(result < 0, len(pls.Lines), result), !startsat(pls, k, v))
  ensures found: result >= 0 ==> startsat(pls, result, v)

func PolyLineSet.Push(pls, v)
  prop C27
  modifies pls.Lines, elems(pls.Lines)
  ensures pushed: len(pls.Lines) == old(len(pls.Lines)) + 1 && pls.Lines[old(len(pls.Lines))] == v
  ensures kept: forall(k, 0, old(len(pls.Lines)), pls.Lines[k] == old(pls.Lines[k]))

func PolyLineSet.Join(pls, before, after)
  prop C27
  requires lineset(pls) && 0 <= before && before < len(pls.Lines) && 0 <= after && after < len(pls.Lines) && before != after
  modifies pls.Lines, elems(pls.Lines), pls.Lines[before].Verts, elems(pls.Lines[before].Verts)
  ensures count: len(pls.Lines) == old(len(pls.Lines)) - 1
  ensures dropped: forall(k, 0, len(pls.Lines), pls.Lines[k] == old(pls.Lines[ite(k < after, k, k + 1)]))
  ensures joined: let(l, old(pls.Lines[before]), let(n, old(len(pls.Lines[before].Verts)), len(l.Verts) == n + old(len(pls.Lines[after].Verts))
     && forall(k, 0, n, l.Verts[k] == old(pls.Lines[before].Verts[k]))
     && forall(k, 0, old(len(pls.Lines[after].Verts)), l.Verts[n + k] == old(pls.Lines[after].Verts[k]))))
  ensures rest: forall(i, 0, old(len(pls.Lines)), i != before ==> let(l, old(pls.Lines[i]), same(l.Verts, old(pls.Lines[i].Verts)) && forall(k, 0, len(l.Verts), l.Verts[k] == old(pls.Lines[i].Verts[k]))))
  ensures place: let(l, old(pls.Lines[before]), arr(l.Verts) == old(arr(pls.Lines[before].Verts)) || fresh(l.Verts))
  ensures set: lineset(pls)

spec firstend(p *PolyLineSet, b int, v Vector) bool = endsat(p, b, v) && forall(k, 0, b, !endsat(p, k, v))
spec firststart(p *PolyLineSet, b int, v Vector) bool = startsat(p, b, v) && forall(k, 0, b, !startsat(p, k, v))

func PolyLineCollectSegment(v0, v1, pls)
  prop C27
  requires pls != nil && lineset(pls)
  modifies pls.Lines, elems(pls.Lines), all(PolyLine.Verts), allelems(Vector)
  ensures set: lineset(pls)
  // nothing to attach to: a new line
  ensures new: forall(k, 0, old(len(pls.Lines)), old(!endsat(pls, k, v0)) && old(!startsat(pls, k, v1))) ==>
     len(pls.Lines) == old(len(pls.Lines)) + 1 && let(l, pls.Lines[old(len(pls.Lines))], len(l.Verts) == 2 && l.Verts[0] == v0 && l.Verts[1] == v1)
     && forall(k, 0, old(len(pls.Lines)), pls.Lines[k] == old(pls.Lines[k]))
  // an existing line ends where the segment starts: it grows at its end (closing itself when it also starts there)
  ensures extended: forall(b, 0, old(len(pls.Lines)), old(firstend(pls, b, v0)) && (forall(k, 0, old(len(pls.Lines)), old(!startsat(pls, k, v1))) || old(firststart(pls, b, v1))) ==>
     len(pls.Lines) == old(len(pls.Lines)) && let(n, old(len(pls.Lines[b].Verts)), let(l, old(pls.Lines[b]), len(l.Verts) == n + 1 && l.Verts[n] == v1 && forall(k, 0, n, l.Verts[k] == old(pls.Lines[b].Verts[k])))))
  // an existing line starts where the segment ends: it grows at its start
  ensures prepended: forall(a, 0, old(len(pls.Lines)), old(firststart(pls, a, v1)) && forall(k, 0, old(len(pls.Lines)), old(!endsat(pls, k, v0))) ==>
     len(pls.Lines) == old(len(pls.Lines)) && let(n, old(len(pls.Lines[a].Verts)), let(l, old(pls.Lines[a]), len(l.Verts) == n + 1 && l.Verts[0] == v0 && forall(k, 0, n, l.Verts[k + 1] == old(pls.Lines[a].Verts[k])))))
  // the segment joins two lines
  ensures joined: forall(b, 0, old(len(pls.Lines)), forall(a, 0, old(len(pls.Lines)), a != b && old(firstend(pls, b, v0)) && old(firststart(pls, a, v1)) ==>
     len(pls.Lines) == old(len(pls.Lines)) - 1 && forall(k, 0, len(pls.Lines), pls.Lines[k] == old(pls.Lines[ite(k < a, k, k + 1)]))
     && let(n, old(len(pls.Lines[b].Verts)), let(l, old(pls.Lines[b]), len(l.Verts) == n + old(len(pls.Lines[a].Verts))
        && forall(k, 0, n, l.Verts[k] == old(pls.Lines[b].Verts[k])) && forall(k, 0, old(len(pls.Lines[a].Verts)), l.Verts[n + k] == old(pls.Lines[a].Verts[k]))))))
  ensures order: !(exists(b, 0, old(len(pls.Lines)), old(firstend(pls, b, v0))) && exists(a, 0, old(len(pls.Lines)), old(firststart(pls, a, v1)) && !old(firstend(pls, a, v0)))) ==> forall(k, 0, old(len(pls.Lines)), pls.Lines[k] == old(pls.Lines[k]))
  ensures rest: forall(i, 0, old(len(pls.Lines)), old(!firstend(pls, i, v0)) && old(!firststart(pls, i, v1)) ==> let(l, old(pls.Lines[i]), same(l.Verts, old(pls.Lines[i].Verts)) && forall(k, 0, len(l.Verts), l.Verts[k] == old(pls.Lines[i].Verts[k]))))

// how far index i lies after index s on a ring of n
spec ringoff(s int, i int, n int) int = ite(i >= s, i - s, i - s + n)

theorem triangle(a Vector, b Vector, c Vector) bool = vlen(c - a) <= vlen(b - a) + vlen(b - c)

func PolyLine.IsShort(pl, count, start, end, min)
  prop C27
  requires 0 <= start && start < count && 0 <= end && end < count && count <= len(pl.Verts)
  loop 0: invariant range: 0 <= i && i < count && ringoff(start, i, count) <= ringoff(start, end, count)
  loop 0: use triangle(pl.Verts[start], pl.Verts[ite(i == 0, count - 1, i - 1)], pl.Verts[i])
  loop 0: step last: vlen(pl.Verts[i] - pl.Verts[start]) <= length
  loop 0: step cases: forall(k, 0, count, ringoff(start, k, count) <= ringoff(start, i, count) ==> k == i || ringoff(start, k, count) <= ringoff(start, ite(i == 0, count - 1, i - 1), count))
  loop 0: invariant length: length >= 0
  loop 0: invariant near: forall(k, 0, count, ringoff(start, k, count) <= ringoff(start, i, count) ==> vlen(pl.Verts[k] - pl.Verts[start]) <= length)
  loop 0: invariant short: length <= min || i == start
  loop 0: decreases ringoff(i, end, count)
  ensures near: result && start != end ==> forall(k, 0, count, ringoff(start, k, count) <= ringoff(start, end, count) ==> vlen(pl.Verts[k] - pl.Verts[start]) <= min)

spec between(s int, i int, e int, n int) bool = 0 < ringoff(s, i, n) && ringoff(s, i, n) < ringoff(s, e, n)
// vertex i is within tolerance of the line through p and q, or of p
spec dpgood(vs []Vector, i int, p int, q int, mn float64, tol float64) bool =
   abs(cross(vs[q] - vs[p], vs[i] - vs[p])) <= tol*(vlen(vs[q] - vs[p]) + 1e-15) || vlen(vs[i] - vs[p]) <= mn

func DouglasPeucker(verts, reduced, length, start, end, min, tol)
  prop C27
  requires reduced != nil && 0 <= start && start < length && 0 <= end && end < length && length <= len(verts) && tol >= 0
  requires arr(reduced.Verts) != arr(verts) && len(reduced.Verts) > 0 && allocated(verts) && reduced.Verts[len(reduced.Verts) - 1] == verts[start]
  decreases ringoff(start, end, length)
  modifies reduced.Verts, elems(reduced.Verts)
  lemma step1: end >= start ==> rem(end - start + length, length) == end - start
  lemma step2: end < start ==> rem(end - start + length, length) == end - start + length
  loop 0: invariant range: 0 <= i && i < length && 0 < ringoff(start, i, length) && ringoff(start, i, length) <= ringoff(start, end, length)
  loop 0: step here: let(pi, ite(i == 0, length - 1, i - 1), forall(k, 0, length, k == pi ==> abs(dot(n, verts[k]) - d) <= max))
  loop 0: step before: let(pi, ite(i == 0, length - 1, i - 1), forall(k, 0, length, between(start, k, pi, length) ==> abs(dot(n, verts[k]) - d) <= max))
  loop 0: invariant far: max >= 0 && forall(k, 0, length, between(start, k, i, length) ==> abs(dot(n, verts[k]) - d) <= max)
  loop 0: invariant split: 0 <= maxi && maxi < length && (max > 0 ==> between(start, maxi, i, length))
  loop 0: decreases ringoff(i, end, length)
  ensures result: result == reduced
  ensures head: reduced.Verts[0] == old(reduced.Verts[0])
  ensures grown: len(reduced.Verts) >= old(len(reduced.Verts)) && len(reduced.Verts) - old(len(reduced.Verts)) <= ite(start == end, 0, ringoff(start, end, length) - 1)
  ensures kept: forall(k, 0, old(len(reduced.Verts)), reduced.Verts[k] == old(reduced.Verts[k]))
  ensures place: arr(reduced.Verts) == old(arr(reduced.Verts)) || fresh(reduced.Verts)
  // a stretch is dropped only when all of it is within tolerance
  ensures flat: len(reduced.Verts) == old(len(reduced.Verts)) ==> forall(i, 0, length, between(start, i, end, length) ==> dpgood(verts, i, start, end, min, tol))
  ensures members: forall(i, 0, length, between(start, i, end, length) ==> marked(verts[i])) ==> forall(k, old(len(reduced.Verts)), len(reduced.Verts), marked(reduced.Verts[k]))

func PolyLine.SimplifyCurves(pl, tol)
  prop C27
  option timeout 90
  requires len(pl.Verts) >= 2 && tol >= 0
  ensures fresh: fresh(result) && fresh(result.Verts)
  ensures size: len(result.Verts) >= 2 && len(result.Verts) <= len(pl.Verts) + 1
  ensures open: !(pl.Verts[0] == pl.Verts[len(pl.Verts) - 1]) ==> result.Verts[0] == pl.Verts[0] && result.Verts[len(result.Verts) - 1] == pl.Verts[len(pl.Verts) - 1]
  ensures closed: pl.Verts[0] == pl.Verts[len(pl.Verts) - 1] ==> result.Verts[0] == result.Verts[len(result.Verts) - 1]
  ensures members: forall(k, 0, len(pl.Verts), marked(pl.Verts[k])) ==> forall(k, 0, len(result.Verts), marked(result.Verts[k]))

func PolyLine.SimplifyVertexes(pl, tol)
  prop C27
  requires len(pl.Verts) >= 2
  modifies allelems(Vector)
  loop 0: invariant same: forall(k, 0, len(pl.Verts), pl.Verts[k] == old(pl.Verts[k]))
  ensures same: forall(k, 0, len(pl.Verts), pl.Verts[k] == old(pl.Verts[k]))
  loop 0: invariant range: 2 <= i && i <= len(pl.Verts)
  loop 0: invariant size: len(reduced.Verts) >= 2 && len(reduced.Verts) <= i && fresh(reduced.Verts)
  loop 0: invariant members: forall(k, 0, len(pl.Verts), marked(pl.Verts[k])) ==> forall(k, 0, len(reduced.Verts), marked(reduced.Verts[k]))
  loop 0: invariant ends: reduced.Verts[0] == pl.Verts[0] && reduced.Verts[len(reduced.Verts) - 1] == pl.Verts[i - 1]
  loop 0: decreases len(pl.Verts) - i
  ensures fresh: fresh(result) && fresh(result.Verts)
  ensures size: len(result.Verts) >= 1 && len(result.Verts) <= len(pl.Verts)
  ensures open: !(pl.Verts[0] == pl.Verts[len(pl.Verts) - 1]) ==> result.Verts[0] == pl.Verts[0] && result.Verts[len(result.Verts) - 1] == pl.Verts[len(pl.Verts) - 1]
  ensures closed: pl.Verts[0] == pl.Verts[len(pl.Verts) - 1] ==> result.Verts[0] == result.Verts[len(result.Verts) - 1]
  ensures members: forall(k, 0, len(pl.Verts), marked(pl.Verts[k])) ==> forall(k, 0, len(result.Verts), marked(result.Verts[k]))
