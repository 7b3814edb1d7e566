// Convex hulls (C31)

spec lexle(a Vector, b Vector) bool = a.X < b.X || a.X == b.X && a.Y <= b.Y

func LoopIndexes(verts, count)
  prop C31
  option safety
  requires 0 < count && count <= len(verts)
  loop 0: invariant range: 1 <= i && i <= count && 0 <= start && start < i && 0 <= end && end < i
  loop 0: invariant held: min == verts[start] && max == verts[end]
  loop 0: invariant least: forall(k, 0, i, lexle(min, verts[k]))
  loop 0: invariant most: forall(k, 0, i, lexle(verts[k], max))
  loop 0: decreases count - i
  ensures range: 0 <= result0 && result0 < count && 0 <= result1 && result1 < count
  ensures least: forall(k, 0, count, lexle(verts[result0], verts[k]))
  ensures most: forall(k, 0, count, lexle(verts[k], verts[result1]))
  ensures same: result0 == result1 ==> forall(k, 0, count, verts[k] == verts[0])

// an arbitrary predicate: what holds of it holds of membership in any set of points
rec mark(x float64, y float64) bool = mark(x, y)
spec marked(v Vector) bool = mark(v.X, v.Y)

spec outof(v Vector, a Vector, b Vector) float64 = cross(v - a, b - a)

func QHullPartition(verts, count, a, b, tol)
  prop C31
  option safety
  requires 0 <= count && count <= len(verts) && tol >= 0
  modifies elems(verts)
  loop 0: invariant range: 0 <= head && head <= tail + 1 && tail < count
  loop 0: invariant above: forall(k, 0, head, outof(verts[k], a, b) > valueTol)
  loop 0: invariant below: forall(k, tail + 1, count, outof(verts[k], a, b) <= valueTol)
  loop 0: invariant pivot: 0 <= pivot && (head == 0 ==> pivot == 0 && max == 0) && (head > 0 ==> pivot < head && outof(verts[pivot], a, b) == max)
  loop 0: invariant most: forall(k, 0, head, outof(verts[k], a, b) <= max)
  loop 0: invariant from: forall(k, 0, count, old(marked(verts[k]))) ==> forall(k, 0, count, marked(verts[k]))
  loop 0: invariant into: forall(k, 0, count, marked(verts[k])) ==> forall(k, 0, count, old(marked(verts[k])))
  loop 0: invariant beyondend: forall(k, count, len(verts), verts[k] == old(verts[k]))
  loop 0: decreases tail - head + 1
  ensures range: 0 <= result && result <= count
  ensures above: forall(k, 0, result, outof(verts[k], a, b) > tol*vlen(b - a))
  ensures below: forall(k, result, count, outof(verts[k], a, b) <= tol*vlen(b - a))
  ensures farthest: forall(k, 0, result, outof(verts[k], a, b) <= outof(verts[0], a, b))
  ensures from: forall(k, 0, count, old(marked(verts[k]))) ==> forall(k, 0, count, marked(verts[k]))
  ensures into: forall(k, 0, count, marked(verts[k])) ==> forall(k, 0, count, old(marked(verts[k])))
  ensures rest: forall(k, count, len(verts), verts[k] == old(verts[k]))

func QHullReduce(tol, verts, count, a, pivot, b, out)
  prop C31
  option safety
  requires 0 <= count && count <= len(verts) && count + 1 <= len(out) && tol >= 0
  decreases count
  modifies elems(verts), elems(out)
  ensures size: 1 <= result && result <= count + 1
