// Bounding-box tree (C16)
//
// Ghost state: tn(n, t) - the node n is in the tree t; nd(n) - its depth order, growing
// towards the leaves; fn(n, t), fk(n) - n is in the pool of t, and its place there.
// The shape is local: every node agrees with its children and its parent, and its box
// covers theirs.

ghost map tn(n *Node, t *BBTree) bool
ghost map nd(n *Node) int
ghost map fn(n *Node, t *BBTree) bool
ghost map fk(n *Node) int

spec covers(a BB, b BB) bool = a.L <= b.L && b.R <= a.R && a.B <= b.B && b.T <= a.T
spec meets(a BB, b BB) bool = a.L <= b.R && b.L <= a.R && a.B <= b.T && b.B <= a.T
spec merged(a BB, b BB) BB = BB{min(a.L, b.L), min(a.B, b.B), max(a.R, b.R), max(a.T, b.T)}

spec down(n *Node, t *BBTree) bool = n.a != nil && n.b != nil && n.a != n.b && tn(n.a, t) && tn(n.b, t) && n.a.parent == n && n.b.parent == n && nd(n.a) > nd(n) && nd(n.b) > nd(n)
spec up(n *Node, t *BBTree) bool = tn(n.parent, t) && n.parent.obj == nil && (n.parent.a == n || n.parent.b == n)
// all of it but the links and the box of p
spec treex(t *BBTree, p *Node) bool = forallT(n, *Node, tn(n, t) ==> n != nil && allocated(n) && nd(n) >= 0 && !fn(n, t))
  && forallT(n, *Node, tn(n, t) && n.obj == nil && n != p ==> down(n, t))
  && forallT(n, *Node, tn(n, t) && n.obj == nil && n != p ==> covers(n.bb, n.a.bb) && covers(n.bb, n.b.bb))
  && forallT(n, *Node, tn(n, t) && n.parent != nil ==> up(n, t))
// all of it but the box of p and the parent of x
spec treeq(t *BBTree, p *Node, x *Node) bool = forallT(n, *Node, tn(n, t) ==> n != nil && allocated(n) && nd(n) >= 0 && !fn(n, t))
  && forallT(n, *Node, tn(n, t) && n.obj == nil ==> down(n, t) && n.a != x && n.b != x)
  && forallT(n, *Node, tn(n, t) && n.obj == nil && n != p ==> covers(n.bb, n.a.bb) && covers(n.bb, n.b.bb))
  && forallT(n, *Node, tn(n, t) && n.parent != nil && n != x ==> up(n, t))
spec rooted(t *BBTree, r *Node) bool = (r != nil ==> tn(r, t) && r.parent == nil) && forallT(n, *Node, tn(n, t) && n.parent == nil ==> n == r)
spec treeok(t *BBTree, r *Node) bool = treex(t, nil) && rooted(t, r)

spec inn(n *Node, t *BBTree) bool = n != nil && allocated(n) && tn(n, t)
rec under(x *Node, n *Node) bool = x == n || x.parent != nil && under(x.parent, n)

theorem undercover(t *BBTree, x *Node, n *Node) bool by nd(x) with t, x.parent, n = treex(t, nil) && inn(x, t) && inn(n, t) && under(x, n) ==> covers(n.bb, x.bb) && nd(n) <= nd(x)
theorem underleaf(t *BBTree, x *Node, n *Node) bool by nd(x) with t, x.parent, n = treex(t, nil) && inn(x, t) && inn(n, t) && under(x, n) && n.obj != nil ==> x == n
theorem undersplit(t *BBTree, x *Node, n *Node) bool by nd(x) with t, x.parent, n = treex(t, nil) && inn(x, t) && inn(n, t) && under(x, n) && n.obj == nil && x != n ==> under(x, n.a) || under(x, n.b)
theorem underup(t *BBTree, x *Node, n *Node) bool by nd(x) with t, x.parent, n = treex(t, nil) && inn(x, t) && inn(n, t) && under(x, n) && n.parent != nil ==> under(x, n.parent)
theorem underroot(t *BBTree, x *Node, r *Node, x0 *Node) bool by nd(x) with t, x.parent, r, x0 = treeq(t, x0, nil) && rooted(t, r) && inn(x, t) ==> under(x, r)
theorem underlin(t *BBTree, x *Node, a *Node, b *Node) bool by nd(x) with t, x.parent, a, b = treex(t, nil) && inn(x, t) && inn(a, t) && inn(b, t) && under(x, a) && under(x, b) ==> under(a, b) || under(b, a)

theorem undernil(t *BBTree, x *Node, x0 *Node) bool by nd(x) with t, x.parent, x0 = treeq(t, x0, nil) && inn(x, t) ==> !under(x, nil)

ghost const probe *Node
ghost map seen(s *Shape) int
ghost map seenfor(s *Shape) int
ghost map seenwith(s *Shape) int

functype SpatialIndexQuery(f, obj1, obj2, collisionId, data)
  option noalloc
  modifies seen(obj2), seenfor(obj2), seenwith(obj2)
  ensures count: seen(obj2) == old(seen(obj2)) + 1
  ensures logged: seenfor(obj2) == ref(obj1) && seenwith(obj2) == ref(data)

func Node.IsLeaf(node)
  prop C16
  option noalloc
  ensures leaf: result == (node.obj != nil)


// a tree that never loses its way: some tree holds the node
ghost const thetree *BBTree

func Node.SubtreeQuery(subtree, obj, bb, query, data)
  prop C16
  requires query != nil && treex(thetree, nil) && inn(subtree, thetree) && inn(probe, thetree) && probe.obj != nil
  requires forallT(x, *Node, tn(x, thetree) && x.obj == probe.obj ==> x == probe)
  option noalloc
  modifies ghostall(seen), ghostall(seenfor), ghostall(seenwith)
  use undercover(thetree, probe, subtree) && underleaf(thetree, probe, subtree) && undersplit(thetree, probe, subtree) && underup(thetree, probe, subtree.a) && underup(thetree, probe, subtree.b) && underlin(thetree, probe, subtree.a, subtree.b)
  use undercover(thetree, subtree, subtree.a) && undercover(thetree, subtree, subtree.b)
  ensures once: seen(probe.obj) == old(seen(probe.obj)) + ite(under(probe, subtree) && meets(probe.bb, bb), 1, 0)
  ensures stored: forallT(s, *Shape, seen(s) != old(seen(s)) ==> existsT(x, *Node, tn(x, thetree) && x.obj == s))

func BBTree.Query(tree, obj, bb, f, data)
  prop C16
  requires f != nil && tree == thetree && treeok(tree, tree.root) && inn(probe, tree) && probe.obj != nil
  requires forallT(x, *Node, tn(x, tree) && x.obj == probe.obj ==> x == probe)
  option noalloc
  modifies ghostall(seen), ghostall(seenfor), ghostall(seenwith)
  use underroot(tree, probe, tree.root, nil) && undernil(tree, probe, nil)
  ensures once: seen(probe.obj) == old(seen(probe.obj)) + ite(meets(probe.bb, bb), 1, 0)
  ensures stored: forallT(s, *Shape, seen(s) != old(seen(s)) ==> existsT(x, *Node, tn(x, tree) && x.obj == s))

// the pool of spare nodes: linked through parent, fk counts down to 1
spec poolok(t *BBTree) bool = (t.pooledNodes != nil ==> fn(t.pooledNodes, t))
  && forallT(n, *Node, fn(n, t) ==> n != nil && t.pooledNodes != nil && !tn(n, t) && fk(n) >= 1 && fk(n) <= fk(t.pooledNodes))
  && forallT(n, *Node, fn(n, t) ==> ite(n.parent == nil, fk(n) == 1, fn(n.parent, t) && fk(n) == fk(n.parent) + 1))
  && forallT(n, *Node, forallT(m, *Node, fn(n, t) && fn(m, t) && fk(n) == fk(m) ==> n == m))

func BBTree.RecycleNode(tree, node)
  prop C16
  option noalloc
  requires node != nil && poolok(tree) && !fn(node, tree)
  modifies node.parent, tree.pooledNodes, fn(node, tree), tn(node, tree), fk(node)
  set fn(node, tree) := true
  set tn(node, tree) := false
  set fk(node) := ite(old(tree.pooledNodes) == nil, 1, fk(old(tree.pooledNodes)) + 1)
  ensures pooled: poolok(tree) && tree.pooledNodes == node

func BBTree.NodeFromPool(tree)
  prop C16
  requires poolok(tree)
  modifies tree.pooledNodes, all(Node.parent), ghostall(fn), ghostall(tn), ghostall(fk)
  loop 0: invariant poolok(tree) && old(tree.pooledNodes) == nil
  loop 0: invariant forallT(n, *Node, old(allocated(n)) ==> n.parent == old(n.parent) && fk(n) == old(fk(n)))
  loop 0: invariant forallT(n, *Node, forallT(t, *BBTree, old(allocated(n)) ==> fn(n, t) == old(fn(n, t)) && tn(n, t) == old(tn(n, t))))
  loop 0: invariant forallT(n, *Node, !old(allocated(n)) ==> !tn(n, tree))
  set fn(result, tree) := false
  ensures spare: result != nil && !fn(result, tree) && (old(allocated(result)) ==> old(fn(result, tree)))
  ensures out: !tn(result, tree)
  ensures pool: poolok(tree)
  ensures kept: forallT(n, *Node, old(allocated(n)) && n != result ==> n.parent == old(n.parent) && fn(n, tree) == old(fn(n, tree)))
  ensures members: forallT(n, *Node, tn(n, tree) ==> old(tn(n, tree)) && old(allocated(n))) && forallT(n, *Node, old(allocated(n)) ==> tn(n, tree) == old(tn(n, tree)))

func NodeSetA(node, value)
  prop C16
  option noalloc
  requires node != nil && value != nil
  modifies node.a, value.parent
  ensures linked: node.a == value && value.parent == node

func NodeSetB(node, value)
  prop C16
  option noalloc
  requires node != nil && value != nil
  modifies node.b, value.parent
  ensures linked: node.b == value && value.parent == node

func Node.Other(node, child)
  prop C16
  option noalloc
  ensures other: result == ite(node.a == child, node.b, node.a)

func BBTree.NewNode(tree, a, b)
  prop C16
  requires a != nil && b != nil && a != b && poolok(tree) && !fn(a, tree) && !fn(b, tree)
  modifies tree.pooledNodes, all(Node.parent), all(Node.obj), all(Node.bb), all(Node.a), all(Node.b), ghostall(fn), ghostall(tn), ghostall(fk), ghostall(nd)
  set tn(result, tree) := true
  set nd(result) := old(nd(b))
  set tn(a, tree) := true
  set nd(a) := old(nd(b)) + 1
  set nd(b) := old(nd(b)) + 1
  ensures new: result != nil && result != a && result != b && result.obj == nil && result.parent == nil && result.a == a && result.b == b && a.parent == result && b.parent == result && !fn(result, tree) && (old(allocated(result)) ==> old(fn(result, tree)))
  ensures box: result.bb == merged(a.bb, b.bb)
  ensures kept: forallT(n, *Node, old(allocated(n)) && n != result ==> n.obj == old(n.obj) && n.bb == old(n.bb) && n.a == old(n.a) && n.b == old(n.b) && fn(n, tree) == old(fn(n, tree)) && (n != a && n != b ==> n.parent == old(n.parent) && nd(n) == old(nd(n))))
  ensures members: forallT(n, *Node, tn(n, tree) ==> old(tn(n, tree)) && old(allocated(n)) || n == result || n == a) && forallT(n, *Node, old(allocated(n)) && n != a && n != result ==> tn(n, tree) == old(tn(n, tree)))
  ensures depth: nd(result) == old(nd(b)) && nd(a) == old(nd(b)) + 1 && nd(b) == old(nd(b)) + 1 && tn(a, tree) && tn(result, tree)
  ensures pool: poolok(tree)

func BBTree.SubtreeInsert(tree, subtree, leaf)
  prop C16
  requires poolok(tree) && leaf != nil && leaf.obj != nil && !tn(leaf, tree) && !fn(leaf, tree) && treex(tree, nil) && (subtree != nil ==> tn(subtree, tree))
  requires subtree == nil ==> leaf.parent == nil
  modifies tree.pooledNodes, all(Node.parent), all(Node.obj), all(Node.bb), all(Node.a), all(Node.b), ghostall(fn), ghostall(tn), ghostall(fk), ghostall(nd)
  set tn(leaf, tree) := true
  set nd(leaf) := ite(subtree == nil, 0, nd(leaf))
  ensures top: result != nil && tn(result, tree) && ite(subtree != nil && old(subtree.obj) == nil, result == subtree && result.parent == old(subtree.parent), !old(tn(result, tree)) && result.parent == nil && (subtree != nil ==> subtree.parent == result))
  ensures shape: ite(subtree == nil, treex(tree, nil), treex(tree, old(subtree.parent)))
  ensures leafin: tn(leaf, tree) && leaf.obj == old(leaf.obj) && leaf.bb == old(leaf.bb)
  ensures roots: forallT(n, *Node, tn(n, tree) && n.parent == nil ==> n == result || n != leaf && old(tn(n, tree)) && old(allocated(n)) && old(n.parent) == nil)
  ensures depth: subtree != nil ==> nd(result) == old(nd(subtree))
  ensures deeper: forallT(n, *Node, old(tn(n, tree)) && old(allocated(n)) ==> nd(n) >= old(nd(n)) && (old(n.obj) == nil ==> nd(n) == old(nd(n))))
  ensures box: result.bb == ite(subtree == nil, leaf.bb, merged(old(subtree.bb), leaf.bb))
  ensures boxes: forallT(n, *Node, old(tn(n, tree)) && old(allocated(n)) ==> n.obj == old(n.obj) && (n.bb == old(n.bb) || n.bb == merged(old(n.bb), leaf.bb)) && (n.obj != nil ==> n.bb == old(n.bb)))
  ensures above: forallT(n, *Node, old(tn(n, tree)) && old(allocated(n)) && subtree != nil && old(nd(n)) < old(nd(subtree)) ==> n.a == old(n.a) && n.b == old(n.b) && n.bb == old(n.bb) && nd(n) == old(nd(n)))
  ensures parents: forallT(n, *Node, old(tn(n, tree)) && old(allocated(n)) && n != subtree && (subtree == nil || old(n.parent) == nil || old(nd(n.parent)) < old(nd(subtree))) ==> n.parent == old(n.parent))
  ensures members: forallT(n, *Node, old(tn(n, tree)) && old(allocated(n)) ==> tn(n, tree)) && forallT(n, *Node, tn(n, tree) && n != leaf && n.obj != nil ==> old(tn(n, tree)) && old(allocated(n)))
  ensures pool: poolok(tree)

func BBTree.ReplaceChild(tree, parent, child, value)
  prop C16
  option noalloc
  requires poolok(tree) && treeq(tree, child, nil) && inn(parent, tree) && inn(child, tree) && child.parent == parent && child.obj == nil && (value == child.a || value == child.b) && ite(value == child.a, child.b, child.a).obj != nil
  requires forallT(n, *Node, tn(n, tree) && n.parent == nil ==> n == tree.root)
  modifies all(Node.parent), all(Node.bb), parent.a, parent.b, tree.pooledNodes, ghostall(fn), ghostall(tn), ghostall(fk)
  set tn(ite(value == old(child.a), old(child.b), old(child.a)), tree) := false
  loop 0: invariant poolok(tree) && !tn(child, tree) && treeq(tree, node, ite(value == old(child.a), old(child.b), old(child.a)))
  loop 0: invariant node != nil ==> inn(node, tree) && node.obj == nil
  loop 0: invariant forallT(n, *Node, old(tn(n, tree)) && n != child && n != value ==> n.parent == old(n.parent))
  loop 0: invariant value.parent == parent
  loop 0: invariant forallT(n, *Node, tn(n, tree) == (old(tn(n, tree)) && n != child))
  loop 0: invariant forallT(n, *Node, n.obj != nil ==> n.bb == old(n.bb))
  loop 0: invariant forallT(n, *Node, fn(n, tree) == (old(fn(n, tree)) || n == child))
  loop 0: decreases ite(node == nil, 0, nd(node) + 1)
  ensures spare: forallT(n, *Node, fn(n, tree) == (old(fn(n, tree)) || n == child))
  ensures shape: treex(tree, nil) && poolok(tree)
  ensures members: forallT(n, *Node, tn(n, tree) == (old(tn(n, tree)) && n != child && (n != old(child.a) && n != old(child.b) || n == value)))
  ensures roots: forallT(n, *Node, tn(n, tree) && n.parent == nil ==> n == tree.root) && forallT(n, *Node, tn(n, tree) && old(n.parent) == nil ==> n.parent == nil)
  ensures boxes: forallT(n, *Node, old(allocated(n)) && n.obj != nil ==> n.bb == old(n.bb))

func BBTree.SubtreeRemove(tree, subtree, leaf)
  prop C16
  option noalloc
  requires poolok(tree) && treeq(tree, leaf.parent, nil) && rooted(tree, tree.root) && subtree == tree.root && inn(leaf, tree) && leaf.obj != nil
  use old(underroot(tree, leaf, tree.root, leaf.parent) && undernil(tree, leaf, leaf.parent))
  modifies all(Node.parent), all(Node.bb), all(Node.a), all(Node.b), tree.pooledNodes, ghostall(fn), ghostall(tn), ghostall(fk)
  set tn(leaf, tree) := false
  ensures shape: treeok(tree, result) && poolok(tree)
  ensures members: forallT(n, *Node, tn(n, tree) == (old(tn(n, tree)) && n != leaf && n != old(leaf.parent)))
  ensures boxes: forallT(n, *Node, old(allocated(n)) && n.obj != nil ==> n.bb == old(n.bb))
  ensures empty: result == nil ==> leaf.parent == nil
  ensures out: !fn(leaf, tree)

functype SpatialIndexBB(f, obj)
  option pure

functype BBTreeVelocityFunc(f, obj)
  option pure

spec bounds(t *BBTree, obj *Shape) BB = callfn("SpatialIndexBB", t.spatialIndex.bbfunc, obj)

func BBTree.GetBB(tree, obj)
  prop C16
  option noalloc
  requires tree.spatialIndex != nil && tree.spatialIndex.bbfunc != nil
  ensures covers: validbb(bounds(tree, obj)) ==> covers(result, bounds(tree, obj)) && validbb(result)
  ensures exact: tree.velocityFunc == nil ==> result == bounds(tree, obj)

func BBTree.NewLeaf(tree, obj)
  prop C16
  requires poolok(tree) && tree.spatialIndex != nil && tree.spatialIndex.bbfunc != nil && obj != nil
  modifies tree.pooledNodes, all(Node.parent), all(Node.obj), all(Node.bb), all(Node.stamp), all(Node.pairs), ghostall(fn), ghostall(tn), ghostall(fk)
  ensures leaf: result != nil && result.obj == obj && result.parent == nil && result.pairs == nil && result.stamp == 0 && !fn(result, tree) && !tn(result, tree) && (old(allocated(result)) ==> old(fn(result, tree)))
  ensures covers: validbb(bounds(tree, obj)) ==> covers(result.bb, bounds(tree, obj))
  ensures kept: forallT(n, *Node, old(allocated(n)) && n != result ==> n.obj == old(n.obj) && n.bb == old(n.bb) && n.parent == old(n.parent) && fn(n, tree) == old(fn(n, tree)))
  ensures members: forallT(n, *Node, tn(n, tree) ==> old(tn(n, tree)) && old(allocated(n))) && forallT(n, *Node, old(allocated(n)) ==> tn(n, tree) == old(tn(n, tree)))
  ensures pool: poolok(tree)

func BBTree.PairsClear(tree, leaf)
  prop C16
  option nodef
  modifies all(Node.pairs), all(Pair), all(BBTree.pooledPairs)

func BBTree.LeafUpdate(tree, leaf)
  prop C16
  requires poolok(tree) && treeok(tree, tree.root) && inn(leaf, tree) && leaf.obj != nil && tree.spatialIndex != nil && tree.spatialIndex.bbfunc != nil
  modifies all(Node.parent), all(Node.obj), all(Node.bb), all(Node.a), all(Node.b), all(Node.stamp), all(Node.pairs), all(Pair), all(BBTree.pooledPairs), tree.pooledNodes, tree.root, ghostall(fn), ghostall(tn), ghostall(fk), ghostall(nd)
  ensures shape: treeok(tree, tree.root) && poolok(tree)
  ensures stays: tn(leaf, tree) && leaf.obj == old(leaf.obj)
  use once undernil(tree, leaf, nil) && underroot(tree, leaf, tree.root, nil)
  ensures rooted: tree.root != nil
  ensures covers: validbb(bounds(tree, leaf.obj)) ==> covers(leaf.bb, bounds(tree, leaf.obj))
  ensures idle: !result ==> leaf.bb == old(leaf.bb)
  ensures leaves: forallT(n, *Node, old(allocated(n)) && old(n.obj) != nil && old(tn(n, tree)) ==> tn(n, tree) && n.obj == old(n.obj) && (n != leaf ==> n.bb == old(n.bb))) && forallT(n, *Node, tn(n, tree) && n.obj != nil ==> old(allocated(n)) && old(tn(n, tree)) && old(n.obj) != nil)

// an arbitrary fraction of the ray
ghost const frac real
spec onray(a Vector, b Vector, s real) Vector = (1-s)*a + s*b
spec reaches(n *Node, a Vector, b Vector) bool = 0 <= frac && frac <= 1 && inbb(n.bb, onray(a, b, frac))
spec rayok(a Vector, b Vector) bool = a.X >= -1e100 && a.X <= 1e100 && a.Y >= -1e100 && a.Y <= 1e100 && b.X >= -1e100 && b.X <= 1e100 && b.Y >= -1e100 && b.Y <= 1e100 && (a.X == b.X || abs(a.X - b.X) >= 1e-100) && (a.Y == b.Y || abs(a.Y - b.Y) >= 1e-100)
spec boxok(b BB) bool = validbb(b) && b.L >= -1e100 && b.R <= 1e100 && b.B >= -1e100 && b.T <= 1e100

// the least cut-off any callback has returned
ghost map raycut(k) float64

functype SpatialIndexSegmentQuery(f, obj1, obj2, data)
  option noalloc
  modifies seen(obj2), seenfor(obj2), seenwith(obj2), raycut(0)
  ensures cut: raycut(0) == min(old(raycut(0)), result)
  ensures count: seen(obj2) == old(seen(obj2)) + 1
  ensures logged: seenfor(obj2) == ref(obj1) && seenwith(obj2) == ref(data)

func Node.SubtreeSegmentQuery(subtree, obj, a, b, t_exit, f, data)
  prop C16
  option noalloc
  requires f != nil && treex(thetree, nil) && inn(subtree, thetree) && inn(probe, thetree) && probe.obj != nil
  requires forallT(x, *Node, tn(x, thetree) && x.obj == probe.obj ==> x == probe)
  requires rayok(a, b) && forallT(x, *Node, tn(x, thetree) ==> boxok(x.bb))
  modifies ghostall(seen), ghostall(seenfor), ghostall(seenwith), raycut(0)
  use undercover(thetree, probe, subtree.a) && undercover(thetree, probe, subtree.b) && underleaf(thetree, probe, subtree) && undersplit(thetree, probe, subtree) && underup(thetree, probe, subtree.a) && underup(thetree, probe, subtree.b) && underlin(thetree, probe, subtree.a, subtree.b)
  use undercover(thetree, subtree, subtree.a) && undercover(thetree, subtree, subtree.b)
  ensures cutoff: subtree.obj == nil ==> result <= t_exit
  ensures floor: result >= min(t_exit, raycut(0)) && raycut(0) <= old(raycut(0))
  ensures reachedcut: under(probe, subtree) && reaches(probe, a, b) && frac < raycut(0) && frac < t_exit ==> seen(probe.obj) == old(seen(probe.obj)) + 1
  ensures reached: under(probe, subtree) && reaches(probe, a, b) && frac < result && frac < t_exit ==> seen(probe.obj) == old(seen(probe.obj)) + 1
  ensures once: seen(probe.obj) == old(seen(probe.obj)) || under(probe, subtree) && seen(probe.obj) == old(seen(probe.obj)) + 1
  ensures stored: forallT(s, *Shape, seen(s) != old(seen(s)) ==> existsT(x, *Node, tn(x, thetree) && x.obj == s))

func BBTree.SegmentQuery(tree, obj, a, b, t_exit, f, data)
  prop C16
  option noalloc
  requires f != nil && tree == thetree && treeok(tree, tree.root) && inn(probe, tree) && probe.obj != nil
  requires forallT(x, *Node, tn(x, tree) && x.obj == probe.obj ==> x == probe)
  requires rayok(a, b) && forallT(x, *Node, tn(x, tree) ==> boxok(x.bb))
  modifies ghostall(seen), ghostall(seenfor), ghostall(seenwith), raycut(0)
  use underroot(tree, probe, tree.root, nil) && undernil(tree, probe, nil)
  ensures reached: reaches(probe, a, b) && frac < raycut(0) && frac < t_exit ==> seen(probe.obj) == old(seen(probe.obj)) + 1
  ensures once: seen(probe.obj) <= old(seen(probe.obj)) + 1
  ensures stored: forallT(s, *Shape, seen(s) != old(seen(s)) ==> existsT(x, *Node, tn(x, tree) && x.obj == s))

func BBTree.Count(tree)
  prop C16
  requires tree.leaves != nil
  ensures count: result == tree.leaves.entries

spec stored(t *BBTree) bool = t.leaves != nil && hashshape(t.leaves) && poolshape(t.leaves) && forallT(b, *HashSetBin[*Node], inset(b, t.leaves) ==> inn(b.elt, t) && b.elt.obj != nil)
  && forallT(b, *HashSetBin[*Node], forallT(c, *HashSetBin[*Node], inset(b, t.leaves) && inset(c, t.leaves) && b.elt == c.elt ==> b == c))

func BBTree.Contains(tree, obj, hashId)
  prop C16
  assumes stored(tree)
  ensures found: result == existsT(b, *HashSetBin[*Node], inset(b, tree.leaves) && rem(b.hash, tree.leaves.size) == rem(hashId, tree.leaves.size) && callfn("HashSet.isEqual", tree.leaves.isEqual, obj, b.elt))

func BBTree.Remove(tree, obj, hashId)
  prop C16
  assumes stored(tree)
  requires poolok(tree) && treeok(tree, tree.root) && tree.leaves.entries > 0
  requires existsT(b, *HashSetBin[*Node], inset(b, tree.leaves) && rem(b.hash, tree.leaves.size) == rem(hashId, tree.leaves.size) && callfn("HashSet.isEqual", tree.leaves.isEqual, obj, b.elt))
  modifies all(Node.parent), all(Node.bb), all(Node.a), all(Node.b), all(Node.pairs), all(Pair), all(BBTree.pooledPairs), tree.pooledNodes, tree.root, ghostall(fn), ghostall(tn), ghostall(fk), tree.leaves.pooledBins, tree.leaves.entries, allelems(*HashSetBin), all(HashSetBin.next), all(HashSetBin.elt), ghostall(inset), ghostall(spare), ghostall(srank)
  ensures shape: treeok(tree, tree.root) && poolok(tree)
  ensures count: tree.leaves.entries == old(tree.leaves.entries) - 1
  ensures stored: stored(tree)
  ensures gone: existsT(l, *Node, old(inn(l, tree)) && l.obj != nil && callfn("HashSet.isEqual", tree.leaves.isEqual, obj, l) && forallT(n, *Node, n.obj != nil ==> tn(n, tree) == (old(tn(n, tree)) && n != l)))
  ensures boxes: forallT(n, *Node, old(allocated(n)) && n.obj != nil ==> n.bb == old(n.bb))

// Candidate pairs: they never touch the tree itself.

func BBTree.RecyclePair(tree, pair)
  prop C16
  requires pair != nil
  modifies pair.a, all(BBTree.pooledPairs)

func BBTree.PairFromPool(subtree)
  prop C16
  option nodef
  modifies all(Pair), all(BBTree.pooledPairs)
  ensures some: result != nil

func BBTree.PairInsert(tree, a, b)
  prop C16
  option nodef
  requires a != nil && b != nil
  modifies all(Node.pairs), all(Pair), all(BBTree.pooledPairs)

// the callback gets every leaf below that meets the given one, unless it comes first
spec intree(n *Node) bool = treex(thetree, nil) && inn(n, thetree) && inn(probe, thetree) && probe.obj != nil && forallT(x, *Node, tn(x, thetree) && x.obj == probe.obj ==> x == probe)
func Node.MarkLeafQuery(subtree, leaf, left, context)
  prop C16
  requires context != nil && context.tree != nil && (!left ==> context.f != nil) && leaf != nil
  modifies all(Node.pairs), all(Pair), all(BBTree.pooledPairs), ghostall(seen), ghostall(seenfor), ghostall(seenwith)
  use undercover(thetree, probe, subtree) && underleaf(thetree, probe, subtree) && undersplit(thetree, probe, subtree) && underup(thetree, probe, subtree.a) && underup(thetree, probe, subtree.b) && underlin(thetree, probe, subtree.a, subtree.b)
  use undercover(thetree, subtree, subtree.a) && undercover(thetree, subtree, subtree.b)
  ensures once: intree(subtree) ==> seen(probe.obj) == old(seen(probe.obj)) + ite(!left && under(probe, subtree) && meets(probe.bb, leaf.bb), 1, 0)

func Node.MarkLeaf(leaf, context)
  prop C16
  requires context != nil && context.tree != nil && context.f != nil
  modifies all(Node.pairs), all(Pair), all(BBTree.pooledPairs), ghostall(seen), ghostall(seenfor), ghostall(seenwith)

func Node.MarkSubtree(subtree, context)
  prop C16
  requires context != nil && context.tree != nil && context.f != nil
  modifies all(Node.pairs), all(Pair), all(BBTree.pooledPairs), ghostall(seen), ghostall(seenfor), ghostall(seenwith)

// the dynamic index of a tree is a tree
spec twinned(t *BBTree) bool = t.spatialIndex != nil && (t.spatialIndex.dynamicIndex != nil ==> typeis(t.spatialIndex.dynamicIndex.class, *BBTree) && t.spatialIndex.dynamicIndex.class.(*BBTree) != nil)

func BBTree.LeafAddPairs(tree, leaf)
  prop C16
  requires leaf != nil && twinned(tree)
  modifies all(Node.pairs), all(Pair), all(BBTree.pooledPairs), ghostall(seen), ghostall(seenfor), ghostall(seenwith)

func BBTree.IncrementStamp(tree)
  prop C16
  requires tree.spatialIndex != nil
  modifies all(BBTree.stamp)

func BBTree.ReindexObject(tree, obj, hashId)
  prop C16
  assumes stored(tree)
  requires poolok(tree) && treeok(tree, tree.root) && twinned(tree) && tree.spatialIndex.bbfunc != nil
  modifies all(Node.parent), all(Node.obj), all(Node.bb), all(Node.a), all(Node.b), all(Node.stamp), all(Node.pairs), all(Pair), all(BBTree.pooledPairs), all(BBTree.stamp), tree.pooledNodes, tree.root, ghostall(fn), ghostall(tn), ghostall(fk), ghostall(nd), ghostall(seen), ghostall(seenfor), ghostall(seenwith)
  ensures shape: treeok(tree, tree.root) && poolok(tree)
  ensures leaves: forallT(n, *Node, old(allocated(n)) && old(n.obj) != nil && old(tn(n, tree)) ==> tn(n, tree) && n.obj == old(n.obj)) && forallT(n, *Node, tn(n, tree) && n.obj != nil ==> old(allocated(n)) && old(tn(n, tree)))
  ensures stored: stored(tree)
  ensures fits: old(existsT(b, *HashSetBin[*Node], inset(b, tree.leaves) && rem(b.hash, tree.leaves.size) == rem(hashId, tree.leaves.size) && callfn("HashSet.isEqual", tree.leaves.isEqual, obj, b.elt))) ==> existsT(l, *Node, tn(l, tree) && l.obj != nil && callfn("HashSet.isEqual", tree.leaves.isEqual, obj, l) && (validbb(bounds(tree, l.obj)) ==> covers(l.bb, bounds(tree, l.obj))) && forallT(n, *Node, old(allocated(n)) && old(tn(n, tree)) && old(n.obj) != nil && n != l ==> n.bb == old(n.bb)))

func BBTree.Insert(tree, obj, hashId)
  prop C16
  option inline HashSet.Insert
  assumes stored(tree)
  requires poolok(tree) && treeok(tree, tree.root) && twinned(tree) && tree.spatialIndex.bbfunc != nil && obj != nil
  requires tree.leaves.size < 1610612741 && tree.leaves.entries < 4611686018427387904
  requires forallT(b, *HashSetBin[*Node], inset(b, tree.leaves) && slot(b, tree.leaves) == rem(hashId, tree.leaves.size) ==> !callfn("HashSet.isEqual", tree.leaves.isEqual, obj, b.elt))
  modifies all(Node.parent), all(Node.obj), all(Node.bb), all(Node.a), all(Node.b), all(Node.stamp), all(Node.pairs), all(Pair), all(BBTree.pooledPairs), all(BBTree.stamp), tree.pooledNodes, tree.root, ghostall(fn), ghostall(tn), ghostall(fk), ghostall(nd), ghostall(seen), ghostall(seenfor), ghostall(seenwith), tree.leaves.pooledBins, tree.leaves.table, tree.leaves.size, tree.leaves.entries, allelems(*HashSetBin), all(HashSetBin.next), all(HashSetBin.elt), all(HashSetBin.hash), ghostall(inset), ghostall(spare), ghostall(srank), ghostall(brk), htop(tree.leaves)
  loop 0: invariant bin != nil ==> inset(bin, set) && slot(bin, set) == rem(hash, set.size)
  ensures shape: treeok(tree, tree.root) && poolok(tree)
  ensures count: tree.leaves.entries == old(tree.leaves.entries) + 1
  ensures added: existsT(l, *Node, !old(inn(l, tree)) && tn(l, tree) && l.obj == obj && (validbb(bounds(tree, obj)) ==> covers(l.bb, bounds(tree, obj))) && forallT(n, *Node, tn(n, tree) && n.obj != nil && n != l ==> old(tn(n, tree)) && old(allocated(n))))
  ensures others: forallT(n, *Node, old(allocated(n)) && old(n.obj) != nil && old(tn(n, tree)) ==> tn(n, tree) && n.obj == old(n.obj) && n.bb == old(n.bb))
  ensures stored: stored(tree)

// every leaf covers the bounds of its object
spec fitted(l *Node, t *BBTree) bool = validbb(bounds(t, l.obj)) ==> covers(l.bb, bounds(t, l.obj))
spec leafkept(t *BBTree) bool = forallT(n, *Node, old(allocated(n)) && old(n.obj) != nil && old(tn(n, t)) ==> tn(n, t) && n.obj == old(n.obj))
spec leafold(t *BBTree) bool = forallT(n, *Node, tn(n, t) && n.obj != nil ==> old(allocated(n)) && old(tn(n, t)))

func BBTree.ReindexQuery(tree, f, data)
  prop C16
  assumes stored(tree)
  requires poolok(tree) && treeok(tree, tree.root) && twinned(tree) && tree.spatialIndex.bbfunc != nil && f != nil
  requires tree.spatialIndex.staticIndex == nil
  modifies all(Node.parent), all(Node.obj), all(Node.bb), all(Node.a), all(Node.b), all(Node.stamp), all(Node.pairs), all(Pair), all(BBTree.pooledPairs), all(BBTree.stamp), tree.pooledNodes, tree.root, ghostall(fn), ghostall(tn), ghostall(fk), ghostall(nd), ghostall(seen), ghostall(seenfor), ghostall(seenwith)
  loop 0: invariant treeok(tree, tree.root) && poolok(tree)
  loop 0: invariant rooted: tree.root != nil
  loop 0: invariant stored: stored(tree)
  loop 0: invariant leaves: leafkept(tree)
  loop 0: invariant nonew: leafold(tree)
  loop 0: invariant done: forallT(b, *HashSetBin[*Node], inset(b, tree.leaves) && slot(b, tree.leaves) < LI ==> fitted(b.elt, tree))
  loop 1: invariant treeok(tree, tree.root) && poolok(tree)
  loop 1: invariant rooted: tree.root != nil
  loop 1: invariant stored: stored(tree)
  loop 1: invariant leaves: leafkept(tree)
  loop 1: invariant nonew: leafold(tree)
  loop 1: invariant here: bin != nil ==> inset(bin, tree.leaves) && entry(bin) != nil && slot(bin, tree.leaves) == slot(entry(bin), tree.leaves)
  loop 1: invariant kept: forallT(b, *HashSetBin[*Node], inset(b, tree.leaves) && entry(fitted(b.elt, tree)) ==> fitted(b.elt, tree))
  loop 1: invariant chain: forallT(b, *HashSetBin[*Node], inset(b, tree.leaves) && entry(bin) != nil && slot(b, tree.leaves) == slot(entry(bin), tree.leaves) && (bin == nil || brk(b) > brk(bin)) ==> fitted(b.elt, tree))
  ensures shape: treeok(tree, tree.root) && poolok(tree)
  ensures stored: stored(tree)
  ensures leaves: leafkept(tree)
  ensures nonew: leafold(tree)
  ensures fits: old(tree.root) != nil ==> forallT(b, *HashSetBin[*Node], inset(b, tree.leaves) ==> fitted(b.elt, tree))
