// Specification vocabulary.  Nothing here refers to functions of the code.

spec dot(a Vector, b Vector) float64 = a.X*b.X + a.Y*b.Y
spec cross(a Vector, b Vector) float64 = a.X*b.Y - a.Y*b.X
spec len2(a Vector) float64 = a.X*a.X + a.Y*a.Y
spec vlen(a Vector) float64 = sqrt(a.X*a.X + a.Y*a.Y)
spec perp(a Vector) Vector = Vector{-a.Y, a.X}
spec rperp(a Vector) Vector = Vector{a.Y, -a.X}
spec rotate(a Vector, b Vector) Vector = Vector{a.X*b.X - a.Y*b.Y, a.X*b.Y + a.Y*b.X}
spec unrotate(a Vector, b Vector) Vector = Vector{a.X*b.X + a.Y*b.Y, a.Y*b.X - a.X*b.Y}
spec clampf(f float64, lo float64, hi float64) float64 = min(max(f, lo), hi)
spec unit(n Vector) bool = n.X*n.X + n.Y*n.Y == 1
spec mulv(t Transform, p Vector) Vector = Vector{t.a*p.X + t.c*p.Y, t.b*p.X + t.d*p.Y}
spec mulp(t Transform, p Vector) Vector = Vector{t.a*p.X + t.c*p.Y + t.tx, t.b*p.X + t.d*p.Y + t.ty}
spec rigid(t Transform) bool = t.a*t.a + t.b*t.b == 1 && t.c == -t.b && t.d == t.a
spec inbb(bb BB, p Vector) bool = bb.L <= p.X && p.X <= bb.R && bb.B <= p.Y && p.Y <= bb.T
spec validbb(bb BB) bool = bb.L <= bb.R && bb.B <= bb.T
rec closest(p Vector, a Vector, b Vector) Vector = ite(a.X == b.X && a.Y == b.Y, b, b + clampf(dot(a - b, p - b)/len2(a - b), 0, 1)*(a - b))

// What waking a body may touch: sleep bookkeeping, the space's lists and its
// index, contact storage.  Not the bodies' motion, mass or attachments.
frame wake: all(Body.sleepingIdleTime), all(Body.sleepingRoot), all(Body.sleepingNext), all(Space.sleepingComponents), @restore
frame restore: all(Space.rousedBodies), all(Space.dynamicBodies), all(Space.arbiters), all(Space.contactBuffersHead), all(Space.constraints), all(Arbiter.contacts), all(Arbiter.stamp), all(ContactBuffer), allelems(Contact), allelems(*Body), allelems(*Arbiter), allelems(*Constraint), ghostall(putback), ghostall(inset), ghostall(spare), ghostall(srank), ghostall(brk), ghostall(htop), @index, all(HashSet[ShapePair, *Arbiter]), all(HashSetBin[*Arbiter]), allelems(*HashSetBin[*Arbiter])
frame index: all(BBTree), all(Node), all(Pair), all(SpaceHash), all(SpaceHashBin), allelems(*SpaceHashBin), all(Handle), all(HashSet[*Shape, *Node]), all(HashSetBin[*Node]), allelems(*HashSetBin[*Node]), all(HashSet[*Shape, *Handle]), all(HashSetBin[*Handle]), allelems(*HashSetBin[*Handle])

spec isstatic(b *Body) bool = b.sleepingIdleTime == INFINITY
spec iskinematic(b *Body) bool = b.sleepingIdleTime != INFINITY && b.m == INFINITY
spec isdynamic(b *Body) bool = b.sleepingIdleTime != INFINITY && b.m != INFINITY

// a setter wakes the whole group of a body (C21)
spec roused(body *Body) bool = old(isdynamic(body)) ==> body.sleepingIdleTime == 0 && (old(body.sleepingRoot) != nil ==> forallT(b, *Body, old(allocated(b)) && old(b.sleepingRoot) == old(body.sleepingRoot) ==> b.sleepingRoot == nil && b.sleepingNext == nil && b.sleepingIdleTime == 0))
