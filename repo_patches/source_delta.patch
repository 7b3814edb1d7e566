From 5c7df63e838bf2a9178950b662fb3f0afd4b03c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:10 +0000
Subject: [PATCH 01/29] fix: ClosestPointOnSegment returns NaN for a zero
 length segment

---
 vector.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/vector.go b/vector.go
index cea4a8c..2f59833 100644
--- a/vector.go
+++ b/vector.go
@@ -176,7 +176,12 @@ func (v Vector) ClosestDist(v1 Vector) float64 {
 
 func (v Vector) ClosestPointOnSegment(a, b Vector) Vector {
 	delta := a.Sub(b)
-	t := Clamp01(delta.Dot(v.Sub(b)) / delta.LengthSq())
+	lengthSq := delta.LengthSq()
+	if lengthSq == 0 {
+		// Zero length segment, avoid 0/0.
+		return b
+	}
+	t := Clamp01(delta.Dot(v.Sub(b)) / lengthSq)
 	return b.Add(delta.Mult(t))
 }
 
-- 
2.43.0


From 2c17b6332649f8268cebf67b3e241813b2479a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:10 +0000
Subject: [PATCH 02/29] fix: SlerpConst returns NaN for parallel vectors

---
 vector.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vector.go b/vector.go
index 2f59833..0286630 100644
--- a/vector.go
+++ b/vector.go
@@ -124,6 +124,10 @@ func LerpConst(f1, f2, d float64) float64 {
 func (v Vector) SlerpConst(other Vector, a float64) Vector {
 	dot := v.Normalize().Dot(other.Normalize())
 	omega := math.Acos(Clamp(dot, -1, 1))
+	if omega == 0 {
+		// Already there, avoid 0/0.
+		return other
+	}
 	return v.SLerp(other, math.Min(a, omega)/omega)
 }
 
-- 
2.43.0


From 01ebbe60eb4c7544a7d36e14ac566a30bd2733a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:54 +0000
Subject: [PATCH 03/29] fix: Circle.PointQuery returns a NaN point at the
 center of the circle

---
 circle.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/circle.go b/circle.go
index 11fce2d..d54bc37 100644
--- a/circle.go
+++ b/circle.go
@@ -55,7 +55,12 @@ func (circle *Circle) PointQuery(p Vector, info *PointQueryInfo) {
 	r := circle.r
 
 	info.Shape = circle.Shape
-	info.Point = circle.tc.Add(delta.Mult(r / d))
+	if d != 0 {
+		info.Point = circle.tc.Add(delta.Mult(r / d))
+	} else {
+		// At the center every surface point is equally near.
+		info.Point = circle.tc.Add(Vector{0, r})
+	}
 	info.Distance = d - r
 
 	if d > MAGIC_EPSILON {
-- 
2.43.0


From 604f9497d1eea981f6d099ca325e5f70d205ab29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:54 +0000
Subject: [PATCH 04/29] fix: Segment.PointQuery on the core line ignores the
 radius and the body rotation

---
 segment.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/segment.go b/segment.go
index 5f0fe87..b83300a 100644
--- a/segment.go
+++ b/segment.go
@@ -95,7 +95,7 @@ func (seg *Segment) PointQuery(p Vector, info *PointQueryInfo) {
 	if d != 0 {
 		info.Point = closest.Add(g.Mult(r))
 	} else {
-		info.Point = closest
+		info.Point = closest.Add(seg.tn.Mult(r))
 	}
 	info.Distance = d - r
 
@@ -103,7 +103,7 @@ func (seg *Segment) PointQuery(p Vector, info *PointQueryInfo) {
 	if d > MAGIC_EPSILON {
 		info.Gradient = g
 	} else {
-		info.Gradient = seg.n
+		info.Gradient = seg.tn
 	}
 }
 
-- 
2.43.0


From 47c496bf34b0baa2a0f8d3a4a324b2edc2481b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:54 +0000
Subject: [PATCH 05/29] fix: PolyShape.PointQuery returns NaN for a point on an
 edge

---
 poly.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/poly.go b/poly.go
index fbc370b..4f2c677 100644
--- a/poly.go
+++ b/poly.go
@@ -98,7 +98,10 @@ func (poly *PolyShape) PointQuery(p Vector, info *PointQueryInfo) {
 	} else {
 		dist = -minDist
 	}
-	g := p.Sub(closestPoint).Mult(1.0 / dist)
+	g := closestNormal
+	if dist != 0 {
+		g = p.Sub(closestPoint).Mult(1.0 / dist)
+	}
 
 	info.Shape = poly.Shape
 	info.Point = closestPoint.Add(g.Mult(r))
-- 
2.43.0


From 68840e005cbd54c399c4358b1eff4e125ac97ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:32 +0000
Subject: [PATCH 06/29] fix: segment queries starting beside a rounded
 segment's end hit its cap, not the far side

---
 segment.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/segment.go b/segment.go
index b83300a..e556835 100644
--- a/segment.go
+++ b/segment.go
@@ -1,5 +1,7 @@
 package cp
 
+import "math"
+
 type Segment struct {
 	*Shape
 
@@ -125,7 +127,8 @@ func (seg *Segment) SegmentQuery(a, b Vector, r2 float64, info *SegmentQueryInfo
 	segB := seg.tb.Add(segOffset)
 	delta := b.Sub(a)
 
-	if delta.Cross(segA)*delta.Cross(segB) <= 0 {
+	// Starting between the two sides (past an end) the first touch is on a cap, a side could only be left there.
+	if math.Abs(d) >= r && delta.Cross(segA)*delta.Cross(segB) <= 0 {
 		dOffset := d
 		if d > 0 {
 			dOffset -= r
-- 
2.43.0


From 7bc60f443b6cdb83ffdd23ce41e0ef5fd5946cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:50 +0000
Subject: [PATCH 07/29] fix: post-solve callbacks get the handler instead of
 its user data

---
 space.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/space.go b/space.go
index a3a1bfe..6d5ce1a 100644
--- a/space.go
+++ b/space.go
@@ -775,7 +775,7 @@ func (space *Space) Step(dt float64) {
 
 		// run the post-solve callbacks
 		for _, arb := range space.arbiters {
-			arb.handler.PostSolveFunc(arb, space, arb.handler)
+			arb.handler.PostSolveFunc(arb, space, arb.handler.UserData)
 		}
 	}
 	space.Unlock(true)
-- 
2.43.0


From 572b2266b37b18f0784a225f374a6de9e33fd508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:50 +0000
Subject: [PATCH 08/29] fix: post-step callbacks registered from a post-step
 callback are dropped

---
 space.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/space.go b/space.go
index 6d5ce1a..5921643 100644
--- a/space.go
+++ b/space.go
@@ -803,7 +803,9 @@ func (space *Space) Unlock(runPostStep bool) {
 	if runPostStep && !space.skipPostStep {
 		space.skipPostStep = true
 
-		for _, callback := range space.postStepCallbacks {
+		// The callbacks may register further callbacks, so the length is read on every pass.
+		for i := 0; i < len(space.postStepCallbacks); i++ {
+			callback := space.postStepCallbacks[i]
 			f := callback.callback
 
 			// Mark the func as NULL in case calling it calls cpSpaceRunPostStepCallbacks() again.
-- 
2.43.0


From f8017df81b5cdb79a7e9e636abd53ea7f12ec96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:50 +0000
Subject: [PATCH 09/29] fix: SetGravity leaves every other sleeping group
 asleep

---
 space.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/space.go b/space.go
index 5921643..71e128b 100644
--- a/space.go
+++ b/space.go
@@ -117,7 +117,9 @@ func (space *Space) SetGravity(gravity Vector) {
 	space.gravity = gravity
 
 	// Wake up all of the bodies since the gravity changed.
-	for _, component := range space.sleepingComponents {
+	// Activate() removes the component from the list.
+	components := append([]*Body{}, space.sleepingComponents...)
+	for _, component := range components {
 		component.Activate()
 	}
 }
-- 
2.43.0


From ec1c1226f3be555a04a80fe777dd2fb6d1c45c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:50 +0000
Subject: [PATCH 10/29] fix: ShapeQuery only reports the last overlapping shape
 in its result

---
 space.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/space.go b/space.go
index 71e128b..44812bb 100644
--- a/space.go
+++ b/space.go
@@ -1118,7 +1118,7 @@ func (space *Space) ShapeQuery(shape *Shape, callback func(shape *Shape, points
 			if callback != nil {
 				callback(b, &contactPointSet)
 			}
-			anyCollision = !(a.sensor || b.sensor)
+			anyCollision = anyCollision || !(a.sensor || b.sensor)
 		}
 
 		return collisionId
-- 
2.43.0


From c2ae549caa8156c437fe5ac1b53efd012255627f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:50 +0000
Subject: [PATCH 11/29] fix: contact point of a circle on a rounded polygon
 lies inside the polygon

---
 collision.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collision.go b/collision.go
index 58f03a1..87c078d 100644
--- a/collision.go
+++ b/collision.go
@@ -170,7 +170,7 @@ func CircleToPoly(info *CollisionInfo) {
 
 	if points.d <= circle.r+poly.r {
 		info.n = points.n
-		info.PushContact(points.a.Add(info.n.Mult(circle.r)), points.b.Add(info.n.Mult(poly.r)), 0)
+		info.PushContact(points.a.Add(info.n.Mult(circle.r)), points.b.Add(info.n.Mult(-poly.r)), 0)
 	}
 }
 
-- 
2.43.0


From 342dcf6b563405d37bbe41c9481ce6a317b574db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:50 +0000
Subject: [PATCH 12/29] fix: PolyLine.IsShort never terminates

---
 polyline.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polyline.go b/polyline.go
index 81f7c52..f341fd4 100644
--- a/polyline.go
+++ b/polyline.go
@@ -35,7 +35,7 @@ func (pl *PolyLine) IsClosed() bool {
 func (pl *PolyLine) IsShort(count, start, end int, min float64) bool {
 	var length float64
 	// Next doesn't have side effects and its return value is ignored (SA4017)go-staticcheck
-	for i := start; i != end; Next(i, count) {
+	for i := start; i != end; i = Next(i, count) {
 		length += pl.Verts[i].Distance(pl.Verts[Next(i, count)])
 		if length > min {
 			return false
-- 
2.43.0


From 481d20d2c8b384e677f7b560c2ac51b5f9003a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:29 +0000
Subject: [PATCH 13/29] fix: curve simplification measures the reduced line
 instead of the original and panics

---
 polyline.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polyline.go b/polyline.go
index f341fd4..478fa25 100644
--- a/polyline.go
+++ b/polyline.go
@@ -77,7 +77,7 @@ func DouglasPeucker(verts []Vector, reduced *PolyLine, length, start, end int, m
 	b := verts[end]
 
 	// Check if the length is below the threshold
-	if a.Near(b, min) && reduced.IsShort(length, start, end, min) {
+	if a.Near(b, min) && (&PolyLine{Verts: verts}).IsShort(length, start, end, min) {
 		return reduced
 	}
 
-- 
2.43.0


From d5831850f64eb08e2dbb5fedfcc6244619baef36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:29 +0000
Subject: [PATCH 14/29] fix: simplifying a closed polyline with a straight seam
 leaves it open

---
 polyline.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/polyline.go b/polyline.go
index 478fa25..bbc0acb 100644
--- a/polyline.go
+++ b/polyline.go
@@ -62,6 +62,7 @@ func (pl *PolyLine) SimplifyVertexes(tol float64) *PolyLine {
 
 	if pl.IsClosed() && Sharpness(reduced.Verts[len(reduced.Verts)-2], reduced.Verts[0], reduced.Verts[1]) < minSharp {
 		reduced.Verts[0] = reduced.Verts[len(reduced.Verts)-2]
+		reduced.Verts = reduced.Verts[:len(reduced.Verts)-1]
 	}
 	return &reduced
 }
-- 
2.43.0


From 00e10361909a7b32e1405e2bb5ab1db3c77b0e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:29 +0000
Subject: [PATCH 15/29] fix: SpaceHash.Reindex empties the table and never
 fills it again

---
 spacehash.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spacehash.go b/spacehash.go
index bd2f098..a2be23f 100644
--- a/spacehash.go
+++ b/spacehash.go
@@ -103,7 +103,7 @@ func (hash *SpaceHash) Remove(obj *Shape, hashId HashValue) {
 func (hash *SpaceHash) Reindex() {
 	hash.clearTable()
 	hash.handleSet.Each(func(hand *Handle) {
-		hash.bbfunc(hand.obj)
+		hash.hashHandle(hand, hash.bbfunc(hand.obj))
 	})
 }
 
-- 
2.43.0


From cc85c3a94256e1103fc27f833e5a150f51b37257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:29 +0000
Subject: [PATCH 16/29] fix: changing the type of a sleeping body leaves it in
 its sleeping group

---
 body.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/body.go b/body.go
index 308e868..d62ffcb 100644
--- a/body.go
+++ b/body.go
@@ -150,6 +150,9 @@ func (body *Body) SetType(newType int) {
 		return
 	}
 
+	// Activate() does nothing for a body that is not dynamic, so wake the body up before it changes.
+	body.Activate()
+
 	if newType == BODY_STATIC {
 		body.sleepingIdleTime = INFINITY
 	} else {
-- 
2.43.0


From 85cea72dbb85b22546af8db3b87963cb0672d606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:29 +0000
Subject: [PATCH 17/29] fix: EachBody skips sleeping bodies when the callback
 wakes one up

---
 space.go | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/space.go b/space.go
index 44812bb..f667dff 100644
--- a/space.go
+++ b/space.go
@@ -901,23 +901,18 @@ func (space *Space) EachBody(f func(body *Body)) {
 	space.Lock()
 	defer space.Unlock(true)
 
-	for _, body := range space.dynamicBodies {
-		f(body)
+	// The callback may wake up bodies, which takes sleeping groups apart.
+	bodies := append([]*Body{}, space.dynamicBodies...)
+	bodies = append(bodies, space.staticBodies...)
+	for _, root := range space.sleepingComponents {
+		for body := root; body != nil; body = body.sleepingNext {
+			bodies = append(bodies, body)
+		}
 	}
 
-	for _, body := range space.staticBodies {
+	for _, body := range bodies {
 		f(body)
 	}
-
-	for _, root := range space.sleepingComponents {
-		body := root
-
-		for body != nil {
-			next := body.sleepingNext
-			f(body)
-			body = next
-		}
-	}
 }
 
 func (space *Space) EachShape(f func(*Shape)) {
-- 
2.43.0


From 29e4c52481b910b9d3430d77e26e8441a8f557f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:58 +0000
Subject: [PATCH 18/29] fix: BBTree.Reindex panics

---
 bbtree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bbtree.go b/bbtree.go
index e2c20e6..7eb5c88 100644
--- a/bbtree.go
+++ b/bbtree.go
@@ -316,7 +316,7 @@ func (tree *BBTree) Remove(obj *Shape, hashId HashValue) {
 }
 
 func (tree *BBTree) Reindex() {
-	panic("implement me")
+	tree.ReindexQuery(VoidQueryFunc, nil)
 }
 
 func (tree *BBTree) ReindexObject(obj *Shape, hashId HashValue) {
-- 
2.43.0


From f7cb4aedbb044e2472e0f1fd46a6cb0c76d273b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:58 +0000
Subject: [PATCH 19/29] fix: contact of a circle with a zero length segment is
 NaN

---
 collision.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/collision.go b/collision.go
index 87c078d..1e2a550 100644
--- a/collision.go
+++ b/collision.go
@@ -115,7 +115,10 @@ func CircleToSegment(info *CollisionInfo) {
 	center := circle.tc
 
 	segDelta := segB.Sub(segA)
-	closestT := Clamp01(segDelta.Dot(center.Sub(segA)) / segDelta.LengthSq())
+	var closestT float64
+	if lengthSq := segDelta.LengthSq(); lengthSq != 0 {
+		closestT = Clamp01(segDelta.Dot(center.Sub(segA)) / lengthSq)
+	}
 	closest := segA.Add(segDelta.Mult(closestT))
 
 	mindist := circle.r + segment.r
-- 
2.43.0


From f82d3c8d3800c697b1387be57ebfb45489ef713a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:06 +0000
Subject: [PATCH 20/29] fix: waking a body from a collision callback corrupts
 the contact lists

---
 space.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/space.go b/space.go
index f667dff..fbcba38 100644
--- a/space.go
+++ b/space.go
@@ -581,8 +581,13 @@ func (space *Space) ProcessComponents(dt float64) {
 			}
 		}
 
-		a.PushArbiter(arb)
-		b.PushArbiter(arb)
+		// Arbiters restored by a body that was woken from a callback are linked already.
+		if a.arbiterList != arb && arb.ThreadForBody(a).prev == nil {
+			a.PushArbiter(arb)
+		}
+		if b.arbiterList != arb && arb.ThreadForBody(b).prev == nil {
+			b.PushArbiter(arb)
+		}
 	}
 
 	if sleep {
-- 
2.43.0


From 7cfe4fd4ce5a0355197cf0bec325cca45d69e8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:06 +0000
Subject: [PATCH 21/29] fix: the second wildcard handler never sees a collision
 begin that the first refused

---
 arbiter.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/arbiter.go b/arbiter.go
index 3bca89c..e30309e 100644
--- a/arbiter.go
+++ b/arbiter.go
@@ -386,7 +386,9 @@ func DoNothing(_ *Arbiter, _ *Space, _ interface{}) {
 }
 
 func DefaultBegin(arb *Arbiter, space *Space, _ interface{}) bool {
-	return arb.CallWildcardBeginA(space) && arb.CallWildcardBeginB(space)
+	retA := arb.CallWildcardBeginA(space)
+	retB := arb.CallWildcardBeginB(space)
+	return retA && retB
 }
 
 func DefaultPreSolve(arb *Arbiter, space *Space, _ interface{}) bool {
-- 
2.43.0


From d3abe2434847c7232ff704bfb117bed641eda740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:06 +0000
Subject: [PATCH 22/29] fix: the second wildcard handler is not asked before
 solving when the first refused

---
 arbiter.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/arbiter.go b/arbiter.go
index e30309e..8adcd06 100644
--- a/arbiter.go
+++ b/arbiter.go
@@ -392,7 +392,9 @@ func DefaultBegin(arb *Arbiter, space *Space, _ interface{}) bool {
 }
 
 func DefaultPreSolve(arb *Arbiter, space *Space, _ interface{}) bool {
-	return arb.CallWildcardPreSolveA(space) && arb.CallWildcardPreSolveB(space)
+	retA := arb.CallWildcardPreSolveA(space)
+	retB := arb.CallWildcardPreSolveB(space)
+	return retA && retB
 }
 
 func DefaultPostSolve(arb *Arbiter, space *Space, _ interface{}) {
-- 
2.43.0


From 48f55e81d5fd5cab6e50fcf0acd75cfd4415d2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:34 +0000
Subject: [PATCH 23/29] fix: changing the type of a static body leaves the
 bodies resting on it asleep

---
 body.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/body.go b/body.go
index d62ffcb..9b52afb 100644
--- a/body.go
+++ b/body.go
@@ -151,7 +151,16 @@ func (body *Body) SetType(newType int) {
 	}
 
 	// Activate() does nothing for a body that is not dynamic, so wake the body up before it changes.
-	body.Activate()
+	// Bodies resting on a static body have to wake up too, as their contacts and joints with it come back into use.
+	if oldType == BODY_STATIC {
+		body.ActivateStatic(nil)
+		body.EachConstraint(func(constraint *Constraint) {
+			constraint.a.Activate()
+			constraint.b.Activate()
+		})
+	} else {
+		body.Activate()
+	}
 
 	if newType == BODY_STATIC {
 		body.sleepingIdleTime = INFINITY
-- 
2.43.0


From 9021c30a2a79ce15ee0957db13c51209054ff843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:09 +0000
Subject: [PATCH 24/29] fix: contact distances of an overlap test have the
 wrong sign when the shapes are swapped

---
 shape.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shape.go b/shape.go
index 51f7123..1ddaaed 100644
--- a/shape.go
+++ b/shape.go
@@ -264,7 +264,7 @@ func ShapesCollide(a, b *Shape) ContactPointSet {
 			set.Points[i].PointA = p1
 			set.Points[i].PointB = p2
 		}
-		set.Points[i].Distance = p2.Sub(p1).Dot(set.Normal)
+		set.Points[i].Distance = p2.Sub(p1).Dot(info.n)
 	}
 
 	return set
-- 
2.43.0


From d15eab20639303d0f76ea4f33037f554d98ef4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:40 +0000
Subject: [PATCH 25/29] fix: separated shapes in line with an edge are reported
 as touching

---
 collision.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/collision.go b/collision.go
index 1e2a550..fbc3949 100644
--- a/collision.go
+++ b/collision.go
@@ -241,14 +241,15 @@ func (v0 MinkowskiPoint) ClosestPoints(v1 MinkowskiPoint) ClosestPoints {
 	n := delta.ReversePerp().Normalize()
 	d := n.Dot(p)
 
-	if d <= 0 || (-1 < t && t < 1) {
+	d2 := p.Length()
+	if d2 <= -2*d || (-1 < t && t < 1) {
 		// If the shapes are overlapping, or we have a regular vertex/edge collision, we are done.
 		return ClosestPoints{pa, pb, n, d, id}
 	}
 
 	// Vertex/vertex collisions need special treatment since the MSA won't be shared with an axis of the minkowski difference.
-	d2 := p.Length()
-	n2 := p.Mult(1 / (d2 + 1e-15))
+	// An origin in line with the edge but beyond its end is one of them, even if d is zero or rounded to a negative number.
+	n2 := p.Mult(1 / d2)
 
 	return ClosestPoints{pa, pb, n2, d2, id}
 }
-- 
2.43.0


From 7666565747f9dd72a1286b7873fc753b78626e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:09 +0000
Subject: [PATCH 26/29] fix: concentric shapes collide with a zero normal and
 no depth

---
 collision.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/collision.go b/collision.go
index fbc3949..4d1daa3 100644
--- a/collision.go
+++ b/collision.go
@@ -375,6 +375,16 @@ func GJK(ctx SupportContext, collisionId *uint32) ClosestPoints {
 		v1 = ctx.Support(axis.Neg())
 	}
 
+	if v0.ab == v1.ab {
+		// The points do not span an axis (concentric or collinear shapes), look along other directions.
+		v0 = ctx.Support(Vector{1, 0})
+		v1 = ctx.Support(Vector{-1, 0})
+	}
+	if v0.ab == v1.ab {
+		v0 = ctx.Support(Vector{0, 1})
+		v1 = ctx.Support(Vector{0, -1})
+	}
+
 	points := GJKRecurse(ctx, v0, v1, 1)
 	*collisionId = points.collisionId
 	return points
-- 
2.43.0


From d5473841109bae35b01ff6a5bbd8fe31d6d7fa6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:45 +0000
Subject: [PATCH 27/29] fix: the overlap search stops when two corners coincide

---
 collision.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/collision.go b/collision.go
index 4d1daa3..341d56d 100644
--- a/collision.go
+++ b/collision.go
@@ -402,15 +402,25 @@ func GJKRecurse(ctx SupportContext, v0, v1 MinkowskiPoint, iteration int) Closes
 	}
 	t := v0.ab.ClosestT(v1.ab)
 	var n Vector
+	var corner bool
 	if -1.0 < t && t < 1.0 {
 		n = v1.ab.Sub(v0.ab).Perp()
 	} else {
 		n = v0.ab.LerpT(v1.ab, t).Neg()
+		if n.LengthSq() < 1e-20 {
+			// Two corners coincide, there is no direction towards the origin.
+			corner = true
+			n = v1.ab.Sub(v0.ab).Perp()
+		}
 	}
 	p := ctx.Support(n)
 
 	// Draw debug
 
+	if corner && !v0.ab.CheckAxis(v1.ab, p.ab, n) {
+		return EPA(ctx, v0, p, v1)
+	}
+
 	if p.ab.PointGreater(v0.ab, Vector{}) && v1.ab.PointGreater(p.ab, Vector{}) {
 		return EPA(ctx, v0, p, v1)
 	}
-- 
2.43.0


From 36555687fd2050cf76febef3e56a746e814198a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:45 +0000
Subject: [PATCH 28/29] fix: rounded shapes overlapping corner to corner get no
 contact

---
 collision.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/collision.go b/collision.go
index 341d56d..f8d89d1 100644
--- a/collision.go
+++ b/collision.go
@@ -352,6 +352,10 @@ func ContactPoints(e1, e2 Edge, points ClosestPoints, info *CollisionInfo) {
 			info.PushContact(p1, p2, hash1b2a)
 		}
 	}
+	if info.count == 0 {
+		// The edges do not face each other (corner to corner), use the closest points.
+		info.PushContact(points.a.Add(n.Mult(e1.r)), points.b.Add(n.Mult(-e2.r)), 0)
+	}
 }
 
 const hashCoef = 3344921057
-- 
2.43.0


From 0116156319ac1edc1575ba41b5e7ea591e6a3361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:32 +0000
Subject: [PATCH 29/29] fix: MomentForPoly ignores the offset of a two-vertex
 polygon

---
 everything.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/everything.go b/everything.go
index 5527359..8a0ede1 100644
--- a/everything.go
+++ b/everything.go
@@ -236,7 +236,7 @@ func MomentForSegment(mass float64, a, b Vector, r float64) float64 {
 // The offset is added to each vertex.
 func MomentForPoly(mass float64, count int, verts []Vector, offset Vector, r float64) float64 {
 	if count == 2 {
-		return MomentForSegment(mass, verts[0], verts[1], 0)
+		return MomentForSegment(mass, verts[0].Add(offset), verts[1].Add(offset), 0)
 	}
 
 	var sum1 float64
-- 
2.43.0

