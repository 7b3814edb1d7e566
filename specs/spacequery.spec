// Space-level queries: what is done with one candidate shape (C07, C28)

spec neardist(s *Shape, p Vector, d float64) bool = ite(typeis(s.Class, *Circle), let(c, s.Class.(*Circle), d == vlen(p - c.tc) - c.r),
   ite(typeis(s.Class, *Segment), let(g, s.Class.(*Segment), d == vlen(p - closest(p, g.ta, g.tb)) - g.r),
   let(q, s.Class.(*PolyShape), forall(k, 0, q.count, abs(d + q.r) <= pdist(q, p, k)) && exists(k, 0, q.count, abs(d + q.r) == pdist(q, p, k)) && ite(pinside(q, p), d + q.r <= 0, d + q.r >= 0))))
spec queryable(s *Shape, p Vector) bool = shapeok(s) && (typeis(s.Class, *Circle) ==> s.Class.(*Circle).r >= 0) && (typeis(s.Class, *Segment) ==> segok(s.Class.(*Segment)))
   && (typeis(s.Class, *PolyShape) ==> let(q, s.Class.(*PolyShape), q.r >= 0 && forall(k, 0, q.count, pdist(q, p, k) <= 1e29 && unit(q.planes[k].n))))

func Shape.PointQuery(s, p)
  prop C05 C28
  requires queryable(s, p)
  ensures shape: result.Shape == s
  ensures distance: neardist(s, p, result.Distance)

func NearestPointQueryNearest(obj, shape, collisionId, out)
  prop C07 C28
  requires typeis(obj, *PointQueryContext) && typeis(out, *PointQueryInfo) && obj.(*PointQueryContext) != nil && out.(*PointQueryInfo) != nil && shape != nil
  requires queryable(shape, obj.(*PointQueryContext).point)
  modifies *(out.(*PointQueryInfo))
  ensures result: result == collisionId
  ensures skipped: shape.sensor || rejects(shape.Filter, obj.(*PointQueryContext).filter) ==> let(o, out.(*PointQueryInfo), o.Shape == old(o.Shape) && o.Distance == old(o.Distance) && o.Point == old(o.Point))
  ensures closer: let(o, out.(*PointQueryInfo), o.Distance == old(o.Distance) && o.Shape == old(o.Shape) && o.Point == old(o.Point) || o.Distance < old(o.Distance) && o.Shape == shape && neardist(shape, obj.(*PointQueryContext).point, o.Distance))
  ensures nearest: !shape.sensor && !rejects(shape.Filter, obj.(*PointQueryContext).filter) ==> existsT(d, real, neardist(shape, obj.(*PointQueryContext).point, d) && out.(*PointQueryInfo).Distance == min(old(out.(*PointQueryInfo).Distance), d))

// reports counts the callback runs per shape
ghost map reports(s *Shape) int

functype SpaceBBQueryFunc(shape, data)
  modifies *
  ensures once: forallT(s, *Shape, reports(s) == old(reports(s)) + ite(s == shape, 1, 0))

func Space.bbQuery(space, obj, shape, collisionId, data)
  prop C07 C28
  requires typeis(obj, *BBQueryContext) && obj.(*BBQueryContext) != nil && shape != nil
  modifies *
  ensures result: result == collisionId
  ensures exact: reports(shape) == old(reports(shape)) + old(ite(!rejects(shape.Filter, obj.(*BBQueryContext).filter) && overlapping(shape.bb, obj.(*BBQueryContext).bb), 1, 0))
  ensures others: forallT(s, *Shape, s != shape ==> reports(s) == old(reports(s)))

functype SpaceSegmentQueryFunc(shape, point, normal, alpha, data)
  modifies *
  ensures once: forallT(s, *Shape, reports(s) == old(reports(s)) + ite(s == shape, 1, 0))

func segmentQuery(obj, shape, data)
  prop C07 C28
  requires typeis(obj, *SegmentQueryContext) && obj.(*SegmentQueryContext) != nil && shape != nil && obj.(*SegmentQueryContext).radius >= 0
  requires queryable(shape, obj.(*SegmentQueryContext).start)
  modifies *
  ensures result: result == 1
  ensures skipped: old(rejects(shape.Filter, obj.(*SegmentQueryContext).filter)) ==> reports(shape) == old(reports(shape))
  ensures others: forallT(s, *Shape, s != shape ==> reports(s) == old(reports(s)))
  ensures inside: old(!rejects(shape.Filter, obj.(*SegmentQueryContext).filter) && touching(shape, obj.(*SegmentQueryContext).start, obj.(*SegmentQueryContext).radius)) ==> reports(shape) == old(reports(shape)) + 1
  ensures circle: old(!rejects(shape.Filter, obj.(*SegmentQueryContext).filter) && typeis(shape.Class, *Circle) && let(c, shape.Class.(*Circle), let(q, obj.(*SegmentQueryContext), existsT(t, real, 0 <= t && t <= 1 && cgap(c.tc, q.start, q.end, c.r + q.radius, t) <= 0)))) ==> reports(shape) == old(reports(shape)) + 1

func queryFirst(obj, shape, data)
  prop C07 C28
  requires typeis(obj, *SegmentQueryContext) && obj.(*SegmentQueryContext) != nil && typeis(data, *SegmentQueryInfo) && data.(*SegmentQueryInfo) != nil && shape != nil && obj.(*SegmentQueryContext).radius >= 0
  requires queryable(shape, obj.(*SegmentQueryContext).start)
  modifies *(data.(*SegmentQueryInfo))
  ensures result: result == data.(*SegmentQueryInfo).Alpha
  ensures skipped: shape.sensor || rejects(shape.Filter, obj.(*SegmentQueryContext).filter) ==> kept(data.(*SegmentQueryInfo))
  ensures smaller: kept(data.(*SegmentQueryInfo)) || data.(*SegmentQueryInfo).Shape == shape && data.(*SegmentQueryInfo).Alpha < old(data.(*SegmentQueryInfo).Alpha)
  ensures inside: !shape.sensor && !rejects(shape.Filter, obj.(*SegmentQueryContext).filter) && touching(shape, obj.(*SegmentQueryContext).start, obj.(*SegmentQueryContext).radius) ==> data.(*SegmentQueryInfo).Alpha <= 0
  ensures circle: !shape.sensor && !rejects(shape.Filter, obj.(*SegmentQueryContext).filter) && typeis(shape.Class, *Circle) ==> let(c, shape.Class.(*Circle), let(q, obj.(*SegmentQueryContext), forallT(t, real, 0 <= t && t <= 1 && cgap(c.tc, q.start, q.end, c.r + q.radius, t) <= 0 ==> data.(*SegmentQueryInfo).Alpha <= t || data.(*SegmentQueryInfo).Alpha <= 0 || old(data.(*SegmentQueryInfo).Alpha) <= data.(*SegmentQueryInfo).Alpha && old(data.(*SegmentQueryInfo).Alpha) <= t)))
