// Space membership (C22)
spec samebodies(bodies []*Body, before []*Body) bool = same(bodies, before)

func Space.AddBody(space, body)
  prop C22
  requires body != nil && arr(space.staticBodies) != arr(space.dynamicBodies)
  modifies space.staticBodies, space.dynamicBodies, elems(space.staticBodies), elems(space.dynamicBodies), body.space
  ensures result: result == body && body.space == space
  ensures static: isstatic(body) ==> len(space.staticBodies) == old(len(space.staticBodies)) + 1 && space.staticBodies[old(len(space.staticBodies))] == body && same(space.dynamicBodies, old(space.dynamicBodies))
  ensures moving: !isstatic(body) ==> len(space.dynamicBodies) == old(len(space.dynamicBodies)) + 1 && space.dynamicBodies[old(len(space.dynamicBodies))] == body && same(space.staticBodies, old(space.staticBodies))
  ensures kept: forall(k, 0, old(len(space.staticBodies)), space.staticBodies[k] == old(space.staticBodies[k])) && forall(k, 0, old(len(space.dynamicBodies)), space.dynamicBodies[k] == old(space.dynamicBodies[k]))

func Space.RemoveBody(space, body)
  prop C22
  requires body != nil && arr(space.staticBodies) != arr(space.dynamicBodies)
  requires !isdynamic(body) || body.sleepingRoot == nil
  requires forall(k, 0, len(space.staticBodies), forall(j, 0, k, space.staticBodies[j] != space.staticBodies[k])) && forall(k, 0, len(space.dynamicBodies), forall(j, 0, k, space.dynamicBodies[j] != space.dynamicBodies[k]))
  requires isstatic(body) ==> !listed(space.dynamicBodies, body)
  requires !isstatic(body) ==> !listed(space.staticBodies, body)
  modifies @wake, space.staticBodies, space.dynamicBodies, body.space
  loop 0: invariant forall(k, 0, LI, space.staticBodies[k] != body) && same(space.staticBodies, entry(space.staticBodies)) && forall(k, 0, len(space.staticBodies), space.staticBodies[k] == entry(space.staticBodies[k]))
  loop 1: invariant forall(k, 0, LI, space.dynamicBodies[k] != body) && same(space.dynamicBodies, entry(space.dynamicBodies)) && forall(k, 0, len(space.dynamicBodies), space.dynamicBodies[k] == entry(space.dynamicBodies[k]))
  ensures gone: body.space == nil && !listed(space.staticBodies, body) && !listed(space.dynamicBodies, body)
  ensures static: old(listed(space.staticBodies, body)) ==> len(space.staticBodies) == old(len(space.staticBodies)) - 1
  ensures moving: old(listed(space.dynamicBodies, body)) ==> len(space.dynamicBodies) == old(len(space.dynamicBodies)) - 1
  ensures others: forall(k, 0, old(len(space.staticBodies)), old(space.staticBodies[k]) != body ==> listed(space.staticBodies, old(space.staticBodies[k]))) && forall(k, 0, old(len(space.dynamicBodies)), old(space.dynamicBodies[k]) != body ==> listed(space.dynamicBodies, old(space.dynamicBodies[k])))

func Space.ContainsBody(space, body)
  prop C22
  requires body != nil
  ensures exact: result == (body.space == space)

func Space.ContainsShape(space, shape)
  prop C22
  requires shape != nil
  ensures exact: result == (shape.space == space)

func Space.ContainsConstraint(space, constraint)
  prop C22
  requires constraint != nil
  ensures exact: result == (constraint.space == space)

func Shape.SetSensor(s, sensor)
  prop C21
  requires s.body != nil
  modifies @wake, s.sensor
  ensures set: s.sensor == sensor
  ensures wakes: roused(s.body)

func Shape.SetCollisionType(s, kind)
  prop C21
  requires s.body != nil
  modifies @wake, s.collisionType
  ensures set: s.collisionType == kind
  ensures wakes: roused(s.body)

func Shape.SetFriction(s, u)
  prop C21
  requires s.body != nil
  modifies @wake, s.u
  ensures set: s.u == u
  ensures wakes: roused(s.body)

func Shape.SetElasticity(s, e)
  prop C21
  requires s.body != nil
  modifies @wake, s.e
  ensures set: s.e == e
  ensures wakes: roused(s.body)

func Shape.SetFilter(s, filter)
  prop C21
  requires s.body != nil
  modifies @wake, s.Filter
  ensures set: s.Filter == filter
  ensures wakes: roused(s.body)
