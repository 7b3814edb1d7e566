// Deferred work (C20)
//
// ncalls(space): post-step callbacks run so far; callkey, calldata, callcode log them in order.
// regs(space): callbacks registered so far. roused(b): times the body was put back by an unlocking space.
ghost map ncalls(space *Space) int
ghost map callkey(space *Space, n int) int
ghost map calldata(space *Space, n int) int
ghost map callcode(space *Space, n int) int
ghost map regs(space *Space) int

// place(c): where the record stands in the list
ghost map place(c *PostStepCallback) int
spec pendingok(space *Space, from int) bool = forall(k, 0, len(space.postStepCallbacks), allocated(space.postStepCallbacks[k]) && space.postStepCallbacks[k] != nil && place(space.postStepCallbacks[k]) == k && (k >= from ==> space.postStepCallbacks[k].callback != nil))
spec pendsame(space *Space, from int, to int) bool = forall(k, from, to, space.postStepCallbacks[k] == old(space.postStepCallbacks[k])) && forall(k, from, to, ref(space.postStepCallbacks[k].key) == old(ref(space.postStepCallbacks[k].key))) && forall(k, from, to, ref(space.postStepCallbacks[k].data) == old(ref(space.postStepCallbacks[k].data))) && forall(k, from, to, ref(space.postStepCallbacks[k].callback) == old(ref(space.postStepCallbacks[k].callback)))

func Space.Lock(space)
  prop C20
  modifies space.locked
  ensures locked: space.locked == old(space.locked) + 1

func Contains(bodies, body)
  prop C20 C21
  loop 0: invariant 0 <= i && forall(k, 0, i, bodies[k] != body)
  ensures exact: result == exists(k, 0, len(bodies), bodies[k] == body)

func PostStepDoNothing(space, key, data)
  prop C20
  ensures nothing: true

func Space.PostStepCallback(space, key)
  prop C20
  loop 0: invariant 0 <= i && forall(k, 0, i, space.postStepCallbacks[k] == nil || !(space.postStepCallbacks[k].key == key))
  ensures found: result != nil ==> result.key == key && exists(k, 0, len(space.postStepCallbacks), space.postStepCallbacks[k] == result)
  ensures missing: result == nil ==> forall(k, 0, len(space.postStepCallbacks), space.postStepCallbacks[k] == nil || !(space.postStepCallbacks[k].key == key))

func Space.AddPostStepCallback(space, f, key, data)
  prop C20
  requires pendingok(space, 0)
  modifies space.postStepCallbacks, elems(space.postStepCallbacks), regs(space), ghostall(place)
  set regs(space) := old(regs(space)) + ite(result, 1, 0)
  set place(space.postStepCallbacks[len(space.postStepCallbacks) - 1]) := len(space.postStepCallbacks) - 1
  ensures refused: result == (key == nil || !old(exists(k, 0, len(space.postStepCallbacks), space.postStepCallbacks[k].key == key)))
  ensures kept: forall(k, 0, old(len(space.postStepCallbacks)), space.postStepCallbacks[k] == old(space.postStepCallbacks[k]))
  ensures grown: len(space.postStepCallbacks) == old(len(space.postStepCallbacks)) + ite(result, 1, 0)
  ensures added: result ==> let(c, space.postStepCallbacks[len(space.postStepCallbacks) - 1], c.key == key && c.data == data && (f != nil ==> same(c.callback, f)))
  ensures pending: pendingok(space, 0)

functype PostStepCallbackFunc(f, space, key, data)
  requires space.locked == 0
  modifies *
  ensures count: ncalls(space) == old(ncalls(space)) + 1
  ensures logged: let(n, old(ncalls(space)), callkey(space, n) == ref(key) && calldata(space, n) == ref(data) && callcode(space, n) == ref(f))
  ensures keptlog: forallT(n, int, n < old(ncalls(space)) ==> callkey(space, n) == old(callkey(space, n)) && calldata(space, n) == old(calldata(space, n)) && callcode(space, n) == old(callcode(space, n)))
  ensures balanced: space.locked == 0 && space.skipPostStep == old(space.skipPostStep)
  ensures appends: len(space.postStepCallbacks) - old(len(space.postStepCallbacks)) == regs(space) - old(regs(space)) && regs(space) >= old(regs(space))
  ensures kept: pendsame(space, 0, old(len(space.postStepCallbacks)))
  ensures pending: forallT(i, int, 0 <= i && i <= old(len(space.postStepCallbacks)) && old(pendingok(space, i)) ==> pendingok(space, i))

ghost map putback(b *Body) int
spec listed(bodies []*Body, b *Body) bool = exists(k, 0, len(bodies), bodies[k] == b)

func Space.Activate(space, body)
  prop C20 C21
  option trusted; norac
  requires body != nil
  modifies @restore
  ensures once: forallT(b, *Body, old(allocated(b)) ==> putback(b) == old(putback(b)) + ite(b == body && space.locked == 0, 1, 0))
  ensures deferred: space.locked != 0 ==> len(space.dynamicBodies) == old(len(space.dynamicBodies)) && len(space.rousedBodies) == old(len(space.rousedBodies)) + ite(old(listed(space.rousedBodies, body)), 0, 1) && listed(space.rousedBodies, body) && forall(k, 0, old(len(space.rousedBodies)), space.rousedBodies[k] == old(space.rousedBodies[k]))
  ensures back: space.locked == 0 ==> len(space.dynamicBodies) == old(len(space.dynamicBodies)) + 1 && space.dynamicBodies[old(len(space.dynamicBodies))] == body && forall(k, 0, old(len(space.dynamicBodies)), space.dynamicBodies[k] == old(space.dynamicBodies[k]))
  ensures kept: space.locked == 0 ==> same(space.rousedBodies, old(space.rousedBodies)) && (old(arr(space.dynamicBodies) != arr(space.rousedBodies)) ==> arr(space.dynamicBodies) != arr(space.rousedBodies) && forall(k, 0, len(space.rousedBodies), space.rousedBodies[k] == old(space.rousedBodies[k])))

func Space.Unlock(space, runPostStep)
  prop C20
  requires space.locked >= 1 && arr(space.dynamicBodies) != arr(space.rousedBodies)
  requires forall(k, 0, len(space.rousedBodies), space.rousedBodies[k] != nil && forall(j, 0, k, space.rousedBodies[j] != space.rousedBodies[k]))
  requires pendingok(space, 0)
  modifies *
  loop 0: invariant 0 <= i && i <= len(space.rousedBodies) && same(space.rousedBodies, old(space.rousedBodies)) && arr(space.dynamicBodies) != arr(space.rousedBodies)
  loop 0: invariant forall(k, i, len(space.rousedBodies), space.rousedBodies[k] == old(space.rousedBodies[k]))
  loop 0: invariant forallT(b, *Body, old(allocated(b)) ==> putback(b) == old(putback(b)) + ite(exists(k, 0, i, old(space.rousedBodies[k]) == b), 1, 0))
  loop 1: invariant 0 <= i && i <= len(space.postStepCallbacks) && space.locked == 0 && space.skipPostStep && pendingok(space, i)
  loop 1: invariant ncalls(space) == old(ncalls(space)) + i
  loop 1: invariant regs(space) - old(regs(space)) == len(space.postStepCallbacks) - old(len(space.postStepCallbacks)) && regs(space) >= old(regs(space))
  loop 1: invariant forall(k, i, old(len(space.postStepCallbacks)), space.postStepCallbacks[k] == old(space.postStepCallbacks[k]))
  loop 1: invariant forall(k, i, old(len(space.postStepCallbacks)), ref(space.postStepCallbacks[k].key) == old(ref(space.postStepCallbacks[k].key)))
  loop 1: invariant forall(k, i, old(len(space.postStepCallbacks)), ref(space.postStepCallbacks[k].data) == old(ref(space.postStepCallbacks[k].data)))
  loop 1: invariant forall(k, i, old(len(space.postStepCallbacks)), ref(space.postStepCallbacks[k].callback) == old(ref(space.postStepCallbacks[k].callback)))
  loop 1: invariant forall(k, 0, min(i, old(len(space.postStepCallbacks))), let(n, old(ncalls(space)) + k, callkey(space, n) == old(ref(space.postStepCallbacks[k].key)) && calldata(space, n) == old(ref(space.postStepCallbacks[k].data)) && callcode(space, n) == old(ref(space.postStepCallbacks[k].callback))))
  ensures woken: old(space.locked) == 1 && (!runPostStep || old(space.skipPostStep)) ==> len(space.rousedBodies) == 0 && forallT(b, *Body, old(allocated(b)) ==> putback(b) == old(putback(b)) + ite(old(listed(space.rousedBodies, b)), 1, 0))
  ensures notyet: old(space.locked) > 1 ==> same(space.rousedBodies, old(space.rousedBodies)) && forallT(b, *Body, old(allocated(b)) ==> putback(b) == old(putback(b)))
  ensures held: old(space.locked) > 1 || !runPostStep || old(space.skipPostStep) ==> ncalls(space) == old(ncalls(space))
  ensures still: old(space.locked) > 1 ==> space.locked == old(space.locked) - 1 && len(space.postStepCallbacks) == old(len(space.postStepCallbacks))
  ensures each: old(space.locked) == 1 && runPostStep && !old(space.skipPostStep) ==> len(space.postStepCallbacks) == 0 && ncalls(space) - old(ncalls(space)) == old(len(space.postStepCallbacks)) + regs(space) - old(regs(space))
  ensures order: old(space.locked) == 1 && runPostStep && !old(space.skipPostStep) ==> forall(k, 0, old(len(space.postStepCallbacks)), let(n, old(ncalls(space)) + k, callkey(space, n) == old(ref(space.postStepCallbacks[k].key)) && calldata(space, n) == old(ref(space.postStepCallbacks[k].data)) && callcode(space, n) == old(ref(space.postStepCallbacks[k].callback))))
