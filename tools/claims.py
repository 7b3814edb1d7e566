T='contract-based deductive verification: contracts on the real functions, VCs generated from /repo source by govc, discharged by z3/cvc5; failed obligations replayed by runtime assertion checking of the same contracts'
BASE='All obligations proved for all inputs over real arithmetic (float rounding, overflow and NaN not modelled). Trusts govc, the Go type checker, z3 and cvc5.'
CLAIMS={
 'C01':('proof',T,BASE),
 'C02':('proof',T,BASE),
 'C03':('proof',T,BASE),
 'C04':('proof',T,BASE),
 'C05':('proof',T,BASE),
 'C06':('proof',T,BASE+' Contact distance of a polygon is stated edge by edge; NaN from 0/0 and square roots of negative numbers are modelled in these functions (option ieee).'),
 'C07':('proof',T,BASE+' Loop-free list walks use ghost list contracts (acyclic joint lists are an invariant of AddConstraint/RemoveConstraint, proved under C18).'),
 'C08':('proof',T,BASE+' Body.Activate is used through an assumed frame contract.'),
 'C09':('proof',T,BASE+' Body.Activate is used through an assumed frame contract.'),
 'C10':('proof',T,BASE),
 'C11':('proof',T,BASE),
 'C12':('proof',T,BASE+' User-supplied spring force callbacks are assumed free of side effects; joints between two immovable bodies are outside the contracts.'),
 'C13':('proof',T,BASE+' Joints between two immovable bodies are outside the contracts.'),
 'C14':('proof',T,BASE+' Joints between two immovable bodies are outside the contracts.'),
 'C18':('proof',T,BASE+' Ghost maps record list membership; Body.Activate is used through an assumed frame contract.'),
 'C25':('proof',T,BASE),
 'C29':('proof',T,BASE),
 'C30':('proof',T,BASE+' Space.LookupHandler is used through an assumed contract (it returns the default or a handler for the two types).'),
}
CLAIMS.update({
 'C24':('other',T+'; bounded random pairs against a brute-force oracle besides',BASE+' Proved: circle/circle and circle/segment exactly (when, where, normal, gap), clipping of edges, choice of the support edges, the decision of each pair function from the separation search, dispatch and orientation in Collide and ShapesCollide. The search itself is the subject of C32. That the points of a polygon pair lie on the two surfaces is explored within the stated bound.'),
 'C32':('other',T+'; bounded random pairs against a brute-force oracle besides',BASE+' Proved: support points, closest points of a segment of the difference, both recursions terminate, the answer lies on the two hulls and its distance is their gap along the normal, and the separation is the true one whenever the penetration search did not run and the iteration cap was not reached. The depth found by the penetration search (EPA) is explored within the stated bound; pairs whose difference is a single point are outside the contracts.'),
})
CLAIMS.update({
 'C26':('other',T+'; bounded random cells and grids besides',BASE+' The cell functions, the segment helpers and the sampling loop are proved (callbacks record what they receive in ghost logs; the cell callback is assumed not to write the sample buffer it cannot reach). That MarchSoft and MarchHard pass the matching cell function is only exercised by the bounded harness.'),
 'C27':('other',T+'; bounded random collections and polylines besides',BASE+' Proved: collection (new, extended, prepended, closed and joined lines, all others untouched, lines never sharing storage), vertices of a simplification come from the line (for an arbitrary predicate), end points and closedness, termination, and that a stretch is dropped only when all of it is within tolerance. The order of the kept vertices and the tolerance across several kept stretches are bounded (harness).'),
 'C31':('other',T+'; bounded random point sets besides',BASE+' Proved: extreme points, the partition step (points beyond the chord first, farthest in front, nothing gained or lost), memory safety and termination of the recursion. That the assembled hull encloses every point and is convex is bounded (harness).'),
})
CLAIMS.update({
 'C15':('other',T+'; bounded random operation histories besides',BASE+' Insert, Remove, Find, Filter (for a pure predicate), growth, recycling, construction and the table of primes are proved against ghost membership, for a table below the last prime of the table. Each, filters with side effects and the count as a cardinality are bounded (harness).'),
 'C23':('other',T+'; bounded random step histories besides',BASE+' Proved: headers, fresh buffers, pushing, taking and giving back contacts, also through the treatment of a candidate pair (SpaceCollideShapesFunc) (never two arrays sharing slots of a live buffer, never past its end). That a live arbiter never sees its buffer recycled across a history of steps is bounded (harness).'),
})
CLAIMS.update({
 'C20':('other',T+'; bounded random step histories with callbacks besides',BASE+' Proved: locking, registration under a key (kept once), each roused body put back exactly once, each pending callback run exactly once and in order with its own key and data, none while the space is locked. Space.Activate is used through an assumed contract; user callbacks are assumed to use the public API only (they may register more work and balance their locks).'),
 'C21':('other',T+'; bounded random step histories besides',BASE+' Proved: waking a body wakes its whole group and restarts its timers, directly or by any setter of a body, a joint or the wake-up setters of a shape, waking what rests on a static body, the flood fill yields a group closed under contacts and joints, component bookkeeping. The structure of groups and contact lists is assumed at entry (clauses marked assumes); deciding which groups fall asleep (ProcessComponents) and Space.SetGravity are bounded (harness).'),
 'C22':('other',T+'; bounded random histories against a membership model besides',BASE+' Proved: adding and removing awake bodies at a space, the contains-queries, adding and removing at a body (shape list), joint lists, body constructors, type changes. The space level operations AddShape and RemoveShape, whose index is reached through an assumed interface contract, are explored within the stated bound.'),
 'C28':('other',T+'; bounded random spaces against brute force besides',BASE+' Proved: what each query does with a candidate (kept, rejected, minimum updated, counted as a hit), and the point and segment queries of each shape. That the index offers every candidate whose bounds match is C16/C17; the whole query is explored within the stated bound.'),
})
CLAIMS.update({
 'C16':('other',T+'; bounded random operation histories against brute force besides',BASE+' Proved, for an arbitrary stored leaf: a box query visits it exactly when its box meets the query box, and once; a ray query visits it once when the ray reaches its box before every cut-off; nothing else is visited; insertion and removal of leaves at the node level, re-indexing of a leaf, removal of an object, the node pool. Also proved: BBTree.Insert, Remove, ReindexObject, ReindexQuery (afterwards every leaf covers the bounds of its object, no leaf is lost or invented), and the agreement of the hash set of leaves with the tree; what the pair functions may touch. The shape of the tree is assumed at the entry of queries and re-established by every modification. The pairs reported by a step are explored only by bounded random histories against brute force.'),
})
CLAIMS.update({
 'C17':('other',T+'; bounded random operation histories against brute force besides',BASE+' Proved, for an arbitrary cell and an arbitrary handle: rounding down, the cell hash, hashing a handle puts it once into every cell its box touches and nowhere else, a query visits each live candidate of the touched cells exactly once and nothing else, removal of orphaned handles, handle reference counts, bin recycling. Also proved: Insert, Remove, Contains, Count, Reindex, ReindexObject (the object is filed in every cell its box touches), clearing the table; the ray query offers nothing twice and nothing that is not stored. Which cells a ray passes and the pairs ReindexQuery reports are explored within the stated bound; handles come from a sync.Pool whose Get is unconstrained.'),
 'C19':('other',T+'; bounded random step histories with recording callbacks besides',BASE+' Proved: the whole treatment of one candidate pair of a step (SpaceCollideShapesFunc: filtered pairs reach no callback, a touching pair is begun once and pre-solved once by its own handler, only accepted solid pairs reach the solver), which handler a pair gets (LookupHandler, Arbiter.Update), which order and with which arguments the wildcard and default callbacks run, expiry of cached arbiters and the separate callback with it. User callbacks are assumed to record only through the ghost log and to use the public API. The order of callbacks across a whole history of steps is explored within the stated bound.'),
})
NA={}
