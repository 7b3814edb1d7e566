p('C01','Vector and scalar helpers obey their mathematical definitions',
 "Every vector and scalar helper returns the value its mathematical definition prescribes: sums, products, rotations and their inverses, projections, interpolation that hits its endpoints, clamping that never exceeds the bound and leaves in-range values alone, and normalisation that keeps the direction. The closest point on a segment lies on that segment and no point of the segment is nearer.",
 ['inputs'],'all finite vectors and scalars (real-number semantics; rounding excluded)',
 'one test normalises the zero vector; nothing samples the other thirty operations, and no sample settles an identity over all reals',
 ['vector.go'],[('component-wise formulas','vector.go Vector methods'),('clamping by math.Min/Max','vector.go Clamp, Clamp01, LerpConst')],observe=['return values'])
p('C02','Transforms compose, invert and map boxes correctly',
 "Applying a product of transforms equals applying them one after the other, the inverse (and, for rigid transforms, the rigid inverse) undoes a transform for every point, and the translate, scale, rotate, rigid, bone-scale, axial-scale and orthographic constructors map points as their names say. Transforming a box yields the smallest axis-aligned box containing the image of every point of the original box.",
 ['inputs'],'all finite transforms (non-singular where inverted), points and boxes (real-number semantics)',
 'no test builds a transform; the laws are identities over a six-parameter family',
 ['transform.go'],[('matrix formulas with transposed field order','transform.go NewTransformTranspose, Mult, Inverse'),('extent computation','transform.go BB')],observe=['Point, Vect and BB of the results'])
p('C03','Bounding-box operations are exact',
 "Intersection tests are true exactly when the two boxes share a point, containment exactly when every point of one is in the other, and merge and expand give the smallest box holding both arguments. Clamping and wrapping a point land inside the box, and the segment test returns the smallest fraction in [0,1] at which the segment is inside the box, or the 'no hit' value exactly when the segment misses it.",
 ['inputs'],'all boxes with left<=right and bottom<=top, all points and segments (real-number semantics)',
 'no test calls these operations; boundary contacts and degenerate segments are a measure-zero set no sample hits',
 ['bb.go'],[('interval comparisons','bb.go Intersects, Contains, ContainsVect'),('slab clipping','bb.go SegmentQuery')],observe=['return values'])
p('C04','Cached shape bounds tightly enclose the shape',
 "After a shape is updated for a body transform, its bounding box contains every point of the transformed, radius-expanded circle, segment or polygon, and each side of the box is touched by the shape. The shape's world-space vertices and face normals are the images of its local ones under that same transform.",
 ['inputs'],'every circle, segment and polygon (any vertex count), every radius >= 0, every transform (real-number semantics)',
 'tests use one circle and one box at a few positions; a box that is too small silently loses collisions only in particular orientations',
 ['circle.go','segment.go','poly.go','shape.go'],[('CacheData per shape class','circle.go, segment.go, poly.go'),('Shape.Update / CacheBB','shape.go')],
 state=[('bounding box','what the broad phase sees of a shape','shape.go Shape')],observe=['Shape.BB, TransformA/B/C, TransformVert'])
p('C05','Point queries give the nearest surface point and the signed distance',
 "For a point query against a circle, segment or polygon the reported distance is the distance to the nearest point of the shape's core minus its radius (negated core distance when the point is inside a polygon), the reported point lies on the shape's surface at exactly that distance from the query point, and the gradient is the unit direction away from the shape.",
 ['inputs'],'every circle, segment and polygon (any vertex count), every query point not on the core itself (real-number semantics)',
 'no test performs a point query; nearest-feature selection is a case split over an unbounded number of edges',
 ['circle.go','segment.go','poly.go','shape.go'],[('closest point on segment, edge scan','poly.go PointQuery, segment.go PointQuery'),('wrapper that initialises the result','shape.go PointQuery')],observe=['PointQueryInfo'])
p('C06','Segment queries against a shape report a true surface hit',
 "A reported hit has a fraction in [0,1] at which the swept circle of the query radius touches the shape's rounded surface, with the surface point and an outward normal facing the start of the query, and for a circle it is the first such fraction and is reported whenever one exists. A miss leaves the result at 'no shape, fraction 1, end point', and a query that starts inside the shape reports fraction 0.",
 ['inputs'],'every shape, every query segment and radius >= 0 (real-number semantics)',
 'no test casts a ray; hits depend on root selection and side selection that hold or fail on open regions of a 9-dimensional input space',
 ['circle.go','segment.go','poly.go','shape.go'],[('quadratic root selection','circle.go CircleSegmentQuery'),('side selection and end caps','segment.go SegmentQuery'),('face clipping and bevels','poly.go SegmentQuery')],observe=['SegmentQueryInfo, boolean result'])
p('C07','Filters decide exactly which pairs may collide',
 "Two shapes are kept apart exactly when they share a body, share a non-zero group, fail one of the two category/mask tests, have disjoint bounds, or their bodies are connected by a joint that disables collision; the decision does not depend on the order of the two shapes. Queries skip exactly the shapes whose filter rejects the query filter.",
 ['inputs','configurations'],'all filters, all shape pairs, joint lists of any length and order',
 'no test sets a filter or a non-colliding joint; the rule is a boolean function of 64-bit masks and of an unbounded list',
 ['everything.go','space.go'],[('ShapeFilter.Reject','everything.go'),('QueryReject, QueryRejectConstraints','space.go')],observe=['whether a pair reaches the narrow phase','query callbacks'])
p('C08','Body mass, centre of gravity and moment follow its shapes',
 "When a dynamic body's mass comes from its shapes, its mass is the sum of the shape masses, its centre of gravity their mass-weighted mean and its moment the parallel-axis sum about that centre, while the body's position stays where it was. Mass and moment always agree with the stored inverses, and static and kinematic bodies have infinite mass and moment and no velocity.",
 ['inputs','histories'],'any number of shapes with any non-negative masses, any order of adding, removing and re-massing (real-number semantics)',
 'two tests add two circles; the sum is over lists of any length and the moment and inverses are never read',
 ['body.go','shape.go'],[('AccumulateMassFromShapes','body.go'),('SetType, SetMass, SetMoment','body.go'),('AddShape / RemoveShape / Shape.SetMass','body.go, shape.go')],
 state=[('mass, moment and their inverses','what the solver divides by','body.go Body')],observe=['Mass, Moment, CenterOfGravity, Position'])
p('C09','Body frames, setters, forces and impulses are consistent',
 "Reading a body's position, angle, velocity, force or torque returns what was last set; local-to-world and world-to-local conversions are mutual inverses and follow the body's position and angle. A force or impulse applied at a point changes linear and angular quantities by exactly that force and its moment about the centre of gravity, and the velocity reported at a point is the rigid-body velocity there, in world and local form alike.",
 ['inputs'],'all bodies (any centre of gravity, position, angle), all points, forces and impulses (real-number semantics)',
 'tests never read back a conversion or a velocity; the identities hold or fail on a continuum of states',
 ['body.go'],[('SetTransform with centre-of-gravity offset','body.go'),('ApplyForceAt*, ApplyImpulseAt*, VelocityAt*','body.go')],observe=['Body getters'])
p('C10','Integration advances awake bodies by the documented rule',
 "The default velocity update sets v to v*damping + (gravity + f/m)*dt and w to w*damping + t/I*dt and then clears force and torque, leaving kinematic bodies alone; the default position update advances position and angle by velocity (plus the one-step overlap correction, which it then clears) times dt and refreshes the transform.",
 ['inputs'],'all body states, all gravity, damping and dt (real-number semantics)',
 'no test steps a space; a sign or ordering slip changes every trajectory but no existing assertion',
 ['body.go'],[('BodyUpdateVelocity, BodyUpdatePosition','body.go')],observe=['Position, Velocity, Angle, AngularVelocity after an update'])
p('C11','Contact solving conserves momentum, only pushes and obeys friction',
 "Each contact-solver pass applies to the two bodies equal and opposite impulses at the contact points, keeps every accumulated normal impulse non-negative and every accumulated friction impulse within the friction coefficient times the normal impulse, and never moves a body of infinite mass. For a single frictionless contact that is not clamped, the pass leaves the bodies with exactly the target bounce velocity along the normal.",
 ['inputs','histories'],'all body states, contact sets of up to two points, any number of passes (real-number semantics)',
 'no test creates a colliding pair of moving bodies',
 ['arbiter.go','everything.go'],[('Arbiter.ApplyImpulse, ApplyCachedImpulse, PreStep','arbiter.go'),('k_scalar','everything.go')],
 state=[('accumulated impulses','warm-starting state clamped by the solver','everything.go Contact')],observe=['velocities after the pass','TotalImpulse'])
p('C12','Joint impulses are equal and opposite',
 "Every joint, in its preparation, warm-start and solving phases, changes the velocities of its two bodies by an equal and opposite impulse acting at its anchors (a pure couple for rotary joints, in gear ratio for gears), so the pair's momentum is unchanged and a body of infinite mass and moment is never moved. Nothing but the two bodies' velocities and the joint's own state changes.",
 ['inputs'],'all ten joint kinds, all body states and joint parameters (real-number semantics)',
 'no test creates a joint',
 ['pinjoint.go','slidejoint.go','pivotjoint.go','groovejoint.go','dampedspring.go','dampedrotaryspring.go','rotarylimitjoint.go','ratchetjoint.go','gearjoint.go','simplemotor.go','arbiter.go'],
 [('apply_impulses','arbiter.go'),('PreStep/ApplyCachedImpulse/ApplyImpulse of each joint','*joint.go, damped*.go, simplemotor.go')],observe=['body velocities'])
p('C13','Joints respect force and correction limits and act only one way when one-sided',
 "After any solving pass the accumulated impulse of every joint other than the damped springs is at most its maximum force times the time step, and the corrective velocity of every joint is at most its maximum bias. Slide, rotary-limit and ratchet joints only ever push back towards their permitted range and exert nothing while inside it.",
 ['inputs','histories'],'all joint parameters including zero and unlimited force, all body states, any number of passes (real-number semantics)',
 'no test creates a joint',
 ['pinjoint.go','slidejoint.go','pivotjoint.go','groovejoint.go','rotarylimitjoint.go','ratchetjoint.go','gearjoint.go','simplemotor.go'],
 [('Clamp of accumulated impulse','ApplyImpulse of each joint'),('Clamp of bias','PreStep of each joint')],observe=['Constraint.Class.GetImpulse, body velocities'])
p('C14','An unlimited joint pass meets its velocity target exactly',
 "When the force limit does not bind, one solving pass of a pin, slide, pivot, gear, motor, rotary-limit, ratchet or spring joint leaves the constrained relative velocity of the two bodies exactly at the joint's target, where the target is zero relative velocity (or the motor rate) plus a correction proportional to, and opposing, the current position error. The anchors and axes used are the current world positions of the joint's anchors.",
 ['inputs'],'all body states and joint parameters with at least one movable body (real-number semantics)',
 'no test creates a joint; a wrong effective mass still looks like a soft joint in a short run',
 ['pinjoint.go','slidejoint.go','pivotjoint.go','gearjoint.go','simplemotor.go','rotarylimitjoint.go','ratchetjoint.go','dampedspring.go','dampedrotaryspring.go','everything.go'],
 [('effective mass: k_scalar, k_tensor, iSum','everything.go and joints'),('bias computation','PreStep of each joint')],observe=['relative velocity after a pass'])
p('C15','The hash set is a faithful set for every history of operations',
 "After any sequence of insertions, removals and filterings the set holds exactly the elements inserted and not since removed: lookups find an element if and only if it is present, re-inserting returns the existing element, enumeration visits each element exactly once, and the count equals the number of elements, across growth and recycling.",
 ['histories','inputs'],'all hash values (any collisions), all operation sequences, all table sizes',
 'no test touches the set directly; chains, growth and recycling only appear after specific collision and removal histories',
 ['hashset.go'],[('separate chaining with pooled bins','hashset.go Insert, Remove, Filter, resize')],
 state=[('table of chains','contents','hashset.go HashSet'),('entry count','drives growth','hashset.go HashSet')],observe=['Count, Find, Each, return values'])
p('C16','The bounding-box tree finds every stored object overlapping a query',
 "After any sequence of insertions, removals and re-indexings, a box query on the tree visits every stored object whose indexed bounds overlap the box, each exactly once and no others; a ray query visits every stored object the ray reaches before the cut-off. Membership and count reflect exactly the insertions and removals made.",
 ['histories','inputs'],'all operation sequences, any number of objects, all boxes and rays',
 'tests hold one shape; restructuring bugs need particular insertion and removal orders and are invisible until a query misses',
 ['bbtree.go'],[('SubtreeInsert, SubtreeRemove, ReplaceChild','bbtree.go'),('SubtreeQuery, SubtreeSegmentQuery','bbtree.go'),('LeafUpdate','bbtree.go')],
 state=[('tree nodes with parent links and merged boxes','every inner box covers its children','bbtree.go Node')],observe=['query callbacks, Count, Contains'])
p('C17','The spatial hash finds every stored object overlapping a query',
 "With the spatial hash in use, after any sequence of insertions, removals and re-indexings, a box query visits every stored object whose indexed bounds overlap the box at most once each and never a removed object, membership and count reflect the operations made, and re-indexing reports every pair of overlapping objects.",
 ['histories','inputs','configurations'],'all cell sizes and table sizes, all operation sequences',
 'no test uses the spatial hash at all',
 ['spacehash.go'],[('cell hashing and handle stamping','spacehash.go hashHandle, queryHelper'),('handle reference counts','spacehash.go Handle')],observe=['query callbacks, Count, Contains'])
p('C18','Contact and joint lists of bodies stay well-formed',
 "Linking and unlinking contacts keeps each body's contact list a correctly doubly-linked list holding exactly the linked contacts, whichever of the two bodies is first and wherever in the list the contact sits; adding and removing joints keeps each body's joint list holding exactly the joints attached to it, each once.",
 ['histories','inputs'],'lists of any length, removal at any position, any interleaving of the two bodies\' lists',
 'no test links two contacts or two joints',
 ['arbiter.go','body.go','space.go'],[('PushArbiter, Unthread','body.go, arbiter.go'),('AddConstraint, RemoveConstraint, filterConstraints','space.go, body.go')],
 state=[('arbiter threads','the contact graph used by sleeping and EachArbiter','arbiter.go ArbiterThread'),('constraint lists','joints per body','constraint.go next_a/next_b')],observe=['EachArbiter, EachConstraint'])
p('C19','Collision callbacks follow the begin / solve / separate protocol',
 "For every touching pair the begin callback runs exactly on the first step of contact and the pre-solve callback on every step the pair is not ignored; a false from begin ignores the pair until it separates, and a false from pre-solve, a sensor, or two immovable bodies keeps the pair out of the solver for that step. The separate callback runs exactly once when contact ends or a shape is removed, handlers are found regardless of the order of the two types, and every callback receives its handler's own user data.",
 ['histories','configurations'],'all handler registrations, all sequences of touching and separating, all callback return values',
 'no test registers a handler or lets two shapes touch during a step',
 ['arbiter.go','space.go','hashset_arbiter.go'],[('SpaceCollideShapesFunc','space.go'),('SpaceArbiterSetFilter, CachedArbitersFilter','hashset_arbiter.go'),('LookupHandler and wildcard dispatch','space.go, arbiter.go')],
 state=[('arbiter state','first/normal/ignore/cached/invalidated','everything.go')],observe=['callback invocations and arguments'])
p('C20','Deferred work runs exactly once, only when the space unlocks',
 "A post-step callback registered while the space is busy runs exactly once, in registration order, after the step or query that was running has finished, never while the space is locked, including callbacks registered from other post-step callbacks; a second registration under the same key is refused. Bodies woken while the space is locked are put back exactly once when it unlocks.",
 ['histories'],'all nestings of locking and unlocking, all numbers and keys of callbacks',
 'no test registers a post-step callback',
 ['space.go'],[('Lock, Unlock','space.go'),('AddPostStepCallback','space.go')],state=[('lock depth','nesting of step and queries','space.go Space.locked')],observe=['callback invocations'])
p('C21','Bodies fall asleep and wake up as whole groups',
 "A group of touching or jointed dynamic bodies is put to sleep only when every member has been idle for the sleep threshold, a body moving faster than the idle threshold never counts as idle, and waking any member (directly, by changing gravity, or by any setter) wakes every member of its group. A sleeping body stays in the space and is enumerated exactly once.",
 ['histories','inputs'],'all contact and joint graphs, all thresholds and velocities',
 'no test enables sleeping',
 ['space.go','body.go'],[('ProcessComponents, FloodFillComponent, ComponentActive','space.go'),('Activate','body.go, space.go'),('SetGravity','space.go')],
 state=[('sleeping component lists','groups of sleeping bodies','space.go sleepingComponents, body.go sleepingRoot/Next')],observe=['IsSleeping, IdleTime, EachBody'])
p('C22','Space membership is exact',
 "A body, shape or joint is in a space exactly from its addition to its removal: enumeration and the contains-queries report it once in between (joints of sleeping bodies are set aside while they sleep) and not at all before or after, it is never lost or duplicated by adding or removing others, and changing a body's type moves it and its shapes between the static and the moving side without losing any.",
 ['histories'],'all sequences of additions, removals and type changes',
 'tests add single shapes to the static body only',
 ['space.go','body.go'],[('AddBody, RemoveBody, AddShape, RemoveShape, AddConstraint, RemoveConstraint','space.go'),('SetType','body.go')],observe=['EachBody, EachShape, EachConstraint, Contains*'])
p('C23','Contact storage never overlaps live contacts or overruns',
 "The contact storage handed to each colliding pair during a step lies inside its buffer and overlaps neither storage handed to another pair in that step nor storage still referenced by a pair from the steps it may persist; giving storage back returns exactly what was taken.",
 ['histories','inputs'],'any number of contacts per step, any number of steps, any persistence',
 'no test produces more than one contact; overlap appears only after a buffer of 1024 contacts wraps',
 ['space.go','contactbuffer.go'],[('ContactBufferGetArray, PushContacts, PopContacts','space.go'),('PushFreshContactBuffer ring reuse','space.go, contactbuffer.go')],observe=['contact contents of live arbiters'])
p('C24','Reported contacts are geometrically right',
 "Contacts are reported for two circles, or a circle and a segment, exactly when they overlap; every reported contact lies on the two surfaces along a unit normal pointing from the first shape to the second, with distance equal to the gap, and at most two contacts are reported. Swapping the two shapes of an overlap test gives the same overlap with exchanged points and opposite normal, up to the choice between equally good normals.",
 ['inputs'],'all circles, segments and polygons (real-number semantics); polygon and segment-segment separation distance is taken from the GJK/EPA search',
 'one test overlaps one circle with one box; contact position and normal are never examined',
 ['collision.go','shape.go'],[('CircleToCircle, CircleToSegment','collision.go'),('ContactPoints clipping','collision.go'),('ShapesCollide orientation','shape.go')],observe=['ContactPointSet'])
p('C25','Moment, area and centroid helpers match the physical formulas',
 "The moment-of-inertia, area and centroid helpers for circles, segments, boxes and polygons equal the standard integrals: translating a shape changes the moment by mass times the squared offset (parallel-axis), scaling the mass scales the moment, polygon results do not depend on the starting vertex, and rectangle polygons agree with the box formula.",
 ['inputs'],'all dimensions, masses and polygons (any vertex count; real-number semantics)',
 'tests read one circle area',
 ['everything.go','circle.go','segment.go','poly.go'],[('MomentFor*, AreaFor*, CentroidForPoly','everything.go'),('*MassInfo','circle.go, segment.go, poly.go')],observe=['return values, Shape.Area, Shape.Moment'])
p('C26','Marching squares separates inside samples from outside samples',
 "For every cell and every combination of corner samples, the emitted segments separate exactly the corners above the threshold from those not above it, start and end on the cell's edges (soft: at the linear interpolation of the threshold; hard: at edge midpoints) and keep a consistent side; each grid sample is taken once at its own grid position and used for its own cells.",
 ['inputs'],'all sample values and thresholds, all grid sizes (real-number semantics)',
 'no test calls the marching functions',
 ['march.go'],[('case tables','march.go MarchCellSoft, MarchCellHard'),('sample caching','march.go MarchCells')],observe=['segment callback arguments'])
p('C27','Polyline assembly and simplification preserve the curve',
 "Collecting a directed segment adds exactly that segment to the set of polylines and keeps every segment collected before, extending, joining or closing lines rather than duplicating them. Simplification returns a subsequence of the original vertices that keeps the end points of an open line and leaves a closed line closed, always terminates, and drops only vertices within the tolerance.",
 ['inputs','histories'],'all polylines of two or more vertices, all tolerances, any order of collection',
 'no test builds a polyline',
 ['polyline.go'],[('PolyLineCollectSegment, Join','polyline.go'),('SimplifyCurves, SimplifyVertexes','polyline.go')],observe=['PolyLineSet contents'])
p('C28','Space queries report exactly the matching shapes',
 "A nearest-point query returns the smallest distance over all non-rejected, non-sensor shapes within the given distance (or none), a first-hit segment query the smallest fraction over all non-rejected, non-sensor shapes, and box, segment and shape queries report every shape that matches and is not rejected, each once; both moving and static shapes are searched. A shape query returns true exactly when some matching pair is free of sensors.",
 ['inputs','configurations'],'all space contents and query parameters, given an index that visits every shape whose bounds match',
 'two tests query one circle',
 ['space.go'],[('PointQueryNearest, SegmentQueryFirst, BBQuery, SegmentQuery, ShapeQuery and their callbacks','space.go')],observe=['query results and callbacks'])
p('C29','A contact pair reads the same from either side',
 "Reading a collision pair gives shapes, bodies, normal, contact points and total impulse in the order of the registered handler types: exchanging the order exchanges points, and negates normal and impulse, without changing distances. Writing back an unmodified contact point set changes nothing.",
 ['inputs'],'all collision pairs with up to two contacts, both orientations (real-number semantics)',
 'no test reads a collision pair',
 ['arbiter.go'],[('swapped flag handling','arbiter.go Shapes, Bodies, Normal, ContactPointSet, SetContactPointSet, TotalImpulse')],observe=['Arbiter getters'])
p('C30','Persistent contacts keep their accumulated impulses',
 "When a touching pair is refreshed, each new contact takes over the accumulated impulses of the previous contact with the same identity and starts from zero otherwise, contact points become relative to their bodies, and the pair's elasticity, friction and surface velocity are the documented combinations of the two shapes. A cached pair that touches again starts as a new collision.",
 ['inputs','histories'],'all previous and new contact sets of up to two points, all shapes',
 'no test runs two steps with contact',
 ['arbiter.go'],[('Arbiter.Update','arbiter.go')],observe=['Arbiter state before solving'])
p('C31','The convex hull is the hull of its input',
 "The hull of a point set is a counter-clockwise convex polygon whose vertices are input points and which, with zero tolerance, contains every input point; with a tolerance only points within it of a line through two input points may be left outside.",
 ['inputs'],'all point sets of any size (real-number semantics)',
 'no test builds a hull',
 ['poly.go'],[('ConvexHull, QHullReduce, QHullPartition, LoopIndexes','poly.go')],observe=['returned count and reordered vertices'])
p('C32','General convex overlap search finds the true separation',
 "For every pair of segments and convex polygons the overlap search reports the true minimum separation distance (or minimum penetration depth), its direction (unless the shapes just touch) and the closest points, from any starting guess.",
 ['inputs'],'all pairs of segments and convex polygons',
 'one test overlaps one box with one circle',
 ['collision.go'],[('GJK, EPA','collision.go')],observe=['ContactPointSet'])
