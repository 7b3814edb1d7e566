// Contact storage (C23)

spec room(h *ContactBuffer) bool = h.numContacts + 2 <= 1024
spec ringok(h *ContactBuffer) bool = h != nil && h.next != nil && 0 <= h.numContacts && h.numContacts <= 1024
spec keeps(space *Space, h *ContactBuffer) bool = space.stamp - h.next.stamp <= space.collisionPersistence

func ContactBuffer.InitHeader(c, stamp, splice)
  prop C23
  modifies c.stamp, c.next, c.numContacts
  ensures reset: c.stamp == stamp && c.numContacts == 0 && result == c
  ensures linked: c.next == ite(splice == nil, c, old(splice.next))

func NewContactBuffer(stamp, slice)
  prop C23
  ensures new: fresh(result) && result != nil
  ensures reset: result.stamp == stamp && result.numContacts == 0
  ensures linked: result.next == ite(slice == nil, result, slice.next)

func Space.PushFreshContactBuffer(space)
  prop C23
  requires space.contactBuffersHead == nil || space.contactBuffersHead.next != nil && space.contactBuffersHead.next.stamp <= space.stamp
  modifies space.contactBuffersHead, old(space.contactBuffersHead).next, old(space.contactBuffersHead.next).stamp, old(space.contactBuffersHead.next).next, old(space.contactBuffersHead.next).numContacts
  ensures empty: space.contactBuffersHead != nil && space.contactBuffersHead.numContacts == 0 && space.contactBuffersHead.stamp == space.stamp
  ensures reused: let(h, old(space.contactBuffersHead), fresh(space.contactBuffersHead) || h != nil && space.contactBuffersHead == old(h.next) && space.stamp - old(h.next.stamp) > space.collisionPersistence)
  ensures kept: let(h, old(space.contactBuffersHead), h != nil && !fresh(space.contactBuffersHead) ==> h.next == old(h.next) && space.contactBuffersHead.next == old(h.next.next))
  ensures grown: let(h, old(space.contactBuffersHead), h != nil && fresh(space.contactBuffersHead) ==> h.next == space.contactBuffersHead && space.contactBuffersHead.next == old(h.next) && old(h.next).stamp == old(h.next.stamp) && old(h.next).numContacts == old(h.next.numContacts) && (old(h.next) == h || old(h.next).next == old(h.next.next)))
  ensures alone: old(space.contactBuffersHead) == nil ==> space.contactBuffersHead.next == space.contactBuffersHead

func Space.ContactBufferGetArray(space)
  prop C23
  option safety
  requires ringok(space.contactBuffersHead) && space.contactBuffersHead.next.stamp <= space.stamp
  modifies space.contactBuffersHead, old(space.contactBuffersHead).next, old(space.contactBuffersHead.next).stamp, old(space.contactBuffersHead.next).next, old(space.contactBuffersHead.next).numContacts
  ensures size: len(result) == 2
  ensures inside: arr(result) == arr(space.contactBuffersHead.contacts) && off(result) == space.contactBuffersHead.numContacts
  ensures fits: 0 <= space.contactBuffersHead.numContacts && space.contactBuffersHead.numContacts + 2 <= 1024
  ensures free: let(h, old(space.contactBuffersHead), space.contactBuffersHead == h && h.numContacts == old(h.numContacts) || fresh(space.contactBuffersHead) && space.contactBuffersHead.numContacts == 0
       || space.contactBuffersHead == old(h.next) && space.stamp - old(h.next.stamp) > space.collisionPersistence && space.contactBuffersHead.numContacts == 0)
  ensures stay: let(h, old(space.contactBuffersHead), old(room(h)) ==> space.contactBuffersHead == h && h.next == old(h.next) && h.next.stamp == old(h.next.stamp) && h.next.next == old(h.next.next) && h.next.numContacts == old(h.next.numContacts))

func Space.PushContacts(space, count)
  prop C23
  requires space.contactBuffersHead != nil
  modifies space.contactBuffersHead.numContacts
  ensures taken: space.contactBuffersHead.numContacts == old(space.contactBuffersHead.numContacts) + count

func Space.PopContacts(space, count)
  prop C23
  requires space.contactBuffersHead != nil
  modifies space.contactBuffersHead.numContacts
  ensures returned: space.contactBuffersHead.numContacts == old(space.contactBuffersHead.numContacts) - count
