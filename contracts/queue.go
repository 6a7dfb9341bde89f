package contracts

// C22: the queue of stagedpipe.
//
// The queue is the list of the nodes after head. A push adds a node behind the
// last one in a single step, a pop moves head to the next node in a single
// step, and nothing else changes the list: that is a FIFO.

func QueueNew(size any) (q any) {
	target("pipelines/stagedpipe/internal/queue", "New")
	auto("safety", "C22")
	auto("panic", "C22")
	ensures("C22", q != nil && q.queue != nil, "there is a queue")
	ensures("C22", imp(size > 0, q.limit != nil && cap(q.limit) == size), "a queue with a size limit can hold that many entries")
	ensures("C22", imp(size <= 0, q.limit == nil), "a queue without a size limit is not limited")
	ensures("C22", !q.closed, "a new queue is open")
	ensures("C22", q.queue.head != nil && q.queue.head == q.queue.tail && q.queue.head.next == nil, "a new queue is empty")
}

func QueuePush(q, a any) {
	target("pipelines/stagedpipe/internal/queue", "(*Queue).Push")
	requires(q.queue != nil)
	requires(q.queue.tail != nil)
	rely(q.queue.tail, func(v any) bool { return v != nil })
	limit := q.limit
	var slots = 0
	var last = nil // what tail was
	var node = nil // what was added
	var added = 0
	var moved = 0
	freezePublished()
	neverClosed(q.limit)
	auto("safety", "C22")
	auto("panic", "C22")
	auto("frozen", "C22")
	on("block", func(kind any) { assert("C22", isKind("send") && waitsOn(limit) && limit != nil, "Push only waits for room in the queue") })
	on("send", limit, func(x any) {
		assert("C22", limit != nil && slots == 0 && added == 0, "a push takes one place in the queue before it adds the entry")
		slots++
	})
	on("recv", func(v, ok any) { assert("C22", false, "Push takes nothing") })
	on("load", q.queue.tail, func(p any) { last = p })
	on("cas", func(o, n any) {
		assert("C22", ref(last.next) == subject, "an entry is added behind the last one")
		assert("C22", o == nil, "no entry is replaced")
		assert("C22", n != nil && isNew(n) && n.val == a && n.next == nil, "the entry that is added is the last one and holds the value")
		assert("C22", added == 0, "a value is added once")
		assert("C22", limit == nil || slots == 1, "a push takes one place in the queue before it adds the entry")
		added++
		node = n
	})
	on("store", q.queue.tail, func(p any) {
		assert("C22", added == 1 && moved == 0 && p == node, "tail is moved to the entry that was added, by who added it")
		moved++
	})
	on("store", q.queue.head, func(p any) { assert("C22", false, "Push does not remove entries") })
	ensures("C22", added == 1, "a value is added once")
	ensures("C22", moved == 1, "tail is moved to the entry that was added, by who added it")
	ensures("C22", limit == nil || slots == 1, "a push takes one place in the queue")
}

func QueuePop(q any) (v, ok any) {
	target("pipelines/stagedpipe/internal/queue", "(*Queue).Pop")
	requires(q.queue != nil)
	requires(q.queue.head != nil)
	rely(q.queue.head, func(v any) bool { return v != nil })
	limit := q.limit
	var closedSeen = false // the queue was closed before what follows
	var end = false        // the queue was seen to be empty after it was seen to be closed
	var h = nil            // what head was
	var at = nil           // the node whose next was loaded
	var next = nil
	var taken = 0
	var x = 0
	var freed = 0
	freezePublished()
	neverClosed(q.limit)
	auto("safety", "C22")
	auto("panic", "C22")
	auto("frozen", "C22")
	on("load", q.closed, func(c any) {
		closedSeen = closedSeen || c
	})
	on("load", q.queue.head, func(p any) { h = p })
	on("load", h.next, func(n any) {
		at = h
		next = n
		end = end || closedSeen && n == nil
	})
	on("cas", func(o, n any) {
		assert("C22", ref(q.queue.head) == subject, "Pop only changes head")
		assert("C22", n != nil && o == at && n == next, "head is moved to the next entry")
		assert("C22", taken == 0, "one entry is removed")
		taken++
		x = n.val
	})
	on("store", func(p any) { assert("C22", false, "Pop changes head only if nobody else did") })
	on("send", limit, func(p any) { assert("C22", false, "Pop takes no place in the queue") })
	on("recv", limit, func(p, y any) {
		assert("C22", freed == 0 && taken == 1, "a place in the queue is freed after the entry was removed")
		freed++
	})
	// There is a place to free for an entry that was removed: it was taken by the Push.
	on("default", func() {
		assume(taken == 0)
	})
	on("block", func(kind any) {
		assert("C22", isKind("sleep") || isKind("recv") && waitsOn(limit) && taken == 1, "Pop only waits for an entry")
	})
	ensures("C22", imp(ok, taken == 1 && v == x), "Pop returns the entry that it removed")
	ensures("C22", imp(!ok, taken == 0), "an entry that is removed is returned")
	ensures("C22", imp(!ok, end), "Pop only reports the end if the queue was closed and was empty after that")
	ensures("C22", imp(limit != nil && taken == 1, freed == 1), "a place in the queue is freed")
}

func QueueClose(q any) {
	target("pipelines/stagedpipe/internal/queue", "(*Queue).Close")
	var closed = 0
	auto("safety", "C22")
	auto("panic", "C22")
	on("store", func(c any) {
		assert("C22", ref(q.closed) == subject && c, "Close marks the queue as closed")
		closed++
	})
	on("cas", func(o, n any) {
		assert("C22", ref(q.closed) == subject && n, "Close marks the queue as closed")
		closed++
	})
	on("block", func(kind any) { assert("C22", false, "Close waits for nothing") })
	ensures("C22", closed >= 1, "Close marks the queue as closed")
}
