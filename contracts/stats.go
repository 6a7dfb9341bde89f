package contracts

// C21: Stats.
//
// Between receiving a Request and sending it on, a worker counts it in Running, and adds it to every other
// statistic exactly once. All these are atomics that are only changed in single steps: Add for the sums, and
// for Min (Max) a CompareAndSwap to a smaller (larger) value, so that no update of another worker is lost.

func RunnerStats(p any) {
	target("pipelines/stagedpipe", "(*pipeline).runner")
	mayNotReturn()
	joinReturns()
	requires(p.stats != nil)
	requires(p.stats.ingestStats != nil)
	stats := p.stats
	ing := p.stats.ingestStats
	some := anyInt("time") // any time; what holds for it holds for all times
	var busy = false // a Request is being processed
	var calls = 0    // of Stages and PreProcessors for it
	var queued = 0   // when it was submitted
	var early = false // time `some` was taken before the first of these calls
	var q = 0 // how long it was queued
	var hasQ = false
	var d = 0 // how long it was processed
	var begin = 0
	var hasD = false
	var completed = 0
	var total = 0
	var itotal = 0
	var minOK = false // Min is not above the time of this Request, and Max not below it
	var maxOK = false
	var iminOK = false
	var imaxOK = false
	immutable("C21", "the statistics are not replaced", p.stats, stats.ingestStats)
	ledger("C21", stats.running, "Running is increased and decreased once for each Request")
	on("recv", p.in, func(x, ok any) {
		if ok {
			busy = true
			calls = 0
			queued = x.queueTime
			early = false
			hasQ = false
			hasD = false
			completed = 0
			total = 0
			itotal = 0
			minOK = false
			maxOK = false
			iminOK = false
			imaxOK = false
		}
	})
	on("now", func(t any) {
		early = early || busy && calls == 0 && t == some
	})
	on("since", func(from, v, at any) {
		if busy && calls == 0 && from == queued {
			q = v
			hasQ = true
		}
		if busy {
			d = v
			begin = from
			hasD = true
		}
	})
	on("call", "func(stagedpipe.Request[T]) stagedpipe.Request[T]", func(x any) {
		assert("C21", credit(stats.running) == 1, "Running counts a Request while it is processed")
		calls++
		hasD = false
	})
	on("ret", "func(stagedpipe.Request[T]) stagedpipe.Request[T]", func(x, y any) {
		assume(sameHidden(x, y)) // what is returned is the Request that was given, with other Data, Ctx, Err or Next
	})
	on("add", stats.completed, func(n any) {
		assert("C21", busy && n == 1, "Completed is increased by one for each Request")
		completed++
	})
	on("add", stats.avgTotal, func(n any) {
		assert("C21", busy && hasD && n == d, "the time that the Request was processed is added for Avg")
		assert("C21", imp(begin == some, early), "the time that a Request is processed starts before its first Stage")
		total++
	})
	on("add", ing.avgTotal, func(n any) {
		assert("C21", busy && hasQ && n == q, "the time that the Request was queued is added for the Avg of IngestStats")
		itotal++
	})
	on("load", stats.min, func(v any) { minOK = minOK || hasD && v <= d })
	on("load", stats.max, func(v any) { maxOK = maxOK || hasD && v >= d })
	on("load", ing.min, func(v any) { iminOK = iminOK || hasQ && v <= q })
	on("load", ing.max, func(v any) { imaxOK = imaxOK || hasQ && v >= q })
	on("cas", stats.min, func(o, n any) {
		assert("C21", busy && hasD && n == d && n <= o, "Min is only replaced by a smaller time of a Request")
		minOK = true
	})
	on("cas", stats.max, func(o, n any) {
		assert("C21", busy && hasD && n == d && n >= o, "Max is only replaced by a larger time of a Request")
		maxOK = true
	})
	on("cas", ing.min, func(o, n any) {
		assert("C21", busy && hasQ && n == q && n <= o, "Min of IngestStats is only replaced by a smaller time of a Request")
		iminOK = true
	})
	on("cas", ing.max, func(o, n any) {
		assert("C21", busy && hasQ && n == q && n >= o, "Max of IngestStats is only replaced by a larger time of a Request")
		imaxOK = true
	})
	on("store", func(v any) {
		assert("C21", false, "no statistic is overwritten, as that could lose the update of another worker")
	})
	on("send", p.out, func(x any) {
		assert("C21", busy && credit(stats.running) == 0, "Running does not count a Request that was processed")
		assert("C21", completed == 1, "a Request is added to Completed once")
		assert("C21", total == 1, "a Request is added to Avg once")
		assert("C21", itotal == 1, "a Request is added to the Avg of IngestStats once")
		assert("C21", minOK, "Min is not above the time of a Request")
		assert("C21", maxOK, "Max is not below the time of a Request")
		assert("C21", iminOK, "Min of IngestStats is not above the time of a Request")
		assert("C21", imaxOK, "Max of IngestStats is not below the time of a Request")
		busy = false
	})
	// what was loaded is to be replaced
	inv(func(c any) bool { return imp(!minOK, c > d) })
	inv(func(c any) bool { return imp(!maxOK, c < d) })
	inv(func(c any) bool { return imp(!iminOK, c > q) })
	inv(func(c any) bool { return imp(!imaxOK, c < q) })
}

func StatsAtRest(p any) (s any) {
	target("pipelines/stagedpipe", "(*Pipelines).Stats")
	requires(p.stats != nil)
	requires(p.stats.ingestStats != nil)
	stats := p.stats
	ing := p.stats.ingestStats
	completed := stats.completed
	running := stats.running
	min := stats.min
	max := stats.max
	total := stats.avgTotal
	imin := ing.min
	imax := ing.max
	itotal := ing.avgTotal
	quiet(stats, ing)
	none := completed == 0
	requires(completed >= 0)
	requires(imp(none, min == 9223372036854775807 && max == 0 && total == 0)) // see NewStats and RunnerStats
	requires(imp(none, imin == 9223372036854775807 && imax == 0 && itotal == 0))
	requires(imp(!none, min < 9223372036854775807 && imin < 9223372036854775807))
	auto("safety", "C21")
	ensures("C21", s.Running == running, "Running is the number of Requests being processed")
	ensures("C21", s.Completed == completed, "Completed is the number of Requests that were processed")
	ensures("C21", s.Min == ite(none, 0, min), "Min is the shortest time, or 0 if there is none")
	ensures("C21", s.Max == max, "Max is the longest time, or 0 if there is none")
	ensures("C21", s.Avg == ite(none, 0, total/completed), "Avg is the sum of the times divided by their number, or 0 if there are none")
	ensures("C21", s.IngestStats.Min == ite(none, 0, imin), "Min of IngestStats is the shortest time, or 0 if there is none")
	ensures("C21", s.IngestStats.Max == imax, "Max of IngestStats is the longest time, or 0 if there is none")
	ensures("C21", s.IngestStats.Avg == ite(none, 0, itotal/completed), "Avg of IngestStats is the sum of the times divided by their number, or 0 if there are none")
}
