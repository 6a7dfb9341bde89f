package contracts

// C24: New.
//
// The workers are goroutines that run (*pipeline).runner, see RunnerEnds for when they end. uf("stages", x) is
// the number of public Stages of x: how many values method.MatchesSignature sends for it.

func NewPipelines(name, num, sm, options any) (p, err any) {
	target("pipelines/stagedpipe", "New")
	opaque("pipelines/stagedpipe", "(*pipeline).runner", "func()")
	var workers = 0
	var ran = 0
	var src = nil
	var count = 0
	var more = true
	var failed = false
	var in = nil
	var out = nil
	var stats = nil
	var wg = nil
	var dmx = nil
	var first = nil
	var demuxed = nil
	var dm = nil
	on("ext:github.com/johnsiilver/dynamics/method.MatchesSignature", func(o, sig any) {
		src = reflected(o)
		count = 0
		more = true
	})
	on("recv", func(v, ok any) {
		if !child {
			more = ok
			if ok {
				count++
			} else {
				assume(count == uf("stages", src))
			}
		}
	})
	on("ext:github.com/johnsiilver/dynamics/demux.New", func(ch, f, bug any) {
		demuxed = ch
		assert("C18", apply(f, anyOf("pipelines/stagedpipe", "Request")) == anyOf("pipelines/stagedpipe", "Request").groupNum, "the demuxer sends Requests to the RequestGroup whose number they have")
	})
	on("extret:github.com/johnsiilver/dynamics/demux.New", func(ch, f, bug, opts, d, e any) { dm = d })
	on("calling", "func(*stagedpipe.Pipelines[T]) error", func(x any) {
		assume(subject != nil) // options are not nil
		in = x.in
		out = x.out
		stats = x.stats
		wg = x.wg
		dmx = x.demux
		first = elem(x.preProcessors, 0)
		assert("C16", len(x.preProcessors) >= 1 && first == funcv("pipelines/stagedpipe", "resetNext"), "Next is reset before the PreProcessors that options give")
	})
	on("ret", "func(*stagedpipe.Pipelines[T]) error", func(x, e any) {
		failed = failed || e != nil
		// what the options change, see OptDAG and so on
		assume(x.in == in && x.out == out && x.sm == sm && x.stats == stats && x.wg == wg && x.demux == dmx)
		assume(len(x.preProcessors) >= 1 && elem(x.preProcessors, 0) == first)
		assume(x.subStages >= 0) // see CountSubStages
	})
	on("go", func() {
		assert("C24", num >= 1 && sm != nil && !failed, "nothing is started if New refuses its arguments")
		assert("C21", made("stats").ingestStats != nil && made("Pipelines").stats == made("stats"), "the statistics exist before a worker is started")
		assert("C21", imp(workers == 0, made("stats").running == 0 && made("stats").completed == 0 && made("stats").avgTotal == 0 && made("stats").max == 0 && made("stats").min == 9223372036854775807), "nothing is counted before a worker is started")
		assert("C21", imp(workers == 0, made("stats").ingestStats.avgTotal == 0 && made("stats").ingestStats.max == 0 && made("stats").ingestStats.min == 9223372036854775807), "nothing is counted in IngestStats before a worker is started")
		workers++
		ran = 0
	})
	on("opaque:(*pipeline).runner", func(q any) {
		assert("C24", child && ran == 0, "each worker has a goroutine of its own")
		ran++
		assert("C16", q.sm == sm, "a worker has the StateMachine that was given to New")
		assert("C16", len(q.preProcessors) >= 1 && elem(q.preProcessors, 0) == funcv("pipelines/stagedpipe", "resetNext"), "Next is reset before the other PreProcessors")
		assert("C16", q.preProcessors == made("Pipelines").preProcessors, "a worker has all PreProcessors")
		assert("C17", iff(q.ss, made("Pipelines").ss), "a worker has the DAG option if it was given")
		assert("C18,C20", q.in == made("Pipelines").in && q.out == made("Pipelines").out, "a worker takes what is submitted and sends it to the demuxer")
		assert("C18,C20", made("Pipelines").out == demuxed && made("Pipelines").demux == dm && made("Pipelines").in != demuxed, "what the workers output goes to the demuxer")
		assert("C18,C20", made("Pipelines").wg != nil, "Requests can be counted")
		assert("C21", q.stats == made("Pipelines").stats, "a worker updates the statistics of its Pipelines")
	})
	on("goend", func() { assert("C24", ran == 1, "each goroutine that is started is a worker") })
	auto("panic", "C24")
	auto("safety", "C24")
	ensures("C18,C20", imp(err == nil, p.out == demuxed && p.demux == dm && p.in != p.out && p.wg != nil), "RequestGroups use the demuxer that gets what the workers output")
	ensures("C20", imp(err == nil, p.sm == sm && p.sm != nil), "the StateMachine that was given to New is the one that is closed")
	ensures("C24", imp(num < 1, err != nil), "New refuses less than one pipeline")
	ensures("C24", imp(sm == nil, err != nil), "New refuses a nil StateMachine")
	ensures("C24", imp(failed, err != nil), "New refuses an option that fails")
	ensures("C24", imp(err == nil, p != nil), "New returns the Pipelines if it did not fail")
	ensures("C24", imp(err != nil, workers == 0), "no worker is started if New fails")
	ensures("C24", imp(err == nil, workers == num*(uf("stages", sm)+p.subStages)), "there is a worker for each Stage in each pipeline")
	inv(imp(!more, count == uf("stages", src)))
	inv(made("Pipelines").subStages >= 0)
	inv(made("Pipelines").out == demuxed && made("Pipelines").demux == dm && made("Pipelines").in != demuxed && made("Pipelines").wg != nil && made("Pipelines").sm == sm)
	inv(len(made("Pipelines").preProcessors) >= 1 && elem(made("Pipelines").preProcessors, 0) == funcv("pipelines/stagedpipe", "resetNext"))
	inv(func(x any) bool { return workers == x*(uf("stages", sm)+made("Pipelines").subStages) })
}

// The options. p is any Pipelines that they are applied to.

func OptDAG() (err any) {
	target("pipelines/stagedpipe", "DAG")
	applied("p")
	in := p.in
	out := p.out
	sm := p.sm
	stats := p.stats
	wg := p.wg
	dmx := p.demux
	sub := p.subStages
	pps := p.preProcessors
	ordered := p.ordered
	ensures("C17", err == nil && p.ss, "DAG sets its option")
	ensures("C16,C19,C24", p.subStages == sub && p.preProcessors == pps && iff(p.ordered, ordered), "DAG changes nothing else")
	ensures("C16,C18,C20,C21,C24", p.in == in && p.out == out && p.sm == sm && p.stats == stats && p.wg == wg && p.demux == dmx, "an option replaces no part of Pipelines")
}

func OptOrdered() (err any) {
	target("pipelines/stagedpipe", "Ordered")
	applied("p")
	in := p.in
	out := p.out
	sm := p.sm
	stats := p.stats
	wg := p.wg
	dmx := p.demux
	sub := p.subStages
	pps := p.preProcessors
	ss := p.ss
	ensures("C19", err == nil && p.ordered, "Ordered sets its option")
	ensures("C16,C17,C24", p.subStages == sub && p.preProcessors == pps && iff(p.ss, ss), "Ordered changes nothing else")
	ensures("C16,C18,C20,C21,C24", p.in == in && p.out == out && p.sm == sm && p.stats == stats && p.wg == wg && p.demux == dmx, "an option replaces no part of Pipelines")
}

func OptDelayWarning(d any) (err any) {
	target("pipelines/stagedpipe", "DelayWarning")
	applied("p")
	in := p.in
	out := p.out
	sm := p.sm
	stats := p.stats
	wg := p.wg
	dmx := p.demux
	sub := p.subStages
	pps := p.preProcessors
	ss := p.ss
	ordered := p.ordered
	ensures("C24", iff(err != nil, d < 0), "DelayWarning refuses negative durations, and no others")
	ensures("C24", imp(err == nil, p.delayWarning == d), "DelayWarning sets its option")
	ensures("C16,C17,C19,C24", p.subStages == sub && p.preProcessors == pps && iff(p.ss, ss) && iff(p.ordered, ordered), "DelayWarning changes nothing else")
	ensures("C16,C18,C20,C21,C24", p.in == in && p.out == out && p.sm == sm && p.stats == stats && p.wg == wg && p.demux == dmx, "an option replaces no part of Pipelines")
}

func OptPreProcessors(pps any) (err any) {
	target("pipelines/stagedpipe", "PreProcessors")
	applied("p")
	in := p.in
	out := p.out
	sm := p.sm
	stats := p.stats
	wg := p.wg
	dmx := p.demux
	sub := p.subStages
	old := p.preProcessors
	k := anyInt("k") // any index
	before := elem(old, k)
	given := elem(pps, k-len(old))
	ss := p.ss
	ordered := p.ordered
	requires(base(pps) != base(old)) // what the user gives is not a part of Pipelines
	ensures("C16", err == nil && len(p.preProcessors) == len(old)+len(pps), "PreProcessors adds all that it is given")
	ensures("C16", imp(0 <= k && k < len(old), elem(p.preProcessors, k) == before), "PreProcessors keeps those of options before it")
	ensures("C16", imp(len(old) <= k && k < len(old)+len(pps), elem(p.preProcessors, k) == given), "PreProcessors are added in the order they are given")
	ensures("C17,C19,C24", p.subStages == sub && iff(p.ss, ss) && iff(p.ordered, ordered), "PreProcessors changes nothing else")
	ensures("C16,C18,C20,C21,C24", p.in == in && p.out == out && p.sm == sm && p.stats == stats && p.wg == wg && p.demux == dmx, "an option replaces no part of Pipelines")
}

func OptCountSubStages(objs any) (err any) {
	target("pipelines/stagedpipe", "CountSubStages")
	applied("p")
	in := p.in
	out := p.out
	sm := p.sm
	stats := p.stats
	wg := p.wg
	dmx := p.demux
	sub := p.subStages
	pps := p.preProcessors
	ss := p.ss
	ordered := p.ordered
	requires(sub >= 0)
	var src = nil
	var count = 0
	var next = 0
	var total = 0
	on("ext:github.com/johnsiilver/dynamics/method.MatchesSignature", func(o, sig any) {
		src = reflected(o)
		count = 0
		assert("C24", src == elem(objs, next), "the Stages of each object are counted once")
		next++
	})
	on("recv", func(v, ok any) {
		if ok {
			count++
			total++
		} else {
			assume(count == uf("stages", src))
		}
	})
	ensures("C24", err == nil && next == len(objs), "the Stages of all objects are counted")
	ensures("C24", p.subStages == sub+total, "all Stages are counted once")
	ensures("C24", p.subStages >= 0, "the number of Stages is not negative")
	ensures("C16,C17,C19", p.preProcessors == pps && iff(p.ss, ss) && iff(p.ordered, ordered), "CountSubStages changes nothing else")
	inv(total >= 0)
	ensures("C16,C18,C20,C21,C24", p.in == in && p.out == out && p.sm == sm && p.stats == stats && p.wg == wg && p.demux == dmx, "an option replaces no part of Pipelines")
}

// C24: when workers end.

func RunnerEnds(p any) {
	target("pipelines/stagedpipe", "(*pipeline).runner", "func()")
	requires(p.stats != nil)
	requires(p.stats.ingestStats != nil)
	mayNotReturn()
	joinReturns()
	var closed = false
	on("recv", p.in, func(x, ok any) { closed = closed || !ok })
	on("block", func(kind any) { assert("C24", !closed, "a worker ends when the Pipelines are closed") })
	on("go", func() { assert("C24", false, "a worker starts no goroutines") })
	ensures("C24", closed, "a worker does not end before the Pipelines are closed")
}
