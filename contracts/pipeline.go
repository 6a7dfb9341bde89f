package contracts

// C16: how a worker executes a Request.
//
// What is called for a Request is compared with what should be: `cur` is the Stage whose turn it is, `pp` how
// many PreProcessors were run for it. The first PreProcessor is resetNext, see ResetNext and NewPipelines.

func RunnerRoute(p any) {
	target("pipelines/stagedpipe", "(*pipeline).runner")
	mayNotReturn()
	joinReturns()
	requires(p.stats != nil)
	requires(p.stats.ingestStats != nil)
	pps := p.preProcessors
	sm := p.sm
	n := len(pps)
	requires(n >= 1)
	var busy = false
	var pp = 0
	var cur = bound(sm) // the Stage whose turn it is
	var alive = false   // the Context was looked at since it is the turn of that Stage, and not cancelled
	var stop = false    // Err was set
	var fin = false     // Next is nil
	var gone = false    // the Context was cancelled
	var data = 0
	var err = 0
	var next = 0
	var ctx = 0
	var group = 0
	var item = 0
	immutable("C16", "the PreProcessors and the StateMachine are not replaced", p.preProcessors, p.sm)
	on("done", func() { assert("C18,C20", false, "a Request stays counted while it is in the pipelines") })
	on("close", func() { assert("C18,C20", false, "a worker closes nothing") })
	on("go", func() { assert("C16,C18,C20", false, "a worker does one thing at a time") })
	on("ext:stagedpipe.StateMachine.Close", func() { assert("C20", false, "a worker does not close the StateMachine") })
	on("recv", p.in, func(x, ok any) {
		assert("C18,C20", !busy, "each Request that was taken is output")
		if ok {
			group = x.groupNum
			item = x.itemNum
			assume(x.seenStages == nil) // see GroupSubmit
			busy = true
			pp = 0
			cur = bound(sm)
			alive = false
			stop = false
			fin = false
			gone = false
			data = x.Data
			err = x.Err
			ctx = x.Ctx
		}
	})
	on("ctxerr", func(e any) {
		if busy && ctxroot(subject) == ctxroot(ctx) && !stop && !fin && pp == 0 {
			alive = e == nil
			gone = gone || e != nil
			err = ite(e != nil, e, err)
		}
	})
	on("call", "func(stagedpipe.Request[T]) stagedpipe.Request[T]", func(x any) {
		assert("C20", busy, "a Stage only runs for a Request that is in the pipelines")
		assert("C16", busy && !fin, "nothing is run after a Stage that left Next nil")
		assert("C16", !stop, "nothing is run after Err was set")
		assert("C16", !gone, "nothing is run after the Context was found to be cancelled")
		assert("C16", alive, "the Context is looked at before each Stage and its PreProcessors")
		assert("C16", subject == ite(pp < n, elem(pps, pp), cur), "each Stage that was selected is run once, after each PreProcessor once, in their order")
		assert("C16", x.Data == data && x.Err == err, "each Stage and PreProcessor gets the Request that the one before returned")
		assert("C16", imp(pp > 0, x.Next == next), "Next is nil when a Stage starts and changed by nothing but PreProcessors and the Stage")
	})
	on("ret", "func(stagedpipe.Request[T]) stagedpipe.Request[T]", func(x, y any) {
		assume(sameHidden(x, y)) // what is returned is the Request that was given, with other Data, Ctx, Err or Next
		assume(imp(pp == 0, y.Next == nil && y.Data == x.Data && y.Err == x.Err && y.Ctx == x.Ctx)) // see ResetNext
		data = y.Data
		err = y.Err
		next = y.Next
		ctx = y.Ctx
		stop = y.Err != nil
		if pp < n {
			pp++
		} else {
			pp = 0
			cur = y.Next
			alive = false
			fin = y.Next == nil
		}
	})
	on("send", p.out, func(x any) {
		assert("C16,C18,C20", busy, "each Request is output once")
		assert("C18", x.groupNum == group, "a Request stays with its RequestGroup")
		assert("C19", x.itemNum == item, "a Request keeps its number")
		assert("C16", x.seenStages == nil, "the Stages that were seen stay inside of the pipeline")
		assert("C16", fin || x.Err != nil, "a Request is output when Next is nil or Err is set")
		assert("C16,C18", x.Data == data, "a Request is output with the Data that the last Stage returned")
		assert("C16", x.Err == err || p.ss && !stop && !fin && !gone && pp == 0, "a Request is output with the Err that was set, that of its Context if it was cancelled")
		busy = false
	})
	inv("stagedpipe.Request[T]", func(x any) bool { return imp(x.Err == nil, pp == 0 && !stop && !gone) })
	inv("stagedpipe.Request[T]", func(x any) bool { return imp(x.Err == nil, cur == x.Next && fin == (x.Next == nil)) })
	inv("stagedpipe.Request[T]", func(x any) bool {
		return x.Err == err || p.ss && x.Err != nil && !stop && !fin && !gone && pp == 0
	})
}

func ResetNext(x any) (y any) {
	target("pipelines/stagedpipe", "resetNext")
	ensures("C16", y.Next == nil, "Next is reset before each Stage")
	ensures("C16", y.Data == x.Data && y.Err == x.Err && y.Ctx == x.Ctx && sameHidden(x, y), "nothing else of the Request is changed by that")
}

// C17: the DAG option. K is any name of a Stage.
//
// uf("name", f) is the name of the Stage f, which methodName and startName find with package reflect. That they
// give the same name for the same Stage and different names for others is only tested, see the assumptions.

func RunnerDAG(p any) {
	target("pipelines/stagedpipe", "(*pipeline).runner", "func()")
	opaque("pipelines/stagedpipe", "methodName", "func(any) string")
	opaque("pipelines/stagedpipe", "startName", "func(stagedpipe.StateMachine[T]) string")
	bounded("C17", "methodName, startName", "7 kinds of StateMachine, all routes of up to 5 Stages out of 3 to 5; known findings with 2 more kinds")
	mayNotReturn()
	joinReturns()
	requires(p.stats != nil)
	requires(p.stats.ingestStats != nil)
	sm := p.sm
	K := anyString("K")
	n := len(p.preProcessors)
	var busy = false
	var pp = 0
	var name = uf("name", bound(sm)) // of the Stage whose turn it is
	var stop = false
	var fin = false
	var gone = false
	var ran = false // the Stage K was run for this Request
	var at = 0      // where it is in the Stages that were seen
	var puts = 0
	var ctx = 0
	immutable("C17", "the options are not replaced", p.ss, p.preProcessors, p.sm)
	on("opaqueret:methodName", func(m, s any) { assume(s == uf("name", unface(m))) })
	on("opaqueret:startName", func(m, s any) { assume(s == uf("name", bound(m))) })
	on("recv", p.in, func(x, ok any) {
		if ok {
			assume(x.seenStages == nil) // see RunnerRoute
			busy = true
			pp = 0
			name = uf("name", bound(sm))
			stop = x.Err != nil
			fin = false
			gone = false
			ran = false
			puts = 0
			ctx = x.Ctx
		}
	})
	on("ctxerr", func(e any) {
		if busy && ctxroot(subject) == ctxroot(ctx) && !stop && !fin && pp == 0 {
			gone = gone || e != nil
		}
	})
	on("poolput", func(x any) {
		puts++
		assert("C17", puts == 1, "what keeps the Stages that were seen is given back once")
	})
	on("call", "func(stagedpipe.Request[T]) stagedpipe.Request[T]", func(x any) {
		assert("C17", puts == 0, "what keeps the Stages that were seen is used by one Request at a time")
		assert("C17", imp(p.ss && pp >= n && name == K, !ran), "no Stage is run twice for a Request with the DAG option")
		if p.ss && pp >= n && name == K {
			ran = true
			at = len(*x.seenStages) - 1
		}
	})
	on("ret", "func(stagedpipe.Request[T]) stagedpipe.Request[T]", func(x, y any) {
		assume(sameHidden(x, y)) // see RunnerRoute
		stop = y.Err != nil
		ctx = y.Ctx
		if pp < n {
			pp++
		} else {
			pp = 0
			name = uf("name", y.Next)
			fin = y.Next == nil
		}
	})
	on("send", p.out, func(x any) {
		assert("C17", stop || fin || gone || p.ss, "the cyclic error is not given without the DAG option")
		assert("C17", imp(!stop && !fin && !gone && name == K, ran), "the cyclic error is only given when the Stage was run before")
		assert("C17", imp(!stop && !fin && !gone, apply(funcv("pipelines/stagedpipe", "IsErrCyclic"), x.Err)), "a Request that ends before a Stage is run twice has the cyclic error")
		busy = false
	})
	inv("stagedpipe.Request[T]", func(x any) bool {
		return imp(p.ss && ran, 0 <= at && at < len(*x.seenStages) && elem(*x.seenStages, at) == K)
	})
	inv("stagedpipe.Request[T]", func(x any) bool {
		return imp(p.ss, forall(func(i any) bool {
			return imp(0 <= i && i < len(*x.seenStages) && elem(*x.seenStages, i) == K, ran)
		}))
	})
	inv("stagedpipe.Request[T]", func(x any) bool {
		return imp(p.ss && x.Err == nil, forall(func(i any) bool {
			return imp(0 <= i && i < len(*x.seenStages) && elem(*x.seenStages, i) == K, ran)
		}))
	})
	inv("stagedpipe.Request[T]", func(x any) bool { return imp(x.Err == nil, pp == 0 && !stop && !gone) })
	inv("stagedpipe.Request[T]", func(x any) bool {
		return imp(x.Err == nil, fin == (x.Next == nil) && name == uf("name", x.Next))
	})
	inv("stagedpipe.Request[T]", func(x any) bool {
		return imp(x.Err != nil && !stop && !fin && !gone, p.ss && apply(funcv("pipelines/stagedpipe", "IsErrCyclic"), x.Err))
	})
	inv("stagedpipe.Request[T]", func(x any) bool { return imp(x.Err != nil && !stop && !fin && !gone && name == K, ran) })
	inv(func(i any) bool { return imp(ran && name == K, i < at) })
	inv(func(i any) bool { return imp(ran && name == K, i <= at) })
	inv(func(i any) bool { return imp(ran && name == K, at <= i) })
}
