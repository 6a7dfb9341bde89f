package contracts

// C08 to C10: wait.Group. C12 to C15 use what is proved here.

func GroupGo(w, ctx, f any) {
	target("prim/wait", "(*Group).Go")
	requires(f != nil, ctx != nil)
	pool := w.Pool
	opts := w.PoolOptions
	cancel := w.CancelOnErr
	var runs = 0           // calls of f
	var fin = 0            // returns of f
	var failed = nil       // the error that f returned
	var skip = nil         // the error of a cancelled Context
	var recorded = false   // the error was recorded
	var earlier = false    // there is an earlier error
	var cancels = 0        // calls of CancelOnErr
	var over = false       // the WaitGroup was told that this function is done
	var started = 0        // goroutines or jobs
	ledger("C08,C12,C14,C15", w.wg, "each function is added to the WaitGroup once and done once")
	ledger("C10", w.count, "each function is added to Running once and subtracted once")
	freezePublished()
	auto("safety", "C08")
	auto("panic", "C08")
	auto("frozen", "C09,C13")
	on("go", func() {
		assert("C08,C12,C14,C15", credit(w.wg) >= 1, "the function is added to the WaitGroup before Go returns")
		assert("C10", credit(w.count) >= 1, "the function is counted in Running before Go returns")
		assert("C08,C13", pool == nil, "a pool that was given is used")
		started++
	})
	on("submit", func(c, job, o any) {
		assert("C08,C12,C14,C15", credit(w.wg) >= 1, "the function is added to the WaitGroup before Go returns")
		assert("C10", credit(w.count) >= 1, "the function is counted in Running before Go returns")
		assert("C08,C13", subject == pool && o == opts, "the pool and the options that were given are used")
		assert("C08", ctxroot(c) == ctxroot(ctx), "the pool gets the Context")
		started++
	})
	on("ctxerr", func(e any) {
		skip = ite(runs == 0 && e != nil, e, skip)
	})
	on("call", f, "func(context.Context) error", func(c any) {
		assert("C08,C12,C14,C15", runs == 0, "a function is not called twice")
		assert("C08", ctxroot(c) == ctxroot(ctx), "a function gets the Context that was given to Go")
		assert("C08,C12,C14,C15", credit(w.wg) >= 1 && !over, "a function that runs is in the WaitGroup")
		assert("C10", credit(w.count) >= 1, "a function that runs is counted in Running")
		assert("C08,C13", child, "a function runs in another goroutine")
		runs++
	})
	on("ret", f, "func(context.Context) error", func(c, e any) {
		fin++
		failed = e
	})
	on("load", w.errors, func(p any) {
		assert("C09,C13", !over, "errors are handled before Wait can return")
		earlier = earlier || p != nil
	})
	on("cas", w.errors, func(o, n any) {
		x := ite(runs == 0, skip, failed)
		assert("C09,C13", !over, "errors are recorded before Wait can return")
		assert("C09", x != nil, "nothing is recorded without an error")
		assert("C09,C13", n != nil && *n != nil && wraps(*n, x), "the error is recorded")
		assert("C09,C13", imp(o == nil, *n == x), "the first error is recorded as it is")
		assert("C09,C13", imp(o != nil, forall(func(y int) bool { return imp(y != nil && wraps(*o, y), wraps(*n, y)) })), "the earlier errors are kept")
		recorded = true
	})
	on("store", w.errors, func(n any) { assert("C09,C13", false, "errors are not overwritten") })
	on("call", cancel, "func()", func() {
		assert("C10", failed != nil || skip != nil, "CancelOnErr is not called without an error")
		assert("C10", !over, "CancelOnErr is called before Wait can return")
		cancels++
	})
	on("add", w.count, func(v any) { assert("C10", imp(v < 0, fin == runs && !over), "Running is updated when the function is done, not earlier, and before Wait can return") })
	on("store", w.count, func(v any) { assert("C10", false, "Running is not overwritten") })
	on("done", w.wg, func() {
		assert("C08,C12,C14,C15", fin == runs && !over, "the WaitGroup is told when the function is done, not earlier")
		assert("C08", runs == 1 || skip != nil, "a function is only skipped if the Context is cancelled")
		assert("C10", credit(w.count) == 0, "Running is updated before Wait can return")
		assert("C08,C09,C12,C13,C14", imp(runs == 0, recorded || earlier), "the error of the Context is recorded if a function is skipped")
		assert("C09,C13", imp(failed != nil, recorded || isContextErr(failed) && earlier), "the error of a function is recorded before Wait can return")
		assert("C10,C13", imp(failed != nil && cancel != nil, cancels > 0), "CancelOnErr is called if a function fails")
		over = true
	})
	on("goend", func() {
		assert("C08", over, "every function is done in the end")
	})
	on("block", func(kind any) { assert("C08", isKind("lock"), "Go waits for nothing but the pool") })
	ensures("C08,C12,C14,C15", started == 1, "every function gets a goroutine or is given to the pool")
}

func GroupWait(w, ctx any) (err any) {
	target("prim/wait", "(*Group).Wait")
	cancel := w.CancelOnErr
	pool := w.Pool
	opts := w.PoolOptions
	var waited = false
	var e = nil
	var cancels = 0
	auto("safety", "C08,C23")
	auto("panic", "C08")
	on("wait", w.wg, func() {
		waited = true
		havoc(w.errors, w.count, w.total)
		assume(w.count == 0) // see GroupGo: Running is updated before the WaitGroup
		assume(imp(w.errors != nil, *w.errors != nil)) // see GroupGo: what is recorded is an error
		e = w.errors
		quiet(w)
	})
	on("store", w.errors, func(p any) { assert("C09", waited, "errors are not discarded before all functions are done") })
	on("call", cancel, "func()", func() {
		assert("C10", waited, "Wait does not call CancelOnErr before all functions are done")
		cancels++
	})
	on("block", func(kind any) { assert("C08", isKind("wait") || isKind("lock"), "Wait only waits for the functions") })
	on("go", func() { assert("C08", false, "Wait starts nothing") })
	ensures("C08,C12,C14,C15", waited, "Wait returns after all functions are done")
	ensures("C09,C13", imp(e == nil, err == nil), "Wait returns nil if there was no error")
	ensures("C09,C13", imp(e != nil, err != nil), "Wait returns an error if there was one")
	ensures("C09,C13", imp(e != nil, forall(func(y int) bool { return imp(y != nil && wraps(*e, y), wraps(err, y)) })), "Wait returns all errors")
	ensures("C10", imp(cancel != nil, cancels > 0), "CancelOnErr is called before Wait returns")
	ensures("C10", w.CancelOnErr == nil, "CancelOnErr is not kept for the next use")
	ensures("C10", w.errors == nil, "errors are not kept for the next use")
	ensures("C10", w.count == 0, "Running is 0 after Wait")
	ensures("C10", w.Pool == pool && w.PoolOptions == opts, "the Pool and its options are kept for the next use")
}

func GroupRunning(w any) (n any) {
	target("prim/wait", "(*Group).Running")
	var seen = -1
	on("load", w.count, func(v any) { seen = v })
	on("store", w.count, func(a any) { assert("C10", false, "Running is not changed by asking for it") })
	on("add", w.count, func(v any) { assert("C10", v == 0, "Running is not changed by asking for it") })
	ensures("C10", n == seen, "Running is the counter")
}
