package contracts

// C13 to C15: chans.Access and chans.Modify. K is any fixed number of a value that is received.

func ChansAccess(ctx, input, access, options any) (err any) {
	target("prim/chans", "Access")
	group()
	requires(ctx != nil, access != nil)
	K := anyInt("K")
	var given = nil        // the pool option
	var givenOpts = nil
	var own = nil          // the pool that was made here
	var stop = false       // the stop option
	var refused = nil      // the error of an option or of making the pool
	var saw = false        // the Context was found to be cancelled
	var skipped = false    // a function was skipped because of that
	var over = false       // the input is closed
	var n = 0              // how many values were taken
	var pend = 0           // a value was taken and nobody has it yet
	var val = nil          // that value
	var calls = 0          // calls of the Accessor with it
	var skip = false       // its function was skipped
	var fail = nil         // what the Accessor returned for value K
	var waited = false
	auto("safety", "C14")
	auto("panic", "C14")
	auto("race", "C14")
	on("applyoptions", func(p, o, e any) {
		given = p.pool
		givenOpts = p.poolOptions
		stop = p.stopOnErr
		refused = e
		assert("C13", o == options, "all options are applied")
	})
	on("newpool", func(p, n any) { own = iface(p) })
	on("refused", func(e any) { refused = e })
	on("ctxerr", func(e any) { saw = saw || e != nil })
	on("recvdone", func(c any) { saw = true })
	on("block", func(kind any) {
		assert("C14", imp(isKind("recv") || isKind("select"), waitsOnCtx(ctx)), "waiting for input ends when the Context is cancelled")
		assert("C14", imp(isKind("recv") || isKind("select"), !saw && !over), "no more input is waited for when the Context is cancelled or the input is closed")
		assert("C14", pend == 0, "a value that was taken is given to a function before anything else is waited for")
	})
	on("recv", input, func(v, ok any) {
		assert("C14", pend == 0, "a value that was taken is given to a function before the next one is taken")
		assert("C14", !child, "values are taken by Access")
		over = !ok
		if ok {
			n++
			pend = 1
			val = v
		}
	})
	on("group.go", func(p, o, c, f, cancel any) {
		assert("C13", imp(given != nil, p == given && o == givenOpts), "the pool and the options that were given are used")
		assert("C13", imp(given == nil && own != nil, p == own), "the pool that was made is used")
		assert("C13,C14", derives(c, ctx), "the Context is given on")
		assert("C13", imp(stop, cancel == cancelfn(c)), "with the stop option a failure cancels the Context of the others")
		assert("C13", imp(!stop, ctxroot(c) == ctxroot(ctx)), "without the stop option a failure does not cancel anything")
		assert("C13,C14", refused == nil, "nothing is started if an option fails")
		assert("C14", pend == 1 && !waited, "a function is started for every value that is taken, and for nothing else")
		pend = 0
		calls = 0
		skip = false
	})
	on("group.skip", func() {
		skipped = true
		skip = true
	})
	on("group.wait", func() { waited = true })
	on("call", access, func(c, v any) {
		assert("C14", calls == 0, "the Accessor is not called twice for a value")
		assert("C14", v == val, "the Accessor gets the value that was taken")
		assert("C13,C14", derives(c, ctx), "the Accessor gets the Context")
		assert("C14", child && !waited, "the Accessor runs in a function that is waited for")
		calls++
	})
	on("ret", access, func(c, v, e any) { fail = ite(n == K, e, fail) })
	on("goend", func() { assert("C14", calls == 1 || skip, "the Accessor is called for every value that is taken, unless the Context is cancelled") })
	inv(imp(n < K, fail == nil))
	inv(0 <= n)
	inv(imp(fail != nil, groupFailed()))
	inv(imp(fail != nil && !isContextErr(fail), recorded(fail)))
	inv(imp(skipped, groupFailed()))
	ensures("C14", pend == 0, "every value that was taken is given to a function")
	ensures("C14", imp(err == nil && input != nil, over && !skipped), "if nil is returned the input was closed and everything was processed")
	ensures("C13,C14", imp(input != nil && !saw && refused == nil, over), "Access does not end before the input is closed unless the Context is cancelled")
	ensures("C14", joined(), "no Accessor runs any more")
	ensures("C13", imp(refused != nil, err != nil), "an option that fails makes the call fail")
	ensures("C13", imp(fail != nil, err != nil), "an error is returned if an Accessor fails")
	ensures("C13", imp(fail != nil && !isContextErr(fail), wraps(err, fail)), "the error that is returned contains the failure")
	ensures("C13", imp(input != nil && (saw || skipped), err != nil), "an error is returned if the Context was cancelled before everything was processed")
}

func ChansModify(ctx, input, output, mod, options any) (err any) {
	target("prim/chans", "Modify")
	group()
	requires(ctx != nil, mod != nil)
	K := anyInt("K")
	var given = nil
	var givenOpts = nil
	var stop = false
	var refused = nil
	var n = 0              // how many values were taken
	var pend = 0           // a value was taken and nobody has it yet
	var val = nil          // that value
	var calls = 0          // calls of the Modifier with it
	var rets = 0           // results of the Modifier that were not sent
	var res = nil          // its value
	var rerr = nil         // its error
	var gone = false       // the Context was found to be cancelled in this function
	var saw = false        // the Context was found to be cancelled
	var skip = false
	var skipped = false
	var over = false
	var fail = nil         // the error of the Modifier for value K
	var closed = 0
	var started = false
	var waited = false
	neverClosed(output)
	auto("safety", "C15")
	auto("panic", "C15")
	auto("race", "C15")
	on("applyoptions", func(p, o, e any) {
		given = p.pool
		givenOpts = p.poolOptions
		stop = p.stopOnErr
		refused = e
		assert("C13", o == options, "all options are applied")
	})
	on("refused", func(e any) { refused = e })
	on("ctxerr", func(e any) {
		gone = gone || e != nil
		saw = saw || !child && e != nil
	})
	on("recvdone", func(c any) {
		assert("C13,C15", derives(c, ctx), "only the Context that was given ends waiting")
		gone = true
		saw = saw || !child
	})
	on("recv", input, func(v, ok any) {
		assert("C15", pend == 0, "a value that was taken is given to a function before the next one is taken")
		over = !ok
		if ok {
			n++
			pend = 1
			val = v
		}
	})
	on("group.go", func(p, o, c, f, cancel any) {
		assert("C13", imp(given != nil, p == given && o == givenOpts), "the pool and the options that were given are used")
		assert("C13,C15", derives(c, ctx), "the Context is given on")
		assert("C13", imp(stop, cancel == cancelfn(c)), "with the stop option a failure cancels the Context of the others")
		assert("C13", imp(!stop, ctxroot(c) == ctxroot(ctx)), "without the stop option a failure does not cancel anything")
		assert("C15", pend == 1 && !waited && closed == 0, "a function is started for every value that is taken, before the output is closed")
		started = true
		pend = 0
		calls = 0
		rets = 0
		gone = false
		skip = false
	})
	on("group.skip", func() {
		skip = true
		skipped = true
	})
	on("group.wait", func() { waited = true })
	on("call", mod, func(c, v any) {
		assert("C15", calls == 0, "the Modifier is not called twice for a value")
		assert("C15", v == val, "the Modifier gets the value that was taken")
		assert("C13,C15", derives(c, ctx), "the Modifier gets the Context")
		calls++
	})
	on("ret", mod, func(c, v, r, e any) {
		fail = ite(n == K, e, fail)
		res = r
		rerr = e
		rets++
	})
	on("send", output, func(sr any) {
		assert("C15", rets == 1, "one result is sent for each call of the Modifier")
		assert("C15", sr.Err == rerr, "the error of the Modifier is sent")
		assert("C15", imp(rerr == nil, sr.Value == res), "the value of the Modifier is sent")
		rets--
	})
	on("goend", func() {
		assert("C15", calls == 1 || skip, "the Modifier is called for every value that is taken, unless the Context is cancelled")
		assert("C15", rets == 0 || rerr != nil && gone, "a result is only dropped if it is an error and the Context is cancelled")
	})
	on("close", output, func() {
		assert("C15", imp(started, waited), "the output is not closed before all results were sent")
		assert("C15", closed == 0, "the output is not closed twice")
		closed++
	})
	inv(imp(n < K, fail == nil))
	inv(0 <= n)
	inv(closed == 0 && !waited)
	inv(imp(fail != nil, groupFailed()))
	inv(imp(fail != nil && !isContextErr(fail), recorded(fail)))
	inv(imp(skipped, groupFailed()))
	ensures("C15", imp(input == nil || output == nil, err != nil && n == 0 && (output == nil || closed <= 1)), "nil channels are refused")
	ensures("C15", imp(input != nil && output != nil, closed == 1), "the output is closed when Modify returns")
	ensures("C15", pend == 0, "every value that was taken is given to a function")
	ensures("C15", joined(), "no Modifier runs any more")
	ensures("C13", imp(refused != nil, err != nil), "an option that fails makes the call fail")
	ensures("C13", imp(fail != nil, err != nil), "an error is returned if a Modifier fails")
	ensures("C13", imp(fail != nil && !isContextErr(fail), wraps(err, fail)), "the error that is returned contains the failure")
	ensures("C13", imp(input != nil && (saw || skipped), err != nil), "an error is returned if the Context was cancelled before everything was processed")
	ensures("C13", imp(input != nil && output != nil && !saw && refused == nil, over), "Modify does not end before the input is closed unless the Context is cancelled")
}

func ChansStop() (o any) {
	target("prim/chans", "WithStopOnErr")
	ensures("C13", index(optionTarget(o, "chanOptions"), 2) == nil, "the option is accepted")
	ensures("C13", index(optionTarget(o, "chanOptions"), 1).stopOnErr, "the option is set")
	ensures("C13", let(optionTarget(o, "chanOptions"), func(t any) bool { return index(t, 1).pool == index(t, 0).pool }), "the other options are kept")
}

func ChansPool(pool, options any) (o any) {
	target("prim/chans", "WithPoolOptions")
	ensures("C13", index(optionTarget(o, "chanOptions"), 2) == nil, "the option is accepted")
	ensures("C13", index(optionTarget(o, "chanOptions"), 1).pool == pool, "the pool is set")
	ensures("C13", index(optionTarget(o, "chanOptions"), 1).poolOptions == options, "the options for the pool are set")
	ensures("C13", let(optionTarget(o, "chanOptions"), func(t any) bool { return iff(index(t, 1).stopOnErr, index(t, 0).stopOnErr) }), "the other options are kept")
}

func SlicesStop() (o any) {
	target("prim/slices", "WithStopOnErr")
	ensures("C13", index(optionTarget(o, "sliceOptions"), 2) == nil, "the option is accepted")
	ensures("C13", index(optionTarget(o, "sliceOptions"), 1).stopOnErr, "the option is set")
	ensures("C13", let(optionTarget(o, "sliceOptions"), func(t any) bool { return index(t, 1).pool == index(t, 0).pool }), "the other options are kept")
}

func SlicesPool(pool, options any) (o any) {
	target("prim/slices", "WithPoolOptions")
	ensures("C13", index(optionTarget(o, "sliceOptions"), 2) == nil, "the option is accepted")
	ensures("C13", index(optionTarget(o, "sliceOptions"), 1).pool == pool, "the pool is set")
	ensures("C13", index(optionTarget(o, "sliceOptions"), 1).poolOptions == options, "the options for the pool are set")
	ensures("C13", let(optionTarget(o, "sliceOptions"), func(t any) bool { return iff(index(t, 1).stopOnErr, index(t, 0).stopOnErr) }), "the other options are kept")
}
