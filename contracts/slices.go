package contracts

// C12 and C13: slices.Access. K is any fixed index.

func SlicesAccess(ctx, s, access, options any) (err any) {
	target("prim/slices", "Access")
	group()
	requires(ctx != nil, access != nil)
	K := anyInt("K")
	var given = nil        // the pool option
	var givenOpts = nil
	var own = nil          // the pool that was made here
	var stop = false       // the stop option
	var refused = nil      // the error of an option or of making the pool
	var saw = false        // the Context was found to be cancelled
	var skipped = false    // a function was skipped because of that
	var calls = 0          // calls of the Accessor with K
	var fail = nil         // what it returned
	var cur = -1           // the index in this goroutine
	var inside = false     // in the Modifier
	var sets = 0
	var waited = false
	auto("safety", "C12")
	auto("panic", "C12")
	auto("race", "C12")
	on("applyoptions", func(p, o, e any) {
		given = p.pool
		givenOpts = p.poolOptions
		stop = p.stopOnErr
		refused = e
		assert("C13", o == options, "all options are applied")
	})
	on("newpool", func(p, n any) { own = iface(p) })
	on("refused", func(e any) { refused = e })
	on("ctxerr", func(e any) { saw = saw || e != nil })
	on("group.go", func(p, o, c, f, cancel any) {
		assert("C13", imp(given != nil, p == given && o == givenOpts), "the pool and the options that were given are used")
		assert("C13", imp(given == nil && own != nil, p == own), "the pool that was made is used")
		assert("C12,C13", derives(c, ctx), "the Context is given on")
		assert("C13", imp(stop, cancel == cancelfn(c)), "with the stop option a failure cancels the Context of the others")
		assert("C13", imp(!stop, ctxroot(c) == ctxroot(ctx)), "without the stop option a failure does not cancel anything")
		assert("C12,C13", refused == nil, "nothing is started if an option fails")
		assert("C12", !waited, "nothing is started after the end")
	})
	on("group.skip", func() { skipped = true })
	on("group.wait", func() { waited = true })
	on("call", access, func(c, i, v, m any) {
		assert("C12", 0 <= i && i < len(s), "the Accessor gets an index of the slice")
		assert("C12", v == elem(s, i), "the Accessor gets the value at the index")
		assert("C12", imp(i == K, calls == 0), "the Accessor is not called twice for an index")
		assert("C12,C13", derives(c, ctx), "the Accessor gets the Context")
		assert("C12", child && !waited, "the Accessor runs in a function that is waited for")
		calls += ite(i == K, 1, 0)
		cur = i
		inside = false
	})
	on("ret", access, func(c, i, v, m, e any) {
		fail = ite(i == K, e, fail)
	})
	on("callback", func(v any) {
		inside = true
		sets = 0
	})
	on("setelem", func(i, v any) {
		assert("C12", inside, "only the Modifier changes the slice")
		assert("C12", subject == base(s) && i == off(s)+cur, "the Modifier assigns the element with the index that the Accessor got")
		sets++
	})
	on("callbackret", func(v any) {
		assert("C12", sets == 1, "the Modifier assigns the element once")
		assert("C12", elem(s, cur) == v, "the Modifier assigns the value that it is given")
	})
	inv(imp(K < 0 || K >= iter, calls == 0))
	inv(imp(0 <= K && K < iter && !skipped, calls == 1))
	inv(imp(calls == 0, fail == nil))
	inv(calls == 0 || calls == 1)
	inv(imp(fail != nil, groupFailed()))
	inv(imp(fail != nil && !isContextErr(fail), recorded(fail)))
	inv(imp(skipped, groupFailed()))
	ensures("C12,C13", imp(0 <= K && K < len(s) && !saw && !skipped && refused == nil, calls == 1), "the Accessor is called for every index")
	ensures("C12", imp(err == nil && 0 <= K && K < len(s), calls == 1), "if nil is returned the Accessor was called for every index")
	ensures("C12", joined(), "no Accessor runs any more")
	ensures("C13", imp(refused != nil, err != nil), "an option that fails makes the call fail")
	ensures("C13", imp(fail != nil, err != nil), "an error is returned if an Accessor fails")
	ensures("C13", imp(fail != nil && !isContextErr(fail), wraps(err, fail)), "the error that is returned contains the failure")
	ensures("C13", imp((saw || skipped) && refused == nil, err != nil), "an error is returned if the Context was cancelled before everything was processed")
}
