package contracts

// C23: spans. A span is ended by who started it, or by who gets it with a Request or in a Group.

func SpansGo(w, ctx, f any) {
	target("prim/wait", "(*Group).Go")
	requires(f != nil, ctx != nil)
	requires(imp(*w.otelOnce == nil, w.span.Span == nil)) // see SpansWait
	old := w.span.Span
	var n = 0
	var s = nil
	on("spanstart", func(sp, cur, c, nc any) {
		assert("C23", !child && n == 0, "a Group starts one span")
		assert("C23", cur == spanof(ctx), "the span of a Group is a child of the one in the Context")
		n++
		s = sp
	})
	on("spanend", func(x any) { assert("C23", false, "the span of a Group is ended by Wait") })
	ensures("C23", imp(n == 0, w.span.Span == old || !recording(w.span)), "the span of a Group is kept until Wait")
	ensures("C23", imp(n == 1, w.span.Span == s && old == nil), "the span of a Group is kept until Wait")
}

func SpansWait(w, ctx any) (err any) {
	target("prim/wait", "(*Group).Wait")
	s := w.span.Span
	var waited = false
	var ended = 0
	on("wait", w.wg, func() {
		waited = true
		quiet(w)
	})
	on("spanstart", func(sp, cur, c, nc any) { assert("C23", false, "Wait starts no span") })
	on("spanend", func(x any) {
		assert("C23", waited, "the span of a Group is ended after all functions are done")
		assert("C23", x == s && ended == 0, "the span of a Group is ended once, and no other")
		ended++
	})
	ensures("C23", imp(s != nil && records(s), ended == 1), "the span of a Group is ended by Wait")
	ensures("C23", w.span.Span == nil && *w.otelOnce == nil, "the next use of a Group starts another span")
}

func SpansRunner(p any) {
	target("pipelines/stagedpipe", "(*pipeline).runner")
	mayNotReturn()
	joinReturns()
	requires(p.stats != nil)
	requires(p.stats.ingestStats != nil)
	var open = false
	var s = 0       // the span of the Stage
	var sc = 0      // the Context that has it
	var req = 0     // the span of the Request
	var ctx = 0     // the Context of the Request
	var own = false // the Context was replaced
	var cur = 0     // the Context that the Request has now
	var last = 0    // the one that it had before the span of the Stage was started
	var rec = false
	on("recv", p.in, func(x, ok any) {
		if ok {
			assume(spanof(x.Ctx) == x.span.Span) // see SpansSubmit
			assume(x.Ctx != nil)
			open = false
			req = x.span.Span
			ctx = x.Ctx
			cur = x.Ctx
			own = false
			rec = recording(x.span)
		}
	})
	on("spanstart", func(sp, cur, c, nc any) {
		assert("C23", !open, "the span of a Stage is ended before the next one is started")
		assert("C23", imp(!own, cur == req), "the span of a Stage is a child of the span of its Request")
		open = true
		s = sp
		sc = nc
		last = c
		cur = nc
	})
	on("spanend", func(x any) {
		assert("C23", open && x == s, "the span of a Stage is ended once, and no other")
		open = false
		cur = ite(cur == sc, last, cur)
	})
	on("call", "func(stagedpipe.Request[T]) stagedpipe.Request[T]", func(x any) {
		assert("C23", imp(rec && !own, open && x.Ctx == sc && x.span.Span == s), "a Stage gets its span if that of its Request is recording")
	})
	on("ret", "func(stagedpipe.Request[T]) stagedpipe.Request[T]", func(x, y any) {
		assume(sameHidden(x, y)) // see RunnerRoute
		own = own || y.Ctx != x.Ctx
		cur = y.Ctx
	})
	on("send", p.out, func(x any) {
		assert("C23", !open, "the span of a Stage is ended before the Request is output")
		assert("C23", x.span.Span == req, "a Request is output with its span")
		assert("C23", imp(!own, x.Ctx == ctx), "a Request is output with the Context that it had if no Stage replaced it")
	})
	inv(imp(!own && open, cur == sc && last == ctx))
	inv(imp(!own && !open, cur == ctx))
	inv(imp(!own && rec, spanof(ctx) == req))
}

func SpansSubmit(r, req any) (err any) {
	target("pipelines/stagedpipe", "(*RequestGroup).Submit")
	requires(r.p != nil)
	requires(r.p.wg != nil && r.p.in != nil && r.startOnce != nil)
	requires(r.p.wg != &r.wg)
	requires(imp(*r.startOnce == nil, r.span.Span == nil))
	old := r.span.Span
	in := r.p.in
	sem := r.submitting
	neverClosed(in, sem)
	var n = 0
	var s1 = nil
	var s2 = nil
	var e1 = 0
	var e2 = 0
	var sent = false
	on("spanstart", func(sp, cur, c, nc any) {
		assume(imp(n > 0, sp != s1) && sp != old) // it is a new one
		assert("C23", n < 2, "Submit starts one span for the Request and one for the RequestGroup")
		s1 = ite(n == 0, sp, s1)
		s2 = ite(n == 1, sp, s2)
		n++
	})
	on("spanend", func(x any) {
		assert("C23", n > 0 && x == s1 || n > 1 && x == s2, "Submit ends no other span than its own")
		assert("C23", !sent, "the span of a Request that was submitted is ended when it is output")
		e1 = ite(n > 0 && x == s1, e1+1, e1)
		e2 = ite(n > 1 && x == s2, e2+1, e2)
	})
	on("send", in, func(x any) {
		assert("C23", spanof(x.Ctx) == x.span.Span, "a Request has the span that is in its Context")
		assert("C23", imp(n >= 1, s1 == x.span.Span || s1 == r.span.Span), "a span that is started is that of the Request or of the RequestGroup")
		assert("C23", imp(n == 2, s2 == x.span.Span || s2 == r.span.Span), "a span that is started is that of the Request or of the RequestGroup")
		assert("C23", imp(n == 2, r.span.Span != x.span.Span), "the Request and the RequestGroup have different spans")
		assert("C23", e1 == 0 && e2 == 0, "the span of a Request that was submitted is ended when it is output")
		assert("C23", imp(recording(x.span), s1 == x.span.Span || s2 == x.span.Span), "each Request has a span of its own")
		sent = true
	})
	ensures("C23", imp(r.span.Span != old, old == nil), "the span of a RequestGroup is kept until Close")
	ensures("C23", imp(n >= 1 && s1 == r.span.Span, e1 == 0), "the span of a RequestGroup is ended by Close")
	ensures("C23", imp(n == 2 && s2 == r.span.Span, e2 == 0), "the span of a RequestGroup is ended by Close")
	ensures("C23", imp(!sent && n >= 1 && s1 != r.span.Span, e1 == 1), "the span of a Request that was not submitted is ended")
	ensures("C23", imp(!sent && n == 2 && s2 != r.span.Span, e2 == 1), "the span of a Request that was not submitted is ended")
}

func SpansForward(p any) (r any) {
	target("pipelines/stagedpipe", "(*Pipelines).NewRequestGroup")
	requires(p.wg != nil && p.demux != nil)
	neverClosed(made("RequestGroup").user)
	var sp = nil
	var rec = false
	var ended = 0
	on("recv", func(x, ok any) {
		if ok {
			sp = x.span.Span
			rec = x.span.Span != nil && recording(x.span)
			ended = 0
		}
	})
	on("spanstart", func(sp, cur, c, nc any) { assert("C23", false, "no span is started for the output") })
	on("spanend", func(x any) {
		assert("C23", child && x == sp && ended == 0, "the span of a Request is ended once, and no other")
		ended++
	})
	on("send", func(x any) { assert("C23", imp(rec, ended == 1), "the span of a Request is ended before it is output") })
	on("extret:github.com/johnsiilver/dynamics/demux.NewInOrder", func(f, ch, o any) { assume(o != nil) })
	on("ext:(*github.com/johnsiilver/dynamics/demux.InOrder[I, V]).Add", func(o, x any) {
		assert("C23", imp(rec, ended == 1), "the span of a Request is ended before it is output")
	})
	on("extret:(*github.com/johnsiilver/dynamics/demux.InOrder[I, V]).Add", func(o, x, err any) { assume(err == nil) })
	ensures("C23", r.span.Span == nil, "a RequestGroup has no span before the first Request")
}

func SpansClose(r any) {
	target("pipelines/stagedpipe", "(*RequestGroup).Close")
	requires(r.p != nil)
	requires(r.p.demux != nil)
	rely(r.started, func(v any) bool { return v != nil })
	s := r.span.Span
	var waited = false
	var ended = 0
	on("wait", r.wg, func() { waited = true })
	on("spanstart", func(sp, cur, c, nc any) { assert("C23", false, "Close starts no span") })
	on("spanend", func(x any) {
		assert("C23", waited, "the span of a RequestGroup is ended after its Requests were processed")
		assert("C23", x == s && ended == 0, "the span of a RequestGroup is ended once, and no other")
		ended++
	})
	ensures("C23", imp(s != nil && records(s), ended == 1), "the span of a RequestGroup is ended by Close")
}
