package contracts

// C18 to C20: RequestGroups and closing.
//
// A Request that is in the Pipelines is counted in the WaitGroups of its RequestGroup and of the Pipelines: Submit
// adds it before it hands it over (GroupSubmit), a worker passes it on once (RunnerRoute), the demuxer passes it
// to the RequestGroup that its number says (assumed: package demux) and the goroutine of that RequestGroup takes
// it off and outputs it (GroupForward). Close of either waits for that.

func GroupSubmit(r, req any) (err any) {
	target("pipelines/stagedpipe", "(*RequestGroup).Submit")
	requires(r.p != nil)
	requires(r.p.wg != nil && r.p.in != nil && r.startOnce != nil)
	requires(r.p.wg != &r.wg)
	p := r.p
	in := p.in
	id := r.id
	ordered := r.ordered
	sem := r.submitting
	ctx := req.Ctx
	data := req.Data
	e := req.Err
	neverClosed(in, sem)
	var sent = 0
	var pw = 0 // what the WaitGroup of the Pipelines has of this Request
	var rw = 0 // and that of the RequestGroup
	var holding = false
	var cur = 0 // the number of Requests that were submitted, while holding
	var first = 0
	rely(r.itemNum, func(v any) bool { return imp(holding, v == cur) })
	immutable("C18,C19,C20", "the parts of a RequestGroup are not replaced", r.p, r.id, r.out, r.user, r.ordered, r.submitting)
	on("send", sem, func(x any) {
		assert("C19", !holding, "the right to submit is taken once")
		holding = true
		first = r.itemNum
		cur = first
	})
	on("recv", sem, func(x, ok any) {
		assert("C19", holding, "the right to submit is only given up by who has it")
		assert("C19", cur == first+sent, "the next Request gets the next number, also after one that was not submitted")
		holding = false
	})
	on("add", r.itemNum, func(v any) {
		assert("C19", imp(ordered != nil, holding), "numbers are given out one after the other")
		cur = cur + v
	})
	on("store", r.itemNum, func(v any) {
		assert("C19", imp(ordered != nil, holding), "numbers are not given out twice")
		cur = v
	})
	on("cas", r.itemNum, func(o, n any) {
		assert("C19", imp(ordered != nil, holding), "numbers are not given out twice")
		cur = n
	})
	on("add", p.wg, func(n any) { pw = pw + n })
	on("done", p.wg, func() {
		assert("C18,C20", sent == 0 && pw == 1, "a Request that was handed over stays counted")
		pw--
	})
	on("add", r.wg, func(n any) { rw = rw + n })
	on("done", r.wg, func() {
		assert("C18", sent == 0 && rw == 1, "a Request that was handed over stays counted")
		rw--
	})
	on("send", in, func(x any) {
		assert("C18", sent == 0, "a Request is submitted once")
		assert("C18", ctx != nil, "a Request without a Context is not submitted")
		assert("C18", x.groupNum == id, "a Request has the number of its RequestGroup")
		assert("C18", x.Data == data && x.Err == e && ctxroot(x.Ctx) == ctxroot(ctx), "the Request is submitted as it was given")
		assert("C16,C17", x.seenStages == nil, "a Request that is submitted has seen no Stages")
		assert("C18,C20", pw == 1, "a Request is counted in the Pipelines before it is handed over")
		assert("C18", rw == 1, "a Request is counted in the RequestGroup before it is handed over")
		assert("C19", imp(ordered != nil, holding && x.itemNum == first && cur == first+1), "Requests are submitted in the order of their numbers, without gaps")
		sent++
	})
	on("block", func(kind any) {
		assert("C18", isKind("lock") || isKind("recv") && holding && waitsOn(sem) || waitsOnCtx(ctx), "Submit gives up when the Context is cancelled")
		assert("C18", isKind("lock") || !heldAny(), "Submit does not hold back others that should give up")
	})
	on("go", func() { assert("C18", false, "a Request is handed over before Submit returns") })
	on("ext:stagedpipe.StateMachine.Close", func() { assert("C20", false, "Submit does not close the StateMachine") })
	auto("panic", "C18")
	auto("safety", "C18")
	ensures("C18", imp(ctx == nil, err != nil), "a nil Context is refused")
	ensures("C18", imp(err == nil, sent == 1), "a Request is submitted if Submit returns nil")
	ensures("C18", imp(err != nil, sent == 0), "a Request is not submitted if Submit returns an error")
	ensures("C18", imp(err != nil, ctx == nil || cancelled(ctx)), "Submit only refuses Requests without a Context or with a cancelled one")
	ensures("C18,C20", pw == sent, "a Request is counted in the Pipelines if it was submitted, and not otherwise")
	ensures("C18", rw == sent, "a Request is counted in the RequestGroup if it was submitted, and not otherwise")
	ensures("C18,C19", !holding, "the next Submit is not held back")
}

func GroupForward(p any) (r any) {
	target("pipelines/stagedpipe", "(*Pipelines).NewRequestGroup")
	requires(p.wg != nil && p.demux != nil)
	wg := p.wg
	dmx := p.demux
	ordered := p.ordered
	neverClosed(made("RequestGroup").user)
	var id = 0
	var added = 0
	var inorder = 0
	var started = 0
	var busy = false
	var over = false  // everything was received
	var ended = 0     // the output was ended
	var pw = 0        // what the WaitGroup of the Pipelines has of the Request
	var rw = 0        // and that of the RequestGroup
	var data = 0
	var e = 0
	var item = 0
	on("add", p.requestGroupNum, func(v any) {
		assert("C18", v == 1, "each RequestGroup has a number of its own")
		id = p.requestGroupNum + v
	})
	on("store", p.requestGroupNum, func(v any) { assert("C18", false, "each RequestGroup has a number of its own") })
	on("ext:(*github.com/johnsiilver/dynamics/demux.Demux[K, V]).AddReceiver", func(d, k, ch any) {
		assert("C18", d == dmx && held(p.demuxMu), "receivers are added to the demuxer one after the other")
		assert("C18", k == id && k == made("RequestGroup").id && ch == made("RequestGroup").out, "the demuxer sends what has the number of the RequestGroup to it")
		added++
	})
	on("ext:github.com/johnsiilver/dynamics/demux.NewInOrder", func(f, ch any) {
		assert("C19", ch == made("RequestGroup").user, "Requests that were put into order are output")
		assert("C19", apply(f, anyOf("pipelines/stagedpipe", "Request")) == anyOf("pipelines/stagedpipe", "Request").itemNum, "Requests are ordered by their number")
		inorder++
	})
	on("extret:github.com/johnsiilver/dynamics/demux.NewInOrder", func(f, ch, o any) { assume(o != nil) })
	on("go", func() { started++ })
	on("recv", func(x, ok any) {
		assert("C18", child && subject == made("RequestGroup").out, "a RequestGroup takes what the demuxer sends to it")
		assert("C18,C19,C20", !busy, "each Request is output")
		assert("C18", rw == 0, "each Request that is output is taken off the RequestGroup")
		assert("C18,C20", pw == 0, "each Request that is output is taken off the Pipelines")
		if ok {
			busy = true
			pw = 1
			rw = 1
			data = x.Data
			e = x.Err
			item = x.itemNum
		} else {
			over = true
		}
	})
	on("done", wg, func() {
		assert("C18,C20", pw == 1, "a Request is taken off the Pipelines once")
		pw--
	})
	on("done", made("RequestGroup").wg, func() {
		assert("C18", rw == 1, "a Request is taken off the RequestGroup once")
		rw--
	})
	on("send", func(x any) {
		assert("C18", child && subject == made("RequestGroup").user, "a Request is output by its RequestGroup")
		assert("C19", !ordered, "Requests are put into order before they are output")
		assert("C18", busy, "each Request is output once")
		assert("C18", x.Data == data && x.Err == e && x.itemNum == item, "Requests are output as the pipelines sent them")
		busy = false
	})
	on("ext:(*github.com/johnsiilver/dynamics/demux.InOrder[I, V]).Add", func(o, x any) {
		assert("C18,C19", child && inorder == 1 && o == made("RequestGroup").ordered, "a Request is put into order with those of its RequestGroup")
		assert("C18,C19", busy, "each Request is output once")
		assert("C18,C19", x.Data == data && x.Err == e && x.itemNum == item, "Requests are output as the pipelines sent them")
		busy = false
	})
	on("extret:(*github.com/johnsiilver/dynamics/demux.InOrder[I, V]).Add", func(o, x, err any) {
		assume(err == nil) // it is only refused after Close
	})
	on("close", func() {
		assert("C18", subject == made("RequestGroup").user, "only the output of a RequestGroup is closed")
		assert("C18", !ordered, "the output is closed by what puts it into order")
		assert("C18", over && !busy && ended == 0, "the output is closed after all Requests")
		ended++
	})
	on("ext:(*github.com/johnsiilver/dynamics/demux.InOrder[I, V]).Close", func(o any) {
		assert("C18,C19", inorder == 1 && o == made("RequestGroup").ordered && over && !busy && ended == 0, "the output is closed after all Requests")
		ended++
	})
	on("goend", func() {
		assert("C18", over && ended == 1 && rw == 0, "all Requests are output and then the output is closed")
		assert("C18,C20", pw == 0, "each Request that is output is taken off the Pipelines")
	})
	on("ext:stagedpipe.StateMachine.Close", func() { assert("C20", false, "a RequestGroup does not close the StateMachine") })
	auto("panic", "C18")
	auto("safety", "C18")
	ensures("C18", added == 1 && started == 1, "what the demuxer sends to a RequestGroup is output")
	ensures("C18", r != nil && r.p == p && r.id == id, "a RequestGroup submits with the number that the demuxer knows")
	ensures("C18", r.out != nil && r.user != nil && r.out != r.user && r.startOnce != nil, "a RequestGroup has channels of its own")
	ensures("C19", iff(r.ordered != nil, ordered) && iff(inorder == 1, ordered), "the Requests of a RequestGroup are put into order if the option was given")
	ensures("C19", r.itemNum == 0, "the first Request has number 0")
	ensures("C19", r.submitting != nil && cap(r.submitting) == 1, "one Request is submitted at a time")
}

func GroupOut(r any) (ch any) {
	target("pipelines/stagedpipe", "(*RequestGroup).Out")
	user := r.user
	ensures("C18", ch == user, "Out returns what the RequestGroup outputs to")
}

func GroupClose(r any) {
	target("pipelines/stagedpipe", "(*RequestGroup).Close")
	requires(r.p != nil)
	requires(r.p.demux != nil && r.p.wg != nil && r.p.wg != &r.wg)
	rely(r.started, func(v any) bool { return v != nil }) // if there is a span: Submit sets both
	p := r.p
	dmx := p.demux
	id := r.id
	var waited = false
	var removed = 0
	var changed = 0
	on("wait", r.wg, func() { waited = true })
	on("ext:(*github.com/johnsiilver/dynamics/demux.Demux[K, V]).RemoveReceiver", func(d, k any) {
		assert("C18", waited, "Close waits until all Requests of the RequestGroup were processed")
		assert("C18", d == dmx && k == id, "the output of the RequestGroup is closed and of no other")
		assert("C18", held(p.demuxMu), "receivers are removed from the demuxer one after the other")
		removed++
	})
	on("close", func() { assert("C18", false, "the output is closed after the last Request, see NewRequestGroup") })
	on("go", func() { assert("C18", false, "Close returns when the RequestGroup is closed") })
	on("add", func(n any) { changed++ })
	on("done", func() { changed++ })
	on("ext:stagedpipe.StateMachine.Close", func() { changed++ })
	auto("panic", "C18")
	auto("safety", "C18")
	auto("lock", "C18")
	ensures("C18,C20", changed == 0, "closing a RequestGroup neither changes what is counted nor closes the StateMachine")
	ensures("C18", waited, "Close waits until all Requests of the RequestGroup were processed")
	ensures("C18", removed == 1, "Close ends the output")
}

func PipelinesClose(p any) {
	target("pipelines/stagedpipe", "(*Pipelines).Close")
	requires(p.wg != nil && p.in != nil && p.out != nil && p.in != p.out && p.sm != nil)
	in := p.in
	out := p.out
	wg := p.wg
	sm := p.sm
	var cin = 0
	var cout = 0
	var waited = false
	var closed = 0
	on("wait", wg, func() { waited = true })
	on("close", func() {
		assert("C20", subject == in || subject == out, "nothing else is closed")
		assert("C20", imp(subject == in, cin == 0), "the input is closed once")
		assert("C18,C20", imp(subject == out, cout == 0 && waited), "what the demuxer takes is closed after all Requests were output")
		cin = ite(subject == in, cin+1, cin)
		cout = ite(subject == out, cout+1, cout)
	})
	on("add", func(n any) { assert("C18,C20", false, "Close changes no count") })
	on("done", func() { assert("C18,C20", false, "Close changes no count") })
	on("ext:stagedpipe.StateMachine.Close", func() {
		assert("C20", waited, "the StateMachine is closed after all Requests have left the pipelines")
		assert("C20", closed == 0, "the StateMachine is closed once")
		assert("C20", subject == sm, "the StateMachine that was given to New is closed")
		closed++
	})
	auto("panic", "C20")
	auto("safety", "C20")
	ensures("C20,C24", cin == 1, "the workers end")
	ensures("C20", closed == 1, "the StateMachine is closed")
	ensures("C20", cout == 1, "the demuxer ends")
}
