package contracts

// C01 to C05: the two pools.

// ---- limited ----

func LimitedSubmit(p, ctx, runner, options any) (err any) {
	target("goroutines/limited", "(*Pool).Submit")
	requires(forall(func(i int) bool { return elem(options, i) != nil }))
	neverClosed(p.queue) // Close waits for p.wg first, see LimitedClose, and a unit of it is held
	var runs = 0         // calls of the job
	var fin = 0          // returns of the job
	var nb = false       // the NonBlocking option was given
	var failed = false   // an option failed
	ledger("C01", p.queue, "the slot that a job takes is given back exactly once")
	ledger("C03", p.wg, "each job is added to the WaitGroup once and done once")
	ledger("C05", p.running, "each job is added to Running once and subtracted once")
	immutable("C01,C04", "the semaphore of the pool is not replaced", p.queue)
	auto("safety", "C01,C02,C03")
	auto("panic", "C02")
	on("ret", "func(pool.SubmitOptions) (pool.SubmitOptions, error)", func(in, out, e any) {
		nb = out.NonBlocking
		failed = failed || e != nil
	})
	on("send", p.queue, func(v any) {
		assert("C01,C04", !nb, "a NonBlocking job takes no slot")
	})
	on("go", func() {
		assert("C03", credit(p.wg) >= 1, "the job is added to the WaitGroup before Submit returns")
		assert("C05", credit(p.running) >= 1, "the job is counted in Running before Submit returns")
	})
	on("block", func(kind any) {
		assert("C04", imp(nb && runs == 0, isKind("lock")), "a NonBlocking job is started without waiting")
	})
	on("call", runner, "func(context.Context)", func(c any) {
		assert("C01", imp(!nb, credit(p.queue) == 1), "a job only runs while it holds a slot")
		assert("C01,C04", imp(nb, credit(p.queue) == 0), "a NonBlocking job runs without a slot")
		assert("C01,C03,C04", !heldAny(), "no lock is held while a job runs")
		assert("C02", runs == 0, "a job is not run twice")
		assert("C02", !failed, "a job is not run if an option failed")
		assert("C02", c == ctx, "a job gets the Context that was given to Submit")
		assert("C03", credit(p.wg) >= 1, "a job that runs is in the WaitGroup")
		assert("C05", credit(p.running) == 1, "a job that runs is counted in Running once")
		assert("C01,C04", child, "a job runs in its own goroutine")
		runs++
	})
	on("ret", runner, "func(context.Context)", func(c any) { fin++ })
	on("recv", p.queue, func(v, ok any) {
		assert("C01", fin == runs, "the slot is given back when the job is done, not earlier")
	})
	on("done", p.wg, func() {
		assert("C03", fin == 1 && runs == 1, "the WaitGroup is told when the job is done, not earlier")
		assert("C05", credit(p.running) == 0, "Running is updated before Wait can return")
	})
	on("goend", func() {
		assert("C02", runs == 1, "the goroutine of a job runs it")
	})
	ensures("C02", imp(err == nil, runs == 1), "an accepted job is run exactly once")
	ensures("C02", imp(err != nil, runs == 0), "a refused job is not run")
	ensures("C02", imp(runner == nil || failed, err != nil), "a nil job and one with a failing option are refused")
	ensures("C03", imp(err == nil, fin == 1), "an accepted job is waited for")
}

func LimitedWait(p any) {
	target("goroutines/limited", "(*Pool).Wait")
	var waited = false
	on("wait", p.wg, func() { waited = true })
	on("block", func(kind any) { assert("C03", isKind("wait") || isKind("lock"), "Wait only waits for the jobs") })
	ensures("C03", waited, "Wait returns after all jobs are done")
}

func LimitedClose(p any) {
	target("goroutines/limited", "(*Pool).Close")
	var waited = false
	on("wait", p.wg, func() { waited = true })
	on("close", p.queue, func() { assert("C01,C03", waited, "nothing is closed before all jobs are done") })
	on("block", func(kind any) { assert("C03", isKind("wait") || isKind("lock"), "Close only waits for the jobs") })
	on("ext:goroutines/internal/register.Unregister", func(q any) { assert("C03", waited, "nothing is unregistered before all jobs are done") })
	immutable("C01,C03", "the semaphore of the pool is not replaced", p.queue)
	ensures("C03", waited, "Close returns after all jobs are done")
}

func LimitedRunning(p any) (n any) {
	target("goroutines/limited", "(*Pool).Running")
	var seen = -1
	on("load", p.running, func(v any) { seen = v })
	on("store", p.running, func(a any) { assert("C05", false, "Running is not changed by asking for it") })
	on("add", p.running, func(v any) { assert("C05", v == 0, "Running is not changed by asking for it") })
	ensures("C05", n == seen, "Running is the counter")
}

func LimitedNew(name, size any) (p, err any) {
	target("goroutines/limited", "New")
	var bad = false
	ensures("C01", imp(err == nil, p != nil && cap(p.queue) == size), "a pool has as many slots as its size")
	ensures("C05", imp(err == nil, run(p, "Len") == size), "Len is the size that the pool was created with")
	ensures("C05", imp(err == nil, run(p, "Running") == 0), "Running of a new pool is 0")
	on("send", func(v any) { assert("C01", false, "all slots of a new pool are free") })
}

func LimitedNonBlocking() (o any) {
	target("goroutines/limited", "NonBlocking")
	ensures("C04", imp(index(apply(o, anyOf("goroutines/internal/pool", "SubmitOptions")), 1) == nil, index(apply(o, anyOf("goroutines/internal/pool", "SubmitOptions")), 0).NonBlocking), "NonBlocking sets the option")
}

// ---- pooled ----

func PooledSubmit(p, ctx, runner, options any) (err any) {
	target("goroutines/pooled", "(*Pool).Submit")
	requires(forall(func(i int) bool { return elem(options, i) != nil }))
	var runs = 0       // the job was run or given to a runner
	var fin = 0        // returns of the job
	var nb = false     // the NonBlocking option was given
	var failed = false // an option failed
	ledger("C03", p.wg, "each job is added to the WaitGroup once and done once")
	ledger("C05", p.running, "each job is added to Running once and subtracted once")
	carries(p.queue, p.wg, p.running) // the runner that gets the job gives the units back, see PooledNew
	immutable("C01,C02,C04", "the queue of the pool is not replaced", p.queue)
	auto("safety", "C01,C02,C03")
	auto("panic", "C02")
	on("ret", "func(pool.SubmitOptions) (pool.SubmitOptions, error)", func(in, out, e any) {
		nb = out.NonBlocking
		failed = failed || e != nil
	})
	on("send", p.queue, func(s any) {
		assert("C02", s.job == runner && s.ctx == ctx, "the job and its Context are given to a runner")
		assert("C02", s.job != nil, "no nil job is given to a runner")
		assert("C01,C02,C03,C04,C05,C06", owned(s, p), "a job is given to the runners of its pool")
		assert("C02", runs == 0, "a job is not given away twice")
		assert("C02", !failed, "a job is not run if an option failed")
		assert("C03", credit(p.wg) >= 0, "the job is added to the WaitGroup before it is given to a runner")
		assert("C05", credit(p.running) >= 0, "the job is counted in Running before it is given to a runner")
		runs++
	})
	on("go", func() {
		assert("C03", credit(p.wg) >= 1, "the job is added to the WaitGroup before Submit returns")
		assert("C05", credit(p.running) >= 1, "the job is counted in Running before Submit returns")
	})
	on("block", func(kind any) {
		assert("C04", imp(nb && runs == 0, isKind("lock")), "a NonBlocking job is started without waiting")
	})
	on("call", runner, "func(context.Context)", func(c any) {
		assert("C01", nb, "only a NonBlocking job runs outside of the runners")
		assert("C01,C03,C04", !heldAny(), "no lock is held while a job runs")
		assert("C02", runs == 0, "a job is not run twice")
		assert("C02", !failed, "a job is not run if an option failed")
		assert("C02", c == ctx, "a job gets the Context that was given to Submit")
		assert("C03", credit(p.wg) >= 1, "a job that runs is in the WaitGroup")
		assert("C05", credit(p.running) == 1, "a job that runs is counted in Running once")
		assert("C04", child, "a job runs in its own goroutine")
		runs++
	})
	on("ret", runner, "func(context.Context)", func(c any) { fin++ })
	on("done", p.wg, func() {
		assert("C03", fin == 1 && runs == 1, "the WaitGroup is told when the job is done, not earlier")
		assert("C05", credit(p.running) == 0, "Running is updated before Wait can return")
	})
	on("goend", func() {
		assert("C02", runs == 1, "the goroutine of a job runs it")
	})
	ensures("C02", imp(err == nil, runs == 1), "an accepted job is run exactly once")
	ensures("C02", imp(err != nil, runs == 0), "a refused job is not run")
	ensures("C02", imp(runner == nil || failed, err != nil), "a nil job and one with a failing option are refused")
}

func PooledNew(name, size any) (p, err any) {
	target("goroutines/pooled", "New")
	var started = 0     // runners that were started
	var pend = 0        // a job was taken and is not run yet
	var fin = 0         // the job that was taken returned
	var closed = false  // the runner knows that the queue is closed
	var job = nil       // what was taken
	var cx = nil
	ledger("C03", made("Pool").wg, "each job is added to the WaitGroup once and done once")
	ledger("C05", made("Pool").running, "each job is added to Running once and subtracted once")
	carries(made("Pool").queue, made("Pool").wg, made("Pool").running)
	on("go", func() {
		assert("C01", !child, "a runner runs its jobs one after the other")
		started++
		pend = 0
		fin = 0
		closed = false
	})
	on("recv", made("Pool").queue, func(s, ok any) {
		assert("C02", pend == 0, "a job that was taken is run before the next one is taken")
		closed = !ok
		if ok {
			assume(s.job != nil)              // see PooledSubmit
			assume(owned(s, made("Pool"))) // see PooledSubmit
		}
		pend = ite(ok, 1, 0)
		fin = 0
		job = s.job
		cx = s.ctx
	})
	on("block", func(kind any) {
		assert("C03", imp(child, !closed), "a runner ends when the queue is closed")
		assert("C01,C02", imp(child && pend == 1, isKind("lock")), "a job that was taken is run without waiting for others")
	})
	on("call", "func(context.Context)", func(c any) {
		assert("C02", pend == 1 && subject == job && c == cx, "the job that was taken is run, once, with its Context")
		assert("C01", child, "a job is run by a runner")
		assert("C01,C03,C04", !heldAny(), "no lock is held while a job runs")
		assert("C03", credit(made("Pool").wg) >= 1, "a job that runs is in the WaitGroup")
		assert("C05", credit(made("Pool").running) == 1, "a job that runs is counted in Running once")
		pend = 0
	})
	on("ret", "func(context.Context)", func(c any) { fin++ })
	on("done", made("Pool").wg, func() {
		assert("C03", fin == 1, "the WaitGroup is told when the job is done, not earlier")
		assert("C05", credit(made("Pool").running) == 0, "Running is updated before Wait can return")
	})
	on("goend", func() {
		assert("C01", closed, "a runner does not end before the queue is closed")
		assert("C02", pend == 0, "a runner runs all jobs that it takes")
	})
	ensures("C01", imp(err == nil, started == size), "as many runners are started as the size of the pool")
	ensures("C04", imp(err == nil, p != nil && cap(p.queue) == 0), "no job is queued where no runner has it")
	ensures("C03", imp(err != nil, started == 0), "no goroutine is left behind if New fails")
	ensures("C05", imp(err == nil, run(p, "Len") == size), "Len is the size that the pool was created with")
}

func PooledWait(p any) {
	target("goroutines/pooled", "(*Pool).Wait")
	var waited = false
	on("wait", p.wg, func() { waited = true })
	on("block", func(kind any) { assert("C03", isKind("wait") || isKind("lock"), "Wait only waits for the jobs") })
	ensures("C03", waited, "Wait returns after all jobs are done")
}

func PooledClose(p any) {
	target("goroutines/pooled", "(*Pool).Close")
	var waited = false
	var closed = false
	on("wait", p.wg, func() { waited = true })
	on("close", p.queue, func() {
		assert("C01,C03", waited, "nothing is closed before all jobs are done")
		closed = true
	})
	on("block", func(kind any) { assert("C03", isKind("wait") || isKind("lock"), "Close only waits for the jobs") })
	immutable("C01,C03", "the queue of the pool is not replaced", p.queue)
	ensures("C03", waited, "Close returns after all jobs are done")
	ensures("C03", closed, "Close ends the runners")
}

func PooledRunning(p any) (n any) {
	target("goroutines/pooled", "(*Pool).Running")
	var seen = -1
	on("load", p.running, func(v any) { seen = v })
	on("store", p.running, func(a any) { assert("C05", false, "Running is not changed by asking for it") })
	on("add", p.running, func(v any) { assert("C05", v == 0, "Running is not changed by asking for it") })
	ensures("C05", n == seen, "Running is the counter")
}

func PooledNonBlocking() (o any) {
	target("goroutines/pooled", "NonBlocking")
	ensures("C04", imp(index(apply(o, anyOf("goroutines/internal/pool", "SubmitOptions")), 1) == nil, index(apply(o, anyOf("goroutines/internal/pool", "SubmitOptions")), 0).NonBlocking), "NonBlocking sets the option")
}
