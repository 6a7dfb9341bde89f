# Edits that keep the behaviour: (id, properties, [(file, old, new)...]). All checks have to stay quiet.
L = 'goroutines/limited/goroutines.go'
P = 'goroutines/pooled/goroutines.go'
G = 'goroutines/goroutines.go'
W = 'prim/wait/wait.go'
C = 'prim/chans/chans.go'
S = 'prim/slices/slice.go'
A = 'prim/atomics/atomics.go'
Q = 'pipelines/stagedpipe/internal/queue/queue.go'
SP = 'pipelines/stagedpipe/stagedpipe.go'
ST = 'pipelines/stagedpipe/stats.go'
R = 'goroutines/internal/register/register.go'
POOLS = 'C01 C02 C03 C04 C05 C06'
WAIT = 'C08 C09 C10 C12 C13 C14 C15 C23'
PIPE = 'C16 C17 C18 C19 C20 C21 C23 C24'
BENIGN = [
 ('limited-helper-run', POOLS, [(L, '''	go func() {
		defer p.wg.Done()
		if !opts.NonBlocking {
			// The slot is held until the job is done, not just until it is started.
			defer func() { <-p.queue }()
		}
		defer p.running.Add(-1)
		runner(ctx)
	}()

	return nil
}
''', '''	go p.run(ctx, runner, !opts.NonBlocking)

	return nil
}

// run runs a job and does the accounting of it.
func (p *Pool) run(ctx context.Context, job goroutines.Job, slot bool) {
	defer func() {
		p.running.Add(-1)
		if slot {
			<-p.queue
		}
		p.wg.Done()
	}()
	job(ctx)
}
''')]),
 ('limited-helper-acquire', POOLS, [(L, '''	if !opts.NonBlocking {
		select {
		case p.queue <- struct{}{}:
		default:
			p.blockEvent(spanner, fcn, now)
			p.queue <- struct{}{}
		}
	}
	p.submitEvent(spanner, fcn, opts.NonBlocking, now)
''', '''	if !opts.NonBlocking {
		p.acquire(spanner, fcn, now)
	}
	p.submitEvent(spanner, fcn, opts.NonBlocking, now)
'''), (L, '''func (p *Pool) submitEvent(''', '''// acquire takes a slot.
func (p *Pool) acquire(spanner span.Span, fcn string, now time.Time) {
	select {
	case p.queue <- struct{}{}:
		return
	default:
	}
	p.blockEvent(spanner, fcn, now)
	p.queue <- struct{}{}
}

func (p *Pool) submitEvent('''), (L, '''	for _, o := range options {
		opts, err = o(opts)
		if err != nil {
			spanner.Error(err)
			return err
		}
	}
''', '''	for i := 0; i < len(options); i++ {
		if opts, err = options[i](opts); err != nil {
			spanner.Error(err)
			return err
		}
	}
''')]),
 ('limited-new-loop', POOLS, [(L, '''	for {
		if err := register.Register(p); err != nil {
			p.name = register.NewName(p.name)
			continue
		}
		break
	}
	return p, nil
''', '''	for err := register.Register(p); err != nil; err = register.Register(p) {
		p.setName(register.NewName(p.GetName()))
	}
	return p, nil
''')]),
 ('limited-order', POOLS, [(L, '''	p.wg.Add(1)
	p.running.Add(1)

	go func() {''', '''	p.running.Add(1)
	p.wg.Add(1)

	go func() {'''), (L, '''	p.wg.Wait()
	close(p.queue)
	register.Unregister(p)
''', '''	p.Wait()
	register.Unregister(p)
	close(p.queue)
''')]),
 ('pooled-flatten', POOLS, [(P, '''	if opts.NonBlocking {
		select {
		case p.queue <- s:
		default:
			go func() {
				defer p.wg.Done()
				defer p.running.Add(-1)
				s.job(ctx)
			}()
		}
		p.submitEvent(spanner, fcn, opts.NonBlocking, now)
		return nil
	}

	select {
	case p.queue <- s:
	default:
		p.blockEvent(spanner, fcn, now)
		p.queue <- s
	}
	p.submitEvent(spanner, fcn, opts.NonBlocking, now)
	return nil
}
''', '''	select {
	case p.queue <- s:
	default:
		if opts.NonBlocking {
			go p.exec(s)
		} else {
			p.blockEvent(spanner, fcn, now)
			p.queue <- s
		}
	}
	p.submitEvent(spanner, fcn, opts.NonBlocking, now)
	return nil
}

// exec executes a submission.
func (p *Pool) exec(s submit) {
	s.job(s.ctx)
	p.running.Add(-1)
	p.wg.Done()
}
'''), (P, '''	for s := range p.queue {
		s.job(s.ctx)
		p.running.Add(-1)
		p.wg.Done()
	}
''', '''	for {
		s, ok := <-p.queue
		if !ok {
			return
		}
		p.exec(s)
	}
''')]),
 ('pooled-new', POOLS, [(P, '''	ch := make(chan submit)
	p := &Pool{name: name, queue: ch, size: size}
	for i := 0; i < size; i++ {
		go p.runner()
	}
''', '''	p := new(Pool)
	p.name = name
	p.queue = make(chan submit)
	p.size = size
	p.start()
'''), (P, '''// Close waits for''', '''// start starts the workers.
func (p *Pool) start() {
	for range p.size {
		go p.runner()
	}
}

// Close waits for''')]),
 ('pooled-submit-type', POOLS, [(P, '''type submit struct {
	ctx context.Context
	job goroutines.Job
}
''', '''type work struct {
	run  goroutines.Job
	with context.Context
}
'''), (P, 's := submit{ctx: ctx, job: runner}', 's := work{runner, ctx}'), (P, 'queue     chan submit', 'queue     chan work'), (P, 'make(chan submit)', 'make(chan work)'), (P, 's.job(s.ctx)', 's.run(s.with)'), (P, 's.job(ctx)', 's.run(ctx)')]),
 ('errors-rw', 'C07', [(G, 'mu     sync.Mutex', 'mu     sync.RWMutex'), (G, '''	e.mu.Lock()
	defer e.mu.Unlock()

	if len(e.errors) == 0 {
		return nil
	}
	return e.errors[0]
''', '''	e.mu.RLock()
	defer e.mu.RUnlock()

	for _, err := range e.errors {
		return err
	}
	return nil
'''), (G, '''	e.mu.Lock()
	defer e.mu.Unlock()

	return append([]error(nil), e.errors...)
''', '''	e.mu.RLock()
	n := make([]error, len(e.errors))
	copy(n, e.errors)
	e.mu.RUnlock()
	return n
''')]),
 ('wait-shared-body', WAIT, [(W, '''	if w.Pool == nil {
		w.wg.Add(1)
		go func() {
			defer w.wg.Done()
			defer w.count.Add(-1)

			if ctx.Err() != nil {
				applyErr(&w.errors, ctx.Err())
				return
			}

			if err := f(ctx); err != nil {
				applyErr(&w.errors, err)
				if w.CancelOnErr != nil {
					w.CancelOnErr()
				}
			}
		}()
		return
	}

	w.wg.Add(1)
	w.Pool.Submit(
		ctx,
		func(ctx context.Context) {
			defer w.wg.Done()
			defer w.count.Add(-1)

			if ctx.Err() != nil {
				applyErr(&w.errors, ctx.Err())
				return
			}

			if err := f(ctx); err != nil {
				applyErr(&w.errors, err)
				if w.CancelOnErr != nil {
					w.CancelOnErr()
				}
			}
		},
		w.PoolOptions...,
	)
}
''', '''	w.wg.Add(1)
	job := func(ctx context.Context) { w.run(ctx, f) }
	if w.Pool == nil {
		go job(ctx)
		return
	}
	w.Pool.Submit(ctx, job, w.PoolOptions...)
}

// run runs f and records its error.
func (w *Group) run(ctx context.Context, f FuncCall) {
	defer w.wg.Done()
	defer w.count.Add(-1)

	if err := ctx.Err(); err != nil {
		applyErr(&w.errors, err)
		return
	}

	err := f(ctx)
	if err == nil {
		return
	}
	applyErr(&w.errors, err)
	if w.CancelOnErr != nil {
		w.CancelOnErr()
	}
}
''')]),
 ('wait-start-span', WAIT, [(W, '''	w.otelOnce.Do(func() {
		spanner := span.Get(ctx)
		if spanner.IsRecording() {
			if w.Name == "" {
				w.Name = "unspecified"
			}
			w.start = time.Now().UTC()

			ctx, w.span = span.New(ctx, fmt.Sprintf("wait(%s)", w.Name))
			w.span.Event(
				fmt.Sprintf("wait(%s) start", w.Name),
				"name", w.Name,
				"start", w.start,
			)
		}
	})
''', '''	w.otelOnce.Do(func() { ctx = w.startSpan(ctx) })
'''), (W, '''// Running returns the number''', '''// startSpan starts the span of the Group if ctx has a span that is recording.
func (w *Group) startSpan(ctx context.Context) context.Context {
	if !span.Get(ctx).IsRecording() {
		return ctx
	}
	if w.Name == "" {
		w.Name = "unspecified"
	}
	w.start = time.Now().UTC()

	var spanCtx context.Context
	spanCtx, w.span = span.New(ctx, fmt.Sprintf("wait(%s)", w.Name))
	w.span.Event(fmt.Sprintf("wait(%s) start", w.Name), "name", w.Name, "start", w.start)
	return spanCtx
}

// Running returns the number''')]),
 ('wait-wait', WAIT, [(W, '''	// OTEL stuff.
	now := time.Now().UTC()
	defer func() {
		end := time.Now().UTC()
		w.span.Event(
			fmt.Sprintf("wait(%s) end", w.Name),
			"name", w.Name,
			"end", end.UTC(),
			"elapsed_ns", end.Sub(now),
		)
		if w.span.IsRecording() {
			w.span.End()
		}
		w.span = span.Span{}
	}()

	w.waitOTELStart()
	defer w.waitOTELEnd(now)

	// Now do the actual waiting.
	w.wg.Wait()

	if w.CancelOnErr != nil {
		w.CancelOnErr()
		w.CancelOnErr = nil
	}
	err := w.errors.Load()
	if err != nil {
		w.span.Error(*err)
		return *err
	}
	return nil
}
''', '''	// OTEL stuff.
	now := time.Now().UTC()
	defer w.endSpan(now)

	w.waitOTELStart()
	defer w.waitOTELEnd(now)

	// Now do the actual waiting.
	w.wg.Wait()

	if cancel := w.CancelOnErr; cancel != nil {
		w.CancelOnErr = nil
		cancel()
	}
	return w.result()
}

// result returns the errors that were recorded.
func (w *Group) result() error {
	if err := w.errors.Load(); err != nil {
		w.span.Error(*err)
		return *err
	}
	return nil
}

// endSpan ends the span.
func (w *Group) endSpan(started time.Time) {
	end := time.Now().UTC()
	w.span.Event(
		fmt.Sprintf("wait(%s) end", w.Name),
		"name", w.Name,
		"end", end.UTC(),
		"elapsed_ns", end.Sub(started),
	)
	if w.span.IsRecording() {
		w.span.End()
	}
	w.span = span.Span{}
}
''')]),
 ('wait-applyerr', WAIT, [(W, '''	for {
		existing := ptr.Load()
		if existing == nil {
			if ptr.CompareAndSwap(nil, &err) {
				return
			}
		} else {
			switch err {
			case context.Canceled, context.DeadlineExceeded:
				return
			}
			joined := errors.Join(*existing, err)
			if ptr.CompareAndSwap(existing, &joined) {
				return
			}
		}
	}
}
''', '''	isCtxErr := err == context.Canceled || err == context.DeadlineExceeded
	for {
		existing := ptr.Load()
		n := err
		if existing != nil {
			if isCtxErr {
				return
			}
			n = errors.Join(*existing, err)
		}
		if ptr.CompareAndSwap(existing, &n) {
			return
		}
	}
}
''')]),
 ('chans-next', 'C13 C14 C15 C23', [(C, '''		var v T
		var ok bool
		select {
		case <-ctx.Done():
			continue
		case v, ok = <-input:
		}
		if !ok {
			break
		}

		wg.Go(
			ctx,
			func(ctx context.Context) error {
				return access(
					ctx,
					v,
				)
			},
		)
	}
''', '''		v, ok, err := next(ctx, input)
		if err != nil {
			ctxErr = err
			break
		}
		if !ok {
			break
		}

		wg.Go(ctx, func(ctx context.Context) error { return access(ctx, v) })
	}
'''), (C, '''// StreamResult is a result''', '''// next gets the next value.
func next[T any](ctx context.Context, input <-chan T) (v T, ok bool, err error) {
	select {
	case <-ctx.Done():
		return v, false, ctx.Err()
	case v, ok = <-input:
		return v, ok, nil
	}
}

// StreamResult is a result''')]),
 ('chans-loop', 'C13 C14 C15 C23', [(C, '''	var ctxErr error
	for {
		// Do not take a value off the input that is not going to be processed.
		if ctxErr = ctx.Err(); ctxErr != nil {
			break
		}

		var v T
		var ok bool
		select {
		case <-ctx.Done():
			continue
		case v, ok = <-input:
		}
		if !ok {
			break
		}

		wg.Go(
			ctx,
			func(ctx context.Context) error {
				return access(
					ctx,
					v,
				)
			},
		)
	}
	if err := wg.Wait(ctx); err != nil {
		spanner.Error(err)
		return err
	}
	return ctxErr
}
''', '''	ctxErr := feed(ctx, &wg, input, access)
	if err := wg.Wait(ctx); err != nil {
		spanner.Error(err)
		return err
	}
	return ctxErr
}

// feed starts access for the values of input.
func feed[T any](ctx context.Context, wg *wait.Group, input <-chan T, access Accessor[T]) error {
	for ctx.Err() == nil {
		select {
		case <-ctx.Done():
		case v, ok := <-input:
			if !ok {
				return nil
			}
			wg.Go(ctx, func(ctx context.Context) error { return access(ctx, v) })
		}
	}
	return ctx.Err()
}
'''), (C, '''		r, err := mod(ctx, v)
		if err != nil {
			select {
			case <-ctx.Done():
			case output <- StreamResult[R]{Err: err}:
			}
			return err
		}
		output <- StreamResult[R]{Value: r}
		return nil
	}
''', '''		r, err := mod(ctx, v)
		if err == nil {
			output <- StreamResult[R]{Value: r}
			return nil
		}
		select {
		case output <- StreamResult[R]{Err: err}:
		case <-ctx.Done():
		}
		return err
	}
''')]),
 ('slices-range', 'C12 C13 C23', [(S, '''	for i := 0; i < len(s); i++ {
		i := i

		if ctxErr = ctx.Err(); ctxErr != nil {
			break
		}

		wg.Go(
			ctx,
			func(ctx context.Context) error {
				return access(ctx, i, s[i], func(v T) { modifier(s, i, v) })
			},
		)
	}
''', '''	for i := range s {
		ctxErr = ctx.Err()
		if ctxErr != nil {
			break
		}
		modify := func(v T) { s[i] = v }
		wg.Go(ctx, func(ctx context.Context) error { return access(ctx, i, s[i], modify) })
	}
''')]),
 ('slices-options', 'C12 C13 C23', [(S, '''	if opts.pool == nil {
		var err error
		opts.pool, err = limited.New("", runtime.NumCPU())
		if err != nil {
			spanner.Error(err)
			return err
		}
		defer opts.pool.Close()
	}

	var cancel = func() {}
	if opts.stopOnErr {
		ctx, cancel = context.WithCancel(ctx)
	}
	wg := wait.Group{Pool: opts.pool, PoolOptions: opts.poolOptions, CancelOnErr: cancel}
''', '''	pool := opts.pool
	if pool == nil {
		own, err := limited.New("", runtime.NumCPU())
		if err != nil {
			spanner.Error(err)
			return err
		}
		defer own.Close()
		pool = own
	}

	wg := wait.Group{Pool: pool, PoolOptions: opts.poolOptions}
	if opts.stopOnErr {
		ctx, wg.CancelOnErr = context.WithCancel(ctx)
	}
''')]),
 ('atomics-update', 'C11', [(A, '''	v := r.v.Load()
	if v == nil {
		v = new(T)
	}
	n, err := lr(*v)
	if err != nil {
		return err
	}
	r.v.Store(&n)
	return nil
''', '''	n, err := lr(r.Load())
	if err == nil {
		r.v.Store(&n)
	}
	return err
'''), (A, '''	v := r.v.Load()
	if v == nil {
		var zero T
		return zero
	}
	return *v
}
''', '''	if v := r.v.Load(); v != nil {
		return *v
	}
	return *new(T)
}
''')]),
 ('queue-backoff', 'C22', [(Q, '''		s += 100 * time.Nanosecond
		if s > 10*time.Millisecond {
			s = 10 * time.Millisecond
		}
		time.Sleep(s)
''', '''		s = min(s+100*time.Nanosecond, 10*time.Millisecond)
		time.Sleep(s)
'''), (Q, '''		if rt.next.CompareAndSwap(nil, n) {
			s.tail.Store(n)
			return
		} else {
			continue
		}
''', '''		if !rt.next.CompareAndSwap(nil, n) {
			continue
		}
		s.tail.Store(n)
		return
''')]),
 ('stats-once', 'C21 C16 C18', [(ST, '''	for {
		c := (*current).Load()
		if v >= c {
			return
		}
		if (*current).CompareAndSwap(c, v) {
			return
		}
	}
''', '''	for c := current.Load(); v < c; c = current.Load() {
		if current.CompareAndSwap(c, v) {
			break
		}
	}
'''), (ST, '''	for {
		c := (*current).Load()
		if v <= c {
			return
		}
		if (*current).CompareAndSwap(c, v) {
			return
		}
	}
''', '''	c := current.Load()
	for v > c && !current.CompareAndSwap(c, v) {
		c = current.Load()
	}
''')]),
 ('pipe-entry-stats', PIPE, [(SP, '''	p.stats.running.Add(1)
	setMin(&p.stats.ingestStats.min, int64(queuedTime))
	setMax(&p.stats.ingestStats.max, int64(queuedTime))
	p.stats.ingestStats.avgTotal.Add(int64(queuedTime))

''', '''	p.calcEntryStats(queuedTime)

'''), (SP, '''// calcExitStats calculates''', '''// calcEntryStats records that a Request entered after waiting for d.
func (p *pipeline[T]) calcEntryStats(d time.Duration) {
	s := p.stats
	s.running.Add(1)

	in := s.ingestStats
	in.avgTotal.Add(int64(d))
	setMin(&in.min, int64(d))
	setMax(&in.max, int64(d))
}

// calcExitStats calculates'''), (SP, '''	p.stats.running.Add(-1)
	p.stats.completed.Add(1)

	setMin(&p.stats.min, int64(runTime))
	setMax(&p.stats.max, int64(runTime))
	p.stats.avgTotal.Add(int64(runTime))
''', '''	setMin(&p.stats.min, int64(runTime))
	setMax(&p.stats.max, int64(runTime))
	p.stats.avgTotal.Add(int64(runTime))

	p.stats.completed.Add(1)
	p.stats.running.Add(-1)
''')]),
 ('pipe-stage-loop', PIPE, [(SP, '''	stage, name := p.sm.Start, startName(p.sm)
	for {
		r = p.execStage(r, stage, name)
		if r.Err != nil {
			return r
		}
		stage = r.Next
		r.Next = nil

		if stage == nil {
			return r
		}
		name = methodName(stage)
	}
}
''', '''	r = p.execStage(r, p.sm.Start, startName(p.sm))
	for r.Err == nil && r.Next != nil {
		stage := r.Next
		r.Next = nil
		r = p.execStage(r, stage, methodName(stage))
	}
	return r
}
''')]),
 ('pipe-preprocess', PIPE, [(SP, '''	for _, pp := range p.preProcessors {
		r = pp(r)
		if r.Err != nil {
			return r
		}
	}
	return stage(r)
}
''', '''	if r = p.preProcess(r); r.Err != nil {
		return r
	}
	return stage(r)
}

// preProcess runs the PreProcessors.
func (p *pipeline[T]) preProcess(r Request[T]) Request[T] {
	for i := 0; i < len(p.preProcessors) && r.Err == nil; i++ {
		r = p.preProcessors[i](r)
	}
	return r
}
'''), (SP, '''	if r.Ctx.Err() != nil {
		r.Err = r.Ctx.Err()
		return r
	}
''', '''	if err := r.Ctx.Err(); err != nil {
		r.Err = err
		return r
	}
''')]),
 ('pipe-new-inline', PIPE, [(SP, '''		args := pipelineArgs[T]{
			name:          name,
			id:            i,
			in:            in,
			out:           out,
			num:           num,
			sm:            sm,
			subStages:     p.subStages,
			preProcessors: p.preProcessors,
			stats:         stats,
			delayWarning:  p.delayWarning,
			ss:            p.ss,
		}

		_, err := newPipeline(args)
		if err != nil {
			close(in)
			return nil, err
		}
''', '''		if _, err := newPipeline(p.args(i, num)); err != nil {
			close(in)
			return nil, err
		}
'''), (SP, '''// Close closes the ingestion''', '''// args returns the arguments for the pipeline number i.
func (p *Pipelines[T]) args(i, num int) pipelineArgs[T] {
	return pipelineArgs[T]{
		name: p.name, id: i, in: p.in, out: p.out, num: num, sm: p.sm, subStages: p.subStages,
		preProcessors: p.preProcessors, stats: p.stats, delayWarning: p.delayWarning, ss: p.ss,
	}
}

// Close closes the ingestion''')]),
 ('pipe-new-options', PIPE, [(SP, '''	for _, o := range options {
		if err := o(p); err != nil {
			return nil, err
		}
	}

	pipelines := make([]*pipeline[T], 0, num)
	for i := 0; i < num; i++ {
''', '''	if err := p.apply(options); err != nil {
		return nil, err
	}

	pipelines := make([]*pipeline[T], 0, num)
	for i := range num {
'''), (SP, '''// Close closes the ingestion''', '''// apply applies the options.
func (p *Pipelines[T]) apply(options []Option[T]) error {
	for i := range options {
		if err := options[i](p); err != nil {
			return err
		}
	}
	return nil
}

// Close closes the ingestion'''), (SP, '''	for i := 0; i < p.concurrency; i++ {
		go p.runner()
	}
''', '''	for n := p.concurrency; n > 0; n-- {
		go p.runner()
	}
''')]),
 ('pipe-runner', PIPE, [(SP, '''		if p.delayWarning != 0 {
			for {
				tick.Reset(p.delayWarning)
				select {
				case p.out <- r:
				case <-tick.C:
					log.Printf("pipeline(%s) is having output delays exceeding %v", id, p.delayWarning)
					continue
				}
				break
			}
		} else {
			p.out <- r
		}
	}
}
''', '''		if tick == nil {
			p.out <- r
			continue
		}
		p.sendOut(id, tick, r)
	}
}

// sendOut sends r and logs a warning if that takes too long.
func (p *pipeline[T]) sendOut(id string, tick *time.Ticker, r Request[T]) {
	for {
		tick.Reset(p.delayWarning)
		select {
		case p.out <- r:
			return
		case <-tick.C:
			log.Printf("pipeline(%s) is having output delays exceeding %v", id, p.delayWarning)
		}
	}
}
'''), (SP, '''	for r := range p.in {
		r = r.otelStart()
		r = p.processReq(r)
		p.calcExitStats(r)
''', '''	for req := range p.in {
		r := p.processReq(req.otelStart())
		p.calcExitStats(r)
''')]),
 ('group-forward-merge', PIPE, [(SP, '''		go func() {
			defer r.ordered.Close()
			for req := range r.out {
				r.wg.Done()
				p.wg.Done()
				req.otelEnd()
				if err := r.ordered.Add(req); err != nil {
					panic("bug: ordered demuxer returned an error")
				}
			}
		}()
	} else { // No output order is required.
		go func() {
			defer close(r.user)
			for req := range r.out {
				r.wg.Done()
				p.wg.Done()
				req.otelEnd()
				r.user <- req
			}
		}()
	}

	return &r
}
''', '''	}
	go r.forward()

	return &r
}

// forward forwards the output to the user.
func (r *RequestGroup[T]) forward() {
	for req := range r.out {
		r.wg.Done()
		r.p.wg.Done()
		req.otelEnd()
		if r.ordered == nil {
			r.user <- req
			continue
		}
		if err := r.ordered.Add(req); err != nil {
			panic("bug: ordered demuxer returned an error")
		}
	}
	if r.ordered != nil {
		r.ordered.Close()
		return
	}
	close(r.user)
}
''')]),
 ('group-submit-helpers', PIPE, [(SP, '''	r.startOnce.Do(func() {
		if r.Name == "" {
			gName = "unnamed"
		}

		req.Ctx, r.span = span.New(req.Ctx, fmt.Sprintf("stagedpipe.RequestGroup(%s)", gName))

		// Record the time the first request was submitted.
		t := time.Now()
		r.started.CompareAndSwap(nil, &t)
		// Start our OTEL span.
		r.otelStart()
	})
''', '''	r.startOnce.Do(func() { req.Ctx, gName = r.start(req.Ctx) })
'''), (SP, '''	case <-req.Ctx.Done():
		if r.ordered != nil {
			// The next Request takes our place, as all output after a gap would be held back.
			r.itemNum.Add(^uint64(0))
		}
		if spanner.IsRecording() {
			spanner.End()
		}
		r.p.wg.Done()
		r.wg.Done()
		return req.Ctx.Err()
''', '''	case <-req.Ctx.Done():
		r.drop(spanner)
		return req.Ctx.Err()
'''), (SP, '''// Out returns a channel to''', '''// start starts the span of the RequestGroup.
func (r *RequestGroup[T]) start(ctx context.Context) (context.Context, string) {
	name := r.Name
	if name == "" {
		name = "unnamed"
	}
	ctx, r.span = span.New(ctx, fmt.Sprintf("stagedpipe.RequestGroup(%s)", name))
	t := time.Now()
	r.started.CompareAndSwap(nil, &t)
	r.otelStart()
	return ctx, name
}

// drop takes back what was recorded for a Request that was not sent.
func (r *RequestGroup[T]) drop(spanner span.Span) {
	if r.ordered != nil {
		r.itemNum.Add(^uint64(0))
	}
	if spanner.IsRecording() {
		spanner.End()
	}
	r.wg.Done()
	r.p.wg.Done()
}

// Out returns a channel to''')]),
 ('group-submit-reorder', PIPE, [(SP, '''	req.groupNum = r.id
	req.itemNum = r.itemNum.Add(1) - 1 // This must start at 0.
	req.queueTime = time.Now()

	// This let's the Pipelines object know it is receiving a new Request to process.
	r.p.wg.Add(1)
	// This tracks the request in the RequestGroup.
	r.wg.Add(1)

	// Create a child context with a new child span for the request.
	ctx, spanner := span.New(req.Ctx, fmt.Sprintf("stagedpipe.RequestGroup(%s).Request(%d)", gName, req.itemNum))
	req.Ctx = ctx
	req.span = spanner

	select {
	case <-req.Ctx.Done():
		if r.ordered != nil {
			// The next Request takes our place, as all output after a gap would be held back.
			r.itemNum.Add(^uint64(0))
		}
		if spanner.IsRecording() {
			spanner.End()
		}
		r.p.wg.Done()
		r.wg.Done()
		return req.Ctx.Err()
	case r.p.in <- req:
	}

	return nil
}
''', '''	num := r.itemNum.Add(1) - 1 // This must start at 0.
	req.queueTime = time.Now()
	req.itemNum = num
	req.groupNum = r.id

	// Create a child context with a new child span for the request.
	req.Ctx, req.span = span.New(req.Ctx, fmt.Sprintf("stagedpipe.RequestGroup(%s).Request(%d)", gName, num))

	r.wg.Add(1)
	r.p.wg.Add(1)

	select {
	case r.p.in <- req:
		return nil
	case <-req.Ctx.Done():
	}

	if r.ordered != nil {
		// The next Request takes our place, as all output after a gap would be held back.
		r.itemNum.Add(^uint64(0))
	}
	if req.span.IsRecording() {
		req.span.End()
	}
	r.p.wg.Done()
	r.wg.Done()
	return req.Ctx.Err()
}
''')]),
 ('group-close', PIPE, [(SP, '''	r.wg.Wait()

	r.otelEnd()

	r.p.demuxMu.Lock()
	defer r.p.demuxMu.Unlock()
	r.p.demux.RemoveReceiver(r.id) // This closes the input channel into the Pipelines object
}
''', '''	r.wg.Wait()
	r.p.remove(r.id)
	r.otelEnd()
}

// remove stops the output to a RequestGroup.
func (p *Pipelines[T]) remove(id uint64) {
	p.demuxMu.Lock()
	p.demux.RemoveReceiver(id)
	p.demuxMu.Unlock()
}
'''), (SP, '''	close(p.in)

	go func() {
		p.wg.Wait()
		close(p.out)
		p.sm.Close()
	}()
''', '''	close(p.in)
	go p.finish()
}

// finish closes the rest after all the Requests are done.
func (p *Pipelines[T]) finish() {
	p.wg.Wait()
	close(p.out)
	p.sm.Close()
''')]),
 ('group-new', PIPE, [(SP, '''	id := p.requestGroupNum.Add(1)
	r := RequestGroup[T]{
		id:         id,
		out:        make(chan Request[T], 1),
		user:       make(chan Request[T], 1),
		p:          p,
		submitting: make(chan struct{}, 1),
		startOnce:  &sync.Once{},
	}
	p.demuxMu.Lock()
	p.demux.AddReceiver(id, r.out)
	p.demuxMu.Unlock()
''', '''	r := newGroup(p, p.requestGroupNum.Add(1))
	p.add(r)
'''), (SP, '''	return &r
}

// Stats returns''', '''	return r
}

func newGroup[T any](p *Pipelines[T], id uint64) *RequestGroup[T] {
	r := &RequestGroup[T]{
		id:         id,
		p:          p,
		startOnce:  new(sync.Once),
		submitting: make(chan struct{}, 1),
	}
	r.out = make(chan Request[T], 1)
	r.user = make(chan Request[T], 1)
	return r
}

func (p *Pipelines[T]) add(r *RequestGroup[T]) {
	p.demuxMu.Lock()
	defer p.demuxMu.Unlock()
	p.demux.AddReceiver(r.id, r.out)
}

// Stats returns''')]),
 ('span-payload', PIPE, [(SP, '''	j, err := json.Marshal(r.Data)
	if err != nil {
		j = []byte(fmt.Sprintf("Error marshaling data: %s", err.Error()))
	}
	r.span.Event(
		"processing end",
		"data", *(*string)(unsafe.Pointer(&j)),
		"elapsed_ns", time.Since(r.queueTime),
	)
	r.span.End()
''', '''	r.span.Event("processing end", "data", r.payload(), "elapsed_ns", time.Since(r.queueTime))
	r.span.End()
'''), (SP, '''	j, err := json.Marshal(r.Data)
	if err != nil {
		j = []byte(fmt.Sprintf("Error marshaling data: %s", err.Error()))
	}

	r.span.Event(
		"processing start",
		"data", *(*string)(unsafe.Pointer(&j)), // prevent a copy of the data.
''', '''	r.span.Event(
		"processing start",
		"data", r.payload(),
'''), (SP, '''	"time"
	"unsafe"
''', '''	"time"
'''), (SP, '''/*
Event records''', '''// payload returns the Data as JSON.
func (r Request[T]) payload() string {
	j, err := json.Marshal(r.Data)
	if err != nil {
		return fmt.Sprintf("Error marshaling data: %s", err.Error())
	}
	return string(j)
}

/*
Event records''')]),
 ('seen-contains', PIPE, [(SP, '''	for _, st := range *s {
		if st == stage {
			return true
		}
	}

	n := append(*s, stage)
	*s = n
	return false
}
''', '''	if slices.Contains(*s, stage) {
		return true
	}
	*s = append(*s, stage)
	return false
}
'''), (SP, '''	"runtime"
''', '''	"runtime"
	"slices"
'''), (SP, '''	n := (*s)[:0]
	s = &n
	return s
}
''', '''	n := (*s)[:0]
	return &n
}
''')]),
 ('seen-index', PIPE, [(SP, '''	for _, st := range *s {
		if st == stage {
			return true
		}
	}

	n := append(*s, stage)
	*s = n
	return false
}
''', '''	if s.has(stage) {
		return true
	}
	*s = append(*s, stage)
	return false
}

func (s *seenStages) has(stage string) bool {
	l := *s
	for i := len(l) - 1; i >= 0; i-- {
		if l[i] == stage {
			return true
		}
	}
	return false
}
'''), (SP, '''		seen := seenStagesPool.Get().(*seenStages).reset()
		r.seenStages = seen
		defer func() {
			seenStagesPool.Put(seen)
			out.seenStages = nil
		}()
''', '''		r.seenStages = seenStagesPool.Get().(*seenStages).reset()
		defer func(seen *seenStages) {
			out.seenStages = nil
			seenStagesPool.Put(seen)
		}(r.seenStages)
''')]),
]
BENIGN += [
 ('wait-applyerr2', WAIT, [(W, '''		existing := ptr.Load()
		if existing == nil {
			if ptr.CompareAndSwap(nil, &err) {
				return
			}
		} else {
			switch err {
			case context.Canceled, context.DeadlineExceeded:
				return
			}
			joined := errors.Join(*existing, err)
			if ptr.CompareAndSwap(existing, &joined) {
				return
			}
		}
	}
}
''', '''		existing := ptr.Load()
		next := err
		if existing != nil {
			if isCancel(err) {
				return
			}
			next = errors.Join(*existing, err)
		}
		if ptr.CompareAndSwap(existing, &next) {
			return
		}
	}
}

func isCancel(err error) bool {
	return err == context.Canceled || err == context.DeadlineExceeded
}
''')]),
 ('wait-done-once', WAIT, [(W, '''			defer w.wg.Done()
			defer w.count.Add(-1)

			if ctx.Err() != nil {
				applyErr(&w.errors, ctx.Err())
				return
			}

			if err := f(ctx); err != nil {
				applyErr(&w.errors, err)
				if w.CancelOnErr != nil {
					w.CancelOnErr()
				}
			}
''', '''			defer func() {
				w.count.Add(-1)
				w.wg.Done()
			}()

			err := ctx.Err()
			if err != nil {
				applyErr(&w.errors, err)
				return
			}

			err = f(ctx)
			if err == nil {
				return
			}
			applyErr(&w.errors, err)
			if cancel := w.CancelOnErr; cancel != nil {
				cancel()
			}
'''), (W, '''	w.count.Add(1)
	w.total.Add(1)

	if w.Pool == nil {
		w.wg.Add(1)
''', '''	w.wg.Add(1)
	w.total.Add(1)
	w.count.Add(1)

	if w.Pool == nil {
'''), (W, '''	w.wg.Add(1)
	w.Pool.Submit(
''', '''	w.Pool.Submit(
''')]),
 ('wait-end', WAIT, [(W, '''	// Now do the actual waiting.
	w.wg.Wait()

	if w.CancelOnErr != nil {
		w.CancelOnErr()
		w.CancelOnErr = nil
	}
	err := w.errors.Load()
	if err != nil {
		w.span.Error(*err)
		return *err
	}
	return nil
}
''', '''	// Now do the actual waiting.
	w.wg.Wait()
	w.cancel()

	if err := w.err(); err != nil {
		w.span.Error(err)
		return err
	}
	return nil
}

// cancel calls CancelOnErr.
func (w *Group) cancel() {
	if w.CancelOnErr == nil {
		return
	}
	w.CancelOnErr()
	w.CancelOnErr = nil
}

// err is the error that was recorded.
func (w *Group) err() error {
	if p := w.errors.Load(); p != nil {
		return *p
	}
	return nil
}
''')]),
 ('chans-select', 'C12 C13 C14 C15 C23', [(C, '''	for {
		// Do not take a value off the input that is not going to be processed.
		if ctxErr = ctx.Err(); ctxErr != nil {
			break
		}

		var v T
		var ok bool
		select {
		case <-ctx.Done():
			continue
		case v, ok = <-input:
		}
		if !ok {
			break
		}

		wg.Go(
			ctx,
			func(ctx context.Context) error {
				return access(
					ctx,
					v,
				)
			},
		)
	}
''', '''loop:
	for ctxErr = ctx.Err(); ctxErr == nil; ctxErr = ctx.Err() {
		select {
		case <-ctx.Done():
		case v, ok := <-input:
			if !ok {
				break loop
			}
			wg.Go(ctx, func(ctx context.Context) error { return access(ctx, v) })
		}
	}
''')]),
 ('chans-modify', 'C13 C14 C15 C23', [(C, '''	if input == nil {
		err := fmt.Errorf("input channel is nil")
		spanner.Error(err)
		return err
	}
	if output == nil {
		err := fmt.Errorf("output channel is nil")
		spanner.Error(err)
		return err
	}
''', '''	var err error
	switch {
	case input == nil:
		err = fmt.Errorf("input channel is nil")
	case output == nil:
		err = fmt.Errorf("output channel is nil")
	}
	if err != nil {
		spanner.Error(err)
		return err
	}
'''), (C, '''		r, err := mod(ctx, v)
		if err != nil {
			select {
			case <-ctx.Done():
			case output <- StreamResult[R]{Err: err}:
			}
			return err
		}
		output <- StreamResult[R]{Value: r}
		return nil
	}
''', '''		r, err := mod(ctx, v)
		if err == nil {
			output <- StreamResult[R]{Value: r}
			return nil
		}
		select {
		case output <- StreamResult[R]{Err: err}:
		case <-ctx.Done():
		}
		return err
	}
''')]),
 ('chans-pool', 'C13 C14 C15 C23', [(C, '''	if opts.pool == nil {
		var err error
		opts.pool, err = limited.New("", runtime.NumCPU())
		if err != nil {
			spanner.Error(err)
			return err
		}
		defer opts.pool.Close()
	}

	var cancel = func() {}
	if opts.stopOnErr {
		ctx, cancel = context.WithCancel(ctx)
	}
	wg := wait.Group{Pool: opts.pool, PoolOptions: opts.poolOptions, CancelOnErr: cancel}
''', '''	if opts.pool == nil {
		p, err := limited.New("", runtime.NumCPU())
		if err != nil {
			spanner.Error(err)
			return err
		}
		defer p.Close()
		opts.pool = p
	}

	wg := wait.Group{Pool: opts.pool, PoolOptions: opts.poolOptions, CancelOnErr: func() {}}
	if opts.stopOnErr {
		var cancel context.CancelFunc
		ctx, cancel = context.WithCancel(ctx)
		wg.CancelOnErr = cancel
	}
''')]),
 ('slices-loop', 'C12 C13 C23', [(S, '''	for i := 0; i < len(s); i++ {
		i := i

		if ctxErr = ctx.Err(); ctxErr != nil {
			break
		}

		wg.Go(
			ctx,
			func(ctx context.Context) error {
				return access(ctx, i, s[i], func(v T) { modifier(s, i, v) })
			},
		)
	}
''', '''	for i := range len(s) {
		ctxErr = ctx.Err()
		if ctxErr != nil {
			break
		}

		set := func(v T) { modifier(s, i, v) }
		run := func(ctx context.Context) error { return access(ctx, i, s[i], set) }
		wg.Go(ctx, run)
	}
''')]),
 ('atomics-load', 'C11', [(A, '''	v := r.v.Load()
	if v == nil {
		v = new(T)
	}
	n, err := lr(*v)
	if err != nil {
		return err
	}
	r.v.Store(&n)
	return nil
''', '''	n, err := lr(r.Load())
	if err == nil {
		r.v.Store(&n)
	}
	return err
'''), (A, '''	v := r.v.Load()
	if v == nil {
		var zero T
		return zero
	}
	return *v
''', '''	if v := r.v.Load(); v != nil {
		return *v
	}
	return *new(T)
'''), (A, '''	defer r.mu.Unlock()
	r.v.Store(&v)
''', '''	r.v.Swap(&v)
	r.mu.Unlock()
''')]),
 ('queue-pushpop', 'C22', [(Q, '''		h := s.head.Load()
		n := h.next.Load()
		if n != nil {
			if s.head.CompareAndSwap(h, n) {
				return n.val, true
			} else {
				continue
			}
		} else {
			var v A
			return v, false
		}
''', '''		h := s.head.Load()
		n := h.next.Load()
		if n == nil {
			var v A
			return v, false
		}
		if s.head.CompareAndSwap(h, n) {
			return n.val, true
		}
'''), (Q, '''	for {
		rt := s.tail.Load()

		if rt.next.CompareAndSwap(nil, n) {
			s.tail.Store(n)
			return
		} else {
			continue
		}
	}
''', '''	for !s.tail.Load().next.CompareAndSwap(nil, n) {
	}
	s.tail.Store(n)
''')]),
 ('queue-new', 'C22', [(Q, '''	var s simple[A]
	s.head.Store(&s.dummy)
	s.tail.Store(s.head.Load())
	return &s
''', '''	s := &simple[A]{}
	s.head.Store(&s.dummy)
	s.tail.Store(&s.dummy)
	return s
'''), (Q, '''		if closed {
			return a, ok
		}

		s += 100 * time.Nanosecond
		if s > 10*time.Millisecond {
			s = 10 * time.Millisecond
		}
		time.Sleep(s)
''', '''		if closed {
			var zero A
			return zero, false
		}

		s = min(s+100*time.Nanosecond, 10*time.Millisecond)
		time.Sleep(s)
''')]),
 ('errors-helper', 'C07', [(G, '''	e.mu.Lock()
	defer e.mu.Unlock()

	return append([]error(nil), e.errors...)
''', '''	e.mu.Lock()
	defer e.mu.Unlock()

	if len(e.errors) == 0 {
		return nil
	}
	out := make([]error, len(e.errors))
	copy(out, e.errors)
	return out
'''), (G, '''	if len(e.errors) == 0 {
		return nil
	}
	return e.errors[0]
''', '''	var err error
	if len(e.errors) > 0 {
		err = e.errors[0]
	}
	return err
''')]),
 ('errors-unlock', 'C07', [(G, '''	e.mu.Lock()
	defer e.mu.Unlock()

	e.errors = append(e.errors, err)
''', '''	e.mu.Lock()
	all := append(e.errors, err)
	e.errors = all
	e.mu.Unlock()
'''), (G, '''	e.mu.Lock()
	defer e.mu.Unlock()

	return append([]error(nil), e.errors...)
''', '''	e.mu.Lock()
	defer e.mu.Unlock()

	var all []error
	for _, err := range e.errors {
		all = append(all, err)
	}
	return all
''')]),
 ('stats-loops', 'C21 C16 C18', [(ST, '''	for {
		c := (*current).Load()
		if v >= c {
			return
		}
		if (*current).CompareAndSwap(c, v) {
			return
		}
	}
''', '''	for c := current.Load(); v < c; c = current.Load() {
		if current.CompareAndSwap(c, v) {
			return
		}
	}
'''), (ST, '''	for {
		c := (*current).Load()
		if v <= c {
			return
		}
		if (*current).CompareAndSwap(c, v) {
			return
		}
	}
''', '''	c := current.Load()
	for v > c && !current.CompareAndSwap(c, v) {
		c = current.Load()
	}
''')]),
 ('stats-avg', 'C21 C16 C18', [(ST, '''	if stats.Completed != 0 {
		stats.Avg = time.Duration(s.avgTotal.Load() / stats.Completed)
	}
''', '''	stats.Avg = avg(&s.avgTotal, stats.Completed)
'''), (ST, '''	stats := IngestStats{
		Min: minTime(&i.min),
		Max: time.Duration(i.max.Load()),
	}
	if completed != 0 {
		stats.Avg = time.Duration(i.avgTotal.Load() / completed)
	}
	return stats
}
''', '''	return IngestStats{
		Min: minTime(&i.min),
		Avg: avg(&i.avgTotal, completed),
		Max: time.Duration(i.max.Load()),
	}
}

// avg is the average of n times that have a total.
func avg(total *atomic.Int64, n int64) time.Duration {
	if n == 0 {
		return 0
	}
	return time.Duration(total.Load() / n)
}
''')]),
 ('limited-submit', POOLS, [(L, '''	if !opts.NonBlocking {
		select {
		case p.queue <- struct{}{}:
		default:
			p.blockEvent(spanner, fcn, now)
			p.queue <- struct{}{}
		}
	}
	p.submitEvent(spanner, fcn, opts.NonBlocking, now)

	p.wg.Add(1)
	p.running.Add(1)

	go func() {
		defer p.wg.Done()
		if !opts.NonBlocking {
			// The slot is held until the job is done, not just until it is started.
			defer func() { <-p.queue }()
		}
		defer p.running.Add(-1)
		runner(ctx)
	}()

	return nil
}
''', '''	var slot chan struct{}
	if !opts.NonBlocking {
		slot = p.queue
		p.acquire(slot, func() { p.blockEvent(spanner, fcn, now) })
	}
	p.submitEvent(spanner, fcn, opts.NonBlocking, now)

	p.running.Add(1)
	p.wg.Add(1)
	go p.run(ctx, runner, slot)

	return nil
}

// acquire gets a slot. If there is none, blocked is called before waiting for one.
func (p *Pool) acquire(slot chan struct{}, blocked func()) {
	select {
	case slot <- struct{}{}:
		return
	default:
	}
	blocked()
	slot <- struct{}{}
}

// run runs a job and gives back its slot, if it has one.
func (p *Pool) run(ctx context.Context, runner goroutines.Job, slot chan struct{}) {
	defer func() {
		p.running.Add(-1)
		if slot != nil {
			<-slot
		}
		p.wg.Done()
	}()
	runner(ctx)
}
''')]),

 ('register-cut', POOLS, [(R, '''	sp := strings.Split(name, "-")
	n, err := strconv.Atoi(sp[1])
	if err != nil {
		panic(fmt.Sprintf("register is broken, name %s is invalid", name))
	}

	n++
	return fmt.Sprintf("%s-%d", sp[0], n)
''', '''	base, num, ok := strings.Cut(name, "-")
	if !ok {
		panic(fmt.Sprintf("register is broken, name %s is invalid", name))
	}
	n, err := strconv.Atoi(num)
	if err != nil {
		panic(fmt.Sprintf("register is broken, name %s is invalid", name))
	}
	return base + "-" + strconv.Itoa(n+1)
''')]),
 ('register-lastindex', POOLS, [(R, '''	sp := strings.Split(name, "-")
	n, err := strconv.Atoi(sp[1])
	if err != nil {
		panic(fmt.Sprintf("register is broken, name %s is invalid", name))
	}

	n++
	return fmt.Sprintf("%s-%d", sp[0], n)
''', '''	at := strings.Index(name, "-")
	n, err := strconv.Atoi(name[at+1:])
	if err != nil {
		panic(fmt.Sprintf("register is broken, name %s is invalid", name))
	}
	return fmt.Sprintf("%s-%d", name[:at], n+1)
''')]),
 ('register-splitn', POOLS, [(R, '''	sp := strings.Split(name, "-")
	n, err''', '''	sp := strings.SplitN(name, "-", 2)
	n, err'''), (R, '''	n++
	return fmt.Sprintf("%s-%d", sp[0], n)
''', '''	return strings.Join([]string{sp[0], strconv.Itoa(n + 1)}, "-")
''')]),
 ('register-new-loop', POOLS, [(L, '''	for {
		if err := register.Register(p); err != nil {
			p.name = register.NewName(p.name)
			continue
		}
		break
	}
	return p, nil
''', '''	for register.Register(p) != nil {
		p.name = register.NewName(p.name)
	}
	return p, nil
'''), (P, '''	for {
		if err := register.Register(p); err != nil {
			p.name = register.NewName(p.name)
			continue
		}
		break
	}
	return p, nil
}
''', '''	p.register()
	return p, nil
}

// register registers the pool under the first name that is free.
func (p *Pool) register() {
	for {
		err := register.Register(p)
		if err == nil {
			return
		}
		p.name = register.NewName(p.name)
	}
}
''')]),
 ('register-nested', POOLS, [(R, '''	mu.Lock()
	defer mu.Unlock()

	name := pool.GetName()
	if name == "" {
		return nil
	}

	if _, ok := registry[name]; ok {
		return fmt.Errorf("name already taken")
	}

	registry[name] = pool
	return nil
''', '''	name := pool.GetName()
	if len(name) == 0 {
		return nil
	}
	if !add(name, pool) {
		return errTaken
	}
	return nil
}

var errTaken = errors.New("name already taken")

// add adds a pool unless there is one with the name.
func add(name string, pool goroutines.Pool) bool {
	mu.Lock()
	defer mu.Unlock()
	if _, taken := registry[name]; !taken {
		registry[name] = pool
		return true
	}
	return false
'''), (R, '''import (
	"fmt"''', '''import (
	"errors"
	"fmt"''')]),
 ('register-renamed', POOLS, [(R, '''var registry = map[string]goroutines.Pool{}
var mu = sync.RWMutex{}
''', '''var (
	poolsMu sync.RWMutex
	pools   = make(map[string]goroutines.Pool)
)
'''), (R, '''	mu.Lock()
	defer mu.Unlock()
''', '''	poolsMu.Lock()
	defer poolsMu.Unlock()
'''), (R, '''	if _, ok := registry[name]; ok {''', '''	if _, ok := pools[name]; ok {'''), (R, '''	registry[name] = pool
''', '''	pools[name] = pool
'''), (R, '''	mu.Lock()
	delete(registry, pool.GetName())
	mu.Unlock()
''', '''	name := pool.GetName()
	poolsMu.Lock()
	defer poolsMu.Unlock()
	delete(pools, name)
'''), (R, '''		mu.RLock()
		defer mu.RUnlock()
		for _, p := range registry {''', '''		poolsMu.RLock()
		defer poolsMu.RUnlock()
		for _, p := range pools {''')]),
 ('register-validate', POOLS, [(R, '''var numOrHyphen = regexp.MustCompile(`[0-9-\\s]`)
''', '''// reserved matches what is not allowed in a base name.
var reserved = regexp.MustCompile(`[\\s\\d-]`)
'''), (R, '''	if numOrHyphen.MatchString(name) {
		return fmt''', '''	if ok := reserved.MatchString(name); ok {
		return fmt'''), (R, '''	if !numOrHyphen.MatchString(name) {''', '''	if !reserved.MatchString(name) {''')]),
 ('register-first-number', POOLS, [(R, '''	if !numOrHyphen.MatchString(name) {
		return name + "-1"
	}

	sp''', '''	if !strings.Contains(name, "-") {
		return numbered(name, 1)
	}

	sp'''), (R, '''	n++
	return fmt.Sprintf("%s-%d", sp[0], n)
}
''', '''	return numbered(sp[0], n+1)
}

func numbered(base string, n int) string {
	return fmt.Sprintf("%s-%d", base, n)
}
''')]),

 ('register-struct', POOLS, [(R, '''var registry = map[string]goroutines.Pool{}
var mu = sync.RWMutex{}
''', '''var pools = struct {
	mu sync.RWMutex
	m  map[string]goroutines.Pool
}{m: map[string]goroutines.Pool{}}
'''), (R, '''	mu.Lock()
	defer mu.Unlock()
''', '''	pools.mu.Lock()
	defer pools.mu.Unlock()
'''), (R, '''	if _, ok := registry[name]; ok {''', '''	if _, ok := pools.m[name]; ok {'''), (R, '''	registry[name] = pool
''', '''	pools.m[name] = pool
'''), (R, '''	mu.Lock()
	delete(registry, pool.GetName())
	mu.Unlock()
''', '''	pools.mu.Lock()
	defer pools.mu.Unlock()
	delete(pools.m, pool.GetName())
'''), (R, '''		mu.RLock()
		defer mu.RUnlock()
		for _, p := range registry {''', '''		pools.mu.RLock()
		defer pools.mu.RUnlock()
		for _, p := range pools.m {''')]),
 ('register-chars', POOLS, [(R, '''	sp := strings.Split(name, "-")
	n, err := strconv.Atoi(sp[1])
	if err != nil {
		panic(fmt.Sprintf("register is broken, name %s is invalid", name))
	}

	n++
	return fmt.Sprintf("%s-%d", sp[0], n)
''', '''	at := strings.LastIndexByte(name, '-')
	base := name[:at]
	n, err := strconv.ParseInt(strings.TrimPrefix(name, base+"-"), 10, 64)
	if err != nil {
		panic(fmt.Sprintf("register is broken, name %s is invalid", name))
	}

	return base + "-" + strconv.FormatInt(n+1, 10)
''')]),
 ('wait-defer-one', WAIT, [(W, '\t\t\tdefer w.wg.Done()\n\t\t\tdefer w.count.Add(-1)\n\n\t\t\tif ctx.Err() != nil {\n\t\t\t\tapplyErr(&w.errors, ctx.Err())\n\t\t\t\treturn\n\t\t\t}\n\n\t\t\tif err := f(ctx); err != nil {\n\t\t\t\tapplyErr(&w.errors, err)\n\t\t\t\tif w.CancelOnErr != nil {\n\t\t\t\t\tw.CancelOnErr()\n\t\t\t\t}\n\t\t\t}\n', '\t\t\tdefer func() {\n\t\t\t\tw.count.Add(-1)\n\t\t\t\tw.wg.Done()\n\t\t\t}()\n\n\t\t\terr := ctx.Err()\n\t\t\tif err != nil {\n\t\t\t\tapplyErr(&w.errors, err)\n\t\t\t\treturn\n\t\t\t}\n\t\t\tif err = f(ctx); err == nil {\n\t\t\t\treturn\n\t\t\t}\n\t\t\tapplyErr(&w.errors, err)\n\t\t\tif cancel := w.CancelOnErr; cancel != nil {\n\t\t\t\tcancel()\n\t\t\t}\n')]),
 ('wait-run-method', WAIT, [(W, '\tif w.Pool == nil {\n\t\tw.wg.Add(1)\n\t\tgo func() {\n\t\t\tdefer w.wg.Done()\n\t\t\tdefer w.count.Add(-1)\n\n\t\t\tif ctx.Err() != nil {\n\t\t\t\tapplyErr(&w.errors, ctx.Err())\n\t\t\t\treturn\n\t\t\t}\n\n\t\t\tif err := f(ctx); err != nil {\n\t\t\t\tapplyErr(&w.errors, err)\n\t\t\t\tif w.CancelOnErr != nil {\n\t\t\t\t\tw.CancelOnErr()\n\t\t\t\t}\n\t\t\t}\n\t\t}()\n\t\treturn\n\t}\n\n\tw.wg.Add(1)\n\tw.Pool.Submit(\n\t\tctx,\n\t\tfunc(ctx context.Context) {\n\t\t\tdefer w.wg.Done()\n\t\t\tdefer w.count.Add(-1)\n\n\t\t\tif ctx.Err() != nil {\n\t\t\t\tapplyErr(&w.errors, ctx.Err())\n\t\t\t\treturn\n\t\t\t}\n\n\t\t\tif err := f(ctx); err != nil {\n\t\t\t\tapplyErr(&w.errors, err)\n\t\t\t\tif w.CancelOnErr != nil {\n\t\t\t\t\tw.CancelOnErr()\n\t\t\t\t}\n\t\t\t}\n\t\t},\n\t\tw.PoolOptions...,\n\t)\n}\n', '\tw.wg.Add(1)\n\tif w.Pool == nil {\n\t\tgo w.run(ctx, f)\n\t\treturn\n\t}\n\tw.Pool.Submit(ctx, func(ctx context.Context) { w.run(ctx, f) }, w.PoolOptions...)\n}\n\n// run executes a function of the Group.\nfunc (w *Group) run(ctx context.Context, f FuncCall) {\n\tdefer w.wg.Done()\n\tdefer w.count.Add(-1)\n\n\tif err := ctx.Err(); err != nil {\n\t\tapplyErr(&w.errors, err)\n\t\treturn\n\t}\n\tw.fail(f(ctx))\n}\n\n// fail records the error of a function, if it had one.\nfunc (w *Group) fail(err error) {\n\tif err == nil {\n\t\treturn\n\t}\n\tapplyErr(&w.errors, err)\n\tif w.CancelOnErr != nil {\n\t\tw.CancelOnErr()\n\t}\n}\n')]),
 ('wait-otel-extract', WAIT, [(W, '\tw.otelOnce.Do(func() {\n\t\tspanner := span.Get(ctx)\n\t\tif spanner.IsRecording() {\n\t\t\tif w.Name == "" {\n\t\t\t\tw.Name = "unspecified"\n\t\t\t}\n\t\t\tw.start = time.Now().UTC()\n\n\t\t\tctx, w.span = span.New(ctx, fmt.Sprintf("wait(%s)", w.Name))\n\t\t\tw.span.Event(\n\t\t\t\tfmt.Sprintf("wait(%s) start", w.Name),\n\t\t\t\t"name", w.Name,\n\t\t\t\t"start", w.start,\n\t\t\t)\n\t\t}\n\t})\n', '\tw.otelOnce.Do(func() { ctx = w.otelStart(ctx) })\n'), (W, '// Running returns the number of goroutines', '// otelStart starts the span of the Group if the Context has one that is recorded.\nfunc (w *Group) otelStart(ctx context.Context) context.Context {\n\tif !span.Get(ctx).IsRecording() {\n\t\treturn ctx\n\t}\n\tif w.Name == "" {\n\t\tw.Name = "unspecified"\n\t}\n\tw.start = time.Now().UTC()\n\n\tvar own span.Span\n\tctx, own = span.New(ctx, fmt.Sprintf("wait(%s)", w.Name))\n\town.Event(\n\t\tfmt.Sprintf("wait(%s) start", w.Name),\n\t\t"name", w.Name,\n\t\t"start", w.start,\n\t)\n\tw.span = own\n\treturn ctx\n}\n\n// Running returns the number of goroutines')]),
 ('limited-options-helper', POOLS, [(L, '\topts := pool.SubmitOptions{Type: pool.PTLimited}\n\tvar err error\n\tfor _, o := range options {\n\t\topts, err = o(opts)\n\t\tif err != nil {\n\t\t\tspanner.Error(err)\n\t\t\treturn err\n\t\t}\n\t}\n', '\topts, err := submitOptions(options)\n\tif err != nil {\n\t\tspanner.Error(err)\n\t\treturn err\n\t}\n'), (L, '// Submit submits the runner to be executed.\n', '// submitOptions applies all options.\nfunc submitOptions(options []goroutines.SubmitOption) (opts pool.SubmitOptions, err error) {\n\topts.Type = pool.PTLimited\n\tfor i := 0; i < len(options) && err == nil; i++ {\n\t\topts, err = options[i](opts)\n\t}\n\treturn opts, err\n}\n\n// Submit submits the runner to be executed.\n')]),
 ('pooled-options-helper', POOLS, [(P, '\topts := pool.SubmitOptions{Type: pool.PTPooled}\n\tvar err error\n\tfor _, o := range options {\n\t\topts, err = o(opts)\n\t\tif err != nil {\n\t\t\tspanner.Error(err)\n\t\t\treturn err\n\t\t}\n\t}\n', '\topts, err := submitOptions(options)\n\tif err != nil {\n\t\tspanner.Error(err)\n\t\treturn err\n\t}\n'), (P, '// Submit submits the runner to be executed.\n', '// submitOptions applies all options.\nfunc submitOptions(options []goroutines.SubmitOption) (opts pool.SubmitOptions, err error) {\n\topts.Type = pool.PTPooled\n\tfor i := 0; i < len(options) && err == nil; i++ {\n\t\topts, err = options[i](opts)\n\t}\n\treturn opts, err\n}\n\n// Submit submits the runner to be executed.\n')]),
 ('pooled-exec', POOLS, [(P, '\t\t\tgo func() {\n\t\t\t\tdefer p.wg.Done()\n\t\t\t\tdefer p.running.Add(-1)\n\t\t\t\ts.job(ctx)\n\t\t\t}()\n', '\t\t\tgo p.exec(s)\n'), (P, '\tfor s := range p.queue {\n\t\ts.job(s.ctx)\n\t\tp.running.Add(-1)\n\t\tp.wg.Done()\n\t}\n}\n', '\tfor {\n\t\ts, ok := <-p.queue\n\t\tif !ok {\n\t\t\treturn\n\t\t}\n\t\tp.exec(s)\n\t}\n}\n\n// exec runs a single job.\nfunc (p *Pool) exec(s submit) {\n\ts.job(s.ctx)\n\tp.running.Add(-1)\n\tp.wg.Done()\n}\n')]),
 ('chans-labelled', WAIT, [(C, '\tvar ctxErr error\n\tfor {\n\t\t// Do not take a value off the input that is not going to be processed.\n\t\tif ctxErr = ctx.Err(); ctxErr != nil {\n\t\t\tbreak\n\t\t}\n\n\t\tvar v T\n\t\tvar ok bool\n\t\tselect {\n\t\tcase <-ctx.Done():\n\t\t\tcontinue\n\t\tcase v, ok = <-input:\n\t\t}\n\t\tif !ok {\n\t\t\tbreak\n\t\t}\n\n\t\twg.Go(\n\t\t\tctx,\n\t\t\tfunc(ctx context.Context) error {\n\t\t\t\treturn access(\n\t\t\t\t\tctx,\n\t\t\t\t\tv,\n\t\t\t\t)\n\t\t\t},\n\t\t)\n\t}\n\tif err', '\tvar ctxErr error\nloop:\n\tfor ctxErr = ctx.Err(); ctxErr == nil; ctxErr = ctx.Err() {\n\t\tselect {\n\t\tcase <-ctx.Done():\n\t\tcase v, more := <-input:\n\t\t\tif !more {\n\t\t\t\tbreak loop\n\t\t\t}\n\t\t\twg.Go(ctx, func(ctx context.Context) error { return access(ctx, v) })\n\t\t}\n\t}\n\tif err')]),
 ('slices-pool-helper', WAIT, [(S, '\tif opts.pool == nil {\n\t\tvar err error\n\t\topts.pool, err = limited.New("", runtime.NumCPU())\n\t\tif err != nil {\n\t\t\tspanner.Error(err)\n\t\t\treturn err\n\t\t}\n\t\tdefer opts.pool.Close()\n\t}\n', '\tdone, err := opts.ensurePool()\n\tif err != nil {\n\t\tspanner.Error(err)\n\t\treturn err\n\t}\n\tdefer done()\n'), (S, '// SliceOption is an option', '// ensurePool sets the pool if there is none. What is returned must be called in the end.\nfunc (o *sliceOptions) ensurePool() (func(), error) {\n\tif o.pool != nil {\n\t\treturn func() {}, nil\n\t}\n\tp, err := limited.New("", runtime.NumCPU())\n\tif err != nil {\n\t\treturn nil, err\n\t}\n\to.pool = p\n\treturn p.Close, nil\n}\n\n// SliceOption is an option')]),
 ('queue-pop-if', 'C22', [(Q, '\t\th := s.head.Load()\n\t\tn := h.next.Load()\n\t\tif n != nil {\n\t\t\tif s.head.CompareAndSwap(h, n) {\n\t\t\t\treturn n.val, true\n\t\t\t} else {\n\t\t\t\tcontinue\n\t\t\t}\n\t\t} else {\n\t\t\tvar v A\n\t\t\treturn v, false\n\t\t}\n', '\t\thead := s.head.Load()\n\t\tnext := head.next.Load()\n\t\tswitch {\n\t\tcase next == nil:\n\t\t\treturn *new(A), false\n\t\tcase s.head.CompareAndSwap(head, next):\n\t\t\treturn next.val, true\n\t\t}\n'), (Q, '\tfor {\n\t\trt := s.tail.Load()\n\n\t\tif rt.next.CompareAndSwap(nil, n) {\n\t\t\ts.tail.Store(n)\n\t\t\treturn\n\t\t} else {\n\t\t\tcontinue\n\t\t}\n\t}\n', '\tlast := s.tail.Load()\n\tfor !last.next.CompareAndSwap(nil, n) {\n\t\tlast = s.tail.Load()\n\t}\n\ts.tail.Store(n)\n')]),
 ('pipe-deliver', PIPE, [(SP, '\t\tif p.delayWarning != 0 {\n\t\t\tfor {\n\t\t\t\ttick.Reset(p.delayWarning)\n\t\t\t\tselect {\n\t\t\t\tcase p.out <- r:\n\t\t\t\tcase <-tick.C:\n\t\t\t\t\tlog.Printf("pipeline(%s) is having output delays exceeding %v", id, p.delayWarning)\n\t\t\t\t\tcontinue\n\t\t\t\t}\n\t\t\t\tbreak\n\t\t\t}\n\t\t} else {\n\t\t\tp.out <- r\n\t\t}\n\t}\n}\n', '\t\tp.deliver(r, tick, id)\n\t}\n}\n\n// deliver outputs a Request. If there is a Ticker, it logs a message each time it ticks before that is done.\nfunc (p *pipeline[T]) deliver(r Request[T], tick *time.Ticker, id string) {\n\tif tick == nil {\n\t\tp.out <- r\n\t\treturn\n\t}\n\tfor {\n\t\ttick.Reset(p.delayWarning)\n\t\tselect {\n\t\tcase p.out <- r:\n\t\t\treturn\n\t\tcase <-tick.C:\n\t\t\tlog.Printf("pipeline(%s) is having output delays exceeding %v", id, p.delayWarning)\n\t\t}\n\t}\n}\n')]),
 ('group-send-helper', PIPE, [(SP, '\tselect {\n\tcase <-req.Ctx.Done():\n\t\tif r.ordered != nil {\n\t\t\t// The next Request takes our place, as all output after a gap would be held back.\n\t\t\tr.itemNum.Add(^uint64(0))\n\t\t}\n\t\tif spanner.IsRecording() {\n\t\t\tspanner.End()\n\t\t}\n\t\tr.p.wg.Done()\n\t\tr.wg.Done()\n\t\treturn req.Ctx.Err()\n\tcase r.p.in <- req:\n\t}\n\n\treturn nil\n}\n', '\tif err := r.p.ingest(req); err != nil {\n\t\tif r.ordered != nil {\n\t\t\t// The next Request takes our place, as all output after a gap would be held back.\n\t\t\tr.itemNum.Add(^uint64(0))\n\t\t}\n\t\tif spanner.IsRecording() {\n\t\t\tspanner.End()\n\t\t}\n\t\tr.wg.Done()\n\t\tr.p.wg.Done()\n\t\treturn err\n\t}\n\treturn nil\n}\n\n// ingest hands a Request to the workers.\nfunc (p *Pipelines[T]) ingest(req Request[T]) error {\n\tselect {\n\tcase p.in <- req:\n\t\treturn nil\n\tcase <-req.Ctx.Done():\n\t}\n\treturn req.Ctx.Err()\n}\n')]),
 ('exec-one-defer', PIPE, [(SP, '\tdefer func() {\n\t\tout.span = parentSpan\n\t\tif stageSpan.IsRecording() {\n\t\t\t// A Stage can set its own Context.\n\t\t\tif out.Ctx == stageCtx {\n\t\t\t\tout.Ctx = parentCtx\n\t\t\t}\n\t\t\tstageSpan.End()\n\t\t}\n\t}()\n\tr.Ctx, r.span = stageCtx, stageSpan\n\n\tr.Event(stageName, "start", time.Now())\n\tdefer func() {\n\t\tstageSpan.Event(stageName, "end", time.Now())\n\t}()\n\n\t// If the context has been cancelled, stop processing.\n\tif r.Ctx.Err() != nil {\n\t\tr.Err = r.Ctx.Err()\n\t\treturn r\n\t}\n', '\tr.Ctx, r.span = stageCtx, stageSpan\n\n\tr.Event(stageName, "start", time.Now())\n\tdefer func() {\n\t\tstageSpan.Event(stageName, "end", time.Now())\n\t\tout.span = parentSpan\n\t\tif !stageSpan.IsRecording() {\n\t\t\treturn\n\t\t}\n\t\t// A Stage can set its own Context.\n\t\tif out.Ctx == stageCtx {\n\t\t\tout.Ctx = parentCtx\n\t\t}\n\t\tstageSpan.End()\n\t}()\n\n\t// If the context has been cancelled, stop processing.\n\tif err := r.Ctx.Err(); err != nil {\n\t\tr.Err = err\n\t\treturn r\n\t}\n')]),
 ('pipe-close-method', PIPE, [(SP, '\tgo func() {\n\t\tp.wg.Wait()\n\t\tclose(p.out)\n\t\tp.sm.Close()\n\t}()\n}\n', '\tgo p.shutdown()\n}\n\n// shutdown waits for all Requests and then closes everything.\nfunc (p *Pipelines[T]) shutdown() {\n\tp.wg.Wait()\n\tclose(p.out)\n\tp.sm.Close()\n}\n'), (SP, '\tfor i := 0; i < p.concurrency; i++ {\n\t\tgo p.runner()\n\t}\n\n\treturn p, nil\n}\n', '\tp.start(p.concurrency)\n\treturn p, nil\n}\n\n// start starts n workers.\nfunc (p *pipeline[T]) start(n int) {\n\tfor ; n > 0; n-- {\n\t\tgo p.runner()\n\t}\n}\n')]),
 ('stats-begin-end', PIPE, [(SP, '\tp.stats.running.Add(1)\n\tsetMin(&p.stats.ingestStats.min, int64(queuedTime))\n\tsetMax(&p.stats.ingestStats.max, int64(queuedTime))\n\tp.stats.ingestStats.avgTotal.Add(int64(queuedTime))\n', '\tp.stats.begin(queuedTime)\n'), (SP, '\trunTime := time.Since(r.ingestTime)\n\n\tp.stats.running.Add(-1)\n\tp.stats.completed.Add(1)\n\n\tsetMin(&p.stats.min, int64(runTime))\n\tsetMax(&p.stats.max, int64(runTime))\n\tp.stats.avgTotal.Add(int64(runTime))\n', '\tp.stats.end(time.Since(r.ingestTime))\n'), (ST, '// IngestStats detail how', '// begin records that a Request is taken after it was queued for d.\nfunc (s *stats) begin(d time.Duration) {\n\ts.running.Add(1)\n\trecord(&s.ingestStats.min, &s.ingestStats.max, &s.ingestStats.avgTotal, d)\n}\n\n// end records that a Request is done that took d.\nfunc (s *stats) end(d time.Duration) {\n\ts.completed.Add(1)\n\trecord(&s.min, &s.max, &s.avgTotal, d)\n\ts.running.Add(-1)\n}\n\n// record records a duration.\nfunc record(min, max, total *atomic.Int64, d time.Duration) {\n\tv := int64(d)\n\ttotal.Add(v)\n\tsetMin(min, v)\n\tsetMax(max, v)\n}\n\n// IngestStats detail how')]),
 ('stats-casloop', PIPE, [(ST, '\tfor {\n\t\tc := (*current).Load()\n\t\tif v >= c {\n\t\t\treturn\n\t\t}\n\t\tif (*current).CompareAndSwap(c, v) {\n\t\t\treturn\n\t\t}\n\t}\n', '\tfor c := current.Load(); v < c; c = current.Load() {\n\t\tif current.CompareAndSwap(c, v) {\n\t\t\tbreak\n\t\t}\n\t}\n'), (ST, '\tfor {\n\t\tc := (*current).Load()\n\t\tif v <= c {\n\t\t\treturn\n\t\t}\n\t\tif (*current).CompareAndSwap(c, v) {\n\t\t\treturn\n\t\t}\n\t}\n', '\tc := current.Load()\n\tfor c < v && !current.CompareAndSwap(c, v) {\n\t\tc = current.Load()\n\t}\n')]),
 ('start-name-split', PIPE, [(SP, '\tt := reflect.TypeOf(sm)\n\tif t.Kind() == reflect.Pointer {\n\t\t// If the method has a value receiver, that is the method that is named.\n\t\tif m, ok := t.Elem().MethodByName("Start"); ok {\n\t\t\treturn methodName(m.Func.Interface())\n\t\t}\n\t}\n\tm, ok := t.MethodByName("Start")\n\tif !ok {\n\t\treturn methodName(sm.Start)\n\t}\n\treturn methodName(m.Func.Interface())\n', '\tconst start = "Start"\n\tt := reflect.TypeOf(sm)\n\ttypes := []reflect.Type{t}\n\tif t.Kind() == reflect.Pointer {\n\t\t// If the method has a value receiver, that is the method that is named.\n\t\ttypes = []reflect.Type{t.Elem(), t}\n\t}\n\tfor _, t := range types {\n\t\tif m, ok := t.MethodByName(start); ok {\n\t\t\treturn methodName(m.Func.Interface())\n\t\t}\n\t}\n\treturn methodName(sm.Start)\n'), (SP, '\tvar sig Stage[T]\n\tcount := 0\n\tfor range method.MatchesSignature(reflect.ValueOf(sm), reflect.ValueOf(sig)) {\n\t\tcount++\n\t}\n\treturn count\n', '\tstages := method.MatchesSignature(reflect.ValueOf(sm), reflect.ValueOf(Stage[T](nil)))\n\tn := 0\n\tfor _, ok := <-stages; ok; _, ok = <-stages {\n\t\tn++\n\t}\n\treturn n\n')]),
 ('atomics-both', 'C11', [(A, '\tv := r.v.Load()\n\tif v == nil {\n\t\tvar zero T\n\t\treturn zero\n\t}\n\treturn *v\n', '\tif p := r.v.Load(); p != nil {\n\t\treturn *p\n\t}\n\treturn *new(T)\n'), (A, '\tv := r.v.Load()\n\tif v == nil {\n\t\tv = new(T)\n\t}\n\tn, err := lr(*v)\n\tif err != nil {\n\t\treturn err\n\t}\n\tr.v.Store(&n)\n\treturn nil\n', '\tn, err := lr(r.Load())\n\tif err == nil {\n\t\tr.v.Store(&n)\n\t}\n\treturn err\n')]),
 ('wait-choose-later', WAIT, [(W, '\tw.count.Add(1)\n\tw.total.Add(1)\n\n\tif w.Pool == nil {\n\t\tw.wg.Add(1)\n\t\tgo func() {\n\t\t\tdefer w.wg.Done()\n\t\t\tdefer w.count.Add(-1)\n\n\t\t\tif ctx.Err() != nil {\n\t\t\t\tapplyErr(&w.errors, ctx.Err())\n\t\t\t\treturn\n\t\t\t}\n\n\t\t\tif err := f(ctx); err != nil {\n\t\t\t\tapplyErr(&w.errors, err)\n\t\t\t\tif w.CancelOnErr != nil {\n\t\t\t\t\tw.CancelOnErr()\n\t\t\t\t}\n\t\t\t}\n\t\t}()\n\t\treturn\n\t}\n\n\tw.wg.Add(1)\n\tw.Pool.Submit(\n\t\tctx,\n\t\tfunc(ctx context.Context) {\n\t\t\tdefer w.wg.Done()\n\t\t\tdefer w.count.Add(-1)\n\n\t\t\tif ctx.Err() != nil {\n\t\t\t\tapplyErr(&w.errors, ctx.Err())\n\t\t\t\treturn\n\t\t\t}\n\n\t\t\tif err := f(ctx); err != nil {\n\t\t\t\tapplyErr(&w.errors, err)\n\t\t\t\tif w.CancelOnErr != nil {\n\t\t\t\t\tw.CancelOnErr()\n\t\t\t\t}\n\t\t\t}\n\t\t},\n\t\tw.PoolOptions...,\n\t)\n}\n\n', '\tw.count.Add(1)\n\tw.total.Add(1)\n\tw.wg.Add(1)\n\n\twork := func(ctx context.Context) {\n\t\tdefer func() {\n\t\t\tw.count.Add(-1)\n\t\t\tw.wg.Done()\n\t\t}()\n\n\t\terr := ctx.Err()\n\t\tif err != nil {\n\t\t\tapplyErr(&w.errors, err)\n\t\t\treturn\n\t\t}\n\t\terr = f(ctx)\n\t\tif err == nil {\n\t\t\treturn\n\t\t}\n\t\tapplyErr(&w.errors, err)\n\t\tif cancel := w.CancelOnErr; cancel != nil {\n\t\t\tcancel()\n\t\t}\n\t}\n\n\tswitch w.Pool {\n\tcase nil:\n\t\tgo work(ctx)\n\tdefault:\n\t\tw.Pool.Submit(ctx, work, w.PoolOptions...)\n\t}\n}\n\n')]),
 ('wait-iscontexterr', WAIT, [(W, 'func applyErr(ptr *atomic.Pointer[error], err error) {\n\tfor {\n\t\texisting := ptr.Load()\n\t\tif existing == nil {\n\t\t\tif ptr.CompareAndSwap(nil, &err) {\n\t\t\t\treturn\n\t\t\t}\n\t\t} else {\n\t\t\tswitch err {\n\t\t\tcase context.Canceled, context.DeadlineExceeded:\n\t\t\t\treturn\n\t\t\t}\n\t\t\tjoined := errors.Join(*existing, err)\n\t\t\tif ptr.CompareAndSwap(existing, &joined) {\n\t\t\t\treturn\n\t\t\t}\n\t\t}\n\t}\n}\n\n', 'func applyErr(ptr *atomic.Pointer[error], err error) {\n\tfor !tryApplyErr(ptr, err) {\n\t}\n}\n\n// tryApplyErr is one try of applyErr. It returns false if another error was applied at the same time.\nfunc tryApplyErr(ptr *atomic.Pointer[error], err error) bool {\n\texisting := ptr.Load()\n\tif existing == nil {\n\t\treturn ptr.CompareAndSwap(nil, &err)\n\t}\n\tif isCancel(err) {\n\t\treturn true\n\t}\n\tjoined := errors.Join(*existing, err)\n\treturn ptr.CompareAndSwap(existing, &joined)\n}\n\nfunc isCancel(err error) bool {\n\treturn err == context.Canceled || err == context.DeadlineExceeded\n}\n\n')]),
 ('exec-inner', PIPE, [(SP, '\t// If the context has been cancelled, stop processing.\n\tif r.Ctx.Err() != nil {\n\t\tr.Err = r.Ctx.Err()\n\t\treturn r\n\t}\n\n\tif r.seenStages != nil {\n\t\tif r.seenStages.seen(stageName) {\n\t\t\tr.Err = Error{Type: cyclicErr, Msg: r.seenStages.callTrace()}\n\t\t\treturn r\n\t\t}\n\t}\n\n\tfor _, pp := range p.preProcessors {\n\t\tr = pp(r)\n\t\tif r.Err != nil {\n\t\t\treturn r\n\t\t}\n\t}\n\treturn stage(r)\n}\n\n', '\treturn p.runStage(r, stage, stageName)\n}\n\n// runStage runs the preProcessors and the stage if the Request can go on.\nfunc (p *pipeline[T]) runStage(r Request[T], stage Stage[T], stageName string) Request[T] {\n\t// If the context has been cancelled, stop processing.\n\tif err := r.Ctx.Err(); err != nil {\n\t\tr.Err = err\n\t\treturn r\n\t}\n\n\tif r.seenStages != nil && r.seenStages.seen(stageName) {\n\t\tr.Err = Error{Type: cyclicErr, Msg: r.seenStages.callTrace()}\n\t\treturn r\n\t}\n\n\tif r = p.preProcess(r); r.Err != nil {\n\t\treturn r\n\t}\n\treturn stage(r)\n}\n\n// preProcess runs the preProcessors.\nfunc (p *pipeline[T]) preProcess(r Request[T]) Request[T] {\n\tfor i := 0; i < len(p.preProcessors) && r.Err == nil; i++ {\n\t\tr = p.preProcessors[i](r)\n\t}\n\treturn r\n}\n\n')]),
 ('pipe-embed-args', PIPE, [(SP, '// pipeline processes DBD entries.\ntype pipeline[T any] struct {\n\tsm            StateMachine[T]\n\tstats         *stats\n\tin            chan Request[T]\n\tout           chan Request[T]\n\tname          string\n\tpreProcessors []PreProcesor[T]\n\tid            int\n\tconcurrency   int\n\tdelayWarning  time.Duration\n\tss            bool\n}\n\n', '// pipeline processes DBD entries.\ntype pipeline[T any] struct {\n\tpipelineArgs[T]\n\tconcurrency int\n}\n\n'), (SP, '\tp := &pipeline[T]{\n\t\tname:          args.name,\n\t\tid:            args.id,\n\t\tin:            args.in,\n\t\tout:           args.out,\n\t\tpreProcessors: args.preProcessors,\n\t\tstats:         args.stats,\n\t\tsm:            args.sm,\n\t\tss:            args.ss,\n\t\tdelayWarning:  args.delayWarning,\n\t}\n\n', '\tp := &pipeline[T]{pipelineArgs: args}\n\n')]),
 ('pipe-args-once', PIPE, [(SP, '\tfor i := 0; i < num; i++ {\n\t\targs := pipelineArgs[T]{\n\t\t\tname:          name,\n\t\t\tid:            i,\n\t\t\tin:            in,\n\t\t\tout:           out,\n\t\t\tnum:           num,\n\t\t\tsm:            sm,\n\t\t\tsubStages:     p.subStages,\n\t\t\tpreProcessors: p.preProcessors,\n\t\t\tstats:         stats,\n\t\t\tdelayWarning:  p.delayWarning,\n\t\t\tss:            p.ss,\n\t\t}\n\n\t\t_, err := newPipeline(args)\n\t\tif err != nil {\n\t\t\tclose(in)\n\t\t\treturn nil, err\n\t\t}\n\t}\n', '\targs := pipelineArgs[T]{\n\t\tname:          name,\n\t\tin:            in,\n\t\tout:           out,\n\t\tnum:           num,\n\t\tsm:            sm,\n\t\tsubStages:     p.subStages,\n\t\tpreProcessors: p.preProcessors,\n\t\tstats:         stats,\n\t\tdelayWarning:  p.delayWarning,\n\t\tss:            p.ss,\n\t}\n\tfor args.id < num {\n\t\tif _, err := newPipeline(args); err != nil {\n\t\t\tclose(in)\n\t\t\treturn nil, err\n\t\t}\n\t\targs.id++\n\t}\n')]),
 ('group-forward-methods', PIPE, [(SP, '\t\tgo func() {\n\t\t\tdefer r.ordered.Close()\n\t\t\tfor req := range r.out {\n\t\t\t\tr.wg.Done()\n\t\t\t\tp.wg.Done()\n\t\t\t\treq.otelEnd()\n\t\t\t\tif err := r.ordered.Add(req); err != nil {\n\t\t\t\t\tpanic("bug: ordered demuxer returned an error")\n\t\t\t\t}\n\t\t\t}\n\t\t}()\n\t} else { // No output order is required.\n\t\tgo func() {\n\t\t\tdefer close(r.user)\n\t\t\tfor req := range r.out {\n\t\t\t\tr.wg.Done()\n\t\t\t\tp.wg.Done()\n\t\t\t\treq.otelEnd()\n\t\t\t\tr.user <- req\n\t\t\t}\n\t\t}()\n\t}\n\n', '\t\tgo r.forwardOrdered()\n\t} else { // No output order is required.\n\t\tgo r.forward()\n\t}\n\n'), (SP, '// Stats returns stats about all the running Pipelines.\n', '// leave does the accounting of a Request that left the Pipelines.\nfunc (r *RequestGroup[T]) leave(req Request[T]) Request[T] {\n\tr.wg.Done()\n\tr.p.wg.Done()\n\treq.otelEnd()\n\treturn req\n}\n\nfunc (r *RequestGroup[T]) forwardOrdered() {\n\tdefer r.ordered.Close()\n\tfor req := range r.out {\n\t\tif err := r.ordered.Add(r.leave(req)); err != nil {\n\t\t\tpanic("bug: ordered demuxer returned an error")\n\t\t}\n\t}\n}\n\nfunc (r *RequestGroup[T]) forward() {\n\tdefer close(r.user)\n\tfor req := range r.out {\n\t\tr.user <- r.leave(req)\n\t}\n}\n\n// Stats returns stats about all the running Pipelines.\n')]),
 ('group-itemnum-store', PIPE, [(SP, '\t\t\tr.itemNum.Add(^uint64(0))\n', '\t\t\tr.itemNum.Store(req.itemNum)\n')]),
 ('group-once-value', PIPE, [(SP, '\tstartOnce *sync.Once\n', '\tstartOnce sync.Once\n'), (SP, '\t\tstartOnce:  &sync.Once{},\n', '')]),
 ('pipe-wg-value', PIPE, [(SP, '\twg *sync.WaitGroup\n', '\twg sync.WaitGroup\n'), (SP, '\t\twg:    &sync.WaitGroup{},\n', '')]),
 ('pipe-close-defer', PIPE, [(SP, '\tgo func() {\n\t\tp.wg.Wait()\n\t\tclose(p.out)\n\t\tp.sm.Close()\n\t}()\n', '\tgo func() {\n\t\tdefer p.sm.Close()\n\t\tdefer close(p.out)\n\t\tp.wg.Wait()\n\t}()\n')]),
 ('group-submit-span-first', PIPE, [(SP, '\t// This let\'s the Pipelines object know it is receiving a new Request to process.\n\tr.p.wg.Add(1)\n\t// This tracks the request in the RequestGroup.\n\tr.wg.Add(1)\n\n\t// Create a child context with a new child span for the request.\n\tctx, spanner := span.New(req.Ctx, fmt.Sprintf("stagedpipe.RequestGroup(%s).Request(%d)", gName, req.itemNum))\n\treq.Ctx = ctx\n\treq.span = spanner\n\n\tselect {\n\tcase <-req.Ctx.Done():\n', '\t// Create a child context with a new child span for the request.\n\treq.Ctx, req.span = span.New(req.Ctx, fmt.Sprintf("stagedpipe.RequestGroup(%s).Request(%d)", gName, req.itemNum))\n\tspanner := req.span\n\n\t// This tracks the request in the RequestGroup, and let\'s the Pipelines object know it is receiving\n\t// a new Request to process.\n\tr.wg.Add(1)\n\tr.p.wg.Add(1)\n\n\tselect {\n\tcase <-req.Ctx.Done():\n')]),
 ('stats-update-func', PIPE, [(ST, '// setMin will set current to v if v is smaller that current.\nfunc setMin(current *atomic.Int64, v int64) {\n\tfor {\n\t\tc := (*current).Load()\n\t\tif v >= c {\n\t\t\treturn\n\t\t}\n\t\tif (*current).CompareAndSwap(c, v) {\n\t\t\treturn\n\t\t}\n\t}\n}\n\n// setMax will set current to v if v is bigger than current.\nfunc setMax(current *atomic.Int64, v int64) {\n\tfor {\n\t\tc := (*current).Load()\n\t\tif v <= c {\n\t\t\treturn\n\t\t}\n\t\tif (*current).CompareAndSwap(c, v) {\n\t\t\treturn\n\t\t}\n\t}\n}\n', '// setMin will set current to v if v is smaller that current.\nfunc setMin(current *atomic.Int64, v int64) {\n\treplace(current, v, func(c int64) bool { return v < c })\n}\n\n// setMax will set current to v if v is bigger than current.\nfunc setMax(current *atomic.Int64, v int64) {\n\treplace(current, v, func(c int64) bool { return v > c })\n}\n\n// replace sets current to v as long as better says so.\nfunc replace(current *atomic.Int64, v int64, better func(c int64) bool) {\n\tc := current.Load()\n\tfor better(c) && !current.CompareAndSwap(c, v) {\n\t\tc = current.Load()\n\t}\n}\n')]),
 ('stats-record-method', PIPE, [(SP, '\tsetMin(&p.stats.ingestStats.min, int64(queuedTime))\n\tsetMax(&p.stats.ingestStats.max, int64(queuedTime))\n\tp.stats.ingestStats.avgTotal.Add(int64(queuedTime))\n', '\tp.stats.ingestStats.record(queuedTime)\n'), (SP, '\tsetMin(&p.stats.min, int64(runTime))\n\tsetMax(&p.stats.max, int64(runTime))\n\tp.stats.avgTotal.Add(int64(runTime))\n', '\tp.stats.record(runTime)\n'), (ST, '// setMin will set current to v if', '// record adds the time that a Request was waiting.\nfunc (i *ingestStats) record(d time.Duration) {\n\ti.avgTotal.Add(int64(d))\n\tsetMin(&i.min, int64(d))\n\tsetMax(&i.max, int64(d))\n}\n\n// record adds the time that a Request was running.\nfunc (s *stats) record(d time.Duration) {\n\ts.avgTotal.Add(int64(d))\n\tsetMin(&s.min, int64(d))\n\tsetMax(&s.max, int64(d))\n}\n\n// setMin will set current to v if')]),
 ('queue-trypush', 'C22', [(Q, '\tn := &node[A]{val: val}\n\tfor {\n\t\trt := s.tail.Load()\n\n\t\tif rt.next.CompareAndSwap(nil, n) {\n\t\t\ts.tail.Store(n)\n\t\t\treturn\n\t\t} else {\n\t\t\tcontinue\n\t\t}\n\t}\n', '\tn := &node[A]{val: val}\n\trt := s.tail.Load()\n\tfor !rt.next.CompareAndSwap(nil, n) {\n\t\trt = s.tail.Load()\n\t}\n\ts.tail.Store(n)\n'), (Q, '\t\tif n != nil {\n\t\t\tif s.head.CompareAndSwap(h, n) {\n\t\t\t\treturn n.val, true\n\t\t\t} else {\n\t\t\t\tcontinue\n\t\t\t}\n\t\t} else {\n\t\t\tvar v A\n\t\t\treturn v, false\n\t\t}\n', '\t\tif n == nil {\n\t\t\tvar v A\n\t\t\treturn v, false\n\t\t}\n\t\tif s.head.CompareAndSwap(h, n) {\n\t\t\treturn n.val, true\n\t\t}\n')]),
 ('queue-unlimited-early', 'C22', [(Q, '\tif q.limit != nil {\n\t\tq.limit <- struct{}{}\n\t}\n\tq.queue.push(a)\n', '\tif q.limit == nil {\n\t\tq.queue.push(a)\n\t\treturn\n\t}\n\tq.limit <- struct{}{}\n\tq.queue.push(a)\n')]),
 ('pooled-accept', POOLS, [(P, '\tp.wg.Add(1)\n\tp.running.Add(1)\n\tif opts.NonBlocking {\n\t\tselect {\n\t\tcase p.queue <- s:\n\t\tdefault:\n\t\t\tgo func() {\n\t\t\t\tdefer p.wg.Done()\n\t\t\t\tdefer p.running.Add(-1)\n\t\t\t\ts.job(ctx)\n\t\t\t}()\n\t\t}\n\t\tp.submitEvent(spanner, fcn, opts.NonBlocking, now)\n\t\treturn nil\n\t}\n\n\tselect {\n\tcase p.queue <- s:\n\tdefault:\n\t\tp.blockEvent(spanner, fcn, now)\n\t\tp.queue <- s\n\t}\n\tp.submitEvent(spanner, fcn, opts.NonBlocking, now)\n\treturn nil\n}\n', '\tp.accept()\n\tselect {\n\tcase p.queue <- s:\n\t\tp.submitEvent(spanner, fcn, opts.NonBlocking, now)\n\t\treturn nil\n\tdefault:\n\t}\n\n\tif opts.NonBlocking {\n\t\tgo p.run(s)\n\t} else {\n\t\tp.blockEvent(spanner, fcn, now)\n\t\tp.queue <- s\n\t}\n\tp.submitEvent(spanner, fcn, opts.NonBlocking, now)\n\treturn nil\n}\n\n// accept counts a job that is going to be run.\nfunc (p *Pool) accept() {\n\tp.running.Add(1)\n\tp.wg.Add(1)\n}\n\n// run runs a job that was accepted.\nfunc (p *Pool) run(s submit) {\n\tdefer p.wg.Done()\n\tdefer p.running.Add(-1)\n\ts.job(s.ctx)\n}\n')]),
 ('pooled-runner-loop', POOLS, [(P, '\tfor s := range p.queue {\n\t\ts.job(s.ctx)\n\t\tp.running.Add(-1)\n\t\tp.wg.Done()\n\t}\n', '\tfor {\n\t\ts, ok := <-p.queue\n\t\tif !ok {\n\t\t\treturn\n\t\t}\n\t\tfunc() {\n\t\t\tdefer p.wg.Done()\n\t\t\ts.job(s.ctx)\n\t\t\tp.running.Add(-1)\n\t\t}()\n\t}\n')]),
 ('chans-setup', WAIT, [(C, '\tif opts.pool == nil {\n\t\tvar err error\n\t\topts.pool, err = limited.New("", runtime.NumCPU())\n\t\tif err != nil {\n\t\t\tspanner.Error(err)\n\t\t\treturn err\n\t\t}\n\t\tdefer opts.pool.Close()\n\t}\n\n\tvar cancel = func() {}\n\tif opts.stopOnErr {\n\t\tctx, cancel = context.WithCancel(ctx)\n\t}\n\twg := wait.Group{Pool: opts.pool, PoolOptions: opts.poolOptions, CancelOnErr: cancel}\n', '\tif opts.pool == nil {\n\t\tpool, err := limited.New("", runtime.NumCPU())\n\t\tif err != nil {\n\t\t\tspanner.Error(err)\n\t\t\treturn err\n\t\t}\n\t\topts.pool = pool\n\t\tdefer pool.Close()\n\t}\n\n\tctx, wg := opts.group(ctx)\n'), (C, '// ChanOption is an option for Chan().\n', '// group is the Group that runs the Accessors, and the Context to run them with.\nfunc (o *chanOptions) group(ctx context.Context) (context.Context, *wait.Group) {\n\twg := &wait.Group{Pool: o.pool, PoolOptions: o.poolOptions}\n\tif o.stopOnErr {\n\t\tctx, wg.CancelOnErr = context.WithCancel(ctx)\n\t}\n\treturn ctx, wg\n}\n\n// ChanOption is an option for Chan().\n')]),
 ('chans-modify-send', WAIT, [(C, '\t\tr, err := mod(ctx, v)\n\t\tif err != nil {\n\t\t\tselect {\n\t\t\tcase <-ctx.Done():\n\t\t\tcase output <- StreamResult[R]{Err: err}:\n\t\t\t}\n\t\t\treturn err\n\t\t}\n\t\toutput <- StreamResult[R]{Value: r}\n\t\treturn nil\n', '\t\tvar done <-chan struct{}\n\t\tr, err := mod(ctx, v)\n\t\tsr := StreamResult[R]{Value: r}\n\t\tif err != nil {\n\t\t\tsr = StreamResult[R]{Err: err}\n\t\t\tdone = ctx.Done()\n\t\t}\n\t\tselect {\n\t\tcase <-done:\n\t\tcase output <- sr:\n\t\t}\n\t\treturn err\n')]),
 ('slices-do', WAIT, [(S, '\tfor i := 0; i < len(s); i++ {\n\t\ti := i\n\n\t\tif ctxErr = ctx.Err(); ctxErr != nil {\n\t\t\tbreak\n\t\t}\n\n\t\twg.Go(\n\t\t\tctx,\n\t\t\tfunc(ctx context.Context) error {\n\t\t\t\treturn access(ctx, i, s[i], func(v T) { modifier(s, i, v) })\n\t\t\t},\n\t\t)\n\t}\n', '\tat := func(i int) wait.FuncCall {\n\t\treturn func(ctx context.Context) error {\n\t\t\treturn access(ctx, i, s[i], func(v T) { s[i] = v })\n\t\t}\n\t}\n\tfor i := range s {\n\t\tctxErr = ctx.Err()\n\t\tif ctxErr != nil {\n\t\t\tbreak\n\t\t}\n\t\twg.Go(ctx, at(i))\n\t}\n')]),
 ('process-release', PIPE, [(SP, '\t\tseen := seenStagesPool.Get().(*seenStages).reset()\n\t\tr.seenStages = seen\n\t\tdefer func() {\n\t\t\tseenStagesPool.Put(seen)\n\t\t\tout.seenStages = nil\n\t\t}()\n\t}\n', '\t\tseen := getSeenStages()\n\t\tr.seenStages = seen\n\t\tdefer seen.release()\n\t\tdefer func() { out.seenStages = nil }()\n\t}\n'), (SP, '// callTrace returns a string of the stages that have been called.\n', '// getSeenStages returns an empty seenStages.\nfunc getSeenStages() *seenStages {\n\treturn seenStagesPool.Get().(*seenStages).reset()\n}\n\n// release gives the seenStages back.\nfunc (s *seenStages) release() {\n\tseenStagesPool.Put(s)\n}\n\n// callTrace returns a string of the stages that have been called.\n')]),
 ('new-validate', PIPE, [(SP, '\tif num < 1 {\n\t\treturn nil, fmt.Errorf("num must be > 0")\n\t}\n\tif sm == nil {\n\t\treturn nil, fmt.Errorf("must provide a valid StateMachine")\n\t}\n\n\tin := make(', '\tswitch {\n\tcase num < 1:\n\t\treturn nil, fmt.Errorf("num must be > 0")\n\tcase sm == nil:\n\t\treturn nil, fmt.Errorf("must provide a valid StateMachine")\n\t}\n\n\tin := make('), (SP, '\tfor _, o := range options {\n\t\tif err := o(p); err != nil {\n\t\t\treturn nil, err\n\t\t}\n\t}\n\n\tpipelines := make', '\tif err := p.apply(options); err != nil {\n\t\treturn nil, err\n\t}\n\n\tpipelines := make'), (SP, '// Close closes the ingestion of the Pipeline. No', '// apply applies the options.\nfunc (p *Pipelines[T]) apply(options []Option[T]) error {\n\tfor i := range options {\n\t\terr := options[i](p)\n\t\tif err != nil {\n\t\t\treturn err\n\t\t}\n\t}\n\treturn nil\n}\n\n// Close closes the ingestion of the Pipeline. No')]),
 ('limited-slots-type', POOLS, [(L, '\tqueue     chan struct{}\n', '\tqueue     slots\n'), (L, 'queue: make(chan struct{}, size)', 'queue: make(slots, size)'), (L, '\t\tselect {\n\t\tcase p.queue <- struct{}{}:\n\t\tdefault:\n\t\t\tp.blockEvent(spanner, fcn, now)\n\t\t\tp.queue <- struct{}{}\n\t\t}\n', '\t\tif !p.queue.try() {\n\t\t\tp.blockEvent(spanner, fcn, now)\n\t\t\tp.queue.acquire()\n\t\t}\n'), (L, 'defer func() { <-p.queue }()', 'defer p.queue.release()'), (L, '// New creates', '// slots are the slots of a Pool.\ntype slots chan struct{}\n\nfunc (s slots) try() bool {\n\tselect {\n\tcase s <- struct{}{}:\n\t\treturn true\n\tdefault:\n\t\treturn false\n\t}\n}\n\nfunc (s slots) acquire() { s <- struct{}{} }\nfunc (s slots) release() { <-s }\n\n// New creates')]),
 ('limited-job-first', POOLS, [(L, '\tp.wg.Add(1)\n\tp.running.Add(1)\n\n\tgo func() {\n\t\tdefer p.wg.Done()\n\t\tif !opts.NonBlocking {\n\t\t\t// The slot is held until the job is done, not just until it is started.\n\t\t\tdefer func() { <-p.queue }()\n\t\t}\n\t\tdefer p.running.Add(-1)\n\t\trunner(ctx)\n\t}()\n', '\tfinish := p.start()\n\tgo func() {\n\t\tdefer finish(!opts.NonBlocking)\n\t\trunner(ctx)\n\t}()\n'), (L, '// Submit submits the runner', '// start counts a job. The function it returns must be called when the job is done.\nfunc (p *Pool) start() func(slot bool) {\n\tp.wg.Add(1)\n\tp.running.Add(1)\n\treturn func(slot bool) {\n\t\tp.running.Add(-1)\n\t\tif slot {\n\t\t\t// The slot is held until the job is done, not just until it is started.\n\t\t\t<-p.queue\n\t\t}\n\t\tp.wg.Done()\n\t}\n}\n\n// Submit submits the runner')]),
 ('limited-rename', POOLS, [(L, 'p.queue', 'p.slots'), (L, '\tqueue     chan', '\tslots     chan'), (L, 'queue: make', 'slots: make'), (L, 'p.running', 'p.active'), (L, '\trunning   atomic', '\tactive    atomic'), (L, 'runner', 'job')]),
 ('limited-two-goroutines', POOLS, [(L, '\tgo func() {\n\t\tdefer p.wg.Done()\n\t\tif !opts.NonBlocking {\n\t\t\t// The slot is held until the job is done, not just until it is started.\n\t\t\tdefer func() { <-p.queue }()\n\t\t}\n\t\tdefer p.running.Add(-1)\n\t\trunner(ctx)\n\t}()\n', '\tif opts.NonBlocking {\n\t\tgo p.exec(ctx, runner)\n\t\treturn nil\n\t}\n\tgo func() {\n\t\t// The slot is held until the job is done, not just until it is started.\n\t\tdefer func() { <-p.queue }()\n\t\tp.exec(ctx, runner)\n\t}()\n'), (L, '// Submit submits the runner', '// exec executes a job that was counted.\nfunc (p *Pool) exec(ctx context.Context, job goroutines.Job) {\n\tdefer p.wg.Done()\n\tdefer p.running.Add(-1)\n\tjob(ctx)\n}\n\n// Submit submits the runner')]),
 ('pooled-rename', POOLS, [(P, 'p.queue', 'p.jobs'), (P, '\tqueue     chan', '\tjobs      chan'), (P, 'queue: ch', 'jobs: ch'), (P, 'p.running', 'p.active'), (P, '\trunning   atomic', '\tactive    atomic'), (P, 'p.runner()', 'p.work()'), (P, ') runner()', ') work()'), (P, '// runner is', '// work is')]),
 ('pooled-start-method', POOLS, [(P, '\tfor i := 0; i < size; i++ {\n\t\tgo p.runner()\n\t}\n\n\tfor {\n\t\tif err := register.Register(p); err != nil {\n\t\t\tp.name = register.NewName(p.name)\n\t\t\tcontinue\n\t\t}\n\t\tbreak\n\t}\n\treturn p, nil\n', '\tp.start()\n\tfor register.Register(p) != nil {\n\t\tp.setName(register.NewName(p.GetName()))\n\t}\n\treturn p, nil\n'), (P, '// Close waits for all', '// start starts the goroutines.\nfunc (p *Pool) start() {\n\tfor n := p.size; n > 0; n-- {\n\t\tgo p.runner()\n\t}\n}\n\n// Close waits for all')]),
 ('pooled-submit-exec', POOLS, [(P, 'type submit struct {\n\tctx context.Context\n\tjob goroutines.Job\n}\n', 'type submit struct {\n\tctx  context.Context\n\tjob  goroutines.Job\n\tpool *Pool\n}\n\n// run runs the job.\nfunc (s submit) run() {\n\tdefer s.pool.wg.Done()\n\tdefer s.pool.running.Add(-1)\n\ts.job(s.ctx)\n}\n'), (P, 'submit{ctx: ctx, job: runner}', 'submit{ctx: ctx, job: runner, pool: p}'), (P, '\t\t\tgo func() {\n\t\t\t\tdefer p.wg.Done()\n\t\t\t\tdefer p.running.Add(-1)\n\t\t\t\ts.job(ctx)\n\t\t\t}()\n', '\t\t\tgo s.run()\n'), (P, '\t\ts.job(s.ctx)\n\t\tp.running.Add(-1)\n\t\tp.wg.Done()\n', '\t\ts.run()\n')]),
 ('errors-copy', 'C07', [(G, '\treturn append([]error(nil), e.errors...)\n', '\tif e.errors == nil {\n\t\treturn nil\n\t}\n\terrs := make([]error, len(e.errors))\n\tcopy(errs, e.errors)\n\treturn errs\n')]),
 ('errors-full-slice', 'C07', [(G, '\tdefer e.mu.Unlock()\n\n\te.errors = append(e.errors, err)\n', '\terrs := e.errors\n\terrs = append(errs, err)\n\te.errors = errs\n\te.mu.Unlock()\n'), (G, '\tif len(e.errors) == 0 {\n\t\treturn nil\n\t}\n\treturn e.errors[0]\n', '\tfor _, err := range e.errors {\n\t\treturn err\n\t}\n\treturn nil\n')]),
 ('errors-first-helper', 'C07', [(G, '\te.mu.Lock()\n\tdefer e.mu.Unlock()\n\n\tif len(e.errors) == 0 {\n\t\treturn nil\n\t}\n\treturn e.errors[0]\n', '\tif errs := e.Errors(); len(errs) > 0 {\n\t\treturn errs[0]\n\t}\n\treturn nil\n')]),
 ('wait-submit-func', WAIT, [(W, '\tif w.Pool == nil {\n\t\tw.wg.Add(1)\n\t\tgo func() {\n\t\t\tdefer w.wg.Done()\n\t\t\tdefer w.count.Add(-1)\n\n\t\t\tif ctx.Err() != nil {\n\t\t\t\tapplyErr(&w.errors, ctx.Err())\n\t\t\t\treturn\n\t\t\t}\n\n\t\t\tif err := f(ctx); err != nil {\n\t\t\t\tapplyErr(&w.errors, err)\n\t\t\t\tif w.CancelOnErr != nil {\n\t\t\t\t\tw.CancelOnErr()\n\t\t\t\t}\n\t\t\t}\n\t\t}()\n\t\treturn\n\t}\n\n\tw.wg.Add(1)\n\tw.Pool.Submit(\n\t\tctx,\n\t\tfunc(ctx context.Context) {\n\t\t\tdefer w.wg.Done()\n\t\t\tdefer w.count.Add(-1)\n\n\t\t\tif ctx.Err() != nil {\n\t\t\t\tapplyErr(&w.errors, ctx.Err())\n\t\t\t\treturn\n\t\t\t}\n\n\t\t\tif err := f(ctx); err != nil {\n\t\t\t\tapplyErr(&w.errors, err)\n\t\t\t\tif w.CancelOnErr != nil {\n\t\t\t\t\tw.CancelOnErr()\n\t\t\t\t}\n\t\t\t}\n\t\t},\n\t\tw.PoolOptions...,\n\t)\n}\n', '\tw.wg.Add(1)\n\tw.spawn(ctx, func(ctx context.Context) {\n\t\tdefer w.wg.Done()\n\t\tdefer w.count.Add(-1)\n\n\t\terr := ctx.Err()\n\t\tif err != nil {\n\t\t\tapplyErr(&w.errors, err)\n\t\t\treturn\n\t\t}\n\n\t\terr = f(ctx)\n\t\tif err == nil {\n\t\t\treturn\n\t\t}\n\t\tapplyErr(&w.errors, err)\n\t\tif w.CancelOnErr == nil {\n\t\t\treturn\n\t\t}\n\t\tw.CancelOnErr()\n\t})\n}\n\n// spawn runs job in the Pool or, if there is none, in a goroutine.\nfunc (w *Group) spawn(ctx context.Context, job goroutines.Job) {\n\tif p := w.Pool; p != nil {\n\t\tp.Submit(ctx, job, w.PoolOptions...)\n\t\treturn\n\t}\n\tgo job(ctx)\n}\n')]),
 ('wait-rename', WAIT, [(W, 'w.count', 'w.active'), (W, '\tcount  atomic', '\tactive atomic'), (W, 'w.errors', 'w.failed'), (W, '\terrors atomic', '\tfailed atomic'), (W, 'applyErr(', 'record('), (W, 'w.otelOnce', 'w.once'), (W, '\totelOnce sync', '\tonce     sync'), (W, 'waitOTELStart', 'waitStart')]),
 ('wait-record-method', WAIT, [(W, 'applyErr(&w.errors, ', 'w.record('), (W, 'func applyErr(', '// record records an error.\nfunc (w *Group) record(err error) { applyErr(&w.errors, err) }\n\nfunc applyErr(')]),
 ('wait-result', WAIT, [(W, '\tif w.CancelOnErr != nil {\n\t\tw.CancelOnErr()\n\t\tw.CancelOnErr = nil\n\t}\n\terr := w.errors.Load()\n\tif err != nil {\n\t\tw.span.Error(*err)\n\t\treturn *err\n\t}\n\treturn nil\n}\n', '\tw.cancel()\n\treturn w.result()\n}\n\n// cancel releases the Context.\nfunc (w *Group) cancel() {\n\tcancel := w.CancelOnErr\n\tif cancel == nil {\n\t\treturn\n\t}\n\tw.CancelOnErr = nil\n\tcancel()\n}\n\n// result returns the error of the Group.\nfunc (w *Group) result() (err error) {\n\tif e := w.errors.Load(); e != nil {\n\t\terr = *e\n\t\tw.span.Error(err)\n\t}\n\treturn err\n}\n')]),
 ('wait-applyerr3', WAIT, [(W, '\t\texisting := ptr.Load()\n\t\tif existing == nil {\n\t\t\tif ptr.CompareAndSwap(nil, &err) {\n\t\t\t\treturn\n\t\t\t}\n\t\t} else {\n\t\t\t', '\t\texisting := ptr.Load()\n\t\tnext := err\n\t\tif existing != nil {\n\t\t\t'), (W, '\t\t\tjoined := errors.Join(*existing, err)\n\t\t\tif ptr.CompareAndSwap(existing, &joined) {\n\t\t\t\treturn\n\t\t\t}\n\t\t}\n', '\t\t\tnext = errors.Join(*existing, err)\n\t\t}\n\t\tif ptr.CompareAndSwap(existing, &next) {\n\t\t\treturn\n\t\t}\n')]),
 ('atomics-locked', 'C11', [(A, '\tr.mu.Lock()\n\tdefer r.mu.Unlock()\n\tr.v.Store(&v)\n', '\tr.locked(func() error {\n\t\tr.v.Store(&v)\n\t\treturn nil\n\t})\n'), (A, '\tr.mu.Lock()\n\tdefer r.mu.Unlock()\n\n\tv := r.v.Load()\n\tif v == nil {\n\t\tv = new(T)\n\t}\n\tn, err := lr(*v)\n\tif err != nil {\n\t\treturn err\n\t}\n\tr.v.Store(&n)\n\treturn nil\n}\n', '\treturn r.locked(func() error {\n\t\tn, err := lr(r.Load())\n\t\tif err == nil {\n\t\t\tr.v.Store(&n)\n\t\t}\n\t\treturn err\n\t})\n}\n\n// locked calls f while holding the lock.\nfunc (r *RWValue[T]) locked(f func() error) error {\n\tr.mu.Lock()\n\tdefer r.mu.Unlock()\n\treturn f()\n}\n')]),
 ('atomics-via-store', 'C11', [(A, '\tr.mu.Lock()\n\tdefer r.mu.Unlock()\n\tr.v.Store(&v)\n', '\tp := new(T)\n\t*p = v\n\tr.mu.Lock()\n\tr.v.Store(p)\n\tr.mu.Unlock()\n')]),
 ('queue-limit-methods', 'C22', [(Q, '\tif q.limit != nil {\n\t\tq.limit <- struct{}{}\n\t}\n', '\tq.acquire()\n'), (Q, '\t\t\tif q.limit != nil {\n\t\t\t\t<-q.limit\n\t\t\t}\n', '\t\t\tq.release()\n'), (Q, 'type simple[A any] struct {\n\thead ', '// acquire takes a place in the queue.\nfunc (q *Queue[A]) acquire() {\n\tif q.limit == nil {\n\t\treturn\n\t}\n\tq.limit <- struct{}{}\n}\n\n// release frees a place in the queue.\nfunc (q *Queue[A]) release() {\n\tif q.limit == nil {\n\t\treturn\n\t}\n\t<-q.limit\n}\n\ntype simple[A any] struct {\n\thead ')]),
 ('queue-wait-loop', 'C22', [(Q, '\t\ta, ok := q.queue.pop()\n\t\tif ok {\n', '\t\tif val, ok = q.queue.pop(); ok {\n'), (Q, '\t\t\treturn a, ok\n\t\t}\n\n', '\t\t\treturn val, true\n\t\t}\n\n'), (Q, '\t\tif closed {\n\t\t\treturn val, true\n', '\t\tif closed {\n\t\t\treturn val, false\n')]),
 ('stats-embedded', 'C21 C18 C24', [(ST, '\tingestStats *ingestStats\n', '\tingestStats ingestStats\n'), (ST, '\ts := &stats{ingestStats: &ingestStats{}}\n', '\ts := &stats{}\n')]),
 ('stats-entry-helper', PIPE, [(SP, '\tp.stats.running.Add(1)\n\tsetMin(&p.stats.ingestStats.min, int64(queuedTime))\n\tsetMax(&p.stats.ingestStats.max, int64(queuedTime))\n\tp.stats.ingestStats.avgTotal.Add(int64(queuedTime))\n', '\tp.stats.running.Add(1)\n\tp.stats.ingestStats.add(queuedTime)\n'), (ST, 'func (i *ingestStats) toIngestStats', '// add adds the time that a Request was queued.\nfunc (i *ingestStats) add(d time.Duration) {\n\tv := int64(d)\n\ti.avgTotal.Add(v)\n\tsetMax(&i.max, v)\n\tsetMin(&i.min, v)\n}\n\nfunc (i *ingestStats) toIngestStats')]),
 ('seen-struct', PIPE, [(SP, 'type seenStages []string', 'type seenStages struct{ names []string }'), (SP, 'range *s {', 'range s.names {'), (SP, '\tn := append(*s, stage)\n\t*s = n\n', '\ts.names = append(s.names, stage)\n'), (SP, '\tn := (*s)[:0]\n\ts = &n\n\treturn s\n', '\treturn &seenStages{names: s.names[:0]}\n')]),
 ('request-recording', PIPE, [(SP, 'r.span.Span == nil || !r.span.Span.IsRecording()', '!recording(r.span)'), (SP, '// Requests is a Request', '// recording says if a span records events.\nfunc recording(s span.Span) bool {\n\treturn s.Span != nil && s.Span.IsRecording()\n}\n\n// Requests is a Request')]),
 ('group-track2', PIPE, [(SP, "\t// This let's the Pipelines object know it is receiving a new Request to process.\n\tr.p.wg.Add(1)\n\t// This tracks the request in the RequestGroup.\n\tr.wg.Add(1)\n", '\tr.begin()\n'), (SP, '\t\tr.p.wg.Done()\n\t\tr.wg.Done()\n', '\t\tr.end()\n'), (SP, '\t\t\t\tr.wg.Done()\n\t\t\t\tp.wg.Done()\n', '\t\t\t\tr.end()\n'), (SP, '// Out returns', '// begin counts a Request.\nfunc (r *RequestGroup[T]) begin() {\n\tr.p.wg.Add(1)\n\tr.wg.Add(1)\n}\n\n// end is the opposite of begin.\nfunc (r *RequestGroup[T]) end() {\n\tr.wg.Done()\n\tr.p.wg.Done()\n}\n\n// Out returns')]),
 ('group-lock-turn', PIPE, [(SP, '\tif r.ordered != nil {\n\t\tselect {\n\t\tcase <-req.Ctx.Done():\n\t\t\treturn req.Ctx.Err()\n\t\tcase r.submitting <- struct{}{}:\n\t\t}\n\t\tdefer func() { <-r.submitting }()\n\t}\n', '\tif r.ordered != nil {\n\t\tif err := r.turn(req.Ctx); err != nil {\n\t\t\treturn err\n\t\t}\n\t\tdefer r.turnDone()\n\t}\n'), (SP, '// Out returns', '// turn waits until no other Request is submitted.\nfunc (r *RequestGroup[T]) turn(ctx context.Context) error {\n\tselect {\n\tcase r.submitting <- struct{}{}:\n\t\treturn nil\n\tcase <-ctx.Done():\n\t\treturn ctx.Err()\n\t}\n}\n\nfunc (r *RequestGroup[T]) turnDone() { <-r.submitting }\n\n// Out returns')]),
 ('group-output-func', PIPE, [(SP, '\t\tgo func() {\n\t\t\tdefer r.ordered.Close()\n\t\t\tfor req := range r.out {\n\t\t\t\tr.wg.Done()\n\t\t\t\tp.wg.Done()\n\t\t\t\treq.otelEnd()\n\t\t\t\tif err := r.ordered.Add(req); err != nil {\n\t\t\t\t\tpanic("bug: ordered demuxer returned an error")\n\t\t\t\t}\n\t\t\t}\n\t\t}()\n\t} else { // No output order is required.\n\t\tgo func() {\n\t\t\tdefer close(r.user)\n\t\t\tfor req := range r.out {\n\t\t\t\tr.wg.Done()\n\t\t\t\tp.wg.Done()\n\t\t\t\treq.otelEnd()\n\t\t\t\tr.user <- req\n\t\t\t}\n\t\t}()\n\t}\n\n\treturn &r\n}\n', '\t\tgo r.forward(\n\t\t\tfunc(req Request[T]) {\n\t\t\t\tif err := r.ordered.Add(req); err != nil {\n\t\t\t\t\tpanic("bug: ordered demuxer returned an error")\n\t\t\t\t}\n\t\t\t},\n\t\t\tfunc() { r.ordered.Close() },\n\t\t)\n\t\treturn &r\n\t}\n\n\t// No output order is required.\n\tgo r.forward(\n\t\tfunc(req Request[T]) { r.user <- req },\n\t\tfunc() { close(r.user) },\n\t)\n\treturn &r\n}\n\n// forward gives each Request of the RequestGroup to emit. When there are no more, it calls done.\nfunc (r *RequestGroup[T]) forward(emit func(Request[T]), done func()) {\n\tdefer done()\n\tfor req := range r.out {\n\t\tr.wg.Done()\n\t\tr.p.wg.Done()\n\t\treq.otelEnd()\n\t\temit(req)\n\t}\n}\n')]),
 ('runner-emit', PIPE, [(SP, '\tfor r := range p.in {\n\t\tr = r.otelStart()\n\t\tr = p.processReq(r)\n\t\tp.calcExitStats(r)\n\t\tif p.delayWarning != 0 {\n\t\t\tfor {\n\t\t\t\ttick.Reset(p.delayWarning)\n\t\t\t\tselect {\n\t\t\t\tcase p.out <- r:\n\t\t\t\tcase <-tick.C:\n\t\t\t\t\tlog.Printf("pipeline(%s) is having output delays exceeding %v", id, p.delayWarning)\n\t\t\t\t\tcontinue\n\t\t\t\t}\n\t\t\t\tbreak\n\t\t\t}\n\t\t} else {\n\t\t\tp.out <- r\n\t\t}\n\t}\n}\n', '\temit := func(r Request[T]) { p.out <- r }\n\tif tick != nil {\n\t\temit = func(r Request[T]) {\n\t\t\tfor sent := false; !sent; {\n\t\t\t\ttick.Reset(p.delayWarning)\n\t\t\t\tselect {\n\t\t\t\tcase p.out <- r:\n\t\t\t\t\tsent = true\n\t\t\t\tcase <-tick.C:\n\t\t\t\t\tlog.Printf("pipeline(%s) is having output delays exceeding %v", id, p.delayWarning)\n\t\t\t\t}\n\t\t\t}\n\t\t}\n\t}\n\tfor r := range p.in {\n\t\temit(p.handle(r))\n\t}\n}\n\n// handle sends a Request through the Stages.\nfunc (p *pipeline[T]) handle(r Request[T]) Request[T] {\n\tr = p.processReq(r.otelStart())\n\tp.calcExitStats(r)\n\treturn r\n}\n')]),
 ('process-while', PIPE, [(SP, '\tstage, name := p.sm.Start, startName(p.sm)\n\tfor {\n\t\tr = p.execStage(r, stage, name)\n\t\tif r.Err != nil {\n\t\t\treturn r\n\t\t}\n\t\tstage = r.Next\n\t\tr.Next = nil\n\n\t\tif stage == nil {\n\t\t\treturn r\n\t\t}\n\t\tname = methodName(stage)\n\t}\n}\n', '\tr = p.execStage(r, p.sm.Start, startName(p.sm))\n\tfor r.Err == nil {\n\t\tnext := r.Next\n\t\tif r.Next = nil; next == nil {\n\t\t\tbreak\n\t\t}\n\t\tr = p.execStage(r, next, methodName(next))\n\t}\n\treturn r\n}\n')]),
 ('exec-guard', PIPE, [(SP, '\tif r.seenStages != nil {\n\t\tif r.seenStages.seen(stageName) {\n\t\t\tr.Err = Error{Type: cyclicErr, Msg: r.seenStages.callTrace()}\n\t\t\treturn r\n\t\t}\n\t}\n\n\tfor _, pp := range p.preProcessors {\n\t\tr = pp(r)\n\t\tif r.Err != nil {\n\t\t\treturn r\n\t\t}\n\t}\n\treturn stage(r)\n}\n', '\tif err := r.cyclic(stageName); err != nil {\n\t\tr.Err = err\n\t\treturn r\n\t}\n\n\ti := 0\n\tfor i < len(p.preProcessors) {\n\t\tif r = p.preProcessors[i](r); r.Err != nil {\n\t\t\treturn r\n\t\t}\n\t\ti++\n\t}\n\treturn stage(r)\n}\n\n// cyclic records that the Request is in a Stage and returns an error if it was there before.\nfunc (r Request[T]) cyclic(stageName string) error {\n\tif r.seenStages == nil || !r.seenStages.seen(stageName) {\n\t\treturn nil\n\t}\n\treturn Error{Type: cyclicErr, Msg: r.seenStages.callTrace()}\n}\n')]),
 ('new-start-workers', PIPE, [(SP, '\tfor i := 0; i < p.concurrency; i++ {\n\t\tgo p.runner()\n\t}\n\n\treturn p, nil\n}\n', '\tp.start()\n\treturn p, nil\n}\n\n// start starts the workers.\nfunc (p *pipeline[T]) start() {\n\tfor range p.concurrency {\n\t\tgo p.runner()\n\t}\n}\n')]),
 ('new-append', PIPE, [(SP, '\t\t_, err := newPipeline(args)\n\t\tif err != nil {\n\t\t\tclose(in)\n\t\t\treturn nil, err\n\t\t}\n\t}\n', '\t\tpl, err := newPipeline(args)\n\t\tif err != nil {\n\t\t\tclose(in)\n\t\t\treturn nil, err\n\t\t}\n\t\tpipelines = append(pipelines, pl)\n\t}\n')]),
 ('pipe-rename', PIPE, [(SP, 'execStage(', 'runStage('), (SP, 'processReq(', 'process('), (SP, 'calcExitStats(', 'finish('), (SP, 'r.submitting', 'r.turn'), (SP, '\tsubmitting chan', '\tturn       chan'), (SP, '\t\tsubmitting: make', '\t\tturn:       make'), (SP, 'p.demuxMu', 'p.mu'), (SP, '\tdemuxMu sync', '\tmu      sync')]),
 ('slices-named-options', WAIT, [(S, 'func(ctx context.Context) error {\n\t\t\t\treturn access(ctx, i, s[i], func(v T) { modifier(s, i, v) })\n\t\t\t},\n', 'func(ctx context.Context) error {\n\t\t\t\treturn access(ctx, i, s[i], setter(s, i))\n\t\t\t},\n'), (S, '// SliceOption is an option', '// setter returns a function that sets s[i].\nfunc setter[T any](s []T, i int) func(T) {\n\treturn func(v T) { modifier(s, i, v) }\n}\n\n// SliceOption is an option')]),
]
