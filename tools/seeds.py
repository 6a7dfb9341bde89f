# The planted bugs. Each is written from the text of its property; see mkseed.py.
L='goroutines/limited/goroutines.go'; PO='goroutines/pooled/goroutines.go'; G='goroutines/goroutines.go'
R='goroutines/internal/register/register.go'; W='prim/wait/wait.go'; S='prim/slices/slice.go'; SO='prim/slices/options.go'
C='prim/chans/chans.go'; CO='prim/chans/options.go'; A='prim/atomics/atomics.go'
SP='pipelines/stagedpipe/stagedpipe.go'; ST='pipelines/stagedpipe/stats.go'; Q='pipelines/stagedpipe/internal/queue/queue.go'
PT='goroutines/pools_verif_test.go'; WT='wait/wait_verif_test.go'; SLT='slices/slices_verif_test.go'; CT='chans/chans_verif_test.go'
AT='atomics/atomics_verif_test.go'; QT='queue/queue_verif_test.go'; BT='../bounded/stagedpipe/stagedpipe_verif_test.go'; SPT='stagedpipe/stagedpipe_verif_test.go'
SEEDS = [
 dict(id='c01-cancelled-submit', property='C01', test=PT, run='TestC01',
  needs='a pool with all slots taken and a Submit whose Context is cancelled',
  breaks='the job of a cancelled Submit runs without a slot and gives back the slot of another job when it ends',
  edits=[(L, '''			p.blockEvent(spanner, fcn, now)
			p.queue <- struct{}{}
''', '''			p.blockEvent(spanner, fcn, now)
			select {
			case p.queue <- struct{}{}:
			case <-ctx.Done():
			}
''')]),
 dict(id='c04-uses-capacity', property='C04', test=PT, run='TestC04',
  needs='NonBlocking jobs that are still running when blocking jobs are submitted',
  breaks='NonBlocking jobs use up capacity of a limited pool if there is some left',
  edits=[(L, '''	if !opts.NonBlocking {
		select {
		case p.queue <- struct{}{}:
		default:
			p.blockEvent(spanner, fcn, now)
			p.queue <- struct{}{}
		}
	}
''', '''	slot := true
	select {
	case p.queue <- struct{}{}:
	default:
		if opts.NonBlocking {
			slot = false
		} else {
			p.blockEvent(spanner, fcn, now)
			p.queue <- struct{}{}
		}
	}
'''), (L, '''		if !opts.NonBlocking {
			// The''', '''		if slot {
			// The''')]),
 dict(id='c07-duplicates', property='C07', test=PT, run='TestC07',
  needs='the same error recorded twice in a row',
  breaks='an error that equals the one recorded before is not recorded',
  edits=[(G, '''	e.errors = append(e.errors, err)
''', '''	if n := len(e.errors); n > 0 && e.errors[n-1] == err {
		return
	}
	e.errors = append(e.errors, err)
''')]),
 dict(id='c09-wrapped-cancel', property='C09', test=WT, run='TestC09',
  needs='a second error that wraps context.Canceled',
  breaks='errors that wrap a cancellation are dropped though they say more than that',
  edits=[(W, '''			switch err {
			case context.Canceled, context.DeadlineExceeded:
				return
			}
''', '''			if errors.Is(err, context.Canceled) || errors.Is(err, context.DeadlineExceeded) {
				return
			}
''')]),
 dict(id='c10-reset-on-success', property='C10', test=WT, run='TestC10',
  needs='a Group that is used again after a use that failed',
  breaks='the error of an earlier use is returned by the next Wait',
  edits=[(W, '''	w.errors.Store(nil)
	w.CancelOnErr = nil
''', '''	w.CancelOnErr = nil
'''), (W, '''		w.span.Error(*err)
		return *err
	}
	return nil
''', '''		w.span.Error(*err)
		return *err
	}
	w.errors.Store(nil)
	return nil
''')]),
 dict(id='c11-store-without-lock', property='C11', test=AT, run='TestC11',
  needs='a Store while the function of a LoadReplace is running',
  breaks='a Store that completed is overwritten by a LoadReplace that had read an older value',
  edits=[(A, '''func (r *RWValue[T]) Store(v T) {
	r.mu.Lock()
	defer r.mu.Unlock()
''', '''func (r *RWValue[T]) Store(v T) {
''')]),
 dict(id='c12-return-early', property='C12', test=SLT, run='TestC12',
  needs='a Context that is cancelled while Accessors are running',
  breaks='Access returns while Accessors are still running on the slice',
  edits=[(S, '''	if err := wg.Wait(ctx); err != nil {
''', '''	if ctxErr != nil && !opts.stopOnErr {
		return ctxErr
	}
	if err := wg.Wait(ctx); err != nil {
''')]),
 dict(id='c13-stop-with-pool', property='C13', test=CT, run='TestC13',
  needs='WithStopOnErr together with WithPoolOptions',
  breaks='WithStopOnErr has no effect if a pool is given as well',
  edits=[(C, '''	var cancel = func() {}
	if opts.stopOnErr {
''', '''	var cancel = func() {}
	if opts.stopOnErr && opts.poolOptions == nil && opts.pool.Len() == runtime.NumCPU() {
''')]),
 dict(id='c14-skips-wait', property='C14', test=CT, run='TestC14Cancel',
  needs='a Context that is cancelled while an Accessor is running in a given pool',
  breaks='Access returns while Accessors are running',
  edits=[(C, '''	if err := wg.Wait(ctx); err != nil {
		spanner''', '''	if ctxErr != nil && !opts.stopOnErr {
		spanner.Error(ctxErr)
		return ctxErr
	}
	if err := wg.Wait(ctx); err != nil {
		spanner''')]),
 dict(id='c15-drops-value', property='C15', test=CT, run='TestC15',
  needs='a Context that is cancelled while a result waits to be sent',
  breaks='a result of the Modifier is dropped if the Context is cancelled',
  edits=[(C, '''		output <- StreamResult[R]{Value: r}
		return nil
''', '''		select {
		case <-ctx.Done():
		case output <- StreamResult[R]{Value: r}:
		}
		return nil
''')]),
 dict(id='c02-earlier-option', property='C02', test=PT, run='TestC02',
  needs='two options of which the first one fails and the last one does not',
  breaks='a job is executed though one of its options failed, as only the error of the last option counts',
  edits=[(L, '''		opts, err = o(opts)
		if err != nil {
			spanner.Error(err)
			return err
		}
	}
''', '''		opts, err = o(opts)
	}
	if err != nil {
		spanner.Error(err)
		return err
	}
''')]),
 dict(id='c03-late-add', property='C03', test=PT, run='TestC03Late',
  needs='Wait called before the goroutine of a NonBlocking job was scheduled',
  breaks='Wait and Close return while a NonBlocking job is still to run',
  edits=[(L, '''	p.wg.Add(1)
	p.running.Add(1)

	go func() {
		defer p.wg.Done()
		if !opts.NonBlocking {
''', '''	if !opts.NonBlocking {
		p.wg.Add(1)
	}
	p.running.Add(1)

	go func() {
		if opts.NonBlocking {
			p.wg.Add(1)
		}
		defer p.wg.Done()
		if !opts.NonBlocking {
''')]),
 dict(id='c05-counts-refused', property='C05', test=PT, run='TestC05',
  needs='a Submit with an option that fails',
  breaks='a refused job is counted as running for ever',
  edits=[(PO, '''	opts := pool.SubmitOptions{Type: pool.PTPooled}
	var err error
''', '''	p.running.Add(1)
	opts := pool.SubmitOptions{Type: pool.PTPooled}
	var err error
'''), (PO, '''	p.wg.Add(1)
	p.running.Add(1)
	if opts''', '''	p.wg.Add(1)
	if opts''')]),
 dict(id='c08-skips-silently', property='C08', test=WT, run='TestC08',
  needs='CancelOnErr set and a Context cancelled before the function had its turn, without another error',
  breaks='a function is skipped without an error',
  edits=[(W, '''			defer w.wg.Done()
			defer w.count.Add(-1)

			if ctx.Err() != nil {
				applyErr(&w.errors, ctx.Err())
				return
			}

			if err := f(ctx); err != nil {
				applyErr(&w.errors, err)
				if w.CancelOnErr != nil {
					w.CancelOnErr()
				}
			}
		}()
		return
''', '''			defer w.wg.Done()
			defer w.count.Add(-1)

			if ctx.Err() != nil {
				if w.CancelOnErr == nil {
					applyErr(&w.errors, ctx.Err())
				}
				return
			}

			if err := f(ctx); err != nil {
				applyErr(&w.errors, err)
				if w.CancelOnErr != nil {
					w.CancelOnErr()
				}
			}
		}()
		return
''')]),
 dict(id='c21-lost-completed', property='C21', test=SPT, run='TestC21Many',
  needs='two Requests that end at the same time',
  breaks='Completed misses Requests',
  edits=[(SP, '''	p.stats.completed.Add(1)
''', '''	completed := p.stats.completed.Load()
	p.stats.running.Add(-1)
	p.stats.completed.Store(completed + 1)
'''), (SP, '''	p.stats.running.Add(-1)
	completed''', '''	completed''')]),
 dict(id='c22-pop-twice', property='C22', test=QT, run='TestC22',
  needs='two Pops at the same time',
  breaks='a value is popped twice',
  edits=[(Q, '''			if s.head.CompareAndSwap(h, n) {
				return n.val, true
			} else {
				continue
			}
''', '''			if s.head.Load() == h {
				s.head.Store(n)
				return n.val, true
			} else {
				continue
			}
''')]),
 dict(id='c16-preprocessor-err', property='C16', test=SPT, run='TestC16PreProcessorErr',
  needs='a PreProcessor that sets Err',
  breaks='the Stage is run although a PreProcessor set Err',
  edits=[(SP, '''		r = pp(r)
		if r.Err != nil {
			return r
		}
''', '''		r = pp(r)
		if r.Err != nil {
			break
		}
''')]),
 dict(id='c16-earlier-next', property='C16', test=SPT, run='TestC16',
  needs='a Stage that does not set Next after one that did, with more than one PreProcessor',
  breaks='Next of the Stage before is still set, so that Stage runs again',
  edits=[(SP, '''	for _, pp := range p.preProcessors {
		r = pp(r)
		if r.Err != nil {
			return r
		}
	}
''', '''	next := r.Next
	for _, pp := range p.preProcessors {
		r = pp(r)
		if r.Err != nil {
			return r
		}
		if len(p.preProcessors) > 1 {
			r.Next = next
		}
	}
'''), (SP, '''		r.Next = nil

		if stage == nil {''', '''
		if stage == nil {''')]),
 dict(id='c24-last-object', property='C24', test=SPT, run='TestC24',
  needs='CountSubStages with several objects, or given twice',
  breaks='only the Stages of the last object are counted',
  edits=[(SP, '''			pipelines.subStages += numStages[T](obj)
''', '''			pipelines.subStages = max(pipelines.subStages, numStages[T](obj))
''')]),
 dict(id='c24-option-error', property='C24', test=SPT, run='TestC24',
  needs='an option that fails followed by one that does not',
  breaks='New ignores the failure',
  edits=[(SP, '''	for _, o := range options {
		if err := o(p); err != nil {
			return nil, err
		}
	}
''', '''	for _, o := range options {
		err = o(p)
	}
	if err != nil {
		return nil, err
	}
''')]),
 dict(id='c17-start-forgotten', property='C17', test=SPT, run='TestC17',
  needs='a Request that goes back to the first Stage after others',
  breaks='the first Stage is not compared with, so it runs again',
  edits=[(SP, '''	for _, st := range *s {
		if st == stage {
			return true
		}
	}
''', '''	for i := len(*s) - 1; i > 0; i-- {
		if (*s)[i] == stage {
			return true
		}
	}
''')]),
 dict(id='c17-base-name', property='C17', test=BT, run='TestC17',
  needs='Stages of two types that have the same name',
  breaks='different Stages are taken for the same one, so a Request without a cycle fails',
  edits=[(SP, '''	for _, st := range *s {
		if st == stage {
''', '''	stage = stage[strings.LastIndexByte(stage, '.')+1:]
	for _, st := range *s {
		if st == stage {
''')]),
 dict(id='c17-stale-stages', property='C17', test=SPT, run='TestC17',
  needs='a Request that went through DAG pipelines before another one',
  breaks='the Stages of an earlier Request count for the next one',
  edits=[(SP, '''	n := (*s)[:0]
	s = &n
	return s
''', '''	n := (*s)[:0]
	if len(*s) < 2 {
		n = *s
	}
	s = &n
	return s
''')]),
 dict(id='c18-drops-cancelled', property='C18', test=SPT, run='TestC18',
  needs='a Request whose Context is cancelled after Submit accepted it',
  breaks='the Request is not output',
  edits=[(SP, '''				req.otelEnd()
				r.user <- req
''', '''				req.otelEnd()
				if req.Err != nil && req.Err == req.Ctx.Err() {
					continue // nobody waits for it any more
				}
				r.user <- req
''')]),
 dict(id='c18-same-number', property='C18', test=SPT, run='TestC18Create',
  needs='two calls of NewRequestGroup at the same time',
  breaks='two RequestGroups get the same number, so that one gets the Requests of both',
  edits=[(SP, '''	id := p.requestGroupNum.Add(1)
''', '''	id := p.requestGroupNum.Load() + 1
	p.requestGroupNum.Store(id)
''')]),
 dict(id='c19-number-first', property='C19', test=SPT, run='TestC19',
  needs='Submits of the same RequestGroup at the same time, one of them cancelled while it waits for its turn',
  breaks='the number of the cancelled Request is missing, so everything after it is held back',
  edits=[(SP, '''	gName := r.Name

''', '''	gName := r.Name
	num := r.itemNum.Add(1) - 1

'''), (SP, '''	req.itemNum = r.itemNum.Add(1) - 1 // This must start at 0.
''', '''	req.itemNum = num
''')]),
 dict(id='c19-errors-first', property='C19', test=SPT, run='TestC19',
  needs='a Request that fails in ordered Pipelines',
  breaks='it is output before the ones that were submitted before it, and those after it never',
  edits=[(SP, '''				req.otelEnd()
				if err := r.ordered.Add(req); err != nil {
''', '''				req.otelEnd()
				if req.Err != nil {
					r.user <- req // nothing to wait for
					continue
				}
				if err := r.ordered.Add(req); err != nil {
''')]),
 dict(id='c20-refused-counted', property='C20', test=SPT, run='TestC20',
  needs='a Submit that is cancelled while it waits',
  breaks='the Pipelines wait for the Request that was refused, and never close the StateMachine',
  edits=[(SP, '''		r.p.wg.Done()
		r.wg.Done()
		return req.Ctx.Err()
''', '''		r.wg.Done()
		return req.Ctx.Err()
''')]),
 dict(id='c20-closed-early', property='C20', test=SPT, run='TestC20',
  needs='Requests that are in a Stage when Pipelines.Close is called',
  breaks='the StateMachine is closed while they are processed',
  edits=[(SP, '''	go func() {
		p.wg.Wait()
		close(p.out)
		p.sm.Close()
	}()
''', '''	go func() {
		defer close(p.out)
		defer p.wg.Wait()
		p.sm.Close()
	}()
''')]),
 dict(id='c23-unmarshalable', property='C23', test=SPT, run='TestC23Data',
  needs='Data that package json cannot marshal',
  breaks='the span of the Request is never ended',
  edits=[(SP, '''	r.span.Event(
		"processing end",
		"data", *(*string)(unsafe.Pointer(&j)),
		"elapsed_ns", time.Since(r.queueTime),
	)
	r.span.End()
''', '''	if err := r.span.Event(
		"processing end",
		"data", *(*string)(unsafe.Pointer(&j)),
		"elapsed_ns", time.Since(r.queueTime),
	); err == nil && j[0] != 'E' {
		r.span.End()
	}
''')]),
 dict(id='c23-span-first', property='C23', test=SPT, run='TestC23',
  needs='ordered Pipelines and a Submit that is cancelled while it waits for its turn',
  breaks='the span of the Request that was refused is never ended',
  edits=[(SP, '''	// Create a child context with a new child span for the request.
	ctx, spanner := span.New(req.Ctx, fmt.Sprintf("stagedpipe.RequestGroup(%s).Request(%d)", gName, req.itemNum))
	req.Ctx = ctx
	req.span = spanner

''', ''), (SP, '''		r.otelStart()
	})

''', '''		r.otelStart()
	})

	// Create a child context with a new child span for the request.
	ctx, spanner := span.New(req.Ctx, fmt.Sprintf("stagedpipe.RequestGroup(%s).Request(%d)", gName, r.itemNum.Load()))
	req.Ctx = ctx
	req.span = spanner

''')]),
 dict(id='c23-second-context', property='C23', test=WT, run='TestC23',
  needs='Go calls of the same Group with Contexts that have different spans',
  breaks='the Group starts another span, and the first one is never ended',
  edits=[('prim/wait/wait.go', '''	t := time.Now().UTC()
	if w.span.Span != nil {
''', '''	t := time.Now().UTC()
	if own := span.Get(ctx); own.IsRecording() && w.total.Load() > 0 && own.Span != w.parent.Span {
		w.parent = own
		ctx, w.span = span.New(ctx, fmt.Sprintf("wait(%s)", w.Name))
	}
	if w.span.Span != nil {
'''), ('prim/wait/wait.go', '''			w.start = time.Now().UTC()

''', '''			w.start = time.Now().UTC()
			w.parent = spanner

'''), ('prim/wait/wait.go', '''	span     span.Span

''', '''	span     span.Span
	parent   span.Span

''')]),
 dict(id='c06-tenth', property='C06', test=PT, run='TestC06',
  needs='more than ten open pools of the same name',
  breaks='only one digit of the number is looked at, so New never ends once the numbers have two',
  edits=[(R, '''	n, err := strconv.Atoi(sp[1])
''', '''	n, err := strconv.Atoi(sp[1][:1])
''')]),
 dict(id='c06-two-locks', property='C06', test=PT, run='TestC06',
  needs='two New calls for the same name at the same time',
  breaks='the name is looked up and taken under different locks, so one pool replaces the other',
  edits=[(R, '''	mu.Lock()
	defer mu.Unlock()

	name := pool.GetName()
	if name == "" {
		return nil
	}

	if _, ok := registry[name]; ok {
		return fmt.Errorf("name already taken")
	}

''', '''	name := pool.GetName()
	if name == "" {
		return nil
	}

	mu.RLock()
	_, ok := registry[name]
	mu.RUnlock()
	if ok {
		return fmt.Errorf("name already taken")
	}

	mu.Lock()
	defer mu.Unlock()
''')]),
 dict(id='c06-idle-replaced', property='C06', test=PT, run='TestC06',
  needs='two open pools of the same name, the first of them idle',
  breaks='an idle pool of the same size is replaced in the registry',
  edits=[(R, '''	if _, ok := registry[name]; ok {
''', '''	if old, ok := registry[name]; ok && (old.Running() > 0 || old.Len() != pool.Len()) {
''')]),

 dict(id='c05-counts-late', property='C05', test=PT, run='TestC05',
  needs='Running called before the goroutine of a job was scheduled',
  breaks='a job is counted when its goroutine runs and not when it is accepted',
  edits=[(L, '''	p.wg.Add(1)
	p.running.Add(1)

	go func() {
''', '''	p.wg.Add(1)

	go func() {
		p.running.Add(1)
''')]),
 dict(id='c11-load-waits', property='C11', test=AT, run='TestC11',
  needs='a Load while the function of a LoadReplace is running',
  breaks='Load waits for a writer',
  edits=[(A, '''	v := r.v.Load()
	if v == nil {
		var zero T
''', '''	r.mu.Lock()
	defer r.mu.Unlock()

	v := r.v.Load()
	if v == nil {
		var zero T
''')]),
 dict(id='c21-errors-not-averaged', property='C21', test=SPT, run='TestC21',
  needs='a Request that fails',
  breaks='the time of Requests that failed is in Completed but not in Avg',
  edits=[(SP, '''	p.stats.avgTotal.Add(int64(runTime))
''', '''	if r.Err == nil {
		p.stats.avgTotal.Add(int64(runTime))
	}
''')]),
 dict(id='c16-dag-ignores-cancel', property='C16', test=SPT, run='TestC16',
  needs='the DAG option and a Context that is cancelled after the first Stage',
  breaks='with the DAG option only the first Stage looks at the Context',
  edits=[(SP, '''	if r.Ctx.Err() != nil {
		r.Err = r.Ctx.Err()
''', '''	if (r.seenStages == nil || len(*r.seenStages) == 0) && r.Ctx.Err() != nil {
		r.Err = r.Ctx.Err()
''')]),
 dict(id='c01-few-runners', property='C01', test=PT, run='TestC01',
  needs='a pooled.Pool with a size of more than 8 times the number of CPUs',
  breaks='fewer goroutines are started than the size of the pool',
  edits=[(PO, '''	for i := 0; i < size; i++ {
		go p.runner()
''', '''	for i := 0; i < size && i < 8*runtime.NumCPU(); i++ {
		go p.runner()
''')]),
 dict(id='c04-overflow-limit', property='C04', test=PT, run='TestC04',
  needs='more than 16 times as many NonBlocking jobs as the pool has goroutines',
  breaks='a NonBlocking Submit blocks once there are too many extra goroutines',
  edits=[(PO, '''	if opts.NonBlocking {
		select {
''', '''	if opts.NonBlocking && p.running.Load() <= int64(16*p.size) {
		select {
''')]),
 dict(id='c09-lost-race', property='C09', test=WT, run='TestC09',
  needs='two functions that fail at the same time',
  breaks='an error is dropped if another one was recorded while it was joined',
  edits=[(W, '''			if ptr.CompareAndSwap(existing, &joined) {
				return
			}
''', '''			ptr.CompareAndSwap(existing, &joined)
			return
''')]),
 dict(id='c18-delay-drops', property='C18', test=SPT, run='TestC18',
  needs='the DelayWarning option, an output that is late and a Request whose Context is cancelled meanwhile',
  breaks='a Request whose Context is cancelled is dropped when a warning is logged',
  edits=[(SP, '''					log.Printf("pipeline(%s) is having output delays exceeding %v", id, p.delayWarning)
					continue
''', '''					log.Printf("pipeline(%s) is having output delays exceeding %v", id, p.delayWarning)
					if r.Ctx.Err() != nil {
						break
					}
					continue
''')]),
 dict(id='c23-error-not-ended', property='C23', test=SPT, run='TestC23',
  needs='a Request that fails and a span that is recording',
  breaks='the span of a Request that failed is not ended',
  edits=[(SP, '''		r.span.Status(codes.Error, r.Err.Error())
''', '''		r.span.Status(codes.Error, r.Err.Error())
		return
''')]),
 dict(id='c06-prefix', property='C06', test=PT, run='TestC06',
  needs='a pool that is closed while others are open whose names start with its name',
  breaks='Close also removes the entries of idle pools whose name starts with the name of the pool',
  edits=[(R, '''	mu.Lock()
	delete(registry, pool.GetName())
	mu.Unlock()
''', '''	mu.Lock()
	for name, p := range registry {
		if strings.HasPrefix(name, pool.GetName()) && p.Running() == 0 {
			delete(registry, name)
		}
	}
	mu.Unlock()
''')]),
]
