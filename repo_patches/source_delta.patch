From 6a08482a23fbb632c798d546d90211593e01b554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:02 +0000
Subject: [PATCH 01/23] fix: limited.Pool holds its slot until the job has
 finished

Submit() released the slot when it returned, so the number of jobs running at
the same time was not limited by the size of the pool.
---
 goroutines/limited/goroutines.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/goroutines/limited/goroutines.go b/goroutines/limited/goroutines.go
index 33304df..ec7b43f 100644
--- a/goroutines/limited/goroutines.go
+++ b/goroutines/limited/goroutines.go
@@ -151,7 +151,6 @@ func (p *Pool) Submit(ctx context.Context, runner goroutines.Job, options ...gor
 			p.blockEvent(spanner, fcn, now)
 			p.queue <- struct{}{}
 		}
-		defer func() { <-p.queue }()
 	}
 	p.submitEvent(spanner, fcn, opts.NonBlocking, now)
 
@@ -160,6 +159,10 @@ func (p *Pool) Submit(ctx context.Context, runner goroutines.Job, options ...gor
 
 	go func() {
 		defer p.wg.Done()
+		if !opts.NonBlocking {
+			// The slot is held until the job is done, not just until it is started.
+			defer func() { <-p.queue }()
+		}
 		defer p.running.Add(-1)
 		runner(ctx)
 	}()
-- 
2.43.0


From fa3777814573457ff25218dd8cb0ccd1d6b4116b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:19 +0000
Subject: [PATCH 02/23] fix: Pool.Len() reports the size of the pool

Both pools returned the number of entries in their internal queue, which says
nothing about how big the pool is.
---
 goroutines/limited/goroutines.go | 2 +-
 goroutines/pooled/goroutines.go  | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/goroutines/limited/goroutines.go b/goroutines/limited/goroutines.go
index ec7b43f..857bd7e 100644
--- a/goroutines/limited/goroutines.go
+++ b/goroutines/limited/goroutines.go
@@ -77,7 +77,7 @@ func (p *Pool) Wait() {
 
 // Len returns the current size of the pool.
 func (p *Pool) Len() int {
-	return len(p.queue)
+	return cap(p.queue)
 }
 
 // Running returns the number of running jobs in the pool.
diff --git a/goroutines/pooled/goroutines.go b/goroutines/pooled/goroutines.go
index c9752f5..b0451b1 100644
--- a/goroutines/pooled/goroutines.go
+++ b/goroutines/pooled/goroutines.go
@@ -30,6 +30,7 @@ type Pool struct {
 	pool.Pool // Implements the pool.Preventer interface
 	queue     chan submit
 	name      string
+	size      int
 }
 
 // New creates a new Pool. "name" is the name of the pool which is used to get OTEL
@@ -48,7 +49,7 @@ func New(name string, size int) (*Pool, error) {
 	}
 
 	ch := make(chan submit, 1)
-	p := &Pool{name: name, queue: ch}
+	p := &Pool{name: name, queue: ch, size: size}
 	for i := 0; i < size; i++ {
 		go p.runner()
 	}
@@ -78,7 +79,7 @@ func (p *Pool) Wait() {
 
 // Len returns the current size of the pool.
 func (p *Pool) Len() int {
-	return len(p.queue)
+	return p.size
 }
 
 // Running returns the number of running jobs in the pool.
-- 
2.43.0


From 55e65659114a0f76f9f9aba12125515870317f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:20 +0000
Subject: [PATCH 03/23] fix: pooled.NonBlocking() runs the Job when no
 goroutine is available

The queue was buffered, so a NonBlocking() Job was parked in the buffer while
every goroutine of the pool was busy. A Job that waits for a NonBlocking() Job
that it submitted was a deadlock.
---
 goroutines/pooled/goroutines.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/goroutines/pooled/goroutines.go b/goroutines/pooled/goroutines.go
index b0451b1..c2ce252 100644
--- a/goroutines/pooled/goroutines.go
+++ b/goroutines/pooled/goroutines.go
@@ -48,7 +48,9 @@ func New(name string, size int) (*Pool, error) {
 		return nil, err
 	}
 
-	ch := make(chan submit, 1)
+	// This must not be buffered. A buffered entry is not being run by anything, so a
+	// NonBlocking() Job would wait for a goroutine to become available.
+	ch := make(chan submit)
 	p := &Pool{name: name, queue: ch, size: size}
 	for i := 0; i < size; i++ {
 		go p.runner()
-- 
2.43.0


From 44b12f5f7a1049da1df04a8b2eafa41ee0588845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:59 +0000
Subject: [PATCH 04/23] fix: RWValue.LoadReplace() on a value that was never
 stored

It called the LoadReplacer with the zero value as documented, dropped what it
returned and then paniced by dereferencing the nil pointer.
---
 prim/atomics/atomics.go | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/prim/atomics/atomics.go b/prim/atomics/atomics.go
index 6aa6fb7..c4e89cd 100644
--- a/prim/atomics/atomics.go
+++ b/prim/atomics/atomics.go
@@ -48,16 +48,10 @@ func (r *RWValue[T]) LoadReplace(lr LoadReplacer[T]) error {
 	defer r.mu.Unlock()
 
 	v := r.v.Load()
-	var n T
-	var err error
 	if v == nil {
-		var zero T
-		n, err = lr(zero)
-		if err != nil {
-			return err
-		}
+		v = new(T)
 	}
-	n, err = lr(*v)
+	n, err := lr(*v)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From c24c17492aa9f1cd2d74219279c84ad052e32830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:00 +0000
Subject: [PATCH 05/23] fix: wait.Group keeps all the errors its goroutines
 return

applyErr() wrapped the new error in itself instead of wrapping the existing
one, so Wait() only returned the last error and the others were lost.
---
 prim/wait/wait.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/prim/wait/wait.go b/prim/wait/wait.go
index 4706077..60d234d 100644
--- a/prim/wait/wait.go
+++ b/prim/wait/wait.go
@@ -25,6 +25,7 @@ package wait
 
 import (
 	"context"
+	"errors"
 	"fmt"
 	"sync"
 	"sync/atomic"
@@ -235,7 +236,7 @@ func (w *Group) waitOTELEnd(t time.Time) {
 	}
 }
 
-// applyErr sets the error to be returned. If an error already exists, it wraps this error in that one.
+// applyErr sets the error to be returned. If an error already exists, the new error wraps both of them.
 // If the error is some context cancellation, that is only recorded if it is the first error.
 // This uses atomic compare and swap operations to avoid mutex.
 func applyErr(ptr *atomic.Pointer[error], err error) {
@@ -250,8 +251,8 @@ func applyErr(ptr *atomic.Pointer[error], err error) {
 			case context.Canceled, context.DeadlineExceeded:
 				return
 			}
-			err = fmt.Errorf("%w", err)
-			if ptr.CompareAndSwap(existing, &err) {
+			joined := errors.Join(*existing, err)
+			if ptr.CompareAndSwap(existing, &joined) {
 				return
 			}
 		}
-- 
2.43.0


From 259fcb796773d8d53587ec91932b48c7a4a1c2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:01 +0000
Subject: [PATCH 06/23] fix: wait.Group.Running() after Wait()

The count was decremented after wg.Done(), so Wait() could reset it to 0 before
a goroutine decremented it. Running() was -1 from then on, including for the
next use of the Group.
---
 prim/wait/wait.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prim/wait/wait.go b/prim/wait/wait.go
index 60d234d..0318738 100644
--- a/prim/wait/wait.go
+++ b/prim/wait/wait.go
@@ -124,8 +124,8 @@ func (w *Group) Go(ctx context.Context, f FuncCall) {
 	if w.Pool == nil {
 		w.wg.Add(1)
 		go func() {
-			defer w.count.Add(-1)
 			defer w.wg.Done()
+			defer w.count.Add(-1)
 
 			if ctx.Err() != nil {
 				applyErr(&w.errors, ctx.Err())
@@ -146,8 +146,8 @@ func (w *Group) Go(ctx context.Context, f FuncCall) {
 	w.Pool.Submit(
 		ctx,
 		func(ctx context.Context) {
-			defer w.count.Add(-1)
 			defer w.wg.Done()
+			defer w.count.Add(-1)
 
 			if ctx.Err() != nil {
 				applyErr(&w.errors, ctx.Err())
-- 
2.43.0


From a87bb457b600840c270c96b9e3a22c9e9bdb0094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:02 +0000
Subject: [PATCH 07/23] fix: options of slices.Access() and chans.Access()

slices.Access() passed a pointer to a pointer to the options, so that every
option returned an error. WithPoolOptions() ignored the pool.
---
 prim/chans/options.go  | 1 +
 prim/slices/options.go | 1 +
 prim/slices/slice.go   | 2 +-
 3 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/prim/chans/options.go b/prim/chans/options.go
index f5c54ed..05d97a0 100644
--- a/prim/chans/options.go
+++ b/prim/chans/options.go
@@ -46,6 +46,7 @@ func WithPoolOptions(pool goroutines.Pool, options ...goroutines.SubmitOption) i
 			func(a any) error {
 				switch t := a.(type) {
 				case *chanOptions:
+					t.pool = pool
 					t.poolOptions = options
 					return nil
 				}
diff --git a/prim/slices/options.go b/prim/slices/options.go
index 7c5baad..62ebc1a 100644
--- a/prim/slices/options.go
+++ b/prim/slices/options.go
@@ -49,6 +49,7 @@ func WithPoolOptions(pool goroutines.Pool, options ...goroutines.SubmitOption) i
 			func(a any) error {
 				switch t := a.(type) {
 				case *sliceOptions:
+					t.pool = pool
 					t.poolOptions = options
 					return nil
 				}
diff --git a/prim/slices/slice.go b/prim/slices/slice.go
index dcefbe9..af19780 100644
--- a/prim/slices/slice.go
+++ b/prim/slices/slice.go
@@ -44,7 +44,7 @@ type SliceOption interface {
 func Access[T any](ctx context.Context, s []T, access Accessor[T], options ...SliceOption) error {
 	spanner := span.Get(ctx)
 
-	opts := &sliceOptions{}
+	opts := sliceOptions{}
 	if err := calloptions.ApplyOptions(&opts, options); err != nil {
 		return err
 	}
-- 
2.43.0


From a2098f7a8bf4ba067ef069af47b2ee5d9bd4ec22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:25 +0000
Subject: [PATCH 08/23] fix: slices.Access() and chans.Access() when they stop
 early

They returned without waiting for the Accessors that were running and, with
WithStopOnErr(), returned context.Canceled instead of the error that stopped
them. chans.Modify() closed the output while Accessors could still send on it.
chans.Access() also did not notice that the Context was cancelled while it
waited for input.
---
 prim/chans/chans.go  | 21 ++++++++++++++++-----
 prim/slices/slice.go |  7 ++++---
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/prim/chans/chans.go b/prim/chans/chans.go
index 92d5f07..153acb8 100644
--- a/prim/chans/chans.go
+++ b/prim/chans/chans.go
@@ -131,11 +131,22 @@ func Access[T any](ctx context.Context, input <-chan T, access Accessor[T], opti
 	}
 	wg := wait.Group{Pool: opts.pool, PoolOptions: opts.poolOptions, CancelOnErr: cancel}
 
-	for v := range input {
-		v := v
+	var ctxErr error
+	for {
+		// Do not take a value off the input that is not going to be processed.
+		if ctxErr = ctx.Err(); ctxErr != nil {
+			break
+		}
 
-		if ctx.Err() != nil {
-			return ctx.Err()
+		var v T
+		var ok bool
+		select {
+		case <-ctx.Done():
+			continue
+		case v, ok = <-input:
+		}
+		if !ok {
+			break
 		}
 
 		wg.Go(
@@ -152,7 +163,7 @@ func Access[T any](ctx context.Context, input <-chan T, access Accessor[T], opti
 		spanner.Error(err)
 		return err
 	}
-	return nil
+	return ctxErr
 }
 
 // StreamResult is a result from a Stream operation.
diff --git a/prim/slices/slice.go b/prim/slices/slice.go
index af19780..f0a0fa2 100644
--- a/prim/slices/slice.go
+++ b/prim/slices/slice.go
@@ -69,11 +69,12 @@ func Access[T any](ctx context.Context, s []T, access Accessor[T], options ...Sl
 	}
 	wg := wait.Group{Pool: opts.pool, PoolOptions: opts.poolOptions, CancelOnErr: cancel}
 
+	var ctxErr error
 	for i := 0; i < len(s); i++ {
 		i := i
 
-		if ctx.Err() != nil {
-			return ctx.Err()
+		if ctxErr = ctx.Err(); ctxErr != nil {
+			break
 		}
 
 		wg.Go(
@@ -87,5 +88,5 @@ func Access[T any](ctx context.Context, s []T, access Accessor[T], options ...Sl
 		spanner.Error(err)
 		return err
 	}
-	return nil
+	return ctxErr
 }
-- 
2.43.0


From acc455a5cceb72c0e2639259942caf7bcb1aa7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:26 +0000
Subject: [PATCH 09/23] fix: New() of a pool whose name was already used twice

New() retried the same name ("name-1") forever. NewName() could not give the
name that follows "name-1" either: it returned "name--2" and then paniced.
---
 goroutines/internal/register/register.go | 2 +-
 goroutines/limited/goroutines.go         | 2 +-
 goroutines/pooled/goroutines.go          | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/goroutines/internal/register/register.go b/goroutines/internal/register/register.go
index 98d57cc..e05f045 100644
--- a/goroutines/internal/register/register.go
+++ b/goroutines/internal/register/register.go
@@ -60,7 +60,7 @@ func NewName(name string) string {
 		return name + "-1"
 	}
 
-	sp := strings.SplitAfter(name, "-")
+	sp := strings.Split(name, "-")
 	n, err := strconv.Atoi(sp[1])
 	if err != nil {
 		panic(fmt.Sprintf("register is broken, name %s is invalid", name))
diff --git a/goroutines/limited/goroutines.go b/goroutines/limited/goroutines.go
index 857bd7e..34fad93 100644
--- a/goroutines/limited/goroutines.go
+++ b/goroutines/limited/goroutines.go
@@ -54,7 +54,7 @@ func New(name string, size int) (*Pool, error) {
 
 	for {
 		if err := register.Register(p); err != nil {
-			p.name = register.NewName(name)
+			p.name = register.NewName(p.name)
 			continue
 		}
 		break
diff --git a/goroutines/pooled/goroutines.go b/goroutines/pooled/goroutines.go
index c2ce252..1283fa7 100644
--- a/goroutines/pooled/goroutines.go
+++ b/goroutines/pooled/goroutines.go
@@ -58,7 +58,7 @@ func New(name string, size int) (*Pool, error) {
 
 	for {
 		if err := register.Register(p); err != nil {
-			p.name = register.NewName(name)
+			p.name = register.NewName(p.name)
 			continue
 		}
 		break
-- 
2.43.0


From 62f100eee12d18e5cd9e00f5fec187ce53c67c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:27 +0000
Subject: [PATCH 10/23] fix: goroutines.Errors is safe to read while errors are
 recorded

Error() and Errors() read the errors without the lock and Errors() handed out
the slice that Record() appends to.
---
 goroutines/goroutines.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/goroutines/goroutines.go b/goroutines/goroutines.go
index adf37ea..ef777cf 100644
--- a/goroutines/goroutines.go
+++ b/goroutines/goroutines.go
@@ -182,6 +182,9 @@ func (e *Errors) Record(err error) {
 
 // Error returns the first error recieved.
 func (e *Errors) Error() error {
+	e.mu.Lock()
+	defer e.mu.Unlock()
+
 	if len(e.errors) == 0 {
 		return nil
 	}
@@ -190,5 +193,8 @@ func (e *Errors) Error() error {
 
 // Errors returns all errors.
 func (e *Errors) Errors() []error {
-	return e.errors
+	e.mu.Lock()
+	defer e.mu.Unlock()
+
+	return append([]error(nil), e.errors...)
 }
-- 
2.43.0


From 58930ad8e75cd0e1d0cacf4cb581648a882b1307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:44 +0000
Subject: [PATCH 11/23] fix: register.Pools() closes the channel it returns

There was no way to know that all the pools were received.
---
 goroutines/internal/register/register.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/goroutines/internal/register/register.go b/goroutines/internal/register/register.go
index e05f045..d95aa0c 100644
--- a/goroutines/internal/register/register.go
+++ b/goroutines/internal/register/register.go
@@ -74,6 +74,7 @@ func NewName(name string) string {
 func Pools() chan goroutines.Pool {
 	ch := make(chan goroutines.Pool, 1)
 	go func() {
+		defer close(ch)
 		mu.RLock()
 		defer mu.RUnlock()
 		for _, p := range registry {
-- 
2.43.0


From 7683402cc98f9ed821f4b6e9f87d3fc5e9f037eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:45 +0000
Subject: [PATCH 12/23] fix: Pipelines.Close() stops the StateMachine

Nothing told the Pipelines that a Request was done, so after the first Request
Close() never closed the StateMachine nor the channel to the demuxer.
---
 pipelines/stagedpipe/stagedpipe.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pipelines/stagedpipe/stagedpipe.go b/pipelines/stagedpipe/stagedpipe.go
index 7894837..9f98502 100644
--- a/pipelines/stagedpipe/stagedpipe.go
+++ b/pipelines/stagedpipe/stagedpipe.go
@@ -612,6 +612,7 @@ func (p *Pipelines[T]) NewRequestGroup() *RequestGroup[T] {
 			defer r.ordered.Close()
 			for req := range r.out {
 				r.wg.Done()
+				p.wg.Done()
 				req.otelEnd()
 				if err := r.ordered.Add(req); err != nil {
 					panic("bug: ordered demuxer returned an error")
@@ -623,6 +624,7 @@ func (p *Pipelines[T]) NewRequestGroup() *RequestGroup[T] {
 			defer close(r.user)
 			for req := range r.out {
 				r.wg.Done()
+				p.wg.Done()
 				req.otelEnd()
 				r.user <- req
 			}
-- 
2.43.0


From c959a6fda414c36cebc70e91ac7a6e3eab0be119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:46 +0000
Subject: [PATCH 13/23] fix: a Request leaves a DAG() pipeline without its
 seenStages

The Request kept the seenStages that was returned to the pool. Submitting it to
Pipelines without DAG() checked it for cyclic errors, using an object that is in
use for other Requests.
---
 pipelines/stagedpipe/stagedpipe.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pipelines/stagedpipe/stagedpipe.go b/pipelines/stagedpipe/stagedpipe.go
index 9f98502..3a00241 100644
--- a/pipelines/stagedpipe/stagedpipe.go
+++ b/pipelines/stagedpipe/stagedpipe.go
@@ -724,15 +724,16 @@ func (p *pipeline[T]) runner() {
 }
 
 // processReq processes a single request through the pipeline.
-func (p *pipeline[T]) processReq(r Request[T]) Request[T] {
+func (p *pipeline[T]) processReq(r Request[T]) (out Request[T]) {
 	// Stat colllection.
 	r.ingestTime = time.Now()
 	queuedTime := time.Since(r.queueTime)
 	if p.ss {
-		r.seenStages = seenStagesPool.Get().(*seenStages).reset()
+		seen := seenStagesPool.Get().(*seenStages).reset()
+		r.seenStages = seen
 		defer func() {
-			seenStagesPool.Put(r.seenStages)
-			r.seenStages = nil
+			seenStagesPool.Put(seen)
+			out.seenStages = nil
 		}()
 	}
 
-- 
2.43.0


From 1957c1e005e2a853ec5cc072e7043d5d8dd099b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:47 +0000
Subject: [PATCH 14/23] fix: Stats.Min and IngestStats.Min

They were always 0, because 0 is what the minimum started with.
---
 pipelines/stagedpipe/stats.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/pipelines/stagedpipe/stats.go b/pipelines/stagedpipe/stats.go
index 4025978..d9127bf 100644
--- a/pipelines/stagedpipe/stats.go
+++ b/pipelines/stagedpipe/stats.go
@@ -1,6 +1,7 @@
 package stagedpipe
 
 import (
+	"math"
 	"sync/atomic"
 	"time"
 )
@@ -34,14 +35,26 @@ type stats struct {
 }
 
 func newStats() *stats {
-	return &stats{ingestStats: &ingestStats{}}
+	s := &stats{ingestStats: &ingestStats{}}
+	s.min.Store(math.MaxInt64)
+	s.ingestStats.min.Store(math.MaxInt64)
+	return s
+}
+
+// minTime returns the time that was recorded in min by setMin(), or 0 if nothing was recorded.
+func minTime(min *atomic.Int64) time.Duration {
+	m := min.Load()
+	if m == math.MaxInt64 {
+		return 0
+	}
+	return time.Duration(m)
 }
 
 func (s *stats) toStats() Stats {
 	stats := Stats{
 		Running:   s.running.Load(),
 		Completed: s.completed.Load(),
-		Min:       time.Duration(s.min.Load()),
+		Min:       minTime(&s.min),
 		Max:       time.Duration(s.max.Load()),
 	}
 	if stats.Completed != 0 {
@@ -69,7 +82,7 @@ type ingestStats struct {
 
 func (i *ingestStats) toIngestStats(completed int64) IngestStats {
 	stats := IngestStats{
-		Min: time.Duration(i.min.Load()),
+		Min: minTime(&i.min),
 		Max: time.Duration(i.max.Load()),
 	}
 	if completed != 0 {
-- 
2.43.0


From 9d6ea9880a671624d522e1f8f76306078e5526ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:48 +0000
Subject: [PATCH 15/23] fix: NewRequestGroup() while another RequestGroup is
 closed

The demuxer replaces its map of receivers without a lock when one is removed. A
receiver added at the same time could be lost, which ended the program when the
first Request of that RequestGroup was done.
---
 pipelines/stagedpipe/stagedpipe.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pipelines/stagedpipe/stagedpipe.go b/pipelines/stagedpipe/stagedpipe.go
index 3a00241..3c692a9 100644
--- a/pipelines/stagedpipe/stagedpipe.go
+++ b/pipelines/stagedpipe/stagedpipe.go
@@ -306,6 +306,8 @@ type Pipelines[T any] struct {
 	requestGroupNum atomic.Uint64
 	// demux is used to demux the output of the Pipelines to the RequestGroup(s).
 	demux *demux.Demux[uint64, Request[T]]
+	// demuxMu protects adding and removing receivers, which are not safe to do at the same time.
+	demuxMu sync.Mutex
 
 	stats *stats
 	// ss is true if the DAG() option was set.
@@ -512,6 +514,8 @@ func (r *RequestGroup[T]) Close() {
 
 	r.otelEnd()
 
+	r.p.demuxMu.Lock()
+	defer r.p.demuxMu.Unlock()
 	r.p.demux.RemoveReceiver(r.id) // This closes the input channel into the Pipelines object
 }
 
@@ -598,7 +602,9 @@ func (p *Pipelines[T]) NewRequestGroup() *RequestGroup[T] {
 		p:         p,
 		startOnce: &sync.Once{},
 	}
+	p.demuxMu.Lock()
 	p.demux.AddReceiver(id, r.out)
+	p.demuxMu.Unlock()
 
 	// If ordered is set, we need to return the output in order.
 	if p.ordered {
-- 
2.43.0


From 32f8927c2601847762062cdfd72f06f5db866e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:49 +0000
Subject: [PATCH 16/23] fix: Ordered() output after a Submit() that was
 cancelled

A Request that was not sent left a gap in the order. All the Requests that were
submitted after it were never output.
---
 pipelines/stagedpipe/stagedpipe.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pipelines/stagedpipe/stagedpipe.go b/pipelines/stagedpipe/stagedpipe.go
index 3c692a9..b95ef42 100644
--- a/pipelines/stagedpipe/stagedpipe.go
+++ b/pipelines/stagedpipe/stagedpipe.go
@@ -498,6 +498,9 @@ type RequestGroup[T any] struct {
 
 	// itemNum is used to track the order of the Request in the RequestGroup.
 	itemNum atomic.Uint64
+	// submitMu makes giving out an itemNum and sending the Request a single step if
+	// the output is ordered.
+	submitMu sync.Mutex
 
 	// startOnce is used to do operations related to telemetry on the first Submit() call.
 	startOnce *sync.Once
@@ -543,6 +546,11 @@ func (r *RequestGroup[T]) Submit(req Request[T]) error {
 		r.otelStart()
 	})
 
+	if r.ordered != nil {
+		r.submitMu.Lock()
+		defer r.submitMu.Unlock()
+	}
+
 	req.groupNum = r.id
 	req.itemNum = r.itemNum.Add(1) - 1 // This must start at 0.
 	req.queueTime = time.Now()
@@ -559,6 +567,10 @@ func (r *RequestGroup[T]) Submit(req Request[T]) error {
 
 	select {
 	case <-req.Ctx.Done():
+		if r.ordered != nil {
+			// The next Request takes our place, as all output after a gap would be held back.
+			r.itemNum.Add(^uint64(0))
+		}
 		r.p.wg.Done()
 		r.wg.Done()
 		return req.Ctx.Err()
-- 
2.43.0


From 267dfc3a63e5914f4ea4f49bab527d2d12b7a918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:18 +0000
Subject: [PATCH 17/23] fix: DAG() detects a Stage that routes back to Start()

The first call of Start() was recorded with the name of the method of the
StateMachine interface, so Start() could be called a second time.
---
 pipelines/stagedpipe/stagedpipe.go | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/pipelines/stagedpipe/stagedpipe.go b/pipelines/stagedpipe/stagedpipe.go
index b95ef42..431e535 100644
--- a/pipelines/stagedpipe/stagedpipe.go
+++ b/pipelines/stagedpipe/stagedpipe.go
@@ -763,9 +763,9 @@ func (p *pipeline[T]) processReq(r Request[T]) (out Request[T]) {
 	// Loop through all our states starting with p.sms[0].Start until we
 	// get either an error or the Request.Next == nil
 	// which indicates that the statemachine is done processing.
-	stage := p.sm.Start
+	stage, name := p.sm.Start, startName(p.sm)
 	for {
-		r = p.execStage(r, stage)
+		r = p.execStage(r, stage, name)
 		if r.Err != nil {
 			return r
 		}
@@ -775,14 +775,13 @@ func (p *pipeline[T]) processReq(r Request[T]) (out Request[T]) {
 		if stage == nil {
 			return r
 		}
+		name = methodName(stage)
 	}
 }
 
 // execStage executes a single stage of the pipeline and all preProcessors. It also
 // creates a new span for the stage.
-func (p *pipeline[T]) execStage(r Request[T], stage Stage[T]) Request[T] {
-	stageName := methodName(stage)
-
+func (p *pipeline[T]) execStage(r Request[T], stage Stage[T], stageName string) Request[T] {
 	parentCtx := r.Ctx
 	parentSpan := r.span
 	defer func() {
@@ -803,7 +802,7 @@ func (p *pipeline[T]) execStage(r Request[T], stage Stage[T]) Request[T] {
 	}
 
 	if r.seenStages != nil {
-		if r.seenStages.seen(methodName(stage)) {
+		if r.seenStages.seen(stageName) {
 			r.Err = Error{Type: cyclicErr, Msg: r.seenStages.callTrace()}
 			return r
 		}
@@ -839,6 +838,23 @@ func numStages[T any](sm any) int {
 	return count
 }
 
+// startName returns the name that methodName() gives the Start() method of sm when it is used as a Stage
+// by the type that implements it. The name of sm.Start is that of the method of the StateMachine interface.
+func startName[T any](sm StateMachine[T]) string {
+	t := reflect.TypeOf(sm)
+	if t.Kind() == reflect.Pointer {
+		// If the method has a value receiver, that is the method that is named.
+		if m, ok := t.Elem().MethodByName("Start"); ok {
+			return methodName(m.Func.Interface())
+		}
+	}
+	m, ok := t.MethodByName("Start")
+	if !ok {
+		return methodName(sm.Start)
+	}
+	return methodName(m.Func.Interface())
+}
+
 // methodName takes a function or a method and returns its name.
 func methodName(method any) string {
 	if method == nil {
-- 
2.43.0


From cc54f375ebb893d16b5fefd20131459bd810eafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:19 +0000
Subject: [PATCH 18/23] fix: Queue.Pop() does not miss the last entries before
 Close()

If an entry was added and the Queue closed after Pop() found it to be empty,
Pop() said that there are no more entries.
---
 pipelines/stagedpipe/internal/queue/queue.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pipelines/stagedpipe/internal/queue/queue.go b/pipelines/stagedpipe/internal/queue/queue.go
index 14628b0..61c4c87 100644
--- a/pipelines/stagedpipe/internal/queue/queue.go
+++ b/pipelines/stagedpipe/internal/queue/queue.go
@@ -59,12 +59,16 @@ func (q *Queue[A]) Pop() (val A, ok bool) {
 
 	var s time.Duration
 	for {
+		// This must be read first. An entry can be added between finding the queue to be
+		// empty and it being closed.
+		closed := q.closed.Load()
+
 		a, ok := q.queue.pop()
 		if ok {
 			return a, ok
 		}
 
-		if q.closed.Load() {
+		if closed {
 			return a, ok
 		}
 
-- 
2.43.0


From 499ea971cbf6e5dec3e955ad5fc4192a2761b6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:30 +0000
Subject: [PATCH 19/23] fix: end the OTEL spans that are started

A Stage left its span and Context in the Request, as what a deferred function
assigns to a parameter is not returned. So the Request ended the span of its
last Stage and its own span was never ended. The spans of the other Stages, of
the RequestGroup, of a Request whose Submit() was cancelled and of wait.Group
were not ended either.
---
 pipelines/stagedpipe/stagedpipe.go | 21 ++++++++++++++++-----
 prim/wait/wait.go                  |  4 ++++
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/pipelines/stagedpipe/stagedpipe.go b/pipelines/stagedpipe/stagedpipe.go
index 431e535..123879f 100644
--- a/pipelines/stagedpipe/stagedpipe.go
+++ b/pipelines/stagedpipe/stagedpipe.go
@@ -571,6 +571,9 @@ func (r *RequestGroup[T]) Submit(req Request[T]) error {
 			// The next Request takes our place, as all output after a gap would be held back.
 			r.itemNum.Add(^uint64(0))
 		}
+		if spanner.IsRecording() {
+			spanner.End()
+		}
 		r.p.wg.Done()
 		r.wg.Done()
 		return req.Ctx.Err()
@@ -601,6 +604,7 @@ func (r *RequestGroup[T]) otelEnd() {
 		return
 	}
 	r.span.Event("RequestGroup finished", "elapsed_ns", time.Since(*r.started.Load()))
+	r.span.End()
 }
 
 // NewRequestGroup returns a RequestGroup that can be used to process requests
@@ -781,18 +785,25 @@ func (p *pipeline[T]) processReq(r Request[T]) (out Request[T]) {
 
 // execStage executes a single stage of the pipeline and all preProcessors. It also
 // creates a new span for the stage.
-func (p *pipeline[T]) execStage(r Request[T], stage Stage[T], stageName string) Request[T] {
+func (p *pipeline[T]) execStage(r Request[T], stage Stage[T], stageName string) (out Request[T]) {
 	parentCtx := r.Ctx
 	parentSpan := r.span
+	stageCtx, stageSpan := span.New(r.Ctx, stageName)
 	defer func() {
-		r.Ctx = parentCtx
-		r.span = parentSpan
+		out.span = parentSpan
+		if stageSpan.IsRecording() {
+			// A Stage can set its own Context.
+			if out.Ctx == stageCtx {
+				out.Ctx = parentCtx
+			}
+			stageSpan.End()
+		}
 	}()
-	r.Ctx, r.span = span.New(r.Ctx, stageName)
+	r.Ctx, r.span = stageCtx, stageSpan
 
 	r.Event(stageName, "start", time.Now())
 	defer func() {
-		r.Event(stageName, "end", time.Now())
+		stageSpan.Event(stageName, "end", time.Now())
 	}()
 
 	// If the context has been cancelled, stop processing.
diff --git a/prim/wait/wait.go b/prim/wait/wait.go
index 0318738..8c12c94 100644
--- a/prim/wait/wait.go
+++ b/prim/wait/wait.go
@@ -188,6 +188,10 @@ func (w *Group) Wait(ctx context.Context) error {
 			"end", end.UTC(),
 			"elapsed_ns", end.Sub(now),
 		)
+		if w.span.IsRecording() {
+			w.span.End()
+		}
+		w.span = span.Span{}
 	}()
 
 	w.waitOTELStart()
-- 
2.43.0


From be79833f26e86e2a1357fd53701d2572fd2cb082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:18 +0000
Subject: [PATCH 20/23] fix: chans.Modify returns the error of the Modifier
 when the Context is cancelled

---
 prim/chans/chans.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/prim/chans/chans.go b/prim/chans/chans.go
index 153acb8..5cb1350 100644
--- a/prim/chans/chans.go
+++ b/prim/chans/chans.go
@@ -202,7 +202,6 @@ func Modify[T, R any](ctx context.Context, input <-chan T, output chan <-StreamR
 		if err != nil {
 			select {
 			case <-ctx.Done():
-				return ctx.Err()
 			case output <- StreamResult[R]{Err: err}:
 			}
 			return err
-- 
2.43.0


From 706e03c925ada674fbfab5f1a185fd2266c6ac54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:16 +0000
Subject: [PATCH 21/23] fix: Submit() with Ordered() gives up if its Context is
 cancelled while another Submit() waits

---
 pipelines/stagedpipe/stagedpipe.go | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/pipelines/stagedpipe/stagedpipe.go b/pipelines/stagedpipe/stagedpipe.go
index 123879f..b25d1f6 100644
--- a/pipelines/stagedpipe/stagedpipe.go
+++ b/pipelines/stagedpipe/stagedpipe.go
@@ -498,9 +498,9 @@ type RequestGroup[T any] struct {
 
 	// itemNum is used to track the order of the Request in the RequestGroup.
 	itemNum atomic.Uint64
-	// submitMu makes giving out an itemNum and sending the Request a single step if
-	// the output is ordered.
-	submitMu sync.Mutex
+	// submitting makes giving out an itemNum and sending the Request a single step if
+	// the output is ordered. It holds a value during that step.
+	submitting chan struct{}
 
 	// startOnce is used to do operations related to telemetry on the first Submit() call.
 	startOnce *sync.Once
@@ -547,8 +547,12 @@ func (r *RequestGroup[T]) Submit(req Request[T]) error {
 	})
 
 	if r.ordered != nil {
-		r.submitMu.Lock()
-		defer r.submitMu.Unlock()
+		select {
+		case <-req.Ctx.Done():
+			return req.Ctx.Err()
+		case r.submitting <- struct{}{}:
+		}
+		defer func() { <-r.submitting }()
 	}
 
 	req.groupNum = r.id
@@ -612,11 +616,12 @@ func (r *RequestGroup[T]) otelEnd() {
 func (p *Pipelines[T]) NewRequestGroup() *RequestGroup[T] {
 	id := p.requestGroupNum.Add(1)
 	r := RequestGroup[T]{
-		id:        id,
-		out:       make(chan Request[T], 1),
-		user:      make(chan Request[T], 1),
-		p:         p,
-		startOnce: &sync.Once{},
+		id:         id,
+		out:        make(chan Request[T], 1),
+		user:       make(chan Request[T], 1),
+		p:          p,
+		submitting: make(chan struct{}, 1),
+		startOnce:  &sync.Once{},
 	}
 	p.demuxMu.Lock()
 	p.demux.AddReceiver(id, r.out)
-- 
2.43.0


From 35ce4aef9d7abe98ecfc3059c9789b577ebb8640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:55 +0000
Subject: [PATCH 22/23] fix: a Request that is submitted by a Stage has seen no
 Stages

A Stage that submits the Request it got to other Pipelines handed over the list
of Stages it was in. So these Pipelines looked for cycles without the DAG()
option, in a list that the worker of the Stage still uses.
---
 pipelines/stagedpipe/stagedpipe.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pipelines/stagedpipe/stagedpipe.go b/pipelines/stagedpipe/stagedpipe.go
index b25d1f6..36096ef 100644
--- a/pipelines/stagedpipe/stagedpipe.go
+++ b/pipelines/stagedpipe/stagedpipe.go
@@ -558,6 +558,8 @@ func (r *RequestGroup[T]) Submit(req Request[T]) error {
 	req.groupNum = r.id
 	req.itemNum = r.itemNum.Add(1) - 1 // This must start at 0.
 	req.queueTime = time.Now()
+	// A Stage can submit the Request it got to other Pipelines.
+	req.seenStages = nil
 
 	// This let's the Pipelines object know it is receiving a new Request to process.
 	r.p.wg.Add(1)
-- 
2.43.0


From 6c7383468ff53f334f91e1ace2c4bf4e910fbf01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:42:09 +0000
Subject: [PATCH 23/23] fix: Queue.Pop() frees a place in the queue only if it
 removed an entry

---
 pipelines/stagedpipe/internal/queue/queue.go | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/pipelines/stagedpipe/internal/queue/queue.go b/pipelines/stagedpipe/internal/queue/queue.go
index 61c4c87..3983865 100644
--- a/pipelines/stagedpipe/internal/queue/queue.go
+++ b/pipelines/stagedpipe/internal/queue/queue.go
@@ -45,18 +45,6 @@ func (q *Queue[A]) Close() {
 // value (which was not added to the queue), the Queue had Closed() called and the Queue
 // is empty.
 func (q *Queue[A]) Pop() (val A, ok bool) {
-	defer func() {
-		if q.limit != nil {
-			select {
-			case <-q.limit:
-			default:
-				// Normally when you have a limiter, you don't need a select{}, its
-				// 1 for 1. In this case a Pop() can be called when Close() has been called.
-				// If you don't have a default, this blocks forever.
-			}
-		}
-	}()
-
 	var s time.Duration
 	for {
 		// This must be read first. An entry can be added between finding the queue to be
@@ -65,6 +53,10 @@ func (q *Queue[A]) Pop() (val A, ok bool) {
 
 		a, ok := q.queue.pop()
 		if ok {
+			// Only an entry that was removed makes room for another one.
+			if q.limit != nil {
+				<-q.limit
+			}
 			return a, ok
 		}
 
-- 
2.43.0

