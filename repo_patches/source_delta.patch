From 93bbfaa57a096bf8790b624bbfecc698c8e850dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:50:30 +0000
Subject: [PATCH 1/9] fix: search the whole stack for the location of a panic

The frame iterator stopped after the first batch of eight frames. The
location of a panic was therefore reported as unknown when more frames
than that were between the panic and the caller of OfPanic().
---
 location/location.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/location/location.go b/location/location.go
index e57e260..20ba4df 100644
--- a/location/location.go
+++ b/location/location.go
@@ -207,11 +207,15 @@ func eachFrame(skip int, fn func(fr runtime.Frame) bool) {
 		skip += count
 
 		for {
-			fr, _ := iter.Next()
+			fr, more := iter.Next()
 
 			if fr.PC == 0 || !fn(fr) {
 				return
 			}
+
+			if !more {
+				break
+			}
 		}
 	}
 }
-- 
2.43.0


From 604bda655aaf46c0f35a3fb38cfd4f59252979c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:51:12 +0000
Subject: [PATCH 2/9] fix: call all cleanup functions of a ToSatisfy()
 expectation

A cleanup function that called FailNow(), SkipNow() or similar stopped the
remaining cleanup functions from being called, and hid a panic of the
expectation function. Functions registered by another cleanup function were
never called.
---
 expectation.satisfy.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/expectation.satisfy.go b/expectation.satisfy.go
index d4e85c9..4714378 100644
--- a/expectation.satisfy.go
+++ b/expectation.satisfy.go
@@ -364,9 +364,27 @@ func (t *SatisfyT) explain(fn string) {
 
 // close calls any functions registered via Cleanup().
 func (t *SatisfyT) close() {
-	for i := len(t.cleanup) - 1; i >= 0; i-- {
-		t.cleanup[i]()
+	n := len(t.cleanup) - 1
+	if n < 0 {
+		return
 	}
+
+	fn := t.cleanup[n]
+	t.cleanup = t.cleanup[:n]
+
+	// Always call the remaining functions, even if fn() aborts or panics.
+	defer t.close()
+
+	defer func() {
+		switch r := recover().(type) {
+		case abortSentinel, nil:
+			// An aborted cleanup function must not hide any other panic.
+		default:
+			panic(r)
+		}
+	}()
+
+	fn()
 }
 
 // findFrame searches, starting after skip frames, for the first caller frame
-- 
2.43.0


From f3b7abeb8128dc6091bedcd6d569d0a9467c09d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:51:13 +0000
Subject: [PATCH 3/9] fix: notify observers of parallel compaction from the
 main goroutine

Messages logged by a projection that is compacted while it handles an event
were sent to the observers from the compaction goroutine, concurrently with
the facts about the event. Observers are not required to be thread-safe.
---
 engine/internal/projection/controller.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/engine/internal/projection/controller.go b/engine/internal/projection/controller.go
index 3289cbe..0da1227 100644
--- a/engine/internal/projection/controller.go
+++ b/engine/internal/projection/controller.go
@@ -110,6 +110,7 @@ func (c *Controller) Handle(
 	}
 
 	compactResult := make(chan error, 1)
+	compactFacts := &fact.Buffer{}
 
 	if c.CompactDuringHandling {
 		// Ensure that notification of facts occurs in the main goroutine as
@@ -126,7 +127,7 @@ func (c *Controller) Handle(
 				ctx,
 				&scope{
 					config:   c.Config,
-					observer: obs,
+					observer: compactFacts,
 					now:      now,
 				},
 			)
@@ -157,6 +158,11 @@ func (c *Controller) Handle(
 	compactErr := <-compactResult
 
 	if c.CompactDuringHandling {
+		// Forward the facts produced by the compaction goroutine.
+		for _, f := range compactFacts.Facts() {
+			obs.Notify(f)
+		}
+
 		obs.Notify(fact.ProjectionCompactionCompleted{
 			Handler: c.Config,
 			Error:   compactErr,
-- 
2.43.0


From d2c8959c504179f746a82b082aec6b7ad87c1514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:51:13 +0000
Subject: [PATCH 4/9] fix: do not notify shared observers concurrently

The facts that begin a dispatch or tick cycle were published before the
engine's mutex was acquired. When several goroutines used the same engine
with the same observers, for example by executing commands concurrently
within a Call() action, these facts raced with the facts of the operation
that was in progress.
---
 engine/engine.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/engine/engine.go b/engine/engine.go
index 9f22317..31eec88 100644
--- a/engine/engine.go
+++ b/engine/engine.go
@@ -89,6 +89,13 @@ func (e *Engine) Tick(
 ) error {
 	oo := newOperationOptions(e, options)
 
+	// Acquire the lock before notifying the observers so that observers shared
+	// by several operations are not notified concurrently.
+	err := e.m.Lock(ctx)
+	if err == nil {
+		defer e.m.Unlock()
+	}
+
 	oo.observers.Notify(
 		fact.TickCycleBegun{
 			EngineTime:          oo.now,
@@ -97,9 +104,7 @@ func (e *Engine) Tick(
 		},
 	)
 
-	err := e.m.Lock(ctx)
 	if err == nil {
-		defer e.m.Unlock()
 		err = e.tick(ctx, oo)
 	}
 
@@ -210,6 +215,13 @@ func (e *Engine) Dispatch(
 		panic(fmt.Sprintf("the %s message type is not consumed by any handlers", mt))
 	}
 
+	// Acquire the lock before notifying the observers so that observers shared
+	// by several operations are not notified concurrently.
+	err = e.m.Lock(ctx)
+	if err == nil {
+		defer e.m.Unlock()
+	}
+
 	oo.observers.Notify(
 		fact.DispatchCycleBegun{
 			Envelope:            env,
@@ -219,9 +231,7 @@ func (e *Engine) Dispatch(
 		},
 	)
 
-	err = e.m.Lock(ctx)
 	if err == nil {
-		defer e.m.Unlock()
 		err = e.dispatch(ctx, oo, env)
 	}
 
-- 
2.43.0


From 818d00f1d41f9264762ef5af1ca738efaf547569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:30:45 +0000
Subject: [PATCH 5/9] fix: generate the ID of a dispatched message while
 holding the engine's lock

The ID was generated before the lock was acquired. Operations that ran
concurrently could get IDs out of order, and an engine that was reset in
between used the same ID for the dispatched message and for a message that it
caused.
---
 engine/engine.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/engine/engine.go b/engine/engine.go
index 31eec88..12bc766 100644
--- a/engine/engine.go
+++ b/engine/engine.go
@@ -192,6 +192,15 @@ func (e *Engine) Dispatch(
 	options ...OperationOption,
 ) error {
 	mt := message.TypeOf(m)
+
+	// Acquire the lock before generating the message ID so that the ID is not
+	// affected by other operations, and before notifying the observers so that
+	// observers shared by several operations are not notified concurrently.
+	lockErr := e.m.Lock(ctx)
+	if lockErr == nil {
+		defer e.m.Unlock()
+	}
+
 	id := e.messageIDs.Next()
 	oo := newOperationOptions(e, options)
 
@@ -215,13 +224,6 @@ func (e *Engine) Dispatch(
 		panic(fmt.Sprintf("the %s message type is not consumed by any handlers", mt))
 	}
 
-	// Acquire the lock before notifying the observers so that observers shared
-	// by several operations are not notified concurrently.
-	err = e.m.Lock(ctx)
-	if err == nil {
-		defer e.m.Unlock()
-	}
-
 	oo.observers.Notify(
 		fact.DispatchCycleBegun{
 			Envelope:            env,
@@ -231,7 +233,7 @@ func (e *Engine) Dispatch(
 		},
 	)
 
-	if err == nil {
+	if err = lockErr; err == nil {
 		err = e.dispatch(ctx, oo, env)
 	}
 
-- 
2.43.0


From 1991d3b81ed5693bdf9e724b06dd923ca9aa5c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:10:38 +0000
Subject: [PATCH 6/9] fix: do not lose functions registered while SatisfyT runs
 its cleanup functions

---
 expectation.satisfy.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/expectation.satisfy.go b/expectation.satisfy.go
index 4714378..0cb9458 100644
--- a/expectation.satisfy.go
+++ b/expectation.satisfy.go
@@ -364,13 +364,17 @@ func (t *SatisfyT) explain(fn string) {
 
 // close calls any functions registered via Cleanup().
 func (t *SatisfyT) close() {
+	// Do not hold the lock while calling the function, as it may use t itself.
+	t.m.Lock()
 	n := len(t.cleanup) - 1
 	if n < 0 {
+		t.m.Unlock()
 		return
 	}
 
 	fn := t.cleanup[n]
 	t.cleanup = t.cleanup[:n]
+	t.m.Unlock()
 
 	// Always call the remaining functions, even if fn() aborts or panics.
 	defer t.close()
-- 
2.43.0


From f519ecdb4b5981181b54d0185dd9da792df3366f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:15:38 +0000
Subject: [PATCH 7/9] fix: name ExecuteCommand() when it rejects an invalid
 command

The panic message of ExecuteCommand() named ToRecordEvent() instead.
---
 action.dispatch.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/action.dispatch.go b/action.dispatch.go
index 726aa93..c6ed2c6 100644
--- a/action.dispatch.go
+++ b/action.dispatch.go
@@ -20,7 +20,7 @@ func ExecuteCommand(m dogma.Command) Action {
 	mt := message.TypeOf(m)
 
 	if err := m.Validate(validation.CommandValidationScope()); err != nil {
-		panic(fmt.Sprintf("ToRecordEvent(%s): %s", mt, err))
+		panic(fmt.Sprintf("ExecuteCommand(%s): %s", mt, err))
 	}
 
 	return dispatchAction{
-- 
2.43.0


From 4ed2b4c8c9f97a0e55091cd62c93229ba29f6207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:25:13 +0000
Subject: [PATCH 8/9] fix: propagate panics of parallel compaction to the
 caller

---
 engine/internal/projection/controller.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/engine/internal/projection/controller.go b/engine/internal/projection/controller.go
index 0da1227..5bc08f4 100644
--- a/engine/internal/projection/controller.go
+++ b/engine/internal/projection/controller.go
@@ -109,6 +109,7 @@ func (c *Controller) Handle(
 		return nil, nil
 	}
 
+	var compactPanic any
 	compactResult := make(chan error, 1)
 	compactFacts := &fact.Buffer{}
 
@@ -123,6 +124,15 @@ func (c *Controller) Handle(
 		// handling the message. This is intended to ensure the implementation
 		// can actually handle such parallelism, which is required by the spec.
 		go func() {
+			// Capture any panic so that it can be propagated to the caller. It
+			// would otherwise crash the process.
+			defer close(compactResult)
+			defer func() {
+				if p := recover(); p != nil {
+					compactPanic = p
+				}
+			}()
+
 			compactResult <- c.Config.Handler().Compact(
 				ctx,
 				&scope{
@@ -163,6 +173,10 @@ func (c *Controller) Handle(
 			obs.Notify(f)
 		}
 
+		if compactPanic != nil {
+			panic(compactPanic)
+		}
+
 		obs.Notify(fact.ProjectionCompactionCompleted{
 			Handler: c.Config,
 			Error:   compactErr,
-- 
2.43.0


From 41856b8751d2bc74493e3f7c08c0dfb1839b6d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:44:47 +0000
Subject: [PATCH 9/9] fix: return the number of bytes written when writing a
 report fails

Report.WriteTo() returned zero if the destination failed, however much had
already been written. It now returns the number of bytes the destination
accepted, as io.WriterTo requires.
---
 report.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/report.go b/report.go
index 0f1cd26..e2f4719 100644
--- a/report.go
+++ b/report.go
@@ -99,9 +99,10 @@ func (r *Report) Append(sr *Report) {
 }
 
 // WriteTo writes the report to the given writer.
-func (r *Report) WriteTo(next io.Writer) (_ int64, err error) {
+func (r *Report) WriteTo(next io.Writer) (n int64, err error) {
 	defer must.Recover(&err)
 	w := count.NewWriter(next)
+	defer func() { n = w.Count64() }()
 
 	if r.Ok {
 		must.WriteString(w, "✓ ")
-- 
2.43.0

