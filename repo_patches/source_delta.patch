From 7101f47d567bd5f1d876169ff410ee1f0804f728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:43 +0000
Subject: [PATCH 01/64] fix: keep the shortened list when removing dispose and
 idle callbacks

The result of removeFromCallbacks was dropped, so the list kept its length
with the last entry duplicated: that idle callback was called twice per
change and released callbacks were never freed.
---
 directive/controller/instance.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/directive/controller/instance.go b/directive/controller/instance.go
index bf50e72..0d672aa 100644
--- a/directive/controller/instance.go
+++ b/directive/controller/instance.go
@@ -359,12 +359,12 @@ func (i *directiveInstance) handleIdleStateLocked() {
 
 // removeReleaseCallbackLocked removes a release callback while i.c.mtx is locked.
 func (i *directiveInstance) removeReleaseCallbackLocked(cb *callback[func()]) {
-	removeFromCallbacks(i.rels, cb)
+	i.rels = removeFromCallbacks(i.rels, cb)
 }
 
 // removeIdleCallbackLocked removes a idle callback while i.c.mtx is locked.
 func (i *directiveInstance) removeIdleCallbackLocked(cb *callback[directive.IdleCallback]) {
-	removeFromCallbacks(i.idles, cb)
+	i.idles = removeFromCallbacks(i.idles, cb)
 }
 
 // addValueLocked adds a value to the instance while i.c.mtx is locked
-- 
2.43.0


From a46f963bcae61464c88bcdf909ca59d8dd3b602b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:43 +0000
Subject: [PATCH 02/64] fix: report the idle state of a directive once its
 handlers were called

A directive without resolvers never became idle for callers which attached
an idle callback while the handlers were still being called, and was
reported idle too early if a resolver of a concurrently added handler went
idle first.
---
 directive/controller/controller.go | 6 +++++-
 directive/controller/instance.go   | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/directive/controller/controller.go b/directive/controller/controller.go
index 30a7243..5952301 100644
--- a/directive/controller/controller.go
+++ b/directive/controller/controller.go
@@ -105,12 +105,16 @@ func (c *Controller) AddDirective(
 	// attach returned resolvers while mtx is locked
 	c.mtx.Lock() // note: unlocked in Defer above
 
-	di.ready = true
 	if !di.released.Load() {
 		for _, res := range resolvers {
 			di.attachStartResolverLocked(res)
 		}
 	}
+	di.ready = true
+	if !di.released.Load() {
+		// the directive is idle now if no resolver was started
+		di.handleIdleStateLocked()
+	}
 
 	return di, diRef, nil
 }
diff --git a/directive/controller/instance.go b/directive/controller/instance.go
index 0d672aa..05145d0 100644
--- a/directive/controller/instance.go
+++ b/directive/controller/instance.go
@@ -334,7 +334,7 @@ func (i *directiveInstance) checkIdleLocked() bool {
 
 // handleIdleStateLocked checks if the idle state of the instance changes & handles that if so.
 func (i *directiveInstance) handleIdleStateLocked() {
-	idle := i.checkIdleLocked()
+	idle := i.ready && i.checkIdleLocked()
 	if i.idle == idle {
 		return
 	}
-- 
2.43.0


From 71a55065c4b6f0b728c75f1cced24d66b0306595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:43 +0000
Subject: [PATCH 03/64] fix: rescan the directives after superceeding one

removeLocked changes c.dir and unlocks c.mtx to call callbacks, so the range
loop used stale indexes (removing the wrong directive or panicking) and
missed equivalent directives added meanwhile.
---
 directive/controller/controller.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/directive/controller/controller.go b/directive/controller/controller.go
index 5952301..634c5a9 100644
--- a/directive/controller/controller.go
+++ b/directive/controller/controller.go
@@ -63,13 +63,16 @@ func (c *Controller) AddDirective(
 
 	// Check if any equivalent directives exist, if applicable.
 	if eqDir, eqDirOk := dir.(directive.DirectiveWithEquiv); eqDirOk {
-		for diIdx, di := range c.dir {
+		for diIdx := 0; diIdx < len(c.dir); diIdx++ {
+			di := c.dir[diIdx]
 			if !di.released.Load() && eqDir.IsEquivalent(di.dir) {
 				// Directive is equivalent to di.
 				spDir, spDirOk := eqDir.(directive.DirectiveWithSuperceeds)
 				if spDirOk && spDir.Superceeds(di.dir) {
 					// Remove the other directive (superceed it)
 					di.removeLocked(diIdx)
+					// c.dir changed and c.mtx may have been unlocked: scan again.
+					diIdx = -1
 				} else {
 					// Add a reference to the other directive & return.
 					return di, di.addReferenceLocked(ref, false), nil
-- 
2.43.0


From 452c9f1f1ff68590bb4b11d4a05bd10f41a88a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:43 +0000
Subject: [PATCH 04/64] fix: do not attach resolvers of removed handlers or
 directives

The handler or directive may be removed while HandleDirective is called with
the mutex unlocked. The returned resolvers were attached regardless and never
removed again.
---
 directive/controller/instance.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/directive/controller/instance.go b/directive/controller/instance.go
index 05145d0..1f1b861 100644
--- a/directive/controller/instance.go
+++ b/directive/controller/instance.go
@@ -616,6 +616,10 @@ func (i *directiveInstance) callHandlerUnlocked(handler *handler) (res []*resolv
 
 // attachStartResolverLocked attaches and starts a resolver while i.c.mtx is locked
 func (i *directiveInstance) attachStartResolverLocked(res *resolver) {
+	// ignore if the directive or the handler was removed in the meantime
+	if i.released.Load() || res.hnd.rel.Load() {
+		return
+	}
 	i.res = append(i.res, res)
 	if i.full {
 		res.idle = true
-- 
2.43.0


From 3e9688668d7213e3e69c5f779997779176bd0a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:43 +0000
Subject: [PATCH 05/64] fix: start resolvers attached while the value cap was
 reached

They were attached without being marked as stopped, so they were not started
when the number of values fell below the cap again.
---
 directive/controller/instance.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/directive/controller/instance.go b/directive/controller/instance.go
index 1f1b861..b6b234d 100644
--- a/directive/controller/instance.go
+++ b/directive/controller/instance.go
@@ -622,7 +622,9 @@ func (i *directiveInstance) attachStartResolverLocked(res *resolver) {
 	}
 	i.res = append(i.res, res)
 	if i.full {
+		// start once we are below the value cap
 		res.idle = true
+		res.stopped = true
 		res.updateContextLocked(nil)
 	} else {
 		res.updateContextLocked(&i.ctx)
-- 
2.43.0


From 04fc2ff5e64db113a7070a0b27ea3894f5fadf07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:43 +0000
Subject: [PATCH 06/64] fix: never execute a resolver concurrently with itself

An execution canceled while waiting for the previous one to return closed its
exitedCh right away, allowing the next execution to start while the first was
still running.
---
 directive/controller/resolver-handler.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/directive/controller/resolver-handler.go b/directive/controller/resolver-handler.go
index 0172199..adfef7d 100644
--- a/directive/controller/resolver-handler.go
+++ b/directive/controller/resolver-handler.go
@@ -172,10 +172,10 @@ func (r *resolverHandler) AddResolver(res directive.Resolver, removedCb func())
 func (r *resolverHandler) executeResolver(ctx context.Context, exitedCh chan<- struct{}, waitCh <-chan struct{}) {
 	defer close(exitedCh)
 	if waitCh != nil {
-		select {
-		case <-ctx.Done():
+		// always wait: the next execution waits for our exitedCh only
+		<-waitCh
+		if ctx.Err() != nil {
 			return
-		case <-waitCh:
 		}
 	}
 
-- 
2.43.0


From ef5045bbd3cb83226780e24429fccc69c1a66781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:43 +0000
Subject: [PATCH 07/64] fix: set the resolver context before calling idle
 callbacks

The callbacks are called with the mutex unlocked: if the resolver was removed
by or during one, it was started afterwards and never canceled.
---
 directive/controller/resolver.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/directive/controller/resolver.go b/directive/controller/resolver.go
index 64306e6..ca134ed 100644
--- a/directive/controller/resolver.go
+++ b/directive/controller/resolver.go
@@ -73,10 +73,11 @@ func (r *resolver) updateContextLocked(ctx *context.Context) {
 		r.exitedCh = exitedCh
 		r.err = nil
 		r.exited, r.stopped = false, false
-		r.setIdleLocked(false)
 		r.ctx, r.ctxCancel = context.WithCancel(*ctx)
 		hnd := &resolverHandler{r: r, ctx: r.ctx}
 		go hnd.executeResolver(r.ctx, exitedCh, waitCh)
+		// may unlock the mutex to call callbacks
+		r.setIdleLocked(false)
 	}
 }
 
-- 
2.43.0


From c8943ec51abd6c98f7498f107a846bd1e75c45b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:43 +0000
Subject: [PATCH 08/64] fix: iterate over copies of lists changed by callbacks

Callbacks are called with the mutex unlocked, the resolver and directive lists
may be changed in place meanwhile: removing a handler or crossing the value cap
skipped resolvers or directives.
---
 directive/controller/controller.go |  3 ++-
 directive/controller/instance.go   | 17 ++++++++++-------
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/directive/controller/controller.go b/directive/controller/controller.go
index 634c5a9..7d1ea92 100644
--- a/directive/controller/controller.go
+++ b/directive/controller/controller.go
@@ -204,7 +204,8 @@ func (c *Controller) removeHandlerLocked(hnd *handler) bool {
 		return false
 	}
 	// cancel all resolvers associated with the handler
-	for _, di := range c.dir {
+	// note: c.mtx may be unlocked to call callbacks
+	for _, di := range slices.Clone(c.dir) {
 		di.removeHandlerLocked(hnd)
 	}
 	return true
diff --git a/directive/controller/instance.go b/directive/controller/instance.go
index b6b234d..656b74e 100644
--- a/directive/controller/instance.go
+++ b/directive/controller/instance.go
@@ -280,15 +280,15 @@ func (i *directiveInstance) handleFullLocked() {
 	// we have enough values, reaching the maxVals cap
 	// mark resolvers with values as idle
 	// cancel non-idle resolvers with no values
+	// note: the idle callbacks are called once at the end, i.res does not change in this loop.
 	for _, res := range i.res {
 		if res.idle {
 			continue
 		}
+		res.idle = true
 		if !res.exited && len(res.vals) == 0 {
 			res.stopped = true
 			res.updateContextLocked(nil)
-		} else {
-			res.idle = true
 		}
 	}
 
@@ -304,7 +304,11 @@ func (i *directiveInstance) handleNotFullLocked() {
 
 	i.full = false
 	// restart resolvers that exited with errors and/or were killed
-	for _, res := range i.res {
+	// note: c.mtx may be unlocked to call the idle callbacks
+	for _, res := range slices.Clone(i.res) {
+		if i.full || !slices.Contains(i.res, res) {
+			continue
+		}
 		if (res.exited && res.err != nil) || res.stopped {
 			res.updateContextLocked(&i.ctx)
 		}
@@ -699,11 +703,10 @@ func (i *directiveInstance) removeLocked(diIdx int) {
 // removeHandlerLocked removes all resolvers associated with the handler.
 // caller locks c.mtx
 func (i *directiveInstance) removeHandlerLocked(hnd *handler) {
-	for idx := 0; idx < len(i.res); idx++ {
-		res := i.res[idx]
+	// note: c.mtx may be unlocked to call callbacks
+	for _, res := range slices.Clone(i.res) {
 		if res.hnd == hnd {
-			i.removeResolverLocked(idx, res)
-			idx--
+			i.removeResolverLocked(-1, res)
 		}
 	}
 }
-- 
2.43.0


From 35cbe57c95dcb038222b3d35255bb9c70df1d4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:19 +0000
Subject: [PATCH 09/64] fix: do not accept values of resolvers of a disposed
 directive

---
 directive/controller/resolver-handler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/directive/controller/resolver-handler.go b/directive/controller/resolver-handler.go
index adfef7d..98c0283 100644
--- a/directive/controller/resolver-handler.go
+++ b/directive/controller/resolver-handler.go
@@ -25,7 +25,7 @@ type resolverHandler struct {
 func (r *resolverHandler) AddValue(val directive.Value) (uint32, bool) {
 	r.r.di.c.mtx.Lock()
 	defer r.r.di.c.mtx.Unlock()
-	if r.r.ctx != r.ctx {
+	if r.r.ctx != r.ctx || r.r.di.released.Load() {
 		return 0, false
 	}
 	return r.r.di.addValueLocked(r.r, val)
-- 
2.43.0


From 1d98c76f5064f61d13123b529a9abd7a56d82bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:24 +0000
Subject: [PATCH 10/64] fix: cancel a removed resolver without unlocking before
 its values are removed

---
 directive/controller/instance.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/directive/controller/instance.go b/directive/controller/instance.go
index 656b74e..07ff3b1 100644
--- a/directive/controller/instance.go
+++ b/directive/controller/instance.go
@@ -547,7 +547,7 @@ func (i *directiveInstance) AddIdleCallback(cb directive.IdleCallback) func() {
 
 	rel := newCallback(cb)
 	i.idles = append(i.idles, rel)
-	isIdle := i.ready && i.checkIdleLocked()
+	isIdle := i.idle
 	errs := i.getResolverErrsLocked()
 	i.callCallbacksLocked(func() {
 		cb(isIdle, errs)
@@ -726,7 +726,13 @@ func (i *directiveInstance) removeResolverLocked(resIdx int, rres *resolver) {
 	// remove the resolver from the list
 	i.res = append(i.res[:resIdx], i.res[resIdx+1:]...)
 	// cancel the resolver
-	rres.updateContextLocked(nil)
+	// note: do not call the idle callbacks until the values are removed as
+	// references added in the meantime would not know about those values.
+	if rres.ctxCancel != nil {
+		rres.ctxCancel()
+		rres.ctx, rres.ctxCancel = nil, nil
+	}
+	rres.exited, rres.idle = true, true
 	// remove values associated with the resolver
 	vals := rres.vals
 	rres.vals = nil
-- 
2.43.0


From e5c11975fd7c819f1719fbd2611a3835e3559fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:09 +0000
Subject: [PATCH 11/64] fix: report a sub-resolver as removed if its handler
 was removed while adding it

---
 directive/controller/instance.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/directive/controller/instance.go b/directive/controller/instance.go
index 07ff3b1..7828f66 100644
--- a/directive/controller/instance.go
+++ b/directive/controller/instance.go
@@ -473,7 +473,7 @@ func (i *directiveInstance) addResolverRemovedCallbackLocked(res *resolver, cb f
 // attachStartSubResolverLocked adds and starts a sub-resolver for a parent resolver.
 // returns nil, nil, false if the resolver was already removed
 func (i *directiveInstance) attachStartSubResolverLocked(res *resolver, subRes directive.Resolver, removedCb func()) (func(), bool) {
-	if !slices.Contains(i.res, res) || res.hnd.rel.Load() || i.released.Load() {
+	if !slices.Contains(i.res, res) {
 		return nil, false
 	}
 
@@ -481,7 +481,9 @@ func (i *directiveInstance) attachStartSubResolverLocked(res *resolver, subRes d
 	if removedCb != nil {
 		subResReg.rels = append(subResReg.rels, newCallback(removedCb))
 	}
-	i.attachStartResolverLocked(subResReg)
+	if !i.attachStartResolverLocked(subResReg) {
+		return nil, false
+	}
 
 	return func() {
 		i.c.mtx.Lock()
@@ -619,10 +621,10 @@ func (i *directiveInstance) callHandlerUnlocked(handler *handler) (res []*resolv
 }
 
 // attachStartResolverLocked attaches and starts a resolver while i.c.mtx is locked
-func (i *directiveInstance) attachStartResolverLocked(res *resolver) {
-	// ignore if the directive or the handler was removed in the meantime
+// returns false if the directive or the handler was removed in the meantime
+func (i *directiveInstance) attachStartResolverLocked(res *resolver) bool {
 	if i.released.Load() || res.hnd.rel.Load() {
-		return
+		return false
 	}
 	i.res = append(i.res, res)
 	if i.full {
@@ -634,6 +636,7 @@ func (i *directiveInstance) attachStartResolverLocked(res *resolver) {
 		res.updateContextLocked(&i.ctx)
 		i.handleIdleStateLocked()
 	}
+	return true
 }
 
 // removeLocked removes the directive instance while i.c.mtx is locked.
-- 
2.43.0


From 424834f2946c89b9bd7f1e72b6b1de1b2a9672ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:21 +0000
Subject: [PATCH 12/64] fix: do not overwrite an earlier error in the one-off
 idle callback

---
 bus/oneoff.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bus/oneoff.go b/bus/oneoff.go
index 9046859..167044e 100644
--- a/bus/oneoff.go
+++ b/bus/oneoff.go
@@ -161,6 +161,10 @@ func ExecOneOffWithFilter(
 
 	defer di.AddIdleCallback(func(isIdle bool, errs []error) {
 		bcast.HoldLock(func(broadcast func(), getWaitCh func() <-chan struct{}) {
+			// do not overwrite an earlier result
+			if resErr != nil {
+				return
+			}
 			// idle or errors list changed
 			idle = isIdle
 			wait, resErr = idleCb(idle, errs)
-- 
2.43.0


From c2fa4e4c4c61d991a376d221947dc8bc1b6926b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:02 +0000
Subject: [PATCH 13/64] fix: report the error of a resolver which fails while
 the directive is idle

---
 directive/controller/instance.go         | 6 +++++-
 directive/controller/resolver-handler.go | 5 +++++
 directive/directive.go                   | 1 +
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/directive/controller/instance.go b/directive/controller/instance.go
index 7828f66..fce1d05 100644
--- a/directive/controller/instance.go
+++ b/directive/controller/instance.go
@@ -343,12 +343,16 @@ func (i *directiveInstance) handleIdleStateLocked() {
 		return
 	}
 	i.idle = idle
+	i.callIdleCallbacksLocked()
+}
 
+// callIdleCallbacksLocked calls the idle callbacks with the current state and resolver errors.
+func (i *directiveInstance) callIdleCallbacksLocked() {
 	if len(i.idles) == 0 {
 		return
 	}
 
-	errs := i.getResolverErrsLocked()
+	idle, errs := i.idle, i.getResolverErrsLocked()
 	var cbs []func()
 	for _, idleCb := range i.idles {
 		if !idleCb.released.Load() && idleCb.cb != nil {
diff --git a/directive/controller/resolver-handler.go b/directive/controller/resolver-handler.go
index 98c0283..37e7216 100644
--- a/directive/controller/resolver-handler.go
+++ b/directive/controller/resolver-handler.go
@@ -188,6 +188,11 @@ func (r *resolverHandler) executeResolver(ctx context.Context, exitedCh chan<- s
 	}
 	r.r.exited = true
 	r.r.err = err
+	if err != nil && r.r.idle && r.r.di.idle {
+		// the directive is already idle: the idle state does not change, report the error.
+		r.r.di.callIdleCallbacksLocked()
+		return
+	}
 	r.r.setIdleLocked(true)
 }
 
diff --git a/directive/directive.go b/directive/directive.go
index 3bf4883..b2705f7 100644
--- a/directive/directive.go
+++ b/directive/directive.go
@@ -204,6 +204,7 @@ type ReferenceHandler interface {
 }
 
 // IdleCallback is called when the directive becomes idle or not-idle.
+// It is called again if a resolver returns an error while the directive is idle.
 // Errs is the list of non-nil resolver errors.
 type IdleCallback func(isIdle bool, errs []error)
 
-- 
2.43.0


From ffef92cefb0db2e9a654ece5b3df45be9c12cdc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:02 +0000
Subject: [PATCH 14/64] fix: do not access the transformed value if the one-off
 was not successful

---
 bus/oneoff.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/bus/oneoff.go b/bus/oneoff.go
index 167044e..83b862b 100644
--- a/bus/oneoff.go
+++ b/bus/oneoff.go
@@ -302,7 +302,11 @@ func ExecOneOffWithXfrm(
 			return true, nil
 		},
 	)
-	return xfrm, av, di, ref, err
+	if err != nil || av == nil {
+		// note: the callback may still be running, do not access xfrm.
+		return nil, nil, di, ref, err
+	}
+	return xfrm, av, di, ref, nil
 }
 
 // ExecOneOffWithXfrmTyped executes a one-off directive with a transformation filter cb.
@@ -343,9 +347,9 @@ func ExecOneOffWithXfrmTyped[T, R directive.ComparableValue](
 		},
 	)
 	if err != nil || av == nil {
-		// ensure xfrm is empty too
+		// note: the callback may still be running, do not access xfrm.
 		var empty R
-		xfrm = empty
+		return empty, nil, di, ref, err
 	}
-	return xfrm, av, di, ref, err
+	return xfrm, av, di, ref, nil
 }
-- 
2.43.0


From a9b2ef9e3c7d6639bdfd5be2f622bae2802b196d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:58 +0000
Subject: [PATCH 15/64] fix: compare value ids without wrapping when sorting
 the watched values

---
 bus/watch.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bus/watch.go b/bus/watch.go
index 33e7193..9424a76 100644
--- a/bus/watch.go
+++ b/bus/watch.go
@@ -1,6 +1,7 @@
 package bus
 
 import (
+	"cmp"
 	"context"
 	"slices"
 	"sync"
@@ -159,7 +160,7 @@ func ExecOneOffWatchSelectCb[T directive.ComparableValue](
 				tav := directive.NewTypedAttachedValue(vid, val)
 				sortedVals = append(sortedVals, tav)
 				slices.SortFunc(sortedVals, func(a, b directive.TypedAttachedValue[T]) int {
-					return int(a.GetValueID() - b.GetValueID())
+					return cmp.Compare(a.GetValueID(), b.GetValueID())
 				})
 				selectNextValue()
 			},
@@ -468,7 +469,7 @@ func ExecOneOffWatchTransformEffect[T, E directive.ComparableValue](
 	var xfrmVals []directive.TransformedAttachedValue[T, E]
 	sortXfrmVals := func() {
 		slices.SortFunc(xfrmVals, func(a, b directive.TransformedAttachedValue[T, E]) int {
-			return int(a.GetValueID() - b.GetValueID())
+			return cmp.Compare(a.GetValueID(), b.GetValueID())
 		})
 	}
 
-- 
2.43.0


From 98075beec9391d7705894fa3b26e53ae6e7bee96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:09 +0000
Subject: [PATCH 16/64] fix: reselect the transformed value when values are
 removed

---
 bus/watch.go | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/bus/watch.go b/bus/watch.go
index 9424a76..e1953de 100644
--- a/bus/watch.go
+++ b/bus/watch.go
@@ -480,7 +480,7 @@ func ExecOneOffWatchTransformEffect[T, E directive.ComparableValue](
 		var selectedVal directive.TransformedAttachedValue[T, E]
 
 		var valueIdx int
-		if selectValue != nil {
+		if selectValue != nil && len(xfrmVals) != 0 {
 			valueIdx = selectValue(xfrmVals)
 		}
 		if valueIdx >= 0 && valueIdx < len(xfrmVals) {
@@ -493,9 +493,12 @@ func ExecOneOffWatchTransformEffect[T, E directive.ComparableValue](
 		}
 		if effectRel != nil {
 			effectRel()
+			effectRel = nil
 		}
 		effectVal = selectedValID
-		effectRel = effect(selectedVal)
+		if selectedVal != nil {
+			effectRel = effect(selectedVal)
+		}
 	}
 
 	return ExecWatchTransformEffect(
@@ -513,13 +516,7 @@ func ExecOneOffWatchTransformEffect[T, E directive.ComparableValue](
 				idx := slices.Index(xfrmVals, val)
 				if idx >= 0 {
 					xfrmVals = slices.Delete(xfrmVals, idx, idx+1)
-					if effectVal == val.GetValueID() {
-						effectVal = 0
-						if effectRel != nil {
-							effectRel()
-							effectRel = nil
-						}
-					}
+					maybeCallEffect()
 				}
 				mtx.Unlock()
 			}
-- 
2.43.0


From c82dfc5142fc00c8ba6ccfab67ed6d5d4c1f6eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:42 +0000
Subject: [PATCH 17/64] fix: pass the value and not the getter if there is no
 transform function

---
 bus/transform.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bus/transform.go b/bus/transform.go
index d27a7aa..b18571a 100644
--- a/bus/transform.go
+++ b/bus/transform.go
@@ -47,7 +47,7 @@ func (h *TransformHandler) HandleValueAdded(
 			return
 		}
 	} else {
-		val = v.GetValue
+		val = v.GetValue()
 	}
 
 	id, accepted := h.handler.AddValue(val)
-- 
2.43.0


From cec63f2172d9b345ba534c05edb0545adba01783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:54 +0000
Subject: [PATCH 18/64] fix: track the values of transform resolvers by source
 id and release them when the resolver ends

---
 directive/transform-resolver.go       | 45 ++++++++++++++++++++-------
 directive/typed-transform-resolver.go | 45 ++++++++++++++++++++-------
 2 files changed, 68 insertions(+), 22 deletions(-)

diff --git a/directive/transform-resolver.go b/directive/transform-resolver.go
index d5cffbf..24982d3 100644
--- a/directive/transform-resolver.go
+++ b/directive/transform-resolver.go
@@ -2,6 +2,7 @@ package directive
 
 import (
 	"context"
+	"sync"
 )
 
 // TransformAttachedValueFunc transforms an AttachedValue.
@@ -37,7 +38,24 @@ func (r *TransformResolver[T]) Resolve(ctx context.Context, handler ResolverHand
 		id  uint32
 		rel func()
 	}
+	// mtx guards below fields
+	var mtx sync.Mutex
+	// released indicates the resolver exited and the values were released
+	var released bool
+	// addedVals contains the added values keyed by the source value id
 	addedVals := make(map[uint32]addedVal)
+	releaseVals := func() {
+		mtx.Lock()
+		released = true
+		vals := addedVals
+		addedVals = nil
+		mtx.Unlock()
+		for _, val := range vals {
+			if val.rel != nil {
+				val.rel()
+			}
+		}
+	}
 	errCh := make(chan error, 1)
 	pushErr := func(err error) {
 		select {
@@ -76,17 +94,27 @@ func (r *TransformResolver[T]) Resolve(ctx context.Context, handler ResolverHand
 			}
 
 			id, accepted := handler.AddValue(val)
-			if accepted {
-				addedVals[id] = addedVal{id: av.GetValueID(), rel: valRel}
-			} else {
+			mtx.Lock()
+			keep := accepted && !released
+			if keep {
+				addedVals[av.GetValueID()] = addedVal{id: id, rel: valRel}
+			}
+			mtx.Unlock()
+			if !keep {
+				if accepted {
+					_, _ = handler.RemoveValue(id)
+				}
 				if valRel != nil {
 					valRel()
 				}
 			}
 		}, func(av AttachedValue) {
 			valueID := av.GetValueID()
-			if addedValue, ok := addedVals[valueID]; ok {
-				delete(addedVals, valueID)
+			mtx.Lock()
+			addedValue, ok := addedVals[valueID]
+			delete(addedVals, valueID)
+			mtx.Unlock()
+			if ok {
 				_, _ = handler.RemoveValue(addedValue.id)
 				if addedValue.rel != nil {
 					addedValue.rel()
@@ -95,18 +123,13 @@ func (r *TransformResolver[T]) Resolve(ctx context.Context, handler ResolverHand
 		},
 			func() {
 				pushErr(ErrDirectiveDisposed)
-				for id, val := range addedVals {
-					if val.rel != nil {
-						val.rel()
-					}
-					delete(addedVals, id)
-				}
 			},
 		),
 	)
 	if err != nil {
 		return err
 	}
+	defer releaseVals()
 	defer handler.ClearValues()
 	defer ref.Release()
 
diff --git a/directive/typed-transform-resolver.go b/directive/typed-transform-resolver.go
index 9a683ae..0d4366c 100644
--- a/directive/typed-transform-resolver.go
+++ b/directive/typed-transform-resolver.go
@@ -3,6 +3,7 @@ package directive
 import (
 	"context"
 	"errors"
+	"sync"
 )
 
 // TransformTypedAttachedValueFunc transforms a TypedAttachedValue.
@@ -50,7 +51,24 @@ func (r *TypedTransformResolver[V, T]) Resolve(ctx context.Context, handler Reso
 		id  uint32
 		rel func()
 	}
+	// mtx guards below fields
+	var mtx sync.Mutex
+	// released indicates the resolver exited and the values were released
+	var released bool
+	// addedVals contains the added values keyed by the source value id
 	addedVals := make(map[uint32]addedVal)
+	releaseVals := func() {
+		mtx.Lock()
+		released = true
+		vals := addedVals
+		addedVals = nil
+		mtx.Unlock()
+		for _, val := range vals {
+			if val.rel != nil {
+				val.rel()
+			}
+		}
+	}
 	errCh := make(chan error, 1)
 	pushErr := func(err error) {
 		select {
@@ -80,9 +98,16 @@ func (r *TypedTransformResolver[V, T]) Resolve(ctx context.Context, handler Reso
 				val = result
 
 				id, accepted := handler.AddValue(val)
-				if accepted {
-					addedVals[id] = addedVal{id: tav.GetValueID(), rel: rel}
-				} else {
+				mtx.Lock()
+				keep := accepted && !released
+				if keep {
+					addedVals[tav.GetValueID()] = addedVal{id: id, rel: rel}
+				}
+				mtx.Unlock()
+				if !keep {
+					if accepted {
+						_, _ = handler.RemoveValue(id)
+					}
 					if rel != nil {
 						rel()
 					}
@@ -90,8 +115,11 @@ func (r *TypedTransformResolver[V, T]) Resolve(ctx context.Context, handler Reso
 			},
 			func(tav TypedAttachedValue[V]) {
 				valueID := tav.GetValueID()
-				if addedValue, ok := addedVals[valueID]; ok {
-					delete(addedVals, valueID)
+				mtx.Lock()
+				addedValue, ok := addedVals[valueID]
+				delete(addedVals, valueID)
+				mtx.Unlock()
+				if ok {
 					_, _ = handler.RemoveValue(addedValue.id)
 					if addedValue.rel != nil {
 						addedValue.rel()
@@ -100,12 +128,6 @@ func (r *TypedTransformResolver[V, T]) Resolve(ctx context.Context, handler Reso
 			},
 			func() {
 				pushErr(ErrDirectiveDisposed)
-				for id, val := range addedVals {
-					if val.rel != nil {
-						val.rel()
-					}
-					delete(addedVals, id)
-				}
 			},
 			r.unknownTypeHandler,
 		),
@@ -113,6 +135,7 @@ func (r *TypedTransformResolver[V, T]) Resolve(ctx context.Context, handler Reso
 	if err != nil {
 		return err
 	}
+	defer releaseVals()
 	defer handler.ClearValues()
 	defer ref.Release()
 
-- 
2.43.0


From 1cf51e07f8b5859c09e0cea493d7b91e52f95091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:37 +0000
Subject: [PATCH 19/64] fix: forward a bridged directive which was added or
 offered again

---
 bus/bridge/bridge.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/bus/bridge/bridge.go b/bus/bridge/bridge.go
index 8bd8b30..6d2e7c3 100644
--- a/bus/bridge/bridge.go
+++ b/bus/bridge/bridge.go
@@ -26,7 +26,7 @@ type BusBridge struct {
 	// mtx guards below fields
 	mtx sync.Mutex
 	// seenDi is the list of seen ongoing directive instances
-	seenDi map[directive.Directive]struct{}
+	seenDi map[directive.Directive]directive.Instance
 }
 
 // FilterFn filters directive instances for the bus bridge.
@@ -37,7 +37,7 @@ func NewBusBridge(target bus.Bus, filterFn FilterFn) *BusBridge {
 	return &BusBridge{
 		target:   target,
 		filterFn: filterFn,
-		seenDi:   make(map[directive.Directive]struct{}),
+		seenDi:   make(map[directive.Directive]directive.Instance),
 	}
 }
 
@@ -78,9 +78,11 @@ func (b *BusBridge) HandleDirective(ctx context.Context, di directive.Instance)
 
 	dir := di.GetDirective()
 	b.mtx.Lock()
-	_, seen := b.seenDi[dir]
+	// the directive might have been added again (or offered again) since we saw it
+	seenDi, seen := b.seenDi[dir]
+	seen = seen && seenDi != di && seenDi.GetContext().Err() == nil
 	if !seen {
-		b.seenDi[dir] = struct{}{}
+		b.seenDi[dir] = di
 	}
 	b.mtx.Unlock()
 
@@ -93,7 +95,9 @@ func (b *BusBridge) HandleDirective(ctx context.Context, di directive.Instance)
 	// use separate goroutine to avoid mutex contention
 	go di.AddDisposeCallback(func() {
 		b.mtx.Lock()
-		delete(b.seenDi, dir)
+		if b.seenDi[dir] == di {
+			delete(b.seenDi, dir)
+		}
 		b.mtx.Unlock()
 	})
 
-- 
2.43.0


From 2b2050d7ea8e396178a2c0a719e69412ecd34195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:24 +0000
Subject: [PATCH 20/64] fix: access resolver: call the release function only
 once

---
 directive/access-resolver.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/directive/access-resolver.go b/directive/access-resolver.go
index 453e2b1..f713e8e 100644
--- a/directive/access-resolver.go
+++ b/directive/access-resolver.go
@@ -58,6 +58,11 @@ func (r *AccessResolver[T]) Resolve(ctx context.Context, handler ResolverHandler
 			return nil
 		}
 
+		// rel may be called by both the value removed callback and below.
+		if rel != nil {
+			rel = sync.OnceFunc(rel)
+		}
+
 		relCb := handler.AddValueRemovedCallback(valID, rel)
 		select {
 		case <-ctx.Done():
-- 
2.43.0


From 91ced19c1e8d0ad8503ac3fad05c863ce6259f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:24 +0000
Subject: [PATCH 21/64] fix: keyed getter resolver: handle release before the
 value was added

---
 directive/keyed-getter-resolver.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/directive/keyed-getter-resolver.go b/directive/keyed-getter-resolver.go
index 38a749e..063612a 100644
--- a/directive/keyed-getter-resolver.go
+++ b/directive/keyed-getter-resolver.go
@@ -36,8 +36,10 @@ func (r *KeyedGetterResolver[K, V]) Resolve(ctx context.Context, handler Resolve
 			waitCh = getWaitCh()
 		})
 
+		var released atomic.Bool
 		var valID atomic.Uint32
 		val, relVal, err := r.getter(ctx, r.key, func() {
+			released.Store(true)
 			old := valID.Swap(0)
 			if old != 0 {
 				_, _ = handler.RemoveValue(old)
@@ -68,9 +70,9 @@ func (r *KeyedGetterResolver[K, V]) Resolve(ctx context.Context, handler Resolve
 			}
 			return nil
 		}
-		if !valID.CompareAndSwap(0, addedValID) {
+		valID.Store(addedValID)
+		if released.Load() && valID.Swap(0) != 0 {
 			// already released
-			valID.Store(0)
 			if relVal != nil {
 				relVal()
 			}
-- 
2.43.0


From 8e9d19b27c3729523a373b176d8a452e32cd8c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:24 +0000
Subject: [PATCH 22/64] fix: retry resolver: stop retrying when the backoff
 says stop

---
 directive/resolver-retry.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/directive/resolver-retry.go b/directive/resolver-retry.go
index 8ce6c6d..90e06ad 100644
--- a/directive/resolver-retry.go
+++ b/directive/resolver-retry.go
@@ -39,6 +39,9 @@ func (r *RetryResolver) Resolve(ctx context.Context, handler ResolverHandler) er
 		}
 
 		nextBackOff := r.bo.NextBackOff()
+		if nextBackOff == backoff.Stop {
+			return err
+		}
 		r.le.
 			WithError(err).
 			Warnf("resolver returned error: backing off %s", nextBackOff.String())
-- 
2.43.0


From 02b9260d1c69a3fd7bebd724d54e4e8b35533489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:01 +0000
Subject: [PATCH 23/64] fix: bus: recover from panics in controllers

---
 bus/inmem/inmem.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bus/inmem/inmem.go b/bus/inmem/inmem.go
index 1765cfa..d3162c4 100644
--- a/bus/inmem/inmem.go
+++ b/bus/inmem/inmem.go
@@ -57,7 +57,6 @@ func (b *Bus) AddController(ctx context.Context, ctrl controller.Controller, cb
 	go func() {
 		var err error
 		defer func() {
-			b.handleControllerPanic(&err)
 			if err != nil {
 				subCtxCancel()
 				b.removeController(ctrl)
@@ -66,6 +65,8 @@ func (b *Bus) AddController(ctx context.Context, ctrl controller.Controller, cb
 				}
 			}
 		}()
+		// note: recover works only if called directly by the deferred function.
+		defer b.handleControllerPanic(&err)
 		err = ctrl.Execute(subCtx)
 	}()
 	return relFunc, nil
@@ -96,11 +97,12 @@ func (b *Bus) ExecuteController(ctx context.Context, c controller.Controller) (e
 	}
 
 	defer func() {
-		b.handleControllerPanic(&err)
 		if err != nil {
 			b.removeController(c)
 		}
 	}()
+	// note: recover works only if called directly by the deferred function.
+	defer b.handleControllerPanic(&err)
 
 	return c.Execute(ctx)
 }
-- 
2.43.0


From c7e780c08dd5cad39cab158047aa9ef911d17a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:01 +0000
Subject: [PATCH 24/64] fix: bus: do not hold the lock while adding and
 removing the controller handler

---
 bus/inmem/inmem.go | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/bus/inmem/inmem.go b/bus/inmem/inmem.go
index d3162c4..e96a605 100644
--- a/bus/inmem/inmem.go
+++ b/bus/inmem/inmem.go
@@ -114,31 +114,39 @@ func (b *Bus) RemoveController(c controller.Controller) {
 
 // addController adds a controller to the bus
 func (b *Bus) addController(c controller.Controller) error {
-	b.mtx.Lock()
+	// note: the handler may call back into the bus
 	rel, err := b.AddHandler(c)
-	if err == nil {
-		b.controllers = append(b.controllers, &attachedCtrl{
-			ctrl: c,
-			rel:  rel,
-		})
+	if err != nil {
+		return err
 	}
+
+	b.mtx.Lock()
+	b.controllers = append(b.controllers, &attachedCtrl{
+		ctrl: c,
+		rel:  rel,
+	})
 	b.mtx.Unlock()
-	return err
+	return nil
 }
 
 // removeController removes a controller from the bus
 func (b *Bus) removeController(c controller.Controller) {
+	var rel func()
 	b.mtx.Lock()
 	for i, ci := range b.controllers {
 		if ci.ctrl == c {
 			b.controllers[i] = b.controllers[len(b.controllers)-1]
 			b.controllers[len(b.controllers)-1] = nil
 			b.controllers = b.controllers[:len(b.controllers)-1]
-			ci.rel()
+			rel = ci.rel
 			break
 		}
 	}
 	b.mtx.Unlock()
+	// note: releasing the handler may call callbacks
+	if rel != nil {
+		rel()
+	}
 }
 
 // _ is a type assertion
-- 
2.43.0


From a0c92b67baf8b97968fdad770840168efe728816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:20 +0000
Subject: [PATCH 25/64] fix: bus: releasing a controller must not remove a
 later attachment of it

---
 bus/inmem/inmem.go | 45 ++++++++++++++++++++++++++-------------------
 1 file changed, 26 insertions(+), 19 deletions(-)

diff --git a/bus/inmem/inmem.go b/bus/inmem/inmem.go
index e96a605..c9d138f 100644
--- a/bus/inmem/inmem.go
+++ b/bus/inmem/inmem.go
@@ -45,21 +45,22 @@ func (b *Bus) GetControllers() []controller.Controller {
 // cb can be nil
 func (b *Bus) AddController(ctx context.Context, ctrl controller.Controller, cb func(exitErr error)) (func(), error) {
 	subCtx, subCtxCancel := context.WithCancel(ctx)
-	relFunc := func() {
-		subCtxCancel()
-		b.removeController(ctrl)
-	}
-	if err := b.addController(ctrl); err != nil {
+	attached, err := b.addController(ctrl)
+	if err != nil {
 		subCtxCancel()
 		_ = ctrl.Close()
 		return nil, err
 	}
+	relFunc := func() {
+		subCtxCancel()
+		b.removeAttachedController(attached)
+	}
 	go func() {
 		var err error
 		defer func() {
 			if err != nil {
 				subCtxCancel()
-				b.removeController(ctrl)
+				b.removeAttachedController(attached)
 				if cb != nil {
 					cb(err)
 				}
@@ -92,13 +93,14 @@ func (b *Bus) handleControllerPanic(outErr *error) {
 // The controller will receive directive callbacks.
 // If the controller returns nil, call RemoveController to remove the controller.
 func (b *Bus) ExecuteController(ctx context.Context, c controller.Controller) (err error) {
-	if err := b.addController(c); err != nil {
+	attached, err := b.addController(c)
+	if err != nil {
 		return err
 	}
 
 	defer func() {
 		if err != nil {
-			b.removeController(c)
+			b.removeAttachedController(attached)
 		}
 	}()
 	// note: recover works only if called directly by the deferred function.
@@ -109,32 +111,37 @@ func (b *Bus) ExecuteController(ctx context.Context, c controller.Controller) (e
 
 // RemoveController removes the controller from the bus.
 func (b *Bus) RemoveController(c controller.Controller) {
-	b.removeController(c)
+	b.removeController(func(ci *attachedCtrl) bool { return ci.ctrl == c })
 }
 
 // addController adds a controller to the bus
-func (b *Bus) addController(c controller.Controller) error {
+func (b *Bus) addController(c controller.Controller) (*attachedCtrl, error) {
 	// note: the handler may call back into the bus
 	rel, err := b.AddHandler(c)
 	if err != nil {
-		return err
+		return nil, err
 	}
 
+	attached := &attachedCtrl{ctrl: c, rel: rel}
 	b.mtx.Lock()
-	b.controllers = append(b.controllers, &attachedCtrl{
-		ctrl: c,
-		rel:  rel,
-	})
+	b.controllers = append(b.controllers, attached)
 	b.mtx.Unlock()
-	return nil
+	return attached, nil
+}
+
+// removeAttachedController removes a specific attachment of a controller from the bus.
+//
+// does nothing if it was removed already, even if the controller was added again since.
+func (b *Bus) removeAttachedController(attached *attachedCtrl) {
+	b.removeController(func(ci *attachedCtrl) bool { return ci == attached })
 }
 
-// removeController removes a controller from the bus
-func (b *Bus) removeController(c controller.Controller) {
+// removeController removes the first matching controller from the bus
+func (b *Bus) removeController(match func(ci *attachedCtrl) bool) {
 	var rel func()
 	b.mtx.Lock()
 	for i, ci := range b.controllers {
-		if ci.ctrl == c {
+		if match(ci) {
 			b.controllers[i] = b.controllers[len(b.controllers)-1]
 			b.controllers[len(b.controllers)-1] = nil
 			b.controllers = b.controllers[:len(b.controllers)-1]
-- 
2.43.0


From e93ad97e0d6ef5034674acf4845517e9b7be78b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:51 +0000
Subject: [PATCH 26/64] fix: loader: stop the controller when the resolver is
 cancelled

---
 controller/loader/loader-resolve.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/controller/loader/loader-resolve.go b/controller/loader/loader-resolve.go
index f586179..6bfefd5 100644
--- a/controller/loader/loader-resolve.go
+++ b/controller/loader/loader-resolve.go
@@ -155,7 +155,7 @@ func (c *resolver) Resolve(ctx context.Context, vh directive.ResolverHandler) er
 
 		// run execute
 		le.Debug("starting controller")
-		execErr := bus.ExecuteController(c.ctx, ci)
+		execErr := bus.ExecuteController(ctx, ci)
 
 		le := le.WithField("exec-dur", time.Since(t1).String())
 		ctxCanceled := ctx.Err() != nil
-- 
2.43.0


From dbccbd51d0fc3d63848182f1ab277b79e480bee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:51 +0000
Subject: [PATCH 27/64] fix: loader: return the error if the resolver gave up
 while waiting for a controller

---
 controller/loader/ex-load-controller.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/controller/loader/ex-load-controller.go b/controller/loader/ex-load-controller.go
index fe2691e..99436fa 100644
--- a/controller/loader/ex-load-controller.go
+++ b/controller/loader/ex-load-controller.go
@@ -47,11 +47,26 @@ func WaitExecControllerRunning(
 		return nil, nil, nil, err
 	}
 
+	// the resolver might give up without emitting a value
+	errCh := make(chan error, 1)
+	defer di.AddIdleCallback(directive.NewErrChIdleCallback(errCh, true))()
+
 	for {
 		select {
 		case <-subCtx.Done():
 			diRef.Release()
 			return nil, nil, nil, subCtx.Err()
+		case err := <-errCh:
+			// prefer the value if there is any
+			select {
+			case val := <-execValueCh:
+				if ctrl := val.GetController(); ctrl != nil && val.GetError() == nil {
+					return ctrl, di, diRef, nil
+				}
+			default:
+			}
+			diRef.Release()
+			return nil, nil, nil, err
 		case val := <-execValueCh:
 			if err := val.GetError(); err != nil {
 				diRef.Release()
-- 
2.43.0


From 95af767a30f6a3d6b5ad912608dd2d6029f78d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:56 +0000
Subject: [PATCH 28/64] fix: controller resolver: release the loaded controller
 when the resolver is cancelled

---
 controller/resolver/res-load-with-config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/controller/resolver/res-load-with-config.go b/controller/resolver/res-load-with-config.go
index 0140231..6cacb35 100644
--- a/controller/resolver/res-load-with-config.go
+++ b/controller/resolver/res-load-with-config.go
@@ -70,7 +70,7 @@ func (r *loadWithConfigResolver) Resolve(ctx context.Context, vh directive.Resol
 		factoryCtx = factoryWithCtx.GetFactoryContext()
 	}
 
-	valCtx, valCtxCancel := context.WithCancel(r.ctx)
+	valCtx, valCtxCancel := context.WithCancel(ctx)
 	execDir := loader.NewExecController(factory, conf)
 
 	// pass through all values.
-- 
2.43.0


From ac6166e8f871a48d641e1fa187e6e6d059f4fdae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:56 +0000
Subject: [PATCH 29/64] fix: controller resolver: use the retry backoff of the
 directive

---
 controller/resolver/res-load-with-config.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/controller/resolver/res-load-with-config.go b/controller/resolver/res-load-with-config.go
index 6cacb35..65c187a 100644
--- a/controller/resolver/res-load-with-config.go
+++ b/controller/resolver/res-load-with-config.go
@@ -71,7 +71,12 @@ func (r *loadWithConfigResolver) Resolve(ctx context.Context, vh directive.Resol
 	}
 
 	valCtx, valCtxCancel := context.WithCancel(ctx)
-	execDir := loader.NewExecController(factory, conf)
+	execDir := loader.NewExecControllerWithOpts(
+		factory,
+		conf,
+		r.dir.GetExecControllerRetryBackoff(),
+		directive.ValueOptions{},
+	)
 
 	// pass through all values.
 	_, execRef, err := r.bus.AddDirective(execDir, bus.NewPassThruHandler(vh, valCtxCancel))
-- 
2.43.0


From 12a4757a0c2872c5f935531d1d391517fa6c7f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:56 +0000
Subject: [PATCH 30/64] fix: static resolver: hold the lock while listing the
 factories

---
 controller/resolver/static/resolver.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/controller/resolver/static/resolver.go b/controller/resolver/static/resolver.go
index 4fff0a0..e87b1d2 100644
--- a/controller/resolver/static/resolver.go
+++ b/controller/resolver/static/resolver.go
@@ -69,7 +69,10 @@ func (r *Resolver) AddFactory(factory controller.Factory) {
 
 // GetFactories returns the factories associated w/ the resolver.
 func (r *Resolver) GetFactories() []controller.Factory {
+	r.factoryMtx.Lock()
 	vals := slices.Collect(maps.Values(r.factories))
+	r.factoryMtx.Unlock()
+
 	slices.SortFunc(vals, func(a, b controller.Factory) int {
 		return strings.Compare(a.GetConfigID(), b.GetConfigID())
 	})
-- 
2.43.0


From 4a9084cebb3a0df613fc878d8105dfe8da125481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:42 +0000
Subject: [PATCH 31/64] fix: configset: apply the new config after an invalid
 one

---
 controller/configset/controller/running-ctrl.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/controller/configset/controller/running-ctrl.go b/controller/configset/controller/running-ctrl.go
index 71be896..a6eec8f 100644
--- a/controller/configset/controller/running-ctrl.go
+++ b/controller/configset/controller/running-ctrl.go
@@ -90,6 +90,9 @@ func (c *runningController) Execute(ctx context.Context) (rerr error) {
 			case <-c.confRestartCh:
 				c.le.Info("restarting with new config")
 			}
+			c.mtx.Lock()
+			conf = c.conf
+			c.mtx.Unlock()
 			continue
 		}
 
-- 
2.43.0


From 82f4f2cf655c585a266e451265820dccab831ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:42 +0000
Subject: [PATCH 32/64] fix: configset: do not start controllers which are no
 longer referenced

---
 controller/configset/controller/controller.go | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/controller/configset/controller/controller.go b/controller/configset/controller/controller.go
index ef99228..4a0b9ca 100644
--- a/controller/configset/controller/controller.go
+++ b/controller/configset/controller/controller.go
@@ -60,17 +60,15 @@ ExecLoop:
 		}
 
 		c.mtx.Lock()
-		for k, cancel := range execControllers {
-			cv, ok := c.controllers[k]
-			if ok {
-				cv.mtx.Lock()
-				if len(cv.refs) == 0 { // garbage collect
-					delete(c.controllers, k)
-					ok = false
-				}
-				cv.mtx.Unlock()
+		for k, cv := range c.controllers {
+			cv.mtx.Lock()
+			if len(cv.refs) == 0 { // garbage collect
+				delete(c.controllers, k)
 			}
-			if !ok {
+			cv.mtx.Unlock()
+		}
+		for k, cancel := range execControllers {
+			if _, ok := c.controllers[k]; !ok {
 				cancel()
 				delete(execControllers, k)
 			}
-- 
2.43.0


From 2173901486b6ea0369ccceee3c90d917b9f67888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:08 +0000
Subject: [PATCH 33/64] fix: configset: do not hold the lock of the state
 callbacks while releasing references

---
 controller/configset/controller/apply-config-set.go  | 8 +++++---
 controller/configset/controller/lookup-config-set.go | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/controller/configset/controller/apply-config-set.go b/controller/configset/controller/apply-config-set.go
index 985bc55..3b56c73 100644
--- a/controller/configset/controller/apply-config-set.go
+++ b/controller/configset/controller/apply-config-set.go
@@ -112,11 +112,13 @@ func (r *applyConfigSetResolver) Resolve(
 func (r *applyConfigSetResolver) waitCleanupRefs(ctx context.Context) {
 	<-ctx.Done()
 	r.refsMtx.Lock()
-	for ref := range r.refs {
+	refs := r.refs
+	r.refs = make(map[configset.Reference]uint32)
+	r.refsMtx.Unlock()
+	// note: the state callbacks lock refsMtx
+	for ref := range refs {
 		ref.Release()
-		delete(r.refs, ref)
 	}
-	r.refsMtx.Unlock()
 }
 
 // _ is a type assertion
diff --git a/controller/configset/controller/lookup-config-set.go b/controller/configset/controller/lookup-config-set.go
index 06ab097..0ca6ae1 100644
--- a/controller/configset/controller/lookup-config-set.go
+++ b/controller/configset/controller/lookup-config-set.go
@@ -112,11 +112,13 @@ func (r *lookupConfigSetResolver) Resolve(
 func (r *lookupConfigSetResolver) waitCleanupRefs(ctx context.Context) {
 	<-ctx.Done()
 	r.refsMtx.Lock()
-	for ref := range r.refs {
+	refs := r.refs
+	r.refs = make(map[configset.Reference]uint32)
+	r.refsMtx.Unlock()
+	// note: the state callbacks lock refsMtx
+	for ref := range refs {
 		ref.Release()
-		delete(r.refs, ref)
 	}
-	r.refsMtx.Unlock()
 }
 
 // _ is a type assertion
-- 
2.43.0


From e8164253e6cfd10af591f954c5de9370447639e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:08 +0000
Subject: [PATCH 34/64] fix: configset: release references acquired after the
 directive was disposed

---
 controller/configset/controller/apply-config-set.go  | 6 ++++++
 controller/configset/controller/lookup-config-set.go | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/controller/configset/controller/apply-config-set.go b/controller/configset/controller/apply-config-set.go
index 3b56c73..6638e20 100644
--- a/controller/configset/controller/apply-config-set.go
+++ b/controller/configset/controller/apply-config-set.go
@@ -82,6 +82,12 @@ func (r *applyConfigSetResolver) Resolve(
 
 		// Add reference to running instance
 		r.refsMtx.Lock()
+		if err := r.ctx.Err(); err != nil {
+			// waitCleanupRefs might be done already
+			r.refsMtx.Unlock()
+			ref.Release()
+			return err
+		}
 		r.refs[ref] = 0
 		r.refsMtx.Unlock()
 		ref.AddStateCallback(func(st configset.State) {
diff --git a/controller/configset/controller/lookup-config-set.go b/controller/configset/controller/lookup-config-set.go
index 0ca6ae1..76ce6c9 100644
--- a/controller/configset/controller/lookup-config-set.go
+++ b/controller/configset/controller/lookup-config-set.go
@@ -82,6 +82,12 @@ func (r *lookupConfigSetResolver) Resolve(
 		}
 
 		r.refsMtx.Lock()
+		if err := r.ctx.Err(); err != nil {
+			// waitCleanupRefs might be done already
+			r.refsMtx.Unlock()
+			ref.Release()
+			return err
+		}
 		r.refs[ref] = 0
 		r.refsMtx.Unlock()
 		ref.AddStateCallback(func(st configset.State) {
-- 
2.43.0


From a3c74301baacb8bce0b619b13af293b7c60173c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:24 +0000
Subject: [PATCH 35/64] fix: configset: deliver the states to references
 without losing or reordering any

---
 .../configset/controller/running-ctrl-ref.go  | 22 ++++++++++++++-----
 .../configset/controller/running-ctrl.go      |  7 +++---
 2 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/controller/configset/controller/running-ctrl-ref.go b/controller/configset/controller/running-ctrl-ref.go
index 37b4837..736f61b 100644
--- a/controller/configset/controller/running-ctrl-ref.go
+++ b/controller/configset/controller/running-ctrl-ref.go
@@ -14,12 +14,16 @@ type runningControllerRef struct {
 	mtx sync.Mutex
 	cbs []func(configset.State)
 	rc  *runningController // may be nil
+	// st is the latest state
+	st configset.State
+	// released indicates Release was called
+	released bool
 
 	relOnce sync.Once
 }
 
 func newRunningControllerRef(id string, rc *runningController) *runningControllerRef {
-	return &runningControllerRef{id: id, rc: rc}
+	return &runningControllerRef{id: id, rc: rc, st: &runningControllerState{id: id}}
 }
 
 // GetConfigKey returns the configset key for this controller.
@@ -48,11 +52,11 @@ func (r *runningControllerRef) GetState() configset.State {
 // Should not block.
 // Will be called with the initial state.
 func (r *runningControllerRef) AddStateCallback(cb func(configset.State)) {
+	// note: hold the lock so that the callback is called with the states in order
 	r.mtx.Lock()
 	r.cbs = append(r.cbs, cb)
-	rc := r.rc
+	cb(r.st)
 	r.mtx.Unlock()
-	cb(rc.GetState())
 }
 
 // GetRunningController gets the running controller.
@@ -68,8 +72,9 @@ func (r *runningControllerRef) GetRunningController() *runningController {
 func (r *runningControllerRef) setRunningController(rc *runningController, st configset.State) bool {
 	var updated bool
 	r.mtx.Lock()
-	if r.rc != rc {
+	if r.rc != rc && !r.released {
 		r.rc = rc
+		r.st = st
 		updated = true
 		for _, cb := range r.cbs { // r.rc.pushState(st)
 			cb(st)
@@ -82,6 +87,7 @@ func (r *runningControllerRef) setRunningController(rc *runningController, st co
 // pushState pushes an updated state
 func (r *runningControllerRef) pushState(st configset.State) {
 	r.mtx.Lock()
+	r.st = st
 	for _, cb := range r.cbs {
 		cb(st)
 	}
@@ -91,8 +97,12 @@ func (r *runningControllerRef) pushState(st configset.State) {
 // Release releases the reference.
 func (r *runningControllerRef) Release() {
 	r.relOnce.Do(func() {
-		if r.rc != nil {
-			r.rc.DelReference(r)
+		r.mtx.Lock()
+		r.released = true
+		rc := r.rc
+		r.mtx.Unlock()
+		if rc != nil {
+			rc.DelReference(r)
 		}
 		if cb := r.relInternalCallback; cb != nil {
 			go r.relInternalCallback()
diff --git a/controller/configset/controller/running-ctrl.go b/controller/configset/controller/running-ctrl.go
index a6eec8f..ffe4fad 100644
--- a/controller/configset/controller/running-ctrl.go
+++ b/controller/configset/controller/running-ctrl.go
@@ -180,6 +180,8 @@ func (c *runningController) GetState() configset.State {
 func (c *runningController) AddReference(ref *runningControllerRef) {
 	c.mtx.Lock()
 	c.refs = append(c.refs, ref)
+	st := c.state
+	ref.pushState(&st)
 	c.mtx.Unlock()
 }
 
@@ -188,14 +190,13 @@ func (c *runningController) ApplyReference(ref *runningControllerRef) {
 	if ref.GetRunningController() == c {
 		return
 	}
+	// note: hold the lock so that no state is missed
 	c.mtx.Lock()
 	st := c.state
-	c.mtx.Unlock()
 	if ref.setRunningController(c, &st) {
-		c.mtx.Lock()
 		c.refs = append(c.refs, ref)
-		c.mtx.Unlock()
 	}
+	c.mtx.Unlock()
 }
 
 // DelReference removes a reference from the running controller.
-- 
2.43.0


From 73899c93105e0872896db4887acf8fa65bcbf188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:26 +0000
Subject: [PATCH 36/64] fix: configset: do not panic if an error cannot be
 compared

---
 .../configset/controller/running-ctrl-state.go      | 13 ++++++++++++-
 controller/configset/controller/running-ctrl.go     |  2 +-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/controller/configset/controller/running-ctrl-state.go b/controller/configset/controller/running-ctrl-state.go
index 95f148f..d85e6fe 100644
--- a/controller/configset/controller/running-ctrl-state.go
+++ b/controller/configset/controller/running-ctrl-state.go
@@ -1,6 +1,8 @@
 package configset_controller
 
 import (
+	"reflect"
+
 	"github.com/aperturerobotics/controllerbus/controller"
 	"github.com/aperturerobotics/controllerbus/controller/configset"
 )
@@ -38,7 +40,7 @@ func (s *runningControllerState) GetError() error {
 func (s *runningControllerState) Equals(other *runningControllerState) bool {
 	switch {
 	case s.id != other.id:
-	case s.err != other.err:
+	case !equalErrors(s.err, other.err):
 	case s.conf != other.conf:
 	case s.ctrl != other.ctrl:
 	default:
@@ -47,5 +49,14 @@ func (s *runningControllerState) Equals(other *runningControllerState) bool {
 	return false
 }
 
+// equalErrors checks if two errors are equal.
+// errors of types which cannot be compared are not equal.
+func equalErrors(e1, e2 error) bool {
+	if e1 == nil || e2 == nil {
+		return e1 == nil && e2 == nil
+	}
+	return reflect.ValueOf(e1).Comparable() && reflect.ValueOf(e2).Comparable() && e1 == e2
+}
+
 // _ is a type assertion
 var _ configset.State = ((*runningControllerState)(nil))
diff --git a/controller/configset/controller/running-ctrl.go b/controller/configset/controller/running-ctrl.go
index ffe4fad..4273752 100644
--- a/controller/configset/controller/running-ctrl.go
+++ b/controller/configset/controller/running-ctrl.go
@@ -133,7 +133,7 @@ func (c *runningController) Execute(ctx context.Context) (rerr error) {
 				uval := aval.GetValue()
 				c.mtx.Lock()
 				uerr := uval.GetError()
-				if uerr != nil && uerr != c.state.err {
+				if uerr != nil && !equalErrors(uerr, c.state.err) {
 					c.le.WithError(uerr).Warn("controller error")
 				}
 				c.state.err = uerr
-- 
2.43.0


From ffb3da2fa7dfbea2037db490c98e5dba9b2c8ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:29 +0000
Subject: [PATCH 37/64] fix: configset: compare config sets with unset configs

---
 controller/configset/configset.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/controller/configset/configset.go b/controller/configset/configset.go
index 27663cb..a3594e4 100644
--- a/controller/configset/configset.go
+++ b/controller/configset/configset.go
@@ -36,7 +36,12 @@ func (c ConfigSet) Equal(os ConfigSet) bool {
 		if !ok {
 			return false
 		}
-		if !ov.GetConfig().EqualsConfig(v.GetConfig()) {
+		vConf, ovConf := v.GetConfig(), ov.GetConfig()
+		if vConf == nil || ovConf == nil {
+			if vConf != nil || ovConf != nil {
+				return false
+			}
+		} else if !ovConf.EqualsConfig(vConf) {
 			return false
 		}
 		if ov.GetRev() != v.GetRev() {
-- 
2.43.0


From caf1db8848969ba288ba140d55b3d9bc91133ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:05 +0000
Subject: [PATCH 38/64] fix: configset: check that the config body is valid
 json

---
 controller/configset/proto/controller_config.go | 13 ++++++-------
 controller/configset/proto/errors.go            |  3 +++
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/controller/configset/proto/controller_config.go b/controller/configset/proto/controller_config.go
index e29108b..f3c7f53 100644
--- a/controller/configset/proto/controller_config.go
+++ b/controller/configset/proto/controller_config.go
@@ -3,6 +3,7 @@ package configset_proto
 import (
 	"context"
 	"encoding/base64"
+	stdjson "encoding/json"
 
 	"github.com/aperturerobotics/controllerbus/bus"
 	"github.com/aperturerobotics/controllerbus/config"
@@ -45,9 +46,8 @@ func (c *ControllerConfig) Validate() error {
 		// json if first character is {
 		if conf[0] == 123 {
 			// validate json
-			it := jsoniter.ParseBytes(conf)
-			if err := it.Error; err != nil {
-				return err
+			if !stdjson.Valid(conf) {
+				return ErrControllerConfigInvalidJSON
 			}
 		}
 	}
@@ -114,11 +114,10 @@ func (c *ControllerConfig) MarshalProtoJSON(s *json.MarshalState) {
 		s.WriteMoreIf(&wroteField)
 		s.WriteObjectField("config")
 		// Detect if config is JSON
-		if c.Config[0] == '{' && c.Config[len(c.Config)-1] == '}' {
+		if len(c.Config) != 0 && c.Config[0] == '{' && c.Config[len(c.Config)-1] == '}' {
 			// Ensure json is parseable
-			it := jsoniter.ParseBytes(c.Config)
-			if err := it.Error; err != nil {
-				s.SetError(errors.Wrap(err, "unable to parse config json"))
+			if !stdjson.Valid(c.Config) {
+				s.SetError(ErrControllerConfigInvalidJSON)
 				return
 			}
 			_, err := s.Write(c.Config)
diff --git a/controller/configset/proto/errors.go b/controller/configset/proto/errors.go
index 3872fe8..d692112 100644
--- a/controller/configset/proto/errors.go
+++ b/controller/configset/proto/errors.go
@@ -4,3 +4,6 @@ import "errors"
 
 // ErrControllerConfigIdEmpty is returned if the controller config id was empty.
 var ErrControllerConfigIdEmpty = errors.New("controller config id empty")
+
+// ErrControllerConfigInvalidJSON is returned if the json controller config could not be parsed.
+var ErrControllerConfigInvalidJSON = errors.New("controller config is not valid json")
-- 
2.43.0


From 194d56cea730c635284a2b9cc722b8ca7a09ebee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:05 +0000
Subject: [PATCH 39/64] fix: configset: resolve json configs without content,
 and more than once

---
 controller/configset/json/config.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/controller/configset/json/config.go b/controller/configset/json/config.go
index 48855e4..4d18003 100644
--- a/controller/configset/json/config.go
+++ b/controller/configset/json/config.go
@@ -33,6 +33,11 @@ func (c *Config) Resolve(ctx context.Context, configID string, b bus.Bus) error
 		return errors.New("cannot resolve nil config")
 	}
 
+	// skip if the config is already resolved.
+	if c.underlying != nil && c.pendingParseData == "" {
+		return nil
+	}
+
 	configCtorDir := resolver.NewLoadConfigConstructorByID(configID)
 	configCtorVal, _, configCtorRef, err := bus.ExecOneOff(ctx, b, configCtorDir, nil, nil)
 	if err != nil {
@@ -44,13 +49,17 @@ func (c *Config) Resolve(ctx context.Context, configID string, b bus.Bus) error
 	if !ctorOk {
 		return errors.New("load config constructor directive returned invalid object")
 	}
-	c.underlying = ctor.ConstructConfig()
-	if c.underlying == nil {
+	conf := ctor.ConstructConfig()
+	if conf == nil {
 		return errors.New("load config constructor returned nil object")
 	}
-	if err := c.underlying.UnmarshalJSON([]byte(c.pendingParseData)); err != nil {
-		return err
+	// if the config was not specified, use an empty config.
+	if c.pendingParseData != "" {
+		if err := conf.UnmarshalJSON([]byte(c.pendingParseData)); err != nil {
+			return err
+		}
 	}
+	c.underlying = conf
 	c.pendingParseData = ""
 	return nil
 }
-- 
2.43.0


From 36eeb4c412852ea696eb304ebd1fe6e126de4bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:05 +0000
Subject: [PATCH 40/64] fix: configset: return an error if a config of a json
 or yaml config set is null

---
 controller/configset/json/configset.go | 5 ++++-
 controller/configset/json/yaml.go      | 3 +++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/controller/configset/json/configset.go b/controller/configset/json/configset.go
index 02e0dd9..e0eff82 100644
--- a/controller/configset/json/configset.go
+++ b/controller/configset/json/configset.go
@@ -2,10 +2,10 @@ package configset_json
 
 import (
 	"context"
-	"errors"
 
 	"github.com/aperturerobotics/controllerbus/bus"
 	"github.com/aperturerobotics/controllerbus/controller/configset"
+	"github.com/pkg/errors"
 )
 
 // ConfigSet implements the JSON unmarshaling logic for a configset.
@@ -35,6 +35,9 @@ func (c ConfigSet) Resolve(ctx context.Context, b bus.Bus) (configset.ConfigSet,
 		if err != nil {
 			return nil, err
 		}
+		if cc == nil {
+			return nil, errors.Errorf("config %q was nil", k)
+		}
 
 		m[k] = configset.NewControllerConfig(cc.GetRev(), cc.GetConfig())
 	}
diff --git a/controller/configset/json/yaml.go b/controller/configset/json/yaml.go
index 8b11775..bc3184c 100644
--- a/controller/configset/json/yaml.go
+++ b/controller/configset/json/yaml.go
@@ -45,6 +45,9 @@ func UnmarshalYAML(
 		if err != nil {
 			return added, errors.Wrapf(err, "unmarshal config %q", id)
 		}
+		if cfg == nil {
+			return added, errors.Errorf("unmarshal config %q: config was nil", id)
+		}
 		ocs[id] = cfg
 		added = append(added, id)
 	}
-- 
2.43.0


From 535d57d25c72ec16fd2c2af20fe9647abd4b0e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:05 +0000
Subject: [PATCH 41/64] fix: configset: encode all strings correctly to yaml

---
 controller/configset/json/yaml.go | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/controller/configset/json/yaml.go b/controller/configset/json/yaml.go
index bc3184c..320b124 100644
--- a/controller/configset/json/yaml.go
+++ b/controller/configset/json/yaml.go
@@ -1,8 +1,11 @@
 package configset_json
 
 import (
+	"bytes"
 	"context"
 	"encoding/json"
+	"fmt"
+	"unicode/utf8"
 
 	"github.com/aperturerobotics/controllerbus/bus"
 	"github.com/aperturerobotics/controllerbus/controller/configset"
@@ -17,7 +20,27 @@ func MarshalYAML(cs configset.ConfigSet) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
-	return yaml.JSONToYAML(jdat)
+	return yaml.JSONToYAML(escapeJSONForYAML(jdat))
+}
+
+// escapeJSONForYAML escapes the characters which may be in a JSON string but
+// which YAML does not allow or considers to be a line break.
+func escapeJSONForYAML(jdat []byte) []byte {
+	isSpecial := func(r rune) bool {
+		return (r >= 0x7f && r <= 0x9f) || r == 0xfffe || r == 0xffff
+	}
+	if bytes.IndexFunc(jdat, isSpecial) < 0 {
+		return jdat
+	}
+	out := make([]byte, 0, len(jdat)+16)
+	for _, r := range string(jdat) {
+		if isSpecial(r) {
+			out = fmt.Appendf(out, "\\u%04x", r)
+		} else {
+			out = utf8.AppendRune(out, r)
+		}
+	}
+	return out
 }
 
 // UnmarshalYAML unmarshals a yaml to a config set, optionally overwriting existing.
-- 
2.43.0


From 1b02e2fc80ad3eda2aae3453088ca2045b161c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:05 +0000
Subject: [PATCH 42/64] fix: exec: report the states of the controllers in
 order, without blocking the bus

---
 controller/exec/exec-request.go | 78 ++++++++++++++-------------------
 controller/exec/exec.go         | 41 ++++++++---------
 controller/exec/value-queue.go  | 43 ++++++++++++++++++
 3 files changed, 95 insertions(+), 67 deletions(-)
 create mode 100644 controller/exec/value-queue.go

diff --git a/controller/exec/exec-request.go b/controller/exec/exec-request.go
index 9bfc6d5..33befb4 100644
--- a/controller/exec/exec-request.go
+++ b/controller/exec/exec-request.go
@@ -132,8 +132,7 @@ func (r *ExecControllerRequest) Execute(
 	subCtx, subCtxCancel := context.WithCancel(ctx)
 	defer subCtxCancel()
 
-	addedCh := make(chan configset.ApplyConfigSetValue, 1)
-	removedCh := make(chan configset.ApplyConfigSetValue, 1)
+	queue := newValueQueue[configset.ApplyConfigSetValue]()
 
 	_, dirRef, err := cbus.AddDirective(
 		configset.NewApplyConfigSet(confSet),
@@ -144,11 +143,7 @@ func (r *ExecControllerRequest) Execute(
 				if !csValOk || csVal == nil || csVal.GetId() == "" {
 					return
 				}
-				select {
-				case <-subCtx.Done():
-					return
-				case addedCh <- csVal:
-				}
+				queue.push(csVal, false)
 			},
 			// value removed
 			func(val directive.AttachedValue) {
@@ -156,11 +151,7 @@ func (r *ExecControllerRequest) Execute(
 				if !csValOk || csVal == nil || csVal.GetId() == "" {
 					return
 				}
-				select {
-				case <-subCtx.Done():
-					return
-				case removedCh <- csVal:
-				}
+				queue.push(csVal, true)
 			},
 			subCtxCancel,
 		),
@@ -170,46 +161,43 @@ func (r *ExecControllerRequest) Execute(
 	}
 	defer dirRef.Release()
 
+	handleEvent := func(csv configset.ApplyConfigSetValue, removed bool) error {
+		defer resp.Reset()
+		csvID := csv.GetId()
+		resp.Id = csvID
+		if removed {
+			// removed == value is no longer applicable.
+			resp.Status = ControllerStatus_ControllerStatus_CONFIGURING
+		} else if csvErr := csv.GetError(); csvErr != nil {
+			resp.Status = ControllerStatus_ControllerStatus_ERROR
+			resp.ErrorInfo = csvErr.Error()
+		} else if ctrl := csv.GetController(); ctrl != nil {
+			resp.Status = ControllerStatus_ControllerStatus_RUNNING
+			resp.ControllerInfo = ctrl.GetControllerInfo()
+		} else {
+			resp.Status = ControllerStatus_ControllerStatus_CONFIGURING
+		}
+		if resp.Status == ControllerStatus_ControllerStatus_CONFIGURING &&
+			prevStates[csvID] == resp.Status {
+			return nil
+		}
+		prevStates[csvID] = resp.Status
+		return callCb()
+	}
+
 	for {
 		select {
 		case <-subCtx.Done():
 			return subCtx.Err()
-		case csv := <-addedCh:
-			csvID := csv.GetId()
-			csvErr := csv.GetError()
-			resp.Id = csvID
-			if csvErr != nil {
-				resp.Status = ControllerStatus_ControllerStatus_ERROR
-				resp.ErrorInfo = csvErr.Error()
-			} else if ctrl := csv.GetController(); ctrl != nil {
-				ctrlInfo := ctrl.GetControllerInfo()
-				resp.Status = ControllerStatus_ControllerStatus_RUNNING
-				resp.ControllerInfo = ctrlInfo
-			} else {
-				resp.Status = ControllerStatus_ControllerStatus_CONFIGURING
-			}
-			if prevStates[csvID] != resp.Status ||
-				resp.Status != ControllerStatus_ControllerStatus_CONFIGURING {
-				prevStates[csvID] = resp.Status
-				if err := callCb(); err != nil {
-					return err
-				}
-			}
-			resp.Reset()
-		case csv := <-removedCh:
-			// removed == value is no longer applicable.
-			csvID := csv.GetId()
-			resp.Status = ControllerStatus_ControllerStatus_CONFIGURING
-			if prevStates[csvID] == resp.Status {
-				resp.Status = ControllerStatus_ControllerStatus_UNKNOWN
-				break
+		case <-queue.wake:
+		}
+		for _, event := range queue.popAll() {
+			if err := subCtx.Err(); err != nil {
+				return err
 			}
-			resp.Id = csvID
-			prevStates[csvID] = resp.Status
-			if err := callCb(); err != nil {
+			if err := handleEvent(event.value, event.removed); err != nil {
 				return err
 			}
-			resp.Reset()
 		}
 	}
 }
diff --git a/controller/exec/exec.go b/controller/exec/exec.go
index 84ece33..a2a5a4c 100644
--- a/controller/exec/exec.go
+++ b/controller/exec/exec.go
@@ -26,8 +26,7 @@ func ExecuteController(
 	subCtx, subCtxCancel := context.WithCancel(ctx)
 	defer subCtxCancel()
 
-	addedCh := make(chan resolver.LoadControllerWithConfigValue, 1)
-	removedCh := make(chan resolver.LoadControllerWithConfigValue, 1)
+	queue := newValueQueue[resolver.LoadControllerWithConfigValue]()
 
 	_, dirRef, err := cbus.AddDirective(
 		resolver.NewLoadControllerWithConfig(conf),
@@ -38,11 +37,7 @@ func ExecuteController(
 				if !csValOk || csVal == nil {
 					return
 				}
-				select {
-				case <-subCtx.Done():
-					return
-				case addedCh <- csVal:
-				}
+				queue.push(csVal, false)
 			},
 			// value removed
 			func(val directive.AttachedValue) {
@@ -50,11 +45,7 @@ func ExecuteController(
 				if !csValOk || csVal == nil {
 					return
 				}
-				select {
-				case <-subCtx.Done():
-					return
-				case removedCh <- csVal:
-				}
+				queue.push(csVal, true)
 			},
 			subCtxCancel,
 		),
@@ -78,23 +69,29 @@ func ExecuteController(
 			return nil
 		case <-subCtx.Done():
 			return subCtx.Err()
-		case csv := <-addedCh:
-			ctrl := csv.GetController()
-			csvErr := csv.GetError()
-			if csvErr != nil {
+		case <-queue.wake:
+		}
+		for _, event := range queue.popAll() {
+			if subCtx.Err() != nil {
+				break
+			}
+			ctrl := event.value.GetController()
+			if event.removed {
+				// removed == value is no longer applicable.
+				if ctrl != nil && prevState == ControllerStatus_ControllerStatus_RUNNING {
+					callCb(ControllerStatus_ControllerStatus_CONFIGURING)
+				}
+				continue
+			}
+			if err := event.value.GetError(); err != nil {
 				callCb(ControllerStatus_ControllerStatus_ERROR)
-				return csvErr
+				return err
 			}
 			if ctrl != nil {
 				callCb(ControllerStatus_ControllerStatus_RUNNING)
 			} else {
 				callCb(ControllerStatus_ControllerStatus_CONFIGURING)
 			}
-		case csv := <-removedCh:
-			// removed == value is no longer applicable.
-			if csv.GetController() != nil && prevState == ControllerStatus_ControllerStatus_RUNNING {
-				callCb(ControllerStatus_ControllerStatus_CONFIGURING)
-			}
 		}
 	}
 }
diff --git a/controller/exec/value-queue.go b/controller/exec/value-queue.go
new file mode 100644
index 0000000..4c49929
--- /dev/null
+++ b/controller/exec/value-queue.go
@@ -0,0 +1,43 @@
+package controller_exec
+
+import "sync"
+
+// valueEvent is a value which was added or removed.
+type valueEvent[T any] struct {
+	value   T
+	removed bool
+}
+
+// valueQueue queues added and removed values in the order of the callbacks.
+//
+// The callbacks of the bus are not blocked: the queue has no limit.
+type valueQueue[T any] struct {
+	wake  chan struct{}
+	mtx   sync.Mutex
+	queue []valueEvent[T]
+}
+
+// newValueQueue constructs a new valueQueue.
+func newValueQueue[T any]() *valueQueue[T] {
+	return &valueQueue[T]{wake: make(chan struct{}, 1)}
+}
+
+// push pushes an event to the end of the queue.
+func (q *valueQueue[T]) push(value T, removed bool) {
+	q.mtx.Lock()
+	q.queue = append(q.queue, valueEvent[T]{value: value, removed: removed})
+	q.mtx.Unlock()
+	select {
+	case q.wake <- struct{}{}:
+	default:
+	}
+}
+
+// popAll returns and clears the queued events.
+func (q *valueQueue[T]) popAll() []valueEvent[T] {
+	q.mtx.Lock()
+	events := q.queue
+	q.queue = nil
+	q.mtx.Unlock()
+	return events
+}
-- 
2.43.0


From c1f7b2bd0e01794bb70cf77272b9990a90b41e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:05 +0000
Subject: [PATCH 43/64] fix: exec: keep the proto configs unless yaml
 overwrites them, apply what is left of partial requests

---
 controller/exec/exec-request.go | 80 ++++++++++++++++-----------------
 1 file changed, 39 insertions(+), 41 deletions(-)

diff --git a/controller/exec/exec-request.go b/controller/exec/exec-request.go
index 33befb4..2255839 100644
--- a/controller/exec/exec-request.go
+++ b/controller/exec/exec-request.go
@@ -3,7 +3,6 @@ package controller_exec
 import (
 	"context"
 	"errors"
-	"sort"
 
 	"github.com/aperturerobotics/controllerbus/bus"
 	"github.com/aperturerobotics/controllerbus/controller/configset"
@@ -50,7 +49,6 @@ func (r *ExecControllerRequest) Execute(
 	cb func(*ExecControllerResponse) error,
 ) error {
 	var resp ExecControllerResponse
-	var err error
 	// callCb calls the callback.
 	callCb := func() error {
 		if cb != nil {
@@ -59,30 +57,38 @@ func (r *ExecControllerRequest) Execute(
 		return nil
 	}
 
-	var confSet configset.ConfigSet
-
 	rConfSet := r.GetConfigSet() // proto.Clone(r.GetConfigSet()).(*configset_proto.ConfigSet)
 	if rConfSet == nil && r.GetConfigSetYaml() == "" {
 		return errors.New("at least one config must be specified")
 	}
 	confsList := rConfSet.GetConfigs()
 	prevStates := make(map[string]ControllerStatus, len(confsList))
-	if !allowPartialSuccess && len(rConfSet.GetConfigs()) != 0 {
-		confSet, err = rConfSet.Resolve(ctx, cbus)
-	}
-	if err != nil {
-		return err
-	}
-	if confSet == nil {
-		confSet = make(configset.ConfigSet, len(confsList))
-	}
-	if confsList == nil {
-		confsList = make(map[string]*configset_proto.ControllerConfig)
+	confSet := make(configset.ConfigSet, len(confsList))
+
+	// resolve the configs, collecting the errors if partial success is allowed.
+	resolveErrs := make(map[string]error)
+	for csID, conf := range confsList {
+		if csID == "" && allowPartialSuccess {
+			continue
+		}
+		resolved, err := conf.Resolve(ctx, cbus)
+		if err == nil {
+			confSet[csID] = resolved
+			continue
+		}
+		if ctxErr := ctx.Err(); ctxErr != nil {
+			return ctxErr
+		}
+		if !allowPartialSuccess {
+			return err
+		}
+		resolveErrs[csID] = err
 	}
 
+	// add the yaml configs, existing configs are overwritten only if requested.
 	confsYAML := r.GetConfigSetYaml()
 	if confsYAML != "" {
-		addedConfs, err := configset_json.UnmarshalYAML(
+		_, err := configset_json.UnmarshalYAML(
 			ctx,
 			cbus,
 			[]byte(confsYAML),
@@ -92,41 +98,33 @@ func (r *ExecControllerRequest) Execute(
 		if err != nil {
 			return err
 		}
-		sort.Strings(addedConfs)
 	}
 
-	niniterr := 0
-	var lastniniterr error
+	// report the configs which failed to resolve.
+	var lastResolveErr error
+	var numResolveErrs int
 	// TODO: sort and send sorted
-	for csID, conf := range confsList {
-		if csID == "" {
+	for csID, err := range resolveErrs {
+		if _, ok := confSet[csID]; ok {
 			continue
 		}
-
-		if _, ok := confSet[csID]; !ok {
-			confSet[csID], err = conf.Resolve(ctx, cbus)
-			if err != nil {
-				resp.Id = csID
-				resp.Status = ControllerStatus_ControllerStatus_ERROR
-				resp.ErrorInfo = err.Error()
-				prevStates[csID] = resp.Status
-				if err := callCb(); err != nil {
-					return err
-				}
-				resp.Reset()
-				niniterr++
-				lastniniterr = err
-				delete(confSet, csID)
-			}
+		numResolveErrs++
+		lastResolveErr = err
+		resp.Id = csID
+		resp.Status = ControllerStatus_ControllerStatus_ERROR
+		resp.ErrorInfo = err.Error()
+		prevStates[csID] = resp.Status
+		if err := callCb(); err != nil {
+			return err
 		}
+		resp.Reset()
 	}
-	if niniterr == len(confsList) && len(confsList) != 0 {
-		if len(confsList) == 1 && lastniniterr != nil {
-			return lastniniterr
+	if numResolveErrs != 0 && len(confSet) == 0 {
+		if numResolveErrs == 1 {
+			return lastResolveErr
 		}
 		return ErrAllControllersFailed
 	}
-	resp.Reset()
 
 	// handle results of configset controller apply.
 	subCtx, subCtxCancel := context.WithCancel(ctx)
-- 
2.43.0


From f45847f832231717b6e2190197c7289927e6e8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:05 +0000
Subject: [PATCH 44/64] fix: bus: api: stop listening when the controller ends

---
 bus/api/controller/controller.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bus/api/controller/controller.go b/bus/api/controller/controller.go
index acdf9e7..6dcc71f 100644
--- a/bus/api/controller/controller.go
+++ b/bus/api/controller/controller.go
@@ -69,6 +69,7 @@ func (c *Controller) Execute(ctx context.Context) error {
 	if err != nil {
 		return err
 	}
+	defer lis.Close()
 
 	errCh := make(chan error, 1)
 	srv := srpc.NewServer(mux)
-- 
2.43.0


From 6bc30dd9e45004c4e86a9f8c4198ee6d3c793a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:30 +0000
Subject: [PATCH 45/64] fix: plugin: unloaded plugins do not resolve or
 construct anymore

---
 plugin/resolver.go              | 33 ++++++++++++++++++++++----
 plugin/static-plugin-factory.go | 41 +++++++++++++++++++++++----------
 2 files changed, 58 insertions(+), 16 deletions(-)

diff --git a/plugin/resolver.go b/plugin/resolver.go
index f6b803c..d877b4f 100644
--- a/plugin/resolver.go
+++ b/plugin/resolver.go
@@ -29,6 +29,7 @@ type Resolver struct {
 
 	mtx       sync.Mutex
 	preUnload []func()
+	unloaded  bool
 }
 
 // NewResolver constructs a new resolver with a plugin binary.
@@ -73,6 +74,9 @@ func (r *Resolver) GetResolverVersion() semver.Version {
 func (r *Resolver) GetConfigCtorByID(
 	ctx context.Context, id string,
 ) (config.Constructor, error) {
+	if r.isUnloaded() {
+		return nil, nil
+	}
 	return r.staticResolver.GetConfigCtorByID(ctx, id)
 }
 
@@ -82,6 +86,10 @@ func (r *Resolver) GetConfigCtorByID(
 func (r *Resolver) GetFactoryMatchingConfig(
 	ctx context.Context, c config.Config,
 ) (controller.Factory, error) {
+	if r.isUnloaded() {
+		return nil, nil
+	}
+
 	tfac, err := r.staticResolver.GetFactoryMatchingConfig(ctx, c)
 	if err != nil || tfac == nil {
 		return tfac, err
@@ -90,19 +98,36 @@ func (r *Resolver) GetFactoryMatchingConfig(
 	// wrap factories with pre-unload hook
 	sf := NewStaticPluginFactory(r.ctx, tfac, r.pluginBinaryID, r.bus)
 	r.mtx.Lock()
-	r.preUnload = append(r.preUnload, sf.Close)
+	unloaded := r.unloaded
+	if !unloaded {
+		r.preUnload = append(r.preUnload, sf.Close)
+	}
 	r.mtx.Unlock()
+	if unloaded {
+		sf.Close()
+		return nil, nil
+	}
 	return sf, nil
 }
 
+// isUnloaded checks if the plugin was unloaded.
+func (r *Resolver) isUnloaded() bool {
+	r.mtx.Lock()
+	defer r.mtx.Unlock()
+	return r.unloaded
+}
+
 // PrePluginUnload is called just before the plugin is unloaded.
 func (r *Resolver) PrePluginUnload() {
 	r.mtx.Lock()
-	for _, f := range r.preUnload {
-		f()
-	}
+	preUnload := r.preUnload
 	r.preUnload = nil
+	r.unloaded = true
 	r.mtx.Unlock()
+	// note: removing the controllers may call back into the resolver
+	for _, f := range preUnload {
+		f()
+	}
 }
 
 // _ is a type assertion
diff --git a/plugin/static-plugin-factory.go b/plugin/static-plugin-factory.go
index 81ca129..1e2a839 100644
--- a/plugin/static-plugin-factory.go
+++ b/plugin/static-plugin-factory.go
@@ -2,6 +2,7 @@ package plugin
 
 import (
 	"context"
+	"errors"
 	"sync"
 
 	"github.com/aperturerobotics/controllerbus/bus"
@@ -9,6 +10,9 @@ import (
 	"github.com/aperturerobotics/controllerbus/controller"
 )
 
+// ErrPluginUnloaded is returned if the plugin was unloaded.
+var ErrPluginUnloaded = errors.New("plugin unloaded")
+
 // StaticPluginFactory wraps a factory with a pre-close hook.
 type StaticPluginFactory struct {
 	controller.Factory
@@ -48,32 +52,45 @@ func (s *StaticPluginFactory) Construct(
 	conf config.Config,
 	opts controller.ConstructOpts,
 ) (controller.Controller, error) {
-	subController, err := s.Factory.Construct(ctx, conf, opts)
-	if err != nil {
-		return subController, err
+	if s.ctx.Err() != nil {
+		return nil, ErrPluginUnloaded
 	}
 
 	// Augment logging fields.
-	opts.Logger = opts.Logger.WithField("plugin-binary-id", s.binaryID)
+	opts.Logger = opts.GetLogger().WithField("plugin-binary-id", s.binaryID)
+
+	subController, err := s.Factory.Construct(ctx, conf, opts)
+	if err != nil || subController == nil {
+		return subController, err
+	}
 
 	// Ensure that the controller is removed just before we unload.
 	s.mtx.Lock()
-	s.preUnload = append(s.preUnload, func() {
-		s.bus.RemoveController(subController)
-	})
+	unloaded := s.ctx.Err() != nil
+	if !unloaded {
+		s.preUnload = append(s.preUnload, func() {
+			s.bus.RemoveController(subController)
+		})
+	}
 	s.mtx.Unlock()
-	return subController, err
+	if unloaded {
+		_ = subController.Close()
+		return nil, ErrPluginUnloaded
+	}
+	return subController, nil
 }
 
 // Close closes the static plugin factory.
 func (s *StaticPluginFactory) Close() {
-	s.ctxCancel()
 	s.mtx.Lock()
-	for _, f := range s.preUnload {
-		f()
-	}
+	s.ctxCancel()
+	preUnload := s.preUnload
 	s.preUnload = nil
 	s.mtx.Unlock()
+	// note: removing the controllers may call callbacks
+	for _, f := range preUnload {
+		f()
+	}
 }
 
 // _ is a type assertion
-- 
2.43.0


From bbed3433e781beda478c54fb7b53eee9ca2a1f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:30 +0000
Subject: [PATCH 46/64] fix: loader: stop the controller when its factory is
 unloaded

---
 controller/factory.go                    |  9 +++++++
 controller/loader/dir-exec-controller.go |  5 ++++
 controller/loader/loader-resolve.go      | 32 ++++++++++++++++++++++--
 3 files changed, 44 insertions(+), 2 deletions(-)

diff --git a/controller/factory.go b/controller/factory.go
index 4d6d264..8cd4fbd 100644
--- a/controller/factory.go
+++ b/controller/factory.go
@@ -45,6 +45,15 @@ type FactoryWithContext interface {
 	GetFactoryContext() context.Context
 }
 
+// GetFactoryContext returns the context that is canceled if the factory is unloaded.
+// If the factory cannot be unloaded, returns the background context.
+func GetFactoryContext(factory Factory) context.Context {
+	if withCtx, ok := factory.(FactoryWithContext); ok {
+		return withCtx.GetFactoryContext()
+	}
+	return context.Background()
+}
+
 // FactoryResolver looks up factories that match configurations.
 type FactoryResolver interface {
 	// GetResolverID returns the resolver identifier.
diff --git a/controller/loader/dir-exec-controller.go b/controller/loader/dir-exec-controller.go
index fc3e66c..8e98ef7 100644
--- a/controller/loader/dir-exec-controller.go
+++ b/controller/loader/dir-exec-controller.go
@@ -94,6 +94,11 @@ func (d *execController) IsEquivalent(other directive.Directive) bool {
 		return false
 	}
 
+	// If either of the factories was unloaded, do not share the controller.
+	if controller.GetFactoryContext(f).Err() != nil || controller.GetFactoryContext(otherf).Err() != nil {
+		return false
+	}
+
 	// If the two configurations are identical, de-duplicate the directive.
 	return d.GetExecControllerConfig().EqualsConfig(otherExec.GetExecControllerConfig())
 }
diff --git a/controller/loader/loader-resolve.go b/controller/loader/loader-resolve.go
index 6bfefd5..329c3c6 100644
--- a/controller/loader/loader-resolve.go
+++ b/controller/loader/loader-resolve.go
@@ -28,6 +28,9 @@ func newResolver(ctx context.Context, di directive.Instance, dir ExecController,
 	}
 }
 
+// ErrFactoryUnloaded is returned if the factory of the controller was unloaded.
+var ErrFactoryUnloaded = errors.New("controller factory was unloaded")
+
 // newExecBackoff constructs the default exec backoff.
 func newExecBackoff() backoff.BackOff {
 	ebo := backoff.NewExponentialBackOff()
@@ -65,6 +68,23 @@ func (c *resolver) Resolve(ctx context.Context, vh directive.ResolverHandler) er
 		execBackoff = newExecBackoff()
 	}
 
+	// stop the controller if the factory is unloaded.
+	factoryCtx := controller.GetFactoryContext(factory)
+	canUnload := factoryCtx.Done() != nil
+	if canUnload {
+		var ctxCancel context.CancelFunc
+		ctx, ctxCancel = context.WithCancel(ctx)
+		defer ctxCancel()
+		defer context.AfterFunc(factoryCtx, ctxCancel)()
+	}
+	// canceledErr returns the error to return if ctx was canceled.
+	canceledErr := func() error {
+		if factoryCtx.Err() != nil {
+			return ErrFactoryUnloaded
+		}
+		return context.Canceled
+	}
+
 	configID := factory.GetConfigID()
 	le := c.controller.le.WithField("config", configID)
 	bus := c.controller.bus
@@ -117,8 +137,9 @@ func (c *resolver) Resolve(ctx context.Context, vh directive.ResolverHandler) er
 
 			select {
 			case <-ctx.Done():
+				_ = vh.ClearValues()
 				closeCi()
-				return ctx.Err()
+				return canceledErr()
 			case <-boTimer.C:
 				if vidOk {
 					vh.RemoveValue(vid)
@@ -167,12 +188,19 @@ func (c *resolver) Resolve(ctx context.Context, vh directive.ResolverHandler) er
 			le.Debug("controller exited normally")
 		}
 
+		// keep the controller until the factory is unloaded.
+		if execErr == nil && canUnload && !ctxCanceled {
+			vh.MarkIdle(true)
+			<-ctx.Done()
+			ctxCanceled = true
+		}
+
 		// context was canceled, return now.
 		if ctxCanceled {
 			_ = vh.ClearValues()
 			bus.RemoveController(ci)
 			closeCi()
-			return context.Canceled
+			return canceledErr()
 		}
 
 		// an error occurred, try again.
-- 
2.43.0


From 076ee4c1f81a55ae0e01f1d968464f302f741761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:30 +0000
Subject: [PATCH 47/64] fix: resolver: drop the values of unloaded factories,
 use the own factory instead

---
 controller/resolver/res-load-with-config.go | 98 ++++++++++++++++-----
 1 file changed, 76 insertions(+), 22 deletions(-)

diff --git a/controller/resolver/res-load-with-config.go b/controller/resolver/res-load-with-config.go
index 65c187a..bc99a0a 100644
--- a/controller/resolver/res-load-with-config.go
+++ b/controller/resolver/res-load-with-config.go
@@ -2,6 +2,7 @@ package resolver
 
 import (
 	"context"
+	"sync/atomic"
 	"time"
 
 	"github.com/aperturerobotics/controllerbus/bus"
@@ -64,13 +65,7 @@ func (r *loadWithConfigResolver) Resolve(ctx context.Context, vh directive.Resol
 		}
 	}
 
-	factoryCtx := context.Background()
-	factoryWithCtx, factoryWithCtxOk := factory.(controller.FactoryWithContext)
-	if factoryWithCtxOk {
-		factoryCtx = factoryWithCtx.GetFactoryContext()
-	}
-
-	valCtx, valCtxCancel := context.WithCancel(ctx)
+	factoryCtx := controller.GetFactoryContext(factory)
 	execDir := loader.NewExecControllerWithOpts(
 		factory,
 		conf,
@@ -78,9 +73,34 @@ func (r *loadWithConfigResolver) Resolve(ctx context.Context, vh directive.Resol
 		directive.ValueOptions{},
 	)
 
-	// pass through all values.
-	_, execRef, err := r.bus.AddDirective(execDir, bus.NewPassThruHandler(vh, valCtxCancel))
-	if err != nil {
+	// addExecDir adds the directive, passing through all values.
+	addExecDir := func() (release func(), disposed, execFactoryCtx context.Context, err error) {
+		valCtx, valCtxCancel := context.WithCancel(ctx)
+		gate := &gateHandler{ResolverHandler: vh}
+		di, execRef, err := r.bus.AddDirective(execDir, bus.NewPassThruHandler(gate, valCtxCancel))
+		if err != nil {
+			valCtxCancel()
+			return nil, nil, nil, err
+		}
+		release = func() {
+			valCtxCancel()
+			gate.closed.Store(true)
+			execRef.Release()
+		}
+		// note: the directive may be shared, with another factory.
+		execFactoryCtx = factoryCtx
+		if dir, ok := di.GetDirective().(loader.ExecController); ok {
+			execFactoryCtx = controller.GetFactoryContext(dir.GetExecControllerFactory())
+		}
+		return release, valCtx, execFactoryCtx, nil
+	}
+	releaseFactory := func() {
+		if factoryRef != nil {
+			factoryRef.Release()
+		}
+	}
+
+	handleErr := func(err error) {
 		_, _ = vh.AddValue(loader.NewExecControllerValue(
 			time.Now(),
 			time.Time{},
@@ -90,29 +110,63 @@ func (r *loadWithConfigResolver) Resolve(ctx context.Context, vh directive.Resol
 		// config has to be invalid for it to have failed here.
 		// give up permanently
 		// return err
-		if factoryRef != nil {
-			factoryRef.Release()
-		}
+		releaseFactory()
+	}
+
+	release, disposed, execFactoryCtx, err := addExecDir()
+	if err != nil {
+		handleErr(err)
 		return nil
 	}
 
 	// cancel the reference when ctx is canceled
 	// note: it's correct to spawn a new goroutine here; indicate the resolver has exited.
 	go func() {
-		select {
-		case <-factoryCtx.Done():
-		case <-valCtx.Done():
-		case <-r.c.subCtx.Done():
-		}
-		valCtxCancel()
-		execRef.Release()
-		if factoryRef != nil {
-			factoryRef.Release()
+		for {
+			select {
+			case <-factoryCtx.Done():
+			case <-execFactoryCtx.Done():
+			case <-disposed.Done():
+			case <-r.c.subCtx.Done():
+			}
+			release()
+
+			// the values are not updated anymore.
+			unloaded := execFactoryCtx.Err() != nil || factoryCtx.Err() != nil
+			if unloaded && ctx.Err() == nil {
+				_ = vh.ClearValues()
+			}
+
+			// if the shared directive used another factory which was unloaded: use our factory.
+			if !unloaded || factoryCtx.Err() != nil || ctx.Err() != nil || r.c.subCtx.Err() != nil {
+				releaseFactory()
+				return
+			}
+			if release, disposed, execFactoryCtx, err = addExecDir(); err != nil {
+				handleErr(err)
+				return
+			}
 		}
 	}()
 
 	return nil
 }
 
+// gateHandler is a resolver handler which accepts values until it is closed.
+type gateHandler struct {
+	directive.ResolverHandler
+	closed atomic.Bool
+}
+
+// AddValue adds a value to the result, returning success and an ID.
+func (h *gateHandler) AddValue(val directive.Value) (uint32, bool) {
+	id, accepted := h.ResolverHandler.AddValue(val)
+	if accepted && h.closed.Load() {
+		h.RemoveValue(id)
+		return 0, false
+	}
+	return id, accepted
+}
+
 // _ is a type assertion
 var _ directive.Resolver = ((*loadWithConfigResolver)(nil))
-- 
2.43.0


From 9294958489dc932daa51c4ef145ea6306ccf3ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:40 +0000
Subject: [PATCH 48/64] fix: shared-library: cancel the context of the plugin
 resolver when unloading

---
 plugin/loader/shared-library/shared-library.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/plugin/loader/shared-library/shared-library.go b/plugin/loader/shared-library/shared-library.go
index 8b01eb6..5f20be4 100644
--- a/plugin/loader/shared-library/shared-library.go
+++ b/plugin/loader/shared-library/shared-library.go
@@ -70,11 +70,13 @@ func LoadPluginSharedLibrary(
 	if loadedPlugin == nil {
 		return nil, errors.New("could not load hot plugin, nil plugin global")
 	}
-	pluginResolver, err := loadedPlugin.NewPluginResolver(ctx, bus)
+	// note: subCtx is canceled when the plugin is about to be unloaded
+	subCtx, subCtxCancel := context.WithCancel(ctx)
+	pluginResolver, err := loadedPlugin.NewPluginResolver(subCtx, bus)
 	if err != nil {
+		subCtxCancel()
 		return nil, err
 	}
-	subCtx, subCtxCancel := context.WithCancel(ctx)
 	go func() {
 		resolverController := resolver.NewController(le, bus, pluginResolver)
 		err := bus.ExecuteController(
-- 
2.43.0


From 2cb5620a8be06abb286051fb962bda7da1269570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:40 +0000
Subject: [PATCH 49/64] fix: filesystem: do not miss plugins which change while
 syncing

---
 .../shared-library/filesystem/watcher.go      | 50 ++++++++++++++++---
 1 file changed, 43 insertions(+), 7 deletions(-)

diff --git a/plugin/loader/shared-library/filesystem/watcher.go b/plugin/loader/shared-library/filesystem/watcher.go
index 1210f23..28d7cb2 100644
--- a/plugin/loader/shared-library/filesystem/watcher.go
+++ b/plugin/loader/shared-library/filesystem/watcher.go
@@ -13,8 +13,8 @@ import (
 
 	"github.com/aperturerobotics/controllerbus/bus"
 	shared "github.com/aperturerobotics/controllerbus/plugin/loader/shared-library"
-	debounce_fswatcher "github.com/aperturerobotics/util/debounce-fswatcher"
 	"github.com/fsnotify/fsnotify"
+	"github.com/pkg/errors"
 	"github.com/sirupsen/logrus"
 )
 
@@ -182,15 +182,15 @@ func (w *Watcher) UnloadAll() {
 // Execute executes the watcher and loads / runs plugins.
 func (w *Watcher) Execute(ctx context.Context, syncDir string, watch bool) error {
 	defer w.UnloadAll()
-	if err := w.SyncPlugins(ctx, syncDir); err != nil {
-		return err
-	}
-
 	if !watch {
+		if err := w.SyncPlugins(ctx, syncDir); err != nil {
+			return err
+		}
 		<-ctx.Done()
 		return nil
 	}
 
+	// watch before syncing: do not miss changes made while syncing
 	watcher, err := fsnotify.NewWatcher()
 	if err != nil {
 		return err
@@ -201,15 +201,51 @@ func (w *Watcher) Execute(ctx context.Context, syncDir string, watch bool) error
 		return err
 	}
 
+	if err := w.SyncPlugins(ctx, syncDir); err != nil {
+		return err
+	}
+
 	for {
-		happened, err := debounce_fswatcher.DebounceFSWatcherEvents(ctx, watcher, debounceTime, nil)
+		happened, err := waitWatcherEvents(ctx, watcher)
 		if err != nil {
 			return err
 		}
 
-		w.le.Debugf("re-syncing plugins after %d filesystem events", len(happened))
+		w.le.Debugf("re-syncing plugins after %d filesystem events", happened)
 		if err := w.SyncPlugins(ctx, syncDir); err != nil {
 			return err
 		}
 	}
 }
+
+// waitWatcherEvents waits for events followed by debounceTime without events.
+//
+// Events which were already queued are not discarded.
+func waitWatcherEvents(ctx context.Context, watcher *fsnotify.Watcher) (int, error) {
+	var happened int
+	timer := time.NewTimer(debounceTime)
+	timer.Stop()
+	defer timer.Stop()
+	for {
+		select {
+		case <-ctx.Done():
+			return happened, ctx.Err()
+		case event, ok := <-watcher.Events:
+			if !ok {
+				return happened, fsnotify.ErrClosed
+			}
+			if event.Op&(fsnotify.Create|fsnotify.Rename|fsnotify.Write|fsnotify.Remove) == 0 {
+				continue
+			}
+			happened++
+			timer.Reset(debounceTime)
+		case err, ok := <-watcher.Errors:
+			if !ok {
+				return happened, fsnotify.ErrClosed
+			}
+			return happened, errors.Wrap(err, "watcher error")
+		case <-timer.C:
+			return happened, nil
+		}
+	}
+}
-- 
2.43.0


From 2a6f4b085ad2b9415bfd87d3a43807de374bad73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:27 +0000
Subject: [PATCH 50/64] fix: filesystem: finish unloading a plugin before it is
 loaded again

---
 plugin/loader/shared-library/filesystem/watcher.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/plugin/loader/shared-library/filesystem/watcher.go b/plugin/loader/shared-library/filesystem/watcher.go
index 28d7cb2..38f8e5e 100644
--- a/plugin/loader/shared-library/filesystem/watcher.go
+++ b/plugin/loader/shared-library/filesystem/watcher.go
@@ -44,17 +44,18 @@ func NewWatcher(le *logrus.Entry, bus bus.Bus) *Watcher {
 
 // UnloadPlugin unloads a loaded plugin by ID.
 func (w *Watcher) UnloadPlugin(id string) {
+	// note: the plugin must not be loaded again until it was unloaded
 	w.mtx.Lock()
+	defer w.mtx.Unlock()
+
 	plug, plugOk := w.loadedPlugins[id]
 	if !plugOk {
-		w.mtx.Unlock()
 		return
 	}
 	w.le.
 		WithField("plugin-path", id).
 		Info("unloading plugin")
 	delete(w.loadedPlugins, id)
-	w.mtx.Unlock()
 	plug.Close()
 }
 
-- 
2.43.0


From fcdecac8c8b9d463b7758d98365504fcfd39314a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:37 +0000
Subject: [PATCH 51/64] fix: plugin: cli: use the generated build prefix and
 binary id

---
 plugin/cli/compile.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugin/cli/compile.go b/plugin/cli/compile.go
index e15a48b..56df22c 100644
--- a/plugin/cli/compile.go
+++ b/plugin/cli/compile.go
@@ -84,7 +84,7 @@ func (a *CompilerArgs) setupCompiler(
 		WithField("plugin-binary-id", pluginBinaryID).
 		WithField("build-prefix", buildPrefix).
 		Infof("creating compiler for plugin with packages: %v", args)
-	hc, err := plugin_compiler.NewModuleCompiler(ctx, le, a.BuildPrefix, codegenDirPath, a.PluginBinaryID)
+	hc, err := plugin_compiler.NewModuleCompiler(ctx, le, buildPrefix, codegenDirPath, pluginBinaryID)
 	if err != nil {
 		return nil, nil, rel, err
 	}
-- 
2.43.0


From 2e71238fddda0b224ecfb0ff0996827ce95d0b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:38 +0000
Subject: [PATCH 52/64] fix: compiler: generate unique import names, in a
 stable order

---
 plugin/compiler/analysis.go |  3 ++-
 plugin/compiler/codegen.go  | 53 ++++++++++++++++++++++++++++++++++---
 2 files changed, 51 insertions(+), 5 deletions(-)

diff --git a/plugin/compiler/analysis.go b/plugin/compiler/analysis.go
index 323dc69..2ac6612 100644
--- a/plugin/compiler/analysis.go
+++ b/plugin/compiler/analysis.go
@@ -25,6 +25,7 @@ type Analysis struct {
 	// keyed by import path
 	imports map[string]*types.Package
 	// controllerFactories contains the set of packages containing controllers
+	// keyed by import path
 	controllerFactories map[string]*packages.Package
 	// module contains all factory modules
 	module map[string]*packages.Module
@@ -113,7 +114,7 @@ func AnalyzePackages(
 		factoryPkgImportPath := pkg.Types.Path()
 		if factoryCtorObj != nil {
 			le.Debugf("found factory ctor func: %s", factoryCtorObj.Type().String())
-			res.controllerFactories[BuildPackageName(pkg.Types)] = pkg
+			res.controllerFactories[factoryPkgImportPath] = pkg
 			if _, ok := res.imports[factoryPkgImportPath]; !ok {
 				le.
 					WithField("import-path", factoryPkgImportPath).
diff --git a/plugin/compiler/codegen.go b/plugin/compiler/codegen.go
index c7e7408..77c37b2 100644
--- a/plugin/compiler/codegen.go
+++ b/plugin/compiler/codegen.go
@@ -44,12 +44,53 @@ func FormatFile(gf *gast.File) ([]byte, error) {
 	return outDat.Bytes(), nil
 }
 
-// BuildPackageName builds the unique name for the package.
+// BuildPackageName builds the name for the package.
+//
+// Note: the name might not be unique.
 func BuildPackageName(pkg *types.Package) string {
 	// for now just use package name
 	return pkg.Name()
 }
 
+// reservedNames are the names which are already used in the plugin wrapper.
+var reservedNames = []string{
+	"BinaryFactories", "BinaryID", "BinaryVersion", "HotPluginBuildPrefix", "HotPluginBuildUUID",
+	"NewPlugin", "Plugin", plugin.PluginGlobalVar, "b", "init", "main", "nil",
+}
+
+// buildImportNames builds the unique names of the imports keyed by import path.
+func buildImportNames(imports map[string]*types.Package, importPaths []string) map[string]string {
+	used := make(map[string]struct{}, len(reservedNames)+len(importPaths))
+	for _, name := range reservedNames {
+		used[name] = struct{}{}
+	}
+	names := make(map[string]string, len(importPaths))
+	for _, impPath := range importPaths {
+		if imports[impPath] == nil {
+			// imported without an explicit name
+			names[impPath] = path.Base(impPath)
+			used[names[impPath]] = struct{}{}
+		}
+	}
+	for _, impPath := range importPaths {
+		impPkg := imports[impPath]
+		if impPkg == nil {
+			continue
+		}
+		baseName := BuildPackageName(impPkg)
+		name := baseName
+		for i := 2; ; i++ {
+			if _, ok := used[name]; !ok {
+				break
+			}
+			name = fmt.Sprintf("%s_%d", baseName, i)
+		}
+		names[impPath] = name
+		used[name] = struct{}{}
+	}
+	return names
+}
+
 // CodegenPluginWrapperFromAnalysis codegens a plugin wrapper from analysis.
 func CodegenPluginWrapperFromAnalysis(
 	le *logrus.Entry,
@@ -62,12 +103,13 @@ func CodegenPluginWrapperFromAnalysis(
 		importStrs = append(importStrs, impPkg)
 	}
 	sort.Strings(importStrs)
+	importNames := buildImportNames(a.imports, importStrs)
 	for _, impPath := range importStrs {
 		impPkg := a.imports[impPath]
 		// impPkg may be nil
 		var impIdent *gast.Ident
 		if impPkg != nil {
-			impIdent = gast.NewIdent(BuildPackageName(impPkg))
+			impIdent = gast.NewIdent(importNames[impPath])
 		}
 		allDecls = append(allDecls, &gast.GenDecl{
 			Tok: token.IMPORT,
@@ -117,14 +159,17 @@ func CodegenPluginWrapperFromAnalysis(
 
 	// Construct the elements of the slice to return from BinaryFactories.
 	var buildControllersElts []gast.Expr
-	for fpkg := range a.controllerFactories {
+	for _, impPath := range importStrs {
+		if _, ok := a.controllerFactories[impPath]; !ok {
+			continue
+		}
 		buildControllersElts = append(buildControllersElts, &gast.CallExpr{
 			Args: []gast.Expr{
 				gast.NewIdent("b"),
 			},
 			Fun: &gast.SelectorExpr{
 				Sel: gast.NewIdent("NewFactory"),
-				X:   gast.NewIdent(fpkg),
+				X:   gast.NewIdent(importNames[impPath]),
 			},
 		})
 	}
-- 
2.43.0


From 9ca437f2abdeed3817ccf648f2163ee38991ee48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:38 +0000
Subject: [PATCH 53/64] fix: compiler: filter the code files by the import path
 prefix

---
 plugin/compiler/analysis.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugin/compiler/analysis.go b/plugin/compiler/analysis.go
index 2ac6612..e3c5a8e 100644
--- a/plugin/compiler/analysis.go
+++ b/plugin/compiler/analysis.go
@@ -167,7 +167,7 @@ func (a *Analysis) GetProgramCodeFiles(
 		for i := range pak.Syntax {
 			pakImportPath := pak.PkgPath
 			if importPathPrefixFilter != "" &&
-				!strings.HasSuffix(pakImportPath, importPathPrefixFilter) {
+				!strings.HasPrefix(pakImportPath, importPathPrefixFilter) {
 				continue
 			}
 			if len(exactMatchFilter) != 0 {
-- 
2.43.0


From 8933b4a3bee9f1a676e78efd314a6ed77f222153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:38 +0000
Subject: [PATCH 54/64] fix: compiler: relocate every relative replacement in
 place

---
 plugin/compiler/module-utils.go | 37 +++++++++++----------------------
 1 file changed, 12 insertions(+), 25 deletions(-)

diff --git a/plugin/compiler/module-utils.go b/plugin/compiler/module-utils.go
index ad97190..b586add 100644
--- a/plugin/compiler/module-utils.go
+++ b/plugin/compiler/module-utils.go
@@ -42,11 +42,10 @@ func relocateGoModFile(
 		return err
 	}
 
-	var adjOps [](func() error)
 	for _, srcReplace := range modf.Replace {
 		newPath := srcReplace.New.Path
-		// if the path replacement has a ./ or ../ prefix, update the relative path
-		if strings.HasPrefix(newPath, "./") || strings.HasPrefix(newPath, "../") {
+		// if the path replacement is a relative path (., .., ./ or ../ prefix), update it
+		if modfile.IsDirectoryPath(newPath) && !filepath.IsAbs(newPath) {
 			// join the absolute path to the module with the relative replacement
 			// prevNewPathAbs is the absolute path to the replacement module.
 			prevNewPathAbs := filepath.Join(modPathAbs, newPath)
@@ -57,24 +56,12 @@ func relocateGoModFile(
 			}
 			// ensure starts with ./
 			newPathRelative = ensureStartsWithDotSlash(newPathRelative)
-			// add a new replacement to override the old
-			oldSrcReplacePath := srcReplace.Old.Path
-			oldSrcReplaceVersion := srcReplace.Old.Version
-			oldSrcReplaceNewVersion := srcReplace.New.Version
-			adjOps = append(adjOps, func() error {
-				return modf.AddReplace(
-					oldSrcReplacePath,
-					oldSrcReplaceVersion,
-					newPathRelative,
-					oldSrcReplaceNewVersion,
-				)
-			})
-		}
-	}
-
-	for _, op := range adjOps {
-		if err := op(); err != nil {
-			return err
+			// override the path in place
+			// note: AddReplace without a version drops the replacements of versions
+			srcReplace.New.Path = newPathRelative
+			if tokens := srcReplace.Syntax.Token; len(tokens) != 0 {
+				tokens[len(tokens)-1] = modfile.AutoQuote(newPathRelative)
+			}
 		}
 	}
 
@@ -84,9 +71,9 @@ func relocateGoModFile(
 
 // ensureStartsWithDotSlash returns the string with a ./ or ../ prefix
 func ensureStartsWithDotSlash(p string) string {
-	// ensure starts with ./ or ../ - check simply for '.'
-	if !strings.HasPrefix(p, dotSlash[:1]) {
-		p = dotSlash + p
+	parentDir := ".."
+	if p == parentDir || strings.HasPrefix(p, dotSlash) || strings.HasPrefix(p, parentDir+dotSlash[1:]) {
+		return p
 	}
-	return p
+	return dotSlash + p
 }
-- 
2.43.0


From b20e51a4af2a3c6b88715ea61bce16a6b8113aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:38 +0000
Subject: [PATCH 55/64] fix: compiler: cleanup removes only old versions of the
 plugin

---
 plugin/compiler/watcher.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/plugin/compiler/watcher.go b/plugin/compiler/watcher.go
index 9173ced..9971087 100644
--- a/plugin/compiler/watcher.go
+++ b/plugin/compiler/watcher.go
@@ -257,11 +257,11 @@ func CleanupOldVersions(le *logrus.Entry, pluginOutputPath string) error {
 	}
 	filenameRe, err := regexp.Compile(strings.Join([]string{
 		// match part 0
-		"(", regexp.QuoteMeta(pts[0]), ")",
+		"^(", regexp.QuoteMeta(pts[0]), ")",
 		// match build id
 		"([a-zA-Z0-9]*)",
 		// match part 1
-		"(", regexp.QuoteMeta(pts[1]), ")",
+		"(", regexp.QuoteMeta(pts[1]), ")$",
 	}, ""))
 	if err != nil {
 		return err
-- 
2.43.0


From 381aad267001e56c00e90b0f9f853c96201ca423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:38 +0000
Subject: [PATCH 56/64] fix: compiler: keep the build uuid in the intermediate
 file

---
 plugin/compiler/compiler.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/plugin/compiler/compiler.go b/plugin/compiler/compiler.go
index c34f14f..d0944ed 100644
--- a/plugin/compiler/compiler.go
+++ b/plugin/compiler/compiler.go
@@ -107,11 +107,7 @@ func CompilePluginFromFile(
 	}
 
 	// add the build ID to the code to make it unique
-	interFile, err := os.OpenFile(intermediateGoFile, os.O_WRONLY|os.O_APPEND, 0o644)
-	if err != nil {
-		return err
-	}
-	_, _ = interFile.Write([]byte("\nvar HotPluginBuildUUID = `" + hashStr + "`\n"))
+	dat = append(dat, []byte("\nvar HotPluginBuildUUID = `"+hashStr+"`\n")...)
 	if err := os.WriteFile(intermediateGoFile, dat, 0o644); err != nil {
 		return err
 	}
-- 
2.43.0


From 6195a5793175f72eda25530510b9c690eb0d0f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:38 +0000
Subject: [PATCH 57/64] fix: compiler: return an error if a package has no
 module

---
 plugin/compiler/module-compiler.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/plugin/compiler/module-compiler.go b/plugin/compiler/module-compiler.go
index 11a3277..8b8f991 100644
--- a/plugin/compiler/module-compiler.go
+++ b/plugin/compiler/module-compiler.go
@@ -324,6 +324,9 @@ func (m *ModuleCompiler) GenerateModules(analysis *Analysis, pluginBinaryVersion
 				errs,
 			)
 		}
+		if factoryPkg.Module == nil {
+			return errors.Errorf("no module was resolved for package %s", factoryPkg.PkgPath)
+		}
 		factoryPkgModPath := factoryPkg.Module.Path
 		factoryPkgCodegenPath, ok := moduleCodegenPaths[factoryPkgModPath]
 		if !ok {
-- 
2.43.0


From 710088a6b023a6a6081064881ce6992984609420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:38 +0000
Subject: [PATCH 58/64] fix: compiler: keep the analysis reusable, process
 modules in order

---
 plugin/compiler/module-compiler.go | 32 +++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/plugin/compiler/module-compiler.go b/plugin/compiler/module-compiler.go
index 8b8f991..0b3090d 100644
--- a/plugin/compiler/module-compiler.go
+++ b/plugin/compiler/module-compiler.go
@@ -13,6 +13,7 @@ import (
 	"os"
 	"path"
 	"path/filepath"
+	"sort"
 
 	"github.com/aperturerobotics/util/exec"
 	"github.com/mr-tron/base58/base58"
@@ -119,7 +120,14 @@ func (m *ModuleCompiler) GenerateModules(analysis *Analysis, pluginBinaryVersion
 
 	moduleCodegenPaths := make(map[string]string)
 	loadedModules := analysis.GetImportedModules()
-	for _, mod := range loadedModules {
+	// note: sorted, so that a module is processed before the modules nested in it.
+	loadedModulePaths := make([]string, 0, len(loadedModules))
+	for modPath := range loadedModules {
+		loadedModulePaths = append(loadedModulePaths, modPath)
+	}
+	sort.Strings(loadedModulePaths)
+	for _, modPath := range loadedModulePaths {
+		mod := loadedModules[modPath]
 		srcMod := mod
 		for mod.Replace != nil {
 			m.le.
@@ -247,7 +255,8 @@ func (m *ModuleCompiler) GenerateModules(analysis *Analysis, pluginBinaryVersion
 
 		// For each peer module that will be code-gen, add a replace statement.
 		// Note: replace statements /could/ be added on-demand
-		for _, peerMod := range loadedModules {
+		for _, peerModPath := range loadedModulePaths {
+			peerMod := loadedModules[peerModPath]
 			if peerMod == mod || peerMod.Path == srcMod.Path {
 				continue
 			}
@@ -284,7 +293,9 @@ func (m *ModuleCompiler) GenerateModules(analysis *Analysis, pluginBinaryVersion
 
 	}
 
-	rewritePackagesImports := func(pkgCodeFile *ast.File) {
+	// rewritePackagesImports returns a function to restore the import paths.
+	rewritePackagesImports := func(pkgCodeFile *ast.File) func() {
+		var restoreFns []func()
 		for _, pkgCodeImport := range pkgCodeFile.Imports {
 			pkgCodeImportPath := pkgCodeImport.Path.Value
 			if len(pkgCodeImportPath) < 2 {
@@ -297,8 +308,17 @@ func (m *ModuleCompiler) GenerateModules(analysis *Analysis, pluginBinaryVersion
 				continue
 			}
 			replacedTargetPath := path.Join(buildPrefix, targetPkg.Types.Path())
+			origValue := pkgCodeImport.Path.Value
+			restoreFns = append(restoreFns, func() {
+				pkgCodeImport.Path.Value = origValue
+			})
 			pkgCodeImport.Path.Value = fmt.Sprintf("%q", replacedTargetPath)
 		}
+		return func() {
+			for _, restore := range restoreFns {
+				restore()
+			}
+		}
 	}
 
 	formatCodeFile := func(pkgCodeFile *ast.File) ([]byte, error) {
@@ -343,7 +363,8 @@ func (m *ModuleCompiler) GenerateModules(analysis *Analysis, pluginBinaryVersion
 
 			// rewrite any imports if necessary.
 			// any generated packages will have the new prefix before them.
-			rewritePackagesImports(pkgCodeFile)
+			// restore the import paths afterwards: the analysis can be used again.
+			restoreImports := rewritePackagesImports(pkgCodeFile)
 
 			// build relative path to the code file from the module root.
 			codeFileRelativeToModule, err := filepath.Rel(factoryPkg.Module.Dir, pkgCodeFilePath)
@@ -361,6 +382,7 @@ func (m *ModuleCompiler) GenerateModules(analysis *Analysis, pluginBinaryVersion
 					Debug("formatting code file")
 			*/
 			outData, err := formatCodeFile(pkgCodeFile)
+			restoreImports()
 			if err != nil {
 				return err
 			}
@@ -423,7 +445,7 @@ func (m *ModuleCompiler) GenerateModules(analysis *Analysis, pluginBinaryVersion
 		return err
 	}
 	// Adjust the import paths.
-	rewritePackagesImports(gfile)
+	_ = rewritePackagesImports(gfile)
 	// Format to output pass #2
 	pluginCodeData, err = formatCodeFile(gfile)
 	if err != nil {
-- 
2.43.0


From 7955c917e6f33029e7604fa58afc7492fcff4b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:38 +0000
Subject: [PATCH 59/64] fix: compiler: never leave a partial copy of the plugin

---
 plugin/compiler/util.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/plugin/compiler/util.go b/plugin/compiler/util.go
index 86c941b..9060a2a 100644
--- a/plugin/compiler/util.go
+++ b/plugin/compiler/util.go
@@ -14,18 +14,27 @@ func copyFileFromTo(src, dest string) error {
 	}
 	defer ofile.Close()
 
-	outFileFd, err := os.OpenFile(dest, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0o644)
+	// write to a temporary file first: dest must never be a partial copy
+	tmpFile, err := os.CreateTemp(filepath.Dir(dest), ".copy-*.tmp")
 	if err != nil {
 		return err
 	}
-	defer outFileFd.Close()
+	defer os.Remove(tmpFile.Name())
 
-	_, err = io.Copy(outFileFd, ofile)
+	_, err = io.Copy(tmpFile, ofile)
+	if err == nil {
+		err = tmpFile.Chmod(0o644)
+	}
+	if err == nil {
+		err = tmpFile.Sync()
+	}
+	if cerr := tmpFile.Close(); err == nil {
+		err = cerr
+	}
 	if err != nil {
 		return err
 	}
-	err = outFileFd.Sync()
-	return err
+	return os.Rename(tmpFile.Name(), dest)
 }
 
 // filepathHasPrefix checks if a file path has a prefix.
-- 
2.43.0


From 453d69b80f2b1a343555b1327ce7bc866ec6659d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:38 +0000
Subject: [PATCH 60/64] fix: compiler: watch all files, compile again if
 changed while compiling

---
 plugin/compiler/watcher.go | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/plugin/compiler/watcher.go b/plugin/compiler/watcher.go
index 9971087..9c50fd1 100644
--- a/plugin/compiler/watcher.go
+++ b/plugin/compiler/watcher.go
@@ -151,6 +151,7 @@ func (w *Watcher) WatchCompilePlugin(
 	}
 
 	for {
+		compileStart := time.Now()
 		an, err := compilePlugin()
 		if err != nil {
 			return err
@@ -161,7 +162,7 @@ func (w *Watcher) WatchCompilePlugin(
 
 		// build file watchlist
 		watchedFiles := make(map[string]struct{})
-		codefileMap := an.GetProgramCodeFiles(w.packagePaths, "")
+		codefileMap := an.GetProgramCodeFiles(nil, "")
 		for _, filePaths := range codefileMap {
 		FilePathLoop:
 			for _, filePath := range filePaths {
@@ -218,6 +219,13 @@ func (w *Watcher) WatchCompilePlugin(
 			}
 		}
 
+		// compile again if a file changed while compiling
+		if filesChangedSince(watchedSourcePaths, compileStart) {
+			_ = watcher.Close()
+			le.Info("re-analyzing packages after changes while compiling")
+			continue
+		}
+
 		// wait for a file change
 		happened, err := debounce_fswatcher.DebounceFSWatcherEvents(
 			ctx,
@@ -239,6 +247,23 @@ func (w *Watcher) WatchCompilePlugin(
 	}
 }
 
+// filesChangedSince checks if any of the files was removed or changed.
+func filesChangedSince(filePaths map[string]struct{}, ts time.Time) bool {
+	// note: the timestamps of the filesystem are not as precise as the clock
+	ts = ts.Add(-50 * time.Millisecond)
+	for filePath := range filePaths {
+		st, err := os.Stat(filePath)
+		if err != nil {
+			return true
+		}
+		// note: ignore timestamps in the future, they would never settle
+		if mt := st.ModTime(); mt.After(ts) && !mt.After(time.Now()) {
+			return true
+		}
+	}
+	return false
+}
+
 // CleanupOldVersions cleans up old versions from the target path.
 func CleanupOldVersions(le *logrus.Entry, pluginOutputPath string) error {
 	pluginOutputFilename := path.Base(pluginOutputPath)
-- 
2.43.0


From e34309dbde7aa22f6e0823995fb3c58a9606147e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:19 +0000
Subject: [PATCH 61/64] fix: configset: keep the data of json configs which are
 not resolved when encoding

---
 controller/configset/json/config.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/controller/configset/json/config.go b/controller/configset/json/config.go
index 4d18003..d7a4f5b 100644
--- a/controller/configset/json/config.go
+++ b/controller/configset/json/config.go
@@ -79,6 +79,10 @@ func (c *Config) UnmarshalJSON(data []byte) error {
 
 // MarshalJSON marshals a controller config JSON blob.
 func (c *Config) MarshalJSON() ([]byte, error) {
+	// not resolved yet: keep the data as it is.
+	if c.pendingParseData != "" {
+		return []byte(c.pendingParseData), nil
+	}
 	if c.underlying == nil {
 		return []byte("null"), nil
 	}
-- 
2.43.0


From 46c3878c5f463820ec5dcf84a50db6aa7a3c5000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:18 +0000
Subject: [PATCH 62/64] fix: loader: do not retry after being canceled if there
 is no backoff

---
 controller/loader/loader-resolve.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/controller/loader/loader-resolve.go b/controller/loader/loader-resolve.go
index 329c3c6..3c23528 100644
--- a/controller/loader/loader-resolve.go
+++ b/controller/loader/loader-resolve.go
@@ -109,6 +109,11 @@ func (c *resolver) Resolve(ctx context.Context, vh directive.ResolverHandler) er
 
 		// if lastErr == nil: first run
 		if lastErr != nil {
+			// do not retry if canceled, even if there is no backoff
+			if ctx.Err() != nil {
+				closeCi()
+				return canceledErr()
+			}
 			execNextBo = execBackoff.NextBackOff()
 			if execNextBo == backoff.Stop {
 				closeCi()
-- 
2.43.0


From c0ae0cf36f3c20adf90ae84c3152e53a720bad47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:38 +0000
Subject: [PATCH 63/64] fix: loader: tell who waited for a controller when it
 leaves the running state

---
 controller/loader/ex-load-controller.go | 48 +++++++++++++++++++++----
 1 file changed, 42 insertions(+), 6 deletions(-)

diff --git a/controller/loader/ex-load-controller.go b/controller/loader/ex-load-controller.go
index 99436fa..3494efc 100644
--- a/controller/loader/ex-load-controller.go
+++ b/controller/loader/ex-load-controller.go
@@ -3,6 +3,7 @@ package loader
 import (
 	"context"
 	"errors"
+	"sync"
 
 	"github.com/aperturerobotics/controllerbus/bus"
 	"github.com/aperturerobotics/controllerbus/controller"
@@ -19,29 +20,60 @@ func WaitExecControllerRunning(
 	disposeCb func(),
 ) (controller.Controller, directive.Instance, directive.Reference, error) {
 	subCtx, subCtxCancel := context.WithCancel(ctx)
+	var disposeOnce sync.Once
 	dispose := func() {
 		subCtxCancel()
 		if disposeCb != nil {
-			disposeCb()
+			disposeOnce.Do(disposeCb)
 		}
 	}
 	defer subCtxCancel()
 
-	execValueCh := make(chan ExecControllerValue, 1)
+	// mtx guards the ids of the attached values and of the returned value
+	var mtx sync.Mutex
+	attached := make(map[uint32]struct{}, 1)
+	var returnedID uint32
+	// markReturned marks the value as returned to the caller.
+	markReturned := func(valID uint32) {
+		mtx.Lock()
+		returnedID = valID
+		_, ok := attached[valID]
+		mtx.Unlock()
+		if !ok {
+			dispose()
+		}
+	}
+
+	execValueCh := make(chan directive.TypedAttachedValue[ExecControllerValue], 1)
 	di, diRef, err := b.AddDirective(dir, bus.NewCallbackHandler(
 		func(av directive.AttachedValue) {
 			retVal, _ := av.GetValue().(ExecControllerValue)
 			if retVal != nil {
+				mtx.Lock()
+				attached[av.GetValueID()] = struct{}{}
+				mtx.Unlock()
 				select {
 				case <-execValueCh:
 				default:
 				}
 				select {
-				case execValueCh <- retVal:
+				case execValueCh <- directive.NewTypedAttachedValue(av.GetValueID(), retVal):
 				default:
 				}
 			}
-		}, nil, dispose,
+		},
+		func(av directive.AttachedValue) {
+			valID := av.GetValueID()
+			mtx.Lock()
+			delete(attached, valID)
+			wasReturned := returnedID == valID
+			mtx.Unlock()
+			// the state is no longer RUNNING
+			if wasReturned {
+				dispose()
+			}
+		},
+		dispose,
 	))
 	if err != nil {
 		return nil, nil, nil, err
@@ -59,20 +91,24 @@ func WaitExecControllerRunning(
 		case err := <-errCh:
 			// prefer the value if there is any
 			select {
-			case val := <-execValueCh:
+			case av := <-execValueCh:
+				val := av.GetValue()
 				if ctrl := val.GetController(); ctrl != nil && val.GetError() == nil {
+					markReturned(av.GetValueID())
 					return ctrl, di, diRef, nil
 				}
 			default:
 			}
 			diRef.Release()
 			return nil, nil, nil, err
-		case val := <-execValueCh:
+		case av := <-execValueCh:
+			val := av.GetValue()
 			if err := val.GetError(); err != nil {
 				diRef.Release()
 				return nil, nil, nil, err
 			}
 			if ctrl := val.GetController(); ctrl != nil {
+				markReturned(av.GetValueID())
 				return ctrl, di, diRef, nil
 			}
 		}
-- 
2.43.0


From a43aa053c8cf0383be3f0b835b01ab0e5459b3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:35 +0000
Subject: [PATCH 64/64] fix: a plugin kept a wrapped factory and its context
 for every lookup until it was unloaded

---
 plugin/resolver.go | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/plugin/resolver.go b/plugin/resolver.go
index d877b4f..a911c58 100644
--- a/plugin/resolver.go
+++ b/plugin/resolver.go
@@ -27,8 +27,9 @@ type Resolver struct {
 	staticResolver      *static.Resolver
 	bus                 bus.Bus
 
-	mtx       sync.Mutex
-	preUnload []func()
+	mtx sync.Mutex
+	// factories are the wrapped factories by config id.
+	factories map[string]*StaticPluginFactory
 	unloaded  bool
 }
 
@@ -56,6 +57,7 @@ func NewResolver(
 		staticResolver:      staticResolver,
 		pluginBinaryID:      pluginBinaryID,
 		pluginBinaryVersion: pluginBinaryVersion,
+		factories:           make(map[string]*StaticPluginFactory),
 	}
 }
 
@@ -95,18 +97,18 @@ func (r *Resolver) GetFactoryMatchingConfig(
 		return tfac, err
 	}
 
-	// wrap factories with pre-unload hook
-	sf := NewStaticPluginFactory(r.ctx, tfac, r.pluginBinaryID, r.bus)
+	// wrap factories with pre-unload hook, once per factory
+	id := c.GetConfigID()
 	r.mtx.Lock()
-	unloaded := r.unloaded
-	if !unloaded {
-		r.preUnload = append(r.preUnload, sf.Close)
-	}
-	r.mtx.Unlock()
-	if unloaded {
-		sf.Close()
+	defer r.mtx.Unlock()
+	if r.unloaded {
 		return nil, nil
 	}
+	sf := r.factories[id]
+	if sf == nil {
+		sf = NewStaticPluginFactory(r.ctx, tfac, r.pluginBinaryID, r.bus)
+		r.factories[id] = sf
+	}
 	return sf, nil
 }
 
@@ -120,13 +122,13 @@ func (r *Resolver) isUnloaded() bool {
 // PrePluginUnload is called just before the plugin is unloaded.
 func (r *Resolver) PrePluginUnload() {
 	r.mtx.Lock()
-	preUnload := r.preUnload
-	r.preUnload = nil
+	factories := r.factories
+	r.factories = nil
 	r.unloaded = true
 	r.mtx.Unlock()
 	// note: removing the controllers may call back into the resolver
-	for _, f := range preUnload {
-		f()
+	for _, f := range factories {
+		f.Close()
 	}
 }
 
-- 
2.43.0

