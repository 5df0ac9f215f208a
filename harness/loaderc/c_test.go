// Package loaderc checks the controller loader (C16).
package loaderc

import (
	"context"
	"errors"
	"fmt"
	"sync"
	"testing"
	"time"

	"github.com/aperturerobotics/controllerbus/bus"
	"github.com/aperturerobotics/controllerbus/controller"
	"github.com/aperturerobotics/controllerbus/controller/loader"
	"github.com/aperturerobotics/controllerbus/directive"
	cbackoff "github.com/aperturerobotics/util/backoff/cbackoff"
	"github.com/blang/semver/v4"

	"verifharness/bw"
	"verifharness/h"
	"verifharness/sc"
)

// req is a request to execute a controller (one live directive).
type req struct {
	t    *tb
	conf *sc.Conf
	fac  *sc.Fac
	// phase: "", construct, failed, backoff, run, done, stopped, cancelled
	phase   string
	due     time.Time
	lastErr error
	cur     *sc.Ctrl
	bo      string // script, default
	stopAt  int
	fails   int
	tries   int
	view    map[uint32]loader.ExecControllerValue
	inst    directive.Instance
	refs    []directive.Reference
	waits   []*waiter
	ended   time.Time // zero while live
	outs    []out
	dropped bool // never became a directive of its own
	left    int  // counts what ends the running state
}

func (r *req) phaseNow() string {
	r.t.mu.Lock()
	defer r.t.mu.Unlock()
	return r.phase
}

// out is an outcome a waiter may return.
type out struct {
	ctrl *sc.Ctrl
	err  error
}

type waiter struct {
	r        *req
	from     int // outs acceptable from this index
	ctx      context.Context
	cancel   context.CancelFunc
	typed    bool
	disposed int
	done     bool
	ctrl     *sc.Ctrl
	err      error
	ref      directive.Reference
	released bool
	left     int // r.left at the start of the wait, later at the last time the controller was seen running
	seen     bool
}

type tb struct {
	c    *h.C
	w    *bw.W
	e    *sc.Env
	mu   sync.Mutex
	reqs []*req
	facs []*sc.Fac
	relL func()
	// base is the number of controllers of the bench on the bus
}

func (t *tb) now() time.Time { return time.Now() }

func (t *tb) onConstruct(ctx context.Context, f *sc.Fac, conf *sc.Conf) (bool, error) {
	r := conf.Obj.(*req)
	t.e.Mu.Lock()
	for _, ct := range t.e.All {
		if ct.Conf == conf && ct.Closed == 0 {
			t.c.Fail("two-controllers", "a second controller is constructed for %s while %s is not closed", conf, ct.Name())
		}
	}
	t.e.Mu.Unlock()
	t.mu.Lock()
	t.c.Check(r.fac == f, "factory", "request for %s constructed by factory %s", conf, f.Tag)
	if !r.ended.IsZero() {
		t.c.Check(time.Since(r.ended) < 300*time.Millisecond, "retried-ended", "%s is constructed after the request ended", conf)
	}
	switch r.phase {
	case "":
	case "backoff":
		if !r.due.IsZero() {
			t.c.Check(!t.now().Before(r.due), "retried-early", "%s is constructed %v before its time", conf, time.Until(r.due))
		}
	default:
		if r.ended.IsZero() {
			t.c.Fail("constructed-unexpectedly", "%s is constructed in phase %s", conf, r.phase)
		}
	}
	r.phase = "construct"
	r.tries++
	r.left++
	t.mu.Unlock()
	if d := t.e.Rnd.Int(300); d < 200 && t.e.Rnd.Int(3) == 0 {
		if t.e.Rnd.Int(2) == 0 {
			time.Sleep(time.Duration(d) * time.Millisecond)
		} else {
			select {
			case <-ctx.Done():
			case <-time.After(time.Duration(d) * time.Millisecond):
			}
		}
	}
	x := t.e.Rnd.Int(100)
	if err := ctx.Err(); err != nil && t.e.Rnd.Int(2) == 0 {
		t.c.Ev("construct-cancelled", "%s", conf)
		t.mu.Lock()
		t.failedLocked(r, err)
		t.mu.Unlock()
		return false, err
	}
	switch {
	case x < 22:
		err := t.e.NewErr("construct")
		t.c.Ev("construct-err", "%s", conf)
		t.mu.Lock()
		t.failedLocked(r, err)
		t.mu.Unlock()
		return false, err
	case x < 25:
		t.c.Ev("construct-nil", "%s", conf)
		t.mu.Lock()
		r.phase = "stopped"
		r.lastErr = sc.ErrPanicVal
		r.outs = append(r.outs, out{err: sc.ErrPanicVal})
		t.mu.Unlock()
		return false, nil
	}
	return true, nil
}

func (t *tb) failedLocked(r *req, err error) {
	r.lastErr = err
	r.fails++
	r.phase = "failed"
	if r.bo == "default" {
		r.phase = "backoff"
		r.due = time.Time{}
	}
	r.outs = append(r.outs, out{err: err})
}

func (t *tb) onExecute(ct *sc.Ctrl, n int) sc.Step {
	r := ct.Conf.Obj.(*req)
	t.mu.Lock()
	if !r.ended.IsZero() {
		t.c.Check(time.Since(r.ended) < 300*time.Millisecond, "retried-ended", "%s is executed after the request ended", ct.Name())
	} else {
		switch {
		case n == 1:
			t.c.Check(r.phase == "construct", "executed-unexpectedly", "%s is executed in phase %s", ct.Name(), r.phase)
		default:
			t.c.Check(r.phase == "backoff", "executed-unexpectedly", "%s is executed again in phase %s", ct.Name(), r.phase)
			t.c.Check(r.due.IsZero() || !t.now().Before(r.due), "retried-early", "%s is executed %v before its time", ct.Name(), time.Until(r.due))
		}
	}
	r.phase = "run"
	r.cur = ct
	r.outs = append(r.outs, out{ctrl: ct})
	t.mu.Unlock()
	st := sc.Step{Delay: -1}
	rnd := t.e.Rnd
	switch x := rnd.Int(100); {
	case x < 40:
	case x < 50:
		st.Delay = 0
	default:
		st.Delay = time.Duration(1+rnd.Int(3000)) * time.Millisecond
	}
	st.End = []string{"nil", "nil", "err", "err", "err", "panic", "panic-val", "canceled"}[rnd.Int(8)]
	if rnd.Int(3) == 0 {
		st.Slow = time.Duration(rnd.Int(5)) * time.Millisecond
	}
	st.NilOnCancel = rnd.Int(5) == 0
	return st
}

func (t *tb) onReturn(ct *sc.Ctrl, err error, cancelled bool) {
	r := ct.Conf.Obj.(*req)
	t.mu.Lock()
	defer t.mu.Unlock()
	if cancelled || err != nil {
		r.left++
	}
	switch {
	case cancelled:
		r.phase = "cancelled"
	case err == nil:
		r.phase = "done"
	default:
		t.failedLocked(r, err)
	}
}

type bo struct {
	t *tb
	r *req
}

func (b *bo) Reset() {}

// NextBackOff follows the script.
func (b *bo) NextBackOff() time.Duration {
	b.t.mu.Lock()
	defer b.t.mu.Unlock()
	r := b.r
	if r.ended.IsZero() {
		b.t.c.Check(r.phase == "failed", "backoff-unexpected", "backoff of %s asked in phase %s", r.conf, r.phase)
	}
	if r.stopAt >= 0 && r.fails > r.stopAt {
		r.phase = "stopped"
		b.t.c.Ev("bo-stop", "")
		return cbackoff.Stop
	}
	d := time.Duration(b.t.e.Rnd.Int(2000)) * time.Millisecond
	if b.t.e.Rnd.Int(8) == 0 {
		d = 0
	}
	r.phase = "backoff"
	r.due = time.Now().Add(d)
	b.t.c.Ev("bo", "%v", d)
	return d
}

func (t *tb) newReq(conf *sc.Conf, fac *sc.Fac) (*req, directive.Directive) {
	r := &req{t: t, conf: conf, fac: fac, view: map[uint32]loader.ExecControllerValue{}, bo: "script", stopAt: -1}
	conf.Obj = r
	var bf func() cbackoff.BackOff
	switch t.c.Int(4) {
	case 0:
		r.bo = "default"
		if t.c.P(50) {
			bf = func() cbackoff.BackOff { return nil }
		}
	default:
		if t.c.P(30) {
			r.stopAt = t.c.Int(4)
		}
		bf = func() cbackoff.BackOff { return &bo{t, r} }
	}
	if t.c.P(10) && r.bo == "default" {
		return r, loader.NewExecController(fac, conf)
	}
	opts := directive.ValueOptions{}
	if t.c.P(30) {
		opts.MaxValueCount = 1
		opts.MaxValueHardCap = t.c.P(50)
	}
	return r, loader.NewExecControllerWithOpts(fac, conf, bf, opts)
}

// find returns the live request which an equal request joins.
func (t *tb) find(conf *sc.Conf) *req {
	for _, r := range t.reqs {
		if r.ended.IsZero() && r.inst != nil && r.conf.EqualsConfig(conf) {
			return r
		}
	}
	return nil
}

// attach finds the instance of a new request and watches its values.
func (t *tb) attach(r *req) {
	for _, di := range t.w.DC.GetDirectives() {
		d, ok := di.GetDirective().(loader.ExecController)
		if !ok || d.GetExecControllerConfig() != r.conf {
			continue
		}
		r.inst = di
		di.AddReference(bus.NewCallbackHandler(func(av directive.AttachedValue) {
			t.mu.Lock()
			r.view[av.GetValueID()] = av.GetValue().(loader.ExecControllerValue)
			t.mu.Unlock()
		}, func(av directive.AttachedValue) {
			t.mu.Lock()
			delete(r.view, av.GetValueID())
			t.mu.Unlock()
		}, nil), true)
		return
	}
}

// sync updates which requests have ended.
func (t *tb) sync() {
	for _, r := range t.reqs {
		if !r.ended.IsZero() {
			continue
		}
		held := len(r.refs)
		for _, w := range r.waits {
			t.mu.Lock()
			if !w.done || (w.ref != nil && !w.released) {
				held++
			}
			t.mu.Unlock()
		}
		alive := r.inst != nil && r.inst.GetContext().Err() == nil
		if held > 0 {
			t.c.Check(alive, "request-lost", "the request for %s ended although references are held", r.conf)
		} else {
			t.c.Check(!alive, "request-kept", "the request for %s is live without references", r.conf)
			t.end(r)
		}
	}
}

func (t *tb) end(r *req) {
	t.mu.Lock()
	if r.ended.IsZero() {
		r.ended = time.Now()
		t.c.Ev("ended", "%s", r.conf)
	}
	t.mu.Unlock()
}

func (t *tb) opAdd(wait bool) {
	fac := t.facs[t.c.Int(len(t.facs))]
	conf := &sc.Conf{ID: fac.ID, N: int64(t.c.Int(3))}
	t.c.Wait()
	t.sync()
	r, dir := t.newReq(conf, fac)
	old := t.find(conf)
	tgt := r
	if old != nil {
		if fac.Ver.GT(old.fac.Ver) {
			t.c.Ev("supersede", "%s", conf)
			t.end(old)
		} else {
			t.c.Ev("join", "%s", conf)
			tgt = old
		}
	}
	if tgt == r {
		t.reqs = append(t.reqs, r)
	}
	if !wait {
		t.c.Ev("add", "%s %s", fac.Tag, conf)
		inst, ref, err := t.w.B.AddDirective(dir, nil)
		if !t.c.Check(err == nil, "add-directive", "%v", err) {
			t.c.Abort()
		}
		if tgt == old {
			t.c.Check(inst == old.inst, "not-shared", "an equal request got another instance")
		}
		tgt.refs = append(tgt.refs, ref)
	} else {
		t.mu.Lock()
		w := &waiter{r: tgt, from: len(tgt.outs), typed: t.c.P(20)}
		if w.from > 0 && tgt.phase != "construct" {
			w.from-- // the current state
		}
		t.mu.Unlock()
		w.left = tgt.left
		w.ctx, w.cancel = context.WithCancel(t.w.Ctx)
		t.c.Ev("wait", "%s %s", fac.Tag, conf)
		tgt.waits = append(tgt.waits, w)
		go w.run(dir)
	}
	t.c.Wait()
	if tgt == r {
		t.attach(r)
	}
}

var errType = errors.New("wrong type")

// never is no type of any controller.
type never struct{ *sc.Ctrl }

func (w *waiter) run(dir directive.Directive) {
	t := w.r.t
	disp := func() {
		t.mu.Lock()
		w.disposed++
		n := w.disposed
		t.mu.Unlock()
		t.c.Check(n == 1, "disposed-twice", "dispose callback called %d times", n)
	}
	var ctrl controller.Controller
	var ref directive.Reference
	var err error
	if w.typed {
		ctrl, _, ref, err = loader.WaitExecControllerRunningTyped[*never](w.ctx, t.w.B, dir, disp)
	} else {
		ctrl, _, ref, err = loader.WaitExecControllerRunning(w.ctx, t.w.B, dir, disp)
	}
	t.mu.Lock()
	defer t.mu.Unlock()
	w.done = true
	w.err = err
	t.c.Ev("waited", "%v %v", ctrl != nil, err)
	if err != nil {
		if w.typed && ref != nil {
			w.released = true // the typed variant returns the released reference
		}
		return
	}
	w.ref = ref
	w.ctrl, _ = ctrl.(*sc.Ctrl)
	// it is one of the outcomes
	ok := false
	for _, o := range w.r.outs[w.from:] {
		ok = ok || (w.ctrl != nil && o.ctrl == w.ctrl)
	}
	// the value precedes the execution
	if w.ctrl != nil && w.ctrl.Conf == w.r.conf {
		ok = true
	}
	t.c.Check(ok, "wait-ctrl", "waiting for %s returned %v", w.r.conf, w.ctrl)
}

func (t *tb) checkWait(w *waiter) {
	r := w.r
	t.mu.Lock()
	defer t.mu.Unlock()
	cancelled := w.ctx.Err() != nil
	dead := !r.ended.IsZero()
	if !w.done {
		t.c.Check(!cancelled && !dead, "wait-stuck", "the wait for %s did not return (cancelled %v, ended %v)", r.conf, cancelled, dead)
		if r.due.After(time.Now()) || r.phase == "run" || r.phase == "done" || r.phase == "stopped" {
			t.c.Check(t.relL == nil, "wait-stuck", "the wait for %s did not return in phase %s (error %v)", r.conf, r.phase, r.lastErr)
		}
		return
	}
	if w.err != nil {
		ok := cancelled || dead
		for _, o := range r.outs[w.from:] {
			ok = ok || o.err != nil && sc.SameErr(w.err, o.err)
			ok = ok || o.ctrl != nil && w.typed
		}
		t.c.Check(ok, "wait-err", "the wait for %s failed with %v", r.conf, w.err)
	} else {
		t.c.Check(!w.typed, "wait-typed", "the typed wait for %s returned a controller of another type", r.conf)
		if dead && !w.released {
			t.c.Check(w.disposed == 1, "wait-dispose", "the request for %s ended, dispose callback called %d times", r.conf, w.disposed)
		}
		if !dead && !w.released {
			running := false
			for _, v := range r.view {
				running = running || v.GetController() == controller.Controller(w.ctrl) && v.GetError() == nil
			}
			switch {
			case !running:
				t.c.Check(w.disposed == 1, "wait-left", "%s does not run any more, the dispose callback of the wait was called %d times", w.ctrl.Name(), w.disposed)
			case w.seen && w.left != r.left:
				t.c.Check(w.disposed == 1, "wait-left", "%s runs again after it did not, the dispose callback of the wait was called %d times", w.ctrl.Name(), w.disposed)
			case w.left == r.left:
				t.c.Check(w.disposed == 0, "wait-left-early", "%s runs, the dispose callback of the wait was called", w.ctrl.Name())
				w.seen = true
			case w.disposed == 0:
				w.seen, w.left = true, r.left
			}
		}
	}
}

// check compares with the model.
func (t *tb) check() {
	t.sync()
	t.c.Ev("settled", "")
	listed := map[controller.Controller]int{}
	for _, x := range t.w.B.GetControllers() {
		listed[x]++
	}
	want := map[controller.Controller]int{}
	for _, r := range t.reqs {
		for _, w := range r.waits {
			t.checkWait(w)
		}
		t.mu.Lock()
		phase := r.phase
		var vals []loader.ExecControllerValue
		for _, v := range r.view {
			vals = append(vals, v)
		}
		if !r.ended.IsZero() {
			t.c.Check(len(vals) == 0, "values-left", "%s has values after its end", r.conf)
			t.mu.Unlock()
			continue
		}
		if t.relL == nil {
			t.c.Check(len(vals) == 0, "values-left", "%s has values without a loader", r.conf)
			t.mu.Unlock()
			continue
		}
		t.c.Ev("phase-"+phase, "")
		errs := r.inst.GetResolverErrors()
		if phase == "stopped" {
			t.c.Check(len(errs) == 1 && sc.SameErr(errs[0], r.lastErr), "resolver-error", "%s gave up: resolver errors %v, want %v", r.conf, errs, r.lastErr)
		} else {
			t.c.Check(len(errs) == 0, "resolver-error", "%s: resolver errors %v in phase %s", r.conf, errs, phase)
		}
		switch phase {
		case "run", "done":
			want[r.cur] = 1
			if t.c.Check(len(vals) == 1, "values", "%s has %d values in phase %s", r.conf, len(vals), phase) {
				v := vals[0]
				t.c.Check(v.GetController() == controller.Controller(r.cur) && v.GetError() == nil && v.GetNextRetryTimestamp().IsZero(), "value",
					"%s: value %v in phase %s, want %s", r.conf, v, phase, r.cur.Name())
				t.c.Check(!v.GetUpdatedTimestamp().IsZero() && !v.GetUpdatedTimestamp().After(time.Now()), "value-time", "%s: updated at %v", r.conf, v.GetUpdatedTimestamp())
			}
			t.c.Check(r.cur.Ctx.Err() == nil, "cancelled", "%s is cancelled in phase %s", r.cur.Name(), phase)
		case "backoff":
			if t.c.Check(len(vals) == 1, "values", "%s has %d values in phase %s", r.conf, len(vals), phase) {
				v := vals[0]
				if r.due.IsZero() {
					r.due = v.GetNextRetryTimestamp()
					d := r.due.Sub(v.GetUpdatedTimestamp())
					t.c.Check(d > 0 && d < time.Minute, "backoff-default", "%s: default backoff %v", r.conf, d)
				}
				t.c.Check(sc.SameErr(v.GetError(), r.lastErr) && v.GetNextRetryTimestamp().Equal(r.due), "value",
					"%s: value error %v retry %v, want %v at %v", r.conf, v.GetError(), v.GetNextRetryTimestamp(), r.lastErr, r.due)
				t.c.Check(time.Now().Before(r.due.Add(time.Millisecond)), "not-retried", "%s is not retried at %v", r.conf, r.due)
			}
		case "construct", "stopped":
			t.c.Check(len(vals) == 0, "values", "%s has values %v in phase %s", r.conf, vals, phase)
		default:
			t.c.Fail("phase", "%s is in phase %q", r.conf, phase)
		}
		t.mu.Unlock()
	}
	t.e.Mu.Lock()
	for _, ct := range t.e.All {
		r := ct.Conf.Obj.(*req)
		t.mu.Lock()
		if r.ended.IsZero() || time.Since(r.ended) > 300*time.Millisecond {
			t.c.Check(listed[ct] == want[ct], "listed", "%s is listed %d times, want %d", ct.Name(), listed[ct], want[ct])
		}
		over := !r.ended.IsZero() && time.Since(r.ended) > 300*time.Millisecond || t.relL == nil
		if r.phase == "stopped" {
			over = true
		}
		if over {
			t.c.Check(ct.Closed == 1, "not-closed", "%s was closed %d times although its request is over", ct.Name(), ct.Closed)
			t.c.Check(!ct.Running, "running", "%s is running although its request is over", ct.Name())
			t.c.Check(ct.Ctx == nil || r.ended.IsZero() && t.relL != nil || ct.Ctx.Err() != nil, "not-cancelled", "%s is not cancelled although its request is over", ct.Name())
			ct.Quiet = true
		} else if r.ended.IsZero() {
			t.c.Check(ct.Closed == 0 || ct != r.cur, "closed", "%s was closed in phase %s", ct.Name(), r.phase)
		}
		t.mu.Unlock()
	}
	t.e.Mu.Unlock()
}

func (t *tb) addLoader() {
	ld, err := loader.NewController(t.c.Le, t.w.B)
	t.c.Check(err == nil, "loader", "%v", err)
	for _, r := range t.reqs {
		t.mu.Lock()
		if r.ended.IsZero() {
			r.phase, r.due, r.fails, r.cur = "", time.Time{}, 0, nil
		}
		t.mu.Unlock()
	}
	rel, err := t.w.B.AddController(t.w.Ctx, ld, nil)
	t.c.Check(err == nil, "loader", "%v", err)
	t.relL = rel
	t.c.Ev("loader", "on")
}

func run(c *h.C) {
	w := bw.New(c)
	t := &tb{c: c, w: w}
	t.e = &sc.Env{C: c, Rnd: c.NewRand(), OnConstruct: t.onConstruct, OnExecute: t.onExecute, OnReturn: t.onReturn}
	for i, v := range []string{"1.0.0", "2.0.0", "2.0.0"} {
		t.facs = append(t.facs, &sc.Fac{E: t.e, ID: "test/a", Ver: semver.MustParse(v), Tag: fmt.Sprintf("a%d", i)})
	}
	t.facs = append(t.facs, &sc.Fac{E: t.e, ID: "test/b", Ver: semver.MustParse("1.0.0"), Tag: "b"})
	t.addLoader()
	c.Wait()
	live := func() *req {
		c.Wait()
		var l []*req
		for _, r := range t.reqs {
			if r.ended.IsZero() && r.inst != nil {
				l = append(l, r)
			}
		}
		if len(l) == 0 {
			return nil
		}
		return l[c.Int(len(l))]
	}
	for step := 0; step < 25 && !c.Failed(); step++ {
		switch x := c.Int(20); {
		case x < 4:
			t.opAdd(false)
		case x < 7:
			t.opAdd(true)
		case x < 10:
			r := live()
			if r == nil {
				break
			}
			if n := len(r.refs); n > 0 {
				i := c.Int(n)
				c.Ev("release", "%s", r.conf)
				r.refs[i].Release()
				r.refs = append(r.refs[:i:i], r.refs[i+1:]...)
			} else if n := len(r.waits); n > 0 {
				w := r.waits[c.Int(n)]
				t.mu.Lock()
				ref := w.ref
				w.released = w.released || ref != nil
				t.mu.Unlock()
				w.cancel()
				if ref != nil {
					ref.Release()
				}
			}
		case x < 11:
			if r := live(); r != nil {
				c.Ev("close", "%s", r.conf)
				t.end(r)
				r.inst.Close()
			}
		case x < 14:
			if r := live(); r != nil && r.phaseNow() == "run" && r.cur.Running {
				how := []string{"nil", "err", "panic", "panic-val", "canceled"}[c.Int(5)]
				c.Ev("cmd", "%s %s", r.cur.Name(), how)
				select {
				case r.cur.Cmd <- how:
				default:
				}
			}
		case x < 15 && c.P(40):
			if t.relL != nil {
				c.Ev("loader", "off")
				t.relL()
				t.relL = nil
				time.Sleep(400 * time.Millisecond)
			} else {
				t.addLoader()
			}
		default:
			d := time.Duration(c.Int(1500)) * time.Millisecond
			if c.P(40) {
				// exactly the time of the next try
				if r := live(); r != nil && r.phaseNow() == "backoff" {
					t.mu.Lock()
					d = max(time.Until(r.due), 0)
					t.mu.Unlock()
				}
			}
			time.Sleep(d)
		}
		if c.P(80) {
			c.Wait()
			t.check()
		}
	}
	c.Wait()
	t.sync()
	for _, r := range t.reqs {
		for _, x := range r.refs {
			x.Release()
		}
		r.refs = nil
		for _, x := range r.waits {
			x.cancel()
		}
		c.Wait()
		for _, x := range r.waits {
			if x.ref != nil && !x.released {
				x.ref.Release()
				x.released = true
			}
		}
		t.end(r)
	}
	time.Sleep(time.Second)
	c.Wait()
	t.check()
	c.Check(w.Live() == 0, "leak-ref", "%d directives left", w.Live())
	for _, ct := range t.e.All {
		c.Check(ct.Closed == 1, "not-closed", "%s was closed %d times", ct.Name(), ct.Closed)
	}
	w.Cancel()
	time.Sleep(time.Second)
	c.Wait()
}

func TestCheck(t *testing.T) {
	h.Run(t, []h.Scenario{
		{Name: "loader", Quick: 20000, Thorough: 400000, Fn: run},
	})
}
