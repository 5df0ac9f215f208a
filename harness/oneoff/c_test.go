// Package oneoff checks the one-off, waiting and collecting helpers (C11).
package oneoff

import (
	"context"
	"errors"
	"fmt"
	"runtime"
	"sync"
	"testing"
	"time"

	"github.com/aperturerobotics/controllerbus/bus"
	"github.com/aperturerobotics/controllerbus/directive"
	"github.com/aperturerobotics/util/ccontainer"

	"verifharness/bw"
	"verifharness/h"
)

type outcome struct {
	val    any // value or nil
	xval   string
	hasX   bool
	id     uint32
	vals   []*bw.V
	di     directive.Instance
	ref    directive.Reference
	err    error
	isList bool
}

var errFilter = errors.New("filter error")
var errIdle = errors.New("idle callback error")

// decision is an event that decides the call.
type decision struct {
	kind string // value err none dispose cancel
	v    *bw.V
	err  error
}

type callSt struct {
	mu       sync.Mutex
	dec      []decision
	offered  map[*bw.V]int
	disposed int // value dispose callback calls
	done     bool
	out      outcome
	lastIdle bool
	idleSeen int
	decided  bool // a decision was made in an earlier, settled step
}

func (s *callSt) add(d decision) {
	s.mu.Lock()
	s.dec = append(s.dec, d)
	s.mu.Unlock()
}

// start performs one randomly chosen helper call in a goroutine.
type call struct {
	*callSt
	variant  int
	idleKind int
	mod, bad int
	ctx      context.Context
	cancel   context.CancelFunc
	collect  bool
	waitOne  bool
	typed    bool // only *V accepted
}

var variants = []string{"ExecOneOff", "Filter", "Typed", "FilterTyped", "Xfrm", "XfrmTyped", "WaitValue", "Collect"}

func startCall(c *h.C, w *bw.W, dir directive.Directive) *call {
	k := &call{callSt: &callSt{offered: map[*bw.V]int{}}, variant: c.Int(len(variants)), idleKind: c.Int(6), mod: 1 + c.Int(3)}
	if c.P(25) {
		k.bad = 2 + c.Int(3)
	}
	k.ctx, k.cancel = context.WithCancel(w.Ctx)
	noFilter := c.P(15)
	rnd := c.NewRand()
	// pred is the acceptance predicate
	pred := func(v *bw.V) (bool, error) {
		k.mu.Lock()
		k.offered[v]++
		n := k.offered[v]
		k.mu.Unlock()
		c.Ev("filter", "%v", v)
		c.Check(n == 1, "filter-twice", "value %v passed to the filter %d times", v, n)
		if k.bad != 0 && v.N%5 == k.bad {
			k.add(decision{kind: "err", err: errFilter})
			return false, errFilter
		}
		for n := rnd.Int(3); n > 0; n-- {
			runtime.Gosched()
		}
		ok := v.N%k.mod == 0
		if ok {
			k.add(decision{kind: "value", v: v})
		}
		return ok, nil
	}
	wrap := func(cb bus.ExecIdleCallback) bus.ExecIdleCallback {
		return func(isIdle bool, errs []error) (bool, error) {
			wait, err := cb(isIdle, errs)
			c.Ev("idlecb", "%v errs=%d -> wait=%v err=%v", isIdle, len(errs), wait, err)
			k.mu.Lock()
			k.idleSeen++
			k.mu.Unlock()
			if err != nil {
				k.add(decision{kind: "err", err: err})
			} else if isIdle && !wait {
				k.add(decision{kind: "none"})
			}
			return wait, err
		}
	}
	var icb bus.ExecIdleCallback
	switch k.idleKind {
	case 0:
	case 1:
		icb = wrap(bus.WaitWhenIdle(true))
	case 2:
		icb = wrap(bus.WaitWhenIdle(false))
	case 3:
		icb = wrap(bus.ReturnWhenIdle())
	case 4:
		icb = wrap(bus.ReturnIfIdle(rnd.Int(2) == 0))
	case 5:
		icb = wrap(func(isIdle bool, errs []error) (bool, error) {
			switch rnd.Int(6) {
			case 0:
				return true, errIdle
			case 1:
				return false, nil
			}
			return true, nil
		})
	}
	var dcb func()
	if !c.P(15) {
		dcb = func() {
			k.mu.Lock()
			k.disposed++
			k.mu.Unlock()
			c.Ev("dispose-cb", "")
		}
	} else {
		k.disposed = -1 << 30
	}
	k.waitOne = c.P(50)
	k.typed = true
	name := variants[k.variant]
	c.Ev("call", "%s idle=%d mod=%d bad=%d", name, k.idleKind, k.mod, k.bad)
	if noFilter {
		k.mod, k.bad = 1, 0
	}
	var run func() outcome
	anyFilter := func(v directive.AttachedValue) (bool, error) {
		if x, ok := v.GetValue().(*bw.V); ok {
			return pred(x)
		}
		return false, nil
	}
	tyFilter := func(v directive.TypedAttachedValue[*bw.V]) (bool, error) { return pred(v.GetValue()) }
	toOut := func(av directive.AttachedValue, di directive.Instance, ref directive.Reference, err error) outcome {
		o := outcome{di: di, ref: ref, err: err}
		if av != nil {
			o.val, o.id = av.GetValue(), av.GetValueID()
		}
		return o
	}
	toOutT := func(av directive.TypedAttachedValue[*bw.V], di directive.Instance, ref directive.Reference, err error) outcome {
		o := outcome{di: di, ref: ref, err: err}
		if av != nil {
			o.val, o.id = av.GetValue(), av.GetValueID()
		}
		return o
	}
	switch name {
	case "ExecOneOff":
		k.typed, k.mod, k.bad = false, 1, 0
		run = func() outcome {
			return toOut(bus.ExecOneOff(k.ctx, w.B, dir, icb, dcb))
		}
	case "Filter":
		run = func() outcome {
			return toOut(bus.ExecOneOffWithFilter(k.ctx, w.B, dir, icb, dcb, anyFilter))
		}
	case "Typed":
		k.mod, k.bad = 1, 0
		run = func() outcome {
			return toOutT(bus.ExecOneOffTyped[*bw.V](k.ctx, w.B, dir, icb, dcb))
		}
	case "FilterTyped":
		run = func() outcome {
			f := tyFilter
			if noFilter {
				f = nil
			}
			return toOutT(bus.ExecOneOffWithFilterTyped[*bw.V](k.ctx, w.B, dir, icb, dcb, f))
		}
	case "Xfrm":
		run = func() outcome {
			x, av, di, ref, err := bus.ExecOneOffWithXfrm(k.ctx, w.B, dir, icb, dcb, func(v directive.AttachedValue) (directive.Value, bool, error) {
				vv, ok := v.GetValue().(*bw.V)
				if !ok {
					return "wrong", false, nil
				}
				ok, err := pred(vv)
				return fmt.Sprintf("x%d", vv.N), ok, err
			})
			o := toOut(av, di, ref, err)
			if xs, ok := x.(string); ok {
				o.xval, o.hasX = xs, true
			}
			return o
		}
	case "XfrmTyped":
		run = func() outcome {
			x, av, di, ref, err := bus.ExecOneOffWithXfrmTyped(k.ctx, w.B, dir, icb, dcb, func(v directive.TypedAttachedValue[*bw.V]) (string, bool, error) {
				ok, err := pred(v.GetValue())
				return fmt.Sprintf("x%d", v.GetValue().N), ok, err
			})
			o := toOutT(av, di, ref, err)
			o.xval, o.hasX = x, x != ""
			return o
		}
	case "WaitValue":
		run = func() outcome {
			var f func(v *bw.V) (bool, error)
			if !noFilter {
				f = pred
			}
			v, di, ref, err := bus.ExecWaitValue[*bw.V](k.ctx, w.B, dir, icb, dcb, f)
			o := outcome{di: di, ref: ref, err: err}
			if v != nil {
				o.val = v
			}
			return o
		}
	case "Collect":
		k.collect = true
		k.mod, k.bad = 1, 0
		run = func() outcome {
			vs, di, ref, err := bus.ExecCollectValues[*bw.V](k.ctx, w.B, dir, k.waitOne, dcb)
			return outcome{vals: vs, di: di, ref: ref, err: err, isList: true}
		}
	}
	go func() {
		o := run()
		c.Ev("returned", "%s val=%v n=%d err=%v ref=%v", name, o.val != nil, len(o.vals), o.err, o.ref != nil)
		k.mu.Lock()
		k.out, k.done = o, true
		k.mu.Unlock()
	}()
	return k
}

func (k *call) name() string { return variants[k.variant] }

// want reports whether the attached value satisfies the call.
func (k *call) want(v any) bool {
	x, ok := v.(*bw.V)
	if !ok {
		return !k.typed
	}
	return x.N%k.mod == 0 && !(k.bad != 0 && x.N%5 == k.bad)
}

func exact(c *h.C) {
	w := bw.New(c)
	src := w.NewSrc("k", 1+c.Int(3))
	dir := &bw.D{Key: "k"}
	var held directive.Reference
	if c.P(60) {
		// an earlier client: the directive already has values, errors and state
		_, ref, _ := w.B.AddDirective(dir, nil)
		held = ref
		c.Wait()
		for n := c.Int(6); n > 0; n-- {
			src.RandomOp(60)
			c.Wait()
		}
	}
	src.TellNow()
	k := startCall(c, w, dir)
	closed, cancelled := false, false
	prevAttached := src.Attached()
	for step := 0; step < 14; step++ {
		c.Wait()
		att := src.Attached()
		if k.check(c, w, src, held != nil, att, prevAttached, closed, cancelled) {
			break
		}
		prevAttached = src.Attached()
		switch x := c.Int(20); {
		case x == 0:
			cancelled = true
			c.Ev("cancel", "")
			k.cancel()
		case x == 1:
			if i := src.Inst(); i != nil {
				closed = true
				c.Ev("close", "")
				i.Close()
			}
		default:
			src.RandomOp(60)
		}
		if closed || cancelled {
			step = 12
		}
	}
	c.Wait()
	k.mu.Lock()
	done := k.done
	k.mu.Unlock()
	if !done && !c.Failed() {
		k.cancel()
		c.Wait()
		k.check(c, w, src, held != nil, src.Attached(), prevAttached, closed, true)
	}
	if c.Failed() {
		k.cancel()
		w.Cancel()
		c.Abort()
	}
	// afterwards
	after(c, w, src, k, closed)
	if k.out.ref != nil {
		k.out.ref.Release()
	}
	if held != nil {
		held.Release()
	}
	c.Wait()
	c.Check(w.Live() == 0, "leak-ref", "%d directives live after all references were released", w.Live())
	src.Release()
	k.cancel()
	w.Cancel()
	c.Wait()
}

// after watches the returned value going away.
func after(c *h.C, w *bw.W, src *bw.Src, k *call, closed bool) {
	o := k.out
	if o.ref == nil || closed {
		return
	}
	returned := map[any]bool{}
	if o.isList {
		for _, v := range o.vals {
			returned[v] = true
		}
	} else if o.val != nil {
		returned[o.val] = true
	}
	if len(returned) == 0 {
		return
	}
	gone := func() bool {
		att := src.Attached()
		n := 0
		for _, v := range att {
			if returned[v] {
				n++
			}
		}
		return n != len(returned)
	}
	for n := 0; n < 6; n++ {
		g := gone()
		k.mu.Lock()
		d := k.disposed
		k.mu.Unlock()
		if d >= 0 {
			if g {
				c.Check(d > 0, "dispose-cb", "%s: the returned value went away but the callback was not called", k.name())
				return
			}
			c.Check(d == 0, "dispose-cb-early", "%s: value dispose callback called although the returned value is attached", k.name())
		}
		if n == 4 {
			i := src.Inst()
			c.Check(i != nil, "ref-lost", "%s: directive disposed although the returned reference is held", k.name())
			if i != nil {
				i.Close()
			}
		} else {
			src.RandomOp(60)
		}
		c.Wait()
	}
}

// check evaluates a settled moment, returns true when the call returned.
func (k *call) check(c *h.C, w *bw.W, src *bw.Src, held bool, att, prev map[uint32]any, closed, cancelled bool) bool {
	k.mu.Lock()
	defer k.mu.Unlock()
	idle, errs := src.IsIdle()
	match := false
	for _, v := range att {
		if k.want(v) {
			match = true
		}
	}
	var err0 error
	has := map[string]bool{}
	for _, d := range k.dec {
		has[d.kind] = true
		if d.err != nil && err0 == nil {
			err0 = d.err
		}
	}
	if !k.done {
		// must still be allowed to block
		c.Check(!cancelled, "blocked", "%s still blocked after its context was cancelled", k.name())
		c.Check(!closed, "blocked", "%s still blocked after the directive was disposed", k.name())
		if closed || cancelled {
			return false
		}
		if k.collect {
			n := 0
			for _, v := range att {
				if _, ok := v.(*bw.V); ok {
					n++
				}
			}
			c.Check(!(idle && len(errs) == 0 && (!k.waitOne || n > 0)), "blocked", "Collect(waitOne=%v) still blocked although idle with %d values", k.waitOne, n)
			c.Check(!(idle && len(src.Told()) != 0), "blocked", "Collect still blocked although idle with resolver errors")
			return false
		}
		c.Check(!match, "blocked", "%s still blocked although a matching value is attached (%v)", k.name(), att)
		c.Check(len(k.dec) == 0, "blocked", "%s still blocked although decided: %+v", k.name(), k.dec)
		switch k.idleKind {
		case 0, 2:
			c.Check(!(idle && len(src.Told()) != 0), "blocked", "%s (idle=%d) still blocked although idle with resolver errors", k.name(), k.idleKind)
		case 3:
			c.Check(!idle, "blocked", "%s (ReturnWhenIdle) still blocked although idle", k.name())
		}
		return false
	}
	o := k.out
	if o.err != nil {
		c.Check(o.ref == nil, "err-ref", "%s returned error %v and a reference", k.name(), o.err)
		okErr := false
		switch {
		case errors.Is(o.err, context.Canceled):
			okErr = cancelled
		case errors.Is(o.err, directive.ErrDirectiveDisposed):
			okErr = closed
		case errors.Is(o.err, errFilter), errors.Is(o.err, errIdle):
			okErr = o.err == err0
		default:
			okErr = bw.IsOneOf(o.err, errs) && (k.collect || k.idleKind == 0 || has["err"])
		}
		c.Check(okErr, "wrong-error", "%s returned error %v; filter/idle decisions %+v, resolver errors %v, closed=%v cancelled=%v", k.name(), o.err, k.dec, errs, closed, cancelled)
		if !k.collect && !cancelled && !closed {
			c.Check(!has["value"], "wrong-error", "%s returned error %v although the filter accepted a value", k.name(), o.err)
		}
		if !o.isList {
			c.Check(o.val == nil, "err-value", "%s returned error %v and a value", k.name(), o.err)
		}
	} else if o.isList {
		c.Check(o.ref != nil && o.di != nil, "no-ref", "Collect returned no reference")
		want := map[*bw.V]bool{}
		for _, v := range att {
			if x, ok := v.(*bw.V); ok {
				want[x] = true
			}
		}
		got := map[*bw.V]bool{}
		for _, v := range o.vals {
			got[v] = true
		}
		same := len(want) == len(o.vals) && len(got) == len(o.vals)
		for v := range got {
			same = same && want[v]
		}
		c.Check(same, "collect-set", "Collect returned %v, attached are %v", o.vals, att)
		c.Check(!k.waitOne || len(o.vals) > 0, "collect-one", "Collect(waitOne) returned no value")
		c.Check(idle && len(src.Told()) == 0, "collect-idle", "Collect returned although idle=%v errs=%v", idle, errs)
	} else if o.val != nil {
		c.Check(o.ref != nil && (o.di != nil || o.ref == nil), "no-ref", "%s returned a value but no reference", k.name())
		c.Check(o.di == nil || o.di == src.Inst() || closed, "wrong-instance", "%s returned another instance", k.name())
		v, isV := o.val.(*bw.V)
		c.Check(isV || !k.typed, "wrong-type", "%s returned %T", k.name(), o.val)
		if isV && k.typed {
			c.Check(k.want(v), "wrong-value", "%s returned %v which the filter rejects", k.name(), v)
		}
		was := false
		for id, x := range att {
			was = was || (x == o.val && (o.id == id || o.id == 0))
		}
		for id, x := range prev {
			was = was || (x == o.val && (o.id == id || o.id == 0))
		}
		c.Check(was || closed, "wrong-value", "%s returned %v (id %d) which is not attached: %v", k.name(), o.val, o.id, att)
		if k.name() == "Xfrm" || k.name() == "XfrmTyped" {
			c.Check(o.hasX && isV && o.xval == fmt.Sprintf("x%d", v.N), "wrong-xfrm", "%s returned %q for %v", k.name(), o.xval, v)
		}
		if has["value"] {
			for _, d := range k.dec {
				if d.kind == "value" {
					c.Check(d.v == v, "wrong-value", "%s accepted %v but returned %v", k.name(), d.v, v)
					break
				}
			}
		}
	} else {
		c.Check(o.ref == nil, "none-ref", "%s returned nothing but a reference", k.name())
		c.Check(has["none"], "wrong-none", "%s returned nothing without an idle decision: %+v", k.name(), k.dec)
		c.Check(!has["value"], "wrong-none", "%s returned nothing although the filter accepted a value", k.name())
	}
	if o.ref == nil && !closed {
		want := 0
		if held {
			want = 1
		}
		c.Check(w.Live() == want, "leak-ref", "%s returned (err=%v) without reference: %d directives live, want %d", k.name(), o.err, w.Live(), want)
	} else if o.ref != nil && !closed {
		c.Check(w.Live() == 1, "ref-lost", "%s returned a reference but %d directives are live", k.name(), w.Live())
	}
	return true
}

// race runs several calls at once while the source changes.
func race(c *h.C) {
	w := bw.New(c)
	src := w.NewSrc("k", 1+c.Int(3))
	dir := &bw.D{Key: "k"}
	rnd := c.NewRand()
	pause := func() { time.Sleep(time.Duration(rnd.Int(4)) * time.Millisecond) }
	var calls []*call
	closed, cancelled := false, map[*call]bool{}
	for n := 2 + c.Int(4); n > 0; n-- {
		calls = append(calls, startCall(c, w, dir))
		pause()
		if c.P(50) {
			src.RandomOp(70)
		}
	}
	for n := 0; n < 12; n++ {
		pause()
		switch x := c.Int(16); {
		case x == 0:
			k := calls[c.Int(len(calls))]
			cancelled[k] = true
			k.cancel()
		case x == 1:
			if i := src.Inst(); i != nil {
				closed = true
				i.Close()
			}
		default:
			src.RandomOp(70)
		}
	}
	c.Wait()
	for _, k := range calls {
		cancelled[k] = true
		k.cancel()
	}
	c.Wait()
	for _, k := range calls {
		k.mu.Lock()
		done, o := k.done, k.out
		dec := k.dec
		k.mu.Unlock()
		if !c.Check(done, "blocked", "%s still blocked after its context was cancelled", k.name()) {
			continue
		}
		switch {
		case o.err != nil:
			c.Check(o.ref == nil, "err-ref", "%s returned error %v and a reference", k.name(), o.err)
			var er *bw.ErrRes
			known := errors.Is(o.err, context.Canceled) || errors.Is(o.err, directive.ErrDirectiveDisposed) && closed || errors.Is(o.err, errFilter) || errors.Is(o.err, errIdle) || errors.As(o.err, &er)
			c.Check(known, "wrong-error", "%s returned %v", k.name(), o.err)
		case o.isList:
			c.Check(o.ref != nil, "no-ref", "Collect returned no reference")
		case o.val != nil:
			c.Check(o.ref != nil, "no-ref", "%s returned a value but no reference", k.name())
			v, isV := o.val.(*bw.V)
			c.Check(!k.typed || (isV && k.want(v)), "wrong-value", "%s returned %v", k.name(), o.val)
		default:
			c.Check(o.ref == nil, "none-ref", "%s returned nothing but a reference", k.name())
			none := false
			for _, d := range dec {
				none = none || d.kind == "none"
			}
			c.Check(none, "wrong-none", "%s returned nothing without an idle decision", k.name())
		}
		if o.ref != nil {
			o.ref.Release()
		}
	}
	c.Wait()
	c.Check(w.Live() == 0, "leak-ref", "%d directives live after all references were released", w.Live())
	src.Release()
	w.Cancel()
	c.Wait()
}

// refcnt checks the reference-counted container over a one-off directive.
func refcnt(c *h.C) {
	w := bw.New(c)
	src := w.NewSrc("k", 1+c.Int(2))
	mod := 1 + c.Int(2)
	target := ccontainer.NewCContainer[*bw.V](nil)
	targetErr := ccontainer.NewCContainer[*error](nil)
	keep := c.P(30)
	var filter func(v directive.TypedAttachedValue[*bw.V]) (bool, error)
	if mod != 1 {
		filter = func(v directive.TypedAttachedValue[*bw.V]) (bool, error) { return v.GetValue().N%mod == 0, nil }
	}
	rc := bus.NewOneOffRefCount[*bw.V](w.Ctx, w.B, &bw.D{Key: "k"}, bus.WaitWhenIdle(true), filter, keep, target, targetErr)
	type rr struct{ Release func() }
	var refs []rr
	// a client keeping the directive so that its values survive re-resolving
	_, held, _ := w.B.AddDirective(&bw.D{Key: "k"}, nil)
	c.Wait()
	ever := false
	for n := 0; n < 20 && !c.Failed(); n++ {
		switch x := c.Int(10); {
		case x < 2:
			r := rc.AddRef(func(bool, *bw.V, error) {})
			refs = append(refs, rr{r.Release})
			ever = true
			c.Ev("rc-ref", "%d", len(refs))
		case x < 4 && len(refs) > 0:
			refs[0].Release()
			refs = refs[1:]
			c.Ev("rc-rel", "%d", len(refs))
		default:
			for _, sl := range src.Slots() {
				_ = sl
			}
			src.RandomOp(70)
		}
		c.Wait()
		time.Sleep(time.Minute)
		c.Wait()
		cur := target.GetValue()
		any := false
		okCur := false
		for _, v := range src.Attached() {
			if x, ok := v.(*bw.V); ok && x.N%mod == 0 {
				any = true
				okCur = okCur || x == cur
			}
		}
		switch {
		case len(refs) > 0 && any:
			c.Check(okCur, "refcount-value", "container holds %v, attached are %v", cur, src.Attached())
		case len(refs) > 0:
			c.Check(cur == nil, "refcount-value", "container holds %v, nothing matching is attached", cur)
		case !keep || !ever:
			c.Check(cur == nil, "refcount-unref", "container holds %v without references", cur)
		}
	}
	for _, r := range refs {
		r.Release()
	}
	rc.ClearContext()
	held.Release()
	c.Wait()
	time.Sleep(time.Minute)
	c.Wait()
	c.Check(w.Live() == 0, "leak-ref", "%d directives live after all references were released", w.Live())
	src.Release()
	w.Cancel()
	c.Wait()
}

var errRefused = errors.New("refused")

// refused: the bus does not accept the directive.
func refused(c *h.C) {
	w := bw.New(c)
	w.B = &bw.Refuser{Bus: w.B}
	src := w.NewSrc("k", 1)
	var held directive.Reference
	live := 0
	if c.P(50) {
		_, held, _ = w.B.AddDirective(&bw.D{Key: "k"}, nil)
		live = 1
		c.Wait()
		src.RandomOp(80)
		c.Wait()
	}
	for n := 1 + c.Int(3); n > 0 && !c.Failed(); n-- {
		k := startCall(c, w, &bw.D{Key: "k", Err: errRefused})
		if k.disposed < 0 {
			k.mu.Lock()
			k.disposed = 0
			k.mu.Unlock()
		}
		c.Wait()
		k.mu.Lock()
		c.Check(k.done, "refused-block", "%s blocks on a directive which the bus refuses", k.name())
		if k.done {
			c.Check(errors.Is(k.out.err, errRefused), "refused-error", "%s of a directive which the bus refuses: error %v", k.name(), k.out.err)
			c.Check(k.out.ref == nil && k.out.val == nil && len(k.out.vals) == 0, "refused-result", "%s of a directive which the bus refuses returned a reference or a value", k.name())
		}
		c.Check(len(k.offered) == 0 && k.disposed == 0 && k.idleSeen == 0, "refused-callback", "%s of a directive which the bus refuses called a callback", k.name())
		k.mu.Unlock()
		k.cancel()
	}
	if c.P(40) {
		target := ccontainer.NewCContainer[*bw.V](nil)
		rc := bus.NewOneOffRefCount[*bw.V](w.Ctx, w.B, &bw.D{Key: "k", Err: errRefused}, bus.WaitWhenIdle(true), nil, c.P(50), target, nil)
		var got error
		ref := rc.AddRef(func(_ bool, v *bw.V, err error) {
			if err != nil {
				got = err
			}
			c.Check(v == nil, "refused-result", "a reference-counted one-off of a directive which the bus refuses holds %v", v)
		})
		c.Wait()
		c.Check(errors.Is(got, errRefused), "refused-error", "a reference-counted one-off of a directive which the bus refuses tells error %v", got)
		ref.Release()
		rc.ClearContext()
		c.Wait()
		c.Ev("refused-refcount", "")
	}
	c.Check(w.Live() == live, "leak-ref", "%d directives live, %d are held", w.Live(), live)
	if held != nil {
		held.Release()
	}
	src.Release()
	w.Cancel()
	c.Wait()
}

func TestCheck(t *testing.T) {
	h.Run(t, []h.Scenario{
		{Name: "exact", Quick: 16000, Thorough: 300000, Fn: exact},
		{Name: "race", Quick: 8000, Thorough: 160000, Fn: race},
		{Name: "refused", Quick: 2000, Thorough: 20000, Fn: refused},
		{Name: "refcount", Quick: 3000, Thorough: 60000, Fn: refcnt},
	})
}
