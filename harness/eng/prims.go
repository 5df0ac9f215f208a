// Package eng drives a directive controller with monitored directives, handlers, resolvers and
// callbacks. The monitors record what is seen at the API boundary only.
package eng

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/aperturerobotics/controllerbus/directive"
	dcontroller "github.com/aperturerobotics/controllerbus/directive/controller"

	"verifharness/h"
)

// World is one directive controller under observation.
type World struct {
	C      *h.C
	R      *h.LockedRand
	Ctx    context.Context
	Cancel context.CancelFunc
	DC     directive.Controller

	// Hook is called inside monitored callbacks, handlers and resolvers with no monitor lock held.
	Hook func(site string, in *Inst)

	// Only filters which monitor signatures are reported (prefix match on property); nil = all.
	Report func(sig string) bool

	clock atomic.Int64

	mu      sync.Mutex
	insts   map[directive.Instance]*Inst
	order   []*Inst
	hnds    []*Hnd
	nextID  int
	resAll  []*Res
	refAll  []*Ref
	cbAll   []*Cb
	idleAll []*IdleCb
}

// NewWorld builds a world.
func NewWorld(c *h.C) *World {
	ctx, cancel := context.WithCancel(context.Background())
	w := &World{C: c, R: c.NewRand(), Ctx: ctx, Cancel: cancel, insts: map[directive.Instance]*Inst{}}
	w.DC = dcontroller.NewController(ctx, c.Le)
	return w
}

// Fail reports a monitor failure.
func (w *World) Fail(sig, f string, a ...any) {
	if w.Report != nil && !w.Report(sig) {
		w.C.Ev("other-monitor", "")
		return
	}
	w.C.Fail(sig, f, a...)
}

// Check evaluates an oracle.
func (w *World) Check(ok bool, sig, f string, a ...any) bool {
	if ok {
		w.C.Check(true, sig, "")
		return true
	}
	w.Fail(sig, f, a...)
	return false
}

func (w *World) id() int {
	w.nextID++
	return w.nextID
}

func (w *World) hook(site string, in *Inst) {
	if w.Hook != nil {
		w.Hook(site, in)
	}
}

// Dir is a directive. Class "" is never equivalent to anything, a class of the form "a+b" is
// equivalent to each class sharing a part with it.
type Dir struct {
	W     *World
	ID    int
	Class string
	Opts  directive.ValueOptions
	// Born is the stamp taken before the directive was added.
	Born int64
}

// Overlap reports whether two classes are equivalent.
func Overlap(a, b string) bool {
	if a == "" || b == "" {
		return false
	}
	if a == b {
		return true
	}
	for _, x := range strings.Split(a, "+") {
		for _, y := range strings.Split(b, "+") {
			if x == y {
				return true
			}
		}
	}
	return false
}

func (d *Dir) Validate() error                         { return nil }
func (d *Dir) GetValueOptions() directive.ValueOptions { return d.Opts }
func (d *Dir) GetName() string                         { return "verif-dir" }
func (d *Dir) base() *Dir                              { return d }

// GetDebugVals implements Debuggable.
func (d *Dir) GetDebugVals() directive.DebugValues {
	return directive.DebugValues{"id": {fmt.Sprint(d.ID)}, "class": {d.Class}}
}

type baser interface{ base() *Dir }

// EqDir is a directive with equivalence.
type EqDir struct{ Dir }

// IsEquivalent compares the classes.
func (d *EqDir) IsEquivalent(o directive.Directive) bool {
	ob, ok := o.(baser)
	return ok && Overlap(d.Class, ob.base().Class)
}

// SupDir is a directive with equivalence and supersession by version.
type SupDir struct {
	EqDir
	Ver int
}

// Superceeds compares the versions.
func (d *SupDir) Superceeds(o directive.Directive) bool {
	os, ok := o.(*SupDir)
	if !ok {
		return true // supersedes un-versioned equivalents
	}
	return d.Ver > os.Ver
}

// Val is a unique value.
type Val struct {
	N   int
	Res *Res
}

func (v *Val) String() string { return fmt.Sprintf("v%d", v.N) }

// Inst is the record of an instance.
type Inst struct {
	W   *World
	I   directive.Instance
	ID  int
	Dir directive.Directive
	// mu of world guards
	inCB    int
	curCB   string
	idOf    map[any]uint32
	valOf   map[uint32]any
	offers  map[*Hnd]int
	maxID   uint32
	created bool
}

func (in *Inst) String() string {
	if in == nil {
		return "i?"
	}
	return fmt.Sprintf("i%d", in.ID)
}

// inst returns the record of i, creating it. Locks w.mu.
func (w *World) inst(i directive.Instance) *Inst {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.instLocked(i)
}

func (w *World) instLocked(i directive.Instance) *Inst {
	if in, ok := w.insts[i]; ok {
		return in
	}
	in := &Inst{W: w, I: i, ID: len(w.order) + 1, Dir: i.GetDirective(), idOf: map[any]uint32{}, valOf: map[uint32]any{}, offers: map[*Hnd]int{}}
	w.insts[i] = in
	w.order = append(w.order, in)
	return in
}

// enter checks callback serialisation.
func (w *World) enter(in *Inst, what string) {
	w.mu.Lock()
	busy, cur := in.inCB > 0, in.curCB
	in.inCB++
	in.curCB = what
	w.mu.Unlock()
	w.Check(!busy, "serial", "callback %q on %v started while %q was running", what, in, cur)
}

func (w *World) exit(in *Inst) {
	w.mu.Lock()
	in.inCB--
	w.mu.Unlock()
}

// noteVal records id<->value pairs. Locks held: none.
func (w *World) noteVal(in *Inst, id uint32, v any, where string) {
	w.mu.Lock()
	oid, okV := in.idOf[v]
	ov, okI := in.valOf[id]
	in.idOf[v] = id
	in.valOf[id] = v
	if id > in.maxID {
		in.maxID = id
	}
	w.mu.Unlock()
	w.Check(id != 0, "value-id", "%s: value id 0 for %v on %v", where, v, in)
	w.Check(!okV || oid == id, "value-id", "%s: value %v on %v has ids %d and %d", where, v, in, oid, id)
	w.Check(!okI || ov == v, "value-id", "%s: id %d on %v used for %v and %v", where, id, in, ov, v)
}

// Ref is a monitored reference.
type Ref struct {
	W    *World
	ID   int
	In   *Inst
	Weak bool
	R    directive.Reference
	// Strict: attached before any value could be accepted.
	Strict bool
	// Nil: the reference was added with a nil handler.
	Nil bool
	// Panics: panics on each event.
	Panics bool

	// guarded by W.mu
	view      map[uint32]any
	everAdded map[uint32]bool
	disposed  int
	events    int
	lastAdd   uint32
	released  bool
	relEvents int
	// live: the instance was live after the reference was attached
	live bool
}

// NewRef builds a ref handler.
func (w *World) NewRef(weak bool) *Ref {
	w.mu.Lock()
	defer w.mu.Unlock()
	r := &Ref{W: w, ID: w.id(), Weak: weak, view: map[uint32]any{}, everAdded: map[uint32]bool{}}
	w.refAll = append(w.refAll, r)
	return r
}

func (r *Ref) String() string { return fmt.Sprintf("r%d", r.ID) }

func (r *Ref) maybePanic() {
	if r.Panics {
		panic("harness: ref callback panic")
	}
}

// HandleValueAdded implements directive.ReferenceHandler.
func (r *Ref) HandleValueAdded(i directive.Instance, av directive.AttachedValue) {
	w := r.W
	in := w.inst(i)
	w.enter(in, "added "+r.String())
	defer w.exit(in)
	id, v := av.GetValueID(), av.GetValue()
	w.C.Ev("added", "%v %v %d", in, r, id)
	w.noteVal(in, id, v, "HandleValueAdded")
	w.mu.Lock()
	other := r.In
	if r.In == nil {
		r.In = in
		other = in
	}
	_, dup := r.view[id]
	ever := r.everAdded[id]
	ooo := r.Strict && id < r.lastAdd
	last := r.lastAdd
	r.lastAdd = id
	r.view[id] = v
	r.everAdded[id] = true
	r.events++
	disp := r.disposed
	w.mu.Unlock()
	w.Check(!dup && !ever, "dup-added", "%v told twice of value %d on %v", r, id, in)
	w.Check(!ooo, "order-added", "%v on %v told of value %d after %d", r, in, id, last)
	w.Check(disp == 0, "after-dispose", "%v on %v told of value %d after disposal", r, in, id)
	w.Check(other == in, "wrong-instance", "%v of %v told of a value of %v", r, other, in)
	w.hook("added", in)
	r.maybePanic()
}

// HandleValueRemoved implements directive.ReferenceHandler.
func (r *Ref) HandleValueRemoved(i directive.Instance, av directive.AttachedValue) {
	w := r.W
	in := w.inst(i)
	w.enter(in, "removed "+r.String())
	defer w.exit(in)
	id, v := av.GetValueID(), av.GetValue()
	w.C.Ev("removed", "%v %v %d", in, r, id)
	w.mu.Lock()
	ov, had := r.view[id]
	delete(r.view, id)
	r.events++
	disp := r.disposed
	w.mu.Unlock()
	w.Check(had, "removed-unknown", "%v on %v told of removal of value %d it does not have", r, in, id)
	w.Check(!had || ov == v, "value-id", "%v on %v: value %d was %v, removed as %v", r, in, id, ov, v)
	w.Check(disp == 0, "after-dispose", "%v on %v told of removal of %d after disposal", r, in, id)
	w.hook("removed", in)
	r.maybePanic()
}

// HandleInstanceDisposed implements directive.ReferenceHandler.
func (r *Ref) HandleInstanceDisposed(i directive.Instance) {
	w := r.W
	in := w.inst(i)
	w.enter(in, "disposed "+r.String())
	defer w.exit(in)
	w.C.Ev("disposed", "%v %v", in, r)
	w.mu.Lock()
	r.disposed++
	r.events++
	n := r.disposed
	left := len(r.view)
	w.mu.Unlock()
	w.Check(n == 1, "disposed-twice", "%v on %v told %d times of disposal", r, in, n)
	w.Check(left == 0, "disposed-before-removed", "%v on %v told of disposal while holding %d values", r, in, left)
	w.Check(in.I.GetContext().Err() != nil, "disposed-ctx", "%v told of disposal of %v but its context is live", r, in)
	w.hook("disposed", in)
	r.maybePanic()
}

// Release releases.
func (r *Ref) Release() {
	r.R.Release()
	r.W.mu.Lock()
	if !r.released {
		r.released = true
		r.relEvents = r.events
	}
	r.W.mu.Unlock()
}

// View returns a copy of the view.
func (r *Ref) View() map[uint32]any {
	r.W.mu.Lock()
	defer r.W.mu.Unlock()
	m := make(map[uint32]any, len(r.view))
	for k, v := range r.view {
		m[k] = v
	}
	return m
}

// Cb is a monitored one-shot callback (dispose, value removed, resolver removed, child removed).
type Cb struct {
	W        *World
	ID       int
	Kind     string
	In       *Inst
	calls    int
	rel      func()
	released bool // release returned
	relCalls int
	regging  bool // registration call in progress: immediate calls are exempt from serialisation
	Panics   bool
}

// NewCb builds a callback.
func (w *World) NewCb(kind string, in *Inst) *Cb {
	w.mu.Lock()
	defer w.mu.Unlock()
	cb := &Cb{W: w, ID: w.id(), Kind: kind, In: in}
	w.cbAll = append(w.cbAll, cb)
	return cb
}

func (cb *Cb) String() string { return fmt.Sprintf("%s-cb%d", cb.Kind, cb.ID) }

// Register registers using fn and stores the release function.
func (cb *Cb) Register(fn func(cb func()) func()) {
	cb.W.mu.Lock()
	cb.regging = true
	cb.W.mu.Unlock()
	rel := fn(cb.Call)
	cb.W.mu.Lock()
	cb.regging = false
	cb.rel = rel
	cb.W.mu.Unlock()
	cb.W.Check(rel != nil, "nil-release", "nil release func for %v", cb)
}

// Call is the callback.
func (cb *Cb) Call() {
	w := cb.W
	w.mu.Lock()
	exempt := cb.regging
	cb.calls++
	n := cb.calls
	w.mu.Unlock()
	if !exempt && cb.In != nil {
		w.enter(cb.In, cb.String())
		defer w.exit(cb.In)
	}
	w.C.Ev("cb-"+cb.Kind, "%v %v", cb.In, cb)
	w.Check(n == 1, "cb-twice", "%v on %v called %d times", cb, cb.In, n)
	if !exempt {
		w.hook("cb-"+cb.Kind, cb.In)
	}
	if cb.Panics && !exempt {
		panic("harness: callback panic")
	}
}

// Release releases the callback.
func (cb *Cb) Release() {
	cb.rel()
	cb.W.mu.Lock()
	if !cb.released {
		cb.released = true
		cb.relCalls = cb.calls
	}
	cb.W.mu.Unlock()
}

// Calls returns the number of calls.
func (cb *Cb) Calls() int {
	cb.W.mu.Lock()
	defer cb.W.mu.Unlock()
	return cb.calls
}

// IdleCb is a monitored idle callback.
type IdleCb struct {
	W        *World
	ID       int
	In       *Inst
	rel      func()
	states   []bool
	lastErrs []error
	released bool
	relCount int
	Panics   bool
}

// NewIdle registers an idle callback.
func (w *World) NewIdle(in *Inst) *IdleCb {
	w.mu.Lock()
	ic := &IdleCb{W: w, ID: w.id(), In: in}
	w.idleAll = append(w.idleAll, ic)
	w.mu.Unlock()
	rel := in.I.AddIdleCallback(ic.call)
	w.mu.Lock()
	ic.rel = rel
	w.mu.Unlock()
	return ic
}

func (ic *IdleCb) call(idle bool, errs []error) {
	w := ic.W
	w.enter(ic.In, fmt.Sprintf("idle%d", ic.ID))
	defer w.exit(ic.In)
	w.C.Ev("idle", "%v idle%d %v errs=%d", ic.In, ic.ID, idle, len(errs))
	w.mu.Lock()
	n := len(ic.states)
	// the same state may be told again for the error of a resolver which failed
	// while idle: scripted errors are unique, but any two resolvers which are
	// stopped fail with the same context.Canceled.
	stopped := false
	for _, e := range errs {
		stopped = stopped || errors.Is(e, context.Canceled) || errors.Is(e, context.DeadlineExceeded)
	}
	dup := n > 0 && ic.states[n-1] == idle && (!idle || (!stopped && sameErrs(errs, ic.lastErrs)))
	ic.states = append(ic.states, idle)
	ic.lastErrs = errs
	w.mu.Unlock()
	w.Check(!dup, "idle-repeat", "idle callback on %v told %v twice in a row (call %d)", ic.In, idle, n+1)
	for _, e := range errs {
		w.Check(e != nil, "idle-nil-err", "nil error in the idle error list")
	}
	w.hook("idle", ic.In)
	if ic.Panics {
		panic("harness: idle callback panic")
	}
}

// Release releases the idle callback.
func (ic *IdleCb) Release() {
	ic.rel()
	ic.W.mu.Lock()
	if !ic.released {
		ic.released = true
		ic.relCount = len(ic.states)
	}
	ic.W.mu.Unlock()
}

func (ic *IdleCb) snap() (states []bool, errs []error) {
	ic.W.mu.Lock()
	defer ic.W.mu.Unlock()
	return append([]bool(nil), ic.states...), ic.lastErrs
}

// Hnd is a monitored handler.
type Hnd struct {
	W   *World
	ID  int
	rel func()
	// Behave decides what to return for an instance.
	Behave func(hd *Hnd, in *Inst) (n int, err error, pan bool)
	// Auto is the resolver script.
	Auto func(e *Exec) error
	// removedAt: RemoveHandler returned
	removed bool
	active  bool
	made    map[*Inst][]*Res
	inCall  int
	// removedAt is the stamp after the removal returned.
	removedAt int64
}

// NewHnd builds a handler (not yet added).
func (w *World) NewHnd(b func(hd *Hnd, in *Inst) (int, error, bool)) *Hnd {
	w.mu.Lock()
	defer w.mu.Unlock()
	hd := &Hnd{W: w, ID: w.id(), Behave: b, made: map[*Inst][]*Res{}}
	w.hnds = append(w.hnds, hd)
	return hd
}

func (hd *Hnd) String() string { return fmt.Sprintf("h%d", hd.ID) }

// Add adds the handler to the controller.
func (hd *Hnd) Add() error {
	rel, err := hd.W.DC.AddHandler(hd)
	hd.W.Check(err == nil && rel != nil, "add-handler", "AddHandler: rel nil=%v err=%v", rel == nil, err)
	hd.W.mu.Lock()
	hd.rel = rel
	hd.active = true
	hd.W.mu.Unlock()
	return err
}

// Remove removes the handler.
func (hd *Hnd) Remove() {
	hd.rel()
	hd.W.mu.Lock()
	if !hd.removed {
		hd.removed = true
		hd.removedAt = hd.W.clock.Add(1)
	}
	hd.W.mu.Unlock()
}

// HandleDirective implements directive.Handler.
func (hd *Hnd) HandleDirective(ctx context.Context, i directive.Instance) ([]directive.Resolver, error) {
	w := hd.W
	in := w.inst(i)
	w.C.Ev("offer", "%v %v", in, hd)
	w.mu.Lock()
	in.offers[hd]++
	n := in.offers[hd]
	late := hd.removed && in.Dir.(baser).base().Born > hd.removedAt
	w.mu.Unlock()
	w.Check(!late, "offer-removed", "%v, removed before %v was added, was offered it", hd, in)
	w.Check(n == 1, "offer-twice", "%v offered %v %d times", hd, in, n)
	w.Check(ctx != nil && i != nil, "offer-nil", "nil arguments")
	w.hook("handle", in)
	cnt, err, pan := hd.Behave(hd, in)
	if pan {
		panic("harness: handler panic")
	}
	if err != nil {
		return nil, err
	}
	var out []directive.Resolver
	for k := 0; k < cnt; k++ {
		out = append(out, w.NewRes(hd, in, hd.Auto))
	}
	w.hook("handle-end", in)
	return out, nil
}

// Res is a monitored resolver.
type Res struct {
	W    *World
	ID   int
	Hnd  *Hnd
	In   *Inst
	Auto func(e *Exec) error
	// Linger is the virtual time Resolve keeps running after its ctx is cancelled.
	Linger time.Duration

	running int
	execs   []*Exec
}

// NewRes builds a resolver.
func (w *World) NewRes(hd *Hnd, in *Inst, auto func(e *Exec) error) *Res {
	w.mu.Lock()
	defer w.mu.Unlock()
	r := &Res{W: w, ID: w.id(), Hnd: hd, In: in, Auto: auto}
	w.resAll = append(w.resAll, r)
	if hd != nil {
		hd.made[in] = append(hd.made[in], r)
	}
	return r
}

func (r *Res) String() string { return fmt.Sprintf("s%d", r.ID) }

// Exec is one execution of a resolver.
type Exec struct {
	Res  *Res
	N    int
	Ctx  context.Context
	RH   directive.ResolverHandler
	exit chan error
	done bool
	// vals accepted through this execution still thought to be attached
	vals []uint32
}

// Resolve implements directive.Resolver.
func (r *Res) Resolve(ctx context.Context, rh directive.ResolverHandler) error {
	w := r.W
	w.mu.Lock()
	r.running++
	over := r.running > 1
	e := &Exec{Res: r, N: len(r.execs) + 1, Ctx: ctx, RH: rh, exit: make(chan error, 1)}
	r.execs = append(r.execs, e)
	w.mu.Unlock()
	w.C.Ev("resolve", "%v %v #%d", r.In, r, e.N)
	w.Check(!over, "overlap", "resolver %v on %v executed twice at the same time (execution %d)", r, r.In, e.N)
	w.hook("resolve", r.In)
	var err error
	if r.Auto != nil {
		err = r.Auto(e)
	} else {
		select {
		case <-ctx.Done():
			w.C.Ev("res-cancelled", "%v #%d", r, e.N)
			if r.Linger != 0 {
				time.Sleep(r.Linger)
			}
			err = ctx.Err()
		case err = <-e.exit:
		}
	}
	w.mu.Lock()
	r.running--
	e.done = true
	w.mu.Unlock()
	w.C.Ev("res-exit", "%v #%d err=%v", r, e.N, err != nil)
	return err
}

// Cur returns the latest execution or nil.
func (r *Res) Cur() *Exec {
	r.W.mu.Lock()
	defer r.W.mu.Unlock()
	if len(r.execs) == 0 {
		return nil
	}
	return r.execs[len(r.execs)-1]
}

// NExec returns the number of executions.
func (r *Res) NExec() int {
	r.W.mu.Lock()
	defer r.W.mu.Unlock()
	return len(r.execs)
}

// Done reports whether the execution returned.
func (e *Exec) Done() bool {
	e.Res.W.mu.Lock()
	defer e.Res.W.mu.Unlock()
	return e.done
}

// Add adds a unique value.
func (e *Exec) Add() (*Val, uint32, bool) {
	w := e.Res.W
	w.mu.Lock()
	v := &Val{N: w.id(), Res: e.Res}
	w.mu.Unlock()
	id, ok := e.RH.AddValue(v)
	w.C.Ev("add-value", "%v #%d %v id=%d ok=%v", e.Res, e.N, v, id, ok)
	if ok {
		w.noteVal(e.Res.In, id, v, "AddValue")
		w.mu.Lock()
		e.vals = append(e.vals, id)
		w.mu.Unlock()
	}
	return v, id, ok
}

// ErrScripted is a scripted resolver error.
type ErrScripted struct{ N int }

func (e *ErrScripted) Error() string { return fmt.Sprintf("scripted error %d", e.N) }

// ErrHandler is a scripted handler error.
var ErrHandler = errors.New("harness: handler error")
