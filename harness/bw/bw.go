// Package bw provides a bus with scripted sources: handlers whose resolvers are driven by the test.
package bw

import (
	"context"
	"errors"
	"fmt"
	"sort"
	"sync"

	"github.com/aperturerobotics/controllerbus/bus"
	"github.com/aperturerobotics/controllerbus/bus/inmem"
	"github.com/aperturerobotics/controllerbus/directive"
	dcontroller "github.com/aperturerobotics/controllerbus/directive/controller"

	"verifharness/h"
)

// W is a bus under observation.
type W struct {
	C      *h.C
	Ctx    context.Context
	Cancel context.CancelFunc
	DC     directive.Controller
	B      bus.Bus
	mu     sync.Mutex
	next   int
}

// New builds a bus.
func New(c *h.C) *W {
	ctx, cancel := context.WithCancel(context.Background())
	w := &W{C: c, Ctx: ctx, Cancel: cancel}
	w.DC = dcontroller.NewController(ctx, c.Le)
	w.B = inmem.NewBus(w.DC)
	return w
}

// D is a directive with a string key.
type D struct {
	Key  string
	Opts directive.ValueOptions
	// NoEq: never equivalent to another.
	NoEq bool
	// Err is the error a Refuser returns.
	Err error
}

// Refuser is a bus which refuses directives with an error.
type Refuser struct{ bus.Bus }

// AddDirective refuses some directives.
func (r *Refuser) AddDirective(dir directive.Directive, cb directive.ReferenceHandler) (directive.Instance, directive.Reference, error) {
	if d, ok := dir.(*D); ok && d.Err != nil {
		return nil, nil, d.Err
	}
	return r.Bus.AddDirective(dir, cb)
}

func (d *D) Validate() error                         { return d.Err }
func (d *D) GetValueOptions() directive.ValueOptions { return d.Opts }
func (d *D) GetName() string                         { return "verif-d" }

// GetDebugVals returns debug values.
func (d *D) GetDebugVals() directive.DebugValues {
	return directive.DebugValues{"key": {d.Key}}
}

// IsEquivalent compares keys.
func (d *D) IsEquivalent(o directive.Directive) bool {
	od, ok := o.(*D)
	return ok && !d.NoEq && !od.NoEq && od.Key == d.Key
}

// V is a value of the main type.
type V struct{ N int }

func (v *V) String() string {
	if v == nil {
		return "v(nil)"
	}
	return fmt.Sprintf("v%d", v.N)
}

// O is a value of another type.
type O struct{ N int }

// HFunc is a function handler.
type HFunc func(ctx context.Context, di directive.Instance) ([]directive.Resolver, error)

// HandleDirective calls the function.
func (f HFunc) HandleDirective(ctx context.Context, di directive.Instance) ([]directive.Resolver, error) {
	return f(ctx, di)
}

// Src is a scripted source for one directive key.
type Src struct {
	W   *W
	Key string
	N   int
	// Loose: several goroutines use the source.
	mu    sync.Mutex
	inst  directive.Instance
	gen   int
	slots []*Slot
	rel   func()
	// wasIdle and told follow the last idle transition.
	wasIdle bool
	told    []error
	// Rnd is the source of randomness (the case by default).
	Rnd interface{ Int(n int) int }
}

// Slot is one resolver of the source (the one of the latest instance).
type Slot struct {
	S    *Src
	I    int
	gen  int
	rh   directive.ResolverHandler
	ctx  context.Context
	exit chan error
	// Running: Resolve has not returned.
	Running bool
	Idle    bool
	Err     error
	Vals    map[uint32]any
}

// ErrRes is a resolver error.
type ErrRes struct{ N int }

func (e *ErrRes) Error() string { return fmt.Sprintf("resolver error %d", e.N) }

// NewSrc registers a source with n resolvers.
func (w *W) NewSrc(key string, n int) *Src {
	s := &Src{W: w, Key: key, N: n, Rnd: w.C}
	rel, err := w.DC.AddHandler(HFunc(s.handle))
	if err != nil {
		w.C.Fail("add-handler", "%v", err)
		w.C.Abort()
	}
	s.rel = rel
	return s
}

// Release removes the source.
func (s *Src) Release() {
	s.rel()
	s.mu.Lock()
	s.inst = nil
	s.mu.Unlock()
}

func (s *Src) handle(ctx context.Context, di directive.Instance) ([]directive.Resolver, error) {
	d, ok := di.GetDirective().(*D)
	if !ok || d.Key != s.Key {
		return nil, nil
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	s.gen++
	s.inst = di
	s.slots = nil
	s.wasIdle, s.told = false, nil
	var out []directive.Resolver
	for k := 0; k < s.N; k++ {
		sl := &Slot{S: s, I: k, gen: s.gen, exit: make(chan error, 1), Running: true, Vals: map[uint32]any{}}
		s.slots = append(s.slots, sl)
		out = append(out, directive.NewFuncResolver(sl.resolve))
	}
	return out, nil
}

func (sl *Slot) resolve(ctx context.Context, rh directive.ResolverHandler) error {
	sl.S.mu.Lock()
	sl.rh, sl.ctx = rh, ctx
	sl.S.mu.Unlock()
	select {
	case <-ctx.Done():
		return ctx.Err()
	case err := <-sl.exit:
		return err
	}
}

// Inst returns the current instance (nil if none was offered or the last one was disposed).
func (s *Src) Inst() directive.Instance {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.inst == nil || s.inst.GetContext().Err() != nil {
		return nil
	}
	return s.inst
}

// Gen returns how many instances were offered.
func (s *Src) Gen() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.gen
}

// Slots returns the started slots of the live instance.
func (s *Src) Slots() []*Slot {
	if s.Inst() == nil {
		return nil
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	var out []*Slot
	for _, sl := range s.slots {
		if sl.rh != nil && sl.ctx.Err() == nil {
			out = append(out, sl)
		}
	}
	return out
}

// Num returns a fresh number.
func (w *W) Num() int {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.next++
	return w.next
}

// Add adds a value.
func (sl *Slot) Add(v any) (uint32, bool) {
	id, ok := sl.rh.AddValue(v)
	sl.S.W.C.Ev("src-add", "%s/%d %v id=%d ok=%v", sl.S.Key, sl.I, v, id, ok)
	if ok {
		sl.S.mu.Lock()
		sl.Vals[id] = v
		sl.S.mu.Unlock()
	}
	return id, ok
}

// Remove removes a value.
func (sl *Slot) Remove(id uint32) bool {
	sl.S.mu.Lock()
	delete(sl.Vals, id)
	sl.S.mu.Unlock()
	_, found := sl.rh.RemoveValue(id)
	sl.S.W.C.Ev("src-remove", "%s/%d id=%d found=%v", sl.S.Key, sl.I, id, found)
	return found
}

// Clear removes all values.
func (sl *Slot) Clear() {
	sl.S.mu.Lock()
	sl.Vals = map[uint32]any{}
	sl.S.mu.Unlock()
	ids := sl.rh.ClearValues()
	sl.S.W.C.Ev("src-clear", "%s/%d %v", sl.S.Key, sl.I, ids)
}

// MarkIdle marks the resolver idle or not.
func (sl *Slot) MarkIdle(b bool) {
	sl.S.W.C.Ev("src-idle", "%s/%d %v", sl.S.Key, sl.I, b)
	sl.S.mu.Lock()
	sl.Idle = b
	sl.S.noteIdleLocked()
	sl.S.mu.Unlock()
	sl.rh.MarkIdle(b)
}

// Exit makes Resolve return.
func (sl *Slot) Exit(err error) {
	sl.S.W.C.Ev("src-exit", "%s/%d err=%v", sl.S.Key, sl.I, err != nil)
	sl.S.mu.Lock()
	run := sl.Running
	sl.Running = false
	sl.Err = err
	sl.S.noteIdleLocked()
	sl.S.mu.Unlock()
	if run {
		sl.exit <- err
	}
}

// Attached returns the attached values.
func (s *Src) Attached() map[uint32]any {
	out := map[uint32]any{}
	if s.Inst() == nil {
		return out
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, sl := range s.slots {
		for k, v := range sl.Vals {
			out[k] = v
		}
	}
	return out
}

// IsIdle returns the idle state by the model and the errors.
func (s *Src) IsIdle() (bool, []error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.idleLocked()
}

// noteIdleLocked follows idle transitions.
func (s *Src) noteIdleLocked() {
	idle, errs := s.idleLocked()
	if idle != s.wasIdle || idle {
		s.wasIdle, s.told = idle, errs
	}
}

// TellNow notes that an idle callback is registered now (and told the current errors).
func (s *Src) TellNow() {
	s.mu.Lock()
	defer s.mu.Unlock()
	_, s.told = s.idleLocked()
}

// Told returns the errors known at the last idle transition, failure while idle or TellNow.
func (s *Src) Told() []error {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.told
}

func (s *Src) idleLocked() (bool, []error) {
	idle := true
	var errs []error
	for _, sl := range s.slots {
		if sl.Running && !sl.Idle {
			idle = false
		}
		if sl.Err != nil {
			errs = append(errs, sl.Err)
		}
	}
	return idle, errs
}

// IDs returns the sorted ids.
func IDs[T any](m map[uint32]T) []uint32 {
	var out []uint32
	for k := range m {
		out = append(out, k)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

// RandomOp performs a random operation on the source; typed is the percentage of main-type values.
func (s *Src) RandomOp(typed int) {
	c := s.Rnd
	p := func(n int) bool { return c.Int(100) < n }
	sls := s.Slots()
	if len(sls) == 0 {
		return
	}
	sl := sls[c.Int(len(sls))]
	switch k := c.Int(12); {
	case k < 5:
		var v any = &V{N: s.W.Num()}
		if !p(typed) {
			v = &O{N: s.W.Num()}
		}
		sl.Add(v)
	case k < 8:
		s.mu.Lock()
		ids := IDs(sl.Vals)
		s.mu.Unlock()
		if len(ids) > 0 {
			sl.Remove(ids[c.Int(len(ids))])
		}
	case k < 9:
		sl.Clear()
	case k < 11:
		if sl.Running {
			sl.MarkIdle(p(60))
		}
	default:
		if sl.Running && p(50) {
			var err error
			if p(50) {
				err = &ErrRes{s.W.Num()}
			}
			sl.Exit(err)
		}
	}
}

// Live returns the number of live directives.
func (w *W) Live() int { return len(w.DC.GetDirectives()) }

// IsOneOf reports whether err wraps one of the errors.
func IsOneOf(err error, l []error) bool {
	for _, e := range l {
		if errors.Is(err, e) {
			return true
		}
	}
	return false
}
