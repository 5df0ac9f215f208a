// Package watch checks the watch helpers (C12).
package watch

import (
	"context"
	"errors"
	"fmt"
	"sync"
	"testing"
	"time"

	"github.com/aperturerobotics/controllerbus/bus"
	"github.com/aperturerobotics/controllerbus/directive"
	"github.com/aperturerobotics/util/backoff"
	"github.com/aperturerobotics/util/ccontainer"
	"github.com/aperturerobotics/util/keyed"
	"github.com/aperturerobotics/util/routine"

	"verifharness/bw"
	"verifharness/h"
)

// X is a transformed value.
type X struct{ N int }

type tv = directive.TypedAttachedValue[*bw.V]
type xv = directive.TransformedAttachedValue[*bw.V, *X]

// eff is one effect call.
type eff struct {
	id   uint32
	v    *bw.V
	done int
}

// mon is a monitored watcher.
type mon struct {
	c        *h.C
	kind     string
	mu       sync.Mutex
	id       uint32 // shown id (0 is unset or unknown)
	v        *bw.V  // shown value
	effects  []*eff
	rejected map[uint32]bool
	sel      func(n int) int
	mod      int // transform declines
	retry    bool
	ref      directive.Reference
	released bool
	poll     func() *bw.V
	nCalls   int
	cancel   context.CancelFunc
	started  map[int]*bw.V
	nRoutine int
	err      error // of the start
	// latestErr is what the helper which blocks returned
	latestErr error
}

var errRefused = errors.New("refused")

// refused: the bus does not accept the directive.
func refused(c *h.C) {
	w := bw.New(c)
	w.B = &bw.Refuser{Bus: w.B}
	src := w.NewSrc("k", 1)
	_, held, _ := w.B.AddDirective(&bw.D{Key: "k"}, nil)
	c.Wait()
	src.RandomOp(80)
	c.Wait()
	for i := 0; i < 3 && !c.Failed(); i++ {
		kind := kinds[c.Int(len(kinds))]
		m := start(c, w, &bw.D{Key: "k", Err: errRefused}, kind)
		c.Wait()
		m.mu.Lock()
		err := m.err
		if kind == "latest" {
			err = m.latestErr
		}
		c.Check(errors.Is(err, errRefused), "refused-error", "%s of a directive which the bus refuses: error %v", kind, err)
		c.Check(m.ref == nil, "refused-result", "%s of a directive which the bus refuses returned a reference", kind)
		c.Check(m.nCalls == 0 && len(m.effects) == 0 && m.nRoutine == 0, "refused-callback", "%s of a directive which the bus refuses called a callback", kind)
		m.mu.Unlock()
		m.cancel()
	}
	c.Check(w.Live() == 1, "leak-ref", "%d directives live, one is held", w.Live())
	held.Release()
	src.Release()
	w.Cancel()
	c.Wait()
}

// latest checks how the helper which blocks ends.
func latest(c *h.C) {
	w := bw.New(c)
	src := w.NewSrc("k", 1)
	ctx, cancel := context.WithCancel(w.Ctx)
	initErr, valErr := errors.New("init error"), errors.New("value error")
	failInit, failAt := c.P(20), c.Int(4)
	noInit, noVal := c.P(25), c.P(25)
	var mu sync.Mutex
	var ref directive.Reference
	var inst directive.Instance
	ninit, nval := 0, 0
	var initCb func(di directive.Instance, r directive.Reference) error
	if !noInit {
		initCb = func(di directive.Instance, r directive.Reference) error {
			mu.Lock()
			defer mu.Unlock()
			ninit++
			ref, inst = r, di
			c.Check(nval == 0 && di != nil && r != nil, "latest-init", "the init callback was called late or with nothing")
			if failInit {
				return initErr
			}
			return nil
		}
	}
	var valCb func(val tv) error
	if !noVal {
		valCb = func(val tv) error {
			mu.Lock()
			defer mu.Unlock()
			nval++
			c.Ev("latest-val", "%v", val != nil)
			if failAt != 0 && nval >= failAt {
				return valErr
			}
			return nil
		}
	}
	var ret error
	done := false
	go func() {
		err := bus.ExecOneOffWatchLatestCb[*bw.V](ctx, w.B, &bw.D{Key: "k"}, initCb, valCb)
		mu.Lock()
		ret, done = err, true
		mu.Unlock()
	}()
	var want error
	cancelled := false
	for i := 0; i < 10 && want == nil && !c.Failed(); i++ {
		c.Wait()
		mu.Lock()
		switch {
		case failInit && !noInit:
			want = initErr
		case failAt != 0 && nval >= failAt:
			want = valErr
		case cancelled:
			want = context.Canceled
		}
		c.Check(done == (want != nil), "latest-end", "the helper returned: %v, expected %v", done, want)
		c.Check(noInit || ninit == 1 && inst != nil && ref != nil, "latest-init", "the init callback was called %d times", ninit)
		mu.Unlock()
		if want != nil {
			break
		}
		c.Check(w.Live() == 1, "latest-lost", "the directive of a running helper is gone")
		if c.P(10) {
			cancelled = true
			c.Ev("latest-cancel", "")
			cancel()
			continue
		}
		src.RandomOp(60)
	}
	if want != nil {
		c.Check(errors.Is(ret, want), "latest-error", "the helper returned %v, want %v", ret, want)
		c.Check(w.Live() == 0, "leak-ref", "the helper returned and left a reference")
		c.Ev("latest-ended", "%v", want)
		n := nval
		src.RandomOp(80)
		c.Wait()
		c.Check(n == nval, "latest-after", "the callback was called after the helper returned")
	}
	cancel()
	c.Wait()
	c.Check(done && w.Live() == 0, "leak-ref", "the helper was cancelled: returned %v, %d directives live", done, w.Live())
	src.Release()
	w.Cancel()
	c.Wait()
}

var kinds = []string{"cb", "ctr", "ch", "latest", "routine", "effect", "select", "xone", "each", "xeach"}

func one(kind string) bool { return kind != "each" && kind != "xeach" }

// report is a change of the shown value.
func (m *mon) report(id uint32, v *bw.V, strict bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.nCalls++
	same := m.id == id
	rel := m.released
	m.id, m.v = id, v
	if strict {
		m.c.Check(!same, "report-twice", "%s: reported id %d twice in a row", m.kind, id)
	}
	m.c.Check(!rel, "after-release", "%s: called after the reference was released", m.kind)
}

// begin starts an effect.
func (m *mon) begin(id uint32, v *bw.V) func() {
	m.mu.Lock()
	defer m.mu.Unlock()
	e := &eff{id: id, v: v}
	for _, o := range m.effects {
		if one(m.kind) {
			m.c.Check(o.done > 0, "two-effects", "%s: effect for id %d while the one for %d is active", m.kind, id, o.id)
		} else {
			m.c.Check(o.id != id, "effect-twice", "%s: effect called twice for id %d", m.kind, id)
		}
	}
	m.effects = append(m.effects, e)
	m.c.Ev("effect", "%s id=%d", m.kind, id)
	return func() {
		m.mu.Lock()
		e.done++
		n := e.done
		m.mu.Unlock()
		m.c.Ev("cleanup", "%s id=%d", m.kind, id)
		m.c.Check(n == 1, "cleanup-twice", "%s: cleanup of id %d called %d times", m.kind, id, n)
	}
}

// start starts a watcher.
func start(c *h.C, w *bw.W, dir directive.Directive, kind string) *mon {
	m := &mon{c: c, kind: kind, rejected: map[uint32]bool{}, mod: 1}
	ctx, cancel := context.WithCancel(w.Ctx)
	m.cancel = cancel
	var err error
	selKind := c.Int(4)
	if kind == "select" || kind == "xone" {
		m.sel = func(n int) int {
			switch selKind {
			case 1:
				return n - 1
			case 2:
				return n / 2
			case 3:
				if n%3 == 0 {
					return -1
				}
				return 1 % n
			}
			return 0
		}
	}
	c.Ev("watch", "%s sel=%d", kind, selKind)
	rejMod := 0
	if c.P(50) {
		rejMod = 2 + c.Int(2)
	}
	rnd := c.NewRand()
	ordered := func(ids []uint32) {
		for i := 1; i < len(ids); i++ {
			if ids[i] <= ids[i-1] {
				m.c.Fail("select-order", "%s: the selection function was given ids %v", kind, ids)
				return
			}
		}
	}
	transform := func(ctx context.Context, val tv) (*X, bool, error) {
		v := val.GetValue()
		if d := rnd.Int(4); d > 1 {
			t := time.NewTimer(time.Duration(d*rnd.Int(20)) * time.Millisecond)
			select {
			case <-ctx.Done():
				t.Stop()
				if rnd.Int(2) == 0 {
					return nil, false, ctx.Err()
				}
			case <-t.C:
			}
		}
		if v.N%m.mod != 0 {
			return nil, false, nil
		}
		if m.retry && rnd.Int(3) == 0 {
			return nil, false, errors.New("transform failed")
		}
		c.Ev("transform", "%d", val.GetValueID())
		return &X{v.N}, true, nil
	}
	var opts []keyed.Option[uint32, tv]
	if kind == "xone" || kind == "xeach" {
		m.mod = 1 + c.Int(2)
		m.retry = c.P(30)
		if m.retry {
			bo := &backoff.Backoff{BackoffKind: backoff.BackoffKind_BackoffKind_CONSTANT, Constant: &backoff.Constant{Interval: 5}}
			opts = append(opts, keyed.WithRetry[uint32, tv](bo))
		}
	}
	xeffect := func(val xv) func() {
		if val == nil {
			m.c.Fail("effect-nil", "%s: effect called without a value", kind)
			return nil
		}
		x := val.GetTransformedValue()
		v := val.GetValue()
		m.c.Check(x != nil && x.N == v.N, "xfrm-mismatch", "%s: id %d effect of %v with transformed %v", kind, val.GetValueID(), v, x)
		return m.begin(val.GetValueID(), v)
	}
	switch kind {
	case "cb":
		_, m.ref, err = bus.ExecOneOffWatchCb[*bw.V](func(val tv) bool {
			if val == nil {
				c.Ev("cb", "nil")
				m.report(0, nil, true)
				return true
			}
			c.Ev("cb", "%d", val.GetValueID())
			if rejMod != 0 && val.GetValue().N%rejMod == 0 {
				m.mu.Lock()
				m.rejected[val.GetValueID()] = true
				m.mu.Unlock()
				return false
			}
			m.report(val.GetValueID(), val.GetValue(), true)
			return true
		}, w.B, dir)
	case "ctr":
		ctr := ccontainer.NewCContainer[*bw.V](nil)
		m.poll = ctr.GetValue
		_, m.ref, err = bus.ExecOneOffWatchCtr[*bw.V](ctr, w.B, dir)
	case "ch":
		var ch <-chan tv
		ch, _, m.ref, err = bus.ExecOneOffWatchCh[*bw.V](w.B, dir)
		m.poll = func() *bw.V {
			select {
			case x := <-ch:
				if x == nil {
					m.v = nil
				} else {
					m.v = x.GetValue()
				}
			default:
			}
			return m.v
		}
	case "latest":
		busy := 0
		go func() {
			err := bus.ExecOneOffWatchLatestCb[*bw.V](ctx, w.B, dir, func(di directive.Instance, ref directive.Reference) error {
				m.mu.Lock()
				m.ref = ref
				m.mu.Unlock()
				return nil
			}, func(val tv) error {
				m.mu.Lock()
				busy++
				m.c.Check(busy == 1, "latest-concurrent", "latest: callback called concurrently")
				m.mu.Unlock()
				if rnd.Int(2) == 0 {
					time.Sleep(time.Duration(rnd.Int(5)) * time.Millisecond)
				}
				m.mu.Lock()
				busy--
				if val == nil {
					m.v = nil
				} else {
					m.v = val.GetValue()
				}
				m.mu.Unlock()
				return nil
			})
			c.Ev("latest-returned", "")
			m.mu.Lock()
			m.latestErr = err
			m.mu.Unlock()
		}()
		c.Wait()
		m.poll = func() *bw.V {
			m.mu.Lock()
			defer m.mu.Unlock()
			return m.v
		}
	case "routine":
		ctr := routine.NewStateRoutineContainer[*bw.V](func(a, b *bw.V) bool { return a == b })
		m.started = map[int]*bw.V{}
		ctr.SetStateRoutine(func(ctx context.Context, st *bw.V) error {
			m.mu.Lock()
			m.nRoutine++
			n := m.nRoutine
			m.started[n] = st
			m.mu.Unlock()
			<-ctx.Done()
			m.mu.Lock()
			delete(m.started, n)
			m.mu.Unlock()
			return ctx.Err()
		})
		ctr.SetContext(ctx, true)
		_, m.ref, err = bus.ExecOneOffWatchRoutine[*bw.V](ctr, w.B, dir)
		m.poll = func() *bw.V {
			m.mu.Lock()
			defer m.mu.Unlock()
			m.c.Check(len(m.started) <= 1, "routine-two", "routine: %d executions at once", len(m.started))
			for _, v := range m.started {
				return v
			}
			return nil
		}
	case "effect":
		_, m.ref, err = bus.ExecOneOffWatchEffect[*bw.V](func(val tv) func() {
			if val == nil {
				m.c.Fail("effect-nil", "effect called without a value")
				return nil
			}
			return m.begin(val.GetValueID(), val.GetValue())
		}, w.B, dir)
	case "select":
		var sel func(vals []tv) int
		if selKind != 0 {
			sel = func(vals []tv) int {
				var ids []uint32
				for _, v := range vals {
					ids = append(ids, v.GetValueID())
				}
				ordered(ids)
				return m.sel(len(vals))
			}
		}
		_, m.ref, err = bus.ExecOneOffWatchSelectCb[*bw.V](w.B, dir, sel, func(val tv) {
			if val == nil {
				c.Ev("select", "nil")
				m.report(0, nil, true)
			} else {
				c.Ev("select", "%d", val.GetValueID())
				m.report(val.GetValueID(), val.GetValue(), true)
			}
		})
	case "xone":
		var sel func(vals []xv) int
		if selKind != 0 {
			sel = func(vals []xv) int {
				var ids []uint32
				for _, v := range vals {
					ids = append(ids, v.GetValueID())
				}
				ordered(ids)
				if len(vals) == 0 {
					return -1
				}
				return m.sel(len(vals))
			}
		}
		_, m.ref, err = bus.ExecOneOffWatchTransformEffect[*bw.V, *X](ctx, transform, sel, xeffect, w.B, dir, opts...)
	case "each":
		_, m.ref, err = bus.ExecWatchEffect[*bw.V](func(val tv) func() {
			return m.begin(val.GetValueID(), val.GetValue())
		}, w.B, dir)
	case "xeach":
		_, m.ref, err = bus.ExecWatchTransformEffect[*bw.V, *X](ctx, transform, xeffect, w.B, dir, opts...)
	}
	m.err = err
	if d, ok := dir.(*bw.D); !ok || d.Err == nil {
		m.c.Check(err == nil, "watch-error", "%s: %v", kind, err)
	}
	return m
}

func (m *mon) release() {
	m.mu.Lock()
	ref := m.ref
	m.mu.Unlock()
	m.c.Ev("release", "%s", m.kind)
	ref.Release()
	// what another goroutine was about to tell when the reference was released may still arrive
	m.c.Wait()
	m.mu.Lock()
	m.released = true
	m.mu.Unlock()
}

// check compares with the attached values.
func (m *mon) check(att map[uint32]any) {
	if m.released {
		return
	}
	exp := map[uint32]*bw.V{}
	for id, x := range att {
		if v, ok := x.(*bw.V); ok && v.N%m.mod == 0 {
			exp[id] = v
		}
	}
	c := m.c
	switch m.kind {
	case "cb":
		m.mu.Lock()
		defer m.mu.Unlock()
		for id := range exp {
			if m.rejected[id] {
				delete(exp, id)
			}
		}
		if m.id == 0 {
			c.Check(len(exp) == 0, "unset", "cb: shows nothing although %v attached and not rejected", exp)
		} else {
			c.Check(exp[m.id] == m.v && m.v != nil, "stale", "cb: shows id %d, attached and not rejected are %v", m.id, exp)
		}
	case "ctr", "ch", "latest", "routine":
		v := m.poll()
		if v == nil {
			c.Check(len(exp) == 0, "unset", "%s: shows nothing although %v attached", m.kind, exp)
			return
		}
		ok := false
		for _, x := range exp {
			ok = ok || x == v
		}
		c.Check(ok, "stale", "%s: shows %v, attached are %v", m.kind, v, exp)
	case "effect", "xone":
		m.mu.Lock()
		defer m.mu.Unlock()
		var act *eff
		for _, e := range m.effects {
			if e.done == 0 {
				act = e
			}
		}
		if m.kind == "xone" {
			m.checkSel(act, exp)
			return
		}
		if act == nil {
			c.Check(len(exp) == 0, "unset", "%s: no effect active although %v attached", m.kind, exp)
		} else {
			c.Check(exp[act.id] == act.v, "stale", "%s: effect of id %d active, attached are %v", m.kind, act.id, exp)
		}
	case "select":
		m.mu.Lock()
		defer m.mu.Unlock()
		var act *eff
		if m.id != 0 {
			act = &eff{id: m.id, v: m.v}
		}
		m.checkSel(act, exp)
	case "each", "xeach":
		m.mu.Lock()
		defer m.mu.Unlock()
		n := 0
		for _, e := range m.effects {
			if e.done == 0 {
				n++
				c.Check(exp[e.id] == e.v, "stale", "%s: effect of id %d active, attached are %v", m.kind, e.id, exp)
			}
		}
		c.Check(n == len(exp), "missing-effect", "%s: %d effects active, attached are %v", m.kind, n, exp)
	}
}

// checkSel checks a selecting watcher.
func (m *mon) checkSel(act *eff, exp map[uint32]*bw.V) {
	ids := bw.IDs(exp)
	var want uint32
	if len(ids) > 0 {
		if i := m.sel(len(ids)); i >= 0 && i < len(ids) {
			want = ids[i]
		}
	}
	var got uint32
	if act != nil {
		got = act.id
		m.c.Check(exp[got] == act.v, "stale", "%s: id %d active, attached are %v", m.kind, got, exp)
	}
	m.c.Check(got == want, "selection", "%s: id %d selected, want %d of %v", m.kind, got, want, ids)
}

// disposed checks the state after the directive was disposed.
func (m *mon) disposedCheck() {
	m.check(map[uint32]any{})
}

func all(srcs []*bw.Src) map[uint32]any {
	out := map[uint32]any{}
	for _, s := range srcs {
		for id, v := range s.Attached() {
			out[id] = v
		}
	}
	return out
}

func settle(c *h.C) {
	c.Wait()
	time.Sleep(time.Minute)
	c.Wait()
}

func exact(c *h.C) {
	w := bw.New(c)
	dir := &bw.D{Key: "k"}
	_, held, _ := w.B.AddDirective(dir, nil)
	var srcs []*bw.Src
	for n := 1 + c.Int(2); n > 0; n-- {
		srcs = append(srcs, w.NewSrc("k", 1+c.Int(2)))
	}
	c.Wait()
	if c.P(15) {
		// many values
		for n := 10 + c.Int(25); n > 0; n-- {
			srcs[c.Int(len(srcs))].Slots()[0].Add(&bw.V{N: w.Num()})
		}
	}
	for n := c.Int(5); n > 0; n-- {
		srcs[c.Int(len(srcs))].RandomOp(70)
	}
	var mons []*mon
	for n := 1 + c.Int(3); n > 0; n-- {
		mons = append(mons, start(c, w, dir, kinds[c.Int(len(kinds))]))
	}
	closed := false
	for step := 0; step < 16 && !c.Failed(); step++ {
		if c.P(60) {
			settle(c)
			for _, m := range mons {
				m.check(all(srcs))
			}
		} else if c.P(40) {
			time.Sleep(time.Duration(c.Int(30)) * time.Millisecond)
		}
		switch x := c.Int(30); {
		case x == 0 && len(mons) > 0:
			mons[c.Int(len(mons))].release()
		case x == 1:
			i := c.Int(len(srcs))
			c.Ev("src-release", "%d", i)
			srcs[i].Release()
			srcs[i] = w.NewSrc("k", 1+c.Int(2))
			c.Wait()
		case x == 2:
			mons = append(mons, start(c, w, dir, kinds[c.Int(len(kinds))]))
		case x == 3 && step > 8:
			closed = true
		default:
			srcs[c.Int(len(srcs))].RandomOp(70)
		}
		if closed {
			break
		}
	}
	if closed || c.P(30) {
		closed = true
		for _, s := range srcs {
			if i := s.Inst(); i != nil {
				c.Ev("close", "")
				i.Close()
				break
			}
		}
		settle(c)
		for _, m := range mons {
			m.disposedCheck()
		}
	} else {
		settle(c)
		for _, m := range mons {
			m.check(all(srcs))
		}
	}
	finishCase(c, w, mons, held, srcs)
}

func finishCase(c *h.C, w *bw.W, mons []*mon, held directive.Reference, srcs []*bw.Src) {
	for _, m := range mons {
		if !m.released {
			m.release()
		}
	}
	settle(c)
	for _, m := range mons {
		m.cancel()
	}
	held.Release()
	settle(c)
	c.Check(w.Live() == 0, "leak-ref", "%d directives live after all references were released", w.Live())
	for _, s := range srcs {
		s.Release()
	}
	w.Cancel()
	c.Wait()
}

func race(c *h.C) {
	w := bw.New(c)
	dir := &bw.D{Key: "k"}
	_, held, _ := w.B.AddDirective(dir, nil)
	var srcs []*bw.Src
	var wg sync.WaitGroup
	for n := 1 + c.Int(3); n > 0; n-- {
		s := w.NewSrc("k", 1+c.Int(2))
		s.Rnd = c.NewRand()
		srcs = append(srcs, s)
	}
	c.Wait()
	stop := make(chan struct{})
	for _, s := range srcs {
		r := c.NewRand()
		ops := 4 + c.Int(14)
		relAt := -1
		if c.P(15) {
			relAt = c.Int(ops)
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < ops; k++ {
				s.RandomOp(75)
				if r.Int(3) == 0 {
					time.Sleep(time.Duration(r.Int(15)) * time.Millisecond)
				}
				if k == relAt {
					s.Release()
					return
				}
			}
		}()
	}
	var mons []*mon
	for n := 1 + c.Int(5); n > 0; n-- {
		if c.P(50) {
			time.Sleep(time.Duration(c.Int(15)) * time.Millisecond)
		}
		// the watcher named latest waits for quiescence to learn its reference
		mons = append(mons, start(c, w, dir, kinds[c.Int(len(kinds))]))
	}
	closed := c.P(20)
	if closed {
		time.Sleep(time.Duration(c.Int(60)) * time.Millisecond)
		for _, s := range srcs {
			if i := s.Inst(); i != nil {
				c.Ev("close", "")
				i.Close()
				break
			}
		}
	}
	if c.P(30) {
		time.Sleep(time.Duration(c.Int(30)) * time.Millisecond)
		mons[c.Int(len(mons))].release()
	}
	wg.Wait()
	close(stop)
	settle(c)
	att := all(srcs)
	if closed {
		att = map[uint32]any{}
	}
	for _, m := range mons {
		m.check(att)
	}
	finishCase(c, w, mons, held, srcs)
}

var _ = fmt.Sprint

func TestCheck(t *testing.T) {
	h.Run(t, []h.Scenario{
		{Name: "exact", Quick: 12000, Thorough: 300000, Fn: exact},
		{Name: "refused", Quick: 2000, Thorough: 20000, Fn: refused},
		{Name: "latest", Quick: 3000, Thorough: 50000, Fn: latest},
		{Name: "race", Quick: 10000, Thorough: 240000, Fn: race},
	})
}
