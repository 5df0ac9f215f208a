// Package busctl checks controllers attached to a bus (C15).
package busctl

import (
	"context"
	"errors"
	"fmt"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/aperturerobotics/controllerbus/bus"
	"github.com/aperturerobotics/controllerbus/controller"
	"github.com/aperturerobotics/controllerbus/controller/callback"
	"github.com/aperturerobotics/controllerbus/core"
	"github.com/aperturerobotics/controllerbus/directive"
	"github.com/blang/semver/v4"

	"verifharness/bw"
	"verifharness/h"
)

// exec is an execution of a controller.
type exec struct {
	ctx  context.Context
	cmd  chan string
	done bool
	slow int
}

// att is one attachment of a controller to the bus.
type att struct {
	ct  *ctl
	n   int
	how string // add, exec
	// attached by the model; executing by the model
	attached bool
	ex       *exec
	execs    int
	rel      func()
	cancel   context.CancelFunc
	cbs      []error
	ret      []error
	noCb     bool
	err      error // the error it failed with
	released bool
	removed  bool
}

// ctl is a controller under test.
type ctl struct {
	t    *tb
	n    int
	keys map[string]int // key -> number of resolvers; -1 error; -2 panic
	// atts are the attachments.
	atts []*att
	// quiet: removed and settled; must not be offered anything
	quiet bool
	// immediate commands for the next execution
	first  string
	offers map[directive.Instance]int
	reent  int
}

func (ct *ctl) name() string { return fmt.Sprintf("c%d", ct.n) }

// GetControllerInfo returns information.
func (ct *ctl) GetControllerInfo() *controller.Info {
	return controller.NewInfo(ct.name(), semver.MustParse("1.0.0"), "test")
}

// Close is never called by the bus for an attached controller.
func (ct *ctl) Close() error { return nil }

// tb is the test bench.
type tb struct {
	c    *h.C
	w    *bw.W
	b    bus.Bus
	mu   sync.Mutex
	ctls []*ctl
	dirs map[string]*dirState
	rnd  *h.LockedRand
	// exact: one operation at a time with settling
	exact bool
	natt  int
}

type dirState struct {
	key   string
	inst  directive.Instance
	ref   directive.Reference
	vals  map[uint32]*val
	since int // number of attachments made when it was added
}

type val struct {
	ct  *ctl
	idx int
}

// HandleDirective offers resolvers.
func (ct *ctl) HandleDirective(ctx context.Context, di directive.Instance) ([]directive.Resolver, error) {
	t := ct.t
	d, ok := di.GetDirective().(*bw.D)
	if !ok {
		return nil, nil
	}
	t.mu.Lock()
	ct.offers[di]++
	quiet := ct.quiet
	nr := ct.keys[d.Key]
	t.mu.Unlock()
	t.c.Ev("offer", "%s %s", ct.name(), d.Key)
	t.c.Check(!quiet, "offered-removed", "%s was offered %s after it was removed", ct.name(), d.Key)
	if ct.reent > 0 && t.rnd.Int(100) < ct.reent {
		t.c.Ev("reenter", "")
		switch t.rnd.Int(3) {
		case 0:
			_ = t.b.GetControllers()
		case 1:
			t.b.RemoveController(&ctl{t: t, n: -1})
		case 2:
			rel, err := t.b.AddController(ctx, callback.NewCallbackController(nil, nil, nil, nil), nil)
			t.c.Check(err == nil, "add", "%v", err)
			if rel != nil {
				rel()
			}
		}
	}
	switch nr {
	case -1:
		return nil, errors.New("handler error")
	case -2:
		panic("handler panic")
	}
	var out []directive.Resolver
	for i := 0; i < nr; i++ {
		v := &val{ct, i}
		out = append(out, directive.NewFuncResolver(func(ctx context.Context, rh directive.ResolverHandler) error {
			rh.AddValue(v)
			if v.idx%2 == 0 {
				<-ctx.Done()
			}
			return nil
		}))
	}
	return out, nil
}

// Execute runs until told.
func (ct *ctl) Execute(ctx context.Context) error {
	t := ct.t
	t.mu.Lock()
	var a *att
	for _, x := range ct.atts {
		if x.execs == 0 {
			a = x
			break
		}
	}
	if a == nil {
		t.mu.Unlock()
		t.c.Fail("executed-twice", "%s executed more often than it was added", ct.name())
		return nil
	}
	a.execs++
	ex := &exec{ctx: ctx, cmd: make(chan string, 1), slow: t.rnd.Int(5)}
	a.ex = ex
	first := ct.first
	// everything live since before it was added was offered
	for _, d := range t.dirs {
		if d.inst != nil && d.since < a.n && d.inst.GetContext().Err() == nil {
			t.c.Check(ct.offers[d.inst] > 0, "executed-before-offered", "%s executed before it was offered %s", ct.name(), d.key)
		}
	}
	t.mu.Unlock()
	t.c.Ev("execute", "%s", ct.name())
	if first == "" {
		select {
		case first = <-ex.cmd:
		case <-ctx.Done():
			time.Sleep(time.Duration(ex.slow) * time.Millisecond)
			t.mu.Lock()
			a.err = context.Canceled
			ex.done = true
			t.mu.Unlock()
			return ctx.Err()
		}
	}
	return t.end(a, ex, first)
}

func (t *tb) end(a *att, ex *exec, how string) error {
	t.c.Ev("exit", "%s %s", a.ct.name(), how)
	t.mu.Lock()
	defer t.mu.Unlock()
	ex.done = true
	switch how {
	case "nil":
		return nil
	case "err":
		a.err = fmt.Errorf("fail %d", a.n)
		a.attached = false
		return a.err
	case "canceled":
		// for example of a context of its own
		a.err = context.Canceled
		a.attached = false
		return a.err
	case "panic-err":
		a.err = fmt.Errorf("panic %d", a.n)
		a.attached = false
		panic(a.err)
	default:
		a.err = errors.New("any")
		a.attached = false
		panic("panic value")
	}
}

var exits = []string{"nil", "err", "panic-err", "panic", "canceled"}

func (t *tb) p(pct int) bool { return t.rnd.Int(100) < pct }

func (t *tb) add(ct *ctl) {
	t.mu.Lock()
	t.natt++
	a := &att{ct: ct, n: t.natt, how: "add", attached: true}
	if t.p(35) {
		a.how = "exec"
	}
	a.noCb = t.p(20)
	ct.atts = append(ct.atts, a)
	ct.quiet = false
	ct.first = ""
	if t.p(25) {
		ct.first = exits[t.rnd.Int(5)]
	}
	ct.offers = map[directive.Instance]int{}
	t.mu.Unlock()
	t.c.Ev("add", "%s %s first=%s", ct.name(), a.how, ct.first)
	ctx, cancel := context.WithCancel(t.w.Ctx)
	a.cancel = cancel
	if a.how == "add" {
		cb := func(err error) {
			t.c.Ev("exit-cb", "%s %v", ct.name(), err)
			t.mu.Lock()
			a.cbs = append(a.cbs, err)
			n := len(a.cbs)
			t.mu.Unlock()
			t.c.Check(n == 1, "exit-cb-twice", "%s: exit callback called %d times", ct.name(), n)
			_ = t.b.GetControllers()
		}
		if a.noCb {
			cb = nil
		}
		rel, err := t.b.AddController(ctx, ct, cb)
		if !t.c.Check(err == nil && rel != nil, "add", "%s: %v", ct.name(), err) {
			t.c.Abort()
		}
		a.rel = rel
		return
	}
	go func() {
		err := t.b.ExecuteController(ctx, ct)
		t.c.Ev("returned", "%s %v", ct.name(), err)
		t.mu.Lock()
		a.ret = append(a.ret, err)
		t.mu.Unlock()
	}()
}

func (t *tb) newCtl(keys []string) *ctl {
	ct := &ctl{t: t, n: len(t.ctls), keys: map[string]int{}, offers: map[directive.Instance]int{}}
	for _, k := range keys {
		if t.c.P(60) {
			ct.keys[k] = t.c.Int(5) - 1
			if ct.keys[k] == -1 && t.c.P(50) {
				ct.keys[k] = -2
			}
		}
	}
	if t.c.P(30) {
		ct.reent = 40
	}
	t.ctls = append(t.ctls, ct)
	return ct
}

func (t *tb) newDir(key string) {
	d := &dirState{key: key, vals: map[uint32]*val{}, since: t.nattNow()}
	inst, ref, err := t.b.AddDirective(&bw.D{Key: key}, bus.NewCallbackHandler(func(av directive.AttachedValue) {
		t.mu.Lock()
		d.vals[av.GetValueID()] = av.GetValue().(*val)
		t.mu.Unlock()
	}, func(av directive.AttachedValue) {
		t.mu.Lock()
		delete(d.vals, av.GetValueID())
		t.mu.Unlock()
	}, nil))
	t.c.Check(err == nil, "add-directive", "%v", err)
	t.mu.Lock()
	d.inst, d.ref = inst, ref
	d.since = t.natt
	t.dirs[key] = d
	t.mu.Unlock()
	t.c.Ev("dir", "%s", key)
}

func (t *tb) nattNow() int {
	t.mu.Lock()
	defer t.mu.Unlock()
	return t.natt
}

// live returns the latest attachment of the controller which the model says is attached.
func (ct *ctl) live() *att {
	for _, a := range ct.atts {
		if a.attached {
			return a
		}
	}
	return nil
}

// check compares the settled state with the model.
func (t *tb) check() {
	t.c.Ev("settled", "")
	got := map[controller.Controller]int{}
	for _, x := range t.b.GetControllers() {
		got[x]++
	}
	t.mu.Lock()
	defer t.mu.Unlock()
	want := map[controller.Controller]int{}
	for _, ct := range t.ctls {
		if ct.live() != nil {
			want[ct] = 1
		}
		t.c.Check(got[ct] == want[ct], "listed", "%s is listed %d times, want %d", ct.name(), got[ct], want[ct])
		for _, a := range ct.atts {
			t.c.Check(a.execs == 1, "execs", "%s was executed %d times", ct.name(), a.execs)
			if a.ex == nil {
				continue
			}
			if a.how == "add" {
				cancelled := a.ex.ctx.Err() != nil
				if a.released || (a.err != nil) {
					t.c.Check(cancelled, "not-cancelled", "%s: execution context not cancelled after release or failure (%v)", ct.name(), a.err)
				} else if !a.removed {
					t.c.Check(!cancelled, "cancelled", "%s: execution context cancelled while not released", ct.name())
				}
				if !a.noCb {
					switch {
					case a.err != nil && a.err.Error() == "any":
						t.c.Check(len(a.cbs) == 1 && a.cbs[0] != nil, "exit-cb", "%s: exit callback told %v after a panic", ct.name(), a.cbs)
					case a.err != nil && a.released:
					case a.err != nil:
						t.c.Check(len(a.cbs) == 1 && errors.Is(a.cbs[0], a.err), "exit-cb", "%s: exit callback told %v, want %v", ct.name(), a.cbs, a.err)
					default:
						t.c.Check(len(a.cbs) == 0 || a.cbs[0] == nil, "exit-cb", "%s: exit callback told %v, it did not fail", ct.name(), a.cbs)
					}
				}
			} else {
				switch {
				case !a.ex.done:
					t.c.Check(len(a.ret) == 0, "returned", "%s: ExecuteController returned %v while executing", ct.name(), a.ret)
				case a.err == nil:
					t.c.Check(len(a.ret) == 1 && a.ret[0] == nil, "returned", "%s: ExecuteController returned %v, want nil", ct.name(), a.ret)
				case a.err.Error() == "any":
					t.c.Check(len(a.ret) == 1 && a.ret[0] != nil, "returned", "%s: ExecuteController returned %v, want an error", ct.name(), a.ret)
				default:
					t.c.Check(len(a.ret) == 1 && errors.Is(a.ret[0], a.err), "returned", "%s: ExecuteController returned %v, want %v", ct.name(), a.ret, a.err)
				}
			}
		}
		ct.quiet = ct.live() == nil
	}
	for _, d := range t.dirs {
		if d.inst.GetContext().Err() != nil {
			continue
		}
		cnt := map[string]int{}
		for _, v := range d.vals {
			cnt[fmt.Sprintf("%s/%d", v.ct.name(), v.idx)]++
		}
		wc := map[string]int{}
		for _, ct := range t.ctls {
			if ct.live() == nil {
				continue
			}
			for i := 0; i < ct.keys[d.key]; i++ {
				wc[fmt.Sprintf("%s/%d", ct.name(), i)]++
			}
			t.c.Check(ct.offers[d.inst] == 1, "offered", "%s was offered %s %d times", ct.name(), d.key, ct.offers[d.inst])
		}
		t.c.Check(flat(cnt) == flat(wc), "values", "%s has values %s, want %s", d.key, flat(cnt), flat(wc))
	}
}

func flat(m map[string]int) string {
	var l []string
	for k, n := range m {
		l = append(l, fmt.Sprintf("%s*%d", k, n))
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

func settle(c *h.C) {
	c.Wait()
	time.Sleep(20 * time.Millisecond)
	c.Wait()
}

// remove detaches the controller in one of the ways; the model is updated before.
func (t *tb) remove(a *att) {
	x := t.rnd.Int(4)
	t.mu.Lock()
	if a.how == "exec" && x < 3 {
		x = 3
	}
	running := a.ex != nil && !a.ex.done
	if x == 2 && !(running) {
		x = 0
	}
	if a.how == "exec" && running && t.p(50) {
		x = 2
	}
	a.attached = false
	if x < 2 {
		a.released = true
	}
	if x == 3 {
		a.removed = true
	}
	t.mu.Unlock()
	switch x {
	case 0, 1:
		t.c.Ev("release", "%s", a.ct.name())
		a.rel()
		if t.p(20) {
			a.rel()
		}
	case 2:
		t.c.Ev("cancel", "%s", a.ct.name())
		a.cancel()
	case 3:
		t.c.Ev("remove", "%s", a.ct.name())
		t.b.RemoveController(a.ct)
	}
}

func run(c *h.C, exact bool) {
	w := bw.New(c)
	t := &tb{c: c, w: w, b: w.B, dirs: map[string]*dirState{}, rnd: c.NewRand(), exact: exact}
	keys := []string{"a", "b", "c"}[:1+c.Int(3)]
	base := 0
	if c.P(20) {
		b, _, err := core.NewCoreBus(w.Ctx, c.Le)
		c.Check(err == nil, "core", "%v", err)
		t.b = b
		settle(c)
		base = len(b.GetControllers())
		c.Check(base == 2, "core", "the core bus has %d controllers", base)
	}
	for step := 0; step < 25 && !c.Failed(); step++ {
		var wg sync.WaitGroup
		n := 1
		if !exact {
			n = 1 + c.Int(5)
		}
		used := map[*ctl]bool{}
		usedKey := map[string]bool{}
		var ops []func()
		for ; n > 0; n-- {
			if op := t.pick(keys, used, usedKey); op != nil {
				ops = append(ops, op)
			}
		}
		for _, op := range ops {
			if exact {
				op()
				continue
			}
			d := time.Duration(c.Int(3)) * time.Millisecond
			wg.Add(1)
			go func() {
				defer wg.Done()
				time.Sleep(d)
				op()
			}()
		}
		wg.Wait()
		settle(c)
		t.check()
		if len(used) > 0 || len(usedKey) > 0 {
			c.Check(len(t.b.GetControllers()) == base+t.attached(), "listed", "%d controllers listed, want %d", len(t.b.GetControllers()), base+t.attached())
		}
	}
	for _, ct := range t.ctls {
		for _, a := range ct.atts {
			a.cancel()
			if a.rel != nil {
				a.rel()
			}
		}
		t.b.RemoveController(ct)
	}
	for _, d := range t.dirs {
		d.ref.Release()
	}
	settle(c)
	c.Check(len(t.b.GetControllers()) == base, "leak-controller", "%d controllers left at the end", len(t.b.GetControllers()))
	c.Check(len(t.b.GetDirectives()) == 0, "leak-directive", "directives left at the end")
	w.Cancel()
	settle(c)
}

func (t *tb) attached() int {
	t.mu.Lock()
	defer t.mu.Unlock()
	n := 0
	for _, ct := range t.ctls {
		if ct.live() != nil {
			n++
		}
	}
	return n
}

// pick chooses an operation; the random choices inside happen here or on locked generators.
func (t *tb) pick(keys []string, used map[*ctl]bool, usedKey map[string]bool) func() {
	c := t.c
	var livec, deadc []*ctl
	for _, ct := range t.ctls {
		if used[ct] {
			continue
		}
		if ct.live() != nil {
			livec = append(livec, ct)
		} else {
			deadc = append(deadc, ct)
		}
	}
	switch x := c.Int(21); {
	case x == 20:
		// release a former attachment once more
		for _, ct := range t.ctls {
			for _, a := range ct.atts {
				if a.rel != nil && !a.attached && !used[ct] && c.P(40) {
					used[ct] = true
					return func() {
						t.mu.Lock()
						a.released = true
						t.mu.Unlock()
						c.Ev("stale-release", "%s", ct.name())
						a.rel()
					}
				}
			}
		}
		return nil
	case x < 6:
		var ct *ctl
		if len(deadc) > 0 && c.P(40) {
			ct = deadc[c.Int(len(deadc))]
		} else if len(livec) < 5 {
			ct = t.newCtl(keys)
		} else {
			return nil
		}
		used[ct] = true
		return func() { t.add(ct) }
	case x < 10:
		if len(livec) == 0 {
			return nil
		}
		ct := livec[c.Int(len(livec))]
		used[ct] = true
		return func() { t.remove(ct.live()) }
	case x < 14:
		// end an execution (also of a removed attachment)
		var l []*att
		for _, ct := range t.ctls {
			if used[ct] {
				continue
			}
			for _, a := range ct.atts {
				if a.ex != nil && !a.ex.done && a.ex.ctx.Err() == nil {
					l = append(l, a)
				}
			}
		}
		if len(l) == 0 {
			return nil
		}
		a := l[c.Int(len(l))]
		used[a.ct] = true
		how := exits[c.Int(5)]
		return func() {
			select {
			case a.ex.cmd <- how:
			default:
			}
		}
	default:
		k := keys[c.Int(len(keys))]
		if usedKey[k] {
			return nil
		}
		usedKey[k] = true
		d := t.dirs[k]
		if d == nil {
			return func() { t.newDir(k) }
		}
		return func() {
			t.mu.Lock()
			delete(t.dirs, k)
			t.mu.Unlock()
			c.Ev("dir-release", "%s", k)
			d.ref.Release()
		}
	}
}

func TestCheck(t *testing.T) {
	h.Run(t, []h.Scenario{
		{Name: "exact", Quick: 15000, Thorough: 300000, Fn: func(c *h.C) { run(c, true) }},
		{Name: "race", Quick: 15000, Thorough: 300000, Fn: func(c *h.C) { run(c, false) }},
	})
}
