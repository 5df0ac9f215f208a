// Package csctl checks the config-set controller (C18).
package csctl

import (
	"context"
	"errors"
	"fmt"
	"slices"
	"sync"
	"testing"
	"time"

	"github.com/aperturerobotics/controllerbus/bus"
	"github.com/aperturerobotics/controllerbus/config"
	"github.com/aperturerobotics/controllerbus/controller"
	"github.com/aperturerobotics/controllerbus/controller/configset"
	configset_controller "github.com/aperturerobotics/controllerbus/controller/configset/controller"
	"github.com/aperturerobotics/controllerbus/controller/resolver"
	"github.com/aperturerobotics/controllerbus/core"
	"github.com/aperturerobotics/controllerbus/directive"
	"github.com/blang/semver/v4"

	"verifharness/bw"
	"verifharness/h"
	"verifharness/sc"
)

// manyErrs is an error which cannot be compared.
type manyErrs []error

func (m manyErrs) Error() string { return errors.Join(m...).Error() }

// same compares errors.
func same(got, want error) bool {
	if m, ok := want.(manyErrs); ok {
		g, ok := got.(manyErrs)
		return ok && len(g) > 0 && g[0] == m[0]
	}
	if want == nil || got == nil {
		return want == nil && got == nil
	}
	return sc.SameErr(got, want)
}

// set is an applied set or a lookup.
type set struct {
	n     int
	conf  configset.ConfigSet
	keys  []string
	inst  directive.Instance
	refs  []directive.Reference
	view  map[uint32]configset.State
	since int // window
}

// lookup: no configs.
func (s *set) lookup() bool { return s.conf == nil }

func (s *set) has(k string) bool {
	if s.lookup() {
		for _, x := range s.keys {
			if x == k {
				return true
			}
		}
		return false
	}
	_, ok := s.conf[k]
	return ok
}

type tb struct {
	c    *h.C
	w    *bw.W
	e    *sc.Env
	mu   sync.Mutex
	sets []*set
	nset int
	win  int
	// cur is the observed config of each key.
	cur map[string]configset.ControllerConfig
	// applied in the current window.
	applied map[string][]configset.ControllerConfig
	// reset: the config set controller went away in the current window
	reset bool
	relC  func()
}

var keys = []string{"a", "b", "c"}

func (t *tb) newConf() config.Config {
	c := t.c
	conf := &sc.Conf{ID: "test/a", N: int64(c.Int(6))}
	switch x := c.Int(20); {
	case x < 2:
		conf.ID = "unknown"
	case x < 4:
		conf.Bad = true
	case x < 5:
		conf.Bad = true
		conf.Err = manyErrs{t.e.NewErr("validate")}
	case x < 6:
		return nil
	}
	return conf
}

func (t *tb) newSet() configset.ConfigSet {
	c := t.c
	s := configset.ConfigSet{}
	for _, k := range keys {
		if c.P(50) {
			s[k] = configset.NewControllerConfig(uint64(c.Int(5)), t.newConf())
		}
	}
	if c.P(5) {
		s[""] = configset.NewControllerConfig(1, t.newConf())
	}
	return s
}

func confStr(cc configset.ControllerConfig) string {
	if cc == nil {
		return "none"
	}
	return fmt.Sprintf("%v@%d", cc.GetConfig(), cc.GetRev())
}

func confEq(a, b config.Config) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return a.EqualsConfig(b)
}

func setEq(a, b configset.ConfigSet) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		w, ok := b[k]
		if !ok || v.GetRev() != w.GetRev() || !confEq(v.GetConfig(), w.GetConfig()) {
			return false
		}
	}
	return true
}

func setStr(s configset.ConfigSet) (o string) {
	for _, k := range append([]string{""}, keys...) {
		if v, ok := s[k]; ok {
			o += fmt.Sprintf(" %s=%s", k, confStr(v))
		}
	}
	return
}

func keysEq(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (t *tb) add(s *set, dir directive.Directive) {
	c := t.c
	var old *set
	for _, o := range t.sets {
		if len(o.refs) == 0 || o.lookup() != s.lookup() {
			continue
		}
		if s.lookup() && keysEq(s.keys, o.keys) || !s.lookup() && setEq(s.conf, o.conf) {
			old = o
		}
	}
	inst, ref, err := t.w.B.AddDirective(dir, nil)
	if !c.Check(err == nil, "add-directive", "%v", err) {
		c.Abort()
	}
	for k, v := range s.conf {
		t.applied[k] = append(t.applied[k], v)
	}
	if old != nil {
		c.Check(old.inst == inst, "not-shared", "equal sets do not share an instance")
		old.refs = append(old.refs, ref)
		return
	}
	for _, o := range t.sets {
		c.Check(len(o.refs) == 0 || o.inst != inst, "shared", "different sets share an instance")
	}
	s.n = t.nset
	s.since = t.win
	t.nset++
	s.inst = inst
	s.refs = append(s.refs, ref)
	s.view = map[uint32]configset.State{}
	t.sets = append(t.sets, s)
	inst.AddReference(bus.NewCallbackHandler(func(av directive.AttachedValue) {
		t.mu.Lock()
		s.view[av.GetValueID()] = av.GetValue().(configset.State)
		t.mu.Unlock()
	}, func(av directive.AttachedValue) {
		t.mu.Lock()
		delete(s.view, av.GetValueID())
		t.mu.Unlock()
	}, nil), true)
}

func (t *tb) onExecute(ct *sc.Ctrl, n int) sc.Step {
	st := sc.Step{Delay: -1}
	rnd := t.e.Rnd
	switch x := rnd.Int(10); {
	case x < 5:
	case x < 6:
		st.Delay = 0
	default:
		st.Delay = time.Duration(1+rnd.Int(3000)) * time.Millisecond
	}
	st.End = []string{"nil", "err", "err", "panic"}[rnd.Int(4)]
	if rnd.Int(4) == 0 {
		st.Slow = time.Duration(rnd.Int(5)) * time.Millisecond
	}
	st.NilOnCancel = rnd.Int(4) == 0
	return st
}

func (t *tb) addCtl() {
	for _, s := range t.sets {
		if len(s.refs) > 0 {
			for k, v := range s.conf {
				t.applied[k] = append(t.applied[k], v)
			}
		}
	}
	ctl, err := configset_controller.NewController(t.c.Le, t.w.B)
	t.c.Check(err == nil, "new-controller", "%v", err)
	rel, err := t.w.B.AddController(t.w.Ctx, ctl, nil)
	t.c.Check(err == nil, "add-controller", "%v", err)
	t.relC = rel
	t.c.Ev("configset", "on")
}

// check compares with the model.
func (t *tb) check() {
	c := t.c
	c.Ev("settled", "")
	listed := map[controller.Controller]int{}
	for _, x := range t.w.B.GetControllers() {
		listed[x]++
	}
	t.mu.Lock()
	defer t.mu.Unlock()
	t.e.Mu.Lock()
	defer t.e.Mu.Unlock()
	var want []config.Config
	for _, k := range keys {
		cc := t.checkKey(k)
		if cc != nil {
			want = append(want, cc.GetConfig())
		}
		t.cur[k] = cc
	}
	if c.Failed() {
		return
	}
	for _, ct := range t.e.All {
		ok := false
		for _, x := range want {
			ok = ok || x != nil && x.EqualsConfig(ct.Conf)
		}
		if !ok {
			c.Check(ct.Closed == 1 && !ct.Running && listed[ct] == 0, "left", "%s is left although no key runs it: closed %d running %v listed %d", ct.Name(), ct.Closed, ct.Running, listed[ct])
		}
		if ct.Closed == 0 && (ct.Running || ct.Done) {
			c.Check(listed[ct] == 1, "not-listed", "%s is listed %d times", ct.Name(), listed[ct])
		}
		for _, o := range t.e.All {
			c.Check(o == ct || o.Closed > 0 || ct.Closed > 0 || !o.Conf.EqualsConfig(ct.Conf), "twice", "%s and %s run at the same time", ct.Name(), o.Name())
		}
	}
	for _, s := range t.sets {
		if len(s.refs) > 0 && t.relC != nil {
			n := 0
			for _, k := range keys {
				if s.has(k) {
					n++
				}
			}
			c.Check(len(s.view) == n, "values", "set %d has %d values for %d keys", s.n, len(s.view), n)
		} else {
			c.Check(len(s.view) == 0, "values-left", "set %d has %d values", s.n, len(s.view))
		}
	}
	t.applied = map[string][]configset.ControllerConfig{}
	t.reset = false
	t.win++
}

// checkKey checks the states reported for a key and returns the config in use.
func (t *tb) checkKey(k string) configset.ControllerConfig {
	c := t.c
	if t.relC == nil {
		return nil
	}
	var held []configset.ControllerConfig
	var refs, cont int
	var states []configset.State
	for _, s := range t.sets {
		if len(s.refs) == 0 || !s.has(k) {
			continue
		}
		refs++
		if s.since < t.win && !t.reset {
			cont++
		}
		if !s.lookup() {
			held = append(held, s.conf[k])
		}
		var st configset.State
		for _, x := range s.view {
			if x.GetId() == k {
				c.Check(st == nil, "states", "set %d has two states for %s", s.n, k)
				st = x
			}
		}
		if !c.Check(st != nil, "no-state", "set %d has no state for %s", s.n, k) {
			return nil
		}
		states = append(states, st)
	}
	if refs == 0 {
		return nil
	}
	cc := states[0].GetControllerConfig()
	before := t.cur[k]
	if t.reset {
		before = nil
	}
	for _, st := range states[1:] {
		c.Check(st.GetControllerConfig() == cc && same(st.GetError(), states[0].GetError()) && st.GetController() == states[0].GetController(), "states-differ",
			"different states are reported for %s: %s %v %v and %s %v %v", k, confStr(cc), states[0].GetController(), states[0].GetError(), confStr(st.GetControllerConfig()), st.GetController(), st.GetError())
	}
	st := states[0]
	var lo uint64
	for _, x := range held {
		lo = max(lo, x.GetRev())
	}
	if cc == nil {
		c.Ev("state-none", "%s", k)
		c.Check(len(held) == 0 && (before == nil || cont == 0), "no-config", "%s has no config, applied %d, before %s", k, len(held), confStr(before))
		c.Check(st.GetController() == nil && st.GetError() == nil, "state-none", "%s has no config but %v %v", k, st.GetController(), st.GetError())
		return nil
	}
	known := cc == before
	for _, x := range append(append([]configset.ControllerConfig{}, held...), t.applied[k]...) {
		known = known || x == cc
	}
	c.Check(known, "config-unknown", "%s runs %s which was not applied (before: %s)", k, confStr(cc), confStr(before))
	c.Check(cc.GetRev() >= lo, "revision", "%s runs %s, revision %d is applied", k, confStr(cc), lo)
	if cont > 0 && before != nil {
		lo, hi := max(lo, before.GetRev()), before.GetRev()
		for _, x := range t.applied[k] {
			hi = max(hi, x.GetRev())
		}
		c.Check(cc.GetRev() >= lo && cc.GetRev() <= hi, "revision", "%s runs %s, the highest revision was %d", k, confStr(cc), hi)
		c.Check(cc.GetRev() != before.GetRev() || cc == before, "replaced", "%s was replaced by %s", confStr(before), confStr(cc))
	}
	conf, _ := cc.GetConfig().(*sc.Conf)
	switch {
	case conf == nil || conf.Bad:
		c.Ev("state-bad", "%s", k)
		want := error(sc.ErrPanicVal)
		if conf != nil {
			want = conf.Validate()
		}
		c.Check(st.GetController() == nil && same(st.GetError(), want), "state-bad", "%s is invalid (%v), its state is %v %v", k, want, st.GetController(), st.GetError())
	case conf.ID == "unknown":
		c.Ev("state-unknown", "%s", k)
		c.Check(st.GetController() == nil && st.GetError() == nil, "state-unknown", "%s has no factory, its state is %v %v", k, st.GetController(), st.GetError())
	default:
		var ct *sc.Ctrl
		for _, x := range t.e.All {
			if x.Conf.EqualsConfig(conf) && x.Closed == 0 {
				ct = x
			}
		}
		if !c.Check(ct != nil, "not-running", "%s (%s) is not run, its state is %v %v", k, confStr(cc), st.GetController(), st.GetError()) {
			break
		}
		if ct.Running || ct.Done {
			c.Ev("state-run", "%s", k)
			c.Check(st.GetController() == controller.Controller(ct) && st.GetError() == nil, "state-run", "%s runs %s, its state is %v %v", k, ct.Name(), st.GetController(), st.GetError())
		} else {
			c.Ev("state-err", "%s", k)
			c.Check(st.GetController() == nil && same(st.GetError(), ct.LastErr), "state-err", "%s failed with %v, its state is %v %v", k, ct.LastErr, st.GetController(), st.GetError())
		}
	}
	return cc
}

func setup(c *h.C) *tb {
	ctx, cancel := context.WithCancel(context.Background())
	w := &bw.W{C: c, Ctx: ctx, Cancel: cancel}
	t := &tb{c: c, w: w, cur: map[string]configset.ControllerConfig{}, applied: map[string][]configset.ControllerConfig{}}
	t.e = &sc.Env{C: c, Rnd: c.NewRand(), OnExecute: t.onExecute}
	b, _, err := core.NewCoreBus(ctx, c.Le, core.WithControllerFactories(&sc.Fac{E: t.e, ID: "test/a", Ver: semver.MustParse("1.0.0"), Tag: "a"}))
	if !c.Check(err == nil, "core", "NewCoreBus: %v", err) {
		c.Abort()
	}
	w.B = b
	return t
}

func runBus(c *h.C) {
	t := setup(c)
	if c.P(80) {
		t.addCtl()
	}
	var held []*set
	for step := 0; step < 25 && !c.Failed(); step++ {
		held = held[:0]
		for _, s := range t.sets {
			if len(s.refs) > 0 {
				held = append(held, s)
			}
		}
		switch x := c.Int(20); {
		case x < 7:
			cs := t.newSet()
			if len(held) > 0 && c.P(15) {
				// the same content again
				if o := held[c.Int(len(held))]; !o.lookup() {
					cs = configset.ConfigSet{}
					for k, v := range o.conf {
						cs[k] = configset.NewControllerConfig(v.GetRev(), v.GetConfig())
					}
				}
			}
			c.Ev("apply", "%s", setStr(cs))
			t.add(&set{conf: cs}, configset.NewApplyConfigSet(cs))
		case x < 9:
			var ks []string
			for _, k := range keys {
				if c.P(50) {
					ks = append(ks, k)
				}
			}
			if c.P(10) {
				ks = slices.Insert(ks, c.Int(len(ks)+1), "")
			}
			c.Ev("lookup", "%v", ks)
			t.add(&set{keys: ks}, configset.NewLookupConfigSet(ks))
		case x < 13:
			if len(held) > 0 {
				s := held[c.Int(len(held))]
				i := c.Int(len(s.refs))
				c.Ev("release", "%d lookup=%v", s.n, s.lookup())
				s.refs[i].Release()
				s.refs = append(s.refs[:i:i], s.refs[i+1:]...)
			}
		case x < 14 && c.P(30):
			// closed from outside: created again
			var ds []directive.Instance
			for _, di := range t.w.B.GetDirectives() {
				switch di.GetDirective().(type) {
				case resolver.LoadControllerWithConfig:
					ds = append(ds, di)
				}
			}
			if len(ds) > 0 {
				di := ds[c.Int(len(ds))]
				c.Ev("close-dir", "%s", di.GetDirective().GetName())
				di.Close()
			}
		case x < 14 && c.P(40):
			if t.relC != nil {
				c.Ev("configset", "off")
				t.relC()
				t.relC = nil
				time.Sleep(100 * time.Millisecond)
			} else {
				t.addCtl()
			}
			t.reset = true
		case x < 17:
			t.e.Mu.Lock()
			var run []*sc.Ctrl
			for _, ct := range t.e.All {
				if ct.Running {
					run = append(run, ct)
				}
			}
			if len(run) > 0 {
				ct := run[c.Int(len(run))]
				how := []string{"nil", "err", "panic", "panic-val", "canceled"}[c.Int(5)]
				c.Ev("cmd", "%s %s", ct.Name(), how)
				select {
				case ct.Cmd <- how:
				default:
				}
			}
			t.e.Mu.Unlock()
		default:
			time.Sleep(time.Duration(c.Int(1500)) * time.Millisecond)
		}
		if c.P(70) {
			time.Sleep(20 * time.Millisecond)
			c.Wait()
			t.check()
		}
	}
	for _, s := range t.sets {
		for _, r := range s.refs {
			r.Release()
		}
		s.refs = nil
	}
	time.Sleep(time.Second)
	c.Wait()
	t.check()
	c.Check(len(t.w.B.GetDirectives()) == 0, "leak-ref", "%d directives left", len(t.w.B.GetDirectives()))
	t.w.Cancel()
	time.Sleep(time.Second)
	c.Wait()
}

// ---- concurrent use

// seen is a state as seen.
type seen struct {
	cc   configset.ControllerConfig
	ctrl controller.Controller
	err  error
}

func seenOf(st configset.State) seen {
	return seen{st.GetControllerConfig(), st.GetController(), st.GetError()}
}

// watch is a state callback.
type watch struct {
	key string
	log []seen
	n   int
}

// cref is a reference held by a client.
type cref struct {
	ref configset.Reference
	key string
	cc  configset.ControllerConfig // nil for lookups
	ws  []*watch
	at  int
}

func runConc(parallel bool) func(c *h.C) {
	return func(c *h.C) {
		t := setup(c)
		ctl, err := configset_controller.NewController(c.Le, t.w.B)
		c.Check(err == nil, "new-controller", "%v", err)
		late := c.P(20)
		if !late {
			_, err = t.w.B.AddController(t.w.Ctx, ctl, nil)
			c.Check(err == nil, "add-controller", "%v", err)
		}
		pause := func(r *h.LockedRand) {
			if parallel {
				if r.Int(3) == 0 {
					time.Sleep(time.Duration(r.Int(60)) * time.Microsecond)
				}
			} else if r.Int(3) > 0 {
				time.Sleep(time.Duration(r.Int(100)) * time.Millisecond)
			}
		}
		watchCb := func(r *cref) {
			w := &watch{key: r.key}
			t.mu.Lock()
			r.ws = append(r.ws, w)
			t.mu.Unlock()
			r.ref.AddStateCallback(func(st configset.State) {
				c.Check(st.GetId() == r.key, "state-id", "the state for %s is of %s", r.key, st.GetId())
				t.mu.Lock()
				s := seenOf(st)
				w.n++
				if n := len(w.log); n == 0 || w.log[n-1] != s {
					w.log = append(w.log, s)
				}
				t.mu.Unlock()
			})
			t.mu.Lock()
			n := w.n
			t.mu.Unlock()
			c.Check(n > 0, "state-initial", "the callback on %s was not told the state at once", r.key)
		}
		ks := keys[:1+c.Int(2)]
		ng := 2 + c.Int(3)
		held := make([][]*cref, ng)
		var wg sync.WaitGroup
		type op struct {
			kind, key int
			cc        configset.ControllerConfig
		}
		for g := 0; g < ng; g++ {
			var ops []op
			for i := 0; i < 2+c.Int(8); i++ {
				o := op{kind: c.Int(12), key: c.Int(len(ks))}
				conf := t.newConf()
				if cf, ok := conf.(*sc.Conf); ok && cf != nil {
					cf.Err = nil
				}
				o.cc = configset.NewControllerConfig(uint64(c.Int(5)), conf)
				ops = append(ops, o)
			}
			r := c.NewRand()
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, o := range ops {
					pause(r)
					k := ks[o.key]
					switch {
					case o.kind < 4:
						c.Ev("push", "%s %s", k, confStr(o.cc))
						ref, err := ctl.PushControllerConfig(t.w.Ctx, k, o.cc)
						c.Check(err == nil && ref.GetConfigKey() == k, "push", "%v", err)
						cr := &cref{ref: ref, key: k, cc: o.cc}
						if r.Int(2) == 0 {
							watchCb(cr)
						}
						held[g] = append(held[g], cr)
					case o.kind < 6:
						c.Ev("look", "%s", k)
						ref, err := ctl.AddConfigSetReference(t.w.Ctx, k)
						c.Check(err == nil && ref.GetConfigKey() == k, "look", "%v", err)
						cr := &cref{ref: ref, key: k}
						if r.Int(2) == 0 {
							watchCb(cr)
						}
						held[g] = append(held[g], cr)
					case o.kind < 8:
						if n := len(held[g]); n > 0 {
							watchCb(held[g][r.Int(n)])
						}
					default:
						if n := len(held[g]); n > 0 {
							i := r.Int(n)
							cr := held[g][i]
							held[g] = append(held[g][:i:i], held[g][i+1:]...)
							c.Ev("unref", "%s", cr.key)
							cr.ref.Release()
							if r.Int(3) == 0 {
								cr.ref.Release()
							}
						}
					}
				}
			}()
		}
		wg.Wait()
		if late {
			_, err = t.w.B.AddController(t.w.Ctx, ctl, nil)
			c.Check(err == nil, "add-controller", "%v", err)
		}
		settled := func() string {
			states := map[*cref]seen{}
			for _, l := range held {
				for _, cr := range l {
					states[cr] = seenOf(cr.ref.GetState())
				}
			}
			t.mu.Lock()
			defer t.mu.Unlock()
			t.e.Mu.Lock()
			defer t.e.Mu.Unlock()
			ctrls := map[string]bool{}
			for _, k := range ks {
				var lo uint64
				var s seen
				n, np := 0, 0
				var ws []*watch
				for _, l := range held {
					for _, cr := range l {
						if cr.key != k {
							continue
						}
						st := states[cr]
						if n > 0 && st != s {
							return fmt.Sprintf("two references of %s have different states", k)
						}
						s = st
						n++
						if cr.cc != nil {
							np++
							lo = max(lo, cr.cc.GetRev())
						}
						for _, w := range cr.ws {
							if len(w.log) == 0 || w.log[len(w.log)-1] != s {
								return fmt.Sprintf("a callback on %s was last told %d states, not the true one %s %v %v", k, len(w.log), confStr(s.cc), s.ctrl, s.err)
							}
						}
						ws = append(ws, cr.ws...)
					}
				}
				if n == 0 {
					continue
				}
				if np > 0 && s.cc == nil {
					return fmt.Sprintf("%s has no config", k)
				}
				if s.cc != nil && s.cc.GetRev() < lo {
					return fmt.Sprintf("%s has %s, revision %d is pushed", k, confStr(s.cc), lo)
				}
				for _, a := range ws {
					for _, b := range ws {
						if len(a.log) >= len(b.log) {
							for i := range b.log {
								if b.log[len(b.log)-1-i] != a.log[len(a.log)-1-i] {
									return fmt.Sprintf("two callbacks on %s saw different changes: %v and %v", k, a.log, b.log)
								}
							}
						}
					}
				}
				if s.cc != nil {
					conf, _ := s.cc.GetConfig().(*sc.Conf)
					if conf != nil && !conf.Bad && conf.ID == "test/a" {
						ctrls[conf.String()] = true
						var ct *sc.Ctrl
						for _, x := range t.e.All {
							if x.Conf.EqualsConfig(conf) && x.Closed == 0 {
								ct = x
							}
						}
						if ct == nil {
							return fmt.Sprintf("%s (%s) is not run", k, confStr(s.cc))
						}
						if (ct.Running || ct.Done) && s.ctrl != controller.Controller(ct) {
							return fmt.Sprintf("%s runs %s, its state is %v %v", k, ct.Name(), s.ctrl, s.err)
						}
					} else if s.ctrl != nil {
						return fmt.Sprintf("%s has %s, its state is %v", k, confStr(s.cc), s.ctrl)
					} else if (conf == nil || conf.Bad) && s.err == nil {
						return fmt.Sprintf("%s has the invalid %s and no error", k, confStr(s.cc))
					}
				}
			}
			for _, ct := range t.e.All {
				if ct.Closed != 1 && !ctrls[ct.Conf.String()] {
					return fmt.Sprintf("%s runs although no key needs it", ct.Name())
				}
			}
			return ""
		}
		wait := func(sig string) {
			if parallel {
				var why string
				c.Check(c.Settle(func() bool { why = settled(); return why == "" }), sig, "%s", why)
			} else {
				time.Sleep(20 * time.Millisecond)
				c.Wait()
				why := settled()
				c.Check(why == "", sig, "%s", why)
			}
		}
		wait("state")
		c.Ev("settled", "")
		for i, l := range held {
			for _, cr := range l {
				cr.ref.Release()
			}
			held[i] = nil
		}
		wait("left")
		t.w.Cancel()
		if !parallel {
			time.Sleep(time.Second)
			c.Wait()
		}
	}
}

// runDirs adds and removes directives concurrently.
func runDirs(parallel bool) func(c *h.C) {
	return func(c *h.C) {
		t := setup(c)
		t.addCtl()
		var wg sync.WaitGroup
		ng := 2 + c.Int(3)
		type op struct {
			dir directive.Directive
			cs  configset.ConfigSet
		}
		type heldDir struct {
			ref directive.Reference
			cs  configset.ConfigSet
		}
		final := make([]*heldDir, ng)
		for g := 0; g < ng; g++ {
			var ops []op
			for i := 0; i < 1+c.Int(6); i++ {
				if c.P(30) {
					ops = append(ops, op{dir: configset.NewLookupConfigSet(keys[:1+c.Int(3)])})
				} else {
					cs := t.newSet()
					ops = append(ops, op{dir: configset.NewApplyConfigSet(cs), cs: cs})
				}
			}
			r := c.NewRand()
			keep := c.P(50)
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i, o := range ops {
					ids := map[uint32]bool{}
					var mu sync.Mutex
					_, ref, err := t.w.B.AddDirective(o.dir, bus.NewCallbackHandler(func(av directive.AttachedValue) {
						mu.Lock()
						ids[av.GetValueID()] = true
						mu.Unlock()
					}, func(av directive.AttachedValue) {
						mu.Lock()
						c.Check(ids[av.GetValueID()], "removed", "a value was removed which was not added")
						mu.Unlock()
					}, nil))
					if !c.Check(err == nil, "add-directive", "%v", err) {
						return
					}
					c.Ev("dir", "%s", setStr(o.cs))
					switch r.Int(3) {
					case 0:
					case 1:
						if parallel {
							time.Sleep(time.Duration(r.Int(100)) * time.Microsecond)
						} else {
							time.Sleep(time.Duration(r.Int(100)) * time.Millisecond)
						}
					}
					if i == len(ops)-1 && keep {
						final[g] = &heldDir{ref, o.cs}
					} else {
						ref.Release()
					}
				}
			}()
		}
		wg.Wait()
		ok := func() string {
			t.e.Mu.Lock()
			defer t.e.Mu.Unlock()
			lo := map[string]uint64{}
			must := map[string]bool{}
			any := map[string]bool{}
			for _, f := range final {
				if f == nil {
					continue
				}
				if f.cs == nil {
					for _, k := range keys {
						any[k] = true // kept by a lookup
					}
				}
				for k, v := range f.cs {
					lo[k] = max(lo[k], v.GetRev())
					must[k] = true
				}
			}
			for _, k := range keys {
				if must[k] || any[k] {
					return ""
				}
			}
			for _, ct := range t.e.All {
				if ct.Closed != 1 {
					return fmt.Sprintf("%s runs although no key needs it", ct.Name())
				}
			}
			return ""
		}
		wait := func(sig string) {
			if parallel {
				var why string
				c.Check(c.Settle(func() bool { why = ok(); return why == "" }), sig, "%s", why)
			} else {
				time.Sleep(50 * time.Millisecond)
				c.Wait()
				why := ok()
				c.Check(why == "", sig, "%s", why)
			}
		}
		wait("left")
		c.Ev("settled", "")
		for i, f := range final {
			if f != nil {
				f.ref.Release()
			}
			final[i] = nil
		}
		wait("left")
		t.w.Cancel()
		if !parallel {
			time.Sleep(time.Second)
			c.Wait()
		}
	}
}

func TestCheck(t *testing.T) {
	h.Run(t, []h.Scenario{
		{Name: "asks", Quick: 20000, Thorough: 300000, Fn: runAsks},
		{Name: "bus", Quick: 12000, Thorough: 300000, Fn: runBus},
		{Name: "refs", Quick: 20000, Thorough: 200000, Fn: runConc(false)},
		{Name: "refspar", Quick: 10000, Thorough: 80000, Fn: runConc(true), Parallel: true},
		{Name: "dirs", Quick: 15000, Thorough: 100000, Fn: runDirs(false)},
		{Name: "dirspar", Quick: 6000, Thorough: 60000, Fn: runDirs(true), Parallel: true},
	})
}
