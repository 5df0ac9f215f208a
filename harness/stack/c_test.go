// Package stack checks that the standard bus stack is assembled as configured (C25).
package stack

import (
	"context"
	"errors"
	"fmt"
	"slices"
	"sync"
	"testing"
	"time"

	"github.com/aperturerobotics/controllerbus/bus"
	"github.com/aperturerobotics/controllerbus/config"
	"github.com/aperturerobotics/controllerbus/controller"
	"github.com/aperturerobotics/controllerbus/controller/configset"
	configset_controller "github.com/aperturerobotics/controllerbus/controller/configset/controller"
	"github.com/aperturerobotics/controllerbus/controller/loader"
	"github.com/aperturerobotics/controllerbus/controller/resolver"
	"github.com/aperturerobotics/controllerbus/controller/resolver/static"
	"github.com/aperturerobotics/controllerbus/core"
	"github.com/aperturerobotics/controllerbus/directive"
	"github.com/blang/semver/v4"

	"verifharness/h"
	"verifharness/sc"
)

var ids = []string{"test/a", "test/b", "test/c"}

var versions = []string{"0.0.9", "1.0.0-rc.1", "1.0.0", "1.2.0", "1.10.0", "2.0.0"}

// fres is a custom factory resolver around the static one.
type fres struct {
	controller.FactoryResolver
	c    *h.C
	mu   sync.Mutex
	deny map[string]bool
	fail map[string]error
	n    int
}

func (r *fres) look(id string) (bool, error) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.n++
	return !r.deny[id], r.fail[id]
}

func (r *fres) GetResolverID() string { return "custom" }

func (r *fres) GetConfigCtorByID(ctx context.Context, id string) (config.Constructor, error) {
	if ok, err := r.look(id); err != nil || !ok {
		return nil, err
	}
	return r.FactoryResolver.GetConfigCtorByID(ctx, id)
}

func (r *fres) GetFactoryMatchingConfig(ctx context.Context, conf config.Config) (controller.Factory, error) {
	if ok, err := r.look(conf.GetConfigID()); err != nil || !ok {
		return nil, err
	}
	return r.FactoryResolver.GetFactoryMatchingConfig(ctx, conf)
}

// run is a controller held running.
type run struct {
	conf *sc.Conf
	ct   *sc.Ctrl
	ref  directive.Reference
}

// stk is a bus with its model.
type stk struct {
	c      *h.C
	n      int
	e      *sc.Env
	ctx    context.Context
	cancel context.CancelFunc
	b      bus.Bus
	sr     *static.Resolver
	facs   []*sc.Fac
	cust   *fres
	runs   []*run
	csc    directive.Reference
	nconf  int64
}

func (s *stk) newFac() *sc.Fac {
	f := &sc.Fac{E: s.e, ID: ids[s.c.Int(len(ids))], Ver: semver.MustParse(versions[s.c.Int(len(versions))])}
	f.Tag = fmt.Sprintf("bus%d %s %s", s.n, f.ID, f.Ver)
	return f
}

// build builds a bus from random options.
func build(c *h.C, n int) *stk {
	s := &stk{c: c, n: n}
	s.ctx, s.cancel = context.WithCancel(context.Background())
	s.e = &sc.Env{C: c, Rnd: c.NewRand(), OnExecute: func(ct *sc.Ctrl, n int) sc.Step { return sc.Step{Delay: -1} }}
	var opts []core.Option
	var failed, ctorErr error
	var ctor int // the constructor which counts
	calls := map[int]int{}
	// the options are given parts of one slice
	var pool []controller.Factory
	for i := 0; i < 6; i++ {
		pool = append(pool, s.newFac())
	}
	given := slices.Clone(pool)
	for k := c.Int(6); k > 0; k-- {
		k := k
		stop := failed != nil
		switch x := c.Int(100); {
		case x < 15:
			opts = append(opts, nil)
		case x < 55:
			from := c.Int(len(pool))
			l := pool[from : from+c.Int(min(3, len(pool)-from+1))]
			if !stop {
				for _, f := range given[from : from+len(l)] {
					s.facs = append(s.facs, f.(*sc.Fac))
				}
			}
			opts = append(opts, core.WithControllerFactories(l...))
		case x < 60:
			opts = append(opts, func(conf *core.CoreBusConfig) error {
				c.Check(!stop, "option-after-failure", "an option was applied after one which failed")
				conf.BuiltInFactories = nil
				return nil
			})
			if !stop {
				s.facs = nil
			}
		case x < 64:
			err := fmt.Errorf("option %d failed", k)
			opts = append(opts, func(conf *core.CoreBusConfig) error { return err })
			if !stop {
				failed = err
			}
		case x < 70:
			opts = append(opts, core.WithFactoryResolverCtor(nil))
			if !stop {
				ctor, ctorErr, s.cust = 0, nil, nil
			}
		default:
			var err error
			if c.P(15) {
				err = fmt.Errorf("constructor %d failed", k)
			}
			r := &fres{c: c, deny: map[string]bool{}, fail: map[string]error{}}
			for _, id := range ids {
				r.deny[id] = c.P(20)
				if c.P(10) {
					r.fail[id] = fmt.Errorf("lookup of %s failed", id)
				}
			}
			opts = append(opts, core.WithFactoryResolverCtor(func(b bus.Bus, sr *static.Resolver) (controller.FactoryResolver, error) {
				calls[k]++
				c.Check(b != nil && sr != nil, "ctor-args", "the constructor of the factory resolver got %v, %v", b, sr)
				if b == nil || sr == nil {
					return nil, errors.New("bad arguments")
				}
				s.b, s.sr = b, sr
				for _, f := range s.facs {
					got, _ := sr.GetFactoryMatchingConfig(context.Background(), &sc.Conf{ID: f.ID})
					c.Check(got != nil, "ctor-early", "the constructor of the factory resolver got a resolver without the built-in %s", f.Tag)
				}
				if err != nil {
					return nil, err
				}
				r.FactoryResolver = sr
				return r, nil
			}))
			if !stop {
				ctor, ctorErr, s.cust = k, err, r
			}
		}
	}
	b, sr, err := core.NewCoreBus(s.ctx, c.Le, opts...)
	c.Check(slices.Equal(pool, given), "options-changed", "building a bus changed the list of factories its option was given")
	c.Ev("newcorebus", "%d options, fails: %v %v", len(opts), failed, ctorErr)
	want := failed
	if want == nil {
		want = ctorErr
	}
	if !c.Check((err == nil) == (want == nil) && (want == nil || errors.Is(err, want)), "new-error", "NewCoreBus failed with %v, want %v", err, want) {
		s.cancel()
		c.Abort()
	}
	for k, n := range calls {
		c.Check(k == ctor && n == 1, "ctor-calls", "the constructor %d of the factory resolver was called %d times, %d counts", k, n, ctor)
	}
	c.Check(failed != nil || ctor == 0 || calls[ctor] == 1, "ctor-calls", "the constructor of the factory resolver was called %d times", calls[ctor])
	if err != nil {
		c.Check(b == nil && sr == nil, "new-result", "NewCoreBus failed and returned a bus")
		s.cancel()
		time.Sleep(time.Second)
		c.Wait()
		return nil
	}
	c.Check(b != nil && sr != nil && (s.b == nil || s.b == b) && (s.sr == nil || s.sr == sr), "new-result", "NewCoreBus returned %v, %v; the constructor got %v, %v", b, sr, s.b, s.sr)
	s.b, s.sr = b, sr
	return s
}

// best returns the highest registered version, an error or none.
func (s *stk) best(id string) (*sc.Fac, error) {
	if s.cust != nil {
		if err := s.cust.fail[id]; err != nil {
			return nil, err
		}
		if s.cust.deny[id] {
			return nil, nil
		}
	}
	var b *sc.Fac
	for _, f := range s.facs {
		if f.ID == id && (b == nil || f.Ver.GT(b.Ver)) {
			b = f
		}
	}
	return b, nil
}

func (s *stk) has(f *sc.Fac) bool {
	for _, x := range s.facs {
		if x == f {
			return true
		}
	}
	return false
}

var errIdle = errors.New("idle")

func stopIdle(isIdle bool, errs []error) (bool, error) {
	if !isIdle {
		return true, nil
	}
	for _, err := range errs {
		if err != nil {
			return false, err
		}
	}
	return false, errIdle
}

// outcome checks a lookup which found something or not.
func (s *stk) outcome(what, id string, f controller.Factory, err error) {
	best, werr := s.best(id)
	switch {
	case werr != nil:
		s.c.Check(f == nil && errors.Is(err, werr), what+"-error", "bus %d: looking up %s: %v, %v; want error %v", s.n, id, f, err, werr)
	case best == nil:
		s.c.Check(f == nil && errors.Is(err, errIdle), what+"-unexpected", "bus %d: looking up %s: %v, %v; want none", s.n, id, f, err)
	default:
		sf, ok := f.(*sc.Fac)
		if s.c.Check(err == nil && ok, what+"-missing", "bus %d: looking up %s: %v, %v; want %s", s.n, id, f, err, best.Tag) {
			s.c.Check(s.has(sf) && sf.ID == id && sf.Ver.EQ(best.Ver), what+"-wrong", "bus %d: looking up %s: found %s, want %s", s.n, id, sf.Tag, best.Tag)
		}
	}
}

func (s *stk) lookup(id string) {
	c := s.c
	s.nconf++
	v, _, ref, err := bus.ExecOneOff(s.ctx, s.b, resolver.NewLoadFactoryByConfig(&sc.Conf{ID: id, N: s.nconf}), stopIdle, nil)
	var f controller.Factory
	if err == nil {
		f, _ = v.GetValue().(controller.Factory)
		ref.Release()
	}
	s.outcome("factory", id, f, err)
	v, _, ref, err = bus.ExecOneOff(s.ctx, s.b, resolver.NewLoadConfigConstructorByID(id), stopIdle, nil)
	var ct config.Constructor
	if err == nil {
		ct, _ = v.GetValue().(config.Constructor)
		ref.Release()
	}
	best, werr := s.best(id)
	switch {
	case werr != nil:
		c.Check(ct == nil && errors.Is(err, werr), "constructor-error", "bus %d: looking up the constructor of %s: %v, %v; want error %v", s.n, id, ct, err, werr)
	case best == nil:
		c.Check(ct == nil && errors.Is(err, errIdle), "constructor-unexpected", "bus %d: looking up the constructor of %s: %v, %v; want none", s.n, id, ct, err)
	default:
		if c.Check(err == nil && ct != nil, "constructor-missing", "bus %d: looking up the constructor of %s: %v, %v", s.n, id, ct, err) {
			cc := ct.ConstructConfig()
			c.Check(ct.GetConfigID() == id && cc != nil && cc.GetConfigID() == id, "constructor-wrong", "bus %d: the constructor of %s is of %s and gives %v", s.n, id, ct.GetConfigID(), cc)
		}
	}
	c.Ev("lookup", "bus %d %s", s.n, id)
}

// exec runs a controller.
func (s *stk) exec(id string) {
	c := s.c
	s.nconf++
	conf := &sc.Conf{ID: id, N: s.nconf}
	ctx, cancel := context.WithTimeout(s.ctx, time.Second)
	defer cancel()
	ctrl, _, ref, err := loader.WaitExecControllerRunning(ctx, s.b, resolver.NewLoadControllerWithConfig(conf), nil)
	c.Ev("exec", "bus %d %s: %v", s.n, conf, err)
	best, werr := s.best(id)
	if best == nil {
		c.Check(err != nil && ref == nil, "exec-unexpected", "bus %d: %s runs although no factory (%v) is available", s.n, conf, werr)
		return
	}
	ct, ok := ctrl.(*sc.Ctrl)
	if !c.Check(err == nil && ok && ref != nil, "exec-missing", "bus %d: %s does not run: %v", s.n, conf, err) {
		return
	}
	c.Check(s.has(ct.Fac) && ct.Fac.ID == id && ct.Fac.Ver.EQ(best.Ver) && ct.Conf == conf, "exec-wrong", "bus %d: %s runs as %s of %s", s.n, conf, ct.Name(), ct.Fac.Tag)
	s.runs = append(s.runs, &run{conf, ct, ref})
}

// configSet loads the config-set controller and applies a set.
func (s *stk) configSet() {
	c := s.c
	ctx, cancel := context.WithTimeout(s.ctx, time.Second)
	defer cancel()
	if s.csc == nil {
		ctrl, _, ref, err := loader.WaitExecControllerRunning(ctx, s.b, resolver.NewLoadControllerWithConfig(&configset_controller.Config{}), nil)
		c.Ev("configset", "bus %d: %v", s.n, err)
		if !c.Check(err == nil, "configset-missing", "bus %d: the config-set controller does not run: %v", s.n, err) {
			return
		}
		_, ok := ctrl.(*configset_controller.Controller)
		c.Check(ok, "configset-wrong", "bus %d: %T runs as the config-set controller", s.n, ctrl)
		s.csc = ref
	}
	id := ids[c.Int(len(ids))]
	s.nconf++
	conf := &sc.Conf{ID: id, N: s.nconf}
	_, ref, err := s.b.AddDirective(configset.NewApplyConfigSet(configset.ConfigSet{"key": configset.NewControllerConfig(uint64(s.nconf), conf)}), nil)
	if !c.Check(err == nil, "configset-add", "bus %d: %v", s.n, err) {
		return
	}
	time.Sleep(10 * time.Millisecond)
	c.Wait()
	best, _ := s.best(id)
	ct := s.find(conf)
	c.Check((ct != nil && ct.Running) == (best != nil), "configset-applied", "bus %d: %s of a config set runs as %v, factory: %v", s.n, conf, ct, best)
	c.Ev("apply", "bus %d %s: %v", s.n, conf, ct != nil)
	if ct != nil && c.P(40) {
		s.runs = append(s.runs, &run{conf, ct, ref})
		// the same key is taken
		time.Sleep(time.Millisecond)
		s.release(len(s.runs) - 1)
		return
	}
	ref.Release()
	time.Sleep(10 * time.Second)
	c.Wait()
	if ct != nil {
		c.Check(!ct.Running && ct.Closed == 1, "configset-left", "bus %d: %s runs although its config set was released", s.n, ct.Name())
	}
}

func (s *stk) find(conf *sc.Conf) *sc.Ctrl {
	s.e.Mu.Lock()
	defer s.e.Mu.Unlock()
	for _, ct := range s.e.All {
		if ct.Conf.ID == conf.ID && ct.Conf.N == conf.N {
			return ct
		}
	}
	return nil
}

func (s *stk) release(i int) {
	c := s.c
	r := s.runs[i]
	s.runs = append(s.runs[:i:i], s.runs[i+1:]...)
	c.Ev("release", "bus %d %s", s.n, r.conf)
	r.ref.Release()
	time.Sleep(10 * time.Second)
	c.Wait()
	c.Check(!r.ct.Running && r.ct.Closed == 1, "left-running", "bus %d: %s runs (%v) or was closed %d times although it was released", s.n, r.ct.Name(), r.ct.Running, r.ct.Closed)
}

// check compares the bus with the model.
func (s *stk) check() {
	c := s.c
	c.Wait()
	held := map[controller.Controller]bool{}
	for _, r := range s.runs {
		held[r.ct] = true
		c.Check(r.ct.Running && r.ct.Execs == 1, "not-running", "bus %d: %s is not running although it is held", s.n, r.ct.Name())
	}
	other := 0
	seen := map[controller.Controller]bool{}
	for _, ct := range s.b.GetControllers() {
		if !c.Check(!seen[ct] && ct.GetControllerInfo() != nil, "controllers", "bus %d lists %v twice or without information", s.n, ct) {
			return
		}
		seen[ct] = true
		if x, ok := ct.(*sc.Ctrl); ok {
			c.Check(held[ct], "controllers", "bus %d lists %s which nobody asked for", s.n, x.Name())
			continue
		}
		other++
	}
	for ct := range held {
		c.Check(seen[ct], "controllers", "bus %d does not list %s", s.n, ct.(*sc.Ctrl).Name())
	}
	want := 2
	if s.csc != nil {
		want++
	}
	c.Check(other == want, "controllers", "bus %d lists %d controllers of its own, not %d", s.n, other, want)
}

// end cancels the bus.
func (s *stk) end() {
	c := s.c
	c.Ev("end", "bus %d", s.n)
	s.cancel()
	time.Sleep(time.Minute)
	c.Wait()
	for _, ct := range s.e.All {
		c.Check(!ct.Running && ct.Closed == 1, "left-at-end", "bus %d: %s runs (%v) or was closed %d times although the context of the bus ended", s.n, ct.Name(), ct.Running, ct.Closed)
	}
}

func stack(c *h.C) {
	var bs []*stk
	for i := 1 + c.Int(3); i > 0; i-- {
		if s := build(c, i); s != nil {
			bs = append(bs, s)
		}
	}
	for step := 0; step < 12 && len(bs) > 0 && !c.Failed(); step++ {
		k := c.Int(len(bs))
		s := bs[k]
		id := ids[c.Int(len(ids))]
		switch x := c.Int(100); {
		case x < 20:
			f := s.newFac()
			s.sr.AddFactory(f)
			s.facs = append(s.facs, f)
			c.Ev("register", "%s", f.Tag)
		case x < 50:
			s.lookup(id)
		case x < 75:
			s.exec(id)
		case x < 85:
			s.configSet()
		case x < 95:
			if len(s.runs) > 0 {
				s.release(c.Int(len(s.runs)))
			}
		default:
			s.end()
			bs = append(bs[:k:k], bs[k+1:]...)
		}
		for _, s := range bs {
			s.check()
		}
	}
	for _, s := range bs {
		s.end()
	}
}

func TestCheck(t *testing.T) {
	h.Run(t, []h.Scenario{
		{Name: "stack", Quick: 30000, Thorough: 300000, Fn: stack},
	})
}
