// Package steady checks that what ended is let go (C26): rounds in which everything that is begun is
// also ended leave memory and goroutines as they were, however often they are repeated.
package steady

import (
	"context"
	"errors"
	"fmt"
	"runtime"
	"slices"
	"strings"
	"testing"
	"time"

	"github.com/aperturerobotics/controllerbus/bus"
	bus_api "github.com/aperturerobotics/controllerbus/bus/api"
	bus_bridge "github.com/aperturerobotics/controllerbus/bus/bridge"
	"github.com/aperturerobotics/controllerbus/config"
	"github.com/aperturerobotics/controllerbus/controller"
	"github.com/aperturerobotics/controllerbus/controller/callback"
	"github.com/aperturerobotics/controllerbus/controller/configset"
	configset_controller "github.com/aperturerobotics/controllerbus/controller/configset/controller"
	configset_proto "github.com/aperturerobotics/controllerbus/controller/configset/proto"
	controller_exec "github.com/aperturerobotics/controllerbus/controller/exec"
	"github.com/aperturerobotics/controllerbus/controller/loader"
	"github.com/aperturerobotics/controllerbus/controller/resolver"
	"github.com/aperturerobotics/controllerbus/controller/resolver/static"
	"github.com/aperturerobotics/controllerbus/core"
	"github.com/aperturerobotics/controllerbus/directive"
	"github.com/aperturerobotics/controllerbus/plugin"
	"github.com/aperturerobotics/starpc/srpc"
	"github.com/aperturerobotics/util/ccontainer"
	"github.com/aperturerobotics/util/keyed"
	"github.com/aperturerobotics/util/refcount"
	"github.com/aperturerobotics/util/routine"
	"github.com/blang/semver/v4"
	"github.com/sirupsen/logrus"

	"verifharness/bw"
	"verifharness/h"
	"verifharness/sc"
)

// st is a long-lived bus and what lives on it.
type st struct {
	c   *h.C
	ctx context.Context
	b   bus.Bus
	sr  *static.Resolver
	// r is used by all rounds.
	r *h.LockedRand
	n int
	// names of what is done
	names string
	// ends is what is to be ended with the round.
	ends []func()
}

func (s *st) p(pct int) bool { return s.r.Int(100) < pct }

func (s *st) must(err error) {
	if err != nil {
		s.c.Fail("setup", "%v", err)
		s.c.Abort()
	}
}

// end calls f when the round ends.
func (s *st) end(f func()) { s.ends = append(s.ends, f) }

// src is a long-lived handler: a directive of its prefix gets values.
func (s *st) src(prefix string, n int, gone bool) bw.HFunc {
	return func(ctx context.Context, di directive.Instance) ([]directive.Resolver, error) {
		d, ok := di.GetDirective().(*bw.D)
		if !ok || !strings.HasPrefix(d.Key, prefix) {
			return nil, nil
		}
		var rs []directive.Resolver
		for i := range n {
			rs = append(rs, directive.NewFuncResolver(func(ctx context.Context, rh directive.ResolverHandler) error {
				id, ok := rh.AddValue(&bw.V{N: i})
				if gone && ok {
					_ = context.AfterFunc(ctx, func() {})
					rh.MarkIdle(true)
					<-ctx.Done()
					rh.RemoveValue(id)
				}
				return nil
			}))
		}
		return rs, nil
	}
}

// addSrc registers src.
func (s *st) addSrc(prefix string, n int, gone bool) {
	ctrl := callback.NewCallbackController(controller.NewInfo("src/"+prefix, semver.Version{}, ""), nil,
		func(ctx context.Context, di directive.Instance) ([]directive.Resolver, error) {
			return s.src(prefix, n, gone)(ctx, di)
		}, nil)
	_, err := s.b.AddController(s.ctx, ctrl, nil)
	s.must(err)
}

func none(av directive.AttachedValue) {}

// --- directives and references

func directives(s *st) func() {
	s.addSrc("dir/", 1+s.r.Int(3), s.p(50))
	opts := directive.ValueOptions{}
	if s.p(40) {
		opts.UnrefDisposeDur = time.Duration(1+s.r.Int(30)) * time.Millisecond
	}
	if s.p(20) {
		opts.UnrefDisposeEmptyImmediate = true
	}
	if s.p(30) {
		opts.MaxValueCount = 1 + s.r.Int(2)
		opts.MaxValueHardCap = s.p(50)
	}
	keys := 1 + s.r.Int(40)
	var same *bw.D
	if s.p(30) {
		same = &bw.D{Key: "dir/same", Opts: opts}
	}
	return func() {
		for range 1 + s.r.Int(3) {
			s.n++
			d := &bw.D{Key: fmt.Sprintf("dir/%d", s.n%keys), Opts: opts, NoEq: s.p(20)}
			if same != nil {
				d = same
			}
			di, ref, err := s.b.AddDirective(d, bus.NewCallbackHandler(none, none, func() {}))
			s.must(err)
			s.end(ref.Release)
			if s.p(30) {
				s.end(di.AddReference(nil, s.p(50)).Release)
			}
			if s.p(30) {
				rel := di.AddDisposeCallback(func() {})
				if s.p(50) {
					s.end(rel)
				}
			}
			if s.p(30) {
				rel := di.AddIdleCallback(func(bool, []error) {})
				if s.p(50) {
					s.end(rel)
				}
			}
			if s.p(10) {
				s.end(di.Close)
			}
		}
	}
}

// --- callbacks on a directive which lives on

func callbacks(s *st) func() {
	var rh directive.ResolverHandler
	ready := make(chan struct{})
	ctrl := callback.NewCallbackController(controller.NewInfo("held", semver.Version{}, ""), nil,
		func(ctx context.Context, di directive.Instance) ([]directive.Resolver, error) {
			if d, ok := di.GetDirective().(*bw.D); !ok || d.Key != "held" {
				return nil, nil
			}
			return directive.R(directive.NewFuncResolver(func(ctx context.Context, h directive.ResolverHandler) error {
				rh = h
				close(ready)
				<-ctx.Done()
				return nil
			}), nil)
		}, nil)
	_, err := s.b.AddController(s.ctx, ctrl, nil)
	s.must(err)
	di, _, err := s.b.AddDirective(&bw.D{Key: "held"}, bus.NewCallbackHandler(none, none, nil))
	s.must(err)
	<-ready
	ops := []func(){
		func() { s.end(di.AddReference(bus.NewCallbackHandler(none, none, func() {}), s.p(50)).Release) },
		func() { s.end(di.AddDisposeCallback(func() {})) },
		func() { s.end(di.AddIdleCallback(func(bool, []error) {})) },
		func() {
			// values
			for range 1 + s.r.Int(3) {
				id, _ := rh.AddValue(&bw.V{})
				switch s.r.Int(3) {
				case 0:
					rh.AddValueRemovedCallback(id, func() {})
				case 1:
					rel := rh.AddValueRemovedCallback(id, func() {})
					s.end(rel)
				}
				if s.p(30) {
					_ = rh.ClearValues()
				}
				s.end(func() { rh.RemoveValue(id) })
			}
		},
		func() {
			// resolvers of the resolver
			rel := rh.AddResolver(directive.NewFuncResolver(func(ctx context.Context, h directive.ResolverHandler) error {
				_, _ = h.AddValue(&bw.V{})
				h.AddResolverRemovedCallback(func() {})
				return nil
			}), func() {})
			s.end(rel)
		},
		func() { s.end(rh.AddResolverRemovedCallback(func() {})) },
		func() {
			rh.MarkIdle(true)
			rh.MarkIdle(false)
		},
		func() {
			// a value which lives on
			id, _ := rh.AddValue(&bw.V{})
			for range 3 {
				s.end(rh.AddValueRemovedCallback(id, func() {}))
			}
			s.end(func() { rh.RemoveValue(id) })
		},
		func() {
			_ = di.GetResolverErrors()
			_ = directive.NewDirectiveState(di)
			_ = di.GetDirectiveIdent()
		},
	}
	// a value with callbacks, for ever
	id, _ := rh.AddValue(&bw.V{})
	ops = append(ops, func() { s.end(rh.AddValueRemovedCallback(id, func() {})) })
	use := s.pick(len(ops))
	return func() {
		for _, i := range use {
			ops[i]()
		}
	}
}

// pick returns some of 0..n-1.
func (s *st) pick(n int) []int {
	k := 1 + s.r.Int(n)
	if s.p(40) {
		k = 1
	}
	use := s.r.Perm(n)[:k]
	s.names += fmt.Sprint(use)
	return use
}

// --- controllers and handlers

func controllers(s *st) func() {
	s.addSrc("ctl/", 1, true)
	if s.p(70) {
		// lives on
		_, _, err := s.b.AddDirective(&bw.D{Key: "ctl/held"}, nil)
		s.must(err)
	}
	ops := []func(){
		func() {
			rel, err := s.b.AddController(s.ctx, callback.NewCallbackController(controller.NewInfo("c", semver.Version{}, ""), nil, s.src("ctl/", 2, s.p(50)), nil), func(error) {})
			s.must(err)
			s.end(rel)
		},
		func() {
			// ended with its context
			ctx, cancel := context.WithCancel(s.ctx)
			_, err := s.b.AddController(ctx, callback.NewCallbackController(controller.NewInfo("c", semver.Version{}, ""), func(ctx context.Context) error {
				<-ctx.Done()
				return ctx.Err()
			}, s.src("ctl/", 1, false), nil), nil)
			s.must(err)
			s.end(cancel)
		},
		func() {
			// ends by itself
			how := s.r.Int(4)
			ctx, cancel := context.WithCancel(s.ctx)
			done := make(chan struct{})
			ct := callback.NewCallbackController(controller.NewInfo("c", semver.Version{}, ""), func(ctx context.Context) error {
				switch how {
				case 0:
					return errors.New("ends")
				case 1:
					<-ctx.Done()
					return ctx.Err()
				case 2:
					time.Sleep(time.Millisecond)
				}
				return nil
			}, s.src("ctl/", 1, true), nil)
			go func() {
				defer close(done)
				_ = s.b.ExecuteController(ctx, ct)
				s.b.RemoveController(ct)
			}()
			s.end(func() {
				cancel()
				<-done
			})
		},
		func() {
			ct := callback.NewCallbackController(controller.NewInfo("c", semver.Version{}, ""), nil, s.src("ctl/", 1, true), nil)
			ctx, cancel := context.WithCancel(s.ctx)
			_, err := s.b.AddController(ctx, ct, nil)
			s.must(err)
			s.end(func() {
				s.b.RemoveController(ct)
				cancel()
			})
		},
		func() {
			rel, err := s.b.AddHandler(s.src("ctl/", 2, s.p(50)))
			s.must(err)
			s.end(rel)
		},
		func() {
			_, ref, err := s.b.AddDirective(&bw.D{Key: "ctl/new"}, nil)
			s.must(err)
			s.end(ref.Release)
		},
	}
	use := s.pick(len(ops))
	return func() {
		for _, i := range use {
			ops[i]()
		}
	}
}

// --- the helpers, on a directive which lives on

func helpers(s *st) func() {
	s.addSrc("help/", 2, true)
	d := &bw.D{Key: "help/held"}
	if s.p(80) {
		_, _, err := s.b.AddDirective(&bw.D{Key: "help/held"}, nil)
		s.must(err)
	}
	empty := &bw.D{Key: "empty"}
	if s.p(80) {
		_, _, err := s.b.AddDirective(&bw.D{Key: "empty"}, nil)
		s.must(err)
	}
	keep := func(di directive.Instance, ref directive.Reference, err error) {
		s.must(err)
		if ref != nil {
			s.end(ref.Release)
		}
	}
	type tav = directive.TypedAttachedValue[*bw.V]
	vctr := ccontainer.NewCContainer[*bw.V](nil)
	rt := routine.NewStateRoutineContainer[*bw.V](func(a, b *bw.V) bool { return a == b })
	rt.SetStateRoutine(func(ctx context.Context, v *bw.V) error { <-ctx.Done(); return nil })
	rt.SetContext(s.ctx, true)
	ops := []func(){
		func() {
			_, di, ref, err := bus.ExecOneOff(s.ctx, s.b, d, nil, func() {})
			keep(di, ref, err)
		},
		func() {
			_, di, ref, err := bus.ExecOneOffTyped[*bw.V](s.ctx, s.b, d, bus.WaitWhenIdle(true), func() {})
			keep(di, ref, err)
		},
		func() {
			_, di, ref, err := bus.ExecOneOffWithFilter(s.ctx, s.b, d, nil, func() {}, func(directive.AttachedValue) (bool, error) { return true, nil })
			keep(di, ref, err)
		},
		func() {
			_, _, di, ref, err := bus.ExecOneOffWithXfrm(s.ctx, s.b, d, nil, func() {}, func(v directive.AttachedValue) (directive.Value, bool, error) { return v, true, nil })
			keep(di, ref, err)
		},
		func() {
			_, _, di, ref, err := bus.ExecOneOffWithXfrmTyped(s.ctx, s.b, d, nil, func() {}, func(v tav) (int, bool, error) { return v.GetValue().N, true, nil })
			keep(di, ref, err)
		},
		func() {
			// not found
			_, di, ref, err := bus.ExecOneOff(s.ctx, s.b, empty, bus.ReturnWhenIdle(), func() {})
			keep(di, ref, err)
		},
		func() {
			ctx, cancel := context.WithTimeout(s.ctx, time.Millisecond)
			defer cancel()
			_, _, _, _ = bus.ExecOneOff(ctx, s.b, empty, nil, func() {})
		},
		func() {
			ctx, cancel := context.WithTimeout(s.ctx, time.Millisecond)
			defer cancel()
			_, _, ref, err := bus.ExecCollectValues[*bw.V](ctx, s.b, empty, true, func() {})
			s.c.Check(err != nil || ref != nil, "collect", "")
			if ref != nil {
				s.end(ref.Release)
			}
		},
		func() {
			_, di, ref, err := bus.ExecCollectValues[*bw.V](s.ctx, s.b, d, true, func() {})
			keep(di, ref, err)
		},
		func() {
			_, di, ref, err := bus.ExecWaitValue(s.ctx, s.b, d, nil, func() {}, func(*bw.V) (bool, error) { return true, nil })
			keep(di, ref, err)
		},
		func() {
			ctx, cancel := context.WithTimeout(s.ctx, time.Millisecond)
			defer cancel()
			_, _, _, _ = bus.ExecWaitValue(ctx, s.b, d, nil, func() {}, func(*bw.V) (bool, error) { return false, nil })
		},
		func() { keep(bus.ExecOneOffWatchCb(func(tav) bool { return true }, s.b, d)) },
		func() { keep(bus.ExecOneOffWatchCb(func(tav) bool { return false }, s.b, d)) },
		func() {
			keep(bus.ExecOneOffWatchCtr(vctr, s.b, d))
		},
		func() {
			keep(bus.ExecOneOffWatchSelectCb(s.b, d, func([]tav) int { return 0 }, func(tav) {}))
		},
		func() { keep(bus.ExecOneOffWatchRoutine(rt, s.b, d)) },
		func() {
			_, di, ref, err := bus.ExecOneOffWatchCh[*bw.V](s.b, d)
			keep(di, ref, err)
		},
		func() {
			ctx, cancel := context.WithCancel(s.ctx)
			done := make(chan struct{})
			go func() {
				_ = bus.ExecOneOffWatchLatestCb(ctx, s.b, d, func(directive.Instance, directive.Reference) error { return nil }, func(tav) error { return nil })
				close(done)
			}()
			s.end(func() {
				cancel()
				<-done
			})
		},
		func() { keep(bus.ExecWatchEffect(func(tav) func() { return func() {} }, s.b, d)) },
		func() { keep(bus.ExecOneOffWatchEffect(func(tav) func() { return func() {} }, s.b, d)) },
		func() {
			keep(bus.ExecWatchTransformEffect(s.ctx, func(ctx context.Context, v tav) (int, bool, error) { return 1 + v.GetValue().N, true, nil },
				func(directive.TransformedAttachedValue[*bw.V, int]) func() { return func() {} }, s.b, d))
		},
		func() {
			keep(bus.ExecOneOffWatchTransformEffect(s.ctx, func(ctx context.Context, v tav) (int, bool, error) { return 1 + v.GetValue().N, true, nil },
				func([]directive.TransformedAttachedValue[*bw.V, int]) int { return 0 },
				func(directive.TransformedAttachedValue[*bw.V, int]) func() { return func() {} }, s.b, d))
		},
		func() {
			ctx, cancel := context.WithCancel(s.ctx)
			rc := bus.NewOneOffRefCount[*bw.V](ctx, s.b, d, nil, nil, false, nil, nil)
			_, rel, err := rc.Resolve(s.ctx)
			s.must(err)
			s.end(rel)
			s.end(cancel)
		},
	}
	use := s.pick(len(ops))
	return func() {
		for _, i := range use {
			ops[i]()
		}
	}
}

// --- forwarding to another bus

func forward(s *st) func() {
	s.addSrc("fwd/", 2, s.p(50))
	b2, _, err := core.NewCoreBus(s.ctx, s.c.Le)
	s.must(err)
	how := s.r.Int(4)
	var hnd bw.HFunc
	switch how {
	case 0:
		_, err = b2.AddController(s.ctx, bus_bridge.NewBusBridge(s.b, nil), nil)
		s.must(err)
		if s.p(30) {
			// and back: what is forwarded is not forwarded again
			_, err = s.b.AddController(s.ctx, bus_bridge.NewBusBridge(b2, func(di directive.Instance) (bool, error) {
				d, ok := di.GetDirective().(*bw.D)
				return ok && strings.HasPrefix(d.Key, "back/"), nil
			}), nil)
			s.must(err)
		}
	case 1:
		hnd = func(ctx context.Context, di directive.Instance) ([]directive.Resolver, error) {
			d, ok := di.GetDirective().(*bw.D)
			if !ok {
				return nil, nil
			}
			return directive.R(directive.NewTransformResolver(s.b, d, func(ctx context.Context, v directive.AttachedValue) (directive.Value, func(), bool, error) {
				return v.GetValue(), func() {}, true, nil
			}), nil)
		}
	case 2:
		hnd = func(ctx context.Context, di directive.Instance) ([]directive.Resolver, error) {
			d, ok := di.GetDirective().(*bw.D)
			if !ok {
				return nil, nil
			}
			return directive.R(directive.NewTypedTransformResolver(s.b, d, func(ctx context.Context, v directive.TypedAttachedValue[*bw.V]) (*bw.V, func(), bool, error) {
				return v.GetValue(), func() {}, true, nil
			}, nil), nil)
		}
	default:
		hnd = func(ctx context.Context, di directive.Instance) ([]directive.Resolver, error) {
			d, ok := di.GetDirective().(*bw.D)
			if !ok {
				return nil, nil
			}
			return directive.R(directive.NewFuncResolver(func(ctx context.Context, rh directive.ResolverHandler) error {
				hd := bus.NewPassThruHandler(rh, func() {})
				if s.p(50) {
					hd = bus.NewTransformHandler(rh, func(v directive.AttachedValue) (directive.Value, bool) { return v.GetValue(), true }, nil)
				}
				_, ref, err := s.b.AddDirective(d, hd)
				if err != nil {
					return err
				}
				defer ref.Release()
				<-ctx.Done()
				return nil
			}), nil)
		}
	}
	if hnd != nil {
		_, err = b2.AddHandler(hnd)
		s.must(err)
	}
	if s.p(50) {
		_, _, err := s.b.AddDirective(&bw.D{Key: "fwd/held"}, nil)
		s.must(err)
	}
	same := &bw.D{Key: "fwd/held"}
	mode := s.r.Int(3)
	return func() {
		s.n++
		d := same
		switch mode {
		case 0:
			d = &bw.D{Key: fmt.Sprintf("fwd/%d", s.n)}
		case 1:
			d = &bw.D{Key: "fwd/held"}
		}
		_, ref, err := b2.AddDirective(d, bus.NewCallbackHandler(none, none, nil))
		s.must(err)
		s.end(ref.Release)
	}
}

// --- controllers with configs

// fac is a factory which can be unloaded.
type fac struct {
	id  string
	ver semver.Version
	ctx context.Context
	mk  func() controller.Controller
}

func (f *fac) GetConfigID() string                { return f.id }
func (f *fac) ConstructConfig() config.Config     { return &sc.Conf{ID: f.id} }
func (f *fac) GetVersion() semver.Version         { return f.ver }
func (f *fac) GetFactoryContext() context.Context { return f.ctx }
func (f *fac) Construct(ctx context.Context, conf config.Config, opts controller.ConstructOpts) (controller.Controller, error) {
	return f.mk(), nil
}

// ctl is a controller made by a factory.
func (s *st) ctl(prefix string) func() controller.Controller {
	fails := s.r.Int(3)
	return func() controller.Controller {
		n := 0
		return callback.NewCallbackController(controller.NewInfo("made", semver.Version{}, ""), func(ctx context.Context) error {
			if n++; n <= fails && s.p(50) {
				return errors.New("fails")
			}
			if s.p(30) {
				return nil
			}
			<-ctx.Done()
			return nil
		}, s.src(prefix, 1, true), nil)
	}
}

func loading(s *st) func() {
	_, _, err := s.b.AddDirective(&bw.D{Key: "load/held"}, nil)
	s.must(err)
	f := &fac{id: "verif/load", ctx: s.ctx, mk: s.ctl("load/")}
	ind := &fac{id: "verif/indirect", ctx: s.ctx, mk: s.ctl("load/")}
	s.sr.AddFactory(f)
	// lives on, its factory is found by another resolver which comes and goes
	if s.p(50) {
		_, _, err := s.b.AddDirective(resolver.NewLoadControllerWithConfig(&sc.Conf{ID: "verif/indirect", N: 1}), nil)
		s.must(err)
	}
	if s.p(50) {
		_, _, err := s.b.AddDirective(resolver.NewLoadControllerWithConfig(&sc.Conf{ID: "verif/load", N: -1}), nil)
		s.must(err)
	}
	n := int64(0)
	odd := &fac{id: "verif/odd", ctx: s.ctx, mk: s.ctl("load/")}
	_, err = s.b.AddHandler(bw.HFunc(func(ctx context.Context, di directive.Instance) ([]directive.Resolver, error) {
		if d, ok := di.GetDirective().(resolver.LoadFactoryByConfig); ok && d.LoadFactoryByConfig().GetConfigID() == odd.id {
			return directive.R(directive.NewValueResolver([]int{4}), nil)
		}
		return nil, nil
	}))
	s.must(err)
	ops := []func(){
		func() {
			// something which is no factory
			_, _, err := resolver.ExLoadFactoryByConfig(s.ctx, s.b, &sc.Conf{ID: "verif/odd", N: 1})
			s.c.Check(err != nil, "odd", "")
			// and a controller of another type
			ctx, cancel := context.WithTimeout(s.ctx, 100*time.Millisecond)
			defer cancel()
			n++
			_, _, _, err = loader.WaitExecControllerRunningTyped[*configset_controller.Controller](ctx, s.b, resolver.NewLoadControllerWithConfig(&sc.Conf{ID: "verif/load", N: n}), func() {})
			s.c.Check(err != nil, "odd", "")
		},
		func() {
			// one which lives on
			ctx, cancel := context.WithTimeout(s.ctx, 10*time.Millisecond)
			defer cancel()
			_, _, ref, err := loader.WaitExecControllerRunning(ctx, s.b, resolver.NewLoadControllerWithConfig(&sc.Conf{ID: "verif/load", N: -1}), func() {})
			if err == nil {
				s.end(ref.Release)
			}
		},
		func() {
			n++
			_, ref, err := s.b.AddDirective(loader.NewExecController(f, &sc.Conf{ID: "verif/load", N: n}), bus.NewCallbackHandler(none, none, nil))
			s.must(err)
			s.end(ref.Release)
		},
		func() {
			n++
			_, ref, err := s.b.AddDirective(resolver.NewLoadControllerWithConfig(&sc.Conf{ID: "verif/load", N: n}), bus.NewCallbackHandler(none, none, nil))
			s.must(err)
			s.end(ref.Release)
		},
		func() {
			// an unknown one, for a while
			ctx, cancel := context.WithTimeout(s.ctx, time.Millisecond)
			defer cancel()
			_, _, _, err := loader.WaitExecControllerRunning(ctx, s.b, resolver.NewLoadControllerWithConfig(&sc.Conf{ID: "verif/unknown", N: n}), func() {})
			s.c.Check(err != nil, "unknown", "")
		},
		func() {
			n++
			ctx, cancel := context.WithTimeout(s.ctx, 100*time.Millisecond)
			defer cancel()
			_, _, ref, err := loader.WaitExecControllerRunning(ctx, s.b, resolver.NewLoadControllerWithConfig(&sc.Conf{ID: "verif/load", N: n}), func() {})
			if err == nil {
				s.end(ref.Release)
			}
		},
		func() {
			_, ref, err := resolver.ExLoadFactoryByConfig(s.ctx, s.b, &sc.Conf{ID: "verif/load", N: n})
			s.must(err)
			s.end(ref.Release)
		},
		func() {
			_, _, ref, err := bus.ExecOneOff(s.ctx, s.b, resolver.NewLoadConfigConstructorByID("verif/load"), nil, nil)
			s.must(err)
			s.end(ref.Release)
		},
		func() {
			// a resolver comes and goes
			sr2 := static.NewResolver(ind)
			rel, err := s.b.AddController(s.ctx, resolver.NewController(s.c.Le, s.b, sr2), nil)
			s.must(err)
			_, ref, err := s.b.AddDirective(resolver.NewLoadControllerWithConfig(&sc.Conf{ID: "verif/indirect", N: n}), nil)
			s.must(err)
			s.end(ref.Release)
			s.end(rel)
		},
		func() {
			// a factory which is unloaded
			n++
			ctx, cancel := context.WithCancel(s.ctx)
			uf := &fac{id: "verif/unloaded", ctx: ctx, mk: f.mk}
			sr2 := static.NewResolver(uf)
			rel, err := s.b.AddController(s.ctx, resolver.NewController(s.c.Le, s.b, sr2), nil)
			s.must(err)
			_, ref, err := s.b.AddDirective(resolver.NewLoadControllerWithConfig(&sc.Conf{ID: "verif/unloaded", N: n}), nil)
			s.must(err)
			s.end(cancel)
			s.end(ref.Release)
			s.end(rel)
		},
		func() {
			// replaces the factory
			s.n++
			s.sr.AddFactory(&fac{id: "verif/replaced", ver: semver.Version{Minor: uint64(s.n)}, ctx: s.ctx, mk: f.mk})
		},
		func() {
			ctx, cancel := context.WithCancel(s.ctx)
			done := make(chan struct{})
			n++
			conf := &sc.Conf{ID: "verif/load", N: n}
			go func() {
				_ = controller_exec.ExecuteController(ctx, s.b, conf, func(controller_exec.ControllerStatus) {})
				close(done)
			}()
			s.end(func() {
				cancel()
				<-done
			})
		},
	}
	use := s.pick(len(ops))
	return func() {
		for _, i := range use {
			ops[i]()
		}
	}
}

// --- plugins

// plug loads a plugin, as the loaders do, and returns the function which unloads it.
func (s *st) plug(name string, cid string) func() {
	ctx, cancel := context.WithCancel(s.ctx)
	f := &fac{id: cid, ctx: ctx, mk: s.ctl("load/")}
	sp := plugin.NewStaticPlugin(name, "v1", func(bus.Bus) []controller.Factory { return []controller.Factory{f} })
	res, err := sp.NewPluginResolver(ctx, s.b)
	s.must(err)
	rel, err := s.b.AddController(s.ctx, resolver.NewController(s.c.Le, s.b, res), nil)
	s.must(err)
	return func() {
		cancel()
		res.PrePluginUnload()
		sp.PrePluginUnload()
		rel()
	}
}

func plugins(s *st) func() {
	s.plug("lives", "verif/lives")
	n := int64(0)
	ops := []func(){
		func() {
			// lookups
			_, ref, err := resolver.ExLoadFactoryByConfig(s.ctx, s.b, &sc.Conf{ID: "verif/lives", N: n})
			s.must(err)
			s.end(ref.Release)
		},
		func() {
			_, _, ref, err := bus.ExecOneOff(s.ctx, s.b, resolver.NewLoadConfigConstructorByID("verif/lives"), nil, nil)
			s.must(err)
			s.end(ref.Release)
		},
		func() {
			// a plugin comes and goes
			n++
			id := fmt.Sprint("verif/goes", s.p(50))
			un := s.plug("goes", id)
			for i := range s.r.Int(3) {
				_, ref, err := s.b.AddDirective(resolver.NewLoadControllerWithConfig(&sc.Conf{ID: id, N: n + int64(i)}), bus.NewCallbackHandler(none, none, nil))
				s.must(err)
				s.end(ref.Release)
			}
			s.end(un)
		},
	}
	use := s.pick(len(ops))
	return func() {
		for _, i := range use {
			ops[i]()
		}
	}
}

// constructs loads controllers from a plugin which lives on: the controllers it constructed are kept until
// it is unloaded (known finding), nothing else may be.
func constructs(c *h.C) {
	ctx, cancel := context.WithCancel(context.Background())
	defer func() {
		cancel()
		time.Sleep(time.Minute)
		c.Wait()
	}()
	lg := logrus.New()
	lg.SetOutput(discard{})
	lg.SetLevel(logrus.PanicLevel)
	c.Le = logrus.NewEntry(lg)
	b, sr, err := core.NewCoreBus(ctx, c.Le)
	s := &st{c: c, ctx: ctx, b: b, sr: sr, r: c.NewRand()}
	s.must(err)
	s.plug("lives", "verif/lives")
	n, made := 0, int64(0)
	do := func() {
		for range 60 {
			n++
			ctx, cancel := context.WithTimeout(s.ctx, 100*time.Millisecond)
			_, _, ref, err := loader.WaitExecControllerRunning(ctx, s.b, resolver.NewLoadControllerWithConfig(&sc.Conf{ID: "verif/lives", N: int64(n)}), func() {})
			cancel()
			if err == nil {
				made++
				ref.Release()
			}
			if n%8 == 0 {
				time.Sleep(time.Second)
			}
		}
	}
	do()
	u := s.measure()
	made = 0
	for range 5 {
		do()
	}
	v := s.measure()
	grow := v.objs - u.objs
	c.Ev("constructs", "%d", s.r.Int(1000))
	c.Check(grow <= 10*made+100, "memory-grows", "%d objects were in use, %d after loading and releasing %d controllers of a plugin", u.objs, v.objs, made)
	c.Check(v.gos-u.gos < 40, "goroutines-grow", "%d goroutines were running, %d after loading and releasing %d controllers of a plugin", u.gos, v.gos, made)
	c.Check(grow < 2*made/3, "plugin-controllers-kept", "%d objects were in use, %d after loading and releasing %d controllers of a plugin", u.objs, v.objs, made)
}

// --- sets of configs

func configsets(s *st) func() {
	f := &fac{id: "verif/set", ctx: s.ctx, mk: s.ctl("set/")}
	s.sr.AddFactory(f)
	ctl, err := configset_controller.NewController(s.c.Le, s.b)
	s.must(err)
	_, err = s.b.AddController(s.ctx, ctl, nil)
	s.must(err)
	conf := func(n int64, rev int) configset.ControllerConfig {
		id := "verif/set"
		if s.p(10) {
			id = "verif/unknown"
		}
		return configset.NewControllerConfig(uint64(rev), &sc.Conf{ID: id, N: n, Bad: s.p(10)})
	}
	if s.p(50) {
		_, _, err := s.b.AddDirective(configset.NewApplyConfigSet(configset.ConfigSet{"held": conf(0, 1)}), nil)
		s.must(err)
		_, err = ctl.PushControllerConfig(s.ctx, "held", conf(0, 1))
		s.must(err)
	}
	mux := srpc.NewMux()
	s.must(bus_api.NewAPI(s.b, &bus_api.Config{EnableExecController: true}).RegisterAsSRPCServer(mux))
	cli := bus_api.NewSRPCControllerBusServiceClient(srpc.NewClient(srpc.NewServerPipe(srpc.NewServer(mux))))
	rev := 1
	key := func() string {
		if s.p(40) {
			return "held"
		}
		s.n++
		return fmt.Sprintf("k%d", s.n)
	}
	fresh := s.p(50)
	ops := []func(){
		func() {
			rev++
			cs := configset.ConfigSet{}
			for range 1 + s.r.Int(3) {
				cs[key()] = conf(int64(s.r.Int(5)), rev)
			}
			_, ref, err := s.b.AddDirective(configset.NewApplyConfigSet(cs), bus.NewCallbackHandler(none, none, nil))
			s.must(err)
			s.end(ref.Release)
		},
		func() {
			_, ref, err := s.b.AddDirective(configset.NewLookupConfigSet([]string{key(), key()}), bus.NewCallbackHandler(none, none, nil))
			s.must(err)
			s.end(ref.Release)
		},
		func() {
			rev++
			ref, err := ctl.PushControllerConfig(s.ctx, key(), conf(int64(s.r.Int(5)), rev))
			s.must(err)
			ref.AddStateCallback(func(configset.State) {})
			s.end(ref.Release)
		},
		func() {
			ref, err := ctl.AddConfigSetReference(s.ctx, key())
			s.must(err)
			ref.AddStateCallback(func(configset.State) {})
			s.end(ref.Release)
		},
		func() {
			ctx, cancel := context.WithCancel(s.ctx)
			done := make(chan struct{})
			req := &controller_exec.ExecControllerRequest{ConfigSet: &configset_proto.ConfigSet{Configs: map[string]*configset_proto.ControllerConfig{
				key(): {Id: "verif/set", Rev: 1},
			}}}
			go func() {
				_ = req.Execute(ctx, s.b, true, func(*controller_exec.ExecControllerResponse) error { return nil })
				close(done)
			}()
			s.end(func() {
				cancel()
				<-done
			})
		},
		func() {
			if fresh {
				_, err := cli.GetBusInfo(s.ctx, &bus_api.GetBusInfoRequest{})
				s.must(err)
			}
			ctx, cancel := context.WithCancel(s.ctx)
			strm, err := cli.ExecController(ctx, &controller_exec.ExecControllerRequest{ConfigSet: &configset_proto.ConfigSet{Configs: map[string]*configset_proto.ControllerConfig{
				key(): {Id: "verif/set", Rev: 1},
			}}})
			s.must(err)
			s.end(func() {
				cancel()
				_ = strm.Close()
			})
		},
	}
	use := s.pick(len(ops))
	return func() {
		for _, i := range use {
			ops[i]()
		}
	}
}

// --- adapters: resolvers of long-lived sources

func adapters(s *st) func() {
	type mkFn = func() directive.Resolver
	var mks []mkFn
	rcCtx := s.ctx
	rc := refcount.NewRefCount(rcCtx, false, nil, nil, func(ctx context.Context, released func()) (*bw.V, func(), error) {
		return &bw.V{}, func() {}, nil
	})
	krc := keyed.NewKeyedRefCount(func(key string) (keyed.Routine, *bw.V) {
		return func(ctx context.Context) error { <-ctx.Done(); return nil }, &bw.V{}
	})
	krc.SetContext(s.ctx, true)
	ctr := ccontainer.NewCContainer(&bw.V{})
	keys := 1 + s.r.Int(100)
	mks = append(mks,
		func() directive.Resolver { return directive.NewRefCountResolver(rc) },
		func() directive.Resolver {
			return directive.NewRefCountResolverWithXfrm(rc, func(ctx context.Context, v *bw.V) (int, error) { return 3 + v.N, nil })
		},
		func() directive.Resolver {
			return directive.NewAccessResolver(func(ctx context.Context, released func()) (*bw.V, func(), error) {
				return rc.Resolve(ctx)
			})
		},
		func() directive.Resolver {
			s.n++
			return directive.NewKeyedRefCountResolver(krc, fmt.Sprint("k", s.n%keys), func(ctx context.Context, v *bw.V) (directive.Value, error) { return v, nil })
		},
		func() directive.Resolver {
			return directive.NewGetterResolver(func(ctx context.Context) (*bw.V, error) { return &bw.V{}, nil })
		},
		func() directive.Resolver {
			return directive.NewKeyedGetterResolver(func(ctx context.Context, key string, release func()) (*bw.V, func(), error) {
				_, rel, err := rc.Resolve(ctx)
				return &bw.V{}, rel, err
			}, "k")
		},
		func() directive.Resolver { return directive.NewWatchableResolver[*bw.V](ctr) },
		func() directive.Resolver {
			return directive.NewWatchableTransformResolver[*bw.V, *bw.V](ctr, func(ctx context.Context, v *bw.V) (*bw.V, bool, error) { return v, true, nil })
		},
		func() directive.Resolver { return directive.NewValueResolver([]*bw.V{{}, {}}) },
		func() directive.Resolver {
			return directive.NewRetryResolver(s.c.Le, directive.NewRefCountResolver(rc), nil)
		},
	)
	use := s.pick(len(mks))
	n := 0
	_, err := s.b.AddHandler(bw.HFunc(func(ctx context.Context, di directive.Instance) ([]directive.Resolver, error) {
		d, ok := di.GetDirective().(*bw.D)
		if !ok || !strings.HasPrefix(d.Key, "adapt/") {
			return nil, nil
		}
		var rs []directive.Resolver
		for _, i := range use {
			rs = append(rs, mks[i]())
		}
		return rs, nil
	}))
	s.must(err)
	change := s.p(30)
	return func() {
		n++
		_, ref, err := s.b.AddDirective(&bw.D{Key: fmt.Sprintf("adapt/%d", n)}, bus.NewCallbackHandler(none, none, nil))
		s.must(err)
		s.end(ref.Release)
		if change {
			ctr.SetValue(&bw.V{N: n})
		}
	}
}

// --- lists

func lists(s *st) func() {
	var rh directive.ResolverHandler
	ready := make(chan struct{})
	_, err := s.b.AddHandler(bw.HFunc(func(ctx context.Context, di directive.Instance) ([]directive.Resolver, error) {
		if d, ok := di.GetDirective().(*bw.D); !ok || d.Key != "list" {
			return nil, nil
		}
		return directive.R(directive.NewFuncResolver(func(ctx context.Context, h directive.ResolverHandler) error {
			rh = h
			close(ready)
			<-ctx.Done()
			return nil
		}), nil)
	}))
	s.must(err)
	_, _, err = s.b.AddDirective(&bw.D{Key: "list"}, bus.NewCallbackHandler(none, none, nil))
	s.must(err)
	<-ready
	ul := directive.NewUniqueListResolver(func(v *bw.V) int { return v.N }, func(k int, a, b *bw.V) bool { return a == b }, rh)
	um := directive.NewUniqueMapResolver(func(k int, a, b *bw.V) bool { return a == b }, rh)
	n := 0
	return func() {
		n++
		var vs []*bw.V
		m := map[int]*bw.V{}
		for i := range s.r.Int(4) {
			vs = append(vs, &bw.V{N: n + i})
			m[n+i] = &bw.V{N: n + i}
		}
		ul.SetValues(vs...)
		um.SetValues(m)
	}
}

// --- whole buses

func buses(s *st) func() {
	n := 1 + s.r.Int(3)
	return func() {
		ctx, cancel := context.WithCancel(s.ctx)
		s.end(cancel)
		b, sr, err := core.NewCoreBus(ctx, s.c.Le)
		s.must(err)
		sr.AddFactory(&fac{id: "verif/x", ctx: ctx, mk: s.ctl("x")})
		for i := range n {
			_, _, err = b.AddDirective(resolver.NewLoadControllerWithConfig(&sc.Conf{ID: "verif/x", N: int64(i)}), nil)
			s.must(err)
		}
	}
}

// --- the measurement

var kinds = []struct {
	name string
	mk   func(s *st) func()
}{
	{"directives", directives},
	{"callbacks", callbacks},
	{"controllers", controllers},
	{"helpers", helpers},
	{"forward", forward},
	{"loading", loading},
	{"configsets", configsets},
	{"adapters", adapters},
	{"lists", lists},
	{"buses", buses},
	{"plugins", plugins},
}

// usage is what is in use.
type usage struct {
	objs int64
	// bytes of the objects
	bytes int64
	gos  int
}

func (s *st) measure() usage {
	// the grace periods end
	time.Sleep(time.Minute)
	s.c.Wait()
	var m runtime.MemStats
	var u usage
	for k := range 6 {
		runtime.GC()
		runtime.ReadMemStats(&m)
		n := int64(m.HeapObjects)
		if k > 1 && n >= u.objs {
			break
		}
		u.objs, u.bytes = n, int64(m.HeapAlloc)
	}
	u.gos = runtime.NumGoroutine()
	return u
}

// sites returns the objects in use by the function which allocated them.
func sites() map[string]int64 {
	rec := make([]runtime.MemProfileRecord, 5000)
	for {
		n, ok := runtime.MemProfile(rec, false)
		if ok {
			rec = rec[:n]
			break
		}
		rec = make([]runtime.MemProfileRecord, n+1000)
	}
	m := map[string]int64{}
	for i := range rec {
		fr := runtime.CallersFrames(rec[i].Stack())
		for {
			f, more := fr.Next()
			if f.Function == "runtime.acquireSudog" {
				break
			}
			if f.Function != "" && !strings.HasPrefix(f.Function, "runtime.") && !strings.HasPrefix(f.Function, "internal/runtime/") {
				if !strings.HasPrefix(f.Function, "internal/sync.runtime_") && !strings.HasPrefix(f.Function, "sync.runtime_") && f.Function != "time.goFunc" && !strings.HasSuffix(f.Function, "steady.sites") {
					m[f.Function] += rec[i].InUseObjects()
				}
				break
			}
			if !more {
				break
			}
		}
	}
	return m
}

// growth returns the growth and where most of it is.
func growth(p, q map[string]int64) (int64, string) {
	var sum int64
	var fs []string
	d := map[string]int64{}
	for f, n := range q {
		d[f] = n - p[f]
		sum += d[f]
		fs = append(fs, f)
	}
	for f, n := range p {
		if _, ok := q[f]; !ok {
			sum -= n
		}
	}
	slices.SortFunc(fs, func(a, b string) int { return int(d[b] - d[a]) })
	most := ""
	for i, f := range fs {
		if i < 4 {
			most += fmt.Sprintf(" %s +%d", f, d[f])
		}
	}
	return sum, most
}

// failed is the number of cases which failed: what leaks is slow.
var failed int

func runKind(ks ...int) func(c *h.C) {
	return func(c *h.C) {
		if failed > 1 {
			return
		}
		ctx, cancel := context.WithCancel(context.Background())
		defer func() {
			cancel()
			time.Sleep(time.Minute)
			c.Wait()
		}()
		lg := logrus.New()
		lg.SetOutput(discard{})
		lg.SetLevel(logrus.PanicLevel)
		c.Le = logrus.NewEntry(lg)
		b, sr, err := core.NewCoreBus(ctx, c.Le)
		s := &st{c: c, ctx: ctx, b: b, sr: sr, r: c.NewRand()}
		s.must(err)
		many := len(ks) == 1 && kinds[ks[0]].name == "lists"
		var rounds []func()
		var names []string
		for _, k := range ks {
			names = append(names, kinds[k].name)
			rounds = append(rounds, kinds[k].mk(s))
			s.names += " "
		}
		c.Wait()
		waits := s.r.Int(3)
		order := s.r.Int(2)
		do := func(n int) {
			for i := range n {
				for _, r := range rounds {
					r()
				}
				switch waits {
				case 0:
					c.Wait()
				case 1:
					time.Sleep(time.Duration(s.r.Int(300)) * time.Millisecond)
				default:
					if i%4 == 0 {
						time.Sleep(10 * time.Second)
					}
				}
				ends := s.ends
				s.ends = nil
				for j := range ends {
					if order == 0 {
						j = len(ends) - 1 - j
					}
					ends[j]()
				}
				if s.c.Failed() {
					s.c.Abort()
				}
			}
		}
		n := 60
		if many {
			// cheap rounds: what grows within an object is seen as well
			n = 1000
		}
		do(n)
		u := s.measure()
		if many {
			do(5 * n)
			v := s.measure()
			c.Ev("bytes", "")
			if v.bytes-u.bytes >= 5*int64(n)*8 {
				// might have grown once
				u, v = v, usage{}
				do(10 * n)
				v = s.measure()
				c.Check(v.bytes-u.bytes < 10*int64(n)*8, "memory-grows", "%v %s: %d bytes were in use, %d after %d more rounds in which everything was ended", names, s.names, u.bytes, v.bytes, 10*n)
			}
			u = v
			n = 60
		}
		for try := 0; ; try++ {
			do(n)
			v := s.measure()
			c.Ev(strings.Join(names, "+"), "%v %d", v.objs > u.objs, waits)
			c.Ev("measured", "")
			grow := v.objs-u.objs >= int64(n)*2/3
			gos := v.gos-u.gos >= n*2/3
			if !grow && !gos {
				return
			}
			// it might be something which grew once (as what the runtime keeps of goroutines
			// which ran at the same time): it has to go on
			if large := v.objs-u.objs >= 15*int64(n); try == 3 || try == 1 && large {
				// by allocation site, without what the runtime keeps
				defer func(r int) { runtime.MemProfileRate = r }(runtime.MemProfileRate)
				runtime.MemProfileRate = 1
				m := 10 * n
				if large {
					m = n
				} else if v.objs-u.objs >= 4*int64(n) || gos {
					m = 2 * n
				}
				do(n)
				u = s.measure()
				p := sites()
				do(m)
				v = s.measure()
				q := sites()
				c.Ev("confirmed", "")
				sum, most := growth(p, q)
				c.Check(sum < int64(m)*2/3, "memory-grows", "%v %s: %d more objects are in use after %d more rounds in which everything was ended: %s", names, s.names, sum, m, most)
				c.Check(v.gos-u.gos < m*2/3, "goroutines-grow", "%v %s: %d goroutines were running, %d after %d more rounds in which everything was ended", names, s.names, u.gos, v.gos, m)
				if c.Failed() {
					failed++
				}
				return
			}
			u = v
		}
	}
}

// discard is a writer.
type discard struct{}

func (discard) Write(p []byte) (int, error) { return len(p), nil }

func TestCheck(t *testing.T) {
	var sc []h.Scenario
	for i, k := range kinds {
		sc = append(sc, h.Scenario{Name: k.name, Quick: 80, Thorough: 2500, Fn: runKind(i)})
	}
	sc = append(sc, h.Scenario{Name: "mixed", Quick: 80, Thorough: 2500, Fn: func(c *h.C) {
		runKind(c.R.Perm(len(kinds))[:2+c.Int(3)]...)(c)
	}})
	sc = append(sc, h.Scenario{Name: "constructs", Quick: 16, Thorough: 200, Fn: constructs})
	h.Run(t, sc)
}
