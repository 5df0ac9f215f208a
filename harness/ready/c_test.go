// Package ready checks the ready-made reference handlers, controllers, factories and codecs (C23).
package ready

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"slices"
	"strings"
	"testing"
	"time"

	"github.com/aperturerobotics/controllerbus/bus"
	"github.com/aperturerobotics/controllerbus/config"
	"github.com/aperturerobotics/controllerbus/controller"
	"github.com/aperturerobotics/controllerbus/controller/callback"
	configset_proto "github.com/aperturerobotics/controllerbus/controller/configset/proto"
	"github.com/aperturerobotics/controllerbus/controller/loader"
	"github.com/aperturerobotics/controllerbus/controller/resolver"
	"github.com/aperturerobotics/controllerbus/core"
	"github.com/aperturerobotics/controllerbus/directive"
	cdc "github.com/aperturerobotics/controllerbus/directive/controller"
	directive_proto "github.com/aperturerobotics/controllerbus/directive/proto"
	"github.com/blang/semver/v4"
	"github.com/sirupsen/logrus"

	"verifharness/bw"
	"verifharness/h"
	"verifharness/sc"
)

// --- reference handlers ---

// rec is a reference handler which records what it is told.
type rec struct {
	c   *h.C
	log []string
}

func (r *rec) HandleValueAdded(di directive.Instance, av directive.AttachedValue) {
	r.log = append(r.log, fmt.Sprintf("added %d %v %v", av.GetValueID(), av.GetValue(), di != nil))
}

func (r *rec) HandleValueRemoved(di directive.Instance, av directive.AttachedValue) {
	r.log = append(r.log, fmt.Sprintf("removed %d %v %v", av.GetValueID(), av.GetValue(), di != nil))
}

func (r *rec) HandleInstanceDisposed(di directive.Instance) {
	r.log = append(r.log, fmt.Sprintf("disposed %v", di != nil))
}

// chain is a chain of ready-made handlers with what its functions are told.
type chain struct {
	name string
	h    directive.ReferenceHandler
	got  []string
	// want tells what is told for an event.
	want func(ev string, av directive.AttachedValue) []string
	exp  []string
}

// newChain builds a random chain.
func newChain(c *h.C, ch *chain, depth int) (directive.ReferenceHandler, string, func(ev string, av directive.AttachedValue) []string) {
	id := fmt.Sprintf("%d", depth)
	put := func(s string) { ch.got = append(ch.got, id+":"+s) }
	none := func(string, directive.AttachedValue) []string { return nil }
	k := c.Int(6)
	if depth > 4 && k > 1 {
		k = 0
	}
	str := func(ev string, av directive.AttachedValue) string {
		if av == nil {
			return id + ":" + ev
		}
		return fmt.Sprintf("%s:%s %d %v", id, ev, av.GetValueID(), av.GetValue())
	}
	var add, rem func(directive.AttachedValue)
	var disp func()
	on := map[string]bool{}
	set := func() {
		if on["added"] = c.P(75); on["added"] {
			add = func(av directive.AttachedValue) { put(fmt.Sprintf("added %d %v", av.GetValueID(), av.GetValue())) }
		}
		if on["removed"] = c.P(75); on["removed"] {
			rem = func(av directive.AttachedValue) { put(fmt.Sprintf("removed %d %v", av.GetValueID(), av.GetValue())) }
		}
		if on["disposed"] = c.P(75); on["disposed"] {
			disp = func() { put("disposed") }
		}
	}
	switch k {
	case 0, 1:
		set()
		want := func(ev string, av directive.AttachedValue) []string {
			if on[ev] {
				return []string{str(ev, av)}
			}
			return nil
		}
		if k == 0 {
			return directive.NewCallbackHandler(add, rem, disp), "callback", want
		}
		return bus.NewCallbackHandler(add, rem, disp), "bus-callback", want
	case 2, 3:
		var le *logrus.Entry
		if c.P(60) {
			le = c.Le
		}
		if c.P(15) {
			return directive.NewLogHandler(le, nil), "log", none
		}
		in, n, want := newChain(c, ch, depth+1)
		return directive.NewLogHandler(le, in), "log(" + n + ")", want
	default:
		set()
		var fb directive.ReferenceHandler
		fn, fw := "nil", none
		if c.P(70) {
			fb, fn, fw = newChain(c, ch, depth+1)
		}
		typed := func(ok func(av directive.AttachedValue) bool, kind string, hnd directive.ReferenceHandler) (directive.ReferenceHandler, string, func(ev string, av directive.AttachedValue) []string) {
			return hnd, "typed-" + kind + "(" + fn + ")", func(ev string, av directive.AttachedValue) []string {
				if ev == "disposed" {
					l := fw(ev, av)
					if on[ev] {
						l = append([]string{str(ev, av)}, l...)
					}
					return l
				}
				if !ok(av) {
					return fw(ev, av)
				}
				if on[ev] {
					return []string{str(ev, av)}
				}
				return nil
			}
		}
		if k == 4 {
			var a, r func(directive.TypedAttachedValue[*bw.V])
			if add != nil {
				a = func(av directive.TypedAttachedValue[*bw.V]) {
					put(fmt.Sprintf("added %d %v", av.GetValueID(), av.GetValue()))
				}
			}
			if rem != nil {
				r = func(av directive.TypedAttachedValue[*bw.V]) {
					put(fmt.Sprintf("removed %d %v", av.GetValueID(), av.GetValue()))
				}
			}
			return typed(func(av directive.AttachedValue) bool { _, ok := av.GetValue().(*bw.V); return ok }, "v",
				directive.NewTypedCallbackHandler(a, r, disp, fb))
		}
		var a, r func(directive.TypedAttachedValue[fmt.Stringer])
		if add != nil {
			a = func(av directive.TypedAttachedValue[fmt.Stringer]) {
				put(fmt.Sprintf("added %d %v", av.GetValueID(), av.GetValue()))
			}
		}
		if rem != nil {
			r = func(av directive.TypedAttachedValue[fmt.Stringer]) {
				put(fmt.Sprintf("removed %d %v", av.GetValueID(), av.GetValue()))
			}
		}
		return typed(func(av directive.AttachedValue) bool { _, ok := av.GetValue().(fmt.Stringer); return ok }, "stringer",
			directive.NewTypedCallbackHandler(a, r, disp, fb))
	}
}

// tap is a reference handler which tells the model and the chain.
type tap struct {
	c  *h.C
	ch *chain
}

func (t *tap) HandleValueAdded(di directive.Instance, av directive.AttachedValue) {
	t.note("added", av)
	t.ch.h.HandleValueAdded(di, av)
}

func (t *tap) HandleValueRemoved(di directive.Instance, av directive.AttachedValue) {
	t.note("removed", av)
	t.ch.h.HandleValueRemoved(di, av)
}

func (t *tap) HandleInstanceDisposed(di directive.Instance) {
	t.note("disposed", nil)
	t.ch.h.HandleInstanceDisposed(di)
}

func (t *tap) note(ev string, av directive.AttachedValue) {
	t.c.Ev("ref-"+ev, "")
	t.ch.exp = append(t.ch.exp, t.ch.want(ev, av)...)
}

// runHandlers: chains of handlers tell exactly what they are told.
func runHandlers(c *h.C) {
	w := bw.New(c)
	s := w.NewSrc("k", 2)
	var chs []*chain
	var direct []*chain // given to the bus itself
	var refs []directive.Reference
	add := func() {
		ch := &chain{}
		ch.h, ch.name, ch.want = newChain(c, ch, 0)
		chs = append(chs, ch)
		// given to the bus itself if what it is told is known from another reference
		_, r, err := w.B.AddDirective(&bw.D{Key: "k"}, &tap{c, ch})
		if !c.Check(err == nil && r != nil, "add-directive", "AddDirective: %v", err) {
			c.Abort()
		}
		refs = append(refs, r)
		c.Ev("chain", "%s", ch.name)
		if len(chs) == 1 {
			// the same chain, all of its events are known from the first reference
			d := &chain{}
			d.h, d.name, d.want = newChain(c, d, 0)
			direct = append(direct, d)
			_, r, err := w.B.AddDirective(&bw.D{Key: "k"}, d.h)
			if !c.Check(err == nil && r != nil, "add-directive", "AddDirective: %v", err) {
				c.Abort()
			}
			refs = append(refs, r)
			first := chs[0]
			old := first.want
			first.want = func(ev string, av directive.AttachedValue) []string {
				d.exp = append(d.exp, d.want(ev, av)...)
				return old(ev, av)
			}
		}
	}
	add()
	c.Wait()
	vals := []func() any{
		func() any { return &bw.V{N: w.Num()} },
		func() any { return &bw.O{N: w.Num()} },
		func() any { return w.Num() },
		func() any { return fmt.Sprintf("s%d", w.Num()) },
		func() any { return time.Duration(w.Num()) },
		func() any { return (*bw.V)(nil) },
	}
	type have struct {
		sl *bw.Slot
		id uint32
	}
	var hs []have
	for step := 5 + c.Int(25); step > 0; step-- {
		sls := s.Slots()
		if len(sls) == 0 {
			break
		}
		switch k := c.Int(10); {
		case k < 5:
			sl := sls[c.Int(len(sls))]
			if id, ok := sl.Add(vals[c.Int(len(vals))]()); ok {
				hs = append(hs, have{sl, id})
			}
		case k < 8 && len(hs) > 0:
			x := c.Int(len(hs))
			hs[x].sl.Remove(hs[x].id)
			hs = append(hs[:x:x], hs[x+1:]...)
		case k < 9 && len(chs) < 5:
			add()
		}
		c.Wait()
	}
	cmp := func() {
		for _, ch := range append(append([]*chain(nil), chs...), direct...) {
			c.Check(strings.Join(ch.got, ",") == strings.Join(ch.exp, ","), "handler", "%s was told %v, its functions %v", ch.name, ch.exp, ch.got)
			c.Ev("compared", "%d", len(ch.got))
		}
	}
	cmp()
	// dispose it
	if i := s.Inst(); i != nil {
		i.Close()
	}
	c.Wait()
	cmp()
	for _, r := range refs {
		r.Release()
	}
	s.Release()
	w.Cancel()
	c.Wait()
	cmp()
}

// runIdle: the callback which tells errors.
func runIdle(c *h.C) {
	n := c.Int(3)
	wait := c.P(50)
	ch := make(chan error, n)
	cb := directive.NewErrChIdleCallback(ch, wait)
	var queue []error
	for step := 0; step < 20; step++ {
		if c.P(30) {
			// the reader
			var got error
			select {
			case got = <-ch:
			default:
			}
			var want error
			if len(queue) > 0 {
				want, queue = queue[0], queue[1:]
			}
			c.Check(got == want, "idle-error", "the channel (size %d) has %v, not %v", n, got, want)
			c.Ev("idle-read", "%v", got != nil)
			continue
		}
		idle := c.P(50)
		var errs []error
		for k := c.Int(4); k > 0; k-- {
			switch c.Int(4) {
			case 0:
				errs = append(errs, context.Canceled)
			case 1:
				errs = append(errs, nil)
			default:
				errs = append(errs, fmt.Errorf("error %d", c.Int(1000)))
			}
		}
		done := make(chan struct{})
		go func() {
			cb(idle, errs)
			close(done)
		}()
		c.Wait()
		select {
		case <-done:
		default:
			c.Fail("idle-block", "the idle callback blocks")
			<-ch
			c.Abort()
		}
		c.Ev("idle-cb", "%v %d", idle, len(errs))
		if !wait || idle {
			for _, err := range errs {
				if err != nil && err != context.Canceled && len(queue) < n {
					queue = append(queue, err)
				}
			}
		}
	}
}

type nres struct{ n int }

func (r *nres) Resolve(ctx context.Context, rh directive.ResolverHandler) error { return nil }

// runLists: lists of resolvers and debug values.
func runLists(c *h.C) {
	var in, want []directive.Resolver
	for k := c.Int(5); k > 0; k-- {
		if c.P(40) {
			in = append(in, nil)
			continue
		}
		r := &nres{k}
		in = append(in, r)
		want = append(want, r)
	}
	same := func(a, b []directive.Resolver) bool {
		if len(a) != len(b) {
			return false
		}
		for i := range a {
			if a[i] != b[i] {
				return false
			}
		}
		return true
	}
	got := directive.Resolvers(in...)
	c.Check(same(got, want), "resolvers", "Resolvers(%v) is %v", in, got)
	var r directive.Resolver
	if c.P(70) {
		r = &nres{1}
	}
	var e error
	if c.P(40) {
		e = errors.New("an error")
	}
	for k, f := range []func(directive.Resolver, error) ([]directive.Resolver, error){directive.R, directive.NewResolver} {
		l, err := f(r, e)
		c.Check(err == e, "resolvers", "%d: R(%v, %v) fails with %v", k, r, e, err)
		switch {
		case e != nil || r == nil:
			c.Check(len(l) == 0, "resolvers", "%d: R(%v, %v) is %v", k, r, e, l)
		default:
			c.Check(len(l) == 1 && l[0] == r, "resolvers", "%d: R(%v, %v) is %v", k, r, e, l)
		}
	}
	// merging debug values keeps all of them
	to := config.DebugValues{}
	exp := map[string][]string{}
	num := 0
	fill := func(m config.DebugValues) {
		for k := c.Int(4); k > 0; k-- {
			key := fmt.Sprintf("k%d", c.Int(3))
			num++
			m[key] = append(m[key], fmt.Sprint(num))
		}
		for k, v := range m {
			exp[k] = append(exp[k], v...)
		}
	}
	fill(to)
	var from []config.DebugValues
	for k := c.Int(4); k > 0; k-- {
		m := config.DebugValues{}
		fill(m)
		from = append(from, m)
	}
	before := fmt.Sprint(from)
	config.MergeDebugVals(to, from...)
	c.Check(fmt.Sprint(map[string][]string(to)) == fmt.Sprint(exp), "debug-merge", "merged %v, want %v", to, exp)
	c.Check(fmt.Sprint(from) == before, "debug-merge", "the merged values were changed: %v, %v before", from, before)
	c.Ev("lists", "%d %d", len(want), len(from))
	ident(c)
}

// idir is a directive with or without debug values.
type idir struct {
	name string
	vals directive.DebugValues
}

func (d *idir) Validate() error                         { return nil }
func (d *idir) GetValueOptions() directive.ValueOptions { return directive.ValueOptions{} }
func (d *idir) GetName() string                         { return d.name }

type idbg struct{ idir }

func (d *idbg) GetDebugVals() directive.DebugValues { return d.vals }

// ident checks the identification of a directive: the name and, if there are any, all debug values.
func ident(c *h.C) {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	dc := cdc.NewController(ctx, c.Le)
	b := idir{name: fmt.Sprintf("Dir%d", c.Int(5))}
	if c.P(70) {
		b.vals = directive.NewDebugValues()
		for k := c.Int(4); k > 0; k-- {
			key := fmt.Sprintf("key-%d", c.Int(4))
			b.vals[key] = append(b.vals[key], fmt.Sprintf("v%d", c.Int(9)))
		}
	}
	var dir directive.Directive = &b
	if c.P(70) {
		dir = &idbg{b}
	} else {
		b.vals = nil
	}
	di, ref, err := dc.AddDirective(dir, nil)
	if !c.Check(err == nil, "add-directive", "%v", err) {
		return
	}
	defer ref.Release()
	var want []string
	for _, k := range h.SortedKeys(b.vals) {
		for _, v := range b.vals[k] {
			want = append(want, k+"="+v)
		}
	}
	exp := b.name
	if len(want) != 0 {
		exp += "<" + strings.Join(want, "&") + ">"
	}
	for k := 0; k < 2; k++ {
		got := di.GetDirectiveIdent()
		name, rest, _ := strings.Cut(got, "<")
		l := strings.FieldsFunc(strings.TrimSuffix(rest, ">"), func(r rune) bool { return r == '&' || r == ' ' || r == ',' })
		slices.Sort(l)
		w := slices.Clone(want)
		slices.Sort(w)
		c.Check(name == b.name && slices.Equal(l, w), "ident", "the directive is identified as %q, want %q (any order)", got, exp)
	}
	c.Ev("ident", "%s", exp)
}

// --- controllers and factories ---

// calls counts the calls of the functions of a controller.
type calls struct {
	exec, cl, dirs int
	ctx            context.Context
	running        bool
	offers         map[directive.Instance]int
	closedRunning  bool
}

type tconf = sc.Conf

// bctl is a controller on the base controller.
type bctl struct {
	*bus.BusController[*tconf]
	over map[string]bool
	ca   *calls
	c    *h.C
	mode string
}

func (b *bctl) Execute(ctx context.Context) error {
	if err := b.BusController.Execute(ctx); err != nil {
		b.c.Fail("base", "Execute of the base fails: %v", err)
	}
	return runExec(b.c, b.ca, b.mode, ctx)
}

func (b *bctl) HandleDirective(ctx context.Context, di directive.Instance) ([]directive.Resolver, error) {
	l, err := b.BusController.HandleDirective(ctx, di)
	b.c.Check(len(l) == 0 && err == nil, "base", "HandleDirective of the base returns %v %v", l, err)
	return handleDir(b.c, b.ca, di)
}

func (b *bctl) Close() error {
	err := b.BusController.Close()
	b.c.Check(err == nil, "base", "Close of the base fails: %v", err)
	b.ca.cl++
	b.ca.closedRunning = b.ca.closedRunning || b.ca.running
	return nil
}

func runExec(c *h.C, ca *calls, mode string, ctx context.Context) error {
	ca.exec++
	ca.ctx = ctx
	ca.running = true
	defer func() { ca.running = false }()
	c.Ev("execute", "%s", mode)
	switch mode {
	case "return":
		return nil
	}
	<-ctx.Done()
	return ctx.Err()
}

// dv is the value of a directive.
type dv struct{ di directive.Instance }

func handleDir(c *h.C, ca *calls, di directive.Instance) ([]directive.Resolver, error) {
	if _, ok := di.GetDirective().(*bw.D); !ok {
		return nil, nil
	}
	ca.dirs++
	if ca.offers == nil {
		ca.offers = map[directive.Instance]int{}
	}
	ca.offers[di]++
	c.Ev("offered", "")
	return directive.R(directive.NewValueResolver([]*dv{{di}}), nil)
}

// infoIs checks the info of a controller and that readers can not change it.
func infoIs(c *h.C, ctrl controller.Controller, id, version, descr string) {
	for k := 0; k < 2; k++ {
		i := ctrl.GetControllerInfo()
		if !c.Check(i != nil, "info", "there is no info") {
			return
		}
		c.Check(i.GetId() == id && i.GetVersion() == version && i.GetDescription() == descr, "info", "the info is %q %q %q, not %q %q %q", i.GetId(), i.GetVersion(), i.GetDescription(), id, version, descr)
		cl := i.Clone()
		c.Check(cl != i && cl.EqualVT(i), "info-clone", "a clone of the info is %v, not %v", cl, i)
		i.Id, i.Version, i.Description = "x", "y", "z"
		c.Check(cl.GetId() == id, "info-clone", "a clone of the info changes with it")
	}
	var n *controller.Info
	c.Check(n.Clone() == nil, "info-clone", "the clone of nil")
}

// runControllers: controllers made of functions, and on the base controller, on a bus.
func runControllers(c *h.C) {
	ctx, cancel := context.WithCancel(context.Background())
	b, sr, err := core.NewCoreBus(ctx, c.Le)
	if !c.Check(err == nil, "core", "%v", err) {
		return
	}
	ver := semver.Version{Major: uint64(c.Int(4)), Minor: uint64(c.Int(30)), Patch: uint64(c.Int(300))}
	if c.P(30) {
		ver.Pre = []semver.PRVersion{{VersionStr: "rc"}}
	}
	id, descr := fmt.Sprintf("verif/ctl-%d", c.Int(100)), fmt.Sprintf("descr %d", c.Int(100))
	confID := fmt.Sprintf("verif/conf-%d", c.Int(100))

	// a factory of controllers on the base controller
	var made []*bctl
	var conf *tconf
	mode := []string{"block", "return"}[c.Int(2)]
	var failErr error
	nconf := 0
	fac := bus.NewBusControllerFactory(b, confID, id, ver, descr, func() *tconf {
		nconf++
		return &tconf{ID: confID}
	}, func(base *bus.BusController[*tconf]) (*bctl, error) {
		if failErr != nil {
			return nil, failErr
		}
		x := &bctl{BusController: base, ca: &calls{}, c: c, mode: mode}
		made = append(made, x)
		c.Ev("constructed", "")
		return x, nil
	})
	c.Check(fac.GetConfigID() == confID && fac.GetVersion().EQ(ver), "factory", "the factory is of %q version %v", fac.GetConfigID(), fac.GetVersion())
	k1, k2 := fac.ConstructConfig(), fac.ConstructConfig()
	c.Check(nconf == 2 && k1 != k2 && k1 != nil && k1.GetConfigID() == confID, "factory", "ConstructConfig: %v %v", k1, k2)
	le := c.Le.WithField("x", c.Int(10))
	conf = &tconf{ID: confID, N: int64(c.Int(1000))}
	check := func(x *bctl, le *logrus.Entry) {
		c.Check(x.GetBus() == bus.Bus(b), "base", "the controller has another bus")
		c.Check(x.GetConfig() == conf, "base", "the controller has the config %v, not %v", x.GetConfig(), conf)
		if le != nil {
			c.Check(x.GetLogger() == le, "base", "the controller has another logger")
		}
		infoIs(c, x, id, ver.String(), descr)
	}
	ctrl, err := fac.Construct(ctx, conf, controller.ConstructOpts{Logger: le})
	if c.Check(err == nil && len(made) == 1 && ctrl == controller.Controller(made[0]), "factory", "Construct: %v %v", ctrl, err) {
		check(made[0], le)
	}
	opts := controller.ConstructOpts{Logger: le}
	c.Check(opts.GetLogger() == le, "construct-opts", "GetLogger of the options")
	opts.Logger = nil
	c.Check(opts.GetLogger() != nil, "construct-opts", "GetLogger of empty options is nil")
	// configs of another type
	other := &wrongConf{tconf{ID: confID}}
	x, err := fac.Construct(ctx, other, controller.ConstructOpts{Logger: le})
	c.Check(err != nil && x == nil, "factory-type", "constructed %v from a config of another type, the same id: %v", x, err)
	x, err = fac.Construct(ctx, &config.Placeholder{}, controller.ConstructOpts{Logger: le})
	c.Check(err != nil && x == nil, "factory-type", "constructed %v from a placeholder: %v", x, err)
	c.Check(len(made) == 1, "factory-type", "a controller was constructed")
	// a failure
	failErr = errors.New("cannot construct")
	_, err = fac.Construct(ctx, conf, controller.ConstructOpts{Logger: le})
	c.Check(errors.Is(err, failErr), "factory", "Construct fails with %v, not %v", err, failErr)
	failErr = nil

	// the factory is used by the loader
	sr.AddFactory(fac)
	n0 := len(made)
	c.Wait()
	val, _, ref, err := loader.WaitExecControllerRunning(ctx, b, resolver.NewLoadControllerWithConfig(conf), nil)
	if c.Check(err == nil && len(made) == n0+1 && val == controller.Controller(made[n0]), "loaded", "loaded %v (%d): %v", val, len(made)-n0, err) {
		check(made[n0], nil)
	}

	// a controller made of functions
	ca := &calls{}
	var exec func(context.Context) error
	var hd directive.HandlerFunc
	var cf func() error
	closeErr := errors.New("close error")
	if c.P(80) {
		m := []string{"block", "return"}[c.Int(2)]
		exec = func(ctx context.Context) error { return runExec(c, ca, m, ctx) }
	}
	if c.P(80) {
		hd = func(ctx context.Context, di directive.Instance) ([]directive.Resolver, error) {
			return handleDir(c, ca, di)
		}
	}
	if c.P(80) {
		cf = func() error {
			ca.cl++
			return closeErr
		}
	}
	info := controller.NewInfo(id+"-cb", ver, descr)
	cc := callback.NewCallbackController(info, exec, hd, cf)
	infoIs(c, cc, id+"-cb", ver.String(), descr)
	c.Check(cc.GetControllerID() == id+"-cb", "info", "GetControllerID is %q", cc.GetControllerID())

	// a directive before, one after
	var refs []directive.Reference
	type dirOf struct {
		di   directive.Instance
		vals []any
	}
	var dirs []*dirOf
	addDir := func() {
		d := &dirOf{}
		di, r, err := b.AddDirective(&bw.D{Key: fmt.Sprint(len(dirs))}, directive.NewTypedCallbackHandler(func(v directive.TypedAttachedValue[*dv]) {
			d.vals = append(d.vals, v.GetValue())
		}, func(v directive.TypedAttachedValue[*dv]) {
			for i, x := range d.vals {
				if x == v.GetValue() {
					d.vals = append(d.vals[:i:i], d.vals[i+1:]...)
					break
				}
			}
		}, nil, nil))
		if !c.Check(err == nil, "add-directive", "%v", err) {
			c.Abort()
		}
		d.di = di
		dirs = append(dirs, d)
		refs = append(refs, r)
	}
	settled := func(attached bool) {
		c.Wait()
		for _, d := range dirs {
			want := 0
			if attached && hd != nil {
				want++
			}
			if len(made) > n0 && made[n0].ca.cl == 0 {
				want++
			}
			for _, v := range d.vals {
				c.Check(v.(*dv).di == d.di, "value", "a value of another directive")
			}
			c.Check(len(d.vals) == want, "served", "the directive has %d values, not %d", len(d.vals), want)
		}
	}
	n1, n2 := 1+c.Int(3), 1+c.Int(3)
	c.Ev("config", "exec %v handler %v close %v, %s, %d+%d directives, version %v", exec != nil, hd != nil, cf != nil, mode, n1, n2, len(ver.Pre))
	for i := 0; i < n1; i++ {
		addDir()
	}
	settled(false)
	rel, err := b.AddController(ctx, cc, nil)
	if c.Check(err == nil && rel != nil, "add-controller", "%v", err) {
		settled(true)
		for i := 0; i < n2; i++ {
			addDir()
		}
		settled(true)
		c.Check((exec != nil && ca.exec == 1) || (exec == nil && ca.exec == 0), "executed", "executed %d times", ca.exec)
		n := 0
		for _, x := range b.GetControllers() {
			if x == controller.Controller(cc) {
				n++
			}
		}
		c.Check(n == 1, "listed", "listed %d times", n)
		for di, n := range ca.offers {
			c.Check(n == 1, "offered", "offered %d times: %v", n, di.GetDirectiveIdent())
		}
		if hd != nil {
			c.Check(len(ca.offers) == len(dirs), "offered", "offered %d of %d directives", len(ca.offers), len(dirs))
		}
		rel()
		settled(false)
		c.Check(exec == nil || ca.ctx.Err() != nil, "executed", "the context is not cancelled")
		c.Check(!ca.running, "executed", "still executing")
	}
	err = cc.Close()
	if cf != nil {
		c.Check(err == closeErr && ca.cl == 1, "closed", "Close returns %v, called %d times", err, ca.cl)
	} else {
		c.Check(err == nil, "closed", "Close returns %v", err)
	}
	if ref != nil {
		ref.Release()
	}
	c.Wait()
	for i, m := range made {
		want := 1
		if i < n0 {
			want = 0
		}
		c.Check(m.ca.exec == want && m.ca.cl == want && !m.ca.running && !m.ca.closedRunning, "loaded-end", "controller %d was executed %d times, closed %d times (%v)", i, m.ca.exec, m.ca.cl, m.ca.closedRunning)
	}
	for _, r := range refs {
		r.Release()
	}
	cancel()
	c.Wait()
}

// wrongConf has the id of another config type.
type wrongConf struct{ tconf }

// --- codec ---

// ndir is a directive which can be sent.
type ndir struct {
	*configset_proto.ControllerConfig
}

func (d *ndir) Validate() error                         { return nil }
func (d *ndir) GetValueOptions() directive.ValueOptions { return directive.ValueOptions{} }
func (d *ndir) GetName() string                         { return "ndir" }
func (d *ndir) GetNetworkedCodec() directive.NetworkedCodec {
	return directive_proto.GetProtobufCodec()
}

// plain is a directive which is no message.
type plain struct{ bw.D }

func (d *plain) GetNetworkedCodec() directive.NetworkedCodec {
	return directive_proto.GetProtobufCodec()
}

func runCodec(c *h.C) {
	rb := func(n int) []byte {
		b := make([]byte, c.Int(n))
		_, _ = c.R.Read(b)
		return b
	}
	d := &ndir{&configset_proto.ControllerConfig{Id: fmt.Sprintf("%x", rb(20)), Rev: uint64(c.R.Int63()) >> uint(c.Int(63)), Config: rb(100)}}
	if c.P(10) {
		d.ControllerConfig = &configset_proto.ControllerConfig{}
	}
	codec := d.GetNetworkedCodec()
	c.Check(codec == directive_proto.GetProtobufCodec(), "codec", "two codecs")
	data, err := codec.Marshal(d)
	if !c.Check(err == nil, "codec", "Marshal: %v", err) {
		return
	}
	exp, err := d.ControllerConfig.MarshalVT()
	c.Check(err == nil && bytes.Equal(exp, data), "codec", "Marshal: %x, not %x", data, exp)
	o := &ndir{&configset_proto.ControllerConfig{}}
	err = codec.Unmarshal(data, o)
	c.Check(err == nil && o.EqualVT(d.ControllerConfig), "codec", "decoded %v from %v: %v", o, d, err)
	c.Ev("codec", "%d", len(data))
	// malformed
	if len(data) > 0 {
		for k := 0; k < 5; k++ {
			bad := append([]byte(nil), data...)
			if c.P(50) {
				bad = bad[:c.Int(len(bad))]
			} else {
				bad[c.Int(len(bad))] ^= byte(1 << c.Int(8))
			}
			o1, o2 := &ndir{&configset_proto.ControllerConfig{}}, &configset_proto.ControllerConfig{}
			e1, e2 := codec.Unmarshal(bad, o1), o2.UnmarshalVT(bad)
			c.Check((e1 == nil) == (e2 == nil) && (e1 != nil || o1.EqualVT(o2)), "codec-malformed", "%x: %v %v", bad, e1, e2)
			c.Ev("codec-malformed", "%v", e1 != nil)
		}
	}
	p := &plain{}
	_, err = codec.Marshal(p)
	c.Check(err == directive_proto.ErrNotProtobuf, "codec-type", "Marshal of a directive which is no message: %v", err)
	err = codec.Unmarshal(data, p)
	c.Check(err == directive_proto.ErrNotProtobuf, "codec-type", "Unmarshal of a directive which is no message: %v", err)
	data, err = codec.Marshal(nil)
	c.Check(err == nil && len(data) == 0, "codec-nil", "Marshal(nil): %x %v", data, err)
	c.Check(codec.Unmarshal(data, nil) == nil, "codec-nil", "Unmarshal of nil fails")
}

func TestCheck(t *testing.T) {
	h.Run(t, []h.Scenario{
		{Name: "handlers", Quick: 12000, Thorough: 300000, Fn: runHandlers},
		{Name: "controllers", Quick: 4000, Thorough: 100000, Fn: runControllers},
		{Name: "idle", Quick: 6000, Thorough: 100000, Fn: runIdle},
		{Name: "lists", Quick: 4000, Thorough: 60000, Fn: runLists},
		{Name: "builtins", Quick: 2000, Thorough: 30000, Fn: runBuiltins},
		{Name: "codec", Quick: 4000, Thorough: 60000, Fn: runCodec},
	})
}
