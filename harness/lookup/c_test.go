// Package lookup checks config, factory and controller lookups (C17).
package lookup

import (
	"context"
	"errors"
	"fmt"
	"slices"
	"sync"
	"testing"
	"time"

	"github.com/aperturerobotics/controllerbus/bus"
	"github.com/aperturerobotics/controllerbus/config"
	"github.com/aperturerobotics/controllerbus/controller"
	"github.com/aperturerobotics/controllerbus/controller/loader"
	"github.com/aperturerobotics/controllerbus/controller/resolver"
	"github.com/aperturerobotics/controllerbus/controller/resolver/static"
	"github.com/aperturerobotics/controllerbus/core"
	"github.com/aperturerobotics/controllerbus/directive"
	cbackoff "github.com/aperturerobotics/util/backoff/cbackoff"
	"github.com/blang/semver/v4"
	"github.com/sirupsen/logrus"

	"verifharness/bw"
	"verifharness/h"
	"verifharness/sc"
)

var versions = []string{"0.0.1", "0.0.2", "0.1.0", "1.0.0-alpha", "1.0.0-beta.2", "1.0.0-beta.11", "1.0.0", "1.9.0", "1.10.0", "2.0.0", "2.0.0+build1", "10.0.0"}

var ids = []string{"test/a", "test/b", "test", "test/a/b"}

// ---- the static resolver alone

// lookupStatic checks every lookup of sr against the registrations done (sure) and started (maybe).
func lookupStatic(c *h.C, sr *static.Resolver, id string, sure, maybe []*sc.Fac, snap func() []*sc.Fac) {
	f, err := sr.GetFactoryMatchingConfig(context.Background(), &sc.Conf{ID: id})
	c.Check(err == nil, "static-err", "lookup of %s failed: %v", id, err)
	judge(c, "factory", id, f, sure, snap())
	ctor, err := sr.GetConfigCtorByID(context.Background(), id)
	c.Check(err == nil, "static-err", "lookup of %s failed: %v", id, err)
	any := false
	for _, x := range sure {
		any = any || x.ID == id
	}
	if ctor == nil {
		c.Check(!any, "ctor-missing", "no constructor found for %s", id)
	} else {
		c.Check(ctor.GetConfigID() == id, "ctor-id", "the constructor found for %s is of %s", id, ctor.GetConfigID())
		cc := ctor.ConstructConfig()
		c.Check(cc != nil && cc.GetConfigID() == id, "ctor-id", "the constructor found for %s constructs %v", id, cc)
	}
	seen := map[string]bool{}
	last := ""
	for _, f := range sr.GetFactories() {
		cid := f.GetConfigID()
		c.Check(!seen[cid], "list-twice", "%s is listed twice", cid)
		c.Check(last <= cid, "list-order", "%s is listed after %s", cid, last)
		seen[cid], last = true, cid
		judge(c, "listed", cid, f, sure, snap())
	}
	for _, x := range sure {
		c.Check(seen[x.ID], "list-missing", "%s is not listed", x.ID)
	}
	c.Ev("static-lookup", "%s", id)
}

// judge checks a looked up factory.
func judge(c *h.C, what, id string, f controller.Factory, sure, maybe []*sc.Fac) {
	var min *sc.Fac
	for _, x := range sure {
		if x.ID == id && (min == nil || x.Ver.GT(min.Ver)) {
			min = x
		}
	}
	if f == nil {
		c.Check(min == nil, what+"-missing", "no factory found for %s", id)
		return
	}
	sf, ok := f.(*sc.Fac)
	known := false
	for _, x := range maybe {
		known = known || ok && x == sf
	}
	if !c.Check(known, what+"-unknown", "lookup of %s returned an unknown factory %v", id, f) {
		return
	}
	c.Check(sf.ID == id, what+"-id", "lookup of %s returned the factory of %s", id, sf.ID)
	c.Check(min == nil || sf.Ver.GTE(min.Ver), what+"-version", "lookup of %s returned version %s, %s is registered", id, sf.Ver, min)
}

func newFac(c *h.C, e *sc.Env, n int) *sc.Fac {
	return &sc.Fac{E: e, ID: ids[c.Int(len(ids))], Ver: semver.MustParse(versions[c.Int(len(versions))]), Tag: fmt.Sprint("f", n)}
}

func staticSeq(c *h.C) {
	e := &sc.Env{C: c, Rnd: c.NewRand()}
	var all []*sc.Fac
	var init []controller.Factory
	for i := 0; i < c.Int(4); i++ {
		f := newFac(c, e, len(all))
		all = append(all, f)
		init = append(init, f)
	}
	sr := static.NewResolver(init...)
	for i := 0; i < 25 && !c.Failed(); i++ {
		if c.P(40) {
			f := newFac(c, e, len(all))
			c.Ev("register", "%s %s", f.ID, f.Ver)
			sr.AddFactory(f)
			all = append(all, f)
		} else {
			lookupStatic(c, sr, ids[c.Int(len(ids))], all, all, func() []*sc.Fac { return all })
		}
	}
	for _, id := range ids {
		lookupStatic(c, sr, id, all, all, func() []*sc.Fac { return all })
	}
}

func staticConc(c *h.C) {
	e := &sc.Env{C: c, Rnd: c.NewRand()}
	sr := static.NewResolver()
	var mu sync.Mutex
	var started, done []*sc.Fac
	snap := func(l *[]*sc.Fac) []*sc.Fac {
		mu.Lock()
		defer mu.Unlock()
		return append([]*sc.Fac(nil), *l...)
	}
	var wg sync.WaitGroup
	for g := 0; g < 2+c.Int(2); g++ {
		var fs []*sc.Fac
		for i := 0; i < 1+c.Int(12); i++ {
			fs = append(fs, newFac(c, e, i))
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, f := range fs {
				mu.Lock()
				started = append(started, f)
				mu.Unlock()
				c.Ev("register", "%s %s", f.ID, f.Ver)
				sr.AddFactory(f)
				mu.Lock()
				done = append(done, f)
				mu.Unlock()
			}
		}()
	}
	for g := 0; g < 2+c.Int(2); g++ {
		var look []string
		for i := 0; i < 1+c.Int(10); i++ {
			look = append(look, ids[c.Int(len(ids))])
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, id := range look {
				sure := snap(&done)
				lookupStatic(c, sr, id, sure, nil, func() []*sc.Fac { return snap(&started) })
			}
		}()
	}
	wg.Wait()
	for _, id := range ids {
		lookupStatic(c, sr, id, done, done, func() []*sc.Fac { return started })
	}
}

// ---- the bus factory

type otherConf struct{ sc.Conf }

func busFactory(c *h.C) {
	w := bw.New(c)
	type ctrl struct{ controller.Controller }
	id := ids[c.Int(len(ids))]
	ver := semver.MustParse(versions[c.Int(len(versions))])
	var gotLe *logrus.Entry
	var gotB bus.Bus
	var gotC *sc.Conf
	fail := c.P(30)
	ferr := errors.New("fail")
	ret := &ctrl{}
	calls := 0
	f := bus.NewBusFactory(w.B, id, ver, func() *sc.Conf { return &sc.Conf{ID: id} },
		func(le *logrus.Entry, b bus.Bus, conf *sc.Conf) (controller.Controller, error) {
			calls++
			gotLe, gotB, gotC = le, b, conf
			if fail {
				return nil, ferr
			}
			return ret, nil
		})
	c.Check(f.GetConfigID() == id && f.GetVersion().EQ(ver), "busfac-id", "factory %s %s, want %s %s", f.GetConfigID(), f.GetVersion(), id, ver)
	a, b := f.ConstructConfig(), f.ConstructConfig()
	c.Check(a.GetConfigID() == id && a != b, "busfac-config", "constructed config %v %v", a, b)
	var conf config.Config = &sc.Conf{ID: id, N: int64(c.Int(100))}
	wrong := c.Int(3)
	switch wrong {
	case 1:
		conf = &otherConf{sc.Conf{ID: id}}
	case 2:
		conf = &otherConf{sc.Conf{ID: "other"}}
	}
	c.Ev("busfac", "%d %v", wrong, fail)
	got, err := f.Construct(context.Background(), conf, controller.ConstructOpts{Logger: c.Le})
	switch {
	case wrong != 0:
		c.Check(err != nil && calls == 0 && got == nil, "busfac-wrong", "constructing with %T: %v, %d calls", conf, err, calls)
	case fail:
		c.Check(err == ferr && calls == 1, "busfac-error", "constructing: %v, want %v", err, ferr)
	default:
		c.Check(err == nil && got == controller.Controller(ret) && calls == 1, "busfac-construct", "constructing: %v %v", got, err)
		c.Check(gotLe == c.Le && gotB == w.B && config.Config(gotC) == conf, "busfac-args", "constructor got %v %v %v", gotLe, gotB, gotC)
	}
	w.Cancel()
}

// ---- lookups on a bus

// res is a resolver controller on the bus.
type res struct {
	t    *tb
	n    int
	sr   *static.Resolver
	facs []*sc.Fac
	rel  func()
	gen  int
	errP int
	slow bool
}

func (r *res) GetResolverID() string              { return fmt.Sprint("res", r.n) }
func (r *res) GetResolverVersion() semver.Version { return static.Version }

func (r *res) pause(ctx context.Context) error {
	rnd := r.t.e.Rnd
	if r.slow && rnd.Int(2) == 0 {
		select {
		case <-time.After(time.Duration(rnd.Int(20)) * time.Millisecond):
		case <-ctx.Done():
			return ctx.Err()
		}
	}
	if rnd.Int(100) < r.errP {
		return r.t.e.NewErr("lookup")
	}
	return nil
}

func (r *res) GetConfigCtorByID(ctx context.Context, id string) (config.Constructor, error) {
	r.t.mu.Lock()
	r.t.asks = append(r.t.asks, ask{r, r.gen, nil, id})
	r.t.mu.Unlock()
	if err := r.pause(ctx); err != nil {
		return nil, err
	}
	r.t.mu.Lock()
	defer r.t.mu.Unlock()
	ctor, err := r.sr.GetConfigCtorByID(ctx, id)
	r.t.ctors = append(r.t.ctors, ctorLookup{r, r.gen, id, ctor != nil})
	return ctor, err
}

func (r *res) GetFactoryMatchingConfig(ctx context.Context, conf config.Config) (controller.Factory, error) {
	cf := conf.(*sc.Conf)
	r.t.mu.Lock()
	gen := r.gen
	r.t.asks = append(r.t.asks, ask{r, gen, cf, ""})
	r.t.mu.Unlock()
	if err := r.pause(ctx); err != nil {
		r.t.mu.Lock()
		r.t.lookups = append(r.t.lookups, lookup{r, gen, cf, nil, err, time.Now()})
		r.t.mu.Unlock()
		return nil, err
	}
	r.t.mu.Lock()
	defer r.t.mu.Unlock()
	f, err := r.sr.GetFactoryMatchingConfig(ctx, conf)
	judge(r.t.c, "factory", cf.ID, f, r.facs, r.facs)
	var sf *sc.Fac
	if f != nil {
		sf = f.(*sc.Fac)
	}
	r.t.lookups = append(r.t.lookups, lookup{r, gen, cf, sf, err, time.Now()})
	return f, err
}

type lookup struct {
	r    *res
	gen  int
	conf *sc.Conf
	f    *sc.Fac
	err  error
	at   time.Time
}

type ctorLookup struct {
	r     *res
	gen   int
	id    string
	found bool
}

// ask is what a resolver was asked for.
type ask struct {
	r    *res
	gen  int
	conf *sc.Conf // nil for constructors
	id   string
}

// req is a live directive of one of the kinds.
type req struct {
	kind string // load, factory, ctor
	conf *sc.Conf
	id   string
	inst directive.Instance
	refs []directive.Reference
	view map[uint32]any
	from int // lookups
	cfrm int // ctor lookups
	afrm int // asks
	// pre: the directive was there before, made by a resolver
	pre bool
	// changed: a resolver was removed meanwhile
	changed bool
	bo      bool
	boN     int
	failed  []*sc.Ctrl
	ended   bool
	at      int
}

type tb struct {
	c       *h.C
	w       *bw.W
	e       *sc.Env
	mu      sync.Mutex
	rs      []*res
	lookups []lookup
	ctors   []ctorLookup
	asks    []ask
	reqs    []*req
	nfac    int
	clock   int
}

func (t *tb) addRes(r *res) {
	t.mu.Lock()
	r.gen++
	t.mu.Unlock()
	rc := resolver.NewController(t.c.Le, t.w.B, r)
	rel, err := t.w.B.AddController(t.w.Ctx, rc, nil)
	t.c.Check(err == nil, "add-resolver", "%v", err)
	closeIt := t.c.P(50)
	r.rel = func() {
		rel()
		if closeIt {
			rc.Close()
		}
	}
	t.c.Ev("res-add", "%d", r.n)
}

func (t *tb) register(r *res) {
	f := newFac(t.c, t.e, t.nfac)
	t.nfac++
	t.c.Ev("register", "%d %s %s", r.n, f.ID, f.Ver)
	t.mu.Lock()
	r.sr.AddFactory(f)
	r.facs = append(r.facs, f)
	t.mu.Unlock()
}

func (t *tb) onReturn(ct *sc.Ctrl, err error, cancelled bool) {
	if cancelled || err == nil {
		return
	}
	t.mu.Lock()
	if q, ok := ct.Conf.Obj.(*req); ok {
		q.failed = append(q.failed, ct)
	}
	t.mu.Unlock()
}

func (t *tb) onExecute(ct *sc.Ctrl, n int) sc.Step {
	st := sc.Step{Delay: -1}
	switch x := t.e.Rnd.Int(10); {
	case x < 5:
	case x < 6:
		st.Delay = 0
	default:
		st.Delay = time.Duration(1+t.e.Rnd.Int(2000)) * time.Millisecond
	}
	st.End = []string{"nil", "nil", "err", "err", "panic"}[t.e.Rnd.Int(5)]
	st.NilOnCancel = t.e.Rnd.Int(4) == 0
	return st
}

type bo struct {
	t *tb
	q *req
}

func (b *bo) Reset() {}
func (b *bo) NextBackOff() time.Duration {
	b.t.mu.Lock()
	defer b.t.mu.Unlock()
	b.q.boN++
	b.t.c.Ev("bo", "%s", b.q.conf)
	return time.Duration(1+b.t.e.Rnd.Int(500)) * time.Millisecond
}

func (t *tb) live(q *req) bool { return !q.ended && q.inst.GetContext().Err() == nil }

func (t *tb) opAdd() {
	c := t.c
	q := &req{view: map[uint32]any{}}
	q.id = ids[c.Int(len(ids))]
	if c.P(10) {
		q.id = "unknown"
	}
	q.conf = &sc.Conf{ID: q.id, N: int64(c.Int(2)), Obj: q}
	var dir directive.Directive
	switch c.Int(5) {
	case 0:
		q.kind = "factory"
		dir = resolver.NewLoadFactoryByConfig(q.conf)
	case 1:
		q.kind = "ctor"
		dir = resolver.NewLoadConfigConstructorByID(q.id)
	default:
		q.kind = "load"
		if c.P(50) {
			dir = resolver.NewLoadControllerWithConfig(q.conf)
		} else {
			q.bo = true
			dir = resolver.NewLoadControllerWithConfigAndOpts(q.conf, directive.ValueOptions{}, func() cbackoff.BackOff { return &bo{t, q} })
		}
	}
	c.Wait()
	t.mu.Lock()
	q.from, q.cfrm, q.afrm = len(t.lookups), len(t.ctors), len(t.asks)
	t.mu.Unlock()
	var old *req
	for _, o := range t.reqs {
		if o.kind != q.kind || !t.live(o) {
			continue
		}
		if q.kind == "ctor" && o.id == q.id || q.kind != "ctor" && o.conf.EqualsConfig(q.conf) {
			old = o
		}
	}
	var hd directive.ReferenceHandler
	if old == nil {
		hd = bus.NewCallbackHandler(func(av directive.AttachedValue) {
			t.mu.Lock()
			q.view[av.GetValueID()] = av.GetValue()
			t.mu.Unlock()
		}, func(av directive.AttachedValue) {
			t.mu.Lock()
			delete(q.view, av.GetValueID())
			t.mu.Unlock()
		}, nil)
	}
	c.Ev("req-"+q.kind, "%s joins=%v", q.conf, old != nil)
	before := t.w.B.GetDirectives()
	inst, ref, err := t.w.B.AddDirective(dir, nil)
	if !c.Check(err == nil, "add-directive", "%v", err) {
		c.Abort()
	}
	q.pre = slices.Contains(before, inst)
	if old != nil {
		c.Check(inst == old.inst, "not-shared", "an equal %s request for %s got another instance", q.kind, q.conf)
		old.refs = append(old.refs, ref)
		return
	}
	for _, o := range t.reqs {
		// (a factory lookup may have been made by a resolver)
		c.Check(o.ended || o.inst != inst, "shared", "different requests share the instance of %s", o.conf)
	}
	q.inst = inst
	inst.AddReference(hd, true)
	q.refs = append(q.refs, ref)
	t.reqs = append(t.reqs, q)
}

func (t *tb) attached(r *res, gen int) bool { return r.rel != nil && r.gen == gen }

func (t *tb) check() {
	t.c.Ev("settled", "")
	listed := map[controller.Controller]int{}
	for _, x := range t.w.B.GetControllers() {
		listed[x]++
	}
	t.mu.Lock()
	defer t.mu.Unlock()
	for _, q := range t.reqs {
		if q.ended {
			continue
		}
		if len(q.refs) == 0 {
			if t.live(q) {
				continue // grace period
			}
			q.ended = true
			continue
		}
		if !t.c.Check(t.live(q), "request-lost", "the %s request for %s ended", q.kind, q.conf) {
			continue
		}
		t.checkAsked(q)
		switch q.kind {
		case "ctor":
			t.checkCtor(q)
		case "factory":
			t.checkFactory(q)
		default:
			t.checkLoad(q, listed)
		}
	}
	t.e.Mu.Lock()
	for _, ct := range t.e.All {
		// is there a live request for the config?
		any := false
		for _, q := range t.reqs {
			any = any || q.kind == "load" && !q.ended && q.conf.EqualsConfig(ct.Conf)
		}
		if !any {
			t.c.Check(ct.Closed == 1 && !ct.Running && listed[ct] == 0, "left", "%s is left without a request: closed %d running %v listed %d", ct.Name(), ct.Closed, ct.Running, listed[ct])
		}
		if ct.Closed > 0 {
			t.c.Check(listed[ct] == 0, "listed-closed", "%s is closed and listed", ct.Name())
		}
	}
	t.e.Mu.Unlock()
}

// judgeOne checks the single value of a lookup directive.
func (t *tb) judgeOne(q *req, found []*res, all int) {
	switch {
	case len(q.view) > 1:
		t.c.Fail("too-many", "the %s lookup of %s has %d values", q.kind, q.id, len(q.view))
	case len(q.view) == 1:
		t.c.Check(all > 0, "found-none", "the %s lookup of %s has a value although nothing is registered", q.kind, q.id)
	case len(found) > 0 && !q.changed:
		t.c.Fail("not-found", "the %s lookup of %s has no value although it is registered", q.kind, q.id)
	}
	if len(q.view) == 1 && len(found) == 0 {
		t.c.Fail("found-removed", "the %s lookup of %s has a value although the resolvers having it are removed", q.kind, q.id)
	}
}

func (t *tb) checkCtor(q *req) {
	var found []*res
	all := 0
	for _, l := range t.ctors[q.cfrm:] {
		if l.id == q.id && l.found {
			all++
			if t.attached(l.r, l.gen) {
				found = append(found, l.r)
			}
		}
	}
	t.judgeOne(q, found, all)
	for _, v := range q.view {
		ct, ok := v.(resolver.LoadConfigConstructorByIDValue)
		t.c.Check(ok && ct.GetConfigID() == q.id && ct.ConstructConfig().GetConfigID() == q.id, "ctor-value", "constructor lookup of %s has the value %v", q.id, v)
	}
	t.c.Ev("ctor-ok", "%d", len(q.view))
}

// checkAsked checks that every resolver was asked for what has no value.
func (t *tb) checkAsked(q *req) {
	if len(q.view) > 0 || q.pre {
		return
	}
	for _, r := range t.rs {
		if r.rel == nil {
			continue
		}
		asked := false
		for _, a := range t.asks[q.afrm:] {
			asked = asked || a.r == r && a.gen == r.gen && (q.kind == "ctor" && a.conf == nil && a.id == q.id || q.kind != "ctor" && a.conf == q.conf)
		}
		t.c.Ev("asked", "%s %v", q.kind, asked)
		t.c.Check(asked, "not-asked", "%s was not asked for the %s of %s, which has no value", r.GetResolverID(), q.kind, q.conf)
	}
}

func (t *tb) checkFactory(q *req) {
	var found []*res
	all := 0
	facs := map[*sc.Fac]bool{}
	for _, l := range t.lookups[q.from:] {
		if l.conf.EqualsConfig(q.conf) && l.f != nil {
			all++
			if t.attached(l.r, l.gen) {
				found = append(found, l.r)
				facs[l.f] = true
			}
		}
	}
	// a factory directive of a resolver may have been there before
	if q.from > 0 {
		for _, l := range t.lookups[:q.from] {
			if l.conf.EqualsConfig(q.conf) && l.f != nil {
				all++
				if t.attached(l.r, l.gen) {
					facs[l.f] = true
					if len(q.view) > 0 {
						found = append(found, l.r)
					}
				}
			}
		}
	}
	// not judged if the lookup was made for a controller only
	for _, l := range t.lookups[q.from:] {
		if l.conf != q.conf {
			q.changed = true
		}
	}
	t.judgeOne(q, found, all)
	for _, v := range q.view {
		f, ok := v.(*sc.Fac)
		t.c.Check(ok && f.ID == q.id && facs[f], "factory-value", "factory lookup of %s has the value %v", q.id, v)
	}
	t.c.Ev("factory-ok", "%d", len(q.view))
}

func (t *tb) checkLoad(q *req, listed map[controller.Controller]int) {
	// direct: the lowest version found by resolvers which always found one.
	direct := map[*res]*sc.Fac{}
	none, bad := map[*res]bool{}, map[*res]bool{}
	var max *sc.Fac
	mixed := false
	anyFound := false
	for i, l := range t.lookups {
		if !l.conf.EqualsConfig(q.conf) {
			continue
		}
		if l.f != nil {
			anyFound = true
			if max != nil && !max.Ver.EQ(l.f.Ver) {
				mixed = true
			}
			if max == nil || l.f.Ver.GT(max.Ver) {
				max = l.f
			}
		}
		if i < q.from || l.conf != q.conf || !t.attached(l.r, l.gen) {
			continue
		}
		if l.f == nil {
			bad[l.r] = true
			if l.err == nil {
				none[l.r] = true
			}
		} else if o := direct[l.r]; o == nil || l.f.Ver.LT(o.Ver) {
			direct[l.r] = l.f
		}
	}
	var min *sc.Fac
	for r, f := range direct {
		if bad[r] {
			delete(direct, r)
		} else if min == nil || f.Ver.GT(min.Ver) {
			min = f
		}
	}
	var cur []*sc.Ctrl
	t.e.Mu.Lock()
	for _, ct := range t.e.All {
		if ct.Conf.EqualsConfig(q.conf) && ct.Closed == 0 {
			cur = append(cur, ct)
		}
	}
	t.e.Mu.Unlock()
	t.c.Check(len(cur) <= 1, "two-controllers", "%d controllers are loaded for %s", len(cur), q.conf)
	t.c.Ev(fmt.Sprintf("load-%d-%d-%v", len(direct), len(none), len(cur)), "")
	natt := 0
	for _, r := range t.rs {
		if r.rel != nil {
			natt++
		}
	}
	t.c.Check(len(q.view) <= natt, "values", "%s has %d values with %d resolvers", q.conf, len(q.view), natt)
	if !anyFound {
		t.c.Check(len(cur) == 0 && len(q.view) == 0, "found-none", "%s is loaded although no factory is registered", q.conf)
	}
	if len(direct) == 0 && len(none) == 0 && len(bad) == 0 {
		t.c.Check(len(cur) == 0 && len(q.view) == 0, "left", "%s is loaded although the resolvers having the factory are removed: %d controllers, %d values", q.conf, len(cur), len(q.view))
	}
	if len(direct) > 0 && !(mixed && q.changed) {
		if t.c.Check(len(cur) == 1, "not-loaded", "%s is not loaded", q.conf) {
			ct := cur[0]
			if !q.changed {
				t.c.Check(ct.Fac.Ver.GTE(min.Ver) && ct.Fac.Ver.LTE(max.Ver), "version", "%s is loaded with version %s, not %s", q.conf, ct.Fac.Ver, min.Ver)
			}
			nc := 0
			for _, d := range direct {
				if d.Ver.EQ(ct.Fac.Ver) {
					nc++
				}
			}
			if !mixed {
				t.c.Check(len(q.view) >= nc && nc > 0, "values", "%s has %d values from %d resolvers", q.conf, len(q.view), nc)
			} else {
				t.c.Check(len(q.view) >= 1, "values", "%s has no values", q.conf)
			}
			for _, v := range q.view {
				ev, ok := v.(resolver.LoadControllerWithConfigValue)
				if !t.c.Check(ok, "value", "%s has the value %v", q.conf, v) {
					continue
				}
				if ev.GetError() != nil {
					t.c.Check(sc.SameErr(ev.GetError(), ct.LastErr) && ev.GetNextRetryTimestamp().After(time.Now().Add(-time.Millisecond)), "value", "%s: error value %v retry %v, last error %v", q.conf, ev.GetError(), ev.GetNextRetryTimestamp(), ct.LastErr)
				} else {
					t.c.Check(ev.GetController() == controller.Controller(ct) && listed[ct] == 1, "value", "%s: value %v, loaded %s listed %d", q.conf, ev.GetController(), ct.Name(), listed[ct])
				}
			}
		}
	}
	if q.bo {
		for _, ct := range q.failed {
			// (closed: superseded at the moment it failed)
			t.c.Check(q.boN > 0 || ct.Closed > 0, "backoff", "the backoff given for %s is not used although %s failed", q.conf, ct.Name())
		}
	}
	t.c.Check(q.bo || q.boN == 0, "backoff", "the backoff of another request is used for %s", q.conf)
}

func runBus(c *h.C) {
	ctx, cancel := context.WithCancel(context.Background())
	w := &bw.W{C: c, Ctx: ctx, Cancel: cancel}
	t := &tb{c: c, w: w}
	t.e = &sc.Env{C: c, Rnd: c.NewRand(), OnExecute: t.onExecute, OnReturn: t.onReturn}
	nres := 1 + c.Int(3)
	for i := 0; i < nres; i++ {
		r := &res{t: t, n: i}
		if c.P(25) {
			r.errP = 25
		}
		r.slow = c.P(40)
		t.rs = append(t.rs, r)
	}
	r0 := t.rs[0]
	var init []controller.Factory
	for i := 0; i < c.Int(4); i++ {
		f := newFac(c, t.e, t.nfac)
		t.nfac++
		init = append(init, f)
		r0.facs = append(r0.facs, f)
	}
	r0.gen++
	b, sr, err := core.NewCoreBus(ctx, c.Le, nil, core.WithControllerFactories(init...),
		core.WithFactoryResolverCtor(func(b bus.Bus, sr *static.Resolver) (controller.FactoryResolver, error) {
			r0.sr = sr
			return r0, nil
		}))
	if !c.Check(err == nil && sr == r0.sr, "core", "NewCoreBus: %v", err) {
		c.Abort()
	}
	w.B = b
	r0.rel = func() {
		for _, ct := range b.GetControllers() {
			if rc, ok := ct.(*resolver.Controller); ok && rc.GetControllerInfo().GetId() == "controllerbus/resolver/res0" {
				b.RemoveController(ct)
			}
		}
	}
	for _, r := range t.rs[1:] {
		r.sr = static.NewResolver()
		for i := 0; i < c.Int(4); i++ {
			t.register(r)
		}
		if c.P(80) {
			t.addRes(r)
		}
	}
	for step := 0; step < 25 && !c.Failed(); step++ {
		r := t.rs[c.Int(len(t.rs))]
		switch x := c.Int(20); {
		case x < 7:
			t.opAdd()
		case x < 10:
			t.register(r)
		case x < 13:
			if n := len(t.reqs); n > 0 {
				if q := t.reqs[c.Int(n)]; len(q.refs) > 0 {
					i := c.Int(len(q.refs))
					c.Ev("release", "%s %s", q.kind, q.conf)
					q.refs[i].Release()
					q.refs = append(q.refs[:i:i], q.refs[i+1:]...)
				}
			}
		case x < 15 && c.P(50):
			c.Wait()
			if r.rel != nil {
				c.Ev("res-remove", "%d", r.n)
				t.mu.Lock()
				for _, q := range t.reqs {
					q.changed = true
				}
				t.mu.Unlock()
				r.rel()
				r.rel = nil
			} else {
				t.addRes(r)
			}
		case x < 16:
			t.oneOff()
		default:
			time.Sleep(time.Duration(c.Int(700)) * time.Millisecond)
		}
		if c.P(80) {
			time.Sleep(30 * time.Millisecond)
			c.Wait()
			t.check()
		}
	}
	for _, q := range t.reqs {
		for _, x := range q.refs {
			x.Release()
		}
		q.refs = nil
	}
	time.Sleep(time.Second)
	c.Wait()
	t.check()
	c.Check(w.B.GetDirectives() == nil || len(w.B.GetDirectives()) == 0, "leak-ref", "%d directives left", len(w.B.GetDirectives()))
	for _, ct := range t.e.All {
		c.Check(ct.Closed == 1, "not-closed", "%s was closed %d times", ct.Name(), ct.Closed)
	}
	cancel()
	time.Sleep(time.Second)
	c.Wait()
}

// oneOff looks up a factory with a deadline.
func (t *tb) oneOff() {
	c := t.c
	conf := &sc.Conf{ID: ids[c.Int(len(ids))], N: int64(c.Int(2))}
	deadline := time.Now().Add(time.Duration(1+c.Int(300)) * time.Millisecond)
	ctx, cancel := context.WithDeadline(t.w.Ctx, deadline)
	defer cancel()
	t.mu.Lock()
	from := len(t.lookups)
	t.mu.Unlock()
	f, ref, err := resolver.ExLoadFactoryByConfig(ctx, t.w.B, conf)
	c.Ev("oneoff", "%s %v %v", conf, f != nil, err)
	t.mu.Lock()
	var errs []error
	found := map[controller.Factory]bool{}
	direct := false
	for i, l := range t.lookups {
		if l.conf.EqualsConfig(conf) {
			if l.f != nil {
				found[l.f] = true
				direct = direct || i >= from && l.conf == conf && l.at.Before(deadline)
			}
			if l.err != nil {
				errs = append(errs, l.err)
			}
		}
	}
	t.mu.Unlock()
	if err == nil {
		c.Check(f != nil && ref != nil && found[f] && f.GetConfigID() == conf.ID, "oneoff-value", "looking up the factory of %s returned %v", conf, f)
		time.Sleep(time.Duration(c.Int(10)) * time.Millisecond)
		ref.Release()
		return
	}
	c.Check(ref == nil && f == nil, "oneoff-ref", "looking up the factory of %s failed with a result", conf)
	c.Check(ctx.Err() != nil || bw.IsOneOf(err, errs), "oneoff-error", "looking up the factory of %s failed with %v", conf, err)
	c.Check(ctx.Err() == nil || !direct || bw.IsOneOf(err, errs), "oneoff-late", "looking up the factory of %s timed out although it was found", conf)
}

// waitRunning uses the whole stack through WaitExecControllerRunning.
func waitRunning(c *h.C) {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	e := &sc.Env{C: c, Rnd: c.NewRand()}
	e.OnExecute = func(ct *sc.Ctrl, n int) sc.Step { return sc.Step{Delay: -1} }
	var facs []*sc.Fac
	var init []controller.Factory
	for i := 0; i < 1+c.Int(6); i++ {
		f := newFac(c, e, i)
		facs = append(facs, f)
		init = append(init, f)
	}
	b, _, err := core.NewCoreBus(ctx, c.Le, core.WithControllerFactories(init...))
	if !c.Check(err == nil, "core", "NewCoreBus: %v", err) {
		c.Abort()
	}
	type got struct {
		conf *sc.Conf
		ctrl controller.Controller
		ref  directive.Reference
	}
	var res []got
	var mu sync.Mutex
	var wg sync.WaitGroup
	for i := 0; i < 1+c.Int(6); i++ {
		conf := &sc.Conf{ID: facs[c.Int(len(facs))].ID, N: int64(c.Int(2)), S: fmt.Sprint(c.Int(2))}
		wg.Add(1)
		go func() {
			defer wg.Done()
			ctrl, _, ref, err := loader.WaitExecControllerRunning(ctx, b, resolver.NewLoadControllerWithConfig(conf), nil)
			if c.Check(err == nil, "wait", "loading %s: %v", conf, err) {
				mu.Lock()
				res = append(res, got{conf, ctrl, ref})
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	for _, g := range res {
		ct := g.ctrl.(*sc.Ctrl)
		judge(c, "wait", g.conf.ID, ct.Fac, facs, facs)
		c.Check(ct.Conf.EqualsConfig(g.conf), "config", "%s was loaded for %s", ct.Name(), g.conf)
		for _, o := range res {
			c.Check((o.ctrl == g.ctrl) == o.conf.EqualsConfig(g.conf), "share", "the loads of %s and %s share a controller: %v", g.conf, o.conf, o.ctrl == g.ctrl)
		}
		c.Ev("waited", "%s", g.conf)
	}
	for _, g := range res {
		g.ref.Release()
	}
	c.Wait()
	for _, ct := range e.All {
		c.Check(ct.Closed == 1, "not-closed", "%s was closed %d times", ct.Name(), ct.Closed)
	}
	cancel()
	time.Sleep(time.Second)
	c.Wait()
}

func TestCheck(t *testing.T) {
	h.Run(t, []h.Scenario{
		{Name: "static", Quick: 10000, Thorough: 200000, Fn: staticSeq},
		{Name: "staticconc", Quick: 6000, Thorough: 100000, Fn: staticConc, Parallel: true},
		{Name: "busfactory", Quick: 1000, Thorough: 5000, Fn: busFactory},
		{Name: "bus", Quick: 15000, Thorough: 400000, Fn: runBus},
		{Name: "wait", Quick: 5000, Thorough: 100000, Fn: waitRunning},
		{Name: "requests", Quick: 20000, Thorough: 200000, Fn: requests},
	})
}
