// Package plug checks loading and unloading of plugins (C21).
package plug

import (
	"context"
	"fmt"
	"sync"
	"testing"
	"time"

	"github.com/aperturerobotics/controllerbus/bus"
	"github.com/aperturerobotics/controllerbus/controller"
	"github.com/aperturerobotics/controllerbus/controller/configset"
	configset_controller "github.com/aperturerobotics/controllerbus/controller/configset/controller"
	"github.com/aperturerobotics/controllerbus/controller/loader"
	"github.com/aperturerobotics/controllerbus/controller/resolver"
	"github.com/aperturerobotics/controllerbus/core"
	"github.com/aperturerobotics/controllerbus/directive"
	"github.com/aperturerobotics/controllerbus/plugin"
	"github.com/blang/semver/v4"

	"verifharness/bw"
	"verifharness/h"
	"verifharness/sc"
)

// slots are the plugins and the config ids of their factories; "builtin" is no plugin.
var slots = [][]string{{"p/a"}, {"p/b", "p/x"}, {"p/x"}, {"p/c", "p/d"}}

// gen is a plugin which was loaded.
type gen struct {
	slot, n int
	name    string
	facs    []*sc.Fac
	cancel  context.CancelFunc
	res     plugin.PluginResolver
	sp      *plugin.StaticPlugin

	// under tb.mu
	unloading bool // about to be unloaded
	unloaded  bool
	at        time.Time // when it was unloaded
}

// client holds a directive.
type client struct {
	conf *sc.Conf
	ref  directive.Reference
	exec *gen // executes a factory of this directly
	// under tb.mu
	vals map[uint32]any
	idle bool
	errs []error
	set  bool // it applies a config set
}

// owned is the state of a controller which was constructed by a holder.
type owned struct {
	at     time.Time // when it was attached to the bus
	ignore bool      // executed until the holder likes to end it
	ended  bool
}

// held is a factory which somebody keeps.
type held struct {
	f controller.Factory
	g *gen
}

type tb struct {
	c   *h.C
	w   *bw.W
	e   *sc.Env
	rnd *h.LockedRand
	wg  sync.WaitGroup

	mu      sync.Mutex
	gens    []*gen
	facGen  map[*sc.Fac]*gen
	loaded  map[int]*gen
	clients []*client
	svc     *client
	helds   []held
	direct  []*sc.Ctrl
	own     map[*sc.Ctrl]*owned // controllers constructed by a holder: the holder closes them
	busy    map[int]bool
	nconf   int
	ngen    int
	confs   []*sc.Conf
}

func (t *tb) onConstruct(ctx context.Context, f *sc.Fac, conf *sc.Conf) (bool, error) {
	t.mu.Lock()
	g := t.facGen[f]
	// an instance may be about to be constructed at the moment of unloading
	un := g != nil && g.unloaded && time.Since(g.at) > 0
	t.mu.Unlock()
	t.c.Check(!un, "constructed-unloaded", "factory of %s of the unloaded plugin %v constructs %s", f.ID, g, conf)
	switch t.e.Rnd.Int(8) {
	case 0:
		time.Sleep(time.Duration(t.e.Rnd.Int(300)) * time.Millisecond)
	case 1:
		select {
		case <-ctx.Done():
			return true, ctx.Err()
		case <-time.After(time.Duration(t.e.Rnd.Int(300)) * time.Millisecond):
		}
	case 2:
		if t.e.Rnd.Int(3) == 0 {
			return true, t.e.NewErr("construct")
		}
	}
	return true, nil
}

func (t *tb) onExecute(ct *sc.Ctrl, n int) sc.Step {
	st := sc.Step{Delay: -1}
	rnd := t.e.Rnd
	switch x := rnd.Int(10); {
	case x < 5:
	case x < 7:
		st.Delay = 0
		if rnd.Int(2) == 0 {
			st.End = "nil"
			return st
		}
		fallthrough
	default:
		st.Delay = time.Duration(rnd.Int(3000)) * time.Millisecond
	}
	st.End = []string{"nil", "err", "nil", "panic"}[rnd.Int(4)]
	if rnd.Int(5) == 0 {
		st.Slow = time.Duration(rnd.Int(200)) * time.Millisecond
	}
	st.NilOnCancel = rnd.Int(3) == 0
	return st
}

func (g *gen) String() string {
	if g == nil {
		return "builtin"
	}
	return g.name
}

// load loads the plugin of a slot, as the loaders do.
func (t *tb) load(slot int) {
	c := t.c
	t.mu.Lock()
	t.ngen++
	g := &gen{slot: slot, n: t.ngen, name: fmt.Sprintf("plugin%d#%d", slot, t.ngen)}
	for _, id := range slots[slot] {
		f := &sc.Fac{E: t.e, ID: id, Ver: semver.MustParse("1.0.0"), Tag: g.name}
		g.facs = append(g.facs, f)
		t.facGen[f] = g
	}
	t.mu.Unlock()
	g.sp = plugin.NewStaticPlugin(g.name, fmt.Sprintf("v%d", g.n), func(b bus.Bus) []controller.Factory {
		c.Check(b == t.w.B, "plugin-bus", "factories are built for another bus")
		var l []controller.Factory
		for _, f := range g.facs {
			l = append(l, f)
		}
		return l
	})
	c.Check(g.sp.GetBinaryID() == g.name && g.sp.GetBinaryVersion() == fmt.Sprintf("v%d", g.n), "binary", "%s has id %s version %s", g, g.sp.GetBinaryID(), g.sp.GetBinaryVersion())
	var ctx context.Context
	ctx, g.cancel = context.WithCancel(t.w.Ctx)
	var err error
	resCtx := ctx
	if t.rnd.Int(2) == 0 {
		// unloading is only told by PrePluginUnload
		resCtx = t.w.Ctx
	}
	g.res, err = g.sp.NewPluginResolver(resCtx, t.w.B)
	if !c.Check(err == nil, "new-resolver", "%v", err) {
		c.Abort()
	}
	rc := resolver.NewController(c.Le, t.w.B, g.res)
	go func() {
		err := t.w.B.ExecuteController(ctx, rc)
		c.Check(err == nil, "resolver-exec", "%v", err)
		<-ctx.Done()
		if t.rnd.Int(3) == 0 {
			time.Sleep(time.Duration(t.rnd.Int(50)) * time.Millisecond)
		}
		t.w.B.RemoveController(rc)
		_ = rc.Close()
	}()
	t.mu.Lock()
	t.gens = append(t.gens, g)
	t.loaded[slot] = g
	t.mu.Unlock()
	c.Ev("load", "%s", g)
}

// unload unloads a plugin, as the loaders do.
func (t *tb) unload(g *gen) {
	c := t.c
	t.mu.Lock()
	g.unloading = true
	delete(t.loaded, g.slot)
	t.mu.Unlock()
	c.Ev("unload", "%s", g)
	g.cancel()
	if t.rnd.Int(4) == 0 {
		time.Sleep(time.Duration(t.rnd.Int(100)) * time.Millisecond)
	}
	g.res.PrePluginUnload()
	g.sp.PrePluginUnload()
	t.mu.Lock()
	g.unloaded = true
	g.at = time.Now()
	t.mu.Unlock()
	c.Ev("unloaded", "%s", g)
	for _, f := range g.facs {
		t.lookup(g, f.ID)
	}
	if t.rnd.Int(6) == 0 {
		g.res.PrePluginUnload()
	}
}

func (t *tb) genOf(ct *sc.Ctrl) *gen {
	t.mu.Lock()
	defer t.mu.Unlock()
	return t.facGen[ct.Fac]
}

// lookup asks the resolver of a plugin.
func (t *tb) lookup(g *gen, id string) controller.Factory {
	c := t.c
	t.mu.Lock()
	un0 := g.unloaded
	t.mu.Unlock()
	f, err := g.res.GetFactoryMatchingConfig(t.w.Ctx, &sc.Conf{ID: id})
	ctor, cerr := g.res.GetConfigCtorByID(t.w.Ctx, id)
	t.mu.Lock()
	un1 := g.unloading
	t.mu.Unlock()
	has := false
	for _, x := range slots[g.slot] {
		has = has || x == id
	}
	c.Ev("lookup", "%s %s %v %v", g, id, f != nil, err)
	if un0 {
		c.Check(f == nil, "resolves-unloaded", "the unloaded plugin %s resolves the factory of %s", g, id)
		c.Check(ctor == nil, "resolves-unloaded", "the unloaded plugin %s resolves the config of %s", g, id)
	} else if !un1 {
		c.Check(err == nil && cerr == nil && (f != nil) == has && (ctor != nil) == has, "resolve", "plugin %s resolves %s: %v %v %v %v", g, id, f, err, ctor, cerr)
		if f != nil {
			c.Check(f.GetConfigID() == id && f.GetVersion().String() == "1.0.0", "resolve", "factory of %s is %s@%s", id, f.GetConfigID(), f.GetVersion())
		}
	}
	return f
}

// construct uses a factory which was kept.
func (t *tb) construct(x held) {
	c := t.c
	t.mu.Lock()
	un0 := x.g.unloaded
	t.nconf++
	conf := &sc.Conf{ID: x.f.GetConfigID(), N: int64(t.nconf), S: "direct"}
	t.mu.Unlock()
	opts := controller.ConstructOpts{}
	if t.rnd.Int(2) == 0 {
		opts.Logger = c.Le
	}
	ctl, err := x.f.Construct(t.w.Ctx, conf, opts)
	c.Ev("construct-direct", "%s %v %v", x.g, ctl != nil, err)
	if un0 {
		c.Check(err != nil && ctl == nil, "constructs-unloaded", "a factory of the unloaded plugin %s constructs %v, %v", x.g, ctl, err)
	}
	t.mu.Lock()
	late := x.g.unloaded && time.Since(x.g.at) > 0
	t.mu.Unlock()
	c.Check(!late || ctl == nil, "constructs-unloaded", "a factory of %s constructed a controller, the plugin was unloaded meanwhile", x.g)
	if err != nil {
		c.Check(ctl == nil, "constructs-error", "a controller and an error")
		return
	}
	if !c.Check(ctl != nil, "construct-nil", "no controller and no error") {
		return
	}
	ct, ok := ctl.(*sc.Ctrl)
	if !c.Check(ok && t.genOf(ct) == x.g && ct.Conf == conf, "construct-other", "constructed %T", ctl) {
		return
	}
	t.mu.Lock()
	ow := &owned{at: time.Now(), ignore: t.rnd.Int(3) == 0}
	t.own[ct] = ow
	t.mu.Unlock()
	fctx := context.Background()
	if fc, ok := x.f.(controller.FactoryWithContext); ok {
		fctx = fc.GetFactoryContext()
	} else {
		c.Fail("factory-context", "the factory of a plugin has no context")
	}
	// the holder executes it until the plugin is unloaded
	go func() {
		ctx, cancel := context.WithTimeout(t.w.Ctx, time.Duration(t.rnd.Int(20))*time.Second)
		defer cancel()
		if !ow.ignore {
			stop := context.AfterFunc(fctx, cancel)
			defer stop()
		}
		err := t.w.B.ExecuteController(ctx, ct)
		if err == nil {
			<-ctx.Done()
			t.w.B.RemoveController(ct)
		}
		_ = ct.Close()
		t.mu.Lock()
		ow.ended = true
		t.mu.Unlock()
	}()
}

// svc is looked for and provided by the controllers.
type svc struct{}

func (svc) Validate() error                         { return nil }
func (svc) GetValueOptions() directive.ValueOptions { return directive.ValueOptions{} }
func (svc) IsEquivalent(o directive.Directive) bool { _, ok := o.(svc); return ok }
func (svc) GetName() string                         { return "svc" }

// onDirective: the controllers provide themselves.
func (t *tb) onDirective(ctx context.Context, ct *sc.Ctrl, di directive.Instance) ([]directive.Resolver, error) {
	if _, ok := di.GetDirective().(svc); !ok {
		return nil, nil
	}
	return directive.R(directive.NewValueResolver([]*sc.Ctrl{ct}), nil)
}

// cb records the values of a client.
func (t *tb) cb(cl *client) directive.ReferenceHandler {
	poke := func() {
		// callbacks may use the bus and the plugins
		if t.rnd.Int(3) == 0 {
			t.mu.Lock()
			var g *gen
			if len(t.gens) > 0 {
				g = t.gens[t.rnd.Int(len(t.gens))]
			}
			t.mu.Unlock()
			_ = t.w.B.GetControllers()
			if g != nil {
				t.lookup(g, slots[g.slot][0])
			}
		}
	}
	return bus.NewCallbackHandler(func(av directive.AttachedValue) {
		poke()
		t.mu.Lock()
		cl.vals[av.GetValueID()] = av.GetValue()
		t.mu.Unlock()
	}, func(av directive.AttachedValue) {
		poke()
		t.mu.Lock()
		delete(cl.vals, av.GetValueID())
		t.mu.Unlock()
	}, nil)
}

func (t *tb) newConf(id string) *sc.Conf {
	if len(t.confs) > 0 && t.c.P(30) {
		for _, x := range t.confs {
			if x.ID == id {
				return x
			}
		}
	}
	t.mu.Lock()
	t.nconf++
	conf := &sc.Conf{ID: id, N: int64(t.nconf), S: "x"}
	t.mu.Unlock()
	t.confs = append(t.confs, conf)
	return conf
}

func (t *tb) add(cl *client, d directive.Directive) {
	cl.vals = map[uint32]any{}
	di, ref, err := t.w.B.AddDirective(d, t.cb(cl))
	if err == nil {
		di.AddIdleCallback(func(idle bool, errs []error) {
			t.mu.Lock()
			cl.idle, cl.errs = idle, errs
			t.mu.Unlock()
		})
	}
	if t.c.Check(err == nil, "add-directive", "%v", err) {
		cl.ref = ref
		t.mu.Lock()
		t.clients = append(t.clients, cl)
		t.mu.Unlock()
	}
}

// ctrlOf returns the controller and error of a value.
func ctrlOf(v any) (*sc.Ctrl, error) {
	switch x := v.(type) {
	case loader.ExecControllerValue:
		ct, _ := x.GetController().(*sc.Ctrl)
		return ct, x.GetError()
	case configset.State:
		ct, _ := x.GetController().(*sc.Ctrl)
		return ct, x.GetError()
	}
	return nil, nil
}

// check checks the state: everything is settled.
func (t *tb) check() {
	c := t.c
	t.mu.Lock()
	defer t.mu.Unlock()
	t.e.Mu.Lock()
	defer t.e.Mu.Unlock()
	c.Ev("settled", "%d loaded", len(t.loaded))
	live := map[string][]*sc.Ctrl{}
	for _, ct := range t.e.All {
		g := t.facGen[ct.Fac]
		if g != nil && g.unloaded {
			if ow := t.own[ct]; ow != nil && ow.ignore && !ow.ended {
				continue
			}
			c.Ev("stopped", "")
			c.Check(ct.Closed == 1 && !ct.Running, "runs-unloaded", "%s of the unloaded plugin %s: closed %d times, running=%v", ct.Name(), g, ct.Closed, ct.Running)
			continue
		}
		if ct.Closed == 0 && t.own[ct] == nil {
			live[ct.Conf.String()] = append(live[ct.Conf.String()], ct)
		}
	}
	served := map[*sc.Ctrl]bool{}
	for _, v := range t.svc.vals {
		ct := v.(*sc.Ctrl)
		c.Check(!served[ct], "served-twice", "%s serves twice", ct.Name())
		served[ct] = true
	}
	for _, x := range t.w.B.GetControllers() {
		if ct, ok := x.(*sc.Ctrl); ok {
			c.Check(served[ct], "not-served", "%s is attached, it was not asked or its value is missing", ct.Name())
			delete(served, ct)
			c.Ev("serves", "")
			g := t.facGen[ct.Fac]
			if ow := t.own[ct]; ow != nil && g.unloaded && !ow.at.Before(g.at) {
				continue // attached by the holder after the plugin was unloaded
			}
			c.Check(g == nil || !g.unloaded, "attached-unloaded", "%s of the unloaded plugin %s is attached to the bus", ct.Name(), g)
		}
	}
	for ct := range served {
		c.Check(false, "served-removed", "the value of %s which is not attached is still there", ct.Name())
	}
	wanted := map[string]bool{}
	for _, cl := range t.clients {
		key := cl.conf.String()
		if cl.exec != nil {
			for _, v := range cl.vals {
				ct, _ := ctrlOf(v)
				c.Check(ct == nil || !cl.exec.unloaded || t.facGen[ct.Fac] != cl.exec, "value-unloaded", "the client which executes %s of the unloaded plugin %s still has %v", cl.conf, cl.exec, ct)
			}
			if !cl.exec.unloaded {
				wanted[key] = true
			}
			busy := len(cl.vals) == 0
			for _, v := range cl.vals {
				ct, e := ctrlOf(v)
				busy = busy || e != nil || ct != nil && ct.Running
			}
			if !busy {
				c.Ev("exec-done", "")
				c.Check(cl.idle, "exec-idle", "the execution of %s is complete, it is not idle (%v)", cl.conf, cl.errs)
			}
			continue
		}
		var prov []*gen
		for _, g := range t.loaded {
			for _, f := range g.facs {
				if f.ID == cl.conf.ID {
					prov = append(prov, g)
				}
			}
		}
		builtin := cl.conf.ID == "builtin"
		var ctl *sc.Ctrl
		var err error
		for _, v := range cl.vals {
			ct, e := ctrlOf(v)
			if ct != nil {
				g := t.facGen[ct.Fac]
				c.Check(g == nil || !g.unloaded, "value-unloaded", "the client of %s still has %s of the unloaded plugin %s", cl.conf, ct.Name(), g)
				c.Check(ctl == nil || ctl == ct, "value-two", "the client of %s has %s and another controller", cl.conf, ct.Name())
				ctl = ct
			}
			if e != nil {
				err = e
			}
		}
		if builtin || len(prov) > 0 {
			wanted[key] = true
			c.Ev("provided", "")
			l := live[key]
			if len(l) == 0 {
				// it is retried if it could not be constructed
				c.Check(err != nil, "not-running", "%s is provided by %v, but nothing runs (%d values)", cl.conf, prov, len(cl.vals))
				continue
			}
			c.Check(len(l) == 1, "runs-twice", "%s runs %d times", cl.conf, len(l))
			if ct := l[0]; ct.Running || ct.Done {
				c.Check(ctl == ct, "value-missing", "the client of %s does not have %s which runs (%d values, %v)", cl.conf, ct.Name(), len(cl.vals), err)
			} else {
				c.Check(err != nil && sc.SameErr(err, ct.LastErr), "value-error", "the client of %s has error %v, not %v", cl.conf, err, ct.LastErr)
			}
		} else {
			c.Ev("unprovided", "")
			c.Check(ctl == nil && len(live[key]) == 0, "provided-by-nobody", "%s is provided by nobody, the client has %v, %d run", cl.conf, ctl, len(live[key]))
		}
	}
	for key, l := range live {
		c.Check(wanted[key] || len(l) == 0, "runs-unwanted", "%s runs, nobody wants it", l[0].Name())
	}
}

func (t *tb) settle() {
	t.wg.Wait()
	time.Sleep(5 * time.Second)
	t.c.Wait()
	if t.c.Failed() {
		return
	}
	t.check()
}

func runUnload(c *h.C) {
	ctx, cancel := context.WithCancel(context.Background())
	w := &bw.W{C: c, Ctx: ctx, Cancel: cancel}
	t := &tb{c: c, w: w, rnd: c.NewRand(), facGen: map[*sc.Fac]*gen{}, loaded: map[int]*gen{}, own: map[*sc.Ctrl]*owned{}, busy: map[int]bool{}}
	t.e = &sc.Env{C: c, Rnd: c.NewRand(), OnConstruct: t.onConstruct, OnExecute: t.onExecute, OnDirective: t.onDirective}
	b, _, err := core.NewCoreBus(ctx, c.Le, core.WithControllerFactories(&sc.Fac{E: t.e, ID: "builtin", Ver: semver.MustParse("1.0.0"), Tag: "builtin"}))
	if !c.Check(err == nil, "core", "NewCoreBus: %v", err) {
		c.Abort()
	}
	w.B = b
	cs, err := configset_controller.NewController(c.Le, b)
	c.Check(err == nil, "new-controller", "%v", err)
	_, err = b.AddController(ctx, cs, nil)
	c.Check(err == nil, "add-controller", "%v", err)
	time.Sleep(time.Second)
	ncore := len(b.GetControllers())

	t.svc = &client{conf: &sc.Conf{ID: "svc"}, vals: map[uint32]any{}}
	_, svcRef, err := b.AddDirective(svc{}, t.cb(t.svc))
	c.Check(err == nil, "add-directive", "%v", err)

	async := func(name string, f func()) {
		if c.P(50) {
			f()
			return
		}
		t.wg.Add(1)
		d := time.Duration(t.rnd.Int(50)) * time.Millisecond
		if c.P(50) {
			d = 0
		}
		go func() {
			defer t.wg.Done()
			time.Sleep(d)
			f()
		}()
	}
	anyID := func() string {
		if c.P(10) {
			return "builtin"
		}
		s := slots[c.Int(len(slots))]
		return s[c.Int(len(s))]
	}
	for step := 0; step < 24 && !c.Failed(); step++ {
		switch x := c.Int(20); {
		case x < 6:
			// load, unload or reload
			slot := c.Int(len(slots))
			t.mu.Lock()
			g := t.loaded[slot]
			busy := t.busy[slot]
			if !busy {
				t.busy[slot] = true
			}
			t.mu.Unlock()
			if busy {
				break
			}
			reload := c.P(40)
			async("load", func() {
				if g == nil {
					t.load(slot)
				} else {
					t.unload(g)
					if reload {
						if t.rnd.Int(2) == 0 {
							time.Sleep(time.Duration(t.rnd.Int(2000)) * time.Millisecond)
						}
						t.load(slot)
					}
				}
				t.mu.Lock()
				t.busy[slot] = false
				t.mu.Unlock()
			})
		case x < 10:
			conf := t.newConf(anyID())
			if c.P(30) {
				c.Ev("hold-set", "%s", conf)
				t.add(&client{conf: conf, set: true}, configset.NewApplyConfigSet(configset.ConfigSet{"k" + conf.String(): configset.NewControllerConfig(1, conf)}))
				break
			}
			c.Ev("hold", "%s", conf)
			t.add(&client{conf: conf}, resolver.NewLoadControllerWithConfig(conf))
		case x < 12:
			t.mu.Lock()
			var cl *client
			if len(t.clients) > 0 {
				i := c.Int(len(t.clients))
				cl = t.clients[i]
				t.clients = append(t.clients[:i:i], t.clients[i+1:]...)
			}
			t.mu.Unlock()
			if cl != nil {
				c.Ev("release", "%s", cl.conf)
				cl.ref.Release()
			}
		case x < 15:
			// find a factory
			id := anyID()
			if id == "builtin" {
				break
			}
			t.mu.Lock()
			var gs []*gen
			for _, g := range t.gens {
				if len(g.facs) > 0 && (!g.unloading || c.P(20)) {
					gs = append(gs, g)
				}
			}
			t.mu.Unlock()
			if len(gs) == 0 {
				break
			}
			g := gs[c.Int(len(gs))]
			id = slots[g.slot][c.Int(len(slots[g.slot]))]
			if f := t.lookup(g, id); f != nil {
				t.helds = append(t.helds, held{f, g})
				if c.P(30) {
					conf := &sc.Conf{ID: id, N: int64(10000 + len(t.helds)), S: "exec"}
					if c.P(50) {
						conf = t.newConf(id)
					}
					c.Ev("hold-exec", "%s %s", g, conf)
					t.add(&client{conf: conf, exec: g}, loader.NewExecController(f, conf))
				}
			}
		case x < 17:
			if len(t.helds) > 0 {
				hd := t.helds[c.Int(len(t.helds))]
				async("construct", func() { t.construct(hd) })
			}
		case x < 18:
			// look for the factory on the bus
			id := anyID()
			t.mu.Lock()
			prov := map[*gen]bool{}
			for _, g := range t.loaded {
				for _, f := range g.facs {
					if f.ID == id {
						prov[g] = true
					}
				}
			}
			quiet := true
			for _, b := range t.busy {
				quiet = quiet && !b
			}
			t.mu.Unlock()
			if !quiet {
				break
			}
			time.Sleep(200 * time.Millisecond)
			c.Wait()
			cctx, ccancel := context.WithTimeout(ctx, time.Minute)
			f, ref, err := resolver.ExLoadFactoryByConfig(cctx, b, &sc.Conf{ID: id})
			if len(prov) > 0 || id == "builtin" {
				c.Check(err == nil && f != nil && f.GetConfigID() == id, "bus-lookup", "the factory of %s was not found: %v %v", id, f, err)
			} else {
				c.Check(f == nil, "bus-lookup", "the factory of %s which nobody provides was found", id)
			}
			c.Ev("bus-lookup", "%v", f != nil)
			if ref != nil {
				ref.Release()
			}
			ccancel()
		default:
			time.Sleep(time.Duration(c.Int(2500)) * time.Millisecond)
		}
		if c.P(25) {
			t.settle()
		}
	}
	t.settle()
	if !c.Failed() {
		for _, g := range t.gens {
			if !g.unloaded {
				t.unload(g)
			}
		}
		t.settle()
	}
	for _, cl := range t.clients {
		cl.ref.Release()
	}
	t.clients = nil
	svcRef.Release()
	time.Sleep(time.Minute)
	c.Wait()
	for _, ct := range t.e.All {
		c.Check(ct.Closed == 1 && !ct.Running, "left-running", "%s runs although nobody wants it", ct.Name())
	}
	if c.Failed() {
		cancel()
		return
	}
	c.Check(len(b.GetDirectives()) == 0, "leak", "%d directives left", len(b.GetDirectives()))
	c.Check(len(b.GetControllers()) == ncore, "leak-controllers", "%d controllers left, %d at first", len(b.GetControllers()), ncore)
	cancel()
	time.Sleep(time.Second)
	c.Wait()
}

func TestCheck(t *testing.T) {
	openAll(t)
	h.Run(t, []h.Scenario{
		{Name: "unload", Quick: 4000, Thorough: 80000, Fn: runUnload},
		{Name: "sync", Quick: 400, Thorough: 8000, Fn: runSync},
		{Name: "watch", Quick: 48, Thorough: 800, Parallel: true, Fn: runController},
	})
}
