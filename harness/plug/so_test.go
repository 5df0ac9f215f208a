package plug

import (
	"context"
	"fmt"
	"os"
	"path/filepath"
	"plugin"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/aperturerobotics/controllerbus/bus"
	"github.com/aperturerobotics/controllerbus/controller"
	"github.com/aperturerobotics/controllerbus/controller/resolver"
	"github.com/aperturerobotics/controllerbus/core"
	cplugin "github.com/aperturerobotics/controllerbus/plugin"
	plugin_loader_filesystem "github.com/aperturerobotics/controllerbus/plugin/loader/shared-library/filesystem"
	"github.com/blang/semver/v4"

	"verifharness/bw"
	"verifharness/h"
	"verifharness/plug/reg"
	"verifharness/sc"
)

// goodSo are the shared libraries which contain a plugin.
var goodSo = []string{"pa", "pb", "pc", "pe"}

// badSo are the shared libraries which do not contain one.
var badSo = []string{"pn", "pm", "px"}

// soDir is the directory of the plugins, soStore contains the libraries.
var soDir, soStore string

// openAll opens all libraries: they stay loaded and are found by their path.
func openAll(t *testing.T) {
	soStore = os.Getenv("VERIF_SO")
	if soStore == "" {
		soStore = "/tmp/so21"
	}
	scratch := os.Getenv("VERIF_SCRATCH")
	if scratch == "" {
		var err error
		if scratch, err = os.MkdirTemp("", "so"); err != nil {
			t.Fatal(err)
		}
		t.Cleanup(func() { os.RemoveAll(scratch) })
	}
	soDir = filepath.Join(scratch, "plugins")
	if err := os.MkdirAll(soDir, 0o755); err != nil {
		t.Fatal(err)
	}
	for _, n := range append(append([]string{}, goodSo...), badSo...) {
		if err := copySo(n, 0, 0); err != nil {
			t.Fatal(err)
		}
		if _, err := plugin.Open(soPath(n)); err != nil {
			t.Fatal(err)
		}
	}
	cleanSo()
	reg.Build = func(name string, b bus.Bus) []controller.Factory { return curSo.Load().build(name, b) }
	reg.OnResolver = func(ctx context.Context, name string, r cplugin.PluginResolver) cplugin.PluginResolver {
		return curSo.Load().onResolver(ctx, name, r)
	}
	reg.OnUnload = func(name string) { curSo.Load().onUnload(name) }
}

func soPath(name string) string { return filepath.Join(soDir, name+".cbus.so") }

func cleanSo() {
	l, _ := os.ReadDir(soDir)
	for _, x := range l {
		_ = os.RemoveAll(filepath.Join(soDir, x.Name()))
	}
}

// copySo copies a library: pad is appended, it takes some time.
func copySo(name string, pad int, slow time.Duration) error {
	in, err := os.ReadFile(filepath.Join(soStore, name+".cbus.so"))
	if err != nil {
		return err
	}
	in = append(in, make([]byte, pad)...)
	p := soPath(name)
	if slow == 0 {
		// appears at once
		tmp := filepath.Join(soDir, "tmp."+name)
		if err := os.WriteFile(tmp, in, 0o644); err != nil {
			return err
		}
		return os.Rename(tmp, p)
	}
	_ = os.Remove(p)
	f, err := os.Create(p)
	if err != nil {
		return err
	}
	defer f.Close()
	for i := 0; i < 4; i++ {
		if _, err := f.Write(in[len(in)*i/4 : len(in)*(i+1)/4]); err != nil {
			return err
		}
		time.Sleep(slow / 4)
	}
	return nil
}

// soGen is a plugin which was loaded from a library.
type soGen struct {
	name     string
	ctx      context.Context
	inner    cplugin.PluginResolver
	fac      *sc.Fac
	unloaded int // 1: the resolver, 2: the plugin was told
}

// PrePluginUnload is called before the plugin is unloaded.
func (g *soRes) PrePluginUnload() { g.t.onResolverUnload(g.g); g.PluginResolver.PrePluginUnload() }

type soRes struct {
	cplugin.PluginResolver
	t *st
	g *soGen
}

// file is the expected contents of the directory.
type file struct {
	size  int64
	mtime time.Time
}

var curSo atomic.Pointer[st]

// st is a bus with a loader.
type st struct {
	c   *h.C
	w   *bw.W
	e   *sc.Env
	rnd *h.LockedRand

	mu      sync.Mutex
	gens    map[string][]*soGen // by plugin
	fac     map[string]*sc.Fac  // built, the resolver is not known yet
	onBuild func(name string)
	clients map[string]*client
	cb      *tb
}

func (t *st) build(name string, b bus.Bus) []controller.Factory {
	c := t.c
	c.Check(b == t.w.B, "plugin-bus", "factories are built for another bus")
	f := &sc.Fac{E: t.e, ID: "so/" + name, Ver: semver.MustParse("1.0.0"), Tag: name}
	t.mu.Lock()
	t.fac[name] = f
	ob := t.onBuild
	t.mu.Unlock()
	c.Ev("build", "%s", name)
	if ob != nil {
		ob(name)
	}
	return []controller.Factory{f}
}

// last returns the plugin which was loaded at last.
func (t *st) last(name string) *soGen {
	if l := t.gens[name]; len(l) > 0 {
		return l[len(l)-1]
	}
	return nil
}

func (t *st) onResolver(ctx context.Context, name string, r cplugin.PluginResolver) cplugin.PluginResolver {
	t.mu.Lock()
	defer t.mu.Unlock()
	if g := t.last(name); g != nil {
		t.c.Check(g.unloaded == 2, "loaded-twice", "%s is loaded, it was loaded before and was not unloaded", name)
	}
	g := &soGen{name: name, ctx: ctx, inner: r, fac: t.fac[name]}
	t.gens[name] = append(t.gens[name], g)
	return &soRes{r, t, g}
}

func (t *st) onResolverUnload(g *soGen) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.c.Ev("resolver-unload", "%s", g.name)
	t.c.Check(g.unloaded == 0, "unload-order", "%s: the resolver is told again (%d)", g.name, g.unloaded)
	t.c.Check(g.ctx.Err() != nil, "unload-order", "%s is about to be unloaded, the context is not canceled", g.name)
	g.unloaded = 1
}

func (t *st) onUnload(name string) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.c.Ev("plugin-unload", "%s", name)
	g := t.last(name)
	if t.c.Check(g != nil && g.unloaded == 1, "unload-order", "%s is about to be unloaded, the resolver was not told", name) {
		g.unloaded = 2
	}
}

func newSt(c *h.C) *st {
	ctx, cancel := context.WithCancel(context.Background())
	w := &bw.W{C: c, Ctx: ctx, Cancel: cancel}
	t := &st{c: c, w: w, rnd: c.NewRand(), gens: map[string][]*soGen{}, fac: map[string]*sc.Fac{}, clients: map[string]*client{}}
	t.e = &sc.Env{C: c, Rnd: c.NewRand(), OnExecute: func(ct *sc.Ctrl, n int) sc.Step {
		return sc.Step{Delay: -1, NilOnCancel: t.rnd.Int(2) == 0}
	}}
	b, _, err := core.NewCoreBus(ctx, c.Le)
	if !c.Check(err == nil, "core", "NewCoreBus: %v", err) {
		c.Abort()
	}
	w.B = b
	t.cb = &tb{c: c, w: w, e: t.e, rnd: t.rnd}
	cleanSo()
	curSo.Store(t)
	for _, n := range goodSo {
		if !c.P(80) {
			continue
		}
		cl := &client{conf: &sc.Conf{ID: "so/" + n, N: 1}}
		t.clients[n] = cl
		t.cb.add(cl, resolver.NewLoadControllerWithConfig(cl.conf))
	}
	return t
}

// state describes why the expected plugins are not those which are loaded.
func (t *st) state(want map[string]bool) (string, string) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.e.Mu.Lock()
	defer t.e.Mu.Unlock()
	live := map[string][]*sc.Ctrl{}
	for _, ct := range t.e.All {
		if ct.Closed == 0 {
			live[ct.Conf.ID] = append(live[ct.Conf.ID], ct)
		}
	}
	nres := 0
	for _, x := range t.w.B.GetControllers() {
		if r, ok := x.(*resolver.Controller); ok && r != nil {
			nres++
		}
	}
	nloaded := 0
	for _, n := range goodSo {
		for i, g := range t.gens[n] {
			if i < len(t.gens[n])-1 && g.unloaded != 2 {
				return "not-unloaded", n + " was loaded again, it was not unloaded"
			}
		}
		g := t.last(n)
		loaded := g != nil && g.unloaded == 0
		if loaded != want[n] {
			return "loaded", fmt.Sprintf("%s: loaded=%v, there=%v", n, loaded, want[n])
		}
		if loaded {
			nloaded++
			if g.ctx.Err() != nil {
				return "context", fmt.Sprintf("%s is loaded, its context is canceled", n)
			}
		}
		if cl := t.clients[n]; cl != nil {
			vals := t.vals(cl)
			l := live["so/"+n]
			switch {
			case !loaded && len(l) != 0:
				return "runs-unloaded", fmt.Sprintf("%s is not loaded, %d controllers run", n, len(l))
			case !loaded && len(vals) != 0:
				return "value-unloaded", fmt.Sprintf("%s is not loaded, %d values", n, len(vals))
			case loaded && (len(l) != 1 || l[0].Fac != g.fac || !l[0].Running):
				return "not-running", fmt.Sprintf("%s is loaded, %d controllers run", n, len(l))
			case loaded && len(vals) == 0:
				return "value", fmt.Sprintf("%s is loaded, %d values: %v", n, len(vals), vals)
			}
			for _, v := range vals {
				if ct, err := ctrlOf(v); ct != l[0] {
					return "value-other", fmt.Sprintf("%s is loaded, the value is %v %v", n, ct, err)
				}
			}
		}
	}
	if nres != nloaded+1 {
		return "resolvers", fmt.Sprintf("%d plugins are loaded, %d resolvers are attached", nloaded, nres)
	}
	return "", ""
}

// vals returns the values of a client.
func (t *st) vals(cl *client) map[uint32]any {
	t.cb.mu.Lock()
	defer t.cb.mu.Unlock()
	m := map[uint32]any{}
	for k, v := range cl.vals {
		m[k] = v
	}
	return m
}

func (t *st) end() {
	for _, cl := range t.clients {
		cl.ref.Release()
	}
	t.w.Cancel()
}

// stat returns the size and the modification time of a library.
func stat(name string) (file, bool) {
	fi, err := os.Stat(soPath(name))
	if err != nil {
		return file{}, false
	}
	return file{fi.Size(), fi.ModTime()}, true
}

// change changes the directory.
func (t *st) change() string {
	n := goodSo[t.rnd.Int(len(goodSo))]
	bad := badSo[t.rnd.Int(len(badSo))]
	p := soPath(n)
	ok := func(err error) {
		if err != nil && !os.IsNotExist(err) {
			t.c.T.Fatal(err)
		}
	}
	switch x := t.rnd.Int(20); {
	case x < 7:
		ok(copySo(n, t.rnd.Int(3), 0))
		return "put " + n
	case x < 12:
		ok(os.Remove(p))
		return "remove " + n
	case x < 14:
		// same size, other time
		ts := time.Unix(1700000000+int64(t.rnd.Int(1000)), int64(t.rnd.Int(1000)))
		ok(os.Chtimes(p, ts, ts))
		return "touch " + n
	case x < 15:
		// other size, same time
		if f, there := stat(n); there {
			ok(copySo(n, 3+t.rnd.Int(5), 0))
			ok(os.Chtimes(p, f.mtime, f.mtime))
		}
		return "resize " + n
	case x < 16:
		ok(copySo(bad, 0, 0))
		return "bad " + bad
	case x < 17:
		ok(os.WriteFile(soPath("junk"), []byte("junk"), 0o644))
		return "junk"
	case x < 18:
		_ = os.Remove(p + ".old")
		ok(os.Rename(p, p+".old"))
		return "rename " + n
	case x < 19:
		ok(os.MkdirAll(soPath("dir"), 0o755))
		_ = os.Symlink(filepath.Join(soStore, "pa.cbus.so"), soPath("link"))
		return "dir"
	default:
		// no plugin: a directory
		ok(os.RemoveAll(p))
		ok(os.MkdirAll(p, 0o755))
		return "dir " + n
	}
}

func isFile(n string) bool {
	fi, err := os.Lstat(soPath(n))
	return err == nil && fi.Mode().IsRegular()
}

// fixDir removes a directory with the name of a library.
func fixDir() {
	for _, n := range goodSo {
		if fi, err := os.Lstat(soPath(n)); err == nil && fi.IsDir() {
			_ = os.RemoveAll(soPath(n))
		}
	}
}

// runSync: the plugins are synced with the directory.
func runSync(c *h.C) {
	t := newSt(c)
	ctx, cancel := context.WithCancel(t.w.Ctx)
	wt := plugin_loader_filesystem.NewWatcher(c.Le, t.w.B)
	model := map[string]file{}
	gens := map[string]int{}
	check := func(what string) bool {
		time.Sleep(2 * time.Second)
		c.Wait()
		want := map[string]bool{}
		for n := range model {
			want[n] = true
		}
		sig, msg := t.state(want)
		c.Check(sig == "", "so-"+sig, "after %s: %s", what, msg)
		for _, n := range goodSo {
			if !c.Check(len(t.gens[n]) == gens[n], "so-loads", "after %s: %s was loaded %d times, not %d", what, n, len(t.gens[n]), gens[n]) {
				break
			}
		}
		return !c.Failed()
	}
	// load is the expected effect of a load.
	load := func(n string) {
		if _, ok := model[n]; ok {
			return
		}
		if f, ok := stat(n); ok && isFile(n) {
			model[n] = f
			gens[n]++
		}
	}
	doSync := func() {
		err := wt.SyncPlugins(ctx, soDir)
		if !c.Check(err == nil, "so-sync", "SyncPlugins: %v", err) {
			return
		}
		for _, n := range goodSo {
			m, ok := model[n]
			if ok {
				if f, there := stat(n); !there || !isFile(n) || f.size != m.size || !f.mtime.Equal(m.mtime) {
					delete(model, n)
				}
			}
			load(n)
		}
	}
	for step := 0; step < 14 && !c.Failed(); step++ {
		for n := c.Int(4); n > 0; n-- {
			fixDir()
			c.Ev("change", "%s", t.change())
		}
		n := goodSo[c.Int(len(goodSo))]
		switch x := c.Int(20); {
		case x < 9:
			doSync()
			c.Ev("sync", "%d loaded", len(model))
			if !check("sync") {
				break
			}
			if c.P(30) {
				// nothing changed
				doSync()
				check("second sync")
			}
		case x < 12:
			fixDir()
			err := wt.LoadPlugin(ctx, soPath(n))
			_, was := model[n]
			load(n)
			_, is := model[n]
			c.Ev("load", "%s %v", n, err)
			c.Check((err == nil) == is, "so-load", "LoadPlugin of %s: %v (loaded before: %v, there: %v)", n, err, was, isFile(n))
			check("load")
		case x < 13:
			b := badSo[c.Int(len(badSo))]
			if err := copySo(b, 0, 0); err != nil {
				c.T.Fatal(err)
			}
			err := wt.LoadPlugin(ctx, soPath(b))
			c.Ev("load-bad", "%s %v", b, err)
			c.Check(err != nil, "so-load-bad", "the library %s without a plugin was loaded", b)
			check("load of " + b)
		case x < 15:
			wt.UnloadPlugin(soPath(n))
			delete(model, n)
			c.Ev("unload", "%s", n)
			check("unload")
		case x < 16:
			wt.UnloadAll()
			model = map[string]file{}
			c.Ev("unload-all", "")
			check("unload all")
		case x < 17:
			err := wt.SyncPlugins(ctx, filepath.Join(soDir, "missing"))
			c.Check(err != nil, "so-sync-missing", "sync with a missing directory")
			check("failed sync")
		default:
			// at once: what is loaded in the end is known after a sync
			var wg sync.WaitGroup
			for i := 2 + c.Int(3); i > 0; i-- {
				n := goodSo[c.Int(len(goodSo))]
				x := c.Int(4)
				wg.Add(1)
				go func() {
					defer wg.Done()
					switch x {
					case 0:
						wt.UnloadPlugin(soPath(n))
					case 1:
						_ = wt.LoadPlugin(ctx, soPath(n))
					case 2:
						_ = wt.SyncPlugins(ctx, soDir)
					case 3:
						wt.UnloadAll()
					}
				}()
			}
			wg.Wait()
			doSync()
			model = map[string]file{}
			for _, n := range goodSo {
				gens[n] = len(t.gens[n]) - 1
				load(n)
				if _, ok := model[n]; !ok {
					gens[n] = len(t.gens[n])
				}
			}
			c.Ev("together", "")
			check("concurrent loads")
		}
	}
	if !c.Failed() {
		fixDir()
		if c.P(50) {
			wt.UnloadAll()
		} else {
			cleanSo()
			doSync()
		}
		model = map[string]file{}
		check("all were unloaded")
	}
	cancel()
	t.end()
	time.Sleep(time.Minute)
	c.Wait()
}

// runController: the controller follows the directory.
func runController(c *h.C) {
	t := newSt(c)
	watch := c.P(85)
	there := func() map[string]bool {
		want := map[string]bool{}
		for _, n := range goodSo {
			if isFile(n) {
				want[n] = true
			}
		}
		return want
	}
	var want map[string]bool
	poll := func(cond func() bool) bool {
		for start := time.Now(); time.Since(start) < time.Minute && !c.Failed(); time.Sleep(10 * time.Millisecond) {
			if cond() {
				return true
			}
		}
		return false
	}
	settle := func(what string) bool {
		var sig, msg string
		ok := poll(func() bool {
			sig, msg = t.state(want)
			return sig == ""
		})
		if c.Failed() {
			return false
		}
		c.Check(ok, "watch-"+sig, "%s (watch=%v): %s", what, watch, msg)
		return ok
	}
	// changes at once: also while plugins are loaded
	changes := func(n int) {
		for ; n > 0; n-- {
			fixDir()
			c.Ev("change", "%s", t.change())
		}
	}
	builds := 0
	if c.P(70) {
		every := 1 + c.Int(3)
		t.onBuild = func(name string) {
			builds++
			if builds%every == 0 && builds < 12 {
				c.Ev("change-in-sync", "%s", name)
				changes(1)
			}
		}
	}
	changes(c.Int(6))
	if _, err := plugin_loader_filesystem.NewController(c.Le, t.w.B, &plugin_loader_filesystem.Config{Dir: filepath.Join(soDir, "missing")}); err == nil {
		c.Fail("watch-missing", "a controller for a missing directory")
	}
	ctl, err := plugin_loader_filesystem.NewFactory(t.w.B).Construct(t.w.Ctx, &plugin_loader_filesystem.Config{Dir: soDir, Watch: watch}, controller.ConstructOpts{Logger: c.Le})
	if !c.Check(err == nil, "watch-construct", "%v", err) {
		return
	}
	ctx, cancel := context.WithCancel(t.w.Ctx)
	done := make(chan error, 1)
	want = there()
	if !watch {
		// what is added while it is loading may be found or not
		t.mu.Lock()
		t.onBuild = nil
		t.mu.Unlock()
	}
	go func() { done <- t.w.B.ExecuteController(ctx, ctl) }()
	if watch {
		steps := 1 + c.Int(3)
		for i := 0; i < steps; i++ {
			if c.P(50) {
				time.Sleep(time.Duration(c.Int(1300)) * time.Millisecond)
			}
			changes(c.Int(4))
			if c.P(25) {
				n := goodSo[c.Int(len(goodSo))]
				fixDir()
				c.Ev("slow-copy", "%s", n)
				if err := copySo(n, c.Int(3), time.Duration(c.Int(1200))*time.Millisecond); err != nil {
					c.T.Fatal(err)
				}
			}
			if c.P(40) || i == steps-1 {
				// the directory may still be changed while it is loading
				ok := poll(func() bool {
					want = there()
					sig, _ := t.state(want)
					return sig == ""
				})
				if !ok && !settle("changes were made") {
					break
				}
				time.Sleep(2200 * time.Millisecond)
				want = there()
				if !settle("changes were made") {
					break
				}
				c.Ev("synced", "%d", len(want))
			}
		}
	} else {
		settle("started")
		t.mu.Lock()
		t.onBuild = nil
		t.mu.Unlock()
		changes(3)
		time.Sleep(50 * time.Millisecond)
		settle("changes are not watched")
	}
	t.mu.Lock()
	t.onBuild = nil
	t.mu.Unlock()
	cancel()
	<-done
	if c.Failed() {
		t.end()
		return
	}
	want = map[string]bool{}
	settle("the controller ended")
	t.w.B.RemoveController(ctl)
	_ = ctl.Close()
	t.end()
}
