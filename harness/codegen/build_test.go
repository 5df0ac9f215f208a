package codegen

import (
	"bufio"
	"context"
	"crypto/rand"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/aperturerobotics/cli"
	plugin_cli "github.com/aperturerobotics/controllerbus/plugin/cli"
	plugin_compiler "github.com/aperturerobotics/controllerbus/plugin/compiler"

	"verifharness/h"
)

// runCleanup: old versions of a plugin are removed, nothing else.
func runCleanup(c *h.C) {
	dir, err := os.MkdirTemp(scratch, "cl")
	must(c.T, err)
	defer os.RemoveAll(dir)
	pres := []string{"plugin-", "", "a.", "my plugin (1)-", "x+y[", "^p", "plugin-v1.", "{x}"}
	posts := []string{".cbus.so", "", "-x.cbus.so", ".so", "$", "+.cbus.so"}
	pre, post := pres[c.Int(len(pres))], posts[c.Int(len(posts))]
	mid := func() string {
		return []string{"abc", "6Q8tEdzYeuGtfGWv", "", "A1", "a-b", "a.b", "a b", "ü", "{buildHash}", "a_b", "xyz9"}[c.Int(11)]
	}
	type ent struct {
		kind string
		gone bool
	}
	alnum := func(s string) bool {
		for _, r := range s {
			if !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9') {
				return false
			}
		}
		return true
	}
	ents := map[string]ent{}
	for n := 3 + c.Int(12); n > 0; n-- {
		name := pre + mid() + post
		switch c.Int(8) {
		case 0:
			name = []string{"x", "other-", "my"}[c.Int(3)] + name
		case 1:
			name += []string{".bak", "~", "x", ".old.cbus.so"}[c.Int(4)]
		case 2:
			name = strings.Replace(name, ".", "x", 1)
		case 3:
			name = mid() + pres[c.Int(len(pres))] + mid() + posts[c.Int(len(posts))]
		case 4:
			name = strings.TrimSuffix(name, ".so")
		}
		if name == "" || name == "." || name == ".." {
			continue
		}
		if _, ok := ents[name]; ok {
			continue
		}
		f := filepath.Join(dir, name)
		kind := "file"
		switch c.Int(10) {
		case 0:
			kind = "dir"
			must(c.T, os.MkdirAll(f, 0o755))
			must(c.T, os.WriteFile(filepath.Join(f, pre+"abc"+post+"f"), nil, 0o644))
		case 1:
			kind = "link"
			must(c.T, os.Symlink(scratch, f))
		default:
			must(c.T, os.WriteFile(f, []byte("x"), 0o644))
		}
		old := kind == "file" && len(name) >= len(pre)+len(post) && strings.HasPrefix(name, pre) && strings.HasSuffix(name, post) &&
			alnum(name[len(pre):len(name)-len(post)])
		ents[name] = ent{kind, old}
	}
	pat := pre + "{buildHash}" + post
	wantErr, none := false, false
	switch c.Int(10) {
	case 0:
		pat = pre + "abc" + post
		none = true
	case 1:
		pat = pre + "{buildHash}-{buildHash}" + post
		wantErr, none = true, true
	}
	err = plugin_compiler.CleanupOldVersions(quietLe(), filepath.Join(dir, pat))
	if !c.Check((err != nil) == wantErr, "cleanup-error", "cleanup of %q: %v", pat, err) {
		return
	}
	for name, e := range ents {
		_, err := os.Lstat(filepath.Join(dir, name))
		gone := os.IsNotExist(err)
		c.Check(gone == (e.gone && !none), "cleanup", "cleanup of %q: the %s %q removed: %v", pat, e.kind, name, gone)
		if e.kind == "dir" && !gone {
			_, err := os.Lstat(filepath.Join(dir, name, pre+"abc"+post+"f"))
			c.Check(err == nil, "cleanup", "cleanup of %q removed a file in %q", pat, name)
		}
		c.Ev("entry", "%s %v", e.kind, gone)
	}
	err = plugin_compiler.CleanupOldVersions(quietLe(), filepath.Join(dir, "missing", pre+"{buildHash}"+post))
	c.Check(err != nil, "cleanup-error", "cleanup of a missing directory")
}

// runHash: the build id depends on the key and the contents.
func runHash(c *h.C) {
	dir, err := os.MkdirTemp(scratch, "ha")
	must(c.T, err)
	defer os.RemoveAll(dir)
	key := make([]byte, 32)
	_, _ = rand.Read(key)
	seen := map[string]string{}
	size := c.Int(3)*c.Int(70000) + c.Int(40)
	if c.P(15) {
		// a plugin is some 10 MB
		size = 1<<20 + c.Int(8<<20)
	}
	data := make([]byte, size)
	_, _ = rand.Read(data)
	sum := func(name, what string, key, data []byte) string {
		f := filepath.Join(dir, name)
		must(c.T, os.WriteFile(f, data, 0o644))
		s, err := plugin_compiler.HashPluginForBuildID(key, f)
		c.Check(err == nil && len(s) >= 16, "hash", "hash: %q %v", s, err)
		c.Check(strings.Trim(s, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789") == "", "hash-chars", "hash %q", s)
		c.Ev("hash", "%d", len(data))
		if len(s) > 16 {
			s = s[:16]
		}
		return s
	}
	a := sum("a", "", key, data)
	c.Check(sum("b", "", key, data) == a, "hash-name", "the hash depends on more than the contents")
	seen[a] = "orig"
	for i := 0; i < 8; i++ {
		d := append([]byte(nil), data...)
		what := ""
		k := append([]byte(nil), key...)
		switch x := c.Int(4); {
		case x == 0:
			d = append(d, make([]byte, i+1)...)
			what = fmt.Sprintf("%d zeros", i+1)
		case x == 1 && len(d) > 0:
			n := []int{0, len(d) - 1, c.Int(len(d))}[c.Int(3)]
			d[n] ^= byte(1 << c.Int(8))
			what = fmt.Sprintf("byte %d: %d", n, d[n])
		case x == 2 && len(d) > 20:
			d = d[:len(d)-1-i]
			what = fmt.Sprintf("without %d", i+1)
		default:
			n := c.Int(32)
			k[n] ^= byte(1 << c.Int(8))
			what = fmt.Sprintf("key %d: %d", n, k[n])
		}
		s := sum("a", what, k, d)
		c.Check(seen[s] == "" || seen[s] == what, "hash-same", "%s and %s have the same hash", seen[s], what)
		seen[s] = what
	}
	_, err = plugin_compiler.HashPluginForBuildID(key[:31], filepath.Join(dir, "a"))
	c.Check(err != nil, "hash-key", "a short key was accepted")
	_, err = plugin_compiler.HashPluginForBuildID(key, filepath.Join(dir, "missing"))
	c.Check(err != nil, "hash-missing", "a missing file was hashed")
}

// loaderSrc loads the plugins of a directory and tells what they contain.
const loaderSrc = `package main

import (
	"context"
	"encoding/json"
	"os"
	"path/filepath"
	goplugin "plugin"
	"time"

	"github.com/aperturerobotics/controllerbus/config"
	"github.com/aperturerobotics/controllerbus/controller"
	"github.com/aperturerobotics/controllerbus/controller/resolver"
	"github.com/aperturerobotics/controllerbus/core"
	boil "github.com/aperturerobotics/controllerbus/example/boilerplate/controller"
	"github.com/aperturerobotics/controllerbus/plugin"
	shared "github.com/aperturerobotics/controllerbus/plugin/loader/shared-library"
	"github.com/sirupsen/logrus"
)

type conf struct {
	*boil.Config
	id string
}

func (c *conf) GetConfigID() string                   { return c.id }
func (c *conf) EqualsConfig(o config.Config) bool     { return c == o }
func (c *conf) Validate() error                       { return nil }

type fac struct {
	ID  string
	Who []string
}

type lib struct {
	ID, Version, Path, UUID string
	Factories               []fac
}

type line struct {
	Libs   []lib
	Bus    []fac
	Errors []string
}

func who(f controller.Factory) []string {
	if s, ok := f.(*plugin.StaticPluginFactory); ok {
		f = s.Factory
	}
	if w, ok := f.(interface{ Who() []string }); ok {
		return w.Who()
	}
	return nil
}

func main() {
	ctx := context.Background()
	log := logrus.New()
	log.SetOutput(os.Stderr)
	le := logrus.NewEntry(log)
	b, _, err := core.NewCoreBus(ctx, le)
	if err != nil {
		panic(err)
	}
	dir, ids := os.Args[1], os.Args[2:]
	type ld struct {
		p  *shared.LoadedPlugin
		st *shared.PluginStat
	}
	loaded := map[string]*shared.LoadedPlugin{}
	enc := json.NewEncoder(os.Stdout)
	for {
		var l line
		there, _ := filepath.Glob(filepath.Join(dir, "*.cbus.so"))
		is := map[string]bool{}
		for _, f := range there {
			is[f] = true
			if loaded[f] == nil {
				p, err := shared.LoadPluginSharedLibrary(ctx, le, b, f)
				if err != nil {
					l.Errors = append(l.Errors, f+": "+err.Error())
					continue
				}
				loaded[f] = p
				time.Sleep(50 * time.Millisecond)
			}
		}
		for f, p := range loaded {
			if !is[f] {
				p.Close()
				delete(loaded, f)
				continue
			}
			x := lib{ID: p.GetBinaryID(), Version: p.GetBinaryVersion(), Path: f}
			if gp, err := goplugin.Open(f); err == nil {
				if s, err := gp.Lookup("HotPluginBuildUUID"); err == nil {
					x.UUID = *s.(*string)
				}
			}
			for _, id := range ids {
				if fc, _ := p.PluginResolver.GetFactoryMatchingConfig(ctx, &conf{id: id}); fc != nil {
					x.Factories = append(x.Factories, fac{id, who(fc)})
				}
			}
			l.Libs = append(l.Libs, x)
		}
		for _, id := range ids {
			cctx, cancel := context.WithTimeout(ctx, 200*time.Millisecond)
			fc, ref, err := resolver.ExLoadFactoryByConfig(cctx, b, &conf{id: id})
			if err == nil && fc != nil {
				l.Bus = append(l.Bus, fac{id, who(fc)})
			}
			if ref != nil {
				ref.Release()
			}
			cancel()
		}
		if err := enc.Encode(l); err != nil {
			return
		}
		time.Sleep(100 * time.Millisecond)
	}
}
`

// fac is a factory which was found.
type fac struct {
	ID  string
	Who []string
}

// line is what the loader tells.
type line struct {
	Libs []struct {
		ID, Version, Path, UUID string
		Factories               []fac
	}
	Bus    []fac
	Errors []string
}

// loaderProc is a running loader.
type loaderProc struct {
	cmd *exec.Cmd
	mu  sync.Mutex
	cur line
	n   int
	log strings.Builder
	end error
}

type lockedWriter struct{ l *loaderProc }

func (w lockedWriter) Write(b []byte) (int, error) {
	w.l.mu.Lock()
	defer w.l.mu.Unlock()
	if w.l.log.Len() < 100000 {
		w.l.log.Write(b)
	}
	return len(b), nil
}

// startLoader builds the loader in the main module and starts it.
func (p *prog) startLoader(dir string) *loaderProc {
	c := p.c
	src := filepath.Join(p.dir(p.main), "zloader")
	must(c.T, os.MkdirAll(src, 0o755))
	must(c.T, os.WriteFile(filepath.Join(src, "main.go"), []byte(loaderSrc), 0o644))
	bin := filepath.Join(p.root, "loader.bin")
	if _, e, err := command(src, "build", "-trimpath", "-o", bin, "."); err != nil {
		c.T.Fatalf("the loader does not build: %v %s", err, e)
	}
	must(c.T, os.RemoveAll(src))
	args := []string{dir}
	for _, k := range p.pkgs {
		args = append(args, k.configID())
	}
	l := &loaderProc{cmd: exec.Command(bin, args...)}
	out, err := l.cmd.StdoutPipe()
	must(c.T, err)
	l.cmd.Stderr = lockedWriter{l}
	must(c.T, l.cmd.Start())
	go func() {
		sc := bufio.NewScanner(out)
		sc.Buffer(nil, 1<<20)
		for sc.Scan() {
			var x line
			if json.Unmarshal(sc.Bytes(), &x) == nil {
				l.mu.Lock()
				l.cur = x
				l.n++
				l.mu.Unlock()
			}
		}
		err := l.cmd.Wait()
		l.mu.Lock()
		l.end = fmt.Errorf("the loader ended: %v", err)
		l.mu.Unlock()
	}()
	return l
}

// next waits for a line which was written from now on.
func (l *loaderProc) next() (line, error) {
	l.mu.Lock()
	n := l.n
	l.mu.Unlock()
	for start := time.Now(); time.Since(start) < time.Minute; time.Sleep(20 * time.Millisecond) {
		l.mu.Lock()
		x, now, end := l.cur, l.n, l.end
		l.mu.Unlock()
		if now >= n+2 {
			return x, nil
		}
		if end != nil {
			return x, end
		}
	}
	return line{}, errors.New("the loader does not tell anything")
}

func (l *loaderProc) stop() {
	_ = l.cmd.Process.Kill()
}

// same compares the factories with the expected ones.
func (p *prog) same(got []fac, prefix string, vers map[*pkg]string) string {
	n := 0
	for _, k := range p.wantPkgs() {
		if !k.fac {
			continue
		}
		n++
		want := strings.Join(p.whoVers(k, prefix, vers), " ")
		found := false
		for _, f := range got {
			if f.ID == k.configID() {
				found = true
				if g := strings.Join(f.Who, " "); g != want {
					return fmt.Sprintf("%s is %s, not %s", k.path(), g, want)
				}
			}
		}
		if !found {
			return fmt.Sprintf("%s was not found", k.path())
		}
	}
	if len(got) != n {
		return fmt.Sprintf("%d factories, not %d", len(got), n)
	}
	return ""
}

// whoVers returns what a package tells with the versions of the packages.
func (p *prog) whoVers(k *pkg, prefix string, vers map[*pkg]string) []string {
	pp := k.path()
	op := ""
	if k.listed && prefix != "" {
		pp = prefix + "/" + pp
		op = prefix
	}
	v := vers[k]
	if v == "" {
		v = "1"
	}
	l := []string{pp + "@" + v}
	for _, o := range k.imps {
		l = append(l, p.whoVers(o, op, vers)...)
	}
	return l
}

// newRunProg builds a program with a factory.
func newRunProg(c *h.C) *prog {
	for {
		p := newProg(c)
		has := 0
		for _, k := range p.wantPkgs() {
			if k.fac {
				has++
			}
		}
		if has > 0 && p.valid() {
			return p
		}
		_ = os.RemoveAll(p.root)
	}
}

// sizeMon watches the sizes of the plugins in a directory.
type sizeMon struct {
	mu   sync.Mutex
	seen map[string]map[int64]int
	stop chan struct{}
	done chan struct{}
}

func newSizeMon(dir string) *sizeMon {
	m := &sizeMon{seen: map[string]map[int64]int{}, stop: make(chan struct{}), done: make(chan struct{})}
	go func() {
		defer close(m.done)
		for {
			select {
			case <-m.stop:
				return
			case <-time.After(100 * time.Microsecond):
			}
			l, _ := os.ReadDir(dir)
			for _, x := range l {
				if !strings.HasSuffix(x.Name(), ".cbus.so") {
					continue
				}
				if fi, err := os.Stat(filepath.Join(dir, x.Name())); err == nil {
					m.mu.Lock()
					if m.seen[x.Name()] == nil {
						m.seen[x.Name()] = map[int64]int{}
					}
					m.seen[x.Name()][fi.Size()]++
					m.mu.Unlock()
				}
			}
		}
	}()
	return m
}

// runReload: a plugin is compiled again and loaded again if its sources change.
func runReload(c *h.C) {
	p := newRunProg(c)
	defer os.RemoveAll(p.root)
	c.Ev("program", "%d packages %d modules %v", len(p.pkgs), len(p.mods), p.args)
	out := filepath.Join(p.root, "out")
	must(c.T, os.MkdirAll(out, 0o755))
	other := filepath.Join(out, "not-demo-abc.cbus.so.txt")
	must(c.T, os.WriteFile(other, []byte("x"), 0o644))
	gen := filepath.Join(p.root, "gen")
	l := p.startLoader(out)
	defer l.stop()
	mon := newSizeMon(out)
	ctx, cancel := context.WithCancel(context.Background())
	var mu sync.Mutex
	var built []string
	done := make(chan error, 1)
	le := quietLe()
	pattern := filepath.Join(out, "demo-{buildHash}.cbus.so")
	go func() {
		w := plugin_compiler.NewWatcher(le, p.dir(p.main), p.args)
		done <- w.WatchCompilePlugin(ctx, gen, pattern, "demo-id", "demo-{buildHash}-v", func(pkgs []string, f string) error {
			_, err := os.Stat(f)
			c.Check(err == nil, "reload-callback", "the callback was called for %s: %v", f, err)
			c.Check(strings.Join(pkgs, " ") == strings.Join(p.args, " "), "reload-callback", "the callback was called for %v, not %v", pkgs, p.args)
			mu.Lock()
			built = append(built, f)
			mu.Unlock()
			c.Ev("built", "")
			return nil
		})
	}()
	vers := map[*pkg]string{}
	var ended error
	// state returns why the loaded plugin is not the expected one.
	state := func() (string, line) {
		select {
		case ended = <-done:
			done <- ended
			return fmt.Sprintf("the compiler ended: %v", ended), line{}
		default:
		}
		x, err := l.next()
		if err != nil {
			return err.Error(), x
		}
		if len(x.Libs) != 1 {
			return fmt.Sprintf("%d plugins are loaded %v", len(x.Libs), x.Errors), x
		}
		name := filepath.Base(x.Libs[0].Path)
		hash := strings.TrimSuffix(strings.TrimPrefix(name, "demo-"), ".cbus.so")
		if x.Libs[0].ID != "demo-id" || x.Libs[0].Version != "demo-"+hash+"-v" {
			return fmt.Sprintf("%s is %s version %s", name, x.Libs[0].ID, x.Libs[0].Version), x
		}
		if u := x.Libs[0].UUID; u != "cbus-plugin-"+hash {
			return fmt.Sprintf("%s has the build UUID %q", name, u), x
		}
		if s := p.same(x.Libs[0].Factories, "cbus-plugin-"+hash, vers); s != "" {
			return "plugin: " + s, x
		}
		if s := p.same(x.Bus, "cbus-plugin-"+hash, vers); s != "" {
			return "bus: " + s, x
		}
		return "", x
	}
	wait := func(what string) (line, bool) {
		var s string
		var x line
		for start := time.Now(); time.Since(start) < 4*time.Minute; time.Sleep(50 * time.Millisecond) {
			if s, x = state(); s == "" {
				c.Ev("loaded", "%s", what)
				return x, true
			}
			if ended != nil || l.end != nil {
				break
			}
		}
		l.mu.Lock()
		lg := l.log.String()
		l.mu.Unlock()
		if len(lg) > 1500 {
			lg = lg[len(lg)-1500:]
		}
		c.Check(false, "reload", "after %s: %s; loader: %s", what, s, lg)
		return x, false
	}
	x, ok := wait("the start")
	n := 1
	var paths []string
	for step := 0; ok && step < 3; step++ {
		paths = append(paths, x.Libs[0].Path)
		var ks []*pkg
		for _, k := range p.wantPkgs() {
			ks = append(ks, k)
		}
		k := ks[c.Int(len(ks))]
		what := ""
		switch c.Int(4) {
		case 0:
			// nothing changes
			what = "a write without a change"
			b, err := os.ReadFile(filepath.Join(p.dir(k.mod), k.dir, "a.go"))
			must(c.T, err)
			fi, err := os.Stat(x.Libs[0].Path)
			must(c.T, err)
			must(c.T, rewrite(filepath.Join(p.dir(k.mod), k.dir, "a.go"), string(b)))
			time.Sleep(4 * time.Second)
			if x, ok = wait(what); ok {
				fi2, err := os.Stat(x.Libs[0].Path)
				c.Check(x.Libs[0].Path == paths[len(paths)-1], "reload-same", "the sources are the same, the plugin is %s, it was %s", x.Libs[0].Path, paths[len(paths)-1])
				c.Check(err == nil && fi2.ModTime().Equal(fi.ModTime()), "reload-same", "the sources are the same, the plugin was written again")
			}
			continue
		case 1:
			// an editor replaces the file
			what = "a replaced file"
			n++
			vers[k] = fmt.Sprint(n)
			p.writePkg(k, vers[k])
			f := filepath.Join(p.dir(k.mod), k.dir, "a.go")
			b, err := os.ReadFile(f)
			must(c.T, err)
			must(c.T, os.WriteFile(f+".swp", b, 0o644))
			must(c.T, os.Rename(f+".swp", f))
		case 2:
			// changes again while it is compiled
			what = "changes while compiling"
			n++
			vers[k] = fmt.Sprint(n)
			p.writePkg(k, vers[k])
			time.Sleep(600*time.Millisecond + time.Duration(c.Int(3000))*time.Millisecond)
			k = ks[c.Int(len(ks))]
			n++
			vers[k] = fmt.Sprint(n)
			p.writePkg(k, vers[k])
		default:
			what = "a change"
			n++
			vers[k] = fmt.Sprint(n)
			p.writePkg(k, vers[k])
		}
		c.Ev("edit", "%s %s", what, k.path())
		x, ok = wait(what)
	}
	cancel()
	select {
	case err := <-done:
		c.Check(err != nil || c.Failed(), "reload-end", "the watcher ended without an error")
	case <-time.After(2 * time.Minute):
		c.Check(false, "reload-end", "the watcher does not end")
	}
	close(mon.stop)
	<-mon.done
	for name, sizes := range mon.seen {
		c.Check(len(sizes) == 1, "reload-partial", "the plugin %s was there with the sizes %v", name, sizes)
		c.Ev("sizes", "%d", len(sizes))
	}
	_, err := os.Stat(other)
	c.Check(err == nil, "reload-other", "another file was removed: %v", err)
}

// runSingle: plugins which are compiled from a single file can be loaded next to each other.
func runSingle(c *h.C) {
	p := newRunProg(c)
	defer os.RemoveAll(p.root)
	out := filepath.Join(p.root, "out")
	must(c.T, os.MkdirAll(out, 0o755))
	wd, err := os.Getwd()
	must(c.T, err)
	must(c.T, os.Chdir(p.dir(p.main)))
	defer func() { _ = os.Chdir(wd) }()
	file := filepath.Join(p.dir(p.main), "zplugin", "plugin.go")
	must(c.T, os.MkdirAll(filepath.Dir(file), 0o755))
	l := p.startLoader(out)
	defer l.stop()
	vers := map[*pkg]string{}
	seen := map[string]bool{}
	for i := 1; i <= 2; i++ {
		for _, k := range p.wantPkgs() {
			if k.fac {
				vers[k] = fmt.Sprint(i)
				p.writePkg(k, vers[k])
			}
		}
		an := p.analyze()
		gf, err := plugin_compiler.GeneratePluginWrapper(context.Background(), quietLe(), an, "single", fmt.Sprintf("v%d", i))
		must(c.T, err)
		hooked := ""
		err = plugin_compiler.CompilePluginFromFile(context.Background(), quietLe(), gf, file, filepath.Join(out, fmt.Sprintf("s%d-{buildHash}.cbus.so", i)), func(next, contents string) error {
			hooked = next
			_, err := os.Stat(contents)
			c.Check(err == nil, "single-hook", "%v", err)
			return nil
		})
		if !c.Check(err == nil, "single-compile", "CompilePluginFromFile of %v: %v", p.args, err) {
			return
		}
		_, err = os.Stat(hooked)
		c.Check(hooked != "" && err == nil && !strings.Contains(hooked, "{"), "single-hook", "the plugin was written to %q: %v", hooked, err)
		seen[hooked] = true
	}
	c.Check(len(seen) == 2, "single-hash", "%v", seen)
	var x line
	s := ""
	for start := time.Now(); time.Since(start) < time.Minute; {
		if x, err = l.next(); err != nil {
			s = err.Error()
			break
		}
		if s = fmt.Sprintf("%d plugins are loaded: %v", len(x.Libs), x.Errors); len(x.Libs) == 2 {
			s = ""
			break
		}
	}
	if c.Check(s == "", "single-load", "two versions of a plugin: %s", s) {
		for _, lb := range x.Libs {
			v := map[*pkg]string{}
			for k := range vers {
				v[k] = strings.TrimPrefix(lb.Version, "v")
			}
			c.Check(lb.ID == "single" && strings.HasPrefix(filepath.Base(lb.Path), "s"+lb.Version[1:]+"-"), "single-id", "%s is %s %s", lb.Path, lb.ID, lb.Version)
			c.Check(len(lb.UUID) >= 16 && strings.Contains(filepath.Base(lb.Path), "-"+lb.UUID[:16]+"."), "single-uuid", "the build UUID of %s is %q", lb.Path, lb.UUID)
			// the packages of the first plugin are those of the process
			c.Check(len(lb.Factories) > 0, "single-factories", "%s has no factories", lb.Path)
		}
		c.Ev("loaded", "%d", len(x.Libs))
	}
}

// runCli: the commands of the plugin compiler.
func runCli(c *h.C) {
	p := newRunProg(c)
	defer os.RemoveAll(p.root)
	c.Ev("program", "%d packages %d modules %v", len(p.pkgs), len(p.mods), p.args)
	wd, err := os.Getwd()
	must(c.T, err)
	must(c.T, os.Chdir(p.dir(p.main)))
	defer func() { _ = os.Chdir(wd) }()
	out := filepath.Join(p.root, "out", "dir")
	before := tree(p.root)
	gen := filepath.Join(p.root, "gen")
	cache := filepath.Join(scratch, "cache")
	// go build keeps nothing else there
	_ = os.RemoveAll(cache)
	must(c.T, os.MkdirAll(cache, 0o755))
	prefix, id, version := "", "", "cbus-plugin-{buildHash}"
	flags := []string{"x", "plugin"}
	ownGen := c.P(50)
	if ownGen {
		flags = append(flags, "--codegen-dir", gen)
	}
	if c.P(40) {
		prefix = "my-prefix"
		flags = append(flags, "--build-prefix", prefix)
	}
	if c.P(40) {
		id = "my-id"
		flags = append(flags, "--plugin-binary-id", id)
	}
	if c.P(40) {
		version = "my-version"
		flags = append(flags, "--plugin-binary-version", version)
	}
	compile := c.P(60)
	keep := c.P(50) || !compile
	if keep {
		flags = append(flags, "--no-cleanup")
	}
	if compile {
		flags = append(flags, "--output", filepath.Join(out, "x.cbus.so"), "compile")
	} else {
		flags = append(flags, "codegen")
	}
	flags = append(flags, p.args...)
	var a plugin_cli.CompilerArgs
	app := cli.NewApp()
	app.Commands = []*cli.Command{a.BuildDevtoolCommand()}
	err = app.Run(flags)
	c.Ev("cli", "%v", flags[1:len(flags)-len(p.args)])
	if !c.Check(err == nil, "cli", "%v: %v", flags, err) {
		return
	}
	if !ownGen {
		l, _ := filepath.Glob(filepath.Join(cache, "cbus-codegen-*"))
		if keep {
			if !c.Check(len(l) == 1, "cli-dir", "%v", l) {
				return
			}
			gen = l[0]
		} else {
			c.Check(len(l) == 0, "cli-cleanup", "%v was left", l)
		}
	}
	l, _ := os.ReadDir(gen)
	if keep {
		if !c.Check(len(l) == 1, "cli-prefix", "%v was generated", l) {
			return
		}
		if prefix == "" {
			prefix = l[0].Name()
			c.Check(strings.HasPrefix(prefix, "cbus-plugin-") && len(prefix) > 15, "cli-prefix", "the build prefix is %q", prefix)
		}
		c.Check(l[0].Name() == prefix, "cli-prefix", "%s was generated, the build prefix is %s", l[0].Name(), prefix)
		if id == "" {
			id = prefix
			if !strings.HasPrefix(prefix, "cbus-plugin-") {
				id = ""
			}
		}
		if r := p.runBuilt(filepath.Join(gen, prefix, "plugin", "bin")); r != nil {
			if id == "" {
				id = r.ID
				c.Check(strings.HasPrefix(id, "cbus-plugin-") && len(id) > 15, "cli-id", "the binary id is %q", id)
			}
			p.checkReport(r, id, version, prefix, "1")
		}
	} else if ownGen {
		c.Check(len(l) == 0, "cli-cleanup", "%v was left", l)
	}
	if compile {
		ld := p.startLoader(out)
		defer ld.stop()
		x, err := ld.next()
		for n := 0; err == nil && len(x.Libs) == 0 && n < 20; n++ {
			x, err = ld.next()
		}
		if c.Check(err == nil && len(x.Libs) == 1, "cli-load", "%d plugins were loaded: %v %v", len(x.Libs), err, x.Errors) {
			c.Check(x.Libs[0].Version == version && (id == "" || x.Libs[0].ID == id) && x.Libs[0].ID != "", "cli-id", "the plugin is %s version %s", x.Libs[0].ID, x.Libs[0].Version)
			if prefix != "" {
				s := p.same(x.Libs[0].Factories, prefix, nil)
				c.Check(s == "", "cli-factories", "%s", s)
			}
			c.Check(prefix == "" && x.Libs[0].UUID != "" || prefix != "" && x.Libs[0].UUID == prefix, "cli-uuid", "the build UUID is %q, the prefix %q", x.Libs[0].UUID, prefix)
			c.Ev("loaded", "")
		}
	}
	_ = os.RemoveAll(filepath.Join(p.root, "gen"))
	_ = os.RemoveAll(filepath.Join(p.root, "out"))
	_ = os.Remove(filepath.Join(p.root, "loader.bin"))
	d := diff(before, tree(p.root))
	c.Check(d == "", "sources", "the sources were changed: %s", d)
}
