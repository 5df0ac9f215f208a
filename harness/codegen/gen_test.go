// Package codegen checks the compiler of plugins (C22).
package codegen

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io"
	"os"
	"os/exec"
	"path"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"testing"

	plugin_compiler "github.com/aperturerobotics/controllerbus/plugin/compiler"
	"github.com/sirupsen/logrus"
	"golang.org/x/mod/modfile"

	"verifharness/h"
)

// scratch contains all files of the check, repo is the tree under test.
var scratch, repo string

const cbus = "github.com/aperturerobotics/controllerbus"

// setup prepares the environment: the go command is used offline.
func setup(t *testing.T) {
	repo = os.Getenv("VERIF_REPO")
	if repo == "" {
		repo = "/repo"
	}
	scratch = os.Getenv("VERIF_SCRATCH")
	if scratch == "" {
		var err error
		if scratch, err = os.MkdirTemp("", "codegen"); err != nil {
			t.Fatal(err)
		}
		t.Cleanup(func() { os.RemoveAll(scratch) })
	}
	bin := filepath.Join(scratch, "bin")
	gobin, err := exec.LookPath("go")
	if err != nil {
		t.Fatal(err)
	}
	must(t, os.MkdirAll(bin, 0o755))
	// tests of dependencies are not in the module cache: tidy can not load them
	sh := "#!/bin/sh\nif [ \"$1 $2\" = \"mod tidy\" ]; then exec " + gobin + " mod tidy -e 2>/dev/null; fi\nexec " + gobin + " \"$@\"\n"
	must(t, os.WriteFile(filepath.Join(bin, "go"), []byte(sh), 0o755))
	os.Setenv("PATH", bin+":"+os.Getenv("PATH"))
	os.Setenv("GOSUMDB", "off")
	os.Setenv("GOFLAGS", "-mod=mod")
	os.Setenv("GOPROXY", "off")
	os.Setenv("XDG_CACHE_HOME", filepath.Join(scratch, "cache"))
	os.Setenv("CGO_ENABLED", "1")
}

func must(t testing.TB, err error) {
	if err != nil {
		t.Helper()
		t.Fatal(err)
	}
}

// mod is a module of a program.
type mod struct {
	path string
	dir  string // below the root
	repl map[string]string
}

// pkg is a package of a program.
type pkg struct {
	mod    *mod
	dir    string // below the module
	name   string
	fac    bool // has a factory
	files  []string
	imps   []*pkg
	listed bool
}

func (p *pkg) path() string { return path.Join(p.mod.path, p.dir) }

// configID is the config id of the factory.
func (p *pkg) configID() string { return "cfg/" + p.path() }

// prog is a program with several modules.
type prog struct {
	c    *h.C
	root string
	main *mod
	mods []*mod
	pkgs []*pkg
	// boil lists the boilerplate controller of the tree
	boil bool
	args []string
	n    int
}

var nprog atomic.Int64

var pkgNames = []string{"alpha", "alpha", "beta", "controller", "controller", "bus", "plugin", "b", "alpha_2", "Plugin", "NewPlugin", "nilx", "gamma_controller", "BinaryID"}

func newProg(c *h.C) *prog {
	p := &prog{c: c, n: int(nprog.Add(1))}
	p.root = filepath.Join(scratch, fmt.Sprintf("p%d", p.n))
	must(c.T, os.MkdirAll(p.root, 0o755))
	add := func(mp, dir string) *mod {
		m := &mod{path: mp, dir: dir, repl: map[string]string{}}
		p.mods = append(p.mods, m)
		return m
	}
	base := fmt.Sprintf("example.com/x%d", c.Int(3))
	p.main = add(base, "top/m")
	if c.P(60) {
		add("example.com/o", []string{"top/o", "o", "top/.hid/o", "top/m/.o"}[c.Int(4)])
	}
	if c.P(50) {
		// nested in the main module
		add(base+"/sub", "top/m/sub")
	}
	if c.P(30) {
		add("example.com/top", "top")
	}
	if c.P(25) {
		add("example.com/o/n", []string{"top/on", "..o"}[c.Int(2)])
	}
	for _, m := range p.mods {
		for _, o := range p.mods {
			if o != m {
				rel := relTo(m.dir, o.dir)
				if o == p.main && c.P(50) {
					rel += "/"
				}
				if m == p.main || c.P(60) {
					m.repl[o.path] = rel
				}
				if c.P(10) {
					m.repl[o.path] = filepath.Join(p.root, o.dir)
				}
			}
		}
	}
	used := map[string]bool{}
	for n := 2 + c.Int(5); n > 0; n-- {
		m := p.mods[c.Int(len(p.mods))]
		k := &pkg{mod: m, name: pkgNames[c.Int(len(pkgNames))], fac: c.P(75)}
		k.dir = []string{"", "ctl/", "a/b/", ".hidden/", "_x/", "a-1/"}[c.Int(6)] + fmt.Sprintf("k%d", n)
		if c.P(40) {
			k.dir += "/" + k.name
		}
		if used[k.path()] {
			continue
		}
		used[k.path()] = true
		k.files = []string{"a.go"}
		if c.P(40) {
			k.files = append(k.files, "z.go")
		}
		for _, o := range p.pkgs {
			// of a module which is known to the module
			if c.P(35) {
				k.imps = append(k.imps, o)
			}
		}
		p.pkgs = append(p.pkgs, k)
	}
	nl := 0
	for _, k := range p.pkgs {
		k.listed = c.P(75)
		if k.listed {
			nl++
		}
	}
	if nl == 0 {
		p.pkgs[0].listed = true
	}
	inMain := false
	for _, k := range p.pkgs {
		inMain = inMain || k.listed && k.mod == p.main
	}
	if !inMain {
		// the modules find each other without the main module
		for _, m := range p.mods {
			for _, o := range p.mods {
				if m != o && m.repl[o.path] == "" {
					m.repl[o.path] = relTo(m.dir, o.dir)
				}
			}
		}
	}
	p.boil = c.P(25)
	for _, k := range p.pkgs {
		if !k.listed {
			continue
		}
		arg := k.path()
		if k.mod == p.main && c.P(60) {
			arg = "./" + k.dir
		}
		p.args = append(p.args, arg)
		if c.P(10) {
			p.args = append(p.args, k.path())
		}
	}
	if p.boil {
		p.args = append(p.args, cbus+"/example/boilerplate/controller")
	}
	p.write()
	return p
}

func (p *prog) dir(m *mod) string { return filepath.Join(p.root, m.dir) }

// relTo returns the relative path of a replacement.
func relTo(from, to string) string {
	rel, err := filepath.Rel(from, to)
	if err != nil {
		panic(err)
	}
	if !strings.HasPrefix(rel, "../") && rel != ".." {
		rel = "./" + rel
	}
	return rel
}

// write writes the program.
func (p *prog) write() {
	t := p.c.T
	gomod, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	must(t, err)
	gosum, err := os.ReadFile(filepath.Join(repo, "go.sum"))
	must(t, err)
	for _, m := range p.mods {
		must(t, os.MkdirAll(p.dir(m), 0o755))
		mf, err := modfile.Parse("go.mod", gomod, nil)
		must(t, err)
		must(t, mf.AddModuleStmt(m.path))
		must(t, mf.AddRequire(cbus, "v0.0.0"))
		must(t, mf.AddReplace(cbus, "", repo, ""))
		for _, o := range p.mods {
			if r := m.repl[o.path]; r != "" {
				must(t, mf.AddRequire(o.path, "v0.0.0"))
				must(t, mf.AddReplace(o.path, "", r, ""))
			}
		}
		mf.Cleanup()
		out, err := mf.Format()
		must(t, err)
		must(t, os.WriteFile(filepath.Join(p.dir(m), "go.mod"), out, 0o644))
		must(t, os.WriteFile(filepath.Join(p.dir(m), "go.sum"), gosum, 0o644))
	}
	for _, k := range p.pkgs {
		p.writePkg(k, "1")
	}
}

// writePkg writes a package: it tells who it is.
func (p *prog) writePkg(k *pkg, version string) {
	t := p.c.T
	d := filepath.Join(p.dir(k.mod), k.dir)
	must(t, os.MkdirAll(d, 0o755))
	var b bytes.Buffer
	fmt.Fprintf(&b, "// Package %s is generated.\npackage %s\n\nimport (\n\t\"reflect\"\n", k.name, k.name)
	if k.fac {
		fmt.Fprintf(&b, "\n\t\"%s/bus\"\n\t\"%s/controller\"\n\tboil \"%s/example/boilerplate/controller\"\n", cbus, cbus, cbus)
	}
	for i, o := range k.imps {
		q := `"`
		if i%2 == 1 {
			q = "`"
		}
		fmt.Fprintf(&b, "\ti%d %s%s%s // import\n", i, q, o.path(), q)
	}
	fmt.Fprintf(&b, ")\n\n// T is a type.\ntype T struct{}\n\n// Who tells who the package and its imports are: \"%s\".\nfunc Who() []string {\n\tl := []string{reflect.TypeOf(T{}).PkgPath() + \"@%s\"}\n", k.path(), version)
	for i := range k.imps {
		fmt.Fprintf(&b, "\tl = append(l, i%d.Who()...)\n", i)
	}
	b.WriteString("\treturn l\n}\n")
	fac := fmt.Sprintf(`
// Factory is a factory.
type Factory struct{ controller.Factory }

// Who tells who it is.
func (f *Factory) Who() []string { return Who() }

// GetConfigID returns the config id.
func (f *Factory) GetConfigID() string { return %q }

// NewFactory builds the factory.
func NewFactory(b bus.Bus) controller.Factory { return &Factory{boil.NewFactory(b)} }
`, k.configID())
	if k.fac && len(k.files) == 1 {
		b.WriteString(fac)
	}
	a := b.String()
	if len(k.files) > 1 {
		z := "package " + k.name + "\n\n/* no factory */\n"
		if k.fac {
			if i := strings.Index(b.String(), "import ("); i >= 0 {
				// the imports of the factory move to this file
				s := b.String()
				imp := fmt.Sprintf("\n\t\"%s/bus\"\n\t\"%s/controller\"\n\tboil \"%s/example/boilerplate/controller\"\n", cbus, cbus, cbus)
				a = strings.Replace(s, imp, "", 1)
				z = "package " + k.name + "\n\nimport (" + imp[1:] + ")\n" + fac
				z = strings.Replace(z, "import (\t", "import (\n\t", 1)
			}
		}
		must(t, update(filepath.Join(d, "z.go"), z))
	}
	must(t, update(filepath.Join(d, "a.go"), a))
	must(t, update(filepath.Join(d, "a_test.go"), "package "+k.name+"\n"))
}

// update writes a file so that nobody can read a part of it: in place if the
// size is the same (a single write), otherwise the file is replaced.
func update(f, data string) error {
	if old, err := os.ReadFile(f); err == nil {
		if string(old) == data {
			return nil
		}
		if len(old) == len(data) {
			return rewrite(f, data)
		}
	}
	if err := os.WriteFile(f+".tmp", []byte(data), 0o644); err != nil {
		return err
	}
	return os.Rename(f+".tmp", f)
}

// rewrite writes a file in place.
func rewrite(f, data string) error {
	h, err := os.OpenFile(f, os.O_WRONLY, 0)
	if err != nil {
		return err
	}
	_, err = h.WriteAt([]byte(data), 0)
	if err2 := h.Close(); err == nil {
		err = err2
	}
	return err
}

// tree returns the files below a directory.
func tree(dir string) map[string]string {
	m := map[string]string{}
	_ = filepath.Walk(dir, func(f string, fi os.FileInfo, err error) error {
		if err == nil && fi.Mode().IsRegular() {
			b, _ := os.ReadFile(f)
			rel, _ := filepath.Rel(dir, f)
			m[rel] = string(b)
		}
		return nil
	})
	return m
}

// diff returns the first difference of two trees.
func diff(a, b map[string]string) string {
	var ks []string
	for k := range a {
		ks = append(ks, k)
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		x, ok1 := a[k]
		y, ok2 := b[k]
		if !ok1 || !ok2 {
			return fmt.Sprintf("%s: there=%v/%v", k, ok1, ok2)
		}
		if x != y {
			xl, yl := strings.Split(x, "\n"), strings.Split(y, "\n")
			for i := range xl {
				if i >= len(yl) || xl[i] != yl[i] {
					o := ""
					if i < len(yl) {
						o = yl[i]
					}
					return fmt.Sprintf("%s:%d: %q / %q", k, i+1, xl[i], o)
				}
			}
			return k + ": longer"
		}
	}
	return ""
}

func quietLe() *logrus.Entry {
	l := logrus.New()
	l.SetOutput(io.Discard)
	return logrus.NewEntry(l)
}

// wantPkgs returns the import paths of the listed packages.
func (p *prog) wantPkgs() map[string]*pkg {
	m := map[string]*pkg{}
	for _, k := range p.pkgs {
		if k.listed {
			m[k.path()] = k
		}
	}
	return m
}

func (p *prog) analyze() *plugin_compiler.Analysis {
	c := p.c
	an, err := plugin_compiler.AnalyzePackages(context.Background(), quietLe(), p.dir(p.main), p.args)
	if !c.Check(err == nil, "analyze", "AnalyzePackages of %v: %v", p.args, err) {
		c.Abort()
	}
	return an
}

// checkAnalysis compares the analysis with the program.
func (p *prog) checkAnalysis(an *plugin_compiler.Analysis) bool {
	c := p.c
	want := p.wantPkgs()
	got := an.GetLoadedPackages()
	n := len(want)
	mods := map[string]bool{}
	for pp, k := range want {
		gp := got[pp]
		if !c.Check(gp != nil, "analyze-packages", "package %s was not loaded (%v)", pp, p.args) {
			return false
		}
		if !c.Check(!gp.IllTyped && gp.Name == k.name, "analyze-packages", "package %s is %s ill=%v %v", pp, gp.Name, gp.IllTyped, gp.Errors) {
			return false
		}
		mods[k.mod.path] = true
	}
	if p.boil {
		n++
		mods[cbus] = true
	}
	c.Check(len(got) == n, "analyze-packages", "%d packages were loaded, %d are listed", len(got), n)
	for mp := range mods {
		gm := an.GetImportedModules()[mp]
		c.Check(gm != nil && gm.Path == mp, "analyze-modules", "module %s is missing", mp)
	}
	c.Check(len(an.GetImportedModules()) == len(mods), "analyze-modules", "%d modules, not %d", len(an.GetImportedModules()), len(mods))
	// the code files
	files := func(exact []string, prefix string) {
		res := an.GetProgramCodeFiles(exact, prefix)
		nw := 0
		for pp, k := range want {
			ok := strings.HasPrefix(pp, prefix)
			if len(exact) != 0 {
				found := false
				for _, e := range exact {
					found = found || e == pp
				}
				ok = ok && found
			}
			var wl []string
			if ok {
				nw++
				for _, f := range k.files {
					wl = append(wl, filepath.Join(p.dir(k.mod), k.dir, f))
				}
			}
			gl := append([]string(nil), res[pp]...)
			sort.Strings(gl)
			c.Check(strings.Join(gl, " ") == strings.Join(wl, " "), "code-files", "files of %s with filters %q %q: %v, not %v", pp, exact, prefix, gl, wl)
		}
		if p.boil && len(exact) == 0 && strings.HasPrefix(cbus, prefix) {
			nw++
		}
		c.Check(len(res) == nw, "code-files", "files of %d packages with filters %q %q, not %d", len(res), exact, prefix, nw)
	}
	files(nil, "")
	files(nil, "example.com/o")
	files(nil, p.main.path)
	var one []string
	for pp := range want {
		if one = append(one, pp); len(one) > 1 {
			break
		}
	}
	files(one, "")
	files([]string{"example.com/none"}, "")
	return !c.Failed()
}

// checkWrapper checks the code of the wrapper.
func (p *prog) checkWrapper(an *plugin_compiler.Analysis) bool {
	c := p.c
	gen := func(an *plugin_compiler.Analysis) string {
		gf, err := plugin_compiler.GeneratePluginWrapper(context.Background(), quietLe(), an, "the \"id\"", "v\\1")
		if !c.Check(err == nil, "wrapper", "GeneratePluginWrapper: %v", err) {
			c.Abort()
		}
		dat, err := plugin_compiler.FormatFile(gf)
		if !c.Check(err == nil, "wrapper", "FormatFile: %v", err) {
			c.Abort()
		}
		return string(dat)
	}
	src := gen(an)
	for i := 0; i < 6; i++ {
		o := gen(an)
		if !c.Check(o == src, "wrapper-deterministic", "the wrapper differs: %s", diff(map[string]string{"wrapper": src}, map[string]string{"wrapper": o})) {
			return false
		}
	}
	f, err := parser.ParseFile(token.NewFileSet(), "w.go", src, parser.ParseComments)
	if !c.Check(err == nil, "wrapper-parse", "%v\n%s", err, src) {
		return false
	}
	names := map[string]string{}
	byPath := map[string]string{}
	ndecl := 0
	for _, d := range f.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
			ndecl++
		}
	}
	c.Check(ndecl == 1, "wrapper-imports", "%d import declarations", ndecl)
	for _, im := range f.Imports {
		ip, _ := strconv.Unquote(im.Path.Value)
		n := path.Base(ip)
		if im.Name != nil {
			n = im.Name.Name
		}
		c.Check(names[n] == "", "wrapper-names", "%s and %s are both imported as %s", names[n], ip, n)
		c.Check(byPath[ip] == "", "wrapper-names", "%s is imported twice", ip)
		names[n], byPath[ip] = ip, n
	}
	want := map[string]bool{}
	for pp, k := range p.wantPkgs() {
		if k.fac {
			want[pp] = true
		}
		c.Check((byPath[pp] != "") == k.fac, "wrapper-imports", "%s has a factory: %v, it is imported as %q", pp, k.fac, byPath[pp])
	}
	// the constructors which are called
	got := map[string]int{}
	for _, m := range regexp.MustCompile(`(\w+)\.NewFactory\(b\)`).FindAllStringSubmatch(src, -1) {
		got[names[m[1]]]++
	}
	for pp := range want {
		c.Check(got[pp] == 1, "wrapper-factories", "the factory of %s is constructed %d times\n%s", pp, got[pp], src)
	}
	n := len(want)
	if p.boil {
		n++
	}
	c.Check(len(got) == n, "wrapper-factories", "%d factories, not %d: %v", len(got), n, got)
	return !c.Failed()
}

// checkMods checks the modules which were generated: they find what the program finds.
func (p *prog) checkMods(base, prefix string) {
	c := p.c
	type key struct{ path, vers string }
	orig := map[string]map[key]string{}
	all := map[key]bool{}
	for _, m := range p.mods {
		b, err := os.ReadFile(filepath.Join(p.dir(m), "go.mod"))
		must(c.T, err)
		mf, err := modfile.Parse("go.mod", b, nil)
		must(c.T, err)
		orig[m.path] = map[key]string{}
		for _, r := range mf.Replace {
			t := r.New.Path + "@" + r.New.Version
			if modfile.IsDirectoryPath(r.New.Path) {
				t = r.New.Path
				if !filepath.IsAbs(t) {
					t = filepath.Join(p.dir(m), t)
				}
				t = filepath.Clean(t)
			}
			orig[m.path][key{r.Old.Path, r.Old.Version}] = t
			all[key{r.Old.Path, r.Old.Version}] = true
		}
	}
	used := map[string]bool{}
	for _, k := range p.wantPkgs() {
		used[k.mod.path] = true
	}
	check := func(gm, who string, exp map[key]string) {
		b, err := os.ReadFile(gm)
		if !c.Check(err == nil, "module-missing", "%v", err) {
			return
		}
		mf, err := modfile.Parse(gm, b, nil)
		if !c.Check(err == nil, "module-parse", "%v\n%s", err, b) {
			return
		}
		got := map[key]string{}
		for _, r := range mf.Replace {
			t := r.New.Path + "@" + r.New.Version
			if modfile.IsDirectoryPath(r.New.Path) {
				t = r.New.Path
				if !filepath.IsAbs(t) {
					t = filepath.Join(filepath.Dir(gm), t)
				}
				t = filepath.Clean(t)
				if _, err := os.Stat(t); !strings.HasPrefix(t, base) || strings.HasPrefix(r.Old.Path, prefix) {
					c.Check(err == nil, "module-replace", "%s: %s is replaced with %s: %v", who, r.Old.Path, r.New.Path, err)
				}
			}
			got[key{r.Old.Path, r.Old.Version}] = t
		}
		for k, t := range exp {
			c.Check(got[k] == t, "module-replace", "%s: %s %s is replaced with %q, it was %q", who, k.path, k.vers, got[k], t)
		}
		c.Ev("gomod", "%s %d", who, len(got))
	}
	for _, m := range p.mods {
		if !used[m.path] {
			continue
		}
		exp := map[key]string{}
		for k, t := range orig[m.path] {
			exp[k] = t
		}
		exp[key{m.path, ""}] = p.dir(m)
		for o := range used {
			if o != m.path {
				exp[key{prefix + "/" + o, ""}] = filepath.Join(base, prefix, o)
			}
		}
		check(filepath.Join(base, prefix, m.path, "go.mod"), m.path, exp)
	}
	// the plugin
	exp := map[key]string{}
	for _, m := range p.mods {
		if used[m.path] {
			for k, t := range orig[m.path] {
				exp[k] = t
			}
			exp[key{m.path, ""}] = p.dir(m)
			exp[key{prefix + "/" + m.path, ""}] = filepath.Join(base, prefix, m.path)
		}
	}
	check(filepath.Join(base, prefix, "plugin", "go.mod"), "plugin", exp)
}

// report is what the program tells which uses the plugin.
type report struct {
	ID, Version string
	Factories   []struct {
		ID  string
		Who []string
	}
}

const mainSrc = `package main

import (
	"context"
	"encoding/json"
	"os"

	"github.com/aperturerobotics/controllerbus/bus/inmem"
	"github.com/aperturerobotics/controllerbus/controller"
	dcontroller "github.com/aperturerobotics/controllerbus/directive/controller"
	"github.com/sirupsen/logrus"
)

func main() {
	type fac struct {
		ID  string
		Who []string
	}
	var r struct {
		ID, Version string
		Factories   []fac
	}
	le := logrus.NewEntry(logrus.New())
	bb := inmem.NewBus(dcontroller.NewController(context.Background(), le))
	p := ControllerBusPlugin
	r.ID, r.Version = p.GetBinaryID(), p.GetBinaryVersion()
	for _, f := range BinaryFactories(bb) {
		x := fac{ID: f.GetConfigID()}
		if w, ok := f.(interface{ Who() []string }); ok {
			x.Who = w.Who()
		}
		if _, err := f.Construct(context.Background(), f.ConstructConfig(), controller.ConstructOpts{Logger: le}); err != nil {
			panic(err)
		}
		r.Factories = append(r.Factories, x)
	}
	_ = json.NewEncoder(os.Stdout).Encode(r)
}
`

// who returns what a package tells if it is built with a prefix.
func (p *prog) who(k *pkg, prefix, version string) []string {
	pp := k.path()
	if k.listed && prefix != "" {
		pp = prefix + "/" + pp
	}
	l := []string{pp + "@" + version}
	for _, o := range k.imps {
		op := prefix
		if !k.listed {
			// what is not rewritten imports the original packages
			op = ""
		}
		l = append(l, p.who(o, op, version)...)
	}
	return l
}

// checkReport compares the factories with the program.
func (p *prog) checkReport(r *report, id, version, prefix, pv string) {
	c := p.c
	c.Check(r.ID == id && r.Version == version, "run-id", "the plugin is %q version %q, not %q %q", r.ID, r.Version, id, version)
	got := map[string]int{}
	for _, f := range r.Factories {
		got[f.ID]++
	}
	n := 0
	for _, k := range p.wantPkgs() {
		if !k.fac {
			continue
		}
		n++
		c.Check(got[k.configID()] == 1, "run-factories", "the plugin has %d factories of %s: %v", got[k.configID()], k.path(), got)
		for _, f := range r.Factories {
			if f.ID == k.configID() {
				want := p.who(k, prefix, pv)
				c.Check(strings.Join(f.Who, " ") == strings.Join(want, " "), "run-packages", "%s is built of %v, not %v", k.path(), f.Who, want)
			}
		}
		c.Ev("factory", "%s", k.path())
	}
	if p.boil {
		n++
	}
	c.Check(len(r.Factories) == n, "run-factories", "%d factories, not %d: %v", len(r.Factories), n, got)
}

// command runs the go command.
func command(dir string, args ...string) (string, string, error) {
	cmd := exec.Command("go", args...)
	cmd.Dir = dir
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	err := cmd.Run()
	return so.String(), se.String(), err
}

// runBuilt builds and runs the plugin as a program.
func (p *prog) runBuilt(dir string) *report {
	c := p.c
	must(c.T, os.WriteFile(filepath.Join(dir, "zz_main.go"), []byte(mainSrc), 0o644))
	if _, e, err := command(dir, "mod", "tidy"); err != nil {
		c.Fail("run-tidy", "%v %s", err, e)
		return nil
	}
	o, e, err := command(dir, "run", "-tags", "controllerbus_plugin", ".")
	if !c.Check(err == nil, "run-build", "the plugin of %v does not build: %v\n%s", p.args, err, e) {
		return nil
	}
	var r report
	if err := json.Unmarshal([]byte(o), &r); err != nil {
		c.Fail("run-output", "%v %q", err, o)
		return nil
	}
	return &r
}

// valid reports whether the program builds at all: the modules may not know each other.
func (p *prog) valid() bool {
	args := []string{"list", "-e", "-deps", "-f", "{{if .Error}}{{.Error}}{{end}}"}
	o, e, err := command(p.dir(p.main), append(args, p.args...)...)
	return err == nil && strings.TrimSpace(o) == "" && strings.TrimSpace(e) == ""
}

func runGen(c *h.C) {
	p := newProg(c)
	defer os.RemoveAll(p.root)
	ok := p.valid()
	c.Ev("program", "%d packages %d modules %v valid=%v", len(p.pkgs), len(p.mods), p.args, ok)
	if !ok {
		c.Ev("invalid", "")
		return
	}
	before := tree(p.root)
	an := p.analyze()
	if !p.checkAnalysis(an) || !p.checkWrapper(an) {
		return
	}
	gen := filepath.Join(p.root, "gen")
	if c.P(30) {
		gen = filepath.Join(p.dir(p.main), ".gen", "x")
	}
	if c.P(30) {
		gen = filepath.Join(p.root, "deep", "er", "gen")
	}
	must(c.T, os.MkdirAll(gen, 0o755))
	build := func(an *plugin_compiler.Analysis, prefix, version string) *plugin_compiler.ModuleCompiler {
		mc, err := plugin_compiler.NewModuleCompiler(context.Background(), quietLe(), prefix, gen, "id-"+prefix)
		if !c.Check(err == nil, "generate", "NewModuleCompiler: %v", err) {
			c.Abort()
		}
		err = mc.GenerateModules(an, version)
		if !c.Check(err == nil, "generate", "GenerateModules of %v: %v", p.args, err) {
			c.Abort()
		}
		return mc
	}
	// the analysis is used again for another prefix, as in the two passes of the watcher
	m1 := build(an, "pass1", "v1")
	t1 := tree(filepath.Join(gen, "pass1"))
	m2 := build(an, "cbus-plugin-x", "v2")
	t2 := tree(filepath.Join(gen, "cbus-plugin-x"))
	c.Check(diff(t1, tree(filepath.Join(gen, "pass1"))) == "", "generate-other", "the modules of another prefix changed")
	if c.P(50) {
		// again over the existing modules
		m2 = build(p.analyze(), "cbus-plugin-x", "v2")
	} else {
		m2.Cleanup()
		_, err := os.Stat(filepath.Join(gen, "cbus-plugin-x"))
		c.Check(os.IsNotExist(err), "cleanup-modules", "Cleanup left the modules: %v", err)
		c.Check(diff(t1, tree(filepath.Join(gen, "pass1"))) == "", "cleanup-other", "Cleanup removed other modules")
		m2 = build(p.analyze(), "cbus-plugin-x", "v2")
	}
	d := diff(t2, tree(filepath.Join(gen, "cbus-plugin-x")))
	if !c.Check(d == "", "generate-deterministic", "the modules differ: %s", d) {
		return
	}
	p.checkMods(gen, "cbus-plugin-x")
	if c.Failed() {
		return
	}
	if c.P(40) {
		// not built
	} else if r := p.runBuilt(filepath.Join(gen, "cbus-plugin-x", "plugin", "bin")); r != nil {
		p.checkReport(r, "id-cbus-plugin-x", "v2", "cbus-plugin-x", "1")
		c.Ev("run", "%d factories", len(r.Factories))
	}
	m1.Cleanup()
	m2.Cleanup()
	l, _ := os.ReadDir(gen)
	c.Check(len(l) == 0, "cleanup-modules", "Cleanup left %v", l)
	_ = os.RemoveAll(gen)
	if c.P(12) {
		// packages of the standard library have no module
		must(c.T, os.MkdirAll(gen, 0o755))
		an, err := plugin_compiler.AnalyzePackages(context.Background(), quietLe(), p.dir(p.main), append([]string{"time"}, p.args...))
		if c.Check(err == nil, "analyze", "AnalyzePackages with a standard package: %v", err) {
			mc, err := plugin_compiler.NewModuleCompiler(context.Background(), quietLe(), "std", gen, "id-std")
			must(c.T, err)
			err = mc.GenerateModules(an, "v3")
			c.Ev("std", "%v", err != nil)
			mc.Cleanup()
			_ = os.RemoveAll(gen)
		}
	}
	d = diff(before, tree(p.root))
	c.Check(d == "", "sources", "the sources were changed: %s", d)
}

func TestCheck(t *testing.T) {
	setup(t)
	h.Run(t, []h.Scenario{
		{Name: "cleanup", Quick: 600, Thorough: 20000, Parallel: true, Fn: runCleanup},
		{Name: "hash", Quick: 200, Thorough: 5000, Parallel: true, Fn: runHash},
		{Name: "reload", Quick: 8, Thorough: 80, Parallel: true, Fn: runReload},
		{Name: "single", Quick: 4, Thorough: 40, Parallel: true, Fn: runSingle},
		{Name: "cli", Quick: 8, Thorough: 80, Parallel: true, Fn: runCli},
		{Name: "generate", Quick: 64, Thorough: 4000, Parallel: true, Fn: runGen},
	})
}
