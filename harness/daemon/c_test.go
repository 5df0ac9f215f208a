// Package daemon checks the daemon and the client as processes (C24).
package daemon

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"net"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"regexp"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	bus_api "github.com/aperturerobotics/controllerbus/bus/api"
	"github.com/aperturerobotics/starpc/srpc"
	"github.com/ghodss/yaml"

	"verifharness/h"
)

const boil = "controllerbus/example/boilerplate"

// limit is how long something may take, less after something took too long.
var limit = 90 * time.Second

// buffer collects the output of a process.
type buffer struct {
	mtx sync.Mutex
	b   bytes.Buffer
}

func (b *buffer) Write(p []byte) (int, error) {
	b.mtx.Lock()
	defer b.mtx.Unlock()
	return b.b.Write(p)
}

func (b *buffer) String() string {
	b.mtx.Lock()
	defer b.mtx.Unlock()
	return b.b.String()
}

// proc is a process.
type proc struct {
	cmd      *exec.Cmd
	out, err buffer
	done     chan struct{}
}

// start starts the binary.
func start(c *h.C, dir string, env []string, args ...string) *proc {
	p := &proc{done: make(chan struct{})}
	p.cmd = exec.Command(filepath.Join(os.Getenv("VERIF_CMD"), "controllerbus"), args...)
	p.cmd.Dir = dir
	p.cmd.Env = append(os.Environ(), env...)
	p.cmd.Stdout, p.cmd.Stderr = &p.out, &p.err
	if err := p.cmd.Start(); err != nil {
		panic(err)
	}
	go func() {
		_ = p.cmd.Wait()
		close(p.done)
	}()
	return p
}

// interrupt sends a signal which is not ignored here.
func (p *proc) interrupt(c *h.C) bool {
	for _, sig := range [][]os.Signal{{os.Interrupt, syscall.SIGTERM}, {syscall.SIGTERM, os.Interrupt}}[c.Int(2)] {
		if !signal.Ignored(sig) {
			return p.cmd.Process.Signal(sig) == nil
		}
	}
	return false
}

// kill ends the process.
func (p *proc) kill() {
	_ = p.cmd.Process.Kill()
	<-p.done
}

// ended returns if the process ended.
func (p *proc) ended() bool {
	select {
	case <-p.done:
		return true
	default:
		return false
	}
}

// wait waits until the process ended.
func (p *proc) wait(d time.Duration) bool {
	select {
	case <-p.done:
		return true
	case <-time.After(d):
		if d == limit {
			limit = 5 * time.Second
		}
		return false
	}
}

// until waits until the condition holds.
func until(cond func() bool) bool {
	end := time.Now().Add(limit)
	for d := 2 * time.Millisecond; ; d = min(d*2, 100*time.Millisecond) {
		if cond() {
			return true
		}
		if time.Now().After(end) {
			limit = 5 * time.Second
			return false
		}
		time.Sleep(d)
	}
}

var msgRe = regexp.MustCompile(`(?m)^time="[^"]*" level=\w+ msg=("(?:[^"\\]|\\.)*"|\S+)(.*)$`)

// messages are the messages which were logged.
func (p *proc) messages() (out []string) {
	for _, m := range msgRe.FindAllStringSubmatch(p.err.String(), -1) {
		s := m[1]
		if u, err := strconv.Unquote(s); err == nil {
			s = u
		}
		out = append(out, s)
	}
	return
}

// logged counts a message.
func (p *proc) logged(msg string) (n int) {
	for _, m := range p.messages() {
		if m == msg {
			n++
		}
	}
	return
}

// tail is the end of the output.
func (p *proc) tail() string {
	s := p.err.String() + p.out.String()
	if len(s) > 1500 {
		s = s[len(s)-1500:]
	}
	return s
}

// crashed checks that the process did not panic.
func (p *proc) crashed(c *h.C) {
	s := p.err.String()
	for _, w := range []string{"panic: ", "fatal error: "} {
		if i := strings.Index(s, w); i >= 0 && (i == 0 || s[i-1] == '\n') {
			c.Fail("crash", "%s", s[i:min(len(s), i+1500)])
		}
	}
}

// ent is an entry of a config set.
type ent struct {
	id, field, fail string
	rev             uint64
	noConf          bool
}

// running is what a config executes.
type running struct{ id, field, fail string }

// set is a config set.
type set map[string]ent

// valid returns if the config is valid.
func (e ent) valid() bool { return e.field != "" }

// plain is the document of the set.
func (s set) plain() map[string]any {
	out := map[string]any{}
	for k, e := range s {
		m := map[string]any{"id": e.id}
		if e.rev != 0 {
			m["rev"] = e.rev
		}
		if !e.noConf {
			cc := map[string]any{}
			if e.field != "" {
				cc["exampleField"] = e.field
			}
			if e.fail != "" {
				cc["failWithErr"] = e.fail
			}
			m["config"] = cc
		}
		out[k] = m
	}
	return out
}

// same returns if a document has the same configs.
func (s set) same(doc []byte) (bool, string) {
	j, err := yaml.YAMLToJSON(doc)
	if err != nil {
		return false, err.Error()
	}
	dec := json.NewDecoder(bytes.NewReader(j))
	dec.UseNumber()
	got := map[string]struct {
		ID     string
		Rev    json.Number
		Config struct{ ExampleField, FailWithErr string }
	}{}
	if err := dec.Decode(&got); err != nil {
		return false, err.Error()
	}
	if len(got) != len(s) {
		return false, fmt.Sprintf("%d entries, not %d", len(got), len(s))
	}
	for k, e := range s {
		g, ok := got[k]
		rev := string(g.Rev)
		if rev == "" {
			rev = "0"
		}
		if !ok || g.ID != e.id || rev != strconv.FormatUint(e.rev, 10) || g.Config.ExampleField != e.field || g.Config.FailWithErr != e.fail {
			return false, fmt.Sprintf("%q: %v, not %v", k, g, e)
		}
	}
	return true, ""
}

// distinct are the controllers of the sets.
func distinct(ss ...set) (ok, fails map[running]bool) {
	ok, fails = map[running]bool{}, map[running]bool{}
	for _, s := range ss {
		for _, e := range s {
			if !e.valid() {
				continue
			}
			r := running{e.id, e.field, e.fail}
			if e.fail == "" {
				ok[r] = true
			} else {
				fails[r] = true
			}
		}
	}
	return
}

var words = []string{"a", "b", "hello world", "x: y", "# no", "true", "12", "0x1f", "null", "~", "é ü", "日本", "\"q\"", "it's", "- l", "{a}", "[b]", "*p", "&r", "!t", "%d", "a\tb", "two\nlines", " lead", "trail ", "back\\slash", "@x", "`y`", "2021-01-01", "1e3", "on", "?"}

// genSet makes a config set.
func genSet(c *h.C, prefix string, n, failPct int, ids ...string) set {
	s := set{}
	for i := 0; i < n; i++ {
		e := ent{id: ids[c.Int(len(ids))], field: words[c.Int(len(words))]}
		if c.P(50) {
			e.rev = []uint64{1, 2, 7, 1 << 40, 1<<53 - 1}[c.Int(5)]
		}
		if c.P(failPct) {
			switch c.Int(3) {
			case 0:
				e.field = ""
				e.noConf = c.P(50)
			default:
				e.fail = "fail " + words[c.Int(len(words))]
			}
		}
		s[prefix+words[c.Int(len(words))]] = e
	}
	return s
}

// write writes the set to a file.
func (s set) write(c *h.C, path string) []byte {
	dat, err := json.Marshal(s.plain())
	if err == nil && c.P(60) {
		dat, err = yaml.JSONToYAML(dat)
	}
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(path, dat, 0o600); err != nil {
		panic(err)
	}
	return dat
}

// listen listens on a port outside of the range from which the system takes ports for connections.
func listen() net.Listener {
	shard, _ := strconv.Atoi(os.Getenv("VERIF_SHARD"))
	for i := 0; ; i++ {
		lis, err := net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", 10000+rand.IntN(2500)*8+shard%8))
		if err == nil {
			return lis
		}
		if i > 1000 {
			panic(err)
		}
	}
}

// port finds a free port.
func port() string {
	lis := listen()
	defer lis.Close()
	return lis.Addr().String()
}

// tmp makes a directory for the case.
func tmp(c *h.C) (string, func()) {
	dir, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "d")
	if err != nil {
		panic(err)
	}
	return dir, func() { _ = os.RemoveAll(dir) }
}

// daemon starts the daemon, again with another port if it was taken.
type daemon struct {
	*proc
	addr string
}

func runDaemon(c *h.C, dir, conf string, more ...string) *daemon {
	d := &daemon{addr: port()}
	var args, env []string
	opt := func(pct int, flag, envVar, val string) {
		if c.P(pct) {
			env = append(env, envVar+"="+val)
		} else if val == "true" {
			args = append(args, flag)
		} else {
			args = append(args, flag, val)
		}
	}
	if conf != "controllerbus_daemon.yaml" || c.P(50) {
		opt(30, []string{"--config", "-c"}[c.Int(2)], "CONTROLLER_BUS_CONFIG", conf)
	}
	opt(30, "--api-listen", "CONTROLLER_BUS_API_LISTEN", d.addr)
	for _, m := range more {
		if m == "--write-config" {
			opt(30, m, "CONTROLLER_BUS_WRITE_CONFIG", "true")
		} else {
			args = append(args, m)
		}
	}
	d.proc = start(c, dir, env, append([]string{"daemon"}, args...)...)
	return d
}

// ready waits until the daemon listens.
func (d *daemon) ready(c *h.C) bool {
	var conn net.Conn
	ok := until(func() bool {
		if d.ended() {
			return true
		}
		if d.logged("api listening on: "+d.addr) == 0 {
			return false
		}
		cn, err := net.DialTimeout("tcp", d.addr, time.Second)
		if err != nil {
			return false
		}
		conn = cn
		return true
	})
	if conn != nil {
		_ = conn.Close()
	}
	d.crashed(c)
	return c.Check(ok && !d.ended(), "startup", "the daemon does not start: %s", d.tail())
}

// info asks for the bus info.
func (d *daemon) info(c *h.C) *bus_api.GetBusInfoResponse {
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	conn, err := net.DialTimeout("tcp", d.addr, limit)
	if err != nil {
		c.Fail("dial", "%v: %s", err, d.tail())
		c.Abort()
	}
	defer conn.Close()
	cl, err := srpc.NewClientWithConn(conn, true, nil)
	if err != nil {
		c.Fail("dial", "%v", err)
		c.Abort()
	}
	resp, err := bus_api.NewSRPCControllerBusServiceClient(cl).GetBusInfo(ctx, &bus_api.GetBusInfoRequest{})
	if err != nil {
		c.Fail("bus-info", "%v: %s", err, d.tail())
		c.Abort()
	}
	c.Ev("info", "")
	return resp
}

// controllers lists the controllers.
func controllers(r *bus_api.GetBusInfoResponse) (out []string) {
	for _, x := range r.GetRunningControllers() {
		out = append(out, x.GetId()+" "+x.GetVersion())
	}
	sort.Strings(out)
	return
}

// lookup returns if the directive may stay for a while, or while there are plugins.
func lookup(s string) bool {
	return strings.HasPrefix(s, "LoadFactoryByConfig") || strings.HasPrefix(s, "LoadConfigConstructorByID")
}

// directives lists the directives.
func directives(r *bus_api.GetBusInfoResponse) (out []string) {
	for _, x := range r.GetRunningDirectives() {
		s := x.GetInfo().GetName()
		if lookup(s) {
			continue
		}
		var dv []string
		for _, v := range x.GetInfo().GetDebugVals() {
			dv = append(dv, v.GetKey()+" = "+strings.Join(v.GetValues(), ", "))
		}
		sort.Strings(dv)
		for _, v := range dv {
			s += "\n" + v
		}
		out = append(out, s)
	}
	sort.Strings(out)
	return
}

// applied is the directive of a set.
func applied(s set) string {
	if len(s) == 0 {
		return "ApplyConfigSet"
	}
	var ks []string
	for k, e := range s {
		ks = append(ks, fmt.Sprintf("%s@%d", k, e.rev))
	}
	sort.Strings(ks)
	return "ApplyConfigSet\ncontroller-keys = " + strings.Join(ks, ", ")
}

// expected are the controllers and directives which are expected.
func expected(hot []string, ss ...set) (ctrls, dirs []string) {
	ctrls = []string{"controllerbus/loader 0.0.1", "controllerbus/resolver/static 0.0.1", "controllerbus/configset 0.0.1", "controllerbus/bus/api 0.0.1"}
	load := func(id string) {
		dirs = append(dirs, "LoadControllerWithConfig\nconfig-id = "+id, "ExecController\nconfig-id = "+id)
	}
	load("controllerbus/configset")
	load("controllerbus/bus/api")
	if hot != nil {
		ctrls = append(ctrls, "controllerbus/plugin/loader/shared-library/filesystem 0.0.1")
		load("controllerbus/plugin/loader/shared-library/filesystem")
		for _, id := range hot {
			ctrls = append(ctrls, "controllerbus/resolver/controllerbus/hot/plugin/"+id+"/v1/static-resolver 0.0.1")
		}
	}
	ok, fails := distinct(ss...)
	for r := range ok {
		if r.id == boil {
			ctrls = append(ctrls, boil+" 0.0.1")
		} else {
			ctrls = append(ctrls, r.id+" 1.2.3")
		}
		load(r.id)
	}
	for r := range fails {
		load(r.id)
	}
	for _, s := range ss {
		dirs = append(dirs, applied(s))
	}
	sort.Strings(ctrls)
	sort.Strings(dirs)
	return
}

// settled waits until the daemon has what is expected.
func (d *daemon) settled(c *h.C, what string, hot []string, ss ...set) bool {
	ctrls, dirs := expected(hot, ss...)
	var gotC, gotD []string
	ok := until(func() bool {
		r := d.info(c)
		gotC, gotD = controllers(r), directives(r)
		return fmt.Sprint(gotC) == fmt.Sprint(ctrls) && fmt.Sprint(gotD) == fmt.Sprint(dirs)
	})
	d.crashed(c)
	return c.Check(ok, what, "the daemon has\n%q\n%q\nnot\n%q\n%q\n%s", gotC, gotD, ctrls, dirs, d.tail())
}

// hello is what the controller says.
func hello(r running) string {
	if r.id == boil {
		return "hello from boilerplate controller: " + r.field
	}
	return "hello from " + r.id + ": " + r.field
}

// executed checks that each config was executed once, the failing ones at least once.
func (d *daemon) executed(c *h.C, times int, ss ...set) {
	ok, fails := distinct(ss...)
	for r := range ok {
		n := 0
		until(func() bool {
			n = d.logged(hello(r))
			return n >= times
		})
		c.Check(n == times, "executed", "%q was executed %d times, not %d: %s", r, n, times, d.tail())
	}
	for r := range fails {
		if r.id == boil {
			c.Check(until(func() bool { return strings.Contains(d.err.String(), "error="+quoted(r.fail)) }), "executed", "%q was not executed: %s", r, d.tail())
		}
	}
	for _, m := range d.messages() {
		if strings.HasPrefix(m, "hello from ") {
			known := false
			for r := range ok {
				known = known || hello(r) == m
			}
			c.Check(known, "executed-other", "said %q", m)
		}
	}
	c.Ev("executed", "%d+%d", len(ok), len(fails))
}

// quoted quotes a log field.
func quoted(s string) string {
	if strings.IndexFunc(s, func(r rune) bool {
		return !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || strings.ContainsRune("-._/@^+", r))
	}) < 0 {
		return s
	}
	return strconv.Quote(s)
}

// runConfig runs the daemon with a config file, again with the file it wrote.
func runConfig(c *h.C) {
	dir, clean := tmp(c)
	defer clean()
	s := genSet(c, "", c.Int(6), 25, boil)
	name := []string{"conf.yaml", "controllerbus_daemon.yaml", filepath.Join(dir, "x y.json")}[c.Int(3)]
	path := name
	if !filepath.IsAbs(path) {
		path = filepath.Join(dir, path)
	}
	missing := len(s) == 0 && c.P(60)
	var before []byte
	if !missing {
		before = s.write(c, path)
	}
	wr := missing || c.P(60)
	var more []string
	if wr {
		more = append(more, "--write-config")
	}
	var hot []string
	if c.P(20) {
		hot = []string{}
		if err := os.Mkdir(filepath.Join(dir, "plugins"), 0o700); err != nil {
			panic(err)
		}
		more = append(more, "--hot-load-dir", filepath.Join(dir, "plugins"))
	}
	c.Ev("config", "%d entries %q missing %v write %v hot %v", len(s), s, missing, wr, hot != nil)
	runs := 1
	if wr {
		runs = 2
	}
	for i := 0; i < runs && !c.Failed(); i++ {
		func() {
			d := runDaemon(c, dir, name, more...)
			defer d.kill()
			if !d.ready(c) {
				return
			}
			dat, err := os.ReadFile(path)
			c.Check(err == nil, "config-file", "%v", err)
			if wr {
				ok, why := s.same(dat)
				c.Check(ok, "written", "the config file written has %s:\n%s", why, dat)
				before = dat
				more = more[1:]
				if hot != nil {
					more = append(more[:0:0], "--hot-load-dir", filepath.Join(dir, "plugins"))
				}
				wr = false
			} else {
				c.Check(bytes.Equal(dat, before), "config-file", "the config file was changed:\n%s\n%s", before, dat)
			}
			if d.settled(c, "apply", hot, s) {
				d.executed(c, 1, s)
			}
			c.Check(!d.ended(), "ended", "the daemon ended: %s", d.tail())
			if c.P(50) && d.interrupt(c) {
				c.Check(d.wait(limit), "interrupt", "the daemon does not end on an interrupt")
			}
		}()
	}
}

// runErrors checks that the daemon fails to start and tells why.
func runErrors(c *h.C) {
	dir, clean := tmp(c)
	defer clean()
	path := filepath.Join(dir, "conf.yaml")
	var before []byte
	write := func(s string) {
		before = []byte(s)
		if err := os.WriteFile(path, before, 0o600); err != nil {
			panic(err)
		}
	}
	wr := c.P(50)
	want := ""
	name := []string{"missing", "directory", "yaml", "shape", "no-id", "no-config", "field", "value", "taken", "address", "dir-missing"}[c.Int(11)]
	valid := `ok: {id: "` + boil + `", config: {exampleField: "x"}}` + "\n"
	if c.P(50) {
		valid = ""
	}
	lis := listen()
	defer lis.Close()
	addr := "127.0.0.1:0"
	switch name {
	case "missing":
		wr = false
		want = "cannot find config at " + path
	case "directory":
		want = "load config"
		if err := os.Mkdir(path, 0o700); err != nil {
			panic(err)
		}
	case "yaml":
		write(valid + []string{"a: {", "a: [b", "\tx: y", "a: \"", "a: b: c", "- a\nb: c", "a: *nope", "\x00"}[c.Int(8)])
		want = "unmarshal config yaml"
	case "shape":
		valid = ""
		write([]string{"[]", "5", "text", "[{id: x}]", "true"}[c.Int(5)])
		want = "unmarshal config yaml"
	case "no-id":
		write(valid + []string{"a: {config: {}}", "a: {id: \"\"}", "a: {rev: 5}", "a: {}"}[c.Int(4)])
		want = `unmarshal config "a"`
	case "no-config":
		write(valid + []string{"a: null", "a:", "a: ~"}[c.Int(3)])
		want = `unmarshal config "a"`
	case "field":
		write(valid + []string{"a: 5", "a: []", "a: {id: x, rev: -1}", "a: {id: x, rev: y}", "a: {id: x, rev: 1.5}", "a: {id: x, config: 5}", "a: {id: x, config: []}", "a: {id: x, rev: 18446744073709551616}"}[c.Int(8)])
		want = "unmarshal config yaml"
	case "value":
		write(valid + `a: {id: "` + boil + `", config: {exampleField: ` + []string{"5", "[]", "{}", "true"}[c.Int(4)] + "}}")
		want = `unmarshal config "a"`
	case "taken":
		write(valid)
		addr = lis.Addr().String()
		want = "listen on api"
	case "address":
		write(valid)
		addr = []string{"127.0.0.1:bad!", "nohost.invalid.:1:2", "127.0.0.1:99999"}[c.Int(3)]
		want = "listen on api"
	case "dir-missing":
		write(valid)
		path = filepath.Join(dir, "no", "such", "conf.yaml")
		before = nil
		if wr {
			want = "write config file"
		} else {
			want = "cannot find config at " + path
		}
	}
	args := []string{"daemon", "--config", path, "--api-listen", addr}
	if wr {
		args = append(args, "--write-config")
	}
	p := start(c, dir, nil, args...)
	defer p.kill()
	c.Ev("error", "%s write %v %q", name, wr, before)
	if want == "listen on api" {
		// it may already be seen as running when it fails, then it is retried
		until(func() bool {
			return p.ended() || strings.Contains(p.err.String(), "backing off before controller re-start")
		})
		if p.wait(200 * time.Millisecond) {
			c.Ev("listen-ended", "")
		} else {
			c.Check(p.logged("controller exited with error") > 0, "listen-error", "the error is not logged: %s", p.tail())
			if name != "taken" {
				return
			}
			_ = lis.Close()
			c.Ev("listen-again", "")
			c.Check(until(func() bool {
				if p.ended() {
					return true
				}
				conn, err := net.DialTimeout("tcp", addr, time.Second)
				if err == nil {
					_ = conn.Close()
				}
				return err == nil
			}) && !p.ended(), "listen-again", "the daemon does not listen after the address is free again: %s", p.tail())
			p.crashed(c)
			return
		}
	}
	if !c.Check(p.wait(limit), "keeps-running", "the daemon keeps running (%s, %q): %s", name, before, p.tail()) {
		return
	}
	p.crashed(c)
	code := p.cmd.ProcessState.ExitCode()
	c.Check(code == 1, "exit-code", "the daemon exits with %d (%s): %s", code, name, p.tail())
	c.Check(strings.Contains(p.out.String(), want), "message", "the daemon says %q, not %q (%s)", p.out.String(), want, name)
	if before != nil && want != "listen on api" {
		dat, err := os.ReadFile(path)
		c.Check(err == nil && bytes.Equal(dat, before), "config-file", "the config file was changed: %q, not %q (%v)", dat, before, err)
	}
	for _, m := range p.messages() {
		c.Check(!strings.HasPrefix(m, "hello") || want == "listen on api", "applied", "the config was applied although it is invalid: %q", m)
	}
}

// client runs the client.
func (d *daemon) client(c *h.C, dir string, env []string, args ...string) *proc {
	return start(c, dir, env, append([]string{"client", "--dial-addr", d.addr}, args...)...)
}

// pretty parses the status for people.
func pretty(s string) (ctrls, dirs []string, ok bool) {
	var list *[]string
	head, rest, _ := strings.Cut(s, "\n")
	if head != "✓ controller-bus running" {
		return nil, nil, false
	}
	// values may have line breaks
	rest = strings.TrimSuffix(rest, "\n")
	var cur []string
	end := func() {
		if cur != nil {
			sort.Strings(cur[1:])
			*list = append(*list, strings.Join(cur, "\n"))
			cur = nil
		}
	}
	for _, l := range strings.Split(rest, "\n") {
		switch {
		case l == "Controllers:" || l == "Controllers: [none]":
			list = &ctrls
		case l == "Directives:" || l == "Directives: [none]":
			end()
			list = &dirs
		case strings.HasPrefix(l, "\t\t"):
			cur = append(cur, l[2:])
		case strings.HasPrefix(l, "\t"):
			if list == nil {
				return nil, nil, false
			}
			end()
			cur = []string{l[1:]}
		default:
			if len(cur) < 2 {
				return nil, nil, false
			}
			cur[len(cur)-1] += "\n" + l
		}
	}
	end()
	sort.Strings(ctrls)
	sort.Strings(dirs)
	return ctrls, dirs, true
}

// busInfo compares what the client tells with what is expected.
func (d *daemon) busInfo(c *h.C, dir string, ss ...set) {
	ctrls, dirs := expected(nil, ss...)
	var env []string
	args := []string{"bus-info"}
	js := c.P(50)
	if js {
		if c.P(50) {
			args = append(args, "--interactive=false")
		} else {
			env = append(env, "CONTROLLER_BUS_INTERACTIVE=false")
		}
	}
	p := d.client(c, dir, env, args...)
	defer p.kill()
	if !c.Check(p.wait(limit) && p.cmd.ProcessState.ExitCode() == 0, "client-info", "bus-info ends with %v: %s", p.cmd.ProcessState, p.tail()) {
		return
	}
	p.crashed(c)
	var gotC, gotD []string
	if js {
		var r struct {
			RunningControllers []struct{ ID, Version, Description string }
			RunningDirectives  []struct {
				Info struct {
					Name      string
					DebugVals []struct {
						Key    string
						Values []string
					}
				}
			}
		}
		err := json.Unmarshal([]byte(p.out.String()), &r)
		c.Check(err == nil, "client-info", "%v: %s", err, p.out.String())
		for _, x := range r.RunningControllers {
			gotC = append(gotC, x.ID+" "+x.Version)
			c.Check(x.Description != "", "client-info", "no description: %s", p.out.String())
		}
		for _, x := range r.RunningDirectives {
			s := x.Info.Name
			for _, v := range x.Info.DebugVals {
				s += "\n" + v.Key + " = " + strings.Join(v.Values, ", ")
			}
			gotD = append(gotD, s)
		}
	} else {
		var ok bool
		gotC, gotD, ok = pretty(p.out.String())
		c.Check(ok, "client-info", "cannot parse %q", p.out.String())
	}
	gotD = slices.DeleteFunc(gotD, lookup)
	sort.Strings(gotC)
	sort.Strings(gotD)
	c.Check(fmt.Sprint(gotC) == fmt.Sprint(ctrls) && fmt.Sprint(gotD) == fmt.Sprint(dirs), "client-info", "bus-info (json %v) tells\n%q\n%q\nnot\n%q\n%q", js, gotC, gotD, ctrls, dirs)
	c.Ev("client-info", "json %v", js)
}

// status is a line which exec prints.
type status struct {
	ID, Status, ErrorInfo string
	ControllerInfo        struct{ ID, Version, Description string }
}

// statuses parses what exec printed.
func statuses(c *h.C, p *proc) (out []status) {
	s := p.out.String()
	s = s[:strings.LastIndex(s, "\n")+1]
	for _, l := range strings.Split(strings.TrimSuffix(s, "\n"), "\n") {
		if l == "" {
			continue
		}
		if !strings.HasPrefix(l, "{") && p.ended() {
			continue
		}
		var st status
		if err := json.Unmarshal([]byte(l), &st); err != nil {
			c.Fail("status-line", "%v: %q", err, l)
			c.Abort()
		}
		out = append(out, st)
	}
	return
}

// runClient runs the commands of the client against a daemon.
func runClient(c *h.C) {
	dir, clean := tmp(c)
	defer clean()
	s := genSet(c, "", c.Int(4), 0, boil)
	s.write(c, filepath.Join(dir, "conf.yaml"))
	d := runDaemon(c, dir, "conf.yaml")
	defer d.kill()
	if !d.ready(c) || !d.settled(c, "apply", nil, s) {
		return
	}
	c.Ev("config", "%d entries %q", len(s), s)
	ran := map[running]int{}
	for n := 0; n < 1+c.Int(4) && !c.Failed(); n++ {
		switch c.Int(4) {
		case 0:
			d.busInfo(c, dir, s)
		case 1:
			// a request which fails
			var args []string
			what := []string{"no-file", "missing", "yaml", "no-id", "empty"}[c.Int(5)]
			path := filepath.Join(dir, "bad.yaml")
			want := ""
			switch what {
			case "no-file":
				args = []string{"exec"}
				want = "at least one config"
			case "missing":
				args = []string{"exec", "-f", filepath.Join(dir, "nope.yaml")}
				want = "nope.yaml"
			case "yaml":
				_ = os.WriteFile(path, []byte("a: {"), 0o600)
				args = []string{"exec", "-f", path}
				want = "parse configset file"
			case "no-id":
				_ = os.WriteFile(path, []byte("a: {config: {}}"), 0o600)
				args = []string{"exec", "-f", path}
				want = "config id was not specified"
			case "empty":
				_ = os.WriteFile(path, []byte("[]"), 0o600)
				args = []string{"exec", "-f", path}
				want = "cannot unmarshal"
			}
			p := d.client(c, dir, nil, args...)
			if c.Check(p.wait(limit), "client-fails", "exec (%s) does not end: %s", what, p.tail()) {
				p.crashed(c)
				c.Check(p.cmd.ProcessState.ExitCode() == 1 && strings.Contains(p.out.String(), want), "client-fails", "exec (%s) ends with %v: %s", what, p.cmd.ProcessState, p.tail())
			}
			p.kill()
			c.Ev("client-fails", "%s", what)
		default:
			x := genSet(c, "x", 1+c.Int(4), 40, boil)
			path := filepath.Join(dir, "exec.yaml")
			x.write(c, path)
			var env []string
			args := []string{"exec"}
			switch c.Int(3) {
			case 0:
				env = []string{"CONTROLLER_BUS_EXEC_CONFIG_SET_FILE=" + path}
			case 1:
				args = append(args, "-f", path)
			case 2:
				args = append(args, "--config-set-file", path)
			}
			ok, _ := distinct(x)
			base, _ := distinct(s)
			before := map[running]int{}
			for r := range ok {
				before[r] = d.logged(hello(r))
			}
			p := d.client(c, dir, env, args...)
			seen := map[string]map[string]int{}
			done := until(func() bool {
				clear(seen)
				for _, st := range statuses(c, p) {
					if seen[st.ID] == nil {
						seen[st.ID] = map[string]int{}
					}
					e, known := x[st.ID]
					c.Check(known, "exec-id", "a status of %q, which was not requested", st.ID)
					switch st.Status {
					case "ControllerStatus_RUNNING":
						c.Check(e.valid() && st.ControllerInfo.ID == boil && st.ControllerInfo.Version == "0.0.1" && st.ErrorInfo == "", "exec-status", "%v of %v", st, e)
					case "ControllerStatus_ERROR":
						c.Check(!e.valid() && st.ErrorInfo != "" || e.fail != "" && st.ErrorInfo == e.fail, "exec-status", "%v of %v", st, e)
					case "ControllerStatus_CONFIGURING":
						c.Check(st.ErrorInfo == "", "exec-status", "%v of %v", st, e)
					default:
						c.Fail("exec-status", "%v of %v", st, e)
					}
					seen[st.ID][st.Status]++
				}
				if p.ended() {
					return true
				}
				for k, e := range x {
					if e.valid() && e.fail == "" && seen[k]["ControllerStatus_RUNNING"] == 0 {
						return false
					}
					if (!e.valid() || e.fail != "") && seen[k]["ControllerStatus_ERROR"] == 0 {
						return false
					}
				}
				return true
			})
			c.Check(done && !p.ended(), "exec", "exec of %q ends or reports too little: %v: %s\n%s", x, seen, p.tail(), d.tail())
			p.crashed(c)
			for k := range x {
				if e := x[k]; e.valid() && e.fail == "" {
					c.Check(seen[k]["ControllerStatus_ERROR"] == 0, "exec-status", "%q: %v", k, seen[k])
				}
			}
			for r := range ok {
				want := before[r]
				if !base[r] {
					want++
				}
				got := 0
				until(func() bool {
					got = d.logged(hello(r))
					return got >= want
				})
				c.Check(got == want, "exec-executed", "%v was executed %d times, not %d", r, got, want)
				ran[r] = got
			}
			if c.P(50) && p.interrupt(c) {
				c.Check(p.wait(limit), "interrupt", "exec does not end on an interrupt")
			}
			p.kill()
			c.Ev("exec", "%q", x)
			d.settled(c, "exec-end", nil, s)
		}
	}
	if !c.Failed() {
		d.busInfo(c, dir, s)
		// the controllers of the config were not touched
		ok, _ := distinct(s)
		for r := range ok {
			c.Check(d.logged(hello(r)) == 1, "executed", "%v was executed %d times", r, d.logged(hello(r)))
		}
	}
	d.crashed(c)
}

// runHot runs the daemon with plugins.
func runHot(c *h.C) {
	dir, clean := tmp(c)
	defer clean()
	pdir := filepath.Join(dir, "plugins")
	if err := os.Mkdir(pdir, 0o700); err != nil {
		panic(err)
	}
	present := map[string]bool{}
	file := func(id string) string { return filepath.Join(pdir, filepath.Base(id)+".cbus.so") }
	put := func(id string) {
		if err := os.Link(filepath.Join(os.Getenv("VERIF_SO"), filepath.Base(id)+".cbus.so"), file(id)); err != nil {
			panic(err)
		}
		present[id] = true
		c.Ev("put", "%s", id)
	}
	plugins := []string{"verif/d1", "verif/d2"}
	loaded := func() []string {
		out := []string{}
		for _, id := range plugins {
			if present[id] {
				out = append(out, id)
			}
		}
		return out
	}
	ids := []string{boil}
	for _, id := range plugins {
		if c.P(70) {
			ids = append(ids, id)
		}
	}
	s := genSet(c, "", 1+c.Int(4), 15, ids...)
	need := map[string]bool{}
	for _, e := range s {
		if e.id != boil {
			need[e.id] = true
		}
	}
	s.write(c, filepath.Join(dir, "conf.yaml"))
	for _, id := range plugins {
		if c.P(50) {
			put(id)
		}
	}
	_ = os.WriteFile(filepath.Join(pdir, "readme.txt"), []byte("not a plugin"), 0o600)
	c.Ev("config", "%d entries %q", len(s), s)
	d := runDaemon(c, dir, "conf.yaml", "--hot-load-dir", pdir)
	defer d.kill()
	if c.P(50) {
		time.Sleep(time.Duration(c.Int(600)) * time.Millisecond)
	}
	for _, id := range plugins {
		if need[id] && !present[id] {
			c.Check(!d.ended() && d.logged("api listening on: "+d.addr) == 0, "waits", "the daemon does not wait for the plugin %s: %s", id, d.tail())
			put(id)
		}
	}
	if !d.ready(c) || !d.settled(c, "apply-plugins", loaded(), s) {
		return
	}
	d.executed(c, 1, s)
	// unload
	cur := set{}
	for k, e := range s {
		cur[k] = e
	}
	for _, id := range plugins {
		if !present[id] || c.P(50) {
			continue
		}
		if err := os.Remove(file(id)); err != nil {
			panic(err)
		}
		present[id] = false
		c.Ev("remove", "%s", id)
		var want, got []string
		ok, _ := distinct(cur)
		for r := range ok {
			if r.id == id {
				for k, e := range cur {
					if e.id == id {
						delete(cur, k)
					}
				}
			}
		}
		want, _ = expected(loaded(), cur)
		c.Check(until(func() bool {
			got = controllers(d.info(c))
			return fmt.Sprint(got) == fmt.Sprint(want)
		}), "unload", "after the plugin %s was removed the daemon has %q, not %q: %s", id, got, want, d.tail())
	}
	d.crashed(c)
	c.Check(!d.ended(), "ended", "the daemon ended: %s", d.tail())
	ok, _ := distinct(cur)
	for r := range ok {
		c.Check(d.logged(hello(r)) == 1, "executed", "%v was executed %d times", r, d.logged(hello(r)))
	}
}

func TestCheck(t *testing.T) {
	h.Run(t, []h.Scenario{
		{Name: "config", Quick: 200, Thorough: 1500, Parallel: true, Fn: runConfig},
		{Name: "errors", Quick: 200, Thorough: 800, Parallel: true, Fn: runErrors},
		{Name: "client", Quick: 150, Thorough: 1500, Parallel: true, Fn: runClient},
		{Name: "hotload", Quick: 120, Thorough: 1000, Parallel: true, Fn: runHot},
	})
}
