// Package csenc checks encoding, decoding and merging of config sets (C19).
package csenc

import (
	"bytes"
	"context"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	bus_api "github.com/aperturerobotics/controllerbus/bus/api"
	bus_api_controller "github.com/aperturerobotics/controllerbus/bus/api/controller"
	"github.com/aperturerobotics/controllerbus/config"
	"github.com/aperturerobotics/controllerbus/controller/configset"
	configset_controller "github.com/aperturerobotics/controllerbus/controller/configset/controller"
	configset_json "github.com/aperturerobotics/controllerbus/controller/configset/json"
	configset_proto "github.com/aperturerobotics/controllerbus/controller/configset/proto"
	controller_exec "github.com/aperturerobotics/controllerbus/controller/exec"
	"github.com/aperturerobotics/controllerbus/controller/resolver"
	"github.com/aperturerobotics/controllerbus/controller/resolver/static"
	"github.com/aperturerobotics/controllerbus/core"
	"github.com/aperturerobotics/controllerbus/directive"
	boilerplate "github.com/aperturerobotics/controllerbus/example/boilerplate/controller"
	pjson "github.com/aperturerobotics/protobuf-go-lite/json"
	"github.com/blang/semver/v4"
	"github.com/ghodss/yaml"

	"verifharness/bw"
	"verifharness/h"
	"verifharness/sc"
)

type tb struct {
	c  *h.C
	w  *bw.W
	e  *sc.Env
	sr *static.Resolver
}

func newTB(c *h.C) *tb {
	ctx, cancel := context.WithCancel(context.Background())
	b, sr, err := core.NewCoreBus(ctx, c.Le)
	if !c.Check(err == nil, "core", "NewCoreBus: %v", err) {
		c.Abort()
	}
	t := &tb{c: c, w: &bw.W{C: c, Ctx: ctx, Cancel: cancel, B: b}, e: &sc.Env{C: c}, sr: sr}
	sr.AddFactory(&sc.Fac{E: t.e, ID: "test/a", Ver: semver.MustParse("0.0.1"), Tag: "a"})
	sr.AddFactory(&sc.Fac{E: t.e, ID: "test/b", Ver: semver.MustParse("0.0.1"), Tag: "b"})
	sr.AddFactory(boilerplate.NewFactory(b))
	sr.AddFactory(bus_api_controller.NewFactory(b))
	return t
}

// end checks that nothing is left on the bus.
func (t *tb) end() {
	c := t.c
	time.Sleep(time.Minute)
	c.Wait()
	for _, di := range t.w.B.GetDirectives() {
		_, isLookup := di.GetDirective().(resolver.LoadConfigConstructorByID)
		c.Check(!isLookup, "leaked-lookup", "a config constructor lookup is left on the bus")
	}
	t.w.Cancel()
	time.Sleep(time.Second)
	c.Wait()
}

var strs = []string{
	"", "a", "hello world", "true", "null", "~", "1", "1e3", "0x10", "0o7", "012", "1_000", "yes", "No", "on", ".5", ".inf", ".nan", "-", "- a", "a: b", "#c", "a #c",
	"2001-01-01", "2001-01-01T00:00:00Z", "12:30:45", "[1]", "{}", "{", "{\"n\":1}", "}", "\"q\"", "'q'", "\\", "\n", "a\nb\n", "\tx", " lead", "trail ", "é", "日本", "😀", "\u2028", "\u0085", "\u0001", "\u007f",
	"!x", "&x", "*x", "%x", "@x", "`x", "|", ">", "?", ":", ",", "=", "<>&", "</script>", "\ufeffx", "\ufffd", strings.Repeat("x", 300), strings.Repeat("word ", 40), "a/b-c.d", "../x", "configs", "id", "rev", "config",
}

func (t *tb) str() string {
	if t.c.P(15) {
		return strs[t.c.Int(len(strs))] + strs[t.c.Int(len(strs))]
	}
	return strs[t.c.Int(len(strs))]
}

// pstr returns a string for protobuf messages: protobuf-go-lite writes strings with the escapes of Go, of which not all are JSON.
func (t *tb) pstr() string {
	for {
		k := t.str()
		var o string
		if json.Unmarshal([]byte(strconv.Quote(k)), &o) == nil && o == k {
			return k
		}
	}
}

// plainYAML: the JSON can be read as YAML by the library.
func plainYAML(b []byte) bool {
	return bytes.IndexFunc(b, func(r rune) bool { return r >= 0x7f && r <= 0x9f || r == 0xfffe || r == 0xffff }) < 0
}

func (t *tb) rev() uint64 {
	switch t.c.Int(9) {
	case 0:
		return 0
	case 1:
		return 1 << 53
	case 2:
		return 1<<53 + 1
	case 3:
		return math.MaxInt64
	case 4:
		return math.MaxInt64 + 1
	case 5:
		return math.MaxUint64
	case 6:
		return math.MaxUint64 - 1
	default:
		return uint64(t.c.Int(1000))
	}
}

func (t *tb) conf() config.Config {
	c := t.c
	if c.P(10) {
		// no content
		return []config.Config{&sc.Conf{ID: "test/a"}, &boilerplate.Config{}, &configset_controller.Config{}, &bus_api_controller.Config{}}[c.Int(4)]
	}
	switch c.Int(6) {
	case 0:
		return &boilerplate.Config{ExampleField: t.pstr(), FailWithErr: t.pstr()}
	case 1:
		return &configset_controller.Config{}
	case 2:
		a := &bus_api_controller.Config{ListenAddr: t.pstr()}
		if c.P(50) {
			a.BusApiConfig = &bus_api.Config{EnableExecController: c.P(50)}
		}
		return a
	default:
		n := []int64{0, 1, -1, 1<<53 + 1, math.MaxInt64, math.MinInt64, 123, 10}
		return &sc.Conf{ID: []string{"test/a", "test/b"}[c.Int(2)], N: n[c.Int(len(n))], S: t.str(), Bad: c.P(20)}
	}
}

func (t *tb) set(max int) configset.ConfigSet {
	s := configset.ConfigSet{}
	for i := t.c.Int(max + 1); i > 0; i-- {
		k := t.pstr()
		if k == "" && t.c.P(70) {
			k = "k"
		}
		s[k] = configset.NewControllerConfig(t.rev(), t.conf())
	}
	return s
}

func show(cc configset.ControllerConfig) string {
	if cc == nil {
		return "none"
	}
	if cc.GetConfig() == nil {
		return fmt.Sprintf("nil@%d", cc.GetRev())
	}
	b, err := cc.GetConfig().MarshalJSON()
	return fmt.Sprintf("%s%s@%d%s", cc.GetConfig().GetConfigID(), b, cc.GetRev(), map[bool]string{true: "", false: fmt.Sprint(err)}[err == nil])
}

func keysOf[V any](m map[string]V) (o []string) {
	for k := range m {
		o = append(o, k)
	}
	sort.Strings(o)
	return
}

// same compares sets.
func (t *tb) same(sig, how string, got, want configset.ConfigSet) {
	c := t.c
	for _, k := range keysOf(want) {
		g, ok := got[k]
		if !c.Check(ok && g != nil, sig+"-key", "%s: key %q is missing: have %q", how, k, keysOf(got)) {
			continue
		}
		w := want[k]
		c.Check(g.GetRev() == w.GetRev(), sig+"-rev", "%s: %q has revision %d, want %d", how, k, g.GetRev(), w.GetRev())
		gc, wc := g.GetConfig(), w.GetConfig()
		if !c.Check(gc != nil, sig+"-nil", "%s: %q has no config", how, k) {
			continue
		}
		c.Check(gc.GetConfigID() == wc.GetConfigID(), sig+"-id", "%s: %q has config id %s, want %s", how, k, gc.GetConfigID(), wc.GetConfigID())
		c.Check(gc.EqualsConfig(wc) && wc.EqualsConfig(gc), sig+"-config", "%s: %q has config %s, want %s", how, k, show(g), show(w))
		ga, _ := gc.MarshalVT()
		wa, _ := wc.MarshalVT()
		c.Check(bytes.Equal(ga, wa), sig+"-config", "%s: %q has config %s, want %s", how, k, show(g), show(w))
	}
	for _, k := range keysOf(got) {
		_, ok := want[k]
		c.Check(ok, sig+"-extra", "%s: unexpected key %q = %s", how, k, show(got[k]))
	}
	if got == nil && len(want) == 0 {
		return // nothing, and Equal says that no set equals nil.
	}
	eq := len(got) == len(want) && got.Equal(want) && want.Equal(got)
	c.Check(eq || c.Failed(), sig+"-equal", "%s: Equal reports that the sets differ", how)
}

func must(c *h.C, err error, sig, f string, a ...any) {
	if !c.Check(err == nil, sig, "%s: %v", fmt.Sprintf(f, a...), err) {
		c.Abort()
	}
}

// noPanic runs fn.
func noPanic(c *h.C, sig, what string, fn func()) {
	defer func() {
		if e := recover(); e != nil {
			if c.Failed() {
				panic(e)
			}
			c.Check(false, sig, "%s: panic: %v", what, e)
			c.Abort()
		}
	}()
	fn()
}

// roundtrip takes a set through a chain of encodings.
func roundtrip(c *h.C) {
	t := newTB(c)
	ctx := t.w.Ctx
	orig := t.set(4)
	cur := orig
	how := ""
	for i := 1 + c.Int(4); i > 0; i-- {
		switch x := c.Int(4); x {
		case 0, 1:
			js := x == 1
			how += fmt.Sprintf(">proto(json=%v)", js)
			var ps *configset_proto.ConfigSet
			var err error
			switch c.Int(3) {
			case 0:
				ps, err = configset_proto.NewConfigSet(cur, js)
				must(c, err, "enc", "%s", how)
			case 1:
				m, err := configset_proto.NewConfigSetMap(cur, js)
				must(c, err, "enc", "%s", how)
				ps = &configset_proto.ConfigSet{Configs: m}
			default:
				m := configset_proto.ConfigSetMap{}
				for _, k := range keysOf(cur) {
					pc, err := m.ApplyConfig(k, cur[k].GetConfig(), cur[k].GetRev(), c.P(50))
					must(c, err, "enc", "ApplyConfig of %q", k)
					c.Check(m[k] == pc && pc.GetRev() == cur[k].GetRev() && pc.GetId() == cur[k].GetConfig().GetConfigID(), "apply-config", "ApplyConfig of %q = %v", k, pc)
				}
				ps = &configset_proto.ConfigSet{Configs: m}
			}
			how += t.protoHops(&ps)
			if c.P(30) {
				must(c, ps.Validate(), "validate", "%s: Validate", how)
			}
			cur, err = ps.Resolve(ctx, t.w.B)
			must(c, err, "resolve", "%s: Resolve", how)
		case 2:
			how += ">json"
			b, err := json.Marshal(configset_json.NewConfigSet(cur))
			must(c, err, "enc", "%s", how)
			if c.P(30) {
				// the same document describes a proto set
				how += "-as-proto"
				var m map[string]json.RawMessage
				must(c, json.Unmarshal(b, &m), "invalid-json", "%s", b)
				ps := &configset_proto.ConfigSet{Configs: map[string]*configset_proto.ControllerConfig{}}
				for k, v := range m {
					pc := &configset_proto.ControllerConfig{}
					must(c, pc.UnmarshalJSON(v), "dec", "%s: %s", how, v)
					ps.Configs[k] = pc
				}
				cur, err = ps.Resolve(ctx, t.w.B)
				must(c, err, "resolve", "%s: Resolve", how)
				break
			}
			var js configset_json.ConfigSet
			must(c, json.Unmarshal(b, &js), "dec", "%s: %s", how, b)
			if c.P(25) {
				// encode what was decoded but is not resolved yet
				how += "-unresolved"
				b2, err := json.Marshal(js)
				must(c, err, "enc", "%s", how)
				var x, y any
				must(c, json.Unmarshal(b, &x), "dec", "%s", how)
				must(c, json.Unmarshal(b2, &y), "dec", "%s", how)
				bx, _ := json.Marshal(x)
				by, _ := json.Marshal(y)
				c.Check(bytes.Equal(bx, by), "reencode", "%s encodes as %s before it is resolved", b, b2)
				js = nil
				must(c, json.Unmarshal(b2, &js), "dec", "%s: %s", how, b2)
			}
			cur, err = js.Resolve(ctx, t.w.B)
			must(c, err, "resolve", "%s: Resolve of %s", how, b)
			if c.P(30) {
				// again: the same
				how += "-again"
				cur, err = js.Resolve(ctx, t.w.B)
				must(c, err, "resolve-again", "%s: second Resolve of %s", how, b)
			}
			if c.P(20) {
				// encode what was decoded
				b2, err := json.Marshal(js)
				must(c, err, "enc", "%s", how)
				var x, y any
				must(c, json.Unmarshal(b, &x), "dec", "%s", how)
				must(c, json.Unmarshal(b2, &y), "dec", "%s", how)
				bx, _ := json.Marshal(x)
				by, _ := json.Marshal(y)
				c.Check(bytes.Equal(bx, by), "reencode", "%s encodes as %s after decoding", b, b2)
			}
		default:
			how += ">yaml"
			b, err := configset_json.MarshalYAML(cur)
			must(c, err, "enc", "%s", how)
			if c.P(30) {
				b2, err := configset_json.MarshalYAML(cur)
				c.Check(err == nil && bytes.Equal(b, b2), "yaml-determinism", "encoded differently:\n%s\n%s", b, b2)
			}
			if c.P(20) {
				how += "-each"
				out := configset.ConfigSet{}
				for _, k := range keysOf(cur) {
					d, _ := json.Marshal(configset_json.NewControllerConfig(cur[k]))
					if !plainYAML(d) {
						out[k] = cur[k]
						continue
					}
					d, err := yaml.Marshal(configset_json.NewControllerConfig(cur[k]))
					must(c, err, "enc", "%s", how)
					cc, err := configset_json.UnmarshalControllerConfigYAML(d)
					must(c, err, "dec", "%s: %s", how, d)
					out[k], err = cc.Resolve(ctx, t.w.B)
					must(c, err, "resolve", "%s: Resolve of %s", how, d)
				}
				cur = out
				break
			}
			out := configset.ConfigSet{}
			added, err := configset_json.UnmarshalYAML(ctx, t.w.B, b, out, c.P(50))
			must(c, err, "dec", "%s:\n%s\n", how, b)
			sort.Strings(added)
			c.Check(fmt.Sprintf("%q", added) == fmt.Sprintf("%q", keysOf(out)), "yaml-added", "UnmarshalYAML reported %q, added %q", added, keysOf(out))
			cur = out
		}
		t.same("roundtrip", how, cur, orig)
		if cur == nil {
			cur = configset.ConfigSet{}
		}
		if c.Failed() {
			break
		}
	}
	c.Ev("roundtrip", "%d configs %s", len(orig), how)
	t.end()
}

// protoHops encodes and decodes ps.
func (t *tb) protoHops(ps **configset_proto.ConfigSet) (how string) {
	c := t.c
	for i := c.Int(4); i > 0; i-- {
		out := &configset_proto.ConfigSet{}
		switch c.Int(6) {
		case 0, 1:
			how += "-vt"
			b, err := (*ps).MarshalVT()
			must(c, err, "enc", "MarshalVT")
			must(c, out.UnmarshalVT(b), "dec", "UnmarshalVT of %q", b)
		case 2:
			how += "-json"
			b, err := (*ps).MarshalJSON()
			must(c, err, "enc", "MarshalJSON")
			c.Check(json.Valid(b), "invalid-json", "MarshalJSON = %s", b)
			must(c, out.UnmarshalJSON(b), "dec", "UnmarshalJSON of %s", b)
		case 3:
			if j, _ := (*ps).MarshalJSON(); !plainYAML(j) {
				continue
			}
			how += "-yaml"
			b, err := yaml.Marshal(*ps)
			must(c, err, "enc", "yaml")
			must(c, yaml.Unmarshal(b, out), "dec", "yaml.Unmarshal of %s", b)
		case 4:
			how += "-clone"
			out = (*ps).CloneVT()
		case 5:
			how += "-merge"
			var a, b configset_proto.ConfigSet
			for _, k := range keysOf((*ps).GetConfigs()) {
				if c.P(50) {
					if a.Configs == nil {
						a.Configs = map[string]*configset_proto.ControllerConfig{}
					}
					a.Configs[k] = (*ps).Configs[k]
				} else {
					if b.Configs == nil {
						b.Configs = map[string]*configset_proto.ControllerConfig{}
					}
					b.Configs[k] = (*ps).Configs[k]
				}
			}
			out = configset_proto.MergeConfigSets(&a, nil, &b)
		}
		*ps = out
	}
	return
}

// entry is a part of a document.
type entry struct {
	key   string
	js    string // its JSON as configset_json
	pjs   string // its JSON as configset_proto
	wantJ configset.ControllerConfig
	wantP configset.ControllerConfig // nil: error
	why   string
}

func jstr(s string) string {
	b, _ := json.Marshal(s)
	return string(b)
}

func (t *tb) entry(key string) *entry {
	c := t.c
	e := &entry{key: key, why: "ok"}
	conf := t.conf()
	cj, _ := conf.MarshalJSON()
	rev := t.rev()
	id, cs, revs := jstr(conf.GetConfigID()), string(cj), strconv.FormatUint(rev, 10)
	var wc config.Config = conf
	pcs, prevs := cs, revs
	okJ, okP := true, true
	empty := func() {
		switch x := conf.(type) {
		case *sc.Conf:
			wc = &sc.Conf{ID: x.ID}
		case *boilerplate.Config:
			wc = &boilerplate.Config{}
		case *configset_controller.Config:
			wc = &configset_controller.Config{}
		case *bus_api_controller.Config:
			wc = &bus_api_controller.Config{}
		}
	}
	bad := func(why string) { e.why, okJ, okP = why, false, false }
	switch x := c.Int(22); x {
	case 0:
		e.why, cs, pcs = "no config", "", ""
		empty()
	case 1:
		e.why, cs, pcs = "null config", "null", "null"
		empty()
	case 2:
		bad("null entry")
		e.js, e.pjs = "null", "null"
	case 3:
		bad("no id")
		id = []string{"", `""`, "null"}[c.Int(3)]
	case 4:
		bad("config not an object")
		cs = []string{"1", "true", "[]", "[{}]", `"!!"`}[c.Int(5)]
		pcs = cs
	case 5:
		// binary
		b, _ := conf.MarshalVT()
		if len(b) > 0 {
			okJ = false
			e.why = "binary config"
			cs = jstr(base64.RawStdEncoding.EncodeToString(b))
			pcs = cs
		}
	case 6:
		bad("bad rev")
		revs = []string{"-1", "1.5", "true", "[]", "{}", `"x"`, "18446744073709551616", "1e400"}[c.Int(8)]
		prevs = revs
	case 7:
		bad("field type")
		conf = &sc.Conf{ID: "test/a"}
		id = `"test/a"`
		cs = []string{`{"n":"x"}`, `{"s":1}`, `{"bad":3}`, `{"n":1e30}`}[c.Int(4)]
		pcs = cs
	case 8:
		bad("field type")
		id = jstr(boilerplate.ConfigID)
		cs = []string{`{"exampleField":1}`, `{"exampleField":{}}`, `{"failWithErr":[]}`}[c.Int(3)]
		pcs = cs
	case 9:
		bad("entry not an object")
		e.js = []string{"1", `"x"`, "[]", "true"}[c.Int(4)]
		e.pjs = e.js
	case 10:
		e.why, okJ = "rev string", false
		prevs = jstr(prevs)
		revs = prevs
	case 11:
		e.why, revs, prevs, rev = "no rev", "", "", 0
	case 12:
		bad("id not a string")
		id = []string{"1", "{}", "[]", "true"}[c.Int(4)]
	}
	if e.js == "" {
		e.js, e.pjs = t.obj(id, revs, cs), t.obj(id, prevs, pcs)
	}
	if okJ {
		e.wantJ = configset.NewControllerConfig(rev, wc)
	}
	if okP {
		e.wantP = configset.NewControllerConfig(rev, wc)
	}
	return e
}

func (t *tb) obj(id, rev, conf string) string {
	c := t.c
	var f []string
	if id != "" {
		f = append(f, `"id":`+id)
	}
	if rev != "" {
		f = append(f, `"rev": `+rev)
	}
	if conf != "" {
		f = append(f, `"config" : `+conf)
	}
	if c.P(15) {
		f = append(f, `"unknown":{"id":"x","rev":[1,{"config":null}]}`)
	}
	for i := range f {
		j := i + c.Int(len(f)-i)
		f[i], f[j] = f[j], f[i]
	}
	return "{" + strings.Join(f, [2]string{",", " ,\n "}[c.Int(2)]) + "}"
}

// documents decodes documents with known meaning.
func documents(c *h.C) {
	t := newTB(c)
	ctx, cancel := context.WithTimeout(t.w.Ctx, time.Minute)
	defer cancel()
	keys := map[string]bool{}
	var es []*entry
	for i := c.Int(4); i > 0; i-- {
		k := t.pstr()
		if !keys[k] {
			keys[k] = true
			es = append(es, t.entry(k))
		}
	}
	var dj, dp []string
	wantJ, wantP := configset.ConfigSet{}, configset.ConfigSet{}
	why, badJ, badP := "", "", ""
	for _, e := range es {
		dj = append(dj, jstr(e.key)+":"+e.js)
		dp = append(dp, jstr(e.key)+":"+e.pjs)
		why += "," + e.why
		if e.wantJ == nil {
			badJ += "," + e.why
		} else {
			wantJ[e.key] = e.wantJ
		}
		if e.wantP == nil {
			badP += "," + e.why
		} else {
			wantP[e.key] = e.wantP
		}
	}
	docJ, docP := "{"+strings.Join(dj, ",")+"}", `{"configs":{`+strings.Join(dp, ",")+"}}"
	judge := func(how, doc, bad string, got configset.ConfigSet, err error, want configset.ConfigSet) {
		if bad != "" {
			c.Check(err != nil, "accepted", "%s: accepted (%s) %s as %v", how, bad[1:], doc, keysOf(got))
			return
		}
		if c.Check(err == nil, "rejected", "%s: rejected %s: %v", how, doc, err) {
			t.same("doc", how+" of "+doc, got, want)
		}
	}
	noPanic(c, "panic", "decoding "+docJ, func() {
		var js configset_json.ConfigSet
		err := json.Unmarshal([]byte(docJ), &js)
		var got configset.ConfigSet
		if err == nil {
			got, err = js.Resolve(ctx, t.w.B)
		}
		judge("json", docJ, badJ, got, err, wantJ)
	})
	noPanic(c, "panic", "decoding yaml of "+docJ, func() {
		y := []byte(docJ)
		if !plainYAML(y) {
			return
		}
		if c.P(50) {
			if v, err := yaml.JSONToYAML(y); err == nil {
				y = v
			}
		}
		// merged into an existing set
		ow := c.P(50)
		out, want := configset.ConfigSet{}, configset.ConfigSet{}
		for _, k := range keysOf(keys) {
			if c.P(30) {
				out[k] = configset.NewControllerConfig(77, &sc.Conf{ID: "test/a", N: 77})
			}
		}
		if c.P(30) {
			out["other"] = configset.NewControllerConfig(77, &sc.Conf{ID: "test/a", N: 78})
		}
		before := configset.ConfigSet{}
		var wantAdded []string
		bad, parseBad := "", false
		for k, v := range out {
			want[k], before[k] = v, v
		}
		for _, e := range es {
			if e.wantJ == nil && strings.Contains("bad rev,entry not an object,rev string,id not a string,config not an object,binary config", e.why) {
				parseBad = true // is detected for all entries
			}
			if _, ok := out[e.key]; ok && !ow {
				continue
			}
			if e.wantJ == nil {
				bad += "," + e.why
				continue
			}
			want[e.key] = e.wantJ
			wantAdded = append(wantAdded, e.key)
		}
		sort.Strings(wantAdded)
		added, err := configset_json.UnmarshalYAML(ctx, t.w.B, y, out, ow)
		sort.Strings(added)
		if bad == "" && !parseBad {
			judge("yaml", string(y), "", out, err, want)
			c.Check(fmt.Sprintf("%q", added) == fmt.Sprintf("%q", wantAdded), "yaml-added", "UnmarshalYAML reported %q, want %q", added, wantAdded)
			return
		}
		if bad != "" {
			c.Check(err != nil, "accepted", "yaml: accepted (%s) %s", bad[1:], y)
		}
		// what was not reported did not change.
		was := map[string]bool{}
		for _, k := range added {
			was[k] = true
			c.Check(out[k] != nil && out[k].GetConfig() != nil, "yaml-added", "UnmarshalYAML reported %q: %s", k, show(out[k]))
		}
		for k, v := range out {
			c.Check(was[k] || before[k] == v, "yaml-added", "UnmarshalYAML of %s did not report the change of %q (%v)", y, k, err)
		}
	})
	noPanic(c, "panic", "decoding "+docP, func() {
		ps := &configset_proto.ConfigSet{}
		err := ps.UnmarshalJSON([]byte(docP))
		var got configset.ConfigSet
		if err == nil {
			got, err = ps.Resolve(ctx, t.w.B)
		}
		judge("proto", docP, badP, got, err, wantP)
	})
	c.Ev("document", "%s", why)
	t.end()
}

// mutated decodes damaged documents.
func mutated(c *h.C) {
	t := newTB(c)
	ctx, cancel := context.WithTimeout(t.w.Ctx, time.Minute)
	defer cancel()
	s := t.set(3)
	var doc []byte
	kind := c.Int(4)
	switch kind {
	case 0:
		doc, _ = json.Marshal(configset_json.NewConfigSet(s))
	case 1:
		doc, _ = configset_json.MarshalYAML(s)
	case 2:
		ps, _ := configset_proto.NewConfigSet(s, c.P(50))
		doc, _ = ps.MarshalJSON()
	case 3:
		ps, _ := configset_proto.NewConfigSet(s, c.P(50))
		doc, _ = ps.MarshalVT()
	}
	toks := []string{"{", "}", "[", "]", ",", ":", "null", "\"", "-", "0", "1e9", "true", "\\u00", "{}", "\n", " ", "&a", "*a", "? ", "- ", "\x00", "\xff", "config", "id", "{{{{", "!!binary"}
	if c.P(5) {
		doc = []byte(toks[c.Int(len(toks))])
	}
	for i := c.Int(4); i > 0 && len(doc) > 0; i-- {
		p := c.Int(len(doc))
		q := p + c.Int(min(len(doc)-p, 30)+1)
		x := c.Int(6)
		c.Ev("mutate", "%d %d", kind, x)
		switch x {
		case 0:
			doc = doc[:p]
		case 1:
			doc = append(append([]byte{}, doc[:p]...), doc[q:]...)
		case 2:
			doc = append(append(append([]byte{}, doc[:p]...), toks[c.Int(len(toks))]...), doc[p:]...)
		case 3:
			doc = append(append(append([]byte{}, doc[:p]...), toks[c.Int(len(toks))]...), doc[q:]...)
		case 4:
			doc = append([]byte{}, doc...)
			doc[p] = byte(c.Int(256))
		case 5:
			doc = append(append(append([]byte{}, doc[:q]...), doc[p:q]...), doc[q:]...)
		}
	}
	legal := func(how string, got configset.ConfigSet) {
		for k, v := range got {
			if c.Check(v != nil && v.GetConfig() != nil, "nil-config", "%s of %q: %q is %s", how, doc, k, show(v)) {
				id := v.GetConfig().GetConfigID()
				c.Check(strings.HasPrefix(id, "test/") || id == boilerplate.ConfigID || id == bus_api_controller.ConfigID || id == configset_controller.ConfigID, "odd-id", "%s: id %q", how, id)
			}
		}
	}
	// the reference decoder
	type ref struct {
		Rev    uint64          `json:"rev"`
		ID     string          `json:"id"`
		Config json.RawMessage `json:"config"`
	}
	refDecode := func(js []byte) (configset.ConfigSet, string) {
		var m map[string]*ref
		if err := json.Unmarshal(js, &m); err != nil {
			return nil, err.Error()
		}
		out := configset.ConfigSet{}
		for k, r := range m {
			if r == nil || r.ID == "" {
				return nil, "no id"
			}
			cf := ctor(r.ID)
			if cf == nil {
				return nil, "unknown id"
			}
			if d := bytes.TrimSpace(r.Config); len(d) > 0 && string(d) != "null" {
				if d[0] != '{' {
					return nil, "not an object"
				}
				if err := cf.UnmarshalJSON(d); err != nil {
					return nil, err.Error()
				}
			}
			out[k] = configset.NewControllerConfig(r.Rev, cf)
		}
		return out, ""
	}
	compare := func(how string, js []byte, got configset.ConfigSet, err error) {
		want, bad := refDecode(js)
		if bad != "" {
			c.Check(err != nil, "accepted", "%s accepted %q: %s", how, doc, bad)
			c.Ev("refused", "%s", how)
			return
		}
		if c.Check(err == nil, "rejected", "%s rejected %q: %v", how, doc, err) {
			t.same("mutated", fmt.Sprintf("%s of %q", how, doc), got, want)
			c.Ev("decoded", "%s", how)
		}
	}
	noPanic(c, "panic", fmt.Sprintf("decoding %d %q", kind, doc), func() {
		switch kind {
		case 0:
			js := configset_json.ConfigSet{}
			err := json.Unmarshal(doc, &js)
			var got configset.ConfigSet
			if err == nil {
				if js == nil {
					return // null
				}
				got, err = js.Resolve(ctx, t.w.B)
			}
			compare("json", doc, got, err)
		case 1:
			got := configset.ConfigSet{}
			added, err := configset_json.UnmarshalYAML(ctx, t.w.B, doc, got, true)
			legal("yaml", got)
			sort.Strings(added)
			c.Check(fmt.Sprintf("%q", added) == fmt.Sprintf("%q", keysOf(got)), "yaml-added", "UnmarshalYAML reported %q, added %q", added, keysOf(got))
			js, yerr := yaml.YAMLToJSON(doc)
			if yerr != nil {
				c.Check(err != nil, "accepted", "yaml accepted %q: %v", doc, yerr)
				c.Ev("refused", "yaml")
				return
			}
			compare("yaml", js, got, err)
		case 2:
			ps := &configset_proto.ConfigSet{}
			if err := ps.UnmarshalJSON(doc); err != nil {
				c.Ev("refused", "proto json")
				return
			}
			t.useProto(ctx, ps, doc, legal)
		case 3:
			ps := &configset_proto.ConfigSet{}
			if err := ps.UnmarshalVT(doc); err != nil {
				c.Ev("refused", "proto")
				return
			}
			t.useProto(ctx, ps, doc, legal)
		}
	})
	t.end()
}

func (t *tb) useProto(ctx context.Context, ps *configset_proto.ConfigSet, doc []byte, legal func(string, configset.ConfigSet)) {
	c := t.c
	verr := ps.Validate()
	for k, v := range ps.GetConfigs() {
		b := v.GetConfig()
		bad := v.GetId() == "" || len(b) > 0 && b[0] == '{' && !json.Valid(b)
		if bad {
			c.Check(verr != nil, "validate", "Validate accepts %q: id %q config %q", k, v.GetId(), b)
		}
	}
	b, err := ps.MarshalJSON()
	representable := true
	for k, v := range ps.GetConfigs() {
		for _, x := range []string{k, v.GetId()} {
			var o string
			representable = representable && json.Unmarshal([]byte(strconv.Quote(x)), &o) == nil
		}
	}
	if err == nil && representable {
		c.Check(json.Valid(b), "invalid-json", "decoding %q and encoding gives invalid JSON %q", doc, b)
	}
	b, err = ps.MarshalVT()
	if c.Check(err == nil, "enc", "MarshalVT of what %q decodes to: %v", doc, err) {
		p2 := &configset_proto.ConfigSet{}
		err := p2.UnmarshalVT(b)
		c.Check(err == nil && len(p2.GetConfigs()) == len(ps.GetConfigs()), "dec", "UnmarshalVT of %q: %v", b, err)
	}
	got, err := ps.Resolve(ctx, t.w.B)
	if err == nil {
		c.Check(len(got) == len(ps.GetConfigs()), "lost", "Resolve returned %q for %q", keysOf(got), keysOf(ps.GetConfigs()))
		legal("proto", got)
		for k, v := range got {
			pc := ps.GetConfigs()[k]
			c.Check(v.GetRev() == pc.GetRev() && (v.GetConfig() == nil || v.GetConfig().GetConfigID() == pc.GetId()), "resolved", "%q: %s resolved from %v", k, show(v), pc)
		}
		c.Ev("decoded", "proto")
	} else {
		c.Ev("refused", "proto resolve")
	}
}

func ctor(id string) config.Config {
	switch id {
	case "test/a", "test/b":
		return &sc.Conf{ID: id}
	case boilerplate.ConfigID:
		return &boilerplate.Config{}
	case bus_api_controller.ConfigID:
		return &bus_api_controller.Config{}
	case configset_controller.ConfigID:
		return &configset_controller.Config{}
	}
	return nil
}

// merge merges sets.
func merge(c *h.C) {
	keys := []string{"a", "b", "c", "", "zz"}
	n := c.Int(5)
	sets := make([]configset.ConfigSet, n)
	psets := make([]*configset_proto.ConfigSet, n)
	mk := func(i int) {
		if c.P(10) {
			if c.P(50) {
				psets[i] = &configset_proto.ConfigSet{}
			}
			return
		}
		sets[i] = configset.ConfigSet{}
		psets[i] = &configset_proto.ConfigSet{Configs: map[string]*configset_proto.ControllerConfig{}}
		for _, k := range keys {
			if c.P(10) {
				sets[i][k] = nil
				psets[i].Configs[k] = nil
			} else if c.P(60) {
				rev := uint64(c.Int(3))
				if c.P(10) {
					rev = math.MaxUint64
				}
				conf := &sc.Conf{ID: fmt.Sprint("test/", c.Int(2)), N: int64(100*i + c.Int(3))}
				sets[i][k] = configset.NewControllerConfig(rev, conf)
				b, _ := conf.MarshalVT()
				psets[i].Configs[k] = &configset_proto.ControllerConfig{Id: conf.ID, Rev: rev, Config: b}
			}
		}
	}
	for i := range sets {
		mk(i)
		if i > 0 && c.P(10) {
			sets[i], psets[i] = sets[i-1], psets[i-1]
		}
	}
	snap := make([]configset.ConfigSet, n)
	psnap := make([]map[string]*configset_proto.ControllerConfig, n)
	pold := make([]*configset_proto.ConfigSet, n)
	for i, s := range sets {
		if s != nil {
			snap[i] = configset.ConfigSet{}
			for k, v := range s {
				snap[i][k] = v
			}
		}
		pold[i] = psets[i].CloneVT()
		if psets[i].GetConfigs() != nil {
			psnap[i] = map[string]*configset_proto.ControllerConfig{}
			for k, v := range psets[i].Configs {
				psnap[i][k] = v
			}
		}
	}
	want := map[string]int{} // set with the config
	for i, s := range sets {
		for k, v := range s {
			if v == nil {
				continue
			}
			if w, ok := want[k]; !ok || sets[w][k].GetRev() <= v.GetRev() {
				want[k] = i
			}
		}
	}
	unchanged := func() {
		for i := range sets {
			c.Check(len(sets[i]) == len(snap[i]) && len(psets[i].GetConfigs()) == len(psnap[i]), "merge-input", "input %d was modified", i)
			for k, v := range snap[i] {
				c.Check(sets[i][k] == v, "merge-input", "input %d was modified at %q", i, k)
			}
			for k, v := range psnap[i] {
				c.Check(psets[i].Configs[k] == v, "merge-input", "input %d was modified at %q", i, k)
				c.Check(v == nil && pold[i].Configs[k] == nil || v.EqualVT(pold[i].Configs[k]), "merge-input", "the config %q of input %d was modified", k, i)
			}
		}
	}
	out := configset.MergeConfigSets(sets...)
	c.Check(out != nil && len(out) == len(want), "merge-keys", "merged keys %q, want %q", keysOf(out), keysOf(want))
	for k, i := range want {
		c.Check(out[k] != nil && out[k] == sets[i][k], "merge-value", "merged %q is %s, want %s", k, show(out[k]), show(sets[i][k]))
	}
	unchanged()
	pout := configset_proto.MergeConfigSets(psets...)
	c.Check(pout != nil && len(pout.Configs) == len(want), "merge-keys", "merged proto keys %q, want %q", keysOf(pout.GetConfigs()), keysOf(want))
	for k, i := range want {
		c.Check(pout.Configs[k].EqualVT(psets[i].Configs[k]) && pout.Configs[k] != nil, "merge-value", "merged proto %q is %v, want %v", k, pout.Configs[k], psets[i].Configs[k])
	}
	unchanged()
	// the result is independent of the inputs' maps
	pout.Configs["new"] = &configset_proto.ControllerConfig{}
	out["new"] = configset.NewControllerConfig(1, nil)
	unchanged()
	// into an existing map
	if n > 0 {
		m := configset_proto.ConfigSetMap{}
		for k, v := range psets[0].GetConfigs() {
			if v != nil {
				m[k] = v
			}
		}
		var rest []configset_proto.ConfigSetMap
		for _, p := range psets[1:] {
			rest = append(rest, p.GetConfigs())
		}
		configset_proto.MergeConfigSetMaps(m, rest...)
		c.Check(len(m) == len(want), "merge-keys", "merged map keys %q, want %q", keysOf(m), keysOf(want))
		for k, i := range want {
			c.Check(m[k].EqualVT(psets[i].Configs[k]), "merge-value", "merged map %q is %v, want %v", k, m[k], psets[i].Configs[k])
		}
		unchanged()
		configset_proto.MergeConfigSetMaps(nil, rest...)
	}
	c.Ev("merge", "%d sets -> %d", n, len(out))
}

// equal compares sets and renderings.
func equal(c *h.C) {
	t := &tb{c: c, e: &sc.Env{C: c}}
	a := t.set(5)
	// the same content, built differently
	b := configset.ConfigSet{}
	ks := keysOf(a)
	for i := range ks {
		j := i + c.Int(len(ks)-i)
		ks[i], ks[j] = ks[j], ks[i]
	}
	for _, k := range ks {
		if c.P(30) {
			b["tmp"+k] = a[k]
		}
		cf := ctor(a[k].GetConfig().GetConfigID())
		d, _ := a[k].GetConfig().MarshalVT()
		must(c, cf.UnmarshalVT(d), "dec", "copy")
		b[k] = configset.NewControllerConfig(a[k].GetRev(), cf)
	}
	for _, k := range ks {
		if _, ok := a["tmp"+k]; !ok {
			delete(b, "tmp"+k)
		}
	}
	what := "none"
	diff := false
	if c.P(60) {
		var k string
		if len(ks) > 0 {
			k = ks[0]
		}
		switch x := c.Int(5); {
		case x == 0 || len(ks) == 0:
			what = "added"
			if _, ok := b["added"]; !ok {
				diff = true
				b["added"] = configset.NewControllerConfig(0, &boilerplate.Config{})
			}
		case x == 1:
			what, diff = "removed", true
			delete(b, k)
		case x == 2:
			what, diff = "rev", true
			b[k] = configset.NewControllerConfig(b[k].GetRev()^uint64(1<<uint(c.Int(64))), b[k].GetConfig())
		case x == 3:
			what = "config"
			n := configset.NewControllerConfig(b[k].GetRev(), t.conf())
			d1, _ := n.GetConfig().MarshalVT()
			d2, _ := b[k].GetConfig().MarshalVT()
			diff = n.GetConfig().GetConfigID() != b[k].GetConfig().GetConfigID() || !bytes.Equal(d1, d2)
			b[k] = n
		case x == 4:
			what = "renamed"
			if _, ok := b[k+"x"]; !ok {
				diff = true
				b[k+"x"] = b[k]
				delete(b, k)
			}
		}
	}
	c.Check(a.Equal(a) && b.Equal(b), "equal-self", "a set is not equal to itself")
	c.Check(a.Equal(b) == !diff && b.Equal(a) == !diff, "equal", "Equal = %v/%v, want %v (%s)", a.Equal(b), b.Equal(a), !diff, what)
	da, db := configset.NewApplyConfigSet(a), configset.NewApplyConfigSet(b)
	c.Check(da.(directive.DirectiveWithEquiv).IsEquivalent(db) == !diff, "equal-directive", "IsEquivalent of equal=%v sets (%s)", !diff, what)
	// renderings
	rend := func(d directive.Directive) string {
		b, err := directive.NewDirectiveInfo(d).MarshalVT()
		must(c, err, "enc", "DirectiveInfo")
		return string(b)
	}
	ra, rb := rend(da), rend(db)
	c.Check(rend(da) == ra, "render", "the rendering of a set changes")
	if !diff {
		c.Check(ra == rb, "render", "equal sets render differently: %q %q", ra, rb)
	}
	if what == "rev" || what == "added" && diff || what == "removed" {
		c.Check(ra != rb, "render-differs", "different sets render the same (%s): %q", what, ra)
	}
	var want []string
	for k, v := range a {
		want = append(want, k+"@"+new(big.Int).SetUint64(v.GetRev()).String())
	}
	sort.Strings(want)
	got := da.(directive.Debuggable).GetDebugVals()["controller-keys"]
	c.Check(fmt.Sprintf("%q", got) == fmt.Sprintf("%q", want), "render-keys", "rendered keys %q, want %q", got, want)
	// debug values in general
	dv := directive.NewDebugValues()
	for i := c.Int(6); i > 0; i-- {
		dv[t.str()] = []string{t.str(), t.str()}[:c.Int(3)]
	}
	pv := directive.NewProtoDebugValues(dv)
	c.Check(len(pv) == len(dv), "debug-values", "%d values of %d", len(pv), len(dv))
	for i, v := range pv {
		c.Check(fmt.Sprintf("%q", v.GetValues()) == fmt.Sprintf("%q", dv[v.GetKey()]), "debug-values", "%q = %q", v.GetKey(), v.GetValues())
		c.Check(i == 0 || pv[i-1].GetKey() < v.GetKey(), "debug-values", "%q is after %q", v.GetKey(), pv[max(i-1, 0)].GetKey())
	}
	mv := config.DebugValues{}
	config.MergeDebugVals(mv, config.DebugValues(dv), config.DebugValues(dv))
	for k, v := range dv {
		c.Check(fmt.Sprintf("%q", mv[k]) == fmt.Sprintf("%q", append(append([]string{}, v...), v...)), "merge-debug", "merged %q = %q from %q", k, mv[k], v)
	}
	c.Ev("equal", "%s %v", what, diff)
}

// bodies: config bodies given by hand.
func bodies(c *h.C) {
	t := newTB(c)
	conf := t.conf()
	cj, _ := conf.MarshalJSON()
	vt, _ := conf.MarshalVT()
	type body struct {
		b    string
		ok   bool
		want config.Config
		why  string
	}
	js := string(cj)
	var ind bytes.Buffer
	_ = json.Indent(&ind, cj, " ", "\t")
	bs := []body{
		{js, true, conf, "json"}, {ind.String(), true, conf, "indented"}, {js + "\n", true, conf, "newline"}, {js + " \t\r\n", true, conf, "space"},
		{string(vt), true, conf, "binary"},
		{js[:len(js)-1], false, nil, "truncated"}, {"{" + js, false, nil, "double brace"}, {"{abc}", false, nil, "no quotes"}, {"{", false, nil, "brace"},
		{js + js, false, nil, "two objects"}, {js + "}", false, nil, "trailing brace"}, {`{"unknown":}`, false, nil, "no value"}, {`{"unknown":1,}`, false, nil, "trailing comma"},
		{`{"unknown" 1}`, false, nil, "no colon"}, {"{'unknown':1}", false, nil, "single quotes"}, {`{"unknown":tru}`, false, nil, "bad literal"}, {`{"unknown":[1,}`, false, nil, "unbalanced"},
	}
	b := bs[c.Int(len(bs))]
	pc := &configset_proto.ControllerConfig{Id: conf.GetConfigID(), Rev: t.rev(), Config: []byte(b.b)}
	noPanic(c, "panic", fmt.Sprintf("config body %q (%s)", b.b, b.why), func() {
		err := pc.Validate()
		c.Check((err == nil) == b.ok, "validate-body", "Validate of the body %q (%s): %v", b.b, b.why, err)
		mj, err := pc.MarshalJSON()
		if err == nil {
			c.Check(json.Valid(mj), "invalid-json", "body %q (%s) marshals to %s", b.b, b.why, mj)
			p2 := &configset_proto.ControllerConfig{}
			err = p2.UnmarshalJSON(mj)
			c.Check(err == nil && p2.EqualVT(pc), "body-roundtrip", "body %q (%s) comes back as %q: %v", b.b, b.why, p2.GetConfig(), err)
		} else {
			c.Check(!b.ok, "enc", "body %q (%s): %v", b.b, b.why, err)
		}
		cc, err := pc.Resolve(t.w.Ctx, t.w.B)
		if b.ok && c.Check(err == nil, "resolve", "body %q (%s): %v", b.b, b.why, err) {
			t.same("body", b.b, configset.ConfigSet{"x": cc}, configset.ConfigSet{"x": configset.NewControllerConfig(pc.Rev, conf)})
		}
		if !b.ok {
			// the configs' own decoder may be lenient, encoding/json is not
			if _, isSc := conf.(*sc.Conf); isSc {
				c.Check(err != nil, "accepted", "body %q (%s) was accepted as %s", b.b, b.why, show(cc))
			}
		}
	})
	// all fields asked for
	noPanic(c, "panic", "MarshalProtoJSON with a field mask", func() {
		var buf bytes.Buffer
		s := pjson.NewMarshalState(pjson.DefaultMarshalerConfig, pjson.NewJsonStream(&buf)).WithFieldMask("id", "rev", "config")
		p := pc
		if c.P(50) {
			p = &configset_proto.ControllerConfig{Id: pc.Id}
		}
		p.MarshalProtoJSON(s)
		if s.Err() == nil {
			c.Check(json.Valid(buf.Bytes()), "invalid-json", "MarshalProtoJSON of %v = %s", p, buf.Bytes())
			p2 := &configset_proto.ControllerConfig{}
			err := p2.UnmarshalJSON(buf.Bytes())
			c.Check(err == nil && p2.EqualVT(p), "body-roundtrip", "%v comes back as %v: %v", p, p2, err)
		}
	})
	// nothing
	noPanic(c, "panic", "nil configs", func() {
		var np *configset_proto.ControllerConfig
		c.Check(np.Validate() != nil, "validate-nil", "a nil config validates")
		_, err := np.Resolve(t.w.Ctx, t.w.B)
		c.Check(err != nil, "resolve-nil", "a nil config resolves")
		bad := configset_proto.ConfigSetMap{"x": nil}
		c.Check(bad.Validate() != nil, "validate-nil", "a set with a nil config validates")
		_, err = bad.Resolve(t.w.Ctx, t.w.B)
		c.Check(err != nil, "resolve-nil", "a set with a nil config resolves")
		d, err := (&configset_proto.ConfigSet{Configs: bad}).MarshalJSON()
		c.Check(err == nil && json.Valid(d), "invalid-json", "%s %v", d, err)
		js := configset_json.ConfigSet{"x": nil}
		_, err = js.Resolve(t.w.Ctx, t.w.B)
		c.Check(err != nil, "resolve-nil", "a json set with a nil config resolves")
		_, err = configset_json.ConfigSet(nil).Resolve(t.w.Ctx, t.w.B)
		c.Check(err != nil, "resolve-nil", "a nil json set resolves")
	})
	// a config made from an object resolves to it
	jc := configset_json.NewControllerConfig(configset.NewControllerConfig(pc.Rev, conf))
	got, err := jc.Resolve(t.w.Ctx, t.w.B)
	if c.Check(err == nil, "resolve-object", "Resolve of NewControllerConfig(%s): %v", show(configset.NewControllerConfig(1, conf)), err) {
		t.same("object", "NewControllerConfig", configset.ConfigSet{"x": got}, configset.ConfigSet{"x": configset.NewControllerConfig(pc.Rev, conf)})
	}
	c.Ev("body", "%s %s", b.why, conf.GetConfigID())
	t.end()
}

// encfail: configs which cannot be encoded, and the form of the bodies of those which can.
func encfail(c *h.C) {
	t := newTB(c)
	set := t.set(5)
	if set == nil {
		set = configset.ConfigSet{}
	}
	bad := errors.New("cannot encode")
	nbad := c.Int(3)
	for i := 0; i < nbad; i++ {
		set[fmt.Sprintf("bad%d", i)] = configset.NewControllerConfig(t.rev(), &sc.Conf{ID: "test/a", N: int64(c.Int(5)), MErr: bad})
	}
	outcome := func(how string, empty bool, err error) bool {
		if nbad == 0 {
			return c.Check(err == nil, "enc", "%s of %d configs: %v", how, len(set), err)
		}
		c.Check(errors.Is(err, bad), "enc-error", "%s with %d configs which cannot be encoded: error %v", how, nbad, err)
		c.Check(err == nil || empty, "enc-result", "%s failed and returned something", how)
		return false
	}
	for _, js := range []bool{false, true} {
		body := func(how, k string, pc *configset_proto.ControllerConfig) {
			conf := set[k].GetConfig()
			want, err := conf.MarshalVT()
			if js {
				want, err = conf.MarshalJSON()
			}
			c.Check(err == nil && bytes.Equal(pc.GetConfig(), want), "body-form", "%s (json=%v) of %s: body %q, want %q (%v)", how, js, show(set[k]), pc.GetConfig(), want, err)
			c.Check(pc.GetId() == conf.GetConfigID() && pc.GetRev() == set[k].GetRev(), "body-form", "%s of %s: %v", how, show(set[k]), pc)
		}
		ps, err := configset_proto.NewConfigSet(set, js)
		if outcome("NewConfigSet", ps == nil, err) {
			c.Check(len(ps.GetConfigs()) == len(set), "enc", "NewConfigSet has %d of %d configs", len(ps.GetConfigs()), len(set))
			for k, pc := range ps.GetConfigs() {
				body("NewConfigSet", k, pc)
			}
		}
		m, err := configset_proto.NewConfigSetMap(set, js)
		if outcome("NewConfigSetMap", m == nil, err) {
			for k, pc := range m {
				body("NewConfigSetMap", k, pc)
			}
		}
		for _, k := range keysOf(set) {
			pc, err := configset_proto.NewControllerConfig(set[k], js)
			fails := strings.HasPrefix(k, "bad")
			if x, ok := set[k].GetConfig().(*sc.Conf); !ok || x.MErr == nil {
				fails = false
			}
			if !fails {
				if c.Check(err == nil && pc != nil, "enc", "NewControllerConfig of %s: %v", show(set[k]), err) {
					body("NewControllerConfig", k, pc)
				}
			} else {
				c.Check(errors.Is(err, bad) && pc == nil, "enc-error", "NewControllerConfig of a config which cannot be encoded: %v, %v", pc, err)
			}
			// the map is as before if the config cannot be applied
			old := &configset_proto.ControllerConfig{Id: "old"}
			am := configset_proto.ConfigSetMap{k: old}
			pc, err = am.ApplyConfig(k, set[k].GetConfig(), set[k].GetRev(), js)
			if !fails {
				if c.Check(err == nil && am[k] == pc && len(am) == 1, "enc", "ApplyConfig of %s: %v", show(set[k]), err) {
					body("ApplyConfig", k, pc)
				}
			} else {
				c.Check(errors.Is(err, bad) && pc == nil && am[k] == old && len(am) == 1, "enc-error", "ApplyConfig of a config which cannot be encoded: %v, %v, map %v", pc, err, am)
			}
		}
	}
	b, err := json.Marshal(configset_json.NewConfigSet(set))
	outcome("json.Marshal", len(b) == 0, err)
	b, err = configset_json.MarshalYAML(set)
	outcome("MarshalYAML", len(b) == 0, err)
	rq, err := controller_exec.ExecControllerYAMLFromConfigSet(set)
	if outcome("ExecControllerYAMLFromConfigSet", rq == nil, err) {
		out := configset.ConfigSet{}
		_, err := configset_json.UnmarshalYAML(t.w.Ctx, t.w.B, []byte(rq.GetConfigSetYaml()), out, false)
		c.Check(err == nil && rq.GetConfigSet() == nil, "enc-request", "the request made of a set: %v", err)
		t.same("enc-request", "yaml request", out, set)
	}
	rq, err = controller_exec.ExecControllerProtoFromConfigSet(set)
	if outcome("ExecControllerProtoFromConfigSet", rq == nil, err) {
		out, err := rq.GetConfigSet().Resolve(t.w.Ctx, t.w.B)
		c.Check(err == nil && rq.GetConfigSetYaml() == "", "enc-request", "the request made of a set: %v", err)
		t.same("enc-request", "proto request", out, set)
	}
	c.Ev("encfail", "%q %d bad", keysOf(set), nbad)
	t.end()
}

// waiting: the constructor appears later, or never.
func waiting(c *h.C) {
	t := newTB(c)
	ctx, cancel := context.WithCancel(t.w.Ctx)
	defer cancel()
	s := configset.ConfigSet{}
	late := c.P(60)
	for i, n := 0, 1+c.Int(3); i < n; i++ {
		id := "test/a"
		if i == 0 || c.P(30) {
			id = "test/late"
		}
		s[fmt.Sprint("k", i)] = configset.NewControllerConfig(uint64(i), &sc.Conf{ID: id, N: int64(i), S: t.str()})
	}
	kind := c.Int(3)
	js, _ := json.Marshal(configset_json.NewConfigSet(s))
	ym, _ := configset_json.MarshalYAML(s)
	ps, _ := configset_proto.NewConfigSet(s, c.P(50))
	var got configset.ConfigSet
	var err error
	done := make(chan struct{})
	go func() {
		defer close(done)
		switch kind {
		case 0:
			var x configset_json.ConfigSet
			_ = json.Unmarshal(js, &x)
			got, err = x.Resolve(ctx, t.w.B)
		case 1:
			got = configset.ConfigSet{}
			_, err = configset_json.UnmarshalYAML(ctx, t.w.B, ym, got, true)
		case 2:
			got, err = ps.Resolve(ctx, t.w.B)
		}
	}()
	if c.P(70) {
		c.Wait()
		select {
		case <-done:
			c.Check(false, "early", "resolved %q without the constructor: %v", keysOf(got), err)
		default:
		}
	}
	if late {
		rel, err := t.w.B.AddController(t.w.Ctx, resolver.NewController(c.Le, t.w.B, static.NewResolver(&sc.Fac{E: t.e, ID: "test/late", Ver: semver.MustParse("0.0.1"), Tag: "late"})), nil)
		must(c, err, "add-controller", "AddController")
		defer rel()
	} else {
		cancel()
	}
	c.Wait()
	select {
	case <-done:
	default:
		c.Check(false, "stuck", "Resolve did not return (late=%v)", late)
		c.Abort()
	}
	if late {
		if c.Check(err == nil, "resolve", "Resolve: %v", err) {
			t.same("late", "late", got, s)
		}
	} else {
		c.Check(err != nil, "cancelled", "Resolve of an unknown config returned without error after cancellation: %q", keysOf(got))
	}
	c.Ev("waiting", "%v %d", late, kind)
	t.end()
}

func TestCheck(t *testing.T) {
	h.Run(t, []h.Scenario{
		{Name: "roundtrip", Quick: 12000, Thorough: 300000, Fn: roundtrip},
		{Name: "documents", Quick: 12000, Thorough: 300000, Fn: documents},
		{Name: "mutated", Quick: 15000, Thorough: 500000, Fn: mutated},
		{Name: "merge", Quick: 15000, Thorough: 400000, Fn: merge},
		{Name: "equal", Quick: 15000, Thorough: 400000, Fn: equal},
		{Name: "bodies", Quick: 6000, Thorough: 100000, Fn: bodies},
		{Name: "encfail", Quick: 3000, Thorough: 60000, Fn: encfail},
		{Name: "waiting", Quick: 2000, Thorough: 20000, Fn: waiting},
	})
}
