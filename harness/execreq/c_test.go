// Package execreq checks execution requests and the bus API (C20).
package execreq

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"slices"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/aperturerobotics/controllerbus/bus"
	bus_api "github.com/aperturerobotics/controllerbus/bus/api"
	bus_api_controller "github.com/aperturerobotics/controllerbus/bus/api/controller"
	"github.com/aperturerobotics/controllerbus/config"
	"github.com/aperturerobotics/controllerbus/controller"
	"github.com/aperturerobotics/controllerbus/controller/configset"
	configset_controller "github.com/aperturerobotics/controllerbus/controller/configset/controller"
	configset_proto "github.com/aperturerobotics/controllerbus/controller/configset/proto"
	ce "github.com/aperturerobotics/controllerbus/controller/exec"
	"github.com/aperturerobotics/controllerbus/controller/loader"
	"github.com/aperturerobotics/controllerbus/controller/resolver"
	"github.com/aperturerobotics/controllerbus/core"
	"github.com/aperturerobotics/controllerbus/directive"
	"github.com/aperturerobotics/starpc/srpc"
	"github.com/blang/semver/v4"

	"verifharness/bw"
	"verifharness/h"
	"verifharness/sc"
)

var keys = []string{"a", "b", "c"}

// rep is a report: what is told about a key.
type rep struct {
	key, what string
}

const configuring = "CONFIGURING"

func infoStr(i *controller.Info) string {
	if i == nil {
		return "?"
	}
	return i.GetId() + " " + i.GetVersion() + " " + i.GetDescription()
}

// repOf describes a report.
func repOf(c *h.C, r *ce.ExecControllerResponse) rep {
	o := rep{key: r.GetId()}
	switch r.GetStatus() {
	case ce.ControllerStatus_ControllerStatus_CONFIGURING:
		o.what = configuring
		c.Check(r.GetErrorInfo() == "" && r.GetControllerInfo() == nil, "report-extra", "report of %s configuring has error %q and controller %v", o.key, r.GetErrorInfo(), r.GetControllerInfo())
	case ce.ControllerStatus_ControllerStatus_RUNNING:
		o.what = "RUNNING " + infoStr(r.GetControllerInfo())
		c.Check(r.GetErrorInfo() == "", "report-extra", "report of running %s has error %q", o.key, r.GetErrorInfo())
	case ce.ControllerStatus_ControllerStatus_ERROR:
		o.what = "ERROR " + r.GetErrorInfo()
		c.Check(r.GetControllerInfo() == nil, "report-extra", "report of the error of %s has controller %v", o.key, r.GetControllerInfo())
		c.Check(r.GetError() != nil && r.GetError().Error() == r.GetErrorInfo(), "get-error", "GetError of %q is %v", r.GetErrorInfo(), r.GetError())
	default:
		o.what = "UNKNOWN"
		c.Fail("report-unknown", "report with status %v for %q", r.GetStatus(), o.key)
	}
	if r.GetStatus() != ce.ControllerStatus_ControllerStatus_ERROR {
		c.Check(r.GetError() == nil, "get-error", "GetError of %s is %v", o.what, r.GetError())
	}
	return o
}

// event is a value added or removed.
type event struct {
	added bool
	id    uint32
	rep   rep
}

// inst is an instance of ApplyConfigSet.
type inst struct {
	di   directive.Instance
	set  configset.ConfigSet
	gone bool
}

// tap records what a reference to an ApplyConfigSet is told.
type tap struct {
	directive.ReferenceHandler
	t   *tb
	req *req // nil if not known
	set configset.ConfigSet
	log []event
}

func (p *tap) add(added bool, av directive.AttachedValue) {
	r := stateRep(av.GetValue().(configset.State))
	p.t.mu.Lock()
	p.log = append(p.log, event{added, av.GetValueID(), r})
	p.t.mu.Unlock()
}

func (p *tap) HandleValueAdded(di directive.Instance, av directive.AttachedValue) {
	p.add(true, av)
	p.ReferenceHandler.HandleValueAdded(di, av)
}

func (p *tap) HandleValueRemoved(di directive.Instance, av directive.AttachedValue) {
	p.add(false, av)
	p.ReferenceHandler.HandleValueRemoved(di, av)
}

// tapBus taps the references to ApplyConfigSet.
type tapBus struct {
	bus.Bus
	t   *tb
	req *req
}

func (b *tapBus) AddDirective(d directive.Directive, cb directive.ReferenceHandler) (directive.Instance, directive.Reference, error) {
	if a, ok := d.(configset.ApplyConfigSet); ok && cb != nil {
		p := &tap{ReferenceHandler: cb, t: b.t, req: b.req, set: a.GetApplyConfigSet()}
		b.t.mu.Lock()
		b.t.taps = append(b.t.taps, p)
		b.t.mu.Unlock()
		cb = p
	}
	return b.Bus.AddDirective(d, cb)
}

// tb is the test bed.
type tb struct {
	c   *h.C
	w   *bw.W
	e   *sc.Env
	rnd *h.LockedRand

	mu    sync.Mutex
	insts []*inst
	taps  []*tap
	fast  bool
	reqs  []*req
	hold  []*holder
	n     int
	api   *bus_api.API
	cli   bus_api.SRPCControllerBusServiceClient
}

// holder is another client.
type holder struct {
	set configset.ConfigSet
	ref directive.Reference
}

// req is a request.
type req struct {
	n       int
	r       *ce.ExecControllerRequest
	partial bool
	api     bool
	cancel  context.CancelFunc
	desc    string

	// expected
	invalid bool // error: nothing applied, nothing reported
	hang    bool // waits for an unknown config id
	maybe   bool // hang or invalid
	set     configset.ConfigSet
	bad     map[string]string // keys which cannot be resolved

	// behaviour of the callback
	failAt int
	cbErr  error
	slow   bool
	stuck  time.Duration

	// under tb.mu
	inCb      bool
	stuckNow  bool
	reports   []rep
	ret       error
	returned  bool
	cancelled bool
	closed    bool // its instance was closed
	firstInst int
	firstTap  int
}

func confEq(a, b config.Config) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return a.EqualsConfig(b)
}

func setEq(a, b configset.ConfigSet) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		w, ok := b[k]
		if !ok || v.GetRev() != w.GetRev() || !confEq(v.GetConfig(), w.GetConfig()) {
			return false
		}
	}
	return true
}

func setStr(s configset.ConfigSet) (o string) {
	for _, k := range h.SortedKeys(s) {
		o += fmt.Sprintf(" %s=%v@%d", k, s[k].GetConfig(), s[k].GetRev())
	}
	return
}

// stateRep describes a state.
func stateRep(st configset.State) rep {
	r := rep{key: st.GetId(), what: configuring}
	if err := st.GetError(); err != nil {
		r.what = "ERROR " + err.Error()
	} else if ct := st.GetController(); ct != nil {
		r.what = "RUNNING " + infoStr(ct.GetControllerInfo())
	}
	return r
}

// handle records the applied config sets and what is told about them.
func (t *tb) handle(ctx context.Context, di directive.Instance) ([]directive.Resolver, error) {
	d, ok := di.GetDirective().(configset.ApplyConfigSet)
	if !ok {
		return nil, nil
	}
	in := &inst{di: di, set: d.GetApplyConfigSet()}
	t.mu.Lock()
	t.insts = append(t.insts, in)
	t.mu.Unlock()
	t.c.Ev("applied", "%s", setStr(in.set))
	di.AddReference(bus.NewCallbackHandler(func(av directive.AttachedValue) {
		r := stateRep(av.GetValue().(configset.State))
		t.c.Ev("state", "%s %s", r.key, r.what)
	}, nil, func() {
		t.mu.Lock()
		in.gone = true
		t.mu.Unlock()
	}), true)
	return nil, nil
}

// expect returns the reports expected of what a reference was told.
func expect(log []event) map[string][]string {
	out := map[string][]string{}
	for _, e := range log {
		what := e.rep.what
		if !e.added {
			what = configuring
		}
		out[e.rep.key] = push(out[e.rep.key], what)
	}
	return out
}

// push appends unless it is the same again.
func push(l []string, s string) []string {
	if n := len(l); n > 0 && l[n-1] == s {
		return l
	}
	return append(l, s)
}

// matches checks whether the reports got are what was expected; configuring may be left out if it
// was not the final state. prefix: the reports may end early.
func matches(got, want []string, prefix bool) bool {
	i := 0
	for j, w := range want {
		if i < len(got) && got[i] == w {
			i++
			continue
		}
		if i == len(got) && prefix {
			return true
		}
		if w == configuring && (j < len(want)-1 || prefix) {
			continue
		}
		return false
	}
	return i == len(got)
}

// checkReports compares the reports of a request with what was observed.
func (t *tb) checkReports(r *req, prefix bool) {
	c := t.c
	got := map[string][]string{}
	nbad := 0
	for i, p := range r.reports {
		if want, ok := r.bad[p.key]; ok {
			nbad++
			c.Check(i < len(r.bad), "bad-late", "%s: report of %s which cannot be resolved after others", r.desc, p.key)
			c.Check(strings.HasPrefix(p.what, "ERROR ") && len(p.what) > 6 && (want == "" || p.what == "ERROR "+want), "bad-report", "%s: report of %s, which cannot be resolved (%s), is %q", r.desc, p.key, want, p.what)
			continue
		}
		_, ok := r.set[p.key]
		if !c.Check(ok, "report-key", "%s: report %v of a key which was not applied", r.desc, p) {
			return
		}
		got[p.key] = push(got[p.key], p.what)
	}
	if len(r.reports) > 0 && !prefix {
		c.Check(nbad == len(r.bad), "bad-reports", "%s: %d reports of %d keys which cannot be resolved", r.desc, nbad, len(r.bad))
	}
	if r.invalid || r.hang || len(r.set) == 0 {
		return
	}
	var why string
	for i, p := range t.taps {
		if i < r.firstTap || p.req != nil && p.req != r || !setEq(p.set, r.set) {
			continue
		}
		want := expect(p.log)
		ok := true
		for k := range r.set {
			if !matches(got[k], want[k], prefix) {
				ok = false
				why = fmt.Sprintf("%s: reported %q, observed %q", k, got[k], want[k])
			}
		}
		if ok {
			c.Check(true, "reports", "")
			return
		}
	}
	if why == "" && prefix && len(got) == 0 {
		return
	}
	if why == "" {
		why = "not applied:" + setStr(r.set)
	}
	c.Fail("reports", "%s: %s", r.desc, why)
}

type item struct {
	id   string
	rev  uint64
	conf *sc.Conf
}

// newReq makes a request.
func (t *tb) newReq() *req {
	c := t.c
	r := &req{n: t.n, bad: map[string]string{}, failAt: -1}
	t.n++
	tag := fmt.Sprintf("r%d", r.n)
	r.r = &ce.ExecControllerRequest{}
	r.partial = c.P(50)
	r.r.ConfigSetYamlOverwrite = c.P(40)
	protoGood := configset.ConfigSet{}
	var d []string
	newItem := func() item {
		it := item{id: []string{"test/a", "test/b"}[c.Int(2)], rev: uint64(c.Int(4))}
		it.conf = &sc.Conf{ID: it.id, N: int64(c.Int(100)), S: tag}
		if c.P(8) {
			it.conf.Bad = true
		}
		return it
	}
	protoBad, protoHang := false, false
	var nproto int
	if c.P(75) {
		r.r.ConfigSet = &configset_proto.ConfigSet{}
		for _, k := range keys {
			if !c.P(45) {
				continue
			}
			nproto++
			if r.r.ConfigSet.Configs == nil {
				r.r.ConfigSet.Configs = map[string]*configset_proto.ControllerConfig{}
			}
			it := newItem()
			pc := &configset_proto.ControllerConfig{Id: it.id, Rev: it.rev}
			kind := "good"
			switch x := c.Int(100); {
			case x < 8:
				kind = "body"
				pc.Config = []byte([]string{"\xff\xff\xff", "{\"n\": ", "{\"n\": \"str\"}", "{]"}[c.Int(4)])
				r.bad[k] = ""
				protoBad = true
			case x < 14:
				kind = "noid"
				pc.Id = ""
				r.bad[k] = configset_proto.ErrControllerConfigIdEmpty.Error()
				protoBad = true
			case x < 16:
				kind = "hang"
				pc.Id = "nope"
				protoHang = true
			case x < 20:
				kind = "empty"
				it.conf = &sc.Conf{ID: it.id}
				protoGood[k] = configset.NewControllerConfig(it.rev, it.conf)
			default:
				if c.P(50) {
					pc.Config, _ = it.conf.MarshalJSON()
				} else {
					pc.Config, _ = it.conf.MarshalVT()
				}
				protoGood[k] = configset.NewControllerConfig(it.rev, it.conf)
			}
			d = append(d, fmt.Sprintf("p.%s=%s(%v@%d)", k, kind, it.conf, it.rev))
			r.r.ConfigSet.Configs[k] = pc
		}
	}
	set := configset.ConfigSet{}
	for k, v := range protoGood {
		set[k] = v
	}
	yamlBad, yamlHang := false, false
	if c.P(60) {
		doc := map[string]any{}
		good := configset.ConfigSet{}
		plain := true
		for _, k := range keys {
			if !c.P(45) {
				continue
			}
			it := newItem()
			_, exists := protoGood[k]
			used := !exists || r.r.ConfigSetYamlOverwrite
			if protoHang && r.r.ConfigSet.Configs[k].GetId() == "nope" {
				continue
			}
			kind := "good"
			switch x := c.Int(100); {
			case x < 4:
				kind = "null"
				doc[k] = nil
				plain = false
				yamlBad = yamlBad || used
			case x < 8:
				kind = "body"
				doc[k] = map[string]any{"id": it.id, "rev": it.rev, "config": "text"}
				plain = false
				yamlBad = true // the whole document is malformed
			case x < 9:
				kind = "hang"
				doc[k] = map[string]any{"id": "nope", "rev": it.rev, "config": it.conf}
				plain = false
				yamlHang = yamlHang || used
			default:
				doc[k] = map[string]any{"id": it.id, "rev": it.rev, "config": it.conf}
				good[k] = configset.NewControllerConfig(it.rev, it.conf)
				if used {
					if r.partial {
						delete(r.bad, k) // the yaml config is used
					}
					set[k] = good[k]
				}
			}
			d = append(d, fmt.Sprintf("y.%s=%s(%v@%d)", k, kind, it.conf, it.rev))
		}
		switch {
		case c.P(4):
			r.r.ConfigSetYaml = []string{"a: [x", "- a\n- b", "text", "a: {id: test/a\n"}[c.Int(4)]
			d = append(d, "malformed")
			yamlBad, yamlHang = true, false
		case plain && c.P(50):
			y, err := ce.ExecControllerYAMLFromConfigSet(good)
			if !c.Check(err == nil, "from-yaml", "%v", err) {
				c.Abort()
			}
			r.r.ConfigSetYaml = y.ConfigSetYaml
		default:
			b, err := json.Marshal(doc)
			if err != nil {
				panic(err)
			}
			r.r.ConfigSetYaml = string(b)
		}
	}
	if len(r.bad) == 0 && nproto > 0 && !protoHang && c.P(20) {
		y, err := ce.ExecControllerProtoFromConfigSet(protoGood)
		if c.Check(err == nil, "from-proto", "%v", err) {
			r.r.ConfigSet = y.ConfigSet
		}
	}
	r.set = set
	none := r.r.ConfigSet == nil && r.r.ConfigSetYaml == ""
	fatal := none || yamlBad || protoBad && !r.partial
	wait := protoHang || yamlHang
	switch {
	case none:
		r.invalid = true
	case fatal && wait:
		r.maybe, r.hang = true, true
	case wait:
		r.hang = true
	case fatal:
		r.invalid = true
	}
	r.desc = fmt.Sprintf("#%d partial=%v over=%v %s", r.n, r.partial, r.r.ConfigSetYamlOverwrite, strings.Join(d, " "))
	return r
}

// allBad: nothing left to apply.
func (r *req) allBad() bool { return len(r.set) == 0 && len(r.bad) > 0 }

// start starts a request.
func (t *tb) start(r *req) {
	c := t.c
	ctx, cancel := context.WithCancel(t.w.Ctx)
	r.cancel = cancel
	t.mu.Lock()
	r.firstInst = len(t.insts)
	r.firstTap = len(t.taps)
	t.reqs = append(t.reqs, r)
	t.mu.Unlock()
	c.Ev("request", "%s api=%v invalid=%v hang=%v failAt=%d slow=%v stuck=%v", r.desc, r.api, r.invalid, r.hang, r.failAt, r.slow, r.stuck)
	cb := func(resp *ce.ExecControllerResponse) error {
		p := repOf(c, resp)
		c.Ev("report", "#%d %s %s", r.n, p.key, p.what)
		t.mu.Lock()
		c.Check(!r.inCb, "concurrent-reports", "%s: two reports at the same time", r.desc)
		c.Check(!r.returned, "report-late", "%s: report %v after the request ended", r.desc, p)
		r.reports = append(r.reports, p)
		r.inCb = true
		n := len(r.reports)
		var d time.Duration
		if r.slow && !t.fast {
			d = time.Duration(t.rnd.Int(8)) * time.Millisecond
		}
		if r.stuck > 0 && n == 2 {
			d = r.stuck
			r.stuckNow = true
		}
		t.mu.Unlock()
		if d > 0 {
			time.Sleep(d)
		}
		t.mu.Lock()
		r.inCb = false
		r.stuckNow = false
		var err error
		if r.failAt >= 0 && n > r.failAt {
			if r.cbErr == nil {
				r.cbErr = fmt.Errorf("callback error %d", r.n)
			}
			err = r.cbErr
		}
		t.mu.Unlock()
		return err
	}
	go func() {
		var err error
		if r.api {
			err = t.callAPI(ctx, r, cb)
		} else {
			err = r.r.Execute(ctx, &tapBus{t.w.B, t, r}, r.partial, cb)
		}
		t.mu.Lock()
		r.ret = err
		r.returned = true
		t.mu.Unlock()
		c.Ev("ended", "#%d %v", r.n, err)
	}()
}

func (t *tb) callAPI(ctx context.Context, r *req, cb func(*ce.ExecControllerResponse) error) error {
	strm, err := t.cli.ExecController(ctx, r.r)
	if err != nil {
		return err
	}
	defer strm.Close()
	for {
		resp, err := strm.Recv()
		if err != nil {
			return err
		}
		if err := cb(resp); err != nil {
			return err
		}
	}
}

// check checks the state of all requests: everything is settled.
func (t *tb) check() {
	c := t.c
	t.mu.Lock()
	defer t.mu.Unlock()
	c.Ev("settled", "")
	alive := map[string]*sc.Ctrl{}
	t.e.Mu.Lock()
	for _, ct := range t.e.All {
		if ct.Closed == 0 && (ct.Running || ct.Done) {
			alive["RUNNING "+fmt.Sprintf("test/ctrl%d %s scripted", ct.N, ct.Fac.Ver)] = ct
		}
	}
	t.e.Mu.Unlock()
	for _, r := range t.reqs {
		if c.Failed() {
			return
		}
		ended := r.cancelled || r.closed || r.cbErr != nil || r.invalid || r.maybe && r.returned || !r.hang && r.allBad()
		if r.stuckNow {
			c.Ev("stuck", "#%d", r.n)
			continue
		}
		if !c.Check(r.returned == ended, "ended", "%s: ended=%v (%v), expected %v (cancelled=%v closed=%v callback error=%v)", r.desc, r.returned, r.ret, ended, r.cancelled, r.closed, r.cbErr) {
			return
		}
		t.checkReports(r, r.returned || r.hang)
		if r.invalid || r.hang {
			for _, p := range r.reports {
				_, bad := r.bad[p.key]
				c.Check(bad, "report-invalid", "%s: report %v of an invalid request", r.desc, p)
			}
			for i, in := range t.insts {
				if i >= r.firstInst && len(in.set) > 0 {
					for _, cc := range in.set {
						conf, _ := cc.GetConfig().(*sc.Conf)
						c.Check(conf == nil || conf.S != fmt.Sprintf("r%d", r.n), "applied-invalid", "%s: applied%s", r.desc, setStr(in.set))
					}
				}
			}
		}
		if !r.returned {
			if r.hang {
				c.Ev("hangs", "#%d", r.n)
				continue
			}
			c.Ev("serving", "#%d %d reports", r.n, len(r.reports))
			// the last report is the truth
			last := map[string]string{}
			for _, p := range r.reports {
				last[p.key] = p.what
			}
			for k := range r.set {
				if strings.HasPrefix(last[k], "RUNNING") {
					c.Ev("runs", "")
					c.Check(alive[last[k]] != nil, "not-running", "%s: %s was last reported %s which is not running", r.desc, k, last[k])
				}
				if last[k] == configuring {
					c.Ev("configuring", "")
				}
			}
			continue
		}
		switch {
		case r.ret == nil:
			c.Fail("no-error", "%s: ended without an error", r.desc)
		case r.cbErr != nil && !r.invalid && !r.hang:
			// note: the callback is on the client side for the api.
			c.Check(errors.Is(r.ret, r.cbErr), "callback-error", "%s: returned %v, the callback %v", r.desc, r.ret, r.cbErr)
		case r.api:
		case r.invalid && !r.cancelled:
			c.Ev("rejected", "#%d %v", r.n, r.ret)
			c.Check(!errors.Is(r.ret, context.Canceled), "invalid-error", "%s: invalid, returned %v", r.desc, r.ret)
		case r.maybe, r.invalid:
		case !r.hang && r.allBad():
			c.Ev("all-bad", "#%d %v", r.n, r.ret)
			if r.cancelled && errors.Is(r.ret, context.Canceled) {
				break
			}
			if len(r.bad) > 1 {
				c.Check(r.ret == ce.ErrAllControllersFailed, "all-bad-error", "%s: returned %v", r.desc, r.ret)
			} else {
				for _, want := range r.bad {
					c.Check(want == "" || r.ret.Error() == want || r.ret == ce.ErrAllControllersFailed, "all-bad-error", "%s: returned %v", r.desc, r.ret)
				}
			}
		default:
			c.Check(errors.Is(r.ret, context.Canceled), "cancel-error", "%s: cancelled, returned %v", r.desc, r.ret)
		}
	}
	// every set which is applied is wanted
	for _, in := range t.insts {
		if in.gone {
			continue
		}
		n := 0
		for _, r := range t.reqs {
			if !r.returned && !r.invalid && !r.hang && setEq(in.set, r.set) {
				n++
			}
		}
		for _, x := range t.hold {
			if setEq(in.set, x.set) {
				n++
			}
		}
		c.Check(n > 0, "applied-left", "%s is still applied", setStr(in.set))
	}
	// every request which is served is applied
	for _, r := range t.reqs {
		if r.returned || r.invalid || r.hang || r.stuckNow {
			continue
		}
		n := 0
		for _, in := range t.insts {
			if !in.gone && setEq(in.set, r.set) {
				n++
			}
		}
		c.Check(n == 1, "not-applied", "%s: applied %d times", r.desc, n)
	}
}

// settle waits until everything is quiet.
func (t *tb) settle() {
	t.mu.Lock()
	t.fast = true
	t.mu.Unlock()
	time.Sleep(1200 * time.Millisecond)
	t.c.Wait()
	t.check()
	t.mu.Lock()
	t.fast = false
	t.mu.Unlock()
}

func (t *tb) onExecute(ct *sc.Ctrl, n int) sc.Step {
	st := sc.Step{Delay: -1}
	rnd := t.e.Rnd
	switch x := rnd.Int(10); {
	case x < 5:
	case x < 6:
		st.Delay = 0
	default:
		st.Delay = time.Duration(1+rnd.Int(3000)) * time.Millisecond
	}
	st.End = []string{"nil", "err", "err", "panic"}[rnd.Int(4)]
	st.NilOnCancel = rnd.Int(4) == 0
	return st
}

func setup(c *h.C) *tb {
	ctx, cancel := context.WithCancel(context.Background())
	w := &bw.W{C: c, Ctx: ctx, Cancel: cancel}
	t := &tb{c: c, w: w, rnd: c.NewRand()}
	t.e = &sc.Env{C: c, Rnd: c.NewRand(), OnExecute: t.onExecute}
	t.e.OnConstruct = func(ctx context.Context, f *sc.Fac, conf *sc.Conf) (bool, error) {
		if t.e.Rnd.Int(12) == 0 {
			return true, t.e.NewErr("construct")
		}
		return true, nil
	}
	b, _, err := core.NewCoreBus(ctx, c.Le, core.WithControllerFactories(
		&sc.Fac{E: t.e, ID: "test/a", Ver: semver.MustParse("1.0.0"), Tag: "a"},
		&sc.Fac{E: t.e, ID: "test/b", Ver: semver.MustParse("2.1.0-rc.1"), Tag: "b"},
	))
	if !c.Check(err == nil, "core", "NewCoreBus: %v", err) {
		c.Abort()
	}
	w.B = b
	_, err = b.AddHandler(bw.HFunc(t.handle))
	c.Check(err == nil, "add-handler", "%v", err)
	return t
}

func (t *tb) addConfigSet() {
	ctl, err := configset_controller.NewController(t.c.Le, t.w.B)
	t.c.Check(err == nil, "new-controller", "%v", err)
	_, err = t.w.B.AddController(t.w.Ctx, ctl, nil)
	t.c.Check(err == nil, "add-controller", "%v", err)
}

func (t *tb) finish() {
	c := t.c
	for _, r := range t.reqs {
		r.cancel()
		t.mu.Lock()
		r.cancelled = true
		t.mu.Unlock()
	}
	time.Sleep(time.Minute)
	t.settle()
	if !c.Failed() && len(t.hold) == 0 {
		for _, ct := range t.e.All {
			c.Check(ct.Closed == 1 && !ct.Running, "left-running", "%s (of %s) runs although every request ended", ct.Name(), ct.Conf)
		}
	}
	for _, x := range t.hold {
		x.ref.Release()
	}
	t.hold = nil
	time.Sleep(time.Minute)
	c.Wait()
	for _, ct := range t.e.All {
		c.Check(ct.Closed == 1 && !ct.Running, "left-running", "%s (of %s) runs although nobody applies it", ct.Name(), ct.Conf)
	}
	c.Check(len(t.w.B.GetDirectives()) == 0, "leak", "%d directives left", len(t.w.B.GetDirectives()))
	t.w.Cancel()
	time.Sleep(time.Second)
	c.Wait()
}

// runReq: requests are executed directly or by the api.
func runReq(api bool) func(c *h.C) {
	return func(c *h.C) {
		t := setup(c)
		late := c.P(10)
		if !late {
			t.addConfigSet()
		}
		if api {
			mux := srpc.NewMux()
			err := bus_api.NewAPI(&tapBus{t.w.B, t, nil}, &bus_api.Config{EnableExecController: true}).RegisterAsSRPCServer(mux)
			c.Check(err == nil, "register", "%v", err)
			t.cli = bus_api.NewSRPCControllerBusServiceClient(srpc.NewClient(srpc.NewServerPipe(srpc.NewServer(mux))))
		}
		open := func() (l []*req) {
			t.mu.Lock()
			defer t.mu.Unlock()
			for _, r := range t.reqs {
				if !r.returned && !r.cancelled {
					l = append(l, r)
				}
			}
			return
		}
		for step := 0; step < 16 && !c.Failed(); step++ {
			l := open()
			switch x := c.Int(20); {
			case x < 8 && len(l) < 5:
				r := t.newReq()
				if len(l) > 0 && c.P(12) {
					// the same request again
					o := l[c.Int(len(l))]
					x := o
					r = &req{n: r.n, r: x.r, partial: x.partial, desc: fmt.Sprintf("#%d as %s", r.n, x.desc), invalid: x.invalid, hang: x.hang, maybe: x.maybe, set: x.set, bad: x.bad, failAt: -1}
				}
				if api {
					if !r.partial && len(r.bad) > 0 {
						// the api allows partial success: the yaml must not have the same keys
						continue
					}
					r.partial = true
					r.api = true
				}
				switch y := c.Int(20); {
				case y < 3:
					r.failAt = c.Int(6)
				case y < 8:
					r.slow = true
				case y < 10:
					r.stuck = time.Duration(5+c.Int(20)) * time.Second
				}
				t.start(r)
			case x < 10 && len(l) > 0:
				r := l[c.Int(len(l))]
				t.mu.Lock()
				r.cancelled = true
				t.mu.Unlock()
				c.Ev("cancel", "#%d", r.n)
				r.cancel()
			case x < 11:
				t.mu.Lock()
				var live []*inst
				for _, in := range t.insts {
					if !in.gone {
						live = append(live, in)
					}
				}
				t.mu.Unlock()
				if len(live) > 0 && c.P(50) {
					// nobody may be about to join
					time.Sleep(20 * time.Millisecond)
					c.Wait()
					in := live[c.Int(len(live))]
					c.Ev("close", "%s", setStr(in.set))
					t.mu.Lock()
					gone := in.gone
					if !gone {
						for _, r := range t.reqs {
							if !r.returned && !r.invalid && !r.hang && setEq(r.set, in.set) {
								r.closed = true
							}
						}
						for i, x := range t.hold {
							if setEq(x.set, in.set) {
								t.hold = append(t.hold[:i:i], t.hold[i+1:]...)
								break
							}
						}
					}
					t.mu.Unlock()
					if !gone {
						in.di.Close()
					}
				}
			case x < 13:
				// another client
				if len(t.hold) > 0 && c.P(60) {
					i := c.Int(len(t.hold))
					c.Ev("unhold", "%s", setStr(t.hold[i].set))
					t.hold[i].ref.Release()
					t.mu.Lock()
					t.hold = append(t.hold[:i:i], t.hold[i+1:]...)
					t.mu.Unlock()
					break
				}
				set := configset.ConfigSet{}
				for _, k := range keys {
					if c.P(40) {
						set[k] = configset.NewControllerConfig(uint64(c.Int(7)), &sc.Conf{ID: "test/a", N: int64(c.Int(3)), S: fmt.Sprintf("h%d", t.n)})
					}
				}
				t.n++
				if len(set) == 0 {
					break
				}
				c.Ev("hold", "%s", setStr(set))
				_, ref, err := t.w.B.AddDirective(configset.NewApplyConfigSet(set), nil)
				if c.Check(err == nil, "add-directive", "%v", err) {
					t.mu.Lock()
					t.hold = append(t.hold, &holder{set, ref})
					t.mu.Unlock()
				}
			case x < 15:
				t.e.Mu.Lock()
				var run []*sc.Ctrl
				for _, ct := range t.e.All {
					if ct.Running {
						run = append(run, ct)
					}
				}
				if len(run) > 0 {
					ct := run[c.Int(len(run))]
					how := []string{"nil", "err", "panic", "panic-val", "canceled"}[c.Int(5)]
					c.Ev("cmd", "%s %s", ct.Name(), how)
					select {
					case ct.Cmd <- how:
					default:
					}
				}
				t.e.Mu.Unlock()
			case x < 16 && late:
				late = false
				t.addConfigSet()
			default:
				time.Sleep(time.Duration(c.Int(1500)) * time.Millisecond)
			}
			if c.P(40) {
				t.settle()
			}
		}
		t.finish()
	}
}

// ---- a single controller

// loadTap tells what references to LoadControllerWithConfig are told.
type loadTap struct {
	bus.Bus
	tell func(added bool, av directive.AttachedValue)
}

func (b *loadTap) AddDirective(d directive.Directive, cb directive.ReferenceHandler) (directive.Instance, directive.Reference, error) {
	if _, ok := d.(resolver.LoadControllerWithConfig); ok && cb != nil {
		cb = &loadTapRef{cb, b.tell}
	}
	return b.Bus.AddDirective(d, cb)
}

type loadTapRef struct {
	directive.ReferenceHandler
	tell func(added bool, av directive.AttachedValue)
}

func (r *loadTapRef) HandleValueAdded(di directive.Instance, av directive.AttachedValue) {
	r.tell(true, av)
	r.ReferenceHandler.HandleValueAdded(di, av)
}

func (r *loadTapRef) HandleValueRemoved(di directive.Instance, av directive.AttachedValue) {
	r.tell(false, av)
	r.ReferenceHandler.HandleValueRemoved(di, av)
}

func runExec(c *h.C) {
	t := setup(c)
	type ev struct {
		added bool
		err   error
		ctrl  controller.Controller
	}
	var dis []directive.Instance
	var lastEv time.Time
	_, err := t.w.B.AddHandler(bw.HFunc(func(ctx context.Context, di directive.Instance) ([]directive.Resolver, error) {
		if _, ok := di.GetDirective().(resolver.LoadControllerWithConfig); !ok {
			return nil, nil
		}
		t.mu.Lock()
		dis = append(dis, di)
		t.mu.Unlock()
		return nil, nil
	}))
	var log []ev
	tell := func(added bool, av directive.AttachedValue) {
		v := av.GetValue().(resolver.LoadControllerWithConfigValue)
		t.mu.Lock()
		log = append(log, ev{added, v.GetError(), v.GetController()})
		lastEv = time.Now()
		t.mu.Unlock()
	}
	c.Check(err == nil, "add-handler", "%v", err)
	for i := 0; i < 4 && !c.Failed(); i++ {
		conf := &sc.Conf{ID: []string{"test/a", "test/b", "test/b", "nope"}[c.Int(4)], N: int64(i), S: "x"}
		ctx, cancel := context.WithCancel(t.w.Ctx)
		n0 := len(t.e.All)
		t.mu.Lock()
		log, dis = nil, nil
		t.mu.Unlock()
		var told []ce.ControllerStatus
		var ret error
		returned, inCb := false, false
		cb := func(s ce.ControllerStatus) {
			c.Ev("status", "%v", s)
			t.mu.Lock()
			c.Check(!inCb && !returned, "status-late", "status told concurrently or late")
			inCb = true
			told = append(told, s)
			t.mu.Unlock()
			time.Sleep(time.Duration(t.rnd.Int(20)) * time.Millisecond)
			t.mu.Lock()
			inCb = false
			t.mu.Unlock()
		}
		if c.P(10) {
			cb = nil
		}
		go func() {
			err := ce.ExecuteController(ctx, &loadTap{t.w.B, tell}, conf, cb)
			t.mu.Lock()
			returned, ret = true, err
			t.mu.Unlock()
			c.Ev("returned", "%v", err)
		}()
		cancelled, closed := false, false
		for j := 0; j < 1+c.Int(4); j++ {
			time.Sleep(time.Duration(c.Int(3000)) * time.Millisecond)
			t.mu.Lock()
			if len(dis) > 0 && !returned && c.P(15) {
				di := dis[0]
				closed = true
				t.mu.Unlock()
				c.Ev("close", "")
				di.Close()
				t.mu.Lock()
			}
			t.mu.Unlock()
			t.e.Mu.Lock()
			for _, ct := range t.e.All[n0:] {
				if ct.Running && c.P(50) {
					how := []string{"nil", "err", "panic"}[c.Int(3)]
					c.Ev("cmd", "%s %s", ct.Name(), how)
					select {
					case ct.Cmd <- how:
					default:
					}
				}
			}
			t.e.Mu.Unlock()
		}
		verify := func(final bool) {
			for {
				time.Sleep(200 * time.Millisecond)
				c.Wait()
				t.mu.Lock()
				quiet := time.Since(lastEv) >= 200*time.Millisecond
				t.mu.Unlock()
				if quiet {
					break
				}
			}
			t.mu.Lock()
			defer t.mu.Unlock()
			if !c.Check(len(dis) == 1, "applied-once", "%d directives for one execution", len(dis)) {
				return
			}
			var want []ce.ControllerStatus
			var werr error
			for _, e := range log {
				s := ce.ControllerStatus_ControllerStatus_CONFIGURING
				switch {
				case e.added && e.err != nil:
					s = ce.ControllerStatus_ControllerStatus_ERROR
					werr = e.err
				case e.added && e.ctrl != nil:
					s = ce.ControllerStatus_ControllerStatus_RUNNING
				}
				if n := len(want); (n == 0 && e.added) || n > 0 && want[n-1] != s {
					want = append(want, s)
				}
				if werr != nil {
					break
				}
			}
			str := func(l []ce.ControllerStatus) (o []string) {
				for _, s := range l {
					o = append(o, strings.TrimPrefix(s.String(), "ControllerStatus_"))
				}
				return
			}
			wantEnd := werr != nil || closed || cancelled
			c.Check(returned == wantEnd, "exec-ended", "returned=%v (%v), want %v: error %v closed=%v cancelled=%v", returned, ret, wantEnd, werr, closed, cancelled)
			if cb != nil {
				c.Check(slices.Equal(str(told), str(want)) || (closed || cancelled) && len(told) < len(want) && slices.Equal(str(told), str(want)[:len(told)]), "statuses", "told %v, observed %v", str(told), str(want))
			}
			if returned {
				switch {
				case ret == nil || ret == context.Canceled:
					c.Check(closed || cancelled, "exec-error", "returned %v, the controller failed with %v", ret, werr)
					c.Check(!closed || ret != nil || cancelled, "exec-error", "the directive was disposed, no error")
				default:
					c.Check(werr != nil && ret == werr, "exec-error", "returned %v, the controller failed with %v", ret, werr)
				}
			}
		}
		verify(false)
		cancelled = true
		cancel()
		verify(true)
		time.Sleep(time.Minute)
		c.Wait()
		for _, ct := range t.e.All {
			c.Check(ct.Closed == 1 && !ct.Running, "left-running", "%s runs although the execution ended", ct.Name())
		}
		c.Check(len(t.w.B.GetDirectives()) == 0, "leak", "%d directives left", len(t.w.B.GetDirectives()))
	}
	t.w.Cancel()
	time.Sleep(time.Second)
	c.Wait()
}

// ---- bus info

type idir struct {
	name string
	vals directive.DebugValues
}

func (d *idir) Validate() error                         { return nil }
func (d *idir) GetValueOptions() directive.ValueOptions { return directive.ValueOptions{} }
func (d *idir) GetName() string                         { return d.name }
func (d *idir) GetDebugVals() directive.DebugValues     { return d.vals }

type pdir struct{ name string }

func (d *pdir) Validate() error                         { return nil }
func (d *pdir) GetValueOptions() directive.ValueOptions { return directive.ValueOptions{} }
func (d *pdir) GetName() string                         { return d.name }

func dbgStr(name string, vals map[string][]string) string {
	o := name
	for _, k := range h.SortedKeys(vals) {
		o += fmt.Sprintf(" %s=%q", k, vals[k])
	}
	return o
}

func infoStrs(c *h.C, resp *bus_api.GetBusInfoResponse) (ctrls, dirs []string) {
	for _, x := range resp.GetRunningControllers() {
		ctrls = append(ctrls, infoStr(x))
	}
	for _, x := range resp.GetRunningDirectives() {
		m := map[string][]string{}
		last := ""
		for _, v := range x.GetInfo().GetDebugVals() {
			c.Check(last <= v.GetKey(), "debug-order", "debug value %s is listed after %s", v.GetKey(), last)
			last = v.GetKey()
			_, dup := m[v.GetKey()]
			c.Check(!dup, "debug-vals", "debug value %s is there twice", v.GetKey())
			m[v.GetKey()] = v.GetValues()
		}
		dirs = append(dirs, dbgStr(x.GetInfo().GetName(), m))
	}
	sort.Strings(ctrls)
	sort.Strings(dirs)
	return
}

func runInfo(c *h.C) {
	t := setup(c)
	t.addConfigSet()
	mux := srpc.NewMux()
	disabled := c.P(50)
	conf := &bus_api.Config{EnableExecController: !disabled}
	if disabled && c.P(50) {
		conf = nil
	}
	api := bus_api.NewAPI(t.w.B, conf)
	c.Check(api.RegisterAsSRPCServer(mux) == nil, "register", "")
	cli := bus_api.NewSRPCControllerBusServiceClient(srpc.NewClient(srpc.NewServerPipe(srpc.NewServer(mux))))
	var mine []string
	var refs []directive.Reference
	var rels []func()
	for i := 0; i < 12 && !c.Failed(); i++ {
		switch x := c.Int(10); {
		case x < 4:
			var d directive.Directive
			name := fmt.Sprintf("dir%d", c.Int(3))
			vals := directive.DebugValues{}
			switch c.Int(4) {
			case 0:
				d = &pdir{name}
			case 1:
				d = &idir{name, nil}
			default:
				for j := 0; j < c.Int(3); j++ {
					k := fmt.Sprintf("k%d", j)
					vals[k] = []string{}
					for n := 0; n < 1+c.Int(2); n++ {
						vals[k] = append(vals[k], fmt.Sprintf("v%d &=%%\u00e9", c.Int(5)))
					}
				}
				d = &idir{name, vals}
			}
			_, ref, err := t.w.B.AddDirective(d, nil)
			c.Check(err == nil, "add-directive", "%v", err)
			refs = append(refs, ref)
			mine = append(mine, dbgStr(name, vals))
		case x < 6 && len(refs) > 0:
			n := c.Int(len(refs))
			refs[n].Release()
			refs = append(refs[:n:n], refs[n+1:]...)
			mine = append(mine[:n:n], mine[n+1:]...)
		case x < 8:
			ct := &sc.Ctrl{E: t.e, N: 1000 + i, Fac: &sc.Fac{E: t.e, ID: "x", Ver: semver.MustParse("3.2.1"), Tag: "x"}, Conf: &sc.Conf{ID: "x"}}
			rel, err := t.w.B.AddController(t.w.Ctx, ct, nil)
			c.Check(err == nil, "add-controller", "%v", err)
			rels = append(rels, rel)
		case len(rels) > 0:
			n := c.Int(len(rels))
			rels[n]()
			rels = append(rels[:n:n], rels[n+1:]...)
		}
		if !c.P(60) {
			continue
		}
		time.Sleep(5 * time.Second)
		c.Wait()
		var wantC, wantD []string
		for _, x := range t.w.B.GetControllers() {
			wantC = append(wantC, infoStr(x.GetControllerInfo()))
		}
		wantD = append(wantD, mine...)
		sort.Strings(wantC)
		sort.Strings(wantD)
		for k := 0; k < 2; k++ {
			var resp *bus_api.GetBusInfoResponse
			var err error
			if k == 0 {
				resp, err = api.GetBusInfo(t.w.Ctx, &bus_api.GetBusInfoRequest{})
			} else {
				resp, err = cli.GetBusInfo(t.w.Ctx, &bus_api.GetBusInfoRequest{})
			}
			if !c.Check(err == nil, "bus-info", "%v", err) {
				break
			}
			gotC, gotD := infoStrs(c, resp)
			c.Ev("info", "%d %d", len(gotC), len(gotD))
			c.Check(fmt.Sprint(gotC) == fmt.Sprint(wantC), "info-controllers", "got %v want %v", gotC, wantC)
			c.Check(fmt.Sprint(gotD) == fmt.Sprint(wantD), "info-directives", "got %v want %v", gotD, wantD)
		}
		if disabled {
			r := t.newReq()
			n := len(t.insts)
			ctx, cancel := context.WithTimeout(t.w.Ctx, time.Minute)
			strm, err := cli.ExecController(ctx, r.r)
			var resp *ce.ExecControllerResponse
			if err == nil {
				resp, err = strm.Recv()
				_ = strm.Close()
			}
			c.Ev("disabled", "%v", err)
			c.Check(resp == nil && err != nil && err != io.EOF && !errors.Is(err, context.DeadlineExceeded), "disabled", "disabled request got %v %v", resp, err)
			c.Wait()
			c.Check(len(t.insts) == n, "disabled-applied", "a config set was applied although execution is disabled")
			cancel()
		}
	}
	t.w.Cancel()
	time.Sleep(time.Minute)
	c.Wait()
}

// refuser refuses some directives.
type refuser struct {
	bus.Bus
	load, apply, ctor, factory, exec bool
	n                                int
}

var errRefused = errors.New("refused")

func (r *refuser) AddDirective(d directive.Directive, cb directive.ReferenceHandler) (directive.Instance, directive.Reference, error) {
	no := false
	switch d.(type) {
	case resolver.LoadControllerWithConfig:
		no = r.load
	case configset.ApplyConfigSet:
		no = r.apply
	case resolver.LoadConfigConstructorByID:
		no = r.ctor
	case resolver.LoadFactoryByConfig:
		no = r.factory
	case loader.ExecController:
		no = r.exec
	}
	if no {
		r.n++
		return nil, nil, errRefused
	}
	return r.Bus.AddDirective(d, cb)
}

// refused: the bus does not accept the directives, and what a response says.
func refused(c *h.C) {
	t := setup(c)
	t.addConfigSet()
	b := &refuser{Bus: t.w.B, load: true, apply: true, ctor: true, factory: true, exec: true}
	ctx, cancel := context.WithTimeout(t.w.Ctx, time.Minute)
	conf := &sc.Conf{ID: "test/a", N: 5}
	start := time.Now()
	outcome := func(how string, err error) {
		c.Check(errors.Is(err, errRefused), "refused-error", "%s on a bus which refuses: error %v", how, err)
		c.Check(time.Since(start) < time.Second, "refused-block", "%s on a bus which refuses took %v", how, time.Since(start))
		c.Ev("refused", "%s", how)
	}
	told := 0
	for i := 0; i < 3; i++ {
		start = time.Now()
		switch c.Int(6) {
		case 0:
			outcome("ExecuteController", ce.ExecuteController(ctx, b, conf, func(s ce.ControllerStatus) { told++ }))
			c.Check(told == 0, "refused-told", "ExecuteController on a bus which refuses told a status")
		case 1:
			ctrl, _, ref, err := loader.WaitExecControllerRunning(ctx, b, resolver.NewLoadControllerWithConfig(conf), func() { told++ })
			outcome("WaitExecControllerRunning", err)
			c.Check(ctrl == nil && ref == nil && told == 0, "refused-told", "WaitExecControllerRunning on a bus which refuses gave a result")
		case 2:
			ctrl, _, ref, err := loader.WaitExecControllerRunningTyped[*sc.Ctrl](ctx, b, loader.NewExecController(&sc.Fac{E: t.e, ID: "test/a"}, conf), nil)
			outcome("WaitExecControllerRunningTyped", err)
			c.Check(ctrl == nil && ref == nil, "refused-told", "WaitExecControllerRunningTyped on a bus which refuses gave a result")
		case 3:
			f, ref, err := resolver.ExLoadFactoryByConfig(ctx, b, conf)
			outcome("ExLoadFactoryByConfig", err)
			c.Check(f == nil && ref == nil, "refused-told", "ExLoadFactoryByConfig on a bus which refuses gave a result")
		case 4:
			pc, err := configset_proto.NewControllerConfig(configset.NewControllerConfig(1, conf), c.P(50))
			c.Check(err == nil, "enc", "%v", err)
			cc, err := pc.Resolve(ctx, b)
			outcome("Resolve", err)
			c.Check(cc == nil, "refused-told", "Resolve on a bus which refuses gave a result")
		default:
			// the set resolves, applying it is refused; or nothing resolves
			rq, err := ce.ExecControllerProtoFromConfigSet(configset.ConfigSet{"x": configset.NewControllerConfig(1, conf)})
			if c.P(50) {
				rq, err = ce.ExecControllerYAMLFromConfigSet(configset.ConfigSet{"x": configset.NewControllerConfig(1, conf)})
			}
			c.Check(err == nil, "enc", "%v", err)
			b.ctor = c.P(50)
			running := false
			err = rq.Execute(ctx, b, false, func(r *ce.ExecControllerResponse) error {
				running = running || r.GetStatus() == ce.ControllerStatus_ControllerStatus_RUNNING
				return nil
			})
			outcome("Execute", err)
			c.Check(!running, "refused-told", "Execute on a bus which refuses told that a controller runs")
			b.ctor = true
		}
	}
	cancel()
	time.Sleep(time.Minute)
	c.Wait()
	c.Check(len(t.e.All) == 0, "refused-ran", "a controller was constructed although the bus refuses")
	c.Check(len(t.w.B.GetDirectives()) == 0, "leak", "%d directives left", len(t.w.B.GetDirectives()))
	t.w.Cancel()
	time.Sleep(time.Second)
	c.Wait()
	// responses
	for i := 0; i < 3; i++ {
		st := ce.ControllerStatus(c.Int(4))
		id := []string{"", "key 1"}[c.Int(2)]
		info := []string{"", "it broke"}[c.Int(2)]
		r := &ce.ExecControllerResponse{Id: id, Status: st, ErrorInfo: info}
		if c.P(10) {
			r, st, id, info = nil, 0, "", ""
		}
		err := r.GetError()
		str := r.FormatLogString()
		c.Ev("response", "%v %q %q", st, id, info)
		if st == ce.ControllerStatus_ControllerStatus_ERROR {
			switch {
			case info != "":
				c.Check(err != nil && err.Error() == info, "response-error", "%v: error %v", r, err)
			default:
				c.Check(errors.Is(err, ce.ErrAllControllersFailed), "response-error", "%v: error %v", r, err)
			}
			if err != nil {
				c.Check(strings.Contains(str, err.Error()), "response-string", "%v is logged as %q", r, str)
			}
		} else {
			c.Check(err == nil, "response-error", "%v: error %v", r, err)
		}
		c.Check(strings.Contains(str, id), "response-string", "%v is logged as %q", r, str)
		if st != 0 {
			c.Check(strings.Contains(str, st.String()), "response-string", "%v is logged as %q", r, str)
		}
	}
}

// ---- the api controller

func runTCP(c *h.C) {
	t := setup(c)
	lis, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	addr := lis.Addr().String()
	_ = lis.Close()
	for i := 0; i < 3 && !c.Failed(); i++ {
		ctl := bus_api_controller.NewController(c.Le, addr, t.w.B, &bus_api_controller.Config{ListenAddr: addr, BusApiConfig: &bus_api.Config{}})
		ctx, cancel := context.WithCancel(t.w.Ctx)
		done := make(chan error, 1)
		go func() { done <- t.w.B.ExecuteController(ctx, ctl) }()
		var conn net.Conn
		var fail error
		if c.P(80) {
			if !c.Check(c.Settle(func() bool {
				select {
				case fail = <-done:
					return true
				default:
				}
				conn, err = net.DialTimeout("tcp", addr, time.Second)
				return err == nil
			}), "listen", "the api does not listen") || !c.Check(conn != nil, "listen-again", "the api ended with %v (run %d)", fail, i) {
				cancel()
				break
			}
			cl, err := srpc.NewClientWithConn(conn, true, nil)
			if !c.Check(err == nil, "client", "%v", err) {
				cancel()
				break
			}
			resp, err := bus_api.NewSRPCControllerBusServiceClient(cl).GetBusInfo(ctx, &bus_api.GetBusInfoRequest{})
			c.Check(err == nil && len(resp.GetRunningControllers()) == len(t.w.B.GetControllers()), "tcp-info", "%v %v", resp, err)
			c.Ev("tcp", "%d controllers", len(resp.GetRunningControllers()))
		}
		hold := c.P(50)
		if conn != nil && !hold {
			_ = conn.Close()
		}
		cancel()
		if fail == nil {
			c.Check(c.Settle(func() bool {
				select {
				case <-done:
					return true
				default:
					return false
				}
			}), "stop", "the api controller does not stop")
		}
		t.w.B.RemoveController(ctl)
		_ = ctl.Close()
		if conn != nil && hold {
			_ = conn.Close()
		}
		// the port is free
		free := false
		for n := 0; n < 300 && !free; n++ {
			l, err := net.Listen("tcp", addr)
			if err == nil {
				_ = l.Close()
			}
			free = err == nil
			if !free {
				time.Sleep(10 * time.Millisecond)
			}
		}
		c.Check(free, "still-listening", "the api still listens after its execution ended")
		c.Ev("stopped", "")
	}
	t.w.Cancel()
}

func TestCheck(t *testing.T) {
	h.Run(t, []h.Scenario{
		{Name: "request", Quick: 2500, Thorough: 60000, Fn: runReq(false)},
		{Name: "api", Quick: 1200, Thorough: 30000, Fn: runReq(true)},
		{Name: "exec", Quick: 1000, Thorough: 30000, Fn: runExec},
		{Name: "info", Quick: 600, Thorough: 15000, Fn: runInfo},
		{Name: "refused", Quick: 1000, Thorough: 10000, Fn: refused},
		{Name: "tcp", Quick: 24, Thorough: 400, Parallel: true, Fn: runTCP},
	})
}
