package lookup

import (
	"context"
	"errors"
	"fmt"
	"maps"
	"reflect"
	"slices"
	"time"

	"github.com/aperturerobotics/controllerbus/config"
	"github.com/aperturerobotics/controllerbus/controller"
	"github.com/aperturerobotics/controllerbus/controller/loader"
	"github.com/aperturerobotics/controllerbus/controller/resolver"
	"github.com/aperturerobotics/controllerbus/directive"
	cbackoff "github.com/aperturerobotics/util/backoff/cbackoff"
	"github.com/blang/semver/v4"

	"verifharness/h"
	"verifharness/sc"
)

// rconf is a config of a request.
type rconf struct{ sc.Conf }

func (r *rconf) base() *rconf { return r }
func (r *rconf) EqualsConfig(o config.Config) bool {
	x, ok := o.(interface{ base() *rconf })
	return ok && x.base().ID == r.ID && x.base().N == r.N
}

// rdconf has debug values.
type rdconf struct {
	rconf
	vals config.DebugValues
}

func (r *rdconf) GetDebugVals() config.DebugValues { return r.vals }

// rfac is a factory of a request.
type rfac struct {
	id  string
	ver semver.Version
	ctx context.Context
}

func (f *rfac) GetConfigID() string            { return f.id }
func (f *rfac) ConstructConfig() config.Config { return &rconf{sc.Conf{ID: f.id}} }
func (f *rfac) GetVersion() semver.Version     { return f.ver }
func (f *rfac) Construct(context.Context, config.Config, controller.ConstructOpts) (controller.Controller, error) {
	return nil, errors.New("not used")
}

// rcfac can be unloaded.
type rcfac struct{ rfac }

func (f *rcfac) GetFactoryContext() context.Context { return f.ctx }

// rq is a request and what it asks for.
type rq struct {
	kind string
	id   string
	conf config.Config
	fac  controller.Factory
	gone bool // the factory is unloaded
	bo   bool
	opts directive.ValueOptions
	dir  directive.Directive
}

func (q *rq) String() string {
	return fmt.Sprintf("%s(%s %v %v gone=%v)", q.kind, q.id, q.conf, q.fac, q.gone)
}

func (q *rq) rc() *rconf { return q.conf.(interface{ base() *rconf }).base() }

var errInvalid = errors.New("invalid config")

func newRq(c *h.C, gone context.Context) *rq {
	q := &rq{kind: []string{"ctor", "factory", "load", "exec"}[c.Int(4)]}
	id := []string{"test/a", "test/b", "test"}[c.Int(3)]
	rc := rconf{sc.Conf{ID: id, N: int64(c.Int(2))}}
	if c.P(20) {
		rc.Err = errInvalid
	}
	var conf config.Config = &rc
	if c.P(40) {
		d := &rdconf{rconf: rc}
		if c.P(80) {
			d.vals = config.DebugValues{}
			for _, k := range []string{"config-id", "a", "b"} {
				if c.P(50) {
					d.vals[k] = []string{fmt.Sprint(c.Int(9))}
				}
			}
		}
		conf = d
	}
	missing := c.P(8)
	bof := func() cbackoff.BackOff { return &cbackoff.ZeroBackOff{} }
	q.bo = c.P(40)
	if !q.bo {
		bof = nil
	}
	if c.P(40) {
		q.opts = directive.ValueOptions{MaxValueCount: c.Int(3), MaxValueHardCap: c.P(50), UnrefDisposeDur: time.Duration(c.Int(5)), UnrefDisposeEmptyImmediate: c.P(50)}
	}
	switch q.kind {
	case "ctor":
		if missing {
			id = ""
		}
		q.id = id
		q.dir = resolver.NewLoadConfigConstructorByID(id)
	case "factory":
		if !missing {
			q.conf = conf
		}
		q.dir = resolver.NewLoadFactoryByConfig(q.conf)
	case "load":
		if !missing {
			q.conf = conf
		}
		if !q.bo && c.P(50) {
			q.opts = directive.ValueOptions{}
			q.dir = resolver.NewLoadControllerWithConfig(q.conf)
		} else {
			q.dir = resolver.NewLoadControllerWithConfigAndOpts(q.conf, q.opts, bof)
		}
	case "exec":
		f := rfac{id: []string{"test/a", "test/b", "test"}[c.Int(3)], ver: semver.MustParse(versions[c.Int(len(versions))])}
		if c.P(70) {
			f.id = id
		}
		q.fac = &f
		if c.P(40) {
			f.ctx = context.Background()
			if c.P(40) {
				f.ctx, q.gone = gone, true
			}
			q.fac = &rcfac{f}
		}
		q.conf = conf
		if missing {
			if c.P(50) {
				q.conf = nil
			} else {
				q.fac = nil
			}
		}
		if !q.bo && c.P(50) {
			q.opts = directive.ValueOptions{}
			q.dir = loader.NewExecController(q.fac, q.conf)
		} else {
			q.dir = loader.NewExecControllerWithOpts(q.fac, q.conf, bof, q.opts)
		}
	}
	return q
}

// complete: nothing is missing
func (q *rq) complete() bool {
	switch q.kind {
	case "ctor":
		return q.id != ""
	case "exec":
		return q.conf != nil && q.fac != nil
	}
	return q.conf != nil
}

// same is true if both requests ask for the same.
func same(a, b *rq) bool {
	if a.kind != b.kind {
		return false
	}
	switch a.kind {
	case "ctor":
		return a.id == b.id
	case "exec":
		if a.fac.GetConfigID() != b.fac.GetConfigID() || a.gone || b.gone {
			return false
		}
	}
	return a.rc().ID == b.rc().ID && a.rc().N == b.rc().N
}

// requests checks what the request directives say about themselves.
func requests(c *h.C) {
	gone, cancel := context.WithCancel(context.Background())
	cancel()
	var qs []*rq
	for n := 2 + c.Int(5); n > 0; n-- {
		q := newRq(c, gone)
		c.Ev("request", "%v", q)
		err := q.dir.Validate()
		switch {
		case !q.complete():
			c.Check(err != nil, "validate", "%v: valid although something is missing", q)
			continue
		case (q.kind == "load" || q.kind == "exec") && q.rc().Err != nil:
			c.Check(errors.Is(err, errInvalid), "validate", "%v: validation gave %v, the config is invalid", q, err)
		default:
			c.Check(err == nil, "validate", "%v: validation failed with %v", q, err)
		}
		qs = append(qs, q)
		want := directive.DebugValues{}
		switch d := q.dir.(type) {
		case resolver.LoadConfigConstructorByID:
			c.Check(d.LoadConfigConstructorByIDConfigID() == q.id, "request", "%v asks for %s", q, d.LoadConfigConstructorByIDConfigID())
			want["config-id"] = []string{q.id}
		case resolver.LoadFactoryByConfig:
			c.Check(d.LoadFactoryByConfig() == q.conf, "request", "%v asks for %v", q, d.LoadFactoryByConfig())
		case resolver.LoadControllerWithConfig:
			c.Check(d.GetLoadControllerConfig() == q.conf, "request", "%v asks for %v", q, d.GetLoadControllerConfig())
			c.Check((d.GetExecControllerRetryBackoff() != nil) == q.bo && d.GetValueOptions() == q.opts, "request", "%v has backoff %v, options %v; want %v %v", q, d.GetExecControllerRetryBackoff() != nil, d.GetValueOptions(), q.bo, q.opts)
		case loader.ExecController:
			c.Check(d.GetExecControllerConfig() == q.conf && d.GetExecControllerFactory() == q.fac, "request", "%v asks for %v %v", q, d.GetExecControllerConfig(), d.GetExecControllerFactory())
			c.Check((d.GetExecControllerRetryBackoff() != nil) == q.bo && d.GetValueOptions() == q.opts, "request", "%v has backoff %v, options %v; want %v %v", q, d.GetExecControllerRetryBackoff() != nil, d.GetValueOptions(), q.bo, q.opts)
		}
		if q.conf != nil {
			want["config-id"] = []string{q.conf.GetConfigID()}
			if d, ok := q.conf.(*rdconf); ok && q.kind != "factory" {
				for k, v := range d.vals {
					if k != "config-id" {
						want[k] = v
					}
				}
			}
		}
		names := map[string]string{"ctor": "LoadConfigConstructorByID", "factory": "LoadFactoryByConfig", "load": "LoadControllerWithConfig", "exec": "ExecController"}
		c.Check(q.dir.GetName() == names[q.kind], "request", "%v is called %s", q, q.dir.GetName())
		got := q.dir.(directive.Debuggable).GetDebugVals()
		c.Check(reflect.DeepEqual(got, want), "debug", "%v has debug values %v (%v), want %v", q, got, slices.Sorted(maps.Keys(got)), want)
	}
	for _, a := range qs {
		for _, b := range qs {
			if a.kind == "exec" && b.kind == "exec" && a == b && a.gone {
				continue
			}
			s := same(a, b)
			c.Ev("pair", "%v", s)
			eq := a.dir.(directive.DirectiveWithEquiv).IsEquivalent(b.dir)
			c.Check(eq == s, "equivalent", "%v is equivalent to %v: %v, want %v", a, b, eq, s)
			sup := a.dir.(directive.DirectiveWithSuperceeds).Superceeds(b.dir)
			if s {
				wantSup := a.kind == "exec" && a.fac.GetVersion().GT(b.fac.GetVersion())
				c.Check(sup == wantSup, "supersedes", "%v supersedes %v: %v, want %v", a, b, sup, wantSup)
			}
		}
	}
}
