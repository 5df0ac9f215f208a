package csctl

import (
	"fmt"
	"slices"

	"github.com/aperturerobotics/controllerbus/config"
	"github.com/aperturerobotics/controllerbus/controller/configset"
	"github.com/aperturerobotics/controllerbus/directive"

	"verifharness/h"
)

// aconf is a config of a request.
type aconf struct {
	config.Config
	id string
	n  int
}

func (a *aconf) GetConfigID() string { return a.id }
func (a *aconf) Validate() error     { return nil }
func (a *aconf) EqualsConfig(o config.Config) bool {
	b, ok := o.(*aconf)
	return ok && a.id == b.id && a.n == b.n
}

// ask is a request and what it asks for.
type ask struct {
	keys []string // lookup
	cs   configset.ConfigSet
	is   map[string]string
	dir  directive.Directive
}

// runAsks checks the requests themselves.
func runAsks(c *h.C) {
	r := c.NewRand()
	keys := []string{"a", "b", "c", ""}[:2+r.Int(3)]
	mk := func() *ask {
		q := &ask{}
		if r.Int(2) == 0 {
			for range r.Int(4) {
				q.keys = append(q.keys, keys[r.Int(len(keys))])
			}
			q.dir = configset.NewLookupConfigSet(q.keys)
			return q
		}
		q.cs, q.is = configset.ConfigSet{}, map[string]string{}
		for range r.Int(4) {
			k, rev := keys[r.Int(len(keys))], uint64(r.Int(3))
			cf := &aconf{id: []string{"x", "y"}[r.Int(2)], n: r.Int(2)}
			if r.Int(8) == 0 {
				q.cs[k] = configset.NewControllerConfig(rev, nil)
				q.is[k] = fmt.Sprintf("%d none", rev)
				continue
			}
			q.cs[k] = configset.NewControllerConfig(rev, cf)
			q.is[k] = fmt.Sprintf("%d %s %d", rev, cf.id, cf.n)
		}
		q.dir = configset.NewApplyConfigSet(q.cs)
		return q
	}
	qs := []*ask{mk(), mk(), mk(), mk()}
	// the same again
	q := *qs[r.Int(4)]
	if q.cs != nil {
		cs := configset.ConfigSet{}
		for k, v := range q.cs {
			cf := v.GetConfig()
			if a, ok := cf.(*aconf); ok {
				b := *a
				cf = &b
			}
			cs[k] = configset.NewControllerConfig(v.GetRev(), cf)
		}
		q.cs = cs
		q.dir = configset.NewApplyConfigSet(cs)
	} else {
		q.keys = slices.Clone(q.keys)
		q.dir = configset.NewLookupConfigSet(q.keys)
	}
	qs = append(qs, &q)
	for _, q := range qs {
		var want []string
		name := "LookupConfigSet"
		if q.cs != nil {
			name = "ApplyConfigSet"
			for k := range q.cs {
				want = append(want, fmt.Sprintf("%s@%d", k, q.cs[k].GetRev()))
			}
			slices.Sort(want)
			got := q.dir.(configset.ApplyConfigSet).GetApplyConfigSet()
			c.Check(len(got) == len(q.cs), "ask-arg", "%v", got)
			for k, v := range q.cs {
				c.Check(got[k] == v, "ask-arg", "%q: %v", k, got[k])
			}
		} else {
			want = q.keys
			got := q.dir.(configset.LookupConfigSet).GetLookupConfigSetControllerKeys()
			c.Check(slices.Equal(got, q.keys), "ask-arg", "%v %v", got, q.keys)
		}
		c.Check(q.dir.Validate() == nil, "ask-validate", "%v", q.dir.Validate())
		c.Check(q.dir.GetName() == name, "ask-name", "%q %s", q.dir.GetName(), name)
		if d, ok := q.dir.(directive.Debuggable); ok {
			c.Check(slices.Equal(d.GetDebugVals()["controller-keys"], want), "ask-debug", "%v %v", d.GetDebugVals(), want)
		} else {
			c.Fail("ask-debug", "%s has no debug values", name)
		}
		o := q.dir.GetValueOptions()
		c.Check(o == directive.ValueOptions{}, "ask-options", "%+v", o)
		for _, p := range qs {
			same := q == p
			switch {
			case (q.cs == nil) != (p.cs == nil):
			case q.cs == nil:
				same = slices.Equal(q.keys, p.keys)
			default:
				same = len(q.is) == len(p.is)
				for k, v := range q.is {
					w, ok := p.is[k]
					same = same && ok && v == w
				}
			}
			eq := q.dir.(directive.DirectiveWithEquiv).IsEquivalent(p.dir)
			c.Ev("asked", "%v %v %v", q.cs == nil, p.cs == nil, eq)
			c.Check(eq == same, "ask-equal", "%v %v equivalent to %v %v: %v", q.keys, q.is, p.keys, p.is, eq)
			if s, ok := q.dir.(directive.DirectiveWithSuperceeds); ok {
				c.Check(!s.Superceeds(p.dir), "ask-superceeds", "")
			}
		}
	}
}
