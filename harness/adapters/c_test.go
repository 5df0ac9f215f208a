// Package adapters checks the ready-made resolvers (C14).
package adapters

import (
	"context"
	"errors"
	"fmt"
	"sort"
	"sync"
	"testing"
	"time"

	"github.com/aperturerobotics/controllerbus/bus"
	"github.com/aperturerobotics/controllerbus/directive"
	cbackoff "github.com/aperturerobotics/util/backoff/cbackoff"
	"github.com/aperturerobotics/util/ccontainer"
	"github.com/aperturerobotics/util/keyed"
	"github.com/aperturerobotics/util/refcount"

	"verifharness/bw"
	"verifharness/h"
)

var errSrc = errors.New("source error")

// lease is something acquired from a source.
type lease struct {
	v        *bw.V
	rel      int
	released func()
	dead     bool // the source called released
	hasRel   bool
}

// st is the state of a source shared by the adapters.
type st struct {
	c    *h.C
	w    *bw.W
	mu   sync.Mutex
	rnd  *h.LockedRand
	name string
	// leases are all acquisitions
	leases []*lease
	// gate: getters wait while it is closed
	gate  chan struct{}
	empty bool // the source has nothing
	fail  bool // the next acquisition fails
	// recv is the view of the directive
	recv   map[uint32]any
	capped bool
	inGet  int
	// gets counts the acquisitions since the directive was added
	gets int
	// last is what the last acquisition gave: "", "ctx", "empty" or "lease"
	last string
	// mustGet is true if a running resolver has to have acquired a value which is still valid.
	mustGet func() bool
}

// checkAcquired checks that the running resolver did access its source, and again if that value is gone.
func (s *st) checkAcquired() {
	if s.mustGet == nil || !s.mustGet() {
		return
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.inGet > 0 {
		return
	}
	if !s.c.Check(s.gets > 0, "not-acquired", "%s: running, but its source was never accessed", s.name) {
		return
	}
	l := s.leases
	s.c.Check(s.last == "empty" || s.last == "lease" && !l[len(l)-1].dead, "not-acquired", "%s: running with what the source does not provide any more (access %d: %s), but not accessed again", s.name, s.gets, s.last)
}

// acquire returns a lease.
func (s *st) acquire(ctx context.Context, released func()) (*bw.V, func(), error) {
	s.mu.Lock()
	gate := s.gate
	s.inGet++
	s.gets++
	s.c.Check(s.inGet == 1, "get-concurrent", "%s: source accessed concurrently", s.name)
	s.mu.Unlock()
	defer func() {
		s.mu.Lock()
		s.inGet--
		s.mu.Unlock()
	}()
	if gate != nil {
		select {
		case <-ctx.Done():
			if s.rnd.Int(2) == 0 {
				s.mu.Lock()
				s.last = "ctx"
				s.mu.Unlock()
				return nil, nil, ctx.Err()
			}
		case <-gate:
		}
	}
	if s.rnd.Int(3) == 0 {
		time.Sleep(time.Duration(s.rnd.Int(4)) * time.Millisecond)
	}
	s.mu.Lock()
	if s.empty {
		s.last = "empty"
		s.mu.Unlock()
		s.c.Ev("get-empty", "")
		return nil, nil, nil
	}
	l := &lease{v: &bw.V{N: s.w.Num()}, released: released, hasRel: s.rnd.Int(5) != 0}
	if s.name == "refcount" {
		l.hasRel = true
		s.fail = false
	}
	fail := s.fail
	s.fail = false
	early := s.rnd.Int(8) == 0 && released != nil
	s.leases = append(s.leases, l)
	s.last = "lease"
	l.dead = fail || early || ctx.Err() != nil
	s.mu.Unlock()
	s.c.Ev("get", "%v early=%v fail=%v", l.v, early, fail)
	var rel func()
	if l.hasRel {
		rel = func() {
			s.mu.Lock()
			l.rel++
			n := l.rel
			s.mu.Unlock()
			s.c.Ev("rel", "%v", l.v)
			s.c.Check(n == 1, "release-twice", "%s: %v released %d times", s.name, l.v, n)
		}
	}
	if early {
		// the value is gone before the getter returns
		released()
		if s.rnd.Int(2) == 0 {
			released()
		}
	}
	if fail {
		if s.rnd.Int(2) == 0 {
			l.hasRel = false
			rel = nil
		}
		return nil, rel, errSrc
	}
	return l.v, rel, nil
}

// current returns the live lease.
func (s *st) current() *lease {
	s.mu.Lock()
	defer s.mu.Unlock()
	if len(s.leases) == 0 {
		return nil
	}
	l := s.leases[len(s.leases)-1]
	if l.dead || l.rel > 0 {
		return nil
	}
	return l
}

// ad is an adapter under test.
type ad struct {
	name string
	res  func() directive.Resolver
	// op changes the source.
	op func()
	// want is what must be published by a running resolver; ok is false if unspecified.
	want func() (vals []any, ok bool)
	// wantErr is the error the resolver must have ended with.
	wantErr func() error
	// single: at most one value
	single bool
	// after checks the source after the resolver was cancelled.
	after func()
	// leased: values are leases of the source
	leased bool
	// restart is called when a new instance of the directive is created.
	restart func()
}

var kinds = []string{"value", "getter", "access", "keyed-getter", "refcount", "keyed-refcount", "retry", "ulist", "umap", "watchable", "watchable-xfrm", "func"}

type kv struct {
	K, Gen, Hidden int
}

func build(c *h.C, s *st, kind string) *ad {
	a := &ad{name: kind}
	s.name = kind
	none := func() error { return nil }
	a.wantErr = none
	a.op = func() {}
	a.restart = func() {}
	leaseOp := func() {
		s.mu.Lock()
		defer s.mu.Unlock()
		switch x := c.Int(12); {
		case x < 5:
			// the current value becomes invalid
			if len(s.leases) > 0 {
				l := s.leases[len(s.leases)-1]
				if c.P(15) {
					l = s.leases[c.Int(len(s.leases))]
				}
				l.dead = true
				s.mu.Unlock()
				c.Ev("invalidate", "%v", l.v)
				if l.released != nil {
					l.released()
					if c.P(20) {
						l.released()
					}
				}
				s.mu.Lock()
			}
		case x < 7:
			if s.gate == nil {
				s.gate = make(chan struct{})
				c.Ev("gate-close", "")
			}
		case x < 11:
			if s.gate != nil {
				close(s.gate)
				s.gate = nil
				c.Ev("gate-open", "")
			}
		default:
			s.fail = c.P(50)
		}
	}
	switch kind {
	case "value":
		var vals []*bw.V
		var want []any
		for n := c.Int(5); n > 0; n-- {
			v := &bw.V{N: s.w.Num()}
			vals = append(vals, v)
			want = append(want, v)
		}
		a.res = func() directive.Resolver { return directive.NewValueResolver(vals) }
		a.want = func() ([]any, bool) { return want, true }
	case "getter":
		a.single = true
		var err error
		nilGetter := c.P(5)
		s.mustGet = func() bool { return !nilGetter && a.wantErr() == nil }
		a.res = func() directive.Resolver {
			if nilGetter {
				return directive.NewGetterResolver[*bw.V](nil)
			}
			return directive.NewGetterResolver(func(ctx context.Context) (*bw.V, error) {
				v, _, e := s.acquire(ctx, nil)
				s.mu.Lock()
				if len(s.leases) > 0 {
					s.leases[len(s.leases)-1].hasRel = false
				}
				err = e
				s.mu.Unlock()
				return v, e
			})
		}
		a.op = func() {
			s.mu.Lock()
			defer s.mu.Unlock()
			if s.gate != nil && c.P(60) {
				close(s.gate)
				s.gate = nil
			}
		}
		s.fail = c.P(25)
		a.restart = func() {
			s.mu.Lock()
			if s.gate == nil && c.P(40) {
				s.gate = make(chan struct{})
			}
			s.fail = c.P(25)
			s.leases = nil
			err = nil
			s.mu.Unlock()
		}
		a.want = func() ([]any, bool) {
			if l := s.current(); l != nil {
				return []any{l.v}, true
			}
			return nil, true
		}
		a.wantErr = func() error { s.mu.Lock(); defer s.mu.Unlock(); return err }
	case "access", "keyed-getter":
		a.single, a.leased = true, true
		var lastErr error
		ended := false
		s.mustGet = func() bool { s.mu.Lock(); defer s.mu.Unlock(); return !ended }
		get := func(ctx context.Context, released func()) (*bw.V, func(), error) {
			v, rel, err := s.acquire(ctx, released)
			s.mu.Lock()
			lastErr = err
			if err != nil || (v == nil && kind == "keyed-getter") {
				ended = true
			}
			s.mu.Unlock()
			return v, rel, err
		}
		if kind == "access" {
			a.res = func() directive.Resolver { return directive.NewAccessResolver(get) }
		} else {
			key := fmt.Sprintf("key%d", c.Int(10))
			a.res = func() directive.Resolver {
				return directive.NewKeyedGetterResolver(func(ctx context.Context, k string, release func()) (*bw.V, func(), error) {
					c.Check(k == key, "wrong-key", "keyed getter got key %q", k)
					return get(ctx, release)
				}, key)
			}
		}
		a.op = func() {
			if kind == "keyed-getter" && c.P(5) {
				s.mu.Lock()
				s.empty = true
				s.mu.Unlock()
			}
			leaseOp()
		}
		a.restart = func() {
			s.mu.Lock()
			lastErr, ended, s.empty = nil, false, false
			for _, l := range s.leases {
				l.dead = true
			}
			s.mu.Unlock()
		}
		a.want = func() ([]any, bool) {
			if l := s.current(); l != nil {
				return []any{l.v}, true
			}
			return nil, true
		}
		a.wantErr = func() error {
			s.mu.Lock()
			defer s.mu.Unlock()
			if ended {
				return lastErr
			}
			return nil
		}
	case "refcount":
		a.single, a.leased = true, true
		xfrm := c.P(40)
		rc := refcount.NewRefCount[*bw.V](s.w.Ctx, c.P(20), nil, nil, s.acquire)
		hasCtx := true
		s.mustGet = func() bool { return hasCtx }
		var extra *refcount.Ref[*bw.V]
		if xfrm {
			a.res = func() directive.Resolver {
				return directive.NewRefCountResolverWithXfrm(rc, func(ctx context.Context, v *bw.V) (string, error) {
					return fmt.Sprintf("x%d", v.N), nil
				})
			}
		} else {
			a.res = func() directive.Resolver { return directive.NewRefCountResolver(rc) }
		}
		a.op = func() {
			switch x := c.Int(10); {
			case x == 0:
				hasCtx = !hasCtx
				c.Ev("rc-ctx", "%v", hasCtx)
				if hasCtx {
					rc.SetContext(s.w.Ctx)
				} else {
					rc.ClearContext()
				}
			case x == 1:
				if extra != nil {
					extra.Release()
					extra = nil
				} else {
					extra = rc.AddRef(func(bool, *bw.V, error) {})
				}
			default:
				leaseOp()
			}
		}
		a.want = func() ([]any, bool) {
			l := s.current()
			if l == nil || !hasCtx {
				return nil, true
			}
			if xfrm {
				return []any{fmt.Sprintf("x%d", l.v.N)}, true
			}
			return []any{l.v}, true
		}
		a.after = func() {
			if extra != nil {
				extra.Release()
			}
			rc.ClearContext()
		}
	case "keyed-refcount":
		a.single = true
		data := map[string]*bw.V{}
		rc := keyed.NewKeyedRefCount(func(key string) (keyed.Routine, *bw.V) {
			v := &bw.V{N: s.w.Num()}
			data[key] = v
			return func(ctx context.Context) error { <-ctx.Done(); return nil }, v
		})
		rc.SetContext(s.w.Ctx, true)
		mode := c.Int(4) // 0 identity 1 build 2 build nil 3 build error
		key := fmt.Sprintf("key%d", c.Int(10))
		a.res = func() directive.Resolver {
			var b func(ctx context.Context, v *bw.V) (directive.Value, error)
			switch mode {
			case 1:
				b = func(ctx context.Context, v *bw.V) (directive.Value, error) { return fmt.Sprintf("x%d", v.N), nil }
			case 2:
				b = func(ctx context.Context, v *bw.V) (directive.Value, error) { return nil, nil }
			case 3:
				b = func(ctx context.Context, v *bw.V) (directive.Value, error) { return nil, errSrc }
			}
			return directive.NewKeyedRefCountResolver(rc, key, b)
		}
		a.want = func() ([]any, bool) {
			switch mode {
			case 0:
				return []any{data[key]}, true
			case 1:
				return []any{fmt.Sprintf("x%d", data[key].N)}, true
			}
			return nil, true
		}
		a.wantErr = func() error {
			if mode == 3 {
				return errSrc
			}
			return nil
		}
		a.after = func() {
			c.Check(len(rc.GetKeys()) == 0, "release-missing", "keyed-refcount: key still referenced: %v", rc.GetKeys())
		}
	case "retry":
		a.single = true
		fails := c.Int(6)
		stopAt := -1
		if c.P(40) {
			stopAt = c.Int(6)
		}
		interval := time.Duration(1+c.Int(50)) * time.Millisecond
		block := c.P(50)
		n, running, tries := 0, 0, 0
		var last time.Time
		resets := 0
		var cur *bw.V
		bo := &scriptBo{next: func() time.Duration {
			tries++
			if stopAt >= 0 && tries > stopAt {
				return cbackoff.Stop
			}
			return interval
		}, reset: func() { resets++ }}
		inner := directive.NewFuncResolver(func(ctx context.Context, rh directive.ResolverHandler) error {
			rh.ClearValues()
			running++
			n++
			c.Check(running == 1, "retry-concurrent", "retry: inner resolver executed concurrently")
			defer func() { running-- }()
			if n > 1 && !s.capped { // the bus may start it over
				c.Check(time.Since(last) == interval, "retry-time", "retry: retried after %v, backoff is %v", time.Since(last), interval)
			}
			c.Ev("try", "%d", n)
			time.Sleep(time.Duration(s.rnd.Int(3)) * time.Millisecond)
			last = time.Now()
			if n <= fails {
				return errSrc
			}
			cur = &bw.V{N: s.w.Num()}
			rh.AddValue(cur)
			if block {
				<-ctx.Done()
				return context.Canceled
			}
			return nil
		})
		a.res = func() directive.Resolver { return directive.NewRetryResolver(c.Le, inner, bo) }
		a.restart = func() { n, tries, resets, cur = 0, 0, 0, nil }
		a.want = func() ([]any, bool) {
			exp := fails + 1
			if stopAt >= 0 && stopAt < fails {
				exp = stopAt + 1
			}
			c.Check(n == exp, "retry-count", "retry: executed %d times, want %d (fails %d, stop after %d)", n, exp, fails, stopAt)
			if exp <= fails {
				return nil, true
			}
			if !block {
				c.Check(resets == 1, "retry-reset", "retry: backoff reset %d times after success", resets)
			}
			return []any{cur}, true
		}
		a.wantErr = func() error {
			if stopAt >= 0 && stopAt < fails {
				return errSrc
			}
			return nil
		}
	case "ulist", "umap":
		drop := 0
		xf := c.P(50)
		if xf {
			drop = 2 + c.Int(2)
		}
		xfrm := func(k int, v kv) (string, bool) {
			c.Check(k == v.K, "wrong-key", "%s: transform of %v got key %d", kind, v, k)
			return fmt.Sprintf("%d.%d", v.K, v.Gen), drop == 0 || v.Gen%drop != 0
		}
		cmp := func(k int, a, b kv) bool { return a.K == b.K && a.Gen == b.Gen }
		getKey := func(v kv) int { return v.K }
		type list interface {
			set(vals []kv)
			app(vals []kv)
			rem(keys []int)
			remv(vals []kv)
		}
		var l list
		model := map[int]kv{}
		a.restart = func() { model = map[int]kv{} }
		a.res = func() directive.Resolver {
			return directive.NewFuncResolver(func(ctx context.Context, rh directive.ResolverHandler) error {
				switch {
				case kind == "ulist" && xf:
					u := directive.NewUniqueListXfrmResolver(getKey, cmp, xfrm, rh)
					l = ul{u.SetValues, u.AppendValues, u.RemoveKeys, u.RemoveValues}
				case kind == "ulist":
					u := directive.NewUniqueListResolver(getKey, cmp, rh)
					l = ul{u.SetValues, u.AppendValues, u.RemoveKeys, u.RemoveValues}
				case xf:
					u := directive.NewUniqueMapXfrmResolver(cmp, xfrm, rh)
					l = um{u.SetValues, u.AppendValues, u.RemoveKeys}
				default:
					u := directive.NewUniqueMapResolver(cmp, rh)
					l = um{u.SetValues, u.AppendValues, u.RemoveKeys}
				}
				<-ctx.Done()
				return context.Canceled
			})
		}
		gen := 0
		a.op = func() {
			var vals []kv
			seen := map[int]bool{}
			for n := c.Int(5); n > 0; n-- {
				k := c.Int(5)
				if kind == "umap" && seen[k] {
					continue
				}
				seen[k] = true
				g := model[k].Gen
				if g == 0 || c.P(50) {
					gen++
					g = gen
				}
				// Hidden differs although the values are equal by cmp
				vals = append(vals, kv{K: k, Gen: g, Hidden: c.Int(2)})
			}
			if l == nil {
				return
			}
			upd := func(v kv) {
				if o, ok := model[v.K]; !ok || !cmp(v.K, v, o) {
					model[v.K] = v
				}
			}
			switch c.Int(6) {
			case 0, 1, 2:
				c.Ev("set", "%v", vals)
				l.set(vals)
				in := map[int]bool{}
				for _, v := range vals {
					upd(v)
					in[v.K] = true
				}
				for k := range model {
					if !in[k] {
						delete(model, k)
					}
				}
			case 3, 4:
				c.Ev("append", "%v", vals)
				l.app(vals)
				for _, v := range vals {
					upd(v)
				}
			case 5:
				if c.P(50) {
					l.remv(vals)
				} else {
					var ks []int
					for _, v := range vals {
						ks = append(ks, v.K)
					}
					l.rem(ks)
				}
				c.Ev("remove", "%v", vals)
				for _, v := range vals {
					delete(model, v.K)
				}
			}
		}
		a.want = func() ([]any, bool) {
			var out []any
			for k, v := range model {
				if !xf {
					out = append(out, v)
				} else if drop == 0 || v.Gen%drop != 0 {
					out = append(out, fmt.Sprintf("%d.%d", k, v.Gen))
				}
			}
			return out, true
		}
	case "watchable", "watchable-xfrm":
		a.single = true
		ctr := ccontainer.NewCContainer[*bw.V](nil)
		failN := 0
		if kind == "watchable-xfrm" && c.P(40) {
			failN = 3
		}
		mod := 1 + c.Int(2)
		ended := false
		if kind == "watchable" {
			mod = 1
			a.res = func() directive.Resolver { return directive.NewWatchableResolver[*bw.V](ctr) }
		} else {
			a.res = func() directive.Resolver {
				return directive.NewWatchableTransformResolver(ctr, func(ctx context.Context, v *bw.V) (string, bool, error) {
					s.mu.Lock()
					defer s.mu.Unlock()
					c.Ev("xfrm", "%v", v)
					if failN != 0 && v.N%5 == failN {
						ended = true
						return "", false, errSrc
					}
					return fmt.Sprintf("x%d", v.N), v.N%mod == 0, nil
				})
			}
		}
		a.op = func() {
			for n := 1 + c.Int(3); n > 0; n-- {
				if c.P(25) {
					ctr.SetValue(nil)
				} else {
					ctr.SetValue(&bw.V{N: s.w.Num()})
				}
				c.Ev("set", "%v", ctr.GetValue())
				if c.P(40) {
					c.Wait()
				}
			}
		}
		a.restart = func() { s.mu.Lock(); ended = false; s.mu.Unlock() }
		a.want = func() ([]any, bool) {
			v := ctr.GetValue()
			if ended || v == nil || v.N%mod != 0 {
				return nil, true
			}
			if kind == "watchable" {
				return []any{v}, true
			}
			return []any{fmt.Sprintf("x%d", v.N)}, true
		}
		a.wantErr = func() error {
			s.mu.Lock()
			defer s.mu.Unlock()
			if ended {
				return errSrc
			}
			return nil
		}
	case "func":
		if c.P(20) {
			a.res = func() directive.Resolver { return directive.NewFuncResolver(nil) }
			a.want = func() ([]any, bool) { return nil, true }
			break
		}
		var e error
		if c.P(40) {
			e = errSrc
		}
		v := &bw.V{N: s.w.Num()}
		a.res = func() directive.Resolver {
			return directive.NewFuncResolver(func(ctx context.Context, rh directive.ResolverHandler) error {
				rh.AddValue(v)
				return e
			})
		}
		a.want = func() ([]any, bool) { return []any{v}, true }
		a.wantErr = func() error { return e }
	}
	return a
}

type ul struct {
	s, a func(...kv)
	r    func(...int)
	v    func(...kv)
}

func (u ul) set(v []kv)  { u.s(v...) }
func (u ul) app(v []kv)  { u.a(v...) }
func (u ul) rem(k []int) { u.r(k...) }
func (u ul) remv(v []kv) { u.v(v...) }

type um struct {
	s, a func(map[int]kv)
	r    func(...int)
}

func toMap(v []kv) map[int]kv {
	m := map[int]kv{}
	for _, x := range v {
		m[x.K] = x
	}
	return m
}
func (u um) set(v []kv)  { u.s(toMap(v)) }
func (u um) app(v []kv)  { u.a(toMap(v)) }
func (u um) rem(k []int) { u.r(k...) }
func (u um) remv(v []kv) {
	for _, x := range v {
		u.r(x.K)
	}
}

type scriptBo struct {
	next  func() time.Duration
	reset func()
}

func (b *scriptBo) NextBackOff() time.Duration { return b.next() }
func (b *scriptBo) Reset()                     { b.reset() }

func (s *st) view(single bool) directive.ReferenceHandler {
	return bus.NewCallbackHandler(func(av directive.AttachedValue) {
		if _, ok := av.GetValue().(*bw.O); ok {
			return
		}
		s.mu.Lock()
		defer s.mu.Unlock()
		s.recv[av.GetValueID()] = av.GetValue()
		s.c.Ev("value", "%v", av.GetValue())
		s.c.Check(!single || len(s.recv) <= 1, "two-values", "%s: %d values at once: %v", s.name, len(s.recv), s.recv)
	}, func(av directive.AttachedValue) {
		s.mu.Lock()
		defer s.mu.Unlock()
		delete(s.recv, av.GetValueID())
		s.c.Ev("gone", "%v", av.GetValue())
	}, nil)
}

func render(l []any) string {
	var out []string
	for _, v := range l {
		switch x := v.(type) {
		case *bw.V:
			out = append(out, x.String())
		default:
			out = append(out, fmt.Sprint(x))
		}
	}
	sort.Strings(out)
	return fmt.Sprint(out)
}

func settle(c *h.C) {
	c.Wait()
	time.Sleep(time.Minute)
	c.Wait()
}

// checkLeases: everything acquired and not shown was released exactly once.
func (s *st) checkLeases(when string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	shown := map[string]bool{}
	for _, v := range s.recv {
		shown[render([]any{v})] = true
	}
	for _, l := range s.leases {
		if !l.hasRel {
			continue
		}
		if shown[render([]any{l.v})] || shown[render([]any{fmt.Sprintf("x%d", l.v.N)})] {
			s.c.Check(l.rel == 0, "release-early", "%s: %v released although published (%s)", s.name, l.v, when)
		} else {
			s.c.Check(l.rel == 1, "release-missing", "%s: %v released %d times although it is not published (%s)", s.name, l.v, l.rel, when)
		}
	}
}

func run(c *h.C, capped bool) {
	w := bw.New(c)
	s := &st{c: c, w: w, rnd: c.NewRand(), recv: map[uint32]any{}, capped: capped}
	kind := kinds[c.Int(len(kinds))]
	a := build(c, s, kind)
	dir := &bw.D{Key: "k"}
	if capped {
		dir.Opts = directive.ValueOptions{MaxValueCount: 1 + c.Int(2), MaxValueHardCap: c.P(70)}
	}
	c.Ev("adapter", "%s cap=%v", kind, dir.Opts)
	var filler *bw.Src
	if capped {
		filler = w.NewSrc("k", 1)
	}
	res := a.res()
	relH, err := w.DC.AddHandler(bw.HFunc(func(ctx context.Context, di directive.Instance) ([]directive.Resolver, error) {
		return directive.Resolvers(res), nil
	}))
	c.Check(err == nil, "add-handler", "%v", err)
	var ref directive.Reference
	var inst directive.Instance
	start := func() {
		s.mu.Lock()
		s.recv = map[uint32]any{}
		if kind != "refcount" {
			// a ref-count may keep its value
			s.gets = 0
		}
		s.mu.Unlock()
		a.restart()
		inst, ref, err = w.B.AddDirective(dir, s.view(a.single))
		c.Check(err == nil, "add-directive", "%v", err)
	}
	start()
	for step := 0; step < 12 && !c.Failed(); step++ {
		settleStep := c.P(70)
		if settleStep {
			settle(c)
			s.mu.Lock()
			var got []any
			for _, v := range s.recv {
				got = append(got, v)
			}
			gated := s.gate != nil && s.inGet > 0
			s.mu.Unlock()
			if !capped {
				s.checkAcquired()
				want, ok := a.want()
				if ok {
					c.Check(render(got) == render(want), "published", "%s: published %s, want %s", kind, render(got), render(want))
				}
				werr := a.wantErr()
				errs := inst.GetResolverErrors()
				if werr == nil {
					c.Check(len(errs) == 0, "error", "%s: resolver errors %v, want none", kind, errs)
				} else {
					c.Check(len(errs) == 1 && errors.Is(errs[0], werr), "error", "%s: resolver errors %v, want %v", kind, errs, werr)
				}
			}
			for _, err := range inst.GetResolverErrors() {
				var filled *bw.ErrRes // the other source's own
				if capped && errors.As(err, &filled) {
					continue
				}
				c.Check(errors.Is(err, errSrc) || errors.Is(err, context.Canceled), "error", "%s: resolver failed with %v", kind, err)
			}
			// a ref-count resolver whose value was rejected keeps its reference until it ends
			if a.leased && !gated && !(capped && kind == "refcount") {
				s.checkLeases("settled")
			}
			c.Ev("settled", "")
		}
		switch x := c.Int(30); {
		case x == 0:
			// end and start again
			c.Ev("restart", "")
			if c.P(50) {
				inst.Close()
			}
			ref.Release()
			settle(c)
			s.mu.Lock()
			s.recv = map[uint32]any{}
			s.mu.Unlock()
			if a.leased && kind != "refcount" {
				s.checkLeases("ended")
			}
			if kind == "getter" || kind == "retry" || a.leased || kind == "ulist" || kind == "umap" {
				s.mu.Lock()
				s.fail = false
				s.mu.Unlock()
			}
			start()
			c.Wait()
		case x < 5 && capped:
			filler.RandomOp(0)
		default:
			if c.P(70) || kind == "ulist" || kind == "umap" {
				c.Wait()
			}
			a.op()
		}
	}
	// end while something may be in flight
	if c.P(50) {
		settle(c)
	}
	switch c.Int(3) {
	case 0:
		relH()
	case 1:
		inst.Close()
	}
	ref.Release()
	settle(c)
	s.mu.Lock()
	s.recv = map[uint32]any{}
	s.mu.Unlock()
	if a.after != nil {
		a.after()
		settle(c)
	}
	if a.leased {
		s.checkLeases("ended")
	}
	relH()
	if filler != nil {
		filler.Release()
	}
	c.Wait()
	c.Check(w.Live() == 0, "leak-ref", "%d directives live at the end", w.Live())
	w.Cancel()
	c.Wait()
}

func TestCheck(t *testing.T) {
	h.Run(t, []h.Scenario{
		{Name: "plain", Quick: 20000, Thorough: 400000, Fn: func(c *h.C) { run(c, false) }},
		{Name: "capped", Quick: 10000, Thorough: 200000, Fn: func(c *h.C) { run(c, true) }},
	})
}
