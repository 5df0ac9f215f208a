// Package forward checks pass-through, transforming and bridging resolvers (C13).
package forward

import (
	"context"
	"errors"
	"fmt"
	"runtime"
	"sort"
	"sync"
	"testing"
	"time"

	"github.com/aperturerobotics/controllerbus/bus"
	bus_bridge "github.com/aperturerobotics/controllerbus/bus/bridge"
	"github.com/aperturerobotics/controllerbus/directive"

	"verifharness/bw"
	"verifharness/h"
)

var errXfrm = errors.New("transform error")

// call is one call of the transform.
type call struct {
	id     uint32
	v      any
	kept   bool // returned ok
	hasRel bool
	rel    int
}

// fwd is a forwarding under observation.
type fwd struct {
	c    *h.C
	kind string
	mu   sync.Mutex

	calls    []*call
	errOn    int // N%7 == errOn fails the transform
	mod      int
	nilXfrm  bool
	disposed int
	rnd      *h.LockedRand

	// view of the receiving directive
	recv     map[uint32]any
	everSeen map[uint32]bool
	xerr     bool
}

var kinds = []string{"passthru", "xhandler", "xresolver", "typed", "bridge-resolver", "bridge"}

// mapped is what the receiving directive must show for a source value.
func (f *fwd) mapped(v any) (any, bool) {
	switch f.kind {
	case "passthru", "bridge-resolver", "bridge":
		return v, true
	}
	x, isV := v.(*bw.V)
	if f.nilXfrm {
		if f.kind == "xresolver" {
			return v, isV
		}
		return v, true
	}
	if !isV {
		if f.kind == "typed" {
			return v, true // passed to the handler of unknown types
		}
		return nil, false
	}
	if x.N%f.mod != 0 {
		return nil, false
	}
	return fmt.Sprintf("x%d", x.N), true
}

func (f *fwd) fails(v any) bool {
	x, ok := v.(*bw.V)
	return ok && !f.nilXfrm && f.errOn != 0 && x.N%7 == f.errOn && (f.kind == "xresolver" || f.kind == "typed")
}

// xfrm is the transform.
func (f *fwd) xfrm(id uint32, v any) (any, func(), bool, error) {
	f.mu.Lock()
	defer f.mu.Unlock()
	k := &call{id: id, v: v, hasRel: f.rnd.Int(4) != 0}
	for _, o := range f.calls {
		f.c.Check(o.id != id, "transform-twice", "%s: source value id %d transformed twice", f.kind, id)
	}
	f.calls = append(f.calls, k)
	var rel func()
	if k.hasRel {
		rel = func() {
			f.mu.Lock()
			k.rel++
			n := k.rel
			f.mu.Unlock()
			f.c.Ev("released", "%d", id)
			f.c.Check(n == 1, "release-twice", "%s: release function of id %d called %d times", f.kind, id, n)
		}
	}
	if f.fails(v) {
		f.xerr = true
		f.c.Ev("xfrm-error", "%d", id)
		return nil, rel, false, errXfrm
	}
	out, ok := f.mapped(v)
	k.kept = ok
	f.c.Ev("xfrm", "%d ok=%v", id, ok)
	return out, rel, ok, nil
}

func (f *fwd) resolver(b bus.Bus, dir directive.Directive) directive.Resolver {
	switch f.kind {
	case "passthru", "xhandler":
		return directive.NewFuncResolver(func(ctx context.Context, rh directive.ResolverHandler) error {
			ctx, cancel := context.WithCancel(ctx)
			defer cancel()
			dcb := func() {
				f.mu.Lock()
				f.disposed++
				n := f.disposed
				f.mu.Unlock()
				f.c.Check(n == 1, "dispose-twice", "%s: dispose callback called %d times", f.kind, n)
				cancel()
			}
			var hd directive.ReferenceHandler
			if f.kind == "passthru" {
				hd = bus.NewPassThruHandler(rh, dcb)
			} else if f.nilXfrm {
				hd = bus.NewTransformHandler(rh, nil, dcb)
			} else {
				hd = bus.NewTransformHandler(rh, func(av directive.AttachedValue) (directive.Value, bool) {
					out, rel, ok, _ := f.xfrm(av.GetValueID(), av.GetValue())
					if rel != nil {
						rel()
					}
					return out, ok
				}, dcb)
			}
			_, ref, err := b.AddDirective(dir, hd)
			if err != nil {
				return err
			}
			defer ref.Release()
			<-ctx.Done()
			return nil
		})
	case "xresolver":
		if f.nilXfrm {
			return directive.NewTransformResolver[*bw.V](b, dir, nil)
		}
		return directive.NewTransformResolver(b, dir, func(ctx context.Context, av directive.AttachedValue) (string, func(), bool, error) {
			out, rel, ok, err := f.xfrm(av.GetValueID(), av.GetValue())
			s, _ := out.(string)
			return s, rel, ok, err
		})
	case "typed":
		return directive.NewFuncResolver(func(ctx context.Context, rh directive.ResolverHandler) error {
			r := directive.NewTypedTransformResolver(b, dir, func(ctx context.Context, av directive.TypedAttachedValue[*bw.V]) (string, func(), bool, error) {
				out, rel, ok, err := f.xfrm(av.GetValueID(), av.GetValue())
				s, _ := out.(string)
				return s, rel, ok, err
			}, bus.NewPassThruHandler(rh, nil))
			return r.Resolve(ctx, rh)
		})
	case "bridge-resolver":
		return bus_bridge.NewBusBridgeResolver(b, dir)
	}
	return nil
}

// view receives the values of the receiving directive.
func (f *fwd) view() directive.ReferenceHandler {
	return bus.NewCallbackHandler(func(av directive.AttachedValue) {
		f.mu.Lock()
		defer f.mu.Unlock()
		f.recv[av.GetValueID()] = av.GetValue()
		f.c.Ev("recv", "%d", av.GetValueID())
		f.c.Check(!f.everSeen[av.GetValueID()], "recv-twice", "id %d added twice", av.GetValueID())
		f.everSeen[av.GetValueID()] = true
	}, func(av directive.AttachedValue) {
		f.mu.Lock()
		defer f.mu.Unlock()
		f.c.Ev("gone", "%d", av.GetValueID())
		delete(f.recv, av.GetValueID())
	}, nil)
}

func keys(l []any) []string {
	var out []string
	for _, v := range l {
		switch x := v.(type) {
		case *bw.V:
			out = append(out, fmt.Sprintf("v%d", x.N))
		case *bw.O:
			out = append(out, fmt.Sprintf("o%d", x.N))
		default:
			out = append(out, fmt.Sprint(x))
		}
	}
	sort.Strings(out)
	return out
}

// setup builds a forwarding.
type setup struct {
	f        *fwd
	wa, wb   *bw.W
	src      *bw.Src
	recvRef  directive.Reference
	recvInst directive.Instance
	relH     func()
	srcDir   *bw.D
}

func build(c *h.C, cap int) *setup {
	s := &setup{}
	s.wb = bw.New(c)
	s.wa = s.wb
	f := &fwd{c: c, kind: kinds[c.Int(len(kinds))], mod: 1 + c.Int(2), nilXfrm: c.P(20), recv: map[uint32]any{}, everSeen: map[uint32]bool{}, rnd: c.NewRand()}
	if f.kind == "typed" {
		f.nilXfrm = false
	}
	if f.kind == "bridge" || c.P(40) {
		s.wa = bw.New(c)
	}
	if cap == 0 && c.P(40) {
		f.errOn = 1 + c.Int(6)
	}
	s.f = f
	s.src = s.wb.NewSrc("src", 1+c.Int(2))
	s.srcDir = &bw.D{Key: "src"}
	recvDir := &bw.D{Key: "recv"}
	if cap != 0 {
		recvDir.Opts = directive.ValueOptions{MaxValueCount: cap, MaxValueHardCap: true}
	}
	c.Ev("setup", "%s cap=%d nil=%v err=%d", f.kind, cap, f.nilXfrm, f.errOn)
	var hd directive.Handler
	if f.kind == "bridge" {
		recvDir.Key = "src"
		hd = bus_bridge.NewBusBridge(s.wb.B, func(di directive.Instance) (bool, error) {
			d, ok := di.GetDirective().(*bw.D)
			if !ok {
				return false, nil
			}
			if d.Key == "err" {
				return true, errors.New("filter error")
			}
			return d.Key == "src", nil
		})
		for _, k := range []string{"other", "err"} {
			_, ref, _ := s.wa.B.AddDirective(&bw.D{Key: k}, nil)
			defer ref.Release()
		}
	} else {
		hd = bw.HFunc(func(ctx context.Context, di directive.Instance) ([]directive.Resolver, error) {
			if d, ok := di.GetDirective().(*bw.D); ok && d.Key == "recv" {
				return directive.Resolvers(f.resolver(s.wb.B, s.srcDir)), nil
			}
			return nil, nil
		})
	}
	var err error
	s.relH, err = s.wa.DC.AddHandler(hd)
	c.Check(err == nil, "add-handler", "%v", err)
	s.recvInst, s.recvRef, err = s.wa.B.AddDirective(recvDir, f.view())
	c.Check(err == nil, "add-directive", "%v", err)
	c.Wait()
	if f.kind == "bridge" {
		for _, di := range s.wb.B.GetDirectives() {
			k := di.GetDirective().(*bw.D).Key
			c.Check(k == "src", "forwarded-declined", "bridge: directive %q forwarded although the filter declines it or fails", k)
		}
	}
	return s
}

// end releases everything and checks that nothing is left.
func (s *setup) end(c *h.C, held directive.Reference) {
	f := s.f
	switch c.Int(3) {
	case 0:
		s.relH()
	case 1:
		s.recvInst.Close()
	}
	s.recvRef.Release()
	s.relH()
	c.Wait()
	want := 0
	if held != nil && s.src.Inst() != nil {
		want = 1
	}
	c.Check(s.wb.Live() == want, "leak-ref", "%s: %d directives live on the source bus after the forwarding ended, want %d", f.kind, s.wb.Live(), want)
	f.checkRel(nil, true)
	if held != nil {
		held.Release()
	}
	c.Wait()
	c.Check(s.wb.Live() == 0 && s.wa.Live() == 0, "leak-ref", "%s: directives live at the end", f.kind)
	s.src.Release()
	s.wa.Cancel()
	s.wb.Cancel()
	c.Wait()
}

// checkRel checks the release functions of the transform calls.
func (f *fwd) checkRel(shown map[uint32]bool, ended bool) {
	if f.kind == "xhandler" {
		return
	}
	f.mu.Lock()
	defer f.mu.Unlock()
	for _, k := range f.calls {
		if !k.hasRel {
			continue
		}
		if !ended && shown[k.id] {
			f.c.Check(k.rel == 0, "release-early", "%s: id %d released although forwarded", f.kind, k.id)
		} else {
			f.c.Check(k.rel == 1, "release-missing", "%s: id %d (kept=%v) released %d times although it is not forwarded", f.kind, k.id, k.kept, k.rel)
		}
	}
}

// exact compares with the model after each settled step.
func exact(c *h.C) {
	max := 0
	if c.P(30) {
		max = 1 + c.Int(3)
	}
	s := build(c, max)
	f := s.f
	_, held, _ := s.wb.B.AddDirective(s.srcDir, nil)
	c.Wait()
	var order []uint32 // forwarded source ids
	fw := map[uint32]any{}
	ended := false
	prev := map[uint32]any{}
	for step := 0; step < 20 && !c.Failed(); step++ {
		srcClosed := false
		switch x := c.Int(40); {
		case x == 0:
			if i := s.src.Inst(); i != nil {
				srcClosed = true
				c.Ev("close-source", "")
				i.Close()
			}
		case x == 1 && s.src.Inst() != nil && max == 0:
			// re-create the forwarding
			c.Ev("restart", "")
			s.recvRef.Release()
			c.Wait()
			f.checkRel(nil, true)
			f.mu.Lock()
			f.calls, f.recv, f.everSeen, f.xerr, f.disposed = nil, map[uint32]any{}, map[uint32]bool{}, false, 0
			f.mu.Unlock()
			fw, order, prev = map[uint32]any{}, nil, map[uint32]any{}
			d := s.recvInst.GetDirective()
			s.src.TellNow()
			s.recvInst, s.recvRef, _ = s.wa.B.AddDirective(d, f.view())
		default:
			s.src.RandomOp(70)
		}
		c.Wait()
		att := s.src.Attached()
		// model
		for id := range prev {
			if _, ok := att[id]; !ok {
				delete(fw, id)
			}
		}
		for _, id := range bw.IDs(att) {
			if _, ok := prev[id]; ok {
				continue
			}
			if ended {
				break
			}
			if f.fails(att[id]) {
				ended = true
				break
			}
			out, ok := f.mapped(att[id])
			if ok && (max == 0 || len(fw) < max) {
				fw[id] = out
				order = append(order, id)
			}
		}
		prev = att
		if (f.kind == "xresolver" || f.kind == "typed") && len(s.src.Told()) != 0 {
			ended = true // the resolver ends with the error of the source
		}
		if srcClosed {
			ended = true
			if f.kind == "passthru" || f.kind == "xhandler" {
				f.mu.Lock()
				n := f.disposed
				f.mu.Unlock()
				c.Check(n == 1, "dispose-cb", "%s: dispose callback called %d times although the source was disposed", f.kind, n)
			}
		}
		var want []any
		shown := map[uint32]bool{}
		if !ended {
			for id, v := range fw {
				want = append(want, v)
				shown[id] = true
			}
		}
		f.mu.Lock()
		var got []any
		for _, v := range f.recv {
			got = append(got, v)
		}
		f.mu.Unlock()
		c.Check(fmt.Sprint(keys(want)) == fmt.Sprint(keys(got)), "mirror", "%s (cap %d, ended=%v): receiving directive shows %v, want %v for source %v", f.kind, max, ended, keys(got), keys(want), att)
		f.checkRel(shown, ended)
		if ended {
			wantLive := 0
			if held != nil && !srcClosed {
				wantLive = 1
			}
			if s.wa != s.wb {
				c.Check(s.wb.Live() == wantLive, "leak-ref", "%s: %d directives live on the source bus, want %d", f.kind, s.wb.Live(), wantLive)
			}
			break
		}
		if c.P(5) && held != nil {
			held.Release()
			held = nil
			c.Wait()
			live := 1
			if s.wa == s.wb {
				live = 2
			}
			c.Check(s.wb.Live() == live, "ref-lost", "%s: %d directives live on the source bus although forwarded", f.kind, s.wb.Live())
		}
	}
	s.end(c, held)
}

// race changes the source concurrently with starting and ending the forwarding.
func race(c *h.C) {
	s := build(c, 0)
	f := s.f
	_, held, _ := s.wb.B.AddDirective(s.srcDir, nil)
	c.Wait()
	s.src.Rnd = c.NewRand()
	rnd := c.NewRand()
	done := make(chan struct{})
	ops := 5 + c.Int(25)
	go func() {
		defer close(done)
		for k := 0; k < ops; k++ {
			s.src.RandomOp(80)
			if rnd.Int(3) == 0 {
				runtime.Gosched()
			}
			if rnd.Int(8) == 0 {
				time.Sleep(time.Millisecond)
			}
		}
	}()
	endEarly := c.P(60)
	if endEarly {
		for n := c.Int(40); n > 0; n-- {
			runtime.Gosched()
		}
		time.Sleep(time.Duration(c.Int(4)) * time.Millisecond)
		switch c.Int(4) {
		case 0:
			s.relH()
		case 1:
			s.recvInst.Close()
		case 2:
			s.recvRef.Release()
		default:
			if i := s.src.Inst(); i != nil {
				i.Close()
			}
		}
		<-done
		c.Wait()
		f.checkRel(nil, true)
	} else {
		<-done
		c.Wait()
		att := s.src.Attached()
		var want, got []any
		shown := map[uint32]bool{}
		f.mu.Lock()
		xerr := f.xerr
		f.mu.Unlock()
		if _, errs := s.src.IsIdle(); !(xerr || ((f.kind == "xresolver" || f.kind == "typed") && len(errs) > 0)) {
			for id, v := range att {
				if out, ok := f.mapped(v); ok {
					want = append(want, out)
					shown[id] = true
				}
			}
			f.mu.Lock()
			for _, v := range f.recv {
				got = append(got, v)
			}
			f.mu.Unlock()
			c.Check(fmt.Sprint(keys(want)) == fmt.Sprint(keys(got)), "mirror", "%s: receiving directive shows %v, want %v", f.kind, keys(got), keys(want))
			f.checkRel(shown, false)
		}
	}
	s.end(c, held)
}

// bridges checks chains and rings of bridges.
func bridges(c *h.C) {
	n := 1 + c.Int(3)
	ring := n == 1 || c.P(60)
	var ws []*bw.W
	for k := 0; k < n; k++ {
		ws = append(ws, bw.New(c))
	}
	var mu sync.Mutex
	var brs []*bus_bridge.BusBridge
	var rels []func()
	addBridge := func(k int) {
		rel, err := ws[k].B.AddController(ws[k].Ctx, brs[k], nil)
		c.Check(err == nil, "add-controller", "%v", err)
		rels[k] = rel
	}
	for k := 0; k < n; k++ {
		var filter bus_bridge.FilterFn
		if c.P(50) {
			filter = func(di directive.Instance) (bool, error) { return true, nil }
		}
		var b *bus_bridge.BusBridge
		if c.P(30) {
			b = bus_bridge.NewBusBridge(nil, filter)
			b.SetDirectiveBridgeTarget(ws[(k+1)%n].B)
		} else {
			b = bus_bridge.NewBusBridge(ws[(k+1)%n].B, filter)
		}
		brs = append(brs, b)
		rels = append(rels, nil)
	}
	last := n
	if !ring {
		last = n - 1
	}
	for k := 0; k < last; k++ {
		addBridge(k)
	}
	c.Wait()
	// directives which are never equivalent: each forwarding is its own instance
	// (in a ring, equivalent ones would join the instance they came from)
	noEq := ring || c.P(50)
	type item struct {
		d    *bw.D
		refs []directive.Reference
	}
	var items []*item
	check := func() {
		for k, w := range ws {
			live := map[directive.Directive]int{}
			for _, di := range w.DC.GetDirectives() {
				live[di.GetDirective()]++
			}
			for i, it := range items {
				want := 0
				if len(it.refs) > 0 {
					want = 1
					if k == 0 && ring {
						want = 2 // the one added, and the one which came around once
					}
				}
				got := live[it.d]
				c.Check(got == want, "bridge-forward", "directive %d (refs %d) has %d instances on bus %d of %d (ring=%v), want %d", i, len(it.refs), got, k, n, ring, want)
			}
		}
	}
	for step := 0; step < 12 && !c.Failed(); step++ {
		switch x := c.Int(8); {
		case x < 3 || len(items) == 0:
			it := &item{d: &bw.D{Key: fmt.Sprintf("b%d", step), NoEq: noEq}}
			items = append(items, it)
			_, ref, err := ws[0].B.AddDirective(it.d, nil)
			c.Check(err == nil, "add-directive", "%v", err)
			it.refs = append(it.refs, ref)
		case x < 5:
			it := items[c.Int(len(items))]
			if len(it.refs) > 0 {
				it.refs[0].Release()
				it.refs = nil
			}
		case x < 7:
			// end it and add the same object again at once
			it := items[c.Int(len(items))]
			if len(it.refs) > 0 {
				it.refs[0].Release()
				it.refs = nil
				// a second live instance of the same object is not forwarded (it may have come around)
				if noEq || c.P(30) {
					c.Wait()
				}
			} else if noEq {
				c.Wait()
			}
			_, ref, err := ws[0].B.AddDirective(it.d, nil)
			c.Check(err == nil, "add-directive", "%v", err)
			it.refs = append(it.refs, ref)
		default:
			// remove a bridge and add it again
			if last == 0 {
				break
			}
			k := c.Int(last)
			c.Ev("bridge-readd", "%d", k)
			rels[k]()
			c.Wait()
			addBridge(k)
		}
		c.Wait()
		mu.Lock()
		check()
		mu.Unlock()
		c.Ev("ring", "n=%d items=%d", n, len(items))
	}
	for _, it := range items {
		for _, r := range it.refs {
			r.Release()
		}
		it.refs = nil
	}
	c.Wait()
	check()
	for k, r := range rels {
		if r != nil {
			r()
		}
		ws[k].Cancel()
	}
	c.Wait()
}

func TestCheck(t *testing.T) {
	h.Run(t, []h.Scenario{
		{Name: "exact", Quick: 14000, Thorough: 300000, Fn: exact},
		{Name: "race", Quick: 10000, Thorough: 240000, Fn: race},
		{Name: "bridges", Quick: 4000, Thorough: 60000, Fn: bridges},
	})
}
