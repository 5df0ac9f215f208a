package eng

import (
	"context"
	"fmt"
	"time"

	"github.com/aperturerobotics/controllerbus/directive"
)

// mwCb is a callback which may be released while the instance is being removed.
type mwCb struct {
	name  string
	kind  string // "dispose", "value", "resolver", "ref"
	res   int
	told  int
	rel   func()
	relAt string // "" if not released: where it was released otherwise
}

// RunMidway removes resolvers (removeHandler) or the whole instance while callbacks release other
// callbacks: those are not told any more once the release returned, all others are told once.
//
// A callback which belongs to the same step (the values of one resolver, the removal callbacks of
// one resolver, the disposal) as the running one may be told nevertheless.
func RunMidway(w *World, removeHandler bool) {
	c := w.C
	type mres struct {
		hnd   int
		begun bool // told of the removal of a value or the resolver
		gone  bool
		vals  []uint32
	}
	var cbs []*mwCb
	var ress []*mres
	byVal := map[uint32]int{}
	cur := "" // the running callback
	removing := false
	nrel := 0
	pct := 5 + c.Int(25)
	within := func(cb *mwCb, what string, fn func()) {
		w.Check(cur == "", "serial", "%s is called while %s runs", what, cur)
		cur = what
		fn()
		cur = ""
	}
	// release releases callbacks while one of the resolver res (-1: none) runs; own is the kind.
	release := func(res int, own string) {
		if !removing {
			return
		}
		for _, x := range w.R.Perm(len(cbs)) {
			cb := cbs[x]
			if cb.relAt != "" || cb.told != 0 || cb.rel == nil || w.R.Int(100) >= pct {
				continue
			}
			switch cb.kind {
			case "dispose", "ref":
				if own == "dispose" {
					continue
				}
			case "resolver":
				if own == "dispose" || (own == "resolver" && cb.res == res) {
					continue
				}
			case "value":
				if own == "dispose" || cb.res == res || ress[cb.res].begun {
					continue
				}
			}
			nrel++
			cb.rel()
			cb.relAt = cur
			c.Ev("midway-release", "%s during %s", cb.name, cur)
		}
	}
	newCb := func(kind string, res int) (*mwCb, func()) {
		cb := &mwCb{name: fmt.Sprintf("%s%d(s%d)", kind, len(cbs), res), kind: kind, res: res}
		cbs = append(cbs, cb)
		return cb, func() {
			within(cb, cb.name, func() {
				cb.told++
				c.Ev("midway-cb", "%s", cb.name)
				w.Check(cb.relAt == "", "released-told", "%s is called although it was released before, in %s", cb.name, cb.relAt)
				w.Check(cb.told == 1, "cb-twice", "%s is called %d times", cb.name, cb.told)
				if kind != "dispose" {
					ress[res].begun = true
				}
				release(res, kind)
			})
		}
	}
	nh := 1
	if removeHandler {
		nh = 2
	}
	var rels []func()
	for hi := 0; hi < nh; hi++ {
		n := 1 + c.Int(3)
		base := len(ress)
		for k := 0; k < n; k++ {
			ress = append(ress, &mres{hnd: hi})
		}
		rel, err := w.DC.AddHandler(HndFunc(func(ctx context.Context, di directive.Instance) ([]directive.Resolver, error) {
			if di.GetDirective().(baser).base().Class != "k" {
				return nil, nil
			}
			var l []directive.Resolver
			for k := 0; k < n; k++ {
				ri := base + k
				l = append(l, directive.NewFuncResolver(func(ctx context.Context, rh directive.ResolverHandler) error {
					w.mu.Lock()
					r := ress[ri]
					for j := w.R.Int(4); j > 0; j-- {
						id, ok := rh.AddValue(&Val{N: ri*10 + j})
						if !ok {
							continue
						}
						r.vals = append(r.vals, id)
						byVal[id] = ri
						for q := w.R.Int(3); q > 0; q-- {
							cb, fn := newCb("value", ri)
							cb.rel = rh.AddValueRemovedCallback(id, fn)
						}
					}
					for q := w.R.Int(3); q > 0; q-- {
						cb, fn := newCb("resolver", ri)
						cb.rel = rh.AddResolverRemovedCallback(fn)
					}
					w.mu.Unlock()
					if ri%2 == 0 {
						return nil
					}
					<-ctx.Done()
					return ctx.Err()
				}))
			}
			return l, nil
		}))
		if !w.Check(err == nil, "add-handler", "AddHandler: %v", err) {
			return
		}
		rels = append(rels, rel)
	}
	d := &SupDir{EqDir: EqDir{Dir{W: w, ID: 1, Class: "k"}}}
	trigger := c.Int(4)
	if trigger == 2 {
		d.Opts.UnrefDisposeDur = time.Second
	}
	di, ref, err := w.DC.AddDirective(d, nil)
	if !w.Check(err == nil && di != nil, "add-directive", "AddDirective: %v", err) {
		return
	}
	c.Wait()
	seen := map[int]map[uint32]bool{}
	for k := 1 + c.Int(4); k > 0; k-- {
		cb := &mwCb{name: fmt.Sprintf("ref%d", len(cbs)), kind: "ref"}
		ri := len(cbs)
		cbs = append(cbs, cb)
		seen[ri] = map[uint32]bool{}
		weak := removeHandler || trigger != 0 || k%2 == 0
		r := di.AddReference(&midRef{
			added: func(id uint32) { seen[ri][id] = true },
			removed: func(id uint32) {
				within(cb, "removed "+cb.name, func() {
					delete(seen[ri], id)
					ress[byVal[id]].begun = true
					release(byVal[id], "value")
				})
			},
			disposed: func() {
				within(cb, "disposed "+cb.name, func() {
					cb.told++
					w.Check(cb.relAt == "", "released-told", "%s is told of the disposal although it was released before, in %s", cb.name, cb.relAt)
					w.Check(cb.told == 1, "cb-twice", "%s is told %d times of the disposal", cb.name, cb.told)
					w.Check(len(seen[ri]) == 0, "disposed-before-removed", "%s is told of the disposal, not of the removal of %v", cb.name, seen[ri])
					release(-1, "dispose")
				})
			},
		}, weak)
		if !w.Check(r != nil, "nil-ref", "AddReference returned nil") {
			return
		}
		cb.rel = r.Release
	}
	for k := 1 + c.Int(4); k > 0; k-- {
		cb, fn := newCb("dispose", 0)
		cb.rel = di.AddDisposeCallback(fn)
	}
	c.Wait()
	for _, cb := range cbs {
		w.Check(cb.told == 0, "callback-early", "%s was called although nothing was removed", cb.name)
	}
	removing = true
	gone := func(res int) bool { return true }
	all := true
	var ref2 directive.Reference
	switch {
	case removeHandler:
		c.Ev("midway-trigger", "remove handler")
		all = false
		gone = func(res int) bool { return ress[res].hnd == 0 }
		rels[0]()
	case trigger == 0:
		c.Ev("midway-trigger", "close")
		di.Close()
	case trigger == 1, trigger == 2:
		c.Ev("midway-trigger", "release")
		ref.Release()
		time.Sleep(2 * time.Second)
	default:
		c.Ev("midway-trigger", "superseded")
		_, ref2, err = w.DC.AddDirective(&SupDir{EqDir: EqDir{Dir{W: w, ID: 2, Class: "k+x"}}, Ver: 1}, nil)
		w.Check(err == nil, "add-directive", "AddDirective: %v", err)
	}
	c.Wait()
	for _, cb := range cbs {
		want := all
		if cb.kind == "value" || cb.kind == "resolver" {
			want = gone(cb.res)
		}
		switch {
		case cb.relAt != "":
		case want:
			w.Check(cb.told == 1, "callback-once", "%s is gone, called %d times", cb.name, cb.told)
		default:
			w.Check(cb.told == 0, "callback-early", "%s is still there, called %d times", cb.name, cb.told)
		}
	}
	removing = false
	c.Ev("midway-released", "%d", nrel)
	if ref2 != nil {
		ref2.Release()
	}
	ref.Release()
	for _, cb := range cbs {
		if cb.kind == "ref" {
			cb.rel()
		}
	}
	for _, rel := range rels {
		rel()
	}
	w.Cancel()
	c.Wait()
}

type midRef struct {
	added, removed func(id uint32)
	disposed       func()
}

func (m *midRef) HandleValueAdded(_ directive.Instance, v directive.AttachedValue) {
	m.added(v.GetValueID())
}

func (m *midRef) HandleValueRemoved(_ directive.Instance, v directive.AttachedValue) {
	m.removed(v.GetValueID())
}

func (m *midRef) HandleInstanceDisposed(_ directive.Instance) { m.disposed() }
