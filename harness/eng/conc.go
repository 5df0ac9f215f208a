package eng

import (
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/aperturerobotics/controllerbus/directive"
)

// CProf is the profile of the concurrent driver.
type CProf struct {
	Clients, HndActors, Ops int
	Classes                 int
	Sup                     bool
	MaxVals                 bool
	Grace                   bool
	Reenter                 int // percent of hooks doing a re-entrant call
	DelayPct                int // percent of hooks sleeping
	Panics                  bool
	Closes                  bool
	Children                bool
	Linger                  bool
	Parallel                bool // real time: Gosched instead of virtual sleeps
	HndRemove               int  // percent
	InitHnd                 int
	NoExit                  bool
	NoCbs                   bool
	// Adds, Idles, ResOps are extra weights of adding directives, idle callbacks, resolver operations
	Adds, Idles, ResOps int
}

// cInst is what the concurrent driver knows about an instance.
type cInst struct {
	in       *Inst
	refs     []*Ref
	closed   bool
	maySup   bool
	d        *Dir
	disposed bool
}

// Conc is the concurrent driver.
type Conc struct {
	*World
	P   CProf
	cmu sync.Mutex

	budget  int
	refs    []*Ref
	hl      []*Hnd
	idles   []*IdleCb
	disp    []*Cb
	valCbs  map[*Cb]valCb
	resCbs  map[*Cb]*Res
	closed  map[*Inst]bool
	supAt   map[string]bool
	marked  map[*Exec]bool
	removed map[*Inst]map[uint32]bool
	accept  map[*Inst]map[uint32]*Exec
	kids    map[*Res]*kid
	nDir    int
	reent   int
	stop    atomic.Bool
	// inflight counts driver operations in progress
	inflight atomic.Int64
	// immediate: the callback was called by the registration call (allowed on stale executions)
	immediate map[*Cb]bool
}

type valCb struct {
	in *Inst
	id uint32
}

type kid struct {
	parent   *Res
	cb       *Cb
	rel      func()
	released bool
}

// NewConc builds the driver.
func NewConc(w *World, p CProf) *Conc {
	c := &Conc{World: w, P: p, budget: 60, valCbs: map[*Cb]valCb{}, resCbs: map[*Cb]*Res{}, closed: map[*Inst]bool{}, supAt: map[string]bool{}, marked: map[*Exec]bool{}, removed: map[*Inst]map[uint32]bool{}, accept: map[*Inst]map[uint32]*Exec{}, kids: map[*Res]*kid{}, immediate: map[*Cb]bool{}}
	w.Hook = c.hookFn
	return c
}

func (c *Conc) pause() {
	if c.P.Parallel {
		for k := c.R.Int(4); k > 0; k-- {
			runtime.Gosched()
		}
		return
	}
	switch c.R.Int(5) {
	case 0:
	case 1:
		runtime.Gosched()
	default:
		time.Sleep(time.Duration(1+c.R.Int(4)) * time.Millisecond)
	}
}

func (c *Conc) hookFn(site string, in *Inst) {
	if c.stop.Load() {
		return
	}
	if c.R.Int(100) < c.P.DelayPct {
		c.pause()
	}
	if c.R.Int(100) < c.P.Reenter {
		c.cmu.Lock()
		ok := c.budget > 0 && c.reent < 12
		if ok {
			c.budget--
			c.reent++
		}
		c.cmu.Unlock()
		if ok {
			c.C.Ev("reenter", "%s", site)
			c.randOp()
			c.cmu.Lock()
			c.reent--
			c.cmu.Unlock()
		}
	}
}

func pick[T any](c *Conc, l []T) (T, bool) {
	var z T
	if len(l) == 0 {
		return z, false
	}
	return l[c.R.Int(len(l))], true
}

func (c *Conc) addDir() {
	c.cmu.Lock()
	c.nDir++
	n := c.nDir
	c.cmu.Unlock()
	if n > 40 {
		return
	}
	d := Dir{W: c.World, ID: n, Class: fmt.Sprintf("k%d", c.R.Int(c.P.Classes))}
	if c.P.MaxVals {
		d.Opts.MaxValueCount = 1 + c.R.Int(3)
		d.Opts.MaxValueHardCap = c.R.Int(2) == 0
	}
	if c.P.Grace {
		d.Opts.UnrefDisposeDur = time.Duration(1+c.R.Int(6)) * time.Millisecond
		d.Opts.UnrefDisposeEmptyImmediate = c.R.Int(3) == 0
	}
	var dir directive.Directive
	switch k := c.R.Int(10); {
	case k == 0:
		d.Class = ""
		dir = &d
	case k < 6 && c.P.Sup:
		dir = &SupDir{EqDir: EqDir{Dir: d}, Ver: c.R.Int(5)}
	default:
		dir = &EqDir{Dir: d}
	}
	ref := c.NewRef(false)
	ref.Panics = c.P.Panics && c.R.Int(4) == 0
	dir.(baser).base().Born = c.clock.Add(1)
	dead := map[directive.Instance]bool{}
	c.mu.Lock()
	for _, o := range c.order {
		if o.I.GetContext().Err() != nil {
			dead[o.I] = true
		}
	}
	c.mu.Unlock()
	i, r, err := c.DC.AddDirective(dir, ref)
	c.Check(i == nil || !dead[i], "dedup", "AddDirective returned an instance disposed before the call")
	if !c.Check(err == nil && i != nil && r != nil, "add-directive", "AddDirective failed: %v", err) {
		return
	}
	in := c.inst(i)
	c.C.Ev("add-dir", "%v class=%s", in, d.Class)
	ob := in.Dir.(baser).base()
	c.Check(ob == dir.(baser).base() || Overlap(ob.Class, d.Class), "dedup", "class %q directive got instance of class %q", d.Class, ob.Class)
	live := in.I.GetContext().Err() == nil
	c.mu.Lock()
	ref.R = r
	ref.live = live
	other := ref.In
	if ref.In == nil {
		ref.In = in
		other = in
	}
	c.mu.Unlock()
	c.Check(other == in, "dedup", "AddDirective returned %v but values came from %v", in, other)
	c.cmu.Lock()
	c.refs = append(c.refs, ref)
	c.cmu.Unlock()
}

func (c *Conc) snapRefs() []*Ref {
	c.cmu.Lock()
	defer c.cmu.Unlock()
	return append([]*Ref(nil), c.refs...)
}

func (c *Conc) anyInst() (*Inst, bool) {
	r, ok := pick(c, c.snapRefs())
	if !ok {
		return nil, false
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	return r.In, r.In != nil
}

func (c *Conc) addRef() {
	in, ok := c.anyInst()
	if !ok {
		return
	}
	ref := c.NewRef(c.R.Int(3) == 0)
	ref.In = in
	ref.Panics = c.P.Panics && c.R.Int(4) == 0
	c.C.Ev("add-ref", "%v %v", in, ref)
	r := in.I.AddReference(ref, ref.Weak)
	c.Check(r != nil, "nil-ref", "AddReference returned nil")
	live := in.I.GetContext().Err() == nil
	c.mu.Lock()
	ref.R = r
	ref.live = live
	c.mu.Unlock()
	c.cmu.Lock()
	c.refs = append(c.refs, ref)
	c.cmu.Unlock()
}

func (c *Conc) relRef() {
	r, ok := pick(c, c.snapRefs())
	if !ok {
		return
	}
	c.C.Ev("rel-ref", "%v", r)
	r.Release()
}

func (c *Conc) closeOne() {
	in, ok := c.anyInst()
	if !ok {
		return
	}
	c.cmu.Lock()
	if c.R.Int(2) == 0 {
		c.closed[in] = true
		c.cmu.Unlock()
		c.C.Ev("close", "%v", in)
		in.I.Close()
		return
	}
	c.cmu.Unlock()
	c.C.Ev("close-if", "%v", in)
	if in.I.CloseIfUnreferenced(c.R.Int(2) == 0) {
		c.Check(in.I.GetContext().Err() != nil, "close-if", "CloseIfUnreferenced on %v returned true but its context is live", in)
	}
}

func (c *Conc) addHnd() {
	c.cmu.Lock()
	full := len(c.hl) >= 8
	c.cmu.Unlock()
	if full {
		return
	}
	hd := c.NewHnd(func(hd *Hnd, in *Inst) (int, error, bool) {
		switch k := (hd.ID*7 + in.ID*13) % 12; {
		case k == 0:
			return 0, ErrHandler, false
		case k == 1:
			return 0, nil, c.P.Panics
		case k < 4:
			return 0, nil, false
		default:
			return 1 + k%2, nil, false
		}
	})
	hd.Auto = c.script
	c.cmu.Lock()
	c.hl = append(c.hl, hd)
	c.cmu.Unlock()
	c.C.Ev("add-handler", "%v", hd)
	_ = hd.Add()
}

func (c *Conc) remHnd() {
	c.cmu.Lock()
	hd, ok := pick(c, c.hl)
	c.cmu.Unlock()
	if !ok {
		return
	}
	c.mu.Lock()
	act := hd.active
	c.mu.Unlock()
	if !act {
		return
	}
	c.C.Ev("rem-handler", "%v", hd)
	hd.Remove()
}

func (c *Conc) idleOp() {
	in, ok := c.anyInst()
	if !ok {
		return
	}
	c.cmu.Lock()
	if len(c.idles) > 12 {
		ic := c.idles[c.R.Int(len(c.idles))]
		c.cmu.Unlock()
		c.mu.Lock()
		r := ic.rel
		c.mu.Unlock()
		if r != nil {
			ic.Release()
		}
		return
	}
	c.cmu.Unlock()
	ic := c.NewIdle(in)
	c.cmu.Lock()
	c.idles = append(c.idles, ic)
	c.cmu.Unlock()
}

func (c *Conc) dispOp() {
	in, ok := c.anyInst()
	if !ok {
		return
	}
	c.cmu.Lock()
	var old *Cb
	if len(c.disp) > 3 && c.R.Int(2) == 0 {
		old = c.disp[c.R.Int(len(c.disp))]
	}
	c.cmu.Unlock()
	if old != nil {
		old.Release()
		return
	}
	cb := c.NewCb("dispose", in)
	cb.Panics = c.P.Panics && c.R.Int(4) == 0
	cb.Register(func(f func()) func() { return in.I.AddDisposeCallback(f) })
	c.cmu.Lock()
	c.disp = append(c.disp, cb)
	c.cmu.Unlock()
}

func (c *Conc) list() {
	seen := map[directive.Instance]bool{}
	classes := map[string]int{}
	for _, i := range c.DC.GetDirectives() {
		c.Check(i != nil && !seen[i], "listing", "nil or duplicate instance in the list")
		seen[i] = true
		for _, err := range i.GetResolverErrors() {
			c.Check(err != nil, "errors", "nil error in the list of resolver errors")
		}
		c.Check(i.GetContext() != nil && i.GetDirectiveIdent() != "", "listing", "instance without context or ident")
		if _, eq := i.GetDirective().(directive.DirectiveWithEquiv); eq {
			classes[i.GetDirective().(baser).base().Class]++
		}
	}
	for k, n := range classes {
		c.Check(n < 2, "dedup", "%d live instances of class %q", n, k)
	}
}

func (c *Conc) randOp() {
	c.inflight.Add(1)
	defer c.inflight.Add(-1)
	if x := c.P.Adds + c.P.Idles + c.P.ResOps; x != 0 {
		if k := c.R.Int(x + 80); k < c.P.Adds {
			c.addDir()
			return
		} else if k -= c.P.Adds; k < c.P.Idles {
			c.idleOp()
			return
		} else if k -= c.P.Idles; k < c.P.ResOps {
			c.resOp()
			return
		}
	}
	switch k := c.R.Int(20); {
	case k < 4:
		c.addDir()
	case k < 7:
		c.addRef()
	case k < 11:
		c.relRef()
	case k < 12:
		if c.P.Closes {
			c.closeOne()
		}
	case k < 14:
		c.idleOp()
	case k < 15:
		c.dispOp()
	case k < 16:
		c.list()
	case k < 18:
		if c.R.Int(100) < c.P.HndRemove {
			c.remHnd()
		} else {
			c.addHnd()
		}
	default:
		c.resOp()
	}
}

// resOp performs a resolver operation from a foreign goroutine.
func (c *Conc) resOp() {
	c.mu.Lock()
	var es []*Exec
	for _, r := range c.resAll {
		if len(r.execs) > 0 {
			es = append(es, r.execs[len(r.execs)-1])
		}
	}
	c.mu.Unlock()
	e, ok := pick(c, es)
	if ok {
		c.execOp(e)
	}
}

func (c *Conc) execOp(e *Exec) {
	c.inflight.Add(1)
	defer c.inflight.Add(-1)
	in := e.Res.In
	switch k := c.R.Int(14); {
	case k < 6:
		was := e.Ctx.Err() != nil
		_, id, ok := e.Add()
		c.Check(!(ok && was), "stale-add", "AddValue accepted on %v after its context was cancelled", e.Res)
		if ok {
			c.cmu.Lock()
			if c.accept[in] == nil {
				c.accept[in] = map[uint32]*Exec{}
			}
			c.accept[in][id] = e
			c.cmu.Unlock()
			if !c.P.NoCbs && c.R.Int(3) == 0 {
				cb := c.NewCb("value", in)
				cb.Panics = c.P.Panics && c.R.Int(4) == 0
				cb.Register(func(f func()) func() { return e.RH.AddValueRemovedCallback(id, f) })
				c.noteImm(cb, e)
				c.cmu.Lock()
				c.valCbs[cb] = valCb{in, id}
				c.cmu.Unlock()
			}
		}
	case k < 9:
		c.mu.Lock()
		id := uint32(0)
		if len(e.vals) > 0 {
			id = e.vals[c.R.Int(len(e.vals))]
		}
		c.mu.Unlock()
		if id == 0 {
			return
		}
		v, found := e.RH.RemoveValue(id)
		if found {
			c.C.Ev("rem-value", "%v %d", e.Res, id)
			c.mu.Lock()
			want := in.valOf[id]
			c.mu.Unlock()
			c.Check(v == want, "remove-found", "RemoveValue(%d) returned %v, accepted %v", id, v, want)
			c.noteRemoved(in, id)
		}
	case k < 10:
		ids := e.RH.ClearValues()
		for _, id := range ids {
			c.noteRemoved(in, id)
		}
	case k < 11 && !c.P.NoCbs:
		cb := c.NewCb("resolver", in)
		cb.Register(func(f func()) func() { return e.RH.AddResolverRemovedCallback(f) })
		c.noteImm(cb, e)
		c.cmu.Lock()
		c.resCbs[cb] = e.Res
		c.cmu.Unlock()
	case k < 12:
		// release some callback
		c.cmu.Lock()
		var cbs []*Cb
		for cb := range c.valCbs {
			cbs = append(cbs, cb)
		}
		c.cmu.Unlock()
		if cb, ok := pick(c, cbs); ok {
			cb.Release()
		}
	case k < 13 && c.P.Children:
		c.cmu.Lock()
		n := len(c.kids)
		c.cmu.Unlock()
		if n > 12 {
			c.cmu.Lock()
			var ks []*kid
			for _, kd := range c.kids {
				ks = append(ks, kd)
			}
			c.cmu.Unlock()
			if kd, ok := pick(c, ks); ok && kd.rel != nil {
				kd.rel()
				c.cmu.Lock()
				kd.released = true
				c.cmu.Unlock()
			}
			return
		}
		sub := c.NewRes(e.Res.Hnd, in, c.script)
		cb := c.NewCb("child", in)
		kd := &kid{parent: e.Res, cb: cb}
		c.C.Ev("add-child", "%v child %v %v", e.Res, sub, cb)
		var rel func()
		cb.Register(func(f func()) func() { rel = e.RH.AddResolver(sub, f); return rel })
		c.cmu.Lock()
		kd.rel = rel
		c.kids[sub] = kd
		c.cmu.Unlock()
	default:
		n := e.RH.CountValues(false)
		c.Check(n >= 0, "count", "negative count")
	}
}

// noteImm: a callback registered through an execution the bus already stopped is called at once.
func (c *Conc) noteImm(cb *Cb, e *Exec) {
	if cb.Calls() != 0 && e.Ctx.Err() != nil {
		c.cmu.Lock()
		c.immediate[cb] = true
		c.cmu.Unlock()
	}
}

func (c *Conc) noteRemoved(in *Inst, id uint32) {
	c.cmu.Lock()
	if c.removed[in] == nil {
		c.removed[in] = map[uint32]bool{}
	}
	dup := c.removed[in][id]
	c.removed[in][id] = true
	c.cmu.Unlock()
	c.Check(!dup, "remove-twice", "value %d on %v removed twice", id, in)
}

// script is the body of the resolvers.
func (c *Conc) script(e *Exec) error {
	n := c.R.Int(7)
	for k := 0; k < n; k++ {
		if e.Ctx.Err() != nil {
			break
		}
		c.pause()
		if c.R.Int(5) == 0 {
			idle := c.R.Int(2) == 0
			e.RH.MarkIdle(idle)
			c.cmu.Lock()
			c.marked[e] = idle
			c.cmu.Unlock()
			continue
		}
		c.execOp(e)
	}
	if !c.P.NoExit {
		switch c.R.Int(5) {
		case 0:
			return nil
		case 1:
			return &ErrScripted{N: e.N}
		}
	}
	<-e.Ctx.Done()
	if c.P.Linger && c.R.Int(2) == 0 {
		c.pause()
		c.pause()
	}
	return e.Ctx.Err()
}

// Run runs the actors, checks the settled state and tears down.
func (c *Conc) Run() {
	for k := 0; k < c.P.InitHnd; k++ {
		c.addHnd()
	}
	var wg sync.WaitGroup
	actor := func(fn func()) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < c.P.Ops; k++ {
				c.pause()
				if c.C.Failed() {
					return
				}
				fn()
			}
		}()
	}
	for k := 0; k < c.P.Clients; k++ {
		actor(c.randOp)
	}
	for k := 0; k < c.P.HndActors; k++ {
		actor(func() {
			if c.R.Int(100) < c.P.HndRemove {
				c.remHnd()
			} else {
				c.addHnd()
			}
		})
	}
	wg.Wait()
	c.stop.Store(true)
	if !c.P.Parallel {
		time.Sleep(time.Second)
		c.C.Wait()
		if !c.C.Failed() {
			c.Settled()
		}
	}
	c.Teardown()
}

// Settled checks the quiescent state.
func (c *Conc) Settled() {
	c.list()
	live := map[directive.Instance]bool{}
	for _, i := range c.DC.GetDirectives() {
		live[i] = true
	}
	c.mu.Lock()
	order := append([]*Inst(nil), c.order...)
	refs := append([]*Ref(nil), c.refAll...)
	ress := append([]*Res(nil), c.resAll...)
	hnds := append([]*Hnd(nil), c.hnds...)
	c.mu.Unlock()
	c.C.Ev("settled", "live=%d", len(live))
	for _, in := range order {
		alive := live[in.I]
		ctxLive := in.I.GetContext().Err() == nil
		c.Check(alive == ctxLive, "listing", "%v listed=%v, context live=%v", in, alive, ctxLive)
		strong, weak := 0, 0
		for _, r := range refs {
			if r.In != in || r.R == nil {
				continue
			}
			if !r.released {
				if r.Weak {
					weak++
				} else if alive || r.live {
					strong++
				}
				if alive {
					c.Check(r.disposed == 0, "disposed-live", "held %v on live %v told of disposal", r, in)
				} else {
					c.Check(r.disposed == 1, "dispose-once", "held %v on disposed %v told %d times", r, in, r.disposed)
					c.Check(len(r.view) == 0, "dispose-removed", "%v on disposed %v still holds %v", r, in, keys(r.view))
				}
			}
		}
		if alive {
			c.Check(strong > 0, "lifetime", "%v is live without strong references (%d weak)", in, weak)
		} else if !c.closed[in] && !c.P.Sup {
			c.Check(strong == 0, "lifetime", "%v was disposed while %d strong references are held", in, strong)
		}
		if !alive {
			continue
		}
		// values
		exp := map[uint32]bool{}
		for id, e := range c.accept[in] {
			if !c.removed[in][id] && !c.resGone(e.Res) {
				exp[id] = true
			}
		}
		for _, r := range refs {
			if r.In != in || r.R == nil || r.released {
				continue
			}
			bad := len(r.view) != len(exp)
			for id := range exp {
				if _, ok := r.view[id]; !ok {
					bad = true
				}
			}
			c.Check(!bad, "view", "%v on %v was told of %v, attached are %v", r, in, keys(r.view), keysB(exp))
		}
		if max := in.Dir.GetValueOptions(); max.MaxValueCount != 0 && max.MaxValueHardCap {
			c.Check(len(exp) <= max.MaxValueCount, "hard-cap", "%d values on %v, hard limit %d", len(exp), in, max.MaxValueCount)
		}
		// offers
		for _, hd := range hnds {
			if hd.active && !hd.removed {
				c.Check(in.offers[hd] == 1, "offers", "%v offered live %v %d times", hd, in, in.offers[hd])
			}
		}
		// idle
		max := in.Dir.GetValueOptions().MaxValueCount
		idle := true
		for _, r := range ress {
			if r.In != in || len(r.execs) == 0 || c.resGone(r) {
				continue
			}
			e := r.execs[len(r.execs)-1]
			if e.Ctx.Err() == nil && !e.done && !c.marked[e] {
				idle = false
			}
		}
		if max == 0 {
			for _, ic := range c.idles {
				if ic.In != in || ic.released {
					continue
				}
				n := len(ic.states)
				c.Check(n > 0 && ic.states[n-1] == idle, "idle-state", "idle callback on %v last told %v, true state idle=%v", in, ic.states, idle)
			}
		}
		// the limit
		if max != 0 {
			n := len(exp)
			for _, r := range ress {
				if r.In != in || c.resGone(r) || (c.kids[r] != nil && c.kids[r].cb.calls > 0) {
					continue
				}
				run := len(r.execs) != 0 && r.execs[len(r.execs)-1].Ctx.Err() == nil
				if n < max {
					c.Check(run, "refill", "%v on %v is not running (or returned) although only %d of %d values are attached", r, in, n, max)
				}
			}
		} else {
			for _, r := range ress {
				if r.In != in || c.resGone(r) || (c.kids[r] != nil && c.kids[r].cb.calls > 0) {
					continue
				}
				c.Check(len(r.execs) == 1 && r.execs[0].Ctx.Err() == nil, "res-running", "%v of %v on live %v: %d executions or cancelled context", r, r.Hnd, in, len(r.execs))
			}
		}
	}
	for _, r := range ress {
		if !c.resGone(r) && live[r.In.I] {
			continue
		}
		for _, e := range r.execs {
			c.Check(e.Ctx.Err() != nil, "removed-running", "%v (handler %v) on %v was removed but has a live context", r, r.Hnd, r.In)
		}
		c.Check(r.running == 0, "removed-running", "%v on %v was removed but still executes", r, r.In)
	}
	for cb, vc := range c.valCbs {
		e := c.accept[vc.in][vc.id]
		gone := !live[vc.in.I] || c.removed[vc.in][vc.id] || c.resGone(e.Res)
		c.checkCb(cb, gone, fmt.Sprintf("value %d", vc.id))
	}
	for cb, r := range c.resCbs {
		c.checkCb(cb, !live[r.In.I] || c.resGone(r) || (c.kids[r] != nil && c.kids[r].cb.calls > 0), r.String())
	}
	for _, cb := range c.disp {
		c.checkCb(cb, !live[cb.In.I], "instance")
	}
	for r, kd := range c.kids {
		if !live[r.In.I] || c.resGone(r) {
			c.Check(kd.cb.calls == 1, "callback-once", "child %v on %v is gone, removed callback called %d times", r, r.In, kd.cb.calls)
		}
	}
}

func (c *Conc) checkCb(cb *Cb, gone bool, what string) {
	switch {
	case c.immediate[cb]:
	case !gone:
		c.Check(cb.calls == 0, "callback-early", "%v on %v called although %s is still there", cb, cb.In, what)
	case cb.released:
		c.Check(cb.calls <= 1, "callback-once", "%v called %d times", cb, cb.calls)
	default:
		c.Check(cb.calls == 1, "callback-once", "%v on %v: %s is gone, called %d times", cb, cb.In, what, cb.calls)
	}
}

// resGone: the resolver must have been removed.
func (c *Conc) resGone(r *Res) bool {
	if r.Hnd != nil && r.Hnd.removed {
		return true
	}
	if kd := c.kids[r]; kd != nil && kd.released {
		return true
	}
	return false
}

// releaseAll releases every reference and handler.
func (c *Conc) releaseAll() {
	c.mu.Lock()
	var refs []*Ref
	for _, r := range c.refAll {
		if r.R != nil && !r.released {
			refs = append(refs, r)
		}
	}
	var hnds []*Hnd
	for _, hd := range c.hnds {
		if hd.active && !hd.removed {
			hnds = append(hnds, hd)
		}
	}
	c.mu.Unlock()
	for _, r := range refs {
		r.Release()
	}
	for _, hd := range hnds {
		hd.Remove()
	}
}

// Teardown releases everything.
func (c *Conc) Teardown() {
	if c.P.Parallel {
		ok := c.C.Settle(func() bool {
			c.releaseAll()
			return c.inflight.Load() == 0 && !c.busy() && len(c.DC.GetDirectives()) == 0
		})
		c.Check(ok, "leak", "%d directives live, resolvers executing=%v after everything was released", len(c.DC.GetDirectives()), c.busy())
		c.Cancel()
		return
	}
	c.releaseAll()
	time.Sleep(time.Second)
	c.C.Wait()
	if c.C.Failed() {
		c.Cancel()
		return
	}
	c.Check(!c.busy(), "leak-resolver", "resolvers still executing after everything was released")
	n := len(c.DC.GetDirectives())
	c.Check(n == 0, "leak-directive", "%d directives live after everything was released", n)
	c.Cancel()
	c.C.Wait()
}

func (c *Conc) busy() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, r := range c.resAll {
		if r.running != 0 {
			return true
		}
	}
	return false
}
