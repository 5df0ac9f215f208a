package eng

import (
	"errors"
	"fmt"
	"sort"
	"time"

	"github.com/aperturerobotics/controllerbus/directive"
)

// tri-state
const (
	no = iota
	yes
	unknown
)

const (
	stRunning = iota
	stExited
	stStopped
)

type mRes struct {
	r      *Res
	mi     *mInst
	hnd    *Hnd
	vals   []uint32
	st     int
	err    error
	idle   int
	relCbs []*Cb
	valCbs map[uint32][]*Cb
	child  *Cb
	nexec  int // expected executions; -1: sync from observation
	relFn  func()
}

type mInst struct {
	in       *Inst
	alive    bool
	dir      *Dir
	sup      bool
	eq       bool
	ver      int
	strong   []*Ref
	weak     []*Ref
	deadline time.Time
	res      []*mRes
	full     bool
	rels     []*Cb
	idles    []*IdleCb
	offers   map[*Hnd]bool
	cbLoose  bool // idle cbs may have missed alternation knowledge
}

// Prof weights the sequential driver.
type Prof struct {
	Steps                      int
	MaxVals                    bool // use value limits
	Grace                      bool // use grace periods
	Sup                        bool
	Linger                     bool
	Children                   bool
	Panics                     bool
	Weights                    map[string]int
	MaxInst, MaxHnd, MaxResPer int
	RefsOnly                   bool
}

// Seq is the sequential driver with an exact reference model.
type Seq struct {
	*World
	P     Prof
	insts []*mInst
	hm    []*Hnd // active handlers in order
	dead  []*Hnd
	exp   map[*Cb]int
	gone  []*Ref // released or disposed refs
	goneI []*IdleCb
	deadI []*mInst
	orph  []*mRes // removed resolvers
	step  int
}

// NewSeq builds the driver.
func NewSeq(w *World, p Prof) *Seq {
	return &Seq{World: w, P: p, exp: map[*Cb]int{}}
}

func (s *Seq) rnd(n int) int { return s.C.Int(n) }

func (s *Seq) countVals(mi *mInst) int {
	n := 0
	for _, r := range mi.res {
		n += len(r.vals)
	}
	return n
}

// --- model transitions ---

func (s *Seq) mCheckFull(mi *mInst) {
	max := mi.dir.Opts.MaxValueCount
	if max == 0 {
		return
	}
	if s.countVals(mi) >= max {
		if mi.full {
			return
		}
		mi.full = true
		for _, r := range mi.res {
			if r.st == stRunning && len(r.vals) == 0 {
				if r.idle == yes {
					continue
				}
				if r.idle == unknown {
					r.nexec = -1
					continue
				}
				r.st = stStopped
			} else if r.st == stRunning {
				r.idle = yes
			}
		}
	} else {
		if !mi.full {
			return
		}
		mi.full = false
		for _, r := range mi.res {
			switch {
			case r.st == stStopped:
				r.st = stRunning
				r.idle = no
				r.nexec++
			case r.st == stExited && r.err != nil:
				r.st, r.err = stRunning, nil
				r.idle = no
				r.nexec++
			case r.st == stRunning && len(r.vals) != 0:
				r.idle = unknownIf(r.idle)
			case r.st == stRunning && r.idle == yes:
				r.idle = unknown
			}
		}
	}
}

func unknownIf(i int) int {
	if i == yes {
		return unknown
	}
	return i
}

func (s *Seq) mAttach(mi *mInst, r *Res, hnd *Hnd, child *Cb) *mRes {
	mr := &mRes{r: r, mi: mi, hnd: hnd, valCbs: map[uint32][]*Cb{}, child: child}
	if mi.full {
		mr.st = stStopped
	} else {
		mr.st = stRunning
		mr.nexec = 1
	}
	mi.res = append(mi.res, mr)
	return mr
}

func (s *Seq) mRemoveVals(mr *mRes, ids ...uint32) {
	for _, id := range ids {
		for i, v := range mr.vals {
			if v == id {
				mr.vals = append(append([]uint32(nil), mr.vals[:i]...), mr.vals[i+1:]...)
				break
			}
		}
		for _, cb := range mr.valCbs[id] {
			if !cb.released {
				s.exp[cb]++
			}
		}
		delete(mr.valCbs, id)
	}
	s.mCheckFull(mr.mi)
}

func (s *Seq) mRemoveRes(mr *mRes) {
	mi := mr.mi
	for i, r := range mi.res {
		if r == mr {
			mi.res = append(append([]*mRes(nil), mi.res[:i]...), mi.res[i+1:]...)
			break
		}
	}
	s.mRemoveVals(mr, append([]uint32(nil), mr.vals...)...)
	for _, cb := range mr.relCbs {
		if !cb.released {
			s.exp[cb]++
		}
	}
	mr.relCbs = nil
	if mr.child != nil {
		s.exp[mr.child]++
		mr.child = nil
	}
	s.orph = append(s.orph, mr)
}

func (s *Seq) mDispose(mi *mInst) {
	if !mi.alive {
		return
	}
	s.Check(mi.in.I.GetContext().Err() != nil, "lifetime", "%v is not disposed at once", mi.in)
	mi.alive = false
	s.goneI = append(s.goneI, mi.idles...)
	mi.idles = nil
	for len(mi.res) != 0 {
		s.mRemoveRes(mi.res[len(mi.res)-1])
	}
	for _, cb := range mi.rels {
		if !cb.released {
			s.exp[cb]++
		}
	}
	mi.rels = nil
	s.gone = append(s.gone, mi.strong...)
	s.gone = append(s.gone, mi.weak...)
	for i, o := range s.insts {
		if o == mi {
			s.insts = append(append([]*mInst(nil), s.insts[:i]...), s.insts[i+1:]...)
			break
		}
	}
	s.deadI = append(s.deadI, mi)
}

func (s *Seq) mUnref(mi *mInst) {
	if !mi.alive || len(mi.strong) != 0 {
		return
	}
	if mi.dir.Opts.UnrefDisposeDur == 0 || (mi.dir.Opts.UnrefDisposeEmptyImmediate && s.countVals(mi) == 0) {
		s.mDispose(mi)
		return
	}
	if mi.deadline.IsZero() {
		mi.deadline = time.Now().Add(mi.dir.Opts.UnrefDisposeDur)
	}
}

// --- helpers picking things ---

func (s *Seq) pickInst() *mInst {
	if len(s.insts) == 0 {
		return nil
	}
	return s.insts[s.rnd(len(s.insts))]
}

func (s *Seq) pickRes() *mRes {
	var all []*mRes
	for _, mi := range s.insts {
		all = append(all, mi.res...)
	}
	if len(all) == 0 {
		return nil
	}
	return all[s.rnd(len(all))]
}

// usable returns the current exec of a live, non-stopped resolver.
func (s *Seq) usable() (*mRes, *Exec) {
	for k := 0; k < 4; k++ {
		mr := s.pickRes()
		if mr == nil {
			return nil, nil
		}
		if mr.st == stStopped {
			continue
		}
		e := mr.r.Cur()
		if e == nil || e.Ctx.Err() != nil {
			continue
		}
		return mr, e
	}
	return nil, nil
}

// --- operations ---

func (s *Seq) opAddDir() {
	w := s.World
	d := Dir{W: w, ID: len(w.order) + 1000 + s.step}
	kind := s.rnd(10)
	switch s.rnd(4) {
	case 0:
		d.Class = "a"
	case 1:
		d.Class = "b"
	case 2:
		d.Class = "c"
	default:
		d.Class = fmt.Sprintf("u%d", s.rnd(4))
	}
	if s.P.MaxVals && s.C.P(70) {
		d.Opts.MaxValueCount = 1 + s.rnd(3)
		d.Opts.MaxValueHardCap = s.C.P(50)
	} else {
		d.Opts.MaxValueHardCap = s.C.P(15) // means nothing without a limit
	}
	if s.P.Grace && s.C.P(70) {
		d.Opts.UnrefDisposeDur = time.Duration(1+s.rnd(5)) * time.Second
		d.Opts.UnrefDisposeEmptyImmediate = s.C.P(40)
	}
	var dir directive.Directive
	mi := &mInst{alive: true}
	switch {
	case kind < 2:
		d.Class = ""
		dd := d
		dir = &dd
		mi.dir = &dd
	case kind < 6 || !s.P.Sup:
		dd := &EqDir{Dir: d}
		dir = dd
		mi.dir = &dd.Dir
		mi.eq = true
	default:
		dd := &SupDir{EqDir: EqDir{Dir: d}, Ver: s.rnd(5)}
		if s.C.P(25) {
			// equivalent to several live directives: supersedes all of them
			dd.Class = []string{"a+b", "b+c", "a+c", "a+b+c", "a+u1", "u0+u1+u2"}[s.rnd(6)]
			dd.Ver = 100 + s.step
			w.C.Ev("multi-class", "")
		}
		dir = dd
		mi.dir = &dd.Dir
		mi.eq, mi.sup, mi.ver = true, true, dd.Ver
	}
	if len(s.insts) >= s.P.MaxInst {
		// only joins
		mi = nil
		if len(s.insts) == 0 {
			return
		}
		o := s.pickInst()
		if o.dir.Class == "" || !o.eq {
			return
		}
		dd := &EqDir{Dir: Dir{W: w, ID: d.ID, Class: o.dir.Class}}
		dir = dd
		mi = &mInst{alive: true, dir: &dd.Dir, eq: true}
	}
	// predict
	var join *mInst
	var superseded []*mInst
	if mi.eq {
		for _, o := range append([]*mInst(nil), s.insts...) {
			if !Overlap(o.dir.Class, mi.dir.Class) {
				continue
			}
			if mi.sup && (!o.sup || mi.ver > o.ver) {
				superseded = append(superseded, o)
				continue
			}
			join = o
			break
		}
	}
	ref := w.NewRef(false)
	ref.Panics = s.P.Panics && s.C.P(30)
	ref.Strict = join == nil
	before := len(w.order)
	w.C.Ev("op-add-dir", "class=%s ver=%d join=%v sup=%d", mi.dir.Class, mi.ver, join != nil, len(superseded))
	mi.dir.Born = w.clock.Add(1)
	var i directive.Instance
	var r directive.Reference
	var err error
	if s.C.P(5) {
		ref.Nil = true
		i, r, err = w.DC.AddDirective(dir, nil)
	} else {
		i, r, err = w.DC.AddDirective(dir, ref)
	}
	if !w.Check(err == nil && i != nil && r != nil, "add-directive", "AddDirective: inst nil=%v ref nil=%v err=%v", i == nil, r == nil, err) {
		w.C.Abort()
	}
	ref.R = r
	in := w.inst(i)
	for _, o := range superseded {
		s.mDispose(o)
	}
	if join != nil {
		w.Check(in == join.in, "dedup", "equivalent directive class %q got %v, live instance is %v", mi.dir.Class, in, join.in)
		w.Check(len(w.order) == before, "dedup", "joining created a new instance")
		ref.In = in
		join.strong = append(join.strong, ref)
		join.deadline = time.Time{}
		return
	}
	w.Check(!in.created, "dedup", "directive class %q (not equivalent to a live one) got existing instance %v", mi.dir.Class, in)
	in.created = true
	w.Check(in.I.GetDirective() == dir, "dedup", "GetDirective of new instance %v is not the added directive", in)
	mi.in = in
	ref.In = in
	mi.strong = []*Ref{ref}
	mi.offers = map[*Hnd]bool{}
	s.insts = append(s.insts, mi)
	for _, hd := range s.hm {
		mi.offers[hd] = true
		for _, r := range hd.made[in] {
			s.mAttach(mi, r, hd, nil)
		}
	}
}

func (s *Seq) opAddRef() {
	var mi *mInst
	if s.C.P(10) && len(s.deadI) > 0 {
		mi = s.deadI[s.rnd(len(s.deadI))]
	} else {
		mi = s.pickInst()
	}
	if mi == nil {
		return
	}
	weak := s.C.P(40)
	ref := s.NewRef(weak)
	ref.Panics = s.P.Panics && s.C.P(30)
	ref.In = mi.in
	s.C.Ev("op-add-ref", "%v weak=%v alive=%v", mi.in, weak, mi.alive)
	if s.C.P(5) && mi.alive {
		ref.Nil = true
		ref.R = mi.in.I.AddReference(nil, weak)
	} else {
		ref.R = mi.in.I.AddReference(ref, weak)
	}
	if !s.Check(ref.R != nil, "nil-ref", "AddReference returned nil") {
		s.C.Abort()
	}
	if !mi.alive {
		s.C.Wait()
		s.Check(ref.disposed == 1 && ref.events == 1, "late-ref", "reference added to disposed %v: disposed=%d events=%d", mi.in, ref.disposed, ref.events)
		return
	}
	// values already present must have been replayed by now
	s.Check(ref.Nil || len(ref.View()) == s.countVals(mi), "replay", "new reference on %v was told of %d values at once, %d attached", mi.in, len(ref.View()), s.countVals(mi))
	if weak {
		mi.weak = append(mi.weak, ref)
	} else {
		mi.strong = append(mi.strong, ref)
		mi.deadline = time.Time{}
	}
}

func remRef(l []*Ref, r *Ref) ([]*Ref, bool) {
	for i, x := range l {
		if x == r {
			return append(append([]*Ref(nil), l[:i]...), l[i+1:]...), true
		}
	}
	return l, false
}

func (s *Seq) opRelRef() {
	if s.C.P(15) && len(s.gone) > 0 {
		r := s.gone[s.rnd(len(s.gone))]
		s.C.Ev("op-rel-again", "%v", r)
		r.Release()
		return
	}
	mi := s.pickInst()
	if mi == nil {
		return
	}
	all := append(append([]*Ref(nil), mi.strong...), mi.weak...)
	if len(all) == 0 {
		return
	}
	r := all[s.rnd(len(all))]
	s.C.Ev("op-rel-ref", "%v weak=%v", r, r.Weak)
	if r.Weak && len(mi.strong) == 0 && mi.dir.Opts.UnrefDisposeEmptyImmediate && s.countVals(mi) == 0 {
		return // early disposal of an already unreferenced, meanwhile empty directive: unspecified
	}
	r.Release()
	var was bool
	mi.weak, _ = remRef(mi.weak, r)
	mi.strong, was = remRef(mi.strong, r)
	s.gone = append(s.gone, r)
	if was {
		s.mUnref(mi)
	}
}

func (s *Seq) opClose() {
	if s.C.P(20) && len(s.deadI) > 0 {
		mi := s.deadI[s.rnd(len(s.deadI))]
		s.C.Ev("op-close-again", "%v", mi.in)
		mi.in.I.Close()
		return
	}
	mi := s.pickInst()
	if mi == nil {
		return
	}
	s.C.Ev("op-close", "%v", mi.in)
	mi.in.I.Close()
	s.mDispose(mi)
}

func (s *Seq) opCloseIf() {
	mi := s.pickInst()
	if s.C.P(20) && len(s.deadI) > 0 {
		mi = s.deadI[s.rnd(len(s.deadI))]
	}
	if mi == nil {
		return
	}
	incl := s.C.P(50)
	exp := !mi.alive || (len(mi.strong) == 0 && (!incl || len(mi.weak) == 0))
	s.C.Ev("op-close-if", "%v incl=%v exp=%v", mi.in, incl, exp)
	got := mi.in.I.CloseIfUnreferenced(incl)
	s.Check(got == exp, "close-if", "CloseIfUnreferenced(%v) on %v = %v with %d strong, %d weak references, live=%v", incl, mi.in, got, len(mi.strong), len(mi.weak), mi.alive)
	if exp {
		s.mDispose(mi)
	}
}

func (s *Seq) behave(hd *Hnd, in *Inst) (int, error, bool) {
	k := (hd.ID*31 + in.ID*17) % 20
	switch {
	case k == 0:
		return 0, ErrHandler, false
	case k == 1:
		return 0, nil, true
	case k < 6:
		return 0, nil, false
	}
	return 1 + k%s.P.MaxResPer, nil, false
}

func (s *Seq) opAddHandler() {
	if len(s.hm) >= s.P.MaxHnd {
		return
	}
	hd := s.NewHnd(s.behave)
	s.C.Ev("op-add-handler", "%v", hd)
	_ = hd.Add()
	s.hm = append(s.hm, hd)
	for _, mi := range s.insts {
		mi.offers[hd] = true
		for _, r := range hd.made[mi.in] {
			s.mAttach(mi, r, hd, nil)
		}
	}
}

func (s *Seq) opRemHandler() {
	if s.C.P(20) && len(s.dead) > 0 {
		s.dead[s.rnd(len(s.dead))].Remove()
		return
	}
	if len(s.hm) == 0 {
		return
	}
	i := s.rnd(len(s.hm))
	hd := s.hm[i]
	s.C.Ev("op-rem-handler", "%v", hd)
	hd.Remove()
	s.hm = append(append([]*Hnd(nil), s.hm[:i]...), s.hm[i+1:]...)
	s.dead = append(s.dead, hd)
	for _, mi := range s.insts {
		for _, mr := range append([]*mRes(nil), mi.res...) {
			if mr.hnd == hd {
				s.mRemoveRes(mr)
			}
		}
	}
}

func (s *Seq) opAddVal() {
	mr, e := s.usable()
	if mr == nil {
		return
	}
	mi := mr.mi
	max := mi.dir.Opts.MaxValueCount
	exp := !(max != 0 && mi.dir.Opts.MaxValueHardCap && s.countVals(mi) >= max)
	prev := mi.in.maxID
	_, id, ok := e.Add()
	s.Check(ok == exp, "add-accept", "AddValue on %v by %v: accepted=%v, expected %v (max=%d hard=%v have=%d)", mi.in, mr.r, ok, exp, max, mi.dir.Opts.MaxValueHardCap, s.countVals(mi))
	if ok {
		s.Check(id > prev, "value-id", "AddValue on %v: id %d after %d", mi.in, id, prev)
		if prev == 0 {
			s.Check(id == 1, "value-id", "first value id on %v is %d", mi.in, id)
		}
		mr.vals = append(mr.vals, id)
		s.mCheckFull(mi)
	}
}

func (s *Seq) opRemVal() {
	mr, e := s.usable()
	if mr == nil {
		return
	}
	if len(mr.vals) == 0 || s.C.P(15) {
		id := uint32(s.rnd(6)) + 1000
		_, found := e.RH.RemoveValue(id)
		s.Check(!found, "remove-found", "RemoveValue(%d) of a value never added: found", id)
		return
	}
	id := mr.vals[s.rnd(len(mr.vals))]
	s.C.Ev("op-rem-val", "%v %d", mr.r, id)
	v, found := e.RH.RemoveValue(id)
	s.Check(found && v == mr.mi.in.valOf[id], "remove-found", "RemoveValue(%d) on %v: found=%v value=%v want %v", id, mr.mi.in, found, v, mr.mi.in.valOf[id])
	s.mRemoveVals(mr, id)
	_, found = e.RH.RemoveValue(id)
	s.Check(!found, "remove-found", "second RemoveValue(%d) on %v found it", id, mr.mi.in)
}

func (s *Seq) opClear() {
	mr, e := s.usable()
	if mr == nil {
		return
	}
	s.C.Ev("op-clear", "%v n=%d", mr.r, len(mr.vals))
	want := append([]uint32(nil), mr.vals...)
	got := append([]uint32(nil), e.RH.ClearValues()...)
	s.Check(sameIDs(want, got), "clear", "ClearValues on %v returned %v want %v", mr.r, got, want)
	s.mRemoveVals(mr, want...)
}

func sameIDs(a, b []uint32) bool {
	a, b = append([]uint32(nil), a...), append([]uint32(nil), b...)
	sort.Slice(a, func(i, j int) bool { return a[i] < a[j] })
	sort.Slice(b, func(i, j int) bool { return b[i] < b[j] })
	return fmt.Sprint(a) == fmt.Sprint(b)
}

func (s *Seq) opMarkIdle() {
	mr, e := s.usable()
	if mr == nil {
		return
	}
	b := s.C.P(60)
	s.C.Ev("op-mark-idle", "%v %v", mr.r, b)
	if mr.st != stRunning && !b {
		return // un-idling a returned resolver: unspecified
	}
	e.RH.MarkIdle(b)
	if b {
		mr.idle = yes
	} else {
		mr.idle = no
	}
}

func (s *Seq) opExit() {
	mr, e := s.usable()
	if mr == nil || mr.st != stRunning || e.Done() {
		return
	}
	var err error
	if s.C.P(40) {
		err = &ErrScripted{N: s.step}
	}
	s.C.Ev("op-exit", "%v err=%v", mr.r, err != nil)
	e.exit <- err
	s.C.Wait()
	mr.st = stExited
	mr.err = err
	if err != nil {
		// the change to idle, or the failure while idle, carries the errors
		if s.mIdle(mr.mi) == yes {
			for _, ic := range mr.mi.idles {
				_, errs := ic.snap()
				s.Check(sameErrs(errs, s.mErrs(mr.mi)), "idle-errs", "idle callback on %v got errors %v, resolvers failed with %v", mr.mi.in, errs, s.mErrs(mr.mi))
			}
		}
	}
}

func (s *Seq) mErrs(mi *mInst) []error {
	var out []error
	for _, r := range mi.res {
		if r.err != nil {
			out = append(out, r.err)
		}
	}
	return out
}

func sameErrs(a, b []error) bool {
	if len(a) != len(b) {
		return false
	}
	for _, x := range a {
		f := false
		for _, y := range b {
			if errors.Is(x, y) {
				f = true
			}
		}
		if !f {
			return false
		}
	}
	return true
}

func (s *Seq) mIdle(mi *mInst) int {
	out := yes
	for _, r := range mi.res {
		if r.st == stRunning {
			if r.idle == no && r.nexec != -1 {
				return no
			}
			if r.idle == unknown || r.nexec == -1 {
				out = unknown
			}
		}
		if r.nexec == -1 {
			out = unknown
		}
	}
	return out
}

func (s *Seq) opStale() {
	// operations through handles of cancelled executions or removed resolvers
	var es, again []*Exec
	for _, r := range s.resAll {
		s.mu.Lock()
		for _, e := range r.execs {
			if e.Ctx.Err() != nil {
				es = append(es, e)
				if last := r.execs[len(r.execs)-1]; last != e && last.Ctx.Err() == nil {
					again = append(again, e) // the resolver is being executed again
				}
			}
		}
		s.mu.Unlock()
	}
	if len(es) == 0 {
		return
	}
	if len(again) != 0 && s.C.P(70) {
		es = again
	}
	e := es[s.rnd(len(es))]
	s.C.Ev("op-stale", "%v #%d", e.Res, e.N)
	switch s.rnd(7) {
	case 5:
		sub := s.NewRes(nil, e.Res.In, nil)
		cb := s.NewCb("stale-child", e.Res.In)
		cb.Register(func(f func()) func() { return e.RH.AddResolver(sub, f) })
		s.exp[cb] = 1
		s.C.Wait()
		s.Check(sub.NExec() == 0, "stale-child", "child of the cancelled execution %v #%d was started", e.Res, e.N)
	case 6:
		if mr, u := s.usable(); mr != nil && s.C.P(50) {
			e = u
		}
		cb := s.NewCb("nil-child", e.Res.In)
		cb.Register(func(f func()) func() { return e.RH.AddResolver(nil, f) })
		s.exp[cb] = 1
	case 0, 1:
		_, id, ok := e.Add()
		s.Check(!ok, "stale-add", "AddValue through cancelled execution %v #%d accepted as %d", e.Res, e.N, id)
	case 2:
		cb := s.NewCb("stale-value", e.Res.In)
		cb.Register(func(f func()) func() { return e.RH.AddValueRemovedCallback(999, f) })
		s.exp[cb] = 1
	case 3:
		e.RH.MarkIdle(s.C.P(50))
	case 4:
		_, found := e.RH.RemoveValue(999)
		s.Check(!found, "remove-found", "RemoveValue of unknown id found")
	}
}

func (s *Seq) opCbs() {
	mi := s.pickInst()
	if mi == nil {
		return
	}
	switch s.rnd(7) {
	case 0:
		cb := s.NewCb("dispose", mi.in)
		cb.Panics = s.P.Panics && s.C.P(30)
		cb.Register(func(f func()) func() { return mi.in.I.AddDisposeCallback(f) })
		mi.rels = append(mi.rels, cb)
	case 1:
		if len(mi.rels) > 0 {
			cb := mi.rels[s.rnd(len(mi.rels))]
			s.C.Ev("op-rel-dispose", "%v", cb)
			cb.Release()
		}
	case 2:
		if len(s.deadI) > 0 {
			d := s.deadI[s.rnd(len(s.deadI))]
			cb := s.NewCb("late-dispose", d.in)
			cb.Register(func(f func()) func() { return d.in.I.AddDisposeCallback(f) })
			s.exp[cb] = 1
		}
	case 3:
		mr, e := s.usable()
		if mr == nil {
			return
		}
		cb := s.NewCb("value", mr.mi.in)
		cb.Panics = s.P.Panics && s.C.P(30)
		id := uint32(777)
		have := false
		if len(mr.vals) > 0 && s.C.P(90) {
			id = mr.vals[s.rnd(len(mr.vals))]
			have = true
		}
		s.C.Ev("op-value-cb", "%v %d", mr.r, id)
		cb.Register(func(f func()) func() { return e.RH.AddValueRemovedCallback(id, f) })
		if have {
			mr.valCbs[id] = append(mr.valCbs[id], cb)
		} else {
			s.exp[cb] = 1
		}
	case 4:
		mr, e := s.usable()
		if mr == nil {
			return
		}
		cb := s.NewCb("resolver", mr.mi.in)
		cb.Panics = s.P.Panics && s.C.P(30)
		s.C.Ev("op-resolver-cb", "%v", mr.r)
		cb.Register(func(f func()) func() { return e.RH.AddResolverRemovedCallback(f) })
		mr.relCbs = append(mr.relCbs, cb)
	case 5, 6:
		// release some value/resolver callback
		mr := s.pickRes()
		if mr == nil {
			return
		}
		var cbs []*Cb
		cbs = append(cbs, mr.relCbs...)
		for _, id := range mr.vals {
			cbs = append(cbs, mr.valCbs[id]...)
		}
		if len(cbs) > 0 {
			cb := cbs[s.rnd(len(cbs))]
			s.C.Ev("op-rel-cb", "%v", cb)
			cb.Release()
		}
	}
}

func (s *Seq) opIdleCb() {
	mi := s.pickInst()
	if mi == nil {
		return
	}
	if len(mi.idles) > 0 && s.C.P(35) {
		i := s.rnd(len(mi.idles))
		ic := mi.idles[i]
		ic.Release()
		mi.idles = append(append([]*IdleCb(nil), mi.idles[:i]...), mi.idles[i+1:]...)
		s.goneI = append(s.goneI, ic)
		return
	}
	ic := s.NewIdle(mi.in)
	st, errs := ic.snap()
	if s.Check(len(st) == 1, "idle-initial", "idle callback on %v called %d times on registration", mi.in, len(st)) {
		if want := s.mIdle(mi); want != unknown {
			s.Check(st[0] == (want == yes), "idle-initial", "idle callback on %v told initially %v, want %v", mi.in, st[0], want == yes)
			s.Check(sameErrs(errs, s.mErrs(mi)), "idle-errs", "idle callback on %v got initial errors %v want %v", mi.in, errs, s.mErrs(mi))
		}
	}
	mi.idles = append(mi.idles, ic)
}

func (s *Seq) opChild() {
	mr, e := s.usable()
	if mr == nil || len(mr.mi.res) > 8 {
		return
	}
	if s.C.P(40) {
		// release a child early
		for _, c := range append([]*mRes(nil), mr.mi.res...) {
			if c.relFn != nil {
				s.C.Ev("op-rel-child", "%v", c.r)
				c.relFn()
				s.mRemoveRes(c)
				return
			}
		}
	}
	sub := s.NewRes(nil, mr.mi.in, nil)
	var cb *Cb
	var fn func()
	if s.C.P(80) {
		cb = s.NewCb("child", mr.mi.in)
		cb.Register(func(f func()) func() { fn = e.RH.AddResolver(sub, f); return fn })
	} else {
		fn = e.RH.AddResolver(sub, nil)
	}
	s.C.Ev("op-child", "%v of %v", sub, mr.r)
	c := s.mAttach(mr.mi, sub, mr.hnd, cb)
	c.relFn = fn
}

func (s *Seq) opStaleChild() {
	if len(s.orph) == 0 {
		return
	}
	mr := s.orph[s.rnd(len(s.orph))]
	e := mr.r.Cur()
	if e == nil {
		return
	}
	sub := s.NewRes(nil, mr.mi.in, nil)
	cb := s.NewCb("stale-child", mr.mi.in)
	cb.Register(func(f func()) func() { return e.RH.AddResolver(sub, f) })
	s.exp[cb] = 1
	cb2 := s.NewCb("stale-resolver", mr.mi.in)
	cb2.Register(func(f func()) func() { return e.RH.AddResolverRemovedCallback(f) })
	s.exp[cb2] = 1
	s.C.Wait()
	s.Check(sub.NExec() == 0, "stale-child", "child of removed resolver %v was started", mr.r)
}

func (s *Seq) opAdvance() {
	// advance to just before or just past a deadline
	var next *mInst
	for _, mi := range s.insts {
		if !mi.deadline.IsZero() && (next == nil || mi.deadline.Before(next.deadline)) {
			next = mi
		}
	}
	if next == nil {
		time.Sleep(time.Duration(s.rnd(2000)) * time.Millisecond)
		return
	}
	d := time.Until(next.deadline)
	if s.C.P(40) {
		time.Sleep(d - time.Millisecond)
		return
	}
	time.Sleep(d + time.Millisecond)
	s.C.Wait()
	now := time.Now()
	for _, mi := range append([]*mInst(nil), s.insts...) {
		if !mi.deadline.IsZero() && !mi.deadline.After(now) {
			s.C.Ev("grace-over", "%v", mi.in)
			s.mDispose(mi)
		}
	}
}

// --- comparison at quiescence ---

func (s *Seq) compare() {
	s.C.Wait()
	s.C.Ev("quiescent", "")
	live := map[directive.Instance]bool{}
	for _, i := range s.DC.GetDirectives() {
		s.Check(!live[i], "listing", "directive listed twice")
		live[i] = true
	}
	s.Check(len(live) == len(s.insts), "listing", "%d directives listed, %d live", len(live), len(s.insts))
	for _, mi := range s.insts {
		in := mi.in
		s.Check(live[in.I], "listing", "live %v is not listed", in)
		s.Check(in.I.GetContext().Err() == nil, "lifetime", "context of live %v is cancelled (%d strong)", in, len(mi.strong))
		vals := map[uint32]bool{}
		for _, mr := range mi.res {
			for _, id := range mr.vals {
				vals[id] = true
			}
		}
		for _, ref := range append(append([]*Ref(nil), mi.strong...), mi.weak...) {
			v := ref.View()
			bad := len(v) != len(vals)
			for id := range vals {
				if _, ok := v[id]; !ok {
					bad = true
				}
			}
			s.Check(!bad || ref.Nil, "view", "%v (weak=%v) on %v was told of %v, attached are %v", ref, ref.Weak, in, keys(v), keysB(vals))
			s.Check(ref.disposed == 0, "disposed-live", "%v on live %v told of disposal", ref, in)
		}
		// resolvers
		for _, mr := range mi.res {
			e := mr.r.Cur()
			if mr.nexec == -1 {
				// unspecified whether it runs: sync from observation
				mr.nexec = mr.r.NExec()
				switch {
				case e != nil && e.Ctx.Err() == nil && !e.Done():
					mr.st, mr.err = stRunning, nil
					mr.idle = unknown
				case e != nil && e.Ctx.Err() != nil:
					mr.st = stStopped
				}
				continue
			}
			s.Check(mr.r.NExec() == mr.nexec, "executions", "%v on %v executed %d times, expected %d (state %d, full=%v)", mr.r, in, mr.r.NExec(), mr.nexec, mr.st, mi.full)
			switch mr.st {
			case stRunning:
				s.Check(e != nil && e.Ctx.Err() == nil, "res-running", "%v on %v should be running with a live context", mr.r, in)
			case stStopped:
				s.Check(e == nil || e.Ctx.Err() != nil, "res-stopped", "%v on %v should have been stopped (limit %d, %d values)", mr.r, in, mi.dir.Opts.MaxValueCount, len(vals))
			}
			if e != nil && e.Ctx.Err() == nil {
				s.Check(e.RH.CountValues(false) == len(mr.vals) && e.RH.CountValues(true) == len(vals), "count", "CountValues on %v = %d/%d, want %d/%d", mr.r, e.RH.CountValues(false), e.RH.CountValues(true), len(mr.vals), len(vals))
			}
		}
		if max := mi.dir.Opts.MaxValueCount; max != 0 && mi.dir.Opts.MaxValueHardCap {
			s.Check(len(vals) <= max, "hard-cap", "%d values attached on %v, hard limit %d", len(vals), in, max)
		}
		// idle
		if want := s.mIdle(mi); want != unknown {
			for _, ic := range mi.idles {
				st, _ := ic.snap()
				s.Check(len(st) > 0 && st[len(st)-1] == (want == yes), "idle-state", "idle callback on %v was last told %v, true state idle=%v", in, st, want == yes)
			}
		}
		if !anyUnknown(mi) {
			s.Check(sameErrs(in.I.GetResolverErrors(), s.mErrs(mi)), "errors", "GetResolverErrors on %v = %v want %v", in, in.I.GetResolverErrors(), s.mErrs(mi))
		}
		for _, hd := range s.hm {
			s.Check(in.offers[hd] == 1, "offers", "%v offered %v %d times", hd, in, in.offers[hd])
		}
		for _, hd := range s.dead {
			if !mi.offers[hd] {
				s.Check(in.offers[hd] == 0, "offers", "removed %v offered %v", hd, in)
			}
		}
	}
	for _, mi := range s.deadI {
		s.Check(mi.in.I.GetContext().Err() != nil, "lifetime", "context of disposed %v is live", mi.in)
		for _, ref := range append(append([]*Ref(nil), mi.strong...), mi.weak...) {
			s.Check(ref.disposed == 1 || ref.Nil, "dispose-once", "held %v on disposed %v told %d times of disposal", ref, mi.in, ref.disposed)
			s.Check(len(ref.View()) == 0, "dispose-removed", "%v on disposed %v still holds %v", ref, mi.in, keys(ref.View()))
		}
	}
	for _, r := range s.gone {
		if r.released {
			s.Check(r.events == r.relEvents, "after-release", "released %v received %d events after its release", r, r.events-r.relEvents)
		}
	}
	for _, ic := range s.goneI {
		st, _ := ic.snap()
		if ic.released {
			s.Check(len(st) == ic.relCount, "idle-after-release", "released idle callback called again")
		} else {
			s.mu.Lock()
			ic.released = true
			ic.relCount = len(st)
			s.mu.Unlock()
		}
	}
	for _, cb := range s.cbAll {
		s.Check(cb.Calls() == s.exp[cb], "callback-once", "%v on %v called %d times, expected %d (released=%v)", cb, cb.In, cb.Calls(), s.exp[cb], cb.released)
	}
	for _, mr := range s.orph {
		e := mr.r.Cur()
		s.Check(e == nil || e.Ctx.Err() != nil, "removed-running", "removed %v still has a live context", mr.r)
		if mr.nexec >= 0 {
			s.Check(mr.r.NExec() <= mr.nexec, "removed-restarted", "removed %v was executed again", mr.r)
		}
	}
}

func anyUnknown(mi *mInst) bool {
	for _, r := range mi.res {
		if r.nexec == -1 || r.idle == unknown {
			return true
		}
	}
	return false
}

func keys(m map[uint32]any) []uint32 {
	var out []uint32
	for k := range m {
		out = append(out, k)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

func keysB(m map[uint32]bool) []uint32 {
	var out []uint32
	for k := range m {
		out = append(out, k)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

// Run runs the sequence and tears everything down.
func (s *Seq) Run() {
	ops := []struct {
		n  string
		w  int
		fn func()
	}{
		{"dir", 10, s.opAddDir}, {"ref", 10, s.opAddRef}, {"relref", 12, s.opRelRef}, {"close", 2, s.opClose},
		{"closeif", 4, s.opCloseIf}, {"hnd", 5, s.opAddHandler}, {"remhnd", 3, s.opRemHandler},
		{"add", 18, s.opAddVal}, {"rem", 10, s.opRemVal}, {"clear", 2, s.opClear}, {"idle", 8, s.opMarkIdle},
		{"exit", 5, s.opExit}, {"stale", 4, s.opStale}, {"cbs", 14, s.opCbs}, {"idlecb", 6, s.opIdleCb},
		{"child", 0, s.opChild}, {"stalechild", 0, s.opStaleChild}, {"adv", 6, s.opAdvance},
	}
	total := 0
	for i := range ops {
		if w, ok := s.P.Weights[ops[i].n]; ok {
			ops[i].w = w
		}
		total += ops[i].w
	}
	for s.step = 0; s.step < s.P.Steps && !s.C.Failed(); s.step++ {
		k := s.rnd(total)
		for _, op := range ops {
			if k < op.w {
				op.fn()
				break
			}
			k -= op.w
		}
		s.compare()
	}
	s.Teardown()
}

// Teardown releases everything and checks that nothing is left.
func (s *Seq) Teardown() {
	if !s.C.Failed() {
		for _, r := range s.refAll {
			if r.R != nil {
				r.Release()
			}
		}
		s.C.Wait()
		time.Sleep(time.Minute)
		s.C.Wait()
		n := len(s.DC.GetDirectives())
		s.Check(n == 0, "leak-directive", "%d directives live after all references were released", n)
		for _, r := range s.resAll {
			s.mu.Lock()
			run := r.running
			s.mu.Unlock()
			s.Check(run == 0, "leak-resolver", "%v still executing after everything was released", r)
		}
	}
	s.Cancel()
	s.C.Wait()
}
