package eng

import (
	"context"
	"fmt"
	"strings"

	"github.com/aperturerobotics/controllerbus/directive"
)

// RunOrder performs a chain of operations on one directive, most of them from inside callbacks, and
// compares the complete sequence of reports with the sequence of operations.
func RunOrder(w *World, steps int) {
	c := w.C
	d := &EqDir{Dir{W: w, ID: 1, Class: "k"}}
	var rh directive.ResolverHandler
	ready := make(chan struct{})
	rel, err := w.DC.AddHandler(HndFunc(func(ctx context.Context, di directive.Instance) ([]directive.Resolver, error) {
		return []directive.Resolver{directive.NewFuncResolver(func(ctx context.Context, h directive.ResolverHandler) error {
			rh = h
			close(ready)
			<-ctx.Done()
			return ctx.Err()
		})}, nil
	}))
	if !w.Check(err == nil && rel != nil, "add-handler", "AddHandler: %v", err) {
		return
	}
	var want, got []string
	var live []uint32
	idle := false
	next := 0
	left := steps
	inCb := 0
	var step func()
	within := func(rep string) {
		c.Ev("report", "%s", rep)
		w.Check(inCb == 0, "serial", "report %s while another callback runs", rep)
		inCb++
		got = append(got, rep)
		// sometimes no operation, sometimes several
		for k := c.Int(4); k > 0 && left > 0; k-- {
			step()
		}
		inCb--
	}
	ref := &orderRef{fn: within}
	i, r, err := w.DC.AddDirective(d, ref)
	if !w.Check(err == nil && i != nil, "add-directive", "AddDirective: %v", err) {
		return
	}
	c.Wait()
	<-ready
	want = append(want, "idle false")
	step = func() {
		left--
		switch k := c.Int(10); {
		case k < 5 || (k < 8 && len(live) == 0):
			next++
			want = append(want, fmt.Sprintf("added %d", next))
			live = append(live, uint32(next))
			n := next
			id, ok := rh.AddValue(&Val{N: n})
			w.Check(ok && id == uint32(n), "value-id", "AddValue number %d: id=%d ok=%v", n, id, ok)
		case k < 8:
			x := c.Int(len(live))
			id := live[x]
			live = append(live[:x:x], live[x+1:]...)
			want = append(want, fmt.Sprintf("removed %d", id))
			_, found := rh.RemoveValue(id)
			w.Check(found, "remove-found", "RemoveValue(%d) did not find it", id)
		default:
			idle = !idle
			want = append(want, fmt.Sprintf("idle %v", idle))
			rh.MarkIdle(idle)
		}
	}
	i.AddIdleCallback(func(b bool, errs []error) { within(fmt.Sprintf("idle %v", b)) })
	for left > 0 {
		step()
	}
	c.Wait()
	ok := strings.Join(want, ",") == strings.Join(got, ",")
	w.Check(ok, "order", "changes made: %v\nreported: %v", want, got)
	w.Check(r != nil, "nil-ref", "nil reference")
	r.Release()
	rel()
	w.Cancel()
	c.Wait()
}

// HndFunc is a function handler.
type HndFunc func(ctx context.Context, di directive.Instance) ([]directive.Resolver, error)

// HandleDirective calls the function.
func (f HndFunc) HandleDirective(ctx context.Context, di directive.Instance) ([]directive.Resolver, error) {
	return f(ctx, di)
}

type orderRef struct{ fn func(string) }

func (o *orderRef) HandleValueAdded(_ directive.Instance, v directive.AttachedValue) {
	o.fn(fmt.Sprintf("added %d", v.GetValueID()))
}

func (o *orderRef) HandleValueRemoved(_ directive.Instance, v directive.AttachedValue) {
	o.fn(fmt.Sprintf("removed %d", v.GetValueID()))
}
func (o *orderRef) HandleInstanceDisposed(_ directive.Instance) {}
