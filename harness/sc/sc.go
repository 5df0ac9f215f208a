// Package sc provides scripted controllers, factories and configs which watch how they are used.
package sc

import (
	"context"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"sync"
	"time"

	"github.com/aperturerobotics/controllerbus/config"
	"github.com/aperturerobotics/controllerbus/controller"
	"github.com/aperturerobotics/controllerbus/directive"
	"github.com/blang/semver/v4"

	"verifharness/h"
)

// Conf is a config with a number, a string and a validity.
type Conf struct {
	// ID is the config id: not part of the encoding.
	ID  string
	N   int64
	S   string
	Bad bool
	// Obj is not part of the encoding: any object of the test.
	Obj any
	// Err is returned by Validate if set: not part of the encoding.
	Err error
	// MErr is returned when the config is encoded if set.
	MErr error
}

// ErrBad is returned by Validate of bad configs.
var ErrBad = errors.New("bad config")

type confJSON struct {
	N   int64  `json:"n,omitempty"`
	S   string `json:"s,omitempty"`
	Bad bool   `json:"bad,omitempty"`
}

// Validate checks the config.
func (c *Conf) Validate() error {
	if c.Err != nil {
		return c.Err
	}
	if c.Bad {
		return ErrBad
	}
	return nil
}

// GetConfigID returns the id.
func (c *Conf) GetConfigID() string { return c.ID }

// EqualsConfig compares.
func (c *Conf) EqualsConfig(o config.Config) bool {
	x, ok := o.(*Conf)
	return ok && x.ID == c.ID && x.N == c.N && x.S == c.S && x.Bad == c.Bad
}

// MarshalJSON marshals.
func (c *Conf) MarshalJSON() ([]byte, error) {
	if c.MErr != nil {
		return nil, c.MErr
	}
	return json.Marshal(confJSON{c.N, c.S, c.Bad})
}

// UnmarshalJSON unmarshals.
func (c *Conf) UnmarshalJSON(b []byte) error {
	var x confJSON
	if err := json.Unmarshal(b, &x); err != nil {
		return err
	}
	c.N, c.S, c.Bad = x.N, x.S, x.Bad
	return nil
}

// MarshalVT encodes as a protobuf message would be.
func (c *Conf) MarshalVT() ([]byte, error) {
	if c.MErr != nil {
		return nil, c.MErr
	}
	var b []byte
	if c.N != 0 {
		b = binary.AppendUvarint(append(b, 1<<3), uint64(c.N))
	}
	if c.S != "" {
		b = binary.AppendUvarint(append(b, 2<<3|2), uint64(len(c.S)))
		b = append(b, c.S...)
	}
	if c.Bad {
		b = append(b, 3<<3, 1)
	}
	return b, nil
}

// SizeVT returns the encoded size.
func (c *Conf) SizeVT() int {
	b, _ := c.MarshalVT()
	return len(b)
}

// MarshalToSizedBufferVT encodes to the end of the buffer.
func (c *Conf) MarshalToSizedBufferVT(d []byte) (int, error) {
	b, err := c.MarshalVT()
	if err != nil {
		return 0, err
	}
	copy(d[len(d)-len(b):], b)
	return len(b), nil
}

// Reset clears the config.
func (c *Conf) Reset() { c.N, c.S, c.Bad = 0, "", false }

var errWire = errors.New("invalid wire format")

// UnmarshalVT decodes.
func (c *Conf) UnmarshalVT(b []byte) error {
	for len(b) > 0 {
		tag, n := binary.Uvarint(b)
		if n <= 0 {
			return errWire
		}
		b = b[n:]
		switch tag {
		case 1 << 3, 3 << 3:
			v, n := binary.Uvarint(b)
			if n <= 0 {
				return errWire
			}
			b = b[n:]
			if tag == 1<<3 {
				c.N = int64(v)
			} else {
				c.Bad = v != 0
			}
		case 2<<3 | 2:
			l, n := binary.Uvarint(b)
			if n <= 0 || uint64(len(b)-n) < l {
				return errWire
			}
			c.S = string(b[n : n+int(l)])
			b = b[n+int(l):]
		default:
			return errWire
		}
	}
	return nil
}

func (c *Conf) String() string { return fmt.Sprintf("%s:%d:%s:%v", c.ID, c.N, c.S, c.Bad) }

// Env watches all controllers.
type Env struct {
	C    *h.C
	Mu   sync.Mutex
	Rnd  *h.LockedRand
	All  []*Ctrl
	nerr int
	// OnConstruct may delay, fail or return no controller.
	OnConstruct func(ctx context.Context, f *Fac, conf *Conf) (ok bool, err error)
	// OnExecute returns what the n-th execution (from 1) does.
	OnExecute func(ct *Ctrl, n int) Step
	// OnReturn is told how an execution ended (err nil: cleanly).
	OnReturn func(ct *Ctrl, err error, cancelled bool)
	// OnClose is told.
	OnClose func(ct *Ctrl)
	// OnDirective is asked for resolvers.
	OnDirective func(ctx context.Context, ct *Ctrl, di directive.Instance) ([]directive.Resolver, error)
}

// Step is what an execution does.
type Step struct {
	// Delay before the end; negative: until cancelled.
	Delay time.Duration
	// End: "nil", "err", "panic", "panic-val", "canceled"
	End string
	// Slow is the time it takes to notice cancellation.
	Slow time.Duration
	// NilOnCancel: returns nil on cancellation.
	NilOnCancel bool
	// Cmd ends the execution too.
	Cmd chan string
}

// Fac is a factory.
type Fac struct {
	E   *Env
	ID  string
	Ver semver.Version
	Tag string
}

// GetConfigID returns the id.
func (f *Fac) GetConfigID() string { return f.ID }

// ConstructConfig builds an empty config.
func (f *Fac) ConstructConfig() config.Config { return &Conf{ID: f.ID} }

// GetVersion returns the version.
func (f *Fac) GetVersion() semver.Version { return f.Ver }

// NewErr returns a fresh error.
func (e *Env) NewErr(what string) error {
	e.Mu.Lock()
	defer e.Mu.Unlock()
	e.nerr++
	return fmt.Errorf("%s error #%d", what, e.nerr)
}

// Ctrl is a controller.
type Ctrl struct {
	E    *Env
	N    int
	Fac  *Fac
	Conf *Conf
	// under E.Mu
	Execs   int
	Running bool
	Done    bool // returned nil
	Closed  int
	Ctx     context.Context
	LastErr error
	Cmd     chan string
	Quiet   bool // must not be offered anything any more
}

// Name returns the name.
func (ct *Ctrl) Name() string { return fmt.Sprintf("ctrl%d(%s:%d)", ct.N, ct.Conf.ID, ct.Conf.N) }

// Construct builds a controller.
func (f *Fac) Construct(ctx context.Context, cc config.Config, opts controller.ConstructOpts) (controller.Controller, error) {
	e := f.E
	conf, ok := cc.(*Conf)
	if !e.C.Check(ok && conf != nil, "construct-config", "factory got config %T", cc) {
		return nil, errors.New("wrong config")
	}
	e.C.Check(conf.ID == f.ID, "construct-config", "factory of %s got config %s", f.ID, conf)
	e.C.Check(!conf.Bad && conf.Err == nil, "construct-bad", "factory got the invalid config %s", conf)
	e.C.Check(opts.Logger != nil, "construct-logger", "no logger")
	e.C.Ev("construct", "%s %s", f.Tag, conf)
	if e.OnConstruct != nil {
		ok, err := e.OnConstruct(ctx, f, conf)
		if err != nil || !ok {
			return nil, err
		}
	}
	e.Mu.Lock()
	ct := &Ctrl{E: e, N: len(e.All), Fac: f, Conf: conf}
	e.All = append(e.All, ct)
	e.Mu.Unlock()
	return ct, nil
}

// GetControllerInfo returns information.
func (ct *Ctrl) GetControllerInfo() *controller.Info {
	return controller.NewInfo(fmt.Sprintf("test/ctrl%d", ct.N), ct.Fac.Ver, "scripted")
}

// HandleDirective passes to the test.
func (ct *Ctrl) HandleDirective(ctx context.Context, di directive.Instance) ([]directive.Resolver, error) {
	e := ct.E
	e.Mu.Lock()
	quiet := ct.Quiet
	e.Mu.Unlock()
	e.C.Check(!quiet, "offered-removed", "%s was offered a directive after it was removed", ct.Name())
	if e.OnDirective != nil {
		return e.OnDirective(ctx, ct, di)
	}
	return nil, nil
}

// Execute follows the script.
func (ct *Ctrl) Execute(ctx context.Context) error {
	e := ct.E
	e.Mu.Lock()
	e.C.Check(!ct.Running, "executed-concurrently", "%s is executed twice at the same time", ct.Name())
	e.C.Check(ct.Closed == 0, "executed-closed", "%s is executed after Close", ct.Name())
	e.C.Check(!ct.Done, "executed-again", "%s is executed again after it returned without error", ct.Name())
	ct.Execs++
	ct.Running = true
	ct.Ctx = ctx
	ct.Cmd = make(chan string, 1)
	cmd := ct.Cmd
	n := ct.Execs
	e.Mu.Unlock()
	st := Step{Delay: -1}
	if e.OnExecute != nil {
		st = e.OnExecute(ct, n)
	}
	e.C.Ev("execute", "%s #%d %v %s", ct.Name(), n, st.Delay, st.End)
	end := st.End
	var tm <-chan time.Time
	if st.Delay > 0 {
		t := time.NewTimer(st.Delay)
		defer t.Stop()
		tm = t.C
	}
	cancelled := false
	if st.Delay != 0 {
		select {
		case <-ctx.Done():
			cancelled = true
		case <-tm:
		case end = <-cmd:
		}
	}
	if cancelled && st.Slow > 0 {
		time.Sleep(st.Slow)
	}
	var err error
	switch {
	case cancelled && st.NilOnCancel:
	case cancelled:
		err = ctx.Err()
	case end == "err" || end == "panic":
		err = e.NewErr("exec")
	case end == "panic-val":
		err = ErrPanicVal
	case end == "canceled":
		// for example of a context of its own
		err = context.Canceled
	}
	e.C.Ev("exec-end", "%s %v cancelled=%v", ct.Name(), err, cancelled)
	e.Mu.Lock()
	ct.Running = false
	ct.Done = err == nil
	ct.LastErr = err
	e.Mu.Unlock()
	if e.OnReturn != nil {
		e.OnReturn(ct, err, cancelled)
	}
	if !cancelled {
		switch end {
		case "panic":
			panic(err)
		case "panic-val":
			panic("panic value")
		}
	}
	return err
}

// ErrPanicVal stands for a panic with a value which is no error.
var ErrPanicVal = errors.New("any")

// SameErr reports whether got reports want.
func SameErr(got, want error) bool {
	if want == ErrPanicVal {
		return got != nil
	}
	return errors.Is(got, want)
}

// Close is called once, after the execution.
func (ct *Ctrl) Close() error {
	e := ct.E
	e.C.Ev("close", "%s", ct.Name())
	e.Mu.Lock()
	ct.Closed++
	n := ct.Closed
	run := ct.Running
	e.Mu.Unlock()
	e.C.Check(n == 1, "closed-twice", "%s was closed %d times", ct.Name(), n)
	e.C.Check(!run, "closed-running", "%s was closed while it is executed", ct.Name())
	if e.OnClose != nil {
		e.OnClose(ct)
	}
	if e.Rnd.Int(4) == 0 {
		return errors.New("close error")
	}
	return nil
}
