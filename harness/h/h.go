// Package h is the case runner shared by all checks: it enumerates the fixed case list of a check,
// runs each case inside a synctest bubble (virtual time, exact quiescence, deadlock and leak
// detection), counts what the monitors observed and records violations with a replay recipe.
package h

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"math/rand"
	"os"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	"github.com/sirupsen/logrus"
)

// Scenario is a family of cases.
type Scenario struct {
	// Name is the scenario name.
	Name string
	// Quick and Thorough are the number of seeds per tier.
	Quick, Thorough int
	// Fn runs one case.
	Fn func(c *C)
	// Parallel runs the case outside a bubble, in real time.
	Parallel bool
	// Par is a marker for the rule text.
	Rule string
}

// Violation is a recorded violation.
type Violation struct {
	Scenario string   `json:"scenario"`
	Seed     int64    `json:"seed"`
	Sig      string   `json:"sig"`
	Msg      string   `json:"msg"`
	Trace    []string `json:"trace,omitempty"`
}

// Result is the result of one shard.
type Result struct {
	Cases      map[string]int      `json:"cases"`
	Events     map[string]int64    `json:"events"`
	Sigs       map[string][]uint64 `json:"sigs"`
	Evals      int64               `json:"evals"`
	Violations []Violation         `json:"violations"`
	Samples    []string            `json:"samples"`
	Done       bool                `json:"done"`
	Skipped    map[string]int      `json:"skipped,omitempty"`
	Incon      []string            `json:"inconclusive"`
}

var (
	resMtx  sync.Mutex
	res     = Result{Cases: map[string]int{}, Events: map[string]int64{}, Sigs: map[string][]uint64{}}
	outPath = os.Getenv("VERIF_OUT")
	curCase atomic.Pointer[C]
)

func flush() {
	if outPath == "" {
		return
	}
	b, _ := json.Marshal(&res)
	_ = os.WriteFile(outPath+".tmp", b, 0o644)
	_ = os.Rename(outPath+".tmp", outPath)
}

// C is a case.
type C struct {
	T        *testing.T
	Scenario string
	Seed     int64
	R        *rand.Rand
	Le       *logrus.Entry

	mtx    sync.Mutex
	events map[string]int64
	evals  int64
	nEv    int64
	hash   uint64
	trace  []string
	fails  map[string]bool
	failed bool
	over   bool
	start  time.Time
	cpu0   time.Duration
}

// MaxEvents bounds the number of monitor events per case; exceeding it is a livelock.
const MaxEvents = 300000

type abort struct{}

// Abort ends the case (after a Fail).
func (c *C) Abort() { panic(abort{}) }

// Fail records a violation. sig is a short stable identifier of what is wrong.
func (c *C) Fail(sig, format string, args ...any) {
	msg := fmt.Sprintf(format, args...)
	c.mtx.Lock()
	dup := c.fails[sig]
	c.fails[sig] = true
	c.failed = true
	tr := append([]string(nil), c.trace...)
	c.mtx.Unlock()
	if dup {
		return
	}
	if len(tr) > 400 && os.Getenv("VERIF_VERBOSE") == "" {
		tr = tr[len(tr)-400:]
	}
	resMtx.Lock()
	if len(res.Violations) < 40 {
		res.Violations = append(res.Violations, Violation{Scenario: c.Scenario, Seed: c.Seed, Sig: sig, Msg: msg, Trace: tr})
	}
	flush()
	resMtx.Unlock()
	if os.Getenv("VERIF_VERBOSE") != "" {
		fmt.Fprintf(os.Stderr, "FAIL %s:%d %s: %s\n", c.Scenario, c.Seed, sig, msg)
	}
}

// Failed reports whether the case has failed.
func (c *C) Failed() bool {
	c.mtx.Lock()
	defer c.mtx.Unlock()
	return c.failed
}

// Check records an evaluation of an oracle.
func (c *C) Check(ok bool, sig, format string, args ...any) bool {
	c.mtx.Lock()
	c.evals++
	c.mtx.Unlock()
	if !ok {
		c.Fail(sig, format, args...)
	}
	return ok
}

// Ev records an observed event of the given kind (counted) with detail (part of the trace and the
// order signature).
func (c *C) Ev(kind, format string, args ...any) {
	d := kind
	if format != "" {
		d = kind + " " + fmt.Sprintf(format, args...)
	}
	c.mtx.Lock()
	c.events[kind]++
	c.nEv++
	f := fnv.New64a()
	_, _ = f.Write([]byte(d))
	c.hash = c.hash*1099511628211 + f.Sum64()
	if len(c.trace) >= 3000 {
		c.trace = append([]string(nil), c.trace[1500:]...)
	}
	c.trace = append(c.trace, d)
	over := c.nEv > MaxEvents && !c.over
	if over {
		c.over = true
	}
	c.mtx.Unlock()
	if over {
		c.Fail("livelock", "more than %d events observed in one case", MaxEvents)
		finish(c)
		resMtx.Lock()
		flush()
		os.Exit(3)
	}
}

// Int returns a random int below n.
func (c *C) Int(n int) int { return c.R.Intn(n) }

// P returns true with probability pct/100.
func (c *C) P(pct int) bool { return c.R.Intn(100) < pct }

// LockedRand is a rand usable from any goroutine of a case.
type LockedRand struct {
	mtx sync.Mutex
	r   *rand.Rand
}

// NewRand derives a locked rand.
func (c *C) NewRand() *LockedRand { return &LockedRand{r: rand.New(rand.NewSource(c.R.Int63()))} }

// Int returns a random int below n.
func (l *LockedRand) Int(n int) int {
	l.mtx.Lock()
	defer l.mtx.Unlock()
	return l.r.Intn(n)
}

// Perm returns a random permutation.
func (l *LockedRand) Perm(n int) []int {
	l.mtx.Lock()
	defer l.mtx.Unlock()
	return l.r.Perm(n)
}

// Wait waits for quiescence (bubbles only).
func (c *C) Wait() { synctest.Wait() }

// Sleep sleeps.
func (c *C) Sleep(d time.Duration) { time.Sleep(d) }

func mix(a, b int64) int64 {
	x := uint64(a)*0x9E3779B97F4A7C15 ^ uint64(b)*0xBF58476D1CE4E5B9
	x ^= x >> 31
	x *= 0x94D049BB133111EB
	x ^= x >> 29
	return int64(x & 0x7fffffffffffffff)
}

func nameHash(s string) int64 {
	f := fnv.New64a()
	_, _ = f.Write([]byte(s))
	return int64(f.Sum64() & 0x7fffffffffffffff)
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	_ = syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

func newCase(t *testing.T, sc *Scenario, seed int64) *C {
	lg := logrus.New()
	lg.SetOutput(io.Discard)
	if os.Getenv("VERIF_LOG") != "" {
		lg.SetOutput(os.Stderr)
		lg.SetLevel(logrus.DebugLevel)
	}
	c := &C{T: t, Scenario: sc.Name, Seed: seed, R: rand.New(rand.NewSource(mix(seed, nameHash(sc.Name)))),
		Le: logrus.NewEntry(lg), events: map[string]int64{}, fails: map[string]bool{}, start: time.Now(), cpu0: cpuTime()}
	lg.AddHook(faultHook{c})
	return c
}

// faultHook reports faults (nil dereferences and the like) which the code
// under test recovered from and logged: the harness panics with its own values.
type faultHook struct{ c *C }

func (faultHook) Levels() []logrus.Level {
	return []logrus.Level{logrus.ErrorLevel, logrus.WarnLevel}
}

func (f faultHook) Fire(e *logrus.Entry) error {
	err, _ := e.Data[logrus.ErrorKey].(error)
	var re runtime.Error
	if err != nil && errors.As(err, &re) {
		f.c.Fail("fault", "fault recovered from and logged (%s): %v", e.Message, err)
	}
	return nil
}

func (c *C) runFn(fn func(c *C)) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(abort); ok {
				return
			}
			buf := make([]byte, 16384)
			buf = buf[:runtime.Stack(buf, false)]
			c.Fail("panic", "panic in case: %v\n%s", e, buf)
		}
	}()
	fn(c)
}

func finish(c *C) {
	c.mtx.Lock()
	defer c.mtx.Unlock()
	resMtx.Lock()
	defer resMtx.Unlock()
	res.Cases[c.Scenario]++
	for k, v := range c.events {
		res.Events[k] += v
	}
	res.Evals += c.evals
	res.Sigs[c.Scenario] = append(res.Sigs[c.Scenario], c.hash)
	if len(res.Samples) < 4 && len(c.trace) > 3 && res.Cases[c.Scenario] == 1 {
		tr := c.trace
		if len(tr) > 14 {
			tr = tr[:14]
		}
		res.Samples = append(res.Samples, fmt.Sprintf("%s:%d %s", c.Scenario, c.Seed, strings.Join(tr, " | ")))
	}
}

func runCase(t *testing.T, sc *Scenario, seed int64) {
	c := newCase(t, sc, seed)
	curCase.Store(c)
	if p := os.Getenv("VERIF_OUT"); p != "" {
		_ = os.WriteFile(p+".cur", []byte(fmt.Sprintf("%s:%d", sc.Name, seed)), 0o644)
	}
	// a subtest: a failed bubble or a race report must not end the other cases
	t.Run(strconv.FormatInt(seed, 10), func(t *testing.T) {
		c.T = t
		if sc.Parallel {
			c.runFn(sc.Fn)
			return
		}
		func() {
			defer func() {
				if e := recover(); e != nil {
					if !c.Failed() {
						c.Fail("stuck-or-leak", "%v\n%s", e, bubbleStacks())
					}
				}
			}()
			synctest.Test(t, func(t *testing.T) {
				c.T = t
				c.runFn(sc.Fn)
			})
		}()
	})
	curCase.Store(nil)
	finish(c)
}

var goRe = regexp.MustCompile(`(?m)^goroutine (\d+) (?:gp=\S+ m=\S+ (?:mp=\S+ )?)?\[([^\]]*)\]:`)

func allStacks() string {
	buf := make([]byte, 8<<20)
	return string(buf[:runtime.Stack(buf, true)])
}

func bubbleStacks() string {
	var out []string
	for _, g := range strings.Split(allStacks(), "\n\n") {
		if strings.Contains(g, "synctest bubble") && !strings.Contains(g, "[running") {
			out = append(out, g)
		}
	}
	if len(out) > 12 {
		out = out[:12]
	}
	return strings.Join(out, "\n\n")
}

// blockedAll reports whether no goroutine except the caller can run.
func blockedAll() (bool, string, string) {
	st := allStacks()
	var ids []string
	ok := true
	first := true
	for _, g := range strings.Split(st, "\n\n") {
		m := goRe.FindStringSubmatch(g)
		if m == nil {
			continue
		}
		if first {
			first = false // the caller
			continue
		}
		if strings.Contains(g, "verifharness/h.watchdog") || strings.Contains(g, "os/signal") {
			continue
		}
		state := m[2]
		if i := strings.Index(state, ","); i > 0 {
			state = state[:i]
		}
		state = strings.TrimSuffix(strings.TrimSuffix(state, " (durable)"), " (scan)")
		inBubble := strings.Contains(m[2], "synctest bubble")
		switch {
		case strings.HasPrefix(state, "running"), strings.HasPrefix(state, "runnable"), strings.HasPrefix(state, "syscall"), strings.HasPrefix(state, "IO wait"):
			ok = false
		case strings.HasPrefix(state, "sleep") && !inBubble:
			ok = false
		}
		ids = append(ids, m[1]+state)
	}
	sort.Strings(ids)
	return ok, strings.Join(ids, ","), st
}

// Settle waits in real time until cond holds. It returns false when it is proved that cond never
// will (nothing else can run); a wait that takes too long without proof makes the case inconclusive.
func (c *C) Settle(cond func() bool) bool {
	start := time.Now()
	for n := 0; ; n++ {
		if cond() {
			return true
		}
		time.Sleep(time.Duration(min(n+1, 20)) * 100 * time.Microsecond)
		el := time.Since(start)
		if el > 5*time.Second && n%500 == 0 {
			ok1, id1, _ := blockedAll()
			time.Sleep(2 * time.Second)
			ok2, id2, _ := blockedAll()
			if ok1 && ok2 && id1 == id2 && !cond() {
				return false
			}
		}
		if el > 120*time.Second {
			resMtx.Lock()
			res.Incon = append(res.Incon, fmt.Sprintf("%s:%d did not settle", c.Scenario, c.Seed))
			flush()
			resMtx.Unlock()
			c.Abort()
		}
	}
}

// watchdog proves deadlocks the bubble cannot see (goroutines blocked on a mutex).
func watchdog(limit time.Duration) {
	for {
		time.Sleep(time.Second)
		c := curCase.Load()
		if c == nil || time.Since(c.start) < limit {
			continue
		}
		ok1, id1, _ := blockedAll()
		time.Sleep(3 * time.Second)
		ok2, id2, st := blockedAll()
		if curCase.Load() != c {
			continue
		}
		if ok1 && ok2 && id1 == id2 {
			if len(st) > 20000 {
				st = st[:20000]
			}
			c.Fail("deadlock", "no goroutine can run (%d bytes of stacks)\n%s", len(st), st)
			resMtx.Lock()
			flush()
			os.Exit(3)
		}
		if cpuTime()-c.cpu0 > 5*limit || time.Since(c.start) > 8*limit {
			if cpuTime()-c.cpu0 > 3*limit {
				if len(st) > 20000 {
					st = st[:20000]
				}
				c.Fail("livelock", "case burned %v of CPU time without finishing\n%s", cpuTime()-c.cpu0, st)
			} else {
				resMtx.Lock()
				res.Incon = append(res.Incon, fmt.Sprintf("%s:%d did not finish in time", c.Scenario, c.Seed))
				flush()
				resMtx.Unlock()
				_, _ = os.Stderr.WriteString(st)
			}
			resMtx.Lock()
			flush()
			os.Exit(3)
		}
	}
}

func envInt(n string, d int) int {
	if v, err := strconv.Atoi(os.Getenv(n)); err == nil {
		return v
	}
	return d
}

// Run runs the check.
func Run(t *testing.T, scns []Scenario) {
	base := int64(envInt("VERIF_SEED", 1))
	tier := os.Getenv("VERIF_TIER")
	shard, shards := envInt("VERIF_SHARD", 0), envInt("VERIF_SHARDS", 1)
	only := os.Getenv("VERIF_CASE") // scenario:seed or scenario
	go watchdog(time.Duration(envInt("VERIF_CASE_LIMIT", 40)) * time.Second)
	// reports of panics recovered by the code under test go to stderr: keep them out of the way
	n := 0
	start, soft := time.Now(), time.Duration(envInt("VERIF_SOFT", 0))*time.Second
	for i := range scns {
		sc := &scns[i]
		ran := 0
		cnt := sc.Quick
		if tier == "thorough" {
			cnt = sc.Thorough
			if cnt == 0 {
				cnt = sc.Quick * 10
			}
		}
		if v := envInt("VERIF_COUNT", 0); v != 0 {
			cnt = v
		}
		if v := envInt("VERIF_SCALE", 0); v != 0 {
			cnt = max(1, cnt*v/1000)
		}
		if only != "" {
			nm, sd, hasSeed := strings.Cut(only, ":")
			if nm != sc.Name {
				continue
			}
			if hasSeed {
				s, _ := strconv.ParseInt(sd, 10, 64)
				runCase(t, sc, s)
				continue
			}
		}
		for k := 0; k < cnt; k++ {
			n++
			if n%shards != shard {
				continue
			}
			// on a slow machine: explore less, but something of every scenario
			if soft != 0 && ran != 0 && time.Since(start) > soft {
				resMtx.Lock()
				if res.Skipped == nil {
					res.Skipped = make(map[string]int)
				}
				res.Skipped[sc.Name]++
				resMtx.Unlock()
				continue
			}
			ran++
			seed := base*1000003 + int64(k)
			runCase(t, sc, seed)
			resMtx.Lock()
			stop := len(res.Violations) >= envInt("VERIF_STOP", 12)
			resMtx.Unlock()
			if stop {
				break
			}
		}
	}
	resMtx.Lock()
	res.Done = true
	flush()
	resMtx.Unlock()
}

// SortedKeys returns sorted keys.
func SortedKeys[K ~string | ~int | ~uint32, V any](m map[K]V) []K {
	var ks []K
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	return ks
}

// Safe runs fn and returns a recovered panic as a string.
func Safe(fn func()) (p string) {
	defer func() {
		if e := recover(); e != nil {
			var b bytes.Buffer
			buf := make([]byte, 8192)
			buf = buf[:runtime.Stack(buf, false)]
			fmt.Fprintf(&b, "%v\n%s", e, buf)
			p = b.String()
		}
	}()
	fn()
	return ""
}
