// Package vh is the shared scaffolding of the property harnesses: case
// accounting (what the generators really produced), tier scaling, a seeded
// replacement for the process-wide entropy source, and watchdogs.
package vh

import (
	"crypto/rand"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"math"
	"os"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- accounting

type testStat struct {
	Name        string         `json:"name"`
	Evaluations int            `json:"evaluations"`
	NonTrivial  int            `json:"nontrivial"`
	Distinct    int            `json:"distinct_nontrivial"`
	Labels      map[string]int `json:"labels"`
	Rule        string         `json:"rule"`
	Samples     []string       `json:"samples"`
	seen        map[uint64]struct{}
}

var (
	mu       sync.Mutex
	stats    = map[string]*testStat{}
	order    []string
	findings = map[string]int{}
)

// Case describes one generated case.
type Case struct {
	st  *testStat
	b   strings.Builder
	n   int
	nt  bool
	lab []string
	ok  bool
	RT  *rapid.T
}

// Desc appends to the textual description of the case (used for distinctness
// and as the written-out sample).
func (c *Case) Desc(format string, args ...any) {
	s := fmt.Sprintf(format, args...)
	if c.b.Len() < 1<<16 {
		if c.b.Len() > 0 {
			c.b.WriteString("; ")
		}
		c.b.WriteString(s)
	}
	c.n++
}

// NonTrivial marks the case as non-trivial.
func (c *Case) NonTrivial(v bool) {
	if v {
		c.nt = true
	}
}

// Label counts the case in a class.
func (c *Case) Label(l string) { c.lab = append(c.lab, l) }

// Fatalf fails the case with an oracle message.
func (c *Case) Fatalf(format string, args ...any) {
	c.RT.Helper()
	c.RT.Fatalf("PROPERTY-VIOLATED: "+format+"\n  case: %s", append(args, c.String())...)
}

func (c *Case) String() string {
	s := c.b.String()
	if len(s) > 4000 {
		s = s[:4000] + "..."
	}
	return s
}

func (c *Case) done() {
	mu.Lock()
	defer mu.Unlock()
	c.st.Evaluations++
	for _, l := range c.lab {
		c.st.Labels[l]++
	}
	if !c.nt {
		return
	}
	c.st.NonTrivial++
	h := fnv.New64a()
	io.WriteString(h, c.b.String())
	k := h.Sum64()
	if _, dup := c.st.seen[k]; dup {
		return
	}
	c.st.seen[k] = struct{}{}
	c.st.Distinct++
	if d := c.st.Distinct; len(c.st.Samples) < 3 && (d == 1 || d == 17 || d == 101) {
		s := c.b.String()
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		c.st.Samples = append(c.st.Samples, s)
	}
}

// Thorough reports whether the thorough tier runs.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// Scale returns q in the quick tier and q*mult in the thorough tier.
func Scale(q int, mult int) int {
	if Thorough() {
		return q * mult
	}
	f, err := strconv.Atoi(os.Getenv("VERIF_QUICK"))
	if err != nil || f < 1 {
		f = 1
	}
	return q * min(f, mult)
}

// Check runs a property over n (quick) / n*mult (thorough) generated cases.
func Check(t *testing.T, n, mult int, rule string, prop func(c *Case, rt *rapid.T)) {
	t.Helper()
	checks := Scale(n, mult)
	if s := os.Getenv("VERIF_SCALE"); s != "" { // development aid only
		var f float64
		fmt.Sscanf(s, "%g", &f)
		checks = int(math.Max(1, float64(checks)*f))
	}
	if err := flag.Set("rapid.checks", fmt.Sprint(checks)); err != nil {
		t.Fatalf("VERIF-HARNESS-ERROR: %v", err)
	}
	mu.Lock()
	st := stats[t.Name()]
	if st == nil {
		st = &testStat{Name: t.Name(), Labels: map[string]int{}, seen: map[uint64]struct{}{}, Rule: rule}
		stats[t.Name()] = st
		order = append(order, t.Name())
	}
	mu.Unlock()
	startWatchdog()
	rapid.Check(t, func(rt *rapid.T) {
		c := &Case{st: st, RT: rt}
		current.Store(&running{c: c, name: t.Name(), cpu: cpuSeconds()})
		defer current.Store(nil)
		prop(c, rt)
		c.done()
	})
}

// ---------------------------------------------------------------- non-termination

type running struct {
	c    *Case
	name string
	cpu  float64
}

var (
	current  atomic.Pointer[running]
	wdOnce   sync.Once
	caseCPU  = 120.0 // CPU seconds one case may burn; ordinary cases need well under one
	idleSecs = 40    // consecutive one-second snapshots without any CPU use
)

// SetCaseCPU changes the CPU budget of one case (long simulated runs).
func SetCaseCPU(s float64) { caseCPU = s }

// startWatchdog watches the running case. It reports a violation when the case
// burns an absurd amount of CPU time without finishing (an endless loop), or
// when the whole process consumes no CPU at all for a long stretch while the
// case is unfinished (everything is blocked for good). Neither depends on how
// busy the machine is: starvation shows up as runnable goroutines and some CPU.
func startWatchdog() {
	wdOnce.Do(func() {
		go func() {
			var last *running
			idle := 0
			prevCPU := cpuSeconds()
			for {
				time.Sleep(time.Second)
				r := current.Load()
				now := cpuSeconds()
				used := now - prevCPU
				prevCPU = now
				if r == nil || r != last {
					last, idle = r, 0
					continue
				}
				if now-r.cpu > caseCPU {
					wdFail(r, "an operation does not terminate (%.0f CPU seconds in one case)", now-r.cpu)
				}
				if used < 0.02 && !anyRunnable() {
					idle++
				} else {
					idle = 0
				}
				if idle >= idleSecs {
					wdFail(r, "an operation is blocked for good (no goroutine has anything to do)")
				}
			}
		}()
	})
}

func anyRunnable() bool {
	for _, g := range strings.Split(GoroutineDump(), "\n\n") {
		head := g
		if i := strings.IndexByte(g, '\n'); i >= 0 {
			head = g[:i]
		}
		if strings.Contains(g, "startWatchdog") {
			continue
		}
		if strings.Contains(head, "[runnable") || strings.Contains(head, "[running") || strings.Contains(head, "[sleep") || strings.Contains(head, "[syscall") {
			return true
		}
	}
	return false
}

func wdFail(r *running, format string, args ...any) {
	fmt.Printf("PROPERTY-VIOLATED: "+format+" in %s\n  case: %s\n%s\nFAIL\n", append(args, r.name, r.c.String(), GoroutineDump())...)
	os.Exit(1)
}

// Finding records that a listed known finding was reproduced.
func Finding(key string) {
	mu.Lock()
	findings[key]++
	mu.Unlock()
}

// Main is the TestMain of every harness.
func Main(m *testing.M) {
	flag.Parse()
	code := m.Run()
	if p := os.Getenv("VERIF_STATS"); p != "" {
		mu.Lock()
		var list []*testStat
		for _, n := range order {
			list = append(list, stats[n])
		}
		out, _ := json.MarshalIndent(map[string]any{"tests": list, "findings": findings}, "", " ")
		mu.Unlock()
		_ = os.WriteFile(p, out, 0o644)
	}
	os.Exit(code)
}

// ---------------------------------------------------------------- randomness

// splitmix64 stream as an io.Reader: a deterministic stand-in for the entropy
// device, safe for concurrent use.
type stream struct {
	s atomic.Uint64
}

func (r *stream) next() uint64 {
	z := r.s.Add(0x9e3779b97f4a7c15)
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (r *stream) Read(p []byte) (int, error) {
	for i := 0; i < len(p); {
		v := r.next()
		for k := 0; k < 8 && i < len(p); k++ {
			p[i] = byte(v)
			v >>= 8
			i++
		}
	}
	return len(p), nil
}

var (
	osReader = rand.Reader
	shared   = &stream{}
)

// SeedEntropy makes the code under test draw its randomness from a stream
// that is a function of seed.
func SeedEntropy(seed uint64) {
	shared.s.Store(seed*0x9e3779b97f4a7c15 + 0x1234567)
	rand.Reader = shared
}

// scripted yields, for the first len(script) 8-byte reads, float53 values from
// the script; afterwards it continues with the seeded stream.
type scripted struct {
	mu     sync.Mutex
	script []float64
	i      int
	base   *stream
}

func (s *scripted) Read(p []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if len(p) == 8 && s.i < len(s.script) {
		u := uint64(s.script[s.i] * (1 << 53))
		if u > (1<<53)-1 {
			u = (1 << 53) - 1
		}
		s.i++
		for k := 7; k >= 0; k-- {
			p[k] = byte(u)
			u >>= 8
		}
		return 8, nil
	}
	return s.base.Read(p)
}

// ScriptEntropy makes the next uniform draws of the code under test return the
// given values in [0,1), then continues with the seeded stream.
func ScriptEntropy(script []float64, seed uint64) {
	b := &stream{}
	b.s.Store(seed*0x9e3779b97f4a7c15 + 0x7654321)
	rand.Reader = &scripted{script: script, base: b}
}

// Seed64 draws a seed for SeedEntropy.
func Seed64(rt *rapid.T, name string) uint64 { return rapid.Uint64().Draw(rt, name) }

// ---------------------------------------------------------------- watchdogs

func cpuSeconds() float64 {
	var ru syscall.Rusage
	if err := syscall.Getrusage(syscall.RUSAGE_SELF, &ru); err != nil {
		return 0
	}
	f := func(t syscall.Timeval) float64 { return float64(t.Sec) + float64(t.Usec)/1e6 }
	return f(ru.Utime) + f(ru.Stime)
}

// Terminates runs fn, which is expected to return after a handful of
// instructions, and returns false only if the process burnt cpuBudget seconds
// of CPU time in it without returning (wall-clock time plays no part, so a busy
// machine cannot cause it). A runaway goroutine cannot be stopped, so the
// caller must fail at once.
func Terminates(cpuBudget float64, fn func()) (ok bool, panicked any) {
	done := make(chan any, 1)
	go func() {
		defer func() { done <- recover() }()
		fn()
	}()
	start := cpuSeconds()
	tick := time.NewTimer(20 * time.Millisecond)
	defer tick.Stop()
	for {
		select {
		case p := <-done:
			return true, p
		case <-tick.C:
			if cpuSeconds()-start > cpuBudget {
				return false, nil
			}
			tick.Reset(50 * time.Millisecond)
		}
	}
}

// GoroutineDump returns all stacks.
func GoroutineDump() string {
	buf := make([]byte, 1<<20)
	return string(buf[:runtime.Stack(buf, true)])
}

// Blocked runs workers concurrently and reports whether they reached a state
// in which every unfinished worker sits in a lock acquisition and nothing
// moves any more: a deadlock, decided on the goroutine states rather than on
// elapsed time alone (several consecutive identical snapshots are required).
func Blocked(workers ...func()) (dead bool, dump string, panicked any) {
	var wg sync.WaitGroup
	var left atomic.Int64
	var pmu sync.Mutex
	left.Store(int64(len(workers)))
	allDone := make(chan struct{})
	for _, w := range workers {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer left.Add(-1)
			defer func() {
				if p := recover(); p != nil {
					pmu.Lock()
					panicked = p
					pmu.Unlock()
				}
			}()
			verifWorker(w)
		}()
	}
	go func() { wg.Wait(); close(allDone) }()
	prev, same := "", 0
	for {
		select {
		case <-allDone:
			return false, "", panicked
		case <-time.After(250 * time.Millisecond):
			d := GoroutineDump()
			st, locked := workerStates(d)
			n := int(left.Load())
			if n > 0 && locked == n && st == prev {
				same++
			} else {
				same = 0
			}
			prev = st
			if same >= 40 { // ten seconds of identical all-blocked snapshots
				return true, d, nil
			}
		}
	}
}

//go:noinline
func verifWorker(w func()) { w() }

func workerStates(dump string) (string, int) {
	var keep []string
	locked := 0
	for _, g := range strings.Split(dump, "\n\n") {
		if !strings.Contains(g, "vh.verifWorker") {
			continue
		}
		head := g
		if i := strings.IndexByte(g, '\n'); i >= 0 {
			head = g[:i]
		}
		if strings.Contains(head, "sync.") || strings.Contains(head, "semacquire") {
			locked++
		}
		// strip the wait duration, keep frames
		body := ""
		for _, l := range strings.Split(g, "\n") {
			if strings.HasPrefix(l, "\t") {
				body += l + "|"
			}
		}
		keep = append(keep, body)
	}
	sort.Strings(keep)
	return strings.Join(keep, "\n"), locked
}

// ---------------------------------------------------------------- generators

const TwoPi = 2 * math.Pi

// AnyPhase generates finite phases: ordinary angles, special angles, wrap
// boundaries, several turns away, and very large magnitudes.
func AnyPhase() *rapid.Generator[float64] {
	return rapid.Custom(func(t *rapid.T) float64 {
		switch Pick(t, "phaseKind", 10) {
		case 0, 1, 2, 3:
			return UF(0, TwoPi).Draw(t, "phase")
		case 4:
			k := rapid.IntRange(-24, 48).Draw(t, "k12")
			return float64(k) * math.Pi / 12
		case 5:
			k := rapid.IntRange(-4, 8).Draw(t, "kpi")
			e := rapid.Float64Range(-1e-9, 1e-9).Draw(t, "eps")
			return float64(k)*math.Pi/2 + e
		case 6, 7:
			return UF(-8*math.Pi, 8*math.Pi).Draw(t, "phase")
		case 8:
			return UF(-1e6, 1e6).Draw(t, "phase")
		default:
			return UF(-1e12, 1e12).Draw(t, "phase")
		}
	})
}

// UnitPhase generates phases in [0, 2π), with boundary emphasis.
func UnitPhase() *rapid.Generator[float64] {
	return rapid.Custom(func(t *rapid.T) float64 {
		switch Pick(t, "kind", 6) {
		case 0:
			return float64(rapid.IntRange(0, 23).Draw(t, "k")) * math.Pi / 12
		case 1:
			return rapid.Float64Range(0, 1e-3).Draw(t, "p")
		case 2:
			return TwoPi - rapid.Float64Range(1e-12, 1e-3).Draw(t, "p")
		default:
			return UF(0, TwoPi-1e-9).Draw(t, "p")
		}
	})
}

// Unit generates a value of [0,1] with the end points and round values
// over-represented.
func Unit() *rapid.Generator[float64] {
	return rapid.Custom(func(t *rapid.T) float64 {
		switch Pick(t, "kind", 6) {
		case 0:
			return float64(rapid.IntRange(0, 20).Draw(t, "k20")) / 20
		case 1:
			return float64(rapid.IntRange(0, 1000).Draw(t, "k1000")) / 1000
		default:
			return UF(0, 1).Draw(t, "u")
		}
	})
}

// ---------------------------------------------------------------- reference maths

// Wrap is the reference wrap to [0, 2π).
func Wrap(x float64) float64 {
	y := math.Mod(x, TwoPi)
	if y < 0 {
		y += TwoPi
	}
	if y >= TwoPi {
		y = 0
	}
	return y
}

// CircDist is the reference unsigned circular distance, in [0, π].
func CircDist(a, b float64) float64 {
	d := math.Abs(Wrap(a) - Wrap(b))
	if d > math.Pi {
		d = TwoPi - d
	}
	return d
}

// SignedDiff is the reference signed shortest rotation from b to a, in (-π, π].
func SignedDiff(a, b float64) float64 {
	d := Wrap(a) - Wrap(b)
	if d > math.Pi {
		d -= TwoPi
	}
	if d <= -math.Pi {
		d += TwoPi
	}
	return d
}

// Order is the reference Kuramoto order parameter.
func Order(phases []float64) float64 {
	if len(phases) == 0 {
		return 0
	}
	var re, im float64
	for _, p := range phases {
		re += math.Cos(p)
		im += math.Sin(p)
	}
	return math.Hypot(re, im) / float64(len(phases))
}

// Near reports |a-b| <= tol (equal infinities count as near).
func Near(a, b, tol float64) bool {
	if a == b {
		return true
	}
	return math.Abs(a-b) <= tol
}

// RelNear is Near with a relative component.
func RelNear(a, b, tol float64) bool {
	return Near(a, b, tol*(1+math.Max(math.Abs(a), math.Abs(b))))
}

// Must turns an unexpected harness condition into an error exit.
func Must(ok bool, format string, args ...any) {
	if !ok {
		fmt.Printf("VERIF-HARNESS-ERROR: "+format+"\n", args...)
		os.Exit(3)
	}
}

func mix(z uint64) uint64 {
	z += 0x9e3779b97f4a7c15
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// UF generates floats of [lo, hi]: half of them uniformly distributed, half from
// the library's generator, which favours simple and extreme values.
func UF(lo, hi float64) *rapid.Generator[float64] {
	lib := rapid.Float64Range(lo, hi)
	return rapid.Custom(func(t *rapid.T) float64 {
		if rapid.Bool().Draw(t, "uniform") {
			u := float64(mix(rapid.Uint64().Draw(t, "bits"))>>11) / (1 << 53)
			return lo + (hi-lo)*u
		}
		return lib.Draw(t, "f")
	})
}

// UI generates ints of [lo, hi], half of them uniformly.
func UI(lo, hi int) *rapid.Generator[int] {
	lib := rapid.IntRange(lo, hi)
	return rapid.Custom(func(t *rapid.T) int {
		if rapid.Bool().Draw(t, "uniform") {
			return lo + int(mix(rapid.Uint64().Draw(t, "bits"))%uint64(hi-lo+1))
		}
		return lib.Draw(t, "i")
	})
}

// Pick draws a uniformly distributed choice of [0, n); it shrinks towards 0.
func Pick(t *rapid.T, name string, n int) int {
	return int((mix(rapid.Uint64().Draw(t, name)) - mix(0)) % uint64(n))
}

// OneIn is true with probability 1/n; it shrinks towards false.
func OneIn(t *rapid.T, name string, n int) bool { return Pick(t, name, n) == n-1 }

// From draws uniformly from a list; it shrinks towards the first element.
func From[T any](t *rapid.T, name string, xs ...T) T { return xs[Pick(t, name, len(xs))] }

// Bubble runs fn in a synctest bubble (fake clock) and re-raises on the caller's
// goroutine whatever fn panicked with, so that oracle failures inside the bubble
// reach the property engine.
func Bubble(t *testing.T, fn func()) {
	var p any
	func() {
		defer func() {
			// the clock stops when fn has ended: whoever still waits then is stuck
			if q := recover(); q != nil && p == nil {
				if m := fmt.Sprint(q); strings.Contains(m, "deadlock") {
					q = fmt.Sprintf("PROPERTY-VIOLATED: goroutines never ended or everything is blocked (%s)\n%s", m, GoroutineDump())
				}
				panic(q)
			}
		}()
		synctest.Test(t, func(*testing.T) {
			defer func() {
				if p = recover(); p != nil {
					time.Sleep(time.Minute) // let what fn's deferred calls ended come to its end
				}
			}()
			fn()
		})
	}()
	// Distinct lines, because the engine tells failures apart by where they were
	// raised: running out of (shrunk) data is no failure to shrink towards.
	switch {
	case p == nil:
	case fmt.Sprintf("%T", p) == "rapid.invalidData":
		panic(p)
	default:
		panic(p)
	}
}

// Len draws a length in [lo, hi], and now and then one of up to long.
func Len(rt *rapid.T, label string, lo, hi, long int) int {
	n := rapid.IntRange(lo, hi).Draw(rt, label)
	if OneIn(rt, label+"-long", 40) {
		n = rapid.IntRange(hi, long).Draw(rt, label)
	}
	return n
}
