// C12: convergence history monitors (both copies), against a model.
package c12

import (
	"fmt"
	"math"
	"sync/atomic"
	"testing"
	"time"

	"github.com/carlisia/bio-adapt/emerge/core"
	"github.com/carlisia/bio-adapt/emerge/monitoring"
	iem "github.com/carlisia/bio-adapt/internal/emerge"
	"github.com/carlisia/bio-adapt/zzverif/vh"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { vh.Main(m) }

type conv interface {
	Record(float64)
	IsConverged() bool
	ConvergenceTime() time.Duration
	CurrentCoherence() float64
	ConvergenceRate() float64
	Stability() float64
	PredictConvergenceTime() time.Duration
	History() []float64
	Statistics() map[string]any
	Reset()
}

type hist interface {
	RecordSample(float64)
	History() []float64
	Latest() float64
	Average() float64
}

func newConv(which int, target core.State, thr float64) conv {
	if which == 0 {
		return monitoring.NewConvergence(target, thr)
	}
	return iem.NewConvergenceMonitor(target, thr)
}

func newHist(which int) hist {
	if which == 0 {
		return monitoring.New()
	}
	return iem.NewMonitor()
}

func slope(h []float64) float64 {
	if len(h) < 2 {
		return 0
	}
	if len(h) > 10 {
		h = h[len(h)-10:]
	}
	n := float64(len(h))
	var mx, my float64
	for i, y := range h {
		mx += float64(i) / n
		my += y / n
	}
	var num, den float64
	for i, y := range h {
		num += (float64(i) - mx) * (y - my)
		den += (float64(i) - mx) * (float64(i) - mx)
	}
	return num / den
}

func std(h []float64) float64 {
	n := float64(len(h))
	var m, v float64
	for _, y := range h {
		m += y / n
	}
	for _, y := range h {
		v += (y - m) * (y - m) / n
	}
	return math.Sqrt(v)
}

func TestConvergenceModel(t *testing.T) {
	vh.Check(t, 2500, 30, "1-120 recordings (random walks, ramps, plateaus, threshold touches) with generated pauses and resets; non-trivial = convergence was reached and lost again, or more than 20 samples", func(c *vh.Case, rt *rapid.T) {
		which := vh.Pick(rt, "copy", 2)
		thr := vh.From(rt, "thrk", vh.UF(0.05, 0.99).Draw(rt, "thr"), 0.9, 0.5)
		n := vh.Len(rt, "n", 0, 120, 900)
		kind := vh.Pick(rt, "kind", 5)
		type op struct {
			v     float64
			wait  time.Duration
			reset bool
		}
		ops := make([]op, n)
		x := vh.Unit().Draw(rt, "x0")
		for i := range ops {
			switch kind {
			case 0:
				x = vh.Unit().Draw(rt, "x")
			case 1:
				x = math.Min(1, math.Max(0, x+vh.UF(-0.1, 0.12).Draw(rt, "d")))
			case 2:
				x = vh.From(rt, "t", thr, math.Nextafter(thr, 0), math.Nextafter(thr, 1), 0.0, 1.0)
			case 3:
				x = math.Min(1, x+0.01)
			}
			ops[i] = op{v: x, wait: time.Duration(rapid.IntRange(0, 500).Draw(rt, "w")) * time.Millisecond, reset: vh.OneIn(rt, "rs", 60)}
		}
		c.Desc("copy %d thr %v kind %d n %d ops %v", which, thr, kind, n, ops)
		lost, reached := false, false
		vh.Bubble(t, func() {
			m := newConv(which, core.State{Coherence: thr}, thr)
			var h []float64
			start := time.Now()
			var at *time.Time
			check := func(i int) {
				conv := len(h) > 0 && h[len(h)-1] >= thr
				if m.IsConverged() != conv {
					c.Fatalf("op %d: converged=%v with last sample %v and threshold %v", i, !conv, h[len(h)-1:], thr)
				}
				wantT := time.Duration(0)
				if conv {
					wantT = at.Sub(start)
				}
				if m.ConvergenceTime() != wantT {
					c.Fatalf("op %d: convergence time %v, want %v", i, m.ConvergenceTime(), wantT)
				}
				last := 0.0
				if len(h) > 0 {
					last = h[len(h)-1]
				}
				if m.CurrentCoherence() != last {
					c.Fatalf("op %d: current coherence %v, last recorded %v", i, m.CurrentCoherence(), last)
				}
				r := slope(h)
				if !vh.Near(m.ConvergenceRate(), r, 1e-9) {
					c.Fatalf("op %d: rate %v, slope of the last samples is %v", i, m.ConvergenceRate(), r)
				}
				st := 1.0
				if len(h) >= 2 {
					st = math.Exp(-10 * std(h[max(0, len(h)-20):]))
				}
				if !vh.Near(m.Stability(), st, 1e-9) {
					c.Fatalf("op %d: stability %v, want %v", i, m.Stability(), st)
				}
				p := m.PredictConvergenceTime()
				switch {
				case p < 0:
					c.Fatalf("op %d: predicted convergence time %v is negative", i, p)
				case conv || r < -1e-12 || thr-last <= 0:
					if p != 0 {
						c.Fatalf("op %d: predicts %v although converged (%v) or not approaching (rate %v)", i, p, conv, r)
					}
				case r > 1e-9:
					if want := (thr - last) / r * 1e8; !vh.RelNear(float64(p), want, 1e-5*math.Max(1, 1e-9/r)+1e-6) && math.Abs(float64(p)-want) > 2 {
						c.Fatalf("op %d: predicts %v, want %v (remaining %v at %v per sample)", i, p, time.Duration(want), thr-last, r)
					}
				}
				got := m.History()
				if len(got) != len(h) {
					c.Fatalf("op %d: history has %d entries, recorded %d", i, len(got), len(h))
				}
				for j := range h {
					if got[j] != h[j] {
						c.Fatalf("op %d: history[%d]=%v, recorded %v", i, j, got[j], h[j])
					}
				}
				for j := range got {
					got[j] = -7 // must not reach the monitor
				}
				s := m.Statistics()
				mx, mn := 0.0, 1.0
				for _, y := range h {
					mx, mn = math.Max(mx, y), math.Min(mn, y)
				}
				exp := map[string]any{"samples": len(h), "current_coherence": last, "max": mx, "min": mn, "converged": conv, "target_coherence": thr}
				for k, v := range exp {
					if s[k] != v {
						c.Fatalf("op %d: statistics %q = %v, want %v", i, k, s[k], v)
					}
				}
				num := func(k string, want, tol float64) {
					v, ok := s[k].(float64)
					if !ok || !vh.Near(v, want, tol) {
						c.Fatalf("op %d: statistics %q = %v, want %v", i, k, s[k], want)
					}
				}
				num("convergence_rate", r, 1e-9)
				num("stability", st, 1e-9)
				if len(h) > 0 {
					sum := 0.0
					for _, y := range h {
						sum += y
					}
					num("mean", sum/float64(len(h)), 1e-9)
					num("std_dev", std(h), 1e-7)
				}
				if conv {
					num("convergence_time", wantT.Seconds(), 1e-9)
				} else if _, has := s["convergence_time"]; has {
					c.Fatalf("op %d: statistics report a convergence time without convergence", i)
				}
				if p > 0 {
					num("predicted_convergence_time", p.Seconds(), 1e-6)
				} else if _, has := s["predicted_convergence_time"]; has {
					c.Fatalf("op %d: statistics predict a convergence time, the monitor none", i)
				}
			}
			check(-1)
			for i, o := range ops {
				time.Sleep(o.wait)
				if o.reset {
					m.Reset()
					h, at, start = nil, nil, time.Now()
					check(i)
				}
				m.Record(o.v)
				h = append(h, o.v)
				if o.v >= thr {
					if at == nil {
						now := time.Now()
						at = &now
					}
					reached = true
				} else {
					lost = lost || at != nil
					at = nil
				}
				if i%7 == 0 || i >= n-3 || kind == 2 {
					check(i)
				} else if m.IsConverged() != (o.v >= thr) {
					c.Fatalf("op %d: converged=%v after %v with threshold %v", i, m.IsConverged(), o.v, thr)
				}
			}
		})
		c.NonTrivial((lost && reached) || n > 20)
	})
}

func TestBoundedHistory(t *testing.T) {
	vh.Check(t, 1500, 30, "0-350 samples; non-trivial = more than 100", func(c *vh.Case, rt *rapid.T) {
		which := vh.Pick(rt, "copy", 2)
		n := vh.From(rt, "nk", rapid.IntRange(0, 350).Draw(rt, "n"), 99, 100, 101, 200)
		m := newHist(which)
		var h []float64
		seed := rapid.Uint64().Draw(rt, "vals")
		c.Desc("copy %d n %d seed %d", which, n, seed)
		c.NonTrivial(n > 100)
		for i := 0; i <= n; i++ {
			if i%25 == 0 || i == n || i > 97 && i < 104 {
				w := h[max(0, len(h)-100):]
				got := m.History()
				if len(got) != len(w) {
					c.Fatalf("after %d samples: history of %d, want %d", i, len(got), len(w))
				}
				sum := 0.0
				for j := range w {
					sum += w[j]
					if got[j] != w[j] {
						c.Fatalf("after %d samples: history[%d]=%v want %v", i, j, got[j], w[j])
					}
				}
				avg, last := 0.0, 0.0
				if len(w) > 0 {
					avg, last = sum/float64(len(w)), w[len(w)-1]
				}
				if m.Latest() != last || !vh.Near(m.Average(), avg, 1e-9) {
					c.Fatalf("after %d samples: latest %v (want %v), average %v (want %v)", i, m.Latest(), last, m.Average(), avg)
				}
			}
			seed = seed*6364136223846793005 + 1442695040888963407
			v := float64(seed>>40) / (1 << 24)
			m.RecordSample(v)
			h = append(h, v)
		}
	})
}

// Reading while recording: nothing blocks, nothing races, every read is
// consistent with some prefix of the recordings.
func TestConcurrent(t *testing.T) {
	vh.Check(t, 40, 15, "1 recorder and 2-6 readers on one monitor, 200-1500 recordings; every case is non-trivial", func(c *vh.Case, rt *rapid.T) {
		which := vh.Pick(rt, "copy", 2)
		n := rapid.IntRange(200, 1500).Draw(rt, "n")
		readers := rapid.IntRange(2, 6).Draw(rt, "readers")
		m := newConv(which, core.State{Coherence: 0.9}, 2)
		h := newHist(which)
		c.Desc("copy %d, %d recordings, %d readers", which, n, readers)
		c.NonTrivial(true)
		var bad atomic.Value
		var done atomic.Bool
		ws := []func(){func() {
			for i := 1; i <= n; i++ {
				m.Record(float64(i) / float64(n))
				h.RecordSample(float64(i) / float64(n))
			}
			done.Store(true)
		}}
		for r := 0; r < readers; r++ {
			ws = append(ws, func() {
				for !done.Load() {
					s := m.Statistics()
					k, _ := s["samples"].(int)
					if cur, _ := s["current_coherence"].(float64); cur != float64(k)/float64(n) {
						bad.Store(fmt.Sprintf("statistics of %d samples show current coherence %v", k, cur))
						return
					}
					if p := m.PredictConvergenceTime(); p < 0 {
						bad.Store(fmt.Sprintf("predicted %v", p))
						return
					}
					m.Stability()
					m.ConvergenceRate()
					if x := h.History(); len(x) > 100 {
						bad.Store(fmt.Sprintf("history of %d", len(x)))
						return
					}
					h.Average()
				}
			})
		}
		dead, dump, p := vh.Blocked(ws...)
		if p != nil {
			c.Fatalf("panic: %v", p)
		}
		if dead {
			if len(dump) > 3000 {
				dump = dump[:3000]
			}
			c.Fatalf("recording and reading block each other for good:\n%s", dump)
		}
		if b := bad.Load(); b != nil {
			c.Fatalf("%v", b)
		}
		if len(m.History()) != n {
			c.Fatalf("%d recorded, %d kept", n, len(m.History()))
		}
	})
}
