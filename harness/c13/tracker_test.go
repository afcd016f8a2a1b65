// C13: the synchronization loop's convergence tracker, against a model.
package c13

import (
	"math"
	"testing"
	"time"

	"github.com/carlisia/bio-adapt/emerge/convergence"
	"github.com/carlisia/bio-adapt/emerge/core"
	"github.com/carlisia/bio-adapt/zzverif/vh"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { vh.Main(m) }

type sample struct {
	dist, vel float64
	at        time.Time
}

func trend(s []sample) float64 {
	n := float64(len(s))
	var mx, my float64
	for i, y := range s {
		mx += float64(i) / n
		my += y.dist / n
	}
	var num, den float64
	for i, y := range s {
		num += (float64(i) - mx) * (y.dist - my)
		den += (float64(i) - mx) * (float64(i) - mx)
	}
	return num / den
}

func TestTracker(t *testing.T) {
	vh.Check(t, 3000, 30, "1-60 samples approaching, leaving or staying at the target, generated pauses and window sizes, resets; non-trivial = the history exceeded twice the window", func(c *vh.Case, rt *rapid.T) {
		window := vh.From(rt, "wk", 5, 10, vh.Len(rt, "w", -1, 12, 150), 3)
		if window == 1 {
			window = 2 // a window of one sample cannot hold a rate
		}
		eff := window
		if eff <= 0 {
			eff = 10
		}
		target := &core.TargetPattern{Phase: vh.UnitPhase().Draw(rt, "tp"), Frequency: 200 * time.Millisecond, Coherence: vh.Unit().Draw(rt, "tc")}
		n := vh.Len(rt, "n", 1, 60, 500)
		kind := vh.Pick(rt, "kind", 5)
		coh := vh.Unit().Draw(rt, "c0")
		off := vh.UF(-3, 3).Draw(rt, "off")
		type op struct {
			pat   core.TargetPattern
			wait  time.Duration
			reset bool
		}
		ops := make([]op, n)
		for i := range ops {
			switch kind {
			case 0:
				coh, off = vh.Unit().Draw(rt, "c"), vh.UF(-3, 3).Draw(rt, "o")
			case 1:
				off *= 0.9
			case 2:
				off = math.Mod(off*1.07+0.01, 3)
			case 3: // stays
				off += vh.UF(-0.001, 0.001).Draw(rt, "j")
			case 4: // approach, then plateau, then again
				if vh.Pick(rt, "mv", 3) > 0 {
					off *= vh.UF(0.8, 1).Draw(rt, "f")
				}
			}
			ops[i].pat = core.TargetPattern{Phase: vh.Wrap(target.Phase + off), Frequency: 200 * time.Millisecond, Coherence: coh}
			ops[i].wait = time.Duration(rapid.IntRange(0, 300).Draw(rt, "wait")) * time.Millisecond
			if vh.OneIn(rt, "same", 12) {
				ops[i].wait = 0
			}
			ops[i].reset = vh.OneIn(rt, "rs", 50)
		}
		c.Desc("window %d kind %d n %d target %+v ops %v", window, kind, n, *target, ops)
		c.NonTrivial(n > 2*eff)
		vh.Bubble(t, func() {
			m := convergence.NewMonitor(window)
			m.SetTarget(target)
			if m.IsConverging() || m.IsStuck() || m.ShouldSwitchStrategy() || m.GetProgress() != 0 || m.GetConvergenceRate() != 0 {
				c.Fatalf("a fresh tracker reports something")
			}
			var h []sample
			stuck, sure := 0, true
			for i, o := range ops {
				time.Sleep(o.wait)
				if o.reset {
					m.Reset()
					h, stuck, sure = nil, 0, true
					if m.IsConverging() || m.IsStuck() || m.GetProgress() != 0 {
						c.Fatalf("op %d: tracker remembers after a reset", i)
					}
				}
				s := sample{dist: core.PatternDistance(&o.pat, target), at: time.Now()}
				if len(h) > 0 {
					l := h[len(h)-1]
					if dt := s.at.Sub(l.at).Seconds(); dt > 0 {
						s.vel = (s.dist - l.dist) / dt
					}
				}
				h = append(h, s)
				m.RecordSample(&o.pat, o.pat.Coherence)
				w := h[max(0, len(h)-eff):]
				if len(w) >= 3 {
					tr := trend(w)
					switch {
					case math.Abs(math.Abs(tr)-0.001) < 1e-9:
						sure = false
					case math.Abs(tr) < 0.001:
						stuck++
					default:
						stuck, sure = 0, true
					}
					if math.Abs(tr+0.001) > 1e-9 && m.IsConverging() != (tr < -0.001) {
						c.Fatalf("op %d: converging=%v, distance trend over the window is %v", i, m.IsConverging(), tr)
					}
				} else if m.IsConverging() {
					c.Fatalf("op %d: converging with %d samples in the window", i, len(w))
				}
				if sure && m.IsStuck() != (stuck > 5) {
					c.Fatalf("op %d: stuck=%v after %d samples in a row without a trend", i, m.IsStuck(), stuck)
				}
				want := 1.0
				if h[0].dist > 0 {
					want = math.Min(1, math.Max(0, 1-s.dist/h[0].dist))
				}
				if h[0].dist > 1e-9 && !vh.Near(m.GetProgress(), want, 1e-6) {
					c.Fatalf("op %d: progress %v; distance went from %v to %v", i, m.GetProgress(), h[0].dist, s.dist)
				}
				if p := m.GetProgress(); !(p >= -1e-9 && p <= 1+1e-9) {
					c.Fatalf("op %d: progress %v", i, p)
				}
				sum, cnt, still := 0.0, 0, 0
				edge := false
				for _, x := range w {
					if x.vel != 0 {
						sum += x.vel
						cnt++
					}
					if x.vel >= -0.001 {
						still++
					}
					edge = edge || math.Abs(x.vel+0.001) < 1e-9
				}
				rate := 0.0
				if cnt > 0 && len(h) >= 2 {
					rate = sum / float64(cnt)
				}
				if !vh.RelNear(m.GetConvergenceRate(), rate, 1e-6) {
					c.Fatalf("op %d: rate %v, want %v", i, m.GetConvergenceRate(), rate)
				}
				if share := float64(still) / float64(len(w)); !edge && math.Abs(share-0.7) > 1e-9 {
					want := len(w) >= 3 && share > 0.7
					if m.ShouldSwitchStrategy() != want {
						c.Fatalf("op %d: switch=%v with %d of %d samples without progress", i, !want, still, len(w))
					}
				}
			}
		})
	})
}
