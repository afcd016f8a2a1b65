// C27: the simulation loses no work, bills it once, freezes when paused, resumes, resets
// and heals.
package c27

import (
	"context"
	"fmt"
	"math"
	"sync"
	"testing"
	"time"

	"github.com/carlisia/bio-adapt/emerge/goal"
	"github.com/carlisia/bio-adapt/emerge/scale"
	"github.com/carlisia/bio-adapt/simulations/emerge/simulation"
	"github.com/carlisia/bio-adapt/simulations/emerge/simulation/pattern"
	"github.com/carlisia/bio-adapt/zzverif/vh"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) {
	vh.SetCaseCPU(600)
	vh.Main(m)
}

// the targets the demo asks for
func target(g goal.Type, s scale.Size) float64 {
	switch g {
	case goal.DistributeLoad, goal.RecoverFromFailure:
		return 0.2
	case goal.ReachConsensus:
		return 0.6
	case goal.SaveEnergy:
		return 0.4
	}
	return s.DefaultTargetCoherence()
}

func genConfig(rt *rapid.T) simulation.BuildConfig {
	b := simulation.BuildConfig{Goal: goal.Type(vh.UI(0, 8).Draw(rt, "goal")), Scale: scale.Tiny}
	switch vh.Pick(rt, "scale", 6) {
	case 0, 1:
		b.Scale = scale.Small
	case 2:
		if vh.OneIn(rt, "medium", 3) {
			b.Scale = scale.Medium
		}
	}
	b.Pattern = pattern.Type(vh.UI(0, 5).Draw(rt, "pattern"))
	if vh.OneIn(rt, "steady", 2) {
		b.Pattern = pattern.Steady
	}
	b.TargetCoherence = target(b.Goal, b.Scale)
	if vh.OneIn(rt, "own", 4) {
		b.TargetCoherence = vh.UF(0.1, 0.95).Draw(rt, "target")
	}
	return b
}

const step = 100 * time.Millisecond
const offset = 37*time.Millisecond + 123*time.Microsecond // no ticker of the simulation ticks then

type run struct {
	c       *vh.Case
	cfg     simulation.BuildConfig
	pat     pattern.Type // the one in effect
	s       *simulation.Simulation
	n       int
	t0      time.Time // start
	since   time.Time // start or last reset
	paused  bool
	gen     int // tasks generated per workload since the last reset (steady only)
	ticks   int // generation ticks since the start
	stale   int // tasks on their way when the last reset happened: may still be billed
	peak    float64
	last    simulation.Snapshot
	disrupt time.Time
	reset   time.Time
}

func (r *run) snap() simulation.Snapshot {
	c := r.c
	x := r.s.Snapshot()
	if len(x.Agents) != r.n {
		c.Fatalf("%d workloads", len(x.Agents))
	}
	var ph []float64
	pending := 0
	ids := map[string]bool{}
	for _, a := range x.Agents {
		if !(a.Phase >= 0 && a.Phase < vh.TwoPi) || a.PendingTasks < 0 || a.BatchesSent < 0 || a.Type == "" || a.Icon == "" || ids[a.ID] {
			c.Fatalf("workload %+v", a)
		}
		ids[a.ID] = true
		ph = append(ph, a.Phase)
		pending += a.PendingTasks
		want := ""
		switch r.pat {
		case pattern.HighFrequency:
			want = "active"
		case pattern.Steady:
			want = "steady"
		case pattern.Sparse:
			want = map[bool]string{true: "active", false: "quiet"}[a.PendingTasks > 0]
		case pattern.Burst:
			want = map[bool]string{true: "burst", false: "quiet"}[a.InBurstMode]
		}
		if want != "" && a.ActivityLevel != want || a.InBurstMode && r.pat != pattern.Burst {
			c.Fatalf("%s with the %v pattern and %d pending tasks is shown as %s, burst %v", a.ID, r.pat, a.PendingTasks, a.ActivityLevel, a.InBurstMode)
		}
	}
	if x.PendingTasks != pending {
		c.Fatalf("%d pending tasks, the workloads have %d", x.PendingTasks, pending)
	}
	if o := vh.Order(ph); !vh.Near(x.Coherence, o, 1e-9) {
		c.Fatalf("coherence %v, the phases shown have %v", x.Coherence, o)
	}
	if x.TargetCoherence != r.cfg.TargetCoherence || x.Paused != r.paused {
		c.Fatalf("target %v paused %v", x.TargetCoherence, x.Paused)
	}
	if !r.t0.IsZero() && x.ElapsedTime != time.Since(r.since) || r.t0.IsZero() && x.ElapsedTime != 0 {
		c.Fatalf("elapsed %v, want %v", x.ElapsedTime, time.Since(r.since))
	}
	if d := time.Since(r.reset); x.Reset != (!r.reset.IsZero() && d < 2*time.Second) {
		c.Fatalf("reset flag %v, %v after the reset", x.Reset, d)
	}
	if d := time.Since(r.disrupt); x.Disrupted && (r.disrupt.IsZero() || d > 30200*time.Millisecond) {
		c.Fatalf("disruption flag %v after the disruption", d)
	}
	// the books
	with := 0.015 * float64(x.BatchesProcessed)
	if !vh.Near(x.CostWithSync, with, 1e-9*(1+with)) || !vh.Near(x.Savings, x.CostWithoutSync-x.CostWithSync, 1e-9*(1+x.CostWithoutSync)) {
		c.Fatalf("costs %v - %v = %v for %d batches", x.CostWithoutSync, x.CostWithSync, x.Savings, x.BatchesProcessed)
	}
	billed := x.CostWithoutSync / 0.03
	if !vh.Near(billed, math.Round(billed), 1e-6) {
		c.Fatalf("%v tasks billed", billed)
	}
	if x.CostWithoutSync > 0 && !vh.Near(x.SavingsPercent, 100*x.Savings/x.CostWithoutSync, 1e-6) {
		c.Fatalf("%v%% saved: %v of %v", x.SavingsPercent, x.Savings, x.CostWithoutSync)
	}
	if x.LastBatchSize < 0 || x.LastBatchSize > 100 || (x.LastBatchSize > 0) != (x.BatchesProcessed > 0) {
		c.Fatalf("last batch of %d after %d", x.LastBatchSize, x.BatchesProcessed)
	}
	if d := time.Since(x.LastBatchTime); x.BatchesProcessed > 0 && x.BatchJustSent != (d < 500*time.Millisecond) {
		c.Fatalf("batch shown as just sent: %v, %v ago", x.BatchJustSent, d)
	}
	if !r.paused {
		r.peak = math.Max(r.peak, x.Coherence)
	}
	if r.pat == pattern.Steady {
		got := int(math.Round(billed)) + pending
		if want := r.gen * r.n; got > want+r.stale {
			c.Fatalf("%d tasks billed and %d pending, %d were generated (and %d were on their way at the reset)", got-pending, pending, want, r.stale)
		}
	}
	r.last = x
	return x
}

// pass waits k steps, counting the generation ticks of the steady pattern (every 500ms).
func (r *run) pass(k int) {
	for ; k > 0; k-- {
		time.Sleep(step)
		if t := int(time.Since(r.t0) / (500 * time.Millisecond)); t > r.ticks {
			if !r.paused {
				r.gen += t - r.ticks
			}
			r.ticks = t
		}
	}
}

func (r *run) stats() {
	c := r.c
	x := r.s.Snapshot()
	if !r.paused {
		r.peak = math.Max(r.peak, x.Coherence)
	}
	s := r.s.Statistics()
	if s.TotalBatches != x.BatchesProcessed || s.CostWithSync != x.CostWithSync || s.CostWithoutSync != x.CostWithoutSync ||
		s.TotalSavings != x.Savings || s.SavingsPercent != x.SavingsPercent {
		c.Fatalf("statistics %+v differ from the snapshot %+v", s, x)
	}
	if !vh.Near(float64(s.TotalAPICalls)*0.03, s.CostWithoutSync, 1e-6) || s.TotalBatches > s.TotalAPICalls {
		c.Fatalf("%d calls in %d batches cost %v without batching", s.TotalAPICalls, s.TotalBatches, s.CostWithoutSync)
	}
	if !r.paused && s.FinalCoherence != x.Coherence {
		c.Fatalf("final coherence %v, shown %v", s.FinalCoherence, x.Coherence)
	}
	if s.PeakCoherence < r.peak || s.PeakCoherence < s.FinalCoherence || s.PeakCoherence > 1+1e-9 {
		c.Fatalf("peak coherence %v; seen %v, final %v", s.PeakCoherence, r.peak, s.FinalCoherence)
	}
	if r.peak >= 0.7 && !r.t0.IsZero() && (s.TimeToConverge < 0 || s.TimeToConverge > time.Since(r.since)) || s.PeakCoherence < 0.7 && s.TimeToConverge != 0 {
		c.Fatalf("converged after %v with a peak coherence of %v", s.TimeToConverge, r.peak)
	}
	r.peak = math.Max(r.peak, s.FinalCoherence)
}

func TestSimulation(t *testing.T) {
	vh.Check(t, 120, 12, "simulations of 20-200 workloads with any goal and pattern under random sequences of waits, pauses, resumes, disruptions, resets and looks, in virtual time; non-trivial = steady pattern with a pause or reset and something billed after it", func(c *vh.Case, rt *rapid.T) {
		vh.SeedEntropy(vh.Seed64(rt, "seed"))
		r := &run{c: c, cfg: genConfig(rt)}
		r.pat = r.cfg.Pattern
		if r.pat == pattern.Unset {
			r.pat = pattern.BestPatternForGoal(int(r.cfg.Goal))
		}
		r.n = r.cfg.Scale.DefaultAgentCount()
		c.Desc("%+v:", r.cfg)
		vh.Bubble(t, func() {
			var err error
			if r.s, err = simulation.New(r.cfg); err != nil {
				c.Fatalf("%v", err)
			}
			r.snap()
			ctx, cancel := context.WithCancel(context.Background())
			defer cancel()
			done := make(chan error, 1)
			r.t0, r.since = time.Now(), time.Now()
			go func() { done <- r.s.Start(ctx) }()
			time.Sleep(offset)
			events := 0
			for i := vh.UI(2, 25).Draw(rt, "ops"); i > 0; i-- {
				// a fresh instant, at which nothing that an earlier operation started ticks
				time.Sleep(113 * time.Microsecond)
				op := vh.Pick(rt, "op", 12)
				switch op {
				case 0, 1, 2:
					k := vh.UI(1, 40).Draw(rt, "steps")
					c.Desc(" wait %d", k)
					r.pass(k)
				case 3:
					k := vh.UI(40, 400).Draw(rt, "steps")
					c.Desc(" wait %d", k)
					r.pass(k)
				case 4, 5, 6:
					before := r.snap()
					if op == 6 && r.paused || op == 4 && !r.paused || vh.OneIn(rt, "same", 4) == false {
						c.Desc(" toggle")
						if r.paused {
							r.s.Resume()
						} else {
							r.s.Pause()
						}
						r.paused = !r.paused
					} else { // what is paused stays paused, what runs keeps running
						c.Desc(" repeat")
						if r.paused {
							r.s.Pause()
						} else {
							r.s.Resume()
						}
					}
					events++
					if before.Paused && !r.paused {
						time.Sleep(113 * time.Microsecond) // what resumes starts with a step
						r.snap()
						continue
					}
					after := r.snap()
					if !same(before, after) {
						c.Fatalf("pausing or resuming changed the picture:\n%+v\n%+v", before, after)
					}
				case 7:
					if r.paused {
						continue // the demo allows this only while running
					}
					c.Desc(" disrupt")
					before := r.snap()
					r.s.Disrupt()
					r.disrupt = time.Now()
					after := r.snap()
					if !after.Disrupted {
						c.Fatalf("not shown as disrupted")
					}
					moved := 0
					for i := range after.Agents {
						if d := vh.CircDist(before.Agents[i].Phase, after.Agents[i].Phase); d > 1e-9 {
							moved++
							if d < math.Pi-1e-3 {
								c.Fatalf("%s moved by %v", after.Agents[i].ID, d)
							}
						}
					}
					if moved != r.n/5 {
						c.Fatalf("disrupted %d of %d", moved, r.n)
					}
				case 8:
					if r.paused {
						continue
					}
					c.Desc(" reset")
					x := r.snap()
					if r.pat == pattern.Steady {
						r.stale = r.gen*r.n + r.stale - x.PendingTasks - int(math.Round(x.CostWithoutSync/0.03))
					}
					r.s.Reset()
					events++
					r.gen, r.peak = 0, 0
					r.since, r.reset = time.Now(), time.Now()
					x = r.snap()
					if !x.Reset || x.PendingTasks != 0 || x.BatchesProcessed != 0 || x.CostWithoutSync != 0 || x.CostWithSync != 0 || x.CurrentBatchSize != 0 || x.ElapsedTime != 0 {
						c.Fatalf("after a reset: %+v", x)
					}
					for _, a := range x.Agents {
						if a.BatchesSent != 0 || a.InBurstMode {
							c.Fatalf("after a reset: %+v", a)
						}
					}
					switch r.cfg.Goal { // documented: the worst state for each goal
					case goal.DistributeLoad, goal.SaveEnergy, goal.AdaptToTraffic:
						if x.Coherence < 0.99 {
							c.Fatalf("reset to coherence %v, the worst for %v is 1", x.Coherence, r.cfg.Goal)
						}
					default:
						if x.Coherence > 0.1 {
							c.Fatalf("reset to coherence %v, the worst for %v is 0", x.Coherence, r.cfg.Goal)
						}
					}
				case 9:
					c.Desc(" stats")
					r.stats()
				default:
					before := r.last
					x := r.snap()
					if r.paused && before.Paused {
						frozen(c, before, x)
					}
				}
				if r.paused { // frozen until resumed
					a := r.snap()
					k := vh.UI(0, 12).Draw(rt, "frozen")
					r.pass(k)
					frozen(c, a, r.snap())
				}
			}
			// settle: what is on its way arrives
			if !r.paused {
				r.s.Pause()
				r.paused = true
			}
			r.pass(60)
			x := r.snap()
			billed := int(math.Round(x.CostWithoutSync / 0.03))
			if r.pat == pattern.Steady {
				got, want := billed+x.PendingTasks, r.gen*r.n
				if got < want || got > want+r.stale {
					c.Fatalf("%d tasks billed and %d pending, %d were generated (and up to %d left over from before the reset)", billed, x.PendingTasks, want, r.stale)
				}
				c.NonTrivial(events > 0 && billed > 0 && r.stale == 0)
			}
			r.stats()
			sent := 0
			for _, a := range x.Agents {
				sent += a.BatchesSent
			}
			if (sent > 0) != (billed > 0) && r.stale == 0 && r.pat == pattern.Steady {
				c.Fatalf("the workloads sent %d batches, %d tasks were billed", sent, billed)
			}
			// the end
			t1 := time.Now()
			cancel()
			if err := <-done; err != nil || time.Since(t1) > 0 {
				c.Fatalf("Start returned %v, %v after the end of its context", err, time.Since(t1))
			}
			x = r.snap()
			time.Sleep(35 * time.Second)
			frozen(c, x, r.snap())
			c.Label(fmt.Sprint(r.pat))
		})
	})
}

// same: nothing of the work or the phases differs.
func same(a, b simulation.Snapshot) bool {
	for i := range a.Agents {
		x, y := a.Agents[i], b.Agents[i]
		if x.ID != y.ID || x.Phase != y.Phase || x.PendingTasks != y.PendingTasks || x.BatchesSent != y.BatchesSent {
			return false
		}
	}
	return a.BatchesProcessed == b.BatchesProcessed && math.Abs(a.Coherence-b.Coherence) < 1e-12
}

// frozen: no phase moves and no work is produced or sent by the workloads.
func frozen(c *vh.Case, a, b simulation.Snapshot) {
	for i := range a.Agents {
		x, y := a.Agents[i], b.Agents[i]
		if x.ID != y.ID || x.Phase != y.Phase || x.PendingTasks != y.PendingTasks || x.BatchesSent != y.BatchesSent {
			c.Fatalf("paused or stopped, and %+v became %+v", x, y)
		}
	}
	if a.Coherence != b.Coherence || a.PendingTasks != b.PendingTasks {
		c.Fatalf("paused or stopped, and coherence went from %v to %v, pending tasks from %d to %d", a.Coherence, b.Coherence, a.PendingTasks, b.PendingTasks)
	}
}

// TestHeal: a running simulation comes back from disruptions, resets and pauses, and
// then batches well.
func TestHeal(t *testing.T) {
	vh.Check(t, 40, 12, "simulations with synchronizing goals, disrupted, paused and reset at random moments, in virtual time; non-trivial = coherence fell below the level to be regained", func(c *vh.Case, rt *rapid.T) {
		vh.SeedEntropy(vh.Seed64(rt, "seed"))
		cfg := simulation.BuildConfig{Pattern: pattern.Steady, Scale: vh.From(rt, "scale", scale.Tiny, scale.Small, scale.Tiny, scale.Medium)}
		cfg.Goal = vh.From(rt, "goal", goal.MinimizeAPICalls, goal.ReachConsensus, goal.MinimizeLatency, goal.MaintainRhythm)
		cfg.TargetCoherence = target(cfg.Goal, cfg.Scale)
		level := 0.85 * cfg.TargetCoherence
		c.Desc("%+v:", cfg)
		vh.Bubble(t, func() {
			s, err := simulation.New(cfg)
			if err != nil {
				c.Fatalf("%v", err)
			}
			ctx, cancel := context.WithCancel(context.Background())
			defer cancel()
			go s.Start(ctx)
			await := func(what string) {
				low := false
				for i := 0; i < 120; i++ {
					if x := s.Snapshot(); x.Coherence >= level {
						c.NonTrivial(low)
						return
					}
					low = true
					time.Sleep(500 * time.Millisecond)
				}
				c.Fatalf("%s and a minute later the coherence is %v, the target %v", what, s.Snapshot().Coherence, cfg.TargetCoherence)
			}
			await("started")
			for i := vh.UI(1, 4).Draw(rt, "rounds"); i > 0; i-- {
				time.Sleep(time.Duration(vh.UI(1, 60000).Draw(rt, "calm")) * time.Millisecond)
				switch vh.Pick(rt, "hit", 4) {
				case 0:
					c.Desc(" reset")
					s.Reset()
					await("reset")
				case 1:
					c.Desc(" disrupt, pause")
					s.Disrupt()
					s.Pause()
					time.Sleep(time.Duration(vh.UI(0, 30000).Draw(rt, "pause")) * time.Millisecond)
					s.Resume()
					await("disrupted, paused and resumed")
				default:
					c.Desc(" disrupt")
					for k := vh.UI(1, 3).Draw(rt, "hits"); k > 0; k-- {
						s.Disrupt()
					}
					await("disrupted")
				}
			}
			cancel()
			time.Sleep(35 * time.Second)
		})
	})
}

// TestConcurrent uses one simulation from several goroutines, for the race detector.
func TestConcurrent(t *testing.T) {
	vh.Check(t, 25, 10, "a running simulation used by 4 goroutines at once (looks, statistics, pauses, resumes, disruptions, resets) under the race detector; non-trivial = every case", func(c *vh.Case, rt *rapid.T) {
		cfg := genConfig(rt)
		cfg.Scale = vh.From(rt, "scale", scale.Tiny, scale.Small)
		type op struct{ kind, wait int }
		var plans [4][]op
		for w := range plans {
			for i := vh.UI(3, 12).Draw(rt, "ops"); i > 0; i-- {
				plans[w] = append(plans[w], op{vh.Pick(rt, "op", 7), vh.UI(0, 5).Draw(rt, "wait")})
			}
		}
		c.Desc("%+v %v", cfg, plans)
		vh.Bubble(t, func() {
			s, err := simulation.New(cfg)
			if err != nil {
				c.Fatalf("%v", err)
			}
			ctx, cancel := context.WithCancel(context.Background())
			defer cancel()
			go s.Start(ctx)
			var wg sync.WaitGroup
			for _, p := range plans {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for _, o := range p {
						time.Sleep(time.Duration(o.wait) * step)
						switch o.kind {
						case 0, 1:
							s.Snapshot()
						case 2:
							s.Statistics()
						case 3:
							s.Pause()
						case 4:
							s.Resume()
						case 5:
							s.Disrupt()
						case 6:
							s.Reset()
						}
					}
				}()
			}
			wg.Wait()
			x := s.Snapshot()
			if len(x.Agents) != cfg.Scale.DefaultAgentCount() {
				c.Fatalf("%d agents", len(x.Agents))
			}
			cancel()
			time.Sleep(40 * time.Second)
			c.NonTrivial(true)
		})
	})
}
