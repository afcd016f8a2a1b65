// C18: one synchronization run reports success exactly when the goal is reached,
// and always ends.
package c18

import (
	"context"
	"errors"
	"math"
	"testing"
	"time"

	"github.com/carlisia/bio-adapt/emerge/agent"
	"github.com/carlisia/bio-adapt/emerge/core"
	"github.com/carlisia/bio-adapt/emerge/goal"
	"github.com/carlisia/bio-adapt/emerge/swarm"
	"github.com/carlisia/bio-adapt/emerge/trait"
	"github.com/carlisia/bio-adapt/zzverif/vh"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) {
	vh.SetCaseCPU(300)
	vh.Main(m)
}

// view is what can be seen of a swarm at one moment.
type view struct {
	order, phase, freq float64
	ph                 []float64
}

func look(c *vh.Case, s *swarm.Swarm) (v view) {
	var sx, sy float64
	var total time.Duration
	s.ForEachAgent(func(a *agent.Agent) bool {
		p, f := a.Phase(), a.Frequency()
		if !(p >= 0 && p < vh.TwoPi) || f <= 0 {
			c.Fatalf("%s at phase %v period %v", a.ID, p, f)
		}
		sx, sy, total = sx+math.Cos(p), sy+math.Sin(p), total+f
		v.ph = append(v.ph, p)
		return true
	})
	n := float64(len(v.ph))
	v.order = math.Hypot(sx, sy) / n
	v.phase = math.Atan2(sy, sx)
	v.freq = math.Floor(float64(total) / n)
	return v
}

type spec struct {
	size int
	g    core.State
	raw  float64 // the target asked for, before it is capped
	own  bool    // run by a synchronizer of its own, which is given the target directly
	cfg  *swarm.Config
}

// met tells by how much the goal is met (positive) or missed (negative), as documented:
// coherence within the tolerance, pattern within the distance, and for ambitious targets
// the phases near the target's.
func (p spec) met(v view) float64 {
	target := p.g.Coherence
	tol := p.cfg.Convergence.ToleranceLarge
	switch {
	case p.size < 10:
		tol = p.cfg.Convergence.ToleranceSmall
	case p.size < 50:
		tol = p.cfg.Convergence.ToleranceMedium
	}
	if target >= swarm.GetCoherenceLimits(p.size).Practical*0.95 {
		tol *= 2
	}
	dist := 0.4*vh.CircDist(p.g.Phase, v.phase)/math.Pi +
		0.3*math.Min(1, math.Abs(v.freq-float64(p.g.Frequency))/float64(p.g.Frequency)) +
		0.3*math.Abs(target-v.order)
	m := math.Min(v.order-(target-tol), p.cfg.Convergence.PatternDistanceThreshold-dist)
	if target >= p.cfg.Thresholds.HighCoherence {
		d := 0.0
		for _, x := range v.ph {
			d += vh.CircDist(x, p.g.Phase) / float64(len(v.ph))
		}
		m = math.Min(m, 1-d/math.Pi-p.cfg.Convergence.PhaseConvergenceGoal)
	}
	return m
}

func (p spec) budget() int {
	f := swarm.GetConvergenceTimeFactor(p.size, p.g.Coherence)
	return int(math.Min(p.cfg.Strategy.MaxIterationsFactor*f, 1000))
}

func genSpec(rt *rapid.T) spec {
	p := spec{size: vh.UI(1, 40).Draw(rt, "size")}
	if vh.OneIn(rt, "big", 6) {
		p.size = vh.UI(41, 130).Draw(rt, "size")
	}
	p.g.Phase = vh.UnitPhase().Draw(rt, "phase")
	p.g.Frequency = time.Duration(vh.UI(1e7, 1e9).Draw(rt, "freq"))
	p.g.Coherence = vh.UF(0, 1).Draw(rt, "coh")
	switch vh.Pick(rt, "regime", 4) {
	case 0, 1: // where runs tend to succeed
		p.g.Phase = vh.From(rt, "phase", 0, 0.1, 5.5, 6.2, vh.TwoPi)
		p.g.Frequency = time.Duration(vh.UI(200e6, 300e6).Draw(rt, "freq"))
		p.g.Coherence = vh.UF(0.5, 1).Draw(rt, "coh")
	case 2:
		p.g.Coherence = vh.UF(0.85, 1).Draw(rt, "coh")
	}
	p.raw = p.g.Coherence
	p.g.Coherence = math.Min(p.g.Coherence, swarm.GetCoherenceLimits(p.size).Practical)
	if p.own = vh.OneIn(rt, "own", 3); p.own { // capped by what is possible, not by what is practical
		if vh.OneIn(rt, "ambitious", 2) {
			p.raw = vh.UF(swarm.GetCoherenceLimits(p.size).Practical, 1).Draw(rt, "coh")
		}
		p.g.Coherence = math.Min(p.raw, swarm.GetCoherenceLimits(p.size).Theoretical)
	}
	p.cfg = swarm.For(goal.Type(vh.UI(0, 8).Draw(rt, "goal")))
	for i := vh.Pick(rt, "tunes", 3); i > 0; i-- {
		p.cfg.TuneFor(trait.Target(vh.UI(0, 6).Draw(rt, "trait")))
	}
	if vh.OneIn(rt, "resize", 2) {
		p.cfg.WithSize(p.size)
	}
	if vh.OneIn(rt, "loose", 2) {
		p.cfg.Convergence.PatternDistanceThreshold = vh.From(rt, "thr", 0.15, 0.3, 0.5, 2)
	}
	if vh.OneIn(rt, "short", 3) {
		p.cfg.Strategy.MaxIterationsFactor = vh.From(rt, "factor", 0, 1, 3, 20.5, 0.3)
	}
	return p
}

func TestRun(t *testing.T) {
	const eps = 1e-7
	vh.Check(t, 1500, 8, "swarms of 1-130 agents, any goal, goal configuration and tuning, run once or twice in virtual time, sometimes cancelled; non-trivial = the run succeeded after at least one adjustment, or used its whole budget", func(c *vh.Case, rt *rapid.T) {
		p := genSpec(rt)
		seed := vh.Seed64(rt, "seed")
		vh.SeedEntropy(seed)
		iv := p.cfg.Strategy.UpdateInterval
		cancelAt := time.Duration(-1)
		byDeadline := false
		switch vh.Pick(rt, "cancel", 5) {
		case 0:
			cancelAt = iv*time.Duration(vh.UI(0, 30).Draw(rt, "cancelTick")) + iv/3
			byDeadline = vh.OneIn(rt, "deadline", 2)
		case 1:
			cancelAt = 0
			if !vh.OneIn(rt, "pre", 4) {
				cancelAt = -1
			}
		}
		again := vh.OneIn(rt, "again", 3)
		c.Desc("%+v cfg %+v cancel %v/%v again %v", p.g, *p.cfg, cancelAt, byDeadline, again)
		c.Desc(" size %d", p.size)
		if p.cfg.Validate() != nil {
			c.Fatalf("generated goal configuration is invalid: %v", p.cfg.Validate())
		}
		vh.Bubble(t, func() {
			asked := p.g
			asked.Coherence = p.raw
			s, err := swarm.New(p.size, asked, swarm.WithGoalConfig(p.cfg))
			if err != nil {
				c.Fatalf("%v", err)
			}
			once(c, s, p, iv, cancelAt, byDeadline, eps)
			if again {
				s.DisruptAgents(1)
				if s.IsConverged() || s.ConvergenceTime() != 0 {
					c.Fatalf("still converged after a total disruption")
				}
				once(c, s, p, iv, -1, false, eps)
			}
		})
	})
}

func once(c *vh.Case, s *swarm.Swarm, p spec, iv, cancelAt time.Duration, byDeadline bool, eps float64) {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	want := context.Canceled
	if cancelAt == 0 {
		cancel()
	} else if cancelAt > 0 && byDeadline {
		ctx, cancel = context.WithTimeout(context.Background(), cancelAt)
		defer cancel()
		want = context.DeadlineExceeded
	} else if cancelAt > 0 {
		tm := time.AfterFunc(cancelAt, cancel)
		defer tm.Stop()
	}
	type result struct {
		err error
		at  time.Duration
	}
	t0 := time.Now()
	done := make(chan result, 1)
	go func() {
		var err error
		if p.own {
			target := &core.TargetPattern{Phase: p.g.Phase, Frequency: p.g.Frequency, Coherence: p.raw}
			err = swarm.NewGoalDirectedSyncWithConfig(s, p.cfg).AchieveSynchronization(ctx, target)
		} else {
			err = s.Run(ctx)
		}
		done <- result{err, time.Since(t0)}
	}()
	var before view // what the coming tick will measure
	before = look(c, s)
	time.Sleep(iv / 2)
	budget := p.budget()
	for tick := 0; ; tick++ { // now halfway after that tick
		var r result
		ended := false
		select {
		case r = <-done:
			ended = true
		default:
		}
		m := p.met(before)
		v := look(c, s)
		if ended {
			switch {
			case cancelAt >= 0 && r.err != nil && r.at == cancelAt && (budget > 0 || errors.Is(r.err, want)):
				if !errors.Is(r.err, want) {
					c.Fatalf("cancelled run reported %v", r.err)
				}
				c.Label("cancelled")
			case r.err == nil:
				if tick == 0 || r.at != iv*time.Duration(tick) || tick > budget {
					c.Fatalf("success reported at %v, tick %d", r.at, tick)
				}
				if m < -eps {
					c.Fatalf("success reported after %d ticks although the goal is missed by %v (coherence %v, phase %v, period %v)", tick, -m, before.order, before.phase, before.freq)
				}
				for i := range v.ph { // nothing moves once the goal is met
					if v.order != before.order && math.Abs(v.order-before.order) > 1e-9 {
						c.Fatalf("agent %d moved after success", i)
					}
				}
				if !s.IsConverged() && !p.own {
					c.Fatalf("the run succeeded and the swarm does not report convergence")
				}
				if !vh.Near(s.CurrentCoherence(), before.order, 1e-9) {
					c.Fatalf("current coherence %v, measured %v", s.CurrentCoherence(), before.order)
				}
				c.Label("success")
				c.NonTrivial(tick > 1)
			default:
				if want := iv * time.Duration(budget); r.at != want {
					c.Fatalf("gave up after %v with %q, the budget is %v", r.at, r.err, want)
				}
				if errors.Is(r.err, context.Canceled) || errors.Is(r.err, context.DeadlineExceeded) {
					c.Fatalf("gave up by itself and reported %v", r.err)
				}
				if tick == budget && tick > 0 && m > eps {
					c.Fatalf("gave up at tick %d with the goal met by %v", tick, m)
				}
				c.Label("exhausted")
				c.NonTrivial(tick >= 20)
			}
			return
		}
		if cancelAt >= 0 && time.Since(t0) > cancelAt {
			c.Fatalf("still running %v after the start, cancelled at %v", time.Since(t0), cancelAt)
		}
		if tick > 0 && m > eps {
			c.Fatalf("tick %d: the goal is met by %v (coherence %v) and the run goes on", tick, m, before.order)
		}
		if tick > budget {
			c.Fatalf("still running after %d ticks, the budget is %d", tick, budget)
		}
		if tick > 0 && !vh.Near(s.CurrentCoherence(), before.order, 1e-9) {
			c.Fatalf("tick %d recorded coherence %v, measured %v", tick, s.CurrentCoherence(), before.order)
		}
		before = v
		time.Sleep(iv)
	}
}
