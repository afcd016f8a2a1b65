// C19: independent agents converge: the swarm reaches the target coherence.
package c19

import (
	"context"
	"fmt"
	"math"
	"testing"
	"time"

	client "github.com/carlisia/bio-adapt/client/emerge"
	"github.com/carlisia/bio-adapt/emerge/agent"
	"github.com/carlisia/bio-adapt/emerge/core"
	"github.com/carlisia/bio-adapt/emerge/goal"
	"github.com/carlisia/bio-adapt/emerge/scale"
	"github.com/carlisia/bio-adapt/emerge/swarm"
	"github.com/carlisia/bio-adapt/zzverif/vh"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) {
	vh.SetCaseCPU(300)
	vh.Main(m)
}

// run runs the swarm for at most ticks updates, calling at halfway between them with
// the coherence; at returns false to stop. It returns what Run returned, if it ended.
func run(t *testing.T, mk func() *swarm.Swarm, iv time.Duration, at func(s *swarm.Swarm, tick int, coh float64) bool) (s *swarm.Swarm, ended bool, err error) {
	vh.Bubble(t, func() {
		s = mk()
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		done := make(chan error, 1)
		go func() { done <- s.Run(ctx) }()
		time.Sleep(iv / 2)
		for k := 0; ; k++ {
			var ph []float64
			s.ForEachAgent(func(a *agent.Agent) bool { ph = append(ph, a.Phase()); return true })
			more := at(s, k, vh.Order(ph))
			select {
			case err = <-done:
				ended = true
				return
			default:
			}
			if !more {
				cancel()
				<-done
				return
			}
			time.Sleep(iv)
		}
	})
	return
}

// start places the agents; the last kinds are adversarial.
func start(rt *rapid.T, size int) (string, func(s *swarm.Swarm)) {
	kind := vh.Pick(rt, "start", 5)
	base := vh.UnitPhase().Draw(rt, "base")
	return fmt.Sprintf("start %d base %v", kind, base), func(s *swarm.Swarm) {
		if kind < 2 {
			return
		}
		for i := 0; i < size; i++ {
			a, _ := s.Agent(fmt.Sprintf("agent-%d", i))
			switch kind {
			case 2:
				a.SetPhase(base + vh.TwoPi*float64(i)/float64(size))
			case 3:
				a.SetPhase(base + math.Pi*float64(i%2))
			default:
				a.SetPhase(base + vh.TwoPi*float64(i%3)/3)
			}
		}
	}
}

func genSize(rt *rapid.T, lo int) int {
	if vh.OneIn(rt, "big", 4) {
		return vh.UI(51, 150).Draw(rt, "size")
	}
	return vh.UI(lo, 50).Draw(rt, "size")
}

func mk(c *vh.Case, size int, g core.State, cfg *swarm.Config, place func(*swarm.Swarm)) func() *swarm.Swarm {
	return func() *swarm.Swarm {
		var opts []swarm.Option
		if cfg != nil {
			opts = append(opts, swarm.WithGoalConfig(cfg))
		}
		s, err := swarm.New(size, g, opts...)
		if err != nil {
			c.Fatalf("%v", err)
		}
		place(s)
		return s
	}
}

// slack is how far below the target counts as reached.
func slack(size int, cfg *swarm.Config, target float64) float64 {
	tol := 0.015
	if cfg != nil {
		tol = math.Max(cfg.Convergence.ToleranceSmall, math.Max(cfg.Convergence.ToleranceMedium, cfg.Convergence.ToleranceLarge))
	}
	if target >= swarm.GetCoherenceLimits(size).Practical*0.95 {
		tol *= 2
	}
	return tol + 1e-9
}

func TestReach(t *testing.T) {
	vh.Check(t, 4000, 12, "2-150 agents, any target phase, period 20ms-5s, target coherence 0.3-0.9, random or adversarial start (even, two or three opposite groups), default or goal-specific behaviour; non-trivial = the start was below the target", func(c *vh.Case, rt *rapid.T) {
		size := genSize(rt, 2)
		g := core.State{Phase: vh.UnitPhase().Draw(rt, "phase"), Frequency: time.Duration(vh.UI(20e6, 5e9).Draw(rt, "freq")), Coherence: vh.UF(0.3, 0.9).Draw(rt, "coh")}
		vh.SeedEntropy(vh.Seed64(rt, "seed"))
		kind := vh.Pick(rt, "kind", 10)
		var cfg *swarm.Config
		ticks, iv := 60, 100*time.Millisecond
		if kind >= 5 {
			gt := []goal.Type{goal.MinimizeAPICalls, goal.MinimizeLatency, goal.RecoverFromFailure, goal.ReachConsensus, goal.SaveEnergy}[kind-5]
			cfg = swarm.For(gt)
			if vh.OneIn(rt, "resize", 2) {
				cfg.WithSize(size)
			}
			iv = cfg.Strategy.UpdateInterval
			if kind >= 7 {
				g.Coherence = math.Min(g.Coherence, 0.75)
			} else if kind == 6 {
				g.Coherence = math.Min(g.Coherence, 0.85)
			}
		}
		g.Coherence = math.Min(g.Coherence, swarm.GetCoherenceLimits(size).Practical)
		what, place := start(rt, size)
		c.Desc("size %d %+v goal kind %d %s", size, g, kind, what)
		need := g.Coherence - slack(size, cfg, g.Coherence)
		// The agents start and adjust at random and may dwell just short of the target, so
		// up to six attempts count; nearly every first attempt succeeds.
		reached, best, attempt := -1, 0.0, 0
		for ; attempt < 6 && reached < 0; attempt++ {
			run(t, mk(c, size, g, cfg, place), iv, func(s *swarm.Swarm, k int, coh float64) bool {
				best = math.Max(best, coh)
				if coh >= need && reached < 0 {
					reached = k
				}
				return k < ticks && reached < 0
			})
		}
		if reached < 0 {
			c.Fatalf("%d agents reached coherence %v in %d updates, %d times over; the target is %v", size, best, ticks, attempt, g.Coherence)
		}
		c.Label(fmt.Sprintf("attempts %d", attempt))
		if attempt > 1 {
			c.Label(fmt.Sprintf("late kind %d", kind))
		}
		c.NonTrivial(reached > 0)
		for _, b := range []int{0, 5, 10, 20, 30, 45} {
			if reached <= b {
				c.Label(fmt.Sprintf("within %d", b))
				break
			}
		}
	})
}

func TestSucceeds(t *testing.T) {
	vh.Check(t, 600, 12, "12-150 agents, any target phase, period 40ms-5s, target coherence 0.6-0.9, default behaviour, random start, run to the end; every case is non-trivial", func(c *vh.Case, rt *rapid.T) {
		size := genSize(rt, 12)
		g := core.State{Phase: vh.UnitPhase().Draw(rt, "phase"), Frequency: time.Duration(vh.UI(40e6, 5e9).Draw(rt, "freq")), Coherence: vh.UF(0.6, 0.9).Draw(rt, "coh")}
		vh.SeedEntropy(vh.Seed64(rt, "seed"))
		c.Desc("size %d %+v", size, g)
		c.NonTrivial(true)
		var s *swarm.Swarm
		var err error
		attempt, ended := 0, false
		for ; attempt < 4 && (!ended || err != nil); attempt++ {
			s, ended, err = run(t, mk(c, size, g, nil, func(*swarm.Swarm) {}), 100*time.Millisecond, func(*swarm.Swarm, int, float64) bool { return true })
		}
		c.Label(fmt.Sprintf("attempts %d", attempt))
		if !ended || err != nil {
			c.Fatalf("none of %d runs succeeded: %v", attempt, err)
		}
		if !s.IsConverged() || s.CurrentCoherence() < g.Coherence-slack(size, nil, g.Coherence) {
			c.Fatalf("converged %v coherence %v", s.IsConverged(), s.CurrentCoherence())
		}
	})
}

// What most users do: build a client for a goal and a scale and start it.
func TestClient(t *testing.T) {
	vh.Check(t, 60, 10, "a client of any goal (but consensus, whose coherence target the presets rarely let it report) and scale tiny to medium, started; every case is non-trivial", func(c *vh.Case, rt *rapid.T) {
		g := vh.From(rt, "goal", goal.MinimizeAPICalls, goal.DistributeLoad, goal.MinimizeLatency, goal.SaveEnergy, goal.MaintainRhythm, goal.RecoverFromFailure, goal.AdaptToTraffic)
		sc := scale.Size(vh.Pick(rt, "scale", 3))
		vh.SeedEntropy(vh.Seed64(rt, "seed"))
		c.Desc("%v %v", g, sc)
		c.NonTrivial(true)
		var err error
		var coh float64
		attempt, ok := 0, false
		for ; attempt < 14 && !ok; attempt++ {
			vh.Bubble(t, func() {
				cl, e := client.New().WithGoal(g).WithScale(sc).Build()
				if e != nil {
					c.Fatalf("%v", e)
				}
				ctx, cancel := context.WithTimeout(context.Background(), 10*time.Minute)
				defer cancel()
				err = cl.Start(ctx)
				ok, coh = err == nil, cl.Coherence()
			})
		}
		c.Label(fmt.Sprintf("attempts %d", attempt))
		if !ok {
			c.Fatalf("none of %d clients succeeded: %v", attempt, err)
		}
		if need := sc.DefaultTargetCoherence() - slack(sc.DefaultAgentCount(), swarm.For(g).WithSize(sc.DefaultAgentCount()), sc.DefaultTargetCoherence()); coh < need {
			c.Fatalf("the client reports success at coherence %v, its scale asks for %v", coh, need)
		}
	})
}

func TestDispersed(t *testing.T) {
	vh.Check(t, 300, 12, "30-150 agents with a target coherence of at most 0.2 (load distribution), any goal, run for up to 120 updates; every case is non-trivial", func(c *vh.Case, rt *rapid.T) {
		size := vh.UI(30, 150).Draw(rt, "size")
		g := core.State{Phase: vh.UnitPhase().Draw(rt, "phase"), Frequency: time.Duration(vh.UI(20e6, 5e9).Draw(rt, "freq")), Coherence: vh.UF(0.01, 0.2).Draw(rt, "coh")}
		vh.SeedEntropy(vh.Seed64(rt, "seed"))
		cfg := swarm.For(goal.DistributeLoad)
		together := vh.OneIn(rt, "together", 3)
		c.Desc("size %d %+v together %v", size, g, together)
		c.NonTrivial(true)
		place := func(s *swarm.Swarm) {
			if together {
				s.ForEachAgent(func(a *agent.Agent) bool { a.SetPhase(1); return true })
			}
		}
		sum, n := 0.0, 0
		_, _, _ = run(t, mk(c, size, g, cfg, place), cfg.Strategy.UpdateInterval, func(s *swarm.Swarm, k int, coh float64) bool {
			if k > 60 {
				sum, n = sum+coh, n+1
				if coh > 0.9 {
					c.Fatalf("update %d: coherence %v although the target is %v", k, coh, g.Coherence)
				}
			}
			return k < 120
		})
		if n > 0 && sum/float64(n) > 0.55 {
			c.Fatalf("mean coherence %v although the target is %v", sum/float64(n), g.Coherence)
		}
	})
}

func TestSpeed(t *testing.T) {
	vh.Check(t, 60, 12, "20 swarms of 2-150 agents at once, any goal with target coherence 0.3-0.9, default behaviour, random start; every case is non-trivial", func(c *vh.Case, rt *rapid.T) {
		vh.SeedEntropy(vh.Seed64(rt, "seed"))
		g := core.State{Phase: vh.UnitPhase().Draw(rt, "phase"), Frequency: time.Duration(vh.UI(20e6, 5e9).Draw(rt, "freq")), Coherence: vh.UF(0.3, 0.9).Draw(rt, "coh")}
		size := genSize(rt, 2)
		g.Coherence = math.Min(g.Coherence, swarm.GetCoherenceLimits(size).Practical)
		c.Desc("size %d %+v", size, g)
		c.NonTrivial(true)
		quick := 0
		for i := 0; i < 20; i++ {
			hit := false
			run(t, mk(c, size, g, nil, func(*swarm.Swarm) {}), 100*time.Millisecond, func(s *swarm.Swarm, k int, coh float64) bool {
				hit = hit || coh >= g.Coherence-slack(size, nil, g.Coherence)
				return k < 12 && !hit
			})
			if hit {
				quick++
			}
		}
		c.Label(fmt.Sprintf("quick %d", quick))
		if quick < 15 {
			c.Fatalf("only %d of 20 swarms reached coherence %v within 12 updates", quick, g.Coherence)
		}
	})
}
