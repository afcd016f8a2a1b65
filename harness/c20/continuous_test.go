// C20: continuous operation runs until cancelled and recovers from disruptions.
package c20

import (
	"context"
	"errors"
	"fmt"
	"math"
	"slices"
	"testing"
	"testing/synctest"
	"time"

	"github.com/carlisia/bio-adapt/emerge/agent"
	"github.com/carlisia/bio-adapt/emerge/core"
	"github.com/carlisia/bio-adapt/emerge/goal"
	"github.com/carlisia/bio-adapt/emerge/swarm"
	"github.com/carlisia/bio-adapt/zzverif/vh"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) {
	vh.SetCaseCPU(300)
	vh.Main(m)
}

func order(c *vh.Case, s *swarm.Swarm) float64 {
	var ph []float64
	s.ForEachAgent(func(a *agent.Agent) bool {
		p := a.Phase()
		if !(p >= 0 && p < vh.TwoPi) || a.Frequency() <= 0 {
			c.Fatalf("%s at phase %v period %v", a.ID, p, a.Frequency())
		}
		ph = append(ph, p)
		return true
	})
	return vh.Order(ph)
}

func TestContinuous(t *testing.T) {
	vh.Check(t, 500, 10, "2-120 agents, any goal with target coherence 0.3-0.9, 1-4 disruptions of 10-100% of the agents (or everybody put opposite or spread evenly) at random times, short or long synchronization budgets, virtual time; non-trivial = some disruption really broke the coherence", func(c *vh.Case, rt *rapid.T) {
		size := vh.UI(2, 40).Draw(rt, "size")
		if vh.OneIn(rt, "big", 5) {
			size = vh.UI(41, 120).Draw(rt, "size")
		}
		g := core.State{Phase: vh.UnitPhase().Draw(rt, "phase"), Frequency: time.Duration(vh.UI(20e6, 5e9).Draw(rt, "freq")), Coherence: vh.UF(0.3, 0.9).Draw(rt, "coh")}
		if vh.OneIn(rt, "template", 2) { // where one synchronization attempt can succeed and stop
			g.Phase, g.Frequency = vh.From(rt, "phase", 0, 0.1, 5.5), time.Duration(vh.UI(230e6, 270e6).Draw(rt, "freq"))
		}
		g.Coherence = math.Min(g.Coherence, swarm.GetCoherenceLimits(size).Practical)
		vh.SeedEntropy(vh.Seed64(rt, "seed"))
		how := vh.Pick(rt, "how", 5)
		var opts []swarm.Option
		margin := swarm.DefaultRecoveryConfig(g.Coherence).TargetMarginRatio
		tol := 0.03 // synchronization counts as achieved this far below the target
		switch how {
		case 1:
			cfg := swarm.For(goal.MinimizeAPICalls)
			cfg.Strategy.MaxIterationsFactor = vh.From(rt, "factor", 1.0, 3, 10)
			tol = 2 * max(cfg.Convergence.ToleranceSmall, cfg.Convergence.ToleranceMedium, cfg.Convergence.ToleranceLarge)
			opts = append(opts, swarm.WithGoalConfig(cfg))
		case 2:
			rc := swarm.DefaultRecoveryConfig(g.Coherence)
			rc.CheckInterval = vh.From(rt, "check", 20*time.Millisecond, 300*time.Millisecond)
			opts = append(opts, swarm.WithRecoveryConfig(rc))
		case 3:
			opts = append(opts, swarm.WithRecoveryConfig(swarm.RecoveryConfig{}))
		}
		type hit struct {
			at   time.Duration
			kind int
			frac float64
		}
		var hits []hit
		at := time.Duration(0)
		for i := vh.UI(1, 4).Draw(rt, "hits"); i > 0; i-- {
			at += time.Duration(vh.UI(300, 9000).Draw(rt, "gap")) * time.Millisecond
			if vh.OneIn(rt, "late", 8) {
				at += 110 * time.Second
			}
			hits = append(hits, hit{at, vh.Pick(rt, "hitkind", 3), vh.UF(0.1, 1).Draw(rt, "frac")})
			at += 15 * time.Second
		}
		end := at + time.Duration(vh.UI(1, 900).Draw(rt, "tail"))*time.Millisecond + 123457*time.Nanosecond
		c.Desc("size %d %+v how %d hits %v end %v", size, g, how, hits, end)
		need := math.Min(g.Coherence*margin, g.Coherence-tol) - 1e-9
		vh.Bubble(t, func() {
			var s *swarm.Swarm
			var err error
			if how == 4 {
				s, err = swarm.NewSwarmFromConfig(size, g, swarm.AutoScaleConfig(size))
			} else {
				s, err = swarm.New(size, g, opts...)
			}
			if err != nil {
				c.Fatalf("%v", err)
			}
			ctx, cancel := context.WithCancel(context.Background())
			defer cancel()
			t0 := time.Now()
			type res struct {
				err error
				at  time.Duration
			}
			done := make(chan res, 1)
			go func() {
				err := s.RunContinuous(ctx)
				done <- res{err, time.Since(t0)}
			}()
			since, held := 0, 0
			watch := func(until time.Duration) (best float64, took time.Duration) {
				from := time.Since(t0)
				took = -1
				for time.Since(t0) < until {
					time.Sleep(min(37*time.Millisecond, until-time.Since(t0)))
					m := order(c, s)
					best = math.Max(best, m)
					if took >= 0 {
						since++
						if m >= need {
							held++
						}
					}
					if m >= need && took < 0 {
						took = time.Since(t0) - from
					}
					select {
					case r := <-done:
						c.Fatalf("stopped by itself at %v: %v", r.at, r.err)
					default:
					}
				}
				return
			}
			broke := false
			for i, h := range hits {
				best, took := watch(h.at)
				if i == 0 && took < 0 && h.at > 6*time.Second {
					c.Fatalf("coherence only reached %v in the first %v, needed %v", best, h.at, need)
				}
				switch h.kind {
				case 0:
					s.DisruptAgents(h.frac)
				case 1:
					s.DisruptAgents(1)
				default:
					i := 0
					s.ForEachAgent(func(a *agent.Agent) bool {
						a.SetPhase(vh.TwoPi * float64(i) / float64(size))
						i++
						return true
					})
				}
				if order(c, s) < need {
					broke = true
				}
				since, held = 0, 0
				best, took = watch(h.at + 15*time.Second)
				if took < 0 || took > 8*time.Second {
					c.Fatalf("disruption %d at %v: coherence recovered only to %v in 8s, needed %v", i, h.at, best, need)
				}
				if since > 100 {
					f := float64(held) / float64(since)
					c.Label(fmt.Sprintf("held %.1f of the time", math.Floor(10*f)/10))
					if f < 0.3 && g.Coherence <= 0.85 {
						c.Fatalf("after disruption %d at %v coherence was held only %.2f of the time, needed %v", i, h.at, f, need)
					}
				}
				for _, b := range []time.Duration{1, 2, 4, 8, 15} {
					if took <= b*time.Second {
						c.Label(fmt.Sprintf("recovered within %ds", b))
						break
					}
				}
			}
			c.NonTrivial(broke)
			watch(end)
			cancel()
			r := <-done
			if !errors.Is(r.err, context.Canceled) || r.at != time.Since(t0) || r.at < end {
				c.Fatalf("cancelled at %v, returned %v at %v", end, r.err, r.at)
			}
		})
	})
}

func TestStops(t *testing.T) {
	vh.Check(t, 800, 10, "continuous operation cancelled, timed out or started with a finished context at any moment; every case is non-trivial", func(c *vh.Case, rt *rapid.T) {
		size := vh.UI(1, 120).Draw(rt, "size")
		g := core.State{Phase: vh.UnitPhase().Draw(rt, "phase"), Frequency: 250 * time.Millisecond, Coherence: vh.UF(0, 1).Draw(rt, "coh")}
		vh.SeedEntropy(vh.Seed64(rt, "seed"))
		kind := vh.Pick(rt, "kind", 3)
		at := time.Duration(vh.UI(1, 12e6).Draw(rt, "at"))*time.Microsecond + 7*time.Nanosecond
		if vh.OneIn(rt, "tick", 2) { // while an update of the phases is due or under way
			at = time.Duration(vh.From(rt, "at", 200, 300, 400, 600, 800, 900, 1000, 1200)) * time.Millisecond
		}
		c.Desc("size %d %+v kind %d at %v", size, g, kind, at)
		c.NonTrivial(true)
		vh.Bubble(t, func() {
			s, err := swarm.New(size, g)
			if err != nil {
				c.Fatalf("%v", err)
			}
			ctx, cancel := context.WithCancel(context.Background())
			want := context.Canceled
			switch kind {
			case 0:
				time.AfterFunc(at, cancel)
			case 1:
				ctx, cancel = context.WithTimeout(context.Background(), at)
				want = context.DeadlineExceeded
			default:
				at = 0
				cancel()
			}
			defer cancel()
			var agents []*agent.Agent
			s.ForEachAgent(func(a *agent.Agent) bool { agents = append(agents, a); return true })
			t0 := time.Now()
			err = s.RunContinuous(ctx)
			if d := time.Since(t0); !errors.Is(err, want) || d != at {
				c.Fatalf("returned %v after %v", err, d)
			}
			look := func() (ps []float64) {
				for _, a := range agents {
					ps = append(ps, a.Phase())
				}
				return
			}
			for _, pause := range []time.Duration{0, time.Second, 3 * time.Second} {
				was := look()
				time.Sleep(pause) // the bubble ends only if nothing is left running
				synctest.Wait()
				order(c, s)
				if !slices.Equal(was, look()) {
					c.Fatalf("the agents still move after the end")
				}
			}
		})
	})
}
