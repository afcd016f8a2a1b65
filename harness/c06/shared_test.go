package c06

import (
	"fmt"
	"math"
	"sync/atomic"
	"testing"
	"time"

	"github.com/carlisia/bio-adapt/emerge/agent"
	"github.com/carlisia/bio-adapt/emerge/core"
	"github.com/carlisia/bio-adapt/emerge/decision"
	"github.com/carlisia/bio-adapt/emerge/strategy"
	"github.com/carlisia/bio-adapt/zzverif/vh"
	"pgregory.net/rapid"
)

// One agent asked by several goroutines, and one strategy shared by several
// agents, propose as they do alone: without data races, with sound numbers, and a
// pulsing strategy gives out one pulse per period, no matter how many ask.
func TestProposals(t *testing.T) {
	vh.Check(t, 60, 20, "2-8 workers asking 1-4 agents that share a strategy, or the strategy itself, in virtual time so that they ask at the same instant; non-trivial = a pulse came due at least twice, or another strategy", func(c *vh.Case, rt *rapid.T) {
		vh.SeedEntropy(vh.Seed64(rt, "ent"))
		period := time.Duration(1+vh.Pick(rt, "period", 40)) * time.Millisecond
		kind := vh.From(rt, "kind", "pulse", "pulse", "pulse", "nudge", "lock", "energy", "adaptive")
		workers := 2 + vh.Pick(rt, "workers", 7)
		agents := 1 + vh.Pick(rt, "agents", 4)
		rounds := 5 + vh.Pick(rt, "rounds", 40)
		step := time.Duration(1+vh.Pick(rt, "step", 20)) * time.Millisecond
		direct := make([]bool, workers)
		for i := range direct {
			direct[i] = vh.OneIn(rt, "direct", 2)
		}
		c.Desc("%s (period %v), %d workers, %d agents, %d rounds of %v, direct %v", kind, period, workers, agents, rounds, step, direct)
		vh.Bubble(t, func() {
			var s core.SyncStrategy
			switch kind {
			case "pulse":
				s = strategy.NewPulse(period, 1)
			case "nudge":
				s = strategy.NewPhaseNudge(0.5)
			case "lock":
				s = strategy.NewFrequencyLock(0.5)
			case "energy":
				s = strategy.NewEnergyAware(10)
			case "adaptive":
				s = strategy.NewAdaptive([]core.SyncStrategy{strategy.NewPhaseNudge(0.5), strategy.NewPulse(period, 1), strategy.NewEnergyAware(10)})
			}
			dm := &decision.SimpleDecisionMaker{}
			as := make([]*agent.Agent, agents)
			for i := range as {
				as[i] = agent.New(fmt.Sprint("a", i), agent.WithStrategy(s), agent.WithDecisionMaker(dm), agent.WithPhase(float64(i)), agent.WithStubbornness(0), agent.WithEnergy(1e9))
			}
			for i := range as {
				if j := (i + 1) % agents; j != i {
					as[i].ConnectTo(as[j].ID, as[j])
				}
			}
			start := time.Now()
			var pulses atomic.Int64
			ws := make([]func(), workers)
			for w := range ws {
				ws[w] = func() {
					a := as[w%agents]
					for range rounds {
						time.Sleep(step)
						var act core.Action
						if direct[w] {
							var conf float64
							act, conf = s.Propose(core.State{Phase: 1, Frequency: time.Second, Coherence: 0.5}, core.State{Phase: 2, Frequency: time.Second, Coherence: 0.9}, core.Context{Stability: 0.5})
							if !(conf >= 0 && conf <= 1) {
								panic(fmt.Sprintf("PROPERTY-VIOLATED: confidence %v", conf))
							}
						} else {
							a.UpdateContext()
							var ok bool
							if act, ok = a.ProposeAdjustment(core.State{Phase: 2, Frequency: time.Second, Coherence: 0.9}); ok {
								_, _, _ = a.ApplyAction(act)
							}
						}
						if math.IsNaN(act.Value) || math.Abs(act.Value) > math.Pi+1e-9 || !(act.Cost >= 0) {
							panic(fmt.Sprintf("PROPERTY-VIOLATED: proposal %+v", act))
						}
						if act.Type == "pulse" {
							pulses.Add(1)
						}
					}
				}
			}
			run(ws...)
			due := int64(time.Since(start) / period)
			c.NonTrivial(kind != "pulse" || due >= 2)
			c.Label(kind)
			if kind == "pulse" && pulses.Load() > due {
				c.Fatalf("%d pulses in %v with a period of %v", pulses.Load(), time.Since(start), period)
			}
		})
	})
}
