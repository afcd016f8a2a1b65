package c20

import (
	"context"
	"errors"
	"math"
	"testing"
	"time"

	"github.com/carlisia/bio-adapt/emerge/agent"
	"github.com/carlisia/bio-adapt/emerge/core"
	"github.com/carlisia/bio-adapt/emerge/swarm"
	"github.com/carlisia/bio-adapt/zzverif/vh"
	"pgregory.net/rapid"
)

// TestThresholds lets a swarm settle under continuous operation with a random
// recovery configuration, puts it at an exactly known coherence and predicts
// from the documented meaning of the thresholds whether it has to act.
func TestThresholds(t *testing.T) {
	vh.Check(t, 600, 12, "settled swarms of 2-30 agents with a random recovery configuration, disturbed to a known coherence clear of every threshold; non-trivial = a disturbance that had to be left alone and one that had to be repaired, or a repair only one threshold asks for", func(c *vh.Case, rt *rapid.T) {
		size := 2 * vh.UI(1, 15).Draw(rt, "half")
		g := core.State{Phase: vh.UnitPhase().Draw(rt, "phase"), Frequency: time.Duration(vh.UI(100e6, 400e6).Draw(rt, "freq")), Coherence: vh.UF(0.2, 0.95).Draw(rt, "coh")}
		g.Coherence = math.Min(g.Coherence, swarm.GetCoherenceLimits(size).Practical)
		rc := swarm.RecoveryConfig{
			MinimumViableCoherence: vh.UF(0, 0.9).Draw(rt, "viable"),
			TargetMarginRatio:      vh.UF(0, 1).Draw(rt, "margin"),
			SmallDropRatio:         vh.UF(0.01, 0.6).Draw(rt, "small"),
			StuckThreshold:         vh.From(rt, "stuck", 0, 1, 5, 10000),
			CheckInterval:          time.Duration(vh.UI(20, 3000).Draw(rt, "check")) * time.Millisecond,
		}
		rc.LargeDropRatio = rc.SmallDropRatio + vh.UF(0, 0.4).Draw(rt, "large")
		if vh.OneIn(rt, "blind", 3) { // only the floor and the margin count
			rc.SmallDropRatio, rc.LargeDropRatio = 1, 1
		}
		vh.SeedEntropy(vh.Seed64(rt, "seed"))
		var levels []float64
		for i := vh.UI(1, 4).Draw(rt, "hits"); i > 0; i-- {
			levels = append(levels, vh.UF(0.02, 0.999).Draw(rt, "level"))
		}
		slow := vh.OneIn(rt, "slow", 2) // sinks to the level, no two checks see a drop
		c.Desc("size %d %+v %+v levels %v slow %v", size, g, rc, levels, slow)
		vh.Bubble(t, func() {
			s, err := swarm.New(size, g, swarm.WithRecoveryConfig(rc))
			if err != nil {
				c.Fatalf("%v", err)
			}
			var agents []*agent.Agent
			s.ForEachAgent(func(a *agent.Agent) bool { agents = append(agents, a); return true })
			place := func(r float64) {
				for i, a := range agents {
					a.SetPhase(vh.Wrap(g.Phase + math.Acos(r)*float64(2*(i%2)-1)))
				}
			}
			look := func() (ps []float64) {
				for _, a := range agents {
					ps = append(ps, a.Phase())
				}
				return
			}
			same := func(a, b []float64) bool {
				for i := range a {
					if a[i] != b[i] {
						return false
					}
				}
				return true
			}
			ctx, cancel := context.WithCancel(context.Background())
			defer cancel()
			done := make(chan error, 1)
			go func() { done <- s.RunContinuous(ctx) }()
			left, mended := false, false
			for _, r := range levels {
				// settle: everybody agrees, and whatever synchronization runs uses its budget up
				quiet := false
				for try := 0; try < 4 && !quiet; try++ {
					place(1)
					before := look()
					time.Sleep(1000*100*time.Millisecond + 4*rc.CheckInterval)
					quiet = same(before, look())
				}
				if !quiet {
					c.Label("never quiet")
					break
				}
				// what the documentation says about a coherence of x after one of 1
				const edge = 0.01
				calm := func(x float64) bool {
					return x > rc.MinimumViableCoherence+edge && x > g.Coherence*rc.TargetMarginRatio+edge && 1-x < rc.SmallDropRatio-edge
				}
				x := 1.0
				for slow && x*(1-rc.SmallDropRatio/2) > r && x > 0.05 {
					x *= 1 - rc.SmallDropRatio/2
					if !calm(x) { // a reaction is in order (or may be) here already
						r = x
						break
					}
					place(x)
					before := look()
					time.Sleep(rc.CheckInterval + rc.CheckInterval/16)
					if !same(before, look()) {
						c.Fatalf("at coherence %v, which the configuration tolerates, the swarm was adjusted", x)
					}
				}
				place(r)
				if got := s.MeasureCoherence(); math.Abs(got-r) > 1e-6 {
					c.Fatalf("coherence %v of agents placed at %v", got, r)
				}
				reasons := 0
				if r < rc.MinimumViableCoherence-edge {
					reasons++
				}
				if r < g.Coherence*rc.TargetMarginRatio-edge {
					reasons++
				}
				if 1-r > rc.LargeDropRatio+0.04 || 1-r > rc.SmallDropRatio+0.04 && r < g.Coherence-edge {
					reasons++
				}
				before := look()
				switch {
				case calm(r):
					time.Sleep(5*time.Second + 5*rc.CheckInterval)
					if !same(before, look()) {
						c.Fatalf("at coherence %v, which the configuration tolerates, the swarm was adjusted", r)
					}
					left = true
					c.Label("left alone")
				case reasons > 0 && r < g.Coherence-0.12: // a synchronization would not be over at once
					time.Sleep(rc.CheckInterval + 3*time.Second)
					if same(before, look()) {
						c.Fatalf("at coherence %v nothing was done in %v", r, rc.CheckInterval+3*time.Second)
					}
					mended = true
					if reasons == 1 {
						c.NonTrivial(true)
					}
					c.Label("repaired")
				default:
					c.Label("unclear")
				}
			}
			c.NonTrivial(left && mended)
			cancel()
			if err := <-done; !errors.Is(err, context.Canceled) {
				c.Fatalf("ended with %v", err)
			}
		})
	})
}
