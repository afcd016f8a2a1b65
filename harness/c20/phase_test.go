package c20

import (
	"context"
	"math"
	"testing"
	"time"

	"github.com/carlisia/bio-adapt/emerge/agent"
	"github.com/carlisia/bio-adapt/emerge/core"
	"github.com/carlisia/bio-adapt/emerge/swarm"
	"github.com/carlisia/bio-adapt/zzverif/vh"
	"pgregory.net/rapid"
)

func TestPhase(t *testing.T) {
	vh.Check(t, 300, 10, "10-60 agents spread evenly three times over while continuous operation works towards a random phase; every case is non-trivial", func(c *vh.Case, rt *rapid.T) {
		size := vh.UI(10, 60).Draw(rt, "size")
		g := core.State{Phase: vh.UnitPhase().Draw(rt, "phase"), Frequency: time.Duration(vh.UI(50e6, 2e9).Draw(rt, "freq")), Coherence: vh.UF(0.4, 0.9).Draw(rt, "coh")}
		g.Coherence = math.Min(g.Coherence, swarm.GetCoherenceLimits(size).Practical)
		vh.SeedEntropy(vh.Seed64(rt, "seed"))
		c.Desc("size %d %+v", size, g)
		c.NonTrivial(true)
		vh.Bubble(t, func() {
			s, err := swarm.New(size, g)
			if err != nil {
				c.Fatalf("%v", err)
			}
			ctx, cancel := context.WithCancel(context.Background())
			done := make(chan error, 1)
			go func() { done <- s.RunContinuous(ctx) }()
			best, off := math.Pi, math.Inf(1)
			for range 3 {
				i := 0
				s.ForEachAgent(func(a *agent.Agent) bool { a.SetPhase(vh.TwoPi * float64(i) / float64(size)); i++; return true })
				time.Sleep(40 * time.Second)
				x, y, sum := 0.0, 0.0, 0.0
				s.ForEachAgent(func(a *agent.Agent) bool {
					x += math.Cos(a.Phase())
					y += math.Sin(a.Phase())
					sum += float64(a.Frequency())
					return true
				})
				off = min(off, math.Abs(sum/float64(size)/float64(g.Frequency)-1))
				best = min(best, vh.CircDist(math.Atan2(y, x), g.Phase))
			}
			// seen: at most 0.76 each time, but for one in thousands
			if best > 1.3 {
				c.Fatalf("the agents gathered %.2f away from the goal's phase", best)
			}
			if off > 0.4 { // seen: at most 0.15
				c.Fatalf("the mean period stays %.0f%% away from the goal's", 100*off)
			}
			cancel()
			<-done
		})
	})
}
