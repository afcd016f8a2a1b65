// C11: what an agent perceives and when it accepts an adjustment.
package c11

import (
	"math"
	"sort"
	"testing"
	"time"

	"github.com/carlisia/bio-adapt/emerge/agent"
	"github.com/carlisia/bio-adapt/emerge/core"
	"github.com/carlisia/bio-adapt/zzverif/vh"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { vh.Main(m) }

type strat struct {
	n        int
	cur, tgt core.State
	ctx      core.Context
	act      core.Action
	conf     float64
}

func (s *strat) Propose(cur, tgt core.State, ctx core.Context) (core.Action, float64) {
	s.n++
	s.cur, s.tgt, s.ctx = cur, tgt, ctx
	return s.act, s.conf
}
func (*strat) Name() string { return "spy" }

type decider struct {
	n     int
	opts  []core.Action
	st    core.State
	pick  int // 0: first option (the proposal), 1: the other
	score float64
}

func (d *decider) Decide(st core.State, o []core.Action) (core.Action, float64) {
	d.n++
	d.st = st
	d.opts = append([]core.Action{}, o...)
	if d.pick < len(o) {
		return o[d.pick], d.score
	}
	return o[0], d.score
}

func TestPerception(t *testing.T) {
	vh.Check(t, 5000, 30, "an agent with 0-30 neighbors at any phases, any swarm information; non-trivial = at least 2 neighbors, not all in phase", func(c *vh.Case, rt *rapid.T) {
		vh.SeedEntropy(vh.Seed64(rt, "ent"))
		st := &strat{act: core.Action{Type: "maintain"}}
		p := vh.AnyPhase().Draw(rt, "p")
		goal0 := vh.UnitPhase().Draw(rt, "goal")
		size := rapid.IntRange(0, 60).Draw(rt, "size")
		maxn := vh.From(rt, "mk", 0, 5, rapid.IntRange(0, 40).Draw(rt, "max"))
		f := time.Duration(rapid.IntRange(1, 1e9).Draw(rt, "f"))
		opts := []agent.Option{agent.WithPhase(p), agent.WithStrategy(st), agent.WithStubbornness(0), agent.WithLocalGoal(goal0), agent.WithFrequency(f)}
		if !vh.OneIn(rt, "noinfo", 4) {
			opts = append(opts, agent.WithSwarmInfo(size, maxn))
		} else {
			size, maxn = 0, 0
		}
		a := agent.New("a", opts...)
		n := rapid.IntRange(0, 30).Draw(rt, "n")
		kind := vh.Pick(rt, "kind", 4)
		var ph []float64
		for i := 0; i < n; i++ {
			var q float64
			switch kind {
			case 0:
				q = vh.Wrap(p)
			case 1:
				q = vh.Wrap(p + vh.UF(-0.5, 0.5).Draw(rt, "q"))
			case 2:
				q = vh.Wrap(float64(i) * vh.TwoPi / float64(max(n, 1)))
			default:
				q = vh.UnitPhase().Draw(rt, "q")
			}
			ph = append(ph, q)
			a.ConnectTo(string(rune('A'+i)), agent.New("n", agent.WithPhase(q)))
		}
		c.Desc("phase %v size %d max %d neighbors %v", p, size, maxn, ph)
		e0, i0, s0 := a.Energy(), a.Influence(), a.Stubbornness()
		a.UpdateContext()
		if a.Energy() != e0 || a.Influence() != i0 || a.Stubbornness() != s0 || a.Frequency() != f || vh.CircDist(a.Phase(), p) > 1e-9+1e-14*math.Abs(p) {
			c.Fatalf("perceiving changed the agent")
		}
		g := core.State{Phase: vh.AnyPhase().Draw(rt, "gp"), Frequency: time.Second, Coherence: vh.Unit().Draw(rt, "gc")}
		a.ProposeAdjustment(g)
		if st.n != 1 {
			c.Fatalf("strategy of an agent without stubbornness consulted %d times", st.n)
		}
		sort.Float64s(ph)
		want := vh.Order(ph)
		c.NonTrivial(n >= 2 && want < 1-1e-9)
		if st.ctx.Neighbors != n {
			c.Fatalf("perceives %d neighbors of %d", st.ctx.Neighbors, n)
		}
		wantDensity := 0.0
		if n > 0 {
			m := maxn
			if m == 0 {
				m = size - 1
			}
			if m > 0 {
				wantDensity = float64(n) / float64(m)
			}
		} else {
			want = 0
		}
		if !vh.Near(st.ctx.Density, wantDensity, 1e-12) {
			c.Fatalf("density %v with %d neighbors (swarm %d, max %d), want %v", st.ctx.Density, n, size, maxn, wantDensity)
		}
		if !vh.Near(st.ctx.LocalCoherence, want, 1e-9) || st.ctx.LocalCoherence < 0 || st.ctx.LocalCoherence > 1+1e-9 {
			c.Fatalf("local coherence %v, order of the neighbors is %v", st.ctx.LocalCoherence, want)
		}
		if !(st.ctx.Stability >= -1e-9 && st.ctx.Stability <= 1+1e-9) {
			c.Fatalf("stability %v", st.ctx.Stability)
		}
		// the state handed to the strategy is the agent's own, the target its local goal
		if vh.CircDist(st.cur.Phase, p) > 1e-9+1e-14*math.Abs(p) || st.cur.Frequency != f || !vh.Near(st.cur.Coherence, want, 1e-9) {
			c.Fatalf("strategy sees state %+v; phase %v frequency %v local coherence %v", st.cur, p, f, want)
		}
		if g := a.LocalGoal(); !(g >= 0 && g < 2*math.Pi) {
			c.Fatalf("local goal %v is not within one turn", g)
		}
		if vh.CircDist(st.tgt.Phase, a.LocalGoal()) > 1e-12 || st.tgt.Coherence != g.Coherence {
			c.Fatalf("strategy aims at %+v; local goal %v, target coherence %v", st.tgt, a.LocalGoal(), g.Coherence)
		}
		// the local goal lies between the agent and its neighbors' mean phase
		if n == 0 {
			if vh.CircDist(a.LocalGoal(), goal0) > 1e-9 {
				c.Fatalf("local goal of a lonely agent moved from %v to %v", goal0, a.LocalGoal())
			}
		} else if want > 1e-6 {
			var sc, ss float64
			for _, q := range ph {
				sc += math.Cos(q)
				ss += math.Sin(q)
			}
			mean := math.Atan2(ss, sc)
			own := a.Phase()
			d := vh.SignedDiff(mean, own)
			exp := own + d*(0.5+0.5*want)
			if math.Pi-math.Abs(d) > 1e-5 && vh.CircDist(a.LocalGoal(), exp) > 1e-6/want*1e-2+1e-7 {
				c.Fatalf("local goal %v; neighbors' mean %v at order %v from phase %v gives %v", a.LocalGoal(), vh.Wrap(mean), want, p, vh.Wrap(exp))
			}
		}
	})
}

// Acceptance in the cases where chance plays no part.
func TestCertain(t *testing.T) {
	vh.Check(t, 6000, 30, "stubbornness 0 or 1, certainty 0 or 1, costs around the energy; non-trivial = the proposal is accepted, or refused only for its cost", func(c *vh.Case, rt *rapid.T) {
		vh.SeedEntropy(vh.Seed64(rt, "ent"))
		e := vh.UF(0, 50).Draw(rt, "e")
		cost := vh.From(rt, "ck", vh.UF(0, 60).Draw(rt, "cost"), e, e*(1+1e-9)+1e-9, 0)
		stub := float64(vh.Pick(rt, "stub", 2))
		conf := float64(vh.Pick(rt, "conf", 2))
		acc := float64(vh.Pick(rt, "acc", 2))
		act := core.Action{Type: "pulse", Value: vh.UF(-3, 3).Draw(rt, "v"), Cost: cost, Benefit: 1}
		s := &strat{act: act, conf: conf}
		d := &decider{score: acc, pick: vh.Pick(rt, "pick", 2)}
		a := agent.New("a", agent.WithStrategy(s), agent.WithDecisionMaker(d), agent.WithStubbornness(stub), agent.WithEnergy(e))
		c.Desc("energy %v cost %v stub %v conf %v acc %v pick %d", e, cost, stub, conf, acc, d.pick)
		for r := 0; r < 3; r++ {
			p, en := a.Phase(), a.Energy()
			got, ok := a.ProposeAdjustment(core.State{Frequency: time.Second, Coherence: 0.5})
			if a.Phase() != p || a.Energy() != en {
				c.Fatalf("considering an adjustment changed the agent")
			}
			if stub == 1 {
				if ok || got.Type != "maintain" || got.Value != 0 {
					c.Fatalf("fully stubborn agent accepts %+v", got)
				}
				continue
			}
			if s.n != r+1 || d.n != r+1 {
				c.Fatalf("agent without stubbornness: strategy consulted %d, decision maker %d times in %d proposals", s.n, d.n, r+1)
			}
			if len(d.opts) != 2 || d.opts[0] != act || d.opts[1].Type != "maintain" {
				c.Fatalf("decision maker was offered %+v for proposal %+v", d.opts, act)
			}
			chosen := d.opts[d.pick]
			want := conf == 1 && acc == 1 && chosen.Cost <= e
			c.NonTrivial(want || (conf == 1 && acc == 1))
			if ok != want {
				c.Fatalf("accepted=%v: chosen %+v, energy %v, confidence %v, acceptance %v", ok, chosen, e, conf, acc)
			}
			if ok && got != chosen {
				c.Fatalf("accepted %+v but the decision was %+v", got, chosen)
			}
			if !ok && (got.Type != "maintain" || got.Value != 0) {
				c.Fatalf("refused proposal comes back as %+v", got)
			}
		}
	})
}

// Acceptance frequencies: (1-stubbornness)*confidence*acceptance.
func TestFrequencies(t *testing.T) {
	vh.Check(t, 60, 20, "4000 proposals per case with generated stubbornness, confidence and acceptance; non-trivial = expected rate within (0.05,0.95)", func(c *vh.Case, rt *rapid.T) {
		vh.SeedEntropy(vh.Seed64(rt, "ent"))
		stub, conf, acc := vh.UF(0, 1).Draw(rt, "s"), vh.UF(0, 1).Draw(rt, "c"), vh.UF(0, 1).Draw(rt, "a")
		a := agent.New("a", agent.WithStrategy(&strat{act: core.Action{Type: "pulse"}, conf: conf}), agent.WithDecisionMaker(&decider{score: acc}),
			agent.WithStubbornness(stub), agent.WithEnergy(10))
		const n = 4000
		k := 0
		for i := 0; i < n; i++ {
			if _, ok := a.ProposeAdjustment(core.State{Frequency: time.Second, Coherence: 0.5}); ok {
				k++
			}
		}
		p := (1 - stub) * conf * acc
		c.Desc("stub %v conf %v acc %v: %d of %d", stub, conf, acc, k, n)
		c.NonTrivial(p > 0.05 && p < 0.95)
		if sd := math.Sqrt(p*(1-p)/n) + 0.0005; math.Abs(float64(k)/n-p) > 6.5*sd {
			c.Fatalf("accepted %v of proposals, expected %v (stubbornness %v, confidence %v, acceptance %v)", float64(k)/n, p, stub, conf, acc)
		}
	})
}
