// C10: decision making and goal blending.
package c10

import (
	"math"
	"testing"
	"time"

	"github.com/carlisia/bio-adapt/emerge/core"
	"github.com/carlisia/bio-adapt/emerge/decision"
	"github.com/carlisia/bio-adapt/emerge/goal"
	"github.com/carlisia/bio-adapt/zzverif/vh"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { vh.Main(m) }

func TestDecide(t *testing.T) {
	vh.Check(t, 15000, 40, "0-8 options with any benefit (also negative) and any non-negative cost incl. below the 0.1 floor; non-trivial = at least two options and the best is not the first", func(c *vh.Case, rt *rapid.T) {
		n := vh.Len(rt, "n", 0, 8, 120)
		opts := make([]core.Action, n)
		types := []string{"maintain", "phase_nudge", "pulse", "custom"}
		for i := range opts {
			opts[i] = core.Action{Type: types[vh.Pick(rt, "t", 4)], Value: float64(i) + 0.5,
				Cost:    vh.From(rt, "ck", vh.UF(0, 10).Draw(rt, "cost"), 0, 0.1, 0.05, 1e-12),
				Benefit: vh.From(rt, "bk", vh.UF(-5, 5).Draw(rt, "ben"), 0, 1, 2, -1, 1e6, -1e6)}
		}
		st := core.State{Phase: vh.UnitPhase().Draw(rt, "p"), Frequency: time.Second, Coherence: vh.Unit().Draw(rt, "coh")}
		c.Desc("%+v", opts)
		d := &decision.SimpleDecisionMaker{}
		keep := append([]core.Action{}, opts...)
		a, conf := d.Decide(st, opts)
		if !(conf >= 0 && conf <= 1+1e-9) {
			c.Fatalf("confidence %v outside [0,1]", conf)
		}
		if n == 0 {
			if a.Type != "maintain" || conf != st.Coherence {
				c.Fatalf("no options: %+v, confidence %v at coherence %v", a, conf, st.Coherence)
			}
			return
		}
		best := math.Inf(-1)
		at := -1
		for i, o := range opts {
			if o != keep[i] {
				c.Fatalf("the options were modified")
			}
			if s := o.Benefit / math.Max(o.Cost, 0.1); s > best {
				best, at = s, i
			}
		}
		c.NonTrivial(n > 1 && at > 0)
		chosen := false
		for _, o := range opts {
			chosen = chosen || o == a
		}
		if !chosen {
			c.Fatalf("chose %+v, which is not among the options", a)
		}
		if s := a.Benefit / math.Max(a.Cost, 0.1); !vh.RelNear(s, best, 1e-12) {
			c.Fatalf("chose %+v with benefit/cost %v although %v is available (%+v)", a, s, best, opts[at])
		}
		if want := math.Min(math.Max(best/2, 0), 1); !vh.RelNear(conf, want, 1e-12) {
			c.Fatalf("confidence %v for best benefit/cost %v, want %v", conf, best, want)
		}
	})
}

func TestBlend(t *testing.T) {
	vh.Check(t, 15000, 40, "local/global phases anywhere on the line, weights incl. outside [0,1]; non-trivial = 0<weight<1 and the shortest path crosses 0/2π or a phase lies outside [0,2π)", func(c *vh.Case, rt *rapid.T) {
		l := core.State{Phase: vh.AnyPhase().Draw(rt, "lp"), Frequency: time.Duration(rapid.IntRange(1, 1e9).Draw(rt, "lf")), Coherence: vh.Unit().Draw(rt, "lc")}
		g := core.State{Phase: vh.AnyPhase().Draw(rt, "gp"), Frequency: time.Duration(rapid.IntRange(1, 1e9).Draw(rt, "gf")), Coherence: vh.Unit().Draw(rt, "gc")}
		if vh.OneIn(rt, "anti", 6) {
			g.Phase = l.Phase + math.Pi
		}
		w := vh.From(rt, "wk", vh.Unit().Draw(rt, "w"), vh.UF(0, 1).Draw(rt, "w1"), vh.UF(-3, 4).Draw(rt, "w2"))
		c.Desc("blend(%v,%v,%v)", l, g, w)
		cw := math.Min(1, math.Max(0, w))
		diff := vh.SignedDiff(g.Phase, l.Phase)
		crosses := math.Abs(vh.Wrap(g.Phase)-vh.Wrap(l.Phase)) > math.Pi
		c.NonTrivial(cw > 0 && cw < 1 && (crosses || l.Phase < 0 || g.Phase < 0 || l.Phase >= vh.TwoPi || g.Phase >= vh.TwoPi))
		b := (&goal.WeightedManager{}).Blend(l, g, w)
		eps := 1e-9 + 1e-14*(math.Abs(l.Phase)+math.Abs(g.Phase))
		if !(b.Phase >= 0 && b.Phase <= vh.TwoPi) {
			c.Fatalf("blended phase %v out of range", b.Phase)
		}
		ok := vh.CircDist(b.Phase, l.Phase+diff*cw) <= eps
		if math.Pi-math.Abs(diff) < 2*eps {
			ok = ok || vh.CircDist(b.Phase, l.Phase-diff*cw) <= 4*eps
		}
		if !ok {
			c.Fatalf("blend of %v and %v with weight %v gives %v, want %v", l.Phase, g.Phase, w, b.Phase, vh.Wrap(l.Phase+diff*cw))
		}
		if !vh.Near(b.Coherence, l.Coherence*(1-cw)+g.Coherence*cw, 1e-12) {
			c.Fatalf("blended coherence %v of %v and %v with weight %v", b.Coherence, l.Coherence, g.Coherence, w)
		}
		if b.Frequency != l.Frequency {
			c.Fatalf("blended frequency %v, local %v", b.Frequency, l.Frequency)
		}
	})
}
