// C25: scale, goal, trait and request-pattern tables are consistent with each other
// and with their documentation.
package c25

import (
	"math"
	"testing"

	"github.com/carlisia/bio-adapt/emerge/goal"
	"github.com/carlisia/bio-adapt/emerge/scale"
	"github.com/carlisia/bio-adapt/emerge/swarm"
	"github.com/carlisia/bio-adapt/emerge/trait"
	"github.com/carlisia/bio-adapt/simulations/emerge/simulation/pattern"
	"github.com/carlisia/bio-adapt/zzverif/vh"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { vh.Main(m) }

var bounds = []int{20, 50, 200, 1000} // documented largest count of each scale but the last
var counts = []int{20, 50, 200, 1000, 2000}

func genCount(rt *rapid.T, name string) int {
	switch vh.Pick(rt, name+"kind", 4) {
	case 0:
		return vh.From(rt, name, bounds...) + vh.UI(-2, 2).Draw(rt, name)
	case 1:
		return vh.From(rt, name, 0, -1, math.MinInt, math.MaxInt, 1, 2000, 2001)
	}
	return vh.UI(-10, 4000).Draw(rt, name)
}

// TestScale: counts map to scales without gaps and in order; what a scale recommends
// moves in the documented direction and leads back to the same scale.
func TestScale(t *testing.T) {
	vh.Check(t, 20000, 20, "pairs of agent counts of any sign and magnitude, biased to the scale boundaries, and pairs of scales including unknown ones; non-trivial = the counts fall into different scales", func(c *vh.Case, rt *rapid.T) {
		a, b := genCount(rt, "a"), genCount(rt, "b")
		if a > b {
			a, b = b, a
		}
		c.Desc("%d %d", a, b)
		want := func(n int) scale.Size {
			for i, m := range bounds {
				if n <= m {
					return scale.Size(i)
				}
			}
			return scale.Huge
		}
		sa, sb := scale.FromCount(a), scale.FromCount(b)
		if sa != want(a) || sb != want(b) || sa > sb {
			c.Fatalf("%d agents are %v, %d are %v", a, sa, b, sb)
		}
		x, y := scale.Size(vh.UI(0, 4).Draw(rt, "x")), scale.Size(vh.UI(0, 4).Draw(rt, "y"))
		for _, s := range []scale.Size{x, y} {
			n := s.DefaultAgentCount()
			if n != counts[s] || scale.FromCount(n) != s {
				c.Fatalf("%v has %d agents by default, which is %v", s, n, scale.FromCount(n))
			}
			if tc := s.DefaultTargetCoherence(); !(tc > 0 && tc <= swarm.GetCoherenceLimits(n).Recommended) {
				c.Fatalf("%v targets coherence %v; %d agents should go for at most %v", s, tc, n, swarm.GetCoherenceLimits(n).Recommended)
			}
			if s.UpdateInterval() != s.DefaultUpdateIntervalMs() || s.UpdateInterval() <= 0 {
				c.Fatalf("%v has two update intervals: %d, %d", s, s.UpdateInterval(), s.DefaultUpdateIntervalMs())
			}
			if m := s.MaxNeighbors(); m <= 0 || m >= n {
				c.Fatalf("%v has up to %d neighbours of %d agents", s, m, n)
			}
			if s.DefaultConvergenceTimeFactor() < 1 {
				c.Fatalf("%v converges faster than the baseline", s)
			}
		}
		if x < y {
			if !(x.DefaultAgentCount() < y.DefaultAgentCount() && x.DefaultTargetCoherence() > y.DefaultTargetCoherence() &&
				x.UpdateInterval() < y.UpdateInterval() && x.DefaultConvergenceTimeFactor() < y.DefaultConvergenceTimeFactor()) {
				c.Fatalf("%v and %v: recommendations do not follow the size", x, y)
			}
			// documented density: fully connected when tiny, sparse when large, minimal when huge
			d := func(s scale.Size) float64 { return float64(s.MaxNeighbors()) / float64(s.DefaultAgentCount()) }
			if d(x) <= d(y) {
				c.Fatalf("%v is less densely connected than %v", x, y)
			}
			if x.String() == y.String() {
				c.Fatalf("%d and %d share the name %v", int(x), int(y), x)
			}
		}
		u := scale.Size(vh.From(rt, "unknown", 5, -1, 99, math.MaxInt, math.MinInt))
		if u.String() != "unknown" || u.DefaultAgentCount() <= 0 || u.UpdateInterval() <= 0 || u.DefaultUpdateIntervalMs() <= 0 ||
			u.MaxNeighbors() <= 0 || u.DefaultConvergenceTimeFactor() < 1 || !(u.DefaultTargetCoherence() > 0 && u.DefaultTargetCoherence() <= 1) {
			c.Fatalf("unusable defaults for an unknown scale %d", int(u))
		}
		c.NonTrivial(sa != sb)
	})
}

// documented size ranges of the goals
func recommended(g goal.Type, n int) bool {
	switch g {
	case goal.DistributeLoad, goal.RecoverFromFailure:
		return n >= 20
	case goal.ReachConsensus:
		return n >= 50 && n <= 1000
	case goal.MinimizeLatency, goal.SaveEnergy:
		return n <= 200
	case goal.AdaptToTraffic:
		return n >= 20 && n <= 1000
	}
	return true
}

func TestGoals(t *testing.T) {
	keys := map[string]goal.Type{}
	vh.Check(t, 20000, 20, "goals and traits (known and unknown) with agent counts biased to the documented size limits; non-trivial = the goal is not recommended at that size", func(c *vh.Case, rt *rapid.T) {
		g := goal.Type(vh.UI(-1, 9).Draw(rt, "goal"))
		n := vh.UI(1, 3000).Draw(rt, "n")
		if vh.OneIn(rt, "edge", 2) {
			n = vh.From(rt, "edge", 19, 20, 21, 49, 50, 51, 199, 200, 201, 999, 1000, 1001)
		}
		c.Desc("%d %d", g, n)
		if got := g.IsRecommendedForSize(n); got != recommended(g, n) {
			c.Fatalf("%v at %d agents: recommended %v", g, n, got)
		}
		known := g >= 0 && g <= 7
		if (g.ShortKey() != "?") != known || (g.String() != "Custom Goal") != known || len(g.ShortKey()) != 1 {
			c.Fatalf("goal %d is called %q with key %q", int(g), g, g.ShortKey())
		}
		if known {
			if o, ok := keys[g.ShortKey()]; ok && o != g {
				c.Fatalf("%v and %v share the key %q", o, g, g.ShortKey())
			}
			keys[g.ShortKey()] = g
			if o, ok := keys[g.String()]; ok && o != g {
				c.Fatalf("two goals are called %q", g)
			}
			keys[g.String()] = g
		}
		a, b := trait.Target(vh.UI(0, 5).Draw(rt, "a")), trait.Target(vh.UI(0, 5).Draw(rt, "b"))
		if a != b && a.String() == b.String() || a.String() == "unknown" || trait.Target(6+vh.Pick(rt, "u", 9)).String() != "unknown" {
			c.Fatalf("traits %d %d are called %v %v", int(a), int(b), a, b)
		}
		c.NonTrivial(known && !recommended(g, n))
	})
}

// TestPatterns: modifier, qualifier and recommendation agree, stay in range, and the
// best pattern of a goal is really its best.
func TestPatterns(t *testing.T) {
	rank := map[string]int{pattern.QualifierPoor: 0, pattern.QualifierFair: 1, pattern.QualifierGood: 2, pattern.QualifierExcellent: 3, pattern.QualifierOptimal: 4}
	limits := []float64{0, 0.8, 1, 1.2, 1.3}
	vh.Check(t, 20000, 20, "goals (known and unknown), request patterns and agent counts biased to the documented thresholds; non-trivial = the size changes the modifier", func(c *vh.Case, rt *rapid.T) {
		g := vh.UI(-1, 9).Draw(rt, "goal")
		p, q := pattern.Type(vh.UI(0, 5).Draw(rt, "p")), pattern.Type(vh.UI(0, 5).Draw(rt, "q"))
		n := vh.UI(1, 3000).Draw(rt, "n")
		if vh.OneIn(rt, "edge", 2) {
			n = vh.From(rt, "edge", 49, 50, 51, 999, 1000, 1001)
		}
		c.Desc("%d %v %v %d", g, p, q, n)
		m, k := pattern.GetCoherenceModifier(g, n, p), pattern.GetCoherenceModifier(g, n, q)
		if !(m >= 0.5 && m <= 1.5) {
			c.Fatalf("modifier %v", m)
		}
		r, ok := rank[pattern.GetQualifier(g, n, p)]
		if !ok || m < limits[r] || r < 4 && m >= limits[r+1] {
			c.Fatalf("modifier %v is called %v", m, pattern.GetQualifier(g, n, p))
		}
		if r2 := rank[pattern.GetQualifier(g, n, q)]; m < k && r > r2 {
			c.Fatalf("the worse modifier %v has the better qualifier", m)
		}
		if pattern.IsRecommended(g, n, p) != (r >= 3) {
			c.Fatalf("qualifier %v, recommended %v", pattern.GetQualifier(g, n, p), pattern.IsRecommended(g, n, p))
		}
		mid := pattern.GetCoherenceModifier(g, 500, p)
		switch {
		case n >= 1000 && p == pattern.HighFrequency, n <= 50 && p == pattern.Sparse:
			if m >= mid {
				c.Fatalf("%v is not harder at %d agents: %v, at 500 %v", p, n, m, mid)
			}
		default:
			if m != mid {
				c.Fatalf("%v at %d agents: %v, at 500 %v", p, n, m, mid)
			}
		}
		if g >= 0 && g <= 7 {
			best := pattern.BestPatternForGoal(g)
			if b := pattern.GetCoherenceModifier(g, 500, best); b < mid || pattern.GetQualifier(g, 500, best) != pattern.QualifierOptimal {
				c.Fatalf("goal %d: the best pattern %v has modifier %v, %v has %v", g, best, b, p, mid)
			}
			if best == pattern.Unset {
				c.Fatalf("no best pattern for goal %d", g)
			}
		} else if pattern.BestPatternForGoal(g) != pattern.Steady {
			c.Fatalf("an unknown goal prefers %v", pattern.BestPatternForGoal(g))
		}
		if p == pattern.Unset && mid != 1 {
			c.Fatalf("no pattern modifies coherence by %v", mid)
		}
		if p != q && (p.String() == q.String() || p.ShortKey() == q.ShortKey() || p.Description() == q.Description()) {
			c.Fatalf("%d and %d share a name, key or description", int(p), int(q))
		}
		if u := pattern.Type(6 + vh.Pick(rt, "u", 9)); u.String() != "Unknown" || u.ShortKey() != "" || u.Description() != "" {
			c.Fatalf("unknown pattern is called %v", u)
		}
		c.NonTrivial(m != mid)
	})
}
