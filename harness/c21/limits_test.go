// C21: what coherence a swarm size allows, and the recovery thresholds.
package c21

import (
	"math"
	"testing"

	"github.com/carlisia/bio-adapt/emerge/swarm"
	"github.com/carlisia/bio-adapt/zzverif/vh"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { vh.Main(m) }

func genSize(rt *rapid.T, name string) int {
	switch vh.Pick(rt, name+"kind", 4) {
	case 0:
		return vh.From(rt, name, 2, 3, 4, 5, 6, 9, 10, 11, 19, 20, 21, 49, 50, 51, 99, 100, 101)
	case 1:
		return vh.UI(2, 5000000).Draw(rt, name)
	default:
		return vh.UI(2, 160).Draw(rt, name)
	}
}

func genCoh(rt *rapid.T, name string) float64 {
	switch vh.Pick(rt, name+"kind", 3) {
	case 0:
		return vh.From(rt, name, 0, 0.5, 0.7, 0.75, 0.85, 0.9, 0.92, 0.95, 0.97, 0.98, 0.99, 0.995, 0.998, 0.999, 1) + vh.From(rt, name+"eps", 0, 0, 1e-9, -1e-9)
	case 1:
		return vh.UF(0.8, 1).Draw(rt, name)
	default:
		return vh.UF(0, 1).Draw(rt, name)
	}
}

func TestLimits(t *testing.T) {
	vh.Check(t, 6000, 20, "two swarm sizes from 2 to 5 million with category boundaries; non-trivial = the sizes differ in category", func(c *vh.Case, rt *rapid.T) {
		a, b := genSize(rt, "a"), genSize(rt, "b")
		if a > b {
			a, b = b, a
		}
		c.Desc("sizes %d %d", a, b)
		la, lb := swarm.GetCoherenceLimits(a), swarm.GetCoherenceLimits(b)
		c.NonTrivial(la != lb)
		for n, l := range map[int]swarm.CoherenceLimits{a: la, b: lb} {
			if !(0 < l.Recommended && l.Recommended < l.Practical && l.Practical < l.Theoretical && l.Theoretical < 1) {
				c.Fatalf("limits of %d agents: %+v", n, l)
			}
		}
		if la.Recommended > lb.Recommended || la.Practical > lb.Practical || la.Theoretical > lb.Theoretical {
			c.Fatalf("more agents allow less: %d %+v, %d %+v", a, la, b, lb)
		}
		n := -vh.UI(0, 1000).Draw(rt, "n")
		if swarm.GetCoherenceLimits(n) != (swarm.CoherenceLimits{}) {
			c.Fatalf("limits of %d agents: %+v", n, swarm.GetCoherenceLimits(n))
		}
		if l := swarm.GetCoherenceLimits(1); l.Theoretical != 1 || l.Practical != 1 || l.Recommended != 1 {
			c.Fatalf("limits of one agent: %+v", l)
		}
	})
}

func TestMinimumSize(t *testing.T) {
	vh.Check(t, 6000, 20, "two target coherences in [0,1] with category boundaries; non-trivial = a target above 0.85", func(c *vh.Case, rt *rapid.T) {
		x, y := genCoh(rt, "x"), genCoh(rt, "y")
		if x > y {
			x, y = y, x
		}
		c.Desc("targets %v %v", x, y)
		c.NonTrivial(y > 0.85)
		nx, ny := swarm.GetMinimumSwarmSize(x), swarm.GetMinimumSwarmSize(y)
		if nx > ny || nx < 2 {
			c.Fatalf("minimum sizes %d and %d", nx, ny)
		}
		best := swarm.GetCoherenceLimits(math.MaxInt).Practical
		for v, n := range map[float64]int{x: nx, y: ny} {
			if p := swarm.GetCoherenceLimits(n).Practical; v <= best && p < v {
				c.Fatalf("%d agents are said to be enough for %v, in practice they reach %v", n, v, p)
			}
			if f := swarm.GetConvergenceTimeFactor(n, v); v <= best && math.IsInf(f, 0) {
				c.Fatalf("%d agents are said to be enough for %v, in infinite time", n, v)
			}
			// nor is the minimum pointlessly large
			if n > 2 && v <= best && swarm.GetCoherenceLimits(n/4).Practical >= v && n/4 >= 2 && swarm.GetCoherenceLimits(n/4).Recommended >= v {
				c.Fatalf("%d agents are called the minimum for %v, %d are recommended for it", n, v, n/4)
			}
		}
	})
}

func TestTimeFactor(t *testing.T) {
	vh.Check(t, 6000, 20, "two swarm sizes and two targets; non-trivial = the factors differ", func(c *vh.Case, rt *rapid.T) {
		a, b := genSize(rt, "a"), genSize(rt, "b")
		if a > b {
			a, b = b, a
		}
		x, y := genCoh(rt, "x"), genCoh(rt, "y")
		if x > y {
			x, y = y, x
		}
		c.Desc("sizes %d %d targets %v %v", a, b, x, y)
		ax, ay, bx := swarm.GetConvergenceTimeFactor(a, x), swarm.GetConvergenceTimeFactor(a, y), swarm.GetConvergenceTimeFactor(b, x)
		c.NonTrivial(ax != ay || ax != bx)
		if !(ax >= 1) || !(ay >= ax) || !(bx <= ax) || !(bx >= 1) {
			c.Fatalf("factors %v; higher target %v; more agents %v", ax, ay, bx)
		}
		if math.IsInf(ax, 1) != (x > swarm.GetCoherenceLimits(a).Practical) {
			c.Fatalf("factor %v with a practical limit of %v", ax, swarm.GetCoherenceLimits(a).Practical)
		}
	})
}

func TestValidateTarget(t *testing.T) {
	vh.Check(t, 6000, 20, "any size and any requested coherence; non-trivial = a warning is due", func(c *vh.Case, rt *rapid.T) {
		n := genSize(rt, "n")
		if vh.OneIn(rt, "one", 20) {
			n = vh.From(rt, "n", 1, 0, -3)
		}
		v := genCoh(rt, "v")
		if vh.OneIn(rt, "out", 10) {
			v = vh.From(rt, "v", 1.5, 100, math.Inf(1), -1)
		}
		l := swarm.GetCoherenceLimits(n)
		if vh.OneIn(rt, "edge", 4) {
			v = vh.From(rt, "v", l.Recommended, l.Practical, l.Theoretical) + vh.From(rt, "e", 0, 1e-12, -1e-12)
		}
		c.Desc("size %d target %v", n, v)
		got, warn := swarm.ValidateCoherenceTarget(n, v)
		c.NonTrivial(v > l.Recommended)
		if got != math.Min(v, l.Theoretical) {
			c.Fatalf("adjusted to %v, the theoretical limit is %v", got, l.Theoretical)
		}
		if (warn != "") != (v > l.Recommended) {
			c.Fatalf("warning %q, recommended up to %v", warn, l.Recommended)
		}
		// the three reasons read differently
		rank := func(v float64) int {
			switch {
			case v > l.Theoretical:
				return 3
			case v > l.Practical:
				return 2
			case v > l.Recommended:
				return 1
			}
			return 0
		}
		w := vh.From(rt, "w", 0, l.Recommended+1e-9, l.Practical+1e-9, l.Theoretical+1e-9)
		_, warn2 := swarm.ValidateCoherenceTarget(n, w)
		if (warn == warn2) != (rank(v) == rank(w)) {
			c.Fatalf("%v: %q; %v: %q", v, warn, w, warn2)
		}
		// a second look changes nothing
		if again, _ := swarm.ValidateCoherenceTarget(n, got); again != got {
			c.Fatalf("adjusted twice: %v then %v", got, again)
		}
	})
}

func TestRecovery(t *testing.T) {
	vh.Check(t, 6000, 20, "two target coherences; non-trivial = the thresholds differ", func(c *vh.Case, rt *rapid.T) {
		x, y := genCoh(rt, "x"), genCoh(rt, "y")
		if x > y {
			x, y = y, x
		}
		c.Desc("targets %v %v", x, y)
		a, b := swarm.DefaultRecoveryConfig(x), swarm.DefaultRecoveryConfig(y)
		c.NonTrivial(a != b)
		for v, r := range map[float64]swarm.RecoveryConfig{x: a, y: b} {
			if !(r.MinimumViableCoherence > 0 && r.MinimumViableCoherence < 1 && r.TargetMarginRatio > 0 && r.TargetMarginRatio < 1 &&
				r.SmallDropRatio > 0 && r.SmallDropRatio < r.LargeDropRatio && r.LargeDropRatio < 1 && r.StuckThreshold > 0 && r.CheckInterval > 0) {
				c.Fatalf("thresholds for %v: %+v", v, r)
			}
			if v >= 0.3 && r.MinimumViableCoherence >= v*r.TargetMarginRatio {
				c.Fatalf("target %v: the viable minimum %v is not below the acceptable level %v", v, r.MinimumViableCoherence, v*r.TargetMarginRatio)
			}
		}
		if a.MinimumViableCoherence > b.MinimumViableCoherence || a.TargetMarginRatio > b.TargetMarginRatio ||
			a.SmallDropRatio < b.SmallDropRatio || a.LargeDropRatio < b.LargeDropRatio || a.CheckInterval < b.CheckInterval {
			c.Fatalf("the higher target %v has looser thresholds: %+v, %+v", y, a, b)
		}
	})
}
