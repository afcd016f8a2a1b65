// C31: the analysis of a run agrees with itself and with the documented bands.
package c31

import (
	"fmt"
	"math"
	"os"
	"strings"
	"testing"

	"github.com/carlisia/bio-adapt/internal/analysis"
	"github.com/carlisia/bio-adapt/internal/sim"
	"github.com/carlisia/bio-adapt/zzverif/vh"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { vh.Main(m) }

var cuts = []float64{0.2, 0.4, 0.6, 0.8}

func coherence(rt *rapid.T, name string) float64 {
	if vh.OneIn(rt, name+"edge", 3) {
		x := vh.From(rt, name, append(cuts, 0, 1)...)
		return vh.From(rt, name+"side", x, math.Nextafter(x, 2), math.Nextafter(x, -1), x+1e-3, x-1e-3)
	}
	return vh.UF(-0.2, 1.2).Draw(rt, name)
}

func band(x float64) int {
	b := 0
	for _, c := range cuts {
		if x >= c {
			b++
		}
	}
	return b
}

var words = []string{"Very Low", "Low", "Moderate", "Good", "Excellent"}

func TestQuality(t *testing.T) {
	vh.Check(t, 10000, 10, "pairs of coherences biased to the band limits, both modes and an unknown one, with and without emoji; non-trivial = the pair falls into different bands", func(c *vh.Case, rt *rapid.T) {
		a, b := coherence(rt, "a"), coherence(rt, "b")
		mode := vh.From(rt, "mode", "sync", "batch", "other", "")
		emoji := vh.OneIn(rt, "emoji", 2)
		c.Desc("%v %v %q %v", a, b, mode, emoji)
		os.Setenv("EMOJI", map[bool]string{true: "1", false: "0"}[emoji])
		defer os.Unsetenv("EMOJI")
		da, db := analysis.DescribeSyncQuality(a, mode), analysis.DescribeSyncQuality(b, mode)
		la, lb := analysis.InterpretCoherenceLevel(a), analysis.InterpretCoherenceLevel(b)
		if (da == db) != (band(a) == band(b)) || (la == lb) != (band(a) == band(b)) {
			c.Fatalf("%v: %s %s; %v: %s %s", a, da, la, b, db, lb)
		}
		if la != words[band(a)] {
			c.Fatalf("%v is %s", a, la)
		}
		// good and excellent descriptions match the level
		for i, w := range []string{"Chaos", "", "", "Good", "Excellent"} {
			if w != "" && strings.Contains(da, w) != (band(a) == i) {
				c.Fatalf("%v is described as %s", a, da)
			}
		}
		ascii := true
		for _, r := range da {
			ascii = ascii && r < 128
		}
		if ascii == emoji {
			c.Fatalf("emoji %v: %s", emoji, da)
		}
		if strings.Contains(da, "batch") != (mode == "batch") {
			c.Fatalf("mode %q: %s", mode, da)
		}
		c.NonTrivial(band(a) != band(b))
	})
}

func TestDiagnose(t *testing.T) {
	vh.Check(t, 20000, 10, "run statistics around every decision of the diagnosis; non-trivial = the target was missed", func(c *vh.Case, rt *rapid.T) {
		s := analysis.RunStats{Initial: vh.UF(0, 1).Draw(rt, "initial"), Final: vh.UF(0, 1).Draw(rt, "final"), MaxIter: vh.UI(0, 300).Draw(rt, "max")}
		s.Iter = vh.UI(0, s.MaxIter).Draw(rt, "iter")
		s.StuckCount = vh.UI(0, s.MaxIter).Draw(rt, "stuck")
		target := vh.UF(0, 1).Draw(rt, "target")
		switch vh.Pick(rt, "near", 5) {
		case 0:
			target = s.Final
		case 1:
			target = s.Final + vh.UF(0, 0.12).Draw(rt, "gap")
		case 2:
			s.Final = s.Initial + vh.UF(-0.1, 0.2).Draw(rt, "gain")
		case 3:
			s.StuckCount = s.MaxIter/3 + vh.UI(-1, 1).Draw(rt, "side")
		}
		mode := vh.From(rt, "mode", "sync", "batch")
		emoji := vh.OneIn(rt, "emoji", 2)
		os.Setenv("EMOJI", map[bool]string{true: "1", false: ""}[emoji])
		defer os.Unsetenv("EMOJI")
		c.Desc("%+v target %v %s", s, target, mode)
		sum, sug := analysis.Diagnose(s, target, mode)
		ok := s.Final >= target
		if strings.Contains(sum, "Success") != ok || (len(sug) == 0) != ok {
			c.Fatalf("%q %q", sum, sug)
		}
		if !strings.Contains(sum, fmt.Sprintf("%.1f%%", s.Final*100*(1-1e-12))) && !strings.Contains(sum, fmt.Sprintf("%.1f%%", s.Final*100*(1+1e-12))) {
			c.Fatalf("%q does not name the final coherence", sum)
		}
		if strings.HasPrefix(sum, "[") == emoji {
			c.Fatalf("emoji %v: %s", emoji, sum)
		}
		if !ok {
			stuck := s.StuckCount > s.MaxIter/3
			gain, gap := s.Final-s.Initial, target-s.Final
			want := "failed"
			switch {
			case stuck:
				want = "Stuck"
			case gain < 0.1:
				want = "Minimal"
			case gap < 0.1:
				want = "Close"
			}
			if math.Abs(gain-0.1) > 1e-9 && math.Abs(gap-0.1) > 1e-9 && !strings.Contains(sum, want) {
				c.Fatalf("%q, want %s", sum, want)
			}
			seen := map[string]bool{}
			for _, x := range sug {
				if x == "" || seen[x] {
					c.Fatalf("suggestions %q", sug)
				}
				seen[x] = true
			}
			c.Label(want)
		}
		c.NonTrivial(!ok)
	})
}

func TestRate(t *testing.T) {
	speed := map[string]int{"Fast convergence": 0, "Normal convergence": 1, "Slow convergence": 2, "Very slow convergence": 3}
	vh.Check(t, 10000, 10, "pairs of iteration counts within a budget, and arithmetic helpers on any floats; non-trivial = the ratings differ", func(c *vh.Case, rt *rapid.T) {
		max := vh.UI(1, 500).Draw(rt, "max")
		a, b := vh.UI(0, max).Draw(rt, "a"), vh.UI(0, max).Draw(rt, "b")
		if a > b {
			a, b = b, a
		}
		c.Desc("%d %d of %d", a, b, max)
		ra, oka := speed[analysis.AnalyzeConvergenceRate(a, max)]
		rb, okb := speed[analysis.AnalyzeConvergenceRate(b, max)]
		if !oka || !okb || ra > rb {
			c.Fatalf("%d of %d: %s; %d: %s", a, max, analysis.AnalyzeConvergenceRate(a, max), b, analysis.AnalyzeConvergenceRate(b, max))
		}
		want := 0
		for _, x := range []float64{.3, .6, .9} {
			if r := float64(a) / float64(max); math.Abs(r-x) < 1e-9 {
				want = -1
				break
			} else if r >= x {
				want++
			}
		}
		if want >= 0 && want != ra {
			c.Fatalf("%d of %d is rated %d, want %d", a, max, ra, want)
		}
		x, y := vh.UF(-3, 3).Draw(rt, "x"), vh.UF(-3, 3).Draw(rt, "y")
		if vh.OneIn(rt, "inf", 10) {
			x = vh.From(rt, "x", math.Inf(1), math.Inf(-1), 0, 1, -0.0)
		}
		if sim.Clamp01(x) != math.Min(1, math.Max(0, x)) || sim.Min(x, y) != math.Min(x, y) || sim.Max(x, y) != math.Max(x, y) {
			c.Fatalf("clamp %v min %v max %v of %v %v", sim.Clamp01(x), sim.Min(x, y), sim.Max(x, y), x, y)
		}
		c.NonTrivial(ra != rb)
	})
}
