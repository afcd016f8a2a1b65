// C02: the coherence (order parameter) measure.
package c02

import (
	"math"
	"slices"
	"testing"

	"github.com/carlisia/bio-adapt/emerge/core"
	"github.com/carlisia/bio-adapt/zzverif/vh"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { vh.Main(m) }

// population draws phase populations of several shapes: scattered, clustered,
// aligned, evenly spread, antipodal groups.
func population(rt *rapid.T) ([]float64, string) {
	n := vh.UI(1, 60).Draw(rt, "n")
	base := vh.UnitPhase().Draw(rt, "base")
	ps := make([]float64, n)
	kind := vh.From(rt, "shape", "scattered", "cluster", "aligned", "even", "antipodal", "anyphase")
	g := vh.UF(-1, 1)
	for i := range ps {
		switch kind {
		case "scattered":
			ps[i] = vh.UnitPhase().Draw(rt, "p")
		case "cluster":
			ps[i] = base + 0.3*g.Draw(rt, "d")
		case "aligned":
			ps[i] = base + vh.TwoPi*float64(vh.Pick(rt, "turn", 3)-1)
		case "even":
			ps[i] = base + vh.TwoPi*float64(i)/float64(n)
		case "antipodal":
			ps[i] = base + math.Pi*float64(i%2)
		default:
			ps[i] = vh.UF(-100, 100).Draw(rt, "p")
		}
	}
	return ps, kind
}

func TestOrderParameter(t *testing.T) {
	vh.Check(t, 6000, 30, "populations of 1..60 phases of six shapes; non-trivial = at least 3 phases", func(c *vh.Case, rt *rapid.T) {
		ps, kind := population(rt)
		c.Desc("%s %v", kind, ps)
		c.Label(kind)
		c.NonTrivial(len(ps) >= 3)
		in := append([]float64(nil), ps...)
		r := core.MeasureCoherence(ps)
		for i := range ps {
			if ps[i] != in[i] {
				c.Fatalf("the measurement modified its input")
			}
		}
		const eps = 1e-9
		if !(r >= 0 && r <= 1+eps) {
			c.Fatalf("coherence %v outside [0,1]", r)
		}
		if want := vh.Order(ps); math.Abs(r-want) > eps {
			c.Fatalf("coherence %v, order parameter is %v", r, want)
		}
		n := len(ps)
		switch kind {
		case "aligned":
			if math.Abs(r-1) > eps {
				c.Fatalf("aligned population has coherence %v", r)
			}
		case "even":
			if n > 1 && r > 1e-6 {
				c.Fatalf("evenly spread population has coherence %v", r)
			}
		case "antipodal":
			want := float64(n%2) / float64(n)
			if math.Abs(r-want) > 1e-6 {
				c.Fatalf("antipodal population of %d has coherence %v, want %v", n, r, want)
			}
		}
		if n == 1 && math.Abs(r-1) > eps {
			c.Fatalf("single phase has coherence %v", r)
		}
		// rotation, reflection, permutation and whole turns change nothing
		rot := vh.UF(-10, 10).Draw(rt, "rot")
		q := make([]float64, n)
		off := vh.Pick(rt, "perm", n)
		for i := range ps {
			v := ps[(i+off)%n] + rot
			if vh.Pick(rt, "turn", 4) == 3 {
				v += vh.TwoPi
			}
			q[i] = v
		}
		if vh.Pick(rt, "reflect", 2) == 1 {
			for i := range q {
				q[i] = -q[i]
			}
		}
		if s := core.MeasureCoherence(q); math.Abs(s-r) > 1e-7 {
			c.Fatalf("rotating/reordering changed coherence from %v to %v", r, s)
		}
		// duplicating the whole population changes nothing
		if s := core.MeasureCoherence(append(append([]float64(nil), ps...), ps...)); math.Abs(s-r) > eps {
			c.Fatalf("duplicating the population changed coherence from %v to %v", r, s)
		}
		// adding a phase at the mean direction cannot lower coherence
		var re, im float64
		for _, p := range ps {
			re += math.Cos(p)
			im += math.Sin(p)
		}
		if math.Hypot(re, im) > 1e-3 {
			if s := core.MeasureCoherence(append(append([]float64(nil), ps...), math.Atan2(im, re))); s < r-eps {
				c.Fatalf("adding an aligned phase lowered coherence from %v to %v", r, s)
			}
		}
	})
}

func TestWeighted(t *testing.T) {
	vh.Check(t, 4000, 30, "populations with non-negative weights (zeros, integers, reals), possibly of different length; non-trivial = at least two distinct positive weights", func(c *vh.Case, rt *rapid.T) {
		ps, kind := population(rt)
		nw := len(ps) + vh.From(rt, "dn", 0, 0, 0, -1, 2)
		ws := make([]float64, nw)
		integral := vh.Pick(rt, "integral", 2) == 0
		pos := map[float64]bool{}
		for i := range ws {
			if integral {
				ws[i] = float64(vh.Pick(rt, "w", 4))
			} else {
				ws[i] = vh.UF(0, 5).Draw(rt, "w")
			}
			if ws[i] > 0 {
				pos[ws[i]] = true
			}
		}
		c.Desc("%s %v w=%v", kind, ps, ws)
		c.NonTrivial(len(pos) >= 2)
		m := min(len(ps), len(ws))
		var re, im, sum float64
		for i := 0; i < m; i++ {
			re += ws[i] * math.Cos(ps[i])
			im += ws[i] * math.Sin(ps[i])
			sum += ws[i]
		}
		want := 0.0
		if sum > 0 {
			want = math.Hypot(re, im) / sum
		}
		if sum > 0 && sum < 1e-12 {
			return
		}
		keepP, keepW := slices.Clone(ps), slices.Clone(ws)
		r := core.MeasureCoherenceWeighted(ps, ws)
		if !slices.Equal(ps, keepP) || !slices.Equal(ws, keepW) {
			c.Fatalf("the measurement modified its input")
		}
		if math.IsNaN(r) || math.Abs(r-want) > 1e-9 {
			c.Fatalf("weighted coherence %v, reference %v", r, want)
		}
		if r < 0 || r > 1+1e-9 {
			c.Fatalf("weighted coherence %v outside [0,1]", r)
		}
		if integral && sum > 0 {
			var rep []float64
			for i := 0; i < m; i++ {
				for k := 0; k < int(ws[i]); k++ {
					rep = append(rep, ps[i])
				}
			}
			if u := core.MeasureCoherence(rep); math.Abs(u-r) > 1e-9 {
				c.Fatalf("weights as multiplicities: weighted %v, replicated %v", r, u)
			}
		}
		k := vh.UF(0.1, 10).Draw(rt, "k")
		sc := make([]float64, len(ws))
		for i := range ws {
			sc[i] = ws[i] * k
		}
		if s := core.MeasureCoherenceWeighted(ps, sc); math.Abs(s-r) > 1e-9 {
			c.Fatalf("scaling all weights changed %v to %v", r, s)
		}
		if core.MeasureCoherenceWeighted(nil, ws) != 0 || core.MeasureCoherenceWeighted(ps, nil) != 0 || core.MeasureCoherence(nil) != 0 {
			c.Fatalf("empty input must measure 0")
		}
	})
}

// Populations as large as swarms get: every phase counts, wherever it stands.
func TestLarge(t *testing.T) {
	vh.Check(t, 150, 20, "61-20000 phases in which position matters (blocks, alternating, one outlier, drifting, scattered), with and without weights; every case is non-trivial", func(c *vh.Case, rt *rapid.T) {
		n := vh.From(rt, "size", vh.UI(61, 700).Draw(rt, "n"), vh.UI(700, 6000).Draw(rt, "n"), 100, 128, 256, 1000, 1024, 2000, 5000, 10000, 20000) + vh.UI(-1, 1).Draw(rt, "side")
		kind := vh.From(rt, "shape", "blocks", "alternating", "outliers", "drift", "scattered")
		a, b := vh.UnitPhase().Draw(rt, "a"), vh.UnitPhase().Draw(rt, "b")
		k := vh.UI(1, n).Draw(rt, "k")
		period := vh.UI(2, 9).Draw(rt, "period")
		seed := vh.Seed64(rt, "seed")
		c.Desc("%d phases, %s, %v/%v, %d, %d, seed %d", n, kind, a, b, k, period, seed)
		c.Label(kind)
		c.NonTrivial(true)
		x := uint64(seed)
		next := func() float64 {
			x = x*6364136223846793005 + 1442695040888963407
			return float64(x>>11) / (1 << 53)
		}
		ps, ws := make([]float64, n), make([]float64, n)
		var re, im, sum float64
		for i := range ps {
			switch kind {
			case "blocks":
				ps[i] = a
				if i >= k {
					ps[i] = b
				}
			case "alternating":
				ps[i] = a
				if i%period == k%period {
					ps[i] = b
				}
			case "outliers":
				ps[i] = a
				if next() < 0.1 {
					ps[i] = vh.TwoPi * next()
				}
			case "drift":
				ps[i] = a + float64(i)*b/float64(k)
			default:
				ps[i] = vh.TwoPi * next()
			}
			ws[i] = 3 * next()
			re += ws[i] * math.Cos(ps[i])
			im += ws[i] * math.Sin(ps[i])
			sum += ws[i]
		}
		if r, want := core.MeasureCoherence(ps), vh.Order(ps); math.Abs(r-want) > 1e-9 {
			c.Fatalf("coherence %v, order parameter is %v", r, want)
		}
		if r, want := core.MeasureCoherenceWeighted(ps, ws), math.Hypot(re, im)/sum; math.Abs(r-want) > 1e-9 {
			c.Fatalf("weighted coherence %v, reference %v", r, want)
		}
	})
}
