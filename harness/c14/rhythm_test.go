// C14: rhythmic pattern analysis (both copies).
package c14

import (
	"fmt"
	"math"
	"slices"
	"testing"
	"time"

	"github.com/carlisia/bio-adapt/emerge/monitoring"
	iem "github.com/carlisia/bio-adapt/internal/emerge"
	"github.com/carlisia/bio-adapt/zzverif/vh"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { vh.Main(m) }

// one view over both copies
type pat struct {
	which  int
	ph     []float64
	fr     []time.Duration
	amp    float64
	period time.Duration
	m      *monitoring.TargetPattern
	i      *iem.TargetPattern
}

func build(which int, ph []float64, fr []time.Duration) *pat {
	p := &pat{which: which, ph: ph, fr: fr}
	if which == 0 {
		p.m = monitoring.NewTargetPattern(append([]float64{}, ph...), append([]time.Duration{}, fr...))
		p.amp, p.period = p.m.Amplitude, p.m.Period
	} else {
		p.i = iem.NewTargetPattern(append([]float64{}, ph...), append([]time.Duration{}, fr...))
		p.amp, p.period = p.i.Amplitude, p.i.Period
	}
	return p
}

// intact tells whether the pattern still is what it was built from.
func (p *pat) intact() bool {
	if p.which == 0 {
		return slices.Equal(p.m.Phases, p.ph) && slices.Equal(p.m.Frequencies, p.fr) && p.m.Amplitude == p.amp && p.m.Period == p.period
	}
	return slices.Equal(p.i.Phases, p.ph) && slices.Equal(p.i.Frequencies, p.fr) && p.i.Amplitude == p.amp && p.i.Period == p.period
}

type gap struct {
	s, e int
	d    time.Duration
}

func (p *pat) detect() (out []gap) {
	if p.which == 0 {
		for _, g := range p.m.Detect() {
			out = append(out, gap{g.StartIdx, g.EndIdx, g.Duration})
		}
	} else {
		for _, g := range p.i.Detect() {
			out = append(out, gap{g.StartIdx, g.EndIdx, g.Duration})
		}
	}
	return
}

func (p *pat) complete(s, e int) []float64 {
	if p.which == 0 {
		return p.m.Complete(monitoring.PatternGap{StartIdx: s, EndIdx: e})
	}
	return p.i.Complete(iem.PatternGap{StartIdx: s, EndIdx: e})
}

func (p *pat) sim(o *pat) float64 {
	if p.which == 0 {
		return p.m.Similarity(o.m)
	}
	return p.i.Similarity(o.i)
}

func genPhases(rt *rapid.T, lo int) []float64 {
	n := vh.Len(rt, "n", lo, 14, 200)
	ph := make([]float64, n)
	kind := vh.Pick(rt, "kind", 4)
	x := vh.UnitPhase().Draw(rt, "x")
	for i := range ph {
		switch kind {
		case 0:
			x = vh.UnitPhase().Draw(rt, "p")
		case 1:
			x = vh.UF(-20, 20).Draw(rt, "p")
		case 2:
			x += vh.UF(-0.8, 0.8).Draw(rt, "d")
		default:
			x += vh.From(rt, "j", 0.1, math.Pi/2-1e-6, math.Pi/2+1e-6, math.Pi, -2)
		}
		ph[i] = x
	}
	return ph
}

func genFreqs(rt *rapid.T, n int) []time.Duration {
	k := n
	if vh.OneIn(rt, "short", 5) {
		k = rapid.IntRange(0, n+2).Draw(rt, "k")
	}
	fr := make([]time.Duration, k)
	for i := range fr {
		fr[i] = time.Duration(rapid.IntRange(1, 1e9).Draw(rt, "f"))
	}
	return fr
}

func TestGaps(t *testing.T) {
	vh.Check(t, 6000, 30, "0-14 phases with jumps around a quarter turn, frequencies for all, some or no points; non-trivial = at least one gap", func(c *vh.Case, rt *rapid.T) {
		ph := genPhases(rt, 0)
		fr := genFreqs(rt, len(ph))
		p := build(vh.Pick(rt, "copy", 2), ph, fr)
		c.Desc("copy %d %v %v", p.which, ph, fr)
		got := p.detect()
		c.NonTrivial(len(got) > 0)
		j := 0
		for i := 1; i < len(ph); i++ {
			d := vh.CircDist(ph[i], ph[i-1])
			has := j < len(got) && got[j].e == i
			if math.Abs(d-math.Pi/2) > 1e-9 && has != (d > math.Pi/2) {
				c.Fatalf("jump of %v from point %d to %d: gap=%v", d, i-1, i, has)
			}
			if has {
				if got[j].s != i-1 {
					c.Fatalf("gap %+v", got[j])
				}
				if i-1 < len(fr) && got[j].d != fr[i-1] {
					c.Fatalf("gap at %d lasts %v, period there %v", i-1, got[j].d, fr[i-1])
				}
				j++
			}
		}
		if j != len(got) {
			c.Fatalf("gaps %+v are not in order or not between neighboring points", got)
		}
		// amplitude and period
		if len(ph) >= 2 {
			var m, v float64
			edge := false // a phase at the turn boundary may be recorded at either end of the turn
			for _, x := range ph {
				m += vh.Wrap(x) / float64(len(ph))
				edge = edge || vh.CircDist(x, 0) < 1e-9*(1+math.Abs(x)) && x != 0
			}
			for _, x := range ph {
				v += (vh.Wrap(x) - m) * (vh.Wrap(x) - m) / float64(len(ph))
			}
			if !edge && !vh.Near(p.amp, math.Sqrt(v), 1e-6) {
				c.Fatalf("amplitude %v, spread is %v", p.amp, math.Sqrt(v))
			}
		} else if p.amp != 0 {
			c.Fatalf("amplitude %v of %d points", p.amp, len(ph))
		}
		var sum time.Duration
		for _, f := range fr {
			sum += f
		}
		if len(fr) > 0 {
			sum /= time.Duration(len(fr))
		}
		if d := p.period - sum; d < -1 || d > 1 {
			c.Fatalf("period %v, mean is %v", p.period, sum)
		}
	})
}

func TestComplete(t *testing.T) {
	vh.Check(t, 6000, 30, "gaps of any position and length, also invalid ones; non-trivial = at least two points to fill", func(c *vh.Case, rt *rapid.T) {
		ph := genPhases(rt, 1)
		p := build(vh.Pick(rt, "copy", 2), ph, genFreqs(rt, len(ph)))
		s, e := rapid.IntRange(-2, len(ph)+1).Draw(rt, "s"), rapid.IntRange(-2, len(ph)+1).Draw(rt, "e")
		c.Desc("copy %d %v gap %d-%d", p.which, ph, s, e)
		got := p.complete(s, e)
		if s < 0 || e >= len(ph) || s >= e {
			if len(got) != 0 {
				c.Fatalf("invalid gap %d-%d of %d points filled with %v", s, e, len(ph), got)
			}
			return
		}
		k := e - s - 1
		c.NonTrivial(k >= 2)
		if len(got) != k {
			c.Fatalf("gap %d-%d filled with %d points, want %d", s, e, len(got), k)
		}
		d := vh.SignedDiff(ph[e], ph[s])
		for i, x := range got {
			f := float64(i+1) / float64(k+1)
			ok := vh.CircDist(x, ph[s]+d*f) < 1e-9
			if math.Pi-math.Abs(d) < 1e-9 {
				ok = ok || vh.CircDist(x, ph[s]-d*f) < 1e-8
			}
			if !ok || x < 0 || x > vh.TwoPi {
				c.Fatalf("gap from %v to %v: point %d of %d is %v, want %v", ph[s], ph[e], i+1, k, x, vh.Wrap(ph[s]+d*f))
			}
		}
	})
}

// Known finding F2: with no spread in both patterns, or no period in both, the
// similarity is 0/0.
func degenerate(a, b *pat) bool {
	return (a.amp == 0 && b.amp == 0) || (a.period == 0 && b.period == 0)
}

func TestSimilarity(t *testing.T) {
	found := false
	vh.Check(t, 8000, 30, "pattern pairs: same, shifted, rescaled, unrelated, of different length; non-trivial = equal length, neither identical nor empty", func(c *vh.Case, rt *rapid.T) {
		which := vh.Pick(rt, "copy", 2)
		ph := genPhases(rt, 0)
		fr := genFreqs(rt, len(ph))
		a := build(which, ph, fr)
		var b *pat
		rel := vh.Pick(rt, "rel", 4)
		switch rel {
		case 0:
			b = build(which, ph, fr)
		case 1:
			q := make([]float64, len(ph))
			for i := range q {
				q[i] = ph[i] + vh.UF(-1, 1).Draw(rt, "e")
			}
			b = build(which, q, fr)
		case 2:
			q := make([]float64, len(ph))
			for i := range q {
				q[i] = ph[i] * 1000
			}
			b = build(which, q, fr)
		default:
			q := genPhases(rt, 0)
			b = build(which, q, genFreqs(rt, len(q)))
		}
		c.Desc("copy %d %v %v ~ %v %v", which, ph, fr, b.ph, b.fr)
		s := a.sim(b)
		if len(ph) == 0 || len(b.ph) == 0 {
			if s != 0 {
				c.Fatalf("similarity %v with an empty pattern", s)
			}
			return
		}
		for _, x := range []*pat{a, b} {
			if !x.intact() {
				c.Fatalf("the comparison modified %v %v", x.ph, x.fr)
			}
		}
		if degenerate(a, b) {
			if math.IsNaN(s) {
				found = true
				c.Label("known finding: 0/0")
				return
			}
			if !(s >= 0 && s <= 1+1e-12) {
				c.Fatalf("similarity %v outside [0,1]", s)
			}
			return
		}
		if !(s >= -1e-12 && s <= 1+1e-12) {
			c.Fatalf("similarity %v outside [0,1]", s)
		}
		if r := b.sim(a); !vh.Near(r, s, 1e-9) {
			c.Fatalf("not symmetric: %v and %v", s, r)
		}
		if rel == 0 && !vh.Near(s, 1, 1e-9) {
			c.Fatalf("similarity of a pattern with itself is %v", s)
		}
		if x := a.sim(a); !vh.Near(x, 1, 1e-9) && a.amp != 0 && a.period != 0 {
			c.Fatalf("similarity of a pattern with itself is %v", x)
		}
		c.NonTrivial(len(ph) == len(b.ph) && rel != 0)
		// reference: 0.3 amplitude, 0.3 period, 0.4 phase agreement
		r := func(x, y float64) float64 {
			if x == y {
				return 1
			}
			return 1 - math.Min(math.Abs(x-y)/math.Max(x, y), 1)
		}
		phs := 0.0
		if len(ph) == len(b.ph) {
			var ma, mb float64
			for i := range ph {
				phs += (1 - vh.CircDist(ph[i], b.ph[i])/math.Pi) / float64(len(ph))
				ma, mb = math.Max(ma, math.Abs(ph[i])), math.Max(mb, math.Abs(b.ph[i]))
			}
			if ma > 0 && mb > 0 {
				if q := math.Max(ma/mb, mb/ma); q > 100 {
					phs /= math.Min(q/100, 10)
				}
			}
		}
		if want := 0.3*r(a.amp, b.amp) + 0.3*r(float64(a.period), float64(b.period)) + 0.4*phs; !vh.Near(s, want, 1e-6) {
			c.Fatalf("similarity %v, want %v", s, want)
		}
		// template matching and identification follow the similarity
		tol := vh.Unit().Draw(rt, "tol")
		withVar := rapid.Bool().Draw(rt, "var")
		others := vh.UI(0, 3).Draw(rt, "others") // variations besides the one that counts
		at := vh.UI(0, others).Draw(rt, "at")
		var matches bool
		var id string
		var best float64
		far := build(which, []float64{1}, []time.Duration{1})
		if which == 0 {
			tp := &monitoring.PatternTemplate{Name: "x", BasePattern: *b.m, Tolerance: tol}
			if withVar {
				tp.BasePattern = *far.m
				for i := 0; i <= others; i++ {
					if i == at {
						tp.Variations = append(tp.Variations, *b.m)
					} else {
						tp.Variations = append(tp.Variations, *far.m)
					}
				}
			}
			matches = tp.Matches(a.m)
			lib := monitoring.NewPatternLibrary()
			lib.Add("b", &monitoring.PatternTemplate{BasePattern: *b.m})
			lib.Add("far", &monitoring.PatternTemplate{BasePattern: *far.m})
			id, best = lib.Identify(a.m)
		} else {
			tp := &iem.PatternTemplate{Name: "x", BasePattern: *b.i, Tolerance: tol}
			if withVar {
				tp.BasePattern = *far.i
				for i := 0; i <= others; i++ {
					if i == at {
						tp.Variations = append(tp.Variations, *b.i)
					} else {
						tp.Variations = append(tp.Variations, *far.i)
					}
				}
			}
			matches = tp.Matches(a.i)
			lib := iem.NewPatternLibrary()
			lib.Add("b", &iem.PatternTemplate{BasePattern: *b.i})
			lib.Add("far", &iem.PatternTemplate{BasePattern: *far.i})
			id, best = lib.Identify(a.i)
		}
		sf := far.sim(a)
		fits := func(x float64) bool { return x >= 1-tol }
		near := math.Abs(s-(1-tol)) < 1e-9 || math.Abs(sf-(1-tol)) < 1e-9
		want := fits(s)
		if withVar {
			want = want || fits(sf)
		}
		if !near && !math.IsNaN(sf) && matches != want {
			c.Fatalf("matches=%v with similarity %v (variation %v, other %v) and tolerance %v", matches, s, withVar, sf, tol)
		}
		if !math.IsNaN(sf) && !vh.Near(best, math.Max(s, sf), 1e-9) {
			c.Fatalf("identified %q at %v; similarities are b=%v far=%v", id, best, s, sf)
		}
		if !math.IsNaN(sf) && math.Abs(s-sf) > 1e-9 && id != map[bool]string{true: "b", false: "far"}[s > sf] {
			c.Fatalf("identified %q; similarities are b=%v far=%v", id, s, sf)
		}
	})
	// the listed finding, with its specific input
	for which := 0; which < 2; which++ {
		a := build(which, []float64{1, 1}, []time.Duration{time.Second, time.Second})
		if math.IsNaN(a.sim(build(which, []float64{1, 1}, []time.Duration{time.Second, time.Second}))) || found {
			vh.Finding("F2")
			fmt.Println("KNOWN-FINDING: property=C14 F2 similarity of two patterns that both have zero spread (or both zero period) is not a number")
			break
		}
	}
}

// The library names the most similar of many stored patterns, whatever their tolerances and
// whatever order the map yields them in.
func TestLibrary(t *testing.T) {
	vh.Check(t, 1500, 20, "a library of 2-10 patterns, most of them close variations of the one looked up, with tolerances that let several match; non-trivial = at least two templates are within their tolerance", func(c *vh.Case, rt *rapid.T) {
		which := vh.Pick(rt, "which", 2)
		n := vh.UI(2, 8).Draw(rt, "len")
		base := make([]float64, n)
		fr := make([]time.Duration, n)
		for i := range base {
			base[i] = vh.UF(0.2, 6).Draw(rt, "p")
			fr[i] = time.Duration(vh.UI(1, 5000).Draw(rt, "f")) * time.Millisecond
		}
		q := build(which, base, fr)
		k := vh.UI(2, 10).Draw(rt, "templates")
		lm, li := monitoring.NewPatternLibrary(), iem.NewPatternLibrary()
		names := map[string]float64{}
		// nothing comparable at all (F2: not a number, or 0) may be answered with no name and 0
		best, within := 0.0, 0
		for j := 0; j < k; j++ {
			ph, f := append([]float64{}, base...), append([]time.Duration{}, fr...)
			for i := range ph {
				ph[i] += vh.UF(-0.5, 0.5).Draw(rt, "d")
				if vh.OneIn(rt, "fast", 4) {
					f[i] = f[i] * 3 / 2
				}
			}
			v := build(which, ph, f)
			tol := vh.From(rt, "tol", 0, 0.1, 0.3, 0.6, 1)
			name := fmt.Sprintf("t%d", j)
			var s float64
			if which == 0 {
				lm.Add(name, &monitoring.PatternTemplate{Name: name, BasePattern: *v.m, Tolerance: tol})
				s = v.m.Similarity(q.m)
			} else {
				li.Add(name, &iem.PatternTemplate{Name: name, BasePattern: *v.i, Tolerance: tol})
				s = v.i.Similarity(q.i)
			}
			names[name] = s
			if s >= 1-tol {
				within++
			}
			if s > best {
				best = s
			}
		}
		c.Desc("library %d of %d patterns, similarities %v", which, k, names)
		c.NonTrivial(within >= 2)
		for rep := 0; rep < 4; rep++ {
			var id string
			var s float64
			if which == 0 {
				id, s = lm.Identify(q.m)
			} else {
				id, s = li.Identify(q.i)
			}
			if !vh.Near(s, best, 1e-9) || best-names[id] > 1e-9 || (id == "" && best > 1e-9) {
				c.Fatalf("identified %q (%v) at %v; the most similar is at %v, similarities %v", id, names[id], s, best, names)
			}
		}
	})
}
