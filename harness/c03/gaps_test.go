// C03: distance to a target pattern, gap analysis and gap completion.
package c03

import (
	"fmt"
	"math"
	"testing"
	"time"

	"github.com/carlisia/bio-adapt/emerge/completion"
	"github.com/carlisia/bio-adapt/emerge/core"
	"github.com/carlisia/bio-adapt/zzverif/vh"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { vh.Main(m) }

func pattern(rt *rapid.T, name string) *core.TargetPattern {
	return &core.TargetPattern{
		Phase:     vh.UF(-7, 13).Draw(rt, name+"Phase"),
		Frequency: time.Duration(vh.UI(0, 2000).Draw(rt, name+"FreqMs")) * time.Millisecond,
		Coherence: vh.Unit().Draw(rt, name+"Coh"),
		Amplitude: vh.Unit().Draw(rt, name+"Amp"),
		Stability: vh.Unit().Draw(rt, name+"Stab"),
	}
}

// near draws a pattern whose components are close to p's with some probability
func near(rt *rapid.T, p *core.TargetPattern) *core.TargetPattern {
	q := pattern(rt, "cur")
	if vh.Pick(rt, "nearPhase", 2) == 1 {
		q.Phase = p.Phase + vh.UF(-0.25, 0.25).Draw(rt, "dphi") + vh.TwoPi*float64(vh.Pick(rt, "turn", 3)-1)
	}
	if vh.Pick(rt, "nearFreq", 2) == 1 {
		q.Frequency = time.Duration(float64(p.Frequency) * vh.UF(0.85, 1.15).Draw(rt, "rf"))
	}
	if vh.Pick(rt, "nearCoh", 2) == 1 {
		q.Coherence = math.Max(0, math.Min(1, p.Coherence+vh.UF(-0.1, 0.1).Draw(rt, "dcoh")))
	}
	return q
}

func str(p *core.TargetPattern) string {
	return fmt.Sprintf("{φ=%v T=%v r=%v}", p.Phase, p.Frequency, p.Coherence)
}

func refDistance(cur, tgt *core.TargetPattern) float64 {
	f := 0.0
	if tgt.Frequency > 0 {
		f = math.Min(1, math.Abs(float64(cur.Frequency)-float64(tgt.Frequency))/float64(tgt.Frequency))
	}
	return 0.4*vh.CircDist(cur.Phase, tgt.Phase)/math.Pi + 0.3*f + 0.3*math.Abs(cur.Coherence-tgt.Coherence)
}

func TestDistance(t *testing.T) {
	vh.Check(t, 10000, 30, "pairs (current,target) of patterns, near and far, whole turns apart, zero periods; non-trivial = differ in at least two components", func(c *vh.Case, rt *rapid.T) {
		tgt := pattern(rt, "tgt")
		cur := near(rt, tgt)
		c.Desc("cur=%s tgt=%s", str(cur), str(tgt))
		k := 0
		if vh.CircDist(cur.Phase, tgt.Phase) > 1e-6 {
			k++
		}
		if cur.Frequency != tgt.Frequency {
			k++
		}
		if cur.Coherence != tgt.Coherence {
			k++
		}
		c.NonTrivial(k >= 2)
		d := core.PatternDistance(cur, tgt)
		if math.IsNaN(d) || d < 0 || d > 1+1e-9 {
			c.Fatalf("distance %v outside [0,1]", d)
		}
		if want := refDistance(cur, tgt); math.Abs(d-want) > 1e-9 {
			c.Fatalf("distance %v, reference %v", d, want)
		}
		self := *tgt
		self.Phase += vh.TwoPi
		if z := core.PatternDistance(&self, tgt); z > 1e-9 {
			c.Fatalf("distance of the target to itself is %v", z)
		}
		if core.PatternDistance(nil, tgt) != math.MaxFloat64 || core.PatternDistance(cur, nil) != math.MaxFloat64 {
			c.Fatalf("distance with a missing pattern must be the maximum")
		}
		// moving the phase along the shortest arc towards the target never increases it
		f := vh.Unit().Draw(rt, "frac")
		mv := *cur
		mv.Phase = cur.Phase + f*vh.SignedDiff(tgt.Phase, cur.Phase)
		if e := core.PatternDistance(&mv, tgt); e > d+1e-9 {
			c.Fatalf("moving towards the target increased the distance from %v to %v", d, e)
		}
	})
}

func gapMap(c *vh.Case, gs []core.PatternGap) map[string]core.PatternGap {
	m := map[string]core.PatternGap{}
	for _, g := range gs {
		if _, dup := m[g.Type]; dup {
			c.Fatalf("gap %q reported twice", g.Type)
		}
		m[g.Type] = g
	}
	return m
}

func TestGaps(t *testing.T) {
	vh.Check(t, 15000, 30, "pairs (current,target), many close to the reporting thresholds; non-trivial = at least one gap reported and one component without gap", func(c *vh.Case, rt *rapid.T) {
		tgt := pattern(rt, "tgt")
		cur := near(rt, tgt)
		switch vh.Pick(rt, "edge", 4) {
		case 1:
			cur.Phase = tgt.Phase + vh.From(rt, "sgn", 1.0, -1.0)*(0.1+vh.UF(-1e-3, 1e-3).Draw(rt, "e"))
		case 2:
			cur.Coherence = math.Max(0, tgt.Coherence-0.05+vh.UF(-1e-3, 1e-3).Draw(rt, "e"))
		case 3:
			cur.Frequency = time.Duration(float64(tgt.Frequency) * (1 + vh.From(rt, "sgn", 1.0, -1.0)*(0.05+vh.UF(-1e-3, 1e-3).Draw(rt, "e"))))
		}
		c.Desc("cur=%s tgt=%s", str(cur), str(tgt))
		gs := core.IdentifyGaps(cur, tgt)
		m := gapMap(c, gs)
		c.NonTrivial(len(m) >= 1 && len(m) < 3)
		for k, g := range m {
			c.Label("gap:" + k)
			if math.IsNaN(g.Severity) || g.Severity < 0 || g.Severity > 1+1e-9 {
				c.Fatalf("gap %q has severity %v outside [0,1]", k, g.Severity)
			}
			if k != "phase" && k != "frequency" && k != "coherence" {
				c.Fatalf("unexpected gap %q", k)
			}
		}
		const e = 1e-9
		pd := vh.CircDist(cur.Phase, tgt.Phase)
		if g, ok := m["phase"]; math.Abs(pd-0.1) > e {
			if ok != (pd > 0.1) {
				c.Fatalf("phase gap reported=%v at distance %v", ok, pd)
			}
			if ok && (g.Current != cur.Phase || g.Target != tgt.Phase || math.Abs(g.Severity-pd/math.Pi) > e) {
				c.Fatalf("phase gap %+v does not describe the inputs", g)
			}
		}
		if tgt.Frequency > 0 && cur.Frequency > 0 {
			dev := math.Abs(float64(cur.Frequency)/float64(tgt.Frequency) - 1)
			if g, ok := m["frequency"]; math.Abs(dev-0.05) > e {
				if ok != (dev > 0.05) {
					c.Fatalf("frequency gap reported=%v at deviation %v", ok, dev)
				}
				if ok && (g.Current != float64(cur.Frequency) || g.Target != float64(tgt.Frequency) || math.Abs(g.Severity-math.Min(dev, 1)) > e) {
					c.Fatalf("frequency gap %+v does not describe the inputs", g)
				}
			}
		} else if _, ok := m["frequency"]; ok {
			c.Fatalf("frequency gap without two positive periods")
		}
		lack := tgt.Coherence - cur.Coherence
		if g, ok := m["coherence"]; math.Abs(lack-0.05) > e {
			if ok != (lack > 0.05) {
				c.Fatalf("coherence gap reported=%v at deficit %v", ok, lack)
			}
			if ok && (g.Current != cur.Coherence || g.Target != tgt.Coherence || math.Abs(g.Severity-lack) > e) {
				c.Fatalf("coherence gap %+v does not describe the inputs", g)
			}
		}
	})
}

// between: x lies on the shortest arc from a to b (inclusive), fraction f along it
func wave(rt *rapid.T, label string) []float64 {
	w := make([]float64, vh.Len(rt, label, 0, 6, 250))
	for i := range w {
		w[i] = vh.UF(-1, 1).Draw(rt, "w")
	}
	return w
}

func TestCompletion(t *testing.T) {
	vh.Check(t, 10000, 30, "a current state, up to 4 learned templates (possibly none, possibly too far), and the gaps to a target or a generated gap list; non-trivial = at least one gap filled from a template or by interpolation", func(c *vh.Case, rt *rapid.T) {
		tgt := pattern(rt, "tgt")
		cur := near(rt, tgt)
		eng := completion.NewEngine()
		n := vh.Pick(rt, "templates", 5)
		var tpls []*core.TargetPattern
		for i := 0; i < n; i++ {
			tp := pattern(rt, fmt.Sprint("tpl", i))
			if vh.Pick(rt, "nearTpl", 2) == 1 {
				tp.Phase = cur.Phase + vh.UF(-1, 1).Draw(rt, "tp")
				tp.Frequency = cur.Frequency + time.Duration(vh.Pick(rt, "tf", 50))*time.Millisecond
			}
			if vh.Pick(rt, "wave", 2) == 1 {
				tp.Waveform = wave(rt, "tw")
			}
			eng.AddTemplate(fmt.Sprint("t", i), tp)
			tpls = append(tpls, tp)
		}
		var gaps []core.PatternGap
		if vh.Pick(rt, "gapsFrom", 3) > 0 {
			gaps = core.IdentifyGaps(cur, tgt)
		} else {
			for _, k := range []string{"phase", "frequency", "coherence", "waveform"} {
				if vh.Pick(rt, "has"+k, 2) == 1 {
					g := core.PatternGap{Type: k, Severity: vh.Unit().Draw(rt, "sev")}
					switch k {
					case "phase":
						g.Current, g.Target = cur.Phase, tgt.Phase
					case "frequency":
						g.Current, g.Target = float64(cur.Frequency), float64(tgt.Frequency)
					case "coherence":
						g.Current, g.Target = cur.Coherence, tgt.Coherence
					case "waveform":
						cur.Waveform = wave(rt, "cw")
					}
					gaps = append(gaps, g)
				}
			}
		}
		c.Desc("cur=%s gaps=%v tpls=", str(cur), gaps)
		for _, tp := range tpls {
			c.Desc("%s", str(tp))
		}
		before := *cur
		all := func() string {
			s := fmt.Sprintf("%+v %+v", *cur, gaps)
			for _, tp := range tpls {
				s += fmt.Sprintf(" %+v", *tp)
			}
			return s
		}
		was := all()
		got := eng.CompletePattern(cur, gaps)
		if now := all(); now != was {
			c.Fatalf("completion modified what it was given: %s became %s", was, now)
		}
		if cur.Phase != before.Phase || cur.Frequency != before.Frequency || cur.Coherence != before.Coherence {
			c.Fatalf("completion modified the current state")
		}
		if got == nil || got.Base != cur {
			c.Fatalf("completion does not refer to the current state")
		}
		// candidate templates: all whose distance ties with the minimum
		best := math.Inf(1)
		for _, tp := range tpls {
			best = math.Min(best, refDistance(cur, tp))
		}
		if math.Abs(best-0.7) < 1e-9 {
			return
		}
		var cands []*core.TargetPattern
		if best < 0.7 {
			for _, tp := range tpls {
				if refDistance(cur, tp) <= best+1e-9 {
					cands = append(cands, tp)
				}
			}
			c.Label("template")
		} else {
			cands = []*core.TargetPattern{nil}
			c.Label("interpolated")
		}
		c.NonTrivial(len(got.Filled) > 0)
		var why string
		ok := false
		for _, tp := range cands {
			if why = explain(cur, tp, gaps, got); why == "" {
				ok = true
				break
			}
		}
		if !ok {
			c.Fatalf("%s", why)
		}
		if math.Abs(got.GetPhaseAdjustment()) > math.Pi+1e-9 {
			c.Fatalf("phase adjustment %v longer than half a turn", got.GetPhaseAdjustment())
		}
		// the completed waveform is the caller's: changing it changes nothing it was made from
		if w, ok := got.Filled["waveform"].([]float64); ok && len(w) > 0 {
			w[0] += 2
			if now := all(); now != was {
				c.Fatalf("writing to the completed waveform changed what it was made from: %s became %s", was, now)
			}
		}
	})
}

// explain returns "" if got is what completing cur's gaps with template tp (or
// by plain interpolation towards the gaps' targets when tp is nil) must give.
func explain(cur, tp *core.TargetPattern, gaps []core.PatternGap, got *completion.CompletedPattern) string {
	want := map[string]bool{}
	wantPhase, wantFreq := 0.0, time.Duration(0)
	// A template is followed where it leads to the target, not where it leads elsewhere; how much
	// of the way it must lead is left open between a quarter and all of it.
	aims := func(tmpl, target, cur float64, dist func(a, b float64) float64) []float64 {
		switch off, all := dist(tmpl, target), dist(cur, target); {
		case off <= all/4:
			return []float64{tmpl}
		case off > all:
			return []float64{target}
		}
		return []float64{tmpl, target}
	}
	for _, g := range gaps {
		w := g.Severity
		if tp == nil {
			w = math.Min(w, 0.5)
		}
		switch g.Type {
		case "phase":
			tos := []float64{g.Target}
			if tp != nil {
				tos = aims(tp.Phase, g.Target, cur.Phase, vh.CircDist)
			}
			want["phase"] = true
			ph, ok := got.Filled["phase"].(float64)
			if !ok {
				return "phase gap not filled"
			}
			wantPhase = vh.SignedDiff(ph, cur.Phase)
			if ph < 0 || ph > vh.TwoPi {
				return fmt.Sprintf("filled phase %v outside [0,2π]", ph)
			}
			fits := false
			for _, to := range tos {
				full := vh.SignedDiff(to, cur.Phase)
				if math.Pi-math.Abs(full) < 1e-6 { // either way round
					fits = true
					break
				}
				if vh.CircDist(ph, cur.Phase+w*full) <= 1e-9 {
					fits = true
					break
				}
			}
			if !fits {
				return fmt.Sprintf("filled phase %v is not %v of the way from %v to %v", ph, w, cur.Phase, tos)
			}
		case "frequency":
			tos := []float64{g.Target}
			if tp != nil {
				tos = aims(float64(tp.Frequency), g.Target, float64(cur.Frequency), func(a, b float64) float64 { return math.Abs(a - b) })
			}
			want["frequency"] = true
			fr, ok := got.Filled["frequency"].(time.Duration)
			if !ok {
				return "frequency gap not filled"
			}
			wantFreq = fr - cur.Frequency
			fits := false
			for _, to := range tos {
				x := float64(cur.Frequency) + w*(to-float64(cur.Frequency))
				lo, hi := math.Min(to, float64(cur.Frequency)), math.Max(to, float64(cur.Frequency))
				if fits = math.Abs(float64(fr)-x) <= 2+1e-9*math.Abs(x) && float64(fr) >= lo-1 && float64(fr) <= hi+1; fits {
					break
				}
			}
			if !fits {
				return fmt.Sprintf("filled period %v is not %v of the way from %v to %v", fr, w, cur.Frequency, tos)
			}
		case "coherence":
			want["coherence_boost"] = true
			v, ok := got.Filled["coherence_boost"].(float64)
			x := w * (g.Target - g.Current)
			if tp != nil {
				x = tp.Coherence * w
			}
			if !ok || math.Abs(v-x) > 1e-9 {
				return fmt.Sprintf("coherence boost %v, want %v", got.Filled["coherence_boost"], x)
			}
		case "waveform":
			if tp == nil || len(tp.Waveform) == 0 {
				continue
			}
			want["waveform"] = true
			v, ok := got.Filled["waveform"].([]float64)
			if !ok {
				return "waveform gap not filled"
			}
			if len(cur.Waveform) == 0 {
				if fmt.Sprint(v) != fmt.Sprint(tp.Waveform) {
					return "empty waveform not completed with the template's"
				}
				continue
			}
			m := max(len(cur.Waveform), len(tp.Waveform))
			if len(v) != m {
				return fmt.Sprintf("waveform of length %d, want %d", len(v), m)
			}
			for i := range v {
				a, b := cur.Waveform[i*len(cur.Waveform)/m], tp.Waveform[i*len(tp.Waveform)/m]
				if math.Abs(v[i]-(a+(b-a)*w)) > 1e-9 {
					return fmt.Sprintf("waveform[%d]=%v, want between %v and %v at %v", i, v[i], a, b, w)
				}
			}
		}
	}
	for k := range got.Filled {
		if !want[k] {
			return fmt.Sprintf("filled %q without a gap", k)
		}
	}
	// the adjustments are the way from the current state to the filled one
	if vh.CircDist(got.GetPhaseAdjustment(), wantPhase) > 1e-9 {
		return fmt.Sprintf("phase adjustment %v, want %v", got.GetPhaseAdjustment(), wantPhase)
	}
	if d := got.GetFrequencyAdjustment() - wantFreq; d < -1 || d > 1 {
		return fmt.Sprintf("period adjustment %v, want %v", got.GetFrequencyAdjustment(), wantFreq)
	}
	return ""
}

func TestDefaultTemplates(t *testing.T) {
	vh.Check(t, 3000, 10, "the standard templates and an arbitrary current state with its gaps to a target; non-trivial = a phase gap and a template in range", func(c *vh.Case, rt *rapid.T) {
		tgt := pattern(rt, "tgt")
		cur := near(rt, tgt)
		if cur.Frequency == 0 {
			cur.Frequency = 100 * time.Millisecond
		}
		eng := completion.NewEngine()
		eng.LoadDefaultTemplates()
		gaps := core.IdentifyGaps(cur, tgt)
		c.Desc("cur=%s tgt=%s", str(cur), str(tgt))
		got := eng.CompletePattern(cur, gaps)
		adj := got.GetPhaseAdjustment()
		has := false
		for _, g := range gaps {
			if g.Type == "phase" {
				has = true
			}
		}
		if !has && adj != 0 {
			c.Fatalf("phase adjusted by %v without a phase gap", adj)
		}
		c.NonTrivial(has)
		// a state next to a standard template is completed along that template
		std := []*core.TargetPattern{
			{Phase: 0, Frequency: 250 * time.Millisecond, Coherence: 1},    // perfect synchronization
			{Phase: 0, Frequency: 250 * time.Millisecond, Coherence: 0.65}, // partial synchronization
			{Phase: 0, Frequency: 200 * time.Millisecond, Coherence: 0.5},  // recovery
		}
		nearest := vh.From(rt, "std", std...)
		at := *nearest
		at.Phase = vh.Wrap(vh.UF(-0.05, 0.05).Draw(rt, "stdoff"))
		r := eng.CompletePattern(&at, []core.PatternGap{{Type: "coherence", Current: at.Coherence, Target: 0.99, Severity: 0.5}})
		if b, ok := r.Filled["coherence_boost"].(float64); !ok || math.Abs(b-nearest.Coherence*0.5) > 1e-9 {
			c.Fatalf("%s is completed with %v, the standard template there is %s", str(&at), r.Filled, str(nearest))
		}
		if math.Abs(adj) > math.Pi+1e-9 {
			c.Fatalf("phase adjustment %v longer than half a turn", adj)
		}
		if f := cur.Frequency + got.GetFrequencyAdjustment(); f < 0 {
			c.Fatalf("completion asks for a negative period %v", f)
		}
	})
}
