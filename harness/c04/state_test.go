// C04: validation and normalisation of goal states.
package c04

import (
	"math"
	"testing"
	"time"

	"github.com/carlisia/bio-adapt/emerge/core"
	"github.com/carlisia/bio-adapt/zzverif/vh"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { vh.Main(m) }

func weird(rt *rapid.T, name string, ordinary *rapid.Generator[float64]) float64 {
	switch vh.Pick(rt, name+"Kind", 10) {
	case 0:
		return math.NaN()
	case 1:
		return vh.From(rt, name+"Inf", math.Inf(1), math.Inf(-1))
	case 2:
		return vh.UF(-3, 3).Draw(rt, name)
	case 3:
		return vh.From(rt, name+"Edge", 0, 1, -0.0, math.Nextafter(1, 2), math.Nextafter(0, -1), vh.TwoPi, -vh.TwoPi, math.MaxFloat64, -math.MaxFloat64, 1e16, -1e16, 1e9)
	default:
		return ordinary.Draw(rt, name)
	}
}

func TestStates(t *testing.T) {
	vh.Check(t, 20000, 30, "states with arbitrary float phase/coherence (NaN, ±Inf, huge, out of range) and arbitrary signed period; non-trivial = at least one field invalid, out of range or outside [0,2π)", func(c *vh.Case, rt *rapid.T) {
		s := core.State{
			Phase:     weird(rt, "phase", vh.AnyPhase()),
			Coherence: weird(rt, "coh", vh.Unit()),
			Frequency: time.Duration(vh.From(rt, "f", int64(1e8), 0, -1, 1, math.MaxInt64, math.MinInt64, int64(vh.UI(-1000, 1000).Draw(rt, "fr")))),
		}
		c.Desc("%+v", s)
		badPhase := math.IsNaN(s.Phase) || math.IsInf(s.Phase, 0)
		badCoh := !(s.Coherence >= 0 && s.Coherence <= 1)
		badFreq := s.Frequency <= 0
		c.NonTrivial(badPhase || badCoh || badFreq || s.Phase < 0 || s.Phase >= vh.TwoPi)
		in := s
		err := s.Validate()
		if (err != nil) != (badPhase || badCoh || badFreq) {
			c.Fatalf("Validate() = %v for badPhase=%v badCoherence=%v badPeriod=%v", err, badPhase, badCoh, badFreq)
		}
		if s.Frequency != in.Frequency || math.Float64bits(s.Phase) != math.Float64bits(in.Phase) || math.Float64bits(s.Coherence) != math.Float64bits(in.Coherence) {
			c.Fatalf("Validate modified the state")
		}
		var nerr error
		var pan any
		ok, pan := vh.Terminates(20, func() { nerr = s.NormalizeAndValidate() })
		if !ok {
			c.Fatalf("normalising a state with phase %v does not terminate", in.Phase)
		}
		if pan != nil {
			c.Fatalf("normalising panicked: %v", pan)
		}
		unfixable := badPhase || math.IsNaN(in.Coherence)
		if (nerr != nil) != unfixable {
			c.Fatalf("NormalizeAndValidate() = %v, unfixable=%v", nerr, unfixable)
		}
		if nerr != nil {
			c.Label("unfixable")
			return
		}
		if e := s.Validate(); e != nil {
			c.Fatalf("normalised state does not validate: %v", e)
		}
		if !(s.Phase >= 0 && s.Phase <= vh.TwoPi) {
			c.Fatalf("normalised phase %v outside [0,2π]", s.Phase)
		}
		if d := vh.CircDist(s.Phase, in.Phase); d > 1e-6+math.Abs(in.Phase)*1e-15*4 && math.Abs(in.Phase) < 1e9 {
			c.Fatalf("normalising moved the phase from %v to %v", in.Phase, s.Phase)
		}
		wantC := math.Max(0, math.Min(1, in.Coherence))
		if s.Coherence != wantC {
			c.Fatalf("coherence %v normalised to %v, want %v", in.Coherence, s.Coherence, wantC)
		}
		if !badFreq && s.Frequency != in.Frequency {
			c.Fatalf("valid period %v changed to %v", in.Frequency, s.Frequency)
		}
		if badFreq && s.Frequency != 100*time.Millisecond {
			c.Fatalf("invalid period %v replaced by %v, not the 100ms default", in.Frequency, s.Frequency)
		}
		once := s
		if e := s.NormalizeAndValidate(); e != nil || vh.CircDist(s.Phase, once.Phase) > 1e-12 || s.Coherence != once.Coherence || s.Frequency != once.Frequency {
			c.Fatalf("normalising twice differs: %+v then %+v (%v)", once, s, e)
		}
	})
}
