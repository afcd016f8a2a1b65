// C30: an attractor basin pulls towards its target, never past it, and only inside.
package c30

import (
	"math"
	"testing"
	"time"

	"github.com/carlisia/bio-adapt/emerge/core"
	"github.com/carlisia/bio-adapt/internal/emerge"
	"github.com/carlisia/bio-adapt/zzverif/vh"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { vh.Main(m) }

func TestBasin(t *testing.T) {
	vh.Check(t, 30000, 20, "basins of any strength (also out of range) and radius (also zero, negative and larger than the circle) with states of any phase and period; non-trivial = the state is inside, away from the centre", func(c *vh.Case, rt *rapid.T) {
		target := core.State{Phase: vh.AnyPhase().Draw(rt, "target"), Frequency: time.Duration(vh.UI(1, 1e9).Draw(rt, "freq"))}
		strength := vh.UF(-0.5, 1.5).Draw(rt, "strength")
		if vh.OneIn(rt, "edge", 4) {
			strength = vh.From(rt, "strength", 0, 1, -7, 7, math.Inf(1), math.Inf(-1))
		}
		radius := vh.UF(0, 4).Draw(rt, "radius")
		if vh.OneIn(rt, "edge", 4) {
			radius = vh.From(rt, "radius", 0, math.Pi, vh.TwoPi, 1e9, -1, 1e-9)
		}
		x := core.State{Phase: target.Phase + vh.SignedDiff(vh.UnitPhase().Draw(rt, "off"), 0), Frequency: time.Duration(vh.UI(1, 1e9).Draw(rt, "f"))}
		if vh.OneIn(rt, "far", 4) {
			x.Phase = vh.AnyPhase().Draw(rt, "phase")
		}
		if vh.OneIn(rt, "centre", 10) {
			x.Phase = target.Phase
		}
		b := emerge.NewAttractorBasin(target, strength, radius)
		c.Desc("target %v strength %v radius %v state %v", target, strength, radius, x)
		s := math.Min(1, math.Max(0, strength))
		d := vh.CircDist(x.Phase, target.Phase)
		tol := 1e-9 + 1e-15*(math.Abs(x.Phase)+math.Abs(target.Phase))
		got := b.DistanceToTarget(x)
		if !vh.Near(got, d, tol) {
			c.Fatalf("distance %v, want %v", got, d)
		}
		if !(got >= 0 && got <= math.Pi+tol) {
			c.Fatalf("distance %v", got)
		}
		in := b.IsInBasin(x)
		if math.Abs(d-radius) > tol && in != (d < radius) {
			c.Fatalf("distance %v radius %v: in the basin %v", d, radius, in)
		}
		f := b.AttractionForce(x)
		if !(f >= 0 && f <= s+1e-9) {
			c.Fatalf("force %v, strength %v", f, s)
		}
		if math.Abs(d-radius) > tol {
			want := 0.0
			if d < radius {
				want = s * (1 - d/radius)
			}
			if !vh.Near(f, want, (tol/math.Max(radius, 1e-12)+1e-9)) {
				c.Fatalf("force %v at distance %v of %v, want %v", f, d, radius, want)
			}
		}
		if got == 0 && in && !vh.Near(f, s, 1e-9) {
			c.Fatalf("force %v at the centre, strength %v", f, s)
		}
		// closer means stronger
		y := x
		y.Phase = target.Phase + vh.SignedDiff(x.Phase, target.Phase)*vh.UF(0, 1).Draw(rt, "closer")
		if g := b.AttractionForce(y); g < f-(tol/math.Max(radius, 1e-12)+1e-9) {
			c.Fatalf("force %v nearer the target than %v", g, f)
		}
		// whole turns of the state change nothing
		z := x
		z.Phase += vh.TwoPi * float64(vh.UI(-3, 3).Draw(rt, "turns"))
		if math.Abs(d-radius) > 10*tol && !vh.Near(b.AttractionForce(z), f, (tol/math.Max(radius, 1e-12)+1e-9)) {
			c.Fatalf("force %v at %v, %v some turns away", f, x.Phase, b.AttractionForce(z))
		}
		r := b.ConvergenceRate(x)
		if !(r >= 0 && r <= f+1e-12) {
			c.Fatalf("rate %v with force %v", r, f)
		}
		if radius > 0 && math.Abs(d-radius) > tol {
			lo, hi := float64(x.Frequency), float64(target.Frequency)
			if lo > hi {
				lo, hi = hi, lo
			}
			if want := f * lo / hi; !vh.Near(r, want, 1e-9) {
				c.Fatalf("rate %v, force %v with periods %v and %v", r, f, x.Frequency, target.Frequency)
			}
		}
		// the suggested move leads towards the target and not past it
		a := b.OptimalAdjustment(x)
		diff := vh.SignedDiff(target.Phase, x.Phase)
		if math.Abs(a) > d+tol {
			c.Fatalf("move %v overshoots the distance %v", a, d)
		}
		if d > 2*tol && d < math.Pi-2*tol {
			if a == 0 || (a > 0) != (diff > 0) {
				c.Fatalf("move %v, the target is %v away", a, diff)
			}
			want := f
			if f == 0 {
				want = 0.01
			}
			if f > 1e-6 && math.Abs(d-radius) > tol && !vh.Near(a, diff*want, 1e-7+10*tol+10*tol/math.Max(radius, 1e-12)) {
				c.Fatalf("move %v of %v with force %v", a, diff, f)
			}
		}
		c.NonTrivial(in && d > 0.01)
	})
}
