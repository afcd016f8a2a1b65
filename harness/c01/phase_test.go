// C01: phase arithmetic on the circle.
package c01

import (
	"math"
	"testing"

	"github.com/carlisia/bio-adapt/emerge/core"
	"github.com/carlisia/bio-adapt/zzverif/vh"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { vh.Main(m) }

// tol grows with the magnitude of the inputs: x itself only represents an angle
// up to its own rounding, and 2π only up to one ulp per turn.
func tol(xs ...float64) float64 {
	t := 1e-9
	for _, x := range xs {
		t += math.Abs(x) * 1e-15 * 4
	}
	return t
}

// on the unit circle a and b name the same point
func samePoint(a, b, eps float64) bool {
	return math.Hypot(math.Cos(a)-math.Cos(b), math.Sin(a)-math.Sin(b)) <= eps
}

func TestWrap(t *testing.T) {
	vh.Check(t, 20000, 40, "any finite phase; non-trivial = outside [0,2π) or within 1e-6 of a wrap boundary", func(c *vh.Case, rt *rapid.T) {
		x := vh.AnyPhase().Draw(rt, "x")
		if vh.OneIn(rt, "huge", 20) {
			x = rapid.Float64Range(-math.MaxFloat64, math.MaxFloat64).Draw(rt, "xh")
		}
		if vh.OneIn(rt, "whole", 15) { // whole, half and quarter turns as floating point has them
			x = float64(rapid.IntRange(-4000, 4000).Draw(rt, "quarters")) * (math.Pi / 2)
		}
		c.Desc("wrap(%v)", x)
		w := core.WrapPhase(x)
		c.NonTrivial(x < 0 || x >= vh.TwoPi || math.Abs(math.Remainder(x, vh.TwoPi)) < 1e-6)
		if !(w >= 0 && w <= vh.TwoPi) {
			c.Fatalf("WrapPhase(%v) = %v, outside [0, 2π]", x, w)
		}
		// half-open: only a negative remainder too small to tell from a whole turn may round up to 2π
		if r := math.Mod(x, vh.TwoPi); w == vh.TwoPi && !(r < 0 && r > -1e-15) {
			c.Fatalf("WrapPhase(%v) = 2π, outside [0, 2π)", x)
		}
		if math.Abs(x) < 1e9 && !samePoint(w, x, tol(x)) {
			c.Fatalf("WrapPhase(%v) = %v is a different angle", x, w)
		}
		// congruent modulo the representable 2π, for any magnitude
		if d := math.Abs(math.Remainder(w-math.Mod(x, vh.TwoPi), vh.TwoPi)); d > 1e-9 {
			c.Fatalf("WrapPhase(%v) = %v not congruent (off by %v)", x, w, d)
		}
		if w2 := core.WrapPhase(w); math.Abs(math.Remainder(w2-w, vh.TwoPi)) > 1e-12 {
			c.Fatalf("wrapping twice differs: %v then %v", w, w2)
		}
		if x >= 0 && x < vh.TwoPi && math.Abs(w-x) > 1e-12 && vh.TwoPi-math.Abs(w-x) > 1e-14 {
			c.Fatalf("WrapPhase changes %v (already in range) to %v", x, w)
		}
		if x > -1e6 && x < 1e6 {
			k := rapid.IntRange(-50, 50).Draw(rt, "turns")
			y := core.WrapPhase(x + float64(k)*vh.TwoPi)
			if vh.CircDist(y, w) > tol(x, float64(k)*vh.TwoPi) {
				c.Fatalf("WrapPhase not periodic: %v vs %v after %d turns", w, y, k)
			}
		}
	})
}

func TestDifference(t *testing.T) {
	vh.Check(t, 30000, 40, "pairs of finite phases incl. special angles, near-antipodal and near-equal pairs; non-trivial = the shortest path crosses the 0/2π boundary, or an input lies outside [0,2π)", func(c *vh.Case, rt *rapid.T) {
		a := vh.AnyPhase().Draw(rt, "a")
		var b float64
		switch vh.Pick(rt, "rel", 6) {
		case 0:
			b = a + rapid.Float64Range(-1e-6, 1e-6).Draw(rt, "near")
		case 1:
			b = a + math.Pi + rapid.Float64Range(-1e-3, 1e-3).Draw(rt, "anti")
		case 2:
			b = a + float64(rapid.IntRange(-8, 8).Draw(rt, "q"))*math.Pi/4
		default:
			b = vh.AnyPhase().Draw(rt, "b")
		}
		c.Desc("diff(%v,%v)", a, b)
		d := core.PhaseDifference(a, b)
		want := vh.SignedDiff(a, b)
		crosses := math.Abs(vh.Wrap(a)-vh.Wrap(b)) > math.Pi
		c.NonTrivial(crosses || a < 0 || b < 0 || a >= vh.TwoPi || b >= vh.TwoPi)
		if crosses {
			c.Label("crosses-boundary")
		}
		eps := tol(a, b)
		if !(d >= -math.Pi-1e-12 && d <= math.Pi+1e-12) {
			c.Fatalf("PhaseDifference(%v,%v) = %v outside [-π,π]", a, b, d)
		}
		if vh.CircDist(b+d, a) > eps {
			c.Fatalf("PhaseDifference(%v,%v) = %v: rotating the second phase by it does not give the first (off by %v)", a, b, d, vh.CircDist(b+d, a))
		}
		if math.Pi-math.Abs(want) > 2*eps && math.Abs(d-want) > eps {
			c.Fatalf("PhaseDifference(%v,%v) = %v, want %v", a, b, d, want)
		}
		if math.Abs(math.Abs(d)-vh.CircDist(a, b)) > eps {
			c.Fatalf("|PhaseDifference(%v,%v)| = %v, circular distance is %v", a, b, math.Abs(d), vh.CircDist(a, b))
		}
		r := core.PhaseDifference(b, a)
		if math.Pi-math.Abs(want) > 2*eps && math.Abs(r+d) > eps {
			c.Fatalf("not antisymmetric: d(a,b)=%v d(b,a)=%v", d, r)
		}
		k := float64(rapid.IntRange(-5, 5).Draw(rt, "k"))
		if e := core.PhaseDifference(a+k*vh.TwoPi, b); math.Pi-math.Abs(want) > 2*eps && math.Abs(e-d) > eps+1e-9 {
			c.Fatalf("full turns change the difference: %v vs %v", d, e)
		}
		if z := core.PhaseDifference(a, a); math.Abs(z) > 1e-12 {
			c.Fatalf("difference to itself is %v", z)
		}
	})
}

func TestTriangle(t *testing.T) {
	vh.Check(t, 5000, 40, "triples of phases; non-trivial = three pairwise different angles", func(c *vh.Case, rt *rapid.T) {
		a := vh.UF(-20, 20).Draw(rt, "a")
		b := vh.UF(-20, 20).Draw(rt, "b")
		x := vh.UF(-20, 20).Draw(rt, "x")
		c.Desc("triangle(%v,%v,%v)", a, b, x)
		ab, bx, ax := core.PhaseDifference(a, b), core.PhaseDifference(b, x), core.PhaseDifference(a, x)
		c.NonTrivial(ab != 0 && bx != 0 && ax != 0)
		if math.Abs(ax) > math.Abs(ab)+math.Abs(bx)+1e-9 {
			c.Fatalf("triangle inequality broken: |d(a,x)|=%v > %v+%v", ax, ab, bx)
		}
		if vh.CircDist(ab+bx, ax) > 1e-9 {
			c.Fatalf("differences do not compose: %v + %v vs %v", ab, bx, ax)
		}
	})
}
