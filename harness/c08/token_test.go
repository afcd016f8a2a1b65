// C08: the token pool conserves tokens (built with the race detector).
package c08

import (
	"math"
	"sync"
	"testing"

	"github.com/carlisia/bio-adapt/internal/resource"
	"github.com/carlisia/bio-adapt/zzverif/vh"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { vh.Main(m) }

func amount(rt *rapid.T, max, avail float64) float64 {
	switch vh.Pick(rt, "ak", 7) {
	case 0:
		return avail
	case 1:
		return avail + vh.UF(0, 10).Draw(rt, "over")
	case 2:
		return -vh.UF(0, 100).Draw(rt, "neg")
	case 3:
		return 0
	case 4:
		return max
	default:
		return vh.UF(0, 100).Draw(rt, "amt")
	}
}

func TestHistory(t *testing.T) {
	vh.Check(t, 8000, 30, "histories of 1-60 request/release operations incl. negative, zero, exact and excessive amounts; non-trivial = a request was only partly met and a release was capped", func(c *vh.Case, rt *rapid.T) {
		max := vh.From(rt, "maxk", 100.0, 0, -5, 1, 1e9, 0.5)
		if rapid.Bool().Draw(rt, "mr") {
			max = vh.UF(-10, 300).Draw(rt, "max")
		}
		tm := resource.NewTokenManager(max)
		m := math.Max(0, max)
		avail := m
		c.Desc("max %v", max)
		part, capd := false, false
		n := rapid.IntRange(1, 60).Draw(rt, "n")
		for i := 0; i < n; i++ {
			x := amount(rt, m, avail)
			if rapid.Bool().Draw(rt, "req") {
				want := math.Min(math.Max(x, 0), avail)
				part = part || (x > avail && avail > 0)
				got := tm.Request(x)
				c.Desc("req %v", x)
				if got != want {
					c.Fatalf("op %d: Request(%v) with %v available of %v gave %v, want %v", i, x, avail, m, got, want)
				}
				avail -= want
			} else {
				capd = capd || (x > 0 && avail+x > m)
				tm.Release(x)
				c.Desc("rel %v", x)
				avail = math.Min(m, avail+math.Max(0, x))
			}
			if got := tm.Available(); !vh.RelNear(got, avail, 1e-12) || got < 0 || got > m {
				c.Fatalf("op %d: %v available, want %v of %v", i, got, avail, m)
			}
		}
		c.NonTrivial(part && capd)
	})
}

func TestConcurrent(t *testing.T) {
	vh.Check(t, 150, 20, "2-8 workers requesting/releasing integer amounts; non-trivial = demand exceeds supply", func(c *vh.Case, rt *rapid.T) {
		max := float64(rapid.IntRange(1, 2000).Draw(rt, "max"))
		k := rapid.IntRange(2, 8).Draw(rt, "workers")
		n := rapid.IntRange(50, 300).Draw(rt, "n")
		giveBack := rapid.Bool().Draw(rt, "release")
		unit := float64(rapid.IntRange(1, 7).Draw(rt, "unit"))
		tm := resource.NewTokenManager(max)
		c.Desc("max %v, %d workers x %d requests of %v, release %v", max, k, n, unit, giveBack)
		c.NonTrivial(float64(k*n)*unit > max)
		got := make([]float64, k)
		var wg sync.WaitGroup
		for w := 0; w < k; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < n; i++ {
					g := tm.Request(unit)
					if g < 0 || g > unit {
						panic("PROPERTY-VIOLATED: request granted more than asked")
					}
					if av := tm.Available(); av < 0 || av > max {
						panic("PROPERTY-VIOLATED: available tokens outside [0, max]")
					}
					if giveBack && i%3 != 0 {
						tm.Release(g)
						g = 0
					}
					got[w] += g
				}
			}()
		}
		wg.Wait()
		sum := 0.0
		for _, g := range got {
			sum += g
		}
		if sum+tm.Available() != max {
			c.Fatalf("granted and kept %v, available %v, but there are %v tokens", sum, tm.Available(), max)
		}
		if !giveBack && float64(k*n)*unit >= max && tm.Available() != 0 {
			c.Fatalf("demand exceeds supply but %v tokens remain", tm.Available())
		}
	})
}
