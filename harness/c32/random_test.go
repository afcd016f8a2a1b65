// C32: random numbers stay in range, are unbiased, and are safe to draw concurrently.
package c32

import (
	"math"
	"sync"
	"testing"

	"github.com/carlisia/bio-adapt/internal/random"
	"github.com/carlisia/bio-adapt/zzverif/vh"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { vh.Main(m) }

// draws makes several draws from a scripted entropy source whose words are extreme
// (all zeros, all ones, near the rejection limit) or random.
func TestRange(t *testing.T) {
	vh.Check(t, 4000, 10, "draws of every kind from extreme (all zero, all one) and random entropy; non-trivial = a bound that is not a power of two", func(c *vh.Case, rt *rapid.T) {
		n := vh.UI(1, 300).Draw(rt, "n")
		switch vh.Pick(rt, "kind", 4) {
		case 0:
			n = vh.From(rt, "n", 1, 2, 3, 1<<30, 1<<30+1, 1<<31-1, 1<<31-2, 1431655765)
		case 1:
			n = vh.UI(1, 1<<31-1).Draw(rt, "n")
		}
		var script []float64
		for i := vh.Pick(rt, "script", 4); i > 0; i-- {
			script = append(script, vh.From(rt, "word", 0.0, math.Nextafter(1, 0), 0.5, 0.999999))
		}
		seed := vh.Seed64(rt, "seed")
		c.Desc("n %d script %v seed %d", n, script, seed)
		vh.ScriptEntropy(script, seed)
		for i := 0; i < 5; i++ {
			if f := random.Float64(); !(f >= 0 && f < 1) {
				c.Fatalf("Float64 returned %v", f)
			}
			if p := random.Phase(); !(p >= 0 && p < 2*math.Pi) {
				c.Fatalf("Phase returned %v", p)
			}
			if k := random.Intn(n); k < 0 || k >= n {
				c.Fatalf("Intn(%d) returned %d", n, k)
			}
		}
		vh.ScriptEntropy(script, seed)
		if f := random.Float64(); !(f >= 0 && f < 1) {
			c.Fatalf("Float64 returned %v", f)
		}
		vh.ScriptEntropy(script, seed)
		if p := random.Phase(); !(p >= 0 && p < 2*math.Pi) {
			c.Fatalf("Phase returned %v", p)
		}
		for _, bad := range []int{0, -1, math.MinInt} {
			func() {
				defer func() {
					if recover() == nil {
						c.Fatalf("Intn(%d) returned", bad)
					}
				}()
				random.Intn(bad)
			}()
		}
		c.NonTrivial(n&(n-1) != 0)
	})
}

// TestUniform bounds the bias: each tenth of the range gets its share.
func TestUniform(t *testing.T) {
	vh.Check(t, 60, 10, "3000 draws per case of floats, phases and integers under a random bound, by one or several goroutines; non-trivial = several goroutines", func(c *vh.Case, rt *rapid.T) {
		n := vh.From(rt, "n", 3, 7, 10, 97, 1000, 1<<31-1, 3<<29, 5<<28, 1<<30+1, 0)
		if n == 0 { // any bound
			n = min(2+int(rapid.Uint32().Draw(rt, "bound")>>vh.UI(1, 28).Draw(rt, "shift")), 1<<31-1)
		}
		workers := vh.UI(1, 6).Draw(rt, "workers")
		vh.SeedEntropy(vh.Seed64(rt, "seed"))
		c.Desc("n %d workers %d", n, workers)
		const draws = 3000
		var mu sync.Mutex
		var f, p, k []float64
		var wg sync.WaitGroup
		for w := 0; w < workers; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < draws/workers; i++ {
					a, b, d := random.Float64(), random.Phase()/vh.TwoPi, (float64(random.Intn(n))+0.5)/float64(n)
					mu.Lock()
					f, p, k = append(f, a), append(p, b), append(k, d)
					mu.Unlock()
				}
			}()
		}
		wg.Wait()
		for name, xs := range map[string][]float64{"Float64": f, "Phase": p, "Intn": k} {
			// the distribution function at nine points, within six standard deviations
			for i := 1; i < 10; i++ {
				at := float64(i) / 10
				want := at
				if name == "Intn" { // share of the integers below
					want = math.Floor(at*float64(n)+0.5) / float64(n)
				}
				got := 0.0
				for _, x := range xs {
					if name == "Intn" && x*float64(n) < math.Floor(at*float64(n)+0.5) || name != "Intn" && x < at {
						got++
					}
				}
				got /= float64(len(xs))
				sd := math.Sqrt(want*(1-want)/float64(len(xs))) + 1e-6
				if math.Abs(got-want) > 7*sd {
					c.Fatalf("%s: share %v below %v, want %v", name, got, at, want)
				}
			}
			// and no residue is favoured
			if name == "Intn" {
				for _, m := range []int{2, 3, 5, 7} {
					if n < 100*m {
						continue
					}
					counts := make([]float64, m)
					for _, x := range xs {
						counts[int(x*float64(n))%m]++
					}
					for r, k := range counts {
						// values below n with this residue
						want := float64((n-1-r)/m+1) / float64(n)
						sd := math.Sqrt(want*(1-want)/float64(len(xs))) + 1e-6
						if got := k / float64(len(xs)); math.Abs(got-want) > 7*sd {
							c.Fatalf("Intn(%d): share %v is %d modulo %d, want %v", n, got, r, m, want)
						}
					}
				}
			}
			seen := map[float64]bool{}
			for _, x := range xs {
				seen[x] = true
			}
			if name != "Intn" && len(seen) < len(xs)-2 {
				c.Fatalf("%s: %d different values in %d draws", name, len(seen), len(xs))
			}
		}
		c.NonTrivial(workers > 1)
	})
}
