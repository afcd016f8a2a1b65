// C17: what a swarm measures, and what a disruption does.
package c17

import (
	"math"
	"testing"
	"time"

	"github.com/carlisia/bio-adapt/emerge/agent"
	"github.com/carlisia/bio-adapt/emerge/core"
	"github.com/carlisia/bio-adapt/emerge/swarm"
	"github.com/carlisia/bio-adapt/zzverif/vh"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { vh.Main(m) }

func build(c *vh.Case, rt *rapid.T) (*swarm.Swarm, map[string]float64) {
	size := vh.From(rt, "size", 1, 2, 3, 7, 20, 50, 99, 100, 101, 102, 130)
	if vh.OneIn(rt, "any", 2) {
		size = vh.UI(1, 140).Draw(rt, "n")
	}
	big := vh.OneIn(rt, "big", 50) // beyond the largest storage threshold
	if big {
		size = vh.UI(950, 2500).Draw(rt, "huge")
	}
	vh.SeedEntropy(vh.Seed64(rt, "seed"))
	s, err := swarm.New(size, core.State{Phase: 1, Frequency: time.Second, Coherence: 0.8}, swarm.WithTopology(func(*swarm.Swarm) error { return nil }))
	if err != nil {
		c.Fatalf("%v", err)
	}
	kind := vh.Pick(rt, "spread", 6)
	base := vh.UnitPhase().Draw(rt, "base")
	w := vh.UF(0, 1).Draw(rt, "w")
	if big && kind == 5 {
		kind = 4
	}
	i := 0
	for k := 0; k < size; k++ {
		a, _ := s.Agent(agentID(k))
		switch kind {
		case 0: // as created
		case 1:
			a.SetPhase(base + w*spread(rt, big, k))
		case 2:
			a.SetPhase(base + vh.TwoPi*float64(i)/float64(size))
		case 3:
			a.SetPhase(base)
		case 4:
			a.SetPhase(base + math.Pi*float64(i%2))
		default:
			a.SetPhase(vh.AnyPhase().Draw(rt, "p"))
		}
		i++
	}
	c.Desc("size %d spread %d base %v", size, kind, base)
	return s, phases(s)
}

// spread is a number of [-1, 1), drawn unless there are too many to draw.
func spread(rt *rapid.T, big bool, k int) float64 {
	if big {
		return 2*math.Mod(float64(k)*0.6180339887498949, 1) - 1
	}
	return 2*vh.Unit().Draw(rt, "d") - 1
}

func agentID(k int) string {
	b := []byte{}
	if k == 0 {
		b = []byte("0")
	}
	for ; k > 0; k /= 10 {
		b = append([]byte{byte('0' + k%10)}, b...)
	}
	return "agent-" + string(b)
}

func phases(s *swarm.Swarm) map[string]float64 {
	m := map[string]float64{}
	for id, a := range s.Agents() {
		m[id] = a.Phase()
	}
	return m
}

func list(m map[string]float64) (l []float64) {
	for _, p := range m {
		l = append(l, p)
	}
	return
}

func TestMeasures(t *testing.T) {
	vh.Check(t, 4000, 15, "1-140 agents (now and then 950-2500) with clustered, even, equal, opposite or arbitrary phases, and any target phase; non-trivial = at least 3 agents", func(c *vh.Case, rt *rapid.T) {
		s, ph := build(c, rt)
		l := list(ph)
		n := float64(len(l))
		c.NonTrivial(len(l) >= 3)
		if m := s.MeasureCoherence(); !(m >= 0 && m <= 1+1e-9) || !vh.Near(m, vh.Order(l), 1e-9) {
			c.Fatalf("coherence %v, order parameter %v", m, vh.Order(l))
		}
		target := vh.AnyPhase().Draw(rt, "target")
		c.Desc(" target %v", target)
		d := 0.0
		for _, p := range l {
			d += vh.CircDist(p, target) / n
		}
		if m := s.MeasurePhaseConvergence(target); !(m >= 0 && m <= 1+1e-9) || !vh.Near(m, 1-d/math.Pi, 1e-6+math.Abs(target)*1e-15) {
			c.Fatalf("phase convergence %v, mean distance %v of the target", m, d)
		}
		v := s.MeasurePhaseVariance()
		if !(v >= 0 && v <= math.Pi*math.Pi+1e-9) {
			c.Fatalf("variance %v", v)
		}
		if vh.Order(l) > 1e-6 { // otherwise there is no mean direction
			var sx, sy float64
			for _, p := range l {
				sx, sy = sx+math.Cos(p), sy+math.Sin(p)
			}
			m, want, edge := math.Atan2(sy, sx), 0.0, false
			for _, p := range l {
				x := vh.SignedDiff(p, m)
				want += x * x / n
				edge = edge || math.Abs(math.Abs(x)-math.Pi) < 1e-6
			}
			if !edge && !vh.Near(v, want, 1e-6) {
				c.Fatalf("variance %v, mean squared distance from the mean direction %v", v, want)
			}
		}
		// measuring changes nothing
		for id, p := range phases(s) {
			if p != ph[id] {
				c.Fatalf("measuring moved %s", id)
			}
		}
		// turning every agent by the same angle changes nothing but the offset
		turn := vh.UnitPhase().Draw(rt, "turn")
		s.ForEachAgent(func(a *agent.Agent) bool { a.SetPhase(a.Phase() + turn); return true })
		if m := s.MeasureCoherence(); !vh.Near(m, vh.Order(l), 1e-9) {
			c.Fatalf("turning the swarm changed its coherence to %v", m)
		}
		if m := s.MeasurePhaseConvergence(vh.Wrap(target) + turn); !vh.Near(m, 1-d/math.Pi, 1e-6) {
			c.Fatalf("turning the swarm and the target changed the convergence to %v", m)
		}
	})
}

func TestDisrupt(t *testing.T) {
	vh.Check(t, 4000, 15, "1-140 agents (now and then 950-2500) disrupted by any fraction including outside [0,1]; non-trivial = some but not all agents are to change", func(c *vh.Case, rt *rapid.T) {
		s, ph := build(c, rt)
		n := len(ph)
		f := vh.UF(0, 1).Draw(rt, "f")
		if vh.OneIn(rt, "edge", 3) {
			f = vh.From(rt, "f", 0, 1, -0.5, 1.5, math.Inf(1), math.Inf(-1), 0.5, 1e-9, 1-1e-9)
		}
		c.Desc(" fraction %v", f)
		want := int(float64(n) * math.Min(1, math.Max(0, f)))
		c.NonTrivial(want > 0 && want < n)
		type rest struct {
			e, g, i, st float64
			f           time.Duration
		}
		snap := func() map[string]rest {
			m := map[string]rest{}
			for id, a := range s.Agents() {
				m[id] = rest{a.Energy(), a.LocalGoal(), a.Influence(), a.Stubbornness(), a.Frequency()}
			}
			return m
		}
		before := snap()
		s.DisruptAgents(f)
		changed := 0
		for id, p := range phases(s) {
			if !(p >= 0 && p < vh.TwoPi) {
				c.Fatalf("%s at %v", id, p)
			}
			if p != ph[id] {
				changed++
			}
		}
		if changed != want {
			c.Fatalf("%d agents changed, %d were to", changed, want)
		}
		for id, r := range snap() {
			if r != before[id] {
				c.Fatalf("%s changed in more than its phase", id)
			}
		}
		if s.Size() != n || len(s.Agents()) != n || s.IsConverged() {
			c.Fatalf("size %d converged %v", s.Size(), s.IsConverged())
		}
	})
}

// The disrupted agents are picked at random, each as likely as any other.
func TestDisruptFair(t *testing.T) {
	vh.Check(t, 40, 20, "a swarm of either storage disrupted 400 times by a fixed fraction; every case is non-trivial", func(c *vh.Case, rt *rapid.T) {
		size := vh.From(rt, "size", 5, 20, 120)
		f := vh.From(rt, "f", 0.2, 0.5, 0.8)
		vh.SeedEntropy(vh.Seed64(rt, "seed"))
		c.Desc("size %d fraction %v", size, f)
		c.NonTrivial(true)
		s, err := swarm.New(size, core.State{Phase: 1, Frequency: time.Second, Coherence: 0.8})
		if err != nil {
			c.Fatalf("%v", err)
		}
		const rounds = 400
		hits := map[string]int{}
		for i := 0; i < rounds; i++ {
			ph := phases(s)
			s.DisruptAgents(f)
			for id, p := range phases(s) {
				if p != ph[id] {
					hits[id]++
				}
			}
		}
		p := math.Floor(f*float64(size)) / float64(size)
		sd := math.Sqrt(rounds * p * (1 - p))
		for id := range s.Agents() {
			if math.Abs(float64(hits[id])-rounds*p) > 7*sd {
				c.Fatalf("%s was disrupted %d times out of %d, expected about %v", id, hits[id], rounds, rounds*p)
			}
		}
	})
}
