// C16: who is connected to whom in a new swarm.
package c16

import (
	"errors"
	"math"
	"testing"
	"time"

	"github.com/carlisia/bio-adapt/emerge/agent"
	"github.com/carlisia/bio-adapt/emerge/core"
	"github.com/carlisia/bio-adapt/emerge/swarm"
	"github.com/carlisia/bio-adapt/internal/config"
	"github.com/carlisia/bio-adapt/internal/topology"
	"github.com/carlisia/bio-adapt/zzverif/vh"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { vh.Main(m) }

var goalState = core.State{Phase: 1, Frequency: 200 * time.Millisecond, Coherence: 0.8}

type graph map[string]map[string]bool

// adjacency reads every agent's connections and checks that they are mutual, never
// reflexive, and lead to the members themselves.
func adjacency(c *vh.Case, s *swarm.Swarm) graph {
	all := s.Agents()
	g := graph{}
	for id, a := range all {
		nb := map[string]bool{}
		for k := range all {
			if a.IsConnectedTo(k) {
				nb[k] = true
			}
		}
		a.Neighbors().Range(func(k, v any) bool {
			kid, ok1 := k.(string)
			b, ok2 := v.(*agent.Agent)
			if !ok1 || !ok2 || all[kid] != b || b == nil || !nb[kid] {
				c.Fatalf("%s has neighbor %v which is not a member", id, k)
			}
			return true
		})
		if nb[id] {
			c.Fatalf("%s is its own neighbor", id)
		}
		if a.NeighborCount() != len(nb) {
			c.Fatalf("%s counts %d neighbors and is connected to %d members", id, a.NeighborCount(), len(nb))
		}
		g[id] = nb
	}
	for id, nb := range g {
		for k := range nb {
			if !g[k][id] {
				c.Fatalf("%s knows %s but not the other way round", id, k)
			}
		}
	}
	return g
}

func (g graph) edges() (n int) {
	for _, nb := range g {
		n += len(nb)
	}
	return n / 2
}

// reach counts the agents that can be reached from one of them.
func (g graph) reach() int {
	for id := range g {
		seen, todo := map[string]bool{id: true}, []string{id}
		for len(todo) > 0 {
			x := todo[0]
			todo = todo[1:]
			for k := range g[x] {
				if !seen[k] {
					seen[k] = true
					todo = append(todo, k)
				}
			}
		}
		return len(seen)
	}
	return 0
}

func genSize(rt *rapid.T) int {
	if vh.OneIn(rt, "big", 3) {
		return vh.UI(95, 170).Draw(rt, "size")
	}
	return vh.UI(1, 60).Draw(rt, "size")
}

func TestRandomConnections(t *testing.T) {
	vh.Check(t, 1500, 12, "a swarm of 1-170 agents with a drawn connection probability, minimum, maximum and storage; non-trivial = at least 3 agents", func(c *vh.Case, rt *rapid.T) {
		size := genSize(rt)
		vh.SeedEntropy(vh.Seed64(rt, "seed"))
		cfg := config.AutoScaleConfig(size)
		if !vh.OneIn(rt, "default", 4) {
			cfg.ConnectionProbability = vh.From(rt, "p", 0, 0.02, 0.3, 0.6, 1)
			cfg.MaxNeighbors = vh.From(rt, "max", size-1, size-1, 1, 3, size/2)
			cfg.MinNeighbors = vh.From(rt, "min", 0, 1, 2, 5, 25, size-1)
			cfg.EnableConnectionOptim = vh.OneIn(rt, "optim", 3)
			cfg.ConnectionOptimThreshold = vh.From(rt, "thr", 0, size-1, size, size+1)
		}
		_ = cfg.NormalizeAndValidate(size)
		c.Desc("size %d p %v min %d max %d optim %v/%d", size, cfg.ConnectionProbability, cfg.MinNeighbors, cfg.MaxNeighbors, cfg.EnableConnectionOptim, cfg.ConnectionOptimThreshold)
		c.NonTrivial(size >= 3)
		var s *swarm.Swarm
		var err error
		if vh.OneIn(rt, "how", 3) {
			s, err = swarm.NewSwarmFromConfig(size, goalState, cfg)
		} else {
			s, err = swarm.New(size, goalState, swarm.WithConfig(cfg))
		}
		if err != nil {
			c.Fatalf("%v", err)
		}
		g := adjacency(c, s)
		minimal := cfg.EnableConnectionOptim && size > cfg.ConnectionOptimThreshold
		if minimal {
			c.Label("minimal")
		}
		if !minimal || cfg.MinNeighbors*4 <= size && size >= 20 {
			for id, nb := range g {
				if len(nb) < cfg.MinNeighbors {
					c.Fatalf("%s has %d neighbors", id, len(nb))
				}
			}
		}
		pairs := size * (size - 1) / 2
		switch {
		case minimal:
			if g.edges() > size*cfg.MinNeighbors {
				c.Fatalf("%d connections", g.edges())
			}
		case cfg.ConnectionProbability == 1 && cfg.MaxNeighbors == size-1:
			if g.edges() != pairs {
				c.Fatalf("%d of %d connections", g.edges(), pairs)
			}
		case cfg.ConnectionProbability == 0:
			if g.edges() > size*cfg.MinNeighbors {
				c.Fatalf("%d connections with probability 0", g.edges())
			}
		case cfg.MaxNeighbors == size-1 && cfg.MinNeighbors <= 2 && size > 40:
			// every pair gets one or two chances
			p := cfg.ConnectionProbability
			n := float64(pairs)
			lo, hi := p*n-6*math.Sqrt(n*p)-6, (1-(1-p)*(1-p))*n+6*math.Sqrt(n*2*p)+6+float64(size*cfg.MinNeighbors)
			if e := float64(g.edges()); e < lo || e > hi {
				c.Fatalf("%v of %v connections, expected %v to %v", e, n, lo, hi)
			}
		}
		// nobody starts more than the maximum
		if !minimal && g.edges() > size*cfg.MaxNeighbors {
			c.Fatalf("%d connections", g.edges())
		}
	})
}

func TestDefaultIsConnected(t *testing.T) {
	vh.Check(t, 700, 12, "a swarm of 2-170 agents (sometimes 1000-1200) with all defaults; every case is non-trivial", func(c *vh.Case, rt *rapid.T) {
		size := max(2, genSize(rt))
		if vh.OneIn(rt, "huge", 20) {
			size = vh.UI(1000, 1200).Draw(rt, "size")
		}
		vh.SeedEntropy(vh.Seed64(rt, "seed"))
		c.Desc("size %d", size)
		c.NonTrivial(true)
		s, err := swarm.New(size, goalState)
		if err != nil {
			c.Fatalf("%v", err)
		}
		g := adjacency(c, s)
		for id, nb := range g {
			if len(nb) < min(2, size-1) {
				c.Fatalf("%s has %d neighbors", id, len(nb))
			}
		}
		if size < 10 && g.edges() != size*(size-1)/2 {
			c.Fatalf("%d connections in a small swarm of %d", g.edges(), size)
		}
	})
}

func TestBuilders(t *testing.T) {
	vh.Check(t, 1200, 12, "ring, star and full topologies over 1-170 agents, through the option or applied afterwards; non-trivial = at least 4 agents", func(c *vh.Case, rt *rapid.T) {
		size := genSize(rt)
		vh.SeedEntropy(vh.Seed64(rt, "seed"))
		kind := vh.Pick(rt, "topology", 4)
		build := []func(*swarm.Swarm) error{topology.Ring, topology.Star, topology.FullyConnected, func(*swarm.Swarm) error { return nil }}[kind]
		c.Desc("size %d topology %d", size, kind)
		c.NonTrivial(size >= 4)
		calls := 0
		s, err := swarm.New(size, goalState, swarm.WithTopology(func(s *swarm.Swarm) error {
			calls++
			n := 0
			s.ForEachAgent(func(*agent.Agent) bool { n++; return true })
			if n != size || len(s.Agents()) != size {
				c.Fatalf("topology sees %d agents", n)
			}
			return build(s)
		}))
		if calls != 1 {
			c.Fatalf("topology applied %d times", calls)
		}
		if size < 2 && kind < 2 {
			if !errors.Is(err, core.ErrInsufficientAgents) || s != nil {
				c.Fatalf("one agent cannot form this topology: %v", err)
			}
			return
		}
		if err != nil {
			c.Fatalf("%v", err)
		}
		shape(c, adjacency(c, s), size, kind)
		if vh.OneIn(rt, "again", 3) { // applying it once more changes nothing
			if err := build(s); err != nil {
				c.Fatalf("%v", err)
			}
			g := adjacency(c, s)
			if kind == 1 || kind == 0 {
				// the order of iteration may differ, so only the number of agents reached is fixed
				if g.reach() != size {
					c.Fatalf("%d of %d reachable", g.reach(), size)
				}
			} else {
				shape(c, g, size, kind)
			}
		}
	})
}

func shape(c *vh.Case, g graph, size, kind int) {
	deg := map[int]int{}
	for _, nb := range g {
		deg[len(nb)]++
	}
	ok := false
	switch kind {
	case 0:
		ok = deg[min(2, size-1)] == size && g.reach() == size
	case 1:
		ok = size == 2 && deg[1] == 2 || size > 2 && deg[size-1] == 1 && deg[1] == size-1
	case 2:
		ok = deg[size-1] == size
	default:
		ok = deg[0] == size
	}
	if !ok {
		c.Fatalf("degrees (neighbors: agents) %v, %d reachable", deg, g.reach())
	}
}
