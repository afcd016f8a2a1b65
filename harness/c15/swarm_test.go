// C15: swarm construction and agent storage.
package c15

import (
	"context"
	"errors"
	"fmt"
	"math"
	"runtime"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/carlisia/bio-adapt/emerge/agent"
	"github.com/carlisia/bio-adapt/emerge/core"
	"github.com/carlisia/bio-adapt/emerge/goal"
	"github.com/carlisia/bio-adapt/emerge/monitoring"
	"github.com/carlisia/bio-adapt/emerge/swarm"
	"github.com/carlisia/bio-adapt/internal/config"
	"github.com/carlisia/bio-adapt/zzverif/vh"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { vh.Main(m) }

func genSize(rt *rapid.T) int {
	switch vh.Pick(rt, "sizekind", 10) {
	case 0, 1, 2:
		return vh.UI(1, 25).Draw(rt, "size")
	case 3:
		return vh.From(rt, "size", 1, 2, 9, 10, 19, 20, 99, 100, 101, 102)
	case 4, 5, 6:
		return vh.UI(101, 260).Draw(rt, "size")
	case 7:
		if vh.OneIn(rt, "huge", 8) {
			return vh.UI(990, 1300).Draw(rt, "size")
		}
		return vh.UI(101, 130).Draw(rt, "size")
	default:
		return vh.UI(1, 110).Draw(rt, "size")
	}
}

func genGoal(rt *rapid.T) core.State {
	return core.State{
		Phase:     vh.AnyPhase().Draw(rt, "phase"),
		Frequency: time.Duration(vh.UI(1, 5e9).Draw(rt, "freq")),
		Coherence: vh.Unit().Draw(rt, "coh"),
	}
}

// genConfig draws settings of every kind, many of them out of range.
func genConfig(rt *rapid.T, size int) config.Swarm {
	pf := func(n string) float64 { return vh.From(rt, n, 0, 1, 0.5, 0.3, -2, 7, math.NaN(), 0.9, 0.05) }
	in := func(n string) int { return vh.From(rt, n, 0, 1, 2, 5, 19, 20, 21, 30, size-1, size, size+7, -3) }
	dur := func(n string) time.Duration {
		return time.Duration(vh.From(rt, n, 0, 1, int64(time.Millisecond), int64(time.Second), -5))
	}
	return config.Swarm{
		ConnectionProbability: pf("cp"), CouplingStrength: pf("cs"), Stubbornness: pf("st"),
		BasinStrength: pf("bs"), BaseConfidence: pf("bc"), InfluenceDefault: pf("inf"),
		MaxNeighbors: in("maxn"), MinNeighbors: in("minn"), AssumedMaxNeighbors: vh.From(rt, "assumed", 0, 1, 20, size),
		InitialEnergy: vh.From(rt, "energy", 0, 100, 1, 37.5, 1e6, -4), BasinWidth: vh.From(rt, "bw", 0, math.Pi, 7, -1),
		MaxSwarmSize: vh.From(rt, "maxsize", 0, 0, 0, 0, size, size-1, size+1, 1e6), MaxConcurrentAgents: in("mca"), BatchSize: in("batch"), WorkerPoolSize: in("wps"),
		UseBatchProcessing: vh.OneIn(rt, "ubp", 2), AgentUpdateInterval: dur("aui"), MonitoringInterval: dur("mi"),
		ConnectionOptimThreshold: vh.From(rt, "cot", 0, 5, 100, 50000, -1), EnableConnectionOptim: vh.OneIn(rt, "eco", 3), AutoScale: vh.OneIn(rt, "as", 2),
	}
}

// members checks that the swarm is exactly agent-0 … agent-(n-1), each of them the
// same object on every way in.
func members(c *vh.Case, s *swarm.Swarm, size int, want map[string]*agent.Agent) {
	if s.Size() != size {
		c.Fatalf("size %d", s.Size())
	}
	all := s.Agents()
	if len(all) != size {
		c.Fatalf("%d agents listed", len(all))
	}
	objs := map[*agent.Agent]bool{}
	for i := 0; i < size; i++ {
		id := fmt.Sprintf("agent-%d", i)
		a := all[id]
		if a == nil || a.ID != id {
			c.Fatalf("agent %s listed as %v", id, a)
		}
		if b, ok := s.Agent(id); !ok || b != a {
			c.Fatalf("agent %s looked up: %v %v", id, b, ok)
		}
		if want != nil && want[id] != a {
			c.Fatalf("agent %s is not the one built", id)
		}
		objs[a] = true
	}
	if len(objs) != size {
		c.Fatalf("%d distinct agents", len(objs))
	}
	seen := map[*agent.Agent]int{}
	s.ForEachAgent(func(a *agent.Agent) bool { seen[a]++; return true })
	for a, n := range seen {
		if n != 1 || !objs[a] {
			c.Fatalf("iteration met %s %d times (member %v)", a.ID, n, objs[a])
		}
	}
	if len(seen) != size {
		c.Fatalf("iteration met %d agents", len(seen))
	}
	for _, id := range []string{"", "agent-", "agent", fmt.Sprintf("agent-%d", size), "agent--1", "agent-00", "AGENT-0"} {
		if a, ok := s.Agent(id); ok || a != nil {
			c.Fatalf("there is no %q: %v %v", id, a, ok)
		}
	}
}

func fresh(c *vh.Case, s *swarm.Swarm, cfg config.Swarm) {
	var ph []float64
	s.ForEachAgent(func(a *agent.Agent) bool {
		p := a.Phase()
		if !(p >= 0 && p < vh.TwoPi) || a.Frequency() <= 0 {
			c.Fatalf("%s starts at phase %v period %v", a.ID, p, a.Frequency())
		}
		if a.Energy() != cfg.InitialEnergy {
			c.Fatalf("%s starts with energy %v, configured %v", a.ID, a.Energy(), cfg.InitialEnergy)
		}
		if a.Influence() < 0 || a.Influence() > 1 || a.Stubbornness() < 0 || a.Stubbornness() > 1 {
			c.Fatalf("%s influence %v stubbornness %v", a.ID, a.Influence(), a.Stubbornness())
		}
		if cfg.InfluenceDefault > 0 && !vh.Near(a.Influence(), cfg.InfluenceDefault, 1e-9) ||
			cfg.Stubbornness > 0 && !vh.Near(a.Stubbornness(), cfg.Stubbornness, 1e-9) {
			c.Fatalf("%s influence %v stubbornness %v, configured %v %v", a.ID, a.Influence(), a.Stubbornness(), cfg.InfluenceDefault, cfg.Stubbornness)
		}
		ph = append(ph, p)
		return true
	})
	if s.IsConverged() || s.ConvergenceTime() != 0 {
		c.Fatalf("a fresh swarm claims convergence")
	}
	if m := s.MeasureCoherence(); !vh.Near(m, vh.Order(ph), 1e-9) {
		c.Fatalf("coherence %v, phases give %v", m, vh.Order(ph))
	}
	if len(ph) >= 12 { // the start is random, not a constant
		lo, hi := ph[0], ph[0]
		for _, p := range ph {
			lo, hi = math.Min(lo, p), math.Max(hi, p)
		}
		if hi-lo < 0.5 {
			c.Fatalf("%d agents all start between %v and %v", len(ph), lo, hi)
		}
	}
}

func TestConstruct(t *testing.T) {
	vh.Check(t, 500, 20, "a swarm of 1-260 (sometimes about 1000) agents with the default, a custom or an out-of-range configuration, made with options or from a configuration; non-trivial = more than one agent", func(c *vh.Case, rt *rapid.T) {
		size := genSize(rt)
		g := genGoal(rt)
		vh.SeedEntropy(vh.Seed64(rt, "seed"))
		kind := vh.Pick(rt, "kind", 4)
		c.NonTrivial(size > 1)
		cfg := config.AutoScaleConfig(size)
		if kind >= 2 {
			cfg = genConfig(rt, size)
		}
		c.Desc("size %d goal %+v kind %d cfg %+v", size, g, kind, cfg)
		want := cfg
		werr := want.NormalizeAndValidate(size)
		if tooBig := cfg.MaxSwarmSize > 0 && size > cfg.MaxSwarmSize; (werr != nil) != tooBig {
			c.Fatalf("normalisation says %v", werr)
		}
		before := runtime.NumGoroutine()
		var s *swarm.Swarm
		var err error
		switch kind {
		case 0:
			s, err = swarm.New(size, g)
		case 1, 2:
			s, err = swarm.NewSwarmFromConfig(size, g, cfg)
		default:
			s, err = swarm.New(size, g, swarm.WithConfig(cfg))
		}
		if (err != nil) != (werr != nil) || (s == nil) != (err != nil) {
			c.Fatalf("construction: %v %v, normalisation: %v", s != nil, err, werr)
		}
		if err != nil {
			c.Label("rejected")
			return
		}
		if size > swarm.OptimizedSwarmThreshold {
			c.Label("large")
		}
		if n := runtime.NumGoroutine(); n > before {
			c.Fatalf("construction left %d goroutines behind", n-before)
		}
		if s.Config() != want {
			c.Fatalf("configuration in use %+v, expected %+v", s.Config(), want)
		}
		if v := s.Config(); v.Validate(size) != nil {
			c.Fatalf("configuration in use is invalid: %v", v.Validate(size))
		}
		members(c, s, size, nil)
		fresh(c, s, want)
		// early stop
		stop, n := vh.UI(1, size).Draw(rt, "stop"), 0
		s.ForEachAgent(func(*agent.Agent) bool { n++; return n < stop })
		if n != stop {
			c.Fatalf("iteration told to stop after %d went on to %d", stop, n)
		}
		// the listing is a copy
		m := s.Agents()
		for id := range m {
			delete(m, id)
		}
		members(c, s, size, nil)
	})
}

func TestBuilder(t *testing.T) {
	vh.Check(t, 250, 20, "a swarm of 1-260 agents made with a custom agent builder; non-trivial = more than one agent", func(c *vh.Case, rt *rapid.T) {
		size := genSize(rt)
		g := genGoal(rt)
		vh.SeedEntropy(vh.Seed64(rt, "seed"))
		e := vh.UF(1, 500).Draw(rt, "energy")
		c.Desc("size %d energy %v", size, e)
		c.NonTrivial(size > 1)
		built := map[string]*agent.Agent{}
		var got []config.Swarm
		builder := swarm.WithAgentBuilder(func(id string, n int, cfg config.Swarm) *agent.Agent {
			if n != size || built[id] != nil {
				c.Fatalf("builder called with %s, %d", id, n)
			}
			if cfg.Validate(size) != nil {
				c.Fatalf("builder got an invalid configuration")
			}
			a, err := agent.NewFromConfig(id, config.AgentFromSwarm(cfg))
			if err != nil {
				c.Fatalf("%v", err)
			}
			a.SetEnergy(e)
			built[id] = a
			got = append(got, cfg)
			return a
		})
		own := config.AutoScaleConfig(size)
		own.BasinStrength = vh.UF(0.1, 0.9).Draw(rt, "basin")
		var opts []swarm.Option
		order := vh.From(rt, "order", "b", "cb", "bc", "xb", "xbc", "bt", "mbr")
		c.Desc("options %s", order)
		for _, o := range order {
			switch o {
			case 'b':
				opts = append(opts, builder)
			case 'c':
				opts = append(opts, swarm.WithConfig(own))
			case 'x': // one that is overridden by the next
				opts = append(opts, swarm.WithAgentBuilder(func(id string, n int, cfg config.Swarm) *agent.Agent { return agent.New(id) }))
			case 't':
				opts = append(opts, swarm.WithTopology(nil))
			case 'm':
				opts = append(opts, swarm.WithMonitor(monitoring.New()))
			case 'r':
				opts = append(opts, swarm.WithRecoveryConfig(swarm.DefaultRecoveryConfig(0.5)))
			}
		}
		s, err := swarm.New(size, g, opts...)
		if err != nil {
			c.Fatalf("%v", err)
		}
		members(c, s, size, built)
		for _, cfg := range got {
			if cfg != s.Config() {
				c.Fatalf("the builder got another configuration than the swarm has:\n%+v\n%+v", cfg, s.Config())
			}
		}
		if strings.Contains(order, "c") && s.Config().BasinStrength != own.BasinStrength {
			c.Fatalf("the configuration is not the given one")
		}
		s.ForEachAgent(func(a *agent.Agent) bool {
			if a.Energy() != e {
				c.Fatalf("%s energy %v", a.ID, a.Energy())
			}
			return true
		})
		if size > 2 {
			isolated := 0
			s.ForEachAgent(func(a *agent.Agent) bool {
				if a.NeighborCount() == 0 {
					isolated++
				}
				return true
			})
			if isolated > 0 {
				c.Fatalf("%d of the built agents have no neighbor", isolated)
			}
		}
	})
}

func TestReject(t *testing.T) {
	boom := errors.New("boom")
	vh.Check(t, 600, 10, "sizes, goals and options of which at least one is unusable; every case is non-trivial", func(c *vh.Case, rt *rapid.T) {
		size, g := genSize(rt), genGoal(rt)
		vh.SeedEntropy(vh.Seed64(rt, "seed"))
		var opts []swarm.Option
		var want error
		cfg := config.AutoScaleConfig(size)
		fromCfg := true
		kind := vh.Pick(rt, "kind", 12)
		switch kind {
		case 0:
			size, want = vh.From(rt, "bad", 0, -1, -100, math.MinInt), swarm.ErrInvalidSwarmSize
		case 1:
			g.Frequency = time.Duration(vh.From(rt, "bad", 0, -1, math.MinInt64))
		case 2:
			g.Coherence = vh.From(rt, "bad", -1e-9, 1+1e-9, math.NaN(), math.Inf(1), math.Inf(-1))
		case 3:
			g.Phase = vh.From(rt, "bad", math.NaN(), math.Inf(1), math.Inf(-1))
		case 4:
			opts, want, fromCfg = []swarm.Option{func(*swarm.Swarm) error { return boom }}, boom, false
		case 5:
			opts, want, fromCfg = []swarm.Option{swarm.WithTopology(func(*swarm.Swarm) error { return boom })}, boom, false
		case 6:
			opts, fromCfg = []swarm.Option{swarm.WithGoalConfig(nil)}, false
		case 10:
			opts, fromCfg = []swarm.Option{swarm.WithAgentBuilder(nil)}, false
		case 11:
			bad := vh.Pick(rt, "which", size)
			opts, fromCfg = []swarm.Option{swarm.WithAgentBuilder(func(id string, _ int, _ config.Swarm) *agent.Agent {
				if id == fmt.Sprintf("agent-%d", bad) {
					return nil
				}
				return agent.New(id)
			})}, false
		case 7:
			gc := swarm.For(goal.Type(vh.UI(0, 6).Draw(rt, "g")))
			switch vh.Pick(rt, "field", 8) {
			case 0:
				gc.Convergence.BaseAdjustmentScale = 1.01
			case 1:
				gc.Convergence.PhaseConvergenceGoal = -0.1
			case 2:
				gc.Thresholds.HighCoherence, gc.Thresholds.VeryHighCoherence = 0.9, 0.8
			case 3:
				gc.Variation.BaseRange = [2]float64{0.3, 0.1}
			case 4:
				gc.Variation.PerturbationChance = 2
			case 5:
				gc.Strategy.UpdateInterval = 0
			case 6:
				gc.Strategy.ExplorationTimeWindow = -1
			default:
				gc.Resonance.AffectedAgents = 1.5
			}
			opts, fromCfg = []swarm.Option{swarm.WithGoalConfig(gc)}, false
		case 8:
			size = max(size, 2)
			cfg = config.AutoScaleConfig(size)
			cfg.MaxSwarmSize = size - 1
			opts = []swarm.Option{swarm.WithConfig(cfg)}
		default:
			size = vh.UI(1000001, 3000000).Draw(rt, "toobig")
			cfg = config.AutoScaleConfig(size)
		}
		c.Desc("kind %d size %d goal %+v", kind, size, g)
		c.NonTrivial(true)
		check := func(s *swarm.Swarm, err error) {
			if err == nil || s != nil {
				c.Fatalf("accepted: %v", err)
			}
			if want != nil && !errors.Is(err, want) {
				c.Fatalf("%v is not %v", err, want)
			}
		}
		check(swarm.New(size, g, opts...))
		if fromCfg {
			check(swarm.NewSwarmFromConfig(size, g, cfg))
		}
	})
}

// Readers and agent updates may overlap (run under the race detector).
func TestReaders(t *testing.T) {
	vh.Check(t, 40, 15, "4 goroutines reading, measuring, disrupting and updating one swarm of either storage; every case is non-trivial", func(c *vh.Case, rt *rapid.T) {
		size := vh.From(rt, "size", 1, 8, 30, 100, 101, 140)
		g := core.State{Phase: vh.UnitPhase().Draw(rt, "p"), Frequency: 200 * time.Millisecond, Coherence: 0.8}
		c.Desc("size %d %+v", size, g)
		c.NonTrivial(true)
		s, err := swarm.New(size, g)
		if err != nil {
			c.Fatalf("%v", err)
		}
		var wg sync.WaitGroup
		ops := []func(){
			func() { s.DisruptAgents(0.3) },
			func() { s.Agents(); s.Agent("agent-0") },
			func() {
				if m := s.MeasureCoherence(); !(m >= 0 && m <= 1+1e-9) {
					panic(fmt.Sprint("coherence ", m))
				}
			},
			func() { s.MeasurePhaseVariance(); s.MeasurePhaseConvergence(1) },
			func() { s.IsConverged(); s.CurrentCoherence(); s.ConvergenceTime() },
			func() {
				s.ForEachAgent(func(a *agent.Agent) bool {
					a.UpdateContext()
					if act, ok := a.ProposeAdjustment(g); ok {
						_, _, _ = a.ApplyAction(act)
					}
					return true
				})
			},
		}
		bad := make(chan any, 8)
		run := func(fs ...int) {
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if p := recover(); p != nil {
						bad <- p
					}
				}()
				for i := 0; i < 4; i++ {
					for _, f := range fs {
						ops[f]()
					}
				}
			}()
		}
		ctx, cancel := context.WithTimeout(context.Background(), 150*time.Millisecond)
		defer cancel()
		if vh.OneIn(rt, "run", 3) {
			wg.Add(1)
			go func() { defer wg.Done(); _ = s.Run(ctx) }()
		}
		for i := 0; i < 4; i++ {
			run(vh.Pick(rt, "op", 6), vh.Pick(rt, "op", 6))
		}
		wg.Wait()
		if len(bad) > 0 {
			c.Fatalf("panic: %v", <-bad)
		}
		members(c, s, size, nil)
	})
}
