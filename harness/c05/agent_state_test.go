// C05: an agent's observable state over operation histories.
package c05

import (
	"errors"
	"fmt"
	"math"
	"strings"
	"testing"
	"time"

	"github.com/carlisia/bio-adapt/emerge/agent"
	"github.com/carlisia/bio-adapt/emerge/core"
	"github.com/carlisia/bio-adapt/internal/config"
	"github.com/carlisia/bio-adapt/zzverif/vh"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { vh.Main(m) }

// model of what a user can observe of one agent
type model struct {
	phase, energy, goal, infl, stub float64
	freq                            time.Duration
}

type recorder struct {
	avail float64
	total float64
	calls int
}

func (r *recorder) Request(x float64) float64 { r.total += x; r.calls++; return x }
func (r *recorder) Release(float64)           {}
func (r *recorder) Available() float64        { return r.avail }

func clamp(x float64) float64 { return math.Min(1, math.Max(0, x)) }

func check(c *vh.Case, who string, a *agent.Agent, m model, slack float64) {
	if p := a.Phase(); !(p >= 0 && p <= vh.TwoPi) || vh.CircDist(p, m.phase) > slack {
		c.Fatalf("%s: phase %v, want %v (mod 2π)", who, p, m.phase)
	}
	if e := a.Energy(); !(e >= 0) || !vh.RelNear(e, m.energy, 1e-9) {
		c.Fatalf("%s: energy %v, want %v", who, e, m.energy)
	}
	if g := a.LocalGoal(); !(g >= 0 && g <= vh.TwoPi) || vh.CircDist(g, m.goal) > slack {
		c.Fatalf("%s: local goal %v, want %v (mod 2π)", who, g, m.goal)
	}
	if f := a.Frequency(); f != m.freq {
		c.Fatalf("%s: frequency %v, want %v", who, f, m.freq)
	}
	if v := a.Influence(); v != m.infl {
		c.Fatalf("%s: influence %v, want %v", who, v, m.infl)
	}
	if v := a.Stubbornness(); v != m.stub {
		c.Fatalf("%s: stubbornness %v, want %v", who, v, m.stub)
	}
}

var known = []string{"adjust_phase", "phase_nudge", "frequency_lock", "energy_save", "pulse", "maintain"}

func genWeight(rt *rapid.T, name string) float64 {
	switch vh.Pick(rt, name+"k", 4) {
	case 0:
		return vh.UF(-3, 3).Draw(rt, name)
	case 1:
		return vh.From(rt, name, 0.0, 1.0, -0.0001, 1.0001, -1e300, 1e300, 0.5)
	default:
		return vh.UF(0, 1).Draw(rt, name)
	}
}

func genEnergy(rt *rapid.T, name string) float64 {
	switch vh.Pick(rt, name+"k", 4) {
	case 0:
		return vh.From(rt, name, 0.0, -1.0, -1e-9, 1e9, 100.0, 1e-9)
	default:
		return vh.UF(-10, 200).Draw(rt, name)
	}
}

func TestHistory(t *testing.T) {
	vh.Check(t, 4000, 30, "2-3 agents, 1-40 interleaved setters/actions; non-trivial = at least one action succeeded and one was refused", func(c *vh.Case, rt *rapid.T) {
		vh.SeedEntropy(vh.Seed64(rt, "ent"))
		n := rapid.IntRange(2, 3).Draw(rt, "agents")
		as := make([]*agent.Agent, n)
		ms := make([]model, n)
		rs := make([]*recorder, n)
		slack := make([]float64, n)
		for i := range as {
			slack[i] = 1e-9
			m := model{phase: vh.AnyPhase().Draw(rt, "p0"), goal: vh.AnyPhase().Draw(rt, "g0"), infl: genWeight(rt, "i0"),
				stub: genWeight(rt, "s0"), energy: genEnergy(rt, "e0"), freq: time.Duration(rapid.IntRange(0, 1e9).Draw(rt, "f0"))}
			rs[i] = &recorder{avail: vh.UF(0, 500).Draw(rt, "avail")}
			as[i] = agent.New(fmt.Sprintf("a%d", i), agent.WithResourceManager(rs[i]), agent.WithPhase(m.phase), agent.WithLocalGoal(m.goal),
				agent.WithInfluence(m.infl), agent.WithStubbornness(m.stub), agent.WithEnergy(m.energy), agent.WithFrequency(m.freq))
			slack[i] += math.Abs(m.phase)*1e-14 + math.Abs(m.goal)*1e-14
			m.infl, m.stub, m.energy = clamp(m.infl), clamp(m.stub), math.Max(0, m.energy)
			ms[i] = m
			check(c, "after construction", as[i], m, slack[i])
		}
		want := make([]float64, n)
		steps := vh.Len(rt, "steps", 1, 40, 600)
		okN, refN := 0, 0
		for s := 0; s < steps; s++ {
			i := vh.Pick(rt, "who", n)
			a, m := as[i], &ms[i]
			var op string
			switch vh.Pick(rt, "op", 9) {
			case 0:
				x := vh.AnyPhase().Draw(rt, "x")
				op = fmt.Sprintf("phase=%v", x)
				a.SetPhase(x)
				m.phase = x
				slack[i] += math.Abs(x) * 1e-14
			case 1:
				x := vh.AnyPhase().Draw(rt, "x")
				op = fmt.Sprintf("goal=%v", x)
				a.SetLocalGoal(x)
				m.goal = x
				slack[i] += math.Abs(x) * 1e-14
			case 2:
				x := genEnergy(rt, "x")
				op = fmt.Sprintf("energy=%v", x)
				a.SetEnergy(x)
				m.energy = math.Max(0, x)
			case 3:
				x := genWeight(rt, "x")
				op = fmt.Sprintf("infl=%v", x)
				a.SetInfluence(x)
				m.infl = clamp(x)
			case 4:
				x := genWeight(rt, "x")
				op = fmt.Sprintf("stub=%v", x)
				a.SetStubbornness(x)
				m.stub = clamp(x)
			case 5:
				x := time.Duration(rapid.IntRange(0, 2e9).Draw(rt, "x"))
				op = fmt.Sprintf("freq=%v", x)
				a.SetFrequency(x)
				m.freq = x
			default:
				typ := vh.From(rt, "typ", append(append([]string{}, known...), "change_freq", "", "Maintain", "phase")...)
				val := vh.AnyPhase().Draw(rt, "val")
				var cost float64
				switch vh.Pick(rt, "costk", 5) {
				case 0:
					cost = m.energy
				case 1:
					cost = m.energy * (1 + 1e-9)
				case 2:
					cost = m.energy + vh.UF(0, 5).Draw(rt, "over")
				case 3:
					cost = 0
				default:
					cost = vh.UF(0, 60).Draw(rt, "cost")
				}
				op = fmt.Sprintf("%s(%v,cost %v)", typ, val, cost)
				isKnown := false
				for _, k := range known {
					isKnown = isKnown || k == typ
				}
				before := rs[i].total
				ok, spent, err := a.ApplyAction(core.Action{Type: typ, Value: val, Cost: cost, Benefit: 1})
				if isKnown && cost <= m.energy {
					okN++
					if !ok || err != nil || spent != cost {
						c.Desc("%s", op)
						c.Fatalf("affordable action %s with energy %v: ok=%v spent=%v err=%v", op, m.energy, ok, spent, err)
					}
					if typ != "maintain" {
						m.phase = vh.Wrap(m.phase) + val
						slack[i] += math.Abs(val)*1e-14 + 1e-12
						m.phase = vh.Wrap(m.phase)
					}
					m.energy -= cost
					want[i] += cost
				} else {
					refN++
					if ok || err == nil || spent != 0 {
						c.Fatalf("action %s with energy %v must be refused: ok=%v spent=%v err=%v", op, m.energy, ok, spent, err)
					}
					if isKnown && !errors.Is(err, core.ErrInsufficientEnergy) {
						c.Fatalf("action %s with energy %v: error %v is not 'insufficient energy'", op, m.energy, err)
					}
					if !isKnown && cost <= m.energy && !errors.Is(err, core.ErrUnknownActionType) {
						c.Fatalf("action %s: error %v is not 'unknown action type'", op, err)
					}
					if rs[i].total != before {
						c.Fatalf("refused action %s drew %v from the resource manager", op, rs[i].total-before)
					}
				}
			}
			c.Desc("a%d:%s", i, op)
			for j := range as {
				check(c, fmt.Sprintf("agent %d after step %d (a%d:%s)", j, s, i, op), as[j], ms[j], slack[j])
				if !vh.RelNear(rs[j].total, want[j], 1e-9) {
					c.Fatalf("agent %d: resource manager was asked for %v in total, actions cost %v", j, rs[j].total, want[j])
				}
			}
		}
		c.NonTrivial(okN > 0 && refN > 0)
	})
}

// Construction from configuration: every field lands where it belongs, zero
// values take the documented defaults, unknown components are errors.
func TestFromConfig(t *testing.T) {
	vh.Check(t, 4000, 30, "agent configurations with zero and non-zero fields; non-trivial = some field zero and some non-zero, or an unknown component", func(c *vh.Case, rt *rapid.T) {
		vh.SeedEntropy(vh.Seed64(rt, "ent"))
		z := func(name string, g *rapid.Generator[float64]) float64 {
			if vh.OneIn(rt, name+"z", 3) {
				return 0
			}
			return g.Draw(rt, name)
		}
		cfg := config.Agent{
			DecisionMakerType:   vh.From(rt, "dm", "", "simple", "adaptive", "bogus"),
			GoalManagerType:     vh.From(rt, "gm", "", "weighted", "weighted", "bogus"),
			ResourceManagerType: vh.From(rt, "rm", "", "token", "token", "bogus"),
			StrategyType:        vh.From(rt, "st", "", "phase_nudge", "frequency_lock", "energy_aware", "adaptive", "pulse", "bogus"),
			MaxTokens:           z("maxtok", vh.UF(0, 300)),
			StrategyRate:        z("rate", vh.UF(0, 1)),
			Phase:               z("phase", vh.AnyPhase()),
			LocalGoal:           z("goal", vh.AnyPhase()),
			InitialEnergy:       z("energy", vh.UF(0, 300)),
			Influence:           z("infl", vh.UF(0, 1)),
			Stubbornness:        z("stub", vh.UF(0, 1)),
			SwarmSize:           rapid.IntRange(0, 200).Draw(rt, "size"),
			AssumedMaxNeighbors: rapid.IntRange(0, 30).Draw(rt, "maxn"),
			RandomizePhase:      rapid.Bool().Draw(rt, "rp"),
			RandomizeLocalGoal:  rapid.Bool().Draw(rt, "rg"),
			RandomizeFrequency:  rapid.Bool().Draw(rt, "rf"),
		}
		if !vh.OneIn(rt, "fz", 3) {
			cfg.Frequency = time.Duration(rapid.IntRange(1, 1e9).Draw(rt, "f"))
		}
		c.Desc("%+v", cfg)
		bogus := strings.Contains(cfg.DecisionMakerType+cfg.GoalManagerType+cfg.ResourceManagerType+cfg.StrategyType, "bogus")
		opt := rapid.Bool().Draw(rt, "optimized")
		c.NonTrivial(bogus || cfg.InitialEnergy == 0 || cfg.Influence == 0 || cfg.Stubbornness == 0 || cfg.Frequency == 0)
		var a *agent.Agent
		var err error
		if opt {
			// the optimized constructor documents no defaults for zero values: every
			// field is taken as given
			a, err = agent.NewOptimizedFromConfig("x", cfg)
		} else {
			a, err = agent.NewFromConfig("x", cfg)
		}
		if bogus {
			if err == nil || a != nil {
				c.Fatalf("unknown component accepted: agent %v, err %v", a, err)
			}
			return
		}
		if err != nil || a == nil {
			c.Fatalf("valid config rejected: %v", err)
		}
		if a.ID != "x" {
			c.Fatalf("ID %q", a.ID)
		}
		tol := 1e-9 + 1e-14*(math.Abs(cfg.Phase)+math.Abs(cfg.LocalGoal))
		if p := a.Phase(); !(p >= 0 && p <= vh.TwoPi) || (!cfg.RandomizePhase && vh.CircDist(p, cfg.Phase) > tol) {
			c.Fatalf("phase %v from config %v (randomize %v)", p, cfg.Phase, cfg.RandomizePhase)
		}
		// a random value practically never equals the configured one
		if cfg.RandomizePhase && (a.Phase() == cfg.Phase || a.Phase() == 0) ||
			cfg.RandomizeLocalGoal && (a.LocalGoal() == cfg.LocalGoal || a.LocalGoal() == 0) ||
			cfg.RandomizeFrequency && a.Frequency() == cfg.Frequency {
			c.Fatalf("phase %v, local goal %v, frequency %v were to be random", a.Phase(), a.LocalGoal(), a.Frequency())
		}
		if g := a.LocalGoal(); !(g >= 0 && g <= vh.TwoPi) || (!cfg.RandomizeLocalGoal && cfg.LocalGoal != 0 && vh.CircDist(g, cfg.LocalGoal) > tol) {
			c.Fatalf("local goal %v from config %v (randomize %v)", g, cfg.LocalGoal, cfg.RandomizeLocalGoal)
		}
		if f := a.Frequency(); cfg.RandomizeFrequency && (f < 50*time.Millisecond || f > 150*time.Millisecond) {
			c.Fatalf("random frequency %v outside 50-150ms", f)
		} else if !cfg.RandomizeFrequency && cfg.Frequency != 0 && f != cfg.Frequency {
			c.Fatalf("frequency %v from config %v", f, cfg.Frequency)
		}
		we, wi, ws := cfg.InitialEnergy, cfg.Influence, cfg.Stubbornness
		if !opt {
			if we == 0 {
				we = 100
			}
			if wi == 0 {
				wi = 0.5
			}
			if ws == 0 {
				ws = 0.2
			}
			if a.Energy() != we {
				c.Fatalf("energy %v, want %v", a.Energy(), we)
			}
		} else if e := a.Energy(); !(e >= 0) || (we > 0 && e != we) {
			c.Fatalf("energy %v, configured %v", e, we)
		}
		if a.Influence() != wi || a.Stubbornness() != ws {
			c.Fatalf("influence %v (want %v), stubbornness %v (want %v)", a.Influence(), wi, a.Stubbornness(), ws)
		}
		if a.NeighborCount() != 0 {
			c.Fatalf("fresh agent has %d neighbors", a.NeighborCount())
		}
		// the configured strategy is the one that proposes, at the configured rate
		want, wantType := 0.0, cfg.StrategyType
		switch cfg.StrategyType {
		case "", "phase_nudge":
			wantType, want = "phase_nudge", 0.7
			if cfg.StrategyRate != 0 {
				want = cfg.StrategyRate
			}
		case "frequency_lock":
			want = 0.5
			if cfg.StrategyRate != 0 {
				want = cfg.StrategyRate
			}
		case "energy_aware":
			wantType, want = "energy_save", 0.1
		default:
			return // phase_nudge or frequency_lock by context, or once per period
		}
		for try := 0; try < 60; try++ {
			ph, g := vh.Wrap(a.Phase()), vh.Wrap(a.LocalGoal())
			d := vh.SignedDiff(g, ph)
			act, ok := a.ProposeAdjustment(core.State{Phase: g, Frequency: 100 * time.Millisecond, Coherence: 0.9})
			if !ok || act.Type == "maintain" {
				continue
			}
			if act.Type != wantType || math.Abs(math.Abs(d)-math.Pi) > 1e-6 && !vh.Near(act.Value, d*want, 1e-9) {
				c.Fatalf("strategy %q at rate %v proposed %+v for a difference of %v", cfg.StrategyType, cfg.StrategyRate, act, d)
			}
			c.NonTrivial(true)
			break
		}
	})
}

// TestPresets builds agents from the preset configurations: the default one and
// the one for tests are deterministic, the randomized one spreads its agents.
func TestPresets(t *testing.T) {
	vh.Check(t, 600, 10, "40 agents of a preset configuration, or with random starting options, from any random seed; every case is non-trivial", func(c *vh.Case, rt *rapid.T) {
		vh.SeedEntropy(vh.Seed64(rt, "ent"))
		kind := vh.Pick(rt, "preset", 4)
		opt := rapid.Bool().Draw(rt, "optimized")
		c.Desc("preset %d optimized %v", kind, opt)
		c.NonTrivial(true)
		cfg := []config.Agent{config.DefaultAgent(), config.RandomizedAgent(), config.TestAgent(), {}}[kind]
		phases, goals, freqs := map[float64]bool{}, map[float64]bool{}, map[time.Duration]bool{}
		for i := 0; i < 40; i++ {
			var a *agent.Agent
			var err error
			switch {
			case kind == 3:
				a = agent.New("x", agent.WithRandomPhase(), agent.WithRandomFrequency(), agent.WithRandomLocalGoal())
			case opt:
				a, err = agent.NewOptimizedFromConfig("x", cfg)
			default:
				a, err = agent.NewFromConfig("x", cfg)
			}
			if err != nil || a == nil {
				c.Fatalf("preset %d rejected: %v", kind, err)
			}
			phases[a.Phase()], goals[a.LocalGoal()], freqs[a.Frequency()] = true, true, true
			if p, g := a.Phase(), a.LocalGoal(); !(p >= 0 && p <= vh.TwoPi && g >= 0 && g <= vh.TwoPi) {
				c.Fatalf("phase %v goal %v", p, g)
			}
			if f := a.Frequency(); f < 50*time.Millisecond || f > 150*time.Millisecond {
				c.Fatalf("frequency %v outside 50-150ms", f)
			}
			if a.Energy() != 100 {
				c.Fatalf("energy %v, documented 100", a.Energy())
			}
			if (kind == 0 || kind == 1) && (a.Influence() != 0.5 || a.Stubbornness() != 0.2) {
				c.Fatalf("influence %v stubbornness %v, documented 0.5 and 0.2", a.Influence(), a.Stubbornness())
			}
		}
		if kind == 1 || kind == 3 {
			if len(phases) < 20 || len(goals) < 20 || len(freqs) < 5 {
				c.Fatalf("40 random agents have only %d phases, %d local goals, %d frequencies", len(phases), len(goals), len(freqs))
			}
		} else if len(phases) > 1 || len(goals) > 1 && kind == 0 || len(freqs) > 1 { // a local goal of 0 is documented to mean random
			c.Fatalf("a deterministic preset gives %d phases, %d local goals, %d frequencies", len(phases), len(goals), len(freqs))
		}
	})
}
