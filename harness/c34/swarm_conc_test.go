// C34: a swarm at work can be watched and disturbed from many goroutines at once.
package c34

import (
	"context"
	"errors"
	"fmt"
	"math"
	"sync"
	"testing"
	"time"

	"github.com/carlisia/bio-adapt/client/emerge"
	"github.com/carlisia/bio-adapt/emerge/agent"
	"github.com/carlisia/bio-adapt/emerge/core"
	"github.com/carlisia/bio-adapt/emerge/goal"
	"github.com/carlisia/bio-adapt/emerge/scale"
	"github.com/carlisia/bio-adapt/emerge/swarm"
	"github.com/carlisia/bio-adapt/internal/topology"
	"github.com/carlisia/bio-adapt/zzverif/vh"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) {
	vh.SetCaseCPU(300)
	vh.Main(m)
}

// op is one thing another part of the program does with the swarm.
type op struct {
	kind int
	x    float64
	gap  time.Duration
	at   int
}

const kinds = 14

func genOps(rt *rapid.T, name string) []op {
	return rapid.SliceOfN(rapid.Custom(func(rt *rapid.T) op {
		gap := time.Duration(vh.UI(0, 40).Draw(rt, "gap")) * 5 * time.Millisecond // often together with an update
		if vh.OneIn(rt, "now", 3) {
			gap = 0
		}
		return op{kind: vh.Pick(rt, "kind", kinds), x: vh.Unit().Draw(rt, "x"), gap: gap, at: vh.UI(0, 1000).Draw(rt, "at")}
	}), 5, 40).Draw(rt, name)
}

func TestUnderLoad(t *testing.T) {
	vh.Check(t, 1000, 12, "a swarm of 2-150 agents (both storage kinds; plain, from a configuration, with a given topology, or a client's) that runs once or continuously (sometimes started twice) while 2-6 goroutines do 5-40 random things each: measure, list, look up, iterate, disrupt, set phases and energy, update contexts, let agents propose and act, connect and disconnect, ask for convergence; under the race detector in virtual time; non-trivial = at least two goroutines and one disruption or change", func(c *vh.Case, rt *rapid.T) {
		size := vh.UI(2, 40).Draw(rt, "size")
		if vh.OneIn(rt, "big", 4) {
			size = vh.UI(99, 150).Draw(rt, "size")
		}
		vh.SeedEntropy(vh.Seed64(rt, "seed"))
		g := core.State{Phase: vh.UnitPhase().Draw(rt, "phase"), Frequency: time.Duration(vh.UI(50e6, 2e9).Draw(rt, "freq")), Coherence: vh.UF(0.1, 0.9).Draw(rt, "coh")}
		how := vh.Pick(rt, "how", 4)
		continuous := how != 2 && rapid.Bool().Draw(rt, "continuous")
		twice := vh.OneIn(rt, "twice", 4)
		n := rapid.IntRange(2, 6).Draw(rt, "goroutines")
		work := make([][]op, n)
		changes := false
		for i := range work {
			work[i] = genOps(rt, "ops")
			for _, o := range work[i] {
				changes = changes || o.kind >= 6
			}
		}
		c.Desc("size %d goal %+v how %d continuous %v twice %v, %d goroutines: %+v", size, g, how, continuous, twice, n, work)
		c.NonTrivial(changes)
		var fail string
		var once sync.Mutex
		report := func(format string, args ...any) {
			once.Lock()
			defer once.Unlock()
			if fail == "" {
				fail = fmt.Sprintf(format, args...)
			}
		}
		vh.Bubble(t, func() {
			var s *swarm.Swarm
			var cl *emerge.Client
			var err error
			switch how {
			case 0:
				s, err = swarm.New(size, g)
			case 1:
				s, err = swarm.NewSwarmFromConfig(size, g, swarm.AutoScaleConfig(size))
			case 3:
				build := []func(*swarm.Swarm) error{topology.Ring, topology.FullyConnected, func(*swarm.Swarm) error { return nil }}[size%3]
				s, err = swarm.New(size, g, swarm.WithTopology(build))
			default:
				cl, err = emerge.New().WithGoal(goal.Type(size % 8)).WithScale(scale.Tiny).WithTargetCoherence(g.Coherence).Build()
				if err == nil {
					s, size = cl.Swarm(), cl.Size()
				}
			}
			if err != nil {
				report("not built: %v", err)
				return
			}
			members := s.Agents()
			ids := make([]string, 0, size)
			for id := range members {
				ids = append(ids, id)
			}
			if len(ids) != size {
				report("%d agents in a swarm of %d", len(ids), size)
				return
			}
			ctx, cancel := context.WithCancel(context.Background())
			ended, again := make(chan error, 1), make(chan error, 1)
			run := func() error {
				if cl != nil {
					return cl.Start(ctx)
				}
				return s.Run(ctx)
			}
			go func() {
				if continuous {
					ended <- s.RunContinuous(ctx)
				} else {
					ended <- run()
				}
			}()
			if twice { // all methods may be used from several goroutines
				go func() { again <- run() }()
			} else {
				again <- nil
			}
			var wg sync.WaitGroup
			for _, ops := range work {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for _, o := range ops {
						time.Sleep(o.gap)
						do(s, cl, members, ids, o, report)
					}
				}()
			}
			wg.Wait()
			cancel()
			err = <-ended
			<-again
			if continuous && !errors.Is(err, context.Canceled) {
				report("RunContinuous ended with %v", err)
			}
			sane(s, members, report)
		})
		if fail != "" {
			c.Fatalf("%s", fail)
		}
	})
}

func sane(s *swarm.Swarm, members map[string]*agent.Agent, report func(string, ...any)) {
	now := s.Agents()
	if len(now) != len(members) || s.Size() != len(members) {
		report("%d agents, size %d; there were %d", len(now), s.Size(), len(members))
	}
	for id, a := range members {
		if now[id] != a {
			report("%s was exchanged", id)
		}
		if p := a.Phase(); !(p >= 0 && p < vh.TwoPi) {
			report("%s at phase %v", id, p)
		}
		if e := a.Energy(); !(e >= 0) || math.IsInf(e, 0) {
			report("%s has energy %v", id, e)
		}
		if a.Frequency() <= 0 {
			report("%s has period %v", id, a.Frequency())
		}
	}
}

func do(s *swarm.Swarm, cl *emerge.Client, members map[string]*agent.Agent, ids []string, o op, report func(string, ...any)) {
	in01 := func(what string, x float64) {
		if !(x >= -1e-9 && x <= 1+1e-9) {
			report("%s %v", what, x)
		}
	}
	id := ids[o.at%len(ids)]
	a := members[id]
	other := members[ids[(o.at/7)%len(ids)]]
	switch o.kind {
	case 0:
		in01("coherence", s.MeasureCoherence())
		in01("recorded coherence", s.CurrentCoherence())
		if cl != nil {
			in01("client coherence", cl.Coherence())
		}
	case 1:
		in01("phase convergence", s.MeasurePhaseConvergence(o.x*vh.TwoPi))
		if v := s.MeasurePhaseVariance(); !(v >= 0 && v <= math.Pi*math.Pi+1e-9) {
			report("phase variance %v", v)
		}
	case 2:
		sane(s, members, report)
	case 3:
		seen := map[string]bool{}
		s.ForEachAgent(func(x *agent.Agent) bool {
			if seen[x.ID] || members[x.ID] != x {
				report("%s visited twice or not a member", x.ID)
			}
			seen[x.ID] = true
			return true
		})
		if len(seen) != len(members) {
			report("%d of %d agents visited", len(seen), len(members))
		}
	case 4:
		if x, ok := s.Agent(id); !ok || x != a {
			report("%s is not found", id)
		}
		if _, ok := s.Agent("nobody"); ok {
			report("a stranger was found")
		}
	case 5:
		s.IsConverged()
		if d := s.ConvergenceTime(); d < 0 {
			report("convergence time %v", d)
		}
		if s.Config() != s.Config() {
			report("the configuration changed")
		}
	case 6:
		s.DisruptAgents(o.x)
	case 7:
		a.SetPhase(o.x * 7)
	case 8:
		a.SetEnergy(100 * o.x)
		a.SetFrequency(time.Duration(1 + o.x*1e9))
	case 9:
		a.UpdateContext()
	case 10:
		if act, ok := a.ProposeAdjustment(core.State{Phase: o.x, Frequency: time.Second, Coherence: 0.8}); ok {
			before := act.Cost
			if done, cost, err := a.ApplyAction(act); done && (err != nil || cost != before) {
				report("action %+v: cost %v, %v", act, cost, err)
			}
		}
	case 11:
		if a != other {
			a.ConnectTo(other.ID, other)
		}
		a.NeighborCount()
	case 12:
		a.DisconnectFrom(other.ID)
		if a.IsConnectedTo(a.ID) {
			report("%s is connected to itself", a.ID)
		}
	case 13:
		a.SetInfluence(o.x)
		a.SetStubbornness(o.x)
		a.SetLocalGoal(o.x * 9)
	}
}
