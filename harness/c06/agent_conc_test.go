// C06: concurrent use of one agent (built with the race detector).
package c06

import (
	"fmt"
	"math"
	"runtime"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/carlisia/bio-adapt/emerge/agent"
	"github.com/carlisia/bio-adapt/emerge/core"
	"github.com/carlisia/bio-adapt/zzverif/vh"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { vh.Main(m) }

// run starts the workers at one barrier and waits for all of them.
func run(ws ...func()) {
	var ready, wg sync.WaitGroup
	start := make(chan struct{})
	for _, w := range ws {
		ready.Add(1)
		wg.Add(1)
		go func() {
			defer wg.Done()
			ready.Done()
			<-start
			w()
		}()
	}
	ready.Wait()
	close(start)
	wg.Wait()
}

type counter struct {
	mu    sync.Mutex
	total float64
}

func (r *counter) Request(x float64) float64 {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.total += x
	return x
}
func (r *counter) Release(float64)    {}
func (r *counter) Available() float64 { return 0 }

var types = []string{"adjust_phase", "phase_nudge", "frequency_lock", "energy_save", "pulse"}

// Concurrent actions: each success moves the phase by its value and takes its
// cost exactly once; together they never take more than there was; nobody is
// refused while the energy suffices.
func TestActions(t *testing.T) {
	vh.Check(t, 120, 20, "2-8 workers, 50-800 actions with integer cost on one agent; non-trivial = the energy suffices for some but not all, or for all of >=100 actions", func(c *vh.Case, rt *rapid.T) {
		vh.SeedEntropy(vh.Seed64(rt, "ent"))
		k := rapid.IntRange(2, 8).Draw(rt, "workers")
		per := rapid.IntRange(10, 100).Draw(rt, "per")
		cost := float64(rapid.IntRange(0, 4).Draw(rt, "cost"))
		all := float64(k*per) * cost
		e0 := math.Floor(all * vh.From(rt, "frac", 2.0, 0.5, 0.99, 0.1, 1.0))
		step := 1.0 / 1024 // exact in binary: sums do not depend on the order
		res := &counter{}
		a := agent.New("a", agent.WithResourceManager(res), agent.WithPhase(0), agent.WithEnergy(e0))
		c.Desc("%d workers x %d actions, cost %v, energy %v", k, per, cost, e0)
		c.NonTrivial((e0 < all && e0 >= cost) || (e0 >= all && k*per >= 100))
		var moved, spent atomic.Int64
		ws := make([]func(), k)
		for w := range ws {
			typ := types[vh.Pick(rt, "typ", len(types))]
			if vh.OneIn(rt, "keep", 5) {
				typ = "maintain"
			}
			ws[w] = func() {
				for i := 0; i < per; i++ {
					ok, got, err := a.ApplyAction(core.Action{Type: typ, Value: step, Cost: cost})
					if ok != (err == nil) || (ok && got != cost) || (!ok && got != 0) {
						panic(fmt.Sprintf("PROPERTY-VIOLATED: ok=%v cost=%v err=%v", ok, got, err))
					}
					if ok {
						spent.Add(1)
						if typ != "maintain" {
							moved.Add(1)
						}
					}
				}
			}
		}
		run(ws...)
		wantSpent := int64(k * per)
		if cost > 0 && e0 < all {
			wantSpent = int64(e0 / cost)
		}
		if spent.Load() != wantSpent {
			c.Fatalf("%d actions of cost %v succeeded with energy %v; exactly %d are affordable", spent.Load(), cost, e0, wantSpent)
		}
		if e, want := a.Energy(), e0-float64(spent.Load())*cost; e != want {
			c.Fatalf("energy %v after %d successful actions of cost %v from %v, want %v", e, spent.Load(), cost, e0, want)
		}
		if want := float64(moved.Load()) * step; vh.CircDist(a.Phase(), want) > 1e-6 {
			c.Fatalf("phase %v after %d moves of %v, want %v", a.Phase(), moved.Load(), step, want)
		}
		if res.total != float64(spent.Load())*cost {
			c.Fatalf("resource manager was asked for %v, actions cost %v", res.total, float64(spent.Load())*cost)
		}
	})
}

// The last unit of energy: many short rounds in which all workers want it.
func TestLastUnit(t *testing.T) {
	vh.Check(t, 30, 20, "200 rounds per case in which 2-8 workers want the last unit of energy; every case is non-trivial", func(c *vh.Case, rt *rapid.T) {
		vh.SeedEntropy(vh.Seed64(rt, "ent"))
		k := rapid.IntRange(2, 8).Draw(rt, "workers")
		units := rapid.IntRange(1, 3).Draw(rt, "units")
		typ := vh.From(rt, "typ", append(types, "maintain")...)
		c.Desc("%d workers, %d units, %s", k, units, typ)
		c.NonTrivial(true)
		const rounds = 200
		a := agent.New("a", agent.WithPhase(0))
		var arrive, leave [rounds]atomic.Int32
		var won [rounds]atomic.Int32
		left := make([]float64, rounds)
		ws := make([]func(), k)
		for w := range ws {
			ws[w] = func() {
				for r := 0; r < rounds; r++ {
					if w == 0 {
						a.SetEnergy(float64(units))
					}
					arrive[r].Add(1)
					for arrive[r].Load() < int32(k) {
						runtime.Gosched()
					}
					if ok, _, _ := a.ApplyAction(core.Action{Type: typ, Value: 0.5, Cost: 1}); ok {
						won[r].Add(1)
					}
					leave[r].Add(1)
					for leave[r].Load() < int32(k) {
						runtime.Gosched()
					}
					if w == 0 {
						left[r] = a.Energy()
					}
				}
			}
		}
		run(ws...)
		want := min(k, units)
		for r := range left {
			if int(won[r].Load()) != want || left[r] != float64(units-want) {
				c.Fatalf("round %d: %d workers each paid 1 from %d units of energy, %v left", r, won[r].Load(), units, left[r])
			}
		}
	})
}

// Writers of different attributes do not undo each other, and readers only see
// values somebody wrote.
func TestIndependentWriters(t *testing.T) {
	vh.Check(t, 80, 20, "3-7 workers write different attributes of one agent 100-600 times each while others read; every case is non-trivial", func(c *vh.Case, rt *rapid.T) {
		vh.SeedEntropy(vh.Seed64(rt, "ent"))
		n := rapid.IntRange(100, 600).Draw(rt, "n")
		a := agent.New("a", agent.WithPhase(0), agent.WithLocalGoal(0), agent.WithEnergy(0), agent.WithFrequency(0), agent.WithInfluence(0), agent.WithStubbornness(0))
		fn := float64(n)
		type attr struct {
			name string
			set  func(i int)
			get  func() float64
			want float64
		}
		all := []attr{
			{"phase", func(i int) { a.SetPhase(float64(i) / fn) }, a.Phase, 1},
			{"local goal", func(i int) { a.SetLocalGoal(float64(i) / fn) }, a.LocalGoal, 1},
			{"energy", func(i int) { a.SetEnergy(float64(i) / fn) }, a.Energy, 1},
			{"frequency", func(i int) { a.SetFrequency(time.Duration(i)) }, func() float64 { return float64(a.Frequency()) / fn }, 1},
			{"influence", func(i int) { a.SetInfluence(float64(i) / fn) }, a.Influence, 1},
			{"stubbornness", func(i int) { a.SetStubbornness(float64(i) / fn) }, a.Stubbornness, 1},
		}
		perm := rapid.Permutation([]int{0, 1, 2, 3, 4, 5}).Draw(rt, "attrs")[:rapid.IntRange(2, 6).Draw(rt, "k")]
		c.Desc("attributes %v, %d writes each", perm, n)
		c.NonTrivial(true)
		var ws []func()
		for _, ix := range perm {
			at := all[ix]
			ws = append(ws, func() {
				for i := 1; i <= n; i++ {
					at.set(i)
					// the only writer of this attribute must read back its own write
					if got := at.get(); math.Abs(got-float64(i)/fn) > 1e-9 {
						panic(fmt.Sprintf("PROPERTY-VIOLATED: %s reads %v right after its only writer set %v", at.name, got, float64(i)/fn))
					}
				}
			})
		}
		run(ws...)
		for i, at := range all {
			want := 0.0
			for _, ix := range perm {
				if ix == i {
					want = 1
				}
			}
			if math.Abs(at.get()-want) > 1e-9 {
				c.Fatalf("%s ends as %v, its only writer left %v", at.name, at.get(), want)
			}
		}
	})
}

// Connections made and removed concurrently end as the set of the last writes.
func TestConnections(t *testing.T) {
	vh.Check(t, 60, 20, "2-8 workers connect/disconnect disjoint ids of one agent while others read and perceive; non-trivial = more than 20 ids", func(c *vh.Case, rt *rapid.T) {
		vh.SeedEntropy(vh.Seed64(rt, "ent"))
		k := rapid.IntRange(2, 8).Draw(rt, "workers")
		per := rapid.IntRange(1, 9).Draw(rt, "per")
		rounds := rapid.IntRange(1, 12).Draw(rt, "rounds")
		a := agent.New("a", agent.WithSwarmInfo(100, 99), agent.WithStubbornness(0))
		c.Desc("%d workers x %d ids x %d rounds", k, per, rounds)
		c.NonTrivial(k*per > 20)
		want := map[string]bool{}
		var ws []func()
		for w := 0; w < k; w++ {
			var ids []string
			for i := 0; i < per; i++ {
				id := fmt.Sprintf("n%d-%d", w, i)
				ids = append(ids, id)
				want[id] = rapid.Bool().Draw(rt, "keep")
			}
			final := map[string]bool{}
			for _, id := range ids {
				final[id] = want[id]
			}
			ws = append(ws, func() {
				for r := 0; r < rounds; r++ {
					for _, id := range ids {
						a.ConnectTo(id, agent.New(id))
						if !a.IsConnectedTo(id) {
							panic("PROPERTY-VIOLATED: not connected to " + id + " right after connecting")
						}
					}
					for _, id := range ids {
						if r < rounds-1 || !final[id] {
							a.DisconnectFrom(id)
							if a.IsConnectedTo(id) {
								panic("PROPERTY-VIOLATED: still connected to " + id + " right after disconnecting")
							}
						}
					}
				}
			})
		}
		var done atomic.Bool
		var rd sync.WaitGroup
		for i := 0; i < 2; i++ {
			rd.Add(1)
			go func() {
				defer rd.Done()
				for !done.Load() {
					if n := a.NeighborCount(); n < 0 || n > k*per {
						panic(fmt.Sprintf("PROPERTY-VIOLATED: %d neighbors", n))
					}
					a.UpdateContext()
					a.ProposeAdjustment(core.State{Phase: 0, Frequency: time.Second, Coherence: 0.5})
					runtime.Gosched()
				}
			}()
		}
		run(ws...)
		done.Store(true)
		rd.Wait()
		cnt := 0
		for id, w := range want {
			if w {
				cnt++
			}
			if a.IsConnectedTo(id) != w {
				c.Fatalf("IsConnectedTo(%s) = %v, want %v", id, !w, w)
			}
		}
		if a.NeighborCount() != cnt {
			c.Fatalf("%d neighbors, want %d", a.NeighborCount(), cnt)
		}
	})
}
