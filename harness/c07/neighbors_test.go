// C07: an agent's connections behave as a set; pooled agents start clean.
package c07

import (
	"fmt"
	"math"
	"slices"
	"sort"
	"testing"

	"github.com/carlisia/bio-adapt/emerge/agent"
	"github.com/carlisia/bio-adapt/emerge/core"
	"github.com/carlisia/bio-adapt/zzverif/vh"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { vh.Main(m) }

// spy strategy: what the agent perceives is what it hands to its strategy
type spy struct {
	n   int
	cur core.State
	ctx core.Context
}

func (s *spy) Propose(cur, _ core.State, ctx core.Context) (core.Action, float64) {
	s.n++
	s.cur, s.ctx = cur, ctx
	return core.Action{Type: "maintain"}, 0
}
func (s *spy) Name() string { return "spy" }

func TestConnections(t *testing.T) {
	vh.Check(t, 2500, 30, "histories of 1-120 connect/disconnect/query operations over up to 45 ids; non-trivial = the set grew past 20 and later shrank, or an id was reconnected to another agent", func(c *vh.Case, rt *rapid.T) {
		vh.SeedEntropy(vh.Seed64(rt, "ent"))
		sp := &spy{}
		a := agent.New("self", agent.WithStrategy(sp), agent.WithStubbornness(0), agent.WithPhase(0))
		nIDs := vh.From(rt, "nids", 3, 8, 25, 45)
		model := map[string]*agent.Agent{}
		big, shrunk, re := false, false, false
		steps := vh.Len(rt, "steps", 1, 120, 1500)
		mk := func() *agent.Agent {
			return agent.New("o", agent.WithPhase(vh.UnitPhase().Draw(rt, "op")))
		}
		for s := 0; s < steps; s++ {
			id := fmt.Sprintf("n%d", vh.Pick(rt, "id", nIDs))
			switch vh.Pick(rt, "op", 10) {
			case 0, 1, 2, 3, 4:
				o := mk()
				if _, dup := model[id]; dup {
					re = true
				}
				a.ConnectTo(id, o)
				model[id] = o
				c.Desc("+%s", id)
			case 5, 6, 7:
				if len(model) > 20 {
					shrunk = true
				}
				a.DisconnectFrom(id)
				delete(model, id)
				c.Desc("-%s", id)
			case 8:
				switch vh.Pick(rt, "odd", 3) {
				case 0:
					a.ConnectTo("self", mk())
					c.Desc("+self")
				case 1:
					a.ConnectTo(id, nil)
					c.Desc("+nil")
				default:
					// connections made through the exposed map count as well
					if _, dup := model[id]; !dup {
						o := mk()
						a.Neighbors().Store(id, o)
						model[id] = o
						c.Desc("m+%s", id)
					}
				}
			default:
				c.Desc("perceive")
			}
			big = big || len(model) > 20
			if n := a.NeighborCount(); n != len(model) {
				c.Fatalf("step %d: %d neighbors, want %d", s, n, len(model))
			}
			if _, want := model[id]; a.IsConnectedTo(id) != want {
				c.Fatalf("step %d: IsConnectedTo(%s) = %v", s, id, !want)
			}
			if vh.OneIn(rt, "full", 6) || s == steps-1 {
				for i := 0; i < nIDs; i++ {
					id := fmt.Sprintf("n%d", i)
					if _, want := model[id]; a.IsConnectedTo(id) != want {
						c.Fatalf("step %d: IsConnectedTo(%s) = %v", s, id, !want)
					}
				}
				if a.IsConnectedTo("self") {
					c.Fatalf("connected to itself")
				}
				a.UpdateContext()
				before := sp.n
				a.ProposeAdjustment(core.State{Frequency: 1, Coherence: 0.5})
				if sp.n != before+1 {
					c.Fatalf("agent without stubbornness consulted its strategy %d times", sp.n-before)
				}
				if sp.ctx.Neighbors != len(model) {
					c.Fatalf("step %d: perceives %d neighbors, has %d", s, sp.ctx.Neighbors, len(model))
				}
				var ph []float64
				for _, o := range model {
					ph = append(ph, o.Phase())
				}
				sort.Float64s(ph)
				if want := vh.Order(ph); len(ph) > 0 && (!vh.Near(sp.ctx.LocalCoherence, want, 1e-9) || !vh.Near(sp.cur.Coherence, want, 1e-9)) {
					c.Fatalf("step %d: perceives local coherence %v / %v of its %d neighbors, which is %v", s, sp.ctx.LocalCoherence, sp.cur.Coherence, len(ph), want)
				}
			}
		}
		c.NonTrivial((big && shrunk) || re)
	})
}

func TestStorage(t *testing.T) {
	vh.Check(t, 4000, 30, "histories of 1-80 store/load/delete/clear operations on a neighbor store of capacity -1..12; non-trivial = a store was refused for lack of space and a deletion made room", func(c *vh.Case, rt *rapid.T) {
		capacity := rapid.IntRange(-1, 12).Draw(rt, "cap")
		ns := agent.NewNeighborStorage(capacity)
		eff := capacity
		if eff <= 0 {
			eff = 20
		}
		model := map[string]*agent.Agent{}
		steps := vh.Len(rt, "steps", 1, 80, 1000)
		full, room := false, false
		var held, heldWas []*agent.Agent
		c.Desc("cap %d", capacity)
		for s := 0; s < steps; s++ {
			id := fmt.Sprintf("n%d", vh.Pick(rt, "id", eff+3))
			switch vh.Pick(rt, "op", 12) {
			case 0, 1, 2, 3, 4, 5:
				o := &agent.Agent{ID: id}
				_, dup := model[id]
				want := dup || len(model) < eff
				if full && !dup && want {
					room = true
				}
				got := ns.Store(id, o)
				c.Desc("+%s", id)
				if got != want {
					c.Fatalf("step %d: Store(%s) = %v with %d of %d used", s, id, got, len(model), eff)
				}
				if want {
					model[id] = o
				} else {
					full = true
				}
			case 6, 7, 8:
				ns.Delete(id)
				delete(model, id)
				c.Desc("-%s", id)
			case 9:
				if vh.OneIn(rt, "clr", 4) {
					ns.Clear()
					model = map[string]*agent.Agent{}
					c.Desc("clear")
				}
			default:
				stop := vh.Pick(rt, "stop", eff+1)
				n := 0
				ns.Range(func(string, *agent.Agent) bool { n++; return n <= stop })
				if want := min(stop+1, len(model)); n != want {
					c.Fatalf("step %d: Range visited %d entries, want %d of %d", s, n, want, len(model))
				}
				c.Desc("range")
			}
			if ns.Count() != len(model) {
				c.Fatalf("step %d: Count %d, want %d", s, ns.Count(), len(model))
			}
			seen := map[string]*agent.Agent{}
			ns.Range(func(k string, o *agent.Agent) bool {
				if _, dup := seen[k]; dup {
					c.Fatalf("step %d: Range visits %s twice", s, k)
				}
				seen[k] = o
				return true
			})
			if len(seen) != len(model) {
				c.Fatalf("step %d: Range visits %d of %d entries", s, len(seen), len(model))
			}
			if !slices.Equal(held, heldWas) {
				c.Fatalf("step %d: a list handed out earlier changed", s)
			}
			all := map[*agent.Agent]bool{}
			list := ns.All()
			for _, o := range list {
				all[o] = true
			}
			if vh.OneIn(rt, "hold", 3) {
				held, heldWas = list, slices.Clone(list)
			}
			for k, o := range model {
				if seen[k] != o {
					c.Fatalf("step %d: Range gives %p for %s, stored %p", s, seen[k], k, o)
				}
				if got, ok := ns.Load(k); !ok || got != o {
					c.Fatalf("step %d: Load(%s) = %p,%v, stored %p", s, k, got, ok, o)
				}
				if !all[o] {
					c.Fatalf("step %d: All lacks %s", s, k)
				}
			}
			if len(all) != len(model) {
				c.Fatalf("step %d: All has %d entries, want %d", s, len(all), len(model))
			}
			if _, in := model[id]; !in {
				if _, ok := ns.Load(id); ok {
					c.Fatalf("step %d: Load(%s) finds a removed entry", s, id)
				}
			}
		}
		c.NonTrivial(full && room)
	})
}

func TestPool(t *testing.T) {
	vh.Check(t, 1500, 30, "histories of 1-60 get/use/put operations on the agent pool; non-trivial = an agent was taken after a used one was returned", func(c *vh.Case, rt *rapid.T) {
		vh.SeedEntropy(vh.Seed64(rt, "ent"))
		var out []*agent.Agent
		defer func() {
			for _, a := range out {
				agent.Pool.Put(a)
			}
		}()
		g0, p0, _, u0 := agent.Pool.Stats()
		gets, puts := 0, 0
		steps := vh.Len(rt, "steps", 1, 60, 800)
		for s := 0; s < steps; s++ {
			switch op := vh.Pick(rt, "op", 5); {
			case op <= 1 || len(out) == 0:
				id := fmt.Sprintf("p%d", s)
				a := agent.Pool.Get(id)
				gets++
				c.Desc("get")
				c.NonTrivial(puts > 0)
				if a == nil || a.ID != id {
					c.Fatalf("Get(%s) = %+v", id, a)
				}
				for _, o := range out {
					if o == a {
						c.Fatalf("the pool handed out one agent twice")
					}
				}
				if a.NeighborCount() != 0 || a.IsConnectedTo("x") || a.IsConnectedTo("y0") {
					c.Fatalf("agent from the pool still has %d neighbors", a.NeighborCount())
				}
				if a.Energy() != 100 {
					c.Fatalf("agent from the pool has energy %v", a.Energy())
				}
				if p, g := a.Phase(), a.LocalGoal(); !(p >= 0 && p <= 2*math.Pi && g >= 0 && g <= 2*math.Pi) {
					c.Fatalf("agent from the pool: phase %v, goal %v", p, g)
				}
				if i, st := a.Influence(), a.Stubbornness(); !(i >= 0 && i <= 1 && st >= 0 && st <= 1) {
					c.Fatalf("agent from the pool: influence %v stubbornness %v", i, st)
				}
				a.UpdateContext()
				a.ProposeAdjustment(core.State{Frequency: 1, Coherence: 0.5})
				out = append(out, a)
			case op == 2:
				i := vh.Pick(rt, "which", len(out))
				agent.Pool.Put(out[i])
				out = append(out[:i], out[i+1:]...)
				puts++
				c.Desc("put")
			default:
				a := out[vh.Pick(rt, "which", len(out))]
				a.SetPhase(vh.AnyPhase().Draw(rt, "ph"))
				e := vh.UF(0, 90).Draw(rt, "e")
				a.SetEnergy(e)
				if ok, _, err := a.ApplyAction(core.Action{Type: "pulse", Value: 1, Cost: e / 2}); !ok {
					c.Fatalf("agent from the pool cannot act: %v", err)
				}
				k := rapid.IntRange(0, 30).Draw(rt, "conn")
				for i := 0; i < k; i++ {
					a.ConnectTo(fmt.Sprintf("y%d", i), agent.New("y"))
				}
				a.Neighbors().Store("x", agent.New("x"))
				if a.NeighborCount() < k {
					c.Fatalf("pooled agent connected to %d, has %d neighbors", k, a.NeighborCount())
				}
				c.Desc("use %d", k)
			}
			g, p, news, use := agent.Pool.Stats()
			if int(g-g0) != gets || int(p-p0) != puts || int(use-u0) != gets-puts {
				c.Fatalf("pool statistics: gets %d puts %d in use %d; did %d gets and %d puts", g-g0, p-p0, use-u0, gets, puts)
			}
			if news > g {
				c.Fatalf("pool statistics: %d created in %d gets", news, g)
			}
		}
	})
}
