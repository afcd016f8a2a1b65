// C28: workloads produce work at the rate of their pattern and send all of it exactly
// when their agent is in phase.
package c28

import (
	"context"
	"fmt"
	"math"
	"testing"
	"time"

	"github.com/carlisia/bio-adapt/emerge/agent"
	"github.com/carlisia/bio-adapt/emerge/goal"
	"github.com/carlisia/bio-adapt/simulations/emerge/simulation"
	"github.com/carlisia/bio-adapt/simulations/emerge/simulation/pattern"
	"github.com/carlisia/bio-adapt/zzverif/vh"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) {
	vh.SetCaseCPU(300)
	vh.Main(m)
}

const ms = time.Millisecond

// inPhase: documented: batch when the phase is near 0, modulo 2π.
func inPhase(p float64) bool { return vh.CircDist(p, 0) < 0.1 }

// genPhase draws a phase that is clearly in or out of the sending window.
func genPhase(rt *rapid.T, in bool) float64 {
	var d float64
	if in {
		d = vh.From(rt, "near", 0, 0, 0.05, 0.09, 0.0999999)
	} else {
		d = vh.From(rt, "far", 0.1000001, 0.11, 1, 2, 3, math.Pi)
	}
	if vh.OneIn(rt, "left", 2) {
		d = -d
	}
	return vh.Wrap(d)
}

type watched struct {
	w         *simulation.Workload
	a         *agent.Agent
	id        string
	pat       pattern.Type
	open      bool
	pending   int
	sent      int
	made      int // tasks seen to be generated
	sentTasks int // tasks seen to leave, at least
	hidden    int // generation events that may have hidden behind a sending
	events    []int
	burstFrom int
	bursts    int
	quiets    int
	inBurst   bool
	reset     int
}

func maxPer(p pattern.Type) (lo, hi int) {
	switch p {
	case pattern.HighFrequency:
		return 2, 4
	case pattern.Burst:
		return 3, 7
	case pattern.Mixed:
		return 1, 3
	}
	return 1, 1
}

func TestWorkloads(t *testing.T) {
	vh.Check(t, 120, 15, "1-5 workloads of any goal and pattern whose agents are moved in and out of phase, over 1-40s of virtual time, looked at every millisecond, with resets; non-trivial = tasks were billed from at least two sendings", func(c *vh.Case, rt *rapid.T) {
		vh.SeedEntropy(vh.Seed64(rt, "seed"))
		g := goal.Type(vh.UI(0, 7).Draw(rt, "goal"))
		n := vh.UI(1, 5).Draw(rt, "n")
		ws := make([]*watched, n)
		vh.Bubble(t, func() {
			ctx, cancel := context.WithCancel(context.Background())
			defer cancel()
			bm, mc := simulation.NewBatchManager(), simulation.NewMetricsCollector()
			go bm.ProcessBatches(ctx, mc)
			for i := range ws {
				w := &watched{id: fmt.Sprintf("w%d", i), pat: pattern.Type(vh.UI(0, 5).Draw(rt, "pattern")), reset: -1}
				w.open = vh.OneIn(rt, "open", 2)
				w.a = agent.New(w.id)
				w.a.SetPhase(genPhase(rt, w.open))
				w.w = simulation.NewWorkloadWithEmerge(w.id, i, w.a, nil, w.pat, g)
				c.Desc("%v open=%v;", w.pat, w.open)
				w.w.Start(ctx, bm)
				ws[i] = w
			}
			time.Sleep(ms / 2) // look between the instants at which anything happens
			now := 0
			steady := 0 // steady ticks since the last reset
			look := func(w *watched) {
				s := w.w.Snapshot()
				tick := now%100 == 0 && now > 0 // the workload decides about sending
				fail := func(format string, args ...any) {
					c.Fatalf("%v workload at %dms, phase %v, pending %d→%d, %d→%d sent: %s", w.pat, now, w.a.Phase(), w.pending, s.PendingTasks, w.sent, s.BatchesSent, fmt.Sprintf(format, args...))
				}
				if s.ID != w.id || s.Phase != w.a.Phase() {
					fail("shown as %+v", s)
				}
				lo, hi := maxPer(w.pat)
				made := 0
				switch {
				case s.BatchesSent == w.sent:
					made = s.PendingTasks - w.pending
					if made < 0 {
						fail("tasks vanished")
					}
					if tick && w.open && w.pending > 0 {
						fail("in phase, and nothing was sent")
					}
				case s.BatchesSent == w.sent+1 && tick && w.open:
					// everything that was pending left; what was generated at this very
					// instant may have left too
					if s.PendingTasks > hi {
						fail("not everything was sent")
					}
					made = s.PendingTasks
					w.sentTasks += w.pending
					if made == 0 {
						w.hidden++
						if w.pending == 0 {
							w.sentTasks, w.made = w.sentTasks+lo, w.made+lo
						}
					}
				default:
					fail("unexpected sending")
				}
				if made > 0 {
					if made < lo || made > hi {
						fail("%d tasks at once, documented %d-%d", made, lo, hi)
					}
					w.made += made
					w.events = append(w.events, now)
				}
				// the times
				if k := len(w.events); k > 0 && made > 0 {
					at, prev := w.events[k-1], 0
					if k > 1 {
						prev = w.events[k-2]
					}
					switch w.pat {
					case pattern.Steady, pattern.Unset:
						if at%500 != 0 {
							fail("steady means every 500ms")
						}
					case pattern.Burst:
						if at%100 != 0 {
							fail("between ticks")
						}
						if !s.InBurstMode {
							fail("tasks outside of a burst")
						}
					case pattern.Sparse:
						if at-prev < 2000 && prev > 0 || at < 2000 {
							fail("%dms after the previous", at-prev)
						}
					case pattern.Mixed:
						if at-prev < 200 {
							fail("%dms after the previous", at-prev)
						}
					}
				}
				if w.pat == pattern.HighFrequency && !w.open {
					prev := 0
					if k := len(w.events); k > 0 {
						prev = w.events[k-1]
					}
					if prev > lastOpen[w.id] && now-prev > 99 {
						fail("no request for %dms, documented more than 10 per second", now-prev)
					}
				}
				if w.open {
					lastOpen[w.id] = now
				}
				// bursts: between half a second and two seconds, with tasks at each tick
				if s.InBurstMode != w.inBurst {
					if s.InBurstMode {
						w.burstFrom = now
						w.bursts++
						if now%100 != 0 {
							fail("a burst started between ticks")
						}
					} else if d := now - w.burstFrom; w.reset < w.burstFrom && (d < 500 || d > 2100) {
						fail("a burst of %dms, documented 500-2000", d)
					}
					w.inBurst = s.InBurstMode
				} else if w.inBurst && now-w.burstFrom > 2100 {
					fail("a burst of %dms", now-w.burstFrom)
				}
				if w.inBurst && now%100 == 0 && made == 0 && !w.open {
					fail("no tasks in a burst")
				}
				// the activity shown
				want := "steady"
				switch w.pat {
				case pattern.HighFrequency:
					want = "active"
				case pattern.Burst:
					want = map[bool]string{true: "burst", false: "quiet"}[s.InBurstMode]
				case pattern.Sparse:
					want = map[bool]string{true: "active", false: "quiet"}[s.PendingTasks > 0]
				case pattern.Mixed:
					if w.open || lastOpen[w.id] > now-1500 { // a request may have been missed
						want = s.ActivityLevel
						break
					}
					age := math.MaxInt
					if k := len(w.events); k > 0 && w.events[k-1] > w.reset {
						age = now - w.events[k-1]
					}
					switch {
					case age < 200:
						want = "active"
					case age >= 1000:
						want = "quiet"
					}
				}
				if s.ActivityLevel != want || s.InBurstMode && w.pat != pattern.Burst {
					fail("shown as %s, want %s", s.ActivityLevel, want)
				}
				w.pending, w.sent = s.PendingTasks, s.BatchesSent
			}
			clear(lastOpen)
			for _, w := range ws {
				lastOpen[w.id] = -1500
				look(w)
			}
			for ops := vh.UI(1, 10).Draw(rt, "ops"); ops > 0; ops-- {
				k := vh.UI(1, 4000).Draw(rt, "ms")
				c.Desc(" %dms", k)
				for ; k > 0; k-- {
					time.Sleep(ms)
					now++
					if now%500 == 0 {
						steady++
					}
					for _, w := range ws {
						look(w)
					}
				}
				if vh.OneIn(rt, "reset", 8) {
					// let what was sent arrive first, so that the books can be compared
					w := ws[vh.UI(0, n-1).Draw(rt, "which")]
					c.Desc(" reset %s", w.id)
					w.w.Reset()
					if s := w.w.Snapshot(); s.PendingTasks != 0 || s.BatchesSent != 0 || s.InBurstMode || w.pat == pattern.Mixed && s.ActivityLevel != "quiet" {
						c.Fatalf("after a reset: %+v", s)
					}
					w.made -= w.pending
					w.pending, w.sent, w.inBurst = 0, 0, false
					w.reset = now
					continue
				}
				w := ws[vh.UI(0, n-1).Draw(rt, "which")]
				w.open = vh.OneIn(rt, "open", 2)
				w.a.SetPhase(genPhase(rt, w.open))
				c.Desc(" %s open=%v", w.id, w.open)
			}
			// everything that left is billed, once
			cancelAt := now
			for _, w := range ws {
				w.a.SetPhase(math.Pi)
				w.open = false
			}
			time.Sleep(2 * time.Second) // still generating
			sent, slack, sendings := 0, 0, 0
			for _, w := range ws {
				s := w.w.Snapshot()
				if s.BatchesSent != w.sent {
					c.Fatalf("%s out of phase sent a batch", w.id)
				}
				_, hi := maxPer(w.pat)
				sent += w.sentTasks
				slack += w.hidden * hi
				sendings += w.sent
				if w.pat == pattern.Steady && len(w.events) > 0 && w.reset < 0 && w.hidden == 0 && w.made != cancelAt/500 {
					c.Fatalf("%d steady tasks in %dms", w.made, cancelAt)
				}
			}
			m := mc.Current()
			billed := m.TotalAPICalls
			if billed < sent || billed > sent+slack {
				c.Fatalf("the workloads sent %d tasks (up to %d more), %d were billed", sent, slack, billed)
			}
			// the end
			cancel()
			time.Sleep(ms)
			var last []simulation.AgentSnapshot
			for _, w := range ws {
				w.a.SetPhase(0)
				last = append(last, w.w.Snapshot())
			}
			time.Sleep(10 * time.Second)
			for i, w := range ws {
				s := w.w.Snapshot()
				if s.PendingTasks != last[i].PendingTasks || s.BatchesSent != last[i].BatchesSent {
					c.Fatalf("%s went on after the end: %+v, %+v", w.id, last[i], s)
				}
			}
			c.NonTrivial(sendings > 1 && billed > 0)
		})
	})
}

var lastOpen = map[string]int{}

// TestRates: over minutes, each pattern looks like what it is called.
func TestRates(t *testing.T) {
	vh.Check(t, 10, 10, "20 workloads per pattern over ten virtual minutes, never in phase, so every task stays visible; non-trivial = every case", func(c *vh.Case, rt *rapid.T) {
		vh.SeedEntropy(vh.Seed64(rt, "seed"))
		p := pattern.Type(vh.UI(0, 5).Draw(rt, "pattern"))
		c.Desc("%v", p)
		const n, secs = 20, 600
		vh.Bubble(t, func() {
			ctx, cancel := context.WithCancel(context.Background())
			defer cancel()
			bm := simulation.NewBatchManager()
			var ws []*simulation.Workload
			for i := range n {
				a := agent.New(fmt.Sprint(i))
				a.SetPhase(math.Pi)
				w := simulation.NewWorkloadWithEmerge(fmt.Sprint(i), i, a, nil, p, goal.MinimizeAPICalls)
				w.Start(ctx, bm)
				ws = append(ws, w)
			}
			time.Sleep(ms / 2)
			events, tasks := make([]int, n), make([]int, n)
			busy := make([]int, n) // ticks in a burst
			quietSecs := make([]int, n)
			gaps := map[int]bool{}
			last := make([]int, n)
			for t := 1; t <= secs*100; t++ {
				time.Sleep(10 * ms)
				for i, w := range ws {
					s := w.Snapshot()
					if s.PendingTasks > tasks[i] {
						events[i]++
						tasks[i] = s.PendingTasks
						gaps[t-last[i]] = true
						last[i] = t
					}
					if s.InBurstMode {
						busy[i]++
					}
					if t-last[i] == 100 {
						quietSecs[i]++
					}
				}
			}
			cancel()
			sumE, sumT := 0, 0
			for i := range ws {
				sumE, sumT = sumE+events[i], sumT+tasks[i]
				rate := float64(events[i]) / secs
				bad := false
				switch p {
				case pattern.HighFrequency:
					bad = rate <= 10 || rate > 20.1
				case pattern.Steady, pattern.Unset:
					bad = events[i] != secs*2 || tasks[i] != secs*2
				case pattern.Sparse: // at most one every two seconds, and irregular
					bad = rate >= 0.5 || events[i] == 0
				case pattern.Burst: // busy and quiet times, both
					f := float64(busy[i]) / (secs * 100)
					bad = f < 0.3 || f > 0.95 || quietSecs[i] == 0 || rate <= 2
				case pattern.Mixed:
					bad = rate < 0.5 || rate > 4 || tasks[i] == events[i]
				}
				if bad {
					c.Fatalf("workload %d: %d requests with %d tasks in %ds, %d%% of the time in bursts, %d quiet seconds", i, events[i], tasks[i], secs, busy[i]/secs, quietSecs[i])
				}
			}
			per := float64(sumT) / float64(sumE)
			lo, hi := 1.0, 1.0
			switch p {
			case pattern.HighFrequency:
				lo, hi = 2.9, 3.1
			case pattern.Burst:
				lo, hi = 4.8, 5.2
			case pattern.Mixed:
				lo, hi = 1.3, 1.6
			}
			if per < lo || per > hi {
				c.Fatalf("%v tasks per request, expected %v-%v", per, lo, hi)
			}
			if irregular := p == pattern.Mixed || p == pattern.Sparse; irregular && len(gaps) < 15 {
				c.Fatalf("only %d different gaps between requests", len(gaps))
			}
			c.NonTrivial(true)
		})
	})
}

// TestTypes: the kinds of workload go round robin through eight kinds of the goal.
func TestTypes(t *testing.T) {
	vh.Check(t, 200, 10, "every goal and random type indices; non-trivial = index beyond the first round", func(c *vh.Case, rt *rapid.T) {
		g := goal.Type(vh.UI(-1, 8).Draw(rt, "goal"))
		i := vh.UI(0, 5000).Draw(rt, "index")
		c.Desc("%d %d", g, i)
		kind := func(i int) simulation.AgentSnapshot {
			a := agent.New("a")
			w := simulation.NewWorkloadWithEmerge("w", i, a, nil, pattern.Steady, g)
			if w.EmergeAgent() != a {
				c.Fatalf("another agent")
			}
			s := w.Snapshot()
			v := simulation.NewWorkload("w", i, g).Snapshot()
			if v.Type != s.Type || v.Icon != s.Icon {
				c.Fatalf("%+v, %+v", s, v)
			}
			if s.Type == "" || s.Icon == "" || s.PendingTasks != 0 || s.BatchesSent != 0 || s.InBurstMode {
				c.Fatalf("new workload: %+v", s)
			}
			return s
		}
		x := kind(i)
		if y := kind(i + 8); x.Type != y.Type {
			c.Fatalf("%s and %s", x.Type, y.Type)
		}
		for d := 1; d < 8; d++ {
			if y := kind(i + d); x.Type == y.Type {
				c.Fatalf("%s twice within eight", x.Type)
			}
		}
		if g >= 0 && g < 8 { // each goal has its own kinds
			for h := goal.Type(0); h < 8; h++ {
				if y := simulation.NewWorkload("w", i, h).Snapshot(); h != g && y.Type == x.Type {
					c.Fatalf("goals %v and %v both have %s", g, h, x.Type)
				}
			}
		}
		c.NonTrivial(i >= 8)
	})
}
