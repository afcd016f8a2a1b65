// C36: the parts that goroutines of one system share, used concurrently.
package c36

import (
	"context"
	"fmt"
	"math"
	"runtime"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/carlisia/bio-adapt/emerge/completion"
	"github.com/carlisia/bio-adapt/emerge/convergence"
	"github.com/carlisia/bio-adapt/emerge/core"
	"github.com/carlisia/bio-adapt/emerge/swarm"
	"github.com/carlisia/bio-adapt/simulations/emerge/simulation"
	"github.com/carlisia/bio-adapt/zzverif/vh"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { vh.Main(m) }

func join(c *vh.Case, ws ...func()) {
	dead, dump, p := vh.Blocked(ws...)
	if p != nil {
		c.Fatalf("panic: %v", p)
	}
	if dead {
		c.Fatalf("blocked for good: %s", dump)
	}
}

// errs keeps the first complaint of any goroutine.
type errs struct {
	once sync.Once
	msg  atomic.Value
}

func (e *errs) set(f string, a ...any) { e.once.Do(func() { e.msg.Store(fmt.Sprintf(f, a...)) }) }
func (e *errs) check(c *vh.Case) {
	if s := e.msg.Load(); s != nil {
		c.Fatalf("%v", s)
	}
}

// Every snapshot of the books is one that some order of the records explains.
func books(x simulation.MetricsSnapshot) string {
	without := float64(x.TotalAPICalls) * simulation.CostPerCall
	with := float64(x.TotalBatches) * simulation.CostPerCall * (1 - simulation.BatchDiscount)
	near := func(a, b float64) bool { return math.Abs(a-b) <= 1e-6*(1+math.Abs(b)) }
	avg, pct := 0.0, 0.0
	if x.TotalBatches > 0 {
		avg, pct = float64(x.TotalAPICalls)/float64(x.TotalBatches), 100*(without-with)/without
	}
	if !near(x.CostWithoutSync, without) || !near(x.CostWithSync, with) || !near(x.TotalSavings, without-with) || !near(x.AverageBatchSize, avg) || !near(x.SavingsPercent, pct) {
		return fmt.Sprintf("books that do not add up: %+v", x)
	}
	return ""
}

// The batch manager and the metrics: several agents submit at the same instants while the
// display reads.
func TestBatchManager(t *testing.T) {
	vh.Check(t, 150, 20, "2-10 agents submitting 1-40 batches at the same instants (a refused batch is submitted again), 1-3 readers, in virtual time; non-trivial = some batch was refused or calls shared", func(c *vh.Case, rt *rapid.T) {
		agents := 2 + vh.Pick(rt, "agents", 9)
		readers := 1 + vh.Pick(rt, "readers", 3)
		per := 1 + vh.Pick(rt, "batches", 40)
		size := 1 + vh.Pick(rt, "size", 60)
		gap := vh.From(rt, "gap", 0, time.Millisecond, 7*time.Millisecond, 60*time.Millisecond)
		peak := vh.UF(0.1, 0.99).Draw(rt, "peak")
		c.Desc("%d agents, %d batches of 1-%d every %v, %d readers, peak %v", agents, per, size, gap, readers, peak)
		var bad errs
		var accepted, refused, batches atomic.Int64
		vh.Bubble(t, func() {
			bm, mc := simulation.NewBatchManager(), simulation.NewMetricsCollector()
			ctx, cancel := context.WithCancel(context.Background())
			var proc, subs, reads sync.WaitGroup
			proc.Go(func() { bm.ProcessBatches(ctx, mc) })
			for a := range agents {
				subs.Go(func() {
					for i := range per {
						time.Sleep(gap)
						mc.UpdateCoherence(peak * float64(i+1) / float64(per))
						n := 1 + (a*7+i*13)%size
						tasks := make([]simulation.Task, n)
						for !bm.SubmitBatch(fmt.Sprint(a), tasks) {
							refused.Add(1)
							time.Sleep(3 * time.Millisecond)
						}
						accepted.Add(int64(n))
						batches.Add(1)
					}
				})
			}
			var over atomic.Bool
			for range readers {
				reads.Go(func() {
					last, dist := simulation.MetricsSnapshot{}, 0
					for !over.Load() {
						time.Sleep(time.Millisecond)
						x := mc.Current()
						if s := books(x); s != "" {
							bad.set("%s", s)
							return
						}
						if x.TotalAPICalls < last.TotalAPICalls || x.TotalBatches < last.TotalBatches || x.PeakCoherence < last.PeakCoherence || x.PeakCoherence > peak+1e-9 {
							bad.set("readings went back: %+v after %+v", x, last)
							return
						}
						last = x
						n := 0
						for _, k := range mc.BatchSizeDistribution() {
							n += k
						}
						if n < dist || n < x.TotalBatches {
							bad.set("a distribution of %d batches after %d, with %d sent", n, dist, x.TotalBatches)
							return
						}
						dist = n
						when, k := bm.LastBatchInfo()
						if when.IsZero() != (k == 0) || k < 0 || k > simulation.MaxBatchSize {
							bad.set("last batch of %d at %v", k, when)
							return
						}
						bm.PendingCount()
						bm.CurrentBatchSize()
					}
				})
			}
			subs.Wait()
			// all that was taken is billed in the end
			for deadline := time.Now().Add(10 * time.Hour); mc.Current().TotalAPICalls < int(accepted.Load()) && time.Now().Before(deadline); {
				time.Sleep(100 * time.Millisecond)
			}
			time.Sleep(5 * time.Second)
			over.Store(true)
			reads.Wait()
			cancel()
			proc.Wait()
			x := mc.Current()
			if s := books(x); s != "" {
				bad.set("%s", s)
			}
			if int64(x.TotalAPICalls) != accepted.Load() {
				bad.set("%d tasks billed, %d taken", x.TotalAPICalls, accepted.Load())
			}
			if math.Abs(x.PeakCoherence-peak) > 1e-9 {
				bad.set("peak coherence %v, reached %v", x.PeakCoherence, peak)
			}
			c.NonTrivial(refused.Load() > 0 || int64(x.TotalBatches) < batches.Load())
		})
		bad.check(c)
	})
}

// Templates are learned while others complete patterns: every answer is the answer of the
// engine before or after some of the learning, and in the end all have been learned.
func TestEngine(t *testing.T) {
	vh.Check(t, 150, 20, "1-4 learners adding templates to one engine while 1-4 workers complete patterns with it; non-trivial = an answer used a template learned during the run", func(c *vh.Case, rt *rapid.T) {
		learners := 1 + vh.Pick(rt, "learners", 4)
		workers := 1 + vh.Pick(rt, "workers", 4)
		per := 2 + vh.Pick(rt, "per", 20)
		rounds := 10 + vh.Pick(rt, "rounds", 60)
		sev := vh.UF(0.1, 0.5).Draw(rt, "severity")
		cur := &core.TargetPattern{Phase: vh.UF(0, 6).Draw(rt, "phase"), Frequency: 100 * time.Millisecond, Coherence: 0.5}
		off := vh.UF(0.3, 0.6).Draw(rt, "off") // how far the templates are, in the way of the target
		c.Desc("%d learners of %d, %d workers of %d rounds, severity %v, %v off, cur %v", learners, per, workers, rounds, sev, off, cur.Phase)
		eng := completion.NewEngine()
		target := vh.Wrap(cur.Phase + off)
		gaps := []core.PatternGap{{Type: "phase", Current: cur.Phase, Target: target, Severity: sev}, {Type: "coherence", Current: 0.5, Target: 0.9, Severity: sev}}
		// template i boosts coherence in its own way, and the later the nearer; without templates
		// the boost is interpolated
		total := learners * per
		boost := func(k int) float64 { return (0.55 + 0.4*float64(k)/float64(total)) * sev }
		known := map[float64]int{}
		for k := range total {
			known[boost(k)] = k
		}
		plain := 0.4 * sev
		tpl := func(k int) *core.TargetPattern {
			return &core.TargetPattern{Phase: target, Frequency: cur.Frequency, Coherence: 0.55 + 0.4*float64(k)/float64(total)}
		}
		var bad errs
		var used atomic.Int64
		var ws []func()
		for l := range learners {
			ws = append(ws, func() {
				for i := range per {
					eng.AddTemplate(fmt.Sprintf("t%d-%d", l, i), tpl(i*learners+l))
					runtime.Gosched()
				}
			})
		}
		for range workers {
			ws = append(ws, func() {
				for range rounds {
					got := eng.CompletePattern(cur, gaps)
					b, ok := got.Filled["coherence_boost"].(float64)
					if !ok || got.Base != cur {
						bad.set("coherence gap not filled: %+v", got)
						return
					}
					tmpl := false
					for x := range known {
						tmpl = tmpl || math.Abs(x-b) < 1e-9
					}
					if tmpl {
						used.Add(1)
					} else if math.Abs(b-plain) > 1e-9 {
						bad.set("a boost of %v, of no template and not interpolated (%v)", b, plain)
						return
					}
					if a := got.GetPhaseAdjustment(); math.Abs(a-off*sev) > 1e-9 {
						bad.set("phase adjustment %v, want %v", a, off*sev)
						return
					}
				}
			})
		}
		join(c, ws...)
		bad.check(c)
		c.NonTrivial(used.Load() > 0)
		// all of the templates are known now: ask for each
		for k := range total {
			p := tpl(k)
			q := &core.TargetPattern{Phase: p.Phase, Frequency: p.Frequency, Coherence: p.Coherence}
			got := eng.CompletePattern(q, []core.PatternGap{{Type: "coherence", Current: q.Coherence, Target: 1, Severity: sev}})
			if b, _ := got.Filled["coherence_boost"].(float64); math.Abs(b-boost(k)) > 1e-9 {
				c.Fatalf("template %d was not learned: boost %v, want %v", k, b, boost(k))
			}
		}
	})
}

// The convergence monitor: several record, others read. What was recorded concurrently
// leaves it as able as a fresh one.
func TestTracker(t *testing.T) {
	vh.Check(t, 150, 20, "2-4 recorders and 1-4 readers on one convergence monitor with a window of 1-30, retargeted and reset meanwhile; every case is non-trivial", func(c *vh.Case, rt *rapid.T) {
		window := 1 + vh.Pick(rt, "window", 30)
		recs := 2 + vh.Pick(rt, "recorders", 3)
		readers := 1 + vh.Pick(rt, "readers", 4)
		n := 5 + vh.Pick(rt, "n", 200)
		resets := vh.OneIn(rt, "resets", 2)
		after := make([]float64, vh.Pick(rt, "after", 3*window+3))
		for i := range after {
			after[i] = vh.UF(0, 3).Draw(rt, "d")
		}
		c.Desc("window %d, %d recorders of %d, %d readers, resets %v", window, recs, n, readers, resets)
		c.NonTrivial(true)
		target := &core.TargetPattern{Phase: 1, Frequency: 100 * time.Millisecond, Coherence: 0.9}
		at := func(d float64) *core.TargetPattern {
			return &core.TargetPattern{Phase: 1 + d, Frequency: 100 * time.Millisecond, Coherence: 0.9}
		}
		m := convergence.NewMonitor(window)
		m.SetTarget(target)
		var bad errs
		var left atomic.Int64
		left.Store(int64(recs))
		var ws []func()
		for r := range recs {
			ws = append(ws, func() {
				defer left.Add(-1)
				for i := range n {
					m.RecordSample(at(2-2*float64((i+r*17)%n)/float64(n)), float64(i)/float64(n))
					if i%50 == 20 {
						m.SetTarget(target)
						if resets {
							m.Reset()
						}
					}
				}
			})
		}
		for range readers {
			ws = append(ws, func() {
				for left.Load() > 0 {
					if p := m.GetProgress(); !(p >= 0 && p <= 1) {
						bad.set("progress %v", p)
						return
					}
					if v := m.GetConvergenceRate(); math.IsNaN(v) {
						bad.set("rate %v", v)
						return
					}
					m.IsStuck()
					m.IsConverging()
					m.ShouldSwitchStrategy()
				}
			})
		}
		join(c, ws...)
		bad.check(c)
		m.Reset()
		f := convergence.NewMonitor(window)
		f.SetTarget(target)
		if m.IsStuck() || m.IsConverging() || m.GetProgress() != 0 || m.GetConvergenceRate() != 0 {
			c.Fatalf("a reset monitor remembers: stuck %v converging %v progress %v rate %v", m.IsStuck(), m.IsConverging(), m.GetProgress(), m.GetConvergenceRate())
		}
		vh.Bubble(t, func() {
			for i, d := range after {
				time.Sleep(time.Millisecond)
				m.RecordSample(at(d), float64(i)/float64(len(after)))
				f.RecordSample(at(d), float64(i)/float64(len(after)))
				if m.GetProgress() != f.GetProgress() || m.GetConvergenceRate() != f.GetConvergenceRate() || m.IsStuck() != f.IsStuck() || m.IsConverging() != f.IsConverging() {
					c.Fatalf("after %d samples: progress %v, rate %v, stuck %v, converging %v; a fresh monitor says %v, %v, %v, %v", i+1, m.GetProgress(), m.GetConvergenceRate(), m.IsStuck(), m.IsConverging(), f.GetProgress(), f.GetConvergenceRate(), f.IsStuck(), f.IsConverging())
				}
			}
		})
	})
}

// The worker pool runs every task once, as many at a time as it has workers and no more.
func TestWorkerPool(t *testing.T) {
	vh.Check(t, 200, 20, "1-8 submitters sharing a pool of 1-12 workers, tasks that take virtual time; non-trivial = the workers were all busy at once", func(c *vh.Case, rt *rapid.T) {
		workers := 1 + vh.Pick(rt, "workers", 12)
		submitters := 1 + vh.Pick(rt, "submitters", 8)
		per := 1 + vh.Pick(rt, "per", 30)
		d := time.Duration(vh.Pick(rt, "ms", 5)) * time.Millisecond
		c.Desc("%d workers, %d submitters of %d tasks of %v", workers, submitters, per, d)
		var bad errs
		ran := make([]atomic.Int32, submitters*per)
		var busy, most atomic.Int32
		vh.Bubble(t, func() {
			p := swarm.NewWorkerPool(workers)
			start := time.Now()
			var subs, tasks sync.WaitGroup
			tasks.Add(len(ran))
			for s := range submitters {
				subs.Go(func() {
					for i := range per {
						p.Submit(func() {
							defer tasks.Done()
							b := busy.Add(1)
							for m := most.Load(); b > m && !most.CompareAndSwap(m, b); m = most.Load() {
							}
							time.Sleep(d)
							busy.Add(-1)
							ran[s*per+i].Add(1)
						})
					}
				})
			}
			subs.Wait()
			tasks.Wait()
			took := time.Since(start)
			p.Stop()
			for i := range ran {
				if k := ran[i].Load(); k != 1 {
					bad.set("task %d ran %d times", i, k)
				}
			}
			if int(most.Load()) > workers {
				bad.set("%d tasks at once with %d workers", most.Load(), workers)
			}
			// all workers at work: no instant is wasted
			if want := d * time.Duration((len(ran)+workers-1)/workers); took != want {
				bad.set("%d tasks of %v took %v with %d workers, want %v", len(ran), d, took, workers, want)
			}
			c.NonTrivial(int(most.Load()) == workers)
		})
		bad.check(c)
	})
}
