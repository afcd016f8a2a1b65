// C26: every submitted task is billed once, in batches no larger than the API allows,
// and the books balance.
package c26

import (
	"context"
	"fmt"
	"math"
	"testing"
	"time"

	"github.com/carlisia/bio-adapt/simulations/emerge/simulation"
	"github.com/carlisia/bio-adapt/zzverif/vh"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) {
	vh.SetCaseCPU(300)
	vh.Main(m)
}

const (
	window = 50 * time.Millisecond
	call   = 10 * time.Millisecond // simulated API call
	limit  = 100
)

type sub struct {
	at time.Duration
	n  int
}

type sent struct {
	at time.Duration
	n  int
}

// model replays the documented behaviour: batches that arrive within the window of the
// first are collected, up to the size limit, and sent in calls of at most that size.
// sure is false when batches were already waiting while the collection was full, where
// how many of them join is not specified.
func model(subs []sub) (out []sent, sure bool) {
	sure = true
	i, free := 0, time.Duration(0)
	for i < len(subs) {
		start := max(subs[i].at, free)
		total, now := subs[i].n, start
		i++
		for total < limit && i < len(subs) && subs[i].at < start+window {
			now = max(start, subs[i].at)
			total += subs[i].n
			i++
		}
		if total < limit {
			now = start + window
		} else if i < len(subs) && subs[i].at <= now {
			sure = false
		}
		free = now
		for total > 0 {
			k := min(total, limit)
			out = append(out, sent{free, k})
			free += call
			total -= k
		}
	}
	return
}

func books(c *vh.Case, m *simulation.MetricsCollector, tasks, batches int) simulation.MetricsSnapshot {
	x := m.Current()
	if x.TotalAPICalls != tasks {
		c.Fatalf("%d tasks billed, %d submitted", x.TotalAPICalls, tasks)
	}
	if batches >= 0 && x.TotalBatches != batches {
		c.Fatalf("%d batches, want %d", x.TotalBatches, batches)
	}
	near := func(name string, got, want float64) {
		if !vh.Near(got, want, 1e-9*(1+math.Abs(want))) {
			c.Fatalf("%s is %v, want %v for %d tasks in %d batches", name, got, want, x.TotalAPICalls, x.TotalBatches)
		}
	}
	with, without := 0.015*float64(x.TotalBatches), 0.03*float64(x.TotalAPICalls)
	near("cost without synchronization", x.CostWithoutSync, without)
	near("cost with synchronization", x.CostWithSync, with)
	near("savings", x.TotalSavings, without-with)
	avg, pct := 0.0, 0.0
	if x.TotalBatches > 0 {
		avg, pct = float64(x.TotalAPICalls)/float64(x.TotalBatches), 100*(without-with)/without
	}
	near("average batch", x.AverageBatchSize, avg)
	near("savings in percent", x.SavingsPercent, pct)
	return x
}

func TestBatches(t *testing.T) {
	vh.Check(t, 1500, 10, "submissions of 0-260 tasks at random instants (bursts, gaps near the window, long pauses) to a running batch manager in virtual time; non-trivial = at least two submissions shared a call, and some call was split off", func(c *vh.Case, rt *rapid.T) {
		var subs []sub
		at := time.Duration(0)
		n := vh.UI(1, 40).Draw(rt, "n")
		for i := 0; i < n; i++ {
			switch vh.Pick(rt, "gap", 5) {
			case 0, 1:
				at += time.Duration(vh.UI(0, 8).Draw(rt, "ms")) * time.Millisecond
			case 2:
				at += time.Duration(vh.UI(40, 60).Draw(rt, "ms")) * time.Millisecond
			case 3:
				at += time.Duration(vh.UI(0, 300).Draw(rt, "ms")) * time.Millisecond
			}
			// a residue of its own for each submission, so that no two events coincide
			a := at.Truncate(call) + time.Duration(i+1)*time.Microsecond
			if len(subs) > 0 && a <= subs[len(subs)-1].at {
				a = subs[len(subs)-1].at.Truncate(call) + time.Duration(i+1)*time.Microsecond
			}
			at = a
			k := vh.UI(1, 30).Draw(rt, "tasks")
			switch vh.Pick(rt, "size", 8) {
			case 0:
				k = vh.From(rt, "tasks", 99, 100, 101, 199, 200, 201, 260)
			case 1:
				k = vh.UI(30, 120).Draw(rt, "tasks")
			}
			subs = append(subs, sub{a, k})
		}
		want, sure := model(subs)
		c.Desc("%v sure %v", subs, sure)
		total := 0
		for _, s := range subs {
			total += s.n
		}
		var got []sent
		vh.Bubble(t, func() {
			bm, mc := simulation.NewBatchManager(), simulation.NewMetricsCollector()
			ctx, cancel := context.WithCancel(context.Background())
			defer cancel()
			done := make(chan struct{})
			go func() { bm.ProcessBatches(ctx, mc); close(done) }()
			t0 := time.Now()
			end := subs[len(subs)-1].at + time.Duration(len(subs))*window + time.Duration(total/limit+len(subs)+2)*call
			i, seen := 0, 0
			for now := time.Duration(0); now < end; now = time.Since(t0) {
				if i < len(subs) && now >= subs[i].at {
					if !bm.SubmitBatch(fmt.Sprintf("agent-%d", i), make([]simulation.Task, subs[i].n)) {
						c.Fatalf("refused a batch with an empty queue")
					}
					i++
				}
				// sample just before the next submission and every 2.5ms
				next := now.Truncate(2500*time.Microsecond) + 2500*time.Microsecond
				if i < len(subs) && subs[i].at < next {
					next = max(subs[i].at, now)
				}
				time.Sleep(next - now)
				x := mc.Current()
				if x.TotalBatches > seen {
					when, size := bm.LastBatchInfo()
					if x.TotalBatches == seen+1 {
						got = append(got, sent{when.Sub(t0), size})
					} else {
						c.Fatalf("%d batches within one API call", x.TotalBatches-seen)
					}
					seen = x.TotalBatches
				}
			}
			books(c, mc, total, -1)
			cancel()
			<-done
			dist := 0
			for _, k := range mc.BatchSizeDistribution() {
				dist += k
			}
			if dist != seen {
				c.Fatalf("distribution of %d batches, %d sent", dist, seen)
			}
		})
		sum := 0
		for _, g := range got {
			if g.n < 1 || g.n > limit {
				c.Fatalf("a call with %d tasks", g.n)
			}
			sum += g.n
		}
		if sum != total {
			c.Fatalf("%d tasks in the batches seen, %d submitted", sum, total)
		}
		if sure {
			if len(got) != len(want) {
				c.Fatalf("batches %v\nwant %v", got, want)
			}
			for i := range got {
				if got[i] != want[i] {
					c.Fatalf("batch %d is %v, want %v\nall %v\nwant %v", i, got[i], want[i], got, want)
				}
			}
		}
		c.Label(fmt.Sprintf("sure=%v", sure))
		c.NonTrivial(sure && len(got) < len(subs) && total > limit)
	})
}

// TestQueue fills the queue before anything is processed: whatever was accepted is
// billed, whatever was refused is not, and a reset forgets everything.
func TestQueue(t *testing.T) {
	vh.Check(t, 600, 10, "up to 250 submissions before processing starts, with resets, then processing until idle and cancellation at a random instant; non-trivial = a submission was refused", func(c *vh.Case, rt *rapid.T) {
		n := vh.UI(0, 250).Draw(rt, "n")
		resetAt := -1
		if vh.OneIn(rt, "reset", 3) {
			resetAt = vh.UI(0, n).Draw(rt, "resetAt")
		}
		k := vh.UI(1, 12).Draw(rt, "tasks")
		cancelAfter := time.Duration(vh.UI(0, 400).Draw(rt, "cancel")) * time.Millisecond
		if vh.OneIn(rt, "late", 2) {
			cancelAfter = time.Minute
		}
		c.Desc("%d submissions of %d, reset at %d, cancelled after %v", n, k, resetAt, cancelAfter)
		vh.Bubble(t, func() {
			bm, mc := simulation.NewBatchManager(), simulation.NewMetricsCollector()
			accepted, refused, full := 0, 0, false
			for i := 0; i < n; i++ {
				if i == resetAt {
					bm.Reset()
					accepted, full = 0, false
				}
				if bm.SubmitBatch("a", make([]simulation.Task, k)) {
					accepted++
					if full {
						// nothing is taken out of the queue, so it stays full
						c.Fatalf("accepted batch %d after refusing one", i)
					}
				} else {
					refused++
					full = true
				}
			}
			ctx, cancel := context.WithCancel(context.Background())
			defer cancel()
			done := make(chan struct{})
			go func() { bm.ProcessBatches(ctx, mc); close(done) }()
			time.Sleep(cancelAfter)
			cancel()
			t0 := time.Now()
			<-done
			// what is queued may still be sent first
			if lag := time.Since(t0); lag > time.Duration(accepted+1)*(window+call) {
				c.Fatalf("stopped %v after the cancellation", lag)
			}
			x := mc.Current()
			if cancelAfter == time.Minute {
				books(c, mc, accepted*k, -1)
			} else if x.TotalAPICalls > accepted*k || x.TotalAPICalls%k != 0 {
				c.Fatalf("billed %d tasks, accepted %d", x.TotalAPICalls, accepted*k)
			} else {
				books(c, mc, x.TotalAPICalls, -1)
			}
			at, size := bm.LastBatchInfo()
			if (x.TotalBatches > 0) != (size > 0) || at.IsZero() != (size == 0) || size > limit {
				c.Fatalf("last batch %v %d after %d batches", at, size, x.TotalBatches)
			}
			bm.Reset()
			if at, size := bm.LastBatchInfo(); size != 0 || !at.IsZero() || bm.CurrentBatchSize() != 0 || bm.PendingCount() != 0 {
				c.Fatalf("after a reset: last batch %v %d, queue %d, pending %d", at, size, bm.CurrentBatchSize(), bm.PendingCount())
			}
			bm.Reset()
			if bm.PendingCount() != 0 { // asked again
				c.Fatalf("%d pending after another reset", bm.PendingCount())
			}
			c.NonTrivial(refused > 0)
		})
	})
}

// TestMetrics drives the collector alone against a model.
func TestMetrics(t *testing.T) {
	vh.Check(t, 4000, 10, "sequences of batches, coherence updates, waits and resets; non-trivial = the peak is not the last value, and convergence was reached", func(c *vh.Case, rt *rapid.T) {
		vh.Bubble(t, func() {
			m := simulation.NewMetricsCollector()
			tasks, batches, with, without, peak := 0, 0, 0.0, 0.0, 0.0
			dist := map[string]int{}
			t0, conv := time.Now(), time.Duration(-1)
			last := 0.0
			for i := vh.Len(rt, "ops", 1, 40, 1200); i > 0; i-- {
				switch vh.Pick(rt, "op", 8) {
				case 0, 1, 2:
					k := vh.UI(1, 100).Draw(rt, "size")
					if vh.OneIn(rt, "edge", 2) {
						k = vh.From(rt, "size", 1, 10, 11, 25, 26, 50, 51, 75, 76, 100)
					}
					a, b := vh.UF(0, 5).Draw(rt, "without"), vh.UF(0, 5).Draw(rt, "with")
					m.RecordBatch(k, a, b, a-b)
					tasks, batches, without, with = tasks+k, batches+1, without+a, with+b
					switch {
					case k <= 10:
						dist["1-10"]++
					case k <= 25:
						dist["11-25"]++
					case k <= 50:
						dist["26-50"]++
					case k <= 75:
						dist["51-75"]++
					default:
						dist["76-100"]++
					}
				case 3, 4, 5:
					last = vh.UF(0, 1).Draw(rt, "coherence")
					if vh.OneIn(rt, "edge", 4) {
						last = vh.From(rt, "coherence", 0.7, math.Nextafter(0.7, 0), 0, 1)
					}
					m.UpdateCoherence(last)
					peak = math.Max(peak, last)
					if last >= 0.7 && conv < 0 {
						conv = time.Since(t0)
					}
				case 6:
					time.Sleep(time.Duration(vh.UI(1, 5000).Draw(rt, "ms")) * time.Millisecond)
				case 7:
					if vh.OneIn(rt, "reset", 3) {
						m.Reset()
						tasks, batches, with, without, peak, last = 0, 0, 0, 0, 0, 0
						dist = map[string]int{}
						t0, conv = time.Now(), -1
					}
				}
				x := m.Current()
				near := func(a, b float64) bool { return vh.Near(a, b, 1e-9*(1+math.Abs(b))) }
				pct, avg := 0.0, 0.0
				if without > 0 {
					pct = 100 * (without - with) / without
				}
				if batches > 0 {
					avg = float64(tasks) / float64(batches)
				}
				if x.TotalAPICalls != tasks || x.TotalBatches != batches || !near(x.CostWithSync, with) || !near(x.CostWithoutSync, without) ||
					!near(x.TotalSavings, without-with) || without > 1e-3 && !vh.Near(x.SavingsPercent, pct, 1e-6*(1+math.Abs(pct))) || !near(x.AverageBatchSize, avg) {
					c.Fatalf("%+v, want %d tasks %d batches costs %v %v", x, tasks, batches, without, with)
				}
				if x.PeakCoherence != peak || x.TimeToConverge != max(conv, 0) {
					c.Fatalf("peak %v converged after %v, want %v %v", x.PeakCoherence, x.TimeToConverge, peak, conv)
				}
				if y := m.Final(); y != x {
					c.Fatalf("final %+v, current %+v", y, x)
				}
				for k, v := range m.BatchSizeDistribution() {
					if v != dist[k] {
						c.Fatalf("distribution %v, want %v", m.BatchSizeDistribution(), dist)
					}
				}
				c.NonTrivial(last < peak && conv > 0)
			}
		})
	})
}
