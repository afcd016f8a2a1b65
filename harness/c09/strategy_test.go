// C09: synchronization strategies.
package c09

import (
	"math"
	"testing"
	"time"

	"github.com/carlisia/bio-adapt/emerge/core"
	"github.com/carlisia/bio-adapt/emerge/strategy"
	"github.com/carlisia/bio-adapt/zzverif/vh"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { vh.Main(m) }

type in struct {
	cur, tgt core.State
	ctx      core.Context
	rate     float64
}

func gen(rt *rapid.T) in {
	var x in
	x.cur = core.State{Phase: vh.AnyPhase().Draw(rt, "cur"), Frequency: time.Duration(rapid.IntRange(1, 1e9).Draw(rt, "cf")), Coherence: vh.Unit().Draw(rt, "cc")}
	x.tgt = core.State{Frequency: time.Duration(rapid.IntRange(1, 1e9).Draw(rt, "tf")), Coherence: vh.Unit().Draw(rt, "tc")}
	switch vh.Pick(rt, "rel", 6) {
	case 0:
		x.tgt.Phase = x.cur.Phase + vh.UF(-0.2, 0.2).Draw(rt, "near")
	case 1:
		x.tgt.Phase = x.cur.Phase + math.Pi + vh.UF(-0.1, 0.1).Draw(rt, "anti")
	default:
		x.tgt.Phase = vh.AnyPhase().Draw(rt, "tgt")
	}
	x.ctx = core.Context{Neighbors: rapid.IntRange(0, 30).Draw(rt, "n"), Density: vh.Unit().Draw(rt, "d"), Stability: vh.Unit().Draw(rt, "s"),
		Progress: vh.Unit().Draw(rt, "pr"), LocalCoherence: vh.Unit().Draw(rt, "lc")}
	x.rate = vh.Unit().Draw(rt, "rate")
	if vh.OneIn(rt, "wild", 5) {
		x.rate = vh.UF(-3, 3).Draw(rt, "wildrate")
	}
	return x
}

func clamp(x float64) float64 { return math.Min(1, math.Max(0, x)) }

// a movement proposal: along the shortest arc, by the given share of it
func checkMove(c *vh.Case, name string, x in, a core.Action, conf, share, cost float64) {
	diff := vh.SignedDiff(x.tgt.Phase, x.cur.Phase)
	eps := 1e-9 + 1e-14*(math.Abs(x.cur.Phase)+math.Abs(x.tgt.Phase))
	ok := vh.Near(a.Value, diff*share, eps)
	if math.Pi-math.Abs(diff) < 2*eps { // opposite phases: either way round
		ok = vh.Near(math.Abs(a.Value), math.Pi*share, 3*eps)
	}
	if !ok {
		c.Fatalf("%s from %v to %v moves by %v; the shortest way is %v, its share %v", name, x.cur.Phase, x.tgt.Phase, a.Value, diff, diff*share)
	}
	before, after := vh.CircDist(x.cur.Phase, x.tgt.Phase), vh.CircDist(x.cur.Phase+a.Value, x.tgt.Phase)
	if after > before+eps {
		c.Fatalf("%s leads away from the target: distance %v -> %v", name, before, after)
	}
	if !vh.Near(a.Cost, cost, 4*eps) || a.Cost < 0 {
		c.Fatalf("%s moving by %v costs %v, want %v", name, a.Value, a.Cost, cost)
	}
	if !(conf >= 0 && conf <= 1+1e-9) {
		c.Fatalf("%s confidence %v outside [0,1]", name, conf)
	}
}

func nontrivial(x in) bool {
	d := math.Abs(vh.SignedDiff(x.tgt.Phase, x.cur.Phase))
	crosses := math.Abs(vh.Wrap(x.tgt.Phase)-vh.Wrap(x.cur.Phase)) > math.Pi
	return d > 1e-6 && (crosses || x.cur.Phase < 0 || x.cur.Phase >= vh.TwoPi || x.tgt.Phase < 0 || x.tgt.Phase >= vh.TwoPi)
}

const rule = "current/target phases anywhere on the line, any context, rates incl. out of range; non-trivial = the shortest path crosses 0/2π or a phase lies outside [0,2π)"

func TestNudgeAndLock(t *testing.T) {
	vh.Check(t, 12000, 40, rule, func(c *vh.Case, rt *rapid.T) {
		x := gen(rt)
		c.Desc("%+v", x)
		c.NonTrivial(nontrivial(x))
		r := clamp(x.rate)
		p := strategy.NewPhaseNudge(x.rate)
		a, conf := p.Propose(x.cur, x.tgt, x.ctx)
		if a.Type != "phase_nudge" || p.Name() != "phase_nudge" {
			c.Fatalf("phase nudge proposes %q", a.Type)
		}
		checkMove(c, "phase nudge", x, a, conf, r, math.Abs(a.Value)*2)
		if want := math.Max(0.5, 1-x.ctx.LocalCoherence); !vh.Near(conf, want, 1e-12) {
			c.Fatalf("phase nudge confidence %v at local coherence %v, want %v", conf, x.ctx.LocalCoherence, want)
		}
		if d := vh.CircDist(x.cur.Phase, x.tgt.Phase); !vh.Near(a.Benefit, 1.5*(1-d/math.Pi), 1e-6+1e-14*(math.Abs(x.cur.Phase)+math.Abs(x.tgt.Phase))) {
			c.Fatalf("phase nudge benefit %v at distance %v", a.Benefit, d)
		}
		f := strategy.NewFrequencyLock(x.rate)
		a, conf = f.Propose(x.cur, x.tgt, x.ctx)
		if a.Type != "frequency_lock" || f.Name() != "frequency_lock" {
			c.Fatalf("frequency lock proposes %q", a.Type)
		}
		checkMove(c, "frequency lock", x, a, conf, r, math.Abs(a.Value)*3)
		if want := x.ctx.LocalCoherence * r; !vh.Near(conf, want, 1e-12) {
			c.Fatalf("frequency lock confidence %v, want %v", conf, want)
		}
		if !vh.Near(a.Benefit, 2*x.ctx.LocalCoherence, 1e-12) {
			c.Fatalf("frequency lock benefit %v", a.Benefit)
		}
	})
}

func TestEnergyAware(t *testing.T) {
	vh.Check(t, 10000, 40, rule, func(c *vh.Case, rt *rapid.T) {
		x := gen(rt)
		c.Desc("%+v", x)
		c.NonTrivial(nontrivial(x))
		s := strategy.NewEnergyAware(vh.UF(-50, 50).Draw(rt, "thr"))
		if s.Threshold < 0 {
			c.Fatalf("negative threshold %v", s.Threshold)
		}
		a, conf := s.Propose(x.cur, x.tgt, x.ctx)
		d := vh.CircDist(x.cur.Phase, x.tgt.Phase)
		switch {
		case d < 0.1-1e-6:
			if a.Type != "maintain" || a.Value != 0 {
				c.Fatalf("energy aware acts (%+v) at distance %v", a, d)
			}
			if !(conf >= 0 && conf <= 1+1e-9) || !(a.Cost >= 0) {
				c.Fatalf("conf %v cost %v", conf, a.Cost)
			}
		case d > 0.1+1e-6:
			if a.Type != "energy_save" {
				c.Fatalf("energy aware proposes %q at distance %v", a.Type, d)
			}
			checkMove(c, "energy aware", x, a, conf, 0.1, math.Max(0.5, math.Abs(a.Value)))
		}
	})
}

func TestPulse(t *testing.T) {
	vh.Check(t, 1500, 30, "pulse strategies with any period, polled at generated instants; non-trivial = both a pulse and a pause between pulses were seen", func(c *vh.Case, rt *rapid.T) {
		period := time.Duration(rapid.IntRange(1, 500).Draw(rt, "period")) * time.Millisecond
		x := gen(rt)
		n := rapid.IntRange(1, 30).Draw(rt, "polls")
		waits := make([]time.Duration, n)
		for i := range waits {
			switch vh.Pick(rt, "wk", 4) {
			case 0:
				waits[i] = period
			case 1:
				waits[i] = period - 1
			case 2:
				waits[i] = period + 1
			default:
				waits[i] = time.Duration(rapid.Int64Range(0, int64(2*period)).Draw(rt, "w"))
			}
		}
		c.Desc("period %v amp %v waits %v", period, x.rate, waits)
		fail := ""
		pulses, pauses := 0, 0
		vh.Bubble(t, func() {
			s := strategy.NewPulse(period, x.rate)
			last := time.Duration(0)
			now := time.Duration(0)
			for _, w := range waits {
				time.Sleep(w)
				now += w
				a, conf := s.Propose(x.cur, x.tgt, x.ctx)
				if now-last >= period {
					pulses++
					if a.Type != "pulse" {
						fail = "no pulse although a period has passed since the last one"
						return
					}
					last = now
					checkMove(c, "pulse", x, a, conf, clamp(x.rate), math.Abs(a.Value)*4)
					if !vh.Near(conf, clamp(x.rate), 1e-12) {
						fail = "pulse confidence is not the amplitude"
						return
					}
				} else {
					pauses++
					if a.Type != "maintain" || a.Value != 0 {
						fail = "acts between two pulses"
						return
					}
					if !(conf >= 0 && conf <= 1+1e-9) || a.Cost < 0 {
						fail = "confidence or cost out of range between pulses"
						return
					}
				}
			}
		})
		c.NonTrivial(pulses > 0 && pauses > 0)
		if fail != "" {
			c.Fatalf("%s (period %v, waits %v)", fail, period, waits)
		}
	})
}

type stub struct {
	n    int
	last core.Context
}

func (s *stub) Propose(_, _ core.State, ctx core.Context) (core.Action, float64) {
	s.n++
	s.last = ctx
	return core.Action{Type: "pulse", Value: 0.25, Cost: 7}, 0.75
}
func (*stub) Name() string { return "stub" }

func TestAdaptive(t *testing.T) {
	vh.Check(t, 5000, 40, "1-5 component strategies, any context, optional custom selector incl. out-of-range choices; non-trivial = more than one component", func(c *vh.Case, rt *rapid.T) {
		k := rapid.IntRange(0, 5).Draw(rt, "k")
		subs := make([]*stub, k)
		var list []core.SyncStrategy
		for i := range subs {
			subs[i] = &stub{}
			list = append(list, subs[i])
		}
		x := gen(rt)
		a := strategy.NewAdaptiveStrategy(list)
		var want int
		if rapid.Bool().Draw(rt, "custom") {
			want = rapid.IntRange(-3, 8).Draw(rt, "choice")
			choice := want
			a = a.WithSelector(func(ctx core.Context) int {
				if ctx != x.ctx {
					choice = -999
				}
				return choice
			})
			if want < 0 || want >= k {
				want = 0
			}
		} else {
			switch {
			case x.ctx.Stability > 0.7:
				want = 0
			case x.ctx.LocalCoherence > 0.5:
				want = min(1, k-1)
			default:
				want = min(2, k-1)
			}
		}
		c.Desc("k=%d ctx=%+v want=%d", k, x.ctx, want)
		c.NonTrivial(k > 1)
		act, conf := a.Propose(x.cur, x.tgt, x.ctx)
		if a.Name() != "adaptive" {
			c.Fatalf("name %q", a.Name())
		}
		if k == 0 {
			if act.Type != "maintain" || !(conf >= 0 && conf <= 1+1e-9) {
				c.Fatalf("empty adaptive strategy proposes %+v with %v", act, conf)
			}
			return
		}
		for i, s := range subs {
			if wantN := map[bool]int{true: 1}[i == want]; s.n != wantN {
				c.Fatalf("component %d consulted %d times, selected is %d", i, s.n, want)
			}
		}
		if act != (core.Action{Type: "pulse", Value: 0.25, Cost: 7}) || conf != 0.75 || subs[want].last != x.ctx {
			c.Fatalf("component proposal altered: %+v %v", act, conf)
		}
	})
}
