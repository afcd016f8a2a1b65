// C24: the client builds the swarm it was asked for, however it is asked.
package c24

import (
	"context"
	"errors"
	"fmt"
	"math"
	"reflect"
	"sort"
	"testing"
	"time"

	"github.com/carlisia/bio-adapt/client/emerge"
	"github.com/carlisia/bio-adapt/emerge/agent"
	"github.com/carlisia/bio-adapt/emerge/goal"
	"github.com/carlisia/bio-adapt/emerge/scale"
	"github.com/carlisia/bio-adapt/emerge/swarm"
	"github.com/carlisia/bio-adapt/zzverif/vh"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) {
	vh.SetCaseCPU(300)
	vh.Main(m)
}

// documented defaults of each scale
var counts = map[scale.Size]int{scale.Tiny: 20, scale.Small: 50, scale.Medium: 200, scale.Large: 1000, scale.Huge: 2000}
var targets = map[scale.Size]float64{scale.Tiny: .9, scale.Small: .85, scale.Medium: .75, scale.Large: .65, scale.Huge: .55}

type want struct {
	g      goal.Type
	s      scale.Size
	target float64 // 0: the scale's default
}

func (w want) coherence() float64 {
	if w.target > 0 {
		return w.target
	}
	return targets[w.s]
}

func genScale(rt *rapid.T) scale.Size {
	switch {
	case vh.OneIn(rt, "large", 25):
		return vh.From(rt, "scale", scale.Large, scale.Huge)
	case vh.OneIn(rt, "medium", 4):
		return scale.Medium
	}
	return vh.From(rt, "scale", scale.Tiny, scale.Small)
}

func genGoal(rt *rapid.T) goal.Type { return goal.Type(vh.UI(0, 7).Draw(rt, "goal")) }

func genTarget(rt *rapid.T) float64 {
	switch vh.Pick(rt, "target", 3) {
	case 0:
		return vh.From(rt, "target", 1.0, 0.5, 0.9, 0.99, 1e-9)
	}
	return vh.UF(0.01, 1).Draw(rt, "target")
}

// build makes a client along a drawn route.
func build(rt *rapid.T, c *vh.Case) (want, *emerge.Client, error) {
	w := want{g: goal.MinimizeAPICalls, s: scale.Tiny}
	route := vh.Pick(rt, "route", 8)
	switch route {
	case 0:
		c.Desc("Default()")
		cl, err := emerge.Default()
		return w, cl, err
	case 1:
		w.s = genScale(rt)
		c.Desc("MinimizeAPICalls(%v)", w.s)
		cl, err := emerge.MinimizeAPICalls(w.s)
		return w, cl, err
	case 2:
		w.g, w.s = goal.DistributeLoad, genScale(rt)
		c.Desc("DistributeLoad(%v)", w.s)
		cl, err := emerge.DistributeLoad(w.s)
		return w, cl, err
	case 3, 4: // functional options, in any order, repeated
		var opts []emerge.Option
		for i := vh.Pick(rt, "opts", 5); i > 0; i-- {
			switch vh.Pick(rt, "opt", 3) {
			case 0:
				w.g = genGoal(rt)
				opts = append(opts, emerge.WithGoalOption(w.g))
				c.Desc("WithGoalOption(%d) ", w.g)
			case 1:
				w.s = genScale(rt)
				opts = append(opts, emerge.WithScaleOption(w.s))
				c.Desc("WithScaleOption(%v) ", w.s)
			case 2:
				w.target = genTarget(rt)
				opts = append(opts, emerge.WithCoherenceOption(w.target))
				c.Desc("WithCoherenceOption(%v) ", w.target)
			}
		}
		cl, err := emerge.NewWithOptions(opts...)
		return w, cl, err
	}
	b := emerge.New()
	if vh.OneIn(rt, "custom", 2) {
		b = emerge.Custom()
	}
	for i := vh.Pick(rt, "calls", 6); i > 0; i-- {
		switch vh.Pick(rt, "call", 3) {
		case 0:
			w.g = genGoal(rt)
			b = b.WithGoal(w.g)
			c.Desc("WithGoal(%d) ", w.g)
		case 1:
			w.s = genScale(rt)
			b = b.WithScale(w.s)
			c.Desc("WithScale(%v) ", w.s)
		case 2:
			w.target = genTarget(rt)
			if vh.OneIn(rt, "zero", 4) {
				w.target = vh.From(rt, "none", 0.0, -1, -0.3)
			}
			b = b.WithTargetCoherence(w.target)
			c.Desc("WithTargetCoherence(%v) ", w.target)
		}
	}
	cl, err := b.Build()
	if err == nil && vh.OneIn(rt, "twice", 4) { // a builder can be used again
		c.Desc("again ")
		first := cl
		cl, err = b.Build()
		if err == nil && (cl == first || cl.Swarm() == first.Swarm() || cl.Config() == first.Config()) {
			c.Fatalf("two clients of one builder share their swarm or configuration")
		}
		if err == nil {
			first.Config().Strategy.UpdateInterval = 77
			for _, a := range first.Agents() {
				a.SetPhase(1)
			}
		}
	}
	return w, cl, err
}

func check(c *vh.Case, w want, cl *emerge.Client) {
	n := counts[w.s]
	if cl.Size() != n || cl.Swarm().Size() != n || len(cl.Agents()) != n {
		c.Fatalf("%d agents for %v", cl.Size(), w.s)
	}
	if want := swarm.For(w.g).WithSize(n); !reflect.DeepEqual(want, cl.Config()) {
		c.Fatalf("goal %d at %d agents configured as\n%+v\nnot as the goal's preset\n%+v", w.g, n, *cl.Config(), *want)
	}
	if cl.IsConverged() != cl.Swarm().IsConverged() || cl.Coherence() != cl.Swarm().CurrentCoherence() {
		c.Fatalf("client and swarm disagree")
	}
	if cl.IsConverged() {
		c.Fatalf("converged before it was started")
	}
	for id, a := range cl.Agents() {
		if b, ok := cl.Swarm().Agent(id); !ok || a != b {
			c.Fatalf("%s is not the swarm's agent", id)
		}
	}
}

func sorted(cl *emerge.Client) []*agent.Agent {
	var l []*agent.Agent
	for _, a := range cl.Agents() {
		l = append(l, a)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].ID < l[j].ID })
	return l
}

// TestBuild checks what was built, then starts it from phases whose coherence is known
// and whose agents already beat at the target's rhythm, which shows whether the first
// measurement meets the goal: that pins the target coherence, phase and rhythm.
func TestBuild(t *testing.T) {
	vh.Check(t, 2500, 8, "clients built by convenience functions, builder calls and options in any order (sometimes twice), probed with one measurement in virtual time; non-trivial = at least two settings differ from the defaults, and the probe is within 0.3 of the target", func(c *vh.Case, rt *rapid.T) {
		vh.SeedEntropy(vh.Seed64(rt, "seed"))
		w, cl, err := build(rt, c)
		if err != nil || cl == nil {
			c.Fatalf("%+v: %v", w, err)
		}
		check(c, w, cl)
		cl.Stop() // documented as having no effect
		n := cl.Size()
		cfg := cl.Config()
		target := math.Min(w.coherence(), swarm.GetCoherenceLimits(n).Practical)
		tol := cfg.Convergence.ToleranceLarge
		if n < 50 {
			tol = cfg.Convergence.ToleranceMedium
		}
		if target >= swarm.GetCoherenceLimits(n).Practical*0.95 {
			tol *= 2
		}
		// phases ±x around 0: order cos x
		r := math.Max(0, math.Min(1, target-tol+vh.UF(-0.3, 0.3).Draw(rt, "gap")))
		if vh.OneIn(rt, "edge", 2) {
			r = math.Max(0, math.Min(1, target-tol+vh.UF(-0.02, 0.02).Draw(rt, "gap")))
		}
		x := math.Acos(r)
		if r < 1e-3 {
			return
		}
		dist := 0.3 * math.Abs(target-r)
		met := math.Min(r-(target-tol), cfg.Convergence.PatternDistanceThreshold-dist)
		if target >= cfg.Thresholds.HighCoherence {
			met = math.Min(met, 1-x/math.Pi-cfg.Convergence.PhaseConvergenceGoal)
		}
		c.Desc(" probe %v met %v", r, met)
		var err2 error
		vh.Bubble(t, func() {
			// built anew inside the bubble, from the settings alone
			inner, err := emerge.New().WithGoal(w.g).WithScale(w.s).WithTargetCoherence(w.target).Build()
			if err != nil {
				c.Fatalf("%v", err)
			}
			use := inner
			if n <= 100 { // no helper goroutines outlive construction: the original can be used
				use = cl
			}
			for i, a := range sorted(use) {
				a.SetPhase(core(x, i))
				a.SetFrequency(time.Second)
			}
			ctx, cancel := context.WithTimeout(context.Background(), cfg.Strategy.UpdateInterval*3/2)
			defer cancel()
			t0 := time.Now()
			err2 = use.Start(ctx)
			took := time.Since(t0)
			if met > 1e-6 && (err2 != nil || took != cfg.Strategy.UpdateInterval) {
				c.Fatalf("coherence %v at the target's phase and rhythm meets the target %v: Start returned %v after %v", r, target, err2, took)
			}
			if met < -1e-6 && (!errors.Is(err2, context.DeadlineExceeded) || took != cfg.Strategy.UpdateInterval*3/2) {
				c.Fatalf("coherence %v misses the target %v by %v: Start returned %v after %v", r, target, -met, err2, took)
			}
			if err2 == nil && (!use.IsConverged() || !vh.Near(use.Coherence(), r, 1e-9)) {
				c.Fatalf("after success: converged %v, coherence %v, measured %v", use.IsConverged(), use.Coherence(), r)
			}
			if use.Coherence() != use.Swarm().CurrentCoherence() || use.IsConverged() != use.Swarm().IsConverged() {
				c.Fatalf("client and swarm disagree after the start")
			}
		})
		d := 0
		if w.g != goal.MinimizeAPICalls {
			d++
		}
		if w.s != scale.Tiny {
			d++
		}
		if w.target > 0 {
			d++
		}
		c.Label(fmt.Sprintf("met=%v", met > 0))
		c.NonTrivial(d >= 2)
	})
}

func core(x float64, i int) float64 {
	if i%2 == 0 {
		return x
	}
	return vh.Wrap(-x)
}

// TestReject: targets outside (0, 1] are refused by the option; above 1 by the builder
// too; and an option's error stops the build.
func TestReject(t *testing.T) {
	vh.Check(t, 2000, 8, "invalid target coherences through options and builder, options that fail at any position; non-trivial = a failing option among others", func(c *vh.Case, rt *rapid.T) {
		bad := vh.From(rt, "bad", 0, -0.5, 1.0000001, 2, math.Inf(1), math.Inf(-1), -1e-12)
		c.Desc("%v", bad)
		sc, g := vh.From(rt, "scale", scale.Tiny, scale.Small), genGoal(rt)
		if cl, err := emerge.NewWithOptions(emerge.WithGoalOption(g), emerge.WithScaleOption(sc), emerge.WithCoherenceOption(bad)); err == nil || cl != nil {
			c.Fatalf("option accepted a target of %v", bad)
		}
		if bad > 1 {
			if cl, err := emerge.New().WithScale(sc).WithTargetCoherence(bad).Build(); err == nil || cl != nil {
				c.Fatalf("builder accepted a target of %v", bad)
			}
		}
		mine := errors.New("mine")
		pos, n := vh.Pick(rt, "pos", 4), vh.Pick(rt, "n", 4)
		ran := 0
		var opts []emerge.Option
		for i := 0; i <= pos+n; i++ {
			i := i
			opts = append(opts, func(*emerge.Builder) error {
				ran++
				if i == pos {
					return mine
				}
				return nil
			})
		}
		cl, err := emerge.NewWithOptions(opts...)
		if cl != nil || !errors.Is(err, mine) {
			c.Fatalf("failing option %d of %d: client %v, error %v", pos, pos+n+1, cl, err)
		}
		c.NonTrivial(pos > 0 && n > 0)
	})
}
