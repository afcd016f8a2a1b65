// C22: goal configurations stay valid, and tuning goes the documented way.
package c22

import (
	"math"
	"testing"
	"time"

	"github.com/carlisia/bio-adapt/emerge/goal"
	"github.com/carlisia/bio-adapt/emerge/swarm"
	"github.com/carlisia/bio-adapt/emerge/trait"
	"github.com/carlisia/bio-adapt/zzverif/vh"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { vh.Main(m) }

func genGoal(rt *rapid.T) goal.Type {
	if vh.OneIn(rt, "odd", 12) {
		return goal.Type(vh.From(rt, "g", 8, 99, -1))
	}
	return goal.Type(vh.Pick(rt, "goal", 8))
}

// pristine is what each goal gives before anything is tuned.
var pristine = func() map[goal.Type]swarm.Config {
	m := map[goal.Type]swarm.Config{}
	for _, g := range []goal.Type{0, 1, 2, 3, 4, 5, 6, 7, 8, 99, -1} {
		m[g] = *swarm.For(g)
	}
	return m
}()

func genTrait(rt *rapid.T) trait.Target {
	if vh.OneIn(rt, "oddtrait", 12) {
		return trait.Target(vh.From(rt, "t", 6, 77, -1))
	}
	return trait.Target(vh.Pick(rt, "trait", 6))
}

func genSize(rt *rapid.T) int {
	switch vh.Pick(rt, "sizekind", 3) {
	case 0:
		return vh.From(rt, "size", 1, 20, 21, 50, 51, 200, 201, 1000, 1001, 2000)
	case 1:
		return vh.UI(1, 260).Draw(rt, "size")
	default:
		return vh.UI(1, 5000).Draw(rt, "size")
	}
}

func finite(c *vh.Case, cfg *swarm.Config) {
	if err := cfg.Validate(); err != nil {
		c.Fatalf("invalid: %v in %+v", err, *cfg)
	}
	for name, v := range map[string]float64{
		"ToleranceSmall": cfg.Convergence.ToleranceSmall, "ToleranceMedium": cfg.Convergence.ToleranceMedium, "ToleranceLarge": cfg.Convergence.ToleranceLarge,
		"PhaseConvergenceGoal": cfg.Convergence.PhaseConvergenceGoal, "PatternDistanceThreshold": cfg.Convergence.PatternDistanceThreshold,
		"BaseAdjustmentScale": cfg.Convergence.BaseAdjustmentScale, "PhaseVariance": cfg.Thresholds.PhaseVariance,
		"VariationMax": cfg.Variation.BaseRange[1], "MaxIterationsFactor": cfg.Strategy.MaxIterationsFactor,
		"NoiseMagnitude": cfg.Resonance.NoiseMagnitude,
	} {
		if !(v >= 0) || math.IsInf(v, 0) {
			c.Fatalf("%s is %v", name, v)
		}
	}
}

func TestValid(t *testing.T) {
	vh.Check(t, 8000, 20, "a goal, up to 12 traits and sizes applied in any order; non-trivial = at least two steps", func(c *vh.Case, rt *rapid.T) {
		g := genGoal(rt)
		cfg := swarm.For(g)
		c.Desc("goal %d:", g)
		finite(c, cfg)
		steps := vh.UI(0, 12).Draw(rt, "steps")
		if vh.OneIn(rt, "many", 20) {
			steps = 60
		}
		for i := 0; i < steps; i++ {
			var out *swarm.Config
			if vh.OneIn(rt, "size?", 4) {
				n := genSize(rt)
				c.Desc(" size %d", n)
				out = cfg.WithSize(n)
			} else {
				tr := genTrait(rt)
				c.Desc(" trait %v", tr)
				out = cfg.TuneFor(tr)
			}
			if out != cfg {
				c.Fatalf("chaining returned another configuration")
			}
			finite(c, cfg)
		}
		c.NonTrivial(steps >= 2)
		// requests for a goal do not share anything
		if now := *swarm.For(g); now != pristine[g] {
			c.Fatalf("the configuration of goal %d became %+v, it was %+v", g, now, pristine[g])
		}
	})
}

// The documented direction of every trait, relative to the configuration it tunes.
func TestTraits(t *testing.T) {
	vh.Check(t, 6000, 20, "a goal, optional size and traits, then one more trait whose effect is compared; non-trivial = the configuration changed", func(c *vh.Case, rt *rapid.T) {
		cfg := swarm.For(genGoal(rt))
		if vh.OneIn(rt, "resize", 2) {
			cfg.WithSize(genSize(rt))
		}
		for i := vh.Pick(rt, "pre", 4); i > 0; i-- {
			cfg.TuneFor(genTrait(rt))
		}
		old := *cfg
		tr := genTrait(rt)
		c.Desc("%+v trait %v", old, tr)
		cfg.TuneFor(tr)
		n := *cfg
		c.NonTrivial(n != old)
		need := func(ok bool, what string) {
			if !ok {
				c.Fatalf("%v: %s; before %+v after %+v", tr, what, old, n)
			}
		}
		less := func(n, o float64) bool { return n < o || o <= 0 }
		more := func(n, o, limit float64) bool { return n > o || o <= 0 || o >= limit }
		inf := math.Inf(1)
		switch tr {
		case trait.Stability:
			need(less(n.Variation.PerturbationMagnitude, old.Variation.PerturbationMagnitude) && less(n.Resonance.NoiseMagnitude, old.Resonance.NoiseMagnitude) &&
				n.Strategy.UpdateInterval > old.Strategy.UpdateInterval || old.Strategy.UpdateInterval <= 1, "not gentler in every respect")
			need(n.Convergence.BaseAdjustmentScale <= old.Convergence.BaseAdjustmentScale && n.Variation.PerturbationMagnitude <= old.Variation.PerturbationMagnitude &&
				n.Resonance.NoiseMagnitude <= old.Resonance.NoiseMagnitude, "adjustments are not gentler")
			need(n.Strategy.UpdateInterval >= old.Strategy.UpdateInterval, "updates are more frequent")
			need(n.Convergence.BaseAdjustmentScale < old.Convergence.BaseAdjustmentScale || old.Convergence.BaseAdjustmentScale == 0, "no effect")
		case trait.Speed:
			need(more(n.Convergence.BaseAdjustmentScale, old.Convergence.BaseAdjustmentScale, 1) && more(n.Convergence.ToleranceSmall, old.Convergence.ToleranceSmall, inf) && more(n.Convergence.ToleranceMedium, old.Convergence.ToleranceMedium, inf) &&
				more(n.Convergence.ToleranceLarge, old.Convergence.ToleranceLarge, inf) && less(n.Strategy.MaxIterationsFactor, old.Strategy.MaxIterationsFactor), "not faster in every respect")
			need(n.Convergence.BaseAdjustmentScale >= old.Convergence.BaseAdjustmentScale, "adjustments are weaker")
			need(n.Strategy.UpdateInterval < old.Strategy.UpdateInterval || old.Strategy.UpdateInterval <= 1, "updates are not more frequent")
			need(n.Convergence.ToleranceSmall >= old.Convergence.ToleranceSmall && n.Convergence.ToleranceMedium >= old.Convergence.ToleranceMedium && n.Convergence.ToleranceLarge >= old.Convergence.ToleranceLarge, "tolerances are tighter")
			need(n.Strategy.MaxIterationsFactor <= old.Strategy.MaxIterationsFactor, "more iterations")
		case trait.Efficiency:
			need(less(n.Variation.PerturbationChance, old.Variation.PerturbationChance) && less(n.Resonance.AffectedAgents, old.Resonance.AffectedAgents) && less(n.Strategy.ExplorationBonusMax, old.Strategy.ExplorationBonusMax), "not less work in every respect")
			need(n.Strategy.UpdateInterval > old.Strategy.UpdateInterval, "updates are not less frequent")
			need(n.Variation.PerturbationChance <= old.Variation.PerturbationChance && n.Resonance.AffectedAgents <= old.Resonance.AffectedAgents && n.Strategy.ExplorationBonusMax <= old.Strategy.ExplorationBonusMax, "more work")
		case trait.Throughput:
			need(more(n.Convergence.BaseAdjustmentScale, old.Convergence.BaseAdjustmentScale, 1) && more(n.Strategy.RandomExploration, old.Strategy.RandomExploration, inf), "not more in every respect")
			need(n.Convergence.BaseAdjustmentScale >= old.Convergence.BaseAdjustmentScale && n.Strategy.RandomExploration >= old.Strategy.RandomExploration, "less aggressive")
			need(n.Strategy.UpdateInterval < old.Strategy.UpdateInterval || old.Strategy.UpdateInterval <= 1, "updates are not more frequent")
		case trait.Resilience:
			need(more(n.Resonance.NoiseMagnitude, old.Resonance.NoiseMagnitude, inf) && more(n.Resonance.AffectedAgents, old.Resonance.AffectedAgents, 1) && more(n.Resonance.ActivationRate, old.Resonance.ActivationRate, 1) &&
				more(n.Variation.BaseRange[0], old.Variation.BaseRange[0], inf) && more(n.Variation.BaseRange[1], old.Variation.BaseRange[1], inf), "not more redundancy in every respect")
			need(n.Resonance.NoiseMagnitude >= old.Resonance.NoiseMagnitude && n.Resonance.AffectedAgents >= old.Resonance.AffectedAgents && n.Resonance.ActivationRate >= old.Resonance.ActivationRate, "less redundancy")
			need(n.Variation.BaseRange[0] >= old.Variation.BaseRange[0] && n.Variation.BaseRange[1] >= old.Variation.BaseRange[1], "less variation")
		case trait.Precision:
			need(n.Convergence.ToleranceSmall < old.Convergence.ToleranceSmall && n.Convergence.ToleranceMedium < old.Convergence.ToleranceMedium && n.Convergence.ToleranceLarge < old.Convergence.ToleranceLarge, "tolerances are not tighter")
			need(n.Convergence.PatternDistanceThreshold < old.Convergence.PatternDistanceThreshold, "pattern threshold is not tighter")
			need(n.Convergence.PhaseConvergenceGoal >= math.Min(old.Convergence.PhaseConvergenceGoal, 0.98), "phase goal is lower")
		default:
			need(n == old, "an unknown trait changed the configuration")
		}
		// a trait leaves what it does not name alone
		if tr != trait.Speed && tr != trait.Precision {
			need(n.Convergence.ToleranceSmall == old.Convergence.ToleranceSmall && n.Convergence.ToleranceMedium == old.Convergence.ToleranceMedium && n.Convergence.ToleranceLarge == old.Convergence.ToleranceLarge, "tolerances changed")
		}
		need(n.Thresholds == old.Thresholds, "thresholds changed")
		if tr == trait.Precision || tr == trait.Resilience {
			need(n.Strategy == old.Strategy, "timing changed")
		}
	})
}

func TestSizes(t *testing.T) {
	vh.Check(t, 6000, 20, "a goal and tuning adjusted for two swarm sizes; non-trivial = the results differ", func(c *vh.Case, rt *rapid.T) {
		g := genGoal(rt)
		var trs []trait.Target
		for i := vh.Pick(rt, "pre", 3); i > 0; i-- {
			trs = append(trs, genTrait(rt))
		}
		if vh.OneIn(rt, "repeat", 4) { // tuned hard in one direction
			tr := genTrait(rt)
			for i := vh.UI(3, 12).Draw(rt, "times"); i > 0; i-- {
				trs = append(trs, tr)
			}
		}
		mk := func() *swarm.Config {
			cfg := swarm.For(g)
			for _, tr := range trs {
				cfg.TuneFor(tr)
			}
			return cfg
		}
		a, b := genSize(rt), genSize(rt)
		if a > b {
			a, b = b, a
		}
		c.Desc("goal %v traits %v sizes %d %d", g, trs, a, b)
		ca, cb, base := *mk().WithSize(a), *mk().WithSize(b), *mk()
		c.NonTrivial(ca != cb)
		// larger swarms get more time
		if ca.Strategy.MaxIterationsFactor > cb.Strategy.MaxIterationsFactor {
			c.Fatalf("larger swarms get fewer iterations: %v, %v", ca.Strategy.MaxIterationsFactor, cb.Strategy.MaxIterationsFactor)
		}
		if a > 20 && ca.Strategy.UpdateInterval > cb.Strategy.UpdateInterval {
			c.Fatalf("larger swarms update faster: %v, %v", ca.Strategy.UpdateInterval, cb.Strategy.UpdateInterval)
		}
		for n, cfg := range map[int]swarm.Config{a: ca, b: cb} {
			iv := cfg.Strategy.UpdateInterval
			switch {
			case n <= 20 && iv != 20*time.Millisecond, n > 20 && n <= 50 && iv > 50*time.Millisecond, n > 200 && n <= 1000 && iv < 150*time.Millisecond, n > 1000 && iv < 200*time.Millisecond:
				c.Fatalf("%d agents update every %v", n, iv)
			case n > 50 && n <= 200 && cfg != base:
				c.Fatalf("%d agents use the defaults, got %+v", n, cfg)
			}
			wider := func(n, o float64) bool { return n > o || o <= 0 }
			if n > 200 && !(wider(cfg.Convergence.ToleranceLarge, base.Convergence.ToleranceLarge) && wider(cfg.Convergence.ToleranceMedium, base.Convergence.ToleranceMedium) && wider(cfg.Convergence.ToleranceSmall, base.Convergence.ToleranceSmall)) {
				c.Fatalf("%d agents have no more tolerance than the default: %+v, %+v", n, cfg.Convergence, base.Convergence)
			}
			if n > 20 && cfg.Strategy.MaxIterationsFactor < base.Strategy.MaxIterationsFactor {
				c.Fatalf("%d agents get fewer iterations than the default: %v, %v", n, cfg.Strategy.MaxIterationsFactor, base.Strategy.MaxIterationsFactor)
			}
			// a size limits what was asked for, it never adds to it; what it does not name stays
			if cfg.Resonance.AffectedAgents > base.Resonance.AffectedAgents {
				c.Fatalf("%d agents: resonance affects %v of them, %v was asked for", n, cfg.Resonance.AffectedAgents, base.Resonance.AffectedAgents)
			}
			if n > 20 && n <= 50 && iv > base.Strategy.UpdateInterval || n > 200 && iv < base.Strategy.UpdateInterval {
				c.Fatalf("%d agents update every %v, %v was asked for", n, iv, base.Strategy.UpdateInterval)
			}
			if cfg.Thresholds != base.Thresholds || cfg.Variation.PerturbationChance != base.Variation.PerturbationChance ||
				cfg.Convergence.BaseAdjustmentScale != base.Convergence.BaseAdjustmentScale || cfg.Convergence.PhaseConvergenceGoal != base.Convergence.PhaseConvergenceGoal {
				c.Fatalf("%d agents: the size changed other settings: %+v, base %+v", n, cfg, base)
			}
			if n > 1000 && cfg.Resonance.AffectedAgents > 0.05 {
				c.Fatalf("%d agents: %v of them affected by resonance", n, cfg.Resonance.AffectedAgents)
			}
		}
	})
}

// Validate accepts exactly the documented ranges.
func TestValidate(t *testing.T) {
	vh.Check(t, 8000, 20, "a valid configuration with one to three fields set to values around their range limits; non-trivial = it becomes invalid", func(c *vh.Case, rt *rapid.T) {
		cfg := swarm.For(genGoal(rt))
		ok := true
		frac := func(n string) float64 {
			return vh.From(rt, n, 0, 1, 0.5, -1e-9, 1+1e-9, -3, 2)
		}
		in := func(v float64) bool { return v >= 0 && v <= 1 }
		for i := vh.UI(1, 3).Draw(rt, "n"); i > 0; i-- {
			switch vh.Pick(rt, "field", 9) {
			case 0:
				cfg.Convergence.BaseAdjustmentScale = frac("v")
			case 1:
				cfg.Convergence.PhaseConvergenceGoal = frac("v")
			case 2:
				cfg.Thresholds.ModerateCoherence = frac("v")
			case 3:
				cfg.Thresholds.VeryHighCoherence = frac("v")
			case 4:
				cfg.Variation.BaseRange = [2]float64{frac("a"), frac("b")}
			case 5:
				cfg.Variation.PerturbationChance = frac("v")
			case 6:
				cfg.Strategy.UpdateInterval = time.Duration(vh.From(rt, "iv", 0, -1, 1, int64(time.Hour)))
			case 7:
				cfg.Strategy.ExplorationTimeWindow = time.Duration(vh.From(rt, "w", 0, -1, 1, int64(time.Hour)))
			default:
				if vh.OneIn(rt, "which", 2) {
					cfg.Resonance.AffectedAgents = frac("v")
				} else {
					cfg.Resonance.ActivationRate = frac("v")
				}
			}
		}
		ok = in(cfg.Convergence.BaseAdjustmentScale) && in(cfg.Convergence.PhaseConvergenceGoal) &&
			cfg.Thresholds.ModerateCoherence <= cfg.Thresholds.HighCoherence && cfg.Thresholds.HighCoherence <= cfg.Thresholds.VeryHighCoherence &&
			cfg.Variation.BaseRange[0] >= 0 && cfg.Variation.BaseRange[0] <= cfg.Variation.BaseRange[1] && in(cfg.Variation.PerturbationChance) &&
			cfg.Strategy.UpdateInterval > 0 && cfg.Strategy.ExplorationTimeWindow > 0 && in(cfg.Resonance.AffectedAgents) && in(cfg.Resonance.ActivationRate)
		c.Desc("%+v", *cfg)
		c.NonTrivial(!ok)
		before := *cfg
		if err := cfg.Validate(); (err == nil) != ok {
			c.Fatalf("valid: %v, Validate: %v", ok, err)
		}
		if *cfg != before {
			c.Fatalf("Validate changed the configuration")
		}
	})
}
