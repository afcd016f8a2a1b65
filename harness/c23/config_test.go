// C23: swarm configuration: validation, normalisation and scaling.
package c23

import (
	"strings"
	"errors"
	"math"
	"testing"
	"time"

	"github.com/carlisia/bio-adapt/emerge/swarm"
	"github.com/carlisia/bio-adapt/internal/config"
	"github.com/carlisia/bio-adapt/zzverif/vh"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { vh.Main(m) }

func genSize(rt *rapid.T) int {
	switch vh.Pick(rt, "sizekind", 4) {
	case 0:
		return vh.From(rt, "size", 1, 2, 9, 10, 19, 20, 30, 31, 99, 100, 101, 200, 201, 999, 1000, 1001, 1000000)
	case 1:
		return vh.UI(1, 3000).Draw(rt, "size")
	case 2:
		return vh.UI(1, 1000000).Draw(rt, "size")
	default:
		return vh.UI(1, 120).Draw(rt, "size")
	}
}

func genConfig(rt *rapid.T, size int) config.Swarm {
	pf := func(n string) float64 {
		return vh.From(rt, n, 0, 1, 0.5, 0.3, 0.9, 0.05, -2, 7, 1+1e-12, -1e-12, math.NaN(), math.Inf(1))
	}
	in := func(n string) int { return vh.From(rt, n, 0, 1, 2, 5, size-1, size, size+7, -3, math.MinInt, math.MaxInt) }
	cc := func(n string) int { return vh.From(rt, n, 0, 1, 5, 100, -1, math.MaxInt) }
	dur := func(n string) time.Duration {
		return time.Duration(vh.From(rt, n, 0, 1, int64(time.Millisecond), int64(time.Second), -5, math.MinInt64))
	}
	return config.Swarm{
		ConnectionProbability: pf("cp"), CouplingStrength: pf("cs"), Stubbornness: pf("st"),
		BasinStrength: pf("bs"), BaseConfidence: pf("bc"), InfluenceDefault: pf("inf"),
		MaxNeighbors: in("maxn"), MinNeighbors: in("minn"), AssumedMaxNeighbors: vh.From(rt, "assumed", 0, 1, 20, size),
		InitialEnergy: vh.From(rt, "energy", 0, 100, 1, 37.5, 1e6, -4, math.NaN()), BasinWidth: vh.From(rt, "bw", 0, math.Pi, 7, -1, math.NaN()),
		MaxSwarmSize: vh.From(rt, "maxsize", 0, 0, 0, -1, size, size-1, size+1, 1e6), MaxConcurrentAgents: cc("mca"), BatchSize: cc("batch"), WorkerPoolSize: cc("wps"),
		UseBatchProcessing: vh.OneIn(rt, "ubp", 2), AgentUpdateInterval: dur("aui"), MonitoringInterval: dur("mi"),
		ConnectionOptimThreshold: cc("cot"), EnableConnectionOptim: vh.OneIn(rt, "eco", 3), AutoScale: vh.OneIn(rt, "as", 2),
	}
}

// faults lists the settings that are out of their documented range.
func faults(c config.Swarm, size int) (f []string) {
	add := func(bad bool, n string) {
		if bad {
			f = append(f, n)
		}
	}
	p := func(v float64) bool { return !(v >= 0 && v <= 1) }
	add(size <= 0, "swarmSize")
	add(c.MaxSwarmSize > 0 && size > c.MaxSwarmSize, "MaxSwarmSize")
	add(p(c.ConnectionProbability), "ConnectionProbability")
	add(p(c.CouplingStrength), "CouplingStrength")
	add(p(c.Stubbornness), "Stubbornness")
	add(p(c.BasinStrength), "BasinStrength")
	add(p(c.BaseConfidence), "BaseConfidence")
	add(p(c.InfluenceDefault), "InfluenceDefault")
	switch {
	case size == 1:
		add(c.MaxNeighbors != 0, "MaxNeighbors")
	case size > 1:
		add(c.MaxNeighbors < 1 || c.MaxNeighbors > size-1, "MaxNeighbors")
	default:
		add(c.MaxNeighbors < 1, "MaxNeighbors")
	}
	add(c.MinNeighbors < 0 || c.MinNeighbors > c.MaxNeighbors, "MinNeighbors")
	add(!(c.InitialEnergy > 0), "InitialEnergy")
	add(!(c.BasinWidth > 0), "BasinWidth")
	add(c.AgentUpdateInterval <= 0, "AgentUpdateInterval")
	add(c.MonitoringInterval <= 0, "MonitoringInterval")
	add(c.MaxConcurrentAgents < 0, "MaxConcurrentAgents")
	add(c.BatchSize < 0, "BatchSize")
	add(c.WorkerPoolSize < 0, "WorkerPoolSize")
	add(c.ConnectionOptimThreshold < 0, "ConnectionOptimThreshold")
	return
}

func TestNormalize(t *testing.T) {
	vh.Check(t, 12000, 20, "any configuration, most with several settings out of range, for any swarm size; non-trivial = something is out of range", func(c *vh.Case, rt *rapid.T) {
		size := genSize(rt)
		if vh.OneIn(rt, "badsize", 15) {
			size = vh.From(rt, "size", 0, -1, math.MinInt)
		}
		cfg := genConfig(rt, size)
		if vh.OneIn(rt, "start", 3) { // a usable one with few faults
			keep := cfg
			cfg = config.AutoScaleConfig(max(size, 1))
			switch vh.Pick(rt, "field", 6) {
			case 0:
				cfg.MinNeighbors = keep.MinNeighbors
			case 1:
				cfg.Stubbornness = keep.Stubbornness
			case 2:
				cfg.WorkerPoolSize = keep.WorkerPoolSize
			case 3:
				cfg.UseBatchProcessing, cfg.BatchSize = true, keep.BatchSize
			case 4:
				cfg.MaxNeighbors = keep.MaxNeighbors
			}
		}
		c.Desc("size %d %+v", size, cfg)
		bad := faults(cfg, size)
		c.NonTrivial(len(bad) > 0)
		orig := cfg
		err := cfg.Validate(size)
		if (err != nil) != (len(bad) > 0) {
			c.Fatalf("out of range: %v, Validate: %v", bad, err)
		}
		if err != nil {
			var ve config.ValidationErrors
			if !errors.As(err, &ve) {
				c.Fatalf("not a list of validation errors: %T", err)
			}
			for _, b := range bad { // the message names every field at fault
				if !strings.Contains(err.Error(), b) {
					c.Fatalf("%s is out of range and not in the message %q", b, err)
				}
			}
			if strings.TrimSpace(config.ValidationErrors{}.Error()) == "" {
				c.Fatalf("no message for an empty list")
			}
			named := map[string]bool{}
			for _, e := range ve {
				named[e.Field] = true
			}
			for _, b := range bad {
				if !named[b] {
					c.Fatalf("%s is out of range and not reported: %v", b, err)
				}
				delete(named, b)
			}
			if len(named) > 0 {
				c.Fatalf("reported although in range: %v", named)
			}
		}
		same := func(a, b config.Swarm) bool { // NaN equals NaN
			f := func(x *float64) {
				if math.IsNaN(*x) {
					*x = -12345
				}
			}
			for _, p := range []*config.Swarm{&a, &b} {
				f(&p.ConnectionProbability)
				f(&p.CouplingStrength)
				f(&p.Stubbornness)
				f(&p.BasinStrength)
				f(&p.BaseConfidence)
				f(&p.InfluenceDefault)
				f(&p.InitialEnergy)
				f(&p.BasinWidth)
			}
			return a == b
		}
		if !same(cfg, orig) {
			c.Fatalf("Validate changed the configuration to %+v", cfg)
		}
		err = cfg.NormalizeAndValidate(size)
		hopeless := size <= 0 || orig.MaxSwarmSize > 0 && size > orig.MaxSwarmSize
		if (err != nil) != hopeless {
			c.Fatalf("NormalizeAndValidate: %v", err)
		}
		if err != nil {
			return
		}
		if f := faults(cfg, size); len(f) > 0 {
			c.Fatalf("still out of range after normalisation: %v in %+v", f, cfg)
		}
		want := orig
		clamp := func(v *float64) {
			if !(*v >= 0) {
				*v = 0
			} else if *v > 1 {
				*v = 1
			}
		}
		clamp(&want.ConnectionProbability)
		clamp(&want.CouplingStrength)
		clamp(&want.Stubbornness)
		clamp(&want.BasinStrength)
		clamp(&want.BaseConfidence)
		clamp(&want.InfluenceDefault)
		want.MaxNeighbors = max(min(1, size-1), min(want.MaxNeighbors, size-1))
		want.MinNeighbors = max(0, min(want.MinNeighbors, want.MaxNeighbors))
		if !(want.InitialEnergy > 0) {
			want.InitialEnergy = cfg.InitialEnergy // any positive default
		}
		if !(want.BasinWidth > 0) {
			want.BasinWidth = cfg.BasinWidth
		}
		if want.AgentUpdateInterval <= 0 {
			want.AgentUpdateInterval = cfg.AgentUpdateInterval
		}
		if want.MonitoringInterval <= 0 {
			want.MonitoringInterval = cfg.MonitoringInterval
		}
		want.MaxConcurrentAgents = max(0, want.MaxConcurrentAgents)
		want.ConnectionOptimThreshold = max(0, want.ConnectionOptimThreshold)
		want.BatchSize, want.WorkerPoolSize = max(0, want.BatchSize), max(0, want.WorkerPoolSize)
		if want.UseBatchProcessing {
			if want.BatchSize == 0 {
				want.BatchSize = max(10, size/50)
			}
			if want.WorkerPoolSize == 0 {
				want.WorkerPoolSize = max(4, min(100, size/20))
			}
		}
		if cfg != want {
			c.Fatalf("normalised to %+v, expected %+v", cfg, want)
		}
		again := cfg
		if err := again.NormalizeAndValidate(size); err != nil || again != cfg {
			c.Fatalf("normalising twice: %v %+v", err, again)
		}
	})
}

func TestScaling(t *testing.T) {
	vh.Check(t, 8000, 20, "automatic and batching configurations for any swarm size and batch window, and two sizes compared; non-trivial = at least 10 agents", func(c *vh.Case, rt *rapid.T) {
		size := genSize(rt)
		window := time.Duration(vh.From(rt, "window", 0, 1, int64(99*time.Millisecond), int64(100*time.Millisecond), int64(500*time.Millisecond), int64(501*time.Millisecond), int64(time.Hour)))
		c.Desc("size %d window %v", size, window)
		c.NonTrivial(size >= 10)
		a := config.AutoScaleConfig(size)
		if a != swarm.AutoScaleConfig(size) || swarm.ConfigForBatching(size, window) != config.ForBatching(size, window) {
			c.Fatalf("the two entry points differ")
		}
		if !a.AutoScale || a.AssumedMaxNeighbors != 0 {
			c.Fatalf("auto scaled: %+v", a)
		}
		if size > 1 {
			// usable as it is, but for limits that a small swarm cannot hold
			if f := faults(a, size); len(f) > 0 && !(len(f) == 1 && f[0] == "MinNeighbors") {
				c.Fatalf("automatic configuration is out of range: %v in %+v", f, a)
			}
		}
		b := config.ForBatching(size, window)
		for what, cfg := range map[string]config.Swarm{"auto": a, "batching": b} {
			if err := cfg.NormalizeAndValidate(size); err != nil || len(faults(cfg, size)) > 0 {
				c.Fatalf("%s: %v %v", what, err, faults(cfg, size))
			}
			if cfg.InitialEnergy != 100 {
				c.Fatalf("%s: energy %v", what, cfg.InitialEnergy)
			}
			if size > 1 && cfg.MinNeighbors < 1 || size > 2 && cfg.MinNeighbors < 1 {
				c.Fatalf("%s: agents may stay alone: %+v", what, cfg)
			}
		}
		// batching wants a stronger pull than the plain configuration
		if b.Stubbornness > a.Stubbornness+0.02 || b.InfluenceDefault < a.InfluenceDefault || b.ConnectionProbability < math.Min(0.75, a.ConnectionProbability)-0.11 {
			c.Fatalf("batching %+v, plain %+v", b, a)
		}
		if size > 30 && b.CouplingStrength < a.CouplingStrength*0.95 {
			c.Fatalf("batching couples weaker: %v, plain %v", b.CouplingStrength, a.CouplingStrength)
		}
		// a shorter window never weakens the coupling
		longer := window + time.Duration(vh.UI(0, 2e9).Draw(rt, "more"))
		if l := config.ForBatching(size, longer); l.CouplingStrength > b.CouplingStrength || l.Stubbornness < b.Stubbornness {
			c.Fatalf("window %v couples with %v, window %v with %v", window, b.CouplingStrength, longer, l.CouplingStrength)
		}
		// coupling falls with the size beyond 100, so the total pull stays bounded
		if size > 100 {
			if x := a.CouplingStrength * float64(size) / 100; !(x > 0.3 && x <= 1) {
				c.Fatalf("coupling %v for %d agents", a.CouplingStrength, size)
			}
		}
		// very small swarms are fully connected; a larger swarm is tended less
		// often, pulled less hard, connected less densely and batched sooner
		if size > 1 && size < 10 && (a.ConnectionProbability != 1 || a.MinNeighbors != size-1 || a.MaxNeighbors != size-1) {
			c.Fatalf("%d agents are not fully connected: %+v", size, a)
		}
		if a.MaxSwarmSize > 0 && a.MaxSwarmSize < size {
			c.Fatalf("limit %d for %d agents", a.MaxSwarmSize, size)
		}
		if size < 100 && a.UseBatchProcessing || size >= 1000 && !(a.UseBatchProcessing && a.EnableConnectionOptim && a.ConnectionOptimThreshold <= size) {
			c.Fatalf("%d agents: %+v", size, a)
		}
		if a.UseBatchProcessing && (a.BatchSize < 1 || a.WorkerPoolSize < 1 || a.BatchSize > size) {
			c.Fatalf("batches of %d by %d workers for %d agents", a.BatchSize, a.WorkerPoolSize, size)
		}
		if n := genSize(rt); n > size {
			o := config.AutoScaleConfig(n)
			if size > 100 && o.CouplingStrength > a.CouplingStrength || o.ConnectionProbability > a.ConnectionProbability ||
				o.BasinStrength > a.BasinStrength || o.BasinWidth > a.BasinWidth || o.BaseConfidence > a.BaseConfidence ||
				o.Stubbornness < a.Stubbornness && n < 100 || o.AgentUpdateInterval < a.AgentUpdateInterval || o.MonitoringInterval < a.MonitoringInterval ||
				a.UseBatchProcessing && !o.UseBatchProcessing || a.UseBatchProcessing && (o.BatchSize < a.BatchSize || o.WorkerPoolSize < a.WorkerPoolSize) {
				c.Fatalf("%d agents: %+v, %d agents: %+v", n, o, size, a)
			}
		}
		// batch windows: the fast ones pull harder and resist less than the
		// medium ones, those harder than the slow ones
		fast, mid, slow := config.ForBatching(size, 50*time.Millisecond), config.ForBatching(size, 300*time.Millisecond), config.ForBatching(size, time.Second)
		if !(fast.CouplingStrength > mid.CouplingStrength && mid.CouplingStrength > slow.CouplingStrength && fast.Stubbornness < mid.Stubbornness && mid.Stubbornness <= slow.Stubbornness) {
			c.Fatalf("%d agents: fast %+v, medium %+v, slow %+v", size, fast, mid, slow)
		}
		if size > 30 && (mid.CouplingStrength < math.Min(0.8, a.CouplingStrength*1.1) || mid.Stubbornness > a.Stubbornness/2) {
			c.Fatalf("%d agents: batching couples with %v against %v, plain with %v against %v", size, mid.CouplingStrength, mid.Stubbornness, a.CouplingStrength, a.Stubbornness)
		}
	})
}

func TestAgentSettings(t *testing.T) {
	vh.Check(t, 4000, 20, "the agent settings derived from any normalised swarm configuration; every case is non-trivial", func(c *vh.Case, rt *rapid.T) {
		size := genSize(rt)
		cfg := genConfig(rt, size)
		cfg.MaxSwarmSize = 0
		if err := cfg.NormalizeAndValidate(size); err != nil {
			c.Fatalf("%v", err)
		}
		c.Desc("%+v", cfg)
		c.NonTrivial(true)
		a := config.AgentFromSwarm(cfg)
		if a.InitialEnergy != cfg.InitialEnergy || a.MaxTokens != cfg.InitialEnergy || a.Influence != cfg.InfluenceDefault ||
			a.Stubbornness != cfg.Stubbornness || a.StrategyRate != cfg.CouplingStrength || a.AssumedMaxNeighbors != cfg.AssumedMaxNeighbors {
			c.Fatalf("agent settings %+v", a)
		}
		if !a.RandomizePhase || !a.RandomizeLocalGoal || !a.RandomizeFrequency {
			c.Fatalf("members of a swarm do not start at random: %+v", a)
		}
		for _, s := range []string{a.DecisionMakerType, a.GoalManagerType, a.ResourceManagerType, a.StrategyType} {
			if s == "" {
				c.Fatalf("a component is not named: %+v", a)
			}
		}
	})
}
