package c27

import (
	"testing"
	"time"

	"github.com/carlisia/bio-adapt/simulations/emerge/simulation"
	"github.com/carlisia/bio-adapt/zzverif/vh"
	"pgregory.net/rapid"
)

// TestFlags: what is shown as disrupted or reset, on a simulation that stands still, so
// that nothing but the operations changes its coherence.
func TestFlags(t *testing.T) {
	vh.Check(t, 300, 12, "simulations that stand still, disrupted and reset at random moments up to a minute apart, in virtual time; non-trivial = a flag raised again while it was up", func(c *vh.Case, rt *rapid.T) {
		vh.SeedEntropy(vh.Seed64(rt, "seed"))
		cfg := genConfig(rt)
		c.Desc("%+v:", cfg)
		n := vh.UI(1, 10).Draw(rt, "ops")
		vh.Bubble(t, func() {
			s, err := simulation.New(cfg)
			if err != nil {
				c.Fatalf("%v", err)
			}
			var disrupted, reset time.Time
			var wellAt time.Time // since when the coherence has been at the target while disrupted
			maybe, again := false, false // maybe: it was there, so the flag may be down
			look := func() {
				x := s.Snapshot()
				now := time.Now()
				well := x.Coherence >= cfg.TargetCoherence+1e-9
				ill := x.Coherence < cfg.TargetCoherence-1e-9
				up := !disrupted.IsZero() && now.Sub(disrupted) < 30*time.Second
				switch {
				case disrupted.IsZero() || now.Sub(disrupted) > 30200*time.Millisecond:
					if x.Disrupted {
						c.Fatalf("shown as disrupted %v after the last disruption", now.Sub(disrupted))
					}
				case up && ill && !maybe && !x.Disrupted:
					c.Fatalf("no longer shown as disrupted %v after the last disruption, at coherence %v of %v", now.Sub(disrupted), x.Coherence, cfg.TargetCoherence)
				case well && !wellAt.IsZero() && now.Sub(wellAt) > 250*time.Millisecond && x.Disrupted:
					c.Fatalf("still shown as disrupted, %v after it recovered", now.Sub(wellAt))
				}
				if d := now.Sub(reset); x.Reset != (!reset.IsZero() && d < 2*time.Second) {
					c.Fatalf("reset flag %v, %v after the last reset", x.Reset, d)
				}
			}
			for ; n > 0; n-- {
				switch op := vh.Pick(rt, "op", 4); {
				case op == 0:
					c.Desc(" disrupt")
					if !disrupted.IsZero() && time.Since(disrupted) < 29*time.Second {
						again = true
					}
					s.Disrupt()
					disrupted, wellAt, maybe = time.Now(), time.Time{}, false
				case op == 1:
					c.Desc(" reset")
					if !reset.IsZero() && time.Since(reset) < 2*time.Second {
						again = true
					}
					s.Reset()
					reset, wellAt = time.Now(), time.Time{}
				}
				if s.Snapshot().Coherence > cfg.TargetCoherence-1e-9 && wellAt.IsZero() {
					wellAt, maybe = time.Now(), true
				}
				d := time.Duration(vh.UI(0, 5000).Draw(rt, "wait"))*time.Millisecond + 3*time.Microsecond
				if vh.OneIn(rt, "long", 3) {
					d *= 12
				}
				c.Desc(" wait %v", d)
				for d > 0 {
					look()
					w := min(d, 1900*time.Millisecond+11*time.Microsecond)
					time.Sleep(w)
					d -= w
				}
				look()
			}
			c.NonTrivial(again)
			time.Sleep(time.Minute)
			look()
		})
	})
}
