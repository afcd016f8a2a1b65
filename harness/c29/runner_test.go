// C29: the dashboard does what the documented keys say, shows the simulation as it is
// and always comes to an orderly end.
package c29

import (
	"context"
	"errors"
	"fmt"
	"math"
	"os"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/carlisia/bio-adapt/emerge/goal"
	"github.com/carlisia/bio-adapt/emerge/scale"
	"github.com/carlisia/bio-adapt/simulations/display"
	"github.com/carlisia/bio-adapt/simulations/emerge/simulation"
	"github.com/carlisia/bio-adapt/simulations/emerge/simulation/pattern"
	"github.com/carlisia/bio-adapt/simulations/emerge/ui"
	"github.com/carlisia/bio-adapt/zzverif/vh"
	"github.com/mum4k/termdash/keyboard"
	"github.com/mum4k/termdash/terminal/terminalapi"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) {
	vh.SetCaseCPU(300)
	vh.Main(m)
}

// The documented keys (docs/simulations/dashboard.md), lower case.
var (
	scaleKeys   = map[rune]scale.Size{'1': scale.Tiny, '2': scale.Small, '3': scale.Medium, '4': scale.Large, '5': scale.Huge}
	goalKeys    = map[rune]goal.Type{'b': goal.MinimizeAPICalls, 'l': goal.DistributeLoad, 'c': goal.ReachConsensus, 't': goal.MinimizeLatency, 'e': goal.SaveEnergy, 'm': goal.MaintainRhythm, 'f': goal.RecoverFromFailure, 'a': goal.AdaptToTraffic}
	patternKeys = map[rune]pattern.Type{'h': pattern.HighFrequency, 'u': pattern.Burst, 'y': pattern.Steady, 'x': pattern.Mixed, 'z': pattern.Sparse}
	events      = map[rune]display.EventType{
		'q': display.EventQuit, 'r': display.EventReset, 'd': display.EventDisrupt, 'p': display.EventPause, ' ': display.EventResume,
		'1': display.ScaleTiny, '2': display.ScaleSmall, '3': display.ScaleMedium, '4': display.ScaleLarge, '5': display.ScaleHuge,
		'b': display.GoalBatch, 'l': display.GoalLoad, 'c': display.GoalConsensus, 't': display.GoalLatency, 'e': display.GoalEnergy, 'm': display.GoalRhythm, 'f': display.GoalFailure, 'a': display.GoalTraffic,
		'h': display.PatternHighFreq, 'u': display.PatternBurst, 'y': display.PatternSteady, 'x': display.PatternMixed, 'z': display.PatternSparse,
	}
)

var documented = []rune("qrdp 12345blctemfahuyxz")

func press(kb *display.KeyboardController, k rune) {
	kb.ProcessKey(&terminalapi.Keyboard{Key: keyboard.Key(k)})
}

func genKey(rt *rapid.T) rune {
	k := documented[vh.Pick(rt, "key", len(documented))]
	if vh.OneIn(rt, "any", 6) {
		k = vh.From(rt, "char", 'g', 'i', 'j', 'k', 'n', 'o', 's', 'v', 'w', '0', '6', '7', '-', '?', 'é', '\r', '\t', rune(keyboard.KeyF1), rune(keyboard.KeyArrowUp), rune(keyboard.KeyEnter))
	}
	if vh.OneIn(rt, "upper", 3) {
		k = []rune(strings.ToUpper(string(k)))[0]
	}
	return k
}

func lower(k rune) rune {
	if k == rune(keyboard.KeyEsc) {
		return 'q'
	}
	return []rune(strings.ToLower(string(k)))[0]
}

func TestKeys(t *testing.T) {
	vh.Check(t, 1500, 20, "random sequences of key presses and readings of the keyboard controller, whose queue holds ten events; non-trivial = the queue overflowed and a documented key was delivered", func(c *vh.Case, rt *rapid.T) {
		ctl := display.NewKeyboardController()
		kb := ctl.(*display.KeyboardController)
		var queue []display.EventType
		over, got := false, false
		read := func() {
			select {
			case e := <-ctl.Events():
				if len(queue) == 0 {
					c.Fatalf("event %v out of nothing", e.Type)
				}
				if e.Type != queue[0] {
					c.Fatalf("event %v, want %v", e.Type, queue[0])
				}
				queue = queue[1:]
				got = true
			default:
				if len(queue) > 0 {
					c.Fatalf("no event, want %v", queue)
				}
			}
		}
		for i := vh.UI(1, 60).Draw(rt, "n"); i > 0; i-- {
			if vh.OneIn(rt, "read", 4) {
				c.Desc(" read")
				read()
				continue
			}
			k := genKey(rt)
			if vh.OneIn(rt, "esc", 30) {
				k = rune(keyboard.KeyEsc)
			}
			c.Desc(" %q", k)
			done := make(chan bool)
			go func() { press(kb, k); close(done) }()
			select {
			case <-done:
			case <-time.After(30 * time.Second):
				c.Fatalf("key %q blocked", k)
			}
			if ev, ok := events[lower(k)]; ok {
				if len(queue) < 10 {
					queue = append(queue, ev)
				} else {
					over = true
				}
			}
		}
		for len(queue) > 0 {
			read()
		}
		read()
		c.NonTrivial(over && got)
	})
}

// TestShortKeys: the keys that goals and patterns announce are the ones that work.
func TestShortKeys(t *testing.T) {
	vh.Check(t, 30, 2, "the short keys announced by goals and patterns, in either case; non-trivial = every case", func(c *vh.Case, rt *rapid.T) {
		ctl := display.NewKeyboardController()
		upper := vh.OneIn(rt, "upper", 2)
		c.Desc("%v", upper)
		try := func(key string, want display.EventType) {
			if upper {
				key = strings.ToUpper(key)
			}
			if len([]rune(key)) != 1 {
				c.Fatalf("short key %q", key)
			}
			press(ctl.(*display.KeyboardController), []rune(key)[0])
			select {
			case e := <-ctl.Events():
				if e.Type != want {
					c.Fatalf("key %q gives %v, want %v", key, e.Type, want)
				}
			default:
				c.Fatalf("key %q does nothing", key)
			}
		}
		for k, g := range goalKeys {
			try(g.ShortKey(), events[k])
		}
		for k, p := range patternKeys {
			try(p.ShortKey(), events[k])
		}
		c.NonTrivial(true)
	})
}

// TestControllers: the automated controller plays its script in order and on time, the
// network controller stays silent.
func TestControllers(t *testing.T) {
	vh.Check(t, 300, 10, "scripts of up to 40 events with delays, read at once or late, in virtual time; non-trivial = more than ten events", func(c *vh.Case, rt *rapid.T) {
		n := vh.UI(0, 40).Draw(rt, "n")
		var script []display.ControlEvent
		var delays []time.Duration
		var at []time.Duration
		sum := time.Duration(0)
		for i := range n {
			script = append(script, display.ControlEvent{Type: display.EventType(vh.UI(0, 22).Draw(rt, "type")), Data: i})
		}
		for range vh.UI(0, n).Draw(rt, "delays") {
			delays = append(delays, time.Duration(vh.UI(0, 5000).Draw(rt, "ms"))*time.Millisecond)
		}
		for i := range n {
			if i < len(delays) {
				sum += delays[i]
			}
			at = append(at, sum)
		}
		late := time.Duration(vh.UI(0, 1).Draw(rt, "late")*vh.UI(0, 9000).Draw(rt, "lag")) * time.Millisecond
		c.Desc("%d events, delays %v, read after %v", n, delays, late)
		vh.Bubble(t, func() {
			t0 := time.Now()
			ctl := display.NewAutomatedController(script, delays)
			net := display.NewNetworkController("nowhere")
			time.Sleep(late)
			for i := range script {
				select {
				case e := <-ctl.Events():
					if e.Type != script[i].Type || e.Data != script[i].Data {
						c.Fatalf("event %d is %+v, want %+v", i, e, script[i])
					}
				case <-time.After(time.Hour):
					c.Fatalf("event %d never came", i)
				}
				if d := time.Since(t0); late == 0 && d != at[i] || d < at[i] {
					c.Fatalf("event %d came after %v, want %v", i, d, at[i])
				}
			}
			select {
			case e := <-ctl.Events():
				c.Fatalf("another event %+v", e)
			case e := <-net.Events():
				c.Fatalf("event %+v from the network", e)
			case <-time.After(time.Minute):
			}
		})
		c.NonTrivial(n > 10)
	})
}

// screen is a display that records what it is told.
type screen struct {
	mu      sync.Mutex
	log     []string
	updates int
	first   time.Time
	last    time.Time
	initErr error
	runErr  error
	runFor  time.Duration // with runErr
	sim     *simulation.Simulation
	bad     string
	stats   display.Statistics
}

func (s *screen) add(x string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.log = append(s.log, x)
}
func (s *screen) Initialize() error { s.add("init"); return s.initErr }
func (s *screen) Close() error      { s.add("close"); return errors.New("closed") }
func (s *screen) ShowWelcome()      { s.add("welcome") }
func (s *screen) ShowSummary(x display.Statistics) {
	s.add("summary")
	s.stats = x
}
func (s *screen) Run(ctx context.Context, _ *display.KeyboardController) error {
	s.add("run")
	if s.runErr != nil {
		select {
		case <-ctx.Done():
			return nil
		case <-time.After(s.runFor):
			return s.runErr
		}
	}
	<-ctx.Done()
	return nil
}
func (s *screen) Update(x display.SimulationSnapshot) {
	y := s.sim.Snapshot()
	s.mu.Lock()
	defer s.mu.Unlock()
	s.updates++
	if s.first.IsZero() {
		s.first = time.Now()
	}
	s.last = time.Now()
	if d := differ(x, y); d != "" && s.bad == "" {
		s.bad = d
	}
}

// differ compares fields of the same name.
func differ(shown, real any) string {
	a, b := reflect.ValueOf(shown), reflect.ValueOf(real)
	for i := range a.NumField() {
		name := a.Type().Field(i).Name
		f, g := a.Field(i), b.FieldByName(name)
		if !g.IsValid() {
			return "no field " + name
		}
		if name == "Agents" {
			if f.Len() != g.Len() {
				return fmt.Sprintf("%d workloads, %d", f.Len(), g.Len())
			}
			for k := range f.Len() {
				if d := differ(f.Index(k).Interface(), g.Index(k).Interface()); d != "" {
					return d
				}
			}
			continue
		}
		if x, ok := f.Interface().(float64); ok { // summed in any order
			if !vh.Near(x, g.Float(), 1e-9*(1+math.Abs(x))) {
				return fmt.Sprintf("%s shown as %v, is %v", name, x, g.Float())
			}
			continue
		}
		if !reflect.DeepEqual(f.Interface(), g.Interface()) {
			return fmt.Sprintf("%s shown as %v, is %v", name, f.Interface(), g.Interface())
		}
	}
	return ""
}

const tick = 10 * time.Microsecond

func TestRunner(t *testing.T) {
	vh.Check(t, 300, 10, "dashboards with any goal, scale up to 50 and pattern under random key presses, with a time limit, an ending context or a failing display, in virtual time; non-trivial = ended by a key after at least one other key had an effect", func(c *vh.Case, rt *rapid.T) {
		vh.SeedEntropy(vh.Seed64(rt, "seed"))
		g, sc := goal.Type(vh.UI(0, 7).Draw(rt, "goal")), vh.From(rt, "scale", scale.Tiny, scale.Tiny, scale.Small)
		p := pattern.Type(vh.UI(1, 5).Draw(rt, "pattern"))
		cfg := ui.RunnerConfig{CurrentGoal: g, CurrentScale: sc, CurrentPattern: p}
		cfg.UpdateInterval = time.Duration(vh.UI(5, 2000).Draw(rt, "interval"))*time.Millisecond + 13*time.Microsecond + 7
		if vh.OneIn(rt, "limited", 3) {
			cfg.Timeout = time.Duration(vh.UI(1, 40000).Draw(rt, "timeout"))*time.Millisecond + 777*time.Microsecond
		}
		c.Desc("%+v:", cfg)
		vh.Bubble(t, func() {
			sim, err := simulation.New(simulation.BuildConfig{Goal: g, Scale: sc, Pattern: p, TargetCoherence: 0.7})
			if err != nil {
				c.Fatalf("%v", err)
			}
			scr := &screen{sim: sim}
			switch vh.Pick(rt, "fault", 8) {
			case 6:
				scr.initErr = errors.New("no screen")
			case 7:
				scr.runErr = errors.New("screen broke")
				scr.runFor = time.Duration(vh.UI(0, 20000).Draw(rt, "runFor"))*time.Millisecond + 333*time.Microsecond
			}
			var ctl display.Controller = display.NewKeyboardController()
			kb := ctl.(*display.KeyboardController)
			if vh.OneIn(rt, "other", 15) {
				ctl = display.NewNetworkController("nowhere")
			}
			ctx, cancel := context.WithCancel(context.Background())
			defer cancel()
			done := make(chan *ui.RunResult, 1)
			t0 := time.Now()
			var ended time.Time
			go func() {
				r := ui.NewRunner(cfg, sim, scr, ctl).Run(ctx)
				ended = time.Now()
				done <- r
			}()
			var res *ui.RunResult
			over := func() bool {
				if res == nil {
					select {
					case res = <-done:
					default:
					}
				}
				return res != nil
			}
			time.Sleep(tick)
			paused, effects, byKey := false, 0, false
			var want display.EventType
			var deadline time.Time // when it has to end at the latest
			early := func() bool { // ends for a reason other than a key
				return scr.initErr != nil || ctl != kb
			}
			limit := func() time.Duration {
				l := time.Duration(math.MaxInt64)
				if cfg.Timeout > 0 {
					l = cfg.Timeout
				}
				if scr.runErr != nil {
					l = min(l, scr.runFor)
				}
				return l
			}
			for i := vh.UI(1, 25).Draw(rt, "keys"); i > 0 && !early() && !byKey; i-- {
				time.Sleep(time.Duration(vh.UI(0, 3000).Draw(rt, "wait"))*time.Millisecond + 137*tick)
				if time.Since(t0) >= limit()-time.Millisecond {
					break
				}
				if over() {
					c.Fatalf("ended after %v: %+v", ended.Sub(t0), res)
				}
				k := genKey(rt)
				switch vh.Pick(rt, "kind", 10) {
				case 0, 1, 2, 3, 4, 5:
					k = vh.From(rt, "control", 'p', 'r', 'd', ' ', 'P', 'R', 'D')
				case 6, 7: // what is there already
					for x, s := range scaleKeys {
						if s == sc {
							k = x
						}
					}
					for x, y := range goalKeys {
						if y == g && vh.OneIn(rt, "goal", 2) {
							k = x
						}
					}
					for x, y := range patternKeys {
						if y == p && vh.OneIn(rt, "pattern", 2) {
							k = x
						}
					}
				}
				c.Desc(" %q", k)
				before := sim.Snapshot()
				press(kb, k)
				time.Sleep(tick)
				after := sim.Snapshot()
				k = lower(k)
				reset, hit := false, 0
				for i := range after.Agents {
					if vh.CircDist(after.Agents[i].Phase, before.Agents[i].Phase) > 3 {
						hit++
					}
				}
				switch ev, ok := events[k]; {
				case !ok:
				case k == 'q':
					byKey = true
				case k == 'p':
					paused = !paused
					effects++
				case k == ' ':
					paused = false
				case k == 'r':
					reset = !paused
					if reset {
						effects++
						if !after.Reset || after.ElapsedTime != tick || after.PendingTasks != 0 || after.BatchesProcessed != 0 {
							c.Fatalf("no reset: %v %v %v %v", after.Reset, after.ElapsedTime, after.PendingTasks, after.BatchesProcessed)
						}
						hit = 0
					}
				case k == 'd':
					if !paused {
						effects++
						if !after.Disrupted || hit < len(after.Agents)/5 {
							c.Fatalf("no disruption, %d moved", hit)
						}
						hit = 0
					}
				default: // a switch
					s, okS := scaleKeys[k]
					gg, okG := goalKeys[k]
					pp, okP := patternKeys[k]
					if okS && s != sc || okG && gg != g || okP && pp != p {
						want, byKey = ev, true
					}
				}
				if !byKey {
					if after.Paused != paused {
						c.Fatalf("paused %v after %q, want %v", after.Paused, k, paused)
					}
					if !reset && after.ElapsedTime != before.ElapsedTime+tick || after.Disrupted && !before.Disrupted && k != 'd' || hit > 0 && before.Paused == after.Paused {
						c.Fatalf("%q changed the simulation (paused %v, %d phases moved): %v %v", k, paused, hit, before.ElapsedTime, after.ElapsedTime)
					}
				}
			}
			switch {
			case byKey || early():
				deadline = time.Now()
			case limit() < math.MaxInt64:
				deadline = t0.Add(limit())
			default:
				c.Desc(" cancel")
				cancel()
				deadline = time.Now()
			}
			if byKey && vh.OneIn(rt, "more", 3) {
				press(kb, genKey(rt)) // too late for anything
			}
			time.Sleep(time.Until(deadline) + 10*time.Second)
			if !over() {
				c.Fatalf("still running after %v", time.Since(t0))
			}
			if ended.After(deadline.Add(tick)) {
				c.Fatalf("ended %v late", ended.Sub(deadline))
			}
			scr.mu.Lock()
			log := strings.Join(scr.log, " ")
			updates, bad, first := scr.updates, scr.bad, scr.first
			scr.mu.Unlock()
			failed := scr.initErr != nil || ctl != kb || scr.runErr != nil && !byKey && (cfg.Timeout == 0 || scr.runFor < cfg.Timeout) && ended.Equal(t0.Add(scr.runFor))
			wantLog := "init welcome run summary close"
			switch {
			case scr.initErr != nil:
				wantLog = "init"
			case ctl != kb:
				wantLog = "init welcome close"
			case failed, want != 0:
				wantLog = "init welcome run close"
			}
			if log != wantLog {
				c.Fatalf("the display saw %q, want %q", log, wantLog)
			}
			if (res.Error != nil) != failed || res.ScaleEvent != want {
				c.Fatalf("result %+v, want event %v, an error: %v", res, want, failed)
			}
			if scr.initErr != nil && !errors.Is(res.Error, scr.initErr) || failed && ctl == kb && scr.initErr == nil && !errors.Is(res.Error, scr.runErr) {
				c.Fatalf("error %v", res.Error)
			}
			if bad != "" {
				c.Fatalf("the display was shown %s", bad)
			}
			if !early() {
				n := int(ended.Sub(t0) / cfg.UpdateInterval)
				if updates < n-1 || updates > n || n > 1 && first.Sub(t0) != cfg.UpdateInterval {
					c.Fatalf("%d updates in %v with an interval of %v, the first after %v", updates, ended.Sub(t0), cfg.UpdateInterval, first.Sub(t0))
				}
			}
			if strings.Contains(wantLog, "summary") {
				if d := differ(scr.stats, sim.Statistics()); d != "" && !paused && !strings.HasPrefix(d, "Total") && !strings.HasPrefix(d, "Cost") && !strings.HasPrefix(d, "Average") && !strings.HasPrefix(d, "Savings") {
					c.Fatalf("summary: %s", d)
				}
			}
			// nothing goes on after the end
			a := sim.Snapshot()
			time.Sleep(35 * time.Second)
			b := sim.Snapshot()
			for i := range a.Agents {
				if a.Agents[i] != b.Agents[i] {
					c.Fatalf("after the end %+v became %+v", a.Agents[i], b.Agents[i])
				}
			}
			if n := scr.updates; n != updates {
				c.Fatalf("%d more updates", n-updates)
			}
			c.NonTrivial(byKey && effects > 0)
		})
	})
}

var line = regexp.MustCompile(`^\[(\d+)([sm])\] Coherence: (-?[\d.]+)% \| Savings: \$(-?[\d.]+) \((-?[\d.]+)%\) \| Batches: (\d+)$`)

// TestText: the text display prints the numbers it is given, at most once a second.
func TestText(t *testing.T) {
	vh.Check(t, 200, 10, "series of random snapshots and a final summary sent to the text display at random moments, in virtual time; non-trivial = some updates suppressed and some printed", func(c *vh.Case, rt *rapid.T) {
		out, err := os.CreateTemp("", "c29-")
		vh.Must(err == nil, "%v", err)
		defer os.Remove(out.Name())
		defer out.Close()
		old := os.Stdout
		defer func() { os.Stdout = old }()
		d := display.NewTextDisplay()
		name := vh.From(rt, "name", "", "TINY SWARM", "x y z")
		var wantLines []display.SimulationSnapshot
		var stats display.Statistics
		skipped := 0
		vh.Bubble(t, func() {
			defer func() { os.Stdout = old }()
			os.Stdout = out
			if name != "" {
				d.(*display.TextDisplay).SetSimulationName(name)
			}
			if err := d.Initialize(); err != nil {
				c.Fatalf("%v", err)
			}
			d.ShowWelcome()
			last := time.Time{}
			for i := vh.UI(0, 20).Draw(rt, "n"); i > 0; i-- {
				time.Sleep(time.Duration(vh.UI(0, 1500).Draw(rt, "ms")) * time.Millisecond)
				x := display.SimulationSnapshot{
					ElapsedTime:      time.Duration(vh.UI(0, 600000).Draw(rt, "elapsed")) * time.Millisecond,
					Coherence:        vh.UF(0, 1).Draw(rt, "coherence"),
					Savings:          vh.UF(-10, 1000).Draw(rt, "savings"),
					SavingsPercent:   vh.UF(-100, 100).Draw(rt, "percent"),
					BatchesProcessed: vh.UI(0, 10000).Draw(rt, "batches"),
				}
				d.Update(x)
				c.Desc("%v %v;", time.Now().UnixMilli(), x.BatchesProcessed)
				if last.IsZero() || time.Since(last) >= time.Second {
					last = time.Now()
					wantLines = append(wantLines, x)
				} else {
					skipped++
				}
			}
			stats = display.Statistics{TotalAPICalls: vh.UI(0, 99999).Draw(rt, "calls"), TotalBatches: vh.UI(0, 9999).Draw(rt, "b"), AverageBatchSize: vh.UF(0, 100).Draw(rt, "avg"), TotalSavings: vh.UF(0, 1000).Draw(rt, "s"), SavingsPercent: vh.UF(0, 100).Draw(rt, "sp"), PeakCoherence: vh.UF(0, 1).Draw(rt, "peak")}
			ctx, cancel := context.WithTimeout(context.Background(), time.Duration(vh.UI(0, 5000).Draw(rt, "run"))*time.Millisecond)
			defer cancel()
			dl, _ := ctx.Deadline()
			if err := d.Run(ctx, nil); err != nil || !time.Now().Equal(dl) {
				c.Fatalf("run: %v", err)
			}
			d.ShowSummary(stats)
			if err := d.Close(); err != nil {
				c.Fatalf("%v", err)
			}
		})
		b, err := os.ReadFile(out.Name())
		vh.Must(err == nil, "%v", err)
		text := string(b)
		if name != "" && !strings.Contains(text, name) {
			c.Fatalf("no %q in %q", name, text)
		}
		num := func(s string) float64 { f, err := strconv.ParseFloat(s, 64); vh.Must(err == nil, "%v", err); return f }
		var got [][]string
		for _, l := range strings.Split(text, "\n") {
			if m := line.FindStringSubmatch(l); m != nil {
				got = append(got, m)
			} else if strings.Contains(l, "Batches: ") {
				c.Fatalf("line %q", l)
			}
		}
		if len(got) != len(wantLines) {
			c.Fatalf("%d lines, want %d", len(got), len(wantLines))
		}
		for i, m := range got {
			w := wantLines[i]
			el, unit := num(m[1]), 1.0
			if m[2] == "m" {
				unit = 60
			}
			if math.Abs(el*unit-w.ElapsedTime.Seconds()) > unit || math.Abs(num(m[3])-100*w.Coherence) > 0.0501 || math.Abs(num(m[4])-w.Savings) > 0.00501 || math.Abs(num(m[5])-w.SavingsPercent) > 0.0501 || num(m[6]) != float64(w.BatchesProcessed) {
				c.Fatalf("line %q for %+v", m[0], w)
			}
		}
		for _, s := range []string{
			fmt.Sprintf(" %d\n", stats.TotalAPICalls), fmt.Sprintf(" %d\n", stats.TotalBatches), fmt.Sprintf("%.1f\n", stats.AverageBatchSize),
			fmt.Sprintf("$%.2f (%.1f%%)", stats.TotalSavings, stats.SavingsPercent), fmt.Sprintf("%.1f%%\n", stats.PeakCoherence*100),
		} {
			if !strings.Contains(text, s) {
				c.Fatalf("no %q in the summary %q", s, text)
			}
		}
		c.NonTrivial(skipped > 0 && len(got) > 1)
	})
}
