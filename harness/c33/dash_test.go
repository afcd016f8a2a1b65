// C33: the terminal dashboard shows what the simulation reports. The real
// dashboard is drawn on a simulated terminal and read back, panel by panel.
package c33

import (
	"context"
	"fmt"
	"math"
	"regexp"
	"strconv"
	"strings"
	"testing"
	"time"
	_ "unsafe" // linkname

	"github.com/gdamore/tcell/v2"
	"github.com/mattn/go-runewidth"
	"pgregory.net/rapid"

	"github.com/carlisia/bio-adapt/emerge/goal"
	"github.com/carlisia/bio-adapt/emerge/scale"
	"github.com/carlisia/bio-adapt/simulations/display"
	"github.com/carlisia/bio-adapt/simulations/emerge/simulation/pattern"
	"github.com/carlisia/bio-adapt/zzverif/vh"
)

// the terminal library's own hook for tests: what it opens as the terminal
//
//go:linkname newScreen github.com/mum4k/termdash/terminal/tcell.tcellNewScreen
var newScreen func() (tcell.Screen, error)

func TestMain(m *testing.M) { vh.SetCaseCPU(60); vh.Main(m) }

// wide enough for the longest bar; the welcome text needs more lines
var screenW, screenH = 390, 78

var goals = []goal.Type{goal.MinimizeAPICalls, goal.DistributeLoad, goal.ReachConsensus, goal.MinimizeLatency,
	goal.SaveEnergy, goal.MaintainRhythm, goal.RecoverFromFailure, goal.AdaptToTraffic}
var scales = []scale.Size{scale.Tiny, scale.Small, scale.Medium, scale.Large, scale.Huge}
var patterns = []pattern.Type{pattern.HighFrequency, pattern.Burst, pattern.Steady, pattern.Mixed, pattern.Sparse}

type dash struct {
	c    *vh.Case
	sc   tcell.SimulationScreen
	d    *display.TerminalDisplay
	kc   *display.KeyboardController
	stop func()
}

// sized makes the simulated terminal large when it is opened.
type sized struct{ tcell.SimulationScreen }

func (s sized) Init() error {
	err := s.SimulationScreen.Init()
	s.SetSize(screenW, screenH)
	return err
}

// bubble runs fn on a virtual clock; the terminal library leaves goroutines of
// its own behind when it ends, which is no concern of this property.
func bubble(t *testing.T, fn func()) {
	defer func() {
		if p := recover(); p != nil && !strings.Contains(fmt.Sprint(p), "main bubble goroutine has exited") {
			panic(p)
		}
	}()
	vh.Bubble(t, fn)
}

func start(c *vh.Case, before func(*display.TerminalDisplay)) *dash {
	h := &dash{c: c}
	newScreen = func() (tcell.Screen, error) {
		h.sc = tcell.NewSimulationScreen("UTF-8")
		return sized{h.sc}, nil
	}
	h.d = display.NewTerminalDisplay().(*display.TerminalDisplay)
	if before != nil {
		before(h.d)
	}
	if err := h.d.Initialize(); err != nil {
		c.Fatalf("Initialize: %v", err)
	}
	h.kc = display.NewKeyboardController().(*display.KeyboardController)
	ctx, cancel := context.WithCancel(context.Background())
	done := make(chan error, 1)
	go func() { done <- h.d.Run(ctx, h.kc) }()
	h.stop = func() {
		cancel()
		if err := <-done; err != nil {
			c.Fatalf("Run: %v", err)
		}
		if err := h.d.Close(); err != nil {
			c.Fatalf("Close: %v", err)
		}
		time.Sleep(10 * time.Millisecond)
	}
	return h
}

// cellAt is one character of the screen.
type cellAt struct {
	r  rune
	st tcell.Style
}

// drawn waits for the next redraw and returns the panels by title.
func (h *dash) drawn() map[string][][]cellAt {
	time.Sleep(110 * time.Millisecond)
	cells, w, hh := h.sc.GetContents()
	at := func(x, y int) cellAt {
		if x < 0 || y < 0 || x >= w || y >= hh || len(cells[y*w+x].Runes) == 0 {
			return cellAt{r: ' '}
		}
		return cellAt{cells[y*w+x].Runes[0], cells[y*w+x].Style}
	}
	out := map[string][][]cellAt{}
	for y := 0; y < hh; y++ {
		for x := 0; x < w; x++ {
			if r := at(x, y).r; r != '┌' && r != '╭' {
				continue
			}
			var title strings.Builder
			x2 := x + 1
			for ; x2 < w; x2++ {
				r := at(x2, y).r
				if r == '┐' || r == '╮' {
					break
				}
				if r != '─' {
					title.WriteRune(r)
				}
			}
			y2 := y + 1
			for ; y2 < hh; y2++ {
				if r := at(x, y2).r; r == '└' || r == '╰' {
					break
				}
			}
			name := strings.TrimSpace(title.String())
			if name == "" || x2 >= w || y2 >= hh {
				continue
			}
			var lines [][]cellAt
			for yy := y + 1; yy < y2; yy++ {
				var l []cellAt
				for xx := x + 1; xx < x2; xx++ {
					c := at(xx, yy)
					l = append(l, c)
					if runewidth.RuneWidth(c.r) == 2 { // it covers the next cell too
						xx++
						l = append(l, cellAt{' ', c.st})
					}
				}
				lines = append(lines, l)
			}
			out[name] = lines
		}
	}
	return out
}

// str is a panel's text: one space between words, no empty ends of lines.
func str(p [][]cellAt) string {
	var b strings.Builder
	for _, l := range p {
		var s strings.Builder
		for _, c := range l {
			s.WriteRune(c.r)
		}
		b.WriteString(strings.Join(strings.Fields(strings.ReplaceAll(s.String(), "\ufe0f", "")), " ") + "\n")
	}
	return strings.TrimRight(b.String(), "\n")
}

func raw(p [][]cellAt) string {
	var b strings.Builder
	for _, l := range p {
		for _, c := range l {
			fg, bg, _ := c.st.Decompose()
			fmt.Fprintf(&b, "%c%d/%d", c.r, fg, bg)
		}
		b.WriteByte('\n')
	}
	return b.String()
}

// num finds the number the pattern's group matches.
func (h *dash) num(s, re string) float64 {
	m := regexp.MustCompile(re).FindStringSubmatch(s)
	if m == nil {
		h.c.Fatalf("no %s in\n%s", re, s)
	}
	v, err := strconv.ParseFloat(m[1], 64)
	if err != nil {
		h.c.Fatalf("%s matches %q in\n%s", re, m[1], s)
	}
	return v
}

func (h *dash) near(s, re string, want, tol float64) {
	if v := h.num(s, re); math.Abs(v-want) > tol+1e-6 {
		h.c.Fatalf("%s shows %v, should be %v:\n%s", re, v, want, s)
	}
}

// has: exactly one of the alternatives is shown, as a phrase of its own, and it
// is the wanted one.
func (h *dash) has(s, want string, alternatives ...string) {
	for _, a := range append(alternatives, want) {
		// a phrase that contains another one does not count for it
		n := strings.Count(" "+strings.ReplaceAll(s, "\n", " ")+" ", " "+a+" ")
		if (n > 0) != (a == want) {
			h.c.Fatalf("%q is shown %d times, should show %q:\n%s", a, n, want, s)
		}
	}
}

func pick(cond ...any) string {
	for i := 0; i+1 < len(cond); i += 2 {
		if cond[i].(bool) {
			return cond[i+1].(string)
		}
	}
	return cond[len(cond)-1].(string)
}

// tie tells whether a computed share lies on a limit, where rounding decides.
func tie(x float64, limits ...float64) bool {
	for _, l := range limits {
		if math.Abs(x-l) < 1e-9*l {
			return true
		}
	}
	return false
}

// dist is how far a phase is from the beat, in 0..π.
func dist(p float64) float64 { return math.Abs(vh.SignedDiff(p, 0)) }

func indicator(g goal.Type, p float64) string {
	d := dist(p)
	switch g {
	case goal.DistributeLoad, goal.RecoverFromFailure:
		return pick(d < 0.5, "🔴", math.Abs(d-math.Pi) < 0.5 || math.Abs(d-math.Pi/2) < 0.5, "🟢", "🟡")
	case goal.SaveEnergy:
		return pick(d < 0.3, "🟡", math.Abs(d-math.Pi) < 0.5, "🟢", "🔴")
	case goal.ReachConsensus:
		return pick(d < 0.5 || vh.CircDist(p, 2) < 0.5 || vh.CircDist(p, 4) < 0.5, "🟢", "🟡")
	default:
		return pick(d < 0.5, "🟢", d < 1, "🟡", "🔴")
	}
}

// limits are the phases at which something on the screen changes.
var limits = []float64{0.1, 0.3, 0.5, 1, 1.5, 2, 2.5, 3.5, 4, 4.5, math.Pi, math.Pi / 2, math.Pi/2 - 0.5, math.Pi/2 + 0.5, math.Pi - 0.5}

func phase(rt *rapid.T) float64 {
	var p float64
	switch vh.Pick(rt, "phasekind", 4) {
	case 0:
		p = vh.Wrap(vh.UF(-1.2, 1.2).Draw(rt, "near"))
	case 1:
		p = vh.From(rt, "limit", limits...) + vh.From(rt, "side", -0.01, 0.01)
		if vh.OneIn(rt, "mirror", 2) {
			p = 2*math.Pi - p
		}
	default:
		p = vh.UF(0, 2*math.Pi).Draw(rt, "phase")
	}
	for _, l := range limits { // not on a limit itself, nor exactly at the turn
		for _, q := range []float64{l, 2*math.Pi - l} {
			if math.Abs(p-q) < 1e-4 {
				p += 3e-4
			}
		}
	}
	return vh.Wrap(p)
}

var types = []string{"DataETL", "LogAnalysis", "Leader", "Web", "ReportGenerator", "RecommendationEngine", "Cache"}

func snapshot(rt *rapid.T) display.SimulationSnapshot {
	coh := func(n string) float64 {
		if vh.OneIn(rt, n+"edge", 3) {
			x := vh.From(rt, n, 0, 0.3, 0.5, 0.6, 0.7, 0.8, 0.9, 0.95, 1)
			return math.Min(1, math.Max(0, x+vh.From(rt, n+"side", 0, 1e-3, -1e-3, 0)))
		}
		return vh.UF(0, 1).Draw(rt, n)
	}
	s := display.SimulationSnapshot{
		ElapsedTime:     time.Duration(vh.UF(0, 200e9).Draw(rt, "elapsed")),
		Coherence:       coh("coherence"),
		TargetCoherence: coh("target"),
		PendingTasks:    vh.UI(0, 500).Draw(rt, "pending"), CurrentBatchSize: vh.From(rt, "collecting", 0, 1, 7, 120), BatchesProcessed: vh.UI(0, 3000).Draw(rt, "batches"),
		CostWithoutSync: vh.UF(0, 2000).Draw(rt, "without"),
		Savings:         vh.UF(0, 2000).Draw(rt, "savings"), SavingsPercent: vh.UF(0, 100).Draw(rt, "percent"),
		CostWithSync: vh.UF(0, 2000).Draw(rt, "with"),
		Paused:       vh.OneIn(rt, "paused", 3), Disrupted: vh.OneIn(rt, "disrupted", 3), Reset: vh.OneIn(rt, "reset", 3),
		BatchJustSent: vh.OneIn(rt, "sent", 2), LastBatchSize: vh.UI(1, 99).Draw(rt, "last"),
	}
	s.Timestamp = time.Now()
	s.LastBatchTime = s.Timestamp.Add(-time.Duration(vh.UI(0, 90).Draw(rt, "ago")) * time.Second)
	n := vh.From(rt, "n", 1, 2, 5, 10, 11, 20, 21, 36, 60)
	lean := vh.From(rt, "activity", "", "quiet", "burst", "active", "steady")
	together := vh.OneIn(rt, "together", 3)
	p0 := phase(rt)
	for i := range n {
		p := p0
		if !together {
			p = phase(rt)
		}
		act := lean
		if act == "" || vh.OneIn(rt, "other", 3) {
			act = vh.From(rt, "act", "burst", "quiet", "steady", "active")
		}
		s.Agents = append(s.Agents, display.AgentSnapshot{ID: fmt.Sprintf("agent-%d", i), Type: vh.From(rt, "type", types...), Icon: vh.From(rt, "icon", "📊", "🔧", "W"),
			Phase: p, PendingTasks: vh.UI(0, 25).Draw(rt, "p"), BatchesSent: vh.UI(0, 2000).Draw(rt, "b"), InBurstMode: act == "burst", ActivityLevel: act})
	}
	return s
}

// green, yellow and red as this terminal has them: from the legend.
func (h *dash) colours(movement [][]cellAt) map[rune]tcell.Color {
	m := map[rune]tcell.Color{}
	for _, l := range movement {
		s := ""
		for _, c := range l {
			s += string(c.r)
		}
		if strings.Contains(s, "Target") || strings.Contains(s, "Near") {
			for i, c := range l {
				if (c.r == '●' || c.r == 'o' || c.r == '∙') && i+1 < len(l) && l[i+1].r == ' ' && m[c.r] == 0 && (i == 0 || l[i-1].r == ' ') {
					fg, _, _ := c.st.Decompose()
					m[c.r] = fg
				}
			}
		}
	}
	if len(m) != 3 {
		h.c.Fatalf("no legend in\n%s", str(movement))
	}
	return m
}

func (h *dash) check(g goal.Type, name, scaleName, patternName string, s display.SimulationSnapshot) {
	p := h.drawn()
	for _, t := range []string{"CONFIGURATION", "SCENARIO", "WORKLOADS", "METRICS", "TARGET COHERENCE", "CURRENT COHERENCE", "SYNCHRONIZATION COHERENCE", "ECONOMICS", "SWARM DYNAMICS", "SWARM MOVEMENT", "MENU"} {
		if p[t] == nil {
			h.c.Fatalf("no panel %s", t)
		}
	}
	n := float64(len(s.Agents))
	x := s.Coherence

	// CONFIGURATION
	conf := str(p["CONFIGURATION"])
	for _, w := range []string{"Goal: " + name, "Pattern: " + patternName, "Scale: " + scaleName} {
		if !strings.Contains(conf+"\n", strings.Join(strings.Fields(w), " ")+"\n") {
			h.c.Fatalf("no %q in\n%s", w, conf)
		}
	}
	if s.ElapsedTime < time.Minute {
		h.near(conf, `Elapsed: ([0-9.]+)s`, s.ElapsedTime.Seconds(), 0.05)
	} else {
		h.near(conf, `Elapsed: ([0-9.]+)m`, s.ElapsedTime.Minutes(), 0.05)
	}

	// WORKLOADS
	work := str(p["WORKLOADS"])
	var rows []string
	for _, l := range strings.Split(work, "\n") {
		if regexp.MustCompile(`^\S+ \S+ (🟢|🟡|🔴) \d+!? \d+$`).MatchString(l) {
			rows = append(rows, l)
		}
	}
	shown := min(len(s.Agents), 10)
	if len(rows) != shown {
		h.c.Fatalf("%d rows for %d agents:\n%s", len(rows), len(s.Agents), work)
	}
	for i, a := range s.Agents[:shown] {
		ty := a.Type
		if len(ty) > 11 {
			ty = ty[:11]
		}
		want := fmt.Sprintf("%s %s %s %d%s %d", a.Icon, ty, indicator(g, a.Phase), a.PendingTasks, pick(a.PendingTasks > 10, "!", ""), a.BatchesSent)
		if rows[i] != want {
			h.c.Fatalf("agent %d at phase %v, goal %v: %q, should be %q", i, a.Phase, g, rows[i], want)
		}
	}
	if more := regexp.MustCompile(`\.\.\. and (\d+) more`).FindStringSubmatch(work); (more != nil) != (len(s.Agents) > 10) || more != nil && more[1] != strconv.Itoa(len(s.Agents)-10) {
		h.c.Fatalf("of %d agents: %v", len(s.Agents), more)
	}

	// METRICS
	met := str(p["METRICS"])
	for k, v := range map[string]bool{"Paused": s.Paused, "Disrupted": s.Disrupted, "Resetting": s.Reset} {
		if !strings.Contains(met, k+": "+pick(v, "YES", "NO")+"\n") {
			h.c.Fatalf("%s should be %v:\n%s", k, v, met)
		}
	}
	quiet, busy, active := 0.0, 0.0, 0.0
	for _, a := range s.Agents {
		switch a.ActivityLevel {
		case "quiet":
			quiet++
		case "burst":
			busy++
			active++
		case "active":
			active++
		}
	}
	switch g {
	case goal.DistributeLoad:
		h.has(met, "Distribution: "+pick(x > 0.5, "IMBALANCED", x > 0.3, "FAIR", "BALANCED"), "Distribution: IMBALANCED", "Distribution: FAIR", "Distribution: BALANCED")
		h.near(met, `Phase Spread: ([0-9.]+)%`, (1-x)*100, 0.05)
		h.near(met, `Load/Server: ([0-9.]+)%`, 100/n, 0.05)
	case goal.ReachConsensus:
		h.has(met, "Status: "+pick(x >= 0.95, "CONSENSUS!", x >= 0.8, "CONVERGING", "NO CONSENSUS"), "Status: CONSENSUS!", "Status: CONVERGING", "Status: NO CONSENSUS")
		h.near(met, `Agreement: ([0-9.]+)%`, x*100, 0.05)
		h.near(met, `Voting Rounds: ([0-9]+)`, s.ElapsedTime.Seconds()*2, 1)
	case goal.MinimizeLatency:
		h.has(met, "Timing: "+pick(x >= 0.9, "PREDICTABLE", x >= 0.7, "FAIR", "UNPREDICTABLE"), "Timing: PREDICTABLE", "Timing: FAIR", "Timing: UNPREDICTABLE")
		h.near(met, `P50 Latency: ([0-9.]+)ms`, 10, 0.05)
		h.near(met, `P95 Latency: ([0-9.]+)ms`, 10+(1-x)*20, 0.05)
		h.near(met, `Jitter: ±([0-9.]+)ms`, (1-x)*10, 0.05)
	case goal.SaveEnergy:
		idle := quiet / n * 100
		if !tie(idle, 70, 50) {
			h.has(met, "Energy Use: "+pick(idle > 70, "EFFICIENT", idle > 50, "MODERATE", "HIGH DRAIN"), "Energy Use: EFFICIENT", "Energy Use: MODERATE", "Energy Use: HIGH DRAIN")
		}
		h.near(met, `Sensors Idle: ([0-9]+)%`, idle, 0.5)
		h.near(met, `Est. Battery: ([0-9]+)h`, 24*(idle/100+0.5), 0.5)
	case goal.MaintainRhythm:
		h.has(met, "Status: "+pick(x >= 0.9, "ON SCHEDULE", x >= 0.7, "DRIFTING", "OFF SCHEDULE"), "Status: ON SCHEDULE", "Status: DRIFTING", "Status: OFF SCHEDULE")
		h.near(met, `Phase Lock: ([0-9.]+)%`, x*100, 0.05)
		h.near(met, `Timing Drift: ±([0-9]+)ms`, (1-x)*1000, 0.5)
	case goal.RecoverFromFailure:
		h.has(met, "Status: "+pick(s.Disrupted, "RECOVERING", x >= 0.8, "RESILIENT", x >= 0.6, "PARTIAL", "VULNERABLE"), "Status: RECOVERING", "Status: RESILIENT", "Status: PARTIAL", "Status: VULNERABLE")
		h.near(met, `Sync Health: ([0-9.]+)%`, x*100, 0.05)
		if !s.Disrupted {
			h.has(met, "Recovery Time: "+pick(x >= 0.8, "<1s", x >= 0.6, "~2s", "N/A"), "Recovery Time: <1s", "Recovery Time: ~2s", "Recovery Time: N/A")
		} else {
			h.near(met, `Recovery Time: ([0-9.]+)s`, time.Since(s.LastBatchTime).Seconds(), 0.5)
		}
	case goal.AdaptToTraffic:
		load := active / n * 100
		if !tie(load, 30) {
			h.has(met, "Adaptation: "+pick(x >= 0.8 && load > 30, "RESPONSIVE", x >= 0.6, "ADAPTING", "SLOW"), "Adaptation: RESPONSIVE", "Adaptation: ADAPTING", "Adaptation: SLOW")
		}
		h.near(met, `Current Load: ([0-9]+)%`, load, 0.5)
		h.near(met, `Scaled Units: ([0-9]+)/`, active, 0)
		h.near(met, `Scaled Units: [0-9]+/([0-9]+)`, n, 0)
	default:
		h.has(met, pick(x >= 0.9, "🟢 In sync!", x >= 0.7, "🟡 Syncing...", "🔴 Not synced"), "🟢 In sync!", "🟡 Syncing...", "🔴 Not synced")
		h.has(met, pick(x >= 0.9, "(sending together)", x >= 0.7, "(getting aligned)", "(sending separately)"), "(sending together)", "(getting aligned)", "(sending separately)")
		h.near(met, `(?:sync!|Syncing...|synced) ([0-9]+)%`, x*100, 0.5)
		h.near(met, `Sent: ([0-9]+) batches`, float64(s.BatchesProcessed), 0)
		if s.CurrentBatchSize > 0 {
			h.near(met, `Collecting: ([0-9]+) tasks`, float64(s.CurrentBatchSize), 0)
		}
		if strings.Contains(met, "Waiting for tasks") != (s.CurrentBatchSize == 0) || strings.Contains(met, "Collecting:") != (s.CurrentBatchSize > 0) {
			h.c.Fatalf("%d collecting:\n%s", s.CurrentBatchSize, met)
		}
		if strings.Contains(met, "BATCH SENT!") != s.BatchJustSent {
			h.c.Fatalf("just sent %v:\n%s", s.BatchJustSent, met)
		}
		if s.BatchJustSent {
			h.near(met, `BATCH SENT! \(([0-9]+) items\)`, float64(s.LastBatchSize), 0)
		}
	}

	// ECONOMICS
	eco := strings.ReplaceAll(str(p["ECONOMICS"]), "\n", " ")
	h.near(eco, `Without Synchronization: \$([0-9.]+) `, s.CostWithoutSync, 0.005)
	h.near(eco, `With Synchronization: \$([0-9.]+) `, s.CostWithSync, 0.005)
	h.near(eco, `SAVINGS: \$([0-9.]+) `, s.Savings, 0.005)
	h.near(eco, `SAVINGS: \$[0-9.]+ \(([0-9.]+)%\)`, s.SavingsPercent, 0.05)

	// gauges
	cols := h.colours(p["SWARM MOVEMENT"])
	green, red := cols['●'], cols['∙']
	cur, tgt := str(p["CURRENT COHERENCE"]), str(p["TARGET COHERENCE"])
	fill := func(t string) tcell.Color { // the colour the bar has at its left end
		_, bg, _ := p[t][len(p[t])/2][0].st.Decompose()
		return bg
	}
	gauge := func(label string, v float64, tlabel string, tv, tol float64) {
		h.near(cur, `([0-9]+)%`, v, tol)
		h.near(tgt, `([0-9]+)%`, tv, 1)
		if !strings.Contains(cur, label) || !strings.Contains(tgt, tlabel) {
			h.c.Fatalf("no %q or %q in %q, %q", label, tlabel, cur, tgt)
		}
	}
	goodbad := func(v float64, good, bad bool) {
		if v < 5 {
			return // nothing filled
		}
		if f := fill("CURRENT COHERENCE"); good && f != green || bad && f != red {
			h.c.Fatalf("goal %v: coherence %v, target %v, disrupted %v: the gauge of %v is filled with %v (green %v, red %v)", g, x, s.TargetCoherence, s.Disrupted, v, f, green, red)
		}
	}
	T := s.TargetCoherence
	switch g {
	case goal.DistributeLoad:
		gauge("Distribution", (1-x)*100, "Target Spread", (1-T)*100, 1)
		goodbad((1-x)*100, x <= 0.5, x > 0.5)
	case goal.ReachConsensus:
		gauge("Agreement", x*100, "Consensus", 95, 1)
		goodbad(x*100, x > 0.9501, x < 0.7999)
	case goal.MinimizeLatency:
		gauge("Predictability", x*100, "Target", T*100, 1)
		goodbad(x*100, x >= T, x < T-0.0101)
	case goal.SaveEnergy:
		gauge("Idle %", quiet/n*100, "Target Idle", 70, 1)
		goodbad(quiet/n*100, quiet/n > 0.7001, quiet/n < 0.4999)
	case goal.MaintainRhythm:
		gauge("Phase Lock", x*100, "Target", T*100, 1)
		goodbad(x*100, x >= T, x < T-0.0101)
	case goal.RecoverFromFailure:
		v := x * 100
		if s.Disrupted {
			v /= 2
		}
		gauge("System Health", v, "Healthy", 80, 1)
		goodbad(v, v > 80.01, v < 59)
	case goal.AdaptToTraffic:
		u := active / n * 100
		gauge("Utilization", u, "Optimal", 60, 1)
		goodbad(u, u > 40.01 && u < 79.99, u > 91.01)
	default:
		gauge("Sync Level", x*100, "Target", T*100, 1)
		goodbad(x*100, x >= T, x < T)
	}

	// SWARM DYNAMICS
	dyn := str(p["SWARM DYNAMICS"])
	bars := strings.Count(dyn, "█")
	switch g {
	case goal.DistributeLoad:
		var want [4]int
		for _, a := range s.Agents {
			want[int(a.Phase/(math.Pi/2))%4]++
		}
		var got [4]int
		for i := range got {
			got[i] = int(h.num(dyn, fmt.Sprintf(`Server%d:[ █]*([0-9]+)\n`, i+1)))
		}
		turn := -1 // which quarter comes first is a matter of taste
		for k := range 4 {
			ok := true
			for i := range 4 {
				ok = ok && got[i] == want[(i+k)%4]
			}
			if ok {
				turn = k
			}
		}
		if turn < 0 {
			h.c.Fatalf("load %v, agents per quarter %v\n%s", got, want, dyn)
		}
		dev := 0.0
		for _, v := range want {
			dev += (float64(v) - n/4) * (float64(v) - n/4)
		}
		if dev = math.Sqrt(dev / 4); math.Abs(dev-2) > 1e-9 {
			h.has(dyn, "Status: "+pick(dev > 2, "IMBALANCED", "BALANCED"), "Status: BALANCED", "Status: IMBALANCED")
		}
	case goal.ReachConsensus:
		votes := h.num(dyn, `\] ([0-9]+)%`)
		same := true
		for _, a := range s.Agents {
			same = same && a.Phase == s.Agents[0].Phase
		}
		if same && votes != 100 || votes < 100/n-0.51 || votes > 100 {
			h.c.Fatalf("%v%% agree; all the same: %v\n%s", votes, same, dyn)
		}
		if math.Abs(float64(bars)-votes/5) > 1.2 || bars+strings.Count(dyn, "░") != 20 {
			h.c.Fatalf("%d bars for %v%%\n%s", bars, votes, dyn)
		}
		if math.Abs(votes-95) > 0.5 {
			h.has(dyn, pick(votes > 95, "✓ CONSENSUS REACHED!", "⟳ Voting in progress..."), "✓ CONSENSUS REACHED!", "⟳ Voting in progress...")
		}
	case goal.MinimizeLatency:
		var want [5]int
		for _, a := range s.Agents {
			want[min(4, int((10+5*dist(a.Phase))/10))]++
		}
		for i, l := range []string{"0-10ms", "10-20ms", "20-30ms", "30-40ms", "40ms\\+"} {
			if v := h.num(dyn, `(?m)^`+l+` ?:[ █]*([0-9]+)$`); int(v) != want[i] {
				h.c.Fatalf("%s: %v agents, should be %d\n%s", l, v, want[i], dyn)
			}
		}
	case goal.SaveEnergy:
		h.near(dyn, `Sleeping: ([0-9]+) sensors`, quiet, 0)
		h.near(dyn, `Active: ([0-9]+) sensors`, n-quiet, 0)
		h.near(dyn, `\] ([0-9]+)%`, quiet/n*100, 0.5)
		if math.Abs(float64(bars)-quiet/n*20) > 1.01 || bars+strings.Count(dyn, "░") != 20 {
			h.c.Fatalf("%d bars for %v quiet of %v", bars, quiet, n)
		}
		if !tie(quiet/n, 0.7) {
			h.has(dyn, pick(quiet/n > 0.7, "✓ EFFICIENT", "⚠ HIGH DRAIN"), "✓ EFFICIENT", "⚠ HIGH DRAIN")
		}
	case goal.MaintainRhythm:
		on, early, late := 0.0, 0.0, 0.0
		for _, a := range s.Agents {
			switch d := vh.SignedDiff(a.Phase, 0); {
			case math.Abs(d) < 0.1:
				on++
			case d < 0:
				early++
			default:
				late++
			}
		}
		h.near(dyn, `On Schedule: ([0-9]+)/`, on, 0)
		h.near(dyn, `On Schedule: [0-9]+/([0-9]+)`, n, 0)
		top := math.Max(on, math.Max(early, late))
		for r, v := range map[string]float64{"█": on, "◀": early, "▶": late} {
			if k := float64(strings.Count(dyn, r)); math.Abs(k-v/top*15) > 1.01 {
				h.c.Fatalf("%v of %s for %v early, %v on time, %v late\n%s", k, r, early, on, late, dyn)
			}
		}
	case goal.RecoverFromFailure:
		healthy, degraded, failed := 0.0, 0.0, 0.0
		for _, a := range s.Agents {
			switch d := dist(a.Phase); {
			case s.Disrupted && d > 2:
				failed++
			case d > 1:
				degraded++
			default:
				healthy++
			}
		}
		h.near(dyn, `Healthy:[ █]*([0-9]+)`, healthy, 0)
		for l, v := range map[string]float64{"Degraded": degraded, "Failed": failed} {
			if strings.Contains(dyn, l+":") != (v > 0) {
				h.c.Fatalf("%s %v\n%s", l, v, dyn)
			}
			if v > 0 {
				h.near(dyn, l+`:[ █]*([0-9]+)`, v, 0)
			}
		}
		if strings.Contains(dyn, "RECOVERING") != s.Disrupted || strings.Contains(dyn, "FULLY RESILIENT") != (!s.Disrupted && healthy == n) {
			h.c.Fatalf("disrupted %v, %v of %v healthy\n%s", s.Disrupted, healthy, n, dyn)
		}
	case goal.AdaptToTraffic:
		h.near(dyn, `Idle: ([0-9]+) units`, quiet, 0)
		h.near(dyn, `Normal: ([0-9]+) units`, n-quiet-busy, 0)
		h.near(dyn, `Busy: ([0-9]+) units`, busy, 0)
		u := (n - quiet) / n * 100
		h.near(dyn, `\] ([0-9]+)%`, u, 0.5)
		if math.Abs(float64(bars)-u/5) > 1.01 || bars+strings.Count(dyn, "░") != 20 {
			h.c.Fatalf("%d bars for %v%%", bars, u)
		}
		if math.Abs(u-80) > 1e-9 && math.Abs(u-30) > 1e-9 {
			h.has(dyn, pick(u > 80, "⬆ SCALE UP", u < 30, "⬇ SCALE DOWN", "✓ OPTIMAL"), "⬆ SCALE UP", "⬇ SCALE DOWN", "✓ OPTIMAL")
		}
		if math.Abs(x-0.9*T) > 1e-9 {
			h.has(dyn, pick(x >= T, "Agents synchronized!", x >= 0.9*T, "Agents learning...", "Agents scattered."), "Agents synchronized!", "Agents learning...", "Agents scattered.")
		}
	default:
		h.near(dyn, `Sync: ([0-9.]+)%`, x*100, 0.05)
		if strings.Contains(dyn, "✓ BATCHING") != (x >= 0.9) {
			h.c.Fatalf("coherence %v\n%s", x, dyn)
		}
		want, slack := 0.0, 0.0
		for i, a := range s.Agents {
			if v := (math.Sin(a.Phase) + 1) * 4; i < 35 {
				want += math.Floor(v)
				if math.Abs(v-math.Round(v)) < 1e-6 {
					slack++
				}
			}
		}
		if math.Abs(float64(bars)-want) > slack {
			h.c.Fatalf("%d blocks, should be %v\n%s", bars, want, dyn)
		}
	}

	// SWARM MOVEMENT: the first twenty agents at most, each as far as it is
	mov := str(p["SWARM MOVEMENT"])
	mov = mov[:strings.Index(mov, "⊕ Target")]
	kinds := map[string]bool{}
	for _, a := range s.Agents[:min(20, len(s.Agents))] {
		d := dist(a.Phase)
		kinds[pick(d < 0.5, "●", d < 1, "o", "∙")] = true
	}
	total := 0
	for _, k := range []string{"●", "o", "∙"} {
		m := strings.Count(mov, k)
		total += m
		if m > 0 && !kinds[k] {
			h.c.Fatalf("%q is on the map, but no agent is so far off: %v\n%s", k, s.Agents, mov)
		}
	}
	if total > min(20, len(s.Agents)) || total == 0 && x <= 0.5 || !strings.Contains(mov, "⊕") {
		h.c.Fatalf("%d agents on the map of %d, coherence %v\n%s", total, len(s.Agents), x, mov)
	}
}

func TestPanels(t *testing.T) {
	vh.Check(t, 60, 20, "sequences of up to 6 reports for dashboards of any goal, scale and pattern, switched in between; agents at phases biased to the turn and to every limit the panels have; the drawn screen is read back and every panel compared with the report; non-trivial = at least two goals are shown, with reports of more than ten agents", func(c *vh.Case, rt *rapid.T) {
		steps := vh.UI(1, 6).Draw(rt, "steps")
		type step struct {
			g           goal.Type
			sc          scale.Size
			pt          pattern.Type
			name, scale string
			s           display.SimulationSnapshot
		}
		var todo []step
		seen, big := map[goal.Type]bool{}, false
		cur := step{g: vh.From(rt, "goal", goals...), sc: vh.From(rt, "scale", scales...), pt: vh.From(rt, "pattern", patterns...)}
		for i := range steps {
			if i > 0 && vh.OneIn(rt, "switch", 2) {
				cur.g, cur.sc, cur.pt = vh.From(rt, "goal", goals...), vh.From(rt, "scale", scales...), vh.From(rt, "pattern", patterns...)
			}
			cur.name, cur.scale = cur.g.String(), fmt.Sprintf("%s (%d agents)", cur.sc, cur.sc.DefaultAgentCount())
			todo = append(todo, cur)
			seen[cur.g] = true
			c.Desc("%v %v %v", cur.g, cur.sc, cur.pt)
		}
		bubble(t, func() {
			for i := range todo {
				todo[i].s = snapshot(rt)
				big = big || len(todo[i].s.Agents) > 10
				c.Desc("coh %.4v target %.4v %d agents", todo[i].s.Coherence, todo[i].s.TargetCoherence, len(todo[i].s.Agents))
			}
			set := func(d *display.TerminalDisplay, st step) {
				d.SetSimulationName(st.scale)
				d.SetGoalName(st.name)
				d.SetGoalAndScale(st.g, st.sc)
				d.SetPattern(st.pt)
			}
			h := start(c, func(d *display.TerminalDisplay) { set(d, todo[0]) })
			defer h.stop()
			h.d.ShowWelcome()
			for _, st := range todo {
				set(h.d, st)
				h.d.Update(st.s)
				h.check(st.g, st.name, st.scale, st.pt.String(), st.s)
			}
		})
		c.NonTrivial(len(seen) > 1 && big)
	})
}

func plain(s string) string { return strings.Join(strings.Fields(s), " ") }

// bold says which of the entries of the menu are set in bold.
func (h *dash) bold(menu [][]cellAt, entry string) bool {
	for _, l := range menu {
		var s []rune
		for _, c := range l {
			s = append(s, c.r)
		}
		if i := strings.Index(string(s), "] "+entry+" "); i >= 0 {
			i = len([]rune(string(s)[:i])) + 2
			_, _, attr := l[i].st.Decompose()
			for j := range []rune(entry) {
				if _, _, a := l[i+j].st.Decompose(); a&tcell.AttrBold != attr&tcell.AttrBold {
					h.c.Fatalf("%q is bold in part", entry)
				}
			}
			return attr&tcell.AttrBold != 0
		}
	}
	h.c.Fatalf("no %q in the menu\n%s", entry, str(menu))
	return false
}

var goalKeys = map[goal.Type]string{goal.MinimizeAPICalls: "[B] Batch", goal.DistributeLoad: "[L] Load", goal.ReachConsensus: "[C] Consensus", goal.MinimizeLatency: "[T] Latency",
	goal.SaveEnergy: "[E] Energy", goal.MaintainRhythm: "[M] Rhythm", goal.RecoverFromFailure: "[F] Failure", goal.AdaptToTraffic: "[A] Traffic"}
var patternKeys = map[pattern.Type]string{pattern.HighFrequency: "[H] High-Freq", pattern.Burst: "[U] Burst", pattern.Steady: "[Y] Steady", pattern.Mixed: "[X] Mixed", pattern.Sparse: "[Z] Sparse"}
var scaleKeys = map[scale.Size]string{scale.Tiny: "[1] Tiny", scale.Small: "[2] Small", scale.Medium: "[3] Medium", scale.Large: "[4] Large", scale.Huge: "[5] Huge"}

// keyEvents is what the menu promises each key does.
var keyEvents = map[string]display.EventType{"[B]": display.GoalBatch, "[L]": display.GoalLoad, "[C]": display.GoalConsensus, "[T]": display.GoalLatency, "[E]": display.GoalEnergy,
	"[M]": display.GoalRhythm, "[F]": display.GoalFailure, "[A]": display.GoalTraffic, "[H]": display.PatternHighFreq, "[U]": display.PatternBurst, "[Y]": display.PatternSteady,
	"[X]": display.PatternMixed, "[Z]": display.PatternSparse, "[1]": display.ScaleTiny, "[2]": display.ScaleSmall, "[3]": display.ScaleMedium, "[4]": display.ScaleLarge,
	"[5]": display.ScaleHuge, "[D]": display.EventDisrupt, "[R]": display.EventReset, "[P]": display.EventPause, "[Q]": display.EventQuit}

func name(entry string) string { return entry[4:] }

// The welcome screen and the menu: what is recommended is the same in both.
func TestWelcomeAndMenu(t *testing.T) {
	vh.Check(t, 24, 20, "dashboards walked through goals, scales and patterns, often changing only one: the welcome screen's marks, the assessment and the menu's emphasis must agree with each other and with the documented recommendations; non-trivial = both a recommended and a discouraged choice are seen", func(c *vh.Case, rt *rapid.T) {
		type choice struct {
			g goal.Type
			s scale.Size
			p pattern.Type
		}
		var todo []choice
		for range vh.UI(2, 5).Draw(rt, "choices") {
			ch := choice{vh.From(rt, "goal", goals...), vh.From(rt, "scale", scales...), vh.From(rt, "pattern", patterns...)}
			if len(todo) > 0 { // often only one of the three changes
				last := todo[len(todo)-1]
				switch vh.Pick(rt, "change", 4) {
				case 0:
					ch.s, ch.p = last.s, last.p
				case 1:
					ch.g, ch.p = last.g, last.p
				case 2:
					ch.g, ch.s = last.g, last.s
				}
			}
			todo = append(todo, ch)
		}
		c.Desc("%v", todo)
		screenH = 110
		defer func() { screenH = 78 }()
		good, bad := false, false
		bubble(t, func() {
			h := start(c, nil)
			defer h.stop()
			for _, ch := range todo {
				g, n := ch.g, ch.s.DefaultAgentCount()
				h.d.SetSimulationName("the scale")
				h.d.SetGoalName("the goal")
				h.d.SetGoalAndScale(g, ch.s)
				h.d.SetPattern(ch.p)
				h.d.ShowWelcome()
				p := h.drawn()
				conf, scen, menu := str(p["CONFIGURATION"]), str(p["SCENARIO"]), str(p["MENU"])
				q := pattern.GetQualifier(int(g), n, ch.p)
				status := pick(q == pattern.QualifierOptimal, "Optimal", q == pattern.QualifierExcellent || q == pattern.QualifierGood, "Good", q == pattern.QualifierFair, "Fair", "Poor")
				mark := pick(status == "Optimal" || status == "Good", "✓", status == "Fair", "⚠", "✗")
				ok := g.IsRecommendedForSize(n)
				good, bad = good || ok, bad || !ok || mark == "✗"
				for _, w := range []string{"Goal: the goal\n", "Pattern: " + plain(ch.p.String()) + " " + mark + "\n", "Scale: the scale " + pick(ok, "✓", "✗") + "\n"} {
					if !strings.Contains(conf+"\n", w) {
						c.Fatalf("%v, %d agents, %v: no %q in\n%s", g, n, ch.p, w, conf)
					}
				}
				if m := regexp.MustCompile(`Pattern: (\w+) \((.+)\)\n`).FindStringSubmatch(scen); m == nil || m[1] != status {
					c.Fatalf("%v, %d agents, %v is %s:\n%s", g, n, ch.p, status, scen)
				}
				if m := regexp.MustCompile(`Scale: (\w+) \((.+)\)\n`).FindStringSubmatch(scen); m == nil || m[1] != pick(ok, "Good", "Poor") {
					c.Fatalf("%v, %d agents, recommended %v:\n%s", g, n, ok, scen)
				}
				for _, w := range []string{"Best: \\S+", "Worst: \\S+", "(?m)^1\\. \\S+", "(?m)^2\\. \\S+", "(?m)^3\\. \\S+", "(?m)^4\\. \\S+"} {
					if !regexp.MustCompile(w).MatchString(scen) {
						c.Fatalf("no %s in\n%s", w, scen)
					}
				}
				// the menu
				for x, e := range goalKeys {
					if !strings.Contains(menu, e) || h.bold(p["MENU"], name(e)) != (x == g) {
						c.Fatalf("goal %v is selected; in the menu, %s is set in bold: %v", g, e, x != g)
					}
				}
				for x, e := range patternKeys {
					y := pattern.GetQualifier(int(g), n, x)
					rec := y == pattern.QualifierOptimal || y == pattern.QualifierExcellent || y == pattern.QualifierGood
					if !strings.Contains(menu, e) || h.bold(p["MENU"], name(e)) != rec {
						c.Fatalf("%v, %d agents: pattern %s is %s; bold: %v", g, n, e, y, !rec)
					}
				}
				for x, e := range scaleKeys {
					rec := g.IsRecommendedForSize(x.DefaultAgentCount())
					if !strings.Contains(menu, e) || h.bold(p["MENU"], name(e)) != rec {
						c.Fatalf("%v: scale %s is recommended: %v; bold: %v", g, e, rec, !rec)
					}
				}
				for k := range keyEvents {
					if strings.Count(menu, k) != 1 {
						c.Fatalf("%s is in the menu %d times\n%s", k, strings.Count(menu, k), menu)
					}
				}
			}
		})
		c.NonTrivial(good && bad)
	})
}

// The chart shows the last fifty reports and nothing else, and stands still while
// the simulation is paused.
func TestChart(t *testing.T) {
	vh.Check(t, 14, 20, "two dashboards that got the same last fifty reports after different beginnings must draw the same chart; reports while paused leave it as it was; a run below its target all the time shows no green in it and one above no red; non-trivial = more than fifty reports", func(c *vh.Case, rt *rapid.T) {
		n := vh.UI(1, 90).Draw(rt, "n")
		target := vh.UF(0.05, 0.95).Draw(rt, "target")
		kind := vh.From(rt, "kind", "below", "above", "any", "any")
		point := func() float64 {
			switch kind {
			case "below":
				return target * vh.UF(0, 0.99).Draw(rt, "x")
			case "above":
				return target + (1-target)*vh.UF(0, 1).Draw(rt, "x")
			}
			return vh.Unit().Draw(rt, "x")
		}
		var last []float64
		for range n {
			last = append(last, point())
		}
		before := 0
		if n >= 50 {
			before = vh.UI(0, 60).Draw(rt, "before")
		}
		g := vh.From(rt, "goal", goals...)
		c.Desc("%v: %d reports after %d, target %.3v, %s, %.3v", g, n, before, target, kind, last)
		agents := []display.AgentSnapshot{{ID: "a", Type: "T", Icon: "i", ActivityLevel: "steady"}}
		draw := func(prefix int, pauses bool) (string, [][]cellAt, map[rune]tcell.Color) {
			var panel [][]cellAt
			var cols map[rune]tcell.Color
			bubble(t, func() {
				h := start(c, func(d *display.TerminalDisplay) { d.SetGoalName("goal"); d.SetGoalAndScale(g, scale.Tiny); d.SetPattern(pattern.Burst) })
				defer h.stop()
				up := func(x float64, paused bool) {
					h.d.Update(display.SimulationSnapshot{Agents: agents, Coherence: x, TargetCoherence: target, Paused: paused})
				}
				for i := range prefix {
					up(float64(i%10)/10, false)
				}
				for i, x := range last {
					up(x, false)
					if pauses && i%7 == 3 {
						up(0.5, true)
					}
				}
				if pauses {
					up(1, true)
					up(0, true)
				}
				p := h.drawn()
				panel, cols = p["SYNCHRONIZATION COHERENCE"], h.colours(p["SWARM MOVEMENT"])
			})
			return raw(panel), panel, cols
		}
		a, panel, cols := draw(0, false)
		if b, _, _ := draw(before, vh.OneIn(rt, "pauses", 2)); a != b {
			c.Fatalf("the charts differ")
		}
		count := map[tcell.Color]int{}
		for _, l := range panel {
			for _, x := range l {
				if x.r >= 0x2801 && x.r <= 0x28ff {
					fg, _, _ := x.st.Decompose()
					count[fg]++
				}
			}
		}
		if n >= 2 && (count[cols['●']]+count[cols['∙']]+count[cols['o']] == 0 || kind == "below" && count[cols['●']] > 0 || kind == "above" && count[cols['∙']] > 0) {
			c.Fatalf("%s: green %d, red %d, yellow %d", kind, count[cols['●']], count[cols['∙']], count[cols['o']])
		}
		c.NonTrivial(n > 50)
	})
}

func TestSummary(t *testing.T) {
	vh.Check(t, 20, 10, "final statistics after a number of reports; non-trivial = several reports came before", func(c *vh.Case, rt *rapid.T) {
		st := display.Statistics{TotalAPICalls: vh.UI(0, 99999).Draw(rt, "calls"), TotalBatches: vh.UI(0, 9999).Draw(rt, "batches"), AverageBatchSize: vh.UF(0, 200).Draw(rt, "size"),
			TotalSavings: vh.UF(0, 999).Draw(rt, "savings"), SavingsPercent: vh.UF(0, 100).Draw(rt, "percent"), FinalCoherence: vh.UF(0, 1).Draw(rt, "final"), PeakCoherence: vh.UF(0, 1).Draw(rt, "peak"),
			TimeToConverge: time.Duration(vh.UF(0, 200e9).Draw(rt, "time"))}
		n := vh.UI(0, 4).Draw(rt, "reports")
		g := vh.From(rt, "goal", goals...)
		c.Desc("%v after %d reports, %+v", g, n, st)
		bubble(t, func() {
			h := start(c, func(d *display.TerminalDisplay) { d.SetGoalName("goal"); d.SetGoalAndScale(g, scale.Tiny); d.SetPattern(pattern.Burst) })
			defer h.stop()
			h.d.ShowWelcome()
			for range n {
				h.d.Update(snapshot(rt))
			}
			h.d.ShowSummary(st)
			p := h.drawn()
			met := str(p["METRICS"])
			h.near(met, `API Calls \(individual\): ([0-9]+)`, float64(st.TotalAPICalls), 0)
			h.near(met, `API Calls \(batched\): ([0-9]+)`, float64(st.TotalBatches), 0)
			h.near(met, `Average Batch Size: ([0-9.]+)`, st.AverageBatchSize, 0.05)
			h.near(met, `Peak Coherence: ([0-9.]+)%`, st.PeakCoherence*100, 0.05)
			if st.TimeToConverge < time.Minute {
				h.near(met, `Time to Converge: ([0-9.]+)s`, st.TimeToConverge.Seconds(), 0.05)
			} else {
				h.near(met, `Time to Converge: ([0-9.]+)m`, st.TimeToConverge.Minutes(), 0.05)
			}
			// nothing of the last report is left beside them
			for _, x := range []string{"WORKLOADS", "SWARM DYNAMICS"} {
				if s := str(p[x]); s != "" {
					c.Fatalf("%s still shows\n%s", x, s)
				}
			}
			if strings.Contains(met, "STATUS INDICATORS") {
				c.Fatalf("still shows\n%s", met)
			}
		})
		c.NonTrivial(n > 1)
	})
}

// The keys the menu offers, typed on the terminal, arrive as what it says. This
// one is in real time: the terminal library sleeps holding a lock after a key.
func TestKeys(t *testing.T) {
	vh.Check(t, 10, 10, "up to ten keys typed on the terminal, of the menu and others, either case; each arrives at the controller, in order, as the event the menu shows for it; non-trivial = at least three keys of the menu", func(c *vh.Case, rt *rapid.T) {
		var keys []rune
		for range vh.UI(1, 10).Draw(rt, "keys") {
			keys = append(keys, vh.From(rt, "key", []rune("qrdpbltcemfahuyxz12345QRDPBLTCEMFAHUYXZ6790jw?")...))
		}
		c.Desc("%q", string(keys))
		h := start(c, nil)
		defer h.stop()
		time.Sleep(10 * time.Millisecond)
		n := 0
		for _, k := range keys {
			h.sc.InjectKey(tcell.KeyRune, k, 0)
		}
		for _, k := range keys {
			want, offered := keyEvents["["+strings.ToUpper(string(k))+"]"]
			if !offered {
				continue
			}
			n++
			select {
			case e := <-h.kc.Events():
				if e.Type != want {
					c.Fatalf("key %q arrives as event %d, the menu says %d", k, e.Type, want)
				}
			case <-time.After(30 * time.Second):
				c.Fatalf("key %q of %q does not arrive", k, string(keys))
			}
		}
		time.Sleep(20 * time.Millisecond)
		select {
		case e := <-h.kc.Events():
			c.Fatalf("event %v without a key, of %q", e, string(keys))
		default:
		}
		c.NonTrivial(n >= 3)
	})
}
