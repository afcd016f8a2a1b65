// C35: the demo program does what its command line, its keys and its signals ask
// for, from start to end, in a terminal and without one.
package c35

import (
	"fmt"
	"os"
	"regexp"
	"slices"
	"strconv"
	"strings"
	"syscall"
	"testing"
	"time"

	"github.com/carlisia/bio-adapt/emerge/goal"
	"github.com/carlisia/bio-adapt/simulations/emerge/simulation/pattern"
	"github.com/carlisia/bio-adapt/zzverif/vh"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) {
	vh.SetCaseCPU(600)
	vh.Main(m)
}

// Everything the program has to do "soon" gets this long: the machine may be busy.
// Once it has failed to, less will do to find a smaller case.
var soon = 60 * time.Second

func missed() { soon = 12 * time.Second }

// The documented scales, with their number of workloads.
var scales = []string{"tiny", "small", "medium", "large", "huge"}
var counts = map[string]int{"tiny": 20, "small": 50, "medium": 200, "large": 1000, "huge": 2000}

var scaleKeys = map[rune]string{'1': "tiny", '2': "small", '3': "medium", '4': "large", '5': "huge"}
var goalKeys = map[rune]goal.Type{'b': goal.MinimizeAPICalls, 'l': goal.DistributeLoad, 'c': goal.ReachConsensus, 't': goal.MinimizeLatency, 'e': goal.SaveEnergy, 'm': goal.MaintainRhythm, 'f': goal.RecoverFromFailure, 'a': goal.AdaptToTraffic}
var goalNames = map[goal.Type]string{goal.MinimizeAPICalls: "Batch API Calls", goal.DistributeLoad: "Load Distribution", goal.ReachConsensus: "Consensus Building", goal.MinimizeLatency: "Low Latency", goal.SaveEnergy: "Energy Saving", goal.MaintainRhythm: "Periodic Tasks", goal.RecoverFromFailure: "Fault Recovery", goal.AdaptToTraffic: "Traffic Adaptation"}
var patternKeys = map[rune]string{'h': "High-Frequency", 'u': "Burst", 'y': "Steady", 'x': "Mixed", 'z': "Sparse"}

func title(scale string) string {
	return fmt.Sprintf("%s SWARM (%d workloads)", strings.ToUpper(scale), counts[scale])
}

// clean checks that the program neither crashed nor raced.
func clean(c *vh.Case, p *proc) {
	for _, s := range []string{p.stderr(), p.text()} {
		for _, bad := range []string{"panic:", "fatal error:", "goroutine 1 ["} {
			if i := strings.Index(s, bad); i >= 0 {
				c.Fatalf("the program crashed (%s): %s", bad, tail(s[max(0, i-200):min(len(s), i+2500)], 2700))
			}
		}
	}
	for _, r := range strings.Split(p.stderr(), "WARNING: DATA RACE")[1:] {
		if accesses := accessed.FindAllStringSubmatch(r, 2); len(accesses) == 2 && strings.Contains(accesses[0][1], "bio-adapt") && strings.Contains(accesses[1][1], "bio-adapt") {
			c.Fatalf("the program raced: %s", r[:min(len(r), 3000)])
		}
		c.Label("race within the terminal library")
	}
}

// accessed finds the function of each access a race report tells of, past the
// runtime. Races within the terminal library (its redrawing against its closing)
// are not the program's.
var accessed = regexp.MustCompile(`(?m)^(?:Previous )?(?:[Rr]ead|[Ww]rite) at .*\n(?:  (?:runtime|internal|sync)[./].*\n      .*\n)*  (\S+)\(\)`)

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func dur(rt *rapid.T, name string, lo, hi int) time.Duration {
	return time.Duration(vh.UI(lo, hi).Draw(rt, name)) * time.Millisecond
}

// ---------------------------------------------------------------------------
// Command lines that do not start a run.

func TestRefusals(t *testing.T) {
	vh.Check(t, 60, 10, "the command line asks for an unknown scale or for the list of scales", func(c *vh.Case, rt *rapid.T) {
		var args []string
		list := vh.OneIn(rt, "list", 3)
		name := ""
		if !list {
			if vh.OneIn(rt, "near", 2) {
				b := []byte(vh.From(rt, "base", scales...))
				i := vh.Pick(rt, "at", len(b))
				switch vh.Pick(rt, "edit", 4) {
				case 0:
					b = append(b[:i], b[i+1:]...)
				case 1:
					b = append(b, 's')
				case 2:
					b[i] = byte('a' + vh.Pick(rt, "chr", 26))
				case 3:
					b = slices.Insert(b, i, byte('0'+vh.Pick(rt, "dig", 10)))
				}
				name = string(b)
			} else {
				name = vh.From(rt, "junk", "gigantic", "0", "20", "tiny,small", "tinysmall", "-", "--", "xs", "200", "custom", "größe", "all", "none", "\x01", "%s", "%d%n", "../tiny", strings.Repeat("tiny", 3000))
			}
			if _, ok := counts[strings.ToLower(strings.TrimSpace(name))]; ok || name == "" {
				rt.Skip("a scale after all")
			}
			args = append(args, vh.From(rt, "form", "-scale=", "--scale=")+name)
		} else {
			args = append(args, vh.From(rt, "form", "-list", "--list", "-list=true"))
			if vh.OneIn(rt, "withscale", 2) {
				args = append(args, "-scale", vh.From(rt, "scale", scales...))
			}
		}
		if vh.OneIn(rt, "interval", 3) {
			args = append(args, "-interval", dur(rt, "iv", 1, 2000).String())
		}
		if vh.OneIn(rt, "timeout", 3) {
			args = append(args, "-timeout="+dur(rt, "to", 0, 200).String())
		}
		if vh.OneIn(rt, "rev", 2) && !slices.Contains(args, "-scale") && !slices.Contains(args, "-interval") {
			slices.Reverse(args)
		}
		c.Desc("%.200q", args)
		p, err := startPiped(args)
		vh.Must(err == nil, "cannot start the program: %v", err)
		defer p.close()
		if !p.until(soon, p.ended) {
			missed()
			c.Fatalf("%.200q did not end\n%s", args, tail(p.text(), 2000))
		}
		c.NonTrivial(true)
		clean(c, p)
		out, code := p.text(), p.cmd.ProcessState.ExitCode()
		if strings.Contains(out, "Coherence:") || strings.Contains(out, "DEMO") {
			c.Fatalf("%.200q started a run:\n%s", args, tail(out, 2000))
		}
		if list {
			c.Label("list")
			if code != 0 {
				c.Fatalf("%q ended with status %d", args, code)
			}
			for _, s := range scales {
				if !regexp.MustCompile(`(?m)^\s*` + s + `\b.*\b` + strconv.Itoa(counts[s]) + `\b`).MatchString(out) {
					c.Fatalf("the list does not name %s with its %d workloads:\n%s", s, counts[s], out)
				}
			}
			return
		}
		c.Label("unknown scale")
		if code == 0 {
			c.Fatalf("the unknown scale %.50q was not refused: status 0, output\n%s", name, tail(out, 2000))
		}
		all := out + p.stderr()
		for _, s := range scales {
			if !strings.Contains(all, s) {
				c.Fatalf("the refusal of %.50q does not name the scale %s:\n%s", name, s, tail(all, 1000))
			}
		}
	})
}

// ---------------------------------------------------------------------------
// Runs without a terminal.

type plan struct {
	args    []string
	scale   string
	iv, to  time.Duration // to 0: no timeout
	sigAt   time.Duration // after the welcome; 0: none
	sig     syscall.Signal
	again   bool // a second signal right after the first
	p       *proc
	sigSent time.Time
}

var status = regexp.MustCompile(`^\[(\d\d)s\] Coherence: (-?[\d.]+)% \| Savings: \$(-?[\d.]+) \((-?[\d.]+)%\) \| Batches: (\d+)$`)

func TestPiped(t *testing.T) {
	vh.Check(t, 10, 8, "at least one of the runs shows two status lines or more, or ends by a signal", func(c *vh.Case, rt *rapid.T) {
		n := 1 + vh.Pick(rt, "runs", 6)
		var plans []*plan
		for i := range n {
			pl := &plan{scale: "tiny"}
			if vh.OneIn(rt, "scaled", 2) {
				pl.scale = scales[vh.From(rt, "scale", 0, 0, 0, 1, 1, 1, 2, 2, 3, 4)]
				pl.args = append(pl.args, "-scale", pl.scale)
			}
			pl.iv = 100 * time.Millisecond
			if vh.OneIn(rt, "interval", 2) {
				pl.iv = dur(rt, "iv", 1, 1500)
				switch vh.Pick(rt, "ivkind", 8) {
				case 0:
					pl.iv = 0
				case 1:
					pl.iv = -pl.iv
				case 2:
					pl.iv = time.Hour
				case 3:
					pl.iv = time.Nanosecond * time.Duration(1+vh.Pick(rt, "ns", 100000))
				}
				pl.args = append(pl.args, "-interval", pl.iv.String())
			}
			pl.to = 5 * time.Minute
			signalled := vh.OneIn(rt, "signal", 2)
			if !signalled || vh.OneIn(rt, "timeout", 2) {
				pl.to = dur(rt, "to", 1, 4500)
				if signalled {
					pl.to = vh.From(rt, "long", 0, time.Hour, 100*time.Hour)
				}
				pl.args = append(pl.args, "-timeout", pl.to.String())
			}
			if signalled {
				pl.sigAt = dur(rt, "sigat", 400, 3000)
				pl.sig = vh.From(rt, "sig", syscall.SIGINT, syscall.SIGTERM)
				pl.again = vh.OneIn(rt, "again", 4)
			}
			c.Desc("%d: %v", i, pl.args)
			if signalled {
				c.Desc("%v after %v", pl.sig, pl.sigAt)
			}
			plans = append(plans, pl)
		}
		defer func() {
			for _, pl := range plans {
				if pl.p != nil {
					pl.p.close()
				}
			}
		}()
		for _, pl := range plans {
			var err error
			pl.p, err = startPiped(pl.args)
			vh.Must(err == nil, "cannot start the program: %v", err)
		}
		for _, pl := range plans {
			if pl.sig == 0 {
				continue
			}
			go func() {
				p := pl.p
				if p.until(soon, func() bool { return strings.Contains(p.text(), "DEMO") }) {
					time.Sleep(pl.sigAt)
					p.mu.Lock()
					pl.sigSent = time.Now()
					p.mu.Unlock()
					if !p.ended() {
						_ = p.cmd.Process.Signal(pl.sig)
						if pl.again {
							_ = p.cmd.Process.Signal(pl.sig)
						}
					}
				}
			}()
		}
		nt := false
		for i, pl := range plans {
			p := pl.p
			limit := soon + 5*time.Second
			if pl.sig == 0 {
				limit += pl.to
			}
			if !p.until(limit, p.ended) {
				missed()
				c.Fatalf("run %d (%v) did not end\n%s%s", i, pl.args, tail(p.text(), 1500), tail(p.stderr(), 1500))
			}
			clean(c, p)
			code := p.cmd.ProcessState.ExitCode()
			out := p.text()
			if pl.iv <= 0 && code == 1 && !strings.Contains(out, "DEMO") {
				c.Label("interval refused")
				continue
			}
			if code != 0 {
				c.Fatalf("run %d (%v, signal %v) ended with %v\n%s%s", i, pl.args, pl.sig, p.cmd.ProcessState, tail(out, 1500), tail(p.stderr(), 1500))
			}
			took := p.end.Sub(p.start)
			if pl.sig == 0 && took < pl.to {
				c.Fatalf("run %d (%v) ended by itself after %v", i, pl.args, took)
			}
			p.mu.Lock()
			sent := pl.sigSent
			p.mu.Unlock()
			if pl.sig != 0 && p.end.Before(sent) {
				c.Fatalf("run %d (%v) ended before it was signalled\n%s", i, pl.args, tail(out, 1500))
			}
			if !strings.Contains(out, "EMERGE: "+title(pl.scale)+" DEMO") {
				c.Fatalf("run %d (%v) does not announce %q:\n%s", i, pl.args, title(pl.scale), tail(out, 1500))
			}
			if strings.Count(out, "SIMULATION COMPLETE") != 1 {
				c.Fatalf("run %d (%v, signal %v) did not show its summary once:\n%s", i, pl.args, pl.sig, tail(out, 1500))
			}
			lines, lastT, lastB := 0, -1, int64(-1)
			for _, l := range strings.Split(out, "\n") {
				if !strings.HasPrefix(l, "[") {
					continue
				}
				m := status.FindStringSubmatch(l)
				if m == nil {
					if took > 59*time.Second {
						continue
					}
					c.Fatalf("run %d (%v) printed %q", i, pl.args, l)
				}
				lines++
				sec, _ := strconv.Atoi(m[1])
				coh, _ := strconv.ParseFloat(m[2], 64)
				pct, _ := strconv.ParseFloat(m[4], 64)
				b, _ := strconv.ParseInt(m[5], 10, 64)
				if sec < lastT || float64(sec) > took.Seconds()+1 || b < lastB || coh < 0 || coh > 100 || pct < 0 || pct > 100 {
					c.Fatalf("run %d (%v): after [%ds] and %d batches it shows %q (it ran %v)", i, pl.args, lastT, lastB, l, took)
				}
				lastT, lastB = sec, b
			}
			if float64(lines) > took.Seconds()+2 {
				c.Fatalf("run %d (%v): %d status lines in %v", i, pl.args, lines, took)
			}
			live := took - 2*time.Second
			if pl.to < 2*time.Second && pl.sig == 0 {
				live = 0
			}
			if lines == 0 && pl.iv > 0 && pl.iv <= 200*time.Millisecond && pl.scale == "tiny" && live > time.Second {
				c.Fatalf("run %d (%v): no status line in %v\n%s", i, pl.args, took, tail(out, 1500))
			}
			sum := out[strings.Index(out, "SIMULATION COMPLETE"):]
			if m := regexp.MustCompile(`Batches[^:]*:\s*(\d+)`).FindStringSubmatch(sum); m == nil {
				c.Fatalf("run %d (%v): no batches in the summary\n%s", i, pl.args, sum)
			} else if b, _ := strconv.ParseInt(m[1], 10, 64); b < lastB {
				c.Fatalf("run %d (%v): %d batches while running, %s in the summary", i, pl.args, lastB, m[1])
			}
			nt = nt || lines >= 2 || pl.sig != 0
			if pl.sig != 0 {
				c.Label(pl.sig.String())
			} else {
				c.Label("timeout")
			}
		}
		c.NonTrivial(nt)
	})
}

// ---------------------------------------------------------------------------
// Runs in a terminal.

var (
	rowGoal    = regexp.MustCompile(`Goal: +(.*?) *│`)
	rowPattern = regexp.MustCompile(`Pattern:  (.*?) *(?:[✓⚠✗] *)?│`)
	rowScale   = regexp.MustCompile(`Scale:    (.*?) *(?:[✓⚠✗] *)?│`)
	rowElapsed = regexp.MustCompile(`Elapsed: +([\d.]+)s`)
	rowPaused  = regexp.MustCompile(`Paused: +(\w+)`)
)

func first(re *regexp.Regexp, s string) string {
	if m := re.FindStringSubmatch(s); m != nil {
		return m[1]
	}
	return ""
}

// shown is what the model says the configuration panel shows.
type shown struct {
	scale   string
	goal    goal.Type
	pattern string // "" as long as the program chooses
	paused  bool
}

func (s shown) pat() string {
	if s.pattern != "" {
		return s.pattern
	}
	return pattern.BestPatternForGoal(int(s.goal)).String()
}

func (s shown) on(scr string) bool {
	return first(rowGoal, scr) == goalNames[s.goal] && first(rowPattern, scr) == s.pat() && first(rowScale, scr) == title(s.scale)
}

func (s shown) String() string {
	return fmt.Sprintf("goal %q, pattern %q, scale %q, paused %v", goalNames[s.goal], s.pat(), title(s.scale), s.paused)
}

func (s shown) press(k rune) shown {
	n := s
	if v, ok := scaleKeys[k]; ok {
		n.scale = v
	}
	if v, ok := goalKeys[k]; ok {
		n.goal = v
	}
	if v, ok := patternKeys[k]; ok && v != s.pat() {
		n.pattern = v
	}
	if n != s {
		n.paused = false
		return n
	}
	switch k {
	case 'p':
		n.paused = !s.paused
	case ' ':
		n.paused = false
	}
	return n
}

func elapsed(scr string) float64 {
	v, err := strconv.ParseFloat(first(rowElapsed, scr), 64)
	if err != nil {
		return -1
	}
	return v
}

func TestTerminal(t *testing.T) {
	if m, s, err := openPty(50, 160); err != nil {
		t.Skipf("no pseudo-terminal here: %v", err)
	} else {
		m.Close()
		s.Close()
	}
	vh.Check(t, 14, 10, "at least one key that changes the run was pressed, or the run ended other than by q", func(c *vh.Case, rt *rapid.T) {
		st := shown{scale: "tiny", goal: goal.MinimizeAPICalls}
		var args []string
		heavy := vh.OneIn(rt, "heavy", 7) // too slow with the race detector
		if vh.OneIn(rt, "scaled", 2) {
			st.scale = scales[vh.From(rt, "scale", 0, 0, 1, 1, 1, 2, 2)]
			if heavy {
				st.scale = scales[vh.Pick(rt, "anyscale", 5)]
			}
			args = append(args, "-scale", st.scale)
		}
		if vh.OneIn(rt, "interval", 3) {
			args = append(args, "-interval", dur(rt, "iv", 5, 150).String())
		}
		end := vh.From(rt, "end", "q", "Q", "esc", "TERM", "TERM", "INT", "timeout")
		var to time.Duration
		nkeys := vh.Pick(rt, "keys", 6)
		if end == "timeout" {
			nkeys = 0
			to = dur(rt, "to", 500, 4000)
			args = append(args, "-timeout", to.String())
		} else if vh.OneIn(rt, "notimeout", 3) {
			args = append(args, "-timeout", "0")
		}
		rows, cols := 50+vh.Pick(rt, "rows", 30), 160+vh.Pick(rt, "cols", 60)
		c.Desc("%v in %dx%d, end by %s", args, cols, rows, end)
		c.Label("end " + end)
		p, err := startTerminal(args, rows, cols, heavy)
		vh.Must(err == nil, "cannot start the program: %v", err)
		defer p.close()
		before := p.termios()

		see := func(what string) {
			if !p.until(soon, func() bool { return st.on(p.rows()) }) {
				clean(c, p)
				missed()
				c.Fatalf("%s: the screen does not show %v (ended: %v, %v)\n%s", what, st, p.ended(), p.cmd.ProcessState, p.rows())
			}
			c.Desc("ok")
		}
		if end != "timeout" {
			see("at the start")
		}
		if os.Getenv("VERIF_DUMP") != "" {
			fmt.Println(p.rows())
		}
		changes := 0
		for range nkeys {
			var k rune
			switch vh.Pick(rt, "kind", 9) {
			case 0, 1:
				k = '1' + rune(vh.Pick(rt, "scalekey", 3))
				if heavy {
					k = '1' + rune(vh.Pick(rt, "anyscalekey", 5))
				}
			case 2, 3:
				k = []rune("blctemfa")[vh.Pick(rt, "goalkey", 8)]
			case 4, 5:
				k = []rune("huyxz")[vh.Pick(rt, "patternkey", 5)]
			case 6:
				k = vh.From(rt, "actionkey", 'd', 'r')
			case 7:
				k = vh.From(rt, "pausekey", 'p', 'p', ' ')
			case 8:
				k = vh.From(rt, "other", '0', '6', '7', '8', '9', 'g', 'i', 'j', 'k', 'n', 'o', 's', 'v', 'w', '?', '\t', '\r')
			}
			s := string(k)
			if vh.OneIn(rt, "upper", 3) {
				s = strings.ToUpper(s)
			}
			next := st.press(k)
			restart := next.scale != st.scale || next.goal != st.goal || next.pattern != st.pattern
			was := elapsed(p.rows())
			c.Desc("key %q", s)
			_, _ = p.tty.Write([]byte(s))
			st = next
			if restart {
				changes++
				c.Label("switch")
			} else {
				// whatever the key does, the run goes on: give it the time to do it
				time.Sleep(dur(rt, "pause", 30, 400))
			}
			see(fmt.Sprintf("after key %q", s))
			if !p.until(soon, func() bool { m := first(rowPaused, p.rows()); return m == map[bool]string{true: "YES", false: "NO"}[st.paused] }) {
				missed()
				c.Fatalf("after key %q the screen does not show paused = %v\n%s", s, st.paused, p.rows())
			}
			if p.ended() {
				clean(c, p)
				c.Fatalf("key %q ended the program: %v\n%s", s, p.cmd.ProcessState, tail(p.stderr(), 1000))
			}
			if now := elapsed(p.rows()); !restart && k != 'r' && was >= 0 && now >= 0 && now < was-0.15 {
				c.Fatalf("key %q changes nothing of the configuration, but the run started over: %vs after %vs", s, now, was)
			}
		}
		if vh.OneIn(rt, "burst", 4) && end != "timeout" {
			// keys faster than the program restarts: some may be lost, but it stays usable
			var b []byte
			for range 1 + vh.Pick(rt, "nburst", 25) {
				b = append(b, []byte("12blctemfahuyxzdrp 123BLHUYG")[vh.Pick(rt, "burstkey", 28)])
			}
			c.Desc("burst %q", b)
			c.Label("burst")
			changes++
			_, _ = p.tty.Write(b)
			time.Sleep(dur(rt, "settle", 0, 1500))
			if p.ended() {
				clean(c, p)
				c.Fatalf("keys %q ended the program: %v\n%s", b, p.cmd.ProcessState, tail(p.stderr(), 1000))
			}
		}
		if vh.OneIn(rt, "resize", 4) && end != "timeout" {
			ws := [4]uint16{uint16(1 + vh.Pick(rt, "rows2", 90)), uint16(1 + vh.Pick(rt, "cols2", 240)), 0, 0}
			c.Desc("resize to %dx%d", ws[1], ws[0])
			c.Label("resize")
			p.resize(ws)
			time.Sleep(dur(rt, "afterresize", 50, 500))
			if p.ended() {
				clean(c, p)
				c.Fatalf("resizing to %dx%d ended the program: %v\n%s", ws[1], ws[0], p.cmd.ProcessState, tail(p.stderr(), 1000))
			}
		}
		ask := func() {
			switch end {
			case "q", "Q":
				_, _ = p.tty.Write([]byte(end))
			case "esc":
				_, _ = p.tty.Write([]byte{0x1b})
			case "TERM":
				_ = p.cmd.Process.Signal(syscall.SIGTERM)
			case "INT":
				_ = p.cmd.Process.Signal(syscall.SIGINT)
			}
		}
		if end != "timeout" && end != "TERM" && end != "INT" || p.ended() {
			ask()
		} else if end != "timeout" {
			time.Sleep(300 * time.Millisecond) // the handler is installed next to the first run
			ask()
		}
		asked := time.Now()
		for !p.ended() && time.Since(asked) < soon+to {
			// a key pressed while a run is being replaced may be lost: press it again
			if p.until(2*time.Second, p.ended) || end == "timeout" || end == "TERM" || end == "INT" {
				continue
			}
			ask()
		}
		if !p.ended() {
			missed()
			c.Fatalf("the program did not end by %s\n%s\n%s", end, p.rows(), tail(p.stderr(), 1000))
		}
		clean(c, p)
		c.NonTrivial(changes > 0 || end != "q")
		if code := p.cmd.ProcessState.ExitCode(); code != 0 {
			c.Fatalf("ended by %s with %v\n%s%s", end, p.cmd.ProcessState, tail(p.stderr(), 1000), tail(p.text(), 500))
		}
		if took := p.end.Sub(p.start); took < to {
			c.Fatalf("the timeout is %v, but the program ended by itself after %v", to, took)
		}
		for i := 0; i < 500 && (p.alt() || p.hidden()); i++ {
			time.Sleep(10 * time.Millisecond) // the rest of its output is on its way
		}
		if after := p.termios(); after != before {
			c.Fatalf("ended by %s, the program left the terminal in another mode: %+v, was %+v", end, after, before)
		}
		if p.alt() || p.hidden() {
			c.Fatalf("ended by %s, the program left the terminal on its own screen (%v) or without a cursor (%v)", end, p.alt(), p.hidden())
		}
	})
}

