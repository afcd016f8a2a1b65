package c35

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"sync"
	"syscall"
	"time"
	"unicode/utf8"
	"unsafe"
)

// proc is one run of the demo program, started in a process group of its own.
type proc struct {
	cmd   *exec.Cmd
	tty   *os.File // master side; nil when stdout is a pipe
	slave *os.File
	start time.Time
	end   time.Time
	done  chan struct{}
	werr  error

	mu     sync.Mutex
	out    bytes.Buffer // stdout (pipe) or everything written to the terminal
	errOut bytes.Buffer
	scr    *screen
}

type lockedWriter struct {
	p *proc
	b *bytes.Buffer
}

func (w lockedWriter) Write(d []byte) (int, error) {
	w.p.mu.Lock()
	defer w.p.mu.Unlock()
	if w.p.scr != nil && w.b == &w.p.out {
		w.p.scr.feed(d)
	}
	if w.b.Len() < 4<<20 {
		w.b.Write(d)
	}
	return len(d), nil
}

func environ(extra ...string) []string {
	var env []string
	for _, kv := range os.Environ() {
		if !strings.HasPrefix(kv, "TERM=") && !strings.HasPrefix(kv, "GORACE=") && !strings.HasPrefix(kv, "LINES=") && !strings.HasPrefix(kv, "COLUMNS=") && !strings.HasPrefix(kv, "VERIF_") {
			env = append(env, kv)
		}
	}
	return append(env, append([]string{"GORACE=halt_on_error=0 exitcode=0 atexit_sleep_ms=0", "LC_ALL=C.UTF-8"}, extra...)...)
}

// startPiped runs the program with its output in a pipe.
func startPiped(args []string) (*proc, error) {
	p := &proc{done: make(chan struct{})}
	p.cmd = exec.Command(os.Getenv("VERIF_BIN"), args...)
	p.cmd.Env = environ("TERM=dumb")
	p.cmd.Stdout = lockedWriter{p, &p.out}
	p.cmd.Stderr = lockedWriter{p, &p.errOut}
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	return p, p.run()
}

func (p *proc) run() error {
	p.start = time.Now()
	if err := p.cmd.Start(); err != nil {
		return err
	}
	go func() {
		p.werr = p.cmd.Wait()
		p.end = time.Now()
		close(p.done)
	}()
	return nil
}

func ioctl(f *os.File, req, arg uintptr) error {
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, f.Fd(), req, arg); e != 0 {
		return e
	}
	return nil
}

func openPty(rows, cols int) (master, slave *os.File, err error) {
	fd, err := syscall.Open("/dev/ptmx", syscall.O_RDWR|syscall.O_NOCTTY|syscall.O_CLOEXEC, 0)
	if err != nil {
		return nil, nil, err
	}
	master = os.NewFile(uintptr(fd), "ptmx")
	var n, unlock uint32
	if err = ioctl(master, syscall.TIOCSPTLCK, uintptr(unsafe.Pointer(&unlock))); err == nil {
		err = ioctl(master, syscall.TIOCGPTN, uintptr(unsafe.Pointer(&n)))
	}
	if err == nil {
		slave, err = os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|syscall.O_NOCTTY, 0)
	}
	if err == nil {
		ws := [4]uint16{uint16(rows), uint16(cols), 0, 0}
		err = ioctl(slave, syscall.TIOCSWINSZ, uintptr(unsafe.Pointer(&ws)))
	}
	if err != nil {
		master.Close()
		return nil, nil, err
	}
	return master, slave, nil
}

func (p *proc) termios() syscall.Termios {
	var t syscall.Termios
	_ = ioctl(p.slave, syscall.TCGETS, uintptr(unsafe.Pointer(&t)))
	return t
}

// startTerminal runs the program with a terminal of its own.
func startTerminal(args []string, rows, cols int, plain bool) (*proc, error) {
	m, s, err := openPty(rows, cols)
	if err != nil {
		return nil, err
	}
	p := &proc{done: make(chan struct{}), tty: m, slave: s, scr: newScreen(rows, cols)}
	bin := os.Getenv("VERIF_BIN")
	if plain {
		bin += "-plain"
	}
	p.cmd = exec.Command(bin, args...)
	p.cmd.Env = environ("TERM=xterm-256color")
	p.cmd.Stdin, p.cmd.Stdout = s, s
	p.cmd.Stderr = lockedWriter{p, &p.errOut}
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Setsid: true, Setctty: true, Ctty: 0}
	go func() { _, _ = io.Copy(lockedWriter{p, &p.out}, m) }()
	return p, p.run()
}

func (p *proc) close() {
	select {
	case <-p.done:
	default:
		_ = syscall.Kill(-p.cmd.Process.Pid, syscall.SIGKILL)
		<-p.done
	}
	if p.tty != nil {
		p.slave.Close()
		p.tty.Close()
	}
}

func (p *proc) ended() bool {
	select {
	case <-p.done:
		return true
	default:
		return false
	}
}

// wait waits until the program has ended, at most d.
func (p *proc) wait(d time.Duration) bool {
	select {
	case <-p.done:
		return true
	case <-time.After(d):
		return false
	}
}

func (p *proc) text() string   { p.mu.Lock(); defer p.mu.Unlock(); return p.out.String() }
func (p *proc) stderr() string { p.mu.Lock(); defer p.mu.Unlock(); return p.errOut.String() }
func (p *proc) rows() string   { p.mu.Lock(); defer p.mu.Unlock(); return p.scr.String() }
func (p *proc) alt() bool      { p.mu.Lock(); defer p.mu.Unlock(); return p.scr.alt }
func (p *proc) hidden() bool   { p.mu.Lock(); defer p.mu.Unlock(); return p.scr.hidden }

// until polls cond until it holds, the program ends or d has passed.
func (p *proc) until(d time.Duration, cond func() bool) bool {
	for end := time.Now().Add(d); time.Now().Before(end); time.Sleep(5 * time.Millisecond) {
		if cond() {
			return true
		}
		if p.ended() {
			return cond()
		}
	}
	return cond()
}

// screen is a terminal just good enough to read what the program shows.
type screen struct {
	r, c        int
	cells       [][]rune
	row, col    int
	alt, hidden bool
	pend        []byte
}

func newScreen(r, c int) *screen {
	s := &screen{r: r, c: c}
	s.clear()
	return s
}

func (s *screen) clear() {
	s.cells = make([][]rune, s.r)
	for i := range s.cells {
		s.cells[i] = []rune(strings.Repeat(" ", s.c))
	}
}

func (s *screen) String() string {
	var b strings.Builder
	for _, row := range s.cells {
		for _, r := range row {
			if r != 0 {
				b.WriteRune(r)
			}
		}
		b.WriteByte('\n')
	}
	return b.String()
}

func wide(r rune) bool {
	return r >= 0x1F300 && r <= 0x1FAFF || r == 0x26A1 || r == 0x2705 || r == 0x274C || r == 0x23F3 || r == 0x231B || r >= 0x2E80 && r <= 0xA4CF || r >= 0xAC00 && r <= 0xD7A3
}

func (s *screen) put(r rune) {
	if s.row < s.r && s.col < s.c && s.row >= 0 && s.col >= 0 {
		s.cells[s.row][s.col] = r
	}
	s.col++
	if wide(r) {
		if s.row < s.r && s.col < s.c {
			s.cells[s.row][s.col] = 0
		}
		s.col++
	}
}

func (s *screen) feed(d []byte) {
	b := append(s.pend, d...)
	for len(b) > 0 {
		n := s.step(b)
		if n == 0 {
			break
		}
		b = b[n:]
	}
	s.pend = append([]byte(nil), b...)
}

// step consumes one character or control sequence and returns its length, 0
// when it is not complete yet.
func (s *screen) step(b []byte) int {
	switch c := b[0]; {
	case c == 0x1b:
		if len(b) < 2 {
			return 0
		}
		switch b[1] {
		case '[':
			i := 2
			for i < len(b) && (b[i] < 0x40 || b[i] > 0x7e) {
				i++
			}
			if i == len(b) {
				return 0
			}
			s.csi(string(b[2:i]), b[i])
			return i + 1
		case ']', 'P', 'X', '^', '_':
			for i := 2; i < len(b); i++ {
				if b[i] == 7 {
					return i + 1
				}
				if b[i] == '\\' && b[i-1] == 0x1b {
					return i + 1
				}
			}
			return 0
		case '(', ')', '*', '+', '#', ' ':
			if len(b) < 3 {
				return 0
			}
			return 3
		}
		return 2
	case c == '\r':
		s.col = 0
		return 1
	case c == '\n':
		s.row = min(s.row+1, s.r-1)
		return 1
	case c == '\b':
		s.col = max(s.col-1, 0)
		return 1
	case c < 0x20 || c == 0x7f:
		return 1
	}
	if !utf8.FullRune(b) {
		return 0
	}
	r, n := utf8.DecodeRune(b)
	if r == 0xFE0F || r == 0x200D {
		return n
	}
	s.put(r)
	return n
}

func (s *screen) csi(par string, fin byte) {
	num := func(i, def int) int {
		f := strings.Split(par, ";")
		n := 0
		if i < len(f) {
			_, _ = fmt.Sscanf(f[i], "%d", &n)
		}
		if n == 0 {
			return def
		}
		return n
	}
	switch fin {
	case 'H', 'f':
		s.row, s.col = num(0, 1)-1, num(1, 1)-1
	case 'A':
		s.row -= num(0, 1)
	case 'B':
		s.row += num(0, 1)
	case 'C':
		s.col += num(0, 1)
	case 'D':
		s.col -= num(0, 1)
	case 'G':
		s.col = num(0, 1) - 1
	case 'd':
		s.row = num(0, 1) - 1
	case 'J':
		s.clear()
	case 'K':
		for i := s.col; s.row < s.r && i >= 0 && i < s.c; i++ {
			s.cells[s.row][i] = ' '
		}
	case 'h', 'l':
		switch par {
		case "?1049":
			s.alt = fin == 'h'
			s.clear()
		case "?25":
			s.hidden = fin == 'l'
		}
	}
}

// resize changes the size of the terminal under the running program.
func (p *proc) resize(ws [4]uint16) {
	p.mu.Lock()
	p.scr.r, p.scr.c = int(ws[0]), int(ws[1])
	p.scr.clear()
	p.mu.Unlock()
	_ = ioctl(p.slave, syscall.TIOCSWINSZ, uintptr(unsafe.Pointer(&ws)))
	_ = p.cmd.Process.Signal(syscall.SIGWINCH)
}
