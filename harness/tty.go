package main

// A pseudo terminal with a small terminal emulator: runs the real bbni, feeds input, keeps the screen.

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"
	"unicode/utf8"
	"unsafe"
)

type screen struct {
	w, h    int
	cells   [][]rune
	cols    [][]int // foreground: 0..15, or -1 (default), or something else
	fg      int
	x, y    int
	pending []byte          // incomplete sequence
	modes   map[string]bool // private modes set and reset
	unknown map[string]int
	frames  int
}

func newScreen(w, h int) *screen {
	s := &screen{modes: map[string]bool{}, unknown: map[string]int{}}
	s.resize(w, h)
	return s
}

func (s *screen) resize(w, h int) {
	old, oldCols := s.cells, s.cols
	s.w, s.h = w, h
	s.cells = make([][]rune, h)
	s.cols = make([][]int, h)
	for i := range s.cells {
		s.cells[i] = make([]rune, w)
		s.cols[i] = make([]int, w)
		for j := range s.cells[i] {
			s.cells[i][j] = ' '
			if i < len(old) && j < len(old[i]) {
				s.cells[i][j] = old[i][j]
				s.cols[i][j] = oldCols[i][j]
			}
		}
	}
}

func (s *screen) clear() {
	for i := range s.cells {
		for j := range s.cells[i] {
			s.cells[i][j] = ' '
		}
	}
}

// feed interprets output of the program.
func (s *screen) feed(p []byte) {
	b := append(s.pending, p...)
	s.pending = nil
	i := 0
	for i < len(b) {
		n := s.one(b[i:])
		if n == 0 { // incomplete
			s.pending = append([]byte{}, b[i:]...)
			return
		}
		i += n
	}
}

func (s *screen) one(b []byte) int {
	switch c := b[0]; {
	case c == 0x1b:
		if len(b) < 2 {
			return 0
		}
		switch b[1] {
		case '[':
			for k := 2; k < len(b); k++ {
				if b[k] >= 0x40 && b[k] <= 0x7e {
					s.csi(string(b[2:k]), b[k])
					return k + 1
				}
			}
			return 0
		case ']':
			for k := 2; k < len(b); k++ {
				if b[k] == 7 {
					return k + 1
				}
				if b[k] == 0x1b {
					if k+1 == len(b) {
						return 0
					}
					return k + 2
				}
			}
			return 0
		case '(', ')':
			if len(b) < 3 {
				return 0
			}
			return 3
		default:
			return 2
		}
	case c == '\r':
		s.x = 0
	case c == '\n':
		s.y = min(s.y+1, s.h-1)
	case c == 8:
		s.x = max(0, s.x-1)
	case c < 0x20 || c == 0x7f:
	default:
		if !utf8.FullRune(b) {
			return 0
		}
		r, n := utf8.DecodeRune(b)
		if s.x >= s.w { // deferred wrap
			s.x = 0
			s.y = min(s.y+1, s.h-1)
		}
		if s.y < s.h && s.x < s.w {
			s.cells[s.y][s.x] = r
			s.cols[s.y][s.x] = s.fg
		}
		s.x++
		return n
	}
	return 1
}

func (s *screen) csi(arg string, fin byte) {
	nums := []int{}
	if !strings.HasPrefix(arg, "?") {
		for _, a := range strings.Split(arg, ";") {
			x := 0
			fmt.Sscan(a, &x)
			nums = append(nums, x)
		}
	}
	at := func(i, d int) int {
		if i < len(nums) && nums[i] > 0 {
			return nums[i]
		}
		return d
	}
	switch fin {
	case 'H', 'f':
		s.y, s.x = at(0, 1)-1, at(1, 1)-1
		if s.y == 0 && s.x == 0 {
			s.frames++
		}
	case 'J':
		if at(0, 0) >= 2 {
			s.clear()
		}
	case 'K':
		for j := s.x; j < s.w && s.y < s.h; j++ {
			s.cells[s.y][j] = ' '
		}
	case 'A':
		s.y = max(0, s.y-at(0, 1))
	case 'B':
		s.y = min(s.h-1, s.y+at(0, 1))
	case 'C':
		s.x = min(s.w-1, s.x+at(0, 1))
	case 'D':
		s.x = max(0, s.x-at(0, 1))
	case 'h', 'l':
		if strings.HasPrefix(arg, "?") {
			for _, m := range strings.Split(arg[1:], ";") {
				s.modes[m] = fin == 'h'
			}
		}
	case 'm':
		s.sgr(arg, nums)
	default:
		s.unknown[string(fin)]++
	}
}

// sgr follows the foreground color.
func (s *screen) sgr(arg string, nums []int) {
	if arg == "" {
		s.fg = -1
		return
	}
	for k := 0; k < len(nums); k++ {
		switch n := nums[k]; {
		case n == 0 || n == 39:
			s.fg = -1
		case n >= 30 && n <= 37:
			s.fg = n - 30
		case n >= 90 && n <= 97:
			s.fg = n - 82
		case n == 38 || n == 48:
			c, used := -2, 0
			if k+2 < len(nums) && nums[k+1] == 5 {
				c, used = nums[k+2], 2
			} else if k+4 < len(nums) && nums[k+1] == 2 {
				c, used = 1000+nums[k+2]<<16+nums[k+3]<<8+nums[k+4], 4
			}
			if n == 38 {
				s.fg = c
			}
			k += used
		}
	}
}

func (s *screen) text() string {
	b := strings.Builder{}
	for _, l := range s.cells {
		b.WriteString(strings.TrimRight(string(l), " "))
		b.WriteByte('\n')
	}
	return strings.TrimRight(b.String(), "\n")
}

func (s *screen) contains(sub string) bool {
	for _, l := range s.cells {
		if strings.Contains(string(l), sub) {
			return true
		}
	}
	return false
}

// tty is a running bbni.
type tty struct {
	t      *T
	master *os.File
	slave  *os.File
	cmd    *exec.Cmd
	mu     sync.Mutex
	s      *screen
	tail   []byte
	total  int
	done   chan struct{}
	err    error
	before syscall.Termios
}

const ttyTimeout = 60 * time.Second

func ioctl(f *os.File, req uintptr, arg unsafe.Pointer) error {
	_, _, e := syscall.Syscall(syscall.SYS_IOCTL, f.Fd(), req, uintptr(arg))
	if e != 0 {
		return e
	}
	return nil
}

func openPTY() (*os.File, *os.File, error) {
	fd, err := syscall.Open("/dev/ptmx", syscall.O_RDWR|syscall.O_CLOEXEC|syscall.O_NOCTTY, 0)
	if err != nil {
		return nil, nil, err
	}
	m := os.NewFile(uintptr(fd), "ptmx")
	unlock := int32(0)
	if err := ioctl(m, syscall.TIOCSPTLCK, unsafe.Pointer(&unlock)); err != nil {
		return nil, nil, err
	}
	n := uint32(0)
	if err := ioctl(m, syscall.TIOCGPTN, unsafe.Pointer(&n)); err != nil {
		return nil, nil, err
	}
	sfd, err := syscall.Open(fmt.Sprintf("/dev/pts/%d", n), syscall.O_RDWR|syscall.O_CLOEXEC|syscall.O_NOCTTY, 0)
	if err != nil {
		m.Close()
		return nil, nil, err
	}
	return m, os.NewFile(uintptr(sfd), "pts"), nil
}

func (y *tty) setSize(w, h int) {
	ws := [4]uint16{uint16(h), uint16(w), 0, 0}
	ioctl(y.master, syscall.TIOCSWINSZ, unsafe.Pointer(&ws))
}

// startTTY starts bbni on a terminal of the given size.
func startTTY(t *T, dir string, w, h int, args ...string) *tty {
	m, s, err := openPTY()
	if err != nil {
		panic(fmt.Sprint("harness: no pseudo terminal: ", err))
	}
	y := &tty{t: t, master: m, slave: s, s: newScreen(w, h), done: make(chan struct{})}
	y.setSize(w, h)
	ioctl(s, syscall.TCGETS, unsafe.Pointer(&y.before))
	y.cmd = exec.Command(filepath.Join(t.c.BinDir, "bbni"), args...)
	y.cmd.Dir = dir
	y.cmd.Env = append(os.Environ(), "TERM=xterm-256color", "LANG=C.UTF-8", "LC_ALL=C.UTF-8", "COLORTERM=")
	y.cmd.Stdin, y.cmd.Stdout, y.cmd.Stderr = s, s, s
	y.cmd.SysProcAttr = &syscall.SysProcAttr{Setsid: true, Setctty: true, Ctty: 0}
	if err := y.cmd.Start(); err != nil {
		panic(fmt.Sprint("harness: cannot start bbni: ", err))
	}
	go func() {
		buf := make([]byte, 1<<16)
		for {
			n, err := m.Read(buf)
			if n > 0 {
				y.mu.Lock()
				y.s.feed(buf[:n])
				y.total += n
				y.tail = append(y.tail, buf[:n]...)
				if len(y.tail) > 1<<17 {
					y.tail = append([]byte{}, y.tail[len(y.tail)-1<<16:]...)
				}
				y.mu.Unlock()
			}
			if err != nil {
				return
			}
		}
	}()
	go func() {
		y.err = y.cmd.Wait()
		close(y.done)
	}()
	t.Count("sessions", 1)
	return y
}

// stacks has the Go runtime print where every goroutine stands (this ends the program).
func (y *tty) stacks() string {
	y.mu.Lock()
	y.tail = nil
	y.mu.Unlock()
	y.cmd.Process.Signal(syscall.SIGQUIT)
	select {
	case <-y.done:
		time.Sleep(50 * time.Millisecond)
	case <-time.After(5 * time.Second):
	}
	y.mu.Lock()
	defer y.mu.Unlock()
	return string(y.tail)
}

const knownPending = "bbni does not end when Escape is handled while more input waits than the terminal library tcell buffers: tcell's disengage waits for its input loop, which waits for the main loop that has already stopped; the terminal stays in raw mode (in the dependency, tcell 2.7.1)"

// pendingDeadlock recognizes the known finding by the two call sites that wait for each other.
func pendingDeadlock(stacks string) bool {
	ending, sending := false, false
	for _, g := range strings.Split(strings.ReplaceAll(stacks, "\r\n", "\n"), "\n\n") {
		if strings.Contains(g, "WaitGroup.Wait") && strings.Contains(g, "tcell/v2.(*tScreen).disengage") {
			ending = true
		}
		if strings.Contains(g, "[chan send") && strings.Contains(g, "tcell/v2.(*tScreen).inputLoop") {
			sending = true
		}
	}
	return ending && sending
}

// close ends the session however it stands.
func (y *tty) close() {
	select {
	case <-y.done:
	default:
		y.cmd.Process.Kill()
		<-y.done
	}
	y.slave.Close()
	y.master.Close()
}

func (y *tty) send(s string) {
	y.t.Event("input %q", s)
	y.t.Count("inputs", 1)
	y.master.Write([]byte(s))
}

// sendMouse sends mouse input, which terminals report only if asked to.
func (y *tty) sendMouse(s string) {
	if m := y.look().modes; !m["1000"] && !m["1002"] && !m["1003"] {
		y.t.Failf("bbni has not asked the terminal for mouse input (private modes %v)", m)
	}
	y.send(s)
}

func (y *tty) look() *screen {
	y.mu.Lock()
	defer y.mu.Unlock()
	c := *y.s
	c.modes = map[string]bool{}
	for k, v := range y.s.modes {
		c.modes[k] = v
	}
	c.cells = make([][]rune, len(y.s.cells))
	c.cols = make([][]int, len(y.s.cells))
	for i := range c.cells {
		c.cells[i] = append([]rune{}, y.s.cells[i]...)
		c.cols[i] = append([]int{}, y.s.cols[i]...)
	}
	return &c
}

// lastOutput is what a crashed program wrote at the end, without control sequences.
func (y *tty) lastOutput() string {
	y.mu.Lock()
	defer y.mu.Unlock()
	b := y.tail
	if i := bytes.LastIndex(b, []byte("\x1b[?1049l")); i >= 0 {
		b = b[i:]
	}
	out := []byte{}
	for i := 0; i < len(b); i++ {
		if b[i] == 0x1b {
			for i++; i < len(b) && !(b[i] >= 0x40 && b[i] <= 0x7e && b[i] != '[' && b[i] != ']'); i++ {
			}
			continue
		}
		if b[i] != '\r' {
			out = append(out, b[i])
		}
	}
	if len(out) > 4000 {
		out = out[len(out)-4000:]
	}
	return string(out)
}

func (y *tty) exited() bool {
	select {
	case <-y.done:
		return true
	default:
		return false
	}
}

// until waits for the screen to satisfy cond. The program has no reason to take longer than the timeout.
func (y *tty) until(what string, cond func(s *screen) bool) *screen {
	deadline := time.Now().Add(ttyTimeout)
	pause := time.Millisecond
	for {
		s := y.look()
		if cond(s) {
			return s
		}
		if y.exited() {
			time.Sleep(50 * time.Millisecond)
			y.t.Failf("bbni ended (%v) while waiting for %s:\n%s", y.err, what, y.lastOutput())
		}
		if time.Now().After(deadline) {
			y.t.Failf("bbni did not get to %s within %v; screen:\n%s", what, ttyTimeout, s.text())
		}
		time.Sleep(pause)
		pause = min(pause*3/2, 50*time.Millisecond)
	}
}

// ready waits for the main screen, closing the info dialog shown for networks with an info text.
func (y *tty) ready(info bool) {
	if info {
		y.until("the info dialog", func(s *screen) bool { return s.contains("Close info") })
		y.send("\r")
	}
	y.until("the main screen", func(s *screen) bool {
		return strings.HasPrefix(string(s.cells[0]), "BBNi - ") && !s.contains("Close info") && s.contains("Network info: I")
	})
}

// barrier returns after all input sent so far has been handled.
func (y *tty) barrier() *screen {
	y.send("h")
	y.until("the help dialog", func(s *screen) bool { return s.contains("Close help") })
	y.send("\r")
	return y.until("the main screen", func(s *screen) bool { return !s.contains("Close help") && s.contains("Network info: I") })
}

// quit leaves with Escape and judges the end of the process and the state of the terminal.
func (y *tty) quit() {
	deadline := time.Now().Add(ttyTimeout)
	pause := 400 * time.Millisecond
	for n := 0; !y.exited(); n++ {
		if time.Now().After(deadline) {
			text := y.look().text()
			stacks := y.stacks()
			if pendingDeadlock(stacks) {
				y.t.Known("quit-pending-input", knownPending)
				y.t.Count("known_finding_observed", 1)
				return
			}
			y.t.Failf("bbni did not end after %d times Escape within %v; screen:\n%s\nstacks:\n%s", n, ttyTimeout, text, stacks[:min(len(stacks), 12000)])
		}
		y.send("\x1b")
		select {
		case <-y.done:
		case <-time.After(pause):
		}
		// few, as each one more that waits unread is further load
		pause = min(pause*3/2, 10*time.Second)
	}
	y.judgeEnd()
}

// ends waits for bbni to end. It gives up, with the stacks, once bbni has been idle for a long time.
func (y *tty) ends() (stacks string, ended bool) {
	ticks := func() string {
		b, _ := os.ReadFile(fmt.Sprintf("/proc/%d/stat", y.cmd.Process.Pid))
		f := strings.Fields(string(b[bytes.LastIndexByte(b, ')')+1:]))
		if len(f) < 13 {
			return ""
		}
		return f[11] + " " + f[12]
	}
	last, since, start := "", time.Now(), time.Now()
	for !y.exited() {
		if k := ticks(); k != last {
			last, since = k, time.Now()
		}
		if time.Since(since) > 10*time.Second || time.Since(start) > 5*ttyTimeout {
			return y.stacks(), false
		}
		time.Sleep(20 * time.Millisecond)
	}
	return "", true
}

// drain waits until bbni has read all input. The time limit is for input it does not read any further.
func (y *tty) drain() {
	last, since := -1, time.Now()
	for !y.exited() {
		var n int32
		ioctl(y.slave, syscall.TIOCINQ, unsafe.Pointer(&n))
		if n == 0 {
			return
		}
		if int(n) != last {
			last, since = int(n), time.Now()
		} else if time.Since(since) > ttyTimeout {
			y.t.Failf("bbni has not read its input for %v (%d bytes waiting); stacks:\n%.12000s", ttyTimeout, n, y.stacks())
		}
		time.Sleep(2 * time.Millisecond)
	}
}

func (y *tty) judgeEnd() {
	if code := y.cmd.ProcessState.ExitCode(); code != 0 {
		time.Sleep(50 * time.Millisecond)
		y.t.Failf("bbni ended with status %d after Escape:\n%s", code, y.lastOutput())
	}
	var after syscall.Termios
	ioctl(y.slave, syscall.TCGETS, unsafe.Pointer(&after))
	if after.Lflag != y.before.Lflag || after.Iflag != y.before.Iflag || after.Oflag != y.before.Oflag {
		y.t.Failf("bbni left the terminal modes changed: %+v, before: %+v", after, y.before)
	}
	deadline := time.Now().Add(5 * time.Second)
	for {
		s := y.look()
		bad := ""
		for _, m := range []string{"1049", "1000", "1002", "1003", "1006"} {
			if s.modes[m] {
				bad = m
			}
		}
		if on, ok := s.modes["25"]; ok && !on {
			bad = "25 (cursor hidden)"
		}
		if bad == "" {
			return
		}
		if time.Now().After(deadline) {
			y.t.Failf("bbni left the terminal in private mode %s; last output %q", bad, y.tail[max(0, len(y.tail)-600):])
		}
		time.Sleep(5 * time.Millisecond)
	}
}

// mouse returns the sequence of a click (0 left, 1 middle, 2 right) at a cell.
func mouseClick(button, x, y int) string {
	return fmt.Sprintf("\x1b[<%d;%d;%dM\x1b[<%d;%d;%dm", button, x+1, y+1, button, x+1, y+1)
}

// confirmed runs a terminal workload; a difference seen once is only reported if it shows again when the same
// input is repeated (a starved machine can tear an escape sequence apart, into an Escape). Crashes are reported at once.
func confirmed(fn func(t *T)) func(t *T) {
	return func(t *T) {
		again := func() (failed any) {
			t.Rand = t.c.caseRand(t.section, t.idx)
			defer func() { failed = recover() }()
			fn(t)
			return nil
		}
		first := again()
		f, ok := first.(failure)
		if first == nil {
			return
		}
		if !ok || strings.Contains(f.msg, "bbni ended") && !strings.Contains(f.msg, "bbni ended (<nil>)") && !strings.Contains(f.msg, "bbni ended (status 0)") {
			panic(first)
		}
		for k := 0; k < 2; k++ {
			t.Event("repeating after: %s", strings.SplitN(f.msg, "\n", 2)[0])
			if second := again(); second != nil {
				panic(second)
			}
		}
		t.Count("differences_not_repeatable", 1)
	}
}

// startRefused starts bbni on a terminal with arguments it has to refuse: an error message and status 1, before
// anything is displayed.
func startRefused(t *T, dir, what string, args ...string) {
	t.Event("bbni %q", args)
	y := startTTY(t, dir, 100, 40, args...)
	defer y.close()
	select {
	case <-y.done:
	case <-time.After(3 * time.Second):
		// on a slow machine it may still be about to end; once it has the screen it is not
		deadline := time.Now().Add(ttyTimeout)
		for !y.exited() && !y.look().modes["1049"] && time.Now().Before(deadline) {
			time.Sleep(20 * time.Millisecond)
		}
	}
	if !y.exited() {
		t.Failf("bbni with %s runs instead of refusing it; arguments %q, screen:\n%s", what, args, y.look().text())
	}
	deadline := time.Now().Add(5 * time.Second)
	for !strings.Contains(y.lastOutput(), "ERROR") && time.Now().Before(deadline) {
		time.Sleep(5 * time.Millisecond)
	}
	out := y.lastOutput()
	if code := y.cmd.ProcessState.ExitCode(); code != 1 || !strings.Contains(out, "ERROR") || strings.Contains(out, "goroutine ") {
		t.Failf("bbni with %s: expected exit status 1 and an ERROR line, got status %d and output:\n%s", what, code, out)
	}
	t.Count("refused_starts", 1)
}
