package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"
)

func init() {
	checks["C19"] = checkC19
}

var stressKeys = []string{
	"\t", "\t", "\x1b[Z", " ", " ", "\r", "\r", "0", "1", "2", "3", "9", "p", "p", "t", "h", "i", "w", "a", "s", "d", "s", "d", "\x13",
	"\x1b[A", "\x1b[B", "\x1b[C", "\x1b[D", "\x1bOA", "\x1b[5~", "\x1b[6~", "\x1b[H", "\x1b[F", "\x1b[2~", "\x1b[3~", "\x1bOP", "\x1b[24~",
	"j", "k", "l", "g", "G", "x", "T", "H", "é", "漢", "😀", "\x7f", "\x08", "\x01", "\x02", "\x06", "\x00", "\x1b[1;5A", "\x1b[1;2C", "\x1b[I", "\x1b[O",
	"\x1b[200~some text 12 p t h\x1b[201~", "\xff\xfe", "\x1b[99;99R", "\x1b[M !!",
}

// ended deals with a program that left on its own: only right after input that may contain an Escape, and in order.
func (y *tty) ended(mayLeave bool) {
	code := y.cmd.ProcessState.ExitCode()
	time.Sleep(30 * time.Millisecond)
	if !mayLeave || code != 0 {
		y.t.Failf("bbni ended (status %d) without Escape:\n%s", code, y.lastOutput())
	}
}

func (t *T) randomMouse(w, h int) string {
	x, y := t.Range(1, w), t.Range(1, h)
	switch t.IntN(8) {
	case 0, 1, 2:
		return mouseClick(0, x-1, y-1)
	case 3:
		return mouseClick(2, x-1, y-1)
	case 4:
		return mouseClick(1, x-1, y-1)
	case 5: // wheel
		return fmt.Sprintf("\x1b[<%d;%d;%dM", t.Range(64, 67), x, y)
	case 6: // drag
		b := pick(t, []int{0, 2})
		x2, y2 := t.Range(1, w), t.Range(1, h)
		return fmt.Sprintf("\x1b[<%d;%d;%dM\x1b[<%d;%d;%dM\x1b[<%d;%d;%dm", b, x, y, b+32, x2, y2, b, x2, y2)
	default: // movement, press without release, outside
		return fmt.Sprintf("\x1b[<%d;%d;%d%s", pick(t, []int{35, 0, 2, 1}), x+t.IntN(2)*500, y, pick(t, []string{"M", "m"}))
	}
}

// genStress makes networks of any kind, degenerate ones included.
func genStress(t *T) (text, ext string) {
	var n *Net
	switch t.IntN(5) {
	case 0:
		n = genTrainable(t, "words") // some have no tables
	case 1:
		n = genBN(t, genOpt{nMin: 1, nMax: 4, maxJoint: 400, names: "tricky", cards: "mixed"})
	default:
		n = genShow(t, pick(t, []string{"words", "tricky", "simple"}))
		if t.Chance(0.1) {
			n = genTUIBig(t)
		}
	}
	for i := range n.Vars {
		if t.Chance(0.15) {
			n.Vars[i].Pos = [2]int{t.Range(-20, 120), t.Range(-20, 60)}
		}
		n.Vars[i].Color = pick(t, append([]string{"", "", ""}, tuiColors...))
	}
	if t.Chance(0.15) {
		n.Info = pick(t, []string{"short", strings.Repeat("Long info text. ", 200), "a\nb\n\nc", "[red]tags[-]"})
	}
	n.plainZeros()
	if t.Chance(0.2) {
		return n.xmlText(t), "xml"
	}
	if t.Chance(0.3) { // numbers out of the ordinary
		r := n.raw()
		for i := range r.Vars {
			v := &r.Vars[i]
			if t.Chance(0.5) && len(v.Table) > 0 {
				s := []string{}
				x := pick(t, []string{"0", "-1", ".nan", ".inf", "-.inf", "1e300", "-1e300", "5e-324", "2", "-0.3"})
				for _, y := range v.Table {
					if t.Chance(0.4) {
						s = append(s, x)
					} else {
						s = append(s, fmt.Sprint(y))
					}
				}
				v.TableText = "[[" + strings.Join(s, ", ") + "]]"
			}
		}
		return r.yaml(), "yml"
	}
	return n.yamlText(t, true), "yml"
}

func checkC19(c *Ctx) {
	const workers = 16
	stress := func(t *T, sizes bool, rounds int) {
		dir, rm := scratch(t)
		defer rm()
		text, ext := genStress(t)
		p := filepath.Join(dir, "net."+ext)
		os.WriteFile(p, []byte(text), 0o644)
		t.Event("file\n%s", text)
		w, h := t.Range(60, 110), t.Range(20, 40)
		if sizes {
			w, h = t.Range(1, 60), t.Range(1, 20)
		}
		y := startTTY(t, dir, w, h, p)
		defer y.close()
		y.until("the first screen", func(s *screen) bool { return y.total > 0 && (s.modes["1049"] || s.frames > 0) })
		time.Sleep(30 * time.Millisecond)
		for k := 0; k < rounds; k++ {
			mayLeave := false
			for j := t.Range(1, 12); j > 0; j-- {
				switch {
				case t.Chance(0.35):
					y.send(t.randomMouse(w, h))
				case t.Chance(0.02): // bytes
					b := make([]byte, t.Range(1, 12))
					for i := range b {
						b[i] = byte(t.IntN(256))
					}
					y.send(string(b))
					mayLeave = true
					time.Sleep(70 * time.Millisecond)
				default:
					s := pick(t, stressKeys)
					y.send(strings.Repeat(s, 1+t.IntN(3)))
				}
			}
			if sizes || t.Chance(0.1) {
				w, h = t.Range(1, 120), t.Range(1, 45)
				if sizes && t.Chance(0.3) {
					w, h = t.Range(1, 8), t.Range(1, 6)
				}
				y.mu.Lock()
				y.s.resize(w, h)
				y.mu.Unlock()
				y.setSize(w, h)
				t.Event("terminal %dx%d", w, h)
				t.Count("resizes", 1)
			}
			if t.Chance(0.5) {
				time.Sleep(time.Duration(t.Range(1, 30)) * time.Millisecond)
			}
			// an Escape inside a dialog must only close it
			if y.exited() {
				y.ended(mayLeave)
				t.Count("ended_by_input", 1)
				t.Distinct(text, k)
				return
			}
			t.Distinct(text, k)
		}
		y.setSize(100, 40)
		y.mu.Lock()
		y.s.resize(100, 40)
		y.mu.Unlock()
		time.Sleep(100 * time.Millisecond) // let a torn sequence at the end time out
		if !y.exited() {
			y.quit()
		} else {
			y.judgeEnd()
		}
		if strings.Contains(y.lastOutput(), "panic") || strings.Contains(y.lastOutput(), "goroutine ") {
			t.Failf("bbni left with a crash report:\n%s", y.lastOutput())
		}
		t.Count("clean_exits", 1)
		t.Count("output_bytes", y.total)
		t.Sample(map[string]any{"file": text[:min(len(text), 300)], "output_bytes": y.total})
	}
	c.SectionPar("input", 44, 4000, workers, "race-instrumented bbni on networks of every kind (degenerate tables, no tables, any positions and names), bursts of keys, clicks, drags, wheel, paste, broken sequences; then Escape: it ends with status 0, terminal restored, no race report; distinct counts rounds of input on a network", confirmed(func(t *T) {
		stress(t, false, 12)
	}))
	c.SectionPar("sizes", 32, 2500, workers, "the same with the terminal changing its size (down to 1x1) between bursts", confirmed(func(t *T) {
		stress(t, true, 12)
	}))
	c.SectionPar("long", 10, 500, workers, "long sessions: hundreds of evidence changes, outcome and policy switches, dialogs and saves, and keys held down (moves far beyond the first canvas and back) on one running app, some started with evidence; then Escape ends it with status 0; distinct counts rounds", confirmed(func(t *T) {
		dir, rm := scratch(t)
		defer rm()
		var n *Net
		if t.Chance(0.3) {
			n = genTUIBig(t)
		} else {
			n = genShow(t, "simple")
		}
		n.plainZeros()
		text := n.yamlText(t, true)
		p := filepath.Join(dir, "net.yml")
		os.WriteFile(p, []byte(text), 0o644)
		t.Event("file\n%s", text)
		w, h := t.Range(60, 110), t.Range(20, 40)
		y := startTTY(t, dir, w, h, p)
		defer y.close()
		y.until("the first screen", func(s *screen) bool { return y.total > 0 && (s.modes["1049"] || s.frames > 0) })
		time.Sleep(50 * time.Millisecond)
		changes, rounds := 0, t.Range(10, 20)
		for k := 0; k < rounds; k++ {
			var b strings.Builder
			switch t.IntN(6) {
			case 0: // held down
				b.WriteString(strings.Repeat(pick(t, []string{"s", "d", "w", "a", "s", "d", "\t", "\x1b[Z", " ", "\x1b[B", "\x1b[C"}), t.Range(20, 60)))
			case 1:
				b.WriteString(strings.Repeat(pick(t, []string{"p", "\r", "t\r", "h\r", "i\r", "\x13", "t\x1b[B\x1b[6~\r"}), t.Range(5, 15)))
			case 2:
				for j := t.Range(5, 30); j > 0; j-- {
					b.WriteString(t.randomMouse(w, h))
				}
			default:
				for j := t.Range(5, 30); j > 0; j-- {
					b.WriteString(pick(t, []string{"\t\r", " \r", "\r", "\t \r", "1\r", "2\r", "\x1b[Z\r"}))
					changes++
				}
			}
			y.send(b.String())
			y.drain()
			if y.exited() {
				y.ended(false)
				return
			}
			t.Distinct(text, k)
		}
		t.Count("evidence_keys", changes)
		y.setSize(100, 40)
		y.mu.Lock()
		y.s.resize(100, 40)
		y.mu.Unlock()
		time.Sleep(100 * time.Millisecond)
		y.quit()
		if strings.Contains(y.lastOutput(), "panic") || strings.Contains(y.lastOutput(), "goroutine ") {
			t.Failf("bbni left with a crash report:\n%s", y.lastOutput())
		}
		t.Count("clean_exits", 1)
		t.Count("output_bytes", y.total)
		t.Sample(map[string]any{"file": text[:min(len(text), 300)], "output_bytes": y.total})
	}))
	c.SectionPar("pending", 6, 60, 6, "Escape handled while hundreds of further inputs (keys or mouse movements) wait unread: the program ends with status 0, terminal restored; the known finding is recognized by the two call sites in the terminal library that wait for each other", func(t *T) {
		dir, rm := scratch(t)
		defer rm()
		n := genShow(t, "simple")
		n.plainZeros()
		n.Info = ""
		n.Vars[0].Pos = [2]int{t.Range(200, 400), t.Range(100, 200)} // a large canvas takes its time
		text := n.yamlText(t, true)
		p := filepath.Join(dir, "net.yml")
		os.WriteFile(p, []byte(text), 0o644)
		t.Event("file\n%s", text)
		y := startTTY(t, dir, 100, 40, p)
		defer y.close()
		y.ready(false)
		y.send(strings.Repeat("p", t.Range(30, 60)))
		time.Sleep(20 * time.Millisecond)
		y.send("\x1b")
		time.Sleep(120 * time.Millisecond)
		var b strings.Builder
		for j := t.Range(200, 300) * t.Range(0, 1); j > 0; j-- {
			fmt.Fprintf(&b, "\x1b[<35;%d;%dM", t.Range(1, 100), t.Range(1, 40))
		}
		for j := t.Range(0, 2500); j > 0; j-- {
			b.WriteString(pick(t, []string{"w", "d", "1", "x"}))
		}
		// written in the background: nobody reads it once the program is about to end
		go func() { y.master.Write([]byte(b.String())) }()
		t.Count("inputs_pending", b.Len())
		stacks, ended := y.ends()
		switch {
		case ended:
			y.judgeEnd()
			t.Count("clean_exits", 1)
		case pendingDeadlock(stacks):
			t.Known("quit-pending-input", knownPending)
			t.Count("known_finding_observed", 1)
		default:
			t.Failf("bbni did not end after Escape; stacks:\n%.12000s", stacks)
		}
		t.Distinct(text, b.String())
		t.Sample(map[string]any{"pending_bytes": b.Len(), "ended": ended})
	})
	c.SectionPar("far", 24, 300, 2, "networks with a node at a position far beyond any screen (up to the largest numbers a file can hold): bbni runs, or refuses with an error message and status 1; it does not crash", func(t *T) {
		n := genAny(t, "words")
		far := []int{1 << 20, 100000000, 1000000000, 1 << 31, 1 << 40, 1 << 62, 9223372036854775700, 9223372036854775800, 9223372036854775807}
		k := t.IntN(len(n.Vars))
		switch t.IntN(4) {
		case 0:
			n.Vars[k].Pos = [2]int{pick(t, far[1:]), t.Range(0, 50)}
		case 1:
			n.Vars[k].Pos = [2]int{t.Range(0, 50), pick(t, far[1:])}
		case 2:
			n.Vars[k].Pos = [2]int{pick(t, far), pick(t, far)}
		default:
			n.Vars[k].Pos = [2]int{-pick(t, far), pick(t, far[1:])}
		}
		dir, rm := scratch(t)
		defer rm()
		p := n.writeNet(t, dir, "yml")
		y := startTTY(t, dir, 100, 40, p)
		defer y.close()
		deadline := time.Now().Add(ttyTimeout)
		for !y.exited() && !y.look().modes["1049"] && time.Now().Before(deadline) {
			time.Sleep(10 * time.Millisecond)
		}
		t.Distinct(n.Vars[k].Pos, n.shape())
		if !y.exited() {
			t.Count("far_displayed", 1)
			return
		}
		for end := time.Now().Add(5 * time.Second); !strings.Contains(y.lastOutput(), "ERROR") && time.Now().Before(end); {
			time.Sleep(5 * time.Millisecond)
		}
		out := y.lastOutput()
		if code := y.cmd.ProcessState.ExitCode(); code != 1 || !strings.Contains(out, "ERROR") || strings.Contains(out, "goroutine ") {
			t.Failf("bbni on a network with a node at %v: status %d and output:\n%s", n.Vars[k].Pos, code, out[:min(len(out), 3000)])
		}
		t.Count("refused_starts", 1)
	})
	c.SectionPar("dialogs", 48, 2000, workers, "each dialog opened by key or mouse on any node, used with keys, wheel and mouse presses on its help line: Escape closes it, then Escape ends the program", confirmed(func(t *T) {
		dir, rm := scratch(t)
		defer rm()
		text, ext := genStress(t)
		p := filepath.Join(dir, "net."+ext)
		os.WriteFile(p, []byte(text), 0o644)
		t.Event("file\n%s", text)
		y := startTTY(t, dir, 100, 40, p)
		defer y.close()
		s := y.until("the first screen", func(s *screen) bool {
			return s.contains("Network info: I") || s.contains("Close info")
		})
		if s.contains("Close info") {
			y.send("\x1b")
			time.Sleep(80 * time.Millisecond)
		}
		y.until("the main screen", func(s *screen) bool { return !s.contains("Close info") && s.contains("Network info: I") })
		for k := 0; k < 4; k++ {
			for j := t.Range(0, 4); j > 0; j-- {
				y.send("\t")
			}
			d := t.IntN(3)
			y.send([]string{"t", "h", "i"}[d])
			mark := []string{"Close table", "Close help", "Close info"}[d]
			s := y.until("the dialog", func(s *screen) bool { return s.contains(mark) })
			my, mx := 0, 0
			for r, l := range s.cells {
				if i := strings.Index(string(l), mark); i >= 0 {
					my, mx = r, len([]rune(string(l)[:i]))
				}
			}
			for j := t.Range(0, 5); j > 0; j-- {
				switch t.IntN(3) {
				case 0:
					y.send(pick(t, []string{"\x1b[A", "\x1b[B", "\x1b[C", "\x1b[D", "j", "k", "\x1b[6~", "\x1b[F", "g", "G", "x", "\t", " "}))
				case 1: // press and release at different places of the help line: not a click, that would close it
					y.send(fmt.Sprintf("\x1b[<0;%d;%dM\x1b[<0;%d;%dm", mx+2+t.IntN(10), my+1, mx+1, my+1))
				default:
					y.send(fmt.Sprintf("\x1b[<%d;%d;%dM", 64+t.IntN(2), mx+3, my-2))
				}
			}
			y.send("\x1b")
			time.Sleep(80 * time.Millisecond)
			y.until("the main screen after Escape in a dialog", func(s *screen) bool { return !s.contains(mark) && s.contains("Network info: I") })
			t.Count("dialogs", 1)
			t.Distinct(text, d, k)
		}
		y.quit()
		t.Sample(map[string]any{"file": text[:min(len(text), 300)]})
	}))
}
