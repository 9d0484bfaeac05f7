package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/mlange-42/bbn"
)

func init() {
	checks["C20"] = checkC20
}

const ctrlS = "\x13"

// saver knows what a file saved now must read back as.
type saver struct {
	t       *T
	y       *tty
	m       *Net
	pos     func(i int) [2]int
	rs      []record // training data: tables are compared as those of training are
	trained bool
	file    string
	input   []byte
	target  string
	saves   int
}

func newSaver(t *T, y *tty, m *Net, file string, pos func(int) [2]int) *saver {
	b, err := os.ReadFile(file)
	if err != nil {
		t.Failf("harness: %v", err)
	}
	return &saver{t: t, y: y, m: m, pos: pos, file: file, input: b,
		target: strings.TrimSuffix(file, filepath.Ext(file)) + "-save.yml"}
}

// judge compares the saved file with the expectation; "" if it is right.
func (s *saver) judge() string {
	b, err := os.ReadFile(s.target)
	if err != nil {
		return fmt.Sprintf("no saved file: %v", err)
	}
	if len(b) == 0 {
		return "the saved file is empty"
	}
	var net *bbn.Network
	if p := panics(func() { net, err = bbn.FromFile(s.target) }); p != nil {
		return fmt.Sprintf("reading the saved file panics: %v\n%s", p, b)
	}
	if err != nil {
		return fmt.Sprintf("the saved file cannot be read: %v\n%s", err, b)
	}
	want := s.m.clone()
	for i := range want.Vars {
		want.Vars[i].Pos = s.pos(i)
	}
	if s.trained {
		if len(net.Variables()) == len(want.Vars) {
			if d := want.sameTables(net, s.rs); d != "" {
				return d + "\n" + string(b)
			}
			for i, v := range net.Variables() {
				want.Vars[i].Table = v.Factor.Table
			}
		}
	}
	if d := want.matches(net, true, true); d != "" {
		return d + "\n" + string(b)
	}
	return ""
}

// save presses Ctrl+S and waits for the right file to appear.
func (s *saver) save(what string) {
	t := s.t
	switch t.IntN(3) {
	case 0:
		os.Remove(s.target)
	case 1: // replaced as a whole
		os.WriteFile(s.target, bytes.Repeat([]byte("old: [content]\n"), 4000), 0o644)
	}
	s.y.send(ctrlS)
	s.y.barrier()
	s.await(what)
}

func (s *saver) await(what string) {
	t := s.t
	diff := ""
	deadline := time.Now().Add(10 * time.Second)
	for {
		if diff = s.judge(); diff == "" {
			break
		}
		if time.Now().After(deadline) {
			t.Failf("saved %s: %s", what, diff)
		}
		time.Sleep(3 * time.Millisecond)
	}
	t.Count("saves_judged", 1)
	t.Count("tables_compared", len(s.m.Vars))
	s.saves++
	b, _ := os.ReadFile(s.target)
	t.Distinct(string(b))
}

// around checks what else lies in the folder: the input as it was, nothing left behind.
func (s *saver) around(allowed ...string) {
	b, err := os.ReadFile(s.file)
	if err != nil || !bytes.Equal(b, s.input) {
		s.t.Failf("the input file changed (%v):\n%s", err, b)
	}
	ok := map[string]bool{filepath.Base(s.file): true, filepath.Base(s.target): true}
	for _, a := range allowed {
		ok[a] = true
	}
	es, _ := os.ReadDir(filepath.Dir(s.file))
	names := []string{}
	for _, e := range es {
		if !ok[e.Name()] {
			names = append(names, e.Name())
		}
	}
	sort.Strings(names)
	if len(names) > 0 {
		s.t.Failf("saving left other files behind: %q", names)
	}
	s.t.Count("folders_checked", 1)
}

func checkC20(c *Ctx) {
	const workers = 16
	complains := func(s *screen) bool {
		return len(s.cells) > 1 && strings.Contains(strings.ToLower(string(s.cells[1])), "error")
	}
	names := []string{"net.yml", "a.b.yml", "my net.yml", "x-save.yml", "N.YML", "sub.d/net.yml", "ünï.yml", ".hid.yml", "dir with space/n.yml", "yml.yml", "d.yml/net.yml", "a.yml.yml", "n.yml.d/n.yml.yml"}

	c.SectionPar("session", 170, 5000, workers, "bbni on generated networks (YAML and XML input, colors, info text, any file name): random keys and clicks (selection, evidence, policy mode, moves, dialogs) with saves in between; each saved file is read back and compared with the loaded network at the positions of the model, bit for bit; input file and folder checked; distinct counts saved texts", confirmed(func(t *T) {
		dir, rm := scratch(t)
		defer rm()
		n := genTUI(t)
		if t.Chance(0.08) {
			n = genTUIBig(t)
		}
		n.plainZeros()
		for i := range n.Vars {
			n.Vars[i].Color = pick(t, append([]string{"", "", ""}, tuiColors...))
		}
		n.Info = pick(t, []string{"", "", "", "One line.", "Two\nlines", "key: value # x\n- [a]\n"})
		m := n
		p := ""
		if t.Chance(0.25) {
			p = filepath.Join(dir, pick(t, []string{"net.xml", "net.bifxml", "a.b.XML"}))
			os.WriteFile(p, []byte(n.xmlText(t)), 0o644)
			net, err := bbn.FromFile(p)
			if err != nil {
				t.Failf("reading %s: %v", p, err)
			}
			m = fromNetwork(net)
			t.Count("xml_inputs", 1)
		} else {
			p = filepath.Join(dir, pick(t, names))
			os.MkdirAll(filepath.Dir(p), 0o755)
			os.WriteFile(p, []byte(n.yamlText(t, true)), 0o644)
		}
		t.Event("file %s", p)
		pols := refPolicies(t, m, p)
		arg := p
		if t.Chance(0.4) {
			arg, _ = filepath.Rel(dir, p)
		}
		w, h := m.fitSize()
		u := m.start(t, dir, arg, w, h, pols)
		defer u.y.close()
		u.y.ready(m.Info != "")
		s := newSaver(t, u.y, m, p, func(i int) [2]int { return u.pos[i] })
		if t.Chance(0.3) {
			s.save("at the start")
		}
		for k := 0; k < 6; k++ {
			last := ""
			for j := t.Range(1, 8); j > 0; j-- {
				last = u.step(true)
				if t.Chance(0.3) { // more moves than the screen check makes
					d := t.IntN(4)
					mv := [][2]int{{0, -1}, {-1, 0}, {0, 1}, {1, 0}}[d]
					for c := t.Range(1, 4); c > 0; c-- {
						u.y.send("wasd"[d : d+1])
						q := &u.pos[u.sel]
						q[0], q[1] = max(0, q[0]+mv[0]), max(0, q[1]+mv[1])
						t.Count("moves", 1)
					}
				}
			}
			s.save("after " + last)
			if t.Chance(0.3) {
				u.settled("after saving")
			}
		}
		u.y.quit()
		s.around()
		if d := s.judge(); d != "" {
			t.Failf("after leaving: %s", d)
		}
		t.Sample(map[string]any{"file": filepath.Base(p), "evidence": m.evidenceNames(u.ev), "positions": fmt.Sprint(u.pos), "saves": s.saves})
	}))

	c.SectionPar("texts", 120, 3000, workers, "networks with names, outcomes, infos and tables of any kind the reader accepts (quotes, markers, unicode, no tables, odd numbers): keyboard moves and evidence, saves, each read back and compared", confirmed(func(t *T) {
		dir, rm := scratch(t)
		defer rm()
		n := genAny(t, pick(t, []string{"tricky", "words"}))
		if t.Chance(0.3) {
			n = genTrainable(t, "tricky")
		}
		n.plainZeros()
		if len(n.Vars) == 0 {
			t.Skip()
		}
		for i := range n.Vars {
			n.Vars[i].Pos = [2]int{t.Range(0, 60), t.Range(0, 20)}
			if t.Chance(0.1) {
				n.Vars[i].Pos = [2]int{t.Range(-9, 60), t.Range(-9, 20)}
			}
			n.Vars[i].Color = pick(t, append([]string{"", "", ""}, tuiColors...))
		}
		n.Info = pick(t, infoTexts)
		p := filepath.Join(dir, pick(t, names))
		os.MkdirAll(filepath.Dir(p), 0o755)
		txt := n.yamlText(t, true)
		t.Event("file %s\n%s", p, txt)
		os.WriteFile(p, []byte(txt), 0o644)
		net, err := bbn.FromFile(p)
		if err != nil {
			t.Skip()
		}
		if _, err := net.SolvePolicies(true); err != nil {
			t.Skip()
		}
		m := fromNetwork(mustFile(t, p))
		y := startTTY(t, dir, 100, 40, p)
		defer y.close()
		y.ready(m.Info != "")
		pos := [][2]int{}
		for i := range m.Vars {
			pos = append(pos, m.Vars[i].Pos)
		}
		s := newSaver(t, y, m, p, func(i int) [2]int { return pos[i] })
		sel := 0
		for k := 0; k < 4; k++ {
			for j := t.Range(0, 10); j > 0; j-- {
				switch t.IntN(6) {
				case 0, 1:
					y.send("\t")
					sel = (sel + 1) % len(m.Vars)
				case 2:
					y.send(pick(t, []string{" ", "1", "2", "3", "p", "x"}))
				case 3:
					y.send("\r")
				default:
					d := t.IntN(4)
					mv := [][2]int{{0, -1}, {-1, 0}, {0, 1}, {1, 0}}[d]
					y.send("wasd"[d : d+1])
					// boxes outside of the canvas are shown at its border, and moved from there
					q := [2]int{max(0, pos[sel][0]), max(0, pos[sel][1])}
					if r := [2]int{max(0, q[0]+mv[0]), max(0, q[1]+mv[1])}; r != q {
						pos[sel] = r
					}
					t.Count("moves", 1)
				}
			}
			s.save(fmt.Sprintf("round %d", k))
		}
		y.quit()
		s.around()
		t.Sample(map[string]any{"file": filepath.Base(p), "positions": fmt.Sprint(pos), "saves": s.saves})
	}))

	c.SectionPar("trained", 70, 2000, workers, "bbni started with training data (and evidence): the saved file holds the trained tables, everything else as in the input file", confirmed(func(t *T) {
		dir, rm := scratch(t)
		defer rm()
		n := genTrainable(t, "words")
		n.Name = "net"
		n.tuiNames()
		o := genCsvOpt(t)
		n.csvSafe(o)
		n.tuiNames()
		if !n.uniqueNames() || len(n.Vars) > 12 {
			t.Skip()
		}
		layout(t, n, true)
		for i := range n.Vars {
			n.Vars[i].Color = pick(t, append([]string{"", ""}, tuiColors...))
		}
		n.Info = pick(t, []string{"", "", "Some words about this network"})
		rs := n.genRecords(t, t.Range(15, 60), 0.1, true)
		m, missing := n.trained(rs)
		if missing != "" {
			t.Skip()
		}
		csvf := filepath.Join(dir, "data.csv")
		data := writeCSV(o, n.csvRows(t, rs, o))
		os.WriteFile(csvf, data, 0o644)
		args := append([]string{"-t", csvf}, o.flags(t)...)
		p := n.writeNet(t, dir, "yml")
		q := m.writeNet(t, mkdir(filepath.Join(dir, "trained")), "yml")
		pols := refPolicies(t, m, q)
		os.RemoveAll(filepath.Join(dir, "trained"))
		w, h := m.fitSize()
		u := m.start(t, dir, p, w, h, pols, args...)
		defer u.y.close()
		u.y.ready(m.Info != "")
		s := newSaver(t, u.y, m, p, func(i int) [2]int { return u.pos[i] })
		s.trained, s.rs = true, rs
		for k := 0; k < 4; k++ {
			last := ""
			for j := t.Range(0, 6); j > 0; j-- {
				last = u.step(true)
			}
			s.save("trained, after " + last)
		}
		u.y.quit()
		s.around("data.csv")
		if b, _ := os.ReadFile(csvf); !bytes.Equal(b, data) {
			t.Failf("the training data changed")
		}
		t.Count("trained_sessions", 1)
		t.Sample(map[string]any{"arguments": fmt.Sprint(args), "saves": s.saves})
	}))

	c.SectionPar("failures", 80, 2000, workers, "saves that cannot be written (a folder in the way, no space left on the device, a link to nowhere, the folder gone): the app says so, carries on with the same state, and the next possible save is complete and clears the message", confirmed(func(t *T) {
		dir, rm := scratch(t)
		defer rm()
		n := genTUI(t)
		n.plainZeros()
		sub := mkdir(filepath.Join(dir, "d"))
		p := n.writeNet(t, sub, "yml")
		pols := refPolicies(t, n, p)
		w, h := n.fitSize()
		u := n.start(t, dir, p, max(w, 170), h, pols) // the message is long
		defer u.y.close()
		u.y.ready(false)
		s := newSaver(t, u.y, n, p, func(i int) [2]int { return u.pos[i] })
		steps := func() {
			for j := t.Range(0, 5); j > 0; j-- {
				u.step(true)
			}
		}
		steps()
		for k := 0; k < 3; k++ {
			kind := pick(t, []string{"folder", "full", "link", "gone"})
			os.Remove(s.target)
			moved := filepath.Join(dir, "elsewhere")
			switch kind {
			case "folder":
				os.Mkdir(s.target, 0o755)
			case "full":
				os.Symlink("/dev/full", s.target)
			case "link":
				os.Symlink(filepath.Join(dir, "nowhere", "file.yml"), s.target)
			case "gone":
				os.Rename(sub, moved)
			}
			t.Event("obstacle %s", kind)
			u.y.send(ctrlS)
			u.y.until("a message that the network was not saved ("+kind+")", func(sc *screen) bool {
				if complains(sc) {
					return true
				}
				// a way of saving that replaces the link gets by
				fi, err := os.Lstat(s.target)
				return err == nil && fi.Mode().IsRegular() && s.judge() == ""
			})
			t.Count("failed_saves_"+kind, 1)
			steps()
			u.settled("after a failed save")
			if kind == "gone" {
				os.Rename(moved, sub)
			} else {
				os.Remove(s.target)
			}
			if t.Chance(0.6) {
				u.y.send(ctrlS)
				u.y.barrier()
				s.await("after a failure (" + kind + ")")
				u.y.until("the message gone", func(s *screen) bool { return !complains(s) })
			}
			t.Distinct(fmt.Sprint(u.pos, kind, n.shape()))
		}
		u.y.quit()
		s.around()
		t.Sample(map[string]any{"positions": fmt.Sprint(u.pos), "saves": s.saves})
	}))
}

func mustFile(t *T, p string) *bbn.Network {
	net, err := bbn.FromFile(p)
	if err != nil {
		t.Failf("reading %s again: %v", p, err)
	}
	return net
}
