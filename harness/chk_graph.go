package main

import (
	"fmt"
	"strings"
	"time"
	"unicode"
)

func init() {
	checks["C23"] = checkC23
}

type cellSet map[[2]int]map[rune]bool

func (c cellSet) add(x, y int, r rune) {
	k := [2]int{x, y}
	if c[k] == nil {
		c[k] = map[rune]bool{}
	}
	c[k][r] = true
}

// edge returns what the arrow from one box to another has to look like on the canvas, its head last;
// nothing is drawn between boxes that overlap.
func edge(b1, b2 [4]int) (path [][3]int) {
	put := func(x, y int, r rune) { path = append(path, [3]int{x, y, int(r)}) }
	x1, y1, w1, h1 := b1[0], b1[1], b1[2], b1[3]
	x2, y2, w2, h2 := b2[0], b2[1], b2[2], b2[3]
	above, below := y1+h1 <= y2, y2+h2 <= y1
	left, right := x1+w1 <= x2, x2+w2 <= x1
	switch {
	case !above && !below && !left && !right:
	case !left && !right: // one above the other: straight, in the middle of what they share
		x := (max(x1, x2) + min(x1+w1, x2+w2)) / 2
		if above {
			for y := y1 + h1; y < y2-1; y++ {
				put(x, y, '│')
			}
			put(x, y2-1, 'v')
		} else {
			for y := y1 - 1; y > y2+h2; y-- {
				put(x, y, '│')
			}
			put(x, y2+h2, '^')
		}
	case !above && !below: // side by side
		y := (max(y1, y2) + min(y1+h1, y2+h2)) / 2
		if left {
			for x := x1 + w1; x < x2-1; x++ {
				put(x, y, '─')
			}
			put(x2-1, y, '>')
		} else {
			for x := x1 - 1; x > x2+w2; x-- {
				put(x, y, '─')
			}
			put(x2+w2, y, '<')
		}
	default: // around a corner: sideways from the parent, then to the nearer side of the child
		y, x := y1, x2
		if above {
			y = y1 + h1 - 1
		}
		if left {
			for k := x1 + w1; k < x2; k++ {
				put(k, y, '─')
			}
		} else {
			x = x2 + w2 - 1
			for k := x1 - 1; k > x; k-- {
				put(k, y, '─')
			}
		}
		corner := map[[2]bool]rune{{true, true}: '┐', {true, false}: '┘', {false, true}: '┌', {false, false}: '└'}[[2]bool{left, above}]
		if above {
			if y < y2-1 {
				put(x, y, corner)
			}
			for k := y + 1; k < y2-1; k++ {
				put(x, k, '│')
			}
			put(x, y2-1, 'v')
		} else {
			if y > y2+h2 {
				put(x, y, corner)
			}
			for k := y - 1; k > y2+h2; k-- {
				put(x, k, '│')
			}
			put(x, y2+h2, '^')
		}
	}
	return path
}

func (u *ui) box(i int) [4]int {
	return [4]int{u.pos[i][0], u.pos[i][1], u.size[i][0], u.size[i][1]}
}

// judgeGraph compares outlines, arrows and empty space with the model.
func (u *ui) judgeGraph(s *screen, count func(string, int)) (diff string) {
	n := u.n
	lines := cellSet{}
	heads := map[[2]int][]string{}
	for i := range n.Vars {
		for _, p := range n.Vars[i].Parents {
			path := edge(u.box(p), u.box(i))
			for _, c := range path {
				lines.add(c[0], c[1], rune(c[2]))
			}
			if len(path) > 0 {
				e := path[len(path)-1]
				heads[[2]int{e[0], e[1]}] = append(heads[[2]int{e[0], e[1]}], fmt.Sprintf("%q -> %q", n.Vars[p].Name, n.Vars[i].Name))
			}
		}
	}
	for y := u.sy; y < u.sy+u.h-4; y++ {
		for x := u.sx; x < u.sx+u.w-2; x++ {
			if u.hidden(-1, x, y) {
				continue
			}
			r, ok := u.cell(s, x, y)
			if !ok {
				continue
			}
			if r == 0 {
				r = ' '
			}
			k := [2]int{x, y}
			if lines[k] == nil {
				if r != ' ' {
					return fmt.Sprintf("%q at column %d, row %d of the graph, where there is nothing to show", r, x, y)
				}
				continue
			}
			if !lines[k][r] {
				want := []string{}
				for c := range lines[k] {
					want = append(want, string(c))
				}
				return fmt.Sprintf("%q at column %d, row %d of the graph, expected one of %q (arrow heads here: %v)", r, x, y, want, heads[k])
			}
			if c := s.cols[2+y-u.sy][1+x-u.sx]; c != -1 && c != 15 {
				return fmt.Sprintf("%q at column %d, row %d of the graph, part of an arrow, is drawn in color %d", r, x, y, c)
			}
			count("line_cells_compared", 1)
			if heads[k] != nil {
				count("arrow_heads_seen", len(heads[k]))
			}
		}
	}
	// the frame tells whether policies are ignored
	mode, other := 0, 1
	if u.ignore {
		mode, other = 1, 0
	}
	for _, p := range [][2]int{{0, 1}, {u.w - 1, 1}, {0, u.h - 2}, {u.w - 1, u.h - 2}} {
		c := s.cols[p[1]][p[0]]
		if c == -1 { // white or what the terminal takes for it
			c = 15
		}
		if u.frame[other][c] {
			return fmt.Sprintf("the frame at %d, %d has color %d with policies ignored and with policies in force", p[0], p[1], c)
		}
		count("frame_colors_seen", 1)
		defer func() {
			if diff == "" {
				if u.frame[mode] == nil {
					u.frame[mode] = map[int]bool{}
				}
				u.frame[mode][c] = true
			}
		}()
	}
	for i := range n.Vars {
		W, H := u.size[i][0], u.size[i][1]
		style := 0
		if i == u.sel {
			style = 1
		}
		h, v := "─═", "│║"
		at := func(x, y int, set string) string {
			if g, ok := u.segment(s, i, y, x, x+1); ok {
				if w := []rune(set)[style]; []rune(g)[0] != w {
					return fmt.Sprintf("outline of node %q is %q at %d, %d, expected %q", n.Vars[i].Name, g, x, y, w)
				}
				count("outline_cells_compared", 1)
			}
			return ""
		}
		d := []string{at(0, 0, "┌╔"), at(W-1, 0, "┐╗"), at(0, H-1, "└╚"), at(W-1, H-1, "┘╝")}
		for x := 1; x < W-1; x++ {
			d = append(d, at(x, 0, h), at(x, H-1, h))
		}
		for y := 1; y < H-1; y++ {
			d = append(d, at(0, y, v), at(W-1, y, v))
		}
		want := n.colorOf(i)
		for y := 0; y < H; y++ {
			for x := 0; x < W; x++ {
				g, ok := u.segment(s, i, y, x, x+1)
				if !ok || g == " " {
					continue
				}
				if c := s.cols[2+u.pos[i][1]+y-u.sy][1+u.pos[i][0]+x-u.sx]; c != want && !(want == 15 && c == -1) {
					d = append(d, fmt.Sprintf("%q at %d, %d of node %q is drawn in color %d, expected %d", g, x, y, n.Vars[i].Name, c, want))
				}
				count("colors_compared", 1)
			}
		}
		for _, x := range d {
			if x != "" {
				return x
			}
		}
	}
	return ""
}

var colorNames = []string{"black", "maroon", "green", "olive", "navy", "purple", "teal", "silver", "gray", "red", "lime", "yellow", "blue", "fuchsia", "aqua", "white"}

// colorOf returns the terminal color of a node: the one given, or that of its type.
func (n *Net) colorOf(i int) int {
	name := n.Vars[i].Color
	if name == "" {
		name = map[Kind]string{Chance: "white", Decision: "blue", Utility: "green"}[n.Vars[i].Kind]
	}
	for k, c := range colorNames {
		if c == name {
			return k
		}
	}
	return -3
}

func (u *ui) graphSettled(what string) {
	u.clampScroll()
	u.y.barrier()
	deadline := time.Now().Add(10 * time.Second)
	for {
		s := u.y.look()
		diff := u.judgeGraph(s, func(string, int) {})
		if diff == "" {
			u.judgeGraph(s, u.t.Count)
			break
		}
		if u.y.exited() || time.Now().After(deadline) {
			u.t.Failf("%s: %s\nscreen:\n%s\n%s", what, diff, s.text(), u.n)
		}
		time.Sleep(10 * time.Millisecond)
	}
	u.t.Count("graphs_judged", 1)
	u.t.Distinct(u.n.shape(), u.pos, u.sel, u.sx, u.sy)
}

func noSpace(s string) string {
	return strings.Map(func(r rune) rune {
		if unicode.IsSpace(r) {
			return -1
		}
		return r
	}, s)
}

// genInfo makes a text of words, empty lines, long words and things that look like markup.
func genInfo(t *T) string {
	b := strings.Builder{}
	for k := t.Range(1, pick(t, []int{3, 30, 150, 400})); k > 0; k-- {
		switch t.IntN(12) {
		case 0:
			b.WriteString(strings.Repeat("long", t.Range(5, 40)))
		case 1:
			b.WriteString(pick(t, []string{"[red]", "[-]", "[::b]", "[x]", "[\"region\"]", "]["}))
		case 2:
			b.WriteString(pick(t, []string{"\n", "\n\n", "\n\n\n", "\n  "}))
		case 3:
			b.WriteString(pick(t, []string{"é", "größer", "—", "'q'", "\"q\"", "100%", "%s", "<tag>", "a:b", "#", "{}", "\\n"}))
		default:
			for j := t.Range(1, 12); j > 0; j-- {
				b.WriteByte(byte('a' + t.IntN(26)))
			}
		}
		b.WriteString(pick(t, []string{" ", " ", " ", " ", "\n", ", ", ". "}))
	}
	s := strings.TrimSpace(b.String())
	if s == "" {
		return "info"
	}
	return s
}

// infoPage reads the lines of the info dialog, after all input has been handled.
func (u *ui) infoPage() []string {
	u.y.send("\r")
	u.y.until("the main screen", func(s *screen) bool { return !s.contains("Close info") })
	u.y.barrier()
	u.y.send("i")
	s := u.y.until("the info text", func(s *screen) bool { return s.contains("Close info") })
	for k := 0; k < 100; k++ { // the rest of the output
		time.Sleep(2 * time.Millisecond)
		next := u.y.look()
		if next.text() == s.text() && k > 1 {
			break
		}
		s = next
	}
	x, y := (u.w-72)/2, (u.h-20)/2
	out := []string{}
	for r := y + 1; r < y+18; r++ {
		out = append(out, strings.TrimRight(strings.ReplaceAll(string(s.cells[r][x+1:x+71]), "\x00", " "), " "))
	}
	return out
}

func checkC23(c *Ctx) {
	const workers = 16
	c.SectionPar("moves", 160, 4000, workers, "bbni on generated networks of every kind, boxes apart or anywhere: at the start and after moves and other input the whole graph is compared with the model: outlines of the visible boxes, one arrow per declared parent with its head at the child, nothing anywhere else; distinct counts judged drawings", confirmed(func(t *T) {
		dir, rm := scratch(t)
		defer rm()
		n := genTUI(t)
		if t.Chance(0.45) { // boxes that touch, or almost
			for i := 1; i < len(n.Vars); i++ {
				j := t.IntN(i)
				s, z := boxSize(&n.Vars[j]), boxSize(&n.Vars[i])
				p := n.Vars[j].Pos
				q := [2]int{p[0] + t.Range(-3, 3), p[1] + t.Range(-3, 3)}
				switch t.IntN(4) {
				case 0:
					q[0] = p[0] + s[0] + t.Range(0, 2)
				case 1:
					q[0] = p[0] - z[0] - t.Range(0, 2)
				case 2:
					q[1] = p[1] + s[1] + t.Range(0, 2)
				default:
					q[1] = p[1] - z[1] - t.Range(0, 2)
				}
				n.Vars[i].Pos = [2]int{min(max(0, q[0]), 90), min(max(0, q[1]), 40)}
			}
		}
		p := n.writeNet(t, dir, "yml")
		pols := refPolicies(t, n, p)
		w, h := n.fitSize()
		u := n.start(t, dir, p, w, h, pols)
		defer u.y.close()
		u.y.ready(false)
		u.graphSettled("at the start")
		for k := 0; k < 12; k++ {
			last := ""
			if t.Chance(0.6) {
				for j := t.Range(1, 3); j > 0; j-- {
					d := t.IntN(4)
					m := [][2]int{{0, -1}, {-1, 0}, {0, 1}, {1, 0}}[d]
					for c := t.Range(1, 9); c > 0; c-- {
						// stay inside of the window: the graph must not scroll
						p := &u.pos[u.sel]
						if p[0]+m[0]+u.size[u.sel][0] > w-3 || p[1]+m[1]+u.size[u.sel][1] > h-5 {
							break
						}
						u.y.send("wasd"[d : d+1])
						p[0], p[1] = max(0, p[0]+m[0]), max(0, p[1]+m[1])
					}
				}
				last = "moves"
				t.Count("moves", 1)
			} else {
				last = u.step(false)
			}
			u.graphSettled("after " + last)
		}
		u.y.quit()
		t.Sample(map[string]any{"variables": len(n.Vars), "terminal": []int{w, h}})
	}))
	c.SectionPar("scrolled", 50, 1200, workers, "the same for the visible part in terminals smaller than the graph", confirmed(func(t *T) {
		dir, rm := scratch(t)
		defer rm()
		n := genTUI(t)
		p := n.writeNet(t, dir, "yml")
		pols := refPolicies(t, n, p)
		u := n.start(t, dir, p, t.Range(76, 100), t.Range(26, 32), pols)
		defer u.y.close()
		u.y.ready(false)
		u.graphSettled("at the start")
		for k := 0; k < 10; k++ {
			last := ""
			for j := t.Range(1, 4); j > 0; j-- {
				last = u.step(false)
			}
			u.graphSettled("after " + last)
		}
		u.y.quit()
		t.Sample(map[string]any{"variables": len(n.Vars), "scrolled to": []int{u.sx, u.sy}})
	}))
	c.SectionPar("large", 24, 600, workers, "the same with 13..45 nodes, or with up to 100 outcomes of one node, in terminals of up to 600 columns that show all of it and in small ones that show a part", confirmed(func(t *T) {
		dir, rm := scratch(t)
		defer rm()
		n := genTUIBig(t)
		p := n.writeNet(t, dir, "yml")
		w, h := n.fitSize()
		all := t.Chance(0.5)
		if !all {
			w, h = t.Range(76, min(w, 200)), t.Range(26, min(h, 60))
		}
		u := n.start(t, dir, p, w, h, nil)
		defer u.y.close()
		u.y.ready(false)
		u.graphSettled("at the start")
		for k := 0; k < 6; k++ {
			last := ""
			if !all && t.Chance(0.5) {
				d := t.IntN(4)
				m := [][2]int{{0, -1}, {0, 1}, {1, 0}, {-1, 0}}[d]
				by := t.Range(10, 150)
				u.y.send(strings.Repeat("\x1b["+"ABCD"[d:d+1], by))
				for ; by > 0; by-- {
					u.sx, u.sy = u.sx+m[0], u.sy+m[1]
					u.clampScroll()
				}
				last = "scrolling far"
			} else {
				last = u.step(false)
			}
			u.graphSettled("after " + last)
		}
		u.y.quit()
		t.Sample(map[string]any{"variables": len(n.Vars), "terminal": []int{w, h}, "scrolled to": []int{u.sx, u.sy}})
	}))
	c.SectionPar("info", 90, 2500, workers, "networks with info texts of 1..400 words: the text is shown at the start and on request, scrolling through it shows every character of it in order, closing it brings back the graph; networks without one start with the graph", confirmed(func(t *T) {
		dir, rm := scratch(t)
		defer rm()
		n := genTUI(t)
		if t.Chance(0.85) {
			n.Info = genInfo(t)
		}
		p := n.writeNet(t, dir, "yml")
		pols := refPolicies(t, n, p)
		w, h := n.fitSize()
		u := n.start(t, dir, p, w, h, pols)
		defer u.y.close()
		if n.Info == "" {
			u.y.ready(false)
			u.graphSettled("at the start")
			u.y.quit()
			t.Count("without_info", 1)
			t.Distinct("none", n.shape())
			return
		}
		u.y.until("the info text", func(s *screen) bool { return s.contains("Close info") })
		for round := 0; round < 2; round++ {
			if round > 0 {
				u.y.send("i")
				u.y.until("the info text", func(s *screen) bool { return s.contains("Close info") })
				u.y.send(strings.Repeat("\x1b[A", 250)) // it may be scrolled to where it was
			}
			all := u.infoPage()
			last := all
			for k := 0; k < 60; k++ {
				by := t.Range(1, 12)
				u.y.send(strings.Repeat("\x1b[B", by))
				next := u.infoPage()
				for ; by >= 0; by-- {
					if fmt.Sprint(next[:len(next)-by]) == fmt.Sprint(last[by:]) {
						break
					}
				}
				if by < 0 {
					t.Failf("the info text does not scroll as asked:\n%s\nthen\n%s", strings.Join(last, "\n"), strings.Join(next, "\n"))
				}
				if by == 0 {
					break
				}
				all = append(all, next[len(next)-by:]...)
				t.Count("lines_scrolled", by)
				last = next
			}
			if g, w := noSpace(strings.Join(all, "")), noSpace(n.Info); g != w {
				t.Failf("the info text reads %q, expected %q", g, w)
			}
			t.Count("texts_compared", 1)
			u.closeDialog()
			u.graphSettled("after closing the info text")
		}
		u.y.quit()
		t.Distinct(len(n.Info), n.shape())
		t.Sample(map[string]any{"info": cut(n.Info, 60), "length": len(n.Info)})
	}))
}
