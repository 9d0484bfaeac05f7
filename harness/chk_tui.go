package main

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
	"slices"
	"strings"
	"time"
	"unicode"

	"github.com/mlange-42/bbn"
)

func init() {
	checks["C18"] = checkC18
}

// ui is the model of the interactive app: what the input so far must have led to.
type ui struct {
	t       *T
	n       *Net
	pols    map[int]*RF
	y       *tty
	w, h    int // terminal
	pos     [][2]int
	size    [][2]int
	sel, st int
	ev      map[int]int
	ignore  bool
	sx, sy  int // scroll offset
	title   string
	frame   [2]map[int]bool // colors of the frame seen with policies in force and ignored
}

const (
	maxTitle = 48
	maxLabel = 16
)

func runes(s string) int { return len([]rune(s)) }

func boxSize(v *V) [2]int {
	l := 0
	for _, o := range v.Outcomes {
		l = max(l, runes(o))
	}
	l = min(l, maxLabel)
	bars := 10
	h := len(v.Outcomes) + 3
	if v.Kind == Utility {
		bars = 5
		h++
	}
	return [2]int{max(l+bars+9, min(runes(v.Name), maxTitle)) + 4, h}
}

func (u *ui) barsX(i int) int {
	l := 0
	for _, o := range u.n.Vars[i].Outcomes {
		l = max(l, runes(o))
	}
	return min(l, maxLabel) + 3
}

// layout gives nodes positions: apart from each other, or anywhere.
func layout(t *T, n *Net, spread bool) { layoutTo(t, n, spread, 110, 70, 25) }

// layoutTo does so in rows of a given width, or in a given area.
func layoutTo(t *T, n *Net, spread bool, width, w, h int) {
	x, y, rowH := t.Range(0, 3), t.Range(0, 3), 0
	for i := range n.Vars {
		s := boxSize(&n.Vars[i])
		if !spread {
			n.Vars[i].Pos = [2]int{t.Range(0, w), t.Range(0, h)}
			continue
		}
		if x > 0 && x+s[0] > width {
			x, y, rowH = t.Range(0, 5), y+rowH+t.Range(1, 3), 0
		}
		n.Vars[i].Pos = [2]int{x, y}
		x += s[0] + t.Range(1, 8)
		rowH = max(rowH, s[1])
	}
}

// tuiNames keeps to what a terminal shows in one cell per character.
func (n *Net) tuiNames() {
	fix := func(s string) string {
		out := []rune{}
		for _, r := range s {
			if (r >= 32 && r < 127 && r != '[' && r != ']') || (r >= 0xc0 && r < 0x180) {
				out = append(out, r)
			}
		}
		return strings.TrimSpace(string(out))
	}
	n.cliNames()
	for i := range n.Vars {
		n.Vars[i].Name = fix(n.Vars[i].Name)
		for k := range n.Vars[i].Outcomes {
			n.Vars[i].Outcomes[k] = fix(n.Vars[i].Outcomes[k])
		}
	}
}

func (u *ui) canvas() (w, h int) {
	for i := range u.pos {
		w = max(w, u.pos[i][0]+u.size[i][0])
		h = max(h, u.pos[i][1]+u.size[i][1])
	}
	return
}

func (u *ui) clampScroll() {
	w, h := u.canvas()
	u.sx = max(0, min(u.sx, w-(u.w-2)))
	u.sy = max(0, min(u.sy, h-(u.h-4)))
}

// cell returns what the terminal shows at a canvas position; ok is false outside of the window.
func (u *ui) cell(s *screen, x, y int) (rune, bool) {
	cx, cy := 1+x-u.sx, 2+y-u.sy
	if cx < 1 || cx > u.w-2 || cy < 2 || cy > u.h-3 {
		return 0, false
	}
	return s.cells[cy][cx], true
}

// hidden reports whether a canvas position is covered by a node drawn later.
func (u *ui) hidden(i, x, y int) bool {
	for j := i + 1; j < len(u.pos); j++ {
		p, z := u.pos[j], u.size[j]
		if x >= p[0] && x < p[0]+z[0] && y >= p[1] && y < p[1]+z[1] {
			return true
		}
	}
	return false
}

// segment reads part of a row of a node box; ok is false if any of it is not visible.
func (u *ui) segment(s *screen, i, row, from, to int) (string, bool) {
	b := []rune{}
	for x := from; x < to; x++ {
		if u.hidden(i, u.pos[i][0]+x, u.pos[i][1]+row) {
			return "", false
		}
		r, ok := u.cell(s, u.pos[i][0]+x, u.pos[i][1]+row)
		if !ok {
			return "", false
		}
		b = append(b, r)
	}
	return string(b), true
}

func cut(s string, n int) string {
	r := []rune(s)
	return string(r[:min(len(r), n)])
}

// spaced is how a name is drawn: control characters take the place of a space.
func spaced(s string) string {
	return strings.Map(func(r rune) rune {
		if unicode.IsControl(r) {
			return ' '
		}
		return r
	}, s)
}

// plain leaves out control characters and spaces: dialogs and messages may show them either way.
func plain(s string) string {
	return strings.ReplaceAll(spaced(s), " ", "")
}

func (n *Net) plainUnique() bool {
	seen := map[string]bool{}
	for i := range n.Vars {
		if p := plain(n.Vars[i].Name); p == "" || seen[p] {
			return false
		} else {
			seen[p] = true
		}
		so := map[string]bool{}
		for _, o := range n.Vars[i].Outcomes {
			p := plain(o)
			if p == "" || so[p] {
				return false
			}
			so[p] = true
		}
	}
	return true
}

// judge compares the whole screen with the model; it returns a description of the first difference.
func (u *ui) judge(s *screen, want []shown, count func(string, int)) string {
	n := u.n
	if len(s.cells) != u.h || len(s.cells[0]) != u.w {
		return "screen size"
	}
	if !strings.HasPrefix(string(s.cells[0]), cut("BBNi - "+u.title, u.w)) {
		return fmt.Sprintf("header %q, expected network %q", strings.TrimSpace(string(s.cells[0])), u.title)
	}
	for i := range n.Vars {
		v := &n.Vars[i]
		W, bx := u.size[i][0], u.barsX(i)
		titleEnd := W - 2
		if v.Kind != Chance {
			titleEnd = W - 3
		}
		if g, ok := u.segment(s, i, 1, 2, titleEnd); ok {
			if w := cut(spaced(v.Name), titleEnd-2); strings.TrimRight(g, " ") != strings.TrimRight(w, " ") {
				return fmt.Sprintf("title of node %q is %q", v.Name, g)
			}
			count("titles_compared", 1)
		}
		if g, ok := u.segment(s, i, 1, W-3, W-2); ok && v.Kind != Chance {
			if (g == "!") != (v.Kind == Decision) || (g == "$") != (v.Kind == Utility) {
				return fmt.Sprintf("node %q has kind mark %q", v.Name, g)
			}
		}
		rows := len(v.Outcomes)
		labels := append([]string{}, v.Outcomes...)
		if v.Kind == Utility {
			labels = append(labels, "total")
			rows++
		}
		// utility nodes show their expected utility in the first row (single node) or per parent (total), then the total
		for k := 0; k < rows; k++ {
			end := bx + 18
			if v.Kind == Utility {
				end = bx + 13
			}
			if g, ok := u.segment(s, i, k+2, end, max(end, W-2)); ok && strings.Trim(g, " ") != "" {
				return fmt.Sprintf("row %d of node %q ends with %q", k, v.Name, g)
			}
			if g, ok := u.segment(s, i, k+2, W-1, W); ok && g != "│" && g != "║" {
				return fmt.Sprintf("row %d of node %q has %q as its right border", k, v.Name, g)
			}
			if g, ok := u.segment(s, i, k+2, 2, bx-1); ok {
				if w := cut(spaced(labels[k]), bx-3); strings.TrimRight(g, " ") != strings.TrimRight(w, " ") {
					return fmt.Sprintf("label %d of node %q is %q, expected %q", k, v.Name, g, w)
				}
			}
			if v.Kind == Utility {
				g, ok := u.segment(s, i, k+2, bx+1, bx+13)
				if !ok {
					continue
				}
				x, isNum := parseNumber(strings.TrimSpace(g))
				if want[i].val == nil {
					if isNum && !math.IsNaN(x) {
						return fmt.Sprintf("utility node %q shows %q for impossible evidence", v.Name, g)
					}
					continue
				}
				if k < len(want[i].val) {
					tol := want[i].tol[k]
					if w := want[i].val[k]; runes(fmt.Sprintf("%.3f", w*1.001)) > 12 {
						tol += 0.51e-4 * math.Abs(w) // more digits than the box has room for
						count("large_utilities", 1)
					}
					if !isNum || math.Abs(x-want[i].val[k]) > tol {
						return fmt.Sprintf("utility node %q shows %q in row %d, exact value %.6f", v.Name, g, k, want[i].val[k])
					}
					count("values_compared", 1)
				}
				continue
			}
			l, okL := u.segment(s, i, k+2, 1, 2)
			r, okR := u.segment(s, i, k+2, W-2, W-1)
			_, isEv := u.ev[i]
			wl, wr := " ", " "
			if i == u.sel && k == u.st {
				wl, wr = "[", "]"
			} else if isEv {
				wl, wr = "+", "+"
			}
			if (okL && l != wl) || (okR && r != wr) {
				return fmt.Sprintf("node %q row %d has marks %q %q, expected %q %q (evidence: %v, selected: %v)", v.Name, k, l, r, wl, wr, isEv, i == u.sel && k == u.st)
			}
			if g, ok := u.segment(s, i, k+2, bx+11, bx+18); ok {
				x, isNum := parseNumber(strings.TrimSpace(g))
				if want[i].val == nil {
					if isNum && !math.IsNaN(x) {
						return fmt.Sprintf("node %q shows %q for impossible evidence", v.Name, g)
					}
					count("impossible_rows", 1)
				} else {
					if !isNum || math.Abs(x-want[i].val[k]) > want[i].tol[k] {
						return fmt.Sprintf("node %q shows %q for outcome %q, exact value %.6f", v.Name, g, v.Outcomes[k], want[i].val[k])
					}
					count("values_compared", 1)
				}
			}
			if g, ok := u.segment(s, i, k+2, bx, bx+10); ok && want[i].val != nil {
				lo, hi, valid := barRange(g)
				if p := want[i].val[k] / 100; !valid || p < lo-1e-6 || p > hi+1e-6 {
					return fmt.Sprintf("node %q outcome %q has bar %q, exact value %.6f%%", v.Name, v.Outcomes[k], g, 100*p)
				}
				count("bars_compared", 1)
			}
		}
		if g, ok := u.segment(s, i, 0, 0, W); ok {
			if single := strings.HasPrefix(g, "┌─"); single == (i == u.sel) || !(single || strings.HasPrefix(g, "╔═")) {
				return fmt.Sprintf("node %q has frame %q, selected: %v", v.Name, g, i == u.sel)
			}
		}
	}
	return ""
}

// barRange returns the probabilities a bar of ten cells can stand for.
func barRange(g string) (lo, hi float64, ok bool) {
	parts := []rune("▏▎▍▌▋▊▉")
	full, partial := 0, -1
	state := 0
	for _, r := range g {
		switch {
		case r == '█' && state == 0:
			full++
		case r == '░':
			state = 2
		default:
			if state != 0 {
				return 0, 0, false
			}
			for k, p := range parts {
				if r == p {
					partial = k
				}
			}
			if partial < 0 {
				return 0, 0, false
			}
			state = 1
		}
	}
	f := float64(full)
	if partial < 0 {
		return f / 10, (f + 1.0/7) / 10, true
	}
	// the block for k eighths may be used for the k-th of seven or of eight steps
	return (f + float64(partial)/8) / 10, (f + float64(partial+2)/7) / 10, true
}

// settled judges the screen until it agrees with the model (output may still be in flight after the barrier).
func (u *ui) settled(what string) {
	want, possible := u.n.expectedDisplay(u.ev, u.pols, u.ignore)
	u.clampScroll()
	u.y.barrier()
	deadline := time.Now().Add(10 * time.Second)
	for {
		s := u.y.look()
		diff := u.judge(s, want, func(string, int) {})
		if diff == "" {
			u.judge(s, want, u.t.Count)
			break
		}
		if u.y.exited() || time.Now().After(deadline) {
			u.t.Failf("%s: %s\nevidence %v, policies ignored: %v\nscreen:\n%s\n%s", what, diff, u.n.evidenceNames(u.ev), u.ignore, s.text(), u.n)
		}
		time.Sleep(10 * time.Millisecond)
	}
	u.t.Count("screens_judged", 1)
	if !possible {
		u.t.Count("impossible_evidence_screens", 1)
	}
	u.t.Distinct(u.n.shape(), u.ev, u.ignore, u.sel, u.st, u.pos)
}

func (u *ui) selectNode(i int) {
	if i != u.sel {
		u.st = 0
	}
	u.sel = i
}

func (u *ui) toggle() {
	v := &u.n.Vars[u.sel]
	if v.Kind == Utility {
		return
	}
	if o, ok := u.ev[u.sel]; ok && o == u.st {
		delete(u.ev, u.sel)
	} else {
		u.ev[u.sel] = u.st
	}
}

// step makes one random input and updates the model. moving: node moves allowed (not with scrolling).
func (u *ui) step(moving bool) string {
	t, n := u.t, u.n
	card := len(n.Vars[u.sel].Outcomes)
	switch k := t.IntN(20); {
	case k < 3:
		u.y.send("\t")
		u.sel, u.st = (u.sel+1)%len(n.Vars), 0
		return "Tab"
	case k < 4:
		u.y.send("\x1b[Z")
		u.sel, u.st = (u.sel+len(n.Vars)-1)%len(n.Vars), 0
		return "Backtab"
	case k < 6:
		u.y.send(" ")
		u.st = (u.st + 1) % card
		return "Space"
	case k < 8:
		d := t.Range(0, 9)
		u.y.send(fmt.Sprint(d))
		if d >= 1 && d <= card {
			u.st = d - 1
		}
		return "digit"
	case k < 11:
		u.y.send("\r")
		u.toggle()
		return "Enter"
	case k < 12:
		u.y.send("p")
		u.ignore = !u.ignore
		return "p"
	case k < 14 && moving:
		d := t.IntN(4)
		m := [][2]int{{0, -1}, {-1, 0}, {0, 1}, {1, 0}}[d]
		for c := t.Range(1, 6); c > 0; c-- {
			u.y.send("wasd"[d : d+1])
			p := &u.pos[u.sel]
			p[0], p[1] = max(0, p[0]+m[0]), max(0, p[1]+m[1])
		}
		return "move"
	case k < 14:
		d := t.IntN(4)
		m := [][2]int{{0, -1}, {0, 1}, {1, 0}, {-1, 0}}[d]
		for c := t.Range(1, 9); c > 0; c-- {
			u.y.send("\x1b[" + "ABCD"[d:d+1])
			u.sx, u.sy = u.sx+m[0], u.sy+m[1]
			u.clampScroll()
		}
		return "scroll"
	case k < 18:
		return u.click(0)
	case k < 19:
		s := u.click(2)
		if s == "right click on a node" {
			u.y.until("the table dialog", func(s *screen) bool { return s.contains("Close table") })
			u.closeDialog()
		}
		return s
	case t.Chance(0.4):
		d := t.IntN(2)
		u.y.send("hi"[d : d+1])
		u.y.until("the dialog", func(s *screen) bool { return s.contains([]string{"Close help", "Close info"}[d]) })
		u.closeDialog()
		return "dialog"
	default:
		x := pick(t, []string{"x", "z", "é", "H", "T", "\x1bOP", "\x1b[15~", "\x7f", "\x1b[2~"})
		u.y.send(x)
		return "other key"
	}
}

func (u *ui) closeDialog() {
	t := u.t
	switch t.IntN(3) {
	case 0:
		u.y.send("\r")
	case 1:
		u.y.send("\x1b")
		// Escape is only told apart from a sequence by time
		time.Sleep(120 * time.Millisecond)
	default:
		x, y := u.w/2, u.h/2
		if side := (u.w - 72) / 2; side >= 6 && t.Chance(0.5) {
			// beside the dialog, whatever is there: closes it, and nothing else
			x, y = t.Range(1, side-3), t.Range(2, u.h-3)
			t.Count("dialogs_closed_from_beside", 1)
		}
		u.y.sendMouse(mouseClick(pick(t, []int{0, 2}), x, y))
	}
	u.y.until("the main screen", func(s *screen) bool {
		return !s.contains("Close table") && !s.contains("Close info") && !s.contains("Close help")
	})
}

// click clicks on a visible cell of the graph, mostly on an outcome of a node.
func (u *ui) click(button int) string {
	t, n := u.t, u.n
	var cx, cy int
	if t.Chance(0.85) {
		i := t.IntN(len(n.Vars))
		cx, cy = u.pos[i][0]+t.IntN(u.size[i][0]), u.pos[i][1]+t.IntN(u.size[i][1])
		if t.Chance(0.8) {
			cy = u.pos[i][1] + 2 + t.IntN(len(n.Vars[i].Outcomes))
		}
	} else {
		cx, cy = t.IntN(u.w), t.IntN(u.h)
	}
	u.clampScroll()
	sx, sy := 1+cx-u.sx, 2+cy-u.sy
	if sx < 1 || sx > u.w-2 || sy < 2 || sy > u.h-3 {
		return "no click"
	}
	hit := -1
	for i := range n.Vars {
		p, z := u.pos[i], u.size[i]
		if cx >= p[0] && cx < p[0]+z[0] && cy >= p[1] && cy < p[1]+z[1] {
			hit = i // the last one is on top
		}
	}
	u.y.sendMouse(mouseClick(button, sx, sy))
	if hit < 0 {
		return "click beside nodes"
	}
	u.selectNode(hit)
	if button == 2 {
		return "right click on a node"
	}
	if row := cy - u.pos[hit][1] - 2; row >= 0 && row < len(n.Vars[hit].Outcomes) {
		u.st = row
		u.toggle()
	}
	return "click on a node"
}

// table opens the table dialog of the selected node and judges every cell.
func (u *ui) table() {
	t, n := u.t, u.n
	v := &n.Vars[u.sel]
	var rf *RF
	given := v.Parents
	switch {
	case v.Kind == Decision:
		rf = u.pols[u.sel]
		given = nil
		if rf != nil {
			for _, p := range rf.v {
				if p != u.sel {
					given = append(given, p)
				}
			}
		}
	}
	rows := 1
	for _, p := range given {
		rows *= n.card(p)
	}
	if u.sel == n.total() {
		rows = 1
	}
	if rows+9 > u.h {
		return
	}
	// width: separated columns have to fit into the dialog
	width := 4
	cells := len(given)
	for _, p := range given {
		l := runes(n.Vars[p].Name)
		for _, o := range n.Vars[p].Outcomes {
			l = max(l, runes(o))
		}
		width += l + 1
	}
	cell := 13
	if v.Kind == Utility {
		for _, x := range v.Table {
			cell = max(cell, runes(fmt.Sprintf("%.3f", x))+1)
		}
	}
	for _, o := range v.Outcomes {
		width += max(runes(o), cell) + 1
		cells++
	}
	if width > 68 || u.sel == n.total() {
		return
	}
	u.y.send("t")
	deadline := time.Now().Add(10 * time.Second)
	var diff string
	var s *screen
	for {
		s = u.y.until("the table dialog", func(s *screen) bool { return s.contains("Close table") })
		if diff = u.judgeTable(s, v, given, rf, rows); diff == "" {
			break
		}
		if time.Now().After(deadline) {
			t.Failf("table dialog of %q: %s\nscreen:\n%s\n%s", v.Name, diff, s.text(), n)
		}
		time.Sleep(10 * time.Millisecond)
	}
	t.Count("tables_judged", 1)
	t.Count("table_rows_judged", rows)
	u.closeDialog()
}

func (u *ui) judgeTable(s *screen, v *V, given []int, rf *RF, rows int) string {
	n := u.n
	end := -1
	for k, l := range s.cells {
		if strings.Contains(string(l), "Close table") {
			end = k
		}
	}
	// rows+1 lines above the bottom border of the table
	first := end - 2 - rows
	if first < 1 {
		return "the dialog does not fit"
	}
	split := func(l []rune) []string {
		out := []string{}
		// the part between the borders of dialog and table
		str := string(l)
		for _, c := range strings.FieldsFunc(str[max(0, strings.IndexAny(str, "│║")):], func(r rune) bool { return r == '│' || r == '║' }) {
			out = append(out, strings.TrimSpace(c))
		}
		return out
	}
	want := append(append([]string{}, n.namesOf(given)...), v.Outcomes...)
	head := u.dialogRow(s.cells[first], split)
	if len(head) != len(want) {
		return fmt.Sprintf("header %q, expected %q", head, want)
	}
	order := []int{}
	for k := range given {
		i := -1
		for j := range n.Vars {
			if plain(n.Vars[j].Name) == plain(head[k]) {
				i = j
			}
		}
		if i < 0 || !contains(given, i) || contains(order, i) {
			return fmt.Sprintf("header %q, expected %q", head, want)
		}
		order = append(order, i)
	}
	for k := range v.Outcomes {
		if plain(head[len(given)+k]) != plain(v.Outcomes[k]) {
			return fmt.Sprintf("header %q, expected %q", head, want)
		}
	}
	seen := map[string]bool{}
	for r := 0; r < rows; r++ {
		c := u.dialogRow(s.cells[first+1+r], split)
		if len(c) != len(want) {
			return fmt.Sprintf("row %d is %q, expected %d cells", r, c, len(want))
		}
		x := make([]int, len(n.Vars))
		for k, p := range order {
			o := -1
			for j, name := range n.Vars[p].Outcomes {
				if plain(name) == plain(c[k]) {
					o = j
				}
			}
			if o < 0 {
				return fmt.Sprintf("row %d is %q: no outcome %q of %q", r, c, c[k], n.Vars[p].Name)
			}
			x[p] = o
		}
		key := fmt.Sprint(c[:len(given)])
		if seen[key] {
			return fmt.Sprintf("row %q twice", c[:len(given)])
		}
		seen[key] = true
		vals := make([]float64, len(v.Outcomes))
		for k := range vals {
			x[u.sel] = k
			if rf != nil {
				vals[k] = rf.at(x)
			} else {
				idx := 0
				for _, p := range v.Parents {
					idx = idx*n.card(p) + x[p]
				}
				vals[k] = v.Table[idx*len(v.Outcomes)+k]
			}
		}
		if v.Kind != Utility {
			vals = normalized(vals)
		}
		for k, w := range vals {
			cell := c[len(given)+k]
			g, ok := parseNumber(cell)
			tol := 0.0005 + 2e-6 + 1e-9*math.Abs(w)
			if v.Kind != Utility {
				w *= 100
			}
			if math.IsNaN(w) {
				if ok && !math.IsNaN(g) {
					return fmt.Sprintf("row %q shows %q for an undefined value", c, cell)
				}
				continue
			}
			if !ok || math.Abs(g-w) > tol || strings.HasSuffix(cell, "%") != (v.Kind != Utility) {
				return fmt.Sprintf("row %q shows %q for outcome %q, exact value %.6f", c, cell, v.Outcomes[k], w)
			}
			u.t.Count("table_cells_judged", 1)
		}
	}
	return ""
}

// bigTable opens the table dialog of the selected node, however large the table, scrolls through it in both
// directions and compares every cell seen with the table; in the end every cell has to have been seen.
func (u *ui) bigTable() {
	t, n := u.t, u.n
	v := &n.Vars[u.sel]
	given := v.Parents
	rf := u.pols[u.sel]
	if v.Kind == Decision {
		given = nil
		if rf == nil {
			return
		}
		for _, p := range rf.v {
			if p != u.sel {
				given = append(given, p)
			}
		}
	}
	if u.sel == n.total() || len(v.Table) == 0 && v.Kind != Decision {
		return
	}
	rows := 1
	for _, p := range given {
		rows *= n.card(p)
	}
	cols := len(given) + len(v.Outcomes)
	// columns with less than half of the dialog's width can be brought into view completely
	wide := 0
	for _, p := range given {
		wide = max(wide, runes(n.Vars[p].Name))
		for _, o := range n.Vars[p].Outcomes {
			wide = max(wide, runes(o))
		}
	}
	for _, o := range v.Outcomes {
		wide = max(wide, runes(o))
	}
	if wide > 30 {
		return
	}
	u.y.send("t")
	s := u.y.until("the table dialog", func(s *screen) bool { return s.contains("Close table") })
	time.Sleep(20 * time.Millisecond)
	page := func() (lines [][]string) {
		s = u.y.look()
		end := -1
		for k, l := range s.cells {
			if strings.Contains(string(l), "Close table") {
				end = k
			}
		}
		for k := end - 2; k > 0; k-- {
			x := max(0, (u.w-72)/2)
			l := s.cells[k][x:min(u.w, x+72)]
			// borders of the dialog and of the table on both sides
			if len(l) < 4 || !strings.ContainsRune("│║", l[1]) {
				break
			}
			line := []string{}
			for _, c := range strings.FieldsFunc(string(l[2:len(l)-2])+"│", func(r rune) bool { return r == '│' }) {
				line = append(line, strings.TrimSpace(c))
			}
			lines = append([][]string{line}, lines...)
		}
		return
	}
	// after a key, the next picture: equal to the one before if the key had no effect
	press := func(k string) [][]string {
		u.y.send(k)
		before := fmt.Sprint(page())
		for j := 0; j < 40; j++ {
			if now := page(); fmt.Sprint(now) != before {
				time.Sleep(5 * time.Millisecond)
				return page()
			}
			time.Sleep(5 * time.Millisecond)
		}
		return page()
	}
	value := func(x []int, k int) float64 {
		vals := make([]float64, len(v.Outcomes))
		for k := range vals {
			x[u.sel] = k
			if rf != nil && v.Kind == Decision {
				vals[k] = rf.at(x)
			} else {
				idx := 0
				for _, p := range v.Parents {
					idx = idx*n.card(p) + x[p]
				}
				vals[k] = v.Table[idx*len(v.Outcomes)+k]
			}
		}
		if v.Kind != Utility {
			return 100 * normalized(vals)[k]
		}
		return vals[k]
	}
	fail := func(f string, a ...any) {
		t.Failf("table dialog of %q: %s\nscreen:\n%s\n%s", v.Name, fmt.Sprintf(f, a...), s.text(), n)
	}
	p := page()
	if len(p) == 0 {
		fail("no table to be seen")
	}
	// the order of the observed variables is the app's choice for policies; the leftmost columns tell
	order := given
	if v.Kind == Decision {
		order = nil
		for k := 0; k < len(given); k++ {
			if k >= len(p[0]) {
				break
			}
			for _, i := range given {
				if plain(n.Vars[i].Name) == plain(p[0][k]) && !contains(order, i) {
					order = append(order, i)
				}
			}
		}
		if len(order) != len(given) { // not all visible
			u.closeDialog()
			return
		}
	}
	header := append(n.namesOf(order), v.Outcomes...)
	text := func(r, c int) (string, float64, bool) {
		x := make([]int, len(n.Vars))
		k := r
		for j := len(order) - 1; j >= 0; j-- {
			x[order[j]] = k % n.card(order[j])
			k /= n.card(order[j])
		}
		if c < len(order) {
			return n.Vars[order[c]].Outcomes[x[order[c]]], 0, false
		}
		return "", value(x, c-len(order)), true
	}
	seen := map[[2]int]bool{}
	// judge compares a page that starts at the given row and column. Columns at the edges may be cut off, then they
	// do not count as seen.
	judge := func(p [][]string, r0, c0 int) (found [][2]int, diff string) {
		if len(p[0]) > cols-c0 {
			return nil, fmt.Sprintf("%d columns, expected %d", len(p[0]), cols-c0)
		}
		if r0+len(p)-1 > rows {
			return nil, fmt.Sprintf("%d rows, expected %d", len(p)-1, rows-r0)
		}
		for j, l := range p {
			if len(l) != len(p[0]) {
				return nil, fmt.Sprintf("line %q has not as many columns as the first", l)
			}
			for k, cell := range l {
				edge := k == len(l)-1 || k == 0
				ok, want := false, ""
				if j == 0 {
					want = header[c0+k]
					ok = plain(want) == plain(cell)
				} else if w, x, num := text(r0+j-1, c0+k); !num {
					want = w
					ok = plain(want) == plain(cell)
				} else {
					want = fmt.Sprintf("%.6f", x)
					g, isNum := parseNumber(cell)
					if math.IsNaN(x) {
						ok = !isNum || math.IsNaN(g)
					} else {
						ok = isNum && math.Abs(g-x) <= 0.0005+2e-6+1e-9*math.Abs(x) && strings.HasSuffix(cell, "%") == (v.Kind != Utility)
					}
				}
				if !ok && !edge {
					return nil, fmt.Sprintf("row %d shows %q in column %d (%q), expected %s", r0+j-1, cell, c0+k, header[c0+k], want)
				}
				if ok {
					found = append(found, [2]int{r0 + j - 1, c0 + k})
				}
			}
		}
		return found, ""
	}
	// place finds out where a page starts, among the given rows and columns, and notes what was seen
	place := func(p [][]string, r0, r1, c0, c1 int) (ra, rb, ca, cb int, diff string) {
		ra, rb, ca, cb = rows, -1, cols, -1
		for r := r0; r <= r1; r++ {
			for c := c0; c <= c1 && c < cols; c++ {
				f, d := judge(p, r, c)
				if d != "" {
					if diff == "" {
						diff = d
					}
					continue
				}
				for _, x := range f {
					seen[x] = true
				}
				ra, rb, ca, cb = min(ra, r), max(rb, r), min(ca, c), max(cb, c)
			}
		}
		if rb >= 0 {
			diff = ""
		}
		return
	}
	all := func() bool {
		for r := -1; r < rows; r++ {
			for c := 0; c < cols; c++ {
				if !seen[[2]int{r, c}] {
					return false
				}
			}
		}
		return true
	}
	at := func(r0, r1, c0, c1 int) (ra, rb, ca, cb int) {
		d := ""
		for k := 0; k < 60; k++ {
			if k > 0 {
				time.Sleep(10 * time.Millisecond)
				p = page()
			}
			if len(p) == 0 {
				continue
			}
			if ra, rb, ca, cb, d = place(p, r0, r1, c0, c1); d == "" {
				t.Count("table_pages_judged", 1)
				return
			}
		}
		fail("scrolled to row %d..%d, column %d..%d: %s", r0, r1, c0, c1, d)
		return
	}
	// The table widget chooses the leftmost column itself when there is room on the right, and may go back to the
	// first one with the next key: where it starts is found out from the titles.
	covered := func(r0, r1 int) bool {
		for r := r0 - 1; r < r1; r++ {
			for c := 0; c < cols; c++ {
				if !seen[[2]int{max(-1, r), c}] {
					return false
				}
			}
		}
		return true
	}
	for try := 0; try < 2 && !all(); try++ {
		p = press("\x1b[H")
		at(0, 0, 0, cols)
		ra, rb, steps := 0, 0, 0
		for {
			for _, key := range []string{"\x1b[C", "\x1b[D"} { // right, left
				for k := 0; k < cols+1 && !covered(ra, rb+len(p)-1); k++ {
					p = press(key)
					at(ra, rb, 0, cols)
				}
			}
			if rb+len(p)-1 >= rows || len(p) < 2 {
				break
			}
			if k := len(p) - 1; k > 1 && t.Chance(0.7) {
				p = press("\x1b[6~")
				ra, rb, _, _ = at(ra, rb+k, 0, cols)
			} else {
				p = press("\x1b[B")
				ra, rb, _, _ = at(ra, rb+1, 0, cols)
			}
			if ra == rb && t.Chance(0.1) {
				p = press("\x1b[A")
				at(max(0, ra-1), ra-1+1, 0, cols)
				p = press("\x1b[B")
				ra, rb, _, _ = at(max(0, ra-1), ra+1, 0, cols)
			}
			if steps++; steps > 2*rows+20 {
				break
			}
		}
	}
	for r := -1; r < rows; r++ {
		for c := 0; c < cols; c++ {
			if !seen[[2]int{r, c}] {
				fail("row %d, column %d (%q) of the table is nowhere to be seen, or always wrong", r, c, header[c])
			}
		}
	}
	t.Count("tables_scrolled", 1)
	t.Count("table_cells_judged", rows*cols)
	u.closeDialog()
}

// dialogRow cuts a screen line down to the dialog (72 columns in the middle) and splits it into cells.
func (u *ui) dialogRow(l []rune, split func([]rune) []string) []string {
	x := max(0, (u.w-72)/2)
	l = l[x:min(len(l), x+72)]
	out := split(l)
	for len(out) > 0 && out[0] == "" {
		out = out[1:]
	}
	for len(out) > 0 && out[len(out)-1] == "" {
		out = out[:len(out)-1]
	}
	return out
}

// genTUI makes a network whose display fits the model.
func genTUI(t *T) *Net {
	for {
		n := genShow(t, pick(t, []string{"words", "simple", "words"}))
		n.Name = pick(t, []string{"net", "Some network", "x-1"})
		n.tuiNames()
		// utilities the boxes can show, and distributions that sometimes make evidence impossible
		for _, i := range n.ofKind(Utility) {
			for k, x := range n.Vars[i].Table {
				if math.Abs(x) > 9999 {
					n.Vars[i].Table[k] = math.Mod(x, 1000)
				}
			}
		}
		if t.Chance(0.15) { // large ones, partly too large for the usual format
			f := math.Pow(10, float64(t.Range(2, 9)))
			for _, i := range n.ofKind(Utility) {
				if i == n.total() {
					continue
				}
				for k := range n.Vars[i].Table {
					n.Vars[i].Table[k] = math.Round(n.Vars[i].Table[k] * f)
				}
			}
		}
		if t.Chance(0.15) { // line breaks and tabs in names
			i := t.IntN(len(n.Vars))
			n.Vars[i].Name += pick(t, []string{"\nx", "\ty", "\n\nz w"})
			if n.Vars[i].Kind != Utility {
				k := t.IntN(len(n.Vars[i].Outcomes))
				n.Vars[i].Outcomes[k] += pick(t, []string{"\nx", "\ty", "\n\nz w"})
			}
		}
		if t.Chance(0.2) {
			for _, i := range n.ofKind(Chance) {
				v := &n.Vars[i]
				for r := 0; r < len(v.Table)/n.card(i); r++ {
					if n.card(i) > 1 && t.Chance(0.4) {
						v.Table[r*n.card(i)+t.IntN(n.card(i))] = 0
						if sum(v.Table[r*n.card(i):(r+1)*n.card(i)]) == 0 {
							v.Table[r*n.card(i)] = 1
						}
					}
				}
			}
		}
		if t.Chance(0.2) {
			i := t.IntN(len(n.Vars))
			n.Vars[i].Name += " " + strings.Repeat("long name ", 5) + "end"
			k := t.IntN(len(n.Vars[i].Outcomes))
			n.Vars[i].Outcomes[k] += " with quite some more text"
		}
		if t.Chance(0.25) { // names that look like the markup of the terminal library
			for i := range n.Vars {
				if t.Chance(0.5) {
					n.Vars[i].Name = fmt.Sprintf(pick(t, []string{"[%s]", "%s [red]", "[%s", "%s]", "[-]%s", "[::b]%s", "[%s[]"}), n.Vars[i].Name)
				}
				for o := range n.Vars[i].Outcomes {
					if t.Chance(0.4) {
						n.Vars[i].Outcomes[o] = fmt.Sprintf(pick(t, []string{"[%s]", "%s[x]", "[%s", "%s]", "[%s,0]", "[white]%s"}), n.Vars[i].Outcomes[o])
					}
				}
			}
		}
		if n.uniqueNames() && n.plainUnique() && len(n.Vars) <= 12 {
			layout(t, n, t.Chance(0.7))
			return n
		}
	}
}

// genTUIBig makes a large network for the display: 13..45 nodes, or up to 100 outcomes, in up to some hundred columns and rows.
func genTUIBig(t *T) *Net {
	for {
		n := genBN(t, genOpt{nMin: 13, nMax: 45, maxJoint: math.MaxInt, maxTable: 256, structure: pick(t, []string{"chain", "tree", "forest", "grid", "star", "random"}), cards: pick(t, []string{"binary", "small", "ones"}), names: "simple"})
		if t.Chance(0.25) {
			n = genBN(t, genOpt{nMin: 2, nMax: 6, maxJoint: 1 << 13, maxTable: 1 << 10, cards: "big", names: "words"})
		}
		for i := range n.Vars {
			if len(n.Vars[i].Outcomes) > 100 {
				n.Vars = nil
				break
			}
		}
		if len(n.Vars) == 0 || n.elimCost(nil, nil) > 1<<11 {
			continue
		}
		if t.Chance(0.5) {
			n = addUtilities(t, n)
		}
		n.Name = pick(t, []string{"net", "Some network", "x-1"})
		n.tuiNames()
		if !n.uniqueNames() || !n.plainUnique() {
			continue
		}
		layoutTo(t, n, t.Chance(0.7), pick(t, []int{150, 250, 400, 600}), t.Range(80, 300), t.Range(30, 150))
		return n
	}
}

// start brings up bbni on a network file.
func (n *Net) start(t *T, dir, file string, w, h int, pols map[int]*RF, args ...string) *ui {
	u := &ui{t: t, n: n, pols: pols, w: w, h: h, ev: map[int]int{}, title: n.Name}
	for i := range n.Vars {
		p := n.Vars[i].Pos
		u.pos = append(u.pos, [2]int{max(0, p[0]), max(0, p[1])})
		u.size = append(u.size, boxSize(&n.Vars[i]))
	}
	u.y = startTTY(t, dir, w, h, append([]string{file}, args...)...)
	return u
}

// fitSize is a terminal that shows the whole graph with room to move nodes.
func (n *Net) fitSize() (int, int) {
	w, h := 80, 30
	for i := range n.Vars {
		s := boxSize(&n.Vars[i])
		w = max(w, n.Vars[i].Pos[0]+s[0]+24)
		h = max(h, n.Vars[i].Pos[1]+s[1]+24)
	}
	return w, h
}

func checkC18(c *Ctx) {
	const workers = 16
	c.SectionPar("session", 240, 6000, workers, "bbni on generated networks of every kind: random keys and clicks (selection, evidence, policy mode, moves, table dialogs); after every one to five inputs the whole screen is compared with the model: titles, labels, percentages, bars, utilities, marks, frames; distinct counts judged states", confirmed(func(t *T) {
		dir, rm := scratch(t)
		defer rm()
		n := genTUI(t)
		p := n.writeNet(t, dir, "yml")
		pols := refPolicies(t, n, p)
		w, h := n.fitSize()
		u := n.start(t, dir, p, w, h, pols)
		defer u.y.close()
		u.y.ready(false)
		u.settled("at the start")
		for k := 0; k < 14; k++ {
			last := ""
			for j := t.Range(1, 5); j > 0; j-- {
				last = u.step(true)
			}
			u.settled("after " + last)
			if t.Chance(0.4) {
				u.table()
			}
		}
		u.y.quit()
		t.Sample(map[string]any{"variables": n.namesOf(seq(len(n.Vars))), "evidence": n.evidenceNames(u.ev), "ignore policies": u.ignore})
	}))
	c.SectionPar("evidence", 120, 3000, workers, "small networks: evidence is entered and withdrawn on every node by keyboard and mouse in turn, both policy modes, impossible combinations included; every screen judged", confirmed(func(t *T) {
		dir, rm := scratch(t)
		defer rm()
		n := genTUI(t)
		p := n.writeNet(t, dir, "yml", "xml")
		if strings.HasSuffix(p, "xml") {
			// positions are converted in this format
			net, err := bbn.FromFile(p)
			if err != nil {
				t.Failf("%v", err)
			}
			for i, v := range net.Variables() {
				n.Vars[i].Pos = v.Position
			}
			n.Name = net.Name()
		}
		pols := refPolicies(t, n, p)
		w, h := n.fitSize()
		u := n.start(t, dir, p, w, h, pols)
		defer u.y.close()
		u.y.ready(false)
		for k := 0; k < 16; k++ {
			i := t.IntN(len(n.Vars))
			if t.Chance(0.5) {
				for u.sel != i {
					u.y.send("\t")
					u.sel, u.st = (u.sel+1)%len(n.Vars), 0
				}
				for j := t.Range(0, len(n.Vars[i].Outcomes)); j > 0; j-- {
					u.y.send(" ")
					u.st = (u.st + 1) % len(n.Vars[i].Outcomes)
				}
				u.y.send("\r")
				u.toggle()
			} else {
				u.click(0)
			}
			if t.Chance(0.15) {
				u.y.send("p")
				u.ignore = !u.ignore
			}
			u.settled("after entering evidence")
		}
		u.y.quit()
		t.Sample(map[string]any{"evidence": n.evidenceNames(u.ev), "ignore policies": u.ignore})
	}))
	c.SectionPar("scrolled", 60, 1500, workers, "terminals smaller than the graph: scrolling, clicks in the scrolled window, size changes; the visible part is judged", confirmed(func(t *T) {
		dir, rm := scratch(t)
		defer rm()
		n := genTUI(t)
		p := n.writeNet(t, dir, "yml")
		pols := refPolicies(t, n, p)
		u := n.start(t, dir, p, t.Range(76, 100), t.Range(26, 32), pols)
		defer u.y.close()
		u.y.ready(false)
		u.settled("at the start")
		for k := 0; k < 10; k++ {
			last := ""
			for j := t.Range(1, 4); j > 0; j-- {
				last = u.step(false)
			}
			u.settled("after " + last)
			if t.Chance(0.2) {
				u.resize(t.Range(76, 140), t.Range(26, 50))
				u.settled("after a change of size")
			}
		}
		u.y.quit()
		t.Sample(map[string]any{"terminal": []int{u.w, u.h}, "scrolled": []int{u.sx, u.sy}})
	}))
	c.SectionPar("large", 24, 600, workers, "the same with 13..45 nodes, or with up to 100 outcomes of one node, in terminals of up to 600 columns that show all of it and in small ones that show a part", confirmed(func(t *T) {
		dir, rm := scratch(t)
		defer rm()
		n := genTUIBig(t)
		p := n.writeNet(t, dir, "yml")
		w, h := n.fitSize()
		all := t.Chance(0.5)
		if !all {
			w, h = t.Range(76, min(w, 200)), t.Range(26, min(h, 60))
		}
		u := n.start(t, dir, p, w, h, nil)
		defer u.y.close()
		u.y.ready(false)
		u.settled("at the start")
		for k := 0; k < 8; k++ {
			last := ""
			for j := t.Range(1, 5); j > 0; j-- {
				if !all && t.Chance(0.3) { // far
					d := t.IntN(4)
					m := [][2]int{{0, -1}, {0, 1}, {1, 0}, {-1, 0}}[d]
					by := t.Range(10, 150)
					u.y.send(strings.Repeat("\x1b["+"ABCD"[d:d+1], by))
					for ; by > 0; by-- {
						u.sx, u.sy = u.sx+m[0], u.sy+m[1]
						u.clampScroll()
					}
					last = "scrolling far"
					continue
				}
				last = u.step(all)
			}
			u.settled("after " + last)
			if all && t.Chance(0.2) {
				u.table()
			}
		}
		u.y.quit()
		t.Sample(map[string]any{"variables": len(n.Vars), "terminal": []int{u.w, u.h}, "scrolled": []int{u.sx, u.sy}})
	}))
	c.SectionPar("options", 80, 2000, workers, "bbni started with evidence, training data, no-data value and delimiter: the first screen, later ones and the tables show the trained network and the evidence; info text shown", confirmed(func(t *T) {
		dir, rm := scratch(t)
		defer rm()
		train := t.Chance(0.7)
		n := genTrainable(t, "words")
		if !train {
			n = genShow(t, "words")
		}
		n.Name = "net"
		n.tuiNames()
		if !n.uniqueNames() || len(n.Vars) > 12 {
			t.Skip()
		}
		layout(t, n, true)
		for i := range n.Vars {
			n.Vars[i].Color = ""
		}
		info := ""
		if t.Chance(0.3) {
			info = "Some words about this network"
		}
		n.Info = info
		m := n
		args := []string{}
		if train {
			o := genCsvOpt(t)
			n.csvSafe(o)
			n.tuiNames()
			if !n.uniqueNames() {
				t.Skip()
			}
			rs := n.genRecords(t, t.Range(20, 60), 0.1, true)
			var missing string
			if m, missing = n.trained(rs); missing != "" {
				t.Skip()
			}
			csvf := filepath.Join(dir, "data.csv")
			os.WriteFile(csvf, writeCSV(o, n.csvRows(t, rs, o)), 0o644)
			args = append(args, "-t", csvf)
			args = append(args, o.flags(t)...)
			t.Count("trained_sessions", 1)
		}
		p := n.writeNet(t, dir, "yml")
		q := m.writeNet(t, mkdir(filepath.Join(dir, "trained")), "yml")
		pols := refPolicies(t, m, q)
		w, h := n.fitSize()
		ev := genEvidence(t, m, t.Range(0, 3))
		pairs := []string{}
		for i, o := range ev {
			if !cliSafe(n.Vars[i].Name) || !cliSafe(n.Vars[i].Outcomes[o]) {
				t.Skip()
			}
			pairs = append(pairs, n.Vars[i].Name+"="+n.Vars[i].Outcomes[o])
		}
		if len(pairs) > 0 {
			args = append(args, "-e", strings.Join(pairs, ","))
		}
		t.Event("arguments %q", args)
		u := m.start(t, dir, p, w, h, pols, args...)
		defer u.y.close()
		u.ev = ev
		if info != "" {
			u.y.until("the info text", func(s *screen) bool { return s.contains(info) })
		}
		u.y.ready(info != "")
		u.settled("at the start")
		u.table()
		for k := 0; k < 5; k++ {
			last := ""
			for j := t.Range(1, 4); j > 0; j-- {
				last = u.step(true)
			}
			u.settled("after " + last)
			u.table()
		}
		u.y.quit()
		t.Sample(map[string]any{"arguments": fmt.Sprint(args)})
	}))
	c.SectionPar("tables", 80, 1600, workers, "table dialogs larger than the window: scrolled through in both directions, every cell seen is compared with the table, and every cell is seen", confirmed(func(t *T) {
		dir, rm := scratch(t)
		defer rm()
		n := genTUI(t)
		p := n.writeNet(t, dir, "yml")
		pols := refPolicies(t, n, p)
		w, h := n.fitSize()
		if t.Chance(0.7) {
			h = t.Range(10, 24)
		}
		u := n.start(t, dir, p, w, h, pols)
		defer u.y.close()
		u.y.ready(false)
		for k := 0; k < len(n.Vars); k++ {
			u.bigTable()
			u.y.send("\t")
			u.sel = (u.sel + 1) % len(n.Vars)
			t.Distinct(n.shape(), k, h)
		}
		u.y.quit()
		t.Sample(map[string]any{"network": n.String(), "height": h})
	}))
	c.SectionPar("refused", 200, 3000, workers, "bbni started with one unusable option (unknown or malformed evidence, bad delimiter, training data with a defect, missing files): an error message and status 1 before anything is displayed", func(t *T) {
		dir, rm := scratch(t)
		defer rm()
		n := genTrainable(t, "words")
		n.Name = "net"
		o := genCsvOpt(t)
		n.csvSafe(o)
		if !n.uniqueNames() {
			t.Skip()
		}
		rs := n.genRecords(t, t.Range(3, 30), 0.1, true)
		rows := n.csvRows(t, rs, o)
		colOf := func(i int) int {
			for j, h := range rows[0] {
				if h == n.Vars[i].Name {
					return j
				}
			}
			return -1
		}
		d := filepath.Join(dir, "data.csv")
		flags := o.flags(t)
		train := append([]string{"-t", d}, flags...)
		p := n.writeNet(t, dir, "yml")
		i := pick(t, append(n.ofKind(Chance), n.ofKind(Decision)...))
		args := []string{}
		what := ""
		switch t.IntN(11) {
		case 0:
			args, what = append(train, "-e", "no such variable=yes"), "evidence on an unknown variable"
		case 1:
			if !cliSafe(n.Vars[i].Name) || !cliSafe(n.Vars[i].Outcomes[0]) {
				t.Skip()
			}
			args, what = append(train, "-e", n.Vars[i].Name+"="+n.Vars[i].Outcomes[0]+"x"), "evidence of an unknown outcome"
			if slices.Contains(n.Vars[i].Outcomes, n.Vars[i].Outcomes[0]+"x") {
				t.Skip()
			}
		case 2:
			args, what = append(train, "-e", pick(t, []string{"yes", "a=b=c", "a=b,c", "a:b"})), "malformed evidence"
		case 3:
			args, what = []string{"-t", d, "-d", pick(t, []string{"", "ab", ";;"})}, "bad delimiter"
			if t.Chance(0.3) {
				args = args[2:]
			}
		case 4:
			args, what = append([]string{"-t", filepath.Join(dir, "missing.csv")}, flags...), "missing training data"
		case 5:
			args, p, what = train, filepath.Join(dir, pick(t, []string{"missing.yml", "missing.xml", "missing"})), "missing network"
		case 6:
			rows[t.Range(1, len(rows)-1)][colOf(i)] = "no such outcome"
			args, what = train, "unknown outcome in the training data"
		case 7:
			rows[0][colOf(t.IntN(len(n.Vars)))] = "renamed column"
			args, what = train, "missing column in the training data"
		case 8:
			k := pick(t, append(n.ofKind(Chance), n.ofKind(Utility)...))
			for _, r := range rows[1:] {
				r[colOf(k)] = o.noData
			}
			args, what = train, "training data without any value of "+n.Vars[k].Name
		case 9:
			args, what = []string{"-t", d, "-d", string(o.delim), "--no-data=" + pick(t, n.Vars[t.IntN(len(n.Vars))].Outcomes)}, "no-data value that is an outcome"
		case 10:
			us := n.ofKind(Utility)
			if len(us) == 0 {
				t.Skip()
			}
			u := pick(t, us)
			if t.Chance(0.5) {
				rows[t.Range(1, len(rows)-1)][colOf(u)] = "12x"
				args, what = train, "utility that is not a number in the training data"
			} else {
				if !cliSafe(n.Vars[u].Name) || !cliSafe(n.Vars[u].Outcomes[0]) {
					t.Skip()
				}
				args, what = append(train, "-e", n.Vars[u].Name+"="+n.Vars[u].Outcomes[0]), "evidence on a utility node"
			}
		}
		os.WriteFile(d, writeCSV(o, rows), 0o644)
		startRefused(t, dir, what, append(args, p)...)
		t.Distinct(what, n.shape())
		t.Sample(map[string]any{"defect": what, "arguments": fmt.Sprint(args)})
	})
}

func (u *ui) resize(w, h int) {
	u.y.mu.Lock()
	u.y.s.resize(w, h)
	u.y.mu.Unlock()
	u.w, u.h = w, h
	u.y.setSize(w, h)
	u.t.Event("terminal %dx%d", w, h)
	// the new size has taken effect when the last line is drawn in the last row
	u.y.until("redrawing at the new size", func(s *screen) bool {
		return strings.Contains(string(s.cells[h-1]), "Network info: I") && strings.HasPrefix(string(s.cells[0]), "BBNi")
	})
}

func seq(n int) []int {
	r := make([]int, n)
	for i := range r {
		r[i] = i
	}
	return r
}

func mkdir(p string) string {
	os.MkdirAll(p, 0o755)
	return p
}
