package main

// Network descriptions: the workload generators' own representation, independent of the code under test.

import (
	"fmt"
	"math"
	"slices"
	"sort"
	"strings"

	"github.com/mlange-42/bbn"
	"github.com/mlange-42/bbn/ve"
)

type Kind uint8

const (
	Chance Kind = iota
	Decision
	Utility
)

// V is one variable with its conditional table (row-major: parents in order, own outcomes fastest).
type V struct {
	Name     string
	Kind     Kind
	Outcomes []string
	Parents  []int
	Table    []float64
	Pos      [2]int
	Color    string
	Logic    string
}

// Net is a network description.
type Net struct {
	Name, Info string
	Vars       []V
	Exact      bool // all probabilities dyadic and utilities integral: float arithmetic is exact
}

func (n *Net) card(i int) int { return len(n.Vars[i].Outcomes) }

func (n *Net) index(name string) int {
	for i := range n.Vars {
		if n.Vars[i].Name == name {
			return i
		}
	}
	return -1
}

// total returns the index of the total utility node (a utility node with utility parents), -1 if none.
func (n *Net) total() int {
	for i := range n.Vars {
		if n.Vars[i].Kind == Utility {
			for _, p := range n.Vars[i].Parents {
				if n.Vars[p].Kind == Utility {
					return i
				}
			}
		}
	}
	return -1
}

func (n *Net) ofKind(k Kind) []int {
	r := []int{}
	tot := n.total()
	for i := range n.Vars {
		if n.Vars[i].Kind == k && i != tot {
			r = append(r, i)
		}
	}
	return r
}

func (n *Net) rows(i int) int {
	r := 1
	for _, p := range n.Vars[i].Parents {
		r *= n.card(p)
	}
	return r
}

// jointSize is the number of joint assignments of chance and decision variables, capped.
func (n *Net) jointSize() int {
	s := 1
	for i := range n.Vars {
		if n.Vars[i].Kind == Utility {
			continue
		}
		s *= n.card(i)
		if s > 1<<40 {
			return 1 << 40
		}
	}
	return s
}

func (n *Net) clone() *Net {
	c := *n
	c.Vars = make([]V, len(n.Vars))
	for i, v := range n.Vars {
		v.Outcomes = append([]string{}, v.Outcomes...)
		v.Parents = append([]int{}, v.Parents...)
		if v.Table != nil {
			v.Table = append([]float64{}, v.Table...)
		}
		c.Vars[i] = v
	}
	return &c
}

// permuted returns the same network with variables declared in another order.
func (n *Net) permuted(perm []int) *Net {
	c := &Net{Name: n.Name, Info: n.Info, Exact: n.Exact, Vars: make([]V, len(n.Vars))}
	inv := make([]int, len(perm))
	for newI, oldI := range perm {
		inv[oldI] = newI
	}
	for newI, oldI := range perm {
		v := n.clone().Vars[oldI]
		for j := range v.Parents {
			v.Parents[j] = inv[v.Parents[j]]
		}
		c.Vars[newI] = v
	}
	return c
}

// reparented returns the network with variable i's parents listed in another order and its table rearranged accordingly.
func (n *Net) reparented(i int, perm []int) *Net {
	c := n.clone()
	v := &c.Vars[i]
	old := n.Vars[i].Parents
	for j, k := range perm {
		v.Parents[j] = old[k]
	}
	if v.Table == nil {
		return c
	}
	own := n.card(i)
	idx := make([]int, len(perm))
	for r := 0; r < n.rows(i); r++ {
		// idx are outcomes of the new parent order
		x := r
		for j := len(perm) - 1; j >= 0; j-- {
			k := n.card(v.Parents[j])
			idx[j] = x % k
			x /= k
		}
		or := 0
		oldIdx := make([]int, len(perm))
		for j, k := range perm {
			oldIdx[k] = idx[j]
		}
		for j := range old {
			or = or*n.card(old[j]) + oldIdx[j]
		}
		copy(v.Table[r*own:(r+1)*own], n.Vars[i].Table[or*own:(or+1)*own])
	}
	return c
}

func nodeType(k Kind) ve.NodeType {
	switch k {
	case Decision:
		return ve.DecisionNode
	case Utility:
		return ve.UtilityNode
	}
	return ve.ChanceNode
}

// parts converts the description to freshly allocated constructor arguments.
func (n *Net) parts() ([]bbn.Variable, []bbn.Factor) {
	vars := make([]bbn.Variable, len(n.Vars))
	facs := make([]bbn.Factor, len(n.Vars))
	for i, v := range n.Vars {
		vars[i] = bbn.Variable{Name: v.Name, NodeType: nodeType(v.Kind), Outcomes: append([]string{}, v.Outcomes...), Position: v.Pos, Color: v.Color}
		f := bbn.Factor{For: v.Name}
		for _, p := range v.Parents {
			f.Given = append(f.Given, n.Vars[p].Name)
		}
		if v.Table != nil {
			f.Table = append([]float64{}, v.Table...)
		}
		facs[i] = f
	}
	return vars, facs
}

// build constructs the network through the library's constructor; shuffle reorders the factor list.
func (n *Net) build(t *T, shuffle bool) *bbn.Network {
	vars, facs := n.parts()
	if shuffle {
		t.Shuffle(len(facs), func(i, j int) { facs[i], facs[j] = facs[j], facs[i] })
		// a factor that says nothing may be left out
		facs = slices.DeleteFunc(facs, func(f bbn.Factor) bool { return len(f.Given) == 0 && f.Table == nil && t.Chance(0.3) })
	}
	net, err := bbn.New(n.Name, n.Info, vars, facs)
	if err != nil {
		t.Failf("constructor rejected a valid network: %v\n%s", err, n)
	}
	return net
}

// String writes the network out in a compact form for witnesses and samples.
func (n *Net) String() string {
	b := strings.Builder{}
	for i, v := range n.Vars {
		fmt.Fprintf(&b, "%d %s kind=%d outcomes=%d parents=%v table=%s\n", i, q(v.Name), v.Kind, len(v.Outcomes), v.Parents, shortFloats(v.Table))
	}
	return b.String()
}

func q(s string) string { return fmt.Sprintf("%q", s) }

func shortFloats(x []float64) string {
	if len(x) > 64 {
		return fmt.Sprintf("%v...(%d values)", x[:64], len(x))
	}
	return fmt.Sprint(x)
}

// ---------------------------------------------------------------- generators

type genOpt struct {
	nMin, nMax int
	maxJoint   int    // cap on the joint assignment count
	maxTable   int    // cap on one table's length
	maxParents int    // cap on parents
	structure  string // "", random, chain, tree, star, fanin, grid, forest
	cards      string // "", binary, small, ones, big, mixed
	tables     string // "", positive, normal, exact, sparse, det, percent, scaled, mixed
	names      string // "", simple, words, tricky, cli
}

var structures = []string{"random", "random", "random", "dense", "chain", "tree", "star", "fanin", "grid", "forest"}
var cardStyles = []string{"binary", "small", "small", "ones", "big", "mixed"}
var tableStyles = []string{"positive", "normal", "sparse", "det", "percent", "scaled", "tiny", "rounded", "mixed", "mixed"}

func pickCard(t *T, style string, j int) int {
	switch style {
	case "binary":
		return 2
	case "ones":
		return pick(t, []int{1, 2, 2, 3})
	case "big":
		if j == 0 || t.Chance(0.1) {
			return pick(t, []int{17, 33, 64, 100, 127, 128, 255, 256, 257, 300})
		}
		return pick(t, []int{2, 2, 3})
	case "mixed":
		return pick(t, []int{2, 2, 3, 4, 5, 6, 7, 8, 9, 12})
	}
	return t.Range(2, 4)
}

// genBN makes a chance-only network. The result is deterministic in the case's PRNG.
func genBN(t *T, o genOpt) *Net {
	if o.maxJoint == 0 {
		o.maxJoint = 1 << 14
	}
	if o.maxTable == 0 {
		o.maxTable = 4096
	}
	if o.maxParents == 0 {
		o.maxParents = 4
	}
	st := o.structure
	if st == "" {
		st = pick(t, structures)
	}
	cs := o.cards
	if cs == "" {
		cs = pick(t, cardStyles)
	}
	ts := o.tables
	if ts == "" {
		ts = pick(t, tableStyles)
	}
	n := t.Range(o.nMin, o.nMax)
	net := &Net{Name: "net", Exact: ts == "exact"}
	names := genNames(t, n, o.names)
	joint := 1
	for i := 0; i < n; i++ {
		c := pickCard(t, cs, i)
		for joint*c > o.maxJoint && c > 2 {
			c /= 2
		}
		if joint*c > o.maxJoint {
			break
		}
		joint *= c
		v := V{Name: names[i], Outcomes: genOutcomes(t, c, o.names)}
		net.Vars = append(net.Vars, v)
	}
	n = len(net.Vars)
	width := pick(t, []int{2, 2, 3})
	for i := 0; i < n; i++ {
		var ps []int
		switch st {
		case "chain":
			if i > 0 {
				ps = []int{i - 1}
			}
		case "tree":
			if i > 0 {
				lo := 0
				if i > 6 {
					lo = i - 6
				}
				ps = []int{t.Range(lo, i-1)}
			}
		case "star":
			if i > 0 {
				ps = []int{0}
			}
		case "fanin":
			if i == n-1 && n > 1 {
				for j := 0; j < n-1; j++ {
					ps = append(ps, j)
				}
			}
		case "grid":
			if i >= width {
				ps = append(ps, i-width)
			}
			if i%width != 0 {
				ps = append(ps, i-1)
			}
		case "forest":
			if i > 0 && t.Chance(0.6) {
				ps = []int{t.IntN(i)}
			}
		case "dense":
			for j := 0; j < i; j++ {
				if t.Chance(0.7) {
					ps = append(ps, j)
				}
			}
		default:
			k := t.Range(0, min(i, 3))
			ps = t.Perm(i)[:k]
		}
		t.Shuffle(len(ps), func(a, b int) { ps[a], ps[b] = ps[b], ps[a] })
		maxP := o.maxParents
		if st == "fanin" {
			maxP = 10
		}
		if len(ps) > maxP {
			ps = ps[:maxP]
		}
		for {
			net.Vars[i].Parents = ps
			if net.rows(i)*net.card(i) <= o.maxTable || len(ps) == 0 {
				break
			}
			ps = ps[:len(ps)-1]
		}
		net.Vars[i].Table = genCPT(t, net.rows(i), net.card(i), ts)
	}
	return net.permuted(t.Perm(n))
}

// genCPT makes a conditional probability table; every row has a positive sum.
func genCPT(t *T, rows, cols int, style string) []float64 {
	tab := make([]float64, 0, rows*cols)
	for r := 0; r < rows; r++ {
		s := style
		if s == "mixed" {
			s = pick(t, []string{"positive", "normal", "sparse", "det", "percent", "scaled", "tiny", "rounded"})
		}
		tab = append(tab, genRow(t, cols, s)...)
	}
	return tab
}

func genRow(t *T, cols int, style string) []float64 {
	row := make([]float64, cols)
	switch style {
	case "exact": // multiples of 1/16 (or finer for wide rows) that sum to exactly 1
		den := 16
		for den < cols {
			den *= 2
		}
		for k := 0; k < den; k++ {
			row[t.IntN(cols)] += 1 / float64(den)
		}
	case "det":
		row[t.IntN(cols)] = 1
	case "sparse":
		for i := range row {
			if t.Chance(0.5) {
				row[i] = 0.05 + t.Float64()
			}
		}
		row[t.IntN(cols)] = 0.05 + t.Float64()
		normalizeRow(row)
	case "percent":
		left := 100
		for i := range row {
			x := t.Range(0, left)
			if i == cols-1 {
				x = left
			}
			row[i] = float64(x)
			left -= x
		}
		t.Shuffle(cols, func(a, b int) { row[a], row[b] = row[b], row[a] })
	case "scaled":
		sc := math.Pow(10, float64(t.Range(-6, 6)))
		for i := range row {
			row[i] = (0.02 + t.Float64()) * sc
		}
	case "tiny": // probabilities over many orders of magnitude
		for i := range row {
			row[i] = (0.02 + t.Float64()) * math.Pow(10, -float64(t.Range(0, 12)))
		}
		normalizeRow(row)
	case "rounded": // decimal fractions: the sum is only about 1
		for i := range row {
			row[i] = 0.02 + t.Float64()
		}
		if t.Chance(0.3) {
			for i := range row {
				row[i] = 1
			}
		}
		normalizeRow(row)
		e := math.Pow(10, float64(t.Range(2, 12)))
		for i := range row {
			row[i] = math.Max(1, math.Round(row[i]*e)) / e
		}
	case "positive": // unnormalized
		for i := range row {
			row[i] = 0.02 + 3*t.Float64()
		}
	default:
		for i := range row {
			row[i] = 0.02 + t.Float64()
		}
		normalizeRow(row)
	}
	return row
}

func normalizeRow(row []float64) {
	s := 0.0
	for _, x := range row {
		s += x
	}
	if s == 0 {
		return
	}
	for i := range row {
		row[i] /= s
	}
}

var trickyStrings = []string{
	"yes", "no", "true", "false", "null", "~", "1", "0", "1.50", "-3", "1e3", "0x1F", "on", "off", "y", "n", "Y",
	"a b", "a  b", "a-b", "a_b", "A", "a", "#x", "x # y", "a: b", "a:b", "- x", "-", "[x]", "{y}", "*p", "&p", "!t", "%d", "@at", "`bt",
	"'sq'", "\"dq\"", "it's", "<b>", "a&b", "ä", "Größe", "日本", "λ→μ", "é", "…", "🙂", "?", "? x", "|", ">", "x>y", "x|y", "$1", "\\n", "a\\b", "2001-01-01", "12:30", "NaN", ".inf", "<<", "very long outcome name that exceeds every display width used anywhere",
}

func genNames(t *T, n int, style string) []string {
	if style == "" {
		style = pick(t, []string{"simple", "words", "tricky"})
	}
	out := make([]string, 0, n)
	seen := map[string]bool{}
	for len(out) < n {
		i := len(out)
		var s string
		switch style {
		case "simple":
			s = fmt.Sprintf("V%d", i)
		case "tricky":
			s = pick(t, trickyStrings)
			if t.Chance(0.3) {
				s += fmt.Sprintf(" %d", i)
			}
		default:
			s = fmt.Sprintf("%s %s", pick(t, []string{"Rain", "Infection", "Test", "Cloud", "Sensor", "Herd", "Cost", "Light"}), pick(t, []string{"a", "b", "result", "size", "on", "out"}))
			if seen[s] {
				s += fmt.Sprintf(" %d", i)
			}
		}
		for seen[s] || s == "" {
			s += string(rune('a' + t.IntN(26)))
		}
		seen[s] = true
		out = append(out, s)
	}
	return out
}

func genOutcomes(t *T, n int, style string) []string {
	if style == "" {
		style = pick(t, []string{"simple", "simple", "tricky"})
	}
	if n > 20 {
		style = "simple"
	}
	if style == "tricky" {
		out := []string{}
		seen := map[string]bool{}
		for len(out) < n {
			s := pick(t, trickyStrings)
			if seen[s] {
				s = fmt.Sprintf("%s%d", s, len(out))
			}
			if seen[s] {
				continue
			}
			seen[s] = true
			out = append(out, s)
		}
		return out
	}
	base := pick(t, [][]string{{"yes", "no", "maybe"}, {"T", "F"}, {"low", "mid", "high"}, {"o0", "o1", "o2"}})
	out := []string{}
	for i := 0; i < n; i++ {
		if i < len(base) {
			out = append(out, base[i])
		} else {
			out = append(out, fmt.Sprintf("s%d", i))
		}
	}
	return out
}

type idOpt struct {
	decisions  int // number of decisions, 0 = random 1..3
	chance     int // -1 = random
	maxJoint   int
	exact      bool
	total      int // 0 random, 1 yes, -1 no
	names      string
	noExplicit bool
	cards      string
	uparents   int     // most parents of a utility node, 0 = 3
	observe    float64 // share of the chance variables so far that a decision observes, 0 = half
}

// genID makes a decision network in which every decision observes all earlier decisions and
// everything they observed (explicit no-forgetting), with one or more utility nodes.
func genID(t *T, o idOpt) *Net {
	if o.maxJoint == 0 {
		o.maxJoint = 1 << 12
	}
	if o.uparents == 0 {
		o.uparents = 3
	}
	if o.observe == 0 {
		o.observe = 0.5
	}
	nd := o.decisions
	if nd == 0 {
		nd = pick(t, []int{1, 1, 2, 2, 2, 3})
	}
	nc := o.chance
	if nc < 0 {
		nc = t.Range(0, 6)
	}
	nu := pick(t, []int{1, 1, 2, 2, 3, 4})
	style := "exact"
	if !o.exact {
		style = pick(t, []string{"normal", "positive", "sparse", "mixed", "percent", "det", "tiny", "rounded"})
	}
	cs := o.cards
	if cs == "" {
		cs = pick(t, []string{"binary", "small", "small", "ones", "mixed"})
	}
	total := o.total == 1 || (o.total == 0 && t.Chance(0.35))
	names := genNames(t, nd+nc+nu+1, o.names)
	net := &Net{Name: "decision net", Exact: o.exact}
	// temporal sequence of chance and decision nodes
	kinds := make([]Kind, 0, nd+nc)
	for i := 0; i < nc; i++ {
		kinds = append(kinds, Chance)
	}
	for i := 0; i < nd; i++ {
		kinds = append(kinds, Decision)
	}
	t.Shuffle(len(kinds), func(a, b int) { kinds[a], kinds[b] = kinds[b], kinds[a] })
	joint := 1
	known := []int{} // decisions so far and their observations
	for i, k := range kinds {
		c := pickCard(t, cs, i)
		if k == Decision && c < 2 {
			c = 2
		}
		if k == Decision && (nd == 1 || cs != "binary") && t.Chance(0.05) { // keep "binary" free of thirds
			c = t.Range(5, 24)
		}
		for joint*c > o.maxJoint && c > 2 {
			c--
		}
		if joint*c > o.maxJoint && k == Chance {
			c = 1
		}
		joint *= c
		v := V{Name: names[i], Kind: k, Outcomes: genOutcomes(t, c, o.names)}
		switch k {
		case Chance:
			kk := t.Range(0, min(i, 3))
			v.Parents = t.Perm(i)[:kk]
			// favour dependence on decisions
			if i > 0 && t.Chance(0.4) {
				for j := i - 1; j >= 0; j-- {
					if net.Vars[j].Kind == Decision && !contains(v.Parents, j) {
						v.Parents = append(v.Parents, j)
						break
					}
				}
			}
			t.Shuffle(len(v.Parents), func(a, b int) { v.Parents[a], v.Parents[b] = v.Parents[b], v.Parents[a] })
		case Decision:
			ps := append([]int{}, known...)
			for j := 0; j < i; j++ {
				if net.Vars[j].Kind == Chance && !contains(ps, j) && t.Chance(o.observe) {
					ps = append(ps, j)
				}
			}
			t.Shuffle(len(ps), func(a, b int) { ps[a], ps[b] = ps[b], ps[a] })
			v.Parents = ps
			known = append(append([]int{}, ps...), i)
		}
		net.Vars = append(net.Vars, v)
		if k == Chance {
			net.Vars[i].Table = genCPT(t, net.rows(i), c, style)
		}
	}
	m := len(net.Vars)
	utils := []int{}
	scAll := math.Pow(10, float64(t.Range(-9, 9)))
	for u := 0; u < nu; u++ {
		k := t.Range(1, min(m, o.uparents))
		ps := t.Perm(m)[:k]
		if u == 0 && t.Chance(0.7) { // make the last decision matter
			for j := m - 1; j >= 0; j-- {
				if net.Vars[j].Kind == Decision {
					if !contains(ps, j) {
						ps = append(ps, j)
					}
					break
				}
			}
		}
		i := len(net.Vars)
		v := V{Name: names[i], Kind: Utility, Outcomes: []string{pick(t, []string{"utility", "euros", "value"})}, Parents: ps}
		net.Vars = append(net.Vars, v)
		tab := make([]float64, net.rows(i))
		sc := pick(t, []float64{1, 10, 1000, 1, 10, 1000, scAll})
		close := t.Chance(0.15)
		if o.exact {
			sc = 1
		}
		for r := range tab {
			if o.exact {
				tab[r] = float64(t.Range(-4, 4))
			} else if close { // almost the same, but not quite
				tab[r] = 10 * sc * (1 + 1e-7*float64(t.Range(-3, 3)))
			} else if t.Chance(0.15) {
				tab[r] = 0
			} else {
				tab[r] = math.Round((t.Float64()*2-1)*1000) / 100 * sc
			}
		}
		if t.Chance(0.2) && !o.exact { // all negative utilities
			for r := range tab {
				tab[r] = -math.Abs(tab[r])
			}
		}
		net.Vars[i].Table = tab
		utils = append(utils, i)
	}
	if total {
		i := len(net.Vars)
		ps := append([]int{}, utils...)
		t.Shuffle(len(ps), func(a, b int) { ps[a], ps[b] = ps[b], ps[a] })
		v := V{Name: names[i], Kind: Utility, Parents: ps}
		for j := range ps {
			v.Outcomes = append(v.Outcomes, fmt.Sprintf("w%d", j))
			w := math.Round((t.Float64()*4-1)*100) / 100
			if o.exact {
				w = float64(t.Range(-2, 3))
			}
			v.Table = append(v.Table, w)
		}
		net.Vars = append(net.Vars, v)
	}
	return net.permuted(t.Perm(len(net.Vars)))
}

func contains(xs []int, x int) bool {
	for _, y := range xs {
		if x == y {
			return true
		}
	}
	return false
}

// topo returns the variables in an order where parents come first.
func (n *Net) topo() []int {
	done := make([]bool, len(n.Vars))
	out := []int{}
	for len(out) < len(n.Vars) {
		progress := false
		for i := range n.Vars {
			if done[i] {
				continue
			}
			ok := true
			for _, p := range n.Vars[i].Parents {
				if !done[p] {
					ok = false
				}
			}
			if ok {
				done[i] = true
				out = append(out, i)
				progress = true
			}
		}
		if !progress {
			return nil
		}
	}
	return out
}

// sampleJoint draws a joint assignment with positive probability; decisions are drawn uniformly
// or from the given policies.
func (n *Net) sampleJoint(t *T, policies map[int]*RF) []int {
	x := make([]int, len(n.Vars))
	draw := drawFrom
	if t.Chance(0.25) { // unlikely outcomes as often as likely ones
		draw = func(t *T, w []float64) int {
			u := make([]float64, len(w))
			for i := range w {
				if w[i] > 0 {
					u[i] = 1
				}
			}
			return drawFrom(t, u)
		}
	}
	for _, i := range n.topoWith(policies) {
		v := &n.Vars[i]
		switch v.Kind {
		case Utility:
			x[i] = 0
		case Decision:
			x[i] = t.IntN(n.card(i))
			if p := policies[i]; p != nil {
				w := make([]float64, n.card(i))
				for o := range w {
					x[i] = o
					w[o] = p.at(x)
				}
				x[i] = draw(t, w)
			}
		default:
			r := 0
			for _, p := range v.Parents {
				r = r*n.card(p) + x[p]
			}
			x[i] = draw(t, v.Table[r*n.card(i):(r+1)*n.card(i)])
		}
	}
	return x
}

// topoWith orders variables so that a policy's inputs precede its decision.
func (n *Net) topoWith(policies map[int]*RF) []int {
	if len(policies) == 0 {
		return n.topo()
	}
	c := n.clone()
	for i, p := range policies {
		ps := []int{}
		for _, v := range p.v {
			if v != i {
				ps = append(ps, v)
			}
		}
		c.Vars[i].Parents = ps
	}
	return c.topo()
}

func drawFrom(t *T, w []float64) int {
	s := 0.0
	for _, x := range w {
		s += x
	}
	u := t.Float64() * s
	for i, x := range w {
		if x <= 0 {
			continue
		}
		if u < x {
			return i
		}
		u -= x
	}
	for i := len(w) - 1; i >= 0; i-- {
		if w[i] > 0 {
			return i
		}
	}
	return 0
}

func sortedInts(x []int) []int {
	y := append([]int{}, x...)
	sort.Ints(y)
	return y
}
