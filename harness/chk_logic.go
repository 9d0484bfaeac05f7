package main

import (
	"fmt"
	"strings"

	"github.com/mlange-42/bbn"
	"github.com/mlange-42/bbn/logic"
)

func init() {
	checks["C13"] = checkC13
}

// opDef is the documented meaning of a logic operator.
type opDef struct {
	name   string
	arity  int // number of parents, -1: any (binary parents), -2: one parent with args[last] outcomes
	args   func(t *T, given int) []int
	ctor   func(args []int) logic.Factor
	cols   func(given int) int
	row    func(p []int, args []int) []float64 // p: outcome index per parent, 0 is True
	badArg [][]int                             // argument lists of wrong length
}

func tf(b bool) []float64 {
	if b {
		return []float64{1, 0}
	}
	return []float64{0, 1}
}

func countTrue(p []int) int {
	c := 0
	for _, x := range p {
		if x == 0 {
			c++
		}
	}
	return c
}

func oneHot(n, k int) []float64 {
	r := make([]float64, n)
	r[k] = 1
	return r
}

func logicOps() []opDef {
	none := func(t *T, given int) []int { return nil }
	two := func(int) int { return 2 }
	bad0 := [][]int{{0}, {1, 2}}
	bin := func(name string, ctor func() logic.Factor, f func(a, b bool) bool) opDef {
		return opDef{name: name, arity: 2, args: none, cols: two, badArg: bad0, ctor: func([]int) logic.Factor { return ctor() },
			row: func(p, _ []int) []float64 { return tf(f(p[0] == 0, p[1] == 0)) }}
	}
	un := func(name string, ctor func() logic.Factor, f func(a bool) []float64) opDef {
		return opDef{name: name, arity: 1, args: none, cols: two, badArg: bad0, ctor: func([]int) logic.Factor { return ctor() },
			row: func(p, _ []int) []float64 { return f(p[0] == 0) }}
	}
	half := []float64{0.5, 0.5}
	cnt := func(name string, ctor func(int) logic.Factor, f func(c, v int) bool) opDef {
		return opDef{name: name, arity: -1, args: func(t *T, g int) []int { return []int{t.Range(-1, g+1)} }, cols: two, badArg: [][]int{{}, {1, 2}},
			ctor: func(a []int) logic.Factor { return ctor(a[0]) }, row: func(p, a []int) []float64 { return tf(f(countTrue(p), a[0])) }}
	}
	giv := func(name string, ctor func(int) logic.Factor, f func(p []int, i int) bool) opDef {
		return opDef{name: name, arity: -1, args: func(t *T, g int) []int { return []int{t.Range(0, g-1)} }, cols: two, badArg: [][]int{{}, {0, 1}},
			ctor: func(a []int) logic.Factor { return ctor(a[0]) }, row: func(p, a []int) []float64 { return tf(f(p, a[0])) }}
	}
	out := func(name string, ctor func(a, b int) logic.Factor, f func(o, i int) bool) opDef {
		return opDef{name: name, arity: -2, args: func(t *T, g int) []int { n := t.Range(1, 9); return []int{t.Range(0, n-1), n} }, cols: two, badArg: [][]int{{}, {1}, {0, 1, 2}},
			ctor: func(a []int) logic.Factor { return ctor(a[0], a[1]) }, row: func(p, a []int) []float64 { return tf(f(p[0], a[0])) }}
	}
	return []opDef{
		un("not", logic.Not, func(a bool) []float64 { return tf(!a) }),
		bin("and", logic.And, func(a, b bool) bool { return a && b }),
		bin("not-and", logic.NotAnd, func(a, b bool) bool { return !a && b }),
		bin("and-not", logic.AndNot, func(a, b bool) bool { return a && !b }),
		bin("not-and-not", logic.NotAndNot, func(a, b bool) bool { return !a && !b }),
		bin("or", logic.Or, func(a, b bool) bool { return a || b }),
		bin("not-or", logic.NotOr, func(a, b bool) bool { return !a || b }),
		bin("or-not", logic.OrNot, func(a, b bool) bool { return a || !b }),
		bin("not-or-not", logic.NotOrNot, func(a, b bool) bool { return !a || !b }),
		bin("xor", logic.XOr, func(a, b bool) bool { return a != b }),
		bin("cond", logic.Cond, func(a, b bool) bool { return !a || b }),
		bin("not-cond", logic.NotCond, func(a, b bool) bool { return a || b }),
		bin("cond-not", logic.CondNot, func(a, b bool) bool { return !a || !b }),
		bin("not-cond-not", logic.NotCondNot, func(a, b bool) bool { return a || !b }),
		bin("bicond", logic.BiCond, func(a, b bool) bool { return a == b }),
		un("if-then", logic.IfThen, func(a bool) []float64 {
			if a {
				return tf(true)
			}
			return half
		}),
		un("if-not-then", logic.IfNotThen, func(a bool) []float64 {
			if !a {
				return tf(true)
			}
			return half
		}),
		un("if-then-not", logic.IfThenNot, func(a bool) []float64 {
			if a {
				return tf(false)
			}
			return half
		}),
		un("if-not-then-not", logic.IfNotThenNot, func(a bool) []float64 {
			if !a {
				return tf(false)
			}
			return half
		}),
		un("equals", logic.Equals, tf),
		un("equals-not", logic.EqualsNot, func(a bool) []float64 { return tf(!a) }),
		{name: "count-true", arity: -1, args: none, cols: func(g int) int { return g + 1 }, badArg: bad0, ctor: func([]int) logic.Factor { return logic.CountTrue() },
			row: func(p, _ []int) []float64 { return oneHot(len(p)+1, countTrue(p)) }},
		{name: "count-false", arity: -1, args: none, cols: func(g int) int { return g + 1 }, badArg: bad0, ctor: func([]int) logic.Factor { return logic.CountFalse() },
			row: func(p, _ []int) []float64 { return oneHot(len(p)+1, len(p)-countTrue(p)) }},
		cnt("count-is", logic.CountIs, func(c, v int) bool { return c == v }),
		cnt("count-less", logic.CountLess, func(c, v int) bool { return c < v }),
		cnt("count-greater", logic.CountGreater, func(c, v int) bool { return c > v }),
		giv("given", logic.Given, func(p []int, i int) bool { return p[i] == 0 }),
		giv("given-not", logic.GivenNot, func(p []int, i int) bool { return p[i] != 0 }),
		giv("given-excl", logic.GivenExcl, func(p []int, i int) bool { return p[i] == 0 && countTrue(p) == 1 }),
		out("outcome-is", logic.OutcomeIs, func(o, i int) bool { return o == i }),
		out("outcome-is-not", logic.OutcomeIsNot, func(o, i int) bool { return o != i }),
		out("outcome-less", logic.OutcomeLess, func(o, i int) bool { return o < i }),
		out("outcome-greater", logic.OutcomeGreater, func(o, i int) bool { return o > i }),
		{name: "outcome-either", arity: -2, cols: two, badArg: [][]int{{}, {3}},
			args: func(t *T, g int) []int {
				n := t.Range(1, 8)
				a := t.Perm(n)[:t.Range(1, n)]
				return append(append([]int{}, a...), n)
			},
			ctor: func(a []int) logic.Factor { return logic.OutcomeEither(append([]int{}, a[:len(a)-1]...), a[len(a)-1]) },
			row: func(p, a []int) []float64 {
				return tf(contains(a[:len(a)-1], p[0]))
			}},
		{name: "bits", arity: -1, args: none, cols: func(g int) int { return 1 << g }, badArg: bad0, ctor: func([]int) logic.Factor { return logic.Bits() },
			row: func(p, _ []int) []float64 {
				v := 0
				for _, x := range p {
					v *= 2
					if x == 0 {
						v++
					}
				}
				return oneHot(1<<len(p), v)
			}},
	}
}

// parentCards returns the number of parents and their cardinality for an operator instance.
func (o *opDef) parents(t *T) int {
	switch o.arity {
	case -1:
		if o.name == "bits" {
			if t.Chance(0.05) {
				return t.Range(5, 9)
			}
			return t.Range(1, 4)
		}
		if t.Chance(0.05) {
			return t.Range(7, 12)
		}
		return t.Range(1, 6)
	case -2:
		return 1
	}
	return o.arity
}

func (o *opDef) table(given int, args []int) []float64 {
	card := 2
	if o.arity == -2 {
		card = args[len(args)-1]
	}
	rows := 1
	for i := 0; i < given; i++ {
		rows *= card
	}
	tab := []float64{}
	p := make([]int, given)
	for r := 0; r < rows; r++ {
		x := r
		for j := given - 1; j >= 0; j-- {
			p[j] = x % card
			x /= card
		}
		tab = append(tab, o.row(p, args)...)
	}
	return tab
}

const knownGreater = "logic operator outcome-greater I N is True for outcome I itself (documented: greater than I); pinned by TestOutcomeGreater"

// judge compares a table with the definition, allowing exactly the recorded finding.
func (o *opDef) judge(t *T, how string, got []float64, given int, args []int) {
	want := o.table(given, args)
	if sameBits(got, want) {
		return
	}
	if o.name == "outcome-greater" {
		alt := *o
		alt.row = func(p, a []int) []float64 { return tf(p[0] >= a[0]) }
		if sameBits(got, alt.table(given, args)) {
			t.Known("outcome-greater", knownGreater)
			t.Count("known_finding_observed", 1)
			return
		}
	}
	t.Failf("%s: operator %q with arguments %v and %d parents has table %v, by its definition %v", how, o.name, args, given, got, want)
}

func checkC13(c *Ctx) {
	ops := logicOps()
	c.Section("tables", 20000, 400000, "every operator, by name and by constructor, with random valid arguments and 1..12 parents: the whole truth table compared with the documented definition (parents in declared order, outcome 0 is True), instances set up before and used after others of the same operator", func(t *T) {
		o := ops[t.idx%len(ops)]
		type inst struct {
			f     logic.Factor
			given int
			args  []int
			how   string
		}
		is := []inst{}
		for k := 0; k < 3; k++ { // several instances live at once
			g := o.parents(t)
			args := o.args(t, g)
			if t.Chance(0.5) {
				f, ok := logic.Get(o.name)
				if !ok {
					t.Failf("operator %q is not available by name", o.name)
				}
				if err := f.SetArgs(append([]int{}, args...)...); err != nil {
					t.Failf("operator %q refused arguments %v: %v", o.name, args, err)
				}
				is = append(is, inst{f, g, args, "by name"})
			} else {
				is = append(is, inst{o.ctor(args), g, args, "by constructor"})
			}
			t.Event("operator %q args %v parents %d", o.name, args, g)
		}
		for _, k := range t.Perm(len(is)) {
			i := is[k]
			for r := 0; r < 2; r++ {
				tab, err := i.f.Table(i.given)
				if err != nil {
					t.Failf("operator %q with arguments %v refused %d parents: %v", o.name, i.args, i.given, err)
				}
				o.judge(t, i.how, tab, i.given, i.args)
				for j := range tab { // the table belongs to the caller
					tab[j] = 9
				}
			}
			t.Distinct(o.name, i.given, i.args)
		}
		t.Count("tables_compared", len(is))
		t.Sample(map[string]any{"operator": o.name, "arguments": is[0].args, "parents": is[0].given})
	})
	c.Section("refusals", 8000, 100000, "wrong number of arguments, wrong number of parents, indices out of range, unknown names: refused with an error", func(t *T) {
		o := ops[t.idx%len(ops)]
		f, _ := logic.Get(o.name)
		for _, bad := range o.badArg {
			if err := f.SetArgs(bad...); err == nil {
				t.Failf("operator %q accepted the arguments %v", o.name, bad)
			}
			t.Count("refusals", 1)
		}
		g := o.parents(t)
		args := o.args(t, g)
		if err := f.SetArgs(args...); err != nil {
			t.Failf("operator %q refused arguments %v after a refused call: %v", o.name, args, err)
		}
		if o.arity > 0 || o.arity == -2 {
			for _, wrong := range []int{0, 1, 2, 3, 4} {
				ok := wrong == o.arity || (o.arity == -2 && wrong == 1)
				if ok {
					continue
				}
				if tab, err := f.Table(wrong); err == nil {
					t.Failf("operator %q made a table for %d parents: %v", o.name, wrong, tab)
				}
				t.Count("refusals", 1)
			}
		}
		switch {
		case strings.HasPrefix(o.name, "given"):
			for _, bad := range []int{-1, g, g + 3} {
				f.SetArgs(bad)
				if tab, err := f.Table(g); err == nil {
					t.Failf("operator %q accepted parent index %d of %d: %v", o.name, bad, g, tab)
				}
				t.Count("refusals", 1)
			}
		case o.arity == -2:
			n := t.Range(1, 6)
			bads := []int{-1, n + 1, n + 4}
			if o.name != "outcome-less" && o.name != "outcome-greater" { // these two are defined for the number of outcomes itself
				bads = append(bads, n)
			}
			for _, bad := range bads {
				f.SetArgs(bad, n)
				if tab, err := f.Table(1); err == nil {
					t.Failf("operator %q accepted outcome index %d of %d: %v", o.name, bad, n, tab)
				}
				t.Count("refusals", 1)
			}
		}
		name := pick(t, []string{o.name + "x", "x" + o.name, strings.ToUpper(o.name), "", o.name + " ", "nand"})
		real := false
		for k := range ops {
			real = real || ops[k].name == name
		}
		if _, ok := logic.Get(name); ok && !real {
			t.Failf("operator name %q resolved", name)
		}
		t.Distinct(o.name, g, args)
		t.Sample(map[string]any{"operator": o.name, "arguments": args, "parents": g})
	})
	c.Section("networks", 6000, 120000, "YAML networks of 1..5 logic nodes on random parents (several nodes with the same operator and other arguments in one file, names in any case): tables equal the definitions, posteriors equal the exact ones", func(t *T) {
		n, text := logicNet(t, ops)
		t.Event("network\n%s", text)
		net, err := bbn.FromYAML([]byte(text))
		if err != nil {
			t.Failf("valid network with logic nodes refused: %v\n%s", err, text)
		}
		for i, v := range net.Variables() {
			if n.Vars[i].Logic == "" {
				continue
			}
			parts := strings.Fields(n.Vars[i].Logic)
			for k := range ops {
				if ops[k].name == strings.ToLower(parts[0]) {
					args := []int{}
					for _, a := range parts[1:] {
						var x int
						fmt.Sscan(a, &x)
						args = append(args, x)
					}
					ops[k].judge(t, "in a network", v.Factor.Table, len(n.Vars[i].Parents), args)
				}
			}
			n.Vars[i].Table = append([]float64{}, v.Factor.Table...)
			t.Count("logic_nodes", 1)
		}
		ev := genEvidence(t, n, t.Range(0, 2))
		checkPosterior(t, n, net, ev, pickQuery(t, n, ev, 2), false)
		t.Sample(text)
	})
}

// logicNet makes a chance network with logic nodes and its YAML text.
func logicNet(t *T, ops []opDef) (*Net, string) {
	n := &Net{Name: "logic"}
	base := t.Range(2, 5)
	for i := 0; i < base; i++ {
		c := 2
		if t.Chance(0.25) {
			c = t.Range(1, 5)
		}
		n.Vars = append(n.Vars, V{Name: fmt.Sprintf("B%d", i), Outcomes: genOutcomes(t, c, "simple")})
		n.Vars[i].Table = genCPT(t, 1, c, "normal")
	}
	same := -1
	if t.Chance(0.5) {
		same = t.IntN(len(ops))
	}
	for k := 0; k < t.Range(1, 5); k++ {
		i := len(n.Vars)
		oi := t.IntN(len(ops))
		if same >= 0 {
			oi = same
		}
		o := ops[oi]
		bins, all := []int{}, []int{}
		for j := range n.Vars {
			all = append(all, j)
			if n.card(j) == 2 {
				bins = append(bins, j)
			}
		}
		var ps []int
		var args []int
		switch {
		case o.arity == -2:
			p := pick(t, all)
			ps = []int{p}
			c := n.card(p)
			if o.name == "outcome-either" {
				args = append(append([]int{}, t.Perm(c)[:t.Range(1, c)]...), c)
			} else {
				args = []int{t.IntN(c), c}
			}
		default:
			g := o.parents(t)
			if o.name == "bits" {
				g = min(g, 3)
			}
			if g > len(bins) {
				if o.arity > 0 {
					continue
				}
				g = len(bins)
			}
			if g == 0 {
				continue
			}
			for _, j := range t.Perm(len(bins))[:g] {
				ps = append(ps, bins[j])
			}
			args = o.args(t, g)
		}
		if n.jointSize()*o.cols(len(ps)) > 1<<12 {
			continue
		}
		lg := o.name
		if t.Chance(0.3) {
			lg = strings.ToUpper(lg)
		}
		for _, a := range args {
			lg += fmt.Sprintf(" %d", a)
		}
		v := V{Name: fmt.Sprintf("L%d", i), Outcomes: genOutcomes(t, o.cols(len(ps)), "simple"), Parents: ps, Logic: lg}
		n.Vars = append(n.Vars, v)
		n.Vars[i].Table = o.table(len(ps), args)
	}
	return n, n.yamlText(t, true)
}
