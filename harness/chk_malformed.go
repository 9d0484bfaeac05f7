package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/mlange-42/bbn"
	"github.com/mlange-42/bbn/ve"
)

func init() {
	checks["C12"] = checkC12
}

// raw is a network text before it is known to be valid.
type raw struct {
	Name  string
	Vars  []rawVar
	Extra []string                 // further top-level YAML lines
	Edit  func(text string) string // damages the text
}

type rawVar struct {
	Name, Type, Logic, Color string
	Outcomes, Given          []string
	Table                    []float64
	Cols                     int // values per row in the text
	Pos                      string
	Extra                    []string // further YAML lines
	NoDef                    bool     // XML: no DEFINITION
	TableText                string   // replaces the numbers
	NoFactor                 bool     // constructor: no factor
	Twice                    bool     // constructor, XML: two factors or definitions
	Alien                    bool     // constructor, XML: a further factor or definition, of a variable that does not exist
}

func (n *Net) raw() *raw {
	r := &raw{Name: n.Name}
	for i := range n.Vars {
		v := &n.Vars[i]
		r.Vars = append(r.Vars, rawVar{Name: v.Name, Type: kindName(v.Kind), Color: v.Color, Outcomes: append([]string{}, v.Outcomes...),
			Given: append([]string{}, n.namesOf(v.Parents)...), Table: append([]float64{}, v.Table...), Cols: max(1, n.card(i)), Pos: fmt.Sprintf("%d, %d", v.Pos[0], v.Pos[1])})
	}
	return r
}

func quoteList(xs []string) string {
	q := []string{}
	for _, x := range xs {
		q = append(q, yq(x))
	}
	return "[" + strings.Join(q, ", ") + "]"
}

func (r *raw) yaml() string {
	b := strings.Builder{}
	fmt.Fprintf(&b, "name: %s\n", yq(r.Name))
	for _, e := range r.Extra {
		b.WriteString(e + "\n")
	}
	if len(r.Vars) == 0 {
		b.WriteString("variables: []\n")
		return b.String()
	}
	b.WriteString("variables:\n")
	for _, v := range r.Vars {
		fmt.Fprintf(&b, "- variable: %s\n", yq(v.Name))
		if v.Type != "nature" {
			fmt.Fprintf(&b, "  type: %s\n", yq(v.Type))
		}
		if len(v.Given) > 0 {
			fmt.Fprintf(&b, "  given: %s\n", quoteList(v.Given))
		}
		fmt.Fprintf(&b, "  outcomes: %s\n", quoteList(v.Outcomes))
		if v.Pos != "" {
			fmt.Fprintf(&b, "  position: [%s]\n", v.Pos)
		}
		if v.Color != "" {
			fmt.Fprintf(&b, "  color: %s\n", yq(v.Color))
		}
		if v.Logic != "" {
			fmt.Fprintf(&b, "  logic: %s\n", yq(v.Logic))
		}
		if v.TableText != "" {
			fmt.Fprintf(&b, "  table: %s\n", v.TableText)
		} else if len(v.Table) > 0 {
			b.WriteString("  table:\n")
			for k := 0; k < len(v.Table); k += v.Cols {
				row := []string{}
				for _, x := range v.Table[k:min(k+v.Cols, len(v.Table))] {
					row = append(row, fmt.Sprint(x))
				}
				fmt.Fprintf(&b, "  - [%s]\n", strings.Join(row, ", "))
			}
		}
		for _, e := range v.Extra {
			b.WriteString("  " + e + "\n")
		}
	}
	if r.Edit != nil {
		return r.Edit(b.String())
	}
	return b.String()
}

func (r *raw) xml() string {
	b := strings.Builder{}
	fmt.Fprintf(&b, "<?xml version=\"1.0\"?>\n<BIF VERSION=\"0.3\">\n<NETWORK>\n<NAME>%s</NAME>\n", xe(r.Name))
	for _, v := range r.Vars {
		fmt.Fprintf(&b, "<VARIABLE TYPE=\"%s\">\n  <NAME>%s</NAME>\n", xe(v.Type), xe(v.Name))
		for _, o := range v.Outcomes {
			fmt.Fprintf(&b, "  <OUTCOME>%s</OUTCOME>\n", xe(o))
		}
		if v.Pos != "" {
			fmt.Fprintf(&b, "  <PROPERTY>position = (%s)</PROPERTY>\n", v.Pos)
		}
		b.WriteString("</VARIABLE>\n")
	}
	defs := []rawVar{}
	for _, v := range r.Vars {
		if v.NoDef {
			continue
		}
		defs = append(defs, v)
		if v.Twice {
			defs = append(defs, v)
		}
		if v.Alien {
			v.Name = "no such variable"
			defs = append(defs, v)
		}
	}
	for _, v := range defs {
		fmt.Fprintf(&b, "<DEFINITION>\n  <FOR>%s</FOR>\n", xe(v.Name))
		for _, g := range v.Given {
			fmt.Fprintf(&b, "  <GIVEN>%s</GIVEN>\n", xe(g))
		}
		b.WriteString("  <TABLE>")
		if v.TableText != "" {
			b.WriteString(v.TableText)
		}
		for k, x := range v.Table {
			if v.TableText != "" {
				break
			}
			if k > 0 {
				b.WriteByte(' ')
			}
			fmt.Fprint(&b, x)
		}
		b.WriteString("</TABLE>\n</DEFINITION>\n")
	}
	b.WriteString("</NETWORK>\n</BIF>\n")
	if r.Edit != nil {
		return r.Edit(b.String())
	}
	return b.String()
}

func (r *raw) construct() (*bbn.Network, error) {
	vars := []bbn.Variable{}
	facs := []bbn.Factor{}
	types := map[string]ve.NodeType{"nature": ve.ChanceNode, "decision": ve.DecisionNode, "utility": ve.UtilityNode}
	for _, v := range r.Vars {
		vars = append(vars, bbn.Variable{Name: v.Name, NodeType: types[v.Type], Outcomes: append([]string{}, v.Outcomes...)})
		names := []string{}
		if !v.NoFactor {
			names = append(names, v.Name)
		}
		if v.Twice {
			names = append(names, v.Name)
		}
		if v.Alien {
			names = append(names, "no such variable")
		}
		for _, name := range names {
			facs = append(facs, bbn.Factor{For: name, Given: append([]string{}, v.Given...), Table: append([]float64(nil), v.Table...)})
		}
	}
	return bbn.New(r.Name, "", vars, facs)
}

// rawRows is the number of table rows the declared parents imply.
func (r *raw) rows(i int) int {
	n := 1
	for _, g := range r.Vars[i].Given {
		for _, v := range r.Vars {
			if v.Name == g {
				n *= len(v.Outcomes)
				break
			}
		}
	}
	return n
}

// refill gives variable i a table of the implied size.
func (r *raw) refill(i int) {
	v := &r.Vars[i]
	if v.Type == "decision" || v.Logic != "" {
		return
	}
	n := r.rows(i) * len(v.Outcomes)
	v.Table = make([]float64, n)
	for k := range v.Table {
		v.Table[k] = 1 / float64(max(1, len(v.Outcomes)))
	}
	v.Cols = max(1, len(v.Outcomes))
}

// defect breaks a valid description; where says which ways of loading can carry it, late allows the error at the first solve.
type defect struct {
	name  string
	where string // n, y, x
	late  bool
	apply func(t *T, n *Net, r *raw) bool
}

func defects() []defect {
	byKind := func(t *T, n *Net, ks ...Kind) int {
		c := []int{}
		for i := range n.Vars {
			for _, k := range ks {
				if n.Vars[i].Kind == k && i != n.total() {
					c = append(c, i)
				}
			}
		}
		if len(c) == 0 {
			return -1
		}
		return pick(t, c)
	}
	anyTable := func(t *T, n *Net) int {
		c := []int{}
		for i := range n.Vars {
			if len(n.Vars[i].Table) > 0 {
				c = append(c, i)
			}
		}
		if len(c) == 0 {
			return -1
		}
		return pick(t, c)
	}
	return []defect{
		{"table too long", "nyx", false, func(t *T, n *Net, r *raw) bool {
			i := anyTable(t, n)
			if i < 0 {
				return false
			}
			k := 1
			if t.Chance(0.5) {
				k = len(r.Vars[i].Outcomes)
			}
			for ; k > 0; k-- {
				r.Vars[i].Table = append(r.Vars[i].Table, 0.5)
			}
			return true
		}},
		{"table too short", "nyx", false, func(t *T, n *Net, r *raw) bool {
			i := anyTable(t, n)
			if i < 0 || len(r.Vars[i].Table) < 2 {
				return false
			}
			k := 1
			if c := len(r.Vars[i].Outcomes); t.Chance(0.5) && len(r.Vars[i].Table) > c {
				k = c
			}
			r.Vars[i].Table = r.Vars[i].Table[:len(r.Vars[i].Table)-k]
			return true
		}},
		{"unknown parent", "nyx", false, func(t *T, n *Net, r *raw) bool {
			i := t.IntN(len(r.Vars))
			v := &r.Vars[i]
			if len(v.Given) > 0 && t.Chance(0.5) {
				v.Given[t.IntN(len(v.Given))] = "no such variable"
			} else {
				v.Given = append(v.Given, "no such variable")
			}
			return true
		}},
		{"duplicate variable", "nyx", false, func(t *T, n *Net, r *raw) bool {
			i := t.IntN(len(r.Vars))
			if i == n.total() {
				return false
			}
			d := r.Vars[i]
			d.NoFactor = t.Chance(0.5)
			k := t.Range(0, len(r.Vars))
			r.Vars = append(r.Vars[:k], append([]rawVar{d}, r.Vars[k:]...)...)
			return true
		}},
		{"duplicate definition", "nx", false, func(t *T, n *Net, r *raw) bool {
			r.Vars[t.IntN(len(r.Vars))].Twice = true
			return true
		}},
		{"definition of an unknown variable", "nx", false, func(t *T, n *Net, r *raw) bool {
			r.Vars[t.IntN(len(r.Vars))].Alien = true
			return true
		}},
		{"no name", "nyx", false, func(t *T, n *Net, r *raw) bool {
			i := t.IntN(len(r.Vars))
			if i == n.total() {
				return false
			}
			for j := range r.Vars {
				for k, g := range r.Vars[j].Given {
					if g == r.Vars[i].Name {
						r.Vars[j].Given[k] = ""
					}
				}
			}
			r.Vars[i].Name = ""
			return true
		}},
		{"broken XML", "x", false, func(t *T, n *Net, r *raw) bool {
			k := t.IntN(6)
			r.Edit = func(s string) string {
				switch k {
				case 0:
					return strings.Replace(s, "</BIF>", "", 1)
				case 1:
					return strings.Replace(s, "</NETWORK>", "", 1)
				case 2:
					return strings.Replace(s, "</NETWORK>", "<COMMENT></NETWORK>", 1)
				case 3:
					return strings.Replace(s, "</NETWORK>", "<COMMENT>salt & pepper</COMMENT></NETWORK>", 1)
				case 4:
					return strings.Replace(s, "</NETWORK>", "</NETWORKS>", 1)
				default:
					return strings.Replace(s, "</NETWORK>", "<!-- not closed </NETWORK>", 1)
				}
			}
			return true
		}},
		{"broken YAML", "y", false, func(t *T, n *Net, r *raw) bool {
			tail := pick(t, []string{"  color: [\n", "  color: \"abc\n", "  color: 'abc\n", "\tcolor: red\n", "  color: red: blue\n", "  color: *nothing\n", " variable\n", "  {\n", "  color: @x\n"})
			r.Edit = func(s string) string { return s + tail }
			return true
		}},
		{"cycle", "nyx", false, func(t *T, n *Net, r *raw) bool {
			// a variable and one of its descendants (or itself)
			i := byKind(t, n, Chance, Decision)
			if i < 0 {
				return false
			}
			desc := []int{i}
			for j := range n.Vars {
				if n.Vars[j].Kind != Utility && j != i && n.isAncestor(i, j) {
					desc = append(desc, j, j)
				}
			}
			d := pick(t, desc)
			if contains(n.Vars[i].Parents, d) {
				return false
			}
			k := t.Range(0, len(r.Vars[i].Given))
			g := r.Vars[i].Given
			r.Vars[i].Given = append(append(append([]string{}, g[:k]...), n.Vars[d].Name), g[k:]...)
			r.refill(i)
			return true
		}},
		{"repeated parent", "nyx", false, func(t *T, n *Net, r *raw) bool {
			i := t.IntN(len(r.Vars))
			if len(r.Vars[i].Given) == 0 || i == n.total() {
				return false
			}
			r.Vars[i].Given = append(r.Vars[i].Given, pick(t, r.Vars[i].Given))
			r.refill(i)
			return true
		}},
		{"unknown type", "yx", false, func(t *T, n *Net, r *raw) bool {
			r.Vars[t.IntN(len(r.Vars))].Type = pick(t, []string{"chance", "Nature", "natur", "DECISION", "utilities", "x"})
			return true
		}},
		{"table and logic", "y", false, func(t *T, n *Net, r *raw) bool {
			i := byKind(t, n, Chance)
			if i < 0 || len(r.Vars[i].Table) == 0 {
				return false
			}
			r.Vars[i].Logic = pick(t, []string{"and", "not", "count-true"})
			return true
		}},
		{"bad logic", "y", false, func(t *T, n *Net, r *raw) bool {
			i := byKind(t, n, Chance)
			if i < 0 {
				return false
			}
			v := &r.Vars[i]
			v.Table = nil
			bad := []string{"no-such-operator", "and-", "count-is x", "count-is", "given", "outcome-is 1", "count-is 1.5", "not 1", "given 0 1", "bits 2"}
			switch len(v.Given) {
			case 0:
				bad = append(bad, "and", "not", "or", "equals", "outcome-is 0 2")
			case 1:
				bad = append(bad, "and", "or", "xor", "bicond")
			default:
				bad = append(bad, "not", "if-then", "equals", "outcome-is 0 2")
			}
			v.Logic = pick(t, bad)
			return true
		}},
		{"logic beyond any table", "y", false, func(t *T, n *Net, r *raw) bool {
			v := rawVar{Name: "beyond", Outcomes: []string{"yes", "no"}, Cols: 2, Pos: "0, 0"}
			if t.Chance(0.5) {
				k := pick(t, []string{"1000000000000", "4611686018427387904", "4611686018427387905", "9000000000000000000", "9223372036854775807", "0", "-1", "-5"})
				v.Logic = pick(t, []string{"outcome-is 0 ", "outcome-is-not 1 ", "outcome-either 0 1 ", "outcome-less 0 ", "outcome-less 1 ", "outcome-greater 0 ", "outcome-greater 3 "}) + k
				v.Given = []string{"of"}
				r.Vars = append(r.Vars, rawVar{Name: "of", Outcomes: []string{"a", "b", "c"}, Table: []float64{1, 1, 1}, Cols: 3, Pos: "0, 0"})
			} else {
				for i := pick(t, []int{45, 50, 58, 61, 62, 63, 64, 65, 70, 100, 128, 130}); i > 0; i-- {
					p := rawVar{Name: fmt.Sprintf("of %d", i), Outcomes: []string{"yes", "no"}, Table: []float64{1, 1}, Cols: 2, Pos: "0, 0"}
					v.Given = append(v.Given, p.Name)
					r.Vars = append(r.Vars, p)
				}
				v.Logic = pick(t, []string{"bits", "count-true", "count-false", "count-is 3", "count-less 2", "count-greater 0", "given 0", "given 5", "given-not 0", "given-excl 44", "and", "not", "if-then", "xor"})
				if v.Logic == "bits" && t.Chance(0.5) {
					v.Given = v.Given[:pick(t, []int{25, 31, 32, 33, 40})]
				}
			}
			r.Vars = append(r.Vars, v)
			return true
		}},
		{"unknown field", "y", false, func(t *T, n *Net, r *raw) bool {
			f := pick(t, []string{"tabel: [[1, 2]]", "parents: [a]", "Table: [[1]]", "nam: x", "probability: 0.5"})
			if t.Chance(0.4) {
				r.Extra = append(r.Extra, f)
			} else {
				i := t.IntN(len(r.Vars))
				r.Vars[i].Extra = append(r.Vars[i].Extra, f)
			}
			return true
		}},
		{"wrong YAML type", "y", false, func(t *T, n *Net, r *raw) bool {
			i := t.IntN(len(r.Vars))
			switch t.IntN(4) {
			case 0:
				r.Vars[i].Pos = pick(t, []string{"1, 2, 3", "a, b", "1"})
			case 1:
				r.Vars[i].TableText = pick(t, []string{"[[a, b]]", "[0.5, 0.5]", "0.5", "[[0.5, [0.5]]]", "{a: 1}", "[[0,5 0,5]]"})
			case 2:
				r.Extra = append(r.Extra, "info: [1, 2]")
			default:
				r.Vars[i].Extra = append(r.Vars[i].Extra, "color: [x]")
				r.Vars[i].Color = ""
			}
			return true
		}},
		{"no outcomes", "nyx", false, func(t *T, n *Net, r *raw) bool {
			// a childless variable, so that only the outcomes are at fault
			i := t.IntN(len(r.Vars))
			for j := range n.Vars {
				if contains(n.Vars[j].Parents, i) {
					return false
				}
			}
			if i == n.total() {
				return false
			}
			r.Vars[i].Outcomes = nil
			r.Vars[i].Table = nil
			return true
		}},
		{"too many outcomes", "nyx", false, func(t *T, n *Net, r *raw) bool {
			i := t.IntN(len(r.Vars))
			if n.Vars[i].Kind != Chance || len(n.Vars[i].Parents) > 0 || !t.Chance(0.15) {
				return false
			}
			for j := range n.Vars {
				if contains(n.Vars[j].Parents, i) {
					return false
				}
			}
			k := pick(t, []int{65536, 65537, 65538, 131072, 131074})
			r.Vars[i].Outcomes = make([]string, k)
			r.Vars[i].Table = make([]float64, k)
			for o := range r.Vars[i].Outcomes {
				r.Vars[i].Outcomes[o] = fmt.Sprintf("o%d", o)
				r.Vars[i].Table[o] = 1
			}
			return true
		}},
		{"no variables", "nyx", false, func(t *T, n *Net, r *raw) bool {
			r.Vars = nil
			return true
		}},
		{"utility as parent", "nyx", false, func(t *T, n *Net, r *raw) bool {
			u := byKind(t, n, Utility)
			i := byKind(t, n, Chance, Decision)
			if u < 0 || i < 0 || n.isAncestor(i, u) {
				return false
			}
			r.Vars[i].Given = append(r.Vars[i].Given, n.Vars[u].Name)
			r.refill(i)
			return true
		}},
		{"utility without parents", "nyx", false, func(t *T, n *Net, r *raw) bool {
			u := byKind(t, n, Utility)
			if u < 0 {
				return false
			}
			r.Vars[u].Given = nil
			r.refill(u)
			return true
		}},
		{"utility with mixed parents", "nyx", false, func(t *T, n *Net, r *raw) bool {
			i := byKind(t, n, Chance, Decision)
			us := n.ofKind(Utility)
			if i < 0 || len(us) < 2 {
				return false
			}
			if tot := n.total(); tot >= 0 && t.Chance(0.5) {
				r.Vars[tot].Given = append(r.Vars[tot].Given, n.Vars[i].Name)
				r.Vars[tot].Outcomes = append(r.Vars[tot].Outcomes, "more")
				r.Vars[tot].Table = append(r.Vars[tot].Table, 1)
				r.Vars[tot].Cols++
			} else {
				r.Vars[us[0]].Given = append(r.Vars[us[0]].Given, n.Vars[us[1]].Name)
				r.refill(us[0])
			}
			return true
		}},
		{"two totals", "nyx", false, func(t *T, n *Net, r *raw) bool {
			tot := n.total()
			if tot < 0 {
				return false
			}
			d := r.Vars[tot]
			d.Name = "second total"
			r.Vars = append(r.Vars, d)
			return true
		}},
		{"total weights do not fit", "nyx", false, func(t *T, n *Net, r *raw) bool {
			tot := n.total()
			if tot < 0 {
				return false
			}
			v := &r.Vars[tot]
			switch t.IntN(3) {
			case 0:
				v.Outcomes = append(v.Outcomes, "more")
			case 1:
				v.Outcomes = append(v.Outcomes, "more")
				v.Table = append(v.Table, 1)
				v.Cols++
			default:
				v.Table = nil
			}
			return true
		}},
		{"total without one utility", "nyx", true, func(t *T, n *Net, r *raw) bool {
			tot := n.total()
			if tot < 0 || len(n.Vars[tot].Parents) < 2 {
				return false
			}
			v := &r.Vars[tot]
			k := len(v.Given) - 1
			v.Given, v.Outcomes, v.Table = v.Given[:k], v.Outcomes[:k], v.Table[:k]
			v.Cols = k
			return true
		}},
		{"missing definition", "x", false, func(t *T, n *Net, r *raw) bool {
			r.Vars[t.IntN(len(r.Vars))].NoDef = true
			return true
		}},
		{"bad number", "x", false, func(t *T, n *Net, r *raw) bool {
			i := anyTable(t, n)
			if i < 0 {
				return false
			}
			s := []string{}
			for _, x := range r.Vars[i].Table {
				s = append(s, fmt.Sprint(x))
			}
			s[t.IntN(len(s))] = pick(t, []string{"0,5", "half", "1/3", "0.5.5", "--1", "50%"})
			r.Vars[i].TableText = strings.Join(s, " ")
			return true
		}},
		{"bad position", "x", false, func(t *T, n *Net, r *raw) bool {
			r.Vars[t.IntN(len(r.Vars))].Pos = pick(t, []string{"1", "a, b", "1, 2, 3", "1; 2", "1.5, 2", "1, "})
			return true
		}},
	}
}

// exercise uses an accepted network in every way; a panic is the violation.
func exercise(t *T, net *bbn.Network, ctx string) {
	vars := net.Variables()
	size, maxp := 1.0, 0
	for _, v := range vars {
		if v.NodeType != ve.UtilityNode {
			size *= float64(len(v.Outcomes))
		}
		maxp = max(maxp, len(v.Factor.Given))
	}
	if size > 1<<16 || maxp > 12 {
		return
	}
	what := ""
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case failure, skip:
				panic(r)
			}
			t.Failf("%s panicked on an accepted network: %v\n%s", what, r, ctx)
		}
	}()
	what = "ToYAML"
	bbn.ToYAML(net)
	some := func(types ...ve.NodeType) []string {
		c := []string{}
		for _, v := range vars {
			for _, tp := range types {
				if v.NodeType == tp && t.Chance(0.4) {
					c = append(c, v.Name)
				}
			}
		}
		return c
	}
	out := map[string][]string{}
	for _, v := range vars {
		out[v.Name] = v.Outcomes
	}
	ask := func(stage string) {
		for k := 0; k < 3; k++ {
			ev := map[string]string{}
			for _, e := range some(ve.ChanceNode, ve.DecisionNode) {
				ev[e] = pick(t, out[e])
			}
			q := []string{}
			for _, x := range some(ve.ChanceNode, ve.DecisionNode) {
				if _, ok := ev[x]; !ok && len(q) < 3 {
					q = append(q, x)
				}
			}
			what = fmt.Sprintf("SolveQuery(%v, %q) %s", ev, q, stage)
			net.SolveQuery(ev, q, t.Chance(0.5))
			u := ""
			if us := some(ve.UtilityNode); len(us) > 0 {
				u = us[0]
			}
			what = fmt.Sprintf("SolveUtility(%v, %q, %q) %s", ev, q, u, stage)
			net.SolveUtility(ev, q, u, t.Chance(0.5))
			t.Count("queries_on_accepted", 2)
		}
	}
	ask("before policies")
	what = "SolvePolicies(true)"
	net.SolvePolicies(true)
	ask("after policies")
	what = "SolvePolicies(false)"
	net.SolvePolicies(false)
	what = "training"
	tr := bbn.NewTrainer(net)
	for k := 0; k < 3; k++ {
		x, u := make([]int, len(vars)), make([]float64, len(vars))
		for j := range x {
			x[j] = t.IntN(len(vars[j].Outcomes)+1) - 1
		}
		tr.AddSample(x, u)
	}
	tr.UpdateNetwork()
	what = "ToYAML"
	bbn.ToYAML(net)
}

func load(t *T, format, text string) (net *bbn.Network, err error) {
	guarded(t, "loading "+format, func() {
		if format == "YAML" {
			net, err = bbn.FromYAML([]byte(text))
		} else {
			net, err = bbn.FromBIFXML([]byte(text))
		}
	})
	return
}

// genForDefect favours networks with utilities and totals, where there is more to get wrong.
func genForDefect(t *T) *Net {
	var n *Net
	switch t.IntN(4) {
	case 0:
		n = genID(t, idOpt{chance: t.Range(0, 3), names: "words", maxJoint: 64, total: pick(t, []int{-1, 1})})
	case 1:
		n = genChanceUtility(t)
	default:
		n = genBN(t, genOpt{nMin: 1, nMax: 5, maxJoint: 256, names: pick(t, []string{"words", "simple"}), cards: pick(t, []string{"binary", "small", "ones"})})
	}
	n.plainZeros()
	return n
}

var nasties = []string{"", "0", "-1", "1", ".nan", "NaN", ".inf", "-.inf", "inf", "1e400", "1e-400", "99999999999999999999", "null", "~", "[]", "{}", "[[]]", "- ", "\"", "'", ":", "&a", "*a", "!!float x", "<<: *a", "|", ">", "\t", "\x00", "\xff", "ä", "<", ">", "</X>", "&amp;", "&bad;", "<![CDATA[x]]>", "<!--", "true", "x", "65536", "65537", "-9223372036854775808"}

// mutate damages a text at the level of bytes, tokens or lines.
func mutate(t *T, s string) string {
	for k := 0; k < t.Range(1, 4) && len(s) > 0; k++ {
		switch t.IntN(8) {
		case 0: // delete a slice
			i := t.IntN(len(s))
			j := min(len(s), i+t.Range(1, 20))
			s = s[:i] + s[j:]
		case 1: // insert
			i := t.IntN(len(s) + 1)
			s = s[:i] + pick(t, nasties) + s[i:]
		case 2: // truncate
			s = s[:t.IntN(len(s)+1)]
		case 3, 4: // lines: drop, repeat, swap
			l := strings.Split(s, "\n")
			i, j := t.IntN(len(l)), t.IntN(len(l))
			switch t.IntN(3) {
			case 0:
				l = append(l[:i], l[i+1:]...)
			case 1:
				l = append(l[:i], append([]string{l[j]}, l[i:]...)...)
			default:
				l[i], l[j] = l[j], l[i]
			}
			s = strings.Join(l, "\n")
		case 5, 6: // tokens: replace one by a nasty one or by another of the text
			f := strings.FieldsFunc(s, func(r rune) bool { return strings.ContainsRune(" \n[],<>:\"", r) })
			if len(f) == 0 {
				return s
			}
			old := pick(t, f)
			nw := pick(t, nasties)
			if t.Chance(0.5) {
				nw = pick(t, f)
			}
			if t.Chance(0.7) {
				s = strings.Replace(s, old, nw, 1)
			} else if len(s) < 1<<16 {
				s = strings.ReplaceAll(s, old, nw)
			}
		default:
			b := []byte(s)
			b[t.IntN(len(b))] = byte(t.IntN(256))
			s = string(b)
		}
	}
	return s
}

func checkC12(c *Ctx) {
	ds := defects()
	defect := func(t *T, gen func(*T) *Net) {
		d := ds[t.idx%len(ds)]
		if d.name == "too many outcomes" && t.idx/len(ds)%12 != 0 { // large texts
			d = ds[t.IntN(4)]
		}
		var n *Net
		var r *raw
		for k := 0; ; k++ {
			if k == 50 {
				t.Skip()
			}
			n = gen(t)
			r = n.raw()
			if d.apply(t, n, r) {
				break
			}
		}
		good := n.raw()
		for _, w := range d.where {
			var net, ok *bbn.Network
			var err, okErr error
			text := ""
			switch w {
			case 'n':
				ok, okErr = good.construct()
				guarded(t, "bbn.New with "+d.name, func() { net, err = r.construct() })
				text = fmt.Sprintf("%+v", r.Vars)
			case 'y':
				ok, okErr = bbn.FromYAML([]byte(good.yaml()))
				text = r.yaml()
				net, err = load(t, "YAML", text)
			case 'x':
				ok, okErr = bbn.FromBIFXML([]byte(good.xml()))
				text = r.xml()
				net, err = load(t, "BIF-XML", text)
			}
			if okErr != nil || ok == nil {
				t.Failf("the network without the defect is refused: %v\n%s", okErr, n)
			}
			if err == nil && d.late {
				guarded(t, "solving with "+d.name, func() {
					if t.Chance(0.5) {
						_, _, err = net.SolveQuery(nil, nil, false)
					} else if len(n.ofKind(Decision)) > 0 {
						_, err = net.SolvePolicies(t.Chance(0.5))
					} else {
						_, err = net.SolveUtility(nil, nil, "", false)
					}
				})
			}
			if err == nil {
				t.Failf("a network with defect %q was accepted (%s)\n%s", d.name, map[rune]string{'n': "constructor", 'y': "YAML", 'x': "BIF-XML"}[w], text)
			}
			t.Count("refusals", 1)
			t.Distinct(d.name, string(w), n.shape())
		}
		t.Sample(map[string]any{"defect": d.name, "ways": d.where})
	}
	c.Section("defects", 12000, 240000, fmt.Sprintf("%d kinds of single defects put into valid networks of every kind, given through the constructor, as YAML and as BIF-XML: each must be refused with an error, without a crash; the same text without the defect is accepted", len(ds)), func(t *T) { defect(t, genForDefect) })
	c.Section("large", 400, 8000, "the same with 60..300 variables, tables of up to 2^15 entries or up to 300 outcomes", func(t *T) {
		defect(t, func(t *T) *Net {
			for {
				n := genLargeNet(t)
				if n.Info != "" {
					continue // long texts
				}
				if len(n.Vars) < 100 && t.Chance(0.4) {
					n = addUtilities(t, n)
				}
				return n
			}
		})
	})
	c.Section("queries", 8000, 160000, "invalid queries to valid networks, solved or not, first call or later: unknown evidence variable or outcome, evidence on or query for a utility node, unknown or repeated-as-evidence query variable, unknown or unsuitable utility variable: an error, no crash, and valid queries still answered exactly", func(t *T) {
		n := genForDefect(t)
		net := n.build(t, true)
		solved := t.Chance(0.6)
		if solved {
			solvePolicies(t, n, net, t.Chance(0.5))
		}
		x := n.sampleJoint(t, nil)
		ev := map[string]string{}
		q := []string{}
		for _, i := range append(n.ofKind(Chance), n.ofKind(Decision)...) {
			if t.Chance(0.3) {
				ev[n.Vars[i].Name] = n.Vars[i].Outcomes[x[i]]
			} else if t.Chance(0.2) && len(q) < 2 {
				q = append(q, n.Vars[i].Name)
			}
		}
		i := pick(t, append(n.ofKind(Chance), n.ofKind(Decision)...))
		us := n.ofKind(Utility)
		u := ""
		what := ""
		utilOnly := false
		switch k := t.IntN(8); {
		case k == 0:
			ev[pick(t, []string{"no such variable", "", strings.ToUpper(n.Vars[i].Name) + "?"})] = "yes"
			what = "unknown evidence variable"
		case k == 1:
			ev[n.Vars[i].Name] = pick(t, []string{"no such outcome", "", n.Vars[i].Outcomes[0] + " "})
			q = nil
			what = "unknown outcome"
		case k == 2 && len(us) > 0:
			v := pick(t, us)
			ev[n.Vars[v].Name] = n.Vars[v].Outcomes[0]
			what = "evidence on a utility"
		case k == 3 && len(us) > 0:
			v := pick(t, us)
			if tot := n.total(); tot >= 0 && t.Chance(0.5) {
				v = tot
			}
			q = append(q, n.Vars[v].Name)
			what = "query for a utility"
		case k == 4:
			q = append(q, pick(t, []string{"no such variable", "", n.Vars[i].Name + " "}))
			what = "unknown query variable"
		case k == 5:
			ev[n.Vars[i].Name] = n.Vars[i].Outcomes[x[i]]
			q = []string{n.Vars[i].Name}
			what = "query variable with evidence"
		case k == 6:
			u, utilOnly = pick(t, []string{"no such utility", n.Vars[i].Name}), true
			what = "unsuitable utility variable"
		default:
			ev[n.Vars[i].Name+"x"] = n.Vars[i].Outcomes[0]
			what = "unknown evidence variable"
		}
		t.Event("%s: evidence %v query %q utility %q solved %v", what, ev, q, u, solved)
		if !utilOnly {
			guarded(t, "SolveQuery with "+what, func() {
				if _, _, err := net.SolveQuery(ev, q, t.Chance(0.5)); err == nil {
					t.Failf("SolveQuery accepted %s: evidence %v, query %q\n%s", what, ev, q, n)
				}
			})
		}
		guarded(t, "SolveUtility with "+what, func() {
			if _, err := net.SolveUtility(ev, q, u, t.Chance(0.5)); err == nil {
				t.Failf("SolveUtility accepted %s: evidence %v, query %q, utility %q\n%s", what, ev, q, u, n)
			}
		})
		guarded(t, "ToEvidence", func() {
			if _, err := net.ToEvidence("no such variable", "yes"); err == nil {
				t.Failf("ToEvidence accepted an unknown variable")
			}
			if _, err := net.ToEvidence(n.Vars[i].Name, n.Vars[i].Outcomes[0]+"?"); err == nil {
				t.Failf("ToEvidence accepted an unknown outcome")
			}
			p, err := net.ToEvidence(n.Vars[i].Name, n.Vars[i].Outcomes[x[i]])
			if err != nil || len(p) != n.card(i) || p[x[i]] != 1 || sum(p) != 1 {
				t.Failf("ToEvidence(%q, %q) = %v, %v", n.Vars[i].Name, n.Vars[i].Outcomes[x[i]], p, err)
			}
		})
		if len(n.ofKind(Decision)) == 0 {
			e := genEvidence(t, n, 1)
			checkPosterior(t, n, net, e, pickQuery(t, n, e, 1), false)
		}
		t.Count("refusals", 1)
		t.Distinct(what, n.shape(), solved)
		t.Sample(map[string]any{"defect": what, "evidence": ev, "query": q})
	})
	fuzz := func(format string) func(t *T) {
		return func(t *T) {
			n := genForDefect(t)
			text := ""
			if format == "YAML" {
				switch {
				case t.Chance(0.3):
					text = n.yamlText(t, true)
				case t.Chance(0.3):
					_, text = logicNet(t, logicOps())
				default:
					text = n.raw().yaml()
				}
			} else {
				text = n.raw().xml()
			}
			text = mutate(t, text)
			t.Event("text\n%s", text)
			net, err := load(t, format, text)
			if err != nil {
				t.Count("refused_texts", 1)
			} else {
				t.Count("accepted_texts", 1)
				exercise(t, net, text)
			}
			t.Distinct(text)
			t.Sample(map[string]any{"text": text[:min(len(text), 500)], "error": fmt.Sprint(err)})
		}
	}
	c.Section("yaml", 15000, 400000, "YAML texts of valid networks damaged at byte, token or line level: loading returns an error or a network, and an accepted network can be solved, queried, trained and written without a crash", fuzz("YAML"))
	c.Section("xml", 15000, 400000, "the same for BIF-XML", fuzz("BIF-XML"))
	c.Section("numbers", 4000, 80000, "accepted networks with degenerate numbers in their tables (rows of zeros, negative, infinite, not a number, huge): no call crashes", func(t *T) {
		n := genForDefect(t)
		r := n.raw()
		for i := range r.Vars {
			v := &r.Vars[i]
			if t.Chance(0.5) && len(v.Table) > 0 {
				row := t.IntN(len(v.Table)/v.Cols) * v.Cols
				x := pick(t, []string{"0", "0", "-1", ".nan", ".inf", "-.inf", "1e308", "5e-324"})
				s := []string{}
				for k, y := range v.Table {
					if (k >= row && k < row+v.Cols) || t.Chance(0.05) {
						s = append(s, x)
					} else {
						s = append(s, fmt.Sprint(y))
					}
				}
				v.TableText = "[[" + strings.Join(s, ", ") + "]]"
			}
		}
		text := r.yaml()
		t.Event("text\n%s", text)
		net, err := load(t, "YAML", text)
		if err == nil {
			exercise(t, net, text)
			t.Count("accepted_texts", 1)
		} else {
			t.Count("refused_texts", 1)
		}
		t.Distinct(text)
		t.Sample(text[:min(len(text), 500)])
	})
	c.Section("tools", 600, 8000, "the command line tools on files with a defect and on damaged files: exit status 1 with an ERROR line (or a regular result for damage that leaves a valid network), never a crash; unknown options, commands and colors refused", func(t *T) {
		dir, rm := scratch(t)
		defer rm()
		n := genForDefect(t)
		certain := true
		ext := pick(t, []string{"yml", "xml"})
		text := ""
		what := ""
		switch t.IntN(4) {
		case 0:
			d := pick(t, ds)
			r := n.raw()
			if d.late || !strings.Contains(d.where, ext[:1]) || !d.apply(t, n, r) {
				t.Skip()
			}
			what = d.name
			if ext == "yml" {
				text = r.yaml()
			} else {
				text = r.xml()
			}
		case 1:
			ext = "yml"
			r := n.raw()
			r.Vars[t.IntN(len(r.Vars))].Color = pick(t, []string{"no such color", "Red!", "12x", "#12"})
			text = r.yaml()
			what = "unknown color"
		default:
			certain = false
			if ext == "yml" {
				text = mutate(t, n.raw().yaml())
			} else {
				text = mutate(t, n.raw().xml())
			}
			what = "damage"
		}
		p := filepath.Join(dir, "net."+ext)
		os.WriteFile(p, []byte(text), 0o644)
		csvf := filepath.Join(dir, "d.csv")
		rs := n.genRecords(t, 3, 0, true)
		o := csvOpt{delim: ',', noData: ""}
		os.WriteFile(csvf, writeCSV(o, n.csvRows(t, rs, o)), 0o644)
		t.Event("file\n%s", text)
		runs := [][]string{{"bbn", "inference", p}, {"bbn", "train", p, csvf}}
		if certain {
			runs = append(runs, []string{"bbni", p})
		}
		for _, a := range runs {
			if what == "unknown color" && a[1] == "train" {
				continue
			}
			if a[0] == "bbni" {
				startRefused(t, dir, what, a[1:]...)
				continue
			}
			r := cli(t, c, dir, a[0], a[1:]...)
			if certain || r.code != 0 {
				r.refused(t, a[0]+" with "+what)
			}
		}
		if t.Chance(0.1) {
			cli(t, c, dir, "bbn", pick(t, [][]string{{"no-such-command"}, {"inference", "--no-such-flag", p}, {"train"}, {"inference"}, {"inference", p, p}})...).refused(t, "bad command line")
			startRefused(t, dir, "bad command line", pick(t, [][]string{{}, {p, p}, {"--no-such-flag", p}, {filepath.Join(dir, "missing.yml")}})...)
		}
		t.Distinct(what, text)
		t.Sample(map[string]any{"defect": what, "file": text[:min(len(text), 300)]})
	})
}
