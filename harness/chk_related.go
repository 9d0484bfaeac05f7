package main

import (
	"fmt"
	"math"
	"slices"

	"github.com/mlange-42/bbn"
	"github.com/mlange-42/bbn/ve"
)

// ambiguous renames variables and outcomes so that different calls look the same when their names are just strung together:
// one variable is called like two others with a separator, one outcome like an outcome followed by further evidence.
func (n *Net) ambiguous(t *T) {
	sep := pick(t, []string{",", ";", "|", " ", ":", "/", "\x00", "\n", "\t", "=", "-", "_", ".", "", ", ", "&", "\x1f", "\x01", "+"})
	eq := pick(t, []string{"=", ":", "", " ", "|", "/", "\x00", "==", "->", ",", "_", "-"})
	names := []string{"A", "B", "C", "D", "E", "F", "G"}
	for i := range n.Vars {
		if i < len(names) {
			n.Vars[i].Name = names[i]
		} else {
			n.Vars[i].Name = fmt.Sprint("V", i)
		}
		for o := range n.Vars[i].Outcomes {
			n.Vars[i].Outcomes[o] = fmt.Sprint("x", o)
		}
	}
	nodes := append(n.ofKind(Chance), n.ofKind(Decision)...)
	slices.Sort(nodes)
	if len(nodes) < 2 {
		return
	}
	if len(nodes) >= 3 {
		i := t.Range(2, len(nodes)-1)
		a, b := n.Vars[nodes[0]].Name, n.Vars[nodes[1]].Name
		if t.Chance(0.5) {
			a, b = b, a
		}
		name := a + sep + b
		if sep != "" {
			n.Vars[nodes[i]].Name = name
		}
	}
	for k := 0; k < 2; k++ { // A: x0 and B: x1 together, or A: "x0,B=x1"
		i := t.IntN(len(nodes) - 1)
		j := t.Range(i+1, len(nodes)-1)
		v := &n.Vars[nodes[i]]
		if len(v.Outcomes) < 2 || v.Outcomes[1] != "x1" {
			continue
		}
		w := n.Vars[nodes[j]]
		v.Outcomes[1] = v.Outcomes[0] + sep + w.Name + eq + pick(t, w.Outcomes)
	}
}

type relCall struct {
	ev      map[string]string
	qs      []string
	utility bool
	uname   string
	ignore  bool
}

func (c relCall) String() string {
	s := "query"
	if c.utility {
		s = fmt.Sprintf("utility %q", c.uname)
	}
	return fmt.Sprintf("%s evidence=%q query=%q ignorePolicies=%v", s, c.ev, c.qs, c.ignore)
}

type relAnswer struct {
	failed bool
	marg   map[string][]float64
	vars   []ve.Variable
	data   []float64
}

func (c relCall) run(net *bbn.Network, scribble bool) relAnswer {
	ev := map[string]string{}
	for k, v := range c.ev {
		ev[k] = v
	}
	qs := slices.Clone(c.qs)
	a := relAnswer{marg: map[string][]float64{}}
	var f *ve.Factor
	var err error
	var m map[string][]float64
	if c.utility {
		f, err = net.SolveUtility(ev, qs, c.uname, c.ignore)
	} else {
		m, f, err = net.SolveQuery(ev, qs, c.ignore)
	}
	if err != nil {
		a.failed = true
		return a
	}
	for k, v := range m {
		a.marg[k] = slices.Clone(v)
	}
	a.vars, a.data = slices.Clone(f.Variables()), slices.Clone(f.Data())
	if scribble {
		for _, v := range m {
			for i := range v {
				v[i] = -1
			}
		}
		for i := range f.Data() {
			f.Data()[i] = 99
		}
		for k := range ev {
			ev[k] = "scribble"
		}
		for i := range qs {
			qs[i] = "scribble"
		}
	}
	return a
}

// differs compares two answers; scale is what utilities can amount to.
func (a relAnswer) differs(b relAnswer, utility bool, scale float64) string {
	if a.failed != b.failed {
		return fmt.Sprintf("refused: %v and %v", a.failed, b.failed)
	}
	if len(a.vars) != len(b.vars) {
		return fmt.Sprintf("factor over %v and %v", a.vars, b.vars)
	}
	for i := range a.vars {
		if a.vars[i].Id() != b.vars[i].Id() || a.vars[i].NodeType() != b.vars[i].NodeType() {
			return fmt.Sprintf("factor over %v and %v", a.vars, b.vars)
		}
	}
	same := func(x, y []float64, tol float64) bool {
		if len(x) != len(y) {
			return false
		}
		for i := range x {
			if math.IsNaN(x[i]) != math.IsNaN(y[i]) || math.Abs(x[i]-y[i]) > max(tol, 1e-9*max(math.Abs(x[i]), math.Abs(y[i]))) {
				return false
			}
		}
		return true
	}
	tol := 0.0
	if utility {
		tol = scale * 1e-9
	}
	if !same(a.data, b.data, tol) {
		return fmt.Sprintf("factor data %v and %v", shortFloats(a.data), shortFloats(b.data))
	}
	if len(a.marg) != len(b.marg) {
		return fmt.Sprintf("marginals of %d and %d variables", len(a.marg), len(b.marg))
	}
	for k := range a.marg {
		if !same(a.marg[k], b.marg[k], 0) {
			return fmt.Sprintf("marginals of %q: %v and %v", k, a.marg[k], b.marg[k])
		}
	}
	return ""
}

// related runs sequences of similar calls on two networks that differ in their tables only, each compared with the same call on a
// network made for it.
func related(t *T, n *Net, ops int) {
	n.ambiguous(t)
	if !n.uniqueNames() {
		t.Skip()
	}
	nets := [2]*Net{n, n.clone()}
	for i := range n.Vars {
		v := &nets[1].Vars[i]
		v.Table = slices.Clone(v.Table)
		switch {
		case v.Kind == Chance: // exact numbers stay exact
			for r := 0; r < n.rows(i); r++ {
				slices.Reverse(v.Table[r*n.card(i) : (r+1)*n.card(i)])
			}
		case v.Kind == Utility && i != n.total():
			slices.Reverse(v.Table)
		}
	}
	scale := 0.0
	for i := range n.Vars {
		if n.Vars[i].Kind == Utility {
			m := 0.0
			for _, x := range n.Vars[i].Table {
				m = max(m, math.Abs(x))
			}
			if i == n.total() {
				scale = max(scale, 1) * max(m, 1)
			} else {
				scale += m
			}
		}
	}
	mass := 1.0
	for i := range n.Vars {
		if n.Vars[i].Kind == Chance {
			m := 0.0
			for r := 0; r < n.rows(i); r++ {
				m = max(m, sum(n.Vars[i].Table[r*n.card(i):(r+1)*n.card(i)]))
			}
			mass *= max(m, 1)
		}
	}
	scale *= mass
	var used [2]*bbn.Network
	var mode [2]int // 0 unsolved, 1 all at once, 2 step by step
	used[0], used[1] = nets[0].build(t, false), nets[1].build(t, false)
	nodes := append(n.ofKind(Chance), n.ofKind(Decision)...)
	utils := slices.DeleteFunc(slices.Clone(n.ofKind(Utility)), func(i int) bool { return i == n.total() })
	calls := []relCall{}
	newCall := func() relCall {
		c := relCall{ev: map[string]string{}, ignore: t.Chance(0.5)}
		p := pick(t, []float64{0.15, 0.4, 0.7})
		for _, i := range t.Perm(len(nodes)) {
			v := n.Vars[nodes[i]]
			if t.Chance(p) {
				c.ev[v.Name] = pick(t, v.Outcomes)
			} else if len(c.qs) < 3 && t.Chance(0.6) {
				c.qs = append(c.qs, v.Name)
			}
		}
		return c
	}
	find := func(name string) V {
		return n.Vars[slices.IndexFunc(n.Vars, func(v V) bool { return v.Name == name })]
	}
	vary := func(c relCall) (relCall, string) {
		ev := map[string]string{}
		for k, v := range c.ev {
			ev[k] = v
		}
		c.ev, c.qs = ev, slices.Clone(c.qs)
		how := pick(t, []string{"same", "ignore", "ignore", "order", "order", "subset", "superset", "outcome", "outcome", "less evidence", "more evidence", "utility", "utility", "split", "split", "to query", "bad"})
		names := sortedKeys(ev)
		free := []string{}
		for _, i := range nodes {
			if _, ok := ev[n.Vars[i].Name]; !ok && !slices.Contains(c.qs, n.Vars[i].Name) {
				free = append(free, n.Vars[i].Name)
			}
		}
		switch how {
		case "ignore":
			c.ignore = !c.ignore
		case "order":
			t.Shuffle(len(c.qs), func(a, b int) { c.qs[a], c.qs[b] = c.qs[b], c.qs[a] })
		case "subset":
			if len(c.qs) > 0 {
				c.qs = slices.Delete(c.qs, 0, 1)
			}
		case "superset":
			if len(free) > 0 && len(c.qs) < 4 {
				c.qs = slices.Insert(c.qs, t.IntN(len(c.qs)+1), pick(t, free))
			}
		case "outcome":
			if len(names) > 0 {
				k := pick(t, names)
				ev[k] = pick(t, find(k).Outcomes)
			}
		case "less evidence":
			if len(names) > 0 {
				delete(ev, pick(t, names))
			}
		case "more evidence":
			if len(free) > 0 {
				k := pick(t, free)
				ev[k] = pick(t, find(k).Outcomes)
			}
		case "utility":
			c.utility = !c.utility || t.Chance(0.5)
			c.uname = ""
			if c.utility && len(utils) > 0 && t.Chance(0.6) {
				c.uname = n.Vars[pick(t, utils)].Name
			}
			if len(utils) == 0 {
				c.utility = false
			}
		case "to query":
			if len(names) > 0 {
				k := pick(t, names)
				delete(ev, k)
				c.qs = append(c.qs, k)
			}
		case "bad":
			switch {
			case len(names) > 0 && t.Chance(0.5):
				ev[pick(t, names)] = "no such outcome"
			case len(names) > 0:
				c.qs = append(c.qs, pick(t, names))
			default:
				c.qs = append(c.qs, "no such variable")
			}
		case "split": // what looks like a part of one name, as several; or the other way around
			for i, q := range c.qs {
				for _, a := range nodes {
					for _, b := range nodes {
						x, y := n.Vars[a].Name, n.Vars[b].Name
						if len(q) > len(x)+len(y) && q[:len(x)] == x && q[len(q)-len(y):] == y && slices.Contains(free, x) && slices.Contains(free, y) {
							c.qs = slices.Replace(c.qs, i, i+1, x, y)
							return c, how
						}
					}
				}
			}
			for _, k := range names {
				for _, a := range free {
					for _, o := range find(a).Outcomes {
						first := find(k).Outcomes[0]
						v := ev[k]
						if v != first && len(v) > len(first)+len(a)+len(o) && v[:len(first)] == first && v[len(v)-len(o):] == o {
							ev[k] = first
							ev[a] = o
							return c, how
						}
					}
				}
			}
		}
		return c, how
	}
	log := []string{}
	for k := 0; k < ops; k++ {
		w := 0
		if t.Chance(0.3) {
			w = 1
		}
		if t.Chance(0.1) && len(n.ofKind(Decision)) > 0 {
			mode[w] = t.Range(1, 2)
			if _, err := used[w].SolvePolicies(mode[w] == 2); err != nil {
				t.Failf("SolvePolicies failed on a valid network after %v: %v\n%s", log, err, nets[w])
			}
			log = append(log, "policies")
			continue
		}
		c, how := newCall(), "new"
		if len(calls) > 0 && t.Chance(0.85) {
			c, how = vary(calls[max(0, len(calls)-1-t.IntN(3))])
		}
		if !c.utility && len(utils) > 0 && how == "new" && t.Chance(0.3) {
			c.utility = true
		}
		log = append(log, fmt.Sprintf("%d:%s", w, how))
		t.Event("network %d: %s", w, c)
		got := c.run(used[w], t.Chance(0.7))
		fresh := nets[w].build(t, false)
		if mode[w] > 0 {
			if _, err := fresh.SolvePolicies(mode[w] == 2); err != nil {
				t.Failf("SolvePolicies: %v", err)
			}
		}
		want := c.run(fresh, false)
		if d := got.differs(want, c.utility, scale); d != "" {
			t.Failf("answer to %s on a network used before (%v) and on a fresh one differ: %s\n%s", c, log, d, nets[w])
		}
		t.Count("answers_compared", 1)
		t.Count("variation_"+how, 1)
		if how != "bad" {
			calls = append(calls, c)
		}
	}
	t.Distinct(n.shape(), log)
	t.Sample(map[string]any{"variables": len(n.Vars), "calls": log})
}
