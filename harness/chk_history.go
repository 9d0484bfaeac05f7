package main

import (
	"fmt"
	"math"

	"github.com/mlange-42/bbn"
	"github.com/mlange-42/bbn/ve"
)

func init() {
	checks["C03"] = checkC03
}

// netSnap is everything a network exposes about its definition.
type netSnap struct {
	name, info string
	vars       []bbn.Variable
	facs       []bbn.Factor
}

func snapNet(net *bbn.Network) netSnap {
	s := netSnap{name: net.Name(), info: net.Info()}
	for _, v := range net.Variables() {
		f := *v.Factor
		f.Given = append([]string{}, f.Given...)
		f.Table = append([]float64{}, f.Table...)
		v.Outcomes = append([]string{}, v.Outcomes...)
		v.Factor = nil
		s.vars = append(s.vars, v)
		s.facs = append(s.facs, f)
	}
	return s
}

func (s netSnap) diff(net *bbn.Network) string {
	if net.Name() != s.name || net.Info() != s.info {
		return "name or info changed"
	}
	vars := net.Variables()
	if len(vars) != len(s.vars) {
		return fmt.Sprintf("%d variables, before %d", len(vars), len(s.vars))
	}
	for i, v := range vars {
		w := s.vars[i]
		if v.Name != w.Name || v.NodeType != w.NodeType || v.Position != w.Position || v.Color != w.Color || fmt.Sprintf("%q", v.Outcomes) != fmt.Sprintf("%q", w.Outcomes) {
			return fmt.Sprintf("variable %d is now %v, before %v", i, v, w)
		}
		if v.Factor == nil {
			return fmt.Sprintf("variable %q lost its factor", v.Name)
		}
		if v.Factor.For != s.facs[i].For || fmt.Sprintf("%q", v.Factor.Given) != fmt.Sprintf("%q", s.facs[i].Given) {
			return fmt.Sprintf("factor of %q is now for %q given %q", v.Name, v.Factor.For, v.Factor.Given)
		}
		if !sameBits(v.Factor.Table, s.facs[i].Table) {
			return fmt.Sprintf("table of %q is now %v, before %v", v.Name, shortFloats(v.Factor.Table), shortFloats(s.facs[i].Table))
		}
	}
	return ""
}

type kept struct {
	f    *ve.Factor
	q    int
	want []float64
	snap facSnap
}

// history runs a random sequence of operations on one network and checks every answer against the reference for the
// state (tables, policies) that the sequence has established.
func history(t *T, n *Net, ops int) {
	net := n.build(t, true)
	base := snapNet(net)
	pols := map[int]*RF{}
	solved := len(n.ofKind(Decision)) == 0
	decs := n.ofKind(Decision)
	var strat *strategy
	if len(decs) > 0 {
		strat = n.solveStrategy()
	}
	log := []string{}
	old := []kept{}
	trace := ""
	for k := 0; k < ops; k++ {
		op := pick(t, []string{"query", "query", "query", "utility", "utility", "policies", "fail", "toevidence", "yaml", "old", "impossible"})
		log = append(log, op)
		trace += op[:1]
		switch op {
		case "policies":
			if len(decs) == 0 {
				continue
			}
			pol, p := solvePolicies(t, n, net, t.Chance(0.6))
			checkOptimal(t, n, p, strat, true)
			pols, solved = p, true
			for name, f := range pol { // what the caller does with the result is the caller's business
				for i := range f.Table {
					f.Table[i] = -3
				}
				for i := range f.Given {
					f.Given[i] = "scribble"
				}
				delete(pol, name)
			}
		case "query":
			var ev map[int]int
			var qs []int
			if solved {
				ev, qs = genMixedQuery(t, n, pols, 3, 2, Chance)
			} else {
				x := n.sampleJoint(t, nil)
				ev = map[int]int{}
				for _, d := range decs {
					ev[d] = x[d]
				}
				for _, i := range n.ofKind(Chance) {
					if t.Chance(0.3) {
						ev[i] = x[i]
					}
				}
				qs = pickQuery(t, n, ev, 2)
			}
			evn, qn := n.evidenceNames(ev), n.namesOf(qs)
			t.Event("SolveQuery(%v, %q)", evn, qn)
			ignore := t.Chance(0.5)
			qn, intact := fenced(qn)
			m, f, err := net.SolveQuery(evn, qn, ignore)
			if !intact() {
				t.Failf("SolveQuery changed the caller's list of query variables, or what lies behind it: now %q", qn)
			}
			if err != nil {
				t.Failf("SolveQuery failed on a valid query after %v: %v\n%s", log, err, n)
			}
			for k, v := range n.evidenceNames(ev) {
				if evn[k] != v || len(evn) != len(ev) {
					t.Failf("SolveQuery changed the caller's evidence map: %v", evn)
				}
			}
			fs := n.probRFs(pols)
			for _, qi := range qs {
				want := normalized(n.eval(fs, []int{qi}, ev))
				if !nearAll(m[n.Vars[qi].Name], want, 1e-9) {
					t.Failf("P(%q | %v) = %v after operations %v, exact value %v\n%s", n.Vars[qi].Name, evn, m[n.Vars[qi].Name], log, want, n)
				}
				t.Count("posteriors_compared", 1)
			}
			if len(qs) == 1 && solved && t.Chance(0.6) {
				old = append(old, kept{f, qs[0], normalized(n.eval(fs, qs, ev)), snapFactor(f)})
			} else {
				for i := range f.Data() {
					f.Data()[i] = math.NaN()
				}
			}
			for _, x := range m {
				for i := range x {
					x[i] = 17
				}
			}
			for k := range evn {
				evn[k] = "scribble"
			}
			for i := range qn {
				qn[i] = "scribble"
			}
		case "utility":
			if len(n.ofKind(Utility)) == 0 || !solved {
				continue
			}
			ev, qs := genMixedQuery(t, n, pols, 2, 1, Chance)
			u := pick(t, append(n.ofKind(Utility), -1))
			checkUtility(t, n, net, u, ev, qs, pols, t.Chance(0.5))
			name := ""
			if u >= 0 {
				name = n.Vars[u].Name
			}
			evn := n.evidenceNames(ev)
			qn, intact := fenced(n.namesOf(qs))
			f, err := net.SolveUtility(evn, qn, name, false)
			if err != nil {
				t.Failf("SolveUtility: %v", err)
			}
			if fmt.Sprint(evn) != fmt.Sprint(n.evidenceNames(ev)) {
				t.Failf("SolveUtility changed the caller's evidence map: %v", evn)
			}
			if !intact() {
				t.Failf("SolveUtility changed the caller's list of query variables, or what lies behind it: now %q", qn)
			}
			if order, intact := fenced(n.namesOf(qs)); len(order) > 0 {
				net.Rearrange(f, order)
				if !intact() {
					t.Failf("Rearrange changed the caller's list of variables, or what lies behind it: now %q", order)
				}
			}
			for i := range f.Data() {
				f.Data()[i] = 1e9
			}
		case "fail": // refused calls leave no trace
			name := pick(t, n.Vars).Name
			bad := pick(t, []func() error{
				func() error { _, _, err := net.SolveQuery(map[string]string{"no such": "x"}, nil, false); return err },
				func() error {
					_, _, err := net.SolveQuery(map[string]string{name: "no such outcome"}, nil, true)
					return err
				},
				func() error { _, _, err := net.SolveQuery(nil, []string{"no such"}, false); return err },
				func() error { _, err := net.SolveUtility(nil, nil, "no such", false); return err },
				func() error { _, err := net.ToEvidence("no such", "x"); return err },
				func() error { _, err := net.ToEvidence(name, "no such outcome"); return err },
			})
			t.Event("refused call")
			if bad() == nil {
				t.Failf("a call naming unknown variables or outcomes succeeded after %v\n%s", log, n)
			}
		case "toevidence":
			i := t.IntN(len(n.Vars))
			o := t.IntN(n.card(i))
			p, err := net.ToEvidence(n.Vars[i].Name, n.Vars[i].Outcomes[o])
			if err != nil || len(p) != n.card(i) || p[o] != 1 || sum(p) != 1 {
				t.Failf("ToEvidence(%q, %q) = %v, %v after %v", n.Vars[i].Name, n.Vars[i].Outcomes[o], p, err, log)
			}
			for j := range p {
				p[j] = -1
			}
		case "yaml":
			b, err := bbn.ToYAML(net)
			if err != nil {
				t.Failf("ToYAML: %v", err)
			}
			for j := range b {
				b[j] = '?'
			}
		case "impossible":
			// evidence drawn blindly: may be impossible; the answer is not judged here, only its after-effects
			ev := map[string]string{}
			for i := range n.Vars {
				if n.Vars[i].Kind != Utility && t.Chance(0.5) {
					ev[n.Vars[i].Name] = pick(t, n.Vars[i].Outcomes)
				}
			}
			net.SolveQuery(ev, nil, t.Chance(0.5))
		case "old": // factors returned earlier stay valid and usable
			if len(old) == 0 {
				continue
			}
			o := pick(t, old)
			if !o.snap.unchanged() {
				t.Failf("a factor returned earlier changed after %v: before %v, now %v\n%s", log, o.snap.data, o.f.Data(), n)
			}
			m := net.Marginal(o.f, n.Vars[o.q].Name)
			m = net.Normalize(&m)
			if !nearAll(m.Data(), o.want, 1e-9) {
				t.Failf("normalized marginal of an earlier result is %v after %v, expected %v\n%s", m.Data(), log, o.want, n)
			}
			t.Count("earlier_results_checked", 1)
		}
		if d := base.diff(net); d != "" {
			t.Failf("solving changed the network's definition after %v: %s\n%s", log, d, n)
		}
	}
	t.Count("operations", ops)
	t.Distinct(n.shape(), trace)
	t.Sample(map[string]any{"variables": len(n.Vars), "operations": log})
}

func checkC03(c *Ctx) {
	c.Section("chance", 2500, 50000, "histories of 15..40 operations (queries, failing calls, impossible evidence, YAML, reuse of earlier results; every returned slice, map and factor overwritten by the caller) on one chance network: each answer compared with the exact value, the definition bitwise with its initial state",
		func(t *T) { history(t, genBN(t, genOpt{nMin: 2, nMax: 7, maxJoint: 1 << 10}), t.Range(15, 40)) })
	c.Section("decisions", 3000, 60000, "the same on decision networks, with policies solved and solved again at arbitrary points in either mode",
		func(t *T) { history(t, genID(t, idOpt{chance: -1, maxJoint: 1 << 9}), t.Range(12, 30)) })
	c.Section("utility", 1200, 25000, "the same on chance networks with utilities", func(t *T) { history(t, genChanceUtility(t), t.Range(12, 30)) })
	c.Section("large", 400, 6000, "the same on networks of 15..120 variables or with up to 300 outcomes", func(t *T) {
		var n *Net
		for n == nil || n.elimCost(nil, nil) > 1<<12 {
			n = genBN(t, genOpt{nMin: 15, nMax: 120, maxJoint: math.MaxInt, maxTable: 512, structure: pick(t, []string{"chain", "tree", "forest", "grid", "star"}), cards: pick(t, []string{"binary", "small", "ones"})})
			if t.Chance(0.3) {
				n = genBN(t, genOpt{nMin: 2, nMax: 4, maxJoint: 1 << 13, maxTable: 1 << 12, cards: "big"})
			}
		}
		history(t, n, t.Range(8, 15))
	})
	c.Section("repeat", 3000, 60000, "SolvePolicies called 2..5 times in random modes on dyadic networks with binary decisions (exact arithmetic): the policies of every call must be the same decision rules", func(t *T) {
		n := genID(t, idOpt{chance: t.Range(0, 4), exact: true, cards: "binary"})
		s := n.solveStrategy()
		net := n.build(t, true)
		var first map[int]*RF
		x := make([]int, len(n.Vars))
		modes := []bool{}
		for r := 0; r < t.Range(2, 5); r++ {
			mode := t.Chance(0.5)
			modes = append(modes, mode)
			_, pols := solvePolicies(t, n, net, mode)
			checkOptimal(t, n, pols, s, mode)
			if first == nil {
				first = pols
				continue
			}
			for k, d := range s.order {
				for st := range s.reach[k].d {
					if s.reach[k].d[st] == 0 {
						continue
					}
					y := st
					for j := len(s.info[k]) - 1; j >= 0; j-- {
						v := s.info[k][j]
						x[v] = y % n.card(v)
						y /= n.card(v)
					}
					for o := 0; o < n.card(d); o++ {
						x[d] = o
						if !near(first[d].at(x), pols[d].at(x), 1e-12) {
							t.Failf("policy of %q in state %v is %v on the first call, %v later (modes %v)\n%s", n.Vars[d].Name, n.describe(s.info[k], x), first[d].at(x), pols[d].at(x), modes, n)
						}
					}
					t.Count("policy_states_compared", 1)
				}
			}
			if t.Chance(0.5) {
				ev, qs := genMixedQuery(t, n, pols, 2, 1, Chance)
				checkUtility(t, n, net, -1, ev, qs, pols, false)
			}
		}
		t.Distinct(n.shape(), modes)
		t.Sample(map[string]any{"modes": modes, "decisions": len(s.order)})
	})
	c.Section("related", 4000, 80000, "sequences of 20..50 calls that resemble each other (query order, subsets, policies ignored or not, one outcome more, less or another, another utility, refused variants, names and outcomes that read like several put together) on two networks of the same name that differ in tables only, policies solved at arbitrary points: each answer is that of the same call on a fresh network", func(t *T) {
		switch t.IntN(4) {
		case 0:
			related(t, genBN(t, genOpt{nMin: 2, nMax: 6, maxJoint: 256}), t.Range(20, 50))
		case 1:
			related(t, genChanceUtility(t), t.Range(20, 50))
		default:
			related(t, genID(t, idOpt{chance: -1, exact: true, maxJoint: 256}), t.Range(20, 50))
		}
	})
	c.Section("retrained", 1500, 30000, "solve, train with new data, solve again: all answers are those of a network that always had the trained tables", func(t *T) {
		n := genID(t, idOpt{chance: t.Range(1, 4), maxJoint: 256})
		net := n.build(t, true)
		solvePolicies(t, n, net, t.Chance(0.5))
		ev, qs := genMixedQuery(t, n, nil, 1, 1, Chance)
		net.SolveQuery(n.evidenceNames(ev), n.namesOf(qs), false)
		m := trainFully(t, n, net)
		s := m.solveStrategy()
		_, pols := solvePolicies(t, m, net, t.Chance(0.5))
		checkOptimal(t, m, pols, s, true)
		for r := 0; r < 3; r++ {
			ev, qs := genMixedQuery(t, m, pols, 2, 1, Chance)
			checkUtility(t, m, net, pick(t, append(m.ofKind(Utility), -1)), ev, qs, pols, false)
		}
		t.Distinct(n.shape())
		t.Sample(map[string]any{"variables": len(n.Vars)})
	})
	c.Section("shared", 1200, 25000, "several networks constructed from the same variable list (with other parents and tables) or from the very same variable and factor lists: queries, policies, training and writing of one never show in another; the lists stay as they were", func(t *T) {
		first := genBN(t, genOpt{nMin: 2, nMax: 6, maxJoint: 512, maxTable: 256})
		if t.Chance(0.4) {
			first = genID(t, idOpt{chance: t.Range(1, 3), maxJoint: 256})
		}
		vars, facs := first.parts()
		nets := []*bbn.Network{}
		defs := []*Net{}
		add := func(n *Net, v []bbn.Variable, f []bbn.Factor) {
			net, err := bbn.New(n.Name, n.Info, v, f)
			if err != nil {
				t.Failf("constructor rejected a valid network: %v\n%s", err, n)
			}
			nets, defs = append(nets, net), append(defs, n)
		}
		add(first, vars, facs)
		for k := 0; k < t.Range(1, 2); k++ {
			m := first.clone()
			if len(m.ofKind(Chance)) < len(m.Vars) || t.Chance(0.3) {
				add(m, vars, facs)
				continue
			}
			for i := range m.Vars { // other parents: later variables
				v := &m.Vars[i]
				v.Parents, v.Table = nil, nil
				rows := 1
				for j := i + 1; j < len(m.Vars); j++ {
					if t.Chance(0.4) && rows*m.card(j) <= 64 {
						v.Parents = append(v.Parents, j)
						rows *= m.card(j)
					}
				}
				for r := 0; r < rows; r++ {
					v.Table = append(v.Table, genRow(t, m.card(i), "positive")...)
				}
			}
			_, f := m.parts()
			add(m, vars, f)
		}
		before := fmt.Sprintf("%q", fmt.Sprint(facs))
		pols := make([]map[int]*RF, len(nets))
		for r := 0; r < t.Range(4, 10); r++ {
			k := t.IntN(len(nets))
			n, net := defs[k], nets[k]
			switch t.IntN(4) {
			case 0:
				if len(n.ofKind(Decision)) > 0 {
					_, pols[k] = solvePolicies(t, n, net, t.Chance(0.5))
				}
			case 1:
				t.Event("training network %d", k)
				defs[k] = trainFully(t, n, net)
				if len(n.ofKind(Decision)) > 0 {
					_, pols[k] = solvePolicies(t, defs[k], net, t.Chance(0.5))
				}
				t.Count("trained", 1)
			case 2:
				if _, err := bbn.ToYAML(net); err != nil {
					t.Failf("ToYAML failed: %v", err)
				}
			}
			for k, n := range defs {
				t.Event("asking network %d", k)
				if d := n.matches(nets[k], true, true); d != "" {
					t.Failf("network %d of %d made from the same variables: %s\n%s", k, len(nets), d, n)
				}
				if len(n.ofKind(Decision)) == 0 {
					ev := genEvidence(t, n, t.IntN(3))
					if n.eval(n.probRFs(nil), nil, ev)[0] > 0 {
						checkPosterior(t, n, nets[k], ev, pickQuery(t, n, ev, 1), false)
					}
				} else if pols[k] != nil {
					ev, qs := genMixedQuery(t, n, pols[k], 1, 1, Chance)
					checkUtility(t, n, nets[k], -1, ev, qs, pols[k], false)
				}
				t.Count("definitions_compared", 1)
			}
		}
		if after := fmt.Sprintf("%q", fmt.Sprint(facs)); after != before {
			t.Failf("the factors given to the constructor changed from %s to %s", before, after)
		}
		t.Distinct(first.shape(), len(nets))
		t.Sample(map[string]any{"networks": len(nets), "variables": len(first.Vars)})
	})
}

// trainFully feeds samples covering every table row and returns the description of the trained network
// (tables read back from the network, which C14 decides).
func trainFully(t *T, n *Net, net *bbn.Network) *Net {
	tr := bbn.NewTrainer(net)
	trainable := 0
	for i := range n.Vars {
		if n.Vars[i].Kind == Decision || i == n.total() {
			continue
		}
		trainable++
		for r := 0; r < n.rows(i); r++ {
			for k := 0; k < t.Range(1, 3); k++ {
				sample := make([]int, len(n.Vars))
				util := make([]float64, len(n.Vars))
				for j := range n.Vars {
					sample[j] = t.IntN(n.card(j))
					if n.Vars[j].Kind == Utility {
						sample[j] = 0
					}
					util[j] = float64(t.Range(-20, 20))
				}
				x := r
				for j := len(n.Vars[i].Parents) - 1; j >= 0; j-- {
					p := n.Vars[i].Parents[j]
					sample[p] = x % n.card(p)
					x /= n.card(p)
				}
				tr.AddSample(sample, util)
			}
		}
	}
	t.Event("training")
	if _, err := tr.UpdateNetwork(); err != nil {
		t.Failf("UpdateNetwork failed with samples for every row: %v\n%s", err, n)
	}
	m := n.clone()
	for i, v := range net.Variables() {
		if m.Vars[i].Kind != Decision {
			m.Vars[i].Table = append([]float64{}, v.Factor.Table...)
		}
	}
	return m
}
