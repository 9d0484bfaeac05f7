package main

import (
	"fmt"
	"math"

	"github.com/mlange-42/bbn"
)

func init() {
	checks["C01"] = checkC01
	checks["C02"] = checkC02
}

// genEvidence draws evidence with positive probability on up to k chance variables.
func genEvidence(t *T, n *Net, k int) map[int]int {
	x := n.sampleJoint(t, nil)
	ev := map[int]int{}
	ch := n.ofKind(Chance)
	for _, j := range t.Perm(len(ch)) {
		if len(ev) >= k {
			break
		}
		ev[ch[j]] = x[ch[j]]
	}
	return ev
}

// checkPosterior asks the network one query and compares every answer with the reference.
func checkPosterior(t *T, n *Net, net *bbn.Network, ev map[int]int, qs []int, ignore bool) {
	evn, qn := n.evidenceNames(ev), n.namesOf(qs)
	t.Event("SolveQuery(evidence=%v, query=%q, ignorePolicies=%v)", evn, qn, ignore)
	m, f, err := net.SolveQuery(evn, qn, ignore)
	if err != nil {
		t.Failf("SolveQuery failed on a valid query: %v\nevidence=%v query=%q\n%s", err, evn, qn, n)
	}
	if len(m) != len(qs) {
		t.Failf("SolveQuery returned %d posteriors for %d query variables", len(m), len(qs))
	}
	fs := n.probRFs(nil)
	pe := 1.0
	for _, qi := range qs {
		ref := n.eval(fs, []int{qi}, ev)
		pe = sum(ref)
		want := normalized(ref)
		got, ok := m[n.Vars[qi].Name]
		if !ok {
			t.Failf("no posterior for query variable %q", n.Vars[qi].Name)
		}
		t.Count("posterior_values_compared", len(got))
		if !nearAll(got, want, 1e-9) {
			t.Failf("P(%q | %v) = %v, exact value %v (query %q)\n%s", n.Vars[qi].Name, evn, got, want, qn, n)
		}
	}
	size := 1
	for _, qi := range qs {
		size *= n.card(qi)
	}
	if size <= 1<<20 {
		joint := n.eval(fs, qs, ev)
		got := factorInOrder(net, f, qn)
		t.Count("joint_values_compared", len(got))
		if i := firstFar(got, joint, 1e-9); i >= 0 {
			if size > 4096 {
				t.Failf("joint factor over %q given %v (%d entries): entry %d = %v, exact value %v", qn, evn, len(got), i, at(got, i), at(joint, i))
			}
			t.Failf("joint factor over %q given %v = %v, exact value %v\n%s", qn, evn, got, joint, n)
		}
		if len(qs) == 0 {
			pe = sum(joint)
		}
	}
	t.Distinct(n.shape(), ev, qs)
	if t.sample == nil {
		t.Sample(map[string]any{"variables": len(n.Vars), "edges": n.edges(), "evidence": evn, "query": qn, "P(evidence)": pe, "posterior": fmt.Sprint(m)})
	}
}

func (n *Net) edges() int {
	e := 0
	for _, v := range n.Vars {
		e += len(v.Parents)
	}
	return e
}

func pickQuery(t *T, n *Net, ev map[int]int, maxQ int) []int {
	return pickQueryTo(t, n, ev, maxQ, 4096)
}

// pickQueryTo draws query variables whose joint has at most limit entries.
func pickQueryTo(t *T, n *Net, ev map[int]int, maxQ, limit int) []int {
	free := []int{}
	for _, i := range n.ofKind(Chance) {
		if _, ok := ev[i]; !ok {
			free = append(free, i)
		}
	}
	k := min(len(free), t.Range(1, maxQ))
	out := []int{}
	size := 1
	for _, j := range t.Perm(len(free)) {
		if len(out) >= k {
			break
		}
		if size*n.card(free[j]) > limit && len(out) > 0 {
			continue
		}
		size *= n.card(free[j])
		out = append(out, free[j])
	}
	return out
}

func checkC01(c *Ctx) {
	c.Section("small", 8000, 200000, "random networks of 1..9 variables, all structures, cardinalities and table styles; evidence drawn from the joint (0..all but one variables), 1..4 query variables; every posterior and the joint factor compared with brute-force enumeration",
		func(t *T) {
			n := genBN(t, genOpt{nMin: 1, nMax: 9})
			net := n.build(t, true)
			for r := 0; r < 6; r++ {
				k := 0
				if len(n.Vars) > 1 {
					k = pick(t, []int{0, 1, 1, 2, t.Range(0, len(n.Vars)-1)})
				}
				ev := genEvidence(t, n, k)
				if len(ev) == len(n.Vars) {
					ev = map[int]int{}
				}
				checkPosterior(t, n, net, ev, pickQuery(t, n, ev, 4), t.Chance(0.5))
			}
			if t.Chance(0.2) { // a variable asked for twice in one query
				ev := genEvidence(t, n, t.Range(0, len(n.Vars)-1))
				qs := pickQuery(t, n, ev, 3)
				if len(qs) > 0 {
					evn, qn := n.evidenceNames(ev), n.namesOf(append(append([]int{}, qs...), qs[t.IntN(len(qs))]))
					t.Event("SolveQuery(evidence=%v, query=%q)", evn, qn)
					m, _, err := net.SolveQuery(evn, qn, false)
					if err != nil {
						t.Failf("SolveQuery failed on a valid query: %v\nevidence=%v query=%q\n%s", err, evn, qn, n)
					}
					for _, qi := range qs {
						want := normalized(n.eval(n.probRFs(nil), []int{qi}, ev))
						if got := m[n.Vars[qi].Name]; !nearAll(got, want, 1e-9) {
							t.Failf("P(%q | %v) = %v, exact value %v (query %q)\n%s", n.Vars[qi].Name, evn, got, want, qn, n)
						}
					}
				}
			}
			// every variable separately, prior
			for i := range n.Vars {
				checkPosterior(t, n, net, nil, []int{i}, false)
			}
			if t.Chance(0.3) { // no query: the probability of the evidence
				checkPosterior(t, n, net, genEvidence(t, n, t.Range(0, len(n.Vars))), nil, false)
			}
			if t.Chance(0.3) && n.jointSize() <= 1024 { // the whole joint
				checkPosterior(t, n, net, nil, t.Perm(len(n.Vars)), false)
			}
		})
	c.Section("large", 600, 15000, "chains, trees, stars, grids and forests of 15..70 variables; reference is an independent cheapest-first elimination",
		func(t *T) {
			var n *Net
			for {
				n = genBN(t, genOpt{nMin: 15, nMax: 70, maxJoint: math.MaxInt32, structure: pick(t, []string{"chain", "tree", "star", "grid", "forest"}),
					cards: pick(t, []string{"binary", "binary", "small", "ones"}), maxTable: 512})
				if len(n.Vars) >= 12 && n.elimCost(nil, nil) <= 1<<13 {
					break
				}
			}
			net := n.build(t, true)
			for r := 0; r < 4; r++ {
				ev := genEvidence(t, n, pick(t, []int{0, 1, 3, 8, len(n.Vars) / 2}))
				qs := pickQuery(t, n, ev, 3)
				if n.elimCost(qs, ev) > 1<<14 {
					continue
				}
				checkPosterior(t, n, net, ev, qs, false)
			}
		})
	c.Section("long", 60, 1500, "chains, trees, rings and grids of 150..400 variables", func(t *T) {
		n := genLong(t)
		if t.Chance(0.8) {
			n, _ = genSparse(t, t.Range(150, 400))
		}
		net := n.build(t, true)
		ev := genEvidence(t, n, t.Range(0, 6))
		qs := pickQuery(t, n, ev, 1)
		checkPosterior(t, n, net, ev, qs, false)
	})
	c.Section("wide", 600, 10000, "variables with up to 300 outcomes and nodes with up to 10 parents", func(t *T) {
		o := genOpt{nMin: 2, nMax: 5, cards: "big", maxJoint: 1 << 17, maxTable: 1 << 14}
		if t.Chance(0.5) {
			o = genOpt{nMin: 6, nMax: 11, structure: "fanin", cards: "binary", maxTable: 1 << 12}
		}
		n := genBN(t, o)
		net := n.build(t, true)
		for r := 0; r < 3; r++ {
			ev := genEvidence(t, n, t.Range(0, len(n.Vars)-1))
			checkPosterior(t, n, net, ev, pickQuery(t, n, ev, 2), false)
		}
	})
	c.Section("joint", 200, 4000, "joint distributions of up to 2^20 outcomes over 1..20 variables of networks of up to 20: every entry and every marginal", func(t *T) {
		n, limit := genBig(t)
		net := n.build(t, true)
		for r := 0; r < 2; r++ {
			ev := genEvidence(t, n, pick(t, []int{0, 0, 1, 2}))
			maxQ := 2 * len(n.Vars) // often as many variables as the limit allows
			checkPosterior(t, n, net, ev, pickQueryTo(t, n, ev, maxQ, limit), false)
		}
	})
	c.Section("orders", 3000, 60000, "one network built under several declaration, parent and factor orders: the same query must give the same posterior in each", func(t *T) {
		n := genBN(t, genOpt{nMin: 3, nMax: 8})
		x := n.sampleJoint(t, nil)
		for r := 0; r < 4; r++ {
			p := t.Perm(len(n.Vars))
			m := n.permuted(p)
			for i := range m.Vars {
				if len(m.Vars[i].Parents) > 1 {
					m = m.reparented(i, t.Perm(len(m.Vars[i].Parents)))
				}
			}
			net := m.build(t, true)
			ev := map[int]int{}
			for newI, oldI := range p {
				if len(ev) < len(p)-1 && t.Chance(0.4) {
					ev[newI] = x[oldI]
				}
			}
			checkPosterior(t, m, net, ev, pickQuery(t, m, ev, 3), false)
		}
	})
}

// genBig makes a network for queries with large results, and the number of entries a result may have.
func genBig(t *T) (*Net, int) {
	limit := pick(t, []int{1 << 13, 1 << 15, 1 << 17, 1 << 18, 1 << 20})
	o := genOpt{nMin: 12, nMax: 22, maxJoint: 4 * limit, maxTable: 256, maxParents: 3,
		structure: pick(t, []string{"random", "chain", "tree", "grid", "forest"}), cards: pick(t, []string{"binary", "small", "mixed"})}
	if t.Chance(0.3) {
		o.nMin, o.nMax, o.cards, o.maxTable = 3, 6, "big", 1<<14
	}
	for {
		n := genBN(t, o)
		if n.jointSize() >= limit/2 && n.elimCost(nil, nil) <= 1<<14 {
			return n, limit
		}
	}
}

func genLong(t *T) *Net {
	k := t.Range(150, 400)
	n := &Net{Name: "long"}
	tree := t.Chance(0.5)
	for i := 0; i < k; i++ {
		v := V{Name: fmt.Sprintf("N%d", i), Outcomes: []string{"a", "b"}}
		if i > 0 {
			p := i - 1
			if tree {
				p = max(0, i-t.Range(1, 3))
			}
			v.Parents = []int{p}
		}
		n.Vars = append(n.Vars, v)
		n.Vars[i].Table = genCPT(t, n.rows(i), 2, "mixed")
	}
	if t.Chance(0.5) {
		return n
	}
	return n.permuted(t.Perm(k))
}

func checkC02(c *Ctx) {
	// impossible draws evidence of probability zero (by the reference), starting from a random assignment.
	impossible := func(t *T, n *Net, pols map[int]*RF) map[int]int {
		fs := n.probRFs(pols)
		for try := 0; try < 12; try++ {
			ev := map[int]int{}
			for _, i := range t.Perm(len(n.Vars)) {
				if n.Vars[i].Kind == Utility || n.card(i) < 2 {
					continue
				}
				ev[i] = t.IntN(n.card(i))
				if n.eval(fs, nil, ev)[0] == 0 {
					if len(ev) > 1 && t.Chance(0.3) { // add more observations
						continue
					}
					return ev
				}
				if len(ev) > 6 {
					break
				}
			}
			if len(ev) > 0 && n.eval(fs, nil, ev)[0] == 0 {
				return ev
			}
		}
		return nil
	}
	ask := func(t *T, n *Net, net *bbn.Network, ev map[int]int, ignore bool) {
		evn := n.evidenceNames(ev)
		free := []int{}
		for i := range n.Vars {
			if _, ok := ev[i]; ok || n.Vars[i].Kind == Utility {
				continue
			}
			free = append(free, i)
		}
		if len(free) > 1 { // several at once
			qn, size := []string{}, 1
			for _, j := range t.Perm(len(free)) {
				if size *= n.card(free[j]); size > 1<<10 || len(qn) > 4 {
					break
				}
				qn = append(qn, n.Vars[free[j]].Name)
			}
			t.Event("SolveQuery(impossible evidence %v, query %q)", evn, qn)
			if m, f, err := net.SolveQuery(evn, qn, ignore); err == nil {
				for _, q := range qn {
					if !allNaN(m[q]) || len(m[q]) != n.card(n.index(q)) {
						t.Failf("P(%q | %v) = %v, asked together with others in %q, for evidence of probability zero; expected an undefined result\n%s", q, evn, m[q], qn, n)
					}
				}
				for _, x := range f.Data() {
					if x != 0 {
						t.Failf("joint factor of %q has probability mass %v for impossible evidence %v\n%s", qn, x, evn, n)
					}
				}
				t.Count("impossible_joint_queries", 1)
			}
		}
		if len(free) > 12 {
			t.Shuffle(len(free), func(a, b int) { free[a], free[b] = free[b], free[a] })
			free = free[:12]
		}
		for _, i := range free {
			qn := []string{n.Vars[i].Name}
			t.Event("SolveQuery(impossible evidence %v, query %q)", evn, qn)
			m, f, err := net.SolveQuery(evn, qn, ignore)
			t.Count("impossible_queries", 1)
			if err != nil {
				t.Count("reported_as_error", 1)
				continue
			}
			got := m[qn[0]]
			if len(got) != n.card(i) || !allNaN(got) {
				t.Failf("P(%q | %v) = %v for evidence of probability zero; expected an undefined result\n%s", qn[0], evn, got, n)
			}
			for _, x := range f.Data() {
				if x != 0 {
					t.Failf("joint factor %v has probability mass for impossible evidence %v\n%s", f.Data(), evn, n)
				}
			}
		}
		for _, u := range append(n.ofKind(Utility), -1) {
			if len(n.ofKind(Utility)) == 0 {
				break
			}
			uname := ""
			if u >= 0 {
				uname = n.Vars[u].Name
			}
			t.Event("SolveUtility(impossible evidence %v, utility %q)", evn, uname)
			f, err := net.SolveUtility(evn, nil, uname, ignore)
			if err != nil {
				continue
			}
			_, p, err := net.SolveQuery(evn, nil, ignore)
			if err != nil {
				continue
			}
			g := net.NormalizeUtility(f, p)
			for _, x := range g.Data() {
				if !math.IsNaN(x) && !math.IsInf(x, 0) {
					t.Failf("expected utility %v for evidence of probability zero %v\n%s", x, evn, n)
				}
			}
			t.Count("impossible_utilities", 1)
		}
		t.Distinct(n.shape(), ev)
		if t.sample == nil {
			t.Sample(map[string]any{"variables": len(n.Vars), "impossible_evidence": evn})
		}
	}
	c.Section("chance", 6000, 120000, "sparse and deterministic networks, some with rows of zeros only; evidence of exact probability zero on 1..7 variables; every other variable queried; then a possible query on the same network must be exact",
		func(t *T) {
			n := genBN(t, genOpt{nMin: 2, nMax: 8, tables: pick(t, []string{"sparse", "det", "mixed", "percent"})})
			if t.Chance(0.3) { // rows for combinations that do not occur
				for i := range n.Vars {
					k := n.card(i)
					for r := 0; r < n.rows(i) && n.rows(i) > 1; r++ {
						if t.Chance(0.2) {
							clear(n.Vars[i].Table[r*k : (r+1)*k])
							t.Count("rows_of_zeros", 1)
						}
					}
				}
			}
			ev := impossible(t, n, nil)
			if ev == nil {
				t.Skip()
			}
			net := n.build(t, true)
			ask(t, n, net, ev, t.Chance(0.5))
			// not poisoned
			pe := genEvidence(t, n, t.Range(0, len(n.Vars)-1))
			if n.eval(n.probRFs(nil), nil, pe)[0] > 0 { // not with rows of zeros
				checkPosterior(t, n, net, pe, pickQuery(t, n, pe, 3), false)
			}
		})
	c.Section("large", 150, 3000, "the same with 15..60 variables, or with up to 300 outcomes", func(t *T) {
		var n *Net
		for n == nil || n.elimCost(nil, nil) > 1<<12 {
			n = genBN(t, genOpt{nMin: 15, nMax: 60, maxJoint: math.MaxInt32, structure: pick(t, []string{"chain", "tree", "star", "grid", "forest"}),
				cards: pick(t, []string{"binary", "small", "ones"}), maxTable: 512, tables: pick(t, []string{"sparse", "det", "mixed"})})
			if t.Chance(0.3) {
				n = genBN(t, genOpt{nMin: 2, nMax: 5, maxJoint: 1 << 13, maxTable: 1 << 12, cards: "big", tables: pick(t, []string{"sparse", "det", "mixed"})})
			}
		}
		ev := impossible(t, n, nil)
		if ev == nil {
			t.Skip()
		}
		net := n.build(t, true)
		ask(t, n, net, ev, t.Chance(0.5))
		pe := genEvidence(t, n, t.Range(0, min(6, len(n.Vars)-1)))
		checkPosterior(t, n, net, pe, pickQuery(t, n, pe, 1), false)
	})
	c.Section("decisions", 1500, 30000, "solved decision networks: evidence that contradicts the policies or the tables", func(t *T) {
		n := genID(t, idOpt{chance: t.Range(1, 5)})
		net := n.build(t, true)
		pol, err := net.SolvePolicies(t.Chance(0.5))
		if err != nil {
			t.Failf("SolvePolicies: %v\n%s", err, n)
		}
		pols := n.policies(pol)
		ev := impossible(t, n, pols)
		if ev == nil {
			t.Skip()
		}
		ask(t, n, net, ev, false)
		qe, qs := genMixedQuery(t, n, pols, 3, 1, Chance)
		checkUtility(t, n, net, -1, qe, qs, pols, false)
	})
	c.Section("utility", 1500, 30000, "chance networks with utility nodes", func(t *T) {
		n := genChanceUtility(t)
		ev := impossible(t, n, nil)
		if ev == nil {
			t.Skip()
		}
		net := n.build(t, true)
		ask(t, n, net, ev, false)
		qe, qs := genMixedQuery(t, n, nil, 3, 1, Chance)
		checkUtility(t, n, net, -1, qe, qs, nil, false)
	})
	// rare replaces the chance tables by ones with entries so small that evidence has probabilities down to 1e-300,
	// while no product of entries underflows.
	rare := func(t *T, n *Net) {
		ch := n.ofKind(Chance)
		lim := 299 / float64(len(ch)+1)
		for _, i := range ch {
			c := n.card(i)
			for r := 0; r < n.rows(i); r++ {
				row := n.Vars[i].Table[r*c : (r+1)*c]
				for o := range row {
					row[o] = (0.5 + t.Float64()/2) * math.Pow(10, -t.Float64()*lim)
					if t.Chance(0.3) {
						row[o] = t.Float64()/2 + 0.2
					}
				}
				row[t.IntN(c)] = 1
				normalizeRow(row)
			}
		}
	}
	c.Section("rare", 4000, 80000, "tables with entries down to 1e-149; evidence of probability down to 1e-300 (drawn regardless of its likelihood): posteriors, joints and expected utilities must be exact",
		func(t *T) {
			var n *Net
			if t.Chance(0.3) {
				n = genChanceUtility(t)
			} else {
				n = genBN(t, genOpt{nMin: 1, nMax: 9})
			}
			rare(t, n)
			net := n.build(t, true)
			ch := n.ofKind(Chance)
			for r := 0; r < 4; r++ {
				ev := map[int]int{}
				k := t.Range(1, len(ch))
				for _, j := range t.Perm(len(ch))[:k] {
					ev[ch[j]] = t.IntN(n.card(ch[j]))
				}
				pe := n.eval(n.probRFs(nil), nil, ev)[0]
				if pe < 1e-301 {
					continue
				}
				switch {
				case pe < 1e-100:
					t.Count("evidence_below_1e-100", 1)
				case pe < 1e-30:
					t.Count("evidence_below_1e-30", 1)
				case pe < 1e-9:
					t.Count("evidence_below_1e-9", 1)
				}
				if len(ch) > k {
					checkPosterior(t, n, net, ev, pickQuery(t, n, ev, 2), t.Chance(0.5))
				} else {
					checkPosterior(t, n, net, ev, nil, false)
				}
				if us := n.ofKind(Utility); len(us) > 0 {
					checkUtility(t, n, net, pick(t, append(us, -1)), ev, nil, nil, false)
				}
			}
		})
}
