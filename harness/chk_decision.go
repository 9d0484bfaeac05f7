package main

import (
	"fmt"
	"math"

	"github.com/mlange-42/bbn"
)

func init() {
	checks["C04"] = checkC04
	checks["C05"] = checkC05
	checks["C06"] = checkC06
	checks["C07"] = checkC07
}

// solvePolicies solves and converts; every policy must be a well-formed table.
func solvePolicies(t *T, n *Net, net *bbn.Network, stepwise bool) (map[string]bbn.Factor, map[int]*RF) {
	t.Event("SolvePolicies(stepwise=%v)", stepwise)
	pol, err := net.SolvePolicies(stepwise)
	if err != nil {
		t.Failf("SolvePolicies(stepwise=%v) failed on a valid network: %v\n%s", stepwise, err, n)
	}
	for name, f := range pol {
		if n.index(name) < 0 || n.Vars[n.index(name)].Kind != Decision || f.For != name {
			t.Failf("policy for %q (For=%q) is not for a decision of the network", name, f.For)
		}
		if n.policyRF(f) == nil {
			t.Failf("policy for %q has given=%q and a table of %d values, which do not fit", name, f.Given, len(f.Table))
		}
		t.Event("policy %q given %q table %s", name, f.Given, shortFloats(f.Table))
	}
	return pol, n.policies(pol)
}

func (n *Net) idSample(pol map[string]bbn.Factor, s *strategy) map[string]any {
	p := map[string]string{}
	for k, f := range pol {
		p[k] = fmt.Sprintf("given %q: %s", f.Given, shortFloats(f.Table))
	}
	return map[string]any{"variables": len(n.Vars), "decisions": len(s.order), "maximum_expected_utility": s.meu, "policies": p}
}

// checkOptimal compares solved policies with backward induction: in every information state that can occur,
// only maximizing actions have positive probability, and the strategy as a whole attains the maximum.
func checkOptimal(t *T, n *Net, pols map[int]*RF, s *strategy, stepwise bool) {
	x := make([]int, len(n.Vars))
	for k, d := range s.order {
		p := pols[d]
		if p == nil {
			t.Failf("no policy for decision %q (stepwise=%v)\n%s", n.Vars[d].Name, stepwise, n)
		}
		for _, g := range p.v {
			if g != d && !contains(s.info[k], g) {
				t.Failf("policy for %q conditions on %q, which is not known when deciding\n%s", n.Vars[d].Name, n.Vars[g].Name, n)
			}
		}
		states := len(s.reach[k].d)
		for r := 0; r < states; r++ {
			if s.reach[k].d[r] == 0 {
				continue
			}
			y := r
			for j := len(s.info[k]) - 1; j >= 0; j-- {
				v := s.info[k][j]
				x[v] = y % n.card(v)
				y /= n.card(v)
			}
			c := n.card(d)
			best, scale := math.Inf(-1), 0.0
			for o := 0; o < c; o++ {
				best = math.Max(best, s.q[k].d[r*c+o])
				scale = math.Max(scale, s.qs[k].d[r*c+o])
			}
			tot := 0.0
			for o := 0; o < c; o++ {
				x[d] = o
				w := p.at(x)
				tot += w
				if !(w >= 0 && w <= 1+1e-12) {
					t.Failf("policy for %q has probability %v", n.Vars[d].Name, w)
				}
				if w > 0 && s.q[k].d[r*c+o] < best-1e-9*scale {
					t.Failf("policy for %q plays %q in state %v (probability of state %v), worth %v; the best action is worth %v (stepwise=%v)\npolicy over %v: %v\n%s",
						n.Vars[d].Name, n.Vars[d].Outcomes[o], n.describe(s.info[k], x), s.reach[k].d[r], s.q[k].d[r*c+o], best, stepwise, n.namesOf(p.v), p.d, n)
				}
			}
			if math.Abs(tot-1) > 1e-9 {
				t.Failf("policy for %q sums to %v in state %v", n.Vars[d].Name, tot, n.describe(s.info[k], x))
			}
			t.Count("information_states_checked", 1)
		}
	}
	v, sc := n.expUtility(-1, nil, nil, pols)
	if !within(v[0], s.meu, 1e-9, sc[0]+s.scale) {
		t.Failf("the solved strategy is worth %v, the maximum expected utility is %v (stepwise=%v)\n%s", v[0], s.meu, stepwise, n)
	}
	t.Count("strategies_checked", 1)
}

func (n *Net) describe(vars, x []int) string {
	s := ""
	for _, v := range vars {
		s += fmt.Sprintf("%s=%s ", n.Vars[v].Name, n.Vars[v].Outcomes[x[v]])
	}
	return s
}

func checkC04(c *Ctx) {
	run := func(t *T, n, m *Net) {
		s := n.solveStrategy()
		first := t.IntN(2) == 0
		var pol map[string]bbn.Factor
		var pols map[int]*RF
		for r := 0; r < 2; r++ {
			stepwise := first == (r == 0)
			net := m.build(t, true)
			pol, pols = solvePolicies(t, m, net, stepwise)
			checkOptimal(t, n, pols, s, stepwise)
			// the network's own value of the solved strategy is the maximum expected utility
			f, err := net.SolveUtility(nil, nil, "", false)
			if err != nil {
				t.Failf("SolveUtility after SolvePolicies failed: %v\n%s", err, m)
			}
			if len(f.Data()) != 1 || !within(f.Data()[0], s.meu, 1e-9, s.scale) {
				t.Failf("expected utility reported after solving is %v, the maximum is %v (stepwise=%v)\n%s", f.Data(), s.meu, stepwise, m)
			}
		}
		t.Sample(m.idSample(pol, s))
		t.Distinct(m.shape(), s.meu)
	}
	same := func(t *T, o idOpt) { n := genID(t, o); run(t, n, n) }
	c.Section("one decision", 5000, 100000, "influence diagrams with one decision, 0..6 chance and 1..4 utility variables (optional weighted total), random information sets; policies of both modes compared with backward induction in every information state of positive probability, and the strategy's value with the maximum expected utility",
		func(t *T) { same(t, idOpt{decisions: 1, chance: -1}) })
	c.Section("sequential", 10000, 200000, "1..3 sequential decisions, each observing everything observed and decided before (no-forgetting), random declaration order",
		func(t *T) { same(t, idOpt{chance: -1}) })
	c.Section("implicit", 8000, 120000, "2..3 decisions where earlier decisions are not listed as parents but precede through a path of chance variables",
		func(t *T) {
			n := genID(t, idOpt{decisions: t.Range(2, 3), chance: t.Range(1, 6)})
			m, dropped := n.dropDecisionParents(t)
			if dropped == 0 {
				t.Skip()
			}
			run(t, n, m)
		})
	c.Section("exact", 4000, 60000, "dyadic probabilities and integer utilities: many exact ties", func(t *T) { same(t, idOpt{chance: -1, exact: true}) })
	c.Section("large", 500, 10000, "1..2 decisions and 8..16 chance variables, joint up to 2^18 assignments, policies over up to 2^17 states", func(t *T) {
		n := genID(t, idOpt{decisions: t.Range(1, 2), chance: t.Range(8, 16), maxJoint: pick(t, []int{1 << 16, 1 << 17, 1 << 18}), cards: pick(t, []string{"binary", "small"}),
			observe: pick(t, []float64{0.5, 0.5, 0.9}), uparents: pick(t, []int{3, 17})})
		run(t, n, n)
	})
	c.Section("many decisions", 1200, 25000, "4..9 decisions in a row and 0..5 chance variables, in any order of declaration, some earlier decisions not listed where a path implies them", func(t *T) {
		n := genManyDecisions(t)
		m, dropped := n.dropDecisionParents(t)
		if dropped == 0 || t.Chance(0.6) {
			m = n
		}
		run(t, n, m)
	})
	c.Section("larger", 120, 4000, "2..4 decisions and up to 9 chance variables, joint up to 2^15 assignments", func(t *T) {
		same(t, idOpt{decisions: t.Range(2, 4), chance: t.Range(3, 9), maxJoint: 1 << 15, cards: pick(t, []string{"binary", "small"})})
	})
}

// checkExecutable checks that policies are decision rules: one per decision, rows are distributions, and they
// condition only on what can be known when deciding.
func checkExecutable(t *T, m *Net, pol map[string]bbn.Factor, pols map[int]*RF, stepwise bool) {
	decs := m.ofKind(Decision)
	if len(pol) != len(decs) {
		t.Failf("%d policies for %d decisions (stepwise=%v)\n%s", len(pol), len(decs), stepwise, m)
	}
	aug := m.clone()
	for _, d := range decs {
		p := pols[d]
		if p == nil {
			t.Failf("no policy for decision %q (stepwise=%v)\n%s", m.Vars[d].Name, stepwise, m)
		}
		given := p.v[:len(p.v)-1]
		if p.v[len(p.v)-1] != d {
			t.Failf("policy of %q is for another variable", m.Vars[d].Name)
		}
		seen := map[int]bool{}
		for _, g := range given {
			if seen[g] || g == d {
				t.Failf("policy of %q conditions twice on %q", m.Vars[d].Name, m.Vars[g].Name)
			}
			seen[g] = true
			ok := contains(m.Vars[d].Parents, g) || m.Vars[g].Kind == Decision
			for _, e := range decs { // remembered from an earlier decision (order checked below)
				if e != d && contains(m.Vars[e].Parents, g) {
					ok = true
				}
			}
			if !ok || m.isAncestor(d, g) {
				t.Failf("policy of %q conditions on %q, which is not observed before deciding (stepwise=%v)\n%s", m.Vars[d].Name, m.Vars[g].Name, stepwise, m)
			}
			if !contains(aug.Vars[d].Parents, g) {
				aug.Vars[d].Parents = append(aug.Vars[d].Parents, g)
			}
		}
		c := m.card(d)
		for r := 0; r*c < len(p.d); r++ {
			row := p.d[r*c : (r+1)*c]
			s := 0.0
			for _, w := range row {
				if !(w >= 0 && w <= 1) {
					t.Failf("policy of %q has row %v, not a probability distribution (stepwise=%v)\n%s", m.Vars[d].Name, row, stepwise, m)
				}
				s += w
			}
			if math.Abs(s-1) > 1e-9 {
				t.Failf("policy of %q has row %v, which sums to %v (stepwise=%v)\n%s", m.Vars[d].Name, row, s, stepwise, m)
			}
			t.Count("policy_rows_checked", 1)
		}
	}
	if aug.topo() == nil {
		t.Failf("the policies cannot be executed in any order: circular conditioning (stepwise=%v)\n%s", stepwise, m)
	}
}

// manyOptions is a decision with up to 60 options, most of them equally good.
func manyOptions(t *T) *Net {
	c := t.Range(5, 60)
	n := &Net{Name: "options", Exact: true, Vars: []V{{Name: "Choice", Kind: Decision, Outcomes: genOutcomes(t, c, "")}}}
	u := V{Name: "Value", Kind: Utility, Outcomes: []string{"value"}, Parents: []int{0}}
	rows := 1
	if t.Chance(0.6) {
		rows = t.Range(2, 4)
		n.Vars = append(n.Vars, V{Name: "State", Kind: Chance, Outcomes: genOutcomes(t, rows, ""), Table: genCPT(t, 1, rows, "exact")})
		if t.Chance(0.7) {
			n.Vars[0].Parents = []int{1}
		}
		u.Parents = []int{1, 0}
	}
	for k := 0; k < rows*c; k++ {
		u.Table = append(u.Table, float64(t.Range(0, 1)-t.Range(0, 1)))
	}
	n.Vars = append(n.Vars, u)
	return n
}

func checkC05(c *Ctx) {
	run := func(t *T, m *Net) {
		for r := 0; r < 2; r++ {
			net := m.build(t, true)
			pol, pols := solvePolicies(t, m, net, r == 0)
			checkExecutable(t, m, pol, pols, r == 0)
			for k := t.Range(0, 2); k > 0; k-- { // solving again gives the same, whatever came in between
				if t.Chance(0.3) {
					net.SolvePolicies(r != 0)
				}
				if t.Chance(0.3) {
					net.SolveUtility(nil, nil, "", t.Chance(0.5))
				}
				again, err := net.SolvePolicies(r == 0)
				if err != nil {
					t.Failf("solving again failed: %v (stepwise=%v)\n%s", err, r == 0, m)
				}
				if len(again) != len(pol) {
					t.Failf("%d policies at first, %d when solved again (stepwise=%v)\n%s", len(pol), len(again), r == 0, m)
				}
				for name, f := range pol {
					g := again[name]
					if g.For != name || fmt.Sprint(g.Given) != fmt.Sprint(f.Given) || len(g.Table) != len(f.Table) {
						t.Failf("policy of %q given %q at first, given %q when solved again (stepwise=%v)\n%s", name, f.Given, g.Given, r == 0, m)
					}
					for j := range f.Table {
						if !near(f.Table[j], g.Table[j], 1e-9) {
							t.Failf("policy of %q is %v at first, %v when solved again (stepwise=%v)\n%s", name, shortFloats(f.Table), shortFloats(g.Table), r == 0, m)
						}
					}
				}
				t.Count("solved_again", 1)
			}
			t.Distinct(m.shape(), r)
			t.Sample(m.idSample(pol, &strategy{order: m.ofKind(Decision)}))
		}
	}
	c.Section("no-forgetting", 6000, 100000, "sequential decision networks, both modes: number of policies, conditioning sets, rows", func(t *T) { run(t, genID(t, idOpt{chance: -1})) })
	c.Section("implicit", 6000, 100000, "decisions ordered only through chance variables", func(t *T) {
		n := genID(t, idOpt{decisions: t.Range(2, 3), chance: t.Range(1, 6)})
		m, _ := n.dropDecisionParents(t)
		run(t, m)
	})
	c.Section("many decisions", 1200, 20000, "4..9 decisions", func(t *T) { run(t, genManyDecisions(t)) })
	c.Section("forgetful", 6000, 100000, "decision networks with arbitrary parent sets (memoryless or unordered decisions): only executability is claimed", func(t *T) {
		n := genID(t, idOpt{decisions: pick(t, []int{1, 2, 3, 4, t.Range(5, 9)}), chance: t.Range(0, 6)})
		for i := range n.Vars {
			if n.Vars[i].Kind == Decision {
				ps := []int{}
				for _, p := range n.Vars[i].Parents {
					if t.Chance(0.5) {
						ps = append(ps, p)
					}
				}
				n.Vars[i].Parents = ps
			}
		}
		run(t, n)
	})
	c.Section("large", 300, 6000, "the same with 1..3 decisions and 8..16 chance variables, joint up to 2^18 assignments, policies over up to 2^17 states", func(t *T) {
		run(t, genID(t, idOpt{decisions: t.Range(1, 3), chance: t.Range(8, 16), maxJoint: pick(t, []int{1 << 14, 1 << 16, 1 << 18}), cards: pick(t, []string{"binary", "small"}),
			observe: pick(t, []float64{0.5, 0.5, 0.9}), uparents: pick(t, []int{3, 17}), exact: t.Chance(0.3)}))
	})
	c.Section("ties", 6000, 80000, "binary decisions, dyadic probabilities, small integer utilities (float arithmetic is exact): the support of every reachable row must be exactly the set of best actions, with equal probabilities", func(t *T) {
		o := idOpt{chance: t.Range(0, 4), exact: true, cards: "binary"}
		if t.Chance(0.3) {
			o.decisions, o.cards = 1, "small"
		}
		n := genID(t, o)
		if t.Chance(0.1) { // one decision with many options, few distinct utilities
			n = manyOptions(t)
		}
		s := n.solveStrategy()
		x := make([]int, len(n.Vars))
		for r := 0; r < 2; r++ {
			net := n.build(t, true)
			pol, pols := solvePolicies(t, n, net, r == 0)
			checkExecutable(t, n, pol, pols, r == 0)
			for k, d := range s.order {
				cd := n.card(d)
				for st := range s.reach[k].d {
					if s.reach[k].d[st] == 0 {
						continue
					}
					y := st
					for j := len(s.info[k]) - 1; j >= 0; j-- {
						v := s.info[k][j]
						x[v] = y % n.card(v)
						y /= n.card(v)
					}
					qs := s.q[k].d[st*cd : (st+1)*cd]
					best, cnt := math.Inf(-1), 0
					for _, q := range qs {
						best = math.Max(best, q)
					}
					for _, q := range qs {
						if q == best {
							cnt++
						}
					}
					for o, q := range qs {
						x[d] = o
						want := 0.0
						if q == best {
							want = 1 / float64(cnt)
						}
						if !near(pols[d].at(x), want, 1e-12) {
							t.Failf("policy of %q gives %q probability %v in state %v; %d of %d actions are equally best, expected %v (stepwise=%v)\n%s",
								n.Vars[d].Name, n.Vars[d].Outcomes[o], pols[d].at(x), n.describe(s.info[k], x), cnt, cd, want, r == 0, n)
						}
					}
					if cnt > 1 {
						t.Count("tied_states_seen", 1)
					}
					t.Count("states_checked", 1)
				}
			}
			t.Distinct(n.shape(), s.meu)
			t.Sample(n.idSample(pol, s))
		}
	})
	c.Section("no decisions", 300, 3000, "networks without decisions have no policies", func(t *T) {
		n := genBN(t, genOpt{nMin: 1, nMax: 6})
		net := n.build(t, true)
		for r := 0; r < 2; r++ {
			pol, err := net.SolvePolicies(r == 0)
			if err != nil || len(pol) != 0 {
				t.Failf("SolvePolicies on a network without decisions: %v, %v", pol, err)
			}
		}
		checkPosterior(t, n, net, nil, pickQuery(t, n, nil, 2), false)
	})
}

// genMixedQuery draws evidence with positive probability under the policies and query variables outside it.
func genMixedQuery(t *T, n *Net, pols map[int]*RF, maxEv, maxQ int, kinds ...Kind) (map[int]int, []int) {
	return genMixedQueryTo(t, n, pols, maxEv, maxQ, 512, kinds...)
}

// genMixedQueryTo is genMixedQuery with a result of up to limit entries.
func genMixedQueryTo(t *T, n *Net, pols map[int]*RF, maxEv, maxQ, limit int, kinds ...Kind) (map[int]int, []int) {
	x := n.sampleJoint(t, pols)
	free := []int{}
	ev := map[int]int{}
	order := t.Perm(len(n.Vars))
	k := t.Range(0, maxEv)
	for _, i := range order {
		if n.Vars[i].Kind == Utility {
			continue
		}
		use := false
		for _, kd := range kinds {
			use = use || kd == n.Vars[i].Kind
		}
		if use && len(ev) < k {
			ev[i] = x[i]
		} else {
			free = append(free, i)
		}
	}
	qs := []int{}
	size := 1
	kq := t.Range(0, maxQ)
	for _, i := range free {
		if len(qs) < kq && size*n.card(i) <= limit {
			qs = append(qs, i)
			size *= n.card(i)
		}
	}
	return ev, qs
}

// checkUtility compares one SolveUtility answer (raw and normalized) with the reference.
func checkUtility(t *T, n *Net, net *bbn.Network, u int, ev map[int]int, qs []int, pols map[int]*RF, ignore bool) float64 {
	uname := ""
	if u >= 0 {
		uname = n.Vars[u].Name
	}
	evn, qn := n.evidenceNames(ev), n.namesOf(qs)
	t.Event("SolveUtility(evidence=%v, query=%q, utility=%q, ignorePolicies=%v)", evn, qn, uname, ignore)
	f, err := net.SolveUtility(evn, qn, uname, ignore)
	if err != nil {
		t.Failf("SolveUtility failed on a valid query: %v\n%s", err, n)
	}
	val, scale := n.expUtility(u, qs, ev, pols)
	got := factorInOrder(net, f, qn)
	if len(got) != len(val) {
		t.Failf("SolveUtility over %q returned %d values, expected %d\n%s", qn, len(got), len(val), n)
	}
	for i := range val {
		if !within(got[i], val[i], 1e-9, scale[i]) {
			t.Failf("sum of probability times utility for %q over %q given %v is %v, exact value %v (entry %d, ignorePolicies=%v)\n%s",
				uname, qn, evn, shortFloats(got), shortFloats(val), i, ignore, n)
		}
	}
	t.Count("utility_values_compared", len(val))
	_, p, err := net.SolveQuery(evn, qn, ignore)
	if err != nil {
		t.Failf("SolveQuery failed on a valid query: %v\n%s", err, n)
	}
	prob := n.eval(n.probRFs(pols), qs, ev)
	norm := net.NormalizeUtility(f, p)
	gn := factorInOrder(net, &norm, qn)
	for i := range val {
		if prob[i] == 0 {
			if !math.IsNaN(gn[i]) && !math.IsInf(gn[i], 0) {
				t.Failf("expected utility %v reported for an impossible state (entry %d of %q given %v)\n%s", gn[i], i, qn, evn, n)
			}
			continue
		}
		if !within(gn[i], val[i]/prob[i], 1e-8, scale[i]/prob[i]) {
			t.Failf("expected utility of %q over %q given %v is %v, exact value %v (entry %d, ignorePolicies=%v)\n%s",
				uname, qn, evn, gn[i], val[i]/prob[i], i, ignore, n)
		}
		t.Count("expected_utilities_compared", 1)
	}
	t.Distinct(n.shape(), uname, ev, qs, ignore)
	return val[0]
}

func withoutEvidence(pols map[int]*RF, ev map[int]int) map[int]*RF {
	r := map[int]*RF{}
	for i, p := range pols {
		if _, ok := ev[i]; !ok {
			r[i] = p
		}
	}
	return r
}

func checkC06(c *Ctx) {
	run := func(t *T, n *Net) {
		net := n.build(t, true)
		_, pols := solvePolicies(t, n, net, t.Chance(0.5))
		us := append(n.ofKind(Utility), -1)
		for r := 0; r < 4; r++ {
			ev, qs := genMixedQuery(t, n, pols, 3, 2, Chance)
			for _, u := range us {
				checkUtility(t, n, net, u, ev, qs, pols, t.Chance(0.5))
			}
			if t.sample == nil {
				v, _ := n.expUtility(-1, nil, ev, pols)
				t.Sample(map[string]any{"variables": len(n.Vars), "evidence": n.evidenceNames(ev), "query": n.namesOf(qs), "total_expected_utility_times_P(evidence)": v[0]})
			}
		}
	}
	c.Section("policies", 4000, 80000, "decision networks after solving policies: for every utility node and the (weighted) total, the utility factor over 0..2 query variables given 0..3 chance observations, raw and normalized, against enumeration",
		func(t *T) { run(t, genID(t, idOpt{chance: -1})) })
	c.Section("weighted", 2500, 50000, "the same with a total utility node carrying weights (negative, zero and fractional ones included)",
		func(t *T) { run(t, genID(t, idOpt{chance: -1, total: 1})) })
	c.Section("many decisions", 400, 8000, "4..9 decisions", func(t *T) { run(t, genManyDecisions(t)) })
	c.Section("chance only", 2500, 50000, "utility nodes over chance variables, no decisions",
		func(t *T) { run(t, genChanceUtility(t)) })
	c.Section("large", 300, 6000, "networks of up to 2^18 assignments, with and without decisions: utility factors over up to 18 variables (2^18 entries)", func(t *T) {
		n := genID(t, idOpt{chance: t.Range(7, 15), decisions: t.Range(1, 2), maxJoint: pick(t, []int{1 << 14, 1 << 16, 1 << 18}), cards: pick(t, []string{"binary", "small", "mixed"})})
		if t.Chance(0.4) {
			n, _ = genBig(t)
			n = addUtilities(t, n)
		}
		net := n.build(t, true)
		pols := map[int]*RF{}
		if len(n.ofKind(Decision)) > 0 {
			_, pols = solvePolicies(t, n, net, t.Chance(0.5))
		}
		ev, qs := genMixedQueryTo(t, n, pols, pick(t, []int{0, 0, 3}), 2*len(n.Vars), 1<<18, Chance)
		checkUtility(t, n, net, pick(t, append(n.ofKind(Utility), -1)), ev, qs, pols, t.Chance(0.5))
	})
	c.Section("unsolved", 2500, 50000, "policies not solved, every decision fixed by evidence", func(t *T) {
		n := genID(t, idOpt{chance: -1})
		net := n.build(t, true)
		x := n.sampleJoint(t, nil)
		ev := map[int]int{}
		for _, d := range n.ofKind(Decision) {
			ev[d] = x[d]
		}
		for _, i := range n.ofKind(Chance) {
			if t.Chance(0.3) {
				ev[i] = x[i]
			}
		}
		qs := []int{}
		for _, i := range n.ofKind(Chance) {
			if _, ok := ev[i]; !ok && len(qs) < 2 && t.Chance(0.4) {
				qs = append(qs, i)
			}
		}
		for _, u := range append(n.ofKind(Utility), -1) {
			uname := ""
			if u >= 0 {
				uname = n.Vars[u].Name
			}
			evn, qn := n.evidenceNames(ev), n.namesOf(qs)
			t.Event("SolveUtility(evidence=%v, query=%q, utility=%q) without policies", evn, qn, uname)
			f, err := net.SolveUtility(evn, qn, uname, t.Chance(0.5))
			if err != nil {
				t.Failf("SolveUtility failed on a valid query: %v\n%s", err, n)
			}
			// observations of the unsolved decisions may remain in the factor: sum them out
			got := n.sumExtras(factorInOrder(net, f, qn), qs)
			val, scale := n.expUtility(u, qs, ev, nil)
			for i := range val {
				if !within(got[i], val[i], 1e-9, scale[i]) {
					t.Failf("sum of probability times utility for %q over %q given %v is %v, exact value %v\n%s", uname, qn, evn, got, val, n)
				}
			}
			t.Count("utility_values_compared", len(val))
			t.Distinct(n.shape(), uname, ev, qs)
		}
	})
}

// sumExtras sums out variables that lie between the leading and the last query variable of a rearranged factor.
func (n *Net) sumExtras(d []float64, qs []int) []float64 {
	if len(qs) == 0 {
		return []float64{sum(d)}
	}
	lead, last := 1, n.card(qs[len(qs)-1])
	for _, q := range qs[:len(qs)-1] {
		lead *= n.card(q)
	}
	extra := len(d) / (lead * last)
	out := make([]float64, lead*last)
	for i := 0; i < lead; i++ {
		for e := 0; e < extra; e++ {
			for o := 0; o < last; o++ {
				out[i*last+o] += d[(i*extra+e)*last+o]
			}
		}
	}
	return out
}

// genChanceUtility makes a network of chance variables with utility nodes on top.
func genChanceUtility(t *T) *Net {
	return addUtilities(t, genBN(t, genOpt{nMin: 1, nMax: 7, maxJoint: 1 << 11, names: "simple"}))
}

// addUtilities puts utility nodes on top of a chance network.
func addUtilities(t *T, n *Net) *Net {
	n = n.clone()
	for i := range n.Vars {
		n.Vars[i].Name = fmt.Sprintf("N%d", i)
	}
	m := len(n.Vars)
	us := []int{}
	for u := 0; u < t.Range(1, 3); u++ {
		i := len(n.Vars)
		n.Vars = append(n.Vars, V{Name: fmt.Sprintf("U%d", u), Kind: Utility, Outcomes: []string{"value"}, Parents: t.Perm(m)[:t.Range(1, min(m, 3))]})
		for r := 0; r < n.rows(i); r++ {
			n.Vars[i].Table = append(n.Vars[i].Table, math.Round((t.Float64()*2-1)*10000)/100)
		}
		us = append(us, i)
	}
	if t.Chance(0.4) {
		v := V{Name: "Total", Kind: Utility, Parents: us}
		for j := range us {
			v.Outcomes = append(v.Outcomes, fmt.Sprintf("w%d", j))
			v.Table = append(v.Table, math.Round(t.Float64()*400-100)/100)
		}
		n.Vars = append(n.Vars, v)
	}
	return n.permuted(t.Perm(len(n.Vars)))
}

func checkC07(c *Ctx) {
	// one query under decision evidence, all answers against the reference semantics
	ask := func(t *T, n *Net, net *bbn.Network, ev map[int]int, qs []int, pols map[int]*RF, ignore bool) {
		use := pols
		if ignore {
			use = withoutEvidence(pols, ev)
		}
		evn, qn := n.evidenceNames(ev), n.namesOf(qs)
		t.Event("SolveQuery(evidence=%v, query=%q, ignorePolicies=%v)", evn, qn, ignore)
		m, _, err := net.SolveQuery(evn, qn, ignore)
		if err != nil {
			t.Failf("SolveQuery failed on a valid query: %v\n%s", err, n)
		}
		fs := n.probRFs(use)
		pe := n.eval(fs, nil, ev)[0]
		for _, qi := range qs {
			got := m[n.Vars[qi].Name]
			if pe == 0 {
				if !allNaN(got) || len(got) != n.card(qi) {
					t.Failf("P(%q | %v) = %v although the policies never produce this evidence\n%s", n.Vars[qi].Name, evn, got, n)
				}
				t.Count("impossible_under_policy", 1)
				continue
			}
			want := normalized(n.eval(fs, []int{qi}, ev))
			if !nearAll(got, want, 1e-9) {
				t.Failf("P(%q | %v) = %v, exact value %v (ignorePolicies=%v)\n%s", n.Vars[qi].Name, evn, got, want, ignore, n)
			}
			t.Count("posteriors_compared", 1)
		}
		if pe > 0 {
			for _, u := range append(n.ofKind(Utility), -1) {
				if t.Chance(0.5) {
					checkUtility(t, n, net, u, ev, nil, use, ignore)
				}
			}
		}
		t.Distinct(n.shape(), ev, qs, ignore)
		if t.sample == nil {
			t.Sample(map[string]any{"evidence": evn, "ignorePolicies": ignore, "P(evidence)": pe, "posteriors": fmt.Sprint(m)})
		}
	}
	allFree := func(n *Net, ev map[int]int) []int {
		qs := []int{}
		for i := range n.Vars {
			if _, ok := ev[i]; !ok && n.Vars[i].Kind != Utility {
				qs = append(qs, i)
			}
		}
		return qs
	}
	run := func(t *T, n *Net) {
		net := n.build(t, true)
		_, pols := solvePolicies(t, n, net, t.Chance(0.5))
		for r := 0; r < 5; r++ {
			x := n.sampleJoint(t, nil) // decisions uniform: on and off the policies
			ev := map[int]int{}
			for _, d := range n.ofKind(Decision) {
				if t.Chance(0.6) {
					ev[d] = x[d]
				}
			}
			for _, i := range n.ofKind(Chance) {
				if t.Chance(0.25) {
					ev[i] = x[i]
				}
			}
			// one variable at a time, as the tools ask
			for _, ignore := range []bool{true, false} {
				for _, qi := range allFree(n, ev) {
					ask(t, n, net, ev, []int{qi}, pols, ignore)
				}
			}
		}
	}
	c.Section("override", 2500, 50000, "solved decision networks, evidence on any subset of decisions and chance variables, with and without ignoring policies: override must act as an intervention (the decision's policy is cut, all others stay), plain evidence as conditioning on the policies",
		func(t *T) { run(t, genID(t, idOpt{chance: -1})) })
	c.Section("many decisions", 300, 6000, "4..9 decisions", func(t *T) { run(t, genManyDecisions(t)) })
	c.Section("implicit", 1500, 30000, "the same on networks whose policies condition on unlisted earlier decisions", func(t *T) {
		n := genID(t, idOpt{decisions: t.Range(2, 3), chance: t.Range(1, 5)})
		m, _ := n.dropDecisionParents(t)
		run(t, m)
	})
	c.Section("unsolved", 1500, 30000, "policies never solved, every decision fixed by evidence", func(t *T) {
		n := genID(t, idOpt{chance: t.Range(1, 6)})
		net := n.build(t, true)
		x := n.sampleJoint(t, nil)
		ev := map[int]int{}
		for _, d := range n.ofKind(Decision) {
			ev[d] = x[d]
		}
		for _, i := range n.ofKind(Chance) {
			if t.Chance(0.25) {
				ev[i] = x[i]
			}
		}
		evn := n.evidenceNames(ev)
		for _, qi := range allFree(n, ev) {
			ignore := t.Chance(0.5)
			t.Event("SolveQuery(evidence=%v, query=%q) without policies", evn, n.Vars[qi].Name)
			m, _, err := net.SolveQuery(evn, []string{n.Vars[qi].Name}, ignore)
			if err != nil {
				t.Failf("SolveQuery failed on a valid query: %v\n%s", err, n)
			}
			want := normalized(n.eval(n.probRFs(nil), []int{qi}, ev))
			if !nearAll(m[n.Vars[qi].Name], want, 1e-9) {
				t.Failf("P(%q | %v) = %v, exact value %v (no policies)\n%s", n.Vars[qi].Name, evn, m[n.Vars[qi].Name], want, n)
			}
			t.Count("posteriors_compared", 1)
			t.Distinct(n.shape(), ev, qi)
		}
	})
	c.Section("options", 1500, 30000, "policies never solved, decisions asked for instead: the factor over the open decisions gives, per option, the probability of the evidence and the expected utility", func(t *T) {
		n := genID(t, idOpt{chance: t.Range(0, 6), maxJoint: 1 << 10})
		net := n.build(t, true)
		x := n.sampleJoint(t, nil)
		ev := map[int]int{}
		qs := []int{}
		size := 1
		for _, d := range n.ofKind(Decision) {
			if t.Chance(0.3) || size*n.card(d) > 1024 {
				ev[d] = x[d]
			} else {
				qs = append(qs, d)
				size *= n.card(d)
			}
		}
		for _, i := range n.ofKind(Chance) {
			if t.Chance(0.25) {
				ev[i] = x[i]
			}
		}
		evn, qn := n.evidenceNames(ev), n.namesOf(qs)
		t.Event("SolveQuery(evidence=%v, query=%q) without policies", evn, qn)
		_, f, err := net.SolveQuery(evn, qn, t.Chance(0.5))
		if err != nil {
			t.Failf("SolveQuery failed on a valid query: %v\n%s", err, n)
		}
		want := n.eval(n.probRFs(nil), qs, ev)
		// observations of the open decisions may remain in the factor: sum them out
		if got := n.sumExtras(factorInOrder(net, f, qn), qs); !nearAll(got, want, 1e-9) {
			t.Failf("probability of %v per option of %q is %v, exact value %v (no policies)\n%s", evn, qn, got, want, n)
		}
		for _, u := range append(n.ofKind(Utility), -1) {
			uname := ""
			if u >= 0 {
				uname = n.Vars[u].Name
			}
			t.Event("SolveUtility(evidence=%v, query=%q, utility=%q) without policies", evn, qn, uname)
			f, err := net.SolveUtility(evn, qn, uname, t.Chance(0.5))
			if err != nil {
				t.Failf("SolveUtility failed on a valid query: %v\n%s", err, n)
			}
			got := n.sumExtras(factorInOrder(net, f, qn), qs)
			val, scale := n.expUtility(u, qs, ev, nil)
			for i := range val {
				if !within(got[i], val[i], 1e-9, scale[i]) {
					t.Failf("utility of %q per option of %q given %v is %v, exact value %v (no policies)\n%s", uname, qn, evn, got, val, n)
				}
			}
			t.Count("utility_values_compared", len(val))
		}
		t.Count("posteriors_compared", 1)
		t.Distinct(n.shape(), ev, qs)
		t.Sample(map[string]any{"evidence": evn, "options_of": qn})
	})
	c.Section("large", 600, 10000, "networks of up to 2^17 assignments, all free variables asked for together", func(t *T) {
		n := genID(t, idOpt{decisions: t.Range(1, 3), chance: t.Range(7, 14), maxJoint: pick(t, []int{1 << 14, 1 << 17}), cards: pick(t, []string{"binary", "small"})})
		net := n.build(t, true)
		_, pols := solvePolicies(t, n, net, t.Chance(0.5))
		for _, ignore := range []bool{true, false} {
			x := n.sampleJoint(t, nil)
			ev := map[int]int{}
			for _, d := range n.ofKind(Decision) {
				if t.Chance(0.6) {
					ev[d] = x[d]
				}
			}
			qs := allFree(n, ev)
			t.Shuffle(len(qs), func(a, b int) { qs[a], qs[b] = qs[b], qs[a] })
			ask(t, n, net, ev, qs[:t.Range(1, len(qs))], pols, ignore)
		}
	})
	c.Section("exact", 1500, 30000, "the same with ties (randomized policies)", func(t *T) { run(t, genID(t, idOpt{chance: -1, exact: true})) })
}

// dropDecisionParents removes earlier decisions from the parents of later decisions where a path
// through chance variables still orders them: the order is then implied, not listed.
func (n *Net) dropDecisionParents(t *T) (*Net, int) {
	m := n.clone()
	dropped := 0
	for i := range m.Vars {
		if m.Vars[i].Kind != Decision {
			continue
		}
		for _, p := range append([]int{}, m.Vars[i].Parents...) {
			if m.Vars[p].Kind != Decision || t.Chance(0.2) {
				continue
			}
			rest := []int{}
			for _, q := range m.Vars[i].Parents {
				if q != p {
					rest = append(rest, q)
				}
			}
			old := m.Vars[i].Parents
			m.Vars[i].Parents = rest
			if m.isAncestor(p, i) {
				dropped++
			} else {
				m.Vars[i].Parents = old
			}
		}
	}
	return m, dropped
}

func (n *Net) isAncestor(a, i int) bool {
	for _, p := range n.Vars[i].Parents {
		if p == a || n.isAncestor(a, p) {
			return true
		}
	}
	return false
}

// genManyDecisions makes networks of more decisions than the other generators.
func genManyDecisions(t *T) *Net {
	return genID(t, idOpt{decisions: t.Range(4, 9), chance: t.Range(0, 5), maxJoint: 1 << 11, cards: pick(t, []string{"binary", "binary", "small", "ones"}), exact: t.Chance(0.3),
		observe: pick(t, []float64{0.2, 0.5, 0.9})})
}
