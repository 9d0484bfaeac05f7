package main

import (
	"fmt"
	"math"

	"github.com/mlange-42/bbn/ve"
)

func init() {
	checks["C09"] = checkC09
}

// bruteKeep sums the product of factors over everything but keep, given evidence (all by variable id).
func (s *space) bruteKeep(fs []*ve.Factor, vars []ve.Variable, keep []ve.Variable, ev map[int]int) (val, abs []float64) {
	val, abs = make([]float64, s.size(keep)), make([]float64, s.size(keep))
	s.each(vars, func(_ int, x map[int]int) {
		for id, o := range ev {
			if x[id] != o {
				return
			}
		}
		p := 1.0
		for _, f := range fs {
			p *= s.at(f, x)
		}
		k := 0
		for i := range keep {
			k = k*s.card[keep[i].Id()] + x[keep[i].Id()]
		}
		val[k] += p
		abs[k] += math.Abs(p)
	})
	return
}

func checkC09(c *Ctx) {
	genFactors := func(t *T, s *space, vars []ve.Variable) []*ve.Factor {
		fs := []*ve.Factor{}
		covered := map[int]bool{}
		mk := func(scope []ve.Variable) {
			data := make([]float64, s.size(scope))
			for i := range data {
				data[i] = 0.05 + t.Float64()*2
				if t.Chance(0.1) {
					data[i] = 0
				}
			}
			f := s.vs.CreateFactor(scope, data)
			fs = append(fs, &f)
			for i := range scope {
				covered[scope[i].Id()] = true
			}
		}
		for k := t.Range(0, len(vars)); k > 0; k-- {
			scope := []ve.Variable{}
			for _, j := range t.Perm(len(vars))[:t.Range(0, min(3, len(vars)))] {
				scope = append(scope, vars[j])
			}
			mk(scope)
		}
		for i := range vars {
			if !covered[vars[i].Id()] {
				mk([]ve.Variable{vars[i]})
			}
		}
		t.Shuffle(len(fs), func(i, j int) { fs[i], fs[j] = fs[j], fs[i] })
		return fs
	}
	deref := func(fs []*ve.Factor) []ve.Factor {
		r := []ve.Factor{}
		for _, f := range fs {
			r = append(r, *f)
		}
		return r
	}
	split := func(t *T, vars []ve.Variable, s *space) (ev []ve.Evidence, em map[int]int, query []ve.Variable) {
		em = map[int]int{}
		for _, j := range t.Perm(len(vars)) {
			v := vars[j]
			switch {
			case t.Chance(0.3):
				o := t.IntN(s.card[v.Id()])
				ev = append(ev, ve.Evidence{Variable: v, Value: o})
				em[v.Id()] = o
			case t.Chance(0.4):
				query = append(query, v)
			}
		}
		return
	}
	compare := func(t *T, s *space, what string, r *ve.Factor, fs []*ve.Factor, vars, query []ve.Variable, em map[int]int, extra map[int]bool) {
		rv := varSet(r.Variables())
		for i := range query {
			if !rv[query[i].Id()] {
				t.Failf("%s: query variable v%d is missing from the result %s", what, query[i].Id(), s.desc(r))
			}
		}
		qv := varSet(query)
		for id := range rv {
			if !qv[id] && !extra[id] {
				t.Failf("%s: the result contains v%d, which was not asked for: %s", what, id, s.desc(r))
			}
		}
		val, abs := s.bruteKeep(fs, vars, r.Variables(), em)
		for k := range val {
			if !within(r.Data()[k], val[k], 1e-10, abs[k]) {
				t.Failf("%s: entry %d of %s, expected %v (evidence %v)", what, k, s.desc(r), val[k], em)
			}
		}
		t.Count("values_compared", len(val))
	}
	c.Section("query", 50000, 1000000, "arbitrary non-negative factor sets over 1..7 variables (several factors per scope, scalars, not conditional distributions), evidence and query random; the eliminated result compared with enumeration, operands compared bitwise", func(t *T) {
		s := newSpace(t, t.Range(1, 7), func(int) int { return pick(t, []int{1, 2, 2, 2, 3, 4}) })
		fs := genFactors(t, s, s.vars)
		ev, em, query := split(t, s.vars, s)
		snaps := []facSnap{}
		for _, f := range fs {
			snaps = append(snaps, snapFactor(f))
		}
		t.Event("VE.SolveQuery over %d variables, %d factors, evidence %v, %d query variables", len(s.vars), len(fs), em, len(query))
		v := ve.New(s.vs, deref(fs), nil, nil)
		ev, evIntact := fenced(ev)
		query, queryIntact := fenced(query)
		r := v.SolveQuery(ev, query)
		if !evIntact() || !queryIntact() {
			t.Failf("SolveQuery changed the caller's lists of evidence or query variables, or what lies behind them: now %v, %v", ev, query)
		}
		compare(t, s, "SolveQuery", r, fs, s.vars, query, em, nil)
		for _, sn := range snaps {
			if !sn.unchanged() {
				t.Failf("SolveQuery changed an input factor: %s", s.desc(sn.f))
			}
		}
		for i := range r.Data() {
			r.Data()[i] = -7.25
		}
		for _, sn := range snaps {
			if !sn.unchanged() {
				t.Failf("the result of SolveQuery shares storage with an input factor: %s", s.desc(sn.f))
			}
		}
		// a second instance over the same variables and factors is independent of the first
		ev2, em2, q2 := split(t, s.vars, s)
		r2 := ve.New(v.Variables(), deref(fs), nil, nil).SolveQuery(ev2, q2)
		compare(t, s, "second SolveQuery", r2, fs, s.vars, q2, em2, nil)
		t.Distinct(len(fs), em, s.desc(r))
		t.Sample(map[string]any{"variables": len(s.vars), "factors": len(fs), "evidence": fmt.Sprint(em), "result": s.desc(r2)})
	})
	c.Section("large", 600, 10000, "factor sets over 9..18 variables, joint up to 2^17 assignments, results and intermediate factors of up to 2^17 entries", func(t *T) {
		size := 1
		limit := pick(t, []int{1 << 13, 1 << 15, 1 << 17})
		s := newSpace(t, t.Range(9, 18), func(int) int {
			c := pick(t, []int{2, 2, 3, 4})
			if size*c > limit {
				c = 1
			}
			size *= c
			return c
		})
		fs := genFactors(t, s, s.vars)
		ev, em, query := []ve.Evidence{}, map[int]int{}, []ve.Variable{}
		share := pick(t, []float64{0.1, 0.5, 0.95})
		for _, j := range t.Perm(len(s.vars)) {
			v := s.vars[j]
			if t.Chance(0.03) {
				o := t.IntN(s.card[v.Id()])
				ev = append(ev, ve.Evidence{Variable: v, Value: o})
				em[v.Id()] = o
			} else if t.Chance(share) {
				query = append(query, v)
			}
		}
		t.Event("VE.SolveQuery over %d variables, %d factors, evidence %v, %d query variables", len(s.vars), len(fs), em, len(query))
		r := ve.New(s.vs, deref(fs), nil, nil).SolveQuery(ev, query)
		compare(t, s, "SolveQuery", r, fs, s.vars, query, em, nil)
		t.Distinct(len(fs), em, len(query))
		t.Sample(map[string]any{"variables": len(s.vars), "assignments": size, "result_entries": len(r.Data())})
	})
	c.Section("utility", 30000, 600000, "the same with 1..3 utility variables, optional weights: single utilities and the weighted total", func(t *T) {
		s := &space{vs: ve.NewVariables(), card: map[int]int{}, ids: map[int]bool{}}
		nc, nu := t.Range(1, 5), t.Range(1, 3)
		kinds := make([]bool, nc+nu) // true: utility
		for i := 0; i < nu; i++ {
			kinds[i] = true
		}
		t.Shuffle(len(kinds), func(i, j int) { kinds[i], kinds[j] = kinds[j], kinds[i] })
		ids := t.Perm(3 * (nc + nu))
		chance, utils := []ve.Variable{}, []ve.Variable{}
		for i, u := range kinds {
			if u {
				s.card[ids[i]] = 1
				v := s.vs.AddVariable(ids[i], ve.UtilityNode, 1)
				utils = append(utils, v)
			} else {
				s.card[ids[i]] = t.Range(1, 3)
				v := s.vs.AddVariable(ids[i], ve.ChanceNode, uint16(s.card[ids[i]]))
				chance = append(chance, v)
			}
		}
		all := append(append([]ve.Variable{}, chance...), utils...)
		fs := genFactors(t, s, chance)
		ufs := []*ve.Factor{}
		for _, u := range utils {
			scope := []ve.Variable{}
			for _, j := range t.Perm(nc)[:t.Range(1, min(nc, 3))] {
				scope = append(scope, chance[j])
			}
			at := t.Range(0, len(scope))
			if t.Chance(0.5) {
				at = len(scope)
			}
			scope = append(scope[:at], append([]ve.Variable{u}, scope[at:]...)...)
			data := make([]float64, s.size(scope))
			for i := range data {
				data[i] = math.Round((t.Float64()*2-1)*1000) / 10
			}
			f := s.vs.CreateFactor(scope, data)
			ufs = append(ufs, &f)
		}
		var weights []float64
		if t.Chance(0.6) {
			for range utils {
				weights = append(weights, math.Round((t.Float64()*4-1)*10)/10)
			}
		}
		ev, em, query := split(t, chance, s)
		mk := func() *ve.VE {
			l := append(deref(fs), deref(ufs)...)
			t.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
			return ve.New(s.vs, l, nil, weights)
		}
		// probabilities ignore utilities
		compare(t, s, "SolveQuery with utilities present", mk().SolveQuery(ev, query), fs, chance, query, em, nil)
		for i := range utils {
			u := utils[i]
			t.Event("VE.SolveUtility(v%d), evidence %v", u.Id(), em)
			ev, evIntact := fenced(ev)
			query, queryIntact := fenced(query)
			r := mk().SolveUtility(ev, query, &u)
			if !evIntact() || !queryIntact() || u != utils[i] {
				t.Failf("SolveUtility changed the caller's lists of evidence or query variables, what lies behind them, or the utility variable: now %v, %v, %v", ev, query, u)
			}
			compare(t, s, "SolveUtility of one variable", r, append(append([]*ve.Factor{}, fs...), ufs[i]), all, query, em, map[int]bool{u.Id(): true})
		}
		r := mk().SolveUtility(ev, query, nil)
		val, abs := make([]float64, len(r.Data())), make([]float64, len(r.Data()))
		if !sameSet(varSet(r.Variables()), varSet(query)) {
			t.Failf("total utility is over %s, expected the query variables", s.desc(r))
		}
		for i := range utils {
			w := 1.0
			if weights != nil {
				w = weights[i]
			}
			v, a := s.bruteKeep(append(append([]*ve.Factor{}, fs...), ufs[i]), all, r.Variables(), em)
			for k := range v {
				val[k] += w * v[k]
				abs[k] += math.Abs(w) * a[k]
			}
		}
		for k := range val {
			if !within(r.Data()[k], val[k], 1e-10, abs[k]) {
				t.Failf("total utility entry %d of %s, expected %v (weights %v, evidence %v)", k, s.desc(r), val[k], weights, em)
			}
		}
		t.Count("values_compared", len(val))
		t.Distinct(em, weights, s.desc(r))
		t.Sample(map[string]any{"chance": nc, "utilities": nu, "weights": weights, "evidence": fmt.Sprint(em), "total": s.desc(r)})
	})
	c.Section("policies", 12000, 200000, "decision problems posed directly to the elimination layer (arbitrary ids, declaration and factor order, explicit dependencies): the policies of all decisions, or of the last one alone, compared with backward induction", func(t *T) {
		n := genID(t, idOpt{chance: -1, names: "simple"})
		s := n.solveStrategy()
		ids := t.Perm(2 * len(n.Vars))
		build := func() (*ve.VE, map[int]int) {
			vs := ve.NewVariables()
			vars := make([]ve.Variable, len(n.Vars))
			back := map[int]int{}
			tot := n.total()
			weights := []float64(nil)
			uw := n.utilityWeights()
			for i := range n.Vars {
				if i == tot {
					continue
				}
				vars[i] = vs.AddVariable(ids[i], nodeType(n.Vars[i].Kind), uint16(n.card(i)))
				back[ids[i]] = i
				if tot >= 0 && n.Vars[i].Kind == Utility {
					weights = append(weights, uw[i])
				}
			}
			fs := []ve.Factor{}
			deps := map[ve.Variable][]ve.Variable{}
			for i := range n.Vars {
				if i == tot {
					continue
				}
				scope := []ve.Variable{}
				for _, p := range n.Vars[i].Parents {
					scope = append(scope, vars[p])
				}
				if n.Vars[i].Kind == Decision {
					deps[vars[i]] = scope
					continue
				}
				fs = append(fs, vs.CreateFactor(append(scope, vars[i]), append([]float64{}, n.cptRF(i).d...)))
			}
			t.Shuffle(len(fs), func(i, j int) { fs[i], fs[j] = fs[j], fs[i] })
			return ve.New(vs, fs, deps, weights), back
		}
		conv := func(m map[ve.Variable][2]*ve.Factor, back map[int]int) map[int]*RF {
			out := map[int]*RF{}
			for v, p := range m {
				r := &RF{d: append([]float64{}, p[1].Data()...)}
				for _, x := range p[1].Variables() {
					r.v = append(r.v, back[x.Id()])
					r.card = append(r.card, n.card(back[x.Id()]))
				}
				out[back[v.Id()]] = r
			}
			return out
		}
		v, back := build()
		t.Event("VE.SolvePolicies(false) on %d decisions", len(s.order))
		pols := conv(v.SolvePolicies(false), back)
		if len(pols) != len(s.order) {
			t.Failf("%d policies for %d decisions\n%s", len(pols), len(s.order), n)
		}
		checkOptimal(t, n, pols, s, false)
		v, back = build()
		t.Event("VE.SolvePolicies(true)")
		one := conv(v.SolvePolicies(true), back)
		last := s.order[len(s.order)-1]
		if len(one) != 1 || one[last] == nil {
			t.Failf("solving a single step gave policies for %v, expected only the last decision %d\n%s", sortedIntKeys(one), last, n)
		}
		for k, p := range pols {
			if k != last {
				one[k] = p
			}
		}
		checkOptimal(t, n, one, s, true)
		t.Distinct(n.shape(), s.meu)
		t.Sample(map[string]any{"variables": len(n.Vars), "decisions": len(s.order), "maximum_expected_utility": s.meu})
	})
	c.Section("duplicate ids", 300, 3000, "a second variable with the id of an earlier one is refused", func(t *T) {
		s := newSpace(t, t.Range(1, 6), func(int) int { return t.Range(1, 4) })
		v := pick(t, s.vars)
		if panics(func() {
			s.vs.AddVariable(v.Id(), pick(t, []ve.NodeType{ve.ChanceNode, ve.DecisionNode, ve.UtilityNode}), uint16(t.Range(1, 4)))
		}) == nil {
			t.Failf("variable id %d was accepted twice", v.Id())
		}
		t.Distinct(v.Id(), len(s.vars))
		t.Sample(map[string]any{"id": v.Id(), "variables": len(s.vars)})
	})
}
