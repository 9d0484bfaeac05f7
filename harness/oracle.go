package main

// Reference semantics, written independently of the code under test:
// brute-force enumeration, a small dynamic-order variable elimination, and
// backward induction over the full joint for decision networks.

import (
	"math"
)

// RF is a reference factor over variable indices of a Net.
type RF struct {
	v    []int // variables, row-major, last fastest
	card []int
	d    []float64
}

func (f *RF) at(x []int) float64 {
	k := 0
	for i, v := range f.v {
		k = k*f.card[i] + x[v]
	}
	return f.d[k]
}

func (f *RF) has(v int) bool { return contains(f.v, v) }

// cptRF is the normalized CPT of a chance variable, or the raw table of a utility variable.
func (n *Net) cptRF(i int) *RF {
	v := &n.Vars[i]
	f := &RF{}
	for _, p := range v.Parents {
		f.v = append(f.v, p)
		f.card = append(f.card, n.card(p))
	}
	f.d = append([]float64{}, v.Table...)
	if v.Kind == Utility {
		return f // scope: the parents only; a utility variable has one value
	}
	f.v = append(f.v, i)
	f.card = append(f.card, n.card(i))
	c := n.card(i)
	for r := 0; r*c < len(f.d); r++ {
		normalizeRow(f.d[r*c : (r+1)*c])
	}
	return f
}

// chanceRFs are the CPTs of all chance variables plus the policies.
func (n *Net) probRFs(policies map[int]*RF) []*RF {
	fs := []*RF{}
	for i := range n.Vars {
		if n.Vars[i].Kind == Chance {
			fs = append(fs, n.cptRF(i))
		}
	}
	for i := range n.Vars { // deterministic order
		if p := policies[i]; p != nil {
			fs = append(fs, p)
		}
	}
	return fs
}

// utilityWeights returns the weight of each utility variable in the total.
func (n *Net) utilityWeights() map[int]float64 {
	w := map[int]float64{}
	tot := n.total()
	for _, u := range n.ofKind(Utility) {
		w[u] = 1
	}
	if tot >= 0 {
		for j, p := range n.Vars[tot].Parents {
			w[p] = n.Vars[tot].Table[j]
		}
	}
	return w
}

// evalBrute sums the product of the factors over all assignments compatible with the evidence,
// keeping the variables in keep (row-major in that order).
func (n *Net) evalBrute(fs []*RF, keep []int, ev map[int]int) []float64 {
	inScope := map[int]bool{}
	for _, f := range fs {
		for _, v := range f.v {
			inScope[v] = true
		}
	}
	size := 1
	for _, k := range keep {
		inScope[k] = true
		size *= n.card(k)
	}
	out := make([]float64, size)
	free := []int{}
	for i := range n.Vars {
		if _, ok := ev[i]; inScope[i] && !ok {
			free = append(free, i)
		}
	}
	x := make([]int, len(n.Vars))
	for v, o := range ev {
		x[v] = o
	}
	for {
		p := 1.0
		for _, f := range fs {
			p *= f.at(x)
			if p == 0 {
				break
			}
		}
		if p != 0 {
			k := 0
			for _, v := range keep {
				k = k*n.card(v) + x[v]
			}
			out[k] += p
		}
		i := len(free) - 1
		for ; i >= 0; i-- {
			v := free[i]
			x[v]++
			if x[v] < n.card(v) {
				break
			}
			x[v] = 0
		}
		if i < 0 {
			return out
		}
	}
}

func restrictRF(f *RF, ev map[int]int) *RF {
	keepIdx := []int{}
	for i, v := range f.v {
		if _, ok := ev[v]; !ok {
			keepIdx = append(keepIdx, i)
		}
	}
	if len(keepIdx) == len(f.v) {
		return f
	}
	g := &RF{}
	for _, i := range keepIdx {
		g.v = append(g.v, f.v[i])
		g.card = append(g.card, f.card[i])
	}
	size := 1
	for _, c := range g.card {
		size *= c
	}
	g.d = make([]float64, size)
	stride := make([]int, len(f.v))
	s := 1
	for i := len(f.v) - 1; i >= 0; i-- {
		stride[i] = s
		s *= f.card[i]
	}
	base := 0
	for i, v := range f.v {
		if o, ok := ev[v]; ok {
			base += o * stride[i]
		}
	}
	for k := range g.d {
		r := k
		src := base
		for j := len(keepIdx) - 1; j >= 0; j-- {
			i := keepIdx[j]
			src += (r % f.card[i]) * stride[i]
			r /= f.card[i]
		}
		g.d[k] = f.d[src]
	}
	return g
}

// combine multiplies factors and sums out x (x < 0: nothing summed), scope in the order of first appearance, x excluded.
func combine(fs []*RF, x int) *RF {
	scope := []int{}
	card := map[int]int{}
	for _, f := range fs {
		for i, v := range f.v {
			if v != x && !contains(scope, v) {
				scope = append(scope, v)
			}
			card[v] = f.card[i]
		}
	}
	g := &RF{v: scope}
	size := 1
	for _, v := range scope {
		g.card = append(g.card, card[v])
		size *= card[v]
	}
	g.d = make([]float64, size)
	// strides of each factor along the scope and along x
	st := make([][]int, len(fs))
	sx := make([]int, len(fs))
	for k, f := range fs {
		st[k] = make([]int, len(scope))
		s := 1
		for i := len(f.v) - 1; i >= 0; i-- {
			if f.v[i] == x {
				sx[k] += s
			} else {
				for j, v := range scope {
					if v == f.v[i] {
						st[k][j] += s
					}
				}
			}
			s *= f.card[i]
		}
	}
	nx := 1
	if x >= 0 {
		nx = card[x]
	}
	off := make([]int, len(fs))
	for c := range g.d {
		r := c
		for k := range off {
			off[k] = 0
		}
		for j := len(scope) - 1; j >= 0; j-- {
			o := r % g.card[j]
			r /= g.card[j]
			for k := range fs {
				off[k] += o * st[k][j]
			}
		}
		sum := 0.0
		for o := 0; o < nx; o++ {
			p := 1.0
			for k, f := range fs {
				p *= f.d[off[k]+o*sx[k]]
			}
			sum += p
		}
		g.d[c] = sum
	}
	return g
}

// evalVE computes the same as evalBrute by eliminating the cheapest variable first.
func (n *Net) evalVE(fs []*RF, keep []int, ev map[int]int) []float64 {
	work := []*RF{}
	for _, f := range fs {
		work = append(work, restrictRF(f, ev))
	}
	kept := map[int]bool{}
	for _, k := range keep {
		kept[k] = true
	}
	// costs of eliminating each variable, kept up to date
	costs := make([]float64, len(n.Vars))
	update := func(v int) {
		costs[v] = math.Inf(1)
		if kept[v] {
			return
		}
		seen := map[int]bool{}
		for _, f := range work {
			if !f.has(v) {
				continue
			}
			if len(seen) == 0 {
				costs[v] = 1
			}
			for i, u := range f.v {
				if !seen[u] {
					seen[u] = true
					costs[v] *= float64(f.card[i])
				}
			}
		}
	}
	for v := range costs {
		update(v)
	}
	for {
		best := -1
		for v, c := range costs {
			if !math.IsInf(c, 1) && (best < 0 || c < costs[best]) {
				best = v
			}
		}
		if best < 0 {
			break
		}
		take, rest := []*RF{}, []*RF{}
		for _, f := range work {
			if f.has(best) {
				take = append(take, f)
			} else {
				rest = append(rest, f)
			}
		}
		g := combine(take, best)
		work = append(rest, g)
		costs[best] = math.Inf(1)
		for _, v := range g.v {
			update(v)
		}
	}
	g := combine(work, -1)
	size := 1
	for _, k := range keep {
		size *= n.card(k)
	}
	out := make([]float64, size)
	x := make([]int, len(n.Vars))
	for v, o := range ev {
		x[v] = o
	}
	for c := range out {
		r := c
		skip := false
		for j := len(keep) - 1; j >= 0; j-- {
			v := keep[j]
			o := r % n.card(v)
			r /= n.card(v)
			if e, ok := ev[v]; ok && e != o {
				skip = true
			}
			x[v] = o
		}
		if skip {
			continue
		}
		out[c] = g.at(x)
	}
	return out
}

// eval picks brute force for small joints and elimination otherwise.
func (n *Net) eval(fs []*RF, keep []int, ev map[int]int) []float64 {
	if n.jointSize() <= 1<<12 {
		return n.evalBrute(fs, keep, ev)
	}
	return n.evalVE(fs, keep, ev)
}

// posterior returns the normalized marginal of variable i and the evidence probability.
func (n *Net) posterior(i int, ev map[int]int, policies map[int]*RF) ([]float64, float64) {
	m := n.eval(n.probRFs(policies), []int{i}, ev)
	s := 0.0
	for _, x := range m {
		s += x
	}
	out := make([]float64, len(m))
	for k := range m {
		out[k] = m[k] / s
	}
	return out, s
}

// expUtility returns sum P*U (unnormalized) over keep for one utility variable (or the weighted total, u<0),
// together with sum P*|U|, the scale for comparisons.
func (n *Net) expUtility(u int, keep []int, ev map[int]int, policies map[int]*RF) (val, scale []float64) {
	fs := n.probRFs(policies)
	var us []int
	w := n.utilityWeights()
	if u < 0 {
		us = n.ofKind(Utility)
	} else {
		us = []int{u}
		w = map[int]float64{u: 1}
	}
	size := 1
	for _, k := range keep {
		size *= n.card(k)
	}
	val, scale = make([]float64, size), make([]float64, size)
	for _, k := range us {
		f := n.cptRF(k)
		a := &RF{v: f.v, card: f.card, d: make([]float64, len(f.d))}
		for j, x := range f.d {
			a.d[j] = math.Abs(x)
		}
		r := n.eval(append(append([]*RF{}, fs...), f), keep, ev)
		s := n.eval(append(append([]*RF{}, fs...), a), keep, ev)
		for j := range r {
			val[j] += w[k] * r[j]
			scale[j] += math.Abs(w[k]) * s[j]
		}
	}
	return
}

// ---------------------------------------------------------------- decisions

// strategy solves a no-forgetting decision network by backward induction over the full joint.
type strategy struct {
	meu   float64
	scale float64
	order []int   // decisions in temporal order
	info  [][]int // all variables known when deciding (observations and earlier decisions), in temporal order
	q     []*RF   // weighted action values over info+decision
	qs    []*RF   // the same for |utility|: scale
	reach []*RF   // probability of the information state under do(earlier decisions)
	vars  [][]int // helper
}

// temporal returns decisions in temporal order (each is an ancestor-or-observed of the next under explicit no-forgetting).
func (n *Net) temporal() []int {
	out := []int{}
	for _, i := range n.topo() {
		if n.Vars[i].Kind == Decision {
			out = append(out, i)
		}
	}
	return out
}

func (n *Net) solveStrategy() *strategy {
	s := &strategy{order: n.temporal()}
	// sequence: new observations of d1, d1, new observations of d2, d2, ..., rest
	seq := []int{}
	isMax := map[int]bool{}
	for _, d := range s.order {
		for _, p := range sortedInts(n.Vars[d].Parents) {
			if !contains(seq, p) {
				seq = append(seq, p)
			}
		}
		s.info = append(s.info, append([]int{}, seq...))
		if !contains(seq, d) {
			seq = append(seq, d)
		}
		isMax[d] = true
	}
	for i := range n.Vars {
		if n.Vars[i].Kind == Chance && !contains(seq, i) {
			seq = append(seq, i)
		}
	}
	// full joint in seq order
	size := 1
	for _, v := range seq {
		size *= n.card(v)
	}
	pu, pa, pp := make([]float64, size), make([]float64, size), make([]float64, size)
	fs := n.probRFs(nil)
	w := n.utilityWeights()
	us := n.ofKind(Utility)
	ufs := []*RF{}
	for _, u := range us {
		ufs = append(ufs, n.cptRF(u))
	}
	x := make([]int, len(n.Vars))
	for k := 0; k < size; k++ {
		r := k
		for j := len(seq) - 1; j >= 0; j-- {
			x[seq[j]] = r % n.card(seq[j])
			r /= n.card(seq[j])
		}
		p := 1.0
		for _, f := range fs {
			p *= f.at(x)
		}
		u, a := 0.0, 0.0
		for j, f := range ufs {
			val := w[us[j]] * f.at(x)
			u += val
			a += math.Abs(val)
		}
		pu[k], pa[k], pp[k] = p*u, p*a, p
	}
	s.q = make([]*RF, len(s.order))
	s.qs = make([]*RF, len(s.order))
	s.reach = make([]*RF, len(s.order))
	mk := func(vars []int, d []float64) *RF {
		f := &RF{v: append([]int{}, vars...), d: append([]float64{}, d...)}
		for _, v := range vars {
			f.card = append(f.card, n.card(v))
		}
		return f
	}
	for j := len(seq) - 1; j >= 0; j-- {
		v := seq[j]
		c := n.card(v)
		if isMax[v] {
			k := 0
			for i, d := range s.order {
				if d == v {
					k = i
				}
			}
			s.q[k] = mk(seq[:j+1], pu)
			s.qs[k] = mk(seq[:j+1], pa)
		}
		m := len(pu) / c
		nu, na, np := make([]float64, m), make([]float64, m), make([]float64, m)
		for r := 0; r < m; r++ {
			if isMax[v] {
				best := 0
				for o := 1; o < c; o++ {
					if pu[r*c+o] > pu[r*c+best] {
						best = o
					}
				}
				nu[r] = pu[r*c+best]
				for o := 0; o < c; o++ {
					na[r] = math.Max(na[r], pa[r*c+o])
				}
				np[r] = pp[r*c]
			} else {
				for o := 0; o < c; o++ {
					nu[r] += pu[r*c+o]
					na[r] += pa[r*c+o]
					np[r] += pp[r*c+o]
				}
			}
		}
		pu, pa, pp = nu, na, np
		if isMax[v] {
			for i, d := range s.order {
				if d == v {
					s.reach[i] = mk(seq[:j], pp)
				}
			}
		}
	}
	s.meu, s.scale = pu[0], pa[0]
	return s
}
