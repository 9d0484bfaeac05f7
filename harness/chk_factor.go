package main

import (
	"fmt"
	"math"
	"sort"
	"strings"

	"github.com/mlange-42/bbn/ve"
)

func init() {
	checks["C08"] = checkC08
	checks["C21"] = checkC21
}

// space is a set of variables of the low-level API with the cardinalities the library does not expose.
type space struct {
	vs   *ve.Variables
	vars []ve.Variable
	card map[int]int // by variable id
	ids  map[int]bool
	cap  int // largest factor the operations may make, 0 = 20000
}

func newSpace(t *T, n int, cards func(j int) int) *space {
	s := &space{vs: ve.NewVariables(), card: map[int]int{}, ids: map[int]bool{}}
	base := t.Range(0, 3)
	step := t.Range(1, 5)
	order := t.Perm(n)
	for i := 0; i < n; i++ {
		id := base + step*order[i] // ids are neither dense nor ascending
		c := cards(i)
		s.card[id] = c
		s.vars = append(s.vars, s.vs.AddVariable(id, ve.ChanceNode, uint16(c)))
	}
	return s
}

func (s *space) size(vars []ve.Variable) int {
	n := 1
	for i := range vars {
		n *= s.card[vars[i].Id()]
	}
	return n
}

// at evaluates a factor at an assignment by variable id, by the row-major definition.
func (s *space) at(f *ve.Factor, x map[int]int) float64 {
	k := 0
	vars := f.Variables()
	for i := range vars {
		k = k*s.card[vars[i].Id()] + x[vars[i].Id()]
	}
	return f.Data()[k]
}

// each enumerates the assignments of vars (row-major).
func (s *space) each(vars []ve.Variable, f func(k int, x map[int]int)) {
	n := s.size(vars)
	x := map[int]int{}
	for k := 0; k < n; k++ {
		r := k
		for i := len(vars) - 1; i >= 0; i-- {
			c := s.card[vars[i].Id()]
			x[vars[i].Id()] = r % c
			r /= c
		}
		f(k, x)
	}
}

type facSnap struct {
	f    *ve.Factor
	data []float64
	vars []ve.Variable
	id   int
}

func snapFactor(f *ve.Factor) facSnap {
	return facSnap{f, append([]float64{}, f.Data()...), append([]ve.Variable{}, f.Variables()...), f.Id()}
}

func (s facSnap) unchanged() bool {
	if !sameBits(s.f.Data(), s.data) || len(s.vars) != len(s.f.Variables()) || s.id != s.f.Id() {
		return false
	}
	for i, v := range s.f.Variables() {
		if v != s.vars[i] {
			return false
		}
	}
	return true
}

func (s *space) desc(f *ve.Factor) string {
	d := "factor over ["
	vars := f.Variables()
	for i := range vars {
		d += fmt.Sprintf(" v%d:%d", vars[i].Id(), s.card[vars[i].Id()])
	}
	return d + " ] " + shortFloats(f.Data())
}

func varSet(vars []ve.Variable) map[int]bool {
	m := map[int]bool{}
	for i := range vars {
		m[vars[i].Id()] = true
	}
	return m
}

func sameSet(a, b map[int]bool) bool {
	if len(a) != len(b) {
		return false
	}
	for k := range a {
		if !b[k] {
			return false
		}
	}
	return true
}

// genFactor makes a factor over a random subset of the space in random order.
func (s *space) genFactor(t *T, maxVars, maxSize int, style string) *ve.Factor {
	vars := []ve.Variable{}
	k := t.Range(0, min(maxVars, len(s.vars)))
	if k == 0 && t.Chance(0.7) {
		k = 1
	}
	for _, j := range t.Perm(len(s.vars)) {
		if len(vars) < k && s.size(append(append([]ve.Variable{}, vars...), s.vars[j])) <= maxSize {
			vars = append(vars, s.vars[j])
		}
	}
	data := make([]float64, s.size(vars))
	for i := range data {
		switch style {
		case "nonneg":
			data[i] = t.Float64() * 3
			if t.Chance(0.15) {
				data[i] = 0
			}
		case "int":
			data[i] = float64(t.Range(-3, 3))
		case "distinct":
			data[i] = float64(i + 1)
		default:
			data[i] = (t.Float64()*2 - 1) * math.Pow(10, float64(t.Range(-3, 3)))
		}
	}
	vars, intact := fenced(vars)
	f := s.vs.CreateFactor(vars, data)
	if !intact() {
		t.Failf("CreateFactor changed the caller's list of variables, or what lies behind it")
	}
	for i := range vars { // the caller's list, not the factor's
		vars[i] = ve.Variable{}
	}
	return &f
}

func (s *space) register(t *T, f *ve.Factor) {
	if s.ids[f.Id()] {
		t.Failf("factor id %d was given twice by the same Variables instance", f.Id())
	}
	s.ids[f.Id()] = true
	if len(f.Data()) != s.size(f.Variables()) {
		t.Failf("result has %d values over variables of %d joint outcomes: %s", len(f.Data()), s.size(f.Variables()), s.desc(f))
	}
}

func checkC08(c *Ctx) {
	type opf func(t *T, s *space, in []*ve.Factor) (*ve.Factor, string)
	union := func(in []*ve.Factor) map[int]bool {
		m := map[int]bool{}
		for _, f := range in {
			for k := range varSet(f.Variables()) {
				m[k] = true
			}
		}
		return m
	}
	compare := func(t *T, s *space, what string, in []*ve.Factor, r *ve.Factor, vars map[int]bool, want func(x map[int]int) (val, scale float64)) {
		if !sameSet(varSet(r.Variables()), vars) || len(r.Variables()) != len(vars) {
			t.Failf("%s: result is over %v, expected variables %v", what, s.desc(r), vars)
		}
		s.each(r.Variables(), func(k int, x map[int]int) {
			w, sc := want(x)
			if !within(r.Data()[k], w, 1e-12, sc) && !(math.IsNaN(w) && math.IsNaN(r.Data()[k])) {
				msg := ""
				for _, f := range in {
					msg += "\n  " + s.desc(f)
				}
				t.Failf("%s: value at %v is %v, expected %v\nresult %s\noperands:%s", what, x, r.Data()[k], w, s.desc(r), msg)
			}
		})
		t.Count("values_compared", len(r.Data()))
	}
	ops := map[string]opf{
		"Product": func(t *T, s *space, in []*ve.Factor) (*ve.Factor, string) {
			list, intact := fenced(in)
			r := s.vs.Product(list...)
			if !intact() {
				t.Failf("Product changed the caller's list of factors, or what lies behind it")
			}
			compare(t, s, "Product", in, &r, union(in), func(x map[int]int) (float64, float64) {
				p := 1.0
				for _, f := range in {
					p *= s.at(f, x)
				}
				return p, math.Abs(p)
			})
			return &r, ""
		},
		"Sum": func(t *T, s *space, in []*ve.Factor) (*ve.Factor, string) {
			list, intact := fenced(in)
			r := s.vs.Sum(list...)
			if !intact() {
				t.Failf("Sum changed the caller's list of factors, or what lies behind it")
			}
			compare(t, s, "Sum", in, &r, union(in), func(x map[int]int) (float64, float64) {
				p, a := 0.0, 0.0
				for _, f := range in {
					p += s.at(f, x)
					a += math.Abs(s.at(f, x))
				}
				return p, a
			})
			return &r, ""
		},
		"SumOut": func(t *T, s *space, in []*ve.Factor) (*ve.Factor, string) {
			f := in[0]
			v := pick(t, f.Variables())
			r := s.vs.SumOut(f, v)
			vars := varSet(f.Variables())
			delete(vars, v.Id())
			compare(t, s, fmt.Sprintf("SumOut(v%d)", v.Id()), in[:1], &r, vars, func(x map[int]int) (float64, float64) {
				p, a := 0.0, 0.0
				for o := 0; o < s.card[v.Id()]; o++ {
					x[v.Id()] = o
					p += s.at(f, x)
					a += math.Abs(s.at(f, x))
				}
				delete(x, v.Id())
				return p, a
			})
			return &r, ""
		},
		"Restrict": func(t *T, s *space, in []*ve.Factor) (*ve.Factor, string) {
			f := in[0]
			v := pick(t, f.Variables())
			o := t.IntN(s.card[v.Id()])
			r := s.vs.Restrict(f, v, o)
			vars := varSet(f.Variables())
			delete(vars, v.Id())
			compare(t, s, fmt.Sprintf("Restrict(v%d=%d)", v.Id(), o), in[:1], &r, vars, func(x map[int]int) (float64, float64) {
				x[v.Id()] = o
				p := s.at(f, x)
				delete(x, v.Id())
				return p, 0
			})
			return &r, ""
		},
		"Marginal": func(t *T, s *space, in []*ve.Factor) (*ve.Factor, string) {
			f := in[0]
			v := pick(t, f.Variables())
			r := s.vs.Marginal(f, v)
			val, abs := make([]float64, s.card[v.Id()]), make([]float64, s.card[v.Id()])
			s.each(f.Variables(), func(k int, x map[int]int) {
				val[x[v.Id()]] += f.Data()[k]
				abs[x[v.Id()]] += math.Abs(f.Data()[k])
			})
			compare(t, s, fmt.Sprintf("Marginal(v%d)", v.Id()), in[:1], &r, map[int]bool{v.Id(): true}, func(x map[int]int) (float64, float64) {
				return val[x[v.Id()]], abs[x[v.Id()]]
			})
			return &r, ""
		},
		"Rearrange": func(t *T, s *space, in []*ve.Factor) (*ve.Factor, string) {
			f := in[0]
			vars := append([]ve.Variable{}, f.Variables()...)
			t.Shuffle(len(vars), func(i, j int) { vars[i], vars[j] = vars[j], vars[i] })
			vars, intact := fenced(vars)
			r := s.vs.Rearrange(f, vars)
			if !intact() {
				t.Failf("Rearrange changed the caller's list of variables, or what lies behind it")
			}
			for i, v := range r.Variables() {
				if v.Id() != vars[i].Id() {
					t.Failf("Rearrange: result order %s differs from the requested order", s.desc(&r))
				}
			}
			compare(t, s, "Rearrange", in[:1], &r, varSet(vars), func(x map[int]int) (float64, float64) { return s.at(f, x), 0 })
			return &r, ""
		},
		"Normalize": func(t *T, s *space, in []*ve.Factor) (*ve.Factor, string) {
			f := in[0]
			tot, abs := 0.0, 0.0
			for _, x := range f.Data() {
				tot += x
				abs += math.Abs(x)
			}
			if abs > 0 && math.Abs(tot) < 1e-3*abs {
				return nil, "cancelling sum"
			}
			r := s.vs.Normalize(f)
			compare(t, s, "Normalize", in[:1], &r, varSet(f.Variables()), func(x map[int]int) (float64, float64) {
				return s.at(f, x) / tot, math.Abs(s.at(f, x)/tot) * abs / math.Abs(tot)
			})
			return &r, ""
		},
		"NormalizeFor": func(t *T, s *space, in []*ve.Factor) (*ve.Factor, string) {
			f := in[0]
			v := pick(t, f.Variables())
			sum := func(x map[int]int) (float64, float64) {
				keep := x[v.Id()]
				p, a := 0.0, 0.0
				for o := 0; o < s.card[v.Id()]; o++ {
					x[v.Id()] = o
					p += s.at(f, x)
					a += math.Abs(s.at(f, x))
				}
				x[v.Id()] = keep
				return p, a
			}
			bad := false
			s.each(f.Variables(), func(k int, x map[int]int) {
				p, a := sum(x)
				if a > 0 && math.Abs(p) < 1e-3*a {
					bad = true
				}
			})
			if bad {
				return nil, "cancelling sum"
			}
			r := s.vs.NormalizeFor(f, v)
			if last := r.Variables()[len(r.Variables())-1]; last.Id() != v.Id() {
				t.Failf("NormalizeFor(v%d): the normalized variable is not the last one: %s", v.Id(), s.desc(&r))
			}
			compare(t, s, fmt.Sprintf("NormalizeFor(v%d)", v.Id()), in[:1], &r, varSet(f.Variables()), func(x map[int]int) (float64, float64) {
				p, a := sum(x)
				if p == 0 {
					return 0, 0
				}
				return s.at(f, x) / p, math.Abs(s.at(f, x)/p) * a / math.Abs(p)
			})
			return &r, ""
		},
		"Invert": func(t *T, s *space, in []*ve.Factor) (*ve.Factor, string) {
			f := in[0]
			for _, x := range f.Data() {
				if x == 0 {
					return nil, "zero value"
				}
			}
			r := s.vs.Invert(f)
			compare(t, s, "Invert", in[:1], &r, varSet(f.Variables()), func(x map[int]int) (float64, float64) {
				return 1 / s.at(f, x), math.Abs(1 / s.at(f, x))
			})
			return &r, ""
		},
		"Policy": func(t *T, s *space, in []*ve.Factor) (*ve.Factor, string) {
			f := in[0]
			v := pick(t, f.Variables())
			r := s.vs.Policy(f, v)
			compare(t, s, fmt.Sprintf("Policy(v%d)", v.Id()), in[:1], &r, varSet(f.Variables()), func(x map[int]int) (float64, float64) {
				me := s.at(f, x)
				keep := x[v.Id()]
				best, cnt := math.Inf(-1), 0
				for o := 0; o < s.card[v.Id()]; o++ {
					x[v.Id()] = o
					if y := s.at(f, x); y > best {
						best, cnt = y, 1
					} else if y == best {
						cnt++
					}
				}
				x[v.Id()] = keep
				if me == best {
					return 1 / float64(cnt), 1
				}
				return 0, 0
			})
			return &r, ""
		},
	}
	names := sortedKeys(ops)
	step := func(t *T, s *space, pool *[]*ve.Factor, name string) {
		var in []*ve.Factor
		switch name {
		case "Product", "Sum":
			k := pick(t, []int{1, 2, 2, 3, 4})
			vars := map[int]bool{}
			for tries := 0; len(in) < k && tries < 20; tries++ {
				f := pick(t, *pool)
				u := map[int]bool{}
				size := 1
				for id := range vars {
					u[id] = true
				}
				for id := range varSet(f.Variables()) {
					u[id] = true
				}
				for id := range u {
					size *= s.card[id]
				}
				if size <= max(s.cap, 20000) {
					in = append(in, f)
					vars = u
				}
			}
			if len(in) == 0 {
				return
			}
		default:
			f := pick(t, *pool)
			if len(f.Variables()) == 0 && name != "Rearrange" && name != "Normalize" && name != "Invert" {
				return
			}
			in = []*ve.Factor{f}
		}
		for _, f := range in {
			for _, x := range f.Data() {
				if math.IsNaN(x) || math.IsInf(x, 0) || math.Abs(x) > 1e100 || (x != 0 && math.Abs(x) < 1e-100) {
					return
				}
			}
		}
		snaps := []facSnap{}
		for _, f := range *pool {
			snaps = append(snaps, snapFactor(f))
		}
		t.Event("%s on %d factors", name, len(in))
		r, why := ops[name](t, s, in)
		if why != "" {
			return
		}
		s.register(t, r)
		for i, sn := range snaps {
			if !sn.unchanged() {
				t.Failf("%s modified a factor (%d) it was given or that shares nothing with it: before %v, now %s", name, i, sn.data, s.desc(sn.f))
			}
		}
		// the result shares no storage with any operand: write to it and look at the others
		keep := append([]float64{}, r.Data()...)
		for i := range r.Data() {
			r.Data()[i] = -12345.5
		}
		for _, sn := range snaps {
			if !sn.unchanged() {
				t.Failf("writing to the result of %s changed another factor: %s", name, s.desc(sn.f))
			}
		}
		copy(r.Data(), keep)
		t.Count("op_"+name, 1)
		t.Distinct(name, s.desc(in[0])[:min(60, len(s.desc(in[0])))])
		if len(r.Data()) <= max(s.cap, 20000) {
			*pool = append(*pool, r)
		}
		if t.sample == nil {
			t.Sample(map[string]any{"operation": name, "first_operand": s.desc(in[0]), "result": s.desc(r)})
		}
	}
	c.Section("sequences", 16000, 300000, "sequences of 25 factor operations on a growing pool of factors over 1..6 variables with 1..7 outcomes (random scopes and orders, scalars, shared operands); each result compared pointwise with the definition, all other factors compared bitwise with their snapshot, results overwritten to detect shared storage",
		func(t *T) {
			s := newSpace(t, t.Range(1, 6), func(int) int { return pick(t, []int{1, 2, 2, 3, 3, 4, 5, 7}) })
			style := pick(t, []string{"nonneg", "int", "mixed", "distinct"})
			pool := []*ve.Factor{}
			for i := 0; i < t.Range(1, 4); i++ {
				f := s.genFactor(t, 4, 600, style)
				s.register(t, f)
				pool = append(pool, f)
			}
			for i := 0; i < 25; i++ {
				step(t, s, &pool, pick(t, names))
				if len(pool) > 12 {
					k := t.IntN(len(pool))
					pool = append(pool[:k], pool[k+1:]...)
				}
			}
		})
	c.Section("wide", 120, 2000, "each operation on factors with one variable of 100..1000 outcomes", func(t *T) {
		s := newSpace(t, 3, func(j int) int {
			if j == 0 {
				return pick(t, []int{127, 128, 255, 256, 257, 300, 1000})
			}
			return t.Range(1, 3)
		})
		for _, name := range names {
			f := s.genFactor(t, 3, 30000, pick(t, []string{"nonneg", "int", "mixed"}))
			g := s.genFactor(t, 2, 30000, "mixed")
			s.register(t, f)
			s.register(t, g)
			pool := []*ve.Factor{f, g}
			step(t, s, &pool, name)
		}
	})
	c.Section("large", 150, 3000, "each operation on factors of up to 2^17 entries over up to 17 variables", func(t *T) {
		size := 1
		limit := pick(t, []int{1 << 13, 1 << 15, 1 << 17})
		s := newSpace(t, t.Range(4, 18), func(int) int {
			c := pick(t, []int{2, 2, 3, 5, 11})
			if size*c > limit {
				c = 1
			}
			size *= c
			return c
		})
		for _, name := range names {
			f := s.genFactor(t, 18, limit, pick(t, []string{"nonneg", "int", "mixed"}))
			g := s.genFactor(t, 3, 500, "mixed")
			if t.Chance(0.5) {
				g = s.genFactor(t, 18, limit, "mixed")
			}
			s.register(t, f)
			s.register(t, g)
			s.cap = 1 << 18
			pool := []*ve.Factor{f, g}
			if t.Chance(0.5) {
				pool = []*ve.Factor{g, f}
			}
			step(t, s, &pool, name)
		}
	})
	c.Section("by name", 4000, 80000, "Rearrange, Marginal and Normalize of a Network on the factor of a query: variables given by name, all of them or some", func(t *T) {
		n := genBN(t, genOpt{nMin: 1, nMax: 6, maxJoint: 600})
		net := n.build(t, true)
		names := []string{}
		for _, i := range t.Perm(len(n.Vars))[:t.Range(1, min(4, len(n.Vars)))] {
			names = append(names, n.Vars[i].Name)
		}
		_, f, err := net.SolveQuery(nil, names, false)
		if err != nil {
			t.Failf("query %q: %v\n%s", names, err, n)
		}
		sn := snapFactor(f)
		nameOf := func(v ve.Variable) string { return net.Variables()[v.Id()].Name }
		part := []string{}
		for _, i := range t.Perm(len(names))[:t.Range(1, len(names))] {
			part = append(part, names[i])
		}
		g := net.Rearrange(f, part)
		got := []string{}
		for _, v := range g.Variables() {
			got = append(got, nameOf(v))
		}
		rest := append([]string{}, got...)
		sort.Strings(rest)
		all := append([]string{}, names...)
		sort.Strings(all)
		if strings.Join(rest, "|") != strings.Join(all, "|") {
			t.Failf("Rearrange(%q) has variables %q, expected %q", part, got, names)
		}
		k := 0
		for _, x := range got {
			if k < len(part) && x == part[k] {
				k++
			}
		}
		if k != len(part) || got[len(got)-1] != part[len(part)-1] || (len(part) > 1 && got[0] != part[0]) {
			t.Failf("Rearrange(%q) has the order %q", part, got)
		}
		idx := make([]int, len(names))
		jdx := make([]int, len(names))
		sums := map[string][]float64{}
		for _, v := range f.Variables() {
			sums[nameOf(v)] = make([]float64, len(net.Variables()[v.Id()].Outcomes))
		}
		total := 0.0
		for p, x := range f.Data() {
			f.Outcomes(p, idx)
			for a, v := range f.Variables() {
				sums[nameOf(v)][idx[a]] += x
				for b, w := range g.Variables() {
					if w.Id() == v.Id() {
						jdx[b] = idx[a]
					}
				}
			}
			total += x
			if y := g.Get(jdx); math.Float64bits(x) != math.Float64bits(y) {
				t.Failf("Rearrange(%q): %v at %v became %v", part, x, idx, y)
			}
		}
		m := net.Marginal(f, part[0])
		for o, x := range m.Data() {
			if !near(x, sums[part[0]][o], 1e-12) {
				t.Failf("Marginal(%q) is %v, expected %v", part[0], m.Data(), sums[part[0]])
			}
		}
		h := net.Normalize(&g)
		for p, x := range h.Data() {
			if !near(x, g.Data()[p]/total, 1e-12) {
				t.Failf("Normalize: entry %d is %v, expected %v", p, x, g.Data()[p]/total)
			}
		}
		if !sn.unchanged() {
			t.Failf("Rearrange(%q), Marginal or Normalize changed its operand", part)
		}
		t.Count("entries_compared", len(f.Data()))
		t.Distinct(n.shape(), part)
	})
	c.Section("misuse", 1500, 20000, "operations with a variable outside the factor, an outcome out of range, or data of the wrong length must not return a result", func(t *T) {
		s := newSpace(t, t.Range(2, 5), func(int) int { return t.Range(1, 4) })
		f := s.genFactor(t, 3, 300, "mixed")
		in := varSet(f.Variables())
		var out *ve.Variable
		for i := range s.vars {
			if !in[s.vars[i].Id()] {
				out = &s.vars[i]
			}
		}
		mustPanic := func(what string, g func()) {
			if panics(g) == nil {
				t.Failf("%s returned a result instead of refusing; %s", what, s.desc(f))
			}
			t.Count("misuse_refused", 1)
		}
		if out != nil {
			mustPanic("SumOut of a variable outside the factor", func() { s.vs.SumOut(f, *out) })
			mustPanic("Restrict of a variable outside the factor", func() { s.vs.Restrict(f, *out, 0) })
			mustPanic("Marginal of a variable outside the factor", func() { s.vs.Marginal(f, *out) })
			mustPanic("NormalizeFor of a variable outside the factor", func() { s.vs.NormalizeFor(f, *out) })
			mustPanic("Policy of a variable outside the factor", func() { s.vs.Policy(f, *out) })
			if len(f.Variables()) > 0 {
				vars := append([]ve.Variable{}, f.Variables()...)
				vars[t.IntN(len(vars))] = *out
				mustPanic("Rearrange to other variables", func() { s.vs.Rearrange(f, vars) })
			}
		}
		if len(f.Variables()) > 0 {
			v := pick(t, f.Variables())
			mustPanic("Restrict to an outcome past the end", func() { s.vs.Restrict(f, v, s.card[v.Id()]+t.IntN(3)) })
			mustPanic("Restrict to a negative outcome", func() { s.vs.Restrict(f, v, -1-t.IntN(3)) })
			mustPanic("Rearrange to fewer variables", func() { s.vs.Rearrange(f, f.Variables()[1:]) })
		}
		mustPanic("CreateFactor with too much data", func() { s.vs.CreateFactor(f.Variables(), make([]float64, len(f.Data())+t.Range(1, 3))) })
		mustPanic("CreateFactor with too little data", func() { s.vs.CreateFactor(f.Variables(), make([]float64, len(f.Data())-1)) })
		g := s.vs.CreateFactor(f.Variables(), nil)
		if len(g.Data()) != len(f.Data()) || sum(g.Data()) != 0 {
			t.Failf("CreateFactor without data made %s", s.desc(&g))
		}
		t.Distinct(s.desc(f))
		t.Sample(s.desc(f))
	})
}

func checkC21(c *Ctx) {
	probe := func(t *T, s *space, f *ve.Factor, all bool) {
		vars := f.Variables()
		n := len(f.Data())
		idx := make([]int, len(vars))
		ks := []int{}
		if all {
			for k := 0; k < n; k++ {
				ks = append(ks, k)
			}
		} else {
			ks = append(ks, 0, n-1)
			for i := 0; i < 200; i++ {
				ks = append(ks, t.IntN(n))
			}
		}
		for _, k := range ks {
			want := make([]int, len(vars))
			r := k
			for i := len(vars) - 1; i >= 0; i-- {
				cd := s.card[vars[i].Id()]
				want[i] = r % cd
				r /= cd
			}
			for i := range idx { // the result must not depend on what was there
				idx[i] = t.Range(-1, 9)
			}
			f.Outcomes(k, idx)
			for i := range want {
				if idx[i] != want[i] {
					t.Failf("Outcomes(%d) = %v, expected %v for %s", k, idx, want, s.desc(f))
				}
			}
			if got := f.Index(want); got != k {
				t.Failf("Index(%v) = %d, expected %d for %s", want, got, k, s.desc(f))
			}
			if got, ok := f.IndexWithNoData(want); !ok || got != k {
				t.Failf("IndexWithNoData(%v) = %d, %v, expected %d, true", want, got, ok, k)
			}
			if len(vars) > 0 {
				miss := append([]int{}, want...)
				for _, j := range t.Perm(len(vars))[:t.Range(1, len(vars))] {
					miss[j] = -1
				}
				if got, ok := f.IndexWithNoData(miss); ok {
					t.Failf("IndexWithNoData(%v) = %d, true with missing data", miss, got)
				}
				last := s.card[vars[len(vars)-1].Id()]
				start, ln := f.RowIndex(want[:len(want)-1])
				if start != k-k%last || ln != last {
					t.Failf("RowIndex(%v) = %d, %d, expected %d, %d for %s", want[:len(want)-1], start, ln, k-k%last, last, s.desc(f))
				}
				row := f.Row(want[:len(want)-1])
				if len(row) != last || !sameBits(row, f.Data()[start:start+ln]) {
					t.Failf("Row(%v) = %v, expected %v", want[:len(want)-1], row, f.Data()[start:start+ln])
				}
			}
			if g := f.Get(want); math.Float64bits(g) != math.Float64bits(f.Data()[k]) {
				t.Failf("Get(%v) = %v, expected %v", want, g, f.Data()[k])
			}
			t.Count("positions_probed", 1)
		}
		// Set touches exactly one position
		for i := 0; i < 4; i++ {
			k := t.IntN(n)
			before := append([]float64{}, f.Data()...)
			for i := range idx { // the result must not depend on what was there
				idx[i] = t.Range(-1, 9)
			}
			f.Outcomes(k, idx)
			before[k] = t.Float64()
			f.Set(idx, before[k])
			if !sameBits(before, f.Data()) {
				t.Failf("Set(%v) did not change exactly position %d of %s", idx, k, s.desc(f))
			}
		}
		t.Distinct(s.desc(f))
		if t.sample == nil {
			t.Sample(map[string]any{"factor": s.desc(f), "positions": len(ks)})
		}
	}
	c.Section("shapes", 30000, 600000, "factors over 0..6 variables with 1..9 outcomes: every flat position probed through Index, Outcomes, IndexWithNoData, RowIndex, Row, Get, Set against the row-major definition (last variable fastest)", func(t *T) {
		s := newSpace(t, t.Range(1, 6), func(int) int { return pick(t, []int{1, 2, 2, 3, 4, 5, 7, 9}) })
		probe(t, s, s.genFactor(t, 6, 700, "distinct"), true)
	})
	c.Section("wide", 60, 1500, "variables with 255..65535 outcomes (the limit of the type), positions sampled", func(t *T) {
		s := newSpace(t, 3, func(j int) int {
			if j == 0 {
				return pick(t, []int{255, 256, 257, 1000, 32767, 32768, 40000, 65535})
			}
			return t.Range(1, 3)
		})
		var f *ve.Factor
		for f == nil || len(f.Data()) < 200 {
			f = s.genFactor(t, 3, 1<<19, "distinct")
		}
		probe(t, s, f, false)
	})
	c.Section("large", 150, 3000, "factors of up to 2^22 entries over up to 22 variables, positions sampled", func(t *T) {
		size := 1
		limit := pick(t, []int{1 << 12, 1 << 15, 1 << 18, 1 << 18, 1 << 22})
		s := newSpace(t, t.Range(6, 22), func(int) int {
			c := pick(t, []int{1, 2, 2, 3, 5, 11})
			if size*c > limit {
				c = 1
			}
			size *= c
			return c
		})
		var f *ve.Factor
		for f == nil || len(f.Data()) < min(size, 1000) {
			f = s.genFactor(t, 22, limit, "distinct")
		}
		probe(t, s, f, false)
	})
	c.Section("network rows", 15000, 300000, "Factor.Row of network variables: the row for given parent outcomes, missing data reported, the row writes through to the table", func(t *T) {
		n := genBN(t, genOpt{nMin: 1, nMax: 6})
		net := n.build(t, true)
		for i := range n.Vars {
			f := net.Variables()[i].Factor
			ps := n.Vars[i].Parents
			c := n.card(i)
			for r := 0; r < min(n.rows(i), 200); r++ {
				idx := make([]int, len(ps))
				x := r
				for j := len(ps) - 1; j >= 0; j-- {
					idx[j] = x % n.card(ps[j])
					x /= n.card(ps[j])
				}
				row, ok := f.Row(idx)
				if !ok || !sameBits(row, n.Vars[i].Table[r*c:(r+1)*c]) {
					t.Failf("Row(%v) of %q = %v, %v, expected %v", idx, n.Vars[i].Name, row, ok, n.Vars[i].Table[r*c:(r+1)*c])
				}
				if len(ps) > 0 {
					miss := append([]int{}, idx...)
					miss[t.IntN(len(ps))] = -1
					if got, ok := f.Row(miss); ok {
						t.Failf("Row(%v) of %q = %v with missing data", miss, n.Vars[i].Name, got)
					}
				}
				for _, bad := range []int{len(ps) - 1, len(ps) + 1} {
					if bad < 0 {
						continue
					}
					ok, got := false, []float64(nil)
					if panics(func() { got, ok = f.Row(make([]int, bad)) }) == nil && ok {
						t.Failf("Row with %d indices of %q with %d parents = %v", bad, n.Vars[i].Name, len(ps), got)
					}
				}
				t.Count("rows_probed", 1)
			}
			r := t.IntN(n.rows(i))
			idx := make([]int, len(ps))
			x := r
			for j := len(ps) - 1; j >= 0; j-- {
				idx[j] = x % n.card(ps[j])
				x /= n.card(ps[j])
			}
			row, _ := f.Row(idx)
			k := t.IntN(c)
			row[k] = 0.25 + t.Float64()
			n.Vars[i].Table[r*c+k] = row[k]
			if !sameBits(net.Variables()[i].Factor.Table, n.Vars[i].Table) {
				t.Failf("writing to Row(%v) of %q did not change exactly that entry of the table", idx, n.Vars[i].Name)
			}
		}
		checkPosterior(t, n, net, nil, pickQuery(t, n, nil, 2), false) // the written entries are the ones used
	})
	c.Section("misuse", 1000, 10000, "index lists of the wrong length must not be resolved", func(t *T) {
		s := newSpace(t, t.Range(1, 4), func(int) int { return t.Range(1, 4) })
		f := s.genFactor(t, 4, 300, "distinct")
		k := len(f.Variables())
		for _, bad := range []int{k + 1, k + 2, k - 1} {
			if bad < 0 {
				continue
			}
			if panics(func() { f.Index(make([]int, bad)) }) == nil || panics(func() { f.IndexWithNoData(make([]int, bad)) }) == nil ||
				panics(func() { f.Outcomes(0, make([]int, bad)) }) == nil || panics(func() { f.Get(make([]int, bad)) }) == nil ||
				panics(func() { f.Set(make([]int, bad), 1) }) == nil {
				t.Failf("%d indices were accepted for %s", bad, s.desc(f))
			}
			if k > 0 && bad-1 >= 0 && bad != k {
				if panics(func() { f.RowIndex(make([]int, bad-1)) }) == nil || panics(func() { f.Row(make([]int, bad-1)) }) == nil {
					t.Failf("%d row indices were accepted for %s", bad-1, s.desc(f))
				}
			}
			t.Count("misuse_refused", 1)
		}
		t.Distinct(s.desc(f))
		t.Sample(s.desc(f))
	})
}
