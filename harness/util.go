package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/mlange-42/bbn"
	"github.com/mlange-42/bbn/ve"
)

// near compares with a tolerance relative to the larger magnitude (all-positive arithmetic keeps relative accuracy).
func near(a, b, rel float64) bool {
	if a == b {
		return true
	}
	if math.IsNaN(a) || math.IsNaN(b) || math.IsInf(a, 0) || math.IsInf(b, 0) {
		return false
	}
	return math.Abs(a-b) <= rel*math.Max(math.Abs(a), math.Abs(b))
}

// within compares with an absolute tolerance of rel*scale.
func within(a, b, rel, scale float64) bool {
	if a == b {
		return true
	}
	if math.IsNaN(a) || math.IsNaN(b) || math.IsInf(a, 0) || math.IsInf(b, 0) {
		return false
	}
	return math.Abs(a-b) <= rel*math.Max(scale, 1e-300)
}

func nearAll(a, b []float64, rel float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !near(a[i], b[i], rel) {
			return false
		}
	}
	return true
}

// firstFar returns the first position where a and b differ by more than the tolerance, -1 if none.
func firstFar(a, b []float64, rel float64) int {
	for i := range a {
		if i >= len(b) || !near(a[i], b[i], rel) {
			return i
		}
	}
	if len(a) < len(b) {
		return len(a)
	}
	return -1
}

func at(a []float64, i int) float64 {
	if i < len(a) {
		return a[i]
	}
	return math.NaN()
}

func sameBits(a, b []float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if math.Float64bits(a[i]) != math.Float64bits(b[i]) {
			return false
		}
	}
	return true
}

// sameValues is exact equality of numbers (0 and -0 are the same number).
func sameValues(a, b []float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func allNaN(a []float64) bool {
	for _, x := range a {
		if !math.IsNaN(x) {
			return false
		}
	}
	return true
}

func normalized(m []float64) []float64 {
	o := append([]float64{}, m...)
	s := sum(o)
	for i := range o {
		o[i] /= s
	}
	return o
}

func sum(m []float64) float64 {
	s := 0.0
	for _, x := range m {
		s += x
	}
	return s
}

// evidenceNames renders evidence over variable indices with names and outcomes.
func (n *Net) evidenceNames(ev map[int]int) map[string]string {
	m := map[string]string{}
	for v, o := range ev {
		m[n.Vars[v].Name] = n.Vars[v].Outcomes[o]
	}
	return m
}

func (n *Net) namesOf(is []int) []string {
	r := []string{}
	for _, i := range is {
		r = append(r, n.Vars[i].Name)
	}
	return r
}

// shape is a fingerprint of structure and cardinalities.
func (n *Net) shape() string {
	s := ""
	for i := range n.Vars {
		s += fmt.Sprintf("%d:%d%v;", n.Vars[i].Kind, n.card(i), n.Vars[i].Parents)
	}
	return s
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func sortedIntKeys[V any](m map[int]V) []int {
	ks := make([]int, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	return ks
}

// guarded runs f and turns a panic of the code under test into a verdict.
func guarded(t *T, what string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case failure, skip:
				panic(r)
			}
			t.Failf("%s panicked: %v", what, r)
		}
	}()
	f()
}

// panics reports whether f panics.
func panics(f func()) (r any) {
	defer func() { r = recover() }()
	f()
	return nil
}

// factorInOrder returns the factor's data with its variables in the given order (by name), through the public API.
func factorInOrder(net *bbn.Network, f *ve.Factor, names []string) []float64 {
	if len(names) == 0 {
		return f.Data()
	}
	g := net.Rearrange(f, names)
	return g.Data()
}

// fenced copies a list into the middle of a longer one (so that appending to it does not reallocate);
// the function tells whether the list and its surroundings are still the same.
func fenced[E comparable](list []E) ([]E, func() bool) {
	var mark E
	all := make([]E, len(list)+3)
	copy(all[1:], list)
	if len(list) > 0 { // something to be overwritten behind it
		all[len(list)+1], all[len(list)+2] = list[0], list[0]
		mark = list[0]
	}
	all[0] = mark
	was := append([]E{}, all...)
	return all[1 : len(list)+1], func() bool {
		for i := range all {
			if all[i] != was[i] {
				return false
			}
		}
		return true
	}
}

// policyRF converts a solved policy into a reference factor.
func (n *Net) policyRF(f bbn.Factor) *RF {
	r := &RF{}
	for _, g := range append(append([]string{}, f.Given...), f.For) {
		i := n.index(g)
		if i < 0 {
			return nil
		}
		r.v = append(r.v, i)
		r.card = append(r.card, n.card(i))
	}
	r.d = append([]float64{}, f.Table...)
	size := 1
	for _, c := range r.card {
		size *= c
	}
	if size != len(r.d) {
		return nil
	}
	return r
}

func (n *Net) policies(m map[string]bbn.Factor) map[int]*RF {
	r := map[int]*RF{}
	for k, f := range m {
		r[n.index(k)] = n.policyRF(f)
	}
	return r
}

// elimCost bounds the largest intermediate factor when eliminating in order of the initial degree.
func (n *Net) elimCost(keep []int, ev map[int]int) float64 {
	scopes := []map[int]bool{}
	for i := range n.Vars {
		s := map[int]bool{}
		for _, p := range n.Vars[i].Parents {
			if _, ok := ev[p]; !ok {
				s[p] = true
			}
		}
		if _, ok := ev[i]; !ok && n.Vars[i].Kind != Utility {
			s[i] = true
		}
		scopes = append(scopes, s)
	}
	type vd struct{ v, d int }
	order := []vd{}
	for i := range n.Vars {
		if _, ok := ev[i]; ok || contains(keep, i) || n.Vars[i].Kind == Utility {
			continue
		}
		u := map[int]bool{}
		for _, s := range scopes {
			if s[i] {
				for k := range s {
					u[k] = true
				}
			}
		}
		order = append(order, vd{i, len(u)})
	}
	sort.SliceStable(order, func(a, b int) bool { return order[a].d < order[b].d })
	worst := 1.0
	size := func(s map[int]bool) float64 {
		c := 1.0
		for k := range s {
			c *= float64(n.card(k))
		}
		return c
	}
	for _, o := range order {
		u := map[int]bool{}
		rest := scopes[:0:0]
		for _, s := range scopes {
			if s[o.v] {
				for k := range s {
					u[k] = true
				}
			} else {
				rest = append(rest, s)
			}
		}
		if c := size(u); c > worst {
			worst = c
		}
		delete(u, o.v)
		scopes = append(rest, u)
	}
	u := map[int]bool{}
	for _, s := range scopes {
		for k := range s {
			u[k] = true
		}
	}
	if c := size(u); c > worst {
		worst = c
	}
	return worst
}
