package main

import (
	"fmt"
	"math"
	"runtime"
	"slices"
	"strings"
)

func init() { checks["C24"] = checkC24 }

// genSparse makes a network of k variables whose graph is narrow: every query on it can be answered with small factors.
func genSparse(t *T, k int) (*Net, string) {
	parents := make([][]int, k)
	kind := pick(t, []string{"chain", "binary tree", "tree", "b-ary tree", "caterpillar", "star", "brooms", "hidden chain", "grid", "second order", "ring", "polytree", "polytree", "rings", "forest"})
	card := pick(t, []int{2, 2, 3})
	tree := func(f func(i int) int) {
		for i := 1; i < k; i++ {
			parents[i] = []int{f(i)}
		}
	}
	switch kind {
	case "chain":
		tree(func(i int) int { return i - 1 })
	case "binary tree":
		tree(func(i int) int { return (i - 1) / 2 })
	case "tree":
		tree(func(i int) int { return t.IntN(i) })
	case "b-ary tree":
		b := t.Range(3, 8)
		tree(func(i int) int { return (i - 1) / b })
	case "caterpillar":
		b := t.Range(2, 6)
		tree(func(i int) int {
			if i%b == 0 {
				return i - b
			}
			return i - i%b
		})
	case "star":
		tree(func(i int) int { return 0 })
	case "brooms":
		b := t.Range(5, 30)
		tree(func(i int) int {
			if i%b == 1 {
				return t.IntN(i)
			}
			return max(0, i-t.Range(1, 2))
		})
	case "hidden chain":
		tree(func(i int) int {
			if i%2 == 0 {
				return i - 2
			}
			return i - 1
		})
	case "grid":
		card = 2
		w := t.Range(2, 4)
		for i := range parents {
			if i%w > 0 {
				parents[i] = append(parents[i], i-1)
			}
			if i >= w {
				parents[i] = append(parents[i], i-w)
			}
		}
	case "second order":
		card = 2
		for i := range parents {
			for j := max(0, i-2); j < i; j++ {
				parents[i] = append(parents[i], j)
			}
		}
	case "ring":
		tree(func(i int) int { return i - 1 })
		parents[k-1] = append(parents[k-1], 0)
	case "rings":
		card = 2
		b := t.Range(4, 12)
		tree(func(i int) int { return i - 1 })
		for i := b; i < k; i += b {
			parents[i] = append(parents[i], i-b)
		}
	case "polytree": // a tree whose edges point either way, at most three parents each
		card = 2
		near := t.Chance(0.5)
		for i := 1; i < k; i++ {
			j := t.IntN(i)
			if near {
				j = (i - 1) / 2
			}
			if t.Chance(0.5) && len(parents[j]) < 3 {
				parents[j] = append(parents[j], i)
			} else {
				parents[i] = append(parents[i], j)
			}
		}
	case "forest":
		for i := 1; i < k; i++ {
			if t.Chance(0.9) {
				parents[i] = []int{max(0, i-t.Range(1, 12))}
			}
		}
	}
	n := &Net{Name: kind}
	outcomes := make([]string, card)
	for o := range outcomes {
		outcomes[o] = fmt.Sprint("o", o)
	}
	for i := range parents {
		n.Vars = append(n.Vars, V{Name: fmt.Sprintf("N%d", i), Outcomes: outcomes, Parents: parents[i]})
	}
	for i := range n.Vars {
		n.Vars[i].Table = genCPT(t, n.rows(i), card, pick(t, []string{"positive", "normal", "percent"}))
	}
	switch t.IntN(3) {
	case 0:
		return n, kind
	case 1: // children first
		p := n.topo()
		slices.Reverse(p)
		return n.permuted(p), kind
	}
	return n.permuted(t.Perm(k)), kind
}

// allocated runs f and returns how many bytes it allocated. Nothing else may run.
func allocated(f func()) float64 {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	return float64(b.TotalAlloc - a.TotalAlloc)
}

func checkC24(c *Ctx) {
	// The calls allocate up to 7 MB for 500 variables; an elimination that is exponential in the number of variables is
	// far beyond the limit for most of the structures, or does not come to an end at all.
	judge := func(t *T, what string, n *Net, bytes float64) {
		limit := 32e6 + 2e5*float64(len(n.Vars))
		t.Count("calls_measured", 1)
		t.Count("megabytes_allocated", int(math.Ceil(bytes/1e6)))
		t.Event("%s on %d variables allocated %.0f kB", what, len(n.Vars), bytes/1e3)
		if bytes > limit {
			t.Failf("%s on a network (%s) of %d variables allocated %.0f MB, more than %.0f", what, n.Name, len(n.Vars), bytes/1e6, limit/1e6)
		}
	}
	c.SectionPar("queries", 150, 3000, 1, "chains, trees, stars, polytrees, rings and grids of width up to 4, of 50..500 variables, declared in any order: queries for one or two variables with 0..125 observations: memory allocated by the call, every posterior against the exact value", func(t *T) {
		n, kind := genSparse(t, t.Range(50, pick(t, []int{100, 300, 500})))
		net := n.build(t, true)
		for r := 0; r < 3; r++ {
			ev := genEvidence(t, n, pick(t, []int{0, 1, 5, len(n.Vars) / 4}))
			qs := pickQuery(t, n, ev, 2)
			evn, qn := n.evidenceNames(ev), n.namesOf(qs)
			t.Event("SolveQuery(%d observed, query=%q)", len(ev), qn)
			var m map[string][]float64
			var err error
			bytes := allocated(func() { m, _, err = net.SolveQuery(evn, qn, false) })
			if err != nil {
				t.Failf("SolveQuery failed on a valid query: %v", err)
			}
			judge(t, "a query", n, bytes)
			fs := n.probRFs(nil)
			for _, q := range qs {
				want := normalized(n.eval(fs, []int{q}, ev))
				if !nearAll(m[n.Vars[q].Name], want, 1e-9) {
					t.Failf("P(%q | %v) = %v, exact value %v in a network (%s) of %d variables", n.Vars[q].Name, evn, m[n.Vars[q].Name], want, kind, len(n.Vars))
				}
				t.Count("posteriors_compared", 1)
			}
			t.Count("variables_"+strings.ReplaceAll(kind, " ", "_"), len(n.Vars))
			t.Distinct(n.shape(), ev, qs)
			t.Sample(map[string]any{"structure": kind, "variables": len(n.Vars), "observed": len(ev), "query": qn, "kilobytes": bytes / 1e3})
		}
	})
	c.SectionPar("decisions", 100, 2000, 1, "the same networks with one or two utility nodes and up to one decision that observes up to two variables, or with up to 60 utility nodes asked for one by one: solving the policy, expected utilities and posteriors under it, memory and values", func(t *T) {
		n, kind := genSparse(t, t.Range(50, pick(t, []int{100, 300})))
		k := len(n.Vars)
		some := func() []int { return t.Perm(k)[:t.Range(1, 2)] }
		d := -1
		many := t.Chance(0.25)      // many utility nodes, of single interest
		if t.Chance(0.8) && !many { // a decision that replaces the table of one variable
			d = t.IntN(k)
			v := &n.Vars[d]
			v.Kind, v.Table = Decision, nil
			v.Parents = v.Parents[:min(len(v.Parents), 2)]
		}
		nu := t.Range(1, 2)
		if many {
			nu = t.Range(10, 60)
		}
		for u := nu; u > 0; u-- {
			v := V{Name: fmt.Sprintf("U%d", u), Kind: Utility, Outcomes: []string{"value"}, Parents: some()}
			if d >= 0 && u == 1 && !contains(v.Parents, d) {
				v.Parents = append(v.Parents, d)
			}
			n.Vars = append(n.Vars, v)
			i := len(n.Vars) - 1
			for r := 0; r < n.rows(i); r++ {
				n.Vars[i].Table = append(n.Vars[i].Table, float64(t.Range(-50, 50)))
			}
		}
		net := n.build(t, true)
		var pols map[int]*RF
		if d >= 0 {
			step := t.Chance(0.5)
			judge(t, "solving policies", n, allocated(func() { _, pols = solvePolicies(t, n, net, step) }))
			p := pols[d]
			if p == nil {
				t.Failf("no policy for the only decision")
			}
			// the policy plays only what is best given what is observed
			info := n.Vars[d].Parents
			val, scale := n.expUtility(-1, append(slices.Clone(info), d), nil, nil)
			cd := n.card(d)
			x := make([]int, len(n.Vars))
			for st := 0; st*cd < len(val); st++ {
				y := st
				for j := len(info) - 1; j >= 0; j-- {
					x[info[j]] = y % n.card(info[j])
					y /= n.card(info[j])
				}
				row := val[st*cd : (st+1)*cd]
				for o := range row {
					x[d] = o
					if p.at(x) > 0 && row[o] < slices.Max(row)-1e-9*slices.Max(scale[st*cd:(st+1)*cd]) {
						t.Failf("the policy of %q plays %q in state %v, worth %v, although %v is attainable, in a network (%s) of %d variables", n.Vars[d].Name, n.Vars[d].Outcomes[o], n.describe(info, x), row[o], slices.Max(row), kind, len(n.Vars))
					}
				}
				t.Count("states_compared", 1)
			}
		}
		for r := 0; r < 2; r++ {
			x := n.sampleJoint(t, pols)
			ev := map[int]int{}
			for _, i := range t.Perm(k)[:pick(t, []int{0, 1, 5, k / 5})] {
				ev[i] = x[i]
			}
			evn := n.evidenceNames(ev)
			us := append(n.ofKind(Utility), -1)
			if many { // their sum is another matter
				us = us[:4]
			}
			for _, u := range us {
				un := ""
				if u >= 0 {
					un = n.Vars[u].Name
				}
				var got []float64
				judge(t, "an expected utility", n, allocated(func() {
					f, err := net.SolveUtility(evn, nil, un, false)
					if err != nil {
						t.Failf("SolveUtility failed on a valid query: %v", err)
					}
					got = f.Data()
				}))
				val, scale := n.expUtility(u, nil, ev, pols)
				if len(got) != 1 || !within(got[0], val[0], 1e-9, scale[0]) {
					t.Failf("sum of probability times utility %q given %v is %v, exact value %v, in a network (%s) of %d variables", un, evn, got, val, kind, len(n.Vars))
				}
				t.Count("utilities_compared", 1)
			}
			t.Distinct(n.shape(), ev)
		}
		t.Sample(map[string]any{"structure": kind, "variables": len(n.Vars), "decision": d >= 0})
	})
	c.SectionPar("commands", 12, 200, 4, "bbn inference on such networks of 50..200 variables ends regularly within a minute, with two lines per variable", func(t *T) {
		n, kind := genSparse(t, t.Range(50, 200))
		dir, rm := scratch(t)
		defer rm()
		p := n.writeNet(t, dir, "yml", "xml")
		ev := genEvidence(t, n, t.Range(0, 10))
		args := []string{"inference", p}
		for i, o := range ev {
			args = append(args, "-e", n.Vars[i].Name+"="+n.Vars[i].Outcomes[o])
		}
		r := cli(t, c, dir, "bbn", args...)
		if lines := strings.Count(r.out, "\n"); r.code != 0 || lines != 2*len(n.Vars) {
			t.Failf("bbn inference on a network (%s) of %d variables: exit status %d, %d lines: %s", kind, len(n.Vars), r.code, lines, cut(r.out+r.err, 500))
		}
		t.Distinct(n.shape(), ev)
		t.Sample(map[string]any{"structure": kind, "variables": len(n.Vars)})
	})
}
