package main

import (
	"fmt"
	"hash/fnv"
	"math"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/mlange-42/bbn"
	"github.com/mlange-42/bbn/logic"
	"github.com/mlange-42/bbn/ve"
)

func init() {
	checks["C17"] = checkC17
}

// conParts is a description all goroutines make networks from.
type conParts struct {
	n    *Net
	vars []bbn.Variable
	facs []bbn.Factor
	ev   []map[string]string // arguments in common, only read
	qs   [][]string
	x    [][]int
	u    [][]float64
}

func newConParts(t *T, n *Net) conParts {
	p := conParts{n: n}
	p.vars, p.facs = n.parts()
	for k := 0; k < 4; k++ {
		ev, q := map[string]string{}, []string{}
		for _, i := range t.Perm(len(n.Vars)) {
			if n.Vars[i].Kind == Utility {
				continue
			}
			if t.Chance(0.3) {
				ev[n.Vars[i].Name] = pick(t, n.Vars[i].Outcomes)
			} else if len(q) < 3 && t.Chance(0.6) {
				q = append(q, n.Vars[i].Name)
			}
		}
		q, _ = fenced(q) // with room behind it
		p.ev, p.qs = append(p.ev, ev), append(p.qs, q)
	}
	for k := 0; k < 60; k++ {
		x, u := make([]int, len(n.Vars)), make([]float64, len(n.Vars))
		for j := range x {
			x[j] = t.IntN(max(1, len(n.Vars[j].Outcomes)))
			u[j] = float64(t.IntN(7))
		}
		p.x, p.u = append(p.x, x), append(p.u, u)
	}
	return p
}

// conScript is one goroutine's life: it makes its own networks and uses them; the transcript holds everything observed.
// The script depends on its PRNG value alone, so that alone or among others it must observe the same.
func conScript(t *T, seed uint64, dir string, focus string, shared []conParts, step func(op string)) string {
	r := &T{c: t.c, section: t.section, idx: t.idx, counts: map[string]int64{}, Rand: newRand(seed)}
	b := strings.Builder{}
	floats := func(xs []float64) {
		for _, x := range xs {
			fmt.Fprintf(&b, " %x", math.Float64bits(x))
		}
		b.WriteByte('\n')
	}
	fac := func(f *ve.Factor) {
		for _, v := range f.Variables() {
			fmt.Fprintf(&b, "%d ", v.Id())
		}
		floats(f.Data())
	}
	ops := logicOps()
	type inst struct {
		n    *Net
		net  *bbn.Network
		with *conParts
	}
	nets := []inst{}
	load := func() {
		var n *Net
		var net *bbn.Network
		var err error
		var with *conParts
		text := ""
		kind := r.IntN(7)
		if focus == "logic" && r.Chance(0.8) {
			kind = 0
		}
		switch kind {
		case 0, 1:
			step("load logic")
			n, text = logicNet(r, ops)
			net, err = bbn.FromYAML([]byte(text))
		case 2:
			step("load yaml")
			n = genForDefect(r)
			net, err = bbn.FromYAML([]byte(n.yamlText(r, true)))
		case 3:
			step("load xml")
			n = genForDefect(r)
			net, err = bbn.FromBIFXML([]byte(n.xmlText(r)))
		case 4:
			step("load file")
			n = genForDefect(r)
			p := filepath.Join(dir, fmt.Sprintf("n%d-%d.%s", seed, r.IntN(1000), pick(r, []string{"yml", "XML"})))
			text = n.raw().yaml()
			if strings.HasSuffix(p, "XML") {
				text = n.raw().xml()
			}
			os.WriteFile(p, []byte(text), 0o644)
			net, err = bbn.FromFile(p)
		case 5:
			step("load broken")
			n = genForDefect(r)
			m := r.IntN(2)
			if m == 0 {
				_, err = bbn.FromYAML([]byte(mutate(r, n.raw().yaml())))
			} else {
				_, err = bbn.FromBIFXML([]byte(mutate(r, n.raw().xml())))
			}
			fmt.Fprintln(&b, "broken", err != nil)
			return
		default:
			step("construct")
			if r.Chance(0.5) {
				x := pick(r, shared)
				n, with = x.n, &x
				net, err = bbn.New(n.Name, "", x.vars, x.facs)
				break
			}
			if r.Chance(0.5) {
				n = genID(r, idOpt{chance: r.Range(1, 3), maxJoint: 64})
			} else {
				n = genForDefect(r)
			}
			v, f := n.parts()
			net, err = bbn.New(n.Name, "", v, f)
		}
		fmt.Fprintln(&b, "load", kind, err)
		if err == nil {
			nets = append(nets, inst{n, net, with})
		}
	}
	load()
	for k := 0; k < r.Range(6, 14); k++ {
		if len(nets) == 0 || r.Chance(0.2) {
			load()
			continue
		}
		x := pick(r, nets)
		n, net := x.n, x.net
		ev := map[string]string{}
		q := []string{}
		for _, i := range append(n.ofKind(Chance), n.ofKind(Decision)...) {
			if r.Chance(0.3) {
				ev[n.Vars[i].Name] = pick(r, n.Vars[i].Outcomes)
			} else if len(q) < 2 && r.Chance(0.4) {
				q = append(q, n.Vars[i].Name)
			}
		}
		if x.with != nil && r.Chance(0.5) {
			k := r.IntN(len(x.with.ev))
			ev, q = x.with.ev[k], x.with.qs[k]
		}
		ignore := r.Chance(0.5)
		op := r.IntN(8)
		switch op {
		case 0:
			step("policies")
			pol, err := net.SolvePolicies(r.Chance(0.5))
			fmt.Fprintln(&b, "policies", err)
			for _, name := range sortedKeys(pol) {
				fmt.Fprintf(&b, "%q %q", name, pol[name].Given)
				floats(pol[name].Table)
			}
		case 1:
			step("utility")
			f, err := net.SolveUtility(ev, q, "", ignore)
			fmt.Fprintln(&b, "utility", err)
			if f != nil {
				fac(f)
			}
		case 2:
			step("train")
			tr := bbn.NewTrainer(net)
			vars := net.Variables()
			for k := 0; k < 60; k++ {
				s, u := make([]int, len(vars)), make([]float64, len(vars))
				for j := range s {
					s[j] = r.IntN(len(vars[j].Outcomes))
					u[j] = float64(r.IntN(7))
				}
				if x.with != nil {
					s, u = x.with.x[k], x.with.u[k]
				}
				tr.AddSample(s, u)
			}
			_, err := tr.UpdateNetwork()
			fmt.Fprintln(&b, "train", err)
		case 3:
			step("write")
			y, err := bbn.ToYAML(net)
			fmt.Fprintf(&b, "yaml %v %s\n", err, y)
		case 4:
			step("inspect")
			for _, v := range net.Variables() {
				fmt.Fprintf(&b, "%q %v %q %q %v", v.Name, v.NodeType, v.Outcomes, v.Factor.Given, v.Position)
				floats(v.Factor.Table)
			}
		case 5:
			step("operators")
			for k := 0; k < 6; k++ {
				o := &ops[r.IntN(len(ops))]
				f, ok := logic.Get(o.name)
				if !ok {
					fmt.Fprintln(&b, "no operator", o.name)
					continue
				}
				given := o.parents(r)
				args := []int(nil)
				if o.args != nil {
					args = o.args(r, given)
				}
				err := f.SetArgs(args...)
				step("operator table")
				tab, err2 := f.Table(given)
				fmt.Fprint(&b, o.name, args, given, err, err2)
				floats(tab)
			}
		default:
			step("query")
			m, f, err := net.SolveQuery(ev, q, ignore)
			fmt.Fprintln(&b, "query", err)
			for _, name := range sortedKeys(m) {
				fmt.Fprintf(&b, "%q", name)
				floats(m[name])
			}
			if f != nil {
				fac(f)
			}
		}
	}
	return b.String()
}

func checkC17(c *Ctx) {
	run := func(focus string) func(t *T) {
		return func(t *T) {
			dir, rm := scratch(t)
			defer rm()
			const G = 8
			seeds := make([]uint64, G)
			for i := range seeds {
				seeds[i] = t.Uint64()
				if i > 0 && focus == "same" { // the same script everywhere: the same operators, types and formats at the same time
					seeds[i] = seeds[0]
				} else if i > 0 && t.Chance(0.3) {
					seeds[i] = seeds[t.IntN(i)]
				}
			}
			common := t.Uint64()
			parts := func() []conParts { // made anew: what is shared among goroutines was not used before
				r := &T{c: t.c, section: t.section, idx: t.idx, counts: map[string]int64{}, Rand: newRand(common)}
				return []conParts{
					newConParts(r, genID(r, idOpt{chance: r.Range(1, 3), maxJoint: 64})),
					newConParts(r, genForDefect(r)),
				}
			}
			shared := parts()
			want := make([]string, G)
			for i := range want {
				want[i] = conScript(t, seeds[i], dir, focus, shared, func(string) {})
			}
			shared = parts()
			got := make([]string, G)
			crash := make([]any, G)
			var seq atomic.Int64
			logs := make([][]uint32, G)  // per goroutine: global positions of its steps
			names := make([][]string, G) // and what they were
			delay := make([]uint64, G)
			for i := range delay {
				delay[i] = t.Uint64()
			}
			start := make(chan struct{})
			wg := sync.WaitGroup{}
			for i := 0; i < G; i++ {
				wg.Add(1)
				sub := filepath.Join(dir, fmt.Sprint("g", i))
				os.Mkdir(sub, 0o755)
				go func() {
					defer wg.Done()
					defer func() { crash[i] = recover() }()
					d := newRand(delay[i])
					<-start
					got[i] = conScript(t, seeds[i], sub, focus, shared, func(op string) {
						logs[i] = append(logs[i], uint32(seq.Add(1)))
						names[i] = append(names[i], op)
						switch d.IntN(6) {
						case 0:
							runtime.Gosched()
						case 1:
							time.Sleep(time.Duration(d.IntN(80)) * time.Microsecond)
						}
					})
				}()
			}
			close(start)
			wg.Wait()
			order := make([]string, seq.Load()+1)
			for i := range logs {
				for k, p := range logs[i] {
					order[p] = fmt.Sprintf("%d:%s", i, names[i][k])
				}
			}
			for _, o := range order[1:] {
				t.Event("%s", o)
			}
			for i := range got {
				if crash[i] != nil {
					t.Failf("goroutine %d crashed among others: %v", i, crash[i])
				}
				if got[i] != want[i] {
					a, b := strings.Split(want[i], "\n"), strings.Split(got[i], "\n")
					for k := range a {
						if k >= len(b) || a[k] != b[k] {
							g := "nothing"
							if k < len(b) {
								g = b[k]
							}
							t.Failf("goroutine %d, working on its own networks, observed something else than when running alone:\nalone: %s\namong others: %s", i, a[k], g)
						}
					}
					t.Failf("goroutine %d observed more than when running alone", i)
				}
			}
			h := fnv.New64a()
			switches := 0
			for k := 1; k < len(order); k++ {
				h.Write([]byte(order[k]))
				if k > 1 && order[k][0] != order[k-1][0] {
					switches++
				}
			}
			t.Count("concurrent_operations", len(order)-1)
			t.Count("goroutine_switches", switches)
			t.Count("transcripts_compared", G)
			t.Distinct(h.Sum64())
			t.Sample(map[string]any{"goroutines": G, "operations": len(order) - 1, "switches": switches, "interleaving": strings.Join(order[1:min(len(order), 13)], " ")})
		}
	}
	par := 2
	c.SectionPar("mixed", 120, 4000, par, "8 goroutines, each loading (YAML, BIF-XML, files, constructor with own and with common lists, logic, broken texts), solving, querying, training and writing its own networks, with yields and delays injected between calls, under the race detector: no race, and every goroutine observes bit for bit what it observes alone; distinct counts interleavings of the operations", run("mixed"))
	c.SectionPar("logic", 120, 4000, par, "the same with networks built from logic operators with arguments", run("logic"))
	c.SectionPar("same", 120, 4000, par, "the same with all goroutines running the same script on equal texts: the same operators, formats and sizes at the same time", run("same"))
}
