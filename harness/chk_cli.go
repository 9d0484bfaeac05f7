package main

import (
	"encoding/csv"
	"fmt"
	"math"
	"math/rand/v2"
	"os"
	"path/filepath"
	"slices"
	"strconv"
	"strings"

	"github.com/mlange-42/bbn"
	"github.com/mlange-42/bbn/ve"
)

func init() {
	checks["C16"] = checkC16
	checks["C22"] = checkC22
}

// shown is what the tools display for one variable: numbers (percent or utilities), exact reference and tolerance.
type shown struct {
	val []float64
	tol []float64
}

// expectedDisplay computes, from the reference semantics, what the tools have to show for every variable.
// nil entries: the evidence is impossible, so no number may be shown. ignore: policies of decisions with evidence are cut.
func (n *Net) expectedDisplay(ev map[int]int, pols map[int]*RF, ignore bool) ([]shown, bool) {
	use := pols
	if ignore {
		use = withoutEvidence(pols, ev)
	}
	fs := n.probRFs(use)
	pe := n.eval(fs, nil, ev)[0]
	out := make([]shown, len(n.Vars))
	const half = 0.0005 + 2e-6
	tot := n.total()
	var tv, ts float64
	if len(n.ofKind(Utility)) > 0 && pe > 0 {
		v, s := n.expUtility(-1, nil, ev, use)
		tv, ts = v[0]/pe, s[0]/pe
	}
	for i := range n.Vars {
		switch {
		case n.Vars[i].Kind != Utility:
			if o, ok := ev[i]; ok {
				r := make([]float64, n.card(i))
				r[o] = 100
				out[i].val = r
			} else if pe > 0 {
				m := normalized(n.eval(fs, []int{i}, ev))
				for k := range m {
					m[k] *= 100
				}
				out[i].val = m
			}
			for range out[i].val {
				out[i].tol = append(out[i].tol, half)
			}
		case pe == 0:
		case i == tot:
			for j, p := range n.Vars[i].Parents {
				v, s := n.expUtility(p, nil, ev, use)
				w := n.Vars[i].Table[j]
				out[i].val = append(out[i].val, v[0]/pe*w)
				out[i].tol = append(out[i].tol, half+1e-8*s[0]/pe*math.Abs(w))
			}
			out[i].val = append(out[i].val, tv)
			out[i].tol = append(out[i].tol, half+1e-8*ts)
		default:
			v, s := n.expUtility(i, nil, ev, use)
			out[i].val = []float64{v[0] / pe, tv}
			out[i].tol = []float64{half + 1e-8*s[0]/pe, half + 1e-8*ts}
		}
	}
	return out, pe > 0
}

func cliSafe(s string) bool { return !strings.ContainsAny(s, "=,\"\n\r") && strings.TrimSpace(s) == s }

// cliNames makes every name and outcome usable in an evidence argument.
func (n *Net) cliNames() {
	fix := func(s string) string {
		s = strings.NewReplacer("=", "eq", ",", ";", "\"", "'").Replace(s)
		return strings.TrimSpace(s)
	}
	for i := range n.Vars {
		n.Vars[i].Name = fix(n.Vars[i].Name)
		for k := range n.Vars[i].Outcomes {
			n.Vars[i].Outcomes[k] = fix(n.Vars[i].Outcomes[k])
		}
	}
}

func (n *Net) uniqueNames() bool {
	seen := map[string]bool{}
	for i := range n.Vars {
		if n.Vars[i].Name == "" || seen[n.Vars[i].Name] {
			return false
		}
		seen[n.Vars[i].Name] = true
		so := map[string]bool{}
		for _, o := range n.Vars[i].Outcomes {
			if o == "" || so[o] {
				return false
			}
			so[o] = true
		}
	}
	return true
}

// genShow makes a small network of any kind for the tools.
func genShow(t *T, names string) *Net {
	var n *Net
	switch t.IntN(5) {
	case 0, 1:
		n = genID(t, idOpt{chance: t.Range(0, 4), names: names, maxJoint: 256})
	case 2:
		n = genChanceUtility(t)
	default:
		n = genBN(t, genOpt{nMin: 1, nMax: 7, maxJoint: 1 << 10, names: names, cards: pick(t, []string{"binary", "small", "ones", "mixed"})})
	}
	for i := range n.Vars {
		n.Vars[i].Pos = [2]int{t.Range(0, 60), t.Range(0, 30)}
		if t.Chance(0.3) {
			n.Vars[i].Color = pick(t, tuiColors)
		}
	}
	n.plainZeros()
	return n
}

// refPolicies asks the library for the policies the tools use (C04 and C05 decide their quality).
func refPolicies(t *T, n *Net, file string) map[int]*RF {
	net, err := bbn.FromFile(file)
	if err != nil {
		t.Failf("valid network refused: %v\n%s", err, n)
	}
	_, pols := solvePolicies(t, n, net, true)
	return pols
}

// parseNumber reads a displayed number.
func parseNumber(s string) (float64, bool) {
	x, err := strconv.ParseFloat(strings.TrimSuffix(s, "%"), 64)
	return x, err == nil
}

func checkC16(c *Ctx) {
	judge := func(t *T, n *Net, ev map[int]int, pols map[int]*RF, r cliResult) {
		if r.code != 0 {
			t.Failf("bbn inference failed (exit %d) on a valid query: %s%s\n%s", r.code, r.out, r.err, n)
		}
		want, possible := n.expectedDisplay(ev, pols, false)
		lines := strings.Split(strings.TrimRight(r.out, "\n"), "\n")
		if len(lines) != 2*len(n.Vars) {
			t.Failf("bbn inference printed %d lines for %d variables:\n%s", len(lines), len(n.Vars), r.out)
		}
		for i := range n.Vars {
			v := &n.Vars[i]
			head, line := lines[2*i], lines[2*i+1]
			if strings.Join(strings.Fields(head), " ") != strings.Join(strings.Fields(strings.Join(v.Outcomes, " ")), " ") {
				t.Failf("outcome header of %q is %q, expected %q\n%s", v.Name, head, v.Outcomes, r.out)
			}
			body := strings.TrimLeft(line, " ")
			name := strings.TrimLeft(v.Name, " ")
			if !strings.HasPrefix(body, name) {
				t.Failf("line %d is not about %q: %q", 2*i+2, v.Name, line)
			}
			fields := strings.Fields(strings.TrimPrefix(body, name))
			mark := false
			if k := len(fields); k > 0 && fields[k-1] == "+" {
				mark = true
				fields = fields[:k-1]
			}
			if _, ok := ev[i]; ok != mark {
				t.Failf("evidence mark of %q is %v, expected %v: %q", v.Name, mark, ok, line)
			}
			if want[i].val == nil { // impossible evidence: no figures
				for _, f := range fields {
					if x, ok := parseNumber(f); ok && !math.IsNaN(x) {
						t.Failf("%q shows %s although the evidence %v is impossible\n%s", v.Name, f, n.evidenceNames(ev), r.out)
					}
				}
				t.Count("impossible_lines", 1)
				continue
			}
			if len(fields) != len(want[i].val) {
				t.Failf("%q shows %d numbers, expected %d: %q", v.Name, len(fields), len(want[i].val), line)
			}
			for k, f := range fields {
				x, ok := parseNumber(f)
				if !ok || math.Abs(x-want[i].val[k]) > want[i].tol[k] || (v.Kind != Utility) != strings.HasSuffix(f, "%") {
					t.Failf("%q shows %s at position %d, exact value %.6f (evidence %v)\n%s\n%s", v.Name, f, k, want[i].val[k], n.evidenceNames(ev), r.out, n)
				}
				t.Count("numbers_compared", 1)
			}
		}
		if !possible {
			t.Count("impossible_evidence", 1)
		}
		t.Distinct(n.shape(), ev)
		t.Sample(map[string]any{"evidence": n.evidenceNames(ev), "printed": r.out[:min(len(r.out), 800)]})
	}
	evArgs := func(t *T, n *Net, ev map[int]int) []string {
		pairs := []string{}
		for _, i := range sortedIntKeys(ev) {
			pairs = append(pairs, n.Vars[i].Name+"="+n.Vars[i].Outcomes[ev[i]])
		}
		t.Shuffle(len(pairs), func(a, b int) { pairs[a], pairs[b] = pairs[b], pairs[a] })
		args := []string{}
		for len(pairs) > 0 {
			k := t.Range(1, len(pairs))
			s := strings.Join(pairs[:k], ",")
			pairs = pairs[k:]
			switch t.IntN(3) {
			case 0:
				args = append(args, "-e", s)
			case 1:
				args = append(args, "--evidence="+s)
			default:
				args = append(args, "--evidence", s)
			}
		}
		return args
	}
	c.Section("odd names", 600, 10000, "the same with names and outcomes that contain commas, quotes, equals signs and spaces at the ends, evidence quoted as in CSV (none on names with an equals sign)", func(t *T) {
		n := genShow(t, pick(t, []string{"words", "simple", "tricky"}))
		n.cliNames()
		odd := func(s string) string {
			if t.Chance(0.6) {
				return s
			}
			return pick(t, []string{s + " ", " " + s, " " + s + "  ", s + ",", s + ", b", "," + s, "\"" + s + "\"", s + "\"", "a=" + s, s + "=", "'" + s, s + ";" + s, s + "  x"})
		}
		for i := range n.Vars {
			v := &n.Vars[i]
			v.Name = odd(v.Name)
			for k := range v.Outcomes {
				v.Outcomes[k] = odd(v.Outcomes[k])
			}
		}
		if !n.uniqueNames() {
			t.Skip()
		}
		dir, rm := scratch(t)
		defer rm()
		p := n.writeNet(t, dir, "yml")
		pols := refPolicies(t, n, p)
		ev, _ := genMixedQuery(t, n, pols, 4, 0, Chance, Decision)
		for _, i := range sortedIntKeys(ev) {
			if strings.Contains(n.Vars[i].Name+n.Vars[i].Outcomes[ev[i]], "=") {
				delete(ev, i)
			}
		}
		args := []string{"inference", p}
		for _, i := range sortedIntKeys(ev) {
			var b strings.Builder
			w := csv.NewWriter(&b)
			w.Write([]string{n.Vars[i].Name + "=" + n.Vars[i].Outcomes[ev[i]]})
			w.Flush()
			s := strings.TrimSuffix(b.String(), "\n")
			if k := len(args); k > 2 && t.Chance(0.5) {
				args[k-1] += "," + s
				continue
			}
			args = append(args, "-e", s)
		}
		judge(t, n, ev, pols, cli(t, c, dir, "bbn", args...))
	})
	c.Section("networks", 1500, 30000, "bbn inference on generated chance, decision and utility networks in YAML and BIF-XML, evidence on any variables in any spelling of the option: every printed percentage, utility, total and evidence mark against the exact value", func(t *T) {
		n := genShow(t, pick(t, []string{"words", "simple", "tricky"}))
		n.cliNames()
		if !n.uniqueNames() {
			t.Skip()
		}
		dir, rm := scratch(t)
		defer rm()
		p := n.writeNet(t, dir, "yml", "xml")
		pols := refPolicies(t, n, p)
		for q := 0; q < 2; q++ {
			ev, _ := genMixedQuery(t, n, pols, 3, 0, Chance, Decision)
			if t.Chance(0.3) {
				x := n.sampleJoint(t, nil)
				ev = map[int]int{}
				for _, i := range append(n.ofKind(Chance), n.ofKind(Decision)...) {
					if t.Chance(0.4) {
						ev[i] = x[i]
					}
				}
			}
			if t.Chance(0.1) { // any combination, also impossible ones
				for i := range ev {
					ev[i] = t.IntN(n.card(i))
				}
			}
			args := []string{"inference", p}
			args = append(args, evArgs(t, n, ev)...)
			if t.Chance(0.5) {
				args = append(append([]string{"inference"}, evArgs(t, n, ev)...), p)
			}
			judge(t, n, ev, pols, cli(t, c, dir, "bbn", args...))
		}
	})
	c.Section("large", 150, 2000, "the same with 20..120 variables, or with up to 300 outcomes", func(t *T) {
		var n *Net
		for n == nil || n.elimCost(nil, nil) > 1<<13 {
			n = genBN(t, genOpt{nMin: 20, nMax: 120, maxJoint: math.MaxInt, maxTable: 512, structure: pick(t, []string{"chain", "tree", "forest", "grid", "star"}), cards: pick(t, []string{"binary", "small", "ones"}), names: "simple"})
			if t.Chance(0.3) {
				n = genBN(t, genOpt{nMin: 1, nMax: 4, maxJoint: 1 << 13, maxTable: 1 << 12, cards: "big", names: "words"})
			}
		}
		n.cliNames()
		if !n.uniqueNames() {
			t.Skip()
		}
		dir, rm := scratch(t)
		defer rm()
		p := n.writeNet(t, dir, "yml", "xml")
		ev := genEvidence(t, n, pick(t, []int{0, 1, 5, len(n.Vars) / 2, len(n.Vars)}))
		t.Event("bbn inference on %d variables, %d observed", len(n.Vars), len(ev))
		judge(t, n, ev, nil, cli(t, c, dir, "bbn", append([]string{"inference", p}, evArgs(t, n, ev)...)...))
	})
	c.Section("examples", 40, 400, "the example networks of the repository with random evidence", func(t *T) {
		files, _ := filepath.Glob(filepath.Join(repoDir(), "_examples", "*", "*.*ml"))
		if len(files) == 0 {
			t.Skip()
		}
		f := files[t.idx%len(files)]
		net, err := bbn.FromFile(f)
		if err != nil {
			t.Failf("example %s refused: %v", filepath.Base(f), err)
		}
		n := fromNetwork(net)
		for i := range n.Vars {
			if n.Vars[i].Kind != Decision && n.Vars[i].Table == nil {
				t.Skip()
			}
			for _, o := range append([]string{n.Vars[i].Name}, n.Vars[i].Outcomes...) {
				if !cliSafe(o) {
					t.Skip()
				}
			}
		}
		if n.jointSize() > 1<<18 {
			t.Skip()
		}
		pols := refPolicies(t, n, f)
		ev, _ := genMixedQuery(t, n, pols, 3, 0, Chance)
		dir, rm := scratch(t)
		defer rm()
		judge(t, n, ev, pols, cli(t, c, dir, "bbn", append([]string{"inference", f}, evArgs(t, n, ev)...)...))
	})
	c.Section("refused", 1200, 15000, "unknown variable, unknown outcome, evidence on a utility node, malformed evidence, missing or unsupported file, missing argument: exit status 1 and an error line, no figures", func(t *T) {
		n := genShow(t, "words")
		dir, rm := scratch(t)
		defer rm()
		p := n.writeNet(t, dir, "yml", "xml")
		pols := refPolicies(t, n, p)
		ev, _ := genMixedQuery(t, n, pols, 2, 0, Chance)
		args := evArgs(t, n, ev)
		what := ""
		i := pick(t, append(n.ofKind(Chance), n.ofKind(Decision)...))
		switch t.IntN(7) {
		case 0:
			args = append(args, "-e", "no such variable=yes")
			what = "unknown variable"
		case 1:
			args = []string{"-e", n.Vars[i].Name + "=" + pick(t, []string{"no such outcome", "", "YES ", n.Vars[i].Outcomes[0] + "x"})}
			what = "unknown outcome"
		case 2:
			us := n.ofKind(Utility)
			if len(us) == 0 {
				t.Skip()
			}
			u := pick(t, us)
			args = append(args, "-e", n.Vars[u].Name+"="+n.Vars[u].Outcomes[0])
			what = "evidence on a utility node"
		case 3:
			args = append(args, "-e", pick(t, []string{n.Vars[i].Name, n.Vars[i].Name + "=" + n.Vars[i].Outcomes[0] + "=x", "=", "a=b=c", "yes"}))
			what = "malformed evidence"
		case 4:
			p = filepath.Join(dir, pick(t, []string{"missing.yml", "missing.xml", "missing"}))
			what = "missing file"
		case 5:
			b, _ := os.ReadFile(p)
			p = filepath.Join(dir, pick(t, []string{"net.txt", "net.json", "net"}))
			os.WriteFile(p, b, 0o644)
			what = "unsupported file type"
		case 6:
			what = "missing argument"
			cli(t, c, dir, "bbn", append([]string{"inference"}, args...)...).refused(t, what)
			return
		}
		r := cli(t, c, dir, "bbn", append([]string{"inference", p}, args...)...)
		r.refused(t, "bbn inference with "+what)
		if strings.Contains(r.out, "%") {
			t.Failf("bbn inference with %s printed figures:\n%s", what, r.out)
		}
		t.Distinct(n.shape(), what)
		t.Sample(map[string]any{"defect": what, "args": fmt.Sprint(args), "message": strings.SplitN(r.out, "\n", 2)[0]})
	})
}

func checkC22(c *Ctx) {
	// one script of calls; everything observable goes into the transcript
	script := func(t *T, n *Net, seed uint64, maxQ int) string {
		r := &T{c: t.c, section: t.section, idx: t.idx, counts: map[string]int64{}, Rand: newRand(seed)}
		net := n.build(r, false)
		b := strings.Builder{}
		fac := func(f *ve.Factor) {
			for _, v := range f.Variables() {
				fmt.Fprintf(&b, "%d ", v.Id())
			}
			for _, x := range f.Data() {
				fmt.Fprintf(&b, "%x ", math.Float64bits(x))
			}
			b.WriteByte('\n')
		}
		evShare, qShare := 0.35, 0.4
		if maxQ > 2 { // large results
			evShare, qShare = 0.1, 0.9
		}
		for k := 0; k < 6; k++ {
			ev := map[string]string{}
			x := n.sampleJoint(r, nil)
			for _, i := range append(n.ofKind(Chance), n.ofKind(Decision)...) {
				if r.Chance(evShare) {
					ev[n.Vars[i].Name] = n.Vars[i].Outcomes[x[i]]
				}
			}
			q := []string{}
			for _, i := range append(n.ofKind(Chance), n.ofKind(Decision)...) {
				if _, ok := ev[n.Vars[i].Name]; !ok && len(q) < maxQ && r.Chance(qShare) {
					q = append(q, n.Vars[i].Name)
				}
			}
			ignore := r.Chance(0.5)
			switch r.IntN(4) {
			case 0:
				pol, err := net.SolvePolicies(r.Chance(0.5))
				fmt.Fprintln(&b, "policies", err)
				for _, name := range sortedKeys(pol) {
					fmt.Fprintf(&b, "%q %q", name, pol[name].Given)
					for _, v := range pol[name].Table {
						fmt.Fprintf(&b, " %x", math.Float64bits(v))
					}
					b.WriteByte('\n')
				}
			case 1:
				f, err := net.SolveUtility(ev, q, "", ignore)
				fmt.Fprintln(&b, "utility", err)
				if f != nil {
					fac(f)
				}
			default:
				m, f, err := net.SolveQuery(ev, q, ignore)
				fmt.Fprintln(&b, "query", err)
				for _, name := range sortedKeys(m) {
					fmt.Fprintf(&b, "%q", name)
					for _, v := range m[name] {
						fmt.Fprintf(&b, " %x", math.Float64bits(v))
					}
					b.WriteByte('\n')
				}
				if f != nil {
					fac(f)
				}
			}
		}
		y, err := bbn.ToYAML(net)
		fmt.Fprintf(&b, "%v %s", err, y)
		return b.String()
	}
	repeat := func(t *T, n *Net, maxQ int) {
		seed := t.Uint64()
		first := script(t, n, seed, maxQ)
		for k := 1; k < 6; k++ {
			if again := script(t, n, seed, maxQ); again != first {
				a, b := strings.Split(first, "\n"), strings.Split(again, "\n")
				for i := range a {
					if i >= len(b) || a[i] != b[i] {
						t.Event("first: %s", a[i])
						if i < len(b) {
							t.Event("then:  %s", b[i])
						}
						break
					}
				}
				t.Failf("the same calls on the same network gave different answers (repetition %d)\n%s", k, n)
			}
			t.Count("repetitions_compared", 1)
		}
		t.Distinct(n.shape(), seed)
		t.Sample(map[string]any{"variables": len(n.Vars), "transcript_bytes": len(first)})
	}
	c.Section("library", 2500, 50000, "one network and one script of six policy, query, utility and write calls, run on six fresh instances (map and goroutine order differ every time): identical bits, factor layouts and texts", func(t *T) {
		n := genShow(t, pick(t, []string{"words", "simple"}))
		if t.Chance(0.5) {
			n = genID(t, idOpt{chance: t.Range(1, 5), exact: t.Chance(0.3)})
		}
		repeat(t, n, 2)
	})
	c.Section("large", 60, 1000, "the same on networks of up to 2^18 assignments, up to 18 variables asked for together", func(t *T) {
		n := genID(t, idOpt{chance: t.Range(6, 14), maxJoint: pick(t, []int{1 << 13, 1 << 16, 1 << 18}), cards: pick(t, []string{"binary", "small", "mixed"})})
		if t.Chance(0.4) {
			n, _ = genBig(t)
			n = addUtilities(t, n)
		}
		repeat(t, n, 1000)
	})
	c.Section("commands", 150, 3000, "bbn inference six times with the same evidence, listed in different orders: identical output", func(t *T) {
		n := genShow(t, "words")
		n.cliNames()
		if !n.uniqueNames() {
			t.Skip()
		}
		dir, rm := scratch(t)
		defer rm()
		p := n.writeNet(t, dir, "yml", "xml")
		x := n.sampleJoint(t, nil)
		pairs := []string{}
		for _, i := range append(n.ofKind(Chance), n.ofKind(Decision)...) {
			if t.Chance(0.3) {
				pairs = append(pairs, n.Vars[i].Name+"="+n.Vars[i].Outcomes[x[i]])
			}
		}
		first := ""
		for k := 0; k < 6; k++ {
			t.Shuffle(len(pairs), func(a, b int) { pairs[a], pairs[b] = pairs[b], pairs[a] })
			args := []string{"inference", p}
			if len(pairs) > 0 {
				args = append(args, "-e", strings.Join(pairs, ","))
			}
			r := cli(t, c, dir, "bbn", args...)
			if k == 0 {
				first = r.out
			} else if r.out != first {
				t.Failf("bbn inference with the same evidence %v printed different results:\n%s\n%s\n%s", pairs, first, r.out, n)
			}
		}
		t.Distinct(n.shape(), pairs)
		t.Sample(map[string]any{"evidence": pairs, "printed": first[:min(len(first), 300)]})
	})
	c.Section("trained", 1500, 30000, "one network and one list of samples, with utilities whose sums depend on the order of additions, trained on six fresh instances: identical bits in all tables, identical text", func(t *T) {
		n := genTrainable(t, pick(t, []string{"words", "simple"}))
		for k := 0; k < 5 && len(n.ofKind(Utility)) == 0; k++ {
			n = genTrainable(t, "simple")
		}
		rs := n.genRecords(t, t.Range(5, 60), pick(t, []float64{0, 0.15}), true)
		n.unevenUtilities(t, rs)
		first := ""
		for k := 0; k < 6; k++ {
			net := n.build(t, true)
			tr := bbn.NewTrainer(net)
			for _, r := range rs {
				tr.AddSample(slices.Clone(r.x), slices.Clone(r.u))
			}
			net, err := tr.UpdateNetwork()
			if err != nil {
				t.Failf("training with data for every row failed: %v\n%s", err, n)
			}
			var b strings.Builder
			for _, v := range net.Variables() {
				for _, x := range v.Factor.Table {
					fmt.Fprintf(&b, "%x ", math.Float64bits(x))
				}
			}
			y, err := bbn.ToYAML(net)
			fmt.Fprintf(&b, "%v %s", err, y)
			if k == 0 {
				first = b.String()
			} else if b.String() != first {
				t.Failf("training with the same samples gave different tables (repetition %d):\n%s\n%s", k, first, b.String())
			}
			t.Count("trainings_compared", 1)
		}
		t.Distinct(n.shape(), first)
		t.Sample(map[string]any{"records": len(rs), "utilities": len(n.ofKind(Utility))})
	})
	c.Section("training", 100, 2000, "bbn train three times on the same files: identical output", func(t *T) {
		n := genTrainable(t, "words")
		o := genCsvOpt(t)
		n.csvSafe(o)
		dir, rm := scratch(t)
		defer rm()
		rs := n.genRecords(t, t.Range(5, 40), pick(t, []float64{0, 0.15}), true)
		if !hasContent(rs, n) {
			t.Skip()
		}
		n.unevenUtilities(t, rs)
		p := n.writeNet(t, dir, "yml", "xml")
		d := filepath.Join(dir, "data.csv")
		os.WriteFile(d, respellCSV(t, o, n.csvRows(t, rs, o)), 0o644)
		args := append(append([]string{"train"}, o.flags(t)...), p, d)
		first := ""
		for k := 0; k < 3; k++ {
			r := cli(t, c, dir, "bbn", args...)
			if r.code != 0 {
				t.Failf("bbn train failed (exit %d): %s%s\n%s", r.code, r.out, r.err, n)
			}
			if k == 0 {
				first = r.out
			} else if r.out != first {
				t.Failf("bbn train on the same files printed different results:\n%s\n%s", first, r.out)
			}
		}
		t.Distinct(n.shape(), first)
		t.Sample(map[string]any{"records": len(rs), "printed": first[:min(len(first), 300)]})
	})
}

func newRand(seed uint64) *rand.Rand { return rand.New(rand.NewPCG(seed, 7)) }

// unevenUtilities replaces the utilities of the records by values whose sum depends on the order of additions.
func (n *Net) unevenUtilities(t *T, rs []record) {
	for _, r := range rs {
		for j := range n.Vars {
			if n.Vars[j].Kind == Utility && !math.IsNaN(r.u[j]) {
				r.u[j] = (t.Float64()*2 - 1) * math.Pow(10, float64(t.IntN(5)))
			}
		}
	}
}
