package main

import (
	"bytes"
	"context"
	"encoding/csv"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	"github.com/mlange-42/bbn"
)

func init() {
	checks["C14"] = checkC14
	checks["C15"] = checkC15
}

// record is one training sample: outcome per variable (-1 unknown), value per utility variable (NaN unknown).
type record struct {
	x []int
	u []float64
}

// trained is the definition of training: conditional frequencies and conditional means over the complete
// records of each variable. missing names a table row without data, "" if there is none.
func (n *Net) trained(rs []record) (m *Net, missing string) {
	m = n.clone()
	tot := n.total()
	for i := range n.Vars {
		v := &n.Vars[i]
		if v.Kind == Decision || i == tot {
			continue
		}
		c := n.card(i)
		rows := n.rows(i)
		sums := make([]float64, rows*c)
		cnt := make([]int, rows)
		for _, r := range rs {
			row, ok := 0, true
			for _, p := range v.Parents {
				if r.x[p] < 0 {
					ok = false
					break
				}
				row = row*n.card(p) + r.x[p]
			}
			if !ok {
				continue
			}
			if v.Kind == Utility {
				if math.IsNaN(r.u[i]) {
					continue
				}
				sums[row*c] += r.u[i]
			} else {
				if r.x[i] < 0 {
					continue
				}
				sums[row*c+r.x[i]]++
			}
			cnt[row]++
		}
		for r := range cnt {
			if cnt[r] == 0 && missing == "" {
				missing = fmt.Sprintf("%s row %d", v.Name, r)
			}
			for k := 0; k < c; k++ {
				sums[r*c+k] /= float64(cnt[r])
			}
		}
		m.Vars[i].Table = sums
	}
	return m, missing
}

// genRecords draws samples, mostly complete, with unknown values; cover adds records for every row of every table.
func (n *Net) genRecords(t *T, count int, pMiss float64, cover bool) []record {
	rs := []record{}
	one := func() record {
		r := record{make([]int, len(n.Vars)), make([]float64, len(n.Vars))}
		for j := range n.Vars {
			r.u[j] = math.NaN()
			if n.Vars[j].Kind == Utility {
				r.x[j] = 0
				r.u[j] = math.Round((t.Float64()*200-100)*8) / 8
			} else {
				r.x[j] = t.IntN(n.card(j))
			}
		}
		return r
	}
	blank := func(r record) {
		for j := range n.Vars {
			if t.Chance(pMiss) {
				if n.Vars[j].Kind == Utility {
					r.u[j] = math.NaN()
				} else {
					r.x[j] = -1
				}
			}
		}
	}
	for k := 0; k < count; k++ {
		r := one()
		blank(r)
		rs = append(rs, r)
	}
	if cover {
		for i := range n.Vars {
			if n.Vars[i].Kind == Decision || i == n.total() {
				continue
			}
			for row := 0; row < n.rows(i); row++ {
				for k := 0; k < t.Range(1, 3); k++ {
					r := one()
					x := row
					keepX := map[int]bool{i: true}
					for j := len(n.Vars[i].Parents) - 1; j >= 0; j-- {
						p := n.Vars[i].Parents[j]
						r.x[p] = x % n.card(p)
						x /= n.card(p)
						keepX[p] = true
					}
					for j := range n.Vars {
						if !keepX[j] && t.Chance(pMiss) {
							if n.Vars[j].Kind == Utility {
								r.u[j] = math.NaN()
							} else {
								r.x[j] = -1
							}
						}
					}
					rs = append(rs, r)
				}
			}
		}
	}
	t.Shuffle(len(rs), func(a, b int) { rs[a], rs[b] = rs[b], rs[a] })
	return rs
}

// genTrainable makes a small network with tables that training will replace (or none at all).
func genTrainable(t *T, names string) *Net {
	var n *Net
	switch t.IntN(4) {
	case 0:
		n = genID(t, idOpt{chance: t.Range(0, 4), names: names, maxJoint: 128, cards: pick(t, []string{"binary", "small", "ones"})})
	case 1:
		n = genChanceUtility(t)
	default:
		n = genBN(t, genOpt{nMin: 1, nMax: 5, maxJoint: 512, names: names, cards: pick(t, []string{"binary", "small", "ones", "mixed"})})
	}
	for i := range n.Vars { // bound the tables so that every row gets data
		for n.rows(i) > 64 && n.total() != i && len(n.Vars[i].Parents) > 1 {
			n.Vars[i].Parents = n.Vars[i].Parents[1:]
			switch n.Vars[i].Kind {
			case Chance:
				n.Vars[i].Table = genCPT(t, n.rows(i), n.card(i), "normal")
			case Utility:
				n.Vars[i].Table = make([]float64, n.rows(i))
			}
		}
	}
	mode := t.IntN(3)
	for i := range n.Vars {
		if n.Vars[i].Kind == Decision || i == n.total() {
			continue
		}
		if mode == 1 || (mode == 2 && t.Chance(0.5)) {
			n.Vars[i].Table = nil
		}
	}
	n.plainZeros()
	return n
}

// sameTables compares a network's tables with a description, up to rounding.
func (n *Net) sameTables(net *bbn.Network, scale []record) string {
	for i, v := range net.Variables() {
		w := n.Vars[i].Table
		if n.Vars[i].Kind == Decision {
			if len(v.Factor.Table) != 0 {
				return fmt.Sprintf("decision %q has a table: %v", v.Name, v.Factor.Table)
			}
			continue
		}
		if len(v.Factor.Table) != len(w) {
			return fmt.Sprintf("table of %q has %d values, expected %d", v.Name, len(v.Factor.Table), len(w))
		}
		top := 0.0
		if n.Vars[i].Kind == Utility {
			for _, r := range scale {
				if !math.IsNaN(r.u[i]) {
					top = math.Max(top, math.Abs(r.u[i]))
				}
			}
		}
		for k := range w {
			if !near(v.Factor.Table[k], w[k], 1e-12) && !within(v.Factor.Table[k], w[k], 1e-12, top) {
				return fmt.Sprintf("table of %q is %s, expected %s (entry %d)", v.Name, shortFloats(v.Factor.Table), shortFloats(w), k)
			}
		}
	}
	return ""
}

func checkC14(c *Ctx) {
	add := func(t *T, n *Net, tr *bbn.Trainer, rs []record) {
		x, u := make([]int, len(n.Vars)), make([]float64, len(n.Vars))
		noUtil := len(n.ofKind(Utility)) == 0
		reuse := t.Chance(0.5)
		for _, r := range rs {
			if !reuse {
				x, u = make([]int, len(n.Vars)), make([]float64, len(n.Vars))
			}
			copy(x, r.x)
			copy(u, r.u)
			for j := range u { // entries that are not utilities carry anything
				if n.Vars[j].Kind != Utility {
					u[j] = pick(t, []float64{0, 7, math.NaN()})
				} else {
					x[j] = pick(t, []int{0, 0, -1})
				}
			}
			uu := u
			if noUtil && t.Chance(0.5) {
				uu = nil
			}
			cx, cu := append([]int{}, x...), append([]float64{}, uu...)
			tr.AddSample(x, uu)
			if fmt.Sprint(cx) != fmt.Sprint(x) || !sameBits(cu, append([]float64{}, uu...)) {
				t.Failf("AddSample changed the caller's sample: %v to %v", cx, x)
			}
		}
		t.Count("samples", len(rs))
	}
	c.Section("frequencies", 6000, 120000, "networks of every kind, with or without tables beforehand, random records with unknown values, every table row covered: after UpdateNetwork every chance table is the conditional frequency, every utility table the conditional mean over the records complete for that variable; decisions and total-utility weights unchanged; queries use the new tables", func(t *T) {
		n := genTrainable(t, pick(t, []string{"words", "simple"}))
		net := n.build(t, true)
		if t.Chance(0.3) {
			full := true
			for i := range n.Vars {
				if n.Vars[i].Kind != Decision && n.Vars[i].Table == nil {
					full = false
				}
			}
			if full {
				net.SolvePolicies(true)
				net.SolveQuery(nil, nil, false)
			}
		}
		rs := n.genRecords(t, t.Range(0, 60), pick(t, []float64{0, 0.1, 0.4}), true)
		want, missing := n.trained(rs)
		if missing != "" {
			t.Failf("harness: row without data: %s", missing)
		}
		t.Event("network\n%s%d records", n, len(rs))
		tr := bbn.NewTrainer(net)
		add(t, n, &tr, rs)
		got, err := tr.UpdateNetwork()
		if err != nil {
			t.Failf("UpdateNetwork failed although every row has data: %v\n%s", err, n)
		}
		if got != net {
			t.Failf("UpdateNetwork returned another network")
		}
		if d := want.sameTables(net, rs); d != "" {
			t.Failf("after training on %d records: %s\n%s", len(rs), d, n)
		}
		if len(n.ofKind(Decision)) == 0 && len(n.ofKind(Utility)) == 0 {
			read := fromNetwork(net)
			ev := genEvidence(t, read, 1)
			checkPosterior(t, read, net, ev, pickQuery(t, read, ev, 1), false)
		}
		t.Count("tables_compared", len(n.Vars))
		t.Distinct(n.shape(), len(rs))
		t.Sample(map[string]any{"variables": len(n.Vars), "records": len(rs), "example_table": fmt.Sprint(shortFloats(net.Variables()[0].Factor.Table))})
	})
	c.Section("order", 2000, 40000, "the same records in another order, and split over several UpdateNetwork calls: the same tables", func(t *T) {
		n := genTrainable(t, "simple")
		rs := n.genRecords(t, t.Range(0, 40), 0.2, true)
		want, _ := n.trained(rs)
		netA, netB := n.build(t, false), n.build(t, false)
		ta, tb := bbn.NewTrainer(netA), bbn.NewTrainer(netB)
		cut := t.IntN(len(rs) + 1)
		add(t, n, &ta, rs[:cut])
		ta.UpdateNetwork() // may be refused: rows without data so far
		add(t, n, &ta, rs[cut:])
		if _, err := ta.UpdateNetwork(); err != nil {
			t.Failf("UpdateNetwork failed although every row has data: %v\n%s", err, n)
		}
		sh := append([]record{}, rs...)
		t.Shuffle(len(sh), func(a, b int) { sh[a], sh[b] = sh[b], sh[a] })
		add(t, n, &tb, sh)
		if _, err := tb.UpdateNetwork(); err != nil {
			t.Failf("UpdateNetwork failed although every row has data: %v\n%s", err, n)
		}
		if _, err := tb.UpdateNetwork(); err != nil {
			t.Failf("a second UpdateNetwork failed: %v\n%s", err, n)
		}
		for _, x := range []*bbn.Network{netA, netB} {
			if d := want.sameTables(x, rs); d != "" {
				t.Failf("after training on %d records: %s\n%s", len(rs), d, n)
			}
		}
		t.Count("tables_compared", 2*len(n.Vars))
		t.Distinct(n.shape(), len(rs), cut)
		t.Sample(map[string]any{"variables": len(n.Vars), "records": len(rs), "first_batch": cut})
	})
	c.Section("again", 2000, 40000, "several trainers of one network, one after the other and side by side: the tables are those of the trainer that updated last, from its own samples only; queries in between", func(t *T) {
		n := genTrainable(t, "simple")
		net := n.build(t, false)
		trs := []*bbn.Trainer{}
		own := [][]record{}
		ask := func() {
			if len(n.ofKind(Decision)) == 0 && len(n.ofKind(Utility)) == 0 {
				read := fromNetwork(net)
				ev := genEvidence(t, read, 1)
				checkPosterior(t, read, net, ev, pickQuery(t, read, ev, 1), false)
			}
		}
		steps := ""
		for k := 0; k < t.Range(3, 7); k++ {
			if len(trs) == 0 || t.Chance(0.5) {
				tr := bbn.NewTrainer(net)
				trs, own = append(trs, &tr), append(own, nil)
				steps += "n"
			}
			w := t.IntN(len(trs))
			rs := n.genRecords(t, t.Range(0, 10), 0.1, t.Chance(0.6))
			add(t, n, trs[w], rs)
			own[w] = append(own[w], rs...)
			if t.Chance(0.3) {
				steps += fmt.Sprint("a", w)
				continue
			}
			before := snapNet(net)
			want, missing := n.trained(own[w])
			steps += fmt.Sprint("u", w)
			if _, err := trs[w].UpdateNetwork(); (err != nil) != (missing != "") {
				t.Failf("UpdateNetwork of trainer %d after steps %s: error %v, row without data: %q\n%s", w, steps, err, missing, n)
			} else if err != nil {
				if d := before.diff(net); d != "" {
					t.Failf("refused training changed the network: %s", d)
				}
				continue
			}
			if d := want.sameTables(net, own[w]); d != "" {
				t.Failf("after steps %s, updating with the %d samples of trainer %d: %s\n%s", steps, len(own[w]), w, d, n)
			}
			t.Count("tables_compared", len(n.Vars))
			ask()
		}
		t.Distinct(n.shape(), steps)
		t.Sample(map[string]any{"variables": len(n.Vars), "steps": steps})
	})
	c.Section("many", 40, 800, "70,000..300,000 samples, most of them in one table row or of one outcome", func(t *T) {
		n := genTrainable(t, "simple")
		few := n.genRecords(t, t.Range(1, 10), pick(t, []float64{0, 0.1}), true)
		rs := append([]record{}, few...)
		for count := t.Range(70000, 300000); len(rs) < count; {
			r := few[t.IntN(1+t.IntN(len(few)))]
			for k := t.Range(1, 5000); k > 0; k-- {
				rs = append(rs, r)
			}
		}
		want, _ := n.trained(rs)
		net := n.build(t, true)
		tr := bbn.NewTrainer(net)
		for _, r := range rs {
			tr.AddSample(r.x, r.u)
		}
		if _, err := tr.UpdateNetwork(); err != nil {
			t.Failf("UpdateNetwork failed although every row has data: %v\n%s", err, n)
		}
		if d := want.sameTables(net, rs); d != "" {
			t.Failf("%d samples: %s\n%s", len(rs), d, n)
		}
		t.Count("samples", len(rs))
		t.Distinct(n.shape(), len(rs))
	})
	c.Section("large", 60, 1000, "tables of up to 2^12 rows, up to 300 outcomes and up to 300 variables", func(t *T) {
		var n *Net
		for n == nil || n.total() >= 0 {
			if n = genLargeNet(t); len(n.Vars) < 20 && len(n.Vars) > 8 { // keep the number of rows to cover small
				n = genBN(t, genOpt{nMin: 8, nMax: 12, maxJoint: 1 << 13, maxTable: 1 << 13, structure: "fanin", cards: pick(t, []string{"binary", "small"})})
			}
		}
		rs := n.genRecords(t, t.Range(0, 60), pick(t, []float64{0, 0.01, 0.2}), true)
		want, missing := n.trained(rs)
		if missing != "" {
			t.Failf("harness: row without data: %s", missing)
		}
		net := n.build(t, true)
		t.Event("%d variables, %d records", len(n.Vars), len(rs))
		tr := bbn.NewTrainer(net)
		add(t, n, &tr, rs)
		if _, err := tr.UpdateNetwork(); err != nil {
			t.Failf("UpdateNetwork failed although every row has data: %v", err)
		}
		if d := want.sameTables(net, rs); d != "" {
			t.Failf("after training on %d records: %s", len(rs), d)
		}
		t.Count("tables_compared", len(n.Vars))
		t.Distinct(n.shape(), len(rs))
	})
	c.Section("uncovered", 4000, 80000, "records that leave at least one table row without data: an error, and the network exactly as before", func(t *T) {
		n := genTrainable(t, "simple")
		rs := n.genRecords(t, t.Range(0, 6), pick(t, []float64{0, 0.3, 0.9}), t.Chance(0.6))
		if len(rs) > 0 && t.Chance(0.7) {
			// take away one row's data
			i := t.IntN(len(n.Vars))
			if n.Vars[i].Kind != Decision && i != n.total() {
				row := t.IntN(n.rows(i))
				out := []record{}
				for _, r := range rs {
					k, ok := 0, true
					for _, p := range n.Vars[i].Parents {
						if r.x[p] < 0 {
							ok = false
						}
						k = k*n.card(p) + r.x[p]
					}
					if !ok || k != row {
						out = append(out, r)
					}
				}
				rs = out
			}
		}
		want, missing := n.trained(rs)
		net := n.build(t, true)
		before := snapNet(net)
		tr := bbn.NewTrainer(net)
		add(t, n, &tr, rs)
		_, err := tr.UpdateNetwork()
		if missing == "" {
			if err != nil {
				t.Failf("UpdateNetwork failed although every row has data: %v\n%s", err, n)
			}
			if d := want.sameTables(net, rs); d != "" {
				t.Failf("%s\n%s", d, n)
			}
			return
		}
		if err == nil {
			t.Failf("UpdateNetwork succeeded although there is no data for %s\n%s", missing, n)
		}
		if d := before.diff(net); d != "" {
			t.Failf("refused training changed the network: %s\n%s", d, n)
		}
		t.Count("refusals", 1)
		t.Distinct(n.shape(), missing, len(rs))
		t.Sample(map[string]any{"variables": len(n.Vars), "records": len(rs), "without_data": missing, "error": err.Error()})
	})
}

// ---------------------------------------------------------------- command line

type cliResult struct {
	out, err string
	code     int
}

// cli runs a tool with a deadline in a scratch folder.
func cli(t *T, c *Ctx, dir, tool string, args ...string) cliResult {
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, filepath.Join(c.BinDir, tool), args...)
	cmd.Dir = dir
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	err := cmd.Run()
	t.Event("%s %q -> %v", tool, args, err)
	r := cliResult{o.String(), e.String(), 0}
	if err != nil {
		x, ok := err.(*exec.ExitError)
		if !ok || ctx.Err() != nil {
			if ctx.Err() != nil {
				t.Failf("%s %q did not finish within a minute", tool, args)
			}
			t.Failf("harness: cannot run %s: %v", tool, err)
		}
		r.code = x.ExitCode()
	}
	if strings.Contains(r.err, "goroutine ") || strings.Contains(r.out, "goroutine ") || r.code == 2 {
		t.Failf("%s %q crashed (exit %d): %s%s", tool, args, r.code, r.out, r.err)
	}
	t.Count("tool_runs", 1)
	return r
}

// refused checks that a tool reported an error the documented way.
func (r cliResult) refused(t *T, what string) {
	if r.code != 1 || !strings.HasPrefix(r.out, "ERROR: ") {
		t.Failf("%s: expected exit status 1 and an ERROR line, got status %d and output %q %q", what, r.code, r.out[:min(len(r.out), 800)], r.err[:min(len(r.err), 400)])
	}
	t.Count("refusals", 1)
}

func scratch(t *T) (string, func()) {
	dir, err := os.MkdirTemp("", "vscr")
	if err != nil {
		t.Failf("harness: %v", err)
	}
	return dir, func() { os.RemoveAll(dir) }
}

type csvOpt struct {
	delim  rune
	noData string
	crlf   bool
}

func writeCSV(o csvOpt, rows [][]string) []byte {
	b := bytes.Buffer{}
	w := csv.NewWriter(&b)
	w.Comma = o.delim
	w.UseCRLF = o.crlf
	for _, r := range rows {
		w.Write(r)
	}
	w.Flush()
	return b.Bytes()
}

// respellCSV is writeCSV with optional quotes, blank lines and a missing end of the last line.
func respellCSV(t *T, o csvOpt, rows [][]string) []byte {
	if t.Chance(0.5) {
		return writeCSV(o, rows)
	}
	eol := "\n"
	if o.crlf {
		eol = "\r\n"
	}
	style := t.IntN(3)
	b := bytes.Buffer{}
	for i, r := range rows {
		if style == 1 && t.Chance(0.1) {
			b.WriteString(eol)
		}
		for j, f := range r {
			if j > 0 {
				b.WriteRune(o.delim)
			}
			one := writeCSV(csvOpt{delim: o.delim}, [][]string{{f}})
			one = one[:len(one)-1]
			if (style == 0 || t.Chance(0.3) || (f == "" && len(r) == 1)) && !bytes.HasPrefix(one, []byte{'"'}) {
				one = []byte("\"" + f + "\"")
			}
			b.Write(one)
		}
		if i < len(rows)-1 || style != 2 {
			b.WriteString(eol)
		}
	}
	return b.Bytes()
}

// csvRows lays records out as a table with shuffled columns and columns of other data in between.
func (n *Net) csvRows(t *T, rs []record, o csvOpt) [][]string {
	type col struct {
		v    int
		name string
	}
	cols := []col{}
	for i := range n.Vars {
		cols = append(cols, col{i, n.Vars[i].Name})
	}
	for k := 0; k < t.Range(0, 2); k++ {
		cols = append(cols, col{-1, fmt.Sprintf("zz unused %d", k)})
	}
	if t.Chance(0.8) {
		t.Shuffle(len(cols), func(a, b int) { cols[a], cols[b] = cols[b], cols[a] })
	}
	head := []string{}
	for _, c := range cols {
		head = append(head, c.name)
	}
	rows := [][]string{head}
	for _, r := range rs {
		row := []string{}
		for _, c := range cols {
			switch {
			case c.v < 0:
				row = append(row, pick(t, []string{"", "x", "1", "yes", o.noData}))
			case n.Vars[c.v].Kind == Utility:
				if math.IsNaN(r.u[c.v]) {
					row = append(row, o.noData)
				} else {
					row = append(row, strconv.FormatFloat(r.u[c.v], byte(pick(t, []rune{'f', 'g', 'e'})), -1, 64))
				}
			case r.x[c.v] < 0:
				row = append(row, o.noData)
			default:
				row = append(row, n.Vars[c.v].Outcomes[r.x[c.v]])
			}
		}
		rows = append(rows, row)
	}
	return rows
}

// csvSafe renames outcomes that would coincide with the no-data value or be lost at the ends of a CSV line.
func (n *Net) csvSafe(o csvOpt) {
	for i := range n.Vars {
		for k, s := range n.Vars[i].Outcomes {
			if s == o.noData || s == "" {
				n.Vars[i].Outcomes[k] = s + "x"
			}
		}
	}
}

func genCsvOpt(t *T) csvOpt {
	return csvOpt{pick(t, []rune{',', ',', ';', '\t', '|', ':', ' ', '§', '→'}), pick(t, []string{"", "", "NA", "-", "?", "n/a", "-9999"}), t.Chance(0.2)}
}

func (o csvOpt) flags(t *T) []string {
	a := []string{}
	if o.noData != "" || t.Chance(0.2) {
		if t.Chance(0.5) {
			a = append(a, "--no-data="+o.noData)
		} else {
			a = append(a, "-n", o.noData)
		}
	}
	if o.delim != ',' || t.Chance(0.2) {
		if t.Chance(0.5) {
			a = append(a, "-d", string(o.delim))
		} else {
			a = append(a, "--delim="+string(o.delim))
		}
	}
	return a
}

// writeNet writes the network to a file in one of the formats; untrained networks only as YAML.
func (n *Net) writeNet(t *T, dir string, formats ...string) string {
	ext := pick(t, formats)
	p := filepath.Join(dir, "net."+ext)
	txt := ""
	if ext == "yml" {
		txt = n.yamlText(t, true)
	} else {
		txt = n.xmlText(t)
	}
	if err := os.WriteFile(p, []byte(txt), 0o644); err != nil {
		t.Failf("harness: %v", err)
	}
	t.Event("%s:\n%s", filepath.Base(p), txt)
	return p
}

func checkC15(c *Ctx) {
	c.Section("train", 1500, 20000, "bbn train on generated networks and CSV files (columns in any order, further columns, eight delimiters, seven no-data values, quoting, CRLF, unknown values anywhere): the printed YAML is the network with the conditional frequencies and means of the data, everything else unchanged", func(t *T) {
		n := genTrainable(t, pick(t, []string{"words", "tricky", "simple"}))
		o := genCsvOpt(t)
		n.csvSafe(o)
		n.Info = pick(t, infoTexts)
		dir, rm := scratch(t)
		defer rm()
		rs := n.genRecords(t, t.Range(0, 40), pick(t, []float64{0, 0.15, 0.4}), true)
		if !hasContent(rs, n) {
			t.Skip()
		}
		want, _ := n.trained(rs)
		p := n.writeNet(t, dir, "yml", "yml", "xml")
		if strings.HasSuffix(p, "xml") { // the format has neither
			n.Info, want.Info = "", ""
			for i := range n.Vars {
				n.Vars[i].Color, want.Vars[i].Color = "", ""
			}
		}
		data := respellCSV(t, o, n.csvRows(t, rs, o))
		t.Event("data:\n%s", data)
		d := filepath.Join(dir, pick(t, []string{"data.csv", "data.txt", "d"}))
		os.WriteFile(d, data, 0o644)
		args := append([]string{"train"}, o.flags(t)...)
		args = append(args, p, d)
		r := cli(t, c, dir, "bbn", args...)
		if r.code != 0 {
			t.Failf("bbn train failed (exit %d) although every row has data: %s%s\n%s\n%s", r.code, r.out, r.err, n, data)
		}
		back, err := bbn.FromYAML([]byte(r.out))
		if err != nil {
			t.Failf("bbn train printed something that is not a network: %v\n%s", err, r.out)
		}
		if dd := want.sameTables(back, rs); dd != "" {
			t.Failf("bbn train on %d records: %s\n%s\n%s", len(rs), dd, n, data)
		}
		for i := range want.Vars {
			want.Vars[i].Table = nil
			back.Variables()[i].Factor.Table = nil
		}
		if dd := want.matchesShape(back); dd != "" {
			t.Failf("bbn train changed the network: %s", dd)
		}
		if left, _ := os.ReadDir(dir); len(left) != 2 {
			t.Failf("bbn train left files behind: %v", left)
		}
		t.Count("records", len(rs))
		t.Distinct(n.shape(), len(rs), o)
		t.Sample(map[string]any{"command": strings.Join(append([]string{"bbn"}, args[:len(args)-2]...), " "), "data": string(data[:min(len(data), 400)]), "printed": r.out[:min(len(r.out), 600)]})
	})
	c.Section("large", 24, 300, "the same with up to 200,000 records, up to 300 columns or lines of up to 300 kB", func(t *T) {
		n := genBN(t, genOpt{nMin: 1, nMax: 4, maxJoint: 24, names: "words", cards: "small"})
		if t.Chance(0.3) {
			n = genChanceUtility(t)
		}
		o := genCsvOpt(t)
		n.csvSafe(o)
		dir, rm := scratch(t)
		defer rm()
		mode := t.IntN(3)
		few := n.genRecords(t, t.Range(20, 60), pick(t, []float64{0, 0.1}), true)
		rs := few
		if mode == 0 { // repetitions of a few records
			for len(rs) < 70000 || (len(rs) < 200000 && t.Chance(0.99999)) {
				rs = append(rs, few[t.IntN(len(few))])
			}
		}
		rows := n.csvRows(t, rs, o)
		switch mode {
		case 1:
			k := t.Range(100, 300)
			for i := range rows {
				pad := make([]string, k)
				for j := range pad {
					pad[j] = fmt.Sprint("c", j)
				}
				rows[i] = append(pad, rows[i]...)
			}
		case 2:
			long := strings.Repeat("x y", t.Range(20000, 100000))
			for i := range rows {
				f := ""
				if i == 0 {
					f = "remarks"
				} else if t.Chance(0.2) {
					f = long
				}
				rows[i] = append([]string{f}, rows[i]...)
			}
		}
		want, _ := n.trained(rs)
		p := n.writeNet(t, dir, "yml")
		d := filepath.Join(dir, "data.csv")
		os.WriteFile(d, writeCSV(o, rows), 0o644)
		args := append([]string{"train"}, o.flags(t)...)
		r := cli(t, c, dir, "bbn", append(args, p, d)...)
		if r.code != 0 {
			t.Failf("bbn train failed (exit %d) although every row has data: %s%s\n%s", r.code, r.out, r.err, n)
		}
		back, err := bbn.FromYAML([]byte(r.out))
		if err != nil {
			t.Failf("bbn train printed something that is not a network: %v\n%s", err, r.out)
		}
		if dd := want.sameTables(back, rs); dd != "" {
			t.Failf("bbn train on %d records: %s\n%s", len(rs), dd, n)
		}
		t.Count("records", len(rs))
		t.Distinct(n.shape(), len(rs), o)
		t.Sample(map[string]any{"records": len(rs), "columns": len(rows[0])})
	})
	c.Section("refused", 1500, 20000, "one defect in an otherwise good training run (unknown outcome, not a number, missing column, ragged line, no data for a row, no-data value that is an outcome, bad delimiter, missing files, missing arguments): exit status 1 with an error, nothing printed as network, network file unchanged", func(t *T) {
		n := genTrainable(t, "words")
		o := genCsvOpt(t)
		n.csvSafe(o)
		dir, rm := scratch(t)
		defer rm()
		rs := n.genRecords(t, t.Range(1, 10), 0.1, true)
		p := n.writeNet(t, dir, "yml")
		text, _ := os.ReadFile(p)
		rows := n.csvRows(t, rs, o)
		args := append([]string{"train"}, o.flags(t)...)
		d := filepath.Join(dir, "data.csv")
		data := []byte(nil)
		ncol := len(rows[0])
		colOf := func(i int) int {
			for j, h := range rows[0] {
				if h == n.Vars[i].Name {
					return j
				}
			}
			return -1
		}
		what := ""
		files := []string{p, d}
		switch t.IntN(9) {
		case 0:
			i := pick(t, append(n.ofKind(Chance), n.ofKind(Decision)...))
			rows[t.Range(1, len(rows)-1)][colOf(i)] = pick(t, []string{"no such outcome", "YES!", n.Vars[i].Outcomes[0] + " "})
			what = "unknown outcome"
		case 1:
			us := n.ofKind(Utility)
			if len(us) == 0 {
				t.Skip()
			}
			bad := pick(t, []string{"abc", "1,5.2", "12x", "--1", "", " ", "1 2", "NA", "1e", "."})
			if bad == o.noData {
				bad = "abc"
			}
			rows[t.Range(1, len(rows)-1)][colOf(pick(t, us))] = bad
			what = "utility that is not a number"
		case 2:
			rows[0][colOf(t.IntN(len(n.Vars)))] = "renamed column"
			what = "missing column"
		case 3:
			if ncol < 2 {
				t.Skip()
			}
			k := t.Range(1, len(rows)-1)
			if t.Chance(0.5) && ncol > 2 {
				rows[k] = rows[k][:ncol-1]
			} else {
				rows[k] = append(rows[k], "x")
			}
			what = "ragged line"
		case 4:
			i := pick(t, append(n.ofKind(Chance), n.ofKind(Utility)...))
			// nothing known about variable i
			for _, r := range rows[1:] {
				r[colOf(i)] = o.noData
			}
			what = "no data for " + n.Vars[i].Name
		case 5:
			i := t.IntN(len(n.Vars))
			args = append([]string{"train"}, "-d", string(o.delim), "--no-data="+pick(t, n.Vars[i].Outcomes))
			what = "no-data value is an outcome"
		case 6:
			args = append([]string{"train"}, "-d", pick(t, []string{"", "ab", ";;"}))
			what = "bad delimiter"
		case 7:
			files[t.IntN(2)] = filepath.Join(dir, "missing.yml")
			what = "missing file"
		case 8:
			files = files[:t.IntN(2)]
			what = "missing argument"
		}
		data = writeCSV(o, rows)
		if t.Chance(0.02) {
			data = nil
			what += ", empty data file"
		}
		os.WriteFile(d, data, 0o644)
		r := cli(t, c, dir, "bbn", append(args, files...)...)
		r.refused(t, "bbn train with "+what)
		if strings.Contains(r.out, "variables:") {
			t.Failf("bbn train with %s printed a network:\n%s", what, r.out)
		}
		if now, _ := os.ReadFile(p); !bytes.Equal(now, text) {
			t.Failf("bbn train changed the network file")
		}
		t.Distinct(n.shape(), what)
		t.Sample(map[string]any{"defect": what, "message": strings.SplitN(r.out, "\n", 2)[0]})
	})
	c.Section("examples", 4, 4, "the example of the documentation (fruits), the trained tables against the frequencies in the example data", func(t *T) {
		ex := filepath.Join(repoDir(), "_examples", "bbn")
		netFile := filepath.Join(ex, "fruits-untrained.yml")
		b, err := os.ReadFile(filepath.Join(ex, "fruits.csv"))
		if err != nil {
			t.Skip()
		}
		net, err := bbn.FromFile(netFile)
		if err != nil {
			t.Failf("example refused: %v", err)
		}
		n := fromNetwork(net)
		rows, err := csv.NewReader(bytes.NewReader(b)).ReadAll()
		if err != nil {
			t.Skip()
		}
		rs := []record{}
		for _, row := range rows[1:] {
			r := record{make([]int, len(n.Vars)), make([]float64, len(n.Vars))}
			for i := range n.Vars {
				r.x[i] = -1
				for j, h := range rows[0] {
					if h == n.Vars[i].Name {
						for k, o := range n.Vars[i].Outcomes {
							if o == row[j] {
								r.x[i] = k
							}
						}
					}
				}
			}
			rs = append(rs, r)
		}
		want, missing := n.trained(rs)
		if missing != "" {
			t.Skip()
		}
		dir, rm := scratch(t)
		defer rm()
		r := cli(t, c, dir, "bbn", "train", netFile, filepath.Join(ex, "fruits.csv"))
		if r.code != 0 {
			t.Failf("bbn train failed on the documented example: %s%s", r.out, r.err)
		}
		back, err := bbn.FromYAML([]byte(r.out))
		if err != nil {
			t.Failf("bbn train printed something that is not a network: %v", err)
		}
		if d := want.sameTables(back, rs); d != "" {
			t.Failf("documented example: %s", d)
		}
		t.Distinct("fruits")
		t.Sample("fruits")
	})
}

// hasContent: a CSV line that is empty altogether is no line; such files carry fewer records but the same data.
func hasContent(rs []record, n *Net) bool { return len(rs) > 0 && len(n.Vars) > 0 }

// matchesShape compares everything but the tables.
func (n *Net) matchesShape(net *bbn.Network) string {
	m := n.clone()
	for i := range m.Vars {
		m.Vars[i].Table = nil
	}
	return m.matches(net, true, true)
}
