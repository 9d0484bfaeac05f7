package main

import (
	"bytes"
	"encoding/xml"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"slices"
	"strconv"
	"strings"

	"github.com/mlange-42/bbn"
	"github.com/mlange-42/bbn/ve"
)

func init() {
	checks["C10"] = checkC10
	checks["C11"] = checkC11
}

// yq writes a YAML double-quoted scalar.
func yq(s string) string {
	b := strings.Builder{}
	b.WriteByte('"')
	for _, r := range s {
		switch {
		case r == '"' || r == '\\':
			b.WriteByte('\\')
			b.WriteRune(r)
		case r == '\n':
			b.WriteString("\\n")
		case r == '\t':
			b.WriteString("\\t")
		case r < 0x20 || r == 0x7f || (r >= 0x80 && r < 0xa0) || r == 0x2028 || r == 0x2029 || r == 0xfeff:
			fmt.Fprintf(&b, "\\U%08x", r)
		default:
			b.WriteRune(r)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func plainOK(s string) bool {
	for _, r := range s {
		if !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r == '_') {
			return false
		}
	}
	switch strings.ToLower(s) {
	case "", "yes", "no", "true", "false", "on", "off", "y", "n", "null", "nan", "t", "f":
		return false
	}
	return true
}

func (t *T) ystr(s string) string {
	if plainOK(s) && t.Chance(0.5) {
		return s
	}
	if t.Chance(0.3) && !strings.ContainsAny(s, "\n\t\r") && strings.TrimSpace(s) == s && !strings.Contains(s, "'") && s != "" {
		ok := true
		for _, r := range s {
			if r < 0x20 || (r >= 0x7f && r < 0xa0) || r == 0x2028 || r == 0x2029 || r == 0xfeff {
				ok = false
			}
		}
		if ok {
			return "'" + s + "'"
		}
	}
	return yq(s)
}

func (t *T) num(x float64) string {
	switch t.IntN(4) {
	case 0:
		return strconv.FormatFloat(x, 'e', -1, 64)
	case 1:
		if math.Abs(x) < 1e15 && (x == 0 || math.Abs(x) > 1e-6) {
			return strconv.FormatFloat(x, 'f', -1, 64)
		}
	}
	return strconv.FormatFloat(x, 'g', -1, 64)
}

func kindName(k Kind) string { return []string{"nature", "decision", "utility"}[k] }

// yamlText writes the description as YAML in one of many equivalent spellings.
func (n *Net) yamlText(t *T, pos bool) string {
	b := strings.Builder{}
	list := func(xs []string) string {
		q := []string{}
		for _, x := range xs {
			q = append(q, t.ystr(x))
		}
		if len(q) > 0 && t.Chance(0.1) { // one per line
			return "\n  - " + strings.Join(q, "\n  - ")
		}
		if t.Chance(0.1) {
			return "[" + strings.Join(q, " ,\n      ") + ",]"
		}
		return "[" + strings.Join(q, ", ") + "]"
	}
	anchors := map[string]string{}
	alias := func(key string, xs []string) string {
		k := fmt.Sprintf("%q", xs)
		if a, ok := anchors[k]; ok {
			return key + " *" + a
		}
		if len(xs) > 0 && t.Chance(0.1) {
			anchors[k] = fmt.Sprintf("a%d", len(anchors))
			l := list(xs)
			if l[0] == '\n' {
				return key + " &" + anchors[k] + l
			}
			return key + " &" + anchors[k] + " " + l
		}
		return key + " " + list(xs)
	}
	head := []string{"name: " + t.ystr(n.Name) + "\n"}
	if n.Info != "" {
		info := "info: " + yq(n.Info) + "\n"
		if lines := strings.Split(strings.TrimSuffix(n.Info, "\n"), "\n"); t.Chance(0.3) && !strings.HasSuffix(n.Info, "\n\n") {
			ok := len(lines[0]) > 0 // as a block
			for _, l := range lines {
				for k, r := range l {
					ok = ok && (r > 0x20 || r == 0x20 && k > 0) && r < 0x7f
				}
			}
			if ok {
				info = "info: |"
				if !strings.HasSuffix(n.Info, "\n") {
					info += "-"
				}
				info += "\n"
				for _, l := range lines {
					info += strings.TrimRight("  "+l, "\n") + "\n"
				}
			}
		}
		head = append(head, info)
	}
	vars := strings.Builder{}
	vars.WriteString("variables:\n")
	for i, v := range n.Vars {
		keys := []string{"variable: " + t.ystr(v.Name)}
		if len(v.Parents) > 0 {
			if t.Chance(0.3) {
				s := "given:"
				for _, g := range n.namesOf(v.Parents) {
					s += "\n  - " + t.ystr(g)
				}
				keys = append(keys, s)
			} else {
				keys = append(keys, "given: "+list(n.namesOf(v.Parents)))
			}
		} else if t.Chance(0.1) {
			keys = append(keys, pick(t, []string{"given: []", "given:", "given: ~"}))
		}
		if v.Kind != Chance || t.Chance(0.3) {
			keys = append(keys, "type: "+t.ystr(kindName(v.Kind)))
		}
		keys = append(keys, alias("outcomes:", v.Outcomes))
		if pos && (v.Pos != [2]int{} || t.Chance(0.5)) {
			keys = append(keys, fmt.Sprintf("position: [%d, %d]", v.Pos[0], v.Pos[1]))
		}
		if v.Color != "" {
			keys = append(keys, "color: "+v.Color)
		}
		if v.Logic != "" {
			keys = append(keys, "logic: "+v.Logic)
		} else if v.Table != nil {
			c := n.card(i)
			rows := []string{}
			for r := 0; r*c < len(v.Table); r++ {
				cells := []string{}
				for _, x := range v.Table[r*c : (r+1)*c] {
					cells = append(cells, t.num(x))
				}
				rows = append(rows, "["+strings.Join(cells, ", ")+"]")
			}
			if k := t.Range(1, max(1, len(v.Table))); t.Chance(0.05) && len(v.Table) > 0 { // rows are for the eye
				flat := strings.ReplaceAll(strings.ReplaceAll(strings.Join(rows, ", "), "[", ""), "]", "")
				if cells := strings.Split(flat, ", "); k < len(cells) {
					flat = strings.Join(cells[:k], ", ") + "], [" + strings.Join(cells[k:], ", ")
				}
				keys = append(keys, "table: [["+flat+"]]")
			} else if t.Chance(0.5) {
				keys = append(keys, "table: ["+strings.Join(rows, ", ")+"]")
			} else {
				keys = append(keys, "table:\n  - "+strings.Join(rows, " # row\n  - "))
			}
		}
		t.Shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
		if t.Chance(0.3) {
			vars.WriteString("\n# " + kindName(v.Kind) + " node\n")
		}
		for k, s := range keys {
			pre := "  "
			if k == 0 {
				pre = "- "
			}
			vars.WriteString(pre + strings.ReplaceAll(s, "\n", "\n  ") + "\n")
		}
	}
	parts := append(head, vars.String())
	t.Shuffle(len(parts), func(i, j int) { parts[i], parts[j] = parts[j], parts[i] })
	if t.Chance(0.1) {
		b.WriteString(pick(t, []string{"---\n", "# a network\n---\n", "%YAML 1.1\n---\n", "\n\n"}))
	}
	for _, p := range parts {
		b.WriteString(p)
	}
	if t.Chance(0.05) {
		b.WriteString(pick(t, []string{"...\n", "\n\n", "# end"}))
	}
	return b.String()
}

func xe(s string) string {
	b := bytes.Buffer{}
	xml.EscapeText(&b, []byte(s))
	return b.String()
}

// xmlText writes the description as BIF-XML.
func (n *Net) xmlText(t *T) string {
	free := t.Chance(0.4) // any order of elements, not only the usual ones
	text := func(s string) string {
		if free && t.Chance(0.15) && s != "" && !strings.Contains(s, "]]>") && !strings.Contains(s, "\r") {
			return "<![CDATA[" + s + "]]>"
		}
		return xe(s)
	}
	gap := func() string {
		if free && t.Chance(0.2) {
			return pick(t, []string{"<!-- <NAME>x</NAME> -->", "\n\n", "\t", "", "<?note here?>", "\r\n"})
		}
		return "\n"
	}
	shuffled := func(es []string, fixed func(string) bool) string { // all others keep their order among themselves
		if !free {
			return strings.Join(es, "")
		}
		out := []string{}
		for _, e := range es {
			if !fixed(e) {
				out = append(out, e)
			}
		}
		for _, e := range es {
			if fixed(e) {
				out = slices.Insert(out, t.IntN(len(out)+1), e)
			}
		}
		return strings.Join(out, "")
	}
	b := strings.Builder{}
	b.WriteString("<?xml version=\"1.0\"?>\n")
	if free && t.Chance(0.3) {
		b.WriteString("<!DOCTYPE BIF [\n  <!ELEMENT BIF ( NETWORK )*>\n  <!ATTLIST BIF VERSION CDATA #REQUIRED>\n]>\n")
	}
	b.WriteString("<BIF VERSION=\"0.3\">\n<NETWORK>" + gap())
	name := "<NAME>" + text(n.Name) + "</NAME>" + gap()
	vs, ds := []string{}, []string{}
	for i, v := range n.Vars {
		tp := " TYPE=\"" + kindName(v.Kind) + "\""
		if v.Kind == Chance && t.Chance(0.3) {
			tp = ""
		}
		props := []string{}
		if v.Pos != [2]int{} {
			f := "position = (%d, %d)"
			if free {
				f = pick(t, []string{f, "position = (%d,%d)", "position=(%d,%d)", " position  =  ( %d , %d ) ", "\n    position = (%d, %d)\n  "})
			}
			props = append(props, "  <PROPERTY>"+fmt.Sprintf(f, v.Pos[0]*2+t.IntN(2), v.Pos[1]*12+t.IntN(12))+"</PROPERTY>"+gap())
			if t.Chance(0.5) {
				props = slices.Insert(props, t.IntN(2), "  <PROPERTY>note = some text</PROPERTY>"+gap())
			}
			if free && t.Chance(0.2) {
				props = append(props, pick(t, []string{"  <PROPERTY>anything</PROPERTY>", "  <PROPERTY/>", "  <PROPERTY>a = b = c</PROPERTY>", "  <PROPERTY>size = (3, 4)</PROPERTY>"})+gap())
			}
		}
		outs := []string{}
		for _, o := range v.Outcomes {
			outs = append(outs, "  <OUTCOME>"+text(o)+"</OUTCOME>"+gap())
		}
		es := []string{"  <NAME>" + text(v.Name) + "</NAME>" + gap()}
		if t.Chance(0.5) {
			es = append(append(es, props...), outs...)
		} else {
			es = append(append(es, outs...), props...)
		}
		vs = append(vs, "<VARIABLE"+tp+">"+gap()+shuffled(es, func(e string) bool { return strings.HasPrefix(e, "  <NAME>") })+"</VARIABLE>"+gap())
		es = []string{"  <FOR>" + text(v.Name) + "</FOR>" + gap()}
		for _, p := range v.Parents {
			es = append(es, "  <GIVEN>"+text(n.Vars[p].Name)+"</GIVEN>"+gap())
		}
		d := strings.Builder{}
		d.WriteString("  <TABLE>")
		c := n.card(i)
		for k, x := range v.Table {
			if k%c == 0 && t.Chance(0.5) {
				d.WriteString("\n    ")
			} else if t.Chance(0.8) {
				d.WriteString(" ")
			} else {
				d.WriteString(pick(t, []string{"\t", "  ", "\n", "\r\n", " \t ", " <!-- next --> "}))
			}
			d.WriteString(t.num(x))
		}
		d.WriteString("\n  </TABLE>" + gap())
		es = append(es, d.String())
		if free && t.Chance(0.2) {
			es = append(es, "  <PROPERTY>note = (1, 2)</PROPERTY>"+gap())
		}
		ds = append(ds, "<DEFINITION>"+gap()+shuffled(es, func(e string) bool { return !strings.HasPrefix(e, "  <GIVEN>") })+"</DEFINITION>"+gap())
	}
	t.Shuffle(len(ds), func(i, j int) { ds[i], ds[j] = ds[j], ds[i] })
	es := append([]string{name}, vs...)
	switch {
	case free:
		b.WriteString(shuffled(append(append(es, ds...), pick(t, []string{"", "<PROPERTY>position = (5, 6)</PROPERTY>", "<!-- end -->"})), func(e string) bool { return !strings.HasPrefix(e, "<VARIABLE") }))
	case t.Chance(0.5):
		b.WriteString(strings.Join(es, "") + "<!-- definitions -->\n" + strings.Join(ds, ""))
	default:
		b.WriteString(name + strings.Join(ds, "") + strings.Join(vs, ""))
	}
	b.WriteString("</NETWORK>\n</BIF>\n")
	return b.String()
}

var tuiColors = []string{"maroon", "green", "olive", "navy", "purple", "teal", "silver", "gray", "red", "lime", "yellow", "blue", "fuchsia", "aqua", "white"}

// genAny makes any kind of network with positions, colors and info.
func genAny(t *T, names string) *Net {
	var n *Net
	switch t.IntN(4) {
	case 0:
		n = genID(t, idOpt{chance: t.Range(0, 4), names: names, maxJoint: 256})
	case 1:
		n = genChanceUtility(t)
	default:
		n = genBN(t, genOpt{nMin: 1, nMax: 6, maxJoint: 1 << 10, names: names})
	}
	for i := range n.Vars {
		if t.Chance(0.7) {
			n.Vars[i].Pos = [2]int{t.Range(0, 120), t.Range(0, 60)}
		}
		if t.Chance(0.4) {
			n.Vars[i].Color = pick(t, tuiColors)
		}
	}
	n.plainZeros()
	n.Name = pick(t, append([]string{"net", "A network", "Größe: 1"}, trickyStrings...))
	return n
}

// genLargeNet makes a network that is large in one respect: variables, outcomes, tables, or texts.
func genLargeNet(t *T) *Net {
	var n *Net
	switch t.IntN(4) {
	case 0: // many variables
		n = genBN(t, genOpt{nMin: 60, nMax: 300, maxJoint: math.MaxInt, maxTable: 64, structure: pick(t, []string{"chain", "tree", "forest", "random"}), cards: pick(t, []string{"binary", "ones"}), names: "simple"})
		for i := range n.Vars {
			n.Vars[i].Name = fmt.Sprintf("N %d", i)
		}
	case 1: // large tables
		n = genBN(t, genOpt{nMin: 11, nMax: 14, maxJoint: 1 << 15, maxTable: 1 << 15, structure: "fanin", cards: pick(t, []string{"binary", "small"}), names: "words"})
	case 2: // many outcomes
		n = genBN(t, genOpt{nMin: 1, nMax: 3, maxJoint: 1 << 14, maxTable: 1 << 14, cards: "big", names: "words"})
	default: // long texts
		n = genAny(t, "simple")
		text := func(k int) string {
			b := []byte{'x'}
			for len(b) < k {
				b = append(b, pick(t, []string{"a", "be", "see ", "d, ", "- e", ": f", "g\u00e9", "'h", "i\"j", " k"})...)
			}
			return string(b) + "x"
		}
		for i := range n.Vars {
			if t.Chance(0.5) {
				n.Vars[i].Name = fmt.Sprint(i) + text(pick(t, []int{79, 127, 130, 255, 256, 1023, 1025, 5000}))
			}
			for k := range n.Vars[i].Outcomes {
				if t.Chance(0.3) {
					n.Vars[i].Outcomes[k] = fmt.Sprint(k) + text(pick(t, []int{79, 127, 130, 255, 1023, 1025, 5000}))
				}
			}
		}
		n.Info = text(t.Range(100, 100000)) + pick(t, []string{"", "\n"}) + text(70000)
	}
	n.plainZeros()
	return n
}

// plainZeros replaces negative zeros, which a YAML integer cannot carry.
func (n *Net) plainZeros() {
	for i := range n.Vars {
		for k := range n.Vars[i].Table {
			n.Vars[i].Table[k] += 0
		}
	}
}

// matches compares what a network exposes with the description, bit for bit.
func (n *Net) matches(net *bbn.Network, info, color bool) string {
	if net.TotalUtilityIndex() != n.total() {
		return fmt.Sprintf("total utility index is %d, expected %d", net.TotalUtilityIndex(), n.total())
	}
	if net.Name() != n.Name {
		return fmt.Sprintf("name is %q, expected %q", net.Name(), n.Name)
	}
	if info && net.Info() != n.Info {
		return fmt.Sprintf("info is %q, expected %q", net.Info(), n.Info)
	}
	vars := net.Variables()
	if len(vars) != len(n.Vars) {
		return fmt.Sprintf("%d variables, expected %d", len(vars), len(n.Vars))
	}
	for i, v := range vars {
		w := &n.Vars[i]
		if v.Name != w.Name || v.NodeType != nodeType(w.Kind) {
			return fmt.Sprintf("variable %d is %q of type %d, expected %q of type %d", i, v.Name, v.NodeType, w.Name, w.Kind)
		}
		if fmt.Sprintf("%q", v.Outcomes) != fmt.Sprintf("%q", w.Outcomes) {
			return fmt.Sprintf("outcomes of %q are %q, expected %q", v.Name, v.Outcomes, w.Outcomes)
		}
		if v.Position != w.Pos {
			return fmt.Sprintf("position of %q is %v, expected %v", v.Name, v.Position, w.Pos)
		}
		if color && v.Color != w.Color {
			return fmt.Sprintf("color of %q is %q, expected %q", v.Name, v.Color, w.Color)
		}
		if v.Factor == nil || v.Factor.For != v.Name {
			return fmt.Sprintf("variable %q has no factor of its own", v.Name)
		}
		if fmt.Sprintf("%q", append([]string{}, v.Factor.Given...)) != fmt.Sprintf("%q", n.namesOf(w.Parents)) {
			return fmt.Sprintf("parents of %q are %q, expected %q", v.Name, v.Factor.Given, n.namesOf(w.Parents))
		}
		if !sameValues(v.Factor.Table, w.Table) {
			return fmt.Sprintf("table of %q is %v, expected %v", v.Name, shortFloats(v.Factor.Table), shortFloats(w.Table))
		}
	}
	return ""
}

var infoTexts = []string{"", "One line.", "Two\nlines", "A paragraph.\n\nAnother one,\n  indented, with: colon and # hash.\n", "tab\there", "ends with space \nnext", "- a\n- b\n", "key: value\nother: [1, 2]", "日本語 → text", "'quoted' \"text\"", "very long line " + "abcdefghij abcdefghij abcdefghij abcdefghij abcdefghij abcdefghij abcdefghij abcdefghij abcdefghij abcdefghij abcdefghij", "   starts with spaces", "trailing newlines\n\n\n", "a\r\nb"}

func checkC10(c *Ctx) {
	round := func(t *T, n *Net, net *bbn.Network) {
		before := snapNet(net)
		y, err := bbn.ToYAML(net)
		if err != nil {
			t.Failf("ToYAML failed: %v\n%s", err, n)
		}
		t.Event("ToYAML wrote\n%s", y)
		back, err := bbn.FromYAML(y)
		if err != nil {
			t.Failf("the written YAML is refused: %v\n%s", err, y)
		}
		if d := n.matches(back, true, true); d != "" {
			t.Failf("round trip through YAML: %s\n%s", d, y)
		}
		if d := before.diff(net); d != "" {
			t.Failf("ToYAML changed the network: %s", d)
		}
		y2, err := bbn.ToYAML(back)
		if err != nil || !bytes.Equal(y, y2) {
			t.Failf("writing the re-read network gives other text (%v)\nfirst:\n%s\nsecond:\n%s", err, y, y2)
		}
		t.Count("bytes_written", len(y))
		t.Count("round_trips", 1)
		t.Distinct(n.shape(), n.Name, n.Info, len(y))
		t.Sample(string(y[:min(len(y), 1500)]))
	}
	c.Section("any", 6000, 120000, "networks of every kind (chance, decision, utility, weighted total, untrained), names, outcomes, colors, positions and info texts including YAML-significant ones: written, re-read and compared bit for bit; written again and compared byte for byte", func(t *T) {
		n := genAny(t, pick(t, []string{"tricky", "words", "simple"}))
		n.Info = pick(t, infoTexts)
		for i := range n.Vars {
			if n.Vars[i].Kind != Decision && i != n.total() && t.Chance(0.1) {
				n.Vars[i].Table = nil // not trained yet
			}
		}
		round(t, n, n.build(t, false))
	})
	c.Section("numbers", 6000, 120000, "tables with extreme and awkward numbers (largest, smallest, denormal, thirds, integers above 2^53, exponents)", func(t *T) {
		n := genAny(t, "simple")
		n.Info = pick(t, infoTexts)
		nums := []float64{math.MaxFloat64, math.SmallestNonzeroFloat64, 1e-320, 1.0 / 3, 2.0 / 3, 1 << 53, 1<<53 + 2, 1e22, 1e21, 123456789.123456789, 0.1, 1e-7, 5e-324, math.Pi, 1e300, 1e-300, 100, 33.333, 1}
		for i := range n.Vars {
			for k := range n.Vars[i].Table {
				switch t.IntN(3) {
				case 0:
					n.Vars[i].Table[k] = pick(t, nums)
				case 1:
					n.Vars[i].Table[k] = math.Float64frombits(t.Uint64() &^ (1 << 63) % (0x7FE << 52))
				}
				if n.Vars[i].Kind == Utility && t.Chance(0.4) {
					n.Vars[i].Table[k] *= -1
				}
			}
		}
		n.plainZeros()
		round(t, n, n.build(t, false))
	})
	c.Section("large", 200, 4000, "up to 300 variables, tables of up to 2^15 entries, up to 300 outcomes, names and info texts of up to 100 kB", func(t *T) {
		n := genLargeNet(t)
		round(t, n, n.build(t, false))
	})
	c.Section("moved", 1500, 30000, "networks changed in place as the tools do it (positions moved, tables trained), written before and after", func(t *T) {
		n := genAny(t, "words")
		n.Info = pick(t, infoTexts)
		net := n.build(t, false)
		if t.Chance(0.7) {
			n := n.clone()
			round(t, n, net) // nor does having been written before
		}
		if t.Chance(0.5) {
			net.SolvePolicies(t.Chance(0.5)) // solving leaves no trace in the file
			net.SolveQuery(nil, nil, false)
		}
		if t.Chance(0.6) {
			trained := trainFully(t, n, net)
			for i := range n.Vars {
				n.Vars[i].Table = trained.Vars[i].Table
			}
		}
		for i := range n.Vars {
			if t.Chance(0.5) {
				p := [2]int{t.Range(-5, 200), t.Range(-5, 200)}
				net.Variables()[i].Position = p
				n.Vars[i].Pos = p
			}
		}
		round(t, n, net)
	})
	c.Section("semantics", 1500, 30000, "the re-read network answers exactly like the original", func(t *T) {
		n := genBN(t, genOpt{nMin: 1, nMax: 6, maxJoint: 1 << 9, names: "tricky"})
		y, err := bbn.ToYAML(n.build(t, true))
		if err != nil {
			t.Failf("ToYAML: %v", err)
		}
		net, err := bbn.FromYAML(y)
		if err != nil {
			t.Failf("the written YAML is refused: %v\n%s", err, y)
		}
		ev := genEvidence(t, n, t.Range(0, len(n.Vars)-1))
		checkPosterior(t, n, net, ev, pickQuery(t, n, ev, 2), false)
	})
}

func checkC11(c *Ctx) {
	answers := func(t *T, n *Net, net *bbn.Network) {
		if len(n.ofKind(Decision)) > 0 {
			s := n.solveStrategy()
			_, pols := solvePolicies(t, n, net, true)
			checkOptimal(t, n, pols, s, true)
			ev, qs := genMixedQuery(t, n, pols, 2, 1, Chance)
			checkUtility(t, n, net, -1, ev, qs, pols, false)
		} else if len(n.ofKind(Utility)) > 0 {
			ev, qs := genMixedQuery(t, n, nil, 2, 1, Chance)
			checkUtility(t, n, net, pick(t, append(n.ofKind(Utility), -1)), ev, qs, nil, false)
		} else {
			ev := genEvidence(t, n, t.Range(0, len(n.Vars)-1))
			checkPosterior(t, n, net, ev, pickQuery(t, n, ev, 2), false)
		}
	}
	c.Section("formats", 5000, 100000, "one description built through the constructor, written as YAML in random spellings (quoting, block or flow tables, key order, comments, number formats, default types) and as BIF-XML (element and definition order, whitespace, escapes): the three networks expose the same definition bit for bit and give the exact answers", func(t *T) {
		n := genAny(t, pick(t, []string{"tricky", "words", "simple"}))
		n.Info = pick(t, infoTexts)
		net := n.build(t, false)
		if d := n.matches(net, true, true); d != "" {
			t.Failf("constructor: %s", d)
		}
		y := n.yamlText(t, true)
		t.Event("YAML\n%s", y)
		ny, err := bbn.FromYAML([]byte(y))
		if err != nil {
			t.Failf("valid YAML refused: %v\n%s", err, y)
		}
		if d := n.matches(ny, true, true); d != "" {
			t.Failf("YAML: %s\n%s", d, y)
		}
		x := n.xmlText(t)
		t.Event("XML\n%s", x)
		nx, err := bbn.FromBIFXML([]byte(x))
		if err != nil {
			t.Failf("valid BIF-XML refused: %v\n%s", err, x)
		}
		if d := n.matches(nx, false, false); d != "" {
			t.Failf("BIF-XML: %s\n%s", d, x)
		}
		answers(t, n, net)
		answers(t, n, ny)
		answers(t, n, nx)
		t.Count("networks_compared", 3)
		t.Distinct(n.shape(), y)
		t.Sample(map[string]any{"yaml": y[:min(len(y), 1200)], "xml": x[:min(len(x), 800)]})
	})
	c.Section("large", 200, 4000, "the same definition from up to 300 variables, tables of up to 2^15 entries, up to 300 outcomes, names and info texts of up to 100 kB", func(t *T) {
		n := genLargeNet(t)
		if d := n.matches(n.build(t, false), true, true); d != "" {
			t.Failf("constructor: %s", d)
		}
		y := n.yamlText(t, true)
		t.Event("YAML of %d bytes, %d variables", len(y), len(n.Vars))
		ny, err := bbn.FromYAML([]byte(y))
		if err != nil {
			t.Failf("valid YAML refused: %v\n%s", err, y)
		}
		if d := n.matches(ny, true, true); d != "" {
			t.Failf("YAML: %s\n%s", d, y)
		}
		x := n.xmlText(t)
		t.Event("BIF-XML of %d bytes", len(x))
		nx, err := bbn.FromBIFXML([]byte(x))
		if err != nil {
			t.Failf("valid BIF-XML refused: %v\n%s", err, x)
		}
		if d := n.matches(nx, false, false); d != "" {
			t.Failf("BIF-XML: %s\n%s", d, x)
		}
		t.Count("networks_compared", 3)
		t.Distinct(n.shape(), len(y), len(x))
	})
	c.Section("files", 800, 8000, "the same through files with every supported extension in any case; unsupported extensions refused", func(t *T) {
		n := genAny(t, "words")
		dir, err := os.MkdirTemp("", "vio")
		if err != nil {
			t.Skip()
		}
		defer os.RemoveAll(dir)
		for _, ext := range []string{".yml", ".YML", ".Yml", ".xml", ".XML", ".bifxml", ".BIFXML", ".txt", "", ".json"} {
			p := filepath.Join(dir, pick(t, []string{"net", "a.b", "dir.xml.yml", "ü"})+ext)
			if ext == "" {
				p = filepath.Join(dir, "plain")
			}
			low := strings.ToLower(ext)
			isX := low == ".xml" || low == ".bifxml"
			isY := low == ".yml"
			txt := n.yamlText(t, true)
			if isX {
				txt = n.xmlText(t)
			}
			os.WriteFile(p, []byte(txt), 0o644)
			net, err := bbn.FromFile(p)
			switch {
			case isX || isY:
				if err != nil {
					t.Failf("FromFile(%s) refused a valid file: %v\n%s", filepath.Base(p), err, txt)
				}
				if d := n.matches(net, isY, isY); d != "" {
					t.Failf("FromFile(%s): %s\n%s", filepath.Base(p), d, txt)
				}
			case err == nil:
				t.Failf("FromFile(%s) read a file of unknown format", filepath.Base(p))
			}
			t.Count("files_read", 1)
		}
		if _, err := bbn.FromFile(filepath.Join(dir, "missing.yml")); err == nil {
			t.Failf("FromFile read a missing file")
		}
		t.Distinct(n.shape())
		t.Sample(map[string]any{"variables": len(n.Vars)})
	})
	c.Section("examples", 30, 60, "the example networks of the repository, re-written through YAML: same answers for every variable", func(t *T) {
		files, _ := filepath.Glob(filepath.Join(repoDir(), "_examples", "*", "*.*ml"))
		if len(files) == 0 {
			t.Skip()
		}
		f := files[t.idx%len(files)]
		net, err := bbn.FromFile(f)
		if err != nil {
			t.Failf("example %s refused: %v", filepath.Base(f), err)
		}
		n := fromNetwork(net)
		untrained := false
		for i := range n.Vars {
			if n.Vars[i].Table == nil && n.Vars[i].Kind != Decision {
				untrained = true
			}
		}
		y, err := bbn.ToYAML(net)
		if err != nil {
			t.Failf("ToYAML(%s): %v", filepath.Base(f), err)
		}
		back, err := bbn.FromYAML(y)
		if err != nil {
			t.Failf("re-written %s refused: %v", filepath.Base(f), err)
		}
		if d := n.matches(back, true, true); d != "" {
			t.Failf("re-written %s: %s", filepath.Base(f), d)
		}
		if !untrained && len(n.ofKind(Decision)) == 0 {
			for r := 0; r < 3; r++ {
				ev := genEvidence(t, n, t.Range(0, 3))
				checkPosterior(t, n, back, ev, pickQuery(t, n, ev, 1), false)
			}
		}
		t.Distinct(f)
		t.Sample(filepath.Base(f))
	})
}

func repoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

// fromNetwork reads a description back from a network.
func fromNetwork(net *bbn.Network) *Net {
	n := &Net{Name: net.Name(), Info: net.Info()}
	idx := map[string]int{}
	for i, v := range net.Variables() {
		idx[v.Name] = i
	}
	for _, v := range net.Variables() {
		k := Chance
		switch v.NodeType {
		case ve.DecisionNode:
			k = Decision
		case ve.UtilityNode:
			k = Utility
		}
		w := V{Name: v.Name, Kind: k, Outcomes: append([]string{}, v.Outcomes...), Pos: v.Position, Color: v.Color}
		for _, g := range v.Factor.Given {
			w.Parents = append(w.Parents, idx[g])
		}
		if len(v.Factor.Table) > 0 {
			w.Table = append([]float64{}, v.Factor.Table...)
		}
		n.Vars = append(n.Vars, w)
	}
	return n
}
