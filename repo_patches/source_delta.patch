From 441d9fbb2b7527578bd9edbd53721706db022fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:09 +0000
Subject: [PATCH 01/50] fix: solve policies for decisions without influence on
 utility

---
 ve/ve.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ve/ve.go b/ve/ve.go
index 65e536f..4f767a4 100644
--- a/ve/ve.go
+++ b/ve/ve.go
@@ -2,7 +2,6 @@ package ve
 
 import (
 	"cmp"
-	"fmt"
 	"slices"
 )
 
@@ -289,7 +288,9 @@ func (ve *VE) solvePolicies(decisions []Variable, single bool) map[Variable][2]*
 		}*/
 
 		if len(factors) == 0 {
-			panic(fmt.Sprintf("found no factors containing variable %d and its parents", dec.id))
+			// decision has no effect on utility, so all options are equally good
+			f := ve.variables.CreateFactor([]Variable{dec}, nil)
+			factors = append(factors, &f)
 		}
 
 		// TODO: check that multiplying when multiple factors are remaining is correct!
-- 
2.43.0


From e06c1db58f5130a9106b5a9b927fc47c6c5c3642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:12 +0000
Subject: [PATCH 02/50] fix: Factor.Row returns the complete row for the given
 parent outcomes

---
 network.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/network.go b/network.go
index ffc915b..d19b59b 100644
--- a/network.go
+++ b/network.go
@@ -39,7 +39,7 @@ func (f *Factor) Row(indices []int) ([]float64, bool) {
 	if !ok {
 		return nil, false
 	}
-	return f.Table[idx : idx+f.columns], true
+	return f.Table[idx*f.columns : (idx+1)*f.columns], true
 }
 
 // rowIndex returns a row starting index for the
-- 
2.43.0


From 74cd23d27c846fd0e6dd117252959c1646d73291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:13 +0000
Subject: [PATCH 03/50] fix: count training samples of utility nodes only once

---
 training.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/training.go b/training.go
index d097f03..a93e1dd 100644
--- a/training.go
+++ b/training.go
@@ -98,7 +98,6 @@ func (t *Trainer) AddSample(sample []int, utility []float64) {
 				continue
 			}
 			t.data[i][idx][0] += u
-			t.counter[i][idx]++
 		} else {
 			s := sample[i]
 			if s < 0 {
-- 
2.43.0


From c0fc2a66b49a6cb5327ada184e0f7ae82db6fd60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:14 +0000
Subject: [PATCH 04/50] fix: treat the no-data value as missing data in utility
 columns

---
 internal/tui/training.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/tui/training.go b/internal/tui/training.go
index 9fcd7e4..90f194a 100644
--- a/internal/tui/training.go
+++ b/internal/tui/training.go
@@ -52,6 +52,7 @@ func TrainNetwork(net *bbn.Network, nodes []bbn.Variable, dataFile, noData strin
 				var err error
 				if record[idx] == noData {
 					utility[i] = math.NaN()
+					continue
 				}
 				utility[i], err = strconv.ParseFloat(record[idx], 64)
 				if err != nil {
-- 
2.43.0


From d9f7c747bccde0e5fff1fe0050dfa6c8d60d6ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:16 +0000
Subject: [PATCH 05/50] fix: preserve network info and node colors when writing
 YAML

---
 yml.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yml.go b/yml.go
index 4527cca..93b906f 100644
--- a/yml.go
+++ b/yml.go
@@ -146,12 +146,14 @@ func ToYAML(network *Network) ([]byte, error) {
 			Type:     nodeTypeNames[v.NodeType],
 			Outcomes: v.Outcomes,
 			Position: v.Position,
+			Color:    v.Color,
 			Table:    table,
 		}
 	}
 
 	net := networkYaml{
 		Name:      network.Name(),
+		Info:      network.Info(),
 		Variables: variables,
 	}
 
-- 
2.43.0


From fd546bb104f17c9548ec4aff5cd5f644b700d1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:52 +0000
Subject: [PATCH 06/50] fix: pass the no-data value to training in the TUI app

---
 internal/tui/app.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/tui/app.go b/internal/tui/app.go
index bfacebd..933b5ab 100644
--- a/internal/tui/app.go
+++ b/internal/tui/app.go
@@ -44,6 +44,7 @@ func New(path string, evidence map[string]string, trainingFile, noData string, c
 		file:         path,
 		trainingFile: trainingFile,
 		csvDelimiter: csvDelimiter,
+		noData:       noData,
 		evidence:     evidence,
 	}
 }
-- 
2.43.0


From b60fdc8d6693815c0ec3f9873f32c7f28a91b3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:53 +0000
Subject: [PATCH 07/50] fix: don't leave the network partially trained when
 samples are missing

---
 training.go | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/training.go b/training.go
index a93e1dd..b0eaca1 100644
--- a/training.go
+++ b/training.go
@@ -114,18 +114,26 @@ func (t *Trainer) AddSample(sample []int, utility []float64) {
 func (t *Trainer) UpdateNetwork() (*Network, error) {
 	nodes := t.network.Variables()
 
+	// check before modifying any tables
 	for i, node := range nodes {
-		data := t.data[i]
-
-		cols := node.Factor.columns
-		rows := len(node.Factor.Table) / cols
-		for j := 0; j < rows; j++ {
-			cnt := t.counter[i][j]
+		if node.NodeType == ve.DecisionNode {
+			continue
+		}
+		for j, cnt := range t.counter[i] {
 			if cnt == 0 {
 				return nil, fmt.Errorf("no samples for node '%s', table row %d", node.Name, j)
 			}
+		}
+	}
+
+	for i, node := range nodes {
+		if node.NodeType == ve.DecisionNode {
+			continue
+		}
+		cols := node.Factor.columns
+		for j, cnt := range t.counter[i] {
 			for k := 0; k < cols; k++ {
-				node.Factor.Table[j*cols+k] = float64(data[j][k]) / float64(cnt)
+				node.Factor.Table[j*cols+k] = t.data[i][j][k] / float64(cnt)
 			}
 		}
 	}
-- 
2.43.0


From 2789f40cf25e54c9966d3f2a019496247a50ac9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:54 +0000
Subject: [PATCH 08/50] fix: don't overwrite the weights of the total utility
 node in training

---
 training.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/training.go b/training.go
index b0eaca1..512e271 100644
--- a/training.go
+++ b/training.go
@@ -71,7 +71,7 @@ func (t *Trainer) AddSample(sample []int, utility []float64) {
 	nodes := t.network.Variables()
 
 	for i, node := range nodes {
-		if node.NodeType == ve.DecisionNode {
+		if !t.isTrainable(i) {
 			continue
 		}
 
@@ -110,13 +110,19 @@ func (t *Trainer) AddSample(sample []int, utility []float64) {
 	}
 }
 
+// isTrainable returns whether a variable's table is derived from training data.
+// Decisions have no table, and the table of the total utility node contains weights.
+func (t *Trainer) isTrainable(index int) bool {
+	return t.network.variables[index].NodeType != ve.DecisionNode && index != t.network.totalUtilityIndex
+}
+
 // UpdateNetwork applies the training to the network, and returns a pointer to the original network.
 func (t *Trainer) UpdateNetwork() (*Network, error) {
 	nodes := t.network.Variables()
 
 	// check before modifying any tables
 	for i, node := range nodes {
-		if node.NodeType == ve.DecisionNode {
+		if !t.isTrainable(i) {
 			continue
 		}
 		for j, cnt := range t.counter[i] {
@@ -127,7 +133,7 @@ func (t *Trainer) UpdateNetwork() (*Network, error) {
 	}
 
 	for i, node := range nodes {
-		if node.NodeType == ve.DecisionNode {
+		if !t.isTrainable(i) {
 			continue
 		}
 		cols := node.Factor.columns
-- 
2.43.0


From 0a4f58c9dc16db4734645dbbc260e6ea176fd6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:56 +0000
Subject: [PATCH 09/50] fix: train networks that have no tables yet

---
 training.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/training.go b/training.go
index 512e271..5684c05 100644
--- a/training.go
+++ b/training.go
@@ -36,7 +36,10 @@ func NewTrainer(net *Network) Trainer {
 
 	for i, node := range nodes {
 		columns := len(node.Outcomes)
-		rows := len(node.Factor.Table) / columns
+		rows := 1
+		for _, n := range node.Factor.outcomes {
+			rows *= n
+		}
 		d := make([][]float64, rows)
 		for j := 0; j < rows; j++ {
 			d[j] = make([]float64, columns)
@@ -137,6 +140,9 @@ func (t *Trainer) UpdateNetwork() (*Network, error) {
 			continue
 		}
 		cols := node.Factor.columns
+		if len(node.Factor.Table) == 0 {
+			node.Factor.Table = make([]float64, len(t.counter[i])*cols)
+		}
 		for j, cnt := range t.counter[i] {
 			for k := 0; k < cols; k++ {
 				node.Factor.Table[j*cols+k] = t.data[i][j][k] / float64(cnt)
-- 
2.43.0


From 0913e55743c5fce1b9d09cf7c53872ef796a5a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:23 +0000
Subject: [PATCH 10/50] fix: logic.Get returns independent factor instances

---
 logic/factor.go | 79 ++++++++++++++++++++++++++-----------------------
 1 file changed, 42 insertions(+), 37 deletions(-)

diff --git a/logic/factor.go b/logic/factor.go
index 2bc0dc3..2ff5413 100644
--- a/logic/factor.go
+++ b/logic/factor.go
@@ -10,58 +10,63 @@ type Factor interface {
 
 // Get logic factors by their name.
 //
+// Each call returns a new instance, so arguments can be set independently.
+//
 // Primarily used for deserialization.
 func Get(name string) (Factor, bool) {
 	f, ok := factors[name]
-	return f, ok
+	if !ok {
+		return nil, false
+	}
+	return f(), true
 }
 
-var factors = map[string]Factor{
-	"not": Not(),
+var factors = map[string]func() Factor{
+	"not": Not,
 
-	"and":         And(),
-	"not-and":     NotAnd(),
-	"and-not":     AndNot(),
-	"not-and-not": NotAndNot(),
+	"and":         And,
+	"not-and":     NotAnd,
+	"and-not":     AndNot,
+	"not-and-not": NotAndNot,
 
-	"or":         Or(),
-	"not-or":     NotOr(),
-	"or-not":     OrNot(),
-	"not-or-not": NotOrNot(),
+	"or":         Or,
+	"not-or":     NotOr,
+	"or-not":     OrNot,
+	"not-or-not": NotOrNot,
 
-	"xor": XOr(),
+	"xor": XOr,
 
-	"cond":         Cond(),
-	"not-cond":     NotCond(),
-	"cond-not":     CondNot(),
-	"not-cond-not": NotCondNot(),
+	"cond":         Cond,
+	"not-cond":     NotCond,
+	"cond-not":     CondNot,
+	"not-cond-not": NotCondNot,
 
-	"bicond": BiCond(),
+	"bicond": BiCond,
 
-	"if-then":         IfThen(),
-	"if-not-then":     IfNotThen(),
-	"if-then-not":     IfThenNot(),
-	"if-not-then-not": IfNotThenNot(),
+	"if-then":         IfThen,
+	"if-not-then":     IfNotThen,
+	"if-then-not":     IfThenNot,
+	"if-not-then-not": IfNotThenNot,
 
-	"equals":     Equals(),
-	"equals-not": EqualsNot(),
+	"equals":     Equals,
+	"equals-not": EqualsNot,
 
-	"count-true":  CountTrue(),
-	"count-false": CountFalse(),
+	"count-true":  CountTrue,
+	"count-false": CountFalse,
 
-	"count-is":      CountIs(0),
-	"count-less":    CountLess(0),
-	"count-greater": CountGreater(0),
+	"count-is":      func() Factor { return CountIs(0) },
+	"count-less":    func() Factor { return CountLess(0) },
+	"count-greater": func() Factor { return CountGreater(0) },
 
-	"given":      Given(0),
-	"given-not":  GivenNot(0),
-	"given-excl": GivenExcl(0),
+	"given":      func() Factor { return Given(0) },
+	"given-not":  func() Factor { return GivenNot(0) },
+	"given-excl": func() Factor { return GivenExcl(0) },
 
-	"outcome-is":      OutcomeIs(0, 0),
-	"outcome-is-not":  OutcomeIsNot(0, 0),
-	"outcome-either":  OutcomeEither(nil, 0),
-	"outcome-less":    OutcomeLess(0, 0),
-	"outcome-greater": OutcomeGreater(0, 0),
+	"outcome-is":      func() Factor { return OutcomeIs(0, 0) },
+	"outcome-is-not":  func() Factor { return OutcomeIsNot(0, 0) },
+	"outcome-either":  func() Factor { return OutcomeEither(nil, 0) },
+	"outcome-less":    func() Factor { return OutcomeLess(0, 0) },
+	"outcome-greater": func() Factor { return OutcomeGreater(0, 0) },
 
-	"bits": Bits(),
+	"bits": Bits,
 }
-- 
2.43.0


From 40b7277f0884af11e3974b5a351a10767e4be785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:24 +0000
Subject: [PATCH 11/50] fix: index parents of given logic operators in their
 order of declaration

---
 logic/given.go | 38 +++++++++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/logic/given.go b/logic/given.go
index c103e34..ceea0c0 100644
--- a/logic/given.go
+++ b/logic/given.go
@@ -15,6 +15,15 @@ func Given(idx int) Factor {
 	}
 }
 
+// parentBit returns the bit of the parent at the given index in the row number of a table.
+// The first parent corresponds to the highest bit.
+func parentBit(index, given int) (uint, error) {
+	if index < 0 || index >= given {
+		return 0, fmt.Errorf("parent index %d out of range for %d parents", index, given)
+	}
+	return uint(1) << uint(given-1-index), nil
+}
+
 func (f *givenFactor) SetArgs(args ...int) error {
 	if len(args) != 1 {
 		return fmt.Errorf("logic operator expects 1 argument, got %d", len(args))
@@ -24,12 +33,16 @@ func (f *givenFactor) SetArgs(args ...int) error {
 }
 
 func (f *givenFactor) Table(given int) ([]float64, error) {
+	bit, err := parentBit(f.Index, given)
+	if err != nil {
+		return nil, err
+	}
 	rows := uint(1) << uint(given) // 2^given
 	table := make([]float64, rows*2)
 
 	var i uint
 	for i = 0; i < rows; i++ {
-		isTrue := (i & (1 << f.Index)) == 0
+		isTrue := (i & bit) == 0
 		if isTrue {
 			table[i*2] = 1
 		} else {
@@ -59,12 +72,16 @@ func (f *givenNotFactor) SetArgs(args ...int) error {
 }
 
 func (f *givenNotFactor) Table(given int) ([]float64, error) {
+	bit, err := parentBit(f.Index, given)
+	if err != nil {
+		return nil, err
+	}
 	rows := uint(1) << uint(given) // 2^given
 	table := make([]float64, rows*2)
 
 	var i uint
 	for i = 0; i < rows; i++ {
-		isFalse := (i & (1 << f.Index)) != 0
+		isFalse := (i & bit) != 0
 		if isFalse {
 			table[i*2] = 1
 		} else {
@@ -94,27 +111,22 @@ func (f *givenExclFactor) SetArgs(args ...int) error {
 }
 
 func (f *givenExclFactor) Table(given int) ([]float64, error) {
+	bit, err := parentBit(f.Index, given)
+	if err != nil {
+		return nil, err
+	}
 	rows := uint(1) << uint(given) // 2^given
 	table := make([]float64, rows*2)
 
 	var i uint
 	for i = 0; i < rows; i++ {
-		isTrue := (i & (1 << f.Index)) == 0
+		isTrue := (i & bit) == 0
 		if !isTrue {
 			table[i*2+1] = 1
 			continue
 		}
 
-		otherTrue := false
-		for j := 0; j < given; j++ {
-			if j == f.Index {
-				continue
-			}
-			if (i & (1 << j)) == 0 {
-				otherTrue = true
-				break
-			}
-		}
+		otherTrue := i != rows-1-bit
 		if !otherTrue {
 			table[i*2] = 1
 		} else {
-- 
2.43.0


From ce59ca1ef5ccbe32c2e85e0ff3a90b3251975c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:26 +0000
Subject: [PATCH 12/50] fix: report out-of-range outcome indices of logic
 operators as errors

---
 logic/outcome.go | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/logic/outcome.go b/logic/outcome.go
index f46a26b..a446a24 100644
--- a/logic/outcome.go
+++ b/logic/outcome.go
@@ -4,6 +4,14 @@ import (
 	"fmt"
 )
 
+// checkOutcome checks an outcome index against the number of possible outcomes.
+func checkOutcome(index, count int) error {
+	if index < 0 || index >= count {
+		return fmt.Errorf("outcome index %d out of range for %d possible outcomes", index, count)
+	}
+	return nil
+}
+
 type outcomeIsFactor struct {
 	Index  int
 	Length int
@@ -32,6 +40,10 @@ func (f *outcomeIsFactor) Table(given int) ([]float64, error) {
 		return nil, fmt.Errorf("logic operator requires 1 operand, but %d were given", given)
 	}
 
+	if err := checkOutcome(f.Index, f.Length); err != nil {
+		return nil, err
+	}
+
 	table := make([]float64, f.Length*2)
 	for i := 0; i < f.Length; i++ {
 		table[i*2+1] = 1
@@ -70,6 +82,10 @@ func (f *outcomeIsNotFactor) Table(given int) ([]float64, error) {
 		return nil, fmt.Errorf("logic operator requires 1 operand, but %d were given", given)
 	}
 
+	if err := checkOutcome(f.Index, f.Length); err != nil {
+		return nil, err
+	}
+
 	table := make([]float64, f.Length*2)
 	for i := 0; i < f.Length; i++ {
 		table[i*2] = 1
@@ -108,6 +124,12 @@ func (f *outcomeEitherFactor) Table(given int) ([]float64, error) {
 		return nil, fmt.Errorf("logic operator requires 1 operand, but %d were given", given)
 	}
 
+	for _, idx := range f.Indices {
+		if err := checkOutcome(idx, f.Length); err != nil {
+			return nil, err
+		}
+	}
+
 	table := make([]float64, f.Length*2)
 	for i := 0; i < f.Length; i++ {
 		table[i*2+1] = 1
@@ -149,6 +171,10 @@ func (f *outcomeLessFactor) Table(given int) ([]float64, error) {
 		return nil, fmt.Errorf("logic operator requires 1 operand, but %d were given", given)
 	}
 
+	if f.Index < 0 || f.Index > f.Length {
+		return nil, fmt.Errorf("outcome index %d out of range for %d possible outcomes", f.Index, f.Length)
+	}
+
 	table := make([]float64, f.Length*2)
 	for i := 0; i < f.Index; i++ {
 		table[i*2] = 1
@@ -189,6 +215,10 @@ func (f *outcomeGreaterFactor) Table(given int) ([]float64, error) {
 		return nil, fmt.Errorf("logic operator requires 1 operand, but %d were given", given)
 	}
 
+	if f.Index < 0 || f.Index > f.Length {
+		return nil, fmt.Errorf("outcome index %d out of range for %d possible outcomes", f.Index, f.Length)
+	}
+
 	table := make([]float64, f.Length*2)
 	for i := 0; i < f.Index; i++ {
 		table[i*2+1] = 1
-- 
2.43.0


From d87e6890071b6f638c34ca7542dfde960ba1f3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:50 +0000
Subject: [PATCH 13/50] fix: report missing definitions in BIF-XML as an error

---
 xml.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xml.go b/xml.go
index 2c2d591..0cb1ca6 100644
--- a/xml.go
+++ b/xml.go
@@ -52,7 +52,10 @@ func FromBIFXML(content []byte) (*Network, error) {
 	variables := make([]Variable, len(bifNet.Network.Variables))
 	factors := []Factor{}
 	for i, variable := range bifNet.Network.Variables {
-		def := defs[variable.Name]
+		def, ok := defs[variable.Name]
+		if !ok {
+			return nil, fmt.Errorf("no definition for variable '%s'", variable.Name)
+		}
 
 		columns := len(variable.Outcomes)
 		tableValues := strings.Fields(def.Table)
-- 
2.43.0


From 9e3f782a72286ceb4b3fc887cb3a1ab8616accec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:51 +0000
Subject: [PATCH 14/50] fix: handle variables without a factor

---
 network.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/network.go b/network.go
index d19b59b..97666cf 100644
--- a/network.go
+++ b/network.go
@@ -147,6 +147,7 @@ func (n *Network) prepareVariables() error {
 		v := &n.variables[i]
 		idx := slices.IndexFunc(n.factors, func(f Factor) bool { return f.For == v.Name })
 		if idx < 0 {
+			v.Factor = &Factor{For: v.Name, columns: len(v.Outcomes)}
 			continue
 		}
 		v.Factor = &n.factors[idx]
-- 
2.43.0


From b09e39ba76c7acde3c24ed8b3729eb1bc3062735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:52 +0000
Subject: [PATCH 15/50] fix: check table sizes when constructing a network

---
 network.go | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/network.go b/network.go
index 97666cf..1a3a490 100644
--- a/network.go
+++ b/network.go
@@ -163,7 +163,34 @@ func (n *Network) prepareVariables() error {
 		}
 	}
 
-	return n.prepareUtilityNodes(varNames)
+	if err := n.prepareUtilityNodes(varNames); err != nil {
+		return err
+	}
+	return n.checkTables()
+}
+
+// checkTables checks that tables match the outcomes of their variables.
+// Tables of decisions are not used, and tables may be missing before training.
+func (n *Network) checkTables() error {
+	for i := range n.variables {
+		v := &n.variables[i]
+		if len(v.Outcomes) == 0 {
+			return fmt.Errorf("variable %s has no outcomes", v.Name)
+		}
+		if v.NodeType == ve.DecisionNode || (len(v.Factor.Table) == 0 && i != n.totalUtilityIndex) {
+			continue
+		}
+		expected := v.Factor.columns
+		if i != n.totalUtilityIndex {
+			for _, o := range v.Factor.outcomes {
+				expected *= o
+			}
+		}
+		if len(v.Factor.Table) != expected {
+			return fmt.Errorf("wrong number of values in table for variable %s; expected %d, got %d", v.Name, expected, len(v.Factor.Table))
+		}
+	}
+	return nil
 }
 
 // prepareUtilityNodes, called from prepareVariables.
-- 
2.43.0


From dddb30bd420485b0f25992e9ce11059c7382bcdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:54 +0000
Subject: [PATCH 16/50] fix: reject networks with cycles

---
 network.go | 36 +++++++++++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/network.go b/network.go
index 1a3a490..54f0a2b 100644
--- a/network.go
+++ b/network.go
@@ -166,7 +166,41 @@ func (n *Network) prepareVariables() error {
 	if err := n.prepareUtilityNodes(varNames); err != nil {
 		return err
 	}
-	return n.checkTables()
+	if err := n.checkTables(); err != nil {
+		return err
+	}
+	return n.checkAcyclic(varNames)
+}
+
+// checkAcyclic checks that no variable is its own ancestor.
+func (n *Network) checkAcyclic(varNames map[string]*Variable) error {
+	const visiting, done = 1, 2
+	state := make(map[string]int, len(n.variables))
+
+	var visit func(v *Variable) error
+	visit = func(v *Variable) error {
+		switch state[v.Name] {
+		case visiting:
+			return fmt.Errorf("network contains a cycle through variable %s", v.Name)
+		case done:
+			return nil
+		}
+		state[v.Name] = visiting
+		for _, parent := range v.Factor.Given {
+			if err := visit(varNames[parent]); err != nil {
+				return err
+			}
+		}
+		state[v.Name] = done
+		return nil
+	}
+
+	for i := range n.variables {
+		if err := visit(&n.variables[i]); err != nil {
+			return err
+		}
+	}
+	return nil
 }
 
 // checkTables checks that tables match the outcomes of their variables.
-- 
2.43.0


From e4c42f990bb6966b930e4606ef0c5fbf919b057d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:41 +0000
Subject: [PATCH 17/50] fix: reject ambiguous factors and unsuitable parents

---
 network.go | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/network.go b/network.go
index 54f0a2b..435523b 100644
--- a/network.go
+++ b/network.go
@@ -166,6 +166,9 @@ func (n *Network) prepareVariables() error {
 	if err := n.prepareUtilityNodes(varNames); err != nil {
 		return err
 	}
+	if err := n.checkFactors(varNames); err != nil {
+		return err
+	}
 	if err := n.checkTables(); err != nil {
 		return err
 	}
@@ -203,6 +206,33 @@ func (n *Network) checkAcyclic(varNames map[string]*Variable) error {
 	return nil
 }
 
+// checkFactors checks that each factor defines exactly one variable of the network,
+// and that its parents are distinct and suitable for the variable.
+func (n *Network) checkFactors(varNames map[string]*Variable) error {
+	done := make(map[string]bool, len(n.factors))
+	for i := range n.factors {
+		f := &n.factors[i]
+		v, ok := varNames[f.For]
+		if !ok {
+			return fmt.Errorf("variable %s for factor not found", f.For)
+		}
+		if done[f.For] {
+			return fmt.Errorf("duplicate factor for variable %s", f.For)
+		}
+		done[f.For] = true
+
+		for j, g := range f.Given {
+			if slices.Contains(f.Given[:j], g) {
+				return fmt.Errorf("duplicate parent variable %s of %s", g, f.For)
+			}
+			if v.NodeType != ve.UtilityNode && varNames[g].NodeType == ve.UtilityNode {
+				return fmt.Errorf("utility variable %s can't be a parent of %s", g, f.For)
+			}
+		}
+	}
+	return nil
+}
+
 // checkTables checks that tables match the outcomes of their variables.
 // Tables of decisions are not used, and tables may be missing before training.
 func (n *Network) checkTables() error {
-- 
2.43.0


From 1594507606a1fb832fc9a8de40c70c7242f22e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:42 +0000
Subject: [PATCH 18/50] fix: report invalid evidence and query variables as
 errors

---
 network.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/network.go b/network.go
index 435523b..72f6f73 100644
--- a/network.go
+++ b/network.go
@@ -449,6 +449,9 @@ func (n *Network) solve(evidence map[string]string, query []string, utility bool
 		if !ok {
 			return nil, fmt.Errorf("evidence variable %s not found", name)
 		}
+		if vv.Variable.NodeType == ve.UtilityNode {
+			return nil, fmt.Errorf("evidence variable %s is a utility variable", name)
+		}
 		idx := slices.Index(vv.Variable.Outcomes, value)
 		if idx < 0 {
 			return nil, fmt.Errorf("outcome %s for evidence variable %s not found", value, name)
@@ -462,6 +465,12 @@ func (n *Network) solve(evidence map[string]string, query []string, utility bool
 		if !ok {
 			return nil, fmt.Errorf("query variable %s not found", name)
 		}
+		if vv.Variable.NodeType == ve.UtilityNode {
+			return nil, fmt.Errorf("query variable %s is a utility variable", name)
+		}
+		if _, ok := evidence[name]; ok {
+			return nil, fmt.Errorf("query variable %s has evidence", name)
+		}
 		q[i] = vv.VeVariable
 	}
 
@@ -472,6 +481,9 @@ func (n *Network) solve(evidence map[string]string, query []string, utility bool
 			if !ok {
 				return nil, fmt.Errorf("utility query variable %s not found", utilityVar)
 			}
+			if u.Variable.NodeType != ve.UtilityNode {
+				return nil, fmt.Errorf("utility query variable %s is not a utility variable", utilityVar)
+			}
 			util = &u.VeVariable
 		}
 		return n.ve.SolveUtility(ev, q, util), nil
-- 
2.43.0


From fd44fdcdc4f374baebb9fad2ddddcee02800c1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:43 +0000
Subject: [PATCH 19/50] fix: ToEvidence works before the network is solved

---
 network.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/network.go b/network.go
index 72f6f73..feb916f 100644
--- a/network.go
+++ b/network.go
@@ -497,15 +497,16 @@ func (n *Network) solve(evidence map[string]string, query []string, utility bool
 // As an example, say we have a variable with outcomes [yes, no]. Given evidence "yes" (index 0):
 // we get the following probabilities: [1, 0].
 func (n *Network) ToEvidence(variable string, value string) ([]float64, error) {
-	vv, ok := n.variableNames[variable]
-	if !ok {
+	varIdx := slices.IndexFunc(n.variables, func(v Variable) bool { return v.Name == variable })
+	if varIdx < 0 {
 		return nil, fmt.Errorf("evidence variable %s not found", variable)
 	}
-	idx := slices.Index(vv.Variable.Outcomes, value)
+	outcomes := n.variables[varIdx].Outcomes
+	idx := slices.Index(outcomes, value)
 	if idx < 0 {
 		return nil, fmt.Errorf("outcome %s for evidence variable %s not found", value, variable)
 	}
-	probs := make([]float64, len(vv.Variable.Outcomes))
+	probs := make([]float64, len(outcomes))
 	probs[idx] = 1.0
 	return probs, nil
 }
-- 
2.43.0


From ae83357a9ac9bf554c6945b0251a925c23076438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:45 +0000
Subject: [PATCH 20/50] fix: detect duplicate variable IDs

---
 ve/variables.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ve/variables.go b/ve/variables.go
index eacaf05..cb6bc78 100644
--- a/ve/variables.go
+++ b/ve/variables.go
@@ -25,6 +25,7 @@ func (v *Variables) AddVariable(id int, nodeType NodeType, outcomes uint16) Vari
 	if _, ok := v.ids[id]; ok {
 		panic(fmt.Sprintf("there is already a variable with ID %d", id))
 	}
+	v.ids[id] = true
 	v.variables = append(v.variables,
 		Variable{
 			id:       id,
-- 
2.43.0


From 3864a29527933e36dd13edc6570d05abeae1c953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:13 +0000
Subject: [PATCH 21/50] fix: solve decisions in temporal order when related
 indirectly

---
 network.go | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/network.go b/network.go
index feb916f..7f581c1 100644
--- a/network.go
+++ b/network.go
@@ -571,6 +571,11 @@ func (n *Network) toVE(evidence map[string]string) (*ve.VE, map[string]*variable
 
 		// don't add factors for unsolved decision nodes, but add dependencies
 		if forVar.VeVariable.NodeType() == ve.DecisionNode {
+			for _, d := range n.earlierDecisions(&f) {
+				if !slices.ContainsFunc(variables, varNames[d].VeVariable.Is) {
+					variables = append(variables, varNames[d].VeVariable)
+				}
+			}
 			dependencies[forVar.VeVariable] = variables
 			continue
 		}
@@ -604,6 +609,32 @@ func (n *Network) toVE(evidence map[string]string) (*ve.VE, map[string]*variable
 	return ve.New(vars, factors, dependencies, weights), varNames, nil
 }
 
+// earlierDecisions returns all decisions that are ancestors of a factor's primary variable.
+//
+// Earlier decisions can be related to a decision indirectly, e.g. through an observed chance variable.
+func (n *Network) earlierDecisions(f *Factor) []string {
+	result := []string{}
+	visited := map[string]bool{}
+
+	var visit func(f *Factor)
+	visit = func(f *Factor) {
+		for i := range n.variables {
+			v := &n.variables[i]
+			if visited[v.Name] || !slices.Contains(f.Given, v.Name) {
+				continue
+			}
+			visited[v.Name] = true
+			if v.NodeType == ve.DecisionNode {
+				result = append(result, v.Name)
+			}
+			visit(v.Factor)
+		}
+	}
+	visit(f)
+
+	return result
+}
+
 // prepareUtilityWeights derives utility weights from a potential total utility node.
 func (n *Network) prepareUtilityWeights() ([]float64, error) {
 	utilityNodes := []*Variable{}
-- 
2.43.0


From da7a58172be76cb38d9d4bf530db8bd8600b187f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:11 +0000
Subject: [PATCH 22/50] fix: reset the selected state when selecting a node by
 mouse in the TUI app

---
 internal/tui/input.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/internal/tui/input.go b/internal/tui/input.go
index 92ac2a2..1e3311d 100644
--- a/internal/tui/input.go
+++ b/internal/tui/input.go
@@ -206,7 +206,7 @@ func (a *App) mouseInputGraph(action tview.MouseAction, event *tcell.EventMouse)
 		x, y := a.mousePosInGraph(event.Position())
 		for i, node := range a.nodes {
 			if node.Bounds().Contains(x, y) {
-				a.selectedNode = i
+				a.selectNode(i)
 				if outcome, ok := node.SelectedOutcome(x, y); ok {
 					a.selectedState = outcome
 					if err := a.inputEnter(); err != nil {
@@ -222,7 +222,7 @@ func (a *App) mouseInputGraph(action tview.MouseAction, event *tcell.EventMouse)
 		x, y := a.mousePosInGraph(event.Position())
 		for i, node := range a.nodes {
 			if node.Bounds().Contains(x, y) {
-				a.selectedNode = i
+				a.selectNode(i)
 				a.render(true)
 				a.showTable()
 				break
@@ -288,6 +288,14 @@ func (a *App) mousePosInGraph(x, y int) (int, int) {
 	return x - boxX + scrollX, y - boxY + scrollY
 }
 
+// selectNode selects a node, and resets the selected state if it is not the current node.
+func (a *App) selectNode(index int) {
+	if index != a.selectedNode {
+		a.selectedState = 0
+	}
+	a.selectedNode = index
+}
+
 func (a *App) selectNextNode() {
 	a.selectedNode = (a.selectedNode + 1) % len(a.nodes)
 	a.selectedState = 0
-- 
2.43.0


From 154cf6007e06589bf833695b92eb5f6e39f46873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:12 +0000
Subject: [PATCH 23/50] fix: show nodes with negative coordinates at the canvas
 border

---
 internal/tui/node.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tui/node.go b/internal/tui/node.go
index 75e7414..3e86107 100644
--- a/internal/tui/node.go
+++ b/internal/tui/node.go
@@ -48,8 +48,8 @@ func NewNode(n bbn.Variable) Node {
 	}
 
 	bounds := Bounds{
-		X: n.Position[0],
-		Y: n.Position[1],
+		X: max(n.Position[0], 0),
+		Y: max(n.Position[1], 0),
 		W: max(maxStateLen+bars+9, titleLength) + 4,
 		H: len(n.Outcomes) + 3,
 	}
-- 
2.43.0


From 04986ceb302cc5b32ae25b6a247df9688fe9eef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:13 +0000
Subject: [PATCH 24/50] fix: ignore non-ASCII digits in the TUI app

---
 internal/tui/input.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/internal/tui/input.go b/internal/tui/input.go
index 1e3311d..523eace 100644
--- a/internal/tui/input.go
+++ b/internal/tui/input.go
@@ -5,7 +5,6 @@ import (
 	"path"
 	"strconv"
 	"strings"
-	"unicode"
 
 	"github.com/gdamore/tcell/v2"
 	"github.com/mlange-42/bbn"
@@ -31,7 +30,7 @@ func (a *App) inputMainPanel(event *tcell.EventKey) *tcell.EventKey {
 		a.selectedState = (a.selectedState + 1) % len(a.nodes[a.selectedNode].Node().Outcomes)
 		a.render(true)
 		return nil
-	} else if unicode.IsDigit(event.Rune()) {
+	} else if event.Rune() >= '0' && event.Rune() <= '9' {
 		// Select states by index/number keys.
 		a.selectNodeOutcome(string(event.Rune()))
 		return nil
-- 
2.43.0


From c2a2d16a3900e9a811b1b28002b5a65ca53e1b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:15 +0000
Subject: [PATCH 25/50] fix: report unknown node colors as an error

---
 cmd/bbn/inference.go |  3 +++
 internal/tui/app.go  |  3 +++
 internal/tui/node.go | 10 ++++++++++
 3 files changed, 16 insertions(+)

diff --git a/cmd/bbn/inference.go b/cmd/bbn/inference.go
index 4e5d922..77c64dd 100644
--- a/cmd/bbn/inference.go
+++ b/cmd/bbn/inference.go
@@ -72,6 +72,9 @@ func runInferenceCommand(path string, evidence []string) ([]bbn.Variable, map[st
 	}
 
 	nodes := net.Variables()
+	if err := tui.CheckColors(nodes); err != nil {
+		return nil, nil, nil, err
+	}
 	tuiNodes := make([]tui.Node, len(nodes))
 	for i, n := range nodes {
 		tuiNodes[i] = tui.NewNode(n)
diff --git a/internal/tui/app.go b/internal/tui/app.go
index 933b5ab..50b6cfb 100644
--- a/internal/tui/app.go
+++ b/internal/tui/app.go
@@ -57,6 +57,9 @@ func (a *App) Run() error {
 
 	a.network = net
 	nodes := a.network.Variables()
+	if err := CheckColors(nodes); err != nil {
+		return err
+	}
 
 	if a.trainingFile != "" {
 		a.network, err = TrainNetwork(net, nodes, a.trainingFile, a.noData, a.csvDelimiter)
diff --git a/internal/tui/node.go b/internal/tui/node.go
index 3e86107..b0c3b72 100644
--- a/internal/tui/node.go
+++ b/internal/tui/node.go
@@ -91,6 +91,16 @@ func NewNode(n bbn.Variable) Node {
 	return &node
 }
 
+// CheckColors checks that all node colors are known.
+func CheckColors(nodes []bbn.Variable) error {
+	for i := range nodes {
+		if _, err := nodeColor(&nodes[i]); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
 func nodeColor(n *bbn.Variable) (Color, error) {
 	color := White
 	if n.Color == "" {
-- 
2.43.0


From 764cc6a34b555f2b5bea20c98bda7550c08d1e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:16 +0000
Subject: [PATCH 26/50] fix: show errors on saving in the TUI app instead of
 crashing

---
 internal/tui/input.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/internal/tui/input.go b/internal/tui/input.go
index 523eace..bd2fd20 100644
--- a/internal/tui/input.go
+++ b/internal/tui/input.go
@@ -54,7 +54,10 @@ func (a *App) inputMainPanel(event *tcell.EventKey) *tcell.EventKey {
 		a.toggleIgnorePolicy()
 		return nil
 	} else if event.Key() == tcell.KeyCtrlS {
-		a.saveNetwork()
+		a.graph.SetTitle("")
+		if err := a.saveNetwork(); err != nil {
+			a.graph.SetTitle(" Error saving network: " + err.Error() + " ")
+		}
 		return nil
 	} else {
 		return a.moveNode(event)
@@ -74,19 +77,16 @@ func (a *App) toggleIgnorePolicy() {
 	a.render(true)
 }
 
-func (a *App) saveNetwork() {
+func (a *App) saveNetwork() error {
 	yml, err := bbn.ToYAML(a.network)
 	if err != nil {
-		panic(err)
+		return err
 	}
 
 	ext := path.Ext(a.file)
 	saveFile := strings.TrimSuffix(a.file, ext) + "-save.yml"
 
-	err = os.WriteFile(saveFile, yml, 0644)
-	if err != nil {
-		panic(err)
-	}
+	return os.WriteFile(saveFile, yml, 0644)
 }
 
 func (a *App) moveNode(event *tcell.EventKey) *tcell.EventKey {
-- 
2.43.0


From d58e40e9e2ceefc350e353c492d9051e71ab65c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:17 +0000
Subject: [PATCH 27/50] fix: reject networks without variables

---
 network.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/network.go b/network.go
index 7f581c1..6229aef 100644
--- a/network.go
+++ b/network.go
@@ -132,6 +132,9 @@ func FromFile(path string) (*Network, error) {
 
 // prepareVariables, called from the constructor.
 func (n *Network) prepareVariables() error {
+	if len(n.variables) == 0 {
+		return fmt.Errorf("network has no variables")
+	}
 	varNames := map[string]*Variable{}
 	outcomes := make(map[string]int, len(n.variables))
 	for i := range n.variables {
-- 
2.43.0


From f04347aa2ef5a30d3369818b82c4be43b1ed724f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:11 +0000
Subject: [PATCH 28/50] fix: make results of variable elimination reproducible

Factors were processed in random map order, so that rounding, and with it
the handling of ties between decision options, differed between runs.
---
 network.go | 16 ++++++++++++++--
 ve/ve.go   | 31 ++++++++++++++++++++++++-------
 2 files changed, 38 insertions(+), 9 deletions(-)

diff --git a/network.go b/network.go
index 6229aef..691043d 100644
--- a/network.go
+++ b/network.go
@@ -446,8 +446,15 @@ func (n *Network) solve(evidence map[string]string, query []string, utility bool
 		return nil, err
 	}
 
+	names := make([]string, 0, len(evidence))
+	for name := range evidence {
+		names = append(names, name)
+	}
+	slices.Sort(names)
+
 	ev := []ve.Evidence{}
-	for name, value := range evidence {
+	for _, name := range names {
+		value := evidence[name]
 		vv, ok := n.variableNames[name]
 		if !ok {
 			return nil, fmt.Errorf("evidence variable %s not found", name)
@@ -676,7 +683,12 @@ func (n *Network) prepareUtilityWeights() ([]float64, error) {
 // policyFactors collects policies as factors.
 func (n *Network) policyFactors(vars *ve.Variables, varIDs []variable, evidence map[string]string) []ve.Factor {
 	factors := []ve.Factor{}
-	for name, f := range n.policies {
+	for i := range n.variables {
+		name := n.variables[i].Name
+		f, ok := n.policies[name]
+		if !ok {
+			continue
+		}
 		// if decision variable has evidence (and policies are ignored), don't add a factor
 		if _, isEvidence := evidence[name]; isEvidence {
 			continue
diff --git a/ve/ve.go b/ve/ve.go
index 4f767a4..652db90 100644
--- a/ve/ve.go
+++ b/ve/ve.go
@@ -45,6 +45,18 @@ func (ve *VE) Variables() *Variables {
 	return ve.variables
 }
 
+// factorIDs returns the IDs of all factors in the order of their creation.
+//
+// Iterating factors in a fixed order makes results reproducible, as rounding depends on the order of operations.
+func (ve *VE) factorIDs() []int {
+	ids := make([]int, 0, len(ve.factors))
+	for id := range ve.factors {
+		ids = append(ids, id)
+	}
+	slices.Sort(ids)
+	return ids
+}
+
 // getDecisions finds all decision variables and returns them in topological order.
 func (ve *VE) getDecisions() []Variable {
 	dec := []Variable{}
@@ -107,7 +119,8 @@ func (ve *VE) sumUtilities() {
 	indices := []int{}
 	factors := []*Factor{}
 
-	for k, f := range ve.factors {
+	for _, k := range ve.factorIDs() {
+		f := ve.factors[k]
 		for i, u := range utils {
 			if slices.Contains(f.variables, u) {
 				scaled := f
@@ -328,7 +341,8 @@ func (ve *VE) solvePolicies(decisions []Variable, single bool) map[Variable][2]*
 
 func (ve *VE) findDecisionFactors(decision Variable, result []*Factor) []*Factor {
 	deps := ve.dependencies[decision]
-	for _, f := range ve.factors {
+	for _, k := range ve.factorIDs() {
+		f := ve.factors[k]
 		if !slices.Contains(f.variables, decision) {
 			continue
 		}
@@ -351,7 +365,8 @@ func (ve *VE) findDecisionFactors(decision Variable, result []*Factor) []*Factor
 		result = append(result, f)
 	}
 	if len(result) == 0 {
-		for _, f := range ve.factors {
+		for _, k := range ve.factorIDs() {
+			f := ve.factors[k]
 			if !slices.Contains(f.variables, decision) {
 				continue
 			}
@@ -367,8 +382,8 @@ func (ve *VE) findDecisionFactors(decision Variable, result []*Factor) []*Factor
 
 func (ve *VE) restrictEvidence(evidence Evidence) {
 	indices := make([]int, 0, len(ve.factors))
-	for k, v := range ve.factors {
-		if slices.Contains(v.variables, evidence.Variable) {
+	for _, k := range ve.factorIDs() {
+		if slices.Contains(ve.factors[k].variables, evidence.Variable) {
 			indices = append(indices, k)
 		}
 	}
@@ -388,7 +403,8 @@ func (ve *VE) removeHidden(variable Variable) {
 	factors := make([]*Factor, 0, len(ve.factors))
 	//utilityFactors := []*Factor{}
 
-	for k, f := range ve.factors {
+	for _, k := range ve.factorIDs() {
+		f := ve.factors[k]
 		if slices.ContainsFunc(f.variables, func(v Variable) bool { return v.id == variable.id }) {
 			indices = append(indices, k)
 
@@ -428,7 +444,8 @@ func (ve *VE) removeHidden(variable Variable) {
 func (ve *VE) multiplyAll() *Factor {
 	factors := make([]*Factor, 0, len(ve.factors))
 	//utilityFactors := []*Factor{}
-	for _, f := range ve.factors {
+	for _, k := range ve.factorIDs() {
+		f := ve.factors[k]
 		/*hasUtility := false
 		for _, v := range f.Variables {
 			if v.NodeType() == UtilityNode {
-- 
2.43.0


From 0c70c51c54678eb05a3e6c223d1b190a813d1796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:28 +0000
Subject: [PATCH 29/50] fix: queries for decisions without influence on any
 remaining factor

Querying an unsolved decision that is not contained in any factor
panicked, and utility factors did not contain such a query variable.
---
 ve/ve.go | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/ve/ve.go b/ve/ve.go
index 652db90..fff3e86 100644
--- a/ve/ve.go
+++ b/ve/ve.go
@@ -267,10 +267,37 @@ func (ve *VE) solve(evidence []Evidence, query []Variable, utility bool, utility
 	}
 
 	ve.eliminateHidden(evidence, query, false)
+	ve.addMissing(evidence, query)
 
 	return ve.summarize()
 }
 
+// addMissing adds unit factors for query variables that are not contained in any factor,
+// like unsolved decisions without influence on the remaining factors.
+func (ve *VE) addMissing(evidence []Evidence, query []Variable) {
+	for _, q := range query {
+		if slices.ContainsFunc(evidence, func(ev Evidence) bool { return ev.Variable.id == q.id }) {
+			continue
+		}
+		found := false
+		for _, f := range ve.factors {
+			if slices.ContainsFunc(f.variables, q.Is) {
+				found = true
+				break
+			}
+		}
+		if found {
+			continue
+		}
+		data := make([]float64, q.outcomes)
+		for i := range data {
+			data[i] = 1
+		}
+		f := ve.variables.CreateFactor([]Variable{q}, data)
+		ve.factors[f.id] = &f
+	}
+}
+
 // SolvePolicies solves decision policies.
 //
 // Solves only the last decision if single is true.
-- 
2.43.0


From 44167b23d5bcfc9d23a65648c8e3bfbe36ab5fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:26 +0000
Subject: [PATCH 30/50] fix: reject variables without a name

---
 network.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/network.go b/network.go
index 691043d..38b3d43 100644
--- a/network.go
+++ b/network.go
@@ -139,6 +139,9 @@ func (n *Network) prepareVariables() error {
 	outcomes := make(map[string]int, len(n.variables))
 	for i := range n.variables {
 		v := &n.variables[i]
+		if v.Name == "" {
+			return fmt.Errorf("variable without a name")
+		}
 		if _, ok := varNames[v.Name]; ok {
 			return fmt.Errorf("duplicate variable name %s", v.Name)
 		}
-- 
2.43.0


From 32c65e59a3034ac8f87fee6b035079fc8fd0e235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:41 +0000
Subject: [PATCH 31/50] fix: treat empty tables as missing tables

---
 network.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/network.go b/network.go
index 38b3d43..6c7e2d7 100644
--- a/network.go
+++ b/network.go
@@ -247,7 +247,11 @@ func (n *Network) checkTables() error {
 		if len(v.Outcomes) == 0 {
 			return fmt.Errorf("variable %s has no outcomes", v.Name)
 		}
-		if v.NodeType == ve.DecisionNode || (len(v.Factor.Table) == 0 && i != n.totalUtilityIndex) {
+		if v.NodeType == ve.DecisionNode {
+			continue
+		}
+		if len(v.Factor.Table) == 0 && i != n.totalUtilityIndex {
+			v.Factor.Table = nil
 			continue
 		}
 		expected := v.Factor.columns
-- 
2.43.0


From 718be928187416ec5cc5c58d696fdaeceee60e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:15 +0000
Subject: [PATCH 32/50] fix: policies for information states without defined
 utility

---
 ve/variables.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ve/variables.go b/ve/variables.go
index cb6bc78..fa1a47a 100644
--- a/ve/variables.go
+++ b/ve/variables.go
@@ -202,7 +202,10 @@ func (v *Variables) Policy(f *Factor, variable Variable) Factor {
 		}
 
 		if len(maxIndices) == 0 {
-			panic("no utility values to derive policy")
+			// no utility is defined, so no option is better than the others
+			for c := range rowData {
+				maxIndices = append(maxIndices, c)
+			}
 		}
 
 		probValue := 1.0 / float64(len(maxIndices))
-- 
2.43.0


From 5d28073fa83e7738f2eab244d2b752f86bfc14a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:15 +0000
Subject: [PATCH 33/50] fix: rapid clicks on different outcomes are swallowed
 as double clicks in the TUI app

---
 internal/tui/app.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/tui/app.go b/internal/tui/app.go
index 50b6cfb..978e525 100644
--- a/internal/tui/app.go
+++ b/internal/tui/app.go
@@ -97,6 +97,8 @@ func (a *App) Run() error {
 
 	a.app = tview.NewApplication()
 	a.app.EnableMouse(true)
+	// Each click counts, there are no double clicks.
+	tview.DoubleClickInterval = 0
 
 	a.pages = tview.NewPages()
 
-- 
2.43.0


From 3130cd1ae315cef1cab55159f2f214bc181b7ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:58 +0000
Subject: [PATCH 34/50] fix: mouse input in the TUI app goes to the visible one
 of overlapping nodes

---
 internal/tui/input.go | 39 ++++++++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/internal/tui/input.go b/internal/tui/input.go
index bd2fd20..1c2f5df 100644
--- a/internal/tui/input.go
+++ b/internal/tui/input.go
@@ -203,29 +203,23 @@ func (a *App) mouseInputGraph(action tview.MouseAction, event *tcell.EventMouse)
 
 	if action == tview.MouseLeftClick {
 		x, y := a.mousePosInGraph(event.Position())
-		for i, node := range a.nodes {
-			if node.Bounds().Contains(x, y) {
-				a.selectNode(i)
-				if outcome, ok := node.SelectedOutcome(x, y); ok {
-					a.selectedState = outcome
-					if err := a.inputEnter(); err != nil {
-						panic(err)
-					}
+		if i, ok := a.nodeAt(x, y); ok {
+			a.selectNode(i)
+			if outcome, ok := a.nodes[i].SelectedOutcome(x, y); ok {
+				a.selectedState = outcome
+				if err := a.inputEnter(); err != nil {
+					panic(err)
 				}
-				a.render(true)
-				break
 			}
+			a.render(true)
 		}
 		return tview.MouseConsumed, nil
 	} else if action == tview.MouseRightClick {
 		x, y := a.mousePosInGraph(event.Position())
-		for i, node := range a.nodes {
-			if node.Bounds().Contains(x, y) {
-				a.selectNode(i)
-				a.render(true)
-				a.showTable()
-				break
-			}
+		if i, ok := a.nodeAt(x, y); ok {
+			a.selectNode(i)
+			a.render(true)
+			a.showTable()
 		}
 		return tview.MouseConsumed, nil
 	}
@@ -287,6 +281,17 @@ func (a *App) mousePosInGraph(x, y int) (int, int) {
 	return x - boxX + scrollX, y - boxY + scrollY
 }
 
+// nodeAt returns the index of the node visible at the given position.
+// Where nodes overlap, the last one is on top.
+func (a *App) nodeAt(x, y int) (int, bool) {
+	for i := len(a.nodes) - 1; i >= 0; i-- {
+		if a.nodes[i].Bounds().Contains(x, y) {
+			return i, true
+		}
+	}
+	return -1, false
+}
+
 // selectNode selects a node, and resets the selected state if it is not the current node.
 func (a *App) selectNode(index int) {
 	if index != a.selectedNode {
-- 
2.43.0


From a8f0050b2a951ae0fbaa88dfa20dfcf926dc74ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:25 +0000
Subject: [PATCH 35/50] fix: crash of the TUI app on probabilities outside of
 [0, 1]

---
 internal/tui/node.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/tui/node.go b/internal/tui/node.go
index b0c3b72..0bf6fb6 100644
--- a/internal/tui/node.go
+++ b/internal/tui/node.go
@@ -196,7 +196,8 @@ func (n *node) drawBars(probs []float64, selected bool, state int, evidence bool
 	for i, p := range probs {
 		var full, frac float64
 		if !math.IsNaN(p) {
-			full, frac = math.Modf(p * 10)
+			// probabilities from tables with negative values can be outside of [0, 1]
+			full, frac = math.Modf(min(max(p, 0), 1) * 10)
 		}
 		for j := 0; j < int(full); j++ {
 			n.runes[i+2][n.barsX+j] = Full
-- 
2.43.0


From 4a72427b1b64e663afcbbb87ff8865c97a6c0722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:08 +0000
Subject: [PATCH 36/50] fix: keys do not close TUI dialogs after a click on
 their help line

---
 internal/tui/app.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/tui/app.go b/internal/tui/app.go
index 978e525..53cc445 100644
--- a/internal/tui/app.go
+++ b/internal/tui/app.go
@@ -117,13 +117,13 @@ func (a *App) Run() error {
 	mainPanel.SetInputCapture(a.inputMainPanel)
 	a.graph.SetMouseCapture(a.mouseInputGraph)
 
-	a.table.SetInputCapture(a.inputTable)
+	a.tableDialog.SetInputCapture(a.inputTable)
 	a.table.SetMouseCapture(a.mouseInputTable)
 
-	a.help.SetInputCapture(a.inputHelp)
+	a.helpDialog.SetInputCapture(a.inputHelp)
 	a.help.SetMouseCapture(a.mouseInputHelp)
 
-	a.info.SetInputCapture(a.inputInfo)
+	a.infoDialog.SetInputCapture(a.inputInfo)
 	a.info.SetMouseCapture(a.mouseInputInfo)
 
 	rooted := a.app.SetRoot(a.pages, true)
-- 
2.43.0


From aca993ee0b1c9f6e6a868245bdcac0d6fde49a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:25 +0000
Subject: [PATCH 37/50] fix: keys are ignored in the TUI app if a dialog does
 not fit into the terminal

---
 internal/tui/app.go   |  8 ++------
 internal/tui/input.go | 38 +++++++++++++++++++++++++++++---------
 2 files changed, 31 insertions(+), 15 deletions(-)

diff --git a/internal/tui/app.go b/internal/tui/app.go
index 53cc445..78cb704 100644
--- a/internal/tui/app.go
+++ b/internal/tui/app.go
@@ -114,16 +114,12 @@ func (a *App) Run() error {
 	a.infoDialog = a.createInfoPanel()
 	a.pages.AddPage("Info", a.infoDialog, true, false)
 
-	mainPanel.SetInputCapture(a.inputMainPanel)
+	// Captured here, as widgets outside of the visible area get no key events.
+	a.app.SetInputCapture(a.input)
 	a.graph.SetMouseCapture(a.mouseInputGraph)
 
-	a.tableDialog.SetInputCapture(a.inputTable)
 	a.table.SetMouseCapture(a.mouseInputTable)
-
-	a.helpDialog.SetInputCapture(a.inputHelp)
 	a.help.SetMouseCapture(a.mouseInputHelp)
-
-	a.infoDialog.SetInputCapture(a.inputInfo)
 	a.info.SetMouseCapture(a.mouseInputInfo)
 
 	rooted := a.app.SetRoot(a.pages, true)
diff --git a/internal/tui/input.go b/internal/tui/input.go
index 1c2f5df..6775d29 100644
--- a/internal/tui/input.go
+++ b/internal/tui/input.go
@@ -12,6 +12,20 @@ import (
 	"github.com/rivo/tview"
 )
 
+// input forwards key events to the visible dialog, or to the main panel.
+func (a *App) input(event *tcell.EventKey) *tcell.EventKey {
+	switch front, _ := a.pages.GetFrontPage(); front {
+	case "Table":
+		return a.inputTable(event)
+	case "Help":
+		return a.inputHelp(event)
+	case "Info":
+		return a.inputInfo(event)
+	default:
+		return a.inputMainPanel(event)
+	}
+}
+
 func (a *App) inputMainPanel(event *tcell.EventKey) *tcell.EventKey {
 	if event.Key() == tcell.KeyEsc {
 		// Exit program.
@@ -186,17 +200,23 @@ func (a *App) showInfo() {
 	a.app.SetFocus(a.info)
 }
 
+// hideDialog hides a dialog and returns focus to the main panel.
+func (a *App) hideDialog(name string) {
+	a.pages.HidePage(name)
+	a.app.SetFocus(a.graph)
+}
+
 func (a *App) mouseInputGraph(action tview.MouseAction, event *tcell.EventMouse) (tview.MouseAction, *tcell.EventMouse) {
 	if action == tview.MouseLeftClick || action == tview.MouseRightClick {
 		front, _ := a.pages.GetFrontPage()
 		if front == "Table" {
-			a.pages.HidePage("Table")
+			a.hideDialog("Table")
 			return tview.MouseConsumed, nil
 		} else if front == "Help" {
-			a.pages.HidePage("Help")
+			a.hideDialog("Help")
 			return tview.MouseConsumed, nil
 		} else if front == "Info" {
-			a.pages.HidePage("Info")
+			a.hideDialog("Info")
 			return tview.MouseConsumed, nil
 		}
 	}
@@ -229,7 +249,7 @@ func (a *App) mouseInputGraph(action tview.MouseAction, event *tcell.EventMouse)
 
 func (a *App) mouseInputTable(action tview.MouseAction, event *tcell.EventMouse) (tview.MouseAction, *tcell.EventMouse) {
 	if action == tview.MouseLeftClick || action == tview.MouseRightClick {
-		a.pages.HidePage("Table")
+		a.hideDialog("Table")
 		return tview.MouseConsumed, nil
 	}
 	return action, event
@@ -237,7 +257,7 @@ func (a *App) mouseInputTable(action tview.MouseAction, event *tcell.EventMouse)
 
 func (a *App) mouseInputHelp(action tview.MouseAction, event *tcell.EventMouse) (tview.MouseAction, *tcell.EventMouse) {
 	if action == tview.MouseLeftClick || action == tview.MouseRightClick {
-		a.pages.HidePage("Help")
+		a.hideDialog("Help")
 		return tview.MouseConsumed, nil
 	}
 	return action, event
@@ -245,7 +265,7 @@ func (a *App) mouseInputHelp(action tview.MouseAction, event *tcell.EventMouse)
 
 func (a *App) mouseInputInfo(action tview.MouseAction, event *tcell.EventMouse) (tview.MouseAction, *tcell.EventMouse) {
 	if action == tview.MouseLeftClick || action == tview.MouseRightClick {
-		a.pages.HidePage("Info")
+		a.hideDialog("Info")
 		return tview.MouseConsumed, nil
 	}
 	return action, event
@@ -253,7 +273,7 @@ func (a *App) mouseInputInfo(action tview.MouseAction, event *tcell.EventMouse)
 
 func (a *App) inputTable(event *tcell.EventKey) *tcell.EventKey {
 	if event.Key() == tcell.KeyEsc || event.Key() == tcell.KeyEnter {
-		a.pages.HidePage("Table")
+		a.hideDialog("Table")
 		return nil
 	}
 	return event
@@ -261,7 +281,7 @@ func (a *App) inputTable(event *tcell.EventKey) *tcell.EventKey {
 
 func (a *App) inputHelp(event *tcell.EventKey) *tcell.EventKey {
 	if event.Key() == tcell.KeyEsc || event.Key() == tcell.KeyEnter {
-		a.pages.HidePage("Help")
+		a.hideDialog("Help")
 		return nil
 	}
 	return event
@@ -269,7 +289,7 @@ func (a *App) inputHelp(event *tcell.EventKey) *tcell.EventKey {
 
 func (a *App) inputInfo(event *tcell.EventKey) *tcell.EventKey {
 	if event.Key() == tcell.KeyEsc || event.Key() == tcell.KeyEnter {
-		a.pages.HidePage("Info")
+		a.hideDialog("Info")
 		return nil
 	}
 	return event
-- 
2.43.0


From bddd322d87045033e1bf64ebd17810720ba6b03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:46 +0000
Subject: [PATCH 38/50] fix: names that look like color tags disappear in the
 TUI app

---
 internal/tui/input.go  |  4 ++--
 internal/tui/render.go | 10 ++++++++--
 internal/tui/table.go  |  4 ++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/internal/tui/input.go b/internal/tui/input.go
index 6775d29..6348a00 100644
--- a/internal/tui/input.go
+++ b/internal/tui/input.go
@@ -70,7 +70,7 @@ func (a *App) inputMainPanel(event *tcell.EventKey) *tcell.EventKey {
 	} else if event.Key() == tcell.KeyCtrlS {
 		a.graph.SetTitle("")
 		if err := a.saveNetwork(); err != nil {
-			a.graph.SetTitle(" Error saving network: " + err.Error() + " ")
+			a.graph.SetTitle(" Error saving network: " + tview.Escape(err.Error()) + " ")
 		}
 		return nil
 	} else {
@@ -184,7 +184,7 @@ func (a *App) showTable() {
 
 	a.tableDialog.SetRows(0, data.GetRowCount()+5, 0)
 	a.table.SetContent(&data)
-	a.table.SetTitle(" " + node.Name + " ")
+	a.table.SetTitle(" " + tview.Escape(node.Name) + " ")
 	a.pages.ShowPage("Table")
 
 	a.app.SetFocus(a.table)
diff --git a/internal/tui/render.go b/internal/tui/render.go
index 81eee17..68fd304 100644
--- a/internal/tui/render.go
+++ b/internal/tui/render.go
@@ -2,6 +2,8 @@ package tui
 
 import (
 	"strings"
+
+	"github.com/rivo/tview"
 )
 
 func (a *App) render(isUpdate bool) {
@@ -143,14 +145,18 @@ func (a *App) updateCanvas() {
 	for i, runes := range a.canvas {
 		cols := a.colors[i]
 
-		for j, r := range runes {
+		// Names can contain text that looks like a color tag.
+		start := 0
+		for j := range runes {
 			c := cols[j]
 			if c != prevColor {
+				builder.WriteString(tview.Escape(string(runes[start:j])))
 				builder.WriteString(ColorTags[c])
+				start = j
 			}
-			builder.WriteRune(r)
 			prevColor = c
 		}
+		builder.WriteString(tview.Escape(string(runes[start:])))
 		builder.WriteString(ColorTags[White])
 
 		if i < len(a.canvas)-1 {
diff --git a/internal/tui/table.go b/internal/tui/table.go
index 57032db..b630988 100644
--- a/internal/tui/table.go
+++ b/internal/tui/table.go
@@ -35,7 +35,7 @@ func NewTable(nodes []Node, index int, nodesByName map[string]int) Table {
 
 func (t *Table) GetCell(row, column int) *tview.TableCell {
 	if row == 0 {
-		cell := tview.NewTableCell(t.header[column])
+		cell := tview.NewTableCell(tview.Escape(t.header[column]))
 		cell.SetAlign(tview.AlignCenter)
 		cell.SetExpansion(1)
 		return cell
@@ -54,7 +54,7 @@ func (t *Table) GetCell(row, column int) *tview.TableCell {
 		}
 		parent := t.nodes[t.nodesByName[node.Node().Factor.Given[column]]].Node()
 		text := parent.Outcomes[(row/stride)%len(parent.Outcomes)]
-		cell := tview.NewTableCell(text)
+		cell := tview.NewTableCell(tview.Escape(text))
 		cell.SetAlign(tview.AlignRight)
 		return cell
 	}
-- 
2.43.0


From f7cec1e3f86c2d4ea48c6c2cf49b77a96e0d8b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:48 +0000
Subject: [PATCH 39/50] fix: networks with more than 65535 outcomes of a
 variable crash when solving

---
 network.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/network.go b/network.go
index 6c7e2d7..e06a7bd 100644
--- a/network.go
+++ b/network.go
@@ -2,6 +2,7 @@ package bbn
 
 import (
 	"fmt"
+	"math"
 	"os"
 	"path/filepath"
 	"slices"
@@ -247,6 +248,9 @@ func (n *Network) checkTables() error {
 		if len(v.Outcomes) == 0 {
 			return fmt.Errorf("variable %s has no outcomes", v.Name)
 		}
+		if len(v.Outcomes) > math.MaxUint16 {
+			return fmt.Errorf("variable %s has too many outcomes; maximum is %d", v.Name, math.MaxUint16)
+		}
 		if v.NodeType == ve.DecisionNode {
 			continue
 		}
-- 
2.43.0


From de261b8fbb0c94557988222c671782eec14628b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:38 +0000
Subject: [PATCH 40/50] fix: reject ambiguous definitions in BIF-XML

---
 xml.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/xml.go b/xml.go
index 0cb1ca6..97ce893 100644
--- a/xml.go
+++ b/xml.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/xml"
 	"fmt"
+	"slices"
 	"strconv"
 	"strings"
 )
@@ -46,6 +47,12 @@ func FromBIFXML(content []byte) (*Network, error) {
 	defs := map[string]*definitionXml{}
 	for i := range bifNet.Network.Definitions {
 		def := &bifNet.Network.Definitions[i]
+		if _, ok := defs[def.For]; ok {
+			return nil, fmt.Errorf("duplicate definition for variable '%s'", def.For)
+		}
+		if !slices.ContainsFunc(bifNet.Network.Variables, func(v variableXml) bool { return v.Name == def.For }) {
+			return nil, fmt.Errorf("variable '%s' for definition not found", def.For)
+		}
 		defs[def.For] = def
 	}
 
-- 
2.43.0


From fe4b4f5d3ef387b36b6cd12af05639c98beb4fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:39 +0000
Subject: [PATCH 41/50] fix: large utilities are cut off or leave digits behind
 in the TUI app

---
 internal/tui/node.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/tui/node.go b/internal/tui/node.go
index 0bf6fb6..3223051 100644
--- a/internal/tui/node.go
+++ b/internal/tui/node.go
@@ -240,6 +240,10 @@ func (n *node) drawUtility(probs []float64) {
 			text = []rune("         ???")
 		} else {
 			text = []rune(fmt.Sprintf("%12.3f", p))
+			if len(text) > 12 {
+				// large values don't fit into the node
+				text = []rune(fmt.Sprintf("%12.4e", p))
+			}
 		}
 		copy(n.runes[i+2][n.barsX+1:], text)
 	}
-- 
2.43.0


From 0f36fdaba7820132d31e7cff74ed5eedabf1bcdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:41 +0000
Subject: [PATCH 42/50] fix: control characters in names shift the display of
 the TUI app

---
 internal/tui/node.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/internal/tui/node.go b/internal/tui/node.go
index 3223051..aa712d3 100644
--- a/internal/tui/node.go
+++ b/internal/tui/node.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"math"
 	"strings"
+	"unicode"
 	"unicode/utf8"
 
 	"github.com/mlange-42/bbn"
@@ -172,8 +173,19 @@ func (n *node) drawBorder(selected bool) {
 	}
 }
 
+// printable replaces line breaks and other control characters, which would shift the remaining display.
+func printable(text string) []rune {
+	runes := []rune(text)
+	for i, r := range runes {
+		if unicode.IsControl(r) {
+			runes[i] = Empty
+		}
+	}
+	return runes
+}
+
 func (n *node) drawTitle() {
-	runes := []rune(n.node.Name)
+	runes := printable(n.node.Name)
 	copy(n.runes[1][2:n.bounds.W-2], runes)
 
 	if n.node.NodeType == ve.DecisionNode {
@@ -185,7 +197,7 @@ func (n *node) drawTitle() {
 
 func (n *node) drawStateLabels() {
 	for i, label := range n.node.Outcomes {
-		copy(n.runes[i+2][2:n.barsX-1], []rune(label))
+		copy(n.runes[i+2][2:n.barsX-1], printable(label))
 	}
 	if n.node.NodeType == ve.UtilityNode {
 		copy(n.runes[len(n.node.Outcomes)+2][2:n.barsX-1], []rune("total"))
-- 
2.43.0


From 2e1daa700ac03310ffc7df924ff636f54757024a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:47 +0000
Subject: [PATCH 43/50] fix: networks built from the same variables and factors
 overwrite each other's tables

---
 network.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/network.go b/network.go
index e06a7bd..65f1049 100644
--- a/network.go
+++ b/network.go
@@ -94,10 +94,14 @@ func New(name string, info string, variables []Variable, factors []Factor) (*Net
 	net := &Network{
 		name:      name,
 		info:      info,
-		variables: variables,
-		factors:   factors,
+		variables: slices.Clone(variables),
+		factors:   slices.Clone(factors),
 		policies:  map[string]ve.Factor{},
 	}
+	// training modifies tables
+	for i := range net.factors {
+		net.factors[i].Table = slices.Clone(net.factors[i].Table)
+	}
 	err := net.prepareVariables()
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 43d23c17c7af0ca98dc5fd4a99b4c0780903ecdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:56 +0000
Subject: [PATCH 44/50] fix: arrows to decisions in the TUI app show parents of
 the policy instead of the network

---
 internal/tui/render.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/tui/render.go b/internal/tui/render.go
index 68fd304..b184da4 100644
--- a/internal/tui/render.go
+++ b/internal/tui/render.go
@@ -29,8 +29,9 @@ func (a *App) renderNodes() {
 }
 
 func (a *App) renderEdges() {
-	for i, node := range a.nodes {
-		for _, p := range node.Node().Factor.Given {
+	// Factors of decision nodes are policies, which may have other parents than the network.
+	for i, variable := range a.network.Variables() {
+		for _, p := range variable.Factor.Given {
 			pid := a.nodesByName[p]
 			a.renderEdge(pid, i)
 		}
-- 
2.43.0


From 0fcd7e7d6e29de8371f26246d406f254fc7de01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:42 +0000
Subject: [PATCH 45/50] fix: lines of colored nodes at the left border lose
 their color in the TUI app

---
 internal/tui/render.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/tui/render.go b/internal/tui/render.go
index b184da4..6a945f9 100644
--- a/internal/tui/render.go
+++ b/internal/tui/render.go
@@ -142,9 +142,10 @@ func (a *App) clearCanvas() {
 
 func (a *App) updateCanvas() {
 	builder := strings.Builder{}
-	var prevColor Color
 	for i, runes := range a.canvas {
 		cols := a.colors[i]
+		// Each line starts and ends in the default color.
+		prevColor := White
 
 		// Names can contain text that looks like a color tag.
 		start := 0
-- 
2.43.0


From 651f2052fbcccf2dd7e91874e5c09e7d46929e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:31 +0000
Subject: [PATCH 46/50] fix: training has no effect on variables constructed
 without a factor

---
 network.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/network.go b/network.go
index 65f1049..c3b10e3 100644
--- a/network.go
+++ b/network.go
@@ -154,13 +154,17 @@ func (n *Network) prepareVariables() error {
 		outcomes[v.Name] = len(v.Outcomes)
 	}
 
+	// variables without a factor get an empty one, to be available for training
 	for i := range n.variables {
 		v := &n.variables[i]
-		idx := slices.IndexFunc(n.factors, func(f Factor) bool { return f.For == v.Name })
-		if idx < 0 {
-			v.Factor = &Factor{For: v.Name, columns: len(v.Outcomes)}
-			continue
+		if !slices.ContainsFunc(n.factors, func(f Factor) bool { return f.For == v.Name }) {
+			n.factors = append(n.factors, Factor{For: v.Name})
 		}
+	}
+
+	for i := range n.variables {
+		v := &n.variables[i]
+		idx := slices.IndexFunc(n.factors, func(f Factor) bool { return f.For == v.Name })
 		v.Factor = &n.factors[idx]
 
 		v.Factor.columns = len(v.Outcomes)
-- 
2.43.0


From 1e27249febc08a9813f3f332c8699097d75ccb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:38 +0000
Subject: [PATCH 47/50] fix: inference effort explodes on trees and other
 sparse networks

---
 ve/ve.go | 62 ++++++++++++++++++++++++++++++++------------------------
 1 file changed, 36 insertions(+), 26 deletions(-)

diff --git a/ve/ve.go b/ve/ve.go
index fff3e86..6f4bfff 100644
--- a/ve/ve.go
+++ b/ve/ve.go
@@ -148,11 +148,6 @@ func (ve *VE) sumUtilities() {
 	ve.factors[sum.id] = &sum
 }
 
-type variableDegree struct {
-	Variable Variable
-	Degree   int
-}
-
 func (ve *VE) eliminateHidden(evidence []Evidence, query []Variable, singleDecision bool) {
 	isDecisionParent := ve.getDecisionParents(singleDecision)
 
@@ -171,34 +166,49 @@ func (ve *VE) eliminateHidden(evidence []Evidence, query []Variable, singleDecis
 		delete(hidden, v.id)
 	}
 
-	// TODO: check elimination order of hidden variables
-	hiddenList := make([]variableDegree, len(hidden))
-	i := 0
-	newVars := make([]Variable, 0, len(ve.factors))
+	hiddenList := make([]Variable, 0, len(hidden))
 	for _, v := range hidden {
-		for _, f := range ve.factors {
-			if !slices.ContainsFunc(f.variables, func(v2 Variable) bool { return v2.id == v.id }) {
-				continue
+		hiddenList = append(hiddenList, v)
+	}
+	slices.SortFunc(hiddenList, func(a, b Variable) int { return cmp.Compare(a.id, b.id) })
+
+	// other variables in the factors of each variable
+	neighbors := map[int]map[int]bool{}
+	for _, f := range ve.factors {
+		for _, v := range f.variables {
+			if _, ok := neighbors[v.id]; !ok {
+				neighbors[v.id] = map[int]bool{}
 			}
-			for _, vv := range f.variables {
-				if !slices.ContainsFunc(newVars, func(v2 Variable) bool { return v2.id == vv.id }) {
-					newVars = append(newVars, vv)
+			for _, v2 := range f.variables {
+				if v2.id != v.id {
+					neighbors[v.id][v2.id] = true
 				}
 			}
 		}
-		degree := len(newVars)
-		newVars = newVars[:0]
-		hiddenList[i] = variableDegree{
-			Variable: v,
-			Degree:   degree,
-		}
-		i++
 	}
-	slices.SortFunc(hiddenList, func(a, b variableDegree) int { return cmp.Compare(a.Variable.id, b.Variable.id) })
-	slices.SortStableFunc(hiddenList, func(a, b variableDegree) int { return cmp.Compare(a.Degree, b.Degree) })
 
-	for _, v := range hiddenList {
-		ve.removeHidden(v.Variable)
+	for len(hiddenList) > 0 {
+		// eliminate the variable that currently has the lowest degree
+		idx := 0
+		for i, v := range hiddenList {
+			if len(neighbors[v.id]) < len(neighbors[hiddenList[idx].id]) {
+				idx = i
+			}
+		}
+		v := hiddenList[idx]
+		hiddenList = slices.Delete(hiddenList, idx, idx+1)
+		ve.removeHidden(v)
+
+		// elimination connects all neighbors
+		for id1 := range neighbors[v.id] {
+			delete(neighbors[id1], v.id)
+			for id2 := range neighbors[v.id] {
+				if id1 != id2 {
+					neighbors[id1][id2] = true
+				}
+			}
+		}
+		delete(neighbors, v.id)
 	}
 }
 
-- 
2.43.0


From 697228479d44dcc731e5bbd0df6336743a169b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:30 +0000
Subject: [PATCH 48/50] fix: moves of nodes with negative positions are lost on
 saving in the TUI app

---
 internal/tui/input.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/internal/tui/input.go b/internal/tui/input.go
index 6348a00..b0f146b 100644
--- a/internal/tui/input.go
+++ b/internal/tui/input.go
@@ -132,8 +132,7 @@ func (a *App) moveNode(event *tcell.EventKey) *tcell.EventKey {
 		b.X += dx
 		b.Y += dy
 
-		p := a.network.Variables()[a.selectedNode].Position
-		a.network.Variables()[a.selectedNode].Position = [2]int{p[0] + dx, p[1] + dy}
+		a.network.Variables()[a.selectedNode].Position = [2]int{b.X, b.Y}
 
 		if createCanvas {
 			a.createCanvas()
-- 
2.43.0


From 6120ae7f934a0c499c5b395e207775484039490b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:46 +0000
Subject: [PATCH 49/50] fix: logic operators with too many parents or outcomes
 crash

---
 logic/bits.go    |  3 +++
 logic/count.go   |  9 +++++++++
 logic/factor.go  | 24 ++++++++++++++++++++++++
 logic/given.go   |  3 +++
 logic/outcome.go | 12 ++++++++++++
 5 files changed, 51 insertions(+)

diff --git a/logic/bits.go b/logic/bits.go
index d9f8b4f..c633f60 100644
--- a/logic/bits.go
+++ b/logic/bits.go
@@ -19,6 +19,9 @@ func (f *bitsFactor) SetArgs(args ...int) error {
 }
 
 func (f *bitsFactor) Table(given int) ([]float64, error) {
+	if err := checkParents(given, 1<<min(given, 28)); err != nil {
+		return nil, err
+	}
 	rows := uint(1) << uint(given) // 2^given
 	cols := uint(1) << uint(given) // 2^given
 	table := make([]float64, int(rows*cols))
diff --git a/logic/count.go b/logic/count.go
index f471034..0d978be 100644
--- a/logic/count.go
+++ b/logic/count.go
@@ -49,6 +49,9 @@ func (f *countFactor) SetArgs(args ...int) error {
 }
 
 func (f *countFactor) Table(given int) ([]float64, error) {
+	if err := checkParents(given, 2); err != nil {
+		return nil, err
+	}
 	rows := uint(1) << uint(given) // 2^given
 	table := make([]float64, rows*2)
 
@@ -79,6 +82,9 @@ func (f *countTrueFactor) SetArgs(args ...int) error {
 }
 
 func (f *countTrueFactor) Table(given int) ([]float64, error) {
+	if err := checkParents(given, given+1); err != nil {
+		return nil, err
+	}
 	rows := uint(1) << uint(given) // 2^given
 	cols := given + 1
 	table := make([]float64, int(rows)*cols)
@@ -106,6 +112,9 @@ func (f *countFalseFactor) SetArgs(args ...int) error {
 }
 
 func (f *countFalseFactor) Table(given int) ([]float64, error) {
+	if err := checkParents(given, given+1); err != nil {
+		return nil, err
+	}
 	rows := uint(1) << uint(given) // 2^given
 	cols := given + 1
 	table := make([]float64, int(rows)*cols)
diff --git a/logic/factor.go b/logic/factor.go
index 2ff5413..93375fa 100644
--- a/logic/factor.go
+++ b/logic/factor.go
@@ -1,5 +1,13 @@
 package logic
 
+import (
+	"fmt"
+	"math"
+)
+
+// maxTableSize is the maximum number of values in the table of a logic factor.
+const maxTableSize = 1 << 28
+
 // Factor is an interface for logic factors.
 type Factor interface {
 	// Table returns the CPT for the given number of parent variables.
@@ -8,6 +16,22 @@ type Factor interface {
 	SetArgs(args ...int) error
 }
 
+// checkParents checks that the table for the given number of parents with two outcomes is not too large.
+func checkParents(given, columns int) error {
+	if given > 28 || columns > maxTableSize>>given {
+		return fmt.Errorf("too many parents for logic operator: %d", given)
+	}
+	return nil
+}
+
+// checkLength checks the number of possible outcomes of a parent.
+func checkLength(count int) error {
+	if count < 1 || count > math.MaxUint16 {
+		return fmt.Errorf("invalid number of possible outcomes: %d; must be between 1 and %d", count, math.MaxUint16)
+	}
+	return nil
+}
+
 // Get logic factors by their name.
 //
 // Each call returns a new instance, so arguments can be set independently.
diff --git a/logic/given.go b/logic/given.go
index ceea0c0..f9f3994 100644
--- a/logic/given.go
+++ b/logic/given.go
@@ -21,6 +21,9 @@ func parentBit(index, given int) (uint, error) {
 	if index < 0 || index >= given {
 		return 0, fmt.Errorf("parent index %d out of range for %d parents", index, given)
 	}
+	if err := checkParents(given, 2); err != nil {
+		return 0, err
+	}
 	return uint(1) << uint(given-1-index), nil
 }
 
diff --git a/logic/outcome.go b/logic/outcome.go
index a446a24..333d667 100644
--- a/logic/outcome.go
+++ b/logic/outcome.go
@@ -6,6 +6,9 @@ import (
 
 // checkOutcome checks an outcome index against the number of possible outcomes.
 func checkOutcome(index, count int) error {
+	if err := checkLength(count); err != nil {
+		return err
+	}
 	if index < 0 || index >= count {
 		return fmt.Errorf("outcome index %d out of range for %d possible outcomes", index, count)
 	}
@@ -124,6 +127,9 @@ func (f *outcomeEitherFactor) Table(given int) ([]float64, error) {
 		return nil, fmt.Errorf("logic operator requires 1 operand, but %d were given", given)
 	}
 
+	if err := checkLength(f.Length); err != nil {
+		return nil, err
+	}
 	for _, idx := range f.Indices {
 		if err := checkOutcome(idx, f.Length); err != nil {
 			return nil, err
@@ -171,6 +177,9 @@ func (f *outcomeLessFactor) Table(given int) ([]float64, error) {
 		return nil, fmt.Errorf("logic operator requires 1 operand, but %d were given", given)
 	}
 
+	if err := checkLength(f.Length); err != nil {
+		return nil, err
+	}
 	if f.Index < 0 || f.Index > f.Length {
 		return nil, fmt.Errorf("outcome index %d out of range for %d possible outcomes", f.Index, f.Length)
 	}
@@ -215,6 +224,9 @@ func (f *outcomeGreaterFactor) Table(given int) ([]float64, error) {
 		return nil, fmt.Errorf("logic operator requires 1 operand, but %d were given", given)
 	}
 
+	if err := checkLength(f.Length); err != nil {
+		return nil, err
+	}
 	if f.Index < 0 || f.Index > f.Length {
 		return nil, fmt.Errorf("outcome index %d out of range for %d possible outcomes", f.Index, f.Length)
 	}
-- 
2.43.0


From 6603a9e0b41c0f335f0cbe31b81eda0a69dbf7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:32 +0000
Subject: [PATCH 50/50] fix: bbni crashes on networks with positions far beyond
 any screen

---
 internal/tui/app.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/internal/tui/app.go b/internal/tui/app.go
index 78cb704..56468b6 100644
--- a/internal/tui/app.go
+++ b/internal/tui/app.go
@@ -7,6 +7,9 @@ import (
 	"github.com/rivo/tview"
 )
 
+// maxCanvasSize is the maximum number of characters of the canvas.
+const maxCanvasSize = 1 << 24
+
 type App struct {
 	app          *tview.Application
 	file         string
@@ -74,6 +77,9 @@ func (a *App) Run() error {
 		a.nodes[i] = NewNode(n)
 		a.nodesByName[n.Name] = i
 	}
+	if err := checkCanvasSize(a.nodes); err != nil {
+		return err
+	}
 
 	policy, err := a.network.SolvePolicies(true)
 	if err != nil {
@@ -135,6 +141,22 @@ func (a *App) Run() error {
 	return nil
 }
 
+// checkCanvasSize checks that the canvas required to show all nodes is not too large.
+func checkCanvasSize(nodes []Node) error {
+	bounds := NewBounds(0, 0, 1, 1)
+	for _, n := range nodes {
+		b := n.Bounds()
+		if b.X > maxCanvasSize || b.Y > maxCanvasSize {
+			return fmt.Errorf("network is too large to display: position of node %s", n.Node().Name)
+		}
+		bounds.Extend(b)
+	}
+	if bounds.W*bounds.H > maxCanvasSize {
+		return fmt.Errorf("network is too large to display: %d x %d characters", bounds.W, bounds.H)
+	}
+	return nil
+}
+
 func (a *App) createCanvas() {
 	bounds := NewBounds(0, 0, 1, 1)
 	for _, n := range a.nodes {
-- 
2.43.0

