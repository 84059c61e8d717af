From 568a3f0ed3127d23bd3c719f4aa28f862412fac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:10 +0000
Subject: [PATCH 01/43] fix: derive an indifferent policy for decisions that
 nothing depends on

SolvePolicies panicked when no factor contained a decision variable
(e.g. a decision without influence on any utility).
---
 ve/ve.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ve/ve.go b/ve/ve.go
index 65e536f..dc57792 100644
--- a/ve/ve.go
+++ b/ve/ve.go
@@ -2,7 +2,6 @@ package ve
 
 import (
 	"cmp"
-	"fmt"
 	"slices"
 )
 
@@ -288,8 +287,10 @@ func (ve *VE) solvePolicies(decisions []Variable, single bool) map[Variable][2]*
 			fmt.Println(f)
 		}*/
 
+		// Nothing depends on the decision: all of its outcomes are equally good.
 		if len(factors) == 0 {
-			panic(fmt.Sprintf("found no factors containing variable %d and its parents", dec.id))
+			f := ve.variables.CreateFactor([]Variable{dec}, nil)
+			factors = append(factors, &f)
 		}
 
 		// TODO: check that multiplying when multiple factors are remaining is correct!
-- 
2.43.0


From ea8c610607f573e6aa694abcf1a7898bec1ee977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:08 +0000
Subject: [PATCH 02/43] fix: make results independent of map iteration order

Factors were collected by ranging over maps, so the order of a policy's
parents (and the choice among equally good policies) changed from one
call to the next.
---
 network.go | 15 +++++++++++++--
 ve/ve.go   | 33 ++++++++++++++++++++++++++-------
 2 files changed, 39 insertions(+), 9 deletions(-)

diff --git a/network.go b/network.go
index ffc915b..584bbc6 100644
--- a/network.go
+++ b/network.go
@@ -352,7 +352,13 @@ func (n *Network) solve(evidence map[string]string, query []string, utility bool
 	}
 
 	ev := []ve.Evidence{}
-	for name, value := range evidence {
+	evidenceNames := make([]string, 0, len(evidence))
+	for name := range evidence {
+		evidenceNames = append(evidenceNames, name)
+	}
+	slices.Sort(evidenceNames)
+	for _, name := range evidenceNames {
+		value := evidence[name]
 		vv, ok := n.variableNames[name]
 		if !ok {
 			return nil, fmt.Errorf("evidence variable %s not found", name)
@@ -537,7 +543,12 @@ func (n *Network) prepareUtilityWeights() ([]float64, error) {
 // policyFactors collects policies as factors.
 func (n *Network) policyFactors(vars *ve.Variables, varIDs []variable, evidence map[string]string) []ve.Factor {
 	factors := []ve.Factor{}
-	for name, f := range n.policies {
+	for i := range n.variables {
+		name := n.variables[i].Name
+		f, ok := n.policies[name]
+		if !ok {
+			continue
+		}
 		// if decision variable has evidence (and policies are ignored), don't add a factor
 		if _, isEvidence := evidence[name]; isEvidence {
 			continue
diff --git a/ve/ve.go b/ve/ve.go
index dc57792..5831f52 100644
--- a/ve/ve.go
+++ b/ve/ve.go
@@ -40,6 +40,19 @@ func New(variables *Variables, factors []Factor, dependencies map[Variable][]Var
 	}
 }
 
+// factorIDs returns the IDs of all current factors in ascending order.
+//
+// Use this to iterate over factors, as the iteration order of maps is random,
+// and results of floating point operations depend on their order.
+func (ve *VE) factorIDs() []int {
+	ids := make([]int, 0, len(ve.factors))
+	for id := range ve.factors {
+		ids = append(ids, id)
+	}
+	slices.Sort(ids)
+	return ids
+}
+
 // Variables for the VE.
 func (ve *VE) Variables() *Variables {
 	return ve.variables
@@ -107,7 +120,8 @@ func (ve *VE) sumUtilities() {
 	indices := []int{}
 	factors := []*Factor{}
 
-	for k, f := range ve.factors {
+	for _, k := range ve.factorIDs() {
+		f := ve.factors[k]
 		for i, u := range utils {
 			if slices.Contains(f.variables, u) {
 				scaled := f
@@ -328,7 +342,9 @@ func (ve *VE) solvePolicies(decisions []Variable, single bool) map[Variable][2]*
 
 func (ve *VE) findDecisionFactors(decision Variable, result []*Factor) []*Factor {
 	deps := ve.dependencies[decision]
-	for _, f := range ve.factors {
+	ids := ve.factorIDs()
+	for _, id := range ids {
+		f := ve.factors[id]
 		if !slices.Contains(f.variables, decision) {
 			continue
 		}
@@ -351,7 +367,8 @@ func (ve *VE) findDecisionFactors(decision Variable, result []*Factor) []*Factor
 		result = append(result, f)
 	}
 	if len(result) == 0 {
-		for _, f := range ve.factors {
+		for _, id := range ids {
+			f := ve.factors[id]
 			if !slices.Contains(f.variables, decision) {
 				continue
 			}
@@ -367,8 +384,8 @@ func (ve *VE) findDecisionFactors(decision Variable, result []*Factor) []*Factor
 
 func (ve *VE) restrictEvidence(evidence Evidence) {
 	indices := make([]int, 0, len(ve.factors))
-	for k, v := range ve.factors {
-		if slices.Contains(v.variables, evidence.Variable) {
+	for _, k := range ve.factorIDs() {
+		if slices.Contains(ve.factors[k].variables, evidence.Variable) {
 			indices = append(indices, k)
 		}
 	}
@@ -388,7 +405,8 @@ func (ve *VE) removeHidden(variable Variable) {
 	factors := make([]*Factor, 0, len(ve.factors))
 	//utilityFactors := []*Factor{}
 
-	for k, f := range ve.factors {
+	for _, k := range ve.factorIDs() {
+		f := ve.factors[k]
 		if slices.ContainsFunc(f.variables, func(v Variable) bool { return v.id == variable.id }) {
 			indices = append(indices, k)
 
@@ -428,7 +446,8 @@ func (ve *VE) removeHidden(variable Variable) {
 func (ve *VE) multiplyAll() *Factor {
 	factors := make([]*Factor, 0, len(ve.factors))
 	//utilityFactors := []*Factor{}
-	for _, f := range ve.factors {
+	for _, id := range ve.factorIDs() {
+		f := ve.factors[id]
 		/*hasUtility := false
 		for _, v := range f.Variables {
 			if v.NodeType() == UtilityNode {
-- 
2.43.0


From 9034d8cd5a0f9f14068d37a40c18dd11dfd18d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:13 +0000
Subject: [PATCH 03/43] fix: count the parent index of given operators from the
 first parent

Given, GivenNot and GivenExcl selected the parent counted from the last one
(the repository's tests use the middle of three), and accepted indices
that don't belong to any parent.
---
 logic/given.go | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/logic/given.go b/logic/given.go
index c103e34..a19c096 100644
--- a/logic/given.go
+++ b/logic/given.go
@@ -4,6 +4,16 @@ import (
 	"fmt"
 )
 
+// parentBit returns the bit of a table row's index that encodes the outcome of the parent at the given index.
+//
+// The first parent varies slowest over table rows, so it is represented by the most significant bit.
+func parentBit(idx, given int) (int, error) {
+	if idx < 0 || idx >= given {
+		return 0, fmt.Errorf("logic operator argument %d is not the index of one of %d parents", idx, given)
+	}
+	return given - 1 - idx, nil
+}
+
 type givenFactor struct {
 	Index int
 }
@@ -24,12 +34,17 @@ func (f *givenFactor) SetArgs(args ...int) error {
 }
 
 func (f *givenFactor) Table(given int) ([]float64, error) {
+	bit, err := parentBit(f.Index, given)
+	if err != nil {
+		return nil, err
+	}
+
 	rows := uint(1) << uint(given) // 2^given
 	table := make([]float64, rows*2)
 
 	var i uint
 	for i = 0; i < rows; i++ {
-		isTrue := (i & (1 << f.Index)) == 0
+		isTrue := (i & (1 << bit)) == 0
 		if isTrue {
 			table[i*2] = 1
 		} else {
@@ -59,12 +74,17 @@ func (f *givenNotFactor) SetArgs(args ...int) error {
 }
 
 func (f *givenNotFactor) Table(given int) ([]float64, error) {
+	bit, err := parentBit(f.Index, given)
+	if err != nil {
+		return nil, err
+	}
+
 	rows := uint(1) << uint(given) // 2^given
 	table := make([]float64, rows*2)
 
 	var i uint
 	for i = 0; i < rows; i++ {
-		isFalse := (i & (1 << f.Index)) != 0
+		isFalse := (i & (1 << bit)) != 0
 		if isFalse {
 			table[i*2] = 1
 		} else {
@@ -94,12 +114,17 @@ func (f *givenExclFactor) SetArgs(args ...int) error {
 }
 
 func (f *givenExclFactor) Table(given int) ([]float64, error) {
+	bit, err := parentBit(f.Index, given)
+	if err != nil {
+		return nil, err
+	}
+
 	rows := uint(1) << uint(given) // 2^given
 	table := make([]float64, rows*2)
 
 	var i uint
 	for i = 0; i < rows; i++ {
-		isTrue := (i & (1 << f.Index)) == 0
+		isTrue := (i & (1 << bit)) == 0
 		if !isTrue {
 			table[i*2+1] = 1
 			continue
@@ -107,7 +132,7 @@ func (f *givenExclFactor) Table(given int) ([]float64, error) {
 
 		otherTrue := false
 		for j := 0; j < given; j++ {
-			if j == f.Index {
+			if j == bit {
 				continue
 			}
 			if (i & (1 << j)) == 0 {
-- 
2.43.0


From c8fbcfecc9a70c3fbe15559e5466ae89935f47ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:13 +0000
Subject: [PATCH 04/43] fix: report invalid arguments of outcome operators

An index out of range or a negative number of outcomes caused a panic
while reading a network.
---
 logic/outcome.go | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/logic/outcome.go b/logic/outcome.go
index f46a26b..ed7ff61 100644
--- a/logic/outcome.go
+++ b/logic/outcome.go
@@ -4,6 +4,14 @@ import (
 	"fmt"
 )
 
+// checkOutcome checks that an outcome index is in range [0, end).
+func checkOutcome(idx, end int) error {
+	if idx < 0 || idx >= end {
+		return fmt.Errorf("logic operator argument %d is out of range [0, %d)", idx, end)
+	}
+	return nil
+}
+
 type outcomeIsFactor struct {
 	Index  int
 	Length int
@@ -32,6 +40,10 @@ func (f *outcomeIsFactor) Table(given int) ([]float64, error) {
 		return nil, fmt.Errorf("logic operator requires 1 operand, but %d were given", given)
 	}
 
+	if err := checkOutcome(f.Index, f.Length); err != nil {
+		return nil, err
+	}
+
 	table := make([]float64, f.Length*2)
 	for i := 0; i < f.Length; i++ {
 		table[i*2+1] = 1
@@ -70,6 +82,10 @@ func (f *outcomeIsNotFactor) Table(given int) ([]float64, error) {
 		return nil, fmt.Errorf("logic operator requires 1 operand, but %d were given", given)
 	}
 
+	if err := checkOutcome(f.Index, f.Length); err != nil {
+		return nil, err
+	}
+
 	table := make([]float64, f.Length*2)
 	for i := 0; i < f.Length; i++ {
 		table[i*2] = 1
@@ -108,6 +124,12 @@ func (f *outcomeEitherFactor) Table(given int) ([]float64, error) {
 		return nil, fmt.Errorf("logic operator requires 1 operand, but %d were given", given)
 	}
 
+	for _, idx := range f.Indices {
+		if err := checkOutcome(idx, f.Length); err != nil {
+			return nil, err
+		}
+	}
+
 	table := make([]float64, f.Length*2)
 	for i := 0; i < f.Length; i++ {
 		table[i*2+1] = 1
@@ -149,6 +171,10 @@ func (f *outcomeLessFactor) Table(given int) ([]float64, error) {
 		return nil, fmt.Errorf("logic operator requires 1 operand, but %d were given", given)
 	}
 
+	if err := checkOutcome(f.Index, f.Length+1); err != nil {
+		return nil, err
+	}
+
 	table := make([]float64, f.Length*2)
 	for i := 0; i < f.Index; i++ {
 		table[i*2] = 1
@@ -189,6 +215,10 @@ func (f *outcomeGreaterFactor) Table(given int) ([]float64, error) {
 		return nil, fmt.Errorf("logic operator requires 1 operand, but %d were given", given)
 	}
 
+	if err := checkOutcome(f.Index, f.Length+1); err != nil {
+		return nil, err
+	}
+
 	table := make([]float64, f.Length*2)
 	for i := 0; i < f.Index; i++ {
 		table[i*2+1] = 1
-- 
2.43.0


From c8e97bacc943ae4df3de815b46998ce3228b1793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:24 +0000
Subject: [PATCH 05/43] fix: don't share logic operators between callers of
 logic.Get

Get returned the same instance to every caller, so setting its arguments
changed the operators that others had obtained before.
---
 logic/factor.go | 80 ++++++++++++++++++++++++++-----------------------
 1 file changed, 42 insertions(+), 38 deletions(-)

diff --git a/logic/factor.go b/logic/factor.go
index 2bc0dc3..d4818b7 100644
--- a/logic/factor.go
+++ b/logic/factor.go
@@ -12,56 +12,60 @@ type Factor interface {
 //
 // Primarily used for deserialization.
 func Get(name string) (Factor, bool) {
-	f, ok := factors[name]
-	return f, ok
+	create, ok := factors[name]
+	if !ok {
+		return nil, false
+	}
+	return create(), true
 }
 
-var factors = map[string]Factor{
-	"not": Not(),
+// factors are created on demand, as they can be modified through SetArgs.
+var factors = map[string]func() Factor{
+	"not": Not,
 
-	"and":         And(),
-	"not-and":     NotAnd(),
-	"and-not":     AndNot(),
-	"not-and-not": NotAndNot(),
+	"and":         And,
+	"not-and":     NotAnd,
+	"and-not":     AndNot,
+	"not-and-not": NotAndNot,
 
-	"or":         Or(),
-	"not-or":     NotOr(),
-	"or-not":     OrNot(),
-	"not-or-not": NotOrNot(),
+	"or":         Or,
+	"not-or":     NotOr,
+	"or-not":     OrNot,
+	"not-or-not": NotOrNot,
 
-	"xor": XOr(),
+	"xor": XOr,
 
-	"cond":         Cond(),
-	"not-cond":     NotCond(),
-	"cond-not":     CondNot(),
-	"not-cond-not": NotCondNot(),
+	"cond":         Cond,
+	"not-cond":     NotCond,
+	"cond-not":     CondNot,
+	"not-cond-not": NotCondNot,
 
-	"bicond": BiCond(),
+	"bicond": BiCond,
 
-	"if-then":         IfThen(),
-	"if-not-then":     IfNotThen(),
-	"if-then-not":     IfThenNot(),
-	"if-not-then-not": IfNotThenNot(),
+	"if-then":         IfThen,
+	"if-not-then":     IfNotThen,
+	"if-then-not":     IfThenNot,
+	"if-not-then-not": IfNotThenNot,
 
-	"equals":     Equals(),
-	"equals-not": EqualsNot(),
+	"equals":     Equals,
+	"equals-not": EqualsNot,
 
-	"count-true":  CountTrue(),
-	"count-false": CountFalse(),
+	"count-true":  CountTrue,
+	"count-false": CountFalse,
 
-	"count-is":      CountIs(0),
-	"count-less":    CountLess(0),
-	"count-greater": CountGreater(0),
+	"count-is":      func() Factor { return CountIs(0) },
+	"count-less":    func() Factor { return CountLess(0) },
+	"count-greater": func() Factor { return CountGreater(0) },
 
-	"given":      Given(0),
-	"given-not":  GivenNot(0),
-	"given-excl": GivenExcl(0),
+	"given":      func() Factor { return Given(0) },
+	"given-not":  func() Factor { return GivenNot(0) },
+	"given-excl": func() Factor { return GivenExcl(0) },
 
-	"outcome-is":      OutcomeIs(0, 0),
-	"outcome-is-not":  OutcomeIsNot(0, 0),
-	"outcome-either":  OutcomeEither(nil, 0),
-	"outcome-less":    OutcomeLess(0, 0),
-	"outcome-greater": OutcomeGreater(0, 0),
+	"outcome-is":      func() Factor { return OutcomeIs(0, 0) },
+	"outcome-is-not":  func() Factor { return OutcomeIsNot(0, 0) },
+	"outcome-either":  func() Factor { return OutcomeEither(nil, 0) },
+	"outcome-less":    func() Factor { return OutcomeLess(0, 0) },
+	"outcome-greater": func() Factor { return OutcomeGreater(0, 0) },
 
-	"bits": Bits(),
+	"bits": Bits,
 }
-- 
2.43.0


From 0f713073dfecf8320ccfbc6c6fe2684d4c5ba529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:08 +0000
Subject: [PATCH 06/43] fix: count training samples of utility nodes only once

Trained utilities were half of the mean of the samples.
---
 training.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/training.go b/training.go
index d097f03..a93e1dd 100644
--- a/training.go
+++ b/training.go
@@ -98,7 +98,6 @@ func (t *Trainer) AddSample(sample []int, utility []float64) {
 				continue
 			}
 			t.data[i][idx][0] += u
-			t.counter[i][idx]++
 		} else {
 			s := sample[i]
 			if s < 0 {
-- 
2.43.0


From 43e487d18eb81add0167a6dc27438eec92dd8082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:08 +0000
Subject: [PATCH 07/43] fix: don't modify the network when training fails

UpdateNetwork overwrote the tables of all nodes before the one without
samples.
---
 training.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/training.go b/training.go
index a93e1dd..63b0d21 100644
--- a/training.go
+++ b/training.go
@@ -111,9 +111,19 @@ func (t *Trainer) AddSample(sample []int, utility []float64) {
 }
 
 // UpdateNetwork applies the training to the network, and returns a pointer to the original network.
+//
+// In case of an error, the network is not modified.
 func (t *Trainer) UpdateNetwork() (*Network, error) {
 	nodes := t.network.Variables()
 
+	for i, node := range nodes {
+		for j, cnt := range t.counter[i] {
+			if cnt == 0 {
+				return nil, fmt.Errorf("no samples for node '%s', table row %d", node.Name, j)
+			}
+		}
+	}
+
 	for i, node := range nodes {
 		data := t.data[i]
 
@@ -121,9 +131,6 @@ func (t *Trainer) UpdateNetwork() (*Network, error) {
 		rows := len(node.Factor.Table) / cols
 		for j := 0; j < rows; j++ {
 			cnt := t.counter[i][j]
-			if cnt == 0 {
-				return nil, fmt.Errorf("no samples for node '%s', table row %d", node.Name, j)
-			}
 			for k := 0; k < cols; k++ {
 				node.Factor.Table[j*cols+k] = float64(data[j][k]) / float64(cnt)
 			}
-- 
2.43.0


From b92a5815c3c23467da1276b5daa349d1470b38cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:28 +0000
Subject: [PATCH 08/43] fix: keep the weights of the total utility node in
 training

The table of the total utility node holds weights of the utilities. Training
replaced them by the mean of the samples, followed by zeros.
---
 training.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/training.go b/training.go
index 63b0d21..b0c7fad 100644
--- a/training.go
+++ b/training.go
@@ -74,6 +74,10 @@ func (t *Trainer) AddSample(sample []int, utility []float64) {
 		if node.NodeType == ve.DecisionNode {
 			continue
 		}
+		// the weights of the total utility node are not learned
+		if i == t.network.TotalUtilityIndex() {
+			continue
+		}
 
 		indices := t.indices[i]
 		t.sample = t.sample[:0]
@@ -117,6 +121,9 @@ func (t *Trainer) UpdateNetwork() (*Network, error) {
 	nodes := t.network.Variables()
 
 	for i, node := range nodes {
+		if i == t.network.TotalUtilityIndex() {
+			continue
+		}
 		for j, cnt := range t.counter[i] {
 			if cnt == 0 {
 				return nil, fmt.Errorf("no samples for node '%s', table row %d", node.Name, j)
@@ -125,6 +132,9 @@ func (t *Trainer) UpdateNetwork() (*Network, error) {
 	}
 
 	for i, node := range nodes {
+		if i == t.network.TotalUtilityIndex() {
+			continue
+		}
 		data := t.data[i]
 
 		cols := node.Factor.columns
-- 
2.43.0


From defc4d722cb1b8b164de79100c014eea5fa9672b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:29 +0000
Subject: [PATCH 09/43] fix: accept missing values of utility nodes in training
 data

---
 internal/tui/training.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/tui/training.go b/internal/tui/training.go
index 9fcd7e4..0d62ae6 100644
--- a/internal/tui/training.go
+++ b/internal/tui/training.go
@@ -49,10 +49,11 @@ func TrainNetwork(net *bbn.Network, nodes []bbn.Variable, dataFile, noData strin
 
 		for i, idx := range indices {
 			if isUtility[i] {
-				var err error
 				if record[idx] == noData {
 					utility[i] = math.NaN()
+					continue
 				}
+				var err error
 				utility[i], err = strconv.ParseFloat(record[idx], 64)
 				if err != nil {
 					return nil, fmt.Errorf("unable to parse utility value '%s' to integer in node '%s'", record[idx], nodes[i].Name)
-- 
2.43.0


From fa9ee038259729e3d20ea1aed1e7fb2a818cdc21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:30 +0000
Subject: [PATCH 10/43] fix: respect the no-data value in bbni

---
 internal/tui/app.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/tui/app.go b/internal/tui/app.go
index bfacebd..933b5ab 100644
--- a/internal/tui/app.go
+++ b/internal/tui/app.go
@@ -44,6 +44,7 @@ func New(path string, evidence map[string]string, trainingFile, noData string, c
 		file:         path,
 		trainingFile: trainingFile,
 		csvDelimiter: csvDelimiter,
+		noData:       noData,
 		evidence:     evidence,
 	}
 }
-- 
2.43.0


From 27e202f4adc305d221f206561513ce2bd79fdd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:30 +0000
Subject: [PATCH 11/43] fix: write network info and node colors to YAML

They were lost when saving a network.
---
 yml.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yml.go b/yml.go
index 4527cca..93b906f 100644
--- a/yml.go
+++ b/yml.go
@@ -146,12 +146,14 @@ func ToYAML(network *Network) ([]byte, error) {
 			Type:     nodeTypeNames[v.NodeType],
 			Outcomes: v.Outcomes,
 			Position: v.Position,
+			Color:    v.Color,
 			Table:    table,
 		}
 	}
 
 	net := networkYaml{
 		Name:      network.Name(),
+		Info:      network.Info(),
 		Variables: variables,
 	}
 
-- 
2.43.0


From 031ffcdc908b4afb0dd2ac3bf986f182b794389f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:47 +0000
Subject: [PATCH 12/43] fix: make ToEvidence work before solving

It failed with 'not found' for all variables of a network that was not
solved yet.
---
 network.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/network.go b/network.go
index 584bbc6..e627001 100644
--- a/network.go
+++ b/network.go
@@ -399,15 +399,16 @@ func (n *Network) solve(evidence map[string]string, query []string, utility bool
 // As an example, say we have a variable with outcomes [yes, no]. Given evidence "yes" (index 0):
 // we get the following probabilities: [1, 0].
 func (n *Network) ToEvidence(variable string, value string) ([]float64, error) {
-	vv, ok := n.variableNames[variable]
-	if !ok {
+	i := slices.IndexFunc(n.variables, func(v Variable) bool { return v.Name == variable })
+	if i < 0 || i == n.totalUtilityIndex {
 		return nil, fmt.Errorf("evidence variable %s not found", variable)
 	}
-	idx := slices.Index(vv.Variable.Outcomes, value)
+	outcomes := n.variables[i].Outcomes
+	idx := slices.Index(outcomes, value)
 	if idx < 0 {
 		return nil, fmt.Errorf("outcome %s for evidence variable %s not found", value, variable)
 	}
-	probs := make([]float64, len(vv.Variable.Outcomes))
+	probs := make([]float64, len(outcomes))
 	probs[idx] = 1.0
 	return probs, nil
 }
-- 
2.43.0


From 362e977fce5b8db68dd876c85f8bee4f19e37123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:47 +0000
Subject: [PATCH 13/43] fix: return the correct table row from Factor.Row

The index of a row was used as index of its first value.
---
 network.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/network.go b/network.go
index e627001..b117bac 100644
--- a/network.go
+++ b/network.go
@@ -39,6 +39,7 @@ func (f *Factor) Row(indices []int) ([]float64, bool) {
 	if !ok {
 		return nil, false
 	}
+	idx *= f.columns
 	return f.Table[idx : idx+f.columns], true
 }
 
-- 
2.43.0


From fdafeb247b389864363a2ae02657cb57274baf8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:55 +0000
Subject: [PATCH 14/43] fix: report a missing definition in BIF-XML files

A VARIABLE without DEFINITION caused a nil pointer dereference.
---
 xml.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xml.go b/xml.go
index 2c2d591..a925a12 100644
--- a/xml.go
+++ b/xml.go
@@ -52,7 +52,10 @@ func FromBIFXML(content []byte) (*Network, error) {
 	variables := make([]Variable, len(bifNet.Network.Variables))
 	factors := []Factor{}
 	for i, variable := range bifNet.Network.Variables {
-		def := defs[variable.Name]
+		def, ok := defs[variable.Name]
+		if !ok {
+			return nil, fmt.Errorf("no definition for node '%s'", variable.Name)
+		}
 
 		columns := len(variable.Outcomes)
 		tableValues := strings.Fields(def.Table)
-- 
2.43.0


From fd8f470a94a98a75277bbb1be6ce0b7b8adc7acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:48 +0000
Subject: [PATCH 15/43] fix: reject inconsistent variables and factors when
 creating a network

Wrong table sizes, variables without outcomes, duplicate parents, utility
nodes as parents of other nodes, and total utility nodes without weights
caused panics while solving.
---
 network.go | 40 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/network.go b/network.go
index b117bac..6e8679b 100644
--- a/network.go
+++ b/network.go
@@ -140,6 +140,9 @@ func (n *Network) prepareVariables() error {
 		if _, ok := varNames[v.Name]; ok {
 			return fmt.Errorf("duplicate variable name %s", v.Name)
 		}
+		if len(v.Outcomes) == 0 {
+			return fmt.Errorf("variable %s has no outcomes", v.Name)
+		}
 		varNames[v.Name] = v
 		outcomes[v.Name] = len(v.Outcomes)
 	}
@@ -161,11 +164,42 @@ func (n *Network) prepareVariables() error {
 			}
 			v.Factor.outcomes[i] = n
 		}
+		if err := checkFactor(v, varNames); err != nil {
+			return err
+		}
 	}
 
 	return n.prepareUtilityNodes(varNames)
 }
 
+// checkFactor checks that parents and table of a variable's factor are consistent with the variables.
+func checkFactor(v *Variable, varNames map[string]*Variable) error {
+	rows := 1
+	for i, g := range v.Factor.Given {
+		if g == v.Name {
+			return fmt.Errorf("variable %s is its own parent", v.Name)
+		}
+		if slices.Contains(v.Factor.Given[:i], g) {
+			return fmt.Errorf("duplicate parent variable %s of %s", g, v.Name)
+		}
+		if varNames[g].NodeType == ve.UtilityNode {
+			if v.NodeType != ve.UtilityNode {
+				return fmt.Errorf("utility node %s can't be a parent of %s", g, v.Name)
+			}
+			continue
+		}
+		rows *= v.Factor.outcomes[i]
+	}
+	// tables are optional, e.g. for decision nodes
+	if len(v.Factor.Table) == 0 {
+		return nil
+	}
+	if len(v.Factor.Table) != rows*v.Factor.columns {
+		return fmt.Errorf("table of variable %s has %d values, expected %d", v.Name, len(v.Factor.Table), rows*v.Factor.columns)
+	}
+	return nil
+}
+
 // prepareUtilityNodes, called from prepareVariables.
 func (n *Network) prepareUtilityNodes(varNames map[string]*Variable) error {
 	n.totalUtilityIndex = -1
@@ -174,6 +208,9 @@ func (n *Network) prepareUtilityNodes(varNames map[string]*Variable) error {
 		if v.NodeType != ve.UtilityNode {
 			continue
 		}
+		if v.Factor == nil {
+			return fmt.Errorf("no factor for utility node %s", v.Name)
+		}
 		hasUtilParents := false
 		hasOtherParents := false
 		for _, parent := range v.Factor.Given {
@@ -202,6 +239,9 @@ func (n *Network) prepareUtilityNodes(varNames map[string]*Variable) error {
 		if len(v.Outcomes) != len(v.Factor.Given) {
 			return fmt.Errorf("invalid total utility node; number of parents and number of outcomes must be the same")
 		}
+		if len(v.Factor.Table) == 0 {
+			return fmt.Errorf("no weights for total utility node %s", v.Name)
+		}
 		n.totalUtilityIndex = i
 	}
 	return nil
-- 
2.43.0


From 529b1298f8c9cb144b282b14cdb9a5effcd8476a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:11 +0000
Subject: [PATCH 16/43] fix: train networks without tables

Tables are optional, but adding a training sample for a variable without
table caused a panic.
---
 training.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/training.go b/training.go
index b0c7fad..44cdeb0 100644
--- a/training.go
+++ b/training.go
@@ -37,6 +37,13 @@ func NewTrainer(net *Network) Trainer {
 	for i, node := range nodes {
 		columns := len(node.Outcomes)
 		rows := len(node.Factor.Table) / columns
+		if rows == 0 && node.NodeType != ve.DecisionNode {
+			// no table yet, it is created when updating the network
+			rows = 1
+			for _, n := range node.Factor.outcomes {
+				rows *= n
+			}
+		}
 		d := make([][]float64, rows)
 		for j := 0; j < rows; j++ {
 			d[j] = make([]float64, columns)
@@ -138,7 +145,10 @@ func (t *Trainer) UpdateNetwork() (*Network, error) {
 		data := t.data[i]
 
 		cols := node.Factor.columns
-		rows := len(node.Factor.Table) / cols
+		rows := len(data)
+		if len(node.Factor.Table) == 0 && rows > 0 {
+			node.Factor.Table = make([]float64, rows*cols)
+		}
 		for j := 0; j < rows; j++ {
 			cnt := t.counter[i][j]
 			for k := 0; k < cols; k++ {
-- 
2.43.0


From 5fca39ddc960a12a7170a5d3f825fd4c17b4d77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:19 +0000
Subject: [PATCH 17/43] fix: reset the selected state when clicking another
 node

The index of the previously selected state could exceed the number of
outcomes of the clicked node, which caused a panic when pressing Enter.
---
 internal/tui/input.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/internal/tui/input.go b/internal/tui/input.go
index 92ac2a2..58f55e9 100644
--- a/internal/tui/input.go
+++ b/internal/tui/input.go
@@ -206,7 +206,7 @@ func (a *App) mouseInputGraph(action tview.MouseAction, event *tcell.EventMouse)
 		x, y := a.mousePosInGraph(event.Position())
 		for i, node := range a.nodes {
 			if node.Bounds().Contains(x, y) {
-				a.selectedNode = i
+				a.selectNode(i)
 				if outcome, ok := node.SelectedOutcome(x, y); ok {
 					a.selectedState = outcome
 					if err := a.inputEnter(); err != nil {
@@ -222,7 +222,7 @@ func (a *App) mouseInputGraph(action tview.MouseAction, event *tcell.EventMouse)
 		x, y := a.mousePosInGraph(event.Position())
 		for i, node := range a.nodes {
 			if node.Bounds().Contains(x, y) {
-				a.selectedNode = i
+				a.selectNode(i)
 				a.render(true)
 				a.showTable()
 				break
@@ -288,6 +288,15 @@ func (a *App) mousePosInGraph(x, y int) (int, int) {
 	return x - boxX + scrollX, y - boxY + scrollY
 }
 
+// selectNode selects a node, and its first state if it was not selected before.
+func (a *App) selectNode(index int) {
+	if index == a.selectedNode {
+		return
+	}
+	a.selectedNode = index
+	a.selectedState = 0
+}
+
 func (a *App) selectNextNode() {
 	a.selectedNode = (a.selectedNode + 1) % len(a.nodes)
 	a.selectedState = 0
-- 
2.43.0


From bb89f096141e6f08f06ffa0f436a256b340c8f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:19 +0000
Subject: [PATCH 18/43] fix: ignore digits other than 0-9 in bbni

They can't be parsed by Atoi, which caused a panic.
---
 internal/tui/input.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/internal/tui/input.go b/internal/tui/input.go
index 58f55e9..b30c0f6 100644
--- a/internal/tui/input.go
+++ b/internal/tui/input.go
@@ -5,7 +5,6 @@ import (
 	"path"
 	"strconv"
 	"strings"
-	"unicode"
 
 	"github.com/gdamore/tcell/v2"
 	"github.com/mlange-42/bbn"
@@ -31,7 +30,7 @@ func (a *App) inputMainPanel(event *tcell.EventKey) *tcell.EventKey {
 		a.selectedState = (a.selectedState + 1) % len(a.nodes[a.selectedNode].Node().Outcomes)
 		a.render(true)
 		return nil
-	} else if unicode.IsDigit(event.Rune()) {
+	} else if event.Rune() >= '0' && event.Rune() <= '9' {
 		// Select states by index/number keys.
 		a.selectNodeOutcome(string(event.Rune()))
 		return nil
-- 
2.43.0


From 4df3496f1742a20f0b3383363c462d229297e8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:20 +0000
Subject: [PATCH 19/43] fix: report networks without variables in bbni

Any key press caused a panic.
---
 internal/tui/app.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/tui/app.go b/internal/tui/app.go
index 933b5ab..4307db3 100644
--- a/internal/tui/app.go
+++ b/internal/tui/app.go
@@ -57,6 +57,9 @@ func (a *App) Run() error {
 
 	a.network = net
 	nodes := a.network.Variables()
+	if len(nodes) == 0 {
+		return fmt.Errorf("network in file %s has no variables", a.file)
+	}
 
 	if a.trainingFile != "" {
 		a.network, err = TrainNetwork(net, nodes, a.trainingFile, a.noData, a.csvDelimiter)
-- 
2.43.0


From 989f44fe7ec2aee57aaa430ae1c7d4e32e7d5128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:21 +0000
Subject: [PATCH 20/43] fix: display nodes with negative positions in bbni

They caused a panic when drawing on the canvas.
---
 internal/tui/node.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tui/node.go b/internal/tui/node.go
index 75e7414..3e86107 100644
--- a/internal/tui/node.go
+++ b/internal/tui/node.go
@@ -48,8 +48,8 @@ func NewNode(n bbn.Variable) Node {
 	}
 
 	bounds := Bounds{
-		X: n.Position[0],
-		Y: n.Position[1],
+		X: max(n.Position[0], 0),
+		Y: max(n.Position[1], 0),
 		W: max(maxStateLen+bars+9, titleLength) + 4,
 		H: len(n.Outcomes) + 3,
 	}
-- 
2.43.0


From 13b7cd45fe2b81ba22be33c4f0b7ac57db520358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:22 +0000
Subject: [PATCH 21/43] fix: reject negative probabilities

They resulted in meaningless posteriors, and in a panic in bbni.
---
 network.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/network.go b/network.go
index 6e8679b..c8c4d5a 100644
--- a/network.go
+++ b/network.go
@@ -197,6 +197,9 @@ func checkFactor(v *Variable, varNames map[string]*Variable) error {
 	if len(v.Factor.Table) != rows*v.Factor.columns {
 		return fmt.Errorf("table of variable %s has %d values, expected %d", v.Name, len(v.Factor.Table), rows*v.Factor.columns)
 	}
+	if v.NodeType == ve.ChanceNode && slices.ContainsFunc(v.Factor.Table, func(p float64) bool { return p < 0 }) {
+		return fmt.Errorf("table of variable %s contains negative probabilities", v.Name)
+	}
 	return nil
 }
 
-- 
2.43.0


From 8d64cf03371f9b4adfe95d0a89bceb4c40c2f779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:08 +0000
Subject: [PATCH 22/43] fix: report invalid evidence and query variables

Utility variables as evidence or query, and queries for variables that are
part of the evidence caused panics.
---
 network.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/network.go b/network.go
index c8c4d5a..19d54a0 100644
--- a/network.go
+++ b/network.go
@@ -407,6 +407,9 @@ func (n *Network) solve(evidence map[string]string, query []string, utility bool
 		if !ok {
 			return nil, fmt.Errorf("evidence variable %s not found", name)
 		}
+		if vv.Variable.NodeType == ve.UtilityNode {
+			return nil, fmt.Errorf("utility variable %s can't be used as evidence", name)
+		}
 		idx := slices.Index(vv.Variable.Outcomes, value)
 		if idx < 0 {
 			return nil, fmt.Errorf("outcome %s for evidence variable %s not found", value, name)
@@ -420,6 +423,14 @@ func (n *Network) solve(evidence map[string]string, query []string, utility bool
 		if !ok {
 			return nil, fmt.Errorf("query variable %s not found", name)
 		}
+		if !utility {
+			if vv.Variable.NodeType == ve.UtilityNode {
+				return nil, fmt.Errorf("utility variable %s can't be used in a probability query", name)
+			}
+			if _, ok := evidence[name]; ok {
+				return nil, fmt.Errorf("query variable %s is part of the evidence", name)
+			}
+		}
 		q[i] = vv.VeVariable
 	}
 
@@ -430,6 +441,9 @@ func (n *Network) solve(evidence map[string]string, query []string, utility bool
 			if !ok {
 				return nil, fmt.Errorf("utility query variable %s not found", utilityVar)
 			}
+			if u.Variable.NodeType != ve.UtilityNode {
+				return nil, fmt.Errorf("utility query variable %s is not a utility variable", utilityVar)
+			}
 			util = &u.VeVariable
 		}
 		return n.ve.SolveUtility(ev, q, util), nil
-- 
2.43.0


From f69e3f5d52f5e0b7454b65476c8af5b212cec5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:09 +0000
Subject: [PATCH 23/43] fix: don't destroy an existing file when saving in bbni
 fails

The previously saved network was truncated before writing the new content.
---
 internal/tui/input.go | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/internal/tui/input.go b/internal/tui/input.go
index b30c0f6..2fe101e 100644
--- a/internal/tui/input.go
+++ b/internal/tui/input.go
@@ -83,12 +83,38 @@ func (a *App) saveNetwork() {
 	ext := path.Ext(a.file)
 	saveFile := strings.TrimSuffix(a.file, ext) + "-save.yml"
 
-	err = os.WriteFile(saveFile, yml, 0644)
+	err = writeFile(saveFile, yml)
 	if err != nil {
 		panic(err)
 	}
 }
 
+// writeFile replaces the content of a file.
+//
+// Data is first written to a temporary file, so that an existing file is never left truncated or
+// partially written when writing fails or is interrupted.
+func writeFile(name string, data []byte) error {
+	temp := name + ".tmp"
+	file, err := os.OpenFile(temp, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0644)
+	if err != nil {
+		return err
+	}
+	_, err = file.Write(data)
+	if err == nil {
+		err = file.Sync()
+	}
+	if closeErr := file.Close(); err == nil {
+		err = closeErr
+	}
+	if err == nil {
+		err = os.Rename(temp, name)
+	}
+	if err != nil {
+		_ = os.Remove(temp)
+	}
+	return err
+}
+
 func (a *App) moveNode(event *tcell.EventKey) *tcell.EventKey {
 	node := a.nodes[a.selectedNode]
 
-- 
2.43.0


From 4040b620c1ee32132770e5a59119947684166714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:26 +0000
Subject: [PATCH 24/43] fix: report errors when writing results of bbn commands

With a full disk or a closed pipe, the commands exited with status 0
although the output was lost or incomplete.
---
 cmd/bbn/inference.go | 19 +++++++++++--------
 cmd/bbn/train.go     |  4 ++--
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/cmd/bbn/inference.go b/cmd/bbn/inference.go
index 4e5d922..7eb9511 100644
--- a/cmd/bbn/inference.go
+++ b/cmd/bbn/inference.go
@@ -2,6 +2,7 @@ package main
 
 import (
 	"fmt"
+	"strings"
 
 	"github.com/mlange-42/bbn"
 	"github.com/mlange-42/bbn/internal/tui"
@@ -29,28 +30,30 @@ func inferCommand() *cobra.Command {
 				return err
 			}
 
+			out := strings.Builder{}
 			for _, node := range nodes {
-				fmt.Print("                              ")
+				fmt.Fprint(&out, "                              ")
 				states := node.Outcomes
 				for _, s := range states {
-					fmt.Printf(" %10s", s)
+					fmt.Fprintf(&out, " %10s", s)
 				}
-				fmt.Printf("\n%30s", node.Name)
+				fmt.Fprintf(&out, "\n%30s", node.Name)
 				probs := result[node.Name]
 				for _, p := range probs {
 					if node.NodeType == ve.UtilityNode {
-						fmt.Printf(" %10.3f", p)
+						fmt.Fprintf(&out, " %10.3f", p)
 					} else {
-						fmt.Printf(" %9.3f%%", p*100)
+						fmt.Fprintf(&out, " %9.3f%%", p*100)
 					}
 				}
 				if _, ok := ev[node.Name]; ok {
-					fmt.Print("  +")
+					fmt.Fprint(&out, "  +")
 				}
-				fmt.Println()
+				fmt.Fprintln(&out)
 			}
 
-			return nil
+			_, err = fmt.Print(out.String())
+			return err
 		},
 	}
 	root.Flags().StringSliceVarP(&evidence, "evidence", "e", []string{}, "Evidence in the format:\n    k1=v1,k2=v2,k3=v3")
diff --git a/cmd/bbn/train.go b/cmd/bbn/train.go
index cfc78ca..8c12afc 100644
--- a/cmd/bbn/train.go
+++ b/cmd/bbn/train.go
@@ -48,8 +48,8 @@ func trainCommand() *cobra.Command {
 				return err
 			}
 
-			fmt.Println(string(yml))
-			return nil
+			_, err = fmt.Println(string(yml))
+			return err
 		},
 	}
 
-- 
2.43.0


From 7b2621d9aa98e0bb0895f208978184762b395307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:27 +0000
Subject: [PATCH 25/43] fix: report unknown node colors

They caused a panic in bbni and in bbn inference.
---
 cmd/bbn/inference.go | 3 +++
 internal/tui/app.go  | 3 +++
 internal/tui/node.go | 6 ++++++
 3 files changed, 12 insertions(+)

diff --git a/cmd/bbn/inference.go b/cmd/bbn/inference.go
index 7eb9511..adb53d9 100644
--- a/cmd/bbn/inference.go
+++ b/cmd/bbn/inference.go
@@ -77,6 +77,9 @@ func runInferenceCommand(path string, evidence []string) ([]bbn.Variable, map[st
 	nodes := net.Variables()
 	tuiNodes := make([]tui.Node, len(nodes))
 	for i, n := range nodes {
+		if err := tui.CheckNode(&n); err != nil {
+			return nil, nil, nil, err
+		}
 		tuiNodes[i] = tui.NewNode(n)
 	}
 
diff --git a/internal/tui/app.go b/internal/tui/app.go
index 4307db3..6e12316 100644
--- a/internal/tui/app.go
+++ b/internal/tui/app.go
@@ -71,6 +71,9 @@ func (a *App) Run() error {
 	a.nodes = make([]Node, len(nodes))
 	a.nodesByName = make(map[string]int, len(nodes))
 	for i, n := range nodes {
+		if err := CheckNode(&n); err != nil {
+			return err
+		}
 		a.nodes[i] = NewNode(n)
 		a.nodesByName[n.Name] = i
 	}
diff --git a/internal/tui/node.go b/internal/tui/node.go
index 3e86107..590d9a6 100644
--- a/internal/tui/node.go
+++ b/internal/tui/node.go
@@ -91,6 +91,12 @@ func NewNode(n bbn.Variable) Node {
 	return &node
 }
 
+// CheckNode checks whether a variable can be displayed, i.e. whether its color is valid.
+func CheckNode(n *bbn.Variable) error {
+	_, err := nodeColor(n)
+	return err
+}
+
 func nodeColor(n *bbn.Variable) (Color, error) {
 	color := White
 	if n.Color == "" {
-- 
2.43.0


From e4f712a9dc8df0b4c42e3ee54a294b5233255b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:11 +0000
Subject: [PATCH 26/43] fix: reject variables without a name

---
 network.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/network.go b/network.go
index 19d54a0..1ce76a4 100644
--- a/network.go
+++ b/network.go
@@ -137,6 +137,9 @@ func (n *Network) prepareVariables() error {
 	outcomes := make(map[string]int, len(n.variables))
 	for i := range n.variables {
 		v := &n.variables[i]
+		if v.Name == "" {
+			return fmt.Errorf("variable %d has no name", i)
+		}
 		if _, ok := varNames[v.Name]; ok {
 			return fmt.Errorf("duplicate variable name %s", v.Name)
 		}
-- 
2.43.0


From 49a56927e2d4276fa01458429fb74ccd9af4e6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:42 +0000
Subject: [PATCH 27/43] fix: treat empty tables like missing tables

---
 network.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/network.go b/network.go
index 1ce76a4..715e2b4 100644
--- a/network.go
+++ b/network.go
@@ -195,6 +195,7 @@ func checkFactor(v *Variable, varNames map[string]*Variable) error {
 	}
 	// tables are optional, e.g. for decision nodes
 	if len(v.Factor.Table) == 0 {
+		v.Factor.Table = nil
 		return nil
 	}
 	if len(v.Factor.Table) != rows*v.Factor.columns {
-- 
2.43.0


From 7af9db1a1bf3021465f013f82ec9ad25ffcadd85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:06 +0000
Subject: [PATCH 28/43] fix: don't panic when utilities are undefined

---
 ve/variables.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ve/variables.go b/ve/variables.go
index eacaf05..e05e3aa 100644
--- a/ve/variables.go
+++ b/ve/variables.go
@@ -200,8 +200,11 @@ func (v *Variables) Policy(f *Factor, variable Variable) Factor {
 			}
 		}
 
+		// Utilities are undefined (NaN), e.g. in untrained networks: no outcome is better than the others.
 		if len(maxIndices) == 0 {
-			panic("no utility values to derive policy")
+			for c := range rowData {
+				maxIndices = append(maxIndices, c)
+			}
 		}
 
 		probValue := 1.0 / float64(len(maxIndices))
-- 
2.43.0


From e0b474cfe7f3a840eeb98c003ec9b75e08118ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:44 +0000
Subject: [PATCH 29/43] fix: handle keys in bbni irrespective of the focused
 widget

After a click on the header line or on the hint of a dialog, ESC did not close dialogs anymore,
and keys were handled by the panel behind the dialog.
---
 internal/tui/app.go   |  8 +-------
 internal/tui/input.go | 15 +++++++++++++++
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/internal/tui/app.go b/internal/tui/app.go
index 6e12316..49452b6 100644
--- a/internal/tui/app.go
+++ b/internal/tui/app.go
@@ -115,16 +115,10 @@ func (a *App) Run() error {
 	a.infoDialog = a.createInfoPanel()
 	a.pages.AddPage("Info", a.infoDialog, true, false)
 
-	mainPanel.SetInputCapture(a.inputMainPanel)
+	a.app.SetInputCapture(a.input)
 	a.graph.SetMouseCapture(a.mouseInputGraph)
-
-	a.table.SetInputCapture(a.inputTable)
 	a.table.SetMouseCapture(a.mouseInputTable)
-
-	a.help.SetInputCapture(a.inputHelp)
 	a.help.SetMouseCapture(a.mouseInputHelp)
-
-	a.info.SetInputCapture(a.inputInfo)
 	a.info.SetMouseCapture(a.mouseInputInfo)
 
 	rooted := a.app.SetRoot(a.pages, true)
diff --git a/internal/tui/input.go b/internal/tui/input.go
index 2fe101e..3c8d1ac 100644
--- a/internal/tui/input.go
+++ b/internal/tui/input.go
@@ -12,6 +12,21 @@ import (
 	"github.com/rivo/tview"
 )
 
+// input handles keys for the page in front, irrespective of which of its parts has the focus.
+func (a *App) input(event *tcell.EventKey) *tcell.EventKey {
+	front, _ := a.pages.GetFrontPage()
+	switch front {
+	case "Table":
+		return a.inputTable(event)
+	case "Help":
+		return a.inputHelp(event)
+	case "Info":
+		return a.inputInfo(event)
+	default:
+		return a.inputMainPanel(event)
+	}
+}
+
 func (a *App) inputMainPanel(event *tcell.EventKey) *tcell.EventKey {
 	if event.Key() == tcell.KeyEsc {
 		// Exit program.
-- 
2.43.0


From cb553cfe5ce0cecf6bee9cb159f4258e6108b7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:44 +0000
Subject: [PATCH 30/43] fix: save the displayed position of moved nodes

Nodes with negative positions are displayed at 0, but moving started at the original position.
---
 internal/tui/input.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/internal/tui/input.go b/internal/tui/input.go
index 3c8d1ac..1d29cf7 100644
--- a/internal/tui/input.go
+++ b/internal/tui/input.go
@@ -159,8 +159,7 @@ func (a *App) moveNode(event *tcell.EventKey) *tcell.EventKey {
 		b.X += dx
 		b.Y += dy
 
-		p := a.network.Variables()[a.selectedNode].Position
-		a.network.Variables()[a.selectedNode].Position = [2]int{p[0] + dx, p[1] + dy}
+		a.network.Variables()[a.selectedNode].Position = [2]int{b.X, b.Y}
 
 		if createCanvas {
 			a.createCanvas()
-- 
2.43.0


From f979bea240dad4b4f816d4e8615546d65a4087b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:18 +0000
Subject: [PATCH 31/43] fix: report the same error for the same invalid
 evidence

With several invalid entries, the reported one depended on map iteration order.
---
 internal/tui/solve.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/internal/tui/solve.go b/internal/tui/solve.go
index b2fe980..36735d4 100644
--- a/internal/tui/solve.go
+++ b/internal/tui/solve.go
@@ -3,6 +3,7 @@ package tui
 import (
 	"fmt"
 	"math"
+	"slices"
 
 	"github.com/mlange-42/bbn"
 	"github.com/mlange-42/bbn/ve"
@@ -42,8 +43,13 @@ func Solve(network *bbn.Network, evidence map[string]string, nodes []Node, ignor
 }
 
 func solveEvidence(network *bbn.Network, evidence map[string]string, result map[string][]float64) error {
-	for variable, value := range evidence {
-		p, err := network.ToEvidence(variable, value)
+	variables := make([]string, 0, len(evidence))
+	for variable := range evidence {
+		variables = append(variables, variable)
+	}
+	slices.Sort(variables)
+	for _, variable := range variables {
+		p, err := network.ToEvidence(variable, evidence[variable])
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 0afc04f7de9fe882614df5e0f6d1cda991dd9d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:42 +0000
Subject: [PATCH 32/43] fix: reject cyclic networks

Solving policies could panic when a decision was its own ancestor.
---
 network.go | 37 +++++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/network.go b/network.go
index 715e2b4..5a373ae 100644
--- a/network.go
+++ b/network.go
@@ -172,9 +172,46 @@ func (n *Network) prepareVariables() error {
 		}
 	}
 
+	if err := checkCycles(n.variables, varNames); err != nil {
+		return err
+	}
+
 	return n.prepareUtilityNodes(varNames)
 }
 
+// checkCycles checks that no variable is its own ancestor.
+func checkCycles(variables []Variable, varNames map[string]*Variable) error {
+	const visiting, done = 1, 2
+	state := make(map[string]int, len(variables))
+
+	var visit func(v *Variable) error
+	visit = func(v *Variable) error {
+		switch state[v.Name] {
+		case visiting:
+			return fmt.Errorf("variable %s is its own ancestor", v.Name)
+		case done:
+			return nil
+		}
+		state[v.Name] = visiting
+		if v.Factor != nil {
+			for _, g := range v.Factor.Given {
+				if err := visit(varNames[g]); err != nil {
+					return err
+				}
+			}
+		}
+		state[v.Name] = done
+		return nil
+	}
+
+	for i := range variables {
+		if err := visit(&variables[i]); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
 // checkFactor checks that parents and table of a variable's factor are consistent with the variables.
 func checkFactor(v *Variable, varNames map[string]*Variable) error {
 	rows := 1
-- 
2.43.0


From 4a430814d8d601ee337a55df79c307b1b5b648e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:09 +0000
Subject: [PATCH 33/43] fix: reject multiple factors for a variable and factors
 for unknown variables

Multiple factors were multiplied with each other, but only the first one was displayed, saved and trained.
---
 network.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/network.go b/network.go
index 5a373ae..0636858 100644
--- a/network.go
+++ b/network.go
@@ -150,6 +150,17 @@ func (n *Network) prepareVariables() error {
 		outcomes[v.Name] = len(v.Outcomes)
 	}
 
+	factorNames := map[string]bool{}
+	for _, f := range n.factors {
+		if _, ok := varNames[f.For]; !ok {
+			return fmt.Errorf("variable %s for factor not found", f.For)
+		}
+		if factorNames[f.For] {
+			return fmt.Errorf("multiple factors for variable %s", f.For)
+		}
+		factorNames[f.For] = true
+	}
+
 	for i := range n.variables {
 		v := &n.variables[i]
 		idx := slices.IndexFunc(n.factors, func(f Factor) bool { return f.For == v.Name })
-- 
2.43.0


From 9903b84733ac4c40c73d6c5b668d1fca10aab1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:10 +0000
Subject: [PATCH 34/43] fix: reject duplicate definitions and definitions for
 unknown nodes in BIF-XML files

Duplicate definitions silently replaced each other.
---
 xml.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/xml.go b/xml.go
index a925a12..7ad8ea6 100644
--- a/xml.go
+++ b/xml.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/xml"
 	"fmt"
+	"slices"
 	"strconv"
 	"strings"
 )
@@ -46,6 +47,12 @@ func FromBIFXML(content []byte) (*Network, error) {
 	defs := map[string]*definitionXml{}
 	for i := range bifNet.Network.Definitions {
 		def := &bifNet.Network.Definitions[i]
+		if _, ok := defs[def.For]; ok {
+			return nil, fmt.Errorf("multiple definitions for node '%s'", def.For)
+		}
+		if !slices.ContainsFunc(bifNet.Network.Variables, func(v variableXml) bool { return v.Name == def.For }) {
+			return nil, fmt.Errorf("definition for unknown node '%s'", def.For)
+		}
 		defs[def.For] = def
 	}
 
-- 
2.43.0


From 4a017675d2c221be701a025160ea5553a380aa2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:43 +0000
Subject: [PATCH 35/43] fix: reject table rows of wrong length in YAML files

Rows were concatenated, so shifted values were accepted if only the total number was right.
---
 yml.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/yml.go b/yml.go
index 93b906f..d0dcc1b 100644
--- a/yml.go
+++ b/yml.go
@@ -98,7 +98,10 @@ func toTable(v *variableYaml) ([]float64, error) {
 		var table []float64
 		if len(v.Table) > 0 {
 			table = make([]float64, 0, len(v.Table)*len(v.Table[0]))
-			for _, row := range v.Table {
+			for i, row := range v.Table {
+				if len(row) != len(v.Outcomes) {
+					return nil, fmt.Errorf("row %d in table of variable %s has %d values, expected %d", i, v.Variable, len(row), len(v.Outcomes))
+				}
 				table = append(table, row...)
 			}
 		}
-- 
2.43.0


From b00b3189cd60a901bd4b39bcfeb176eefc1b6bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:18 +0000
Subject: [PATCH 36/43] fix: accept variables without a factor when writing and
 training networks

ToYAML and NewTrainer panicked.
---
 network.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/network.go b/network.go
index 0636858..0c4839e 100644
--- a/network.go
+++ b/network.go
@@ -160,6 +160,12 @@ func (n *Network) prepareVariables() error {
 		}
 		factorNames[f.For] = true
 	}
+	// variables without a factor have no parents and no table
+	for i := range n.variables {
+		if v := &n.variables[i]; v.NodeType != ve.UtilityNode && !factorNames[v.Name] {
+			n.factors = append(slices.Clip(n.factors), Factor{For: v.Name})
+		}
+	}
 
 	for i := range n.variables {
 		v := &n.variables[i]
-- 
2.43.0


From 3de5a734c3b5a08ff06d78c5f5fcd476d1091849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:43 +0000
Subject: [PATCH 37/43] fix: refuse variables with duplicate ids in package ve

---
 ve/variables.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ve/variables.go b/ve/variables.go
index e05e3aa..5e08ed1 100644
--- a/ve/variables.go
+++ b/ve/variables.go
@@ -25,6 +25,7 @@ func (v *Variables) AddVariable(id int, nodeType NodeType, outcomes uint16) Vari
 	if _, ok := v.ids[id]; ok {
 		panic(fmt.Sprintf("there is already a variable with ID %d", id))
 	}
+	v.ids[id] = true
 	v.variables = append(v.variables,
 		Variable{
 			id:       id,
-- 
2.43.0


From 43247f725caafb974124e22d8aa00e0ec0767c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:28 +0000
Subject: [PATCH 38/43] fix: outcome-either keeps a copy of its arguments

---
 logic/outcome.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/logic/outcome.go b/logic/outcome.go
index ed7ff61..9358ec5 100644
--- a/logic/outcome.go
+++ b/logic/outcome.go
@@ -105,7 +105,7 @@ type outcomeEitherFactor struct {
 // Argument count is the total number of possible outcomes of the parent.
 func OutcomeEither(idx []int, count int) Factor {
 	return &outcomeEitherFactor{
-		Indices: idx,
+		Indices: append([]int{}, idx...),
 		Length:  count,
 	}
 }
@@ -114,7 +114,7 @@ func (f *outcomeEitherFactor) SetArgs(args ...int) error {
 	if len(args) < 2 {
 		return fmt.Errorf("logic operator expects at least 2 argument (index..., length), got %d", len(args))
 	}
-	f.Indices = args[:len(args)-1]
+	f.Indices = append([]int{}, args[:len(args)-1]...)
 	f.Length = args[len(args)-1]
 	return nil
 }
-- 
2.43.0


From d9947914d5ffab811d3d27d692d7115743bca53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:10 +0000
Subject: [PATCH 39/43] fix: refuse logic operators with tables that can't be
 created

---
 logic/bits.go    |  9 ++++++++-
 logic/count.go   | 27 ++++++++++++++++++++++++---
 logic/factor.go  | 24 ++++++++++++++++++++++++
 logic/given.go   | 24 +++++++++++++++++++++---
 logic/outcome.go | 25 ++++++++++++++++++++-----
 logic/simple.go  |  4 ++--
 6 files changed, 99 insertions(+), 14 deletions(-)

diff --git a/logic/bits.go b/logic/bits.go
index d9f8b4f..db62e08 100644
--- a/logic/bits.go
+++ b/logic/bits.go
@@ -19,9 +19,16 @@ func (f *bitsFactor) SetArgs(args ...int) error {
 }
 
 func (f *bitsFactor) Table(given int) ([]float64, error) {
+	if err := checkOperands(given); err != nil {
+		return nil, err
+	}
+
 	rows := uint(1) << uint(given) // 2^given
 	cols := uint(1) << uint(given) // 2^given
-	table := make([]float64, int(rows*cols))
+	table, err := newTable(int(rows), int(cols))
+	if err != nil {
+		return nil, err
+	}
 
 	max := cols - 1
 
diff --git a/logic/count.go b/logic/count.go
index f471034..7bb4184 100644
--- a/logic/count.go
+++ b/logic/count.go
@@ -49,8 +49,15 @@ func (f *countFactor) SetArgs(args ...int) error {
 }
 
 func (f *countFactor) Table(given int) ([]float64, error) {
+	if err := checkOperands(given); err != nil {
+		return nil, err
+	}
+
 	rows := uint(1) << uint(given) // 2^given
-	table := make([]float64, rows*2)
+	table, err := newTable(int(rows), 2)
+	if err != nil {
+		return nil, err
+	}
 
 	var i uint
 	for i = 0; i < rows; i++ {
@@ -79,9 +86,16 @@ func (f *countTrueFactor) SetArgs(args ...int) error {
 }
 
 func (f *countTrueFactor) Table(given int) ([]float64, error) {
+	if err := checkOperands(given); err != nil {
+		return nil, err
+	}
+
 	rows := uint(1) << uint(given) // 2^given
 	cols := given + 1
-	table := make([]float64, int(rows)*cols)
+	table, err := newTable(int(rows), cols)
+	if err != nil {
+		return nil, err
+	}
 
 	var i uint
 	for i = 0; i < rows; i++ {
@@ -106,9 +120,16 @@ func (f *countFalseFactor) SetArgs(args ...int) error {
 }
 
 func (f *countFalseFactor) Table(given int) ([]float64, error) {
+	if err := checkOperands(given); err != nil {
+		return nil, err
+	}
+
 	rows := uint(1) << uint(given) // 2^given
 	cols := given + 1
-	table := make([]float64, int(rows)*cols)
+	table, err := newTable(int(rows), cols)
+	if err != nil {
+		return nil, err
+	}
 
 	var i uint
 	for i = 0; i < rows; i++ {
diff --git a/logic/factor.go b/logic/factor.go
index d4818b7..76b738a 100644
--- a/logic/factor.go
+++ b/logic/factor.go
@@ -1,5 +1,13 @@
 package logic
 
+import "fmt"
+
+// Limits for tables of logic operators.
+const (
+	maxOperands  = 32      // Maximum number of operands.
+	maxTableSize = 1 << 26 // Maximum number of values.
+)
+
 // Factor is an interface for logic factors.
 type Factor interface {
 	// Table returns the CPT for the given number of parent variables.
@@ -69,3 +77,19 @@ var factors = map[string]func() Factor{
 
 	"bits": Bits,
 }
+
+// checkOperands checks the number of operands of a logic operator.
+func checkOperands(given int) error {
+	if given < 0 || given > maxOperands {
+		return fmt.Errorf("logic operator can't handle %d operands", given)
+	}
+	return nil
+}
+
+// newTable creates the table for a logic operator.
+func newTable(rows, columns int) ([]float64, error) {
+	if rows < 0 || rows > maxTableSize/columns {
+		return nil, fmt.Errorf("logic operator requires a table with more than %d values", maxTableSize)
+	}
+	return make([]float64, rows*columns), nil
+}
diff --git a/logic/given.go b/logic/given.go
index a19c096..8d23334 100644
--- a/logic/given.go
+++ b/logic/given.go
@@ -34,13 +34,19 @@ func (f *givenFactor) SetArgs(args ...int) error {
 }
 
 func (f *givenFactor) Table(given int) ([]float64, error) {
+	if err := checkOperands(given); err != nil {
+		return nil, err
+	}
 	bit, err := parentBit(f.Index, given)
 	if err != nil {
 		return nil, err
 	}
 
 	rows := uint(1) << uint(given) // 2^given
-	table := make([]float64, rows*2)
+	table, err := newTable(int(rows), 2)
+	if err != nil {
+		return nil, err
+	}
 
 	var i uint
 	for i = 0; i < rows; i++ {
@@ -74,13 +80,19 @@ func (f *givenNotFactor) SetArgs(args ...int) error {
 }
 
 func (f *givenNotFactor) Table(given int) ([]float64, error) {
+	if err := checkOperands(given); err != nil {
+		return nil, err
+	}
 	bit, err := parentBit(f.Index, given)
 	if err != nil {
 		return nil, err
 	}
 
 	rows := uint(1) << uint(given) // 2^given
-	table := make([]float64, rows*2)
+	table, err := newTable(int(rows), 2)
+	if err != nil {
+		return nil, err
+	}
 
 	var i uint
 	for i = 0; i < rows; i++ {
@@ -114,13 +126,19 @@ func (f *givenExclFactor) SetArgs(args ...int) error {
 }
 
 func (f *givenExclFactor) Table(given int) ([]float64, error) {
+	if err := checkOperands(given); err != nil {
+		return nil, err
+	}
 	bit, err := parentBit(f.Index, given)
 	if err != nil {
 		return nil, err
 	}
 
 	rows := uint(1) << uint(given) // 2^given
-	table := make([]float64, rows*2)
+	table, err := newTable(int(rows), 2)
+	if err != nil {
+		return nil, err
+	}
 
 	var i uint
 	for i = 0; i < rows; i++ {
diff --git a/logic/outcome.go b/logic/outcome.go
index 9358ec5..5913c61 100644
--- a/logic/outcome.go
+++ b/logic/outcome.go
@@ -44,7 +44,10 @@ func (f *outcomeIsFactor) Table(given int) ([]float64, error) {
 		return nil, err
 	}
 
-	table := make([]float64, f.Length*2)
+	table, err := newTable(f.Length, 2)
+	if err != nil {
+		return nil, err
+	}
 	for i := 0; i < f.Length; i++ {
 		table[i*2+1] = 1
 	}
@@ -86,7 +89,10 @@ func (f *outcomeIsNotFactor) Table(given int) ([]float64, error) {
 		return nil, err
 	}
 
-	table := make([]float64, f.Length*2)
+	table, err := newTable(f.Length, 2)
+	if err != nil {
+		return nil, err
+	}
 	for i := 0; i < f.Length; i++ {
 		table[i*2] = 1
 	}
@@ -130,7 +136,10 @@ func (f *outcomeEitherFactor) Table(given int) ([]float64, error) {
 		}
 	}
 
-	table := make([]float64, f.Length*2)
+	table, err := newTable(f.Length, 2)
+	if err != nil {
+		return nil, err
+	}
 	for i := 0; i < f.Length; i++ {
 		table[i*2+1] = 1
 	}
@@ -175,7 +184,10 @@ func (f *outcomeLessFactor) Table(given int) ([]float64, error) {
 		return nil, err
 	}
 
-	table := make([]float64, f.Length*2)
+	table, err := newTable(f.Length, 2)
+	if err != nil {
+		return nil, err
+	}
 	for i := 0; i < f.Index; i++ {
 		table[i*2] = 1
 	}
@@ -219,7 +231,10 @@ func (f *outcomeGreaterFactor) Table(given int) ([]float64, error) {
 		return nil, err
 	}
 
-	table := make([]float64, f.Length*2)
+	table, err := newTable(f.Length, 2)
+	if err != nil {
+		return nil, err
+	}
 	for i := 0; i < f.Index; i++ {
 		table[i*2+1] = 1
 	}
diff --git a/logic/simple.go b/logic/simple.go
index 72e7571..2db8a09 100644
--- a/logic/simple.go
+++ b/logic/simple.go
@@ -13,7 +13,7 @@ func (f *boolFactor) SetArgs(args ...int) error {
 
 func (f *boolFactor) Table(given int) ([]float64, error) {
 	arr := *f
-	if len(arr) != 1<<given { // 2^given
+	if given < 0 || len(arr) != 1<<given { // 2^given
 		return nil, fmt.Errorf("logic operator requires %d operands, but %d were given", len(arr)/2, given)
 	}
 
@@ -39,7 +39,7 @@ func (f *floatFactor) SetArgs(args ...int) error {
 
 func (f *floatFactor) Table(given int) ([]float64, error) {
 	arr := *f
-	if len(arr) != 1<<(given+1) { // 2^(given+1)
+	if given < 0 || len(arr) != 1<<(given+1) { // 2^(given+1)
 		return nil, fmt.Errorf("logic operator requires %d operands, but %d were given", len(arr)/4, given)
 	}
 	return append([]float64{}, arr...), nil
-- 
2.43.0


From e465873990c47b6a88579b36c50386e8ae806429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:43 +0000
Subject: [PATCH 40/43] fix: show names and outcomes that look like color tags

---
 internal/tui/input.go  |  2 +-
 internal/tui/render.go | 13 +++++++++++--
 internal/tui/table.go  |  4 ++--
 3 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/internal/tui/input.go b/internal/tui/input.go
index 1d29cf7..5a080cc 100644
--- a/internal/tui/input.go
+++ b/internal/tui/input.go
@@ -210,7 +210,7 @@ func (a *App) showTable() {
 
 	a.tableDialog.SetRows(0, data.GetRowCount()+5, 0)
 	a.table.SetContent(&data)
-	a.table.SetTitle(" " + node.Name + " ")
+	a.table.SetTitle(" " + escapeTags(node.Name) + " ")
 	a.pages.ShowPage("Table")
 
 	a.app.SetFocus(a.table)
diff --git a/internal/tui/render.go b/internal/tui/render.go
index 81eee17..a98f989 100644
--- a/internal/tui/render.go
+++ b/internal/tui/render.go
@@ -143,14 +143,17 @@ func (a *App) updateCanvas() {
 	for i, runes := range a.canvas {
 		cols := a.colors[i]
 
-		for j, r := range runes {
+		start := 0
+		for j := range runes {
 			c := cols[j]
 			if c != prevColor {
+				builder.WriteString(escapeTags(string(runes[start:j])))
 				builder.WriteString(ColorTags[c])
+				start = j
 			}
-			builder.WriteRune(r)
 			prevColor = c
 		}
+		builder.WriteString(escapeTags(string(runes[start:])))
 		builder.WriteString(ColorTags[White])
 
 		if i < len(a.canvas)-1 {
@@ -159,3 +162,9 @@ func (a *App) updateCanvas() {
 	}
 	a.graph.SetText(builder.String())
 }
+
+// escapeTags escapes text that looks like a color tag.
+// In contrast to tview.Escape, the result does not depend on the text it is embedded in.
+func escapeTags(text string) string {
+	return strings.ReplaceAll(text, "[", "[[::]")
+}
diff --git a/internal/tui/table.go b/internal/tui/table.go
index 57032db..3862c7c 100644
--- a/internal/tui/table.go
+++ b/internal/tui/table.go
@@ -35,7 +35,7 @@ func NewTable(nodes []Node, index int, nodesByName map[string]int) Table {
 
 func (t *Table) GetCell(row, column int) *tview.TableCell {
 	if row == 0 {
-		cell := tview.NewTableCell(t.header[column])
+		cell := tview.NewTableCell(escapeTags(t.header[column]))
 		cell.SetAlign(tview.AlignCenter)
 		cell.SetExpansion(1)
 		return cell
@@ -54,7 +54,7 @@ func (t *Table) GetCell(row, column int) *tview.TableCell {
 		}
 		parent := t.nodes[t.nodesByName[node.Node().Factor.Given[column]]].Node()
 		text := parent.Outcomes[(row/stride)%len(parent.Outcomes)]
-		cell := tview.NewTableCell(text)
+		cell := tview.NewTableCell(escapeTags(text))
 		cell.SetAlign(tview.AlignRight)
 		return cell
 	}
-- 
2.43.0


From 078611ece51e3ed0f43bfdd3c015862624940401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:01 +0000
Subject: [PATCH 41/43] fix: show large utilities in scientific notation

---
 internal/tui/node.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/internal/tui/node.go b/internal/tui/node.go
index 590d9a6..40cf723 100644
--- a/internal/tui/node.go
+++ b/internal/tui/node.go
@@ -14,6 +14,7 @@ const maxNodeLabelWidth = 48
 const maxStateLabelWidth = 16
 const maxBars = 10
 const extraUtilityWidth = 5
+const utilityWidth = 12
 
 type Node interface {
 	Node() *bbn.Variable
@@ -234,8 +235,17 @@ func (n *node) drawUtility(probs []float64) {
 		if math.IsNaN(p) {
 			text = []rune("         ???")
 		} else {
-			text = []rune(fmt.Sprintf("%12.3f", p))
+			text = []rune(formatUtility(p))
 		}
 		copy(n.runes[i+2][n.barsX+1:], text)
 	}
 }
+
+// formatUtility formats a utility. Scientific notation is used for values that do not fit.
+func formatUtility(value float64) string {
+	text := fmt.Sprintf("%*.3f", utilityWidth, value)
+	for prec := 6; prec > 0 && len(text) > utilityWidth; prec-- {
+		text = fmt.Sprintf("%*.*e", utilityWidth, prec, value)
+	}
+	return text
+}
-- 
2.43.0


From 5e9792c55c72ba9b63f0af6030f4436fe8426cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:26 +0000
Subject: [PATCH 42/43] fix: show nodes that span the drawing in their color

---
 internal/tui/render.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tui/render.go b/internal/tui/render.go
index a98f989..14bfe6f 100644
--- a/internal/tui/render.go
+++ b/internal/tui/render.go
@@ -139,11 +139,11 @@ func (a *App) clearCanvas() {
 
 func (a *App) updateCanvas() {
 	builder := strings.Builder{}
-	var prevColor Color
 	for i, runes := range a.canvas {
 		cols := a.colors[i]
 
 		start := 0
+		prevColor := White
 		for j := range runes {
 			c := cols[j]
 			if c != prevColor {
-- 
2.43.0


From 047cd68e465a7eb4d6e0d5d785feba334367c44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:34 +0000
Subject: [PATCH 43/43] fix: order decisions that precede each other through
 other variables

---
 network.go | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/network.go b/network.go
index 0c4839e..68e9fee 100644
--- a/network.go
+++ b/network.go
@@ -589,7 +589,7 @@ func (n *Network) toVE(evidence map[string]string) (*ve.VE, map[string]*variable
 
 		// don't add factors for unsolved decision nodes, but add dependencies
 		if forVar.VeVariable.NodeType() == ve.DecisionNode {
-			dependencies[forVar.VeVariable] = variables
+			dependencies[forVar.VeVariable] = n.addEarlierDecisions(f.For, variables, varNames)
 			continue
 		}
 		// don't add factors for solved decision nodes, done later
@@ -622,6 +622,36 @@ func (n *Network) toVE(evidence map[string]string) (*ve.VE, map[string]*variable
 	return ve.New(vars, factors, dependencies, weights), varNames, nil
 }
 
+// addEarlierDecisions adds all unsolved decisions that precede the given decision,
+// even if only through other variables, to its direct dependencies.
+//
+// Required to solve decisions in the correct order.
+func (n *Network) addEarlierDecisions(decision string, dependencies []ve.Variable, varNames map[string]*variable) []ve.Variable {
+	visited := map[string]bool{decision: true}
+	queue := []string{decision}
+	for len(queue) > 0 {
+		name := queue[0]
+		queue = queue[1:]
+		for _, f := range n.factors {
+			if f.For != name {
+				continue
+			}
+			for _, p := range f.Given {
+				if visited[p] {
+					continue
+				}
+				visited[p] = true
+				queue = append(queue, p)
+				v, ok := varNames[p]
+				if ok && v.VeVariable.NodeType() == ve.DecisionNode && !slices.Contains(dependencies, v.VeVariable) {
+					dependencies = append(dependencies, v.VeVariable)
+				}
+			}
+		}
+	}
+	return dependencies
+}
+
 // prepareUtilityWeights derives utility weights from a potential total utility node.
 func (n *Network) prepareUtilityWeights() ([]float64, error) {
 	utilityNodes := []*Variable{}
-- 
2.43.0

