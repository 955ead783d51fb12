From 27a2fda16c0f693bfc9ad782f77a2539f94b0d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:26 +0000
Subject: [PATCH 01/41] fix: Fq.Exp reduced the exponent modulo the field order

---
 utils/finiteField.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/utils/finiteField.go b/utils/finiteField.go
index 67bb2ae..2b743da 100644
--- a/utils/finiteField.go
+++ b/utils/finiteField.go
@@ -141,8 +141,11 @@ func (fq Fq) Square(a *big.Int) *big.Int {
 // Exp performs the exponential over Fq
 func (fq Fq) Exp(base *big.Int, e *big.Int) *big.Int {
 	res := fq.One()
-	rem := fq.Copy(e)
+	rem := new(big.Int).Abs(e)
 	exp := base
+	if e.Sign() < 0 {
+		exp = fq.Inverse(base)
+	}
 
 	for !bytes.Equal(rem.Bytes(), bigZero.Bytes()) {
 		if BigIsOdd(rem) {
-- 
2.43.0


From a4f9f7b37cd34ed21571ad1c7ebd43bd822b4261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:26 +0000
Subject: [PATCH 02/41] fix: StringToFieldElement crashed on a string that is
 no number

---
 utils/finiteField.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/utils/finiteField.go b/utils/finiteField.go
index 2b743da..2ada763 100644
--- a/utils/finiteField.go
+++ b/utils/finiteField.go
@@ -61,6 +61,9 @@ func (fq Fq) One() *big.Int {
 
 func (fq Fq) StringToFieldElement(a string) (v *big.Int, s bool) {
 	v, s = new(big.Int).SetString(a, 10)
+	if !s {
+		return nil, false
+	}
 	return v.Mod(v, fq.Q), s
 }
 
-- 
2.43.0


From f10ca653c556736c8ea311ef2bc0ce2eb5474231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:26 +0000
Subject: [PATCH 03/41] fix: dense division crashed if the dividend is shorter
 than the divisor

---
 utils/polynomialField.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/utils/polynomialField.go b/utils/polynomialField.go
index b7dd86d..27a7e59 100644
--- a/utils/polynomialField.go
+++ b/utils/polynomialField.go
@@ -94,6 +94,9 @@ func (pf PolynomialField) MulSimple(a, b []*big.Int) []*big.Int {
 // Div divides two polinomials over the Finite Field, returning the result and the remainder
 func (pf PolynomialField) Div(a, b []*big.Int) ([]*big.Int, []*big.Int) {
 	// https://en.wikipedia.org/wiki/Division_algorithm
+	if len(a) < len(b) {
+		return ArrayOfBigZeros(1), a
+	}
 	r := ArrayOfBigZeros(len(a) - len(b) + 1)
 	rem := a
 	for len(rem) >= len(b) {
-- 
2.43.0


From dfb188bedc58695052f59f7f639f4a079012ff5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:26 +0000
Subject: [PATCH 04/41] fix: sparse division by a constant did not terminate

---
 utils/sparsePolynomial.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/sparsePolynomial.go b/utils/sparsePolynomial.go
index 6fe136f..76702d1 100644
--- a/utils/sparsePolynomial.go
+++ b/utils/sparsePolynomial.go
@@ -37,7 +37,7 @@ func (fq Fq) DivideSparse(a, b *AvlTree) (result, rem *AvlTree) {
 	result = NewAvlTree()
 	rem = a.Clone()
 	maxA, maxB := rem.MaxNode(), b.MaxNode()
-	for ; maxA != nil && maxB != nil && maxA.Key() >= maxB.Key(); maxA = rem.MaxNode() {
+	for ; rem.Root() != nil && maxA.Key() >= maxB.Key(); maxA = rem.MaxNode() {
 		l := fq.Div(maxA.Value(), maxB.Value())
 		pos := maxA.Key() - maxB.Key()
 		aux := NewAvlTree()
-- 
2.43.0


From 09d8aa0af028f7d9aacd3f776176f014a62fc843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:26 +0000
Subject: [PATCH 05/41] fix: sparse scalar product was not reduced

---
 utils/sparsePolynomial.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/sparsePolynomial.go b/utils/sparsePolynomial.go
index 76702d1..b44a70f 100644
--- a/utils/sparsePolynomial.go
+++ b/utils/sparsePolynomial.go
@@ -181,7 +181,7 @@ func (f Fq) InterpolateSparseArray(dataArray *AvlTree, degree int) (polynom *Avl
 func (f Fq) SparseScalarProduct(a *AvlTree, b []*big.Int) (res *big.Int) {
 	res = big.NewInt(0)
 	for v := range a.ChannelNodes(true) {
-		res = res.Add(res, f.Mul(v.Value, b[v.Key]))
+		res = f.Add(res, f.Mul(v.Value, b[v.Key]))
 	}
 	return
 }
-- 
2.43.0


From 6db6f44f1c406f22bdb5cdcf93309689bf2a5667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:26 +0000
Subject: [PATCH 06/41] fix: scaling a sparse array by zero removed nodes while
 a goroutine walks them

---
 utils/sparsePolynomial.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/sparsePolynomial.go b/utils/sparsePolynomial.go
index b44a70f..c1b31b8 100644
--- a/utils/sparsePolynomial.go
+++ b/utils/sparsePolynomial.go
@@ -21,7 +21,7 @@ func (fq Fq) MulSparse(a, b *AvlTree) *AvlTree {
 // Mul multiplies a sparse polynomail with a scalar over the Finite Field
 func (fq Fq) MulSparseScalar(a *AvlTree, scalar *big.Int) *AvlTree {
 	a = a.Clone()
-	for L := range a.ChannelNodes(true) {
+	for _, L := range a.DecendingNodes() {
 		a.Put(L.Key, scalar, fq.Mul)
 	}
 	return a
@@ -187,7 +187,7 @@ func (f Fq) SparseScalarProduct(a *AvlTree, b []*big.Int) (res *big.Int) {
 }
 
 func (f Fq) Combine(a *AvlTree, w []*big.Int) (scaledPolynomial *AvlTree) {
-	for v := range a.ChannelNodes(true) {
+	for _, v := range a.DecendingNodes() {
 		a.Put(v.Key, w[v.Key], f.Mul)
 	}
 	return a
-- 
2.43.0


From 17eb4d728ec3de7ec358c87b9a7130134817fe18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:37 +0000
Subject: [PATCH 07/41] fix: doubling a G1 point in place used the overwritten
 y coordinate

---
 pairing/curve.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pairing/curve.go b/pairing/curve.go
index 819cb81..87b8fa6 100644
--- a/pairing/curve.go
+++ b/pairing/curve.go
@@ -200,6 +200,11 @@ func (c *curvePoint) Double(a *curvePoint, pool *bnPool) {
 	f := pool.Get().Mul(e, e)
 	f.Mod(f, P)
 
+	// c may be a: z is computed before the coordinates of a are overwritten
+	t.Mul(a.y, a.z)
+	t.Mod(t, P)
+	c.z.Add(t, t)
+
 	t.Add(d, d)
 	c.x.Sub(f, t)
 
@@ -211,10 +216,6 @@ func (c *curvePoint) Double(a *curvePoint, pool *bnPool) {
 	t2.Mod(t2, P)
 	c.y.Sub(t2, t)
 
-	t.Mul(a.y, a.z)
-	t.Mod(t, P)
-	c.z.Add(t, t)
-
 	pool.Put(A)
 	pool.Put(B)
 	pool.Put(C_)
-- 
2.43.0


From 9aa31ac9357707ab3c354734d823da46da0191ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:37 +0000
Subject: [PATCH 08/41] fix: doubling a G2 point in place used the overwritten
 y coordinate

---
 pairing/twist.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pairing/twist.go b/pairing/twist.go
index 43364ff..6272245 100644
--- a/pairing/twist.go
+++ b/pairing/twist.go
@@ -182,6 +182,10 @@ func (c *twistPoint) Double(a *twistPoint, pool *bnPool) {
 	e := newGFp2(pool).Add(t, A)
 	f := newGFp2(pool).Square(e, pool)
 
+	// c may be a: z is computed before the coordinates of a are overwritten
+	t.Mul(a.y, a.z, pool)
+	c.z.Add(t, t)
+
 	t.Add(d, d)
 	c.x.Sub(f, t)
 
@@ -192,9 +196,6 @@ func (c *twistPoint) Double(a *twistPoint, pool *bnPool) {
 	t2.Mul(e, c.y, pool)
 	c.y.Sub(t2, t)
 
-	t.Mul(a.y, a.z, pool)
-	c.z.Add(t, t)
-
 	A.Put(pool)
 	B.Put(pool)
 	C_.Put(pool)
-- 
2.43.0


From 50b971e81a2cf7fe21bf3721eaab1f45888e2a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:30 +0000
Subject: [PATCH 09/41] fix: negating a G2 point in place gave y = 0

---
 pairing/twist.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pairing/twist.go b/pairing/twist.go
index 6272245..89cd4d4 100644
--- a/pairing/twist.go
+++ b/pairing/twist.go
@@ -257,8 +257,7 @@ func (c *twistPoint) MakeAffine(pool *bnPool) *twistPoint {
 
 func (c *twistPoint) Negative(a *twistPoint, pool *bnPool) {
 	c.x.Set(a.x)
-	c.y.SetZero()
-	c.y.Sub(c.y, a.y)
+	c.y.Negative(a.y)
 	c.z.Set(a.z)
 	c.t.SetZero()
 }
-- 
2.43.0


From ca9ba1233cd98f195eb24cd6fad7d4080a185024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:34 +0000
Subject: [PATCH 10/41] fix: negating factors changed the constant of the
 variable they came from

---
 circuitcompiler/factorHandling.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/circuitcompiler/factorHandling.go b/circuitcompiler/factorHandling.go
index a8f0caa..31bfe4e 100644
--- a/circuitcompiler/factorHandling.go
+++ b/circuitcompiler/factorHandling.go
@@ -239,7 +239,8 @@ func addFactors(leftFactors, rightFactors factors) factors {
 func negateFactors(leftFactors factors) factors {
 	for i := range leftFactors {
 		//leftFactors[i].multiplicative = field.Neg(leftFactors[i].multiplicative)
-		leftFactors[i].multiplicative = leftFactors[i].multiplicative.Neg(leftFactors[i].multiplicative)
+		//the number may be shared with a variable, so it is not negated in place
+		leftFactors[i].multiplicative = new(big.Int).Neg(leftFactors[i].multiplicative)
 		if leftFactors[i].typ.Type == NumberToken {
 			leftFactors[i].typ.Identifier = leftFactors[i].multiplicative.String()
 		}
-- 
2.43.0


From fcd904545d0aaaf70f2f8d714fcf16957145d3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:34 +0000
Subject: [PATCH 11/41] fix: extracting a constant from zero factors divided by
 zero

---
 circuitcompiler/factorHandling.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/circuitcompiler/factorHandling.go b/circuitcompiler/factorHandling.go
index 31bfe4e..5bed4a2 100644
--- a/circuitcompiler/factorHandling.go
+++ b/circuitcompiler/factorHandling.go
@@ -61,6 +61,10 @@ func extractGCD(f factors) (factors, *big.Int) {
 	for i := 1; i < len(f); i++ {
 		gcd = new(big.Int).GCD(nil, nil, f[i].multiplicative, gcd)
 	}
+	if gcd.Cmp(bigZero) == 0 {
+		//all factors are zero, there is nothing to extract
+		return f, bigOne
+	}
 	for i := 0; i < len(f); i++ {
 		f[i].multiplicative = new(big.Int).Div(f[i].multiplicative, gcd)
 
-- 
2.43.0


From f84f16ffcec92e9afaef04f315cd0310ce5ce2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:34 +0000
Subject: [PATCH 12/41] fix: an equality gate was identified with the
 multiplication of the same inputs

---
 circuitcompiler/gate.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/circuitcompiler/gate.go b/circuitcompiler/gate.go
index 32c858d..2eb2bcc 100644
--- a/circuitcompiler/gate.go
+++ b/circuitcompiler/gate.go
@@ -54,7 +54,9 @@ func (gate *Gate) setAndGetID() (id string) {
 	sort.Sort(gate.expoIns)
 	sort.Sort(gate.outIns)
 	eo := hashFactorsToBig(append(gate.expoIns, gate.outIns...))
-	gate.identifier = new(big.Int).Xor(lr, eo).String()[:16]
+	//gates of different types are different constraints, even if their inputs are the same
+	typ := new(big.Int).Lsh(big.NewInt(int64(gate.gateType)), 256)
+	gate.identifier = typ.Add(typ, new(big.Int).Xor(lr, eo)).String()[:16]
 	return gate.identifier
 }
 func (gate *Gate) minimizeR1CSDescriptiveComplexity() {
-- 
2.43.0


From af7f705383f73c5c3b1468375597a9c43bb8563c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:34 +0000
Subject: [PATCH 13/41] fix: addGateConstraint multiplied the constants of its
 summands

---
 circuitcompiler/Programm.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/circuitcompiler/Programm.go b/circuitcompiler/Programm.go
index 202117e..df0977f 100644
--- a/circuitcompiler/Programm.go
+++ b/circuitcompiler/Programm.go
@@ -431,11 +431,11 @@ func (currentCircuit *function) compile(currentConstraint *Constraint, gateColle
 			rightClone := currentConstraint.Inputs[1].clone()
 			leftFactors, _, _ := currentCircuit.compile(leftClone, gateCollector)
 			rightFactors, _, _ := currentCircuit.compile(rightClone, gateCollector)
-			commonExtracted, extractedLeft, extractedRight := extractConstant(leftFactors, rightFactors)
+			commonExtracted, extractedSum := factorSignature(addFactors(leftFactors, rightFactors))
 
 			rootGate := &Gate{
 				gateType: additionGate,
-				leftIns:  addFactors(extractedLeft, extractedRight),
+				leftIns:  extractedSum,
 			}
 
 			nTok := Token{
-- 
2.43.0


From ec17e5eebc36fd0b401ddcf6d1083d2baacafdc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:06 +0000
Subject: [PATCH 14/41] fix: after a branch of an if-else chain was taken, the
 later branches were executed too

---
 circuitcompiler/Programm.go | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/circuitcompiler/Programm.go b/circuitcompiler/Programm.go
index df0977f..e83eb68 100644
--- a/circuitcompiler/Programm.go
+++ b/circuitcompiler/Programm.go
@@ -198,6 +198,18 @@ func (p *Program) Execute() (orderedmGates []*Gate) {
 func (currentCircuit *function) execute(gateCollector *gateContainer) (facs factors, returned bool, preloadedFunction function) {
 
 	for _, task := range currentCircuit.taskStack.data {
+		if task.Output.Type == IF {
+			//only the first branch of an if-else chain, whose condition holds, is executed
+			if len(task.Inputs) == 0 || currentCircuit.checkStaticCondition(task.Inputs[0]) {
+				return currentCircuit.compile(&Constraint{
+					Output: Token{
+						Type:       IF_FUNCTION_CALL,
+						Identifier: task.Output.Identifier,
+					},
+				}, gateCollector)
+			}
+			continue
+		}
 		f, returs, fkt := currentCircuit.compile(task, gateCollector)
 		if returs {
 			return f, true, fkt
@@ -329,17 +341,6 @@ func (currentCircuit *function) compile(currentConstraint *Constraint, gateColle
 		} else {
 			panic(fmt.Sprintf("array %s not declared", resolvedName))
 		}
-	case IF:
-		if len(currentConstraint.Inputs) == 0 || currentCircuit.checkStaticCondition(currentConstraint.Inputs[0]) {
-			return currentCircuit.compile(&Constraint{
-				Output: Token{
-					Type:       IF_FUNCTION_CALL,
-					Identifier: currentConstraint.Output.Identifier,
-				},
-			}, gateCollector)
-		} else {
-			return nil, false, function{}
-		}
 	case IF_FUNCTION_CALL:
 		var nextCircuit *function
 		var ex bool
-- 
2.43.0


From 2fe38df2f6e94d3485674bc14d0c58c55e38682d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:06 +0000
Subject: [PATCH 15/41] fix: nested if statements crashed the compiler

---
 circuitcompiler/circuit.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/circuitcompiler/circuit.go b/circuitcompiler/circuit.go
index b64bbd5..0358774 100644
--- a/circuitcompiler/circuit.go
+++ b/circuitcompiler/circuit.go
@@ -488,9 +488,16 @@ func (from Token) primitiveReturnfunction() (gives *function) {
 
 func splitAtIfEnd(cs []*Constraint) (inside, outside []*Constraint) {
 
+	ctr := 0
 	for i, v := range cs {
+		if v.Output.Type == IF {
+			ctr++
+		}
 		if v.Output.Type == IF_ELSE_CHAIN_END {
-			return cs[:i], cs[i:]
+			ctr--
+			if ctr == 0 {
+				return cs[:i], cs[i:]
+			}
 		}
 	}
 	panic("unexpected reach")
-- 
2.43.0


From 9ba96383b1e0af301a36aebfbf68b39bc1549a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:06 +0000
Subject: [PATCH 16/41] fix: the parser crashed if an if statement is the last
 statement of a block

---
 circuitcompiler/parser.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/circuitcompiler/parser.go b/circuitcompiler/parser.go
index 9609b68..7db299e 100644
--- a/circuitcompiler/parser.go
+++ b/circuitcompiler/parser.go
@@ -229,16 +229,17 @@ func (p *Parser) statementMode(tokens []Token) {
 		handeFunc(1, true, IF)
 
 		hasElseIf := false
-		for rest[0].Type == ELSE && rest[1].Type == IF {
+		for len(rest) > 1 && rest[0].Type == ELSE && rest[1].Type == IF {
 			handeFunc(2, true, ELSE)
 			hasElseIf = true
 		}
 
-		if rest[0].Type != ELSE && hasElseIf {
+		hasElse := len(rest) > 0 && rest[0].Type == ELSE
+		if !hasElse && hasElseIf {
 			p.error("you used else if, so a else at the end is required")
 		}
 
-		if rest[0].Type == ELSE {
+		if hasElse {
 			handeFunc(1, false, ELSE)
 		}
 		p.constraintChan <- &Constraint{Output: Token{Type: IF_ELSE_CHAIN_END}}
-- 
2.43.0


From ac894c8139c5fe78cdc9616733e566ab21415e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:06 +0000
Subject: [PATCH 17/41] fix: a return inside a loop did not leave the function

---
 circuitcompiler/Programm.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/circuitcompiler/Programm.go b/circuitcompiler/Programm.go
index e83eb68..acaf050 100644
--- a/circuitcompiler/Programm.go
+++ b/circuitcompiler/Programm.go
@@ -259,13 +259,11 @@ func (currentCircuit *function) compile(currentConstraint *Constraint, gateColle
 	case FOR:
 		//we check the condition each time we rerun the loop
 		for currentCircuit.checkStaticCondition(currentConstraint.Inputs[0]) {
-			content := &Constraint{
-				Output: Token{
-					Type:       FUNCTION_CALL,
-					Identifier: currentConstraint.Output.Identifier,
-				},
+			body, ex := currentCircuit.findFunctionInBloodline(currentConstraint.Output.Identifier)
+			if !ex {
+				panic(fmt.Sprintf("function %s not declared", currentConstraint.Output.Identifier))
 			}
-			f, retu, fkt := currentCircuit.compile(content, gateCollector)
+			f, retu, fkt := body.flatCopy().execute(gateCollector)
 			if retu {
 				return f, true, fkt
 			}
-- 
2.43.0


From ba1b75e17526a276e1d7761d8bca5b252e0b98b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:06 +0000
Subject: [PATCH 18/41] fix: a division by the constant zero compiled to zero

---
 circuitcompiler/Programm.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/circuitcompiler/Programm.go b/circuitcompiler/Programm.go
index acaf050..05feb2d 100644
--- a/circuitcompiler/Programm.go
+++ b/circuitcompiler/Programm.go
@@ -565,6 +565,9 @@ func (currentCircuit *function) compile(currentConstraint *Constraint, gateColle
 				rightFactors, _, _ = currentCircuit.compile(right, gateCollector)
 
 				if rightFactors.isSingleNumber() { // (x1+x2..)/6
+					if rightFactors[0].multiplicative.Cmp(bigZero) == 0 {
+						panic("division by zero")
+					}
 					return mulFactors(leftFactors, invertFactors(rightFactors)), currentConstraint.Output.Type == RETURN, function{}
 				}
 
-- 
2.43.0


From 296641c2ee080b1052cfd0ffddb230b6d84e6c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:06 +0000
Subject: [PATCH 19/41] fix: SPLIT ignored the coefficient of its argument

---
 circuitcompiler/Programm.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/circuitcompiler/Programm.go b/circuitcompiler/Programm.go
index 05feb2d..5798321 100644
--- a/circuitcompiler/Programm.go
+++ b/circuitcompiler/Programm.go
@@ -365,9 +365,14 @@ func (currentCircuit *function) compile(currentConstraint *Constraint, gateColle
 			//prepare input number Z
 			arg := currentConstraint.Inputs[0].clone()
 			in, _, _ := currentCircuit.compile(arg, gateCollector)
-			if len(in) != 1 {
+			if len(in) != 1 || in.isSingleNumber() {
 				panic("arguments in split must be pure")
 			}
+			if in[0].multiplicative.Cmp(bigOne) != 0 {
+				//the multiple becomes a variable of its own, which we can split then
+				gateCollector.completeFunction(in)
+				in = factors{factor{typ: Token{Type: ARGUMENT, Identifier: in.factorSignature()}, multiplicative: bigOne}}
+			}
 
 			//hmm what is this actually good for
 			//sig := hashFactorsToBig(in).String()[:16]
-- 
2.43.0


From 3bea0b660585b6fa219156cb15a6c9aa42c4b61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:06 +0000
Subject: [PATCH 20/41] fix: the bits of a split variable could not be accessed

---
 circuitcompiler/Programm.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/circuitcompiler/Programm.go b/circuitcompiler/Programm.go
index 5798321..ff5cd0e 100644
--- a/circuitcompiler/Programm.go
+++ b/circuitcompiler/Programm.go
@@ -402,8 +402,11 @@ func (currentCircuit *function) compile(currentConstraint *Constraint, gateColle
 					typ:            nTok,
 					multiplicative: new(big.Int).Lsh(bigOne, uint(i)),
 				}
-				// we need to add the bits during precompilations so we can access them like from an array
-				//	currentCircuit.constraintMap
+				// now the bits can be accessed like the elements of an array
+				if arg.Output.Type == IDENTIFIER_VARIABLE {
+					bitName := fmt.Sprintf("%v[%v]", arg.Output.Identifier, i)
+					currentCircuit.constraintMap[bitName] = &Constraint{Output: nTok}
+				}
 			}
 			//add the sum constraint \sum Z_i 2^i = Z to ensure that the Zi are the bit representation of Z
 
-- 
2.43.0


From b0e066dca31cac40d6ff1727b0cdb3ebb487fa66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:06 +0000
Subject: [PATCH 21/41] fix: a public input declared twice shared its position
 with another variable

---
 circuitcompiler/parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/circuitcompiler/parser.go b/circuitcompiler/parser.go
index 7db299e..a7fb437 100644
--- a/circuitcompiler/parser.go
+++ b/circuitcompiler/parser.go
@@ -82,6 +82,11 @@ out:
 			//fmt.Println(constraint)
 			if constraint.Output.Type == PUBLIC {
 				a := p.GetMainCircuit().resolveArrayName(constraint)
+				for _, declared := range p.PublicInputs {
+					if declared == a {
+						panic(fmt.Sprintf("public input %v is declared twice", a))
+					}
+				}
 				p.PublicInputs = append(p.PublicInputs, a)
 			}
 			if checkSemantics {
-- 
2.43.0


From e397045184525e4f83864fcb65a4e9dce9994aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:06 +0000
Subject: [PATCH 22/41] fix: the sparse constraint columns were interpolated
 over the wires instead of the gates

---
 circuitcompiler/ER1CS.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/circuitcompiler/ER1CS.go b/circuitcompiler/ER1CS.go
index 6f8bc28..8e38680 100644
--- a/circuitcompiler/ER1CS.go
+++ b/circuitcompiler/ER1CS.go
@@ -127,13 +127,13 @@ func (er1cs *ER1CSsPARSETransposed) ER1CSToEAPSparse() (lPoly, rPoly, ePoly, oPo
 	eT := er1cs.E
 	oT := er1cs.O
 	for i := 0; i < len(lT); i++ {
-		lPoly = append(lPoly, utils.Field.ArithmeticField.InterpolateSparseArray(lT[i], er1cs.WitnessLength))
+		lPoly = append(lPoly, utils.Field.ArithmeticField.InterpolateSparseArray(lT[i], er1cs.NumberOfGates))
 
-		rPoly = append(rPoly, utils.Field.ArithmeticField.InterpolateSparseArray(rT[i], er1cs.WitnessLength))
+		rPoly = append(rPoly, utils.Field.ArithmeticField.InterpolateSparseArray(rT[i], er1cs.NumberOfGates))
 
-		ePoly = append(ePoly, utils.Field.ArithmeticField.InterpolateSparseArray(eT[i], er1cs.WitnessLength))
+		ePoly = append(ePoly, utils.Field.ArithmeticField.InterpolateSparseArray(eT[i], er1cs.NumberOfGates))
 
-		oPoly = append(oPoly, utils.Field.ArithmeticField.InterpolateSparseArray(oT[i], er1cs.WitnessLength))
+		oPoly = append(oPoly, utils.Field.ArithmeticField.InterpolateSparseArray(oT[i], er1cs.NumberOfGates))
 	}
 	return
 }
-- 
2.43.0


From 5f9fac11bd915c4736ce41f1d9aa72f488c3d576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:06 +0000
Subject: [PATCH 23/41] fix: rewinding over an invalid byte went back too far

---
 circuitcompiler/lexer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/circuitcompiler/lexer.go b/circuitcompiler/lexer.go
index 72bff75..0aa3834 100644
--- a/circuitcompiler/lexer.go
+++ b/circuitcompiler/lexer.go
@@ -276,7 +276,8 @@ func (l *Lexer) PeekTwo() string {
 func (l *Lexer) Rewind() {
 	r := l.rewind.pop()
 	if r > EOFRune {
-		size := utf8.RuneLen(r)
+		//an invalid byte was read as utf8.RuneError but is one byte long
+		_, size := utf8.DecodeLastRuneInString(l.source[:l.position])
 		l.position -= size
 		if l.position < l.start {
 			l.position = l.start
-- 
2.43.0


From 4f9093bafbc307ad2a714b2875f3fc203161c08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:06 +0000
Subject: [PATCH 24/41] fix: the lexer did not terminate on an unterminated
 string

---
 circuitcompiler/lexer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/circuitcompiler/lexer.go b/circuitcompiler/lexer.go
index 0aa3834..6927af5 100644
--- a/circuitcompiler/lexer.go
+++ b/circuitcompiler/lexer.go
@@ -409,7 +409,10 @@ func IdentState(l *Lexer) StateFunc {
 		l.Next()
 		l.Ignore()
 		for l.Peek() != '"' { // we read everything inside " ", used for import
-			l.Next()
+			if l.Next() == EOFRune {
+				l.Error("closing \" missing")
+				return nil
+			}
 		}
 		l.Emit(IDENTIFIER_VARIABLE)
 		l.Next()
-- 
2.43.0


From 82408a8ec9c88bd87be4b5bb0e6a975a8200fcee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:06 +0000
Subject: [PATCH 25/41] fix: the lexer emitted empty tokens, without end on a
 character it does not know

---
 circuitcompiler/lexer.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/circuitcompiler/lexer.go b/circuitcompiler/lexer.go
index 6927af5..73c3b32 100644
--- a/circuitcompiler/lexer.go
+++ b/circuitcompiler/lexer.go
@@ -440,9 +440,18 @@ func IdentState(l *Lexer) StateFunc {
 		return WhitespaceState
 	}
 
+	if peek == EOFRune {
+		return nil
+	}
+
 	//read the next word and push it on stack
 	readIdent(l)
 
+	if l.Current() == "" {
+		l.Error(fmt.Sprintf("unexpected character %q", peek))
+		return nil
+	}
+
 	if val, ex := keyWordMap[l.Current()]; ex {
 		l.Emit(val)
 		return ProbablyWhitespaceState
-- 
2.43.0


From a9cb4a5ddea7163cd227b72a6bb94a0984740a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:06 +0000
Subject: [PATCH 26/41] fix: array access accepted a closing bracket without an
 opening one

---
 circuitcompiler/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/circuitcompiler/parser.go b/circuitcompiler/parser.go
index a7fb437..54e9594 100644
--- a/circuitcompiler/parser.go
+++ b/circuitcompiler/parser.go
@@ -535,6 +535,10 @@ func (p *Parser) parseExpression(stack []Token, constraint *Constraint) {
 		l, r, _ := splitAtClosingSquareBrackets(stack[2:])
 		p.parseExpression(l, cr)
 		for len(r) != 0 {
+			if r[0].Identifier != "[" {
+				p.error("opening square brackets missing, got %v", r[0])
+				return
+			}
 			l, r, _ = splitAtClosingSquareBrackets(r)
 			p.parseExpression(l, cr)
 		}
-- 
2.43.0


From 41b456c71566eff07bc795539ba2283e4bdc8f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:37 +0000
Subject: [PATCH 27/41] fix: reject public parameters that are no input of main

---
 circuitcompiler/parser.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/circuitcompiler/parser.go b/circuitcompiler/parser.go
index 54e9594..fb4248d 100644
--- a/circuitcompiler/parser.go
+++ b/circuitcompiler/parser.go
@@ -99,6 +99,18 @@ out:
 
 	//p = newProgram(big.NewInt(1993), big.NewInt(1993))
 	p.globalFunction.preCompile(constraintStack)
+	//only inputs of main can be public. anything else would be a wire, which no gate and no input ever sets
+	if main := p.GetMainCircuit(); main != nil {
+		for _, public := range p.PublicInputs[1:] {
+			isInput := false
+			for _, in := range main.Inputs {
+				isInput = isInput || in == public
+			}
+			if !isInput {
+				panic(fmt.Sprintf("public input %v is not an input of main", public))
+			}
+		}
+	}
 	return p
 }
 
-- 
2.43.0


From 84b5adaff3d287438d2ef844960a82f34c271475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 28/41] fix: name the constant of a return without a value

---
 circuitcompiler/Programm.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/circuitcompiler/Programm.go b/circuitcompiler/Programm.go
index ff5cd0e..73b4a23 100644
--- a/circuitcompiler/Programm.go
+++ b/circuitcompiler/Programm.go
@@ -286,7 +286,8 @@ func (currentCircuit *function) compile(currentConstraint *Constraint, gateColle
 		switch len(currentConstraint.Inputs) {
 		case 0:
 			fac := factor{typ: Token{
-				Type: NumberToken,
+				Type:       NumberToken,
+				Identifier: "1",
 			}, multiplicative: big.NewInt(1)}
 			return factors{fac}, true, function{}
 		case 1:
-- 
2.43.0


From b6ed409d4266d1407845fbe5b51c13c14c2cecef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:34 +0000
Subject: [PATCH 29/41] fix: an expression with a closing bracket too many was
 accepted

---
 circuitcompiler/parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/circuitcompiler/parser.go b/circuitcompiler/parser.go
index fb4248d..a3de979 100644
--- a/circuitcompiler/parser.go
+++ b/circuitcompiler/parser.go
@@ -786,7 +786,8 @@ func stripOfBrackets(in []Token) []Token {
 }
 
 func isSurroundedByBrackets(in []Token) bool {
-	if len(in) == 0 {
+	//splitAtClosingBrackets assumes the opening bracket was already cut off, if there is none
+	if len(in) == 0 || in[0].Identifier != "(" {
 		return false
 	}
 	_, r, b := splitAtClosingBrackets(in)
-- 
2.43.0


From aa8a5471f7453d62331c71203d872d5e81e82fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:34 +0000
Subject: [PATCH 30/41] fix: an array access was accepted on numbers and calls

---
 circuitcompiler/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/circuitcompiler/parser.go b/circuitcompiler/parser.go
index a3de979..fb0cc0d 100644
--- a/circuitcompiler/parser.go
+++ b/circuitcompiler/parser.go
@@ -537,7 +537,7 @@ func (p *Parser) parseExpression(stack []Token, constraint *Constraint) {
 		return
 	}
 
-	if stack[1].Identifier == "[" && stack[len(stack)-1].Identifier == "]" {
+	if stack[0].Type == IDENTIFIER_VARIABLE && stack[1].Identifier == "[" && stack[len(stack)-1].Identifier == "]" {
 		rtok := Token{
 			Type:       ARRAY_CALL,
 			Identifier: stack[0].Identifier,
-- 
2.43.0


From 36a88f4dad32ac551b288970b53088fd53b8aee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:34 +0000
Subject: [PATCH 31/41] fix: a doubled opening bracket was accepted

---
 circuitcompiler/parser.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/circuitcompiler/parser.go b/circuitcompiler/parser.go
index fb0cc0d..1064a3e 100644
--- a/circuitcompiler/parser.go
+++ b/circuitcompiler/parser.go
@@ -136,7 +136,7 @@ func (p *Parser) statementMode(tokens []Token) {
 		//NOTE THAT WE GOT ERROR WHEN USING &Constraint{} instead of Constraint{}, dont understand why
 		buffer := Constraint{}
 
-		rest := p.argumentParse(toks.toks, splitAtClosingSwingBrackets, &buffer)
+		rest := p.argumentParse(tokens[1:], splitAtClosingSwingBrackets, &buffer)
 		for _, publicInput := range buffer.Inputs {
 			publicInput.Output.Type = PUBLIC
 			p.constraintChan <- publicInput
@@ -169,7 +169,7 @@ func (p *Parser) statementMode(tokens []Token) {
 			p.error("Function expected, got %v ", tok)
 		}
 
-		rest := p.argumentParse(toks.toks, splitAtClosingBrackets, FuncConstraint)
+		rest := p.argumentParse(tokens[2:], splitAtClosingBrackets, FuncConstraint)
 		var FuncConstraintInputs []*Constraint
 		for _, v := range FuncConstraint.Inputs {
 
@@ -210,7 +210,7 @@ func (p *Parser) statementMode(tokens []Token) {
 			p.error("invalid function declaration, got %v : %v", tok.Identifier, tok.Type)
 		}
 		p.constraintChan <- FuncConstraint
-		l, r, b := splitAtClosingSwingBrackets(toks.toks)
+		l, r, b := splitAtClosingSwingBrackets(rest)
 		if !b {
 			panic("closing brackets missing")
 		}
@@ -324,7 +324,7 @@ func (p *Parser) statementMode(tokens []Token) {
 		if r[0].Identifier != "{" {
 			p.error("brackets '{' missing, got %v", r[0])
 		}
-		l, r, success = splitAtClosingSwingBrackets(r[1:])
+		l, r, success = splitAtClosingSwingBrackets(r)
 		if !success {
 			p.error("closing brackets missing")
 		}
@@ -544,7 +544,7 @@ func (p *Parser) parseExpression(stack []Token, constraint *Constraint) {
 		}
 		cr := &Constraint{Output: rtok}
 		constraint.Inputs = append(constraint.Inputs, cr)
-		l, r, _ := splitAtClosingSquareBrackets(stack[2:])
+		l, r, _ := splitAtClosingSquareBrackets(stack[1:])
 		p.parseExpression(l, cr)
 		for len(r) != 0 {
 			if r[0].Identifier != "[" {
-- 
2.43.0


From c2ab5cc18054b33fc5621f04af083266688e3088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:34 +0000
Subject: [PATCH 32/41] fix: a malformed declaration silently ended the
 function

---
 circuitcompiler/parser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/circuitcompiler/parser.go b/circuitcompiler/parser.go
index 1064a3e..29b2ae9 100644
--- a/circuitcompiler/parser.go
+++ b/circuitcompiler/parser.go
@@ -402,6 +402,7 @@ func (p *Parser) statementMode(tokens []Token) {
 			return
 		}
 		//var a = func(){}
+		p.error("invalid variable declaration, got %v", combineString(l))
 	case RETURN:
 		//return (1+a)
 		l, r := splitTokensAtFirstString(tokens, "\n")
-- 
2.43.0


From f95816b03cc17bb6700dff96d6fb2b29ee5d2ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:34 +0000
Subject: [PATCH 33/41] fix: scalarMultiplyFactors did nothing

---
 circuitcompiler/factorHandling.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/circuitcompiler/factorHandling.go b/circuitcompiler/factorHandling.go
index 5bed4a2..4766dee 100644
--- a/circuitcompiler/factorHandling.go
+++ b/circuitcompiler/factorHandling.go
@@ -109,8 +109,8 @@ func factorSignature(facs factors) (gcd *big.Int, extractedRightFactors factors)
 }
 
 func (fact factors) scalarMultiplyFactors(x *big.Int) (result factors) {
-	for _, left := range fact {
-		left.multiplicative = field.Mul(left.multiplicative, x)
+	for i := range fact {
+		fact[i].multiplicative = field.Mul(fact[i].multiplicative, x)
 	}
 	return fact
 }
-- 
2.43.0


From f97a418f262830b13dbadf7ef3ba1333e7b71500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:34 +0000
Subject: [PATCH 34/41] fix: multiplication with a negative scalar was wrong

---
 pairing/bn256.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/pairing/bn256.go b/pairing/bn256.go
index 5e745d4..3e74531 100644
--- a/pairing/bn256.go
+++ b/pairing/bn256.go
@@ -30,6 +30,16 @@ import (
 // BUG(agl): this implementation is not constant time.
 // TODO(agl): keep GF(p²) elements in Mongomery form.
 
+// nonNegative returns a scalar with the same effect on the elements of the
+// groups, that is not negative. Multiplication and exponentiation walk over the
+// bits of the absolute value only.
+func nonNegative(k *big.Int) *big.Int {
+	if k.Sign() < 0 {
+		return new(big.Int).Mod(k, Order)
+	}
+	return k
+}
+
 // G1 is an abstract cyclic group. The zero value is suitable for use as the
 // output of an operation, but cannot be used as an input.
 type G1 struct {
@@ -70,7 +80,7 @@ func (e *G1) ScalarBaseMult(k *big.Int) *G1 {
 		e.p = newCurvePoint(nil)
 	}
 	//k.Mod(k,Order)
-	e.p.Mul(curveGen, k, new(bnPool))
+	e.p.Mul(curveGen, nonNegative(k), new(bnPool))
 	return e
 }
 
@@ -80,7 +90,7 @@ func (e *G1) ScalarMult(a *G1, k *big.Int) *G1 {
 		e.p = newCurvePoint(nil)
 	}
 	//k.Mod(k,Order)
-	e.p.Mul(a.p, k, new(bnPool))
+	e.p.Mul(a.p, nonNegative(k), new(bnPool))
 	return e
 }
 
@@ -211,7 +221,7 @@ func (e *G2) ScalarBaseMult(k *big.Int) *G2 {
 	if e.p == nil {
 		e.p = newTwistPoint(nil)
 	}
-	e.p.Mul(twistGen, k, new(bnPool))
+	e.p.Mul(twistGen, nonNegative(k), new(bnPool))
 	return e
 }
 
@@ -220,7 +230,7 @@ func (e *G2) ScalarMult(a *G2, k *big.Int) *G2 {
 	if e.p == nil {
 		e.p = newTwistPoint(nil)
 	}
-	e.p.Mul(a.p, k, new(bnPool))
+	e.p.Mul(a.p, nonNegative(k), new(bnPool))
 	return e
 }
 
@@ -322,7 +332,7 @@ func (e *GT) ScalarMult(a *GT, k *big.Int) *GT {
 	if e.p == nil {
 		e.p = newGFp12(nil)
 	}
-	e.p.Exp(a.p, k, new(bnPool))
+	e.p.Exp(a.p, nonNegative(k), new(bnPool))
 	return e
 }
 
-- 
2.43.0


From cfcf8a8fc5a6ef7c8cbdf6f324a5ed98da45b967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:34 +0000
Subject: [PATCH 35/41] fix: gfP12.MulScalar ignored its operand, Conjugate
 returned it

---
 pairing/gfp12.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pairing/gfp12.go b/pairing/gfp12.go
index f084edd..83b2b95 100644
--- a/pairing/gfp12.go
+++ b/pairing/gfp12.go
@@ -67,7 +67,7 @@ func (e *gfP12) IsOne() bool {
 func (e *gfP12) Conjugate(a *gfP12) *gfP12 {
 	e.x.Negative(a.x)
 	e.y.Set(a.y)
-	return a
+	return e
 }
 
 func (e *gfP12) Negative(a *gfP12) *gfP12 {
@@ -125,8 +125,8 @@ func (e *gfP12) Mul(a, b *gfP12, pool *bnPool) *gfP12 {
 }
 
 func (e *gfP12) MulScalar(a *gfP12, b *gfP6, pool *bnPool) *gfP12 {
-	e.x.Mul(e.x, b, pool)
-	e.y.Mul(e.y, b, pool)
+	e.x.Mul(a.x, b, pool)
+	e.y.Mul(a.y, b, pool)
 	return e
 }
 
-- 
2.43.0


From ac43ef6ae8e9bff61ab4e11de13d1cdb5b6f512e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:35 +0000
Subject: [PATCH 36/41] fix: executing a program leaves the program unchanged

---
 circuitcompiler/Programm.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/circuitcompiler/Programm.go b/circuitcompiler/Programm.go
index 73b4a23..6c571db 100644
--- a/circuitcompiler/Programm.go
+++ b/circuitcompiler/Programm.go
@@ -183,7 +183,8 @@ func (currentCircuit *function) resolveArrayName(c *Constraint) string {
 func (p *Program) Execute() (orderedmGates []*Gate) {
 
 	container := newGateContainer()
-	mainCircuit := p.GetMainCircuit()
+	//running assigns to variables and functions. we run a copy, so that the program itself stays as it was written
+	mainCircuit := p.globalFunction.flatCopy().functions["main"]
 
 	for i := 0; i < mainCircuit.taskStack.len(); i++ {
 		f, returns, _ := mainCircuit.compile(mainCircuit.taskStack.data[i], container)
-- 
2.43.0


From a05a052b6010db88065a67d8dd39472016c1d366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:00 +0000
Subject: [PATCH 37/41] fix: only one trailing line break was removed from a
 statement

---
 circuitcompiler/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/circuitcompiler/parser.go b/circuitcompiler/parser.go
index 29b2ae9..6df8711 100644
--- a/circuitcompiler/parser.go
+++ b/circuitcompiler/parser.go
@@ -595,7 +595,7 @@ func removeTrailingBreaks(in []Token) (out []Token) {
 		return
 	}
 	if in[len(in)-1].Identifier == "\n" {
-		return removeLeadingBreaks(in[:len(in)-1])
+		return removeTrailingBreaks(in[:len(in)-1])
 	}
 	return in
 }
-- 
2.43.0


From 2589f9fa2e32da0b6a9eb651a0b1232fedf154d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:00 +0000
Subject: [PATCH 38/41] fix: x += 1, x == 1 and the like were compiled as the
 assignment x = 1

---
 circuitcompiler/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/circuitcompiler/parser.go b/circuitcompiler/parser.go
index 6df8711..fc1b641 100644
--- a/circuitcompiler/parser.go
+++ b/circuitcompiler/parser.go
@@ -633,7 +633,7 @@ func isArrayAssignment(stx []Token) (yn bool, err string) {
 	if stx[1].Identifier != "[" || stx[2].Identifier != "]" {
 		return false, "brackets  expected"
 	}
-	if stx[3].Type != AssignmentOperatorToken {
+	if stx[3].Identifier != "=" {
 		return false, "assignment  expected"
 	}
 	if stx[4].Identifier != "{" {
@@ -650,7 +650,7 @@ func isVariableAssignment(stx []Token) (yn bool, rem []Token, err string) {
 	if stx[0].Type != IDENTIFIER_VARIABLE {
 		return false, nil, "identifier expected"
 	}
-	if stx[1].Type != AssignmentOperatorToken {
+	if stx[1].Identifier != "=" {
 		return false, nil, "assignment  expected"
 	}
 	return true, stx[2:], ""
-- 
2.43.0


From 49544fa9e62693b6b7b7f9c5524d76aa37ebf495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:35 +0000
Subject: [PATCH 39/41] fix: SPLIT of a negative or unreduced input had no
 witness or the digits of another number

---
 circuitcompiler/ER1CS.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/circuitcompiler/ER1CS.go b/circuitcompiler/ER1CS.go
index 8e38680..6b31ed1 100644
--- a/circuitcompiler/ER1CS.go
+++ b/circuitcompiler/ER1CS.go
@@ -162,7 +162,7 @@ func CalculateWitness(r1cs *ER1CS, input []InputArgument) (witness []*big.Int, e
 	}
 
 	for _, v := range input {
-		setWitness(r1cs.indexMap[v.identifier], v.value)
+		setWitness(r1cs.indexMap[v.identifier], utils.Field.ArithmeticField.Affine(v.value))
 		set[r1cs.indexMap[v.identifier]] = true
 	}
 
@@ -314,7 +314,7 @@ func CalculateSparseWitness(r1cs *ER1CSSparse, input []InputArgument) (witness [
 	}
 
 	for _, v := range input {
-		witness[r1cs.indexMap[v.identifier]] = v.value
+		witness[r1cs.indexMap[v.identifier]] = utils.Field.ArithmeticField.Affine(v.value)
 		set[r1cs.indexMap[v.identifier]] = true
 	}
 
-- 
2.43.0


From 9668c20062465702b71c4edd8e61806617bbe023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:03 +0000
Subject: [PATCH 40/41] fix: removing an absent key no longer loses other
 entries

---
 utils/avl.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/utils/avl.go b/utils/avl.go
index bcf8bc9..f228b6a 100644
--- a/utils/avl.go
+++ b/utils/avl.go
@@ -468,9 +468,6 @@ func (self *AvlNode) Remove(key uint) (_ *AvlNode, value *big.Int, err error) {
 	} else {
 		self.right, value, err = self.right.Remove(key)
 	}
-	if err != nil {
-		return self.balance(), value, err
-	}
 	return self, value, err
 }
 
-- 
2.43.0


From c586baee9a4f96aaae8ce80e1e433c00c4f5543e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:03 +0000
Subject: [PATCH 41/41] fix: a quoted line break is not taken for the end of a
 line

---
 circuitcompiler/lexer.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/circuitcompiler/lexer.go b/circuitcompiler/lexer.go
index 73c3b32..9a2b482 100644
--- a/circuitcompiler/lexer.go
+++ b/circuitcompiler/lexer.go
@@ -325,9 +325,11 @@ func (l *Lexer) Take(chars string) {
 func (l *Lexer) NextToken() (*Token, bool) {
 	if tok, ok := <-l.tokens; ok {
 		//this way we only return the first \n we encounter, if multiple \n\n\n.. follow, we skip the consecutive ones
-		if tok.Identifier == "\n" && !l.alreadyNewline {
+		//a quoted line break is a name, not the end of a line
+		newline := tok.Type == SyntaxToken && tok.Identifier == "\n"
+		if newline && !l.alreadyNewline {
 			l.alreadyNewline = true
-		} else if tok.Identifier == "\n" && l.alreadyNewline {
+		} else if newline && l.alreadyNewline {
 			return l.NextToken()
 		} else {
 			l.alreadyNewline = false
-- 
2.43.0

