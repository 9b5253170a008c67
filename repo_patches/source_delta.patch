From 4904101891578910a4b2f2c3e899e9311a58a3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:21 +0000
Subject: [PATCH 01/30] fix: Monomial.DerivativeWrt must not modify the
 monomial it differentiates

The default branch assigned the receiver to the result and then decremented
an entry of the shared Exponents slice, so differentiating x^3 changed the
caller's x^3 (and every expression that shares it) into x^2.
---
 symbolic/monomial.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolic/monomial.go b/symbolic/monomial.go
index 52acee9..144a90c 100644
--- a/symbolic/monomial.go
+++ b/symbolic/monomial.go
@@ -517,7 +517,7 @@ func (m Monomial) DerivativeWrt(vIn Variable) Expression {
 				}
 			}
 		default:
-			monomialOut = m
+			monomialOut = m.Copy()
 			monomialOut.Coefficient = m.Coefficient * float64(m.Exponents[foundIndex])
 			monomialOut.Exponents[foundIndex] -= 1
 		}
-- 
2.43.0


From fc051f0fe1ffa03b4713ef4ea0e46647308b8cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:44 +0000
Subject: [PATCH 02/30] fix: PolynomialVector.DerivativeWrt must not overwrite
 its receiver

The result slice was the receiver's own slice, so differentiating a vector
replaced the caller's elements, and a constant derivative made it panic
half way through, leaving the caller's vector partly differentiated.
---
 symbolic/polynomial_vector.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/symbolic/polynomial_vector.go b/symbolic/polynomial_vector.go
index 4e4144d..49d9b36 100644
--- a/symbolic/polynomial_vector.go
+++ b/symbolic/polynomial_vector.go
@@ -381,15 +381,25 @@ func (pv PolynomialVector) Eq(e interface{}) Constraint {
 
 // DerivativeWrt Returns the derivative of the polynomial vector with respect to the input variable.
 func (pv PolynomialVector) DerivativeWrt(vIn Variable) Expression {
-	// Constants
-	var derivative PolynomialVector = pv
+	// Input Processing
+	err := pv.Check()
+	if err != nil {
+		panic(err)
+	}
+
+	err = vIn.Check()
+	if err != nil {
+		panic(err)
+	}
 
 	// Algorithm
-	for ii, polynomial := range pv {
-		derivative[ii] = polynomial.DerivativeWrt(vIn).(Polynomial)
+	var derivative []ScalarExpression
+	for _, polynomial := range pv {
+		// The derivative of a polynomial may be a constant
+		derivative = append(derivative, polynomial.DerivativeWrt(vIn).(ScalarExpression))
 	}
 
-	return derivative
+	return ConcretizeVectorExpression(derivative)
 }
 
 // IsConstantVector This method returns true if the polynomial vector is constant.
-- 
2.43.0


From b03a356d5dd8af331dec2ede3bf32a08fdc2364d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:44 +0000
Subject: [PATCH 03/30] fix: PolynomialMatrix.DerivativeWrt must accept
 elements with constant derivative

Polynomial.DerivativeWrt returns a constant when the polynomial does not
depend on the variable; the unconditional type assertion panicked.
---
 symbolic/polynomial_matrix.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/symbolic/polynomial_matrix.go b/symbolic/polynomial_matrix.go
index eb53016..767963f 100644
--- a/symbolic/polynomial_matrix.go
+++ b/symbolic/polynomial_matrix.go
@@ -431,17 +431,18 @@ func (pm PolynomialMatrix) DerivativeWrt(vIn Variable) Expression {
 	}
 
 	// Create containers
-	var dpm PolynomialMatrix
+	var dpm [][]ScalarExpression
 
 	for _, row := range pm {
-		var dpmRow []Polynomial
+		var dpmRow []ScalarExpression
 		for _, polynomial := range row {
-			dpmRow = append(dpmRow, polynomial.DerivativeWrt(vIn).(Polynomial))
+			// The derivative of a polynomial may be a constant
+			dpmRow = append(dpmRow, polynomial.DerivativeWrt(vIn).(ScalarExpression))
 		}
 		dpm = append(dpm, dpmRow)
 	}
 
-	return dpm
+	return ConcretizeMatrixExpression(dpm)
 }
 
 // At Returns the (ii, jj)-th element of the polynomial matrix.
-- 
2.43.0


From a042ca478136f94fe326b375ef034f8afda33bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:44 +0000
Subject: [PATCH 04/30] fix: Monomial.Multiply must not append into its
 receiver's slice

append(m.VariableFactors, ...) writes into spare capacity which may be
shared with other monomials, so two products of the same monomial that run
at the same time corrupted each other's variable lists.
---
 symbolic/monomial.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/symbolic/monomial.go b/symbolic/monomial.go
index 144a90c..e75e418 100644
--- a/symbolic/monomial.go
+++ b/symbolic/monomial.go
@@ -198,8 +198,8 @@ func (m Monomial) Multiply(e interface{}) Expression {
 	case Monomial:
 
 		// Collect all variables in both monomials
-		variables := append(m.VariableFactors, right.VariableFactors...)
-		variables = UniqueVars(variables)
+		// (UnionOfVariables never writes into the operands' own slices)
+		variables := UnionOfVariables(m.VariableFactors, right.VariableFactors)
 
 		multiDegree := make([]int, len(variables))
 
-- 
2.43.0


From ac649d5c261c37433815a314ef7df229f2a8aa13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:44 +0000
Subject: [PATCH 05/30] fix: Polynomial.Copy must be the deep copy it is
 documented to be

Only the slice of monomials was copied; exponents and variable factors
were shared with the original.
---
 symbolic/polynomial.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/symbolic/polynomial.go b/symbolic/polynomial.go
index 56552a2..8cc25c6 100644
--- a/symbolic/polynomial.go
+++ b/symbolic/polynomial.go
@@ -59,7 +59,9 @@ func (p Polynomial) Copy() Polynomial {
 	out := Polynomial{
 		Monomials: make([]Monomial, len(p.Monomials)),
 	}
-	copy(out.Monomials, p.Monomials)
+	for ii, monomial := range p.Monomials {
+		out.Monomials[ii] = monomial.Copy()
+	}
 	return out
 }
 
-- 
2.43.0


From 3918ee1a58d3e0b77a1b451f5c945a0da4ead311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:44 +0000
Subject: [PATCH 06/30] fix: Monomial.MatchesFormOf must compare exponents of
 the same variable

The exponent of the ii-th factor was compared with the ii-th exponent of the
other monomial even when the factors are listed in another order, so x y^2
was merged with y x^2 and was not merged with y^2 x.
---
 symbolic/monomial.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolic/monomial.go b/symbolic/monomial.go
index e75e418..22c6b4f 100644
--- a/symbolic/monomial.go
+++ b/symbolic/monomial.go
@@ -465,7 +465,7 @@ func (m Monomial) MatchesFormOf(mIn Monomial) bool {
 			return false
 		} else {
 			// If v was in mIn, but not of the right degree, then these two are not the same
-			if m.Exponents[ii] != mIn.Exponents[ii] {
+			if m.Exponents[ii] != mIn.Exponents[foundIndex] {
 				return false
 			}
 		}
-- 
2.43.0


From eeb85372ffb543d2fdc161f9fb85a35256feff49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:33 +0000
Subject: [PATCH 07/30] fix: SubstituteAccordingTo on vectors and matrices must
 substitute simultaneously

The vector and matrix versions applied the map's entries one after the
other in map-iteration order, so with {x: y, y: x} the result depended on
Go's random iteration order. The scalar versions already substitute all
entries at once; the vector and matrix versions now do so per element.
---
 symbolic/matrix_expression.go | 16 ++++++++++++++++
 symbolic/monomial_matrix.go   |  7 +------
 symbolic/monomial_vector.go   |  9 ++-------
 symbolic/polynomial_matrix.go |  8 +-------
 symbolic/polynomial_vector.go |  8 +-------
 symbolic/variable_matrix.go   |  8 +-------
 symbolic/variable_vector.go   |  9 +--------
 symbolic/vector_expression.go | 13 +++++++++++++
 8 files changed, 36 insertions(+), 42 deletions(-)

diff --git a/symbolic/matrix_expression.go b/symbolic/matrix_expression.go
index bc47294..bed3b6e 100644
--- a/symbolic/matrix_expression.go
+++ b/symbolic/matrix_expression.go
@@ -300,6 +300,22 @@ func MatrixSubstituteTemplate(me MatrixExpression, vIn Variable, seIn ScalarExpr
 	return ConcretizeMatrixExpression(out)
 }
 
+// matrixSubstituteAccordingToTemplate replaces all of the variables in the map at once
+// (i.e., the expressions that were put in are not substituted into again) in each element of me.
+// The matrix and the map should have been checked by the caller.
+func matrixSubstituteAccordingToTemplate(me MatrixExpression, subMap map[Variable]Expression) MatrixExpression {
+	var out [][]ScalarExpression
+	for ii := 0; ii < me.Dims()[0]; ii++ {
+		var tempRow []ScalarExpression
+		for jj := 0; jj < me.Dims()[1]; jj++ {
+			newElt := me.At(ii, jj).SubstituteAccordingTo(subMap)
+			tempRow = append(tempRow, newElt.(ScalarExpression))
+		}
+		out = append(out, tempRow)
+	}
+	return ConcretizeMatrixExpression(out)
+}
+
 // ConcretizeMatrixExpression Converts the input expression to a valid type that implements "MatrixExpression".
 func ConcretizeMatrixExpression(sliceIn [][]ScalarExpression) MatrixExpression {
 	// Input Processing
diff --git a/symbolic/monomial_matrix.go b/symbolic/monomial_matrix.go
index d4f263f..1581d39 100644
--- a/symbolic/monomial_matrix.go
+++ b/symbolic/monomial_matrix.go
@@ -583,12 +583,7 @@ func (mm MonomialMatrix) SubstituteAccordingTo(substitutions map[Variable]Expres
 	}
 
 	// Algorithm
-	var out MatrixExpression = mm
-	for v, expr := range substitutions {
-		postSub := out.Substitute(v, expr.(ScalarExpression))
-		out = postSub.(MatrixExpression)
-	}
-	return out
+	return matrixSubstituteAccordingToTemplate(mm, substitutions)
 }
 
 // Power Returns the monomial matrix raised to the power of the input integer.
diff --git a/symbolic/monomial_vector.go b/symbolic/monomial_vector.go
index f8c8745..a07ade7 100644
--- a/symbolic/monomial_vector.go
+++ b/symbolic/monomial_vector.go
@@ -511,13 +511,8 @@ func (mv MonomialVector) SubstituteAccordingTo(subMap map[Variable]Expression) E
 		panic(err)
 	}
 
-	// Setup
-	var out VectorExpression = mv
-	for varKey, expr := range subMap {
-		postSub := out.Substitute(varKey, expr.(ScalarExpression))
-		out = postSub.(VectorExpression)
-	}
-	return out
+	// Algorithm
+	return vectorSubstituteAccordingToTemplate(mv, subMap)
 }
 
 // Power raises the monomial vector to the input power.
diff --git a/symbolic/polynomial_matrix.go b/symbolic/polynomial_matrix.go
index 767963f..1b2d248 100644
--- a/symbolic/polynomial_matrix.go
+++ b/symbolic/polynomial_matrix.go
@@ -590,13 +590,7 @@ func (pm PolynomialMatrix) SubstituteAccordingTo(subMap map[Variable]Expression)
 	}
 
 	// Algorithm
-	var out MatrixExpression = pm
-	for v, e := range subMap {
-		outSubbed := out.Substitute(v, e.(ScalarExpression))
-		out = outSubbed.(MatrixExpression)
-	}
-
-	return out
+	return matrixSubstituteAccordingToTemplate(pm, subMap)
 }
 
 // Power Raises the polynomial matrix to the power of the input integer.
diff --git a/symbolic/polynomial_vector.go b/symbolic/polynomial_vector.go
index 49d9b36..22e1d28 100644
--- a/symbolic/polynomial_vector.go
+++ b/symbolic/polynomial_vector.go
@@ -511,13 +511,7 @@ func (pv PolynomialVector) SubstituteAccordingTo(subMap map[Variable]Expression)
 	}
 
 	// Algorithm
-	var result VectorExpression = pv
-	for tempVar, tempExpr := range subMap {
-		resultSubbed := result.Substitute(tempVar, tempExpr.(ScalarExpression))
-		result = resultSubbed.(VectorExpression)
-	}
-
-	return result
+	return vectorSubstituteAccordingToTemplate(pv, subMap)
 }
 
 // Power Computes the power of the polynomial vector.
diff --git a/symbolic/variable_matrix.go b/symbolic/variable_matrix.go
index f56ae37..00df8e3 100644
--- a/symbolic/variable_matrix.go
+++ b/symbolic/variable_matrix.go
@@ -582,13 +582,7 @@ func (vm VariableMatrix) SubstituteAccordingTo(subMap map[Variable]Expression) E
 	}
 
 	// Algorithm
-	var out MatrixExpression = vm
-	for v, e := range subMap {
-		outSubbed := out.Substitute(v, e.(ScalarExpression))
-		out = outSubbed.(MatrixExpression)
-	}
-
-	return out
+	return matrixSubstituteAccordingToTemplate(vm, subMap)
 }
 
 // Power This function raises the variable matrix to a given power.
diff --git a/symbolic/variable_vector.go b/symbolic/variable_vector.go
index 4d6e546..7946bc6 100644
--- a/symbolic/variable_vector.go
+++ b/symbolic/variable_vector.go
@@ -476,14 +476,7 @@ func (vv VariableVector) SubstituteAccordingTo(subMap map[Variable]Expression) E
 	}
 
 	// Algorithm
-	var out VectorExpression = vv
-	for tempVar, tempExpr := range subMap {
-		outSubbed := out.Substitute(tempVar, tempExpr.(ScalarExpression))
-		out = outSubbed.(VectorExpression)
-	}
-
-	return out
-
+	return vectorSubstituteAccordingToTemplate(vv, subMap)
 }
 
 // Power Raises the variable vector to the power of the input integer
diff --git a/symbolic/vector_expression.go b/symbolic/vector_expression.go
index 8a72998..45fd8b7 100644
--- a/symbolic/vector_expression.go
+++ b/symbolic/vector_expression.go
@@ -327,6 +327,19 @@ func VectorSubstituteTemplate(ve VectorExpression, vIn Variable, se ScalarExpres
 	return ConcretizeVectorExpression(result)
 }
 
+// vectorSubstituteAccordingToTemplate replaces all of the variables in the map at once
+// (i.e., the expressions that were put in are not substituted into again) in each element of ve.
+// The vector and the map should have been checked by the caller.
+func vectorSubstituteAccordingToTemplate(ve VectorExpression, subMap map[Variable]Expression) VectorExpression {
+	var result []ScalarExpression
+	for ii := 0; ii < ve.Len(); ii++ {
+		postSub := ve.AtVec(ii).SubstituteAccordingTo(subMap)
+		result = append(result, postSub.(ScalarExpression))
+	}
+
+	return ConcretizeVectorExpression(result)
+}
+
 // VectorPowerTemplate Defines the template for the vector power operation.
 func VectorPowerTemplate(base VectorExpression, exponent int) Expression {
 	// Setup
-- 
2.43.0


From 682c11d1b35a2d87465816abe6049ff9eb5b2b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:40 +0000
Subject: [PATCH 08/30] fix: VariablesInThisConstraint must list variables in a
 repeatable order

The list was read out of a map, so Constraint.Variables() returned its
variables in a different order on every call, and with them the columns
of everything a caller derives from that list (e.g. LinearCoeff).
---
 symbolic/constraint.go | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/symbolic/constraint.go b/symbolic/constraint.go
index ee39865..d08c8f6 100644
--- a/symbolic/constraint.go
+++ b/symbolic/constraint.go
@@ -62,20 +62,16 @@ func VariablesInThisConstraint(c Constraint) []Variable {
 		panic(err)
 	}
 
-	// Get variables from the left hand side
-	for _, v := range c.Left().Variables() {
-		varsMap[v] = true
-	}
-
-	// Get variables from the right hand side
-	for _, v := range c.Right().Variables() {
-		varsMap[v] = true
-	}
-
-	// Convert the map to a slice
-	vars := make([]Variable, 0, len(varsMap))
-	for v := range varsMap {
-		vars = append(vars, v)
+	// Get variables from the left hand side and then from the right hand side,
+	// in the order in which they first appear
+	vars := []Variable{}
+	for _, side := range []Expression{c.Left(), c.Right()} {
+		for _, v := range side.Variables() {
+			if !varsMap[v] {
+				varsMap[v] = true
+				vars = append(vars, v)
+			}
+		}
 	}
 
 	return vars
-- 
2.43.0


From bb4c29976d203dcee1513a59a693fb48c4931298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:26 +0000
Subject: [PATCH 09/30] fix: BasicEnvironment must be safe to share and must
 not hand out its own list

NewVariable uses the global DefaultEnvironment unless told otherwise, so
any two goroutines that create variables shared an unsynchronised slice.
AllTrackedVariables also returned that slice itself, so a caller that
sorted or edited its list changed the registry.
---
 symbolic/basic_environment.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/symbolic/basic_environment.go b/symbolic/basic_environment.go
index f89a416..c00ef79 100644
--- a/symbolic/basic_environment.go
+++ b/symbolic/basic_environment.go
@@ -1,10 +1,15 @@
 package symbolic
 
+import "sync"
+
 // BasicEnvironment is a simple implementation of the Environment interface
 // that tracks variables in a slice.
+// Its methods may be called from several goroutines at the same time.
 type BasicEnvironment struct {
 	name      string
 	Variables []Variable
+
+	mu sync.Mutex // Guards Variables
 }
 
 // GetName returns the name of the environment.
@@ -15,6 +20,9 @@ func (be *BasicEnvironment) GetName() string {
 // TrackVariable adds the variable to the environment if it is not already
 // tracked. Returns true if the variable was added, false if it already exists.
 func (be *BasicEnvironment) TrackVariable(v Variable) bool {
+	be.mu.Lock()
+	defer be.mu.Unlock()
+
 	// Check if the variable is already in the environment
 	for _, existingVar := range be.Variables {
 		if existingVar.ID == v.ID {
@@ -29,8 +37,14 @@ func (be *BasicEnvironment) TrackVariable(v Variable) bool {
 }
 
 // AllTrackedVariables returns a slice of all variables tracked by the environment.
+// The slice is a copy that belongs to the caller.
 func (be *BasicEnvironment) AllTrackedVariables() []Variable {
-	return be.Variables
+	be.mu.Lock()
+	defer be.mu.Unlock()
+
+	out := make([]Variable, len(be.Variables))
+	copy(out, be.Variables)
+	return out
 }
 
 // MakeBasicEnvironment creates a new BasicEnvironment with the given name.
-- 
2.43.0


From 185fe88274f0ef58f6ad4de0add6673833346c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:47 +0000
Subject: [PATCH 10/30] fix: a new variable must get an ID nobody else has in
 its environment

The ID was the number of tracked variables and the result of TrackVariable
was ignored, so a variable tracked by hand, or one created by another
goroutine between the two calls, made NewVariable return a variable with an
ID that was already taken (two different variables the library then treats
as one) and that the environment does not know.
---
 symbolic/variable.go | 60 +++++++++++++++++++++++++-------------------
 1 file changed, 34 insertions(+), 26 deletions(-)

diff --git a/symbolic/variable.go b/symbolic/variable.go
index 62089c2..11aaa77 100644
--- a/symbolic/variable.go
+++ b/symbolic/variable.go
@@ -391,24 +391,13 @@ func NewContinuousVariable(envs ...Environment) Variable {
 		currentEnv = envs[0]
 	}
 
-	// Get New Index
-	nextIdx := len(currentEnv.AllTrackedVariables())
-
-	// Create variable
-	variableOut := Variable{
-		ID:          uint64(nextIdx),
+	// Create variable and add it to the environment
+	return trackNewVariable(Variable{
 		Lower:       float64(-Infinity),
 		Upper:       float64(+Infinity),
 		Type:        Continuous,
-		Name:        fmt.Sprintf("x_%v", nextIdx),
 		Environment: currentEnv,
-	}
-
-	// Update environment
-	currentEnv.TrackVariable(variableOut)
-
-	return variableOut
-
+	})
 }
 
 // NewBinaryVariable creates a new binary variable.
@@ -422,24 +411,43 @@ func NewBinaryVariable(envs ...Environment) Variable {
 		currentEnv = envs[0]
 	}
 
-	// Get New Index
-	nextIdx := len(currentEnv.AllTrackedVariables())
-
-	// Get New Variable Object and add it to environment
-	variableOut := Variable{
-		ID:          uint64(nextIdx),
+	// Create variable and add it to the environment
+	return trackNewVariable(Variable{
 		Lower:       0.0,
 		Upper:       1.0,
 		Type:        Binary,
-		Name:        fmt.Sprintf("x_%v", nextIdx),
 		Environment: currentEnv,
-	}
-
-	// Update env
-	currentEnv.TrackVariable(variableOut)
+	})
+}
 
-	return variableOut
+// trackNewVariable gives the variable an ID (and a name) that is not yet used in its environment,
+// adds it to the environment and returns it.
+func trackNewVariable(variableOut Variable) Variable {
+	env := variableOut.Environment
+
+	// The number of tracked variables is the first candidate. It may be taken by a variable that
+	// was tracked by hand, or by one which another goroutine has just created.
+	nextIdx := uint64(len(env.AllTrackedVariables()))
+	for {
+		variableOut.ID = nextIdx
+		variableOut.Name = fmt.Sprintf("x_%v", nextIdx)
+		if env.TrackVariable(variableOut) {
+			return variableOut
+		}
 
+		// The environment did not add the variable.
+		idIsTaken := false
+		for _, tracked := range env.AllTrackedVariables() {
+			if tracked.ID == nextIdx {
+				idIsTaken = true
+				break
+			}
+		}
+		if !idIsTaken {
+			return variableOut // The environment chose not to track it
+		}
+		nextIdx++
+	}
 }
 
 // ToMonomial Converts the variable into a monomial.
-- 
2.43.0


From d57fc6dc140126d24bbe7b0b5409f0794fe27678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:52 +0000
Subject: [PATCH 11/30] fix: Monomial.Variables must not hand out the
 monomial's own slice

A caller that sorted or edited the list it received changed the monomial.
---
 symbolic/monomial.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/symbolic/monomial.go b/symbolic/monomial.go
index 22c6b4f..453f819 100644
--- a/symbolic/monomial.go
+++ b/symbolic/monomial.go
@@ -40,7 +40,9 @@ func (m Monomial) Check() error {
 // Variables returns the unique variables in the monomial.
 // TODO(Kwesi): Add a unique-ness check.
 func (m Monomial) Variables() []Variable {
-	return m.VariableFactors
+	variables := make([]Variable, len(m.VariableFactors))
+	copy(variables, m.VariableFactors)
+	return variables
 }
 
 // Dims Returns the dimensions of the monomial. (It is a scalar, so this is [1,1])
-- 
2.43.0


From 997f25c3966a380788668c31c592dc85c21708dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:01 +0000
Subject: [PATCH 12/30] fix: adding a vector to a one-element vector must not
 drop elements

A one-element vector counts as a scalar in the dimension check, so it may be
added to a vector of any length; VectorPlusTemplate then only used the first
element of the right hand side.
---
 symbolic/vector_expression.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/symbolic/vector_expression.go b/symbolic/vector_expression.go
index 45fd8b7..ad8b44d 100644
--- a/symbolic/vector_expression.go
+++ b/symbolic/vector_expression.go
@@ -412,6 +412,14 @@ func VectorPlusTemplate(ve VectorExpression, right Expression) Expression {
 			sum = append(sum, se.Plus(rightExpr).(ScalarExpression))
 		}
 	case VectorExpression:
+		if len(veAsSlice) == 1 {
+			// A vector with a single element is a scalar, so it is added to every
+			// element of the right hand side
+			for ii := 0; ii < rightExpr.Len(); ii++ {
+				sum = append(sum, veAsSlice[0].Plus(rightExpr.AtVec(ii)).(ScalarExpression))
+			}
+			break
+		}
 		for ii, se := range veAsSlice {
 			rightII := rightExpr.AtVec(ii)
 			sum = append(sum, se.Plus(rightII).(ScalarExpression))
-- 
2.43.0


From c79f9681aeb6917e5419e06e43fec987aa7c5454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:32 +0000
Subject: [PATCH 13/30] fix: multiplying a one-element vector with a longer one
 must not drop elements

The dimension check lets a (1x1) left operand scale the right one, but
KVector.Multiply and VariableVector.Multiply then used only the first element
of the right operand.
---
 symbolic/constant_vector.go | 20 ++++++++++++++------
 symbolic/variable_vector.go |  8 ++++++--
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/symbolic/constant_vector.go b/symbolic/constant_vector.go
index 60f4621..3fbffce 100644
--- a/symbolic/constant_vector.go
+++ b/symbolic/constant_vector.go
@@ -341,14 +341,22 @@ func (kv KVector) Multiply(rightIn interface{}) Expression {
 		out = kv.Multiply(VecDenseToKVector(right))
 
 	case KVector:
-		// If the input is a KVector and the dimensions match
-		// then right is a (1x1) vector and can use the scalar method.
-		out = kv.Multiply(right[0])
+		// If the dimensions match, then either kv is a (1x1) vector that
+		// scales right, or right is a (1x1) vector and can use the scalar method.
+		if nResultRows == 1 {
+			out = right.Multiply(kv[0])
+		} else {
+			out = kv.Multiply(right[0])
+		}
 
 	case VariableVector:
-		// If the input is a KVector and the dimensions match
-		// then right is a (1x1) vector and can use the scalar method.
-		out = kv.Multiply(right[0])
+		// If the dimensions match, then either kv is a (1x1) vector that
+		// scales right, or right is a (1x1) vector and can use the scalar method.
+		if nResultRows == 1 {
+			out = right.Multiply(kv[0])
+		} else {
+			out = kv.Multiply(right[0])
+		}
 
 	default:
 		// Panic if the input type is not recognized
diff --git a/symbolic/variable_vector.go b/symbolic/variable_vector.go
index 7946bc6..191588c 100644
--- a/symbolic/variable_vector.go
+++ b/symbolic/variable_vector.go
@@ -204,9 +204,13 @@ func (vv VariableVector) Multiply(rightIn interface{}) Expression {
 	case ScalarExpression:
 		out = VectorMultiplyTemplate(vv, right)
 	case VectorExpression:
-		// Vector of polynomials must be (1x1)
+		// One of the two vectors must be (1x1)
 		rightAsVE, _ := ToVectorExpression(right)
-		out = vv.Multiply(rightAsVE.AtVec(0))
+		if vv.Len() == 1 && rightAsVE.Len() > 1 {
+			out = rightAsVE.Multiply(vv[0])
+		} else {
+			out = vv.Multiply(rightAsVE.AtVec(0))
+		}
 	default:
 		// Otherwise, panic
 		panic(
-- 
2.43.0


From 42d5b0e057af20c2044babff33a21c0b72fea1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:59 +0000
Subject: [PATCH 14/30] fix: sums and products of matrices with (1x1) operands
 must not drop elements

PolynomialMatrix.Plus with a (1x1) receiver and KMatrix.Multiply with a
one-element VariableVector used only the first element of the larger operand.
---
 symbolic/constant_matrix.go   |  5 ++++-
 symbolic/polynomial_matrix.go | 10 ++++++++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/symbolic/constant_matrix.go b/symbolic/constant_matrix.go
index 3ac79f9..8fe0f78 100644
--- a/symbolic/constant_matrix.go
+++ b/symbolic/constant_matrix.go
@@ -253,7 +253,10 @@ func (km KMatrix) Multiply(e interface{}) Expression {
 	case VariableVector:
 		// Choose the correct output type based on the size of km
 		nR := km.Dims()[0]
-		if nR == 1 {
+		if len(right) == 1 && km.Dims()[1] > 1 {
+			// A (1x1) vector scales every element of the matrix
+			out = km.Multiply(right[0].ToPolynomial())
+		} else if nR == 1 {
 			// If the output is a scalar, return a scalar
 			var prod Expression = K(0)
 			for cIndex := 0; cIndex < len(right); cIndex++ {
diff --git a/symbolic/polynomial_matrix.go b/symbolic/polynomial_matrix.go
index 1b2d248..0da771b 100644
--- a/symbolic/polynomial_matrix.go
+++ b/symbolic/polynomial_matrix.go
@@ -147,6 +147,11 @@ func (pm PolynomialMatrix) Plus(e interface{}) Expression {
 		}
 		out = ConcretizeExpression(sum)
 	case KMatrix:
+		// A (1x1) matrix is added to every element of the right hand side
+		if smErrors.IsScalarExpression(pm) && !smErrors.IsScalarExpression(right) {
+			return right.ToPolynomialMatrix().Plus(pm[0][0])
+		}
+
 		// Create containers
 		var sum [][]ScalarExpression
 
@@ -160,6 +165,11 @@ func (pm PolynomialMatrix) Plus(e interface{}) Expression {
 		out = ConcretizeExpression(sum)
 
 	case PolynomialMatrix:
+		// A (1x1) matrix is added to every element of the right hand side
+		if smErrors.IsScalarExpression(pm) && !smErrors.IsScalarExpression(right) {
+			return right.Plus(pm[0][0])
+		}
+
 		// Create containers
 		var sum [][]ScalarExpression
 
-- 
2.43.0


From 30edc8d31331b6a679e87c8ad0e16fe589e2f247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:14 +0000
Subject: [PATCH 15/30] fix: Monomial.ToVariable must refuse a monomial with a
 coefficient

2*x is not a variable; the conversion silently dropped the coefficient.
---
 symbolic/monomial.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolic/monomial.go b/symbolic/monomial.go
index 453f819..d18e0db 100644
--- a/symbolic/monomial.go
+++ b/symbolic/monomial.go
@@ -572,7 +572,7 @@ func (m Monomial) ToVariable() Variable {
 		panic(fmt.Errorf("Cannot convert monomial to variable: VariableFactors is empty"))
 	}
 	// Algorithm
-	if m.IsDegreeOneContainingVariable(m.VariableFactors[0]) {
+	if m.Coefficient == 1 && m.IsDegreeOneContainingVariable(m.VariableFactors[0]) {
 		return m.VariableFactors[0]
 	} else {
 		panic(
-- 
2.43.0


From 06c7983cf099592ad6f4d1fecb9295d3d775c0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:18 +0000
Subject: [PATCH 16/30] fix: operations that take a (1x1) operand as a scalar
 must not drop elements

PolynomialVector.Multiply, MonomialMatrix.Plus, MonomialMatrix.Multiply,
PolynomialMatrix.Multiply, VariableMatrix.Plus and VariableMatrix.Multiply
used only the first element of the larger operand.
---
 symbolic/monomial_matrix.go   | 10 ++++++++++
 symbolic/polynomial_matrix.go |  5 +++++
 symbolic/polynomial_vector.go |  8 ++++++--
 symbolic/variable_matrix.go   | 15 +++++++++++++++
 4 files changed, 36 insertions(+), 2 deletions(-)

diff --git a/symbolic/monomial_matrix.go b/symbolic/monomial_matrix.go
index 1581d39..a9b8ba1 100644
--- a/symbolic/monomial_matrix.go
+++ b/symbolic/monomial_matrix.go
@@ -179,6 +179,11 @@ func (mm MonomialMatrix) Plus(e interface{}) Expression {
 		}
 		return sum
 	case PolynomialMatrix:
+		// A (1x1) matrix is added to every element of the right hand side
+		if smErrors.IsScalarExpression(mm) && !smErrors.IsScalarExpression(right) {
+			return right.Plus(mm[0][0])
+		}
+
 		// Create containers
 		var sum PolynomialMatrix
 
@@ -281,6 +286,11 @@ func (mm MonomialMatrix) Multiply(e interface{}) Expression {
 		}
 		return product
 	case VariableVector:
+		// A (1x1) matrix scales every element of the right hand side
+		if smErrors.IsScalarExpression(mm) && !smErrors.IsScalarExpression(right) {
+			return right.Multiply(mm[0][0])
+		}
+
 		if nRows == 1 {
 			// Output will be a scalar expression
 			var product Expression = K(0.0)
diff --git a/symbolic/polynomial_matrix.go b/symbolic/polynomial_matrix.go
index 0da771b..b6436d5 100644
--- a/symbolic/polynomial_matrix.go
+++ b/symbolic/polynomial_matrix.go
@@ -281,6 +281,11 @@ func (pm PolynomialMatrix) Multiply(e interface{}) Expression {
 		}
 		out = ConcretizeExpression(product)
 	case VariableVector:
+		// A (1x1) matrix scales every element of the right hand side
+		if smErrors.IsScalarExpression(pm) && !smErrors.IsScalarExpression(right) {
+			return right.Multiply(pm[0][0])
+		}
+
 		// Identify output dimensions
 		nResultRows := pm.Dims()[0]
 
diff --git a/symbolic/polynomial_vector.go b/symbolic/polynomial_vector.go
index 22e1d28..1174087 100644
--- a/symbolic/polynomial_vector.go
+++ b/symbolic/polynomial_vector.go
@@ -246,9 +246,13 @@ func (pv PolynomialVector) Multiply(rightIn interface{}) Expression {
 		}
 		out = ConcretizeExpression(product)
 	case PolynomialVector:
-		// This should only be true if the polynomial vector is actually a polynomial.
+		// One of the two vectors is actually a polynomial.
 		// Convert it to a polynomial and do the multiplication as if it was with just the scalar.
-		out = pv.Multiply(right[0])
+		if pv.Len() == 1 {
+			out = right.Multiply(pv[0])
+		} else {
+			out = pv.Multiply(right[0])
+		}
 
 	default:
 		panic(
diff --git a/symbolic/variable_matrix.go b/symbolic/variable_matrix.go
index 00df8e3..4f3935b 100644
--- a/symbolic/variable_matrix.go
+++ b/symbolic/variable_matrix.go
@@ -138,6 +138,11 @@ func (vm VariableMatrix) Plus(e interface{}) Expression {
 		return vm.Plus(DenseToKMatrix(kmOut))
 
 	case KMatrix:
+		// A (1x1) matrix is added to every element of the right hand side
+		if smErrors.IsScalarExpression(vm) && !smErrors.IsScalarExpression(right) {
+			return right.Plus(vm[0][0])
+		}
+
 		// Create a new matrix of polynomials.
 		var pmOut PolynomialMatrix
 		for ii, vmRow := range vm {
@@ -253,6 +258,11 @@ func (vm VariableMatrix) Multiply(e interface{}) Expression {
 		}
 		out = mmOut
 	case KVector:
+		// A (1x1) matrix scales every element of the right hand side
+		if smErrors.IsScalarExpression(vm) && !smErrors.IsScalarExpression(right) {
+			return right.Multiply(vm[0][0])
+		}
+
 		// Constants
 		vmRows, vmCols := vm.Dims()[0], vm.Dims()[1]
 
@@ -274,6 +284,11 @@ func (vm VariableMatrix) Multiply(e interface{}) Expression {
 		// Use the KVector case
 		out = vm.Multiply(VecDenseToKVector(right))
 	case VariableVector:
+		// A (1x1) matrix scales every element of the right hand side
+		if smErrors.IsScalarExpression(vm) && !smErrors.IsScalarExpression(right) {
+			return right.Multiply(vm[0][0])
+		}
+
 		// Output will be another vector
 		nVMCols := vm.Dims()[1]
 		var result Expression = K(0.0)
-- 
2.43.0


From fab14ac16d194359babf9aa43e870b83bcb5a881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:50 +0000
Subject: [PATCH 17/30] fix: sums, products and powers of matrices must not
 panic when an element simplifies

VariableMatrix.Plus with a zero, VariableMatrix.Multiply with 0 or 1,
MonomialMatrix.Multiply with a vector of variables and Power of a (1x1)
matrix asserted the type of an intermediate result that the library
simplifies to another one for some values.
---
 symbolic/matrix_expression.go |  7 ++++++-
 symbolic/monomial_matrix.go   |  2 +-
 symbolic/variable_matrix.go   | 12 ++++++++++--
 3 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/symbolic/matrix_expression.go b/symbolic/matrix_expression.go
index bed3b6e..c4dab16 100644
--- a/symbolic/matrix_expression.go
+++ b/symbolic/matrix_expression.go
@@ -164,7 +164,12 @@ func MatrixPowerTemplate(me MatrixExpression, exponent int) MatrixExpression {
 	// Algorithm
 	var out MatrixExpression = K(0).Plus(Identity(me.Dims()[0])).(MatrixExpression)
 	for i := 0; i < exponent; i++ {
-		out = out.Multiply(me).(MatrixExpression)
+		product := out.Multiply(me)
+		if productAsSE, tf := product.(ScalarExpression); tf {
+			// The product of two (1x1) matrices may be returned as a scalar
+			product = ConcretizeMatrixExpression([][]ScalarExpression{{productAsSE}})
+		}
+		out = product.(MatrixExpression)
 	}
 	return out
 }
diff --git a/symbolic/monomial_matrix.go b/symbolic/monomial_matrix.go
index a9b8ba1..cd64eab 100644
--- a/symbolic/monomial_matrix.go
+++ b/symbolic/monomial_matrix.go
@@ -308,7 +308,7 @@ func (mm MonomialMatrix) Multiply(e interface{}) Expression {
 				for jj := 1; jj < len(row); jj++ {
 					product_ii = product_ii.Plus(
 						row[jj].ToPolynomial().Multiply(right[jj]),
-					).(Polynomial)
+					)
 				}
 				// Enforce that product_ii is a ScalarExpression
 				product_iiAsSE, tf := product_ii.(ScalarExpression)
diff --git a/symbolic/variable_matrix.go b/symbolic/variable_matrix.go
index 4f3935b..3903a24 100644
--- a/symbolic/variable_matrix.go
+++ b/symbolic/variable_matrix.go
@@ -148,7 +148,12 @@ func (vm VariableMatrix) Plus(e interface{}) Expression {
 		for ii, vmRow := range vm {
 			var pmRow []Polynomial
 			for jj, v := range vmRow {
-				pmRow = append(pmRow, v.Plus(right[ii][jj]).(Polynomial))
+				sum, tf := v.Plus(right[ii][jj]).(Polynomial)
+				if !tf {
+					// Adding zero leaves the variable itself
+					sum = v.ToPolynomial()
+				}
+				pmRow = append(pmRow, sum)
 			}
 			pmOut = append(pmOut, pmRow)
 		}
@@ -252,7 +257,10 @@ func (vm VariableMatrix) Multiply(e interface{}) Expression {
 		for _, vmRow := range vm {
 			var mmRow []Monomial
 			for _, v := range vmRow {
-				mmRow = append(mmRow, v.Multiply(right).(Monomial))
+				// The product itself may simplify to a variable or a constant
+				product := v.ToMonomial()
+				product.Coefficient = float64(right)
+				mmRow = append(mmRow, product)
 			}
 			mmOut = append(mmOut, mmRow)
 		}
-- 
2.43.0


From 9f3f88e443c73c07f4b2d969bcb75937f7df3902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:40 +0000
Subject: [PATCH 18/30] fix: subtracting polynomial matrices must not panic
 when the negated matrix simplifies

Minus adds the negated operand, which the library turns into a matrix of
monomials, variables or constants when its elements allow it;
PolynomialMatrix.Plus and MonomialMatrix.Plus did not accept those, so
whether a difference could be formed depended on the values.
---
 symbolic/monomial_matrix.go   | 20 ++++++++++++++++++++
 symbolic/polynomial_matrix.go |  6 ++++++
 2 files changed, 26 insertions(+)

diff --git a/symbolic/monomial_matrix.go b/symbolic/monomial_matrix.go
index cd64eab..50114df 100644
--- a/symbolic/monomial_matrix.go
+++ b/symbolic/monomial_matrix.go
@@ -200,6 +200,13 @@ func (mm MonomialMatrix) Plus(e interface{}) Expression {
 
 		return sum
 
+	case KMatrix:
+		return mm.Plus(right.ToPolynomialMatrix())
+	case VariableMatrix:
+		return mm.Plus(right.ToPolynomialMatrix())
+	case MonomialMatrix:
+		return mm.Plus(right.ToPolynomialMatrix())
+
 	default:
 		panic(
 			smErrors.UnsupportedInputError{
@@ -630,3 +637,16 @@ func (mm MonomialMatrix) AsSimplifiedExpression() Expression {
 	// Return the simplified matrix
 	return ConcretizeMatrixExpression(simplifiedMM)
 }
+
+// ToPolynomialMatrix converts every monomial of the matrix into a polynomial.
+func (mm MonomialMatrix) ToPolynomialMatrix() PolynomialMatrix {
+	var out PolynomialMatrix
+	for _, row := range mm {
+		outRow := make([]Polynomial, len(row))
+		for jj, monomial := range row {
+			outRow[jj] = monomial.ToPolynomial()
+		}
+		out = append(out, outRow)
+	}
+	return out
+}
diff --git a/symbolic/polynomial_matrix.go b/symbolic/polynomial_matrix.go
index b6436d5..1b68e86 100644
--- a/symbolic/polynomial_matrix.go
+++ b/symbolic/polynomial_matrix.go
@@ -132,6 +132,8 @@ func (pm PolynomialMatrix) Plus(e interface{}) Expression {
 			sum = append(sum, sumRow)
 		}
 		out = ConcretizeExpression(sum)
+	case Variable:
+		out = pm.Plus(right.ToPolynomial())
 	case Monomial:
 		out = pm.Plus(right.ToPolynomial())
 	case Polynomial:
@@ -182,6 +184,10 @@ func (pm PolynomialMatrix) Plus(e interface{}) Expression {
 		}
 
 		out = ConcretizeExpression(sum)
+	case VariableMatrix:
+		out = pm.Plus(right.ToPolynomialMatrix())
+	case MonomialMatrix:
+		out = pm.Plus(right.ToPolynomialMatrix())
 	default:
 		// If the right hand side is not supported, then panic
 		panic(
-- 
2.43.0


From f98ff20520898734860286df6a33b01904ec7e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:30 +0000
Subject: [PATCH 19/30] fix: MonomialMatrix.Plus must merge like terms

---
 symbolic/monomial_matrix.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/symbolic/monomial_matrix.go b/symbolic/monomial_matrix.go
index 50114df..11349b0 100644
--- a/symbolic/monomial_matrix.go
+++ b/symbolic/monomial_matrix.go
@@ -127,7 +127,7 @@ func (mm MonomialMatrix) Plus(e interface{}) Expression {
 			for jj, monomial := range row {
 				sumRow[jj].Monomials = append(sumRow[jj].Monomials, monomial, right.ToMonomial())
 				// Simplify
-				sumRow[jj].Simplify()
+				sumRow[jj] = sumRow[jj].Simplify()
 			}
 			sum = append(sum, sumRow)
 		}
@@ -141,7 +141,7 @@ func (mm MonomialMatrix) Plus(e interface{}) Expression {
 			for jj, monomial := range row {
 				sumRow[jj].Monomials = append(sumRow[jj].Monomials, monomial, right.ToMonomial())
 				// Simplify
-				sumRow[jj].Simplify()
+				sumRow[jj] = sumRow[jj].Simplify()
 			}
 			sum = append(sum, sumRow)
 		}
@@ -156,7 +156,7 @@ func (mm MonomialMatrix) Plus(e interface{}) Expression {
 			for jj, monomial := range row {
 				sumRow[jj].Monomials = append(sumRow[jj].Monomials, monomial, right)
 				// Simplify
-				sumRow[jj].Simplify()
+				sumRow[jj] = sumRow[jj].Simplify()
 			}
 			sum = append(sum, sumRow)
 		}
@@ -173,7 +173,7 @@ func (mm MonomialMatrix) Plus(e interface{}) Expression {
 				sumRow[jj].Monomials = append(sumRow[jj].Monomials, monomial)
 				sumRow[jj].Monomials = append(sumRow[jj].Monomials, right.Monomials...)
 				// Simplify
-				sumRow[jj].Simplify()
+				sumRow[jj] = sumRow[jj].Simplify()
 			}
 			sum = append(sum, sumRow)
 		}
@@ -193,7 +193,7 @@ func (mm MonomialMatrix) Plus(e interface{}) Expression {
 				sumRow[jj].Monomials = append(sumRow[jj].Monomials, monomial)
 				sumRow[jj].Monomials = append(sumRow[jj].Monomials, right[ii][jj].Monomials...)
 				// Simplify
-				sumRow[jj].Simplify()
+				sumRow[jj] = sumRow[jj].Simplify()
 			}
 			sum = append(sum, sumRow)
 		}
-- 
2.43.0


From ce895f569b66d4bc7068665a830419112dc26a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:25 +0000
Subject: [PATCH 20/30] fix: Monomial.LinearCoeff must answer for constants,
 foreign and repeated variables

---
 symbolic/monomial.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/symbolic/monomial.go b/symbolic/monomial.go
index d18e0db..5274239 100644
--- a/symbolic/monomial.go
+++ b/symbolic/monomial.go
@@ -357,11 +357,12 @@ func (m Monomial) LinearCoeff(wrt ...[]Variable) mat.VecDense {
 	linearCoeffs := ZerosVector(len(wrtVars))
 
 	// Iterate through each variable
-	if IsLinear(m) {
-		// If the monomial is linear,
-		// then find the variable that is present
-		idx, _ := FindInSlice(m.VariableFactors[0], wrtVars)
-		linearCoeffs.SetVec(idx, m.Coefficient)
+	for ii, wrtVar := range wrtVars {
+		if m.IsDegreeOneContainingVariable(wrtVar) {
+			// If the monomial is linear in this variable,
+			// then its coefficient is the linear coefficient
+			linearCoeffs.SetVec(ii, m.Coefficient)
+		}
 	}
 
 	// Return
-- 
2.43.0


From ef14d878380d2a33cce1a8396526b90ce55e7314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:30 +0000
Subject: [PATCH 21/30] fix: Polynomial.Constant and LinearCoeff must count
 every like term

---
 symbolic/polynomial.go | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/symbolic/polynomial.go b/symbolic/polynomial.go
index 8cc25c6..6e1b731 100644
--- a/symbolic/polynomial.go
+++ b/symbolic/polynomial.go
@@ -460,12 +460,12 @@ func (p Polynomial) Constant() float64 {
 	}
 
 	// Algorithm
-	constantIndex := p.ConstantMonomialIndex()
-	if constantIndex == -1 {
-		return 0.0
-	} else {
-		return p.Monomials[constantIndex].Coefficient
+	// Note: A polynomial that was not simplified may contain several constant monomials.
+	constant := 0.0
+	for _, monomial := range p.Monomials {
+		constant += monomial.Constant()
 	}
+	return constant
 }
 
 // Simplify This function simplifies the number of monomials in the polynomial,
@@ -653,10 +653,12 @@ func (p Polynomial) LinearCoeff(wrt ...[]Variable) mat.VecDense {
 	// Algorithm
 	coeffOut := ZerosVector(len(wrtVars))
 	for ii := 0; ii < len(wrtVars); ii++ {
-		// Try to find the variable in the polynomial
-		varIndex := p.VariableMonomialIndex(wrtVars[ii])
-		if varIndex != -1 {
-			coeffOut.SetVec(ii, p.Monomials[varIndex].Coefficient)
+		// Collect every monomial that is linear in this variable
+		// (a polynomial that was not simplified may contain several)
+		for _, monomial := range p.Monomials {
+			if monomial.IsDegreeOneContainingVariable(wrtVars[ii]) {
+				coeffOut.SetVec(ii, coeffOut.AtVec(ii)+monomial.Coefficient)
+			}
 		}
 	}
 
-- 
2.43.0


From 0232d6fa72a620d5b5b85297a3403272f42883ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:36 +0000
Subject: [PATCH 22/30] fix: scalar constraint implication must account for
 left constants, zero coefficients and nonlinear terms

---
 symbolic/scalar_constraint.go | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/symbolic/scalar_constraint.go b/symbolic/scalar_constraint.go
index 312c769..62e0311 100644
--- a/symbolic/scalar_constraint.go
+++ b/symbolic/scalar_constraint.go
@@ -310,19 +310,29 @@ func (sc ScalarConstraint) ImpliesThisIsAlsoSatisfied(other Constraint) bool {
 		containsOneVar := len(sc.Variables()) == 1 && len(otherC.Variables()) == 1
 		scAndOtherShareSameVar := len(UnionOfVariables(sc.Variables(), otherC.Variables())) == 1
 
-		if containsOneVar && scAndOtherShareSameVar {
+		if containsOneVar && scAndOtherShareSameVar && sc.IsLinear() && otherC.IsLinear() {
 			// Get the coefficient of the single variable
 			scCoeffVector := sc.LeftHandSide.LinearCoeff(sc.Variables())
 			scCoeff := scCoeffVector.AtVec(0)
 			otherCCoeffVector := otherC.LeftHandSide.LinearCoeff(otherC.Variables())
 			otherCCoeff := otherCCoeffVector.AtVec(0)
 
+			if scCoeff == 0 || otherCCoeff == 0 {
+				// The variable does not really appear in one of the constraints
+				return false
+			}
+
 			// Scale both constraints
 			// Note: If the coefficient is negative, then the sense of the constraint will be flipped.
 			// This is handled in the ScaleBy method.
 			sc = sc.ScaleBy(1.0 / scCoeff).(ScalarConstraint)
 			otherC = otherC.ScaleBy(1.0 / otherCCoeff).(ScalarConstraint)
 
+			// Collect the bounds that the constraints place on the variable
+			// Note: The left hand sides may still contain a constant.
+			scBound := sc.RightHandSide.Constant() - sc.LeftHandSide.Constant()
+			otherCBound := otherC.RightHandSide.Constant() - otherC.LeftHandSide.Constant()
+
 			// The implication holds if all of the following are true:
 			// 1. The sense of sc and otherC are either the same (or one is equality)
 			// 2. The bounds of the constraint with the LessThanEqual or GreaterThanEqual sense are within the bounds of the other constraint.
@@ -341,7 +351,7 @@ func (sc ScalarConstraint) ImpliesThisIsAlsoSatisfied(other Constraint) bool {
 				case SenseLessThanEqual:
 					// Both are <=
 					// Then the implication holds if the upper bound of sc is <= the upper bound of otherC
-					return sc.RightHandSide.Constant() <= otherC.RightHandSide.Constant()
+					return scBound <= otherCBound
 				default:
 					// sc is <= and otherC is either >= or ==
 					// Then the implication holds if the upper bound of sc is <= the lower bound of otherC
@@ -353,7 +363,7 @@ func (sc ScalarConstraint) ImpliesThisIsAlsoSatisfied(other Constraint) bool {
 				case SenseGreaterThanEqual:
 					// Both are >=
 					// Then the implication holds if the lower bound of sc is >= the lower bound of otherC
-					return sc.RightHandSide.Constant() >= otherC.RightHandSide.Constant()
+					return scBound >= otherCBound
 				default:
 					// sc is >= and otherC is either <= or ==
 					// Then the implication holds if the lower bound of sc is >= the upper bound of otherC
@@ -365,15 +375,15 @@ func (sc ScalarConstraint) ImpliesThisIsAlsoSatisfied(other Constraint) bool {
 				case SenseEqual:
 					// Both are ==
 					// Then the implication holds if the bounds are equal
-					return sc.RightHandSide.Constant() == otherC.RightHandSide.Constant()
+					return scBound == otherCBound
 				case SenseLessThanEqual:
 					// sc is == and otherC is <=
 					// Then the implication holds if the bound of sc is <= the upper bound of otherC
-					return sc.RightHandSide.Constant() <= otherC.RightHandSide.Constant()
+					return scBound <= otherCBound
 				case SenseGreaterThanEqual:
 					// sc is == and otherC is >=
 					// Then the implication holds if the bound of sc is >= the lower bound of otherC
-					return sc.RightHandSide.Constant() >= otherC.RightHandSide.Constant()
+					return scBound >= otherCBound
 				}
 			default:
 				panic("unreachable code reached in ScalarConstraint.ImpliesThisIsAlsoSatisfied")
-- 
2.43.0


From 8fae67f07ccdf5598e98bdb4550e0d7fa0498d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:41 +0000
Subject: [PATCH 23/30] fix: IsNonnegativityConstraint must account for a
 constant on the left

---
 symbolic/scalar_constraint.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/symbolic/scalar_constraint.go b/symbolic/scalar_constraint.go
index 62e0311..61d1c4a 100644
--- a/symbolic/scalar_constraint.go
+++ b/symbolic/scalar_constraint.go
@@ -440,9 +440,9 @@ func (sc ScalarConstraint) IsNonnegativityConstraint() bool {
 		return false // If lhs is still not variable like, then return false.
 	}
 
-	// Check to see if rhs is zero
+	// Check to see if rhs is zero (after moving the constants on the lhs there)
 	rhsAsK := simplified.RightHandSide.(K)
-	rhsIsZero := float64(rhsAsK) == 0
+	rhsIsZero := float64(rhsAsK)-simplified.LeftHandSide.Constant() == 0
 
 	if !rhsIsZero {
 		return false
-- 
2.43.0


From 46e91d008191da7ac91d3eab894bfd3d0a585043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:57 +0000
Subject: [PATCH 24/30] fix:
 ScalarConstraint.LinearInequalityConstraintRepresentation must refuse
 equalities

---
 symbolic/scalar_constraint.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/symbolic/scalar_constraint.go b/symbolic/scalar_constraint.go
index 61d1c4a..d9cea1c 100644
--- a/symbolic/scalar_constraint.go
+++ b/symbolic/scalar_constraint.go
@@ -112,6 +112,15 @@ func (sc ScalarConstraint) LinearInequalityConstraintRepresentation(wrt ...[]Var
 		}
 	}
 
+	// Check that the sense is inequality.
+	if sc.Sense == SenseEqual {
+		panic(
+			smErrors.InequalityConstraintRequiredError{
+				Operation: "LinearInequalityConstraintRepresentation",
+			},
+		)
+	}
+
 	// Create A
 	newLHS := sc.Left().(ScalarExpression)
 	newLHS = newLHS.Minus(sc.Right()).(ScalarExpression)
-- 
2.43.0


From eb1d606db431aea18cac14e0f1f775a92862dac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:14 +0000
Subject: [PATCH 25/30] fix: VectorPlusTemplate must refuse vectors of
 different lengths

---
 symbolic/vector_expression.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/symbolic/vector_expression.go b/symbolic/vector_expression.go
index ad8b44d..9e106f3 100644
--- a/symbolic/vector_expression.go
+++ b/symbolic/vector_expression.go
@@ -420,6 +420,15 @@ func VectorPlusTemplate(ve VectorExpression, right Expression) Expression {
 			}
 			break
 		}
+		if rightExpr.Len() != len(veAsSlice) {
+			panic(
+				smErrors.VectorDimensionError{
+					Operation: "VectorPlusTemplate",
+					Arg1:      ve,
+					Arg2:      rightExpr,
+				},
+			)
+		}
 		for ii, se := range veAsSlice {
 			rightII := rightExpr.AtVec(ii)
 			sum = append(sum, se.Plus(rightII).(ScalarExpression))
-- 
2.43.0


From d205ab4d797e01518a06b65a385209c64ec6f4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:17 +0000
Subject: [PATCH 26/30] fix: vector constraints of length one must be
 simplified and converted like longer ones

---
 symbolic/vector_constraint.go | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/symbolic/vector_constraint.go b/symbolic/vector_constraint.go
index 0ae693d..d6e00b2 100644
--- a/symbolic/vector_constraint.go
+++ b/symbolic/vector_constraint.go
@@ -140,8 +140,8 @@ func (vc VectorConstraint) LinearInequalityConstraintRepresentation(wrt ...[]Var
 	// Create A
 	newLHS := vc.Left().(PolynomialLikeVector)
 	rhsWithoutConst := vc.Right().(PolynomialLikeVector)
-	rhsWithoutConst = rhsWithoutConst.Minus(rhsWithoutConst.Constant()).(PolynomialLikeVector)
-	newLHS = newLHS.Minus(rhsWithoutConst).(PolynomialLikeVector)
+	rhsWithoutConst = asVectorExpression(rhsWithoutConst.Minus(rhsWithoutConst.Constant())).(PolynomialLikeVector)
+	newLHS = asVectorExpression(newLHS.Minus(rhsWithoutConst)).(PolynomialLikeVector)
 
 	A = newLHS.LinearCoeff(wrt...)
 
@@ -205,8 +205,8 @@ func (vc VectorConstraint) LinearEqualityConstraintRepresentation(wrt ...[]Varia
 	// Create C
 	newLHS := vc.Left().(PolynomialLikeVector)
 	rhsWithoutConst := vc.Right().(PolynomialLikeVector)
-	rhsWithoutConst = rhsWithoutConst.Minus(rhsWithoutConst.Constant()).(PolynomialLikeVector)
-	newLHS = newLHS.Minus(rhsWithoutConst).(PolynomialLikeVector)
+	rhsWithoutConst = asVectorExpression(rhsWithoutConst.Minus(rhsWithoutConst.Constant())).(PolynomialLikeVector)
+	newLHS = asVectorExpression(newLHS.Minus(rhsWithoutConst)).(PolynomialLikeVector)
 
 	C = newLHS.LinearCoeff(wrt...)
 
@@ -287,12 +287,21 @@ func (vc VectorConstraint) AsSimplifiedConstraint() Constraint {
 
 	// Return new constraint
 	return VectorConstraint{
-		LeftHandSide:  newLHS.(VectorExpression),
-		RightHandSide: newRHS.(VectorExpression),
+		LeftHandSide:  asVectorExpression(newLHS),
+		RightHandSide: asVectorExpression(newRHS),
 		Sense:         vc.Sense,
 	}
 }
 
+// asVectorExpression Returns the result of an operation on vectors as a vector.
+// Operations on vectors of length one may simplify their result to a scalar.
+func asVectorExpression(e Expression) VectorExpression {
+	if scalar, isScalar := e.(ScalarExpression); isScalar {
+		return ConcretizeVectorExpression([]ScalarExpression{scalar})
+	}
+	return e.(VectorExpression)
+}
+
 // Variables Returns a slice of all the variables in the constraint.
 func (vc VectorConstraint) Variables() []Variable {
 	return VariablesInThisConstraint(vc)
-- 
2.43.0


From 14ef2e1f2d7e78998b976dcda2809734b771f17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:21 +0000
Subject: [PATCH 27/30] fix: matrix constraints with one column must be
 simplified like wider ones

---
 symbolic/matrix_constraint.go | 37 ++++++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/symbolic/matrix_constraint.go b/symbolic/matrix_constraint.go
index f46a70e..a009f33 100644
--- a/symbolic/matrix_constraint.go
+++ b/symbolic/matrix_constraint.go
@@ -157,21 +157,36 @@ func (mc MatrixConstraint) SubstituteAccordingTo(subMap map[Variable]Expression)
 
 // AsSimplifiedConstraint Simplifies the constraint by moving all variables to the left hand side and the constants to the right.
 func (mc MatrixConstraint) AsSimplifiedConstraint() Constraint {
-	// Create Left Hand side of all of the expressions
-	var newLHS Expression = mc.LeftHandSide.Minus(mc.LeftHandSide.Constant())
-	newLHS = newLHS.Minus(
-		mc.RightHandSide.Minus(mc.RightHandSide.Constant()),
-	)
+	// Check that the constraint is well formed.
+	err := mc.Check()
+	if err != nil {
+		panic(err)
+	}
 
-	// Create Right Hand Side of only constants
-	var newRHS Expression = DenseToKMatrix(mc.RightHandSide.Constant()).Minus(
-		mc.LeftHandSide.Constant(),
-	)
+	// Simplify each element of the constraint (operations on whole matrices
+	// may simplify their results to vectors or scalars)
+	nR, nC := mc.Dims()[0], mc.Dims()[1]
+	newLHS := make([][]ScalarExpression, nR)
+	newRHS := make(KMatrix, nR)
+	for ii := 0; ii < nR; ii++ {
+		for jj := 0; jj < nC; jj++ {
+			left, right := mc.LeftHandSide.At(ii, jj), mc.RightHandSide.At(ii, jj)
+
+			// Move all variables to the left
+			eltLHS := left.Minus(left.Constant()).Minus(
+				right.Minus(right.Constant()),
+			)
+			newLHS[ii] = append(newLHS[ii], eltLHS.(ScalarExpression))
+
+			// Create Right Hand Side of only constants
+			newRHS[ii] = append(newRHS[ii], K(right.Constant()-left.Constant()))
+		}
+	}
 
 	// Return new constraint
 	return MatrixConstraint{
-		LeftHandSide:  newLHS.(MatrixExpression),
-		RightHandSide: newRHS.(MatrixExpression),
+		LeftHandSide:  ConcretizeMatrixExpression(newLHS),
+		RightHandSide: newRHS,
 		Sense:         mc.Sense,
 	}
 }
-- 
2.43.0


From ad4329401b7793f8d4d4d3dd6a0b89f0f413a044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:01 +0000
Subject: [PATCH 28/30] fix: monomials that name a variable with exponent zero,
 or twice, keep their meaning

Such monomials pass Check(), but were not recognised as constants, did not
match like terms, and were dropped or differentiated wrongly.
---
 symbolic/monomial.go | 37 ++++++++++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/symbolic/monomial.go b/symbolic/monomial.go
index 5274239..e918771 100644
--- a/symbolic/monomial.go
+++ b/symbolic/monomial.go
@@ -40,9 +40,27 @@ func (m Monomial) Check() error {
 // Variables returns the unique variables in the monomial.
 // TODO(Kwesi): Add a unique-ness check.
 func (m Monomial) Variables() []Variable {
-	variables := make([]Variable, len(m.VariableFactors))
-	copy(variables, m.VariableFactors)
-	return variables
+	// (a variable may be among the factors more than once)
+	return UniqueVars(m.VariableFactors)
+}
+
+// normalized returns the same monomial with every variable among the factors
+// at most once and without the variables whose exponent is zero.
+func (m Monomial) normalized() Monomial {
+	out := Monomial{Coefficient: m.Coefficient}
+	for _, v := range UniqueVars(m.VariableFactors) {
+		exponent := 0
+		for ii, factor := range m.VariableFactors {
+			if factor.ID == v.ID {
+				exponent += m.Exponents[ii]
+			}
+		}
+		if exponent != 0 {
+			out.VariableFactors = append(out.VariableFactors, v)
+			out.Exponents = append(out.Exponents, exponent)
+		}
+	}
+	return out
 }
 
 // Dims Returns the dimensions of the monomial. (It is a scalar, so this is [1,1])
@@ -320,7 +338,7 @@ func (m Monomial) Comparison(rhsIn interface{}, sense ConstrSense) Constraint {
 // Constant Returns the constant component in the scalar monomial.
 // This should be zero unless there are no variables present. Then it will be the coefficient.
 func (m Monomial) Constant() float64 {
-	if len(m.VariableFactors) == 0 {
+	if len(m.VariableFactors) == 0 || (m.Check() == nil && m.IsConstant()) {
 		return m.Coefficient
 	} else {
 		return 0
@@ -378,7 +396,8 @@ func (m Monomial) IsConstant() bool {
 	}
 
 	// Algorithm
-	return len(m.VariableFactors) == 0
+	// (variables whose exponent is zero do not matter)
+	return len(m.normalized().VariableFactors) == 0
 }
 
 // IsZero Returns true if the monomial defines the constant zero.
@@ -409,6 +428,7 @@ func (m Monomial) IsDegreeOneContainingVariable(v Variable) bool {
 
 	// If the monomial is a constant, then it is not a variable
 	// return false
+	m = m.normalized()
 	if m.IsConstant() {
 		return false
 	}
@@ -457,6 +477,7 @@ func (m Monomial) MatchesFormOf(mIn Monomial) bool {
 	}
 
 	// Algorithm
+	m, mIn = m.normalized(), mIn.normalized()
 	if len(m.VariableFactors) != len(mIn.VariableFactors) {
 		return false
 	}
@@ -497,6 +518,7 @@ func (m Monomial) DerivativeWrt(vIn Variable) Expression {
 	}
 
 	// Algorithm
+	m = m.normalized()
 	foundIndex, _ := FindInSlice(vIn, m.VariableFactors)
 	if foundIndex == -1 {
 		// If vIn is not in the monomial, then the derivative is zero
@@ -569,6 +591,7 @@ func (m Monomial) ToVariable() Variable {
 	}
 
 	// Check that VariableFactors is not empty
+	m = m.normalized()
 	if len(m.VariableFactors) == 0 {
 		panic(fmt.Errorf("Cannot convert monomial to variable: VariableFactors is empty"))
 	}
@@ -746,8 +769,8 @@ func (m Monomial) AsSimplifiedExpression() Expression {
 	}
 	// - If the monomial's coefficient is 1.0 and it contains one variable with degree 1,
 	//   then return that variable
-	if (m.Coefficient == 1.0) && (len(m.VariableFactors) == 1) && (m.Exponents[0] == 1) {
-		return m.VariableFactors[0]
+	if n := m.normalized(); (n.Coefficient == 1.0) && (len(n.VariableFactors) == 1) && (n.Exponents[0] == 1) {
+		return n.VariableFactors[0]
 	}
 
 	// - If the monomial contains variables BUT all exponents are zero,
-- 
2.43.0


From bcf817617bfca05fc94b937de02df46e7caf33d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:05 +0000
Subject: [PATCH 29/30] fix: the texts of constant and monomial matrices must
 have matching brackets and single commas

---
 symbolic/constant_matrix.go | 2 +-
 symbolic/monomial_matrix.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/symbolic/constant_matrix.go b/symbolic/constant_matrix.go
index 8fe0f78..2093628 100644
--- a/symbolic/constant_matrix.go
+++ b/symbolic/constant_matrix.go
@@ -498,7 +498,7 @@ func (km KMatrix) String() string {
 		// Add "]," and newline if not last row
 		out += "]"
 		if ii != nR-1 {
-			out += ",\n ["
+			out += ",\n "
 		} else {
 			out += "]\n"
 		}
diff --git a/symbolic/monomial_matrix.go b/symbolic/monomial_matrix.go
index 11349b0..2dc523c 100644
--- a/symbolic/monomial_matrix.go
+++ b/symbolic/monomial_matrix.go
@@ -547,7 +547,7 @@ func (mm MonomialMatrix) String() string {
 				out += ", "
 			}
 		}
-		out += "],"
+		out += "]"
 		if ii != len(mm)-1 {
 			out += ",\n "
 		}
-- 
2.43.0


From 0502fbcc583dc297217fd7e53269a854e47cad1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:18 +0000
Subject: [PATCH 30/30] fix: Variable.Plus must refuse malformed operands

---
 symbolic/variable.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/symbolic/variable.go b/symbolic/variable.go
index 11aaa77..ac8768b 100644
--- a/symbolic/variable.go
+++ b/symbolic/variable.go
@@ -77,6 +77,14 @@ func (v Variable) Plus(rightIn interface{}) Expression {
 		panic(err)
 	}
 
+	if IsExpression(rightIn) {
+		rightAsE, _ := ToExpression(rightIn)
+		err = rightAsE.Check()
+		if err != nil {
+			panic(err)
+		}
+	}
+
 	// Algorithm
 	var out Expression
 	switch right := rightIn.(type) {
-- 
2.43.0

