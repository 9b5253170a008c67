package main

import (
	"fmt"
	"math"
	"strings"

	sym "SIMMODULE/symbolic"
	"SIMMODULE/verifsim/simrt"
	"gonum.org/v1/gonum/mat"
)

// Properties about what expressions and constraints say of themselves after
// any history: C11 (structure), C12 (coefficients), C13 (implication), C14
// (meaning of constraints), C15 (misfit calls).

func init() {
	register(&Property{id: "C11", gen: genC11, run: runJudged})
	register(&Property{id: "C12", gen: genC12, run: runJudged})
	register(&Property{id: "C13", gen: genC13, run: runJudged})
	register(&Property{id: "C14", gen: genC14, run: runJudged})
	register(&Property{id: "C15", gen: genC15, run: runJudged})
	register(&Property{id: "C16", gen: genC16, run: runJudged})
	register(&Property{id: "C17", gen: genC17, run: runJudged})
}

// chainWeight: the operations that build histories.
func chainWeight(recv any, n string) int {
	if isEnv(recv) {
		return 0
	}
	if _, ok := recv.(sym.Constraint); ok {
		switch n {
		case "Substitute", "SubstituteAccordingTo":
			return 2
		case "AsSimplifiedConstraint", "Simplify", "AtVec", "At", "ScaleBy":
			return 3
		}
		return 0
	}
	switch n {
	case "Plus", "Multiply", "Minus":
		return 5
	case "Power", "DerivativeWrt", "Substitute", "SubstituteAccordingTo", "Transpose", "AsSimplifiedExpression":
		return 2
	case "At", "AtVec", "Copy":
		return 1
	}
	return 0
}

func chainProfile(q map[string]int, fn map[string]int) *Profile {
	prof := baseProfile()
	prof.Fresh = 3
	prof.FnShare = 0.15
	prof.Weight = func(recv any, n string) int {
		if isEnv(recv) {
			return 0
		}
		if wt, ok := q[n]; ok {
			return wt
		}
		return chainWeight(recv, n)
	}
	prof.FnWeight = func(n string) int {
		if wt, ok := fn[shortFn(n)]; ok {
			return wt
		}
		switch shortFn(n) {
		case "HStack", "VStack", "ConcretizeExpression", "Minus":
			return 2
		}
		return 0
	}
	return prof
}

func genJudged(prop string, salt uint64, seed uint64, bad float64, q, fn map[string]int) *Case {
	r := seedRng(seed, salt)
	prof := chainProfile(q, fn)
	prof.Bad = bad
	switch prop {
	case "C16":
		prof.MaxAbs = 1e60 // what is read back need not be exact
	case "C17":
		prof.BadUse = 0.6
	}
	c, _ := generate(prop, seed, PoolSpec{Seed: seed, Bad: prop == "C15" && r.Chance(0.1), Single: prop == "C13", Bad2: prop == "C17"}, drawShape(r), prof, nil)
	c.mapOrders(r)
	return c
}

func genC11(seed uint64) *Case {
	return genJudged("C11", 31, seed, 0.05, map[string]int{
		"Degree": 8, "Variables": 8, "IsConstant": 8, "IsConstantVector": 8, "IsLinear": 8, "Dims": 4, "Len": 4, "Check": 3,
		"MatchesFormOf": 6, "IsVariable": 4, "IsDegreeOneContainingVariable": 4, "MonomialIndex": 4, "ConstantMonomialIndex": 4, "VariableMonomialIndex": 4,
	}, map[string]int{"IsLinear": 6, "IsQuadratic": 6, "NumVariables": 6, "UniqueVars": 4, "UnionOfVariables": 4, "VariablesInThisConstraint": 4})
}

func genC12(seed uint64) *Case {
	return genJudged("C12", 32, seed, 0.04, map[string]int{"Constant": 10, "LinearCoeff": 16}, map[string]int{"PolynomialLikeVector_SharedLinearCoeffCalc": 4})
}

func genC13(seed uint64) *Case {
	return genJudged("C13", 33, seed, 0.03, map[string]int{
		"ImpliesThisIsAlsoSatisfied": 20, "IsNonnegativityConstraint": 8, "LessEq": 3, "GreaterEq": 3, "Eq": 3, "Comparison": 2, "ScaleBy": 5, "AsSimplifiedConstraint": 4,
	}, nil)
}

func genC14(seed uint64) *Case {
	return genJudged("C14", 34, seed, 0.04, map[string]int{
		"AsSimplifiedConstraint": 14, "Simplify": 10, "ScaleBy": 14, "At": 4, "AtVec": 4, "LessEq": 5, "GreaterEq": 5, "Eq": 5, "Comparison": 5,
		"LinearInequalityConstraintRepresentation": 14, "LinearEqualityConstraintRepresentation": 14, "Left": 1, "Right": 1, "ConstrSense": 1,
	}, map[string]int{"CompileConstraintsIntoScalarConstraints": 5})
}

func genC15(seed uint64) *Case {
	return genJudged("C15", 35, seed, 0.4, map[string]int{"LessEq": 3, "GreaterEq": 3, "Eq": 3, "Comparison": 3, "At": 6, "AtVec": 6, "Power": 5, "LinearCoeff": 2},
		map[string]int{"HStack": 6, "VStack": 6, "MatrixMultiplyTemplate": 3, "MatrixPlusTemplate": 3, "VectorPlusTemplate": 3, "VectorMultiplyTemplate": 3,
			"MatrixPowerTemplate": 3, "ScalarPowerTemplate": 3, "VectorPowerTemplate": 3, "ConcretizeExpression": 3, "ConcretizeMatrixExpression": 3, "Minus": 3, "From": 4})
}

func genC16(seed uint64) *Case {
	return genJudged("C16", 36, seed, 0.03, map[string]int{"String": 25}, nil)
}

func genC17(seed uint64) *Case {
	return genJudged("C17", 37, seed, 0.05, map[string]int{"Check": 10, "LessEq": 2, "GreaterEq": 2, "Eq": 2, "Comparison": 2, "ImpliesThisIsAlsoSatisfied": 2, "LinearInequalityConstraintRepresentation": 2},
		map[string]int{"Minus": 3, "MatrixMultiplyTemplate": 2, "MatrixPlusTemplate": 2, "VectorPlusTemplate": 2, "VectorMultiplyTemplate": 2,
			"MatrixPowerTemplate": 2, "ScalarPowerTemplate": 2, "VectorPowerTemplate": 2, "MatrixSubstituteTemplate": 2, "VectorSubstituteTemplate": 2,
			"IsLinear": 2, "IsQuadratic": 2})
}

func runJudged(c *Case) Result {
	w := newWorld(c.Pool)
	x := newExec(w, c.nOps(), false)
	md := newModelled(w)
	x.after = func(op *Op, p *prepared, o *Outcome, outs []any) {
		for k := range outs {
			if k < outsPerOp {
				s := w.slotOf(op.ID, k)
				md.m[s], md.ok[s] = denote(outs[k])
			}
		}
		if strings.HasPrefix(op.Fn, "user.") || o.kind == "abort" || o.kind == "skip" {
			return
		}
		j := &judge{x: x, w: w, md: md, prop: c.Prop, op: op, p: p, o: o, outs: outs}
		switch c.Prop {
		case "C11":
			j.structure()
		case "C12":
			j.coefficients()
		case "C13":
			j.implication()
		case "C14":
			j.constraints()
		case "C15":
			j.misfit()
		case "C16":
			j.text()
		case "C17":
			j.malformed()
		}
	}
	dead, capHit := x.runPhases(c, nil, nil)
	if dead != "" {
		x.fail(c.Prop, "deadlock", -1, "tasks block for ever: %s", dead)
	}
	if capHit {
		x.fail(c.Prop, "no-progress", -1, "an operation did not return within %d steps", stepCap)
	}
	x.tally(c)
	return x.result()
}

type judge struct {
	x    *Exec
	w    *World
	md   *modelled
	prop string
	op   *Op
	p    *prepared
	o    *Outcome
	outs []any
}

func (j *judge) fail(key, format string, args ...any) {
	j.x.fail(j.prop, key+":"+shortFn(j.op.Fn), j.op.ID, "operation %d %s: %s", j.op.ID, j.op.describe(j.w), fmt.Sprintf(format, args...))
}

func (j *judge) checked() {
	stats.Checks++
	stats.Extra["judged "+shortFn(j.op.Fn)]++
}

// subject is the expression the operation is about and what it means.
func (j *judge) subject() (v any, m Mat, ok bool) {
	if j.op.Recv >= 0 {
		return j.p.recv, j.md.m[j.op.Recv], j.md.ok[j.op.Recv] && wellFormed(j.p.recv)
	}
	if len(j.p.args) == 0 {
		return nil, Mat{}, false
	}
	v = j.p.args[0]
	m, ok = j.md.of(j.op.Args[0], v)
	return v, m, ok && wellFormed(v)
}

// written lists the terms as they are written, per element.
func written(v any) (out [][]sym.Monomial) {
	one := func(m sym.Monomial) { out = append(out, []sym.Monomial{m}) }
	vr := func(x sym.Variable) {
		one(sym.Monomial{Coefficient: 1, Exponents: []int{1}, VariableFactors: []sym.Variable{x}})
	}
	k := func(x sym.K) { one(sym.Monomial{Coefficient: float64(x)}) }
	switch x := v.(type) {
	case sym.K:
		k(x)
	case sym.Variable:
		vr(x)
	case sym.Monomial:
		one(x)
	case sym.Polynomial:
		out = append(out, x.Monomials)
	case sym.KVector:
		for _, y := range x {
			k(y)
		}
	case sym.VariableVector:
		for _, y := range x {
			vr(y)
		}
	case sym.MonomialVector:
		for _, y := range x {
			one(y)
		}
	case sym.PolynomialVector:
		for _, y := range x {
			out = append(out, y.Monomials)
		}
	case sym.KMatrix:
		for _, r := range x {
			for _, y := range r {
				k(y)
			}
		}
	case sym.VariableMatrix:
		for _, r := range x {
			for _, y := range r {
				vr(y)
			}
		}
	case sym.MonomialMatrix:
		for _, r := range x {
			for _, y := range r {
				one(y)
			}
		}
	case sym.PolynomialMatrix:
		for _, r := range x {
			for _, y := range r {
				out = append(out, y.Monomials)
			}
		}
	}
	return
}

func keyDegree(k string) int {
	d := 0
	for _, f := range factors(k) {
		d += int(f[1])
	}
	return d
}

// degrees: that of the polynomial, and that of the highest term as written
// (terms that cancel, or whose coefficient is zero, included).
func degrees(v any, m Mat) (lo, hi int) {
	for _, p := range m.e {
		for k := range p {
			lo = max(lo, keyDegree(k))
		}
	}
	for _, e := range written(v) {
		for _, t := range e {
			d := 0
			for _, x := range t.Exponents {
				d += x
			}
			hi = max(hi, d)
		}
	}
	return lo, max(lo, hi)
}

// varSets: identities of variables that matter, and of those written.
func varSets(v any, m Mat) (need, may map[uint64]bool) {
	need, may = map[uint64]bool{}, map[uint64]bool{}
	for _, p := range m.e {
		for k := range p {
			for _, f := range factors(k) {
				need[f[0]] = true
				may[f[0]] = true
			}
		}
	}
	for _, e := range written(v) {
		for _, t := range e {
			for _, x := range t.VariableFactors {
				may[x.ID] = true
			}
		}
	}
	return
}

func varList(v any) []sym.Variable {
	switch l := v.(type) {
	case []sym.Variable:
		return l
	case sym.VariableVector:
		return l
	}
	return nil
}

func idsOf(l []sym.Variable) string {
	var s []string
	for _, v := range l {
		s = append(s, fmt.Sprintf("v%d", v.ID))
	}
	return "[" + strings.Join(s, " ") + "]"
}

func (j *judge) checkVars(l []sym.Variable, need, may map[uint64]bool) {
	j.checked()
	seen := map[uint64]bool{}
	for _, v := range l {
		if seen[v.ID] {
			j.fail("twice", "lists variable v%d twice: %s", v.ID, idsOf(l))
		}
		seen[v.ID] = true
		if !may[v.ID] {
			j.fail("foreign", "lists variable v%d, which does not occur: %s", v.ID, idsOf(l))
		}
	}
	for id := range need {
		if !seen[id] {
			j.fail("missing", "does not list variable v%d, which occurs: %s", id, idsOf(l))
		}
	}
}

func (j *judge) boolean(got bool, must, may bool) {
	j.checked()
	if got && !may {
		j.fail("answer", "answered true, which is wrong")
	}
	if !got && must {
		j.fail("answer", "answered false, which is wrong")
	}
}

func sides(c sym.Constraint) (l, r sym.Expression, s sym.ConstrSense) {
	simrt.Quiet(func() { l, r, s = c.Left(), c.Right(), c.ConstrSense() })
	return
}

// ---- C11 ----

func (j *judge) structure() {
	fn := shortFn(j.op.Fn)
	if j.o.kind != "ok" || len(j.outs) == 0 {
		j.mustAccept(map[string]bool{"Degree": true, "Variables": true, "IsConstant": true, "IsConstantVector": true, "IsLinear": true, "IsQuadratic": true, "Dims": true, "Len": true, "Check": true, "NumVariables": true, "UniqueVars": true, "UnionOfVariables": true, "VariablesInThisConstraint": true,
			"ConstantMonomialIndex": true}[fn])
		return
	}
	out := j.outs[0]
	// lists of variables
	switch fn {
	case "UniqueVars", "UnionOfVariables":
		all := map[uint64]bool{}
		for _, a := range j.p.args {
			l := varList(a)
			for _, v := range l {
				all[v.ID] = true
			}
		}
		if l, ok := out.([]sym.Variable); ok {
			j.checkVars(l, all, all)
		}
		return
	}
	if fn == "VariablesInThisConstraint" || j.op.Recv >= 0 {
		s := j.p.recv
		if j.op.Recv < 0 {
			s = j.p.args[0]
		}
		if con, ok := s.(sym.Constraint); ok {
			if !wellFormed(con) {
				return
			}
			l, r, _ := sides(con)
			ml, ok1 := denote(l)
			mr, ok2 := denote(r)
			if !ok1 || !ok2 {
				return
			}
			switch fn {
			case "Variables", "VariablesInThisConstraint":
				n1, m1 := varSets(l, ml)
				n2, m2 := varSets(r, mr)
				for k := range n2 {
					n1[k] = true
				}
				for k := range m2 {
					m1[k] = true
				}
				if got, ok := out.([]sym.Variable); ok {
					j.checkVars(got, n1, m1)
				}
			case "IsLinear":
				lo1, hi1 := degrees(l, ml)
				lo2, hi2 := degrees(r, mr)
				if b, ok := out.(bool); ok {
					j.boolean(b, max(hi1, hi2) <= 1, max(lo1, lo2) <= 1)
				}
			case "Check":
				j.checked()
				if ml.r == mr.r && ml.c == mr.c && out != nil && !metaOf(l).badVar && !metaOf(r).badVar {
					if _, _, s := sides(con); s == sym.SenseEqual || s == sym.SenseLessThanEqual || s == sym.SenseGreaterThanEqual {
						j.fail("check", "reports %v for a well-formed constraint", out)
					}
				}
			case "Dims":
				if d, ok := out.([]int); ok && ml.r == mr.r && ml.c == mr.c {
					j.dims(d, ml)
				}
			case "Len":
				if n, ok := out.(int); ok && ml.r == mr.r {
					j.checked()
					if n != ml.r {
						j.fail("len", "answered %d for length %d", n, ml.r)
					}
				}
			}
			return
		}
	}
	v, m, ok := j.subject()
	if !ok {
		return
	}
	lo, hi := degrees(v, m)
	switch fn {
	case "Degree":
		d, ok := out.(int)
		if !ok {
			return
		}
		j.checked()
		if d < lo || d > hi {
			j.fail("degree", "answered %d; the degree is %d (%d as written)", d, lo, hi)
		}
	case "IsLinear":
		if b, ok := out.(bool); ok {
			j.boolean(b, hi <= 1, lo <= 1)
		}
	case "IsQuadratic":
		if b, ok := out.(bool); ok {
			j.boolean(b, hi <= 2, lo <= 2)
		}
	case "IsConstant", "IsConstantVector":
		_, may := varSets(v, m)
		if b, ok := out.(bool); ok {
			j.boolean(b, len(may) == 0, lo == 0)
		}
	case "Variables":
		need, may := varSets(v, m)
		if l, ok := out.([]sym.Variable); ok {
			j.checkVars(l, need, may)
		}
	case "NumVariables":
		need, may := varSets(v, m)
		if n, ok := out.(int); ok {
			j.checked()
			if n < len(need) || n > len(may) {
				j.fail("count", "answered %d; it has %d variables (%d as written)", n, len(need), len(may))
			}
		}
	case "Dims":
		if d, ok := out.([]int); ok {
			j.dims(d, m)
		}
	case "Len":
		if n, ok := out.(int); ok {
			j.checked()
			if n != m.r*m.c {
				j.fail("len", "answered %d for length %d", n, m.r*m.c)
			}
		}
	case "Check":
		j.checked()
		if out != nil && !metaOf(v).badVar {
			j.fail("check", "reports %v for a well-formed value", out)
		}
	case "MatchesFormOf":
		a, ok1 := v.(sym.Monomial)
		b, ok2 := j.p.args[0].(sym.Monomial)
		if b2, ok := out.(bool); ok && ok1 && ok2 && wellFormed(b) {
			same := formOf(a) == formOf(b)
			plain := plainFactors(a) && plainFactors(b)
			j.boolean(b2, same && plain, same)
		}
	case "IsVariable", "IsDegreeOneContainingVariable":
		a, ok1 := v.(sym.Monomial)
		b, ok2 := j.p.args[0].(sym.Variable)
		if b2, ok := out.(bool); ok && ok1 && ok2 {
			is := formOf(a) == mkKey(map[uint64]int{b.ID: 1})
			if fn == "IsVariable" {
				is = is && a.Coefficient == 1
			}
			j.boolean(b2, is && plainFactors(a), is)
		}
	case "MonomialIndex", "ConstantMonomialIndex", "VariableMonomialIndex":
		p, ok := v.(sym.Polynomial)
		i, ok2 := out.(int)
		if !ok || !ok2 {
			return
		}
		key := ""
		if fn == "VariableMonomialIndex" {
			y, ok := j.p.args[0].(sym.Variable)
			if !ok {
				return
			}
			key = mkKey(map[uint64]int{y.ID: 1})
		}
		if fn == "MonomialIndex" {
			y, ok := j.p.args[0].(sym.Monomial)
			if !ok || !wellFormed(y) || !plainFactors(y) {
				return
			}
			key = formOf(y)
		}
		j.checked()
		has, plain := false, true
		for _, t := range p.Monomials {
			has = has || formOf(t) == key
			plain = plain && plainFactors(t)
		}
		switch {
		case i >= 0 && (i >= len(p.Monomials) || formOf(p.Monomials[i]) != key):
			j.fail("index", "answered %d, where there is no such term", i)
		case i < 0 && has && plain:
			j.fail("index", "answered %d although there is such a term", i)
		}
	}
}

func (j *judge) dims(d []int, m Mat) {
	j.checked()
	if len(d) != 2 || d[0] != m.r || d[1] != m.c {
		j.fail("dims", "answered %v for a %dx%d value", d, m.r, m.c)
	}
}

func formOf(m sym.Monomial) string {
	fs := map[uint64]int{}
	for i, v := range m.VariableFactors {
		fs[v.ID] += m.Exponents[i]
	}
	return mkKey(fs)
}

// plainFactors: every variable at most once, no exponent zero.
func plainFactors(m sym.Monomial) bool {
	seen := map[uint64]bool{}
	for i, v := range m.VariableFactors {
		if seen[v.ID] || m.Exponents[i] == 0 {
			return false
		}
		seen[v.ID] = true
	}
	return true
}

// mustAccept: a question that every well-formed value can answer.
func (j *judge) mustAccept(always bool) {
	if !always || j.o.kind != "panic" {
		return
	}
	k, good := comboKey(j.op, j.p)
	_ = k
	subjects := []any{j.p.recv}
	if j.op.Recv < 0 {
		subjects = j.p.args
	}
	for _, v := range subjects {
		if con, ok := v.(sym.Constraint); ok {
			l, r, s := sides(con)
			ml, mr := metaOf(l), metaOf(r)
			if ml.rows != mr.rows || ml.cols != mr.cols || (s != sym.SenseEqual && s != sym.SenseLessThanEqual && s != sym.SenseGreaterThanEqual) {
				good = false
			}
		}
	}
	if good {
		j.checked()
		j.fail("rejected", "was rejected (%s) although its operand is well-formed", j.o.why)
	}
}

// ---- C12 ----

func (j *judge) coefficients() {
	fn := shortFn(j.op.Fn)
	if fn != "Constant" && fn != "LinearCoeff" && fn != "PolynomialLikeVector_SharedLinearCoeffCalc" {
		return
	}
	v, m, ok := j.subject()
	if !ok {
		return
	}
	if fn == "Constant" {
		if j.o.kind != "ok" || len(j.outs) == 0 {
			j.mustAccept(true)
			return
		}
		got, ok := denoteLoose(j.outs[0])
		if !ok {
			return
		}
		j.checked()
		want := m.each(func(p Poly) Poly { return pConst(p[""]) })
		if !mEqual(want, got) {
			j.fail("constant", "answered %s; by the model it is %s", got, want)
		}
		return
	}
	wrt := j.p.args
	if j.op.Recv < 0 {
		wrt = wrt[1:]
	}
	var vars []sym.Variable
	given := false
	switch len(wrt) {
	case 0:
		simrt.Quiet(func() {
			defer func() { recover() }()
			vars = v.(interface{ Variables() []sym.Variable }).Variables()
		})
	case 1:
		vars, given = varList(wrt[0]), true
	default:
		return
	}
	for _, x := range vars {
		if metaOf(x).bad {
			return
		}
	}
	if j.o.kind != "ok" || len(j.outs) == 0 {
		if len(vars) > 0 {
			j.mustAccept(true)
		}
		return
	}
	got, ok := denoteLoose(j.outs[0])
	if !ok || len(vars) == 0 {
		return
	}
	j.checked()
	n := len(m.e)
	if n == 1 && m.scalar() && got.c == 1 && got.r == len(vars) {
		got = mT(got)
	}
	if got.r != n || got.c != len(vars) {
		j.fail("shape", "answered a %dx%d value for %d elements and %d variables", got.r, got.c, n, len(vars))
		return
	}
	for i := 0; i < n; i++ {
		for k, x := range vars {
			want := m.e[i][mkKey(map[uint64]int{x.ID: 1})]
			if got.at(i, k)[""] != want {
				j.fail("coefficient", "coefficient of v%d in element %d is %v, answered %v (variables %s, given %v)", x.ID, i, want, got.at(i, k)[""], idsOf(vars), given)
			}
		}
	}
}

// ---- C13 ----

// flat lists a constraint's scalar conditions as polynomials: p (sense) 0.
func flat(c any) (ps []Poly, s sym.ConstrSense, shape [2]int, ok bool) {
	con, is := c.(sym.Constraint)
	if !is || !wellFormed(con) {
		return
	}
	l, r, s := sides(con)
	if s != sym.SenseEqual && s != sym.SenseLessThanEqual && s != sym.SenseGreaterThanEqual {
		return
	}
	ml, ok1 := denote(l)
	mr, ok2 := denote(r)
	if !ok1 || !ok2 || ml.r != mr.r || ml.c != mr.c {
		return
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, is := r.(errModel); !is {
					panic(r)
				}
				ok = false
			}
		}()
		d, is := mAdd(ml, mScale(mr, -1))
		ps, ok, shape = d.e, is, [2]int{d.r, d.c}
	}()
	return ps, s, shape, ok
}

func evalAt(p Poly, at map[uint64]float64) (float64, bool) {
	t := 0.0
	for k, c := range p {
		x := c
		for _, f := range factors(k) {
			for i := 0; i < int(f[1]); i++ {
				y := x * at[f[0]]
				if math.FMA(x, at[f[0]], -y) != 0 {
					return 0, false
				}
				x = y
			}
		}
		u := t + x
		if v := u - t; (t-(u-v))+(x-v) != 0 {
			return 0, false // the sum was rounded
		}
		t = u
		if math.Abs(t) > 1<<40 {
			return 0, false
		}
	}
	return t, true
}

func holds(x float64, s sym.ConstrSense) bool {
	switch s {
	case sym.SenseLessThanEqual:
		return x <= 0
	case sym.SenseGreaterThanEqual:
		return x >= 0
	}
	return x == 0
}

// counterexample looks for a point where all of a hold and one of b does not.
func counterexample(a []Poly, sa sym.ConstrSense, b []Poly, sb sym.ConstrSense, seed uint64) map[uint64]float64 {
	ids := map[uint64]bool{}
	var order []uint64
	for _, l := range [][]Poly{a, b} {
		for _, p := range l {
			for k := range p {
				for _, f := range factors(k) {
					if !ids[f[0]] {
						ids[f[0]] = true
						order = append(order, f[0])
					}
				}
			}
		}
	}
	sortU64(order)
	test := func(at map[uint64]float64) bool {
		for _, p := range a {
			y, ok := evalAt(p, at)
			if !ok || !holds(y, sa) {
				return false
			}
		}
		for _, p := range b {
			y, ok := evalAt(p, at)
			if !ok {
				return false
			}
			if !holds(y, sb) {
				return true
			}
		}
		return false
	}
	if len(order) == 0 {
		if at := map[uint64]float64{}; test(at) {
			return at
		}
		return nil
	}
	if len(order) == 1 {
		for i := -512; i <= 512; i++ {
			if at := map[uint64]float64{order[0]: float64(i) / 16}; test(at) {
				return at
			}
		}
		return nil
	}
	r := simrt.NewRng(simrt.Mix(seed, 5))
	for try := 0; try < 400; try++ {
		at := map[uint64]float64{}
		for _, id := range order {
			at[id] = float64(r.Intn(65)-32) / float64(int(1)<<r.Intn(3))
		}
		if try%2 == 1 && len(a) > 0 {
			// move onto the boundary of one of the conditions
			p := a[r.Intn(len(a))]
			id := order[r.Intn(len(order))]
			at[id] = 0
			y0, ok0 := evalAt(p, at)
			at[id] = 1
			y1, ok1 := evalAt(p, at)
			at[id] = 0
			if ok0 && ok1 && y1 != y0 {
				if s := -y0 / (y1 - y0); s*(1<<12) == float64(int64(s*(1<<12))) {
					at[id] = s
				}
			}
		}
		if test(at) {
			return at
		}
	}
	return nil
}

func sortU64(l []uint64) {
	for i := range l {
		for k := i; k > 0 && l[k] < l[k-1]; k-- {
			l[k], l[k-1] = l[k-1], l[k]
		}
	}
}

func pointText(at map[uint64]float64) string {
	var ids []uint64
	for id := range at {
		ids = append(ids, id)
	}
	sortU64(ids)
	var s []string
	for _, id := range ids {
		s = append(s, fmt.Sprintf("v%d=%v", id, at[id]))
	}
	return strings.Join(s, " ")
}

func (j *judge) implication() {
	if j.o.kind == "panic" && j.p.recv != nil {
		name := shortFn(j.op.Fn)
		if name == "ImpliesThisIsAlsoSatisfied" || name == "IsNonnegativityConstraint" {
			_, _, _, ok := flat(j.p.recv)
			if ok && len(j.p.args) == 1 {
				_, _, _, ok = flat(j.p.args[0])
			}
			if ok {
				j.checked()
				j.fail("unanswered", "the question was not answered (%s) although every constraint in it is well-formed", j.o.why)
			}
		}
	}
	if j.o.kind != "ok" || len(j.outs) == 0 {
		return
	}
	ans, isB := j.outs[0].(bool)
	if !isB {
		return
	}
	a, sa, _, ok := flat(j.p.recv)
	if !ok {
		return
	}
	switch shortFn(j.op.Fn) {
	case "ImpliesThisIsAlsoSatisfied":
		b, sb, _, ok := flat(j.p.args[0])
		if !ok {
			return
		}
		stats.Extra[fmt.Sprintf("implication reported %v", ans)]++
		if ans {
			j.checked()
			if at := counterexample(a, sa, b, sb, uint64(j.op.ID)); at != nil {
				j.fail("unsound", "reported an implication, but at %s the first holds (%s) and the second does not (%s)", pointText(at), condText(a, sa), condText(b, sb))
			}
		}
	case "IsNonnegativityConstraint":
		if len(a) != 1 {
			return
		}
		j.checked()
		is := false
		if len(a[0]) == 1 {
			for k, c := range a[0] {
				is = keyDegree(k) == 1 && (c > 0 && sa == sym.SenseGreaterThanEqual || c < 0 && sa == sym.SenseLessThanEqual)
			}
		}
		stats.Extra[fmt.Sprintf("nonnegativity reported %v", ans)]++
		if ans && !is {
			j.fail("nonnegativity", "reported as a non-negativity constraint, but it is %s", condText(a, sa))
		}
	}
}

func condText(ps []Poly, s sym.ConstrSense) string {
	var t []string
	for _, p := range ps {
		t = append(t, fmt.Sprintf("%s %c 0", p, rune(s)))
	}
	return strings.Join(t, ", ")
}

// ---- C14 ----

func flip(s sym.ConstrSense) sym.ConstrSense {
	switch s {
	case sym.SenseLessThanEqual:
		return sym.SenseGreaterThanEqual
	case sym.SenseGreaterThanEqual:
		return sym.SenseLessThanEqual
	}
	return s
}

// equivalent: p (s) 0 and q (t) 0 are multiples of each other.
func equivalent(p Poly, s sym.ConstrSense, q Poly, t sym.ConstrSense) bool {
	if len(p) == 0 || len(q) == 0 {
		return len(p) == len(q) // 0 (any) 0 always holds
	}
	if len(p) != len(q) {
		return false
	}
	ratio := 0.0
	for k, c := range p {
		d, ok := q[k]
		if !ok {
			return false
		}
		if ratio == 0 {
			ratio = d / c
		} else if c*ratio != d && ratio != d/c {
			return false
		}
	}
	if ratio < 0 {
		s = flip(s)
	}
	return s == t
}

func (j *judge) sameConditions(ps []Poly, s sym.ConstrSense, out any, what string) {
	qs, t, _, ok := flat(out)
	if !ok {
		if con, is := out.(sym.Constraint); is && malformedValue(con) && (s == sym.SenseEqual || s == sym.SenseLessThanEqual || s == sym.SenseGreaterThanEqual) {
			l, r, t := sides(con)
			ml, mr := metaOf(l), metaOf(r)
			j.fail("malformed", "%s is malformed: its sides are %dx%d and %dx%d, its sense is %c", what, ml.rows, ml.cols, mr.rows, mr.cols, rune(t))
		}
		return
	}
	if len(ps) != len(qs) {
		j.fail("shape", "%s has %d conditions instead of %d", what, len(qs), len(ps))
		return
	}
	for i := range ps {
		if !equivalent(ps[i], s, qs[i], t) {
			j.fail("meaning", "%s says %s where by the model it is %s", what, condText(qs[i:i+1], t), condText(ps[i:i+1], s))
			return
		}
	}
}

func (j *judge) constraints() {
	fn := shortFn(j.op.Fn)
	if fn == "CompileConstraintsIntoScalarConstraints" {
		l, ok := j.p.args[0].([]sym.Constraint)
		got, ok2 := []sym.ScalarConstraint(nil), false
		if len(j.outs) > 0 {
			got, ok2 = j.outs[0].([]sym.ScalarConstraint)
		}
		if !ok || !ok2 {
			return
		}
		n := 0
		for _, c := range l {
			ps, s, _, ok := flat(c)
			if !ok {
				return
			}
			for _, p := range ps {
				if n >= len(got) {
					j.fail("lost", "gives only %d conditions", len(got))
					return
				}
				j.sameConditions([]Poly{p}, s, got[n], fmt.Sprintf("condition %d", n))
				n++
			}
		}
		j.checked()
		if n != len(got) {
			j.fail("extra", "gives %d conditions instead of %d", len(got), n)
		}
		return
	}
	if j.op.Recv < 0 {
		return
	}
	con, isCon := j.p.recv.(sym.Constraint)
	if !isCon {
		sense := sym.ConstrSense(0)
		switch fn {
		case "LessEq":
			sense = sym.SenseLessThanEqual
		case "GreaterEq":
			sense = sym.SenseGreaterThanEqual
		case "Eq":
			sense = sym.SenseEqual
		case "Comparison":
			sense, _ = j.p.args[1].(sym.ConstrSense)
		default:
			return
		}
		if j.o.kind != "ok" || len(j.outs) == 0 {
			j.x.checkAccept(j.prop, j.op, j.p, j.o)
			return
		}
		j.x.checkAccept(j.prop, j.op, j.p, j.o)
		_, m, ok := j.subject()
		a, ok2 := j.md.of(j.op.Args[0], j.p.args[0])
		if !ok || !ok2 || !wellFormed(j.p.args[0]) {
			return
		}
		var d Mat
		func() {
			defer func() {
				if r := recover(); r != nil {
					ok = false
				}
			}()
			d, ok2 = mAdd(m, mScale(a, -1))
		}()
		if !ok || !ok2 {
			return
		}
		j.checked()
		j.sameConditions(d.e, sense, j.outs[0], "the constraint")
		return
	}
	ps, s, shape, ok := flat(con)
	if !ok {
		return
	}
	if j.o.kind != "ok" || len(j.outs) == 0 {
		if strings.HasPrefix(fn, "Linear") && len(j.p.args) == 1 && len(varList(j.p.args[0])) > 0 &&
			(s == sym.SenseEqual) == (fn == "LinearEqualityConstraintRepresentation") {
			l, r, _ := sides(con)
			_, h1 := degrees(l, Mat{})
			_, h2 := degrees(r, Mat{})
			j.mustAccept(h1 <= 1 && h2 <= 1 && h1+h2 > 0)
		}
		j.mustAccept(fn == "AsSimplifiedConstraint" || fn == "Simplify" || fn == "ScaleBy")
		j.x.checkAccept(j.prop, j.op, j.p, j.o)
		return
	}
	j.x.checkAccept(j.prop, j.op, j.p, j.o)
	switch fn {
	case "AsSimplifiedConstraint", "Simplify":
		j.checked()
		j.sameConditions(ps, s, j.outs[0], "the simplified constraint")
		if out, ok := j.outs[0].(sym.Constraint); ok {
			_, r, _ := sides(out)
			if mr, ok := denote(r); ok {
				if need, _ := varSets(r, mr); len(need) > 0 {
					j.fail("right", "variables are left on the right: %s", mr)
				}
			}
		}
	case "ScaleBy":
		f, _ := j.p.args[0].(float64)
		if f == 0 {
			return
		}
		j.checked()
		j.sameConditions(ps, s, j.outs[0], "the scaled constraint")
	case "AtVec":
		i, _ := j.p.args[0].(int)
		if i >= 0 && i < len(ps) {
			j.checked()
			j.sameConditions(ps[i:i+1], s, j.outs[0], "the element")
		}
	case "At":
		i, _ := j.p.args[0].(int)
		k, _ := j.p.args[1].(int)
		if i >= 0 && k >= 0 && i < shape[0] && k < shape[1] {
			j.checked()
			n := i*shape[1] + k
			j.sameConditions(ps[n:n+1], s, j.outs[0], "the element")
		}
	case "LinearInequalityConstraintRepresentation", "LinearEqualityConstraintRepresentation":
		if len(j.outs) < 2 {
			return
		}
		A, ok1 := denoteLoose(j.outs[0])
		b, ok2 := denoteLoose(j.outs[1])
		var vars []sym.Variable
		switch len(j.p.args) {
		case 0:
			// all of them, in an order of the library's choice
			if ok1 && ok2 {
				j.columns(con, ps, s, A, b)
			}
			return
		case 1:
			vars = varList(j.p.args[0])
		}
		if !ok1 || !ok2 || len(vars) == 0 {
			return
		}
		for _, p := range ps {
			for k := range p {
				if keyDegree(k) > 1 {
					j.fail("nonlinear", "a condition that is not linear was given coefficients")
					return
				}
			}
		}
		if _, isS := con.(sym.ScalarConstraint); isS {
			A = mT(A)
		}
		j.checked()
		if A.r != len(ps) || A.c != len(vars) || b.r != len(ps) {
			j.fail("shape", "answered %dx%d coefficients and %d bounds for %d conditions and %d variables", A.r, A.c, b.r, len(ps), len(vars))
			return
		}
		if fn == "LinearInequalityConstraintRepresentation" && s == sym.SenseEqual || fn == "LinearEqualityConstraintRepresentation" && s != sym.SenseEqual {
			j.fail("sense", "gave a representation for a constraint of the other kind")
			return
		}
		sign := 1.0
		if s == sym.SenseGreaterThanEqual {
			sign = -1
		}
		for i, p := range ps {
			if got, want := b.at(i, 0)[""], -sign*p[""]; got != want {
				j.fail("bound", "bound %d is %v, by the model it is %v", i, got, want)
			}
			for k, v := range vars {
				if got, want := A.at(i, k)[""], sign*p[mkKey(map[uint64]int{v.ID: 1})]; got != want {
					j.fail("coefficient", "coefficient of v%d in condition %d is %v, by the model it is %v", v.ID, i, got, want)
				}
			}
		}
	}
}

// columns judges coefficients given for all variables, in any order.
func (j *judge) columns(con sym.Constraint, ps []Poly, s sym.ConstrSense, A, b Mat) {
	if _, isS := con.(sym.ScalarConstraint); isS {
		A = mT(A)
	}
	sign := 1.0
	if s == sym.SenseGreaterThanEqual {
		sign = -1
	}
	want := map[string]int{}
	ids := map[uint64]bool{}
	for _, p := range ps {
		for k := range p {
			if keyDegree(k) > 1 {
				j.fail("nonlinear", "a condition that is not linear was given coefficients")
				return
			}
			for _, f := range factors(k) {
				ids[f[0]] = true
			}
		}
	}
	for id := range ids {
		var c []float64
		for _, p := range ps {
			c = append(c, sign*p[mkKey(map[uint64]int{id: 1})]+0)
		}
		want[fmt.Sprint(c)]++
	}
	j.checked()
	if A.r != len(ps) || b.r != len(ps) {
		j.fail("shape", "answered %d rows of coefficients and %d bounds for %d conditions", A.r, b.r, len(ps))
		return
	}
	for k := 0; k < A.c; k++ {
		var c []float64
		zero := true
		for i := range ps {
			x := A.at(i, k)[""]
			zero = zero && x == 0
			c = append(c, x+0)
		}
		if zero {
			continue
		}
		t := fmt.Sprint(c)
		if want[t] == 0 {
			j.fail("column", "column %d is %s, which are no variable's coefficients in %s", k, t, condText(ps, s))
			return
		}
		want[t]--
	}
	for t, n := range want {
		if n > 0 {
			j.fail("column", "no column gives a variable's coefficients %s in %s", t, condText(ps, s))
			return
		}
	}
	for i, p := range ps {
		if got, want := b.at(i, 0)[""], -sign*p[""]; got != want {
			j.fail("bound", "bound %d is %v, by the model it is %v", i, got, want)
		}
	}
}

// ---- C15 ----

func (j *judge) misfit() {
	accepted := j.o.kind == "ok" && !returnedError(j.outs)
	why := j.misfitWhy()
	if why == "" {
		return
	}
	j.checked()
	stats.Extra["misfit: "+why]++
	if accepted {
		j.fail("accepted", "was accepted although %s", why)
	}
}

func (j *judge) misfitWhy() string {
	fn := shortFn(j.op.Fn)
	args := j.p.args
	shape := func(v any) (meta, bool) {
		switch v.(type) {
		case sym.Expression, mat.Dense, mat.VecDense, *mat.Dense, *mat.VecDense, float64, int:
			if isEnv(v) {
				return meta{}, false
			}
			m := metaOf(v)
			switch v.(type) {
			case float64, int:
				m.rows, m.cols = 1, 1
			}
			return m, !m.bad && m.rows > 0 && m.cols > 0
		}
		return meta{}, false
	}
	one := func(m meta) bool { return m.rows == 1 && m.cols == 1 }
	if fn == "From" && len(args) == 1 {
		if rows, ok := args[0].([][]float64); ok {
			for _, r := range rows {
				if len(r) != len(rows[0]) {
					return "the rows differ in length"
				}
			}
		}
	}
	var a meta
	okA := false
	rest := args
	if j.op.Recv >= 0 {
		if con, ok := j.p.recv.(sym.Constraint); ok {
			l, r, _ := sides(con)
			ml, mr := metaOf(l), metaOf(r)
			if ml.bad || mr.bad || ml.rows != mr.rows || ml.cols != mr.cols {
				return ""
			}
			a, okA = ml, true
		} else {
			a, okA = shape(j.p.recv)
		}
	} else if len(args) > 0 {
		a, okA = shape(args[0])
		rest = args[1:]
	}
	if !okA {
		return ""
	}
	var b meta
	okB := false
	if len(rest) > 0 {
		switch rest[0].(type) {
		case nil:
			switch fn {
			case "Plus", "Minus", "Multiply", "LessEq", "GreaterEq", "Eq", "Comparison":
				return "the operand is nil"
			}
		case string:
			switch fn {
			case "Plus", "Minus", "Multiply", "LessEq", "GreaterEq", "Eq", "Comparison":
				return "the operand is a string"
			}
		}
		b, okB = shape(rest[0])
	}
	differ := okB && !one(a) && !one(b) && (a.rows != b.rows || a.cols != b.cols)
	switch fn {
	case "Plus", "Minus", "LessEq", "GreaterEq", "Eq", "Comparison", "MatrixPlusTemplate", "VectorPlusTemplate":
		if differ {
			return "the shapes differ"
		}
	case "Multiply", "MatrixMultiplyTemplate":
		if okB && !one(a) && !one(b) && a.cols != b.rows {
			return "the inner dimensions differ"
		}
	case "Power", "MatrixPowerTemplate", "ScalarPowerTemplate", "VectorPowerTemplate":
		n, ok := rest[0].(int)
		if ok && n < 0 {
			return "the exponent is negative"
		}
		if ok && a.rows != a.cols {
			return "the value is not square"
		}
	case "AtVec":
		i, ok := rest[0].(int)
		if ok && (i < 0 || i >= a.rows*a.cols) {
			return "the index is out of range"
		}
	case "At":
		i, ok1 := rest[0].(int)
		k, ok2 := rest[1].(int)
		if ok1 && ok2 && (i < 0 || k < 0 || i >= a.rows || k >= a.cols) {
			return "the index is out of range"
		}
	case "HStack", "VStack":
		for _, y := range args {
			m, ok := shape(y)
			if !ok {
				return ""
			}
			if fn == "HStack" && m.rows != a.rows || fn == "VStack" && m.cols != a.cols {
				return "the pieces do not fit"
			}
		}
	case "Substitute", "SubstituteAccordingTo":
		if m, ok := args[0].(map[sym.Variable]sym.Expression); ok {
			occurs := map[uint64]bool{}
			collectIDs(j.p.recv, occurs)
			for v, e := range m {
				if x, ok := shape(e); ok && !x.scalar && occurs[v.ID] {
					return "an image is not a scalar"
				}
			}
		}
	}
	return ""
}

// ---- C16 ----

// parseText reads an expression's text: its elements, row by row, with
// numbers as they stand, whether the model can represent them or not.
func parseText(s string, ids map[string]uint64) ([]Poly, error) {
	if i := strings.IndexByte(s, '='); i >= 0 {
		s = s[i+1:]
	}
	s = strings.NewReplacer("[", " ", "]", " ", "\n", " ").Replace(s)
	var out []Poly
	parts := strings.Split(s, ",")
	for i, e := range parts {
		e = strings.TrimSpace(e)
		if e == "" && i > 0 {
			continue // rows may end in a comma
		}
		p, err := parsePoly(e, ids)
		if err != nil {
			return nil, err
		}
		out = append(out, p)
	}
	return out, nil
}

func parsePoly(s string, ids map[string]uint64) (p Poly, err error) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(errModel); !is {
				panic(r)
			}
			p, err = nil, nil
		}
	}()
	p = Poly{}
	sign := 1.0
	for {
		i, op := len(s), byte(0)
		for k := 0; k+2 < len(s); k++ {
			if s[k] == ' ' && (s[k+1] == '+' || s[k+1] == '-') && s[k+2] == ' ' {
				i, op = k, s[k+1]
				break
			}
		}
		t := strings.TrimSpace(s[:i])
		if t == "" {
			return nil, fmt.Errorf("a term is missing")
		}
		c, key, e := parseTerm(t, ids)
		if e != nil {
			return nil, e
		}
		if p[key] += sign * c; p[key] == 0 {
			delete(p, key)
		}
		if op == 0 {
			break
		}
		sign = 1
		if op == '-' {
			sign = -1
		}
		s = s[i+3:]
	}
	return p, nil
}

func parseTerm(t string, ids map[string]uint64) (c float64, key string, err error) {
	c = 1
	neg := false
	i := 0
	if t[0] == '-' || t[0] == '+' {
		neg = t[0] == '-'
		i++
	}
	k := i
	for k < len(t) && (t[k] >= '0' && t[k] <= '9' || t[k] == '.' || k > i && (t[k] == 'e' || t[k] == 'E') && k+1 < len(t) && (t[k+1] == '+' || t[k+1] == '-' || t[k+1] >= '0' && t[k+1] <= '9') || k > i && (t[k] == '+' || t[k] == '-') && (t[k-1] == 'e' || t[k-1] == 'E')) {
		k++
	}
	if k > i {
		if _, err = fmt.Sscanf(t[i:k], "%g", &c); err != nil {
			return 0, "", err
		}
	}
	if neg {
		c = -c
	}
	fs := map[uint64]int{}
	if k == len(t) && k == len(t[:i]) {
		return 0, "", fmt.Errorf("a sign without a number or variable")
	}
	for k < len(t) {
		switch t[k] {
		case ' ', '*':
			k++
			continue
		}
		name := ""
		for n := range ids {
			if len(n) > len(name) && strings.HasPrefix(t[k:], n) {
				name = n
			}
		}
		if name == "" {
			return 0, "", fmt.Errorf("no variable is called as in %q", t[k:])
		}
		k += len(name)
		ex := 1
		if k < len(t) && t[k] == '^' {
			k++
			ex = 0
			k0 := k
			for k < len(t) && t[k] >= '0' && t[k] <= '9' {
				ex = ex*10 + int(t[k]-'0')
				k++
			}
			if k == k0 {
				return 0, "", fmt.Errorf("an exponent is missing in %q", t)
			}
		}
		fs[ids[name]] += ex
	}
	return c, mkKey(fs), nil
}

// asWritten reads a value for comparison with its text. Terms are added in the
// order in which they stand, as they are when the text is read, so that large
// coefficients need not be exact.
func asWritten(v any) (Mat, bool) {
	m, ok := denoteLoose(v)
	for _, p := range m.e {
		for _, c := range p {
			ok = ok && math.Abs(c) <= 1e80
		}
	}
	return m, ok
}

func (j *judge) text() {
	if shortFn(j.op.Fn) != "String" || j.op.Recv < 0 {
		return
	}
	if j.o.kind != "ok" || len(j.outs) == 0 {
		j.mustAccept(true)
		return
	}
	s, ok := j.outs[0].(string)
	if !ok {
		return
	}
	ids := map[string]uint64{}
	for _, v := range j.w.vars {
		if x, dup := ids[v.Name]; dup && x != v.ID {
			return
		}
		ids[v.Name] = v.ID
	}
	compare := func(part, s string, m Mat) {
		got, err := parseText(s, ids)
		if err != nil {
			j.fail("unreadable", "%s%q cannot be read: %v; the value is %s", part, clip(s), err, m)
			return
		}
		if len(got) != len(m.e) {
			j.fail("elements", "%s%q shows %d elements of %d", part, clip(s), len(got), len(m.e))
			return
		}
		for i := range got {
			if got[i] != nil && !pEqual(got[i], m.e[i]) {
				j.fail("text", "%s%q reads as %s in element %d, which is %s", part, clip(s), got[i], i, m.e[i])
				return
			}
		}
	}
	if con, ok := j.p.recv.(sym.Constraint); ok {
		if malformedValue(con) {
			return
		}
		l, r, t := sides(con)
		ml, ok1 := asWritten(l)
		mr, ok2 := asWritten(r)
		var ts string
		switch t {
		case sym.SenseLessThanEqual:
			ts = " <= "
		case sym.SenseGreaterThanEqual:
			ts = " >= "
		case sym.SenseEqual:
			ts = " = "
		}
		if _, is := con.(sym.ScalarConstraint); !is || !ok1 || !ok2 || ts == "" {
			return
		}
		j.checked()
		a, b, found := strings.Cut(s, ts)
		if !found {
			j.fail("sense", "%q does not show the sense %s", clip(s), ts)
			return
		}
		compare("left side of ", a, ml)
		compare("right side of ", b, mr)
		return
	}
	m, ok := asWritten(j.p.recv)
	if !ok || metaOf(j.p.recv).mal || metaOf(j.p.recv).badVar {
		return
	}
	j.checked()
	compare("", s, m)
	for name := range ids {
		if strings.ContainsAny(name, "[],=\n") {
			return
		}
	}
	j.layout(s)
}

// layout compares the rows a text shows with those of the value: a vector is a
// list of elements, a matrix a list of lists.
func (j *judge) layout(s string) {
	var want []int
	m := metaOf(j.p.recv)
	_, isM := j.p.recv.(sym.MatrixExpression)
	_, isV := j.p.recv.(sym.VectorExpression)
	switch {
	case isM:
		for i := 0; i < m.rows; i++ {
			want = append(want, m.cols)
		}
	case isV:
		want = []int{m.rows}
	default:
		return
	}
	if i := strings.IndexByte(s, '='); i >= 0 {
		s = s[i+1:]
	}
	var got []int
	depth, inner := 0, 1
	if isM {
		inner = 2
	}
	pending, listed := false, false // an element or list was read since the last comma
	bad := func(why string) {
		j.fail("layout", "%q cannot be read as a list of %d lists: %s", clip(s), len(want), why)
	}
	for _, c := range strings.TrimSpace(s) {
		switch {
		case c == '[':
			if depth++; depth > inner || pending {
				bad("a bracket too many is opened")
				return
			}
			if depth == inner {
				got = append(got, 0)
			}
			listed = true
		case c == ']':
			if depth == inner && pending {
				got[len(got)-1]++
			}
			if depth--; depth < 0 {
				bad("a bracket too many is closed")
				return
			}
			pending = true
		case c == ',':
			if !pending || depth == 0 {
				bad("nothing stands before a comma")
				return
			}
			if depth == inner {
				got[len(got)-1]++
			}
			pending = false
		case c != ' ' && c != '\n':
			if depth != inner {
				bad("an element stands outside the lists")
				return
			}
			pending = true
		}
	}
	if depth != 0 || !listed {
		bad("brackets are left open or missing")
		return
	}
	if fmt.Sprint(got) != fmt.Sprint(want) {
		j.fail("layout", "%q shows lists of %v elements; the value has %v", clip(s), got, want)
	}
}

// ---- C17 ----

// malformed values must not pass for well-formed ones.
func malformedValue(v any) bool {
	switch x := v.(type) {
	case sym.Constraint:
		l, r, s := sides(x)
		ml, mr := metaOf(l), metaOf(r)
		return malformedValue(l) || malformedValue(r) || ml.rows != mr.rows || ml.cols != mr.cols ||
			(s != sym.SenseEqual && s != sym.SenseLessThanEqual && s != sym.SenseGreaterThanEqual)
	case sym.Variable:
		return metaOf(x).mal
	case sym.K, sym.KVector, sym.KMatrix:
		return false // documented as always well formed
	case sym.VariableVector:
		return len(x) > 0 && metaOf(x).mal // an empty one passes for well formed
	case sym.Expression:
		return metaOf(x).mal
	}
	return false
}

// malformedFns are the package-level functions that compute with expressions
// or classify them.
var malformedFns = map[string]bool{"Minus": true, "MatrixPlusTemplate": true, "MatrixMultiplyTemplate": true, "MatrixPowerTemplate": true,
	"MatrixSubstituteTemplate": true, "VectorPlusTemplate": true, "VectorMultiplyTemplate": true, "VectorPowerTemplate": true,
	"VectorSubstituteTemplate": true, "ScalarPowerTemplate": true, "IsLinear": true, "IsQuadratic": true}

func (j *judge) malformed() {
	fn := shortFn(j.op.Fn)
	is := j.op.Recv >= 0 && malformedValue(j.p.recv)
	switch fn {
	case "AtVec":
		if _, ok := j.p.recv.(sym.VariableVector); ok {
			return
		}
	case "Left", "Right", "ConstrSense", "Variables", "Dims", "Len", "Copy", "HStack", "VStack", "Transpose", "AsSimplifiedExpression":
		return // looking at the pieces
	case "Plus", "Minus", "Multiply", "LessEq", "GreaterEq", "Eq", "Comparison", "ImpliesThisIsAlsoSatisfied":
		for _, a := range j.p.args {
			is = is || malformedValue(a)
		}
	}
	if j.op.Recv < 0 && malformedFns[fn] {
		for _, a := range j.p.args {
			switch a.(type) {
			case sym.Variable, sym.VariableVector, sym.VariableMatrix:
				if strings.HasPrefix(fn, "Is") {
					continue // of degree one whatever they hold
				}
			}
			is = is || malformedValue(a)
		}
	}
	if !is || isEnv(j.p.recv) {
		return
	}
	if _, con := j.p.recv.(sym.Constraint); con && fn != "Check" && !strings.HasPrefix(fn, "Linear") {
		return // constraints are examined when they are checked
	}
	j.checked()
	if j.o.kind == "ok" && !returnedError(j.outs) {
		j.fail("accepted", "was accepted although an operand is malformed; gave %v", show(j.outs[0]))
	}
}
