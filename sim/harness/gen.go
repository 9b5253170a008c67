package main

import (
	"reflect"
	"sort"
	"strings"

	sym "SIMMODULE/symbolic"
	"SIMMODULE/verifsim/simrt"
)

// Profile steers what operations are generated.
type Profile struct {
	Weight    func(recv any, name string) int // 0: never; nil: default
	FnWeight  func(name string) int
	FnShare   float64 // share of package-level functions
	Bad       float64 // share of unsuitable arguments
	Fault     float64 // share of operations with a failing caller-supplied part
	Callback  float64 // share of arguments handed over inside a callback expression
	Fresh     float64 // preference for results over pool values
	BadUse    float64 // share of the draws of a malformed value that are kept
	MaxTerms  int
	MaxAbs    float64 // larger coefficients are not built upon
	NoPrivate bool    // values and environments of other tasks are not used
	EnvAlways bool    // variables are never created in the default environment
}

func (p *Profile) badUse() float64 {
	if p.BadUse > 0 {
		return p.BadUse
	}
	return 0.3
}

// Gen generates operations against the values of a world.
type Gen struct {
	fn    string // full name of the function whose arguments are picked
	w     *World
	r     *simrt.Rng
	p     *Profile
	avail []int
	nOps  int
	used  map[int]int // times a slot was used as an operand
	metas map[int]meta
}

func newGen(w *World, r *simrt.Rng, p *Profile) *Gen {
	return &Gen{w: w, r: r, p: p, used: map[int]int{}, metas: map[int]meta{}}
}

func (g *Gen) meta(slot int) meta {
	if m, ok := g.metas[slot]; ok {
		return m
	}
	m := metaOf(g.w.vals[slot])
	g.metas[slot] = m
	return m
}

func (g *Gen) wideOr(usual, wide int) int {
	if g.w.wide > 0 {
		return wide
	}
	return usual
}

func (g *Gen) maxTerms() int { return g.p.MaxTerms * g.wideOr(1, 4) }

func (g *Gen) maxAbs() float64 {
	if g.p.MaxAbs > 0 {
		return g.p.MaxAbs
	}
	return 1 << 21
}

func (g *Gen) maxDeg() int {
	if g.w.wide == widePowers {
		return 20
	}
	return 7
}

// usable: large or inexact values are not built upon.
func (g *Gen) usable(slot int) bool {
	if g.w.dead[slot] {
		return false
	}
	m := g.meta(slot)
	if m.terms > g.maxTerms() || m.deg > g.maxDeg() || m.maxAbs > g.maxAbs() {
		return false
	}
	if _, is := g.w.vals[slot].([][]float64); is {
		return true
	}
	if m.mal || m.bad && g.p.MaxAbs == 0 {
		return slot < g.w.pool && g.r.Chance(g.p.badUse())
	}
	return true
}

func (g *Gen) pick(f func(slot int, v any) bool) int {
	n, best := 0.0, -1
	for _, s := range g.avail {
		if !g.w.set[s] || g.w.vals[s] == nil || !g.usable(s) || !f(s, g.w.vals[s]) {
			continue
		}
		wt := 1.0
		if s >= g.w.pool {
			wt = 1 + g.p.Fresh
		}
		n += wt
		if g.r.Float() < wt/n {
			best = s
		}
	}
	return best
}

func defaultWeight(name string) int {
	switch name {
	case "Plus", "Multiply":
		return 7
	case "Minus":
		return 5
	case "DerivativeWrt", "Substitute", "SubstituteAccordingTo":
		return 4
	case "Power", "AsSimplifiedExpression", "Simplify", "Transpose":
		return 3
	case "At", "AtVec", "Copy", "Variables", "LinearCoeff", "Constant", "AsSimplifiedConstraint":
		return 2
	case "GetName":
		return 0
	}
	return 1
}

var methodCache = map[reflect.Type][]string{}

func methodsOf(v any) []string {
	t := reflect.TypeOf(v)
	if m, ok := methodCache[t]; ok {
		return m
	}
	var out []string
	for i := 0; i < t.NumMethod(); i++ {
		out = append(out, t.Method(i).Name)
	}
	sort.Strings(out)
	methodCache[t] = out
	return out
}

var fnNames []string

func fnList() []string {
	if fnNames == nil {
		for n := range libFuncs {
			fnNames = append(fnNames, n)
		}
		sort.Strings(fnNames)
	}
	return fnNames
}

func shortFn(n string) string { return n[strings.LastIndexByte(n, '.')+1:] }

func defaultFnWeight(n string) int {
	switch shortFn(n) {
	case "MakeBasicEnvironment":
		return 0
	case "NewVariable", "NewContinuousVariable", "NewBinaryVariable", "NewVariableVector", "NewVariableMatrix", "NewVariableMatrixClassic":
		return 0
	case "HStack", "VStack", "Minus", "ConcretizeExpression", "ConcretizeVectorExpression", "ConcretizeMatrixExpression":
		return 5
	case "MatrixMultiplyTemplate", "MatrixPlusTemplate", "VectorPlusTemplate", "VectorMultiplyTemplate", "MatrixPowerTemplate", "ScalarPowerTemplate",
		"VectorPowerTemplate", "MatrixSubstituteTemplate", "VectorSubstituteTemplate":
		return 3
	case "From", "VecDenseToKVector", "DenseToKMatrix", "UniqueVars", "UnionOfVariables", "VariablesInThisConstraint", "CompileConstraintsIntoScalarConstraints":
		return 2
	}
	return 1
}

// op generates one operation; ok is false when nothing suitable was found.
func (g *Gen) op(id int) (op Op, ok bool) {
	for try := 0; try < 12; try++ {
		if g.r.Chance(g.p.FnShare) {
			op, ok = g.fnOp(id)
		} else {
			op, ok = g.methodOp(id)
		}
		if ok {
			return op, true
		}
	}
	return Op{}, false
}

func (g *Gen) methodOp(id int) (Op, bool) {
	recv := g.pick(func(s int, v any) bool {
		switch v.(type) {
		case sym.Expression, sym.Constraint:
			return true
		case sym.Environment:
			return g.p.Weight != nil
		}
		return false
	})
	if recv < 0 {
		return Op{}, false
	}
	v := g.w.vals[recv]
	ms := methodsOf(v)
	weight := func(n string) int {
		if g.p.Weight != nil {
			return g.p.Weight(v, n)
		}
		return defaultWeight(n)
	}
	total := 0
	for _, n := range ms {
		total += weight(n)
	}
	if total == 0 {
		return Op{}, false
	}
	x := g.r.Intn(total)
	name := ""
	for _, n := range ms {
		x -= weight(n)
		if x < 0 {
			name = n
			break
		}
	}
	mt := reflect.ValueOf(v).MethodByName(name).Type()
	args, ok := g.args(name, recv, mt)
	if !ok {
		return Op{}, false
	}
	op := Op{ID: id, Fn: name, Recv: recv, Args: args}
	if g.r.Chance(g.p.Callback * 0.5) {
		if e, is := faulty(v); is {
			if _, has := reflect.TypeOf(e).MethodByName(name); has {
				op.Wrap = true
			}
		}
	}
	g.use(&op)
	return op, true
}

func (g *Gen) use(op *Op) {
	if op.Recv >= 0 {
		g.used[op.Recv]++
	}
	var mark func(a Arg)
	mark = func(a Arg) {
		if a.K == "slot" || a.K == "faulty" || a.K == "ptr" {
			g.used[a.S]++
		}
		for _, x := range a.L {
			mark(x)
		}
	}
	for _, a := range op.Args {
		mark(a)
	}
}

func (g *Gen) fnOp(id int) (Op, bool) {
	weight := defaultFnWeight
	if g.p.FnWeight != nil {
		weight = g.p.FnWeight
	}
	total := 0
	for _, n := range fnList() {
		total += weight(n)
	}
	if total == 0 {
		return Op{}, false
	}
	x := g.r.Intn(total)
	name := ""
	for _, n := range fnList() {
		x -= weight(n)
		if x < 0 {
			name = n
			break
		}
	}
	g.fn = name
	args, ok := g.args(shortFn(name), -1, libFuncs[name].Type())
	if !ok {
		return Op{}, false
	}
	op := Op{ID: id, Fn: name, Recv: -1, Args: args}
	g.use(&op)
	return op, true
}

func slotArg(s int) Arg { return Arg{K: "slot", S: s} }
func intArg(n int) Arg  { return Arg{K: "int", N: float64(n)} }
func isNumeric(v any) bool {
	switch v.(type) {
	case sym.K, sym.KVector, sym.KMatrix:
		return true
	}
	return false
}

// compat says whether b's shape suits the operation on a.
func compat(name string, a, b meta) bool {
	switch name {
	case "Multiply", "MatrixMultiplyTemplate", "VectorMultiplyTemplate":
		return a.cols == b.rows || (b.rows == 1 && b.cols == 1) || (a.rows == 1 && a.cols == 1)
	case "Plus", "Minus", "MatrixPlusTemplate", "VectorPlusTemplate":
		return (a.rows == b.rows && a.cols == b.cols) || (b.rows == 1 && b.cols == 1) || (a.rows == 1 && a.cols == 1)
	}
	return a.rows == b.rows && a.cols == b.cols
}

func (g *Gen) cost(name string, a, b meta) bool {
	switch name {
	case "Multiply", "MatrixMultiplyTemplate", "VectorMultiplyTemplate":
		inner := max(1, a.cols)
		return a.terms*b.terms/max(1, min(a.rows*a.cols, b.rows*b.cols))*inner <= g.p.MaxTerms*g.wideOr(3, 6) && a.deg+b.deg <= g.maxDeg()+1
	case "Plus", "Minus", "MatrixPlusTemplate", "VectorPlusTemplate":
		return a.terms+b.terms <= g.p.MaxTerms*g.wideOr(2, 5)
	}
	return true
}

// varOf picks a variable, preferably one that occurs in the value.
func (g *Gen) varOf(slot int) int {
	if slot >= 0 && g.r.Chance(0.75) {
		ids := map[uint64]bool{}
		collectIDs(g.w.vals[slot], ids)
		if s := g.pick(func(s int, v any) bool { x, ok := v.(sym.Variable); return ok && ids[x.ID] }); s >= 0 {
			return s
		}
	}
	return g.pick(func(s int, v any) bool { _, ok := v.(sym.Variable); return ok })
}

func collectIDs(v any, ids map[uint64]bool) {
	mono := func(m sym.Monomial) {
		for _, x := range m.VariableFactors {
			ids[x.ID] = true
		}
	}
	switch x := v.(type) {
	case sym.Variable:
		ids[x.ID] = true
	case sym.Monomial:
		mono(x)
	case sym.Polynomial:
		for _, m := range x.Monomials {
			mono(m)
		}
	case sym.ScalarConstraint:
		collectIDs(x.LeftHandSide, ids)
		collectIDs(x.RightHandSide, ids)
	case sym.VectorConstraint:
		collectIDs(x.LeftHandSide, ids)
		collectIDs(x.RightHandSide, ids)
	case sym.MatrixConstraint:
		collectIDs(x.LeftHandSide, ids)
		collectIDs(x.RightHandSide, ids)
	default:
		rv := reflect.ValueOf(v)
		if rv.Kind() == reflect.Slice {
			for i := 0; i < rv.Len(); i++ {
				collectIDs(rv.Index(i).Interface(), ids)
			}
		}
	}
}

func (g *Gen) maybeFaulty(slot int) Arg {
	if g.r.Chance(g.p.Callback) {
		if _, ok := faulty(g.w.vals[slot]); ok {
			return Arg{K: "faulty", S: slot}
		}
	}
	return slotArg(slot)
}

func (g *Gen) args(name string, recv int, t reflect.Type) ([]Arg, bool) {
	var rm meta
	if recv >= 0 {
		rm = g.meta(recv)
	}
	n := t.NumIn()
	fixed := n
	if t.IsVariadic() {
		fixed--
	}
	var out []Arg
	prev := recv // the operand the next one has to suit
	for i := 0; i < fixed; i++ {
		a, ok := g.arg(name, i, prev, rm, t.In(i))
		if !ok {
			return nil, false
		}
		if prev < 0 && a.K == "slot" {
			if _, isE := g.w.vals[a.S].(sym.Expression); isE {
				prev = a.S
				rm = g.meta(a.S)
			}
		}
		out = append(out, a)
	}
	if t.IsVariadic() {
		el := t.In(fixed).Elem()
		k := 0
		switch {
		case el == tVars: // wrt
			if g.r.Chance(0.6) {
				k = 1
			}
			if g.r.Chance(0.03) {
				k = 2
			}
		case el == tEnv:
			k = g.r.Intn(2)
			if g.p.EnvAlways || g.r.Chance(0.85) {
				k = 1
			}
		case el == tExpr:
			k = 1 + g.r.Intn(3)
		default:
			k = g.r.Intn(3)
		}
		if name == "UnionOfVariables" {
			k = 1 + g.r.Intn(3)
		}
		for j := 0; j < k; j++ {
			a, ok := g.arg(name, fixed+j, prev, rm, el)
			if !ok {
				return nil, false
			}
			if prev < 0 && a.K == "slot" {
				prev = a.S
				rm = g.meta(a.S)
			}
			out = append(out, a)
		}
	}
	return out, true
}

func (g *Gen) arg(name string, i, prev int, rm meta, t reflect.Type) (Arg, bool) {
	bad := g.r.Chance(g.p.Bad)
	found := func(s int) (Arg, bool) {
		if s < 0 {
			return Arg{}, false
		}
		return g.maybeFaulty(s), true
	}
	assignable := func(v any) bool { return reflect.TypeOf(v).AssignableTo(t) }
	switch {
	case t == tVar:
		s := g.varOf(prev)
		if s < 0 {
			return Arg{}, false
		}
		return slotArg(s), true
	case t == tSense:
		if bad && g.r.Chance(0.3) {
			return Arg{K: "sense", T: "x"}, true
		}
		return Arg{K: "sense", T: string(rune([]sym.ConstrSense{sym.SenseEqual, sym.SenseLessThanEqual, sym.SenseGreaterThanEqual}[g.r.Intn(3)]))}, true
	case t == tMap:
		if bad && g.r.Chance(0.3) {
			// a vector as an image, or a malformed one
			v := g.varOf(prev)
			e := g.pick(func(s int, v any) bool { x, ok := v.(sym.Expression); _ = x; return ok && !g.meta(s).scalar })
			if v >= 0 && e >= 0 {
				a := Arg{K: "map", T: "map"}
				if g.r.Chance(0.5) {
					// among others that fit
					if b, ok := g.mapArg(prev, rm, 10); ok {
						a = b
					}
				}
				a.L = append(a.L, slotArg(v), slotArg(e))
				return a, true
			}
		}
		if s := g.pick(func(s int, v any) bool {
			_, ok := v.(map[sym.Variable]sym.Expression)
			return ok && g.substOK(rm, g.meta(s))
		}); s >= 0 && g.r.Chance(0.5) {
			return slotArg(s), true
		}
		return g.mapArg(prev, rm, 4)
	case t == tScalar:
		s := g.pick(func(s int, v any) bool {
			if !assignable(v) {
				return false
			}
			if strings.Contains(name, "Substitute") {
				return g.substOK(rm, g.meta(s))
			}
			return true
		})
		return found(s)
	case t == tExpr || t == tVector || t == tMatrix:
		s := g.pick(func(s int, v any) bool {
			if !assignable(v) {
				return false
			}
			m := g.meta(s)
			if prev >= 0 && !bad {
				switch name {
				case "HStack":
					return m.rows == rm.rows
				case "VStack":
					return m.cols == rm.cols
				}
				if !compat(name, rm, m) {
					return false
				}
			}
			return g.cost(name, rm, m)
		})
		return found(s)
	case t == tConstr:
		s := g.pick(func(s int, v any) bool { return assignable(v) })
		return found(s)
	case t == tMono:
		s := g.pick(func(s int, v any) bool { return assignable(v) })
		return found(s)
	case t == tEnv:
		s := g.pick(func(s int, v any) bool { return assignable(v) })
		return found(s)
	case t == tVars:
		if s := g.pick(func(s int, v any) bool { return assignable(v) }); s >= 0 && g.r.Chance(0.6) {
			return slotArg(s), true
		}
		a := Arg{K: "list", T: "Variable"}
		for k := 1 + g.r.Intn(4); k > 0; k-- {
			if s := g.varOf(prev); s >= 0 {
				a.L = append(a.L, slotArg(s))
			}
		}
		return a, true
	case t == tScalars:
		if s := g.pick(func(s int, v any) bool { return assignable(v) }); s >= 0 && g.r.Chance(0.4) {
			return slotArg(s), true
		}
		return g.scalarList(1 + g.r.Intn(3))
	case t == tGrid:
		if s := g.pick(func(s int, v any) bool { return assignable(v) }); s >= 0 && g.r.Chance(0.4) {
			return slotArg(s), true
		}
		a := Arg{K: "list", T: "grid"}
		c := 1 + g.r.Intn(3)
		for k := 1 + g.r.Intn(2); k > 0; k-- {
			if bad {
				c = 1 + g.r.Intn(3)
			}
			row, ok := g.scalarList(c)
			if !ok {
				return a, false
			}
			a.L = append(a.L, row)
		}
		return a, true
	case t == tConstrs:
		a := Arg{K: "list", T: "Constraint"}
		for k := 1 + g.r.Intn(3); k > 0; k-- {
			if s := g.pick(func(s int, v any) bool { _, ok := v.(sym.Constraint); return ok }); s >= 0 {
				a.L = append(a.L, slotArg(s))
			}
		}
		return a, true
	case t == tIDs:
		if s := g.pick(func(s int, v any) bool { return assignable(v) }); s >= 0 {
			return slotArg(s), true
		}
		return Arg{K: "list", T: "uint64", L: []Arg{intArg(3), intArg(1), intArg(3)}}, true
	case t == tDense || t == tVecD:
		s := g.pick(func(s int, v any) bool { return assignable(v) })
		if s < 0 {
			return Arg{}, false
		}
		return slotArg(s), true
	case t.Kind() == reflect.Int:
		return g.intFor(name, i, rm, bad), true
	case t.Kind() == reflect.Float64:
		return Arg{K: "float", N: []float64{-2, -1, -0.5, 0, 0.5, 1, 2, 3}[g.r.Intn(8)]}, true
	case t.Kind() == reflect.String:
		return Arg{K: "str", T: "s"}, true
	case t == tAny:
		return g.anyArg(name, i, prev, rm, bad)
	case t.Kind() == reflect.Interface:
		s := g.pick(func(s int, v any) bool { return assignable(v) })
		return found(s)
	}
	s := g.pick(func(s int, v any) bool { return assignable(v) })
	if s < 0 {
		return Arg{}, false
	}
	return slotArg(s), true
}

func (g *Gen) scalarList(n int) (Arg, bool) {
	a := Arg{K: "list", T: "ScalarExpression"}
	kind := g.r.Intn(5)
	for k := 0; k < n; k++ {
		s := g.pick(func(s int, v any) bool {
			if _, ok := v.(sym.ScalarExpression); !ok {
				return false
			}
			switch kind { // lists of one type choose their own conversion
			case 0:
				_, ok := v.(sym.K)
				return ok
			case 1:
				_, ok := v.(sym.Variable)
				return ok
			case 2:
				_, ok := v.(sym.Polynomial)
				return !ok
			}
			return true
		})
		if s < 0 {
			return a, false
		}
		a.L = append(a.L, g.maybeFaulty(s))
	}
	return a, true
}

func (g *Gen) substOK(recv, img meta) bool {
	d := max(1, recv.deg)
	t := 1
	for i := 0; i < d; i++ {
		t *= max(1, img.terms)
		if t > 400 {
			return false
		}
	}
	return t*max(1, recv.terms) <= g.p.MaxTerms*6 && d*max(1, img.deg) <= g.maxDeg()+2
}

func (g *Gen) mapArg(prev int, rm meta, lim int) (Arg, bool) {
	a := Arg{K: "map", T: "map"}
	seen := map[uint64]bool{}
	if g.w.wide == wideVars && g.r.Chance(0.5) {
		lim = 16
	}
	for k := 1 + g.r.Intn(lim); k > 0; k-- {
		v := g.varOf(prev)
		if v < 0 {
			return a, false
		}
		id := g.w.vals[v].(sym.Variable).ID
		if seen[id] {
			continue
		}
		seen[id] = true
		e := g.pick(func(s int, x any) bool {
			_, ok := x.(sym.ScalarExpression)
			return ok && g.substOK(rm, g.meta(s))
		})
		if e < 0 {
			return a, false
		}
		a.L = append(a.L, slotArg(v), g.maybeFaulty(e))
	}
	return a, true
}

func (g *Gen) intFor(name string, i int, rm meta, bad bool) Arg {
	if strings.Contains(name, "Power") {
		if bad {
			return intArg(-1 - g.r.Intn(2))
		}
		n := g.r.Intn(4)
		if n == 3 && g.r.Chance(0.3) {
			n = 4
		}
		if g.r.Chance(0.15) {
			n = 5 + g.r.Intn(4)
		}
		for n > 1 {
			t := 1
			for k := 0; k < n; k++ {
				t *= max(1, rm.terms)
				if t > 1<<20 {
					break
				}
			}
			if (t <= g.p.MaxTerms*4 || rm.terms > 1 && rm.rows > 1 && n == 2 && rm.terms < 24) && (rm.deg*n <= g.maxDeg()+2 || rm.terms == 1 && rm.deg*n <= 16) {
				break
			}
			n--
		}
		return intArg(n)
	}
	if strings.HasPrefix(name, "At") {
		lim := rm.rows
		if i == 1 {
			lim = rm.cols
		}
		if bad {
			return intArg([]int{-1, lim, lim + 3}[g.r.Intn(3)])
		}
		return intArg(g.r.Intn(max(1, lim)))
	}
	if bad {
		return intArg(g.r.Intn(3) - 1)
	}
	if g.r.Chance(0.06) {
		return intArg(4 + g.r.Intn(16))
	}
	return intArg(1 + g.r.Intn(3))
}

var arithmetic = map[string]bool{"Plus": true, "Minus": true, "Multiply": true, "LessEq": true, "GreaterEq": true, "Eq": true, "Comparison": true,
	"MatrixPlusTemplate": true, "MatrixMultiplyTemplate": true, "VectorPlusTemplate": true, "VectorMultiplyTemplate": true}

// literalFor is a numeric container that suits the operand before it.
func (g *Gen) literalFor(name string, rm meta) Arg {
	nr, nc := max(1, rm.rows), max(1, rm.cols)
	if strings.Contains(name, "Multiply") {
		nr, nc = nc, 1+g.r.Intn(3)
	}
	if g.r.Chance(0.1) {
		nr, nc = 1, 1
	}
	a := Arg{K: "lit", T: "mat", S: nc}
	if nc == 1 && g.r.Chance(0.7) {
		a.T = "vec"
	}
	if g.r.Chance(0.4) {
		a.T = "p" + a.T
	}
	for i := 0; i < nr*nc; i++ {
		a.L = append(a.L, Arg{K: "float", N: []float64{-2, -1, -0.5, 0, 0, 0.5, 1, 1, 2, 3}[g.r.Intn(10)]})
	}
	return a
}

func (g *Gen) anyArg(name string, i, prev int, rm meta, bad bool) (Arg, bool) {
	if bad {
		switch g.r.Intn(5) {
		case 0:
			return Arg{K: "nil"}, true
		case 1:
			return Arg{K: "str", T: "not an expression"}, true
		case 2:
			return intArg(2), true
		}
	}
	if name == "FindInSlice" {
		if i == 0 {
			return slotArg(g.varOf(-1)), true
		}
		if s := g.pick(func(s int, v any) bool { _, ok := v.([]sym.Variable); return ok }); s >= 0 {
			return slotArg(s), true
		}
		return Arg{}, false
	}
	if strings.HasPrefix(name, "Concretize") {
		if g.r.Chance(0.5) {
			return g.arg("", 0, -1, rm, tScalars)
		}
		return g.arg("", 0, -1, rm, tGrid)
	}
	if prev >= 0 && rm.rows == 1 && rm.cols == 1 && g.r.Chance(0.1) || prev < 0 && g.r.Chance(0.05) {
		if g.r.Chance(0.25) {
			return intArg(g.r.Intn(6) - 2), true
		}
		return Arg{K: "float", N: []float64{-2, -1, -0.5, 0, 0.5, 1, 2, 3}[g.r.Intn(8)]}, true
	}
	if prev >= 0 && arithmetic[name] {
		if (rm.rows != 1 || rm.cols != 1) && g.r.Chance(0.03) {
			if g.r.Chance(0.1) {
				return intArg(g.r.Intn(6) - 2), true
			}
			return Arg{K: "float", N: []float64{-2, -1, -0.5, 0, 0.5, 1, 2, 3}[g.r.Intn(8)]}, true
		}
		if !bad && g.r.Chance(0.07) {
			return g.literalFor(name, rm), true
		}
	}
	if name == "From" && g.r.Chance(0.5) {
		if s := g.pick(func(s int, v any) bool {
			switch v.(type) {
			case []float64, []int:
				return strings.Contains(g.fn, "KVector")
			case [][]float64:
				return strings.Contains(g.fn, "KMatrix")
			}
			return false
		}); s >= 0 {
			return slotArg(s), true
		}
	}
	s := g.pick(func(s int, v any) bool {
		_, isE := v.(sym.Expression)
		if !isE && reflect.TypeOf(v) != tDense && reflect.TypeOf(v) != tVecD {
			return prev < 0 && bad
		}
		m := g.meta(s)
		if prev >= 0 && !bad && !compat(name, rm, m) {
			return false
		}
		return g.cost(name, rm, m)
	})
	if s < 0 {
		return Arg{}, false
	}
	if t := reflect.TypeOf(g.w.vals[s]); (t == tDense || t == tVecD) && g.r.Chance(0.4) {
		return Arg{K: "ptr", S: s}, true
	}
	return g.maybeFaulty(s), true
}
