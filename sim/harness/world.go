package main

import (
	"fmt"
	"reflect"
	"runtime"

	sym "SIMMODULE/symbolic"
	"SIMMODULE/verifsim/simrt"
	"gonum.org/v1/gonum/mat"
)

// Arg says how one argument of an operation is obtained.
type Arg struct {
	K string  `json:"k"` // slot, int, float, str, sense, nil, list, map, faulty, badexpr
	S int     `json:"s,omitempty"`
	N float64 `json:"n,omitempty"`
	T string  `json:"t,omitempty"`
	L []Arg   `json:"l,omitempty"`
}

// Fault is something the caller-supplied parts do during one operation.
type Fault struct {
	Kind string `json:"kind"` // panic, panic-after, goexit, stall, reenter, decline
	At   int    `json:"at"`   // at which callback (0 = first)
	N    int    `json:"n,omitempty"`
	Env  int    `json:"env,omitempty"` // slot of the environment used when calling back
}

// Op is one operation of a task.
type Op struct {
	ID    int    `json:"id"`
	Fn    string `json:"fn"`             // method or function name, or a user.* action
	Recv  int    `json:"recv"`           // slot of the receiver, -1 for a function
	Wrap  bool   `json:"wrap,omitempty"` // receiver is handed over inside a callback expression
	Args  []Arg  `json:"args,omitempty"`
	Fault *Fault `json:"fault,omitempty"`
}

func (o Op) describe(w *World) string {
	arg := func(a Arg) string { return w.describeArg(a) }
	s := ""
	if o.Recv >= 0 {
		s = w.describeSlot(o.Recv) + "."
	}
	s += o.Fn + "("
	for i, a := range o.Args {
		if i > 0 {
			s += ", "
		}
		s += arg(a)
	}
	s += ")"
	if o.Fault != nil {
		s += fmt.Sprintf(" [fault %s at callback %d]", o.Fault.Kind, o.Fault.At)
	}
	return s
}

func (w *World) describeSlot(i int) string {
	if i < len(w.vals) && w.set[i] {
		return fmt.Sprintf("<%d: %T %s>", i, w.vals[i], show(w.vals[i]))
	}
	return fmt.Sprintf("<%d: nothing>", i)
}

func (w *World) describeArg(a Arg) string {
	switch a.K {
	case "slot":
		return w.describeSlot(a.S)
	case "ptr":
		return "pointer to " + w.describeSlot(a.S)
	case "lit":
		v := a.literal()
		return fmt.Sprintf("%T %s", v, showVal(v))
	case "faulty":
		return "callback expression around " + w.describeSlot(a.S)
	case "int", "float":
		return fmt.Sprint(a.N)
	case "str", "sense":
		return fmt.Sprintf("%q", a.T)
	case "list", "map":
		s := a.T + "{"
		for i, x := range a.L {
			if i > 0 {
				s += ", "
			}
			s += w.describeArg(x)
		}
		return s + "}"
	}
	return a.K
}

// World holds the values of one simulated execution.
type World struct {
	vals  []any
	set   []bool
	snap  []uint64
	dead  []bool
	pool  int
	envs  envTable
	simEs []*SimEnv
	vars  []sym.Variable
	early map[string][]earlyVar
	wide  int // 0: no
}

func (w *World) slotOf(opID, k int) int { return w.pool + opID*outsPerOp + k }

const outsPerOp = 3

func (w *World) grow(nOps int) {
	n := w.pool + nOps*outsPerOp
	for len(w.vals) < n {
		w.vals = append(w.vals, nil)
		w.set = append(w.set, false)
		w.snap = append(w.snap, 0)
		w.dead = append(w.dead, false)
	}
}

func (w *World) digest(vs ...any) uint64 { return digest(&w.envs, vs...) }

func (w *World) put(slot int, v any) {
	w.vals[slot] = v
	w.set[slot] = true
	w.snap[slot] = w.digest(v)
}

func isEnv(v any) bool {
	_, ok := v.(sym.Environment)
	return ok
}

// changed returns the first live value whose contents are not what they were.
func (w *World) changed() int {
	for i := range w.vals {
		if !w.set[i] || w.dead[i] || isEnv(w.vals[i]) {
			continue
		}
		if w.digest(w.vals[i]) != w.snap[i] {
			return i
		}
	}
	return -1
}

// registries digests the contents of all environments.
func (w *World) registries() uint64 {
	e := encoder{envs: &w.envs}
	for _, env := range w.envs.envs {
		e.regs(env)
	}
	return hashBytes(e.b)
}

func (e *encoder) regs(env sym.Environment) {
	switch x := env.(type) {
	case *sym.BasicEnvironment:
		e.val([]sym.Variable(x.Variables))
	case *SimEnv:
		e.val([]sym.Variable(x.list))
	}
}

// Outcome of an operation.
type Outcome struct {
	kind string // ok, panic, goexit, abort, skip
	dig  uint64
	n    int
	why  string // panic text, for reports only
}

func (o Outcome) same(p Outcome) bool { return o.kind == p.kind && o.n == p.n && o.dig == p.dig }

// ---- faults ----

type armedFault struct {
	f     *Fault
	calls int
	fired int
	w     *World
	deep  bool
	env   *SimEnv
}

var (
	armed      [64]armedFault
	faultFired = map[string]int{}
	callbacks  int
)

func curTask() int {
	t := simrt.CurrentTask()
	if t < 0 || t >= len(armed) {
		return len(armed) - 1
	}
	return t
}

// hookBefore and hookAfter run around every callback into caller code.
func hookBefore() *Fault {
	callbacks++
	if !simrt.InSim() {
		return nil
	}
	a := &armed[curTask()]
	simrt.Y(-1)
	if a.f == nil || a.deep {
		return nil
	}
	n := a.calls
	a.calls++
	if n != a.f.At {
		return nil
	}
	a.fired++
	faultFired[a.f.Kind]++
	switch a.f.Kind {
	case "panic":
		panic(injected{"caller-supplied part fails"})
	case "goexit":
		runtime.Goexit()
	case "stall":
		simrt.Stall(a.f.N)
	case "reenter":
		a.deep = true
		reenter(a)
		a.deep = false
	}
	return a.f
}

func hookAfter(f *Fault) {
	if f != nil && f.Kind == "panic-after" {
		panic(injected{"caller-supplied part fails after doing its work"})
	}
}

type injected struct{ s string }

func (i injected) Error() string { return i.s }

// reenter calls back into the library from inside a callback.
func reenter(a *armedFault) {
	defer func() {
		if r := recover(); r != nil {
			if ab, ok := r.(simrt.Abort); ok {
				panic(ab)
			}
		}
	}()
	w := a.w
	switch a.f.N % 4 {
	case 0:
		for i := 0; i < w.pool; i++ {
			if e, ok := w.vals[i].(sym.Expression); ok && i%3 == a.f.N%3 {
				_ = e.String()
				_ = e.Variables()
				break
			}
		}
	case 1:
		if e, ok := w.vals[a.f.Env].(sym.Environment); ok {
			_ = e.AllTrackedVariables()
		}
	case 2:
		x := w.vars[a.f.N%len(w.vars)]
		_ = x.Multiply(x).Plus(x).DerivativeWrt(x)
	case 3:
		if e, ok := w.vals[a.f.Env].(sym.Environment); ok && a.env != nil {
			v := sym.NewVariable(e)
			a.env.noteCreated(v)
		}
	}
}

// ---- caller-implemented parts ----

// SimEnv is a correct caller-implemented environment whose methods may fail,
// decline, stall or call back, as the armed fault says.
type SimEnv struct {
	name     string
	list     []sym.Variable
	created  []sym.Variable
	declined map[uint64]bool // digests of variables it declined
	envs     *envTable
	accepts  int
}

func (s *SimEnv) noteCreated(v sym.Variable) { s.created = append(s.created, v) }

func (s *SimEnv) GetName() string {
	if simrt.InSim() {
		f := hookBefore()
		defer hookAfter(f)
	}
	return s.name
}

func (s *SimEnv) TrackVariable(v sym.Variable) bool {
	f := hookBefore()
	if f != nil && f.Kind == "decline" {
		if s.declined == nil {
			s.declined = map[uint64]bool{}
		}
		s.declined[digest(s.envs, v)] = true
		return false
	}
	// one step: no scheduling point in between
	for _, x := range s.list {
		if x.ID == v.ID {
			return false
		}
	}
	s.list = append(s.list, v)
	s.accepts++
	hookAfter(f)
	simrt.Y(-1)
	return true
}

func (s *SimEnv) AllTrackedVariables() []sym.Variable {
	f := hookBefore()
	out := append([]sym.Variable(nil), s.list...)
	hookAfter(f)
	simrt.Y(-1)
	return out
}

// FaultyExpr is a caller-implemented scalar expression.
type FaultyExpr struct {
	sym.ScalarExpression
}

func (x *FaultyExpr) Check() error {
	f := hookBefore()
	defer hookAfter(f)
	return x.ScalarExpression.Check()
}
func (x *FaultyExpr) Variables() []sym.Variable {
	f := hookBefore()
	defer hookAfter(f)
	return x.ScalarExpression.Variables()
}
func (x *FaultyExpr) Constant() float64 {
	f := hookBefore()
	defer hookAfter(f)
	return x.ScalarExpression.Constant()
}
func (x *FaultyExpr) LinearCoeff(wrt ...[]sym.Variable) mat.VecDense {
	f := hookBefore()
	defer hookAfter(f)
	return x.ScalarExpression.LinearCoeff(wrt...)
}
func (x *FaultyExpr) Dims() []int {
	f := hookBefore()
	defer hookAfter(f)
	return x.ScalarExpression.Dims()
}
func (x *FaultyExpr) Plus(r interface{}) sym.Expression {
	f := hookBefore()
	defer hookAfter(f)
	return x.ScalarExpression.Plus(r)
}
func (x *FaultyExpr) Minus(r interface{}) sym.Expression {
	f := hookBefore()
	defer hookAfter(f)
	return x.ScalarExpression.Minus(r)
}
func (x *FaultyExpr) Multiply(r interface{}) sym.Expression {
	f := hookBefore()
	defer hookAfter(f)
	return x.ScalarExpression.Multiply(r)
}
func (x *FaultyExpr) Transpose() sym.Expression {
	f := hookBefore()
	defer hookAfter(f)
	return x.ScalarExpression.Transpose()
}
func (x *FaultyExpr) String() string {
	if !simrt.InSim() {
		return "callback expression"
	}
	f := hookBefore()
	defer hookAfter(f)
	return x.ScalarExpression.String()
}
func (x *FaultyExpr) Substitute(v sym.Variable, se sym.ScalarExpression) sym.Expression {
	f := hookBefore()
	defer hookAfter(f)
	return x.ScalarExpression.Substitute(v, se)
}
func (x *FaultyExpr) SubstituteAccordingTo(m map[sym.Variable]sym.Expression) sym.Expression {
	f := hookBefore()
	defer hookAfter(f)
	return x.ScalarExpression.SubstituteAccordingTo(m)
}
func (x *FaultyExpr) Power(n int) sym.Expression {
	f := hookBefore()
	defer hookAfter(f)
	return x.ScalarExpression.Power(n)
}
func (x *FaultyExpr) At(i, j int) sym.ScalarExpression {
	f := hookBefore()
	defer hookAfter(f)
	return x.ScalarExpression.At(i, j)
}
func (x *FaultyExpr) DerivativeWrt(v sym.Variable) sym.Expression {
	f := hookBefore()
	defer hookAfter(f)
	return x.ScalarExpression.DerivativeWrt(v)
}
func (x *FaultyExpr) AsSimplifiedExpression() sym.Expression {
	f := hookBefore()
	defer hookAfter(f)
	return x.ScalarExpression.AsSimplifiedExpression()
}

// FaultyVec is a caller-implemented vector expression.
type FaultyVec struct {
	sym.VectorExpression
}

func (x *FaultyVec) Check() error {
	f := hookBefore()
	defer hookAfter(f)
	return x.VectorExpression.Check()
}
func (x *FaultyVec) Variables() []sym.Variable {
	f := hookBefore()
	defer hookAfter(f)
	return x.VectorExpression.Variables()
}
func (x *FaultyVec) Constant() mat.VecDense {
	f := hookBefore()
	defer hookAfter(f)
	return x.VectorExpression.Constant()
}
func (x *FaultyVec) LinearCoeff(wrt ...[]sym.Variable) mat.Dense {
	f := hookBefore()
	defer hookAfter(f)
	return x.VectorExpression.LinearCoeff(wrt...)
}
func (x *FaultyVec) Dims() []int {
	f := hookBefore()
	defer hookAfter(f)
	return x.VectorExpression.Dims()
}
func (x *FaultyVec) Plus(r interface{}) sym.Expression {
	f := hookBefore()
	defer hookAfter(f)
	return x.VectorExpression.Plus(r)
}
func (x *FaultyVec) Minus(r interface{}) sym.Expression {
	f := hookBefore()
	defer hookAfter(f)
	return x.VectorExpression.Minus(r)
}
func (x *FaultyVec) Multiply(r interface{}) sym.Expression {
	f := hookBefore()
	defer hookAfter(f)
	return x.VectorExpression.Multiply(r)
}
func (x *FaultyVec) Transpose() sym.Expression {
	f := hookBefore()
	defer hookAfter(f)
	return x.VectorExpression.Transpose()
}
func (x *FaultyVec) Substitute(v sym.Variable, se sym.ScalarExpression) sym.Expression {
	f := hookBefore()
	defer hookAfter(f)
	return x.VectorExpression.Substitute(v, se)
}
func (x *FaultyVec) SubstituteAccordingTo(m map[sym.Variable]sym.Expression) sym.Expression {
	f := hookBefore()
	defer hookAfter(f)
	return x.VectorExpression.SubstituteAccordingTo(m)
}
func (x *FaultyVec) At(i, j int) sym.ScalarExpression {
	f := hookBefore()
	defer hookAfter(f)
	return x.VectorExpression.At(i, j)
}
func (x *FaultyVec) DerivativeWrt(v sym.Variable) sym.Expression {
	f := hookBefore()
	defer hookAfter(f)
	return x.VectorExpression.DerivativeWrt(v)
}
func (x *FaultyVec) AsSimplifiedExpression() sym.Expression {
	f := hookBefore()
	defer hookAfter(f)
	return x.VectorExpression.AsSimplifiedExpression()
}
func (x *FaultyVec) Power(n int) sym.Expression {
	f := hookBefore()
	defer hookAfter(f)
	return x.VectorExpression.Power(n)
}
func (x *FaultyVec) Len() int {
	f := hookBefore()
	defer hookAfter(f)
	return x.VectorExpression.Len()
}
func (x *FaultyVec) AtVec(i int) sym.ScalarExpression {
	f := hookBefore()
	defer hookAfter(f)
	return x.VectorExpression.AtVec(i)
}
func (x *FaultyVec) String() string {
	if !simrt.InSim() {
		return "callback expression"
	}
	f := hookBefore()
	defer hookAfter(f)
	return x.VectorExpression.String()
}

// FaultyMat is a caller-implemented matrix expression.
type FaultyMat struct {
	sym.MatrixExpression
}

func (x *FaultyMat) Check() error {
	f := hookBefore()
	defer hookAfter(f)
	return x.MatrixExpression.Check()
}
func (x *FaultyMat) Variables() []sym.Variable {
	f := hookBefore()
	defer hookAfter(f)
	return x.MatrixExpression.Variables()
}
func (x *FaultyMat) Constant() mat.Dense {
	f := hookBefore()
	defer hookAfter(f)
	return x.MatrixExpression.Constant()
}
func (x *FaultyMat) Dims() []int {
	f := hookBefore()
	defer hookAfter(f)
	return x.MatrixExpression.Dims()
}
func (x *FaultyMat) Plus(r interface{}) sym.Expression {
	f := hookBefore()
	defer hookAfter(f)
	return x.MatrixExpression.Plus(r)
}
func (x *FaultyMat) Minus(r interface{}) sym.Expression {
	f := hookBefore()
	defer hookAfter(f)
	return x.MatrixExpression.Minus(r)
}
func (x *FaultyMat) Multiply(r interface{}) sym.Expression {
	f := hookBefore()
	defer hookAfter(f)
	return x.MatrixExpression.Multiply(r)
}
func (x *FaultyMat) Transpose() sym.Expression {
	f := hookBefore()
	defer hookAfter(f)
	return x.MatrixExpression.Transpose()
}
func (x *FaultyMat) Substitute(v sym.Variable, se sym.ScalarExpression) sym.Expression {
	f := hookBefore()
	defer hookAfter(f)
	return x.MatrixExpression.Substitute(v, se)
}
func (x *FaultyMat) SubstituteAccordingTo(m map[sym.Variable]sym.Expression) sym.Expression {
	f := hookBefore()
	defer hookAfter(f)
	return x.MatrixExpression.SubstituteAccordingTo(m)
}
func (x *FaultyMat) At(i, j int) sym.ScalarExpression {
	f := hookBefore()
	defer hookAfter(f)
	return x.MatrixExpression.At(i, j)
}
func (x *FaultyMat) DerivativeWrt(v sym.Variable) sym.Expression {
	f := hookBefore()
	defer hookAfter(f)
	return x.MatrixExpression.DerivativeWrt(v)
}
func (x *FaultyMat) AsSimplifiedExpression() sym.Expression {
	f := hookBefore()
	defer hookAfter(f)
	return x.MatrixExpression.AsSimplifiedExpression()
}
func (x *FaultyMat) Power(n int) sym.Expression {
	f := hookBefore()
	defer hookAfter(f)
	return x.MatrixExpression.Power(n)
}
func (x *FaultyMat) String() string {
	if !simrt.InSim() {
		return "callback expression"
	}
	f := hookBefore()
	defer hookAfter(f)
	return x.MatrixExpression.String()
}

// faulty puts an expression inside a caller-implemented one.
func faulty(v any) (sym.Expression, bool) {
	switch e := v.(type) {
	case sym.ScalarExpression:
		return &FaultyExpr{e}, true
	case sym.VectorExpression:
		return &FaultyVec{e}, true
	case sym.MatrixExpression:
		return &FaultyMat{e}, true
	}
	return nil, false
}

// insideFaulty is the expression inside a caller-implemented one.
func insideFaulty(v any) (sym.Expression, bool) {
	switch e := v.(type) {
	case *FaultyExpr:
		return e.ScalarExpression, true
	case *FaultyVec:
		return e.VectorExpression, true
	case *FaultyMat:
		return e.MatrixExpression, true
	}
	return nil, false
}

// ---- executing operations ----

type skipOp struct{ why string }

var (
	tExpr    = reflect.TypeOf((*sym.Expression)(nil)).Elem()
	tScalar  = reflect.TypeOf((*sym.ScalarExpression)(nil)).Elem()
	tVector  = reflect.TypeOf((*sym.VectorExpression)(nil)).Elem()
	tMatrix  = reflect.TypeOf((*sym.MatrixExpression)(nil)).Elem()
	tConstr  = reflect.TypeOf((*sym.Constraint)(nil)).Elem()
	tVar     = reflect.TypeOf(sym.Variable{})
	tMono    = reflect.TypeOf(sym.Monomial{})
	tEnv     = envType
	tMap     = reflect.TypeOf(map[sym.Variable]sym.Expression{})
	tVars    = reflect.TypeOf([]sym.Variable{})
	tScalars = reflect.TypeOf([]sym.ScalarExpression{})
	tGrid    = reflect.TypeOf([][]sym.ScalarExpression{})
	tConstrs = reflect.TypeOf([]sym.Constraint{})
	tSense   = reflect.TypeOf(sym.SenseEqual)
	tIDs     = reflect.TypeOf([]uint64{})
	tInts    = reflect.TypeOf([]int{})
	tDense   = reflect.TypeOf(mat.Dense{})
	tVecD    = reflect.TypeOf(mat.VecDense{})
	tError   = reflect.TypeOf((*error)(nil)).Elem()
	tAny     = reflect.TypeOf((*any)(nil)).Elem()
	listType = map[string]reflect.Type{
		"Variable": tVars, "ScalarExpression": tScalars, "Constraint": tConstrs, "grid": tGrid,
		"uint64": tIDs, "Expression": reflect.TypeOf([]sym.Expression{}),
	}
)

// literal is a numeric container made for one call.
func (a Arg) literal() any {
	d := make([]float64, len(a.L))
	for i, x := range a.L {
		d[i] = x.N
	}
	if len(d) == 0 || a.S < 1 || len(d)%a.S != 0 {
		panic(skipOp{"empty literal"})
	}
	switch a.T {
	case "vec":
		return *mat.NewVecDense(len(d), d)
	case "pvec":
		return mat.NewVecDense(len(d), d)
	case "mat":
		return *mat.NewDense(len(d)/a.S, a.S, d)
	case "pmat":
		return mat.NewDense(len(d)/a.S, a.S, d)
	}
	panic(skipOp{"unknown literal " + a.T})
}

// getter returns the value of a slot, or false.
type getter func(slot int) (any, bool)

// argValue builds the actual argument.
func argValue(get getter, a Arg, want reflect.Type) reflect.Value {
	conv := func(v any) reflect.Value {
		if v == nil {
			return reflect.Zero(want)
		}
		rv := reflect.ValueOf(v)
		if rv.Type().AssignableTo(want) {
			return rv
		}
		switch rv.Kind() {
		case reflect.Int, reflect.Float64, reflect.Uint64:
			if rv.CanConvert(want) && (want.Kind() == reflect.Int || want.Kind() == reflect.Float64 || want.Kind() == reflect.Uint64) {
				return rv.Convert(want)
			}
		}
		if rv.Kind() == reflect.Ptr && rv.Elem().IsValid() && rv.Elem().Type().AssignableTo(want) {
			return rv.Elem()
		}
		panic(skipOp{fmt.Sprintf("%s cannot be passed as %s", rv.Type(), want)})
	}
	switch a.K {
	case "slot":
		v, ok := get(a.S)
		if !ok {
			panic(skipOp{"operand missing"})
		}
		return conv(v)
	case "ptr":
		v, ok := get(a.S)
		if !ok {
			panic(skipOp{"operand missing"})
		}
		switch x := v.(type) {
		case mat.VecDense:
			return conv(&x)
		case mat.Dense:
			return conv(&x)
		}
		return conv(v)
	case "faulty":
		v, ok := get(a.S)
		e, is := faulty(v)
		if !ok || !is {
			panic(skipOp{"operand missing"})
		}
		return conv(e)
	case "lit":
		return conv(a.literal())
	case "int":
		return conv(int(a.N))
	case "float":
		return conv(a.N)
	case "str":
		return conv(a.T)
	case "sense":
		if a.T == "" {
			return conv(sym.ConstrSense(0))
		}
		return conv(sym.ConstrSense(a.T[0]))
	case "nil":
		switch want.Kind() {
		case reflect.Interface, reflect.Map, reflect.Slice, reflect.Ptr:
			return reflect.Zero(want)
		}
		panic(skipOp{"nil"})
	case "map":
		m := map[sym.Variable]sym.Expression{}
		for i := 0; i+1 < len(a.L); i += 2 {
			k := argValue(get, a.L[i], tVar).Interface().(sym.Variable)
			v := argValue(get, a.L[i+1], tExpr)
			if v.Kind() == reflect.Interface && v.IsNil() {
				m[k] = nil
			} else {
				m[k] = v.Interface().(sym.Expression)
			}
		}
		return conv(m)
	case "list":
		lt, ok := listType[a.T]
		if !ok {
			panic(skipOp{"unknown list"})
		}
		l := reflect.MakeSlice(lt, 0, len(a.L)+1)
		for _, x := range a.L {
			l = reflect.Append(l, argValue(get, x, lt.Elem()))
		}
		return conv(l.Interface())
	}
	panic(skipOp{"unknown argument kind " + a.K})
}

// prepared is an operation with its actual operands.
type prepared struct {
	fv       reflect.Value
	in       []reflect.Value
	variadic bool
	recv     any
	args     []any
}

func prepare(get getter, op *Op) prepared {
	var p prepared
	if op.Recv >= 0 {
		v, ok := get(op.Recv)
		if !ok || v == nil {
			panic(skipOp{"receiver missing"})
		}
		if op.Wrap {
			e, is := faulty(v)
			if !is {
				panic(skipOp{"receiver is no expression"})
			}
			v = e
		}
		p.recv = v
		p.fv = reflect.ValueOf(v).MethodByName(op.Fn)
	} else {
		p.fv = libFuncs[op.Fn]
	}
	if !p.fv.IsValid() {
		panic(skipOp{"no such operation: " + op.Fn})
	}
	t := p.fv.Type()
	p.variadic = t.IsVariadic()
	fixed := t.NumIn()
	if p.variadic {
		fixed--
	}
	if len(op.Args) < fixed || (!p.variadic && len(op.Args) > fixed) {
		panic(skipOp{"wrong number of arguments"})
	}
	for i, a := range op.Args {
		want := tAny
		if i < fixed {
			want = t.In(i)
		} else {
			want = t.In(fixed).Elem()
		}
		p.in = append(p.in, argValue(get, a, want))
	}
	for _, v := range p.in {
		if v.IsValid() && v.CanInterface() {
			p.args = append(p.args, v.Interface())
		} else {
			p.args = append(p.args, nil)
		}
	}
	return p
}

// call runs the operation; the results are appended to out. It must be called
// from the task that performs the operation.
func (p *prepared) call(o *Outcome, out *[]any) {
	done := false
	defer func() {
		if done {
			return
		}
		r := recover()
		if r == nil {
			o.kind = "goexit"
			return // the goroutine is on its way out
		}
		if a, ok := r.(simrt.Abort); ok {
			o.kind = "abort"
			o.why = a.Why
			panic(r)
		}
		o.kind = "panic"
		o.why = panicText(r)
	}()
	res := p.fv.Call(p.in)
	done = true
	o.kind = "ok"
	for _, r := range res {
		*out = append(*out, r.Interface())
	}
}

func panicText(r any) (s string) {
	defer func() {
		if recover() != nil {
			s = "(panic value cannot be printed)"
		}
	}()
	simrt.Quiet(func() {
		switch x := r.(type) {
		case error:
			s = x.Error()
		default:
			s = fmt.Sprint(x)
		}
	})
	if len(s) > 300 {
		s = s[:300] + "..."
	}
	return s
}

// text renders a value with the library's own String method.
func text(v any) (s string) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(simrt.Abort); ok {
				panic(r)
			}
			s = "(panic)"
		}
	}()
	if st, ok := v.(interface{ String() string }); ok {
		if _, isF := insideFaulty(v); isF {
			return ""
		}
		return st.String()
	}
	return ""
}
