package main

import (
	"encoding/binary"
	"fmt"
	"math"
	"reflect"
	"sort"
	"unsafe"

	sym "SIMMODULE/symbolic"
	"SIMMODULE/verifsim/simrt"
	"gonum.org/v1/gonum/mat"
)

// ---- structural encoding: everything a caller can read from a value ----

type encoder struct {
	b    []byte
	envs *envTable
}

// envTable names environments so that encodings do not depend on addresses.
type envTable struct {
	envs  []sym.Environment
	names []string
}

func (t *envTable) label(e sym.Environment) string {
	if e == nil {
		return "<nil>"
	}
	if t != nil {
		for i, x := range t.envs {
			if x == e {
				return t.names[i]
			}
		}
	}
	n := ""
	simrt.Quiet(func() { n = e.GetName() })
	return "?" + n
}

// same returns t's environment in the place e has in from.
func (t *envTable) same(from *envTable, e sym.Environment) sym.Environment {
	if from != nil {
		for i, x := range from.envs {
			if x == e && i < len(t.envs) {
				return t.envs[i]
			}
		}
	}
	return e
}

func (e *encoder) u(x uint64)   { e.b = binary.LittleEndian.AppendUint64(e.b, x) }
func (e *encoder) i(x int)      { e.u(uint64(x)) }
func (e *encoder) f(x float64)  { e.u(math.Float64bits(x)) }
func (e *encoder) t(tag byte)   { e.b = append(e.b, tag) }
func (e *encoder) s(str string) { e.i(len(str)); e.b = append(e.b, str...) }

func (e *encoder) variable(v sym.Variable) {
	e.t('v')
	e.u(v.ID)
	e.f(v.Lower)
	e.f(v.Upper)
	e.t(byte(v.Type))
	e.s(v.Name)
	e.s(e.envs.label(v.Environment))
}

func (e *encoder) monomial(m sym.Monomial) {
	e.t('m')
	e.f(m.Coefficient)
	e.i(len(m.Exponents))
	for _, x := range m.Exponents {
		e.i(x)
	}
	e.i(len(m.VariableFactors))
	for _, x := range m.VariableFactors {
		e.variable(x)
	}
}

func (e *encoder) polynomial(p sym.Polynomial) {
	e.t('p')
	e.i(len(p.Monomials))
	for _, m := range p.Monomials {
		e.monomial(m)
	}
}

func (e *encoder) val(v any) {
	switch x := v.(type) {
	case nil:
		e.t('0')
	case sym.K:
		e.t('K')
		e.f(float64(x))
	case float64:
		e.t('F')
		e.f(x)
	case int:
		e.t('I')
		e.i(x)
	case bool:
		if x {
			e.t('T')
		} else {
			e.t('N')
		}
	case string:
		e.t('S')
		e.s(x)
	case sym.Variable:
		e.variable(x)
	case sym.Monomial:
		e.monomial(x)
	case sym.Polynomial:
		e.polynomial(x)
	case sym.KVector:
		e.t('a')
		e.i(len(x))
		for _, y := range x {
			e.f(float64(y))
		}
	case sym.VariableVector:
		e.t('b')
		e.i(len(x))
		for _, y := range x {
			e.variable(y)
		}
	case []sym.Variable:
		e.t('B')
		e.i(len(x))
		for _, y := range x {
			e.variable(y)
		}
	case sym.MonomialVector:
		e.t('c')
		e.i(len(x))
		for _, y := range x {
			e.monomial(y)
		}
	case sym.PolynomialVector:
		e.t('d')
		e.i(len(x))
		for _, y := range x {
			e.polynomial(y)
		}
	case sym.KMatrix:
		e.t('e')
		e.i(len(x))
		for _, r := range x {
			e.i(len(r))
			for _, y := range r {
				e.f(float64(y))
			}
		}
	case sym.VariableMatrix:
		e.t('f')
		e.i(len(x))
		for _, r := range x {
			e.i(len(r))
			for _, y := range r {
				e.variable(y)
			}
		}
	case sym.MonomialMatrix:
		e.t('g')
		e.i(len(x))
		for _, r := range x {
			e.i(len(r))
			for _, y := range r {
				e.monomial(y)
			}
		}
	case sym.PolynomialMatrix:
		e.t('h')
		e.i(len(x))
		for _, r := range x {
			e.i(len(r))
			for _, y := range r {
				e.polynomial(y)
			}
		}
	case sym.ScalarConstraint:
		e.t('x')
		e.val(x.LeftHandSide)
		e.val(x.RightHandSide)
		e.t(byte(x.Sense))
	case sym.VectorConstraint:
		e.t('y')
		e.val(x.LeftHandSide)
		e.val(x.RightHandSide)
		e.t(byte(x.Sense))
	case sym.MatrixConstraint:
		e.t('z')
		e.val(x.LeftHandSide)
		e.val(x.RightHandSide)
		e.t(byte(x.Sense))
	case mat.VecDense:
		e.t('V')
		e.vec(&x)
	case *mat.VecDense:
		e.t('V')
		e.vec(x)
	case mat.Dense:
		e.t('M')
		e.dense(&x)
	case *mat.Dense:
		e.t('M')
		e.dense(x)
	case map[sym.Variable]sym.Expression:
		e.t('P')
		var parts []string
		for k, y := range x {
			sub := encoder{envs: e.envs}
			sub.variable(k)
			sub.val(y)
			parts = append(parts, string(sub.b))
		}
		sort.Strings(parts)
		e.i(len(parts))
		for _, p := range parts {
			e.s(p)
		}
	case error:
		e.t('E') // only that it is an error: texts may name any offending part
	case *FaultyExpr, *FaultyVec, *FaultyMat:
		e.t('?')
		in, _ := insideFaulty(x)
		e.val(in)
	default:
		e.reflect(reflect.ValueOf(v), 0)
	}
}

func (e *encoder) vec(x *mat.VecDense) {
	if x == nil {
		e.t('0')
		return
	}
	e.i(x.Len())
	for i := 0; i < x.Len(); i++ {
		e.f(x.AtVec(i))
	}
}

func (e *encoder) dense(x *mat.Dense) {
	if x == nil {
		e.t('0')
		return
	}
	r, c := x.Dims()
	e.i(r)
	e.i(c)
	for i := 0; i < r; i++ {
		for j := 0; j < c; j++ {
			e.f(x.At(i, j))
		}
	}
}

func (e *encoder) reflect(v reflect.Value, depth int) {
	if depth > 8 {
		return
	}
	switch v.Kind() {
	case reflect.Slice, reflect.Array:
		e.t('[')
		e.s(v.Type().String())
		e.i(v.Len())
		for i := 0; i < v.Len(); i++ {
			if v.Index(i).CanInterface() {
				e.val(v.Index(i).Interface())
			}
		}
	case reflect.Struct:
		e.t('{')
		e.s(v.Type().String())
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				e.val(v.Field(i).Interface())
			}
		}
	case reflect.Ptr:
		e.t('*')
		if !v.IsNil() && v.Elem().CanInterface() {
			e.val(v.Elem().Interface())
		}
	case reflect.Bool:
		e.s(v.Type().String())
		e.val(v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		e.s(v.Type().String())
		e.u(uint64(v.Int()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		e.s(v.Type().String())
		e.u(v.Uint())
	case reflect.String:
		e.s(v.Type().String())
		e.s(v.String())
	case reflect.Float32, reflect.Float64:
		e.f(v.Float())
	default:
		e.s(v.Type().String())
	}
}

func hashBytes(b []byte) uint64 {
	h := uint64(14695981039346656037)
	for _, c := range b {
		h ^= uint64(c)
		h *= 1099511628211
	}
	return h
}

func digest(envs *envTable, vs ...any) uint64 {
	e := encoder{envs: envs, b: make([]byte, 0, 256)}
	for _, v := range vs {
		e.val(v)
	}
	return hashBytes(e.b)
}

// show renders a value without calling the library.
func show(v any) string {
	s := showVal(v)
	if len(s) > 400 {
		s = s[:400] + "..."
	}
	return s
}

func showVal(v any) string {
	switch x := v.(type) {
	case nil:
		return "nil"
	case sym.K:
		return fmt.Sprintf("K(%v)", float64(x))
	case sym.Variable:
		return fmt.Sprintf("%s#%d", x.Name, x.ID)
	case sym.Monomial:
		s := fmt.Sprintf("Monomial{%v", x.Coefficient)
		for i, f := range x.VariableFactors {
			ex := "?"
			if i < len(x.Exponents) {
				ex = fmt.Sprint(x.Exponents[i])
			}
			s += fmt.Sprintf(" %s#%d^%s", f.Name, f.ID, ex)
		}
		if len(x.Exponents) > len(x.VariableFactors) {
			s += fmt.Sprintf(" +%d exponents", len(x.Exponents)-len(x.VariableFactors))
		}
		return s + "}"
	case sym.Polynomial:
		s := "Polynomial["
		for i, m := range x.Monomials {
			if i > 0 {
				s += ", "
			}
			s += showVal(m)
		}
		return s + "]"
	case sym.ScalarConstraint:
		return fmt.Sprintf("(%s %c %s)", showVal(x.LeftHandSide), x.Sense, showVal(x.RightHandSide))
	case sym.VectorConstraint:
		return fmt.Sprintf("(%s %c %s)", showVal(x.LeftHandSide), x.Sense, showVal(x.RightHandSide))
	case sym.MatrixConstraint:
		return fmt.Sprintf("(%s %c %s)", showVal(x.LeftHandSide), x.Sense, showVal(x.RightHandSide))
	case map[sym.Variable]sym.Expression:
		var parts []string
		for k, y := range x {
			parts = append(parts, showVal(k)+"->"+showVal(y))
		}
		sort.Strings(parts)
		return fmt.Sprint(parts)
	case mat.VecDense:
		return fmt.Sprintf("VecDense%v", x.RawVector().Data)
	case *mat.VecDense:
		return fmt.Sprintf("*VecDense%v", x.RawVector().Data)
	case mat.Dense:
		return fmt.Sprintf("Dense%v", x.RawMatrix().Data)
	case *mat.Dense:
		return fmt.Sprintf("*Dense%v", x.RawMatrix().Data)
	case *FaultyExpr, *FaultyVec, *FaultyMat:
		in, _ := insideFaulty(x)
		return "callback expression around " + showVal(in)
	case string:
		return fmt.Sprintf("%q", x)
	}
	rv := reflect.ValueOf(v)
	switch rv.Kind() {
	case reflect.Int, reflect.Int32, reflect.Int64:
		return fmt.Sprint(rv.Int())
	case reflect.Uint8, reflect.Uint64:
		return fmt.Sprint(rv.Uint())
	case reflect.Int8, reflect.String, reflect.Bool:
		return fmt.Sprintf("%#v", v)
	case reflect.Ptr:
		if e, ok := v.(sym.Environment); ok {
			n := ""
			simrt.Quiet(func() { n = e.GetName() })
			return fmt.Sprintf("%T %s", v, n)
		}
		return fmt.Sprintf("%T", v)
	}
	if err, ok := v.(error); ok {
		s := ""
		simrt.Quiet(func() { s = err.Error() })
		return fmt.Sprintf("error %q", s)
	}
	if rv.Kind() == reflect.Slice {
		s := rv.Type().Name() + "["
		for i := 0; i < rv.Len(); i++ {
			if i > 0 {
				s += ", "
			}
			s += showVal(rv.Index(i).Interface())
		}
		return s + "]"
	}
	return fmt.Sprintf("%T(%v)", v, v)
}

// ---- deep copies ----

// clone makes a copy that shares no storage with v (environments excepted).
func clone(v any) any {
	switch x := v.(type) {
	case nil:
		return nil
	case sym.K, float64, int, bool, string, sym.Variable:
		return v
	case *mat.VecDense:
		return mat.VecDenseCopyOf(x)
	case mat.VecDense:
		if x.Len() == 0 {
			return x
		}
		return *mat.VecDenseCopyOf(&x)
	case []float64:
		return append([]float64(nil), x...)
	case [][]float64:
		o := make([][]float64, len(x))
		for i := range x {
			o[i] = append([]float64(nil), x[i]...)
		}
		return o
	case *mat.Dense:
		return mat.DenseCopyOf(x)
	case mat.Dense:
		if x.IsEmpty() {
			return x
		}
		return *mat.DenseCopyOf(&x)
	case *FaultyExpr, *FaultyVec, *FaultyMat:
		return x
	case error:
		return x
	}
	rv := reflect.ValueOf(v)
	out := reflect.New(rv.Type()).Elem()
	out.Set(rv)
	deepen(out, 0)
	return out.Interface()
}

var envType = reflect.TypeOf((*sym.Environment)(nil)).Elem()

// deepen replaces everything v refers to by copies, in place.
func deepen(v reflect.Value, depth int) {
	if depth > 20 {
		return
	}
	switch v.Kind() {
	case reflect.Slice:
		if v.IsNil() {
			return
		}
		n := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		reflect.Copy(n, v)
		v.Set(n)
		for i := 0; i < n.Len(); i++ {
			deepen(n.Index(i), depth+1)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			deepen(v.Index(i), depth+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if !f.CanSet() {
				f = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
			}
			deepen(f, depth+1)
		}
	case reflect.Map:
		if v.IsNil() {
			return
		}
		n := reflect.MakeMapWithSize(v.Type(), v.Len())
		it := v.MapRange()
		for it.Next() {
			val := reflect.New(v.Type().Elem()).Elem()
			val.Set(it.Value())
			deepen(val, depth+1)
			n.SetMapIndex(it.Key(), val)
		}
		v.Set(n)
	case reflect.Interface:
		if v.IsNil() || v.Type() == envType {
			return
		}
		if v.Elem().Kind() == reflect.Ptr {
			return
		}
		if v.CanInterface() {
			v.Set(reflect.ValueOf(clone(v.Interface())))
		}
	}
}

// ---- sizes and shapes ----

type meta struct {
	badVar     bool // a factor has impossible bounds
	rows, cols int  // 0: not an expression
	terms      int  // total number of terms
	deg        int  // largest degree of a term
	maxAbs     float64
	bad        bool // malformed or not exactly representable
	mal        bool // malformed
	scalar     bool
}

func (m *meta) malform() { m.bad, m.mal = true, true }

func (m *meta) addMono(x sym.Monomial) {
	m.terms++
	d := 0
	if len(x.Exponents) != len(x.VariableFactors) {
		m.malform()
		return
	}
	for _, v := range x.VariableFactors {
		if v.Lower >= v.Upper {
			m.badVar = true
		}
	}
	for _, e := range x.Exponents {
		if e < 0 {
			m.malform()
		}
		d += e
	}
	if d > m.deg {
		m.deg = d
	}
	m.addNum(x.Coefficient)
}

func (m *meta) addNum(c float64) {
	a := math.Abs(c)
	if a > m.maxAbs {
		m.maxAbs = a
	}
	if math.IsNaN(c) || a > 1<<30 || a*(1<<20) != math.Trunc(a*(1<<20)) {
		m.bad = true
	}
}

func (m *meta) addPoly(p sym.Polynomial) {
	if len(p.Monomials) == 0 {
		m.malform()
	}
	for _, x := range p.Monomials {
		m.addMono(x)
	}
}

func (m *meta) addVar(v sym.Variable) {
	m.terms++
	if m.deg < 1 {
		m.deg = 1
	}
	if v.Lower >= v.Upper {
		m.malform()
	}
}

func metaOf(v any) meta {
	var m meta
	setDims := func(r, c int) { m.rows, m.cols = r, c }
	ragged := func(n int, row func(int) int) {
		if n == 0 {
			m.malform()
			return
		}
		for i := 0; i < n; i++ {
			if row(i) != row(0) || row(i) == 0 {
				m.malform()
			}
		}
		setDims(n, row(0))
	}
	switch x := v.(type) {
	case sym.K:
		setDims(1, 1)
		m.scalar = true
		m.terms = 1
		m.addNum(float64(x))
	case sym.Variable:
		setDims(1, 1)
		m.scalar = true
		m.addVar(x)
	case sym.Monomial:
		setDims(1, 1)
		m.scalar = true
		m.addMono(x)
	case sym.Polynomial:
		setDims(1, 1)
		m.scalar = true
		m.addPoly(x)
	case sym.KVector:
		setDims(len(x), 1)
		for _, y := range x {
			m.terms++
			m.addNum(float64(y))
		}
	case sym.VariableVector:
		setDims(len(x), 1)
		for _, y := range x {
			m.addVar(y)
		}
	case sym.MonomialVector:
		setDims(len(x), 1)
		for _, y := range x {
			m.addMono(y)
		}
	case sym.PolynomialVector:
		setDims(len(x), 1)
		for _, y := range x {
			m.addPoly(y)
		}
	case sym.KMatrix:
		ragged(len(x), func(i int) int { return len(x[i]) })
		for _, r := range x {
			for _, y := range r {
				m.terms++
				m.addNum(float64(y))
			}
		}
	case sym.VariableMatrix:
		ragged(len(x), func(i int) int { return len(x[i]) })
		for _, r := range x {
			for _, y := range r {
				m.addVar(y)
			}
		}
	case sym.MonomialMatrix:
		ragged(len(x), func(i int) int { return len(x[i]) })
		for _, r := range x {
			for _, y := range r {
				m.addMono(y)
			}
		}
	case sym.PolynomialMatrix:
		ragged(len(x), func(i int) int { return len(x[i]) })
		for _, r := range x {
			for _, y := range r {
				m.addPoly(y)
			}
		}
	case sym.ScalarConstraint:
		m = joinMeta(metaOf(x.LeftHandSide), metaOf(x.RightHandSide))
	case sym.VectorConstraint:
		m = joinMeta(metaOf(x.LeftHandSide), metaOf(x.RightHandSide))
	case sym.MatrixConstraint:
		m = joinMeta(metaOf(x.LeftHandSide), metaOf(x.RightHandSide))
	case mat.VecDense:
		setDims(x.Len(), 1)
		for i := 0; i < x.Len(); i++ {
			m.addNum(x.AtVec(i))
		}
	case []float64:
		setDims(len(x), 1)
		for _, f := range x {
			m.addNum(f)
		}
	case []int:
		setDims(len(x), 1)
		for _, f := range x {
			m.addNum(float64(f))
		}
	case [][]float64:
		ragged(len(x), func(i int) int { return len(x[i]) })
		for _, r := range x {
			for _, f := range r {
				m.addNum(f)
			}
		}
	case *mat.VecDense:
		return metaOf(*x)
	case mat.Dense:
		r, c := x.Dims()
		setDims(r, c)
		for i := 0; i < r; i++ {
			for j := 0; j < c; j++ {
				m.addNum(x.At(i, j))
			}
		}
	case *mat.Dense:
		return metaOf(*x)
	case map[sym.Variable]sym.Expression:
		for _, y := range x {
			m = joinMeta(m, metaOf(y))
		}
		m.rows, m.cols = 0, 0
	}
	if m.rows == 0 || m.cols == 0 {
		if _, isExpr := v.(sym.Expression); isExpr {
			m.malform()
		}
	}
	return m
}

func joinMeta(a, b meta) meta {
	a.terms += b.terms
	if b.deg > a.deg {
		a.deg = b.deg
	}
	if b.maxAbs > a.maxAbs {
		a.maxAbs = b.maxAbs
	}
	a.bad = a.bad || b.bad
	a.mal = a.mal || b.mal
	if b.rows > a.rows {
		a.rows = b.rows
	}
	if b.cols > a.cols {
		a.cols = b.cols
	}
	return a
}
