package main

import (
	"encoding/binary"
	"fmt"
	"math"
	"sort"
	"strings"

	sym "SIMMODULE/symbolic"
	"gonum.org/v1/gonum/mat"
)

// The reference model: matrices of polynomials with exactly represented
// coefficients. It shares nothing with the library but the identities of
// variables.

// Poly maps a canonical monomial key to its (non-zero) coefficient.
type Poly map[string]float64

// Mat is a matrix of polynomials; scalars are 1x1 and vectors nx1.
type Mat struct {
	r, c int
	e    []Poly
}

// errModel is panicked when the model cannot follow exactly.
type errModel string

func factors(key string) []([2]uint64) {
	var out []([2]uint64)
	for i := 0; i+16 <= len(key); i += 16 {
		out = append(out, [2]uint64{binary.BigEndian.Uint64([]byte(key[i:])), binary.BigEndian.Uint64([]byte(key[i+8:]))})
	}
	return out
}

func mkKey(fs map[uint64]int) string {
	ids := make([]uint64, 0, len(fs))
	for id, ex := range fs {
		if ex < 0 {
			panic(errModel("negative exponent"))
		}
		if ex > 0 {
			ids = append(ids, id)
		}
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	b := make([]byte, 0, 16*len(ids))
	for _, id := range ids {
		b = binary.BigEndian.AppendUint64(b, id)
		b = binary.BigEndian.AppendUint64(b, uint64(fs[id]))
	}
	return string(b)
}

// loose lifts the limits of the model while a library value is read that is
// suspected of not being what it should be.
var loose bool

func exact(x float64) float64 {
	if loose {
		return x
	}
	if math.IsNaN(x) || math.Abs(x) > 1<<32 || x*(1<<20) != math.Trunc(x*(1<<20)) {
		panic(errModel("coefficient leaves the exactly representable range"))
	}
	return x
}

// times multiplies exactly. Together with the limits of exact, whatever order
// the library works in, it then has no reason to round either.
func times(a, b float64) float64 {
	p := a * b
	if !loose && math.FMA(a, b, -p) != 0 {
		panic(errModel("product cannot be represented exactly"))
	}
	return p
}

// unsigned makes the model take every coefficient for its absolute value, so
// that nothing cancels: the sums and products then bound what the library
// meets on its way, in whatever order it works and before like terms merge.
var unsigned bool

// followable tells whether the library has no reason to round either: f
// computes the answer, and no term of the operands as they are written can
// lead it out of the exact range, not even one that cancels against another.
func followable(f func() (Mat, bool)) bool {
	unsigned = true
	defer func() { unsigned = false }()
	_, ok := f()
	if !ok {
		stats.Extra["results that may be rounded"]++
	}
	return ok
}

func (p Poly) add(key string, c float64) {
	if unsigned {
		c = math.Abs(c)
	}
	n := exact(p[key] + exact(c))
	if n == 0 {
		delete(p, key)
	} else {
		p[key] = n
	}
}

func pConst(c float64) Poly {
	p := Poly{}
	p.add("", c)
	return p
}

func pVar(id uint64) Poly {
	p := Poly{}
	p.add(mkKey(map[uint64]int{id: 1}), 1)
	return p
}

func pAdd(a, b Poly) Poly {
	o := Poly{}
	for k, c := range a {
		o.add(k, c)
	}
	for k, c := range b {
		o.add(k, c)
	}
	return o
}

func pScale(a Poly, s float64) Poly {
	o := Poly{}
	for k, c := range a {
		o.add(k, times(c, s))
	}
	return o
}

func mulKeys(a, b string) string {
	if a == "" {
		return b
	}
	if b == "" {
		return a
	}
	fs := map[uint64]int{}
	for _, f := range factors(a) {
		fs[f[0]] += int(f[1])
	}
	for _, f := range factors(b) {
		fs[f[0]] += int(f[1])
	}
	return mkKey(fs)
}

func pMul(a, b Poly) Poly {
	if len(a)*len(b) > 20000 {
		panic(errModel("too large"))
	}
	o := Poly{}
	// sum absolute values first: every partial sum stays exact
	t := 0.0
	for _, c := range a {
		for _, d := range b {
			t += math.Abs(c * d)
		}
	}
	if t > 1<<32 {
		panic(errModel("too large"))
	}
	for k, c := range a {
		for l, d := range b {
			o.add(mulKeys(k, l), times(c, d))
		}
	}
	return o
}

func pPow(a Poly, n int) Poly {
	o := pConst(1)
	for i := 0; i < n; i++ {
		o = pMul(o, a)
	}
	return o
}

func pDeriv(a Poly, id uint64) Poly {
	o := Poly{}
	for k, c := range a {
		fs := map[uint64]int{}
		for _, f := range factors(k) {
			fs[f[0]] = int(f[1])
		}
		ex := fs[id]
		if ex == 0 {
			continue
		}
		fs[id] = ex - 1
		o.add(mkKey(fs), times(c, float64(ex)))
	}
	return o
}

// pSubst replaces every variable in sub at once.
func pSubst(a Poly, sub map[uint64]Poly) Poly {
	o := Poly{}
	for k, c := range a {
		t := pConst(c)
		for _, f := range factors(k) {
			img, ok := sub[f[0]]
			if !ok {
				img = pVar(f[0])
			}
			t = pMul(t, pPow(img, int(f[1])))
		}
		o = pAdd(o, t)
	}
	return o
}

func pEqual(a, b Poly) bool {
	if len(a) != len(b) {
		return false
	}
	for k, c := range a {
		if b[k] != c {
			return false
		}
	}
	return true
}

func (p Poly) String() string {
	if len(p) == 0 {
		return "0"
	}
	var ks []string
	for k := range p {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var sb strings.Builder
	for i, k := range ks {
		if i > 0 {
			sb.WriteString(" + ")
		}
		fmt.Fprintf(&sb, "%v", p[k])
		for _, f := range factors(k) {
			fmt.Fprintf(&sb, " v%d", f[0])
			if f[1] != 1 {
				fmt.Fprintf(&sb, "^%d", f[1])
			}
		}
	}
	return sb.String()
}

func (m Mat) String() string {
	if m.r == 1 && m.c == 1 {
		return m.e[0].String()
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "%dx%d[", m.r, m.c)
	for i, p := range m.e {
		if i > 0 {
			if i%m.c == 0 {
				sb.WriteString("; ")
			} else {
				sb.WriteString(", ")
			}
		}
		sb.WriteString(p.String())
	}
	s := sb.String() + "]"
	if len(s) > 500 {
		s = s[:500] + "..."
	}
	return s
}

func scalarMat(p Poly) Mat     { return Mat{1, 1, []Poly{p}} }
func (m Mat) scalar() bool     { return m.r == 1 && m.c == 1 }
func (m Mat) at(i, j int) Poly { return m.e[i*m.c+j] }
func newMat(r, c int) Mat      { return Mat{r, c, make([]Poly, r*c)} }
func (m Mat) each(f func(Poly) Poly) Mat {
	o := newMat(m.r, m.c)
	for i, p := range m.e {
		o.e[i] = f(p)
	}
	return o
}

func mEqual(a, b Mat) bool {
	if a.r != b.r || a.c != b.c {
		return false
	}
	for i := range a.e {
		if !pEqual(a.e[i], b.e[i]) {
			return false
		}
	}
	return true
}

// near compares a value the model can represent with one it cannot.
func near(a, b Mat) bool {
	if a.r != b.r || a.c != b.c {
		return false
	}
	for i := range a.e {
		for k := range keysOf(a.e[i], b.e[i]) {
			x, y := a.e[i][k], b.e[i][k]
			if !(math.Abs(x-y) <= 1e-6*(1+math.Abs(x))) {
				return false
			}
		}
	}
	return true
}

func keysOf(a, b Poly) map[string]bool {
	o := map[string]bool{}
	for k := range a {
		o[k] = true
	}
	for k := range b {
		o[k] = true
	}
	return o
}

// denoteLoose reads a value whatever its coefficients are.
func denoteLoose(v any) (Mat, bool) {
	loose = true
	defer func() { loose = false }()
	return denote(v)
}

// mAdd adds matrices of equal shape; a scalar is added to every element.
func mAdd(a, b Mat) (Mat, bool) {
	switch {
	case a.r == b.r && a.c == b.c:
		o := newMat(a.r, a.c)
		for i := range a.e {
			o.e[i] = pAdd(a.e[i], b.e[i])
		}
		return o, true
	case a.scalar():
		return b.each(func(p Poly) Poly { return pAdd(a.e[0], p) }), true
	case b.scalar():
		return a.each(func(p Poly) Poly { return pAdd(p, b.e[0]) }), true
	}
	return Mat{}, false
}

func mScale(a Mat, s float64) Mat { return a.each(func(p Poly) Poly { return pScale(p, s) }) }

func mMul(a, b Mat) (Mat, bool) {
	switch {
	case a.scalar():
		return b.each(func(p Poly) Poly { return pMul(a.e[0], p) }), true
	case b.scalar():
		return a.each(func(p Poly) Poly { return pMul(p, b.e[0]) }), true
	case a.c == b.r:
		o := newMat(a.r, b.c)
		for i := 0; i < a.r; i++ {
			for j := 0; j < b.c; j++ {
				s := Poly{}
				for k := 0; k < a.c; k++ {
					s = pAdd(s, pMul(a.at(i, k), b.at(k, j)))
				}
				o.e[i*b.c+j] = s
			}
		}
		return o, true
	}
	return Mat{}, false
}

func mPow(a Mat, n int) (Mat, bool) {
	if n < 0 || a.r != a.c {
		return Mat{}, false
	}
	o := newMat(a.r, a.r)
	for i := 0; i < a.r; i++ {
		for j := 0; j < a.r; j++ {
			o.e[i*a.r+j] = Poly{}
			if i == j {
				o.e[i*a.r+j] = pConst(1)
			}
		}
	}
	for i := 0; i < n; i++ {
		o, _ = mMul(o, a)
	}
	return o, true
}

func mT(a Mat) Mat {
	o := newMat(a.c, a.r)
	for i := 0; i < a.r; i++ {
		for j := 0; j < a.c; j++ {
			o.e[j*a.r+i] = a.at(i, j)
		}
	}
	return o
}

// ---- reading library values ----

func denMono(m sym.Monomial) Poly {
	if len(m.Exponents) != len(m.VariableFactors) {
		panic(errModel("malformed monomial"))
	}
	fs := map[uint64]int{}
	for i, v := range m.VariableFactors {
		if m.Exponents[i] < 0 {
			panic(errModel("negative exponent"))
		}
		fs[v.ID] += m.Exponents[i]
	}
	p := Poly{}
	p.add(mkKey(fs), m.Coefficient)
	return p
}

func denPoly(p sym.Polynomial) Poly {
	if len(p.Monomials) == 0 {
		panic(errModel("empty polynomial"))
	}
	o := Poly{}
	for _, m := range p.Monomials {
		for k, c := range denMono(m) {
			o.add(k, c)
		}
	}
	return o
}

// denote gives the value's meaning; ok is false when v is no expression or
// leaves the exact range.
func denote(v any) (m Mat, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(errModel); !is {
				panic(r)
			}
			m, ok = Mat{}, false
		}
	}()
	col := func(n int, f func(int) Poly) (Mat, bool) {
		if n == 0 {
			return Mat{}, false
		}
		o := newMat(n, 1)
		for i := range o.e {
			o.e[i] = f(i)
		}
		return o, true
	}
	grid := func(n int, cols func(int) int, f func(i, j int) Poly) (Mat, bool) {
		if n == 0 || cols(0) == 0 {
			return Mat{}, false
		}
		o := newMat(n, cols(0))
		for i := 0; i < n; i++ {
			if cols(i) != cols(0) {
				return Mat{}, false
			}
			for j := 0; j < cols(0); j++ {
				o.e[i*o.c+j] = f(i, j)
			}
		}
		return o, true
	}
	switch x := v.(type) {
	case float64:
		return scalarMat(pConst(x)), true
	case int:
		return scalarMat(pConst(float64(x))), true
	case sym.K:
		return scalarMat(pConst(float64(x))), true
	case sym.Variable:
		return scalarMat(pVar(x.ID)), true
	case sym.Monomial:
		return scalarMat(denMono(x)), true
	case sym.Polynomial:
		return scalarMat(denPoly(x)), true
	case sym.KVector:
		return col(len(x), func(i int) Poly { return pConst(float64(x[i])) })
	case sym.VariableVector:
		return col(len(x), func(i int) Poly { return pVar(x[i].ID) })
	case sym.MonomialVector:
		return col(len(x), func(i int) Poly { return denMono(x[i]) })
	case sym.PolynomialVector:
		return col(len(x), func(i int) Poly { return denPoly(x[i]) })
	case sym.KMatrix:
		return grid(len(x), func(i int) int { return len(x[i]) }, func(i, j int) Poly { return pConst(float64(x[i][j])) })
	case sym.VariableMatrix:
		return grid(len(x), func(i int) int { return len(x[i]) }, func(i, j int) Poly { return pVar(x[i][j].ID) })
	case sym.MonomialMatrix:
		return grid(len(x), func(i int) int { return len(x[i]) }, func(i, j int) Poly { return denMono(x[i][j]) })
	case sym.PolynomialMatrix:
		return grid(len(x), func(i int) int { return len(x[i]) }, func(i, j int) Poly { return denPoly(x[i][j]) })
	case mat.VecDense:
		return col(x.Len(), func(i int) Poly { return pConst(x.AtVec(i)) })
	case *mat.VecDense:
		return denote(*x)
	case mat.Dense:
		r, c := x.Dims()
		return grid(r, func(int) int { return c }, func(i, j int) Poly { return pConst(x.At(i, j)) })
	case *mat.Dense:
		return denote(*x)
	case []float64:
		return col(len(x), func(i int) Poly { return pConst(x[i]) })
	case []int:
		return col(len(x), func(i int) Poly { return pConst(float64(x[i])) })
	case [][]float64:
		return grid(len(x), func(i int) int { return len(x[i]) }, func(i, j int) Poly { return pConst(x[i][j]) })
	}
	return Mat{}, false
}

// modelOp computes what op should give on operands with the given meanings.
// known is false when the model says nothing about the operation.
func modelOp(name string, recv Mat, args []any, argM []Mat, argOK []bool) (out Mat, known bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(errModel); !is {
				panic(r)
			}
			out, known = Mat{}, false
		}
	}()
	arg := func(i int) (Mat, bool) {
		if i < len(argM) && argOK[i] {
			return argM[i], true
		}
		return Mat{}, false
	}
	switch name {
	case "Plus":
		if a, ok := arg(0); ok {
			return mAdd(recv, a)
		}
	case "Minus":
		if a, ok := arg(0); ok {
			return mAdd(recv, mScale(a, -1))
		}
	case "Multiply":
		if a, ok := arg(0); ok {
			return mMul(recv, a)
		}
	case "Power":
		n, ok := args[0].(int)
		if ok {
			return mPow(recv, n)
		}
	case "DerivativeWrt":
		if v, ok := args[0].(sym.Variable); ok {
			return recv.each(func(p Poly) Poly { return pDeriv(p, v.ID) }), true
		}
	case "Substitute":
		v, ok := args[0].(sym.Variable)
		img, ok2 := arg(1)
		if ok && ok2 && img.scalar() {
			return recv.each(func(p Poly) Poly { return pSubst(p, map[uint64]Poly{v.ID: img.e[0]}) }), true
		}
	case "SubstituteAccordingTo":
		m, ok := args[0].(map[sym.Variable]sym.Expression)
		if !ok {
			return Mat{}, false
		}
		sub := map[uint64]Poly{}
		for v, e := range m {
			img, ok := denote(e)
			if !ok || !img.scalar() {
				return Mat{}, false
			}
			if _, dup := sub[v.ID]; dup {
				return Mat{}, false
			}
			sub[v.ID] = img.e[0]
		}
		return recv.each(func(p Poly) Poly { return pSubst(p, sub) }), true
	case "Transpose":
		return mT(recv), true
	case "At":
		i, _ := args[0].(int)
		j, _ := args[1].(int)
		if i >= 0 && j >= 0 && i < recv.r && j < recv.c {
			return scalarMat(recv.at(i, j)), true
		}
	case "AtVec":
		i, _ := args[0].(int)
		if i >= 0 && i < recv.r && recv.c == 1 {
			return scalarMat(recv.at(i, 0)), true
		}
	case "AsSimplifiedExpression", "Simplify", "Copy", "ToMonomial", "ToPolynomial", "ToMonomialVector", "ToPolynomialVector",
		"ToMonomialMatrix", "ToPolynomialMatrix", "ToVariable", "ToDense", "ToVecDense":
		return recv, true
	}
	return Mat{}, false
}

// modelFn does the same for package-level functions.
func modelFn(name string, args []any, argM []Mat, argOK []bool) (out Mat, known bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(errModel); !is {
				panic(r)
			}
			out, known = Mat{}, false
		}
	}()
	all := func() bool {
		for _, ok := range argOK {
			if !ok {
				return false
			}
		}
		return len(argOK) > 0
	}
	switch name {
	case "HStack", "VStack":
		if !all() {
			return Mat{}, false
		}
		ms := argM
		if name == "VStack" {
			ms = nil
			for _, m := range argM {
				ms = append(ms, mT(m))
			}
		}
		r, c := ms[0].r, 0
		for _, m := range ms {
			if m.r != r {
				return Mat{}, false
			}
			c += m.c
		}
		o := newMat(r, c)
		off := 0
		for _, m := range ms {
			for i := 0; i < r; i++ {
				for j := 0; j < m.c; j++ {
					o.e[i*c+off+j] = m.at(i, j)
				}
			}
			off += m.c
		}
		if name == "VStack" {
			o = mT(o)
		}
		return o, true
	case "Minus":
		if len(argM) == 2 && all() {
			return mAdd(argM[0], mScale(argM[1], -1))
		}
	case "MatrixPlusTemplate":
		if len(argM) == 2 && all() && argM[0].r == argM[1].r && argM[0].c == argM[1].c {
			return mAdd(argM[0], argM[1])
		}
	case "VectorPlusTemplate":
		if len(argM) == 2 && all() && (argM[1].scalar() || argM[0].r == argM[1].r) {
			return mAdd(argM[0], argM[1])
		}
	case "MatrixMultiplyTemplate":
		if len(argM) == 2 && all() && argM[0].c == argM[1].r {
			o := newMat(argM[0].r, argM[1].c)
			for i := 0; i < o.r; i++ {
				for j := 0; j < o.c; j++ {
					s := Poly{}
					for k := 0; k < argM[0].c; k++ {
						s = pAdd(s, pMul(argM[0].at(i, k), argM[1].at(k, j)))
					}
					o.e[i*o.c+j] = s
				}
			}
			return o, true
		}
	case "VectorMultiplyTemplate":
		if len(argM) == 2 && all() && argM[1].scalar() {
			return mMul(argM[0], argM[1])
		}
	case "ScalarPowerTemplate", "VectorPowerTemplate", "MatrixPowerTemplate":
		n, ok := args[1].(int)
		if ok && argOK[0] {
			return mPow(argM[0], n)
		}
	case "VectorSubstituteTemplate", "MatrixSubstituteTemplate":
		v, ok := args[1].(sym.Variable)
		if ok && argOK[0] && argOK[2] && argM[2].scalar() {
			return argM[0].each(func(p Poly) Poly { return pSubst(p, map[uint64]Poly{v.ID: argM[2].e[0]}) }), true
		}
	case "ToExpression", "ToScalarExpression", "ToVectorExpression", "ToMatrixExpression",
		"ToPolynomialLike", "ToPolynomialLikeScalar", "ToPolynomialLikeVector", "ToPolynomialLikeMatrix",
		"DenseToKMatrix", "VecDenseToKVector", "KVector.From", "KMatrix.From":
		if len(argM) == 1 && all() {
			return argM[0], true
		}
	case "ConcretizeExpression", "ConcretizeVectorExpression":
		switch x := args[0].(type) {
		case []sym.ScalarExpression:
			o := newMat(len(x), 1)
			for i, se := range x {
				m, ok := denote(se)
				if !ok || !m.scalar() {
					return Mat{}, false
				}
				o.e[i] = m.e[0]
			}
			return o, len(x) > 0
		case [][]sym.ScalarExpression:
			return denGrid(x)
		}
		if argOK[0] && argM[0].scalar() {
			return argM[0], true
		}
	case "ConcretizeMatrixExpression":
		if x, ok := args[0].([][]sym.ScalarExpression); ok {
			return denGrid(x)
		}
	}
	return Mat{}, false
}

func denGrid(x [][]sym.ScalarExpression) (Mat, bool) {
	if len(x) == 0 || len(x[0]) == 0 {
		return Mat{}, false
	}
	o := newMat(len(x), len(x[0]))
	for i := range x {
		if len(x[i]) != o.c {
			return Mat{}, false
		}
		for j := range x[i] {
			m, ok := denote(x[i][j])
			if !ok || !m.scalar() {
				return Mat{}, false
			}
			o.e[i*o.c+j] = m.e[0]
		}
	}
	return o, true
}
