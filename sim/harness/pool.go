package main

import (
	"fmt"

	sym "SIMMODULE/symbolic"
	"SIMMODULE/verifsim/simrt"
	"gonum.org/v1/gonum/mat"
)

// PoolSpec says which shared values an execution starts from.
type PoolSpec struct {
	Seed  uint64 `json:"seed"`
	Bad   bool   `json:"bad,omitempty"`   // include malformed values
	Envs  int    `json:"envs,omitempty"`  // library environments
	SimEs int    `json:"simes,omitempty"` // caller-implemented environments
	Only  string `json:"only,omitempty"`  // "env": environments and variables only

	Bad2   bool `json:"bad2,omitempty"`   // more malformed values
	Single bool `json:"single,omitempty"` // more constraints about the same one or two variables
}

// newWorld builds the values directly, without calling the library, so that
// they share storage the way slices in real programs do: sub-slices of longer
// arrays, spare capacity, common arrays.
func newWorld(spec PoolSpec) *World {
	w := &World{}
	r := simrt.NewRng(simrt.Mix(spec.Seed, 77))
	sym.DefaultEnvironment = sym.MakeBasicEnvironment("DefaultEnvironment")
	env0 := sym.MakeBasicEnvironment("pool")
	w.envs.envs = append(w.envs.envs, &sym.DefaultEnvironment, &env0)
	w.envs.names = append(w.envs.names, "default", "pool")
	add := func(v any) int {
		w.vals = append(w.vals, v)
		w.set = append(w.set, true)
		w.snap = append(w.snap, w.digest(v))
		w.dead = append(w.dead, false)
		return len(w.vals) - 1
	}
	// Some worlds are wide in one respect: many variables, long vectors, long
	// polynomials, high powers.
	wide := 0
	if spec.Only == "" && r.Chance(0.14) {
		wide = 1 + r.Intn(4)
	}
	w.wide = wide
	// variables: identities in no particular order, some far apart
	nv := 4 + r.Intn(3)
	if wide == wideVars {
		nv = 9 + r.Intn(12)
	}
	ids := map[uint64]bool{}
	var idl []uint64
	for len(idl) < nv {
		id := uint64(r.Intn(nv + 5))
		if r.Chance(0.12) {
			id += []uint64{256, 65536, 1 << 32, 1 << 40}[r.Intn(4)]
		}
		if !ids[id] {
			ids[id] = true
			idl = append(idl, id)
		}
	}
	for i := 0; i < nv; i++ {
		v := sym.Variable{ID: idl[i], Lower: float64(-sym.Infinity), Upper: float64(sym.Infinity), Type: sym.Continuous, Environment: &env0}
		v.Name = fmt.Sprintf("x_%d", v.ID)
		if r.Chance(0.25) {
			v.Lower, v.Upper = -float64(r.Intn(5)), float64(1+r.Intn(9))
		}
		if r.Chance(0.15) {
			v.Lower, v.Upper, v.Type = 0, 1, sym.Binary
		} else if r.Chance(0.1) {
			v.Type = sym.Integer
		}
		if r.Chance(0.3) {
			v.Name = string(rune('a' + i))
		} else if r.Chance(0.04) {
			v.Name = []string{"p%d", "%v", "q%s%", "\u03b1", "x_{1}", "load.a"}[r.Intn(6)] + string(rune('a'+i))
		}
		w.vars = append(w.vars, v)
	}
	// names are for the reader only: in some worlds several variables have one name
	if r.Chance(0.07) {
		switch r.Intn(4) {
		case 0:
			for i := range w.vars {
				w.vars[i].Name = "x"
			}
		case 1:
			for i := range w.vars {
				w.vars[i].Name = ""
			}
		default:
			w.vars[r.Intn(nv)].Name = w.vars[r.Intn(nv)].Name
		}
	}
	env0.Variables = append(env0.Variables, w.vars...)
	vr := func() sym.Variable { return w.vars[r.Intn(nv)] }
	if spec.Only == "env" {
		// environments under test only
		w.envs.envs = w.envs.envs[:1]
		w.envs.names = w.envs.names[:1]
		for i := range w.vars {
			w.vars[i].Environment = &sym.DefaultEnvironment
		}
	}
	for _, v := range w.vars {
		add(v)
	}
	for i := 0; i < spec.Envs; i++ {
		e := sym.MakeBasicEnvironment(fmt.Sprintf("env%d", i))
		w.envs.envs = append(w.envs.envs, &e)
		w.envs.names = append(w.envs.names, fmt.Sprintf("env%d", i))
		add(&e)
	}
	for i := 0; i < spec.SimEs; i++ {
		e := &SimEnv{name: fmt.Sprintf("sim%d", i), envs: &w.envs}
		w.envs.envs = append(w.envs.envs, e)
		w.envs.names = append(w.envs.names, e.name)
		w.simEs = append(w.simEs, e)
		add(e)
	}
	if spec.Only == "env" {
		add(&sym.DefaultEnvironment)
		// in some worlds much has been registered before
		crowd := 0
		if r.Chance(0.12) {
			crowd = 8 + r.Intn(32)
			switch d := r.Intn(10); {
			case d < 2:
				crowd += 30 + r.Intn(80)
			case d == 2:
				crowd += 220 + r.Intn(50)
			}
			for i, e := range w.envs.envs {
				w.preload(r, i, e, crowd)
			}
		}
		// variables made by hand, some with identities that creation will want
		for i := 0; i < 6; i++ {
			id := uint64(r.Intn(8))
			if crowd > 0 {
				id += uint64(r.Intn(crowd + 6))
			}
			if r.Chance(0.08) {
				id += []uint64{256, 65536, 1 << 32, 1 << 40, 1 << 63}[r.Intn(5)]
			}
			v := sym.Variable{ID: id, Lower: -float64(i), Upper: float64(i + 1), Type: sym.Integer, Name: fmt.Sprintf("hand%d_%d", i, id), Environment: w.envs.envs[r.Intn(len(w.envs.envs))]}
			add(v)
		}
		w.pool = len(w.vals)
		return w
	}
	// In some worlds some coefficients are awkward: they need many digits, or
	// an exponent, to be written down, or nearly equal another one.
	awkward := r.Chance(0.2)
	coef := func() float64 {
		if awkward && r.Chance(0.3) {
			return oddCoefs[r.Intn(len(oddCoefs))]
		}
		c := float64(r.Intn(9)-4) / float64(1+r.Intn(2))
		if c == 0 && !r.Chance(0.2) {
			c = 1
		}
		return c
	}
	// In some worlds some monomials name a variable with exponent zero, or name
	// one twice.
	oddFactors := r.Chance(0.15)
	// arrays that several monomials are sub-slices of
	backVars := make([]sym.Variable, 12)
	backExps := make([]int, 12)
	for i := range backVars {
		backVars[i] = vr()
		backExps[i] = 1 + r.Intn(2)
	}
	perm := func(n int) []int {
		p := make([]int, n)
		for i := range p {
			p[i] = i
		}
		for i := n - 1; i > 0; i-- {
			j := r.Intn(i + 1)
			p[i], p[j] = p[j], p[i]
		}
		return p
	}
	mono := func(maxF int) sym.Monomial {
		n := r.Intn(maxF + 1)
		if wide == widePowers {
			n = r.Intn(7)
		}
		m := sym.Monomial{Coefficient: coef()}
		spare := r.Intn(3)
		if r.Chance(0.2) && maxF >= 2 {
			// a window of the common arrays, made of distinct variables
			o := r.Intn(8)
			k := 1
			if backVars[o].ID != backVars[o+1].ID {
				k = 2
			}
			m.VariableFactors = backVars[o : o+k]
			m.Exponents = backExps[o : o+k]
			return m
		}
		m.VariableFactors = make([]sym.Variable, 0, n+spare)
		m.Exponents = make([]int, 0, n+spare)
		maxE := 2
		if wide == widePowers {
			maxE = 7 / max(1, n)
		}
		for _, i := range perm(nv)[:min(n, nv)] {
			m.VariableFactors = append(m.VariableFactors, w.vars[i])
			m.Exponents = append(m.Exponents, 1+r.Intn(max(1, maxE)))
		}
		if wide == widePowers && n > 0 && n < 5 && r.Chance(0.35) {
			m.Exponents[r.Intn(len(m.Exponents))] = 8 + r.Intn(9)
		}
		if oddFactors && len(m.Exponents) > 0 && r.Chance(0.25) {
			if r.Chance(0.5) {
				m.Exponents[r.Intn(len(m.Exponents))] = 0
			} else {
				m.VariableFactors = append(m.VariableFactors, m.VariableFactors[r.Intn(len(m.Exponents))])
				m.Exponents = append(m.Exponents, 1)
			}
		}
		return m
	}
	permuted := func(m sym.Monomial) sym.Monomial {
		o := sym.Monomial{Coefficient: coef()}
		for _, i := range perm(len(m.VariableFactors)) {
			o.VariableFactors = append(o.VariableFactors, m.VariableFactors[i])
			o.Exponents = append(o.Exponents, m.Exponents[i])
		}
		return o
	}
	poly := func(maxT int) sym.Polynomial {
		n := 1 + r.Intn(maxT)
		if wide == wideSums && r.Chance(0.4) {
			n = 6 + r.Intn(15)
		}
		p := sym.Polynomial{Monomials: make([]sym.Monomial, 0, n+r.Intn(3))}
		for i := 0; i < n; i++ {
			if i > 0 && r.Chance(0.25) {
				p.Monomials = append(p.Monomials, permuted(p.Monomials[r.Intn(i)]))
			} else {
				p.Monomials = append(p.Monomials, mono(2))
			}
		}
		return p
	}
	for i := 0; i < 2; i++ {
		k := sym.K(coef())
		if spec.Bad2 && r.Chance(0.25) {
			k = 0
		} else if r.Chance(0.2) {
			k = sym.K(float64(r.Intn(3) - 1))
		}
		add(k)
	}
	var monos []sym.Monomial
	for i := 0; i < 4; i++ {
		monos = append(monos, mono(3))
	}
	monos = append(monos, permuted(monos[r.Intn(4)]))
	for _, m := range monos {
		add(m)
	}
	var polys []sym.Polynomial
	for i := 0; i < 3; i++ {
		polys = append(polys, poly(4))
	}
	if r.Chance(0.5) {
		// a polynomial whose terms are the other's first terms
		q := polys[0]
		polys = append(polys, sym.Polynomial{Monomials: q.Monomials[:1+r.Intn(len(q.Monomials))]})
	}
	for _, p := range polys {
		add(p)
	}
	// vectors and matrices, mostly of matching shapes
	n := 2 + r.Intn(2)
	m := 1 + r.Intn(3)
	if wide == wideVectors {
		n = 5 + r.Intn(13)
		if r.Chance(0.2) {
			n, m = 4+r.Intn(3), 4+r.Intn(3)
		}
	}
	kvec := func(n int) sym.KVector {
		o := make(sym.KVector, 0, n+r.Intn(3))
		for i := 0; i < n; i++ {
			o = append(o, sym.K(coef()))
		}
		return o
	}
	vvec := func(n int) sym.VariableVector {
		o := make(sym.VariableVector, 0, n+r.Intn(3))
		for i := 0; i < n; i++ {
			o = append(o, vr())
		}
		return o
	}
	mvec := func(n int) sym.MonomialVector {
		o := make(sym.MonomialVector, 0, n+r.Intn(3))
		for i := 0; i < n; i++ {
			if r.Chance(0.3) {
				o = append(o, monos[r.Intn(len(monos))])
			} else {
				o = append(o, mono(2))
			}
		}
		return o
	}
	pvec := func(n int) sym.PolynomialVector {
		o := make(sym.PolynomialVector, 0, n+r.Intn(3))
		for i := 0; i < n; i++ {
			if r.Chance(0.3) {
				o = append(o, polys[r.Intn(len(polys))])
			} else {
				o = append(o, poly(2))
			}
		}
		return o
	}
	add(kvec(n))
	add(kvec(m))
	long := vvec(n + 1)
	add(long[:n])
	add(long[1 : 1+n])
	add(vvec(m))
	mv := mvec(n)
	add(mv)
	add(mvec(m))
	pv := pvec(n)
	add(pv)
	add(pvec(m))
	if r.Chance(0.3) {
		add(vvec(1))
		add(pvec(1))
	}
	rows := func(nr, nc int) (int, int) {
		switch r.Intn(4) {
		case 0:
			return nr, nr
		case 1:
			return nc, nr
		}
		return nr, nc
	}
	for i := 0; i < 2; i++ {
		a, b := rows(n, m)
		var km sym.KMatrix
		for j := 0; j < a; j++ {
			km = append(km, []sym.K(kvec(b)))
		}
		add(km)
		a, b = rows(n, m)
		var vm sym.VariableMatrix
		for j := 0; j < a; j++ {
			vm = append(vm, []sym.Variable(vvec(b)))
		}
		add(vm)
		a, b = rows(n, m)
		var mm sym.MonomialMatrix
		for j := 0; j < a; j++ {
			mm = append(mm, []sym.Monomial(mvec(b)))
		}
		add(mm)
		a, b = rows(n, m)
		var pm sym.PolynomialMatrix
		for j := 0; j < a; j++ {
			pm = append(pm, []sym.Polynomial(pvec(b)))
		}
		add(pm)
	}
	if r.Chance(0.4) && n <= 6 {
		// a square matrix with rows cut from one array
		all := pvec(n * n)
		var pm sym.PolynomialMatrix
		for j := 0; j < n; j++ {
			pm = append(pm, []sym.Polynomial(all[j*n:(j+1)*n]))
		}
		add(pm)
	}
	// constraints
	senses := []sym.ConstrSense{sym.SenseEqual, sym.SenseLessThanEqual, sym.SenseGreaterThanEqual}
	scalarOf := func() sym.ScalarExpression {
		switch r.Intn(4) {
		case 0:
			return sym.K(coef())
		case 1:
			return vr()
		case 2:
			return monos[r.Intn(len(monos))]
		}
		return polys[r.Intn(len(polys))]
	}
	maxL := min(3, nv)
	if wide == wideVars {
		maxL = nv
	}
	linear := func() sym.Polynomial {
		p := sym.Polynomial{}
		for _, i := range perm(nv)[:1+r.Intn(maxL)] {
			p.Monomials = append(p.Monomials, sym.Monomial{Coefficient: coef(), Exponents: []int{1}, VariableFactors: []sym.Variable{w.vars[i]}})
		}
		if r.Chance(0.5) {
			p.Monomials = append(p.Monomials, sym.Monomial{Coefficient: coef(), Exponents: []int{}, VariableFactors: []sym.Variable{}})
		}
		return p
	}
	add(linear())
	add(sym.ScalarConstraint{LeftHandSide: scalarOf(), RightHandSide: scalarOf(), Sense: senses[r.Intn(3)]})
	add(sym.ScalarConstraint{LeftHandSide: linear(), RightHandSide: sym.K(coef()), Sense: senses[r.Intn(3)]})
	add(sym.ScalarConstraint{LeftHandSide: vr(), RightHandSide: sym.K(coef()), Sense: senses[r.Intn(3)]})
	add(sym.VectorConstraint{LeftHandSide: long[:n], RightHandSide: kvec(n), Sense: senses[r.Intn(3)]})
	add(sym.VectorConstraint{LeftHandSide: pv, RightHandSide: mv, Sense: senses[r.Intn(3)]})
	{
		var a sym.PolynomialMatrix
		var b sym.KMatrix
		for j := 0; j < n; j++ {
			a = append(a, []sym.Polynomial(pvec(m)))
			b = append(b, []sym.K(kvec(m)))
		}
		add(sym.MatrixConstraint{LeftHandSide: a, RightHandSide: b, Sense: senses[r.Intn(3)]})
	}
	// lists and maps
	if wide == wideVars {
		add([]sym.Variable(vvec(nv + r.Intn(nv))))
	} else {
		add([]sym.Variable(vvec(1 + r.Intn(4))))
	}
	var distinct []sym.Variable
	for _, i := range perm(nv) {
		distinct = append(distinct, w.vars[i])
	}
	add(distinct)
	add(append(make([]sym.Variable, 0, nv+2), distinct[:1+r.Intn(nv)]...))
	if r.Chance(0.2) {
		// a variable is known by its identity: the caller may have edited the
		// name, type or bounds of the copy it asks with
		edited := append([]sym.Variable(nil), distinct...)
		for k := 1 + r.Intn(2); k > 0; k-- {
			v := &edited[r.Intn(nv)]
			switch r.Intn(3) {
			case 0:
				v.Name += "'"
			case 1:
				v.Type = varTypes[r.Intn(len(varTypes))]
			default:
				v.Lower, v.Upper = -7, 7
			}
		}
		add(edited)
	}
	cyc := map[sym.Variable]sym.Expression{}
	p := perm(nv)
	k := 2 + r.Intn(nv-1)
	for i := 0; i < k; i++ {
		cyc[w.vars[p[i]]] = w.vars[p[(i+1)%k]]
	}
	add(cyc)
	img := map[sym.Variable]sym.Expression{}
	for i := 0; i < 1+r.Intn(nv); i++ {
		switch r.Intn(5) {
		case 0:
			img[w.vars[p[i]]] = sym.K(coef())
		case 1:
			img[w.vars[p[i]]] = vr()
		case 2:
			img[w.vars[p[i]]] = mono(2)
		case 3:
			img[w.vars[p[i]]] = linear()
		default:
			img[w.vars[p[i]]] = poly(2)
		}
	}
	add(img)
	// numeric containers
	vd := mat.NewVecDense(n, nil)
	for i := 0; i < n; i++ {
		vd.SetVec(i, coef())
	}
	add(*vd)
	vd2 := mat.NewVecDense(m, nil)
	for i := 0; i < m; i++ {
		vd2.SetVec(i, coef())
	}
	add(*vd2)
	for i := 0; i < 2; i++ {
		a, b := rows(n, m)
		d := mat.NewDense(a, b, nil)
		for x := 0; x < a; x++ {
			for y := 0; y < b; y++ {
				d.Set(x, y, coef())
			}
		}
		add(*d)
	}
	if r.Chance(0.4) {
		nums := func(k int) []float64 {
			l := make([]float64, 0, k+2)
			for i := 0; i < k; i++ {
				l = append(l, coef())
			}
			return l
		}
		add(nums(n))
		var ns []int
		for i := 0; i < m; i++ {
			ns = append(ns, r.Intn(9)-4)
		}
		add(ns)
		var nss [][]float64
		for i := 0; i < n; i++ {
			nss = append(nss, nums(m))
		}
		if n > 1 && r.Chance(0.35) {
			k, l := r.Intn(n), []int{m - 1, m + 1}[r.Intn(2)]
			nss[k] = nums(l)
			if b := r.Intn(n); b != k && r.Chance(0.5) {
				nss[b] = nums(2*m - l)
			}
		}
		add(nss)
	}
	if r.Chance(0.25) {
		// one element in the form of a matrix
		switch r.Intn(4) {
		case 0:
			add(sym.KMatrix{kvec(1)})
		case 1:
			add(sym.VariableMatrix{vvec(1)})
		case 2:
			add(sym.MonomialMatrix{mvec(1)})
		default:
			add(sym.PolynomialMatrix{pvec(1)})
		}
	}
	var sl []sym.ScalarExpression
	for i := 0; i < n; i++ {
		sl = append(sl, scalarOf())
	}
	add(sl)
	grid := make([][]sym.ScalarExpression, n)
	for i := range grid {
		for j := 0; j < m; j++ {
			grid[i] = append(grid[i], scalarOf())
		}
	}
	add(grid)
	if spec.Single {
		x, y := w.vars[0], w.vars[1]
		side := func(k int) sym.ScalarExpression {
			v := x
			if r.Chance(0.15) {
				v = y
			}
			c := []float64{-2, -1, -0.5, 0.5, 1, 2, 4}[r.Intn(7)]
			switch k {
			case 0:
				return sym.K(float64(r.Intn(13)-6) / 2)
			case 1:
				return v
			case 2:
				e := 1
				if r.Chance(0.12) {
					e = 2
				}
				return sym.Monomial{Coefficient: c, Exponents: []int{e}, VariableFactors: []sym.Variable{v}}
			}
			p := sym.Polynomial{Monomials: []sym.Monomial{
				{Coefficient: c, Exponents: []int{1}, VariableFactors: []sym.Variable{v}},
				{Coefficient: float64(r.Intn(9)-4) / 2},
			}}
			if r.Chance(0.3) {
				p.Monomials[0], p.Monomials[1] = p.Monomials[1], p.Monomials[0]
			}
			if r.Chance(0.25) {
				u := v
				if r.Chance(0.5) {
					u = y
				}
				p.Monomials = append(p.Monomials, sym.Monomial{Coefficient: coef(), Exponents: []int{1 + r.Intn(2)}, VariableFactors: []sym.Variable{u}})
			}
			return p
		}
		var ls, rs []sym.Polynomial
		for i := 0; i < 9; i++ {
			l, rr := side(1+r.Intn(3)), side([]int{0, 0, 0, 1, 2, 3}[r.Intn(6)])
			if r.Chance(0.2) {
				l, rr = rr, l
			}
			add(sym.ScalarConstraint{LeftHandSide: l, RightHandSide: rr, Sense: senses[r.Intn(3)]})
			if p, ok := l.(sym.Polynomial); ok {
				ls = append(ls, p)
			}
			if p, ok := rr.(sym.Polynomial); ok {
				rs = append(rs, p)
			}
		}
		ls = append(ls, side(3).(sym.Polynomial), side(3).(sym.Polynomial))
		add(sym.VectorConstraint{LeftHandSide: sym.PolynomialVector(ls[:2]), RightHandSide: kvec(2), Sense: senses[r.Intn(3)]})
		add(sym.MatrixConstraint{LeftHandSide: sym.PolynomialMatrix{ls[:1], ls[1:2]}, RightHandSide: sym.KMatrix{kvec(1), kvec(1)}, Sense: senses[r.Intn(3)]})
		for _, p := range rs {
			add(p)
		}
	}
	if spec.Bad {
		v := vr()
		switch r.Intn(6) {
		case 0:
			add(sym.Monomial{Coefficient: 2, Exponents: []int{1, 2}, VariableFactors: []sym.Variable{v}})
		case 1:
			add(sym.Polynomial{})
		case 2:
			b := v
			b.Lower, b.Upper = 3, 1
			b.Type = varTypes[r.Intn(len(varTypes))]
			add(b)
		case 3:
			add(sym.PolynomialMatrix{[]sym.Polynomial{poly(1)}, []sym.Polynomial{poly(1), poly(1)}})
		case 4:
			add(sym.VariableVector{})
		case 5:
			add(sym.ScalarConstraint{LeftHandSide: v, RightHandSide: sym.K(1), Sense: 'x'})
		}
	}
	if spec.Bad2 {
		v := vr()
		bm := sym.Monomial{Coefficient: 2, Exponents: []int{1, 2}, VariableFactors: []sym.Variable{v}}
		switch r.Intn(3) {
		case 0:
			bm = sym.Monomial{Coefficient: 1, Exponents: []int{1}}
		case 1:
			bm = sym.Monomial{Coefficient: 3, VariableFactors: []sym.Variable{v}}
		}
		bp := sym.Polynomial{}
		if r.Chance(0.6) {
			bp = poly(3)
			bp.Monomials[r.Intn(len(bp.Monomials))] = bm
		}
		bv := v
		bv.Lower, bv.Upper = 3, float64(r.Intn(4))
		bv.Type = varTypes[r.Intn(len(varTypes))]
		// shapes of any kind, the odd row or element anywhere
		nr, nc := 1+r.Intn(4), 1+r.Intn(4)
		odd := func(row int) int {
			if row > 0 {
				return []int{nc - 1, nc + 1, 0}[r.Intn(3)]
			}
			return nc + 1
		}
		ragged := func(row func(n int)) {
			nr = 2 + r.Intn(3)
			k, back := r.Intn(nr), -1
			n := odd(k)
			if nr > 2 && n > 0 && r.Chance(0.4) {
				// another row makes up for it
				back = 1 + r.Intn(nr-1)
			}
			for i := 0; i < nr; i++ {
				switch {
				case i == k:
					row(n)
				case i == back && 2*nc-n > 0:
					row(2*nc - n)
				default:
					row(nc)
				}
			}
		}
		all := []func(){
			func() { add(bm) },
			func() { add(bp) },
			func() { add(bv) },
			func() { m := mvec(n); m[r.Intn(n)] = bm; add(m) },
			func() { p := pvec(n); p[r.Intn(n)] = bp; add(p) },
			func() { add(sym.VariableVector{}) },
			func() { x := vvec(n); x[r.Intn(n)] = bv; add(x) },
			func() {
				var m sym.VariableMatrix
				for i := 0; i < nr; i++ {
					m = append(m, []sym.Variable(vvec(nc)))
				}
				m[r.Intn(nr)][r.Intn(nc)] = bv
				add(m)
			},
			func() { add(sym.MonomialVector{}) },
			func() { add(sym.PolynomialVector{}) },
			func() { add(sym.KVector{}) },
			func() { var m sym.KMatrix; ragged(func(n int) { m = append(m, []sym.K(kvec(n))) }); add(m) },
			func() {
				var m sym.VariableMatrix
				ragged(func(n int) { m = append(m, []sym.Variable(vvec(n))) })
				add(m)
			},
			func() {
				var m sym.MonomialMatrix
				ragged(func(n int) { m = append(m, []sym.Monomial(mvec(n))) })
				add(m)
			},
			func() {
				var m sym.PolynomialMatrix
				ragged(func(n int) { m = append(m, []sym.Polynomial(pvec(n))) })
				add(m)
			},
			func() {
				var m sym.MonomialMatrix
				for i := 0; i < nr; i++ {
					m = append(m, []sym.Monomial(mvec(nc)))
				}
				m[r.Intn(nr)][r.Intn(nc)] = bm
				add(m)
			},
			func() {
				var m sym.PolynomialMatrix
				for i := 0; i < nr; i++ {
					m = append(m, []sym.Polynomial(pvec(nc)))
				}
				m[r.Intn(nr)][r.Intn(nc)] = bp
				add(m)
			},
			func() { add(sym.KMatrix{}) },
			func() { add(sym.MonomialMatrix{}) },
			func() { add(sym.PolynomialMatrix{}) },
			func() { add(sym.VariableMatrix{}) },
			func() { add(sym.ScalarConstraint{LeftHandSide: v, RightHandSide: sym.K(1), Sense: 'x'}) },
			func() {
				add(sym.ScalarConstraint{LeftHandSide: bm, RightHandSide: scalarOf(), Sense: senses[r.Intn(3)]})
			},
			func() {
				add(sym.ScalarConstraint{LeftHandSide: scalarOf(), RightHandSide: bp, Sense: senses[r.Intn(3)]})
			},
			func() {
				add(sym.VectorConstraint{LeftHandSide: vvec(n), RightHandSide: kvec(n + 1), Sense: senses[r.Intn(3)]})
			},
			func() { add(sym.VectorConstraint{LeftHandSide: vvec(n), RightHandSide: kvec(n), Sense: 0}) },
			func() {
				add(sym.MatrixConstraint{LeftHandSide: sym.VariableMatrix{vvec(n)}, RightHandSide: sym.KMatrix{kvec(n + 1)}, Sense: senses[r.Intn(3)]})
			},
			func() {
				add(sym.MatrixConstraint{LeftHandSide: sym.VariableMatrix{vvec(n)}, RightHandSide: sym.KMatrix{kvec(n)}, Sense: 7})
			},
			func() {
				// a row too many on one side
				l, k := sym.VariableMatrix{vvec(nc)}, sym.KMatrix{kvec(nc)}
				for i := 1; i < nr; i++ {
					l, k = append(l, vvec(nc)), append(k, kvec(nc))
				}
				if r.Chance(0.5) {
					l = append(l, vvec(nc))
				} else {
					k = append(k, kvec(nc))
				}
				add(sym.MatrixConstraint{LeftHandSide: l, RightHandSide: k, Sense: senses[r.Intn(3)]})
			},
		}
		for i := 0; i < 5; i++ {
			all[r.Intn(len(all))]()
		}
	}
	w.pool = len(w.vals)
	return w
}

const (
	wideVars = 1 + iota
	wideVectors
	wideSums
	widePowers
)

var varTypes = []sym.VarType{sym.Continuous, sym.Binary, sym.Integer}

// oddCoefs are all exactly representable in the model's range.
var oddCoefs = []float64{1.0 / (1 << 20), -1.0 / (1 << 20), 1 + 1.0/(1<<20), 1 - 1.0/(1<<20), -1 - 1.0/(1<<20), 2 + 1.0/(1<<18),
	1.0 / (1 << 10), -1.0 / (1 << 10), 3 + 1.0/(1<<12), 12345.0625, 65536.5, 1000000, -1000000, 1234567.890625,
	3 << 30, -(5 << 29), 1 << 31}

// preload registers n variables in an environment before anything else happens.
func (w *World) preload(r *simrt.Rng, at int, e sym.Environment, n int) {
	var ids []uint64
	next := uint64(0)
	gaps := r.Chance(0.3)
	for i := 0; i < n; i++ {
		ids = append(ids, next)
		next++
		if gaps && r.Chance(0.2) {
			next += uint64(1 + r.Intn(3))
		}
	}
	if r.Chance(0.5) {
		for i := n - 1; i > 0; i-- {
			j := r.Intn(i + 1)
			ids[i], ids[j] = ids[j], ids[i]
		}
	}
	if w.early == nil {
		w.early = map[string][]earlyVar{}
	}
	defer func() { recover() }()
	for i, id := range ids {
		v := sym.Variable{ID: id, Lower: -1, Upper: float64(i + 1), Type: sym.Continuous, Name: fmt.Sprintf("early%d", id), Environment: e}
		ok := e.TrackVariable(v)
		w.early[w.envs.names[at]] = append(w.early[w.envs.names[at]], earlyVar{v, ok})
	}
}

// earlyVar is a variable registered before the run, or refused.
type earlyVar struct {
	v  sym.Variable
	ok bool
}
