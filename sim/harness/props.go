package main

import (
	"fmt"
	"reflect"
	"strings"

	sym "SIMMODULE/symbolic"
	"SIMMODULE/verifsim/simrt"
	"gonum.org/v1/gonum/mat"
)

// Result of running a case.
type Result struct {
	viol   *Violation
	traces [][]simrt.Preempt
	hash   uint64 // what happened, step by step
	out    uint64 // what the caller saw (C05 only)
}

// Property ties a property to how its cases are drawn and judged.
type Property struct {
	id  string
	gen func(seed uint64) *Case
	run func(c *Case) Result
}

var properties = map[string]*Property{}

func register(p *Property) { properties[p.id] = p }

func (x *Exec) hash() uint64 {
	h := uint64(7)
	for i, o := range x.out {
		h = simrt.Mix(h, uint64(i), o.dig, uint64(o.n), hashBytes([]byte(o.kind)), hashBytes([]byte(x.texts[i])))
	}
	return h
}

func (x *Exec) result(vs ...*Exec) Result {
	r := Result{viol: x.viol, traces: x.traces, hash: x.hash()}
	for _, t := range x.traces {
		for _, p := range t {
			r.hash = simrt.Mix(r.hash, uint64(p.Task+1), uint64(p.Op+2), uint64(p.K), uint64(p.To))
		}
	}
	for _, v := range vs {
		r.hash = simrt.Mix(r.hash, v.hash())
	}
	return r
}

func baseProfile() *Profile {
	return &Profile{FnShare: 0.15, Bad: 0.06, Fresh: 1.5, MaxTerms: 40}
}

func (c *Case) mapOrders(r *simrt.Rng) {
	for i := range c.Sched {
		c.Sched[i].MapOrder = r.Intn(3)
		c.Sched[i].MapSeed = r.Uint64()
		if r.Chance(0.5) {
			c.Sched[i].ClockOff = int64(r.Uint64() >> 10)
		}
	}
}

func seedRng(seed uint64, k uint64) *simrt.Rng { return simrt.NewRng(simrt.Mix(seed, k)) }

// ---- C01: values never change ----

func init() {
	register(&Property{id: "C01", gen: genC01, run: runC01})
	register(&Property{id: "C02", gen: genC02, run: runC02})
	register(&Property{id: "C05", gen: genC05, run: runC05})
	register(&Property{id: "C06", gen: genC06, run: runModel})
	register(&Property{id: "C09", gen: genC09, run: runC09})
	register(&Property{id: "C10", gen: genC10, run: runModel})
}

func genC01(seed uint64) *Case {
	r := seedRng(seed, 11)
	prof := baseProfile()
	prof.Bad = 0.1
	c, _ := generate("C01", seed, PoolSpec{Seed: seed, Bad: r.Chance(0.2)}, drawShape(r), prof, nil)
	return c
}

func runC01(c *Case) Result {
	w := newWorld(c.Pool)
	x := newExec(w, c.nOps(), false)
	argDig := map[int][]uint64{}
	check := func(op int, when string) {
		if x.viol != nil {
			return
		}
		stats.Checks++
		if i := w.changed(); i >= 0 {
			x.fail("C01", "changed:"+reflect.TypeOf(w.vals[i]).String(), op, "value %d (%T) changed %s; it is now %s", i, w.vals[i], when, show(w.vals[i]))
		}
	}
	x.before = func(op *Op, p *prepared) {
		var d []uint64
		for _, a := range p.args {
			d = append(d, w.digest(a))
		}
		argDig[op.ID] = d
	}
	x.after = func(op *Op, p *prepared, o *Outcome, outs []any) {
		if simrt.RaceBuild {
			return
		}
		for i, a := range p.args {
			if w.digest(a) != argDig[op.ID][i] && !isEnv(a) {
				x.fail("C01", "argument:"+op.Fn, op.ID, "operation %s changed its argument %d, which is now %s", op.Fn, i, show(a))
			}
		}
		check(op.ID, "during or before "+describeDone(w, op, o))
	}
	mid := uint64(0)
	x.runPhases(c, func(task, site int) {
		// looking at everything is dear: at the first preemptions, then at some
		mid++
		if site >= 0 && (mid <= 8 || simrt.Mix(c.Seed, mid)%64 == 0) {
			check(-1, fmt.Sprintf("in the middle of an operation of task %d (seen at a preemption before %s:%d)", task, simrt.Sites[site].File, simrt.Sites[site].Line))
		}
	}, nil)
	x.tally(c)
	return x.result()
}

func describeDone(w *World, op *Op, o *Outcome) string {
	s := fmt.Sprintf("operation %d %s -> %s", op.ID, op.describe(w), o.kind)
	if o.why != "" {
		s += " (" + o.why + ")"
	}
	return s
}

// ---- C02: concurrent = alone, race-free ----

func genC02(seed uint64) *Case {
	r := seedRng(seed, 12)
	if simrt.RaceBuild && r.Chance(0.3) {
		// environments: their answers depend on the order of the calls (C03
		// and C04 judge them), so only conflicting accesses are looked for
		c := genC04(seed)
		c.Prop = "C02"
		c.Opt["races only"] = 1
		return c
	}
	prof := baseProfile()
	c, _ := generate("C02", seed, PoolSpec{Seed: seed, Bad: r.Chance(0.15)}, drawShape(r), prof, nil)
	return c
}

// soloOf runs the case's operations one by one on private copies.
func soloOf(c *Case, sc Sched, text bool) *Exec {
	x := newExec(newWorld(c.Pool), c.nOps(), true)
	x.wantText = text
	x.runSolo(c, sc, c.order())
	return x
}

func runC02(c *Case) Result {
	// some executions are the first use of the library in their process
	fresh := c.Seed%4 <= 1
	if fresh {
		simrt.Reset()
	}
	if c.Opt["races only"] == 1 {
		x := newExec(newWorld(c.Pool), c.nOps(), false)
		x.noScrib = true
		races := simrt.RaceErrors()
		x.runPhases(c, nil, nil)
		stats.Checks++
		if n := simrt.RaceErrors() - races; n > 0 {
			x.fail("C02", "race", -1, "data race: the race detector reports %d conflicting unsynchronised accesses", n)
		}
		x.tally(c)
		return x.result()
	}
	solo := soloOf(c, Sched{}, false)
	aborted := false
	for _, o := range solo.out {
		aborted = aborted || o.kind == "abort"
	}
	if fresh {
		simrt.Reset()
	}
	w := newWorld(c.Pool)
	x := newExec(w, c.nOps(), false)
	races := simrt.RaceErrors()
	dead, capHit := x.runPhases(c, nil, nil)
	if !aborted && x.viol == nil {
		if dead != "" {
			x.fail("C02", "deadlock", -1, "the tasks block each other for ever although every call returns when it runs alone: %s", dead)
		} else if capHit {
			x.fail("C02", "no-progress", -1, "a call did not return within %d steps although it does when it runs alone", stepCap)
		}
		for _, op := range c.order() {
			a, b := solo.out[op.ID], x.out[op.ID]
			stats.Checks++
			if b.kind == "none" || b.kind == "skip" || b.kind == "abort" || a.kind == "skip" || a.kind == "none" {
				continue
			}
			if !a.same(b) {
				x.fail("C02", "differs:"+op.Fn, op.ID, "operation %d %s gave %s when run concurrently but %s when run alone", op.ID, op.describe(solo.w), x.outcomeText(op.ID), solo.outcomeText(op.ID))
			}
		}
		if n := simrt.RaceErrors() - races; n > 0 {
			x.fail("C02", "race", -1, "data race: the race detector reports %d conflicting unsynchronised accesses", n)
		}
	}
	x.tally(c)
	return x.result(solo)
}

func (x *Exec) outcomeText(id int) string {
	o := x.out[id]
	s := o.kind
	if o.why != "" {
		s += " (" + o.why + ")"
	}
	for k := 0; k < o.n && k < outsPerOp; k++ {
		slot := x.w.slotOf(id, k)
		if x.w.set[slot] {
			s += " " + show(x.w.vals[slot])
		}
	}
	return s
}

// ---- C05: repeatable ----

func genC05(seed uint64) *Case {
	r := seedRng(seed, 15)
	prof := baseProfile()
	c, _ := generate("C05", seed, PoolSpec{Seed: seed, Bad: r.Chance(0.1)}, drawShape(r), prof, nil)
	c.mapOrders(r)
	return c
}

func runC05(c *Case) Result {
	ref := soloOf(c, Sched{}, true)
	for _, o := range ref.out {
		if o.kind == "abort" {
			return ref.result()
		}
	}
	fail := func(how string, op *Op, y *Exec) {
		ref.fail("C05", "differs:"+op.Fn, op.ID, "operation %d %s was repeated on the same operands %s: first %s %q, then %s %q", op.ID, op.describe(ref.w), how, ref.outcomeText(op.ID), clip(ref.texts[op.ID]), y.outcomeText(op.ID), clip(y.texts[op.ID]))
	}
	differs := func(op *Op, y *Exec) bool {
		stats.Checks++
		a, b := ref.out[op.ID], y.out[op.ID]
		if b.kind == "none" || b.kind == "abort" || b.kind == "skip" || a.kind == "skip" {
			return false
		}
		return !a.same(b) || ref.texts[op.ID] != y.texts[op.ID]
	}
	variants := []struct {
		how   string
		sc    Sched
		order int
	}{
		{"with maps walked backwards, another clock and another history", Sched{MapOrder: int(simrt.MapReverse), ClockOff: 1 << 58, RandSeed: 99}, 1},
		{"with maps walked in random order and another history", Sched{MapOrder: int(simrt.MapShuffled), MapSeed: c.Seed, RandSeed: 7, ClockOff: -(1 << 57)}, 2},
		{"twice in a row", Sched{RandSeed: 3}, 3},
	}
	for vi, v := range variants {
		order := c.order()
		switch v.order {
		case 1:
			for i, j := 0, len(order)-1; i < j; i, j = i+1, j-1 {
				order[i], order[j] = order[j], order[i]
			}
		case 2:
			r := seedRng(c.Seed, 99)
			for i := len(order) - 1; i > 0; i-- {
				j := r.Intn(i + 1)
				order[i], order[j] = order[j], order[i]
			}
		case 3:
			var o2 []*Op
			for _, op := range order {
				o2 = append(o2, op, op)
			}
			order = o2
		}
		y := newExec(newWorld(c.Pool), c.nOps(), true)
		y.wantText = true
		y.w.envs = ref.w.envs
		y.src = ref.w
		y.runSolo(c, v.sc, order)
		for _, op := range c.order() {
			if differs(op, y) {
				fail(v.how, op, y)
				res := ref.result()
				res.hash = simrt.Mix(res.hash, uint64(vi))
				return res
			}
		}
	}
	// in a process that has not used the library yet
	if c.Seed%6 == 0 && simrt.Reset() {
		stats.Extra["compared with a fresh process"]++
		y := newExec(newWorld(c.Pool), c.nOps(), true)
		y.wantText = true
		y.w.envs = ref.w.envs
		y.src = ref.w
		y.runSolo(c, Sched{}, c.order())
		for _, op := range c.order() {
			if differs(op, y) {
				fail("in a process that has not used the library before", op, y)
				return ref.result()
			}
		}
	}
	// concurrently, with maps walked in any order
	x := newExec(newWorld(c.Pool), c.nOps(), false)
	x.wantText = true
	x.runPhases(c, nil, nil)
	for _, op := range c.order() {
		if differs(op, x) {
			fail("while other tasks ran, with another map order, clock and random source", op, x)
			break
		}
	}
	x.viol = ref.viol
	x.tally(c)
	res := x.result(ref)
	res.out = ref.hash()
	return res
}

func clip(s string) string {
	if len(s) > 200 {
		return s[:200] + "..."
	}
	return s
}

// ---- C06 and C10: agreement with the reference model ----

func genC06(seed uint64) *Case {
	r := seedRng(seed, 16)
	prof := baseProfile()
	prof.FnShare = 0.1
	prof.Bad = 0.03
	prof.Weight = func(recv any, n string) int {
		switch n {
		case "SubstituteAccordingTo":
			return 12
		case "Substitute":
			return 4
		case "Plus", "Multiply", "DerivativeWrt":
			return 1
		}
		return 0
	}
	prof.FnWeight = func(n string) int {
		switch shortFn(n) {
		case "VectorSubstituteTemplate", "MatrixSubstituteTemplate":
			return 3
		case "VStack", "HStack", "ConcretizeExpression":
			return 1
		}
		return 0
	}
	c, _ := generate("C06", seed, PoolSpec{Seed: seed}, drawShape(r), prof, nil)
	c.mapOrders(r)
	return c
}

func genC10(seed uint64) *Case {
	r := seedRng(seed, 20)
	prof := baseProfile()
	prof.Fresh = 3
	prof.FnShare = 0.25
	prof.Weight = func(recv any, n string) int {
		if _, ok := recv.(sym.Constraint); ok {
			return 0
		}
		if isEnv(recv) {
			return 0
		}
		switch n {
		case "Plus", "Multiply":
			return 8
		case "Minus":
			return 6
		case "Power", "DerivativeWrt", "Substitute", "SubstituteAccordingTo", "Transpose", "AsSimplifiedExpression", "Simplify":
			return 4
		case "At", "AtVec":
			return 3
		case "Copy", "ToMonomial", "ToPolynomial", "ToMonomialVector", "ToPolynomialVector", "ToMonomialMatrix", "ToPolynomialMatrix", "ToVariable", "ToDense", "ToVecDense", "ToScalarExpressions":
			return 2
		}
		return 0
	}
	prof.FnWeight = func(n string) int {
		switch shortFn(n) {
		case "HStack", "VStack", "Minus":
			return 5
		case "ConcretizeExpression", "ConcretizeVectorExpression", "ConcretizeMatrixExpression", "MatrixMultiplyTemplate", "MatrixPlusTemplate", "VectorPlusTemplate", "VectorMultiplyTemplate",
			"MatrixPowerTemplate", "ScalarPowerTemplate", "VectorPowerTemplate", "MatrixSubstituteTemplate", "VectorSubstituteTemplate":
			return 3
		case "ToExpression", "ToScalarExpression", "ToVectorExpression", "ToMatrixExpression", "ToPolynomialLike", "ToPolynomialLikeScalar", "ToPolynomialLikeVector", "ToPolynomialLikeMatrix",
			"From", "VecDenseToKVector", "DenseToKMatrix":
			return 1
		}
		return 0
	}
	c, _ := generate("C10", seed, PoolSpec{Seed: seed, Bad: r.Chance(0.1)}, drawShape(r), prof, nil)
	c.mapOrders(r)
	return c
}

// modelled keeps what each value means at the moment it was obtained.
type modelled struct {
	m  []Mat
	ok []bool
}

func newModelled(w *World) *modelled {
	m := &modelled{make([]Mat, len(w.vals)), make([]bool, len(w.vals))}
	for i := range w.vals {
		if w.set[i] {
			m.m[i], m.ok[i] = denote(w.vals[i])
		}
	}
	return m
}

func (md *modelled) of(a Arg, actual any) (Mat, bool) {
	if a.K == "slot" || a.K == "ptr" {
		return md.m[a.S], md.ok[a.S]
	}
	return denote(actual)
}

func wellFormed(v any) bool {
	switch x := v.(type) {
	case sym.Constraint:
		l, r, _ := sides(x)
		return wellFormed(l) && wellFormed(r)
	}
	m := metaOf(v)
	return !m.bad
}

// expect is what the model says about an operation.
func (md *modelled) expect(op *Op, p *prepared) (want Mat, known bool) {
	var args []any = p.args
	argM := make([]Mat, len(args))
	argOK := make([]bool, len(args))
	for i := range args {
		argM[i], argOK[i] = md.of(op.Args[i], args[i])
	}
	if op.Recv >= 0 {
		if !md.ok[op.Recv] {
			return Mat{}, false
		}
		return modelOp(op.Fn, md.m[op.Recv], args, argM, argOK)
	}
	name := shortFn(op.Fn)
	if name == "From" {
		if strings.Contains(op.Fn, "KVector") {
			name = "KVector.From"
		} else {
			name = "KMatrix.From"
		}
	}
	return modelFn(name, args, argM, argOK)
}

// followed repeats the model's work on the operands as they are written.
func followed(op *Op, p *prepared) bool {
	return followable(func() (Mat, bool) {
		md := &modelled{make([]Mat, 1), make([]bool, 1)}
		o := *op
		if op.Recv >= 0 {
			o.Recv = 0
			md.m[0], md.ok[0] = denote(p.recv)
		}
		o.Args = make([]Arg, len(p.args))
		return md.expect(&o, p)
	})
}

func runModel(c *Case) Result {
	w := newWorld(c.Pool)
	x := newExec(w, c.nOps(), false)
	md := newModelled(w)
	prop := c.Prop
	x.after = func(op *Op, p *prepared, o *Outcome, outs []any) {
		for k := range outs {
			if k < outsPerOp {
				s := w.slotOf(op.ID, k)
				md.m[s], md.ok[s] = denote(outs[k])
			}
		}
		if prop == "C06" && !strings.Contains(op.Fn, "Substitute") {
			return
		}
		if con, ok := p.recv.(sym.Constraint); ok {
			if o.kind == "ok" && len(outs) == 1 {
				x.checkConstraintSubst(prop, op, p, con, outs[0])
			}
			x.checkAccept(prop, op, p, o)
			return
		}
		want, known := md.expect(op, p)
		if !known {
			return
		}
		if o.kind != "ok" || returnedError(outs) {
			x.checkAccept(prop, op, p, o)
			return
		}
		if len(outs) == 0 {
			return
		}
		x.checkAccept(prop, op, p, o)
		got, ok := denote(outs[0])
		if op.Fn == "ToScalarExpressions" {
			return
		}
		stats.Checks++
		if !ok {
			if outs[0] == nil {
				x.fail(prop, "nil:"+op.Fn, op.ID, "operation %d %s returned nothing; by the model it is %s", op.ID, op.describe(w), want)
			} else if m := metaOf(outs[0]); m.bad && m.maxAbs < 1<<24 {
				x.fail(prop, "malformed:"+op.Fn, op.ID, "operation %d %s returned the malformed %s; by the model it is %s", op.ID, op.describe(w), show(outs[0]), want)
			} else {
				stats.Extra["results beyond the model"]++
				if got, ok := denoteLoose(outs[0]); ok && !near(want, got) && followed(op, p) {
					x.fail(prop, "value:"+op.Fn, op.ID, "operation %d %s returned %s; by the model it is %s", op.ID, op.describe(w), show(outs[0]), want)
				}
			}
			return
		}
		if !mEqual(want, got) && followed(op, p) {
			x.fail(prop, "value:"+op.Fn, op.ID, "operation %d %s returned %s, which is %s; by the model it is %s", op.ID, op.describe(w), show(outs[0]), got, want)
		}
	}
	dead, capHit := x.runPhases(c, nil, nil)
	if dead != "" {
		x.fail(prop, "deadlock", -1, "tasks block for ever: %s", dead)
	}
	if capHit {
		x.fail(prop, "no-progress", -1, "an operation did not return within %d steps", stepCap)
	}
	x.tally(c)
	return x.result()
}

func (x *Exec) checkConstraintSubst(prop string, op *Op, p *prepared, con sym.Constraint, out any) {
	res, ok := out.(sym.Constraint)
	if !ok {
		return
	}
	var l0, r0, l1, r1 sym.Expression
	var s0, s1 sym.ConstrSense
	simrt.Quiet(func() {
		l0, r0, s0 = con.Left(), con.Right(), con.ConstrSense()
		l1, r1, s1 = res.Left(), res.Right(), res.ConstrSense()
	})
	argM := make([]Mat, len(p.args))
	argOK := make([]bool, len(p.args))
	for i := range p.args {
		argM[i], argOK[i] = denote(p.args[i])
	}
	for _, side := range []struct {
		name string
		a, b sym.Expression
	}{{"left", l0, l1}, {"right", r0, r1}} {
		m, ok := denote(side.a)
		if !ok {
			continue
		}
		want, known := modelOp(op.Fn, m, p.args, argM, argOK)
		if !known {
			continue
		}
		stats.Checks++
		got, ok := denote(side.b)
		if ok && !mEqual(want, got) && followed(op, &prepared{recv: side.a, args: p.args}) {
			x.fail(prop, "constraint:"+op.Fn, op.ID, "operation %d %s: the %s side became %s, by the model it is %s", op.ID, op.describe(x.w), side.name, got, want)
		}
	}
	if s0 != s1 {
		x.fail(prop, "constraint-sense:"+op.Fn, op.ID, "operation %d %s changed the sense of the constraint", op.ID, op.describe(x.w))
	}
}

// typeName of an operand, for the list of combinations that are always accepted.
func typeName(v any) string {
	if v == nil {
		return "nil"
	}
	t := reflect.TypeOf(v)
	if v, ok := v.(*mat.VecDense); ok && v != nil {
		return "*mat.VecDense"
	}
	if v, ok := v.(*mat.Dense); ok && v != nil {
		return "*mat.Dense"
	}
	if t.Kind() == reflect.Ptr {
		t = t.Elem()
	}
	if t.Name() != "" {
		return t.Name()
	}
	return t.String()
}

func shapeClass(m meta) string {
	switch {
	case m.rows == 1 && m.cols == 1:
		return "1"
	case m.cols == 1:
		return "v"
	case m.rows == 1:
		return "r"
	}
	return "m"
}

// comboKey names a combination of operation and operand types and shapes; ok
// is false when an operand is malformed or unsuitable.
func comboKey(op *Op, p *prepared) (string, bool) {
	k := op.Fn
	good := true
	if p.recv != nil {
		if !wellFormed(p.recv) || metaOf(p.recv).badVar {
			good = false
		}
		k = typeName(p.recv) + "[" + shapeClass(metaOf(p.recv)) + "]." + op.Fn
		if con, ok := p.recv.(sym.Constraint); ok {
			var l, r sym.Expression
			simrt.Quiet(func() { l, r = con.Left(), con.Right() })
			ml, mr := metaOf(l), metaOf(r)
			good = good && !ml.badVar && !mr.badVar
			k = typeName(p.recv) + "(" + typeName(l) + "[" + shapeClass(ml) + "]," + typeName(r) + "[" + shapeClass(mr) + "])." + op.Fn
		}
	}
	for i, a := range p.args {
		if op.Args[i].K == "faulty" || op.Args[i].K == "nil" || op.Args[i].K == "str" {
			good = false
		}
		switch y := a.(type) {
		case sym.Variable:
			if op.Fn == "Substitute" || op.Fn == "DerivativeWrt" {
				k += ",var"
				good = good && !metaOf(y).bad
				continue
			}
		case map[sym.Variable]sym.Expression:
			for v, e := range y {
				m := metaOf(e)
				if e == nil || m.bad || m.badVar || !m.scalar || metaOf(v).bad {
					good = false
				}
				if _, is := insideFaulty(e); is {
					good = false
				}
			}
			k += ",map"
			continue
		case int:
			k += ",int"
			if y < 0 {
				good = false
			}
			switch shortFn(op.Fn) {
			case "At", "AtVec":
				if m := metaOf(p.recv); !fitsIndex(shortFn(op.Fn), i, y, m) {
					good = false
				}
			}
			continue
		case float64:
			k += ",float64"
			continue
		case []sym.ScalarExpression:
			for _, e := range y {
				if e == nil || !wellFormed(e) || metaOf(e).badVar {
					good = false
				}
				if _, is := insideFaulty(e); is {
					good = false
				}
			}
			k += ",[]scalar"
			continue
		case [][]sym.ScalarExpression:
			k += ",[][]scalar"
			for _, row := range y {
				for _, e := range row {
					if e == nil || !wellFormed(e) || metaOf(e).badVar {
						good = false
					}
				}
			}
			continue
		}
		m := metaOf(a)
		if m.bad || m.badVar {
			good = false
		}
		k += "," + typeName(a) + "[" + shapeClass(m) + relation(p, i, m) + "]"
	}
	return k, good
}

func fitsIndex(fn string, i, y int, m meta) bool {
	switch {
	case m.rows == 0:
		return true
	case fn == "AtVec":
		return y < m.rows*m.cols
	case i == 0:
		return y < m.rows
	}
	return y < m.cols
}

// relation says how the shape of an operand relates to that of the first one.
func relation(p *prepared, i int, m meta) string {
	var f meta
	switch {
	case p.recv != nil:
		f = metaOf(p.recv)
	case i > 0 && p.args[0] != nil:
		f = metaOf(p.args[0])
	default:
		return ""
	}
	if m.rows*m.cols <= 1 || f.rows*f.cols <= 1 {
		return ""
	}
	s := ""
	if m.rows == f.rows {
		s += "r"
	}
	if m.cols == f.cols {
		s += "c"
	}
	if m.rows == f.cols {
		s += "x"
	}
	return s
}

// combos counts accepted and rejected calls per combination (when asked to).
var combos map[string][2]int

// comboWhy is an example of a rejection.
var comboWhy = map[string]string{}

func (x *Exec) checkAccept(prop string, op *Op, p *prepared, o *Outcome) {
	rejected := o.kind == "panic"
	if !rejected && combos == nil {
		return
	}
	k, good := comboKey(op, p)
	if combos != nil && good {
		c := combos[k]
		if rejected {
			c[1]++
			comboWhy[k] = o.why + " in " + op.describe(x.w)
		} else {
			c[0]++
		}
		combos[k] = c
	}
	if good && rejected && alwaysAccepted[k] {
		x.fail(prop, "rejected:"+op.Fn, op.ID, "operation %d %s was rejected (%s) although its operands are well-formed and it has a value", op.ID, op.describe(x.w), o.why)
	}
}

// ---- C09: ownership ----

func (w *World) scribblable(op *Op, k int, v any) bool {
	switch v.(type) {
	case []sym.Variable, []int, []uint64, mat.VecDense, mat.Dense, *mat.VecDense, *mat.Dense:
		return true
	case sym.Monomial, sym.Polynomial, sym.VariableVector:
		return op.Fn == "Copy"
	case sym.KVector, sym.KMatrix:
		switch shortFn(op.Fn) {
		case "From", "VecDenseToKVector", "DenseToKMatrix", "ToVectorExpression", "ToMatrixExpression", "ToExpression":
			// made from a numeric container
			if len(op.Args) == 1 && (op.Args[0].K == "slot" || op.Args[0].K == "ptr") {
				switch w.vals[op.Args[0].S].(type) {
				case mat.VecDense, mat.Dense, *mat.VecDense, *mat.Dense, []float64, [][]float64, []int:
					return true
				}
			}
		}
	}
	return false
}

func genC09(seed uint64) *Case {
	r := seedRng(seed, 19)
	prof := baseProfile()
	prof.NoPrivate = true
	prof.FnShare = 0.25
	prof.Weight = func(recv any, n string) int {
		switch n {
		case "Copy", "Variables":
			return 8
		case "LinearCoeff", "Constant", "Dims", "ToDense", "ToVecDense":
			return 6
		case "LinearInequalityConstraintRepresentation", "LinearEqualityConstraintRepresentation":
			return 5
		case "AllTrackedVariables":
			return 8
		case "TrackVariable", "GetName":
			return 0
		}
		return defaultWeight(n)
	}
	prof.FnWeight = func(n string) int {
		switch shortFn(n) {
		case "From", "VecDenseToKVector", "DenseToKMatrix", "UniqueVars", "UnionOfVariables", "VariablesInThisConstraint", "VariableIDs", "Unique", "ToExpression", "ToVectorExpression", "ToMatrixExpression":
			return 6
		}
		return defaultFnWeight(n)
	}
	c, _ := generate("C09", seed, PoolSpec{Seed: seed, Envs: 1}, drawShape(r), prof, func(g *Gen, x *Exec, task int, op *Op, emit func(Op)) {
		if emit == nil {
			return
		}
		w := x.w
		// a value received
		for k := 0; k < outsPerOp; k++ {
			s := w.slotOf(op.ID, k)
			if w.set[s] && w.vals[s] != nil && w.scribblable(op, k, w.vals[s]) && g.used[s] == 0 && g.r.Chance(0.6) {
				id := op.ID + 1
				emit(Op{ID: id, Fn: "user.scribble", Recv: s})
				w.dead[s] = true
				return
			}
		}
		// a numeric container passed in
		if op.Recv >= 0 || len(op.Args) > 0 {
			for _, a := range op.Args {
				if (a.K == "slot" || a.K == "ptr") && a.S < w.pool && g.r.Chance(0.7) {
					switch w.vals[a.S].(type) {
					case mat.VecDense, mat.Dense, []float64, [][]float64, []int:
						emit(Op{ID: op.ID + 1, Fn: "user.scribble", Recv: a.S})
						w.dead[a.S] = true
						return
					}
				}
			}
		}
	})
	return c
}

func runC09(c *Case) Result {
	solo := soloOf(c, Sched{}, false)
	for _, o := range solo.out {
		if o.kind == "abort" {
			return solo.result()
		}
	}
	run := func(noScrib bool) *Exec {
		x := newExec(newWorld(c.Pool), c.nOps(), false)
		x.noScrib = noScrib
		x.runPhases(c, nil, nil)
		return x
	}
	control := run(true)
	x := run(false)
	x.tally(c)
	if x.viol == nil {
		for _, op := range c.order() {
			a, b, d := solo.out[op.ID], x.out[op.ID], control.out[op.ID]
			if a.kind == "none" || b.kind == "none" || a.kind == "skip" || b.kind == "skip" || strings.HasPrefix(op.Fn, "user.") {
				continue
			}
			stats.Checks++
			if a.same(d) && !b.same(a) {
				x.fail("C09", "answer:"+op.Fn, op.ID, "operation %d %s gives %s, but %s when receivers do not edit the values they own", op.ID, op.describe(x.w), x.outcomeText(op.ID), control.outcomeText(op.ID))
			}
		}
	}
	return x.result(solo)
}

// returnedError: the operation reported failure through an error result.
func returnedError(outs []any) bool {
	for _, v := range outs {
		if err, ok := v.(error); ok && err != nil {
			return true
		}
	}
	return false
}
