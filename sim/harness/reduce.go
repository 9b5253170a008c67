package main

import (
	"fmt"
	"reflect"

	sym "SIMMODULE/symbolic"
	"SIMMODULE/verifsim/simrt"
)

// C08: tasks post contributions and whoever is free combines two of them.

type item struct {
	v   sym.Expression
	ids []int // contributions in it
	m   Mat
}

type mailbox struct {
	items []item
	total []item // everything posted
	kind  string
	rng   *simrt.Rng
}

func init() {
	register(&Property{id: "C08", gen: genC08, run: runC08})
}

func genC08(seed uint64) *Case {
	r := seedRng(seed, 18)
	prof := baseProfile()
	prof.Bad = 0.02
	prof.FnShare = 0.08
	prof.MaxTerms = 30
	shape := Shape{1, 2 + r.Intn(3), 2 + r.Intn(3)}
	kind := r.Intn(10) // 0-6 sum, 7 product, 8 hstack, 9 vstack
	probe := newWorld(PoolSpec{Seed: seed})
	tr, tc := 1, 1
	if kind != 7 && r.Chance(0.45) {
		// the shape of some pool value
		var cand []meta
		for i := 0; i < probe.pool; i++ {
			if _, ok := probe.vals[i].(sym.Expression); ok {
				m := metaOf(probe.vals[i])
				if !m.bad && m.rows > 0 && !(m.rows == 1 && m.cols == 1) {
					cand = append(cand, m)
				}
			}
		}
		if len(cand) > 0 {
			m := cand[r.Intn(len(cand))]
			tr, tc = m.rows, m.cols
		}
	}
	fits := func(m meta) bool {
		if m.bad || m.rows == 0 || m.terms > 24 || m.maxAbs > 4096 || m.deg > 6 {
			return false
		}
		switch kind {
		case 8:
			return m.rows == tr
		case 9:
			return m.cols == tc
		}
		return m.rows == tr && m.cols == tc
	}
	c, _ := generate("C08", seed, PoolSpec{Seed: seed}, shape, prof, func(g *Gen, x *Exec, task int, op *Op, emit func(Op)) {
		if emit == nil {
			return
		}
		id := op.ID + 1
		s := x.w.slotOf(op.ID, 0)
		if x.w.set[s] && x.w.vals[s] != nil {
			if _, ok := x.w.vals[s].(sym.Expression); ok && fits(g.meta(s)) {
				emit(Op{ID: id, Fn: "user.post", Recv: s})
				return
			}
		}
		// otherwise contribute something that is there already
		p := g.pick(func(s int, v any) bool {
			_, ok := v.(sym.Expression)
			return ok && fits(g.meta(s))
		})
		if p >= 0 {
			emit(Op{ID: id, Fn: "user.post", Recv: p})
		}
	})
	// combining is work of the tasks too
	next := c.nOps()
	for t := range c.Phases[0] {
		for k := 0; k < 3; k++ {
			c.Phases[0][t] = append(c.Phases[0][t], Op{ID: next, Fn: "user.reduce", Recv: -1})
			next++
		}
	}
	c.Opt["kind"] = kind
	c.Sched[0].Est += c.Sched[0].Est / 2
	return c
}

func (x *Exec) reduceOp(op *Op, o *Outcome) {
	o.kind = "ok"
	if x.box == nil {
		return
	}
	b := x.box
	if op.Fn == "user.post" {
		v, ok := x.get(op.Recv)
		e, is := v.(sym.Expression)
		if !ok || !is {
			o.kind = "skip"
			return
		}
		m, ok := denote(e)
		if !ok {
			o.kind = "skip"
			return
		}
		it := item{e, []int{op.ID}, m}
		b.items = append(b.items, it)
		b.total = append(b.total, it)
		return
	}
	if len(b.items) < 2 {
		o.kind = "skip"
		return
	}
	i := b.rng.Intn(len(b.items))
	p := b.items[i]
	b.items = append(b.items[:i], b.items[i+1:]...)
	j := b.rng.Intn(len(b.items))
	q := b.items[j]
	b.items = append(b.items[:j], b.items[j+1:]...)
	if b.kind == "product" {
		if m, n := metaOf(p.v), metaOf(q.v); m.terms*n.terms > 120 || m.deg+n.deg > 24 {
			o.kind = "skip" // would take too long
			b.items = append(b.items, p, q)
			return
		}
	}
	var res sym.Expression
	kind := "ok"
	why := ""
	func() {
		defer func() {
			if r := recover(); r != nil {
				if a, ok := r.(simrt.Abort); ok {
					panic(a)
				}
				kind = "panic"
				why = panicText(r)
			}
		}()
		switch b.kind {
		case "sum":
			res = p.v.Plus(q.v)
		case "product":
			res = p.v.Multiply(q.v)
		case "hstack":
			res = sym.HStack(p.v, q.v)
		case "vstack":
			res = sym.VStack(p.v, q.v)
		}
	}()
	o.kind = kind
	if kind != "ok" {
		// combined by nobody: both wait for another partner
		b.items = append(b.items, p, q)
		pr := prepared{recv: p.v, args: []any{q.v}}
		fn := map[string]string{"sum": "Plus", "product": "Multiply"}[b.kind]
		if fn != "" {
			x.checkAcceptKind("C08", &Op{ID: op.ID, Fn: fn, Args: []Arg{{K: "slot"}}}, &pr, why)
		}
		return
	}
	it := item{v: res, ids: append(append([]int(nil), p.ids...), q.ids...)}
	want, ok := combine(b.kind, p.m, q.m)
	if !ok {
		// the reference cannot follow (numbers too large): drop the case
		x.boxLost = true
		return
	}
	it.m = want
	stats.Checks++
	stats.Extra["combinations"]++
	got, ok := denote(res)
	if !ok {
		if res == nil || metaOf(res).bad && metaOf(res).maxAbs < 1<<24 {
			x.fail("C08", "malformed:"+b.kind, op.ID, "combining (%s) %s and %s gave the malformed %s; it is %s", b.kind, show(p.v), show(q.v), show(res), want)
		}
		x.boxLost = true
		return
	}
	if !mEqual(got, want) && followable(func() (Mat, bool) {
		m, ok1 := denote(p.v)
		n, ok2 := denote(q.v)
		if !ok1 || !ok2 {
			return Mat{}, false
		}
		return combine(b.kind, m, n)
	}) {
		x.fail("C08", "value:"+b.kind, op.ID, "combining (%s) %s (%T) and %s (%T) gave %s; the contributions add up to %s", b.kind, show(p.v), p.v, show(q.v), q.v, got, want)
	}
	if b.kind == "sum" && unmerged(p.v) == "" && unmerged(q.v) == "" {
		stats.Extra["merges"]++
		if d := unmerged(res); d != "" {
			x.fail("C08", fmt.Sprintf("unmerged-sum:%T+%T", p.v, q.v), op.ID, "combining %s (%T) and %s (%T) gave %s, with several terms in %s", show(p.v), p.v, show(q.v), q.v, show(res), d)
		}
	}
	b.items = append(b.items, it)
}

func (x *Exec) checkAcceptKind(prop string, op *Op, p *prepared, why string) {
	k, good := comboKey(op, p)
	if good && alwaysAccepted[k] {
		x.fail(prop, "rejected:"+op.Fn, op.ID, "combining %s and %s was rejected (%s) although they fit", show(p.recv), show(p.args[0]), why)
	}
}

func combine(kind string, a, b Mat) (m Mat, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(errModel); !is {
				panic(r)
			}
			m, ok = Mat{}, false
		}
	}()
	switch kind {
	case "sum":
		return mAdd(a, b)
	case "product":
		return mMul(a, b)
	case "hstack":
		return modelFn("HStack", []any{nil, nil}, []Mat{a, b}, []bool{true, true})
	case "vstack":
		return modelFn("VStack", []any{nil, nil}, []Mat{a, b}, []bool{true, true})
	}
	return Mat{}, false
}

func boxKind(k int) string {
	switch {
	case k == 7:
		return "product"
	case k == 8:
		return "hstack"
	case k == 9:
		return "vstack"
	}
	return "sum"
}

func runC08(c *Case) Result {
	w := newWorld(c.Pool)
	x := newExec(w, c.nOps()+64, false)
	x.box = &mailbox{kind: boxKind(c.Opt["kind"]), rng: seedRng(c.Seed, 81)}
	dead, _ := x.runPhases(c, nil, nil)
	if dead != "" {
		x.fail("C08", "deadlock", -1, "tasks block for ever: %s", dead)
	}
	// whatever is left over is combined at the end
	id := c.nOps()
	for tries := 0; x.viol == nil && !x.boxLost && len(x.box.items) > 1 && tries < 60; tries++ {
		op := &Op{ID: id + tries, Fn: "user.reduce", Recv: -1}
		sc := simrt.Run(simrt.Config{Strategy: simrt.Serial, StepCap: stepCap}, [][]func(){{func() { x.do(op) }}})
		stats.addSim(sc, 0)
		if sc.CapHit {
			x.boxLost = true
		}
	}
	if x.viol == nil && !x.boxLost && dead == "" {
		x.checkTotal(c)
	}
	x.tally(c)
	return x.result()
}

// checkTotal: every contribution is in exactly one of what is left, and like
// terms are merged in a simplified total.
func (x *Exec) checkTotal(c *Case) {
	b := x.box
	n := 0
	for _, it := range b.items {
		n += len(it.ids)
	}
	if n != len(b.total) {
		return // a combination was cut short
	}
	if b.kind != "sum" || len(b.items) != 1 || len(b.total) < 2 {
		return
	}
	want := b.total[0].m
	for _, it := range b.total[1:] {
		var ok bool
		if want, ok = combine("sum", want, it.m); !ok {
			return
		}
	}
	final := b.items[0].v
	got, ok := denote(final)
	stats.Checks++
	stats.Extra["totals"]++
	if ok && !mEqual(got, want) {
		x.fail("C08", "total", -1, "%d contributions were combined into %s, which is %s; they add up to %s", len(b.total), show(final), got, want)
		return
	}
	var simp sym.Expression
	sc := simrt.Run(simrt.Config{Strategy: simrt.Serial, StepCap: stepCap}, [][]func(){{func() {
		defer func() {
			if r := recover(); r != nil {
				if a, ok := r.(simrt.Abort); ok {
					panic(a)
				}
				simp = nil
			}
		}()
		simp = final.AsSimplifiedExpression()
	}}})
	stats.addSim(sc, 0)
	if simp == nil {
		return
	}
	if sm, ok := denote(simp); ok && !mEqual(sm, want) {
		x.fail("C08", "simplified-total", -1, "the total %s was simplified to %s, which is %s; the contributions add up to %s", show(final), show(simp), sm, want)
		return
	}
	if d := unmerged(simp); d != "" {
		x.fail("C08", "unmerged", -1, "the simplified total %s of %d contributions still has several terms in %s", show(simp), len(b.total), d)
	}
}

// unmerged finds two terms that are alike.
func unmerged(v any) string {
	switch e := v.(type) {
	case sym.Polynomial:
		seen := map[string]bool{}
		for _, m := range e.Monomials {
			fs := map[uint64]int{}
			for i, f := range m.VariableFactors {
				if i < len(m.Exponents) {
					fs[f.ID] += m.Exponents[i]
				}
			}
			k := mkKey(fs)
			if seen[k] {
				return Poly{k: 1}.String()
			}
			seen[k] = true
		}
	default:
		rv := reflect.ValueOf(v)
		if rv.Kind() == reflect.Slice {
			for i := 0; i < rv.Len(); i++ {
				if d := unmerged(rv.Index(i).Interface()); d != "" {
					return d
				}
			}
		}
	}
	return ""
}
