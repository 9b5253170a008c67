package main

import (
	"fmt"
	"reflect"
	"sort"
	"strings"

	sym "SIMMODULE/symbolic"
	"SIMMODULE/verifsim/simrt"
)

func init() {
	register(&Property{id: "C03", gen: genC03, run: runC03})
	register(&Property{id: "C04", gen: genC04, run: runC04})
	register(&Property{id: "C07", gen: genC07, run: runC07})
}

func creates(fn string) bool { return strings.HasPrefix(shortFn(fn), "New") }

func envProfile() *Profile {
	p := &Profile{FnShare: 0.65, Bad: 0.03, Fresh: 0.4, MaxTerms: 40}
	p.Weight = func(recv any, n string) int {
		if !isEnv(recv) {
			return 0
		}
		switch n {
		case "TrackVariable":
			return 6
		case "AllTrackedVariables":
			return 4
		case "GetName":
			return 1
		}
		return 0
	}
	p.FnWeight = func(n string) int {
		switch shortFn(n) {
		case "NewVariable":
			return 5
		case "NewContinuousVariable", "NewBinaryVariable":
			return 3
		case "NewVariableVector":
			return 3
		case "NewVariableMatrix", "NewVariableMatrixClassic":
			return 1
		}
		return 0
	}
	return p
}

func drawFault(r *simrt.Rng, env int) *Fault {
	kinds := []string{"panic", "panic-after", "goexit", "stall", "reenter", "decline", "stall", "reenter"}
	return &Fault{Kind: kinds[r.Intn(len(kinds))], At: r.Intn(4), N: 1 + r.Intn(60), Env: env}
}

func (w *World) simEnvArg(op *Op) int {
	for _, a := range op.Args {
		if a.K == "slot" && a.S < len(w.vals) {
			if _, ok := w.vals[a.S].(*SimEnv); ok {
				return a.S
			}
		}
	}
	if op.Recv >= 0 && op.Recv < len(w.vals) {
		if _, ok := w.vals[op.Recv].(*SimEnv); ok {
			return op.Recv
		}
	}
	return -1
}

func genC03(seed uint64) *Case {
	r := seedRng(seed, 13)
	prof := envProfile()
	spec := PoolSpec{Seed: seed, Only: "env", Envs: 1 + r.Intn(2), SimEs: r.Intn(2)}
	shape := Shape{1, 2 + r.Intn(3), 2 + r.Intn(4)}
	if r.Chance(0.3) {
		shape.Phases = 2
	}
	c, _ := generate("C03", seed, spec, shape, prof, func(g *Gen, x *Exec, task int, op *Op, emit func(Op)) {
		if emit != nil {
			return
		}
		if s := x.w.simEnvArg(op); s >= 0 && g.r.Chance(0.35) {
			op.Fault = drawFault(g.r, s)
		}
	})
	return c
}

// envOf returns the environment an operation creates variables in.
func (x *Exec) envOf(p *prepared) sym.Environment {
	for _, a := range p.args {
		if e, ok := a.(sym.Environment); ok {
			return e
		}
	}
	return &sym.DefaultEnvironment
}

func variablesIn(v any) []sym.Variable {
	switch x := v.(type) {
	case sym.Variable:
		return []sym.Variable{x}
	case sym.VariableVector:
		return x
	case sym.VariableMatrix:
		var out []sym.Variable
		for _, r := range x {
			out = append(out, r...)
		}
		return out
	}
	return nil
}

func registryOf(e sym.Environment) []sym.Variable {
	switch x := e.(type) {
	case *sym.BasicEnvironment:
		return x.AllTrackedVariables()
	case *SimEnv:
		return append([]sym.Variable(nil), x.list...)
	}
	return nil
}

func runC03(c *Case) Result {
	w := newWorld(c.Pool)
	x := newExec(w, c.nOps(), false)
	type made struct {
		v     sym.Variable
		op    int
		label string
	}
	created := map[string][]made{}
	accepted := map[string]int{} // accepted registrations by hand
	uncertain := map[string]int{}
	for label, vs := range w.early {
		for _, e := range vs {
			if e.ok {
				accepted[label]++
			}
		}
	}
	x.after = func(op *Op, p *prepared, o *Outcome, outs []any) {
		if creates(op.Fn) {
			env := x.envOf(p)
			label := w.envs.label(env)
			if o.kind != "ok" {
				uncertain[label]++
				return
			}
			vs := variablesIn(outs[0])
			// shape
			stats.Checks++
			var dims []int
			for _, a := range p.args {
				if n, ok := a.(int); ok {
					dims = append(dims, n)
				}
			}
			want := 1
			for _, d := range dims {
				want *= max(0, d)
			}
			shapeOK := len(vs) == want
			if m, ok := outs[0].(sym.VariableMatrix); ok && len(dims) == 2 && dims[0] > 0 {
				shapeOK = shapeOK && len(m) == dims[0] && len(m[0]) == max(0, dims[1])
			}
			if !shapeOK {
				x.fail("C03", "shape", op.ID, "operation %d %s returned %d variables: %s", op.ID, op.describe(w), len(vs), show(outs[0]))
			}
			for _, v := range vs {
				created[label] = append(created[label], made{v, op.ID, op.describe(w)})
				bad := ""
				switch {
				case v.Environment != env:
					bad = "its environment is not the one it was created in"
				case shortFn(op.Fn) == "NewBinaryVariable" && (v.Type != sym.Binary || v.Lower != 0 || v.Upper != 1):
					bad = "it is not binary"
				case shortFn(op.Fn) != "NewBinaryVariable" && (v.Type != sym.Continuous || v.Lower != float64(-sym.Infinity) || v.Upper != float64(sym.Infinity)):
					bad = "it is not a continuous variable without bounds"
				}
				if bad != "" {
					x.fail("C03", "kind", op.ID, "operation %d %s returned %s: %s", op.ID, op.describe(w), show(v), bad)
				}
			}
			return
		}
		if op.Fn == "TrackVariable" && o.kind == "ok" && outs[0] == true {
			accepted[w.envs.label(p.recv.(sym.Environment))]++
		}
		if op.Fn == "TrackVariable" && o.kind != "ok" {
			uncertain[w.envs.label(p.recv.(sym.Environment))]++
		}
	}
	dead, capHit := x.runPhases(c, nil, nil)
	if dead != "" {
		x.fail("C03", "deadlock", -1, "creation or registration blocks for ever: %s", dead)
	} else if capHit {
		x.fail("C03", "no-progress", -1, "creation or registration did not end within %d steps", stepCap)
	}
	for _, s := range w.simEs {
		for _, v := range s.created {
			l := w.envs.label(s)
			_ = l
			created[w.envs.label(v.Environment)] = append(created[w.envs.label(v.Environment)], made{v, -1, "a creation from inside a callback"})
		}
	}
	if x.viol == nil {
		for i, env := range w.envs.envs {
			label := w.envs.names[i]
			reg := registryOf(env)
			byID := map[uint64]int{}
			for j, v := range reg {
				stats.Checks++
				if k, dup := byID[v.ID]; dup {
					x.fail("C03", "registered-twice", -1, "environment %s has two variables with ID %d: %s and %s", label, v.ID, show(reg[k]), show(v))
				}
				byID[v.ID] = j
			}
			simEnv, _ := env.(*SimEnv)
			seen := map[uint64]made{}
			n := 0
			for _, m := range created[label] {
				stats.Checks++
				stats.Extra["variables created"]++
				if simEnv != nil && simEnv.declined[w.digest(m.v)] {
					stats.Extra["creations declined"]++
					continue // the environment wanted no record of it
				}
				if o, dup := seen[m.v.ID]; dup {
					x.fail("C03", "same-id", m.op, "two variables created in environment %s have ID %d: by %s (operation %d) and by %s (operation %d)", label, m.v.ID, o.label, o.op, m.label, m.op)
				}
				seen[m.v.ID] = m
				j, ok := byID[m.v.ID]
				if !ok {
					x.fail("C03", "unregistered", m.op, "the variable %s created by %s is not registered in environment %s", show(m.v), m.label, label)
				} else if w.digest(reg[j]) != w.digest(m.v) {
					x.fail("C03", "registered-differently", m.op, "the variable %+v created by %s is registered in environment %s as %+v", plain(m.v), m.label, label, plain(reg[j]))
				}
				n++
			}
			if uncertain[label] == 0 && (simEnv == nil || len(simEnv.declined) == 0) && x.viol == nil && len(reg) != n+accepted[label] {
				x.fail("C03", "registry-size", -1, "environment %s has %d variables although %d were created in it and %d registered by hand", label, len(reg), n, accepted[label])
			}
		}
	}
	x.tally(c)
	return x.result()
}

func plain(v sym.Variable) string {
	return fmt.Sprintf("%s#%d [%g, %g] type %c", v.Name, v.ID, v.Lower, v.Upper, v.Type)
}

// ---- C04: linearizable registries ----

func genC04(seed uint64) *Case {
	r := seedRng(seed, 14)
	prof := envProfile()
	prof.FnShare = 0.35
	prof.Weight = func(recv any, n string) int {
		if _, ok := recv.(*sym.BasicEnvironment); !ok {
			return 0
		}
		switch n {
		case "TrackVariable":
			return 6
		case "AllTrackedVariables":
			return 5
		}
		return 0
	}
	spec := PoolSpec{Seed: seed, Only: "env", Envs: r.Intn(2)}
	shape := Shape{1 + r.Intn(2), 2 + r.Intn(3), 2 + r.Intn(2)}
	c, _ := generate("C04", seed, spec, shape, prof, func(g *Gen, x *Exec, task int, op *Op, emit func(Op)) {
		if emit == nil || op.Fn != "AllTrackedVariables" || !g.r.Chance(0.4) {
			return
		}
		s := x.w.slotOf(op.ID, 0)
		if x.w.set[s] {
			emit(Op{ID: op.ID + 1, Fn: "user.scribble", Recv: s})
			x.w.dead[s] = true
		}
	})
	return c
}

type regIn struct {
	kind string // track, list, create
	v    string
	id   uint64
}

type regOut struct {
	ok   bool
	n    int
	list string // encodings in order, joined
	v    string
	id   uint64
}

func encVar(envs *envTable, v sym.Variable) string {
	e := encoder{envs: envs}
	e.variable(v)
	return string(e.b)
}

func encRec(envs *envTable, v sym.Variable) string {
	s := encVar(envs, v)
	return fmt.Sprintf("%016x%04x%s", v.ID, len(s), s)
}

// histOp is one completed operation on a registry.
type histOp struct {
	in        regIn
	out       regOut
	call, ret int64
	what      string
}

// linearizable decides whether the completed operations, in some order that
// respects real time, explain the final contents of a registry that was empty
// at first. Nothing is ever removed, so the final list itself says in which
// order the registrations took effect: the j-th is given the place 2j+1, a
// listing of k variables belongs to the place 2k, and a refused registration
// to any even place after that of the variable in its way. What is left is to
// see that no operation has an earlier place than one that had returned
// before it began.
func linearizable(h []histOp, final []sym.Variable, envs *envTable) string {
	at := map[uint64]int{}
	var enc []string
	for j, v := range final {
		if k, dup := at[v.ID]; dup {
			return fmt.Sprintf("entries %d and %d of the final list have the same ID", k, j)
		}
		at[v.ID] = j
		enc = append(enc, encRec(envs, v))
	}
	place := make([]int, len(h)) // -1: any even place from floor on
	floor := make([]int, len(h))
	taken := map[int]int{}
	for i, op := range h {
		place[i] = -1
		switch {
		case op.in.kind == "create", op.in.kind == "track" && op.out.ok:
			id, rec := op.in.id, op.in.v
			if op.in.kind == "create" {
				id, rec = op.out.id, op.out.v
			}
			j, ok := at[id]
			if !ok {
				return op.what + ": accepted, but finally not in the registry"
			}
			if enc[j] != rec {
				return op.what + ": accepted, but the registry finally has another variable under that ID"
			}
			if o, dup := taken[j]; dup {
				return op.what + " and " + h[o].what + ": both accepted for the same entry"
			}
			taken[j] = i
			place[i] = 2*j + 1
		case op.in.kind == "track":
			j, ok := at[op.in.id]
			if !ok {
				return op.what + ": refused although no variable has that ID even at the end"
			}
			floor[i] = 2*j + 2
		case op.in.kind == "list":
			n := op.out.n
			if n > len(enc) || op.out.list != strings.Join(enc[:n], "") {
				return op.what + ": this list is not the beginning of the final list"
			}
			place[i] = 2 * n
		}
	}
	if len(taken) != len(final) {
		for j := range final {
			if _, ok := taken[j]; !ok {
				return fmt.Sprintf("nobody registered entry %d of the final list, %s", j, show(final[j]))
			}
		}
	}
	order := make([]int, len(h))
	for i := range order {
		order[i] = i
	}
	sort.Slice(order, func(a, b int) bool { return h[order[a]].call < h[order[b]].call })
	for _, i := range order {
		low, by := 0, -1
		for j := range h {
			if h[j].ret < h[i].call && place[j] > low {
				low, by = place[j], j
			}
		}
		if place[i] < 0 {
			if floor[i] > low {
				low = floor[i]
			}
			place[i] = low + low%2
			continue
		}
		if place[i] < low {
			return h[i].what + " does not see what had happened before it began: " + h[by].what
		}
	}
	return ""
}

func runC04(c *Case) Result {
	w := newWorld(c.Pool)
	x := newExec(w, c.nOps(), false)
	x.scribAs = "C04"
	clock := int64(0)
	start := map[int]int64{}
	hist := map[string][]histOp{}
	for label, vs := range w.early {
		for i, e := range vs {
			t := int64(2 * (i - len(vs)))
			hist[label] = append(hist[label], histOp{regIn{kind: "track", v: encRec(&w.envs, e.v), id: e.v.ID}, regOut{ok: e.ok}, t, t + 1, fmt.Sprintf("[%d,%d] at first TrackVariable(%s) -> %v", t, t+1, show(e.v), e.ok)})
		}
	}
	incomplete := false
	x.before = func(op *Op, p *prepared) {
		clock++
		start[op.ID] = clock
	}
	x.after = func(op *Op, p *prepared, o *Outcome, outs []any) {
		clock++
		if o.kind != "ok" {
			incomplete = true
			return
		}
		add := func(label string, in regIn, out regOut, what string) {
			hist[label] = append(hist[label], histOp{in, out, start[op.ID], clock, fmt.Sprintf("[%d,%d] task %d %s", start[op.ID], clock, simrt.CurrentTask(), what)})
		}
		switch {
		case creates(op.Fn):
			label := w.envs.label(x.envOf(p))
			for _, v := range variablesIn(outs[0]) {
				add(label, regIn{kind: "create"}, regOut{v: encRec(&w.envs, v), id: v.ID}, shortFn(op.Fn)+" -> "+show(v))
			}
		case op.Fn == "TrackVariable":
			v := p.args[0].(sym.Variable)
			add(w.envs.label(p.recv.(sym.Environment)), regIn{kind: "track", v: encRec(&w.envs, v), id: v.ID}, regOut{ok: outs[0].(bool)}, fmt.Sprintf("TrackVariable(%s) -> %v", show(v), outs[0]))
		case op.Fn == "AllTrackedVariables":
			l := ""
			for _, v := range outs[0].([]sym.Variable) {
				l += encRec(&w.envs, v)
			}
			add(w.envs.label(p.recv.(sym.Environment)), regIn{kind: "list"}, regOut{list: l, n: len(outs[0].([]sym.Variable))}, "AllTrackedVariables() -> "+show(outs[0]))
		}
		stats.Checks++
		if i := w.changed(); i >= 0 {
			x.fail("C04", "list-changed", op.ID, "a list handed out earlier (value %d) changed during %s; it is now %s", i, describeDone(w, op, o), show(w.vals[i]))
		}
	}
	dead, capHit := x.runPhases(c, nil, nil)
	if dead != "" {
		x.fail("C04", "deadlock", -1, "registry operations block for ever: %s", dead)
	} else if capHit {
		x.fail("C04", "no-progress", -1, "registry operations did not end within %d steps", stepCap)
	}
	if x.viol == nil && !incomplete {
		// what is there at the end
		for i, env := range w.envs.envs {
			label := w.envs.names[i]
			h := hist[label]
			if len(h) == len(w.early[label]) {
				continue
			}
			final := registryOf(env)
			stats.Checks++
			stats.Extra["histories checked"]++
			stats.Extra["history operations"] += int64(len(h))
			if why := linearizable(h, final, &w.envs); why != "" {
				var desc []string
				for _, op := range h {
					desc = append(desc, op.what)
				}
				x.fail("C04", "not-linearizable", -1, "no order of the operations on environment %s that agrees with real time explains their results (%s): %s; finally it holds %s", label, why, strings.Join(desc, "; "), show(final))
			}
		}
	}
	x.tally(c)
	return x.result()
}

// ---- C07: failed operations leave nothing behind ----

func genC07(seed uint64) *Case {
	r := seedRng(seed, 17)
	shape := drawShape(r)
	if shape.Phases > 2 {
		shape.Phases = 2
	}
	prof := baseProfile()
	prof.Bad = 0.25
	prof.Callback = 0.3
	prof.FnShare = 0.25
	prof.NoPrivate = true
	prof.EnvAlways = true
	storm := 0
	switch d := r.Intn(1000); {
	case d < 5:
		storm = 1100
	case d < 60:
		storm = []int{30, 120, 300}[d%3]
	}
	prof.Weight = func(recv any, n string) int {
		if isEnv(recv) {
			switch n {
			case "TrackVariable", "AllTrackedVariables":
				return 4
			}
			return 0
		}
		return defaultWeight(n)
	}
	prof.FnWeight = func(n string) int {
		switch shortFn(n) {
		case "NewVariable", "NewBinaryVariable", "NewVariableVector", "NewContinuousVariable":
			return 8
		case "NewVariableMatrix":
			return 4
		}
		return defaultFnWeight(n)
	}
	spec := PoolSpec{Seed: seed, Bad: r.Chance(0.4), Envs: shape.Tasks + 1, SimEs: shape.Tasks}
	c, _ := generate("C07", seed, spec, shape, prof, func(g *Gen, x *Exec, task int, op *Op, emit func(Op)) {
		w := x.w
		if emit == nil {
			hasCb := op.Wrap
			var scan func(a Arg)
			scan = func(a Arg) {
				hasCb = hasCb || a.K == "faulty"
				for _, b := range a.L {
					scan(b)
				}
			}
			for _, a := range op.Args {
				scan(a)
			}
			s := w.simEnvArg(op)
			if (hasCb || s >= 0) && g.r.Chance(0.6) {
				if s < 0 {
					// calling back goes to the task's own environment
					for i := 0; i < w.pool; i++ {
						if e, ok := w.vals[i].(*SimEnv); ok && e == w.simEs[task%len(w.simEs)] {
							s = i
						}
					}
				}
				op.Fault = drawFault(g.r, s)
				if hasCb && op.Fault.Kind == "decline" {
					op.Fault.Kind = "panic"
				}
			}
			return
		}
		if f := op.Fault; f != nil && (f.Kind == "panic" || f.Kind == "goexit" || f.Kind == "panic-after") && failedKind(x.out[op.ID].kind) && g.r.Chance(0.5) {
			// the same call again, undisturbed
			again := *op
			again.ID, again.Fault = op.ID+1, nil
			emit(again)
			if again.touches(x.sharedEnv()) {
				for k := 0; k < outsPerOp; k++ {
					w.dead[w.slotOf(again.ID, k)] = true
				}
			}
		}
		if op.touches(x.sharedEnv()) {
			// results depend on the other tasks: nothing is built on them
			for k := 0; k < outsPerOp; k++ {
				w.dead[w.slotOf(op.ID, k)] = true
			}
		}
	})
	c.Opt["storm"] = storm
	return c
}

// touches: the slot is an operand of the operation.
func (op *Op) touches(slot int) bool {
	if slot < 0 {
		return false
	}
	if op.Recv == slot {
		return true
	}
	for _, a := range op.Args {
		if (a.K == "slot" || a.K == "ptr") && a.S == slot {
			return true
		}
	}
	return false
}

// sharedEnv is the slot of the environment that all tasks use (C07).
func (x *Exec) sharedEnv() int {
	last := -1
	for i := 0; i < x.w.pool; i++ {
		if _, ok := x.w.vals[i].(*sym.BasicEnvironment); ok {
			last = i
		}
	}
	return last
}

func (w *World) lists() []int {
	var out []int
	for _, e := range w.envs.envs {
		out = append(out, len(registryRaw(e)))
	}
	return out
}

func registryRaw(e sym.Environment) []sym.Variable {
	switch x := e.(type) {
	case *sym.BasicEnvironment:
		return x.Variables
	case *SimEnv:
		return x.list
	}
	return nil
}

func failedKind(k string) bool { return k == "panic" || k == "goexit" }

func runC07(c *Case) Result {
	// Package state is as in a process that has just started before each of the
	// executions, so that what the failed operations leave there is theirs only.
	simrt.Reset()
	// 1. everything, one operation after the other
	full := newExec(newWorld(c.Pool), c.nOps(), true)
	full.regLog = map[int][]regEntry{}
	shared := full.sharedEnv()
	var before []int
	full.before = func(op *Op, p *prepared) { before = full.w.lists() }
	full.after = func(op *Op, p *prepared, o *Outcome, outs []any) {
		if !failedKind(o.kind) {
			return
		}
		for i, e := range full.w.envs.envs {
			reg := registryRaw(e)
			if op.Fault == nil && len(reg) != before[i] && !creates(op.Fn) {
				full.fail("C07", "registry", op.ID, "operation %s was rejected but left %d registrations in environment %s", describeDone(full.w, op, o), len(reg)-before[i], full.w.envs.names[i])
			}
			for j := before[i]; j < len(reg); j++ {
				full.regLog[op.ID] = append(full.regLog[op.ID], regEntry{i, reg[j]})
			}
		}
	}
	full.runSolo(c, Sched{}, c.order())
	if full.viol != nil {
		full.tally(c)
		return full.result()
	}
	failed := map[int]bool{}
	var order2 []*Op
	for _, op := range c.order() {
		k := full.out[op.ID].kind
		if k == "abort" {
			return full.result()
		}
		if failedKind(k) {
			failed[op.ID] = true
			stats.Extra["failed operations"]++
			order2 = append(order2, &Op{ID: op.ID, Fn: "user.register", Recv: op.ID})
			continue
		}
		order2 = append(order2, op)
	}
	cmp := func(x *Exec, ref *Exec) *Op {
		for _, op := range c.order() {
			a, b := ref.out[op.ID], x.out[op.ID]
			if failed[op.ID] || op.touches(shared) || b.kind == "none" || b.kind == "abort" || strings.HasPrefix(op.Fn, "user.") {
				continue
			}
			stats.Checks++
			if !a.same(b) {
				return op
			}
		}
		return nil
	}
	// 2. the same without the failed operations
	simrt.Reset()
	proj := newExec(newWorld(c.Pool), c.nOps(), true)
	proj.regAdd, proj.regEnvs = full.regLog, &full.w.envs
	proj.runSolo(c, Sched{}, order2)
	if op := cmp(full, proj); op != nil {
		full.fail("C07", "later:"+op.Fn, op.ID, "operation %d %s gives %s after failed operations, but %s when these are never attempted", op.ID, op.describe(proj.w), full.outcomeText(op.ID), proj.outcomeText(op.ID))
	}
	if full.viol == nil && full.w.registries() != proj.w.registries() {
		full.fail("C07", "registries", -1, "the registries differ from those of the same program without its failed operations")
	}
	if full.viol != nil {
		full.tally(c)
		return full.result(proj)
	}
	// 2b. the failed operations again and again
	if n := c.Opt["storm"]; n > 0 {
		var order3 []*Op
		repeated := 0
		for _, op := range c.order() {
			if failed[op.ID] && len(full.regLog[op.ID]) == 0 && !creates(op.Fn) && !op.touches(shared) {
				repeated++
				for k := 1; k < n; k++ {
					order3 = append(order3, op)
				}
			}
			order3 = append(order3, op)
		}
		if repeated > 0 {
			simrt.Reset()
			stats.Extra["failed operations repeated"] += int64(repeated)
			y := newExec(newWorld(c.Pool), c.nOps(), true)
			y.runSolo(c, Sched{}, order3)
			if y.viol != nil {
				full.viol = y.viol
			} else if op := cmp(y, proj); op != nil {
				full.fail("C07", "later:"+op.Fn, op.ID, "operation %d %s gives %s after failed operations were tried %d times each, but %s when these are never attempted", op.ID, op.describe(proj.w), y.outcomeText(op.ID), n, full.outcomeText(op.ID))
			}
			if full.viol != nil {
				full.tally(c)
				return full.result(proj)
			}
		}
	}
	// 3. on shared operands, in sequence: what does each failed operation touch
	simrt.Reset()
	x0 := newExec(newWorld(c.Pool), c.nOps(), false)
	w0 := x0.w
	x0.before = func(op *Op, p *prepared) {
		for i := range w0.vals {
			if w0.set[i] {
				w0.snap[i] = w0.digest(w0.vals[i])
			}
		}
	}
	x0.after = func(op *Op, p *prepared, o *Outcome, outs []any) {
		if !failedKind(o.kind) {
			return
		}
		stats.Checks++
		if i := w0.changed(); i >= 0 {
			x0.fail("C07", "changed:"+op.Fn, op.ID, "%s did not complete but changed value %d (%T), which is now %s", describeDone(w0, op, o), i, w0.vals[i], show(w0.vals[i]))
		}
	}
	x0.runSolo(c, Sched{}, c.order())
	if x0.viol != nil {
		return x0.result(full)
	}
	// 4. concurrently
	simrt.Reset()
	x := newExec(newWorld(c.Pool), c.nOps(), false)
	dead, capHit := x.runPhases(c, nil, nil)
	if dead != "" {
		x.fail("C07", "deadlock", -1, "after a failed operation tasks block for ever: %s", dead)
	} else if capHit {
		x.fail("C07", "no-progress", -1, "after a failed operation tasks do not end within %d steps", stepCap)
	} else if op := cmp(x, proj); op != nil {
		// do the failed operations matter?
		simrt.Reset()
		c2 := c.without(failed, full.regLog)
		y := newExec(newWorld(c.Pool), c.nOps(), false)
		y.regAdd, y.regEnvs = full.regLog, &full.w.envs
		y.runPhases(c2, nil, nil)
		if cmp(y, proj) == nil {
			x.fail("C07", "later:"+op.Fn, op.ID, "operation %d %s gives %s when other operations fail before or meanwhile, but %s when these are never attempted", op.ID, op.describe(proj.w), x.outcomeText(op.ID), proj.outcomeText(op.ID))
		}
	} else {
		for i := range x.w.envs.envs {
			if x.w.envs.envs[i] == x.w.vals[shared] {
				continue
			}
			if digest(&x.w.envs, registryRaw(x.w.envs.envs[i])) != digest(&proj.w.envs, registryRaw(proj.w.envs.envs[i])) {
				x.fail("C07", "registries", -1, "the registry of %s differs from that of the same program without its failed operations: %s instead of %s", x.w.envs.names[i], show(registryRaw(x.w.envs.envs[i])), show(registryRaw(proj.w.envs.envs[i])))
			}
		}
	}
	x.tally(c)
	return x.result(full, proj)
}

// without replaces the given operations by the registrations they left.
func (c *Case) without(ops map[int]bool, log map[int][]regEntry) *Case {
	o := *c
	o.Phases = nil
	for _, ph := range c.Phases {
		var tasks [][]Op
		for _, t := range ph {
			var l []Op
			for _, op := range t {
				if ops[op.ID] {
					op = Op{ID: op.ID, Fn: "user.register", Recv: op.ID}
				}
				l = append(l, op)
			}
			tasks = append(tasks, l)
		}
		o.Phases = append(o.Phases, tasks)
	}
	return &o
}

var _ = reflect.TypeOf
