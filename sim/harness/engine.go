package main

import (
	"fmt"
	"reflect"
	"sort"
	"strings"

	sym "SIMMODULE/symbolic"
	"SIMMODULE/verifsim/simrt"
	"gonum.org/v1/gonum/mat"
)

// Sched is the schedule of one phase: a seeded strategy or a recorded script.
type Sched struct {
	Strategy int             `json:"strategy"`
	Gap      int             `json:"gap,omitempty"`
	PBound   float64         `json:"pbound,omitempty"`
	Depth    int             `json:"depth,omitempty"`
	Est      int64           `json:"est,omitempty"`
	Sites    []int           `json:"sites,omitempty"`
	Seed     uint64          `json:"seed,omitempty"`
	MapOrder int             `json:"mapOrder,omitempty"`
	MapSeed  uint64          `json:"mapSeed,omitempty"`
	ClockOff int64           `json:"clockOff,omitempty"`
	RandSeed uint64          `json:"randSeed,omitempty"`
	Script   []simrt.Preempt `json:"script,omitempty"`
}

func (s Sched) config() simrt.Config {
	return simrt.Config{
		Seed: s.Seed, Strategy: simrt.Strategy(s.Strategy), Gap: s.Gap, PBound: s.PBound, Depth: s.Depth, EstSteps: s.Est,
		SiteList: s.Sites, Script: s.Script, MapOrder: simrt.MapOrder(s.MapOrder), MapSeed: s.MapSeed, ClockOff: s.ClockOff, RandSeed: s.RandSeed,
		StepCap: stepCap,
	}
}

// stepCap bounds the steps of one phase. A run that reaches the bound is tried
// again with a bound twenty times as large before it is reported.
var stepCap int64 = usualCap

const usualCap = 8_000_000

// Case is one simulated execution, fully explicit.
type Case struct {
	Prop   string         `json:"property"`
	Seed   uint64         `json:"seed"`
	Pool   PoolSpec       `json:"pool"`
	Phases [][][]Op       `json:"phases"`
	Sched  []Sched        `json:"sched"`
	Opt    map[string]int `json:"opt,omitempty"`
}

func (c *Case) nOps() int {
	n := 0
	for _, p := range c.Phases {
		for _, t := range p {
			for _, o := range t {
				if o.ID >= n {
					n = o.ID + 1
				}
			}
		}
	}
	return n
}

func (c *Case) countOps() int {
	n := 0
	for _, p := range c.Phases {
		for _, t := range p {
			n += len(t)
		}
	}
	return n
}

func (c *Case) eachOp(f func(phase, task int, op *Op)) {
	for pi := range c.Phases {
		for ti := range c.Phases[pi] {
			for oi := range c.Phases[pi][ti] {
				f(pi, ti, &c.Phases[pi][ti][oi])
			}
		}
	}
}

// Violation of a property.
type Violation struct {
	Prop   string `json:"property"`
	What   string `json:"what"`
	Op     int    `json:"op"`
	Key    string `json:"key"` // what kind of failure, for recognising it again
	Detail string `json:"detail,omitempty"`
}

// Stats of one or many executions.
type Stats struct {
	Runs      int64            `json:"runs"`
	Sims      int64            `json:"sims"`
	MaxSteps  int64            `json:"maxSteps"`
	CapHits   int64            `json:"capHits"`
	Steps     int64            `json:"steps"`
	SimTime   int64            `json:"simTime"` // ns
	Ops       int64            `json:"ops"`
	Switches  int64            `json:"switches"`
	MidOp     int64            `json:"midOp"`
	Checks    int64            `json:"checks"`
	Kinds     map[string]int64 `json:"kinds"`
	Faults    map[string]int64 `json:"faults"`
	OpNames   map[string]int64 `json:"opNames"`
	Strats    map[string]int64 `json:"strats"`
	Extra     map[string]int64 `json:"extra"`
	Exits     int64            `json:"exits"`
	MapDraws  int64            `json:"mapDraws"`
	ClockR    int64            `json:"clockReads"`
	RandR     int64            `json:"randDraws"`
	sigs      map[uint64]bool
	Sigs      []uint64 `json:"sigs"`
	sites     []uint64
	Sites     []uint64 `json:"sites"`
	RaceBuild bool     `json:"raceBuild"`
}

func newStats() *Stats {
	return &Stats{Kinds: map[string]int64{}, Faults: map[string]int64{}, OpNames: map[string]int64{}, Strats: map[string]int64{},
		Extra: map[string]int64{}, sigs: map[uint64]bool{}, sites: make([]uint64, (len(simrt.Sites)+63)/64)}
}

func (s *Stats) merge(o *Stats) {
	s.Runs += o.Runs
	s.Sims += o.Sims
	s.MaxSteps = max(s.MaxSteps, o.MaxSteps)
	s.CapHits += o.CapHits
	s.Steps += o.Steps
	s.SimTime += o.SimTime
	s.Ops += o.Ops
	s.Switches += o.Switches
	s.MidOp += o.MidOp
	s.Checks += o.Checks
	s.Exits += o.Exits
	s.MapDraws += o.MapDraws
	s.ClockR += o.ClockR
	s.RandR += o.RandR
	for _, p := range []struct{ a, b map[string]int64 }{{s.Kinds, o.Kinds}, {s.Faults, o.Faults}, {s.OpNames, o.OpNames}, {s.Strats, o.Strats}, {s.Extra, o.Extra}} {
		for k, v := range p.b {
			p.a[k] += v
		}
	}
	for _, x := range o.Sigs {
		s.sigs[x] = true
	}
	for i, x := range o.Sites {
		if i < len(s.sites) {
			s.sites[i] |= x
		}
	}
}

var stats = newStats()

func (s *Stats) addSim(m *simrt.Sim, strat int) {
	s.Sims++
	s.Steps += m.StepsTaken()
	s.MaxSteps = max(s.MaxSteps, m.StepsTaken())
	if m.CapHit {
		s.CapHits++
	}
	s.SimTime += m.SimTime()
	s.Switches += int64(m.Switches)
	s.MidOp += int64(m.MidOp)
	s.Exits += int64(m.Exits())
	s.MapDraws += m.MapDraws()
	s.ClockR += m.ClockReads()
	s.RandR += m.RandDraws()
	s.Strats[simrt.StrategyNames[strat]]++
	for i, x := range m.SeenSites() {
		s.sites[i] |= x
	}
}

// Exec executes the operations of a case on one world.
type Exec struct {
	w        *World
	solo     bool // every operation works on private copies of its operands
	noScrib  bool
	out      []Outcome
	texts    []string
	wantText bool
	before   func(op *Op, p *prepared)
	after    func(op *Op, p *prepared, o *Outcome, outs []any)
	opStart  func(op *Op)
	viol     *Violation
	traces   [][]simrt.Preempt
	cur      *Op // solo only
	box      *mailbox
	boxLost  bool
	scribAs  string
	src      *World // operands come from here and results are not kept
	regLog   map[int][]regEntry
	regAdd   map[int][]regEntry
	regEnvs  *envTable // environments the entries of regAdd refer to
	num      int       // for notes
	taskNo   int
}

type regEntry struct {
	env int
	v   sym.Variable
}

func newExec(w *World, nOps int, solo bool) *Exec {
	w.grow(nOps)
	x := &Exec{w: w, solo: solo, out: make([]Outcome, nOps), texts: make([]string, nOps)}
	for i := range x.out {
		x.out[i].kind = "none"
	}
	return x
}

func (x *Exec) fail(prop, key string, op int, format string, args ...any) {
	if x.viol == nil {
		x.viol = &Violation{Prop: prop, Key: key, Op: op, What: fmt.Sprintf(format, args...)}
	}
}

func (x *Exec) get(slot int) (any, bool) {
	w := x.w
	if x.src != nil {
		w = x.src
	}
	if slot < 0 || slot >= len(w.vals) || !w.set[slot] {
		return nil, false
	}
	v := w.vals[slot]
	if x.solo && !isEnv(v) {
		return clone(v), true
	}
	return v, true
}

// do performs one operation in the current task.
func (x *Exec) do(op *Op) {
	simrt.Boundary(op.ID)
	o := &x.out[op.ID]
	if x.opStart != nil {
		x.opStart(op)
	}
	if strings.HasPrefix(op.Fn, "user.") {
		x.user(op, o)
		return
	}
	var p prepared
	skipped := false
	func() {
		defer func() {
			if r := recover(); r != nil {
				s, ok := r.(skipOp)
				if !ok {
					panic(r)
				}
				o.kind, o.why = "skip", s.why
				skipped = true
			}
		}()
		p = prepare(x.get, op)
	}()
	if skipped {
		return
	}
	if taking {
		x.taskNo = curTask()
		note(x, "operation %d begins: %s", op.ID, op.describe(x.w))
	}
	if x.before != nil {
		x.before(op, &p)
	}
	task := curTask()
	armed[task] = armedFault{f: op.Fault, w: x.w}
	if op.Fault != nil {
		for _, a := range op.Args {
			if a.K == "slot" && a.S < len(x.w.vals) {
				if e, ok := x.w.vals[a.S].(*SimEnv); ok {
					armed[task].env = e
				}
			}
		}
	}
	var outs []any
	ended := false
	defer func() {
		armed[task].f = nil
		if !ended && (o.kind == "goexit") {
			x.finish(op, &p, o, nil)
		}
	}()
	p.call(o, &outs)
	armed[task].f = nil
	ended = true
	x.finish(op, &p, o, outs)
}

func (x *Exec) finish(op *Op, p *prepared, o *Outcome, outs []any) {
	x.texts[op.ID] = ""
	if o.kind == "ok" {
		o.n = len(outs)
		o.dig = x.w.digest(outs...)
		for k, v := range outs {
			if k < outsPerOp {
				s := x.w.slotOf(op.ID, k)
				x.w.vals[s] = v
				x.w.set[s] = true
				x.w.snap[s] = x.w.digest(v)
			}
		}
		if x.wantText {
			for _, v := range outs {
				x.texts[op.ID] += text(v) + "\n"
			}
		}
	}
	if taking {
		x.taskNo = curTask()
		note(x, "operation %d ends: %s", op.ID, x.outcomeText(op.ID))
	}
	if x.after != nil {
		x.after(op, p, o, outs)
	}
}

// scribble overwrites, reorders and extends a value its receiver owns.
func scribble(v any, r *simrt.Rng) bool {
	junkV := sym.Variable{ID: 999, Lower: 5, Upper: 6, Name: "junk", Type: sym.Integer}
	vars := func(l []sym.Variable) {
		l = l[:cap(l)]
		for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
			l[i], l[j] = l[j], l[i]
		}
		for i := range l {
			if r.Chance(0.6) || i == len(l)-1 {
				l[i] = junkV
			}
		}
	}
	var mono func(m sym.Monomial)
	mono = func(m sym.Monomial) {
		vars(m.VariableFactors)
		for i := range m.Exponents[:cap(m.Exponents)] {
			m.Exponents[:cap(m.Exponents)][i] += 7
		}
	}
	switch x := v.(type) {
	case []sym.Variable:
		vars(x)
		return cap(x) > 0
	case sym.VariableVector:
		vars(x)
		return cap(x) > 0
	case []int:
		for i := range x[:cap(x)] {
			x[:cap(x)][i] = 41
		}
		return cap(x) > 0
	case []uint64:
		for i := range x[:cap(x)] {
			x[:cap(x)][i] = 977
		}
		return cap(x) > 0
	case sym.Monomial:
		mono(x)
		return cap(x.VariableFactors) > 0
	case sym.Polynomial:
		ms := x.Monomials[:cap(x.Monomials)]
		for i := range ms {
			mono(ms[i])
			ms[i].Coefficient = 1234
		}
		for i, j := 0, len(ms)-1; i < j; i, j = i+1, j-1 {
			ms[i], ms[j] = ms[j], ms[i]
		}
		return len(ms) > 0
	case sym.KVector:
		for i := range x[:cap(x)] {
			x[:cap(x)][i] = 1234
		}
		return cap(x) > 0
	case sym.KMatrix:
		for _, row := range x {
			for i := range row[:cap(row)] {
				row[:cap(row)][i] = 1234
			}
		}
		return len(x) > 0
	case []float64:
		for i := range x[:cap(x)] {
			x[:cap(x)][i] = -77 - float64(i)
		}
		return cap(x) > 0
	case [][]float64:
		for i := range x {
			scribble(x[i], r)
		}
		return len(x) > 0
	case mat.VecDense:
		return scribble(&x, r)
	case *mat.VecDense:
		if x == nil || x.Len() == 0 {
			return false
		}
		d := x.RawVector().Data
		for i := range d {
			d[i] = -77 - float64(i)
		}
		return true
	case mat.Dense:
		return scribble(&x, r)
	case *mat.Dense:
		if x == nil || x.IsEmpty() {
			return false
		}
		d := x.RawMatrix().Data
		for i := range d {
			d[i] = -77 - float64(i)
		}
		return true
	}
	return false
}

func (x *Exec) user(op *Op, o *Outcome) {
	switch op.Fn {
	case "user.scribble":
		o.kind = "ok"
		w := x.w
		if op.Recv >= len(w.vals) || !w.set[op.Recv] {
			o.kind = "skip"
			return
		}
		if x.solo || x.noScrib {
			return
		}
		if taking {
			x.taskNo = curTask()
			note(x, "operation %d: the receiver of <%d> overwrites, reorders and extends it", op.ID, op.Recv)
		}
		v := w.vals[op.Recv]
		if simrt.RaceBuild {
			return
		}
		// resynchronise: earlier changes are not this action's doing
		for i := range w.vals {
			if w.set[i] && !isEnv(w.vals[i]) {
				w.snap[i] = w.digest(w.vals[i])
			}
		}
		regs := w.registries()
		beforeS := show(v)
		if !scribble(v, simrt.NewRng(uint64(op.ID)+5)) {
			o.kind = "skip"
			return
		}
		stats.Extra["edits of owned values"]++
		w.snap[op.Recv] = w.digest(v)
		w.dead[op.Recv] = op.Args == nil
		for i := range w.vals {
			if i == op.Recv || !w.set[i] || w.dead[i] || isEnv(w.vals[i]) {
				continue
			}
			if w.digest(w.vals[i]) != w.snap[i] {
				x.fail(x.scribProp(), "scribble:"+reflect.TypeOf(v).String(), op.ID,
					"editing the %T that its receiver owns (value %d, was %s) changed another value: value %d (%T) is now %s", v, op.Recv, beforeS, i, w.vals[i], show(w.vals[i]))
				return
			}
		}
		if w.registries() != regs {
			x.fail(x.scribProp(), "scribble-registry", op.ID, "editing the %T that its receiver owns (value %d, was %s) changed the registry of an environment", v, op.Recv, beforeS)
		}
		stats.Checks++
	case "user.register":
		for _, e := range x.regAdd[op.Recv] {
			v := e.v
			v.Environment = x.w.envs.same(x.regEnvs, v.Environment)
			switch t := x.w.envs.envs[e.env].(type) {
			case *SimEnv:
				t.list = append(t.list, v)
			case *sym.BasicEnvironment:
				t.Variables = append(t.Variables, v)
			}
		}
		o.kind = "ok"
	case "user.post", "user.reduce":
		x.reduceOp(op, o)
	default:
		o.kind = "skip"
	}
}

func (x *Exec) scribProp() string {
	if x.scribAs != "" {
		return x.scribAs
	}
	return "C09"
}

// runSolo executes all operations one after the other.
func (x *Exec) runSolo(c *Case, sc Sched, order []*Op) {
	var prog []func()
	for _, op := range order {
		op := op
		prog = append(prog, func() { x.do(op) })
	}
	cfg := sc.config()
	cfg.Strategy = simrt.Serial
	cfg.StepCap = 2 * stepCap
	s := simrt.Run(cfg, [][]func(){prog})
	stats.addSim(s, int(simrt.Serial))
	if s.Deadlock != "" {
		x.fail(c.Prop, "deadlock", -1, "a single task running alone blocks for ever: %s", s.Deadlock)
	}
}

func (c *Case) order() []*Op {
	var out []*Op
	c.eachOp(func(_, _ int, op *Op) { out = append(out, op) })
	return out
}

// runPhases executes the case's phases concurrently.
func (x *Exec) runPhases(c *Case, onSwitch func(task, site int), phaseEnd func(phase int)) (deadlock string, capHit bool) {
	sig, midOp := simrt.Mix(c.Seed), 0
	defer func() {
		if midOp > 0 {
			stats.sigs[sig] = true
		}
	}()
	for pi := range c.Phases {
		var progs [][]func()
		for ti := range c.Phases[pi] {
			var prog []func()
			for oi := range c.Phases[pi][ti] {
				op := &c.Phases[pi][ti][oi]
				prog = append(prog, func() {
					if x.viol == nil || simrt.RaceBuild {
						x.do(op)
					}
				})
			}
			progs = append(progs, prog)
		}
		sc := Sched{}
		if pi < len(c.Sched) {
			sc = c.Sched[pi]
		}
		cfg := sc.config()
		cfg.OnSwitch = onSwitch
		s := simrt.Run(cfg, progs)
		stats.addSim(s, sc.Strategy)
		sig = simrt.Mix(sig, s.Signature())
		midOp += s.MidOp
		x.traces = append(x.traces, s.Trace)
		if phaseEnd != nil && x.viol == nil {
			phaseEnd(pi)
		}
		if s.Deadlock != "" {
			return s.Deadlock, false
		}
		if s.CapHit {
			return "", true
		}
		if x.viol != nil {
			return "", false
		}
	}
	return "", false
}

// tally records what the operations did.
func (x *Exec) tally(c *Case) {
	c.eachOp(func(_, _ int, op *Op) {
		stats.Ops++
		stats.Kinds[x.out[op.ID].kind]++
		name := op.Fn
		if op.Recv >= 0 && !strings.HasPrefix(name, "user.") {
			if op.Recv < len(x.w.vals) && x.w.vals[op.Recv] != nil {
				name = reflect.TypeOf(x.w.vals[op.Recv]).Name() + "." + name
			}
		}
		stats.OpNames[name+"/"+x.out[op.ID].kind]++
	})
}

// drawSched chooses a schedule.
func drawSched(r *simrt.Rng, est int64, hot []int) Sched {
	s := Sched{Seed: r.Uint64(), Est: est}
	switch k := r.Intn(20); {
	case k < 2:
		s.Strategy = int(simrt.OpLevel)
		s.PBound = 0.7
	case k < 10:
		s.Strategy = int(simrt.RandomGap)
		s.Gap = []int{1, 2, 4, 8, 20, 60, 200}[r.Intn(7)]
		s.PBound = []float64{0, 0.3, 0.8}[r.Intn(3)]
	case k < 15:
		s.Strategy = int(simrt.PCT)
		s.Depth = 1 + r.Intn(5)
	default:
		s.Strategy = int(simrt.SiteSet)
		s.PBound = 0.3
		for i := 0; i < 1+r.Intn(3); i++ {
			if len(hot) > 0 {
				s.Sites = append(s.Sites, hot[r.Intn(len(hot))])
			}
		}
	}
	s.RandSeed = r.Uint64()
	return s
}

// hotSites lists the code sites an execution visited.
func hotSites(s *simrt.Sim) []int {
	var out []int
	for i, w := range s.SeenSites() {
		for b := 0; b < 64; b++ {
			if w&(1<<b) != 0 {
				out = append(out, i*64+b)
			}
		}
	}
	return out
}

// Shape of a generated program.
type Shape struct {
	Phases, Tasks, Ops int
}

func drawShape(r *simrt.Rng) Shape {
	return Shape{1 + r.Intn(3), 2 + r.Intn(3), 2 + r.Intn(4)}
}

// generate draws a program while executing it alone; it returns the case and
// the execution.
func generate(prop string, seed uint64, spec PoolSpec, shape Shape, prof *Profile, extra func(g *Gen, x *Exec, task int, op *Op, emit func(Op))) (*Case, *Exec) {
	r := simrt.NewRng(simrt.Mix(seed, 1))
	c := &Case{Prop: prop, Seed: seed, Pool: spec, Opt: map[string]int{}}
	w := newWorld(spec)
	maxOps := shape.Phases * shape.Tasks * (shape.Ops*3 + 2)
	x := newExec(w, maxOps, true)
	g := newGen(w, r, prof)
	id := 0
	base := make([]int, 0, w.pool)
	for i := 0; i < w.pool; i++ {
		base = append(base, i)
	}
	var prog []func()
	var fresh []int // results of the phase so far, of all tasks
	for ph := 0; ph < shape.Phases; ph++ {
		ph := ph
		c.Phases = append(c.Phases, make([][]Op, shape.Tasks))
		for t := 0; t < shape.Tasks; t++ {
			t := t
			prog = append(prog, func() {
				if t == 0 {
					base = append(base, fresh...)
					fresh = nil
				}
				g.avail = append([]int(nil), base...)
				if prof.NoPrivate {
					g.avail = g.filterPrivate(t, shape.Tasks)
				}
			})
			for k := 0; k < shape.Ops; k++ {
				prog = append(prog, func() {
					if id >= maxOps {
						return
					}
					var op Op
					var ok bool
					simrt.Quiet(func() { op, ok = g.op(id) })
					if !ok {
						return
					}
					emit := func(op Op) {
						c.Phases[ph][t] = append(c.Phases[ph][t], op)
						id++
						x.do(&op)
						for k := 0; k < outsPerOp; k++ {
							if s := w.slotOf(op.ID, k); w.set[s] {
								g.avail = append(g.avail, s)
								fresh = append(fresh, s)
							}
						}
					}
					if extra != nil {
						extra(g, x, t, &op, nil)
					}
					emit(op)
					if extra != nil && id < maxOps {
						extra(g, x, t, &op, emit)
					}
				})
			}
		}
	}
	s := simrt.Run(simrt.Config{Strategy: simrt.Serial, StepCap: 2 * stepCap, RandSeed: seed}, [][]func(){prog})
	stats.addSim(s, int(simrt.Serial))
	if s.Deadlock != "" {
		x.fail(prop, "deadlock", -1, "a single task running alone blocks for ever: %s", s.Deadlock)
	}
	est := s.StepsTaken() / int64(shape.Phases)
	hot := hotSites(s)
	for ph := 0; ph < shape.Phases; ph++ {
		c.Sched = append(c.Sched, drawSched(r, est, hot))
	}
	// drop empty trailing phases (generation was cut short)
	return c, x
}

// filterPrivate leaves out what belongs to other tasks: numeric containers
// (their owner may edit them) and environments, except the last of the
// library's own, which all tasks share.
func (g *Gen) filterPrivate(t, n int) []int {
	var out []int
	k, e, last := 0, 0, -1
	for s := 0; s < g.w.pool; s++ {
		if _, ok := g.w.vals[s].(*sym.BasicEnvironment); ok {
			last = s
		}
	}
	for _, s := range g.avail {
		if s < g.w.pool {
			switch g.w.vals[s].(type) {
			case mat.VecDense, mat.Dense, []float64, [][]float64, []int:
				k++
				if k%n != t {
					continue
				}
			case sym.Environment:
				e++
				if e%n != t && s != last {
					continue
				}
			}
		}
		out = append(out, s)
	}
	return out
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
