// Package simrt is the simulator: tasks are goroutines of which exactly one,
// the holder of the baton, runs at a time; every decision about who runs next,
// the order of map iterations, the clock and random numbers comes from one
// seeded generator or from a recorded script.
//
// Functions that touch simulator state from task goroutines are //go:norace
// and hand the baton over with race synchronisation events switched off, so
// that under the race detector the simulator adds no happens-before edges of
// its own: two accesses of the code under test that are not ordered by that
// code are reported although the tasks never really overlap.
package simrt

import (
	"fmt"
	"runtime"
	"sync"
)

// SiteInfo is one scheduling point of the instrumented code.
type SiteInfo struct {
	File string
	Line int
	Func string
}

// Sites and Seams are filled in by the instrumenter.
var (
	Sites []SiteInfo
	Seams map[string]int
)

// Rng is a splitmix64 generator: small, seedable and stable across Go versions.
type Rng struct{ s uint64 }

// NewRng returns a generator for the given seed.
func NewRng(seed uint64) *Rng { return &Rng{seed} }

//go:norace
func (r *Rng) Uint64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

//go:norace
func (r *Rng) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.Uint64() % uint64(n))
}

//go:norace
func (r *Rng) Float() float64 { return float64(r.Uint64()>>11) / (1 << 53) }

//go:norace
func (r *Rng) Chance(p float64) bool { return r.Float() < p }

// Mix derives a seed from several numbers.
func Mix(xs ...uint64) uint64 {
	h := uint64(0x243f6a8885a308d3)
	for _, x := range xs {
		r := Rng{h ^ x}
		h = r.Uint64()
	}
	return h
}

// Strategy says how the scheduler picks preemptions.
type Strategy int

const (
	Serial    Strategy = iota // run tasks one after the other, never preempt
	OpLevel                   // switch only between operations
	RandomGap                 // preempt after a geometric number of steps
	PCT                       // random priorities with a few change points
	SiteSet                   // preempt at a few randomly chosen code sites
	Script                    // replay recorded decisions
)

var StrategyNames = []string{"serial", "op-level", "random-gap", "pct", "site-set", "script"}

// Preempt is one recorded scheduling decision: when task Task is in operation
// Op and reaches its K-th step, task To runs next.
type Preempt struct {
	Task int `json:"task"`
	Op   int `json:"op"`
	K    int `json:"k"`
	To   int `json:"to"`
	Site int `json:"site,omitempty"`
}

// MapOrder says how maps are iterated.
type MapOrder int

const (
	MapSorted MapOrder = iota
	MapReverse
	MapShuffled
)

// Config of one simulated execution.
type Config struct {
	Seed     uint64
	Strategy Strategy
	Gap      int // mean gap of RandomGap
	PBound   float64
	Depth    int // PCT change points
	EstSteps int64
	SiteList []int // sites of SiteSet
	Script   []Preempt
	MapOrder MapOrder
	MapSeed  uint64
	ClockOff int64 // nanoseconds added to the simulated epoch
	RandSeed uint64
	StepCap  int64
	OnSwitch func(from int, site int) // called when a task is preempted inside an operation
}

// Abort is what a task panics with when the simulator ends the execution.
type Abort struct{ Why string }

func (a Abort) Error() string { return "simulation ended: " + a.Why }

// Task is one simulated thread.
type Task struct {
	ID     int
	Child  bool
	wake   chan struct{}
	done   bool
	ready  func() bool
	wakeAt int64
	op, k  int
	pc     int
	steps  []func()
	prio   int
	script []Preempt
	scr    int
	rng    *taskRand
}

// Sim is one simulated execution.
type Sim struct {
	cfg     Config
	rng     Rng
	mapRng  Rng
	tasks   []*Task
	fin     sync.WaitGroup
	steps   int64
	clock   int64
	gap     int64
	aborted string
	Trace   []Preempt
	// results
	Deadlock   string
	CapHit     bool
	Switches   int
	MidOp      int // preemptions inside an operation
	sig        uint64
	siteBits   []uint64
	pctPoints  []int64
	pctNext    int
	lowPrio    int
	seenSite   []uint64
	idlePolls  int
	run        int // steps since the last switch
	fairAt     int
	exitsSeen  int
	mapDraws   int64
	clockReads int64
	randDraws  int64
}

var (
	cur *Task
	sim *Sim
)

// Run executes the given programs (one per task; each a list of operations)
// under the configuration and returns when all of them have ended.
func Run(cfg Config, programs [][]func()) *Sim {
	s := &Sim{cfg: cfg, rng: Rng{cfg.Seed}, mapRng: Rng{cfg.MapSeed}, fairAt: fairSteps}
	if s.cfg.StepCap == 0 {
		s.cfg.StepCap = 5_000_000
	}
	s.siteBits = make([]uint64, (len(Sites)+63)/64)
	s.seenSite = make([]uint64, (len(Sites)+63)/64)
	for _, x := range cfg.SiteList {
		s.siteBits[x/64] |= 1 << (x % 64)
	}
	for _, p := range programs {
		s.addTask(p, false)
	}
	if cfg.Strategy == PCT {
		n := len(s.tasks)
		perm := make([]int, n)
		for i := range perm {
			perm[i] = i
		}
		for i := n - 1; i > 0; i-- {
			j := s.rng.Intn(i + 1)
			perm[i], perm[j] = perm[j], perm[i]
		}
		for i, t := range s.tasks {
			t.prio = 1000 + perm[i]
		}
		est := cfg.EstSteps
		if est < 10 {
			est = 10
		}
		for i := 0; i < cfg.Depth; i++ {
			s.pctPoints = append(s.pctPoints, int64(s.rng.Uint64()%uint64(est)))
		}
		for i := 1; i < len(s.pctPoints); i++ {
			for j := i; j > 0 && s.pctPoints[j] < s.pctPoints[j-1]; j-- {
				s.pctPoints[j], s.pctPoints[j-1] = s.pctPoints[j-1], s.pctPoints[j]
			}
		}
		s.lowPrio = 900
	}
	if cfg.Strategy == Script {
		for _, p := range cfg.Script {
			if p.Task >= 0 && p.Task < len(s.tasks) {
				s.tasks[p.Task].script = append(s.tasks[p.Task].script, p)
			}
		}
	}
	s.drawGap()
	if sim != nil {
		panic("simrt: nested Run")
	}
	sim = s
	if len(s.tasks) > 0 {
		first := s.tasks[0]
		if cfg.Strategy == Script {
			for _, p := range cfg.Script {
				if p.Task == -1 && p.To < len(s.tasks) {
					first = s.tasks[p.To]
				}
			}
		} else if cfg.Strategy == PCT {
			first = s.best()
		} else if cfg.Strategy != Serial {
			first = s.tasks[s.rng.Intn(len(s.tasks))]
		}
		s.Trace = append(s.Trace, Preempt{Task: -1, Op: -1, To: first.ID, Site: -1})
		cur = first
		raceDisable()
		first.wake <- struct{}{}
		raceEnable()
		s.fin.Wait()
	}
	cur = nil
	sim = nil
	return s
}

//go:norace
func (s *Sim) addTask(p []func(), child bool) *Task {
	t := &Task{ID: len(s.tasks), Child: child, wake: make(chan struct{}, 1), steps: p, op: -1}
	t.rng = newTaskRand(Mix(s.cfg.RandSeed, uint64(t.ID)))
	if s.cfg.Strategy == PCT {
		t.prio = 500 + s.rng.Intn(1000)
	}
	ts := make([]*Task, len(s.tasks)+1)
	for i := range s.tasks {
		ts[i] = s.tasks[i]
	}
	ts[len(ts)-1] = t
	s.tasks = ts
	s.fin.Add(1)
	go t.main(s)
	return t
}

func (t *Task) main(s *Sim) {
	t.await()
	t.loop(s)
}

//go:norace
func (t *Task) await() {
	raceDisable()
	<-t.wake
	raceEnable()
}

// loop runs the task's operations. If one of them ends the goroutine
// (runtime.Goexit), the task is restarted on a fresh goroutine with its next
// operation: a crash and restart of the task.
func (t *Task) loop(s *Sim) {
	normal := false
	defer func() {
		if normal {
			t.end(s)
			s.fin.Done()
			return
		}
		if r := recover(); r != nil {
			if _, ok := r.(Abort); !ok {
				// a panic nobody handled: bring the process down loudly
				panic(r)
			}
			t.end(s)
			s.fin.Done()
			return
		}
		noteExit(s)
		go t.loop(s)
	}()
	for t.pcNext(s) {
		t.current()()
	}
	normal = true
}

//go:norace
func noteExit(s *Sim) { s.exitsSeen++ }

//go:norace
func (t *Task) pcNext(s *Sim) bool {
	if s.aborted != "" || t.pc >= len(t.steps) {
		return false
	}
	t.pc++
	return true
}

//go:norace
func (t *Task) current() func() { return t.steps[t.pc-1] }

//go:norace
func (t *Task) end(s *Sim) {
	t.done = true
	t.op, t.k = -2, 0
	if s.cfg.Strategy == Script {
		t.scriptHit(s)
	}
	next := s.pick(t, true)
	if next == nil {
		if s.allDone() {
			cur = nil
			return
		}
		if s.aborted == "" {
			s.deadlock()
		}
		next = s.anyLive()
		if next == nil {
			cur = nil
			return
		}
	}
	s.record(t, next, -1)
	cur = next
	raceDisable()
	next.wake <- struct{}{}
	raceEnable()
}

//go:norace
func (s *Sim) allDone() bool {
	for _, t := range s.tasks {
		if !t.done {
			return false
		}
	}
	return true
}

//go:norace
func (s *Sim) anyLive() *Task {
	for _, t := range s.tasks {
		if !t.done {
			return t
		}
	}
	return nil
}

//go:norace
func (s *Sim) deadlock() {
	d := ""
	for _, t := range s.tasks {
		if !t.done {
			kind := ""
			if t.Child {
				kind = " (started by the library)"
			}
			d += fmt.Sprintf("task %d%s is blocked in operation %d at step %d; ", t.ID, kind, t.op, t.k)
		}
	}
	s.Deadlock = d
	s.aborted = "deadlock"
}

//go:norace
func (s *Sim) drawGap() {
	switch s.cfg.Strategy {
	case RandomGap:
		g := s.cfg.Gap
		if g < 1 {
			g = 1
		}
		s.gap = 1 + int64(s.rng.Uint64()%uint64(2*g))
	default:
		s.gap = 1 << 60
	}
}

//go:norace
func (t *Task) runnable(s *Sim) bool {
	if t.done {
		return false
	}
	if s.aborted != "" {
		return true
	}
	if t.wakeAt > 0 {
		return t.wakeAt <= s.clock
	}
	if t.ready != nil {
		return t.ready()
	}
	return true
}

//go:norace
func (s *Sim) best() *Task {
	var b *Task
	for _, t := range s.tasks {
		if t.runnable(s) && (b == nil || t.prio > b.prio) {
			b = t
		}
	}
	return b
}

// pick chooses the task to run after t; forced means t itself cannot go on.
//
//go:norace
func (s *Sim) pick(t *Task, forced bool) *Task {
	for round := 0; ; round++ {
		if s.cfg.Strategy == Script {
			// an explicit decision for this point?
			for t.scr < len(t.script) {
				p := t.script[t.scr]
				if p.Op == t.op && p.K == t.k {
					if p.To < len(s.tasks) && s.tasks[p.To].runnable(s) {
						return s.tasks[p.To]
					}
				}
				break
			}
			if !forced {
				return t
			}
			for _, c := range s.tasks {
				if c != t && c.runnable(s) {
					return c
				}
			}
			if t.runnable(s) {
				return t
			}
		} else if s.cfg.Strategy == PCT {
			if b := s.best(); b != nil {
				return b
			}
		} else {
			n := 0
			for _, c := range s.tasks {
				if c != t && c.runnable(s) {
					n++
				}
			}
			if n > 0 {
				if s.cfg.Strategy == Serial {
					for _, c := range s.tasks {
						if c != t && c.runnable(s) && (c.ID > t.ID || c.Child) {
							return c
						}
					}
					for _, c := range s.tasks {
						if c != t && c.runnable(s) {
							return c
						}
					}
				}
				i := s.rng.Intn(n)
				for _, c := range s.tasks {
					if c != t && c.runnable(s) {
						if i == 0 {
							return c
						}
						i--
					}
				}
			}
			if t.runnable(s) {
				return t
			}
		}
		// nobody can run: advance the clock to the next sleeper
		var min int64
		for _, c := range s.tasks {
			if !c.done && c.wakeAt > s.clock && (min == 0 || c.wakeAt < min) {
				min = c.wakeAt
			}
		}
		if min == 0 {
			return nil
		}
		s.clock = min
	}
}

//go:norace
func (s *Sim) record(from, to *Task, site int) {
	if from == to {
		return
	}
	s.Switches++
	if n := len(s.Trace); n < 200000 {
		// grown by hand: append and copy report accesses to the race detector
		if n == cap(s.Trace) {
			t := make([]Preempt, n, 2*n+64)
			for i := range t {
				t[i] = s.Trace[i]
			}
			s.Trace = t
		}
		s.Trace = s.Trace[:n+1]
		s.Trace[n] = Preempt{from.ID, from.op, from.k, to.ID, site}
	}
	s.sig = (s.sig ^ uint64(from.ID)<<48 ^ uint64(from.op+3)<<32 ^ uint64(from.k)<<8 ^ uint64(to.ID)) * 0x100000001b3
}

//go:norace
func (t *Task) scriptHit(s *Sim) bool {
	for t.scr < len(t.script) {
		p := t.script[t.scr]
		if p.Op == t.op {
			if p.K == t.k {
				return true
			}
			if p.K > t.k {
				return false
			}
			t.scr++ // a decision this execution never reaches
			continue
		}
		// the entry belongs to another operation: skip it when it can no
		// longer be reached (operations of a task run in order)
		if p.Op >= 0 && (p.Op < t.op || t.op == -2) {
			t.scr++
			continue
		}
		return false
	}
	return false
}

// Y is the scheduling point the instrumenter puts before every statement.
//
//go:norace
func Y(site int) {
	t := cur
	if t == nil {
		return
	}
	s := sim
	if s.aborted != "" {
		panic(Abort{s.aborted})
	}
	s.steps++
	s.clock += 1000
	t.k++
	s.idlePolls = 0
	if site >= 0 {
		s.seenSite[site>>6] |= 1 << (uint(site) & 63)
	}
	s.run++
	if s.run > s.fairAt {
		s.fair(t)
		return
	}
	if s.steps > s.cfg.StepCap {
		s.CapHit = true
		s.aborted = "step cap"
		panic(Abort{s.aborted})
	}
	switch s.cfg.Strategy {
	case Serial, OpLevel:
		return
	case RandomGap:
		s.gap--
		if s.gap > 0 {
			return
		}
		s.drawGap()
	case PCT:
		if s.pctNext >= len(s.pctPoints) || s.steps < s.pctPoints[s.pctNext] {
			return
		}
		s.pctNext++
		s.lowPrio--
		t.prio = s.lowPrio
	case SiteSet:
		if site < 0 || s.siteBits[site>>6]&(1<<(uint(site)&63)) == 0 || s.rng.Uint64()&3 == 0 {
			return
		}
	case Script:
		if !t.scriptHit(s) {
			return
		}
	}
	next := s.pick(t, false)
	if s.cfg.Strategy == Script {
		t.scr++
	}
	if next == nil || next == t {
		return
	}
	s.MidOp++
	s.switchTo(t, next, site)
}

// fairSteps is how long, at first, a task may run while others could: a task that waits
// for another one by trying again and again must not keep it from running.
const fairSteps = 400_000

// fair lets somebody else run.
//
//go:norace
func (s *Sim) fair(t *Task) {
	if s.cfg.Strategy == Script && s.run < 2*s.fairAt {
		// what is replayed has its own turns
		if !t.scriptHit(s) {
			return
		}
		next := s.pick(t, false)
		t.scr++
		if next != nil && next != t {
			s.switchTo(t, next, -2)
		}
		return
	}
	s.run = 0
	if s.fairAt > 1000 {
		s.fairAt /= 2 // it waits for a lock, presumably; there will be more of that
	}
	s.demote(t)
	if next := s.rotate(t, s.cfg.Strategy == Serial); next != nil {
		s.switchTo(t, next, -2)
	}
}

// demote puts the task behind all others.
//
//go:norace
func (s *Sim) demote(t *Task) {
	if s.cfg.Strategy == PCT {
		s.lowPrio--
		t.prio = s.lowPrio
	}
}

// rotate is the next task in turn that can run; with begun, only one that is
// in the middle of something.
//
//go:norace
func (s *Sim) rotate(t *Task, begun bool) *Task {
	n := len(s.tasks)
	for i := 1; i < n; i++ {
		c := s.tasks[(t.ID+i)%n]
		if c.runnable(s) && (!begun || c.Child || c.op >= 0) {
			return c
		}
	}
	return nil
}

//go:norace
func (s *Sim) switchTo(t, next *Task, site int) {
	s.record(t, next, site)
	s.run = 0
	if s.cfg.OnSwitch != nil && site >= 0 {
		cur = nil
		s.cfg.OnSwitch(t.ID, site)
	}
	cur = next
	raceDisable()
	next.wake <- struct{}{}
	<-t.wake
	raceEnable()
	if s.aborted != "" {
		panic(Abort{s.aborted})
	}
}

// Boundary marks the beginning of operation op of the current task.
//
//go:norace
func Boundary(op int) {
	t := cur
	if t == nil {
		return
	}
	s := sim
	if s.aborted != "" {
		panic(Abort{s.aborted})
	}
	t.op, t.k = op, 0
	sw := false
	switch s.cfg.Strategy {
	case OpLevel, RandomGap, SiteSet:
		sw = s.rng.Chance(s.cfg.PBound)
	case PCT:
		sw = true
	case Script:
		sw = t.scriptHit(s)
	}
	if !sw {
		return
	}
	next := s.pick(t, false)
	if s.cfg.Strategy == Script {
		t.scr++
	}
	if next == nil || next == t {
		return
	}
	s.switchTo(t, next, -1)
}

// Block suspends the current task until ready reports true.
//
//go:norace
func Block(ready func() bool) {
	t := cur
	if t == nil {
		if !ready() {
			panic(Abort{"blocked outside the simulation"})
		}
		return
	}
	s := sim
	for !ready() {
		if s.aborted != "" {
			panic(Abort{s.aborted})
		}
		t.k++
		t.ready = ready
		s.park(t)
		t.ready = nil
	}
}

//go:norace
func (s *Sim) park(t *Task) {
	if s.cfg.Strategy == Script {
		t.scriptHit(s)
	}
	next := s.pick(t, true)
	if s.cfg.Strategy == Script && t.scr < len(t.script) && t.script[t.scr].Op == t.op && t.script[t.scr].K == t.k {
		t.scr++
	}
	if next == nil {
		s.deadlock()
		panic(Abort{s.aborted})
	}
	if next != t {
		s.switchTo(t, next, -2)
	}
}

// Poll lets another task run; used by code that waits by trying again.
//
//go:norace
func Poll() {
	t := cur
	if t == nil {
		runtime.Gosched()
		return
	}
	s := sim
	if s.aborted != "" {
		panic(Abort{s.aborted})
	}
	t.k++
	s.steps++
	s.clock += 1000
	s.idlePolls++
	if s.idlePolls > 20000 {
		s.deadlock()
		panic(Abort{s.aborted})
	}
	s.demote(t)
	if s.idlePolls > 64 && (s.cfg.Strategy != Script || s.idlePolls > 256) {
		// nothing happens: everybody has a turn
		next := s.rotate(t, s.cfg.Strategy == Serial)
		if next == nil {
			next = s.rotate(t, false)
		}
		if next != nil {
			s.switchTo(t, next, -2)
			return
		}
	}
	s.park(t)
}

// Gosched is runtime.Gosched of the instrumented code.
//
//go:norace
func Gosched() {
	if cur == nil {
		runtime.Gosched()
		return
	}
	t, s := cur, sim
	t.k++
	s.demote(t)
	if s.cfg.Strategy == Serial {
		if next := s.rotate(t, true); next != nil {
			s.switchTo(t, next, -2)
		}
		return
	}
	s.park(t)
}

// Stall keeps the current task away from the processor for n simulated steps.
//
//go:norace
func Stall(n int) {
	t := cur
	if t == nil {
		return
	}
	s := sim
	t.k++
	t.wakeAt = s.clock + int64(n)*1000
	s.park(t)
	t.wakeAt = 0
}

// Go starts f as a new task.
//
//go:norace
func Go(f func()) {
	if cur == nil {
		go f()
		return
	}
	s := sim
	id := childOp(s)
	s.addTask([]func(){func() { Boundary(id); f() }}, true)
	Y(-1)
}

//go:norace
func childOp(s *Sim) int { return 100000 + len(s.tasks) }

// InSim reports whether the caller is a simulated task.
//
//go:norace
func InSim() bool { return cur != nil }

// Quiet runs f without scheduling points (used by oracles).
//
//go:norace
func Quiet(f func()) {
	old := cur
	cur = nil
	defer restore(old)
	f()
}

//go:norace
func restore(t *Task) { cur = t }

// CurrentTask returns the ID of the running task, or -1.
//
//go:norace
func CurrentTask() int {
	if cur == nil {
		return -1
	}
	return cur.ID
}

// Steps returns the number of steps taken so far in this execution.
//
//go:norace
func Steps() int64 {
	if sim == nil {
		return 0
	}
	return sim.steps
}

// Results of an execution.

func (s *Sim) StepsTaken() int64   { return s.steps }
func (s *Sim) SimTime() int64      { return s.clock }
func (s *Sim) Signature() uint64   { return s.sig }
func (s *Sim) Aborted() string     { return s.aborted }
func (s *Sim) Exits() int          { return s.exitsSeen }
func (s *Sim) MapDraws() int64     { return s.mapDraws }
func (s *Sim) SeenSites() []uint64 { return s.seenSite }
func (s *Sim) ClockReads() int64   { return s.clockReads }
func (s *Sim) RandDraws() int64    { return s.randDraws }
