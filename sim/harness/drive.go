package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"SIMMODULE/verifsim/simrt"
)

// plan says how many runs of a property are made.
type plan struct {
	quick, thorough int // runs
	batch           int // runs per process
	race            int // every race-th batch runs under the race detector (0: none)
}

var plans = map[string]plan{
	"C01": {70000, 2600000, 400, 0},
	"C02": {44000, 1000000, 250, 2},
	"C03": {500000, 16000000, 4000, 0},
	"C04": {450000, 14000000, 4000, 0},
	"C05": {32000, 1000000, 250, 0},
	"C06": {80000, 2400000, 500, 0},
	"C07": {80000, 2400000, 400, 0},
	"C08": {160000, 4800000, 800, 0},
	"C09": {90000, 2800000, 500, 0},
	"C10": {110000, 3300000, 500, 0},
	"C11": {160000, 4800000, 800, 0},
	"C12": {130000, 3900000, 700, 0},
	"C13": {110000, 3300000, 600, 0},
	"C14": {110000, 3300000, 600, 0},
	"C15": {120000, 3600000, 600, 0},
	"C16": {150000, 4500000, 800, 0},
	"C17": {150000, 4500000, 800, 0},
}

const (
	lineTimeout = 120 * time.Second // a worker that says nothing for so long hangs
	tryTimeout  = 120 * time.Second
)

func raceEnv() []string {
	env := os.Environ()
	return append(env, "GORACE=suppress_equal_stacks=0 suppress_equal_addresses=0 exitcode=0 halt_on_error=0")
}

// driver runs the batches of one check.
type driver struct {
	prop, tier string
	seed       uint64
	self, race string // programs
	verif      string
	known      []knownFinding

	mu       sync.Mutex
	stats    *Stats
	samples  []string
	found    []*found
	bestAt   int // index of the lowest violation found so far
	knownHit map[string]int
	warnings []string
	runs     int
	raceRuns int
	procs    int
}

// found is a violation as a worker met it.
type found struct {
	index   int
	viol    *Violation
	kase    *Case
	race    bool
	session []int // cases of the process, in order
	other   []int // C05: another order
}

type knownFinding struct{ prop, key, match, text string }

func readKnown(path string) []knownFinding {
	var out []knownFinding
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		// finding: property=C10 key=value:Plus match="..." text
		rest, ok := strings.CutPrefix(strings.TrimSpace(l), "finding: ")
		if !ok {
			continue
		}
		k := knownFinding{text: rest}
		for rest != "" {
			name, r, ok := strings.Cut(rest, "=")
			if !ok || strings.Contains(name, " ") {
				break
			}
			var val string
			if strings.HasPrefix(r, `"`) {
				val, r, _ = strings.Cut(r[1:], `"`)
				r = strings.TrimPrefix(r, " ")
			} else {
				val, r, _ = strings.Cut(r, " ")
			}
			switch name {
			case "property":
				k.prop = val
			case "key":
				k.key = val
			case "match":
				k.match = val
			}
			rest = r
		}
		if k.prop != "" && k.key != "" && k.match != "" {
			out = append(out, k)
		}
	}
	return out
}

func (d *driver) isKnown(v *Violation) bool {
	for _, k := range d.known {
		if k.prop == d.prop && k.key == v.Key && strings.Contains(v.What, k.match) {
			d.mu.Lock()
			d.knownHit[k.text]++
			d.mu.Unlock()
			return true
		}
	}
	return false
}

// process runs a program and hands its report lines to f; it returns what the
// program wrote to standard error and how it ended: "", "hang" or "crash".
func process(bin string, args []string, stdin []byte, timeout time.Duration, f func(line) bool) (stderr string, end string) {
	cmd := exec.Command(bin, args...)
	cmd.Env = raceEnv()
	if stdin != nil {
		cmd.Stdin = bytes.NewReader(stdin)
	}
	var eb tail
	cmd.Stderr = &eb
	so, err := cmd.StdoutPipe()
	if err != nil {
		return err.Error(), "start"
	}
	if err := cmd.Start(); err != nil {
		return err.Error(), "start"
	}
	hung, stopped := false, false
	var mu sync.Mutex
	timer := time.AfterFunc(timeout, func() {
		mu.Lock()
		hung = true
		mu.Unlock()
		cmd.Process.Kill()
	})
	rd := bufio.NewReaderSize(so, 1<<20)
	for {
		b, err := rd.ReadBytes('\n')
		if len(b) > 0 && err == nil {
			timer.Reset(timeout)
			var l line
			if json.Unmarshal(b, &l) == nil {
				if !f(l) {
					mu.Lock()
					stopped = true
					mu.Unlock()
					cmd.Process.Kill()
				}
			}
		}
		if err != nil {
			break
		}
	}
	io.Copy(io.Discard, so)
	werr := cmd.Wait()
	timer.Stop()
	mu.Lock()
	defer mu.Unlock()
	switch {
	case stopped:
		return eb.String(), ""
	case hung:
		return eb.String(), "hang"
	case werr != nil:
		return eb.String(), "crash"
	}
	return eb.String(), ""
}

// tail keeps the beginning and the end of what is written to it.
type tail struct {
	head, end []byte
}

func (t *tail) Write(p []byte) (int, error) {
	if n := 8000 - len(t.head); n > 0 {
		k := min(n, len(p))
		t.head = append(t.head, p[:k]...)
		t.end = append(t.end, p[k:]...)
	} else {
		t.end = append(t.end, p...)
	}
	if len(t.end) > 8000 {
		t.end = append([]byte(nil), t.end[len(t.end)-4000:]...)
	}
	return len(p), nil
}

func (t *tail) String() string {
	if len(t.end) == 0 {
		return string(t.head)
	}
	return string(t.head) + "\n...\n" + string(t.end)
}

type batch struct {
	from, n int
	race    bool
	reverse bool
}

func (b batch) indexes() []int {
	var out []int
	for k := 0; k < b.n; k++ {
		if b.reverse {
			out = append(out, b.from+b.n-1-k)
		} else {
			out = append(out, b.from+k)
		}
	}
	return out
}

func (d *driver) bin(race bool) string {
	if race && d.race != "" {
		return d.race
	}
	return d.self
}

// runBatch runs a batch; it returns hashes and answers by case.
func (d *driver) runBatch(b batch, samples int) (hash, out map[int]string) {
	hash, out = map[int]string{}, map[int]string{}
	done := 0
	for done < b.n {
		rest := b
		rest.n = b.n - done
		if !b.reverse {
			rest.from = b.from + done
		}
		args := []string{"worker", "-prop", d.prop, "-seed", fmt.Sprint(d.seed), "-from", fmt.Sprint(rest.from), "-n", fmt.Sprint(rest.n), "-samples", fmt.Sprint(samples)}
		if b.reverse {
			args = append(args, "-reverse")
		}
		cur, ended := -1, false
		var hit *found
		var order []int
		errText, end := process(d.bin(b.race), args, nil, lineTimeout, func(l line) bool {
			switch {
			case l.I == -1:
				ended = true
				d.mu.Lock()
				d.stats.merge(l.Stats)
				d.mu.Unlock()
			case l.Begin:
				cur = l.I
				order = append(order, l.I)
			default:
				done++
				hash[l.I] = l.Hash
				if l.Out != "" {
					out[l.I] = l.Out
				}
				if l.Sample != "" {
					d.mu.Lock()
					d.samples = append(d.samples, l.Sample)
					d.mu.Unlock()
				}
				if l.Viol != nil {
					hit = &found{index: l.I, viol: l.Viol, kase: l.Case, race: b.race, session: append([]int(nil), order...)}
				}
			}
			return true
		})
		d.mu.Lock()
		d.procs++
		d.mu.Unlock()
		if end == "start" {
			fmt.Fprintln(os.Stderr, "cannot start a worker:", errText)
			os.Exit(3)
		}
		if hit == nil && (end != "" || !ended) {
			if cur < 0 {
				fmt.Fprintf(os.Stderr, "a worker ended at once (%s):\n%s\n", end, errText)
				os.Exit(3)
			}
			if end == "" {
				end = "crash"
			}
			what := "the process died in the middle of this case: " + firstLines(errText, 12)
			if end == "hang" {
				what = fmt.Sprintf("this case did not end within %v", lineTimeout)
			}
			hit = &found{index: cur, viol: &Violation{Prop: d.prop, Key: end, Op: -1, What: what}, race: b.race, session: append([]int(nil), order...)}
			done++
		}
		if hit == nil {
			break
		}
		if d.isKnown(hit.viol) {
			continue
		}
		d.mu.Lock()
		d.found = append(d.found, hit)
		if hit.index < d.bestAt {
			d.bestAt = hit.index
		}
		d.mu.Unlock()
		break
	}
	d.mu.Lock()
	d.runs += done
	if b.race {
		d.raceRuns += done
	}
	d.mu.Unlock()
	return hash, out
}

func firstLines(s string, n int) string {
	ls := strings.Split(strings.TrimSpace(s), "\n")
	if len(ls) > n {
		ls = ls[:n]
	}
	return strings.Join(ls, " | ")
}

func (d *driver) warn(format string, args ...any) {
	d.mu.Lock()
	defer d.mu.Unlock()
	d.warnings = append(d.warnings, fmt.Sprintf(format, args...))
}

// result of trying a replay in a fresh process.
type tried struct {
	viol   *Violation
	hash   string
	out    string
	kase   *Case
	stderr string
	notes  []string
	failed bool // the process could not do its work
}

func (d *driver) try(r *Replay) tried {
	t := d.tryOnce(r, r.Session)
	if r.Other != nil && t.viol == nil {
		o := d.tryOnce(r, r.Other)
		if o.viol != nil {
			return o
		}
		if t.out != o.out {
			t.viol = &Violation{Prop: d.prop, Key: "history", Op: -1, What: fmt.Sprintf("case %d answers differently (%s and %s) in two processes that run the cases %s and the cases %s", r.Session[len(r.Session)-1], t.out, o.out, shortList(r.Session), shortList(r.Other))}
		}
	}
	return t
}

func shortList(l []int) string {
	if len(l) <= 8 {
		return fmt.Sprint(l)
	}
	return fmt.Sprintf("%v ... %v (%d in all)", l[:3], l[len(l)-3:], len(l))
}

func (d *driver) tryOnce(r *Replay, session []int) tried {
	q := *r
	q.Session, q.Other, q.Trace = session, nil, nil
	if q.Case != nil {
		q.Session = nil
	}
	in, _ := json.Marshal(q)
	var t tried
	n := 0
	errText, end := process(d.bin(r.Race), []string{"try"}, in, tryTimeout, func(l line) bool {
		n++
		t.viol, t.hash, t.out, t.kase, t.notes = l.Viol, l.Hash, l.Out, l.Case, l.Notes
		return true
	})
	t.stderr = errText
	want := max(1, len(q.Session))
	if end == "crash" || end == "hang" {
		what := "the process died: " + firstLines(errText, 12)
		if end == "hang" {
			what = "the case did not end"
		}
		if n == want-1 || q.Case != nil {
			t.viol = &Violation{Prop: d.prop, Key: end, Op: -1, What: what}
		} else {
			t.failed = true
		}
	} else if n != want {
		t.failed = true
	}
	if q.Case == nil && n > 0 && n < want && t.viol != nil && end == "" {
		t.viol = nil
		t.failed = true
	}
	return t
}

func same(v *Violation, key string) bool { return v != nil && v.Key == key }

// minimise turns what was found into a replay that fails the same way in a
// fresh process; nil when it does not.
func (d *driver) minimise(f *found, budget time.Duration) *Replay {
	deadline := time.Now().Add(budget)
	base := Replay{Format: 1, Property: d.prop, Seed: d.seed, Index: f.index, Race: f.race, Violation: f.viol}
	ok := func(r *Replay) (tried, bool) {
		for k := 0; k < 2; k++ {
			t := d.try(r)
			if same(t.viol, f.viol.Key) {
				return t, true
			}
			if !f.race {
				break
			}
		}
		return tried{}, false
	}
	if f.kase != nil && f.other == nil {
		r := base
		r.Case = f.kase
		if t, good := ok(&r); good {
			r.Violation = t.viol
			d.shrink(&r, deadline)
			return &r
		}
	}
	// it takes the cases before it
	r := base
	r.Session, r.Other = f.session, f.other
	if r.Session == nil {
		return nil
	}
	t, good := ok(&r)
	if !good {
		return nil
	}
	r.Violation = t.viol
	for _, side := range []*[]int{&r.Session, &r.Other} {
		if *side == nil {
			continue
		}
		last := (*side)[len(*side)-1]
		pre := append([]int(nil), (*side)[:len(*side)-1]...)
		pre = ddmin(pre, deadline, func(l []int) bool {
			q := r
			if side == &r.Session {
				q.Session = append(append([]int(nil), l...), last)
			} else {
				q.Other = append(append([]int(nil), l...), last)
			}
			_, good := ok(&q)
			return good
		})
		*side = append(pre, last)
	}
	if t, good := ok(&r); good {
		r.Violation = t.viol
	}
	return &r
}

// ddmin removes as many elements as it can while test stays true; candidates
// of one round are tried in parallel.
func ddmin[T any](l []T, deadline time.Time, test func([]T) bool) []T {
	if len(l) == 0 {
		return l
	}
	if test(nil) {
		return nil
	}
	chunks := 2
	for len(l) > 0 && time.Now().Before(deadline) {
		if chunks > len(l) {
			chunks = len(l)
		}
		type res struct {
			k  int
			ok bool
		}
		without := func(k int) []T {
			a, b := k*len(l)/chunks, (k+1)*len(l)/chunks
			return append(append([]T(nil), l[:a]...), l[b:]...)
		}
		good := make([]bool, chunks)
		par := make(chan struct{}, runtime.NumCPU())
		var wg sync.WaitGroup
		for k := 0; k < chunks; k++ {
			wg.Add(1)
			go func(k int) {
				defer wg.Done()
				par <- struct{}{}
				defer func() { <-par }()
				if time.Now().Before(deadline) {
					good[k] = test(without(k))
				}
			}(k)
		}
		wg.Wait()
		// first try to remove all that can go alone at once
		var all []T
		n := 0
		for k := 0; k < chunks; k++ {
			if good[k] {
				n++
				continue
			}
			all = append(all, l[k*len(l)/chunks:(k+1)*len(l)/chunks]...)
		}
		switch {
		case n > 1 && test(all):
			l = all
			chunks = max(2, chunks-n)
		case n > 0:
			for k := 0; k < chunks; k++ {
				if good[k] {
					l = without(k)
					break
				}
			}
			chunks = max(2, chunks-1)
		case chunks >= len(l):
			return l
		default:
			chunks *= 2
		}
	}
	return l
}

type opRef struct{ ph, t, i int }

func (c *Case) keep(refs []opRef) *Case {
	o := *c
	o.Phases = make([][][]Op, len(c.Phases))
	for i := range c.Phases {
		o.Phases[i] = make([][]Op, len(c.Phases[i]))
	}
	for _, r := range refs {
		o.Phases[r.ph][r.t] = append(o.Phases[r.ph][r.t], c.Phases[r.ph][r.t][r.i])
	}
	return &o
}

// shrink makes the case of a replay as small as it can.
func (d *driver) shrink(r *Replay, deadline time.Time) {
	key := r.Violation.Key
	accept := func(c *Case) (*Case, bool) {
		q := *r
		q.Case = c
		t := d.try(&q)
		if !same(t.viol, key) {
			return nil, false
		}
		if t.kase != nil {
			return t.kase, true
		}
		return c, true
	}
	take := func(c *Case) bool {
		if _, ok := accept(c); ok {
			r.Case = c
			return true
		}
		return false
	}
	for round := 0; round < 3 && time.Now().Before(deadline); round++ {
		before := r.Case.countOps()
		// schedules without a single preemption
		c := *r.Case
		c.Sched = append([]Sched(nil), c.Sched...)
		for i := range c.Sched {
			c.Sched[i].Script = nil
		}
		serial := take(&c)
		var refs []opRef
		for ph := range r.Case.Phases {
			for t := range r.Case.Phases[ph] {
				for i := range r.Case.Phases[ph][t] {
					refs = append(refs, opRef{ph, t, i})
				}
			}
		}
		whole := r.Case
		refs = ddmin(refs, deadline, func(l []opRef) bool {
			_, ok := accept(whole.keep(l))
			return ok
		})
		take(whole.keep(refs))
		// faults
		for i, op := range r.Case.order() {
			if op.Fault == nil || !time.Now().Before(deadline) {
				continue
			}
			c := r.Case.clone()
			c.order()[i].Fault = nil
			take(c)
		}
		if !serial {
			for i := range r.Case.Sched {
				script := ddmin(r.Case.Sched[i].Script, deadline, func(l []simrt.Preempt) bool {
					c := *r.Case
					c.Sched = append([]Sched(nil), c.Sched...)
					c.Sched[i].Script = l
					_, ok := accept(&c)
					return ok
				})
				c := *r.Case
				c.Sched = append([]Sched(nil), c.Sched...)
				c.Sched[i].Script = script
				take(&c)
			}
		}
		// phases in which nothing happens
		e := *r.Case
		e.Phases, e.Sched = nil, nil
		for i := range r.Case.Phases {
			ops := 0
			for _, t := range r.Case.Phases[i] {
				ops += len(t)
			}
			if ops > 0 {
				e.Phases = append(e.Phases, r.Case.Phases[i])
				e.Sched = append(e.Sched, r.Case.Sched[i])
			}
		}
		take(&e)
		// other map orders, clocks
		c = *r.Case
		c.Sched = append([]Sched(nil), c.Sched...)
		for i := range c.Sched {
			c.Sched[i].MapOrder, c.Sched[i].MapSeed, c.Sched[i].ClockOff = 0, 0, 0
		}
		take(&c)
		if r.Case.countOps() == before {
			break
		}
	}
	if t := d.try(r); same(t.viol, key) {
		r.Violation = t.viol
		if t.kase != nil {
			// what really happened, decision by decision
			for i := range t.kase.Sched {
				if i < len(r.Case.Sched) && len(t.kase.Sched[i].Script) <= len(r.Case.Sched[i].Script)+40 {
					q := *r
					q.Case = t.kase
					if u := d.try(&q); same(u.viol, key) {
						r.Case = t.kase
					}
					break
				}
			}
		}
		if r.Race {
			r.Trace = append(r.Trace, strings.Split(t.stderr, "\n")...)
		}
		if t := d.try(r); same(t.viol, key) {
			r.Hash = t.hash
			if len(t.notes) > 0 {
				r.Trace = append(r.Trace, "what happened, in order:")
				r.Trace = append(r.Trace, t.notes...)
			}
		}
	}
}

func (c *Case) clone() *Case {
	b, _ := json.Marshal(c)
	o := &Case{}
	json.Unmarshal(b, o)
	return o
}

// narrate describes a case: its operations and its schedule.
func narrate(r *Replay) []string {
	var out []string
	if r.Case == nil {
		return append(out, fmt.Sprintf("cases %v run in this order in one process", r.Session))
	}
	c := r.Case
	w := newWorld(c.Pool)
	w.grow(c.nOps())
	for ph := range c.Phases {
		for t := range c.Phases[ph] {
			for i := range c.Phases[ph][t] {
				op := &c.Phases[ph][t][i]
				s := fmt.Sprintf("phase %d task %d operation %d: ", ph, t, op.ID)
				func() {
					defer func() {
						if recover() != nil {
							s += op.Fn
						}
					}()
					s += op.describe(w)
				}()
				for k := 0; k < outsPerOp; k++ {
					// what its results are called
					if k == 0 {
						s += fmt.Sprintf(" -> <%d>", w.slotOf(op.ID, k))
					}
				}
				out = append(out, s)
			}
		}
		if ph < len(c.Sched) {
			for _, p := range c.Sched[ph].Script {
				where := "at the end of the task or while waiting"
				if p.Site >= 0 && p.Site < len(simrt.Sites) {
					where = fmt.Sprintf("before %s:%d (%s)", simrt.Sites[p.Site].File, simrt.Sites[p.Site].Line, simrt.Sites[p.Site].Func)
				}
				if p.Task < 0 {
					out = append(out, fmt.Sprintf("phase %d schedule: task %d begins", ph, p.To))
					continue
				}
				out = append(out, fmt.Sprintf("phase %d schedule: in operation %d of task %d, step %d, %s: task %d goes on", ph, p.Op, p.Task, p.K, where, p.To))
			}
		}
	}
	return out
}

func drive(args []string) int {
	fs := flag.NewFlagSet("drive", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Uint64("seed", 1, "")
	verif := fs.String("verif", "/verif", "")
	race := fs.String("race", "", "")
	scale := fs.Float64("scale", 1, "")
	limit := fs.Float64("limit", 0, "")
	level := fs.String("build", "full", "how the code was instrumented")
	fs.Parse(args)
	pl, ok := plans[*prop]
	if !ok || properties[*prop] == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		return 3
	}
	self, err := os.Executable()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	d := &driver{prop: *prop, tier: *tier, seed: *seed, self: self, race: *race, verif: *verif, stats: newStats(), bestAt: 1 << 62, knownHit: map[string]int{}}
	d.known = readKnown(filepath.Join(*verif, "KNOWN_FINDINGS"))
	n := pl.quick
	max := 240.0
	if *tier == "thorough" {
		n = pl.thorough
		max = 1500
	}
	if *limit > 0 {
		max = *limit
	}
	n = int(float64(n) * *scale)
	fmt.Printf("%s %s seed=%d: %d runs\n", d.prop, d.tier, d.seed, n)
	start := time.Now()

	var batches []batch
	for k, from := 0, 0; from < n; k, from = k+1, from+pl.batch {
		b := batch{from: from, n: min(pl.batch, n-from)}
		b.race = d.race != "" && pl.race > 0 && k%pl.race == 1
		batches = append(batches, b)
	}
	jobs := make(chan int)
	var wg sync.WaitGroup
	selfTest := struct{ cases, differ int }{}
	history := 0
	for k := 0; k < runtime.NumCPU(); k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range jobs {
				b := batches[i]
				samples := 0
				if i == 0 {
					samples = 3
				}
				h, o := d.runBatch(b, samples)
				if i == 0 {
					// the same again, in another process
					h2, o2 := d.runBatch(b, 0)
					d.mu.Lock()
					for c, x := range h {
						if y, ok := h2[c]; ok {
							selfTest.cases++
							if x != y {
								selfTest.differ++
							}
						}
					}
					d.mu.Unlock()
					if d.prop == "C05" {
						d.compare(b, b, o, o2)
					}
				}
				if d.prop == "C05" {
					rb := b
					rb.reverse = true
					_, o2 := d.runBatch(rb, 0)
					d.mu.Lock()
					history += len(o2)
					d.mu.Unlock()
					d.compare(b, rb, o, o2)
				}
			}
		}()
	}
	planned := len(batches)
	for i := range batches {
		d.mu.Lock()
		stop := batches[i].from > d.bestAt
		d.mu.Unlock()
		if stop || time.Since(start).Seconds() > max {
			planned = i
			break
		}
		jobs <- i
	}
	close(jobs)
	wg.Wait()
	explored := time.Since(start).Seconds()
	if selfTest.differ > 0 {
		d.warn("%d of %d repeated cases took other steps the second time: something in the code is decided outside the simulator", selfTest.differ, selfTest.cases)
	}

	code := 0
	var reported *Replay
	sort.Slice(d.found, func(i, j int) bool { return d.found[i].index < d.found[j].index })
	tries := 0
	for _, f := range d.found {
		if tries++; tries > 6 || time.Since(start).Seconds() > max+240 {
			break
		}
		r := d.minimise(f, 60*time.Second)
		if r == nil {
			d.warn("case %d: %s (%s) could not be reproduced in a fresh process", f.index, f.viol.Key, f.viol.What)
			continue
		}
		if d.isKnown(r.Violation) {
			continue
		}
		reported = r
		break
	}
	var keys []string
	for k := range d.knownHit {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf("KNOWN-FINDING: %s (met %d times)\n", k, d.knownHit[k])
	}
	if reported != nil {
		reported.Trace = append(narrate(reported), reported.Trace...)
		dir := filepath.Join(d.verif, "evidence", "replays")
		os.MkdirAll(dir, 0o755)
		path := filepath.Join(dir, fmt.Sprintf("%s-seed%d-case%d.json", d.prop, d.seed, reported.Index))
		b, _ := json.MarshalIndent(reported, "", " ")
		if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 3
		}
		fmt.Printf("seed %d case %d: %s\n", d.seed, reported.Index, reported.Violation.What)
		for i, l := range reported.Trace {
			if i > 40 {
				fmt.Println("  ...")
				break
			}
			fmt.Println("  " + clipN(l, 400))
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", d.prop, path)
		code = 1
	}
	for _, w := range d.warnings {
		fmt.Println("WARNING:", w)
	}
	if err := d.evidence(explored, time.Since(start).Seconds(), selfTest.cases, selfTest.differ, history, planned, len(batches), n, *level, reported); err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
		return 3
	}
	if len(d.found) > 0 && reported == nil && code == 0 && len(d.warnings) > 0 {
		fmt.Fprintln(os.Stderr, "a failure was seen that could not be reproduced")
		return 3
	}
	if code == 0 {
		fmt.Printf("%s held on %d runs (%d distinct interleaved) in %.1f s\n", d.prop, d.runs, len(d.stats.sigs), time.Since(start).Seconds())
	}
	return code
}

func clipN(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// compare reports a case that answers differently in two processes.
func (d *driver) compare(a, b batch, x, y map[int]string) {
	for _, i := range a.indexes() {
		p, ok1 := x[i]
		q, ok2 := y[i]
		if !ok1 || !ok2 || p == q {
			continue
		}
		upTo := func(b batch) []int {
			var out []int
			for _, k := range b.indexes() {
				out = append(out, k)
				if k == i {
					break
				}
			}
			return out
		}
		d.mu.Lock()
		d.found = append(d.found, &found{index: i, viol: &Violation{Prop: d.prop, Key: "history", Op: -1, What: "answers differ between two processes"}, session: upTo(a), other: upTo(b)})
		if i < d.bestAt {
			d.bestAt = i
		}
		d.mu.Unlock()
		return
	}
}

func replay(args []string) int {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	race := fs.String("race", "", "")
	fs.Parse(args)
	if fs.NArg() != 1 {
		fmt.Fprintln(os.Stderr, "usage: replay FILE")
		return 3
	}
	b, err := os.ReadFile(fs.Arg(0))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	self, _ := os.Executable()
	d := &driver{prop: r.Property, seed: r.Seed, self: self, race: *race, stats: newStats()}
	for k := 0; k < 3; k++ {
		t := d.try(&r)
		if t.failed {
			fmt.Fprintln(os.Stderr, t.stderr)
			return 3
		}
		if t.viol != nil {
			fmt.Println(t.viol.What)
			if r.Race {
				fmt.Println(clipN(t.stderr, 4000))
			}
			if r.Hash != "" {
				fmt.Printf("execution %s, recorded %s: the same is %v\n", t.hash, r.Hash, t.hash == r.Hash)
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, fs.Arg(0))
			return 1
		}
		if !r.Race {
			break
		}
	}
	fmt.Println("the failure does not show")
	return 0
}
