package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"time"

	"SIMMODULE/verifsim/simrt"
)

// caseSeed gives the seed of the i-th case of a session.
func caseSeed(seed uint64, prop string, i int) uint64 {
	return simrt.Mix(seed, hashBytes([]byte(prop)), uint64(i))
}

// line is what a worker reports, one JSON object per line.
type line struct {
	I      int               `json:"i"`
	Out    string            `json:"out,omitempty"`
	Begin  bool              `json:"begin,omitempty"`
	Hash   string            `json:"hash,omitempty"`
	Viol   *Violation        `json:"violation,omitempty"`
	Case   *Case             `json:"case,omitempty"`
	Stats  *Stats            `json:"stats,omitempty"`
	Combos map[string][2]int `json:"combos,omitempty"`
	Why    map[string]string `json:"why,omitempty"`
	Sample string            `json:"sample,omitempty"`
	Notes  []string          `json:"notes,omitempty"`
}

var out = bufio.NewWriter(os.Stdout)

func emit(l line) {
	b, err := json.Marshal(l)
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness: cannot report:", err)
		os.Exit(3)
	}
	out.Write(b)
	out.WriteByte('\n')
	out.Flush()
}

// scripted returns the case with its schedules replaced by what was recorded.
func scripted(c *Case, traces [][]simrt.Preempt) *Case {
	o := *c
	o.Sched = append([]Sched(nil), c.Sched...)
	for i := range o.Sched {
		s := Sched{Strategy: int(simrt.Script), MapOrder: c.Sched[i].MapOrder, MapSeed: c.Sched[i].MapSeed, ClockOff: c.Sched[i].ClockOff, RandSeed: c.Sched[i].RandSeed}
		if i < len(traces) {
			s.Script = traces[i]
		} else {
			s = c.Sched[i]
		}
		o.Sched[i] = s
	}
	return &o
}

func runCase(p *Property, c *Case) Result {
	// some executions are the first use of the library in their process
	if c.Seed%4 == 1 && simrt.Reset() {
		stats.Extra["first uses of the library"]++
	}
	res := p.run(c)
	if v := res.viol; v != nil && v.Key == "no-progress" {
		stepCap = 20 * usualCap
		res = p.run(c)
		stepCap = usualCap
	}
	stats.Runs++
	for k, n := range faultFired {
		stats.Faults[k] += int64(n)
		delete(faultFired, k)
	}
	return res
}

func (s *Stats) export() *Stats {
	s.Sigs = nil
	for x := range s.sigs {
		s.Sigs = append(s.Sigs, x)
	}
	s.Sites = s.sites
	s.RaceBuild = simrt.RaceBuild
	return s
}

func worker(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	from := fs.Int("from", 0, "")
	n := fs.Int("n", 100, "")
	reverse := fs.Bool("reverse", false, "")
	seconds := fs.Float64("seconds", 1e9, "")
	collect := fs.Bool("combos", false, "")
	keep := fs.Bool("keep-going", false, "")
	samples := fs.Int("samples", 0, "")
	fs.Parse(args)
	p := properties[*prop]
	if p == nil {
		fmt.Fprintln(os.Stderr, "harness: unknown property", *prop)
		os.Exit(3)
	}
	if *collect {
		combos = map[string][2]int{}
	}
	start := time.Now()
	for k := 0; k < *n; k++ {
		if time.Since(start).Seconds() > *seconds {
			break
		}
		i := *from + k
		if *reverse {
			i = *from + *n - 1 - k
		}
		emit(line{I: i, Begin: true})
		c := p.gen(caseSeed(*seed, *prop, i))
		res := runCase(p, c)
		l := line{I: i, Hash: fmt.Sprintf("%016x", res.hash)}
		if res.out != 0 {
			l.Out = fmt.Sprintf("%016x", res.out)
		}
		if k < *samples {
			l.Sample = describeCase(c)
		}
		if res.viol != nil {
			l.Viol = res.viol
			l.Case = scripted(c, res.traces)
			emit(l)
			if !*keep {
				break
			}
			continue
		}
		emit(l)
	}
	emit(line{I: -1, Stats: stats.export(), Combos: combos, Why: comboWhy})
}

func describeCase(c *Case) string {
	w := newWorld(c.Pool)
	w.grow(c.nOps())
	var sb strings.Builder
	for pi, ph := range c.Phases {
		fmt.Fprintf(&sb, "phase %d (%s): ", pi, simrt.StrategyNames[c.Sched[pi].Strategy])
		for ti, t := range ph {
			fmt.Fprintf(&sb, "task %d: ", ti)
			for _, op := range t {
				r := ""
				if op.Recv >= 0 {
					r = fmt.Sprintf("<%d>.", op.Recv)
				}
				s := r + op.Fn + "("
				for k, a := range op.Args {
					if k > 0 {
						s += ","
					}
					if a.K == "slot" || a.K == "faulty" || a.K == "ptr" {
						s += fmt.Sprintf("<%d>", a.S)
					} else {
						s += a.K
					}
				}
				s += ")"
				if op.Fault != nil {
					s += "!" + op.Fault.Kind
				}
				sb.WriteString(s + "; ")
			}
		}
	}
	s := sb.String()
	if len(s) > 900 {
		s = s[:900] + "..."
	}
	return s
}

// Replay is a replay file.
type Replay struct {
	Format    int        `json:"format"`
	Property  string     `json:"property"`
	Seed      uint64     `json:"seed"`
	Index     int        `json:"index"`
	Race      bool       `json:"race,omitempty"`
	Violation *Violation `json:"violation"`
	// Session: cases (by number) generated and run in this order; the
	// violation shows in the last one, or in the comparison with Other.
	Session []int             `json:"session,omitempty"`
	Other   []int             `json:"other,omitempty"`
	Case    *Case             `json:"case,omitempty"`
	Hash    string            `json:"execution,omitempty"` // of the whole execution
	Trace   []string          `json:"trace,omitempty"`
	Sources map[string]string `json:"sources,omitempty"`
}

// notes say what each operation was given and answered (when taking).
var (
	taking bool
	notes  []string
	execs  int
)

func note(x *Exec, format string, args ...any) {
	if !taking || len(notes) > 400 {
		return
	}
	if x.num == 0 {
		execs++
		x.num = execs
	}
	simrt.Quiet(func() {
		notes = append(notes, fmt.Sprintf("execution %d, task %d: ", x.num, x.taskNo)+fmt.Sprintf(format, args...))
	})
}

// try executes a case given on standard input.
func try() {
	var r Replay
	if err := json.NewDecoder(bufio.NewReader(os.Stdin)).Decode(&r); err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(3)
	}
	p := properties[r.Property]
	if p == nil {
		fmt.Fprintln(os.Stderr, "harness: unknown property", r.Property)
		os.Exit(3)
	}
	if r.Case != nil {
		taking = !simrt.RaceBuild
		res := runCase(p, r.Case)
		l := line{I: r.Index, Hash: fmt.Sprintf("%016x", res.hash), Viol: res.viol}
		l.Case = scripted(r.Case, res.traces)
		l.Notes = notes
		emit(l)
		return
	}
	for _, i := range r.Session {
		c := p.gen(caseSeed(r.Seed, r.Property, i))
		res := runCase(p, c)
		l := line{I: i, Hash: fmt.Sprintf("%016x", res.hash), Viol: res.viol}
		if res.viol != nil {
			l.Case = scripted(c, res.traces)
		}
		emit(l)
	}
}

func main() {
	runtime.GOMAXPROCS(2)
	debug.SetGCPercent(400)
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: harness worker|try|drive|replay ...")
		os.Exit(3)
	}
	switch os.Args[1] {
	case "worker":
		worker(os.Args[2:])
	case "try":
		try()
	case "drive":
		os.Exit(drive(os.Args[2:]))
	case "replay":
		os.Exit(replay(os.Args[2:]))
	default:
		fmt.Fprintln(os.Stderr, "harness: unknown command", strconv.Quote(os.Args[1]))
		os.Exit(3)
	}
}
