package main

import (
	"encoding/json"
	"fmt"
	"math/bits"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"SIMMODULE/verifsim/simrt"
)

var rules = map[string]string{
	"C01": "every run draws a pool of values and 1-3 phases of 2-4 tasks from the seed; every value anybody holds is digested when obtained and again after every operation and at preemptions",
	"C02": "every run draws a program of 1-3 phases of 2-4 tasks over shared values; each call's answer is compared with the same call alone on private copies; every second batch runs under the race detector with the simulator adding no happens-before edges",
	"C03": "every run creates and registers variables from 2-4 tasks in library and caller-implemented environments, with faults in the latter's callbacks",
	"C04": "every run records the history of creations, registrations and listings of 2-4 tasks and decides linearizability against the final list",
	"C05": "every run repeats each call with other map orders, clocks, random sources, histories and interleavings, and every batch is run again in another process in reverse order",
	"C06": "every run substitutes in values and constraints from 2-4 tasks with maps walked in sorted, reverse or shuffled order, and compares with exact simultaneous substitution",
	"C07": "every run mixes rejected and interrupted calls into a program and compares with the same program without them, alone and concurrently",
	"C08": "every run has 2-4 tasks post contributions that whoever is scheduled combines two at a time; the result is compared with the exact total",
	"C09": "every run lets receivers overwrite, reorder and extend what they were handed and digests everything else, and compares later answers with a run without these edits",
	"C10": "every run compares each result of a concurrent program with an exact rational model of what its operands were when obtained",
	"C11": "every run is a concurrent program of operations and structural questions; each answer is compared with the reference model of the value asked, as written and as simplified",
	"C12": "every run is a concurrent program of operations and coefficient questions; each answer is compared with the reference model of the value asked",
	"C13": "every run is a concurrent program that makes, scales, simplifies and compares constraints; each reported implication is attacked by a search for a refuting assignment",
	"C14": "every run is a concurrent program that makes and transforms constraints; the conditions each result states are compared with those the model derives",
	"C15": "every run mixes misfit operands into a concurrent program; each call whose operands cannot be combined must be refused",
	"C16": "every run is a concurrent program of operations and texts; each text is parsed and compared with the reference model of the value",
	"C17": "every run puts malformed values among the values of a concurrent program; each call with a malformed operand must be refused",
}

type any2 = map[string]any

func (d *driver) evidence(explored, wall float64, stCases, stDiffer, history, done, planned, target int, build string, viol *Replay) error {
	s := d.stats
	reached, total := 0, len(simrt.Sites)
	unreached := map[string]bool{}
	seenFn := map[string]bool{}
	for i, site := range simrt.Sites {
		if s.sites[i/64]&(1<<(i%64)) != 0 {
			reached++
			seenFn[site.File+":"+site.Func] = true
		}
	}
	for _, site := range simrt.Sites {
		if k := site.File + ":" + site.Func; !seenFn[k] {
			unreached[k] = true
		}
	}
	_ = bits.Len
	perOp := map[string]int64{}
	for k, v := range s.OpNames {
		perOp[k] += v
	}
	type kv struct {
		k string
		v int64
	}
	var top []kv
	for k, v := range perOp {
		top = append(top, kv{k, v})
	}
	sort.Slice(top, func(i, j int) bool { return top[i].v > top[j].v || top[i].v == top[j].v && top[i].k < top[j].k })
	topM := map[string]int64{}
	for i, x := range top {
		if i < 25 {
			topM[x.k] = x.v
		}
	}
	var never []string
	for k := range unreached {
		never = append(never, k)
	}
	sort.Strings(never)
	if len(never) > 40 {
		never = append(never[:40], fmt.Sprintf("and %d more", len(never)-40))
	}
	faults := any2{}
	for k, v := range s.Faults {
		faults[k+" in a caller-supplied part"] = v
	}
	faults["rejected calls (panics of the library)"] = s.Kinds["panic"]
	faults["tasks that lost their goroutine and restarted"] = s.Exits
	faults["preemptions inside an operation"] = s.MidOp
	faults["map iterations in another order than sorted"] = s.MapDraws
	faults["clock readings"] = s.ClockR
	faults["random numbers drawn"] = s.RandR
	hours := explored / 3600
	if hours == 0 {
		hours = 1e-9
	}
	cov := any2{
		"evaluations":              d.runs,
		"distinct_nontrivial":      len(s.sigs),
		"rule":                     rules[d.prop] + ". Distinct and non-trivial: executions in which a task was preempted in the middle of an operation, counted by program and exact sequence of (task, operation, step, successor).",
		"samples":                  d.samples,
		"runs_planned":             target,
		"batches":                  fmt.Sprintf("%d of %d", done, planned),
		"processes":                d.procs,
		"runs_under_race_detector": d.raceRuns,
		"simulations":              s.Sims,
		"runs_per_hour":            int64(float64(d.runs) / hours),
		"seeds_per_hour":           int64(float64(d.runs) / hours),
		"simulated_seconds":        float64(s.SimTime) / 1e9,
		"steps":                    s.Steps,
		"longest_simulation_steps": s.MaxSteps,
		"step_caps_hit":            s.CapHits,
		"task_switches":            s.Switches,
		"operations":               s.Ops,
		"operation_outcomes":       s.Kinds,
		"most_frequent_operations": topM,
		"oracle_checks":            s.Checks,
		"faults":                   faults,
		"schedulers":               s.Strats,
		"observations":             s.Extra,
		"code_sites_reached":       fmt.Sprintf("%d of %d", reached, total),
		"functions_never_entered":  never,
		"determinism":              fmt.Sprintf("%d cases were run a second time in another process: %d took another execution", stCases, stDiffer),
		"instrumentation":          build,
		"seams":                    simrt.Seams,
		"components":               any2{"real": "all of symbolic and smErrors, rewritten with a scheduling point before every statement; gonum", "simulated": "goroutines, sync, map order, time, math/rand, channels (by source rewriting)", "stub": "caller-implemented environment and scalar expression (fault injectors)"},
	}
	if d.prop == "C05" {
		cov["cases_repeated_in_another_process_in_reverse_order"] = history
	}
	if len(d.warnings) > 0 {
		cov["warnings"] = d.warnings
	}
	if d.samples == nil {
		cov["samples"] = []string{"(no case ran)"}
	}
	e := any2{
		"property": d.prop, "tier": d.tier, "seed": d.seed, "level": "exploration",
		"coverage": cov, "wall_s": wall,
		"assumptions": []string{
			"scheduling points stand before statements, so interleavings inside one statement are explored only by the race detector (C02)",
			"gonum is taken as it is, one step per call",
			"numbers are small dyadic rationals, so that floating point is exact",
		},
	}
	nv := 0
	if viol != nil {
		nv = 1
		e["violation"] = viol.Violation
	}
	e["violations"] = nv
	b, err := json.MarshalIndent(e, "", " ")
	if err != nil {
		return err
	}
	dir := filepath.Join(d.verif, "evidence")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(dir, d.prop+".json"), append(b, '\n'), 0o644)
}

var _ = strings.Join
