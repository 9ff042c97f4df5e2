package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verifsim/gen"
	"verifsim/plan"
)

// Budgets of a check: plans to run, and the real time after which no new
// plan is begun.
type budget struct {
	plans  int
	secs   time.Duration
	minify time.Duration
	det    int
}

func budgetOf(tier string) budget {
	b := budget{100000, 45 * time.Second, 60 * time.Second, 8}
	if tier == "thorough" {
		b = budget{100000000, 600 * time.Second, 120 * time.Second, 64}
	}
	if s := os.Getenv("VERIF_SECS"); s != "" {
		var k int
		if fmt.Sscan(s, &k); k > 0 {
			b.secs = time.Duration(k) * time.Second
		}
	}
	return b
}

// known is a finding that is recorded rather than repaired: a fixed plan and
// the violation it shows.
type known struct {
	prop, class, file, text string
}

// knownFindings reads known-findings.txt:
//
//	known: property=<id> class=<class> plan=<file> <what fails>
//	fixed: property=<id> <commit> <what failed>
func knownFindings(root, prop string) []known {
	b, err := os.ReadFile(filepath.Join(root, "known-findings.txt"))
	if err != nil {
		fatal("%v", err)
	}
	var r []known
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(l, "known: "), " ", 4)
		if len(f) < 4 {
			fatal("known-findings.txt: %q", l)
		}
		k := known{strings.TrimPrefix(f[0], "property="), strings.TrimPrefix(f[1], "class="), strings.TrimPrefix(f[2], "plan="), f[3]}
		if k.prop == prop {
			r = append(r, k)
		}
	}
	return r
}

func readPlan(f string) *plan.Plan {
	b, err := os.ReadFile(f)
	if err != nil {
		fatal("%v", err)
	}
	var p plan.Plan
	if err := json.Unmarshal(b, &p); err != nil {
		fatal("%s: %v", f, err)
	}
	if p.Prop == "" { // a replay file
		var r Replay
		if json.Unmarshal(b, &r) == nil && r.Plan != nil {
			return r.Plan
		}
	}
	return &p
}

// stats of a batch of executions.
type stats struct {
	runs, viol               int
	sim                      int64
	steps, picks, preempts   uint64
	counts, faults, profiles map[string]int64
	faulty                   int
	sched, hist, nontriv     map[string]bool
	errs                     []string
	samples                  []interface{}
	det, detBad              int
}

func newStats() *stats {
	return &stats{counts: map[string]int64{}, faults: map[string]int64{}, profiles: map[string]int64{},
		sched: map[string]bool{}, hist: map[string]bool{}, nontriv: map[string]bool{}}
}

func (s *stats) add(p *plan.Plan, o *Outcome) {
	s.runs++
	s.profiles[p.Profile]++
	s.sim += o.R.SimNS
	s.steps += o.R.Steps
	s.picks += o.R.Picks
	s.preempts += o.R.Preempts
	for k, v := range o.R.Counts {
		s.counts[k] += v
	}
	for k, v := range o.R.Faults {
		s.faults[k] += v
	}
	if len(o.R.Faults) > 0 {
		s.faulty++
	}
	s.sched[o.R.Hash] = true
	s.hist[o.R.LogHash] = true
	// Non-trivial: clients or loops did something and an oracle looked at it.
	rpc := int64(0)
	for k, v := range o.R.Counts {
		if strings.HasPrefix(k, "rpc.") {
			rpc += v
		}
	}
	if rpc >= 2 {
		s.nontriv[o.R.Hash+o.R.LogHash] = true
	}
	if o.Class != "" {
		s.viol++
	}
}

func corpus(root, prop string) []string {
	r, _ := filepath.Glob(filepath.Join(root, "corpus", prop, "*.json"))
	sort.Strings(r)
	return r
}

const limit = 60 * time.Second

// run executes a plan, once more and alone if the first attempt gave no
// answer in time.
func runPlan(worker string, p *plan.Plan, solo *sync.RWMutex) *Outcome {
	solo.RLock()
	o := execPlan(worker, p, false, limit)
	solo.RUnlock()
	if o.Err != "" {
		solo.Lock()
		o = execPlan(worker, p, false, 2*limit)
		solo.Unlock()
	}
	return o
}

func check(prop, tier string, seed uint64, worker, root string, par int) {
	if gen.Props[prop] == nil {
		fatal("unknown property %q", prop)
	}
	t0 := time.Now()
	b := budgetOf(tier)
	st := newStats()
	var solo sync.RWMutex
	os.MkdirAll(filepath.Join(root, "evidence", "replays"), 0o755)

	var found *plan.Plan
	var fout *Outcome
	fnum := -1

	// Recorded findings.
	for _, k := range knownFindings(root, prop) {
		p := readPlan(filepath.Join(root, k.file))
		o := runPlan(worker, p, &solo)
		switch {
		case o.Err != "":
			st.errs = append(st.errs, k.file+": "+o.Err)
		case o.Class == k.class:
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.text)
		case o.Class != "":
			found, fout = p, o
		default:
			fmt.Printf("note: recorded finding no longer occurs: %s\n", k.text)
		}
	}

	// Fixed plans that once failed.
	cs := corpus(root, prop)
	var mu sync.Mutex
	each(len(cs), par, func(i int) {
		p := readPlan(cs[i])
		o := runPlan(worker, p, &solo)
		mu.Lock()
		defer mu.Unlock()
		if o.Err != "" {
			st.errs = append(st.errs, cs[i]+": "+o.Err)
			return
		}
		p.Profile = "corpus"
		st.add(p, o)
		if o.Class != "" && found == nil {
			found, fout = p, o
		}
	})

	// Seeded search.
	ts := time.Now()
	var next int64 = -1
	var stop int32
	if found != nil {
		stop = 1
	}
	each(par, par, func(int) {
		for {
			i := int(atomic.AddInt64(&next, 1))
			if i >= b.plans || atomic.LoadInt32(&stop) != 0 || time.Since(ts) > b.secs {
				return
			}
			p := gen.Make(prop, seed, i)
			o := runPlan(worker, p, &solo)
			mu.Lock()
			if o.Err != "" {
				st.errs = append(st.errs, fmt.Sprintf("plan %d: %s", i, o.Err))
				if len(st.errs) > 20 {
					atomic.StoreInt32(&stop, 1)
				}
			} else {
				st.add(p, o)
				if o.Class != "" {
					atomic.StoreInt32(&stop, 1)
					if found == nil || fnum >= 0 && i < fnum {
						found, fout, fnum = p, o, i
					}
				}
				if len(st.samples) < 6 && o.Class == "" && i < 64 && i%9 == 0 {
					st.samples = append(st.samples, sample(p, o, i))
				}
			}
			mu.Unlock()
		}
	})
	search := time.Since(ts)
	last := int(next) + 1

	// Is one seed one execution?
	if found == nil {
		each(b.det, par, func(k int) {
			p := gen.Make(prop, seed, k*7)
			x, y := execPlan(worker, p, false, limit), execPlan(worker, p, false, limit)
			mu.Lock()
			st.det++
			if x.Err == "" && y.Err == "" && sig(x) != sig(y) {
				st.detBad++
			}
			mu.Unlock()
		})
	}

	viol := 0
	if found != nil {
		if again := runPlan(worker, found, &solo); again.Class != fout.Class {
			st.errs = append(st.errs, fmt.Sprintf("plan %d: violation %s (%s) did not repeat: %s %s %s", fnum, fout.Class, fout.Msg, again.Err, again.Class, again.Msg))
			found = nil
		} else {
			viol = 1
		}
	}
	ev := evidence(prop, tier, seed, st, search, viol)
	file := ""
	if found != nil {
		file = report(prop, seed, fnum, worker, root, found, fout, b, ev)
	}
	ev["wall_s"] = time.Since(t0).Seconds()
	writeJSON(filepath.Join(root, "evidence", prop+".json"), ev)
	fmt.Printf("%s %s seed %d: %d executions (%d plans begun), %d distinct, %.0f s simulated, %d faulty, %d violations, %d harness errors, %.1f s\n",
		prop, tier, seed, st.runs, last, len(st.nontriv), float64(st.sim)/1e9, st.faulty, st.viol, len(st.errs), time.Since(t0).Seconds())
	if found != nil {
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, file)
		os.Exit(1)
	}
	if len(st.errs) > 0 {
		for i, e := range st.errs {
			if i < 5 {
				fmt.Println("ERROR:", first(e, 1500))
			}
		}
		os.Exit(2)
	}
	if st.runs == 0 {
		fatal("nothing was executed")
	}
}

func writeJSON(f string, v interface{}) {
	b, err := json.MarshalIndent(v, "", " ")
	if err == nil {
		err = os.WriteFile(f, append(b, '\n'), 0o644)
	}
	if err != nil {
		fatal("%v", err)
	}
}

// report minimises a violation and writes its replay file.
func report(prop string, seed uint64, num int, worker, root string, p *plan.Plan, o *Outcome, b budget, ev map[string]interface{}) string {
	fmt.Printf("violation %s in plan %d (%s): %s\n", o.Class, num, p.Profile, o.Msg)
	q, qo, tries := minimise(worker, p, o, b.minify)
	v := execPlan(worker, q, true, limit)
	if v.Err != "" || v.Class != o.Class {
		q = p
		v = execPlan(worker, q, true, limit)
	}
	_ = qo
	r := Replay{Property: prop, Class: v.Class, Msg: v.Msg, Seed: seed, Number: num,
		How:  "run /verif/replay.sh on this file; it rebuilds from /repo and executes the plan below under the recorded schedule",
		Race: strings.HasSuffix(worker, "-race"), Plan: q, Hash: v.R.Hash, LogHash: v.R.LogHash, Trace: v.R.Log}
	f := filepath.Join(root, "evidence", "replays", fmt.Sprintf("%s-%d-%d.json", prop, seed, num))
	writeJSON(f, r)
	ops, devs := 0, len(q.Sched.Devs)
	for _, c := range q.Clients {
		ops += len(c.Ops)
	}
	fmt.Printf("minimised in %d executions to %d operations, %d faults, schedule mode %d with %d deviations: %s\n", tries, ops, len(q.Faults), q.Sched.Mode, devs, v.Msg)
	cov := ev["coverage"].(map[string]interface{})
	cov["violation"] = map[string]interface{}{"class": v.Class, "message": v.Msg, "plan": num, "replay": f, "minimiser_executions": tries}
	return f
}

func sample(p *plan.Plan, o *Outcome, i int) interface{} {
	var ops []string
	for c := range p.Clients {
		for _, op := range p.Clients[c].Ops {
			if len(ops) < 12 && op.K != "bar" {
				ops = append(ops, fmt.Sprintf("client %d: %s node %d ns %q", c, op.K, op.Node, op.NS))
			}
		}
	}
	var fs []string
	for _, f := range p.Faults {
		fs = append(fs, strings.TrimSpace(f.K+" "+f.Method))
	}
	return map[string]interface{}{"plan": i, "profile": p.Profile, "plan_seed": fmt.Sprint(p.Seed), "nodes": len(p.Nodes), "operations": ops, "faults_planned": fs,
		"faults_fired": o.R.Faults, "steps": o.R.Steps, "simulated_s": float64(o.R.SimNS) / 1e9, "schedule_hash": o.R.Hash, "history_hash": o.R.LogHash}
}

func evidence(prop, tier string, seed uint64, st *stats, search time.Duration, viol int) map[string]interface{} {
	rpcs, notes := map[string]int64{}, map[string]int64{}
	for k, v := range st.counts {
		if strings.HasPrefix(k, "rpc.") {
			rpcs[k[4:]] = v
		} else {
			notes[k] = v
		}
	}
	hour := 0.0
	if s := search.Seconds(); s > 0 {
		hour = float64(st.runs) * 3600 / s
	}
	cov := map[string]interface{}{
		"evaluations":         st.runs,
		"distinct_nontrivial": len(st.nontriv),
		"rule": "an evaluation is one complete simulated execution of a plan (configuration, client operations, faults, schedule) derived from the seed and its number; " +
			"it is non-trivial if at least two requests reached nodes, and two are distinct if the hash of their scheduling decisions or of their recorded history differs",
		"samples":                 st.samples,
		"runs_per_hour":           int64(hour),
		"seeds_per_hour":          int64(hour),
		"simulated_seconds":       float64(st.sim) / 1e9,
		"scheduler_steps":         st.steps,
		"scheduling_decisions":    st.picks,
		"forced_preemptions":      st.preempts,
		"distinct_schedules":      len(st.sched),
		"distinct_histories":      len(st.hist),
		"executions_with_faults":  st.faulty,
		"faults_injected":         st.faults,
		"requests_served":         rpcs,
		"oracle_evaluations":      notes,
		"profiles":                st.profiles,
		"harness_errors":          len(st.errs),
		"determinism_plans_rerun": st.det,
		"determinism_mismatches":  st.detBad,
		"real_components":         []string{"all packages of the repository (instrumented at build time with yield points only)", "Go runtime, net/rpc, net/http, encoding/gob, encoding/json, sync, time (under the simulator's scheduler and clock)"},
		"simulated_components":    []string{"goroutine scheduling", "time (monotonic and per-node wall clocks)", "randomness", "TCP (dial, listen, accept, byte streams)", "process crash and restart"},
	}
	if len(st.samples) == 0 {
		cov["samples"] = []interface{}{"none"}
	}
	return map[string]interface{}{
		"property": prop, "tier": tier, "seed": int64(seed), "level": "exploration", "coverage": cov,
		"assumptions": []string{
			"TCP delivers the bytes of one connection in order or breaks the connection",
			"schedules are explored at the granularity of the repository's statements and of the standard library's blocking operations, sequentially consistent (C21 adds the race detector)",
			"vectors are finite and of moderate size and dimension",
		},
		"violations": viol, "wall_s": 0.0,
	}
}
