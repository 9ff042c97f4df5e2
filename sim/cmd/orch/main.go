// orch runs batches of simulated executions, classifies, minimises and
// reports.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"verifsim/gen"
	"verifsim/plan"
)

func fatal(f string, a ...interface{}) {
	fmt.Printf("ERROR: "+f+"\n", a...)
	os.Exit(2)
}

func main() {
	if len(os.Args) < 2 {
		fatal("usage: orch plan|sweep|check|replay|det ...")
	}
	fs := flag.NewFlagSet("orch", flag.ExitOnError)
	prop := fs.String("prop", "", "property")
	seed := fs.Uint64("seed", 1, "seed")
	i := fs.Int("i", 0, "plan number")
	n := fs.Int("n", 100, "number of plans")
	worker := fs.String("worker", "", "worker binary")
	tier := fs.String("tier", "quick", "quick or thorough")
	root := fs.String("root", "/verif", "")
	par := fs.Int("par", 8, "workers")
	file := fs.String("file", "", "replay file")
	verbose := fs.Bool("v", false, "")
	only := fs.String("only", "", "only this profile")
	lim := fs.Float64("secs", 0, "time limit per property")
	fs.Parse(os.Args[2:])
	switch os.Args[1] {
	case "plan":
		b, _ := json.MarshalIndent(gen.Make(*prop, *seed, *i), "", " ")
		fmt.Println(string(b))
	case "sweep":
		sweep(*prop, *seed, *n, *worker, *par, *only, *verbose)
	case "kill":
		kill(*prop, *seed, *n, *worker, *par, *lim)
	case "min":
		p := gen.Make(*prop, *seed, *i)
		o := execPlan(*worker, p, false, time.Minute)
		q, o2, k := minimise(*worker, p, o, time.Minute)
		b, _ := json.MarshalIndent(q, "", " ")
		fmt.Println(string(b))
		fmt.Println(o2.Err, o2.Class, o2.Msg, k)
	case "show":
		p := gen.Make(*prop, *seed, *i)
		if *file != "" {
			p = readReplay(*file).Plan
		}
		o := execPlan(*worker, p, true, time.Minute)
		fmt.Println(o.Err, o.Class, o.Msg, o.R.Steps, o.R.Hash, o.R.LogHash)
		for _, l := range o.R.Log {
			fmt.Println(l)
		}
		fmt.Println(o.R.Counts, o.R.Faults)
		if *verbose {
			fmt.Println(o.Stderr)
		}
	case "det":
		det(*prop, *seed, *n, *worker, *par)
	case "check":
		check(*prop, *tier, *seed, *worker, *root, *par)
	case "replay":
		replay(*file, *worker)
	default:
		fatal("unknown command %s", os.Args[1])
	}
}

func each(n, par int, f func(i int)) {
	var wg sync.WaitGroup
	ch := make(chan int)
	for k := 0; k < par; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				f(i)
			}
		}()
	}
	for i := 0; i < n; i++ {
		ch <- i
	}
	close(ch)
	wg.Wait()
}

func sweep(prop string, seed uint64, n int, worker string, par int, only string, verbose bool) {
	type key struct{ prof, class string }
	props := strings.Split(prop, ",")
	if prop == "all" {
		props = nil
		for p := range gen.Props {
			props = append(props, p)
		}
		sort.Strings(props)
	}
	for _, prop := range props {
		var mu sync.Mutex
		cnt := map[key]int{}
		ex := map[key]string{}
		tot := map[string]int{}
		notes := map[string]int64{}
		faults := map[string]int64{}
		var sim, steps int64
		var maxd time.Duration
		maxi := 0
		t0 := time.Now()
		each(n, par, func(i int) {
			p := gen.Make(prop, seed, i)
			if only != "" && p.Profile != only {
				return
			}
			t := time.Now()
			o := execPlan(worker, p, false, 60*time.Second)
			d := time.Since(t)
			mu.Lock()
			defer mu.Unlock()
			if d > maxd {
				maxd, maxi = d, i
			}
			tot[p.Profile]++
			sim += o.R.SimNS
			steps += int64(o.R.Steps)
			for k, v := range o.R.Counts {
				notes[k] += v
			}
			for k, v := range o.R.Faults {
				faults[k] += v
			}
			c := o.Class
			if o.Err != "" {
				c = "ERROR"
				o.Msg = o.Err
			}
			if c != "" {
				k := key{p.Profile, c}
				cnt[k]++
				if _, ok := ex[k]; !ok {
					ex[k] = fmt.Sprintf("i=%d %s", i, first(o.Msg, 400))
				}
			}
		})
		fmt.Printf("== %s: %v in %.1fs (max %.1fs at %d), sim %.0fs steps %d\n", prop, tot, time.Since(t0).Seconds(), maxd.Seconds(), maxi, float64(sim)/1e9, steps)
		if verbose {
			fmt.Println("  notes", notes)
			fmt.Println("  faults", faults)
		}
		var ks []key
		for k := range cnt {
			ks = append(ks, k)
		}
		sort.Slice(ks, func(a, b int) bool { return cnt[ks[a]] > cnt[ks[b]] })
		for _, k := range ks {
			fmt.Printf("  %-16s %-20s %d: %s\n", k.prof, k.class, cnt[k], ex[k])
		}
	}
}

// kill stops at the first violation of any of the properties.
func kill(prop string, seed uint64, n int, worker string, par int, lim float64) {
	for _, prop := range strings.Split(prop, ",") {
		var mu sync.Mutex
		got := ""
		t0 := time.Now()
		each(n, par, func(i int) {
			mu.Lock()
			stop := got != "" || lim > 0 && time.Since(t0).Seconds() > lim
			mu.Unlock()
			if stop {
				return
			}
			o := execPlan(worker, gen.Make(prop, seed, i), false, 60*time.Second)
			mu.Lock()
			defer mu.Unlock()
			if o.Err != "" {
				fmt.Printf("ERROR %s i=%d %s\n", prop, i, first(o.Err, 200))
			} else if o.Class != "" && got == "" {
				got = fmt.Sprintf("KILLED %s i=%d %s: %s", prop, i, o.Class, first(o.Msg, 300))
			}
		})
		if got != "" {
			fmt.Println(got)
			os.Exit(1)
		}
	}
}

// det runs plans twice and compares everything observable.
func det(prop string, seed uint64, n int, worker string, par int) {
	bad := 0
	var mu sync.Mutex
	props := []string{prop}
	if prop == "all" {
		props = nil
		for p := range gen.Props {
			props = append(props, p)
		}
		sort.Strings(props)
	}
	for _, pr := range props {
		each(n, par, func(i int) {
			p := gen.Make(pr, seed, i)
			a := execPlan(worker, p, true, 60*time.Second)
			b := execPlan(worker, p, true, 60*time.Second)
			if sig(a) != sig(b) {
				mu.Lock()
				bad++
				fmt.Printf("NONDET %s i=%d %s: %s vs %s\n", pr, i, p.Profile, sig(a), sig(b))
				mu.Unlock()
			}
		})
	}
	fmt.Printf("det: %d plans of %v, %d differ\n", n*len(props), props, bad)
	if bad > 0 {
		os.Exit(2)
	}
}

func sig(o *Outcome) string {
	return fmt.Sprint(o.Err, o.Class, o.Msg, o.R.Steps, o.R.Hash, o.R.LogHash, o.R.SimNS)
}

// Replay is a replay file.
type Replay struct {
	Property string     `json:"property"`
	Class    string     `json:"class"`
	Msg      string     `json:"violation"`
	Seed     uint64     `json:"seed"`
	Number   int        `json:"plan_number"`
	How      string     `json:"how"`
	Race     bool       `json:"race_detector,omitempty"`
	Plan     *plan.Plan `json:"plan"`
	Hash     string     `json:"schedule_hash"`
	LogHash  string     `json:"history_hash"`
	Trace    []string   `json:"trace"`
}

func readReplay(f string) *Replay {
	b, err := os.ReadFile(f)
	if err != nil {
		fatal("%v", err)
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		fatal("%s: %v", f, err)
	}
	return &r
}

func replay(f, worker string) {
	r := readReplay(f)
	o := execPlan(worker, r.Plan, true, 2*time.Minute)
	if o.Err != "" {
		fatal("%s", o.Err)
	}
	for _, l := range o.R.Log {
		fmt.Println(l)
	}
	if o.Class == "" {
		fmt.Println("the property holds on this execution")
		return
	}
	fmt.Printf("violation %s: %s\n", o.Class, o.Msg)
	if o.R.LogHash != "" && r.LogHash != "" && (o.R.LogHash != r.LogHash || o.R.Hash != r.Hash) {
		fmt.Println("note: the execution differs from the recorded one (the code changed)")
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, f)
	os.Exit(1)
}
