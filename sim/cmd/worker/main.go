// worker executes one plan under the simulator and reports what happened.
//
//go:debug default=go1.16
package main

import (
	"encoding/json"
	"fmt"
	"io"
	"os"
	"runtime"
	"runtime/debug"
	"syscall"

	"verifsim/plan"
	"verifsim/world"
)

var rec = make([]runtime.SimDev, 1<<18)

func emit(r *plan.Result) {
	b, err := json.Marshal(r)
	if err != nil {
		b = []byte(`{"verdict":"error","msg":"cannot encode the result"}`)
	}
	for len(b) > 0 {
		n, err := syscall.Write(3, b)
		if err != nil || n <= 0 {
			break
		}
		b = b[n:]
	}
	syscall.Exit(0)
}

func main() {
	in, err := io.ReadAll(os.Stdin)
	if err != nil {
		panic("harness: " + err.Error())
	}
	var p plan.Plan
	if err := json.Unmarshal(in, &p); err != nil {
		panic("harness: " + err.Error())
	}
	p.Names()
	verbose := len(os.Args) > 1 && os.Args[1] == "-v"
	debug.SetGCPercent(-1)
	os.Setenv("PATH", "") // nothing of this process starts another
	w := world.New(&p)
	cap := uint64(p.O("stepcap"))
	if cap == 0 {
		cap = 20 << 20
	}
	c := runtime.SimConfig{Seed: p.Seed ^ p.Sched.Salt*0x9e3779b97f4a7c15, Mode: int32(p.Sched.Mode), PreemptP: p.Sched.PreemptP,
		Change: p.Sched.Changes, JitterNS: p.Sched.Jitter, Record: rec, StepCap: cap}
	for _, d := range p.Sched.Devs {
		c.Replay = append(c.Replay, runtime.SimDev{Kind: d.K, At: d.A, Val: d.V})
	}
	done := func() {
		r := plan.Result{Verdict: "ok", Steps: runtime.SimSteps(), Picks: runtime.SimPicks(), Preempts: runtime.SimPreempts(),
			SimNS: runtime.SimNow() - w.T0, Hash: fmt.Sprintf("%016x", runtime.SimPickHash()), LogHash: w.LogHash(),
			Counts: w.Notes, Faults: w.Net.Fired}
		for k, v := range w.Net.Calls {
			r.Counts["rpc."+k] += v
		}
		r.Counts["clientops"] = int64(len(w.Recs))
		if len(w.Viol) > 0 {
			r.Verdict = "violation"
			r.Class = w.Viol[0].Class
			r.Msg = w.Viol[0].Msg
			n := runtime.SimRecorded()
			if n > len(rec) {
				r.DevsLost = true
				n = 0
			}
			for _, d := range rec[:n] {
				r.Devs = append(r.Devs, plan.Dev{K: d.Kind, A: d.At, V: d.Val})
			}
			for _, v := range w.Viol {
				r.Log = append(r.Log, "violation "+v.Class+": "+v.Msg)
			}
		}
		if verbose || r.Verdict != "ok" {
			r.Log = append(r.Log, w.Lines(verbose)...)
		}
		emit(&r)
	}
	c.CapFn = func() {
		w.Violate("livelock", "no end after %d steps (%s of simulated time): some activity never stops", cap, fmtNS(runtime.SimNow()-w.T0))
		done()
	}
	runtime.SimStart(c)
	w.Run()
	done()
}

func fmtNS(n int64) string { return fmt.Sprintf("%.1fs", float64(n)/1e9) }
