package world

import (
	"fmt"
	"math"
	"runtime"
	"sort"
	"strings"
	"time"

	"verifsim/plan"
)

var checks = map[string]func(*World){
	"conserve":   (*World).checkConserve,
	"handed":     (*World).checkHandedOnce,
	"fidelity":   (*World).checkFidelity,
	"namespaces": (*World).checkNamespaces,
	"expiry":     (*World).checkExpiry,
	"complete":   (*World).checkComplete,
	"rank":       (*World).checkRank,
	"linear":     (*World).checkLinear,
	"means":      (*World).checkMeans,
	"alive":      (*World).checkAlive,
	"avail":      (*World).checkAvail,
	"cadence":    (*World).checkCadence,
	"pace":       (*World).checkPace,
	"balance":    (*World).checkBalance,
	"http":       (*World).checkHTTP,
	"restart":    (*World).checkRestart,
	"expect":     (*World).checkExpect,
	"reclaim":    (*World).checkReclaim,
	"sizes":      (*World).checkSizes,
	"arb":        (*World).checkArb,
	"leaks":      (*World).checkLeaks,
	"reports":    (*World).checkReports,
	"told":       (*World).checkTold,
	"asked":      (*World).checkAsked,
	"taken":      (*World).checkTaken,
}

// finish takes the census and applies the checks of the plan.
func (w *World) finish() {
	w.restT = w.now()
	list := strings.Split(w.P.Strs["checks"], ",")
	pre := map[string]func(*World){"progress": (*World).waitProgress, "reclaim": (*World).waitReclaim, "balance": (*World).waitBalance}
	for _, c := range list {
		if f := pre[c]; f != nil {
			f(w)
		}
	}
	if w.P.O("keepEL") != 0 {
		w.stopLoops()
		w.quiesce()
	}
	// Queries drop the expired points they meet: count first.
	reclaimed = map[int]*Rec{}
	for _, n := range w.Nodes {
		if strings.Contains(w.P.Strs["checks"], "reclaim") && w.up(n) {
			reclaimed[n.ID] = w.Do(&plan.Op{K: "meta", Node: n.ID})
		}
	}
	if w.P.O("noCensus") == 0 {
		w.censusT = w.now()
		w.TakeCensus()
	}
	for _, c := range list {
		if c == "" || pre[c] != nil && checks[c] == nil {
			continue
		}
		f := checks[c]
		if f == nil {
			panic("harness: unknown check " + c)
		}
		f(w)
	}
}

func (w *World) stopLoops() {
	for _, n := range w.Nodes {
		if n.Inc != nil && n.Inc.ELStop != nil {
			n.Inc.ELStop()
		}
	}
}

func (w *World) quiesce() {
	time.Sleep(10 * time.Second)
	for i := 0; i < 400 && w.busy(); i++ {
		time.Sleep(5 * time.Second)
	}
}

func (w *World) up(n *Node) bool {
	return n.Inc != nil && n.Inc.Host.Alive
}

// ---- liveness of nodes -------------------------------------------------------

// checkAlive: every node that did not crash still serves puts and queries.
func (w *World) checkAlive() {
	for _, n := range w.Nodes {
		if !w.up(n) || n.Cfg.Service {
			continue
		}
		ns := fmt.Sprintf("probe-%d", n.ID)
		pay := []byte("probe" + ns)
		vec := []float64{1, 2, 3}
		r := w.Do(&plan.Op{K: "odd", S: "AddDataPoint", Node: n.ID, NS: ns, Vec: vec, Raw: pay})
		if !r.OK {
			w.Violate("dead", "node %d no longer accepts points (%s)", n.ID, r.Err)
			continue
		}
		r = w.Do(&plan.Op{K: "knn", Node: n.ID, NS: ns, Vec: vec, N: 1})
		if !r.OK || len(r.DPs) != 1 || string(r.DPs[0].Payload) != string(pay) {
			w.Violate("dead", "node %d no longer answers queries (%d points, %s)", n.ID, len(r.DPs), r.Err)
		}
		note("alive", 1)
	}
	for _, r := range w.Recs {
		// Requests to nodes nothing was done to must be answered.
		if mustServe[r.Op.K] && r.Op.X&8 != 0 && (r.Ret == 0 || r.Err != "" && !strings.HasPrefix(r.Err, "namespace not found")) {
			w.Violate("unserved", "%s was not served: %s", w.opStr(r), r.Err)
		} else if mustServe[r.Op.K] && r.Op.X&8 != 0 && r.TRet-r.TInv > int64(5*time.Minute) && !w.Faulty() {
			w.Violate("unserved", "%s was served only after %v", w.opStr(r), time.Duration(r.TRet-r.TInv))
		}
	}
}

// Operations whose X is a set of flags (others give X another meaning).
var mustServe = map[string]bool{"put": true, "knn": true, "nss": true, "meta": true, "lendp": true, "hput": true, "hq": true}

// ---- puts ------------------------------------------------------------------

// checkAvail: a put succeeds when some node can take it, and says the truth.
func (w *World) checkAvail() {
	for _, r := range w.Recs {
		switch r.Op.K {
		case "hput", "lput":
		default:
			continue
		}
		if r.Op.X&16 == 0 {
			continue
		}
		if r.Op.K == "hput" && (r.Ret == 0 || r.Status == 0) {
			w.Violate("put-unanswered", "%s got no answer: %s", w.opStr(r), r.Err)
			continue
		}
		if !r.OK {
			w.Violate("put-refused", "%s was refused (status %d) although a node was reachable", w.opStr(r), r.Status)
		}
		note("avail", 1)
	}
}

// checkExpect: operations with a fixed expected answer.
func (w *World) checkExpect() {
	for _, r := range w.Recs {
		if e := r.Extra["want"]; e != 0 || r.Extra["wanted"] != 0 {
			if int64(r.Status) != e {
				w.Violate("wrong-status", "%s answered %d, want %d", w.opStr(r), r.Status, e)
			}
		}
	}
}

// checkHTTP: malformed requests are refused, interrupted ones have no effect.
func (w *World) checkHTTP() {
	for _, r := range w.Recs {
		if r.Op.K == "raw" && r.Op.S == "read" && !r.Op.Acc && r.Op.X != 0 {
			if r.Ret == 0 || r.Status != int(r.Op.X) {
				w.Violate("wrong-status", "%s: malformed request %q answered %d (%s), want %d", w.opStr(r), r.Op.Raw, r.Status, r.Err, r.Op.X)
			}
			note("badhttp", 1)
		}
	}
	cut := map[int]*Rec{}
	for _, r := range w.Recs {
		if r.Op.K == "raw" && r.Op.Acc && len(r.Op.Vec) == 0 {
			cut[r.Op.Item] = r
		}
	}
	for _, c := range w.Census {
		if r := cut[c.ID]; c.ID >= 0 && r != nil {
			w.Violate("partial-stored", "%s sent only part of a put request, yet %s is stored on node %d", w.opStr(r), w.itemStr(c.ID), c.Node)
		}
	}
}

// ---- maintenance loop --------------------------------------------------------

// loop is the configuration of the node's maintenance loop.
func (n *Node) loop() *plan.ELCfg {
	if n.Cfg.EL != nil {
		return n.Cfg.EL
	}
	return n.Cfg.EL2
}

func (w *World) callsFrom(n *Node, m string, from int64) []int64 {
	var r []int64
	for _, c := range w.Calls {
		if c.Src == n.ID && c.M == m && c.T >= from {
			r = append(r, c.T)
		}
	}
	return r
}

// waitProgress: with faults over, every loop comes round again.
func (w *World) waitProgress() {
	t0 := w.now()
	need := 3
	for _, n := range w.Nodes {
		if !w.up(n) || n.Inc.ELStop == nil {
			continue
		}
		e := n.loop()
		if e == nil {
			continue
		}
		lim := t0 + int64(1500)*int64(time.Second) + 6*(e.LoopMS+9*e.StepMS)*int64(time.Millisecond)
		ok := false
		for w.now() < lim {
			if len(w.callsFrom(n, "Meta", t0)) >= need {
				ok = true
				break
			}
			time.Sleep(2 * time.Second)
		}
		if !ok {
			w.Violate("stalled-loop", "the maintenance loop of node %d made %d of %d rounds in %.0f s after all faults ended",
				n.ID, len(w.callsFrom(n, "Meta", t0)), need, float64(w.now()-t0)/1e9)
		}
		note("progress", 1)
	}
}

type task struct {
	name   string
	method string
	period func(*plan.ELCfg) int
}

var tasks = []task{
	{"expiry", "Expire", func(e *plan.ELCfg) int { return e.Expire }},
	{"memory trim", "MemTrim", func(e *plan.ELCfg) int { return e.MemTrim }},
	{"merge", "MergeCentroids", func(e *plan.ELCfg) int { return e.Merge }},
	{"split", "SplitCentroids", func(e *plan.ELCfg) int { return e.Split }},
	{"internal redistribution", "DistributeDataPointsInternal", func(e *plan.ELCfg) int { return e.Int }},
	{"fast redistribution", "DistributeDataPointsFast", func(e *plan.ELCfg) int { return e.Fast }},
	{"accurate redistribution", "DistributeDataPointsAccurate", func(e *plan.ELCfg) int { return e.Acc }},
	{"metadata", "Meta", func(e *plan.ELCfg) int { return e.Meta }},
	{"load balancing", "LenDP", func(e *plan.ELCfg) int { return e.LB }},
}

// checkCadence: each task runs on every k-th round. Rounds are told apart by
// the task with period one named in the plan.
func (w *World) checkCadence() {
	n := w.Nodes[0]
	e := n.loop()
	tick := w.P.Strs["tick"]
	if tick == "" {
		tick = "Meta"
	}
	ticks := w.callsFrom(n, tick, 0)
	// One round may call several times (one per namespace).
	round := (e.LoopMS + 9*e.StepMS) * int64(time.Millisecond)
	var rs []int64
	for _, t := range ticks {
		if len(rs) == 0 || t-rs[len(rs)-1] > round/2 {
			rs = append(rs, t)
		}
	}
	note("rounds", int64(len(rs)))
	stopT := int64(math.MaxInt64)
	for _, r := range w.Recs {
		if r.Op.K == "elstop" && r.OK {
			stopT = r.TRet
		}
	}
	if want := w.P.O("rounds"); want > 0 && int64(len(rs)) < want {
		w.Violate("few-rounds", "the loop made %d rounds, at least %d were due", len(rs), want)
		return
	}
	isLoop := func(m string) bool {
		if m == "Namespaces" {
			return true
		}
		for _, t := range tasks {
			if t.method == m {
				return true
			}
		}
		return false
	}
	// Once stopped, nothing new starts.
	for _, c := range w.Calls {
		if c.Src == n.ID && c.T > stopT+int64(w.P.O("stopSlackMS"))*1e6 && isLoop(c.M) {
			w.Violate("runs-after-stop", "%s at %.3f s, %.3f s after the loop was stopped", c.M, float64(c.T-w.T0)/1e9, float64(c.T-stopT)/1e9)
			break
		}
	}
	for _, t := range tasks {
		if t.method == tick {
			continue
		}
		k := t.period(e)
		if k < 1 {
			k = 1
		}
		ran := map[int]bool{}
		for _, c := range w.callsFrom(n, t.method, 0) {
			// Which round: the last tick at or before it (allowing for the
			// tick's own place in the round).
			i := sort.Search(len(rs), func(i int) bool { return rs[i] > c }) - 1
			if tick != "Meta" && t.method == "Meta" {
				i++ // Metadata comes first in its round, before the tick.
			}
			ran[i] = true
		}
		var at []int
		for i := range ran {
			at = append(at, i)
		}
		sort.Ints(at)
		note("cadence", int64(len(at)))
		if k > 1000 {
			if len(at) > 0 {
				w.Violate("disabled-task-ran", "the %s task has period %d (never) but ran in round %d", t.name, k, at[0])
			}
			continue
		}
		last := len(rs) - 2 // the last round may be incomplete
		if len(at) == 0 || at[0] >= k && last >= k {
			if last >= k {
				w.Violate("missed", "the %s task has period %d but did not run in the first %d rounds", t.name, k, k)
			}
			continue
		}
		early := 0
		for i := 1; i < len(at); i++ {
			if at[i] > last+1 {
				break
			}
			// The loop starts counting anew about every thousand rounds.
			if at[i]-at[i-1] < k && at[i]-early >= 1000 {
				early = at[i]
				continue
			}
			if at[i]-at[i-1] != k {
				w.Violate("off-beat", "the %s task has period %d but ran in rounds %d and then %d", t.name, k, at[i-1], at[i])
				break
			}
		}
		if l := at[len(at)-1]; l+k <= last {
			w.Violate("missed", "the %s task has period %d but last ran in round %d of %d", t.name, k, l, last)
		}
	}
}

// checkPace: rounds keep the configured pauses, also after a slow one, and are
// held up by nothing but slow nodes.
func (w *World) checkPace() {
	slack := int64(0)
	for i := range w.P.Faults {
		slack += w.P.Faults[i].DurUS * 1000
	}
	for _, n := range w.Nodes {
		e := n.loop()
		if e == nil || e.Meta != 1 || n.Inc == nil || n.Inc.Log == nil {
			continue
		}
		round := (e.LoopMS + 9*e.StepMS) * int64(time.Millisecond)
		ms := n.Inc.Log.Metas
		note("pace", int64(len(ms)))
		for i := 1; i < len(ms); i++ {
			d := ms[i].T - ms[i-1].T
			if d < round {
				w.Violate("hurried", "node %d: a round followed the one before after %.3f s, the configured pauses add up to %.3f s", n.ID, float64(d)/1e9, float64(round)/1e9)
				return
			}
			if d > round+round/2+slack+int64(time.Second) {
				w.Violate("late", "node %d: a round followed the one before after %.3f s, the configured pauses add up to %.3f s", n.ID, float64(d)/1e9, float64(round)/1e9)
				return
			}
		}
	}
}

// ---- reclaiming expired points -----------------------------------------------

// waitReclaim lets the loops run past every expiry.
func (w *World) waitReclaim() {
	end := w.now()
	for i := range w.P.Items {
		it := &w.P.Items[i]
		if !it.ExpOn || it.ExpMS > w.P.O("farMS") && w.P.O("farMS") > 0 {
			continue
		}
		for _, n := range w.Nodes {
			if t := w.Expires(it).UnixNano() - n.off(); t > end {
				end = t
			}
		}
	}
	rounds := int64(0)
	for _, n := range w.Nodes {
		e := n.Cfg.EL
		if e == nil {
			continue
		}
		k := e.Expire
		if k > 1000 || e.MemTrim <= 1000 && e.MemTrim > k {
			k = e.MemTrim
		}
		if d := int64(2*k+2) * (e.LoopMS + 9*e.StepMS + 200); d > rounds {
			rounds = d
		}
	}
	// A failed request may cost the task its turn.
	rounds *= int64(1 + len(w.P.Faults))
	for i := range w.P.Faults {
		rounds += (w.P.Faults[i].DurUS + w.P.Faults[i].AtUS) / 1000
	}
	time.Sleep(time.Duration(end-w.now()) + time.Duration(rounds)*time.Millisecond)
}

// What each node counted before anyone looked at its points.
var reclaimed map[int]*Rec

// checkReclaim: expired points are gone from memory, not just hidden.
func (w *World) checkReclaim() {
	for _, n := range w.Nodes {
		if !w.up(n) {
			continue
		}
		live := map[string]int{}
		for _, c := range w.Census {
			if c.Node == n.ID {
				live[c.NS]++
			}
		}
		m := reclaimed[n.ID]
		if m == nil || !m.OK {
			w.Violate("dead", "node %d does not answer", n.ID)
			continue
		}
		// Moving datapoints around empties partitions at any time.
		trim := n.Cfg.EL != nil && n.Cfg.EL.MemTrim <= 1000
		for _, x := range w.Nodes {
			if e := x.Cfg.EL; e == nil || e.Fast <= 1000 || e.Acc <= 1000 || e.Int <= 1000 || e.Merge <= 1000 || e.LB <= 1000 {
				trim = false
			}
		}
		for _, ns := range w.namespaces() {
			note("reclaim", 1)
			if m.Dps[ns] != live[ns] {
				w.Violate("not-reclaimed", "node %d namespace %q still counts %d points, %d are live", n.ID, ns, m.Dps[ns], live[ns])
			}
			if trim && m.Cen[ns] > live[ns] {
				w.Violate("not-reclaimed", "node %d namespace %q still has %d partitions for %d live points", n.ID, ns, m.Cen[ns], live[ns])
			}
		}
	}
}

// ---- load balancing ----------------------------------------------------------

func (w *World) lens(ns string) ([]int, int) {
	r := make([]int, len(w.Nodes))
	big := 0
	for i, n := range w.Nodes {
		s := w.SnapOf(n, ns)
		r[i] = s.Len()
		for _, g := range s.IDs {
			if len(g) > big {
				big = len(g)
			}
		}
	}
	return r, big
}

var lens0 map[string][]int

// waitBalance starts the loops and lets them settle.
func (w *World) waitBalance() {
	lens0 = map[string][]int{}
	for _, ns := range w.namespaces() {
		lens0[ns], _ = w.lens(ns)
	}
	time.Sleep(time.Duration(w.P.O("balanceS")) * time.Second)
}

// checkBalance: big gaps close, small ones are left alone, and it settles.
func (w *World) checkBalance() {
	end := w.now()
	moves := 0
	var lastMove int64
	for _, c := range w.Calls {
		if c.M == "NearestCentroids" {
			moves++
			lastMove = c.T
		}
	}
	N := len(w.Nodes)
	for _, ns := range w.namespaces() {
		l, big := w.lens(ns)
		tot, holders := 0, 0
		for i, x := range l {
			tot += x
			if w.SnapOf(w.Nodes[i], ns).OK {
				holders++
			}
		}
		if holders == 0 {
			continue
		}
		mean := tot / holders
		note("balance", 1)
		if max := w.P.O("takeMax"); max > 0 {
			k := w.P.O("taker")
			if int64(l[k]) > max {
				w.Violate("took-too-much", "node %d alone took data from others and holds %d points, more than the mean and one partition (%d); nodes hold %v", k, l[k], max, l)
			}
			l0 := lens0[ns]
			if w.P.O("lone") == 0 || len(l0) != N || holders != N {
				continue
			}
			if 10*l0[k] >= 8*mean && l[k] > l0[k] {
				w.Violate("needless-move", "node %d held %d points, near the mean (%d), but took from others; nodes held %v, now %v", k, l0[k], mean, l0, l)
			}
			for j := range l {
				if l0[j] <= mean && l[j] < l0[j] {
					w.Violate("poor-gives", "node %d held %d points, no more than the mean (%d), but gave some away; nodes held %v, now %v", j, l0[j], mean, l0, l)
				}
			}
			continue
		}
		for i := range l {
			for j := range l {
				t := (mean - l[i]) / N / 3
				if i == j || t < 1 {
					continue
				}
				fl := float64(l[j] - t)
				if float64(l[i]) < 0.5*float64(mean) && (fl > 1.6*float64(mean)+2 || holders == 1) {
					w.Violate("imbalance", "namespace %q stays unbalanced: nodes hold %v points (started from %v) although load balancing ran for %d s", ns, l, lens0[ns], w.P.O("balanceS"))
					return
				}
			}
		}
		// A donor is not drained: it gives only what is above the mean.
		for i := range l {
			if lens0[ns] == nil || lens0[ns][i] < mean*3/2 {
				continue
			}
			if l[i] < mean/2-N*big {
				w.Violate("donor-drained", "namespace %q: node %d had %d points and was drained to %d, the mean is %d", ns, i, lens0[ns][i], l[i], mean)
			}
		}
	}
	if w.P.O("balanced") != 0 && moves > 0 {
		w.Violate("needless-move", "nodes were balanced (%v) but load balancing moved partitions %d times", lens0, moves)
	}
	if end-lastMove < w.P.O("balanceS")*1e9/5 && moves > 0 {
		w.Violate("never-settles", "load balancing was still moving partitions %.0f s before the end of %d s; nodes hold %v", float64(end-lastMove)/1e9, w.P.O("balanceS"), func() []int { l, _ := w.lens(w.namespaces()[0]); return l }())
	}
}

// ---- stop and start ------------------------------------------------------------

// checkRestart: a stopped node refuses connections, a started one serves.
func (w *World) checkRestart() {
	for _, n := range w.Nodes {
		state, since := 1, int64(0) // 1 up, 0 down, -1 changing
		_ = since
		type ev struct {
			inv, ret int64
			to       int
		}
		var evs []ev
		for _, r := range w.Recs {
			if r.Op.Node != n.ID {
				continue
			}
			switch r.Op.K {
			case "nstop":
				evs = append(evs, ev{r.Inv, r.Ret, 0})
				if d := r.TRet - r.TInv; r.Ret != 0 && d > 20e9 {
					w.Violate("stop-hangs", "%s took %.1f s to stop node %d", w.opStr(r), float64(d)/1e9, n.ID)
				}
			case "nstart":
				evs = append(evs, ev{r.Inv, r.Ret, 1})
				if !r.OK {
					w.Violate("address-busy", "node %d cannot listen again after it was stopped: %s", n.ID, r.Err)
				}
			}
		}
		for _, r := range w.Recs {
			if r.Op.Node != n.ID {
				continue
			}
			switch r.Op.K {
			case "nss", "meta":
			default:
				continue
			}
			s := state
			for _, e := range evs {
				if e.ret < r.Inv {
					s = e.to
				} else if r.Ret == 0 || e.inv < r.Ret {
					s = -1
					break
				}
			}
			note("restart", 1)
			if s == 1 && (r.Ret == 0 || r.TRet-r.TInv > 20e9) {
				w.Violate("dead", "%s was not answered within 20 s although node %d serves", w.opStr(r), n.ID)
			}
			if r.Ret == 0 {
				continue
			}
			if s == 0 && r.OK {
				w.Violate("serves-stopped", "%s was served after node %d was stopped", w.opStr(r), n.ID)
			}
			if s == 1 && !r.OK {
				w.Violate("dead", "%s was not served although node %d was started: %s", w.opStr(r), n.ID, r.Err)
			}
		}
	}
}

// ---- partition sizes -----------------------------------------------------------

// checkSizes: partitions filled only by puts stay below the split threshold.
func (w *World) checkSizes() {
	for _, n := range w.Nodes {
		thr := n.Cfg.Threshold
		for _, ns := range w.namespaces() {
			s := w.SnapOf(n, ns)
			note("sizes", 1)
			for _, g := range s.IDs {
				if thr >= 2 && len(g) >= thr && w.P.O("autosize") != 0 {
					w.Violate("oversized", "node %d namespace %q has a partition of %d points, the split threshold is %d", n.ID, ns, len(g), thr)
				}
			}
		}
	}
}

// putSizes: the one partition that took in a point is split if that brought it
// to the threshold or above, the others keep their sizes. Nothing else is
// going on.
func (w *World) putSizes(what string, b, a *Snap, thr int) {
	got := fmt.Sprint(nonzero(sizes(a)))
	was := sizes(b)
	if b.Len() == 0 {
		was = append(was, 0)
	}
	note("putsizes", 1)
	for i, n := range was {
		want := append([]int(nil), was...)
		want[i]++
		if k := thr / 2; k > 0 && n+1 >= thr {
			want[i] -= k
			want = append(want, k)
		}
		sort.Ints(want)
		if fmt.Sprint(nonzero(want)) == got {
			return
		}
	}
	w.Violate("bad-split", "%s made partitions of %v points out of %v, the split threshold is %d", what, sizes(a), was, thr)
}

// surviving: a query finds what nodes hold that are up all the time, whatever
// happens to others.
func (w *World) surviving(r *Rec, before []Snap, incs []*Inc) {
	if r.Err != "" || !r.OK || r.Op.Drain {
		return
	}
	after := w.snapAll(r.Op.NS)
	there := map[int]bool{}
	for i, n := range w.Nodes {
		if n.Inc != incs[i] || !w.up(n) {
			continue
		}
		in := map[int]bool{}
		for _, g := range before[i].IDs {
			for _, id := range g {
				in[id] = true
			}
		}
		for _, g := range after[i].IDs {
			for _, id := range g {
				if in[id] && id >= 0 && len(ItemVec(&w.P.Items[id])) == len(r.Op.Vec) {
					there[id] = true
				}
			}
		}
	}
	note("surviving", 1)
	got := map[int]bool{}
	for _, id := range r.IDs {
		got[id] = true
		delete(there, id)
	}
	if len(there) > 0 && len(got) < r.Op.N {
		for id := range there {
			w.Violate("not-served", "%s got %d points, but not %s, which a node holds that is up", w.opStr(r), len(got), w.itemStr(id))
			return
		}
	}
}

// ---- arbitration ---------------------------------------------------------------

func (w *World) checkArb() {
	type holder struct {
		addr     string
		from, to int64
		r        *Rec
	}
	var hs []holder
	first, forced := true, false
	for _, r := range w.Recs {
		if r.Op.K == "arbget" && r.OK {
			note("arb", 1)
			ok := false
			for _, i := range w.members(w.Nodes[r.Op.Addrs[0]]) {
				ok = ok || str(arbAddr(i)) == r.Strs[0]
			}
			if !ok {
				w.Violate("stranger", "%s reports arbiter %q, which is no member", w.opStr(r), r.Strs[0])
			}
			hs = append(hs, holder{r.Strs[0], r.TInv, r.TRet, r})
		}
		if r.Op.K == "arbforce" {
			first = first && !forced
			forced = true
			if r.Extra["refused"] != 0 {
				w.Violate("member-refused", "%s: a member refused names it was told of", w.opStr(r))
			}
			if r.Op.M == 1 && first && len(r.Op.Addrs) == 1 {
				note("elections", 1)
				if !r.OK {
					w.Violate("no-election", "%s: the only member did not elect itself (%s)", w.opStr(r), r.Err)
				}
			}
		}
		if r.Op.K == "arbforce" && r.OK && r.Op.X != 0 {
			// Everyone asked afterwards, before it lapses, names the same one.
			lapse := int64(math.MaxInt64)
			for _, n := range w.Nodes {
				if t := r.TInv + n.Cfg.ArbMS*1e6 - 500e6; t < lapse {
					lapse = t
				}
			}
			name := ""
			for _, q := range w.Recs {
				if q.Op.K == "arbforce" && q.Inv > r.Inv && q.TInv < lapse {
					lapse = q.TInv
				}
			}
			for _, q := range w.Recs {
				if q.Op.K == "arbget" && q.Inv > r.Ret && q.TRet < lapse && w.up(w.Nodes[q.Op.Addrs[0]]) && hasInt(r.Op.Addrs, q.Op.Addrs[0]) {
					note("arbsame", 1)
					if !q.OK {
						w.Violate("no-arbiter", "%s succeeded %.3f s earlier but %s knows no arbiter (status %d, %s)", w.opStr(r), float64(q.TInv-r.TRet)/1e9, w.opStr(q), q.Status, q.Err)
						continue
					}
					if name == "" {
						name = q.Strs[0]
					} else if name != q.Strs[0] {
						w.Violate("two-arbiters", "%s succeeded but members name %q and %q", w.opStr(r), name, q.Strs[0])
					}
				}
			}
		}
	}
}

// Composite operations look at the quiet cluster around one request.

func sims(s *Snap, q []float64, acc bool) (best float64, ok bool) {
	best = math.Inf(-1)
	if !s.OK {
		return
	}
	if !acc {
		if len(s.Vec) != len(q) || len(s.Vec) == 0 {
			return best, false
		}
		return Cos(q, s.Vec), true
	}
	for _, v := range s.Vecs {
		if len(v) == len(q) {
			if x := Cos(q, v); x > best {
				best, ok = x, true
			}
		}
	}
	return
}

const placeTol = 1e-9

func (w *World) snapAll(ns string) []Snap {
	r := make([]Snap, len(w.Nodes))
	for i, n := range w.Nodes {
		r[i] = w.SnapOf(n, ns)
	}
	return r
}

func nodeOf(ss []Snap, id int) int {
	for i := range ss {
		for _, g := range ss[i].IDs {
			for _, x := range g {
				if x == id {
					return i
				}
			}
		}
	}
	return -1
}

func (w *World) touched(since int) map[int]bool {
	m := map[int]bool{}
	for _, f := range w.FaultEvs[since:] {
		m[f.Dst] = true
	}
	return m
}

func (w *World) bestOK(what string, before []Snap, q []float64, acc bool, cand []int, got int, touched map[int]bool) {
	gs, gok := sims(&before[got], q, acc)
	for _, i := range cand {
		if i < 0 || i >= len(w.Nodes) || i == got || touched[i] || !w.up(w.Nodes[i]) {
			continue
		}
		s, ok := sims(&before[i], q, acc)
		if !ok {
			continue
		}
		if touched[got] {
			continue
		}
		if !gok || s > gs+placeTol {
			w.Violate("misplaced", "%s went to node %d (similarity %g) although node %d is closer (%g)", what, got, gs, i, s)
			return
		}
	}
}

// composite runs one of the p* operations.
func (w *World) composite(r *Rec, op *plan.Op) {
	before := w.snapAll(op.NS)
	nf := len(w.FaultEvs)
	inner := *op
	acc := op.Acc || op.S == "acc"
	switch op.K {
	case "pput":
		inner.K = map[string]string{"lib": "lput", "http": "hput", "node": "put"}[w.viaOf(op)]
		x := w.runInner(r, &inner)
		after := w.snapAll(op.NS)
		got := nodeOf(after, op.Item)
		r.N = got
		if !x.OK {
			return
		}
		what := fmt.Sprintf("%s of item %d", w.opStr(r), op.Item)
		if got < 0 {
			w.Violate("lost", "%s succeeded but the point is nowhere", what)
			return
		}
		q := w.ItemDP(op.Item).Vec
		note("placed", 1)
		if inner.K == "put" {
			w.bestPartition(what, &before[op.Node], &after[op.Node], op.Item, q)
			if w.P.O("putsizes") != 0 {
				w.putSizes(what, &before[op.Node], &after[op.Node], w.Nodes[op.Node].Cfg.Threshold)
			}
			return
		}
		cand := op.Addrs
		if inner.K == "hput" {
			cand = w.apiCands(op.Node)
		}
		w.bestOK(what, before, q, acc, cand, got, w.touched(nf))
	case "pget":
		inner.K = "lget"
		if w.viaOf(op) == "http" {
			inner.K = "hq"
		}
		x := w.runInner(r, &inner)
		r.DPs = x.DPs
		if !x.OK || len(w.FaultEvs) > nf {
			return
		}
		cand := op.Addrs
		if inner.K == "hq" {
			cand = w.apiCands(op.Node)
		}
		w.bestGet(r, before, x, acc, cand)
	case "pdist":
		inner.K = "dfast"
		if acc {
			inner.K = "dacc"
		}
		x := w.runInner(r, &inner)
		after := w.snapAll(op.NS)
		tch := w.touched(nf)
		moved := 0
		src := op.Node
		// Several in accurate mode: a node that got one is not what it was
		// when the next was sent.
		gain := map[int]int{}
		for _, g := range before[src].IDs {
			for _, id := range g {
				if got := nodeOf(after, id); got >= 0 && got != src {
					gain[got]++
				}
			}
		}
		for _, g := range before[src].IDs {
			for _, id := range g {
				got := nodeOf(after, id)
				if got == src {
					continue
				}
				moved++
				if got < 0 {
					w.Violate("lost", "%s lost item %d", w.opStr(r), id)
					continue
				}
				if x.OK && acc && op.N != 1 && gain[got] == 1 && len(tch) == 0 {
					skip := map[int]bool{src: true}
					for g := range gain {
						skip[g] = g != got
					}
					note("accurateseveral", 1)
					w.bestOK(fmt.Sprintf("%s: item %d", w.opStr(r), id), before, ItemVec(&w.P.Items[id]), acc, op.Addrs, got, skip)
				}
				if x.OK && (!acc || op.N == 1) {
					// The source itself changed by giving the points up.
					tch[src] = true
					w.bestOK(fmt.Sprintf("%s: item %d", w.opStr(r), id), before, ItemVec(&w.P.Items[id]), acc, op.Addrs, got, tch)
					delete(tch, src)
				}
			}
		}
		note("distributed", int64(moved))
		lim := op.N
		if lim < 0 {
			lim = 0
		}
		if moved > lim {
			w.Violate("too-many", "%s was to move at most %d points and moved %d", w.opStr(r), lim, moved)
		}
		// Everyone reachable and no faults: all that were asked for move.
		if x.OK && len(tch) == 0 && w.distCan(before, op) {
			want := before[src].Len()
			if lim < want {
				want = lim
			}
			if moved < want {
				w.Violate("too-few", "%s was to move %d of %d points and moved %d", w.opStr(r), want, before[src].Len(), moved)
			}
		}
	case "psteal":
		inner.K = "steal"
		x := w.runInner(r, &inner)
		after := w.snapAll(op.NS)
		if w.P.Prop == "C11" {
			w.stealNearest(r, before, after, len(w.FaultEvs) > nf)
			return
		}
		w.stealTruth(r, x, before, after, len(w.FaultEvs) > nf)
	case "pnc":
		inner.K = "nc"
		x := w.runInner(r, &inner)
		w.bestPartitions(r, x, &before[op.Node])
	case "pncv":
		inner.K = "ncv"
		x := w.runInner(r, &inner)
		s := &before[op.Node]
		b, ok := sims(s, op.Vec, true)
		if ok && (!x.OK || len(x.Vec) != len(op.Vec) || Cos(op.Vec, x.Vec) < b-placeTol) {
			w.Violate("not-nearest", "%s: nearest partition has similarity %g, got %v (%s)", w.opStr(r), b, x.Vec, x.Err)
		}
		note("nearest", 1)
	case "psplit", "pmerge":
		inner.K = op.K[1:]
		x := w.runInner(r, &inner)
		after := w.SnapOf(w.Nodes[op.Node], op.NS)
		if x.OK {
			w.splitMerge(r, &before[op.Node], &after)
		}
	default:
		panic("harness: unknown operation " + op.K)
	}
}

func (w *World) viaOf(op *plan.Op) string {
	switch op.M {
	case 1:
		return "http"
	case 2:
		return "node"
	}
	return "lib"
}

func (w *World) apiCands(node int) []int {
	if a := w.P.Nodes[node].RPCAddrs; len(a) > 0 {
		return a
	}
	var r []int
	for i := range w.Nodes {
		r = append(r, i)
	}
	return r
}

// runInner executes the request a composite operation wraps, and leaves its
// trace in the history.
func (w *World) runInner(r *Rec, op *plan.Op) *Rec {
	x := w.do(r.C, r.I, op)
	r.OK, r.Err, r.Status = x.OK, x.Err, x.Status
	return x
}

func (w *World) bestPartition(what string, before, after *Snap, id int, q []float64) {
	if !before.OK || len(before.Vecs) == 0 || len(after.Vecs) != len(before.Vecs) {
		return // first point, or the partition was split
	}
	best := math.Inf(-1)
	for _, v := range before.Vecs {
		if len(v) == len(q) {
			best = math.Max(best, Cos(q, v))
		}
	}
	for i, g := range after.IDs {
		for _, x := range g {
			if x == id {
				if s := Cos(q, before.Vecs[i]); s < best-placeTol {
					w.Violate("misplaced", "%s went to partition %d (similarity %g), the closest has %g", what, i, s, best)
				}
			}
		}
	}
}

func (w *World) distCan(before []Snap, op *plan.Op) bool {
	for _, i := range op.Addrs {
		if i == op.Node {
			return false // points may come back
		}
	}
	for _, i := range op.Addrs {
		if i < 0 || i >= len(w.Nodes) || !w.up(w.Nodes[i]) {
			continue
		}
		if before[i].OK && before[i].Len() > 0 {
			return true
		}
	}
	return false
}

func (w *World) bestGet(r *Rec, before []Snap, x *Rec, acc bool, cand []int) {
	type ns struct {
		i int
		s float64
	}
	var l []ns
	for _, i := range cand {
		if i < 0 || i >= len(w.Nodes) || !w.up(w.Nodes[i]) {
			continue
		}
		if s, ok := sims(&before[i], r.Op.Vec, acc); ok {
			l = append(l, ns{i, s})
		}
	}
	sort.SliceStable(l, func(a, b int) bool { return l[a].s > l[b].s })
	for i := 1; i < len(l); i++ {
		if l[i-1].s-l[i].s < placeTol {
			return // no unique order
		}
	}
	note("routed", 1)
	pos := 0
	left := r.Op.N
	if left < 0 {
		left = 0
	}
	for _, e := range l {
		b := &before[e.i]
		k := b.Len()
		if k > left {
			k = left
		}
		if k == 0 {
			continue
		}
		if pos+k > len(x.IDs) {
			w.Violate("wrong-nodes", "%s: answer has %d points, expected %d from node %d at position %d", w.opStr(r), len(x.IDs), k, e.i, pos)
			return
		}
		got := map[int]bool{}
		worst := math.Inf(1)
		for _, id := range x.IDs[pos : pos+k] {
			if id < 0 || nodeOf(before[e.i:e.i+1], id) != 0 {
				w.Violate("wrong-nodes", "%s: item %d in the answer at positions %d..%d is not from node %d, which is closest to the query", w.opStr(r), id, pos, pos+k-1, e.i)
				return
			}
			got[id] = true
			worst = math.Min(worst, Cos(r.Op.Vec, ItemVec(&w.P.Items[id])))
		}
		if len(b.IDs) == 1 {
			for _, id := range b.IDs[0] {
				if !got[id] && Cos(r.Op.Vec, ItemVec(&w.P.Items[id])) > worst+rankTol {
					w.Violate("not-best", "%s: left out item %d of node %d, which is closer than one it returned", w.opStr(r), id, e.i)
					return
				}
			}
		}
		pos += k
		left -= k
	}
	if pos != len(x.IDs) {
		w.Violate("wrong-nodes", "%s: %d points returned, %d expected", w.opStr(r), len(x.IDs), pos)
	}
}

func (w *World) bestPartitions(r, x *Rec, b *Snap) {
	if !x.OK && len(b.Vecs) == 0 {
		return
	}
	type ps struct {
		i int
		s float64
	}
	var l []ps
	total := 0
	for i, v := range b.Vecs {
		if len(v) == len(r.Op.Vec) {
			l = append(l, ps{i, Cos(r.Op.Vec, v)})
			total += len(b.IDs[i])
		}
	}
	sort.SliceStable(l, func(i, j int) bool { return l[i].s > l[j].s })
	n := r.Op.N
	if n > len(l) {
		n = len(l)
	}
	for i := 1; i < len(l) && i <= n; i++ {
		if l[i-1].s-l[i].s < placeTol {
			return
		}
	}
	note("nearest", 1)
	var want [][]int
	for _, e := range l[:n] {
		if len(b.IDs[e.i]) > 0 {
			want = append(want, b.IDs[e.i])
		}
	}
	same := len(want) == len(x.Groups)
	for i := 0; same && i < len(want); i++ {
		a, c := append([]int(nil), want[i]...), append([]int(nil), x.Groups[i]...)
		sort.Ints(a)
		sort.Ints(c)
		same = fmt.Sprint(a) == fmt.Sprint(c)
	}
	if !same {
		w.Violate("not-nearest", "%s: nearest partitions hold %v, got %v (%s)", w.opStr(r), want, x.Groups, x.Err)
	}
}

// stealNearest: what was taken is closer to the taker's mean than what stayed.
func (w *World) stealNearest(r *Rec, before, after []Snap, faulty bool) {
	a, b := r.Op.Node, r.Op.Addrs[0]
	if faulty || a == b || !before[a].OK || !before[b].OK || len(before[a].Vec) == 0 {
		return
	}
	far, near := math.Inf(1), math.Inf(-1)
	taken, left := -1, -1
	for i, g := range before[b].IDs {
		if len(g) == 0 || len(before[b].Vecs[i]) != len(before[a].Vec) {
			continue
		}
		s := Cos(before[a].Vec, before[b].Vecs[i])
		switch nodeOf(after, g[0]) {
		case a:
			if s < far {
				far, taken = s, g[0]
			}
		case b:
			if s > near {
				near, left = s, g[0]
			}
		}
	}
	if taken >= 0 && left >= 0 {
		note("nearest", 1)
		if far < near-placeTol {
			w.Violate("not-nearest", "%s took the partition of item %d (similarity to the taker's mean %g) and left that of item %d, which is closer (%g)", w.opStr(r), taken, far, left, near)
		}
	}
}

func (w *World) stealTruth(r, x *Rec, before, after []Snap, faulty bool) {
	a := r.Op.Node
	b := -1
	if len(r.Op.Addrs) > 0 {
		b = r.Op.Addrs[0]
	}
	limit := r.Op.N
	note("steals", 1)
	gain := after[a].Len() - before[a].Len()
	if b == a {
		if x.N != 0 && x.Err == "" {
			w.Violate("wrong-report", "%s reports %d points gained from itself", w.opStr(r), x.N)
		}
		if gain != 0 {
			w.Violate("wrong-report", "%s: stealing from itself changed the node from %d to %d points", w.opStr(r), before[a].Len(), after[a].Len())
		}
		return
	}
	if x.N != gain {
		w.Violate("wrong-report", "%s reports %d points moved, the node gained %d", w.opStr(r), x.N, gain)
	}
	reach := b >= 0 && b < len(w.Nodes) && w.up(w.Nodes[b]) && before[b].OK
	if faulty {
		// What the thief could not ask must show in the report.
		for _, f := range w.FaultEvs {
			if f.T >= x.TInv && f.T <= x.TRet && f.Src == a && f.Dst == b && x.Err == "" && x.OK && (f.K == "refuse" || f.K == "slam" || f.K == "cutreq" || f.K == "dialtimeout") {
				w.Violate("wrong-report", "%s: a request to the other node failed (%s) after %d of %d points, yet it reports success", w.opStr(r), f.K, x.N, limit)
				break
			}
		}
		return
	}
	if !reach {
		if x.OK && limit > 0 || x.N != 0 {
			w.Violate("wrong-report", "%s: the other node cannot be reached or lacks the namespace, yet it reports n=%d ok=%v", w.opStr(r), x.N, x.OK)
		}
		return
	}
	loss := before[b].Len() - after[b].Len()
	if loss != gain {
		w.Violate("lost", "%s: one node lost %d points, the other gained %d", w.opStr(r), loss, gain)
	}
	if !x.OK {
		w.Violate("wrong-report", "%s: nothing failed, yet it reports failure after moving %d points", w.opStr(r), x.N)
	}
	big := 0
	for _, g := range before[b].IDs {
		if len(g) > big {
			big = len(g)
		}
	}
	want := before[b].Len()
	if limit < want {
		want = limit
	}
	if want < 0 {
		want = 0
	}
	if gain < want {
		w.Violate("too-few", "%s: was to take %d of %d points and took %d", w.opStr(r), limit, before[b].Len(), gain)
	}
	// It stopped at the partition that made it enough, so without one of
	// those it took it had too little.
	took := 0
	for _, g := range before[b].IDs {
		if len(g) > took && nodeOf(after, g[0]) == a {
			took = len(g)
		}
	}
	if gain > 0 && took > 0 && gain-took >= want {
		w.Violate("too-many", "%s: was to take %d points and took %d; the largest partition it took has %d", w.opStr(r), limit, gain, took)
	}
	if gain > 0 && gain >= want+big {
		w.Violate("too-many", "%s: was to take %d points and took %d; the largest partition has %d", w.opStr(r), limit, gain, big)
	}
	if limit <= 0 && gain > 0 {
		w.Violate("too-many", "%s: was to take nothing and took %d points", w.opStr(r), gain)
	}
}

func multiset(s *Snap) string {
	var l []int
	for _, g := range s.IDs {
		l = append(l, g...)
	}
	sort.Ints(l)
	return fmt.Sprint(l)
}

func sizes(s *Snap) []int {
	var l []int
	for _, g := range s.IDs {
		l = append(l, len(g))
	}
	sort.Ints(l)
	return l
}

func (w *World) splitMerge(r *Rec, b, a *Snap) {
	lo, hi := r.Op.N, r.Op.M
	inRange := func(n int) bool { return n > lo && n < hi }
	note("splitmerge", 1)
	if multiset(b) != multiset(a) {
		w.Violate("lost", "%s changed what is stored: %s became %s", w.opStr(r), multiset(b), multiset(a))
		return
	}
	if r.Op.K == "psplit" {
		var want []int
		for _, g := range b.IDs {
			n := len(g)
			if inRange(n) && n >= 2 {
				want = append(want, n/2, n-n/2)
			} else {
				want = append(want, n)
			}
		}
		sort.Ints(want)
		got := sizes(a)
		// Empty partitions are nobody's business.
		if fmt.Sprint(nonzero(want)) != fmt.Sprint(nonzero(got)) {
			w.Violate("bad-split", "%s of partitions %v in range (%d,%d) gave %v, want %v", w.opStr(r), sizes(b), lo, hi, got, want)
		}
		return
	}
	if len(a.IDs) > 1 {
		for _, g := range a.IDs {
			if len(g) > 0 && inRange(len(g)) {
				w.Violate("bad-merge", "%s left a partition of %d points, in range (%d,%d), though there are others: %v became %v", w.opStr(r), len(g), lo, hi, sizes(b), sizes(a))
				return
			}
		}
	}
	// Partitions out of range are only ever absorbed whole: groups stay
	// together.
	for _, g := range b.IDs {
		if len(g) == 0 {
			continue
		}
		home := -1
		for i, h := range a.IDs {
			for _, id := range h {
				if id == g[0] {
					home = i
				}
			}
		}
		for _, id := range g {
			ok := false
			for _, x := range a.IDs[home] {
				ok = ok || x == id
			}
			if !ok {
				w.Violate("bad-merge", "%s tore a partition apart: %v became %v", w.opStr(r), b.IDs, a.IDs)
				return
			}
		}
	}
	// Nothing in range: nothing changes.
	any := false
	for _, g := range b.IDs {
		any = any || inRange(len(g))
	}
	if !any && fmt.Sprint(nonzero(sizes(b))) != fmt.Sprint(nonzero(sizes(a))) {
		w.Violate("bad-merge", "%s: no partition is in range (%d,%d) but %v became %v", w.opStr(r), lo, hi, sizes(b), sizes(a))
		return
	}
	want, sure := mergeModel(b, inRange)
	if !sure {
		return
	}
	note("mergemodel", 1)
	got := groups(a.IDs)
	for _, x := range want {
		if x == got {
			return
		}
	}
	w.Violate("bad-merge", "%s in range (%d,%d): %v became %v; absorbing the nearest others only until out of range gives %v", w.opStr(r), lo, hi, groups(b.IDs), got, want[0])
}

// groups is a canonical text of a partitioning, without empty partitions.
func groups(ids [][]int) string {
	var l []string
	for _, g := range ids {
		if len(g) > 0 {
			g = append([]int(nil), g...)
			sort.Ints(g)
			l = append(l, fmt.Sprint(g))
		}
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

// mergeModel gives what merging may lead to: partitions in range absorb their
// nearest others, one after the other, until they are out of range; in which
// order they get their turn is open. Not sure where similarities tie or
// where there are too many orders to go through.
func mergeModel(b *Snap, inRange func(int) bool) ([]string, bool) {
	type part struct {
		ids []int
		pts [][]float64
		vec []float64
	}
	n := len(b.IDs)
	var cand []int
	for i := range b.IDs {
		if inRange(len(b.IDs[i])) {
			cand = append(cand, i)
		}
		for _, id := range b.IDs[i] {
			if id < 0 {
				return nil, false
			}
		}
	}
	if len(cand) > 5 || n > 12 {
		return nil, false
	}
	seen := map[string]bool{}
	sure := true
	run := func(order []int) {
		ps := make([]part, n)
		for i := range ps {
			ps[i] = part{append([]int(nil), b.IDs[i]...), append([][]float64(nil), b.Pts[i]...), b.Vecs[i]}
		}
		gone := make([]bool, n)
		for _, c := range order {
			if gone[c] || !inRange(len(ps[c].ids)) {
				continue
			}
			var oth []int
			for j := range ps {
				if j != c && !gone[j] {
					oth = append(oth, j)
				}
			}
			v := ps[c].vec
			sim := func(j int) float64 { return Cos(v, ps[j].vec) }
			sort.SliceStable(oth, func(x, y int) bool { return sim(oth[x]) > sim(oth[y]) })
			for k := 1; k < len(oth); k++ {
				// Not !(gap > tol): a NaN is a tie, too.
				if d := sim(oth[k-1]) - sim(oth[k]); !(d > 1e-6) {
					sure = false
					return
				}
			}
			for _, j := range oth {
				gone[j] = true
				ps[c].ids = append(ps[c].ids, ps[j].ids...)
				ps[c].pts = append(ps[c].pts, ps[j].pts...)
				if !inRange(len(ps[c].ids)) {
					break
				}
			}
			if len(ps[c].pts) > 0 {
				ps[c].vec = meanOf(ps[c].pts)
			}
		}
		var l [][]int
		for i := range ps {
			if !gone[i] {
				l = append(l, ps[i].ids)
			}
		}
		seen[groups(l)] = true
	}
	var perm func(k int)
	perm = func(k int) {
		if !sure {
			return
		}
		if k == len(cand) {
			run(cand)
			return
		}
		for i := k; i < len(cand); i++ {
			cand[k], cand[i] = cand[i], cand[k]
			perm(k + 1)
			cand[k], cand[i] = cand[i], cand[k]
		}
	}
	perm(0)
	var l []string
	for s := range seen {
		l = append(l, s)
	}
	sort.Strings(l)
	return l, sure && len(l) > 0
}

func nonzero(l []int) []int {
	var r []int
	for _, x := range l {
		if x != 0 {
			r = append(r, x)
		}
	}
	return r
}

var _ = runtime.SimNow

func hasInt(l []int, x int) bool {
	for _, y := range l {
		if y == x {
			return true
		}
	}
	return false
}
