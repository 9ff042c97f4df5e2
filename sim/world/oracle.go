package world

import (
	"fmt"
	"math"
	"sort"
	"strings"
	"time"

	"trypo/pkg/kmeans/centroidmanager"

	"verifsim/plan"
)

// ---- census ---------------------------------------------------------------

func ones(n int) []float64 {
	v := make([]float64, n)
	for i := range v {
		v[i] = 1
	}
	return v
}

// Namespaces of the workload.
func (w *World) namespaces() []string {
	m := map[string]bool{}
	for i := range w.P.Items {
		m[w.P.Items[i].NS] = true
	}
	for ci := range w.P.Clients {
		for oi := range w.P.Clients[ci].Ops {
			o := &w.P.Clients[ci].Ops[oi]
			switch o.K {
			case "put", "hput", "lput":
				m[o.NS] = true
			}
		}
	}
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func (w *World) dims() []int {
	m := map[int]bool{}
	for i := range w.P.Items {
		m[len(ItemVec(&w.P.Items[i]))] = true
	}
	var r []int
	for k := range m {
		r = append(r, k)
	}
	sort.Ints(r)
	return r
}

// TakeCensus asks every live node for everything it stores, through the same
// interface its users have.
func (w *World) TakeCensus() {
	w.Census, w.CensusErr = nil, nil
	for _, n := range w.Nodes {
		if n.Inc == nil || !n.Inc.Host.Alive || w.P.O("skipnode") == int64(n.ID+1) {
			continue
		}
		set := map[string]bool{}
		r := w.Do(&plan.Op{K: "nss", Node: n.ID})
		if !r.OK {
			w.CensusErr = append(w.CensusErr, fmt.Sprintf("node %d does not answer: %s", n.ID, r.Err))
			continue
		}
		for _, s := range r.Strs {
			set[s] = true
		}
		var all []string
		for s := range set {
			all = append(all, s)
		}
		sort.Strings(all)
		for _, ns := range all {
			for _, d := range w.dims() {
				q := w.Do(&plan.Op{K: "knn", Node: n.ID, NS: ns, Vec: ones(d), N: 3*len(w.P.Items) + 50})
				if !q.OK {
					w.CensusErr = append(w.CensusErr, fmt.Sprintf("node %d namespace %q: %s", n.ID, ns, q.Err))
					continue
				}
				for i := range q.DPs {
					w.Census = append(w.Census, CensusItem{n.ID, ns, q.IDs[i], q.DPs[i]})
				}
			}
		}
	}
}

// ---- what is known of each item -------------------------------------------

type fate struct {
	acked, refused, unknown int
	puts                    []*Rec
	handed                  []*Rec
	copies                  int
	where                   []int
}

func isPut(k string) bool { return k == "put" || k == "hput" || k == "lput" }

func isDrain(o *plan.Op) bool {
	switch o.K {
	case "drainU", "drainO":
		return true
	case "knn", "hq", "lget", "nc":
		return o.Drain
	case "odd":
		return strings.HasPrefix(o.S, "Drain") || o.Drain
	}
	return false
}

// Faulty: the plan injects faults that can lose a message or a node.
func (w *World) Faulty() bool {
	for i := range w.P.Faults {
		switch w.P.Faults[i].K {
		case "refuse", "slam", "dialtimeout", "cutreq", "cutrep", "crash", "crashdst", "crashsrc", "partition":
			return true
		}
	}
	return w.P.O("faulty") != 0
}

func (w *World) putOutcome(r *Rec) int { // 1 acked, 0 refused, -1 unknown
	if r.Ret == 0 {
		return -1
	}
	switch r.Op.K {
	case "put":
		if r.OK {
			return 1
		}
		if r.Err == "" {
			return 0
		}
		return -1
	case "hput":
		if r.Status == 200 {
			return 1
		}
		if r.Status != 0 && (!w.Faulty() || r.Status == 400) {
			return 0
		}
		return -1
	}
	if r.OK {
		return 1
	}
	if !w.Faulty() {
		return 0
	}
	return -1
}

func (w *World) fates() []fate {
	f := make([]fate, len(w.P.Items))
	for _, r := range w.Recs {
		if isPut(r.Op.K) {
			x := &f[r.Op.Item]
			x.puts = append(x.puts, r)
			switch w.putOutcome(r) {
			case 1:
				x.acked++
			case 0:
				x.refused++
			default:
				x.unknown++
			}
		}
		if isDrain(r.Op) {
			for _, id := range r.IDs {
				if id >= 0 {
					f[id].handed = append(f[id].handed, r)
				}
			}
		}
	}
	for i := range w.Census {
		if id := w.Census[i].ID; id >= 0 {
			f[id].copies++
			f[id].where = append(f[id].where, w.Census[i].Node)
		}
	}
	return f
}

// mayExpire: on some node's clock the item may have expired by time t.
func (w *World) mayExpire(id int, a, b int64) bool {
	it := &w.P.Items[id]
	if !it.ExpOn {
		return false
	}
	e := w.Expires(it).UnixNano()
	if w.Expires(it).IsZero() {
		return true
	}
	for _, n := range w.Nodes {
		if n.ClockMax(a, b) >= e {
			return true
		}
	}
	// Whoever takes whole partitions leaves out what has expired on its own
	// clock.
	for _, r := range w.Recs {
		if r.Op.K == "nc" && r.Op.Drain && r.TInv <= b && b >= e {
			return true
		}
	}
	return false
}

// lossy: namespaces in which a drain may have taken points without handing
// them to anyone the history knows of.
func (w *World) lossy() map[string]bool {
	m := map[string]bool{}
	for _, r := range w.Recs {
		if !isDrain(r.Op) {
			continue
		}
		if r.Ret == 0 || r.Err != "" || (r.Op.K == "hq" && r.Status != 200) {
			m[r.Op.NS] = true
			continue
		}
		if r.Op.K == "hq" || r.Op.K == "lget" {
			for _, f := range w.FaultEvs {
				if f.T >= r.TInv && f.T <= r.TRet && f.Method == "KNNLookup" {
					m[r.Op.NS] = true
				}
			}
			for i := range w.P.Faults {
				if strings.HasPrefix(w.P.Faults[i].K, "crash") || w.P.Faults[i].K == "partition" {
					m[r.Op.NS] = true
				}
			}
		}
	}
	return m
}

func (w *World) itemStr(i int) string {
	it := &w.P.Items[i]
	return fmt.Sprintf("item %d (namespace %q, vector %v)", i, it.NS, ItemVec(it))
}

// checkConserve: every acknowledged point is there, once; nothing else is.
func (w *World) checkConserve() {
	now := w.now()
	if len(w.CensusErr) > 0 {
		w.Violate("unreadable", "stored points cannot be read back after the run: %s", w.CensusErr[0])
		return
	}
	faulty := w.Faulty()
	lossy := w.lossy()
	budget := 0
	for _, f := range w.FaultEvs {
		if f.Method == "AddDataPoint" && (f.K == "cutrep" || f.K == "cutreq") || strings.HasPrefix(f.K, "crash") {
			budget++
		}
		if (f.Method == "/api/dp/put") && (f.K == "cutrep" || f.K == "cutreq") {
			budget++
		}
	}
	for i := range w.P.Faults {
		if strings.HasPrefix(w.P.Faults[i].K, "crash") {
			budget += 3
		}
		if w.P.Faults[i].K == "partition" {
			budget += 0
		}
	}
	extra := 0
	for i, f := range w.fates() {
		if len(f.puts) == 0 {
			if f.copies > 0 {
				w.Violate("phantom", "%s was never put but is stored", w.itemStr(i))
			}
			continue
		}
		exp := w.mayExpire(i, f.puts[0].TInv, now)
		if f.acked > 0 && f.copies == 0 && len(f.handed) == 0 && !exp && !lossy[w.P.Items[i].NS] && !w.crashLost(i) {
			w.Violate("lost", "%s was acknowledged (%s) but is stored nowhere at the end", w.itemStr(i), w.opStr(f.puts[0]))
		}
		if f.copies > 0 {
			for _, c := range w.Census {
				if c.ID == i && c.NS != w.P.Items[i].NS {
					w.Violate("wrong-namespace", "%s is stored in namespace %q", w.itemStr(i), c.NS)
				}
			}
		}
		if f.acked == 0 && f.unknown == 0 && f.copies+len(f.handed) > 0 {
			w.Violate("refused-stored", "%s was refused (%s, status %d) but is stored %d times and was handed out %d times",
				w.itemStr(i), w.opStr(f.puts[0]), f.puts[0].Status, f.copies, len(f.handed))
		}
		n := f.copies + len(f.handed)
		if n > f.acked+f.unknown {
			d := n - (f.acked + f.unknown)
			extra += d
			if !faulty {
				w.Violate("duplicated", "%s was put once but there are %d copies (nodes %v) and it was handed out %d times",
					w.itemStr(i), f.copies, f.where, len(f.handed))
			}
		}
	}
	if faulty && extra > budget {
		w.Violate("duplicated", "%d extra copies although only %d acknowledgements can have been lost", extra, budget)
	}
}

// crashLost: a crash excuses the loss of the item.
func (w *World) crashLost(id int) bool {
	for i, t := range w.CrashTab {
		if t[id] {
			return true
		}
		inc := w.CrashInc[i]
		for _, r := range w.Recs {
			if isDrain(r.Op) && r.Inc == inc && (r.Ret == 0 || r.Err != "") && r.Op.NS == w.P.Items[id].NS {
				return true
			}
		}
	}
	return false
}

// checkHandedOnce: what a drain returned never appears again.
func (w *World) checkHandedOnce() {
	budget := 0
	for _, f := range w.FaultEvs {
		if f.Method == "AddDataPoint" || f.Method == "/api/dp/put" {
			budget++
		}
	}
	if budget > 0 {
		return
	}
	fs := w.fates()
	for i, f := range fs {
		if len(f.handed) > 1 {
			w.Violate("handed-twice", "%s was handed out by %s and again by %s", w.itemStr(i), w.opStr(f.handed[0]), w.opStr(f.handed[1]))
		}
		if len(f.handed) > 0 && f.copies > 0 {
			w.Violate("came-back", "%s was handed out by %s but is stored on node(s) %v at the end", w.itemStr(i), w.opStr(f.handed[0]), f.where)
		}
	}
	for _, r := range w.Recs {
		switch r.Op.K {
		case "knn", "hq", "lget", "drainU", "drainO":
			if lim := max(r.Op.N, 0); len(r.IDs) > lim {
				w.Violate("too-many", "%s was to give %d points at most and gave %d", w.opStr(r), lim, len(r.IDs))
			}
		}
		seen := map[int]bool{}
		for _, id := range r.IDs {
			if id < 0 {
				continue
			}
			if seen[id] && (isDrain(r.Op)) {
				w.Violate("handed-twice", "%s appears twice in one answer of %s", w.itemStr(id), w.opStr(r))
			}
			seen[id] = true
			for _, h := range fs[id].handed {
				if h != r && h.Ret != 0 && h.Ret < r.Inv {
					w.Violate("came-back", "%s was handed out by %s and returned later by %s", w.itemStr(id), w.opStr(h), w.opStr(r))
				}
			}
		}
	}
}

// checkFidelity: every point returned is exactly one that was put.
func (w *World) checkFidelity() {
	one := func(where string, id int, d *DP) {
		if id < 0 {
			w.Violate("corrupt", "%s returned a point nobody put: vector %v, payload %d bytes", where, d.Vec, len(d.Payload))
			return
		}
		if s := w.Faithful(id, d); s != "" {
			w.Violate("corrupt", "%s returned item %d changed: %s", where, id, s)
		}
	}
	for _, r := range w.Recs {
		for i := range r.DPs {
			one(w.opStr(r), r.IDs[i], &r.DPs[i])
		}
	}
	for i := range w.Census {
		c := &w.Census[i]
		one(fmt.Sprintf("node %d", c.Node), c.ID, &c.DP)
	}
	// Everything acknowledged and unexpired must be there to be compared.
	w.checkConserve()
}

// checkNamespaces: nothing crosses a namespace.
func (w *World) checkNamespaces() {
	put := map[string]int64{} // namespace -> first put invoked
	for _, r := range w.Recs {
		if r.Op.K == "put" && r.Ret != 0 && r.Err == "" && !r.OK {
			continue // refused
		}
		if isPut(r.Op.K) {
			if _, ok := put[r.Op.NS]; !ok {
				put[r.Op.NS] = r.Inv
			}
		}
	}
	for _, r := range w.Recs {
		for _, id := range r.IDs {
			if id >= 0 && w.P.Items[id].NS != r.Op.NS {
				w.Violate("crossed", "%s in namespace %q returned %s", w.opStr(r), r.Op.NS, w.itemStr(id))
			}
			if id < 0 {
				w.Violate("crossed", "%s in namespace %q returned a point nobody put there", w.opStr(r), r.Op.NS)
			}
		}
		chk := func(ns, what string) {
			if at, ok := put[ns]; !ok || at > r.Ret {
				w.Violate("unknown-namespace", "%s of node %d lists namespace %q, in which nothing was ever put", what, r.Op.Node, ns)
			}
		}
		switch r.Op.K {
		case "nss":
			for _, s := range r.Strs {
				chk(s, "namespace list")
			}
		case "meta":
			for s := range r.Dps {
				chk(s, "metadata")
			}
			for s := range r.Cen {
				chk(s, "metadata")
			}
		case "lendp", "vec", "expire", "memtrim", "split", "merge", "dint", "drainU", "drainO", "knn", "ncv":
			if at, ok := put[r.Op.NS]; (!ok || at > r.Ret) && r.Err == "" {
				w.Violate("unknown-namespace", "%s succeeded in namespace %q, in which nothing was ever put", w.opStr(r), r.Op.NS)
			}
		}
	}
	for _, c := range w.Census {
		if c.ID >= 0 && w.P.Items[c.ID].NS != c.NS {
			w.Violate("crossed", "%s is stored in namespace %q of node %d", w.itemStr(c.ID), c.NS, c.Node)
		}
	}
	// Namespaces listed at the end.
	for _, n := range w.Nodes {
		if n.Inc == nil || !n.Inc.Host.Alive {
			continue
		}
		for _, s := range w.Do(&plan.Op{K: "nss", Node: n.ID}).Strs {
			if _, ok := put[s]; !ok {
				w.Violate("unknown-namespace", "node %d has namespace %q, in which nothing was ever put", n.ID, s)
			}
		}
	}
	w.checkConserve()
}

// checkExpiry: nothing expired is served or accepted, nothing else refused.
func (w *World) checkExpiry() {
	minAll := func(a, b int64) int64 {
		m := int64(math.MaxInt64)
		for _, n := range w.Nodes {
			if v := n.ClockMin(a, b); v < m {
				m = v
			}
		}
		return m
	}
	for _, r := range w.Recs {
		if r.Ret == 0 {
			continue
		}
		direct := r.Op.K != "hq" && r.Op.K != "lget" && r.Op.K != "hput" && r.Op.K != "lput"
		lo := minAll(r.TInv, r.TRet)
		if direct && r.Op.Node >= 0 && r.Op.Node < len(w.Nodes) {
			lo = w.Nodes[r.Op.Node].ClockMin(r.TInv, r.TRet)
		}
		switch r.Op.K {
		case "knn", "hq", "lget", "drainU", "drainO", "nc":
			if r.Op.K == "nc" {
				// By the clock of whoever asks.
				lo = min(lo, r.TInv+w.P.Opt[fmt.Sprintf("cwall%d", r.C)]*1e6)
			}
			for _, id := range r.IDs {
				if id < 0 || !w.P.Items[id].ExpOn {
					continue
				}
				if e := w.Expires(&w.P.Items[id]); e.UnixNano() < lo || e.IsZero() {
					w.Violate("served-expired", "%s returned %s, which expired %v before the request", w.opStr(r), w.itemStr(id), time.Duration(lo-e.UnixNano()))
				}
			}
		case "put", "hput", "lput":
			it := &w.P.Items[r.Op.Item]
			e := w.Expires(it)
			out := w.putOutcome(r)
			if it.ExpOn && (e.UnixNano() < lo || e.IsZero()) && out == 1 {
				w.Violate("accepted-expired", "%s accepted %s, which expired %v before the request", w.opStr(r), w.itemStr(r.Op.Item), time.Duration(lo-e.UnixNano()))
			}
			if out == 0 && !w.mayExpire(r.Op.Item, r.TInv, r.TRet) && w.P.O("dimclash") == 0 {
				w.Violate("refused-live", "%s refused %s (status %d), which has not expired", w.opStr(r), w.itemStr(r.Op.Item), r.Status)
			}
		}
	}
	now := w.now()
	for i := range w.Census {
		c := &w.Census[i]
		if c.ID < 0 || !w.P.Items[c.ID].ExpOn {
			continue
		}
		e := w.Expires(&w.P.Items[c.ID])
		if e.UnixNano() < w.Nodes[c.Node].ClockMin(w.censusT, now) {
			w.Violate("served-expired", "node %d still serves %s after it expired", c.Node, w.itemStr(c.ID))
		}
	}
	w.checkConserve()
}

// ---- completeness and ranking ----------------------------------------------

func norm(v []float64) float64 {
	s := 0.0
	for _, x := range v {
		s += x * x
	}
	return math.Sqrt(s)
}

// Cos is the similarity users rank by; a zero vector is similar to nothing.
func Cos(a, b []float64) float64 {
	na, nb := norm(a), norm(b)
	if na == 0 || nb == 0 {
		return 0
	}
	d := 0.0
	for i := range a {
		d += a[i] * b[i]
	}
	return d / na / nb
}

// liveAt: items certainly stored when r ran; ok is false when a put or drain
// in the namespace overlaps it.
func (w *World) liveAt(r *Rec) (live map[int]bool, ok bool) {
	live = map[int]bool{}
	for _, x := range w.Recs {
		if x == r || x.Op.NS != r.Op.NS {
			continue
		}
		if isPut(x.Op.K) {
			if x.Ret != 0 && x.Ret < r.Inv {
				switch w.putOutcome(x) {
				case 1:
					live[x.Op.Item] = true
				case -1:
					return nil, false
				}
			} else if x.Inv < r.Ret {
				return nil, false
			}
		}
	}
	for _, x := range w.Recs {
		if x == r || x.Op.NS != r.Op.NS || !isDrain(x.Op) {
			continue
		}
		if x.Ret != 0 && x.Ret < r.Inv {
			if x.Err != "" {
				return nil, false
			}
			for _, id := range x.IDs {
				delete(live, id)
			}
		} else if x.Inv < r.Ret {
			return nil, false
		}
	}
	for id := range live {
		if w.mayExpire(id, r.TInv, r.TRet) {
			delete(live, id)
			e := w.Expires(&w.P.Items[id])
			for _, n := range w.Nodes {
				if !e.IsZero() && n.ClockMin(r.TInv, r.TRet) < e.UnixNano() {
					return nil, false // it expires meanwhile
				}
			}
		}
	}
	return live, true
}

// checkComplete: a query over settled data returns as many points as exist.
func (w *World) checkComplete() {
	for _, r := range w.Recs {
		switch r.Op.K {
		case "knn", "hq", "lget":
		default:
			continue
		}
		if r.Op.X&1 == 0 {
			continue
		}
		if r.Ret == 0 || !r.OK {
			w.Violate("query-failed", "%s failed: status %d, %s", w.opStr(r), r.Status, r.Err)
			continue
		}
		live, ok := w.liveAt(r)
		if !ok {
			continue
		}
		m := 0
		for id := range live {
			if len(ItemVec(&w.P.Items[id])) == len(r.Op.Vec) {
				m++
			}
		}
		want := r.Op.N
		if want < 0 {
			want = 0
		}
		if m < want {
			want = m
		}
		note("complete", 1)
		seen := map[int]bool{}
		for _, id := range r.IDs {
			if id < 0 || !live[id] {
				w.Violate("not-stored", "%s returned item %d, which is not stored", w.opStr(r), id)
			} else if seen[id] {
				w.Violate("repeated", "%s returned item %d twice", w.opStr(r), id)
			}
			seen[id] = true
		}
		if len(r.IDs) != want {
			w.Violate("incomplete", "%s asked for %d of %d stored points and got %d", w.opStr(r), r.Op.N, m, len(r.IDs))
		}
	}
}

const rankTol = 1e-9

// checkRank: answers are the most similar points, best first.
func (w *World) checkRank() {
	for _, r := range w.Recs {
		if r.Op.X&2 == 0 || r.Ret == 0 {
			continue
		}
		if !r.OK {
			w.Violate("query-failed", "%s failed: status %d, %s", w.opStr(r), r.Status, r.Err)
			continue
		}
		live, ok := w.liveAt(r)
		if !ok {
			continue
		}
		note("ranked", 1)
		ref := r.Op.Vec
		sign := 1.0
		if r.Op.K == "drainO" {
			// Least similar to the mean of what is stored.
			ref = nil
			for id := range live {
				v := ItemVec(&w.P.Items[id])
				if ref == nil {
					ref = make([]float64, len(v))
				}
				for i := range v {
					ref[i] += v[i] / float64(len(live))
				}
			}
			sign = -1
			if ref == nil || norm(ref) < 1e-3 {
				continue
			}
		}
		got := map[int]bool{}
		worst := math.Inf(1)
		prev := math.Inf(1)
		for _, id := range r.IDs {
			if id < 0 {
				continue
			}
			got[id] = true
			s := sign * Cos(ref, ItemVec(&w.P.Items[id]))
			if s > prev+rankTol && r.Op.K != "drainO" {
				w.Violate("misordered", "%s returned item %d (similarity %g) after one of %g", w.opStr(r), id, s, prev)
			}
			prev = s
			if s < worst {
				worst = s
			}
		}
		tol := rankTol
		if r.Op.K == "drainO" {
			tol = 1e-6
		}
		var ids []int
		for id := range live {
			ids = append(ids, id)
		}
		sort.Ints(ids)
		for _, id := range ids {
			if got[id] || len(r.IDs) == 0 {
				continue
			}
			if s := sign * Cos(ref, ItemVec(&w.P.Items[id])); s > worst+tol {
				w.Violate("not-best", "%s left out item %d (score %g) but returned one of %g", w.opStr(r), id, s, worst)
				break
			}
		}
	}
	w.checkComplete()
}

// ---- one node as an atomic store -------------------------------------------

// checkLinear: per namespace, the history of the single node has a sequential
// explanation against a set with put, count, query and take.
func (w *World) checkLinear() {
	for _, ns := range w.namespaces() {
		var ops []*Rec
		puts := 0
		for _, r := range w.Recs {
			if r.Op.NS != ns && r.Op.K != "meta" && r.Op.K != "nss" {
				continue
			}
			switch r.Op.K {
			case "put":
				puts++
			case "lendp", "knn", "drainU", "drainO", "meta", "nss":
			default:
				continue
			}
			if r.Ret == 0 {
				return
			}
			ops = append(ops, r)
		}
		if len(ops) > 62 {
			panic("harness: history too long")
		}
		note("linops", int64(len(ops)))
		if msg := w.linearize(ns, ops); msg != "" {
			w.Violate("not-atomic", "namespace %q: %s", ns, msg)
		}
	}
}

func (w *World) linearize(ns string, ops []*Rec) string {
	sort.SliceStable(ops, func(i, j int) bool { return ops[i].Inv < ops[j].Inv })
	n := len(ops)
	if n == 0 {
		return ""
	}
	full := uint64(1)<<uint(n) - 1
	seen := map[uint64]bool{}
	best := 0
	var bestStuck []string
	state := map[int]bool{}
	made := 0 // puts applied: the namespace exists
	var rec func(done uint64, cnt int) bool
	rec = func(done uint64, cnt int) bool {
		if done == full {
			return true
		}
		if seen[done] {
			return false
		}
		seen[done] = true
		if len(seen) > 2000000 {
			return true // undecided: never an alarm
		}
		// The earliest return among pending operations bounds who may be next.
		minRet := int64(math.MaxInt64)
		for i, r := range ops {
			if done&(1<<uint(i)) == 0 && r.Ret < minRet {
				minRet = r.Ret
			}
		}
		var stuck []string
		for i, r := range ops {
			if done&(1<<uint(i)) != 0 || r.Inv > minRet {
				continue
			}
			undo, why := w.step(ns, r, state, &made)
			if why != "" {
				stuck = append(stuck, fmt.Sprintf("%s: %s", w.opStr(r), why))
				continue
			}
			if rec(done|1<<uint(i), cnt+1) {
				return true
			}
			undo()
		}
		if cnt >= best {
			best, bestStuck = cnt, stuck
		}
		return false
	}
	if rec(0, 0) {
		return ""
	}
	return fmt.Sprintf("no sequential order explains the answers; after %d of %d operations: %s", best, n, strings.Join(bestStuck, "; "))
}

func (w *World) step(ns string, r *Rec, st map[int]bool, made *int) (undo func(), why string) {
	nop := func() {}
	absent := *made == 0
	switch r.Op.K {
	case "put":
		if !r.OK {
			return nop, ""
		}
		id := r.Op.Item
		st[id] = true
		*made++
		return func() { delete(st, id); *made-- }, ""
	case "lendp":
		if !r.OK {
			if !absent {
				return nil, "failed (" + r.Err + ") though the namespace exists"
			}
			return nop, ""
		}
		if r.N != len(st) || absent {
			return nil, fmt.Sprintf("counted %d, there are %d", r.N, len(st))
		}
		return nop, ""
	case "nss":
		has := false
		for _, s := range r.Strs {
			has = has || s == ns
		}
		if has == absent {
			return nil, fmt.Sprintf("namespace listed: %v, exists: %v", has, !absent)
		}
		return nop, ""
	case "meta":
		c, has := r.Dps[ns]
		if has == absent {
			// Listed and counted in two steps.
			return nil, fmt.Sprintf("namespace in metadata: %v, exists: %v", has, !absent)
		}
		if c != len(st) {
			return nil, fmt.Sprintf("metadata counts %d, there are %d", c, len(st))
		}
		return nop, ""
	case "knn", "drainU", "drainO":
		if !r.OK {
			if !absent {
				return nil, "failed (" + r.Err + ") though the namespace exists"
			}
			return nop, ""
		}
		if absent {
			return nil, "answered before the namespace existed"
		}
		want := r.Op.N
		if want > len(st) {
			want = len(st)
		}
		if len(r.IDs) != want {
			return nil, fmt.Sprintf("returned %d points, want %d of %d stored", len(r.IDs), want, len(st))
		}
		seen := map[int]bool{}
		for _, id := range r.IDs {
			if id < 0 || !st[id] {
				return nil, fmt.Sprintf("returned item %d, which is not stored", id)
			}
			if seen[id] {
				return nil, fmt.Sprintf("returned item %d twice", id)
			}
			seen[id] = true
		}
		if r.Op.K == "knn" && !r.Op.Drain {
			return nop, ""
		}
		ids := r.IDs
		for _, id := range ids {
			delete(st, id)
		}
		return func() {
			for _, id := range ids {
				st[id] = true
			}
		}, ""
	}
	return nop, ""
}

// ---- white-box looks at a quiet node ----------------------------------------

// Snap is a node's partitions in one namespace.
type Snap struct {
	Vec  []float64
	Vecs [][]float64
	IDs  [][]int
	Pts  [][][]float64
	OK   bool
}

func (s *Snap) Len() int {
	n := 0
	for _, g := range s.IDs {
		n += len(g)
	}
	return n
}

// SnapOf reads the partitions of a node through its exported table.
func (w *World) SnapOf(n *Node, ns string) Snap {
	var s Snap
	if n.Inc == nil || n.Inc.Srv == nil || !n.Inc.Host.Alive {
		return s
	}
	s.OK = n.Inc.Srv.Table.Access(ns, func(cm *centroidmanager.CentroidManager) {
		s.Vec = append([]float64(nil), cm.Vec()...)
		for _, c := range cm.Centroids {
			s.Vecs = append(s.Vecs, append([]float64(nil), c.Vec()...))
			var g []int
			var p [][]float64
			for i := range c.DataPoints {
				g = append(g, w.Identify(&c.DataPoints[i]))
				p = append(p, append([]float64(nil), c.DataPoints[i].Vec...))
			}
			s.IDs = append(s.IDs, g)
			s.Pts = append(s.Pts, p)
		}
	})
	return s
}

func finite(v []float64) bool {
	for _, x := range v {
		if math.IsNaN(x) || math.IsInf(x, 0) {
			return false
		}
	}
	return true
}

func meanOf(vs [][]float64) []float64 {
	if len(vs) == 0 {
		return nil
	}
	m := make([]float64, len(vs[0]))
	for _, v := range vs {
		if len(v) != len(m) {
			return nil
		}
		for i := range v {
			m[i] += v[i]
		}
	}
	for i := range m {
		m[i] /= float64(len(vs))
	}
	return m
}

func near(a, b []float64, scale float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if math.Abs(a[i]-b[i]) > 1e-6*(1+scale) {
			return false
		}
	}
	return true
}

// checkMeans: what nodes advertise is the mean of what they store.
func (w *World) checkMeans() {
	scale := 0.0
	for i := range w.P.Items {
		for _, x := range ItemVec(&w.P.Items[i]) {
			scale = math.Max(scale, math.Abs(x))
		}
	}
	for _, n := range w.Nodes {
		for _, ns := range w.namespaces() {
			s := w.SnapOf(n, ns)
			if !s.OK {
				continue
			}
			w.means(n, ns, &s, scale)
			r := w.Do(&plan.Op{K: "vec", Node: n.ID, NS: ns})
			if !r.OK || !near(r.Vec, s.Vec, scale) {
				w.Violate("wrong-mean", "node %d namespace %q advertises %v but holds %v (%s)", n.ID, ns, r.Vec, s.Vec, r.Err)
			}
		}
	}
}

func (w *World) means(n *Node, ns string, s *Snap, scale float64) {
	note("means", 1)
	if !finite(s.Vec) {
		w.Violate("wrong-mean", "node %d namespace %q advertises %v", n.ID, ns, s.Vec)
		return
	}
	for i, p := range s.Pts {
		if len(p) == 0 {
			continue
		}
		if m := meanOf(p); !near(m, s.Vecs[i], scale) {
			w.Violate("wrong-mean", "node %d namespace %q partition %d of %d points has mean %v but claims %v", n.ID, ns, i, len(p), m, s.Vecs[i])
			return
		}
	}
	if len(s.Vecs) > 0 {
		if m := meanOf(s.Vecs); !near(m, s.Vec, scale) {
			w.Violate("wrong-mean", "node %d namespace %q: mean of its %d partitions is %v but it advertises %v", n.ID, ns, len(s.Vecs), m, s.Vec)
		}
	}
}
