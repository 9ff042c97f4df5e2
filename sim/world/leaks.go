package world

import (
	"bytes"
	"fmt"
	"log"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"

	"trypo/core/eventloop"
	"trypo/pkg/kmeans/centroidmanager"

	"verifsim/plan"
)

// ---- what requests leave behind ------------------------------------------------

// checkLeaks: at rest, no connection and no goroutine is left of the requests
// that were made, whether they were answered or failed.
func (w *World) checkLeaks() {
	// Connections attempted into the void end after some minutes.
	for i := 0; i < 60 && w.leak() != ""; i++ {
		time.Sleep(10 * time.Second)
	}
	if s := w.leak(); s != "" {
		w.Violate("left-behind", "%d s after all requests ended, faults were over and loops were stopped: %s", (w.now()-w.restT)/1e9, s)
	}
	note("leaks", 1)
}

func (w *World) leak() string {
	for _, n := range w.Nodes {
		for k, inc := range n.Incs {
			if !inc.Host.Alive {
				continue
			}
			what := fmt.Sprintf("node %d", n.ID)
			want := w.idle(n)
			if k < len(n.Incs)-1 {
				// Stopped and started again elsewhere in memory.
				what, want = fmt.Sprintf("node %d (stopped)", n.ID), 0
			} else if w.stopped(n) {
				what, want = fmt.Sprintf("node %d (stopped)", n.ID), 0
			}
			if c := w.Net.OpenClientConns(inc.Host); c > 0 {
				return fmt.Sprintf("%s still holds %d connections it opened", what, c)
			}
			if g := runtime.SimGoroutines(inc.Tag); g > want {
				return fmt.Sprintf("%s still runs %d goroutines, %d before the first request", what, g, want)
			}
		}
	}
	for ci := range w.P.Clients {
		tag := uint32(clientTag + ci)
		if h := w.Net.HostOf(tag); h != nil {
			if c := w.Net.OpenClientConns(h); c > 0 {
				return fmt.Sprintf("the library calls of client %d left %d connections open", ci, c)
			}
		}
		if g := runtime.SimGoroutines(tag); g > 0 {
			return fmt.Sprintf("the library calls of client %d left %d goroutines", ci, g)
		}
	}
	return ""
}

// stopped: the last thing done to the node was an orderly stop.
func (w *World) stopped(n *Node) bool {
	s := false
	for _, r := range w.Recs {
		if r.Op.Node == n.ID {
			switch r.Op.K {
			case "nstop":
				s = true
			case "nstart":
				s = false
			}
		}
	}
	return s
}

// idle is what the node ran before anyone asked anything of it.
func (w *World) idle(n *Node) int {
	k := w.base[n.ID]
	if n.Cfg.EL != nil {
		k-- // the loop has been stopped
	}
	return k
}

// baseline counts the goroutines of idle nodes.
func (w *World) baseline() {
	w.base = map[int]int{}
	for _, n := range w.Nodes {
		if n.Inc != nil {
			w.base[n.ID] = runtime.SimGoroutines(n.Inc.Tag)
		}
	}
}

// ---- what nodes and loops report -------------------------------------------------

// layout is what a node really holds at one instant.
type layout struct {
	up  bool
	dps map[string]int
	cen map[string]int
}

type layoutEv struct {
	T     int64
	Nodes []layout
}

func (w *World) layoutOf(n *Node) layout {
	l := layout{dps: map[string]int{}, cen: map[string]int{}}
	if !w.up(n) || n.Inc.Srv == nil {
		return l
	}
	l.up = true
	for _, ns := range n.Inc.Srv.Table.Namespaces() {
		n.Inc.Srv.Table.Access(ns, func(cm *centroidmanager.CentroidManager) {
			l.cen[ns] = len(cm.Centroids)
			l.dps[ns] = 0
			for _, c := range cm.Centroids {
				l.dps[ns] += len(c.DataPoints)
			}
		})
	}
	return l
}

// takeLayout is the operation "snap": a look at all nodes while nothing runs.
func (w *World) takeLayout() {
	e := layoutEv{T: w.now()}
	for _, n := range w.Nodes {
		e.Nodes = append(e.Nodes, w.layoutOf(n))
	}
	w.Layouts = append(w.Layouts, e)
}

// mutes: operations that change nothing stored.
func mutes(k string) bool {
	switch k {
	case "snap", "sleep", "bar", "meta", "lendp", "nss", "vec", "ncv", "emfile", "clock", "elstop", "elstart":
		return true
	}
	return false
}

// still is the layout that holds from a to b, if nothing changed meanwhile.
func (w *World) still(a, b int64) *layoutEv {
	for i := len(w.Layouts) - 1; i >= 0; i-- {
		e := &w.Layouts[i]
		if e.T > a {
			continue
		}
		for _, r := range w.Recs {
			if !mutes(r.Op.K) && r.TInv <= b && (r.Ret == 0 || r.TRet >= e.T) {
				return nil
			}
		}
		return e
	}
	return nil
}

func same(a, b map[string]int) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if x, ok := b[k]; !ok || x != v {
			return false
		}
	}
	return true
}

// hit: a fault may have kept a from asking b in the interval.
func (w *World) hit(src, dst int, a, b int64) bool {
	for _, f := range w.FaultEvs {
		if f.Src == src && f.Dst == dst && f.T >= a-int64(time.Second) && f.T <= b {
			return true
		}
	}
	return false
}

// checkReports: metadata is true.
func (w *World) checkReports() {
	for _, r := range w.Recs {
		if r.Ret == 0 || r.Op.Node < 0 || r.Op.Node >= len(w.Nodes) {
			continue
		}
		switch r.Op.K {
		case "meta", "lendp", "nss":
		default:
			continue
		}
		e := w.still(r.TInv, r.TRet)
		if e == nil || r.Err != "" && r.Op.K != "lendp" {
			continue
		}
		l := &e.Nodes[r.Op.Node]
		note("reports", 1)
		switch r.Op.K {
		case "meta":
			if !same(r.Dps, l.dps) || !same(r.Cen, l.cen) {
				w.Violate("untrue", "%s reports %v datapoints in %v partitions, the node holds %v in %v", w.opStr(r), r.Dps, r.Cen, l.dps, l.cen)
			}
		case "lendp":
			if r.Err == "" && r.N != l.dps[r.Op.NS] {
				w.Violate("untrue", "%s reports %d datapoints in namespace %q, the node holds %d", w.opStr(r), r.N, r.Op.NS, l.dps[r.Op.NS])
			}
		case "nss":
			m := map[string]bool{}
			for _, s := range r.Strs {
				m[s] = true
			}
			ok := len(m) == len(r.Strs) && len(m) == len(l.dps)
			for s := range l.dps {
				ok = ok && m[s]
			}
			if !ok {
				w.Violate("untrue", "%s lists namespaces %q, the node has %v", w.opStr(r), r.Strs, l.dps)
			}
		}
	}
	for _, n := range w.Nodes {
		if n.Inc == nil || n.Cfg.EL == nil || len(n.Incs) != 1 {
			continue
		}
		if n.Cfg.DefLog != 0 {
			w.printed(n)
			continue
		}
		w.logged(n)
	}
}

// askedAt is when the loop began to ask for the metadata it had at time t.
func (w *World) askedAt(n *Node, prev, t int64) int64 {
	for _, c := range w.Calls {
		if c.Src == n.ID && c.M == "Meta" && c.T > prev && c.T <= t {
			return c.T - int64(time.Second)
		}
	}
	return prev
}

func (w *World) remotes(n *Node) []int {
	if n.Cfg.EL.LocalOnly {
		return []int{n.ID}
	}
	if len(n.Cfg.EL.Remotes) > 0 {
		return n.Cfg.EL.Remotes
	}
	var r []int
	for i := range w.Nodes {
		r = append(r, i)
	}
	return r
}

func (w *World) logged(n *Node) {
	prev := w.T0
	for _, m := range n.Inc.Log.Metas {
		a := w.askedAt(n, prev, m.T)
		if a < prev {
			a = prev
		}
		prev = m.T
		want := map[eventloop.Addr]int{}
		for _, i := range w.remotes(n) {
			want[rpcAddr(i)] = i
		}
		for ad := range m.M.Items {
			if _, ok := want[ad]; !ok {
				w.Violate("untrue", "the loop of node %d logged metadata of %s, which it was not to ask", n.ID, ad.ToStr())
			}
		}
		e := w.still(a, m.T)
		if e == nil {
			continue
		}
		var as []int
		for _, i := range want {
			as = append(as, i)
		}
		sort.Ints(as)
		for _, i := range as {
			it, ok := m.M.Items[rpcAddr(i)]
			l := &e.Nodes[i]
			note("logged", 1)
			if !l.up || w.hit(n.ID, i, a, m.T) {
				if len(it.LenDP) > 0 && !same(it.LenDP, l.dps) {
					w.Violate("untrue", "the loop of node %d logged %v datapoints for node %d, which it could not ask", n.ID, it.LenDP, i)
				}
				continue
			}
			if !ok || !same(it.LenDP, l.dps) || !same(it.LenCentroids, l.cen) {
				w.Violate("untrue", "the loop of node %d logged (there: %v) %v datapoints in %v partitions for node %d, which holds %v in %v",
					n.ID, ok, it.LenDP, it.LenCentroids, i, l.dps, l.cen)
				return
			}
		}
	}
}

// ---- the default logger --------------------------------------------------------

type printedLine struct {
	T   int64
	Tag uint32
	S   string
}

type logTap struct{ w *World }

func (t logTap) Write(b []byte) (int, error) {
	for _, s := range bytes.Split(b, []byte("\n")) {
		if len(s) > 0 {
			t.w.Printed = append(t.w.Printed, printedLine{runtime.SimNow(), runtime.SimTag(), string(s)})
		}
	}
	return len(b), nil
}

// tapLog keeps what is printed with package log.
func (w *World) tapLog() {
	log.SetFlags(0)
	log.SetOutput(logTap{w})
}

// printed: what the default logger shows of the nodes is true.
func (w *World) printed(n *Node) {
	starts := []int64{w.T0}
	for _, c := range w.Calls {
		if c.Src == n.ID && c.M == "Meta" {
			starts = append(starts, c.T)
		}
	}
	want := map[int]bool{}
	for _, i := range w.remotes(n) {
		want[i] = true
	}
	shown := map[int][]int64{}
	defer func() { w.allShown(n, want, shown) }()
	for _, p := range w.Printed {
		if p.Tag != n.Inc.Tag || !strings.HasPrefix(p.S, "[") || !strings.Contains(p.S, "dps:") {
			continue
		}
		f := strings.FieldsFunc(p.S, func(r rune) bool { return r == ' ' || r == '|' || r == ':' && false })
		at := strings.Trim(f[0], "[]")
		var num [3]int
		ok := true
		for i, k := range []string{"namespaces:", "centroids:", "dps:"} {
			j := -1
			for x := range f {
				if f[x] == k {
					j = x + 1
				}
			}
			if j < 1 || j >= len(f) {
				ok = false
				break
			}
			v, err := strconv.Atoi(f[j])
			ok = ok && err == nil
			num[i] = v
		}
		if !ok {
			continue
		}
		id := w.NodeOf(at)
		if id < 0 || !want[id] {
			w.Violate("untrue", "the default logger of node %d shows %q, which it was not to ask", n.ID, p.S)
			return
		}
		shown[id] = append(shown[id], p.T)
		// The figures are from the last round of questions, which may have
		// begun with a node that cannot be asked.
		k := sort.Search(len(starts), func(i int) bool { return starts[i] > p.T }) - 1
		k -= len(want)
		if k < 0 {
			k = 0
		}
		e := w.still(starts[k], p.T)
		if e == nil {
			continue
		}
		l := &e.Nodes[id]
		if w.hit(n.ID, id, starts[k], p.T) {
			continue
		}
		if !l.up {
			note("printed-down", 1)
			if num != [3]int{} {
				w.Violate("untrue", "the default logger of node %d shows %q, but node %d cannot be asked", n.ID, p.S, id)
				return
			}
			continue
		}
		note("printed", 1)
		d, c := 0, 0
		for _, x := range l.dps {
			d += x
		}
		for _, x := range l.cen {
			c += x
		}
		if num != [3]int{len(l.dps), c, d} {
			w.Violate("untrue", "the default logger of node %d shows %q, node %d holds %d datapoints in %d partitions of %d namespaces", n.ID, p.S, id, d, c, len(l.dps))
			return
		}
	}
}

// allShown: once the loop has metadata, every task shows all of it.
func (w *World) allShown(n *Node, want map[int]bool, shown map[int][]int64) {
	if len(w.P.Faults) > 0 || len(w.Viol) > 0 {
		return
	}
	// (Its own address is always among the addresses, as documented.)
	self := len(n.Cfg.EL.Remotes) == 0
	for _, i := range n.Cfg.EL.Remotes {
		self = self || i == n.ID
	}
	if !self {
		return
	}
	for _, r := range w.Recs {
		if r.Op.K == "crash" {
			return
		}
	}
	for _, x := range w.Nodes {
		if x.Cfg.Slow > 1 {
			return
		}
	}
	const slack = int64(5 * time.Second)
	asked, known := map[int]bool{}, int64(0)
	for _, c := range w.Calls {
		if c.Src != n.ID {
			continue
		}
		switch c.M {
		case "Meta":
			asked[c.Dst] = true
			if known == 0 && len(asked) == len(want) {
				known = c.T + slack
			}
		case "SplitCentroids", "MergeCentroids", "Expire", "MemTrim", "DistributeDataPointsFast", "DistributeDataPointsInternal", "DistributeDataPointsAccurate":
			if known == 0 || c.T < known || w.censusT > 0 && c.T > w.censusT {
				continue
			}
			note("allshown", 1)
			for i := range want {
				ts := shown[i]
				k := sort.Search(len(ts), func(k int) bool { return ts[k] >= c.T-slack })
				if k == len(ts) || ts[k] > c.T+slack {
					w.Violate("untrue", "the default logger of node %d shows nothing of node %d within %d s of its task at t=%.3f", n.ID, i, slack/1e9, float64(c.T-w.T0)/1e9)
					return
				}
			}
		}
	}
}

var _ = plan.Op{}
