package world

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	stdrpc "net/rpc"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"

	"trypo/core/dps"
	"trypo/pkg/arbiter"
	"trypo/pkg/kmeans/rpc"
	"trypo/pkg/searchutils"

	narbcommon "github.com/crunchypi/go-narb/apsa/common"

	"verifsim/plan"
	"verifsim/simnet"
)

const clientTag = 600

// client runs one client's operations.
func (w *World) client(ci int, allDone chan struct{}) {
	tag := uint32(clientTag + ci)
	runtime.SimSetTag(tag)
	if w.Net.HostOf(tag) == nil {
		w.Net.AddHost(1000+ci, tag)
	}
	if off := w.P.Opt[fmt.Sprintf("cwall%d", ci)]; off != 0 {
		runtime.SimSetWall(tag, off*1e6)
	}
	ops := w.P.Clients[ci].Ops
	for oi := range ops {
		op := &ops[oi]
		if op.Wait > 0 {
			time.Sleep(time.Duration(op.Wait) * time.Microsecond)
		}
		if op.K == "bar" {
			w.barrier(op.N)
			continue
		}
		w.do(ci, oi, op)
	}
	w.done--
	w.barCheck()
	if w.done == 0 {
		close(allDone)
	}
}

// barrier waits until every client reached barrier number k or finished.
func (w *World) barrier(k int) {
	b := w.bar[k]
	if b == nil {
		b = &barrier{ch: make(chan struct{})}
		w.bar[k] = b
	}
	b.n++
	w.barCheck()
	<-b.ch
}

func (w *World) barCheck() {
	waiting := 0
	var ks []int
	for k, b := range w.bar {
		waiting += b.n
		if b.n > 0 {
			ks = append(ks, k)
		}
	}
	if waiting == 0 || waiting < w.done {
		return
	}
	sort.Ints(ks)
	// Only the lowest barrier opens; clients at later ones keep waiting.
	b := w.bar[ks[0]]
	b.n = 0
	delete(w.bar, ks[0])
	close(b.ch)
}

// Do runs an operation outside of the clients (census, probes).
func (w *World) Do(op *plan.Op) *Rec { return w.do(-1, -1, op) }

func (w *World) do(ci, oi int, op *plan.Op) *Rec {
	r := &Rec{C: ci, I: oi, Op: op, Inv: w.seq(), TInv: runtime.SimNow()}
	if ci >= 0 {
		w.Recs = append(w.Recs, r)
	}
	var n *Node
	if op.Node >= 0 && op.Node < len(w.Nodes) {
		n = w.Nodes[op.Node]
		r.Inc = n.Inc
		r.Up0 = w.serving(n)
	}
	var before []Snap
	var incs []*Inc
	if op.X&64 != 0 && (op.K == "lget" || op.K == "hq" || op.K == "knn") {
		for _, n := range w.Nodes {
			incs = append(incs, n.Inc)
		}
		before = w.snapAll(op.NS)
	}
	w.exec(r, op, n)
	for i := range r.DPs {
		r.IDs = append(r.IDs, w.Identify(&r.DPs[i]))
	}
	if before != nil {
		w.surviving(r, before, incs)
	}
	r.TRet = runtime.SimNow()
	r.Ret = w.seq()
	if n != nil {
		r.IncEnd = n.Inc
		r.Up1 = w.serving(n)
	}
	return r
}

func (w *World) addrs(ids []int) []string {
	r := make([]string, 0, len(ids))
	for _, i := range ids {
		if i >= 0 && i < len(w.Nodes) {
			r = append(r, w.Nodes[i].Addr)
		} else {
			r = append(r, "localhost:"+strconv.Itoa(7000+i))
		}
	}
	return r
}

func (w *World) arbAddrs(ids []int) []arbiter.Addr {
	r := make([]arbiter.Addr, 0, len(ids))
	for _, i := range ids {
		r = append(r, rpcAddr(i))
	}
	return r
}

func (w *World) exec(r *Rec, op *plan.Op, n *Node) {
	var err error
	defer func() {
		if err != nil {
			r.Err = err.Error()
		}
	}()
	switch op.K {
	case "sleep":
		time.Sleep(time.Duration(op.X) * time.Microsecond)
		r.OK = true
		return
	case "nstop": // orderly stop of a node's listener
		if n.Inc != nil && n.Inc.Stop != nil {
			n.Inc.Stop()
			n.Inc.Stopped = true
			r.OK = true
		}
		return
	case "restop": // stopping what was stopped before, once more
		if k := len(n.Incs) - 1 - op.N; k >= 0 && n.Incs[k].Stop != nil {
			n.Incs[k].Stop()
			r.OK = true
		}
		return
	case "nstart":
		w.boot(n)
		r.OK = n.Inc.Err == ""
		r.Err = n.Inc.Err
		return
	case "crash":
		w.crash(n, -1, 0)
		r.OK = true
		return
	case "stall": // a pause of the whole node, right now
		if n.Inc != nil {
			w.Net.Fired["stall"]++
			runtime.SimSetStall(n.Inc.Tag, runtime.SimNow()+op.X*1000)
			r.OK = true
		}
		return
	case "elstop":
		if n.Inc != nil && n.Inc.ELStop != nil {
			n.Inc.ELStop()
			r.OK = true
		}
		return
	case "emfile":
		w.Net.ArmEMFILE(n.ID, op.N)
		r.OK = true
		return
	case "clock":
		w.Net.Fired["clockjump"]++
		n.setClock(n.off() + op.X*1e6)
		r.OK = true
		return
	case "lput", "lget":
		w.lib(r, op)
		return
	case "pput", "pget", "pdist", "psteal", "pnc", "pncv", "psplit", "pmerge":
		seen := len(w.Viol)
		w.composite(r, op)
		if w.P.O("mortal") != 0 {
			// Comparing before with after makes no sense once points expire.
			for id := range w.P.Items {
				if w.mayExpire(id, 0, runtime.SimNow()) {
					w.Viol = w.Viol[:seen]
					break
				}
			}
		}
		return
	case "snap":
		w.takeLayout()
		r.OK = true
		return
	case "means":
		w.checkMeans()
		return
	case "elstart":
		if n.Inc != nil && n.Inc.Host.Alive && n.Cfg.EL2 != nil {
			w.startEL(n, n.Cfg.EL2)
			r.OK = true
		}
		return
	case "hput", "hq":
		w.http(r, op, n)
		return
	case "raw":
		w.raw(r, op, n)
		return
	case "odd":
		w.odd(r, op, n, &err)
		return
	case "arbforce", "arbget", "arbinit", "arbcollect":
		w.arb(r, op)
		return
	}
	c, at := w.asker(r, n, op.NS, &err)
	defer func() { err = *at }()
	switch op.K {
	case "put":
		r.OK = c.AddDataPoint(w.ItemDP(op.Item))
	case "knn":
		r.DPs = c.KNNLookup(op.Vec, op.N, op.Drain)
		r.OK = *at == nil
	case "drainU":
		r.DPs = c.DrainUnordered(op.N)
		r.OK = *at == nil
	case "drainO":
		r.DPs = c.DrainOrdered(op.N)
		r.OK = *at == nil
	case "lendp":
		r.N = c.LenDP()
		r.OK = *at == nil
	case "meta":
		m := c.Meta()
		r.Cen, r.Dps = m.Centroids, m.DPs
		r.OK = *at == nil
	case "nss":
		r.Strs = c.Namespaces()
		sort.Strings(r.Strs)
		r.OK = *at == nil
	case "vec":
		r.Vec = c.Vec()
		r.OK = *at == nil
	case "ncv":
		r.Vec = c.NearestCentroidVec(op.Vec)
		r.OK = *at == nil
	case "nc":
		cs, ok := c.NearestCentroids(op.Vec, op.N, op.Drain)
		r.OK = *at == nil && ok
		for _, x := range cs {
			var g []int
			for i := range x.DataPoints {
				g = append(g, w.Identify(&x.DataPoints[i]))
				r.DPs = append(r.DPs, x.DataPoints[i])
			}
			r.Groups = append(r.Groups, g)
		}
	case "expire":
		c.Expire()
		r.OK = *at == nil
	case "memtrim":
		c.MemTrim()
		r.OK = *at == nil
	case "movevec":
		r.OK = c.MoveVector()
	case "split":
		c.SplitCentroids(op.N, op.M)
		r.OK = *at == nil
	case "merge":
		c.MergeCentroids(op.N, op.M)
		r.OK = *at == nil
	case "dint":
		c.DistributeDataPointsInternal(op.N)
		r.OK = *at == nil
	case "dfast":
		c.DistributeDataPointsFast(w.addrs(op.Addrs), op.N)
		r.OK = *at == nil
	case "dacc":
		c.DistributeDataPointsAccurate(w.addrs(op.Addrs), op.N)
		r.OK = *at == nil
	case "steal":
		from := "localhost:7999"
		if len(op.Addrs) > 0 {
			from = w.addrs(op.Addrs[:1])[0]
		}
		r.N, r.OK = c.StealCentroids(from, op.N)
	default:
		panic("harness: unknown operation " + op.K)
	}
}

// lib calls the client-side library of core/dps.
func (w *World) lib(r *Rec, op *plan.Op) {
	addrs := w.arbAddrs(op.Addrs)
	if op.K == "lput" {
		a := dps.PutDataPointArgs{AddrOptions: addrs, Namespace: op.NS, DataPoint: w.ItemDP(op.Item), KNNSearchFunc: searchutils.KNNCos}
		switch op.S {
		case "fast":
			r.OK = dps.PutDataPointFast(a)
		case "acc":
			r.OK = dps.PutDataPointAccurate(a)
		default:
			r.OK = dps.PutDataPointRand(a)
		}
		return
	}
	a := dps.GetDataPointsArgs{AddrOptions: addrs, Namespace: op.NS, QueryVec: op.Vec, N: op.N, Drain: op.Drain, KNNSearchFunc: searchutils.KNNCos}
	switch op.S {
	case "fast":
		r.DPs = dps.GetDataPointsFast(a)
	case "acc":
		r.DPs = dps.GetDataPointsAccurate(a)
	default:
		r.DPs = dps.GetDataPointsRand(a)
	}
	r.OK = true
}

type jsonDP struct {
	Vec           []float64 `json:"vec"`
	Payload       []byte    `json:"payload"`
	Expires       time.Time `json:"expires"`
	ExpireEnabled bool      `json:"expireEnabled"`
}

// PutBody is the request a client sends to store an item. Every other one
// leaves out what has its zero value anyway.
func (w *World) PutBody(op *plan.Op) []byte {
	d := w.ItemDP(op.Item)
	lean := op.Item%2 == 1
	dp := map[string]interface{}{"vec": d.Vec}
	if !lean || d.Payload != nil {
		dp["payload"] = d.Payload
	}
	if !lean || !d.Expires.IsZero() {
		dp["expires"] = d.Expires
	}
	if !lean || d.ExpireEnabled {
		dp["expireEnabled"] = d.ExpireEnabled
	}
	m := map[string]interface{}{"dp": dp}
	if !lean || op.NS != "" {
		m["namespace"] = op.NS
	}
	if !lean || op.Acc {
		m["accurate"] = op.Acc
	}
	b, err := json.Marshal(m)
	if err != nil {
		panic("harness: " + err.Error())
	}
	return b
}

// QueryBody is the request a client sends to query.
func (w *World) QueryBody(op *plan.Op, drain bool) []byte {
	lean := (op.N+int(op.Wait))%2 == 1
	m := map[string]interface{}{"queryVec": op.Vec}
	if !lean || op.NS != "" {
		m["namespace"] = op.NS
	}
	if !lean || op.Acc {
		m["accurate"] = op.Acc
	}
	if !lean || op.N != 0 {
		m["n"] = op.N
	}
	if !lean || drain {
		m["drain"] = drain
	}
	b, _ := json.Marshal(m)
	return b
}

// Request frames an HTTP request, with a content length or in chunks.
func (w *World) Request(path, host string, body []byte, chunked, closing bool) []byte {
	var o bytes.Buffer
	fmt.Fprintf(&o, "POST %s HTTP/1.1\r\nHost: %s\r\nContent-Type: application/json\r\n", path, host)
	if closing {
		o.WriteString("Connection: close\r\n")
	}
	if !chunked {
		fmt.Fprintf(&o, "Content-Length: %d\r\n\r\n", len(body))
		o.Write(body)
		return o.Bytes()
	}
	o.WriteString("Transfer-Encoding: chunked\r\n\r\n")
	for i, k := 0, 1; i < len(body); k = k*3 + 2 {
		n := k
		if n > len(body)-i {
			n = len(body) - i
		}
		fmt.Fprintf(&o, "%x\r\n%s\r\n", n, body[i:i+n])
		i += n
	}
	o.WriteString("0\r\n\r\n")
	return o.Bytes()
}

// HTTPPost is one request on its own connection.
func (w *World) HTTPPost(addr, path string, body []byte, chunked bool) (int, []byte, error) {
	c, err := net.Dial("tcp", addr)
	if err != nil {
		return 0, nil, err
	}
	defer c.Close()
	if _, err := c.Write(w.Request(path, addr, body, chunked, true)); err != nil {
		return 0, nil, err
	}
	rsp, err := http.ReadResponse(bufio.NewReader(c), nil)
	if err != nil {
		return 0, nil, err
	}
	b, err := io.ReadAll(rsp.Body)
	return rsp.StatusCode, b, err
}

func (w *World) http(r *Rec, op *plan.Op, n *Node) {
	var body []byte
	path := "/api/dp/put"
	if op.K == "hput" {
		body = w.PutBody(op)
	} else {
		path = "/api/dp/query"
		body = w.QueryBody(op, op.Drain)
	}
	st, b, err := w.HTTPPost(n.API, path, append(body, op.Raw...), op.M&1 == 1)
	r.Status = st
	if err != nil {
		r.Err = err.Error()
		return
	}
	r.OK = st == 200
	if op.K == "hq" && st == 200 {
		var l []jsonDP
		if err := json.Unmarshal(b, &l); err != nil {
			r.OK = false
			r.Err = "bad reply: " + err.Error()
			return
		}
		for _, d := range l {
			r.DPs = append(r.DPs, DP{Vec: d.Vec, Payload: d.Payload, Expires: d.Expires, ExpireEnabled: d.ExpireEnabled})
		}
	}
}

// raw sends bytes. S selects the port and what happens after: rpc/api,
// then close, abort, hold (keep open for X us) or read (expect a reply).
func (w *World) raw(r *Rec, op *plan.Op, n *Node) {
	addr := n.Addr
	if op.M == 1 {
		addr = n.API
	}
	c, err := net.Dial("tcp", addr)
	if err != nil {
		r.Err = err.Error()
		return
	}
	data := op.Raw
	if op.Acc { // a put request (or, given a vector, a draining query) cut short
		path, b := "/api/dp/put", []byte(nil)
		if len(op.Vec) > 0 {
			path, b = "/api/dp/query", w.QueryBody(op, true)
		} else {
			b = w.PutBody(op)
		}
		// Whitespace after the document: a cut may leave the document whole,
		// but the request still is not.
		b = append(b, op.Raw...)
		data = w.Request(path, "x", b, op.Drain, op.S == "read")
		// Never all of it.
		data = data[:len(data)-1-op.N%(len(data)-1)]
	}
	if len(data) > 0 {
		c.Write(data)
	}
	switch op.S {
	case "crowd": // many connections, which others need not wait for
		all := []net.Conn{c}
		for len(all) < op.N {
			c, err := net.Dial("tcp", addr)
			if err != nil {
				break
			}
			c.Write(data)
			all = append(all, c)
		}
		go func() {
			time.Sleep(time.Duration(op.X) * time.Microsecond)
			for _, c := range all {
				c.Close()
			}
		}()
	case "abort":
		time.Sleep(time.Duration(op.X) * time.Microsecond)
		c.(*simnet.Conn).Abort()
	case "hold":
		time.Sleep(time.Duration(op.X) * time.Microsecond)
		c.Close()
	case "read":
		c.SetReadDeadline(time.Now().Add(30 * time.Second))
		rsp, err := http.ReadResponse(bufio.NewReader(c), nil)
		if err != nil {
			r.Err = err.Error()
		} else {
			r.Status = rsp.StatusCode
			b, _ := io.ReadAll(rsp.Body)
			r.Strs = []string{string(bytes.TrimSpace(b))}
		}
		c.Close()
	default:
		c.Close()
	}
	r.OK = true
}

// oddAddrs are no addresses, or nobody's.
var oddAddrs = []string{"", "x", "localhost", ":", "::", "[::1]", "localhost:", "localhost:x", "localhost:70000", ":::", "[", "]", "[]:", "a b:1", "localhost:7000:1",
	"http://localhost:1", "\x00", "\xff\xfe", "localhost:-1", strings.Repeat("a", 300) + ":1"}

// odd sends well-formed requests with unusual arguments.
func (w *World) odd(r *Rec, op *plan.Op, n *Node, err *error) {
	c, e := stdrpc.Dial("tcp", n.Addr)
	if e != nil {
		*err = e
		return
	}
	defer c.Close()
	var dpr []DP
	var ok bool
	var num int
	var vec []float64
	switch op.S {
	case "KNNLookup":
		e = c.Call("KMeansServer."+op.S, rpc.KNNLookupArgs{NameSpace: op.NS, Vec: op.Vec, K: op.N, Drain: op.Drain}, &dpr)
	case "DrainUnordered", "DrainOrdered":
		e = c.Call("KMeansServer."+op.S, rpc.DrainArgs{NameSpace: op.NS, N: op.N}, &dpr)
	case "NearestCentroids":
		var cs []*rpc.Centroid
		e = c.Call("KMeansServer."+op.S, rpc.NearestCentroidArgs{NameSpace: op.NS, Vec: op.Vec, N: op.N, Drain: op.Drain}, &cs)
		for _, x := range cs {
			if x != nil {
				dpr = append(dpr, x.DataPoints...)
			}
		}
	case "NearestCentroidVec":
		e = c.Call("KMeansServer."+op.S, rpc.NearestCentroidVecArgs{NameSpace: op.NS, Vec: op.Vec}, &vec)
	case "DistributeDataPointsFast", "DistributeDataPointsAccurate":
		a := w.addrs(op.Addrs)
		if op.M == 1 {
			a = append(a, "nonsense", "", ":", "localhost:")
		}
		if op.X > 0 {
			k := op.X % int64(len(oddAddrs))
			a = append(append([]string{}, oddAddrs[k:]...), a...)
		}
		e = c.Call("KMeansServer."+op.S, rpc.DistribDPArgs{NameSpace: op.NS, N: op.N, AddrOptions: a}, nil)
	case "DistributeDataPointsInternal":
		e = c.Call("KMeansServer."+op.S, rpc.DistribDPIArgs{NameSpace: op.NS, N: op.N}, nil)
	case "SplitCentroids", "MergeCentroids":
		e = c.Call("KMeansServer."+op.S, rpc.SplitCentroidsArgs{NameSpace: op.NS, DPRangeMin: op.N, DPRangeMax: op.M}, nil)
	case "StealCentroid":
		from := "nonsense"
		if op.X > 0 {
			from = oddAddrs[op.X%int64(len(oddAddrs))]
		}
		if len(op.Addrs) > 0 {
			from = w.addrs(op.Addrs[:1])[0]
		}
		var resp rpc.StealCentroidsResp
		e = c.Call("KMeansServer."+op.S, rpc.StealCentroidArgs{FromAddr: from, NameSpace: op.NS, TransferDPLimit: op.N}, &resp)
		num = resp.TransferredN
	case "AddDataPoint":
		e = c.Call("KMeansServer."+op.S, rpc.AddDataPointArgs{NameSpace: op.NS, DP: DP{Vec: op.Vec, Payload: op.Raw}}, &ok)
	case "NoSuchMethod":
		e = c.Call("KMeansServer."+op.S, 1, &num)
	case "Vec":
		e = c.Call("KMeansServer.Vec", op.NS, &vec)
	case "Mistyped":
		e = c.Call("KMeansServer.KNNLookup", map[string]int{"NameSpace": 3}, &dpr)
	}
	r.DPs, r.OK, r.N, r.Vec = dpr, e == nil, num, vec
	if op.S == "AddDataPoint" {
		r.OK = ok
	}
	*err = e
}

// members are the nodes which may become arbiter, as n is told.
func (w *World) members(n *Node) []int {
	if len(n.Cfg.Members) > 0 {
		return n.Cfg.Members
	}
	var r []int
	for i := range w.Nodes {
		r = append(r, i)
	}
	return r
}

// summaries: what the summaries say of the members' answers is true.
func (w *World) summaries(r *Rec, errs arbiter.ArbErrs, stats arbiter.ArbStats) {
	var failed []string
	for a, e := range errs {
		if e != nil {
			failed = append(failed, a.ToStr())
		}
	}
	sort.Strings(failed)
	a, e := errs.CheckAll()
	note("arbsummary", 1)
	switch {
	case len(failed) == 0 && (e != nil || a != arbiter.Addr{}):
		w.Violate("untrue-summary", "%s: all members answered, the summary names %s (%v)", w.opStr(r), a.ToStr(), e)
	case len(failed) > 0 && (e == nil || errs[a] != e):
		w.Violate("untrue-summary", "%s: %v failed, the summary names %s (%v)", w.opStr(r), failed, a.ToStr(), e)
	}
	for s := -1; s < 12; s++ {
		all := true
		for _, x := range stats {
			all = all && int(x) == s
		}
		if got := stats.UniformStatus(arbiter.StatusCode(s)); got != all {
			w.Violate("untrue-summary", "%s: answers of the members %v, uniformly %d: %v", w.opStr(r), stats, s, got)
		}
	}
}

// arb drives the arbitration sessions.
func (w *World) arb(r *Rec, op *plan.Op) {
	var addrs []arbiter.Addr
	for _, i := range op.Addrs {
		addrs = append(addrs, arbAddr(i))
	}
	errs, stats := make(arbiter.ArbErrs), make(arbiter.ArbStats)
	cs := arbiter.ArbiterClients(addrs, errs, stats)
	r.Extra = map[string]int64{}
	switch op.K {
	case "arbforce":
		r.OK = cs.TryForceNewArbiter(op.N)
	case "arbget":
		var err error
		a := arbiter.ArbiterClient(addrs[0], &err).Arbiter()
		st := a.Status
		r.Status = int(st)
		r.OK = err == nil && st == narbcommon.StatusOK
		if err != nil {
			r.Err = err.Error()
		}
		if r.OK {
			r.Strs = []string{a.Addr.ToStr()}
			r.Extra["exp"] = a.Expiration.UnixNano()
		}
	}
	if op.K == "arbforce" {
		w.summaries(r, errs, stats)
		for a, st := range stats {
			for _, i := range op.Addrs {
				if str(arbAddr(i)) != str(a) || st != narbcommon.StatusInvalidSessionMembers {
					continue
				}
				known := true
				for _, j := range op.Addrs {
					known = known && hasInt(w.members(w.Nodes[i]), j)
				}
				if known {
					r.Extra["refused"] = 1
				}
			}
		}
		if _, err := errs.CheckAll(); err != nil {
			r.Err = err.Error()
		}
		if stats.UniformStatus(narbcommon.StatusOK) {
			r.Extra["uniform"] = 1
		}
	}
}
