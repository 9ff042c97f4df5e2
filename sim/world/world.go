// Package world runs one plan: it boots the nodes on the simulated network,
// runs the clients' operations and the fault schedule, settles, takes a census
// and leaves a history for the oracles.
package world

import (
	"encoding/binary"
	"fmt"
	"hash/fnv"
	"math"
	"net/http"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"

	"trypo/cfg"
	"trypo/core/api"
	"trypo/core/eventloop"
	"trypo/pkg/arbiter"
	"trypo/pkg/kmeans/centroidmanager"
	"trypo/pkg/kmeans/common"
	"trypo/pkg/kmeans/rpc"

	narbrpc "github.com/crunchypi/go-narb/apsa/rpc"

	"verifsim/plan"
	"verifsim/simnet"
	"verifsim/svc"
)

type DP = common.DataPoint

// Inc is one incarnation of a node: what would be one process.
type Inc struct {
	Tag     uint32
	Host    *simnet.Host
	Srv     *rpc.KMeansServer
	Stop    func()
	ELStop  func()
	ELCfg   *eventloop.EventLoopConfig
	Log     *elog
	Mux     *http.ServeMux
	Up      bool
	Stopped bool // by nstop
	Err     string
	Arb     *arbiter.ArbiterServer
}

// Node is an address that incarnations serve on.
type Node struct {
	ID       int
	Cfg      plan.NodeCfg
	Addr     string // RPC
	API      string
	Arb      string
	Inc      *Inc
	Incs     []*Inc
	clock    []clk // wall clock offsets over time
	Attempts int
}

type clk struct{ t, off int64 }

// Rec is one operation of the history.
type Rec struct {
	C, I       int
	Op         *plan.Op
	Inv, Ret   int64 // event numbers; Ret 0: never returned
	TInv, TRet int64 // simulated ns
	OK         bool
	Err        string
	N          int
	Status     int
	DPs        []DP
	IDs        []int // identified items
	Vec        []float64
	Strs       []string
	Cen, Dps   map[string]int
	Groups     [][]int
	Inc        *Inc
	IncEnd     *Inc
	Up0, Up1   bool // the node served before and after
	Extra      map[string]int64
}

// World is the state of a run.
type World struct {
	P          *plan.Plan
	Net        *simnet.Net
	Nodes      []*Node
	Recs       []*Rec
	Seq        int64
	T0         int64
	byPay      map[string]int
	byVec      map[string]int
	Viol       []Violation
	done       int
	bar        map[int]*barrier
	kept       map[string]*kept
	nextTag    uint32
	Notes      map[string]int64
	Calls      []CallEv
	tagNode    map[uint32]*Inc
	incNode    map[*Inc]*Node
	CrashTab   []map[int]bool // per crash: items on the crashed node
	CrashInc   []*Inc
	CrashSeq   []int64
	Census     []CensusItem
	CensusErr  []string
	Dup        int
	FaultEvs   []FaultEv
	EndClients int64
	censusT    int64
	logKeep    []string
	restT      int64
	base       map[int]int
	Layouts    []layoutEv
	Printed    []printedLine
}

// FaultEv is a request-anchored fault that fired.
type FaultEv struct {
	T        int64
	Seq      int64
	K        string
	Src, Dst int
	Method   string
}

// CallEv is a request delivered on the network.
type CallEv struct {
	T        int64
	Seq      int64
	Src, Dst int
	M        string
}

// CensusItem is one copy of a point found at the end.
type CensusItem struct {
	Node int
	NS   string
	ID   int // -1: nobody put it
	DP   DP
}

// Violation is a broken property.
type Violation struct {
	Class string
	Msg   string
}

type barrier struct {
	n  int
	ch chan struct{}
}

// W is the run in progress.
var W *World

func note(k string, d int64) { W.Notes[k] += d }

// Violate records a violation.
func (w *World) Violate(class, f string, a ...interface{}) {
	w.Viol = append(w.Viol, Violation{Class: class, Msg: fmt.Sprintf(f, a...)})
}

type elog struct {
	n     *Node
	inc   *Inc
	Tasks []CallEv
	Metas []metaEv
}

type metaEv struct {
	T int64
	M eventloop.MetaData
}

func (l *elog) LogTask(s string) {
	l.Tasks = append(l.Tasks, CallEv{T: runtime.SimNow(), M: s})
}
func (l *elog) LogMeta(m eventloop.MetaData) {
	l.Metas = append(l.Metas, metaEv{runtime.SimNow(), m})
}

func rpcAddr(i int) arbiter.Addr { return arbiter.Addr{IP: "localhost", Port: strconv.Itoa(4000 + i)} }
func apiAddr(i int) arbiter.Addr { return arbiter.Addr{IP: "localhost", Port: strconv.Itoa(5000 + i)} }
func arbAddr(i int) arbiter.Addr { return arbiter.Addr{IP: "localhost", Port: strconv.Itoa(6000 + i)} }

func str(a arbiter.Addr) string { return a.ToStr() }

func vecKey(v []float64) string {
	b := make([]byte, 0, 8*len(v)+1)
	for _, x := range v {
		b = binary.LittleEndian.AppendUint64(b, math.Float64bits(x))
	}
	return string(b)
}

// ItemVec is an item's vector.
func ItemVec(it *plan.Item) []float64 {
	if len(it.VecHex) > 0 {
		v := make([]float64, len(it.VecHex))
		for i, s := range it.VecHex {
			u, _ := strconv.ParseUint(s, 16, 64)
			v[i] = math.Float64frombits(u)
		}
		return v
	}
	return it.Vec
}

// Expires is an item's expiry on the reference clock.
func (w *World) Expires(it *plan.Item) time.Time {
	if it.ExpMS == 0 && it.ExpNS == 0 {
		return time.Time{}
	}
	t := time.Unix(0, w.T0+it.ExpMS*1e6+it.ExpNS)
	return t.In(time.FixedZone("", it.ZoneMin*60))
}

// ItemDP is the point a client puts for an item.
func (w *World) ItemDP(i int) DP {
	it := &w.P.Items[i]
	d := DP{Vec: append([]float64(nil), ItemVec(it)...), ExpireEnabled: it.ExpOn, Expires: w.Expires(it)}
	if !it.NilPay {
		d.Payload = itemPay(it)
	}
	return d
}

// itemPay is the payload of an item: what the plan says, and filling.
func itemPay(it *plan.Item) []byte {
	r := make([]byte, len(it.Payload), len(it.Payload)+it.Pad)
	copy(r, it.Payload)
	x := uint32(it.Pad)
	for i := 0; i < it.Pad; i++ {
		x = x*1664525 + 1013904223
		r = append(r, byte(x>>24))
	}
	return r
}

// Identify finds which item a point is a copy of.
func (w *World) Identify(d *DP) int {
	if len(d.Payload) > 0 {
		if i, ok := w.byPay[string(d.Payload)]; ok && i >= 0 {
			return i
		} else if !ok {
			return -1
		}
	}
	if i, ok := w.byVec[vecKey(d.Vec)]; ok {
		return i
	}
	return -1
}

// Faithful tells how a returned point differs from what was put.
func (w *World) Faithful(i int, d *DP) string {
	it := &w.P.Items[i]
	want := w.ItemDP(i)
	if vecKey(want.Vec) != vecKey(d.Vec) {
		return fmt.Sprintf("vector %v came back as %v", want.Vec, d.Vec)
	}
	if string(want.Payload) != string(d.Payload) {
		return fmt.Sprintf("payload of %d bytes came back as %d bytes", len(want.Payload), len(d.Payload))
	}
	if it.ExpOn != d.ExpireEnabled {
		return fmt.Sprintf("expiry enabled=%v came back as %v", it.ExpOn, d.ExpireEnabled)
	}
	if !want.Expires.Equal(d.Expires) {
		return fmt.Sprintf("expiry time %v came back as %v", want.Expires, d.Expires)
	}
	return ""
}

// New prepares a run.
func New(p *plan.Plan) *World {
	w := &World{P: p, byPay: map[string]int{}, byVec: map[string]int{}, bar: map[int]*barrier{}, kept: map[string]*kept{},
		nextTag: 1, Notes: map[string]int64{}, tagNode: map[uint32]*Inc{}, incNode: map[*Inc]*Node{}}
	W = w
	pay := func(it *plan.Item) string {
		if it.NilPay {
			return ""
		}
		return string(itemPay(it))
	}
	for i := range p.Items {
		k := pay(&p.Items[i])
		if _, dup := w.byPay[k]; dup || k == "" {
			w.byPay[k] = -1 // known by the vector
		} else {
			w.byPay[k] = i
		}
	}
	for i := range p.Items {
		if it := &p.Items[i]; w.byPay[pay(it)] < 0 {
			w.byVec[vecKey(ItemVec(it))] = i
		}
	}
	for i := range p.Nodes {
		n := &Node{ID: i, Cfg: p.Nodes[i], Addr: str(rpcAddr(i)), API: str(apiAddr(i)), Arb: str(arbAddr(i))}
		if n.Cfg.Service {
			n.Addr, n.API = "localhost:3500", "localhost:3501"
		}
		w.Nodes = append(w.Nodes, n)
	}
	return w
}

func (w *World) seq() int64 { w.Seq++; return w.Seq }

// NodeOf maps an address to a node.
func (w *World) NodeOf(addr string) int {
	i := strings.LastIndexByte(addr, ':')
	p, err := strconv.Atoi(addr[i+1:])
	if err != nil {
		return -1
	}
	switch {
	case p == 3500 || p == 3501:
		for _, n := range w.Nodes {
			if n.Cfg.Service {
				return n.ID
			}
		}
	case p >= 4000 && p < 4000+len(w.Nodes):
		return p - 4000
	case p >= 5000 && p < 5000+len(w.Nodes):
		return p - 5000
	case p >= 6000 && p < 6000+len(w.Nodes):
		return p - 6000
	}
	return -1
}

// ClockMin and ClockMax bound a node's wall clock over an interval of
// simulated time.
func (n *Node) ClockMin(a, b int64) int64 { return n.clockB(a, b, true) }
func (n *Node) ClockMax(a, b int64) int64 { return n.clockB(a, b, false) }

func (n *Node) clockB(a, b int64, min bool) int64 {
	best := int64(0)
	first := true
	upd := func(v int64) {
		if first || min && v < best || !min && v > best {
			best, first = v, false
		}
	}
	for i, c := range n.clock {
		end := int64(math.MaxInt64)
		if i+1 < len(n.clock) {
			end = n.clock[i+1].t
		}
		s := c.t
		if s < a {
			s = a
		}
		e := end
		if e > b {
			e = b
		}
		if s <= e {
			upd(s + c.off)
			upd(e + c.off)
		}
	}
	return best
}

func (n *Node) setClock(off int64) {
	n.clock = append(n.clock, clk{runtime.SimNow(), off})
	if n.Inc != nil {
		runtime.SimSetWall(n.Inc.Tag, off)
	}
}

func (n *Node) off() int64 {
	if len(n.clock) == 0 {
		return 0
	}
	return n.clock[len(n.clock)-1].off
}

func elCfg(w *World, n *Node, e *plan.ELCfg) *eventloop.EventLoopConfig {
	var remote []eventloop.Addr
	if len(e.Remotes) > 0 {
		for _, i := range e.Remotes {
			remote = append(remote, rpcAddr(i))
		}
	} else {
		for i := range w.P.Nodes {
			remote = append(remote, rpcAddr(i))
		}
	}
	return &eventloop.EventLoopConfig{
		LocalAddr: rpcAddr(n.ID), RemoteAddrs: remote,
		TimeoutLoop: time.Duration(e.LoopMS) * time.Millisecond,
		TimeoutStep: time.Duration(e.StepMS) * time.Millisecond,
		TaskSkip: eventloop.EventLoopTaskSkipConfig{
			Expire: e.Expire, MemTrim: e.MemTrim, DistributeDataPointsFast: e.Fast,
			DistributeDataPointsAccurate: e.Acc, DistributeDataPointsInternal: e.Int,
			SplitCentroids: e.Split, MergeCentroids: e.Merge, LoadBalancing: e.LB, Meta: e.Meta,
		},
		DistributeDataPointsFastN: e.FastN, DistributeDataPointsAccurateN: e.AccN,
		DistributeDataPointsInternalN: e.IntN,
		SplitCentroidsMin:             e.SplitMin, SplitCentroidsMax: e.SplitMax,
		MergeCentroidsMin: e.MergeMin, MergeCentroidsMax: e.MergeMax,
		LogLocalOnly: e.LocalOnly,
	}
}

// boot starts an incarnation of a node.
func (w *World) boot(n *Node) {
	inc := &Inc{Tag: w.nextTag, Mux: http.NewServeMux()}
	w.nextTag++
	inc.Host = w.Net.AddHost(n.ID, inc.Tag)
	w.tagNode[inc.Tag] = inc
	w.incNode[inc] = n
	n.Inc = inc
	n.Incs = append(n.Incs, inc)
	n.setClock(n.off())
	runtime.SimSetSlow(inc.Tag, uint32(n.Cfg.Slow))
	ready := make(chan struct{})
	go func() {
		runtime.SimSetTag(inc.Tag)
		defer close(ready)
		if n.Cfg.Service {
			cfg.ELT.L = nil
			if n.Cfg.EL != nil {
				e := elCfg(w, n, n.Cfg.EL)
				e.LocalAddr, e.RemoteAddrs = cfg.LocalAddrRPC, cfg.OtherAddrRPC
				cfg.ELT = *e
			}
			if n.Cfg.Threshold > 0 {
				cfg.KMEANS_CENTROID_DP_THRESHOLD = n.Cfg.Threshold
			}
			go svc.Main()
			return
		}
		if n.Cfg.ArbMS > 0 {
			var wl []arbiter.Addr
			for _, i := range w.members(n) {
				wl = append(wl, arbAddr(i))
			}
			inc.Arb = arbiter.NewArbiterServer(arbiter.NewSessionMemberConfig{
				LocalAddr: arbAddr(n.ID), Whitelist: wl,
				SessionDuration: time.Duration(n.Cfg.SessMS) * time.Millisecond,
				ArbiterDuration: time.Duration(n.Cfg.ArbMS) * time.Millisecond,
			})
			if _, err := narbrpc.StartListen(inc.Arb, arbAddr(n.ID)); err != nil {
				inc.Err = err.Error()
			}
		}
		thr, icap := n.Cfg.Threshold, n.Cfg.InitCap
		inc.Srv = rpc.NewKMeansServer(n.Addr, func(vec []float64) *centroidmanager.CentroidManager {
			cm, ok := centroidmanager.NewCentroidManager(centroidmanager.NewCentroidManagerArgs{
				InitVec: vec, InitCap: icap, CentroidDPThreshold: thr,
				KNNSearchFunc: cfg.KNN_SEARCH_FUNC, KFNSearchFunc: cfg.KFN_SEARCH_FUNC,
			})
			if !ok {
				panic("harness: no centroid manager")
			}
			return &cm
		})
		stop, err := rpc.StartListen(inc.Srv)
		if err != nil {
			inc.Err = err.Error()
			return
		}
		inc.Stop = stop
		inc.Up = true
		if n.Cfg.EL != nil {
			w.startEL(n, n.Cfg.EL)
			if ms := n.Cfg.EL.StopMS; ms > 0 {
				go func() {
					time.Sleep(time.Duration(ms) * time.Millisecond)
					inc.ELStop()
				}()
			}
		}
		if n.Cfg.API {
			addrs := make([]arbiter.Addr, 0)
			for i := range w.Nodes {
				addrs = append(addrs, rpcAddr(i))
			}
			if len(n.Cfg.RPCAddrs) > 0 {
				addrs = addrs[:0]
				for _, i := range n.Cfg.RPCAddrs {
					addrs = append(addrs, rpcAddr(i))
				}
			}
			go func() {
				err := api.Start(api.APIConfig{Addr: apiAddr(n.ID), RPCAddrs: addrs,
					ReadTimeout: 5 * time.Second, WriteTimeout: 5 * time.Second})
				if err != nil {
					inc.Err = err.Error()
				}
			}()
		}
	}()
	<-ready
}

func (w *World) startEL(n *Node, e *plan.ELCfg) {
	inc := n.Inc
	tag := runtime.SimTag()
	runtime.SimSetTag(inc.Tag)
	inc.ELCfg = elCfg(w, n, e)
	inc.Log = &elog{n: n, inc: inc}
	if n.Cfg.DefLog == 0 {
		inc.ELCfg.L = inc.Log
	}
	inc.ELStop = eventloop.EventLoop(inc.ELCfg)
	runtime.SimSetTag(tag)
}

// crash kills a node's current incarnation.
func (w *World) crash(n *Node, downUS int64, wallMS int64) {
	inc := n.Inc
	if inc == nil || !inc.Host.Alive {
		return
	}
	w.Net.Fired["crash"]++
	w.Net.Crash(inc.Host)
	inc.Up = false
	tab := map[int]bool{}
	if inc.Srv != nil {
		for _, ns := range inc.Srv.Table.Namespaces() {
			inc.Srv.Table.Access(ns, func(cm *centroidmanager.CentroidManager) {
				for _, c := range cm.Centroids {
					for i := range c.DataPoints {
						if id := w.Identify(&c.DataPoints[i]); id >= 0 {
							tab[id] = true
						}
					}
				}
			})
		}
	}
	w.CrashTab = append(w.CrashTab, tab)
	w.CrashInc = append(w.CrashInc, inc)
	w.CrashSeq = append(w.CrashSeq, w.seq())
	if downUS >= 0 {
		time.Sleep(time.Duration(downUS) * time.Microsecond)
		if wallMS != 0 {
			n.setClock(n.off() + wallMS*1e6)
		}
		w.Net.Fired["restart"]++
		w.boot(n)
	}
}

// fault carries out a time-anchored fault.
func (w *World) fault(f *plan.Fault) {
	time.Sleep(time.Duration(f.AtUS) * time.Microsecond)
	if w.ended() {
		return
	}
	n := w.Nodes[f.Node%len(w.Nodes)]
	switch f.K {
	case "crash":
		d := f.DurUS
		if f.X == -1 {
			d = -1
		}
		w.crash(n, d, f.X*boolInt(f.X > 0))
	case "clockjump":
		w.Net.Fired["clockjump"]++
		n.setClock(n.off() + f.X*1e6)
	case "stall":
		if n.Inc != nil {
			w.Net.Fired["stall"]++
			runtime.SimSetStall(n.Inc.Tag, runtime.SimNow()+f.DurUS*1000)
		}
	case "slow":
		if n.Inc != nil {
			w.Net.Fired["slow"]++
			t := n.Inc.Tag
			runtime.SimSetSlow(t, uint32(f.X))
			time.Sleep(time.Duration(f.DurUS) * time.Microsecond)
			runtime.SimSetSlow(t, uint32(n.Cfg.Slow))
		}
	case "emfile":
		w.Net.ArmEMFILE(n.ID, int(f.X))
	}
}

func boolInt(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

func (w *World) ended() bool { return w.EndClients != 0 }

// Run executes the plan.
func (w *World) Run() {
	p := w.P
	w.Net = simnet.New(p.Seed, p.Net, p.Faults)
	w.T0 = runtime.SimNow()
	simnet.NodeOfPort = w.NodeOf
	w.Net.OnCall = func(src, dst int, m string) {
		w.Calls = append(w.Calls, CallEv{runtime.SimNow(), w.Seq, src, dst, m})
	}
	w.Net.OnFault = func(f *plan.Fault, src, dst int, m string) {
		w.FaultEvs = append(w.FaultEvs, FaultEv{runtime.SimNow(), w.Seq, f.K, src, dst, m})
	}
	w.Net.CrashHook = func(node int, f *plan.Fault) {
		if node >= 0 && node < len(w.Nodes) && !w.ended() {
			d := int64(f.X) * 1000
			if f.X < 0 {
				d = -1
			}
			w.crash(w.Nodes[node], d, 0)
		}
	}
	w.Net.AddHost(1900, 900)
	runtime.SimSetTag(900)
	http_SimMux()
	w.tapLog()
	// Fix the wall clocks before anything starts.
	for _, n := range w.Nodes {
		n.clock = append(n.clock, clk{runtime.SimNow(), n.Cfg.WallMS * 1e6})
	}
	for _, n := range w.Nodes {
		if n.Cfg.Late == 0 {
			w.boot(n)
		} else {
			go func(n *Node) {
				time.Sleep(time.Duration(n.Cfg.Late) * time.Millisecond)
				w.boot(n)
			}(n)
		}
	}
	time.Sleep(20 * time.Millisecond)
	w.baseline()
	for i := range p.Faults {
		switch p.Faults[i].K {
		case "crash", "clockjump", "stall", "slow":
			go w.fault(&p.Faults[i])
		case "emfile":
			if p.Faults[i].AtUS > 0 {
				go w.fault(&p.Faults[i])
			}
		}
	}
	allDone := make(chan struct{})
	w.done = len(p.Clients)
	for ci := range p.Clients {
		go w.client(ci, allDone)
	}
	capT := p.O("capS")
	if capT == 0 {
		capT = 4 * 3600
	}
	if len(p.Clients) > 0 {
		select {
		case <-allDone:
		case <-time.After(time.Duration(capT) * time.Second):
			s := ""
			for _, r := range w.Recs {
				if r.Ret == 0 {
					s += " " + w.opStr(r)
				}
			}
			w.Violate("stuck", "operations did not finish within %d s of simulated time:%s", capT, s)
			return
		}
	}
	w.EndClients = w.seq()
	// Faults go on for a while after the clients, where the plan says so.
	if d := p.O("healMS")*1e6 - (runtime.SimNow() - w.T0); p.O("healMS") > 0 && d > 0 {
		time.Sleep(time.Duration(d))
	}
	w.Net.Heal()
	for _, n := range w.Nodes {
		if n.Inc != nil {
			runtime.SimSetStall(n.Inc.Tag, 0)
			runtime.SimSetSlow(n.Inc.Tag, 1)
		}
	}
	if p.O("keepEL") == 0 {
		for _, n := range w.Nodes {
			if n.Inc != nil && n.Inc.ELStop != nil {
				n.Inc.ELStop()
			}
		}
	}
	if p.O("noSettle") == 0 {
		time.Sleep(time.Duration(10+p.O("settleS")) * time.Second)
		// Background work started before the end must have finished.
		for i := 0; i < 400 && p.O("keepEL") == 0 && w.busy(); i++ {
			time.Sleep(5 * time.Second)
		}
	}
	if p.O("reboot") != 0 {
		for _, n := range w.Nodes {
			if n.Inc == nil || !n.Inc.Host.Alive {
				w.boot(n)
			}
		}
		time.Sleep(time.Second)
	}
	w.finish()
}

// busy tells whether RPCs are still in progress anywhere.
func (w *World) busy() bool {
	for _, n := range w.Nodes {
		if n.Inc != nil && n.Inc.Host.Alive && w.Net.OpenClientConns(n.Inc.Host) > 0 {
			return true
		}
	}
	return false
}

func http_SimMux() {
	http.SimMux = func() *http.ServeMux {
		if inc := W.tagNode[runtime.SimTag()]; inc != nil {
			return inc.Mux
		}
		return http.DefaultServeMux
	}
}

func (w *World) opStr(r *Rec) string {
	return fmt.Sprintf("c%d/%d:%s@n%d", r.C, r.I, r.Op.K, r.Op.Node)
}

// LogHash is a digest of the history.
func (w *World) LogHash() string {
	h := fnv.New64a()
	for _, l := range w.Lines(false) {
		h.Write([]byte(l))
		h.Write([]byte{10})
	}
	return fmt.Sprintf("%016x", h.Sum64())
}

// Lines renders the history.
func (w *World) Lines(full bool) []string {
	var out []string
	rs := append([]*Rec(nil), w.Recs...)
	sort.SliceStable(rs, func(i, j int) bool { return rs[i].Inv < rs[j].Inv })
	for _, r := range rs {
		s := fmt.Sprintf("[%d..%d] t=%.6f..%.6f c%d/%d %s node=%d ns=%q", r.Inv, r.Ret,
			float64(r.TInv-w.T0)/1e9, float64(r.TRet-w.T0)/1e9, r.C, r.I, r.Op.K, r.Op.Node, r.Op.NS)
		switch r.Op.K {
		case "put", "hput", "lput":
			s += fmt.Sprintf(" item=%d", r.Op.Item)
		case "knn", "hq", "lget", "drainU", "drainO", "nc":
			s += fmt.Sprintf(" n=%d drain=%v", r.Op.N, r.Op.Drain)
		case "steal", "dfast", "dacc", "dint":
			s += fmt.Sprintf(" n=%d addrs=%v", r.Op.N, r.Op.Addrs)
		}
		s += fmt.Sprintf(" -> ok=%v n=%d status=%d ids=%v err=%q", r.OK, r.N, r.Status, r.IDs, r.Err)
		out = append(out, s)
	}
	for i := range w.Census {
		c := &w.Census[i]
		out = append(out, fmt.Sprintf("census node=%d ns=%q item=%d", c.Node, c.NS, c.ID))
	}
	for _, f := range w.FaultEvs {
		out = append(out, fmt.Sprintf("fault t=%.6f %s %s %d->%d", float64(f.T-w.T0)/1e9, f.K, f.Method, f.Src, f.Dst))
	}
	if full {
		for _, c := range w.Calls {
			out = append(out, fmt.Sprintf("call t=%.6f %s %d->%d", float64(c.T-w.T0)/1e9, c.M, c.Src, c.Dst))
		}
	}
	return out
}

func (w *World) now() int64 { return runtime.SimNow() }
