package gen

import (
	"encoding/json"
	"math"

	"fmt"

	"verifsim/plan"
)

func init() {
	Props["C11"] = []Profile{
		{"library", 3, func(b *B) *plan.Plan { return c11(b, "lib") }},
		{"http", 2, func(b *B) *plan.Plan { return c11(b, "http") }},
		{"redistribute", 3, c11dist},
		{"node", 2, c11node},
		{"steal", 2, c11steal},
	}
	Props["C12"] = []Profile{{"crash", 3, c12}, {"crash-at-request", 2, c12req}, {"queried", 2, c12query}}
	Props["C13"] = []Profile{{"down", 2, c13}, {"faults", 2, c13faults}, {"all-up", 1, c13up}}
	Props["C14"] = []Profile{{"faults", 2, c14}, {"crossing", 1, c14cross}, {"giver", 1, c14giver}}
	Props["C15"] = []Profile{{"periods", 3, c15}, {"long", 1, c15long}, {"stop", 2, c15stop}, {"slow", 1, c15slow}}
	Props["C16"] = []Profile{{"unbalanced", 3, c16}, {"balanced", 1, c16balanced}, {"band", 2, c16band}, {"takes", 2, c16takes}, {"lone", 3, c16lone}, {"small", 2, c16small}}
	Props["C18"] = []Profile{{"malformed", 1, c18bad}, {"interrupted", 2, c18cut}}
	Props["C19"] = []Profile{{"split-merge", 2, c19}, {"autosplit", 1, c19auto}, {"resplit", 1, c19re}, {"loops", 1, c19loops}}
	Props["C20"] = []Profile{{"odd", 3, c20odd}, {"garbage", 2, c20garbage}, {"accept", 2, c20accept}, {"hollow", 1, c20hollow}}
	Props["C22"] = []Profile{{"cycle", 1, c22}}
	Props["C23"] = []Profile{{"steal", 3, c23}, {"faults", 1, c23faults}}
	Props["C21"] = []Profile{{"storm", 10, c21storm}, {"node", 4, c21node}, {"cluster", 4, c21cluster}, {"loops", 2, c21loops}, {"stop", 1, c21stop}, {"service", 1, c01service}}
	Props["C24"] = []Profile{{"elect", 2, c24}, {"down", 1, c24down}, {"few", 1, c24few}, {"elects", 1, c24elects}}
}

// ---- placement and routing ------------------------------------------------

func (b *B) placeNodes(n int) {
	b.nodes(n)
	for i := range b.P.Nodes {
		b.P.Nodes[i].Threshold = b.PickI(2, 3, 4, 6, 1000)
	}
}

func c11(b *B, via string) *plan.Plan {
	n := b.R(2, 4)
	b.placeNodes(n)
	b.P.Nodes[0].API = true
	if via == "http" && b.Ch(0.3) {
		b.P.Nodes[0].RPCAddrs = b.others(b.N(n))
	}
	b.clients(1)
	for i := 0; i < n; i++ {
		if b.Ch(0.8) {
			b.fill(0, i, "a", b.R(1, 5))
		}
	}
	for k := b.R(2, 7); k > 0; k-- {
		o := plan.Op{NS: "a", Node: -1, S: b.Pick("fast", "acc"), Addrs: b.subset()}
		m := 0
		if via == "http" {
			o.Node, o.S, o.Addrs, o.Acc, m = 0, "", nil, b.P01(), 1
		}
		o.M = m
		if b.P01() {
			o.K, o.Item = "pput", b.item("a")
		} else {
			o.K, o.Vec, o.N, o.Drain = "pget", b.vec(), b.PickI(0, 1, 2, 3, 5, 30), b.Ch(0.3)
		}
		b.op(0, o)
		switch b.N(5) {
		case 0:
			b.op(0, plan.Op{K: b.Pick("drainU", "drainO"), Node: b.node(), NS: "a", N: b.R(1, 4)})
		case 1:
			b.maint(0, "a", false)
		}
	}
	if b.Ch(0.3) {
		f := plan.Fault{K: "refuse", Src: -1, Dst: b.node(), Nth: b.R(1, 10)}
		if via == "http" && f.Dst == 0 {
			f.Dst = 1
		}
		b.P.Faults = append(b.P.Faults, f)
	}
	return b.checks("conserve")
}

func (b *B) subset() []int {
	r := b.all()
	for i := len(r) - 1; i > 0; i-- {
		j := b.N(i + 1)
		r[i], r[j] = r[j], r[i]
	}
	if len(r) > 1 && b.Ch(0.2) {
		r = r[:len(r)-1]
	}
	return r
}

// maybeNotSelf leaves an operation's own node out of its options, mostly.
func (b *B) maybeNotSelf(o *plan.Op) {
	if b.Ch(0.3) {
		return
	}
	var r []int
	for _, i := range o.Addrs {
		if i != o.Node {
			r = append(r, i)
		}
	}
	o.Addrs = r
}

func c11dist(b *B) *plan.Plan {
	n := b.R(2, 4)
	b.placeNodes(n)
	b.clients(1)
	for i := 0; i < n; i++ {
		if i == 0 || b.Ch(0.85) {
			b.fill(0, i, "a", b.R(1, 7))
		}
	}
	for k := b.R(1, 4); k > 0; k-- {
		o := b.op(0, plan.Op{K: "pdist", Node: b.node(), NS: "a", S: b.Pick("fast", "acc"), N: b.PickI(0, 1, 1, 2, 3, 5, 20), Addrs: b.subset()})
		b.maybeNotSelf(o)
		if b.Ch(0.3) {
			b.maint(0, "a", false)
		}
	}
	if b.Ch(0.2) {
		b.P.Faults = append(b.P.Faults, plan.Fault{K: "refuse", Src: -1, Dst: b.node(), Nth: b.R(10, 25)})
	}
	return b.checks("conserve")
}

func c11node(b *B) *plan.Plan {
	b.nodes(1)
	b.P.Nodes[0].Threshold = b.R(2, 8)
	b.clients(1)
	b.fill(0, 0, "a", b.R(4, 16))
	for k := b.R(2, 8); k > 0; k-- {
		switch b.N(6) {
		case 0:
			b.op(0, plan.Op{K: "pput", M: 2, NS: "a", Item: b.item("a")})
		case 1:
			b.op(0, plan.Op{K: "pncv", NS: "a", Vec: b.vec()})
		case 2, 3:
			b.op(0, plan.Op{K: "pnc", NS: "a", Vec: b.vec(), N: b.R(0, 5), Drain: b.Ch(0.3)})
		case 4:
			b.op(0, plan.Op{K: "knn", NS: "a", Vec: b.vec(), N: b.R(1, 4), Drain: b.P01()})
		default:
			b.maint(0, "a", false)
		}
	}
	return b.checks("conserve")
}

// c11steal: which partitions are taken from another node.
func c11steal(b *B) *plan.Plan {
	n := b.R(2, 3)
	b.nodes(n)
	for i := range b.P.Nodes {
		b.P.Nodes[i].Threshold = b.R(2, 6)
	}
	b.clients(1)
	for i := range b.P.Nodes {
		b.fill(0, i, "a", b.R(1, 5)+b.N(2)*b.R(4, 14))
	}
	for k := b.R(2, 6); k > 0; k-- {
		if b.Ch(0.3) {
			b.maint(0, "a", false)
			continue
		}
		t := b.node()
		b.op(0, plan.Op{K: "psteal", Node: t, NS: "a", N: b.PickI(1, 1, 1, 2, 3, 5, 8), Addrs: b.others(t)[:1]})
	}
	return b.checks("conserve")
}

// ---- crashes -----------------------------------------------------------------

// quietLoops gives every node a loop that keeps data on its node.
func (b *B) quietLoops(pass map[int]bool) {
	b.loops(false)
	for i := range b.P.Nodes {
		if pass[i] {
			b.stay(i)
		}
	}
}

func c12(b *B) *plan.Plan    { return c12x(b, false) }
func c12req(b *B) *plan.Plan { return c12x(b, true) }

func c12x(b *B, atReq bool) *plan.Plan {
	n := b.R(2, 4)
	b.nodes(n)
	b.P.Nodes[0].API = true
	if n > 2 && b.P01() {
		b.P.Nodes[1].API = true
	}
	victim := n - 1
	if b.Ch(0.6) {
		b.quietLoops(map[int]bool{victim: true})
		b.P.Opt["keepEL"] = 1
	}
	nc := b.R(2, 3)
	b.clients(nc)
	for i := 0; i < n; i++ {
		if i == 0 || b.Ch(0.7) {
			b.fill(0, i, "a", b.R(1, 5))
		}
	}
	b.bar(1)
	for c := 0; c < nc; c++ {
		for k := b.R(3, 8); k > 0; k-- {
			switch b.N(7) {
			case 0, 1, 2:
				b.put(c, b.item("a"), b.Pick("node", "http", "lib", "lib")).Wait = b.wait()
			case 3:
				b.query(c, "a", b.Ch(0.2))
			case 4, 5:
				o := plan.Op{K: b.Pick("dfast", "dacc", "steal", "dint", "merge", "split"), NS: "a", N: b.R(0, 6), M: 50, Node: b.N(n - 1), Wait: b.wait(), Addrs: b.all()}
				if o.K == "steal" {
					if n == 2 {
						continue
					}
					o.Addrs = []int{(o.Node + 1) % (n - 1)}
				}
				b.op(c, o)
			default:
				b.op(c, plan.Op{K: b.Pick("expire", "memtrim", "dint"), NS: "a", N: 3, Node: b.node()})
			}
		}
	}
	down := int64(b.R(0, 3000))
	if atReq {
		f := plan.Fault{K: "crashdst", Method: b.Pick("AddDataPoint", "AddDataPoint", "Vec", "NearestCentroidVec", "Namespaces", "KNNLookup", ""), Src: -1, Dst: victim, Nth: b.R(1, 8), DurUS: int64(b.N(3000)), X: down}
		if b.Ch(0.3) {
			f.X = -1
		}
		b.P.Faults = append(b.P.Faults, f)
	} else {
		for k := b.R(1, 2); k > 0; k-- {
			f := plan.Fault{K: "crash", Node: victim, AtUS: int64(b.R(0, 500)) * 1000, DurUS: down * 1000}
			if b.Ch(0.25) {
				f.X = -1
			} else if b.Ch(0.3) {
				f.X = int64(b.R(1, 5000)) // the clock moved meanwhile
			}
			b.P.Faults = append(b.P.Faults, f)
		}
	}
	b.P.Opt["reboot"] = 1
	b.tame(30000, 300)
	if b.P.Opt["keepEL"] != 0 {
		return b.checks("progress,conserve,alive")
	}
	return b.checks("conserve,alive")
}

// c12query: survivors' points are found while another node is crashing, down
// and starting again. Nothing is moved.
func c12query(b *B) *plan.Plan {
	n := b.R(2, 4)
	b.nodes(n)
	b.P.Nodes[0].API = true
	victim := n - 1
	nc := b.R(1, 3)
	b.clients(nc)
	for i := 0; i < n; i++ {
		if i == 0 || b.Ch(0.8) {
			b.fill(0, i, "a", b.R(1, 5))
		}
	}
	b.bar(1)
	if b.Ch(0.4) {
		b.op(0, plan.Op{K: "crash", Node: victim})
		if b.Ch(0.5) {
			b.op(nc-1, plan.Op{K: "nstart", Node: victim, Wait: b.wait() * 10})
		}
	} else {
		down := int64(b.PickI(-1, b.R(0, 3000)))
		b.P.Faults = append(b.P.Faults, plan.Fault{K: "crashdst", Method: b.Pick("Vec", "NearestCentroidVec", "KNNLookup", ""), Src: -1, Dst: victim, Nth: b.R(1, 8), DurUS: int64(b.N(3000)), X: down})
	}
	for c := 0; c < nc; c++ {
		for k := b.R(2, 7); k > 0; k-- {
			if b.Ch(0.2) {
				b.put(c, b.item("a"), b.Pick("node", "lib")).Wait = b.wait()
				continue
			}
			o := plan.Op{K: "lget", Node: -1, S: b.Pick("rand", "rand", "fast", "acc"), Addrs: b.all(), NS: "a", Vec: b.vec(), N: b.PickI(1, 3, 60, 60), X: 64, Wait: b.wait()}
			if b.Ch(0.4) {
				o.K, o.Node, o.Acc, o.Addrs, o.S = "hq", 0, b.P01(), nil, ""
			}
			b.op(c, o)
		}
	}
	b.P.Opt["reboot"] = 1
	b.tame(30000, 300)
	return b.checks("conserve,alive")
}

// ---- availability --------------------------------------------------------------

// seeded: node 0, which stays up, has the namespace.
func (b *B) availPuts(nc, per int, seeded bool) {
	for c := 0; c < nc; c++ {
		for k := per; k > 0; k-- {
			o := b.put(c, b.item("a"), b.Pick("http", "http", "http", "lib"))
			o.Wait = b.wait()
			if o.K == "hput" {
				o.Node = 0
			} else {
				o.S = "rand"
				if seeded {
					o.S = b.Pick("rand", "fast", "acc")
				}
			}
			o.X = 16
		}
	}
}

// order lists the nodes in any order to the HTTP interface.
func (b *B) order() {
	if b.Ch(0.6) {
		r := b.all()
		for i := len(r) - 1; i > 0; i-- {
			j := b.N(i + 1)
			r[i], r[j] = r[j], r[i]
		}
		b.P.Nodes[0].RPCAddrs = r
	}
}

func c13(b *B) *plan.Plan {
	n := b.R(2, 4)
	b.nodes(n)
	b.P.Nodes[0].API = true
	nc := b.R(1, 3)
	b.clients(nc)
	empty, seeded := b.Ch(0.3), false
	for i := 0; i < n; i++ {
		if !empty && b.Ch(0.7) {
			b.fill(0, i, "a", b.R(1, 4))
			seeded = seeded || i == 0
		}
	}
	b.order()
	for i := 1; i < n; i++ {
		if b.Ch(0.7) {
			b.op(0, plan.Op{K: "crash", Node: i})
		}
	}
	b.bar(1)
	b.availPuts(nc, b.R(1, 5), seeded)
	b.P.Opt["faulty"] = 1
	return b.checks("avail,conserve")
}

func c13faults(b *B) *plan.Plan {
	n := b.R(2, 4)
	b.nodes(n)
	b.P.Nodes[0].API = true
	nc := b.R(1, 3)
	b.clients(nc)
	empty, seeded := b.Ch(0.3), false
	b.order()
	for i := 0; i < n; i++ {
		if !empty && b.Ch(0.6) {
			b.fill(0, i, "a", b.R(1, 4))
			seeded = seeded || i == 0
		}
	}
	b.bar(1)
	b.availPuts(nc, b.R(2, 5), seeded)
	for k := b.R(1, 4); k > 0; k-- {
		f := plan.Fault{K: b.Pick("refuse", "cutreq", "cutrep", "crashdst", "crash"), Src: -1, Dst: b.R(1, n-1), Nth: b.R(1, 8), Frac: b.F() * 0.98}
		switch f.K {
		case "crash":
			f.Node, f.AtUS, f.DurUS = f.Dst, int64(b.R(0, 200))*1000, int64(b.R(0, 500))*1000
		case "crashdst":
			f.X = int64(b.R(0, 500))
			f.Method = b.Pick("AddDataPoint", "Vec", "NearestCentroidVec")
		case "refuse":
			f.Nth = b.R(0, 25)
			f.X = int64(b.R(1, 10))
		default:
			f.Method = b.Pick("AddDataPoint", "AddDataPoint", "Vec", "NearestCentroidVec")
		}
		b.P.Faults = append(b.P.Faults, f)
	}
	return b.checks("avail,conserve")
}

func c13up(b *B) *plan.Plan {
	n := b.R(1, 4)
	b.nodes(n)
	b.P.Nodes[0].API = true
	if b.P01() {
		b.loops(b.P01())
	}
	nc := b.R(1, 4)
	b.clients(nc)
	b.availPuts(nc, b.R(1, 5), false)
	return b.checks("avail,conserve")
}

// ---- maintenance loops -----------------------------------------------------------

func c14(b *B) *plan.Plan {
	n := b.R(2, 4)
	b.nodes(n)
	b.P.Nodes[0].API = true
	b.loops(b.Ch(0.8))
	for i := range b.P.Nodes {
		b.P.Nodes[i].EL.LoopMS = int64(b.PickI(5, 50, 500))
	}
	nc := b.R(1, 2)
	b.clients(nc)
	for c := 0; c < nc; c++ {
		for k := b.R(2, 8); k > 0; k-- {
			switch b.N(6) {
			case 0, 1, 2:
				b.put(c, b.item(b.Pick("a", "b")), b.Pick("node", "http", "lib")).Wait = b.wait()
			case 3:
				b.query(c, "a", b.Ch(0.4))
			default:
				b.maint(c, "a", true)
			}
		}
		b.op(c, plan.Op{K: "sleep", X: int64(b.R(10, 4000)) * 1000})
	}
	b.netFaults(b.R(1, 4))
	for k := b.N(3); k > 0; k-- {
		f := plan.Fault{K: "crash", Node: b.node(), AtUS: int64(b.R(0, 1000)) * 1000, DurUS: int64(b.R(0, 3000)) * 1000}
		if b.Ch(0.3) {
			f = plan.Fault{K: "crashdst", Method: b.Pick("LenDP", "Namespaces", "StealCentroid", "NearestCentroids", "AddDataPoint", "Meta", "Expire"), Src: -1, Dst: b.node(), Nth: b.R(1, 5), X: int64(b.R(0, 1000)), DurUS: int64(b.N(2000))}
		}
		b.P.Faults = append(b.P.Faults, f)
	}
	if b.Ch(0.3) {
		b.P.Faults = append(b.P.Faults, plan.Fault{K: "clockjump", Node: b.node(), AtUS: int64(b.R(1, 1000)) * 1000, X: int64(b.R(-300, 300)) * 1000})
	}
	b.P.Opt["keepEL"], b.P.Opt["reboot"] = 1, 1
	b.tame(60000, 400)
	return b.checks("progress,alive")
}

// c14giver: a node that others take from is lost while they do, and comes back
// without its points or not at all.
func c14giver(b *B) *plan.Plan {
	n := b.R(2, 3)
	b.nodes(n)
	b.loops(true)
	g := b.node()
	for i := range b.P.Nodes {
		nd := &b.P.Nodes[i]
		nd.Threshold = b.PickI(2, 4, 16)
		nd.EL.LB, nd.EL.Meta = 1, b.PickI(1, 2)
		nd.EL.LoopMS, nd.EL.StepMS = int64(b.PickI(5, 50)), 1
	}
	b.clients(1)
	for i := 0; i < n; i++ {
		if i == g {
			b.fill(0, i, "a", b.R(20, 60))
		} else if b.Ch(0.8) {
			b.fill(0, i, "a", b.R(1, 3))
		}
	}
	b.op(0, plan.Op{K: "sleep", X: 1000000})
	for k := b.R(1, 2); k > 0; k-- {
		f := plan.Fault{K: "crashdst", Method: b.Pick("NearestCentroids", "NearestCentroids", "StealCentroid", "StealCentroids", "LenDP", "Namespaces", "Meta"), Src: -1, Dst: g, Nth: b.PickI(1, 1, 2, 3, 5, 8, 13), X: -1}
		if b.P01() {
			f.X = int64(b.R(0, 1000))
		}
		if b.Ch(0.3) {
			f.DurUS = int64(b.N(2000))
		}
		b.P.Faults = append(b.P.Faults, f)
	}
	b.P.Opt["keepEL"] = 1
	b.tame(60000, 100)
	b.P.Opt["stepcap"] = 6 << 20
	return b.checks("progress,alive")
}

// c14cross: nodes ask things of each other at the same moment.
func c14cross(b *B) *plan.Plan {
	n := b.R(2, 4)
	b.nodes(n)
	for i := range b.P.Nodes {
		b.P.Nodes[i].Threshold = b.PickI(2, 3, 4, 100)
	}
	b.P.Net.JitUS = int64(b.PickI(0, 50, 500, 5000))
	nc := b.R(2, 5)
	b.clients(nc)
	for i := 0; i < n; i++ {
		if b.Ch(0.85) {
			b.fill(0, i, "a", b.R(2, 10))
		}
	}
	if b.Ch(0.3) {
		b.loops(true)
		b.P.Opt["keepEL"] = 1
	}
	use := []string{"steal", "dfast", "dacc", "knn", "put", "dint", "split"}
	k1, k2 := use[b.N(3)], use[b.N(len(use))]
	for k := b.R(2, 6); k > 0; k-- {
		b.bar(k)
		for c := 0; c < nc; c++ {
			o := plan.Op{K: k1, Node: c % n, NS: "a", N: b.R(1, 8), M: 100, Vec: b.vec(), Wait: int64(b.PickI(0, 0, 50, 300))}
			if b.Ch(0.25) {
				o.K = k2
			}
			switch o.K {
			case "steal":
				o.Addrs = []int{(c + 1) % n}
			case "dfast", "dacc":
				o.Addrs = b.all()
			case "put":
				o.Item = b.item("a")
			case "split":
				o.N = 1
			}
			b.op(c, o)
		}
	}
	for i := 0; i < n; i++ {
		b.op(0, plan.Op{K: "lendp", Node: i, NS: "a"})
	}
	if b.Ch(0.2) {
		b.netFaults(1)
	}
	b.tame(60000, 200)
	return b.checks("progress,alive,conserve")
}

func (b *B) period() int {
	switch b.N(8) {
	case 0:
		return b.R(1001, 5000)
	case 1:
		return b.PickI(0, -3)
	case 2:
		return b.R(6, 30)
	}
	return b.R(1, 6)
}

func (b *B) cadenceLoop() *plan.ELCfg {
	e := &plan.ELCfg{LoopMS: int64(b.PickI(50, 100, 1000)), StepMS: int64(b.PickI(50, 100)),
		Expire: b.period(), MemTrim: b.period(), Fast: b.period(), Acc: b.period(), Int: b.period(),
		Split: b.period(), Merge: b.period(), LB: b.period(), Meta: 1,
		FastN: b.R(0, 3), AccN: b.R(0, 3), IntN: b.R(0, 3), SplitMin: 3, SplitMax: 100, MergeMin: 0, MergeMax: 3, LocalOnly: b.P01()}
	if b.Ch(0.4) {
		b.P.Strs["tick"] = "Expire"
		e.Expire, e.Meta = 1, b.period()
		e.LocalOnly = true
	}
	return e
}

func (b *B) cadence() *plan.ELCfg {
	b.calm()
	n := b.R(1, 2)
	b.nodes(n)
	b.clients(1)
	e := b.cadenceLoop()
	b.P.Nodes[0].EL2 = e
	b.fill(0, 0, "a", b.R(1, 5))
	if n > 1 && b.P01() {
		b.fill(0, 1, "a", b.R(1, 5))
	}
	b.op(0, plan.Op{K: "elstart"})
	b.P.Opt["keepEL"] = 1
	return e
}

func roundMS(e *plan.ELCfg) int64 { return e.LoopMS + 9*e.StepMS }

func (b *B) rounds(e *plan.ELCfg, n int) {
	b.op(0, plan.Op{K: "sleep", X: int64(n) * roundMS(e) * 1000})
	b.P.Opt["rounds"] = int64(n) * 2 / 3
}

func c15(b *B) *plan.Plan {
	e := b.cadence()
	b.rounds(e, b.R(8, 50))
	return b.checks("cadence,conserve")
}

// c15long runs past any counter's end.
func c15long(b *B) *plan.Plan {
	e := b.cadence()
	e.LoopMS, e.StepMS = 50, 50
	b.P.Items = b.P.Items[:1]
	ops := b.P.Clients[0].Ops
	b.P.Clients[0].Ops = []plan.Op{ops[0], ops[len(ops)-1]}
	b.P.Nodes = b.P.Nodes[:1]
	// Few requests per round.
	for _, p := range []*int{&e.MemTrim, &e.Fast, &e.Acc, &e.Int, &e.Split, &e.Merge, &e.LB} {
		*p = b.PickI(7, 13, 29, 97, 300, 600, 1000, 1001, 3000)
	}
	b.rounds(e, b.R(1030, 2300))
	return b.checks("cadence,conserve")
}

// c15slow: rounds that are held up.
func c15slow(b *B) *plan.Plan {
	n := b.R(1, 3)
	b.nodes(n)
	b.calm()
	b.clients(1)
	for i := 0; i < n; i++ {
		e := b.cadenceLoop()
		e.Meta = 1
		if i == 0 || b.P01() {
			b.P.Nodes[i].EL2 = e
		}
		b.fill(0, i, "a", b.R(1, 5))
	}
	delete(b.P.Strs, "tick")
	for i := 0; i < n; i++ {
		if b.P.Nodes[i].EL2 != nil {
			b.op(0, plan.Op{K: "elstart", Node: i})
		}
	}
	b.P.Opt["keepEL"] = 1
	for k := b.R(1, 5); k > 0; k-- {
		b.P.Faults = append(b.P.Faults, plan.Fault{K: b.Pick("stall", "stall", "slow"), Node: b.node(), AtUS: int64(b.R(0, 6000)) * 1000, DurUS: int64(b.PickI(20, 100, 400, 1000, 3000)) * 1000, X: 50})
	}
	b.rounds(b.P.Nodes[0].EL2, b.R(4, 10))
	delete(b.P.Opt, "rounds")
	return b.checks("pace,conserve")
}

func c15stop(b *B) *plan.Plan {
	e := b.cadence()
	b.rounds(e, b.R(4, 12))
	// Somewhere within a round.
	b.op(0, plan.Op{K: "elstop", Wait: int64(b.N(int(roundMS(e)))) * 1000})
	b.op(0, plan.Op{K: "sleep", X: 10 * roundMS(e) * 1000})
	b.P.Opt["stopSlackMS"] = e.StepMS - 5
	return b.checks("cadence,conserve")
}

// ---- load balancing ------------------------------------------------------------

func (b *B) balNodes() *plan.ELCfg {
	n := b.R(2, 4)
	b.nodes(n)
	b.calm()
	b.dim = b.R(2, 3)
	for i := range b.P.Nodes {
		b.P.Nodes[i].Threshold = b.PickI(2, 3, 4)
		e := &plan.ELCfg{LoopMS: int64(b.PickI(200, 400)), StepMS: int64(b.PickI(5, 20)),
			Expire: 2000, MemTrim: b.PickI(1, 2000), Fast: 2000, Acc: 2000, Int: 2000, Split: 2000, Merge: 2000, LB: b.PickI(1, 1, 3), Meta: 1, LocalOnly: true,
			SplitMin: 3, SplitMax: 1000}
		b.P.Nodes[i].EL2 = e
	}
	b.clients(1)
	b.P.Opt["keepEL"], b.P.Opt["noSettle"] = 1, 1
	b.P.Opt["balanceS"] = int64(b.R(60, 120))
	return b.P.Nodes[0].EL2
}

func c16(b *B) *plan.Plan { return c16of(b, 20, 90, 8) }

// c16small: few datapoints, where one partition already matters.
func c16small(b *B) *plan.Plan { return c16of(b, 6, 24, 2) }

func c16of(b *B, lo, hi, rest int) *plan.Plan {
	b.balNodes()
	n := len(b.P.Nodes)
	ns := []string{"a", "b"}[:b.PickI(1, 1, 2)]
	for _, s := range ns {
		heavy := b.N(n)
		b.fill(0, heavy, s, b.R(lo, hi))
		for i := 0; i < n; i++ {
			if i != heavy && b.Ch(0.6) {
				b.fill(0, i, s, b.R(1, rest))
			}
		}
	}
	for i := 0; i < n; i++ {
		b.op(0, plan.Op{K: "elstart", Node: i, Wait: b.wait()})
	}
	return b.checks("balance,conserve")
}

func c16balanced(b *B) *plan.Plan {
	b.balNodes()
	m := b.R(5, 30)
	for i := range b.P.Nodes {
		k := m
		if b.Ch(0.5) {
			k = m + b.R(-m/10, m/10)
		}
		b.fill(0, i, "a", k)
	}
	for i := range b.P.Nodes {
		b.op(0, plan.Op{K: "elstart", Node: i, Wait: b.wait()})
	}
	b.P.Opt["balanced"] = 1
	return b.checks("balance,conserve")
}

// c16band: one node far below the mean, but nobody far above it to give.
func c16band(b *B) *plan.Plan {
	b.balNodes()
	n := len(b.P.Nodes)
	for i := range b.P.Nodes {
		b.P.Nodes[i].Threshold = b.PickI(3, 5, 10, 1000)
	}
	low := b.N(n)
	m := b.R(14, 36)
	if n == 2 {
		m = b.R(8, 24)
	}
	l := make([]int, n)
	for i := range l {
		l[i] = m - b.N(m/10+1)
	}
	// As little as keeps everyone else below 1.3 times the mean.
	l[low] = b.N(m)
	for {
		tot, max := 0, 0
		for _, x := range l {
			tot += x
			if x > max {
				max = x
			}
		}
		if 10*max <= 13*(tot/n) {
			break
		}
		l[low]++
	}
	for i, k := range l {
		b.fill(0, i, "a", k)
	}
	for i := range b.P.Nodes {
		b.op(0, plan.Op{K: "elstart", Node: i, Wait: b.wait()})
	}
	b.P.Opt["balanced"] = 1
	return b.checks("balance,conserve")
}

// c16takes: one node takes, several have too much; it stops near the mean.
func c16takes(b *B) *plan.Plan {
	b.balNodes()
	n := b.R(3, 5)
	e := b.P.Nodes[0].EL2
	b.P.Nodes = nil
	b.nodes(n)
	for i := range b.P.Nodes {
		b.P.Nodes[i].EL2 = e
	}
	low := b.N(n)
	full := b.R(2, n-1)
	b.P.Opt["balanceS"] = 10
	tot, part := 0, 0
	for i := range b.P.Nodes {
		thr := b.PickI(5, 12, 1000, 1000, 1000)
		b.P.Nodes[i].Threshold = thr
		k := b.R(1, 4)
		if i != low && full > 0 {
			k = b.R(30, 50)
			full--
		}
		if i == low {
			k = b.R(0, 3)
		}
		tot += k
		if k < thr {
			thr = k
		}
		if thr > part {
			part = thr
		}
		b.fill(0, i, "a", k)
	}
	b.op(0, plan.Op{K: "elstart", Node: low})
	b.P.Opt["taker"], b.P.Opt["takeMax"] = int64(low), int64(tot/(n-1)+part+1)
	return b.checks("balance,conserve")
}

// c16lone: one node takes (or need not), the others have too much or too
// little themselves.
func c16lone(b *B) *plan.Plan {
	b.balNodes()
	n := b.R(3, 4)
	e := b.P.Nodes[0].EL2
	b.P.Nodes = nil
	b.nodes(n)
	for i := range b.P.Nodes {
		b.P.Nodes[i].EL2 = e
		b.P.Nodes[i].Threshold = b.PickI(2, 3, 5)
	}
	low := b.N(n)
	m := b.R(8, 20)
	if b.P01() {
		m = b.R(45, 70)
	}
	fullest := m >= 45 && b.P01() // most of it is on one node
	one := fullest
	if one {
		m = b.R(48, 80)
	}
	k := m * b.R(80, 105) / 100
	if one {
		k = m * b.R(80, 92) / 100
	}
	if m < 45 {
		k = b.R(1, m/3+1)
	}
	rest := n*m - k
	l := make([]int, n)
	l[low] = k
	// Give the rest to the others, unevenly.
	left := n - 1
	for i := range l {
		if i == low {
			continue
		}
		x := rest
		if one && (left == 1 || b.N(left) == 0) {
			// All but what the ones after it get.
			one, x = false, rest-(left-1)*b.R(1, 1+m/8)
		} else if one || left > 1 && fullest {
			x = b.R(1, 1+m/8)
		} else if left > 1 && m < 45 {
			x = b.R(rest/10, min(rest*9/10, 2*m))
		} else if left > 1 {
			// Maybe most of it is on one node.
			x = b.R(rest/20, rest*19/20)
		}
		l[i] = max(x, 1)
		rest -= l[i]
		left--
	}
	for i, k := range l {
		b.fill(0, i, "a", k)
	}
	b.P.Opt["balanceS"] = 10
	b.op(0, plan.Op{K: "elstart", Node: low})
	b.P.Opt["taker"], b.P.Opt["takeMax"], b.P.Opt["lone"] = int64(low), 100000, 1
	return b.checks("balance,conserve")
}

// ---- HTTP interface -------------------------------------------------------------

func post(path, body string) []byte {
	return []byte(fmt.Sprintf("POST %s HTTP/1.1\r\nHost: x\r\nContent-Type: application/json\r\nContent-Length: %d\r\nConnection: close\r\n\r\n%s", path, len(body), body))
}

var badBodies = []string{"", "{", "nonsense", "[]", `"x"`, `{"namespace":5}`, `{"dp":{"vec":"abc"}}`, `{"dp":{"vec":[1,"x"]}}`,
	`{"namespace":"a","dp":{"vec":[1,2],"payload":"***"}}`, `{"namespace":"a","dp":{"vec":[1,2],"expires":"yesterday"}}`,
	`{"namespace":"a","dp":{"vec":[1,2]}}}`, `{"namespace":"a","dp":{"vec":[1,2}}`, `{"n":"many"}`, `{"n":1.5}`, `{"queryVec":{}}`, `{"drain":"yes"}`,
	"\x00\xff\xfe", `{"dp":[]}`, `{"accurate":1}`}

var putOnly = map[string]bool{`{"dp":{"vec":"abc"}}`: true, `{"dp":{"vec":[1,"x"]}}`: true, badBodies[8]: true, badBodies[9]: true, `{"dp":[]}`: true}
var queryOnly = map[string]bool{`{"n":"many"}`: true, `{"n":1.5}`: true, `{"queryVec":{}}`: true, `{"drain":"yes"}`: true}

// nearly is a request that would do something, but for one flaw.
func (b *B) nearly() (string, string) {
	v, _ := json.Marshal(b.vec())
	flaw := b.N(4)
	q := fmt.Sprintf(`"namespace":"a","queryVec":%s,"n":%d,"drain":true`, v, b.R(1, 5))
	p := fmt.Sprintf(`"namespace":"a","dp":{"vec":%s,"payload":"cA=="`, v)
	if b.P01() {
		switch flaw {
		case 0:
			return "/api/dp/query", "{" + q + `,"accurate":` + b.Pick(`"yes"`, "1", "[]") + "}"
		case 1:
			return "/api/dp/query", "{" + q + "}" + b.Pick("x", "{}", "]", ",", "0")
		case 2:
			return "/api/dp/query", "[{" + q + "}]"
		}
		return "/api/dp/query", "{" + q + b.Pick(",", "", `,"x"`, "]", ",}")
	}
	switch flaw {
	case 0:
		return "/api/dp/put", "{" + p + "}" + `,"accurate":` + b.Pick(`"yes"`, "1", "[]") + "}"
	case 1:
		return "/api/dp/put", "{" + p + "}}" + b.Pick("x", "{}", "]", ",", "0")
	case 2:
		return "/api/dp/put", "{" + p + b.Pick(`,"expires":5`, `,"expires":"2020-13-01T00:00:00Z"`, `,"expireEnabled":"no"`, `,"payload":7`) + "}}"
	}
	return "/api/dp/put", "{" + p + b.Pick("}", "}]", "", "},}")
}

func (b *B) badReq(c, node int) {
	if b.P01() {
		path, body := b.nearly()
		b.op(c, plan.Op{K: "raw", Node: node, M: 1, Item: -1, Raw: post(path, body), S: "read", X: 400, Wait: b.wait()})
		return
	}
	body := badBodies[b.N(len(badBodies))]
	path := b.Pick("/api/dp/put", "/api/dp/query")
	if putOnly[body] {
		path = "/api/dp/put"
	}
	if queryOnly[body] {
		path = "/api/dp/query"
	}
	b.op(c, plan.Op{K: "raw", Node: node, M: 1, Item: -1, Raw: post(path, body), S: "read", X: 400, Wait: b.wait()})
}

func c18bad(b *B) *plan.Plan {
	n := b.R(1, 2)
	b.nodes(n)
	b.P.Nodes[0].API = true
	if b.P01() {
		b.quietLoops(map[int]bool{0: true, 1: true})
	}
	nc := b.R(1, 3)
	b.clients(nc)
	for c := 0; c < nc; c++ {
		for k := b.R(2, 7); k > 0; k-- {
			if b.P01() {
				b.badReq(c, 0)
			} else {
				i := b.item("a")
				b.pad(i)
				o := b.put(c, i, b.Pick("http", "node"))
				o.Wait, o.X = b.wait(), 16
			}
		}
	}
	b.bar(1)
	b.op(0, plan.Op{K: "hq", NS: "a", Vec: b.vec(), N: 50, X: 1, Acc: b.P01()})
	return b.checks("http,conserve,complete,alive,avail")
}

// frame varies how a complete request is put on the wire.
func (b *B) frame(o *plan.Op) {
	o.Raw = []byte(b.Pick("", "", "\n", " \r\n\t"))
	o.M = b.PickI(0, 0, 1)
}

func c18cut(b *B) *plan.Plan {
	n := b.R(1, 2)
	b.nodes(n)
	b.P.Nodes[0].API = true
	if b.P01() {
		b.quietLoops(map[int]bool{0: true, 1: true})
	}
	nc := b.R(1, 3)
	b.clients(nc)
	for c := 0; c < nc; c++ {
		for k := b.R(2, 6); k > 0; k-- {
			switch b.N(4) {
			case 0, 1:
				o := plan.Op{K: "raw", Node: 0, M: 1, Acc: true, N: b.PickI(0, 0, 1, b.R(0, 12), b.R(0, 400)), S: b.Pick("abort", "hold", "read", ""), X: int64(b.PickI(0, 100, 5000, 7000000)), Wait: b.wait()}
				if b.Ch(0.3) {
					o.Item, o.NS, o.Vec = -1, "a", b.vec()
				} else {
					o.Item = b.item(b.Pick("a", "fresh"))
					o.NS = b.P.Items[o.Item].NS
					b.pad(o.Item)
				}
				o.Raw = []byte(b.Pick("", "", "\n", " \r\n\t", "          "))
				o.Drain = b.Ch(0.3)
				b.op(c, o)
			case 2:
				b.frame(b.op(c, plan.Op{K: "hq", Node: 0, NS: "a", Vec: b.vec(), N: b.R(1, 4), Acc: b.P01(), Wait: b.wait()}))
			default:
				i := b.item("a")
				b.pad(i)
				o := b.put(c, i, b.Pick("http", "http", "node"))
				o.Wait, o.X = b.wait(), 16
				if o.K == "hput" {
					b.frame(o)
				}
			}
		}
	}
	b.bar(1)
	b.op(0, plan.Op{K: "hq", NS: "a", Vec: b.vec(), N: 50, X: 1, Acc: b.P01()})
	return b.checks("http,conserve,complete,alive,avail")
}

// ---- partition sizes -------------------------------------------------------------

func c19(b *B) *plan.Plan {
	b.nodes(1)
	b.P.Nodes[0].Threshold = b.PickI(3, 4, 6, 1000)
	b.clients(1)
	b.fill(0, 0, "a", b.R(3, 16))
	for k := b.R(1, 7); k > 0; k-- {
		switch b.N(7) {
		case 0, 1, 2:
			b.op(0, plan.Op{K: "psplit", NS: "a", N: b.R(-1, 5), M: b.PickI(b.R(1, 8), 1000)})
		case 3, 4:
			b.op(0, plan.Op{K: "pmerge", NS: "a", N: b.R(-1, 3), M: b.PickI(b.R(1, 8), 1000)})
		case 5:
			b.op(0, plan.Op{K: b.Pick("drainU", "drainO", "knn", "memtrim", "expire", "dint"), NS: "a", Vec: b.vec(), N: b.R(1, 5), Drain: true})
		default:
			b.fill(0, 0, "a", b.R(1, 4))
		}
	}
	return b.checks("conserve")
}

func c19auto(b *B) *plan.Plan {
	b.nodes(1)
	b.P.Nodes[0].Threshold = b.R(2, 8)
	nc := b.R(1, 4)
	b.clients(nc)
	for c := 0; c < nc; c++ {
		for k := b.R(2, 12); k > 0; k-- {
			i := b.item("a")
			if b.Ch(0.2) && i > 0 {
				b.P.Items[i].Vec = b.P.Items[b.N(i)].Vec
			}
			if b.Ch(0.15) {
				b.P.Items[i].ExpOn, b.P.Items[i].ExpMS = true, int64(b.R(30, 500))
			}
			b.put(c, i, "node").Wait = b.shortWait()
			if b.Ch(0.15) {
				b.op(c, plan.Op{K: b.Pick("drainU", "drainO", "knn", "memtrim", "expire"), NS: "a", Vec: b.vec(), N: b.R(1, 3), Drain: true})
			}
		}
	}
	b.P.Opt["autosize"] = 1
	return b.checks("sizes,conserve")
}

// c19re: puts into partitions that other requests brought below, to or above
// the threshold.
func c19re(b *B) *plan.Plan {
	b.nodes(1)
	b.P.Nodes[0].Threshold = b.R(2, 8)
	b.clients(1)
	b.fill(0, 0, "a", b.R(1, 10))
	for k := b.R(3, 12); k > 0; k-- {
		switch b.N(8) {
		case 0, 1:
			b.op(0, plan.Op{K: "pmerge", NS: "a", N: b.R(-1, 3), M: b.PickI(b.R(1, 12), 1000)})
		case 2:
			b.op(0, plan.Op{K: b.Pick("psplit", "dint"), NS: "a", N: b.R(0, 5), M: b.PickI(b.R(1, 8), 1000)})
		case 3:
			b.op(0, plan.Op{K: b.Pick("drainU", "drainO", "knn", "memtrim", "expire"), NS: "a", Vec: b.vec(), N: b.R(1, 4), Drain: true})
		default:
			b.op(0, plan.Op{K: "pput", M: 2, NS: "a", Item: b.item("a")})
		}
	}
	b.P.Opt["putsizes"] = 1
	return b.checks("conserve")
}

func c19loops(b *B) *plan.Plan {
	b.nodes(1)
	thr := b.R(2, 8)
	b.P.Nodes[0].Threshold = thr
	b.calm()
	e := &plan.ELCfg{LoopMS: 20, StepMS: 20, Expire: 2000, MemTrim: b.PickI(1, 3, 2000), Fast: 2000, Acc: 2000, Int: b.PickI(1, 2000), IntN: b.R(0, 5),
		Split: 1, Merge: b.PickI(1, 2000), LB: 2000, Meta: 1, SplitMin: thr - 1, SplitMax: 1000000, MergeMin: -1, MergeMax: b.R(0, thr/2+1)}
	b.P.Nodes[0].EL = e
	nc := b.R(1, 3)
	b.clients(nc)
	for c := 0; c < nc; c++ {
		for k := b.R(3, 10); k > 0; k-- {
			b.put(c, b.item("a"), "node").Wait = b.wait()
		}
	}
	b.op(0, plan.Op{K: "sleep", X: int64(b.R(100, 900)) * 1000})
	return b.checks("conserve,means")
}

// ---- robustness -----------------------------------------------------------------

func (b *B) odd(c int) {
	o := plan.Op{K: "odd", Node: b.node(), NS: b.Pick("a", "a", "none"), Wait: b.wait(),
		S: b.Pick("KNNLookup", "DrainUnordered", "DrainOrdered", "NearestCentroids", "NearestCentroidVec", "DistributeDataPointsFast", "DistributeDataPointsAccurate",
			"DistributeDataPointsInternal", "SplitCentroids", "MergeCentroids", "StealCentroid", "NoSuchMethod", "Vec", "Mistyped"),
		N: b.PickI(-1, 0, -1000000, 1, 3, 100, 1<<62, math.MaxInt64), M: b.PickI(1, 0, -5, 100, math.MinInt64), Vec: b.vec(), Drain: b.Ch(0.5)}
	switch o.S {
	case "NearestCentroidVec", "NearestCentroids", "KNNLookup":
		if b.Ch(0.2) {
			o.Vec = nil
		}
		if b.Ch(0.2) {
			o.Vec = b.vecD(b.dim + 1)
		}
	case "DistributeDataPointsFast", "DistributeDataPointsAccurate", "StealCentroid":
		if b.Ch(0.5) {
			o.Addrs = b.subset()
		}
		if b.Ch(0.5) {
			o.X = int64(b.R(1, 60))
		}
	}
	b.op(c, o)
}

func (b *B) mustServe(c int) {
	o := b.op(c, plan.Op{K: b.Pick("nss", "meta", "lendp", "knn", "put"), Node: b.node(), NS: "served", Vec: b.vec(), N: 2, X: 8, Wait: b.wait()})
	if o.K == "put" {
		i := b.item("served")
		o.Item = i
	}
}

func c20odd(b *B) *plan.Plan {
	n := b.R(1, 2)
	b.nodes(n)
	b.clients(b.R(1, 3))
	b.P.Opt["noCensus"] = 1
	for i := 0; i < n; i++ {
		b.fill(0, i, "a", b.R(1, 6))
		b.fill(0, i, "served", 1)
	}
	b.bar(1)
	for c := range b.P.Clients {
		for k := b.R(2, 6); k > 0; k-- {
			b.odd(c)
			if b.Ch(0.4) {
				b.mustServe(c)
			}
		}
	}
	return b.checks("alive")
}

func c20garbage(b *B) *plan.Plan {
	n := b.R(1, 2)
	b.nodes(n)
	b.P.Nodes[0].API = true
	b.clients(b.R(1, 3))
	for i := 0; i < n; i++ {
		b.fill(0, i, "a", b.R(1, 4))
		b.fill(0, i, "served", 1)
	}
	b.bar(1)
	for c := range b.P.Clients {
		for k := b.R(2, 6); k > 0; k-- {
			switch b.N(4) {
			case 0:
				raw := make([]byte, b.PickI(0, 1, 5, 50, 500))
				for i := range raw {
					raw[i] = byte(b.U())
				}
				if len(raw) > 0 && raw[0] >= 0xf8 {
					raw[0] = 0x20 // not a declared length of exabytes
				}
				b.op(c, plan.Op{K: "raw", Node: b.node(), Item: -1, Raw: raw, S: b.Pick("abort", "hold", ""), X: int64(b.PickI(0, 1000, 100000)), Wait: b.wait()})
			case 1:
				b.op(c, plan.Op{K: "raw", Node: 0, M: 1, Item: -1, Raw: []byte(b.Pick("GET / HTTP/1.1\r\n\r\n", "\r\n\r\n", "POST /api/dp/put HTTP/1.1\r\n", "PUT /x HTTP/9.9\r\n\r\n", "\x16\x03\x01")), S: b.Pick("abort", "hold", ""), X: int64(b.PickI(0, 1000, 100000)), Wait: b.wait()})
			case 2:
				if b.Ch(0.3) {
					o := b.crowd(b.node())
					if b.Ch(0.3) {
						o.Node, o.M = 0, 1
					}
					b.op(c, o)
					break
				}
				b.badReq(c, 0)
			default:
				b.mustServe(c)
			}
		}
	}
	return b.checks("alive,http,conserve")
}

// c20hollow: partitions that have been emptied, asked about in every way.
func c20hollow(b *B) *plan.Plan {
	n := b.R(1, 2)
	b.nodes(n)
	b.P.Nodes[0].API = true
	b.clients(b.R(1, 2))
	for i := 0; i < n; i++ {
		b.P.Nodes[i].Threshold = b.R(1, 4)
		for k := b.R(3, 12); k > 0; k-- {
			it := b.item("a")
			if b.Ch(0.4) {
				b.P.Items[it].ExpOn, b.P.Items[it].ExpMS = true, int64(b.R(300, 600))
			}
			o := b.put(0, it, "node")
			o.Node = i
		}
		b.fill(0, i, "served", 1)
	}
	b.bar(1)
	if b.P01() {
		b.op(0, plan.Op{K: "sleep", X: 700000})
	}
	for c := range b.P.Clients {
		for k := b.R(4, 10); k > 0; k-- {
			o := plan.Op{K: b.Pick("drainU", "drainO", "knn", "split", "merge", "expire", "memtrim", "dint", "movevec", "nc", "nc", "nc", "ncv", "vec", "steal", "lendp"),
				Node: b.node(), NS: "a", Vec: b.vec(), N: b.R(0, 9), Drain: b.P01(), Wait: b.wait()}
			switch o.K {
			case "split":
				o.N, o.M = b.R(0, 2), 100
			case "merge":
				o.N, o.M = -1, b.R(1, 5)
			case "steal":
				o.Addrs = []int{b.node()}
			}
			b.op(c, o)
			if b.Ch(0.3) {
				b.mustServe(c)
			}
		}
	}
	return b.checks("alive,conserve")
}

func c20accept(b *B) *plan.Plan {
	n := b.R(1, 2)
	b.nodes(n)
	if b.P01() {
		b.loops(n > 1)
	}
	b.clients(b.R(1, 3))
	for i := 0; i < n; i++ {
		b.fill(0, i, "served", b.R(1, 2))
	}
	b.bar(1)
	for c := range b.P.Clients {
		for k := b.R(2, 6); k > 0; k-- {
			if b.Ch(0.3) {
				b.op(c, plan.Op{K: "emfile", Node: b.node(), N: b.PickI(1, 1, 2, 10, 100, 1000), Wait: b.wait()})
			} else {
				b.mustServe(c)
			}
		}
	}
	return b.checks("alive,conserve")
}

// ---- stop and start ----------------------------------------------------------------

// crowd opens many connections.
func (b *B) crowd(i int) plan.Op {
	return plan.Op{K: "raw", Node: i, Item: -1, Raw: []byte(b.Pick("", "", "\x20")), S: "crowd", N: b.PickI(5, 20, 70, 150, 300, 300, 600), X: int64(b.PickI(100000, 10000000, 1000000000)), Wait: b.shortWait()}
}

func c22(b *B) *plan.Plan {
	n := b.R(1, 2)
	b.nodes(n)
	b.clients(b.R(1, 3))
	for k := b.R(1, 4); k > 0; k-- {
		w := b.wait()
		b.op(0, plan.Op{K: "nss", Wait: w})
		b.op(0, plan.Op{K: "nstop", Wait: b.wait()})
		if b.P01() {
			b.op(0, plan.Op{K: b.Pick("nss", "meta"), Wait: b.shortWait()})
		}
		if b.Ch(0.2) {
			b.op(0, plan.Op{K: "nstop", Wait: b.shortWait()})
		}
		b.op(0, plan.Op{K: "nstart", Wait: b.shortWait()})
		if b.Ch(0.3) {
			b.op(0, plan.Op{K: "restop", N: b.PickI(1, 1, 2), Wait: b.shortWait()})
		}
		b.op(0, plan.Op{K: b.Pick("nss", "meta"), Wait: b.shortWait()})
	}
	for c := 1; c < len(b.P.Clients); c++ {
		if b.Ch(0.5) {
			// A connection that stays open, idle or in the middle of a request.
			raw := []byte(b.Pick("", "", "\x20", "\x0d\xff"))
			b.op(c, plan.Op{K: "raw", Node: 0, Item: -1, Raw: raw, S: "hold", X: int64(b.PickI(1000, 100000, 100000000)), Wait: b.shortWait()})
		} else if b.Ch(0.3) {
			b.op(c, b.crowd(0))
		}
		for k := b.R(2, 8); k > 0; k-- {
			b.op(c, plan.Op{K: b.Pick("nss", "meta", "knn"), Node: b.node(), NS: "a", Vec: b.vec(), N: 1, Wait: b.wait()})
		}
	}
	b.P.Opt["noCensus"] = 1
	return b.checks("restart,alive")
}

// ---- transfer reports ---------------------------------------------------------------

func c23(b *B) *plan.Plan {
	n := b.R(2, 3)
	b.placeNodes(n)
	b.clients(1)
	for i := 0; i < n; i++ {
		if i == 0 || b.Ch(0.7) {
			if b.Ch(0.4) {
				// Few and large partitions.
				b.P.Nodes[i].Threshold = b.PickI(16, 24, 40, 1000)
				b.fill(0, i, "a", b.R(15, 45))
				for k := b.N(3); k > 0; k-- {
					b.op(0, plan.Op{K: "split", Node: i, NS: "a", N: b.R(0, 8), M: 1000})
				}
				continue
			}
			b.fill(0, i, "a", b.R(1, 12))
		}
	}
	for k := b.R(1, 6); k > 0; k-- {
		switch b.N(6) {
		case 0, 1, 2, 3:
			t := b.node()
			o := plan.Op{K: "psteal", Node: t, NS: b.Pick("a", "a", "a", "a", "none"), N: b.PickI(-1, 0, 1, 2, 3, 5, 8, 12, 20, 50), Addrs: []int{b.node()}}
			if b.Ch(0.1) {
				o.Addrs = []int{20}
			}
			b.op(0, o)
		case 4:
			b.maybeNotSelf(b.op(0, plan.Op{K: "pdist", Node: b.node(), NS: "a", S: b.Pick("fast", "acc"), N: b.PickI(b.R(0, 6), b.R(0, 6), b.R(5, 40)), Addrs: b.subset()}))
		default:
			if b.P01() {
				b.op(0, plan.Op{K: b.Pick("drainU", "drainO"), Node: b.node(), NS: "a", N: b.R(1, 5)})
			} else {
				b.maint(0, "a", false)
			}
		}
	}
	return b.checks("conserve")
}

func c23faults(b *B) *plan.Plan {
	c23(b)
	for k := b.R(1, 2); k > 0; k-- {
		f := plan.Fault{K: b.Pick("refuse", "cutreq", "dialtimeout"), Src: -1, Dst: b.node(), Nth: b.R(1, 6), Frac: b.F() * 0.98}
		switch f.K {
		case "cutreq":
			f.Method = "NearestCentroids"
		default:
			f.Src = b.node()
			f.Nth = b.R(1, 12)
		}
		b.P.Faults = append(b.P.Faults, f)
	}
	return b.checks("conserve")
}

// ---- data races --------------------------------------------------------------------

func c21node(b *B) *plan.Plan {
	switch b.N(4) {
	case 0:
		return c08(b)
	case 1:
		return c03(b, 1)
	case 2:
		return c06(b, 1)
	}
	b.nodes(1)
	b.P.Nodes[0].API = true
	nc := b.R(2, 4)
	b.clients(nc)
	b.fill(0, 0, "a", b.R(1, 6))
	b.bar(1)
	for c := 0; c < nc; c++ {
		for k := b.R(2, 7); k > 0; k-- {
			switch b.N(7) {
			case 0, 1:
				b.put(c, b.item(b.Pick("a", "a", "b")), b.Pick("node", "http")).Wait = b.shortWait()
			case 2:
				b.op(c, plan.Op{K: b.Pick("vec", "ncv", "nc", "nc", "lendp", "meta", "nss"), NS: "a", Vec: b.vec(), N: b.R(1, 3), Wait: b.shortWait()})
			case 3:
				b.query(c, "a", b.P01()).Wait = b.shortWait()
			case 4:
				b.op(c, plan.Op{K: "movevec", NS: "a", Wait: b.shortWait()})
			default:
				b.maint(c, "a", false)
				b.P.Clients[c].Ops[len(b.P.Clients[c].Ops)-1].Wait = b.shortWait()
			}
		}
	}
	return b.checks("")
}

// c21storm lets every pair of requests to one namespace meet.
func c21storm(b *B) *plan.Plan {
	b.nodes(1)
	b.P.Nodes[0].API = b.Ch(0.3)
	b.P.Net = plan.NetCfg{JitUS: int64(b.PickI(0, 20, 200)), Segs: 1}
	nc := b.R(3, 6)
	b.clients(nc)
	two := b.Ch(0.4)
	b.fill(0, 0, "a", b.R(0, 8))
	if two {
		b.fill(0, 0, "b", b.R(1, 4))
	}
	for i := range b.P.Items {
		if b.Ch(0.2) {
			b.P.Items[i].ExpOn, b.P.Items[i].ExpMS = true, int64(b.R(1, 60))
		}
	}
	kinds := []string{"put", "knn", "knn", "drainU", "drainO", "lendp", "meta", "nss", "vec", "ncv", "nc", "expire", "memtrim", "movevec", "split", "merge", "dint"}
	// Few kinds per run, so that equal ones meet too.
	var use []string
	for k := b.R(2, 5); k > 0; k-- {
		use = append(use, kinds[b.N(len(kinds))])
	}
	for k := b.R(3, 6); k > 0; k-- {
		b.bar(k)
		for c := 0; c < nc; c++ {
			o := plan.Op{K: use[b.N(len(use))], NS: "a", Vec: b.vec(), N: b.R(1, 3), Wait: int64(b.PickI(0, 0, 20, 100))}
			if two && c%2 == 1 {
				o.NS = "b"
			}
			switch o.K {
			case "put":
				b.put(c, b.item(b.Pick("a", "a", "b")), "node").Wait = o.Wait
				continue
			case "split":
				o.N, o.M = b.R(0, 3), 100
			case "merge":
				o.N, o.M = -1, b.R(2, 5)
			case "knn", "nc":
				o.Drain = b.Ch(0.25)
				if o.K == "knn" && b.P.Nodes[0].API && b.Ch(0.3) {
					o.K, o.Acc = "hq", b.P01()
				}
			}
			b.op(c, o)
		}
	}
	return b.checks("")
}

func c21cluster(b *B) *plan.Plan {
	switch b.N(4) {
	case 0:
		c01cluster(b)
		return b.checks("")
	case 1:
		c03(b, b.R(2, 3))
		return b.checks("")
	case 2:
		c02(b, b.P01())
		return b.checks("")
	}
	n := b.R(2, 3)
	b.nodes(n)
	b.P.Nodes[0].API = true
	nc := b.R(2, 4)
	b.clients(nc)
	for i := 0; i < n; i++ {
		b.fill(0, i, "a", b.R(1, 6))
	}
	b.bar(1)
	for c := 0; c < nc; c++ {
		for k := b.R(2, 6); k > 0; k-- {
			switch b.N(5) {
			case 0:
				b.put(c, b.item("a"), b.Pick("node", "http", "lib")).Wait = b.shortWait()
			case 1:
				b.op(c, plan.Op{K: b.Pick("vec", "ncv", "nc", "meta"), Node: b.node(), NS: "a", Vec: b.vec(), N: b.R(1, 3), Wait: b.shortWait()})
			case 2:
				b.query(c, "a", b.P01()).Wait = b.shortWait()
			default:
				b.maint(c, "a", true)
				b.P.Clients[c].Ops[len(b.P.Clients[c].Ops)-1].Wait = b.shortWait()
			}
		}
	}
	return b.checks("")
}

func c21loops(b *B) *plan.Plan {
	c01cluster(b)
	if b.P.Nodes[0].EL == nil {
		b.loops(true)
	}
	for i := range b.P.Nodes {
		if b.Ch(0.3) {
			b.P.Nodes[i].DefLog = 1
		}
	}
	b.op(0, plan.Op{K: "elstop", Node: b.node(), Wait: b.wait()})
	b.tame(3000, 200)
	return b.checks("")
}

func c21stop(b *B) *plan.Plan {
	c22(b)
	return b.checks("")
}

// ---- arbitration ------------------------------------------------------------------------

// c24down: members are lost before or between elections.
func c24down(b *B) *plan.Plan {
	p := c24(b)
	n := len(p.Nodes)
	var ops []plan.Op
	for k := b.R(1, 2); k > 0 && k < n; k-- {
		ops = append(ops, plan.Op{K: "crash", Node: b.node()})
	}
	all := p.Clients[0].Ops
	for i, o := range all {
		if len(ops) > 0 && o.K == "arbforce" && (i == 0 || b.P01()) {
			all = append(append(append([]plan.Op{}, all[:i]...), append(ops, plan.Op{K: "sleep", X: 50000})...), all[i:]...)
			break
		}
	}
	p.Clients[0].Ops = all
	return p
}

// c24elects: members that were told of each other take part, whatever the
// order and number of the names, and a lone one elects itself.
func c24elects(b *B) *plan.Plan {
	n := b.R(1, 6)
	b.nodes(n)
	b.calm()
	arb := int64(b.PickI(5000, 30000))
	for i := range b.P.Nodes {
		b.P.Nodes[i].ArbMS, b.P.Nodes[i].SessMS = arb, 60000
		if b.Ch(0.5) {
			b.P.Nodes[i].Members = b.perm(n)
		}
	}
	b.clients(1)
	for k := b.R(1, 3); k > 0; k-- {
		who := b.perm(n)
		if b.Ch(0.3) {
			who = who[:b.R(1, n)]
		}
		b.op(0, plan.Op{K: "arbforce", Addrs: who, N: b.R(1, 8), X: int64(n), M: 1})
		for _, i := range who {
			b.op(0, plan.Op{K: "arbget", Addrs: []int{i}})
		}
		b.op(0, plan.Op{K: "sleep", X: int64(b.R(0, 10000)) * 1000})
	}
	b.P.Opt["noCensus"] = 1
	return b.checks("arb")
}

// c24few: not every node may become arbiter.
func c24few(b *B) *plan.Plan {
	p := c24(b)
	n := len(p.Nodes)
	var m []int
	for i := 0; i < n; i++ {
		if b.Ch(0.6) {
			m = append(m, i)
		}
	}
	if len(m) == 0 {
		m = []int{b.N(n)}
	}
	for i := range p.Nodes {
		p.Nodes[i].Members = m
		if b.Ch(0.1) {
			p.Nodes[i].Members = nil
		}
	}
	for i := range p.Clients[0].Ops {
		if o := &p.Clients[0].Ops[i]; o.K == "arbforce" && b.P01() {
			o.Addrs = m
		}
	}
	return p
}

func c24(b *B) *plan.Plan {
	n := b.R(1, 4)
	b.nodes(n)
	b.calm()
	arb, sess := int64(b.PickI(5000, 30000)), int64(b.PickI(500, 3000, 10000, 60000))
	for i := range b.P.Nodes {
		b.P.Nodes[i].ArbMS, b.P.Nodes[i].SessMS = arb, sess
	}
	b.clients(1)
	for k := b.R(1, 3); k > 0; k-- {
		b.op(0, plan.Op{K: "arbforce", Addrs: b.all(), N: b.R(1, 8), X: int64(n)})
		for j := b.R(1, 4); j > 0; j-- {
			for i := 0; i < n; i++ {
				b.op(0, plan.Op{K: "arbget", Addrs: []int{i}})
			}
			b.op(0, plan.Op{K: "sleep", X: int64(b.R(0, int(arb)/2)) * 1000})
		}
		if b.P01() {
			b.op(0, plan.Op{K: "sleep", X: int64(b.R(0, 40000)) * 1000})
		}
	}
	b.P.Opt["noCensus"] = 1
	return b.checks("arb")
}

// perm is all nodes in some order.
func (b *B) perm(n int) []int {
	r := make([]int, n)
	for i := range r {
		r[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := b.N(i + 1)
		r[i], r[j] = r[j], r[i]
	}
	return r
}
