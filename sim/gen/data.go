package gen

import (
	"strings"

	"verifsim/plan"
)

func init() {
	Props["C01"] = []Profile{
		{"first-use", 3, c01first},
		{"one-node", 2, c01maint},
		{"cluster", 4, c01cluster},
		{"service", 1, c01service},
		{"refused", 1, c01refused},
	}
	Props["C02"] = []Profile{
		{"requests", 3, func(b *B) *plan.Plan { return c02(b, false) }},
		{"loops", 4, func(b *B) *plan.Plan { return c02(b, true) }},
		{"unreachable", 1, c02unreach},
	}
	Props["C03"] = []Profile{
		{"one-node", 2, func(b *B) *plan.Plan { return c03(b, 1) }},
		{"cluster", 3, func(b *B) *plan.Plan { return c03(b, b.R(2, 4)) }},
	}
	Props["C04"] = []Profile{
		{"one-node", 2, func(b *B) *plan.Plan { return c04(b, 1) }},
		{"cluster", 2, func(b *B) *plan.Plan { return c04(b, b.R(2, 3)) }},
		{"edge", 1, c04edge},
	}
	Props["C05"] = []Profile{{"loop", 3, c05}, {"faults", 1, c05faults}}
	Props["C06"] = []Profile{
		{"one-node", 2, func(b *B) *plan.Plan { return c06(b, 1) }},
		{"cluster", 3, func(b *B) *plan.Plan { return c06(b, b.R(2, 4)) }},
	}
	Props["C07"] = []Profile{{"routes", 3, c07}, {"moves", 2, c07moves}}
	Props["C08"] = []Profile{{"history", 3, c08}, {"small", 2, c08small}, {"meet", 3, c08meet}, {"names", 2, c08names}}
	Props["C09"] = []Profile{{"one-node", 3, c09}, {"cluster", 2, c09cluster}, {"sparse", 2, c09sparse}}
	Props["C10"] = []Profile{{"one-node", 3, c10}, {"http", 1, c10http}}
	Props["C17"] = []Profile{{"one-node", 3, c17}, {"cluster", 2, c17cluster}}
}

const conserve = "conserve"

func c01first(b *B) *plan.Plan {
	b.nodes(1)
	b.P.Nodes[0].API = true
	nc := b.R(2, 4)
	b.clients(nc)
	ns := []string{"a"}
	if b.Ch(0.3) {
		ns = append(ns, "b")
	}
	late := b.P01()
	for c := 0; c < nc; c++ {
		for k := b.R(1, 3); k > 0; k-- {
			i := b.item(ns[b.N(len(ns))])
			if late && b.P01() { // refused
				b.P.Items[i].ExpOn, b.P.Items[i].ExpMS = true, -int64(b.R(1, 100000))
			}
			o := b.put(c, i, b.Pick("node", "node", "node", "http", "lib"))
			o.Wait = b.shortWait()
		}
		if b.Ch(0.3) {
			b.op(c, plan.Op{K: b.Pick("memtrim", "expire", "dint"), NS: "a", N: 2})
		}
	}
	return b.checks(conserve)
}

func c01maint(b *B) *plan.Plan {
	b.nodes(1)
	b.P.Nodes[0].API = true
	if b.Ch(0.4) {
		b.loops(false)
	}
	nc := b.R(2, 4)
	b.clients(nc)
	for c := 0; c < nc; c++ {
		for k := b.R(2, 8); k > 0; k-- {
			if c > 0 && b.Ch(0.5) {
				b.maint(c, "a", false)
				continue
			}
			b.put(c, b.item("a"), b.Pick("node", "node", "http", "lib")).Wait = b.wait()
		}
	}
	return b.checks(conserve)
}

func (b *B) fill(c, node int, ns string, n int) {
	for i := 0; i < n; i++ {
		b.op(c, plan.Op{K: "put", Node: node, NS: ns, Item: b.item(ns)})
	}
}

func c01cluster(b *B) *plan.Plan {
	n := b.R(2, 4)
	b.nodes(n)
	for i := range b.P.Nodes {
		b.P.Nodes[i].API = b.Ch(0.5)
	}
	b.P.Nodes[0].API = true
	if b.Ch(0.6) {
		b.loops(b.Ch(0.6))
	}
	nc := b.R(2, 4)
	b.clients(nc)
	ns := []string{"a", "b"}[:b.R(1, 2)]
	if b.Ch(0.3) {
		// The thief or receiver learns of the namespace while others use it.
		b.fill(0, 0, "a", b.R(2, 8))
		b.bar(1)
	}
	for c := 0; c < nc; c++ {
		for k := b.R(2, 8); k > 0; k-- {
			s := ns[b.N(len(ns))]
			if b.Ch(0.4) {
				b.maint(c, s, true)
				continue
			}
			o := b.put(c, b.item(s), b.Pick("node", "node", "http", "http", "lib"))
			o.Wait = b.wait()
			if o.K == "lput" {
				o.S = b.Pick("rand", "rand", "fast", "acc")
			}
		}
	}
	if b.Ch(0.5) {
		for i := range b.P.Nodes {
			if e := b.P.Nodes[i].EL; e != nil {
				b.op(0, plan.Op{K: "sleep", Node: 0, X: (e.LoopMS + 9*e.StepMS) * 3000})
				break
			}
		}
	}
	return b.checks(conserve)
}

func c01service(b *B) *plan.Plan {
	b.P.Nodes = []plan.NodeCfg{{Service: true, Threshold: b.R(2, 6), EL: b.loop(false)}}
	b.stay(0)
	nc := b.R(2, 3)
	b.clients(nc)
	for c := 0; c < nc; c++ {
		for k := b.R(2, 6); k > 0; k-- {
			b.put(c, b.item("a"), b.Pick("http", "http", "node")).Wait = b.wait()
		}
	}
	if b.P01() {
		b.op(0, plan.Op{K: "sleep", Node: 0, X: int64(b.R(100, 2000)) * 1000})
	}
	b.bar(1)
	b.op(0, plan.Op{K: "hq", Node: 0, NS: "a", Vec: b.vec(), N: 100, X: 1, Acc: b.P01()})
	return b.checks("conserve,complete")
}

func c01refused(b *B) *plan.Plan {
	b.nodes(1)
	b.P.Nodes[0].API = true
	b.P.Opt["dimclash"] = 1
	nc := b.R(1, 3)
	b.clients(nc)
	b.put(0, b.item("a"), "node")
	b.bar(1)
	for c := 0; c < nc; c++ {
		for k := b.R(2, 5); k > 0; k-- {
			i := b.item("a")
			it := &b.P.Items[i]
			switch b.N(3) {
			case 0:
				it.Vec = b.vecD(b.dim + 1)
			case 1:
				it.ExpOn = true
				it.ExpMS = -int64(b.R(1, 100000))
			}
			if b.Ch(0.15) && it.ExpOn {
				it.NS = "fresh"
			}
			b.put(c, i, b.Pick("node", "http")).Wait = b.wait()
		}
	}
	return b.checks(conserve)
}

// netFaults adds message-level faults. Replies of a take-whole-partition
// request are never cut: see known-findings.
func (b *B) netFaults(n int) {
	srcs := func() int {
		if b.Ch(0.5) {
			return -1
		}
		return b.node()
	}
	for i := 0; i < n; i++ {
		f := plan.Fault{Src: srcs(), Dst: srcs(), Nth: b.R(1, 6)}
		switch b.N(10) {
		case 0, 1:
			f.K = b.Pick("refuse", "refuse", "slam")
			f.Nth = b.R(1, 25)
			f.X = int64(b.R(1, 4))
			if f.K == "slam" {
				f.Fin, f.X = b.P01(), int64(b.PickI(0, 0, 50, 1000))
			}
		case 2:
			f.K = "dialtimeout"
			f.Nth = b.R(1, 25)
		case 3, 4:
			f.K = "cutreq"
			f.Method = b.Pick("AddDataPoint", "AddDataPoint", "Vec", "NearestCentroidVec", "NearestCentroids", "Namespaces", "LenDP", "StealCentroid", "DistributeDataPointsFast", "DistributeDataPointsAccurate")
			f.Frac = 0.98 * b.F()
		case 5, 6:
			f.K = "cutrep"
			f.Method = b.Pick("AddDataPoint", "AddDataPoint", "Vec", "NearestCentroidVec", "Namespaces", "LenDP", "StealCentroid", "DistributeDataPointsFast", "DistributeDataPointsAccurate", "MemTrim", "MergeCentroids")
			f.Frac = b.F()
		case 7:
			f.K = b.Pick("delayreq", "delayrep")
			f.Method = b.Pick("AddDataPoint", "Vec", "NearestCentroidVec", "NearestCentroids", "StealCentroid", "")
			f.DurUS = int64(b.R(1, 2000)) * 1000
		case 8:
			f.K = "partition"
			f.AtUS = int64(b.R(0, 400)) * 1000
			f.DurUS = int64(b.R(10, 90000)) * 1000
			for k := range b.P.Nodes {
				if b.P01() {
					f.Group = append(f.Group, k)
				}
			}
			f.X = int64(b.PickI(0, 0, 1))
		default:
			f.K = b.Pick("stall", "slow")
			f.Node = b.node()
			f.AtUS = int64(b.R(0, 300)) * 1000
			f.DurUS = int64(b.R(10, 3000)) * 1000
			f.X = int64(b.PickI(10, 100))
		}
		b.P.Faults = append(b.P.Faults, f)
	}
}

func c02(b *B, loops bool) *plan.Plan {
	n := b.R(2, 4)
	b.nodes(n)
	b.P.Nodes[0].API = true
	if loops {
		b.loops(b.Ch(0.7))
	}
	nc := b.R(1, 3)
	b.clients(nc)
	ns := "a"
	for i := 0; i < n; i++ {
		if i == 0 || b.Ch(0.6) {
			b.fill(0, i, ns, b.R(1, 8))
		}
	}
	b.bar(1)
	for c := 0; c < nc; c++ {
		for k := b.R(1, 5); k > 0; k-- {
			if b.Ch(0.7) {
				b.maint(c, ns, true)
			} else {
				b.put(c, b.item(ns), b.Pick("node", "http", "lib")).Wait = b.wait()
			}
		}
	}
	if loops {
		b.op(0, plan.Op{K: "sleep", Node: 0, X: int64(b.R(100, 3000)) * 1000})
	}
	b.netFaults(b.R(1, 4))
	b.tame(3000, 400)
	return b.checks(conserve)
}

// c02unreach: redistribution towards nodes that are not there, or to nobody.
func c02unreach(b *B) *plan.Plan {
	n := b.R(1, 3)
	b.nodes(n)
	b.clients(1)
	b.fill(0, 0, "a", b.R(1, 8))
	for k := b.R(1, 4); k > 0; k-- {
		o := plan.Op{K: b.Pick("dfast", "dacc", "steal"), Node: 0, NS: "a", N: b.R(1, 8), Wait: b.wait()}
		switch b.N(4) {
		case 0:
		case 1:
			o.Addrs = []int{20, 21}
		case 2:
			o.Addrs = append([]int{20}, b.all()...)
		default:
			o.Addrs = b.all()
		}
		b.op(0, o)
	}
	return b.checks(conserve)
}

func (b *B) query(c int, ns string, drain bool) *plan.Op {
	o := plan.Op{K: "knn", Node: b.node(), NS: ns, Vec: b.vec(), N: b.PickI(0, 1, 2, 3, 4, 5, 6, -1, b.R(-9, 30)), Drain: drain, Wait: b.wait()}
	k := b.N(6)
	if drain && k == 5 {
		k = b.R(3, 5)
	}
	api := false
	for _, n := range b.P.Nodes {
		api = api || n.API
	}
	switch k {
	case 0:
		if api {
			o.K, o.Node, o.Acc = "hq", b.apiNode(), b.P01()
		}
	case 1:
		o.K, o.Node, o.S, o.Addrs = "lget", -1, b.Pick("fast", "acc", "rand"), b.all()
	case 2, 3:
		if drain {
			o.K = b.Pick("drainU", "drainO", "drainU", "drainO", "nc")
			if o.K == "nc" {
				o.N = b.R(1, 3)
			}
		}
	}
	return b.op(c, o)
}

func c03(b *B, n int) *plan.Plan {
	b.nodes(n)
	b.P.Nodes[0].API = true
	if b.Ch(0.5) {
		b.loops(n > 1 && b.P01())
	}
	nc := b.R(2, 4)
	b.clients(nc)
	for i := 0; i < n; i++ {
		if i == 0 || b.Ch(0.7) {
			b.fill(0, i, "a", b.R(1, 8))
		}
	}
	b.bar(1)
	for c := 0; c < nc; c++ {
		for k := b.R(2, 6); k > 0; k-- {
			switch b.N(5) {
			case 0, 1, 2:
				b.query(c, "a", true)
			case 3:
				b.query(c, "a", false)
			default:
				b.maint(c, "a", true)
			}
		}
		if b.Ch(0.3) {
			b.put(c, b.item("a"), b.Pick("node", "http"))
		}
	}
	b.bar(2)
	b.query(0, "a", false).N = 50
	if b.Ch(0.3) {
		b.P.Faults = append(b.P.Faults, plan.Fault{K: b.Pick("stall", "slow"), Node: b.node(), AtUS: int64(b.R(0, 200)) * 1000, DurUS: int64(b.R(5, 2000)) * 1000, X: 50})
	}
	return b.checks("handed,conserve")
}

func (b *B) expItem(ns string) int {
	i := b.item(ns)
	it := &b.P.Items[i]
	it.ZoneMin = b.PickI(0, 0, 60, -330)
	switch b.N(6) {
	case 0: // none, but a date in the past is there
		it.ExpMS = -int64(b.R(1, 1000000))
	case 1: // long gone
		it.ExpOn, it.ExpMS = true, -int64(b.R(1, 1000000))
	case 2, 3: // soon
		it.ExpOn, it.ExpMS = true, int64(b.R(1, 3000))
	case 4:
		it.ExpOn, it.ExpMS = true, int64(b.R(100, 400))*100
	default: // far
		it.ExpOn, it.ExpMS = true, int64(b.R(10, 100))*86400*1000
	}
	if b.Ch(0.2) {
		it.ExpNS = int64(b.N(1000000))
	}
	return i
}

func (b *B) clocks() {
	for i := range b.P.Nodes {
		if b.Ch(0.4) {
			b.P.Nodes[i].WallMS = int64(b.R(-4000, 4000))
			if b.Ch(0.3) {
				b.P.Nodes[i].WallMS *= 3600
			}
		}
	}
	for k := b.N(3); k > 0; k-- {
		b.P.Faults = append(b.P.Faults, plan.Fault{K: "clockjump", Node: b.node(), AtUS: int64(b.R(1, 4000)) * 1000, X: int64(b.R(-3000, 6000))})
	}
}

func c04(b *B, n int) *plan.Plan {
	b.nodes(n)
	b.P.Nodes[0].API = true
	if b.Ch(0.6) {
		b.loops(n > 1)
	}
	b.clocks()
	nc := b.R(1, 3)
	b.clients(nc)
	for c := 0; c < nc; c++ {
		for k := b.R(3, 9); k > 0; k-- {
			switch b.N(8) {
			case 0, 1, 2:
				b.put(c, b.expItem("a"), b.Pick("node", "node", "http", "lib")).Wait = b.wait()
			case 3, 4, 5:
				o := b.query(c, "a", b.Ch(0.2))
				if b.Ch(0.2) {
					*o = plan.Op{K: "nc", Node: b.node(), NS: "a", Vec: b.vec(), N: b.R(1, 5), Drain: b.Ch(0.3)}
				}
				if b.P01() {
					o.Wait = int64(b.R(1, 1500)) * 1000
				}
			case 6:
				b.op(c, plan.Op{K: "clock", Node: b.node(), X: int64(b.R(-2000, 5000))})
			default:
				b.maint(c, "a", true)
			}
		}
	}
	return b.checks("expiry")
}

// c04edge: requests within microseconds of the expiry.
func c04edge(b *B) *plan.Plan {
	b.nodes(1)
	b.P.Net.JitUS = int64(b.PickI(0, 50))
	b.P.Net.LatUS = int64(b.PickI(0, 10))
	b.clients(2)
	at := int64(b.R(30, 60))
	for k := b.R(1, 6); k > 0; k-- {
		i := b.item("a")
		b.P.Items[i].ExpOn, b.P.Items[i].ExpMS, b.P.Items[i].ExpNS = true, at, int64(b.N(2000000))
		b.put(0, i, "node")
	}
	for c := 0; c < 2; c++ {
		for k := b.R(4, 20); k > 0; k-- {
			b.op(c, plan.Op{K: b.Pick("knn", "knn", "drainU", "drainO"), NS: "a", Vec: b.vec(), N: b.R(0, 3), Wait: int64(b.N(4000))})
		}
	}
	return b.checks("expiry")
}

func c05(b *B) *plan.Plan {
	n := b.R(1, 3)
	b.nodes(n)
	b.calm()
	lb := n > 1 && b.Ch(0.2)
	still := b.P01() // nothing moves
	loop, step := int64(b.PickI(20, 100, 1000)), int64(b.PickI(5, 50, 200))
	for i := range b.P.Nodes {
		e := b.loop(lb && !still)
		e.LoopMS, e.StepMS = loop*int64(b.R(1, 3)), step*int64(b.PickI(1, 1, 2))
		if still {
			e.Fast, e.Acc, e.Int, e.Split, e.Merge = 2000, 2000, 2000, 2000, 2000
		}
		switch b.N(6) {
		case 5: // some at the same time, others not at all
			for _, p := range []*int{&e.MemTrim, &e.Fast, &e.Acc, &e.Int, &e.Split, &e.Merge} {
				if *p = 2000; b.Ch(0.4) {
					*p = e.Expire
				}
			}
		case 0:
			e.MemTrim = 2000
		case 1:
			e.Expire = 2000
		case 2: // all at the same time
			for _, p := range []*int{&e.MemTrim, &e.Fast, &e.Acc, &e.Int, &e.Split, &e.Merge} {
				if *p <= 1000 {
					*p = e.Expire
				}
			}
		}
		b.P.Nodes[i].EL = e
	}
	if b.Ch(0.4) {
		b.clocks()
	}
	nc := b.R(1, 2)
	b.clients(nc)
	ns := []string{"a", "b"}[:b.R(1, 2)]
	for c := 0; c < nc; c++ {
		for k := b.R(2, 9); k > 0; k-- {
			i := b.item(ns[b.N(len(ns))])
			if b.Ch(0.7) {
				it := &b.P.Items[i]
				it.ExpOn, it.ExpMS = true, int64(b.R(50, 4000))
				if b.Ch(0.2) {
					it.ExpMS = 100 * 86400 * 1000
				}
			}
			b.put(c, i, "node").Wait = b.wait()
		}
		if b.Ch(0.3) {
			b.op(c, plan.Op{K: "drainU", Node: b.node(), NS: "a", N: b.R(1, 4), Wait: b.wait()})
		}
	}
	b.P.Opt["keepEL"] = 1
	b.P.Opt["noSettle"] = 1
	b.P.Opt["farMS"] = 50 * 86400 * 1000
	off := int64(0)
	for i := range b.P.Nodes {
		if w := b.P.Nodes[i].WallMS; w < -off {
			off = -w
		}
	}
	b.tame(off+10000, 300)
	return b.checks("reclaim,expiry")
}

// c05faults: requests of the loop fail now and then.
func c05faults(b *B) *plan.Plan {
	c05(b)
	for i := range b.P.Nodes {
		e := b.P.Nodes[i].EL
		if b.Ch(0.7) {
			e.Fast, e.Acc, e.Merge, e.Meta = 2000, 2000, 2000, 2000
		}
		// One task must do it.
		if b.P01() {
			e.Expire, e.MemTrim = min(e.Expire, 5), 2000
		} else {
			e.Expire, e.MemTrim = 2000, min(e.MemTrim, 5)
		}
	}
	b.P.Opt["healMS"] = 5000
	for k := b.R(1, 2); k > 0; k-- {
		i := b.node()
		f := plan.Fault{K: b.Pick("cutreq", "cutrep", "cutreq", "refuse", "stall"), Src: i, Dst: i, Nth: b.R(1, 4), Frac: float64(b.N(10)) / 10}
		switch f.K {
		case "refuse":
			f.Nth, f.X = b.R(1, 12), int64(b.R(1, 2))
		case "stall":
			f = plan.Fault{K: "stall", Node: i, AtUS: int64(b.R(0, 4000)) * 1000, DurUS: int64(b.PickI(50, 500, 3000)) * 1000}
		default:
			f.Method = "Expire"
			if b.P.Nodes[i].EL.Expire > 1000 {
				f.Method = "MemTrim"
			}
			if b.Ch(0.2) {
				f.Method = "Namespaces"
			}
		}
		b.P.Faults = append(b.P.Faults, f)
	}
	return b.P
}

func c06(b *B, n int) *plan.Plan {
	b.nodes(n)
	for i := range b.P.Nodes {
		b.P.Nodes[i].API = b.P01()
	}
	b.P.Nodes[0].API = true
	if b.Ch(0.5) {
		b.loops(n > 1 && b.P01())
	}
	var ns []string
	last := 0
	for len(ns) < b.R(2, 4) {
		k := b.N(len(nsNames))
		if len(ns) > 0 && b.Ch(0.4) {
			k = (last + 1) % len(nsNames) // kin are next to each other
		}
		last = k
		s := nsNames[k]
		dup := false
		for _, x := range ns {
			dup = dup || x == s
		}
		if !dup {
			ns = append(ns, s)
		}
	}
	// One that is nobody's, perhaps akin to another.
	unused := "unused"
	for k := 0; k < 5 && b.Ch(0.8); k++ {
		x := ns[b.N(len(ns))]
		r := []rune(x)
		x = b.Pick(string(r[:b.N(len(r)+1)]), string(r[b.N(len(r)+1):]), x+b.Pick("a", " ", "/", "0"), "a"+x, strings.ToUpper(x), strings.TrimSpace(x))
		free := true
		for _, y := range ns {
			free = free && x != y
		}
		if free {
			unused = x
			break
		}
	}
	routes := []string{"node", "node", "http", "lib"}
	for _, s := range ns {
		if plan.Name(s) != s { // not by HTTP
			routes = []string{"node", "node", "lib"}
			for i := range b.P.Nodes {
				b.P.Nodes[i].API = false
			}
		}
	}
	// The same points in several namespaces, of different sizes.
	nc := b.R(2, 4)
	b.clients(nc)
	shared := b.vec()
	for c := 0; c < nc; c++ {
		for k := b.R(3, 8); k > 0; k-- {
			s := ns[b.N(len(ns))]
			switch b.N(8) {
			case 0, 1, 2, 3:
				i := b.item(s)
				if b.Ch(0.3) {
					b.P.Items[i].Vec = shared
				}
				b.put(c, i, b.Pick(routes...)).Wait = b.wait()
			case 4:
				b.query(c, s, b.P01())
			case 5:
				b.op(c, plan.Op{K: b.Pick("nss", "meta", "lendp", "vec", "ncv"), Node: b.node(), NS: s, Vec: b.vec(), Wait: b.wait()})
			case 6:
				// A namespace nobody uses must not come into being.
				b.op(c, plan.Op{K: b.Pick("lendp", "drainU", "knn", "expire", "memtrim", "split", "dint", "vec"), Node: b.node(), NS: unused, Vec: b.vec(), N: 2, M: 5, Wait: b.wait()})
			case 7:
				if b.Ch(0.4) { // refused
					if b.P01() {
						s = unused
					}
					i := b.item(s)
					b.P.Items[i].ExpOn, b.P.Items[i].ExpMS = true, -int64(b.R(1, 100000))
					b.put(c, i, "node").Wait = b.wait()
					break
				}
				fallthrough
			default:
				b.maint(c, s, true)
			}
		}
	}
	return b.checks("namespaces")
}
