package gen

import "verifsim/plan"

// c03cut: answers to draining queries are lost on the way, here and there.
// Nothing moves, so what a node gives up is what was asked of it.
func c03cut(b *B) *plan.Plan {
	n := b.R(1, 3)
	b.nodes(n)
	for i := range b.P.Nodes {
		b.P.Nodes[i].API = b.P01()
	}
	b.P.Nodes[0].API = true
	nc := b.R(1, 2)
	b.clients(nc)
	for i := 0; i < n; i++ {
		if i == 0 || b.Ch(0.7) {
			b.fill(0, i, "a", b.R(4, 14))
		}
	}
	b.bar(1)
	for c := 0; c < nc; c++ {
		for k := b.R(1, 3); k > 0; k-- {
			o := plan.Op{K: b.Pick("lget", "lget", "hq", "knn", "drainU", "drainO"), Node: b.node(), NS: "a", Vec: b.vec(), N: b.R(1, 3), Drain: true, Wait: b.wait(), Acc: b.P01()}
			switch o.K {
			case "lget":
				o.Node, o.S, o.Addrs = -1, b.Pick("fast", "acc", "rand"), b.subset()
			case "hq":
				o.Node = b.apiNode()
			}
			b.op(c, o)
		}
	}
	for k := b.R(1, 3); k > 0; k-- {
		f := plan.Fault{K: b.Pick("cutrep", "cutrep", "cutrep", "cutreq", "refuse", "delayrep"), Method: b.Pick("KNNLookup", "KNNLookup", "DrainUnordered", "DrainOrdered", "Vec"), Src: -1, Dst: b.node(), Nth: b.R(1, 3), Frac: 0.98 * b.F()}
		switch f.K {
		case "refuse":
			f.Method, f.Nth, f.X = "", b.R(5, 30), 1
		case "delayrep":
			f.DurUS = int64(b.PickI(1000, 100000, 5000000, 40000000))
		}
		b.P.Faults = append(b.P.Faults, f)
	}
	return b.checks("asked")
}

// c13clash: some nodes hold vectors of another length and so cannot take what
// is put; the first node, which is reachable, can.
func c13clash(b *B) *plan.Plan {
	n := b.R(2, 4)
	b.nodes(n)
	b.P.Nodes[0].API = true
	b.order()
	nc := b.R(1, 3)
	b.clients(nc)
	d := b.dim
	seeded := b.Ch(0.6)
	for i := 0; i < n; i++ {
		b.dim = d
		if i > 0 && b.Ch(0.7) {
			b.dim = d + 1
		}
		if i > 0 || seeded {
			b.fill(0, i, "a", b.R(1, 4))
		}
	}
	b.dim = d
	if b.Ch(0.3) {
		b.op(0, plan.Op{K: "crash", Node: b.R(1, n-1)})
		b.P.Opt["faulty"] = 1
	}
	b.bar(1)
	b.availPuts(nc, b.R(1, 5), seeded)
	return b.checks("avail,conserve")
}

// c23puts: points are put while others are taken over.
func c23puts(b *B) *plan.Plan {
	n := b.R(2, 3)
	b.nodes(n)
	nc := b.R(2, 4)
	b.clients(nc)
	b.fill(0, 0, "a", b.R(4, 20))
	for i := 1; i < n; i++ {
		if b.P01() {
			b.fill(0, i, "a", b.R(1, 4))
		}
	}
	b.bar(1)
	for c := 0; c < nc; c++ {
		for k := b.R(2, 6); k > 0; k-- {
			i := b.R(1, n-1)
			switch b.N(6) {
			case 0, 1:
				b.op(c, plan.Op{K: "steal", Node: i, NS: "a", N: b.PickI(1, 2, 3, 5, 8, 50), Addrs: []int{0}, Wait: b.wait()})
			case 2, 3, 4:
				o := b.put(c, b.item("a"), "node")
				o.Wait = b.wait()
				if o.Node = i; b.Ch(0.2) {
					o.Node = 0
				}
			default:
				b.op(c, plan.Op{K: b.Pick("split", "merge", "dint", "memtrim"), Node: b.node(), NS: "a", N: b.R(-1, 3), M: b.R(3, 100), Wait: b.wait()})
			}
		}
	}
	return b.checks("taken,conserve")
}

// mortal: the points of some plans expire some time after it is over.
func (b *B) mortal() {
	switch b.P.Prop {
	case "C01", "C02", "C03", "C06", "C07", "C11", "C12", "C13", "C14", "C23":
	default:
		return
	}
	if !b.Ch(0.15) {
		return
	}
	b.P.Opt["mortal"] = 1
	for i := range b.P.Items {
		if it := &b.P.Items[i]; !it.ExpOn && it.ExpMS == 0 && b.Ch(0.7) {
			it.ExpOn, it.ExpMS = true, int64(b.R(18, 150))*1000
		}
	}
}

func init() {
	add := func(p string, f Profile) { Props[p] = append(Props[p], f) }
	add("C03", Profile{"cut", 2, c03cut})
	add("C13", Profile{"clash", 1, c13clash})
	add("C23", Profile{"puts", 2, c23puts})
	add("C02", Profile{"both", 2, c02both})
	add("C03", Profile{"many", 2, c03many})
	add("C17", Profile{"steals", 1, c17steals})
}

// c02both: a node that came to hold vectors of two lengths gives datapoints
// away to nodes that fail to store them, while its partitions change.
func c02both(b *B) *plan.Plan {
	n := b.R(2, 3)
	b.nodes(n)
	b.P.Net = plan.NetCfg{LatUS: int64(b.PickI(0, 0, 50)), JitUS: int64(b.PickI(0, 0, 20)), Segs: 1}
	nc := b.R(2, 3)
	b.clients(nc)
	d := b.dim
	for i := range b.P.Nodes {
		b.dim = d + b.PickI(i%2, i%2, b.N(2))
		k := b.R(1, 4)
		b.fill(0, i, "a", k)
	}
	b.bar(1)
	for i := 1; i < n; i++ {
		b.op(0, plan.Op{K: "steal", Node: 0, NS: "a", N: b.R(1, 8), Addrs: []int{i}})
	}
	b.bar(2)
	for c := 0; c < nc; c++ {
		for k := b.R(1, 4); k > 0; k-- {
			o := plan.Op{K: b.Pick("memtrim", "memtrim", "memtrim", "split", "merge", "put", "drainU", "expire", "dint"), Node: b.PickI(0, 0, 0, b.node()), NS: "a", N: b.R(1, 4), Wait: int64(b.PickI(0, 0, 20, 300, 1000))}
			if c == 0 || b.Ch(0.15) {
				o.K, o.N, o.Addrs = b.Pick("dfast", "dacc"), b.R(1, 20), b.others(0)
			}
			switch o.K {
			case "put":
				b.dim = d + b.N(2)
				o.Item = b.item("a")
			case "split", "merge":
				o.N, o.M = 0, b.R(2, 20)
			}
			b.op(c, o)
		}
	}
	b.dim = d
	for i := 1; i < n; i++ {
		if b.Ch(0.8) {
			f := plan.Fault{K: "cutreq", Method: "AddDataPoint", Src: 0, Dst: i, Frac: 0.98 * b.F()}
			if b.Ch(0.3) {
				f.Nth = b.R(1, 6)
			}
			b.P.Faults = append(b.P.Faults, f)
		}
	}
	return b.checks(conserve)
}

// c03many: drains of many points spread over many partitions.
func c03many(b *B) *plan.Plan {
	n := b.R(1, 2)
	b.nodes(n)
	b.P.Nodes[0].API = true
	for i := range b.P.Nodes {
		b.P.Nodes[i].Threshold = b.PickI(3, 4, 6, 10, 16, 30)
		k := b.R(12, 60)
		if b.Ch(0.3) {
			k = b.R(60, 140)
		}
		b.fillAll(i, k)
	}
	for k := b.R(2, 7); k > 0; k-- {
		c := b.N(len(b.P.Clients))
		switch b.N(4) {
		case 0:
			b.maint(c, "a", n > 1)
		case 1:
			b.op(c, plan.Op{K: b.Pick("knn", "hq", "hq", "lget"), Node: 0, NS: "a", Vec: b.vec(), N: b.PickI(b.R(1, 70), b.R(60, 280)), S: b.Pick("fast", "acc", "rand"), Addrs: b.all(), Drain: true, Wait: b.wait()})
			if o := &b.P.Clients[c].Ops[len(b.P.Clients[c].Ops)-1]; o.K == "lget" {
				o.Node = -1
			}
		default:
			b.op(c, plan.Op{K: b.Pick("drainU", "drainO"), Node: b.node(), NS: "a", N: b.R(1, 40), Wait: b.wait()})
		}
	}
	return b.checks("handed,conserve")
}

func (b *B) fillAll(node, n int) {
	if len(b.P.Clients) == 0 {
		b.clients(b.R(1, 3))
	}
	b.fill(0, node, "a", n)
	if node == len(b.P.Nodes)-1 {
		b.bar(1)
	}
}

// c17steals: partitions change hands, and sometimes the rest does not come.
func c17steals(b *B) *plan.Plan {
	n := b.R(2, 3)
	b.nodes(n)
	for i := range b.P.Nodes {
		b.P.Nodes[i].Threshold = b.PickI(2, 3, 4, 6)
	}
	b.clients(b.R(1, 2))
	for i := 0; i < n; i++ {
		b.fill(0, i, "a", b.R(i%2, 14))
	}
	b.bar(1)
	for c := range b.P.Clients {
		for k := b.R(1, 4); k > 0; k-- {
			i := b.node()
			b.op(c, plan.Op{K: "steal", Node: i, NS: "a", N: b.R(1, 15), Addrs: []int{b.others(i)[b.N(n-1)]}, Wait: b.wait()})
			if b.Ch(0.2) {
				b.maint(c, "a", true)
			}
		}
	}
	for k := b.R(0, 3); k > 0; k-- {
		b.P.Faults = append(b.P.Faults, plan.Fault{K: b.Pick("cutreq", "cutreq", "cutrep"), Method: "NearestCentroids", Src: -1, Dst: b.PickI(-1, b.node()), Nth: b.R(1, 6), Frac: 0.98 * b.F()})
	}
	return b.checks("means")
}
