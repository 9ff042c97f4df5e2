package gen

import (
	"verifsim/plan"
)

func init() {
	Props["C25"] = []Profile{{"requests", 3, c25}, {"loops", 2, c25loops}, {"members", 1, c25arb}, {"stop", 1, c25stop}}
	Props["C26"] = []Profile{{"logger", 3, c26}, {"printed", 1, c26def}, {"requests", 1, c26req}}
}

// ---- nothing is left behind ------------------------------------------------------

// anyOp is a request of any kind, to nodes that may not be there.
func (b *B) anyOp(c int, ns string) {
	switch b.N(8) {
	case 0, 1:
		o := b.put(c, b.item(ns), b.Pick("node", "http", "lib", "lib"))
		o.Wait = b.wait()
		if o.K == "lput" {
			o.S = b.Pick("rand", "fast", "acc")
			b.absent(o)
		}
	case 2, 3:
		o := b.query(c, ns, b.Ch(0.3))
		if o.K == "lget" {
			b.absent(o)
		}
	case 4:
		b.op(c, plan.Op{K: b.Pick("vec", "ncv", "nc", "meta", "nss", "lendp"), Node: b.node(), NS: ns, Vec: b.vec(), N: b.R(1, 3), Wait: b.wait()})
	case 5:
		b.op(c, plan.Op{K: "raw", Node: b.node(), Raw: []byte(b.Pick("", "x", "GET / HTTP/1.1\r\n\r\n", "\x05\xff\x81")), S: b.Pick("close", "abort"), X: int64(b.N(1000)), Wait: b.wait()})
	default:
		b.maint(c, ns, true)
		o := &b.P.Clients[c].Ops[len(b.P.Clients[c].Ops)-1]
		if o.K == "dfast" || o.K == "dacc" {
			b.absent(o)
		}
	}
}

// absent adds addresses where nobody listens.
func (b *B) absent(o *plan.Op) {
	if b.Ch(0.3) {
		o.Addrs = append([]int{20 + b.N(5)}, o.Addrs...)
	}
	if b.Ch(0.15) && len(o.Addrs) > 0 {
		o.Addrs = append(o.Addrs, o.Addrs[b.N(len(o.Addrs))])
	}
}

func c25(b *B) *plan.Plan {
	n := b.R(1, 4)
	b.nodes(n)
	for i := range b.P.Nodes {
		b.P.Nodes[i].API = i == 0 || b.Ch(0.3)
	}
	nc := b.R(1, 3)
	b.clients(nc)
	for i := 0; i < n; i++ {
		if b.Ch(0.7) {
			b.fill(0, i, "a", b.R(1, 5))
		}
	}
	b.bar(1)
	for c := 0; c < nc; c++ {
		for k := b.R(3, 10); k > 0; k-- {
			b.anyOp(c, "a")
		}
	}
	if b.Ch(0.6) {
		b.netFaults(b.R(1, 4))
	}
	for k := b.N(4); k > 0; k-- {
		b.P.Faults = append(b.P.Faults, plan.Fault{K: "slam", Src: -1, Dst: -1, Nth: b.R(1, 20), Fin: b.P01(), X: int64(b.PickI(0, 0, 50, 1000))})
	}
	if b.Ch(0.2) {
		b.P.Faults = append(b.P.Faults, plan.Fault{K: "crash", Node: b.node(), AtUS: int64(b.R(0, 300)) * 1000, DurUS: int64(b.R(0, 2000)) * 1000})
	}
	b.P.Opt["noCensus"] = 1
	return b.checks("leaks")
}

func c25loops(b *B) *plan.Plan {
	n := b.R(1, 4)
	b.nodes(n)
	b.P.Nodes[0].API = true
	b.loops(n > 1)
	b.clients(1)
	for i := 0; i < n; i++ {
		if b.Ch(0.7) {
			b.fill(0, i, b.Pick("a", "b"), b.R(1, 8))
		}
	}
	for k := b.R(0, 5); k > 0; k-- {
		b.anyOp(0, "a")
	}
	b.op(0, plan.Op{K: "sleep", X: int64(b.R(100, 5000)) * 1000})
	if b.P01() {
		b.netFaults(b.R(1, 4))
	}
	b.tame(6000, 200)
	b.P.Opt["noCensus"] = 1
	return b.checks("leaks")
}

func c25arb(b *B) *plan.Plan {
	c24(b)
	n := len(b.P.Nodes)
	if n > 1 && b.Ch(0.6) {
		b.P.Faults = append(b.P.Faults, plan.Fault{K: "refuse", Src: -1, Dst: b.node(), Nth: b.R(1, 10), X: int64(b.R(1, 4))})
	}
	if n > 1 && b.Ch(0.3) {
		o := plan.Op{K: "crash", Node: b.node()}
		ops := b.P.Clients[0].Ops
		at := b.N(len(ops))
		b.P.Clients[0].Ops = append(append(append([]plan.Op{}, ops[:at]...), o), ops[at:]...)
	}
	b.P.Opt["noCensus"] = 1
	return b.checks("leaks")
}

func c25stop(b *B) *plan.Plan {
	n := b.R(1, 3)
	b.nodes(n)
	nc := b.R(1, 3)
	b.clients(nc)
	b.fill(0, 0, "a", b.R(1, 4))
	b.bar(1)
	for c := 0; c < nc; c++ {
		for k := b.R(2, 6); k > 0; k-- {
			if c == 0 && b.P01() {
				x := b.node()
				b.op(c, plan.Op{K: "nstop", Node: x, Wait: b.wait()})
				if b.Ch(0.8) {
					b.op(c, plan.Op{K: "nstart", Node: x, Wait: b.wait()})
				} else {
					break
				}
				continue
			}
			switch b.N(3) {
			case 0:
				b.put(c, b.item("a"), b.Pick("node", "lib")).Wait = b.wait()
			case 1:
				b.op(c, plan.Op{K: "knn", Node: b.node(), NS: "a", Vec: b.vec(), N: 3, Wait: b.wait()})
			default:
				b.maint(c, "a", true)
			}
		}
	}
	b.P.Opt["noCensus"] = 1
	return b.checks("leaks")
}

// ---- reports ---------------------------------------------------------------------

// changes: a phase of requests that change what nodes hold, then a quiet one.
func (b *B) changes(nc, phases int, quiet func()) {
	ns := []string{"a", "b", "c"}[:b.R(1, 3)]
	for ph := 0; ph < phases; ph++ {
		for c := 0; c < nc; c++ {
			for k := b.R(1, 5); k > 0; k-- {
				s := ns[b.N(len(ns))]
				switch b.N(6) {
				case 0, 1, 2:
					b.put(c, b.item(s), "node").Wait = b.wait()
				case 3:
					b.op(c, plan.Op{K: b.Pick("drainU", "drainO"), Node: b.node(), NS: s, N: b.R(1, 5), Wait: b.wait()})
				default:
					b.maint(c, s, true)
				}
			}
		}
		b.bar(2*ph + 1)
		b.op(0, plan.Op{K: "sleep", X: 200000})
		b.op(0, plan.Op{K: "snap"})
		quiet()
		b.bar(2*ph + 2)
	}
}

func (b *B) metaLoops() {
	for i := range b.P.Nodes {
		b.P.Nodes[i].EL = &plan.ELCfg{LoopMS: int64(b.PickI(20, 100, 500)), StepMS: int64(b.PickI(1, 10)),
			Expire: b.PickI(1, 2), MemTrim: 2000, Fast: 2000, Acc: 2000, Int: 2000, Split: 2000, Merge: 2000, LB: 2000,
			Meta: b.PickI(1, 1, 2, 3), SplitMin: 1, SplitMax: 100, MergeMin: -1, MergeMax: 1, LocalOnly: b.Ch(0.3)}
		if b.Ch(0.2) {
			b.P.Nodes[i].EL.Remotes = b.others(i)
			if len(b.P.Nodes) < 3 {
				b.P.Nodes[i].EL.Remotes = b.all()
			}
		}
	}
}

func c26x(b *B, def bool) *plan.Plan {
	n := b.R(1, 4)
	b.nodes(n)
	b.calm()
	b.metaLoops()
	if def {
		for i := range b.P.Nodes {
			b.P.Nodes[i].DefLog = 1
		}
	}
	nc := b.R(1, 2)
	b.clients(nc)
	down := b.Ch(0.3) && n > 1
	ph := 0
	b.changes(nc, b.R(1, 3), func() {
		ph++
		if down && ph == 1 {
			b.op(0, plan.Op{K: "crash", Node: b.node()})
			b.op(0, plan.Op{K: "sleep", X: 50000})
			b.op(0, plan.Op{K: "snap"})
		}
		b.op(0, plan.Op{K: "sleep", X: 3 * 5 * 700000})
	})
	if b.Ch(0.3) {
		for k := b.R(1, 3); k > 0; k-- {
			f := plan.Fault{K: b.Pick("refuse", "cutreq", "cutrep"), Src: b.node(), Dst: b.node(), Nth: b.R(1, 20), Frac: b.F(), X: 1}
			if f.K != "refuse" {
				f.Method = "Meta"
			}
			b.P.Faults = append(b.P.Faults, f)
		}
	}
	b.P.Opt["noCensus"] = 1
	return b.checks("reports")
}

func c26(b *B) *plan.Plan    { return c26x(b, false) }
func c26def(b *B) *plan.Plan { return c26x(b, true) }

func c26req(b *B) *plan.Plan {
	n := b.R(1, 3)
	b.nodes(n)
	nc := b.R(1, 2)
	b.clients(nc)
	b.changes(nc, b.R(1, 4), func() {
		for k := b.R(2, 8); k > 0; k-- {
			b.op(0, plan.Op{K: b.Pick("meta", "meta", "lendp", "nss"), Node: b.node(), NS: b.Pick("a", "b", "c", "d")})
		}
		if b.P01() {
			return
		}
		// A change, and at once what it changed.
		for k := b.R(1, 3); k > 0; k-- {
			i, s := b.node(), b.Pick("a", "b", "d")
			ask := []string{b.Pick("meta", "lendp", "nss"), b.Pick("meta", "lendp", "nss")}
			b.op(0, plan.Op{K: ask[0], Node: i, NS: s})
			for j := b.R(1, 2); j > 0; j-- {
				switch b.N(4) {
				case 0:
					b.op(0, plan.Op{K: "drainU", Node: i, NS: s, N: b.R(1, 5)})
				case 1:
					b.op(0, plan.Op{K: b.Pick("split", "merge", "expire", "memtrim"), Node: i, NS: s, N: b.R(0, 4), M: 100})
				default:
					b.put(0, b.item(s), "node").Node = i
				}
			}
			b.op(0, plan.Op{K: "snap", Wait: int64(b.PickI(10, 1000, 30000))})
			b.op(0, plan.Op{K: ask[0], Node: i, NS: s})
			b.op(0, plan.Op{K: ask[1], Node: i, NS: s})
		}
	})
	b.P.Opt["noCensus"] = 1
	return b.checks("reports")
}
