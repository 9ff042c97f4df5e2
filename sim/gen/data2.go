package gen

import (
	"math"

	"verifsim/plan"
)

var oddFloats = []float64{0, math.Copysign(0, -1), 5e-324, -5e-324, 1e-300, 1.0 / 3, math.Pi, -math.E, 0.1, 1e100, -1e100, 1e149, 123456789.123456789, math.Nextafter(1, 2), 1 << 53, -(1 << 53) - 2}

func (b *B) weird(i int) {
	it := &b.P.Items[i]
	v := make([]float64, len(it.Vec))
	for k := range v {
		v[k] = oddFloats[b.N(len(oddFloats))]
		if b.Ch(0.4) {
			v[k] = b.F()*2 - 1
		}
		if b.Ch(0.1) {
			v[k] = math.Float64frombits(b.U()&^(0x7ff<<52) | uint64(b.R(600, 1500))<<52)
		}
	}
	it.VecHex = hex(v)
	switch b.N(5) {
	case 0: // arbitrary bytes
		n := b.PickI(1, 2, 3, 16, 100, 1000, 5000, 20000)
		p := make([]byte, n)
		for k := range p {
			p[k] = byte(b.U())
		}
		it.Payload = append(it.Payload, p...)
	case 1:
		it.Payload = append([]byte{0, 255, '"', '\\', '\n', 0xc3, 0x28}, it.Payload...)
	case 2:
		if b.Ch(0.4) { // no payload, known by its vector
			for k := range v {
				v[k] = b.F()*2 - 1
			}
			it.VecHex = hex(v)
			it.Payload, it.NilPay = nil, b.P01()
		}
	}
	if len(it.Payload) > 0 {
		b.pad(i)
	}
	if b.Ch(0.5) {
		it.ExpMS = int64(b.R(1, 1000)) * 3600 * 1000 * 24
		it.ExpNS = int64(b.N(1000000))
		it.ExpOn = b.P01()
		it.ZoneMin = b.PickI(0, 60, -330, 345, 840)
		if !it.ExpOn && b.P01() {
			it.ExpMS = -it.ExpMS
		}
	}
}

// pad makes some payloads large.
func (b *B) pad(i int) {
	if b.Ch(0.04) {
		b.P.Items[i].Pad = b.PickI(4096, 33000, 65536, 70000, 140000, 300000, 1100000)
	}
}

func c07(b *B) *plan.Plan {
	n := b.R(1, 3)
	b.nodes(n)
	b.P.Nodes[0].API = true
	nc := b.R(1, 3)
	b.clients(nc)
	for c := 0; c < nc; c++ {
		for k := b.R(2, 6); k > 0; k-- {
			i := b.item("a")
			b.weird(i)
			b.put(c, i, b.Pick("node", "http", "lib")).Wait = b.wait()
		}
	}
	b.bar(1)
	for c := 0; c < nc; c++ {
		for k := b.R(1, 4); k > 0; k-- {
			o := b.query(c, "a", b.Ch(0.3))
			o.N = b.R(1, 10)
		}
	}
	return b.checks("fidelity")
}

func c07moves(b *B) *plan.Plan {
	n := b.R(2, 4)
	b.nodes(n)
	b.P.Nodes[0].API = true
	if b.Ch(0.5) {
		b.loops(true)
	}
	nc := b.R(1, 3)
	b.clients(nc)
	for c := 0; c < nc; c++ {
		for k := b.R(2, 6); k > 0; k-- {
			i := b.item("a")
			b.weird(i)
			b.put(c, i, b.Pick("node", "http", "lib")).Wait = b.wait()
		}
	}
	b.bar(1)
	for c := 0; c < nc; c++ {
		for k := b.R(2, 6); k > 0; k-- {
			b.maint(c, "a", true)
		}
		b.query(c, "a", b.Ch(0.2)).N = b.R(1, 10)
	}
	return b.checks("fidelity")
}

func c08(b *B) *plan.Plan {
	b.nodes(1)
	nc := b.R(2, 4)
	b.clients(nc)
	if b.P01() {
		b.fill(0, 0, "a", b.R(1, 6))
		b.bar(1)
	}
	maintC := -1
	if b.Ch(0.7) {
		maintC = nc - 1
	}
	for c := 0; c < nc; c++ {
		for k := b.R(2, 7); k > 0; k-- {
			if c == maintC {
				b.maint(c, "a", false)
				b.P.Clients[c].Ops[len(b.P.Clients[c].Ops)-1].Wait = b.shortWait()
				continue
			}
			b.linOp(c)
		}
	}
	return b.checks("linear")
}

func (b *B) linOp(c int) {
	w := b.shortWait()
	switch b.N(10) {
	case 0, 1, 2, 3:
		b.put(c, b.item("a"), "node").Wait = w
	case 4:
		b.op(c, plan.Op{K: "lendp", NS: "a", Wait: w})
	case 5:
		b.op(c, plan.Op{K: b.Pick("meta", "nss"), NS: "", Wait: w})
	case 6, 7:
		b.op(c, plan.Op{K: "knn", NS: "a", Vec: b.vec(), N: b.R(0, 5), Drain: b.P01(), Wait: w})
	default:
		b.op(c, plan.Op{K: b.Pick("drainU", "drainO"), NS: "a", N: b.R(0, 4), Wait: w})
	}
}

// c08meet: requests that start at the same moment, while points change
// partitions.
func c08meet(b *B) *plan.Plan {
	b.nodes(1)
	b.P.Nodes[0].Threshold = b.PickI(0, 2, 3, 4, 100)
	b.P.Net = plan.NetCfg{JitUS: int64(b.PickI(0, 20, 200)), Segs: 1}
	if b.Ch(0.7) {
		b.P.Sched.Mode, b.P.Sched.Changes = 1, nil
		b.P.Sched.PreemptP = uint32(b.PickI(1<<14, 1<<16, 1<<18, 1<<19))
	}
	nc := b.R(2, 4)
	b.clients(nc)
	b.fill(0, 0, "a", b.R(0, 12))
	reads := []string{"lendp", "lendp", "meta", "knn", "nss"}
	writes := []string{"put", "drainU", "drainO", "split", "merge", "dint", "memtrim"}
	for k := b.R(2, 5); k > 0; k-- {
		b.bar(k)
		for c := 0; c < nc; c++ {
			o := plan.Op{K: reads[b.N(len(reads))], NS: "a", Vec: b.vec(), N: b.PickI(1, 2, 3, 30), Wait: int64(b.PickI(0, 0, 20, 100))}
			if c > 0 || b.Ch(0.3) {
				o.K = writes[b.N(len(writes))]
			}
			switch o.K {
			case "put":
				o.Item = b.item("a")
			case "split":
				o.N, o.M = b.R(0, 3), 100
			case "merge":
				o.N, o.M = -1, b.R(2, 8)
			case "knn":
				o.Drain = b.Ch(0.3)
			case "meta", "nss":
				o.NS = ""
			}
			b.op(c, o)
		}
	}
	return b.checks("linear")
}

// c08names: first points of new namespaces arrive while the namespaces (and
// their contents) are asked for.
func c08names(b *B) *plan.Plan {
	b.nodes(1)
	b.P.Net = plan.NetCfg{JitUS: int64(b.PickI(0, 20, 200)), Segs: 1}
	if b.Ch(0.7) {
		b.P.Sched.Mode, b.P.Sched.Changes = 1, nil
		b.P.Sched.PreemptP = uint32(b.PickI(1<<14, 1<<16, 1<<18, 1<<19))
	}
	nc := b.R(2, 4)
	b.clients(nc)
	names := []string{"a", "b", "c", "d", "e", "f", "g", "h"}
	next := 0
	for k := 1; k <= b.R(2, 5); k++ {
		b.bar(k)
		for c := 0; c < nc; c++ {
			w := int64(b.PickI(0, 0, 20, 100))
			switch {
			case c > 0 && next < len(names) && b.Ch(0.7):
				ns := names[next]
				if b.Ch(0.7) {
					next++
				}
				b.op(c, plan.Op{K: "put", NS: ns, Item: b.item(ns), Wait: w})
			case b.Ch(0.2) && next > 0:
				ns := names[b.N(next)]
				b.op(c, plan.Op{K: b.Pick("lendp", "knn"), NS: ns, Vec: b.vec(), N: 30, Wait: w})
			default:
				b.op(c, plan.Op{K: b.Pick("nss", "nss", "meta"), Wait: w})
			}
		}
	}
	b.bar(9)
	b.op(0, plan.Op{K: "nss"})
	b.op(0, plan.Op{K: "meta"})
	return b.checks("linear")
}

func c08small(b *B) *plan.Plan {
	b.nodes(1)
	nc := b.R(2, 3)
	b.clients(nc)
	for c := 0; c < nc; c++ {
		for k := b.R(1, 3); k > 0; k-- {
			b.linOp(c)
		}
	}
	return b.checks("linear")
}

// c09: settled data, then queries, with maintenance alongside.
func c09(b *B) *plan.Plan {
	b.nodes(1)
	b.P.Nodes[0].API = true
	if b.Ch(0.4) {
		b.loops(false)
		b.stay(0)
	}
	nc := b.R(2, 4)
	b.clients(nc)
	for c := 0; c < nc; c++ {
		for k := b.R(1, 6); k > 0; k-- {
			i := b.item("a")
			if b.Ch(0.1) {
				b.P.Items[i].Vec = make([]float64, b.dim)
			}
			b.put(c, i, b.Pick("node", "http"))
		}
	}
	for round := 1; round <= b.R(1, 3); round++ {
		b.bar(2*round - 1)
		if b.Ch(0.6) {
			b.op(0, plan.Op{K: b.Pick("drainU", "drainO", "knn"), NS: "a", Vec: b.vec(), N: b.R(1, 6), Drain: true})
		}
		b.bar(2 * round)
		for c := 0; c < nc; c++ {
			for k := b.R(1, 3); k > 0; k-- {
				if b.Ch(0.4) {
					b.maint(c, "a", false)
					continue
				}
				o := plan.Op{K: "knn", NS: "a", Vec: b.vec(), N: b.PickI(0, 1, 2, 3, 5, 8, 50), X: 1, Wait: b.wait()}
				switch b.N(4) {
				case 0:
					o.K, o.Acc = "hq", b.P01()
				case 1:
					o.K, o.Node, o.S, o.Addrs = "lget", -1, b.Pick("fast", "acc", "rand"), b.all()
				}
				if b.Ch(0.1) {
					o.Vec = make([]float64, b.dim)
				}
				b.op(c, o)
			}
		}
	}
	return b.checks("complete")
}

// c09sparse: partitions emptied by drains and expiry stand in the way.
func c09sparse(b *B) *plan.Plan {
	b.nodes(1)
	b.P.Nodes[0].Threshold = b.R(2, 4)
	b.P.Nodes[0].API = true
	b.clients(1)
	n := b.R(4, 12)
	for k := 0; k < n; k++ {
		i := b.item("a")
		if b.Ch(0.3) {
			b.P.Items[i].ExpOn, b.P.Items[i].ExpMS = true, int64(b.R(300, 600))
		}
		b.put(0, i, "node")
	}
	for k := b.R(1, 4); k > 0; k-- {
		o := plan.Op{K: b.Pick("drainU", "drainO", "knn", "split", "merge", "expire", "memtrim"), NS: "a", Vec: b.vec(), N: b.R(1, 6), Drain: true}
		if o.K == "split" {
			o.N, o.M = 1, 100
		}
		if o.K == "merge" {
			o.N, o.M = -1, b.R(1, 5)
		}
		b.op(0, o)
	}
	b.op(0, plan.Op{K: "sleep", X: int64(b.PickI(0, 700)) * 1000})
	for k := b.R(1, 5); k > 0; k-- {
		o := b.op(0, plan.Op{K: b.Pick("knn", "knn", "hq"), NS: "a", Vec: b.vec(), N: b.R(0, 5), X: 1})
		o.Acc = b.P01()
	}
	return b.checks("complete")
}

// c09cluster: no redistribution runs while the cluster is queried.
func c09cluster(b *B) *plan.Plan {
	n := b.R(2, 4)
	b.nodes(n)
	b.P.Nodes[0].API = true
	if b.Ch(0.4) {
		b.loops(false)
		for i := range b.P.Nodes {
			b.stay(i)
		}
	}
	nc := b.R(1, 3)
	b.clients(nc)
	for c := 0; c < nc; c++ {
		for k := b.R(2, 6); k > 0; k-- {
			b.put(c, b.item("a"), b.Pick("node", "node", "http", "lib"))
		}
	}
	b.bar(1)
	if b.Ch(0.5) {
		for k := b.R(1, 3); k > 0; k-- {
			b.maint(0, "a", true)
		}
	}
	if b.Ch(0.3) {
		b.op(0, plan.Op{K: b.Pick("drainU", "drainO"), Node: b.node(), NS: "a", N: b.R(1, 6)})
	}
	b.bar(2)
	for c := 0; c < nc; c++ {
		for k := b.R(1, 3); k > 0; k-- {
			o := plan.Op{K: "lget", Node: -1, S: b.Pick("fast", "acc", "rand"), Addrs: b.all(), NS: "a", Vec: b.vec(), N: b.PickI(0, 1, 2, 4, 8, 60), X: 1, Wait: b.wait()}
			if b.Ch(0.4) {
				o.K, o.Node, o.Acc, o.Addrs, o.S = "hq", 0, b.P01(), nil, ""
			}
			b.op(c, o)
		}
	}
	return b.checks("complete")
}

func c10(b *B) *plan.Plan {
	b.nodes(1)
	b.P.Nodes[0].Threshold = b.PickI(0, 1000)
	b.clients(b.R(1, 3))
	nc := len(b.P.Clients)
	for c := 0; c < nc; c++ {
		for k := b.R(2, 9); k > 0; k-- {
			i := b.item("a")
			if b.Ch(0.15) && i > 0 {
				b.P.Items[i].Vec = b.P.Items[b.N(i)].Vec // ties
			}
			if b.Ch(0.03) {
				b.P.Items[i].Vec = make([]float64, b.dim)
			}
			b.put(c, i, "node")
		}
	}
	for r := 1; r <= b.R(1, 4); r++ {
		b.bar(r)
		for c := 0; c < nc; c++ {
			if b.Ch(0.7) {
				b.op(c, plan.Op{K: "knn", NS: "a", Vec: b.vec(), N: b.R(0, 8), X: 3})
			}
		}
		b.bar(r + 100)
		switch b.N(4) {
		case 0:
			b.op(0, plan.Op{K: "knn", NS: "a", Vec: b.vec(), N: b.R(1, 4), Drain: true, X: 3})
		case 1, 2:
			b.op(0, plan.Op{K: "drainO", NS: "a", N: b.R(1, 4), X: 2})
		default:
			b.op(0, plan.Op{K: b.Pick("memtrim", "expire"), NS: "a"})
		}
	}
	return b.checks("rank")
}

func c10http(b *B) *plan.Plan {
	b.nodes(1)
	b.P.Nodes[0].Threshold = 1000
	b.P.Nodes[0].API = true
	b.clients(1)
	for k := b.R(2, 9); k > 0; k-- {
		b.put(0, b.item("a"), b.Pick("http", "node"))
	}
	for k := b.R(1, 5); k > 0; k-- {
		o := plan.Op{K: "hq", NS: "a", Vec: b.vec(), N: b.R(0, 8), Acc: b.P01(), Drain: b.Ch(0.2), X: 3}
		if b.Ch(0.4) {
			o.K, o.Node, o.S, o.Addrs = "lget", -1, b.Pick("fast", "acc", "rand"), b.all()
		}
		b.op(0, o)
	}
	return b.checks("rank")
}

func c17(b *B) *plan.Plan {
	b.nodes(1)
	if b.Ch(0.3) {
		b.loops(false)
	}
	nc := b.R(1, 3)
	b.clients(nc)
	for r := 1; r <= b.R(1, 5); r++ {
		for c := 0; c < nc; c++ {
			for k := b.R(1, 5); k > 0; k-- {
				switch b.N(6) {
				case 0, 1, 2:
					i := b.item("a")
					if b.Ch(0.2) {
						b.P.Items[i].ExpOn, b.P.Items[i].ExpMS = true, int64(b.R(30, 1000))
					}
					b.put(c, i, "node").Wait = b.wait()
				case 3:
					b.op(c, plan.Op{K: b.Pick("drainU", "drainO", "knn"), NS: "a", Vec: b.vec(), N: b.R(0, 4), Drain: true, Wait: b.wait()})
				case 4:
					if b.Ch(0.2) {
						b.op(c, plan.Op{K: "nc", NS: "a", Vec: b.vec(), N: b.R(1, 2), Drain: true, Wait: b.wait()})
					} else {
						b.op(c, plan.Op{K: b.Pick("movevec", "knn", "ncv"), NS: "a", Vec: b.vec(), N: b.R(0, 4)})
					}
				default:
					b.maint(c, "a", false)
				}
			}
		}
		if b.P.Nodes[0].EL == nil {
			b.bar(2*r - 1)
			b.op(0, plan.Op{K: "means", NS: "a"})
			b.bar(2 * r)
		}
	}
	return b.checks("means")
}

func c17cluster(b *B) *plan.Plan {
	n := b.R(2, 3)
	b.nodes(n)
	if b.Ch(0.4) {
		b.loops(true)
	}
	nc := b.R(1, 2)
	b.clients(nc)
	for c := 0; c < nc; c++ {
		for k := b.R(3, 9); k > 0; k-- {
			switch b.N(5) {
			case 0, 1, 2:
				b.put(c, b.item("a"), b.Pick("node", "lib")).Wait = b.wait()
			case 3:
				b.op(c, plan.Op{K: b.Pick("drainU", "drainO"), Node: b.node(), NS: "a", N: b.R(0, 4), Wait: b.wait()})
			default:
				b.maint(c, "a", true)
			}
		}
	}
	return b.checks("means")
}
