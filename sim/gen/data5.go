package gen

import "verifsim/plan"

// stampede: one node is stalled while requests of several clients arrive, so
// that all of them are ready to run when it goes on, and the scheduler decides
// in which order each of their steps is taken. Rounds are apart.
func (b *B) stampede(writes []string, check string, kinds ...string) *plan.Plan {
	return b.stampedeN(1, []string{"a"}, writes, check, kinds...)
}

func (b *B) stampedeN(n int, nss []string, writes []string, check string, kinds ...string) *plan.Plan {
	b.nodes(n)
	thr := b.PickI(0, 2, 3, 4, 100)
	for i := range b.P.Nodes {
		b.P.Nodes[i].Threshold = thr
	}
	b.P.Net = plan.NetCfg{JitUS: int64(b.PickI(0, 20, 200)), Segs: 1}
	if b.Ch(0.5) {
		b.P.Sched.Mode, b.P.Sched.Changes = 1, nil
		b.P.Sched.PreemptP = uint32(b.PickI(0, 1<<14, 1<<16, 1<<18, 1<<19))
	}
	nc := b.R(2, 6)
	b.clients(nc)
	for i := range b.P.Nodes {
		for k, ns := range nss {
			if i+k == 0 || b.Ch(0.7) {
				b.fill(0, i, ns, b.R(1, 9))
			}
		}
	}
	rounds := b.R(1, 5)
	for k := 1; k <= rounds; k++ {
		b.bar(k)
		if b.Ch(0.85) {
			for i := range b.P.Nodes {
				b.op(0, plan.Op{K: "stall", Node: i, X: int64(b.PickI(3000, 10000, 50000))})
			}
		}
		for c := 0; c < nc; c++ {
			for j := b.PickI(1, 1, 1, 2); j > 0; j-- {
				o := plan.Op{K: kinds[b.N(len(kinds))], Node: b.node(), NS: nss[b.N(len(nss))], Vec: b.vec(), N: b.PickI(1, 1, 2, 3, 30), Drain: true, Wait: int64(b.PickI(0, 0, 20, 300))}
				if c > 0 && b.Ch(0.6) {
					o.K = writes[b.N(len(writes))]
				}
				switch o.K {
				case "put":
					o.Item = b.item(o.NS)
				case "split":
					o.N, o.M = b.R(0, 3), 100
				case "merge":
					o.N, o.M = -1, b.R(2, 8)
				case "dfast", "dacc":
					o.Addrs = b.all()
				case "steal":
					ot := b.others(o.Node)
					o.Addrs = []int{ot[b.N(len(ot))]}
				case "nss", "meta":
					o.NS = ""
				}
				b.op(c, o)
			}
		}
	}
	b.bar(rounds + 1)
	for i := range b.P.Nodes {
		for _, ns := range nss {
			b.op(0, plan.Op{K: "knn", Node: i, NS: ns, Vec: b.vec(), N: 100})
		}
	}
	return b.checks(check)
}

// failing: redistribution of many datapoints to nodes which take part in
// everything but storing them; all of the failures come at once.
func (b *B) failing(check string) *plan.Plan {
	n := b.R(2, 4)
	b.nodes(n)
	b.P.Net = plan.NetCfg{LatUS: int64(b.PickI(0, 0, 50)), JitUS: int64(b.PickI(0, 0, 20)), Segs: 1}
	if b.Ch(0.8) {
		b.P.Sched.Mode, b.P.Sched.Changes = 1, nil
		b.P.Sched.PreemptP = uint32(b.PickI(1<<14, 1<<16, 1<<18, 1<<19, 1<<20))
	}
	nc := b.R(1, 3)
	b.clients(nc)
	for i := range b.P.Nodes {
		k := b.R(1, 2)
		if i == 0 || b.Ch(0.3) {
			k = b.R(3, 14)
		}
		b.fill(0, i, "a", k)
	}
	b.bar(1)
	for c := 0; c < nc; c++ {
		for k := b.R(1, 3); k > 0; k-- {
			o := plan.Op{K: b.Pick("dfast", "dfast", "dacc", "steal", "put", "dint"), Node: b.PickI(0, 0, b.node()), NS: "a", N: b.R(1, 20), Addrs: b.all(), Wait: int64(b.PickI(0, 0, 20, 300))}
			switch o.K {
			case "put":
				o.Item = b.item("a")
			case "steal":
				o.Addrs = []int{b.others(o.Node)[0]}
			}
			b.op(c, o)
		}
	}
	for i := range b.P.Nodes {
		f := plan.Fault{K: "cutreq", Method: "AddDataPoint", Src: -1, Dst: i, Frac: 0.98 * b.F()}
		switch b.N(6) {
		case 0:
			continue
		case 1:
			f.Nth = b.R(1, 9)
		case 2:
			f.Src = b.node()
		}
		b.P.Faults = append(b.P.Faults, f)
	}
	return b.checks(check)
}

var (
	allMaint  = []string{"split", "merge", "dint", "memtrim", "expire"}
	allDrains = []string{"drainU", "drainO", "knn", "nc"}
	anything  = append([]string{"put", "put", "put", "drainU", "drainO", "knn", "nc"}, allMaint...)
)

// what the reference model of one node knows.
var modelled = append([]string{"put", "put", "put", "drainU", "drainO", "knn"}, allMaint...)

func init() {
	add := func(p string, f Profile) { Props[p] = append(Props[p], f) }
	add("C01", Profile{"stampede", 2, func(b *B) *plan.Plan { return b.stampede(anything, "conserve", "put", "put", "drainU") }})
	add("C02", Profile{"stampede", 1, func(b *B) *plan.Plan { return b.stampede(anything, "conserve", allMaint...) }})
	add("C03", Profile{"stampede", 2, func(b *B) *plan.Plan { return b.stampede(anything, "handed,conserve", allDrains...) }})
	add("C02", Profile{"failing", 2, func(b *B) *plan.Plan { return b.failing(conserve) }})
	add("C01", Profile{"failing", 1, func(b *B) *plan.Plan { return b.failing(conserve) }})
	add("C06", Profile{"failing", 1, func(b *B) *plan.Plan { return b.failing("namespaces," + conserve) }})
	remote := []string{"steal", "steal", "dfast", "dacc", "merge", "split"}
	one := []string{"a"}
	add("C01", Profile{"stampedes", 1, func(b *B) *plan.Plan {
		return b.stampedeN(b.R(2, 3), one, append(remote, anything...), "conserve", "put", "steal")
	}})
	add("C02", Profile{"stampedes", 2, func(b *B) *plan.Plan {
		return b.stampedeN(b.R(2, 3), one, append(remote, anything...), "conserve", remote...)
	}})
	add("C03", Profile{"stampedes", 2, func(b *B) *plan.Plan {
		return b.stampedeN(b.R(2, 3), one, append(remote, anything...), "handed,conserve", append(allDrains, remote...)...)
	}})
	add("C06", Profile{"stampedes", 1, func(b *B) *plan.Plan {
		return b.stampedeN(b.R(2, 3), []string{"a", "b", ""}[:b.R(2, 3)], append(remote, anything...), "namespaces,handed,conserve", anything...)
	}})
	add("C08", Profile{"stampede", 2, func(b *B) *plan.Plan {
		return b.stampede(modelled, "linear", "lendp", "meta", "nss", "knn", "drainU", "put")
	}})
	add("C17", Profile{"stampede", 1, func(b *B) *plan.Plan { return b.stampede(anything, "means", anything...) }})
	// Vectors of two lengths.
	add("C01", Profile{"lengths", 1, mixed(c01cluster)})
	add("C02", Profile{"lengths", 2, mixed(func(b *B) *plan.Plan { return c02(b, b.P01()) })})
	add("C03", Profile{"lengths", 1, mixed(func(b *B) *plan.Plan { return c03(b, b.R(2, 4)) })})
	add("C06", Profile{"lengths", 1, mixed(func(b *B) *plan.Plan { return c06(b, b.R(2, 4)) })})
	add("C07", Profile{"lengths", 1, mixed(c07moves)})
	add("C14", Profile{"lengths", 1, mixed(c14cross)})
	add("C20", Profile{"lengths", 1, mixed(func(b *B) *plan.Plan { c14cross(b); return b.checks("alive") })})
}
