package gen

import "verifsim/plan"

// c27: requests to nodes that come and go, some of them failing on the way.
func c27(b *B) *plan.Plan {
	n := b.R(1, 3)
	b.nodes(n)
	nc := b.R(1, 3)
	b.clients(nc)
	nss := []string{"a", "b", "c"}
	kinds := []string{"put", "put", "put", "knn", "drainU", "drainO", "lendp", "meta", "nss", "vec", "ncv", "nc", "expire", "memtrim", "movevec", "split", "merge", "dint", "dfast", "dacc", "steal"}
	rounds := b.R(1, 5)
	down := make([]bool, n)
	for k := 1; k <= rounds; k++ {
		if k > 1 || b.Ch(0.3) {
			b.bar(2*k - 1)
			for j := b.R(1, 2); j > 0; j-- {
				i := b.node()
				switch {
				case down[i]:
					b.op(0, plan.Op{K: "nstart", Node: i})
				case b.P01():
					b.op(0, plan.Op{K: "crash", Node: i})
				default:
					b.op(0, plan.Op{K: "nstop", Node: i})
				}
				down[i] = !down[i]
			}
		}
		b.bar(2 * k)
		for c := 0; c < nc; c++ {
			for j := b.R(2, 8); j > 0; j-- {
				o := plan.Op{K: kinds[b.N(len(kinds))], Node: b.node(), NS: nss[b.PickI(0, 0, 0, 1, 1, 2)], Vec: b.vec(), N: b.R(0, 5), Wait: b.wait(), X: 128 | int64(b.PickI(0, 0, 1, 1, 2))<<8}
				switch o.K {
				case "put":
					o.Item = b.item(o.NS)
				case "split", "merge":
					o.M = b.R(3, 100)
				case "dfast", "dacc":
					o.Addrs = b.all()
				case "steal":
					if o.Addrs = []int{30}; n > 1 {
						o.Addrs = b.others(o.Node)[:1]
					}
				case "nss", "meta":
					o.NS = ""
				}
				b.op(c, o)
			}
		}
	}
	for k := b.R(0, 6); k > 0; k-- {
		f := plan.Fault{K: b.Pick("refuse", "slam", "dialtimeout", "cutreq", "cutreq", "cutrep", "cutrep", "delayrep"), Src: b.PickI(-1, 1000+b.N(nc)), Dst: b.PickI(-1, b.node()), Nth: b.R(1, 12), Frac: b.F()}
		switch f.K {
		case "cutreq":
			f.Frac *= 0.98
			fallthrough
		case "cutrep":
			if b.P01() {
				f.Method, f.Nth = b.Pick("Namespaces", "Vec", "AddDataPoint", "DrainUnordered", "DrainOrdered", "Expire", "LenDP", "MemTrim", "MoveVector", "DistributeDataPointsFast", "DistributeDataPointsAccurate",
					"DistributeDataPointsInternal", "KNNLookup", "NearestCentroids", "NearestCentroidVec", "SplitCentroids", "MergeCentroids", "StealCentroid", "Meta"), b.R(1, 2)
			}
		case "refuse":
			f.X = int64(b.R(0, 2))
		case "slam":
			f.Fin, f.X = b.P01(), int64(b.PickI(0, 0, 50, 1000))
		case "delayrep":
			f.DurUS = int64(b.R(1, 2000)) * 1000 * int64(b.PickI(1, 1, 30, 300))
		}
		b.P.Faults = append(b.P.Faults, f)
	}
	b.P.Opt["noCensus"] = 1
	return b.checks("told")
}

// c13first: several clients are the first to put into a namespace.
func c13first(b *B) *plan.Plan {
	b.nodes(b.PickI(1, 1, 2))
	b.P.Nodes[0].API = true
	if b.P01() {
		b.P.Net = plan.NetCfg{JitUS: int64(b.PickI(0, 20, 200)), Segs: 1}
	}
	nc := b.R(2, 5)
	b.clients(nc)
	for k, ns := range []string{"a", "b", "c", ""}[:b.R(1, 4)] {
		b.bar(k + 1)
		if b.Ch(0.6) {
			for i := range b.P.Nodes {
				b.op(0, plan.Op{K: "stall", Node: i, X: int64(b.PickI(3000, 50000))})
			}
		}
		for c := 0; c < nc; c++ {
			if b.Ch(0.3) { // refused
				i := b.item(ns)
				b.P.Items[i].ExpOn, b.P.Items[i].ExpMS = true, -int64(b.R(1, 100000))
				b.put(c, i, b.Pick("node", "lib"))
			}
			o := b.put(c, b.item(ns), b.Pick("http", "lib", "lib"))
			o.X, o.Wait = 16, int64(b.PickI(0, 0, 20, 300))
			if o.K == "hput" {
				o.Node = 0
			}
		}
	}
	return b.checks("avail,conserve")
}

func init() {
	Props["C13"] = append(Props["C13"], Profile{"first", 1, c13first})
	Props["C27"] = []Profile{{"told", 1, c27}}
}
