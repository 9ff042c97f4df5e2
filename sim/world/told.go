package world

import (
	"strconv"

	"trypo/pkg/kmeans/centroid"
	"trypo/pkg/kmeans/rpc"
)

// client is what a node's client can do.
type client interface {
	Namespaces() []string
	Vec() []float64
	AddDataPoint(DP) bool
	DrainUnordered(int) []DP
	DrainOrdered(int) []DP
	Expire()
	LenDP() int
	MemTrim()
	MoveVector() bool
	DistributeDataPointsFast([]string, int)
	DistributeDataPointsAccurate([]string, int)
	DistributeDataPointsInternal(int)
	KNNLookup([]float64, int, bool) []DP
	NearestCentroids([]float64, int, bool) ([]*centroid.Centroid, bool)
	NearestCentroidVec([]float64) []float64
	SplitCentroids(int, int)
	MergeCentroids(int, int)
	StealCentroids(string, int) (int, bool)
	Meta() rpc.MetaResp
}

type kept struct {
	c   client
	err *error
}

// told marks operations whose reports of failure are checked. How the caller
// takes them: a client of its own for each request, one kept for many, or one
// without a place for errors.
const (
	toldOwn = iota
	toldKept
	toldNone
)

func (w *World) asker(r *Rec, n *Node, ns string, err *error) (client, *error) {
	if r.Op.X&128 == 0 || r.C < 0 {
		return rpc.KMeansClient(n.Addr, ns, err), err
	}
	switch r.Op.X >> 8 & 3 {
	case toldKept:
		k := strconv.Itoa(r.C) + "|" + n.Addr + "|" + ns
		if w.kept[k] == nil {
			e := new(error)
			w.kept[k] = &kept{rpc.KMeansClient(n.Addr, ns, e), e}
		}
		return w.kept[k].c, w.kept[k].err
	case toldNone:
		return rpc.KMeansClient(n.Addr, ns, nil), err
	}
	return rpc.KMeansClient(n.Addr, ns, err), err
}

func (w *World) serving(n *Node) bool { return w.up(n) && n.Inc.Up && !n.Inc.Stopped }

var nodeRequests = map[string]bool{"put": true, "knn": true, "drainU": true, "drainO": true, "lendp": true, "meta": true, "nss": true, "vec": true, "ncv": true,
	"nc": true, "expire": true, "memtrim": true, "movevec": true, "split": true, "merge": true, "dint": true, "dfast": true, "dacc": true, "steal": true}

// checkTold: a failed request is reported as failed, and no other.
func (w *World) checkTold() {
	for _, r := range w.Recs {
		if !nodeRequests[r.Op.K] || r.Ret == 0 || r.Op.X&128 == 0 || r.Op.Node < 0 || r.Op.Node >= len(w.Nodes) {
			continue
		}
		n := w.Nodes[r.Op.Node]
		quiet := r.Op.X>>8&3 == toldNone
		cut := ""
		for _, f := range w.FaultEvs {
			if f.T >= r.TInv && f.T <= r.TRet && f.Src == 1000+r.C && f.Dst == n.ID {
				switch f.K {
				case "refuse", "slam", "dialtimeout", "cutreq", "cutrep":
					cut = f.K
				}
			}
		}
		if !r.Up0 {
			cut = "node down"
		}
		if r.Up0 != r.Up1 || r.Inc != r.IncEnd {
			continue
		}
		if cut != "" {
			note("told-failed", 1)
			if r.Err == "" && !quiet {
				w.Violate("failure-untold", "%s could not be answered (%s), but no error was reported", w.opStr(r), cut)
			}
			if len(r.DPs) > 0 || r.N != 0 || len(r.Vec) > 0 || len(r.Strs) > 0 || len(r.Cen) > 0 || len(r.Dps) > 0 || r.OK && !quiet ||
				r.OK && (r.Op.K == "put" || r.Op.K == "steal" || r.Op.K == "movevec" || r.Op.K == "nc") {
				w.Violate("made-up-answer", "%s could not be answered (%s), but something was returned", w.opStr(r), cut)
			}
			continue
		}
		if quiet {
			note("told-quiet", 1)
			if r.Op.K == "put" && !r.OK {
				w.Violate("false-failure", "%s reports that the point was not stored, although nothing failed", w.opStr(r))
			}
			continue
		}
		switch r.Op.K {
		case "put", "nss", "meta", "steal":
			note("told-ok", 1)
			if r.Err != "" {
				w.Violate("false-failure", "%s reports an error although nothing failed: %s", w.opStr(r), r.Err)
			}
			if r.Op.K == "put" && !r.OK {
				w.Violate("false-failure", "%s reports that the point was not stored, although nothing failed", w.opStr(r))
			}
			continue
		}
		// Does the node know the namespace?
		known, maybe := false, false
		for _, x := range w.Recs {
			if x.Op.NS != r.Op.NS || x == r {
				continue
			}
			switch x.Op.K {
			case "put":
				if x.Op.Node == r.Op.Node && x.Inc == r.Inc {
					known = known || x.OK && x.Ret != 0 && x.Ret < r.Inv
					maybe = maybe || x.Inv < r.Ret || r.Ret == 0
				}
			case "steal":
				maybe = maybe || x.Op.Node == r.Op.Node && x.Inv < r.Ret
			case "dfast", "dacc", "lput", "hput":
				maybe = maybe || x.Inv < r.Ret
			}
		}
		if known {
			note("told-ok", 1)
			if r.Err != "" {
				w.Violate("false-failure", "%s reports an error although nothing failed: %s", w.opStr(r), r.Err)
			}
		} else if !maybe {
			note("told-unknown", 1)
			if r.Err == "" {
				w.Violate("failure-untold", "%s is for a namespace the node does not have, but no error was reported", w.opStr(r))
			}
		}
	}
}
