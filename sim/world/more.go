package world

// checkAsked: a node gives up no more than drains asked of it. (For plans in
// which nothing moves between nodes.)
func (w *World) checkAsked() {
	if len(w.CensusErr) > 0 {
		w.Violate("unreadable", "stored points cannot be read back after the run: %s", w.CensusErr[0])
		return
	}
	fs := w.fates()
	for _, n := range w.Nodes {
		asked := map[string]int{}
		for _, r := range w.Recs {
			if !isDrain(r.Op) || r.Op.N <= 0 {
				continue
			}
			to := []int{r.Op.Node}
			switch r.Op.K {
			case "lget":
				to = r.Op.Addrs
			case "hq":
				to = w.apiCands(r.Op.Node)
			}
			if hasInt(to, n.ID) {
				asked[r.Op.NS] += r.Op.N
			}
		}
		gone := map[string]int{}
		for i, f := range fs {
			if len(f.puts) != 1 || f.acked != 1 || f.puts[0].Op.K != "put" || f.puts[0].Op.Node != n.ID || f.copies > 0 || w.mayExpire(i, f.puts[0].TInv, w.now()) {
				continue
			}
			gone[w.P.Items[i].NS]++
		}
		note("asked", 1)
		for _, ns := range w.namespaces() {
			if gone[ns] > asked[ns] {
				w.Violate("lost", "node %d gave up %d points of namespace %q, all drains together asked it for %d", n.ID, gone[ns], ns, asked[ns])
			}
		}
	}
	w.checkHandedOnce()
}

// checkTaken: what takeovers report is what changed hands. (For plans in which
// points leave node 0 only, and only by being taken over.)
func (w *World) checkTaken() {
	fs := w.fates()
	for _, n := range w.Nodes[1:] {
		told, ok, steals := 0, true, 0
		for _, r := range w.Recs {
			if r.Op.K == "steal" && r.Op.Node == n.ID {
				ok = ok && r.Ret != 0 && r.Err == ""
				told += r.N
				steals++
			}
		}
		got := 0
		for i, f := range fs {
			if len(f.puts) != 1 || f.puts[0].Op.Node != 0 {
				continue
			}
			if f.copies > 0 && f.where[0] == n.ID {
				got++
			} else if w.mayExpire(i, f.puts[0].TInv, w.now()) {
				ok = false
			}
		}
		if !ok {
			continue
		}
		note("taken", int64(steals))
		if told != got {
			w.Violate("wrong-report", "node %d reports %d points taken over from node 0, %d arrived", n.ID, told, got)
		}
	}
}
