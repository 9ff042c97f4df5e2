package main

import (
	"encoding/json"
	"sync"
	"time"

	"verifsim/plan"
)

func clone(p *plan.Plan) *plan.Plan {
	b, _ := json.Marshal(p)
	var q plan.Plan
	json.Unmarshal(b, &q)
	return &q
}

type minimiser struct {
	worker   string
	class    string
	deadline time.Time
	limit    time.Duration // per execution
	tries    int
	best     *plan.Plan
	out      *Outcome
}

func (m *minimiser) over() bool { return time.Now().After(m.deadline) }

// tryAll runs candidates in parallel and adopts the first (in order) that
// still fails the same way.
func (m *minimiser) tryAll(cs []*plan.Plan) bool {
	const par = 8
	for i := 0; i < len(cs) && !m.over(); i += par {
		j := i + par
		if j > len(cs) {
			j = len(cs)
		}
		outs := make([]*Outcome, j-i)
		var wg sync.WaitGroup
		for k := i; k < j; k++ {
			wg.Add(1)
			go func(k int) {
				defer wg.Done()
				outs[k-i] = execPlan(m.worker, cs[k], false, m.limit)
			}(k)
		}
		wg.Wait()
		m.tries += j - i
		for k, o := range outs {
			if o.Err == "" && o.Class == m.class {
				m.best, m.out = cs[i+k], o
				return true
			}
		}
	}
	return false
}

// barred: removing a barrier operation from one client only is pointless, so
// barriers go together.
func dropOps(p *plan.Plan, c, from, to int) *plan.Plan {
	q := clone(p)
	var ops []plan.Op
	for i, o := range q.Clients[c].Ops {
		if i >= from && i < to && o.K != "bar" {
			continue
		}
		ops = append(ops, o)
	}
	if len(ops) == len(q.Clients[c].Ops) {
		return nil
	}
	q.Clients[c].Ops = ops
	return q
}

func (m *minimiser) planPass() bool {
	changed := false
	// Fault-free first, then without each fault.
	for progress := true; progress && !m.over(); {
		progress = false
		p := m.best
		var cs []*plan.Plan
		for i := range p.Faults {
			q := clone(p)
			q.Faults = append(q.Faults[:i:i], q.Faults[i+1:]...)
			cs = append(cs, q)
		}
		for i := range p.Nodes {
			if p.Nodes[i].EL != nil {
				q := clone(p)
				q.Nodes[i].EL = nil
				cs = append(cs, q)
			}
			if p.Nodes[i].Slow != 0 {
				q := clone(p)
				q.Nodes[i].Slow = 0
				cs = append(cs, q)
			}
		}
		for c := range p.Clients {
			if n := len(p.Clients[c].Ops); n > 0 {
				if q := dropOps(p, c, 0, n); q != nil {
					cs = append(cs, q)
				}
			}
		}
		if m.tryAll(cs) {
			changed, progress = true, true
		}
	}
	// Chunks of operations, ever smaller.
	for size := 8; size >= 1 && !m.over(); size /= 2 {
		for progress := true; progress && !m.over(); {
			progress = false
			p := m.best
			var cs []*plan.Plan
			for c := range p.Clients {
				for i := 0; i < len(p.Clients[c].Ops); i += size {
					if q := dropOps(p, c, i, i+size); q != nil {
						cs = append(cs, q)
					}
				}
			}
			if m.tryAll(cs) {
				changed, progress = true, true
			}
		}
	}
	// Simpler surroundings.
	simp := []func(q *plan.Plan) bool{
		func(q *plan.Plan) bool {
			o := q.Net
			q.Net = plan.NetCfg{LatUS: 50, Segs: 1}
			return o != q.Net
		},
		func(q *plan.Plan) bool { o := q.Net.Segs != 1; q.Net.Segs = 1; return o },
		func(q *plan.Plan) bool { o := q.Net.ShortPct != 0; q.Net.ShortPct = 0; return o },
		func(q *plan.Plan) bool {
			if q.Sched.Mode == 0 || q.Sched.Mode == 3 {
				return false
			}
			q.Sched.Mode = 0
			return true
		},
		func(q *plan.Plan) bool {
			ch := false
			for c := range q.Clients {
				for i := range q.Clients[c].Ops {
					if q.Clients[c].Ops[i].Wait != 0 {
						q.Clients[c].Ops[i].Wait = 0
						ch = true
					}
				}
			}
			return ch
		},
		func(q *plan.Plan) bool {
			// Trailing empty clients.
			n := len(q.Clients)
			for n > 1 && len(q.Clients[n-1].Ops) == 0 {
				n--
			}
			ch := n != len(q.Clients)
			q.Clients = q.Clients[:n]
			return ch
		},
		func(q *plan.Plan) bool {
			// Barriers.
			ch := false
			for c := range q.Clients {
				var ops []plan.Op
				for _, o := range q.Clients[c].Ops {
					if o.K == "bar" {
						ch = true
						continue
					}
					ops = append(ops, o)
				}
				q.Clients[c].Ops = ops
			}
			return ch
		},
	}
	for _, s := range simp {
		if m.over() {
			break
		}
		q := clone(m.best)
		if s(q) && m.tryAll([]*plan.Plan{q}) {
			changed = true
		}
	}
	// Maintenance tasks one by one.
	p := m.best
	for i := range p.Nodes {
		for t := 0; t < 8 && !m.over(); t++ {
			q := clone(m.best)
			e := q.Nodes[i].EL
			if e == nil {
				break
			}
			f := []*int{&e.Expire, &e.MemTrim, &e.Fast, &e.Acc, &e.Int, &e.Split, &e.Merge, &e.LB}[t]
			if *f >= 100000 {
				continue
			}
			*f = 1000
			if p.Opt["rounds"] == 0 && q.Strs["checks"] != "" && m.best.Nodes[i].EL != nil {
				if o := []int{m.best.Nodes[i].EL.Expire, m.best.Nodes[i].EL.MemTrim, m.best.Nodes[i].EL.Fast, m.best.Nodes[i].EL.Acc, m.best.Nodes[i].EL.Int, m.best.Nodes[i].EL.Split, m.best.Nodes[i].EL.Merge, m.best.Nodes[i].EL.LB}[t]; o >= 1000 {
					continue
				}
				if m.tryAll([]*plan.Plan{q}) {
					changed = true
				}
			}
		}
	}
	return changed
}

// sched reduces the recorded schedule to the deviations that matter.
func (m *minimiser) sched() {
	if m.out.R.DevsLost || m.best.Sched.Mode == 0 || m.out.Class == "crash" || m.out.Race {
		return
	}
	devs := m.out.R.Devs
	mk := func(d []plan.Dev) *plan.Plan {
		q := clone(m.best)
		q.Sched.Mode = 3
		q.Sched.Devs = d
		return q
	}
	if !m.tryAll([]*plan.Plan{mk(devs)}) {
		return
	}
	n := 2
	for len(devs) > 0 && !m.over() {
		if n > len(devs) {
			n = len(devs)
		}
		var cs []*plan.Plan
		sz := (len(devs) + n - 1) / n
		for i := 0; i < len(devs); i += sz {
			j := i + sz
			if j > len(devs) {
				j = len(devs)
			}
			cs = append(cs, mk(append(append([]plan.Dev(nil), devs[:i]...), devs[j:]...)))
		}
		if m.tryAll(cs) {
			devs = m.best.Sched.Devs
			if n > 2 {
				n--
			}
			continue
		}
		if sz == 1 {
			break
		}
		n *= 2
	}
}

func minimise(worker string, p *plan.Plan, o *Outcome, budget time.Duration) (*plan.Plan, *Outcome, int) {
	t0 := time.Now()
	execPlan(worker, p, false, limit)
	l := 3*time.Since(t0) + 2*time.Second
	if l > 20*time.Second {
		l = 20 * time.Second
	}
	m := &minimiser{worker: worker, class: o.Class, deadline: t0.Add(budget), limit: l, best: p, out: o}
	for i := 0; i < 4 && !m.over() && m.planPass(); i++ {
	}
	m.sched()
	return m.best, m.out, m.tries
}
