// Package gen makes plans: for a property and a seed, a configuration,
// workload, fault sequence and schedule.
package gen

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	"verifsim/plan"
)

// G is a seeded source of choices.
type G struct{ st uint64 }

func New(seed uint64) *G { return &G{seed} }

func (g *G) U() uint64 {
	g.st += 0x9e3779b97f4a7c15
	z := g.st
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (g *G) N(k int) int { // 0..k-1
	if k <= 1 {
		return 0
	}
	return int((g.U() >> 11) % uint64(k))
}
func (g *G) R(a, b int) int          { return a + g.N(b-a+1) }
func (g *G) F() float64              { return float64(g.U()>>11) / (1 << 53) }
func (g *G) Ch(p float64) bool       { return g.F() < p }
func (g *G) Pick(s ...string) string { return s[g.N(len(s))] }
func (g *G) PickI(s ...int) int      { return s[g.N(len(s))] }

// Mix combines seeds.
func Mix(a, b uint64) uint64 {
	g := G{a*0x9e3779b97f4a7c15 ^ b}
	return g.U()
}

// B builds a plan.
type B struct {
	*G
	P    *plan.Plan
	dim  int
	kind int // flavour of vectors
	mix  float64
}

func newB(prop, profile string, seed uint64) *B {
	g := New(seed)
	b := &B{G: g, P: &plan.Plan{Prop: prop, Profile: profile, Seed: seed, Opt: map[string]int64{}, Strs: map[string]string{}}}
	b.dim = g.R(2, 4)
	b.kind = g.PickI(0, 1, 2, 0, 1, 2, 3)
	b.net()
	b.sched()
	return b
}

func (b *B) net() {
	n := &b.P.Net
	n.LatUS = int64(b.PickI(0, 50, 200, 1000))
	n.JitUS = int64(b.PickI(0, 100, 2000, 20000))
	n.Segs = b.PickI(1, 1, 2, 4)
	n.ShortPct = b.PickI(0, 0, 10, 50)
}

func (b *B) sched() {
	s := &b.P.Sched
	s.Jitter = uint64(b.PickI(100, 1000, 20000))
	s.Salt = b.U() >> 40
	switch b.N(8) {
	case 0:
		s.Mode = 0
	case 1, 2, 3, 4:
		s.Mode = 1
		s.PreemptP = uint32(b.PickI(1<<10, 1<<14, 1<<16, 1<<18, 1<<19))
	default:
		s.Mode = 2
		k := b.R(1, 6)
		max := b.PickI(500, 3000, 20000)
		for i := 0; i < k; i++ {
			s.Changes = append(s.Changes, uint64(b.R(1, max)))
		}
		for i := 1; i < len(s.Changes); i++ {
			for j := i; j > 0 && s.Changes[j] < s.Changes[j-1]; j-- {
				s.Changes[j], s.Changes[j-1] = s.Changes[j-1], s.Changes[j]
			}
		}
	}
}

// calm keeps the network fast, for profiles that read time.
func (b *B) calm() {
	b.P.Net.JitUS = int64(b.PickI(0, 100, 1000))
	b.P.Sched.Jitter = uint64(b.PickI(100, 1000))
}

func round3(x float64) float64 { return math.Round(x*1000) / 1000 }

// vec is a random vector, not too close to zero.
func (b *B) vec() []float64 {
	if b.mix > 0 && b.Ch(b.mix) {
		return b.vecD(b.dim + 1)
	}
	return b.vecD(b.dim)
}

// mixed makes some vectors longer than others: a node refuses what differs
// from what it has, but transfers can bring both together.
func mixed(f func(b *B) *plan.Plan) func(b *B) *plan.Plan {
	return func(b *B) *plan.Plan {
		b.mix = float64(b.PickI(10, 30, 50)) / 100
		return f(b)
	}
}

func (b *B) vecD(d int) []float64 {
	for {
		v := make([]float64, d)
		s := 0.0
		for i := range v {
			switch b.kind {
			case 0:
				v[i] = round3(0.1 + 0.9*b.F())
			case 1:
				v[i] = round3(2*b.F() - 1)
			case 3:
				// A grid: ties, opposites, sums of zero.
				v[i] = float64(b.R(-1, 1))
			default:
				// Clusters around axes.
				v[i] = round3(0.2 * (2*b.F() - 1))
			}
			s += v[i] * v[i]
		}
		if b.kind == 2 {
			i := b.N(d)
			v[i] = round3(1 + b.F())
			s = 1
		}
		if s > 0.05 {
			return v
		}
	}
}

// item adds a data point to the workload.
func (b *B) item(ns string) int {
	i := len(b.P.Items)
	b.P.Items = append(b.P.Items, plan.Item{NS: ns, Vec: b.vec(), Payload: []byte("p" + strconv.Itoa(i) + "-" + strconv.Itoa(b.N(1000)))})
	return i
}

func (b *B) nodes(n int) {
	for i := 0; i < n; i++ {
		b.P.Nodes = append(b.P.Nodes, plan.NodeCfg{Threshold: b.PickI(0, 2, 3, 4, 6, 10, 100), InitCap: b.PickI(0, 1, 4, 16)})
	}
}

// loops gives every node a maintenance loop.
func (b *B) loops(lb bool) {
	for i := range b.P.Nodes {
		b.P.Nodes[i].EL = b.loop(lb)
	}
}

func (b *B) loop(lb bool) *plan.ELCfg {
	k := func() int { return b.PickI(1, 1, 2, 3, 5) }
	e := &plan.ELCfg{LoopMS: int64(b.PickI(1, 5, 20, 100)), StepMS: int64(b.PickI(1, 2, 10)),
		Expire: k(), MemTrim: k(), Fast: k(), Acc: k(), Int: k(), Split: k(), Merge: k(), LB: 1001, Meta: k(),
		FastN: b.R(0, 6), AccN: b.R(0, 6), IntN: b.R(0, 8),
		SplitMin: b.R(1, 6), SplitMax: 1000000, MergeMin: -1, MergeMax: b.R(1, 5), LocalOnly: b.P01()}
	if lb {
		e.LB = k()
	}
	return e
}

// tame slows the loops of plans that cover a long time, which would otherwise
// spend their budget on idle rounds: at most max rounds per node.
func (b *B) tame(extraMS int64, max int64) {
	span := extraMS
	for _, f := range b.P.Faults {
		switch f.K {
		case "partition", "stall", "slow", "crash":
			if t := (f.AtUS + f.DurUS) / 1000; t+extraMS > span {
				span = t + extraMS
			}
			if f.K == "partition" && span < 60000 && f.DurUS > 20000000 {
				span = 60000
			}
		case "dialtimeout":
			if span < 130000 {
				span = 130000
			}
		}
	}
	for i := range b.P.Nodes {
		for _, e := range []*plan.ELCfg{b.P.Nodes[i].EL, b.P.Nodes[i].EL2} {
			if e != nil && roundMS(e) < span/max {
				e.LoopMS = span/max - 9*e.StepMS + 1
			}
		}
	}
}

// stay makes a node's loop keep its data where it is.
func (b *B) stay(i int) {
	e := b.P.Nodes[i].EL
	e.Fast, e.Acc, e.FastN, e.AccN = 2000, 2000, 0, 0
}

func (b *B) P01() bool { return b.N(2) == 0 }

func (b *B) clients(n int) { b.P.Clients = make([]plan.Client, n) }

func (b *B) op(c int, o plan.Op) *plan.Op {
	b.P.Clients[c].Ops = append(b.P.Clients[c].Ops, o)
	return &b.P.Clients[c].Ops[len(b.P.Clients[c].Ops)-1]
}

func (b *B) bar(k int) {
	for c := range b.P.Clients {
		b.op(c, plan.Op{K: "bar", N: k})
	}
}

func (b *B) node() int { return b.N(len(b.P.Nodes)) }

func (b *B) all() []int {
	var r []int
	for i := range b.P.Nodes {
		r = append(r, i)
	}
	return r
}

func (b *B) others(n int) []int {
	var r []int
	for i := range b.P.Nodes {
		if i != n {
			r = append(r, i)
		}
	}
	return r
}

func (b *B) wait() int64 {
	switch b.N(4) {
	case 0:
		return 0
	case 1:
		return int64(b.N(200))
	case 2:
		return int64(b.N(5000))
	}
	return int64(b.N(60000))
}

func (b *B) shortWait() int64 {
	if b.P01() {
		return 0
	}
	return int64(b.N(300))
}

// put of an item by some route. lib and http routes need nodes.
func (b *B) put(c, item int, route string) *plan.Op {
	ns := b.P.Items[item].NS
	switch route {
	case "http":
		return b.op(c, plan.Op{K: "hput", Node: b.apiNode(), NS: ns, Item: item, Acc: b.P01()})
	case "lib":
		return b.op(c, plan.Op{K: "lput", Node: -1, NS: ns, Item: item, S: "rand", Addrs: b.all()})
	}
	return b.op(c, plan.Op{K: "put", Node: b.node(), NS: ns, Item: item})
}

func (b *B) apiNode() int {
	var r []int
	for i, n := range b.P.Nodes {
		if n.API || n.Service {
			r = append(r, i)
		}
	}
	if len(r) == 0 {
		panic("gen: no API node")
	}
	return r[b.N(len(r))]
}

// maint is a random maintenance request.
func (b *B) maint(c int, ns string, remote bool) {
	n := b.node()
	kinds := []string{"expire", "memtrim", "split", "merge", "dint"}
	if remote && len(b.P.Nodes) > 1 {
		kinds = append(kinds, "steal", "dfast", "dacc", "steal")
	}
	o := plan.Op{K: kinds[b.N(len(kinds))], Node: n, NS: ns, Wait: b.wait()}
	switch o.K {
	case "split":
		o.N, o.M = b.R(0, 4), b.R(3, 100)
	case "merge":
		o.N, o.M = b.R(-1, 2), b.R(2, 8)
	case "dint":
		o.N = b.R(0, 6)
	case "dfast", "dacc":
		o.N = b.R(0, 6)
		o.Addrs = b.all()
		if b.Ch(0.3) {
			o.Addrs = b.others(n)
		}
		if b.Ch(0.1) {
			o.Addrs = nil
		}
	case "steal":
		o.N = b.R(0, 8)
		ot := b.others(n)
		o.Addrs = []int{ot[b.N(len(ot))]}
	}
	b.op(c, o)
}

func (b *B) checks(s string) *plan.Plan {
	b.P.Strs["checks"] = s
	return b.P
}

var nsNames = []string{"a", "A", "a ", "b", "", "ns with spaces", "\u00e9\u4e16\U0001f600", "a/b", "%00", "probe", "0",
	"a\x00", "\u00e1", "a\u0301", strings.Repeat("long", 50) + "1", strings.Repeat("long", 50) + "2", "a:b", "..", "null", "<n\\xff>", "<n\\xfe>", "n", "n\ufffd",
	"a&amp;b", "a&b", "a+b", "a%20b", "a b", "../a", "./a", "a.", "\"a\"", "'a'", "\n", "\ta", "-1", "\u212a", "k", "K", "a\\u0062", "ab", "<a>", "a,b", "a*", "*", "a;b", "a#b", "a?b", "$a", "${a}", strings.Repeat("x", 255) + "1", strings.Repeat("x", 255) + "2", strings.Repeat("y", 5000)}

func hex(v []float64) []string {
	var r []string
	for _, x := range v {
		r = append(r, strconv.FormatUint(math.Float64bits(x), 16))
	}
	return r
}

var _ = fmt.Sprint

// Profile is a family of plans.
type Profile struct {
	Name string
	W    int // weight
	F    func(b *B) *plan.Plan
}

// Props maps properties to their profiles.
var Props = map[string][]Profile{}

// rename gives the namespaces of some plans unusual names.
func (b *B) rename() {
	if !b.Ch(0.3) {
		return
	}
	x := nsNames[b.N(len(nsNames))]
	y := nsNames[b.N(len(nsNames))]
	for x == y || x == "b" || y == "a" {
		x, y = nsNames[b.N(len(nsNames))], nsNames[b.N(len(nsNames))]
	}
	used := map[string]bool{}
	see := func(s string) { used[s] = true }
	for i := range b.P.Items {
		see(b.P.Items[i].NS)
	}
	for c := range b.P.Clients {
		for i := range b.P.Clients[c].Ops {
			if o := &b.P.Clients[c].Ops[i]; spaced(o) {
				see(o.NS)
			}
		}
	}
	if plan.Name(x) != x || plan.Name(y) != y {
		return // no such names in JSON
	}
	if x != "a" && used[x] || y != "b" && used[y] {
		return // would merge two namespaces
	}
	ch := func(s *string) {
		switch *s {
		case "a":
			*s = x
		case "b":
			*s = y
		}
	}
	for i := range b.P.Items {
		ch(&b.P.Items[i].NS)
	}
	for c := range b.P.Clients {
		for i := range b.P.Clients[c].Ops {
			if o := &b.P.Clients[c].Ops[i]; spaced(o) {
				ch(&o.NS)
			}
		}
	}
}

// twins makes the points of some plans alike but for their vectors.
func (b *B) twins() {
	if !b.Ch(0.12) {
		return
	}
	seen := map[string]bool{}
	for i := range b.P.Items {
		it := &b.P.Items[i]
		k := fmt.Sprint(it.Vec)
		if len(it.VecHex) > 0 {
			k = fmt.Sprint(it.VecHex)
		}
		if seen[k] || it.Pad != 0 {
			return
		}
		seen[k] = true
	}
	pay := []byte(b.Pick("", "", "same"))
	exp := b.P01()
	for i := range b.P.Items {
		it := &b.P.Items[i]
		it.Payload = pay
		if exp && !it.ExpOn && it.ExpMS == 0 {
			it.ExpOn, it.ExpMS = true, 100*86400*1000
		}
	}
}

// spaced: the operation names a namespace.
func spaced(o *plan.Op) bool {
	switch o.K {
	case "bar", "sleep", "snap", "nss", "meta", "nstop", "nstart", "crash", "clock", "elstop", "elstart", "emfile", "arbforce", "arbget":
		return false
	}
	return true
}

// Make is plan number i of a property.
func Make(prop string, seed uint64, i int) *plan.Plan {
	ps := Props[prop]
	tot := 0
	for _, p := range ps {
		tot += p.W
	}
	k := i % tot
	for _, p := range ps {
		if k < p.W {
			h := uint64(14695981039346656037)
			for _, c := range prop + p.Name {
				h = (h ^ uint64(c)) * 1099511628211
			}
			s := Mix(Mix(seed, h), uint64(i)) >> 1
			b := newB(prop, p.Name, s)
			pl := p.F(b)
			b.rename()
			b.twins()
			b.mortal()
			for k := range b.P.Faults {
				f := &b.P.Faults[k]
				f.Fin = strings.HasPrefix(f.K, "cut") && b.Ch(0.3)
			}
			return pl
		}
		k -= p.W
	}
	return nil
}
