// Package plan is the vocabulary of a simulated run: a plan fully describes
// one execution (configuration, workload, faults, schedule); together with
// the code under test it determines every step of it.
package plan

// Plan is one simulated execution.
type Plan struct {
	Prop    string            `json:"prop"`
	Profile string            `json:"profile"`
	Seed    uint64            `json:"seed"`
	Nodes   []NodeCfg         `json:"nodes"`
	Items   []Item            `json:"items"`
	Clients []Client          `json:"clients"`
	Faults  []Fault           `json:"faults,omitempty"`
	Net     NetCfg            `json:"net"`
	Sched   SchedCfg          `json:"sched"`
	Opt     map[string]int64  `json:"opt,omitempty"`
	Strs    map[string]string `json:"strs,omitempty"`
}

// O reads an integer option.
func (p *Plan) O(k string) int64 { return p.Opt[k] }

// NodeCfg configures one node ("process") of the cluster.
type NodeCfg struct {
	Threshold int    `json:"thr"`            // partition split threshold
	InitCap   int    `json:"cap"`            // initial capacity
	WallMS    int64  `json:"wall,omitempty"` // wall clock offset
	Slow      int    `json:"slow,omitempty"` // statements take this many times longer
	API       bool   `json:"api,omitempty"`
	RPCAddrs  []int  `json:"raddrs,omitempty"` // nodes its API knows (default all)
	DefLog    int    `json:"deflog,omitempty"` // 1: the loop's default logger
	ArbMS     int64  `json:"arbms,omitempty"`  // arbitration server: arbiter duration
	SessMS    int64  `json:"sessms,omitempty"`
	Members   []int  `json:"members,omitempty"` // nodes it accepts as arbiter (default all)
	Service   bool   `json:"svc,omitempty"`     // run the real service entry point
	Late      int64  `json:"late,omitempty"`    // starts this many ms into the run
	EL        *ELCfg `json:"el,omitempty"`
	EL2       *ELCfg `json:"el2,omitempty"`
}

// ELCfg configures a node's maintenance loop.
type ELCfg struct {
	LoopMS, StepMS                         int64
	Expire, MemTrim, Fast, Acc, Int        int
	Split, Merge, LB, Meta                 int
	FastN, AccN, IntN                      int
	SplitMin, SplitMax, MergeMin, MergeMax int
	LocalOnly                              bool
	Remotes                                []int `json:",omitempty"` // default: all nodes
	StopMS                                 int64 // stop the loop then (0: at quiescence)
}

// Item is a data point of the workload. Every item has a distinct vector or
// payload so that each copy seen is attributable.
type Item struct {
	NS      string    `json:"ns"`
	Vec     []float64 `json:"v,omitempty"`
	VecHex  []string  `json:"vh,omitempty"` // exact bits, overrides Vec
	Payload []byte    `json:"p,omitempty"`
	NilPay  bool      `json:"np,omitempty"`
	Pad     int       `json:"pad,omitempty"` // so many bytes more
	ExpMS   int64     `json:"exp,omitempty"` // expiry, ms after start of run (client clock)
	ExpNS   int64     `json:"expns,omitempty"`
	ExpOn   bool      `json:"on,omitempty"`
	ZoneMin int       `json:"tz,omitempty"`
}

// Client is a sequential caller.
type Client struct {
	Ops []Op `json:"ops"`
}

// Op is one operation.
type Op struct {
	K     string    `json:"k"`
	Node  int       `json:"n"`
	NS    string    `json:"ns,omitempty"`
	Item  int       `json:"i,omitempty"`
	Vec   []float64 `json:"v,omitempty"`
	N     int       `json:"c,omitempty"`
	M     int       `json:"m,omitempty"`
	Drain bool      `json:"d,omitempty"`
	Acc   bool      `json:"a,omitempty"`
	Addrs []int     `json:"ad,omitempty"`
	Wait  int64     `json:"w,omitempty"` // us before the op
	Raw   []byte    `json:"raw,omitempty"`
	S     string    `json:"s,omitempty"`
	X     int64     `json:"x,omitempty"`
}

// Name is the namespace a plan's name stands for: JSON has no way to write
// the few that are not UTF-8.
func Name(s string) string {
	switch s {
	case "<n\\xff>":
		return "n\xff"
	case "<n\\xfe>":
		return "n\xfe"
	}
	return s
}

// Names puts the names in.
func (p *Plan) Names() {
	for i := range p.Items {
		p.Items[i].NS = Name(p.Items[i].NS)
	}
	for c := range p.Clients {
		for i := range p.Clients[c].Ops {
			p.Clients[c].Ops[i].NS = Name(p.Clients[c].Ops[i].NS)
		}
	}
}

// Fault is one injected fault. Net faults anchored to a request are selected
// by method name, destination and occurrence; others by time.
type Fault struct {
	K      string  `json:"k"`
	Method string  `json:"m,omitempty"`   // RPC method or HTTP path; "" any
	Src    int     `json:"s,omitempty"`   // -1 any
	Dst    int     `json:"d,omitempty"`   // -1 any
	Nth    int     `json:"nth,omitempty"` // 1-based; 0: every occurrence
	AtUS   int64   `json:"at,omitempty"`
	DurUS  int64   `json:"dur,omitempty"`
	Frac   float64 `json:"f,omitempty"`
	Fin    bool    `json:"fin,omitempty"` // cut by closing, not by a reset
	Node   int     `json:"node,omitempty"`
	Group  []int   `json:"g,omitempty"`
	X      int64   `json:"x,omitempty"`
}

// NetCfg shapes the fault-free behaviour of the network.
type NetCfg struct {
	LatUS    int64 `json:"lat"`  // base one-way latency
	JitUS    int64 `json:"jit"`  // jitter
	Segs     int   `json:"segs"` // a write is split into up to this many segments
	ShortPct int   `json:"short"`
}

// SchedCfg selects how the interleaving is chosen.
type SchedCfg struct {
	Mode     int      `json:"mode"` // 0 fifo 1 random 2 priorities 3 replay
	PreemptP uint32   `json:"pp,omitempty"`
	Changes  []uint64 `json:"ch,omitempty"`
	Jitter   uint64   `json:"jit"`
	Devs     []Dev    `json:"devs,omitempty"`
	Salt     uint64   `json:"salt,omitempty"`
}

// Dev is a scheduling deviation from run-to-block FIFO.
type Dev struct {
	K uint8  `json:"k"`
	A uint64 `json:"a"`
	V uint32 `json:"v,omitempty"`
}

// Result is what one execution reports.
type Result struct {
	Verdict  string           `json:"verdict"` // ok, violation, known
	Class    string           `json:"class,omitempty"`
	Msg      string           `json:"msg,omitempty"`
	Known    string           `json:"known,omitempty"`
	Steps    uint64           `json:"steps"`
	Picks    uint64           `json:"picks"`
	Preempts uint64           `json:"preempts"`
	SimNS    int64            `json:"sim_ns"`
	Hash     string           `json:"hash"`    // schedule hash
	LogHash  string           `json:"loghash"` // history hash
	Counts   map[string]int64 `json:"counts,omitempty"`
	Faults   map[string]int64 `json:"faults,omitempty"`
	Devs     []Dev            `json:"devs,omitempty"`
	DevsLost bool             `json:"devs_lost,omitempty"`
	Log      []string         `json:"log,omitempty"`
}
