// Package simnet is the simulated network of a run. It stands in for the
// kernel's TCP: byte streams that keep order and lose nothing while a
// connection lives, but whose latency, segmentation, read sizes, refusals,
// resets, stalls and partitions are decided by the plan.
//
// It runs under the simulator's scheduler: goroutines are switched only at
// blocking operations and at the yield points of the instrumented code, and
// this package contains none, so its plain state needs no locks. Functions
// carry go:norace so that the race build neither reports that state nor
// derives orderings from it which real sockets would not provide.
package simnet

import (
	"context"
	"io"
	"net"
	"os"
	"runtime"
	"sort"
	"strings"
	"syscall"
	"time"

	"verifsim/plan"
)

// Net is the network of the run.
type Net struct {
	Seed   uint64
	Cfg    plan.NetCfg
	Faults []plan.Fault
	Start  int64 // simulated ns

	hosts   map[string]*Host // by name
	byTag   map[uint32]*Host
	lis     map[string]*listener
	conns   []*Conn
	linkSeq map[string]uint64
	occ     map[string]int // occurrences per fault rule
	Fired   map[string]int64
	Calls   map[string]int64
	// OnCall is told of every request delivered to a node.
	OnCall func(src, dst int, method string)
	// OnFault is told of every request-anchored fault that fired.
	OnFault func(f *plan.Fault, src, dst int, method string)
	// CrashHook is asked to crash a node (request-anchored crash faults).
	CrashHook func(node int, f *plan.Fault)
	// Blame records methods whose reply was cut, by destination node.
	CutReplies []CutReply
	healed     bool
	emfile     map[int]int // planned accept errors left per host
}

// CutReply is a request whose effect happened but whose reply was lost.
type CutReply struct {
	At       int64
	Src, Dst int
	Method   string
}

// Host is one incarnation of a node, or a client.
type Host struct {
	ID    int // node id; clients have ids >= 1000
	Tag   uint32
	Alive bool
	Ports map[string]bool
}

// N is the network of this process.
var N *Net

//go:norace
func New(seed uint64, cfg plan.NetCfg, faults []plan.Fault) *Net {
	n := &Net{Seed: seed, Cfg: cfg, Faults: faults, Start: runtime.SimNow(),
		hosts: map[string]*Host{}, byTag: map[uint32]*Host{}, lis: map[string]*listener{},
		linkSeq: map[string]uint64{}, occ: map[string]int{}, Fired: map[string]int64{},
		Calls: map[string]int64{}, emfile: map[int]int{}}
	for _, f := range faults {
		if f.K == "emfile" && f.AtUS == 0 {
			n.emfile[f.Node] += int(f.X)
		}
	}
	N = n
	net.SimDial = n.dial
	net.SimListen = n.listen
	return n
}

//go:norace
func (n *Net) AddHost(id int, tag uint32) *Host {
	h := &Host{ID: id, Tag: tag, Alive: true, Ports: map[string]bool{}}
	n.byTag[tag] = h
	return h
}

//go:norace
func (n *Net) HostOf(tag uint32) *Host { return n.byTag[tag] }

// Heal ends every partition and disables all further faults.
//
//go:norace
func (n *Net) Heal() {
	n.healed = true
	for k := range n.emfile {
		delete(n.emfile, k)
	}
	now := runtime.SimNow()
	for _, c := range n.conns {
		for _, h := range []*half{c.in} {
			for i := range h.q {
				if h.q[i].at > now+int64(time.Second) {
					h.q[i].at = now + int64(i+1)*1000
				}
			}
			h.kick()
		}
	}
}

// ArmEMFILE makes the next k accepts on a node fail.
//
//go:norace
func (n *Net) ArmEMFILE(node, k int) {
	n.emfile[node] += k
	for _, l := range n.lis {
		if l.host.ID == node {
			l.kick()
		}
	}
}

// Crash kills an incarnation: its listeners vanish, its connections are reset
// on the surviving side, and none of its goroutines can reach anyone again.
//
//go:norace
func (n *Net) Crash(h *Host) {
	h.Alive = false
	var keys []string
	for k := range n.lis {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		l := n.lis[k]
		if l.host == h {
			l.closed = true
			delete(n.lis, k)
			for _, c := range l.q {
				c.breakBoth(n.now()+n.lat(c, 1<<20), syscall.ECONNRESET)
			}
			l.kick()
		}
	}
	for _, c := range n.conns {
		if c.host == h && c.peer != nil && !c.peer.closed {
			c.peer.in.fail(n.now()+n.lat(c, 1<<20), syscall.ECONNRESET)
			c.peer.broken = true
		}
	}
}

//go:norace
func (n *Net) now() int64 { return runtime.SimNow() }

//go:norace
func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

// lat is the latency of segment i of a connection: a stateless function of
// the seed, so that unrelated parts of a plan can be removed without moving it.
//
//go:norace
func (n *Net) lat(c *Conn, i uint64) int64 {
	l := n.Cfg.LatUS * 1000
	if n.Cfg.JitUS > 0 {
		h := mix(c.id ^ mix(i))
		// Mostly short, sometimes long.
		j := h % uint64(n.Cfg.JitUS*1000)
		if (h>>40)%4 != 0 {
			j /= 16
		}
		l += int64(j)
	}
	if l < 1000 {
		l = 1000
	}
	return l
}

//go:norace
func (n *Net) blockedUntil(a, b int, t int64) int64 {
	if n.healed {
		return 0
	}
	var until int64
	for _, f := range n.Faults {
		if f.K != "partition" {
			continue
		}
		s := n.Start + f.AtUS*1000
		e := s + f.DurUS*1000
		if t < s || t >= e {
			continue
		}
		ina, inb := in(f.Group, a), in(f.Group, b)
		if ina != inb {
			// Direction: X=1 only cuts traffic leaving the group.
			if f.X == 1 && !ina {
				continue
			}
			if e > until {
				until = e
			}
		}
	}
	return until
}

//go:norace
func in(g []int, x int) bool {
	for _, y := range g {
		if x == y {
			return true
		}
	}
	return false
}

// arrive is when something sent at t on a link gets there.
//
//go:norace
func (n *Net) arrive(a, b int, t, lat int64) int64 {
	for i := 0; i < 64; i++ {
		u := n.blockedUntil(a, b, t)
		if u == 0 {
			break
		}
		n.Fired["partition_held"]++
		t = u + int64(mix(uint64(u))%uint64(200*time.Millisecond))
	}
	return t + lat
}

//go:norace
func normal(addr string) string {
	h, p, err := net.SplitHostPort(addr)
	if err != nil {
		return addr
	}
	if h == "" || h == "127.0.0.1" || h == "::1" || h == "0.0.0.0" || h == "::" {
		h = "localhost"
	}
	return h + ":" + p
}

type listener struct {
	n      *Net
	host   *Host
	addr   string
	q      []*Conn
	closed bool
	ch     chan struct{}
}

//go:norace
func (l *listener) kick() {
	select {
	case l.ch <- struct{}{}:
	default:
	}
}

//go:norace
func (n *Net) listen(_ context.Context, network, address string) (net.Listener, error) {
	h := n.byTag[runtime.SimTag()]
	if h == nil || !h.Alive {
		select {}
	}
	a := normal(address)
	if _, ok := n.lis[a]; ok {
		return nil, &net.OpError{Op: "listen", Net: network, Err: os.NewSyscallError("bind", syscall.EADDRINUSE)}
	}
	l := &listener{n: n, host: h, addr: a, ch: make(chan struct{}, 1)}
	n.lis[a] = l
	return l, nil
}

//go:norace
func (l *listener) Accept() (net.Conn, error) {
	for {
		if !l.host.Alive {
			select {}
		}
		if l.closed {
			return nil, &net.OpError{Op: "accept", Net: "tcp", Err: net.ErrClosed}
		}
		if l.n.emfile[l.host.ID] > 0 && len(l.q) > 0 {
			l.n.emfile[l.host.ID]--
			l.n.Fired["accept_emfile"]++
			return nil, &net.OpError{Op: "accept", Net: "tcp", Err: os.NewSyscallError("accept4", syscall.EMFILE)}
		}
		if len(l.q) > 0 {
			c := l.q[0]
			l.q = l.q[1:]
			return c, nil
		}
		<-l.ch
	}
}

//go:norace
func (l *listener) Close() error {
	if l.closed {
		return &net.OpError{Op: "close", Net: "tcp", Err: net.ErrClosed}
	}
	l.closed = true
	if l.n.lis[l.addr] == l {
		delete(l.n.lis, l.addr)
	}
	// Connections nobody accepted are reset.
	for _, c := range l.q {
		if c.peer != nil {
			c.peer.in.fail(l.n.now()+l.n.lat(c, 77), syscall.ECONNRESET)
			c.peer.broken = true
		}
	}
	l.q = nil
	l.kick()
	return nil
}

type addr string

func (a addr) Network() string { return "tcp" }
func (a addr) String() string  { return string(a) }

func (l *listener) Addr() net.Addr { return addr(l.addr) }

type chunk struct {
	b  []byte
	at int64
}

// half is one direction, owned by the reading end.
type half struct {
	q      []chunk
	err    error
	errAt  int64
	hasErr bool
	lastAt int64
	ch     chan struct{}
}

//go:norace
func (h *half) kick() {
	select {
	case h.ch <- struct{}{}:
	default:
	}
}

//go:norace
func (h *half) push(b []byte, at int64) {
	if h.hasErr {
		return
	}
	if at < h.lastAt {
		at = h.lastAt
	}
	h.lastAt = at
	h.q = append(h.q, chunk{b, at})
	h.kick()
}

//go:norace
func (h *half) fail(at int64, err error) {
	if h.hasErr {
		return
	}
	if at < h.lastAt {
		at = h.lastAt
	}
	h.hasErr, h.err, h.errAt = true, err, at
	h.kick()
}

// Conn is one end of a simulated connection.
type Conn struct {
	n        *Net
	id       uint64
	host     *Host
	peer     *Conn
	in       *half
	client   bool
	closed   bool
	broken   bool // reset: writes fail
	slammed  bool
	segN     uint64
	readN    uint64
	rdl, wdl int64
	laddr    addr
	raddr    addr
	// client side only
	sniff              []byte
	sniffed            bool
	method             string
	reqF               *plan.Fault // fault on the request
	repF               *plan.Fault // fault on the reply
	sent               int
	got                int
	peerNode, selfNode int
}

//go:norace
func (c *Conn) breakBoth(at int64, err error) {
	for _, e := range []*Conn{c, c.peer} {
		if e != nil {
			e.in.fail(at, err)
			e.broken = true
		}
	}
}

// match finds the fault, if any, that applies to this event.
//
//go:norace
func (n *Net) match(kinds string, method string, src, dst int) *plan.Fault {
	if n.healed {
		return nil
	}
	for i := range n.Faults {
		f := &n.Faults[i]
		if !strings.Contains(kinds, "|"+f.K+"|") {
			continue
		}
		if f.Method != "" && f.Method != method {
			continue
		}
		if f.Src >= 0 && f.Src != src || f.Dst >= 0 && f.Dst != dst {
			continue
		}
		if t := n.now() - n.Start; f.DurUS > 0 && (t < f.AtUS*1000 || t >= (f.AtUS+f.DurUS)*1000) && f.K != "delayreq" && f.K != "delayrep" {
			continue
		}
		key := string(rune(i))
		n.occ[key]++
		if f.Nth == 0 || n.occ[key] == f.Nth || (f.X > 0 && f.Nth > 0 && n.occ[key] >= f.Nth && n.occ[key] < f.Nth+int(f.X) && f.K == "refuse") {
			n.Fired[f.K]++
			if n.OnFault != nil {
				n.OnFault(f, src, dst, method)
			}
			return f
		}
	}
	return nil
}

//go:norace
func sleepNS(ns int64) {
	if ns > 0 {
		time.Sleep(time.Duration(ns))
	}
}

// NodeOfPort maps a port to the node id; set by the harness.
var NodeOfPort func(addr string) int

//go:norace
func (n *Net) dial(ctx context.Context, network, address string) (net.Conn, error) {
	h := n.byTag[runtime.SimTag()]
	if h == nil || !h.Alive {
		select {} // a crashed process, or a goroutine of no node: no network
	}
	a := normal(address)
	dst := NodeOfPort(a)
	link := a + "<" + string(rune(h.ID))
	seq := n.linkSeq[link]
	n.linkSeq[link] = seq + 1
	id := mix(n.Seed ^ mix(uint64(h.ID)<<32|uint64(uint32(dst))) ^ mix(seq))
	c := &Conn{n: n, id: id, host: h, client: true, selfNode: h.ID, peerNode: dst,
		laddr: addr("localhost:" + "5" + itoa(int(id%9999))), raddr: addr(a),
		in: &half{ch: make(chan struct{}, 1)}}
	fail := func(err error) (net.Conn, error) {
		if !h.Alive {
			select {}
		}
		return nil, &net.OpError{Op: "dial", Net: network, Err: os.NewSyscallError("connect", err)}
	}
	rtt := n.lat(c, 1<<30) + n.lat(c, 1<<31)
	dl := n.now() + int64(127*time.Second)
	if t, ok := ctx.Deadline(); ok {
		if d := n.now() + int64(time.Until(t)); d < dl {
			dl = d
		}
	}
	if f := n.match("|refuse|dialtimeout|", "", h.ID, dst); f != nil {
		if f.K == "refuse" {
			sleepNS(rtt)
			return fail(syscall.ECONNREFUSED)
		}
		sleepNS(dl - n.now())
		return fail(syscall.ETIMEDOUT)
	}
	// SYN: retried while the link is cut.
	wait := int64(time.Second)
	for n.blockedUntil(h.ID, dst, n.now()) != 0 || n.blockedUntil(dst, h.ID, n.now()) != 0 {
		n.Fired["partition_dial"]++
		if n.now()+wait > dl {
			sleepNS(dl - n.now())
			return fail(syscall.ETIMEDOUT)
		}
		sleepNS(wait)
		wait *= 2
	}
	sleepNS(rtt)
	if !h.Alive {
		select {}
	}
	if n.now() > dl {
		return fail(syscall.ETIMEDOUT)
	}
	l := n.lis[a]
	if l == nil || l.closed || !l.host.Alive {
		n.Fired["no_listener"]++
		return fail(syscall.ECONNREFUSED)
	}
	slam := n.match("|slam|", "", h.ID, dst)
	s := &Conn{n: n, id: mix(id ^ 1), host: l.host, selfNode: dst, peerNode: h.ID,
		laddr: c.raddr, raddr: c.laddr, in: &half{ch: make(chan struct{}, 1)}}
	c.peer, s.peer = s, c
	if slam != nil {
		// Accepted, and gone again at once.
		how := error(syscall.ECONNRESET)
		if slam.Fin {
			how = io.EOF
		}
		n.conns = append(n.conns, c)
		s.closed, c.slammed = true, true
		c.in.fail(n.now()+slam.X*1000, how)
		return c, nil
	}
	n.conns = append(n.conns, c, s)
	l.q = append(l.q, s)
	l.kick()
	return c, nil
}

func itoa(i int) string {
	b := []byte{'0', '0', '0', '0'}
	for k := 3; k >= 0; k-- {
		b[k] = byte('0' + i%10)
		i /= 10
	}
	return string(b)
}

//go:norace
func (c *Conn) Read(b []byte) (int, error) {
	for {
		if !c.host.Alive {
			select {}
		}
		if c.closed {
			return 0, &net.OpError{Op: "read", Net: "tcp", Err: net.ErrClosed}
		}
		now := c.n.now()
		if c.rdl != 0 && now >= c.rdl {
			return 0, &net.OpError{Op: "read", Net: "tcp", Err: os.ErrDeadlineExceeded}
		}
		if len(b) == 0 {
			return 0, nil
		}
		h := c.in
		var next int64
		if len(h.q) > 0 {
			if h.q[0].at <= now {
				k := copy(b, h.q[0].b)
				c.readN++
				if c.n.Cfg.ShortPct > 0 && k > 1 {
					r := mix(c.id ^ mix(c.readN+500))
					if int(r%100) < c.n.Cfg.ShortPct {
						k = 1 + int((r>>20)%uint64(k))
						c.n.Fired["short_read"]++
					}
				}
				h.q[0].b = h.q[0].b[k:]
				if len(h.q[0].b) == 0 {
					h.q = h.q[1:]
				}
				return k, nil
			}
			next = h.q[0].at
		} else if h.hasErr {
			if h.errAt <= now {
				if h.err == io.EOF {
					return 0, io.EOF
				}
				return 0, &net.OpError{Op: "read", Net: "tcp", Err: os.NewSyscallError("read", h.err)}
			}
			next = h.errAt
		}
		if c.rdl != 0 && (next == 0 || c.rdl < next) {
			next = c.rdl
		}
		if next == 0 {
			<-h.ch
			continue
		}
		t := time.NewTimer(time.Duration(next - now))
		select {
		case <-h.ch:
		case <-t.C:
		}
		t.Stop()
	}
}

//go:norace
func (c *Conn) Write(b []byte) (int, error) {
	if !c.host.Alive {
		select {}
	}
	if c.closed {
		return 0, &net.OpError{Op: "write", Net: "tcp", Err: net.ErrClosed}
	}
	if c.slammed && (c.in.err == io.EOF || c.in.errAt > c.n.now()) {
		return len(b), nil // into the void
	}
	if c.broken || c.peer.closed {
		return 0, &net.OpError{Op: "write", Net: "tcp", Err: os.NewSyscallError("write", syscall.EPIPE)}
	}
	if c.wdl != 0 && c.n.now() >= c.wdl {
		return 0, &net.OpError{Op: "write", Net: "tcp", Err: os.ErrDeadlineExceeded}
	}
	if len(b) == 0 {
		return 0, nil
	}
	d := append([]byte(nil), b...)
	extra := int64(0)
	cut, fin := -1, false
	if c.client {
		c.doSniff(d)
		if f := c.reqF; f != nil {
			switch f.K {
			case "cutreq":
				cut, fin = int(f.Frac*float64(len(d))), f.Fin
				c.reqF = nil
			case "delayreq":
				extra = f.DurUS * 1000
				c.reqF = nil
			case "crashdst", "crashsrc":
				c.reqF = nil
				ff := *f
				n := c.n
				dst, src := c.peerNode, c.selfNode
				time.AfterFunc(time.Duration(f.DurUS*1000), func() {
					if ff.K == "crashdst" {
						n.CrashHook(dst, &ff)
					} else {
						n.CrashHook(src, &ff)
					}
				})
			}
		}
	} else if p := c.peer; p.repF != nil {
		f := p.repF
		switch f.K {
		case "cutrep":
			cut, fin = int(f.Frac*float64(len(d))), f.Fin
			p.repF = nil
			c.n.CutReplies = append(c.n.CutReplies, CutReply{c.n.now(), p.selfNode, c.selfNode, p.method})
		case "delayrep":
			extra = f.DurUS * 1000
			p.repF = nil
		}
	}
	send := d
	if cut >= 0 {
		send = d[:cut]
	}
	c.sendSegs(send, extra)
	if cut >= 0 {
		at := c.peer.in.lastAt
		if at < c.n.now() {
			at = c.n.now()
		}
		how := error(syscall.ECONNRESET)
		if fin {
			how = io.EOF
		}
		c.peer.in.fail(at+1000, how)
		c.peer.broken = true
		c.in.fail(c.n.now()+c.n.lat(c, 99), how)
		c.broken = true
	}
	return len(b), nil
}

//go:norace
func (c *Conn) sendSegs(d []byte, extra int64) {
	k := 1
	if c.n.Cfg.Segs > 1 && len(d) > 1 {
		k = 1 + int(mix(c.id^mix(c.segN+9000))%uint64(c.n.Cfg.Segs))
	}
	for i := 0; i < k && len(d) > 0; i++ {
		c.segN++
		m := len(d)
		if i < k-1 {
			m = 1 + int(mix(c.id^mix(c.segN+7000))%uint64(len(d)))
		}
		at := c.n.arrive(c.selfNode, c.peerNode, c.n.now(), c.n.lat(c, c.segN)+extra)
		c.peer.in.push(d[:m], at)
		d = d[m:]
	}
}

// doSniff learns which request a client connection carries.
//
//go:norace
func (c *Conn) doSniff(d []byte) {
	if c.sniffed {
		return
	}
	c.sniff = append(c.sniff, d...)
	s := string(c.sniff)
	m := ""
	if i := strings.Index(s, "KMeansServer."); i >= 0 {
		j := i + len("KMeansServer.")
		k := j
		for k < len(s) && (s[k] >= 'a' && s[k] <= 'z' || s[k] >= 'A' && s[k] <= 'Z') {
			k++
		}
		m = s[j:k]
	} else if strings.HasPrefix(s, "POST ") || strings.HasPrefix(s, "GET ") {
		f := strings.Fields(s)
		if len(f) > 1 {
			m = f[1]
		}
	} else if len(s) < 4096 {
		return
	}
	c.sniffed = true
	c.sniff = nil
	c.method = m
	c.n.Calls[m]++
	if c.n.OnCall != nil {
		c.n.OnCall(c.selfNode, c.peerNode, m)
	}
	c.reqF = c.n.match("|cutreq|delayreq|crashdst|crashsrc|", m, c.selfNode, c.peerNode)
	c.repF = c.n.match("|cutrep|delayrep|", m, c.selfNode, c.peerNode)
}

//go:norace
func (c *Conn) Close() error {
	if !c.host.Alive {
		select {}
	}
	if c.closed {
		return &net.OpError{Op: "close", Net: "tcp", Err: net.ErrClosed}
	}
	c.closed = true
	if !c.broken {
		c.segN++
		at := c.n.arrive(c.selfNode, c.peerNode, c.n.now(), c.n.lat(c, c.segN))
		c.peer.in.fail(at, io.EOF)
	}
	c.in.kick()
	return nil
}

// Abort resets the connection (RST).
//
//go:norace
func (c *Conn) Abort() {
	c.n.Fired["client_abort"]++
	c.closed = true
	c.peer.in.fail(c.n.now()+c.n.lat(c, 98), syscall.ECONNRESET)
	c.peer.broken = true
	c.in.kick()
}

func (c *Conn) LocalAddr() net.Addr  { return c.laddr }
func (c *Conn) RemoteAddr() net.Addr { return c.raddr }

//go:norace
func (c *Conn) SetDeadline(t time.Time) error {
	c.SetReadDeadline(t)
	c.SetWriteDeadline(t)
	return nil
}

//go:norace
func dl(t time.Time) int64 {
	if t.IsZero() {
		return 0
	}
	d := runtime.SimNow() + int64(time.Until(t))
	if d < 1 {
		d = 1
	}
	return d
}

//go:norace
func (c *Conn) SetReadDeadline(t time.Time) error {
	if c.closed {
		return &net.OpError{Op: "set", Net: "tcp", Err: net.ErrClosed}
	}
	c.rdl = dl(t)
	c.in.kick()
	return nil
}

//go:norace
func (c *Conn) SetWriteDeadline(t time.Time) error {
	if c.closed {
		return &net.OpError{Op: "set", Net: "tcp", Err: net.ErrClosed}
	}
	c.wdl = dl(t)
	return nil
}

// OpenConns counts connections with an end at the host that are not closed.
//
//go:norace
func (n *Net) OpenConns(h *Host) int {
	k := 0
	for _, c := range n.conns {
		if c.host == h && !c.closed {
			k++
		}
	}
	return k
}

// OpenClientConns counts open connections a host dialed.
//
//go:norace
func (n *Net) OpenClientConns(h *Host) int {
	k := 0
	for _, c := range n.conns {
		if c.host == h && c.client && !c.closed {
			k++
		}
	}
	return k
}
