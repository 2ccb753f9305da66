package main

import (
	"container/heap"
	"fmt"
	"net"
	"runtime"
	"sort"
	"strings"
	"syscall"
	"time"
)

// The network daemon: a model of TCP as Linux offers it, driven by one
// harness goroutine. All its state belongs to that goroutine.

const (
	ms  = int64(time.Millisecond)
	sec = int64(time.Second)
)

type rng uint64

func newRng(parts ...uint64) *rng {
	r := rng(0x1234567)
	for _, p := range parts {
		r ^= rng(p)
		r.u64()
	}
	return &r
}

func (r *rng) u64() uint64 {
	*r += 0x9e3779b97f4a7c15
	z := uint64(*r)
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (r *rng) n(k int) int {
	if k <= 1 {
		return 0
	}
	return int(r.u64() % uint64(k))
}
func (r *rng) n64(k int64) int64 {
	if k <= 1 {
		return 0
	}
	return int64(r.u64() % uint64(k))
}
func (r *rng) p(num, den int) bool        { return r.n(den) < num }
func (r *rng) pick(xs ...int) int         { return xs[r.n(len(xs))] }
func (r *rng) pick64(xs ...int64) int64   { return xs[r.n(len(xs))] }
func (r *rng) between(lo, hi int64) int64 { return lo + r.n64(hi-lo+1) }

type event struct {
	at  int64
	seq uint64
	f   func()
}
type evHeap []event

func (h evHeap) Len() int { return len(h) }
func (h evHeap) Less(i, j int) bool {
	return h[i].at < h[j].at || h[i].at == h[j].at && h[i].seq < h[j].seq
}
func (h evHeap) Swap(i, j int) { h[i], h[j] = h[j], h[i] }
func (h *evHeap) Push(x any)   { *h = append(*h, x.(event)) }
func (h *evHeap) Pop() any {
	o := *h
	x := o[len(o)-1]
	*h = o[:len(o)-1]
	return x
}

type sim struct {
	on      []*onWait
	plan    *Plan
	cfg     NetCfg
	q       evHeap
	seq     uint64
	r       *rng
	socks   map[int64]*sock
	lst     map[int64]*listener
	dials   map[int64]*dial
	nextID  int64
	hosts   []*host
	block   map[[2]int]bool // directed
	grpHost map[int32]int
	grpInc  map[int32]*inc
	conns   []*tconn
	faults  map[string]int
	pairs   map[[2]int]uint64 // connections per host pair
	redir   map[string]string
	mitm    []*mitmRule
	seen    []wireFrame
	dialFlt []*dialRule
	accFlt  map[int]int // proc -> pending accept errors
	end     bool
	quant   int64
}

type host struct {
	idx   int
	ip    string
	down  bool
	epoch int
	used  map[int]int64 // ephemeral port -> free at time (-1: in use)
	next  int
}

type listener struct {
	id   int64
	grp  int32
	host int
	ip   string // "" = any
	v6   bool
	port int
	q    []*sock
	acc  []*runtime.ZsimReq
	dead bool
}

type dial struct {
	id       int64
	grp      int32
	src      int
	raw      string
	req      *runtime.ZsimReq
	canceled bool
	done     bool
	sid      int64
	ec       int64
	rs       string
	lport    int
}

type sock struct {
	id     int64
	conn   *tconn
	side   int
	grp    int32
	host   int
	la, ra string
	lport  int
	closed bool
	gone   bool // vanished with its host
	users  []int64
	freed  bool
	err    int64
	rdl    int64
	wdl    int64
	pr     []*runtime.ZsimReq
	pw     []*wreq
	in     *pipe
	out    *pipe
	lastRd int64 // when data was last read
	lastFr int64 // when a complete frame was last read
	closeT int64
	rd     frames // read by the application
	wr     frames // written by the application (calls that returned)
}

// frames counts length-prefixed frames in a byte stream.
type frames struct {
	hdr  [4]byte
	n    int   // header bytes seen
	left int64 // body bytes missing
	cnt  int
	tot  int64
}

func (f *frames) feed(b []byte) {
	f.tot += int64(len(b))
	for len(b) > 0 {
		if f.n < 4 {
			k := copy(f.hdr[f.n:], b)
			f.n += k
			b = b[k:]
			if f.n < 4 {
				return
			}
			f.left = int64(f.hdr[0])<<24 | int64(f.hdr[1])<<16 | int64(f.hdr[2])<<8 | int64(f.hdr[3])
		} else {
			k := int64(len(b))
			if k > f.left {
				k = f.left
			}
			f.left -= k
			b = b[k:]
		}
		if f.n == 4 && f.left == 0 {
			f.cnt++
			f.n = 0
		}
	}
}

// user logs the first use of a socket by a goroutine.
func (k *sock) user(g int64) {
	for _, x := range k.users {
		if x == g {
			return
		}
	}
	k.users = append(k.users, g)
	logNet(nUse, int64(k.conn.id), k.id, g, "")
}

type wreq struct {
	r   *runtime.ZsimReq
	buf []byte
	off int
}

type pipe struct {
	from, to *sock
	snd      []byte
	segs     []seg
	rcv      []byte
	inflight int
	finQ     bool
	finSent  bool
	fin      bool
	lastArr  int64
	stuck    int64
	rto      int64
	armed    bool
	r        *rng
	tap      []byte // what was put on the wire
	filt     *filter
	total    int64
	hold     int // bytes at the end held back
	holdN    int
}

type seg struct {
	at   int64
	data []byte
	fin  bool
}

type tconn struct {
	id    int
	a, b  *sock // dialer, acceptor
	dead  bool
	start int64
}

func newSim(p *Plan) *sim {
	s := &sim{plan: p, cfg: p.Net, socks: map[int64]*sock{}, lst: map[int64]*listener{}, dials: map[int64]*dial{},
		block: map[[2]int]bool{}, grpHost: map[int32]int{}, grpInc: map[int32]*inc{}, faults: map[string]int{},
		pairs: map[[2]int]uint64{}, redir: map[string]string{}, accFlt: map[int]int{}}
	s.r = newRng(p.Seed, 77)
	nh := 0
	for _, pr := range p.Procs {
		if pr.Host+1 > nh {
			nh = pr.Host + 1
		}
	}
	for i := 0; i < nh; i++ {
		s.hosts = append(s.hosts, &host{idx: i, ip: hostIP(i), used: map[int]int64{}})
	}
	if p.Net.Quant > 0 {
		s.quant = p.Net.LatMax / int64(p.Net.Quant)
		if s.quant > 20*ms {
			s.quant = 20 * ms
		}
	}
	return s
}

func hostIP(i int) string { return fmt.Sprintf("10.0.0.%d", i+1) }

func (s *sim) now() int64 { return runtime.ZsimNow() }

func (s *sim) after(d int64, f func()) { s.at(s.now()+d, f) }

func (s *sim) at(t int64, f func()) {
	s.seq++
	heap.Push(&s.q, event{t, s.seq, f})
}

func (s *sim) fault(k string) { s.faults[k]++ }

// rss is the largest amount of memory that was in use, in KiB.
func rss() int64 {
	var u syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &u)
	return u.Maxrss
}

// loop serves requests and events until end.
func (s *sim) loop() {
	for n := 0; !s.end; n++ {
		if runtime.ZsimStat()[3] != 0 {
			return
		}
		if n&255 == 255 && rss() > maxRSS {
			runtime.ZsimStop()
			return
		}
		for len(s.q) > 0 && s.q[0].at <= s.now() {
			e := heap.Pop(&s.q).(event)
			e.f()
			if s.end {
				return
			}
		}
		var until int64
		if len(s.q) > 0 {
			until = s.q[0].at
		}
		r := runtime.ZsimNext(until)
		if r == nil {
			if runtime.ZsimStat()[3] != 0 {
				return
			}
			continue
		}
		s.serve(r)
	}
}

func (s *sim) serve(r *runtime.ZsimReq) {
	op, grp, a, b, c, buf, str := runtime.ZsimReqGet(r)
	switch op {
	case opDialNew:
		s.nextID++
		d := &dial{id: s.nextID, grp: grp, src: s.grpHost[grp], raw: str}
		s.dials[d.id] = d
		runtime.ZsimReply(r, d.id, 0, 0, "")
	case opDialWait:
		d := s.dials[a]
		d.req = r
		s.dialStart(d)
	case opDialCancel:
		if d := s.dials[a]; d != nil {
			d.canceled = true
			if d.req != nil && !d.done {
				s.dialDone(d, 0, ecCancel, "")
			}
		}
		runtime.ZsimReply(r, 0, 0, 0, "")
	case opListen:
		s.listen(r, grp, str)
	case opAccept:
		l := s.lst[a]
		if l == nil || l.dead {
			runtime.ZsimReply(r, 0, ecClosed, 0, "")
			return
		}
		l.acc = append(l.acc, r)
		s.pumpAccept(l)
	case opRead:
		k := s.socks[a]
		k.user(b)
		s.read(k, r, buf)
	case opWrite:
		k := s.socks[a]
		k.user(b)
		cp := make([]byte, len(buf))
		runtime.ZsimCopy(cp, buf)
		s.write(k, &wreq{r: r, buf: cp})
	case opClose:
		if l := s.lst[a]; l != nil {
			if l.dead {
				runtime.ZsimReply(r, 0, ecClosed, 0, "")
				return
			}
			s.closeListener(l)
			runtime.ZsimReply(r, 0, 0, 0, "")
			return
		}
		k := s.socks[a]
		if k.closed {
			runtime.ZsimReply(r, 0, ecClosed, 0, "")
			return
		}
		s.closeSock(k)
		runtime.ZsimReply(r, 0, 0, 0, "")
	case opShutdown:
		k := s.socks[a]
		if k.closed {
			runtime.ZsimReply(r, 0, ecClosed, 0, "")
			return
		}
		if b == 1 || b == 2 {
			k.out.finQ = true
			s.transmit(k.out)
		}
		runtime.ZsimReply(r, 0, 0, 0, "")
	case opDeadline:
		if l := s.lst[a]; l != nil {
			runtime.ZsimReply(r, 0, 0, 0, "")
			return
		}
		k := s.socks[a]
		if k.closed {
			runtime.ZsimReply(r, 0, ecClosed, 0, "")
			return
		}
		if b == 'r' || b == 'b' {
			k.rdl = c
			s.armDeadline(k, c)
		}
		if b == 'w' || b == 'b' {
			k.wdl = c
			s.armDeadline(k, c)
		}
		runtime.ZsimReply(r, 0, 0, 0, "")
	case opHappens:
		s.happens(onKinds[a], grp)
		runtime.ZsimReply(r, 0, 0, 0, "")
	case opAwait:
		s.when(&When{K: onKinds[a&255], N: int(b), D: a >> 8, Max: c}, grp, -1, func() { runtime.ZsimReply(r, 0, 0, 0, "") })
	case opLive:
		s.live("probe")
		runtime.ZsimReply(r, 0, 0, 0, "")
	default:
		panic("harness: bad request")
	}
}

func (s *sim) armDeadline(k *sock, t int64) {
	if t == 0 {
		return
	}
	if t <= s.now() {
		s.expire(k)
		return
	}
	s.at(t, func() { s.expire(k) })
}

func (s *sim) expire(k *sock) {
	if k.rdl != 0 && k.rdl <= s.now() {
		for _, r := range k.pr {
			runtime.ZsimReply(r, 0, ecDeadline, 0, "")
		}
		k.pr = nil
	}
	if k.wdl != 0 && k.wdl <= s.now() {
		for _, w := range k.pw {
			runtime.ZsimReply(w.r, int64(w.off), ecDeadline, 0, "")
		}
		k.pw = nil
	}
}

// --- addresses and listeners ---

func splitAddr(a string) (ip string, port int) {
	i := strings.LastIndexByte(a, ':')
	ip = strings.Trim(a[:i], "[]")
	for _, c := range a[i+1:] {
		port = port*10 + int(c-'0')
	}
	return
}

func localIP(ip string) bool {
	if ip == "" {
		return true
	}
	p := net.ParseIP(ip)
	return p == nil || p.IsLoopback() || p.IsUnspecified()
}

func (s *sim) hostOf(src int, ip string) int {
	if localIP(ip) {
		return src
	}
	for _, h := range s.hosts {
		if h.ip == ip {
			return h.idx
		}
	}
	return -1
}

func (s *sim) listen(r *runtime.ZsimReq, grp int32, a string) {
	h := s.hosts[s.grpHost[grp]]
	ip, port := splitAddr(a)
	if !localIP(ip) && s.hostOf(h.idx, ip) != h.idx {
		runtime.ZsimReply(r, 0, int64(syscall.EADDRNOTAVAIL), 0, "")
		return
	}
	any := ip == "" || net.ParseIP(ip).IsUnspecified()
	if port == 0 {
		for port = 20000; s.findListener(h.idx, port) != nil; port++ {
		}
	} else if s.findListener(h.idx, port) != nil {
		runtime.ZsimReply(r, 0, int64(syscall.EADDRINUSE), 0, "")
		return
	}
	s.nextID++
	l := &listener{id: s.nextID, grp: grp, host: h.idx, port: port, v6: any || strings.Contains(ip, ":")}
	la := "6[::]"
	if !any {
		l.ip = ip
		la = "4" + ip
	}
	s.lst[l.id] = l
	logNet(nListen, l.id, int64(grp), int64(port), "")
	runtime.ZsimReply(r, l.id, 0, 0, fmt.Sprintf("%s:%d", la, port))
}

func (s *sim) findListener(host, port int) *listener {
	var f *listener
	for _, l := range s.lst {
		if !l.dead && l.host == host && l.port == port && (f == nil || l.id < f.id) {
			f = l
		}
	}
	return f
}

func (s *sim) closeListener(l *listener) {
	l.dead = true
	logNet(nUnlisten, l.id, int64(l.grp), int64(l.port), "")
	for _, r := range l.acc {
		runtime.ZsimReply(r, 0, ecClosed, 0, "")
	}
	l.acc = nil
	for _, k := range l.q {
		s.reset(k)
	}
	l.q = nil
}

func (s *sim) pumpAccept(l *listener) {
	for len(l.acc) > 0 && len(l.q) > 0 {
		r := l.acc[0]
		l.acc = l.acc[1:]
		if in := s.grpInc[l.grp]; in != nil && s.accFlt[in.proc] > 0 {
			s.accFlt[in.proc]--
			s.fault("accept-error")
			runtime.ZsimReply(r, 0, int64(syscall.EMFILE), 0, "")
			continue
		}
		k := l.q[0]
		l.q = l.q[1:]
		fam := "4"
		if l.v6 {
			fam = "6"
		}
		logNet(nAccept, k.id, int64(k.conn.id), int64(l.grp), "")
		runtime.ZsimReply(r, k.id, 0, 0, fam+k.la+"|"+fam+k.ra)
		s.happens("accept", l.grp)
	}
}

// --- dialing ---

type dialRule struct {
	proc  int // dialing process
	to    int // target process (-1 any)
	skip  int
	count int
	errno int64
	delay int64
}

func (s *sim) lat(p *pipe) int64 {
	c := s.cfg
	d := c.LatMin
	if c.LatMax > c.LatMin {
		d = p.r.between(c.LatMin, c.LatMax)
	}
	if c.SpikeNum > 0 && p.r.p(c.SpikeNum, 1000) {
		d += p.r.between(1, c.SpikeMax)
		s.fault("delay-spike")
	}
	if c.LossNum > 0 && p.r.p(c.LossNum, 1000) {
		x := 200 * ms
		for p.r.p(1, 3) && x < 5*sec {
			x *= 2
		}
		d += x
		s.fault("loss-retransmit")
	}
	if d < 1000 {
		d = 1000
	}
	if q := s.quant; q > 1 {
		if x := (s.now() + d) % q; x > 0 {
			d += q - x
		}
	}
	return d
}

func (s *sim) latPlain() int64 {
	if s.cfg.LatMax > s.cfg.LatMin {
		return s.r.between(s.cfg.LatMin, s.cfg.LatMax) + 1000
	}
	return s.cfg.LatMin + 1000
}

func (s *sim) blocked(a, b int) bool {
	if a != b && (s.hosts[a].down || s.hosts[b].down) || s.hosts[b].down {
		return true
	}
	return s.block[[2]int{a, b}]
}

func (s *sim) dialDone(d *dial, sid, ec int64, rs string) {
	if d.done {
		return
	}
	d.done = true
	if ec != 0 && d.lport != 0 {
		delete(s.hosts[d.src].used, d.lport)
	}
	logNet(nDialEnd, d.id, ec, int64(d.grp), d.raw)
	coin := int64(0)
	if s.r.p(1, 2) {
		coin = 1
	}
	runtime.ZsimReply(d.req, sid, ec, coin, rs)
	s.happens("dial", d.grp)
}

func (s *sim) ephemeral(h *host) int {
	lo, hi := s.cfg.EphLo, s.cfg.EphHi
	if lo == 0 {
		lo, hi = 32768, 60999
	}
	n := hi - lo + 1
	for i := 0; i < n; i++ {
		p := lo + (h.next+i)%n
		at, used := h.used[p]
		if used && (at < 0 || at > s.now()) {
			continue
		}
		h.next = p - lo + 1
		h.used[p] = -1
		return p
	}
	return 0
}

func (s *sim) dialStart(d *dial) {
	in := s.grpInc[d.grp]
	proc := -1
	if in != nil {
		proc = in.proc
	}
	if d.canceled { // before anything was sent
		d.done = true
		runtime.ZsimReply(d.req, 0, ecCancel, 0, "")
		return
	}
	logNet(nDial, d.id, int64(proc), int64(d.grp), d.raw)
	target := d.raw
	if r, ok := s.redir[target]; ok && (in == nil || in.pr.Kind == "") {
		target = r
	}
	ip, port := splitAddr(target)
	dst := s.hostOf(d.src, ip)
	for _, ru := range s.dialFlt {
		if ru.proc >= 0 && ru.proc != proc || ru.to >= 0 && !s.isProcAddr(ru.to, dst, port) {
			continue
		}
		if ru.skip > 0 {
			ru.skip--
			continue
		}
		if ru.count <= 0 {
			continue
		}
		ru.count--
		s.fault("dial-error")
		e := ru.errno
		s.after(ru.delay+s.latPlain(), func() { s.dialDone(d, 0, e, "") })
		return
	}
	h := s.hosts[d.src]
	d.lport = s.ephemeral(h)
	if d.lport == 0 {
		s.fault("port-exhaustion")
		s.dialDone(d, 0, int64(syscall.EADDRNOTAVAIL), "")
		return
	}
	if dst < 0 {
		s.fault("unroutable")
		s.after(127*sec, func() { s.dialDone(d, 0, int64(syscall.ETIMEDOUT), "") })
		return
	}
	s.after(s.latPlain(), func() { s.syn(d, dst, port, 0) })
}

func (s *sim) isProcAddr(proc, host, port int) bool {
	p := s.plan.Procs[proc]
	return p.Host == host && int(p.Port) == port
}

var synBackoff = []int64{1, 2, 4, 8, 16, 32, 64}

func (s *sim) syn(d *dial, dst, port, try int) {
	if d.done {
		return
	}
	if s.blocked(d.src, dst) || s.blocked(dst, d.src) {
		s.fault("syn-lost")
		if try >= 6 {
			s.after(64*sec, func() { s.dialDone(d, 0, int64(syscall.ETIMEDOUT), "") })
			return
		}
		s.after(synBackoff[try]*sec, func() { s.syn(d, dst, port, try+1) })
		return
	}
	l := s.findListener(dst, port)
	if l == nil {
		s.after(s.latPlain(), func() { s.dialDone(d, 0, int64(syscall.ECONNREFUSED), "") })
		return
	}
	lip := s.hosts[d.src].ip
	rip := s.hosts[dst].ip
	if d.src == dst {
		lip, rip = "127.0.0.1", "127.0.0.1"
	}
	la := fmt.Sprintf("%s:%d", lip, d.lport)
	ra := fmt.Sprintf("%s:%d", rip, port)
	// A leftover server-side socket with the same four-tuple is reset first
	// (challenge ACK), and the SYN is retried.
	for _, c := range s.conns {
		if !c.b.closed && !c.b.gone && c.b.err == 0 && c.b.la == ra && c.b.ra == la {
			s.fault("port-reuse-reset")
			s.kill(c.b, int64(syscall.ECONNRESET))
			s.after(sec, func() { s.syn(d, dst, port, try) })
			return
		}
	}
	c := &tconn{id: len(s.conns), start: s.now()}
	pk := [2]int{d.src, dst}
	s.pairs[pk]++
	mk := func(side int, grp int32, host int) *sock {
		s.nextID++
		k := &sock{id: s.nextID, conn: c, side: side, grp: grp, host: host}
		s.socks[k.id] = k
		return k
	}
	c.a = mk(0, d.grp, d.src)
	c.b = mk(1, l.grp, dst)
	c.a.la, c.a.ra, c.a.lport = la, ra, d.lport
	c.b.la, c.b.ra = ra, la
	ab := &pipe{from: c.a, to: c.b, r: newRng(s.plan.Seed, 1, uint64(d.src), uint64(dst), s.pairs[pk])}
	ba := &pipe{from: c.b, to: c.a, r: newRng(s.plan.Seed, 2, uint64(d.src), uint64(dst), s.pairs[pk])}
	c.a.out, c.a.in, c.b.out, c.b.in = ab, ba, ba, ab
	s.conns = append(s.conns, c)
	s.attachMitm(c)
	logNet(nEstab, int64(c.id), c.a.id, c.b.id, la+"|"+ra)
	l.q = append(l.q, c.b)
	s.pumpAccept(l)
	var ack func(n int)
	ack = func(n int) {
		if s.blocked(dst, d.src) {
			if d.done || n > 6 {
				s.dialDone(d, 0, int64(syscall.ETIMEDOUT), "")
				c.a.closed = true
				c.a.gone = true
				return
			}
			s.after(synBackoff[n]*sec, func() { ack(n + 1) })
			return
		}
		if d.done { // cancelled meanwhile: the kernel answers with a reset
			c.a.closed = true
			s.fault("dial-cancelled-late")
			s.sendRST(c.a)
			return
		}
		s.dialDone(d, c.a.id, 0, "4"+la+"|4"+ra)
	}
	s.after(s.lat(ba), func() { ack(0) })
}

// --- data ---

func (s *sim) write(k *sock, w *wreq) {
	if k.closed {
		runtime.ZsimReply(w.r, 0, ecClosed, 0, "")
		return
	}
	if k.wdl != 0 && k.wdl <= s.now() {
		runtime.ZsimReply(w.r, 0, ecDeadline, 0, "")
		return
	}
	k.pw = append(k.pw, w)
	s.pumpWrite(k)
}

func (s *sim) pumpWrite(k *sock) {
	for len(k.pw) > 0 {
		w := k.pw[0]
		if k.err != 0 {
			runtime.ZsimReply(w.r, int64(w.off), k.err, 0, "")
			k.pw = k.pw[1:]
			continue
		}
		if k.out.finQ {
			runtime.ZsimReply(w.r, int64(w.off), int64(syscall.EPIPE), 0, "")
			k.pw = k.pw[1:]
			continue
		}
		room := s.cfg.SndBuf - len(k.out.snd)
		if n := len(w.buf) - w.off; room > n {
			room = n
		}
		if room > 0 {
			s.accept(k.out, w.buf[w.off:w.off+room])
			w.off += room
			s.transmit(k.out)
		}
		if w.off < len(w.buf) {
			if len(k.out.snd) < s.cfg.SndBuf {
				continue
			}
			s.fault("write-blocked")
			return
		}
		k.wr.feed(w.buf)
		if s.plan.X["wrlog"] != 0 {
			logNet(nWr, int64(k.conn.id), k.id, int64(k.wr.cnt), "")
		}
		runtime.ZsimReply(w.r, int64(w.off), 0, 0, "")
		s.happens("written", k.grp)
		k.pw = k.pw[1:]
	}
}

// accept puts bytes on the wire's queue, through the attacker if there is one.
func (s *sim) accept(p *pipe, b []byte) {
	p.total += int64(len(b))
	if s.plan.Tap {
		p.tap = append(p.tap, b...)
	}
	if p.filt != nil {
		b = p.filt.feed(s, p, b)
	}
	p.snd = append(p.snd, b...)
	p.hold = 0
	if s.cfg.Tail > 0 && p.total > 600 && len(b) > 1 { // not in the handshake
		p.hold = 1 + p.r.n(len(b)-1)
		p.holdN++
		n := p.holdN
		s.fault("tail-held")
		s.after(s.cfg.Tail, func() {
			if p.holdN == n {
				p.hold = 0
				s.transmit(p)
			}
		})
	}
}

func (s *sim) segSize(p *pipe) int {
	n := len(p.snd)
	switch s.cfg.SegMode {
	case 1: // MSS
		if n > 1448 {
			n = 1448
		}
		if len(p.snd) > 200000 {
			n = 65536
		}
	case 2: // tiny
		k := 1 + p.r.n(16)
		if len(p.snd) > 2048 {
			k = len(p.snd) / (16 + p.r.n(64))
		}
		if n > k {
			n = k
		}
	case 3: // random
		k := 1 + p.r.n(n)
		if p.r.p(1, 2) {
			k = n
		}
		if n > k {
			n = k
		}
	}
	return n
}

func (s *sim) transmit(p *pipe) {
	if p.from.gone {
		return
	}
	if p.finQ {
		p.hold = 0
	}
	for len(p.snd) > p.hold {
		win := s.cfg.RcvBuf - p.inflight - len(p.rcv)
		if win <= 0 {
			break
		}
		n := s.segSize(p)
		if n > len(p.snd)-p.hold {
			n = len(p.snd) - p.hold
		}
		if n > win {
			n = win
		}
		d := append([]byte(nil), p.snd[:n]...)
		p.snd = p.snd[n:]
		if len(p.snd) == 0 {
			p.snd = nil
		}
		p.inflight += n
		s.push(p, seg{data: d})
	}
	if len(p.snd) == 0 && p.finQ && !p.finSent {
		p.finSent = true
		s.push(p, seg{fin: true})
	}
	if len(p.from.pw) > 0 && len(p.snd) < s.cfg.SndBuf && p.from.err == 0 {
		// woken by the caller through pumpWrite
	}
}

func (s *sim) push(p *pipe, g seg) {
	t := s.now() + s.lat(p)
	if t < p.lastArr {
		t = p.lastArr
	}
	p.lastArr = t
	g.at = t
	p.segs = append(p.segs, g)
	s.arm(p)
}

func (s *sim) arm(p *pipe) {
	if p.armed || len(p.segs) == 0 {
		return
	}
	p.armed = true
	t := p.segs[0].at
	if p.stuck != 0 {
		t = s.now() + p.rto
	}
	s.at(t, func() {
		p.armed = false
		s.arrive(p)
	})
}

func (s *sim) arrive(p *pipe) {
	for len(p.segs) > 0 {
		g := p.segs[0]
		if g.at > s.now() {
			break
		}
		if s.blocked(p.from.host, p.to.host) || s.blocked(p.to.host, p.from.host) {
			s.fault("segment-lost")
			if p.from.gone {
				p.segs = nil
				return
			}
			if p.stuck == 0 {
				p.stuck = s.now()
				p.rto = 200 * ms
			} else if p.rto *= 2; p.rto > 120*sec {
				p.rto = 120 * sec
			}
			if s.now()-p.stuck > 924*sec {
				s.fault("tcp-timeout")
				s.kill(p.from, int64(syscall.ETIMEDOUT))
				return
			}
			s.arm(p)
			return
		}
		if p.from.gone && p.stuck != 0 {
			p.segs = nil
			return
		}
		p.stuck = 0
		p.segs = p.segs[1:]
		p.inflight -= len(g.data)
		if p.to.closed || p.to.gone || p.to.err != 0 {
			if g.fin && !p.to.gone && p.to.err == 0 {
				// FIN to a socket the application closed: normal end.
				p.fin = true
				s.freePort(p.from.conn)
				continue
			}
			if len(g.data) > 0 || p.to.gone {
				s.sendRST(p.to)
				p.segs = nil
				return
			}
			continue
		}
		if g.fin {
			p.fin = true
			logNet(nFin, int64(p.to.conn.id), p.to.id, 0, "")
		} else {
			p.rcv = append(p.rcv, g.data...)
		}
		s.pumpRead(p.to)
	}
	s.arm(p)
	s.pumpWrite(p.from)
}

func (s *sim) read(k *sock, r *runtime.ZsimReq, buf []byte) {
	if k.closed {
		runtime.ZsimReply(r, 0, ecClosed, 0, "")
		return
	}
	if k.rdl != 0 && k.rdl <= s.now() {
		runtime.ZsimReply(r, 0, ecDeadline, 0, "")
		return
	}
	k.pr = append(k.pr, r)
	s.pumpRead(k)
}

func (s *sim) pumpRead(k *sock) {
	for len(k.pr) > 0 {
		r := k.pr[0]
		_, _, _, _, _, buf, _ := runtime.ZsimReqGet(r)
		switch {
		case len(buf) == 0:
			runtime.ZsimReply(r, 0, 0, 0, "")
		case len(k.in.rcv) > 0:
			n := runtime.ZsimCopy(buf, k.in.rcv)
			k.lastRd = s.now()
			fr := k.rd.cnt
			k.rd.feed(k.in.rcv[:n])
			if k.rd.cnt > fr {
				k.lastFr = s.now()
			}
			k.in.rcv = k.in.rcv[n:]
			if len(k.in.rcv) == 0 {
				k.in.rcv = nil
			}
			runtime.ZsimReply(r, int64(n), 0, 0, "")
			s.happens("data", k.grp)
			s.transmit(k.in)
			s.pumpWrite(k.in.from)
		case k.err != 0:
			runtime.ZsimReply(r, 0, k.err, 0, "")
		case k.in.fin:
			runtime.ZsimReply(r, 0, ecEOF, 0, "")
			s.happens("eof", k.grp)
		default:
			return
		}
		k.pr = k.pr[1:]
	}
}

// kill ends a connection at one end with an error (reset or timeout).
func (s *sim) kill(k *sock, errno int64) {
	if k.closed || k.gone || k.err != 0 {
		return
	}
	k.err = errno
	k.out.snd, k.out.segs = nil, nil
	logNet(nReset, int64(k.conn.id), k.id, errno, "")
	s.pumpRead(k)
	s.pumpWrite(k)
	s.freePort(k.conn)
	if p := k.out.to; !p.closed && !p.gone && p.err == 0 {
		s.keepalive(p)
	}
}

// sendRST sends a reset from k (already dead locally) to its peer.
func (s *sim) sendRST(k *sock) {
	peer := k.out.to
	t := s.now() + s.lat(k.out)
	try := 0
	var f func()
	f = func() {
		if s.blocked(k.host, peer.host) {
			try++
			if try > 3 {
				return // lost: the peer learns from its own retransmissions
			}
			s.after(sec, f)
			return
		}
		s.kill(peer, int64(syscall.ECONNRESET))
	}
	s.at(t, f)
}

func (s *sim) freePort(c *tconn) {
	a := c.a
	if a.freed || !(a.closed || a.gone) {
		return
	}
	a.freed = true
	free := s.now() + 60*sec
	if a.err != 0 || c.b.closed || c.b.err != 0 {
		free = s.now()
	}
	s.hosts[a.host].used[a.lport] = free
}

// reset closes k abruptly (RST to the peer).
func (s *sim) reset(k *sock) {
	k.closed = true
	k.closeT = s.now()
	k.out.snd = nil
	k.out.segs = nil
	s.sendRST(k)
	logNet(nClose, int64(k.conn.id), k.id, 1, "")
	s.freePort(k.conn)
}

func (s *sim) closeSock(k *sock) {
	unread := len(k.in.rcv) > 0
	k.closed = true
	k.closeT = s.now()
	for _, r := range k.pr {
		runtime.ZsimReply(r, 0, ecClosed, 0, "")
	}
	for _, w := range k.pw {
		runtime.ZsimReply(w.r, int64(w.off), ecClosed, 0, "")
	}
	k.pr, k.pw = nil, nil
	if unread && k.err == 0 {
		k.out.snd, k.out.segs = nil, nil
		s.sendRST(k)
		logNet(nClose, int64(k.conn.id), k.id, 1, "")
	} else {
		logNet(nClose, int64(k.conn.id), k.id, 0, "")
		if k.err == 0 {
			k.out.finQ = true
			s.transmit(k.out)
		}
	}
	s.freePort(k.conn)
	s.happens("closed", k.grp)
}

// --- faults ---

// procExit is what the kernel does when a process dies.
func (s *sim) procExit(grp int32) {
	for _, l := range s.sortedLst() {
		if l.grp == grp && !l.dead {
			s.closeListener(l)
		}
	}
	for _, k := range s.sortedSocks() {
		if k.grp == grp && !k.closed && !k.gone {
			if len(k.in.rcv) > 0 && k.err == 0 {
				s.reset(k)
			} else {
				s.closeSock(k)
			}
		}
	}
	for _, d := range s.dials {
		if d.grp == grp {
			d.done = true
		}
	}
}

// powerOff makes everything on a host vanish silently.
func (s *sim) powerOff(h int) {
	s.hosts[h].down = true
	s.hosts[h].epoch++
	for _, l := range s.sortedLst() {
		if l.host == h {
			l.dead = true
			l.q, l.acc = nil, nil
			logNet(nUnlisten, l.id, int64(l.grp), int64(l.port), "")
		}
	}
	for _, k := range s.sortedSocks() {
		if k.host == h && !k.gone {
			k.gone = true
			k.pr, k.pw = nil, nil
			k.out.snd, k.out.segs = nil, nil
			peer := k.out.to
			if !peer.gone && !peer.closed {
				s.keepalive(peer)
			}
		}
	}
	s.hosts[h].used = map[int]int64{}
	for _, d := range s.dials {
		if d.src == h {
			d.done = true
		}
	}
}

func (s *sim) powerOn(h int) { s.hosts[h].down = false }

// keepalive models TCP keepalive (idle 15 s, 9 probes 15 s apart) of a socket
// whose peer became unreachable.
func (s *sim) keepalive(k *sock) {
	miss := 0
	var probe func()
	probe = func() {
		if k.closed || k.gone || k.err != 0 {
			return
		}
		peer := k.out.to
		if s.blocked(k.host, peer.host) || s.blocked(peer.host, k.host) {
			miss++
			if miss > 9 {
				s.fault("keepalive-timeout")
				s.kill(k, int64(syscall.ETIMEDOUT))
				return
			}
			s.after(15*sec, probe)
			return
		}
		if peer.gone || peer.err != 0 || peer.closed && peer.out.finSent == false {
			s.kill(k, int64(syscall.ECONNRESET))
			return
		}
	}
	s.after(15*sec+s.r.n64(15*sec), probe)
}

// partition blocks (or unblocks) the path from hosts in a to hosts in b.
func (s *sim) partition(a, b int, on bool) {
	if on {
		s.block[[2]int{a, b}] = true
		for _, k := range s.sortedSocks() {
			if !k.closed && !k.gone && k.err == 0 && (k.host == a && k.out.to.host == b || k.host == b && k.out.to.host == a) {
				s.keepalive(k)
			}
		}
	} else {
		delete(s.block, [2]int{a, b})
		// Retransmissions resume quickly after the path heals.
		for _, c := range s.conns {
			for _, p := range []*pipe{c.a.out, c.b.out} {
				if p.stuck != 0 && p.rto > 3*sec {
					p.rto = 3 * sec
				}
			}
		}
	}
}

func (s *sim) sortedSocks() []*sock {
	var l []*sock
	for _, k := range s.socks {
		l = append(l, k)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
	return l
}

func (s *sim) sortedLst() []*listener {
	var l []*listener
	for _, k := range s.lst {
		l = append(l, k)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
	return l
}
