package main

import (
	"bufio"
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"strings"
	"time"

	"github.com/perlin-network/noise"
)

// Proxies: peers in the middle of a connection between two nodes.
const (
	xRelay       = iota + 1 // passes everything on, in other pieces
	xOwn                    // its own ephemeral keys on both sides, overlay encrypted anew
	xOwnOne                 // its own ephemeral key towards one side
	xLow                    // low-order ephemeral keys
	xCross                  // exchanges the second step between two connections
	xFlip                   // a bit of the handshake
	xSwapOvl                // gives each side its own second step back
	xReflectSess            // gives each side its own first step back
	xReplayOvl              // the second step of an earlier connection
	xReplaySess             // the first step of an earlier connection
	xCut                    // leaves out part of a handshake frame
	xDupSess                // the first step twice
	xOwnCut                 // as xOwn, but signs the overlay of the one side itself
	xLast
)

func modifying(mode int) bool { return mode != xRelay }

// relayRec is what proxies recorded, by direction (0: towards the acceptor).
type relayRec struct {
	sess, ovl [2][]byte
}

var relayRecs []*relayRec
var crossWait []*proxied

type proxied struct {
	in, out net.Conn
	ri, ro  *bufio.Reader
	peer    chan *proxied
	other   *proxied
	ovl     [2][]byte
}

func rdFrame(r *bufio.Reader) ([]byte, error) {
	var h [4]byte
	if _, err := io.ReadFull(r, h[:]); err != nil {
		return nil, err
	}
	n := binary.BigEndian.Uint32(h[:])
	if n > 1<<20 {
		return nil, io.ErrShortBuffer
	}
	b := make([]byte, n)
	_, err := io.ReadFull(r, b)
	return b, err
}

func (in *inc) proxy(c net.Conn, mode int, r *rng) {
	p := in.plan
	o, err := net.Dial("tcp", procAddrOrIP(p, int(in.pr.X["to"])))
	if err != nil {
		c.Close()
		return
	}
	logEv(oMisc, int64(in.proc), 20, int64(mode), 0, fmt.Sprintf("%s %s %s %s", c.LocalAddr(), c.RemoteAddr(), o.LocalAddr(), o.RemoteAddr()))
	x := &proxied{in: c, out: o, ri: bufio.NewReader(c), ro: bufio.NewReader(o)}
	world.fault("proxied-connection")
	if !in.proxyShake(x, mode, r) {
		// Keep what is left going for a while, so that a mistaken acceptance shows.
		time.Sleep(time.Duration(r.n64(2 * sec)))
		c.Close()
		o.Close()
		return
	}
	pump := func(dst net.Conn, src *bufio.Reader, r *rng) {
		buf := make([]byte, 1+r.n(4000))
		for {
			n, err := src.Read(buf)
			if n > 0 {
				if _, err := dst.Write(buf[:n]); err != nil {
					break
				}
			}
			if err != nil {
				break
			}
		}
		c.Close()
		o.Close()
	}
	go pump(o, x.ri, newRng(r.u64()))
	pump(c, x.ro, newRng(r.u64()))
}

// proxyShake deals with the handshake; false means that nothing is passed on.
func (in *inc) proxyShake(x *proxied, mode int, r *rng) bool {
	if mode == xRelay {
		return true
	}
	a := &rawPeer{in: in, c: x.in, rd: x.ri, r: r} // towards the dialer
	b := &rawPeer{in: in, c: x.out, rd: x.ro, r: r}
	// First step: both ends send theirs unasked.
	fa, err := rdFrame(x.ri)
	if err != nil || len(fa) != 96 {
		return false
	}
	fb, err := rdFrame(x.ro)
	if err != nil || len(fb) != 96 {
		return false
	}
	rec := &relayRec{sess: [2][]byte{fa, fb}}
	var old *relayRec
	for _, o := range relayRecs {
		if len(o.ovl[0]) > 0 && len(o.ovl[1]) > 0 && (old == nil || r.p(1, 2)) {
			old = o
		}
	}
	relayRecs = append(relayRecs, rec)
	ta, tb := fb, fa // what goes to each side
	own := func(q *rawPeer, f []byte) ([]byte, bool) {
		q.keys()
		var pk noise.PublicKey
		copy(pk[:], f)
		sh, err := noise.ECDH(q.sec, pk)
		if err != nil {
			return nil, false
		}
		q.setKey(sh)
		return q.sessFrame(), true
	}
	ok := true
	switch mode {
	case xOwn, xOwnCut:
		if ta, ok = own(a, fa); !ok {
			return false
		}
		if tb, ok = own(b, fb); !ok {
			return false
		}
	case xOwnOne:
		if r.p(1, 2) {
			if ta, ok = own(a, fa); !ok {
				return false
			}
		} else if tb, ok = own(b, fb); !ok {
			return false
		}
	case xLow:
		pk := lowKeys()[r.n(3)]
		sig := forge(pk, []byte(sessMsg))
		low := append(append([]byte{}, pk[:]...), sig[:]...)
		ta, tb = low, low
		a.setKey(make([]byte, 32))
		b.setKey(make([]byte, 32))
	case xFlip:
		if r.p(1, 2) {
			ta = append([]byte{}, ta...)
			ta[r.n(96)] ^= 1 << r.n(8)
		}
	case xReflectSess:
		ta, tb = fa, fb
	case xReplaySess:
		if old != nil {
			if r.p(1, 2) {
				ta = old.sess[1]
			} else {
				tb = old.sess[0]
			}
		} else {
			mode = xRelay // record one
		}
	case xCut:
		if r.p(1, 3) {
			ta = ta[:r.n(96)]
		}
	}
	if a.frame(ta) != nil || b.frame(tb) != nil {
		return false
	}
	if mode == xDupSess {
		if r.p(1, 2) {
			a.frame(ta)
		} else {
			b.frame(tb)
		}
	}
	// Second step.
	oa, err := rdFrame(x.ri)
	if err != nil {
		return false
	}
	ob, err := rdFrame(x.ro)
	if err != nil {
		return false
	}
	rec.ovl = [2][]byte{oa, ob}
	ta, tb = ob, oa
	switch mode {
	case xOwn, xLow, xOwnCut:
		pa, e1 := a.open(oa)
		pb, e2 := b.open(ob)
		if e1 != nil || e2 != nil {
			return false
		}
		if mode == xOwnCut {
			// The identity of the one end, signed by the proxy.
			if len(pb) < 50 || len(pa) < 50 {
				return false
			}
			sig := procPriv[in.proc].Sign(append(append([]byte{}, pb[:50]...), a.shared...))
			pb = append(append([]byte{}, pb[:50]...), sig[:]...)
			sig = procPriv[in.proc].Sign(append(append([]byte{}, pa[:50]...), b.shared...))
			pa = append(append([]byte{}, pa[:50]...), sig[:]...)
		}
		a.write(a.sealedFrame(pb))
		b.write(b.sealedFrame(pa))
		a.write(a.msg(0, payload(0, 4)))
		b.write(b.msg(0, payload(0, 4)))
		return false
	case xOwnOne, xReplaySess:
		a.frame(ta)
		b.frame(tb)
		return false
	case xCross:
		x.ovl = rec.ovl
		if len(crossWait) > 0 {
			y := crossWait[0]
			crossWait = crossWait[1:]
			x.other = y
			y.peer <- x
		} else {
			x.peer = make(chan *proxied, 1)
			crossWait = append(crossWait, x)
			select {
			case x.other = <-x.peer:
			case <-time.After(time.Duration(20 * sec)):
				for i := range crossWait {
					if crossWait[i] == x {
						crossWait = append(crossWait[:i:i], crossWait[i+1:]...)
						break
					}
				}
				return false
			}
		}
		k := r.n(3)
		if k != 1 {
			ta = x.other.ovl[1]
		}
		if k != 0 {
			tb = x.other.ovl[0]
		}
		a.frame(ta)
		b.frame(tb)
		// One of the two may be unharmed as far as it can see; tell it nothing more.
		return false
	case xFlip:
		f := frameOf(ta)
		f[4+r.n(len(f)-4)] ^= 1 << r.n(8)
		g := frameOf(tb)
		g[4+r.n(len(g)-4)] ^= 1 << r.n(8)
		a.write(f)
		b.write(g)
		return false
	case xSwapOvl:
		a.frame(oa)
		b.frame(ob)
		return false
	case xReplayOvl:
		if old == nil {
			break
		}
		a.frame(old.ovl[r.n(2)])
		b.frame(old.ovl[r.n(2)])
		return false
	case xCut:
		a.frame(ta[:r.n(len(ta))])
		b.frame(tb[:r.n(len(tb))])
		return false
	}
	a.frame(ta)
	b.frame(tb)
	return true
}

// addrKinds gives the nodes addresses of every kind.
func (g *genr) addrKinds() {
	r := g.r
	one := r.p(1, 3)
	for i := range g.p.Procs {
		pr := &g.p.Procs[i]
		if pr.Kind != "" {
			continue
		}
		pr.Host, pr.Bind, pr.Pub = i, 0, 0
		if one {
			pr.Host = 0
		}
		switch r.n(8) {
		case 7:
			pr.Pub, pr.Bind = 5+r.n(2), r.n(2)
		case 0:
			pr.Bind = 1
		case 1:
			pr.Pub = 1
		case 2:
			pr.Pub = 2
		case 3:
			pr.Pub, pr.Bind = 1+r.n(2), 1
		case 4:
			pr.Pub = 3
		case 5:
			pr.Pub = 4
		default:
			if one {
				break
			}
			pr.Bind = 1
		}
		if pr.Pub >= 3 {
			g.flt(Fault{K: "redir", S: fmt.Sprintf("%s>%s:%d", procAddr(g.p, i), hostIP(pr.Host), pr.Port), Keep: true})
		}
	}
}

func (g *genr) genN06() {
	r := g.r
	n := r.pick(2, 2, 3)
	g.nodes(n)
	g.addrKinds()
	g.calmNet()
	p := g.p
	for i := range p.Procs {
		p.Procs[i].MaxRecv = 1 << 16
		if r.p(1, 3) {
			p.Procs[i].IdleNs = r.pick64(sec, 3*sec)
		}
	}
	span := r.pick64(100*ms, 2*sec)
	at := func() int64 { return 200*ms + r.n64(span) }
	var targets []int
	for i := 0; i < n; i++ {
		targets = append(targets, i)
	}
	// hostile peers, dialled and dialling
	for k, m := 0, r.n(3); k < m; k++ {
		var bs []int
		for i, c := 0, 1+r.n(4); i < c; i++ {
			if r.p(1, 5) {
				bs = append(bs, r.pick(bOwnID, bPostServe))
			} else {
				bs = append(bs, g.failing())
			}
		}
		a := g.atk(uint16(7000+k), bs...)
		targets = append(targets, a, a)
		if r.p(2, 3) {
			var ops []Op
			for i, c := 0, 1+r.n(5); i < c; i++ {
				b := g.failing()
				if r.p(1, 6) {
					b = bPostServe
				}
				ops = append(ops, Op{K: "atk", ID: g.op(), To: r.n(n), N: b, Async: r.p(2, 3), Wait: g.wait()})
			}
			g.addThread(a, at(), ops...)
		}
	}
	// men in the middle
	if r.p(2, 3) {
		for v := 0; v < n; v++ {
			if r.p(1, 2) {
				continue
			}
			var bs []int
			for i, c := 0, 1+r.n(4); i < c; i++ {
				bs = append(bs, 1+r.n(xLast-1))
			}
			x := map[string]int64{"nb": int64(len(bs)), "to": int64(v)}
			for i, b := range bs {
				x[fmt.Sprint("b", i)] = int64(b)
			}
			h := g.newHost()
			p.Procs = append(p.Procs, Proc{Kind: "proxy", Host: h, Port: uint16(6000 + v), X: x})
			from := procAddr(p, v)
			for i := range p.Flt {
				if f := &p.Flt[i]; f.K == "redir" && strings.HasPrefix(f.S, from+">") {
					f.S = fmt.Sprintf("%s>%s:%d", from, hostIP(h), 6000+v)
					from = ""
					break
				}
			}
			if from != "" {
				g.flt(Fault{K: "redir", S: fmt.Sprintf("%s>%s:%d", from, hostIP(h), 6000+v), Keep: true})
			}
		}
	}
	nt := 2 + r.n(5)
	for t := 0; t < nt; t++ {
		pr := r.n(n)
		var ops []Op
		for k, m := 0, 1+r.n(6); k < m; k++ {
			to := targets[r.n(len(targets))]
			if to == pr && r.p(3, 4) {
				to = g.other2(pr, n)
			}
			var o Op
			switch r.n(5) {
			case 0, 1:
				o = Op{K: "ping", ID: g.op(), To: to}
			case 2:
				o = Op{K: "cclose", N: r.n(3)}
			default:
				o = Op{K: r2s(r.n(2), "send", "req"), ID: g.op(), To: to, Size: 4 + r.n(60), RSize: 4 + r.n(60), Ans: 1}
			}
			if o.K != "cclose" {
				o.TO = r.pick64(2*sec, 5*sec, 20*sec)
			}
			o.Wait = g.wait()
			ops = append(ops, o)
		}
		g.addThread(pr, at(), ops...)
	}
	for k, m := 0, r.n(3); k < m; k++ {
		t := at() + r.n64(2*sec)
		a := r.n(n)
		switch r.n(3) {
		case 0:
			g.flt(Fault{At: t, K: "kill", A: a})
			g.flt(Fault{At: t + 10*ms + r.n64(sec), K: "restart", A: a})
		case 1:
			g.flt(Fault{At: t, K: "rst", A: p.Procs[a].Host, B: p.Procs[r.n(len(p.Procs))].Host, M: r.n(3)})
		case 2:
			g.flt(Fault{At: t, K: "stall", A: a, Dur: r.pick64(50*ms, sec)})
		}
	}
	p.End = 300 * sec
}

// --- oracle ---

type link struct {
	far  *inc // who is really at the other end (nil: nobody that could be)
	mode int  // of the proxy in between (0: none)
	atk  int  // behaviour of a hostile peer (0: none)
}

// trueEnd finds out who is at the other end of a socket.
func (h *H) trueEnd(k *sock, pairs map[*tconn]*tconn, modes map[*tconn]int, atks map[*tconn]int) link {
	far := k.conn.a
	if k.side == 0 {
		far = k.conn.b
	}
	in := h.inc(far.grp)
	if in == nil {
		return link{}
	}
	switch in.pr.Kind {
	case "":
		return link{far: in}
	case "proxy":
		o := pairs[k.conn]
		if o == nil {
			return link{mode: -1}
		}
		q := o.a
		if h.inc(q.grp) == in {
			q = o.b
		}
		return link{far: h.inc(q.grp), mode: modes[k.conn]}
	}
	return link{far: in, atk: atks[k.conn]}
}

func (h *H) connByEnds(la, ra string, upto int) *tconn {
	var best *tconn
	for i := 0; i < upto; i++ {
		e := &h.ev[i]
		if e.K != nEstab {
			continue
		}
		c := h.s.conns[e.A]
		if c.a.la == la && c.a.ra == ra || c.b.la == la && c.b.ra == ra {
			best = c
		}
	}
	return best
}

// nodeText is what the node of a group said about itself before position i.
func (h *H) nodeText(grp int32, i int) string {
	for ; i >= 0; i-- {
		if e := &h.ev[i]; e.K == oMisc && e.B == 4 && e.Grp == grp {
			return e.S
		}
	}
	return ""
}

func sameID(a, b string) bool {
	x, y := strings.Split(a, "|"), strings.Split(b, "|")
	if len(x) != 4 || len(y) != 4 || x[0] != y[0] || x[1] != y[1] || x[3] != y[3] {
		return false
	}
	return x[2] == y[2] || unspec(x[2]) && unspec(y[2])
}

func unspec(s string) bool {
	if s == "<nil>" {
		return true
	}
	ip := net.ParseIP(s)
	return ip != nil && ip.IsUnspecified()
}

func (h *H) oracleN06() {
	pairs, modes, atks := map[*tconn]*tconn{}, map[*tconn]int{}, map[*tconn]int{}
	for i := range h.ev {
		e := &h.ev[i]
		if e.K != oMisc {
			continue
		}
		f := strings.Fields(e.S)
		switch e.B {
		case 20:
			a, b := h.connByEnds(f[0], f[1], i), h.connByEnds(f[2], f[3], i)
			if a == nil || b == nil {
				continue
			}
			pairs[a], pairs[b] = b, a
			modes[a], modes[b] = int(e.C), int(e.C)
		case 10:
			if c := h.connByEnds(f[1], f[2], i); c != nil {
				atks[c] = int(e.C)
			}
		case 4:
			// What a node says about itself must be where it can be reached.
			pr := &h.p.Procs[e.A]
			x := strings.Split(e.S, "|")
			want := procAddr(h.p, int(e.A))
			port := pr.Port
			if pr.Pub >= 5 {
				port -= pubOff
			}
			if x[0] != fmt.Sprint(e.A) || x[1] != want || x[3] != fmt.Sprint(port) {
				h.bad("own-identity", "process %d, reachable at %s, identifies itself as %s", e.A, want, e.S)
			}
		}
	}
	exact := func(c *client, what, txt string, at int) {
		l := h.trueEnd(c.sock, pairs, modes, atks)
		if l.far == nil {
			if l.mode != 0 || h.inc(c.grp) == nil {
				h.bad("accepted", "process %d %s %s at %s over a connection with nobody at the other end", c.proc, what, txt, h.at(at))
			}
			return
		}
		switch {
		case l.far.pr.Kind == "":
			want := h.nodeText(l.far.grp, at)
			if want == "" {
				h.probe("peer not up yet")
				return
			}
			if !sameID(txt, want) {
				h.bad("identity", "process %d %s %s at %s, but the other end is %s (proxy mode %d)", c.proc, what, txt, h.at(at), want, l.mode)
			}
			if l.mode > 0 {
				h.probe("identity through a relay judged")
			} else {
				h.probe("identity of a node judged")
			}
		default:
			want := fmt.Sprintf("%d|%s:%d|%s|%d", l.far.proc, hostIP(l.far.pr.Host), l.far.pr.Port, hostIP(l.far.pr.Host), l.far.pr.Port)
			if !sameID(txt, want) {
				h.bad("identity", "process %d %s %s at %s, but the other end is the hostile peer %s (behaviour %d)", c.proc, what, txt, h.at(at), want, l.atk)
			}
			h.probe("identity of a hostile peer judged")
		}
	}
	for _, c := range h.cls {
		if c.sock == nil || c.connAt < 0 {
			continue
		}
		l := h.trueEnd(c.sock, pairs, modes, atks)
		if l.mode > 0 && modifying(l.mode) && !h.relayed(l.mode) || l.atk > 0 && l.atk < bOwnID {
			h.bad("accepted", "process %d accepted %s at %s, over a connection on which nobody proved that identity (hostile behaviour %d, proxy mode %d)", c.proc, c.id, h.at(c.connAt), l.atk, l.mode)
		}
		exact(c, "reported a connection with", c.id, c.connAt)
	}
	for _, x := range h.hand {
		c := h.tagBy[x.tag]
		if c == nil || c.connAt > x.seq {
			h.bad("early-message", "a handler of process %d ran at %s for a peer that had not been accepted", x.proc, h.at(x.seq))
			continue
		}
		if x.sender != c.peer || x.addr != strings.Split(c.id, "|")[1] {
			h.bad("identity", "a handler of process %d was told %d|%s, but the connection is with %s", x.proc, x.sender, x.addr, c.id)
		}
	}
	for _, c := range h.calls {
		if c.op == nil || !c.done || c.status != 0 || c.kind != "send" && c.kind != "req" && c.kind != "ping" {
			continue
		}
		if c.kind == "ping" {
			x := h.clBy[c.aux]
			if x == nil || x.connAt < 0 || x.connAt > c.es {
				h.bad("early-client", "ping op%d of process %d returned a client that had not been accepted", c.op.ID, c.proc)
				continue
			}
			if x.sock != nil {
				exact(x, "got from Ping", c.txt, c.es)
			}
		}
		// Somebody must have been accepted.
		ok := false
		for _, x := range h.cls {
			if x.grp == c.grp && x.connAt >= 0 && x.connAt < c.es && (x.sock == nil || x.sock.side == 0) {
				ok = true
			}
		}
		if !ok {
			h.bad("early-client", "%s op%d of process %d succeeded before any connection was accepted", c.kind, c.op.ID, c.proc)
		}
		h.probe("successful call judged")
	}
}

// relayed: in this mode a proxy may, without something recorded before, pass
// the handshake on unchanged.
func (h *H) relayed(mode int) bool {
	return mode == xReplayOvl || mode == xReplaySess || mode == xCross || mode == xDupSess
}
