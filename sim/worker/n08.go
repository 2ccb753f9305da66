package main

import "strings"

// frameOver is what a frame holds besides the payload: nonce, tag, and the
// number of the request.
const frameOver = 12 + 16 + 8

func (g *genr) genN08() {
	r := g.r
	p := g.p
	kad := r.p(1, 4)
	n := r.pick(2, 2, 3)
	g.nodes(n)
	g.calmNet()
	max := r.pick64(0, 200, 200+r.n64(200), 4096, 4096+r.n64(100), 65536, -1)
	if kad && max > 0 && max < 4096 {
		max = 4096 // answers to lookups must fit
	}
	idle := r.pick64(-1, 30*sec, 3*sec)
	p.X["strict"] = 0
	if idle < 0 {
		p.X["strict"] = 1
	}
	for i := range p.Procs {
		pr := &p.Procs[i]
		pr.MaxRecv, pr.IdleNs = max, idle
		if kad {
			pr.Kad, pr.Gossip, pr.NHand, pr.KadPing = true, r.p(2, 3), 0, 2*sec
			pr.Host, pr.Pub, pr.Bind = i, 1, 1
		}
	}
	if max == 0 || max < 0 {
		p.Net.SndBuf, p.Net.RcvBuf = 1<<20, 1<<20
		p.Net.SegMode = r.pick(0, 1)
	}
	lim := func(k int) int {
		if max > 0 && k > int(max)-frameOver-2 {
			k = int(max) - frameOver - 2 - r.n(3)
		}
		if k > 100000 {
			k = 100000
		}
		return k
	}
	span := r.pick64(50*ms, sec, 4*sec)
	// Hostile peers.
	beh := func() int {
		for {
			b := 1 + r.n(bLast-1)
			if r.p(3, 5) {
				b = bOwnID + 1 + r.n(bPostLast-bOwnID-1)
			}
			return b
		}
	}
	var evil []int
	for k, m := 0, 1+r.n(4); k < m; k++ {
		if kad && r.p(2, 3) {
			x := map[string]int64{"mode": int64(r.n(kaLast)), "know": int64(r.n(11)), "fake": int64(r.pick(0, 0, 3, 40, 255)), "dup": int64(r.n(2)), "delay": r.n64(10 * sec)}
			p.Procs = append(p.Procs, Proc{Kind: "kp", Host: g.newHost(), Port: uint16(9100 + k), X: x})
			e := len(p.Procs) - 1
			evil = append(evil, e)
			for j, q := 0, 1+r.n(3); j < q; j++ {
				o := Op{K: r2s(r.n(3), "kraw", "kraw", "kdial"), ID: g.op(), To: r.n(n), N: 1 + r.n(40)}
				if r.p(1, 6) {
					o = Op{K: "kgossip", ID: g.op(), To: r.n(n), N: int(g.op()), Size: lim(g.size()), Ans: 1 + r.n(5), Delay: r.n64(sec)}
					g.addThread(e, 0, Op{K: "sleep", ID: uint32(o.N), Size: o.Size})
				}
				g.addThread(e, 200*ms+r.n64(span*2), o)
			}
			continue
		}
		e := g.atk(uint16(9100+k), beh(), beh(), beh())
		evil = append(evil, e)
		o := Op{K: "sleep", ID: g.op(), To: r.n(n), Size: lim(4 + r.n(60)), RSize: lim(4 + r.n(20000)), Ans: 1}
		p.Procs[e].X["op"] = int64(o.ID)
		g.addThread(e, 0, o)
		for j, q := 0, r.n(5); j < q; j++ {
			g.addThread(e, 200*ms+r.n64(span*2), Op{K: "atk", ID: g.op(), To: r.n(n), N: beh(), Async: true})
		}
	}
	// Honest traffic.
	for t, nt := 0, 1+r.n(5); t < nt; t++ {
		pr := r.n(n)
		to := g.other2(pr, n)
		var ops []Op
		for k, m := 0, 1+r.n(8); k < m; k++ {
			var o Op
			switch {
			case kad && r.p(1, 4):
				o = Op{K: "discover", ID: g.op()}
			case kad && r.p(1, 3):
				o = Op{K: "find", ID: g.op(), S: "p" + string(rune('0'+r.n(n))), Delay: 3 * sec}
			case kad && p.Procs[pr].Gossip && r.p(1, 2):
				o = Op{K: "push", ID: g.op(), TO: 20 * sec, Size: lim(g.size())}
				o.N = int(o.ID)
			case kad:
				o = Op{K: "kping", ID: g.op(), To: to}
			default:
				o = g.traffic(to)
				o.Size, o.RSize = lim(o.Size), lim(o.RSize)
			}
			if r.p(1, 4) && o.K != "discover" && o.K != "find" && o.K != "push" {
				o.To = evil[r.n(len(evil))]
				o.TO = r.pick64(sec, 5*sec, 20*sec)
			}
			o.Wait = g.wait()
			ops = append(ops, o)
		}
		g.addThread(pr, 200*ms+r.n64(span), ops...)
	}
	// The limit itself, on a connection of its own.
	if !kad {
		p.Procs = append(p.Procs, Proc{Host: p.Procs[0].Host, Port: 9500, Pub: 1, MaxRecv: max, IdleNs: idle, NHand: 1, Workers: 1})
		e := len(p.Procs) - 1
		m := int(max)
		if max == 0 {
			m = 4 << 20
		}
		at := r.n64(20 * sec)
		if max < 0 {
			big := Op{K: "send", ID: g.op(), To: 0, Size: 4<<20 + 1 + r.n(5000)}
			p.X["exact"] = int64(big.ID)
			g.addThread(e, 200*ms+at, big)
		} else {
			x := Op{K: r2s(r.n(2), "send", "req"), ID: g.op(), To: 0, Size: m - frameOver, Ans: 1, RSize: 4 + r.n(60), TO: 60 * sec}
			y := Op{K: "send", ID: g.op(), To: 0, Size: m - frameOver + r.pick(1, 1, 2, 3+r.n(50)), TO: 60 * sec, Wait: r.pick64(0, sec)}
			z := Op{K: "send", ID: g.op(), To: 0, Size: m - frameOver, TO: 60 * sec, Wait: 40 * sec}
			p.X["exact"], p.X["over"], p.X["again"] = int64(x.ID), int64(y.ID), int64(z.ID)
			g.addThread(e, 200*ms+at, x, y, z)
		}
		p.X["lim"] = int64(e)
	}
	// Service afterwards.
	for a := 0; a < n; a++ {
		for b := 0; b < n; b++ {
			if a == b {
				continue
			}
			var ops []Op
			for k := 0; k < 3; k++ {
				o := Op{K: "req", ID: g.op(), To: b, Size: 4 + r.n(100), RSize: 4 + r.n(100), Ans: 1, TO: 60 * sec, Wait: 10 * sec}
				if kad {
					o = Op{K: "kping", ID: o.ID, To: b, TO: 60 * sec, Wait: 10 * sec}
				}
				ops = append(ops, o)
			}
			g.addThread(a, 300*sec, ops...)
		}
	}
	if kad {
		p.X["kad"] = 1
	}
	p.End = 900 * sec
}

func (h *H) oracleN08() {
	p := h.p
	evil := func(i int) bool { return p.Procs[i].Kind != "" }
	// Service to honest peers, afterwards.
	type pair struct{ a, b int }
	last := map[pair]*call{}
	for _, c := range h.calls {
		if c.op == nil || evil(c.proc) || c.kind == "find" || c.kind == "discover" || c.kind == "push" {
			continue
		}
		if c.bt >= startTime+300*sec && !evil(c.op.To) {
			last[pair{c.proc, c.op.To}] = c
			continue
		}
		if c.op.TO == 0 && !evil(c.op.To) && p.x("strict") == 1 && !h.notUp(c) {
			if !c.done {
				h.bad("bystander-hung", "%s op%d from %d to %d never returned", c.kind, c.op.ID, c.proc, c.op.To)
			} else if c.status != 0 {
				h.bad("bystander-failed", "%s op%d from %d to %d failed: %s", c.kind, c.op.ID, c.proc, c.op.To, c.txt)
			}
			h.probe("bystander judged")
		}
	}
	for _, c := range h.calls {
		if c.kind == "find" || c.kind == "discover" || c.kind == "push" {
			if !c.done {
				h.bad("stuck", "%s of process %d never returned", c.kind, c.proc)
			}
		}
	}
	for k, c := range last {
		if !c.done || c.status != 0 {
			h.bad("no-service", "long after, %s op%d from %d to %d: done %v, %s", c.kind, c.op.ID, k.a, k.b, c.done, c.txt)
		}
		h.probe("pair probed")
	}
	if p.x("strict") == 1 {
		for _, c := range h.cls {
			if c.discAt >= 0 && c.peer >= 0 && !evil(c.peer) && c.proc != c.peer && int64(c.proc) != p.x("lim") && int64(c.peer) != p.x("lim") && h.honestEnd(c) {
				a := c.sock.conn.a
				o := h.sockCl[a.id]
				if o == nil || o.discAt < 0 || !h.used(o, h.closeAt[a.id]) {
					continue
				}
				h.bad("bystander-closed", "the connection between %d and %d was closed at %s: %s", c.proc, c.peer, h.at(c.discAt), c.derr)
			}
		}
	}
	// Lookups dial many addresses, each at the price of a buffer of the limit.
	if p.x("kad") == 0 && (p.Procs[0].MaxRecv < 0 || p.Procs[0].MaxRecv > 0 && p.Procs[0].MaxRecv <= 65536) {
		if h.mem > 1<<30 {
			h.bad("memory", "%d MB were allocated in the course of the execution, on %d connections", h.mem>>20, len(h.s.conns))
		}
		h.probe("memory judged")
	}
	// The limit.
	if x := p.x("exact"); x != 0 {
		for _, id := range []int64{x, p.x("again")} {
			if id == 0 {
				continue
			}
			c := h.opCall[uint32(id)]
			if c == nil || h.notUp(c) {
				continue
			}
			switch {
			case !c.done || c.status != 0:
				h.bad("exact-refused", "%s of exactly the maximum (%d bytes of payload) failed: done %v, %s", c.kind, c.op.Size, c.done, c.txt)
			case len(h.handBy[id]) == 0:
				h.bad("exact-refused", "a message of exactly the maximum (%d bytes of payload) was never handled", c.op.Size)
			}
			h.probe("message at the limit judged")
		}
	}
	if y := p.x("over"); y != 0 {
		if len(h.handBy[y]) > 0 {
			h.bad("over-accepted", "a message larger than the maximum was handled")
		}
		if c := h.opCall[uint32(y)]; c != nil && !h.notUp(c) && c.status == 0 {
			found := false
			for _, cl := range h.cls {
				if cl.proc == 0 && int64(cl.peer) == p.x("lim") && strings.Contains(cl.derr, tooLarge) {
					found = true
				}
			}
			if !found {
				h.bad("over-error", "no connection to process 0 ended with the too-large error although a message over the limit was sent")
			}
			h.probe("message over the limit judged")
		}
	}
	for i := range h.ev {
		e := &h.ev[i]
		if e.K != oMisc || e.B < 11 || e.B > 13 || !strings.Contains(e.S, " ") {
			continue
		}
		f := strings.Fields(e.S)
		c := h.connByEnds(f[len(f)-2], f[len(f)-1], i)
		if c == nil {
			continue
		}
		k := c.b
		if c.b.grp == e.Grp {
			k = c.a
		}
		cl := h.sockCl[k.id]
		if cl == nil {
			continue
		}
		at, closed := h.closeAt[k.id]
		switch e.B {
		case 11:
			if p.Procs[0].MaxRecv < 0 || closed && at < i {
				continue
			}
			h.probe("oversized header judged")
			if !closed {
				h.bad("over-kept", "process %d kept a connection on which a frame over the limit was announced", cl.proc)
			} else if !strings.Contains(cl.derr, tooLarge) && !(strings.Contains(cl.derr, "i/o timeout") && h.ev[at].T-e.T < sec+h.stall) && !(strings.Contains(cl.derr, "use of closed network connection") && (h.ev[at].C != 0 || h.ev[at].T-e.T < sec)) {
				// A connection the node itself gave up may be closed before the frame is read.
				h.bad("over-error", "process %d dropped a connection on which a frame over the limit was announced with %q", cl.proc, cl.derr)
			}
		case 13:
			if closed && h.ev[at].T < e.T+5*sec+h.stall && !strings.Contains(cl.derr, tooLarge) {
				continue
			}
			h.probe("message at the limit judged")
			if cl.recv[0] == 0 {
				h.bad("exact-refused", "process %d did not take in a message of exactly the maximum from a peer: %s", cl.proc, cl.derr)
			}
		}
	}
}

// honestEnd: both ends of the client's connection are library nodes.
func (h *H) honestEnd(c *client) bool {
	if c.sock == nil {
		return false
	}
	a, b := h.inc(c.sock.conn.a.grp), h.inc(c.sock.conn.b.grp)
	return a != nil && b != nil && a.pr.Kind == "" && b.pr.Kind == ""
}
