package main

import (
	"fmt"
	"strings"
)

// kadNode0 adds a node that speaks Kademlia, alone on its host.
func (g *genr) kadProc(gossip bool) int {
	r := g.r
	i := len(g.p.Procs)
	g.p.Procs = append(g.p.Procs, Proc{Host: g.newHost(), Port: g.port(i), Pub: 1, Bind: r.n(2), Kad: true, Gossip: gossip,
		MaxDial: uint(r.pick(1, 2, 3)), Workers: uint(r.pick(1, 2, 4)), NProto: 1, IdleNs: r.pick64(-1, 0, 30*sec)})
	return i
}

// kp adds a harness peer that speaks Kademlia.
func (g *genr) kp(x map[string]int64) int {
	i := len(g.p.Procs)
	g.p.Procs = append(g.p.Procs, Proc{Kind: "kp", Host: g.newHost(), Port: g.port(i), X: x})
	return i
}

// gentle keeps injected delays far below the timeouts in use.
func (g *genr) gentle() {
	g.calmNet()
	if g.p.Sched.StallMax > 15*ms {
		g.p.Sched.StallMax = 15 * ms
	}
	if g.p.Net.SndBuf < 16384 {
		g.p.Net.SndBuf = 16384
	}
	if g.p.Net.RcvBuf < 16384 {
		g.p.Net.RcvBuf = 16384
	}
}

func (g *genr) genK02() {
	if g.r.p(1, 4) {
		g.genK02nodes()
		return
	}
	if g.r.p(1, 5) {
		g.genK02oneway()
		return
	}
	r := g.r
	p := g.p
	p.Scen = "bucket"
	g.gentle()
	v := g.kadProc(false)
	ping := r.pick64(0, 2*sec, 2*sec, 5*sec)
	p.Procs[v].KadPing = ping
	if ping == 0 {
		ping = 3 * sec
	}
	p.Procs[v].IdleNs = r.pick64(-1, -1, 30*sec)
	m := 15 + r.n(11)
	b := r.n(3)
	for k := 0; k < m; k++ {
		x := map[string]int64{"pfx": int64(1 + b)}
		if r.p(1, 8) {
			x["pfx"] = int64(1 + r.n(3))
		}
		g.kp(x)
	}
	meet := r.pick64(500*ms, 5*sec, 10*sec)
	for k := 1; k <= m; k++ {
		at := 200*ms + r.n64(meet)
		switch r.n(6) {
		case 0, 1, 2:
			g.addThread(k, at, Op{K: "kdial", ID: g.op(), To: v})
		case 3, 4:
			g.addThread(v, at, Op{K: "kping", ID: g.op(), To: k, TO: 20 * sec})
		}
	}
	// Some make way for others, with identities of their own, at their
	// addresses.
	old := m
	gone := map[int]bool{}
	for k, q := 0, r.pick(0, 0, 1, 3); k < q; k++ {
		i := 1 + r.n(old)
		if gone[i] {
			continue
		}
		gone[i] = true
		at := 11*sec + r.n64(60*sec)
		g.flt(Fault{At: at, K: "kill", A: i, Keep: true})
		y := p.Procs[i]
		y.X = map[string]int64{"pfx": y.X["pfx"]}
		y.Start = at + sec + r.n64(20*sec)
		p.Procs = append(p.Procs, y)
		m++
		if r.p(1, 2) {
			g.addThread(m, y.Start+r.n64(20*sec), Op{K: "kdial", ID: g.op(), To: v})
		}
	}
	// Failures.
	span := r.pick64(sec, 20*sec, 100*sec)
	for k, f := 0, r.pick(0, 1, 2, 4, 8, 17); k < f; k++ {
		i := 1 + r.n(old)
		x := p.Procs[i].X
		if x["mode"] != 0 || gone[i] {
			continue
		}
		at := 12*sec + r.n64(span)
		switch r.n(6) {
		case 0:
			g.flt(Fault{At: at, K: "kill", A: i})
			if r.p(1, 2) {
				g.flt(Fault{At: at + sec + r.n64(60*sec), K: "restart", A: i})
			}
		case 1:
			g.flt(Fault{At: at, K: "power", A: p.Procs[i].Host})
			if r.p(1, 2) {
				g.flt(Fault{At: at + sec + r.n64(60*sec), K: "restart", A: i})
			}
		case 2:
			x["mode"], x["delay"], x["from"] = kaSlow, ping/20+r.n64(ping/3), 0
		default:
			x["mode"], x["from"] = int64(r.pick(kaSilent, kaSilent, kaClose, kaGarbage, kaOther, kaTrunc, kaEmpty, kaSlow)), at
			x["delay"] = ping + ping/4 + r.n64(4*ping)
			if r.p(1, 3) {
				x["until"] = at + r.n64(100*sec)
			}
		}
	}
	// Traffic meanwhile.
	for k, q := 0, r.n(30); k < q; k++ {
		i := 1 + r.n(m)
		at := 10*sec + r.n64(span+20*sec)
		switch r.n(5) {
		case 0:
			ops := []Op{{K: "kping", ID: g.op(), To: i, TO: 30 * sec}}
			if p.Procs[v].IdleNs < 0 && r.p(1, 3) { // calls that end before they began, to a peer that is connected
				for k, m := 0, 1+r.n(3); k < m; k++ {
					ops = append(ops, Op{K: r2s(r.n(3), "kping", "send", "ping"), ID: g.op(), To: i, TO: -1, Size: 20, RSize: 4})
				}
			}
			g.addThread(v, at, ops...)
		case 1:
			g.addThread(v, at, Op{K: r2s(r.n(2), "discover", "find"), ID: g.op(), S: fmt.Sprint("p", i), Delay: 3 * sec})
		default:
			g.addThread(i, at, Op{K: "kreq", ID: g.op(), To: v, N: 1 + r.n(5), Delay: r.n64(sec)})
		}
	}
	if r.p(1, 3) {
		g.addThread(v, 200*ms+r.n64(100*sec), Op{K: "kping", ID: g.op(), To: v, TO: r.pick64(-1, 1+r.n64(100e3), 1+r.n64(10*ms), 20*sec)})
	}
	for k, q := 0, r.n(4); k < q; k++ {
		g.addThread(v, r.n64(200*sec), Op{K: "ktab", N: k})
	}
	// Everyone who is up makes itself known.
	for k := 1; k <= m; k++ {
		if x := p.Procs[k].X; x["mode"] != 0 && x["until"] == 0 && x["from"] != 0 {
			continue
		}
		g.addThread(k, 300*sec+r.n64(5*sec), Op{K: "kreq", ID: g.op(), To: v, N: 40, Delay: r.n64(500 * ms)})
	}
	p.X["phase"] = 300 * sec
	p.End = 1500 * sec
}

// genK02oneway: the application takes peers from the table; messages that
// nobody answers bring them back.
func (g *genr) genK02oneway() {
	r := g.r
	p := g.p
	p.Scen = "oneway"
	g.gentle()
	v := g.kadProc(false)
	p.Procs[v].IdleNs = -1
	p.Procs[v].KadPing = r.pick64(0, 2*sec)
	m := 1 + r.n(12)
	for k := 1; k <= m; k++ {
		x := map[string]int64{}
		if r.p(1, 4) { // it need not answer
			x["mode"] = kaSilent
		}
		g.kp(x)
		in := r.p(1, 2)
		at := 200*ms + r.n64(5*sec)
		if in {
			g.addThread(k, at, Op{K: "kdial", ID: g.op(), To: v})
		} else {
			g.addThread(v, at, Op{K: "ping", ID: g.op(), To: k, TO: 20 * sec})
		}
		at = 20 * sec
		for q := 1 + r.n(3); q > 0; q-- {
			at += r.n64(20 * sec)
			g.addThread(v, at, Op{K: "kdel", ID: g.op(), To: k})
			if q == 1 || r.p(1, 2) {
				d := 2*sec + r.n64(5*sec)
				if in && r.p(2, 3) {
					g.addThread(k, at+d, Op{K: "ktell", ID: g.op(), N: 1 + r.n(3)})
				} else {
					g.addThread(v, at+d, Op{K: "send", ID: g.op(), To: k, Size: 4 + r.n(100), TO: 20 * sec})
				}
			}
			at += 10 * sec
		}
	}
	p.End = 300 * sec
}

func (g *genr) genK02nodes() {
	r := g.r
	p := g.p
	p.Scen = "nodes"
	g.gentle()
	n := 3 + r.n(3)
	for i := 0; i < n; i++ {
		g.kadProc(r.p(1, 3))
		p.Procs[i].KadPing = r.pick64(0, 2*sec)
		p.Procs[i].IdleNs = -1
	}
	span := r.pick64(sec, 20*sec)
	for t, q := 0, 2+r.n(6); t < q; t++ {
		pr := r.n(n)
		var ops []Op
		for k, m := 0, 1+r.n(5); k < m; k++ {
			o := Op{K: "kping", ID: g.op(), To: r.n(n), TO: 20 * sec}
			if r.p(1, 3) {
				o = Op{K: "discover", ID: o.ID}
			}
			o.Wait = r.pick64(0, r.n64(sec), r.n64(10*sec))
			ops = append(ops, o)
		}
		g.addThread(pr, 200*ms+r.n64(span), ops...)
	}
	for k, f := 0, r.n(4); k < f; k++ {
		i := r.n(n)
		at := 2*sec + r.n64(span*2)
		g.flt(Fault{At: at, K: "kill", A: i})
		if r.p(1, 2) {
			g.flt(Fault{At: at + sec + r.n64(20*sec), K: "restart", A: i})
		}
	}
	p.End = 600 * sec
}

// soundUntil is how long a peer answers every ping in time.
func (h *H) soundUntil(i int) int64 {
	p := h.p
	pr := &p.Procs[i]
	t := int64(1) << 62
	low := func(x int64) {
		if x < t {
			t = x
		}
	}
	if pr.X["mode"] != 0 && (int(pr.X["mode"]) != kaSlow || pr.X["from"] != 0) {
		low(pr.X["from"])
	}
	for _, f := range p.Flt {
		switch f.K {
		case "kill":
			if f.A == i {
				low(f.At)
			}
		case "power":
			if f.A == pr.Host {
				low(f.At)
			}
		default:
			if f.K != "restart" {
				low(f.At)
			}
		}
	}
	return t
}

// up: the peer is there and answers at the end.
func (h *H) soundAtEnd(i int) bool {
	up := true
	for _, f := range h.p.Flt {
		switch {
		case f.K == "kill" && f.A == i, f.K == "power" && f.A == h.p.Procs[i].Host:
			up = false
		case f.K == "restart" && f.A == i:
			up = true
		}
	}
	x := h.p.Procs[i].X
	return up && (x["mode"] == 0 || x["until"] != 0 || int(x["mode"]) == kaSlow && x["from"] == 0)
}

type kadHist struct {
	adm, ev, act map[string]int
	final        map[string]int
	order        []string
	n, count     int64
	listed       bool
}

func (h *H) kadOf(grp int32) *kadHist {
	k := &kadHist{adm: map[string]int{}, ev: map[string]int{}, act: map[string]int{}, final: map[string]int{}}
	for i := range h.ev {
		e := &h.ev[i]
		if e.Grp != grp {
			continue
		}
		switch e.K {
		case kAdm:
			k.adm[e.S]++
		case kEv:
			k.ev[e.S]++
		case kAct:
			k.act[e.S]++
		case kTab:
			if e.B == 1000 {
				if e.C == -2 {
					k.n, k.listed = e.D, true
				} else {
					k.final[e.S]++
					k.order = append(k.order, e.S)
					k.count++
				}
			}
		}
	}
	return k
}

func (h *H) oracleK02() {
	p := h.p
	for _, in := range h.incs() {
		if !in.pr.Kad {
			continue
		}
		k := h.kadOf(in.grp)
		self := h.nodeText(in.grp, len(h.ev)-1)
		me := fmt.Sprint("process ", in.proc)
		ids := map[string]bool{}
		for _, m := range []map[string]int{k.adm, k.ev, k.act, k.final} {
			for id := range m {
				ids[id] = true
			}
		}
		for id := range ids {
			a, e := k.adm[id], k.ev[id]
			if id == self {
				if a > 0 || e > 0 {
					h.bad("self", "%s reported itself admitted %d and evicted %d times", me, a, e)
				}
				continue
			}
			if e > a {
				h.bad("evicted-unknown", "%s reported %s evicted %d times, admitted %d times", me, id, e, a)
			}
			if a > e+1 && p.Scen != "oneway" {
				h.bad("admitted-twice", "%s reported %s admitted %d times, evicted %d times", me, id, a, e)
			}
			if k.act[id] > 0 && a == 0 {
				h.bad("activity-unknown", "%s reported activity of %s, which it never admitted", me, id)
			}
			if k.listed && p.Scen != "oneway" {
				if got := k.final[id]; got != a-e && a-e >= 0 && a-e <= 1 {
					h.bad("conservation", "%s records %s %d times, having admitted it %d and evicted it %d times", me, id, got, a, e)
				}
			}
			h.probe("identity conserved")
		}
		if k.listed {
			if k.final[self] != 1 {
				h.bad("self", "%s records itself %d times", me, k.final[self])
			}
			if k.n != k.count {
				h.bad("count", "%s counts %d entries and lists %d", me, k.n, k.count)
			}
			per := map[int]int{}
			for _, id := range k.order {
				if q := h.procOfText(id); q >= 0 {
					per[prefixLen(procPub[in.proc], procPub[q])]++
				}
			}
			for b, c := range per {
				if c > 16 {
					h.bad("bucket-size", "%s has %d entries in bucket %d", me, c, b)
				}
			}
		}
		// Nobody who answers is evicted.
		for i := range h.ev {
			e := &h.ev[i]
			if e.K != kEv || e.Grp != in.grp || e.C < 0 {
				continue
			}
			q := int(e.C)
			if q == in.proc || e.T-startTime >= h.soundUntil(q) {
				continue
			}
			if in.pr.IdleNs >= 0 && h.lostConn(in.grp, q, i, in.pr.KadPing) {
				continue
			}
			if p.Procs[q].Start > 0 && h.undialled(in.grp, q, i) {
				continue // just as it took the address over
			}
			h.bad("evicted-sound", "%s evicted process %d at %s, which answers until %.3fs", me, q, h.at(i), float64(h.soundUntil(q))/1e9)
		}
		h.probe("table judged")
		if k.listed && in.alive {
			h.stillThere(in.grp, k, self)
		}
		if p.Scen == "oneway" && k.listed {
			// The last thing that happened to a peer is a message.
			has := map[int]bool{}
			for _, id := range k.order {
				has[h.procOfText(id)] = true
			}
			for q := range p.Procs {
				told := false
				for _, c := range h.calls {
					if c.kind == "kdel" && c.to == int64(q) {
						told = false
					}
					if (c.kind == "ktell" && c.proc == q || c.kind == "send" && c.op.To == q) && c.done && c.status == 0 {
						told = true
					}
				}
				if !told {
					continue
				}
				h.probe("one-way traffic judged")
				if !has[q] {
					h.bad("not-admitted", "%s does not record process %d, the last thing between them being a message nobody answers", me, q)
				}
			}
		}
		if p.Scen != "bucket" || !k.listed || !in.alive {
			continue
		}
		// Everyone who answers is admitted, unless its bucket is full of
		// peers that answer.
		for _, c := range h.calls {
			if c.kind != "kreq" || !c.done || c.bt < startTime+p.x("phase") || c.aux < 20 {
				continue
			}
			q := c.proc
			if !h.soundAtEnd(q) {
				continue
			}
			h.probe("candidate judged")
			rec := false
			var bucket []int
			for _, id := range k.order {
				o := h.procOfText(id)
				if o == q {
					rec = true
				}
				if o >= 0 && o != in.proc && prefixLen(procPub[in.proc], procPub[o]) == prefixLen(procPub[in.proc], procPub[q]) {
					bucket = append(bucket, o)
				}
			}
			if rec {
				continue
			}
			if len(bucket) < 16 {
				h.bad("not-admitted", "%s does not record process %d, which made %d requests, although its bucket holds %d entries", me, q, c.aux, len(bucket))
				continue
			}
			for _, o := range bucket {
				// Late answers are traffic, and may have brought it back.
				if !h.soundAtEnd(o) && int(p.Procs[o].X["mode"]) != kaSlow {
					h.bad("kept-dead", "%s still records process %d, which stopped answering long ago, in the full bucket of process %d, which made %d requests", me, o, q, c.aux)
				}
			}
			h.probe("refusal judged")
		}
	}
}

func (h *H) procOfText(id string) int {
	n := -1
	fmt.Sscanf(id[:strings.IndexByte(id, '|')], "%d", &n)
	return n
}

// undialled: the process of grp failed to dial the address of process q
// shortly before position i.
func (h *H) undialled(grp int32, q, i int) bool {
	for j := i; j >= 0 && h.ev[j].T > h.ev[i].T-sec; j-- {
		if e := &h.ev[j]; e.K == ePing && e.Grp == grp && e.S == procAddr(h.p, q) {
			return true
		}
	}
	return false
}

// stillThere: the table that is k no longer has those that could not be
// dialled and were not heard of since.
func (h *H) stillThere(grp int32, k *kadHist, self string) {
	last := map[string]int{}    // address: last failure to dial
	heard := map[string]int64{} // address: last sign of life
	for i := range h.ev {
		e := &h.ev[i]
		if e.Grp != grp {
			continue
		}
		switch e.K {
		case ePing:
			last[e.S] = i
		case kAdm, kAct:
			heard[idAddr(e.S)] = e.T
		}
	}
	for id := range k.final {
		a := idAddr(id)
		i, failed := last[a]
		if id == self || !failed {
			continue
		}
		h.probe("undialled peer judged")
		if t, ok := heard[a]; ok && t >= h.ev[i].T-sec {
			continue
		}
		h.bad("kept-undialled", "process of group %d still records %s, which it failed to dial at %s and has not heard of since", grp, id, h.at(i))
	}
}

// idAddr is the address in the text of an identity.
func idAddr(id string) string {
	f := strings.Split(id, "|")
	if len(f) < 2 {
		return ""
	}
	return f[1]
}

// lostConn: a connection between the process of grp and process q ended
// shortly before position i.
func (h *H) lostConn(grp int32, q, i int, ping int64) bool {
	if ping == 0 {
		ping = 3 * sec
	}
	for _, c := range h.cls {
		if c.grp == grp && c.peer == q && c.discAt >= 0 && c.discT <= h.ev[i].T+sec && c.discT >= h.ev[i].T-ping-10*sec {
			return true
		}
	}
	return false
}
