package main

import "fmt"

// overlay adds n nodes that gossip and joins them by pings into a random
// graph before 10 s.
func (g *genr) overlay(n int) { g.overlayOf(n, g.r.n(5)) }

func (g *genr) overlayOf(n, shape int) {
	r := g.r
	first := len(g.p.Procs)
	for i := 0; i < n; i++ {
		k := g.kadProc(true)
		g.p.Procs[k].IdleNs = -1
	}
	extra := r.pick(0, 0, 1, n)
	for i := 1; i < n+extra; i++ {
		a, b := i, 0
		switch {
		case i >= n:
			a, b = r.n(n), r.n(n)
		case shape == 0:
			b = i - 1
		case shape == 1:
		case shape == 2 && r.p(1, 6):
			continue
		default:
			b = r.n(i)
		}
		if r.p(1, 2) {
			a, b = b, a
		}
		g.addThread(first+a, 200*ms+r.n64(8*sec), Op{K: "kping", ID: g.op(), To: first + b, TO: 10 * sec})
	}
	if r.p(1, 4) {
		for i := 0; i < n; i++ {
			if r.p(1, 2) {
				g.addThread(first+i, 12*sec+r.n64(sec), Op{K: "discover", ID: g.op()})
			}
		}
	}
}

// base is a payload: an operation number that names it, and its size.
func (g *genr) base(big int) Op {
	r := g.r
	sz := r.pick(0, 1, 2, 3, 4, 5, 32, 33, 64, 100, 1000, 65535-10, 65536, 4+r.n(3000), 4+r.n(3000))
	if r.p(1, 5) {
		sz = r.pick(70000, 100000, 200000, 65536-64+r.n(128))
	}
	if sz > big {
		sz = 4 + r.n(100)
	}
	return Op{K: "push", N: int(g.op()), Size: sz}
}

// family lets the payloads have much in common, in size and content. It
// returns a function that adapts the next payload.
func (g *genr) family(big int) func(*Op) {
	r := g.r
	if !r.p(1, 4) {
		return func(*Op) {}
	}
	fam := int64(1 + r.n(3))
	g.p.X["fam"] = fam
	size := r.pick(4, 8, 33, 64, 100, 1000, 65536, 65540, 70000, 140000)
	if size > big {
		size = 100
	}
	used := map[int]bool{}
	return func(o *Op) {
		if fam != famLength {
			o.Size = size
			return
		}
		if o.Size < 4 {
			o.Size = 4
		}
		if r.p(1, 2) {
			o.Size = size
		}
		for used[o.Size] {
			o.Size++
		}
		used[o.Size] = true
	}
}

// burst lets much happen at the same instant.
func (g *genr) burst() {
	r := g.r
	n := &g.p.Net
	n.LatMin = r.pick64(20e3, ms, 20*ms)
	n.LatMax, n.Quant, n.SpikeNum, n.LossNum, n.SegMode = n.LatMin, 1, 0, 0, 0
	if n.SndBuf < 65536 {
		n.SndBuf = 65536
	}
	if n.RcvBuf < 65536 {
		n.RcvBuf = 65536
	}
	for i := range g.p.Procs {
		if g.p.Procs[i].Kind == "" {
			g.p.Procs[i].Workers = uint(r.pick(2, 4, 8))
		}
	}
	s := &g.p.Sched
	s.Stall = 0
	if s.Policy != 2 {
		s.Yield = uint32(r.pick(1<<15, 1<<17, 1<<18, 1<<19))
	}
}

func payKey(o *Op) int64 {
	if b := opByID[uint32(o.N)]; b != nil && b.Size < 4 {
		return -1 - int64(b.Size)
	}
	return int64(o.N)
}

func (g *genr) genG01() {
	r := g.r
	p := g.p
	p.Scen = "gossip"
	n := 2 + r.n(5)
	g.overlay(n)
	for i := range p.Procs {
		pr := &p.Procs[i]
		pr.IdleNs = r.pick64(-1, -1, 0, 2*sec)
		if r.p(1, 4) {
			pr.Slow = r.n64(r.pick64(5*ms, 300*ms, 2*sec))
		}
		if r.p(1, 8) {
			pr.MaxIn = uint(1 + r.n(3))
		}
		if r.p(1, 8) {
			pr.MaxOut = uint(1 + r.n(3))
		}
	}
	if r.p(1, 4) { // callbacks that fail
		for i := range p.Procs {
			if r.p(1, 2) {
				p.Procs[i].X = map[string]int64{"gerr": int64(1 + r.n(3))}
			}
		}
	}
	kps := r.pick(0, 0, 1, 2)
	for k := 0; k < kps; k++ {
		g.kp(map[string]int64{"know": int64(r.n(11))})
	}
	span := r.pick64(1, 50*ms, sec, 20*sec)
	big := 300000
	if p.Net.SndBuf < 4096 || p.Net.RcvBuf < 4096 {
		big = 3000
	}
	pays := 1 + r.n(4)
	burst := r.p(1, 4)
	if burst {
		span = 1
	}
	fit := g.family(big)
	for k := 0; k < pays; k++ {
		b := g.base(big)
		fit(&b)
		same := burst || r.p(1, 3) // pushed in several places at once
		at := 20*sec + r.n64(span)
		for j, q := 0, 1+r.n(4)*r.n(2); j < q; j++ {
			o := b
			o.ID = g.op()
			if r.p(1, 4) {
				o.TO = 1 + r.n64(r.pick64(10*ms, sec, 10*sec))
			}
			if !same {
				at = 20*sec + r.n64(span)
			}
			ops := []Op{o}
			if r.p(1, 5) {
				o.ID = g.op()
				o.Wait = r.n64(r.pick64(ms, sec))
				ops = append(ops, o)
			}
			g.addThread(r.n(n), at, ops...)
		}
		for j := 0; j < kps; j++ {
			for q := r.n(3); q > 0; q-- {
				o := b
				o.K, o.ID, o.To, o.Ans, o.Delay = "kgossip", g.op(), r.n(n), 1+r.n(5), r.pick64(1, ms, r.n64(sec))
				t := at
				if r.p(1, 2) {
					t = 20*sec + r.n64(span+sec)
				}
				g.addThread(n+j, t, o)
			}
		}
	}
	if burst {
		g.burst()
		p.End = 200 * sec
		return
	}
	for k, f := 0, r.pick(0, 0, 1, 2, 4); k < f; k++ {
		i := r.n(len(p.Procs))
		at := 20*sec + r.n64(span+sec)
		if r.p(1, 5) {
			at = sec + r.n64(18*sec)
		}
		switch r.n(5) {
		case 0:
			g.flt(Fault{At: at, K: "power", A: p.Procs[i].Host})
		case 1:
			g.flt(Fault{At: at, K: "rst", A: p.Procs[i].Host, B: p.Procs[r.n(n)].Host, M: r.n(3)})
		case 2:
			g.flt(Fault{At: at, K: "part", A: p.Procs[i].Host, B: p.Procs[r.n(n)].Host, M: r.n(2), Dur: r.pick64(0, sec, 20*sec)})
		case 3:
			g.flt(Fault{At: at, K: "stall", A: i, Dur: r.pick64(sec, 5*sec)})
		default:
			g.flt(Fault{At: at, K: "kill", A: i})
			if r.p(1, 2) {
				g.flt(Fault{At: at + r.n64(5*sec), K: "restart", A: i})
			}
		}
	}
	p.End = 200 * sec
}

type gosKey struct {
	grp int32
	pay int64
}

// gosCommon judges what G01 and G02 have in common.
func (h *H) gosPushes() (began map[gosKey]int, pusher map[int64]map[int32]bool) {
	began = map[gosKey]int{}
	pusher = map[int64]map[int32]bool{}
	for _, c := range h.calls {
		if (c.kind == "push" || c.kind == "kgossip") && c.op != nil {
			k := payKey(c.op)
			began[gosKey{c.grp, k}]++
			if pusher[k] == nil {
				pusher[k] = map[int32]bool{}
			}
			pusher[k][c.grp] = true
		}
	}
	return
}

func (h *H) oracleG01() {
	_, pusher := h.gosPushes()
	got := map[gosKey]int{}
	has := map[[2]int64]bool{} // process, payload: had it in some life
	calls := map[int64]*call{}
	ended := map[gosKey]bool{}
	arrived := map[gosKey]bool{}
	for _, c := range h.calls {
		calls[c.id] = c
	}
	for i := range h.ev {
		e := &h.ev[i]
		switch e.K {
		case cBegin:
			if c := calls[e.A]; c != nil && c.op != nil && (c.kind == "push" || c.kind == "kgossip") {
				has[[2]int64{int64(c.proc), payKey(c.op)}] = true
			}
		case cEnd:
			if c := calls[e.A]; c != nil && c.op != nil && c.kind == "push" {
				// Unless it was on its way to the application by then.
				if k := (gosKey{c.grp, payKey(c.op)}); !arrived[k] {
					ended[k] = true
				}
			}
		case gRecv:
			k := gosKey{e.Grp, e.C}
			me := fmt.Sprint("process ", e.A)
			h.probe("delivery judged")
			if e.S != "" {
				h.bad("content", "%s was handed a payload with: %s", me, e.S)
				continue
			}
			if got[k]++; got[k] == 2 {
				h.bad("twice", "%s was handed payload %d twice", me, e.C)
			}
			if e.B < 0 || e.B == e.A {
				h.bad("sender", "%s was handed payload %d as from %d", me, e.C, e.B)
			} else if !has[[2]int64{e.B, e.C}] {
				h.bad("sender", "%s was handed payload %d as from process %d, which did not have it", me, e.C, e.B)
			}
			switch {
			case ended[k]:
				h.bad("own", "%s was handed payload %d after it had pushed it itself", me, e.C)
			case len(pusher[e.C]) == 1 && pusher[e.C][e.Grp]:
				h.bad("own", "%s was handed payload %d, which nobody else pushed", me, e.C)
			}
			has[[2]int64{e.A, e.C}] = true
		case gIn:
			if e.B >= 0 && !has[[2]int64{e.B, e.C}] {
				h.bad("sender", "process %d got payload %d from process %d, which did not have it", e.A, e.C, e.B)
			}
			arrived[gosKey{e.Grp, e.C}] = true
			h.probe("arrival judged")
		}
	}
}

func (g *genr) genG02() {
	r := g.r
	p := g.p
	p.Scen = "whole"
	g.gentle()
	n := 2 + r.n(7)
	hub := r.p(1, 16) // one node knows more peers than a bucket holds
	if hub {
		n = 17 + r.n(8)
		g.overlayOf(n, 1)
	} else {
		g.overlay(n)
	}
	for i := 0; i < n; i++ {
		if r.p(1, 6) {
			p.Procs[i].Slow = r.n64(r.pick64(5*ms, 200*ms))
		}
		g.addThread(i, 19*sec, Op{K: "ktab", N: 1})
	}
	big := 300000
	if r.p(1, 20) {
		big = 2 << 20
	}
	crash := r.p(1, 2)
	pays := 1 + r.n(4)
	span := r.pick64(1, 50*ms, sec, 20*sec)
	if crash {
		p.Scen = "crash"
		pays = 1 + r.n(2)
		big = 3000
	}
	if hub && big > 3000 {
		big = 3000
	}
	fit := g.family(big)
	for k := 0; k < pays; k++ {
		b := g.base(big)
		fit(&b)
		if k == 0 && big > 1<<20 && p.X["fam"] == 0 {
			b.Size = 500000 + r.n(1<<20)
		}
		at := 20*sec + r.n64(span)
		for j, q := 0, 1+r.n(3)*r.n(2); j < q; j++ {
			o := b
			o.ID = g.op()
			ops := []Op{o}
			if r.p(1, 8) {
				o.ID = g.op()
				o.Wait = r.n64(r.pick64(ms, sec))
				ops = append(ops, o)
			}
			if !crash && r.p(1, 6) { // a push that comes to nothing first, when the connections are there
				f := g.base(100)
				f.ID = g.op()
				f.N, f.Size = int(f.ID), 4
				if p.X["fam"] != 0 {
					f.Size = 3
				}
				x := o
				x.ID, x.TO, x.Wait = g.op(), -1, r.pick64(0, sec)
				for i := range ops {
					ops[i].Wait += r.pick64(0, ms, sec)
				}
				ops = append([]Op{f, x}, ops...)
			}
			g.addThread(r.n(n), at, ops...)
			if r.p(1, 2) {
				at = 20*sec + r.n64(span)
			}
		}
	}
	p.End = 200 * sec
	if crash {
		for k, f := 0, 1+r.n(n-1); k < f; k++ {
			i := r.n(n)
			at := r.pick64(18*sec+r.n64(sec), 20*sec+r.n64(span), 20*sec+r.n64(sec))
			if r.p(1, 2) {
				g.flt(Fault{At: at, K: "kill", A: i})
			} else {
				g.flt(Fault{At: at, K: "power", A: p.Procs[i].Host})
			}
		}
		p.End = 3000 * sec
	}
}

func (h *H) oracleG02() {
	p := h.p
	hurt := map[int]bool{}
	for _, f := range p.Flt {
		for i := range p.Procs {
			if f.K == "kill" && f.A == i || f.K == "power" && f.A == p.Procs[i].Host {
				hurt[i] = true
			}
		}
	}
	edges := map[int][]int{}
	tabbed := map[int]bool{}
	for i := range h.ev {
		if e := &h.ev[i]; e.K == kTab && e.B == 1 {
			tabbed[int(e.A)] = true
			if e.C >= 0 && e.C != e.A && !hurt[int(e.A)] && !hurt[int(e.C)] {
				edges[int(e.A)] = append(edges[int(e.A)], int(e.C))
			}
		}
	}
	began, _ := h.gosPushes()
	got := map[[2]int64]bool{}
	in := map[[4]int64]int{}
	lastIn := map[int64]int64{}
	recv := map[gosKey]int{}
	for i := range h.ev {
		e := &h.ev[i]
		switch e.K {
		case gRecv:
			got[[2]int64{e.A, e.C}] = true
			recv[gosKey{e.Grp, e.C}]++
		case gIn:
			// No process starts twice here.
			in[[4]int64{e.B, e.A, e.C}]++
			lastIn[e.C] = e.T
		}
	}
	grpOf := map[int64]int32{}
	for _, x := range h.incs() {
		grpOf[int64(x.proc)] = x.grp
	}
	for k, c := range in {
		if k[0] < 0 {
			continue
		}
		s := gosKey{grpOf[k[0]], k[2]}
		if max := began[s] + recv[s]; c > max {
			h.bad("repeated", "process %d sent payload %d to process %d %d times, having pushed it %d times and received it %d times", k[0], k[2], k[1], c, began[s], recv[s])
		}
		h.probe("link judged")
	}
	bound := 60*sec + h.slack()
	if p.Scen == "crash" {
		bound = 1500 * sec
	}
	for _, c := range h.calls {
		if c.kind != "push" || c.op == nil || hurt[c.proc] {
			continue
		}
		end := c.et
		if !c.done {
			end = startTime + p.End
		}
		if end-c.bt > bound {
			h.bad("push-hangs", "push op%d of process %d took more than %.0fs (done %v)", c.op.ID, c.proc, float64(end-c.bt)/1e9, c.done)
		}
		if c.bt < startTime+19*sec || c.op.TO != 0 {
			continue
		}
		pay := payKey(c.op)
		seen := map[int]bool{c.proc: true}
		todo := []int{c.proc}
		for len(todo) > 0 {
			x := todo[0]
			todo = todo[1:]
			for _, y := range edges[x] {
				if !seen[y] {
					seen[y] = true
					todo = append(todo, y)
				}
			}
		}
		for q := range seen {
			if q == c.proc || began[gosKey{grpOf[int64(q)], pay}] > 0 {
				continue
			}
			if !got[[2]int64{int64(q), pay}] {
				h.bad("lost", "payload %d (%d bytes), pushed by process %d, never reached process %d, which the tables lead to", pay, opByID[uint32(c.op.N)].Size, c.proc, q)
			}
			h.probe("reach judged")
		}
	}
}
