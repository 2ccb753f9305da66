package main

import (
	"sort"
)

// generate derives the whole plan from the property, the seed and the tier.
func generate(prop string, seed uint64, tier string) *Plan {
	var ph uint64
	for _, c := range prop {
		ph = ph*131 + uint64(c)
	}
	r := newRng(seed, ph)
	p := &Plan{Prop: prop, Seed: seed, X: map[string]int64{}}
	g := &genr{p: p, r: r, deep: tier == "thorough"}
	g.sched()
	g.net()
	if prop == "R01" {
		prop = g.genR01()
	}
	switch prop {
	case "N01":
		g.genN01()
	case "N02":
		g.genN02()
	case "N03":
		g.genN03()
	case "N04":
		g.genN04()
	case "N05":
		g.genN05()
	case "N06":
		g.genN06()
	case "N07":
		g.genN07()
	case "N08":
		g.genN08()
	case "N09":
		g.genN09()
	case "N10":
		g.genN10()
	case "N11":
		g.genN11()
	case "N12":
		g.genN12()
	case "N13":
		g.genN13()
	case "N14":
		g.genN14()
	case "N15":
		g.genN15()
	case "G01":
		g.genG01()
	case "G02":
		g.genG02()
	case "K01":
		g.genK01()
	case "M01":
		g.genM01()
	case "K02":
		g.genK02()
	case "K03":
		g.genK03()
	default:
		panic("harness: no generator for " + prop)
	}
	if p.Prop == "R01" {
		g.pokes()
	}
	if p.Net.Quant > 0 && r.p(1, 2) {
		g.coincide()
	}
	g.moments()
	sort.SliceStable(p.Flt, func(i, j int) bool { return p.Flt[i].At < p.Flt[j].At })
	return p
}

type genr struct {
	p     *Plan
	r     *rng
	id    uint32
	deep  bool
	port0 int
}

// coincide makes more of what happens happen at the same instant.
func (g *genr) coincide() {
	f := func(t *int64) {
		if *t > ms {
			*t -= *t % ms
		}
	}
	for i := range g.p.Thr {
		t := &g.p.Thr[i]
		f(&t.At)
		for j := range t.Ops {
			f(&t.Ops[j].Wait)
			f(&t.Ops[j].Delay)
		}
	}
	for i := range g.p.Flt {
		f(&g.p.Flt[i].At)
	}
}

// port is the port of the i-th process.
func (g *genr) port(i int) uint16 {
	if g.port0 == 0 {
		g.port0 = g.r.pick(9000, 9000, 9000, 61000+g.r.n(4400))
	}
	return uint16(g.port0 + i)
}

func (g *genr) op() uint32 { g.id++; return g.id }

func (g *genr) sched() {
	r := g.r
	s := &g.p.Sched
	s.MaxSteps = 4e6
	switch r.n(8) {
	case 0:
		s.Policy = 0
		s.Yield = uint32(r.pick(0, 1<<8, 1<<12))
	case 1, 2:
		s.Policy = 0
		s.Yield = uint32(r.pick(1<<14, 1<<16, 1<<18))
	case 3, 4, 5:
		s.Policy = 1
		s.Yield = uint32(r.pick(0, 1<<13, 1<<15, 1<<17, 1<<19))
	default:
		s.Policy = 2
		s.PCTPoints = r.pick(1, 2, 3, 5, 10, 30)
		s.PCTHorizon = uint32(r.pick(500, 2000, 6000, 20000))
	}
	if s.Policy != 2 && r.p(1, 3) {
		s.Hot = uint32(r.pick(1<<17, 1<<18, 1<<19))
		s.HotMask = uint32(r.pick(7, 15, 63))
	}
	if r.p(1, 3) {
		s.Stall = uint32(r.pick(50, 200, 1000, 4000))
		s.StallMax = r.pick64(300e3, 2*ms, 15*ms, 120*ms, 900*ms)
	}
}

func (g *genr) net() {
	r := g.r
	n := &g.p.Net
	switch r.n(4) {
	case 0:
		n.LatMin, n.LatMax = 20e3, 50e3
	case 1:
		n.LatMin, n.LatMax = ms, 5*ms
	case 2:
		n.LatMin, n.LatMax = 100e3, 80*ms
	default:
		n.LatMin, n.LatMax = 50*ms, 300*ms
	}
	n.SegMode = r.n(4)
	n.SndBuf = r.pick(4608, 4608, 16384, 65536, 1<<20)
	n.RcvBuf = r.pick(2304, 4096, 16384, 65536, 1<<20)
	if r.p(1, 4) {
		n.SpikeNum, n.SpikeMax = r.pick(5, 50, 200), r.pick64(100*ms, sec, 5*sec)
	}
	if r.p(1, 4) {
		n.LossNum = r.pick(5, 50, 200)
	}
	if r.p(1, 3) {
		n.Quant = r.pick(1, 1, 2, 8, 32)
	}
}

// nodes adds n noise nodes.
func (g *genr) nodes(n int) {
	r := g.r
	mode := r.n(4)
	idle := int64(0)
	for i := 0; i < n; i++ {
		pr := Proc{Port: g.port(i), MaxDial: uint(r.pick(1, 2, 3, 3)), Workers: uint(r.pick(1, 1, 2, 4)), NHand: r.pick(1, 1, 2, 3), NProto: r.pick(1, 1, 2, 3), IdleNs: idle}
		switch mode {
		case 0: // one machine
			pr.Host = 0
		case 1:
			pr.Host, pr.Bind = i, 1
		case 2:
			pr.Host, pr.Pub = i, 1
		case 3:
			pr.Host, pr.Pub, pr.Bind = i, 2, r.n(2)
		}
		pr.Start = r.pick64(0, 0, r.n64(50*ms))
		if r.p(1, 4) {
			pr.MaxRecv = 1 << 20
		}
		if r.p(1, 3) {
			pr.Sparse = 1 + r.n(pr.NProto) | r.n(64)<<4
		}
		pr.Bulk = r.p(1, 3)
		if r.p(1, 8) {
			pr.Zero = r.n(16)
		}
		g.p.Procs = append(g.p.Procs, pr)
	}
}

func (g *genr) multiHost() bool { return len(g.p.Procs) > 1 && g.p.Procs[0].Host != g.p.Procs[1].Host }

func (g *genr) size() int {
	r := g.r
	switch r.n(12) {
	case 0:
		return r.n(4)
	case 1, 2, 3, 4, 5:
		return 4 + r.n(60)
	case 6, 7:
		return 4 + r.n(3000)
	case 8:
		return 4050 + r.n(60)
	case 9:
		return 4 + r.n(20000)
	case 10:
		if g.p.Net.SndBuf >= 4096 && g.p.Net.RcvBuf >= 4096 {
			return 4 + r.n(200000)
		}
		return 4 + r.n(2000)
	default:
		return 30 + r.n(8)
	}
}

func (g *genr) send(to int) Op {
	return Op{K: "send", ID: g.op(), To: to, Size: g.size(), RSize: 4 + g.r.n(300)}
}

func (g *genr) req(to int) Op {
	o := Op{K: "req", ID: g.op(), To: to, Size: 4 + g.r.n(200), RSize: 4 + g.r.n(300), Ans: 1}
	if g.r.p(1, 6) {
		o.Size = 4 + g.r.n(20000)
	}
	if g.r.p(1, 6) {
		o.RSize = 4 + g.r.n(20000)
	}
	nh := g.p.Procs[to].NHand
	if nh > 1 {
		o.AnsH = g.r.n(nh)
	}
	return o
}

func (g *genr) other(i int) int {
	n := len(g.p.Procs)
	if n < 2 {
		return i
	}
	j := g.r.n(n - 1)
	if j >= i {
		j++
	}
	return j
}

func (g *genr) wait() int64 {
	r := g.r
	switch r.n(6) {
	case 0, 1, 2:
		return 0
	case 3:
		return r.n64(ms)
	case 4:
		return r.n64(50 * ms)
	default:
		return r.n64(2 * sec)
	}
}

func (g *genr) addThread(proc int, at int64, ops ...Op) {
	g.p.Thr = append(g.p.Thr, Thread{Proc: proc, At: at, Ops: ops})
}

func (g *genr) flt(f Fault) { g.p.Flt = append(g.p.Flt, f) }

func (g *genr) genN01() {
	r := g.r
	n := r.pick(2, 2, 3, 4)
	g.nodes(n)
	nt := 1 + r.n(6)
	span := r.pick64(200*ms, 2*sec, 10*sec)
	for t := 0; t < nt; t++ {
		pr := r.n(n)
		to := g.other(pr)
		var ops []Op
		for k, m := 0, 2+r.n(14); k < m; k++ {
			if r.p(1, 5) {
				to = g.other(pr)
			}
			var o Op
			switch {
			case r.p(1, 5):
				o = g.req(to)
				o.TO = r.pick64(100*ms, sec, 5*sec, 20*sec)
				if r.p(1, 4) {
					o.Delay = r.n64(2 * sec)
				}
			case r.p(1, 12):
				o = Op{K: "cclose", N: r.n(3)}
			default:
				o = g.send(to)
				if o.Size >= 4 && r.p(1, 4) {
					o.Back = 1 + r.n(4)
				}
				if r.p(1, 4) {
					o.TO = r.pick64(50*ms, sec, 10*sec)
				}
				if r.p(1, 8) {
					o.Delay = r.n64(300 * ms)
				}
				if r.p(1, 30) && o.Size >= 4 {
					o.Err = 1
				}
			}
			if o.K != "cclose" && o.TO == 0 {
				o.TO = 60 * sec
			}
			o.Wait = g.wait()
			ops = append(ops, o)
		}
		g.addThread(pr, 200*ms+r.n64(span/4), ops...)
	}
	if r.p(2, 3) {
		for k, m := 0, 1+r.n(4); k < m; k++ {
			g.linkFault(200*ms+r.n64(span*2), true)
		}
	}
	if r.p(1, 40) {
		g.manySends()
	}
	g.p.End = 400 * sec
}

// linkFault adds one random network or process fault; everything is repaired
// within a few seconds.
func (g *genr) linkFault(at int64, kills bool) {
	r := g.r
	p := g.p
	n := len(p.Procs)
	a := r.n(n)
	b := g.other(a)
	ha, hb := p.Procs[a].Host, p.Procs[b].Host
	switch r.n(7) {
	case 0, 1:
		g.flt(Fault{At: at, K: "rst", A: ha, B: hb, M: r.n(3)})
	case 2:
		if ha != hb {
			g.flt(Fault{At: at, K: "part", A: ha, B: hb, M: r.n(2), Dur: r.pick64(100*ms, 3*sec, 20*sec)})
		}
	case 3:
		g.flt(Fault{At: at, K: "stall", A: a, Dur: r.pick64(50*ms, sec, 5*sec)})
	case 4:
		if kills {
			g.flt(Fault{At: at, K: "kill", A: a})
			g.flt(Fault{At: at + 10*ms + r.n64(5*sec), K: "restart", A: a})
		}
	case 5:
		if kills && g.multiHost() {
			g.flt(Fault{At: at, K: "power", A: ha})
			g.flt(Fault{At: at + sec + r.n64(20*sec), K: "restart", A: a})
		}
	case 6:
		g.flt(Fault{At: at, K: "slowlink", X: r.pick64(100*ms, sec), Dur: r.pick64(500*ms, 5*sec)})
	}
}

func (g *genr) genN02() {
	r := g.r
	n := r.pick(2, 2, 3)
	g.nodes(n)
	nt := 1 + r.n(7)
	span := r.pick64(20*ms, 500*ms, 5*sec)
	slow := r.pick64(0, 0, ms, 50*ms, 400*ms)
	for i := range g.p.Procs {
		if r.p(1, 2) {
			g.p.Procs[i].Slow = slow
		}
		if r.p(1, 5) {
			g.p.Procs[i].MaxIn, g.p.Procs[i].MaxOut = uint(n), uint(n)
		}
	}
	tot := int64(0)
	for t := 0; t < nt; t++ {
		pr := r.n(n)
		to := g.other(pr)
		var ops []Op
		for k, m := 0, 1+r.n(12); k < m; k++ {
			if r.p(1, 5) {
				to = g.other(pr)
			}
			var o Op
			switch {
			case r.p(1, 5):
				o = g.req(to)
				if r.p(1, 4) {
					o.Delay = r.n64(200 * ms)
				}
				if r.p(1, 5) {
					o.Async = true
				}
			case r.p(1, 15):
				o = Op{K: "ping", ID: g.op(), To: to}
			default:
				o = g.send(to)
				if o.Size >= 4 && r.p(1, 4) {
					o.Back = 1 + r.n(5)
					o.Async = r.p(1, 4)
				}
				if r.p(1, 8) {
					o.Delay = r.n64(200 * ms)
				}
			}
			o.Wait = g.wait()
			tot += int64(o.Size + o.RSize)
			ops = append(ops, o)
		}
		g.addThread(pr, 200*ms+r.n64(span), ops...)
	}
	if r.p(1, 2) {
		for k, m := 0, 1+r.n(3); k < m; k++ {
			at := 200*ms + r.n64(5*sec)
			a := r.n(n)
			b := g.other(a)
			ha, hb := g.p.Procs[a].Host, g.p.Procs[b].Host
			switch r.n(3) {
			case 0:
				if ha != hb {
					g.flt(Fault{At: at, K: "part", A: ha, B: hb, M: r.n(2), Dur: r.pick64(100*ms, 3*sec, 20*sec)})
				}
			case 1:
				g.flt(Fault{At: at, K: "stall", A: a, Dur: r.pick64(50*ms, sec, 5*sec)})
			case 2:
				g.flt(Fault{At: at, K: "slowlink", X: r.pick64(100*ms, sec), Dur: r.pick64(500*ms, 5*sec)})
			}
		}
	}
	if r.p(1, 40) {
		g.manySends()
		tot += 2500 * 64
	} else if r.p(1, 60) {
		g.manyAtOnce()
	}
	// With tiny windows every round trip carries little: leave time.
	w := int64(g.p.Net.SndBuf)
	if int64(g.p.Net.RcvBuf) < w {
		w = int64(g.p.Net.RcvBuf)
	}
	rtts := tot*2/w + 100
	per := 2*g.p.Net.LatMax + 10*ms
	if g.p.Net.SpikeNum > 0 {
		per += g.p.Net.SpikeMax
	}
	if g.p.Net.LossNum > 0 {
		per += 2 * sec
	}
	g.p.End = 600*sec + rtts*per*4
}

func (g *genr) genN03() {
	r := g.r
	n := r.pick(2, 2, 3)
	g.nodes(n)
	for i := range g.p.Procs {
		g.p.Procs[i].Workers = uint(r.pick(1, 2, 4, 8))
	}
	nt := 2 + r.n(7)
	span := r.pick64(5*ms, 100*ms, 2*sec)
	for t := 0; t < nt; t++ {
		pr := r.n(n)
		to := g.other(pr)
		var ops []Op
		for k, m := 0, 1+r.n(8); k < m; k++ {
			if r.p(1, 6) {
				to = g.other(pr)
			}
			var o Op
			if r.p(1, 6) {
				o = g.send(to)
				o.TO = 60 * sec
				if o.Size >= 4 && r.p(1, 3) {
					o.Back = 1 + r.n(3)
				}
			} else {
				o = g.req(to)
				g.tiny(&o)
				o.TO = 300 * sec
				switch r.n(5) {
				case 0:
					o.Delay = r.n64(2 * sec)
				case 1:
					o.Delay = r.n64(100 * ms)
				}
				if r.p(1, 3) { // give up around the time the reply is due
					o.TO = 1 + r.n64(2*o.Delay+500*ms)
					o.Cancel = r.p(1, 2)
				}
				switch r.n(6) {
				case 0:
					o.Ans = 2 + r.n(3)
				case 1:
					o.AnsH = -1
				case 2:
					o.Async = true
				case 3:
					o.Async, o.AnsH = true, -1
				}
				if r.p(1, 10) {
					o.Ans = 0
					o.TO = r.pick64(100*ms, 5*sec)
				}
			}
			o.Wait = g.wait()
			ops = append(ops, o)
		}
		g.addThread(pr, 200*ms+r.n64(span), ops...)
	}
	if r.p(1, 4) {
		g.linkFault(200*ms+r.n64(span*3), r.p(1, 2))
	}
	if r.p(1, 40) {
		g.manyRequests()
	} else if r.p(1, 40) {
		g.manyAtOnce()
	}
	g.p.End = 1000 * sec
}

// tiny makes some replies as short as they get, down to empty ones.
func (g *genr) tiny(o *Op) {
	if g.r.p(1, 10) {
		o.RSize = g.r.pick(0, 0, 1, 2, 3)
	}
}

// manyAtOnce adds requests that are all under way at the same time.
func (g *genr) manyAtOnce() {
	r := g.r
	pr := r.n(len(g.p.Procs))
	to := g.other(pr)
	g.p.Procs[to].Slow = 0
	at := 200*ms + r.n64(300*ms)
	for t, nt := 0, 60+r.n(240); t < nt; t++ {
		g.addThread(pr, at, Op{K: "req", ID: g.op(), To: to, Size: 4 + r.n(8), RSize: 4 + r.n(8), Ans: 1, TO: 300 * sec, Async: r.p(1, 2)})
	}
}

// manySends adds a long burst of messages to a process that is slow to take
// them.
func (g *genr) manySends() {
	r := g.r
	pr := r.n(len(g.p.Procs))
	to := g.other(pr)
	g.p.Procs[to].Slow = 0
	g.p.Net.SndBuf, g.p.Net.RcvBuf = 4608, 4096
	at := 200*ms + r.n64(300*ms)
	m := r.pick(300, 700, 1500, 2500)
	nt := 1 + r.n(3)
	for t := 0; t < nt; t++ {
		var ops []Op
		for k := 0; k < m/nt; k++ {
			ops = append(ops, Op{K: "send", ID: g.op(), To: to, Size: 4 + r.n(12), RSize: 4})
		}
		g.addThread(pr, at, ops...)
	}
	if r.p(2, 3) {
		g.flt(Fault{At: at + r.n64(100*ms), K: "stall", A: to, Dur: r.pick64(sec, 5*sec)})
	}
}

// manyRequests adds hundreds of requests on one connection while some others
// on it wait for their replies.
func (g *genr) manyRequests() {
	r := g.r
	pr := r.n(len(g.p.Procs))
	to := g.other(pr)
	g.p.Procs[to].Workers = 8
	g.p.Procs[to].Slow = 0
	for t, nt := 0, 1+r.n(3); t < nt; t++ {
		o := g.req(to)
		o.Delay, o.TO = 60*sec+r.n64(30*sec), 300*sec
		g.addThread(pr, 200*ms+r.n64(50*ms), o)
	}
	for t, nt := 0, 3+r.n(3); t < nt; t++ {
		var ops []Op
		for k, m := 0, 100+r.n(40); k < m; k++ {
			ops = append(ops, Op{K: "req", ID: g.op(), To: to, Size: 4 + r.n(8), RSize: 4 + r.n(8), Ans: 1, TO: 300 * sec})
		}
		g.addThread(pr, 250*ms+r.n64(50*ms), ops...)
	}
}

func (g *genr) genN04() {
	r := g.r
	n := r.pick(2, 3, 4)
	g.nodes(n)
	nt := 2 + r.n(7)
	span := r.pick64(5*ms, 100*ms, 2*sec)
	healthy := r.p(2, 5)
	if healthy {
		g.p.X["healthy"] = 1
		// Windows of a few bytes would make honest handshakes slow; keep
		// timing reasonable so that cancellations land everywhere.
		for i := range g.p.Procs {
			g.p.Procs[i].NHand = 1
		}
	} else if r.p(1, 3) {
		m := uint(1 + r.n(2))
		for i := range g.p.Procs {
			g.p.Procs[i].MaxIn, g.p.Procs[i].MaxOut = m, m
		}
	}
	target := r.n(n)
	for t := 0; t < nt; t++ {
		pr := r.n(n)
		if r.p(1, 2) {
			pr = 0
		}
		to := g.other(pr)
		if r.p(1, 2) && target != pr {
			to = target
		}
		var ops []Op
		for k, m := 0, 1+r.n(6); k < m; k++ {
			var o Op
			switch r.n(6) {
			case 0:
				o = g.send(to)
			case 1:
				o = Op{K: "ping", ID: g.op(), To: to}
			default:
				o = g.req(to)
				g.tiny(&o)
				switch r.n(4) {
				case 0:
					o.Delay = r.n64(3 * sec)
				case 1:
					o.Delay = r.n64(100 * ms)
				}
				if r.p(1, 5) {
					o.Ans = 0
				}
			}
			if r.p(1, 2) || o.Ans == 0 && healthy && o.K == "req" {
				o.TO = r.pick64(1, -1, ms, g.p.Net.LatMax*2, g.p.Net.LatMax*4, g.p.Net.LatMax*8, 500*ms, 5*sec)
				if o.TO > 2 {
					o.TO = 1 + r.n64(o.TO*2)
				}
				o.Cancel = r.p(1, 2)
			}
			o.Wait = g.wait()
			if r.p(1, 2) {
				o.Wait = 0
			}
			ops = append(ops, o)
		}
		g.addThread(pr, 200*ms+r.n64(span), ops...)
	}
	if r.p(1, 60) {
		g.manyAtOnce()
	}
	if !healthy {
		for k, m := 0, 1+r.n(4); k < m; k++ {
			at := 200*ms + r.n64(span*3+sec)
			switch r.n(6) {
			case 0: // for good
				a := r.n(n)
				g.flt(Fault{At: at, K: r2s(r.n(2), "kill", "power"), A: a})
				if f := &g.p.Flt[len(g.p.Flt)-1]; f.K == "power" {
					if !g.multiHost() {
						f.K = "kill"
					} else {
						f.A = g.p.Procs[a].Host
					}
				}
			case 1:
				a := r.n(n)
				b := g.other(a)
				if g.p.Procs[a].Host != g.p.Procs[b].Host {
					g.flt(Fault{At: at, K: "part", A: g.p.Procs[a].Host, B: g.p.Procs[b].Host, M: r.n(2)})
				}
			default:
				g.linkFault(at, true)
			}
		}
		if r.p(1, 4) {
			pr := r.n(n)
			g.addThread(pr, 200*ms+r.n64(span*3+sec), Op{K: "cclose", N: r.n(3)})
		}
	}
	g.p.End = 2500 * sec
}

func r2s(i int, s ...string) string { return s[i] }
