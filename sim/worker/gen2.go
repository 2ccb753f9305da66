package main

import "fmt"

// calm removes what makes a network slow.
func (g *genr) calmNet() {
	n := &g.p.Net
	n.SpikeNum, n.LossNum = 0, 0
	if n.LatMax > 100*ms {
		n.LatMin, n.LatMax = ms, 60*ms
	}
}

// traffic is a random call of process pr to process to.
func (g *genr) traffic(to int) Op {
	r := g.r
	switch {
	case r.p(1, 4):
		o := g.req(to)
		if r.p(1, 4) {
			o.Delay = r.n64(300 * ms)
		}
		if r.p(1, 6) {
			o.Async = true
		}
		return o
	case r.p(1, 10):
		return Op{K: "ping", ID: g.op(), To: to}
	}
	o := g.send(to)
	if o.Size >= 4 && r.p(1, 4) {
		o.Back = 1 + r.n(3)
	}
	if r.p(1, 8) {
		o.Delay = r.n64(200 * ms)
	}
	return o
}

func (g *genr) maybeTO(o *Op, num, den int) {
	r := g.r
	if r.p(num, den) {
		o.TO = r.pick64(-1, ms, g.p.Net.LatMax*2, g.p.Net.LatMax*5, 500*ms, 5*sec, 40*sec)
		if o.TO > 2 {
			o.TO = 1 + r.n64(o.TO*2)
		}
		o.Cancel = r.p(1, 2)
	}
}

func (g *genr) newHost() int {
	m := 0
	for _, p := range g.p.Procs {
		if p.Host+1 > m {
			m = p.Host + 1
		}
	}
	return m
}

// atk adds a harness-made peer with the given behaviours.
func (g *genr) atk(port uint16, bs ...int) int {
	x := map[string]int64{"nb": int64(len(bs))}
	for i, b := range bs {
		x[fmt.Sprint("b", i)] = int64(b)
	}
	g.p.Procs = append(g.p.Procs, Proc{Kind: "atk", Host: g.newHost(), Port: port, X: x})
	return len(g.p.Procs) - 1
}

func lingering(b int) bool {
	switch b {
	case bSilent, bSessThenSilent, bSessPartial, bGarbage, bReflectAll, bZeroFrame, bOversize, bReplayAll:
		return true
	}
	return false
}

func (g *genr) failing() int { return 1 + g.r.n(bLast-1) }

func (g *genr) genN05() {
	r := g.r
	n := r.pick(1, 1, 2, 3)
	g.nodes(n)
	p := g.p
	idle := r.pick64(0, 2*sec, 5*sec)
	for i := range p.Procs {
		p.Procs[i].IdleNs = idle
		p.Procs[i].MaxDial = uint(r.pick(1, 1, 2, 3, 4))
		p.Procs[i].NProto = r.pick(1, 2, 3)
		if r.p(1, 5) {
			p.Procs[i].MaxIn, p.Procs[i].MaxOut = 1, 1
		}
	}
	type tgt struct {
		to int
		s  string
	}
	var ts []tgt
	for k, m := 0, 1+r.n(3); k < m; k++ {
		switch r.n(7) {
		case 0:
			ts = append(ts, tgt{0, fmt.Sprintf("%s:%d", hostIP(p.Procs[0].Host), 7)})
		case 1:
			ts = append(ts, tgt{0, "10.9.9.9:80"})
		case 2: // a host that vanished
			a := g.atk(uint16(7000+k), bSilent)
			p.Procs[a].X["never"] = 1
			g.flt(Fault{At: 50 * ms, K: "power", A: p.Procs[a].Host})
			ts = append(ts, tgt{to: a})
		case 3: // a process that died
			a := g.atk(uint16(7000+k), bSilent)
			g.flt(Fault{At: 50*ms + r.n64(2*sec), K: "kill", A: a})
			ts = append(ts, tgt{to: a})
		default:
			var bs []int
			for i, c := 0, 1+r.n(3); i < c; i++ {
				bs = append(bs, g.failing())
			}
			ts = append(ts, tgt{to: g.atk(uint16(7000+k), bs...)})
		}
	}
	nt := 1 + r.n(5)
	same := r.p(1, 2)
	at := 200*ms + r.n64(sec)
	for t := 0; t < nt; t++ {
		pr := r.n(n)
		if same {
			pr = 0
		}
		x := ts[r.n(len(ts))]
		if same {
			x = ts[0]
		}
		var ops []Op
		for k, m := 0, 1+r.n(3); k < m; k++ {
			var o Op
			switch r.n(3) {
			case 0:
				o = Op{K: "ping", ID: g.op(), To: x.to}
			case 1:
				o = Op{K: "send", ID: g.op(), To: x.to, Size: 4 + r.n(100), RSize: 4}
			default:
				o = Op{K: "req", ID: g.op(), To: x.to, Size: 4 + r.n(100), RSize: 4}
			}
			o.S = x.s
			if n > 1 && r.p(1, 4) { // a healthy peer in between
				to := g.other2(pr, n)
				o = g.traffic(to)
				if o.TO == 0 {
					o.TO = 60 * sec
				}
			} else if idle == 0 || r.p(1, 3) {
				o.TO = r.pick64(-1, ms, g.p.Net.LatMax*3, sec, 10*sec, 300*sec)
				if o.TO > 2 {
					o.TO = 1 + r.n64(o.TO*2)
				}
				o.Cancel = r.p(1, 2)
			}
			o.Wait = g.wait()
			if r.p(1, 2) {
				o.Wait = 0
			}
			ops = append(ops, o)
		}
		if r.p(2, 3) {
			g.addThread(pr, at, ops...)
		} else {
			g.addThread(pr, 200*ms+r.n64(5*sec), ops...)
		}
	}
	if r.p(1, 3) {
		g.flt(Fault{At: 0, K: "dialerr", A: -1, B: -1, N: 1 + r.n(6), M: r.n(3), X: r.pick64(111, 101, 110, 113, 24), Dur: r.n64(2 * sec)})
	}
	for k, m := 0, r.n(3); k < m; k++ {
		a, b := r.n(len(p.Procs)), r.n(len(p.Procs))
		g.flt(Fault{At: at + r.n64(3*sec), K: "rst", A: p.Procs[a].Host, B: p.Procs[b].Host, M: r.n(3)})
	}
	p.End = 3000 * sec
}

// other2 picks another of the first n processes.
func (g *genr) other2(i, n int) int {
	if n < 2 {
		return i
	}
	j := g.r.n(n - 1)
	if j >= i {
		j++
	}
	return j
}

func (g *genr) genN09() {
	r := g.r
	p := g.p
	switch r.n(8) {
	case 6: // calls given up on while their connections are evicted, all at the same instants
		n := 3 + r.n(3)
		g.nodes(n)
		l := uint(1 + r.n(2))
		p.Procs[0].MaxIn, p.Procs[0].MaxOut = l, l
		dead := 1 + r.n(2)
		for i := 0; i < dead; i++ {
			g.flt(Fault{At: 50 * ms, K: "power", A: p.Procs[n-1-i].Host})
		}
		unit := r.pick64(ms, 10*ms, 100*ms)
		for t, nt := 0, 3+r.n(6); t < nt; t++ {
			var ops []Op
			for k, m := 0, 2+r.n(8); k < m; k++ {
				o := g.traffic(1 + r.n(n-1))
				o.TO = unit * int64(1+r.n(6))
				if r.p(1, 6) {
					o.TO = 60 * sec
				}
				o.Back, o.Delay = 0, 0
				o.Wait = unit * int64(r.n(3))
				ops = append(ops, o)
			}
			g.addThread(0, 200*ms+unit*int64(r.n(5)), ops...)
		}
		if r.p(1, 2) {
			g.flt(Fault{At: sec, K: "restart", A: n - 1})
		}
		p.End = 1300 * sec
	case 7: // calls to one after the other, while connections to some of them are not made yet
		g.calmNet()
		l := 1 + r.n(4)
		k := l + 1 + r.n(3)
		g.nodes(1 + k)
		if !g.multiHost() {
			for i := range p.Procs {
				p.Procs[i].Host, p.Procs[i].Bind = i, 1
			}
		}
		p.Procs[0].MaxIn, p.Procs[0].MaxOut, p.Procs[0].MaxDial = uint(l), uint(l), 1
		p.X["lru"] = 3
		p.Sched.Stall, p.Sched.StallMax = 0, 0
		for i, m := 0, 1+r.n(k); i < m; i++ {
			g.flt(Fault{At: 100 * ms, K: "power", A: p.Procs[1+i].Host, Keep: true})
		}
		at := sec
		var lst []Op
		for i, m := 0, 4+r.n(20); i < m; i++ {
			o := Op{K: r2s(r.n(2), "ping", "send"), ID: g.op(), To: 1 + r.n(k), Size: 30, RSize: 10, TO: 1000 * sec}
			g.addThread(0, at, o)
			w := 4 * sec
			if i == 0 {
				w = at + 3*sec
			}
			lst = append(lst, Op{K: "list", Wait: w})
			at += 4 * sec
		}
		g.addThread(0, 0, lst...)
		p.End = 1300 * sec
	case 0: // sequential outbound
		g.calmNet()
		l := 1 + r.n(4)
		k := l + 1 + r.n(4)
		g.nodes(1 + k)
		p.Procs[0].MaxIn, p.Procs[0].MaxOut = uint(l), uint(l)
		p.X["lru"] = 1
		var ops []Op
		for i, m := 0, 6+r.n(24); i < m; i++ {
			o := g.traffic(1 + r.n(k))
			o.Back = 0
			o.Delay = 0
			o.Wait = r.pick64(0, 0, 100*ms, 3*sec)
			ops = append(ops, o)
			if r.p(1, 2) {
				ops = append(ops, Op{K: "list", Wait: r.pick64(0, 2*sec)})
			}
		}
		ops = append(ops, Op{K: "list", Wait: 3 * sec})
		g.addThread(0, 300*ms, ops...)
		p.End = 400 * sec
	case 1: // sequential inbound
		g.calmNet()
		l := 1 + r.n(4)
		k := l + 1 + r.n(3)
		g.nodes(1 + k)
		p.Procs[0].MaxIn, p.Procs[0].MaxOut = uint(l), uint(r.pick(l, l, 1, l+1+r.n(3), 128)) // it dials nobody
		p.X["lru"] = 2
		strangers := 0
		if r.p(1, 2) {
			strangers = g.atk(7000, bPostServe)
		}
		var pool []int
		var lst []Op
		at := sec
		for i, m := 0, 4+r.n(14); i < m; i++ {
			// Only peers that are not connected dial.
			var free []int
			for q := 1; q <= k; q++ {
				in := false
				for _, x := range pool {
					in = in || x == q
				}
				if !in {
					free = append(free, q)
				}
			}
			q := free[r.n(len(free))]
			if strangers > 0 && r.p(1, 2) {
				// Connections that are not made yet also take slots.
				for j, m := 0, 1+r.n(2); j < m; j++ {
					g.addThread(strangers, at-500*ms-int64(j)*100*ms, Op{K: "atk", ID: g.op(), To: 0, N: r.pick(bSilent, bSessThenSilent), Async: true})
					pool = append([]int{-1}, pool...)
				}
			}
			o := Op{K: r2s(r.n(2), "ping", "req"), ID: g.op(), To: 0, Size: 30, RSize: 10, Ans: 1}
			g.addThread(q, at, o)
			pool = append([]int{q}, pool...)
			if len(pool) > l {
				pool = pool[:l]
			}
			lst = append(lst, Op{K: "list", Wait: at + 15*sec - 300*ms})
			at += 20 * sec
		}
		for i := len(lst) - 1; i > 0; i-- {
			lst[i].Wait -= lst[i-1].Wait
			lst[i].Wait = 20 * sec
		}
		g.addThread(0, 300*ms, lst...)
		p.End = at + 100*sec
		p.Sched.StallMax = 0
		p.Sched.Stall = 0
	case 2, 3: // pressure
		n := 2 + r.n(4)
		g.nodes(n)
		l := uint(1 + r.n(3))
		for i := range p.Procs {
			if i == 0 || r.p(1, 2) {
				p.Procs[i].MaxIn, p.Procs[i].MaxOut = l, l
				if r.p(1, 3) { // no lower: see KNOWN_FINDINGS.txt
					p.Procs[i].MaxOut = uint(r.pick(int(l)+1, 2*int(l), 128))
				}
			}
		}
		for t, nt := 0, 2+r.n(7); t < nt; t++ {
			pr := r.n(n)
			if r.p(1, 2) {
				pr = 0
			}
			var ops []Op
			for k, m := 0, 1+r.n(8); k < m; k++ {
				to := g.other(pr)
				if r.p(1, 2) && pr != 0 {
					to = 0
				}
				o := g.traffic(to)
				o.TO = 60 * sec
				g.maybeTO(&o, 1, 6)
				o.Wait = g.wait()
				ops = append(ops, o)
				if r.p(1, 6) {
					ops = append(ops, Op{K: "list"})
				}
			}
			g.addThread(pr, 200*ms+r.n64(r.pick64(2, 100*ms, 2*sec)), ops...)
		}
		if r.p(1, 2) {
			for k, m := 0, 1+r.n(3); k < m; k++ {
				g.linkFault(200*ms+r.n64(4*sec), r.p(1, 2))
			}
		}
		p.End = 1300 * sec
	case 4: // sharing
		g.calmNet()
		n := 2 + r.n(2)
		g.nodes(n)
		p.X["share"] = 1
		at := 300 * ms
		for t, nt := 0, 2+r.n(8); t < nt; t++ {
			var ops []Op
			for k, m := 0, 1+r.n(4); k < m; k++ {
				o := g.traffic(1 + r.n(n-1))
				o.Wait = r.pick64(0, 0, g.wait())
				ops = append(ops, o)
			}
			a := at
			if r.p(1, 4) {
				a += r.n64(300 * ms)
			}
			g.addThread(0, a, ops...)
		}
		p.End = 500 * sec
	default: // slots freed, ports reused
		n := 2 + r.n(2)
		g.nodes(n)
		if r.p(1, 2) {
			p.Net.EphLo = 40000
			p.Net.EphHi = 40000 + r.n(3)
		}
		for i := range p.Procs {
			if r.p(1, 3) {
				p.Procs[i].MaxIn, p.Procs[i].MaxOut = 2, 2
			}
		}
		for t, nt := 0, 1+r.n(5); t < nt; t++ {
			pr := r.n(n)
			var ops []Op
			for k, m := 0, 2+r.n(8); k < m; k++ {
				o := g.traffic(g.other(pr))
				o.TO = 30 * sec
				o.Wait = r.pick64(0, g.wait(), r.n64(10*sec))
				ops = append(ops, o)
				if r.p(1, 4) {
					ops = append(ops, Op{K: "list", Wait: r.pick64(0, 5*sec)})
				}
				if r.p(1, 4) {
					ops = append(ops, Op{K: "cclose", N: r.n(3), Wait: g.wait()})
				}
			}
			g.addThread(pr, 200*ms+r.n64(2*sec), ops...)
		}
		for k, m := 0, r.n(5); k < m; k++ {
			g.linkFault(200*ms+r.n64(20*sec), true)
		}
		p.End = 1500 * sec
	}
}

func (g *genr) genN10() {
	r := g.r
	p := g.p
	n := r.pick(1, 2, 2, 3)
	g.nodes(n)
	span := r.pick64(5*ms, 100*ms, 2*sec)
	var slow int64
	if r.p(1, 4) {
		idle := r.pick64(sec, 5*sec)
		for i := range p.Procs {
			p.Procs[i].IdleNs = idle
		}
	}
	if r.p(1, 4) {
		l := uint(1 + r.n(2))
		for i := range p.Procs {
			p.Procs[i].MaxIn, p.Procs[i].MaxOut = l, l
		}
	}
	if n > 1 && r.p(1, 6) { // the second one cannot listen
		p.Procs[1].Host, p.Procs[1].Port, p.Procs[1].Bind = p.Procs[0].Host, p.Procs[0].Port, p.Procs[0].Bind
		p.Procs[1].Pub = p.Procs[0].Pub
		p.Procs[1].Start = p.Procs[0].Start + 20*ms
	}
	if r.p(1, 6) {
		p.Procs[r.n(n)].NoAuto = true
	}
	hostile := -1
	if r.p(1, 3) {
		hostile = g.atk(7000, g.failing(), bOwnID+r.n(bPostLast-bOwnID), g.failing())
	}
	for t, nt := 0, r.n(7); t < nt; t++ {
		pr := r.n(n)
		var ops []Op
		for k, m := 0, 1+r.n(6); k < m; k++ {
			to := g.other2(pr, n)
			o := g.traffic(to)
			if hostile >= 0 && r.p(1, 4) {
				o = Op{K: r2s(r.n(3), "ping", "send", "req"), ID: g.op(), To: hostile, Size: 20, RSize: 4}
			}
			if n == 1 && hostile < 0 {
				o = Op{K: "ping", ID: g.op(), S: r2s(r.n(2), "10.9.9.9:80", fmt.Sprintf("%s:7", hostIP(0)))}
			}
			if o.K == "req" && r.p(1, 8) {
				o.Ans = 0
			}
			if r.p(1, 10) {
				o.Delay = r.n64(5 * sec)
			}
			slow += o.Delay
			g.maybeTO(&o, 1, 3)
			o.Wait = g.wait()
			ops = append(ops, o)
			if r.p(1, 8) {
				ops = append(ops, Op{K: "cclose", N: r.n(3)})
			}
		}
		g.addThread(pr, 100*ms+r.n64(span), ops...)
	}
	if hostile >= 0 && r.p(1, 2) {
		for k, m := 0, 1+r.n(3); k < m; k++ {
			b := g.failing()
			if r.p(1, 2) {
				b = bOwnID + r.n(bPostLast-bOwnID)
			}
			g.addThread(hostile, 100*ms+r.n64(span), Op{K: "atk", ID: g.op(), To: r.n(n), N: b, Async: true})
		}
	}
	// The closing, at any moment.
	for i := 0; i < n; i++ {
		if i > 0 && r.p(1, 2) {
			continue
		}
		c := r.pick(1, 1, 2, 3)
		at := 100*ms + r.n64(r.pick64(span, span*2, span*4+sec))
		if r.p(1, 8) {
			at = r.n64(60 * ms)
		}
		for k := 0; k < c; k++ {
			a := at
			if r.p(1, 2) {
				a += r.n64(r.pick64(ms, 100*ms, 3*sec))
			}
			ops := []Op{{K: "close"}}
			if r.p(1, 3) {
				o := g.traffic(g.other2(i, n))
				o.TO = 10 * sec
				if n > 1 {
					ops = append(ops, o)
				}
			}
			g.addThread(i, a, ops...)
		}
		if p.Procs[i].NoAuto && r.p(1, 2) {
			g.addThread(i, r.n64(at*2), Op{K: "listen"})
		}
	}
	for k, m := 0, r.n(3); k < m; k++ {
		at := 100*ms + r.n64(span*3)
		switch r.n(5) {
		case 0:
			g.flt(Fault{At: at, K: "accerr", A: r.n(n), N: 1 + r.n(4)})
		case 1:
			g.flt(Fault{At: at, K: "dialerr", A: -1, B: -1, N: 1 + r.n(3), X: r.pick64(111, 24), Dur: r.n64(sec)})
		default:
			g.linkFault2(at, n)
		}
	}
	w := int64(1)
	g.slowCallbacks(n, 31, sec)
	p.X["closein"] = slow*w + 20*sec
	p.End = 1500 * sec
}

// linkFault2 is linkFault without crashes, among the first n processes.
func (g *genr) linkFault2(at int64, n int) {
	r := g.r
	p := g.p
	a := r.n(n)
	b := g.other2(a, n)
	ha, hb := p.Procs[a].Host, p.Procs[b].Host
	switch r.n(4) {
	case 0:
		g.flt(Fault{At: at, K: "rst", A: ha, B: hb, M: r.n(3)})
	case 1:
		if ha != hb {
			g.flt(Fault{At: at, K: "part", A: ha, B: hb, M: r.n(2), Dur: r.pick64(100*ms, 3*sec, 20*sec)})
		}
	case 2:
		g.flt(Fault{At: at, K: "stall", A: a, Dur: r.pick64(50*ms, sec, 5*sec)})
	case 3:
		g.flt(Fault{At: at, K: "slowlink", X: r.pick64(100*ms, sec), Dur: r.pick64(500*ms, 5*sec)})
	}
}

func (g *genr) genN11() {
	r := g.r
	p := g.p
	n := r.pick(2, 2, 3)
	g.nodes(n)
	span := r.pick64(5*ms, 100*ms, 2*sec)
	for i := range p.Procs {
		p.Procs[i].NProto = 1 + r.n(3)
		if r.p(1, 8) {
			p.Procs[i].IdleNs = r.pick64(sec, 5*sec)
		}
		if r.p(1, 4) {
			p.Procs[i].MaxIn, p.Procs[i].MaxOut = 1, 1
		}
	}
	hostile := -1
	if r.p(1, 3) {
		hostile = g.atk(7000, g.failing(), bOwnID+r.n(bPostLast-bOwnID), g.failing())
	}
	for t, nt := 0, 1+r.n(6); t < nt; t++ {
		pr := r.n(n)
		var ops []Op
		for k, m := 0, 1+r.n(7); k < m; k++ {
			switch r.n(8) {
			case 0, 1:
				ops = append(ops, Op{K: "cclose", N: r.pick(0, 1, 2, -1), S: r2s(r.n(3), "", "o", "i"), Wait: g.wait()})
			case 2:
				ops = append(ops, Op{K: "waitc", N: r.pick(0, 1, -1), Wait: g.wait()})
			case 3:
				ops = append(ops, Op{K: "waitr", N: r.pick(0, 1, -1), Wait: g.wait()})
			default:
				o := g.traffic(g.other2(pr, n))
				if hostile >= 0 && r.p(1, 5) {
					o = Op{K: "ping", ID: g.op(), To: hostile}
				}
				o.TO = 20 * sec
				g.maybeTO(&o, 1, 5)
				if r.p(1, 12) && o.Size >= 4 {
					o.Err = 1
				}
				o.Wait = g.wait()
				ops = append(ops, o)
			}
		}
		g.addThread(pr, 200*ms+r.n64(span), ops...)
	}
	if hostile >= 0 {
		for k, m := 0, 1+r.n(3); k < m; k++ {
			b := g.failing()
			if r.p(1, 2) {
				b = bOwnID + r.n(bPostLast-bOwnID)
			}
			g.addThread(hostile, 200*ms+r.n64(span*2), Op{K: "atk", ID: g.op(), To: r.n(n), N: b, Async: true})
		}
	}
	for k, m := 0, r.n(4); k < m; k++ {
		g.linkFault(200*ms+r.n64(span*3), true)
	}
	if r.p(1, 5) {
		g.addThread(r.n(n), 200*ms+r.n64(span*4), Op{K: "close"})
	}
	g.slowCallbacks(n, 31, sec)
	if r.p(1, 6) { // all workers are busy for long while connections end
		to := r.n(n)
		p.Procs[to].Workers = 1
		pr := g.other2(to, n)
		ops := []Op{{K: "send", ID: g.op(), To: to, Size: 20, RSize: 4, Delay: 100*sec + r.n64(300*sec)}}
		for k, m := 0, 1+r.n(4); k < m; k++ {
			ops = append(ops, Op{K: "send", ID: g.op(), To: to, Size: 20, RSize: 4, Wait: r.n64(100 * ms)})
		}
		g.addThread(pr, 200*ms+r.n64(span), ops...)
		g.addThread(to, 500*ms+r.n64(span+5*sec), Op{K: "cclose", N: -1}, Op{K: "cclose", N: 0, Wait: g.wait()}, Op{K: "cclose", N: 0, Wait: g.wait()})
	}
	p.End = 1500 * sec
}

// slowCallbacks makes protocol callbacks of the first n processes slow.
func (g *genr) slowCallbacks(n, mask int, max int64) {
	r := g.r
	if !r.p(1, 4) {
		return
	}
	for i := 0; i < n; i++ {
		if r.p(1, 2) {
			g.p.Procs[i].CbSlow = 1 + r.n64(r.pick64(5*ms, 100*ms, max))
			g.p.Procs[i].CbMask = (1 + r.n(31)) & mask
		}
	}
}

func (g *genr) genN12() {
	r := g.r
	p := g.p
	n := 3
	g.nodes(n)
	calm := r.p(2, 3)
	if calm {
		p.X["calm"] = 1
	}
	var slow int64
	for i := range p.Procs {
		p.Procs[i].Workers = uint(r.pick(1, 1, 2, 3, 4))
		p.Procs[i].NHand = 1 + r.n(3)
	}
	span := r.pick64(20*ms, 500*ms, 3*sec)
	for t, nt := 0, 2+r.n(5); t < nt; t++ {
		pr := r.n(n)
		var ops []Op
		to := g.other(pr)
		for k, m := 0, 1+r.n(8); k < m; k++ {
			o := g.traffic(to)
			if o.K != "ping" && o.Size >= 4 && r.p(1, 2) && pr != 2 {
				o.Err = 1 + r.n(p.Procs[to].NHand)
				if r.p(1, 2) {
					o.ErrK = r.n(len(handlerErrs))
				}
				o.Back = 0
			}
			o.TO = 100 * sec
			slow += o.Delay
			o.Wait = g.wait()
			ops = append(ops, o)
		}
		g.addThread(pr, 200*ms+r.n64(span), ops...)
	}
	if !calm {
		for k, m := 0, 1+r.n(3); k < m; k++ {
			g.linkFault(200*ms+r.n64(span*3), r.p(1, 2))
		}
	}
	p.X["slow"] = slow
	if calm {
		g.slowCallbacks(n, 6, sec)
	} else {
		g.slowCallbacks(n, 31, sec)
	}
	if r.p(1, 4) { // it takes long to tell process 0 of the end of a connection
		p.Procs[0].DscSlow = 700*sec + r.n64(200*sec)
		for i := range p.Thr {
			if p.Thr[i].Proc == 0 {
				p.Thr[i].Ops = nil
			}
		}
	}
	// Full capacity, long after.
	for to := 0; to < n; to++ {
		var ops []Op
		ops = append(ops, Op{K: "ping", ID: g.op(), To: to, TO: 60 * sec})
		ops = append(ops, Op{K: "ping", ID: g.op(), To: to, TO: 60 * sec, Wait: 5 * sec})
		ops = append(ops, Op{K: "ping", ID: g.op(), To: to, TO: 60 * sec, Wait: 5 * sec})
		for k := 0; k < int(p.Procs[to].Workers); k++ {
			ops = append(ops, Op{K: "send", ID: g.op(), To: to, Size: 20, RSize: 4, N: 77, Delay: 120 * sec})
		}
		from := g.other(to)
		if p.Procs[0].DscSlow > 0 && from == 0 {
			if to == 1 {
				from = 2
			} else {
				from = 1
			}
		}
		g.addThread(from, 600*sec, ops...)
	}
	if r.p(1, 2) && p.Procs[0].DscSlow == 0 {
		g.addThread(r.n(n), 1300*sec, Op{K: "close"})
	}
	p.X["closein"] = 20 * sec
	p.End = 1500 * sec
}

// tail makes the network hold back the ends of messages.
func (g *genr) tail(T *int64) {
	if *T > 10*sec {
		*T = 10 * sec
	}
	g.p.Net.Tail = *T / 5
}

// gap is the time between two messages on a connection that is to be kept.
func (g *genr) gap(T int64) int64 {
	if g.p.Net.Tail > 0 {
		return T/10 + g.r.n64(T/8)
	}
	return T/10 + g.r.n64(T/2)
}

func (g *genr) genN13() {
	r := g.r
	p := g.p
	n := 2
	if r.p(1, 4) {
		n = 3
	}
	g.nodes(n)
	p.Net.SndBuf, p.Net.RcvBuf = 65536, 65536
	T := r.pick64(200*ms, sec, 3*sec, 10*sec, 60*sec)
	mode := r.n(5)
	switch mode {
	case 0: // an active connection is kept, sparse answers arrive
		g.calmNet()
		if p.Net.LatMax > T/40 {
			p.Net.LatMin, p.Net.LatMax = 20e3, T/40
		}
		p.Sched.Stall = 0
		if r.p(1, 3) {
			g.tail(&T)
		}
		p.Procs[1].IdleNs = T
		if r.p(1, 2) { // the other way round: the dialler has the timeout
			p.X["steady"] = 1
		}
		for i := range p.Procs {
			p.Procs[i].Start = 0
		}
		var ops []Op
		m := 10 + r.n(20)
		for k := 0; k < m; k++ {
			o := g.send(1)
			o.Size = 4 + r.n(200)
			o.Wait = g.gap(T)
			if r.p(1, 6) {
				o.Back = 1
			}
			if k == m-1 {
				o.Back = 1 + r.n(2)
			}
			if r.p(1, 10) {
				o = g.req(1)
				o.Wait = g.gap(T)
			}
			ops = append(ops, o)
		}
		g.addThread(0, 300*ms, append([]Op{{K: "ping", ID: g.op(), To: 1}}, ops...)...)
		p.X["keep"] = 300*ms + int64(m)*T/10
		p.End = 300*sec + int64(m)*T
	case 1: // the dialler is the one with the timeout and gets frequent answers
		g.calmNet()
		if p.Net.LatMax > T/40 {
			p.Net.LatMin, p.Net.LatMax = 20e3, T/40
		}
		p.Sched.Stall = 0
		if r.p(1, 3) {
			g.tail(&T)
		}
		p.Procs[0].IdleNs = T
		if r.p(1, 2) {
			p.Procs[1].IdleNs = T
		}
		for i := range p.Procs {
			p.Procs[i].Start = 0
		}
		m := 10 + r.n(20)
		var ops []Op
		for k := 0; k < m; k++ {
			o := g.send(1)
			o.Size, o.RSize = 4+r.n(200), 4+r.n(200)
			o.Back = 1 + r.n(2)
			if r.p(1, 2) {
				o = g.req(1)
			}
			o.Wait = g.gap(T)
			ops = append(ops, o)
		}
		g.addThread(0, 300*ms, append([]Op{{K: "ping", ID: g.op(), To: 1}}, ops...)...)
		p.X["keep"] = 300*ms + int64(m)*T/10
		p.End = 300*sec + int64(m)*T
	case 2: // no timeout: silence for hours
		for i := range p.Procs {
			p.Procs[i].IdleNs = r.pick64(0, -1)
		}
		p.X["never"] = 1
		var ops []Op
		for k, m := 0, 2+r.n(3); k < m; k++ {
			o := g.traffic(1)
			o.Wait = r.pick64(0, sec, 60*sec, 3600*sec)
			ops = append(ops, o)
		}
		g.addThread(0, 300*ms, ops...)
		p.End = 5 * 3600 * sec
	case 3: // steady: any pattern of traffic without faults
		g.calmNet()
		p.X["steady"] = 1
		if r.p(1, 3) {
			g.tail(&T)
		}
		for i := range p.Procs {
			p.Procs[i].IdleNs = r.pick64(0, T, T*2)
		}
		for t, nt := 0, 1+r.n(4); t < nt; t++ {
			pr := r.n(n)
			var ops []Op
			for k, m := 0, 2+r.n(6); k < m; k++ {
				o := g.traffic(g.other(pr))
				o.Size = 4 + r.n(200)
				o.TO = 100 * sec
				o.Delay = 0
				o.Wait = r.n64(T * 3 / 2)
				ops = append(ops, o)
			}
			g.addThread(pr, 300*ms+r.n64(T), ops...)
		}
		p.End = 900 * sec
	default: // silence of every kind is reclaimed
		for i := range p.Procs {
			p.Procs[i].IdleNs = T
			p.Procs[i].MaxDial = uint(1 + r.n(2))
		}
		a := g.atk(7000, r.pick(bSilent, bSessThenSilent, bSessPartial, bPostPartial, bPostServe, bPostHalfClose, bPostReqFlood), r.pick(bSilent, bPostPartial, bPostServe, bSessThenSilent))
		for t, nt := 0, 1+r.n(4); t < nt; t++ {
			pr := r.n(n)
			var ops []Op
			for k, m := 0, 1+r.n(4); k < m; k++ {
				o := g.traffic(g.other2(pr, n))
				if r.p(1, 2) {
					o = Op{K: r2s(r.n(2), "ping", "send"), ID: g.op(), To: a, Size: 20, RSize: 4}
				}
				o.TO = 200 * sec
				o.Delay = 0
				o.Wait = r.n64(T * 2)
				ops = append(ops, o)
			}
			g.addThread(pr, 300*ms+r.n64(T), ops...)
		}
		for k, m := 0, 1+r.n(3); k < m; k++ {
			g.addThread(a, 300*ms+r.n64(2*T), Op{K: "atk", ID: g.op(), To: r.n(n), N: r.pick(bSilent, bSessThenSilent, bSessPartial, bPostPartial, bPostServe, bPostHalfClose, bPostReqFlood), Async: true})
		}
		for k, m := 0, r.n(3); k < m; k++ {
			x, y := r.n(len(p.Procs)), r.n(len(p.Procs))
			switch r.n(3) {
			case 0:
				if p.Procs[x].Host != p.Procs[y].Host {
					g.flt(Fault{At: 300*ms + r.n64(3*T), K: "part", A: p.Procs[x].Host, B: p.Procs[y].Host, M: r.n(2)})
				}
			case 1:
				if p.Procs[0].Host != p.Procs[1].Host {
					g.flt(Fault{At: 300*ms + r.n64(3*T), K: "power", A: p.Procs[r.n(n)].Host})
				}
			case 2:
				g.flt(Fault{At: 300*ms + r.n64(3*T), K: "stall", A: r.n(n), Dur: r.n64(T)})
			}
		}
		p.End = 1500*sec + 10*T
	}
	p.X["slow"] = 2 * sec
}

func (g *genr) genN14() {
	r := g.r
	p := g.p
	n := r.pick(2, 2, 3)
	g.nodes(n)
	if r.p(1, 4) {
		p.Net.EphLo = 40000
		p.Net.EphHi = 40000 + 3*n + r.n(4)
	}
	for i := range p.Procs {
		if r.p(1, 4) {
			p.Procs[i].IdleNs = r.pick64(2*sec, 10*sec)
		}
		if r.p(1, 5) {
			p.Procs[i].MaxIn, p.Procs[i].MaxOut = uint(n), uint(n)
		}
	}
	if p.Sched.StallMax > 120*ms { // far below the idle timeouts
		p.Sched.StallMax = 120 * ms
	}
	span := r.pick64(sec, 5*sec, 60*sec)
	for t, nt := 0, 1+r.n(5); t < nt; t++ {
		pr := r.n(n)
		var ops []Op
		for k, m := 0, 1+r.n(8); k < m; k++ {
			o := g.traffic(g.other(pr))
			o.TO = r.pick64(500*ms, 5*sec, 60*sec)
			o.Wait = r.pick64(g.wait(), r.n64(span/4))
			ops = append(ops, o)
			if r.p(1, 10) {
				ops = append(ops, Op{K: "cclose", N: r.n(3)})
			}
		}
		g.addThread(pr, 200*ms+r.n64(span/2), ops...)
	}
	for k, m := 0, 1+r.n(5); k < m; k++ {
		at := 200*ms + r.n64(span)
		switch r.n(8) {
		case 0:
			g.flt(Fault{At: at, K: "accerr", A: r.n(n), N: r.pick(1+r.n(5), 1+r.n(5), 15+r.n(40))})
		case 1:
			g.flt(Fault{At: at, K: "dialerr", A: -1, B: -1, N: 1 + r.n(4), X: r.pick64(111, 101, 24, 99), Dur: r.n64(3 * sec)})
		case 2: // a long partition or outage
			a := r.n(n)
			b := g.other(a)
			if p.Procs[a].Host != p.Procs[b].Host {
				g.flt(Fault{At: at, K: "part", A: p.Procs[a].Host, B: p.Procs[b].Host, M: r.n(2), Dur: r.pick64(30*sec, 200*sec, 400*sec)})
			}
		case 3:
			if g.multiHost() {
				a := r.n(n)
				g.flt(Fault{At: at, K: "power", A: p.Procs[a].Host})
				g.flt(Fault{At: at + r.pick64(sec, 100*sec, 300*sec), K: "restart", A: a})
			}
		default:
			g.linkFault(at, true)
		}
	}
	T0 := 600 * sec
	p.X["repaired"] = T0
	for i := range p.Procs {
		g.flt(Fault{At: T0 - 10*sec, K: "restart", A: i, Keep: true})
	}
	g.flt(Fault{At: T0 - 10*sec, K: "healall", Keep: true})
	g.flt(Fault{At: T0 - 10*sec, K: "calm", Keep: true})
	own := r.p(1, 4) // also from each node to itself
	for a := 0; a < n; a++ {
		for b := 0; b < n; b++ {
			if a == b && !own {
				continue
			}
			var ops []Op
			for k := 0; k < 8; k++ {
				o := g.req(b)
				if r.p(1, 3) {
					o = g.send(b)
					if o.Size < 4 {
						o.Size = 4
					}
				}
				if o.Size > 5000 {
					o.Size = 5000
				}
				o.TO = 30 * sec
				o.N = 88
				o.Wait = 15 * sec
				ops = append(ops, o)
			}
			g.addThread(a, T0+5*sec, ops...)
		}
	}
	p.End = T0 + 900*sec
}

func (g *genr) genN15() {
	r := g.r
	p := g.p
	n := r.pick(2, 2, 3)
	g.nodes(n)
	p.X["wrlog"] = 1
	for i := range p.Procs {
		p.Procs[i].NProto = 1 + r.n(3)
	}
	hostile := -1
	if r.p(1, 4) {
		hostile = g.atk(7000, g.failing(), bOwnID+r.n(bPostLast-bOwnID))
	}
	span := r.pick64(5*ms, 200*ms, 2*sec)
	for t, nt := 0, 1+r.n(6); t < nt; t++ {
		pr := r.n(n)
		to := g.other2(pr, n)
		var ops []Op
		for k, m := 0, 1+r.n(10); k < m; k++ {
			o := g.traffic(to)
			if hostile >= 0 && r.p(1, 6) {
				o = Op{K: r2s(r.n(2), "ping", "send"), ID: g.op(), To: hostile, Size: 20, RSize: 4}
			}
			if o.K == "req" {
				g.tiny(&o)
			}
			o.TO = 100 * sec
			o.Wait = g.wait()
			if r.p(1, 3) {
				o.Wait = 0
			}
			ops = append(ops, o)
		}
		g.addThread(pr, 200*ms+r.n64(span), ops...)
	}
	if hostile >= 0 {
		g.addThread(hostile, 200*ms+r.n64(span), Op{K: "atk", ID: g.op(), To: r.n(n), N: bOwnID + r.n(bPostLast-bOwnID), Async: true})
	}
	if r.p(1, 3) {
		for k, m := 0, 1+r.n(2); k < m; k++ {
			g.linkFault(200*ms+r.n64(span*3), r.p(1, 2))
		}
	}
	g.slowCallbacks(n, 31, 100*ms)
	p.End = 900 * sec
}
