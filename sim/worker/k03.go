package main

import (
	"encoding/hex"
	"fmt"
	"strings"

	"github.com/perlin-network/noise"
)

// findOp is a lookup with random settings.
func (g *genr) findOp(targets ...string) Op {
	r := g.r
	o := Op{K: "find", ID: g.op(), S: targets[r.n(len(targets))]}
	if o.S == "r" {
		o.S = fmt.Sprint("r", o.ID)
	}
	if r.p(1, 2) {
		o.N = r.pick(1, 2, 3, 16, 40)
	}
	if r.p(1, 2) {
		o.Ans = 1 + r.n(6)
	}
	if r.p(1, 2) {
		o.Back = 1 + r.n(9)
	}
	return o
}

func (g *genr) genK03() {
	r := g.r
	p := g.p
	if r.p(1, 3) {
		// A fault-free overlay.
		p.Scen = "exact"
		g.gentle()
		n := 2 + r.n(8)
		hub := 3
		if r.p(1, 12) { // more peers than an answer holds
			n = 18 + r.n(12)
			hub = r.n(3) + r.n(2)
		}
		for i := 0; i < n; i++ {
			g.kadProc(false)
			p.Procs[i].IdleNs = -1
		}
		for i := 1; i < n; i++ {
			if r.p(1, 12) {
				continue
			}
			to := r.n(i) // a random tree
			shape := r.n(3)
			if hub < 3 && r.p(3, 4) {
				shape = hub
			}
			switch shape {
			case 0:
				to = i - 1 // a chain
			case 1:
				to = 0
			}
			a, b := i, to
			if r.p(1, 2) {
				a, b = b, a
			}
			g.addThread(a, 200*ms+r.n64(8*sec), Op{K: "kping", ID: g.op(), To: b, TO: 10 * sec})
		}
		for i := 0; i < n; i++ {
			g.addThread(i, 19*sec, Op{K: "ktab", N: 1})
		}
		for k, m := 0, 1+r.n(5); k < m; k++ {
			o := g.findOp("r", "r", fmt.Sprint("p", r.n(n)), fmt.Sprint("n", r.n(n)))
			if r.p(1, 6) {
				o.K, o.S = "discover", ""
			}
			g.addThread(r.n(n), 20*sec+r.n64(r.pick64(1, 500*ms, 20*sec)), o)
		}
		p.End = 600 * sec
		return
	}
	// Peers that fail and lie.
	p.Scen = "bad"
	v := g.kadProc(false)
	m := 3 + r.n(13)
	real := r.p(1, 3)
	fakes := r.pick(0, 0, 2, 10, 60, 255)
	honest := r.n(4)
	L := r.pick64(500*ms, 3*sec, 3*sec)
	for k := 0; k < m; k++ {
		if real && r.p(1, 4) {
			g.kadProc(false)
			continue
		}
		x := map[string]int64{"know": int64(r.n(8)), "dup": int64(r.n(2)), "delay": r.n64(3 * L)}
		if r.n(4) >= honest {
			x["mode"] = int64(r.n(kaLast))
			x["pingok"] = int64(r.n(2))
			if r.p(1, 3) {
				x["from"] = 10*sec + r.n64(15*sec)
			}
		}
		if r.p(1, 3) {
			x["fake"] = int64(r.n(fakes + 1))
		}
		if r.p(1, 4) {
			x["spoof"] = int64(1 + r.n(20))
		}
		g.kp(x)
	}
	m = len(p.Procs) - 1
	for k, q := 0, 1+r.n(8); k < q; k++ {
		at := 200*ms + r.n64(10*sec)
		to := 1 + r.n(m)
		if p.Procs[to].Kind == "kp" && r.p(1, 2) {
			g.addThread(to, at, Op{K: "kdial", ID: g.op(), To: v})
		} else {
			g.addThread(v, at, Op{K: "kping", ID: g.op(), To: to, TO: 10 * sec})
		}
	}
	for i := range p.Procs {
		if pr := &p.Procs[i]; pr.Kind == "" && i > 0 && r.p(1, 2) {
			g.addThread(i, 200*ms+r.n64(10*sec), Op{K: "kping", ID: g.op(), To: 1 + r.n(m), TO: 10 * sec})
		}
	}
	lookups := 1 + r.n(4)
	for k := 0; k < lookups; k++ {
		o := g.findOp("r")
		if L != 3*sec || r.p(1, 3) {
			o.Delay = L
		}
		pr := v
		if r.p(1, 4) {
			pr = r.n(len(p.Procs))
			if p.Procs[pr].Kind != "" {
				pr = v
			}
		}
		g.addThread(pr, r.pick64(12*sec, 12*sec+r.n64(10*sec)), o)
	}
	for k, q := 0, r.n(4); k < q; k++ {
		i := 1 + r.n(m)
		at := 11*sec + r.n64(12*sec)
		switch r.n(5) {
		case 0:
			g.flt(Fault{At: at, K: "power", A: p.Procs[i].Host})
		case 1:
			g.flt(Fault{At: at, K: "rst", A: 0, B: p.Procs[i].Host, M: r.n(3)})
		case 2:
			g.flt(Fault{At: at, K: "part", A: 0, B: p.Procs[i].Host, M: r.n(2), Dur: r.pick64(0, 3*sec, 20*sec)})
		case 3:
			g.flt(Fault{At: at, K: "stall", A: i, Dur: r.pick64(sec, 5*sec)})
		default:
			g.flt(Fault{At: at, K: "kill", A: i})
			if r.p(1, 3) {
				g.flt(Fault{At: at + r.n64(5*sec), K: "restart", A: i})
			}
		}
	}
	if r.p(1, 4) {
		g.burst()
		for i := range p.Procs {
			if p.Procs[i].Kind == "kp" && r.p(2, 3) {
				p.Procs[i].X["mode"] = kaGood
				p.Procs[i].X["know"] = int64(5 + r.n(6))
			}
		}
	}
	d := int64(len(p.Procs))
	for i := range p.Procs {
		d += p.Procs[i].X["fake"] + p.Procs[i].X["spoof"]
	}
	p.X["ids"] = d
	p.End = 100*sec + d*3*sec + 100*sec
}

func keyFromHex(s string) (k noise.PublicKey) {
	b, _ := hex.DecodeString(s)
	copy(k[:], b)
	return
}

func (h *H) oracleK03() {
	p := h.p
	res := map[int64][]*int64{}
	txt := map[int64][]string{}
	asked := map[string]int{}
	ans := map[string]int64{}
	for i := range h.ev {
		e := &h.ev[i]
		switch e.K {
		case kRes:
			res[e.B] = append(res[e.B], &e.C)
			txt[e.B] = append(txt[e.B], e.S)
		case kReq:
			if e.B == opFind {
				k := fmt.Sprint(e.A, " ", e.C, " ", e.S)
				if asked[k]++; asked[k] == 2 && p.Scen == "bad" {
					h.bad("asked-twice", "process %d was asked twice by process %d for %.12s", e.A, e.C, e.S)
				}
			}
		case kAns:
			if e.B == opFind {
				ans[fmt.Sprint(e.A, " ", e.S)] |= 1 << uint(e.C)
			}
		}
	}
	for _, c := range h.calls {
		if c.kind != "find" && c.kind != "discover" || c.dead {
			continue
		}
		L := 3 * sec
		if c.op.Delay > 0 {
			L = c.op.Delay
		}
		bound := p.x("ids")*L + h.slack() + 10*sec
		if p.Scen == "exact" {
			bound = int64(len(p.Procs))*L + h.slack()
		}
		end := c.et
		if !c.done {
			end = startTime + p.End
		}
		if end-c.bt > bound {
			h.bad("unbounded", "lookup op%d of process %d took more than %.1fs (done %v)", c.op.ID, c.proc, float64(end-c.bt)/1e9, c.done)
		}
		if !c.done {
			continue
		}
		h.probe("lookup judged")
		k := c.op.N
		if k <= 0 {
			k = 16
		}
		l := res[c.id]
		if len(l) > k {
			h.bad("too-many", "lookup op%d of process %d returned %d peers, %d were wanted", c.op.ID, c.proc, len(l), k)
		}
		target := procPub[c.proc]
		thex := hex.EncodeToString(target[:])
		if c.kind == "find" {
			thex = c.addr
			target = keyFromHex(c.addr)
		}
		seen := map[int64]bool{}
		for i, x := range l {
			q := *x
			switch {
			case q < 0:
				h.bad("unanswered", "lookup op%d of process %d returned an identity nobody has: %s", c.op.ID, c.proc, txt[c.id][i])
				continue
			case int(q) == c.proc:
				h.bad("self", "lookup op%d of process %d returned the node itself", c.op.ID, c.proc)
			case seen[q]:
				h.bad("twice", "lookup op%d of process %d returned process %d twice", c.op.ID, c.proc, q)
			}
			seen[q] = true
			if i > 0 && *l[i-1] >= 0 && !closer(target, procPub[*l[i-1]], procPub[q]) {
				h.bad("order", "lookup op%d of process %d: process %d comes before process %d, which is closer", c.op.ID, c.proc, *l[i-1], q)
			}
			if p.Procs[q].Kind == "kp" {
				m := ans[fmt.Sprint(q, " ", thex)]
				if m&^(1<<kaOther|1<<kaEmpty|1<<kaTrunc) == 0 {
					h.bad("unanswered", "lookup op%d of process %d returned process %d, which did not answer (%x)", c.op.ID, c.proc, q, m)
				}
			}
			if f := strings.Split(txt[c.id][i], "|"); f[1] != procAddr(p, int(q)) && p.Procs[q].Kind == "" || f[3] != fmt.Sprint(p.Procs[q].Port) {
				h.bad("altered", "lookup op%d of process %d returned process %d as %s", c.op.ID, c.proc, q, txt[c.id][i])
			}
			h.probe("result judged")
		}
		if p.Scen != "exact" {
			continue
		}
		r0, r1 := h.reach(c.proc, 1, target, true), h.reach(c.proc, 1000, target, false)
		var far int64 = -1
		if len(l) > 0 {
			far = *l[len(l)-1]
		}
		for q := range seen {
			if !r1[int(q)] {
				h.bad("unreachable", "lookup op%d of process %d returned process %d, which no table leads to", c.op.ID, c.proc, q)
			}
		}
		for q := range r0 {
			if q == c.proc || procPub[q] == target || seen[int64(q)] {
				continue
			}
			if len(l) < k || closer(target, procPub[q], procPub[far]) {
				h.bad("missing", "lookup op%d of process %d for %.12s returned %d of %d peers without process %d, which is reachable and closer", c.op.ID, c.proc, thex, len(l), k, q)
			}
			h.probe("omission judged")
		}
		h.probe("exact lookup judged")
	}
}

// reach is what table listing n leads to from process proc. If sure is set,
// only what is certain to be passed on is followed: a node is told about 16
// peers at a time, and tables only grow in an overlay without faults, so that
// what is among the 16 closest at the end was so whenever it was known.
func (h *H) reach(proc int, n int64, target noise.PublicKey, sure bool) map[int]bool {
	tab, fin := map[int][]int{}, map[int][]int{}
	for i := range h.ev {
		e := &h.ev[i]
		if e.K == kTab && e.B == n && e.C >= 0 {
			tab[int(e.A)] = append(tab[int(e.A)], int(e.C))
		}
		if e.K == kTab && e.B == 1000 && e.C >= 0 {
			fin[int(e.A)] = append(fin[int(e.A)], int(e.C))
		}
	}
	got := map[int]bool{}
	todo := []int{proc}
	for len(todo) > 0 {
		x := todo[0]
		todo = todo[1:]
		to := target
		if x == proc {
			to = procPub[x]
		}
		for _, y := range tab[x] {
			// Peers do not refer to the target itself.
			if got[y] || x != proc && procPub[y] == target {
				continue
			}
			if sure {
				before, found := 0, false
				for _, z := range fin[x] {
					if z == y {
						found = true
					}
					if procPub[z] != to && closer(to, procPub[z], procPub[y]) {
						before++
					}
				}
				if !found || before >= 16 {
					continue
				}
			}
			got[y] = true
			todo = append(todo, y)
		}
	}
	return got
}
