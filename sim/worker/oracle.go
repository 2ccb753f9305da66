package main

import (
	"fmt"
	"runtime"
	"sort"
	"strconv"
	"strings"
)

type call struct {
	g          uint32
	id         int64
	proc       int
	grp        int32
	kind, addr string
	op         *Op
	thr        int
	to         int64
	bs, es     int // history positions
	bt, et     int64
	status     int64
	aux        int64
	txt        string
	done       bool
	dead       bool // its process was killed
}

type handled struct {
	seq, exit int
	t, et     int64
	proc      int
	grp       int32
	h         int
	id        int64
	tag       int64
	sender    int
	addr      string
	kind      string
	prob      string
	err       string
}

type client struct {
	ptr     int64
	n       int
	proc    int
	grp     int32
	tag     int64
	id      string
	peer    int
	conn    map[int]int // proto -> count
	disc    map[int]int
	connAt  int
	connT   int64
	lastCon int // last connect event
	discAt  int // first disconnect event, -1 none
	discT   int64
	derr    string
	ferr    string
	hasF    bool
	recv    map[int]int
	sent    map[int]int
	firstRS int   // first recv/sent event
	sock    *sock // nil if unknown
}

// H is the parsed history of one execution.
type H struct {
	p       *Plan
	s       *sim
	ev      []runtime.ZsimEv
	res     *Result
	overrun bool

	calls   []*call
	callBy  map[int64]*call
	opCall  map[uint32]*call
	hand    []*handled
	handBy  map[int64][]*handled
	cls     []*client
	clBy    map[int64]*client
	tagBy   map[int64]*client
	killed  map[int32]int // grp -> history position
	stall   int64         // total injected stall time
	final   map[int32]bool
	sockCl  map[int64]*client
	closeAt map[int64]int // sock -> history position of its close
	nSeen   map[string]int
	mem     int64 // bytes allocated during the execution
}

func parse(p *Plan, s *sim) *H {
	h := &H{p: p, s: s, ev: runtime.ZsimHistory(), callBy: map[int64]*call{}, opCall: map[uint32]*call{}, handBy: map[int64][]*handled{},
		clBy: map[int64]*client{}, tagBy: map[int64]*client{}, killed: map[int32]int{}, final: map[int32]bool{}, sockCl: map[int64]*client{}, closeAt: map[int64]int{}, nSeen: map[string]int{}}
	st := runtime.ZsimStat()
	h.stall = int64(st[4])
	for _, f := range p.Flt {
		if f.K == "stall" {
			h.stall += f.Dur
		}
	}
	for i := range p.Procs {
		h.stall += p.Procs[i].CbSlow * slowCbs
	}
	open := map[string]*handled{}
	uses := map[int64]*sock{}
	for i := range h.ev {
		e := &h.ev[i]
		switch e.K {
		case nUse:
			uses[e.C] = s.socks[e.B]
		case nClose:
			if _, ok := h.closeAt[e.B]; !ok {
				h.closeAt[e.B] = i
			}
		case pKill:
			h.killed[int32(e.B)] = i
		case cBegin:
			c := &call{g: e.G, id: e.A, proc: int(e.B), grp: e.Grp, bs: i, bt: e.T, es: -1, to: e.D}
			c.thr = int(e.A >> 16 & 0xffffff)
			f := strings.SplitN(e.S, " ", 2)
			c.kind = f[0]
			if len(f) > 1 {
				c.addr = f[1]
			}
			if e.C != 0 {
				c.op = opByID[uint32(e.C)]
				h.opCall[uint32(e.C)] = c
			}
			h.calls = append(h.calls, c)
			h.callBy[e.A] = c
		case cEnd:
			c := h.callBy[e.A]
			c.done, c.es, c.et, c.status, c.aux, c.txt = true, i, e.T, e.C, e.D, e.S
		case hEnter:
			f := strings.SplitN(e.S, "|", 4)
			x := &handled{seq: i, exit: -1, t: e.T, proc: int(e.A), grp: e.Grp, h: int(e.B), id: e.C, tag: e.D}
			x.sender, _ = strconv.Atoi(f[0])
			x.addr, x.kind, x.prob = f[1], f[2], f[3]
			h.hand = append(h.hand, x)
			h.handBy[x.id] = append(h.handBy[x.id], x)
			open[fmt.Sprint(e.G, "/", e.B)] = x
		case hExit:
			if x := open[fmt.Sprint(e.G, "/", e.B)]; x != nil {
				x.exit, x.et, x.err = i, e.T, e.S
			}
		case eConn, eDisc, eRecv, eSent:
			c := h.clBy[e.C]
			if c == nil {
				c = &client{ptr: e.C, n: len(h.cls), proc: int(e.A), grp: e.Grp, conn: map[int]int{}, disc: map[int]int{}, recv: map[int]int{}, sent: map[int]int{}, connAt: -1, discAt: -1, firstRS: -1, peer: -1}
				h.cls = append(h.cls, c)
				h.clBy[e.C] = c
			}
			switch e.K {
			case eConn:
				if c.connAt < 0 {
					c.connAt, c.connT = i, e.T
					c.id = e.S
					c.tag = e.D
					if k := uses[int64(e.G)]; k != nil && k.grp == e.Grp {
						c.sock = k
						h.sockCl[k.id] = c
					}
					c.peer, _ = strconv.Atoi(strings.SplitN(e.S, "|", 2)[0])
					h.tagBy[e.D] = c
				}
				c.lastCon = i
				c.conn[int(e.B)]++
			case eDisc:
				if c.discAt < 0 {
					c.discAt, c.discT, c.derr = i, e.T, e.S
				}
				c.disc[int(e.B)]++
			case eRecv:
				c.recv[int(e.B)]++
				if c.firstRS < 0 {
					c.firstRS = i
				}
			case eSent:
				c.sent[int(e.B)]++
				if c.firstRS < 0 {
					c.firstRS = i
				}
			}
		case oErr:
			if c := h.clBy[e.C]; c != nil {
				c.ferr, c.hasF = e.S, true
			}
		case oMisc:
			if e.B == 3 {
				h.final[int32(e.C)] = true
			}
		}
	}
	for _, c := range h.calls {
		if _, k := h.killed[c.grp]; k {
			c.dead = true
		}
	}
	return h
}

func (h *H) bad(class, format string, a ...any) {
	if h.nSeen[class]++; h.nSeen[class] <= 3 {
		h.res.Viol = append(h.res.Viol, Viol{class, fmt.Sprintf(format, a...)})
	}
}

func (h *H) probe(k string) { h.res.Probe[k]++ }

func (h *H) at(i int) string {
	if i < 0 || i >= len(h.ev) {
		return "never"
	}
	return fmt.Sprintf("#%d@%.3fs", i, float64(h.ev[i].T-startTime)/1e9)
}

func (h *H) alive(grp int32) bool { _, k := h.killed[grp]; return !k }

func (h *H) slack() int64 { return 3*sec + h.stall }

// closedGrp reports when node.Close was first called in grp (-1: never).
func (h *H) closedGrp(grp int32) int {
	for _, c := range h.calls {
		if c.kind == "close" && c.grp == grp {
			return c.bs
		}
	}
	return -1
}

func msgName(id int64) string {
	if id < 0 {
		return fmt.Sprintf("tiny(%d bytes)", -1-id)
	}
	u := uint32(id)
	s := fmt.Sprintf("op%d", u&0xffff)
	switch {
	case u&idReply != 0:
		s += fmt.Sprintf("/reply%d", u>>16&0x3f)
	case u&idBack != 0:
		s += fmt.Sprintf("/back%d", u>>16&0x3f)
	}
	return s
}

// --- N01 ---

func (h *H) oracleN01() {
	type key struct {
		hd int
		id int64
	}
	count := map[key]int{}
	tiny := map[string]int{}
	tinySent := map[string]int{}
	for _, c := range h.calls {
		if c.op != nil && c.op.Size < 4 && (c.kind == "send" || c.kind == "req") {
			tinySent[fmt.Sprint(c.proc, c.op.To, c.op.Size)]++
		}
	}
	for _, x := range h.hand {
		if x.prob != "" {
			h.bad("altered", "process %d handled %s (%d) from %d: %s", x.proc, msgName(x.id), x.id, x.sender, x.prob)
			continue
		}
		if x.id < 0 {
			k := fmt.Sprint(x.sender, x.proc, -1-x.id)
			if x.h == 0 {
				tiny[k]++
			}
			continue
		}
		u := uint32(x.id)
		op := opByID[u&0xffff]
		from, to := opProc[u&0xffff], op.To
		c := h.opCall[u&0xffff]
		switch {
		case u&idReply != 0:
			continue // N03
		case u&idBack != 0:
			from, to = to, from
			if int(u>>16&0x3f) >= op.Back {
				h.bad("forged", "process %d handled %s which was never sent", x.proc, msgName(x.id))
			}
		}
		if c == nil || c.bs > x.seq {
			h.bad("before-sent", "process %d handled %s before it was sent", x.proc, msgName(x.id))
		}
		if x.sender != from {
			h.bad("misattributed", "process %d handled %s sent by %d but attributed to %d", x.proc, msgName(x.id), from, x.sender)
		}
		if x.proc != to {
			h.bad("misdelivered", "process %d handled %s sent to %d", x.proc, msgName(x.id), to)
		}
		if u&idBack == 0 && (x.kind == "r") != (op.K == "req") {
			h.bad("kind", "process %d handled %s (%s) as %s", x.proc, msgName(x.id), op.K, x.kind)
		}
		k := key{x.h, x.id}
		if count[k]++; count[k] == 2 {
			h.bad("duplicate", "handler %d of process %d saw %s twice, second at %s", x.h, x.proc, msgName(x.id), h.at(x.seq))
		}
	}
	for k, n := range tiny {
		if n > tinySent[k] {
			h.bad("duplicate", "%d tiny messages (sender receiver size %s) handled, %d sent", n, k, tinySent[k])
		}
	}
	h.order()
}

// order checks per-connection order and gaps.
func (h *H) order() {
	type ck struct {
		tag int64
		thr int
	}
	seqs := map[ck][]*handled{}
	var keys []ck
	back := map[string]int{}
	for _, x := range h.hand {
		if x.h != 0 || x.id < 0 || x.tag == 0 || x.prob != "" {
			continue
		}
		u := uint32(x.id)
		if u&idReply != 0 {
			continue
		}
		w := h.p.Procs[x.proc].Workers
		if u&idBack != 0 {
			op := opByID[u&0xffff]
			if w == 1 && !op.Async {
				k := fmt.Sprint(x.tag, u&0xffff)
				ix := int(u >> 16 & 0x3f)
				if last, ok := back[k]; ok && ix < last {
					h.bad("order", "process %d handled %s after index %d", x.proc, msgName(x.id), last)
				} else if ok && ix != last+1 {
					h.bad("gap", "process %d handled %s right after index %d", x.proc, msgName(x.id), last)
				} else if !ok && ix != 0 {
					h.bad("gap", "process %d handled %s first", x.proc, msgName(x.id))
				}
				back[k] = ix
			}
			continue
		}
		c := h.opCall[u&0xffff]
		if c == nil {
			continue
		}
		k := ck{x.tag, c.thr}
		if seqs[k] == nil {
			keys = append(keys, k)
		}
		seqs[k] = append(seqs[k], x)
	}
	// connections per (sender group, receiver group)
	for _, k := range keys {
		l := seqs[k]
		w := h.p.Procs[l[0].proc].Workers
		first := h.opCall[uint32(l[0].id)&0xffff]
		ops := h.p.Thr[first.thr].Ops
		pos := map[uint32]int{}
		for i := range ops {
			pos[ops[i].ID] = i
		}
		lo, hi := 1<<30, -1
		got := map[int]bool{}
		last := -1
		for _, x := range l {
			i := pos[uint32(x.id)&0xffff]
			if w == 1 && i < last {
				h.bad("order", "process %d handled %s after op%d of the same caller and connection (at %s)", x.proc, msgName(x.id), ops[last].ID, h.at(x.seq))
			}
			if i > last {
				last = i
			}
			got[i] = true
			if i < lo {
				lo = i
			}
			if i > hi {
				hi = i
			}
		}
		grp := l[0].grp
		if w != 1 && (!h.alive(grp) || h.closedGrp(grp) >= 0) {
			continue
		}
		single := h.connCount(first.grp, grp) == 1 && h.connCount(-1, grp) >= 1 && h.netPair(first.proc, l[0].proc) == 1
		if single {
			lo = 0
		}
		for i := lo; i < hi; i++ {
			o := &ops[i]
			if o.ID == 0 || o.Size < 4 || got[i] || o.K != "send" || o.To != l[0].proc || o.S != "" {
				continue
			}
			c := h.opCall[o.ID]
			if c == nil || !c.done || c.status != 0 {
				continue
			}
			if c.grp != first.grp {
				continue
			}
			h.bad("gap", "process %d handled op%d but not the earlier op%d of the same caller on that connection", l[0].proc, ops[hi].ID, o.ID)
			break
		}
	}
}

// connCount counts clients in grp whose peer is the process of group from
// (-1: any).
func (h *H) connCount(from, grp int32) int {
	n := 0
	for _, c := range h.cls {
		if c.grp == grp && c.connAt >= 0 && (from < 0 || h.s.grpInc[from] != nil && c.peer == h.s.grpInc[from].proc) {
			n++
		}
	}
	return n
}

// netPair counts TCP connections ever established from proc a to proc b.
func (h *H) netPair(a, b int) int {
	n := 0
	for _, c := range h.s.conns {
		ia, ib := h.s.grpInc[c.a.grp], h.s.grpInc[c.b.grp]
		if ia != nil && ib != nil && ia.proc == a && ib.proc == b {
			n++
		}
	}
	return n
}

// --- N02 ---

// oracleN02 applies to runs in which nothing may drop a connection.
func (h *H) oracleN02() {
	for _, c := range h.cls {
		if c.discAt >= 0 {
			h.bad("dropped", "a connection of process %d (peer %d) was dropped at %s without cause: %s", c.proc, c.peer, h.at(c.discAt), c.derr)
		}
	}
	tiny := map[string]int{}
	tinySent := map[string]int{}
	for _, x := range h.hand {
		if x.id < 0 && x.h == 0 {
			tiny[fmt.Sprint(x.sender, x.proc, -1-x.id)]++
		}
	}
	for _, c := range h.calls {
		if c.kind != "send" && c.kind != "req" && c.kind != "ping" {
			continue
		}
		if c.op == nil || c.op.S != "" {
			continue
		}
		if !c.done {
			h.bad("hung", "%s to %d by %d (op%d) never returned", c.kind, c.op.To, c.proc, c.op.ID)
			continue
		}
		if c.status != 0 && c.op.TO == 0 && h.listened(c.op.To) < c.bs {
			h.bad("failed", "%s op%d from %d to %d failed on a healthy network: %s", c.kind, c.op.ID, c.proc, c.op.To, c.txt)
			continue
		}
		if c.status != 0 || c.kind == "ping" {
			continue
		}
		if c.op.Size < 4 {
			tinySent[fmt.Sprint(c.proc, c.op.To, c.op.Size)]++
			continue
		}
		h.checkHandled(int64(c.op.ID), c.op.To, c.op.Err, c.es)
		if c.kind == "send" {
			for k := 0; k < c.op.Back; k++ {
				h.checkHandled(int64(c.op.ID|uint32(k)<<16|idBack), c.proc, 0, c.es)
			}
		}
	}
	for k, n := range tinySent {
		if tiny[k] < n {
			h.bad("lost", "%d of %d tiny messages (sender receiver size %s) handled", tiny[k], n, k)
		}
	}
}

// listened is the history position at which a process first listened.
func (h *H) listened(proc int) int {
	for i := range h.ev {
		if e := &h.ev[i]; e.K == oMisc && e.B == 1 && e.A == int64(proc) {
			return i
		}
	}
	return 1 << 60
}

func (h *H) checkHandled(id int64, proc, errAt int, since int) {
	nh := h.p.Procs[proc].NHand
	if nh == 0 {
		nh = 1
	}
	l := append([]*handled(nil), h.handBy[id]...)
	sort.Slice(l, func(i, j int) bool { return l[i].seq < l[j].seq })
	if len(l) == 0 {
		h.bad("lost", "%s, sent at %s to process %d, was never handled", msgName(id), h.at(since), proc)
		return
	}
	want := nh
	if errAt > 0 && errAt < nh {
		want = errAt
	}
	for i, x := range l {
		if x.h != i {
			h.bad("handler-order", "%s: handler %d ran at position %d", msgName(id), x.h, i)
			return
		}
		if i > 0 && l[i-1].exit > x.seq {
			h.bad("handler-order", "%s: handler %d started before handler %d returned", msgName(id), x.h, i-1)
			return
		}
	}
	if len(l) != want {
		h.bad("handlers-missing", "%s: %d of %d handlers ran", msgName(id), len(l), want)
	}
	// Delivery time: everything the plan makes slow is bounded.
	if lim := h.p.x("deliver"); lim > 0 && since >= 0 {
		if d := l[0].t - h.ev[since].T; d > lim+h.stall {
			h.bad("late", "%s handled %.1fs after the send returned", msgName(id), float64(d)/1e9)
		}
	}
}

// --- N03 ---

func (h *H) oracleN03() {
	okAns := map[int64][]int{}
	for i := range h.ev {
		e := &h.ev[i]
		switch e.K {
		case hAns:
			if e.S == "back" {
				continue
			}
			if e.D == 0 {
				okAns[e.C] = append(okAns[e.C], int(e.B))
				if len(okAns[e.C]) == 2 {
					h.bad("answered-twice", "%s was answered twice without an error by process %d (%s)", msgName(e.C), e.A, h.at(i))
				}
			} else {
				h.probe("second answer refused")
			}
		}
	}
	for _, x := range h.hand {
		if x.id >= 0 && uint32(x.id)&idReply != 0 {
			h.bad("stray-reply", "a handler of process %d was given %s at %s", x.proc, msgName(x.id), h.at(x.seq))
		}
	}
	for _, c := range h.calls {
		if c.kind != "req" || !c.done || c.status != 0 || c.op == nil {
			continue
		}
		if c.op.RSize < 4 {
			if c.aux != int64(-1-c.op.RSize) {
				h.bad("wrong-reply", "request op%d got a reply of other size (%d)", c.op.ID, c.aux)
			}
			continue
		}
		u := uint32(c.aux)
		if c.txt != "" || u&idReply == 0 || u&0xffff != c.op.ID {
			h.bad("wrong-reply", "request op%d of process %d returned %s %s", c.op.ID, c.proc, msgName(c.aux), c.txt)
			continue
		}
		ok := false
		for _, k := range okAns[int64(c.op.ID)] {
			if k == int(u>>16&0x3f) {
				ok = true
			}
		}
		// The answer is logged just after it is sent; look for the attempt.
		if !ok && len(okAns[int64(c.op.ID)]) > 0 {
			h.bad("wrong-reply", "request op%d returned answer %d, which was refused", c.op.ID, u>>16&0x3f)
		}
		if xs := h.handBy[int64(c.op.ID)]; len(xs) == 0 {
			h.bad("wrong-reply", "request op%d returned without having been handled", c.op.ID)
		} else if xs[0].proc != c.op.To {
			h.bad("wrong-reply", "request op%d to %d was answered by %d", c.op.ID, c.op.To, xs[0].proc)
		}
		h.probe("reply matched")
	}
}

// --- N04 ---

func (h *H) oracleN04() {
	for _, c := range h.calls {
		if c.dead || c.op == nil {
			continue
		}
		if c.kind != "send" && c.kind != "req" && c.kind != "ping" {
			continue
		}
		if c.op.TO != 0 {
			to := c.op.TO
			if to < 0 {
				to = 0
			}
			end := c.et
			if !c.done {
				end = startTime + h.p.End
			}
			if d := end - c.bt - to; d > h.slack() {
				st := "returned"
				if !c.done {
					st = "had not returned"
				}
				h.bad("ctx-ignored", "%s op%d of process %d (context ends after %.3fs) %s %.3fs after that", c.kind, c.op.ID, c.proc, float64(to)/1e9, st, float64(d)/1e9)
			}
		}
		if c.done && c.status == 0 && c.kind == "req" && c.op.RSize >= 4 && (c.aux < 0 || uint32(c.aux)&idReply == 0) {
			h.bad("no-error", "req op%d of process %d to %d returned %s and no error", c.op.ID, c.proc, c.op.To, msgName(c.aux))
		}
		if !c.done {
			if h.closedGrp(c.grp) >= 0 || !h.liveConn(c.grp, c.op.To) || c.kind != "req" {
				h.bad("hung", "%s op%d from %d to %d, begun at %s, was still blocked at the end", c.kind, c.op.ID, c.proc, c.op.To, h.at(c.bs))
			} else {
				// A live connection: the handler must still owe the answer.
				ans := false
				for i := range h.ev {
					e := &h.ev[i]
					if e.K == hAns && e.C == int64(c.op.ID) && e.D == 0 && e.T < startTime+h.p.End-200*sec {
						ans = true
					}
				}
				if ans {
					h.bad("hung", "req op%d from %d to %d was answered but never returned", c.op.ID, c.proc, c.op.To)
				}
			}
		}
	}
	h.lossPrompt()
}

// liveConn reports whether a TCP connection dialled by grp to proc is up at
// both ends at the end of the run.
func (h *H) liveConn(grp int32, proc int) bool {
	for _, c := range h.s.conns {
		if c.a.grp != grp {
			continue
		}
		if ib := h.s.grpInc[c.b.grp]; ib == nil || ib.proc != proc {
			continue
		}
		if sockUp(c.a) && sockUp(c.b) {
			return true
		}
	}
	return false
}

func sockUp(k *sock) bool { return !k.closed && !k.gone && k.err == 0 && !k.in.fin }

// lossPrompt: once the last connection to a peer was lost and no dial is
// under way, waiting requests must return soon.
func (h *H) lossPrompt() {
	type ck struct {
		grp  int32
		proc int
	}
	up := map[ck]int{}
	sock := map[int64]ck{}
	down := map[int64]bool{}
	addrDial := map[string]int{}
	lostAt := map[ck]int64{}
	for i := range h.ev {
		e := &h.ev[i]
		switch e.K {
		case nDial:
			addrDial[fmt.Sprint(e.C, e.S)]++
		case nEstab:
			c := h.s.conns[e.A]
			ib := h.s.grpInc[c.b.grp]
			if ib == nil {
				continue
			}
			k := ck{c.a.grp, ib.proc}
			sock[e.B] = k
			up[k]++
			delete(lostAt, k)
		case nReset, nClose, nFin:
			if k, ok := sock[e.B]; ok && !down[e.B] {
				down[e.B] = true
				if up[k]--; up[k] == 0 {
					lostAt[k] = e.T
				}
			}
		}
	}
	for _, c := range h.calls {
		if c.kind != "req" || c.dead || c.op == nil || c.op.S != "" {
			continue
		}
		k := ck{c.grp, c.op.To}
		t, lost := lostAt[k]
		if !lost || t < c.bt || up[k] > 0 {
			continue
		}
		// Was a dial by this process to that address attempted after the loss?
		redial := false
		for i := c.bs; i < len(h.ev); i++ {
			e := &h.ev[i]
			if (e.K == nDial || e.K == nDialEnd) && int32(e.C) == c.grp && e.T >= t && e.S == c.addr {
				redial = true
			}
		}
		if redial {
			continue
		}
		end := c.et
		if !c.done {
			end = startTime + h.p.End
		}
		if end-t > h.slack()+5*sec {
			h.bad("loss-ignored", "req op%d from %d to %d waited %.1fs after its connection was lost", c.op.ID, c.proc, c.op.To, float64(end-t)/1e9)
		}
	}
}

// oracleCleanCalls: on a healthy network, callers that did not give up
// succeed and nothing is disconnected.
func (h *H) oracleCleanCalls() {
	for _, c := range h.calls {
		if c.op == nil || c.op.TO != 0 || c.dead || h.notUp(c) {
			continue
		}
		switch c.kind {
		case "send", "ping", "req":
			if c.done && c.status != 0 {
				h.bad("bystander-failed", "%s op%d from %d to %d failed (%s) although its own context never ended and the network is healthy", c.kind, c.op.ID, c.proc, c.op.To, c.txt)
			}
			if !c.done && (c.kind != "req" || c.op.Ans > 0) {
				h.bad("bystander-hung", "%s op%d from %d to %d never returned", c.kind, c.op.ID, c.proc, c.op.To)
			}
		}
	}
	for _, c := range h.cls {
		if c.discAt >= 0 {
			// A connection is established once both ends took it up: before,
			// the last caller waiting for it may give it up.
			if c.sock != nil {
				a := c.sock.conn.a
				o := h.sockCl[a.id]
				if o == nil || o.discAt < 0 {
					continue
				}
				if at, ok := h.closeAt[a.id]; ok && (at < o.connAt || !h.used(o, at)) {
					continue
				}
			}
			h.bad("bystander-closed", "an established connection of process %d (peer %d) was closed at %s: %s", c.proc, c.peer, h.at(c.discAt), c.derr)
		}
	}
}

// notUp: the target of the call had not finished starting when it was made.
func (h *H) notUp(c *call) bool {
	for i := 0; i < c.bs; i++ {
		if h.ev[i].K == oMisc && h.ev[i].B == 4 && h.ev[i].A == int64(c.op.To) {
			return false
		}
	}
	return true
}

// used: before event at, a caller got hold of the dialer-side client o.
func (h *H) used(o *client, at int) bool {
	if o.firstRS >= 0 && o.firstRS < at {
		return true
	}
	for _, c := range h.calls {
		if c.grp != o.grp || !c.done || c.es >= at || c.es < o.connAt || c.op == nil || c.op.To != o.peer {
			continue
		}
		if c.status == 0 {
			return true
		}
	}
	return false
}

func judge(h *H) {
	switch h.p.Prop {
	case "N01":
		h.oracleN01()
	case "N02":
		h.oracleN02()
	case "N03":
		h.oracleN03()
	case "N04":
		h.oracleN04()
		if h.p.x("healthy") == 1 {
			h.oracleCleanCalls()
		}
	case "N05":
		h.oracleN05()
		h.settled()
	case "N06":
		h.oracleN06()
	case "N07":
		h.oracleN07()
	case "N08":
		h.oracleN08()
		h.settled()
	case "N09":
		h.oracleN09()
		h.settled()
	case "N10":
		h.oracleN10()
	case "N11":
		h.oracleN11()
		h.settled()
	case "N12":
		h.oracleN12()
		if h.p.x("closein") > 0 {
			h.oracleN10()
		}
	case "N13":
		h.oracleN13()
	case "N14":
		h.oracleN14()
	case "N15":
		h.oracleN15()
	case "G01":
		h.oracleG01()
	case "G02":
		h.oracleG02()
	case "K01":
		h.oracleK01()
	case "M01":
		h.oracleM01()
	case "K02":
		h.oracleK02()
	case "K03":
		h.oracleK03()
	}
}
