package main

import (
	"context"
	"fmt"
	"sort"
	"strconv"
	"strings"
)

func (h *H) inc(grp int32) *inc { return h.s.grpInc[grp] }

func (h *H) incs() []*inc {
	var l []*inc
	for g := int32(2); h.s.grpInc[g] != nil; g++ {
		if h.s.grpInc[g].pr.Kind == "" {
			l = append(l, h.s.grpInc[g])
		}
	}
	return l
}

func ptrs(s string) []int64 {
	var l []int64
	for _, w := range strings.Fields(s) {
		x, _ := strconv.ParseInt(w, 10, 64)
		l = append(l, x)
	}
	return l
}

// finalLists returns the pools of grp at the end of the run.
func (h *H) finalLists(grp int32) (in, out []int64, ok bool) {
	for i := range h.ev {
		e := &h.ev[i]
		if e.K == oList && e.D == 1 && e.Grp == grp {
			if e.B == 0 {
				in = ptrs(e.S)
			} else {
				out = ptrs(e.S)
				ok = true
			}
		}
	}
	return
}

func (h *H) openSocks(grp int32) []*sock {
	var l []*sock
	for _, k := range h.s.sortedSocks() {
		if k.grp == grp && !k.closed && !k.gone {
			l = append(l, k)
		}
	}
	return l
}

// settled judges what is left at the end of a run, long after everything
// that happened.
func (h *H) settled() {
	for _, in := range h.incs() {
		if !in.alive || !h.final[in.grp] || in.node == nil {
			continue
		}
		if h.closedGrp(in.grp) >= 0 {
			continue // N10
		}
		ib, ob, ok := h.finalLists(in.grp)
		if !ok {
			continue
		}
		socks := h.openSocks(in.grp)
		for _, k := range socks {
			p := k.out.to
			switch {
			case k.err != 0:
				h.bad("leaked-socket", "process %d never closed socket %d (conn %d), which failed long ago", in.proc, k.id, k.conn.id)
			case k.in.fin && !p.closed:
			case k.in.fin:
				h.bad("half-open", "process %d never closed its end of connection %d, which the other end closed", in.proc, k.conn.id)
			case p.gone || p.err != 0 || p.closed:
				h.bad("half-open", "process %d still holds connection %d, whose other end is gone", in.proc, k.conn.id)
			}
		}
		dead := 0
		for _, q := range append(append([]int64{}, ib...), ob...) {
			if c := h.clBy[q]; c != nil && c.discAt >= 0 {
				dead++
				h.bad("stale-slot", "process %d still lists a connection (peer %d) that ended at %s", in.proc, c.peer, h.at(c.discAt))
			}
		}
		if dead == 0 && len(socks) > len(ib)+len(ob) {
			h.bad("leaked-socket", "process %d has %d open connections but lists %d", in.proc, len(socks), len(ib)+len(ob))
		}
		if dead == 0 && len(socks) < len(ib)+len(ob) {
			h.bad("stale-slot", "process %d lists %d connections but has %d open ones", in.proc, len(ib)+len(ob), len(socks))
		}
		h.leak(in, len(ib)+len(ob), "end")
		h.probe("settled process")
	}
}

// leak compares the goroutines of the library with what must be there.
func (h *H) leak(in *inc, conns int, who string) {
	w := int(in.pr.Workers)
	if w == 0 {
		w = 4
	}
	for i := range h.ev {
		e := &h.ev[i]
		if e.K == pLive && e.B == int64(in.grp) && strings.HasPrefix(e.S, who+":") {
			if n := int(e.C); n > w+1+2*conns {
				h.bad("leaked-goroutine", "process %d with %d connections and %d workers has %d goroutines: %s", in.proc, conns, w, n, e.S)
			}
		}
	}
}

// --- N05 ---

// hopeless tells whether the target of a call can never be connected to.
func (h *H) hopeless(c *call) bool {
	if c.op == nil {
		return false
	}
	if c.op.S != "" {
		return true
	}
	pr := &h.p.Procs[c.op.To]
	switch pr.Kind {
	case "atk":
		for i := int64(0); i < pr.X["nb"]; i++ {
			if pr.X[fmt.Sprint("b", i)] >= bOwnID {
				return false
			}
		}
		return true
	}
	return pr.X["never"] == 1
}

func (h *H) oracleN05() {
	type ak struct {
		grp  int32
		addr string
	}
	byAddr := map[ak][]*call{}
	for _, c := range h.calls {
		if c.kind == "send" || c.kind == "req" || c.kind == "ping" {
			k := ak{c.grp, c.addr}
			byAddr[k] = append(byAddr[k], c)
		}
	}
	pings := map[uint32][]int{}
	dials := map[ak][]int{}
	for i := range h.ev {
		e := &h.ev[i]
		switch e.K {
		case ePing:
			pings[e.G] = append(pings[e.G], i)
		case nDial:
			k := ak{int32(e.C), e.S}
			dials[k] = append(dials[k], i)
			if in := h.inc(int32(e.C)); in != nil && in.pr.Kind != "" {
				continue
			}
			if len(byAddr[k]) == 0 {
				h.bad("unasked-dial", "process %d dialled %s, which no call asked for", e.B, e.S)
			}
		}
	}
	for _, c := range h.calls {
		if c.kind != "send" && c.kind != "req" && c.kind != "ping" || c.dead || c.op == nil {
			continue
		}
		pr := &h.p.Procs[c.proc]
		hope := h.hopeless(c)
		if !c.done {
			if hope {
				h.bad("hung", "%s op%d to %s never returned", c.kind, c.op.ID, c.addr)
			}
			continue
		}
		if hope && c.status == 0 {
			h.bad("no-error", "%s op%d to %s, which cannot be connected to, returned no error", c.kind, c.op.ID, c.addr)
		}
		np := pr.NProto
		if np == 0 {
			np = 1
		}
		cnt := make([]int, np)
		for _, i := range pings[c.g] {
			if i > c.bs && i < c.es {
				e := &h.ev[i]
				if e.S != c.addr {
					h.bad("wrong-report", "%s op%d to %s reported %s as failed", c.kind, c.op.ID, c.addr, e.S)
				}
				if e.C == 0 {
					h.bad("wrong-report", "%s op%d reported a failure without an error", c.kind, c.op.ID)
				}
				cnt[int(e.B)]++
			}
		}
		for i, n := range cnt {
			switch {
			case c.status == 0 && n > 0:
				h.bad("false-report", "%s op%d succeeded but was reported as failed to protocol %d", c.kind, c.op.ID, i)
			case n > 1:
				h.bad("many-reports", "%s op%d was reported as failed to protocol %d %d times", c.kind, c.op.ID, i, n)
			case n == 0 && c.status != 0 && (hope && (!ended(c.txt) || c.op.TO > ms+h.stall) || c.kind == "ping" && !ended(c.txt)):
				h.bad("no-report", "%s op%d to %s failed (%s) but was not reported to protocol %d", c.kind, c.op.ID, c.addr, c.txt, i)
			case n != cnt[0]:
				h.bad("no-report", "%s op%d was reported to protocol 0 %d times but to protocol %d %d times", c.kind, c.op.ID, cnt[0], i, n)
			}
		}
		h.probe("call judged")
		if c.status != 0 {
			h.probe("failed call judged")
		}
	}
	nAddr := map[int32]int{}
	for k := range byAddr {
		nAddr[k.grp]++
	}
	for k, l := range byAddr {
		if h.inc(k.grp) == nil || !h.alive(k.grp) {
			continue
		}
		pr := &h.p.Procs[h.inc(k.grp).proc]
		// a connection attempt may be evicted from the pool before it began
		evict := nAddr[k.grp] > lim(pr.MaxOut) || nAddr[k.grp] > lim(pr.MaxIn)
		max := int(h.p.Procs[h.inc(k.grp).proc].MaxDial)
		if max == 0 {
			max = 3
		}
		if n := len(dials[k]); n > max*len(l) {
			h.bad("too-many-dials", "process %d made %d attempts to connect to %s for %d calls, with at most %d attempts each", h.inc(k.grp).proc, n, k.addr, len(l), max)
		}
		for _, i := range dials[k] {
			e := &h.ev[i]
			ok := false
			for _, c := range l {
				if c.bs > i || c.op.TO < 0 { // or whose context had ended before
					continue
				}
				t := c.et
				if !c.done {
					t = 1 << 62
				}
				if c.op.TO > 0 && c.bt+c.op.TO < t {
					t = c.bt + c.op.TO
				}
				if e.T <= t+500*ms+h.stall {
					ok = true
				}
			}
			if !ok {
				h.bad("late-dial", "process %d still tried to connect to %s at %s, when nobody waited for it any more", h.inc(k.grp).proc, k.addr, h.at(i))
			}
		}
		if len(l) == 1 {
			c := l[0]
			n := 0
			for _, i := range dials[k] {
				if i > c.bs && (!c.done || i < c.es) {
					n++
				}
			}
			if c.done && h.hopeless(c) && c.op.TO == 0 && n == 0 && !evict {
				h.bad("no-attempt", "%s op%d to %s failed without an attempt", c.kind, c.op.ID, c.addr)
			}
			h.probe("single-caller attempts counted")
		}
	}
	for _, c := range h.cls {
		if c.sock == nil {
			continue
		}
		if o := h.inc(c.sock.out.to.grp); o != nil && o.pr.Kind == "atk" && c.connAt >= 0 {
			h.bad("connected", "process %d reported a connection with %d, which failed its handshake", c.proc, o.proc)
		}
	}
}

// --- N09 ---

func (h *H) clientsAt(grp int32, side int, pos int) int {
	n := 0
	for _, c := range h.cls {
		if c.grp != grp || c.sock == nil || c.sock.side != side || c.connAt < 0 || c.connAt > pos {
			continue
		}
		if at, ok := h.closeAt[c.sock.id]; ok && at <= pos {
			continue
		}
		n++
	}
	return n
}

func lim(n uint) int {
	if n == 0 {
		return 128
	}
	return int(n)
}

func (h *H) oracleN09() {
	over := func(pr *Proc, side int) string {
		if side == 0 && lim(pr.MaxIn) != lim(pr.MaxOut) {
			return "outbound-limit-ignored"
		}
		return "over-limit"
	}
	for _, c := range h.cls {
		if c.sock == nil || c.connAt < 0 {
			continue
		}
		pr := &h.p.Procs[c.proc]
		l := lim(pr.MaxIn)
		if c.sock.side == 0 {
			l = lim(pr.MaxOut)
		}
		if n := h.clientsAt(c.grp, c.sock.side, c.connAt); n > l {
			h.bad(over(pr, c.sock.side), "process %d holds %d %s connections at %s, limit %d", c.proc, n, r2s(c.sock.side, "outbound", "inbound"), h.at(c.connAt), l)
		}
		h.probe("pool size judged")
	}
	for i := range h.ev {
		e := &h.ev[i]
		if e.K != oList || h.inc(e.Grp) == nil {
			continue
		}
		pr := &h.p.Procs[e.A]
		l, side := lim(pr.MaxIn), 1
		if e.B == 1 {
			l, side = lim(pr.MaxOut), 0
		}
		if int(e.C) > l {
			h.bad(over(pr, side), "process %d lists %d %s connections at %s, limit %d", e.A, e.C, r2s(side, "outbound", "inbound"), h.at(i), l)
		}
		seen := map[int64]bool{}
		for _, q := range ptrs(e.S) {
			if seen[q] {
				h.bad("listed-twice", "process %d lists a connection twice at %s", e.A, h.at(i))
			}
			seen[q] = true
			if c := h.clBy[q]; c != nil && c.discAt >= 0 && c.discT < e.T-h.slack() {
				h.bad("stale-slot", "process %d lists a connection (peer %d) at %s that ended at %s", e.A, c.peer, h.at(i), h.at(c.discAt))
			}
		}
	}
	if h.p.x("lru") != 0 {
		h.lru()
	}
	if h.p.x("share") != 0 {
		h.share()
	}
}

// lru compares the pools with a model, in runs that use them sequentially.
func (h *H) lru() {
	in0 := h.p.x("lru") == 2 // inbound
	pr := &h.p.Procs[0]
	l := lim(pr.MaxOut)
	if in0 {
		l = lim(pr.MaxIn)
	}
	var model []int
	use := func(peer int) {
		for j, x := range model {
			if x == peer {
				model = append(model[:j:j], model[j+1:]...)
				break
			}
		}
		model = append([]int{peer}, model...)
		if len(model) > l {
			model = model[:l]
			h.probe("eviction")
		}
	}
	over := h.p.x("lru") == 3 // calls to peers that are down do not end
	strange := -1
	down := map[int]bool{}
	for i := range h.p.Flt {
		if f := &h.p.Flt[i]; over && f.K == "power" {
			down[f.A] = true
		}
	}
	for i := range h.ev {
		e := &h.ev[i]
		switch e.K {
		case cBegin:
			c := h.callBy[e.A]
			if over && c.op != nil && c.proc == 0 && (c.kind == "send" || c.kind == "ping") {
				use(c.op.To)
			}
		case nEstab:
			if in := h.s.grpInc[h.s.conns[e.A].a.grp]; in0 && in != nil && in.pr.Kind == "atk" {
				strange--
				use(strange)
			}
		case cEnd:
			c := h.callBy[e.A]
			if over || c.op == nil || c.kind != "send" && c.kind != "ping" && c.kind != "req" {
				continue
			}
			peer := c.op.To
			if in0 {
				peer = c.proc
			}
			if c.status != 0 && h.notUp(c) {
				return
			}
			if c.status != 0 {
				h.bad("not-served", "%s op%d from %d to %d failed: %s", c.kind, c.op.ID, c.proc, c.op.To, c.txt)
				return
			}
			use(peer)
		case oList:
			if e.A != 0 || in0 != (e.B == 0) || e.D != 0 {
				continue
			}
			var got []int
			for _, q := range ptrs(e.S) {
				p := -1
				if c := h.clBy[q]; c != nil {
					p = c.peer
				}
				got = append(got, p)
			}
			want := append([]int{}, model...)
			for j, q := range want {
				if q < 0 || down[h.p.Procs[q].Host] {
					want[j] = -1
				}
			}
			sort.Ints(want)
			sort.Ints(got)
			if fmt.Sprint(want) != fmt.Sprint(got) {
				class := "wrong-eviction"
				if !in0 && lim(pr.MaxIn) != lim(pr.MaxOut) {
					class = "outbound-limit-ignored"
				}
				h.bad(class, "at %s process 0 lists connections to %v, want %v (most recently used first: %v), limit %d", h.at(i), got, want, model, l)
				return
			}
			h.probe("pool compared with the model")
		}
	}
	// Connections out of the pool are closed at both ends.
	in, out, ok := h.finalLists(h.current0())
	if ok {
		n := len(in) + len(out)
		if k := len(h.openSocks(h.current0())); k != n {
			h.bad("evicted-open", "process 0 lists %d connections but has %d open", n, k)
		}
	}
}

func (h *H) current0() int32 {
	for _, in := range h.incs() {
		if in.proc == 0 && in.alive {
			return in.grp
		}
	}
	return -1
}

// share: every caller of process 0 used one connection per peer.
func (h *H) share() {
	n := map[int]int{}
	for _, c := range h.calls {
		if c.op == nil || c.proc != 0 || c.kind != "send" && c.kind != "ping" && c.kind != "req" {
			continue
		}
		if h.notUp(c) {
			return
		}
	}
	for _, c := range h.s.conns {
		a, b := h.inc(c.a.grp), h.inc(c.b.grp)
		if a != nil && b != nil && a.proc == 0 {
			n[b.proc]++
		}
	}
	for p, k := range n {
		if k > 1 {
			h.bad("not-shared", "%d connections were made from process 0 to %d, although none failed", k, p)
		}
	}
	for _, c := range h.calls {
		if c.op == nil || c.proc != 0 {
			continue
		}
		if c.kind == "send" || c.kind == "ping" || c.kind == "req" {
			if !c.done || c.status != 0 {
				h.bad("share-failed", "%s op%d from %d to %d did not succeed: %s", c.kind, c.op.ID, c.proc, c.op.To, c.txt)
			}
			h.probe("shared call")
		}
	}
}

// --- N10 ---

func (h *H) oracleN10() {
	for _, in := range h.incs() {
		if !in.alive || in.node == nil {
			continue
		}
		var cl []*call
		for _, c := range h.calls {
			if c.kind == "close" && c.grp == in.grp {
				cl = append(cl, c)
			}
		}
		if len(cl) == 0 {
			continue
		}
		lim := h.p.x("closein") + h.stall + 5*sec
		first := 1 << 60
		for _, c := range cl {
			if !c.done {
				h.bad("close-hung", "Close of process %d, called at %s, never returned: %s", in.proc, h.at(c.bs), h.liveText(in.grp))
				continue
			}
			if c.et-c.bt > lim {
				h.bad("close-slow", "Close of process %d took %.1fs", in.proc, float64(c.et-c.bt)/1e9)
			}
			if c.es < first {
				first = c.es
			}
			h.probe("close judged")
		}
		if first == 1<<60 {
			continue
		}
		listening, lateBind := map[int64]bool{}, map[int64]bool{}
		closeFrom := 1 << 60
		for _, c := range cl {
			if c.bs < closeFrom {
				closeFrom = c.bs
			}
		}
		// late: bound by a Listen call that had not returned when Close began.
		late := func(i int) bool {
			for _, c := range h.calls {
				if c.kind == "listen" && c.grp == in.grp && c.bs < i && (!c.done || c.es > closeFrom) {
					return true
				}
			}
			return i > closeFrom
		}
		for i := range h.ev {
			e := &h.ev[i]
			switch e.K {
			case nListen:
				if int32(e.B) == in.grp {
					listening[e.A] = true
					lateBind[e.A] = late(i)
				}
			case nUnlisten:
				// A Listen that lost the race may have bound the port for a moment.
				if listening[e.A] && (i < first || lateBind[e.A]) {
					delete(listening, e.A)
				}
			}
			if i <= first || e.Grp != in.grp {
				continue
			}
			switch e.K {
			case hEnter, hExit, eConn, eDisc, eRecv, eSent, eCbX:
				if e.K == eCbX && e.B == 4 { // a call of the application still reports its own failed dial
					break
				}
				h.bad("after-close", "process %d: %s at %s, after Close returned at %s", in.proc, map[int32]string{eCbX: "a callback was still running", hEnter: "a handler ran", hExit: "a handler was still running", eConn: "a connection was reported", eDisc: "a disconnect was reported", eRecv: "received data was reported", eSent: "sent data was reported"}[e.K], h.at(i), h.at(first))
			}
		}
		if len(listening) > 0 {
			h.bad("port-held", "process %d still listens after Close returned", in.proc)
		}
		for _, k := range h.s.sortedSocks() {
			if k.grp != in.grp || k.gone || h.harnessSock(k) {
				continue
			}
			if at, ok := h.closeAt[k.id]; !k.closed || !ok || at > first {
				// A connection nobody accepted belongs to the kernel.
				if k.side == 1 && !h.accepted(k.id) {
					continue
				}
				if !k.closed && k.err == 0 || ok && at > first {
					h.bad("open-after-close", "process %d: connection %d was still open when Close returned", in.proc, k.conn.id)
				} else if !k.closed {
					h.bad("open-after-close", "process %d: connection %d was never closed", in.proc, k.conn.id)
				}
			}
		}
		for i := range h.ev {
			e := &h.ev[i]
			if e.K == pLive && e.B == int64(in.grp) && e.T >= h.ev[first].T+4*sec && e.C > 0 {
				h.bad("goroutines-left", "process %d: %d goroutines of the node remain at %s after Close: %s", in.proc, e.C, h.at(i), e.S)
				break
			}
		}
		for _, c := range h.calls {
			if c.grp == in.grp && !c.done && (c.kind == "send" || c.kind == "req" || c.kind == "ping") {
				h.bad("call-hung", "%s op%d of closed process %d never returned", c.kind, c.op.ID, in.proc)
			}
		}
		if ib, ob, ok := h.finalLists(in.grp); ok && len(ib)+len(ob) > 0 {
			h.bad("listed-after-close", "closed process %d lists %d connections", in.proc, len(ib)+len(ob))
		}
	}
	// Remote peers see the disconnect.
	for _, c := range h.cls {
		if c.sock == nil || !h.alive(c.grp) || h.closedGrp(c.grp) >= 0 || c.discAt >= 0 || c.connAt < 0 {
			continue
		}
		if o := h.inc(c.sock.out.to.grp); o != nil && h.closedGrp(o.grp) >= 0 {
			h.bad("remote-unaware", "process %d was not told that its connection with closed process %d ended", c.proc, o.proc)
		}
	}
}

func (h *H) liveText(grp int32) string {
	for i := range h.ev {
		e := &h.ev[i]
		if e.K == pLive && e.B == int64(grp) && strings.HasPrefix(e.S, "end:") {
			return e.S
		}
	}
	return ""
}

func (h *H) harnessSock(k *sock) bool { return false }

func (h *H) accepted(sock int64) bool {
	for i := range h.ev {
		if e := &h.ev[i]; e.K == nAccept && e.A == sock {
			return true
		}
	}
	return false
}

// --- N11 ---

func (h *H) oracleN11() {
	for _, c := range h.cls {
		pr := &h.p.Procs[c.proc]
		np := pr.NProto
		if np == 0 {
			np = 1
		}
		alive := h.alive(c.grp)
		for i := 0; i < np; i++ {
			if n := c.conn[i]; n > 1 || n == 0 && alive {
				h.bad("connect-count", "process %d, peer %d: %d connect events for protocol %d", c.proc, c.peer, n, i)
			}
			if n := c.disc[i]; n > 1 {
				h.bad("disconnect-count", "process %d, peer %d: %d disconnect events for protocol %d", c.proc, c.peer, n, i)
			}
		}
		if c.connAt < 0 && c.discAt >= 0 {
			h.bad("disconnect-unconnected", "process %d: disconnect event at %s of a connection that never completed its handshake", c.proc, h.at(c.discAt))
			continue
		}
		if c.discAt >= 0 && c.discAt < c.lastCon {
			h.bad("disconnect-early", "process %d, peer %d: disconnect event at %s before connect event at %s", c.proc, c.peer, h.at(c.discAt), h.at(c.lastCon))
		}
		if !alive || c.sock == nil {
			continue
		}
		ended := c.sock.closed || c.sock.err != 0
		if c.discAt >= 0 {
			for i := 0; i < np; i++ {
				if c.disc[i] == 0 {
					h.bad("disconnect-count", "process %d, peer %d: no disconnect event for protocol %d", c.proc, c.peer, i)
				}
			}
			if !c.sock.closed {
				h.bad("disconnect-open", "process %d, peer %d: reported as disconnected but its socket stays open", c.proc, c.peer)
			}
			if c.derr == "" && !h.late(c.discAt) {
				h.bad("no-error", "process %d, peer %d: disconnected at %s without an error", c.proc, c.peer, h.at(c.discAt))
			}
			if c.hasF && c.ferr != c.derr {
				h.bad("error-changed", "process %d, peer %d: error %q became %q", c.proc, c.peer, c.derr, c.ferr)
			}
			if d := c.discT - c.sock.closeT; c.sock.closed && d > h.slack() {
				h.bad("disconnect-late", "process %d, peer %d: connection closed %.1fs before its disconnect event", c.proc, c.peer, float64(d)/1e9)
			}
			h.probe("disconnect judged")
		} else if ended {
			h.bad("no-disconnect", "process %d, peer %d: connection %d ended but there was no disconnect event", c.proc, c.peer, c.sock.conn.id)
		}
	}
	for _, x := range h.hand {
		c := h.tagBy[x.tag]
		if c == nil {
			if x.tag != 0 && h.p.x("notag") == 0 {
				h.bad("handled-unconnected", "process %d handled %s at %s of a connection that was never reported as connected", x.proc, msgName(x.id), h.at(x.seq))
			}
			continue
		}
		if x.seq < c.lastCon {
			h.bad("handled-early", "process %d handled %s at %s before the connect event at %s", x.proc, msgName(x.id), h.at(x.seq), h.at(c.lastCon))
		}
	}
	for _, c := range h.calls {
		if c.dead || c.kind != "waitc" && c.kind != "waitr" {
			continue
		}
		cl := h.clBy[c.to]
		if c.kind == "waitr" {
			if !c.done && cl != nil && cl.connAt >= 0 {
				h.bad("wait-hung", "WaitUntilReady of process %d never returned although the connection got ready", c.proc)
			}
			if c.done && cl != nil && cl.connAt >= 0 && c.es < cl.lastCon {
				h.bad("wait-early", "WaitUntilReady of process %d returned at %s before the handshake was done at %s", c.proc, h.at(c.es), h.at(cl.lastCon))
			}
			if c.done {
				h.probe("ready awaited")
			}
			continue
		}
		if !c.done {
			if cl != nil && cl.discAt >= 0 {
				h.bad("wait-hung", "WaitUntilClosed of process %d never returned although the connection ended at %s", c.proc, h.at(cl.discAt))
			}
			continue
		}
		h.probe("closure awaited")
		if cl != nil && cl.connAt >= 0 && (cl.discAt < 0 || cl.discAt > c.es) {
			h.bad("wait-early", "WaitUntilClosed of process %d returned at %s before the disconnect event (%s)", c.proc, h.at(c.es), h.at(cl.discAt))
		}
		if cl != nil && cl.sock != nil {
			if at, ok := h.closeAt[cl.sock.id]; !ok || at > c.es {
				h.bad("wait-early", "WaitUntilClosed of process %d returned at %s while the socket was open", c.proc, h.at(c.es))
			}
		}
	}
	for i := range h.ev {
		e := &h.ev[i]
		if e.K != oMisc || e.B != 5 {
			continue
		}
		if e.D == 1 {
			h.bad("closed-listed", "process %d still lists a connection at %s after waiting for its closure", e.A, h.at(i))
		}
		if e.S == "" {
			h.bad("no-error", "process %d: a closed connection has no error at %s", e.A, h.at(i))
		}
		if c := h.clBy[e.C]; c != nil && c.hasF && c.ferr != e.S {
			h.bad("error-changed", "process %d: error %q became %q", e.A, e.S, c.ferr)
		}
	}
}

// late tells whether a history position lies so close to the end that
// consequences may be missing.
func (h *H) late(i int) bool { return h.ev[i].T > startTime+h.p.End-h.slack() }

// --- N12 ---

func (h *H) oracleN12() {
	errConn := map[int]bool{}
	for _, x := range h.hand {
		if x.exit < 0 || x.err == "" {
			continue
		}
		h.probe("handler error")
		for _, y := range h.handBy[x.id] {
			if y.tag == x.tag && y.h > x.h {
				h.bad("later-handler", "handler %d of process %d ran on %s although handler %d failed on it", y.h, x.proc, msgName(x.id), x.h)
			}
		}
		c := h.tagBy[x.tag]
		if c == nil || c.sock == nil || !h.alive(x.grp) {
			continue
		}
		errConn[c.sock.conn.id] = true
		if h.late(x.exit) {
			continue
		}
		if c.discAt < 0 {
			h.bad("not-closed", "process %d: connection with %d stayed open although a handler failed at %s", c.proc, c.peer, h.at(x.exit))
			continue
		}
		if d := c.discT - x.et; d > h.slack()+h.p.x("slow") {
			h.bad("closed-late", "process %d: connection with %d was closed %.1fs after a handler failed", c.proc, c.peer, float64(d)/1e9)
		}
		// Did anything else happen to the connection first?
		first := true
		for i := range h.ev {
			e := &h.ev[i]
			if (e.K == nReset || e.K == nFin) && e.B == c.sock.id && i < c.discAt {
				first = false
			}
			if e.K == oMisc && e.B == 2 && e.C == c.ptr && i < c.discAt {
				first = false
			}
		}
		if at, ok := h.closeAt[c.sock.id]; ok && at < x.exit {
			first = false
		}
		if cl := h.closedGrp(x.grp); cl >= 0 && cl < c.discAt {
			first = false
		}
		if o := h.inc(c.sock.out.to.grp); o != nil {
			// The other end may have failed as well.
			if oc := h.sockCl[c.sock.out.to.id]; oc != nil && oc.discAt >= 0 && oc.discAt < c.discAt {
				first = false
			}
		}
		for _, y := range h.hand { // of several, any
			if y.tag == x.tag && y.err != "" && strings.Contains(c.derr, y.err) {
				first = false
			}
		}
		if first {
			h.bad("wrong-error", "process %d: connection with %d, closed as a handler failed, reports %q", c.proc, c.peer, c.derr)
		}
	}
	if h.p.x("calm") == 1 {
		for _, c := range h.cls {
			if c.sock == nil || c.discAt < 0 || errConn[c.sock.conn.id] || h.closedGrp(c.grp) >= 0 {
				continue
			}
			if o := h.inc(c.sock.out.to.grp); o == nil || h.closedGrp(o.grp) >= 0 {
				continue
			}
			h.bad("bystander-closed", "process %d: connection with %d, on which no handler failed, was closed at %s: %s", c.proc, c.peer, h.at(c.discAt), c.derr)
		}
	}
	h.capacity()
}

// capacity: a burst of slow messages, as many as there are workers, is
// handled all at once.
func (h *H) capacity() {
	type ck struct {
		proc int
	}
	by := map[int][]*handled{}
	sent := map[int]int{}
	for _, c := range h.calls {
		if c.op == nil || c.op.N != 77 || c.kind != "send" {
			continue
		}
		if !c.done || c.status != 0 {
			h.bad("probe-failed", "send op%d from %d to %d failed: %s", c.op.ID, c.proc, c.op.To, c.txt)
			return
		}
		sent[c.op.To]++
		l := h.handBy[int64(c.op.ID)]
		if len(l) == 0 {
			h.bad("capacity", "op%d from %d to %d was never handled", c.op.ID, c.proc, c.op.To)
			return
		}
		by[c.op.To] = append(by[c.op.To], l[0])
	}
	for p, l := range by {
		var lastIn, firstOut int64 = 0, 1 << 62
		for _, x := range l {
			if x.t > lastIn {
				lastIn = x.t
			}
			if x.exit >= 0 && x.et < firstOut {
				firstOut = x.et
			}
		}
		if lastIn >= firstOut {
			h.bad("capacity", "process %d with %d workers did not handle %d messages at the same time", p, h.p.Procs[p].Workers, len(l))
		}
		h.probe("worker capacity judged")
	}
}

// --- N13 ---

func (h *H) oracleN13() {
	end := startTime + h.p.End
	for _, k := range h.s.sortedSocks() {
		in := h.inc(k.grp)
		if in == nil || in.pr.Kind != "" || !in.alive || k.gone {
			continue
		}
		if k.side == 1 && !h.accepted(k.id) {
			continue
		}
		T := in.pr.IdleNs
		if T <= 0 {
			continue
		}
		last := k.conn.start
		if k.lastRd > last {
			last = k.lastRd
		}
		till := end
		if k.closed {
			till = k.closeT
		}
		h.probe("idle connection judged")
		if till-last > T+h.slack()+h.p.x("slow") {
			if k.closed {
				h.bad("reclaimed-late", "process %d closed connection %d %.1fs after it last received anything; timeout %.1fs", in.proc, k.conn.id, float64(till-last)/1e9, float64(T)/1e9)
			} else {
				h.bad("not-reclaimed", "process %d still holds connection %d, on which it received nothing for %.1fs; timeout %.1fs", in.proc, k.conn.id, float64(till-last)/1e9, float64(T)/1e9)
			}
		}
	}
	if h.p.x("steady") != 0 {
		// No faults: a timeout may only strike after silence.
		for _, c := range h.cls {
			if c.sock == nil || c.discAt < 0 {
				continue
			}
			T := h.p.Procs[c.proc].IdleNs
			if T <= 0 {
				if h.netTimeout(c.derr) {
					h.bad("timeout-unset", "process %d: connection with %d timed out although no timeout is configured: %s", c.proc, c.peer, c.derr)
				}
				continue
			}
			if !h.netTimeout(c.derr) {
				continue
			}
			last := c.sock.conn.start
			if c.sock.lastFr > last {
				last = c.sock.lastFr
			}
			at := c.sock.closeT
			if at-last < T {
				h.bad("active-closed", "process %d closed connection %d with %d for idleness %.3fs after it received a message; timeout %.3fs", c.proc, c.sock.conn.id, c.peer, float64(at-last)/1e9, float64(T)/1e9)
			}
		}
	}
	if h.p.x("keep") != 0 {
		// Traffic is frequent enough: nothing may be dropped or lost.
		for _, c := range h.cls {
			if c.discAt >= 0 && h.ev[c.discAt].T < startTime+h.p.x("keep") {
				h.bad("active-closed", "process %d: connection with %d was closed at %s although it was in use: %s", c.proc, c.peer, h.at(c.discAt), c.derr)
			}
		}
		for _, c := range h.calls {
			if c.op == nil || h.notUp(c) || c.kind != "send" && c.kind != "req" {
				continue
			}
			if !c.done || c.status != 0 {
				h.bad("lost", "%s op%d from %d to %d failed: %s", c.kind, c.op.ID, c.proc, c.op.To, c.txt)
				continue
			}
			h.checkHandled(int64(c.op.ID), c.op.To, 0, c.es)
			if c.kind == "send" {
				for k := 0; k < c.op.Back; k++ {
					h.checkHandled(int64(c.op.ID|uint32(k)<<16|idBack), c.proc, 0, c.es)
				}
			}
			h.probe("message on a kept connection")
		}
	}
	if h.p.x("never") != 0 {
		for _, c := range h.cls {
			if c.discAt >= 0 {
				h.bad("closed-without-timeout", "process %d: connection with %d was closed at %s although no timeout is configured: %s", c.proc, c.peer, h.at(c.discAt), c.derr)
			}
		}
		for _, c := range h.calls {
			if c.op != nil && !h.notUp(c) && (!c.done || c.status != 0) && (c.kind == "send" || c.kind == "req" || c.kind == "ping") {
				h.bad("lost", "%s op%d from %d to %d failed: %s", c.kind, c.op.ID, c.proc, c.op.To, c.txt)
			}
		}
	}
}

// ended: the context of the call had.
func ended(s string) bool {
	return strings.Contains(s, context.Canceled.Error()) || strings.Contains(s, context.DeadlineExceeded.Error())
}

func (h *H) netTimeout(s string) bool { return strings.Contains(s, "i/o timeout") }

// --- N14 ---

func (h *H) oracleN14() {
	t0 := startTime + h.p.x("repaired")
	by := map[string][]*call{}
	var keys []string
	for _, c := range h.calls {
		if c.bt < t0 || c.op == nil || c.op.N != 88 {
			continue
		}
		k := fmt.Sprint(c.proc, ">", c.op.To)
		if by[k] == nil {
			keys = append(keys, k)
		}
		by[k] = append(by[k], c)
	}
	for _, k := range keys {
		l := by[k]
		h.probe("pair probed")
		for i, c := range l {
			if i < len(l)-3 {
				continue
			}
			if !c.done || c.status != 0 {
				st := "never returned"
				if c.done {
					st = "failed: " + c.txt
				}
				h.bad("no-service", "%s op%d from %d to %d (attempt %d after all faults were repaired) %s", c.kind, c.op.ID, c.proc, c.op.To, i+1, st)
				break
			}
			if c.kind == "send" && len(h.handBy[int64(c.op.ID)]) == 0 {
				h.bad("no-service", "send op%d from %d to %d (attempt %d after all faults were repaired) was never handled", c.op.ID, c.proc, c.op.To, i+1)
				break
			}
		}
	}
	h.settled()
}

// --- N15 ---

func (h *H) oracleN15() {
	handledBy := map[int64]int{}
	for _, x := range h.hand {
		if x.h == 0 {
			handledBy[x.tag]++
		}
	}
	for _, c := range h.cls {
		pr := &h.p.Procs[c.proc]
		np := pr.NProto
		if np == 0 {
			np = 1
		}
		if c.connAt < 0 {
			h.bad("event-unconnected", "process %d: traffic events for a connection that was never reported as connected", c.proc)
			continue
		}
		if c.firstRS >= 0 && c.firstRS < c.lastCon {
			h.bad("event-early", "process %d, peer %d: traffic event at %s before the connect event at %s", c.proc, c.peer, h.at(c.firstRS), h.at(c.lastCon))
		}
		if !h.alive(c.grp) || c.sock == nil {
			continue
		}
		live := sockUp(c.sock) && c.discAt < 0
		for i := 1; i < np; i++ {
			if c.recv[i] != c.recv[0] || c.sent[i] != c.sent[0] {
				h.bad("event-uneven", "process %d, peer %d: protocol 0 got %d receive and %d send events, protocol %d got %d and %d", c.proc, c.peer, c.recv[0], c.sent[0], i, c.recv[i], c.sent[i])
			}
		}
		read := c.sock.rd.cnt - 2
		switch {
		case c.recv[0] > read:
			h.bad("recv-excess", "process %d, peer %d: %d receive events but only %d messages were received", c.proc, c.peer, c.recv[0], read)
		case live && c.recv[0] != read:
			h.bad("recv-missing", "process %d, peer %d: %d messages were received on a live connection but there are %d receive events", c.proc, c.peer, read, c.recv[0])
		case c.recv[0] < handledBy[c.tag]:
			h.bad("recv-missing", "process %d, peer %d: %d messages were handled but there are %d receive events", c.proc, c.peer, handledBy[c.tag], c.recv[0])
		}
		h.probe("connection judged")
	}
	// Sent events.
	type st struct{ wrote, told int }
	by := map[int64]*st{}
	for i := range h.ev {
		e := &h.ev[i]
		switch e.K {
		case nWr:
			if c := h.sockCl[e.B]; c != nil {
				x := by[c.ptr]
				if x == nil {
					x = &st{}
					by[c.ptr] = x
				}
				x.wrote = int(e.C) - 2
			}
		case eSent:
			if e.B != 0 {
				continue
			}
			c := h.clBy[e.C]
			x := by[e.C]
			if x == nil {
				x = &st{}
				by[e.C] = x
			}
			if c.sock != nil && x.wrote <= x.told {
				h.bad("sent-early", "process %d, peer %d: sent data was reported at %s although nothing new was written", c.proc, c.peer, h.at(i))
			}
			x.told = x.wrote
		}
	}
	for _, c := range h.cls {
		x := by[c.ptr]
		if x == nil || !h.alive(c.grp) || c.sock == nil || !sockUp(c.sock) || c.discAt >= 0 {
			continue
		}
		if x.wrote > x.told {
			h.bad("sent-missing", "process %d, peer %d: %d messages were written but sent data was last reported after %d", c.proc, c.peer, x.wrote, x.told)
		}
		if x.wrote > 0 {
			h.probe("written data judged")
		}
	}
}
