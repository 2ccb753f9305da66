package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand"
	"sort"
)

// What an attacker on the path does to a frame.
const (
	mFlip     = iota + 1 // a bit of the frame, its header included
	mFlipBody            // a bit of its body
	mTrunc               // bytes missing, header as it was
	mTruncHdr            // bytes missing, header adapted
	mInsBytes            // bytes in the middle
	mInsFrame            // a random frame before it
	mSplice              // replaced by a frame of another connection
	mSpliceIn            // a frame of another connection before it
	mCut                 // the stream ends in it
	mJoin                // merged with the next frame into one
	mExtend              // bytes appended, header adapted
	mModes
	// Things the protocol does not defend against (a known finding).
	mDup     = 20 // twice
	mDrop    = 21 // missing
	mSwap    = 22 // after the next
	mReflect = 23 // back to where it came from
	mLater   = 24 // again, some frames later
)

var mitmNames = map[int]string{mFlip: "bit-flip", mFlipBody: "body-bit-flip", mTrunc: "truncated-frame", mTruncHdr: "shortened-frame", mInsBytes: "inserted-bytes", mInsFrame: "inserted-frame", mSplice: "spliced-frame", mSpliceIn: "spliced-in-frame", mCut: "cut-stream", mJoin: "joined-frames", mExtend: "extended-frame", mDup: "duplicated-frame", mDrop: "dropped-frame", mSwap: "swapped-frames", mReflect: "reflected-frame", mLater: "replayed-frame"}

// A mitmRule is one alteration of one frame.
type mitmRule struct {
	f    *Fault // A, B: processes; M: direction; N: frame; X: kind; Dur: parameter
	used bool
}

type wireFrame struct {
	conn int
	b    []byte
}

type filter struct {
	buf   []byte
	idx   int
	held  []byte // swapped
	again []byte
	when  int
	join  []byte
	dead  bool
}

func (s *sim) attachMitm(c *tconn) {
	if s.plan.X["mitm"] == 0 {
		return
	}
	c.a.out.filt, c.b.out.filt = &filter{}, &filter{}
}

func (s *sim) addMitm(f *Fault) { s.mitm = append(s.mitm, &mitmRule{f: f}) }

func (s *sim) ruleFor(p *pipe, idx int) *mitmRule {
	from, to := s.grpInc[p.from.grp], s.grpInc[p.to.grp]
	if from == nil || to == nil {
		return nil
	}
	for _, m := range s.mitm {
		if m.used || m.f.N > idx || m.f.N < 2 && m.f.N != idx {
			continue
		}
		a, b := from.proc, to.proc
		if m.f.M == 1 {
			a, b = b, a
		}
		if a == m.f.A && b == m.f.B {
			m.used = true
			return m
		}
	}
	return nil
}

func (f *filter) feed(s *sim, p *pipe, b []byte) []byte {
	if f.dead {
		return nil
	}
	var out []byte
	f.buf = append(f.buf, b...)
	for len(f.buf) >= 4 {
		n := int(binary.BigEndian.Uint32(f.buf))
		if len(f.buf) < 4+n {
			break
		}
		fr := append([]byte(nil), f.buf[:4+n]...)
		f.buf = f.buf[4+n:]
		out = append(out, f.frame(s, p, fr)...)
		f.idx++
		if f.dead {
			return out
		}
	}
	return out
}

func (f *filter) frame(s *sim, p *pipe, fr []byte) []byte {
	if f.join != nil {
		j := append(f.join, fr[4:]...)
		f.join = nil
		binary.BigEndian.PutUint32(j, uint32(len(j)-4))
		return j
	}
	m := s.ruleFor(p, f.idx)
	conn := p.from.conn.id
	if m == nil {
		s.seen = append(s.seen, wireFrame{conn, fr})
		if f.held != nil {
			fr = append(fr, f.held...)
			f.held = nil
		}
		if f.again != nil && f.idx >= f.when {
			fr = append(fr, f.again...)
			f.again = nil
		}
		return fr
	}
	mode := int(m.f.X)
	r := newRng(uint64(m.f.Dur), uint64(mode), 5)
	n := len(fr) - 4
	log := func() {
		s.fault(mitmNames[mode])
		logNet(nTamper, int64(conn), int64(p.from.side), int64(f.idx), mitmNames[mode])
	}
	rnd := func(k int) []byte {
		b := make([]byte, k)
		for i := range b {
			b[i] = byte(r.u64())
		}
		return b
	}
	foreign := func() []byte {
		var l []wireFrame
		for _, w := range s.seen {
			if w.conn != conn {
				l = append(l, w)
			}
		}
		if len(l) == 0 {
			return frameOf(rnd(28 + r.n(60)))
		}
		return l[r.n(len(l))].b
	}
	log()
	orig := append([]byte(nil), fr...)
	switch mode {
	case mFlip:
		fr[r.n(len(fr))] ^= 1 << r.n(8)
		if r.p(1, 6) {
			fr[r.n(4)] ^= 1 << r.n(8)
		}
		if bytes.Equal(fr, orig) {
			fr[0] ^= 1
		}
	case mFlipBody:
		if n > 0 {
			fr[4+r.n(n)] ^= 1 << r.n(8)
			if r.p(1, 4) {
				fr[4+(r.n(2)*(n-1))] ^= byte(1 + r.n(255))
			}
			if bytes.Equal(fr, orig) {
				fr[4] ^= 1
			}
		}
	case mTrunc, mTruncHdr:
		k := 1
		if n > 1 && r.p(1, 2) {
			k = 1 + r.n(n)
		}
		// The next frame begins with a zero byte: what is missing must not be
		// filled in by it.
		for k <= n && fr[len(fr)-k] == 0 {
			k++
		}
		if k > n {
			fr[r.n(len(fr))] ^= 1
			break
		}
		fr = fr[:len(fr)-k]
		if mode == mTruncHdr {
			binary.BigEndian.PutUint32(fr, uint32(len(fr)-4))
		}
	case mInsBytes:
		k := r.n(len(fr))
		ins := rnd(1 + r.n(40))
		if ins[0] == fr[k] {
			ins[0]++
		}
		fr = append(append(append([]byte{}, fr[:k]...), ins...), fr[k:]...)
	case mInsFrame:
		fr = append(frameOf(rnd(r.pick(0, 7, 12, 27, 28, 28+r.n(100)))), fr...)
	case mSplice:
		fr = foreign()
	case mSpliceIn:
		fr = append(append([]byte{}, foreign()...), fr...)
	case mExtend:
		fr = append(fr, rnd(1+r.n(30))...)
		binary.BigEndian.PutUint32(fr, uint32(len(fr)-4))
	case mCut:
		f.dead = true
		fr = fr[:r.n(len(fr))]
		p.finQ = true
	case mJoin:
		f.join = fr
		return nil
	case mDup:
		fr = append(fr, fr...)
	case mDrop:
		return nil
	case mSwap:
		f.held = fr
		return nil
	case mLater:
		f.again, f.when = fr, f.idx+1+r.n(4)
	case mReflect:
		q := p.to.out
		if q.filt != nil && len(q.filt.buf) == 0 && q.from.err == 0 && !q.from.closed {
			q.snd = append(q.snd, fr...)
			s.transmit(q)
		}
	}
	return fr
}

// --- workload ---

func (g *genr) genN07() {
	r := g.r
	n := r.pick(2, 2, 2, 3)
	g.nodes(n)
	g.calmNet()
	p := g.p
	p.Tap = true
	p.X["mitm"] = 1
	idle := r.pick64(0, 2*sec, 3*sec)
	for i := range p.Procs {
		p.Procs[i].IdleNs = idle
		p.Procs[i].NHand = 1
		p.Procs[i].MaxRecv = r.pick64(0, 1<<16)
	}
	known := r.p(1, 20)
	if known {
		p.X["known"] = 1
	}
	span := r.pick64(50*ms, sec, 4*sec)
	nt := 1 + r.n(5)
	used := map[[2]int]bool{}
	seeds := r.p(1, 3)
	for t := 0; t < nt; t++ {
		pr := r.n(n)
		if r.p(2, 3) {
			pr = 0
		}
		to := g.other(pr)
		used[[2]int{pr, to}] = true
		var ops []Op
		for k, m := 0, 2+r.n(10); k < m; k++ {
			o := g.traffic(to)
			if o.Size > 6000 {
				o.Size = 4 + r.n(6000)
			}
			if o.RSize > 6000 {
				o.RSize = 4 + r.n(6000)
			}
			o.Err = 0
			o.TO = r.pick64(5*sec, 20*sec)
			o.Wait = g.wait()
			ops = append(ops, o)
			if seeds && r.p(1, 3) {
				ops = append(ops, Op{K: "seed", N: r.n(2)})
			}
		}
		g.addThread(pr, 200*ms+r.n64(span), ops...)
	}
	var pairs [][2]int
	for k := range used {
		pairs = append(pairs, k)
	}
	sort.Slice(pairs, func(i, j int) bool {
		return pairs[i][0]*10+pairs[i][1] < pairs[j][0]*10+pairs[j][1]
	})
	for k, m := 0, r.n(5); k < m || known && k < 1; k++ {
		q := pairs[r.n(len(pairs))]
		f := Fault{At: r.n64(span), K: "mitm", A: q[0], B: q[1], M: r.n(2), N: r.pick(0, 1, 2, 2, 2, 3, 4, 5, 2+r.n(15)), X: int64(1 + r.n(mModes-1)), Dur: 1 + r.n64(1<<40)}
		if known {
			f.X = int64(mDup + r.n(5))
			if f.N < 2 {
				f.N = 2
			}
		}
		g.flt(f)
	}
	if r.p(1, 3) {
		q := pairs[r.n(len(pairs))]
		g.flt(Fault{At: 200*ms + r.n64(2*span), K: "rst", A: p.Procs[q[0]].Host, B: p.Procs[q[1]].Host, M: r.n(3)})
	}
	p.End = 300 * sec
}

// --- oracle ---

func framesOf(b []byte) [][]byte {
	var l [][]byte
	for len(b) >= 4 {
		n := int(binary.BigEndian.Uint32(b))
		if len(b) < 4+n {
			break
		}
		l = append(l, b[4:4+n])
		b = b[4+n:]
	}
	return l
}

func (h *H) oracleN07() {
	known := h.p.x("known") == 1
	rep := func(class, format string, a ...any) {
		if known {
			class = "session-replay"
		}
		h.bad(class, format, a...)
	}
	// Deliveries are genuine.
	h.genuine(rep)
	// Nothing from the altered frame on is taken in.
	type key struct {
		conn, dir int64
	}
	first := map[key]int64{}
	kind := map[key]string{}
	for i := range h.ev {
		if e := &h.ev[i]; e.K == nTamper {
			k := key{e.A, e.B}
			if _, ok := first[k]; !ok {
				first[k], kind[k] = e.C, e.S
			}
		}
	}
	for k, n := range first {
		c := h.s.conns[k.conn]
		to := c.b
		if k.dir == 1 {
			to = c.a
		}
		cl := h.sockCl[to.id]
		if n < 2 {
			if cl != nil && cl.connAt >= 0 {
				rep("accepted", "process %d accepted connection %d although handshake frame %d was altered (%s)", cl.proc, k.conn, n, kind[k])
			}
		} else if cl != nil && !known {
			if got := int64(cl.recv[0]); got > n-2 {
				rep("taken-in", "process %d took in %d messages on connection %d, whose frame %d (message %d) was altered (%s)", cl.proc, got, k.conn, n, n-1, kind[k])
			}
		}
		h.probe("altered frame judged")
		if known {
			continue
		}
		in := h.inc(to.grp)
		if in == nil || !in.alive {
			continue
		}
		complete := false
		switch kind[k] {
		case "body-bit-flip", "shortened-frame", "inserted-frame", "spliced-frame", "spliced-in-frame", "extended-frame", "cut-stream":
			complete = true
		}
		if (complete || in.pr.IdleNs > 0) && !to.closed && to.err == 0 {
			rep("kept", "process %d kept connection %d, on which frame %d was altered (%s)", in.proc, k.conn, n, kind[k])
		}
		h.probe("drop judged")
	}
	// Nonces.
	type use struct {
		conn, dir, i int
	}
	nonce := map[string]use{}
	for _, c := range h.s.conns {
		fa, fb := framesOf(c.a.out.tap), framesOf(c.b.out.tap)
		if len(fa) == 0 || len(fb) == 0 {
			continue
		}
		sa, sb := string(fa[0]), string(fb[0])
		if sb < sa {
			sa, sb = sb, sa
		}
		for d, l := range [2][][]byte{fa, fb} {
			for i, f := range l {
				if i == 0 || len(f) < 12 {
					continue
				}
				k := sa + sb + string(f[:12])
				if u, ok := nonce[k]; ok {
					h.bad("nonce-reuse", "frame %d of direction %d on connection %d has the nonce of frame %d of direction %d on connection %d", i, d, c.id, u.i, u.dir, u.conn)
				}
				nonce[k] = use{c.id, d, i}
				h.probe("nonce judged")
			}
		}
	}
	// Cleartext.
	win := map[uint64]uint32{}
	add := func(id uint32, size int) {
		if size < 20 {
			return
		}
		b := payload(id, size)
		for i := 4; i+8 <= len(b); i += 8 {
			win[binary.LittleEndian.Uint64(b[i:])] = id
		}
	}
	for id, op := range opByID {
		add(id, op.Size)
		for k := 0; k < op.Back; k++ {
			add(id|uint32(k)<<16|idBack, op.RSize)
		}
		for k := 0; k < op.Ans; k++ {
			add(id|uint32(k)<<16|idReply, op.RSize)
		}
	}
	for _, c := range h.s.conns {
		for _, q := range []*pipe{c.a.out, c.b.out} {
			for i := 0; i+8 <= len(q.tap); i++ {
				if id, ok := win[binary.LittleEndian.Uint64(q.tap[i:])]; ok {
					h.bad("cleartext", "part of %s is readable on connection %d", msgName(int64(id)), c.id)
					break
				}
			}
		}
	}
}

// genuine: everything handled or returned was sent, as it is, by whom it is
// attributed to, and at most once.
func (h *H) genuine(rep func(class, format string, a ...any)) {
	seen := map[string]bool{}
	for _, x := range h.hand {
		if x.prob != "" {
			rep("altered", "process %d handled data from %d that was never sent: %s", x.proc, x.sender, x.prob)
			continue
		}
		if x.id < 0 {
			continue
		}
		u := uint32(x.id)
		op := opByID[u&0xffff]
		from, to := opProc[u&0xffff], op.To
		if u&(idBack|idReply) != 0 {
			from, to = to, from
		}
		if x.sender != from || x.proc != to {
			rep("spliced", "process %d handled %s from %d as coming from %d; it was sent to %d", x.proc, msgName(x.id), from, x.sender, to)
		}
		k := fmt.Sprint(x.h, " ", x.id)
		if seen[k] {
			rep("duplicate", "process %d handled %s twice", x.proc, msgName(x.id))
		}
		seen[k] = true
		h.probe("delivery judged")
	}
	for _, c := range h.calls {
		if c.kind != "req" || !c.done || c.status != 0 || c.op == nil || c.op.RSize < 4 {
			continue
		}
		u := uint32(c.aux)
		if c.txt != "" || u&idReply == 0 || u&0xffff != c.op.ID {
			rep("altered", "request op%d of process %d returned %s %s", c.op.ID, c.proc, msgName(c.aux), c.txt)
		}
		h.probe("reply judged")
	}
}

func (in *inc) seedOp(op *Op) { rand.Seed(int64(1 + op.N)) }
