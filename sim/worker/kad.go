package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"math/bits"
	"net"
	"strings"
	"sync"
	"time"

	"github.com/perlin-network/noise"
	"github.com/perlin-network/noise/gossip"
	"github.com/perlin-network/noise/kademlia"
)

func prefixLen(a, b noise.PublicKey) int {
	for i := range a {
		if x := a[i] ^ b[i]; x != 0 {
			return i*8 + bits.LeadingZeros8(x)
		}
	}
	return 256
}

func closer(t, a, b noise.PublicKey) bool {
	for i := range t {
		x, y := a[i]^t[i], b[i]^t[i]
		if x != y {
			return x < y
		}
	}
	return false
}

type kadNode struct {
	p *kademlia.Protocol
}

type gosNode struct {
	p *gossip.Protocol
}

// The numbers under which the protocols register their messages, in the
// order in which the harness binds them.
const (
	opPing = iota
	opPong
	opFind
	opFound
	opGossip
)

func (in *inc) setupKad() {
	pi := int64(in.proc)
	ev := kademlia.Events{
		OnPeerAdmitted: func(id noise.ID) { logEv(kAdm, pi, 0, int64(procOfKey(id.ID)), 0, idText(id)) },
		OnPeerActivity: func(id noise.ID) { logEv(kAct, pi, 0, int64(procOfKey(id.ID)), 0, idText(id)) },
		OnPeerEvicted:  func(id noise.ID) { logEv(kEv, pi, 0, int64(procOfKey(id.ID)), 0, idText(id)) },
	}
	o := []kademlia.ProtocolOption{kademlia.WithProtocolEvents(ev)}
	if in.pr.KadPing > 0 {
		o = append(o, kademlia.WithProtocolPingTimeout(time.Duration(in.pr.KadPing)))
	}
	in.kad = &kadNode{kademlia.New(o...)}
	if in.pr.Gossip {
		in.node.Handle(func(ctx noise.HandlerContext) error {
			if d := ctx.Data(); len(d) >= 2 && binary.BigEndian.Uint16(d) == opGossip && !ctx.IsRequest() {
				id, _ := readGossip(d[2:])
				logEv(gIn, pi, int64(procOfKey(ctx.ID().ID)), id, int64(len(d)-2), "")
			}
			return nil
		})
	}
	in.node.Bind(in.kad.p.Protocol())
	if in.pr.Gossip {
		in.gos = &gosNode{gossip.New(in.kad.p, gossip.WithEvents(gossip.Events{
			OnGossipReceived: func(sender noise.ID, data []byte) error {
				id, prob := readGossip(data)
				logEv(gRecv, pi, int64(procOfKey(sender.ID)), id, int64(len(data)), prob)
				if in.pr.Slow > 0 {
					time.Sleep(time.Duration(in.pr.Slow))
				}
				if m := in.pr.X["gerr"]; m > 0 && (id*7+pi*5)%m == 0 {
					return errHandler
				}
				return nil
			},
		}))}
		in.node.Bind(in.gos.p.Protocol())
	}
}

// How much payloads have in common.
const (
	famNone   = iota
	famSuffix // all but the last bytes
	famMiddle // all but bytes in the middle
	famLength // all: one is the beginning of another
)

var gosFam int64

func gosPayload(id uint32, size int) []byte {
	if size < 4 || gosFam == famNone {
		return payload(id, size)
	}
	b := make([]byte, size, size+int(id%3)*20)
	fill(b, 77)
	switch gosFam {
	case famSuffix:
		binary.BigEndian.PutUint32(b[size-4:], id)
	case famMiddle:
		binary.BigEndian.PutUint32(b[size/2-2:], id)
	}
	return b
}

func readGossip(b []byte) (int64, string) {
	n := len(b)
	if n < 4 || gosFam == famNone {
		return readPayload(b)
	}
	var id uint32
	switch gosFam {
	case famSuffix:
		id = binary.BigEndian.Uint32(b[n-4:])
	case famMiddle:
		id = binary.BigEndian.Uint32(b[n/2-2:])
	case famLength:
		for k := uint32(0); k < 65536 && k <= maxOp; k++ {
			if o := opByID[k]; o != nil && (o.K == "push" || o.K == "kgossip") && uint32(o.N) == k && o.Size == n {
				id = k
				break
			}
		}
	}
	o := opByID[id]
	switch {
	case o == nil || o.K != "push" && o.K != "kgossip":
		return int64(id), "unknown message id"
	case o.Size != n:
		return int64(id), fmt.Sprintf("length %d, sent %d", n, o.Size)
	case !bytes.Equal(gosPayload(id, n), b):
		return int64(id), "content altered"
	}
	return int64(id), ""
}

func (k *kadNode) list(in *inc, n int64) {
	if k.p.Table() == nil {
		return
	}
	for _, id := range k.p.Table().Entries() {
		logEv(kTab, int64(in.proc), n, int64(procOfKey(id.ID)), 0, idText(id))
	}
	logEv(kTab, int64(in.proc), n, -2, int64(k.p.Table().NumEntries()), "")
}

func (k *kadNode) final(in *inc) { k.list(in, 1000) }

// target of a lookup: "p3" the key of process 3, "r7" a random key.
func (in *inc) target(s string) (t noise.PublicKey) {
	n := 0
	fmt.Sscanf(s[1:], "%d", &n)
	if s[0] == 'p' {
		return procPub[n]
	}
	r := newRng(in.plan.Seed, 0x7a6, uint64(n))
	for i := range t {
		t[i] = byte(r.u64())
	}
	if s[0] == 'n' { // near the key of process n
		t = procPub[n%len(procPub)]
		t[31] ^= byte(1 + r.n(255))
	}
	return
}

func (in *inc) extraOp(cid int64, op *Op) bool {
	pi := int64(in.proc)
	begin := func(s string) { logEv(cBegin, cid, pi, int64(op.ID), int64(op.To), s) }
	end := func(err error) { logEv(cEnd, cid, pi, errStatus(err), 0, errText(err)) }
	switch op.K {
	case "find":
		t := in.target(op.S)
		begin("find " + hex.EncodeToString(t[:]))
		for _, id := range in.kad.p.Find(t, findOpts(op)...) {
			logEv(kRes, pi, cid, int64(procOfKey(id.ID)), 0, idText(id))
		}
		end(nil)
	case "discover":
		begin("discover")
		for _, id := range in.kad.p.Discover(findOpts(op)...) {
			logEv(kRes, pi, cid, int64(procOfKey(id.ID)), 0, idText(id))
		}
		end(nil)
	case "kping":
		ctx, done := in.mkCtx(op)
		begin("kping " + in.opAddr(op))
		end(in.kad.p.Ping(ctx, in.opAddr(op)))
		done()
	case "kdel":
		begin("kdel")
		in.kad.p.Table().Delete(procPub[op.To])
		end(nil)
	case "ktell": // messages on a connection of old
		begin("ktell")
		var err error
		if len(in.kpConns) == 0 || in.kpConns[0].dead {
			err = errGarbled
		} else {
			for i := 0; i < op.N; i++ {
				in.kpConns[0].send(0, []byte{0x77, 0x77, byte(i)})
			}
		}
		end(err)
	case "ktab":
		in.kad.list(in, int64(op.N))
	case "push":
		ctx, done := in.mkCtx(op)
		begin("push")
		in.gos.p.Push(ctx, gosPayload(uint32(op.N), opByID[uint32(op.N)].Size))
		end(nil)
		done()
	case "kdial":
		c, err := net.Dial("tcp", procAddrOrIP(in.plan, op.To))
		if err != nil {
			return true
		}
		k := in.kpConn(c)
		if k == nil {
			return true
		}
		in.kpConns = append(in.kpConns, k)
		go k.serve()
	case "kreq": // N pings over a connection of its own
		begin("kreq")
		n := 0
		var k *kpConn
		for i := 0; i < op.N; i++ {
			for k == nil || k.dead {
				c, err := net.Dial("tcp", procAddrOrIP(in.plan, op.To))
				if err != nil {
					break
				}
				if k = in.kpConn(c); k != nil {
					go k.serve()
				} else {
					time.Sleep(time.Duration(sec))
				}
			}
			if k == nil {
				break
			}
			if k.request([]byte{0, opPing}, 60*sec) {
				n++
			}
			if op.Delay > 0 {
				time.Sleep(time.Duration(op.Delay))
			}
		}
		logEv(cEnd, cid, pi, 0, int64(n), "")
	case "kgossip": // sends gossip, again and again
		c, err := net.Dial("tcp", procAddrOrIP(in.plan, op.To))
		if err != nil {
			return true
		}
		k := in.kpConn(c)
		if k == nil {
			return true
		}
		go k.serve()
		m := append([]byte{0, opGossip}, gosPayload(uint32(op.N), opByID[uint32(op.N)].Size)...)
		logEv(cBegin, cid, pi, int64(op.ID), int64(op.To), "kgossip")
		for i := 0; i < op.Ans; i++ {
			k.send(0, m)
			time.Sleep(time.Duration(op.Delay))
		}
		logEv(cEnd, cid, pi, 0, 0, "")
	case "poke":
		in.poke(op)
	case "codec":
		in.codecOp(op)
	case "tab":
		in.tabOp(op)
	case "kraw": // malformed protocol messages
		c, err := net.Dial("tcp", procAddrOrIP(in.plan, op.To))
		if err != nil {
			return true
		}
		k := in.kpConn(c)
		if k == nil {
			return true
		}
		go k.serve()
		r := newRng(in.plan.Seed, 0x6a1, uint64(op.ID))
		for i := 0; i < op.N; i++ {
			b := make([]byte, 2+r.pick(0, 0, 1, 31, 32, 33, 50, 51, 60, 200))
			for j := range b {
				b[j] = byte(r.u64())
			}
			binary.BigEndian.PutUint16(b, uint16(r.pick(0, 1, 2, 3, 4, 5, 6, 65535)))
			if r.p(1, 6) {
				b = b[:r.n(2)]
			}
			k.send(uint64(r.pick(0, 0, 1, 2, 1000)), b)
		}
	default:
		return false
	}
	return true
}

// --- harness peers that speak Kademlia ---

type kpConn struct {
	in   *inc
	a    *rawPeer
	mu   sync.Mutex
	pend map[uint64]chan bool
	next uint64
	dead bool
}

func (in *inc) kpConn(c net.Conn) *kpConn {
	in.kpSeq++
	a := &rawPeer{in: in, c: c, rd: bufio.NewReader(c), r: newRng(in.plan.Seed, 0xa79, uint64(in.proc), uint64(in.n), uint64(in.kpSeq))}
	if !a.valid() {
		c.Close()
		return nil
	}
	return &kpConn{in: in, a: a, pend: map[uint64]chan bool{}}
}

func (k *kpConn) send(nonce uint64, b []byte) {
	m := k.a.msg(nonce, b)
	k.mu.Lock()
	defer k.mu.Unlock()
	k.a.write(m)
}

func (k *kpConn) request(b []byte, to int64) bool {
	if k.dead {
		return false
	}
	k.next++
	n := k.next
	ch := make(chan bool, 1)
	k.pend[n] = ch
	k.send(n, b)
	select {
	case ok := <-ch:
		return ok
	case <-time.After(time.Duration(to)):
		return false
	}
}

func (k *kpConn) serve() {
	for {
		f, err := k.a.read()
		if err != nil {
			break
		}
		m, err := k.a.open(f)
		if err != nil || len(m) < 8 {
			break
		}
		n := binary.BigEndian.Uint64(m)
		if ch := k.pend[n]; n != 0 && ch != nil {
			delete(k.pend, n)
			ch <- true
			continue
		}
		if len(m) < 10 {
			continue
		}
		k.handle(n, binary.BigEndian.Uint16(m[8:]), m[10:])
	}
	k.dead = true
	k.a.c.Close()
	for _, ch := range k.pend {
		ch <- false
	}
	k.pend = map[uint64]chan bool{}
}

// How a harness peer answers.
const (
	kaGood = iota
	kaSilent
	kaClose
	kaGarbage
	kaSlow
	kaOther // a message of another type
	kaTrunc
	kaEmpty
	kaDie
	kaLast
)

func (k *kpConn) handle(n uint64, op uint16, body []byte) {
	in := k.in
	pr := in.pr
	if op != opPing && op != opFind {
		return
	}
	mode := int(pr.X["mode"])
	if now := world.now() - startTime; now < pr.X["from"] || pr.X["until"] > 0 && now >= pr.X["until"] {
		mode = kaGood
	}
	if op == opPing && pr.X["pingok"] != 0 {
		mode = kaGood
	}
	tgt := ""
	if op == opFind {
		tgt = hex.EncodeToString(body)
	}
	logEv(kReq, int64(in.proc), int64(op), int64(k.a.peerProc()), 0, tgt)
	answer := func() {
		var b []byte
		if op == opPing {
			b = []byte{0, opPong}
		} else {
			b = append([]byte{0, opFound}, k.refs(body)...)
		}
		switch mode {
		case kaGarbage:
			b = k.a.rnd(k.a.r.n(100))
			if k.a.r.p(1, 2) && len(b) >= 2 {
				b[0], b[1] = 0, opFound
				if op == opPing {
					b[1] = byte(200 + k.a.r.n(50))
				}
			}
		case kaOther:
			b = []byte{0, opPong}
			if op == opPing {
				b = append([]byte{0, opFound}, 0)
			}
		case kaTrunc:
			b = b[:k.a.r.n(len(b))]
		case kaEmpty:
			b = nil
		}
		logEv(kAns, int64(in.proc), int64(op), int64(mode), 0, tgt)
		k.send(n, b)
	}
	switch mode {
	case kaSilent:
		world.fault("peer-silent")
	case kaClose:
		world.fault("peer-hangs-up")
		k.a.c.Close()
	case kaDie:
		world.fault("peer-hangs-up")
		pr.X["mode"] = kaClose
		k.a.c.Close()
	case kaSlow:
		world.fault("peer-slow")
		go func() {
			time.Sleep(time.Duration(pr.X["delay"]))
			answer()
		}()
	default:
		if mode != kaGood {
			world.fault("peer-answers-garbage")
		}
		answer()
	}
}

// refs is the peer's answer to a lookup. Some of what it knows exists.
func (k *kpConn) refs(target []byte) []byte {
	in := k.in
	r := newRng(in.plan.Seed, 0x4ef, uint64(in.proc))
	var l []noise.ID
	for i := range in.plan.Procs {
		if i == in.proc && r.p(2, 3) {
			continue
		}
		if r.p(int(in.pr.X["know"]), 10) {
			l = append(l, noise.NewID(procPub[i], net.ParseIP(hostIP(in.plan.Procs[i].Host)), in.plan.Procs[i].Port))
		}
	}
	for i, n := 0, int(in.pr.X["fake"]); i < n; i++ {
		l = append(l, fakeID(in.plan, in.proc%3, i))
	}
	for i, n := 0, int(in.pr.X["spoof"]); i < n; i++ { // identities nobody has, at addresses of others
		id := fakeID(in.plan, 50+in.proc, i)
		pr := &in.plan.Procs[r.n(len(in.plan.Procs))]
		l = append(l, noise.NewID(id.ID, net.ParseIP(hostIP(pr.Host)), pr.Port))
	}
	if in.pr.X["dup"] != 0 {
		l = append(l, l...)
	}
	if len(l) > 255 {
		l = l[:255]
	}
	b := []byte{byte(len(l))}
	for _, id := range l {
		b = append(b, id.Marshal()...)
	}
	return b
}

// fakeID is an identity nobody has, at an address nobody answers at.
func fakeID(p *Plan, set, i int) noise.ID {
	var k noise.PublicKey
	r := newRng(p.Seed, 0xfa4e, uint64(set), uint64(i))
	for j := range k {
		k[j] = byte(r.u64())
	}
	ip := fmt.Sprintf("10.9.%d.%d", set, 1+i%250)
	if r.p(1, 2) {
		ip = hostIP(p.Procs[r.n(len(p.Procs))].Host)
	}
	return noise.NewID(k, net.ParseIP(ip), uint16(1000+set*100+i))
}

func (in *inc) kpMain() {
	l, err := net.Listen("tcp", fmt.Sprintf("%s:%d", hostIP(in.pr.Host), in.pr.Port))
	if err != nil {
		panic("harness: " + err.Error())
	}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go func() {
				if k := in.kpConn(c); k != nil {
					k.serve()
				}
			}()
		}
	}()
	in.threads()
}

func (in *inc) peerMain() {
	if in.pr.Kind == "tab" {
		in.tabMain()
		return
	}
	if in.pr.Kind == "kp" {
		in.kpMain()
		return
	}
	in.atkMain()
}

var _ = context.Background
var _ = strings.Join

func findOpts(op *Op) (o []kademlia.IteratorOption) {
	if op.N > 0 {
		o = append(o, kademlia.WithIteratorMaxNumResults(op.N))
	}
	if op.Ans > 0 {
		o = append(o, kademlia.WithIteratorNumParallelLookups(op.Ans))
	}
	if op.Back > 0 {
		o = append(o, kademlia.WithIteratorNumParallelRequestsPerLookup(op.Back))
	}
	if op.Delay > 0 {
		o = append(o, kademlia.WithIteratorLookupTimeout(time.Duration(op.Delay)))
	}
	return
}

func isBucketFull(err error) bool { return errors.Is(err, kademlia.ErrBucketFull) }
