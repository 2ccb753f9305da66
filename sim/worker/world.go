package main

import (
	"bytes"
	"context"
	"crypto/ed25519"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"runtime"
	"strings"
	"time"
	"unsafe"

	"github.com/perlin-network/noise"
	"go.uber.org/zap"
)

const startTime = int64(1700000000) * sec

// Message ids: bits 0-15 op, 16-21 index, 29 forwarded, 30 reply, 31 sent
// back by a handler.
const (
	idFwd   = 1 << 29
	idReply = 1 << 30
	idBack  = 1 << 31
)

func fill(b []byte, id uint32) {
	r := newRng(uint64(id), 0x9a7)
	i := 0
	for ; i+8 <= len(b); i += 8 {
		binary.LittleEndian.PutUint64(b[i:], r.u64())
	}
	if i < len(b) {
		x := r.u64()
		for ; i < len(b); i++ {
			b[i] = byte(x)
			x >>= 8
		}
	}
}

func payload(id uint32, size int) []byte {
	b := make([]byte, size, size+int(id%3)*20) // what lies past its end is none of noise's business
	if size < 4 {
		return b
	}
	binary.BigEndian.PutUint32(b, id)
	fill(b[4:], id)
	return b
}

// readPayload identifies a payload. Negative ids are anonymous (tiny) ones.
func readPayload(b []byte) (int64, string) {
	if len(b) < 4 {
		for _, c := range b {
			if c != 0 {
				return -1 - int64(len(b)), "altered tiny payload"
			}
		}
		return -1 - int64(len(b)), ""
	}
	id := binary.BigEndian.Uint32(b)
	want, ok := payloadSize(id)
	if !ok {
		return int64(id), "unknown message id"
	}
	if want != len(b) {
		return int64(id), fmt.Sprintf("length %d, sent %d", len(b), want)
	}
	if !bytes.Equal(payload(id, want), b) {
		return int64(id), "content altered"
	}
	return int64(id), ""
}

func payloadSize(id uint32) (int, bool) {
	op := opByID[id&0xffff]
	if op == nil {
		return 0, false
	}
	if id&(idReply|idBack) != 0 {
		return op.RSize, true
	}
	return op.Size, true
}

var opByID map[uint32]*Op
var maxOp uint32
var opProc map[uint32]int
var world *sim

// inc is one incarnation of a process.
type inc struct {
	proc  int
	grp   int32
	start int64
	n     int // incarnation number
	alive bool
	node  *noise.Node
	pr    *Proc
	track []*noise.Client
	kad   *kadNode
	gos   *gosNode
	plan  *Plan
	x     any

	kpConns []*kpConn
	kpSeq   int
	nSlow   int
}

func procKey(seed uint64, proc int) noise.PrivateKey {
	s := make([]byte, 32)
	r := newRng(seed, 0xeed, uint64(proc))
	for i := 0; i < 32; i += 8 {
		binary.LittleEndian.PutUint64(s[i:], r.u64())
	}
	var k noise.PrivateKey
	copy(k[:], ed25519.NewKeyFromSeed(s))
	return k
}

var procPub []noise.PublicKey
var procPriv []noise.PrivateKey

func procOfKey(k noise.PublicKey) int {
	for i := range procPub {
		if procPub[i] == k {
			return i
		}
	}
	return -1
}

// pubOff is by how much public ports are below the ports they are forwarded to.
const pubOff = 7000

// procAddr is the address under which the node of proc is reachable and which
// it advertises.
func procAddr(p *Plan, i int) string {
	pr := &p.Procs[i]
	if pr.Pub >= 5 {
		return fmt.Sprintf("%s:%d", hostIP(pr.Host), pr.Port-pubOff)
	}
	if pr.Pub >= 3 {
		return fmt.Sprintf("[fd00::%x]:%d", pr.Host+1, pr.Port)
	}
	if pr.Kind == "" && pr.Bind == 0 && pr.Pub == 0 {
		return fmt.Sprintf(":%d", pr.Port)
	}
	return fmt.Sprintf("%s:%d", hostIP(pr.Host), pr.Port)
}

func vptr[T any](p *T) int64 { return int64(uintptr(unsafe.Pointer(p))) }

func errStatus(err error) int64 {
	switch {
	case err == nil:
		return 0
	case errors.Is(err, context.Canceled):
		return 1
	case errors.Is(err, context.DeadlineExceeded):
		return 2
	}
	return 3
}

func errText(err error) string {
	if err == nil {
		return ""
	}
	if errors.Is(err, noise.ErrMessageTooLarge) {
		return tooLarge + err.Error()
	}
	return err.Error()
}

// tooLarge marks an error that is the library's too-large error.
const tooLarge = "[too large] "

func idText(id noise.ID) string {
	return fmt.Sprintf("%d|%s|%s|%d", procOfKey(id.ID), id.Address, id.Host.String(), id.Port)
}

func (in *inc) nodeOpts() []noise.NodeOption {
	pr := in.pr
	o := []noise.NodeOption{
		noise.WithNodePrivateKey(procPriv[in.proc]),
		noise.WithNodeBindPort(pr.Port),
	}
	if pr.Bind == 1 {
		o = append(o, noise.WithNodeBindHost(net.ParseIP(hostIP(pr.Host))))
	}
	switch pr.Pub {
	case 1:
		o = append(o, noise.WithNodeAddress(fmt.Sprintf("%s:%d", hostIP(pr.Host), pr.Port)))
	case 2:
		o = append(o, noise.WithNodeID(noise.NewID(procPub[in.proc], net.ParseIP(hostIP(pr.Host)), pr.Port)))
	case 3:
		o = append(o, noise.WithNodeID(noise.NewID(procPub[in.proc], net.ParseIP(fmt.Sprintf("fd00::%x", pr.Host+1)), pr.Port)))
	case 5:
		o = append(o, noise.WithNodeAddress(fmt.Sprintf("%s:%d", hostIP(pr.Host), pr.Port-pubOff)))
	case 6:
		o = append(o, noise.WithNodeID(noise.NewID(procPub[in.proc], net.ParseIP(hostIP(pr.Host)), pr.Port-pubOff)))
	case 4:
		o = append(o, noise.WithNodeAddress(fmt.Sprintf("[fd00::%x]:%d", pr.Host+1, pr.Port)))
	}
	if pr.MaxDial == 1 && pr.Zero&1 != 0 {
		o = append(o, noise.WithNodeMaxDialAttempts(0))
	} else if pr.MaxDial > 0 {
		o = append(o, noise.WithNodeMaxDialAttempts(pr.MaxDial))
	}
	if pr.MaxIn > 0 || pr.Zero&4 != 0 {
		o = append(o, noise.WithNodeMaxInboundConnections(pr.MaxIn))
	}
	if pr.MaxOut > 0 || pr.Zero&8 != 0 {
		o = append(o, noise.WithNodeMaxOutboundConnections(pr.MaxOut))
	}
	if pr.MaxRecv > 0 {
		o = append(o, noise.WithNodeMaxRecvMessageSize(uint32(pr.MaxRecv)))
	} else if pr.MaxRecv < 0 {
		o = append(o, noise.WithNodeMaxRecvMessageSize(0))
	}
	w := pr.Workers
	if w == 0 {
		w = 4
	}
	if w == 1 && pr.Zero&2 != 0 {
		w = 0
	}
	o = append(o, noise.WithNodeNumWorkers(w))
	if pr.IdleNs != 0 {
		d := pr.IdleNs
		if d < 0 {
			d = 0
		}
		o = append(o, noise.WithNodeIdleTimeout(time.Duration(d)))
	}
	return o
}

// main runs in the process's group.
func (in *inc) main() {
	logEv(pStart, int64(in.proc), int64(in.grp), int64(in.n), 0, "")
	if in.pr.Kind != "" {
		in.peerMain()
		return
	}
	n, err := noise.NewNode(in.nodeOpts()...)
	if err != nil {
		logEv(oMisc, int64(in.proc), 0, 0, 0, "newnode: "+err.Error())
		return
	}
	in.node = n
	np := in.pr.NProto
	if np == 0 {
		np = 1
	}
	var protos []noise.Protocol
	for i := 0; i < np; i++ {
		if in.pr.Sparse&15 == i+1 {
			protos = append(protos, in.sparse())
		}
		protos = append(protos, in.protocol(i))
	}
	if in.pr.Bulk {
		n.Bind(protos...)
	} else {
		for _, p := range protos {
			n.Bind(p)
		}
	}
	if in.pr.Kad {
		in.setupKad()
	}
	nh := in.pr.NHand
	if nh == 0 && !in.pr.Kad {
		nh = 1
	}
	var hands []noise.Handler
	for i := 0; i < nh; i++ {
		hands = append(hands, in.handler(i, nh))
	}
	if in.pr.Bulk {
		n.Handle(hands...)
	} else {
		for _, h := range hands {
			n.Handle(h)
		}
	}
	if !in.pr.NoAuto {
		err := n.Listen()
		logEv(oMisc, int64(in.proc), 1, errStatus(err), int64(in.grp), "listen: "+errText(err))
	}
	logEv(oMisc, int64(in.proc), 4, 0, 0, idText(n.ID()))
	runtime.ZsimRelease(unsafe.Pointer(in))
	in.threads()
}

// threads starts the scripted threads of the process.
func (in *inc) threads() {
	now := runtime.ZsimNow() - startTime
	for ti := range in.plan.Thr {
		t := &in.plan.Thr[ti]
		if t.Proc != in.proc || in.n > 0 && t.At < now {
			continue
		}
		go in.thread(ti, t)
	}
}

func (in *inc) tagged() bool { return in.plan.X["notag"] == 0 }

func (in *inc) protocol(i int) noise.Protocol {
	pi := int64(in.proc)
	return noise.Protocol{
		Bind: func(node *noise.Node) error {
			logEv(eBind, pi, int64(i), 0, 0, "")
			return nil
		},
		OnPeerConnected: func(c *noise.Client) {
			if in.tagged() {
				if i == 0 {
					c.SetLogger(zap.NewNop())
				}
				in.track = append(in.track, c)
				logEv(eConn, pi, int64(i), vptr(c), vptr(c.Logger()), idText(c.ID()))
			} else {
				logEv(eConn, pi, int64(i), vptr(c), 0, idText(c.ID()))
			}
			in.callback("conn")
			in.slowCb(1)
		},
		OnPeerDisconnected: func(c *noise.Client) {
			logEv(eDisc, pi, int64(i), vptr(c), 0, errText(c.Error()))
			in.callback("disc")
			in.slowCb(2)
		},
		OnPingFailed: func(addr string, err error) {
			logEv(ePing, pi, int64(i), errStatus(err), 0, addr)
			in.slowCb(4)
		},
		OnMessageSent: func(c *noise.Client) {
			logEv(eSent, pi, int64(i), vptr(c), 0, "")
			in.callback("sent")
			in.slowCb(8)
		},
		OnMessageRecv: func(c *noise.Client) {
			logEv(eRecv, pi, int64(i), vptr(c), 0, "")
			in.callback("recv")
			in.slowCb(16)
		},
	}
}

// slowCbs is the number of callbacks that may be slow.
const slowCbs = 6

func (in *inc) slowCb(kind int) {
	d := int64(0)
	if in.pr.CbMask&kind != 0 && in.nSlow < slowCbs {
		in.nSlow++
		d = in.pr.CbSlow
	}
	if kind == 2 && in.pr.DscSlow > 0 {
		d = in.pr.DscSlow
	}
	if d == 0 {
		return
	}
	world.fault("slow-callback")
	time.Sleep(time.Duration(d))
	logEv(eCbX, int64(in.proc), int64(kind), 0, 0, "")
}

// sparse is a protocol that implements only some of the callbacks.
func (in *inc) sparse() noise.Protocol {
	var p noise.Protocol
	m := in.pr.Sparse >> 4
	if m&1 != 0 {
		p.Bind = func(*noise.Node) error { return nil }
	}
	if m&2 != 0 {
		p.OnPeerConnected = func(*noise.Client) {}
	}
	if m&4 != 0 {
		p.OnPeerDisconnected = func(*noise.Client) {}
	}
	if m&8 != 0 {
		p.OnPingFailed = func(string, error) {}
	}
	if m&16 != 0 {
		p.OnMessageSent = func(*noise.Client) {}
	}
	if m&32 != 0 {
		p.OnMessageRecv = func(*noise.Client) {}
	}
	return p
}

var errHandler = errors.New("handler failed on purpose")

// handlerErrs are what handlers that fail return; several are errors that the
// library itself has a meaning for.
var handlerErrs = []error{
	errHandler,
	io.EOF,
	fmt.Errorf("handler: %w", io.EOF),
	io.ErrUnexpectedEOF,
	io.ErrClosedPipe,
	context.Canceled,
	context.DeadlineExceeded,
	noise.ErrMessageTooLarge,
	&net.OpError{Op: "write", Net: "tcp", Err: errors.New("use of closed network connection")},
	&net.OpError{Op: "read", Net: "tcp", Err: os.ErrDeadlineExceeded},
}

func (in *inc) handler(h, nh int) noise.Handler {
	pi := int64(in.proc)
	return func(ctx noise.HandlerContext) error {
		var tag int64
		if in.tagged() {
			tag = vptr(ctx.Logger())
		}
		id, prob := readPayload(ctx.Data())
		snd := procOfKey(ctx.ID().ID)
		kind := "m"
		if ctx.IsRequest() {
			kind = "r"
		}
		logEv(hEnter, pi, int64(h), id, tag, fmt.Sprintf("%d|%s|%s|%s", snd, ctx.ID().Address, kind, prob))
		in.callback("enter")
		op := opByID[uint32(id)&0xffff]
		if id < 0 || op == nil || prob != "" || uint32(id)&(idReply|idBack) != 0 {
			logEv(hExit, pi, int64(h), id, tag, "")
			return nil
		}
		if h == 0 {
			d := op.Delay
			if in.pr.Slow > 0 {
				d += in.pr.Slow
			}
			if d > 0 {
				time.Sleep(time.Duration(d))
			}
		}
		if h == op.AnsH || op.AnsH < 0 {
			answer := func() {
				if ctx.IsRequest() {
					for k := 0; k < op.Ans; k++ {
						ix := k
						if op.AnsH < 0 {
							ix = h*4 + k
						}
						rid := uint32(id)&0xffff | uint32(ix)<<16 | idReply
						err := ctx.Send(payload(rid, op.RSize))
						logEv(hAns, pi, int64(ix), id, errStatus(err), "")
					}
				} else {
					for k := 0; k < op.Back; k++ {
						bid := uint32(id)&0xffff | uint32(k)<<16 | idBack
						err := ctx.Send(payload(bid, op.RSize))
						logEv(hAns, pi, int64(k), id, errStatus(err), "back")
					}
				}
			}
			if op.Async {
				go func() {
					time.Sleep(time.Duration(op.Delay) + time.Duration(op.ID%7)*time.Millisecond)
					answer()
				}()
			} else {
				answer()
			}
		}
		var err error
		if op.Err == h+1 {
			err = handlerErrs[op.ErrK]
		}
		logEv(hExit, pi, int64(h), id, tag, errText(err))
		in.callback("exit")
		return err
	}
}

func (in *inc) thread(ti int, t *Thread) {
	if d := startTime + t.At - runtime.ZsimNow(); d > 0 {
		time.Sleep(time.Duration(d))
	}
	for oi := range t.Ops {
		in.doOp(ti, oi, &t.Ops[oi])
	}
}

func (in *inc) mkCtx(op *Op) (context.Context, func()) {
	if op.TO == 0 {
		return context.Background(), func() {}
	}
	if op.Cancel {
		ctx, cancel := context.WithCancel(context.Background())
		if op.TO < 0 {
			cancel()
			return ctx, func() {}
		}
		if op.On != nil {
			go func() {
				in.await(op.On)
				cancel()
			}()
			return ctx, cancel
		}
		t := time.AfterFunc(time.Duration(op.TO), cancel)
		return ctx, func() { t.Stop(); cancel() }
	}
	return context.WithTimeout(context.Background(), time.Duration(op.TO))
}

func (in *inc) opAddr(op *Op) string {
	if op.S != "" {
		return op.S
	}
	return procAddr(in.plan, op.To)
}

func (in *inc) pick(op *Op) []*noise.Client {
	var l []*noise.Client
	switch {
	case strings.HasPrefix(op.S, "o"):
		l = in.node.Outbound()
	case strings.HasPrefix(op.S, "i"):
		l = in.node.Inbound()
	default:
		l = append(in.node.Outbound(), in.node.Inbound()...)
	}
	if op.N < 0 || len(l) == 0 {
		return l
	}
	return l[op.N%len(l) : op.N%len(l)+1]
}

func (in *inc) doOp(ti, oi int, op *Op) {
	if op.Wait > 0 {
		time.Sleep(time.Duration(op.Wait))
	}
	if op.On != nil && (op.K == "close" || op.K == "cclose") {
		in.await(op.On)
	}
	pi := int64(in.proc)
	cid := int64(ti)<<16 | int64(oi)<<1 | int64(in.n)<<40
	n := in.node
	begin := func(s string) { logEv(cBegin, cid, pi, int64(op.ID), int64(op.To), s) }
	end := func(err error, aux int64, s string) {
		if err != nil {
			s = err.Error()
		}
		logEv(cEnd, cid, pi, errStatus(err), aux, s)
	}
	switch op.K {
	case "send":
		ctx, done := in.mkCtx(op)
		begin("send " + in.opAddr(op))
		err := n.Send(ctx, in.opAddr(op), payload(op.ID, op.Size))
		end(err, 0, "")
		done()
	case "req":
		ctx, done := in.mkCtx(op)
		begin("req " + in.opAddr(op))
		b, err := n.Request(ctx, in.opAddr(op), payload(op.ID, op.Size))
		id, prob := int64(0), ""
		if err == nil {
			id, prob = readPayload(b)
		}
		end(err, id, prob)
		done()
	case "ping":
		ctx, done := in.mkCtx(op)
		begin("ping " + in.opAddr(op))
		c, err := n.Ping(ctx, in.opAddr(op))
		if err == nil {
			end(nil, vptr(c), idText(c.ID()))
		} else {
			end(err, 0, "")
		}
		done()
	case "close":
		begin("close")
		err := n.Close()
		end(err, 0, "")
		time.Sleep(time.Duration(5 * sec))
		runtime.ZsimCall(opLive, 0, 0, 0, nil, "")
	case "listen":
		begin("listen")
		err := n.Listen()
		end(err, 0, "")
	case "cclose":
		for _, c := range in.pick(op) {
			logEv(oMisc, pi, 2, vptr(c), 0, "client close")
			c.Close()
		}
	case "waitc", "waitr":
		for k, c := range in.pick(op) {
			k, c := int64(k), c
			go func() {
				logEv(cBegin, cid|k<<48, pi, 0, vptr(c), op.K)
				if op.K == "waitr" {
					c.WaitUntilReady()
				} else {
					c.WaitUntilClosed()
				}
				logEv(cEnd, cid|k<<48, pi, 0, vptr(c), "")
				if op.K == "waitc" {
					listed := int64(0)
					for _, o := range append(in.node.Inbound(), in.node.Outbound()...) {
						if o == c {
							listed = 1
						}
					}
					logEv(oMisc, pi, 5, vptr(c), listed, errText(c.Error()))
				}
			}()
		}
	case "list":
		in.list(0)
	case "atk":
		in.atkOp(op)
	case "seed":
		in.seedOp(op)
	case "live":
		runtime.ZsimCall(opLive, 0, 0, 0, nil, "")
	case "sleep":
		time.Sleep(time.Duration(op.TO))
	default:
		if !in.extraOp(cid, op) {
			panic("harness: unknown op " + op.K)
		}
	}
}

// list logs the pools.
func (in *inc) list(aux int64) {
	pi := int64(in.proc)
	ib, ob := in.node.Inbound(), in.node.Outbound()
	var sb strings.Builder
	for _, c := range ib {
		fmt.Fprintf(&sb, "%d ", vptr(c))
	}
	logEv(oList, pi, 0, int64(len(ib)), aux, sb.String())
	sb.Reset()
	for _, c := range ob {
		fmt.Fprintf(&sb, "%d ", vptr(c))
	}
	logEv(oList, pi, 1, int64(len(ob)), aux, sb.String())
}

// final is run in the process's group at the end.
func (in *inc) final() {
	runtime.ZsimAcquire(unsafe.Pointer(in))
	if in.node == nil {
		return
	}
	in.list(1)
	for _, c := range in.track {
		logEv(oErr, int64(in.proc), 0, vptr(c), 0, errText(c.Error()))
	}
	if in.kad != nil {
		in.kad.final(in)
	}
	logEv(oMisc, int64(in.proc), 3, int64(in.grp), 0, "final")
}

// --- orchestration (harness goroutine) ---

func (s *sim) spawn(proc int) {
	grp := int32(2 + len(s.grpInc))
	in := &inc{proc: proc, grp: grp, start: s.now(), alive: true, pr: &s.plan.Procs[proc], plan: s.plan}
	for _, o := range s.grpInc {
		if o.proc == proc {
			in.n++
			if o.alive {
				return // already running
			}
		}
	}
	if grp >= 62 {
		return
	}
	s.grpInc[grp] = in
	s.grpHost[grp] = in.pr.Host
	runtime.ZsimGo(grp, in.main)
}

func (s *sim) current(proc int) *inc {
	for g := int32(2); ; g++ {
		in := s.grpInc[g]
		if in == nil {
			return nil
		}
		if in.proc == proc && in.alive {
			return in
		}
	}
}

func (s *sim) killProc(proc int) {
	in := s.current(proc)
	if in == nil {
		return
	}
	in.alive = false
	logEv(pKill, int64(proc), int64(in.grp), 0, 0, "")
	runtime.ZsimKill(in.grp)
	s.procExit(in.grp)
}

func (s *sim) apply(i int, f *Fault) {
	logNet(nFault, int64(i), int64(f.A), int64(f.B), f.K)
	switch f.K {
	case "kill":
		if s.current(f.A) != nil {
			s.fault("process-kill")
		}
		s.killProc(f.A)
	case "power":
		s.fault("host-power-loss")
		for p := range s.plan.Procs {
			if s.plan.Procs[p].Host == f.A {
				if in := s.current(p); in != nil {
					in.alive = false
					logEv(pKill, int64(p), int64(in.grp), 0, 0, "power")
					runtime.ZsimKill(in.grp)
				}
			}
		}
		s.powerOff(f.A)
	case "poweron":
		s.powerOn(f.A)
	case "restart":
		if s.current(f.A) == nil {
			s.fault("process-restart")
			s.powerOn(s.plan.Procs[f.A].Host)
			s.spawn(f.A)
		}
	case "stall":
		if in := s.current(f.A); in != nil {
			s.fault("process-stall")
			runtime.ZsimStall(in.grp, s.now()+f.Dur)
		}
	case "part":
		s.fault("partition")
		s.partition(f.A, f.B, true)
		if f.M == 0 {
			s.partition(f.B, f.A, true)
		}
		if f.Dur > 0 {
			s.after(f.Dur, func() { s.partition(f.A, f.B, false); s.partition(f.B, f.A, false) })
		}
	case "healall":
		for k := range s.block {
			delete(s.block, k)
		}
	case "rst": // reset connections between two hosts (a middlebox)
		for _, c := range s.conns {
			if (c.a.host == f.A && c.b.host == f.B || c.a.host == f.B && c.b.host == f.A) && !c.a.closed && !c.b.closed && c.a.err == 0 && c.b.err == 0 && !c.a.gone && !c.b.gone {
				s.fault("connection-reset")
				if f.M != 2 {
					s.kill(c.a, 104)
				}
				if f.M != 1 {
					s.kill(c.b, 104)
				}
			}
		}
	case "accerr":
		s.accFlt[f.A] += f.N
		// A blocked accept learns about it on the next connection.
	case "dialerr":
		s.dialFlt = append(s.dialFlt, &dialRule{proc: f.A, to: f.B, count: f.N, skip: f.M, errno: f.X, delay: f.Dur})
	case "mitm":
		s.addMitm(f)
	case "calm": // the network becomes good
		s.cfg.EphLo, s.cfg.EphHi = 0, 0
		s.cfg.LossNum, s.cfg.SpikeNum = 0, 0
		s.dialFlt = nil
		if s.cfg.LatMax > 20*ms {
			s.cfg.LatMin, s.cfg.LatMax = ms, 20*ms
		}
		if s.cfg.RcvBuf < 65536 {
			s.cfg.RcvBuf = 65536
		}
	case "redir":
		s.redir[f.S[:strings.IndexByte(f.S, '>')]] = f.S[strings.IndexByte(f.S, '>')+1:]
	case "slowlink":
		s.fault("slow-link")
		old := s.cfg
		s.cfg.LatMin, s.cfg.LatMax = f.X, f.X*2
		if f.Dur > 0 {
			s.after(f.Dur, func() { s.cfg.LatMin, s.cfg.LatMax = old.LatMin, old.LatMax })
		}
	default:
		panic("harness: unknown fault " + f.K)
	}
}

func isNoiseGoroutine(name string) bool {
	return strings.HasPrefix(name, "github.com/perlin-network/noise")
}

// live logs the library goroutines of every running process.
func (s *sim) live(who string) {
	for g := int32(2); s.grpInc[g] != nil; g++ {
		in := s.grpInc[g]
		if !in.alive {
			continue
		}
		n := 0
		var sb strings.Builder
		runtime.ZsimBlocked(g, func(id uint32, reason string, pc uintptr) {
			f := runtime.FuncForPC(pc)
			if f == nil {
				return
			}
			if isNoiseGoroutine(f.Name()) {
				n++
				fmt.Fprintf(&sb, "%s(%s) ", strings.TrimPrefix(f.Name(), "github.com/perlin-network/"), reason)
			}
		})
		logEv(pLive, int64(in.proc), int64(g), int64(n), 0, who+": "+sb.String())
	}
}

// run executes the plan.
func (s *sim) run() {
	for i := range s.plan.Procs {
		i := i
		s.at(startTime+s.plan.Procs[i].Start, func() { s.spawn(i) })
	}
	for i := range s.plan.Flt {
		i := i
		s.at(startTime+s.plan.Flt[i].At, func() {
			f := &s.plan.Flt[i]
			if f.On == nil {
				s.apply(i, f)
				return
			}
			grp, host := int32(0), f.A
			if f.K != "rst" {
				in := s.current(f.A)
				if in == nil {
					return
				}
				grp = in.grp
			}
			s.when(f.On, grp, host, func() { s.apply(i, f) })
		})
	}
	s.at(startTime+s.plan.End, func() {
		s.live("end")
		for g := int32(2); s.grpInc[g] != nil; g++ {
			if in := s.grpInc[g]; in.alive {
				runtime.ZsimGo(g, in.final)
			}
		}
		s.after(60*sec, func() { s.end = true })
	})
	s.loop()
}
