package main

import (
	"bufio"
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/ed25519"
	"crypto/sha512"
	"encoding/binary"
	"fmt"
	"io"
	"math/big"
	"net"
	"time"

	"github.com/perlin-network/noise"
)

// Behaviours of harness-made peers. Those below bOwnID never complete a
// handshake under any identity.
const (
	bSilent = iota + 1
	bClose
	bCloseAfterSess
	bGarbage
	bSessLen
	bSessSig
	bSessThenClose
	bSessThenSilent
	bSessThenGarbage
	bOvlSig
	bOvlTheft
	bOvlTrunc
	bReflectAll
	bReflectOvl
	bReplayOvl
	bOversize
	bLowEph
	bLowID
	bSessPartial
	bOvlTheftRelay // claims another's identity with a signature that one made for the attacker
	bOvlExtra
	bZeroFrame
	bSessCleartextOvl
	bReplayAll
	bOvlEph // claims the ephemeral key of the one at the other end as its identity
	bLast
)

const (
	bOwnID       = 30 + iota // a correct handshake under its own identity, then:
	bPostGarbage             // an undecryptable frame
	bPostOversize
	bPostMax   // a frame of exactly the maximum
	bPostZero  // an empty frame
	bPostShort // a frame too short to hold a message
	bPostPartial
	bPostDrip
	bPostReplies // replies to requests never made
	bPostHalfClose
	bPostFlood
	bPostTiny // a frame shorter than nonce and tag
	bPostClose
	bPostReqFlood // requests with repeated nonces
	bPostMid      // closes in the middle of a frame
	bPostServe    // behaves
	bPostAnsFlood // real requests, whose answers it never reads
	bPostMixed    // anything, again and again
	bPostLast
)

// atkLasting tells whether the remote may legitimately keep the connection.
func atkLasting(b int) bool { return b >= bOwnID && b != bPostClose }

type rawPeer struct {
	in     *inc
	c      net.Conn
	rd     *bufio.Reader
	suite  cipher.AEAD
	shared []byte
	pub    noise.PublicKey
	sec    noise.PrivateKey
	sess   []byte // the victim's session frame
	sealed []byte // the victim's overlay frame, still encrypted
	ovl    []byte // the victim's overlay, decrypted
	r      *rng
}

func frameOf(b []byte) []byte {
	o := make([]byte, 4, 4+len(b))
	binary.BigEndian.PutUint32(o, uint32(len(b)))
	return append(o, b...)
}

func (a *rawPeer) write(b []byte) error { _, err := a.c.Write(b); return err }

func (a *rawPeer) frame(b []byte) error { return a.write(frameOf(b)) }

func (a *rawPeer) sealedFrame(b []byte) []byte {
	n := make([]byte, a.suite.NonceSize())
	for i := range n {
		n[i] = byte(a.r.u64())
	}
	return frameOf(a.suite.Seal(n, n, b, nil))
}

func (a *rawPeer) read() ([]byte, error) {
	var h [4]byte
	if _, err := io.ReadFull(a.rd, h[:]); err != nil {
		return nil, err
	}
	n := binary.BigEndian.Uint32(h[:])
	if n > 64<<20 {
		return nil, fmt.Errorf("too large")
	}
	b := make([]byte, n)
	_, err := io.ReadFull(a.rd, b)
	return b, err
}

func (a *rawPeer) open(b []byte) ([]byte, error) {
	k := a.suite.NonceSize()
	if len(b) < k {
		return nil, io.ErrUnexpectedEOF
	}
	return a.suite.Open(nil, b[:k], b[k:], nil)
}

func (a *rawPeer) linger() {
	io.Copy(io.Discard, a.rd)
	a.c.Close()
}

const sessMsg = ".__noise_handshake"

func (a *rawPeer) keys() {
	var err error
	a.pub, a.sec, err = noise.GenerateKeys(nil)
	if err != nil {
		panic("harness: " + err.Error())
	}
}

func (a *rawPeer) sessFrame() []byte {
	sig := a.sec.Sign([]byte(sessMsg))
	return append(append([]byte{}, a.pub[:]...), sig[:]...)
}

// session completes the first step.
func (a *rawPeer) session() bool {
	a.keys()
	if a.frame(a.sessFrame()) != nil {
		return false
	}
	return a.readSession()
}

func (a *rawPeer) readSession() bool {
	b, err := a.read()
	if err != nil || len(b) != 96 {
		return false
	}
	a.sess = b
	var pk noise.PublicKey
	copy(pk[:], b)
	sh, err := noise.ECDH(a.sec, pk)
	if err != nil {
		return false
	}
	a.setKey(sh)
	return true
}

func (a *rawPeer) setKey(sh []byte) {
	a.shared = sh
	core, err := aes.NewCipher(sh)
	if err != nil {
		panic("harness: " + err.Error())
	}
	a.suite, _ = cipher.NewGCM(core)
}

func (a *rawPeer) readOverlay() bool {
	b, err := a.read()
	if err != nil {
		return false
	}
	a.sealed = b
	a.ovl, err = a.open(b)
	return err == nil
}

func (a *rawPeer) ownID() noise.ID {
	return noise.NewID(procPub[a.in.proc], net.ParseIP(hostIP(a.in.pr.Host)), a.in.pr.Port)
}

func (a *rawPeer) overlay(id noise.ID, key noise.PrivateKey, shared []byte) []byte {
	b := id.Marshal()
	sig := key.Sign(append(append([]byte{}, b...), shared...))
	return append(b, sig[:]...)
}

// valid performs a correct handshake.
func (a *rawPeer) valid() bool {
	if !a.session() {
		return false
	}
	if a.write(a.sealedFrame(a.overlay(a.ownID(), procPriv[a.in.proc], a.shared))) != nil {
		return false
	}
	return a.readOverlay()
}

func (a *rawPeer) msg(nonce uint64, data []byte) []byte {
	b := make([]byte, 8, 8+len(data))
	binary.BigEndian.PutUint64(b, nonce)
	return a.sealedFrame(append(b, data...))
}

// recorded is what attackers saw on earlier connections, by victim group.
type recorded struct {
	ovl  []byte // decrypted overlay: id and signature
	raw  [][]byte
	sess []byte
}

// forge signs for a public key of low order.
func forge(pk noise.PublicKey, msg []byte) (sig noise.Signature) {
	l, _ := new(big.Int).SetString("7237005577332262213973186563042994240857116359379907606001950938285454250989", 10)
	for i := 0; i < 200; i++ {
		seed := make([]byte, 32)
		seed[0] = byte(i)
		h := sha512.Sum512(seed)
		h[0] &= 248
		h[31] &= 127
		h[31] |= 64
		be := make([]byte, 32)
		for j := range be {
			be[j] = h[31-j]
		}
		s := new(big.Int).SetBytes(be)
		s.Mod(s, l)
		pub := ed25519.NewKeyFromSeed(seed).Public().(ed25519.PublicKey)
		sig = noise.Signature{}
		copy(sig[:32], pub)
		b := s.Bytes()
		for j := range b {
			sig[32+j] = b[len(b)-1-j]
		}
		if pk.Verify(msg, sig) {
			return
		}
	}
	return
}

func lowKeys() []noise.PublicKey {
	var a, b, c noise.PublicKey
	b[0] = 1
	for i := range c {
		c[i] = 0xff
	}
	c[0], c[31] = 0xec, 0x7f
	return []noise.PublicKey{a, b, c}
}

// victimOf says which process the other end of the attacker's connection is.
func (a *rawPeer) peerProc() int {
	if len(a.ovl) < 32 {
		return -1
	}
	var k noise.PublicKey
	copy(k[:], a.ovl)
	return procOfKey(k)
}

func (in *inc) attack(c net.Conn, b int, r *rng) {
	a := &rawPeer{in: in, c: c, rd: bufio.NewReader(c), r: r}
	world.fault("hostile-connection")
	logEv(oMisc, int64(in.proc), 10, int64(b), 0, fmt.Sprintf("attack %s %s", c.LocalAddr(), c.RemoteAddr()))
	a.run(b)
}

func (a *rawPeer) rnd(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(a.r.u64())
	}
	return b
}

func (a *rawPeer) victimID(not int) (noise.ID, int) {
	p := a.in.plan
	var l []int
	for i := range p.Procs {
		if p.Procs[i].Kind == "" && i != not {
			l = append(l, i)
		}
	}
	if len(l) == 0 { // nobody in particular
		var k noise.PublicKey
		copy(k[:], a.rnd(len(k)))
		return noise.NewID(k, net.ParseIP(hostIP(a.in.pr.Host)), a.in.pr.Port), -1
	}
	v := l[a.r.n(len(l))]
	return noise.NewID(procPub[v], net.ParseIP(hostIP(p.Procs[v].Host)), p.Procs[v].Port), v
}

// over is the announced size of a frame that never comes.
func (a *rawPeer) over(r *rng) uint32 {
	m := int64(a.maxRecv())
	if m == 0 { // no limit
		return uint32(r.pick64(64<<20, 1<<31, 1<<32-1))
	}
	return uint32(r.pick64(m+1, m+1, m+2, 1<<31, 1<<32-1))
}

func (a *rawPeer) maxRecv() int {
	// All victims use the same limit in these scenarios.
	for i := range a.in.plan.Procs {
		if pr := &a.in.plan.Procs[i]; pr.Kind == "" {
			switch {
			case pr.MaxRecv > 0:
				return int(pr.MaxRecv)
			case pr.MaxRecv < 0:
				return 0
			}
			break
		}
	}
	return 4 << 20
}

func (a *rawPeer) run(b int) {
	r := a.r
	in := a.in
	switch b {
	case bSilent:
		a.linger()
	case bClose:
		a.c.Close()
	case bCloseAfterSess:
		a.read()
		a.c.Close()
	case bGarbage:
		a.write(a.rnd(1 + r.n(300)))
		a.linger()
	case bSessLen:
		n := r.n(200)
		if n == 96 {
			n = 97
		}
		a.keys()
		a.frame(append(a.sessFrame(), a.rnd(200)...)[:n])
		a.linger()
	case bSessSig:
		a.keys()
		f := a.sessFrame()
		f[r.n(96)] ^= 1 << r.n(8)
		a.frame(f)
		a.linger()
	case bSessThenClose:
		a.session()
		if r.p(1, 2) {
			a.readOverlay()
		}
		a.c.Close()
	case bSessThenSilent:
		a.session()
		a.linger()
	case bSessThenGarbage:
		a.session()
		a.frame(a.rnd(r.n(300)))
		a.linger()
	case bOvlSig:
		if a.session() {
			o := a.overlay(a.ownID(), procPriv[in.proc], a.shared)
			o[r.n(len(o))] ^= 1 << r.n(8)
			a.write(a.sealedFrame(o))
		}
		a.linger()
	case bOvlTheft:
		if a.session() {
			a.readOverlay()
			id, _ := a.victimID(a.peerProc())
			a.write(a.sealedFrame(a.overlay(id, procPriv[in.proc], a.shared)))
		}
		a.linger()
	case bOvlTheftRelay:
		// Another process's identity and signature, made for another session.
		if a.session() {
			a.readOverlay()
			me := a.peerProc()
			var o []byte
			for v := range a.in.plan.Procs {
				if x := atkRec[v]; x != nil && v != me && len(x.ovl) > 0 {
					o = x.ovl
				}
			}
			if o == nil {
				id, _ := a.victimID(me)
				o = append(id.Marshal(), a.rnd(64)...)
			}
			a.write(a.sealedFrame(o))
		}
		a.remember()
		a.linger()
	case bOvlTrunc:
		if a.session() {
			o := a.overlay(a.ownID(), procPriv[in.proc], a.shared)
			a.write(a.sealedFrame(o[:r.n(len(o))]))
		}
		a.linger()
	case bOvlExtra:
		if a.session() {
			o := a.overlay(a.ownID(), procPriv[in.proc], a.shared)
			a.write(a.sealedFrame(append(o, a.rnd(1+r.n(80))...)))
		}
		a.linger()
	case bReflectAll:
		buf := make([]byte, 4096)
		for {
			n, err := a.rd.Read(buf)
			if n > 0 && a.write(buf[:n]) != nil || err != nil {
				break
			}
		}
		a.c.Close()
	case bReflectOvl:
		if a.session() && a.readOverlay() {
			a.frame(a.sealed)
			if r.p(1, 2) { // also encrypted anew
				a.write(a.sealedFrame(a.ovl))
			}
		}
		a.linger()
	case bReplayOvl:
		if a.session() {
			if !a.readOverlay() {
				a.c.Close()
				return
			}
			// What any process showed us before, or this one.
			o := a.ovl
			for v := range a.in.plan.Procs {
				if x := atkRec[v]; x != nil && len(x.ovl) > 0 && r.p(1, 2) {
					o = x.ovl
				}
			}
			a.write(a.sealedFrame(o))
			a.remember()
		}
		a.linger()
	case bReplayAll:
		// Both of an earlier connection's handshake frames, byte for byte.
		x := atkRec[1000]
		if x == nil {
			a.keys()
			f := a.sessFrame()
			a.frame(f)
			if a.readSession() && a.readOverlay() {
				atkRec[1000] = &recorded{raw: [][]byte{a.sess, a.sealed}}
			}
			a.c.Close()
			return
		}
		a.frame(x.raw[0])
		a.frame(x.raw[1])
		a.linger()
	case bOvlEph:
		if a.session() && a.readOverlay() {
			var pk noise.PublicKey
			v := a.peerProc()
			copy(pk[:], a.sess)
			if x := atkRec[2000+v]; x != nil && r.p(1, 2) { // of another connection
				copy(pk[:], x.sess)
			}
			atkRec[2000+v] = &recorded{sess: a.sess}
			key := procPriv[in.proc]
			if r.p(1, 2) {
				key = a.sec
			}
			a.write(a.sealedFrame(a.overlay(noise.NewID(pk, net.ParseIP(hostIP(in.pr.Host)), in.pr.Port), key, a.shared)))
		}
		a.linger()
	case bOversize:
		h := make([]byte, 4)
		binary.BigEndian.PutUint32(h, a.over(r))
		a.write(h)
		a.write(a.rnd(2000))
		a.linger()
	case bLowEph:
		pk := lowKeys()[r.n(3)]
		sig := forge(pk, []byte(sessMsg))
		a.frame(append(append([]byte{}, pk[:]...), sig[:]...))
		// If it were accepted, the shared secret would be zero.
		a.setKey(make([]byte, 32))
		if _, err := a.read(); err == nil {
			id, v := a.victimID(-1)
			_ = v
			a.write(a.sealedFrame(append(id.Marshal(), a.rnd(64)...)))
			a.write(a.sealedFrame(a.overlay(a.ownID(), procPriv[in.proc], a.shared)))
		}
		a.linger()
	case bLowID:
		if a.session() {
			id := noise.NewID(lowKeys()[r.n(3)], net.ParseIP(hostIP(in.pr.Host)), in.pr.Port)
			o := id.Marshal()
			sig := forge(id.ID, append(append([]byte{}, o...), a.shared...))
			a.write(a.sealedFrame(append(o, sig[:]...)))
		}
		a.linger()
	case bSessPartial:
		a.keys()
		f := frameOf(a.sessFrame())
		a.write(f[:1+r.n(len(f)-1)])
		if r.p(1, 2) {
			a.c.Close()
			return
		}
		a.linger()
	case bZeroFrame:
		a.frame(nil)
		a.linger()
	case bSessCleartextOvl:
		if a.session() {
			a.frame(a.overlay(a.ownID(), procPriv[in.proc], a.shared))
		}
		a.linger()

	case bPostGarbage:
		if a.valid() {
			if r.p(1, 2) {
				a.write(a.msg(0, a.rnd(20)))
			}
			a.frame(a.rnd(12 + r.n(300)))
			a.write(a.msg(0, a.rnd(20)))
		}
		a.linger()
	case bPostOversize:
		if a.valid() {
			h := make([]byte, 4)
			binary.BigEndian.PutUint32(h, a.over(r))
			logEv(oMisc, int64(in.proc), 11, 0, 0, fmt.Sprintf("oversize %s %s", a.c.LocalAddr(), a.c.RemoteAddr()))
			a.write(h)
			for i := 0; i < 4; i++ {
				if a.write(a.rnd(1000)) != nil {
					break
				}
				time.Sleep(time.Duration(r.n64(ms)))
			}
		}
		a.linger()
	case bPostMax:
		if a.valid() {
			m := a.maxRecv()
			if m == 0 {
				m = 5<<20 + r.n(100) // more than the default limit
			}
			n := m - 12 - 16 - 8
			logEv(oMisc, int64(in.proc), 12, int64(n), 0, fmt.Sprintf("exact maximum %s %s", a.c.LocalAddr(), a.c.RemoteAddr()))
			if a.write(a.msg(0, bytes.Repeat([]byte{0xee}, n))) == nil {
				logEv(oMisc, int64(in.proc), 13, int64(n), 0, fmt.Sprintf("exact maximum written %s %s", a.c.LocalAddr(), a.c.RemoteAddr()))
			}
		}
		a.linger()
	case bPostZero:
		if a.valid() {
			a.frame(nil)
		}
		a.linger()
	case bPostTiny:
		if a.valid() {
			a.frame(a.rnd(r.n(28)))
		}
		a.linger()
	case bPostShort:
		if a.valid() {
			a.write(a.sealedFrame(a.rnd(r.n(8))))
		}
		a.linger()
	case bPostPartial, bPostMid:
		if a.valid() {
			size, cut := 50+r.n(3000), -1
			if a.in.plan.Prop == "N13" {
				size = r.pick(r.n(8), size, 3000+r.n(20000), 100000+r.n(200000))
				cut = r.pick(-1, -1, 1+r.n(6))
			}
			m := a.msg(0, a.rnd(size))
			if cut < 0 {
				cut = 1 + r.n(len(m)-1)
			}
			a.write(m[:cut])
			if b == bPostMid {
				a.c.Close()
				return
			}
		}
		a.linger()
	case bPostDrip:
		if a.valid() {
			m := a.msg(uint64(r.n(3)), a.rnd(30))
			d := r.pick64(ms, 20*ms, 300*ms)
			for i := range m {
				if a.write(m[i:i+1]) != nil {
					break
				}
				time.Sleep(time.Duration(r.n64(d)))
			}
		}
		a.linger()
	case bPostReplies:
		if a.valid() {
			for i, n := 0, 5+r.n(60); i < n; i++ {
				nonce := uint64(r.pick64(int64(i), int64(r.n(10)), -1, 1<<62))
				if a.write(a.msg(nonce, a.rnd(r.n(50)))) != nil {
					break
				}
			}
		}
		a.linger()
	case bPostReqFlood:
		if a.valid() {
			for i, n := 0, 20+r.n(100); i < n; i++ {
				if a.write(a.msg(7, a.rnd(4+r.n(50)))) != nil {
					break
				}
			}
		}
		// Never read the answers.
		time.Sleep(time.Duration(20 * sec))
		a.c.Close()
	case bPostHalfClose:
		if a.valid() {
			a.write(a.msg(0, a.rnd(20)))
			if t, ok := a.c.(*net.TCPConn); ok {
				t.CloseWrite()
			}
		}
		a.linger()
	case bPostFlood:
		if a.valid() {
			for i, n := 0, 50+r.n(300); i < n; i++ {
				if a.write(a.msg(0, a.rnd(r.n(40)))) != nil {
					break
				}
			}
		}
		a.linger()
	case bPostAnsFlood:
		if a.valid() {
			op := opByID[uint32(in.pr.X["op"])]
			for i, n := 0, 5+r.n(40); op != nil && i < n; i++ {
				if a.write(a.msg(uint64(1+r.n(100)), payload(op.ID, op.Size))) != nil {
					break
				}
			}
		}
		time.Sleep(time.Duration(100 * sec))
		a.c.Close()
	case bPostMixed:
		if a.valid() {
			m := a.maxRecv()
			if m == 0 || m > 5000 {
				m = 5000
			}
			for i, n := 0, 5+r.n(60); i < n; i++ {
				b := a.rnd(r.pick(0, 1, 7, 8, 9, 11, 12, 27, 28, 29, 35, 36, 37, 50, m-36, m-29, m-28, m-12, m-1, m))
				if r.p(1, 2) { // a frame as it is, most likely undecryptable
					b = a.rnd(r.n(m - 28))
				}
				var err error
				switch r.n(8) {
				case 0:
					err = a.frame(b)
				case 1, 2:
					if len(b) > m-28 {
						b = b[:m-28]
					}
					err = a.write(a.sealedFrame(b))
				default:
					if len(b) > m-36 {
						b = b[:m-36]
					}
					err = a.write(a.msg(uint64(r.pick64(0, 0, 1, 2, int64(i), -1)), b))
				}
				if err != nil {
					break
				}
				if r.p(1, 4) {
					time.Sleep(time.Duration(r.n64(50 * ms)))
				}
			}
			if r.p(1, 3) {
				a.c.Close()
				return
			}
		}
		a.linger()
	case bPostClose:
		a.valid()
		time.Sleep(time.Duration(r.n64(100 * ms)))
		a.c.Close()
	case bPostServe, bOwnID:
		if a.valid() {
			for {
				f, err := a.read()
				if err != nil {
					break
				}
				m, err := a.open(f)
				if err != nil || len(m) < 8 {
					break
				}
				n := binary.BigEndian.Uint64(m)
				if n > 0 && len(m) >= 12 {
					id := binary.BigEndian.Uint32(m[8:])
					if op := opByID[id&0xffff]; op != nil {
						a.write(a.msg(n, payload(id&0xffff|idReply, op.RSize)))
					}
				}
			}
		}
		a.c.Close()
	default:
		panic(fmt.Sprint("harness: behaviour ", b))
	}
}

// atkRec is what attackers remember of what processes sent them.
var atkRec map[int]*recorded

func (a *rawPeer) remember() {
	if v := a.peerProc(); v >= 0 {
		atkRec[v] = &recorded{ovl: a.ovl}
	}
}

// atkMain is the main function of a harness-made peer. It accepts
// connections, if it has a port, and runs its threads.
func (in *inc) atkMain() {
	if in.pr.Port != 0 && in.pr.X["nolisten"] == 0 {
		l, err := net.Listen("tcp", fmt.Sprintf("%s:%d", hostIP(in.pr.Host), in.pr.Port))
		if err != nil {
			panic("harness: " + err.Error())
		}
		go func() {
			for i := 0; ; i++ {
				c, err := l.Accept()
				if err != nil {
					return
				}
				nb := int(in.pr.X["nb"])
				b := bSilent
				if nb > 0 {
					b = int(in.pr.X[fmt.Sprint("b", i%nb)])
				}
				r := newRng(in.plan.Seed, 0xa77, uint64(in.proc), uint64(i))
				if in.pr.Kind == "proxy" {
					go in.proxy(c, b, r)
				} else {
					go in.attack(c, b, r)
				}
			}
		}()
	}
	in.threads()
}

// atkOp is an attacker dialling a victim.
func (in *inc) atkOp(op *Op) {
	c, err := net.Dial("tcp", procAddrOrIP(in.plan, op.To))
	if err != nil {
		return
	}
	r := newRng(in.plan.Seed, 0xa78, uint64(in.proc), uint64(op.ID), uint64(op.N))
	if op.Async {
		go in.attack(c, op.N, r)
	} else {
		in.attack(c, op.N, r)
	}
}

func procAddrOrIP(p *Plan, i int) string {
	return fmt.Sprintf("%s:%d", hostIP(p.Procs[i].Host), p.Procs[i].Port)
}
