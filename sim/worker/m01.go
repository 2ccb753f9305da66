package main

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"hash/crc32"
	"reflect"
	"runtime"
	"unsafe"

	"github.com/perlin-network/noise"
)

// Concurrent registration, encoding and decoding.

var codecNode *noise.Node

// A value of the message types of the harness: T numbers the type.
type mval struct {
	T int
	B string // content
	X []byte // encodings of nested values
}

const mTypes = 24

type mkey struct {
	T int
	B string
}

// mt is a message type for every P.
type mt[P any] struct{ V mval }

// body of a value: type, length, content, nested value, checksum.
func (m mt[P]) Marshal() []byte {
	v := m.V
	if bare(v.T, v.B) {
		return nil
	}
	kept := v.T%6 == 3
	if kept { // what some types return is theirs, and has room past its end
		if b := keptEnc[mkey{v.T, v.B}]; b != nil {
			return b
		}
	}
	b := []byte{byte(v.T), byte(len(v.B) >> 8), byte(len(v.B))}
	b = append(b, v.B...)
	if v.T%3 == 1 && len(v.B) > 0 {
		// A value of the next type inside.
		runtime.Gosched()
		x, err := codecNode.EncodeMessage(mMake(nestOf(v.T), v.B[1:]))
		if err == nil {
			b = append(b, x...)
		}
	}
	s := make([]byte, 4)
	binary.BigEndian.PutUint32(s, crc32.ChecksumIEEE(b))
	b = append(b, s...)
	if kept {
		b = append(make([]byte, 0, len(b)+len(v.B)%4*8), b...)
		keptEnc[mkey{v.T, v.B}] = b
	}
	return b
}

// keptEnc holds what kept encodings there are.
var keptEnc map[mkey][]byte

// bare values are encoded as nothing.
func bare(t int, b string) bool { return t%8 == 5 && b == "" }

func nestOf(t int) int { return (t + 1) % mTypes }

var errGarbled = errors.New("garbled")

func unmarshalMt[P any](b []byte) (mt[P], error) {
	if t := int(unsafe.Sizeof(*new(P)) / 8); len(b) == 0 && bare(t, "") {
		return mt[P]{mval{T: t}}, nil
	}
	if len(b) < 7 {
		return mt[P]{}, errGarbled
	}
	n := len(b) - 4
	if crc32.ChecksumIEEE(b[:n]) != binary.BigEndian.Uint32(b[n:]) {
		if b[0]%2 == 0 { // some decoders return what they have along with the error
			return mt[P]{mval{T: int(b[0])}}, errGarbled
		}
		return mt[P]{}, errGarbled
	}
	l := int(b[1])<<8 | int(b[2])
	if 3+l > n {
		return mt[P]{}, errGarbled
	}
	v := mval{T: int(b[0]), B: string(b[3 : 3+l])}
	if x := b[3+l : n]; len(x) > 0 {
		v.X = append([]byte{}, x...)
		runtime.Gosched()
		obj, err := codecNode.DecodeMessage(x)
		if err != nil {
			return mt[P]{}, err
		}
		if w, ok := mValue(obj); !ok || w.T != nestOf(v.T) || w.B != v.B[1:] {
			logEv(tEnd, -1, 0, 0, 0, fmt.Sprintf("nested value of type %d decoded as %+v", nestOf(v.T), obj))
		}
	}
	return mt[P]{v}, nil
}

type mType struct {
	make func(v mval) noise.Serializable
	ptr  func(v mval) noise.Serializable
	dec  any
	bad  any
	get  func(o any) (mval, bool)
}

func mk[P any]() mType {
	return mType{
		make: func(v mval) noise.Serializable { return mt[P]{v} },
		ptr:  func(v mval) noise.Serializable { return &mt[P]{v} },
		dec:  unmarshalMt[P],
		bad:  func(b []byte) (mt[[99]P], error) { return mt[[99]P]{}, nil },
		get:  func(o any) (mval, bool) { m, ok := o.(mt[P]); return m.V, ok },
	}
}

var mTab []mType

func init() {
	mTab = []mType{mk[[0]int](), mk[[1]int](), mk[[2]int](), mk[[3]int](), mk[[4]int](), mk[[5]int](), mk[[6]int](), mk[[7]int](),
		mk[[8]int](), mk[[9]int](), mk[[10]int](), mk[[11]int](), mk[[12]int](), mk[[13]int](), mk[[14]int](), mk[[15]int](),
		mk[[16]int](), mk[[17]int](), mk[[18]int](), mk[[19]int](), mk[[20]int](), mk[[21]int](), mk[[22]int](), mk[[23]int]()}
}

func mMake(t int, b string) noise.Serializable { return mTab[t].make(mval{T: t, B: b}) }

func mValue(o any) (mval, bool) {
	for i := range mTab {
		if v, ok := mTab[i].get(o); ok {
			return v, v.T == i
		}
	}
	return mval{}, false
}

func mContent(op *Op) string { return string(payload(op.ID, op.Size)) }

// codecOp: N is the type, S the operation.
func (in *inc) codecOp(op *Op) {
	codecNode = in.node
	st, _ := in.x.(*codecState)
	if st == nil {
		st = &codecState{many: map[reflect.Type]uint16{}}
		in.x = st
	}
	res := ""
	logEv(tBeg, int64(op.ID), int64(op.N), 0, 0, op.S)
	func() {
		defer func() {
			if e := recover(); e != nil {
				res = fmt.Sprint("panic: ", e)
				if len(res) > 200 {
					res = res[:200]
				}
			}
		}()
		switch op.S {
		case "reg":
			res = fmt.Sprint("ok ", in.node.RegisterMessage(mTab[op.N].make(mval{}), mTab[op.N].dec))
		case "regbad":
			res = fmt.Sprint("ok ", in.node.RegisterMessage(mTab[op.N].make(mval{}), mTab[op.N].bad))
		case "enc":
			v := mval{T: op.N, B: mContent(op)}
			m := mTab[op.N].make(v)
			if op.Ans > 0 {
				m = mTab[op.N].ptr(v)
			}
			b, err := in.node.EncodeMessage(m)
			if err != nil {
				res = "error " + err.Error()
				return
			}
			res = "ok " + hex.EncodeToString(b)
			st.enc = append(st.enc, append([]byte{}, b...))
			if op.Ans > 1 {
				for i := range b {
					b[i] = 0xee // the caller's to change
				}
			}
		case "dec":
			var b []byte
			r := newRng(in.plan.Seed, 0xdec, uint64(op.ID))
			if len(st.enc) > 0 && op.Back != 3 {
				b = append(b, st.enc[op.Size%len(st.enc)]...)
			}
			switch op.Back {
			case 1: // another type's number
				if len(b) > 2 {
					b[1] = byte(r.n(mTypes + 3))
				}
			case 2: // damaged
				if len(b) > 0 {
					b[r.n(len(b))] ^= byte(1 << r.n(8))
				}
			case 3: // anything
				b = make([]byte, r.pick(0, 1, 2, 3, 6, 30))
				for i := range b {
					b[i] = byte(r.u64())
				}
				if len(b) > 1 && r.p(1, 2) {
					b[0], b[1] = 0, byte(r.n(mTypes+3))
				}
			case 4:
				b = b[:r.n(len(b)+1)]
			}
			in_ := hex.EncodeToString(b)
			o, err := in.node.DecodeMessage(b)
			if err != nil {
				res = "error " + in_ + " " + err.Error()
				return
			}
			v, ok := mValue(o)
			for i := range mTab { // the type by itself
				if _, is := mTab[i].get(o); is {
					res = fmt.Sprint("ok ", in_, " ", i, " ", v.T, " ", hex.EncodeToString([]byte(v.B)), "|", hex.EncodeToString(v.X))
				}
			}
			_ = ok
			if n, is := st.many[reflect.TypeOf(o)]; is && len(b) > 1 && n == binary.BigEndian.Uint16(b) {
				res = "many"
			}
			if res == "" {
				res = fmt.Sprintf("other %s %T", in_, o)
			}
		case "many":
			// More types than there are numbers.
			seen := map[uint16]int{}
			for i := 0; i < op.Size; i++ {
				t := reflect.StructOf([]reflect.StructField{{Name: "ManyBase", Type: reflect.TypeOf(ManyBase{}), Anonymous: true, Tag: reflect.StructTag(fmt.Sprintf(`x:"%d"`, i))}})
				v := reflect.New(t).Elem()
				ft := reflect.FuncOf([]reflect.Type{reflect.TypeOf([]byte(nil))}, []reflect.Type{t, reflect.TypeOf((*error)(nil)).Elem()}, false)
				f := reflect.MakeFunc(ft, func([]reflect.Value) []reflect.Value { return []reflect.Value{v, reflect.Zero(ft.Out(1))} })
				c := in.node.RegisterMessage(v.Interface().(noise.Serializable), f.Interface())
				if j, dup := seen[c]; dup {
					res = fmt.Sprintf("shared: types %d and %d have number %d", j, i, c)
					return
				}
				seen[c] = i
				st.many[t] = c
				if op.Size < 2000 || i%331 == 0 || i > op.Size-40 {
					m := v.Interface().(noise.Serializable)
					b, err := in.node.EncodeMessage(m)
					if err != nil || string(b) != string([]byte{byte(c >> 8), byte(c)})+"many" {
						res = fmt.Sprintf("wrong: a value of type %d with number %d was encoded as %x (%v)", i, c, b, err)
						return
					}
					if o, err := in.node.DecodeMessage(b); err != nil || reflect.TypeOf(o) != t {
						res = fmt.Sprintf("wrong: %x of type %d was decoded as %T (%v)", b, i, o, err)
						return
					}
				}
			}
			res = "ok"
		}
	}()
	logEv(tEnd, int64(op.ID), int64(op.N), 0, 0, res)
}

type ManyBase struct{}

func (ManyBase) Marshal() []byte { return []byte("many") }

type codecState struct {
	enc  [][]byte
	many map[reflect.Type]uint16
}

func (g *genr) genM01() {
	r := g.r
	p := g.p
	p.Scen = "codec"
	p.Procs = append(p.Procs, Proc{Host: g.newHost(), Port: 9000, Bind: 1, NoAuto: true})
	p.End = 3600 * sec
	if r.p(1, 300) {
		p.Scen = "many"
		g.addThread(0, sec, Op{K: "codec", ID: g.op(), S: "many", Size: 65600})
		return
	}
	if r.p(1, 12) { // numbers beyond a byte
		g.addThread(0, sec/4+r.n64(sec), Op{K: "codec", ID: g.op(), S: "many", Size: 200 + r.n(r.pick(100, 900))})
	}
	if r.p(1, 3) { // registrations while nested values are encoded and decoded
		n := 3 * (1 + r.n(4))
		var ops []Op
		for t := 0; t < n; t++ {
			ops = append(ops, Op{K: "codec", ID: g.op(), S: "reg", N: t})
		}
		for k := 0; k < 4; k++ {
			ops = append(ops, Op{K: "codec", ID: g.op(), S: "enc", N: 3*r.n(n/3) + 1, Size: 4 + r.n(50)})
		}
		g.addThread(0, sec/2, ops...)
		for t, m := 0, 1+r.n(4); t < m; t++ {
			var ops []Op
			for q := 2 + r.n(12); q > 0; q-- {
				o := Op{K: "codec", ID: g.op(), S: "dec", N: 1, Size: r.n(4)}
				if r.p(1, 3) {
					o.S, o.N, o.Size = "enc", 3*r.n(n/3)+1, 4+r.n(50)
				}
				ops = append(ops, o)
			}
			g.addThread(0, sec, ops...)
		}
		for t, m := 0, 1+r.n(2); t < m; t++ {
			var ops []Op
			for i := n + t; i < mTypes; i += m {
				ops = append(ops, Op{K: "codec", ID: g.op(), S: "reg", N: i})
			}
			g.addThread(0, sec, ops...)
		}
		return
	}
	thr := 1 + r.n(5)
	types, base := r.pick(1, 2, 4, 8, mTypes), r.pick(0, 0, 5)
	reg := r.n(4)
	for t := 0; t < thr; t++ {
		var ops []Op
		for q := 2 + r.n(20); q > 0; q-- {
			o := Op{K: "codec", ID: g.op(), N: (base + r.n(types)) % mTypes, Size: r.pick(0, 1, 4, 5, 20, r.n(300))}
			switch {
			case r.n(5) <= reg && r.p(1, 2):
				o.S = "reg"
				if r.p(1, 12) {
					o.S = "regbad"
				}
			case r.p(1, 2):
				o.S = "enc"
				o.Ans = r.n(3)
			default:
				o.S = "dec"
				o.Back = r.pick(0, 0, 0, 1, 2, 3, 4)
			}
			if r.p(1, 10) {
				o.Wait = r.n64(ms)
			}
			ops = append(ops, o)
		}
		g.addThread(0, r.pick64(sec, sec+r.n64(50e3)), ops...)
	}
}

func (h *H) oracleM01() {
	type mcall struct {
		op       *Op
		beg, end int
		res      string
	}
	var l []*mcall
	open := map[int64]*mcall{}
	for i := range h.ev {
		e := &h.ev[i]
		switch {
		case e.K == tBeg:
			c := &mcall{op: opByID[uint32(e.A)], beg: i, end: 1 << 60}
			open[e.A] = c
			l = append(l, c)
		case e.K == tEnd && e.A < 0:
			h.bad("nested", "%s", e.S)
		case e.K == tEnd:
			open[e.A].end, open[e.A].res = i, e.S
			delete(open, e.A)
		}
	}
	for id := range open {
		h.bad("stuck", "codec operation %d (%s) never returned", id, opByID[uint32(id)].S)
	}
	num := map[int]int{} // type: number
	regBeg, regEnd := map[int]int{}, map[int]int{}
	owner := map[int]int{}
	firstBeg := map[int]int{}
	for _, c := range l {
		if c.op.S != "reg" {
			continue
		}
		t := c.op.N
		if b, ok := firstBeg[t]; !ok || c.beg < b {
			firstBeg[t] = c.beg
		}
		n := -1
		if _, err := fmt.Sscanf(c.res, "ok %d", &n); err != nil {
			continue
		}
		if m, dup := num[t]; dup {
			h.bad("registered-twice", "type %d got the numbers %d and %d", t, m, n)
		}
		if o, dup := owner[n]; dup && o != t {
			h.bad("number-shared", "types %d and %d have number %d", o, t, n)
		}
		num[t], owner[n] = n, t
		regBeg[t], regEnd[t] = c.beg, c.end
		h.probe("registration judged")
	}
	known := func(t, at int) bool { e, ok := regEnd[t]; return ok && e < at }
	maybe := func(t, at int) bool { b, ok := firstBeg[t]; return ok && b < at }
	for _, c := range l {
		t := c.op.N
		if c.end > len(h.ev) {
			continue
		}
		switch c.op.S {
		case "reg":
			if len(c.res) > 6 && c.res[:6] == "panic:" {
				if _, ok := num[t]; !ok {
					h.bad("registration-refused", "type %d could not be registered: %s", t, c.res)
				} else if regBeg[t] > c.end {
					h.bad("registration-refused", "type %d could not be registered before it was: %s", t, c.res)
				}
			}
		case "regbad":
			if len(c.res) < 6 || c.res[:6] != "panic:" {
				h.bad("bad-decoder", "type %d was registered with the decoder of another type", t)
			}
		case "many":
			if len(c.res) > 6 && c.res[:6] == "shared" {
				h.bad("number-shared", "after more registrations than there are numbers, %s", c.res)
			}
			if len(c.res) > 6 && c.res[:6] == "wrong:" {
				h.bad("wrong-number", "with many types registered, %s", c.res[7:])
			}
			if c.op.Size > 65536 {
				h.probe("numbers exhausted")
			} else {
				h.probe("many types")
				if c.res != "ok" && c.res[:2] != "sh" && c.res[:2] != "wr" {
					h.bad("registration-refused", "%d more types could not be registered: %s", c.op.Size, c.res)
				}
			}
		case "enc":
			var x string
			if _, err := fmt.Sscanf(c.res, "ok %s", &x); err == nil {
				b, _ := hex.DecodeString(x)
				n, ok := num[t]
				switch {
				case !ok || regBeg[t] > c.end:
					h.bad("unregistered", "a value of type %d was encoded, which was not registered", t)
				case len(b) < 2 || int(binary.BigEndian.Uint16(b)) != n:
					h.bad("wrong-number", "a value of type %d with number %d was encoded as %.20s", t, n, x)
				case bare(t, string(mContent(c.op))):
					if len(b) != 2 {
						h.bad("wrong-content", "an empty value of type %d was encoded as %.60s", t, x)
					}
					h.probe("empty value")
				case !bytes.HasPrefix(b[2:], append([]byte{byte(t), byte(c.op.Size >> 8), byte(c.op.Size)}, mContent(c.op)...)):
					h.bad("wrong-content", "a value of type %d was encoded as %.60s", t, x)
				}
			} else if known(t, c.beg) {
				h.bad("encoding-failed", "a value of type %d, registered as %d, was not encoded: %s", t, num[t], c.res)
			}
			h.probe("encoding judged")
		case "dec":
			var x, why string
			var ty, vt int
			var body string
			h.probe("decoding judged")
			if _, err := fmt.Sscanf(c.res, "error %s %s", &x, &why); err == nil || c.res == "error  "+c.res[min(len(c.res), 7):] {
				b, _ := hex.DecodeString(x)
				if len(b) < 2 {
					continue
				}
				o, ok := owner[int(binary.BigEndian.Uint16(b))]
				if ok && known(o, c.beg) && h.mGood(o, b[2:], func(t int) (int, bool) { n, ok := num[t]; return n, ok && known(t, c.beg) }) {
					h.bad("decoding-failed", "%.60s of type %d was not decoded: %s", x, o, c.res)
				}
				continue
			}
			if c.res == "many" {
				continue
			}
			if len(c.res) > 6 && c.res[:6] == "panic:" {
				h.bad("panic", "decoding: %s", c.res)
				continue
			}
			if _, err := fmt.Sscanf(c.res, "ok %s %d %d %s", &x, &ty, &vt, &body); err != nil {
				h.bad("other-type", "decoding gave something else: %.200s", c.res)
				continue
			}
			b, _ := hex.DecodeString(x)
			n, ok := num[ty]
			if ok && maybe(ty, c.end) && len(b) == 2 && int(binary.BigEndian.Uint16(b)) == n && bare(ty, "") {
				if vt != ty || body != "|" {
					h.bad("wrong-content", "the empty value %s was decoded as %.60s", x, body)
				}
				continue
			}
			if !ok || !maybe(ty, c.end) || len(b) < 7 || int(binary.BigEndian.Uint16(b)) != n {
				h.bad("other-type", "%.40s was decoded as a value of type %d, whose number is %d", x, ty, n)
				continue
			}
			if w := 3 + int(b[3])<<8 + int(b[4]); len(b) < 2+w || body[:2*(w-3)] != hex.EncodeToString(b[5:2+w]) || vt != int(b[2]) {
				h.bad("wrong-content", "%.60s was decoded as %.60s", x, body)
			}
		}
	}
}

// mGood: the decoder must accept b, given the numbers of nested types.
func (h *H) mGood(t int, b []byte, num func(int) (int, bool)) bool {
	if len(b) == 0 {
		return bare(t, "")
	}
	if len(b) < 7 {
		return false
	}
	n := len(b) - 4
	if crc32.ChecksumIEEE(b[:n]) != binary.BigEndian.Uint32(b[n:]) {
		return false
	}
	l := int(b[1])<<8 | int(b[2])
	if 3+l > n {
		return false
	}
	x := b[3+l : n]
	if len(x) == 0 {
		return true
	}
	t = nestOf(int(b[0]))
	m, ok := num(t)
	return ok && len(x) >= 2 && int(binary.BigEndian.Uint16(x)) == m && h.mGood(t, x[2:], num)
}
