//go:debug randseednop=0
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"net"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"syscall"
	"unsafe"

	"github.com/perlin-network/noise"
)

// Viol is one violation; Class identifies its kind.
type Viol struct{ Class, Msg string }

// Result is what one execution reports.
type Result struct {
	Verdict string // ok, violation, overrun
	Prop    string
	Viol    []Viol `json:",omitempty"`
	Hash    uint64 // interleaving
	LogHash uint64 // history
	Stat    [13]uint64
	Events  int
	Faults  map[string]int `json:",omitempty"`
	Probe   map[string]int `json:",omitempty"`
	Plan    *Plan          `json:",omitempty"`
	NDev    int
}

// maxRSS bounds the memory one execution may use, in KiB; nothing is ever
// freed.
const maxRSS = 2500 << 10

// safety lists the classes that are final as soon as they are seen.
var safety = map[string]bool{"altered": true, "forged": true, "misattributed": true, "misdelivered": true, "kind": true, "duplicate": true,
	"answered-twice": true, "stray-reply": true, "wrong-reply": true, "identity": true, "own-identity": true, "accepted": true,
	"early-message": true, "nonce-reuse": true, "cleartext": true, "content": true, "twice": true, "sender": true, "own": true,
	"repeated": true, "asked-twice": true, "number-shared": true, "registered-twice": true, "bad-decoder": true, "other-type": true, "nested": true}

func main() {
	prop := flag.String("prop", "", "property")
	seed := flag.Uint64("seed", 1, "seed")
	planf := flag.String("plan", "", "plan file")
	out := flag.String("out", "", "result file")
	recf := flag.String("rec", "", "record file for deviations")
	gen := flag.Bool("gen", false, "only print the plan")
	withPlan := flag.Bool("withplan", false, "include the plan in the result")
	trace := flag.Bool("trace", false, "print the history")
	sample := flag.Uint64("sample", 0, "first seed: the plans of the first few are reported")
	tier := flag.String("tier", "quick", "tier")
	flag.Parse()
	debug.SetGCPercent(-1)
	runtime.GOMAXPROCS(1)

	var p *Plan
	if *planf != "" {
		b, err := os.ReadFile(*planf)
		if err != nil {
			fmt.Fprintln(os.Stderr, "harness:", err)
			os.Exit(9)
		}
		p = &Plan{}
		if err := json.Unmarshal(b, p); err != nil {
			fmt.Fprintln(os.Stderr, "harness:", err)
			os.Exit(9)
		}
	} else {
		p = generate(*prop, *seed, *tier)
	}
	if *gen {
		b, _ := json.MarshalIndent(p, "", " ")
		fmt.Println(string(b))
		return
	}
	var rec []uint32
	if *recf != "" {
		f, err := os.OpenFile(*recf, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o644)
		if err == nil {
			const n = 4 << 20
			f.Truncate(n)
			m, err := syscall.Mmap(int(f.Fd()), 0, n, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
			if err == nil {
				rec = unsafe.Slice((*uint32)(unsafe.Pointer(&m[0])), n/4)
			}
		}
	}
	res := execute(p, rec)
	if *trace {
		printHistory(os.Stderr)
	}
	if *withPlan || *sample != 0 && *seed-*sample < 4 || res.Verdict != "ok" {
		res.Plan = p
	}
	b, err := json.Marshal(res)
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(9)
	}
	if *out != "" {
		os.WriteFile(*out, b, 0o644)
	} else {
		fmt.Println(string(b))
	}
	os.Exit(0)
}

func execute(p *Plan, rec []uint32) *Result {
	procPub, procPriv = nil, nil
	opByID = map[uint32]*Op{}
	opProc = map[uint32]int{}
	for i := range p.Procs {
		k := procKey(p.Seed&0xff, i)
		for j := uint64(1); i > 0 && p.Procs[i].X["pfx"] > 0 && int64(prefixLen(procPub[0], k.Public())) != p.Procs[i].X["pfx"]-1; j++ {
			k = procKey(p.Seed&0xff|j<<16, i)
		}
		procPriv = append(procPriv, k)
		procPub = append(procPub, k.Public())
	}
	for ti := range p.Thr {
		for oi := range p.Thr[ti].Ops {
			o := &p.Thr[ti].Ops[oi]
			if o.ID != 0 {
				opByID[o.ID] = o
				opProc[o.ID] = p.Thr[ti].Proc
			}
		}
	}
	for ti := range p.Thr {
		for oi := range p.Thr[ti].Ops {
			o := &p.Thr[ti].Ops[oi]
			if (o.K == "push" || o.K == "kgossip") && opByID[uint32(o.N)] == nil {
				opByID[uint32(o.N)] = o
			}
		}
	}
	gosFam, maxOp = p.X["fam"], 0
	for id := range opByID {
		if id > maxOp {
			maxOp = id
		}
	}
	sc := p.Sched
	if sc.MaxSteps == 0 {
		sc.MaxSteps = 3e6
	}
	s := newSim(p)
	world = s
	atkRec = map[int]*recorded{}
	keptEnc = map[mkey][]byte{}
	relayRecs, crossWait = nil, nil
	net.ZsimNet = backend{}
	runtime.ZsimStart(&runtime.ZsimConfig{
		Seed: p.Seed, StartTime: startTime, MaxSteps: sc.MaxSteps, Policy: sc.Policy,
		YieldNum: sc.Yield, HotNum: sc.Hot, HotMask: sc.HotMask, StallNum: sc.Stall, StallMax: sc.StallMax,
		PCTPoints: sc.PCTPoints, PCTHorizon: sc.PCTHorizon,
		Replay: p.Replay, Dev: p.Dev, Rec: rec,
	})
	var m0, m1 runtime.MemStats
	runtime.ReadMemStats(&m0)
	runScenario(p, s)
	runtime.ReadMemStats(&m1)
	st := runtime.ZsimStat()
	overrun := st[3] != 0
	runtime.ZsimStop()
	res := &Result{Verdict: "ok", Prop: p.Prop, Stat: st, Hash: st[2], Faults: s.faults, Probe: map[string]int{}}
	h := parse(p, s)
	h.overrun = overrun
	h.res = res
	res.Events = len(h.ev)
	h.mem = int64(m1.TotalAlloc - m0.TotalAlloc)
	res.LogHash = h.hash()
	if rec != nil {
		res.NDev = int(rec[0] / 2)
	}
	if overrun {
		res.Verdict = "overrun"
		msg := fmt.Sprintf("step limit reached at simulated time %dms; longest run of steps at one instant %d", int64(st[9])/ms, st[12])
		if st[12] > sc.MaxSteps*2/3 {
			// Two thirds of all steps happened without the clock moving.
			res.Verdict = "violation"
			res.Viol = []Viol{{"livelock", msg}}
			return res
		}
		// What has gone wrong by then has gone wrong, whatever would follow.
		judge(h)
		l := res.Viol
		res.Viol = nil
		for _, v := range l {
			if safety[v.Class] {
				res.Verdict = "violation"
				res.Viol = append(res.Viol, v)
			}
		}
		return res
	}
	judge(h)
	if len(res.Viol) > 0 {
		res.Verdict = "violation"
	}
	return res
}

func (h *H) hash() uint64 {
	f := fnv.New64a()
	norm := map[int64]int64{}
	w := func(x int64) {
		if x > 1<<36 && x < 1<<47 || x < -(1<<40) { // a pointer
			n, ok := norm[x]
			if !ok {
				n = int64(len(norm)) + 1
				norm[x] = n
			}
			x = n
		}
		var b [8]byte
		for i := range b {
			b[i] = byte(x >> (8 * i))
		}
		f.Write(b[:])
	}
	for i := range h.ev {
		e := &h.ev[i]
		w(e.T)
		w(int64(e.Grp))
		w(int64(e.G))
		w(int64(e.K))
		w(e.A)
		w(e.B)
		w(e.C)
		w(e.D)
		if e.K != oList {
			f.Write([]byte(e.S))
		}
	}
	return f.Sum64()
}

func printHistory(w *os.File) {
	names := map[int32]string{nDial: "dial", nDialEnd: "dialend", nEstab: "estab", nAccept: "accept", nClose: "sockclose", nReset: "reset", nFin: "fin", nListen: "nlisten", nUnlisten: "unlisten", nUse: "uses", nWr: "written", nFault: "FAULT", nTamper: "TAMPER",
		pStart: "START", pKill: "KILL", pLive: "live", cBegin: "call>", cEnd: "call<", hEnter: "handler>", hExit: "handler<", hAns: "answer", eConn: "CONNECTED", eDisc: "DISCONNECTED", ePing: "pingfailed", eRecv: "onrecv", eSent: "onsent", eBind: "bind", oList: "list", oErr: "err", oMisc: "misc", kAdm: "admitted", kAct: "activity", kEv: "evicted", gRecv: "gossip", gIn: "gossip-in", kTab: "table", kRes: "result", kReq: "asked", kAns: "answers"}
	for i, e := range runtime.ZsimHistory() {
		fmt.Fprintf(w, "%5d %12.6fs g%d.%d %-10s %x %x %x %x %s\n", i, float64(e.T-startTime)/1e9, e.Grp, e.G, names[e.K], e.A, e.B, e.C, e.D, e.S)
	}
}

var _ = sort.Strings
var _ = strings.Join
var _ noise.ID

func runScenario(p *Plan, s *sim) {
	switch p.Scen {
	default:
		s.run()
	}
}
