package main

import (
	"fmt"
	"net"
	"sort"
	"strings"
	"sync"

	"github.com/perlin-network/noise"
	"github.com/perlin-network/noise/kademlia"
)

// Concurrent operations on routing tables, checked for linearizability
// against a sequential model.

const tabSize = 16

// tabKeys are the identities of one table: keys[0] is the table's own.
func tabKeys(p *Plan, round int) (ids []noise.ID) {
	r := newRng(p.Seed, 0x7ab1e, uint64(round))
	key := func() (k noise.PublicKey) {
		for i := range k {
			k[i] = byte(r.u64())
		}
		return
	}
	self := key()
	if r.p(1, 10) {
		for i := range self {
			self[i] = 0xff
		}
	}
	ids = append(ids, noise.NewID(self, net.IPv4(10, 1, 1, 1), 1))
	n := int(p.x("keys"))
	var pool []int
	switch dist := r.n(6); dist {
	case 0: // wherever random keys go
	case 1:
		b := r.n(250)
		for i := 0; i < 1+r.n(3); i++ {
			pool = append(pool, b+i)
		}
	case 2:
		pool = []int{250, 251, 252, 253, 254, 255}
	case 3:
		pool = []int{0, 7, 8, 9, 15, 16, 63, 64, 127, 128, 247, 248, 255}
	case 4:
		pool = []int{0}
	default:
		for i := 0; i < 2+r.n(8); i++ {
			pool = append(pool, r.n(256))
		}
	}
	seen := map[noise.PublicKey]bool{self: true, {}: true}
	for len(ids) <= n {
		k := key()
		if len(pool) > 0 {
			b := pool[r.n(len(pool))]
			for tries := 0; ; tries++ {
				k = key()
				for i := 0; i < b/8; i++ {
					k[i] = self[i]
				}
				m := byte(0xff) << (8 - b%8)
				k[b/8] = self[b/8]&m | k[b/8]&^m
				k[b/8] = k[b/8]&^(0x80>>(b%8)) | ^self[b/8]&(0x80>>(b%8))
				if !seen[k] {
					break
				}
				if tries == 4 {
					b = r.n(200)
				}
			}
		}
		if seen[k] {
			continue
		}
		seen[k] = true
		port := uint16(len(ids) + 1)
		if r.p(1, 12) {
			port = uint16(1 + r.n(len(ids))) // somebody else's address
		}
		ids = append(ids, noise.NewID(k, net.IPv4(10, 1, 1, 1), port))
	}
	return
}

// tabTarget is what operation argument n means.
func tabTarget(p *Plan, ids []noise.ID, round, n int) (k noise.PublicKey) {
	switch {
	case n < 0:
		return noise.PublicKey{}
	case n < len(ids):
		return ids[n].ID
	}
	r := newRng(p.Seed, 0x7a6e, uint64(n))
	k = ids[n%len(ids)].ID
	b := r.n(256)
	k[b/8] ^= 0x80 >> (b % 8)
	return
}

type tabWorld struct {
	mu   sync.Mutex
	tabs map[int]*kademlia.Table
	ids  map[int][]noise.ID
}

func (in *inc) tabMain() {
	w := &tabWorld{tabs: map[int]*kademlia.Table{}, ids: map[int][]noise.ID{}}
	in.x = w
	for i := 0; i < int(in.plan.x("rounds")); i++ {
		ids := tabKeys(in.plan, i)
		w.ids[i] = ids
		w.tabs[i] = kademlia.NewTable(ids[0])
		f := int(in.plan.x("fill"))
		for j := 1; j < len(ids) && j <= f; j++ {
			w.tabs[i].Update(ids[j])
		}
	}
	in.threads()
}

func tabIndex(ids []noise.ID, id noise.ID) string {
	if id.ID == noise.ZeroPublicKey && id.Port == 0 && id.Address == "" {
		return "-"
	}
	for i := range ids {
		if ids[i].ID == id.ID {
			if ids[i].Address != id.Address || ids[i].Port != id.Port || !ids[i].Host.Equal(id.Host) {
				return fmt.Sprintf("%d(altered)", i)
			}
			return fmt.Sprint(i)
		}
	}
	return "?"
}

func tabList(ids []noise.ID, l []noise.ID) string {
	var s []string
	for i := range l {
		s = append(s, tabIndex(ids, l[i]))
		l[i] = noise.ID{} // the caller's to change
	}
	return strings.Join(s, " ")
}

// tabOp runs one operation. To is the table, N the identity, Size the count.
func (in *inc) tabOp(op *Op) {
	w := in.x.(*tabWorld)
	t, ids := w.tabs[op.To], w.ids[op.To]
	k := tabTarget(in.plan, ids, op.To, op.N)
	id := noise.ID{ID: k}
	if op.N >= 0 && op.N < len(ids) {
		id = ids[op.N]
	}
	res := ""
	logEv(tBeg, int64(op.ID), int64(op.To), 0, 0, "")
	switch op.S {
	case "update":
		ok, err := t.Update(id)
		res = fmt.Sprint(ok, err != nil)
		if err != nil && !isBucketFull(err) {
			res += " " + err.Error()
		}
	case "delete":
		x, ok := t.Delete(k)
		res = fmt.Sprint(tabIndex(ids, x), ok)
	case "deladdr":
		x, ok := t.DeleteByAddress(id.Address)
		res = fmt.Sprint(tabIndex(ids, x), ok)
	case "recorded":
		res = fmt.Sprint(t.Recorded(k))
	case "last":
		res = tabIndex(ids, t.Last(k))
	case "bucket":
		res = tabList(ids, t.Bucket(k))
	case "entries":
		res = tabList(ids, t.Entries())
	case "count":
		res = fmt.Sprint(t.NumEntries())
	case "peers":
		res = tabList(ids, t.Peers())
	case "closest":
		res = tabList(ids, t.FindClosest(k, op.Size))
	case "self":
		res = tabIndex(ids, t.Self())
	}
	logEv(tEnd, int64(op.ID), int64(op.To), 0, 0, res)
}

func (g *genr) genK01() {
	r := g.r
	p := g.p
	p.Scen = "table"
	p.Procs = append(p.Procs, Proc{Kind: "tab", Host: g.newHost()})
	rounds := 2 + r.n(6)
	keys := r.pick(3, 8, 20, 20, 40, 120)
	fill := r.pick(0, 0, keys/2, keys, 17)
	p.X["rounds"], p.X["keys"], p.X["fill"] = int64(rounds), int64(keys), int64(fill)
	thr := r.pick(1, 2, 2, 3, 3, 4)
	ops := make([][]Op, thr)
	for k := 0; k < rounds; k++ {
		hot := make([]int, 1+r.n(4))
		for i := range hot {
			hot[i] = r.n(keys + 1)
		}
		wr := r.n(4)
		for t := range ops {
			for q := 1 + r.n(8); q > 0; q-- {
				o := Op{K: "tab", ID: g.op(), To: k, N: hot[r.n(len(hot))], Size: r.pick(0, 1, 2, 16, 16, 17, 200, r.n(30))}
				if r.p(1, 3) {
					o.N = r.n(keys + 1)
				}
				if r.p(1, 60) {
					o.N = -1
				}
				read := r.n(4) > wr
				if read {
					o.S = []string{"recorded", "last", "bucket", "entries", "count", "peers", "closest", "closest", "closest", "self"}[r.n(10)]
					if o.S == "closest" && r.p(1, 2) {
						o.N += 1000 * (keys + 1)
					}
				} else {
					o.S = []string{"update", "update", "update", "update", "delete", "delete", "deladdr"}[r.n(7)]
				}
				ops[t] = append(ops[t], o)
			}
		}
	}
	for t := range ops {
		g.addThread(0, r.pick64(sec, sec+r.n64(50e3)), ops[t]...)
	}
	p.End = 3600 * sec
}

// --- model ---

type tabModel struct {
	p     *Plan
	ids   []noise.ID
	round int
	pos   []int // bucket of each identity
}

func (m *tabModel) bucket(k noise.PublicKey) int {
	l := prefixLen(m.ids[0].ID, k)
	if l == 256 {
		l = 255
	}
	return l
}

// A state is the identities in order of buckets, most recent first.
type tabState []uint8

func (m *tabModel) init() tabState {
	var s tabState
	s, _ = m.update(s, 0)
	f := int(m.p.x("fill"))
	for j := 1; j < len(m.ids) && j <= f; j++ {
		s, _ = m.update(s, j)
	}
	return s
}

func (m *tabModel) update(s tabState, n int) (tabState, string) {
	b := m.pos[n]
	cnt, at := 0, len(s)
	first := false
	for i, x := range s {
		if int(x) == n {
			// To the front of its bucket.
			t := append(tabState{}, s...)
			j := i
			for j > 0 && m.pos[t[j-1]] == b {
				t[j] = t[j-1]
				j--
			}
			t[j] = x
			return t, "false false"
		}
		if m.pos[x] == b {
			cnt++
		}
		if !first && m.pos[x] >= b {
			at, first = i, true
		}
	}
	if cnt >= tabSize {
		return s, "false true"
	}
	t := append(tabState{}, s[:at]...)
	t = append(t, uint8(n))
	return append(t, s[at:]...), "true false"
}

func (m *tabModel) remove(s tabState, i int) tabState {
	return append(append(tabState{}, s[:i]...), s[i+1:]...)
}

// apply runs an operation on the model and returns the new state and whether
// the result is the one the model gives.
func (m *tabModel) apply(s tabState, op *Op, res string) (tabState, bool) {
	k := tabTarget(m.p, m.ids, m.round, op.N)
	switch op.S {
	case "update":
		if op.N < 0 {
			return s, res == "false false"
		}
		t, want := m.update(s, op.N)
		return t, res == want
	case "delete":
		for i, x := range s {
			if int(x) == op.N {
				return m.remove(s, i), res == fmt.Sprint(fmt.Sprint(op.N), true)
			}
		}
		return s, res == fmt.Sprint("-", false)
	case "deladdr":
		addr := ""
		if op.N >= 0 {
			addr = m.ids[op.N].Address
		}
		none := true
		for i, x := range s {
			if m.ids[x].Address == addr {
				none = false
				// Which of several is not specified.
				if res == fmt.Sprint(fmt.Sprint(x), true) {
					return m.remove(s, i), true
				}
			}
		}
		return s, none && res == fmt.Sprint("-", false)
	case "recorded":
		for _, x := range s {
			if m.ids[x].ID == k {
				return s, res == "true"
			}
		}
		return s, res == "false"
	case "last", "bucket":
		var l []string
		b := m.bucket(k)
		for _, x := range s {
			if m.pos[x] == b {
				l = append(l, fmt.Sprint(x))
			}
		}
		if op.S == "bucket" {
			return s, res == strings.Join(l, " ")
		}
		want := "-"
		if len(l) > 0 {
			want = l[len(l)-1]
		}
		return s, res == want
	case "entries":
		// The order of the buckets is not specified.
		var want, got []string
		for _, x := range s {
			want = append(want, fmt.Sprint(x))
		}
		got = strings.Fields(res)
		sort.SliceStable(got, func(i, j int) bool { return m.posOf(got[i]) < m.posOf(got[j]) })
		return s, strings.Join(want, " ") == strings.Join(got, " ")
	case "count":
		return s, res == fmt.Sprint(len(s))
	case "peers", "closest":
		n := op.Size
		if op.S == "peers" {
			k, n = m.ids[0].ID, tabSize
		}
		var l []int
		for _, x := range s {
			if m.ids[x].ID != k {
				l = append(l, int(x))
			}
		}
		sort.Slice(l, func(i, j int) bool { return closer(k, m.ids[l[i]].ID, m.ids[l[j]].ID) })
		if len(l) > n {
			l = l[:n]
		}
		return s, res == strings.Trim(fmt.Sprint(l), "[]")
	case "self":
		return s, res == "0"
	}
	return s, true
}

func (m *tabModel) posOf(t string) int {
	n := -1
	fmt.Sscanf(t, "%d", &n)
	if n < 0 || n >= len(m.pos) {
		return 1000
	}
	return m.pos[n]
}

type tabCall struct {
	op       *Op
	beg, end int
	res      string
}

func (h *H) oracleK01() {
	p := h.p
	rounds := map[int][]*tabCall{}
	open := map[int64]*tabCall{}
	for i := range h.ev {
		e := &h.ev[i]
		switch e.K {
		case tBeg:
			c := &tabCall{op: opByID[uint32(e.A)], beg: i, end: 1 << 60}
			open[e.A] = c
			rounds[int(e.B)] = append(rounds[int(e.B)], c)
		case tEnd:
			open[e.A].end, open[e.A].res = i, e.S
			delete(open, e.A)
		}
	}
	for id := range open {
		h.bad("stuck", "operation %d on a table never returned", id)
		return
	}
	for k := 0; k < int(p.x("rounds")); k++ {
		m := &tabModel{p: p, ids: tabKeys(p, k), round: k}
		for _, id := range m.ids {
			m.pos = append(m.pos, m.bucket(id.ID))
		}
		if !linearizable(m, rounds[k]) {
			var s []string
			for _, c := range rounds[k] {
				s = append(s, fmt.Sprintf("op%d[%d,%d] %s(%d,%d)=%s", c.op.ID, c.beg, c.end, c.op.S, c.op.N, c.op.Size, c.res))
			}
			kind := "not-linearizable"
			if h.sequential(rounds[k]) {
				kind = "wrong-result"
			}
			h.bad(kind, "no order explains the operations on table %d: %s", k, strings.Join(s, "; "))
		}
		h.probe("table history judged")
	}
}

func (h *H) sequential(l []*tabCall) bool {
	for i := 1; i < len(l); i++ {
		if l[i].beg < l[i-1].end {
			return false
		}
	}
	return true
}

// linearizable searches for an order of the calls, compatible with real
// time, that the model accepts.
func linearizable(m *tabModel, l []*tabCall) bool {
	if len(l) > 63 {
		panic("harness: history too long")
	}
	type key struct {
		mask uint64
		st   string
	}
	dead := map[key]bool{}
	var try func(mask uint64, s tabState) bool
	try = func(mask uint64, s tabState) bool {
		if mask == 1<<len(l)-1 {
			return true
		}
		k := key{mask, string(s)}
		if dead[k] {
			return false
		}
		first := 1 << 61
		for i, c := range l {
			if mask>>i&1 == 0 && c.end < first {
				first = c.end
			}
		}
		for i, c := range l {
			if mask>>i&1 != 0 || c.beg > first {
				continue
			}
			if t, ok := m.apply(s, c.op, c.res); ok && try(mask|1<<i, t) {
				return true
			}
		}
		dead[k] = true
		return false
	}
	return try(0, m.init())
}
