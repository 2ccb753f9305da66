package main

import "runtime"

// Operations and faults that wait for something to happen in a process, so
// that they come at tight moments.

var onKinds = []string{"dial", "accept", "data", "written", "eof", "closed", "enter", "exit", "conn", "disc", "sent", "recv"}

func onKind(k string) int {
	for i, s := range onKinds {
		if s == k {
			return i
		}
	}
	return -1
}

type onWait struct {
	k    int
	grp  int32 // a process, or
	host int   // any process of a host
	n    int
	f    func()
	dead bool
}

// when arranges for f to be called.
func (s *sim) when(w *When, grp int32, host int, f func()) {
	o := &onWait{k: onKind(w.K), grp: grp, host: host, n: w.N}
	o.f = func() {
		o.dead = true
		s.after(w.D, f)
	}
	s.on = append(s.on, o)
	s.after(w.Max, func() {
		if !o.dead {
			o.dead = true
			f()
		}
	})
}

// happens is called when something happened in a process.
func (s *sim) happens(k string, grp int32) {
	if len(s.on) == 0 {
		return
	}
	x := onKind(k)
	l := s.on[:0]
	for _, o := range s.on {
		if !o.dead && o.k == x && (o.grp == grp || o.grp == 0 && s.grpHost[grp] == o.host) {
			if o.n--; o.n <= 0 {
				o.f()
				s.fault("at-event")
			}
		}
		if !o.dead {
			l = append(l, o)
		}
	}
	s.on = l
}

// callback is called in a process by its callbacks and handlers.
func (in *inc) callback(k string) {
	if len(world.on) > 0 {
		runtime.ZsimCall(opHappens, int64(onKind(k)), 0, 0, nil, "")
	}
}

// await blocks the calling goroutine of a process.
func (in *inc) await(w *When) {
	runtime.ZsimCall(opAwait, int64(onKind(w.K))|w.D<<8, int64(w.N), w.Max, nil, "")
}

// moments ties some operations and faults of the plan to events.
func (g *genr) moments() {
	switch g.p.Prop {
	case "R01", "K01", "K02", "K03", "G01", "G02", "M01":
		return
	}
	r := newRng(g.p.Seed, 0x303)
	if !r.p(1, 2) {
		return
	}
	one := func(max int64) *When {
		w := &When{K: onKinds[r.n(len(onKinds))], Max: max}
		if r.p(1, 3) {
			w.N = 1 + r.n(6)
		}
		if r.p(1, 4) {
			w.D = r.n64(r.pick64(20e3, ms, 30*ms))
		}
		return w
	}
	for i := range g.p.Thr {
		for j := range g.p.Thr[i].Ops {
			o := &g.p.Thr[i].Ops[j]
			switch {
			case (o.K == "close" || o.K == "cclose") && r.p(2, 3):
				o.On = one(2 * sec)
			case (o.K == "send" || o.K == "req" || o.K == "ping") && o.Cancel && o.TO > 0 && r.p(1, 2):
				o.On = one(o.TO)
			}
		}
	}
	for i := range g.p.Flt {
		f := &g.p.Flt[i]
		switch f.K {
		case "rst", "stall", "kill":
			if f.Keep || !r.p(1, 2) {
				break
			}
			max := 2 * sec
			for _, o := range g.p.Flt {
				if o.K == "restart" && o.A == f.A && o.At >= f.At && o.At-f.At-1 < max {
					max = o.At - f.At - 1
				}
			}
			if max > 0 {
				f.On = one(max)
			}
		}
	}
}
