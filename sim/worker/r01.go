package main

import (
	"time"

	"github.com/perlin-network/noise"
	"go.uber.org/zap"
)

// genR01 chooses the workload of another property, to be run under the race
// detector.
func (g *genr) genR01() string {
	g.p.X["notag"] = 1
	l := []string{"N01", "N03", "N03", "N04", "N05", "N08", "N09", "N09", "N10", "N10", "N10", "N11", "N11", "N12", "N13", "N14", "N15", "K01", "K02", "K03", "K03", "G01", "G01", "M01"}
	return l[g.r.n(len(l))]
}

// pokes adds calls of everything that may be called concurrently.
func (g *genr) pokes() {
	r := g.r
	p := g.p
	var last int64
	for i := range p.Thr {
		if p.Thr[i].At > last {
			last = p.Thr[i].At
		}
	}
	// A node that only dials may still be given protocols and handlers.
	if i := r.n(8); i < len(p.Procs) && len(p.Procs) > 1 && p.Procs[i].Kind == "" && !p.Procs[i].Kad && p.Scen == "" {
		p.Procs[i].NoAuto = true
		for t := 0; t < 2; t++ {
			var ops []Op
			for k, m := 0, 3+r.n(6); k < m; k++ {
				o := Op{K: "poke", ID: g.op(), N: 4 + r.n(2)}
				if to := g.other(i); t == 0 && p.Procs[to].Kind == "" {
					o = Op{K: "send", ID: g.op(), To: to, Size: 20, RSize: 20, Back: 2, TO: 5 * sec}
				}
				o.Wait = r.pick64(0, r.n64(5*ms), r.n64(sec))
				ops = append(ops, o)
			}
			g.addThread(i, 200*ms, ops...)
		}
	}
	for i := range p.Procs {
		if p.Procs[i].Kind != "" {
			continue
		}
		for k := r.n(4); k > 0; k-- {
			var ops []Op
			for q := 1 + r.n(10); q > 0; q-- {
				ops = append(ops, Op{K: "poke", ID: g.op(), N: r.n(16), Wait: r.pick64(0, r.n64(5*ms), r.n64(sec))})
			}
			g.addThread(i, r.pick64(0, r.n64(sec), r.n64(last+1)), ops...)
		}
	}
}

func (in *inc) poke(op *Op) {
	n := in.node
	all := append(n.Outbound(), n.Inbound()...)
	for _, c := range all {
		switch op.N {
		case 0:
			c.SetLogger(zap.NewNop())
		case 1:
			c.Close()
		case 2:
			go c.WaitUntilReady()
		case 3:
			go c.WaitUntilClosed()
		}
		_ = c.Error()
		_ = c.ID()
		_ = c.Logger()
	}
	switch op.N {
	case 4:
		n.Bind(in.protocol(9))
	case 5:
		n.Handle(func(noise.HandlerContext) error { return nil })
	case 6:
		if in.kad != nil {
			t := in.kad.p.Table()
			_ = t.Self()
			t.Entries()
			t.Peers()
			t.NumEntries()
			t.Bucket(n.ID().ID)
			t.Last(n.ID().ID)
		}
	case 7:
		n.Sign([]byte("x"))
	}
	_ = n.Addr()
	_ = n.ID()
	_ = n.Logger()
	time.Sleep(0)
}
