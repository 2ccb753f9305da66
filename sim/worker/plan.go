package main

// A Plan is everything that decides one simulated execution, together with
// the code under test.
type Plan struct {
	Prop  string
	Scen  string
	Seed  uint64
	Sched Sched
	Net   NetCfg
	Tap   bool             `json:",omitempty"`
	End   int64            // simulated ns after which everything must have settled
	Procs []Proc           `json:",omitempty"`
	Thr   []Thread         `json:",omitempty"`
	Flt   []Fault          `json:",omitempty"`
	X     map[string]int64 `json:",omitempty"` // scenario parameters

	// Replay only.
	Dev    []uint32 `json:",omitempty"`
	Replay bool     `json:",omitempty"`
}

type Sched struct {
	Policy     int
	Yield      uint32 `json:",omitempty"`
	Hot        uint32 `json:",omitempty"`
	HotMask    uint32 `json:",omitempty"`
	Stall      uint32 `json:",omitempty"`
	StallMax   int64  `json:",omitempty"`
	PCTPoints  int    `json:",omitempty"`
	PCTHorizon uint32 `json:",omitempty"`
	MaxSteps   uint64
}

type NetCfg struct {
	LatMin, LatMax int64
	SpikeNum       int   `json:",omitempty"` // per mille
	SpikeMax       int64 `json:",omitempty"`
	LossNum        int   `json:",omitempty"` // per mille
	SegMode        int   `json:",omitempty"`
	SndBuf, RcvBuf int
	EphLo, EphHi   int   `json:",omitempty"`
	Quant          int   `json:",omitempty"` // arrivals happen at multiples of LatMax/Quant only, so that many coincide
	Tail           int64 `json:",omitempty"` // the end of a message is held back for this long or until more is written
}

// Proc describes one process (a node, or a harness-made peer).
type Proc struct {
	Host    int
	Port    uint16
	Kind    string           `json:",omitempty"` // "" = noise node, otherwise a harness peer
	Start   int64            `json:",omitempty"`
	Bind    int              `json:",omitempty"` // 0: unspecified, 1: the host's IP
	Pub     int              `json:",omitempty"` // 0: none, 1: WithNodeAddress(host:port), 2: WithNodeID; with another IP: 3, 4; with another port: 5, 6
	MaxDial uint             `json:",omitempty"`
	MaxIn   uint             `json:",omitempty"`
	MaxOut  uint             `json:",omitempty"`
	MaxRecv int64            `json:",omitempty"` // 0: default, -1: unlimited
	Workers uint             `json:",omitempty"`
	IdleNs  int64            `json:",omitempty"`
	NHand   int              `json:",omitempty"`
	NProto  int              `json:",omitempty"`
	NoAuto  bool             `json:",omitempty"` // do not Listen at start
	Sparse  int              `json:",omitempty"` // 1+position of a protocol with few callbacks, bound before protocol i; its low bits say which (>>4)
	Zero    int              `json:",omitempty"` // options given as zero: 1 dial attempts (1), 2 workers (1), 4 and 8 connection limits (none)
	Bulk    bool             `json:",omitempty"` // bind all protocols and all handlers with one call each
	Slow    int64            `json:",omitempty"` // every handler takes this long
	CbSlow  int64            `json:",omitempty"` // the first few callbacks take this long,
	CbMask  int              `json:",omitempty"` // those of these kinds: 1 connect, 2 disconnect, 4 ping failed, 8 sent, 16 received
	DscSlow int64            `json:",omitempty"` // every disconnect callback takes this long
	Kad     bool             `json:",omitempty"`
	Gossip  bool             `json:",omitempty"`
	KadPing int64            `json:",omitempty"`
	X       map[string]int64 `json:",omitempty"`
}

type Thread struct {
	Proc int
	At   int64
	Ops  []Op
}

type Op struct {
	K      string
	ID     uint32 `json:",omitempty"`
	To     int    `json:",omitempty"` // proc
	Wait   int64  `json:",omitempty"` // sleep before
	TO     int64  `json:",omitempty"` // context ends after; 0 = never
	Cancel bool   `json:",omitempty"` // cancel rather than deadline
	Size   int    `json:",omitempty"`
	Delay  int64  `json:",omitempty"` // handler delay
	Err    int    `json:",omitempty"` // 1+index of the handler that fails
	ErrK   int    `json:",omitempty"` // the error of a handler that fails
	Ans    int    `json:",omitempty"` // number of answers attempted
	AnsH   int    `json:",omitempty"` // index of the answering handler
	Async  bool   `json:",omitempty"` // answer from another goroutine
	RSize  int    `json:",omitempty"`
	Back   int    `json:",omitempty"` // messages sent back from the handler
	N      int    `json:",omitempty"`
	S      string `json:",omitempty"`
	On     *When  `json:",omitempty"` // the operation waits for this (the end of a cancelable context: comes with this)
}

// When names a moment: what happens N times in a process.
type When struct {
	K   string
	N   int   `json:",omitempty"`
	D   int64 `json:",omitempty"` // and then so much later
	Max int64 // but no later than this
}

type Fault struct {
	At   int64
	K    string
	A, B int    `json:",omitempty"`
	Dur  int64  `json:",omitempty"`
	N    int    `json:",omitempty"`
	M    int    `json:",omitempty"`
	X    int64  `json:",omitempty"`
	S    string `json:",omitempty"`
	On   *When  `json:",omitempty"` // from At on, when this happens in process A (or on host A)
	Keep bool   `json:",omitempty"` // not removed by minimisation: a premise of the property
}

func (p *Plan) x(k string) int64 { return p.X[k] }
