package main

type propMeta struct {
	rule string
	real []string
	stub []string
}

var realNode = []string{
	"all of package noise (node, client, client pool, request map, handshakes, framing, encryption, workers), compiled from the current tree",
	"Go runtime channels, select, mutexes, timers, contexts, net.Conn wrappers, crypto (ed25519, AES-GCM), zap",
}
var realKad = append(append([]string{}, realNode...), "package kademlia (protocol, table, iterator, messages)")
var realGos = append(append([]string{}, realKad...), "package gossip", "fastcache")

var stubAll = []string{
	"the kernel's TCP/IP stack (model: buffers, segmentation, delay, loss with retransmission, reset, half-close, partitions, keepalive, ephemeral ports, backlog)",
	"Go's goroutine scheduler, clock and random sources (replaced by the seeded simulator through a build overlay)",
	"the applications: handlers and protocol callbacks written by the harness",
}

var meta = map[string]propMeta{
	"N01": {"Workload: 2-4 nodes, sends, requests and handler replies of mixed size, connection resets, partitions, kills, stalls.", realNode, stubAll},
	"N02": {"Workload: 2-3 nodes, concurrent senders and requests, slow receivers, delays and partitions that heal; nothing that may drop a connection.", realNode, stubAll},
	"N03": {"Workload: 2-3 nodes, requests in both directions with late, duplicate and concurrent replies and callers giving up around the reply.", realNode, stubAll},
	"N04": {"Workload: callers that cancel or expire at every stage, peers that die, healthy runs in which bystanders must succeed.", realNode, stubAll},
	"N15": {"Workload: messages, requests, replies and back-messages in both directions with resets and hostile handshakes.", realNode, stubAll},
	"N14": {"Workload: 2-3 nodes under traffic with up to 5 faults (kill, power loss, restart, partition, reset, accept and dial errors, port shortage), everything repaired at 590 s of simulated time, then 8 probes per ordered pair.", realNode, stubAll},
	"N13": {"Workload: idle timeouts of 0.5-60 s with silent, trickling, one-way, mid-frame-stopped and partitioned peers.", realNode, stubAll},
	"N12": {"Workload: batches of failing messages from several peers to nodes with 1-4 workers, then a burst that must be handled by all workers in parallel; optional close.", realNode, stubAll},
	"N11": {"Workload: connections ended by either side, by reset, partition, eviction, handler error, process kill and node close, with waiters.", realNode, stubAll},
	"N10": {"Workload: traffic, dead and hostile peers, slow handlers, dial and accept errors; every node may be closed at a seeded instant by 1-3 callers.", realNode, stubAll},
	"N09": {"Workload: (a) LRU pressure on a node with a small pool, (b) bursts of concurrent calls that must share connections, (c) churn with reused local ports; pool listings at seeded moments.", realNode, stubAll},
	"N06": {"Workload: 2-4 nodes calling each other and addresses served by proxies that relay, forge, reflect, replay and splice handshakes, and by peers with false or malformed identities (also IPv6 and host names); hostile peers also dial in.", realNode, stubAll},
	"N07": {"Workload: 2-3 nodes under traffic whose frames are altered, cut, joined, extended, exchanged between sessions or forged at seeded positions; nonces and bytes on the wire inspected; the application reseeds math/rand.", realNode, stubAll},
	"N08": {"Workload: 2-3 honest nodes (a quarter with Kademlia and gossip) under 1-4 hostile peers, dialling and dialled, that send malformed, oversized, partial, dripped, flooding bytes before, during and after the handshake; receive limits from 200 bytes to none; messages at and over the limit; service probed afterwards.", realGos, stubAll},
	"K02": {"Workload: a node with 16-40 peers of chosen keys sharing buckets, answering, silent, slow, hanging up, crashing and returning; or 2-8 real nodes; connects, pings, lookups in both directions, partitions, kills, stalls, resets; table listed at seeded moments.", realKad, stubAll},
	"K03": {"Workload: (a) fault-free overlays of 2-9 nodes in chains, stars, trees with lookups of random and known targets, any parallelism and result count; (b) a node with 3-15 peers that fail and lie, with partitions, power loss, resets, kills and stalls in mid-lookup.", realKad, stubAll},
	"G01": {"Workload: 2-6 gossiping nodes in random graphs, 1-4 payloads of 0-300000 bytes pushed by one or several nodes, retransmitting peers, small pools, slow applications, resets, partitions, kills, restarts, power loss, stalls.", realGos, stubAll},
	"G02": {"Workload: 2-8 gossiping nodes in random graphs, 1-4 payloads of 0 bytes to 1.5 MB, without faults, or with 1-7 nodes killed or powered off just before and during pushes.", realGos, stubAll},
	"K01": {"Workload: 1-4 threads, 2-7 routing tables per execution, up to 63 operations each over 3-120 identities of crafted common prefixes.", []string{"package kademlia: table.go, binary.go", "noise.ID"}, stubAll},
	"M01": {"Workload: 1-5 threads registering, encoding and decoding 1-24 message types on one node; nested encoders; damaged bytes; rarely 65600 registrations.", []string{"package noise: codec.go and its node methods", "Go reflection"}, stubAll},
	"R01": {"Workload: those of the other properties, plus threads calling every operation documented as concurrent; all under Go's race detector.", realGos, stubAll},
	"N05": {"Workload: 1-4 nodes calling addresses that refuse, swallow SYNs, are unroutable, stay silent, or fail the handshake in a dozen ways, with contexts ending at any point.", realNode, stubAll},
}

func known(p string) bool { _, ok := meta[p]; return ok }

var assumptions = []string{
	"Preemption points are function entries, loop heads and statements of the instrumented packages, and every blocking operation; the code of other packages runs without preemption between its blocking operations.",
	"The TCP model is faithful to what Linux offers an application; cryptographic primitives are not attacked.",
	"Executions that hit the step limit are inconclusive and counted as such.",
}
