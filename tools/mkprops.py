#!/usr/bin/env python3
# Writes properties.jsonl (the source of the property texts).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,
        mechanism=[dict(name=a,where=b) for a,b in mech],
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        observe_at=list(observe),hook_needed=hook)))
NH="None in /repo: the Go runtime, net and crypto randomness are simulated through a build overlay, and yield points are inserted into a generated copy of the sources."
p("N01","Messages arrive authentic, unmodified, at most once and in order",
 "Whatever the timing, segmentation, delays, disconnects or crashes on the network, a node's handlers only ever see a message that the peer it is attributed to really sent to that node, byte for byte, and see each sent message at most once. Messages that one caller sends one after the other over one connection, to a peer that handles messages one at a time, are handled in the order they were sent, and messages that were handled form a gap-free prefix of what was sent on that connection.",
 ["schedules","fault_sequences","inputs"],
 "Every number of nodes, senders, sizes (0 bytes to the limit), every interleaving of callers, write loop, read loop and workers, and every TCP segmentation, delay, reset, partition and crash.",
 "The tests send identical constant payloads over loopback and count arrivals; they never see short reads, resets in mid-frame, concurrent senders of distinguishable payloads or buffer reuse under adverse schedules.",
 ["client.go","msg.go","aead.go","node.go"],
 [("length-prefixed encrypted frames written by one write loop per connection","client.go writeLoop/write"),("frame reader and copy of the payload before dispatch","client.go read/recvLoop"),("work queue to the worker goroutines","node.go Listen")],
 [("per-connection send queue","messages accepted but not yet written","client.go")],
 ["(*Node).Send","Handler invocations","(*HandlerContext).ID/Data"],NH)
p("N02","Messages on a connection that stays up are all delivered",
 "If a send returned without error and the connection it used is not afterwards dropped, closed or evicted, the receiving node runs its handlers on the message within a bounded time, however the bytes are split, delayed or held back by a slow receiver and however many senders, requests and replies share the connection. All registered handlers run on it in registration order, unless an earlier one returned an error.",
 ["schedules","fault_sequences","configurations"],
 "Every interleaving of senders, both I/O loops and workers, every window size and back-pressure pattern, every number of workers and handlers.",
 "Lost wake-ups and stuck queues need particular interleavings and full TCP windows; the tests run over an unconstrained loopback socket on whatever schedule the machine produces.",
 ["client.go","node.go"],
 [("send queue with condition variable","client.go send/writeLoop"),("buffered writer flush","client.go writeLoop"),("work channel and workers","node.go Listen")],
 [],["(*Node).Send","(*HandlerContext).Send","Handler invocations"],NH)
p("N03","A request returns the reply to that very request, and nothing else does",
 "When a request returns without error, its result is byte for byte the reply that a handler of the addressed node gave to that very request, however many requests are in flight in both directions and however slow or reordered the replies are. A request is answered at most once, attempts to answer it again are refused with an error, and a reply - even one that arrives after its request was given up - is never handed to another request nor to a message handler.",
 ["schedules","fault_sequences","inputs"],
 "Every number of concurrent requests in both directions over one connection, every order and delay of replies, cancellations at any point, several handlers and several goroutines answering.",
 "The tests use constant equal payloads, one handler, no cancellation and no concurrent answers, so mixed-up, duplicate or stray replies are invisible.",
 ["client.go","map.go","msg.go","node.go"],
 [("request table keyed by nonce","map.go requestMap"),("matching of replies in the read loop","client.go recvLoop"),("single-answer guard","msg.go HandlerContext.Send")],
 [("request table","nonce to waiting caller","map.go")],["(*Node).Request","(*HandlerContext).Send","Handler invocations"],NH)
p("N04","Calls end with their context, their reply or their connection",
 "A ping, send or request returns promptly once its own context is cancelled or expires, and a waiting request returns an error once the connection it was sent on is lost. No interleaving of replies, cancellations, connection loss, eviction or peer crash leaves a caller blocked for ever, and one caller giving up neither fails the calls of others to the same peer nor closes a connection that is already established.",
 ["schedules","fault_sequences","crash_points"],
 "Every moment of cancellation, expiry, reset, partition, crash, close and eviction relative to dialling, handshake, sending and waiting, with several callers sharing a connection.",
 "No test cancels a context, drops a connection under a pending request, or shares a dial between callers with different contexts.",
 ["client.go","node.go","map.go"],
 [("select on context, readiness and loop termination","node.go dialIfNotExists"),("select on reply and context","client.go request"),("release of waiting requests","map.go requestMap.close")],
 [],["(*Node).Ping","(*Node).Send","(*Node).Request"],NH)
p("N05","A failing peer costs a bounded number of attempts and one report",
 "A ping, send or request to an address that cannot be reached, or whose handshake fails, makes at most the configured number of connection attempts, makes none after its context has ended, returns an error, and reports the address as failed to every bound protocol exactly once. Such a peer is never reported as connected, no message from it is handled, and no connection, goroutine or pool slot stays behind.",
 ["schedules","fault_sequences","configurations"],
 "Every mix of refusals, unreachable hosts, swallowed SYNs, resets and silence during the handshake, every attempt limit and every moment of cancellation.",
 "The tests only dial healthy peers.",
 ["node.go","client.go","map.go"],
 [("attempt loop","node.go dialIfNotExists"),("dial and handshake failure paths","client.go outbound/handshake")],
 [],["(*Node).Ping","Protocol.OnPingFailed","(*Node).Outbound","connection attempts on the network"],NH)
p("N06","Only peers that prove their identity are accepted, and are identified exactly",
 "A connection is reported as connected, handed to a caller or feeds messages to handlers only after the remote end proved, for this very connection, possession of the private key of the identity attributed to it. Both ends then report each other's exact identity, including the network address at which that peer accepts connections. An attacker who forges, truncates, alters, reflects, or replays handshake traffic, or splices two handshakes together, is never accepted under an identity whose key it does not hold.",
 ["fault_sequences","inputs","schedules","configurations"],
 "Every attack step at every handshake message, in both the dialling and accepting role, every kind of bound and public address (IPv4, IPv6, unspecified), every schedule.",
 "No test involves a misbehaving remote, a handshake failure, or an explicitly bound IPv4 host.",
 ["client.go","id.go","keys.go","ecdh.go","node.go"],
 [("two-step handshake with signatures over the session secret","client.go handshake"),("identity wire format","id.go Marshal/UnmarshalID"),("failed handshake closes the connection","client.go outbound/inbound")],
 [],["(*Client).ID","Protocol.OnPeerConnected","(*HandlerContext).ID","Handler invocations"],NH)
p("N07","Altered or forged wire data is never delivered, and nothing leaks in clear",
 "After a connection is established, bytes that were altered, truncated, inserted, or spliced in from other connections on the way never reach a handler or a reply as data; the connection is dropped instead and everything delivered before was genuine. No message content appears in clear on the wire, and no nonce is used twice under one session key, in either direction.",
 ["fault_sequences","inputs","histories"],
 "Every position and kind of alteration in the byte stream of either direction, including frame headers, nonces, ciphertext and tags, and every traffic pattern.",
 "The tests run over an honest loopback; nothing is ever altered or observed on the wire.",
 ["aead.go","client.go","ecdh.go"],
 [("AES-GCM with random nonce","aead.go"),("frame parsing","client.go read"),("session key derivation","ecdh.go ECDH")],
 [],["bytes on the simulated wire","Handler invocations","(*Node).Request results"],NH)
p("N08","Hostile, malformed or oversized traffic costs at most its own connection",
 "Whatever bytes a remote sends, at any point of a connection and at any pace, the node does not crash, deadlock or leak, and keeps serving its other peers. A frame announced as larger than the configured maximum is refused with the too-large error and its connection dropped, while a frame of exactly the maximum is accepted; a maximum of zero means no limit.",
 ["inputs","fault_sequences","schedules","configurations"],
 "Every byte stream before, during and after a genuine handshake (including from an authenticated peer), split and paced in every way, with every size limit.",
 "One test sends one message just over the limit; none sends malformed data, sizes at the limit, or checks that other peers are still served.",
 ["client.go","msg.go","aead.go","id.go","keys.go"],
 [("size check before reading the body","client.go read"),("bounds checks in the parsers","msg.go, id.go, aead.go, keys.go")],
 [],["process survival","requests from honest peers","(*Client).Error"],NH)
p("N09","Connection pools stay within limits, evict the oldest, and share connections",
 "A node never holds more inbound connections than its inbound limit nor more outbound connections than its outbound limit; when a new connection meets a full pool, one is closed to make room - of the outbound ones that least recently used by a call, of the inbound ones that accepted first -, no other is, and the new one is served. Any number of concurrent calls to one address share a single connection, and a pool slot is free again as soon as its connection has ended.",
 ["schedules","configurations","fault_sequences"],
 "Every limit, every interleaving of dials, accepts, evictions and disconnects, every pattern of repeated use, including a remote reusing its port.",
 "The tests use a limit of one outbound connection with sequential traffic and never look at pool contents, order or the evicted connection.",
 ["map.go","node.go","client.go"],
 [("bounded map with recency list","map.go clientMap"),("accept loop and dial path","node.go Listen/dialIfNotExists")],
 [("inbound and outbound pools","live connections by address in recency order","map.go")],["(*Node).Inbound","(*Node).Outbound","sockets on the simulated network"],NH)
p("N10","Closing a node always terminates and leaves nothing behind",
 "Closing a node - at any moment other than from within its own handlers and callbacks, once or concurrently, while it is dialling, handshaking, transferring, evicting or handling messages, and also when it never or unsuccessfully started listening - returns. By then every inbound and outbound connection is closed and its port is free, after that no handler or protocol callback runs and no goroutine of the node remains, and remote peers see the disconnect. Calls in progress on the node return (and may still report their own failed dial).",
 ["schedules","crash_points","fault_sequences"],
 "Every moment of closing relative to every other activity, any number of concurrent closers, accept errors, failed listens.",
 "The tests close nodes only when idle at the end, and always after every outbound connection's remote is closed too.",
 ["node.go","client.go","map.go"],
 [("listener close and drain","node.go Close/Listen"),("pool release","map.go release"),("closing of clients","client.go close")],
 [],["(*Node).Close","goroutines of the node","sockets on the simulated network"],NH)
p("N11","Connection lifecycle: events pair up, waits end, the first error sticks",
 "For every connection that completes its handshake, each bound protocol gets exactly one connect event, before any message of that connection is handled, and - once the connection has ended for whatever reason - exactly one disconnect event after it; a connection that never completed its handshake produces neither. Closing or losing either end of a connection ends both ends. Waiting for readiness or for closure returns once that point is reached, a closed connection is no longer listed by its node, and its error is the first cause and never changes.",
 ["schedules","fault_sequences","crash_points"],
 "Every interleaving of handshake, close from either side, reset, write failure, eviction and node shutdown.",
 "The tests close one idle, fully established connection at a time and never bind a protocol that observes events.",
 ["client.go","node.go","map.go"],
 [("lifecycle of a client","client.go outbound/inbound/close"),("connect and disconnect callbacks","client.go handshake/outbound/inbound")],
 [],["Protocol.OnPeerConnected/OnPeerDisconnected","(*Client).WaitUntilReady/WaitUntilClosed/Error","(*Node).Inbound/Outbound"],NH)
p("N12","A failing handler costs exactly its own connection",
 "When a handler returns an error for a message, later handlers are not run on that message, the connection it came on is closed and reports that error unless something failed earlier. Nothing else is affected: other connections keep being served at full worker capacity however many handler errors have occurred, and the node can still be closed.",
 ["schedules","inputs","configurations","histories"],
 "Every number of errors relative to the number of workers, at any time, from any connection, with concurrent traffic on others.",
 "One test returns one error from one handler on a node with many workers and looks at that connection only.",
 ["node.go","client.go"],
 [("worker loop","node.go Listen"),("error report and close","client.go reportError/close")],
 [],["(*Client).Error","Handler invocations","(*Node).Close"],NH)
p("N13","Idle connections are reclaimed, active ones are kept",
 "With an idle timeout configured at a node, a connection on which that node receives nothing for that long is closed and its resources released shortly after, also when the remote is silent, partitioned away or stopped in the middle of a message or of the handshake. A connection on which the node keeps receiving messages more often than the timeout is not closed for idleness, and messages it then sends are not lost even if it had nothing to send for longer than the timeout; a timeout of zero never closes a connection.",
 ["schedules","fault_sequences","configurations"],
 "Every timeout, every traffic pattern with gaps below or above it, every partial transfer, on both the dialling and accepting side.",
 "The tests cover one silent connection per side with a 50 ms wall-clock timeout; nothing tests that activity keeps a connection alive, one-sided silence, or a stop in mid-message.",
 ["client.go","node_options.go"],
 [("read deadline per frame","client.go read"),("write deadline","client.go write/writeLoop")],
 [],["(*Client).WaitUntilClosed","(*Node).Inbound/Outbound","delivery of messages"],NH)
p("N14","Service resumes after faults",
 "Once network faults have stopped and crashed nodes have been restarted under the same identity and address, pings, sends and requests between any two live nodes, and from a node to itself, succeed again within a bounded time and number of calls, without restarting the others, and connections left over from before the fault are eventually gone from both ends' pools.",
 ["fault_sequences","crash_points","schedules"],
 "Every sequence of partitions, resets, process kills and host failures followed by restarts and healing.",
 "No test breaks a network or restarts a node.",
 ["node.go","client.go","map.go"],
 [("redial on demand","node.go dialIfNotExists"),("removal of dead clients from the pool","client.go outbound/inbound, map.go remove")],
 [],["(*Node).Request","(*Node).Ping","(*Node).Inbound/Outbound"],NH)
p("N15","Traffic events match the traffic",
 "Every bound protocol is told exactly once about each message, request and reply a node receives on a connection, with that connection, and about sent data only after it was written out, at least once for every batch of data written on a live connection. It is told in neither case about connections whose handshake did not complete.",
 ["schedules","fault_sequences","histories"],
 "Every mix of messages, requests and replies in both directions, every batching of writes, every disconnect.",
 "No test observes these events directly; the overlay protocols built on them only sample their effect.",
 ["client.go","mod.go"],
 [("receive callback","client.go recvLoop"),("sent callback","client.go writeLoop")],
 [],["Protocol.OnMessageRecv","Protocol.OnMessageSent"],NH)
p("K01","The routing table is linearizable and answers closest-peer queries exactly",
 "Concurrent operations on a routing table behave as if executed one at a time on a table of buckets indexed by the length of the common prefix with the node's own identity, each holding at most 16 distinct identities, most recently updated first. An update inserts, refreshes or is refused because the bucket is full; lookups, removals, listings and counts reflect exactly one such state. A closest-peers query returns exactly the k recorded identities nearest to the target by XOR distance, nearest first, without the target itself.",
 ["schedules","histories","inputs"],
 "Every interleaving of concurrent table operations, every distribution of identities over buckets (full, empty, adjacent), every target and k.",
 "One test fills one bucket through the network; there is no concurrent use and closest-peer queries are only tested with a handful of peers.",
 ["kademlia/table.go","kademlia/binary.go"],
 [("table lock","kademlia/table.go"),("bucket index","kademlia/table.go getBucketIndex"),("distance sort","kademlia/binary.go SortByDistance")],
 [("buckets and size","recorded identities","kademlia/table.go")],["exported methods of kademlia.Table"],NH)
p("K02","The routing table keeps answering peers, replaces only dead ones, and says so",
 "A peer is admitted to the routing table when a connection to it completes or traffic with it occurs, unless its bucket is full of peers that still answer; a recorded peer is removed when the node failed to dial its address, and otherwise only after it - itself, not another identity at its address - failed to answer a ping within the configured timeout. Admission, activity and eviction notifications match the table: an identity is reported evicted only if it had been admitted, and the recorded identities are at all times, once notifications have been given, exactly those admitted and not since evicted, plus the node itself.",
 ["schedules","fault_sequences","histories"],
 "Every order and overlap of connections, traffic, full buckets, peers crashing, stalling, being partitioned away and returning.",
 "One test evicts one crashed peer sequentially; refused newcomers, concurrent acknowledgements, slow peers and notification conservation are not tested.",
 ["kademlia/protocol.go","kademlia/table.go"],
 [("acknowledge with ping of the oldest entry","kademlia/protocol.go Ack"),("eviction on failed dial","kademlia/protocol.go OnPingFailed")],
 [],["kademlia.Events","kademlia.Table","pings on the simulated network"],NH)
p("K03","Peer lookups terminate and return distinct, answering, closest peers",
 "A lookup ends within a bounded time whatever peers do - crash, stall, disconnect, answer with garbage or with any finite number of references to unreachable peers - and asks no peer twice. Its result holds at most the requested number of distinct peers that answered it, sorted by XOR distance to the target, without the node itself. In a fault-free overlay of no more nodes than a bucket holds, it returns the closest of all nodes reachable through the peers' tables.",
 ["schedules","fault_sequences","configurations","inputs"],
 "Every overlay shape, every parallelism setting, every failure of any subset of peers at any time, every garbled answer.",
 "One test covers a chain of three healthy nodes.",
 ["kademlia/iterator.go","kademlia/protocol.go","kademlia/msg.go","kademlia/table.go"],
 [("parallel disjoint lookups with shared visited set","kademlia/iterator.go"),("find-node answers","kademlia/protocol.go Handle")],
 [],["(*Protocol).Find/Discover","find-node requests seen by peers"],NH)
p("G01","Gossip is handed to each application at most once, unaltered",
 "However gossip races over several paths, workers and retransmitting peers, a node hands any given payload of any size to its application at most once, byte for byte as some node pushed it and attributed to a peer that really sent it, and never hands a node what it pushed itself.",
 ["schedules","inputs","fault_sequences"],
 "Every topology, number of workers, payload size including empty and very large, concurrent pushes of equal and different payloads, and every arrival order.",
 "One test pushes one small message over a full mesh and only waits for everyone to have seen it; duplicates are not detected.",
 ["gossip/protocol.go"],
 [("seen cache keyed by identity and payload","gossip/protocol.go Handle/Push")],
 [("seen cache","which peer is believed to know which payload","gossip/protocol.go")],["gossip.Events.OnGossipReceived"],NH)
p("G02","Gossip reaches every node of a connected overlay and then dies out",
 "In an overlay without faults in which every node is reachable from the pusher through the nodes' tables, everything pushed reaches every node, whatever its size; while some peers crash or refuse connections, and the links between the others stay up, it still reaches every node connected to the pusher through live nodes. A push returns, and the traffic for one payload ends: no node sends it to the same peer more than once per push.",
 ["schedules","fault_sequences","inputs","configurations"],
 "Every topology, payload size, number of concurrent pushes, slow links, crashed or unreachable peers in the tables.",
 "One test covers a healthy full mesh with one small message and never checks that traffic ends.",
 ["gossip/protocol.go"],
 [("relay to all recorded peers not believed to know the payload","gossip/protocol.go Push/Handle")],
 [],["gossip.Events.OnGossipReceived","(*Protocol).Push","frames on the simulated network"],NH)
p("M01","The message registry is consistent under concurrent use",
 "Concurrent registrations give every type its own number that is never shared or changed, and a type is never registered twice. A value encoded before, during or after registrations of other types decodes to an equal value, a value of an unregistered type and undecodable bytes yield an error, and no combination of concurrent registration, encoding and decoding, including nested encoding from within a type's own encoder, blocks for ever.",
 ["schedules","inputs","histories"],
 "Every interleaving of registrations, encodings and decodings, every byte string offered for decoding.",
 "The tests register, encode and decode one type sequentially.",
 ["codec.go"],
 [("registry lock","codec.go"),("opcode counter","codec.go register")],
 [],["(*Node).RegisterMessage/EncodeMessage/DecodeMessage"],NH)
p("R01","Operations documented as concurrent are free of data races",
 "Operations that the documentation declares safe for concurrent use, and the library's own goroutines underneath them, never access the same memory without synchronisation, in any interleaving, including with connections being opened, closed, evicted or shut down at the same time.",
 ["schedules","fault_sequences"],
 "Every interleaving of the concurrent operations with the life of connections and of the node.",
 "The tests' schedules are few, and they are not run under the race detector in an environment that steers interleavings.",
 ["client.go","node.go","map.go","msg.go","codec.go","kademlia/table.go","kademlia/iterator.go","gossip/protocol.go"],
 [("locks, atomics and channels throughout","all files")],
 [],["happens-before analysis of every simulated execution"],NH)
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
import re
for x in P:
    assert len(x["title"])<=80,x["id"]
    print(x["id"],len(re.findall(r"[.](?:\s|$)",x["statement"])),x["title"])
