package main

import (
	"runtime"
)

// History event kinds.
const (
	// network
	nDial    = iota + 1 // A dial id, B proc, C grp, S raddr
	nDialEnd            // A dial id, B error code, C grp
	nEstab              // A conn, B dialer sock, C acceptor sock, S addrs
	nAccept             // A sock, B conn, C grp
	nClose              // A conn, B sock, C 1 if reset
	nReset              // A conn, B sock, C errno
	nFin                // A conn, B sock
	nListen             // A id, B grp, C port
	nUnlisten
	nFault  // A plan fault index, S kind
	nUse    // A conn, B sock, C goroutine
	nWr     // A conn, B sock, C frames written so far
	nTamper // A conn, B dir, C stream offset / frame, S kind

	// processes
	pStart // A proc, B grp
	pKill  // A proc, B grp
	pLive  // A proc, B grp, C live goroutines, S who

	// API calls
	cBegin // A call id, B proc, C op id, D to, S kind
	cEnd   // A call id, B proc, C status (0 ok), D aux, S error / payload digest
	// callbacks
	hEnter // A proc, B handler idx, C msg id, D client tag; S "" or problem / sender
	hExit  // A proc, B handler idx, C msg id, D client tag, S err
	hAns   // A proc, B answer idx, C msg id, D 1 ok / 0 refused
	eConn  // A proc, B proto, C client, S id
	eDisc
	ePing // A proc, B proto, S addr + err
	eRecv // A proc, B proto, C client
	eSent
	eBind
	oList // A proc, B in/out (0/1), C index/count, D client, S
	oErr  // A proc, C client, S error
	oMisc // A.., S
	kAdm  // A proc, S id
	kAct
	kEv
	gRecv // A proc, B sender, C payload id, S problem
	gIn   // A proc, B sender, C payload id: gossip seen by the node
	kTab  // A proc, B listing, C process of the entry, S id
	kRes  // A proc, B call, C process of the result, S id
	kReq  // A proc, B kind, C asker (-1 unknown), S target: a request a harness peer got
	tBeg  // A op id, B table
	tEnd  // A op id, B table, S result
	eCbX  // A proc, B kind: a slow callback returned
	kAns  // A proc, B kind, C mode, S target: how it was answered
)

func logEv(k int32, a, b, c, d int64, s string) { runtime.ZsimLog(k, a, b, c, d, s) }

func logNet(k int32, a, b, c int64, s string) { runtime.ZsimLog(k, a, b, c, 0, s) }
