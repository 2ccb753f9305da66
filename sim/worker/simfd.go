package main

import (
	"context"
	"io"
	"net"
	"runtime"
	"strings"
	"syscall"
	"time"
	"unsafe"
)

// Request codes between node goroutines and the network daemon.
const (
	opDialNew = iota + 1
	opDialWait
	opDialCancel
	opListen
	opAccept
	opRead
	opWrite
	opClose
	opShutdown
	opDeadline
	opLive
	opHappens
	opAwait
)

// Error codes in replies: 0 none, >0 errno, <0 special.
const (
	ecClosed   = -1
	ecDeadline = -2
	ecEOF      = -3
	ecCancel   = -4
)

func codeErr(c int64) error {
	switch {
	case c == 0:
		return nil
	case c == ecClosed:
		return net.ZsimErrClosed
	case c == ecDeadline:
		return net.ZsimErrDeadline
	case c == ecEOF:
		return io.EOF
	default:
		return syscall.Errno(c)
	}
}

// backend implements net.ZsimBackend in terms of calls to the daemon. It runs
// in node goroutines and holds no state of its own.
type backend struct{}

type simFD struct {
	id  int64
	hb  byte // address for the race detector's close edge
	lst bool
}

func tcpStr(a *net.TCPAddr) string {
	if a == nil {
		return ":0"
	}
	return a.String()
}

// parseTCP turns "ip:port" into an address without the resolver.
func parseTCP(s string) *net.TCPAddr {
	v6 := strings.HasPrefix(s, "6")
	s = s[1:]
	i := strings.LastIndexByte(s, ':')
	h, p := strings.Trim(s[:i], "[]"), s[i+1:]
	port := 0
	for _, c := range p {
		port = port*10 + int(c-'0')
	}
	ip := net.ParseIP(h)
	if !v6 && ip.To4() != nil {
		ip = ip.To4()
	}
	return &net.TCPAddr{IP: ip, Port: port}
}

func (backend) Dial(ctx context.Context, la, ra *net.TCPAddr) (net.ZsimFD, *net.TCPAddr, *net.TCPAddr, error) {
	id, _, _, _ := runtime.ZsimCall(opDialNew, 0, 0, 0, nil, tcpStr(ra))
	stop := context.AfterFunc(ctx, func() { runtime.ZsimCall(opDialCancel, id, 0, 0, nil, "") })
	sid, ec, coin, addrs := runtime.ZsimCall(opDialWait, id, 0, 0, nil, "")
	stop()
	if ec == ecCancel {
		return nil, nil, nil, ctx.Err()
	}
	if ec != 0 {
		return nil, nil, nil, syscall.Errno(ec)
	}
	if ctx.Err() != nil && coin != 0 {
		runtime.ZsimCall(opClose, sid, 0, 0, nil, "")
		return nil, nil, nil, ctx.Err()
	}
	i := strings.IndexByte(addrs, '|')
	return &simFD{id: sid}, parseTCP(addrs[:i]), parseTCP(addrs[i+1:]), nil
}

func (backend) Listen(la *net.TCPAddr) (net.ZsimListener, *net.TCPAddr, error) {
	id, ec, _, a := runtime.ZsimCall(opListen, 0, 0, 0, nil, tcpStr(la))
	if ec != 0 {
		return nil, nil, syscall.Errno(ec)
	}
	return &simFD{id: id, lst: true}, parseTCP(a), nil
}

func (f *simFD) res(ec int64) error {
	if ec == ecClosed {
		runtime.ZsimAcquire(unsafe.Pointer(&f.hb))
	}
	return codeErr(ec)
}

func (f *simFD) Accept() (net.ZsimFD, *net.TCPAddr, *net.TCPAddr, error) {
	id, ec, _, addrs := runtime.ZsimCall(opAccept, f.id, 0, 0, nil, "")
	if ec != 0 {
		return nil, nil, nil, f.res(ec)
	}
	i := strings.IndexByte(addrs, '|')
	return &simFD{id: id}, parseTCP(addrs[:i]), parseTCP(addrs[i+1:]), nil
}

func (f *simFD) Read(p []byte) (int, error) {
	n, ec, _, _ := runtime.ZsimCall(opRead, f.id, int64(runtime.ZsimID()), 0, p, "")
	return int(n), f.res(ec)
}

func (f *simFD) Write(p []byte) (int, error) {
	n, ec, _, _ := runtime.ZsimCall(opWrite, f.id, int64(runtime.ZsimID()), 0, p, "")
	return int(n), f.res(ec)
}

func (f *simFD) Close() error {
	runtime.ZsimRelease(unsafe.Pointer(&f.hb))
	_, ec, _, _ := runtime.ZsimCall(opClose, f.id, 0, 0, nil, "")
	return f.res(ec)
}

func (f *simFD) Shutdown(how int) error {
	_, ec, _, _ := runtime.ZsimCall(opShutdown, f.id, int64(how), 0, nil, "")
	return f.res(ec)
}

func (f *simFD) SetDeadline(t time.Time, mode int) error {
	var at int64
	if !t.IsZero() {
		at = t.UnixNano()
		if at == 0 {
			at = 1
		}
	}
	_, ec, _, _ := runtime.ZsimCall(opDeadline, f.id, int64(mode), at, nil, "")
	return f.res(ec)
}
