// Package gen builds the overlay that turns the Go runtime, the net package
// and the code under test into a deterministic simulation.
package gen

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type edit struct{ old, new string }

// stdPatches: file (relative to GOROOT/src) -> anchored edits. Every anchor
// must occur exactly once.
var stdPatches = map[string][]edit{
	"runtime/runtime2.go": {{
		"	parentGoid      uint64          // goid of goroutine that created this goroutine\n",
		"	parentGoid      uint64          // goid of goroutine that created this goroutine\n	zgrp            int32\n	zid             uint32\n	zpri            uint32\n	zkill           bool\n",
	}},
	"runtime/proc.go": {
		{"const haveSysmon = GOARCH != \"wasm\"", "const haveSysmon = false"},
		{"func runqput(pp *p, gp *g, next bool) {\n", "func runqput(pp *p, gp *g, next bool) {\n	if gp.zgrp != 0 && zsimOn {\n		zsimEnq(gp)\n		return\n	}\n"},
		{"func globrunqput(gp *g) {\n", "func globrunqput(gp *g) {\n	if gp.zgrp != 0 && zsimOn {\n		zsimEnq(gp)\n		return\n	}\n"},
		{"	// local runq\n	if gp, inheritTime := runqget(pp); gp != nil {\n		return gp, inheritTime, false\n	}\n",
			"	// local runq\n	if gp, inheritTime := runqget(pp); gp != nil {\n		return gp, inheritTime, false\n	}\n	if zsimOn && sched.runq.empty() {\n		if gp := zsimPick(); gp != nil {\n			return gp, false, false\n		}\n		if zsimIdle(pp) {\n			goto top\n		}\n	}\n"},
		{"	newg.parentGoid = callergp.goid\n", "	newg.parentGoid = callergp.goid\n	zsimNewG(newg, callergp)\n"},
	},
	"runtime/time.go": {
		{"	isSending atomic.Int32\n}\n", "	isSending atomic.Int32\n\n	zgrp int32\n}\n"},
		{"	if bubble := getg().bubble; bubble != nil {\n		t.isFake = true\n	}\n	t.modify(when, period, f, arg, 0)\n", "	if bubble := getg().bubble; bubble != nil {\n		t.isFake = true\n	}\n	t.zgrp = getg().zgrp\n	t.modify(when, period, f, arg, 0)\n"},
		{"	f(arg, seq, delay)\n", "	zgp := getg()\n	zold := zgp.zgrp\n	zgp.zgrp = t.zgrp\n	f(arg, seq, delay)\n	zgp.zgrp = zold\n"},
	},
	"runtime/time_linux_amd64.s": {
		{"TEXT time·now<ABIInternal>(SB)", "TEXT runtime·zsimTimeNow<ABIInternal>(SB)"},
	},
	"runtime/time_nofake.go": {
		{"	return nanotime1()\n", "	if zsimOn {\n		return zs.now\n	}\n	return nanotime1()\n"},
	},
	"runtime/rand.go": {
		{"	globalRand.state.Init(*seed)\n", "	for i := range seed {\n		seed[i] = byte(i + 1)\n	}\n	globalRand.state.Init(*seed)\n"},
		{"func maps_rand() uint64 {\n", "func maps_rand() uint64 {\n	if zsimOn {\n		return zsimMix(&zs.ra)\n	}\n"},
		{"func rand() uint64 {\n", "func rand() uint64 {\n	if zsimOn {\n		return zsimMix(&zs.ra)\n	}\n"},
	},
	"runtime/select.go": {
		{"		j := cheaprandn(uint32(norder + 1))\n", "		var j uint32\n		if zsimOn {\n			j = zsimSelect(uint32(norder + 1))\n		} else {\n			j = cheaprandn(uint32(norder + 1))\n		}\n"},
	},
	"internal/poll/fd_unix.go": {
		{"	isFile bool\n}\n", "	isFile bool\n\n	// Sim, when set, is a simulated socket.\n	Sim SimFD\n}\n"},
		{"func (fd *FD) Close() error {\n", "func (fd *FD) Close() error {\n	if fd.Sim != nil {\n		return fd.Sim.Close()\n	}\n"},
		{"func (fd *FD) Read(p []byte) (int, error) {\n", "func (fd *FD) Read(p []byte) (int, error) {\n	if fd.Sim != nil {\n		return fd.Sim.Read(p)\n	}\n"},
		{"func (fd *FD) Write(p []byte) (int, error) {\n", "func (fd *FD) Write(p []byte) (int, error) {\n	if fd.Sim != nil {\n		return fd.Sim.Write(p)\n	}\n"},
	},
	"internal/poll/fd_posix.go": {
		{"func (fd *FD) Shutdown(how int) error {\n", "func (fd *FD) Shutdown(how int) error {\n	if fd.Sim != nil {\n		return fd.Sim.Shutdown(how)\n	}\n"},
	},
	"internal/poll/sockopt.go": {
		{"func (fd *FD) SetsockoptInt(level, name, arg int) error {\n", "func (fd *FD) SetsockoptInt(level, name, arg int) error {\n	if fd.Sim != nil {\n		return nil\n	}\n"},
		{"func (fd *FD) SetsockoptLinger(level, name int, l *syscall.Linger) error {\n", "func (fd *FD) SetsockoptLinger(level, name int, l *syscall.Linger) error {\n	if fd.Sim != nil {\n		return nil\n	}\n"},
	},
	"internal/poll/fd_poll_runtime.go": {
		{"func setDeadlineImpl(fd *FD, t time.Time, mode int) error {\n", "func setDeadlineImpl(fd *FD, t time.Time, mode int) error {\n	if fd.Sim != nil {\n		switch mode {\n		case 'r', 'w':\n			return fd.Sim.SetDeadline(t, mode)\n		}\n		return fd.Sim.SetDeadline(t, 'b')\n	}\n"},
	},
	"internal/poll/writev.go": {
		{"func (fd *FD) Writev(v *[][]byte) (int64, error) {\n", "func (fd *FD) Writev(v *[][]byte) (int64, error) {\n	if fd.Sim != nil {\n		var tot int64\n		for len(*v) > 0 {\n			n, err := fd.Sim.Write((*v)[0])\n			tot += int64(n)\n			if err != nil {\n				return tot, err\n			}\n			*v = (*v)[1:]\n		}\n		return tot, nil\n	}\n"},
	},
	"net/fd_unix.go": {
		{"func (fd *netFD) accept() (netfd *netFD, err error) {\n", "func (fd *netFD) accept() (netfd *netFD, err error) {\n	if fd.pfd.Sim != nil {\n		return fd.zsimAccept()\n	}\n"},
	},
	"net/ipsock_posix.go": {
		{"	switch runtime.GOOS {\n	case \"aix\", \"freebsd\", \"windows\", \"openbsd\", \"js\", \"wasip1\":\n		if mode == \"dial\" && raddr.isWildcard() {", "	if ZsimNet != nil {\n		return zsimSocket(ctx, net, laddr, raddr, mode)\n	}\n	switch runtime.GOOS {\n	case \"aix\", \"freebsd\", \"windows\", \"openbsd\", \"js\", \"wasip1\":\n		if mode == \"dial\" && raddr.isWildcard() {"},
	},
	"net/tcpsock_posix.go": {
		{"func (c *TCPConn) readFrom(r io.Reader) (int64, error) {\n", "func (c *TCPConn) readFrom(r io.Reader) (int64, error) {\n	if c.fd.pfd.Sim != nil {\n		return genericReadFrom(c, r)\n	}\n"},
		{"func (c *TCPConn) writeTo(w io.Writer) (int64, error) {\n", "func (c *TCPConn) writeTo(w io.Writer) (int64, error) {\n	if c.fd.pfd.Sim != nil {\n		return genericWriteTo(c, w)\n	}\n"},
	},
	"crypto/internal/sysrand/rand.go": {
		{"	if firstUse.CompareAndSwap(false, true) {\n", "	if zsimRandom(b) {\n		return\n	}\n	if firstUse.CompareAndSwap(false, true) {\n"},
		{"var testingOnlyFailRead bool\n", "var testingOnlyFailRead bool\n\n//go:linkname zsimRandom\nfunc zsimRandom(b []byte) bool\n"},
	},
}

// Std produces the patched standard library files in out and adds them to
// rep.
func Std(goroot, simdir, out string, rep map[string]string) error {
	files := make([]string, 0, len(stdPatches))
	for f := range stdPatches {
		files = append(files, f)
	}
	sort.Strings(files)
	for _, f := range files {
		src := filepath.Join(goroot, "src", f)
		b, err := os.ReadFile(src)
		if err != nil {
			return err
		}
		s := string(b)
		for _, e := range stdPatches[f] {
			if n := strings.Count(s, e.old); n != 1 {
				return fmt.Errorf("%s: anchor occurs %d times: %q", f, n, e.old)
			}
			s = strings.Replace(s, e.old, e.new, 1)
		}
		if err := put(out, "std/"+f, src, s, rep); err != nil {
			return err
		}
	}
	tn := "package runtime\n\nimport _ \"unsafe\"\n\nfunc zsimTimeNow() (sec int64, nsec int32, mono int64)\n\n//go:linkname time_now time.now\nfunc time_now() (sec int64, nsec int32, mono int64) {\n	if zsimOn {\n		return zs.now / 1e9, int32(zs.now % 1e9), zs.now\n	}\n	return zsimTimeNow()\n}\n"
	if err := put(out, "std/runtime/timeasm.go", filepath.Join(goroot, "src/runtime/timeasm.go"), tn, rep); err != nil {
		return err
	}
	for _, x := range [][2]string{
		{"runtime_zsim.go.txt", "runtime/zsim.go"},
		{"poll_zsim.go.txt", "internal/poll/zsim.go"},
		{"net_zsim.go.txt", "net/zsim.go"},
	} {
		b, err := os.ReadFile(filepath.Join(simdir, "overlay", x[0]))
		if err != nil {
			return err
		}
		if err := put(out, "std/"+x[1], filepath.Join(goroot, "src", x[1]), string(b), rep); err != nil {
			return err
		}
	}
	return nil
}

func put(out, rel, target, s string, rep map[string]string) error {
	p := filepath.Join(out, rel)
	if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
		return err
	}
	if old, err := os.ReadFile(p); err != nil || string(old) != s {
		if err := os.WriteFile(p, []byte(s), 0o644); err != nil {
			return err
		}
	}
	rep[target] = p
	return nil
}

// Instrument inserts a yield point before every statement of the non-test Go
// files of the packages in dirs (below root).
func Instrument(root string, dirs []string, out string, rep map[string]string) (int, error) {
	total := 0
	for _, d := range dirs {
		ents, err := os.ReadDir(filepath.Join(root, d))
		if err != nil {
			return 0, err
		}
		for _, e := range ents {
			n := e.Name()
			if e.IsDir() || !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
				continue
			}
			src := filepath.Join(root, d, n)
			b, err := os.ReadFile(src)
			if err != nil {
				return 0, err
			}
			s, k, err := instrument(src, b)
			if err != nil {
				return 0, err
			}
			total += k
			if k == 0 {
				continue
			}
			if err := put(out, filepath.Join("src", d, n), src, s, rep); err != nil {
				return 0, err
			}
		}
	}
	return total, nil
}

func instrument(name string, b []byte) (string, int, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, b, parser.ParseComments|parser.SkipObjectResolution)
	if err != nil {
		return "", 0, err
	}
	tf := fset.File(f.Pos())
	var at []int
	stmts := func(l []ast.Stmt) {
		for _, s := range l {
			switch s := s.(type) {
			case *ast.EmptyStmt:
				continue
			case *ast.LabeledStmt:
				// A yield before a label would be outside a labelled loop's
				// label; put it before the label itself.
				_ = s
			}
			at = append(at, tf.Offset(s.Pos()))
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			if len(n.List) > 0 {
				switch n.List[0].(type) {
				case *ast.CaseClause, *ast.CommClause:
					return true
				}
			}
			stmts(n.List)
		case *ast.CaseClause:
			stmts(n.Body)
		case *ast.CommClause:
			stmts(n.Body)
		case *ast.FuncDecl:
			if n.Doc != nil {
				for _, c := range n.Doc.List {
					if strings.HasPrefix(c.Text, "//go:nosplit") {
						return false
					}
				}
			}
		}
		return true
	})
	if len(at) == 0 {
		return string(b), 0, nil
	}
	sort.Ints(at)
	var sb strings.Builder
	pos := tf.Offset(f.Name.End())
	sb.Write(b[:pos])
	sb.WriteString("; import zsim__ \"runtime\"")
	last := -1
	for _, o := range at {
		if o == last {
			continue
		}
		last = o
		sb.Write(b[pos:o])
		sb.WriteString("zsim__.ZsimY(); ")
		pos = o
	}
	sb.Write(b[pos:])
	return sb.String(), len(at), nil
}

// WriteOverlay writes the overlay description.
func WriteOverlay(path string, rep map[string]string) error {
	b, err := json.MarshalIndent(map[string]any{"Replace": rep}, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(path, b, 0o644)
}
