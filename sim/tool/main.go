// Command tool prepares the deterministic-simulation build of the code in
// /repo's working tree.  It never writes into /repo: every changed file is a
// copy in the output directory, substituted with the go command's -overlay.
//
// It does two things.
//
//  1. It instruments every non-test Go file of the repository under test:
//     a scheduling point (simrt.Yield) before every statement, goroutine
//     creation through simrt.Go, the wall clock through simrt.Now, process exit
//     through simrt.Exit, and "package main" programs as importable packages.
//  2. It patches the standard library's package net so that sockets can be
//     backed by the simulator's network (net.Sim), which also puts the real
//     third-party database and queue drivers on the simulated network, and
//     package runtime so that select order, map order and random numbers come
//     from the run's seed and so that lock waits count as quiescent.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
)

const rtPath = "egtsverif/simrt"

type edit struct {
	off, end int
	text     string
	seq      int
}

type file struct {
	path string
	src  []byte
	ast  *ast.File
}

type pkg struct {
	path, dir string
	info      *types.Info
	name      string
	files     []*file
	imports   map[string]bool
}

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "tool: "+f+"\n", a...)
	os.Exit(2)
}

var siteTable []string

func main() {
	repo := flag.String("repo", "/repo", "repository under test")
	out := flag.String("out", "", "output directory")
	flag.Parse()
	if *out == "" {
		die("-out is required")
	}
	if err := os.MkdirAll(*out, 0o755); err != nil {
		die("%v", err)
	}
	replace := map[string]string{}
	stdlib(*out, replace)
	instrumentRepo(*repo, *out, replace)
	b, _ := json.MarshalIndent(map[string]interface{}{"Replace": replace}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0o644); err != nil {
		die("%v", err)
	}
	sb, _ := json.Marshal(siteTable)
	if err := os.WriteFile(filepath.Join(*out, "sites.json"), sb, 0o644); err != nil {
		die("%v", err)
	}
}

// ---------------------------------------------------------------- stdlib

type repl struct{ old, new string }

func stdlib(out string, replace map[string]string) {
	src := filepath.Join(runtime.GOROOT(), "src")
	if r := os.Getenv("GOROOT"); r != "" {
		src = filepath.Join(r, "src")
	}
	root := filepath.Join(src, "net")
	patchIn := func(dir, name string, rs ...repl) {
		p := filepath.Join(src, dir, name)
		b, err := os.ReadFile(p)
		if err != nil {
			die("%v", err)
		}
		s := string(b)
		for _, r := range rs {
			if strings.Count(s, r.old) != 1 {
				die("%s: pattern occurs %d times, want 1: %q (unexpected Go version)", p, strings.Count(s, r.old), r.old)
			}
			s = strings.Replace(s, r.old, r.new, 1)
		}
		o := filepath.Join(out, "std_"+strings.ReplaceAll(dir, "/", "_")+"_"+name)
		if err := os.WriteFile(o, []byte(s), 0o644); err != nil {
			die("%v", err)
		}
		replace[p] = o
	}
	patch := func(name string, rs ...repl) { patchIn("net", name, rs...) }
	patchIn("runtime", "select.go", repl{"cheaprandn(uint32(norder + 1))", "simSelectRand(uint32(norder + 1))"})
	patchIn("runtime", "rand.go", repl{"	mp := getg().m\n	c := &mp.chacha8\n	for {\n", "	if gp := getg(); simRandOn && gp.bubble != nil {\n		return simRand(&simRandState)\n	}\n	mp := getg().m\n	c := &mp.chacha8\n	for {\n"},
		repl{"func maps_rand() uint64 {\n", "func maps_rand() uint64 {\n	if gp := getg(); simRandOn && gp.bubble != nil {\n		return simMapRand\n	}\n"})
	for _, d := range []string{"math/rand", "math/rand/v2"} {
		patchIn(d, "rand.go", repl{"//go:linkname runtime_rand runtime.rand\n", "//go:linkname runtime_rand runtime.simUserRand\n"})
	}
	patchIn("internal/runtime/maps", "runtime_alg.go", repl{"key[i] = bootstrapRand()", "_ = bootstrapRand\n\t\tkey[i] = uint64(i+1) * 0x9e3779b97f4a7c15"})
	patchIn("internal/sync", "mutex.go", repl{"starvationThresholdNs = 1e6", "starvationThresholdNs = 1e18"})
	// a goroutine of a killed process, or of an earlier run, that still waits for a
	// package-level mutex is not there to be woken
	patchIn("runtime", "sema.go", repl{"	s, t0, tailtime := root.dequeue(addr)\n	if s != nil {\n		root.nwait.Add(-1)\n", "	s, t0, tailtime := root.dequeue(addr)\n	for s != nil && simIsGhost(s.g) {\n		root.nwait.Add(-1)\n		s, t0, tailtime = root.dequeue(addr)\n	}\n	if s != nil {\n		root.nwait.Add(-1)\n"})
	patchIn("runtime", "runtime2.go", repl{"	bubble  *synctestBubble\n", "	bubble  *synctestBubble\n	simGhost uint64\n"}, repl{"var isIdleInSynctest = [len(waitReasonStrings)]bool{\n", "var isIdleInSynctest = [len(waitReasonStrings)]bool{\n	waitReasonSyncMutexLock: true,\n	waitReasonSyncRWMutexLock: true,\n	waitReasonSyncRWMutexRLock: true,\n	waitReasonSyncWaitGroupWait: true,\n	waitReasonSelect: true,\n	waitReasonChanReceive: true,\n	waitReasonChanSend: true,\n"})
	patchIn("runtime", "time.go", repl{"t.rand = cheaprand()", "t.rand = simTimerRand()"},
		// times taken in the simulation carry a monotonic reading, as real ones do
		repl{"return sec, nsec, 0\n", "return sec, nsec, bubble.now\n"})
	// no preemption by elapsed real time, no hand-off of a processor in a system call
	patchIn("runtime", "proc.go", repl{"if pp.schedtick%61 == 0 && ", "if !simRandOn && pp.schedtick%61 == 0 && "}, repl{"func retake(now int64) uint32 {\n", "func retake(now int64) uint32 {\n	if simRandOn {\n		return 0\n	}\n"})
	// a library's os.Exit ends the simulated process
	patchIn("os", "proc.go", repl{"func Exit(code int) {\n", "func Exit(code int) {\n	if f := SimExit; f != nil {\n		f(code)\n	}\n"}, repl{"func runtime_beforeExit(exitCode int)", "// SimExit, when set, sees every exit first.\nvar SimExit func(code int)\n\nfunc runtime_beforeExit(exitCode int)"})
	// no signal reaches a simulated process (the simulator kills it instead)
	patchIn("os/signal", "signal.go", repl{"func Notify(c chan<- os.Signal, sig ...os.Signal) {\n", "func Notify(c chan<- os.Signal, sig ...os.Signal) {\n	if simulated {\n		return\n	}\n"}, repl{"func cancel(sigs []os.Signal, action func(int)) {\n", "// no signal reaches a simulated process\nconst simulated = true\n\nfunc cancel(sigs []os.Signal, action func(int)) {\n	if simulated {\n		return\n	}\n"})
	// what a pool holds must not outlive the simulated run (or process) it came from,
	// and what it hands out must not depend on the garbage collector
	patchIn("sync", "pool.go",
		repl{"type Pool struct {\n", "// SimEpoch, when not zero, numbers the simulated process images.\nvar SimEpoch uint64\n\ntype Pool struct {\n	simEpoch uint64\n	simList  []any\n"},
		repl{"	if race.Enabled {\n		if runtime_randn(4) == 0 {\n", "	if SimEpoch != 0 {\n		runtime_procPin()\n		if p.simEpoch != SimEpoch {\n			p.simEpoch, p.simList = SimEpoch, nil\n		}\n		p.simList = append(p.simList, x)\n		runtime_procUnpin()\n		return\n	}\n	if race.Enabled {\n		if runtime_randn(4) == 0 {\n"},
		repl{"func (p *Pool) Get() any {\n", "func (p *Pool) Get() any {\n	if SimEpoch != 0 {\n		var x any\n		runtime_procPin()\n		if p.simEpoch == SimEpoch && len(p.simList) > 0 {\n			n := len(p.simList) - 1\n			x, p.simList[n] = p.simList[n], nil\n			p.simList = p.simList[:n]\n		}\n		runtime_procUnpin()\n		if x == nil && p.New != nil {\n			x = p.New()\n		}\n		return x\n	}\n"},
	)
	rtf := filepath.Join(out, "std_runtime_zz_sim.go")
	if err := os.WriteFile(rtf, []byte(`package runtime

import _ "unsafe"

var simRandOn bool

// Each use has a stream of its own: what is done once in the life of the real
// process, such as filling a cache, must not move the others.
var simRandState, simSelectState, simTimerState, simUserState, simMapRand uint64

//go:nosplit
func simRand(st *uint64) uint64 {
	*st += 0x9e3779b97f4a7c15
	z := *st
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func simSelectRand(n uint32) uint32 {
	if simRandOn && getg().bubble != nil {
		return uint32(simRand(&simSelectState)>>33) % n
	}
	return cheaprandn(n)
}

func simTimerRand() uint32 {
	if simRandOn {
		return uint32(simRand(&simTimerState) >> 32)
	}
	return cheaprand()
}

//go:linkname simUserRand
func simUserRand() uint64 {
	if simRandOn && getg().bubble != nil {
		return simRand(&simUserState)
	}
	return rand()
}

//go:linkname simSeed egtsverif/simrt.rtSeed
func simSeed(on bool, seed uint64) {
	simRandOn = on
	simRandState = seed
	simMapRand = simRand(&seed)
	simSelectState = simRand(&seed)
	simTimerState = simRand(&seed)
	simUserState = simRand(&seed)
}

func simIsGhost(gp *g) bool {
	if gp.simGhost != 0 && gp.simGhost == gp.goid {
		return true
	}
	b := getg().bubble
	return b != nil && gp.bubble != nil && gp.bubble != b
}

// simBury marks goroutines that are never to be woken again.
//
//go:linkname simBury egtsverif/simrt.rtBury
func simBury(ids []uint64) {
	forEachGRace(func(gp *g) {
		for _, id := range ids {
			if gp.goid == id {
				gp.simGhost = id
			}
		}
	})
}

//go:linkname simGoid egtsverif/simrt.goid
func simGoid() uint64 { return getg().goid }
`), 0o644); err != nil {
		die("%v", err)
	}
	replace[filepath.Join(src, "runtime", "zz_sim.go")] = rtf
	fn := func(sig, body string) repl { return repl{sig + " {\n", sig + " {\n" + body + "\n"} }
	patch("fd_posix.go",
		repl{"type netFD struct {\n", "type netFD struct {\n\tsim SimFD\n"},
		fn("func (fd *netFD) Close() error", "\tif fd.sim != nil {\n\t\treturn fd.sim.Close()\n\t}"),
		fn("func (fd *netFD) closeRead() error", "\tif fd.sim != nil {\n\t\treturn fd.sim.CloseRead()\n\t}"),
		fn("func (fd *netFD) closeWrite() error", "\tif fd.sim != nil {\n\t\treturn fd.sim.CloseWrite()\n\t}"),
		fn("func (fd *netFD) Read(p []byte) (n int, err error)", "\tif fd.sim != nil {\n\t\treturn fd.sim.Read(p)\n\t}"),
		fn("func (fd *netFD) Write(p []byte) (nn int, err error)", "\tif fd.sim != nil {\n\t\treturn fd.sim.Write(p)\n\t}"),
		fn("func (fd *netFD) SetDeadline(t time.Time) error", "\tif fd.sim != nil {\n\t\tif err := fd.sim.SetReadDeadline(t); err != nil {\n\t\t\treturn err\n\t\t}\n\t\treturn fd.sim.SetWriteDeadline(t)\n\t}"),
		fn("func (fd *netFD) SetReadDeadline(t time.Time) error", "\tif fd.sim != nil {\n\t\treturn fd.sim.SetReadDeadline(t)\n\t}"),
		fn("func (fd *netFD) SetWriteDeadline(t time.Time) error", "\tif fd.sim != nil {\n\t\treturn fd.sim.SetWriteDeadline(t)\n\t}"),
	)
	patch("fd_unix.go",
		fn("func (fd *netFD) accept() (netfd *netFD, err error)", "\tif fd.sim != nil {\n\t\treturn simAccept(fd)\n\t}"),
	)
	patch("dial.go",
		fn("func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error)", "\tif Sim != nil {\n\t\tctx, cancel := d.dialCtx(ctx)\n\t\tdefer cancel()\n\t\treturn simDial(ctx, network, address)\n\t}"),
		fn("func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error)", "\tif Sim != nil {\n\t\treturn simListen(network, address)\n\t}"),
	)
	patch("tcpsock.go",
		fn("func ResolveTCPAddr(network, address string) (*TCPAddr, error)", "\tif Sim != nil {\n\t\treturn Sim.Resolve(network, address)\n\t}"),
		fn("func dialTCP(ctx context.Context, dialer *Dialer, network string, laddr, raddr *TCPAddr) (*TCPConn, error)", "\tif Sim != nil {\n\t\treturn simDialTCP(ctx, network, laddr, raddr)\n\t}"),
		fn("func ListenTCP(network string, laddr *TCPAddr) (*TCPListener, error)", "\tif Sim != nil {\n\t\treturn simListenTCP(network, laddr)\n\t}"),
		fn("func newTCPConn(fd *netFD, keepAliveIdle time.Duration, keepAliveCfg KeepAliveConfig, preKeepAliveHook func(*netFD), keepAliveHook func(KeepAliveConfig)) *TCPConn", "\tif fd.sim != nil {\n\t\treturn &TCPConn{conn{fd}}\n\t}"),
		fn("func (c *TCPConn) SetKeepAlive(keepalive bool) error", "\tif c != nil && c.fd != nil && c.fd.sim != nil {\n\t\treturn nil\n\t}"),
		fn("func (c *TCPConn) SetKeepAlivePeriod(d time.Duration) error", "\tif c != nil && c.fd != nil && c.fd.sim != nil {\n\t\treturn nil\n\t}"),
		fn("func (c *TCPConn) SetNoDelay(noDelay bool) error", "\tif c != nil && c.fd != nil && c.fd.sim != nil {\n\t\treturn nil\n\t}"),
		fn("func (c *TCPConn) SetLinger(sec int) error", "\tif c != nil && c.fd != nil && c.fd.sim != nil {\n\t\treturn nil\n\t}"),
	)
	patch("tcpsock_unix.go",
		fn("func (c *TCPConn) SetKeepAliveConfig(config KeepAliveConfig) error", "\tif c != nil && c.fd != nil && c.fd.sim != nil {\n\t\treturn nil\n\t}"),
	)
	patch("sockopt_posix.go",
		fn("func setReadBuffer(fd *netFD, bytes int) error", "\tif fd.sim != nil {\n\t\treturn nil\n\t}"),
		fn("func setWriteBuffer(fd *netFD, bytes int) error", "\tif fd.sim != nil {\n\t\treturn nil\n\t}"),
	)
	patch("writev_unix.go",
		fn("func (fd *netFD) writeBuffers(v *Buffers) (n int64, err error)", "\tif fd.sim != nil {\n\t\tvar all []byte\n\t\tfor _, b := range *v {\n\t\t\tall = append(all, b...)\n\t\t}\n\t\tk, err := fd.sim.Write(all)\n\t\tv.consume(int64(k))\n\t\treturn int64(k), err\n\t}"),
	)
	patch("lookup_unix.go",
		fn("func (r *Resolver) lookupHost(ctx context.Context, host string) (addrs []string, err error)", "\tif Sim != nil {\n\t\treturn simLookup(host)\n\t}"),
	)
	patch("lookup.go",
		fn("func (r *Resolver) lookupIPAddr(ctx context.Context, network, host string) ([]IPAddr, error)", "\tif Sim != nil {\n\t\ta, err := simLookup(host)\n\t\tif err != nil {\n\t\t\treturn nil, err\n\t\t}\n\t\treturn []IPAddr{{IP: ParseIP(a[0])}}, nil\n\t}"),
	)
	sim := `package net

import (
	"context"
	"time"
)

// SimFD is a simulated socket.
type SimFD interface {
	Read(p []byte) (int, error)
	Write(p []byte) (int, error)
	Close() error
	CloseRead() error
	CloseWrite() error
	SetReadDeadline(t time.Time) error
	SetWriteDeadline(t time.Time) error
	Accept() (fd SimFD, laddr, raddr Addr, err error)
}

// SimHooks, when set, replaces the operating system's sockets.
type SimHooks struct {
	Dial    func(ctx context.Context, network, address string) (fd SimFD, laddr, raddr Addr, err error)
	Listen  func(network, address string) (fd SimFD, laddr Addr, err error)
	Resolve func(network, address string) (*TCPAddr, error)
}

var Sim *SimHooks

func newSimFD(s SimFD, laddr, raddr Addr) *netFD {
	fd := &netFD{sim: s, net: "tcp", laddr: laddr, raddr: raddr, isConnected: raddr != nil}
	fd.pfd.Sysfd = -1
	return fd
}

func simLookup(host string) ([]string, error) {
	a, err := Sim.Resolve("tcp", JoinHostPort(host, "0"))
	if err != nil {
		return nil, &DNSError{Err: err.Error(), Name: host, IsNotFound: true}
	}
	return []string{a.IP.String()}, nil
}

func simAccept(fd *netFD) (*netFD, error) {
	s, la, ra, err := fd.sim.Accept()
	if err != nil {
		return nil, err
	}
	return newSimFD(s, la, ra), nil
}

// simPlainConn hides everything but net.Conn from client drivers.
type simPlainConn struct{ c *conn }

func (s simPlainConn) Read(p []byte) (int, error)         { return s.c.Read(p) }
func (s simPlainConn) Write(p []byte) (int, error)        { return s.c.Write(p) }
func (s simPlainConn) Close() error                       { return s.c.Close() }
func (s simPlainConn) LocalAddr() Addr                    { return s.c.LocalAddr() }
func (s simPlainConn) RemoteAddr() Addr                   { return s.c.RemoteAddr() }
func (s simPlainConn) SetDeadline(t time.Time) error      { return s.c.SetDeadline(t) }
func (s simPlainConn) SetReadDeadline(t time.Time) error  { return s.c.SetReadDeadline(t) }
func (s simPlainConn) SetWriteDeadline(t time.Time) error { return s.c.SetWriteDeadline(t) }

func simDial(ctx context.Context, network, address string) (Conn, error) {
	s, la, ra, err := Sim.Dial(ctx, network, address)
	if err != nil {
		return nil, &OpError{Op: "dial", Net: network, Source: nil, Addr: ra, Err: err}
	}
	return simPlainConn{&conn{newSimFD(s, la, ra)}}, nil
}

func simDialTCP(ctx context.Context, network string, laddr, raddr *TCPAddr) (*TCPConn, error) {
	if raddr == nil {
		return nil, &OpError{Op: "dial", Net: network, Source: laddr.opAddr(), Addr: nil, Err: errMissingAddress}
	}
	s, la, ra, err := Sim.Dial(ctx, network, raddr.String())
	if err != nil {
		return nil, &OpError{Op: "dial", Net: network, Source: laddr.opAddr(), Addr: raddr.opAddr(), Err: err}
	}
	return &TCPConn{conn{newSimFD(s, la, ra)}}, nil
}

func simListen(network, address string) (Listener, error) {
	s, la, err := Sim.Listen(network, address)
	if err != nil {
		return nil, &OpError{Op: "listen", Net: network, Source: nil, Addr: la, Err: err}
	}
	return &TCPListener{fd: newSimFD(s, la, nil)}, nil
}

func simListenTCP(network string, laddr *TCPAddr) (*TCPListener, error) {
	if laddr == nil {
		laddr = &TCPAddr{}
	}
	l, err := simListen(network, laddr.String())
	if err != nil {
		return nil, err
	}
	return l.(*TCPListener), nil
}
`
	o := filepath.Join(out, "std_net_zz_sim.go")
	if err := os.WriteFile(o, []byte(sim), 0o644); err != nil {
		die("%v", err)
	}
	replace[filepath.Join(root, "zz_sim.go")] = o
}

// ---------------------------------------------------------------- repository

func instrumentRepo(repo, out string, replace map[string]string) {
	modb, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		die("%v", err)
	}
	modPath := ""
	for _, l := range strings.Split(string(modb), "\n") {
		if f := strings.Fields(l); len(f) == 2 && f[0] == "module" {
			modPath = strings.Trim(f[1], `"`)
		}
	}
	if modPath == "" {
		die("no module line in go.mod")
	}
	fset := token.NewFileSet()
	pkgs := map[string]*pkg{}
	var dirs []string
	filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if fi.IsDir() {
			n := fi.Name()
			if p != repo && (strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_") || n == "testdata" || n == "vendor") {
				return filepath.SkipDir
			}
			dirs = append(dirs, p)
		}
		return nil
	})
	ctx := build.Default
	ctx.CgoEnabled = false
	for _, d := range dirs {
		bp, err := ctx.ImportDir(d, 0)
		if err != nil || len(bp.GoFiles) == 0 {
			continue
		}
		rel, _ := filepath.Rel(repo, d)
		p := &pkg{path: modPath, dir: d, name: bp.Name, imports: map[string]bool{}}
		if rel != "." {
			p.path = modPath + "/" + filepath.ToSlash(rel)
		}
		for _, f := range bp.GoFiles {
			fp := filepath.Join(d, f)
			src, err := os.ReadFile(fp)
			if err != nil {
				die("%v", err)
			}
			af, err := parser.ParseFile(fset, fp, src, parser.ParseComments|parser.SkipObjectResolution)
			if err != nil {
				die("does not parse: %v", err)
			}
			p.files = append(p.files, &file{fp, src, af})
			for _, im := range af.Imports {
				ip, _ := strconv.Unquote(im.Path.Value)
				p.imports[ip] = true
			}
		}
		pkgs[p.path] = p
	}
	var paths []string
	for p := range pkgs {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	im := &loose{fset: fset, pkgs: pkgs, done: map[string]*types.Package{}}
	for _, pp := range paths {
		im.Import(pp)
	}
	n := 0
	for _, pp := range paths {
		p := pkgs[pp]
		for _, f := range p.files {
			n++
			b := instrument(fset, p, f)
			o := filepath.Join(out, fmt.Sprintf("repo_%03d_%s", n, filepath.Base(f.path)))
			if err := os.WriteFile(o, b, 0o644); err != nil {
				die("%v", err)
			}
			if p.name == "main" {
				rel, _ := filepath.Rel(repo, p.dir)
				name := "vmain_" + strings.NewReplacer("/", "_", "-", "_", ".", "root").Replace(filepath.ToSlash(rel))
				replace[filepath.Join(repo, "zz_verif", name, filepath.Base(f.path))] = o
			} else {
				replace[f.path] = o
			}
		}
	}
}

// loose type-checks the repository's own packages; packages from elsewhere are
// empty and what depends on them stays untyped.
type loose struct {
	fset *token.FileSet
	pkgs map[string]*pkg
	done map[string]*types.Package
}

func (l *loose) Import(path string) (*types.Package, error) {
	if t := l.done[path]; t != nil {
		return t, nil
	}
	p := l.pkgs[path]
	if p == nil {
		t := types.NewPackage(path, path[strings.LastIndex(path, "/")+1:])
		t.MarkComplete()
		l.done[path] = t
		return t, nil
	}
	p.info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
	cfg := types.Config{Importer: l, Error: func(error) {}, DisableUnusedImportCheck: true}
	var fs []*ast.File
	for _, f := range p.files {
		fs = append(fs, f.ast)
	}
	t, _ := cfg.Check(path, l.fset, fs, p.info)
	if t == nil {
		t = types.NewPackage(path, p.name)
	}
	t.MarkComplete()
	l.done[path] = t
	return t, nil
}

// chain reports whether x is a plain variable or a field of one, and its root.
func chain(x ast.Expr) (root *ast.Ident, sel bool) {
	for {
		switch y := x.(type) {
		case *ast.Ident:
			return y, sel
		case *ast.SelectorExpr:
			x, sel = y.X, true
		case *ast.ParenExpr:
			x = y.X
		default:
			return nil, false
		}
	}
}

// resets returns an init function that registers how to put the file's
// package-level variables back to their initial values, so that every simulated
// process starts from a fresh image.
func resets(p *pkg, f *file, timeName string, inits []string, off func(token.Pos) int) string {
	var b strings.Builder
	text := func(n ast.Node) string { return string(f.src[off(n.Pos()):off(n.End())]) }
	for _, d := range f.ast.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.VAR {
			continue
		}
		for _, sp := range g.Specs {
			vs := sp.(*ast.ValueSpec)
			var lhs []string
			blank := true
			for _, n := range vs.Names {
				lhs = append(lhs, n.Name)
				if n.Name != "_" {
					blank = false
				}
			}
			if blank {
				continue
			}
			if len(vs.Values) == 0 {
				for _, n := range lhs {
					if n != "_" {
						fmt.Fprintf(&b, "\t\t%s = *new(%s)\n", n, text(vs.Type))
					}
				}
				continue
			}
			var rhs []string
			skip := false
			for _, v := range vs.Values {
				t := text(v)
				if timeName != "" {
					for _, fn := range []string{"Now", "Since", "Until"} {
						t = strings.ReplaceAll(t, timeName+"."+fn+"(", "simrt."+fn+"(")
					}
				}
				if strings.Contains(t, "flag.") {
					skip = true
				}
				rhs = append(rhs, t)
			}
			if !skip {
				fmt.Fprintf(&b, "\t\t%s = %s\n", strings.Join(lhs, ", "), strings.Join(rhs, ", "))
			}
		}
	}
	out := ""
	if b.Len() > 0 {
		out = fmt.Sprintf("\nfunc init() {\n\tsimrt.RegisterReset(%q, func() {\n%s\t})\n}\n", p.path, b.String())
	}
	for _, n := range inits {
		out += fmt.Sprintf("\nfunc init() {\n\tsimrt.RegisterInit(%q, %s)\n}\n", p.path, n)
	}
	return out
}

func instrument(fset *token.FileSet, p *pkg, f *file) []byte {
	tf := fset.File(f.ast.Pos())
	off := func(x token.Pos) int { return tf.Offset(x) }
	var edits []edit
	add := func(a, b token.Pos, text string) {
		edits = append(edits, edit{off(a), off(b), text, len(edits)})
	}
	src := f.src

	// imports
	names := map[string]string{}
	for _, im := range f.ast.Imports {
		ip, _ := strconv.Unquote(im.Path.Value)
		n := ip[strings.LastIndex(ip, "/")+1:]
		if im.Name != nil {
			n = im.Name.Name
		}
		names[ip] = n
	}
	pkgName := p.name
	if p.name == "main" {
		pkgName = "vmain"
	}
	add(f.ast.Name.Pos(), f.ast.Name.End(), pkgName+"; import simrt "+strconv.Quote(rtPath))
	if p.name == "main" {
		for _, d := range f.ast.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "main" {
				add(fd.Name.Pos(), fd.Name.End(), "Main")
			}
		}
	}
	// what a package does on start-up is done again by each simulated process
	var inits []string
	for _, d := range f.ast.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "init" && fd.Body != nil {
			n := fmt.Sprintf("simInit_%d_%d", tf.Base(), len(inits))
			add(fd.Name.Pos(), fd.Name.End(), n)
			inits = append(inits, n)
		}
	}
	usedTime, usedOS := false, false

	site := func(pos token.Pos) int {
		ps := fset.Position(pos)
		siteTable = append(siteTable, fmt.Sprintf("%s:%d", ps.Filename, ps.Line))
		return len(siteTable) - 1
	}
	constrained := bytes.Contains(src, []byte("//go:build")) || bytes.Contains(src, []byte("// +build"))
	generic := false
	var funcs []ast.Node // function literals around the node being visited
	mapType := func(x ast.Expr) bool {
		if p.info == nil {
			return false
		}
		t := p.info.Types[x].Type
		if t == nil {
			return false
		}
		_, ok := t.Underlying().(*types.Map)
		return ok
	}
	// shared reports whether x may be a variable other goroutines see too.
	shared := func(x ast.Expr) bool {
		root, sel := chain(x)
		if root == nil || root.Name == "_" {
			return false
		}
		if p.info == nil {
			return sel
		}
		o := p.info.Uses[root]
		if sel {
			// a field of a structure on this function's own stack is not
			if v, ok := o.(*types.Var); ok && v.Pkg() != nil && v.Parent() != v.Pkg().Scope() && v.Type() != nil {
				_, plain := v.Type().Underlying().(*types.Struct)
				own := len(funcs) == 0 || v.Pos() > funcs[len(funcs)-1].Pos()
				s, ok := x.(*ast.SelectorExpr)
				if ok {
					_, ok = s.X.(*ast.Ident)
				}
				if plain && own && ok {
					return false
				}
			}
			return true
		}
		if o == nil || o.Pkg() == nil {
			return false
		}
		if o.Parent() == o.Pkg().Scope() {
			return true
		}
		if len(funcs) == 0 {
			return false
		}
		in := funcs[len(funcs)-1]
		return o.Pos() < in.Pos() || o.Pos() > in.End()
	}
	// split separates the reading from the writing of a shared variable, so that
	// another goroutine can come in between.
	split := func(st ast.Stmt) {
		switch x := st.(type) {
		case *ast.IncDecStmt:
			if shared(x.X) {
				v := string(src[off(x.X.Pos()):off(x.X.End())])
				add(x.Pos(), x.End(), fmt.Sprintf("{ simTmp := %s; simTmp%s; simrt.Mid(%d); %s = simTmp }", v, x.Tok, site(x.Pos()), v))
			}
		case *ast.AssignStmt:
			if len(x.Lhs) != 1 || len(x.Rhs) != 1 || x.Tok == token.DEFINE || !shared(x.Lhs[0]) {
				return
			}
			v := string(src[off(x.Lhs[0].Pos()):off(x.Lhs[0].End())])
			k := ""
			if x.Tok == token.ASSIGN {
				reads := false
				ast.Inspect(x.Rhs[0], func(n ast.Node) bool {
					if e, ok := n.(ast.Expr); ok && string(src[off(e.Pos()):off(e.End())]) == v {
						reads = true
					}
					_, lit := n.(*ast.FuncLit)
					return !lit
				})
				if !reads {
					return
				}
				k = fmt.Sprintf("{ simTmp := %s; simTmp = ", v)
			} else {
				k = fmt.Sprintf("{ simTmp := %s; simTmp %s ", v, x.Tok)
			}
			add(x.Pos(), x.Rhs[0].Pos(), k)
			add(x.Rhs[0].End(), x.Rhs[0].End(), fmt.Sprintf("; simrt.Mid(%d); %s = simTmp }", site(x.Pos()), v))
		}
	}
	// mapOp lets the simulator see every access to a map that is not iteration.
	mapOp := func(m ast.Expr, fn string) {
		if constrained || !mapType(m) {
			return
		}
		generic = true
		add(m.Pos(), m.Pos(), fmt.Sprintf("simrt.%s(%d, ", fn, site(m.Pos())))
		add(m.End(), m.End(), ")")
	}
	writes := map[ast.Expr]bool{}
	later := map[*ast.CallExpr]bool{}
	yieldList := func(list []ast.Stmt) {
		for _, s := range list {
			switch s.(type) {
			case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
				continue
			}
			add(s.Pos(), s.Pos(), fmt.Sprintf("simrt.Yield(%d); ", site(s.Pos())))
			split(s)
		}
	}
	generated := strings.Contains(string(src[:min(len(src), 400)]), "DO NOT EDIT")
	visit := func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.AssignStmt:
			for _, l := range x.Lhs {
				writes[l] = true
			}
		case *ast.IncDecStmt:
			writes[x.X] = true
		case *ast.IndexExpr:
			if generated {
				break
			}
			if writes[x] {
				mapOp(x.X, "MapW")
			} else {
				mapOp(x.X, "MapR")
			}
		case *ast.DeferStmt:
			later[x.Call] = true
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); ok && !generated && !later[x] && (id.Name == "delete" || id.Name == "clear") && len(x.Args) > 0 {
				mapOp(x.Args[0], "MapW")
			}
		case *ast.RangeStmt:
			if !generated {
				mapOp(x.X, "MapR")
			}
		case *ast.BlockStmt:
			if !generated {
				yieldList(x.List)
			}
		case *ast.CaseClause:
			if !generated {
				yieldList(x.Body)
			}
		case *ast.CommClause:
			if !generated {
				yieldList(x.Body)
			}
		case *ast.ForStmt:
			if !generated && len(x.Body.List) == 0 {
				add(x.Body.Lbrace+1, x.Body.Lbrace+1, fmt.Sprintf(" simrt.Yield(%d) ", site(x.Pos())))
			}
		case *ast.GoStmt:
			if id, ok := x.Call.Fun.(*ast.Ident); ok {
				switch id.Name {
				case "close", "print", "println", "panic", "delete", "copy", "recover":
					return true
				}
			}
			ell := "false"
			if x.Call.Ellipsis.IsValid() {
				ell = "true"
			}
			add(x.Pos(), x.Call.Fun.Pos(), "simrt.Go("+ell+", ")
			sep := ""
			if len(x.Call.Args) > 0 {
				sep = ", "
			}
			add(x.Call.Lparen, x.Call.Lparen+1, sep)
			if x.Call.Ellipsis.IsValid() {
				add(x.Call.Ellipsis, x.Call.Ellipsis+3, "")
			}
		case *ast.SelectorExpr:
			id, ok := x.X.(*ast.Ident)
			if !ok {
				return true
			}
			if id.Name == names["time"] && names["time"] != "" {
				switch x.Sel.Name {
				case "Now", "Since", "Until":
					add(x.Pos(), x.End(), "simrt."+x.Sel.Name)
					usedTime = true
				}
			}
			if id.Name == names["os"] && names["os"] != "" && x.Sel.Name == "Exit" {
				add(x.Pos(), x.End(), "simrt.Exit")
				usedOS = true
			}
		}
		return true
	}
	var stack []ast.Node
	ast.Inspect(f.ast, func(n ast.Node) bool {
		if n == nil {
			if _, ok := stack[len(stack)-1].(*ast.FuncLit); ok {
				funcs = funcs[:len(funcs)-1]
			}
			stack = stack[:len(stack)-1]
			return true
		}
		stack = append(stack, n)
		if _, ok := n.(*ast.FuncLit); ok {
			funcs = append(funcs, n)
		}
		visit(n)
		return true
	})

	sort.SliceStable(edits, func(i, j int) bool {
		if edits[i].off != edits[j].off {
			return edits[i].off < edits[j].off
		}
		// pure insertions before replacements at the same offset
		zi, zj := edits[i].off == edits[i].end, edits[j].off == edits[j].end
		if zi != zj {
			return zi
		}
		return edits[i].seq < edits[j].seq
	})
	var b strings.Builder
	if generic {
		// the repository's language version is older than type parameters
		fmt.Fprintf(&b, "//go:build go1.18\n\n//line %s:1\n", f.path)
	}
	pos := 0
	for _, e := range edits {
		if e.off < pos {
			die("%s: overlapping edits at offset %d", f.path, e.off)
		}
		b.Write(src[pos:e.off])
		b.WriteString(e.text)
		pos = e.end
	}
	b.Write(src[pos:])
	b.WriteString("\nvar _ = simrt.Yield\n")
	if !generated {
		b.WriteString(resets(p, f, names["time"], inits, off))
	}
	if usedTime {
		fmt.Fprintf(&b, "var _ %s.Duration\n", names["time"])
	}
	if usedOS {
		fmt.Fprintf(&b, "var _ = %s.Args\n", names["os"])
	}
	return []byte(b.String())
}
