package des

import (
	"context"
	"fmt"
	"hash/fnv"
	"io"
	"net"
	"os"
	"strconv"
	"strings"
	"syscall"
	"time"

	"egtsverif/simrt"
)

// End is one end of a simulated TCP connection.  An end belongs either to the
// system under test (Proc != nil; used through net.Conn) or to a simulated peer
// (callbacks run on the scheduler goroutine).
type End struct {
	s    *Sim
	ID   string
	Proc *Proc
	peer *End

	rbuf     []byte
	eof      bool
	rst      error
	rstTaken bool
	closed   bool
	rclosed  bool
	wclosed  bool
	rdl, wdl time.Duration
	rdlSet   time.Duration

	inflight int           // bytes sent by the other end and not yet consumed here
	lastArr  time.Duration // FIFO order of what this end sends
	window   int           // receive window of this end

	laddr, raddr net.Addr

	// peer side
	OnData  func(b []byte)
	OnEOF   func()
	OnReset func()
	Paused  bool // the peer does not read: its window fills up

	// history of the end of the system under test
	Delivered int64           // bytes delivered into rbuf
	Read      int64           // bytes handed to the code under test
	LastRead  time.Duration   // when the last byte was handed over
	LastArrT  time.Duration   // when the last byte arrived
	Wrote     []WriteRec      // successful writes
	ClosedAt  time.Duration   // when the code under test closed it, or -1
	Accepted  time.Duration   // when it was accepted, or -1
	EOFRead   time.Duration   // when end of stream was reported, or -1
	RstSeen   time.Duration   // when a reset was reported or arrived, or -1
	OnWrite   func(b []byte)  // called when the code under test writes
	OnClose   func()          // called when the code under test closes
	OnDeliver func(n int64)   // bytes arrived, cumulative
	OnRead    func(n int64)   // bytes handed to the code under test, cumulative
	NoDelay   time.Duration   // fixed latency override for this end's sends
	DeadSet   []time.Duration // deadlines it set (diagnostics)
	SaveEnd   time.Duration
	fixedLat  bool
	frozen    bool
	held      []heldSeg
}

type heldSeg struct {
	b   []byte
	fin bool
}

// WriteRec is one write by the system under test.
type WriteRec struct {
	At  time.Duration
	Seq int64
	N   int
}

// Service is a simulated server the system under test may dial.
type Service struct {
	Addr string
	// Accept gets the service's end of a new connection.
	Accept func(e *End)
	// Refuse, when it returns an error, makes the dial fail with it.
	Refuse func() error
	// Blackhole, while true, leaves dials without an answer.
	Blackhole func() bool
}

// Serve registers a service.
func (s *Sim) Serve(sv *Service) {
	if !strings.HasPrefix(sv.Addr, ":") {
		sv.Addr = canon(sv.Addr)
	}
	s.services[sv.Addr] = sv
}

// service finds who serves an address: a machine, or every machine.
func (s *Sim) service(addr string) *Service {
	if sv := s.services[local(canon(addr))]; sv != nil {
		return sv
	}
	return s.services[svcAddr(addr)]
}

// local: a connection to the unspecified address is one to this machine.
func local(addr string) string {
	if h, p, err := net.SplitHostPort(addr); err == nil && net.ParseIP(h).IsUnspecified() {
		return "127.0.0.1:" + p
	}
	return addr
}

// Listener is a listening socket of the system under test.
type Listener struct {
	s       *Sim
	Addr    string
	Bind    string // host and port as given, canonical
	Proc    *Proc
	backlog []*End
	closed  bool
	errs    []error
	addr    *net.TCPAddr
	Accepts int
	// AcceptErr, when set, may return an error for the next accept.
	AcceptErr func(n int) error
	nacc      int
	OnClose   func()
	ClosedAt  time.Duration
}

// ListenerAt returns the open listener of an address, or nil.
func (s *Sim) ListenerAt(addr string) *Listener {
	l := s.listen[addr]
	if l == nil || l.closed {
		return nil
	}
	return l
}

// LastListener returns the listener last opened on addr, even if closed.
func (s *Sim) LastListener(addr string) *Listener { return s.listen[addr] }

func (s *Sim) newEnd(id string) *End {
	w := s.Net.Window
	if w <= 0 {
		w = 1 << 20
	}
	return &End{s: s, ID: id, rdl: -1, wdl: -1, window: w, ClosedAt: -1, Accepted: -1, EOFRead: -1, RstSeen: -1}
}

func (s *Sim) pipe(name string) (sut, peer *End) {
	s.pipes++
	sut = s.newEnd(fmt.Sprintf("%s.%d", name, s.pipes))
	peer = s.newEnd(fmt.Sprintf("%s.%d'", name, s.pipes))
	peer.window = 1 << 30
	sut.peer, peer.peer = peer, sut
	return
}

func (s *Sim) lat(e *End) time.Duration {
	if e.fixedLat {
		return e.NoDelay
	}
	return s.Dur(s.Net.LatMin, s.Net.LatMax)
}

// FixLatency makes the end's sends take exactly d.
func (e *End) FixLatency(d time.Duration) { e.fixedLat = true; e.NoDelay = d }

// Connect opens a connection from a simulated peer to a listener of the system
// under test.  done gets the peer's end, or nil if the connection is refused.
func (s *Sim) Connect(name, addr string, from string, done func(e *End)) {
	d := s.Dur(s.Net.LatMin, s.Net.LatMax)
	s.After(d, "connect "+name, func() {
		l := s.ListenerAt(addr)
		if l == nil || l.Proc.Dead {
			s.Logf("net %s refused", name)
			done(nil)
			return
		}
		sut, peer := s.pipe(name)
		sut.Proc = l.Proc
		sut.laddr = l.addr
		sut.raddr = mustAddr(from)
		l.Proc.ends = append(l.Proc.ends, sut)
		l.backlog = append(l.backlog, sut)
		s.Logf("net %s connected as %s", name, sut.ID)
		done(peer)
	})
}

// Sut is the other end, when that belongs to the system under test.
func (e *End) Sut() *End { return e.peer }

// Send transmits bytes from a simulated peer.
func (e *End) Send(b []byte) {
	if e.closed || e.wclosed || len(b) == 0 {
		return
	}
	if e.frozen {
		e.held = append(e.held, heldSeg{b: append([]byte(nil), b...)})
		return
	}
	e.transmit(append([]byte(nil), b...), false)
}

// Freeze holds everything the peer sends until Thaw: a partition.
func (e *End) Freeze() { e.frozen = true }

// Thaw delivers what was held.
func (e *End) Thaw() {
	if !e.frozen {
		return
	}
	e.frozen = false
	h := e.held
	e.held = nil
	for _, x := range h {
		e.transmit(x.b, x.fin)
	}
}

func (e *End) transmit(b []byte, fin bool) {
	s := e.s
	at := s.Now() + s.lat(e)
	if at < e.lastArr {
		at = e.lastArr
	}
	e.lastArr = at
	r := e.peer
	r.inflight += len(b)
	s.After(at-s.Now(), "seg "+e.ID, func() { r.arrive(b, fin) })
}

func (r *End) arrive(b []byte, fin bool) {
	s := r.s
	if r.closed || r.rst != nil || (r.rclosed && len(b) > 0) {
		r.inflight -= len(b)
		if r.closed && len(b) > 0 && r.rst == nil {
			// data for a closed socket: the kernel answers with a reset
			p := r.peer
			s.After(s.lat(r), "rst "+r.ID, func() { p.reset() })
		}
		return
	}
	if r.Proc != nil || r.OnData == nil {
		r.rbuf = append(r.rbuf, b...)
		if len(b) > 0 {
			r.Delivered += int64(len(b))
			r.LastArrT = s.Now()
			if r.OnDeliver != nil {
				r.OnDeliver(r.Delivered)
			}
		}
		if fin {
			r.eof = true
		}
		if len(b) > 0 {
			s.Logf("net %s <- %d bytes", r.ID, len(b))
		}
		if fin {
			s.Logf("net %s <- FIN", r.ID)
		}
		return
	}
	if r.Paused {
		r.rbuf = append(r.rbuf, b...)
		if fin {
			r.eof = true
		}
		return
	}
	r.inflight -= len(b)
	if len(b) > 0 {
		r.OnData(b)
	}
	if fin {
		r.eof = true
		if r.OnEOF != nil {
			r.OnEOF()
		}
	}
}

// Resume makes a paused peer read again.
func (e *End) Resume() {
	if !e.Paused {
		return
	}
	e.Paused = false
	b := e.rbuf
	e.rbuf = nil
	e.inflight -= len(b)
	if len(b) > 0 && e.OnData != nil {
		e.OnData(b)
	}
	if e.eof && e.OnEOF != nil {
		e.OnEOF()
	}
}

// SetWindow limits what the other side may have outstanding towards this end.
func (e *End) SetWindow(n int) { e.window = n }

// CloseWrite half-closes the peer's direction.
func (e *End) CloseWrite() {
	if e.closed || e.wclosed {
		return
	}
	e.wclosed = true
	if e.frozen {
		e.held = append(e.held, heldSeg{fin: true})
		return
	}
	e.transmit(nil, true)
}

// Close closes a simulated peer's end fully: later data from the other side is
// answered with a reset.
func (e *End) Close() {
	if e.closed {
		return
	}
	if !e.wclosed {
		e.CloseWrite()
	}
	e.closed = true
}

// Abort resets the connection from the peer's side.
func (e *End) Abort() {
	if e.closed {
		return
	}
	e.closed = true
	s := e.s
	p := e.peer
	at := s.Now() + s.lat(e)
	if at < e.lastArr {
		at = e.lastArr
	}
	e.lastArr = at
	s.After(at-s.Now(), "abort "+e.ID, func() { p.reset() })
}

func (e *End) reset() {
	if e.rst != nil || e.closed {
		return
	}
	e.rst = os.NewSyscallError("read", syscall.ECONNRESET)
	e.s.Logf("net %s <- RST", e.ID)
	if e.Proc == nil {
		if e.OnReset != nil {
			e.OnReset()
		}
		return
	}
	e.RstSeen = e.s.Now()
	if e.s.Choose(2) == 1 {
		e.rbuf = nil
	}
}

func (e *End) procDied() {
	if e.closed {
		return
	}
	e.closed = true
	p := e.peer
	s := e.s
	if len(e.rbuf) > 0 || e.inflight > 0 || s.Choose(2) == 1 {
		s.After(s.lat(e), "rst "+e.ID, func() { p.reset() })
	} else {
		e.wclosed = true
		e.transmit(nil, true)
	}
}

// ---- net.SimFD for the system under test

type fd struct{ e *End }

func (f fd) dead() bool {
	s := f.e.s
	return s.over || s.Dying()
}

func (f fd) Read(p []byte) (n int, err error) {
	e := f.e
	s := e.s
	if s.over {
		select {}
	}
	if s.Dying() {
		return 0, net.ErrClosed
	}
	if len(p) == 0 {
		return 0, nil
	}
	err = net.ErrClosed
	s.Op("read", e.ID, func() bool {
		return len(e.rbuf) > 0 || e.eof || e.rst != nil || e.closed || e.rclosed
	}, func() time.Duration { return e.rdl }, func() {
		now := s.Now()
		switch {
		case e.closed:
			n, err = 0, net.ErrClosed
		case e.rdl >= 0 && now >= e.rdl && !(len(e.rbuf) > 0 && e.LastArrT < e.rdl && e.rdlSet < e.rdl):
			n, err = 0, os.ErrDeadlineExceeded
			s.Logf("read %s timeout", e.ID)
		case e.rclosed:
			n, err = 0, io.EOF
		case len(e.rbuf) > 0:
			m := len(e.rbuf)
			if m > len(p) {
				m = len(p)
			}
			if m > 1 {
				switch s.Net.ReadMode {
				case 1:
					if k := s.Choose(3); k == 1 {
						m = 1 + s.Choose(m)
					} else if k == 2 {
						m = 1 + s.Choose(min(m, 4))
					}
				case 2:
					if k := s.Choose(8); k > 0 {
						m = min(m, k%3+1)
					}
				}
			}
			if m < len(e.rbuf) && m < len(p) {
				s.Frags++
			}
			copy(p, e.rbuf[:m])
			e.rbuf = e.rbuf[m:]
			e.inflight -= m
			e.Read += int64(m)
			e.LastRead = now
			n, err = m, nil
			if e.OnRead != nil {
				e.OnRead(e.Read)
			}
			s.Logf("read %s %d", e.ID, m)
		case e.eof:
			n, err = 0, io.EOF
			if e.EOFRead < 0 {
				e.EOFRead = now
			}
			s.Logf("read %s EOF", e.ID)
		default:
			n, err = 0, e.rst
			if e.rstTaken {
				err = io.EOF
			}
			e.rstTaken = true
			s.Logf("read %s RST", e.ID)
		}
	})
	return n, err
}

func (f fd) Write(p []byte) (n int, err error) {
	e := f.e
	s := e.s
	if s.over {
		select {}
	}
	if s.Dying() {
		return 0, net.ErrClosed
	}
	for first := true; first || n < len(p); first = false {
		fin := false
		err = net.ErrClosed
		s.Op("write", e.ID, func() bool {
			return e.closed || e.wclosed || e.rst != nil || e.peer.inflight < e.peer.window
		}, func() time.Duration { return e.wdl }, func() {
			now := s.Now()
			switch {
			case e.closed:
				err, fin = net.ErrClosed, true
			case e.wclosed:
				err, fin = os.NewSyscallError("write", syscall.EPIPE), true
			case e.rst != nil:
				// the first call to notice learns of the reset, later ones of the broken
				// pipe; after an end of stream it is a broken pipe from the start
				err, fin = os.NewSyscallError("write", syscall.ECONNRESET), true
				if e.rstTaken || e.eof {
					err = os.NewSyscallError("write", syscall.EPIPE)
				}
				e.rstTaken = true
				s.Logf("write %s RST", e.ID)
			case e.wdl >= 0 && now >= e.wdl:
				err, fin = os.ErrDeadlineExceeded, true
				s.Logf("write %s timeout", e.ID)
			default:
				err = nil
				m := e.peer.window - e.peer.inflight
				if m > len(p)-n {
					m = len(p) - n
				}
				b := append([]byte(nil), p[n:n+m]...)
				n += m
				s.opSeq++
				e.Wrote = append(e.Wrote, WriteRec{At: now, Seq: int64(s.opSeq), N: m})
				s.Logf("write %s %d %x", e.ID, m, HashString(string(b)))
				if e.OnWrite != nil {
					e.OnWrite(b)
				}
				if m > 0 {
					e.transmit(b, false)
				}
			}
		})
		if fin || err != nil {
			return n, err
		}
	}
	return n, nil
}

func (f fd) Close() (err error) {
	e := f.e
	s := e.s
	if s.over || s.Dying() {
		return nil
	}
	s.Op("close", e.ID, nil, nil, func() {
		if e.closed {
			err = net.ErrClosed
			return
		}
		e.closed = true
		e.ClosedAt = s.Now()
		s.Logf("close %s", e.ID)
		if e.OnClose != nil {
			e.OnClose()
		}
		p := e.peer
		if e.rst != nil {
			return
		}
		if len(e.rbuf) > 0 {
			at := s.Now() + s.lat(e)
			if at < e.lastArr {
				at = e.lastArr
			}
			e.lastArr = at
			s.After(at-s.Now(), "rst "+e.ID, func() { p.reset() })
		} else if !e.wclosed {
			e.wclosed = true
			e.transmit(nil, true)
		}
	})
	return err
}

func (f fd) CloseRead() error {
	if f.dead() {
		return nil
	}
	f.e.s.Op("closeread", f.e.ID, nil, nil, func() { f.e.rclosed = true })
	return nil
}

func (f fd) CloseWrite() error {
	e := f.e
	if f.dead() {
		return nil
	}
	e.s.Op("closewrite", e.ID, nil, nil, func() {
		if e.closed || e.wclosed {
			return
		}
		e.wclosed = true
		if e.rst == nil {
			e.transmit(nil, true)
		}
	})
	return nil
}

func (s *Sim) instant(t time.Time) time.Duration {
	if t.IsZero() {
		return -1
	}
	now := time.Now()
	var d time.Duration
	if simrt.HasMonotonic(t) {
		d = time.Until(t)
	} else if x := t.Sub(now); x > -5*365*24*time.Hour && x < 5*365*24*time.Hour {
		d = x
	} else {
		d = t.Sub(simrt.Now().Round(0))
	}
	r := s.Now() + d
	if r < 0 {
		r = 0
	}
	return r
}

func (f fd) SetReadDeadline(t time.Time) error {
	if f.dead() {
		return nil
	}
	if f.e.closed {
		return net.ErrClosed
	}
	f.e.rdl = f.e.s.instant(t)
	f.e.rdlSet = f.e.s.Now()
	f.e.s.Poke()
	return nil
}

func (f fd) SetWriteDeadline(t time.Time) error {
	if f.dead() {
		return nil
	}
	if f.e.closed {
		return net.ErrClosed
	}
	f.e.wdl = f.e.s.instant(t)
	f.e.s.Poke()
	return nil
}

func (f fd) Accept() (net.SimFD, net.Addr, net.Addr, error) {
	return nil, nil, nil, syscall.EINVAL
}

// ---- listeners

type lfd struct {
	fd
	l *Listener
}

func (f lfd) Accept() (c net.SimFD, la, ra net.Addr, err error) {
	l := f.l
	s := l.s
	if s.over {
		select {}
	}
	if s.Dying() {
		return nil, nil, nil, net.ErrClosed
	}
	err = net.ErrClosed
	var inj error
	l.nacc++
	if l.AcceptErr != nil {
		inj = l.AcceptErr(l.nacc)
	}
	s.Op("accept", l.Addr, func() bool { return l.closed || len(l.backlog) > 0 || inj != nil }, func() time.Duration { return f.e.rdl }, func() {
		switch {
		case l.closed:
			err = net.ErrClosed
		case inj != nil:
			err = os.NewSyscallError("accept", inj)
			s.Logf("accept error %v", inj)
		case len(l.backlog) > 0:
			e := l.backlog[0]
			l.backlog = l.backlog[1:]
			l.Accepts++
			e.Accepted = s.Now()
			if p := e.Proc; p != nil && !p.served {
				p.served, p.Base = true, p.Live
			}
			c, la, ra, err = fd{e}, e.laddr, e.raddr, nil
			s.Logf("accept %s", e.ID)
		default:
			err = os.ErrDeadlineExceeded
		}
	})
	return
}

func (f lfd) Close() (err error) {
	l := f.l
	if l.s.over || l.s.Dying() {
		return nil
	}
	l.s.Op("close", l.Addr, nil, nil, func() {
		if l.closed {
			err = net.ErrClosed
			return
		}
		l.closeNow()
		l.s.Logf("listener %s closed", l.Addr)
	})
	return err
}

func (f lfd) SetReadDeadline(t time.Time) error {
	if f.dead() {
		return nil
	}
	f.e.rdl = f.l.s.instant(t)
	f.l.s.Poke()
	return nil
}

func (l *Listener) closeNow() {
	if l.closed {
		return
	}
	l.closed = true
	l.ClosedAt = l.s.Now()
	for _, e := range l.backlog {
		e.closed = true
		p := e.peer
		l.s.After(l.s.lat(e), "rst "+e.ID, func() { p.reset() })
	}
	l.backlog = nil
	if l.OnClose != nil {
		l.OnClose()
	}
}

// Backlog is the number of connections not yet accepted.
func (l *Listener) Backlog() int { return len(l.backlog) }

func (s *Sim) listenHook(network, address string) (net.SimFD, net.Addr, error) {
	if s.over {
		select {}
	}
	t := s.me()
	host, port, err := net.SplitHostPort(address)
	if err != nil {
		return nil, nil, err
	}
	_ = host
	if n, e := strconv.Atoi(port); e != nil || n < 0 || n > 65535 {
		return nil, nil, &net.AddrError{Err: "invalid port", Addr: port}
	}
	addr := ":" + port
	if l := s.ListenerAt(addr); l != nil || s.Busy[addr] {
		s.Logf("listen %s: address in use", address)
		return nil, nil, os.NewSyscallError("bind", syscall.EADDRINUSE)
	}
	l := &Listener{s: s, Addr: addr, Bind: canon(address), Proc: t.Proc, addr: mustAddr(canon(address)), ClosedAt: -1}
	s.listen[addr] = l
	t.Proc.lsn = append(t.Proc.lsn, l)
	s.Logf("listen %s by %s#%d", address, t.Proc.Name, t.Proc.ID)
	if s.OnListen != nil {
		s.OnListen(l)
	}
	return lfd{fd{s.newEnd("lsn" + addr)}, l}, l.addr, nil
}

// Canon is the canonical form of a host and port.
func Canon(a string) string { return canon(a) }

func canon(a string) string {
	h, p, err := net.SplitHostPort(a)
	if err != nil {
		return a
	}
	if net.ParseIP(h) == nil {
		if h == "" {
			h = "0.0.0.0"
		} else {
			h = lookup(h)
		}
	}
	return net.JoinHostPort(h, p)
}

// lookup is the name service: every name but localhost is a machine of its own.
func lookup(h string) string {
	h = strings.ToLower(strings.TrimSuffix(h, "."))
	if h == "localhost" {
		return "127.0.0.1"
	}
	f := fnv.New32a()
	f.Write([]byte(h))
	n := f.Sum32()
	return fmt.Sprintf("10.%d.%d.%d", 100+n>>16&0x3f, n>>8&0xff, 1+n&0x7f)
}

func mustAddr(a string) *net.TCPAddr {
	h, p, err := net.SplitHostPort(a)
	if err != nil {
		return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1)}
	}
	n, _ := strconv.Atoi(p)
	return &net.TCPAddr{IP: net.ParseIP(h), Port: n}
}

func (s *Sim) resolve(network, address string) (*net.TCPAddr, error) {
	h, p, err := net.SplitHostPort(address)
	if err != nil {
		return nil, err
	}
	n, err := strconv.Atoi(p)
	if err != nil || n < 0 || n > 65535 {
		return nil, &net.AddrError{Err: "invalid port", Addr: p}
	}
	_ = h
	return mustAddr(canon(address)), nil
}

// reaches: a listener bound to bind gets connections to addr.
func reaches(bind, addr string) bool {
	h, _, err := net.SplitHostPort(bind)
	if err != nil || net.ParseIP(h).IsUnspecified() {
		return true
	}
	t, _, err := net.SplitHostPort(local(canon(addr)))
	return err == nil && net.ParseIP(t).Equal(net.ParseIP(h))
}

// svcAddr maps an address to the key services are registered under.
func svcAddr(a string) string {
	if _, p, err := net.SplitHostPort(a); err == nil {
		return ":" + p
	}
	return a
}

func (s *Sim) dial(ctx context.Context, network, address string) (f net.SimFD, la, ra net.Addr, err error) {
	if s.over {
		select {}
	}
	if s.Dying() {
		return nil, nil, nil, net.ErrClosed
	}
	ra = mustAddr(local(canon(address)))
	la = mustAddr("127.0.0.1:40000")
	if strings.HasPrefix(network, "unix") {
		return nil, nil, ra, syscall.ENOENT
	}
	proc := s.me().Proc
	key := svcAddr(address)
	at := s.Now() + 50*time.Microsecond
	stop := context.AfterFunc(ctx, s.Poke)
	defer stop()
	var sut *End
	hole := func() bool {
		sv := s.service(address)
		return sv != nil && sv.Blackhole != nil && sv.Blackhole()
	}
	// without an answer the kernel tries again and gives up after two minutes
	syn := []time.Duration{0, 1, 3, 7, 15, 31, 63, 127}
	for i := range syn {
		syn[i] = at + syn[i]*time.Second
	}
	dl := time.Duration(-1)
	if t, ok := ctx.Deadline(); ok {
		dl = s.instant(t)
	}
	err = net.ErrClosed
	s.Op("dial", key, func() bool {
		for len(syn) > 1 && s.Now() >= syn[0] && hole() {
			syn = syn[1:]
		}
		return ctx.Err() != nil || s.Now() >= syn[0]
	}, func() time.Duration {
		if dl >= 0 && dl < syn[0] {
			return dl
		}
		return syn[0]
	}, func() {
		if ctx.Err() != nil || (dl >= 0 && s.Now() >= dl) {
			err = os.ErrDeadlineExceeded
			return
		}
		if hole() {
			err = os.NewSyscallError("connect", syscall.ETIMEDOUT)
			s.Logf("dial %s timed out", key)
			return
		}
		if l := s.ListenerAt(key); l != nil && !l.Proc.Dead && reaches(l.Bind, address) {
			a, b := s.pipe("dial" + key)
			a.Proc, b.Proc = proc, l.Proc
			a.window, b.window = 1<<20, 1<<20
			a.laddr, a.raddr = la, ra
			b.laddr, b.raddr = l.addr, la
			proc.ends = append(proc.ends, a)
			l.Proc.ends = append(l.Proc.ends, b)
			l.backlog = append(l.backlog, b)
			sut, err = a, nil
			return
		}
		sv := s.service(address)
		if sv == nil {
			err = os.NewSyscallError("connect", syscall.ECONNREFUSED)
			return
		}
		if sv.Refuse != nil {
			if e := sv.Refuse(); e != nil {
				err = os.NewSyscallError("connect", e)
				s.Logf("dial %s refused", key)
				return
			}
		}
		a, b := s.pipe("dial" + key)
		a.Proc = proc
		a.laddr, a.raddr = la, ra
		proc.ends = append(proc.ends, a)
		s.Logf("dial %s -> %s", key, a.ID)
		sv.Accept(b)
		sut, err = a, nil
	})
	if err != nil {
		return nil, la, ra, err
	}
	return fd{sut}, la, ra, nil
}

// State describes an end for oracles.
func (e *End) IsClosed() bool { return e.closed }
func (e *End) IsReset() bool  { return e.rst != nil }
func (e *End) Unread() int    { return len(e.rbuf) }
func (e *End) GotFin() bool   { return e.eof }
