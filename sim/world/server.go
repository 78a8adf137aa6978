package world

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"reflect"
	"syscall"
	"time"

	"egtsverif/des"
	"egtsverif/ref"
	"egtsverif/simrt"

	"github.com/kuznetsovin/egts-protocol/cli/receiver/server"
	"github.com/kuznetsovin/egts-protocol/cli/receiver/storage"
	log "github.com/sirupsen/logrus"
)

const addr = "127.0.0.1:6000"

// mark is a point of a byte stream: the first N bytes were there at At.
type mark struct {
	N  int64
	At time.Duration
}

// FrameObs is one packet the receiver wrote.
type FrameObs struct {
	F   ref.Frame
	Seq int64
	At  time.Duration
}

// SentItem is an item put on a connection.
type SentItem struct {
	Idx      int
	From, To int64 // byte offsets in the connection's stream
	At       time.Duration
}

// Conn is the history of one connection.
type Conn struct {
	Term    int
	Seq     int // order of this connection among the terminal's
	Inc     int
	peer    *des.End
	E       *des.End
	Sent    []SentItem
	sentN   int64
	arr     []mark
	rd      []mark
	out     []byte
	Frames  []FrameObs
	BadOut  string
	gotBuf  []byte
	got     []ref.Frame
	answers int
	Opened  time.Duration
	PeerEOF time.Duration // terminal saw the server's FIN, or -1
	PeerRst time.Duration
	LocalCl time.Duration // terminal ended the connection, or -1
	wrN     int64
	wrote   []byte
	Acked   map[int]bool
	unread  bool // the terminal stopped reading for a while
}

// SaveObs is one attempt to store a record.
type SaveObs struct {
	Store    int
	BeginSeq int64
	EndSeq   int64
	Begin    time.Duration
	End      time.Duration
	Done     bool
	OK       bool
	Inj      bool
	Inc      int
	Raw      []byte
	N        ref.Nav
	BadJSON  string
	Ambig    bool
}

// W is a running server world.
type W struct {
	P     *Plan
	S     *des.Sim
	seq   int64
	Conns []*Conn
	Saves []*SaveObs
	Viol  []Violation
	inc   int
	proc  *des.Proc
	procs []*des.Proc
	srv   runner

	runEnded   time.Duration
	stopAt     time.Duration
	stopDone   time.Duration
	walls      []mark2
	crashDone  []bool
	nSave      int
	nSaved     int
	nWrite     int
	nRead      int64
	lastFault  time.Duration
	terms      []*term
	endAt      time.Duration
	probes     map[string]int64
	acceptInj  int
	afterStop  []*Conn
	refused    int
	faultTimes map[string]int
	extra      func()
	backends   interface{}
	tick       []func()
	LogOut     *logSink
	liveEnd    int
	quiet      bool
	lkey       string // where the receiver listens
	serving    bool
	start      func()            // starts the program
	broken     []int             // per store, connections broken by outages
	disturbed  []map[uint32]bool // per store, the records under way during an outage
}

type mark2 struct {
	At  time.Duration
	Off time.Duration
}

func (w *W) violate(prop, class, f string, a ...interface{}) {
	for _, v := range w.Viol {
		if v.Prop == prop && v.Class == class {
			return
		}
	}
	w.Viol = append(w.Viol, Violation{Prop: prop, Class: class, Msg: fmt.Sprintf(f, a...)})
}

func (w *W) known(prop, id, f string, a ...interface{}) {
	for _, v := range w.Viol {
		if v.Known == id {
			return
		}
	}
	w.Viol = append(w.Viol, Violation{Prop: prop, Class: "known", Msg: fmt.Sprintf(f, a...), Known: id})
}

func (w *W) parse(o *SaveObs) {
	if err := json.Unmarshal(o.Raw, &o.N); err != nil {
		o.BadJSON = err.Error()
	}
}

func (w *W) probe(k string) { w.probes[k]++ }

// next returns the next history sequence number.
func (w *W) next() int64 { w.seq++; return w.seq }

// ---- storage stub

var errInjected = errors.New("simulated storage failure")

type slowErr struct{}

func (slowErr) Error() string   { return "simulated storage timeout" }
func (slowErr) Timeout() bool   { return true }
func (slowErr) Temporary() bool { return true }

// what a failing storage returns
var storeErrs = []error{
	errInjected, io.EOF, io.ErrUnexpectedEOF, net.ErrClosed, context.DeadlineExceeded, context.Canceled, slowErr{},
	&net.OpError{Op: "write", Net: "tcp", Err: syscall.EPIPE}, &net.OpError{Op: "dial", Net: "tcp", Err: syscall.ECONNREFUSED},
	&net.OpError{Op: "read", Net: "tcp", Err: slowErr{}}, syscall.ENOSPC, driver.ErrBadConn, sql.ErrNoRows, sql.ErrConnDone, errors.New(""),
	fmt.Errorf("not stored: %w", io.EOF), errors.New("duplicate key value violates unique constraint"),
}

type stub struct {
	w   *W
	idx int
	cfg *StorePlan
}

func (st *stub) Save(m interface{ ToBytes() ([]byte, error) }) error {
	w := st.w
	s := w.S
	if s.Dying() {
		return errInjected
	}
	o := &SaveObs{Store: st.idx, Inc: s.ProcOf().ID}
	s.Op("save", fmt.Sprintf("store%d", st.idx), nil, nil, func() {
		o.BeginSeq = w.next()
		o.Begin = s.Now()
		w.Saves = append(w.Saves, o)
		w.nSave++
	})
	ser := func() {
		b, err := m.ToBytes()
		if err != nil {
			o.BadJSON = err.Error()
		}
		o.Raw = append([]byte(nil), b...)
		if o.BadJSON == "" {
			w.parse(o)
		}
	}
	if !st.cfg.Late {
		ser()
	}
	var until time.Duration
	first := true
	var res error
	// a stall or failure is tied to the record, so that the fault schedule does
	// not depend on the order of saves
	nav := func() uint32 {
		if o.Raw == nil {
			// serialised late: peek without touching the observation
			var n ref.Nav
			if b, err := m.ToBytes(); err == nil {
				_ = json.Unmarshal(b, &n)
			}
			return uint32(n.Nav - ref.Epoch)
		}
		return uint32(o.N.Nav - ref.Epoch)
	}()
	var f *SaveFault
	for i := range st.cfg.Faults {
		if st.cfg.Faults[i].Nav == nav {
			f = &st.cfg.Faults[i]
		}
	}
	if f != nil && f.Times > 0 {
		k := fmt.Sprintf("%d/%d", st.idx, nav)
		w.faultTimes[k]++
		if w.faultTimes[k] > f.Times {
			f = nil
		}
	}
	s.Op("save-io", fmt.Sprintf("store%d", st.idx), func() bool {
		if first {
			first = false
			d := s.Dur(us(st.cfg.DelayMinUs), us(st.cfg.DelayMaxUs))
			if f != nil && f.StallMs > 0 {
				d += ms(f.StallMs)
				s.Count("fault.store_stall")
			}
			until = s.Now() + d
		}
		return s.Now() >= until
	}, func() time.Duration { return until }, func() {
		if st.cfg.Late {
			ser()
		}
		o.Done = true
		o.End = s.Now()
		o.EndSeq = w.next()
		if f != nil && f.Err {
			o.Inj = true
			res = storeErrs[f.Kind%len(storeErrs)]
			s.Count("fault.store_error")
		} else {
			o.OK = true
			w.nSaved++
		}
		s.Logf("save store%d nav=%d client=%d ok=%v", st.idx, o.N.Nav, o.N.Client, o.OK)
	})
	if !o.Done {
		return errInjected
	}
	return res
}

// ---- terminals

type term struct {
	w      *W
	i      int
	p      *TermPlan
	c      *Conn
	next   int // next item to send
	base   int // first item of the current connection
	done   bool
	nconn  int
	paused bool
	gen    int
	acked  map[int]bool
	ended  time.Duration
	polls  int
	wantAt time.Duration
	tries  int
	cls    []string
}

// class is the item's class, computed once.
func (t *term) class(i int) string {
	if t.cls == nil {
		t.cls = make([]string, len(t.p.Items))
	}
	if t.cls[i] == "" {
		t.cls[i] = t.p.Items[i].Class()
	}
	return t.cls[i]
}

func (t *term) start() {
	t.w.S.After(ms(t.p.StartMs), "term start", t.connect)
}

func (t *term) connect() {
	t.gen++
	g := t.gen
	name := fmt.Sprintf("t%d", t.i)
	t.w.S.Connect(name, t.w.lkey, t.addr(), func(e *des.End) {
		if g != t.gen {
			return
		}
		if e == nil {
			t.w.refused++
			if t.p.Retry && t.tries < 20 {
				t.tries++
				t.w.S.After(ms(500), "retry", t.connect)
				return
			}
			t.done = true
			return
		}
		t.attach(e)
	})
}

func (t *term) attach(e *des.End) {
	w := t.w
	s := w.S
	t.nconn++
	c := &Conn{Term: t.i, Seq: t.nconn, Inc: e.Sut().Proc.ID, peer: e, E: e.Sut(), Opened: s.Now(), PeerEOF: -1, PeerRst: -1, LocalCl: -1, Acked: map[int]bool{}}
	w.Conns = append(w.Conns, c)
	if w.stopDone > 0 {
		w.afterStop = append(w.afterStop, c)
	}
	t.c = c
	t.base = t.next
	if t.p.Window > 0 {
		e.SetWindow(t.p.Window)
	}
	g := t.gen
	c.E.OnWrite = func(b []byte) { w.onWrite(c, b) }
	c.E.OnDeliver = func(n int64) { c.arr = append(c.arr, mark{n, s.Now()}) }
	c.E.OnRead = func(n int64) { c.rd = append(c.rd, mark{n, s.Now()}); w.nRead++ }
	e.OnData = func(b []byte) {
		c.gotBuf = append(c.gotBuf, b...)
		for {
			f, n, fatal := ref.NextFrame(c.gotBuf)
			if n == 0 {
				break
			}
			c.gotBuf = c.gotBuf[n:]
			c.got = append(c.got, f)
			if f.PT == 0 && f.Bad == "" {
				c.answers++
				t.confirm(f)
			}
			if fatal {
				c.gotBuf = nil
				break
			}
		}
	}
	e.OnEOF = func() { c.PeerEOF = s.Now(); t.lost(g) }
	e.OnReset = func() { c.PeerRst = s.Now(); t.lost(g) }
	t.wantAt = 0
	t.send(g)
}

// confirm marks items as confirmed, in order.
func (t *term) confirm(f ref.Frame) {
	for _, si := range t.c.Sent {
		if t.c.Acked[si.Idx] {
			continue
		}
		switch t.class(si.Idx) {
		case ClsOK, ClsNeg, ClsCorrupt, ClsAny:
			t.c.Acked[si.Idx] = true
			t.acked[si.Idx] = true
			return
		}
	}
}

func (t *term) lost(g int) {
	if g != t.gen || t.done {
		return
	}
	w := t.w
	if !t.p.Retry || t.tries > 20 {
		t.finish(g)
		return
	}
	t.tries++
	// reconnect; resend from the first item without a confirmation
	first := len(t.p.Items)
	for i := range t.p.Items {
		cls := t.class(i)
		if (cls == ClsOK || cls == ClsAny || cls == ClsNeg || cls == ClsCorrupt) && !t.acked[i] {
			first = i
			break
		}
	}
	t.gen++
	if first == len(t.p.Items) {
		t.done = true
		t.ended = w.S.Now()
		return
	}
	w.S.Count("fault.reconnect_resend")
	t.next = first
	w.S.After(ms(100), "reconnect", t.connect)
}

func (t *term) owed() int {
	n := 0
	for _, si := range t.c.Sent {
		switch t.class(si.Idx) {
		case ClsOK, ClsNeg, ClsCorrupt, ClsAny:
			n++
		case ClsPoison:
			return 0
		}
	}
	return n
}

// poll is how long to wait before looking for an answer again.
func (t *term) poll(n int) time.Duration {
	if t.polls++; t.polls > 100 {
		n = 1000
	}
	return ms(n)
}

func (t *term) send(g int) {
	w := t.w
	s := w.S
	if g != t.gen || t.done {
		return
	}
	if t.next >= len(t.p.Items) {
		t.end(g)
		return
	}
	i := t.next
	it := &t.p.Items[i]
	if it.Wait && t.c.answers < t.owed() && !t.paused {
		if t.wantAt == 0 {
			t.wantAt = s.Now() + 400*time.Second
		}
		if s.Now() < t.wantAt {
			s.After(t.poll(20), "wait", func() { t.send(g) })
			return
		}
	}
	t.wantAt, t.polls = 0, 0
	t.next++
	s.After(ms(it.DelayMs), "item", func() {
		if g != t.gen || t.done {
			return
		}
		t.emit(g, i)
	})
}

func (t *term) emit(g, i int) {
	w := t.w
	s := w.S
	it := &t.p.Items[i]
	c := t.c
	b := it.Bytes()
	switch t.class(i) {
	case ClsCorrupt:
		s.Count("fault.corruption")
	case ClsPoison:
		s.Count("fault.framing_destroyed")
	case ClsPart:
		s.Count("fault.truncated")
	case ClsNeg:
		s.Count("fault.malformed")
	}
	c.Sent = append(c.Sent, SentItem{Idx: i, From: c.sentN, To: c.sentN + int64(len(b)), At: s.Now()})
	c.sentN += int64(len(b))
	s.Logf("term %d conn %d sends item %d (%d bytes, %s)", t.i, c.Seq, i, len(b), t.class(i))
	if t.p.FreezeAt == i+1 && t.p.FreezeMs > 0 {
		s.Count("fault.partition")
		c.peer.Freeze()
		s.After(ms(t.p.FreezeMs), "thaw", func() { c.peer.Thaw() })
	}
	if t.p.PauseAt == i+1 {
		t.paused = true
		c.unread = true
		c.peer.Paused = true
		s.Count("fault.slow_reader")
		s.After(ms(t.p.PauseMs), "resume", func() {
			t.paused = false
			c.peer.Resume()
		})
	}
	pos := 0
	var step func(k int)
	step = func(k int) {
		if g != t.gen || t.done {
			return
		}
		for ; k < len(it.Cuts); k++ {
			o := it.Cuts[k].Off
			if o <= pos || o >= len(b) {
				continue
			}
			c.peer.Send(b[pos:o])
			pos = o
			s.Count("fault.fragmentation")
			kk := k
			if it.Cuts[kk].PauseMs > 0 {
				s.Count("fault.stall_in_packet")
			}
			s.After(ms(it.Cuts[kk].PauseMs), "cut", func() { step(kk + 1) })
			return
		}
		c.peer.Send(b[pos:])
		t.send(g)
	}
	step(0)
}

func (t *term) end(g int) {
	w := t.w
	s := w.S
	if t.p.End == "keep" {
		// stays connected; done once everything owed is answered, for Retry
		if t.c.answers >= t.owed() || !t.p.Retry {
			t.ended = s.Now()
			return
		}
		s.After(t.poll(50), "end-wait", func() {
			if g == t.gen {
				t.end(g)
			}
		})
		return
	}
	if t.p.Retry && t.c.answers < t.owed() {
		if t.wantAt == 0 {
			t.wantAt = s.Now() + 400*time.Second
		}
		if s.Now() < t.wantAt {
			s.After(t.poll(50), "end-wait", func() {
				if g == t.gen {
					t.end(g)
				}
			})
			return
		}
	}
	s.After(ms(t.p.EndMs), "end", func() {
		if g != t.gen || t.done {
			return
		}
		t.finish(g)
	})
}

func (t *term) finish(g int) {
	c := t.c
	s := t.w.S
	t.done = true
	t.ended = s.Now()
	if c.LocalCl >= 0 || c.PeerRst >= 0 {
		return
	}
	c.LocalCl = s.Now()
	switch {
	case c.PeerEOF >= 0:
		c.peer.Close()
	case t.p.End == "fin":
		c.peer.CloseWrite()
		s.Count("fault.half_close")
	case t.p.End == "close":
		c.peer.Close()
		s.Count("fault.close")
	case t.p.End == "abort":
		c.peer.Abort()
		s.Count("fault.reset")
	}
	s.Logf("term %d conn %d ends: %s", t.i, c.Seq, t.p.End)
}

func (w *W) onWrite(c *Conn, b []byte) {
	w.nWrite++
	seq := w.next()
	c.out = append(c.out, b...)
	c.wrote = append(c.wrote, b...)
	for c.BadOut == "" {
		f, n, fatal := ref.NextFrame(c.out)
		if n == 0 {
			return
		}
		c.out = c.out[n:]
		if fatal {
			c.BadOut = f.Bad
			c.out = nil
			return
		}
		c.Frames = append(c.Frames, FrameObs{F: f, Seq: seq, At: w.S.Now()})
	}
}

// ---- log capture

type logSink struct {
	keep  bool
	lines []logLine
	w     *W
}

type logLine struct {
	seq  int64
	at   time.Duration
	text string
	pkt  string
}

func (l *logSink) Levels() []log.Level { return log.AllLevels }
func (l *logSink) Fire(e *log.Entry) error {
	if l.keep {
		x := logLine{text: e.Message, at: l.w.S.Now(), seq: l.w.next()}
		if p, ok := e.Data["packet"].(string); ok {
			x.pkt = p
		}
		l.lines = append(l.lines, x)
	}
	return nil
}

func setupLog(w *W, debug, keep bool) {
	l := log.StandardLogger()
	l.Out = io.Discard
	l.ExitFunc = func(c int) { simrt.Exit(c) }
	l.Hooks = log.LevelHooks{}
	l.Formatter = &log.TextFormatter{DisableColors: true}
	l.SetLevel(log.ErrorLevel)
	if debug {
		l.SetLevel(log.DebugLevel)
	}
	w.LogOut = &logSink{w: w, keep: keep}
	if keep {
		l.AddHook(w.LogOut)
	}
}

// ---- the world

func newSim(p *Plan, choices []int, keepLog bool) *des.Sim {
	s := des.New(p.Seed^0x5eed, choices)
	s.Sched = p.Sched
	s.KeepLog = keepLog
	s.Net = des.NetCfg{LatMin: us(p.LatMinUs), LatMax: us(p.LatMaxUs), ReadMode: p.ReadMode}
	yrs := p.ClockYears
	if yrs < 20 {
		yrs = 24
	}
	s.ClockOff = time.Duration(yrs) * 365 * 24 * time.Hour
	simrt.Seed(true, p.Seed*0x9e3779b97f4a7c15+1)
	return s
}

// planEnd estimates when the plan's own actions are over.
func (p *Plan) planEnd() int {
	end := 0
	for i := range p.Terms {
		t := &p.Terms[i]
		x := t.StartMs + t.EndMs + t.PauseMs + t.FreezeMs
		for j := range t.Items {
			x += t.Items[j].DelayMs
			for _, c := range t.Items[j].Cuts {
				x += c.PauseMs
			}
		}
		if x > end {
			end = x
		}
	}
	sent := map[uint32]int{} // how often a record may have to be stored
	for i := range p.Terms {
		for j := range p.Terms[i].Items {
			if pk := p.Terms[i].Items[j].P; pk != nil {
				for k := range pk.Recs {
					for l := range pk.Recs[k].Subs {
						if ps := pk.Recs[k].Subs[l].Pos; ps != nil {
							sent[ps.Nav] += 1 + len(p.Crashes)
						}
					}
				}
			}
		}
	}
	for _, st := range p.Stores {
		for _, f := range st.Faults {
			end += f.StallMs * max(1, sent[f.Nav])
		}
	}
	for _, c := range p.Crashes {
		if c.On == "ms" && c.N > end {
			end = c.N
		}
		end += c.RestartMs + 1000
	}
	if p.StopMs > end {
		end = p.StopMs
	}
	return end
}

// RunServer runs a plan of kind "server".
func RunServer(p *Plan, choices []int, keepLog bool) *Result {
	s := newSim(p, choices, keepLog)
	w := &W{P: p, S: s, runEnded: -1, stopAt: -1, probes: map[string]int64{}, faultTimes: map[string]int{}}
	w.lkey = ":6000"
	setupLog(w, p.Debug, false)
	w.crashDone = make([]bool, len(p.Crashes))
	horizon := ms(p.planEnd() + p.TailMs)
	w.walls = []mark2{{0, s.ClockOff}}
	for i := range p.Terms {
		s.MaxSteps += int64(3000 * len(p.Terms[i].Items))
	}
	infra := s.Run(horizon, func() {
		s.OnListen = w.onListen
		w.start = w.startServer
		w.start()
		for i := range p.Terms {
			t := &term{w: w, i: i, p: &p.Terms[i], acked: map[int]bool{}}
			w.terms = append(w.terms, t)
			t.start()
		}
		for _, j := range p.Jumps {
			j := j
			s.After(ms(j.AtMs), "clock", func() {
				s.ClockOff += ms(j.DeltaMs)
				w.walls = append(w.walls, mark2{s.Now(), s.ClockOff})
				s.Count("fault.clock_step")
				s.Logf("clock step %dms", j.DeltaMs)
			})
		}
		if p.StopMs > 0 {
			tries := 0
			var stop func()
			stop = func() {
				// Stop is for a server that serves
				if (w.proc.Dead || s.ListenerAt(w.lkey) == nil) && tries < 100 {
					tries++
					s.After(ms(100), "stop", stop)
					return
				}
				w.stopAt = s.Now()
				s.Count("fault.stop")
				srv := w.srv
				s.Spawn(w.proc, "stop", func() {
					_ = srv.Stop()
					w.stopDone = s.Now() + 1
				})
			}
			s.After(ms(p.StopMs), "stop", stop)
		}
	}, w.onStep)
	return w.finish(infra)
}

func (w *W) onListen(l *des.Listener) {
	for _, a := range w.P.AcceptErrs {
		a := a
		prev := l.AcceptErr
		l.AcceptErr = func(n int) error {
			if n == a.N {
				w.S.Count("fault.accept_error")
				w.acceptInj++
				switch a.Err {
				case "EMFILE":
					return syscall.EMFILE
				case "ENFILE":
					return syscall.ENFILE
				case "ENOBUFS":
					return syscall.ENOBUFS
				}
				return syscall.ECONNABORTED
			}
			if prev != nil {
				return prev(n)
			}
			return nil
		}
	}
}

// addr is the address the terminal connects from.
func (t *term) addr() string {
	port := 20000 + t.nconn
	switch t.w.P.Addrs {
	case 1: // behind one address
		return fmt.Sprintf("10.9.9.9:%d", 1024+(t.i*37+t.nconn*1553)%60000)
	case 2: // always from the same port
		port = 20000
	case 3:
		return fmt.Sprintf("[2001:db8::%x:%x]:%d", t.i/7, t.i%7+1, port)
	}
	return fmt.Sprintf("10.0.%d.%d:%d", t.i/250, t.i%250+1, port)
}

// runner is the receiver's server, whether it is handed out by value or not.
type runner interface {
	Run()
	Stop() error
}

func addressable(v interface{}) runner {
	if r, ok := v.(runner); ok {
		return r
	}
	rv := reflect.New(reflect.TypeOf(v))
	rv.Elem().Set(reflect.ValueOf(v))
	return rv.Interface().(runner)
}

func (w *W) startServer() {
	s := w.S
	p := s.NewProc("recv")
	w.proc = p
	w.procs = append(w.procs, p)
	s.SetMain(p)
	// a fresh process image
	simrt.ResetGlobals()
	repo := storage.NewRepository()
	for i := range w.P.Stores {
		repo.AddStore(&stub{w, i, &w.P.Stores[i]})
	}
	srv := addressable(server.New(addr, ms(w.P.TTLms), repo))
	w.srv = srv
	s.Spawn(p, "run", func() {
		srv.Run()
		w.runEnded = s.Now()
	})
}

func (w *W) onStep() {
	for i := range w.P.Crashes {
		if w.crashDone[i] || w.proc.Dead || w.stopAt >= 0 {
			continue
		}
		c := &w.P.Crashes[i]
		hit := false
		switch c.On {
		case "save":
			hit = w.nSave >= c.N
		case "saved":
			hit = w.nSaved >= c.N
		case "write":
			hit = w.nWrite >= c.N
		case "read":
			hit = w.nRead >= int64(c.N)
		case "ms":
			hit = w.S.Now() >= ms(c.N)
		}
		if !hit {
			continue
		}
		w.crashDone[i] = true
		w.S.Count("fault.crash_restart")
		w.S.Kill(w.proc, 137)
		w.S.After(ms(c.RestartMs), "restart", func() {
			w.start()
		})
	}
	for _, f := range w.tick {
		f()
	}
}

func (w *W) finish(infra string) *Result {
	s := w.S
	w.endAt = s.Now()
	r := &Result{Infra: infra, Hash: s.Hash(), Ilv: s.Interleaving(), Choices: s.Taken, Log: s.Log(), SimTime: s.EndTime, Steps: s.Steps, Yields: s.Yields, Preempts: s.Preempts, Frags: s.Frags, Overrun: s.Overrun, Stats: s.Stats, Probes: w.probes}
	w.endAt = s.EndTime
	if infra == "" {
		w.judge()
		r.Nontrivial = w.nontrivial()
	}
	r.Viol = w.Viol
	r.w = w
	return r
}
