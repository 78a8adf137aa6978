// Package des is the deterministic discrete-event simulator: one testing/synctest
// bubble per run, one scheduler goroutine that decides which parked task runs
// next, when simulated time moves, and how every socket behaves.
package des

import (
	"container/heap"
	"context"
	"fmt"
	"hash/fnv"
	"math/rand"
	"net"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"
	_ "unsafe"

	"egtsverif/simrt"
)

//go:linkname stRun internal/synctest.Run
func stRun(f func())

//go:linkname stWait internal/synctest.Wait
func stWait()

// Sched selects the interleaving strategy of a run.
type Sched struct {
	// Mode 0: switch at I/O only; 1: random preemption; 2: priorities with
	// change points; 3: as 1, and tasks are held back at some statement until
	// another task gets to the same statement.
	Mode  int `json:"mode"`
	Every int `json:"every,omitempty"` // mean statements between preemptions (mode 1)
	// Change is the number of priority change points (mode 2), Span the number
	// of scheduling steps over which they are spread.
	Change int `json:"change,omitempty"`
	Span   int `json:"span,omitempty"`
	// HoldUs is how much simulated time a task may be held back (mode 3).
	HoldUs int `json:"hold_us,omitempty"`
}

// Proc is one incarnation of a simulated operating-system process.
type Proc struct {
	ID     int
	Name   string
	Dead   bool
	buried bool
	Exited bool // called exit or returned from main
	Code   int
	Panic  string
	Stack  string
	Hung   bool
	tasks  int
	Live   int // live goroutines started by the code under test
	Base   int // Live when the first connection was accepted
	served bool
	ends   []*End
	lsn    []*Listener
	OnExit func(code int)
	// LiveAtEnd is Live when the run ended, before teardown.
	LiveAtEnd int
}

// Task is a goroutine of the system under test.
type Task struct {
	id    int
	Name  string
	Proc  *Proc
	goid  uint64
	wake  chan struct{}
	op    *op
	dying bool // its process is gone
	// the map the task is about to touch, while it is held back there
	mapAt    uintptr
	mapWrite bool
	gone     bool // it is unwinding
	prio     int
}

type op struct {
	kind  string
	key   string
	t     *Task
	ready func() bool
	// deadline, if >= 0, is the simulated instant at which the operation becomes
	// ready whatever ready says.
	deadline func() time.Duration
	exec     func()
	seq      uint64
	lazy     bool // held back: released when nothing else can run
	until    time.Duration
}

type event struct {
	at  time.Duration
	seq uint64
	fn  func()
	lbl string
	dl  bool
}

type evHeap []*event

func (h evHeap) Len() int { return len(h) }
func (h evHeap) Less(i, j int) bool {
	if h[i].at != h[j].at {
		return h[i].at < h[j].at
	}
	return h[i].seq < h[j].seq
}
func (h evHeap) Swap(i, j int)       { h[i], h[j] = h[j], h[i] }
func (h *evHeap) Push(x interface{}) { *h = append(*h, x.(*event)) }
func (h *evHeap) Pop() interface{} {
	o := *h
	x := o[len(o)-1]
	*h = o[:len(o)-1]
	return x
}

// Sim is one simulated run.
type Sim struct {
	Sched Sched

	mu     sync.Mutex
	rng    *rand.Rand
	replay []int
	useRep bool
	Taken  []int

	start  time.Time
	q      evHeap
	seq    uint64
	opSeq  uint64
	tasks  map[uint64]*Task
	ntask  int
	order  []*Task
	parked []*op
	wakeCh chan struct{}
	sched  uint64 // goid of the scheduler
	token  uint64 // goid of the task that may run
	cur    *Task
	budget int
	burst  int

	Yields    int64
	Steps     int64
	MaxSteps  int64
	events    int64 // steps of the environment
	MaxYields int64
	Overrun   bool
	Preempts  int64
	Frags     int64

	done    bool
	over    bool
	procs   []*Proc
	curProc *Proc

	pipes    int
	services map[string]*Service
	listen   map[string]*Listener
	Net      NetCfg

	ClockOff time.Duration
	OnListen func(l *Listener)
	Busy     map[string]bool // ports somebody else listens on
	EndTime  time.Duration   // simulated time when the run ended

	log     []string
	hash    uint64
	ilv     uint64
	KeepLog bool

	changeAt map[int64]bool
	lowPrio  int

	seen     map[int]bool // statements executed so far
	sites    []int
	hot      []int // statements inside accesses to what may be shared
	target   int   // the statement tasks are held back at, or -1
	aimAt    int64
	waiting  *op
	holds    int
	fine     int // releases with very small budgets to come
	heldFor  time.Duration
	Meetings int64

	Stats map[string]int64
}

// NetCfg shapes the simulated network.
type NetCfg struct {
	LatMin time.Duration
	LatMax time.Duration
	// ReadMode: 0 = reads return everything available, 1 = random sizes,
	// 2 = mostly one byte.
	ReadMode int
	// Window is the number of bytes a writer may have outstanding; 0: 1 MiB.
	Window int
}

// New makes a run whose choices come from seed, or from replay if not nil.
func New(seed uint64, replay []int) *Sim {
	s := &Sim{
		rng:       rand.New(rand.NewSource(int64(seed))),
		replay:    replay,
		useRep:    replay != nil,
		tasks:     map[uint64]*Task{},
		services:  map[string]*Service{},
		listen:    map[string]*Listener{},
		Stats:     map[string]int64{},
		changeAt:  map[int64]bool{},
		seen:      map[int]bool{},
		target:    -1,
		MaxSteps:  400000,
		MaxYields: 6000000,
	}
	s.hash = 14695981039346656037
	s.ilv = 14695981039346656037
	return s
}

// Choose draws one of n alternatives; 0 is the plainest.
func (s *Sim) Choose(n int) int {
	if n <= 1 {
		return 0
	}
	var v int
	if s.useRep {
		if len(s.Taken) < len(s.replay) {
			v = s.replay[len(s.Taken)]
			if v < 0 {
				v = 0
			}
			v %= n
		}
	} else {
		v = s.rng.Intn(n)
	}
	s.Taken = append(s.Taken, v)
	return v
}

// Chance is true with probability num/den; false is the plain outcome.
func (s *Sim) Chance(num, den int) bool {
	return s.Choose(den) >= den-num
}

// Dur draws a duration in [lo, hi].
func (s *Sim) Dur(lo, hi time.Duration) time.Duration {
	if hi <= lo {
		return lo
	}
	const steps = 1000
	return lo + (hi-lo)*time.Duration(s.Choose(steps+1))/steps
}

// Now is the simulated time since the start of the run.
func (s *Sim) Now() time.Duration { return time.Since(s.start) }

// StartUnix is the bubble clock's reading at the start of the run.
func (s *Sim) StartUnix() int64 { return s.start.Unix() }

// Wall is the wall clock of the process under test.
func (s *Sim) Wall() time.Time { return simrt.Now() }

// Logf appends to the event log; it never draws and never reads a real clock.
func (s *Sim) Logf(f string, a ...interface{}) {
	l := fmt.Sprintf("%011.6f ", s.Now().Seconds()) + fmt.Sprintf(f, a...)
	h := s.hash
	for i := 0; i < len(l); i++ {
		h ^= uint64(l[i])
		h *= 1099511628211
	}
	s.hash = h
	if s.KeepLog {
		s.log = append(s.log, l)
	}
}

// Log returns the kept event log.
func (s *Sim) Log() []string { return s.log }

// Hash identifies the event log, Interleaving the sequence of task switches.
func (s *Sim) Hash() uint64         { return s.hash }
func (s *Sim) Interleaving() uint64 { return s.ilv }

// Count adds to a statistic.
func (s *Sim) Count(k string) { s.Stats[k]++ }

// After schedules fn on the scheduler goroutine.
func (s *Sim) After(d time.Duration, lbl string, fn func()) {
	if d < 0 {
		d = 0
	}
	s.seq++
	heap.Push(&s.q, &event{at: s.Now() + d, seq: s.seq, fn: fn, lbl: lbl})
}

// Finish ends the run after the current step.
func (s *Sim) Finish() { s.done = true }

// Finished reports whether the run is over.
func (s *Sim) Finished() bool { return s.done }

// NewProc makes a process and makes it the owner of goroutines the simulator
// has not seen start.
func (s *Sim) NewProc(name string) *Proc {
	p := &Proc{ID: len(s.procs), Name: name}
	s.procs = append(s.procs, p)
	return p
}

// SetMain makes p the process that goroutines of unknown origin belong to.
func (s *Sim) SetMain(p *Proc) { s.curProc = p }

// ProcOf is the process of the calling goroutine.
func (s *Sim) ProcOf() *Proc { return s.me().Proc }

// Spawn starts body as a task of process p.
func (s *Sim) Spawn(p *Proc, name string, body func()) {
	t := s.newTask(p, name)
	p.Live++
	go func() {
		t.goid = simrt.Goid()
		s.mu.Lock()
		s.tasks[t.goid] = t
		s.mu.Unlock()
		defer s.finishTask(t)
		s.park(t, &op{kind: "start", key: t.Name})
		body()
	}()
}

func (s *Sim) finishTask(t *Task) {
	if e := recover(); e != nil && !t.dying && !s.over && !t.Proc.Dead {
		buf := make([]byte, 16384)
		buf = buf[:runtime.Stack(buf, false)]
		s.mu.Lock()
		if t.Proc.Panic == "" {
			t.Proc.Panic = fmt.Sprint(e)
			t.Proc.Stack = string(buf)
		}
		s.mu.Unlock()
		s.procDown(t.Proc, 2)
	}
	s.mu.Lock()
	t.Proc.Live--
	delete(s.tasks, t.goid)
	for i, x := range s.order {
		if x == t {
			s.order = append(s.order[:i:i], s.order[i+1:]...)
			break
		}
	}
	s.mu.Unlock()
}

// procDown marks the process as terminated; the scheduler tears it down.
func (s *Sim) procDown(p *Proc, code int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if p.Exited {
		return
	}
	p.Exited = true
	p.Code = code
	select {
	case s.wakeCh <- struct{}{}:
	default:
	}
}

func (s *Sim) newTask(p *Proc, name string) *Task {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.ntask++
	p.tasks++
	t := &Task{id: s.ntask, Name: fmt.Sprintf("%s#%d/%d.%s", p.Name, p.ID, p.tasks, name), Proc: p, wake: make(chan struct{}, 1)}
	if s.Sched.Mode == 2 {
		t.prio = s.Choose(1000) + 1000
	}
	s.order = append(s.order, t)
	return t
}

func (s *Sim) me() *Task {
	g := simrt.Goid()
	s.mu.Lock()
	t := s.tasks[g]
	s.mu.Unlock()
	if t != nil {
		return t
	}
	p := s.curProc
	t = s.newTask(p, "lib")
	t.goid = g
	s.mu.Lock()
	s.tasks[g] = t
	s.mu.Unlock()
	return t
}

func (s *Sim) yield(site int) {
	g := simrt.Goid()
	if g == s.sched {
		return
	}
	if g == s.token {
		s.Yields++
		s.burst++
		s.budget--
		if s.Sched.Mode == 3 && s.meet(site) {
			return
		}
		if s.budget > 0 {
			return
		}
		t := s.cur
		if t == nil {
			return
		}
		if t.dying {
			t.vanish()
			return
		}
		s.Preempts++
		s.park(t, &op{kind: "run", key: t.Name})
		return
	}
	t := s.me()
	if t.dying {
		t.vanish()
		return
	}
	s.park(t, &op{kind: "run", key: t.Name})
}

// mapOp is called before the code under test touches a map.  Two tasks of one
// process at the same map at the same time, one of them writing, is what the Go
// runtime ends a process for.
func (s *Sim) mapOp(site int, m uintptr, write bool) {
	if simrt.Goid() == s.sched {
		return
	}
	t := s.me()
	if t.dying {
		return
	}
	s.mu.Lock()
	var other *Task
	for _, o := range s.order {
		if o != t && o.mapAt == m && o.Proc == t.Proc && (write || o.mapWrite) {
			other = o
			break
		}
	}
	if other == nil {
		t.mapAt, t.mapWrite = m, write
	} else if t.Proc.Panic == "" {
		t.Proc.Panic = "concurrent map read and map write"
		if write && other.mapWrite {
			t.Proc.Panic = "concurrent map writes"
		}
		t.Proc.Panic = "fatal error: " + t.Proc.Panic
		buf := make([]byte, 16384)
		t.Proc.Stack = string(buf[:runtime.Stack(buf, false)])
	}
	s.mu.Unlock()
	if other != nil {
		s.procDown(t.Proc, 2)
		t.dying = true
		t.gone = true
		runtime.Goexit()
	}
	defer func() { t.mapAt = 0 }()
	s.mid(site)
}

// mid is a scheduling point inside an access to something that may be shared.
func (s *Sim) mid(site int) {
	if g := simrt.Goid(); g == s.token {
		switch {
		case s.Sched.Mode == 1 && s.Chance(1, 6):
			s.budget = 0
		case s.Sched.Mode == 3 && !s.seen[site]:
			s.hot = append(s.hot, site)
		}
	}
	s.yield(site)
}

// meet holds the current task back at the statement tasks are to meet at.
func (s *Sim) meet(site int) bool {
	if !s.seen[site] {
		s.seen[site] = true
		s.sites = append(s.sites, site)
	}
	t := s.cur
	if t == nil || t.dying {
		return false
	}
	if s.target < 0 {
		if s.Yields < s.aimAt {
			return false
		}
		if len(s.hot) > 0 && s.Chance(1, 3) {
			s.target = s.hot[s.Choose(len(s.hot))]
		} else {
			s.target = s.sites[s.Choose(len(s.sites))]
		}
		s.holds = 0
	}
	if site != s.target {
		return false
	}
	if w := s.waiting; w != nil && w.t.dying {
		s.waiting = nil
	}
	if w := s.waiting; w != nil {
		if w.t == t || w.t.Proc != t.Proc {
			return false
		}
		s.Meetings++
		s.Count("fault.meeting")
		s.waiting = nil
		w.lazy = false
		s.fine = 12
		s.holds++
		s.aim()
		s.park(t, &op{kind: "run", key: t.Name})
		return true
	}
	s.holds++
	s.aim()
	if s.heldFor > 300*time.Millisecond {
		return false
	}
	o := &op{kind: "hold", key: t.Name, lazy: true, until: s.Now() + time.Duration(s.Sched.HoldUs)*time.Microsecond}
	s.waiting = o
	from := s.Now()
	s.park(t, o)
	s.heldFor += s.Now() - from
	return true
}

// aim picks another statement now and then.
func (s *Sim) aim() {
	if s.waiting == nil && s.holds >= 8 {
		s.target = -1
		s.aimAt = s.Yields + int64(s.Choose(400))
	}
}

// vanish unwinds a task whose process is gone; the deferred calls it runs on
// the way out have no effect on the world.
func (t *Task) vanish() {
	if t.Proc.buried {
		// the next incarnation may be running: not even its deferred calls run
		select {}
	}
	if !t.gone {
		t.gone = true
		runtime.Goexit()
	}
}

// park blocks the calling task until the scheduler picks its operation.
func (s *Sim) park(t *Task, o *op) {
	if t.dying {
		t.vanish()
		return
	}
	o.t = t
	s.mu.Lock()
	if s.over {
		s.mu.Unlock()
		select {}
	}
	s.opSeq++
	o.seq = s.opSeq
	t.op = o
	s.parked = append(s.parked, o)
	s.mu.Unlock()
	select {
	case s.wakeCh <- struct{}{}:
	default:
	}
	<-t.wake
	if t.dying {
		t.vanish()
	}
}

// Op parks the calling goroutine until ready (or the deadline), then runs exec
// on the scheduler goroutine.  It returns after exec.
func (s *Sim) Op(kind, key string, ready func() bool, deadline func() time.Duration, exec func()) {
	if simrt.Goid() == s.sched {
		// the scheduler itself runs code under test only for teardown
		if exec != nil {
			exec()
		}
		return
	}
	t := s.me()
	if t.dying {
		return
	}
	s.park(t, &op{kind: kind, key: key, ready: ready, deadline: deadline, exec: exec})
}

// Dying reports whether the calling task belongs to a process being torn down.
func (s *Sim) Dying() bool {
	if simrt.Goid() == s.sched {
		return true
	}
	return s.me().dying
}

// Poke makes the scheduler look again.
func (s *Sim) Poke() {
	select {
	case s.wakeCh <- struct{}{}:
	default:
	}
}

// Kill terminates process p: its tasks never run another statement, its sockets
// behave as when a process dies.
func (s *Sim) Kill(p *Proc, code int) {
	if p.Dead {
		return
	}
	p.Dead = true
	if !p.Exited {
		p.Exited = true
		p.Code = code
	}
	s.Logf("proc %s#%d down code=%d", p.Name, p.ID, p.Code)
	for _, l := range p.lsn {
		l.closeNow()
	}
	for _, e := range p.ends {
		e.procDied()
	}
	s.mu.Lock()
	var dead []*op
	keep := s.parked[:0]
	for _, o := range s.parked {
		if o.t.Proc == p {
			dead = append(dead, o)
		} else {
			keep = append(keep, o)
		}
	}
	s.parked = keep
	for _, t := range s.order {
		if t.Proc == p {
			t.dying = true
		}
	}
	s.mu.Unlock()
	for _, o := range dead {
		o.t.wake <- struct{}{}
		stWait()
	}
	p.buried = true
	s.mu.Lock()
	var left []uint64
	for _, t := range s.order {
		if t.Proc == p && t.goid != 0 {
			left = append(left, t.goid)
		}
	}
	s.mu.Unlock()
	simrt.Bury(left)
	if p.OnExit != nil {
		p.OnExit(p.Code)
	}
}

// Run executes body (on the scheduler goroutine, to set the world up) and then
// schedules until Finish or the step limit.  invariant runs after every step.
func (s *Sim) Run(horizon time.Duration, setup func(), invariant func()) (infra string) {
	res := make(chan string, 1)
	go func() {
		defer func() {
			if e := recover(); e != nil {
				msg := fmt.Sprint(e)
				if strings.Contains(msg, "deadlock:") {
					res <- ""
					return
				}
				res <- "simulator panic: " + msg
				return
			}
			res <- ""
		}()
		var inner string
		stRun(func() {
			inner = s.loop(horizon, setup, invariant)
		})
		if inner != "" {
			panic(inner)
		}
	}()
	return <-res
}

func (s *Sim) loop(horizon time.Duration, setup func(), invariant func()) (infra string) {
	defer func() {
		if e := recover(); e != nil {
			buf := make([]byte, 8192)
			buf = buf[:runtime.Stack(buf, false)]
			infra = fmt.Sprintf("%v\n%s", e, buf)
		}
		s.teardown()
	}()
	s.start = time.Now()
	s.wakeCh = make(chan struct{}, 1)
	s.sched = simrt.Goid()
	s.install()
	if s.Sched.Mode == 3 {
		s.aimAt = int64(s.Choose(3000))
	}
	if s.Sched.Mode == 2 {
		for i := 0; i < s.Sched.Change; i++ {
			s.changeAt[int64(s.Choose(s.Sched.Span)+1)] = true
		}
		s.lowPrio = 999
	}
	s.After(horizon, "horizon", func() { s.done = true })
	setup()
	for !s.done {
		stWait()
		// processes that terminated by themselves
		for _, p := range s.procs {
			if p.Exited && !p.Dead {
				s.Kill(p, p.Code)
			}
		}
		if invariant != nil {
			invariant()
		}
		if s.done {
			break
		}
		if s.Steps-s.events >= s.MaxSteps || s.Steps >= 10*s.MaxSteps || s.Yields >= s.MaxYields {
			s.Overrun = true
			break
		}
		now := s.Now()
		// due events first, in (time, seq) order: they are the environment
		if len(s.q) > 0 && s.q[0].at <= now {
			ev := heap.Pop(&s.q).(*event)
			s.Steps++
			s.events++
			ev.fn()
			continue
		}
		s.mu.Lock()
		ops := append([]*op(nil), s.parked...)
		s.mu.Unlock()
		sort.Slice(ops, func(i, j int) bool {
			if ops[i].key != ops[j].key {
				return ops[i].key < ops[j].key
			}
			if ops[i].kind != ops[j].kind {
				return ops[i].kind < ops[j].kind
			}
			return ops[i].seq < ops[j].seq
		})
		var en, lazy []*op
		next := time.Duration(-1)
		for _, o := range ops {
			if o.lazy {
				if o.until > now {
					if next < 0 || o.until < next {
						next = o.until
					}
				} else {
					lazy = append(lazy, o)
				}
				continue
			}
			if o.ready == nil || o.ready() {
				en = append(en, o)
				continue
			}
			if o.deadline != nil {
				if d := o.deadline(); d >= 0 {
					if d <= now {
						en = append(en, o)
					} else if next < 0 || d < next {
						next = d
					}
				}
			}
		}
		if len(en) == 0 {
			en = lazy
		}
		if len(en) > 0 {
			s.release(s.pick(en))
			continue
		}
		if len(s.q) > 0 && (next < 0 || s.q[0].at < next) {
			next = s.q[0].at
		}
		if next < 0 {
			return "simulator has nothing to wait for"
		}
		tm := time.NewTimer(next - now)
		select {
		case <-tm.C:
		case <-s.wakeCh:
			tm.Stop()
		}
	}
	return ""
}

func (s *Sim) pick(en []*op) *op {
	// the current task's operation goes first so that choice 0 means "carry on"
	for i, o := range en {
		if o.t == s.cur && i > 0 {
			copy(en[1:i+1], en[:i])
			en[0] = o
			break
		}
	}
	if s.Sched.Mode == 2 {
		best := en[0]
		for _, o := range en[1:] {
			if o.t.prio > best.t.prio {
				best = o
			}
		}
		return best
	}
	if len(en) == 1 {
		return en[0]
	}
	return en[s.Choose(len(en))]
}

func (s *Sim) release(o *op) {
	s.Steps++
	s.mu.Lock()
	for i, x := range s.parked {
		if x == o {
			s.parked = append(s.parked[:i], s.parked[i+1:]...)
			break
		}
	}
	o.t.op = nil
	s.mu.Unlock()
	if s.waiting == o {
		s.waiting = nil
	}
	if s.changeAt[s.Steps] {
		o.t.prio = s.lowPrio
		s.lowPrio--
	}
	if o.exec != nil {
		o.exec()
	}
	switch {
	case s.fine > 0:
		s.fine--
		s.budget = 1 + s.Choose(4)
	case s.Sched.Mode == 1 || s.Sched.Mode == 3:
		n := s.Sched.Every
		if n < 1 {
			n = 1
		}
		s.budget = 1 + s.Choose(2*n)
		if s.budget == 1 {
			s.budget = 200000
		}
	case s.Sched.Mode == 2:
		s.budget = 25
	default:
		s.budget = 200000
	}
	h := s.ilv
	for _, c := range []byte(o.kind) {
		h = (h ^ uint64(c)) * 1099511628211
	}
	h = (h ^ uint64(o.t.id)) * 1099511628211
	s.ilv = h
	s.cur = o.t
	s.token = o.t.goid
	s.burst = 0
	o.t.wake <- struct{}{}
}

func (s *Sim) teardown() {
	s.EndTime = s.Now()
	for _, p := range s.procs {
		p.LiveAtEnd = p.Live
	}
	s.mu.Lock()
	s.over = true
	ps := s.parked
	s.parked = nil
	for _, t := range s.order {
		t.dying = true
	}
	s.mu.Unlock()
	s.token = 0
	s.uninstall()
	for _, o := range ps {
		o.t.dying = true
		select {
		case o.t.wake <- struct{}{}:
		default:
		}
	}
	stWait()
}

func (s *Sim) install() {
	simrt.H = simrt.Hooks{
		Yield: s.yield,
		Map:   s.mapOp,
		Mid:   s.mid,
		Spawn: func(body func()) {
			if s.Dying() && simrt.Goid() != s.sched {
				return
			}
			s.Spawn(s.me().Proc, "go", body)
		},
		Offset: func() time.Duration { return s.ClockOff },
		Exit: func(code int) {
			t := s.me()
			s.procDown(t.Proc, code)
			t.dying = true
			t.gone = true
			runtime.Goexit()
		},
	}
	net.Sim = &net.SimHooks{Dial: s.dial, Listen: s.listenHook, Resolve: s.resolve}
	os.SimExit = func(code int) {
		g := simrt.Goid()
		s.mu.Lock()
		t := s.tasks[g]
		s.mu.Unlock()
		if t != nil {
			simrt.H.Exit(code)
		}
	}
}

func (s *Sim) uninstall() {
	os.SimExit = nil
	simrt.H = simrt.Hooks{Yield: func(int) {}, Spawn: func(func()) {}, Exit: func(int) { select {} }}
	net.Sim = &net.SimHooks{
		Dial: func(context.Context, string, string) (net.SimFD, net.Addr, net.Addr, error) {
			select {}
		},
		Listen:  func(string, string) (net.SimFD, net.Addr, error) { select {} },
		Resolve: s.resolve,
	}
}

// HashString is FNV-1a, for callers that fingerprint things.
func HashString(x string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(x))
	return h.Sum64()
}
