package world

import (
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"
	_ "unsafe" // go:linkname

	"egtsverif/backend"
	"egtsverif/des"
	"egtsverif/ref"
	"egtsverif/simrt"

	vrecv "github.com/kuznetsovin/egts-protocol/zz_verif/vmain_cli_receiver"
	log "github.com/sirupsen/logrus"
)

// MainPlan is a run of the receiver program itself.
type MainPlan struct {
	Args   string `json:"args,omitempty"` // "": -c <config>; none: no argument; missing: a file that does not exist
	YAML   string `json:"yaml"`
	Host   string `json:"host"`
	Port   string `json:"port"`
	Level  string `json:"level,omitempty"`
	Busy   bool   `json:"busy,omitempty"` // the port is taken
	Bad    bool   `json:"bad,omitempty"`  // the configuration cannot be read
	NoLog  bool   `json:"no_log,omitempty"`
	Slow   bool   `json:"slow,omitempty"`   // nothing fails, but storing takes its time
	Failed bool   `json:"failed,omitempty"` // some storage cannot be opened, or there is none
}

// BackendPlan is a simulated database or broker.
type BackendPlan struct {
	Kind    string   `json:"kind"` // "log" is the fallback that prints records
	Host    string   `json:"host,omitempty"`
	Port    int      `json:"port,omitempty"`
	User    string   `json:"user,omitempty"`
	Pass    string   `json:"pass,omitempty"`
	DB      string   `json:"db,omitempty"`
	Dest    string   `json:"dest,omitempty"`
	Outages []Outage `json:"outages,omitempty"`
}

// Outage of a back end.
type Outage struct {
	AtMs  int    `json:"at_ms"`
	ForMs int    `json:"for_ms"`
	Mode  string `json:"mode"` // reset: connections break and new ones are refused; freeze: nothing moves; gone: the machine is off the network and comes back without its connections
}

// sync: the client learns whether the record was accepted.
func syncKind(k string) bool { return k != "nats" && k != "rabbitmq" && k != "log" }

// maxClients is how many connections a back end takes at a time: about twice as
// many as there are terminals.
const maxClients = 20

type liveBackend struct {
	w     *W
	i     int
	b     *BackendPlan
	ends  []*des.End
	down  bool
	froze bool
	gone  bool
}

func (lb *liveBackend) accept(e *des.End) {
	w := lb.w
	live := 0
	for _, x := range lb.ends {
		if !x.IsClosed() && !x.IsReset() {
			live++
		}
	}
	if live >= maxClients {
		w.S.Logf("%s has too many clients", lb.b.Kind)
		w.probe("too_many_clients")
		e.Abort()
		return
	}
	lb.ends = append(lb.ends, e)
	if lb.froze {
		e.Freeze()
		e.Sut().Freeze()
	}
	inc := e.Sut().Proc.ID
	put := func(dest string, body []byte, done func(bool)) { lb.put(inc, dest, body, done) }
	backend.Serve(lb.b.Kind, e, &backend.Cfg{User: lb.b.User, Pass: lb.b.Pass, DB: lb.b.DB, Bad: func(msg string) {
		w.violate(w.ownProp(), "protocol", "%s", msg)
	}, Refuse: func(body []byte) bool {
		o := &SaveObs{Store: lb.i, Raw: body}
		w.parse(o)
		f := fault(&w.P.Stores[lb.i], uint32(o.N.Nav-ref.Epoch))
		return f != nil && f.Err
	}}, put)
}

func (lb *liveBackend) put(inc int, dest string, body []byte, done func(bool)) {
	w, s := lb.w, lb.w.S
	st := &w.P.Stores[lb.i]
	o := &SaveObs{Store: lb.i, Inc: inc, BeginSeq: w.next(), Begin: s.Now(), Raw: append([]byte(nil), body...)}
	w.Saves = append(w.Saves, o)
	w.nSave++
	w.parse(o)
	if dest != lb.b.Dest {
		w.violate(w.ownProp(), "destination", "%s: a record was written to %q, configured is %q", lb.b.Kind, dest, lb.b.Dest)
	}
	nav := uint32(o.N.Nav - ref.Epoch)
	f := fault(st, nav)
	d := s.Dur(us(st.DelayMinUs), us(st.DelayMaxUs))
	if f != nil && f.StallMs > 0 && syncKind(lb.b.Kind) {
		d += ms(f.StallMs)
		s.Count("fault.store_stall")
	}
	if !syncKind(lb.b.Kind) {
		d = 0 // a broker takes what it gets, in order
	}
	s.After(d, "put", func() {
		o.Done = true
		o.End = s.Now()
		o.EndSeq = w.next()
		if f != nil && f.Err && syncKind(lb.b.Kind) {
			o.Inj = true
			s.Count("fault.store_error")
		} else {
			o.OK = true
			w.nSaved++
		}
		s.Logf("%s put %s nav=%d ok=%v", lb.b.Kind, dest, o.N.Nav, o.OK)
		done(o.OK)
	})
}

func (lb *liveBackend) schedule() {
	s := lb.w.S
	for _, o := range lb.b.Outages {
		o := o
		s.After(ms(o.AtMs), "outage", func() {
			s.Logf("%s outage %s for %d ms", lb.b.Kind, o.Mode, o.ForMs)
			switch o.Mode {
			case "reset":
				s.Count("fault.backend_reset")
				lb.down = true
				for _, e := range lb.ends {
					if !e.IsClosed() && !e.IsReset() {
						e.Abort()
						lb.w.broken[lb.i]++
					}
				}
				lb.ends = nil
			case "gone":
				s.Count("fault.backend_gone")
				lb.gone = true
				for _, e := range lb.ends {
					e.Freeze()
					e.Sut().Freeze()
				}
			case "freeze":
				s.Count("fault.backend_freeze")
				lb.froze = true
				for _, e := range lb.ends {
					e.Freeze()
					e.Sut().Freeze()
				}
			}
		})
		s.After(ms(o.AtMs+o.ForMs), "outage end", func() {
			s.Logf("%s outage over", lb.b.Kind)
			lb.down = false
			lb.froze = false
			if lb.gone {
				lb.gone = false
				for _, e := range lb.ends {
					if !e.IsClosed() && !e.IsReset() {
						e.Abort()
						lb.w.broken[lb.i]++
					}
				}
			}
			for _, e := range lb.ends {
				e.Thaw()
				e.Sut().Thaw()
			}
		})
	}
}

// disturbed: the record with this navigation time was under way while the store
// was in an outage (or recovering from one).
func (w *W) outage(store int, from, to time.Duration) bool {
	b := w.P.Stores[store].B
	if b == nil {
		return false
	}
	for _, o := range b.Outages {
		a, e := ms(o.AtMs), ms(o.AtMs+o.ForMs)+grace(b.Kind)
		if from <= e && to >= a {
			return true
		}
	}
	return false
}

// grace is how long the client of a back end may take to notice that it is back.
func grace(kind string) time.Duration {
	switch kind {
	case "nats":
		return 10 * time.Second
	case "tarantool_queue":
		return 5 * time.Second
	}
	return 3 * time.Second
}

// lvl is the level the configuration asks for.
func (m *MainPlan) lvl() log.Level {
	switch m.Level {
	case "DEBUG":
		return log.DebugLevel
	case "WARN":
		return log.WarnLevel
	case "ERROR":
		return log.ErrorLevel
	}
	return log.InfoLevel
}

// mainHook records what the program logs.
type mainHook struct {
	w   *W
	fb  int // index of the fallback store, or -1
	max log.Level
	n   map[log.Level]int
}

func (h *mainHook) Levels() []log.Level { return log.AllLevels }
func (h *mainHook) Fire(e *log.Entry) error {
	w := h.w
	if w.S.Dying() {
		return nil
	}
	h.n[e.Level]++
	if w.serving && e.Level > h.max {
		h.max = e.Level
	}
	if p, ok := h.printed(e); ok {
		o := &SaveObs{Store: h.fb, Inc: w.proc.ID, BeginSeq: w.next(), Begin: w.S.Now(), Raw: []byte(p), Done: true, OK: true, End: w.S.Now()}
		o.EndSeq = w.next()
		w.parse(o)
		if h.fb < 0 {
			w.violate(w.ownProp(), "printed", "a record was printed although every configured storage could be opened: %s", p)
			return nil
		}
		w.Saves = append(w.Saves, o)
		w.nSaved++
	}
	return nil
}

// printed finds the record that an entry prints, if it prints one.
func (h *mainHook) printed(e *log.Entry) (string, bool) {
	if e.Level > log.InfoLevel {
		return "", false
	}
	if p, ok := e.Data["packet"].(string); ok {
		return p, true
	}
	texts := []string{e.Message}
	for _, v := range e.Data {
		switch v := v.(type) {
		case string:
			texts = append(texts, v)
		case []byte:
			texts = append(texts, string(v))
		case json.RawMessage:
			texts = append(texts, string(v))
		}
	}
	sort.Strings(texts)
	for _, t := range texts {
		for i := strings.IndexByte(t, '{'); i >= 0; {
			var m map[string]json.RawMessage
			d := json.NewDecoder(strings.NewReader(t[i:]))
			if d.Decode(&m) == nil && m["client"] != nil && m["navigation_unix_time"] != nil {
				return t[i : i+int(d.InputOffset())], true
			}
			k := strings.IndexByte(t[i+1:], '{')
			if k < 0 {
				break
			}
			i += 1 + k
		}
	}
	return "", false
}

// state the client drivers keep between connections, as fresh as in a new process

//go:linkname redisRand github.com/go-redis/redis/v8/internal/rand.pseudo
var redisRand *rand.Rand

//go:linkname tntEpoch github.com/tarantool/go-tarantool.epoch
var tntEpoch time.Time

func resetDrivers() {
	redisRand.Seed(1)
	tntEpoch = time.Now()
}

// RunMain runs a plan of kind "main".
func RunMain(p *Plan, choices []int, keepLog bool) *Result {
	s := newSim(p, choices, keepLog)
	m := p.Main
	w := &W{P: p, S: s, runEnded: -1, stopAt: -1, probes: map[string]int64{}, faultTimes: map[string]int{}}
	setupLog(w, false, false)
	hook := &mainHook{w: w, fb: -1, n: map[log.Level]int{}}
	l := log.StandardLogger()
	l.SetLevel(log.InfoLevel)
	l.AddHook(hook)
	dir, err := os.MkdirTemp("", "egtsmain")
	if err != nil {
		return &Result{Infra: err.Error(), Stats: map[string]int64{}, Probes: w.probes}
	}
	defer os.RemoveAll(dir)
	path := filepath.Join(dir, "config.yaml")
	if err := os.WriteFile(path, []byte(m.YAML), 0o600); err != nil {
		return &Result{Infra: err.Error(), Stats: map[string]int64{}, Probes: w.probes}
	}
	args := []string{"receiver", "-c", path}
	switch m.Args {
	case "none":
		args = args[:1]
	case "missing":
		args[2] = filepath.Join(dir, "absent.yaml")
	case "dir":
		args[2] = dir
	}
	oldArgs, oldErr := os.Args, os.Stderr
	defer func() { os.Args, os.Stderr = oldArgs, oldErr }()
	os.Args = args
	w.crashDone = make([]bool, len(p.Crashes))
	w.lkey = ":" + m.Port
	w.walls = []mark2{{0, s.ClockOff}}
	w.broken = make([]int, len(p.Stores))
	var bind string
	for i := range p.Stores {
		if p.Stores[i].B.Kind == "log" {
			hook.fb = i
		}
	}
	infra := s.Run(ms(p.planEnd()+p.TailMs), func() {
		if m.Busy {
			s.Busy = map[string]bool{w.lkey: true}
		}
		s.OnListen = func(l *des.Listener) {
			w.serving = true
			bind = l.Bind
			w.onListen(l)
		}
		for i := range p.Stores {
			b := p.Stores[i].B
			if b.Kind == "log" {
				continue
			}
			lb := &liveBackend{w: w, i: i, b: b}
			s.Serve(&des.Service{Addr: fmt.Sprintf("%s:%d", b.Host, b.Port), Accept: lb.accept, Blackhole: func() bool { return lb.gone }, Refuse: func() error {
				if lb.down {
					return syscall.ECONNREFUSED
				}
				return nil
			}})
			lb.schedule()
		}
		w.start = func() {
			pr := s.NewProc("recv")
			w.proc = pr
			w.procs = append(w.procs, pr)
			s.SetMain(pr)
			simrt.ResetGlobals()
			resetDrivers()
			l.SetLevel(log.InfoLevel)
			flag.CommandLine = flag.NewFlagSet("receiver", flag.ContinueOnError)
			flag.CommandLine.SetOutput(io.Discard)
			s.Spawn(pr, "main", func() {
				vrecv.Main()
				w.runEnded = s.Now()
				simrt.Exit(0)
			})
		}
		w.start()
		for i := range p.Terms {
			t := &term{w: w, i: i, p: &p.Terms[i], acked: map[int]bool{}}
			w.terms = append(w.terms, t)
			t.start()
		}
	}, w.onStep)
	w.endAt = s.EndTime
	r := &Result{Infra: infra, Hash: s.Hash(), Ilv: s.Interleaving(), Choices: s.Taken, Log: s.Log(), SimTime: s.EndTime, Steps: s.Steps, Yields: s.Yields, Preempts: s.Preempts, Frags: s.Frags, Overrun: s.Overrun, Stats: s.Stats, Probes: w.probes}
	if infra == "" {
		w.judgeMain(hook, bind)
		r.Nontrivial = w.serving || w.proc.Exited
	}
	r.Viol = w.Viol
	r.w = w
	return r
}

// ownProp is the property that answers for the program as a whole.
func (w *W) ownProp() string {
	if w.P.Prop == "C15" {
		return "C15"
	}
	return "C14"
}

func (w *W) judgeMain(h *mainHook, bind string) {
	m := w.P.Main
	prop := w.ownProp()
	pr := w.proc
	for _, x := range w.procs {
		if x.Panic != "" {
			pr = x
		}
	}
	if pr.Panic != "" {
		w.violate(prop, "panic", "the receiver crashed: %s\n%s", pr.Panic, pr.Stack)
		w.violate("C05", "panic", "the receiver crashed: %s\n%s", pr.Panic, pr.Stack)
		return
	}
	if m.Args != "" || m.Bad || m.Busy {
		what := "the configuration cannot be read"
		switch {
		case m.Args == "none":
			what = "no configuration file was named"
		case m.Busy:
			what = "the listening address is taken"
		}
		switch {
		case w.serving:
			w.violate("C15", "served", "%s and the receiver serves nevertheless", what)
		case !pr.Exited:
			w.violate("C15", "hangs", "%s and the receiver neither serves nor exits", what)
		case pr.Code == 0:
			w.violate("C15", "status", "%s and the receiver exits with status 0", what)
		}
		w.probe("refused_to_start")
		return
	}
	if pr.Exited && pr.Code != 137 {
		w.violate(prop, "exit", "the receiver ended by itself with status %d", pr.Code)
		w.violate("C05", "exit", "the receiver ended by itself with status %d", pr.Code)
		return
	}
	if !w.serving {
		w.violate(prop, "not-serving", "the receiver never listened on its address")
		return
	}
	w.probe("served")
	want := des.Canon(m.Host + ":" + m.Port)
	if bind != want {
		w.violate("C15", "bind", "the receiver listens on %s, configured is %s", bind, want)
	}
	lvl := m.lvl()
	if h.max > lvl {
		w.violate("C15", "level-noisy", "log level %q: messages of level %v were logged", m.Level, h.max)
	}
	if !log.IsLevelEnabled(lvl) {
		w.violate("C15", "level-quiet", "log level %q: messages of level %v are suppressed", m.Level, lvl)
	}
	if w.S.Overrun && w.P.Sched.Mode != 2 {
		w.violate("C12", "livelock", "no quiescence after %d scheduling steps: the receiver spins", w.S.Steps)
		w.violate(prop, "livelock", "no quiescence after %d scheduling steps: the receiver spins", w.S.Steps)
	}
	// which records were under way during an outage of which store
	all := make([][]*itemState, len(w.Conns))
	w.disturbed = make([]map[uint32]bool, len(w.P.Stores))
	for k := range w.disturbed {
		w.disturbed[k] = map[uint32]bool{}
	}
	for i, c := range w.Conns {
		all[i] = w.states(i, c)
		fi := 0
		for _, st := range all[i] {
			to := w.endAt
			if st.cls != ClsSilent && st.it.P != nil {
				for ; fi < len(c.Frames); fi++ {
					if f := &c.Frames[fi]; f.F.PT == 0 && (f.F.RPID == st.it.P.PID || st.cls == ClsCorrupt) {
						to = f.At
						fi++
						break
					}
				}
			}
			for _, e := range st.exps {
				for k := range w.P.Stores {
					until := to
					if !syncKind(w.P.Stores[k].B.Kind) {
						until += 3 * time.Second // written later
					}
					if st.arr >= 0 && w.outage(k, st.arr, until) {
						w.disturbed[k][e.nav] = true
						w.probe("record_in_outage")
					}
				}
			}
		}
	}
	// a broken connection may be noticed only by the record it is used for next
	var es []*exp
	for i := range all {
		for _, st := range all[i] {
			es = append(es, st.exps...)
		}
	}
	sort.SliceStable(es, func(i, j int) bool { return es[i].arr < es[j].arr })
	for k, n := range w.broken {
		if n == 0 {
			continue
		}
		first := w.endAt
		for _, o := range w.P.Stores[k].B.Outages {
			first = min(first, ms(o.AtMs))
		}
		for _, e := range es {
			if n <= 0 {
				break
			}
			if e.arr < 0 || w.disturbed[k][e.nav] || w.injErr(k, e.nav) || e.arr < first {
				continue
			}
			// a record that was sent again is received several times
			lost := 0
			for _, x := range es {
				if x.nav == e.nav && x.arr >= 0 {
					lost++
				}
			}
			for _, o := range w.Saves {
				if o.Store == k && o.OK && uint32(o.N.Nav-ref.Epoch) == e.nav {
					lost--
				}
			}
			if lost > 0 {
				w.disturbed[k][e.nav] = true
				if e.must { // else it may never have been read
					w.probe("broken_connection_noticed")
					n -= lost
				}
			}
		}
	}
	groups, _ := w.judgeSaves(all)
	for i, c := range w.Conns {
		w.judgeAnswers(c, all[i], groups)
	}
	w.judgeUnreachable(es)
	w.judgeIdle(all)
	if m.Slow {
		w.judgeLatency(all, slowBase, slowPer)
	}
	if w.P.Prop != "C14" && w.P.Prop != "C15" {
		return
	}
	// everything the server promises is promised by the program too
	for i := range w.Viol {
		v := &w.Viol[i]
		if v.Prop == prop || v.Prop == "C14" || v.Prop == "C15" || v.Known != "" {
			continue
		}
		v.Class = strings.ToLower(v.Prop) + "-" + v.Class
		v.Prop = prop
	}
}

// judgeUnreachable: a record that was confirmed while a broker was known to be
// unreachable is kept for it, or it should not have been confirmed.
func (w *W) judgeUnreachable(es []*exp) {
	for k := range w.P.Stores {
		b := w.P.Stores[k].B
		if syncKind(b.Kind) || w.P.Stores[k].Unused {
			continue
		}
		for i, o := range b.Outages {
			from, to := ms(o.AtMs)+time.Second, ms(o.AtMs+o.ForMs)
			alone := o.Mode == "reset" && to+time.Minute < w.endAt
			for j, x := range b.Outages {
				if j != i && ms(x.AtMs) < to+time.Minute && ms(x.AtMs+x.ForMs)+time.Minute > ms(o.AtMs) {
					alone = false
				}
			}
			if !alone {
				continue
			}
			for _, e := range es {
				if e.conf == 0 || e.arr < from || e.conf > to {
					continue
				}
				w.probe("confirmed_while_unreachable")
				kept := false
				for _, s := range w.Saves {
					if s.Store == k && s.OK && uint32(s.N.Nav-ref.Epoch) == e.nav {
						kept = true
					}
				}
				if !kept {
					for _, c := range []string{"C02", "C14"} {
						w.violate(c, "confirmed-lost", "record nav=%d of t%d was confirmed as processed at %v, while %s had been unreachable since %v, and never got there", e.nav, e.c.Term, e.conf, b.Kind, ms(o.AtMs))
					}
				}
			}
		}
	}
}

// What a driver may add to a packet, and to a record in a store: it connects,
// authenticates and prepares.
const slowBase, slowPer = time.Second, 150 * time.Millisecond

// ---- plans

type beGen struct {
	r    *rand.Rand
	g    *gen
	port int
}

func (b *beGen) backend(kind string) (*BackendPlan, string) {
	r := b.r
	b.port++
	p := &BackendPlan{Kind: kind, Port: b.port, User: "u" + word(r), Pass: "p" + word(r), DB: "d" + word(r)}
	if kind != "mysql" && r.Intn(3) == 0 {
		// a password is any text
		const odd = " '\"\\/:@#%?&=+;,*[]{}!$"
		for i := 1 + r.Intn(4); i > 0; i-- {
			p.Pass += string(odd[r.Intn(len(odd))]) + word(r)[:1]
		}
		switch r.Intn(4) {
		case 0:
			p.Pass = " " + p.Pass
		case 1:
			p.Pass += " "
		}
	}
	host := []string{"127.0.0.1", "localhost", "10.1.1.9", "db.example", "mq-" + word(r)}[r.Intn(5)]
	p.Host = host
	y := ""
	kv := func(k, v string) {
		if r.Intn(4) == 0 && v != "" && strings.Trim(v, "abcdefghijklmnopqrstuvwxyz0123456789.") == "" && k != "db" {
			y += fmt.Sprintf("    %s: %s\n", k, v)
		} else {
			y += fmt.Sprintf("    %s: %q\n", k, v)
		}
	}
	switch kind {
	case "redis":
		kv("server", fmt.Sprintf("%s:%d", host, p.Port))
		q := "q" + word(r)
		kv("queue", q)
		if r.Intn(2) == 0 {
			p.Pass = ""
		}
		kv("password", p.Pass)
		p.DB = "0"
		if r.Intn(3) > 0 {
			p.DB = fmt.Sprint(r.Intn(16))
			kv("db", p.DB)
		}
		p.Dest = "PUBLISH " + p.DB + "/" + q
	case "postgresql":
		t := "t" + word(r)
		kv("host", host)
		kv("port", fmt.Sprint(p.Port))
		kv("user", p.User)
		kv("password", p.Pass)
		kv("database", p.DB)
		kv("table", t)
		kv("sslmode", "disable")
		p.Dest = p.DB + "/" + t
	case "mysql":
		t := "t" + word(r)
		kv("uri", fmt.Sprintf("%s:%s@tcp(%s:%d)/%s", p.User, p.Pass, host, p.Port, p.DB))
		kv("table", t)
		p.Dest = p.DB + "/" + t
	case "nats":
		t := word(r) + "." + word(r)
		kv("servers", fmt.Sprintf("nats://%s:%d", host, p.Port))
		kv("topic", t)
		if r.Intn(2) == 0 {
			if r.Intn(4) == 0 {
				p.Pass = ""
			}
			kv("user", p.User)
			kv("password", p.Pass)
		} else {
			p.User, p.Pass = "", ""
		}
		p.Dest = t
	case "rabbitmq":
		x, k := "x"+word(r), ""
		kv("host", host)
		kv("port", fmt.Sprint(p.Port))
		kv("user", p.User)
		kv("password", p.Pass)
		kv("exchange", x)
		if r.Intn(2) == 0 {
			k = "k" + word(r)
			kv("key", k)
		}
		p.Dest = x + "/" + k
	case "tarantool_queue":
		q := "q" + word(r)
		kv("host", host)
		kv("port", fmt.Sprint(p.Port))
		kv("user", p.User)
		kv("password", p.Pass)
		kv("max_recons", "1000")
		kv("timeout", "20")
		kv("reconnect", "1")
		kv("queue", q)
		p.Dest = "queue.tube." + q + ":put"
	}
	return p, "  " + kind + ":\n" + y
}

var kinds = []string{"postgresql", "mysql", "redis", "tarantool_queue", "nats", "rabbitmq"}

func genMain(prop string, seed uint64, r *rand.Rand) *Plan {
	pf := base()
	pf.debug = 0
	pf.recs, pf.subs = [2]int{1, 3}, [2]int{0, 2}
	pf.terms, pf.items = [2]int{1, 3}, [2]int{1, 6}
	pf.long, pf.crowd, pf.freeze, pf.same = 0, 0, 0, 0
	pf.resend = 0
	m := &MainPlan{}
	p := &Plan{Prop: prop, Seed: seed, Kind: "main", Main: m}
	g := &gen{r: r, pf: pf, navs: map[uint32]bool{}, p: p}
	g.sched()
	if (p.Sched.Mode == 1 || p.Sched.Mode == 3) && p.Sched.Every < 8 {
		p.Sched.Every = 8
	}
	g.network()
	p.LatMaxUs = min(p.LatMaxUs, 5000)
	p.LatMinUs = min(p.LatMinUs, p.LatMaxUs)
	p.ClockYears = 20 + r.Intn(30)
	m.Host = []string{"127.0.0.1", "0.0.0.0", "localhost", "", "192.168.7.1"}[r.Intn(5)]
	m.Port = fmt.Sprint(6000 + r.Intn(100))
	ttl := []int{0, 1, 5, 10, 60, []int{90, 256, 600, 3600, 65536 + r.Intn(60), 86400}[r.Intn(6)]}[r.Intn(6)]
	start := prop == "C15" // what may be wrong with the configuration
	like := "C14"
	if start || prop == "C07" {
		like = "C15"
	}
	if like == "C14" {
		ttl = 300
	}
	p.TTLms = ttl * 1000
	p.TailMs = 120000 + p.TTLms
	m.Level = []string{"DEBUG", "INFO", "WARN", "ERROR", "", "debug", "TRACE"}[r.Intn(7)]
	be := &beGen{r: r, g: g, port: 7000 + r.Intn(50)*10}
	var secs []string
	if prop == "C06" {
		p.Solo = 1
	}
	slow := prop == "C12" || like == "C14" && r.Intn(12) == 0
	n := 1 + r.Intn(3)
	if prop == "C13" {
		n = 2 + r.Intn(2)
	}
	if start && r.Intn(5) == 0 {
		n = 0
	}
	down, unknown := false, false
	perm := r.Perm(len(kinds))
	for i := 0; i < n; i++ {
		b, y := be.backend(kinds[perm[i]])
		st := StorePlan{B: b}
		switch r.Intn(3) {
		case 0:
			st.DelayMaxUs = 200
		case 1:
			st.DelayMinUs, st.DelayMaxUs = 100, 20000
		}
		secs = append(secs, y)
		if start && r.Intn(4) == 0 {
			// cannot be opened: nobody listens there, or the credentials are wrong
			if b.Kind == "redis" {
				switch r.Intn(3) {
				case 0:
					secs[i] = strings.Replace(y, "    queue:", "    other:", 1)
					down = true
					continue
				case 1: // not a database number
					var ls []string
					for _, l := range strings.Split(y, "\n") {
						if !strings.HasPrefix(l, "    db:") {
							ls = append(ls, l)
						}
					}
					secs[i] = strings.Join(ls, "\n") + fmt.Sprintf("    db: %q\n", []string{"x", "one", "1.5", "-", "0x", "3 4"}[r.Intn(6)])
					st.Unused = true // there, should it be used nevertheless
					p.Stores = append(p.Stores, st)
					down = true
					continue
				}
			} else if k := []string{"max_recons", "timeout", "reconnect"}[r.Intn(3)]; b.Kind == "tarantool_queue" && r.Intn(2) == 0 {
				// not a number
				var ls []string
				for _, l := range strings.Split(y, "\n") {
					if strings.HasPrefix(l, "    "+k+":") {
						l = fmt.Sprintf("    %s: %q", k, []string{"x", "never", "1.5", "10s x", "-"}[r.Intn(5)])
					}
					ls = append(ls, l)
				}
				secs[i] = strings.Join(ls, "\n")
				st.Unused = true
				p.Stores = append(p.Stores, st)
				down = true
				continue
			} else {
				if r.Intn(2) == 0 && b.Kind != "tarantool_queue" && b.User != "" {
					b.Pass += "x" // served, and refused
					p.Stores = append(p.Stores, st)
					p.Stores[len(p.Stores)-1].Unused = true
				}
				down = true
				continue
			}
		}
		p.Stores = append(p.Stores, st)
	}
	if start && n > 0 && r.Intn(6) == 0 {
		unknown = true
		secs = append(secs, "  clickhouse:\n    host: \"x\"\n")
	}
	r.Shuffle(len(secs), func(i, j int) { secs[i], secs[j] = secs[j], secs[i] })
	m.Failed = down || unknown || n == 0
	if m.Failed {
		if m.lvl() < log.InfoLevel {
			m.Level = "INFO" // else the fallback prints nothing
		}
		p.Stores = append(p.Stores, StorePlan{B: &BackendPlan{Kind: "log"}})
	}
	late := 0 // when the longest outage is over
	var top []string
	top = append(top, fmt.Sprintf("host: \"%s\"\n", m.Host))
	if r.Intn(2) == 0 {
		top = append(top, fmt.Sprintf("port: \"%s\"\n", m.Port))
	} else {
		top = append(top, fmt.Sprintf("port: %s\n", m.Port))
	}
	if ttl > 0 || r.Intn(2) == 0 {
		top = append(top, fmt.Sprintf("conn_ttl: %d\n", ttl))
	}
	if m.Level != "" || r.Intn(2) == 0 {
		top = append(top, fmt.Sprintf("log_level: \"%s\"\n", m.Level))
	}
	if len(secs) > 0 {
		top = append(top, "storage:\n"+strings.Join(secs, ""))
	} else if r.Intn(2) == 0 {
		top = append(top, "storage:\n")
	}
	if r.Intn(4) == 0 {
		top = append(top, "# a comment\nsome_future_setting: 5\n")
	}
	r.Shuffle(len(top), func(i, j int) { top[i], top[j] = top[j], top[i] })
	m.YAML = strings.Join(top, "\n")
	if like == "C15" {
		odd := r.Intn(14)
		if !start {
			odd = 14
		}
		switch odd {
		case 0:
			m.Args = "none"
		case 1:
			m.Args = []string{"missing", "dir"}[r.Intn(2)]
		case 2:
			m.Bad = true
			m.YAML = []string{"host: [", "host: \"a\n  port: }{", "- a\n- b\n", "conn_ttl: many\n" + m.YAML2(), "storage: 5\nport: 6000\n", "\thost: x\n"}[r.Intn(6)]
		case 3:
			m.Busy = true
		}
		g.pf.auth, g.pf.corrupt = 60, 30
		if ttl > 0 {
			g.pf.keep = 8
			g.pf.gapMs = min(800, ttl*400)
		}
	} else {
		g.pf.saveErr, g.pf.saveStall, g.pf.stallMs = 80, 60, [2]int{1, 2000}
		g.pf.corrupt, g.pf.auth = 30, 40
		if r.Intn(10) == 0 {
			// a store that refuses most records must take the others all the same
			g.pf.saveErr, g.pf.saveStall = 700, 0
			g.pf.items, g.pf.terms = [2]int{5, 15}, [2]int{1, 4}
		}
		for k := range p.Stores {
			b := p.Stores[k].B
			if r.Intn(3) > 0 || b.Kind == "log" {
				continue
			}
			for j := 1 + r.Intn(2); j > 0; j-- {
				o := Outage{AtMs: 200 + r.Intn(5000), ForMs: 1 + r.Intn(4000), Mode: "reset"}
				g.pf.gapMs = max(g.pf.gapMs, 3000)
				switch r.Intn(6) {
				case 0, 1:
					o.Mode = "freeze"
					o.ForMs = 1 + r.Intn(1500)
				case 5:
					o.Mode = "gone"
					o.ForMs = []int{1500, 8000, 40000, 400000}[r.Intn(4)]
					o.ForMs = 1 + r.Intn(o.ForMs)
					if o.ForMs > 5000 {
						g.pf.gapMs = 25000
					}
					if o.ForMs > 60000 {
						late = max(late, o.AtMs+o.ForMs)
					}
				case 2:
					// long enough for a client to give up, were it to give up
					o.ForMs = 5000 + r.Intn(65000)
					g.pf.gapMs = 25000
					if r.Intn(2) == 0 {
						o.ForMs += 60000 + r.Intn(600000)
						late = max(late, o.AtMs+o.ForMs)
					}
				}
				b.Outages = append(b.Outages, o)
			}
		}
	}
	if like == "C14" && r.Intn(4) == 0 {
		for k := range p.Stores {
			p.Stores[k].B.Outages = nil // else a restart may find a storage it cannot open
		}
		g.pf.retry = 1000
		for j := 1 + r.Intn(2); j > 0; j-- {
			c := Crash{On: []string{"save", "saved", "write", "read", "ms"}[r.Intn(5)], N: 1 + r.Intn(12), RestartMs: 1 + r.Intn(3000)}
			switch c.On {
			case "ms":
				c.N = r.Intn(4000)
			case "read":
				c.N = 1 + r.Intn(100)
			}
			p.Crashes = append(p.Crashes, c)
		}
	}
	if r.Intn(3) == 0 {
		g.pf.resend = 150
	}
	if slow {
		// storing takes its time, for every terminal on its own
		m.Slow = true
		g.pf.saveErr, g.pf.saveStall, g.pf.stallMs = 0, 150+r.Intn(200), [2]int{1000, 2000}
		g.pf.terms, g.pf.items = [2]int{3, 8}, [2]int{2, 6}
		g.pf.gapMs, g.pf.retry = 300, 0
		p.Crashes = nil
		late = 0
		for k := range p.Stores {
			p.Stores[k].B.Outages = nil
		}
	}
	together := like == "C14" && !slow && len(p.Crashes) == 0 && (r.Intn(5) == 0 || prop == "C06" && r.Intn(2) == 0)
	if together {
		// many terminals whose records are stored at the same time
		g.pf.terms, g.pf.items = [2]int{3, 8}, [2]int{1, 4}
		g.pf.gapMs = 0
		p.LatMinUs = p.LatMaxUs
		if p.Sched.Mode == 0 || p.Sched.Mode == 2 {
			p.Sched = des.Sched{Mode: 1, Every: []int{8, 30, 150}[r.Intn(3)]}
		}
		for k := range p.Stores {
			p.Stores[k].B.Outages = nil
		}
	}
	for i, n := 0, rng(r, g.pf.terms); i < n; i++ {
		t := g.term(prop == "C05" && r.Intn(2) == 0)
		if late > 0 && r.Intn(3) > 0 {
			t.StartMs += late - 20000 + r.Intn(60000)
		}
		if together {
			t.StartMs = 0
			for j := range t.Items {
				t.Items[j].DelayMs, t.Items[j].Cuts = 0, nil
			}
		}
		t.StartMs += 500 // the program has to open its storages first
		p.Terms = append(p.Terms, t)
	}
	return p
}

// YAML2 is the text without its own conn_ttl line.
func (m *MainPlan) YAML2() string {
	var out []string
	for _, l := range strings.Split(m.YAML, "\n") {
		if !strings.HasPrefix(l, "conn_ttl") {
			out = append(out, l)
		}
	}
	return strings.Join(out, "\n")
}
