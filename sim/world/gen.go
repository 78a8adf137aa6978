package world

import (
	"encoding/binary"
	"flag"
	"fmt"
	"math"
	"math/rand"
	"os"
	"strconv"
	"syscall"
	"time"

	"egtsverif/des"
	"egtsverif/ref"
	"egtsverif/simrt"

	vgen "github.com/kuznetsovin/egts-protocol/zz_verif/vmain_cli_packet_gen"
)

// GenPlan is a run of the packet generator.
type GenPlan struct {
	Args    []string `json:"args"`
	PID     uint16   `json:"pid"`
	OID     uint32   `json:"oid"`
	Unix    int64    `json:"unix"`
	Lat     float64  `json:"lat"`
	Lon     float64  `json:"lon"`
	Liq     uint32   `json:"liq"`
	Host    string   `json:"host,omitempty"`
	Port    int      `json:"port"`
	Timeout int      `json:"timeout"` // seconds
	BadArgs string   `json:"bad_args,omitempty"`
	// Peer: sim (a simulated server that acts as below), refuse, hole (no answer to a dial), receiver (the real one)
	Peer    string `json:"peer"`
	HoleMs  int    `json:"hole_ms,omitempty"` // until then nobody answers a dial
	Reply   *Item  `json:"reply,omitempty"`
	Extra   []byte `json:"extra,omitempty"`  // sent with the reply
	Want    string `json:"want"`             // ok, fail, any
	ReplyMs int    `json:"reply_ms"`         // after the packet arrived
	EndMs   int    `json:"end_ms,omitempty"` // after the reply
	End     string `json:"end"`              // keep, fin, close, abort
	Deaf    bool   `json:"deaf,omitempty"`   // the server never reads and answers on connection
	Freeze  int    `json:"freeze,omitempty"` // ms of partition from the connection on
	Twice   bool   `json:"twice,omitempty"`  // two generators at once (receiver only)
}

type genRun struct {
	w       *W
	g       *GenPlan
	proc    *des.Proc
	got     []byte
	conns   int
	opened  time.Duration
	written time.Duration // when the packet was complete at the server
	sent    time.Duration // when the program wrote its first byte
	full    time.Duration // when the whole reply was at the generator
	delivN  int64
	replyN  int64
	ended   time.Duration
}

// RunGen runs a plan of kind "gen".
func RunGen(p *Plan, choices []int, keepLog bool) *Result {
	s := newSim(p, choices, keepLog)
	g := p.Gen
	w := &W{P: p, S: s, runEnded: -1, stopAt: -1, probes: map[string]int64{}, faultTimes: map[string]int{}}
	setupLog(w, false, false)
	w.lkey = ":6000"
	w.walls = []mark2{{0, s.ClockOff}}
	x := &genRun{w: w, g: g, opened: -1, written: -1, sent: -1, full: -1, ended: -1}
	oldArgs, oldOut, oldErr := os.Args, os.Stdout, os.Stderr
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		return &Result{Infra: err.Error(), Stats: map[string]int64{}, Probes: w.probes}
	}
	defer func() {
		os.Args, os.Stdout, os.Stderr = oldArgs, oldOut, oldErr
		null.Close()
	}()
	os.Args = append([]string{"packet-gen"}, g.Args...)
	os.Stdout, os.Stderr = null, null
	infra := s.Run(ms(p.TailMs+g.Timeout*1000), func() {
		key := fmt.Sprintf("%s:%d", g.Host, g.Port)
		switch g.Peer {
		case "receiver":
			w.startServer()
		case "sim":
			s.Serve(&des.Service{Addr: key, Accept: x.accept, Blackhole: func() bool {
				if s.Now() < ms(g.HoleMs) {
					s.Count("fault.dial_unanswered")
					return true
				}
				return false
			}})
		case "hole":
			s.Serve(&des.Service{Addr: key, Accept: func(*des.End) {}, Blackhole: func() bool {
				s.Count("fault.dial_unanswered")
				return true
			}})
		case "refuse":
			s.Serve(&des.Service{Addr: key, Accept: func(*des.End) {}, Refuse: func() error { return syscall.ECONNREFUSED }})
		}
		for _, j := range p.Jumps {
			j := j
			s.After(ms(j.AtMs), "clock", func() {
				s.ClockOff += ms(j.DeltaMs)
				s.Count("fault.clock_step")
				s.Logf("clock step %dms", j.DeltaMs)
			})
		}
		s.After(ms(10), "start", func() {
			x.proc = s.NewProc("gen")
			if g.Peer != "receiver" {
				s.SetMain(x.proc)
				simrt.ResetGlobals()
			}
			flag.CommandLine = flag.NewFlagSet("packet-gen", flag.ExitOnError)
			s.Spawn(x.proc, "main", func() {
				vgen.Main()
				simrt.Exit(0)
			})
		})
	}, func() {
		if x.ended < 0 && x.proc != nil && x.proc.Exited {
			x.ended = s.Now()
		}
	})
	w.endAt = s.EndTime
	r := &Result{Infra: infra, Hash: s.Hash(), Ilv: s.Interleaving(), Choices: s.Taken, Log: s.Log(), SimTime: s.EndTime, Steps: s.Steps, Yields: s.Yields, Preempts: s.Preempts, Frags: s.Frags, Overrun: s.Overrun, Stats: s.Stats, Probes: w.probes}
	if infra == "" {
		x.judge()
		r.Nontrivial = x.proc != nil && x.proc.Exited
	}
	r.Viol = w.Viol
	r.w = w
	return r
}

func (x *genRun) accept(e *des.End) {
	w, g, s := x.w, x.g, x.w.S
	x.conns++
	if x.conns > 1 {
		return
	}
	x.opened = s.Now()
	e.Sut().OnWrite = func(b []byte) {
		if x.sent < 0 {
			x.sent = s.Now()
		}
	}
	e.Sut().OnDeliver = func(n int64) {
		x.delivN = n
		if x.replyN > 0 && n >= x.replyN && x.full < 0 {
			x.full = s.Now()
		}
	}
	done := false
	answer := func() {
		if done {
			return
		}
		done = true
		x.written = s.Now()
		s.After(ms(g.ReplyMs), "reply", func() { x.reply(e) })
	}
	e.OnData = func(b []byte) {
		x.got = append(x.got, b...)
		if _, n, _ := ref.NextFrame(x.got); n > 0 {
			answer()
		}
	}
	if g.Freeze > 0 {
		s.Count("fault.partition")
		e.Freeze()
		e.Sut().Freeze()
		s.After(ms(g.Freeze), "thaw", func() {
			e.Thaw()
			e.Sut().Thaw()
		})
	}
	if g.Deaf {
		s.Count("fault.early_end")
		e.Paused = true
		answer()
	}
	_ = w
}

func (x *genRun) reply(e *des.End) {
	g, s := x.g, x.w.S
	end := func() {
		switch g.End {
		case "fin":
			e.CloseWrite()
		case "close":
			e.Close()
		case "abort":
			s.Count("fault.reset")
			e.Abort()
		}
	}
	if last := end; g.Reply != nil && g.End == "abort" {
		// a reset may destroy what is unread, also what a frozen link held back until now
		tries := 0
		var wait func()
		wait = func() {
			if tries++; x.full >= 0 && s.Now()-x.full >= 20*time.Millisecond || tries > 5000 || x.proc.Exited {
				last()
				return
			}
			s.After(20*time.Millisecond*time.Duration(1+tries/20), "unread", wait)
		}
		end = wait
	}
	if g.Reply == nil {
		s.Count("fault.no_answer")
		s.After(ms(g.EndMs), "end", end)
		return
	}
	b := g.Reply.Bytes()
	x.replyN = int64(len(b))
	b = append(b, g.Extra...)
	from := 0
	var next func(i int)
	next = func(i int) {
		if i == len(g.Reply.Cuts) {
			e.Send(b[from:])
			s.After(ms(g.EndMs), "end", end)
			return
		}
		c := g.Reply.Cuts[i]
		if c.Off > from && c.Off < len(b) {
			s.Count("fault.split")
			e.Send(b[from:c.Off])
			from = c.Off
		}
		s.After(ms(c.PauseMs), "rest", func() { next(i + 1) })
	}
	next(0)
}

func (x *genRun) judge() {
	w, g := x.w, x.g
	pr := x.proc
	v := func(class, f string, a ...interface{}) { w.violate("C16", class, f, a...) }
	for _, p := range append([]*des.Proc{pr}, w.procs...) {
		if p.Panic != "" {
			v("panic", "%s crashed: %s\n%s", p.Name, p.Panic, p.Stack)
			return
		}
	}
	limit := time.Duration(g.Timeout) * time.Second
	if !pr.Exited {
		v("hangs", "the generator has not ended %v after it started (timeout %v)", w.endAt, limit)
		return
	}
	ok := pr.Code == 0
	if g.BadArgs != "" {
		w.probe("bad_args")
		if ok {
			v("status", "%s, and the generator exits with status 0", g.BadArgs)
		}
		if x.conns > 0 {
			v("sent", "%s, and the generator connects to the server", g.BadArgs)
		}
		return
	}
	if g.Peer == "refuse" || g.Peer == "none" || g.Peer == "hole" {
		w.probe("refused")
		if ok {
			v("status", "the server cannot be reached and the generator exits with status 0")
		}
		return
	}
	if g.Peer == "receiver" {
		x.judgeReceiver(ok)
		return
	}
	if x.conns == 0 && g.HoleMs > 0 {
		// it may give up before anybody answers
		if ok {
			v("status", "the server cannot be reached and the generator exits with status 0")
		}
		return
	}
	if x.conns == 0 {
		v("no-connection", "the generator ends with status %d without connecting to %v", pr.Code, g.Args)
		return
	}
	if x.conns > 1 {
		v("connections", "the generator connects %d times", x.conns)
	}
	if t := x.ended - x.opened; t > limit+time.Second {
		v("late", "the generator ends %v after it connected, the timeout is %v", t, limit)
	}
	if !g.Deaf {
		x.content()
	}
	// was the confirmation there in time
	in := "any"
	if x.sent >= 0 {
		dl := x.sent + limit
		switch {
		case x.full < 0 || x.full > dl+50*time.Millisecond:
			in = "no"
		case x.full < dl-50*time.Millisecond:
			in = "yes"
		}
	}
	switch {
	case ok && (in == "no" || g.Want == "fail"):
		v("false-success", "the generator exits with status 0, but the server did not confirm the packet in time (reply %s, complete %v, sent %v, timeout %v)", g.Want, x.full, x.sent, limit)
	case !ok && in == "yes" && g.Want == "ok":
		v("false-failure", "the generator exits with status %d although the server confirmed the packet %v after it was sent (timeout %v)", pr.Code, x.full-x.sent, limit)
	}
	switch {
	case ok:
		w.probe("success")
	case in == "no":
		w.probe("no_answer_in_time")
	default:
		w.probe("bad_answer")
	}
}

func (x *genRun) content() {
	g := x.g
	v := func(class, f string, a ...interface{}) { x.w.violate("C16", class, f, a...) }
	f, n, _ := ref.NextFrame(x.got)
	if n == 0 || f.Bad != "" {
		if n == 0 && x.g.Freeze > 0 && x.written < 0 {
			return // never arrived
		}
		v("packet", "the server received %x, not a well-formed packet (%s)", x.got, f.Bad)
		return
	}
	if n != len(x.got) {
		v("more", "the server received %d bytes more than one packet: %x", len(x.got)-n, x.got)
	}
	if f.PT != 1 {
		v("packet", "packet type %d", f.PT)
		return
	}
	if f.PID != g.PID {
		v("content", "packet identifier %d was sent, %d was asked for", f.PID, g.PID)
	}
	b := f.Body
	if len(b) < 7 {
		v("packet", "no record was sent")
		return
	}
	fl, o := b[4], 5
	if n := 7 + 4*(int(fl&1)+int(fl>>1&1)+int(fl>>2&1)); len(b) < n {
		v("packet", "the record is cut short: %x", b)
		return
	}
	if fl&1 == 0 {
		v("content", "no object identifier was sent")
		return
	}
	if id := binary.LittleEndian.Uint32(b[o:]); id != g.OID {
		v("content", "client %d was sent, %d was asked for", id, g.OID)
	}
	for i := uint(0); i < 3; i++ {
		if fl>>i&1 == 1 {
			o += 4
		}
	}
	rl := int(binary.LittleEndian.Uint16(b))
	if o+2+rl != len(b) {
		v("more", "more than one record was sent, or less")
		return
	}
	if b[o] != 2 || b[o+1] != 2 {
		v("content", "the record is for service %d of the server (from service %d), and position data is a matter of service 2", b[o+1], b[o])
	}
	d := b[o+2 : o+2+rl]
	npos, nliq := 0, 0
	for len(d) >= 3 {
		l := int(binary.LittleEndian.Uint16(d[1:]))
		if least := map[byte]int{16: 21, 27: 7}[d[0]]; len(d) < 3+l || l < least {
			v("packet", "a subrecord is cut short: %x", d)
			return
		}
		c := d[3 : 3+l]
		switch d[0] {
		case 16:
			npos++
			if c[12]&1 == 0 {
				v("content", "the position was sent as not valid")
			}
			if t := ref.Epoch + int64(binary.LittleEndian.Uint32(c)); t != g.Unix {
				v("content", "time %d was sent, %d was asked for", t, g.Unix)
			}
			lat := float64(binary.LittleEndian.Uint32(c[4:])) / 4294967295 * 90
			lon := float64(binary.LittleEndian.Uint32(c[8:])) / 4294967295 * 180
			if c[12]&0x20 != 0 {
				lat = -lat
			}
			if c[12]&0x40 != 0 {
				lon = -lon
			}
			if !(math.Abs(lat-g.Lat) < 1e-7) || !(math.Abs(lon-g.Lon) < 1e-7) {
				v("content", "position %v %v was sent, %v %v was asked for", lat, lon, g.Lat, g.Lon)
			}
		case 27:
			nliq++
			if q := binary.LittleEndian.Uint32(c[3:]); q != g.Liq {
				v("content", "liquid level %d was sent, %d was asked for", q, g.Liq)
			}
			if c[0]&7 != 1 {
				v("content", "the level of sensor %d was sent, not of the first", c[0]&7)
			}
		}
		d = d[3+l:]
	}
	if npos != 1 || nliq != 1 {
		v("content", "%d positions and %d levels were sent", npos, nliq)
	}
}

// judgeReceiver: the generator against the real receiver.
func (x *genRun) judgeReceiver(ok bool) {
	w, g := x.w, x.g
	v := func(class, f string, a ...interface{}) { w.violate("C16", class, f, a...) }
	saved := len(w.P.Stores) > 0
	for i := range w.P.Stores {
		n := 0
		for _, o := range w.Saves {
			if o.Store != i || !o.Done {
				continue
			}
			n++
			saved = saved && o.OK
			c := o.N
			if c.Client != g.OID || c.PID != uint32(g.PID) || c.Nav != g.Unix || math.Abs(c.Lat-g.Lat) > 1e-7 || math.Abs(c.Lon-g.Lon) > 1e-7 {
				v("content", "the receiver stored %+v; the generator was given %v", c, g.Args)
			}
			if len(c.Liq) != 1 || c.Liq[0].N != 1 || c.Liq[0].Mm != g.Liq {
				v("content", "the receiver stored levels %+v; the generator was given %v", c.Liq, g.Args)
			}
		}
		if n != 1 {
			saved = false
			if n > 1 || ok {
				v("stored", "store %d was given the record %d times", i, n)
			}
		}
	}
	d := time.Duration(0)
	for _, st := range w.P.Stores {
		d += us(st.DelayMaxUs)
		for _, f := range st.Faults {
			d += ms(f.StallMs)
		}
	}
	limit := time.Duration(g.Timeout) * time.Second
	switch {
	case ok && !saved:
		v("false-success", "the generator exits with status 0 although the record was not stored")
	case !ok && saved && d < limit-200*time.Millisecond:
		v("false-failure", "the generator exits with status %d although the receiver stored the record in time", x.proc.Code)
	}
	w.probe("against_receiver")
	if ok {
		w.probe("success")
	}
}

func genGen(prop string, seed uint64, r *rand.Rand) *Plan {
	pf := base()
	p := &Plan{Prop: prop, Seed: seed, Kind: "gen"}
	gg := &gen{r: r, pf: pf, navs: map[uint32]bool{}, p: p}
	gg.sched()
	gg.network()
	p.ClockYears = 20 + r.Intn(30)
	p.TailMs = 30000
	g := &GenPlan{}
	p.Gen = g
	u16 := func() uint16 {
		switch r.Intn(4) {
		case 0:
			return []uint16{1, 255, 256, 0x7fff, 0x8000, 0xffff}[r.Intn(6)]
		}
		return uint16(1 + r.Intn(65535))
	}
	u32 := func() uint32 {
		switch r.Intn(4) {
		case 0:
			return []uint32{1, 255, 0x7fffffff, 0x80000000, 0xffffffff, 65536}[r.Intn(6)]
		}
		return uint32(1 + r.Int63n(1<<32-1))
	}
	coord := func(lim float64) float64 {
		switch r.Intn(6) {
		case 0:
			return []float64{0, lim, -lim, lim / 2, -lim / 2, 1e-6, -1e-6}[r.Intn(7)]
		case 1:
			return float64(int(lim)-r.Intn(2*int(lim)+1)) + 0
		}
		return math.Round((r.Float64()*2-1)*lim*1e6) / 1e6
	}
	g.PID, g.OID = u16(), u32()
	g.Unix = ref.Epoch + r.Int63n(1<<32)
	if r.Intn(3) > 0 {
		g.Unix = ref.Epoch + r.Int63n(20*365*86400)
	}
	g.Lat, g.Lon = coord(90), coord(180)
	g.Liq = u32()
	g.Port = 1024 + r.Intn(60000)
	g.Timeout = 5
	tz := time.UTC
	if r.Intn(2) == 0 {
		tz = time.FixedZone("x", (r.Intn(28*60)-14*60)*60)
	}
	ts := time.Unix(g.Unix, 0).In(tz).Format(time.RFC3339)
	if r.Intn(6) == 0 {
		ts = time.Unix(g.Unix, int64(r.Intn(1e9))).In(tz).Format(time.RFC3339Nano)
	}
	host := []string{"localhost", "127.0.0.1", "10.2.3.4", "egts.example"}[r.Intn(4)]
	g.Host = host
	opts := map[string]string{
		"pid": strconv.Itoa(int(g.PID)), "oid": strconv.Itoa(int(g.OID)), "time": ts,
		"lat": strconv.FormatFloat(g.Lat, "fg"[r.Intn(2)], -1, 64), "lon": strconv.FormatFloat(g.Lon, "fg"[r.Intn(2)], -1, 64),
		"liquid": strconv.Itoa(int(g.Liq)), "server": fmt.Sprintf("%s:%d", host, g.Port),
	}
	if r.Intn(2) == 0 {
		g.Timeout = 1 + r.Intn(8)
		if r.Intn(6) == 0 {
			g.Timeout = []int{9, 59, 60, 61, 127, 128, 200, 255, 256, 257, 300, 511, 600, 3600, 4000, 65536, 70000}[r.Intn(17)]
		}
		opts["timeout"] = strconv.Itoa(g.Timeout)
	}
	switch r.Intn(8) {
	case 0:
		delete(opts, "lat")
		g.Lat = 0
	case 1:
		delete(opts, "lon")
		g.Lon = 0
	case 2:
		delete(opts, "liquid")
		g.Liq = 0
	case 3:
		delete(opts, "server")
		g.Host, g.Port = "localhost", 5555
	}
	g.Peer = "sim"
	switch k := r.Intn(20); {
	case k == 0:
		g.BadArgs = "no packet identifier is given"
		delete(opts, "pid")
	case k == 1:
		g.BadArgs = "no client identifier is given"
		delete(opts, "oid")
	case k == 2:
		g.BadArgs = "no time is given"
		delete(opts, "time")
	case k == 3:
		g.BadArgs = "the time is not in RFC 3339 format"
		opts["time"] = []string{"yesterday", "2021-12-16 09:12:00", "16.12.2021", "1639645920", "2021-13-16T09:12:00Z", "2021-12-16T09:12:00"}[r.Intn(6)]
	case k == 4:
		g.Peer = []string{"refuse", "none", "hole"}[r.Intn(3)]
		p.TailMs = 150000
	case k < 8:
		g.Peer = "receiver"
	}
	if g.Peer == "receiver" {
		g.Port = 6000
		opts["server"] = "127.0.0.1:6000"
		g.Want = "any"
		p.TTLms = []int{0, 1000 * (1 + r.Intn(20))}[r.Intn(2)]
		for i, n := 0, 1+r.Intn(3); i < n; i++ {
			st := StorePlan{Late: r.Intn(3) == 0, DelayMaxUs: []int{0, 200, 20000}[r.Intn(3)]}
			if r.Intn(3) == 0 {
				f := SaveFault{Nav: uint32(g.Unix - ref.Epoch)}
				switch r.Intn(3) {
				case 0:
					f.Err = true
				case 1:
					f.StallMs = 1 + r.Intn(9000)
				case 2:
					f.Err, f.StallMs = true, 1+r.Intn(9000)
				}
				st.Faults = append(st.Faults, f)
			}
			p.Stores = append(p.Stores, st)
		}
	}
	if g.Peer == "sim" {
		if r.Intn(12) == 0 {
			g.HoleMs = r.Intn(30000)
			p.TailMs += 30000
		}
		genReply(g, r, gg)
	}
	keys := []string{"pid", "oid", "time", "lat", "lon", "liquid", "server", "timeout"}
	r.Shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
	for _, k := range keys {
		if v, ok := opts[k]; ok {
			d := []string{"-", "--"}[r.Intn(2)]
			if r.Intn(2) == 0 {
				g.Args = append(g.Args, d+k+"="+v)
			} else {
				g.Args = append(g.Args, d+k, v)
			}
		}
	}
	if r.Intn(6) == 0 {
		d := []int{-3600000, 3600000, -1000, 5000, 86400000, -30000, 90000}[r.Intn(7)]
		p.Jumps = append(p.Jumps, Jump{AtMs: r.Intn(8000), DeltaMs: d})
	}
	return p
}

// genReply decides what the simulated server does.
func genReply(g *GenPlan, r *rand.Rand, gg *gen) {
	g.End = []string{"keep", "keep", "fin", "close", "abort"}[r.Intn(5)]
	g.EndMs = []int{0, r.Intn(100), 1000 + r.Intn(8000)}[r.Intn(3)]
	if g.End == "abort" && g.EndMs < 50 {
		g.EndMs = 50 + r.Intn(100) // a reset may destroy what is unread
	}
	switch r.Intn(4) {
	case 0:
		g.ReplyMs = r.Intn(g.Timeout * 1000)
	case 1:
		g.ReplyMs = g.Timeout*1000 - 500 + r.Intn(1000)
	default:
		g.ReplyMs = r.Intn(50)
	}
	if r.Intn(10) == 0 {
		g.Freeze = 1 + r.Intn(g.Timeout*1500)
	}
	pk := &ref.Packet{PID: uint16(r.Intn(65536)), PT: 0, RPID: g.PID}
	conf := func(rn uint16, st uint8) ref.Rec {
		return ref.Rec{RN: uint16(r.Intn(65536)), SST: uint8([]int{2, 2, 1, r.Intn(256)}[r.Intn(4)]), RST: uint8([]int{2, 2, 1, r.Intn(256)}[r.Intn(4)]), Hi: uint8([]int{0, 0x10, 0x40}[r.Intn(3)]) & 0xf0 >> 3 << 3, Subs: []ref.Sub{{Conf: &ref.Conf{RN: rn, St: st}}}}
	}
	good := func() {
		pk.Recs = []ref.Rec{conf(1, 0)}
		for k := r.Intn(6); k > 0 && r.Intn(4) == 0; k-- {
			pk.Recs = append(pk.Recs, conf(uint16(r.Intn(65536)), 0))
		}
		for k := r.Intn(4); k > 0 && r.Intn(4) == 0; k-- { // several confirmations in one record
			rc := &pk.Recs[r.Intn(len(pk.Recs))]
			rc.Subs = append(rc.Subs, ref.Sub{Conf: &ref.Conf{RN: uint16(r.Intn(65536))}})
		}
	}
	it := &Item{P: pk}
	g.Reply = it
	g.Want = "ok"
	bad := func() uint8 { return uint8(1 + r.Intn(255)) }
	switch r.Intn(16) {
	default:
		good()
	case 0:
		good()
		pk.PR = bad()
		g.Want = "fail"
	case 1:
		good()
		i := r.Intn(len(pk.Recs))
		j := r.Intn(len(pk.Recs[i].Subs))
		pk.Recs[i].Subs[j].Conf.St = bad()
		g.Want = "fail"
	case 2:
		good()
		for pk.RPID == g.PID {
			pk.RPID = []uint16{g.PID + 1, g.PID ^ 0x100, g.PID ^ 1<<uint(r.Intn(16)), uint16(r.Intn(65536))}[r.Intn(4)]
		}
		if r.Intn(2) == 0 {
			pk.PID = g.PID
		}
		g.Want = "fail"
	case 3: // no record confirmations
		g.Want = "any"
		if r.Intn(2) == 0 {
			pk.PR = bad()
			g.Want = "fail"
		}
	case 4: // not a response
		good()
		pk.PT = []uint8{1, 1, 2, uint8(3 + r.Intn(250))}[r.Intn(4)]
		g.Want = "fail"
	case 5: // damaged
		good()
		b := it.Bytes()
		for k := 1 + r.Intn(3); k > 0; k-- {
			it.Flips = append(it.Flips, Flip{Off: r.Intn(len(b)), Xor: 1 << uint(r.Intn(8))})
		}
		g.Want = "fail"
		if c := it.Class(); c == ClsPoison || c == ClsOK || c == ClsSilent {
			g.Want = "any"
			it2 := Item{P: pk}
			if string(it.Bytes()) == string(it2.Bytes()) {
				g.Want = "ok"
			}
		}
	case 6: // cut short
		good()
		it.Trunc = r.Intn(len(it.Bytes()))
		g.Want = "fail"
		if it.Trunc == 0 {
			g.Reply = nil
		}
	case 7: // nothing
		g.Reply = nil
		g.Want = "fail"
	case 8: // noise
		it.P = nil
		it.Raw = make([]byte, 1+r.Intn(300))
		r.Read(it.Raw)
		if r.Intn(2) == 0 {
			it.Raw = gg.garbage()
			if len(it.Raw) == 0 {
				it.Raw = []byte{1}
			}
		}
		g.Want = "any"
	case 9:
		g.Deaf = true
		g.End = []string{"close", "abort", "fin"}[r.Intn(3)]
		g.Reply = nil
		g.Want = "fail"
		g.ReplyMs = r.Intn(100)
	}
	if g.Reply == nil {
		return
	}
	n := len(it.Bytes())
	if r.Intn(3) == 0 {
		for k := 1 + r.Intn(4); k > 0; k-- {
			it.Cuts = append(it.Cuts, Cut{Off: 1 + r.Intn(n), PauseMs: []int{0, r.Intn(100), r.Intn(g.Timeout * 600)}[r.Intn(3)]})
		}
		for i := range it.Cuts {
			for j := i + 1; j < len(it.Cuts); j++ {
				if it.Cuts[j].Off < it.Cuts[i].Off {
					it.Cuts[i].Off, it.Cuts[j].Off = it.Cuts[j].Off, it.Cuts[i].Off
				}
			}
		}
	}
	if it.Trunc == 0 && it.P != nil && len(it.Flips) == 0 && r.Intn(5) == 0 {
		q := &ref.Packet{PID: uint16(r.Intn(65536)), PT: 1, Recs: []ref.Rec{{RN: 1, SST: 1, RST: 1, Subs: []ref.Sub{{Raw: &ref.Raw{T: 9, D: []byte{0}}}}}}}
		g.Extra = q.Encode()
		if r.Intn(3) == 0 {
			g.Extra = g.Extra[:1+r.Intn(len(g.Extra)-1)]
		}
	}
}
