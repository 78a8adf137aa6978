package world

import (
	"fmt"
	"io"
	stdlog "log"
	"runtime"
	"runtime/debug"
	"runtime/metrics"

	"egtsverif/des"
	"egtsverif/ref"
	"egtsverif/simrt"

	"github.com/go-sql-driver/mysql"
)

// Run executes a plan; with choices nil the schedule is drawn from the seed,
// otherwise it is replayed.
func Run(p *Plan, choices []int, keepLog bool) *Result {
	var r *Result
	if !warm[p.Kind] {
		// whatever libraries set up on first use is set up before a run that counts
		warm[p.Kind] = true
		n := map[string]int{"main": 12, "gen": 4, "lib": 4}[p.Kind]
		prop := p.Prop
		if p.Kind == "main" && prop != "C15" {
			prop = "C14"
		}
		for i := 0; i < n; i++ {
			Run(Generate(prop, uint64(1000+i)), nil, false)
		}
	}
	tidy()
	defer simrt.Seed(false, 0)
	switch p.Kind {
	case "main":
		r = RunMain(p, choices, keepLog)
	case "gen":
		r = RunGen(p, choices, keepLog)
	case "lib":
		r = RunLib(p, choices, keepLog)
	default:
		r = RunServer(p, choices, keepLog)
	}
	if p.Solo > 0 && r.Infra == "" {
		soloCompare(p, r)
	}
	r.w = nil
	return r
}

// tidy collects garbage between runs, so that none is collected during one.
func tidy() {
	if !tidied {
		tidied = true
		debug.SetGCPercent(-1)
		debug.SetMemoryLimit(2 << 30)
		stdlog.SetOutput(io.Discard)
		mysql.SetLogger(stdlog.New(io.Discard, "", 0))
	}
	metrics.Read(heap)
	if heap[0].Value.Uint64() > 200<<20 {
		runtime.GC()
	}
}

var tidied bool
var warm = map[string]bool{}
var heap = []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}

// soloCompare runs one terminal of the plan alone and demands that the presence
// of the others changed nothing in what it got and what was stored for it.
func soloCompare(p *Plan, r *Result) {
	k := p.Solo - 1
	if k >= len(p.Terms) || p.Terms[k].Bad || p.Terms[k].Retry || len(p.Crashes) > 0 || p.StopMs > 0 {
		return
	}
	q := p.Clone()
	q.Solo = 0
	q.Terms = []TermPlan{q.Terms[k]}
	q.AcceptErrs = nil
	q.Sched = des.Sched{}
	run := RunServer
	if p.Kind == "main" {
		for i := range p.Stores {
			if len(p.Stores[i].B.Outages) > 0 {
				return
			}
		}
		run = RunMain
	}
	a := run(q, nil, false)
	if a.Infra != "" {
		r.Infra = "solo: " + a.Infra
		return
	}
	r.Stats["solo_compared"]++
	mine := map[int64]bool{}
	for i := range q.Terms[0].Items {
		if pk := q.Terms[0].Items[i].P; pk != nil {
			for x := range pk.Recs {
				for y := range pk.Recs[x].Subs {
					if ps := pk.Recs[x].Subs[y].Pos; ps != nil {
						mine[ref.Epoch+int64(ps.Nav)] = true
					}
				}
			}
		}
	}
	view := func(w *W, term int) (bool, string, string) {
		if w.S.Overrun {
			return false, "", ""
		}
		out := ""
		n := 0
		for _, c := range w.Conns {
			if c.Term != term {
				continue
			}
			n++
			if !w.intact(c) || c.E.Delivered < c.sentN {
				return false, "", ""
			}
			out += fmt.Sprintf("%x|", c.wrote)
		}
		if n != 1 {
			return false, "", ""
		}
		st := ""
		for i := range w.P.Stores {
			st += fmt.Sprintf("store %d:", i)
			for _, o := range w.Saves {
				if o.Store == i && o.Done && !o.Ambig && mine[o.N.Nav] {
					x := o.N
					x.Recv = 0
					st += fmt.Sprintf(" %+v ok=%v;", x, o.OK)
				}
			}
		}
		return true, out, st
	}
	ok1, out1, st1 := view(a.w, 0)
	ok2, out2, st2 := view(r.w, k)
	if !ok1 || !ok2 {
		return
	}
	if out1 != out2 {
		r.w.violate("C06", "differs", "terminal t%d alone gets %s; with the others connected it gets %s", k, out1, out2)
	}
	if st1 != st2 {
		r.w.violate("C06", "differs", "records stored for terminal t%d when alone: %s; with the others connected: %s", k, st1, st2)
	}
	r.Viol = r.w.Viol
}

func (w *W) nontrivial() bool {
	acc, served := 0, 0
	for _, c := range w.Conns {
		if c.E.Accepted >= 0 {
			acc++
		}
		if len(c.Frames) > 0 {
			served++
		}
	}
	bad := w.S.Stats["fault.corruption"] + w.S.Stats["fault.malformed"] + w.S.Stats["fault.framing_destroyed"]
	switch w.P.Prop {
	case "C02":
		return len(w.Saves) > 0 && served > 0
	case "C04", "C05":
		return bad > 0 && acc > 0
	case "C06":
		return acc > 1
	case "C07", "C11":
		return acc > 0
	case "C10":
		for i := range w.P.Terms {
			for j := range w.P.Terms[i].Items {
				if w.P.Terms[i].Items[j].Auth() {
					return acc > 0
				}
			}
		}
		return false
	case "C12":
		return acc > 1 && served > 0
	}
	return len(w.Saves) > 0
}

// Summary describes a plan in a few words, for evidence samples.
func (p *Plan) Summary() interface{} {
	m := map[string]interface{}{"kind": p.Kind, "sched": fmt.Sprintf("mode %d every %d change %d", p.Sched.Mode, p.Sched.Every, p.Sched.Change)}
	if p.Main != nil {
		m["config"] = p.Main.YAML
		m["args"] = p.Main.Args
		n := 0
		for _, s := range p.Stores {
			n += len(s.B.Outages)
		}
		m["outages"] = n
	}
	if p.Kind == "server" || p.Kind == "main" {
		m["ttl_ms"] = p.TTLms
		m["stores"] = len(p.Stores)
		var ts []string
		for i := range p.Terms {
			t := &p.Terms[i]
			s := ""
			for j := range t.Items {
				s += t.Items[j].Class() + " "
			}
			ts = append(ts, s+"/"+t.End)
		}
		m["terminals"] = ts
		n := 0
		for _, s := range p.Stores {
			n += len(s.Faults)
		}
		m["store_faults"] = n
		m["crashes"] = len(p.Crashes)
	}
	return m
}

// NontrivialRule says when a run counts.
func NontrivialRule(prop string) string {
	switch prop {
	case "C02":
		return "at least one record reached a store and at least one packet was answered"
	case "C04", "C05":
		return "a connection was accepted and at least one damaged, malformed or hostile item was sent on it"
	case "C06":
		return "at least two connections were accepted"
	case "C07", "C11":
		return "at least one connection was accepted"
	case "C10":
		return "a connection was accepted and a terminal asked for authorisation"
	case "C12":
		return "at least two connections were accepted and a packet was answered"
	case "C14", "C15":
		return "the real main program ran and reached the point of serving or of refusing to start"
	case "C16":
		return "the real packet generator ran to its exit"
	case "C17", "C18", "C21":
		return "at least two library operations ran, interleaved"
	}
	return "at least one record was handed to a store"
}

// mainToo: properties of which part of the runs are runs of the whole program.
var mainToo = map[string]bool{"C01": true, "C02": true, "C03": true, "C05": true, "C06": true, "C07": true, "C09": true, "C12": true, "C13": true, "C20": true}

// RealComponents lists what ran real code.
func RealComponents(prop string) []string {
	std := "Go standard library: net above the socket (connections, listeners, deadlines, resolver order), io, bufio, context, time, sync"
	switch prop {
	case "C14", "C15":
		return []string{"cli/receiver main program (flags, configuration loading, wiring, fallback, log setup)", "cli/receiver/server", "cli/receiver/storage and its PostgreSQL, MySQL, Redis, Tarantool, NATS and RabbitMQ connectors", "libs/egts", "the drivers: lib/pq, go-sql-driver/mysql, go-redis, go-tarantool, nats.go, streadway/amqp, database/sql, yaml, logrus", std}
	case "C16":
		return []string{"cli/packet-gen main program (flags, dial, write, read, exit status)", "libs/egts", "in part of the runs cli/receiver/server and cli/receiver/storage as its peer", std}
	case "C17", "C18", "C21":
		return []string{"libs/egts (packet, record and subrecord encoding and decoding, lengths, JSON)", "golang/protobuf, encoding/json, logrus"}
	}
	if mainToo[prop] {
		return []string{"cli/receiver/server (accept loop, connection handlers, response building)", "cli/receiver/storage (repository, record serialisation)", "libs/egts (decoder and encoder)", "in one run of twelve the cli/receiver main program with its database and broker connectors and drivers", "logrus", std}
	}
	return []string{"cli/receiver/server (accept loop, connection handlers, response building)", "cli/receiver/storage (repository, record serialisation)", "libs/egts (decoder and encoder)", "logrus", std}
}

// StubComponents lists what was simulated.
func StubComponents(prop string) []string {
	env := []string{"TCP sockets and their kernel (delivery, windows, resets, accept queue, port reservation)", "wall and monotonic clock, timers", "goroutine scheduler, select and map order, random numbers"}
	switch prop {
	case "C14", "C15":
		return append(env, "terminals", "the database and broker servers: each is a simulated server that speaks the driver's wire protocol and keeps what it was given", "host name resolution", "process exit and restart", "os.Exit, standard output")
	case "C16":
		return append(env, "the server the packet is sent to (except where the real receiver is the peer)", "storages of that receiver", "os.Exit, standard output")
	case "C17", "C18", "C21":
		return []string{"the programs that use the library (senders and receivers)", "the network between them (delay, loss, duplication, reordering, damage)", "encryption keys behind the SecretKey interface", "clock", "goroutine scheduler, map order, random numbers, sync.Pool"}
	}
	if mainToo[prop] {
		env = append(env, "in the runs of the main program: database and broker servers that speak the drivers' wire protocols, host name resolution, os.Exit")
	}
	return append(env, "terminals", "storage back ends behind the Store interface", "process crash and restart")
}

// Assumptions of the simulation.
func Assumptions(prop string) []string {
	a := []string{
		"Goroutines of the repository are switched between statements (and at every blocking operation), not inside one; word-level data races within a statement are not simulated.",
		"Only sampled seeds are explored; absence of a violation is evidence, not proof.",
	}
	switch prop {
	case "C17", "C18", "C21":
		return append(a, "A package is used by one goroutine at a time, as Encode stores computed lengths in it; different packages are used at the same time.")
	}
	return append(a, "The simulated TCP delivers bytes in order, without loss inside a connection; loss shows as stalls, resets and closed connections.")
}
