// Command sim is the deterministic simulator's front end.
//
//	sim check  -prop C01 ...   search seeds, minimise, write evidence (supervisor)
//	sim worker ...             internal: runs seeds
//	sim min    IN OUT          internal: minimises a failing run
//	sim replay FILE            re-executes a replay file and reports whether it reproduces
//	sim one -prop C01 -seed N  one run, with its event log
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"egtsverif/simrt"
	"egtsverif/world"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: sim check|worker|min|replay|one")
		os.Exit(2)
	}
	debug.SetGCPercent(400)
	cmd := os.Args[1]
	os.Args = append(os.Args[:1], os.Args[2:]...)
	switch cmd {
	case "check":
		check()
	case "worker":
		worker()
	case "min":
		minimise()
	case "replay":
		replay()
	case "one":
		one()
	case "diff":
		determinism()
	default:
		fmt.Fprintln(os.Stderr, "unknown command", cmd)
		os.Exit(2)
	}
}

func mix(a, b uint64) uint64 {
	z := a*0x9e3779b97f4a7c15 + b + 0x632be59bd9b4e019
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return (z ^ (z >> 31)) >> 12
}

// Replay is the replay file.
type Replay struct {
	Property  string          `json:"property"`
	Class     string          `json:"class"`
	Violation string          `json:"violation"`
	FoundSeed uint64          `json:"found_with_seed"`
	Hash      string          `json:"trace_hash"`
	Fatal     bool            `json:"fatal,omitempty"` // the run kills the process
	Plan      json.RawMessage `json:"plan"`
	Choices   []int           `json:"choices"`
	Trace     []string        `json:"trace,omitempty"`
}

type report struct {
	Seed  uint64          `json:"seed"`
	Viol  world.Violation `json:"viol"`
	Plan  json.RawMessage `json:"plan"`
	Ch    []int           `json:"ch"`
	Hash  uint64          `json:"hash"`
	Fatal bool            `json:"fatal,omitempty"`
}

// ---- worker

func worker() {
	prop := flag.String("prop", "", "")
	base := flag.Uint64("base", 1, "")
	from := flag.Int("from", 0, "")
	step := flag.Int("step", 1, "")
	runs := flag.Int("runs", 500, "")
	until := flag.Int64("until", 0, "unix nanoseconds")
	flag.Parse()
	out := bufio.NewWriterSize(os.Stdout, 1<<16)
	defer out.Flush()
	for k := 0; k < *runs; k++ {
		if time.Now().UnixNano() > *until {
			break
		}
		i := *from + k**step
		seed := mix(*base, uint64(i))
		fmt.Fprintf(out, "S %d %d\n", i, seed)
		out.Flush()
		p := world.Generate(*prop, seed)
		r := world.Run(p, nil, false)
		st, _ := json.Marshal(r.Stats)
		pr, _ := json.Marshal(r.Probes)
		ov := 0
		if r.Overrun {
			ov = 1
		}
		nt := 0
		if r.Nontrivial {
			nt = 1
		}
		fmt.Fprintf(out, "R %d %d %d %d %d %d %d %d %d %d %s %s\n", seed, r.Hash, r.Ilv, int64(r.SimTime), r.Steps, r.Yields, r.Preempts, r.Frags, ov, nt, st, pr)
		if r.Infra != "" {
			b, _ := json.Marshal(r.Infra)
			fmt.Fprintf(out, "I %d %s\n", seed, b)
		}
		for _, v := range r.Viol {
			if v.Prop != *prop {
				continue
			}
			b, _ := json.Marshal(report{Seed: seed, Viol: v, Plan: p.JSON(), Ch: r.Choices, Hash: r.Hash})
			fmt.Fprintf(out, "V %s\n", b)
		}
		out.Flush()
	}
	fmt.Fprintln(out, "E")
}

// ---- replay

func loadReplay(path string) (*Replay, *world.Plan) {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var rp Replay
	if err := json.Unmarshal(b, &rp); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var p world.Plan
	if err := json.Unmarshal(rp.Plan, &p); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	return &rp, &p
}

func find(vs []world.Violation, prop, class string) *world.Violation {
	for i := range vs {
		if vs[i].Prop == prop && vs[i].Class == class {
			return &vs[i]
		}
	}
	return nil
}

func replay() {
	if os.Getenv("GOMAXPROCS") != "1" {
		reexec("replay")
	}
	verbose := flag.Bool("v", false, "print the event log")
	flag.Parse()
	rp, p := loadReplay(flag.Arg(0))
	ch := rp.Choices
	if ch == nil {
		ch = []int{}
	}
	if rp.Fatal {
		ch = nil
	}
	r := world.Run(p, ch, *verbose)
	if *verbose {
		for _, l := range r.Log {
			fmt.Println(l)
		}
	}
	for _, v := range r.Viol {
		fmt.Printf("%s/%s: %s\n", v.Prop, v.Class, v.Msg)
	}
	v := find(r.Viol, rp.Property, rp.Class)
	same := fmt.Sprintf("%016x", r.Hash) == rp.Hash
	fmt.Printf("trace hash %016x, recorded %s\n", r.Hash, rp.Hash)
	if v != nil && same {
		fmt.Println("REPRODUCED exactly")
		os.Exit(1)
	}
	if v != nil {
		fmt.Println("REPRODUCED with a different trace (the code under test changed?)")
		os.Exit(1)
	}
	fmt.Println("NOT reproduced")
	os.Exit(0)
}

func one() {
	if os.Getenv("GOMAXPROCS") != "1" {
		reexec("one")
	}
	prop := flag.String("prop", "C01", "")
	seed := flag.Uint64("seed", 1, "")
	quiet := flag.Bool("q", false, "")
	flag.Parse()
	p := world.Generate(*prop, *seed)
	r := world.Run(p, nil, !*quiet)
	if !*quiet {
		b, _ := json.MarshalIndent(p, "", " ")
		fmt.Println(string(b))
		for _, l := range r.Log {
			fmt.Println(l)
		}
	}
	for _, v := range r.Viol {
		fmt.Printf("%s/%s known=%q: %s\n", v.Prop, v.Class, v.Known, v.Msg)
	}
	fmt.Printf("hash %016x ilv %016x sim %v steps %d yields %d preempts %d overrun %v infra %q stats %v probes %v\n", r.Hash, r.Ilv, r.SimTime, r.Steps, r.Yields, r.Preempts, r.Overrun, r.Infra, r.Stats, r.Probes)
}

// determinism runs seeds in two orders in one process and prints their hashes.
func determinism() {
	if os.Getenv("GOMAXPROCS") != "1" {
		reexec("diff")
	}
	prop := flag.String("prop", "C01", "")
	n := flag.Int("n", 100, "")
	rev := flag.Bool("rev", false, "")
	prof := flag.String("prof", "", "CPU profile")
	slow := flag.Bool("slow", false, "report slow runs")
	again := flag.Bool("again", false, "also replay the recorded choices")
	flag.Parse()
	if *prof != "" {
		f, err := os.Create(*prof)
		if err == nil {
			pprof.StartCPUProfile(f)
			defer pprof.StopCPUProfile()
		}
	}
	res := make([]string, *n)
	for i := 0; i < *n; i++ {
		k := i
		if *rev {
			k = *n - 1 - i
		}
		p := world.Generate(*prop, mix(7, uint64(k)))
		t0 := time.Now()
		r := world.Run(p, nil, false)
		if d := time.Since(t0); *slow && d > time.Second/4 {
			fmt.Fprintf(os.Stderr, "run %d: %v, %d terms, %d items, sched %+v, steps %d yields %d\n", k, d, len(p.Terms), items(p), p.Sched, r.Steps, r.Yields)
		}
		if *again {
			r2 := world.Run(p.Clone(), append([]int{}, r.Choices...), false)
			if r2.Hash != r.Hash || r2.Ilv != r.Ilv {
				fmt.Printf("replay of %d differs\n", k)
				a := world.Run(p.Clone(), append([]int{}, r.Choices...), true)
				b := world.Run(p.Clone(), append([]int{}, r.Choices...), true)
				fmt.Printf("%016x %016x then %016x %016x\n", r.Hash, r2.Hash, a.Hash, b.Hash)
				if f := os.Getenv("SIM_KEEP"); f != "" {
					os.WriteFile(f, []byte(strings.Join(a.Log, "\n")+"\n"), 0o644)
				}
				for i := 0; i < len(a.Log) && i < len(b.Log); i++ {
					if a.Log[i] != b.Log[i] {
						fmt.Printf("event %d\n< %s\n> %s\n", i, a.Log[i], b.Log[i])
						break
					}
				}
			}
		}
		res[k] = fmt.Sprintf("%d %016x %016x %d", k, r.Hash, r.Ilv, r.Yields)
	}
	for _, l := range res {
		fmt.Println(l)
	}
}

func childEnv() []string {
	var env []string
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GOMAXPROCS=") || strings.HasPrefix(e, "GODEBUG=") || strings.HasPrefix(e, "GOTRACEBACK=") || strings.HasPrefix(e, "GOGC=") {
			continue
		}
		env = append(env, e)
	}
	return append(env, "GOMAXPROCS=1", "GODEBUG=asyncpreemptoff=1", "GOTRACEBACK=single")
}

func reexec(cmd string) {
	self, err := os.Executable()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	err = syscall.Exec(self, append([]string{self, cmd}, os.Args[1:]...), childEnv())
	fmt.Fprintln(os.Stderr, err)
	os.Exit(2)
}

// ---- supervisor

type stats struct {
	runs, overruns, nontrivial   int64
	simTime                      int64
	steps, yields, preempts, frs int64
	faults                       map[string]int64
	probes                       map[string]int64
	ilv                          map[uint64]bool
	hashes                       map[uint64]uint64
	traces                       map[uint64]bool
	samples                      []map[string]interface{}
}

func check() {
	prop := flag.String("prop", "", "property id")
	secs := flag.Float64("secs", 30, "seconds of search")
	maxRuns := flag.Int("max-runs", 0, "stop after this many runs (0: no limit)")
	seed := flag.Uint64("seed", 1, "base seed")
	tier := flag.String("tier", "quick", "quick or thorough")
	evid := flag.String("evidence", "", "evidence file")
	repd := flag.String("replays", "", "directory for replay files")
	knownF := flag.String("known", "", "known-findings file")
	procs := flag.Int("procs", 0, "worker processes")
	sites := flag.String("sites", "", "site table")
	built := flag.Float64("build-s", 0, "seconds spent building")
	flag.Parse()
	_ = sites
	start := time.Now()
	n := *procs
	if n <= 0 {
		n = runtime.NumCPU()
		if n > 8 {
			n = 8
		}
	}
	known := loadKnown(*knownF)
	self, err := os.Executable()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	deadline := start.Add(time.Duration(*secs * float64(time.Second)))
	var mu sync.Mutex
	st := stats{faults: map[string]int64{}, probes: map[string]int64{}, ilv: map[uint64]bool{}, hashes: map[uint64]uint64{}, traces: map[uint64]bool{}}
	var found []report
	knownSeen := map[string]string{}
	stop := make(chan struct{})
	var once sync.Once
	halt := func() { once.Do(func() { close(stop) }) }
	var infra []string
	next := 0
	const chunk = 60
	var wg sync.WaitGroup
	for w := 0; w < n; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for {
				select {
				case <-stop:
					return
				default:
				}
				if time.Now().After(deadline) {
					return
				}
				mu.Lock()
				from := next
				next += chunk
				mu.Unlock()
				if *maxRuns > 0 && from >= *maxRuns {
					return
				}
				cmd := exec.Command(self, "worker", "-prop", *prop, "-base", fmt.Sprint(*seed), "-from", fmt.Sprint(from), "-step", "1", "-runs", fmt.Sprint(chunk), "-until", fmt.Sprint(deadline.UnixNano()))
				cmd.Env = childEnv()
				cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
				pipe, _ := cmd.StdoutPipe()
				var errb tail
				cmd.Stderr = &errb
				if err := cmd.Start(); err != nil {
					mu.Lock()
					infra = append(infra, err.Error())
					mu.Unlock()
					halt()
					return
				}
				beat := make(chan struct{}, 1)
				done := make(chan struct{})
				hung := false
				go func() {
					t := time.NewTimer(120 * time.Second)
					for {
						select {
						case <-beat:
							if !t.Stop() {
								select {
								case <-t.C:
								default:
								}
							}
							t.Reset(120 * time.Second)
						case <-t.C:
							hung = true
							cmd.Process.Kill()
							return
						case <-stop:
							cmd.Process.Kill()
							return
						case <-done:
							return
						}
					}
				}()
				rd := bufio.NewReaderSize(pipe, 1<<20)
				var cur uint64
				ended := false
				open := false
				for {
					line, err := rd.ReadString('\n')
					if err != nil {
						break
					}
					select {
					case beat <- struct{}{}:
					default:
					}
					line = strings.TrimSuffix(line, "\n")
					switch {
					case strings.HasPrefix(line, "S "):
						f := strings.Fields(line)
						cur, _ = strconv.ParseUint(f[2], 10, 64)
						open = true
					case strings.HasPrefix(line, "R "):
						open = false
						mu.Lock()
						st.add(*prop, line)
						mu.Unlock()
					case strings.HasPrefix(line, "I "):
						mu.Lock()
						infra = append(infra, line)
						mu.Unlock()
						halt()
					case strings.HasPrefix(line, "V "):
						var rp report
						if json.Unmarshal([]byte(line[2:]), &rp) == nil {
							mu.Lock()
							if rp.Viol.Known != "" && known[*prop+"/"+rp.Viol.Known] {
								if _, ok := knownSeen[rp.Viol.Known]; !ok {
									knownSeen[rp.Viol.Known] = rp.Viol.Msg
								}
							} else {
								found = append(found, rp)
								halt()
							}
							mu.Unlock()
						}
					case line == "E":
						ended = true
					}
				}
				err := cmd.Wait()
				close(done)
				if !ended {
					select {
					case <-stop:
						return
					default:
					}
					if open {
						// the run killed the worker: does it do so again?
						mu.Lock()
						if fatal, msg := confirmFatal(self, *prop, cur, hung); fatal {
							p := world.Generate(*prop, cur)
							found = append(found, report{Seed: cur, Fatal: true, Plan: p.JSON(), Viol: world.Violation{Prop: *prop, Class: "fatal", Msg: msg}})
						} else {
							infra = append(infra, fmt.Sprintf("worker died (%v) in the run of seed %d, not reproducible: %s", err, cur, errb.String()))
						}
						mu.Unlock()
						halt()
						return
					}
				}
			}
		}(w)
	}
	wg.Wait()
	searchS := time.Since(start).Seconds()

	// report
	violations := 0
	var outRep string
	var final *report
	if len(found) > 0 {
		sort.Slice(found, func(i, j int) bool { return len(found[i].Ch) < len(found[j].Ch) })
		for i := range found {
			if i >= 4 {
				break
			}
			if path, v, ok := shrink(self, *prop, *repd, &found[i], 60*time.Second); ok {
				outRep = path
				final = &found[i]
				if v != "" {
					final.Viol.Msg = v
				}
				violations = 1
				break
			}
		}
		if final == nil {
			infra = append(infra, fmt.Sprintf("a violation was seen and does not reproduce: seed %d %s", found[0].Seed, found[0].Viol.Msg))
		}
	}
	if *evid != "" {
		writeEvidence(*evid, *prop, *tier, *seed, &st, searchS, *built, n, violations, knownSeen, final)
	}
	var ks []string
	for k := range knownSeen {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", *prop, k, oneLine(knownSeen[k]))
	}
	fmt.Printf("%s: %d simulated runs in %.1f s (%.0f per hour), %.0f s of simulated time, %d distinct interleavings\n", *prop, st.runs, searchS, float64(st.runs)/searchS*3600, float64(st.simTime)/1e9, len(st.ilv))
	if final != nil {
		fmt.Printf("violated (%s, seed %d): %s\n", final.Viol.Class, final.Seed, final.Viol.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, outRep)
		os.Exit(1)
	}
	if len(infra) > 0 {
		fmt.Fprintf(os.Stderr, "check error: %s\n", infra[0])
		os.Exit(2)
	}
	if st.runs == 0 {
		fmt.Fprintln(os.Stderr, "check error: no run completed")
		os.Exit(2)
	}
}

func oneLine(s string) string { return strings.ReplaceAll(s, "\n", " ") }

type tail struct{ b []byte }

func (t *tail) Write(p []byte) (int, error) {
	t.b = append(t.b, p...)
	if len(t.b) > 6000 {
		t.b = append(t.b[:3000:3000], t.b[len(t.b)-3000:]...)
	}
	return len(p), nil
}
func (t *tail) String() string { return string(t.b) }

func confirmFatal(self, prop string, seed uint64, hung bool) (bool, string) {
	cmd := exec.Command(self, "one", "-prop", prop, "-seed", fmt.Sprint(seed), "-q")
	cmd.Env = childEnv()
	var errb tail
	cmd.Stderr = &errb
	cmd.Stdout = io.Discard
	if cmd.Start() != nil {
		return false, ""
	}
	ch := make(chan error, 1)
	go func() { ch <- cmd.Wait() }()
	select {
	case err := <-ch:
		if err == nil {
			return false, ""
		}
		return !hung, "the receiver process dies with a fatal error: " + errb.String()
	case <-time.After(150 * time.Second):
		cmd.Process.Kill()
		return hung, "the code under test runs without end between two scheduling points"
	}
}

func (st *stats) add(prop, line string) {
	f := strings.SplitN(line, " ", 13)
	if len(f) < 13 {
		return
	}
	u := func(i int) uint64 { v, _ := strconv.ParseUint(f[i], 10, 64); return v }
	st.runs++
	st.ilv[u(3)] = true
	st.simTime += int64(u(4))
	st.steps += int64(u(5))
	st.yields += int64(u(6))
	st.preempts += int64(u(7))
	st.frs += int64(u(8))
	st.overruns += int64(u(9))
	if u(10) == 1 {
		st.nontrivial++
		st.traces[u(2)] = true
	}
	var m map[string]int64
	if json.Unmarshal([]byte(f[11]), &m) == nil {
		for k, v := range m {
			st.faults[k] += v
		}
	}
	var pm map[string]int64
	if json.Unmarshal([]byte(f[12]), &pm) == nil {
		for k, v := range pm {
			st.probes[k] += v
		}
	}
	if len(st.samples) < 3 {
		st.samples = append(st.samples, map[string]interface{}{"seed": u(1), "trace_hash": fmt.Sprintf("%016x", u(2)), "interleaving": fmt.Sprintf("%016x", u(3)), "simulated_s": float64(u(4)) / 1e9, "events": u(5), "statements": u(6), "counts": m, "plan": summary(prop, u(1))})
	}
}

func summary(prop string, seed uint64) interface{} {
	p := world.Generate(prop, seed)
	return p.Summary()
}

func loadKnown(path string) map[string]bool {
	m := map[string]bool{}
	if path == "" {
		return m
	}
	b, err := os.ReadFile(path)
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known:") {
			continue
		}
		var prop, id string
		for _, f := range strings.Fields(l) {
			if v, ok := strings.CutPrefix(f, "property="); ok {
				prop = v
			}
			if v, ok := strings.CutPrefix(f, "id="); ok {
				id = v
			}
		}
		if prop != "" && id != "" {
			m[prop+"/"+id] = true
		}
	}
	return m
}

// shrink minimises a report in a child process and verifies, in another fresh
// one, that the replay file reproduces it exactly.
func shrink(self, prop, dir string, rp *report, limit time.Duration) (path, msg string, ok bool) {
	if dir == "" {
		dir = os.TempDir()
	}
	os.MkdirAll(dir, 0o755)
	path = filepath.Join(dir, fmt.Sprintf("%s-%d.json", prop, rp.Seed))
	if rp.Fatal {
		b, _ := json.MarshalIndent(Replay{Property: prop, Class: "fatal", Violation: rp.Viol.Msg, FoundSeed: rp.Seed, Fatal: true, Plan: rp.Plan}, "", " ")
		return path, "", os.WriteFile(path, b, 0o644) == nil
	}
	in := path + ".raw"
	b, _ := json.Marshal(Replay{Property: prop, Class: rp.Viol.Class, Violation: rp.Viol.Msg, FoundSeed: rp.Seed, Hash: fmt.Sprintf("%016x", rp.Hash), Plan: rp.Plan, Choices: rp.Ch})
	if d := os.Getenv("SIM_KEEP"); d != "" {
		os.WriteFile(d, b, 0o644)
	}
	if os.WriteFile(in, b, 0o644) != nil {
		return "", "", false
	}
	defer os.Remove(in)
	os.Remove(path)
	cmd := exec.Command(self, "min", "-secs", fmt.Sprint(int(limit.Seconds())), in, path)
	cmd.Env = childEnv()
	cmd.Stderr = os.Stderr
	t := time.AfterFunc(limit+60*time.Second, func() { cmd.Process.Kill() })
	err := cmd.Run()
	t.Stop()
	if err != nil {
		os.Remove(path)
	}
	if _, err := os.Stat(path); err != nil {
		os.WriteFile(path, b, 0o644)
	}
	if !verify(self, path) {
		os.WriteFile(path, b, 0o644)
		if !verify(self, path) {
			return "", "", false
		}
	}
	r, _ := loadReplay(path)
	return path, r.Violation, true
}

func verify(self, path string) bool {
	cmd := exec.Command(self, "replay", path)
	cmd.Env = childEnv()
	out, err := cmd.Output()
	_ = err
	return strings.Contains(string(out), "REPRODUCED exactly")
}

var _ = simrt.Goid

func items(p *world.Plan) (n int) {
	for i := range p.Terms {
		n += len(p.Terms[i].Items)
	}
	return
}
