package world

import (
	"math/rand"
	"reflect"

	"egtsverif/des"
	"egtsverif/ref"

	"github.com/kuznetsovin/egts-protocol/libs/egts"
)

// profile says what the environment may do in the runs of one property.
// Probabilities are per mille.
type profile struct {
	terms, items, recs, subs [2]int
	stores                   [2]int

	corrupt, neg, resp, conf, empty, auth int // per item
	poison                                int // per terminal: it also sends garbage
	oid, noPos                            int // per record
	rich                                  int // per record: extra subrecords
	big                                   int // per run: one very large packet
	saveErr, saveStall                    int // per stored record
	stallMs                               [2]int
	allFail                               int // per run: one store always fails
	crash, accept, stop                   int // per run
	keep, fin, clos, abort                int // weights of connection endings
	pause, freeze, part                   int // per terminal
	retry                                 int // per terminal
	cuts, wait                            int // per item
	ttl                                   func(r *rand.Rand) int
	gapMs                                 int
	jump                                  int // per run
	bad                                   int // per run: some terminals are disturbing ones
	debug                                 int
	long, crowd                           int // per run: a long session, many terminals
	resend                                int // per item: sent twice
	same                                  int // per record: time or place of the record before
	stallTTL                              int // per run: storing takes longer than the idle limit
	throng                                int // per run: very many idle connections
}

func rng(r *rand.Rand, x [2]int) int {
	if x[1] <= x[0] {
		return x[0]
	}
	return x[0] + r.Intn(x[1]-x[0]+1)
}

func hit(r *rand.Rand, pm int) bool { return pm > 0 && r.Intn(1000) < pm }

func base() profile {
	return profile{
		terms: [2]int{1, 4}, items: [2]int{1, 5}, recs: [2]int{1, 3}, subs: [2]int{0, 3},
		stores: [2]int{1, 2}, oid: 600, noPos: 150, rich: 300,
		keep: 3, fin: 3, clos: 1, abort: 1, cuts: 250, wait: 300,
		ttl: func(r *rand.Rand) int { return 60000 + r.Intn(60000) }, gapMs: 800, auth: 60, resp: 50, conf: 20,
		freeze: 60, debug: 100, resend: 40, long: 12, crowd: 8, same: 60,
	}
}

func profileOf(prop string, r *rand.Rand) profile {
	p := base()
	switch prop {
	case "C01":
		p.corrupt, p.neg, p.empty = 60, 40, 20
		p.saveErr, p.saveStall, p.stallMs = 40, 60, [2]int{1, 3000}
		p.crash, p.accept = 100, 80
		p.retry, p.pause, p.part = 200, 60, 60
		p.stores = [2]int{1, 3}
		p.big = 30
		p.bad = 100
	case "C02":
		p.saveErr, p.saveStall, p.stallMs = 200, 150, [2]int{1, 5000}
		p.crash, p.retry = 400, 500
		p.stores = [2]int{1, 3}
		p.recs = [2]int{1, 4}
		p.allFail = 100
	case "C03":
		p.corrupt, p.neg, p.empty, p.resp, p.conf = 50, 50, 40, 120, 60
		p.saveErr, p.saveStall, p.stallMs = 30, 60, [2]int{1, 2000}
		p.recs = [2]int{1, 6}
		p.big = 60
		p.pause = 80
		p.noPos = 300
		p.stallTTL = 150
	case "C04":
		p.corrupt, p.neg = 350, 150
		p.recs = [2]int{1, 4}
		p.saveStall, p.stallMs = 30, [2]int{1, 500}
		p.items = [2]int{2, 7}
	case "C05":
		p.poison, p.corrupt, p.neg, p.empty = 800, 100, 80, 30
		p.abort, p.part, p.pause = 4, 150, 60
		p.saveErr = 40
		p.accept = 150
		p.big = 60
		p.rich = 500
		p.bad = 300
	case "C06":
		p.terms = [2]int{2, 5}
		p.bad = 1000
		p.poison, p.corrupt, p.neg = 300, 80, 60
		p.saveErr, p.saveStall, p.stallMs = 40, 80, [2]int{1, 4000}
		p.part, p.pause, p.abort = 150, 150, 2
		p.accept = 60
	case "C07":
		p.terms = [2]int{1, 4}
		p.items = [2]int{0, 4}
		p.keep, p.fin, p.clos, p.abort = 8, 2, 1, 1
		p.part, p.cuts = 300, 500
		p.saveStall, p.stallMs = 60, [2]int{1, 20000}
		p.jump = 300
		p.freeze = 0
		p.ttl = func(r *rand.Rand) int {
			switch r.Intn(7) {
			case 0:
				return 0
			case 2:
				return -1000 * (1 + r.Intn(60))
			case 1:
				return 1000 + r.Intn(2000)
			}
			return 1000 * (2 + r.Intn(30))
		}
	case "C08":
		p.terms = [2]int{1, 6}
		p.oid, p.auth = 350, 250
		p.retry, p.recs = 200, [2]int{1, 4}
		p.saveStall, p.stallMs = 60, [2]int{1, 1000}
		p.corrupt, p.neg = 60, 40
	case "C09":
		p.rich = 900
		p.subs = [2]int{1, 6}
		p.saveStall, p.stallMs = 60, [2]int{1, 1000}
		p.terms = [2]int{1, 4}
	case "C10":
		p.auth = 600
		p.corrupt, p.neg = 60, 60
		p.noPos = 400
		p.saveErr, p.saveStall, p.stallMs = 60, 60, [2]int{1, 1000}
		p.pause = 60
	case "C11":
		p.terms = [2]int{1, 6}
		p.items = [2]int{0, 3}
		p.accept, p.stop = 350, 400
		p.part, p.poison, p.abort, p.clos = 150, 120, 3, 3
		p.crash = 80
		p.ttl = func(r *rand.Rand) int { return 20000 + r.Intn(20000) }
		p.throng = 3
	case "C12":
		p.terms = [2]int{2, 6}
		p.bad = 700
		p.saveStall, p.stallMs = 60, [2]int{2000, 30000}
		p.part, p.pause, p.freeze, p.poison = 250, 250, 150, 150
		p.jump = 80
		p.corrupt, p.neg = 40, 40
		p.stallTTL = 150
		p.throng = 3
	case "C13":
		p.stores = [2]int{2, 4}
		p.saveErr, p.saveStall, p.stallMs = 250, 80, [2]int{1, 2000}
		p.allFail = 200
		p.recs = [2]int{1, 4}
		p.rich = 500
	case "C20":
		p.jump = 500
		p.saveStall, p.stallMs = 200, [2]int{500, 8000}
		p.recs = [2]int{1, 4}
		p.gapMs = 4000
		p.cuts = 500
		p.keep = 6
	}
	return p
}

// Generate makes the plan of run seed for a property.
func Generate(prop string, seed uint64) *Plan {
	r := rand.New(rand.NewSource(int64(seed ^ des.HashString(prop))))
	if mainToo[prop] && r.Intn(12) == 0 {
		return genMain(prop, seed, r) // the whole program, with its real storages
	}
	switch prop {
	case "C14", "C15":
		return genMain(prop, seed, r)
	case "C16":
		return genGen(prop, seed, r)
	case "C17", "C18", "C21":
		return genLib(prop, seed, r)
	}
	pf := profileOf(prop, r)
	g := &gen{r: r, pf: pf, navs: map[uint32]bool{}}
	p := &Plan{Prop: prop, Seed: seed, Kind: "server"}
	g.p = p
	g.sched()
	p.TTLms = pf.ttl(r)
	if hit(r, pf.stallTTL) {
		p.TTLms = 2000 + r.Intn(8000)
		g.pf.saveStall, g.pf.stallMs = 200, [2]int{p.TTLms, 3 * p.TTLms}
	}
	g.network()
	p.Debug = hit(r, pf.debug)
	p.ClockYears = 20 + r.Intn(30)
	if r.Intn(3) == 0 {
		p.Addrs = 1 + r.Intn(3)
	}
	for i, n := 0, rng(r, pf.stores); i < n; i++ {
		st := StorePlan{Late: r.Intn(3) == 0}
		switch r.Intn(3) {
		case 0:
			st.DelayMaxUs = 200
		case 1:
			st.DelayMinUs, st.DelayMaxUs = 100, 20000
		}
		p.Stores = append(p.Stores, st)
	}
	n := rng(r, pf.terms)
	if prop == "C05" && r.Intn(2) == 0 {
		n += 1
	}
	badRun := hit(r, pf.bad)
	switch {
	case hit(r, pf.long):
		g.long = 60 + r.Intn(400)
		g.pf.gapMs, g.pf.recs = 20, [2]int{1, 2}
		n = min(n, 2)
		if r.Intn(3) == 0 { // for days
			p.TTLms = 600000 + r.Intn(6600000)
			g.pf.gapMs = p.TTLms / 20 * (1 + r.Intn(19))
		}
		g.coarse()
	case hit(r, pf.crowd):
		n = 30 + r.Intn(150)
		g.pf.items, g.pf.subs = [2]int{0, 2}, [2]int{0, 1}
		g.coarse()
	}
	throng := hit(r, pf.throng)
	if throng {
		for i, m := 0, 1030+r.Intn(300); i < m; i++ {
			p.Terms = append(p.Terms, TermPlan{StartMs: r.Intn(50), End: "keep", Bad: true})
		}
		g.coarse()
		p.Sched = des.Sched{Mode: 1, Every: 2000}
		if n > 3 {
			n = 3
		}
		p.TTLms = max(p.TTLms, 60000)
	}
	p.TailMs = 120000 + max(p.TTLms, 0)
	for i := 0; i < n; i++ {
		bad := badRun && i > 0 && r.Intn(3) > 0
		t := g.term(bad && !throng)
		if throng {
			t.StartMs += 100
		}
		p.Terms = append(p.Terms, t)
	}
	if hit(r, pf.big) {
		g.addBig()
	}
	for i := range p.Terms {
		// what a terminal is answered must fit through its window in time
		t := &p.Terms[i]
		size := 0
		for _, it := range t.Items {
			size += 60
			if it.P != nil {
				size += 6 * len(it.P.Recs)
			}
		}
		if w := size * p.LatMaxUs / 10000000; t.Window > 0 && t.Window < w {
			t.Window = w
		}
	}
	if hit(r, pf.allFail) && len(p.Stores) > 0 {
		g.failAll(r.Intn(len(p.Stores)))
	}
	if hit(r, pf.accept) {
		es := []string{"EMFILE", "ENFILE", "ECONNABORTED", "ENOBUFS"}
		for k := 1 + r.Intn(3); k > 0; k-- {
			p.AcceptErrs = append(p.AcceptErrs, AcceptErr{N: 1 + r.Intn(6), Err: es[r.Intn(len(es))]})
		}
		if r.Intn(4) == 0 { // a burst
			n, e := 1+r.Intn(4), es[r.Intn(len(es))]
			for k := 5 + r.Intn(40); k > 0; k-- {
				p.AcceptErrs = append(p.AcceptErrs, AcceptErr{N: n + k, Err: e})
			}
		}
	}
	if hit(r, pf.crash) {
		on := []string{"save", "saved", "write", "read", "ms"}
		for k := 1 + r.Intn(2); k > 0; k-- {
			c := Crash{On: on[r.Intn(len(on))], N: 1 + r.Intn(8), RestartMs: r.Intn(2000)}
			if c.On == "ms" {
				c.N = r.Intn(4000)
			}
			if c.On == "read" {
				c.N = 1 + r.Intn(40)
			}
			p.Crashes = append(p.Crashes, c)
		}
	}
	if hit(r, pf.stop) {
		p.StopMs = 1 + r.Intn(5000)
	}
	if hit(r, pf.jump) {
		for k := 1 + r.Intn(3); k > 0; k-- {
			d := []int{-3600000, 3600000, -1000, 5000, 86400000, -30000, 90000}[r.Intn(7)]
			p.Jumps = append(p.Jumps, Jump{AtMs: r.Intn(8000), DeltaMs: d})
		}
	}
	if prop == "C06" {
		p.Solo = 1
	}
	return p
}

type gen struct {
	r    *rand.Rand
	pf   profile
	p    *Plan
	navs map[uint32]bool
	last *ref.Pos // the terminal's position before
	long int
}

func (g *gen) sched() {
	r := g.r
	switch k := r.Intn(10); {
	case k < 3:
		g.p.Sched = des.Sched{Mode: 0}
	case k < 6:
		g.p.Sched = des.Sched{Mode: 1, Every: []int{2, 8, 30, 150}[r.Intn(4)]}
	case k < 8:
		g.p.Sched = des.Sched{Mode: 3, Every: []int{8, 30, 150, 1000}[r.Intn(4)]}
		if g.p.Prop != "C20" && g.p.Prop != "C16" {
			g.p.Sched.HoldUs = []int{0, 0, 100, 3000, 20000}[r.Intn(5)]
		}
	default:
		g.p.Sched = des.Sched{Mode: 2, Change: 1 + r.Intn(4), Span: 200 + r.Intn(3000)}
	}
}

func (g *gen) network() {
	r := g.r
	p := g.p
	switch r.Intn(4) {
	case 0:
	case 1:
		p.LatMaxUs = 2000
	case 2:
		p.LatMinUs, p.LatMaxUs = 1000, 50000
	case 3:
		p.LatMaxUs = 100
	}
	p.ReadMode = []int{0, 1, 1, 2}[r.Intn(4)]
}

func (g *gen) nav() uint32 {
	r := g.r
	for {
		var n uint32
		k := r.Intn(20)
		if g.pf.poison > 0 {
			k = 20 // hostile packets must not hit a real record's time by chance
		}
		switch k {
		case 0:
			n = uint32(r.Intn(3))
		case 1:
			n = 0xffffffff - uint32(r.Intn(100))
		case 2:
			n = r.Uint32()
		case 3:
			n = 0x80000000 + uint32(r.Intn(5)) - 2
		default:
			n = 450000000 + uint32(r.Intn(60000000))
		}
		if !g.navs[n] {
			g.navs[n] = true
			return n
		}
	}
}

func (g *gen) u32() uint32 {
	r := g.r
	switch r.Intn(8) {
	case 0:
		return 0
	case 1:
		return 0xffffffff
	case 2:
		return 1
	case 3:
		return uint32(r.Intn(1000))
	}
	return r.Uint32()
}

func (g *gen) pos() *ref.Pos {
	r := g.r
	p := &ref.Pos{Nav: g.nav(), Lat: g.u32(), Lon: g.u32(), Speed: uint16(r.Intn(0x4000)), Dir: uint8(r.Intn(256)), Odo: r.Uint32() & 0xffffff, Din: uint8(r.Intn(256)), Src: uint8(r.Intn(30)), Low: uint8(r.Intn(32))}
	p.South = r.Intn(3) == 0
	p.West = r.Intn(3) == 0
	if l := g.last; l != nil && hit(r, g.pf.same) {
		// the terminal has not moved, or took two positions in one second
		k := r.Intn(4)
		if k != 0 {
			p.Lat, p.Lon, p.South, p.West, p.Speed, p.Dir = l.Lat, l.Lon, l.South, l.West, l.Speed, l.Dir
		}
		if k < 2 {
			p.Nav = l.Nav
		}
	}
	g.last = p
	p.DirH = r.Intn(4) == 0 && p.Dir <= 103
	if r.Intn(2) == 0 {
		a := r.Intn(9000)
		if r.Intn(4) == 0 {
			a = -a
		}
		p.Alt = &a
	}
	if r.Intn(6) == 0 {
		p.SD = make([]byte, 1+r.Intn(5))
		r.Read(p.SD)
	}
	return p
}

func (g *gen) extra() ref.Sub {
	r := g.r
	u16 := func() *uint16 {
		if r.Intn(3) == 0 {
			return nil
		}
		v := uint16(g.u32())
		return &v
	}
	switch r.Intn(9) {
	case 0, 1:
		e := &ref.Ext{Vdop: u16(), Hdop: u16(), Pdop: u16(), Ns: u16()}
		if r.Intn(3) > 0 {
			v := uint8(r.Intn(256))
			e.Sat = &v
		}
		return ref.Sub{Ext: e}
	case 2:
		a := &ref.Ad{Dio: uint8(r.Intn(256))}
		if r.Intn(2) == 0 {
			a.Octs = uint8(r.Intn(256))
		}
		for i := range a.Oct {
			a.Oct[i] = uint8(r.Intn(256))
		}
		for i := range a.Ans {
			if r.Intn(2) == 0 {
				v := g.u32() & 0xffffff
				a.Ans[i] = &v
			}
		}
		return ref.Sub{Ad: a}
	case 3:
		return ref.Sub{An: &ref.KV{N: uint8(r.Intn(256)), V: g.u32() & 0xffffff}}
	case 4:
		n := []uint8{110, 111, 110, 111, uint8(r.Intn(256))}[r.Intn(5)]
		v := g.u32() & 0xffffff
		if n == 111 {
			v &= 0xff
		}
		return ref.Sub{Cntr: &ref.KV{N: n, V: v}}
	case 5, 6:
		l := &ref.Liq{Err: r.Intn(4) == 0, Unit: uint8(r.Intn(3)), Raw: false, Num: uint8(r.Intn(8)), Addr: uint16(r.Intn(65536)), Val: g.u32()}
		if l.Unit == 2 {
			l.Val &= 0x0fffffff
		}
		return ref.Sub{Liq: l}
	case 7:
		// types the receiver knows and does not store
		switch r.Intn(7) {
		case 5: // a vendor's own record
			v := &egts.StorageRecord{}
			fillProto(reflect.ValueOf(v).Elem(), r)
			return ref.Sub{Raw: &ref.Raw{T: 15, D: protoBytes(reflect.ValueOf(v).Elem())}}
		case 6: // result code
			return ref.Sub{Raw: &ref.Raw{T: 9, D: []byte{byte(r.Intn(256))}}}
		case 3: // module data
			d := []byte{1, 2, 3, 4, 5, 6, 7, 8, 9, 1, 1}
			d = append(append(d, word(r)...), 0)
			return ref.Sub{Raw: &ref.Raw{T: 2, D: append(append(d, word(r)...), 0)}}
		case 4: // dispatcher identity
			return ref.Sub{Raw: &ref.Raw{T: 5, D: append([]byte{byte(r.Intn(3)), byte(r.Intn(256)), 2, 3, 4}, word(r)...)}}
		case 0:
			return ref.Sub{Raw: &ref.Raw{T: 21, D: []byte{1, 2, 3, 4, uint8(r.Intn(8))}}}
		case 1:
			return ref.Sub{Raw: &ref.Raw{T: 20, D: []byte{2, 120, 80, 60, 1}}}
		}
		// counters
		d := []byte{byte(r.Intn(256))}
		for f := d[0]; f != 0; f &= f - 1 {
			d = append(d, byte(r.Intn(256)), byte(r.Intn(256)), byte(r.Intn(256)))
		}
		return ref.Sub{Raw: &ref.Raw{T: 19, D: d}}
	}
	// a type nobody knows
	d := make([]byte, r.Intn(20))
	r.Read(d)
	return ref.Sub{Raw: &ref.Raw{T: uint8(100 + r.Intn(100)), D: d}}
}

// record makes a record; client identity fields as the profile says.
func (g *gen) record() ref.Rec {
	r := g.r
	rec := ref.Rec{RN: uint16(r.Intn(65536)), SST: 2, RST: 2, Hi: uint8(r.Intn(32)) << 3}
	if hit(r, g.pf.oid) {
		v := g.u32()
		if r.Intn(3) > 0 {
			v = 1 + uint32(r.Intn(5))
		}
		rec.OID = &v
	}
	if r.Intn(4) == 0 {
		v := g.u32()
		rec.Ev = &v
	}
	if r.Intn(3) == 0 {
		v := g.u32()
		rec.Tm = &v
	}
	if !hit(r, g.pf.noPos) {
		rec.Subs = append(rec.Subs, ref.Sub{Pos: g.pos()})
	}
	if hit(r, g.pf.rich) {
		lo, hi := false, false
		for k := rng(r, g.pf.subs); k > 0; k-- {
			s := g.extra()
			if s.Cntr != nil {
				// each counter once per record
				if s.Cntr.N == 110 && lo || s.Cntr.N == 111 && hi {
					continue
				}
				lo = lo || s.Cntr.N == 110
				hi = hi || s.Cntr.N == 111
			}
			if r.Intn(3) == 0 && len(rec.Subs) > 0 {
				rec.Subs = append([]ref.Sub{s}, rec.Subs...)
			} else {
				rec.Subs = append(rec.Subs, s)
			}
		}
	}
	return rec
}

func (g *gen) authSub() ref.Sub {
	r := g.r
	if r.Intn(3) == 0 {
		a := &ref.Auth{User: word(r), Pass: word(r)}
		if r.Intn(2) == 0 {
			a.Seq = word(r)
		}
		return ref.Sub{Auth: a}
	}
	t := &ref.Term{TID: g.u32()}
	if r.Intn(2) == 0 {
		t.TID = 1 + uint32(r.Intn(9))
	}
	t.Flags = uint8(r.Intn(256)) &^ 0x10
	if r.Intn(2) == 0 {
		t.Flags = 0
	}
	return ref.Sub{Term: t}
}

func word(r *rand.Rand) string {
	b := make([]byte, 1+r.Intn(8))
	for i := range b {
		b[i] = byte('a' + r.Intn(26))
	}
	return string(b)
}

func (g *gen) packet(pid uint16) *ref.Packet {
	r := g.r
	p := &ref.Packet{PID: pid, PT: 1, Prio: uint8(r.Intn(4)), SKID: uint8(r.Intn(3))}
	if r.Intn(6) == 0 {
		p.HE = uint8(r.Intn(256))
	}
	if r.Intn(8) == 0 {
		p.Route = true
		p.PRA, p.RCA, p.TTL = uint16(r.Intn(65536)), uint16(r.Intn(65536)), uint8(r.Intn(256))
	}
	for k := rng(r, g.pf.recs); k > 0; k-- {
		p.Recs = append(p.Recs, g.record())
	}
	if r.Intn(4) == 0 {
		// another service
		sst := []uint8{1, 3, 4, 9, uint8(r.Intn(256))}[r.Intn(5)]
		for i := range p.Recs {
			p.Recs[i].SST, p.Recs[i].RST = sst, sst
		}
	}
	switch r.Intn(4) {
	case 0: // consecutive record numbers, wrapping
		n := uint16(65530 + r.Intn(12))
		for i := range p.Recs {
			p.Recs[i].RN = n + uint16(i)
		}
	case 1:
		if r.Intn(4) == 0 {
			for i := range p.Recs {
				p.Recs[i].RN = p.Recs[0].RN
			}
		}
	}
	return p
}

// confSt is the status a terminal reports in a confirmation.
func confSt(r *rand.Rand) uint8 {
	if r.Intn(2) == 0 {
		return 0
	}
	return []uint8{1, 128, 137, 153, 155, uint8(r.Intn(256))}[r.Intn(6)]
}

func (g *gen) item(pid uint16) Item {
	r := g.r
	pf := &g.pf
	it := Item{DelayMs: 0}
	switch r.Intn(3) {
	case 0:
		it.DelayMs = r.Intn(pf.gapMs + 1)
	case 1:
		it.DelayMs = r.Intn(20)
	}
	it.Wait = hit(r, pf.wait)
	x := r.Intn(1000)
	lim := pf.resp
	switch {
	case x < lim:
		p := &ref.Packet{PID: pid, PT: 0, RPID: uint16(r.Intn(65536)), PR: confSt(r)}
		if r.Intn(3) > 0 {
			p.Recs = []ref.Rec{{RN: uint16(r.Intn(100)), SST: 2, RST: 2, Subs: []ref.Sub{{Conf: &ref.Conf{RN: uint16(r.Intn(100)), St: confSt(r)}}}}}
		}
		it.P = p
		return g.cut(it)
	case x < lim+pf.empty:
		it.P = &ref.Packet{PID: pid, PT: 1}
		return g.cut(it)
	}
	it.P = g.packet(pid)
	if hit(r, pf.conf) {
		rec := ref.Rec{RN: uint16(r.Intn(100)), SST: 2, RST: 2, Subs: []ref.Sub{{Conf: &ref.Conf{RN: uint16(r.Intn(100)), St: confSt(r)}}}}
		if r.Intn(3) == 0 {
			// together with an authorisation request
			a := ref.Sub{Auth: &ref.Auth{User: word(r), Pass: word(r)}}
			rec.Subs = append([]ref.Sub{a}, rec.Subs...)
		}
		it.P.Recs = []ref.Rec{rec}
		return g.cut(it)
	}
	if hit(r, pf.auth) {
		k := r.Intn(len(it.P.Recs))
		rec := &it.P.Recs[k]
		if r.Intn(2) == 0 {
			// a pure authorisation packet
			it.P.Recs = []ref.Rec{{RN: rec.RN, OID: rec.OID, SST: 1, RST: 1, Subs: []ref.Sub{g.authSub()}}}
		} else if r.Intn(2) == 0 {
			rec.Subs = append([]ref.Sub{g.authSub()}, rec.Subs...)
		} else {
			rec.Subs = append(rec.Subs, g.authSub())
		}
		if r.Intn(4) == 0 {
			// more requests in the same packet
			for n := 1 + r.Intn(2); n > 0; n-- {
				k = r.Intn(len(it.P.Recs))
				it.P.Recs[k].Subs = append(it.P.Recs[k].Subs, g.authSub())
			}
		}
	}
	switch {
	case hit(r, pf.corrupt):
		b := it.P.Encode()
		for k := 1 + r.Intn(2); k > 0; k-- {
			o := 0
			for o == 0 || o == 3 || o == 5 || o == 6 {
				switch r.Intn(4) {
				case 0:
					o = 1 + r.Intn(min(15, len(b)-1))
				case 1:
					o = len(b) - 1 - r.Intn(3)
				default:
					o = 1 + r.Intn(len(b)-1)
				}
			}
			it.Flips = append(it.Flips, Flip{Off: o, Xor: []uint8{1, 128, 0x20, 0x18, uint8(1 + r.Intn(255))}[r.Intn(5)]})
		}
		if it.Class() == ClsPoison {
			it.Flips = it.Flips[:1] // both checksums still match: nobody can tell
		}
	case hit(r, pf.neg):
		switch r.Intn(5) {
		case 0:
			it.P.Ena = uint8(1 + r.Intn(3))
		case 1:
			it.P.PT = uint8(2 + r.Intn(250))
		case 2:
			g.cutSub(it.P)
		default:
			if n := len(it.P.Recs); n > 0 && it.P.PT == 1 && r.Intn(2) == 0 {
				rec := &it.P.Recs[r.Intn(n)]
				sub := g.extra()
				if r.Intn(4) == 0 {
					sub = g.authSub()
				}
				rec.Subs = append(rec.Subs, sub)
				if b, _ := malform(it.P.BodyBytes(), 0, r); b != nil {
					it.P.Body, it.P.Recs = b, nil
				} else {
					rec.Subs = rec.Subs[:len(rec.Subs)-1]
				}
			} else if b, _ := malform(it.P.BodyBytes(), 0, r); b != nil && it.P.PT == 1 {
				it.P.Body, it.P.Recs = b, nil
			}
		}
	}
	for i := range it.P.Recs {
		for j := range it.P.Recs[i].Subs {
			if ps := it.P.Recs[i].Subs[j].Pos; ps != nil {
				g.storeFaults(ps.Nav)
			}
		}
	}
	return g.cut(it)
}

func (g *gen) storeFaults(nav uint32) {
	r := g.r
	for k := range g.p.Stores {
		st := &g.p.Stores[k]
		var f SaveFault
		if hit(r, g.pf.saveErr) {
			f.Err = true
		}
		if hit(r, g.pf.saveStall) {
			f.StallMs = rng(r, g.pf.stallMs)
			if r.Intn(25) == 0 && g.p.Kind == "server" {
				f.StallMs = 60000 + r.Intn(600000)
			}
		}
		if f.Err && r.Intn(2) == 0 {
			f.Kind = r.Intn(len(storeErrs))
		}
		if f != (SaveFault{}) && fault(st, nav) == nil {
			f.Nav = nav
			st.Faults = append(st.Faults, f)
		}
	}
}

// cutSub makes one subrecord too short to decode: it ends before a mandatory
// field.
func (g *gen) cutSub(p *ref.Packet) {
	r := g.r
	k := r.Intn(len(p.Recs))
	rec := &p.Recs[k]
	for j := range rec.Subs {
		s := &rec.Subs[j]
		switch {
		case s.Pos != nil:
			s.Cut = 1 + []int{0, 4, 8, 12, 13, 15, 16, 19, 20}[r.Intn(9)]
			return
		case s.Liq != nil:
			s.Cut = 1 + []int{0, 1, 3}[r.Intn(3)]
			return
		}
	}
	s := ref.Sub{Pos: g.pos()}
	s.Cut = 1 + []int{0, 4, 8, 12, 13, 15, 16, 19, 20}[r.Intn(9)]
	rec.Subs = append(rec.Subs, s)
}

func (g *gen) cut(it Item) Item {
	r := g.r
	if !hit(r, g.pf.cuts) {
		return it
	}
	n := len(it.Bytes())
	last := 0
	for k := 1 + r.Intn(3); k > 0; k-- {
		if last+1 >= n {
			break
		}
		o := last + 1 + r.Intn(n-last-1)
		if r.Intn(3) == 0 && last < 11 && n > 11 {
			o = last + 1 + r.Intn(11-last)
		}
		it.Cuts = append(it.Cuts, Cut{Off: o, PauseMs: []int{0, 1, 10, r.Intn(g.pf.gapMs + 1)}[r.Intn(4)]})
		last = o
	}
	return it
}

func (g *gen) term(bad bool) TermPlan {
	r := g.r
	pf := &g.pf
	g.last = nil
	t := TermPlan{StartMs: []int{0, r.Intn(20), r.Intn(3000)}[r.Intn(3)], Bad: bad}
	pid := uint16(r.Intn(65536))
	step := uint16(1)
	switch r.Intn(8) {
	case 0:
		pid = uint16(65533 + r.Intn(4))
	case 1:
		step = 0
	case 2:
		step = uint16(r.Intn(65536))
	}
	n := rng(r, pf.items)
	if g.long > 0 {
		n, g.long = g.long, 0
	}
	ttl := g.p.TTLms
	c07 := g.p.Prop == "C07"
	for i := 0; i < n; i++ {
		it := g.item(pid)
		pid += step
		if c07 && ttl > 0 {
			it.Wait = false
			// silences clearly shorter than the limit, or clearly longer
			switch r.Intn(6) {
			case 0:
				it.DelayMs = ttl*7/10 - r.Intn(ttl/10+1)
			case 1:
				it.DelayMs = ttl + 3000 + r.Intn(ttl)
			}
			for k := range it.Cuts {
				if r.Intn(3) == 0 {
					it.Cuts[k].PauseMs = ttl * (3 + r.Intn(4)) / 10
				}
			}
		}
		if c07 && ttl == 0 && r.Intn(3) == 0 {
			it.DelayMs = r.Intn(600000)
		}
		t.Items = append(t.Items, it)
		if hit(r, pf.resend) {
			// the terminal sends the packet once more
			again := it
			again.DelayMs = r.Intn(3) / 2 * r.Intn(pf.gapMs+1)
			t.Items = append(t.Items, again)
		}
	}
	w := r.Intn(pf.keep + pf.fin + pf.clos + pf.abort)
	switch {
	case w < pf.keep:
		t.End = "keep"
	case w < pf.keep+pf.fin:
		t.End = "fin"
	case w < pf.keep+pf.fin+pf.clos:
		t.End = "close"
	default:
		t.End = "abort"
	}
	t.EndMs = []int{0, r.Intn(50), r.Intn(2000)}[r.Intn(3)]
	if !c07 {
		t.Retry = hit(r, pf.retry)
	}
	if n > 0 {
		if hit(r, pf.pause) {
			t.PauseAt = 1 + r.Intn(n)
			t.PauseMs = 1 + r.Intn(8000)
			t.Window = 1 + r.Intn(120)
		}
		if hit(r, pf.freeze) {
			t.FreezeAt = 1 + r.Intn(n)
			t.FreezeMs = 1 + r.Intn(6000)
		}
		if hit(r, pf.part) {
			it := g.item(pid)
			pid++
			it.Flips = nil
			b := it.P.Encode()
			it.Trunc = 1 + r.Intn(len(b)-1)
			t.Items = append(t.Items, it)
			t.Retry = false
		}
	} else if hit(r, pf.part) {
		it := g.item(pid)
		it.Flips = nil
		b := it.P.Encode()
		it.Trunc = 1 + r.Intn(len(b)-1)
		t.Items = append(t.Items, it)
	}
	if (bad || g.p.Prop == "C05" || g.p.Prop == "C11") && hit(r, pf.poison) {
		for k := 1 + r.Intn(3); k > 0; k-- {
			t.Items = append(t.Items, Item{Raw: g.garbage(), DelayMs: r.Intn(300)})
		}
		t.Retry = false
	}
	return t
}

// garbage is hostile input: from plain noise to packets that are right in every
// checksum and wrong inside.
func (g *gen) garbage() []byte {
	r := g.r
	g.last = nil // never the time of a real record
	same := g.pf.same
	g.pf.same = 0
	defer func() { g.pf.same, g.last = same, nil }()
	noise := func(n int) []byte {
		b := make([]byte, n)
		r.Read(b)
		return b
	}
	switch r.Intn(8) {
	case 0:
		return noise(1 + r.Intn(60))
	case 1:
		b := noise(10 + r.Intn(80))
		b[0] = 1
		return b
	case 2: // header lengths and body lengths of every size, checksum right
		b := g.packet(uint16(r.Intn(65536))).Encode()
		b[3] = []byte{0, 1, 2, 9, 10, 11, 12, 15, 16, 17, 100, 255, byte(r.Intn(256))}[r.Intn(13)]
		if r.Intn(2) == 0 {
			v := []int{0, 1, 2, 3, 65535, 65534, 65524, 65525, r.Intn(65536)}[r.Intn(9)]
			b[5], b[6] = byte(v), byte(v>>8)
		}
		g.fixHeader(b)
		if r.Intn(2) == 0 {
			b = append(b, noise(r.Intn(400))...)
		}
		return b
	case 3: // flags
		b := g.packet(uint16(r.Intn(65536))).Encode()
		b[2] = byte(r.Intn(256))
		b[3] = []byte{11, 16, 11, 16, byte(r.Intn(40))}[r.Intn(5)]
		g.fixHeader(b)
		return b
	default: // body damaged, checksums right
		p := g.packet(uint16(r.Intn(65536)))
		if r.Intn(3) == 0 {
			p.Recs[0].Subs = append(p.Recs[0].Subs, g.rawSub())
		}
		if r.Intn(5) == 0 {
			p.PT = 0
		}
		body := append([]byte(nil), p.BodyBytes()...)
		for k := 1 + r.Intn(4); k > 0 && len(body) > 0; k-- {
			switch r.Intn(5) {
			case 0:
				body[r.Intn(len(body))] = byte(r.Intn(256))
			case 1:
				body = body[:r.Intn(len(body))+1]
			case 2:
				o := r.Intn(len(body))
				body = append(body[:o:o], append(noise(1+r.Intn(5)), body[o:]...)...)
			case 3:
				body[r.Intn(len(body))] = []byte{0, 255, 1, 128, 127}[r.Intn(5)]
			case 4:
				o := r.Intn(len(body))
				e := min(len(body), o+1+r.Intn(6))
				body = append(body[:o:o], body[e:]...)
			}
		}
		if len(body) == 0 {
			body = noise(1)
		}
		q := *p
		q.Body = body
		return q.Encode()
	}
}

// rawSub is a subrecord of any known type with arbitrary data.
func (g *gen) rawSub() ref.Sub {
	r := g.r
	t := []uint8{0, 1, 2, 5, 7, 8, 9, 15, 16, 17, 18, 19, 20, 21, 24, 25, 26, 27, 28}[r.Intn(19)]
	d := make([]byte, r.Intn(40))
	r.Read(d)
	if r.Intn(3) == 0 {
		for i := range d {
			d[i] &= byte(r.Intn(256))
		}
	}
	return ref.Sub{Raw: &ref.Raw{T: t, D: d}}
}

func (g *gen) fixHeader(b []byte) {
	hl := int(b[3])
	if hl >= 1 && hl <= len(b) {
		b[hl-1] = ref.CRC8(b[:hl-1])
	}
}

// addBig gives one terminal a packet close to the largest there can be.
func (g *gen) addBig() {
	r := g.r
	if len(g.p.Terms) == 0 {
		return
	}
	t := &g.p.Terms[r.Intn(len(g.p.Terms))]
	p := &ref.Packet{PID: uint16(r.Intn(65536)), PT: 1}
	switch r.Intn(4) {
	case 3: // as many records as fit
		for k := 9362 - []int{0, r.Intn(3), r.Intn(2000)}[r.Intn(3)]; k > 0; k-- {
			p.Recs = append(p.Recs, ref.Rec{RN: uint16(k), SST: 2, RST: 2})
		}
	case 0: // many records
		for k := 20 + r.Intn(200); k > 0; k-- {
			rec := ref.Rec{RN: uint16(k), SST: 2, RST: 2}
			if r.Intn(3) > 0 {
				rec.Subs = []ref.Sub{{Pos: g.pos()}}
			}
			p.Recs = append(p.Recs, rec)
		}
	case 1: // a body whose total length needs more than 16 bits
		n := 65535 - r.Intn(24)
		rec := g.record()
		p.Recs = []ref.Rec{rec}
		have := len(p.BodyBytes())
		d := make([]byte, n-have-3)
		for i := range d {
			d[i] = byte(i)
		}
		p.Recs[0].Subs = append(p.Recs[0].Subs, ref.Sub{Raw: &ref.Raw{T: 150, D: d}})
	default:
		rec := g.record()
		d := make([]byte, 1000+r.Intn(30000))
		r.Read(d)
		rec.Subs = append(rec.Subs, ref.Sub{Raw: &ref.Raw{T: 151, D: d}})
		p.Recs = []ref.Rec{rec}
	}
	it := Item{P: p, DelayMs: r.Intn(100)}
	if len(t.Items) > 0 && len(t.Items[len(t.Items)-1].Raw) == 0 && t.Items[len(t.Items)-1].Trunc == 0 {
		t.Items = append(t.Items, it)
	} else if len(t.Items) == 0 {
		t.Items = append(t.Items, it)
	}
	g.p.ReadMode = r.Intn(2)
	g.coarse()
}

// coarse keeps the number of preemptions of a large run affordable.
func (g *gen) coarse() {
	if (g.p.Sched.Mode == 1 || g.p.Sched.Mode == 3) && g.p.Sched.Every < 150 {
		g.p.Sched.Every = 150
	}
	g.p.ReadMode = min(g.p.ReadMode, 1)
}

// failAll makes one store reject everything.
func (g *gen) failAll(k int) {
	st := &g.p.Stores[k]
	st.Faults = nil
	for i := range g.p.Terms {
		for j := range g.p.Terms[i].Items {
			p := g.p.Terms[i].Items[j].P
			if p == nil {
				continue
			}
			for a := range p.Recs {
				for b := range p.Recs[a].Subs {
					if ps := p.Recs[a].Subs[b].Pos; ps != nil {
						st.Faults = append(st.Faults, SaveFault{Nav: ps.Nav, Err: true})
					}
				}
			}
		}
	}
}
