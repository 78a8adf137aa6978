package world

import (
	"math/rand"

	"egtsverif/des"
)

var libKinds = []string{"pos", "ext", "ad", "counters", "an", "cntr", "liq", "term", "auth", "module", "disp", "state20", "state21", "conf", "result", "plus"}

func genLib(prop string, seed uint64, r *rand.Rand) *Plan {
	p := &Plan{Prop: prop, Seed: seed, Kind: "lib", TailMs: 60000}
	gg := &gen{r: r, pf: base(), navs: map[uint32]bool{}, p: p}
	gg.sched()
	gg.network()
	if prop == "C21" {
		switch r.Intn(4) {
		case 0:
			p.Sched = des.Sched{Mode: 1, Every: []int{1, 2, 4}[r.Intn(3)]}
		case 1, 2:
			p.Sched = des.Sched{Mode: 3, Every: []int{4, 30, 1000}[r.Intn(3)], HoldUs: []int{0, 100, 3000}[r.Intn(3)]}
		}
	}
	p.ClockYears = 20 + r.Intn(30)
	lp := &LibPlan{}
	p.Lib = lp
	for i := r.Intn(3); i >= 0; i-- {
		k := LibKey{Kind: []string{"xor", "pad", "inplace", "wide"}[r.Intn(4)], ID: r.Uint64()}
		if r.Intn(3) == 0 {
			k.FailMod = 2 + r.Intn(4)
		}
		if r.Intn(3) == 0 {
			k.SlowUs = 1 + r.Intn(5000)
		}
		lp.Keys = append(lp.Keys, k)
	}
	links := 1 + r.Intn(2)
	encPct := 15
	switch prop {
	case "C17":
		encPct = 80
		links = 1 + r.Intn(3)
	case "C21":
		encPct = 25
		links = 2 + r.Intn(3)
	}
	kinds := libKinds
	if r.Intn(3) == 0 { // a few kinds only, so that the same code runs in several tasks
		kinds = nil
		for i := 1 + r.Intn(2); i > 0; i-- {
			kinds = append(kinds, libKinds[r.Intn(len(libKinds))])
		}
	}
	for i := 0; i < links; i++ {
		l := LibLink{Fan: 1, Shared: r.Intn(3) == 0}
		if r.Intn(3) == 0 {
			l.Fan = 2
		}
		if r.Intn(3) == 0 {
			l.StartMs = r.Intn(5)
		}
		if r.Intn(8) > 0 {
			l.SKey = 1 + r.Intn(len(lp.Keys))
			l.RKey = l.SKey
		}
		switch r.Intn(8) {
		case 0:
			l.RKey = 0
		case 1:
			l.RKey = 1 + r.Intn(len(lp.Keys))
		case 2:
			if prop == "C17" {
				l.SKey = 0
			}
		}
		gap := []int{0, 0, 100, 3000}[r.Intn(4)]
		for j := 1 + r.Intn(5); j > 0; j-- {
			m := LibMsg{Seed: r.Uint64(), PT: 1, Auto: r.Intn(2) == 0, Route: r.Intn(3) == 0, JSON: r.Intn(3) == 0, Foreign: r.Intn(5) == 0}
			if gap > 0 {
				m.GapUs = r.Intn(gap)
			}
			if r.Intn(4) == 0 {
				m.DelayUs = r.Intn(20000)
			}
			if r.Intn(10) == 0 {
				m.Dup = 1
			}
			m.Lose = r.Intn(25) == 0
			if r.Intn(8) == 0 {
				m.Raw = gg.garbage()
				if len(m.Raw) == 0 {
					m.Raw = []byte{0}
				}
				l.Msgs = append(l.Msgs, m)
				continue
			}
			if r.Intn(4) == 0 {
				m.PT = 0
			}
			if r.Intn(100) < encPct {
				m.Ena = uint8(1 + r.Intn(3))
			}
			n := []int{1, 1, 1, 2, 3, 6}[r.Intn(6)]
			if m.PT == 0 && r.Intn(3) == 0 {
				n = 0
			}
			for ; n > 0; n-- {
				rec := LibRec{Seed: r.Uint64()}
				for k := []int{0, 1, 1, 1, 2, 2, 3, 5}[r.Intn(8)]; k > 0; k-- {
					sb := LibSub{K: kinds[r.Intn(len(kinds))], S: r.Uint64()}
					if r.Intn(25) == 0 {
						sb.K = "unk"
					}
					if sb.K == "pos" && m.Foreign && r.Intn(3) == 0 {
						sb.K = "posx"
					}
					rec.Subs = append(rec.Subs, sb)
				}
				m.Recs = append(m.Recs, rec)
			}
			switch {
			case r.Intn(40) == 0:
				libBig(&m, r)
			case r.Intn(30) == 0 && len(m.Recs) > 0:
				rec := &m.Recs[r.Intn(len(m.Recs))]
				rec.Subs = append(rec.Subs, LibSub{K: "sick"})
				if k := r.Intn(len(rec.Subs)); k < len(rec.Subs)-1 {
					rec.Subs[k], rec.Subs[len(rec.Subs)-1] = rec.Subs[len(rec.Subs)-1], rec.Subs[k]
				}
			}
			if m.Foreign && r.Intn(3) == 0 {
				m.Bad = r.Uint64() | 1
			}
			switch r.Intn(8) {
			case 0:
				size := 40
				for _, rc := range m.Recs {
					size += 10 + 20*len(rc.Subs)
				}
				for k := 1 + r.Intn(2); k > 0; k-- {
					o := r.Intn(size)
					if r.Intn(3) == 0 {
						o = r.Intn(11)
					}
					m.Flips = append(m.Flips, Flip{Off: o, Xor: 1 << uint(r.Intn(8))})
				}
			case 1:
				if r.Intn(2) == 0 {
					m.Trunc = 1 + r.Intn(3)
				} else {
					m.Trunc = 1 + r.Intn(60)
				}
			}
			l.Msgs = append(l.Msgs, m)
		}
		lp.Links = append(lp.Links, l)
	}
	return p
}

// libBig makes a message about as long as the length field allows.
func libBig(m *LibMsg, r *rand.Rand) {
	total := []int{65535, 65536, 65534, 65537, 65535 - r.Intn(20), 65536 + r.Intn(20), 60000, 70000, 131072 + r.Intn(100)}[r.Intn(9)]
	m.Auto = true
	m.Recs = []LibRec{{Seed: r.Uint64(), Subs: []LibSub{{K: "disp", S: r.Uint64(), N: 1}}}}
	if r.Intn(2) == 0 { // several long ones
		m.Recs = append(m.Recs, LibRec{Seed: r.Uint64(), Subs: []LibSub{{K: "disp", S: r.Uint64(), N: 20000}, {K: "disp", S: r.Uint64(), N: 20000}}})
	}
	n := len(m.build().plain)
	if total > n {
		m.Recs[0].Subs[0].N += total - n
	}
}
