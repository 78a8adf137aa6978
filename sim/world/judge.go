package world

import (
	"fmt"
	"math"
	"sort"
	"time"

	"egtsverif/ref"
)

// exp is one expected stored record: one reception of one record of one valid
// packet.
type exp struct {
	c    *Conn
	ci   int
	item int
	si   int // index in c.Sent
	rec  int
	ord  int // order on the connection
	n    ref.Nav
	must bool
	lost bool // the framing was lost before it: an earlier authorisation may not have been seen
	nav  uint32
	arr  time.Duration
	used map[int]bool
	conf time.Duration // when it was confirmed as processed
}

type itemState struct {
	si        SentItem
	it        *Item
	cls       string
	delivered bool
	after     bool // after a framing-destroying item
	must      bool
	arr       time.Duration // when its last byte arrived
	read      time.Duration // when its last byte was read by the server
	exps      []*exp
	frame     int // index of the answering frame, or -1
	result    int
}

func at(ms []mark, n int64) time.Duration {
	i := sort.Search(len(ms), func(i int) bool { return ms[i].N >= n })
	if i == len(ms) {
		return -1
	}
	return ms[i].At
}

// intact reports whether nothing outside the server's control ended the
// connection's usefulness.
func (w *W) intact(c *Conn) bool {
	if c.E.IsReset() || c.E.RstSeen >= 0 || c.E.Proc.Dead {
		return false
	}
	if c.LocalCl >= 0 {
		switch w.P.Terms[c.Term].End {
		case "close", "abort":
			return false
		}
	}
	if w.stopAt >= 0 {
		return false
	}
	return true
}

func (w *W) states(ci int, c *Conn) []*itemState {
	var out []*itemState
	cl := &ref.Client{}
	after := false
	ok := w.intact(c) && !w.S.Overrun
	ord := 0
	for k, si := range c.Sent {
		it := &w.P.Terms[c.Term].Items[si.Idx]
		st := &itemState{si: si, it: it, cls: it.Class(), after: after, frame: -1, result: -1}
		st.delivered = c.E.Delivered >= si.To
		st.arr = at(c.arr, si.To)
		st.read = at(c.rd, si.To)
		st.must = ok && st.delivered && !after
		switch st.cls {
		case ClsPoison:
			after = true
			st.must = false
		case ClsPart:
			// whatever follows is swallowed as the rest of the packet
			after = true
			st.must = false
		case ClsOK:
			for r := range it.P.Recs {
				n, save, _ := ref.Expect(it.P.PID, &it.P.Recs[r], cl)
				if !save {
					continue
				}
				e := &exp{c: c, ci: ci, item: si.Idx, si: k, rec: r, ord: ord, n: n, must: st.must, lost: after, nav: uint32(n.Nav - ref.Epoch), arr: st.arr, used: map[int]bool{}}
				ord++
				st.exps = append(st.exps, e)
			}
		}
		out = append(out, st)
	}
	return out
}

func fault(st *StorePlan, nav uint32) *SaveFault {
	for i := range st.Faults {
		if st.Faults[i].Nav == nav {
			return &st.Faults[i]
		}
	}
	return nil
}

// injErr: the store may fail to take this record, or take it more than once.
func (w *W) injErr(store int, nav uint32) bool {
	if w.disturbed != nil && w.disturbed[store][nav] {
		return true
	}
	if b := w.P.Stores[store].B; b != nil && !syncKind(b.Kind) {
		return false
	}
	f := fault(&w.P.Stores[store], nav)
	return f != nil && f.Err
}

func (w *W) judge() {
	w.judgeProcs()
	all := make([][]*itemState, len(w.Conns))
	for i, c := range w.Conns {
		all[i] = w.states(i, c)
	}
	groups, forbidden := w.judgeSaves(all)
	for i, c := range w.Conns {
		w.judgeAnswers(c, all[i], groups)
	}
	w.judgeIdle(all)
	w.judgeLifecycle(all)
	w.judgeLatency(all, 500*time.Millisecond, 0)
	_ = forbidden
}

func (w *W) judgeProcs() {
	for _, p := range w.procs {
		if p.Panic != "" {
			w.died("panic", fmt.Sprintf("the receiver process crashed: %s\n%s", p.Panic, p.Stack))
		} else if p.Exited && p.Code != 137 {
			w.died("exit", fmt.Sprintf("the receiver process ended by itself with exit status %d", p.Code))
		}
	}
	if w.S.Overrun && w.P.Sched.Mode != 2 {
		w.violate("C12", "livelock", "no quiescence after %d scheduling steps and %d statements at simulated time %v: the receiver spins", w.S.Steps, w.S.Yields, w.endAt)
		w.violate("C11", "livelock", "no quiescence after %d scheduling steps and %d statements at simulated time %v: the receiver spins", w.S.Steps, w.S.Yields, w.endAt)
		w.violate("C05", "livelock", "no quiescence after %d scheduling steps and %d statements at simulated time %v: the receiver spins", w.S.Steps, w.S.Yields, w.endAt)
	}
}

// died: the receiver went down although nothing killed it. Every promise to every
// connection is broken then; where hostile bytes were sent, that is the business
// of crash resistance (C05) and isolation (C06).
func (w *W) died(class, msg string) {
	w.violate("C05", class, "%s", msg)
	w.violate("C06", class, "%s", msg)
	for i := range w.P.Terms {
		for j := range w.P.Terms[i].Items {
			if w.P.Terms[i].Items[j].P == nil {
				return
			}
		}
	}
	w.violate(w.P.Prop, class, "%s", msg)
}

// mayStore: what follows the framing-destroying item k of connection c can read,
// by the protocol's own rules, as packets nobody composed.
func (w *W) mayStore(c *Conn, k int) bool {
	var b []byte
	own := map[string]bool{}
	for ; k < len(c.Sent); k++ {
		it := &w.P.Terms[c.Term].Items[c.Sent[k].Idx]
		x := it.Bytes()
		if it.P != nil && len(it.Flips) == 0 {
			own[string(x)] = true
		}
		b = append(b, x...)
	}
	for len(b) > 10 && b[0] == 1 {
		hl, fdl := int(b[3]), int(b[5])|int(b[6])<<8
		n := hl
		if fdl > 0 {
			n += fdl + 2
		}
		if n < 11 || n > len(b) || hl < 11 {
			return false
		}
		if ref.CRC8(b[:hl-1]) == b[hl-1] && (fdl == 0 || ref.CRC16(b[hl:hl+fdl]) == uint16(b[hl+fdl])|uint16(b[hl+fdl+1])<<8) && !own[string(b[:n])] {
			return true
		}
		b = b[n:]
	}
	return false
}

func sameF(a, b float64) bool { return math.Abs(a-b) <= 5e-8 }

func sensEq(a, b []ref.Sensor) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func liqEq(a, b []ref.Liquid) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// diff lists the fields in which got departs from want, other than client and
// reception time.
func diff(got, want ref.Nav) (d []string) {
	add := func(f string, g, x interface{}) { d = append(d, fmt.Sprintf("%s is %v, want %v", f, g, x)) }
	if got.PID != want.PID {
		add("packet_id", got.PID, want.PID)
	}
	if got.Nav != want.Nav {
		add("navigation_unix_time", got.Nav, want.Nav)
	}
	if !sameF(got.Lat, want.Lat) {
		add("latitude", got.Lat, want.Lat)
	}
	if !sameF(got.Lon, want.Lon) {
		add("longitude", got.Lon, want.Lon)
	}
	if got.Speed != want.Speed {
		add("speed", got.Speed, want.Speed)
	}
	if got.Course != want.Course {
		add("course", got.Course, want.Course)
	}
	if got.Pdop != want.Pdop || got.Hdop != want.Hdop || got.Vdop != want.Vdop || got.Nsat != want.Nsat || got.Ns != want.Ns {
		add("pdop/hdop/vdop/nsat/ns", []uint32{got.Pdop, got.Hdop, got.Vdop, got.Nsat, got.Ns}, []uint32{want.Pdop, want.Hdop, want.Vdop, want.Nsat, want.Ns})
	}
	if !sensEq(got.An, want.An) {
		add("an_sensors", got.An, want.An)
	}
	if !liqEq(got.Liq, want.Liq) {
		add("liquid_sensors", got.Liq, want.Liq)
	}
	return
}

// wallRange is the set of wall-clock seconds shown between two instants.
func (w *W) wallIn(sec int64, from, to time.Duration) bool {
	base := w.S.StartUnix()
	for i, m := range w.walls {
		lo, hi := m.At, w.endAt+time.Hour
		if i+1 < len(w.walls) {
			hi = w.walls[i+1].At
		}
		if lo < from {
			lo = from
		}
		if hi > to {
			hi = to
		}
		if lo > hi {
			continue
		}
		a := base + int64(math.Floor((m.Off + lo).Seconds()))
		b := base + int64(math.Floor((m.Off + hi).Seconds()))
		if sec >= a && sec <= b {
			return true
		}
	}
	return false
}

func (w *W) judgeSaves(all [][]*itemState) (map[uint32][]*exp, map[uint32]string) {
	groups := map[uint32][]*exp{}
	forbidden := map[uint32]string{}
	var exps []*exp
	dirty, open := false, false
	for i := range w.Conns {
		for k, st := range all[i] {
			if st.cls == ClsPoison || st.cls == ClsPart {
				open = open || w.mayStore(w.Conns[i], k)
			}
			for _, e := range st.exps {
				groups[e.nav] = append(groups[e.nav], e)
				exps = append(exps, e)
			}
			if st.cls != ClsOK {
				dirty = dirty || st.cls != ClsSilent
				if st.it.P != nil && !(st.cls == ClsPoison && len(st.it.Flips) > 0) {
					for r := range st.it.P.Recs {
						for s := range st.it.P.Recs[r].Subs {
							if ps := st.it.P.Recs[r].Subs[s].Pos; ps != nil {
								forbidden[ps.Nav] = st.cls
							}
						}
					}
				}
			}
		}
	}
	for n := range groups {
		delete(forbidden, n)
	}
	type ks struct {
		store int
		nav   uint32
	}
	// doneAt: until when the records of the packet si, and of those before it, were being stored
	type doneAt struct {
		si        int
		end, prev time.Duration
	}
	last := map[*Conn]*doneAt{}
	okCount := map[ks]int{}
	savesBy := map[ks][]*SaveObs{}
	for _, o := range w.Saves {
		if !o.Done {
			continue
		}
		if o.BadJSON != "" {
			w.violate("C09", "json", "a record handed to store %d cannot be serialised: %s", o.Store, o.BadJSON)
			continue
		}
		nav := uint32(o.N.Nav - ref.Epoch)
		if cls, bad := forbidden[nav]; bad {
			w.violate("C04", "stored-bad", "store %d got a record from a packet that had to be rejected (%s): %s", o.Store, cls, o.Raw)
			w.violate("C01", "stored-bad", "store %d got a record from a packet that had to be rejected (%s): %s", o.Store, cls, o.Raw)
			continue
		}
		g := groups[nav]
		if len(g) == 0 || o.N.Nav != ref.Epoch+int64(nav) {
			// not the time of any record sent: find it by position
			hit := false
			for _, e := range exps {
				if !open && sameF(e.n.Lat, o.N.Lat) && sameF(e.n.Lon, o.N.Lon) && e.n.Speed == o.N.Speed {
					w.violate("C09", "field", "connection t%d: record stored with navigation_unix_time %d, want %d", e.c.Term, o.N.Nav, e.n.Nav)
					hit = true
					break
				}
			}
			if !hit && !open {
				w.violate("C01", "phantom", "store %d got a record nobody sent: %s", o.Store, o.Raw)
				if dirty {
					w.violate("C04", "phantom", "store %d got a record nobody sent, in a run with damaged packets: %s", o.Store, o.Raw)
				}
				w.violate("C09", "phantom", "store %d got a record that matches nothing sent: %s", o.Store, o.Raw)
			}
			continue
		}
		// choose the reception it satisfies best
		var best *exp
		bestScore := -1
		for _, e := range g {
			sc := 0
			if !e.used[o.Store] {
				sc += 100
				if w.injErr(o.Store, nav) {
					sc -= 95 // it may have taken another one twice
				}
			}
			if e.c.E.Proc.ID == o.Inc {
				sc += 50
			}
			d := diff(o.N, e.n)
			sc += 20 - len(d)
			if e.n.Client == o.N.Client {
				sc += 10
			}
			if e.arr >= 0 && e.arr <= o.Begin {
				sc += 5
			}
			if sc > bestScore {
				best, bestScore = e, sc
			}
		}
		d := diff(o.N, best.n)
		if open && len(d) > 0 {
			o.Ambig = true // may come from a hostile packet that is valid by its checksums
			continue
		}
		if o.OK {
			best.used[o.Store] = true
			okCount[ks{o.Store, nav}]++
		}
		savesBy[ks{o.Store, nav}] = append(savesBy[ks{o.Store, nav}], o)
		if len(d) > 0 {
			w.violate("C09", "field", "connection t%d packet %d record %d stored wrongly: %v", best.c.Term, w.P.Terms[best.c.Term].Items[best.item].P.PID, best.rec, d)
		}
		if o.N.Client != best.n.Client && !best.lost {
			w.violate("C08", "client", "connection t%d packet %d record %d stored for client %d, want %d", best.c.Term, w.P.Terms[best.c.Term].Items[best.item].P.PID, best.rec, o.N.Client, best.n.Client)
		}
		x := last[best.c]
		if x == nil {
			x = &doneAt{si: best.si}
			last[best.c] = x
		}
		if best.si > x.si {
			x.si, x.prev = best.si, x.end
		}
		if best.si == x.si {
			x.end = max(x.end, o.End)
		}
		// reception time
		if len(g) == 1 && best.arr >= 0 {
			st := all[best.ci][best.si]
			lo := best.arr
			hi := st.read
			if hi < 0 || w.P.Kind == "main" {
				hi = o.Begin
			}
			// a reader that buffers ahead decodes the packet only once the one
			// before has been dealt with
			if best.si > 0 {
				prev := time.Duration(-1)
				for _, f := range best.c.Frames {
					if f.At <= o.Begin && f.At > prev {
						prev = f.At
					}
				}
				// what it had to answer may be gone with a connection that was reset
				if x.si == best.si {
					prev = max(prev, x.prev)
				}
				if prev > hi {
					hi = prev
				}
			}
			if w.P.Sched.HoldUs > 0 {
				hi += 300 * time.Millisecond // the scheduler may have held it back
			}
			if !w.wallIn(o.N.Recv, lo, hi) {
				w.violate("C20", "received", "connection t%d packet %d: received_unix_time %d; the packet was complete at %v and read at %v (run start %d, clock offsets %v)", best.c.Term, w.P.Terms[best.c.Term].Items[best.item].P.PID, o.N.Recv, lo, hi, w.S.StartUnix(), w.walls)
			}
		}
	}
	// counts
	navs := make([]uint32, 0, len(groups))
	for n := range groups {
		navs = append(navs, n)
	}
	sort.Slice(navs, func(i, j int) bool { return navs[i] < navs[j] })
	multi := len(w.P.Stores) > 1
	for _, n := range navs {
		g := groups[n]
		minN, maxN := 0, 0
		for _, e := range g {
			st := all[e.ci][e.si]
			if st.delivered || st.after {
				maxN++
			}
			if e.must {
				minN++
			}
		}
		anyFault := false
		for k := range w.P.Stores {
			if w.injErr(k, n) {
				anyFault = true
			}
		}
		for k := range w.P.Stores {
			if w.P.Stores[k].Unused {
				continue
			}
			got := okCount[ks{k, n}]
			if got > maxN && !(w.disturbed != nil && w.disturbed[k][n]) {
				w.violate("C01", "duplicate", "store %d holds record nav=%d of t%d %d times for %d reception(s)", k, n, g[0].c.Term, got, maxN)
				if multi {
					w.violate("C13", "duplicate", "store %d holds record nav=%d of t%d %d times for %d reception(s)", k, n, g[0].c.Term, got, maxN)
				}
			}
			if w.injErr(k, n) {
				continue
			}
			if got < minN {
				if anyFault {
					w.violate("C13", "missing", "record nav=%d of t%d failed in another store and never reached store %d", n, g[0].c.Term, k)
				} else {
					w.violate("C01", "missing", "record nav=%d of t%d was received %d time(s) but store %d holds it %d time(s)", n, g[0].c.Term, minN, k, got)
					if multi {
						for k2 := range w.P.Stores {
							if okCount[ks{k2, n}] > got {
								w.violate("C13", "missing", "record nav=%d of t%d is in store %d but not in store %d", n, g[0].c.Term, k2, k)
							}
						}
					}
				}
			}
		}
	}
	// order and prefix, per connection and store
	for i := range w.Conns {
		var es []*exp
		for _, st := range all[i] {
			for _, e := range st.exps {
				if len(groups[e.nav]) == 1 {
					es = append(es, e)
				}
			}
		}
		for k := range w.P.Stores {
			if w.P.Stores[k].Unused {
				continue
			}
			var last int64 = -1
			gap := -1
			for _, e := range es {
				ss := savesBy[ks{k, e.nav}]
				var first *SaveObs
				for _, o := range ss {
					if o.OK {
						first = o
						break
					}
				}
				if first == nil {
					if !w.injErr(k, e.nav) && gap < 0 {
						gap = e.ord
					}
					continue
				}
				if gap >= 0 {
					w.violate("C01", "skipped", "store %d holds record %d of connection t%d but not the earlier record %d", k, e.ord, w.Conns[i].Term, gap)
					gap = -1
				}
				if w.disturbed != nil && w.disturbed[k][e.nav] {
					continue
				}
				if first.EndSeq < last {
					w.violate("C01", "order", "store %d got the records of connection t%d out of order (record %d)", k, w.Conns[i].Term, e.ord)
				}
				last = first.EndSeq
			}
		}
	}
	return groups, forbidden
}

// recSaved reports, for one reception, whether every store had accepted the
// record before seq, and whether a failure was injected.
func (w *W) recSaved(g []*exp, e *exp, seq int64) (allOK bool, missing int, injected bool) {
	allOK = true
	missing = -1
	// with several receptions of the same record, the j-th confirmation needs
	// at least one acceptance in its own incarnation
	for k := range w.P.Stores {
		if st := &w.P.Stores[k]; st.Unused || (st.B != nil && !syncKind(st.B.Kind)) {
			continue // nobody tells the receiver whether these took it
		}
		ok := false
		for _, o := range w.Saves {
			if o.Store == k && o.Done && uint32(o.N.Nav-ref.Epoch) == e.nav && o.BadJSON == "" && o.Inc == e.c.E.Proc.ID {
				if o.OK && o.EndSeq < seq {
					ok = true
				}
				if o.Inj {
					injected = true
				}
			}
		}
		if !ok {
			allOK = false
			missing = k
		}
	}
	return
}

func (w *W) judgeAnswers(c *Conn, sts []*itemState, groups map[uint32][]*exp) {
	name := fmt.Sprintf("connection t%d", c.Term)
	if c.BadOut != "" {
		w.violate("C03", "malformed", "%s: the receiver wrote bytes that are not an EGTS packet: %s", name, c.BadOut)
	}
	if len(c.out) > 0 && w.intact(c) && !c.unread {
		w.violate("C03", "partial", "%s: the receiver left an incomplete packet of %d bytes on the wire", name, len(c.out))
	}
	fi := 0
	hadBad := false
	authPending := false
	lastOKPid := -1
	for _, st := range sts {
		if st.after {
			return // nothing is promised about the rest of the stream
		}
		p := st.it.P
		switch st.cls {
		case ClsPart:
			continue
		case ClsPoison:
			if p == nil {
				hadBad = true
			}
			return
		case ClsSilent:
			continue
		}
		tag := fmt.Sprintf("%s packet %d (item %d)", name, p.PID, st.si.Idx)
		if fi >= len(c.Frames) {
			if st.must {
				cl := "C03"
				if st.cls != ClsOK && st.cls != ClsAny {
					cl = "C04"
				}
				w.violate(cl, "unanswered", "%s was received completely at %v and never answered", tag, st.arr)
				if hadBad && cl == "C03" {
					w.violate("C04", "stream-lost", "%s: valid packet after a rejected one was never answered", tag)
				}
				w.violate("C12", "unanswered", "%s was received completely at %v and is still unanswered at %v", tag, st.arr, w.endAt)
				if st.it.Auth() && st.cls == ClsOK {
					w.violate("C10", "unanswered", "%s: authorisation request never answered", tag)
				}
			}
			return
		}
		f := &c.Frames[fi]
		st.frame = fi
		fi++
		if !st.delivered {
			w.violate("C03", "early", "%s was answered before it was received", tag)
		} else if st.arr >= 0 && f.At < st.arr {
			w.violate("C03", "early", "%s was answered before it was received", tag)
		}
		if f.F.Bad != "" {
			w.violate("C03", "malformed", "%s: the answer is malformed: %s", tag, f.F.Bad)
			continue
		}
		if f.F.PT != 0 {
			if authPending {
				w.violate("C10", "extra", "%s: more than one result packet for an authorisation request", tag)
			} else {
				w.violate("C10", "unasked", "%s: a result packet was sent that nobody asked for", tag)
				w.violate("C03", "order", "%s: expected a response, got packet type %d", tag, f.F.PT)
			}
			return
		}
		authPending = false
		switch st.cls {
		case ClsNeg, ClsCorrupt:
			hadBad = true
			if f.F.PR == 0 {
				w.violate("C04", "accepted", "%s is damaged or undecodable and was answered with success", tag)
			}
			for _, cf := range f.F.Confirms {
				if cf.St == 0 {
					w.violate("C04", "confirmed", "%s is damaged or undecodable and record %d was confirmed", tag, cf.RN)
				}
			}
			hdrDamaged := false
			for _, fl := range st.it.Flips {
				if fl.Off < p.HeaderLen() {
					hdrDamaged = true
				}
			}
			if !hdrDamaged && f.F.RPID != p.PID {
				w.violate("C04", "rpid", "%s was rejected with a response for packet %d", tag, f.F.RPID)
			}
		case ClsAny:
			if f.F.RPID != p.PID {
				w.violate("C03", "rpid", "%s was answered with a response for packet %d", tag, f.F.RPID)
			}
		case ClsOK:
			if f.F.RPID != p.PID {
				w.violate("C03", "rpid", "%s was answered with a response for packet %d", tag, f.F.RPID)
				if lastOKPid == int(f.F.RPID) {
					w.violate("C03", "twice", "%s: packet %d was answered twice", name, lastOKPid)
				}
			}
			lastOKPid = int(p.PID)
			injAny := false
			for _, e := range st.exps {
				for k := range w.P.Stores {
					if w.injErr(k, e.nav) {
						injAny = true
					}
				}
			}
			if f.F.PR != 0 && !injAny {
				w.violate("C03", "refused", "%s is valid, every store works, and it was answered with result %d", tag, f.F.PR)
				if hadBad {
					w.violate("C04", "stream-lost", "%s: valid packet after a rejected one was refused with %d", tag, f.F.PR)
				}
			}
			if f.F.PR != 0 && len(f.F.Confirms) == 0 && injAny {
				break // refused as a whole because a store failed
			}
			if len(f.F.Confirms) != len(p.Recs) {
				w.violate("C03", "confirms", "%s has %d records and the response confirms %d", tag, len(p.Recs), len(f.F.Confirms))
				break
			}
			same := true
			for r := range p.Recs {
				if p.Recs[r].SST != p.Recs[0].SST {
					same = false
				}
			}
			for r := range p.Recs {
				cf := f.F.Confirms[r]
				if cf.RN != p.Recs[r].RN {
					w.violate("C03", "rn", "%s record %d has number %d and was confirmed as %d", tag, r, p.Recs[r].RN, cf.RN)
				}
				if same && cf.SST != p.Recs[r].SST {
					w.violate("C03", "service", "%s record %d belongs to service %d and was confirmed for service %d", tag, r, p.Recs[r].SST, cf.SST)
				}
				var e *exp
				for _, x := range st.exps {
					if x.rec == r {
						e = x
					}
				}
				if e == nil {
					if cf.St != 0 && !injAny {
						w.violate("C03", "status", "%s record %d needs no storage and was confirmed with status %d", tag, r, cf.St)
					}
					continue
				}
				okAll, miss, inj := w.recSaved(groups[e.nav], e, f.Seq)
				if cf.St == 0 && f.F.PR == 0 {
					e.conf = f.At
					if !okAll {
						w.violate("C02", "ack-unsaved", "%s record %d was confirmed as processed at %v although store %d had not accepted it", tag, r, f.At, miss)
						if inj && len(w.P.Stores) > 1 {
							w.violate("C13", "refusal-lost", "%s record %d was refused by store %d and confirmed as processed at %v", tag, r, miss, f.At)
						}
					}
				} else if !inj && !injAny {
					w.violate("C03", "status", "%s record %d: every store accepted it and it was confirmed with status %d, result %d", tag, r, cf.St, f.F.PR)
					if len(w.P.Stores) > 1 {
						w.violate("C13", "status", "%s record %d: every store accepted it and it was confirmed with status %d, result %d", tag, r, cf.St, f.F.PR)
					}
				}
			}
		}
		if st.cls == ClsOK && st.it.Auth() {
			if fi >= len(c.Frames) {
				if st.must {
					w.violate("C10", "missing", "%s: authorisation request got no result packet", tag)
				}
				return
			}
			g := &c.Frames[fi]
			switch {
			case g.F.Bad == "" && g.F.PT == 1 && len(g.F.Results) == 1 && g.F.Results[0] == 0 && len(g.F.Confirms) == 0 && g.F.Other == 0:
				for _, x := range g.F.SSTs {
					if x != 1 {
						w.violate("C10", "service", "%s: the result code was sent for service %d, not the authorisation service", tag, x)
					}
				}
				st.result = fi
				fi++
				authPending = true
			case g.F.PT == 1 && g.F.Bad == "" && len(g.F.Results) > 0:
				w.violate("C10", "code", "%s: unexpected authorisation result %v", tag, g.F.Results)
				fi++
			case g.F.Bad != "" || looksLikeResult(&g.F):
				w.violate("C10", "malformed", "%s: the result packet cannot be decoded as application data with one result code (type %d, %s)", tag, g.F.PT, g.F.Bad)
				fi++
			default:
				w.violate("C10", "missing", "%s: authorisation request got no result packet", tag)
			}
		}
	}
	for ; fi < len(c.Frames); fi++ {
		f := &c.Frames[fi]
		if f.F.PT == 1 && authPending {
			w.violate("C10", "extra", "%s: more than one result packet for an authorisation request", name)
		} else if f.F.PT == 1 {
			w.violate("C10", "unasked", "%s: a result packet was sent that nobody asked for", name)
			w.violate("C03", "extra", "%s: an unrequested packet was sent", name)
		} else {
			w.violate("C03", "extra", "%s: response for packet %d beyond what was asked (%s)", name, f.F.RPID, f.F.Bad)
			for _, st := range sts {
				if st.it.P != nil && st.it.P.PID == f.F.RPID && st.frame >= 0 {
					w.violate("C03", "twice", "%s: packet %d was answered twice", name, f.F.RPID)
				}
			}
		}
	}
}

// looksLikeResult recognises a result code sent in a packet of the wrong type.
func looksLikeResult(f *ref.Frame) bool {
	return f.PT == 0 && len(f.Body) >= 11 && f.Body[0] == 4 && f.Body[1] == 0 && f.Body[7] == 9
}

// judgeIdle: connections are closed after the idle time, and not earlier.
func (w *W) judgeIdle(all [][]*itemState) {
	ttl := ms(w.P.TTLms)
	for i, c := range w.Conns {
		if c.E.Proc.Dead || c.E.Accepted < 0 || w.S.Overrun {
			continue
		}
		poison := false
		for _, st := range all[i] {
			if st.cls == ClsPoison {
				poison = true
			}
		}
		last := c.E.Accepted // last activity the server saw
		if c.E.LastArrT > last {
			last = c.E.LastArrT
		}
		lastAct := last
		if c.E.LastRead > lastAct {
			lastAct = c.E.LastRead
		}
		for _, x := range c.E.Wrote {
			if x.At > lastAct {
				lastAct = x.At
			}
		}
		if c.E.SaveEnd > lastAct {
			lastAct = c.E.SaveEnd
		}
		for _, o := range w.Saves {
			for _, st := range all[i] {
				for _, e := range st.exps {
					if uint32(o.N.Nav-ref.Epoch) == e.nav && o.Done && o.End > lastAct {
						lastAct = o.End
					}
				}
			}
		}
		closed := c.E.ClosedAt
		// early close
		if closed >= 0 && !poison && !c.E.IsReset() && c.E.EOFRead < 0 && !c.E.GotFin() && w.stopAt < 0 {
			if ttl <= 0 {
				w.violate("C07", "closed-nolimit", "connection t%d was closed at %v although no idle limit is configured", c.Term, closed)
			} else if closed < last+ttl-ms(5) {
				w.violate("C07", "closed-early", "connection t%d was closed at %v, %v after its last data; the idle limit is %v", c.Term, closed, closed-last, ttl)
			} else {
				w.probe("idle_closed")
			}
		}
		// late close
		if ttl > 0 {
			lim := lastAct + ttl + time.Second
			if c.E.GotFin() && c.E.EOFRead >= 0 && c.E.EOFRead+ttl+time.Second > lim {
				lim = c.E.EOFRead + ttl + time.Second
			}
			if (closed < 0 && w.endAt > lim) || closed > lim {
				if !c.E.IsReset() && !c.unread {
					if c.E.GotFin() {
						w.violate("C07", "eof-kept", "connection t%d got end of stream and was still held %v after its last activity (limit %v)", c.Term, w.endAt-lastAct, ttl)
					} else {
						w.violate("C07", "idle-kept", "connection t%d has been silent since %v and was not closed by %v; the idle limit is %v", c.Term, last, w.endAt, ttl)
					}
				}
			}
		}
	}
}

func (w *W) judgeLifecycle(all [][]*itemState) {
	if w.S.Overrun {
		return
	}
	s := w.S
	l := s.LastListener(w.lkey)
	if l == nil {
		if len(w.procs) > 0 && !w.procs[len(w.procs)-1].Dead {
			w.violate("C11", "nolisten", "the receiver never listened on its address")
		}
		return
	}
	if w.stopAt < 0 {
		for _, p := range w.procs {
			if !p.Dead && w.runEnded >= 0 {
				w.violate("C11", "run-returned", "the server stopped serving at %v although nobody stopped it", w.runEnded)
			}
		}
		if !w.proc.Dead && l.Backlog() > 0 {
			w.violate("C11", "not-accepted", "%d connection(s) were never accepted", l.Backlog())
		}
		if !w.proc.Dead && s.ListenerAt(w.lkey) == nil {
			w.violate("C11", "listener-closed", "the receiver stopped listening although nobody stopped it")
		}
	} else if !w.proc.Dead {
		if w.runEnded < 0 {
			w.violate("C11", "run-hangs", "Stop was called at %v and the server had not returned by %v", w.stopAt, w.endAt)
		} else if w.runEnded > w.stopAt+2*time.Second {
			w.violate("C11", "run-late", "Stop was called at %v and the server returned only at %v", w.stopAt, w.runEnded)
		}
		if s.ListenerAt(w.lkey) != nil {
			w.violate("C11", "still-listening", "the server still listens after Stop")
		}
		for _, c := range w.afterStop {
			if c.E.Accepted > w.stopDone {
				w.violate("C11", "accepted-after-stop", "connection t%d was accepted after Stop", c.Term)
			}
		}
	}
	if w.P.Sched.Mode != 2 {
		for _, c := range w.Conns {
			if c.E.Proc == w.proc && c.E.Accepted > c.Opened+15*time.Second+time.Duration(w.acceptInj)*time.Second {
				w.violate("C11", "accepted-late", "connection t%d waited %v to be accepted", c.Term, c.E.Accepted-c.Opened)
			}
		}
	}
	// finished connections are released
	ttl := ms(w.P.TTLms)
	open := 0
	for i, c := range w.Conns {
		if c.E.Proc != w.proc || c.E.Accepted < 0 {
			continue
		}
		ended := time.Duration(-1)
		if c.E.EOFRead >= 0 {
			ended = c.E.EOFRead
		}
		if c.E.RstSeen >= 0 && (ended < 0 || c.E.RstSeen < ended) {
			ended = c.E.RstSeen
		}
		_ = all[i]
		if c.E.ClosedAt < 0 {
			open++
			if ended >= 0 && w.endAt > ended+ttl+5*time.Second && w.idleSince(c, all[i])+ttl+5*time.Second < w.endAt {
				w.violate("C11", "leaked-conn", "connection t%d was ended by its terminal at %v and is still held open at %v", c.Term, ended, w.endAt)
			}
		}
	}
	if !w.proc.Dead && w.proc.Base > 0 {
		base := w.proc.Base
		if w.runEnded >= 0 {
			base--
		}
		// a handler may well consist of more than one goroutine
		if w.proc.LiveAtEnd > 3*open+base && w.settled(all) {
			w.violate("C11", "leaked-handler", "%d goroutines of the receiver remain for %d open connections, %d at the start", w.proc.LiveAtEnd, open, w.proc.Base)
		}
	}
	for _, c := range w.Conns {
		if c.E.Accepted >= 0 {
			w.probe("conn_served")
		}
	}
}

// idleSince is when the connection last did anything.
func (w *W) idleSince(c *Conn, sts []*itemState) time.Duration {
	t := c.E.LastRead
	for _, x := range c.E.Wrote {
		if x.At > t {
			t = x.At
		}
	}
	for _, o := range w.Saves {
		for _, st := range sts {
			for _, e := range st.exps {
				if uint32(o.N.Nav-ref.Epoch) == e.nav {
					if !o.Done {
						return w.endAt
					}
					if o.End > t {
						t = o.End
					}
				}
			}
		}
	}
	return t
}

// settled: nothing is in progress at the end of the run.
func (w *W) settled(all [][]*itemState) bool {
	for _, o := range w.Saves {
		if !o.Done {
			return false
		}
	}
	for i, c := range w.Conns {
		if w.idleSince(c, all[i])+ms(w.P.TTLms)+5*time.Second >= w.endAt {
			return false
		}
	}
	return true
}

// judgeLatency: a connection is served at its own pace, whatever others do.
// base and per are what the program itself may add to a packet and to the
// storing of a record in one store.
func (w *W) judgeLatency(all [][]*itemState, base, per time.Duration) {
	if w.S.Overrun || w.P.StopMs > 0 {
		return
	}
	for i, c := range w.Conns {
		if w.P.Terms[c.Term].Bad || c.unread || w.P.Terms[c.Term].Window > 0 || !w.intact(c) {
			continue
		}
		if c.E.Accepted >= 0 && len(w.P.AcceptErrs) == 0 && c.E.Accepted > c.Opened+time.Second {
			w.violate("C12", "accept-late", "connection t%d waited %v to be accepted", c.Term, c.E.Accepted-c.Opened)
		}
		free := c.E.Accepted // when the connection's earlier work is done
		for _, st := range all[i] {
			if st.after || !st.must {
				break
			}
			if st.arr > free {
				free = st.arr
			}
			for _, e := range st.exps {
				for k := range w.P.Stores {
					free += us(w.P.Stores[k].DelayMaxUs) + per
					if f := fault(&w.P.Stores[k], e.nav); f != nil {
						free += ms(f.StallMs)
					}
				}
			}
			if st.frame < 0 {
				continue
			}
			f := c.Frames[st.frame]
			if f.At > free+base {
				w.violate("C12", "late", "connection t%d packet %d was answered at %v; its own work was over by %v", c.Term, st.it.P.PID, f.At, free)
			}
			// the server cannot be ahead of itself: continue from what happened
		}
	}
}
