package world

// Reduce returns the plan with its i-th simplification applied, or nil when
// there are no more.
func (p *Plan) Reduce(i int) *Plan {
	q := p.Clone()
	k := i
	take := func(n int) (int, bool) {
		if k < n {
			return k, true
		}
		k -= n
		return 0, false
	}
	one := func(c bool) bool {
		if !c {
			return false
		}
		_, ok := take(1)
		return ok
	}
	if q.Lib != nil {
		return q.reduceLib(take, one)
	}
	// terminals
	if len(q.Terms) > 1 {
		if j, ok := take(len(q.Terms)); ok {
			q.Terms = append(q.Terms[:j], q.Terms[j+1:]...)
			if q.Solo > 0 {
				if j == q.Solo-1 {
					return p.same()
				}
				if j < q.Solo-1 {
					q.Solo--
				}
			}
			return q
		}
	}
	// items
	for t := range q.Terms {
		if j, ok := take(len(q.Terms[t].Items)); ok {
			q.Terms[t].Items = append(q.Terms[t].Items[:j], q.Terms[t].Items[j+1:]...)
			return q
		}
	}
	if j, ok := take(len(q.Crashes)); ok {
		q.Crashes = append(q.Crashes[:j], q.Crashes[j+1:]...)
		return q
	}
	if j, ok := take(len(q.AcceptErrs)); ok {
		q.AcceptErrs = append(q.AcceptErrs[:j], q.AcceptErrs[j+1:]...)
		return q
	}
	if j, ok := take(len(q.Jumps)); ok {
		q.Jumps = append(q.Jumps[:j], q.Jumps[j+1:]...)
		return q
	}
	if one(q.StopMs > 0) {
		q.StopMs = 0
		return q
	}
	for s := range q.Stores {
		if len(q.Stores[s].Faults) > 0 {
			if _, ok := take(1); ok {
				q.Stores[s].Faults = nil
				return q
			}
		}
		if j, ok := take(len(q.Stores[s].Faults)); ok {
			q.Stores[s].Faults = append(q.Stores[s].Faults[:j], q.Stores[s].Faults[j+1:]...)
			return q
		}
	}
	for s := range q.Stores {
		if b := q.Stores[s].B; b != nil {
			if j, ok := take(len(b.Outages)); ok {
				b.Outages = append(b.Outages[:j], b.Outages[j+1:]...)
				return q
			}
		}
	}
	if len(q.Stores) > 1 && q.Main == nil {
		if j, ok := take(len(q.Stores)); ok {
			q.Stores = append(q.Stores[:j], q.Stores[j+1:]...)
			return q
		}
	}
	// records and subrecords
	for t := range q.Terms {
		for m := range q.Terms[t].Items {
			pk := q.Terms[t].Items[m].P
			if pk == nil || len(q.Terms[t].Items[m].Flips) > 0 {
				continue
			}
			if len(pk.Recs) > 1 {
				if j, ok := take(len(pk.Recs)); ok {
					pk.Recs = append(pk.Recs[:j], pk.Recs[j+1:]...)
					return q
				}
			}
			for r := range pk.Recs {
				if j, ok := take(len(pk.Recs[r].Subs)); ok {
					pk.Recs[r].Subs = append(pk.Recs[r].Subs[:j], pk.Recs[r].Subs[j+1:]...)
					return q
				}
			}
		}
	}
	// timing and the rest
	for t := range q.Terms {
		x := &q.Terms[t]
		if one(x.PauseAt > 0) {
			x.PauseAt, x.PauseMs, x.Window = 0, 0, 0
			return q
		}
		if one(x.FreezeAt > 0) {
			x.FreezeAt, x.FreezeMs = 0, 0
			return q
		}
		if one(x.Retry) {
			x.Retry = false
			return q
		}
		if one(x.End != "keep") {
			x.End = "keep"
			return q
		}
		if one(x.StartMs > 0) {
			x.StartMs = 0
			return q
		}
		for m := range x.Items {
			it := &x.Items[m]
			if one(len(it.Cuts) > 0) {
				it.Cuts = nil
				return q
			}
			if one(it.DelayMs > 0) {
				it.DelayMs = 0
				return q
			}
			if one(it.Wait) {
				it.Wait = false
				return q
			}
			if len(it.Flips) > 1 {
				if j, ok := take(len(it.Flips)); ok {
					it.Flips = append(it.Flips[:j], it.Flips[j+1:]...)
					return q
				}
			}
		}
	}
	for s := range q.Stores {
		if one(q.Stores[s].DelayMaxUs > 0) {
			q.Stores[s].DelayMaxUs, q.Stores[s].DelayMinUs = 0, 0
			return q
		}
		if one(q.Stores[s].Late) {
			q.Stores[s].Late = false
			return q
		}
	}
	if one(q.LatMaxUs > 0) {
		q.LatMaxUs, q.LatMinUs = 0, 0
		return q
	}
	if one(q.ReadMode > 0) {
		q.ReadMode = 0
		return q
	}
	if one(q.Debug) {
		q.Debug = false
		return q
	}
	if one(q.Sched.Mode > 0) {
		q.Sched.Mode = 0
		return q
	}
	return nil
}

func (p *Plan) same() *Plan { q := p.Clone(); q.Prop = ""; return q }

func (q *Plan) reduceLib(take func(int) (int, bool), one func(bool) bool) *Plan {
	lp := q.Lib
	if len(lp.Links) > 1 {
		if j, ok := take(len(lp.Links)); ok {
			lp.Links = append(lp.Links[:j], lp.Links[j+1:]...)
			return q
		}
	}
	for i := range lp.Links {
		if j, ok := take(len(lp.Links[i].Msgs)); ok {
			lp.Links[i].Msgs = append(lp.Links[i].Msgs[:j], lp.Links[i].Msgs[j+1:]...)
			return q
		}
	}
	for i := range lp.Links {
		l := &lp.Links[i]
		for k := range l.Msgs {
			m := &l.Msgs[k]
			if len(m.Flips) > 0 || m.Trunc > 0 {
				if one(true) {
					m.Flips, m.Trunc = nil, 0
					return q
				}
			}
			if len(m.Recs) > 1 || m.PT == 0 {
				if j, ok := take(len(m.Recs)); ok {
					m.Recs = append(m.Recs[:j], m.Recs[j+1:]...)
					return q
				}
			}
			for x := range m.Recs {
				if j, ok := take(len(m.Recs[x].Subs)); ok {
					m.Recs[x].Subs = append(m.Recs[x].Subs[:j], m.Recs[x].Subs[j+1:]...)
					return q
				}
			}
			if one(m.Ena != 0) {
				m.Ena = 0
				return q
			}
			if one(m.JSON) {
				m.JSON = false
				return q
			}
			if one(m.Dup > 0) {
				m.Dup = 0
				return q
			}
			if one(m.GapUs > 0) {
				m.GapUs = 0
				return q
			}
			if one(m.DelayUs > 0) {
				m.DelayUs = 0
				return q
			}
			if one(m.Route) {
				m.Route = false
				return q
			}
			if one(m.Foreign) {
				m.Foreign = false
				return q
			}
		}
		if one(l.Fan > 1) {
			l.Fan = 1
			return q
		}
		if one(l.Shared) {
			l.Shared = false
			return q
		}
		if one(l.StartMs > 0) {
			l.StartMs = 0
			return q
		}
	}
	for i := range lp.Keys {
		if one(lp.Keys[i].SlowUs > 0) {
			lp.Keys[i].SlowUs = 0
			return q
		}
		if one(lp.Keys[i].FailMod > 0) {
			lp.Keys[i].FailMod = 0
			return q
		}
	}
	if one(q.LatMaxUs > 0) {
		q.LatMaxUs, q.LatMinUs = 0, 0
		return q
	}
	if one(q.Sched.Mode > 0) {
		q.Sched.Mode = 0
		return q
	}
	return nil
}
