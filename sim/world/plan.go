// Package world holds the simulated worlds: what runs, what the environment does
// to it, what is recorded, and the oracles that judge the record.
package world

import (
	"encoding/json"
	"time"

	"egtsverif/des"
	"egtsverif/ref"
)

// Plan fully determines a run together with the choice sequence.
type Plan struct {
	Prop  string    `json:"prop"`
	Seed  uint64    `json:"seed"`
	Kind  string    `json:"kind"` // server, main, gen, lib
	Sched des.Sched `json:"sched"`

	TTLms    int  `json:"ttl_ms,omitempty"`
	LatMinUs int  `json:"lat_min_us,omitempty"`
	LatMaxUs int  `json:"lat_max_us,omitempty"`
	ReadMode int  `json:"read_mode,omitempty"`
	Debug    bool `json:"debug,omitempty"`
	TailMs   int  `json:"tail_ms"` // simulated time after the last planned action

	Stores []StorePlan `json:"stores,omitempty"`
	Terms  []TermPlan  `json:"terms,omitempty"`

	AcceptErrs []AcceptErr `json:"accept_errs,omitempty"`
	Crashes    []Crash     `json:"crashes,omitempty"`
	Jumps      []Jump      `json:"jumps,omitempty"`
	StopMs     int         `json:"stop_ms,omitempty"`
	Addrs      int         `json:"addrs,omitempty"` // where terminals connect from
	ClockYears int         `json:"clock_years,omitempty"`
	Solo       int         `json:"solo,omitempty"` // C06: terminal (1-based) that is also run alone

	Main *MainPlan `json:"main,omitempty"`
	Gen  *GenPlan  `json:"gen,omitempty"`
	Lib  *LibPlan  `json:"lib,omitempty"`
}

// StorePlan describes one simulated storage.
type StorePlan struct {
	DelayMinUs int          `json:"delay_min_us,omitempty"`
	DelayMaxUs int          `json:"delay_max_us,omitempty"`
	Late       bool         `json:"late,omitempty"` // serialises the record only after the delay
	Faults     []SaveFault  `json:"faults,omitempty"`
	B          *BackendPlan `json:"b,omitempty"`      // a real connector talks to this back end
	Unused     bool         `json:"unused,omitempty"` // it must refuse, and receive nothing
}

// SaveFault hits the save of the record with navigation time Nav.
type SaveFault struct {
	Nav     uint32 `json:"nav"`
	Err     bool   `json:"err,omitempty"`
	StallMs int    `json:"stall_ms,omitempty"`
	Times   int    `json:"times,omitempty"` // how many saves of it are hit; 0: all
	Kind    int    `json:"kind,omitempty"`  // which error
}

// AcceptErr makes the N-th accept call (1-based, per listener) fail.
type AcceptErr struct {
	N   int    `json:"n"`
	Err string `json:"err"`
}

// Crash kills the receiver.
type Crash struct {
	On        string `json:"on"` // save, saved, write, read, ms
	N         int    `json:"n"`
	RestartMs int    `json:"restart_ms"`
}

// Jump steps the wall clock.
type Jump struct {
	AtMs    int `json:"at_ms"`
	DeltaMs int `json:"delta_ms"`
}

// TermPlan is one terminal.
type TermPlan struct {
	StartMs  int    `json:"start_ms"`
	Items    []Item `json:"items"`
	End      string `json:"end"` // keep, fin, close, abort
	EndMs    int    `json:"end_ms,omitempty"`
	Window   int    `json:"window,omitempty"`
	PauseAt  int    `json:"pause_at,omitempty"` // 1-based item after which the terminal stops reading
	PauseMs  int    `json:"pause_ms,omitempty"`
	Retry    bool   `json:"retry,omitempty"` // reconnects and resends what was not confirmed
	Bad      bool   `json:"bad,omitempty"`   // a disturbing terminal (C06, C12)
	FreezeAt int    `json:"freeze_at,omitempty"`
	FreezeMs int    `json:"freeze_ms,omitempty"`
}

// Item is one thing a terminal sends.
type Item struct {
	P       *ref.Packet `json:"p,omitempty"`
	Raw     []byte      `json:"raw,omitempty"`
	Flips   []Flip      `json:"flips,omitempty"`
	Trunc   int         `json:"trunc,omitempty"` // send only the first Trunc bytes
	DelayMs int         `json:"delay_ms,omitempty"`
	Wait    bool        `json:"wait,omitempty"` // first wait for the answers to everything before
	Cuts    []Cut       `json:"cuts,omitempty"`
}

// Flip damages one byte.
type Flip struct {
	Off int   `json:"off"`
	Xor uint8 `json:"xor"`
}

// Cut splits the item's bytes at Off and pauses.
type Cut struct {
	Off     int `json:"off"`
	PauseMs int `json:"pause_ms"`
}

// Classes of items, by what the receiver must do with them.
const (
	ClsOK      = "ok"      // store and confirm
	ClsSilent  = "silent"  // no answer, nothing stored
	ClsNeg     = "neg"     // negative answer, nothing stored
	ClsCorrupt = "corrupt" // damaged in transit: negative answer, nothing stored
	ClsAny     = "any"     // one answer of any kind, nothing stored
	ClsPoison  = "poison"  // framing destroyed: nothing after it is promised
	ClsPart    = "part"    // incomplete: nothing stored
)

// Bytes are the item's wire bytes.
func (it *Item) Bytes() []byte {
	var b []byte
	if it.P != nil {
		b = it.P.Encode()
	} else {
		b = append(b, it.Raw...)
	}
	for _, f := range it.Flips {
		if f.Off >= 0 && f.Off < len(b) {
			b[f.Off] ^= f.Xor
		}
	}
	if it.Trunc > 0 && it.Trunc < len(b) {
		b = b[:it.Trunc]
	}
	return b
}

// Class decides what the receiver owes the item.
func (it *Item) Class() string {
	if it.P == nil {
		return ClsPoison
	}
	orig := it.P.Encode()
	if it.Trunc > 0 && it.Trunc < len(orig) {
		return ClsPart
	}
	if len(it.Flips) > 0 {
		b := it.Bytes()
		if b[0] != orig[0] || b[3] != orig[3] || b[5] != orig[5] || b[6] != orig[6] {
			return ClsPoison
		}
		hl := it.P.HeaderLen()
		hdr := ref.CRC8(b[:hl-1]) == b[hl-1]
		body := it.P.BodyBytes()
		bodyOK := true
		if len(body) > 0 {
			e := hl + len(body)
			bodyOK = ref.CRC16(b[hl:e]) == uint16(b[e])|uint16(b[e+1])<<8
		}
		if !hdr || !bodyOK {
			return ClsCorrupt
		}
		for i := range b {
			if b[i] != orig[i] {
				return ClsPoison // an undetectable change: nothing is promised
			}
		}
	}
	p := it.P
	switch {
	case p.Ena != 0:
		return ClsNeg
	case p.PT == 0:
		return ClsSilent
	case p.PT != 1:
		return ClsNeg
	case p.Body != nil:
		if len(p.Body) == 0 {
			return ClsAny
		}
		return ClsNeg
	case len(p.Recs) == 0:
		return ClsAny
	}
	conf := false
	for i := range p.Recs {
		for j := range p.Recs[i].Subs {
			s := &p.Recs[i].Subs[j]
			if s.Cut > 0 {
				return ClsNeg
			}
			if s.Conf != nil {
				conf = true
			}
		}
	}
	if conf {
		return ClsSilent
	}
	return ClsOK
}

// Auth reports whether the item asks for authorisation.
func (it *Item) Auth() bool {
	if it.P == nil {
		return false
	}
	for i := range it.P.Recs {
		for j := range it.P.Recs[i].Subs {
			if s := &it.P.Recs[i].Subs[j]; s.Term != nil || s.Auth != nil {
				return true
			}
		}
	}
	return false
}

// JSON is the plan's canonical text.
func (p *Plan) JSON() []byte {
	b, err := json.Marshal(p)
	if err != nil {
		panic(err)
	}
	return b
}

// Clone copies a plan.
func (p *Plan) Clone() *Plan {
	var q Plan
	if err := json.Unmarshal(p.JSON(), &q); err != nil {
		panic(err)
	}
	return &q
}

func ms(n int) time.Duration { return time.Duration(n) * time.Millisecond }
func us(n int) time.Duration { return time.Duration(n) * time.Microsecond }

// Violation is one broken property instance.
type Violation struct {
	Prop  string `json:"prop"`
	Class string `json:"class"`
	Msg   string `json:"msg"`
	Known string `json:"known,omitempty"`
}

// Result of a run.
type Result struct {
	Viol       []Violation
	Infra      string
	Hash       uint64
	Ilv        uint64
	Choices    []int
	Log        []string
	SimTime    time.Duration
	Steps      int64
	Yields     int64
	Preempts   int64
	Frags      int64
	Overrun    bool
	Stats      map[string]int64
	Probes     map[string]int64
	Shape      string
	Nontrivial bool
	w          *W
}
