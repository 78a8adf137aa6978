// Package ref is an independent, minimal reference for the EGTS wire format and
// for what the receiver must make of it.  It shares no code with the library
// under test.
package ref

import (
	"encoding/binary"
	"fmt"
)

// Epoch is 2010-01-01T00:00:00Z, the zero of EGTS time.
const Epoch = 1262304000

// CRC8 is the EGTS header checksum (poly 0x31, init 0xFF), bit-serial.
func CRC8(b []byte) byte {
	r := uint16(0xFF)
	for _, x := range b {
		for i := 7; i >= 0; i-- {
			bit := uint16(x>>uint(i)) & 1
			top := (r >> 7) & 1
			r = (r << 1) & 0xFF
			if top^bit == 1 {
				r ^= 0x31
			}
		}
	}
	return byte(r)
}

// CRC16 is the EGTS body checksum (CCITT, init 0xFFFF), bit-serial.
func CRC16(b []byte) uint16 {
	r := uint32(0xFFFF)
	for _, x := range b {
		for i := 7; i >= 0; i-- {
			bit := uint32(x>>uint(i)) & 1
			top := (r >> 15) & 1
			r = (r << 1) & 0xFFFF
			if top^bit == 1 {
				r ^= 0x1021
			}
		}
	}
	return uint16(r)
}

// Pos is EGTS_SR_POS_DATA.
type Pos struct {
	Nav   uint32 `json:"nav"`
	Lat   uint32 `json:"lat"`
	Lon   uint32 `json:"lon"`
	South bool   `json:"south,omitempty"`
	West  bool   `json:"west,omitempty"`
	Alt   *int   `json:"alt,omitempty"`
	Low   uint8  `json:"low,omitempty"` // MV,BB,CS,FIX,VLD bits
	Speed uint16 `json:"speed"`         // 0.1 km/h, 14 bits
	DirH  bool   `json:"dirh,omitempty"`
	Dir   uint8  `json:"dir"`
	Odo   uint32 `json:"odo,omitempty"`
	Din   uint8  `json:"din,omitempty"`
	Src   uint8  `json:"src,omitempty"`
	SD    []byte `json:"sd,omitempty"` // source data
}

// Ext is EGTS_SR_EXT_POS_DATA; nil fields are absent.
type Ext struct {
	Vdop *uint16 `json:"vdop,omitempty"`
	Hdop *uint16 `json:"hdop,omitempty"`
	Pdop *uint16 `json:"pdop,omitempty"`
	Sat  *uint8  `json:"sat,omitempty"`
	Ns   *uint16 `json:"ns,omitempty"`
}

// Ad is EGTS_SR_AD_SENSORS_DATA.
type Ad struct {
	Dio   uint8      `json:"dio,omitempty"`
	Octs  uint8      `json:"octs,omitempty"`
	Oct   [8]uint8   `json:"oct"`
	Ans   [8]*uint32 `json:"ans"`
	DioEx uint8      `json:"-"`
}

// Sub is one subrecord.
type Sub struct {
	Pos  *Pos  `json:"pos,omitempty"`
	Ext  *Ext  `json:"ext,omitempty"`
	Ad   *Ad   `json:"ad,omitempty"`
	An   *KV   `json:"an,omitempty"`   // EGTS_SR_ABS_AN_SENS_DATA
	Cntr *KV   `json:"cntr,omitempty"` // EGTS_SR_ABS_CNTR_DATA
	Liq  *Liq  `json:"liq,omitempty"`
	Term *Term `json:"term,omitempty"`
	Auth *Auth `json:"auth,omitempty"`
	Conf *Conf `json:"conf,omitempty"` // EGTS_SR_RECORD_RESPONSE
	Raw  *Raw  `json:"raw,omitempty"`
	Cut  int   `json:"cut,omitempty"` // malformed: keep only this many data bytes (plus one)
}

// KV is a numbered value of three bytes.
type KV struct {
	N uint8  `json:"n"`
	V uint32 `json:"v"`
}

// Liq is EGTS_SR_LIQUID_LEVEL_SENSOR.
type Liq struct {
	Err  bool   `json:"err,omitempty"`
	Unit uint8  `json:"unit"`
	Raw  bool   `json:"raw,omitempty"`
	Num  uint8  `json:"num"`
	Addr uint16 `json:"addr,omitempty"`
	Val  uint32 `json:"val"`
}

// Term is EGTS_SR_TERM_IDENTITY.
type Term struct {
	TID   uint32 `json:"tid"`
	Flags uint8  `json:"flags,omitempty"`
}

// Auth is EGTS_SR_AUTH_INFO.
type Auth struct {
	User string `json:"user"`
	Pass string `json:"pass"`
	Seq  string `json:"seq,omitempty"`
}

// Conf is EGTS_SR_RECORD_RESPONSE.
type Conf struct {
	RN uint16 `json:"rn"`
	St uint8  `json:"st"`
}

// Raw is any other subrecord.
type Raw struct {
	T uint8  `json:"t"`
	D []byte `json:"d"`
}

// Rec is one service data record.
type Rec struct {
	RN   uint16  `json:"rn"`
	OID  *uint32 `json:"oid,omitempty"`
	Ev   *uint32 `json:"ev,omitempty"`
	Tm   *uint32 `json:"tm,omitempty"`
	Hi   uint8   `json:"hi,omitempty"` // SSOD,RSOD,GRP,RPP bits
	SST  uint8   `json:"sst"`
	RST  uint8   `json:"rst"`
	Subs []Sub   `json:"subs"`
}

// Packet is an EGTS packet.
type Packet struct {
	SKID  uint8  `json:"skid,omitempty"`
	Prio  uint8  `json:"prio,omitempty"`
	HE    uint8  `json:"he,omitempty"`
	Route bool   `json:"route,omitempty"`
	PRA   uint16 `json:"pra,omitempty"`
	RCA   uint16 `json:"rca,omitempty"`
	TTL   uint8  `json:"ttl,omitempty"`
	PID   uint16 `json:"pid"`
	PT    uint8  `json:"pt"`
	Recs  []Rec  `json:"recs,omitempty"`
	// response packets
	RPID uint16 `json:"rpid,omitempty"`
	PR   uint8  `json:"pr,omitempty"`
	// Ena marks the body as encrypted (bits 4,3), Cmp as compressed.
	Ena  uint8  `json:"ena,omitempty"`
	Cmp  bool   `json:"cmp,omitempty"`
	Body []byte `json:"body,omitempty"` // verbatim body, overrides Recs
}

func le16(b []byte, v uint16) []byte { return append(b, byte(v), byte(v>>8)) }
func le24(b []byte, v uint32) []byte { return append(b, byte(v), byte(v>>8), byte(v>>16)) }
func le32(b []byte, v uint32) []byte {
	return append(b, byte(v), byte(v>>8), byte(v>>16), byte(v>>24))
}

func bit(c bool, n uint) byte {
	if c {
		return 1 << n
	}
	return 0
}

// Data encodes the subrecord's type and data.
func (s *Sub) Data() (t uint8, d []byte) {
	switch {
	case s.Pos != nil:
		p := s.Pos
		t = 16
		d = le32(d, p.Nav)
		d = le32(d, p.Lat)
		d = le32(d, p.Lon)
		d = append(d, bit(p.Alt != nil, 7)|bit(p.West, 6)|bit(p.South, 5)|p.Low&0x1f)
		sp := p.Speed & 0x3fff
		if p.DirH {
			sp |= 0x8000
		}
		if p.Alt != nil && *p.Alt < 0 {
			sp |= 0x4000
		}
		d = le16(d, sp)
		d = append(d, p.Dir)
		d = le24(d, p.Odo)
		d = append(d, p.Din, p.Src)
		if p.Alt != nil {
			a := *p.Alt
			if a < 0 {
				a = -a
			}
			d = le24(d, uint32(a))
		}
		d = append(d, p.SD...)
	case s.Ext != nil:
		e := s.Ext
		t = 17
		d = append(d, bit(e.Ns != nil, 4)|bit(e.Sat != nil, 3)|bit(e.Pdop != nil, 2)|bit(e.Hdop != nil, 1)|bit(e.Vdop != nil, 0))
		if e.Vdop != nil {
			d = le16(d, *e.Vdop)
		}
		if e.Hdop != nil {
			d = le16(d, *e.Hdop)
		}
		if e.Pdop != nil {
			d = le16(d, *e.Pdop)
		}
		if e.Sat != nil {
			d = append(d, *e.Sat)
		}
		if e.Ns != nil {
			d = le16(d, *e.Ns)
		}
	case s.Ad != nil:
		a := s.Ad
		t = 18
		var f byte
		for i, v := range a.Ans {
			f |= bit(v != nil, uint(i))
		}
		d = append(d, a.Octs, a.Dio, f)
		for i := 0; i < 8; i++ {
			if a.Octs>>uint(i)&1 == 1 {
				d = append(d, a.Oct[i])
			}
		}
		for _, v := range a.Ans {
			if v != nil {
				d = le24(d, *v)
			}
		}
	case s.An != nil:
		t = 24
		d = le24(append(d, s.An.N), s.An.V)
	case s.Cntr != nil:
		t = 25
		d = le24(append(d, s.Cntr.N), s.Cntr.V)
	case s.Liq != nil:
		l := s.Liq
		t = 27
		d = append(d, bit(l.Err, 6)|(l.Unit&3)<<4|bit(l.Raw, 3)|l.Num&7)
		d = le16(d, l.Addr)
		d = le32(d, l.Val)
	case s.Term != nil:
		x := s.Term
		t = 1
		d = le32(d, x.TID)
		d = append(d, x.Flags)
		if x.Flags&1 != 0 {
			d = le16(d, 7)
		}
		if x.Flags&2 != 0 {
			d = append(d, "123456789012345"...)
		}
		if x.Flags&4 != 0 {
			d = append(d, "2500112345678901"...)
		}
		if x.Flags&8 != 0 {
			d = append(d, "rus"...)
		}
		if x.Flags&32 != 0 {
			d = append(d, 1, 2, 3)
		}
		if x.Flags&64 != 0 {
			d = le16(d, 1024)
		}
		if x.Flags&128 != 0 {
			d = append(d, "79991234567    "...)
		}
	case s.Auth != nil:
		t = 7
		d = append(d, s.Auth.User...)
		d = append(d, 0)
		d = append(d, s.Auth.Pass...)
		d = append(d, 0)
		if s.Auth.Seq != "" {
			d = append(d, s.Auth.Seq...)
			d = append(d, 0)
		}
	case s.Conf != nil:
		t = 0
		d = append(le16(d, s.Conf.RN), s.Conf.St)
	case s.Raw != nil:
		t = s.Raw.T
		d = s.Raw.D
	}
	if s.Cut > 0 && s.Cut-1 < len(d) {
		d = d[:s.Cut-1]
	}
	return
}

func encRecs(recs []Rec) []byte {
	var b []byte
	for i := range recs {
		r := &recs[i]
		var rd []byte
		for j := range r.Subs {
			t, d := r.Subs[j].Data()
			rd = append(rd, t)
			rd = le16(rd, uint16(len(d)))
			rd = append(rd, d...)
		}
		b = le16(b, uint16(len(rd)))
		b = le16(b, r.RN)
		b = append(b, r.Hi&0xf8|bit(r.Tm != nil, 2)|bit(r.Ev != nil, 1)|bit(r.OID != nil, 0))
		if r.OID != nil {
			b = le32(b, *r.OID)
		}
		if r.Ev != nil {
			b = le32(b, *r.Ev)
		}
		if r.Tm != nil {
			b = le32(b, *r.Tm)
		}
		b = append(b, r.SST, r.RST)
		b = append(b, rd...)
	}
	return b
}

// HeaderLen is the packet's header length.
func (p *Packet) HeaderLen() int {
	if p.Route {
		return 16
	}
	return 11
}

// BodyBytes encodes the packet's body.
func (p *Packet) BodyBytes() []byte {
	if p.Body != nil {
		return p.Body
	}
	if p.PT == 0 {
		return append(append(le16(nil, p.RPID), p.PR), encRecs(p.Recs)...)
	}
	return encRecs(p.Recs)
}

// Encode produces the wire bytes.
func (p *Packet) Encode() []byte {
	body := p.BodyBytes()
	h := []byte{1, p.SKID, bit(p.Route, 5) | (p.Ena&3)<<3 | bit(p.Cmp, 2) | p.Prio&3, byte(p.HeaderLen()), p.HE}
	h = le16(h, uint16(len(body)))
	h = le16(h, p.PID)
	h = append(h, p.PT)
	if p.Route {
		h = le16(h, p.PRA)
		h = le16(h, p.RCA)
		h = append(h, p.TTL)
	}
	h = append(h, CRC8(h))
	if len(body) > 0 {
		h = append(h, body...)
		h = le16(h, CRC16(body))
	}
	return h
}

// Confirm is one record confirmation in a response.
type Confirm struct {
	RN  uint16
	St  uint8
	SST uint8
}

// Frame is a packet parsed from the receiver's output.
type Frame struct {
	Len      int
	PID      uint16
	PT       uint8
	RPID     uint16
	PR       uint8
	Confirms []Confirm
	Results  []uint8 // EGTS_SR_RESULT_CODE values
	SSTs     []uint8
	Other    int // subrecords of any other kind
	Bad      string
	Body     []byte
}

// NextFrame strictly parses the first packet of b.  n == 0: more bytes needed.
// A non-empty Bad means the bytes are not a well-formed EGTS packet; framing is
// then lost if fatal is true.
func NextFrame(b []byte) (f Frame, n int, fatal bool) {
	if len(b) == 0 {
		return
	}
	if b[0] != 1 {
		f.Bad = fmt.Sprintf("protocol version %d", b[0])
		return f, len(b), true
	}
	if len(b) < 11 {
		return f, 0, false
	}
	hl := int(b[3])
	want := 11
	if b[2]&0x20 != 0 {
		want = 16
	}
	if hl != want {
		f.Bad = fmt.Sprintf("header length %d", hl)
		return f, len(b), true
	}
	fdl := int(binary.LittleEndian.Uint16(b[5:7]))
	total := hl + fdl
	if fdl > 0 {
		total += 2
	}
	if len(b) < hl {
		return f, 0, false
	}
	if CRC8(b[:hl-1]) != b[hl-1] {
		f.Bad = "header checksum"
		return f, len(b), true
	}
	if len(b) < total {
		return f, 0, false
	}
	f.Len = total
	f.PID = binary.LittleEndian.Uint16(b[7:9])
	f.PT = b[9]
	body := b[hl : hl+fdl]
	f.Body = body
	if fdl > 0 && CRC16(body) != binary.LittleEndian.Uint16(b[hl+fdl:]) {
		f.Bad = "body checksum"
		return f, total, false
	}
	if b[2]&0xDC != 0 {
		f.Bad = fmt.Sprintf("flags %08b", b[2])
		return f, total, false
	}
	switch f.PT {
	case 0:
		if len(body) < 3 {
			f.Bad = "response body too short"
			return f, total, false
		}
		f.RPID = binary.LittleEndian.Uint16(body)
		f.PR = body[2]
		f.Bad = f.records(body[3:])
	case 1:
		f.Bad = f.records(body)
	default:
		f.Bad = fmt.Sprintf("packet type %d", f.PT)
	}
	return f, total, false
}

func (f *Frame) records(b []byte) string {
	for len(b) > 0 {
		if len(b) < 7 {
			return "truncated record header"
		}
		rl := int(binary.LittleEndian.Uint16(b))
		fl := b[4]
		o := 5
		for i := uint(0); i < 3; i++ {
			if fl>>i&1 == 1 {
				o += 4
			}
		}
		if len(b) < o+2+rl {
			return "record longer than the body"
		}
		sst := b[o]
		f.SSTs = append(f.SSTs, sst)
		d := b[o+2 : o+2+rl]
		for len(d) > 0 {
			if len(d) < 3 {
				return "truncated subrecord"
			}
			l := int(binary.LittleEndian.Uint16(d[1:]))
			if len(d) < 3+l {
				return "subrecord longer than the record"
			}
			x := d[3 : 3+l]
			switch d[0] {
			case 0:
				if l != 3 {
					return "record response of wrong length"
				}
				f.Confirms = append(f.Confirms, Confirm{binary.LittleEndian.Uint16(x), x[2], sst})
			case 9:
				if l != 1 {
					return "result code of wrong length"
				}
				f.Results = append(f.Results, x[0])
			default:
				f.Other++
			}
			d = d[3+l:]
		}
		b = b[o+2+rl:]
	}
	return ""
}

// Sensor and Liquid are the sensor lists of a stored record.
type Sensor struct {
	N uint8  `json:"sensor_number"`
	V uint32 `json:"value"`
}

// Liquid is a stored tank level.
type Liquid struct {
	N   uint8  `json:"sensor_number"`
	Err string `json:"error_flag"`
	Mm  uint32 `json:"value_mm"`
	L   uint32 `json:"value_l"`
}

// Nav is a stored record, as the receiver's JSON describes it.
type Nav struct {
	Client uint32   `json:"client"`
	PID    uint32   `json:"packet_id"`
	Nav    int64    `json:"navigation_unix_time"`
	Recv   int64    `json:"received_unix_time"`
	Lat    float64  `json:"latitude"`
	Lon    float64  `json:"longitude"`
	Speed  uint32   `json:"speed"`
	Pdop   uint32   `json:"pdop"`
	Hdop   uint32   `json:"hdop"`
	Vdop   uint32   `json:"vdop"`
	Nsat   uint32   `json:"nsat"`
	Ns     uint32   `json:"ns"`
	Course uint32   `json:"course"`
	An     []Sensor `json:"an_sensors"`
	Liq    []Liquid `json:"liquid_sensors"`
}

// Client tracks the identity announced on one connection.
type Client struct{ ID uint32 }

// Expect computes what one record must be stored as; ok is false when it holds
// no position.  It advances the connection's identity.
func Expect(pid uint16, r *Rec, c *Client) (n Nav, ok bool, dirh bool) {
	n.PID = uint32(pid)
	if r.OID != nil {
		c.ID = *r.OID
	}
	var lo, hi uint32
	cnt := false
	for i := range r.Subs {
		s := &r.Subs[i]
		switch {
		case s.Term != nil:
			c.ID = s.Term.TID
		case s.Pos != nil:
			p := s.Pos
			ok = true
			n.Nav = Epoch + int64(p.Nav)
			n.Lat = float64(p.Lat) / 4294967295.0 * 90
			n.Lon = float64(p.Lon) / 4294967295.0 * 180
			if p.South {
				n.Lat = -n.Lat
			}
			if p.West {
				n.Lon = -n.Lon
			}
			n.Speed = uint32(p.Speed / 10)
			n.Course = uint32(p.Dir)
			if p.DirH {
				n.Course += 256
				dirh = true
			} else {
				dirh = false
			}
		case s.Ext != nil:
			e := s.Ext
			n.Pdop, n.Hdop, n.Vdop, n.Nsat, n.Ns = 0, 0, 0, 0, 0
			if e.Pdop != nil {
				n.Pdop = uint32(*e.Pdop)
			}
			if e.Hdop != nil {
				n.Hdop = uint32(*e.Hdop)
			}
			if e.Vdop != nil {
				n.Vdop = uint32(*e.Vdop)
			}
			if e.Sat != nil {
				n.Nsat = uint32(*e.Sat)
			}
			if e.Ns != nil {
				n.Ns = uint32(*e.Ns)
			}
		case s.Ad != nil:
			for k, v := range s.Ad.Ans {
				if v != nil {
					n.An = append(n.An, Sensor{uint8(k + 1), *v & 0xffffff})
				}
			}
		case s.An != nil:
			n.An = append(n.An, Sensor{s.An.N, s.An.V & 0xffffff})
		case s.Cntr != nil:
			switch s.Cntr.N {
			case 110:
				lo, cnt = s.Cntr.V&0xffffff, true
			case 111:
				hi, cnt = s.Cntr.V&0xff, true
			}
		case s.Liq != nil:
			l := Liquid{N: s.Liq.Num & 7, Err: "0"}
			if s.Liq.Err {
				l.Err = "1"
			}
			switch s.Liq.Unit & 3 {
			case 0, 1:
				l.Mm = s.Liq.Val
			case 2:
				l.L = s.Liq.Val * 10
			}
			n.Liq = append(n.Liq, l)
		}
	}
	if cnt {
		n.PID = hi<<24 | lo
	}
	n.Client = c.ID
	return
}
