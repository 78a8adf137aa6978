package world

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"hash/fnv"
	"math"
	"math/rand"
	"reflect"
	"runtime/debug"
	"strings"
	"time"

	"egtsverif/des"
	"egtsverif/ref"
	"egtsverif/simrt"

	"github.com/kuznetsovin/egts-protocol/libs/egts"
)

// LibPlan is a run of programs that use the protocol library: senders encode
// packets, the network carries them, receivers decode them, all at once in one
// process.
type LibPlan struct {
	Keys  []LibKey  `json:"keys,omitempty"`
	Links []LibLink `json:"links"`
}

// LibKey is a simulated encryption key.
type LibKey struct {
	Kind    string `json:"kind"` // xor, pad, inplace, wide
	ID      uint64 `json:"id"`
	FailMod int    `json:"fail_mod,omitempty"` // fails for about one in so many contents
	SlowUs  int    `json:"slow_us,omitempty"`
}

// LibLink is one sender and its receivers.
type LibLink struct {
	StartMs int      `json:"start_ms,omitempty"`
	SKey    int      `json:"skey,omitempty"` // 1-based; 0: none
	RKey    int      `json:"rkey,omitempty"`
	Fan     int      `json:"fan"`
	Shared  bool     `json:"shared,omitempty"` // receivers decode the same memory
	Msgs    []LibMsg `json:"msgs"`
}

// LibMsg is one packet.
type LibMsg struct {
	Seed    uint64   `json:"seed"`
	PT      uint8    `json:"pt"`
	Ena     uint8    `json:"ena,omitempty"`
	Route   bool     `json:"route,omitempty"`
	Recs    []LibRec `json:"recs,omitempty"`
	Auto    bool     `json:"auto,omitempty"`    // lengths and types are left to the library
	Foreign bool     `json:"foreign,omitempty"` // encoded by another implementation
	JSON    bool     `json:"json,omitempty"`
	Bad     uint64   `json:"bad,omitempty"` // seed: some part is cut short, with right checksums
	Raw     []byte   `json:"raw,omitempty"`
	Flips   []Flip   `json:"flips,omitempty"`
	Trunc   int      `json:"trunc,omitempty"` // bytes cut off the end
	GapUs   int      `json:"gap_us,omitempty"`
	DelayUs int      `json:"delay_us,omitempty"`
	Dup     int      `json:"dup,omitempty"`
	Lose    bool     `json:"lose,omitempty"`
}

// LibRec is one record.
type LibRec struct {
	Seed uint64   `json:"seed"`
	Subs []LibSub `json:"subs,omitempty"`
}

// LibSub is one subrecord.
type LibSub struct {
	K string `json:"k"`
	S uint64 `json:"s"`
	N int    `json:"n,omitempty"` // length of its text, when it is to be long
}

type smix uint64

func (s *smix) Uint64() uint64 {
	*s += 0x9e3779b97f4a7c15
	z := uint64(*s)
	z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
	z = (z ^ z>>27) * 0x94d049bb133111eb
	return z ^ z>>31
}
func (s *smix) Int63() int64    { return int64(s.Uint64() >> 1) }
func (s *smix) Seed(seed int64) { *s = smix(seed) }

func rnd(seed uint64) *rand.Rand { s := smix(seed); return rand.New(&s) }

func hash64(bs ...[]byte) uint64 {
	h := fnv.New64a()
	for _, b := range bs {
		h.Write(b)
		h.Write([]byte{1})
	}
	z := h.Sum64()
	z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
	return z ^ z>>29
}

// ---- keys

var errKey = errors.New("simulated key failure")
var errMAC = errors.New("simulated key: not encrypted with this key")

// keyUse is one use of a key by one operation.
type keyUse struct {
	k     *LibKey
	s     *des.Sim // nil when run alone
	tag   string
	enc   int
	dec   int
	plain []byte // what Encode was given
}

func (k *LibKey) idb() []byte { return binary.LittleEndian.AppendUint64(nil, k.ID) }

func (k *LibKey) fails(b []byte, what byte) bool {
	return k.FailMod > 0 && hash64(k.idb(), b, []byte{what})%uint64(k.FailMod) == 0
}

func (k *LibKey) stream(nonce uint64, b []byte) {
	s := smix(k.ID ^ nonce*0x9e3779b97f4a7c15 ^ 0x77)
	for i := range b {
		b[i] ^= byte(s.Uint64())
	}
}

func (k *LibKey) mac(plain []byte) []byte {
	return binary.LittleEndian.AppendUint32(nil, uint32(hash64(k.idb(), plain)))
}

// seal is what the key makes of a content.
func (k *LibKey) seal(data []byte) []byte {
	m := k.mac(data)
	switch k.Kind {
	case "inplace":
		k.stream(7, data)
		return append(data, m...)
	case "pad":
		n := 8 - len(data)%8
		out := append([]byte{byte(n)}, data...)
		out = append(out, make([]byte, n)...)
		k.stream(3, out)
		return append(out, m...)
	case "wide": // two or more bytes for each one
		f := 2 + int(k.ID%4)
		out := make([]byte, f*len(data))
		for i, c := range data {
			out[f*i] = c
		}
		k.stream(5, out)
		return append(out, m...)
	}
	nonce := hash64(data)
	out := binary.LittleEndian.AppendUint64(nil, nonce)
	out = append(out, data...)
	k.stream(nonce, out[8:])
	return append(out, m...)
}

func (k *LibKey) open(data []byte) ([]byte, error) {
	if len(data) < 4 {
		return nil, errMAC
	}
	m := append([]byte{}, data[len(data)-4:]...)
	data = data[:len(data)-4]
	var out []byte
	switch k.Kind {
	case "inplace":
		k.stream(7, data)
		out = data
	case "pad":
		if len(data) == 0 || len(data)%8 != 1 {
			return nil, errMAC
		}
		t := append([]byte{}, data...)
		k.stream(3, t)
		n := int(t[0])
		if n > 8 || 1+n > len(t) {
			return nil, errMAC
		}
		out = t[1 : len(t)-n]
	case "wide":
		f := 2 + int(k.ID%4)
		if len(data)%f != 0 {
			return nil, errMAC
		}
		t := append([]byte{}, data...)
		k.stream(5, t)
		for i := 0; i < len(t); i += f {
			out = append(out, t[i])
		}
	default:
		if len(data) < 8 {
			return nil, errMAC
		}
		nonce := binary.LittleEndian.Uint64(data)
		out = append([]byte{}, data[8:]...)
		k.stream(nonce, out)
	}
	if !bytes.Equal(m, k.mac(out)) {
		return nil, errMAC
	}
	return out, nil
}

func (u *keyUse) slow() {
	if u.s == nil || u.k.SlowUs == 0 {
		return
	}
	dl := u.s.Now() + us(u.k.SlowUs)
	u.s.Count("fault.slow_key")
	u.s.Op("key", u.tag, func() bool { return false }, func() time.Duration { return dl }, nil)
}

func (u *keyUse) Encode(data []byte) ([]byte, error) {
	u.enc++
	u.plain = append([]byte{}, data...)
	u.slow()
	if u.k.fails(u.plain, 'e') {
		return nil, errKey
	}
	return u.k.seal(data), nil
}

func (u *keyUse) Decode(data []byte) ([]byte, error) {
	u.dec++
	in := append([]byte{}, data...)
	u.slow()
	if u.k.fails(in, 'd') {
		return nil, errKey
	}
	return u.k.open(data)
}

// ---- contents

// sick is a content that cannot be encoded.
type sick struct{}

func (sick) Decode([]byte) error     { return errors.New("sick") }
func (sick) Encode() ([]byte, error) { return nil, errors.New("simulated failure of a subrecord") }
func (sick) Length() uint16          { return 7 }

// alien is a content the library knows nothing about.
type alien struct{ d []byte }

func (a *alien) Decode(b []byte) error   { a.d = append([]byte{}, b...); return nil }
func (a *alien) Encode() ([]byte, error) { return append([]byte{}, a.d...), nil }
func (a *alien) Length() uint16          { return uint16(len(a.d)) }

type built struct {
	pkg    *egts.Package
	plain  []byte // reference encoding of the body
	coords []int  // offsets of coordinates in it
	want   *egts.Package
	sick   bool
	empty  bool
}

func bs(r *rand.Rand) string { return []string{"0", "1"}[r.Intn(2)] }

func u8(r *rand.Rand) uint8 {
	if r.Intn(3) == 0 {
		return []uint8{0, 1, 0x7f, 0x80, 0xff}[r.Intn(5)]
	}
	return uint8(r.Intn(256))
}
func u16(r *rand.Rand) uint16 {
	if r.Intn(3) == 0 {
		return []uint16{0, 1, 0xff, 0x100, 0x7fff, 0x8000, 0xffff}[r.Intn(7)]
	}
	return uint16(r.Intn(65536))
}
func u24(r *rand.Rand) uint32 {
	if r.Intn(3) == 0 {
		return []uint32{0, 1, 0xff, 0x100, 0xffff, 0x10000, 0x7fffff, 0x800000, 0xffffff}[r.Intn(9)]
	}
	return uint32(r.Intn(1 << 24))
}
func u32(r *rand.Rand) uint32 {
	if r.Intn(3) == 0 {
		return []uint32{0, 1, 0xff, 0x100, 0xffff, 0x10000, 0xffffff, 0x1000000, 0x7fffffff, 0x80000000, 0xffffffff}[r.Intn(11)]
	}
	return r.Uint32()
}
func text(r *rand.Rand, n int) string {
	b := make([]byte, n)
	for i := range b {
		if r.Intn(8) == 0 {
			b[i] = byte(1 + r.Intn(255))
		} else {
			b[i] = byte('!' + r.Intn(90))
		}
	}
	if n > 0 && r.Intn(8) == 0 {
		b[[]int{0, n - 1}[r.Intn(2)]] = " \t\n"[r.Intn(3)]
	}
	return string(b)
}

// fixed is the text of a field of fixed length, or of one that ends with its
// subrecord: sometimes padded.
func fixed(r *rand.Rand, n int) string {
	b := []byte(text(r, n))
	if n > 0 && r.Intn(4) == 0 {
		pad := []byte{0, ' ', 0xff, '0'}[r.Intn(4)]
		for k := r.Intn(n); k < n; k++ {
			b[k] = pad
		}
	}
	return string(b)
}
func ctext(r *rand.Rand) string { return text(r, []int{0, 1, r.Intn(12), r.Intn(64)}[r.Intn(4)]) }

func flagByte(bits ...string) byte {
	var b byte
	for _, x := range bits {
		b = b<<1 | x[0]&1
	}
	return b
}
func le16(v uint16) []byte { return binary.LittleEndian.AppendUint16(nil, v) }
func le24(v uint32) []byte { return []byte{byte(v), byte(v >> 8), byte(v >> 16)} }
func le32(v uint32) []byte { return binary.LittleEndian.AppendUint32(nil, v) }

// libSub builds one subrecord: its type, the value given to the library, its
// bytes by the standard, and the value a receiver must get.
func libSub(s *LibSub) (t byte, data egts.BinaryData, wire []byte, want egts.BinaryData, coords []int) {
	r := rnd(s.S)
	w := func(b ...byte) { wire = append(wire, b...) }
	switch s.K {
	case "pos", "posx":
		la, lo := u32(r), u32(r)
		tm := u32(r)
		p := egts.SrPosData{
			NavigationTime: time.Unix(ref.Epoch+int64(tm), 0).UTC(),
			Latitude:       float64(la) * 90 / 0xFFFFFFFF, Longitude: float64(lo) * 180 / 0xFFFFFFFF,
			ALTE: bs(r), LOHS: bs(r), LAHS: bs(r), MV: bs(r), BB: bs(r), CS: bs(r), FIX: bs(r), VLD: bs(r),
			DirectionHighestBit: uint8(r.Intn(2)), AltitudeSign: uint8(r.Intn(2)), Speed: uint16(r.Intn(1639)),
			Direction: u8(r), Odometer: u24(r), DigitalInputs: u8(r), Source: u8(r), Altitude: u24(r),
		}
		if r.Intn(3) == 0 { // the same instant elsewhere
			p.NavigationTime = p.NavigationTime.In(time.FixedZone("x", (r.Intn(28*60)-14*60)*60)).Add(time.Duration(r.Intn(1e9)))
		}
		q := p
		q.NavigationTime = time.Unix(ref.Epoch+int64(tm), 0).UTC()
		q.Direction |= q.DirectionHighestBit << 7
		w(le32(tm)...)
		coords = []int{4, 8}
		w(le32(la)...)
		w(le32(lo)...)
		w(flagByte(p.ALTE, p.LOHS, p.LAHS, p.MV, p.BB, p.CS, p.FIX, p.VLD))
		w(le16(p.Speed*10 | uint16(p.DirectionHighestBit)<<15 | uint16(p.AltitudeSign)<<14)...)
		w(p.Direction &^ (p.DirectionHighestBit << 7))
		w(le24(p.Odometer)...)
		w(p.DigitalInputs, p.Source)
		if p.ALTE == "1" {
			w(le24(p.Altitude)...)
		} else {
			q.Altitude = 0
		}
		if s.K == "posx" { // source data follows, which the library does not interpret
			w(u8(r), u8(r))
		}
		return egts.SrPosDataType, &p, wire, &q, coords
	case "ext":
		p := egts.SrExtPosData{NavigationSystemFieldExists: bs(r), SatellitesFieldExists: bs(r), PdopFieldExists: bs(r), HdopFieldExists: bs(r), VdopFieldExists: bs(r),
			VerticalDilutionOfPrecision: u16(r), HorizontalDilutionOfPrecision: u16(r), PositionDilutionOfPrecision: u16(r), Satellites: u8(r), NavigationSystem: u16(r)}
		q := p
		w(flagByte("0", "0", "0", p.NavigationSystemFieldExists, p.SatellitesFieldExists, p.PdopFieldExists, p.HdopFieldExists, p.VdopFieldExists))
		f := func(e string, v *uint16) {
			if e == "1" {
				w(le16(*v)...)
			} else {
				*v = 0
			}
		}
		f(p.VdopFieldExists, &q.VerticalDilutionOfPrecision)
		f(p.HdopFieldExists, &q.HorizontalDilutionOfPrecision)
		f(p.PdopFieldExists, &q.PositionDilutionOfPrecision)
		if p.SatellitesFieldExists == "1" {
			w(p.Satellites)
		} else {
			q.Satellites = 0
		}
		f(p.NavigationSystemFieldExists, &q.NavigationSystem)
		return egts.SrExtPosDataType, &p, wire, &q, nil
	case "ad":
		p := egts.SrAdSensorsData{DigitalOutputs: u8(r)}
		v := reflect.ValueOf(&p).Elem()
		var df, af byte
		for i := 1; i <= 8; i++ {
			n := fmt.Sprint(i)
			d, a := bs(r), bs(r)
			v.FieldByName("DigitalInputsOctetExists" + n).SetString(d)
			v.FieldByName("AnalogSensorFieldExists" + n).SetString(a)
			df |= (d[0] & 1) << uint(i-1)
			af |= (a[0] & 1) << uint(i-1)
			v.FieldByName("AdditionalDigitalInputsOctet" + n).SetUint(uint64(u8(r)))
			v.FieldByName("AnalogSensor" + n).SetUint(uint64(u24(r)))
		}
		w(df, p.DigitalOutputs, af)
		q := p
		qv := reflect.ValueOf(&q).Elem()
		for i := 1; i <= 8; i++ {
			f := qv.FieldByName("AdditionalDigitalInputsOctet" + fmt.Sprint(i))
			if df>>uint(i-1)&1 == 1 {
				w(byte(f.Uint()))
			} else {
				f.SetUint(0)
			}
		}
		for i := 1; i <= 8; i++ {
			f := qv.FieldByName("AnalogSensor" + fmt.Sprint(i))
			if af>>uint(i-1)&1 == 1 {
				w(le24(uint32(f.Uint()))...)
			} else {
				f.SetUint(0)
			}
		}
		return egts.SrAdSensorsDataType, &p, wire, &q, nil
	case "counters":
		p := egts.SrCountersData{}
		v := reflect.ValueOf(&p).Elem()
		var cf byte
		for i := 1; i <= 8; i++ {
			c := bs(r)
			v.FieldByName("CounterFieldExists" + fmt.Sprint(i)).SetString(c)
			cf |= (c[0] & 1) << uint(i-1)
			v.FieldByName("Counter" + fmt.Sprint(i)).SetUint(uint64(u24(r)))
		}
		w(cf)
		q := p
		qv := reflect.ValueOf(&q).Elem()
		for i := 1; i <= 8; i++ {
			f := qv.FieldByName("Counter" + fmt.Sprint(i))
			if cf>>uint(i-1)&1 == 1 {
				w(le24(uint32(f.Uint()))...)
			} else {
				f.SetUint(0)
			}
		}
		return egts.SrCountersDataType, &p, wire, &q, nil
	case "an":
		p := egts.SrAbsAnSensData{SensorNumber: u8(r), Value: u24(r)}
		q := p
		return egts.SrAbsAnSensDataType, &p, append([]byte{p.SensorNumber}, le24(p.Value)...), &q, nil
	case "cntr":
		p := egts.SrAbsCntrData{CounterNumber: u8(r), CounterValue: u24(r)}
		q := p
		return egts.SrAbsCntrDataType, &p, append([]byte{p.CounterNumber}, le24(p.CounterValue)...), &q, nil
	case "liq":
		p := egts.SrLiquidLevelSensor{LiquidLevelSensorErrorFlag: bs(r), LiquidLevelSensorValueUnit: bs(r) + bs(r), RawDataFlag: bs(r),
			LiquidLevelSensorNumber: uint8(r.Intn(8)), ModuleAddress: u16(r), LiquidLevelSensorData: u32(r)}
		q := p
		w(flagByte("0", p.LiquidLevelSensorErrorFlag, p.LiquidLevelSensorValueUnit[:1], p.LiquidLevelSensorValueUnit[1:], p.RawDataFlag)<<3 | p.LiquidLevelSensorNumber)
		w(le16(p.ModuleAddress)...)
		w(le32(p.LiquidLevelSensorData)...)
		return egts.SrLiquidLevelSensorType, &p, wire, &q, nil
	case "term":
		p := egts.SrTermIdentity{TerminalIdentifier: u32(r), MNE: bs(r), BSE: bs(r), NIDE: bs(r), SSRA: bs(r), LNGCE: bs(r), IMSIE: bs(r), IMEIE: bs(r), HDIDE: bs(r),
			HomeDispatcherIdentifier: u16(r), IMEI: fixed(r, 15), IMSI: fixed(r, 16), LanguageCode: fixed(r, 3), NetworkIdentifier: []byte(fixed(r, 3)), BufferSize: u16(r), MobileNumber: fixed(r, 15)}
		q := p
		q.NetworkIdentifier = append([]byte{}, p.NetworkIdentifier...)
		w(le32(p.TerminalIdentifier)...)
		w(flagByte(p.MNE, p.BSE, p.NIDE, p.SSRA, p.LNGCE, p.IMSIE, p.IMEIE, p.HDIDE))
		if p.HDIDE == "1" {
			w(le16(p.HomeDispatcherIdentifier)...)
		} else {
			q.HomeDispatcherIdentifier = 0
		}
		st := func(e string, v *string) {
			if e == "1" {
				w([]byte(*v)...)
			} else {
				*v = ""
			}
		}
		st(p.IMEIE, &q.IMEI)
		st(p.IMSIE, &q.IMSI)
		st(p.LNGCE, &q.LanguageCode)
		if p.NIDE == "1" {
			w(p.NetworkIdentifier...)
		} else {
			q.NetworkIdentifier = nil
		}
		if p.BSE == "1" {
			w(le16(p.BufferSize)...)
		} else {
			q.BufferSize = 0
		}
		st(p.MNE, &q.MobileNumber)
		return egts.SrTermIdentityType, &p, wire, &q, nil
	case "auth":
		p := egts.SrAuthInfo{UserName: ctext(r), UserPassword: ctext(r), ServerSequence: ctext(r)}
		q := p
		w([]byte(p.UserName + "\x00" + p.UserPassword + "\x00")...)
		if p.ServerSequence != "" {
			w([]byte(p.ServerSequence + "\x00")...)
		}
		return egts.SrAuthInfoType, &p, wire, &q, nil
	case "module":
		p := egts.SrModuleData{ModuleType: int8(u8(r)), VendorID: u32(r), FirmwareVersion: u16(r), SoftwareVersion: u16(r), Modification: u8(r), State: u8(r), SerialNumber: ctext(r), Description: ctext(r)}
		q := p
		w(byte(p.ModuleType))
		w(le32(p.VendorID)...)
		w(le16(p.FirmwareVersion)...)
		w(le16(p.SoftwareVersion)...)
		w(p.Modification, p.State)
		w([]byte(p.SerialNumber + "\x00" + p.Description + "\x00")...)
		return egts.SrModuleDataType, &p, wire, &q, nil
	case "disp":
		p := egts.SrDispatcherIdentity{DispatcherType: u8(r), DispatcherID: u32(r), Description: fixed(r, r.Intn(64)*r.Intn(2))}
		if s.N > 0 {
			b := make([]byte, s.N)
			for i := range b {
				b[i] = byte(s.S>>uint(i%56)) | 1
			}
			p.Description = string(b)
		}
		q := p
		w(p.DispatcherType)
		w(le32(p.DispatcherID)...)
		w([]byte(p.Description)...)
		return egts.SrDispatcherIdentityType, &p, wire, &q, nil
	case "state20", "state21":
		p := egts.SrStateData{State: u8(r), MainPowerSourceVoltage: u8(r), BackUpBatteryVoltage: u8(r), InternalBatteryVoltage: u8(r), NMS: bs(r), IBU: bs(r), BBU: bs(r)}
		q := p
		w(p.State, p.MainPowerSourceVoltage, p.BackUpBatteryVoltage, p.InternalBatteryVoltage, flagByte(p.NMS, p.IBU, p.BBU))
		if s.K == "state20" {
			return egts.SrType20, &p, wire, &q, nil
		}
		return egts.SrStateDataType, &p, wire, &q, nil
	case "conf":
		p := egts.SrResponse{ConfirmedRecordNumber: u16(r), RecordStatus: u8(r)}
		q := p
		return egts.SrRecordResponseType, &p, append(le16(p.ConfirmedRecordNumber), p.RecordStatus), &q, nil
	case "result":
		p := egts.SrResultCode{ResultCode: u8(r)}
		q := p
		return egts.SrResultCodeType, &p, []byte{p.ResultCode}, &q, nil
	case "plus":
		p, q := &egts.StorageRecord{}, &egts.StorageRecord{}
		fillProto(reflect.ValueOf(p).Elem(), rnd(s.S))
		fillProto(reflect.ValueOf(q).Elem(), rnd(s.S))
		return egts.SrEgtsPlusDataType, p, protoBytes(reflect.ValueOf(q).Elem()), q, nil
	case "unk":
		t = []byte{3, 4, 6, 8, 10, 11, 12, 13, 14, 22, 23, 26, 28, 29, 30, 62, 63, 64, 100, 200, 255}[r.Intn(21)]
		d := make([]byte, []int{0, 1, r.Intn(40)}[r.Intn(3)])
		r.Read(d)
		return t, &alien{d}, d, nil, nil
	case "sick":
		return 100, sick{}, nil, nil, nil
	}
	panic("kind " + s.K)
}

var reasons []int32

// fillProto gives a protocol buffers message random contents.
func fillProto(v reflect.Value, r *rand.Rand) {
	t := v.Type()
	for i := 0; i < t.NumField(); i++ {
		tag := t.Field(i).Tag.Get("protobuf")
		if tag == "" {
			continue
		}
		req := strings.Split(tag, ",")[2] == "req"
		f := v.Field(i)
		switch f.Kind() {
		case reflect.Ptr:
			if !req && r.Intn(2) == 0 {
				continue
			}
			f.Set(reflect.New(f.Type().Elem()))
			switch e := f.Elem(); e.Kind() {
			case reflect.Uint32:
				e.SetUint(uint64(u32(r)))
			case reflect.Int32:
				e.SetInt(int64(int32(u32(r))))
			case reflect.Uint64:
				e.SetUint(r.Uint64())
			case reflect.Int64:
				e.SetInt(int64(r.Uint64()))
			case reflect.Bool:
				e.SetBool(r.Intn(2) == 0)
			case reflect.Float32, reflect.Float64:
				e.SetFloat(float64(int(u16(r))))
			case reflect.String:
				e.SetString(text(r, r.Intn(9)))
			default:
				panic("field " + t.Field(i).Name)
			}
		case reflect.Slice:
			switch f.Type().Elem().Kind() {
			case reflect.Uint8:
				if r.Intn(2) == 0 {
					b := make([]byte, r.Intn(20))
					r.Read(b)
					f.SetBytes(b)
				}
			case reflect.Int32:
				for n := r.Intn(4); n > 0; n-- {
					x := reflect.New(f.Type().Elem()).Elem()
					k := int64(1 + r.Intn(38))
					if r.Intn(9) == 0 {
						k = 99
					}
					x.SetInt(k)
					f.Set(reflect.Append(f, x))
				}
			case reflect.Ptr:
				if r.Intn(4) > 0 {
					continue
				}
				for n := 1 + r.Intn(2); n > 0; n-- {
					x := reflect.New(f.Type().Elem().Elem())
					fillProto(x.Elem(), r)
					f.Set(reflect.Append(f, x))
				}
			default:
				panic("field " + t.Field(i).Name)
			}
		default:
			panic("field " + t.Field(i).Name)
		}
	}
}

// protoBytes is an independent encoder of protocol buffers messages.
func protoBytes(v reflect.Value) []byte {
	t := v.Type()
	type fld struct {
		n int
		b []byte
	}
	var fs []fld
	for i := 0; i < t.NumField(); i++ {
		tag := t.Field(i).Tag.Get("protobuf")
		if tag == "" {
			continue
		}
		p := strings.Split(tag, ",")
		n := 0
		fmt.Sscan(p[1], &n)
		var out []byte
		one := func(e reflect.Value) {
			key := func(wt int) { out = binary.AppendUvarint(out, uint64(n<<3|wt)) }
			switch p[0] {
			case "varint":
				key(0)
				switch e.Kind() {
				case reflect.Bool:
					x := uint64(0)
					if e.Bool() {
						x = 1
					}
					out = binary.AppendUvarint(out, x)
				case reflect.Int32, reflect.Int64:
					out = binary.AppendUvarint(out, uint64(e.Int()))
				default:
					out = binary.AppendUvarint(out, e.Uint())
				}
			case "zigzag32":
				key(0)
				x := int32(e.Int())
				out = binary.AppendUvarint(out, uint64(uint32(x)<<1^uint32(x>>31)))
			case "fixed32":
				key(5)
				switch e.Kind() {
				case reflect.Float32:
					out = append(out, le32(math.Float32bits(float32(e.Float())))...)
				case reflect.Int32:
					out = append(out, le32(uint32(e.Int()))...)
				default:
					out = append(out, le32(uint32(e.Uint()))...)
				}
			case "bytes":
				key(2)
				var b []byte
				switch e.Kind() {
				case reflect.Slice:
					b = e.Bytes()
				case reflect.String:
					b = []byte(e.String())
				default:
					b = protoBytes(e)
				}
				out = binary.AppendUvarint(out, uint64(len(b)))
				out = append(out, b...)
			default:
				panic("tag " + tag)
			}
		}
		f := v.Field(i)
		switch {
		case f.Kind() == reflect.Ptr:
			if !f.IsNil() {
				one(f.Elem())
			}
		case f.Type().Elem().Kind() == reflect.Uint8:
			if !f.IsNil() {
				one(f)
			}
		default:
			for j := 0; j < f.Len(); j++ {
				e := f.Index(j)
				if e.Kind() == reflect.Ptr {
					e = e.Elem()
				}
				one(e)
			}
		}
		fs = append(fs, fld{n, out})
	}
	for i := range fs {
		for j := i + 1; j < len(fs); j++ {
			if fs[j].n < fs[i].n {
				fs[i], fs[j] = fs[j], fs[i]
			}
		}
	}
	var b []byte
	for _, f := range fs {
		b = append(b, f.b...)
	}
	return b
}

func (m *LibMsg) build() *built {
	r := rnd(m.Seed)
	b := &built{empty: m.PT == 1 && len(m.Recs) == 0}
	p := &egts.Package{ProtocolVersion: 1, SecurityKeyID: u8(r), Prefix: "00", Route: "0", EncryptionAlg: fmt.Sprintf("%02b", m.Ena), Compression: "0", Priority: bs(r) + bs(r),
		HeaderEncoding: u8(r), PacketIdentifier: u16(r), PacketType: m.PT}
	q := *p
	q.HeaderLength = 11
	peer, rcpt, ttl := u16(r), u16(r), u8(r)
	if m.Route {
		p.Route, q.Route = "1", "1"
		q.HeaderLength = 16
		q.PeerAddress, q.RecipientAddress, q.TimeToLive = peer, rcpt, ttl
	}
	p.PeerAddress, p.RecipientAddress, p.TimeToLive = peer, rcpt, ttl
	if !m.Auto {
		p.HeaderLength = q.HeaderLength
	}
	var recs, wrecs egts.ServiceDataSet
	var plain []byte
	for i := range m.Recs {
		lr := &m.Recs[i]
		rr := rnd(lr.Seed)
		var rds, wrds egts.RecordDataSet
		var body []byte
		var cs []int
		for j := range lr.Subs {
			t, data, wire, want, c := libSub(&lr.Subs[j])
			if lr.Subs[j].K == "sick" {
				b.sick = true
			}
			sub := egts.RecordData{SubrecordType: t, SubrecordLength: uint16(len(wire)), SubrecordData: data}
			if m.Auto {
				sub.SubrecordLength = 0
				if lr.Subs[j].K != "state20" && lr.Subs[j].K != "unk" && lr.Subs[j].K != "sick" {
					sub.SubrecordType = 0
				}
			}
			rds = append(rds, sub)
			if want != nil {
				wrds = append(wrds, egts.RecordData{SubrecordType: t, SubrecordLength: uint16(len(wire)), SubrecordData: want})
			}
			for _, x := range c {
				cs = append(cs, len(body)+3+x)
			}
			body = append(body, t, byte(len(wire)), byte(len(wire)>>8))
			body = append(body, wire...)
		}
		tm := u32(rr)
		x := egts.ServiceDataRecord{RecordLength: uint16(len(body)), RecordNumber: u16(rr), SourceServiceOnDevice: bs(rr), RecipientServiceOnDevice: bs(rr), Group: bs(rr),
			RecordProcessingPriority: bs(rr) + bs(rr), TimeFieldExists: bs(rr), EventIDFieldExists: bs(rr), ObjectIDFieldExists: bs(rr), ObjectIdentifier: u32(rr), EventIdentifier: u32(rr),
			Time: time.Unix(ref.Epoch+int64(tm), 0).UTC(), SourceServiceType: u8(rr), RecipientServiceType: u8(rr), RecordDataSet: rds}
		y := x
		y.RecordDataSet = wrds
		if m.Auto {
			x.RecordLength = 0
		}
		plain = append(plain, le16(y.RecordLength)...)
		plain = append(plain, le16(y.RecordNumber)...)
		plain = append(plain, flagByte(y.SourceServiceOnDevice, y.RecipientServiceOnDevice, y.Group, y.RecordProcessingPriority[:1], y.RecordProcessingPriority[1:], y.TimeFieldExists, y.EventIDFieldExists, y.ObjectIDFieldExists))
		if y.ObjectIDFieldExists == "1" {
			plain = append(plain, le32(y.ObjectIdentifier)...)
		} else {
			y.ObjectIdentifier = 0
		}
		if y.EventIDFieldExists == "1" {
			plain = append(plain, le32(y.EventIdentifier)...)
		} else {
			y.EventIdentifier = 0
		}
		if y.TimeFieldExists == "1" {
			plain = append(plain, le32(tm)...)
		} else {
			y.Time = time.Time{}
		}
		plain = append(plain, y.SourceServiceType, y.RecipientServiceType)
		for _, c := range cs {
			b.coords = append(b.coords, len(plain)+c)
		}
		plain = append(plain, body...)
		recs = append(recs, x)
		wrecs = append(wrecs, y)
	}
	if m.PT == egts.PtResponsePacket {
		id, res := u16(r), u8(r)
		x := &egts.PtResponse{ResponsePacketID: id, ProcessingResult: res}
		y := &egts.PtResponse{ResponsePacketID: id, ProcessingResult: res}
		if len(recs) > 0 {
			x.SDR, y.SDR = &recs, &wrecs
		}
		p.ServicesFrameData, q.ServicesFrameData = x, y
		plain = append(append(le16(id), res), plain...)
		for i := range b.coords {
			b.coords[i] += 3
		}
	} else {
		p.ServicesFrameData, q.ServicesFrameData = &recs, &wrecs
	}
	b.pkg, b.want, b.plain = p, &q, plain
	return b
}

func (m *LibMsg) has(kind string) bool {
	for _, r := range m.Recs {
		for _, s := range r.Subs {
			if s.K == kind {
				return true
			}
		}
	}
	return false
}

// frame puts the header and the checksums around a body.
func (b *built) frame(body []byte) []byte {
	q := b.want
	h := []byte{q.ProtocolVersion, q.SecurityKeyID, flagByte("0", "0", q.Route, q.EncryptionAlg[:1], q.EncryptionAlg[1:], "0", q.Priority[:1], q.Priority[1:]), q.HeaderLength, q.HeaderEncoding}
	h = append(h, le16(uint16(len(body)))...)
	h = append(h, le16(q.PacketIdentifier)...)
	h = append(h, q.PacketType)
	if q.Route == "1" {
		h = append(h, le16(q.PeerAddress)...)
		h = append(h, le16(q.RecipientAddress)...)
		h = append(h, q.TimeToLive)
	}
	h = append(h, ref.CRC8(h))
	if len(body) == 0 {
		return h
	}
	h = append(h, body...)
	return append(h, le16(ref.CRC16(body))...)
}

// near compares a body with the reference, coordinates to within tol units.
func near(got, want []byte, coords []int, tol int64) string {
	if len(got) != len(want) {
		return fmt.Sprintf("%d bytes instead of %d", len(got), len(want))
	}
	c := append([]byte{}, want...)
	for _, o := range coords {
		a, b := int64(binary.LittleEndian.Uint32(got[o:])), int64(binary.LittleEndian.Uint32(want[o:]))
		if a-b <= tol && b-a <= tol {
			copy(c[o:o+4], got[o:o+4])
		}
	}
	for i := range c {
		if got[i] != c[i] {
			lo, hi := max(0, i-6), min(len(c), i+10)
			return fmt.Sprintf("byte %d is %02x instead of %02x (…%x… instead of …%x…)", i, got[i], c[i], got[lo:hi], c[lo:hi])
		}
	}
	return ""
}

// differ compares a decoded value with the expected one.
func differ(path string, a, b reflect.Value) string {
	if a.IsValid() != b.IsValid() {
		return fmt.Sprintf("%s is %v instead of %v", path, a, b)
	}
	if !a.IsValid() {
		return ""
	}
	if a.Type() != b.Type() {
		return fmt.Sprintf("%s is a %v instead of a %v", path, a.Type(), b.Type())
	}
	switch a.Kind() {
	case reflect.Interface, reflect.Ptr:
		if a.IsNil() || b.IsNil() {
			if a.IsNil() != b.IsNil() {
				return fmt.Sprintf("%s: nil is %v instead of %v", path, a.IsNil(), b.IsNil())
			}
			return ""
		}
		return differ(path, a.Elem(), b.Elem())
	case reflect.Struct:
		if t, ok := a.Interface().(time.Time); ok {
			if u := b.Interface().(time.Time); !t.Equal(u) {
				return fmt.Sprintf("%s is %v instead of %v", path, t, u)
			}
			return ""
		}
		for i := 0; i < a.NumField(); i++ {
			n := a.Type().Field(i).Name
			if strings.HasPrefix(n, "XXX_") || n == "_" || !a.Type().Field(i).IsExported() {
				continue
			}
			if n == "SourceData" || n == "FrameDataLength" || n == "HeaderCheckSum" || n == "ServicesFrameDataCheckSum" {
				continue // compared with the wire
			}
			if d := differ(path+"."+n, a.Field(i), b.Field(i)); d != "" {
				return d
			}
		}
		return ""
	case reflect.Slice:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s has %d elements instead of %d", path, a.Len(), b.Len())
		}
		for i := 0; i < a.Len(); i++ {
			if d := differ(fmt.Sprintf("%s[%d]", path, i), a.Index(i), b.Index(i)); d != "" {
				return d
			}
		}
		return ""
	case reflect.Float64:
		if math.Abs(a.Float()-b.Float()) > 180.0/0xFFFFFFFF*2.5 {
			return fmt.Sprintf("%s is %v instead of %v", path, a, b)
		}
		return ""
	}
	if !reflect.DeepEqual(a.Interface(), b.Interface()) {
		return fmt.Sprintf("%s is %#v instead of %#v", path, a, b)
	}
	return ""
}

// ---- running

// libOp is one operation on the library and its result.
type libOp struct {
	kind   string // encode, decode, reencode
	link   int
	msg    int
	rcv    int
	in     []byte // decode: the input, a private copy
	intact bool
	b      *built
	pkg    *egts.Package // encode: the input; decode: the result
	out    []byte
	outNow []byte // copy of out made at once
	rc     uint8
	err    string
	json   string // decode: JSON at once
	jerr   string
	lens   string
	key    *keyUse
	kept   *egts.Package
	wrote  bool // decode changed its input
	bad    string
}

type libRun struct {
	w   *W
	p   *LibPlan
	ops []*libOp
}

func (x *libRun) key(n int, tag string, s *des.Sim) *keyUse {
	if n == 0 {
		return nil
	}
	return &keyUse{k: &x.p.Keys[n-1], s: s, tag: tag}
}

func opts(u *keyUse) []func(*egts.Options) {
	if u == nil {
		return nil
	}
	return []func(*egts.Options){func(o *egts.Options) { o.Secret = u }}
}

func guard(err *string, f func()) {
	defer func() {
		if e := recover(); e != nil {
			st := string(debug.Stack())
			*err = fmt.Sprintf("panic: %v", e)
			_ = st
		}
	}()
	f()
}

func estr(e error) string {
	if e == nil {
		return ""
	}
	return "error: " + e.Error()
}

func doEncode(o *libOp, p *egts.Package, u *keyUse) {
	o.key = u
	guard(&o.err, func() {
		b, err := p.Encode(opts(u)...)
		o.out, o.err = b, estr(err)
		o.outNow = append([]byte{}, b...)
	})
}

func doDecode(o *libOp, in []byte, u *keyUse) {
	o.key = u
	p := &egts.Package{}
	guard(&o.err, func() {
		rc, err := p.Decode(in, opts(u)...)
		o.rc, o.err = rc, estr(err)
	})
	if o.err == "" {
		o.pkg = p
		doJSON(o, p)
	}
}

func doJSON(o *libOp, p *egts.Package) {
	guard(&o.jerr, func() {
		j, err := p.ToBytes()
		o.json, o.jerr = string(j), estr(err)
	})
}

// lengths asks every part of a packet how long it is.
func lengths(o *libOp, p *egts.Package) {
	e := ""
	guard(&e, func() {
		s := fmt.Sprint(p.ServicesFrameData.Length())
		sds, _ := p.ServicesFrameData.(*egts.ServiceDataSet)
		if r, ok := p.ServicesFrameData.(*egts.PtResponse); ok {
			sds, _ = r.SDR.(*egts.ServiceDataSet)
		}
		if sds != nil {
			for i := range *sds {
				rec := &(*sds)[i]
				s += fmt.Sprintf(" %d", rec.RecordDataSet.Length())
				for j := range rec.RecordDataSet {
					s += fmt.Sprintf(",%d", rec.RecordDataSet[j].SubrecordData.Length())
				}
			}
		}
		o.lens = s
	})
	if e != "" {
		o.lens = e
	}
}

func wantLengths(b *built) string {
	s := fmt.Sprint(uint16(len(b.plain)))
	sds, _ := b.want.ServicesFrameData.(*egts.ServiceDataSet)
	if r, ok := b.want.ServicesFrameData.(*egts.PtResponse); ok {
		sds, _ = r.SDR.(*egts.ServiceDataSet)
	}
	if sds != nil {
		for i := range *sds {
			rec := &(*sds)[i]
			s += fmt.Sprintf(" %d", rec.RecordLength)
			for j := range rec.RecordDataSet {
				s += fmt.Sprintf(",%d", rec.RecordDataSet[j].SubrecordLength)
			}
		}
	}
	return s
}

type dgram struct {
	msg    int
	b      []byte
	intact bool
	bad    string // malformed although the checksums are right
	bt     *built
}

type rcv struct {
	q    []dgram
	kept []*libOp
}

// RunLib runs a plan of kind "lib".
func RunLib(p *Plan, choices []int, keepLog bool) *Result {
	s := newSim(p, choices, keepLog)
	w := &W{P: p, S: s, runEnded: -1, stopAt: -1, probes: map[string]int64{}, faultTimes: map[string]int{}}
	setupLog(w, false, false)
	w.walls = []mark2{{0, s.ClockOff}}
	x := &libRun{w: w, p: p.Lib}
	active := 0
	var pr *des.Proc
	infra := s.Run(ms(p.TailMs), func() {
		pr = s.NewProc("programs")
		s.SetMain(pr)
		simrt.ResetGlobals()
		for li := range x.p.Links {
			l := &x.p.Links[li]
			li := li
			rs := make([]*rcv, max(1, l.Fan))
			left := 0 // datagrams under way
			sent := false
			for i := range rs {
				rs[i] = &rcv{}
				r, i := rs[i], i
				active++
				s.Spawn(pr, fmt.Sprintf("recv%d.%d", li, i), func() {
					x.receive(li, i, l, r, func() bool { return sent && left == 0 })
					active--
				})
			}
			active++
			s.Spawn(pr, fmt.Sprintf("send%d", li), func() {
				if l.StartMs > 0 {
					x.sleep(ms(l.StartMs), "start")
				}
				for mi := range l.Msgs {
					x.send(li, mi, l, rs, &left)
				}
				sent = true
				s.Poke()
				active--
			})
		}
	}, func() {
		if active == 0 {
			s.Finish()
		}
	})
	w.endAt = s.EndTime
	r := &Result{Infra: infra, Hash: s.Hash(), Ilv: s.Interleaving(), Choices: s.Taken, Log: s.Log(), SimTime: s.EndTime, Steps: s.Steps, Yields: s.Yields, Preempts: s.Preempts, Frags: s.Frags, Overrun: s.Overrun, Stats: s.Stats, Probes: w.probes}
	if infra == "" {
		if pr.Panic != "" {
			w.violate("C21", "panic", "a program using the library crashed: %s\n%s", pr.Panic, pr.Stack)
		} else if active > 0 && !s.Overrun {
			w.violate("C21", "stuck", "%d of the programs using the library have not ended after %v", active, w.endAt)
		} else if !s.Overrun {
			x.judge()
		}
		r.Nontrivial = len(x.ops) > 1
	}
	r.Viol = w.Viol
	r.w = w
	return r
}

func (x *libRun) sleep(d time.Duration, lbl string) {
	s := x.w.S
	dl := s.Now() + d
	s.Op("sleep", lbl, func() bool { return false }, func() time.Duration { return dl }, nil)
}

func (x *libRun) add(o *libOp) *libOp {
	x.ops = append(x.ops, o)
	return o
}

func (x *libRun) send(li, mi int, l *LibLink, rs []*rcv, left *int) {
	s := x.w.S
	m := &l.Msgs[mi]
	if m.GapUs > 0 {
		x.sleep(us(m.GapUs), "gap")
	}
	var d dgram
	d.msg = mi
	if m.Raw != nil {
		s.Count("fault.malformed")
		d.b = append([]byte{}, m.Raw...)
	} else {
		b := m.build()
		d.bt, d.intact = b, true
		tag := fmt.Sprintf("s%d.%d", li, mi)
		if m.Foreign {
			body := append([]byte{}, b.plain...)
			if m.Bad != 0 && !b.sick && len(b.plain) <= 65535 {
				base := 0
				if m.PT == egts.PtResponsePacket {
					base = 3
				}
				body, d.bad = malform(body, base, rnd(m.Bad))
				if body == nil {
					return
				}
				s.Count("fault.malformed")
				d.intact = false
			}
			if m.Ena != 0 {
				if l.SKey == 0 || b.sick {
					return
				}
				body = x.p.Keys[l.SKey-1].seal(body)
			}
			if len(body) > 65535 || len(body) == 0 || b.sick {
				return
			}
			d.b = b.frame(body)
		} else {
			o := x.add(&libOp{kind: "encode", link: li, msg: mi, b: b, pkg: b.pkg})
			if m.JSON {
				doJSON(o, b.pkg)
				lengths(o, b.pkg)
			}
			doEncode(o, b.pkg, x.key(l.SKey, tag, s))
			s.Logf("encode %s: %d bytes %s", tag, len(o.out), o.err)
			if o.err != "" || len(o.out) == 0 {
				return
			}
			if m.JSON {
				doEncode(x.add(&libOp{kind: "encode", link: li, msg: mi, b: b, pkg: b.pkg}), b.pkg, x.key(l.SKey, tag, s))
			}
			d.b = append([]byte{}, o.out...)
			d.intact = !b.empty
		}
		if !m.Foreign && len(d.b) == 0 {
			return
		}
	}
	if m.Lose {
		s.Count("fault.loss")
		return
	}
	for i, f := range m.Flips {
		if i == 0 {
			s.Count("fault.corruption")
		}
		if f.Off < len(d.b) {
			d.b[f.Off] ^= f.Xor
			d.intact, d.bad = false, ""
		}
	}
	if m.Trunc > 0 {
		s.Count("fault.truncation")
		d.b = d.b[:max(0, len(d.b)-m.Trunc)]
		d.intact, d.bad = false, ""
	}
	for c := 0; c <= m.Dup; c++ {
		if c > 0 {
			s.Count("fault.duplicate")
		}
		for _, r := range rs {
			r := r
			*left++
			s.After(us(m.DelayUs)+s.Dur(us(x.w.P.LatMinUs), us(x.w.P.LatMaxUs)), "datagram", func() {
				*left--
				r.q = append(r.q, d)
			})
		}
	}
}

func (x *libRun) receive(li, ri int, l *LibLink, r *rcv, over func() bool) {
	s := x.w.S
	tag := fmt.Sprintf("r%d.%d", li, ri)
	buf := make([]byte, 140000)
	for {
		var d dgram
		ok := false
		s.Op("recv", tag, func() bool { return len(r.q) > 0 || over() }, nil, func() {
			if len(r.q) > 0 {
				d, ok = r.q[0], true
				r.q = r.q[1:]
			}
		})
		if !ok {
			break
		}
		o := x.add(&libOp{kind: "decode", link: li, msg: d.msg, rcv: ri, b: d.bt, intact: d.intact, bad: d.bad, in: append([]byte{}, d.b...)})
		in := d.b
		if !l.Shared {
			in = buf[:copy(buf, d.b)]
		}
		doDecode(o, in, x.key(l.RKey, tag, s))
		s.Logf("decode %s.%d: rc %d %s", tag, d.msg, o.rc, o.err)
		o.wrote = !bytes.Equal(in, o.in)
		if !l.Shared {
			for i := range in {
				in[i] = 0xaa
			}
		}
		if o.pkg != nil {
			r.kept = append(r.kept, o)
		}
	}
	// pass on what was received
	for _, o := range r.kept {
		m := &l.Msgs[o.msg]
		if !o.intact || m.Raw != nil || m.has("unk") || m.has("posx") { // Decode skips what it does not know
			continue
		}
		e := x.add(&libOp{kind: "reencode", link: li, msg: o.msg, rcv: ri, b: o.b, pkg: o.pkg})
		if m.JSON {
			lengths(e, o.pkg)
		}
		doEncode(e, o.pkg, x.key(l.RKey, tag, s))
	}
}

// ---- judging

func (x *libRun) judge() {
	for _, o := range x.ops {
		l := &x.p.Links[o.link]
		m := &l.Msgs[o.msg]
		x.alone(o, l, m)
		if strings.HasPrefix(o.err, "panic") || strings.HasPrefix(o.jerr, "panic") || strings.HasPrefix(o.lens, "panic") {
			x.w.violate("C18", "panic", "%s: %s%s%s", x.name(o), o.err, o.jerr, o.lens)
			continue
		}
		switch o.kind {
		case "encode":
			x.judgeEncode(o, l, m)
		case "decode":
			x.judgeDecode(o, l, m)
		case "reencode":
			x.judgeReencode(o, l, m)
		}
	}
}

func (x *libRun) name(o *libOp) string {
	m := &x.p.Links[o.link].Msgs[o.msg]
	ks := ""
	for _, r := range m.Recs {
		ks += "["
		for i, s := range r.Subs {
			if i > 0 {
				ks += " "
			}
			ks += s.K
		}
		ks += "]"
	}
	if m.Raw != nil {
		ks = fmt.Sprintf("raw %d bytes", len(m.Raw))
	}
	if len(ks) > 120 {
		ks = ks[:120] + "…"
	}
	return fmt.Sprintf("%s of message %d on link %d (type %d, encryption %d, records %s)", o.kind, o.msg, o.link, m.PT, m.Ena, ks)
}

// alone repeats the operation by itself and compares.
func (x *libRun) alone(o *libOp, l *LibLink, m *LibMsg) {
	v := func(class, f string, a ...interface{}) { x.w.violate("C21", class, f, a...) }
	switch o.kind {
	case "encode", "reencode":
		if o.out != nil && !bytes.Equal(o.out, o.outNow) {
			v("result-changed", "%s: the bytes it returned changed later: %s", x.name(o), near(o.out, o.outNow, nil, 0))
		}
		q := &libOp{kind: o.kind}
		k := l.SKey
		p := o.pkg
		if o.kind == "encode" {
			p = m.build().pkg
		} else {
			k = l.RKey
		}
		doEncode(q, p, x.key(k, "", nil))
		if q.err != o.err || !bytes.Equal(q.out, o.outNow) {
			v("differs", "%s: %d bytes %q while other operations ran, %d bytes %q alone: %s", x.name(o), len(o.outNow), o.err, len(q.out), q.err, near(o.outNow, q.out, nil, 0))
		}
		if o.json != "" {
			b := m.build()
			doJSON(q, b.pkg)
			lengths(q, b.pkg)
			if q.json != o.json || q.jerr != o.jerr || q.lens != o.lens {
				v("differs", "%s: JSON or lengths differ from those computed alone: %.200s %s %s; alone %.200s %s %s", x.name(o), o.json, o.jerr, o.lens, q.json, q.jerr, q.lens)
			}
		}
	case "decode":
		if o.wrote {
			v("input-changed", "%s: the bytes given to it were modified", x.name(o))
		}
		q := &libOp{kind: o.kind}
		doDecode(q, append([]byte{}, o.in...), x.key(l.RKey, "", nil))
		if q.rc != o.rc || q.err != o.err || q.json != o.json || q.jerr != o.jerr {
			v("differs", "%s: result %d %q %.300s while other operations ran; alone %d %q %.300s", x.name(o), o.rc, o.err, o.json, q.rc, q.err, q.json)
			return
		}
		if o.pkg != nil {
			// what was decoded must not have changed since
			c := &libOp{}
			doJSON(c, o.pkg)
			if c.json != o.json || c.jerr != o.jerr {
				if o.intact && o.b != nil && m.Raw == nil {
					v("result-changed", "%s: the decoded packet changed later: it was %.300s and is %.300s", x.name(o), o.json, c.json)
				} else {
					v("result-changed", "%s: the decoded packet changed later", x.name(o))
				}
			}
		}
	}
}

// sealable says whether the body must be encoded: "" or why not.
func (x *libRun) obstacle(key int, ena uint8, b *built, plain []byte) (string, string) {
	if b.sick {
		return "C18", "a subrecord fails to encode"
	}
	n := len(plain)
	if ena != 0 {
		if key == 0 {
			return "C17", "no key is given for a packet marked as encrypted"
		}
		k := &x.p.Keys[key-1]
		if k.fails(plain, 'e') {
			return "C17", "the key fails"
		}
		n = len(k.seal(append([]byte{}, plain...)))
	}
	if n > 65535 {
		return "C18", "the body does not fit the length field"
	}
	return "", ""
}

func (x *libRun) judgeEncode(o *libOp, l *LibLink, m *LibMsg) {
	w := x.w
	b := o.b
	if b.empty {
		return
	}
	plain := b.plain
	if m.Ena != 0 && o.key != nil && o.key.enc > 0 && !b.sick {
		if len(plain) <= 65535 {
			if d := near(o.key.plain, plain, b.coords, 1); d != "" {
				w.violate("C18", "encode", "%s: the body does not encode the packet: %s", x.name(o), d)
				return
			}
			plain = o.key.plain
		}
	}
	if o.json != "" && !b.sick && !m.has("unk") && len(plain) <= 65535 && o.lens != wantLengths(b) {
		w.violate("C18", "length", "%s: lengths %s are reported, %s are encoded", x.name(o), o.lens, wantLengths(b))
	}
	if prop, why := x.obstacle(l.SKey, m.Ena, b, plain); why != "" {
		w.probe("encode_refused")
		if o.err == "" {
			w.violate(prop, "not-refused", "%s: %s, and Encode returns %d bytes and no error", x.name(o), why, len(o.outNow))
		}
		return
	}
	prop := "C18"
	if m.Ena != 0 {
		prop = "C17"
		w.probe("encrypted")
	}
	w.probe("encoded")
	if o.err != "" {
		w.violate(prop, "refused", "%s: %s", x.name(o), o.err)
		return
	}
	x.wire(o, l.SKey, m, plain, 1)
}

func (x *libRun) wire(o *libOp, key int, m *LibMsg, plain []byte, tol int64) {
	w, b := x.w, o.b
	prop := "C18"
	body := plain
	if m.Ena != 0 {
		prop = "C17"
		if o.key.enc != 1 {
			w.violate("C17", "key-use", "%s: the key was used %d times", x.name(o), o.key.enc)
			return
		}
		body = x.p.Keys[key-1].seal(append([]byte{}, plain...))
	} else if o.key != nil && o.key.enc+o.key.dec > 0 {
		w.violate("C17", "key-use", "%s: the packet is not encrypted and the key was used", x.name(o))
	} else {
		// coordinates to within the tolerance
		hl := int(b.want.HeaderLength)
		if len(o.outNow) >= hl+len(plain) {
			got := o.outNow[hl : hl+len(plain)]
			if near(got, plain, b.coords, tol) == "" {
				body = got
			}
		}
	}
	if d := near(o.outNow, b.frame(body), nil, 0); d != "" {
		w.violate(prop, o.kind, "%s: %s", x.name(o), d)
	}
}

func (x *libRun) judgeReencode(o *libOp, l *LibLink, m *LibMsg) {
	w, b := x.w, o.b
	plain := b.plain
	if m.Ena != 0 {
		if o.key == nil || o.key.enc == 0 {
			w.violate("C17", "key-use", "%s: the key was not used", x.name(o))
			return
		}
		if d := near(o.key.plain, plain, b.coords, 2); d != "" {
			w.violate("C18", "reencode", "%s: the decoded packet does not encode to what it was decoded from: %s", x.name(o), d)
			return
		}
		plain = o.key.plain
	}
	if _, why := x.obstacle(l.RKey, m.Ena, b, plain); why != "" {
		return
	}
	if o.err != "" {
		w.violate("C18", "reencode", "%s: %s", x.name(o), o.err)
		return
	}
	w.probe("reencoded")
	if o.lens != "" && o.lens != wantLengths(b) {
		w.violate("C18", "length", "%s: lengths %s are reported, %s are encoded", x.name(o), o.lens, wantLengths(b))
	}
	x.wire(o, l.RKey, m, plain, 2)
}

// whole reports whether b is a packet whose checksums are right.
func whole(b []byte) bool {
	if len(b) < 11 || int(b[3]) > len(b) || b[3] < 11 {
		return false
	}
	hl := int(b[3])
	if ref.CRC8(b[:hl-1]) != b[hl-1] {
		return false
	}
	n := int(binary.LittleEndian.Uint16(b[5:]))
	if len(b) < hl+n+2 {
		return false
	}
	return ref.CRC16(b[hl:hl+n]) == binary.LittleEndian.Uint16(b[hl+n:])
}

func (x *libRun) judgeDecode(o *libOp, l *LibLink, m *LibMsg) {
	w, b := x.w, o.b
	ok := o.err == ""
	if ok != (o.rc == 0) {
		w.violate("C18", "code", "%s: result code %d with %q", x.name(o), o.rc, o.err)
	}
	if m.Raw == nil && b.empty {
		return
	}
	enc := m.Raw == nil && m.Ena != 0
	if o.bad != "" && whole(o.in) {
		w.probe("malformed")
		if ok {
			w.violate("C18", "malformed-accepted", "%s: %s, and Decode returns no error: %x", x.name(o), o.bad, o.in)
			if enc {
				w.violate("C17", "malformed-accepted", "%s: decrypted, %s, and Decode returns no error: %x", x.name(o), o.bad, o.in)
			}
		}
		return
	}
	if !o.intact {
		if whole(o.in) {
			return
		}
		prop := "C18"
		if enc {
			prop = "C17"
		}
		w.probe("damaged")
		if ok {
			w.violate(prop, "damage-accepted", "%s: a damaged packet is decoded without an error: %.80x", x.name(o), o.in)
		}
		return
	}
	prop := "C18"
	if enc {
		prop = "C17"
		hl := int(b.want.HeaderLength)
		why := ""
		if l.RKey == 0 {
			why = "no key is given"
		} else {
			k := &x.p.Keys[l.RKey-1]
			body := append([]byte{}, o.in[hl:len(o.in)-2]...)
			if k.fails(body, 'd') {
				why = "the key fails"
			} else if _, err := k.open(body); err != nil {
				why = "the key is not the one it was encrypted with"
			}
		}
		if why != "" {
			w.probe("decode_refused")
			if ok {
				w.violate("C17", "not-refused", "%s: the packet is encrypted and %s, and Decode returns no error", x.name(o), why)
			}
			return
		}
		if o.key.dec != 1 {
			w.violate("C17", "key-use", "%s: the key was used %d times", x.name(o), o.key.dec)
		}
	} else if o.key != nil && o.key.enc+o.key.dec > 0 {
		w.violate("C17", "key-use", "%s: the packet is not encrypted and the key was used", x.name(o))
	}
	if !ok {
		w.violate(prop, "refused", "%s: %s", x.name(o), o.err)
		return
	}
	w.probe("decoded")
	if d := differ("packet", reflect.ValueOf(o.pkg), reflect.ValueOf(b.want)); d != "" {
		w.violate(prop, "content", "%s: %s", x.name(o), d)
		return
	}
	p := o.pkg
	hl := int(b.want.HeaderLength)
	n := len(o.in)
	if int(p.FrameDataLength) != n-hl-2 || p.HeaderCheckSum != o.in[hl-1] || p.ServicesFrameDataCheckSum != binary.LittleEndian.Uint16(o.in[n-2:]) {
		w.violate(prop, "content", "%s: length %d and checksums %02x %04x do not match the packet %.40x…%x", x.name(o), p.FrameDataLength, p.HeaderCheckSum, p.ServicesFrameDataCheckSum, o.in, o.in[n-2:])
	}
}
