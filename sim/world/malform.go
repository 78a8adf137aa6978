package world

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand"
)

// malform turns a well-formed body (the records start at base) into one that
// says of some part that it is longer than it is.  It returns nil when the body
// offers no place for that.
func malform(plain []byte, base int, r *rand.Rand) ([]byte, string) {
	type sub struct{ at, n int }
	type rec struct {
		at, hdr, end int
		subs         []sub
	}
	var recs []rec
	for o := base; o < len(plain); {
		h := o + 5
		for i := uint(0); i < 3; i++ {
			if plain[o+4]>>i&1 == 1 {
				h += 4
			}
		}
		h += 2
		x := rec{at: o, hdr: h, end: h + int(binary.LittleEndian.Uint16(plain[o:]))}
		for p := h; p < x.end; {
			n := int(binary.LittleEndian.Uint16(plain[p+1:]))
			x.subs = append(x.subs, sub{p, n})
			p += 3 + n
		}
		recs = append(recs, x)
		o = x.end
	}
	b := append([]byte{}, plain...)
	add := func(o, d int) bool {
		v := int(binary.LittleEndian.Uint16(b[o:])) + d
		if v > 65535 {
			return false
		}
		binary.LittleEndian.PutUint16(b[o:], uint16(v))
		return true
	}
	more := func() int { return []int{1, 1, 2, 3, 1 + r.Intn(20), 1 + r.Intn(300)}[r.Intn(6)] }
	switch r.Intn(6) {
	case 0: // the body ends early
		if len(plain) < 2 {
			return nil, ""
		}
		k := 1 + r.Intn(len(plain)-1)
		if r.Intn(2) == 0 {
			k = len(plain) - 1 - r.Intn(min(8, len(plain)-1))
		}
		if k == base && base > 0 {
			return nil, ""
		}
		for _, x := range recs {
			// whole records, or a header alone, which the library lets pass
			if k == x.at || k == x.hdr {
				return nil, ""
			}
		}
		return b[:k], fmt.Sprintf("the body ends after %d of %d bytes", k, len(plain))
	case 1: // a subrecord goes beyond its record
		if len(recs) == 0 {
			return nil, ""
		}
		x := recs[r.Intn(len(recs))]
		if len(x.subs) == 0 || !add(x.subs[len(x.subs)-1].at+1, more()) {
			return nil, ""
		}
		return b, "a subrecord is longer than its record"
	case 2: // a record goes beyond the body
		if len(recs) == 0 {
			return nil, ""
		}
		x := recs[len(recs)-1]
		if len(x.subs) == 0 || !add(x.at, more()) {
			return nil, ""
		}
		return b, "a record is longer than the body"
	default: // a subrecord is shorter than its contents
		if len(recs) == 0 {
			return nil, ""
		}
		x := recs[r.Intn(len(recs))]
		if len(x.subs) == 0 {
			return nil, ""
		}
		s := x.subs[r.Intn(len(x.subs))]
		d := plain[s.at+3 : s.at+3+s.n]
		need := len(d)
		switch plain[s.at] {
		case 0, 1, 2, 9, 17, 18, 19, 20, 21, 24, 25, 27:
		case 5:
			need = 5
		case 7:
			i := bytes.IndexByte(d, 0)
			need = i + 1 + bytes.IndexByte(d[i+1:], 0) + 1
		case 16:
			need = 21 + 3*int(d[12]>>7)
		default:
			return nil, ""
		}
		if need == 0 || need > len(d) {
			return nil, ""
		}
		k := r.Intn(need)
		if r.Intn(2) == 0 {
			k = need - 1 - r.Intn(min(3, need))
		}
		if fs := optional(plain[s.at], d); len(fs) > 0 && r.Intn(2) == 0 {
			// one of the optional fields is the last and not all there
			j := r.Intn(len(fs))
			k = fs[j].off + r.Intn(fs[j].size)
			for _, f := range fs[j+1:] {
				b[s.at+3+f.flag] &^= 1 << f.bit
			}
		}
		cut := len(d) - k
		add(s.at+1, -cut)
		add(x.at, -cut)
		b = append(b[:s.at+3+k], b[s.at+3+s.n:]...)
		return b, fmt.Sprintf("subrecord %d (type %d) ends after %d of %d bytes", s.at, plain[s.at], k, need)
	}
}

type optField struct {
	flag int // offset of the byte that says whether the field is there
	bit  uint
	off  int
	size int
}

// optional lists the optional fields present in a subrecord, in order.
func optional(t byte, d []byte) (fs []optField) {
	o := 0
	field := func(flag int, bit uint, size int) {
		if d[flag]>>bit&1 == 1 && o+size <= len(d) {
			fs = append(fs, optField{flag, bit, o, size})
			o += size
		}
	}
	switch {
	case t == 1 && len(d) >= 5:
		o = 5
		for _, f := range []struct {
			bit  uint
			size int
		}{{0, 2}, {1, 15}, {2, 16}, {3, 3}, {5, 3}, {6, 2}, {7, 15}} {
			field(4, f.bit, f.size)
		}
	case t == 17 && len(d) >= 1:
		o = 1
		for i, n := range []int{2, 2, 2, 1, 2} {
			field(0, uint(i), n)
		}
	case t == 18 && len(d) >= 3:
		o = 3
		for i := uint(0); i < 8; i++ {
			field(0, i, 1)
		}
		for i := uint(0); i < 8; i++ {
			field(2, i, 3)
		}
	case t == 19 && len(d) >= 1:
		o = 1
		for i := uint(0); i < 8; i++ {
			field(0, i, 3)
		}
	}
	return fs
}
