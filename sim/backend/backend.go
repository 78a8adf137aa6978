// Package backend holds simulated database and broker servers. They speak enough
// of each wire protocol for the real client drivers, over the simulated network,
// and hand every record they are given to a sink. All callbacks run on the
// scheduler goroutine.
package backend

import (
	"bytes"
	"crypto/sha1"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math"
	"regexp"
	"strconv"
	"strings"

	"egtsverif/des"
)

// Put takes one record; done must be called exactly once, later or at once.
type Put func(dest string, body []byte, done func(ok bool))

// Cfg is what a server expects from its client.
type Cfg struct {
	User, Pass, DB string
	Bad            func(msg string) // protocol-level surprise
	// Refuse, when true, makes an insertion fail within its transaction.
	Refuse func(body []byte) bool
}

// Serve attaches the server of the given kind to a connection.
func Serve(kind string, e *des.End, c *Cfg, put Put) {
	switch kind {
	case "redis":
		redis(e, c, put)
	case "postgresql":
		postgres(e, c, put)
	case "mysql":
		mysql(e, c, put)
	case "nats":
		nats(e, c, put)
	case "rabbitmq":
		amqp(e, c, put)
	case "tarantool_queue":
		tarantool(e, c, put)
	default:
		panic("unknown backend " + kind)
	}
}

// stream feeds an incremental parser: f consumes a prefix and returns its length,
// or 0 when it needs more. While busy, input waits.
type stream struct {
	buf  []byte
	busy bool
	f    func(b []byte) int
}

func (s *stream) feed(b []byte) {
	s.buf = append(s.buf, b...)
	s.run()
}

func (s *stream) run() {
	for !s.busy && len(s.buf) > 0 {
		n := s.f(s.buf)
		if n == 0 {
			return
		}
		s.buf = s.buf[n:]
	}
}

// ---- Redis

func redis(e *des.End, c *Cfg, put Put) {
	st := &stream{}
	authed := c.Pass == ""
	db := "0"
	st.f = func(b []byte) int {
		args, n := resp(b)
		if n == 0 {
			return 0
		}
		if len(args) == 0 {
			return n
		}
		switch strings.ToUpper(args[0]) {
		case "AUTH":
			if args[len(args)-1] == c.Pass {
				authed = true
				e.Send([]byte("+OK\r\n"))
			} else {
				e.Send([]byte("-WRONGPASS invalid password\r\n"))
			}
		case "SELECT":
			db = args[1]
			e.Send([]byte("+OK\r\n"))
		case "PING":
			e.Send([]byte("+PONG\r\n"))
		case "PUBLISH", "LPUSH", "RPUSH":
			if !authed {
				e.Send([]byte("-NOAUTH Authentication required.\r\n"))
				return n
			}
			st.busy = true
			put(strings.ToUpper(args[0])+" "+db+"/"+args[1], []byte(args[2]), func(ok bool) {
				if ok {
					e.Send([]byte(":1\r\n"))
				} else {
					e.Send([]byte("-OOM command not allowed when used memory > 'maxmemory'.\r\n"))
				}
				st.busy = false
				st.run()
			})
		default:
			c.Bad("redis: unexpected command " + args[0])
			e.Send([]byte("-ERR unknown command\r\n"))
		}
		return n
	}
	e.OnData = st.feed
	e.OnEOF = func() { e.Close() }
}

func resp(b []byte) ([]string, int) {
	line := func(o int) (string, int) {
		i := bytes.Index(b[o:], []byte("\r\n"))
		if i < 0 {
			return "", 0
		}
		return string(b[o : o+i]), o + i + 2
	}
	l, o := line(0)
	if o == 0 {
		return nil, 0
	}
	if l == "" || l[0] != '*' {
		return strings.Fields(l), o
	}
	k, _ := strconv.Atoi(l[1:])
	var out []string
	for i := 0; i < k; i++ {
		h, p := line(o)
		if p == 0 {
			return nil, 0
		}
		n, _ := strconv.Atoi(h[1:])
		if len(b) < p+n+2 {
			return nil, 0
		}
		out = append(out, string(b[p:p+n]))
		o = p + n + 2
	}
	return out, o
}

// ---- PostgreSQL

var pgInsert = regexp.MustCompile(`(?i)^\s*INSERT\s+INTO\s+([^\s(]+)\s*\(\s*"?point"?\s*\)\s*VALUES\s*\(\s*(?:\$1(?:\s*::\s*jsonb?)?|CAST\s*\(\s*\$1\s+AS\s+jsonb?\s*\))\s*\)\s*;?\s*$`)

// bare strips the quotes of an identifier.
func bare(id string) string { return strings.NewReplacer("`", "", `"`, "").Replace(id) }

// tx is a transaction under way: rows are stored when it is committed.
type tx struct {
	open   bool
	failed bool
	rows   []txRow
}

type txRow struct {
	dest string
	body []byte
}

func (t *tx) begin()    { *t = tx{open: true} }
func (t *tx) rollback() { *t = tx{} }

// commit stores the rows one after the other.
func (t *tx) commit(put Put, done func(ok bool)) {
	rows := t.rows
	good := !t.failed
	*t = tx{}
	var next func()
	next = func() {
		if !good || len(rows) == 0 {
			done(good)
			return
		}
		r := rows[0]
		rows = rows[1:]
		put(r.dest, r.body, func(ok bool) {
			good = ok
			next()
		})
	}
	next()
}

// txWord is BEGIN, COMMIT or ROLLBACK if the statement is one of these.
func txWord(q string) string {
	f := strings.Fields(strings.ToUpper(strings.Trim(q, "; \t\n")))
	if len(f) == 0 {
		return ""
	}
	switch f[0] {
	case "START":
		if len(f) > 1 && f[1] == "TRANSACTION" {
			return "BEGIN"
		}
	case "BEGIN", "COMMIT", "ROLLBACK":
		return f[0]
	case "END":
		return "COMMIT"
	}
	return ""
}

func postgres(e *des.End, c *Cfg, put Put) {
	st := &stream{}
	state := 0 // 0 startup, 1 password, 2 ready
	db := ""
	user := ""
	stmts := map[string]string{}
	portal := ""
	var param []byte
	failed := false
	send := func(t byte, p []byte) {
		m := []byte{t, 0, 0, 0, 0}
		binary.BigEndian.PutUint32(m[1:], uint32(len(p)+4))
		e.Send(append(m, p...))
	}
	fail := func(code, msg string) {
		send('E', []byte("SERROR\x00C"+code+"\x00M"+msg+"\x00\x00"))
	}
	var t9 tx
	ready := func() {
		switch {
		case t9.open && t9.failed:
			send('Z', []byte{'E'})
		case t9.open:
			send('Z', []byte{'T'})
		default:
			send('Z', []byte{'I'})
		}
	}
	cstr := func(p []byte) (string, []byte) {
		i := bytes.IndexByte(p, 0)
		if i < 0 {
			return string(p), nil
		}
		return string(p[:i]), p[i+1:]
	}
	st.f = func(b []byte) int {
		if state == 0 {
			if len(b) < 8 {
				return 0
			}
			n := int(binary.BigEndian.Uint32(b))
			if len(b) < n {
				return 0
			}
			if binary.BigEndian.Uint32(b[4:]) == 80877103 { // SSLRequest
				e.Send([]byte("N"))
				return n
			}
			if binary.BigEndian.Uint32(b[4:]) == 80877102 { // CancelRequest: too late, or in time for nothing
				e.Close()
				return n
			}
			p := b[8:n]
			for len(p) > 1 {
				var k, v string
				k, p = cstr(p)
				v, p = cstr(p)
				switch k {
				case "database":
					db = v
				case "user":
					user = v
				}
			}
			state = 1
			send('R', []byte{0, 0, 0, 3})
			return n
		}
		if len(b) < 5 {
			return 0
		}
		n := 1 + int(binary.BigEndian.Uint32(b[1:]))
		if len(b) < n {
			return 0
		}
		t, p := b[0], b[5:n]
		if state == 1 {
			pw, _ := cstr(p)
			if t != 'p' || pw != c.Pass || user != c.User || db != c.DB {
				fail("28P01", "password authentication failed")
				e.Close()
				return n
			}
			state = 2
			send('R', []byte{0, 0, 0, 0})
			send('S', []byte("server_version\x009.6.0\x00"))
			send('K', make([]byte, 8))
			ready()
			return n
		}
		switch t {
		case 'Q':
			q, _ := cstr(p)
			switch w := txWord(q); {
			case strings.Trim(q, "; ") == "":
				send('I', nil)
			case w == "BEGIN":
				t9.begin()
				send('C', []byte("BEGIN\x00"))
			case w == "ROLLBACK" || w == "COMMIT" && t9.failed:
				t9.rollback()
				send('C', []byte("ROLLBACK\x00"))
			case w == "COMMIT":
				st.busy = true
				t9.commit(put, func(ok bool) {
					if ok {
						send('C', []byte("COMMIT\x00"))
					} else {
						fail("53100", "could not extend file: No space left on device")
					}
					ready()
					st.busy = false
					st.run()
				})
				return n
			default:
				send('C', []byte("SELECT 0\x00"))
			}
			ready()
		case 'P':
			name, r := cstr(p)
			q, _ := cstr(r)
			stmts[name] = q
			if pgInsert.MatchString(q) {
				send('1', nil)
			} else {
				c.Bad("postgresql: unexpected statement " + q)
				fail("42601", "syntax error")
				failed = true
				t9.failed = true
			}
		case 'D':
			if failed {
				break
			}
			send('t', []byte{0, 1, 0, 0, 0x0e, 0xda}) // one parameter, jsonb
			send('n', nil)
		case 'B':
			if failed {
				break
			}
			_, r := cstr(p)
			s, r := cstr(r)
			portal = stmts[s]
			nf := int(binary.BigEndian.Uint16(r))
			r = r[2+2*nf:]
			np := int(binary.BigEndian.Uint16(r))
			r = r[2:]
			param = nil
			if np > 0 {
				l := int(int32(binary.BigEndian.Uint32(r)))
				if l >= 0 {
					param = append([]byte(nil), r[4:4+l]...)
				}
			}
			send('2', nil)
		case 'E':
			if failed {
				break
			}
			m := pgInsert.FindStringSubmatch(portal)
			if m == nil {
				fail("42601", "syntax error")
				failed = true
				break
			}
			if t9.open && c.Refuse(param) {
				fail("53100", "could not extend file: No space left on device")
				failed, t9.failed = true, true
				break
			}
			if t9.open {
				t9.rows = append(t9.rows, txRow{db + "/" + bare(m[1]), param})
				send('C', []byte("INSERT 0 1\x00"))
				break
			}
			st.busy = true
			put(db+"/"+bare(m[1]), param, func(ok bool) {
				if ok {
					send('C', []byte("INSERT 0 1\x00"))
				} else {
					fail("53100", "could not extend file: No space left on device")
					failed = true
				}
				st.busy = false
				st.run()
			})
		case 'C':
			if !failed {
				send('3', nil)
			}
		case 'S':
			failed = false
			ready()
		case 'X':
			e.Close()
		default:
			c.Bad(fmt.Sprintf("postgresql: unexpected message %q", t))
		}
		return n
	}
	e.OnData = st.feed
	e.OnEOF = func() { e.Close() }
}

// ---- MySQL

var myInsert = regexp.MustCompile(`(?i)^\s*INSERT\s+INTO\s+([^\s(]+)\s*\(\s*` + "`?point`?" + `\s*\)\s*VALUES\s*\(\s*\?\s*\)\s*;?\s*$`)

func mysql(e *des.End, c *Cfg, put Put) {
	st := &stream{}
	seq := byte(0)
	send := func(p []byte) {
		m := []byte{byte(len(p)), byte(len(p) >> 8), byte(len(p) >> 16), seq}
		seq++
		e.Send(append(m, p...))
	}
	var t9 tx
	ok := func() {
		status := byte(2)
		if t9.open {
			status |= 1
		}
		send([]byte{0, 1, 0, status, 0, 0, 0})
	}
	fail := func(code int, state, msg string) {
		send(append([]byte{0xff, byte(code), byte(code >> 8), '#'}, []byte(state+msg)...))
	}
	salt := []byte("12345678abcdefghijkl")
	state := 0
	stmts := map[uint32]string{}
	next := uint32(1)
	db := ""
	native := func(pw string) []byte {
		if pw == "" {
			return nil
		}
		h1 := sha1.Sum([]byte(pw))
		h2 := sha1.Sum(h1[:])
		h := sha1.New()
		h.Write(salt)
		h.Write(h2[:])
		h3 := h.Sum(nil)
		for i := range h3 {
			h3[i] ^= h1[i]
		}
		return h3
	}
	// greeting
	g := []byte{10}
	g = append(g, "5.7.30-sim\x00"...)
	g = append(g, 1, 0, 0, 0)
	g = append(g, salt[:8]...)
	g = append(g, 0)
	caps := uint32(0x00000001 | 0x00000008 | 0x00000200 | 0x00002000 | 0x00008000 | 0x00080000)
	g = append(g, byte(caps), byte(caps>>8), 33, 2, 0, byte(caps>>16), byte(caps>>24), 21)
	g = append(g, make([]byte, 10)...)
	g = append(g, salt[8:]...)
	g = append(g, 0)
	g = append(g, "mysql_native_password\x00"...)
	send(g)
	st.f = func(b []byte) int {
		if len(b) < 4 {
			return 0
		}
		n := 4 + (int(b[0]) | int(b[1])<<8 | int(b[2])<<16)
		if len(b) < n {
			return 0
		}
		p := b[4:n]
		seq = b[3] + 1
		if state == 0 {
			cl := binary.LittleEndian.Uint32(p)
			r := p[32:]
			i := bytes.IndexByte(r, 0)
			user := string(r[:i])
			r = r[i+1:]
			l := int(r[0])
			auth := r[1 : 1+l]
			r = r[1+l:]
			if cl&8 != 0 {
				if i := bytes.IndexByte(r, 0); i >= 0 {
					db = string(r[:i])
				}
			}
			if user != c.User || !bytes.Equal(auth, native(c.Pass)) || db != c.DB {
				fail(1045, "28000", "Access denied")
				e.Close()
				return n
			}
			state = 1
			ok()
			return n
		}
		switch p[0] {
		case 0x0e:
			ok()
		case 0x01:
			e.Close()
		case 0x02:
			ok()
		case 0x03:
			q := string(p[1:])
			if strings.HasPrefix(strings.ToUpper(q), "INSERT") {
				c.Bad("mysql: unexpected statement " + q)
				fail(1064, "42000", "syntax")
				break
			}
			switch txWord(q) {
			case "BEGIN":
				t9.begin()
			case "ROLLBACK":
				t9.rollback()
			case "COMMIT":
				st.busy = true
				t9.commit(put, func(good bool) {
					if good {
						ok()
					} else {
						fail(1114, "HY000", "The table is full")
					}
					st.busy = false
					st.run()
				})
				return n
			}
			ok()
		case 0x16:
			q := string(p[1:])
			if !myInsert.MatchString(q) {
				c.Bad("mysql: unexpected statement " + q)
				fail(1064, "42000", "syntax")
				return n
			}
			id := next
			next++
			stmts[id] = myInsert.FindStringSubmatch(q)[1]
			send([]byte{0, byte(id), byte(id >> 8), byte(id >> 16), byte(id >> 24), 0, 0, 1, 0, 0, 0, 0})
			def := []byte{3, 'd', 'e', 'f', 0, 0, 0, 1, '?', 0, 12, 63, 0, 0, 0, 0, 0, 0xfd, 0x80, 0, 0, 0, 0}
			send(def)
			send([]byte{0xfe, 0, 0, 2, 0})
		case 0x17:
			id := binary.LittleEndian.Uint32(p[1:])
			tbl, have := stmts[id]
			if !have || len(p) < 12 {
				fail(1243, "HY000", "Unknown prepared statement")
				return n
			}
			r := p[10:]
			nul := r[0]&1 == 1
			bound := r[1]
			r = r[2:]
			if bound == 1 {
				r = r[2:]
			}
			var body []byte
			if !nul {
				l, k := lenenc(r)
				if k > 0 && len(r) >= k+l {
					body = append([]byte(nil), r[k:k+l]...)
				}
			}
			if t9.open && c.Refuse(body) {
				fail(1114, "HY000", "The table is full")
				break
			}
			if t9.open {
				t9.rows = append(t9.rows, txRow{db + "/" + bare(tbl), body})
				ok()
				break
			}
			st.busy = true
			put(db+"/"+bare(tbl), body, func(good bool) {
				if good {
					ok()
				} else {
					fail(1114, "HY000", "The table is full")
				}
				st.busy = false
				st.run()
			})
		case 0x19:
			delete(stmts, binary.LittleEndian.Uint32(p[1:]))
		default:
			c.Bad(fmt.Sprintf("mysql: unexpected command %#x", p[0]))
			fail(1047, "08S01", "Unknown command")
		}
		return n
	}
	e.OnData = st.feed
	e.OnEOF = func() { e.Close() }
}

func lenenc(b []byte) (v, n int) {
	if len(b) == 0 {
		return 0, 0
	}
	switch b[0] {
	case 0xfc:
		return int(b[1]) | int(b[2])<<8, 3
	case 0xfd:
		return int(b[1]) | int(b[2])<<8 | int(b[3])<<16, 4
	case 0xfe:
		return int(binary.LittleEndian.Uint64(b[1:])), 9
	}
	return int(b[0]), 1
}

// ---- NATS

func nats(e *des.End, c *Cfg, put Put) {
	st := &stream{}
	st.f = func(b []byte) int {
		i := bytes.Index(b, []byte("\r\n"))
		if i < 0 {
			return 0
		}
		l := string(b[:i])
		n := i + 2
		f := strings.Fields(l)
		if len(f) == 0 {
			return n
		}
		switch strings.ToUpper(f[0]) {
		case "CONNECT":
			var auth struct{ User, Pass string }
			if json.Unmarshal([]byte(strings.TrimSpace(strings.TrimPrefix(l, "CONNECT"))), &auth) != nil || c.User != "" && (auth.User != c.User || auth.Pass != c.Pass) {
				e.Send([]byte("-ERR 'Authorization Violation'\r\n"))
				e.Close()
			}
		case "PING":
			e.Send([]byte("PONG\r\n"))
		case "PONG", "SUB", "UNSUB":
		case "PUB":
			k, _ := strconv.Atoi(f[len(f)-1])
			if len(b) < n+k+2 {
				return 0
			}
			put(f[1], append([]byte(nil), b[n:n+k]...), func(bool) {})
			return n + k + 2
		default:
			c.Bad("nats: unexpected operation " + f[0])
		}
		return n
	}
	e.OnData = st.feed
	e.OnEOF = func() { e.Close() }
	e.Send([]byte(`INFO {"server_id":"SIM","server_name":"sim","version":"2.9.0","proto":1,"go":"go1.19","host":"0.0.0.0","port":4222,"headers":true,"max_payload":1048576,"client_id":1}` + "\r\n"))
}

// ---- RabbitMQ (AMQP 0-9-1)

func amqp(e *des.End, c *Cfg, put Put) {
	st := &stream{}
	hello := false
	frame := func(t byte, ch uint16, p []byte) {
		m := []byte{t, byte(ch >> 8), byte(ch), 0, 0, 0, 0}
		binary.BigEndian.PutUint32(m[3:], uint32(len(p)))
		m = append(m, p...)
		e.Send(append(m, 0xce))
	}
	method := func(ch uint16, cls, m uint16, p []byte) {
		frame(1, ch, append([]byte{byte(cls >> 8), byte(cls), byte(m >> 8), byte(m)}, p...))
	}
	lstr := func(s string) []byte {
		x := make([]byte, 4)
		binary.BigEndian.PutUint32(x, uint32(len(s)))
		return append(x, s...)
	}
	type pub struct {
		dest string
		want uint64
		body []byte
	}
	cur := map[uint16]*pub{}
	finish := func(ch uint16) {
		p := cur[ch]
		delete(cur, ch)
		put(p.dest, p.body, func(bool) {})
	}
	st.f = func(b []byte) int {
		if !hello {
			if len(b) < 8 {
				return 0
			}
			hello = true
			// Start: version 0-9, empty properties, PLAIN, en_US
			p := []byte{0, 9, 0, 0, 0, 0}
			p = append(p, lstr("PLAIN AMQPLAIN")...)
			p = append(p, lstr("en_US")...)
			method(0, 10, 10, p)
			return 8
		}
		if len(b) < 7 {
			return 0
		}
		t := b[0]
		ch := binary.BigEndian.Uint16(b[1:])
		l := int(binary.BigEndian.Uint32(b[3:]))
		if len(b) < 7+l+1 {
			return 0
		}
		p := b[7 : 7+l]
		n := 8 + l
		switch t {
		case 8:
			frame(8, 0, nil)
		case 1:
			cls, m := binary.BigEndian.Uint16(p), binary.BigEndian.Uint16(p[2:])
			switch {
			case cls == 10 && m == 11:
				if !bytes.Contains(p, []byte("\x00"+c.User+"\x00"+c.Pass)) {
					e.Close()
					return n
				}
				method(0, 10, 30, []byte{0, 0, 0, 2, 0, 0, 0, 0}) // channel-max 0, frame-max 131072, no heartbeat
			case cls == 10 && m == 31:
			case cls == 10 && m == 40:
				method(0, 10, 41, []byte{0})
			case cls == 20 && m == 10:
				method(ch, 20, 11, []byte{0, 0, 0, 0})
			case cls == 20 && m == 40:
				method(ch, 20, 41, nil)
			case cls == 10 && m == 50:
				method(0, 10, 51, nil)
				e.Close()
			case cls == 60 && m == 40:
				r := p[6:]
				x := int(r[0])
				ex := string(r[1 : 1+x])
				r = r[1+x:]
				y := int(r[0])
				key := string(r[1 : 1+y])
				cur[ch] = &pub{dest: ex + "/" + key}
				if r = r[1+y:]; len(r) > 0 && r[0]&2 != 0 {
					// immediate: not implemented since RabbitMQ 3.0
					e.Close()
				}
			default:
				c.Bad(fmt.Sprintf("rabbitmq: unexpected method %d.%d", cls, m))
			}
		case 2:
			if q := cur[ch]; q != nil {
				q.want = binary.BigEndian.Uint64(p[4:])
				if t, ok := expiration(p[12:]); ok && t < 86400000 {
					c.Bad(fmt.Sprintf("rabbitmq: the record is dropped after %d ms", t))
				}
				if q.want == 0 {
					finish(ch)
				}
			}
		case 3:
			if q := cur[ch]; q != nil {
				q.body = append(q.body, p...)
				if uint64(len(q.body)) >= q.want {
					finish(ch)
				}
			}
		}
		return n
	}
	e.OnData = st.feed
	e.OnEOF = func() { e.Close() }
}

// ---- Tarantool

// expiration finds how long a broker is to keep a message, in ms.
func expiration(p []byte) (int, bool) {
	if len(p) < 2 {
		return 0, false
	}
	fl := binary.BigEndian.Uint16(p)
	p = p[2:]
	for bit := 15; bit >= 8; bit-- {
		if fl&(1<<uint(bit)) == 0 {
			continue
		}
		n := 0
		switch bit {
		case 13: // headers
			if len(p) >= 4 {
				n = 4 + int(binary.BigEndian.Uint32(p))
			}
		case 12, 11:
			n = 1
		default:
			if len(p) >= 1 {
				n = 1 + int(p[0])
			}
		}
		if n == 0 || n > len(p) {
			return 0, false
		}
		if bit == 8 {
			t, err := strconv.Atoi(string(p[1:n]))
			return t, err == nil
		}
		p = p[n:]
	}
	return 0, false
}

func tarantool(e *des.End, c *Cfg, put Put) {
	st := &stream{}
	g := "Tarantool 1.10.0 (Binary) 00000000-0000-0000-0000-000000000000"
	g += strings.Repeat(" ", 63-len(g)) + "\n"
	s := "QK2HoFZGXTXBq2vFj7soCsHqTo6PGTF575ssUBAJLAI=" // salt
	s += strings.Repeat(" ", 63-len(s)) + "\n"
	e.Send([]byte(g + s))
	task := uint64(0)
	reply := func(sync uint64, code uint64, body []byte) {
		h := append([]byte{0x83, 0x00}, mpUint(code)...)
		h = append(append(h, 0x01), mpUint(sync)...)
		h = append(append(h, 0x05), mpUint(1)...)
		h = append(h, body...)
		l := len(h)
		e.Send(append([]byte{0xce, byte(l >> 24), byte(l >> 16), byte(l >> 8), byte(l)}, h...))
	}
	st.f = func(b []byte) int {
		l, k := mpRead(b)
		if k == 0 {
			return 0
		}
		ln, ok := l.(uint64)
		if !ok {
			c.Bad("tarantool: bad length prefix")
			return len(b)
		}
		n := k + int(ln)
		if len(b) < n {
			return 0
		}
		p := b[k:n]
		hv, hk := mpRead(p)
		h, _ := hv.(map[uint64]interface{})
		bv, _ := mpRead(p[hk:])
		body, _ := bv.(map[uint64]interface{})
		code, _ := h[0].(uint64)
		sync, _ := h[1].(uint64)
		empty := []byte{0x81, 0x30, 0x90}
		switch code {
		case 7: // auth
			if u, _ := body[0x23].(string); u != c.User {
				reply(sync, 0x8000|45, append([]byte{0x81, 0x31}, mpStr("User not found")...))
				break
			}
			if a, _ := body[0x21].([]interface{}); len(a) != 2 || mpText(a[0]) != "chap-sha1" || mpText(a[1]) != chap(s, c.Pass) {
				reply(sync, 0x8000|47, append([]byte{0x81, 0x31}, mpStr("Incorrect password supplied")...))
				break
			}
			reply(sync, 0, empty)
		case 64, 1:
			reply(sync, 0, empty)
		case 6, 10:
			fn, _ := body[0x22].(string)
			args, _ := body[0x21].([]interface{})
			if !strings.HasSuffix(fn, ":put") || len(args) == 0 {
				c.Bad("tarantool: unexpected call " + fn)
				reply(sync, 0x8000|33, append([]byte{0x81, 0x31}, mpStr("Procedure is not defined")...))
				break
			}
			if len(args) > 1 {
				// a consumer may come back hours later
				if o, _ := args[1].(map[uint64]interface{}); o[ttlKey] != nil {
					if t := mpNum(o[ttlKey]); t < 86400 {
						c.Bad(fmt.Sprintf("tarantool: the record is dropped from the queue after %v s", t))
					}
				}
			}
			put(fn, []byte(mpText(args[0])), func(ok bool) {
				if !ok {
					reply(sync, 0x8000|2, append([]byte{0x81, 0x31}, mpStr("Failed to allocate memory")...))
					return
				}
				task++
				r := []byte{0x81, 0x30, 0x91, 0x93}
				r = append(r, mpUint(task)...)
				r = append(r, mpStr("r")...)
				r = append(r, mpStr("x")...)
				reply(sync, 0, r)
			})
		default:
			c.Bad(fmt.Sprintf("tarantool: unexpected request %d", code))
			reply(sync, 0x8000|48, append([]byte{0x81, 0x31}, mpStr("Unknown request type")...))
		}
		return n
	}
	e.OnData = st.feed
	e.OnEOF = func() { e.Close() }
}

func mpUint(v uint64) []byte {
	switch {
	case v < 128:
		return []byte{byte(v)}
	case v < 1<<32:
		return []byte{0xce, byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)}
	}
	r := []byte{0xcf, 0, 0, 0, 0, 0, 0, 0, 0}
	binary.BigEndian.PutUint64(r[1:], v)
	return r
}

func mpStr(s string) []byte { return append([]byte{0xd9, byte(len(s))}, s...) }

// ttlKey stands for the key "ttl" in a decoded map.
const ttlKey = 1 << 63

func mpText(v interface{}) string {
	switch v := v.(type) {
	case string:
		return v
	case []byte:
		return string(v)
	}
	return ""
}

func mpNum(v interface{}) float64 {
	switch v := v.(type) {
	case uint64:
		return float64(v)
	case int64:
		return float64(v)
	case float64:
		return v
	}
	return 0
}

// chap is what a client that knows the password answers to the salt.
func chap(salt64, pass string) string {
	salt, _ := base64.StdEncoding.DecodeString(strings.TrimSpace(salt64))
	a := sha1.Sum([]byte(pass))
	b := sha1.Sum(a[:])
	c := sha1.Sum(append(append([]byte{}, salt[:20]...), b[:]...))
	for i := range a {
		a[i] ^= c[i]
	}
	return string(a[:])
}

// mpRead decodes one msgpack value; n is 0 when b is too short.
func mpRead(b []byte) (v interface{}, n int) {
	if len(b) == 0 {
		return nil, 0
	}
	num := func(w int) (uint64, bool) {
		if len(b) < 1+w {
			return 0, false
		}
		var x uint64
		for _, c := range b[1 : 1+w] {
			x = x<<8 | uint64(c)
		}
		return x, true
	}
	raw := func(w int, bin bool) (interface{}, int) {
		l, ok := num(w)
		if !ok || len(b) < 1+w+int(l) {
			return nil, 0
		}
		d := b[1+w : 1+w+int(l)]
		if bin {
			return append([]byte(nil), d...), 1 + w + int(l)
		}
		return string(d), 1 + w + int(l)
	}
	arr := func(o, l int) (interface{}, int) {
		out := []interface{}{}
		for i := 0; i < l; i++ {
			x, k := mpRead(b[o:])
			if k == 0 {
				return nil, 0
			}
			out = append(out, x)
			o += k
		}
		return out, o
	}
	mp := func(o, l int) (interface{}, int) {
		out := map[uint64]interface{}{}
		for i := 0; i < l; i++ {
			x, k := mpRead(b[o:])
			if k == 0 {
				return nil, 0
			}
			o += k
			y, k2 := mpRead(b[o:])
			if k2 == 0 {
				return nil, 0
			}
			o += k2
			if u, ok := x.(uint64); ok {
				out[u] = y
			} else if mpText(x) == "ttl" {
				out[ttlKey] = y
			}
		}
		return out, o
	}
	t := b[0]
	switch {
	case t < 0x80:
		return uint64(t), 1
	case t >= 0xe0:
		return int64(int8(t)), 1
	case t&0xf0 == 0x80:
		return mp(1, int(t&0xf))
	case t&0xf0 == 0x90:
		return arr(1, int(t&0xf))
	case t&0xe0 == 0xa0:
		l := int(t & 0x1f)
		if len(b) < 1+l {
			return nil, 0
		}
		return string(b[1 : 1+l]), 1 + l
	}
	switch t {
	case 0xc0:
		return nil, 1
	case 0xc2, 0xc3:
		return t == 0xc3, 1
	case 0xca:
		x, ok := num(4)
		if !ok {
			return nil, 0
		}
		return float64(math.Float32frombits(uint32(x))), 5
	case 0xcb:
		x, ok := num(8)
		if !ok {
			return nil, 0
		}
		return math.Float64frombits(x), 9
	case 0xc4, 0xc5, 0xc6:
		return raw(1<<(t-0xc4), true)
	case 0xd9, 0xda, 0xdb:
		return raw(1<<(t-0xd9), false)
	case 0xcc, 0xcd, 0xce, 0xcf:
		w := 1 << (t - 0xcc)
		x, ok := num(w)
		if !ok {
			return nil, 0
		}
		return x, 1 + w
	case 0xd0, 0xd1, 0xd2, 0xd3:
		w := 1 << (t - 0xd0)
		x, ok := num(w)
		if !ok {
			return nil, 0
		}
		return int64(x), 1 + w
	case 0xdc:
		l, ok := num(2)
		if !ok {
			return nil, 0
		}
		return arr(3, int(l))
	case 0xde:
		l, ok := num(2)
		if !ok {
			return nil, 0
		}
		return mp(3, int(l))
	}
	return nil, len(b)
}
