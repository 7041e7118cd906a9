// Package verifpg is laid over the repository by /verif's checks: a stand-in
// for a PostgreSQL server on the loopback network that records how it is used.
package verifpg

import (
	"bufio"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/binary"
	"encoding/pem"
	"fmt"
	"io"
	"math/big"
	"net"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Types of columns.
const (
	Bool = 16
	Name = 19
	Int8 = 20
	Text = 25
	OID  = 26
)

// Col is a column of a result.
type Col struct {
	Name string
	OID  uint32
}

// Result is the answer to a query. A nil value is a NULL.
type Result struct {
	Cols []Col
	Rows [][]*string
	// Fail makes the server report an error (Drop: lose the connection)
	// instead of the end of the result.
	Fail, Drop bool
	Refuse     bool // an error instead of a result
	Tag        string
}

// Attempt is one connection a client opened.
type Attempt struct {
	TLS      bool   // encrypted
	Refused  bool   // TLS was asked for and refused
	Broken   bool   // the TLS handshake failed
	Started  bool   // a start-up message arrived
	Params   map[string]string
	Password string
	Ready    bool // the connection was accepted
	Queries  []string
	Closed   bool
	Bye      bool // closed by a terminate message
}

// Server is the stand-in.
type Server struct {
	Port     uint16
	l        net.Listener
	mu       sync.Mutex
	attempts []*Attempt

	// set before use
	TLS       *tls.Config // nil: encryption is refused
	OnlyTLS   bool        // plain connections are refused
	FailFirst int         // this many start-ups fail
	Password  bool        // ask for a password
	Handle    func(sql string, args []string) *Result
}

// Start opens the server's port.
func Start() (*Server, error) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return nil, err
	}
	s := &Server{l: l, Port: uint16(l.Addr().(*net.TCPAddr).Port)}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			a := &Attempt{Params: map[string]string{}}
			s.mu.Lock()
			s.attempts = append(s.attempts, a)
			s.mu.Unlock()
			go func() {
				defer func() {
					c.Close()
					s.mu.Lock()
					a.Closed = true
					s.mu.Unlock()
				}()
				c.SetDeadline(time.Now().Add(30 * time.Second))
				s.serve(c, a)
			}()
		}
	}()
	return s, nil
}

// Stop closes the server's port.
func (s *Server) Stop() { s.l.Close() }

// Reset forgets the attempts made so far.
func (s *Server) Reset() {
	s.mu.Lock()
	s.attempts = nil
	s.mu.Unlock()
}

// Attempts lists the connections opened since the last reset.
func (s *Server) Attempts() []Attempt {
	s.mu.Lock()
	defer s.mu.Unlock()
	var r []Attempt
	for _, a := range s.attempts {
		r = append(r, *a)
	}
	return r
}

// Open counts the accepted connections that are still open, after giving the
// others a moment to end; want is the number expected.
func (s *Server) Open(want int) int {
	for i := 0; ; i++ {
		n := 0
		for _, a := range s.Attempts() {
			if !a.Closed {
				n++
			}
		}
		if n == want || i > 200 {
			return n
		}
		time.Sleep(5 * time.Millisecond)
	}
}

func (s *Server) set(f func()) {
	s.mu.Lock()
	f()
	s.mu.Unlock()
}

type wire struct {
	r *bufio.Reader
	w *bufio.Writer
}

func (w *wire) send(t byte, body []byte) {
	w.w.WriteByte(t)
	binary.Write(w.w, binary.BigEndian, int32(len(body)+4))
	w.w.Write(body)
}

func (w *wire) recv() (byte, []byte, error) {
	t, err := w.r.ReadByte()
	if err != nil {
		return 0, nil, err
	}
	b, err := w.body()
	return t, b, err
}

func (w *wire) body() ([]byte, error) {
	var n int32
	if err := binary.Read(w.r, binary.BigEndian, &n); err != nil {
		return nil, err
	}
	if n < 4 || n > 1<<20 {
		return nil, io.ErrUnexpectedEOF
	}
	b := make([]byte, n-4)
	_, err := io.ReadFull(w.r, b)
	return b, err
}

func (w *wire) fail(code, msg string) {
	w.send('E', []byte("SERROR\x00C"+code+"\x00M"+msg+"\x00\x00"))
}

func cstr(b []byte) (string, []byte) {
	for i, c := range b {
		if c == 0 {
			return string(b[:i]), b[i+1:]
		}
	}
	return string(b), nil
}

func i16(n int) []byte { return []byte{byte(n >> 8), byte(n)} }
func i32(n int) []byte { return []byte{byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)} }

func (s *Server) serve(c net.Conn, a *Attempt) {
	w := &wire{bufio.NewReader(c), bufio.NewWriter(c)}
	b, err := w.body()
	if err != nil || len(b) < 4 {
		return
	}
	if binary.BigEndian.Uint32(b) == 80877103 {
		if s.TLS == nil {
			s.set(func() { a.Refused = true })
			c.Write([]byte{'N'})
			return
		}
		c.Write([]byte{'S'})
		t := tls.Server(c, s.TLS)
		if err := t.Handshake(); err != nil {
			s.set(func() { a.Broken = true })
			return
		}
		s.set(func() { a.TLS = true })
		c = t
		w = &wire{bufio.NewReader(c), bufio.NewWriter(c)}
		if b, err = w.body(); err != nil || len(b) < 4 {
			// with TLS 1.3 the client's complaint about the certificate comes late
			s.set(func() { a.TLS, a.Broken = false, true })
			return
		}
	}
	fail := false
	s.set(func() {
		a.Started = true
		for p := b[4:]; len(p) > 1; {
			var k, v string
			k, p = cstr(p)
			v, p = cstr(p)
			a.Params[k] = v
		}
		if s.FailFirst > 0 {
			s.FailFirst--
			fail = true
		}
	})
	if fail || s.OnlyTLS && !a.TLS {
		w.fail("57P03", "the database system is starting up")
		w.w.Flush()
		return
	}
	if s.Password {
		w.send('R', i32(3))
		w.w.Flush()
		t, b, err := w.recv()
		if err != nil || t != 'p' {
			return
		}
		pw, _ := cstr(b)
		s.set(func() { a.Password = pw })
	}
	w.send('R', i32(0))
	w.send('K', append(i32(7), i32(9)...))
	w.send('Z', []byte{'I'})
	w.w.Flush()
	stmts := map[string]string{}
	type portal struct {
		sql     string
		args    []string
		formats []int
	}
	var bound portal
	skip := false
	for {
		t, b, err := w.recv()
		if err != nil {
			return
		}
		if skip && t != 'S' && t != 'X' {
			continue
		}
		switch t {
		case 'X':
			s.set(func() { a.Bye = true })
			return
		case 'P':
			name, rest := cstr(b)
			sql, _ := cstr(rest)
			stmts[name] = sql
			w.send('1', nil)
		case 'D':
			name, _ := cstr(b[1:])
			sql, ok := stmts[name]
			if b[0] == 'P' {
				sql, ok = bound.sql, true
			}
			if !ok {
				w.fail("26000", "no such statement")
				skip = true
				break
			}
			res := s.answer(sql, nil)
			if b[0] == 'S' {
				n := params(sql)
				body := i16(n)
				for i := 0; i < n; i++ {
					body = append(body, i32(Text)...)
				}
				w.send('t', body)
			}
			if len(res.Cols) == 0 {
				w.send('n', nil)
			} else {
				w.send('T', describe(res.Cols))
			}
		case 'B':
			_, rest := cstr(b)
			name, rest := cstr(rest)
			bound = portal{sql: stmts[name]}
			n := int(binary.BigEndian.Uint16(rest))
			rest = rest[2+2*n:]
			n = int(binary.BigEndian.Uint16(rest))
			rest = rest[2:]
			for i := 0; i < n; i++ {
				l := int(int32(binary.BigEndian.Uint32(rest)))
				rest = rest[4:]
				if l < 0 {
					bound.args = append(bound.args, "\x00null")
					continue
				}
				bound.args = append(bound.args, string(rest[:l]))
				rest = rest[l:]
			}
			n = int(binary.BigEndian.Uint16(rest))
			rest = rest[2:]
			for i := 0; i < n; i++ {
				bound.formats = append(bound.formats, int(binary.BigEndian.Uint16(rest[2*i:])))
			}
			w.send('2', nil)
		case 'E':
			s.set(func() { a.Queries = append(a.Queries, bound.sql) })
			res := s.answer(bound.sql, bound.args)
			if res.Refuse {
				w.fail("42501", "permission denied")
				skip = true
				break
			}
			s.rows(w, res, bound.formats)
			if res.Drop {
				w.w.Flush()
				return
			}
			if res.Fail {
				w.fail("XX000", "the result is bad")
				skip = true
				break
			}
			w.send('C', append([]byte("SELECT "+strconv.Itoa(len(res.Rows))), 0))
		case 'Q':
			sql, _ := cstr(b)
			s.set(func() { a.Queries = append(a.Queries, sql) })
			res := s.answer(sql, nil)
			if res.Refuse {
				w.fail("42501", "permission denied")
			} else {
				if len(res.Cols) > 0 {
					w.send('T', describe(res.Cols))
					s.rows(w, res, nil)
				}
				tag := res.Tag
				if tag == "" {
					tag = "SELECT 0"
				}
				w.send('C', append([]byte(tag), 0))
			}
			w.send('Z', []byte{'I'})
			w.w.Flush()
		case 'C':
			w.send('3', nil)
		case 'H':
			w.w.Flush()
		case 'S':
			skip = false
			s.set(func() { a.Ready = true })
			w.send('Z', []byte{'I'})
			w.w.Flush()
		default:
			return
		}
	}
}

var paramRE = regexp.MustCompile(`\$([0-9]+)`)

func params(sql string) int {
	m := 0
	for _, x := range paramRE.FindAllStringSubmatch(sql, -1) {
		n, _ := strconv.Atoi(x[1])
		if n > m {
			m = n
		}
	}
	return m
}

func describe(cols []Col) []byte {
	body := i16(len(cols))
	for _, c := range cols {
		body = append(body, c.Name...)
		body = append(body, 0)
		body = append(body, i32(0)...)
		body = append(body, i16(0)...)
		body = append(body, i32(int(c.OID))...)
		body = append(body, 0xff, 0xff)
		body = append(body, 0xff, 0xff, 0xff, 0xff)
		body = append(body, i16(0)...)
	}
	return body
}

func (s *Server) rows(w *wire, res *Result, formats []int) {
	for _, row := range res.Rows {
		body := i16(len(row))
		for i, v := range row {
			if v == nil {
				body = append(body, i32(-1)...)
				continue
			}
			f := 0
			if len(formats) == 1 {
				f = formats[0]
			} else if i < len(formats) {
				f = formats[i]
			}
			val := []byte(*v)
			if f == 1 {
				switch res.Cols[i].OID {
				case Bool:
					val = []byte{0}
					if *v == "t" {
						val[0] = 1
					}
				case Int8:
					n, _ := strconv.ParseInt(*v, 10, 64)
					val = make([]byte, 8)
					binary.BigEndian.PutUint64(val, uint64(n))
				case OID:
					n, _ := strconv.Atoi(*v)
					val = i32(n)
				}
			}
			body = append(body, i32(len(val))...)
			body = append(body, val...)
		}
		w.send('D', body)
	}
}

// the types a driver asks for when it connects
var types = []struct {
	oid  int
	name string
}{{16, "bool"}, {17, "bytea"}, {18, "char"}, {19, "name"}, {20, "int8"}, {21, "int2"}, {23, "int4"}, {25, "text"}, {26, "oid"}, {1043, "varchar"}, {1009, "_text"}}

func (s *Server) answer(sql string, args []string) *Result {
	if strings.Contains(sql, "from pg_type t") {
		switch {
		case strings.Contains(sql, "typbasetype"):
			return &Result{Cols: []Col{{"oid", OID}, {"typname", Name}, {"typbasetype", OID}}}
		case strings.Contains(sql, "nsp.nspname") && !strings.Contains(sql, "typtype = 'c'"):
			r := &Result{Cols: []Col{{"oid", OID}, {"typname", Text}}}
			for _, t := range types {
				o, n := strconv.Itoa(t.oid), t.name
				r.Rows = append(r.Rows, []*string{&o, &n})
			}
			return r
		}
		return &Result{Cols: []Col{{"oid", OID}, {"typname", Name}}}
	}
	if s.Handle != nil {
		if r := s.Handle(sql, args); r != nil {
			return r
		}
	}
	return &Result{Refuse: true}
}

// Certificates makes an authority that this process trusts (through
// SSL_CERT_FILE, so before anything else loads the system's authorities) and
// server settings: signed for a name, and signed by nobody.
func Certificates(dir, name string) (good, self *tls.Config, err error) {
	make1 := func(tmpl, parent *x509.Certificate, signer *ecdsa.PrivateKey) (tls.Certificate, []byte, error) {
		key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
		if err != nil {
			return tls.Certificate{}, nil, err
		}
		if signer == nil {
			signer = key
		}
		der, err := x509.CreateCertificate(rand.Reader, tmpl, parent, &key.PublicKey, signer)
		return tls.Certificate{Certificate: [][]byte{der}, PrivateKey: key}, der, err
	}
	tmpl := func(cn string, ca bool) *x509.Certificate {
		t := &x509.Certificate{SerialNumber: big.NewInt(time.Now().UnixNano()), Subject: pkix.Name{CommonName: cn}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(24 * time.Hour), BasicConstraintsValid: true, IsCA: ca}
		if ca {
			t.KeyUsage = x509.KeyUsageCertSign
		} else {
			t.KeyUsage = x509.KeyUsageDigitalSignature
			t.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}
			t.DNSNames = []string{cn}
		}
		return t
	}
	caT := tmpl("verif authority", true)
	ca, caDer, err := make1(caT, caT, nil)
	if err != nil {
		return nil, nil, err
	}
	pemB := pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: caDer})
	f := filepath.Join(dir, "authority.pem")
	if err = os.WriteFile(f, pemB, 0o600); err != nil {
		return nil, nil, err
	}
	os.Setenv("SSL_CERT_FILE", f)
	os.Setenv("SSL_CERT_DIR", dir)
	g, _, err := make1(tmpl(name, false), caT, ca.PrivateKey.(*ecdsa.PrivateKey))
	if err != nil {
		return nil, nil, err
	}
	st := tmpl(name, false)
	sc, _, err := make1(st, st, nil)
	if err != nil {
		return nil, nil, err
	}
	return &tls.Config{Certificates: []tls.Certificate{g}}, &tls.Config{Certificates: []tls.Certificate{sc}}, nil
}

// Describe says what a list of attempts was.
func Describe(as []Attempt) string {
	var r []string
	for _, a := range as {
		switch {
		case a.TLS:
			r = append(r, "tls")
		case a.Broken:
			r = append(r, "tls(not trusted)")
		case a.Refused:
			r = append(r, "tls(refused)")
		case a.Started:
			r = append(r, "plain")
		default:
			r = append(r, "nothing")
		}
	}
	return fmt.Sprint(r)
}
