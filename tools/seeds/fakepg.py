# a small PostgreSQL server for demonstrations (Go source)
IMPORTS='''	"bufio"
	"encoding/binary"
	"io"
	"net"
	"os"
	"strconv"
	"strings"
	"testing"
'''
GO='''
type fakeAnswer struct {
	oids []int // 16 bool, 20 int8, 25 text
	rows [][]interface{}
	fail bool
}

// fakePG serves one answer per query; nil is an error.
func fakePG(t *testing.T, handle func(sql string) *fakeAnswer) uint16 {
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "PG") {
			os.Unsetenv(strings.SplitN(e, "=", 2)[0])
		}
	}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	t.Cleanup(func() { l.Close() })
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go fakeServe(c, handle)
		}
	}()
	return uint16(l.Addr().(*net.TCPAddr).Port)
}

func fakeServe(c net.Conn, handle func(sql string) *fakeAnswer) {
	defer c.Close()
	r, w := bufio.NewReader(c), bufio.NewWriter(c)
	be := binary.BigEndian
	i32 := func(n int) []byte { b := make([]byte, 4); be.PutUint32(b, uint32(n)); return b }
	i16 := func(n int) []byte { b := make([]byte, 2); be.PutUint16(b, uint16(n)); return b }
	send := func(t byte, b []byte) { w.WriteByte(t); w.Write(i32(len(b) + 4)); w.Write(b) }
	body := func() []byte {
		h := make([]byte, 4)
		if _, err := io.ReadFull(r, h); err != nil {
			return nil
		}
		b := make([]byte, be.Uint32(h)-4)
		io.ReadFull(r, b)
		return b
	}
	bad := func() { send('E', []byte("SERROR\\x00C42501\\x00Mno\\x00\\x00")) }
	if body() == nil {
		return
	}
	send('R', i32(0))
	send('K', append(i32(7), i32(9)...))
	send('Z', []byte{'I'})
	w.Flush()
	cut := func(b []byte) (string, []byte) {
		i := strings.IndexByte(string(b), 0)
		return string(b[:i]), b[i+1:]
	}
	ask := func(sql string) *fakeAnswer {
		if strings.Contains(sql, "from pg_type t") {
			a := &fakeAnswer{oids: []int{26, 25}}
			if strings.Contains(sql, "typbasetype") {
				a.oids = []int{26, 25, 26}
			} else if strings.Contains(sql, "nsp.nspname") && !strings.Contains(sql, "typtype = 'c'") {
				a.rows = [][]interface{}{{16, "bool"}, {20, "int8"}, {23, "int4"}, {25, "text"}, {26, "oid"}}
			}
			return a
		}
		return handle(sql)
	}
	stmts := map[string]string{}
	var sql string
	var formats []int
	skip := false
	for {
		k, err := r.ReadByte()
		if err != nil {
			return
		}
		b := body()
		if skip && k != 'S' && k != 'X' {
			continue
		}
		switch k {
		case 'X':
			return
		case 'P':
			name, rest := cut(b)
			stmts[name], _ = cut(rest)
			send('1', nil)
		case 'D':
			name, _ := cut(b[1:])
			a := ask(stmts[name])
			if a == nil {
				bad()
				skip = true
				break
			}
			if b[0] == 'S' {
				n := 0
				for strings.Contains(stmts[name], "$"+strconv.Itoa(n+1)) {
					n++
				}
				p := i16(n)
				for ; n > 0; n-- {
					p = append(p, i32(25)...)
				}
				send('t', p)
			}
			d := i16(len(a.oids))
			for _, o := range a.oids {
				d = append(d, 'c', 0)
				d = append(d, i32(0)...)
				d = append(d, i16(0)...)
				d = append(d, i32(o)...)
				d = append(d, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0, 0)
			}
			send('T', d)
		case 'B':
			_, rest := cut(b)
			name, rest := cut(rest)
			sql, formats = stmts[name], nil
			n := int(be.Uint16(rest))
			rest = rest[2+2*n:]
			n = int(be.Uint16(rest))
			rest = rest[2:]
			for ; n > 0; n-- {
				l := int(int32(be.Uint32(rest)))
				rest = rest[4:]
				if l > 0 {
					rest = rest[l:]
				}
			}
			n = int(be.Uint16(rest))
			for i := 0; i < n; i++ {
				formats = append(formats, int(be.Uint16(rest[2+2*i:])))
			}
			send('2', nil)
		case 'E':
			a := ask(sql)
			if a == nil {
				bad()
				skip = true
				break
			}
			for _, row := range a.rows {
				d := i16(len(row))
				for i, v := range row {
					f := 0
					if len(formats) == 1 {
						f = formats[0]
					} else if i < len(formats) {
						f = formats[i]
					}
					var x []byte
					switch v := v.(type) {
					case nil:
						d = append(d, 0xff, 0xff, 0xff, 0xff)
						continue
					case string:
						x = []byte(v)
					case bool:
						x = []byte(strconv.FormatBool(v)[:1])
						if f == 1 {
							x = []byte{0}
							if v {
								x[0] = 1
							}
						}
					case int:
						x = []byte(strconv.Itoa(v))
						if f == 1 {
							x = i32(v)
							if a.oids[i] == 20 {
								x = append(i32(0), i32(v)...)
							}
						}
					}
					d = append(d, i32(len(x))...)
					d = append(d, x...)
				}
				send('D', d)
			}
			if a.fail {
				bad()
				skip = true
				break
			}
			send('C', []byte("SELECT 1\\x00"))
		case 'C':
			send('3', nil)
		case 'S':
			skip = false
			send('Z', []byte{'I'})
			w.Flush()
		case 'H':
			w.Flush()
		case 'Q':
			send('C', []byte("SET\\x00"))
			send('Z', []byte{'I'})
			w.Flush()
		default:
			return
		}
	}
}
'''
def demo(body, imports=(), pkg="pg_test"):
    ims=IMPORTS+"\n"+"".join(f'\t"{i}"\n' for i in ("github.com/sjansen/pgutil/internal/logger","github.com/sjansen/pgutil/internal/pg")+tuple(imports))
    return f"package {pkg}\n\nimport (\n{ims})\n{GO}\n"+'''
func fakeOpen(t *testing.T, handle func(sql string) *fakeAnswer) *pg.Conn {
	port := fakePG(t, handle)
	c, err := pg.New(&pg.Options{Log: logger.Discard(), Host: "127.0.0.1", Port: port, Username: "u", Database: "d", SSLMode: "disable"})
	if err != nil {
		t.Fatal(err)
	}
	return c
}
'''+body
