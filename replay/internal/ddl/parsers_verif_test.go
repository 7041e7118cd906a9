package ddl_test

//verif:shared

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"regexp"
	"regexp/syntax"
	"strings"
	"unicode/utf8"

	"github.com/sjansen/pgutil/internal/ddl"
	"github.com/sjansen/pgutil/internal/verifkit"
)

// An executable statement of what the four parsers do, independent of their
// code: regular expressions over Latin-1, with captures.

const (
	vSp    = `[\t\n\x0b\f\r ]`
	vIdent = `[a-zA-Z][_a-zA-Z0-9]*`
	vInit  = `INITIALLY` + vSp + `+(?:IMMEDIATE|(?P<id>DEFERRED))`
	vDefer = `(?:` + vSp + `+(?:NOT` + vSp + `+DEFERRABLE|(?P<d>DEFERRABLE)(?:` + vSp + `+` + vInit + `)?|` + vInit + `))?`
	vCols  = vIdent + `(?:` + vSp + `*,` + vSp + `*` + vIdent + `)*`
	vAct   = `(?:NO` + vSp + `+ACTION|RESTRICT|CASCADE|SET` + vSp + `+NULL|SET` + vSp + `+DEFAULT)`
	vEvent = `(?:INSERT|DELETE|TRUNCATE|UPDATE(?:` + vSp + `+OF` + vSp + `+` + vCols + `)?)`
)

var verifPatterns = map[string]string{
	"check": vSp + `*CHECK` + vSp + `*\((?P<e>[\x00-\xff]*)\)` + vDefer + vSp + `*`,
	"foreign key": vSp + `*FOREIGN` + vSp + `+KEY` + vSp + `+\(` + vSp + `*(?P<cols>` + vCols + `)` + vSp + `*\)` + vSp + `+REFERENCES` + vSp + `+(?P<table>` + vIdent + `)\(` + vSp + `*(?P<refs>` + vCols + `)` + vSp + `*\)` +
		`(?:` + vSp + `+MATCH` + vSp + `+(?P<match>FULL|PARTIAL|SIMPLE))?(?P<on>(?:` + vSp + `+ON` + vSp + `+(?:DELETE|UPDATE)` + vSp + `+` + vAct + `)*)` + vDefer + vSp + `*`,
	"index": vSp + `*CREATE` + vSp + `+(?:(?P<u>UNIQUE)` + vSp + `+)?INDEX` + vSp + `+(?P<name>` + vIdent + `)` + vSp + `+ON` + vSp + `+(?P<table>` + vIdent + `)(?:` + vSp + `+USING` + vSp + `+(?P<using>` + vIdent + `))?` + vSp + `+\(` + vSp + `*` +
		`(?:(?P<expr>\([^)]+\)|` + vIdent + `\([^)]*\))|(?P<col>` + vIdent + `))(?:` + vSp + `+(?P<op>` + vIdent + `))?(?P<rest>(?:` + vSp + `*,` + vSp + `*` + vIdent + `(?:` + vSp + `+` + vIdent + `)?)*)` + vSp + `*\)(?:` + vSp + `+WHERE` + vSp + `(?P<where>[\x00-\xff]+)|` + vSp + `*)`,
	"trigger": vSp + `*CREATE` + vSp + `+(?:(?P<c>CONSTRAINT)` + vSp + `+)?TRIGGER` + vSp + `+(?P<name>` + vIdent + `)` + vSp + `+(?P<when>BEFORE|AFTER|INSTEAD` + vSp + `+OF)` + vSp + `+(?P<ev>` + vEvent + `(?:` + vSp + `+OR` + vSp + `+` + vEvent + `)*)` + vSp + `+ON` + vSp + `+(?P<table>` + vIdent + `)` + vDefer +
		`(?:` + vSp + `+FOR` + vSp + `+(?:EACH` + vSp + `+)?(?:(?P<row>ROW)|STATEMENT))?` + vSp + `+EXECUTE` + vSp + `+(?:FUNCTION|PROCEDURE)` + vSp + `+(?P<fn>` + vIdent + `)\(\)` + vSp + `*`,
}

type verifParser struct {
	re   *regexp.Regexp
	prog *syntax.Prog
	call func(string) (interface{}, error)
}

func newVerifParser(kind string) *verifParser {
	// the names d and id occur in alternatives
	src := verifPatterns[kind]
	n := 0
	src = regexp.MustCompile(`\(\?P<(\w+)>`).ReplaceAllStringFunc(src, func(s string) string {
		n++
		return fmt.Sprintf("(?P<%s_%d>", s[4:len(s)-1], n)
	})
	src = `(?i)\A(?:` + src + `)\z`
	p := &verifParser{re: regexp.MustCompile(src)}
	ast, err := syntax.Parse(src, syntax.Perl)
	if err != nil {
		panic(err)
	}
	p.prog, err = syntax.Compile(ast.Simplify())
	if err != nil {
		panic(err)
	}
	switch kind {
	case "check":
		p.call = func(s string) (interface{}, error) { r, err := ddl.ParseCheck(s); return r, err }
	case "foreign key":
		p.call = func(s string) (interface{}, error) { r, err := ddl.ParseForeignKey(s); return r, err }
	case "index":
		p.call = func(s string) (interface{}, error) { r, err := ddl.ParseIndex(s); return r, err }
	case "trigger":
		p.call = func(s string) (interface{}, error) { r, err := ddl.ParseTrigger(s); return r, err }
	}
	return p
}

func latin1(s string) string {
	r := make([]rune, len(s))
	for i := 0; i < len(s); i++ {
		r[i] = rune(s[i])
	}
	return string(r)
}
func unlatin1(s string) string {
	var b []byte
	for _, r := range s {
		b = append(b, byte(r))
	}
	return string(b)
}

// viable returns the length of the longest beginning of s with which some
// accepted text begins.
func (p *verifParser) viable(s string) int {
	var add func(set map[uint32]bool, pc uint32, first, last bool)
	add = func(set map[uint32]bool, pc uint32, first, last bool) {
		if set[pc] {
			return
		}
		set[pc] = true
		in := &p.prog.Inst[pc]
		switch in.Op {
		case syntax.InstAlt, syntax.InstAltMatch:
			add(set, in.Out, first, last)
			add(set, in.Arg, first, last)
		case syntax.InstCapture, syntax.InstNop:
			add(set, in.Out, first, last)
		case syntax.InstEmptyWidth:
			if syntax.EmptyOp(in.Arg) == syntax.EmptyBeginText && first {
				add(set, in.Out, first, last)
			}
		}
	}
	cur := map[uint32]bool{}
	add(cur, uint32(p.prog.Start), true, false)
	for i := 0; i < len(s); i++ {
		next := map[uint32]bool{}
		for pc := range cur {
			in := &p.prog.Inst[pc]
			switch in.Op {
			case syntax.InstRune, syntax.InstRune1, syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
				if in.MatchRune(rune(s[i])) {
					add(next, in.Out, false, false)
				}
			}
		}
		if len(next) == 0 {
			return i
		}
		cur = next
	}
	return len(s)
}

func verifList(s string) (r []string) {
	for _, x := range strings.Split(s, ",") {
		r = append(r, strings.Trim(x, "\t\n\v\f\r "))
	}
	return
}

func verifCanon(s string) string {
	return strings.ToUpper(regexp.MustCompile(vSp+`+`).ReplaceAllString(s, " "))
}

// want returns what the text states; ok is false when it is no definition.
func (p *verifParser) want(kind, s string) (r interface{}, ok bool) {
	l := latin1(s)
	m := p.re.FindStringSubmatch(l)
	if m == nil {
		return nil, false
	}
	g := map[string]string{}
	for i, n := range p.re.SubexpNames() {
		if n != "" && m[i] != "" {
			g[n[:strings.LastIndex(n, "_")]] = unlatin1(m[i])
		}
	}
	has := func(n string) bool { return g[n] != "" }
	switch kind {
	case "check":
		return &ddl.Check{Expression: strings.TrimSpace(g["e"]), Deferrable: has("d"), InitiallyDeferred: has("id")}, true
	case "foreign key":
		fk := &ddl.ForeignKey{Table: g["table"], Columns: verifList(g["cols"]), Referenced: verifList(g["refs"]), Match: strings.ToUpper(g["match"]), Deferrable: has("d"), InitiallyDeferred: has("id")}
		for _, a := range regexp.MustCompile(`(?i)ON`+vSp+`+(DELETE|UPDATE)`+vSp+`+(`+vAct+`)`).FindAllStringSubmatch(g["on"], -1) {
			if strings.EqualFold(a[1], "delete") {
				fk.OnDelete = verifCanon(a[2])
			} else {
				fk.OnUpdate = verifCanon(a[2])
			}
		}
		return fk, true
	case "index":
		x := &ddl.Index{Name: g["name"], Table: g["table"], Unique: has("u"), Using: g["using"]}
		x.Where = regexp.MustCompile(vSp+`+`).ReplaceAllString(strings.TrimSpace(g["where"]), " ")
		x.Keys = append(x.Keys, &ddl.IndexKey{Column: g["col"], Expression: g["expr"], OpClass: g["op"]})
		for i, k := range verifList(g["rest"]) {
			if i > 0 {
				f := strings.Fields(k)
				f = append(f, "")
				x.Keys = append(x.Keys, &ddl.IndexKey{Column: f[0], OpClass: f[1]})
			}
		}
		return x, true
	case "trigger":
		t := &ddl.Trigger{Name: g["name"], Table: g["table"], Function: g["fn"], When: verifCanon(g["when"]), Constraint: has("c"), Deferrable: has("d"), InitiallyDeferred: has("id"), ForEachRow: has("row")}
		rest := g["ev"]
		one := regexp.MustCompile(`(?i)\A(INSERT|DELETE|TRUNCATE|UPDATE)(?:` + vSp + `+OF` + vSp + `+(` + vCols + `))?(?:` + vSp + `+OR` + vSp + `+|\z)`)
		for rest != "" {
			m := one.FindStringSubmatch(rest)
			if m == nil {
				panic("oracle: " + rest)
			}
			rest = rest[len(m[0]):]
			switch strings.ToUpper(m[1]) {
			case "INSERT":
				t.Insert = true
			case "DELETE":
				t.Delete = true
			case "TRUNCATE":
				t.Truncate = true
			case "UPDATE":
				t.Update = true
			}
			if m[2] != "" {
				t.Columns = append(t.Columns, verifList(m[2])...)
			}
		}
		return t, true
	}
	return nil, false
}

func verifShow(v interface{}) string {
	b, _ := json.Marshal(v)
	return string(b)
}

// judge compares a result of the real parser with the statement.
func (p *verifParser) judge(kind, s string) string {
	got, err := p.call(s)
	want, ok := p.want(kind, s)
	switch {
	case ok && err != nil:
		return fmt.Sprintf("a definition is rejected: %q", err.Error())
	case !ok && err == nil:
		return fmt.Sprintf("accepted as %s, but it is no %s definition", verifShow(got), kind)
	case ok && !reflect.DeepEqual(got, want):
		return fmt.Sprintf("read as %s, but it states %s", verifShow(got), verifShow(want))
	}
	return ""
}

// judgeError compares the message for a rejected text with the statement.
func (p *verifParser) judgeError(s string) string {
	_, err := p.call(s)
	if err == nil {
		return ""
	}
	want := verifMessage(s, p.viable(s))
	if got := err.Error(); got != want {
		return fmt.Sprintf("the error is %q, it should be %q", got, want)
	}
	return ""
}

func verifMessage(s string, at int) string {
	if at >= len(s) {
		return "error after end of data"
	}
	bol := strings.LastIndexByte(s[:at], '\n') + 1
	eol := len(s)
	if i := strings.IndexByte(s[at:], '\n'); i >= 0 {
		eol = at + i
	}
	return s[bol:eol] + "\n" + strings.Repeat(" ", utf8.RuneCountInString(s[bol:at])) + "^"
}

// ---- texts

type verifGen struct {
	r    *rand.Rand
	wild bool
}

func (g *verifGen) ws() string {
	n := 1
	if g.r.Intn(4) == 0 {
		n += g.r.Intn(3)
	}
	s := ""
	for ; n > 0; n-- {
		if g.r.Intn(3) > 0 {
			s += " "
		} else {
			s += string("\t\n\v\f\r "[g.r.Intn(6)])
		}
	}
	return s
}
func (g *verifGen) ows() string {
	if g.r.Intn(2) == 0 {
		return ""
	}
	return g.ws()
}
func (g *verifGen) kw(s string) string {
	if g.r.Intn(2) == 0 {
		return s
	}
	b := []byte(s)
	for i := range b {
		if g.r.Intn(2) == 0 {
			b[i] |= 0x20
		}
	}
	return string(b)
}
func (g *verifGen) pick(l ...string) string { return l[g.r.Intn(len(l))] }
func (g *verifGen) ident() string {
	if g.r.Intn(6) == 0 {
		return g.pick("on", "ON", "or", "of", "using", "where", "check", "x1_", "Z", "set", "a_b9", "deferrable", "INITIALLY")
	}
	s := string("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"[g.r.Intn(52)])
	for n := g.r.Intn(5); n > 0; n-- {
		s += string("abz_ABZ019"[g.r.Intn(10)])
	}
	return s
}
func (g *verifGen) cols() string {
	s := g.ident()
	for n := g.r.Intn(3); n > 0; n-- {
		s += g.ows() + "," + g.ows() + g.ident()
	}
	return s
}
func (g *verifGen) deferral() string {
	init := func() string { return g.kw("INITIALLY") + g.ws() + g.kw(g.pick("DEFERRED", "IMMEDIATE")) }
	switch g.r.Intn(5) {
	case 0:
		return g.ws() + g.kw("NOT") + g.ws() + g.kw("DEFERRABLE")
	case 1:
		return g.ws() + g.kw("DEFERRABLE")
	case 2:
		return g.ws() + g.kw("DEFERRABLE") + g.ws() + init()
	case 3:
		return g.ws() + init()
	}
	return ""
}
func (g *verifGen) text(n int) string {
	s := ""
	for ; n > 0; n-- {
		s += g.pick("a", "b", " ", "(", ")", ")", "\n", "\v", "\x00", "é", "\xff", "'", "x > 0", "DEFERRABLE", "INITIALLY DEFERRED", "  ", ",", "NOT")
	}
	return s
}
func (g *verifGen) valid(kind string) string {
	s := g.ows()
	switch kind {
	case "check":
		s += g.kw("CHECK") + g.ows() + "(" + g.text(g.r.Intn(6)) + ")" + g.deferral() + g.ows()
	case "foreign key":
		s += g.kw("FOREIGN") + g.ws() + g.kw("KEY") + g.ws() + "(" + g.ows() + g.cols() + g.ows() + ")" + g.ws() + g.kw("REFERENCES") + g.ws() + g.ident() + "(" + g.ows() + g.cols() + g.ows() + ")"
		if g.r.Intn(2) == 0 {
			s += g.ws() + g.kw("MATCH") + g.ws() + g.kw(g.pick("FULL", "PARTIAL", "SIMPLE"))
		}
		for n := g.r.Intn(4); n > 0; n-- {
			s += g.ws() + g.kw("ON") + g.ws() + g.kw(g.pick("DELETE", "UPDATE")) + g.ws()
			switch g.r.Intn(5) {
			case 0:
				s += g.kw("NO") + g.ws() + g.kw("ACTION")
			case 1:
				s += g.kw("RESTRICT")
			case 2:
				s += g.kw("CASCADE")
			case 3:
				s += g.kw("SET") + g.ws() + g.kw("NULL")
			case 4:
				s += g.kw("SET") + g.ws() + g.kw("DEFAULT")
			}
		}
		s += g.deferral() + g.ows()
	case "index":
		s += g.kw("CREATE") + g.ws()
		if g.r.Intn(2) == 0 {
			s += g.kw("UNIQUE") + g.ws()
		}
		s += g.kw("INDEX") + g.ws() + g.ident() + g.ws() + g.kw("ON") + g.ws() + g.ident()
		if g.r.Intn(2) == 0 {
			s += g.ws() + g.kw("USING") + g.ws() + g.ident()
		}
		s += g.ws() + "(" + g.ows()
		in := strings.ReplaceAll(g.text(g.r.Intn(3)), ")", "")
		switch g.r.Intn(3) {
		case 0:
			s += g.ident()
		case 1:
			s += g.ident() + "(" + in + ")"
		case 2:
			s += "(" + in + "z)"
		}
		if g.r.Intn(3) == 0 {
			s += g.ws() + g.ident()
		}
		for n := g.r.Intn(3); n > 0; n-- {
			s += g.ows() + "," + g.ows() + g.ident()
			if g.r.Intn(3) == 0 {
				s += g.ws() + g.ident()
			}
		}
		s += g.ows() + ")"
		if g.r.Intn(2) == 0 {
			s += g.ws() + g.kw("WHERE") + g.ws() + g.text(1+g.r.Intn(5))
		} else {
			s += g.ows()
		}
	case "trigger":
		s += g.kw("CREATE") + g.ws()
		if g.r.Intn(2) == 0 {
			s += g.kw("CONSTRAINT") + g.ws()
		}
		s += g.kw("TRIGGER") + g.ws() + g.ident() + g.ws()
		switch g.r.Intn(3) {
		case 0:
			s += g.kw("BEFORE")
		case 1:
			s += g.kw("AFTER")
		case 2:
			s += g.kw("INSTEAD") + g.ws() + g.kw("OF")
		}
		for i, n := 0, g.r.Intn(4); i <= n; i++ {
			s += g.ws()
			if i > 0 {
				s += g.kw("OR") + g.ws()
			}
			e := g.pick("INSERT", "UPDATE", "DELETE", "TRUNCATE")
			s += g.kw(e)
			if e == "UPDATE" && g.r.Intn(2) == 0 {
				s += g.ws() + g.kw("OF") + g.ws() + g.cols()
			}
		}
		s += g.ws() + g.kw("ON") + g.ws() + g.ident() + g.deferral()
		if g.r.Intn(2) == 0 {
			s += g.ws() + g.kw("FOR") + g.ws()
			if g.r.Intn(2) == 0 {
				s += g.kw("EACH") + g.ws()
			}
			s += g.kw(g.pick("ROW", "STATEMENT"))
		}
		s += g.ws() + g.kw("EXECUTE") + g.ws() + g.kw(g.pick("FUNCTION", "PROCEDURE")) + g.ws() + g.ident() + "()" + g.ows()
	}
	return s
}

func (g *verifGen) mutate(s string) string {
	for n := 1 + g.r.Intn(2); n > 0; n-- {
		i := g.r.Intn(len(s) + 1)
		b := string([]byte{byte(g.r.Intn(256))})
		if g.r.Intn(2) == 0 {
			b = g.pick(" ", "\n", ",", ")", "(", "a", "N", "_", "9", "\v", "é")
		}
		switch g.r.Intn(5) {
		case 0:
			s = s[:i] + b + s[i:]
		case 1:
			if i < len(s) {
				s = s[:i] + s[i+1:]
			}
		case 2:
			if i < len(s) {
				s = s[:i] + b + s[i+1:]
			}
		case 3:
			s = s[:i]
		case 4:
			j := i + g.r.Intn(len(s)-i+1)
			s = s[:i] + s[j:]
		}
	}
	return s
}

func verifCandidates() (r []string) {
	b, err := os.ReadFile(os.Getenv("VERIF_CANDIDATES"))
	if err != nil {
		return nil
	}
	var l []string
	json.Unmarshal(b, &l)
	for _, x := range l {
		if s, err := hex.DecodeString(x); err == nil {
			r = append(r, string(s))
		}
	}
	return
}

// texts feeds texts to f: the verifier's own candidates, valid definitions,
// every change of one byte of some of them, and changed definitions.
func verifTexts(k *verifkit.K, kind string, f func(s string) string) {
	g := &verifGen{r: k.R}
	run := func(s string) {
		k.Do(fmt.Sprintf("%s definition %q", kind, s), func() string { return f(s) })
	}
	for _, s := range verifCandidates() {
		for n := 0; n < 3 && k.More(); n++ {
			run(s)
			run(s + g.pick("", " ", ")", "a", "\n"))
			v := g.valid(kind)
			for j := 0; j < len(v) && k.More() && n == 0; j++ {
				run(s + v[j:])
			}
		}
	}
	for n := 0; k.More(); n++ {
		v := g.valid(kind)
		run(v)
		for i := 0; i < 10; i++ {
			run(g.mutate(v))
		}
		if n%50 == 0 {
			for i := 0; i < len(v) && k.More(); i++ {
				for b := 0; b < 256; b++ {
					run(v[:i] + string([]byte{byte(b)}) + v[i+1:])
				}
				run(v[:i])
			}
		}
	}
}
