package main

// Parser of the contract files.

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

type Expr struct {
	op   string // ident int str bin un call index field forall exists cond forallin existsin slice
	name string
	args []*Expr
	vars []qvar
	trig [][]*Expr
	typ  string // type text (typeis, as, conversions)
	pos  string
}

type qvar struct {
	name string
	typ  string
	in   *Expr // forall i in s
}

type clause struct {
	label string
	tags  []string
	expr  *Expr
	text  string
	pos   string
}

type modClause struct {
	kind  string // field, deref, map, elems, ghost
	expr  *Expr
	field string
	vars  []qvar
	cond  *Expr
	text  string
}

// assignClause updates ghost state when the function returns
type assignClause struct {
	ghost string
	key   *Expr
	val   *Expr
	when  *Expr
	at    string // before calls of this function instead of at return
	pos   string
}

type schema struct {
	name     string
	vars     []qvar
	dec      bool // a measure that every iteration decreases
	overNot  bool
	overType string // the type of what the loop ranges over
	over     *Expr  // only in loops over this slice or map
	expr     *Expr
	text     string
	pos      string
}

type Contract struct {
	key       string
	pkg       string
	params    []string
	results   []string
	props     []string
	requires  []clause
	ensures   []clause
	names     []clause
	goensures []clause // what a goroutine the function starts has done when it ends
	modifies  []modClause
	schemas   []schema
	lets      []macro
	assigns   []assignClause
	native    bool
	prune     bool
	extern    bool // assumed, never verified
	noframe   bool
	opts      map[string]string
	inlines   bool
	pos       string
	file      string
}

func (c *Contract) opt(k string) string {
	if c == nil || c.opts == nil {
		return ""
	}
	return c.opts[k]
}

type macro struct {
	name   string
	params []qvar
	body   *Expr
	pkg    string
	pos    string
}

type specFun struct {
	name string
	args []string
	ret  string
	pkg  string
}

type specAxiom struct {
	name string
	expr *Expr
	pkg  string
	text string
}

type ghostVar struct {
	reset          string
	thread         bool // the history of the goroutine
	name, typ, pkg string
}

type SpecDB struct {
	contracts map[string]*Contract
	macros    map[string]*macro
	funs      map[string]*specFun
	axioms    []*specAxiom
	ghosts    map[string]*ghostVar
	assumes   map[string][]string
	tracks    []trackVar
	files     []string
}

// trackVar: a ghost set of all objects of a struct type allocated so far
type trackVar struct{ typ, pkg, ghost string }

type tok struct {
	k, s       string // k: id int str op eof
	line       int
	bol        bool
	start, end int
}

var opList = []string{"<==>", "==>", "::", "&&", "||", "==", "!=", "<=", ">=", "(", ")", "[", "]", "{", "}", ",", ":", ".", "+", "-", "*", "/", "%", "<", ">", "!", "?", "=", "&", ";", "|"}

func lexSpec(src, file string) ([]tok, error) {
	var out []tok
	line := 1
	bol := true
	i := 0
	for i < len(src) {
		c := src[i]
		switch {
		case c == '\n':
			line++
			bol = true
			i++
		case c == ' ' || c == '\t' || c == '\r':
			i++
		case c == '/' && i+1 < len(src) && src[i+1] == '/', c == '#':
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case c == '"':
			j := i + 1
			var sb strings.Builder
			for j < len(src) && src[j] != '"' {
				if src[j] == '\\' {
					j++
					switch src[j] {
					case 'n':
						sb.WriteByte('\n')
					case 't':
						sb.WriteByte('\t')
					case 'r':
						sb.WriteByte('\r')
					case '0':
						sb.WriteByte(0)
					default:
						sb.WriteByte(src[j])
					}
				} else {
					sb.WriteByte(src[j])
				}
				j++
			}
			out = append(out, tok{"str", sb.String(), line, bol, i, j + 1})
			bol = false
			i = j + 1
		case c >= '0' && c <= '9':
			j := i
			for j < len(src) && src[j] >= '0' && src[j] <= '9' {
				j++
			}
			out = append(out, tok{"int", src[i:j], line, bol, i, j})
			bol = false
			i = j
		case c == '_' || c == '$' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z':
			j := i
			for j < len(src) && (src[j] == '_' || src[j] == '$' || src[j] >= 'a' && src[j] <= 'z' || src[j] >= 'A' && src[j] <= 'Z' || src[j] >= '0' && src[j] <= '9') {
				j++
			}
			out = append(out, tok{"id", src[i:j], line, bol, i, j})
			bol = false
			i = j
		default:
			found := false
			for _, o := range opList {
				if strings.HasPrefix(src[i:], o) {
					out = append(out, tok{"op", o, line, bol, i, i + len(o)})
					bol = false
					i += len(o)
					found = true
					break
				}
			}
			if !found {
				return nil, fmt.Errorf("%s:%d: bad character %q", file, line, c)
			}
		}
	}
	out = append(out, tok{"eof", "", line + 1, true, len(src), len(src)})
	return out, nil
}

type sparser struct {
	toks []tok
	i    int
	src  string
	file string
	pkg  string
}

type specErr struct{ msg string }

func (p *sparser) fail(f string, a ...interface{}) {
	panic(specErr{fmt.Sprintf("%s:%d: %s", filepath.Base(p.file), p.toks[p.i].line, fmt.Sprintf(f, a...))})
}
func (p *sparser) peek() tok { return p.toks[p.i] }
func (p *sparser) peekN(n int) tok {
	if p.i+n >= len(p.toks) {
		return p.toks[len(p.toks)-1]
	}
	return p.toks[p.i+n]
}
func (p *sparser) is(s string) bool {
	t := p.peek()
	return (t.k == "op" || t.k == "id") && t.s == s
}
func (p *sparser) accept(s string) bool {
	if p.is(s) {
		p.i++
		return true
	}
	return false
}
func (p *sparser) expect(s string) {
	if !p.accept(s) {
		p.fail("expected %q, found %q", s, p.peek().s)
	}
}
func (p *sparser) ident() string {
	t := p.peek()
	if t.k != "id" {
		p.fail("expected identifier, found %q", t.s)
	}
	p.i++
	return t.s
}

var clauseKW = map[string]bool{"package": true, "pred": true, "fun": true, "axiom": true, "ghost": true, "func": true, "extern": true, "props": true, "requires": true, "ensures": true, "names": true, "modifies": true, "inv": true, "dec": true, "strings": true, "prune": true, "let": true, "opt": true, "assign": true, "assume": true, "track": true, "goensures": true}

func (p *sparser) atClause() bool {
	t := p.peek()
	return t.k == "eof" || t.bol && t.k == "id" && clauseKW[t.s]
}

// typeText reads tokens of a type up to a delimiter at depth 0
func (p *sparser) typeText(delims ...string) string {
	depth := 0
	start := p.peek().start
	end := start
	for {
		t := p.peek()
		if t.k == "eof" {
			p.fail("unterminated type")
		}
		if depth == 0 {
			for _, d := range delims {
				if t.k == "op" && t.s == d || t.k == "id" && t.s == d {
					return strings.TrimSpace(p.src[start:end])
				}
			}
		}
		switch t.s {
		case "(", "[", "{":
			depth++
		case ")", "]", "}":
			depth--
		}
		end = t.end
		p.i++
	}
}

func (p *sparser) qvars(end string) []qvar {
	var out []qvar
	for {
		n := p.ident()
		if p.accept("in") {
			e := p.cmpRHS()
			out = append(out, qvar{name: n, in: e})
		} else {
			p.expect(":")
			out = append(out, qvar{name: n, typ: p.typeText(",", end)})
		}
		if !p.accept(",") {
			break
		}
	}
	return out
}

func (p *sparser) cmpRHS() *Expr { return p.additive() }

func (p *sparser) expr() *Expr { return p.iff() }

func (p *sparser) mk(op, name string, args ...*Expr) *Expr {
	return &Expr{op: op, name: name, args: args, pos: fmt.Sprintf("%s:%d", filepath.Base(p.file), p.peek().line)}
}

func (p *sparser) iff() *Expr {
	l := p.implies()
	for p.accept("<==>") {
		l = p.mk("bin", "<==>", l, p.implies())
	}
	return l
}
func (p *sparser) implies() *Expr {
	l := p.cond()
	if p.accept("==>") {
		return p.mk("bin", "==>", l, p.implies())
	}
	return l
}
func (p *sparser) cond() *Expr {
	l := p.or()
	if p.accept("?") {
		a := p.cond()
		p.expect(":")
		b := p.cond()
		return p.mk("cond", "", l, a, b)
	}
	return l
}
func (p *sparser) or() *Expr {
	l := p.and()
	for p.accept("||") {
		l = p.mk("bin", "||", l, p.and())
	}
	return l
}
func (p *sparser) and() *Expr {
	l := p.cmp()
	for p.accept("&&") {
		l = p.mk("bin", "&&", l, p.cmp())
	}
	return l
}
func (p *sparser) cmp() *Expr {
	l := p.additive()
	var res *Expr
	for {
		op := ""
		for _, o := range []string{"==", "!=", "<=", ">=", "<", ">", "in"} {
			if p.is(o) {
				op = o
			}
		}
		neg := false
		if op == "" && p.is("!") && p.toks[p.i+1].s == "in" {
			p.i++
			op = "in"
			neg = true
		}
		if op == "" {
			break
		}
		p.i++
		r := p.additive()
		c := p.mk("bin", op, l, r)
		if neg {
			c = p.mk("un", "!", c)
		}
		if res == nil {
			res = c
		} else {
			res = p.mk("bin", "&&", res, c)
		}
		l = r
	}
	if res == nil {
		return l
	}
	return res
}
func (p *sparser) additive() *Expr {
	l := p.mulExpr()
	for {
		switch {
		case p.accept("+"):
			l = p.mk("bin", "+", l, p.mulExpr())
		case p.accept("-"):
			l = p.mk("bin", "-", l, p.mulExpr())
		default:
			return l
		}
	}
}
func (p *sparser) mulExpr() *Expr {
	l := p.unary()
	for {
		switch {
		case p.accept("*"):
			l = p.mk("bin", "*", l, p.unary())
		case p.accept("/"):
			l = p.mk("bin", "/", l, p.unary())
		case p.accept("%"):
			l = p.mk("bin", "%", l, p.unary())
		default:
			return l
		}
	}
}
func (p *sparser) unary() *Expr {
	switch {
	case p.accept("!"):
		return p.mk("un", "!", p.unary())
	case p.accept("-"):
		return p.mk("un", "-", p.unary())
	case p.accept("*"):
		return p.mk("un", "*", p.unary())
	case p.accept("&"):
		return p.mk("un", "&", p.unary())
	case (p.is("setof") || p.is("fmap")) && p.peekN(1).s == "(":
		nm := p.peek().s
		p.i += 2
		vs := p.qvars("::")
		p.expect("::")
		e := p.mk("setof", nm)
		e.vars = vs
		e.args = []*Expr{p.expr()}
		p.expect(")")
		return e
	case p.is("concat") && p.peekN(1).s == "(":
		p.i += 2
		v := qvar{name: p.ident()}
		p.expect("in")
		n := p.additive()
		p.expect("::")
		e := p.mk("concat", v.name)
		e.vars = []qvar{v}
		e.args = []*Expr{n, p.expr()}
		p.expect(")")
		return e
	case p.is("forall"), p.is("exists"):
		q := p.ident()
		vs := p.qvars("::")
		p.expect("::")
		e := p.mk(q, "")
		e.vars = vs
		for p.is("{") {
			p.i++
			var pat []*Expr
			for {
				pat = append(pat, p.expr())
				if !p.accept(",") {
					break
				}
			}
			p.expect("}")
			e.trig = append(e.trig, pat)
		}
		e.args = []*Expr{p.expr()}
		return e
	}
	return p.postfix()
}
func (p *sparser) postfix() *Expr {
	e := p.primary()
	for {
		switch {
		case p.accept("."):
			if p.accept("(") {
				t := p.typeText(")")
				p.expect(")")
				e = p.mk("as", "", e)
				e.typ = t
				continue
			}
			e = p.mk("field", p.ident(), e)
		case p.is("["):
			p.i++
			if p.accept(":") {
				hi := p.expr()
				p.expect("]")
				e = p.mk("slice", "", e, nil, hi)
				continue
			}
			lo := p.expr()
			if p.accept(":") {
				var hi *Expr
				if !p.is("]") {
					hi = p.expr()
				}
				p.expect("]")
				e = p.mk("slice", "", e, lo, hi)
				continue
			}
			p.expect("]")
			e = p.mk("index", "", e, lo)
		case p.is("(") && !p.peek().bol:
			// call: e must be a name (possibly qualified)
			p.i++
			name := ""
			switch e.op {
			case "ident":
				name = e.name
			case "field":
				if e.args[0].op == "ident" {
					name = e.args[0].name + "." + e.name
				}
			}
			if name == "" {
				p.fail("call of a non-name")
			}
			c := p.mk("call", name)
			if name == "typeis" || name == "as" || name == "box" {
				c.args = append(c.args, p.expr())
				p.expect(",")
				c.typ = p.typeText(")")
				p.expect(")")
				e = c
				continue
			}
			if name == "elemsof" || name == "heapmap" || name == "emptyset" {
				c.typ = p.typeText(",", ")")
				if p.accept(",") {
					c.args = append(c.args, p.expr())
				}
				p.expect(")")
				e = c
				continue
			}
			for !p.is(")") {
				c.args = append(c.args, p.expr())
				if !p.accept(",") {
					break
				}
			}
			p.expect(")")
			e = c
		default:
			return e
		}
	}
}
func (p *sparser) primary() *Expr {
	t := p.peek()
	switch {
	case t.k == "int":
		p.i++
		return p.mk("int", t.s)
	case t.k == "str":
		p.i++
		return p.mk("str", t.s)
	case p.accept("("):
		e := p.expr()
		p.expect(")")
		return e
	case t.k == "id":
		p.i++
		return p.mk("ident", t.s)
	}
	p.fail("unexpected %q", t.s)
	return nil
}

func (p *sparser) textFrom(start int) string {
	end := p.toks[p.i-1].end
	return strings.Join(strings.Fields(p.src[start:end]), " ")
}

var propRe = regexp.MustCompile(`^P[0-9]+$`)

func (p *sparser) label(c *clause) {
	// [tags] label:
	if p.is("[") {
		p.i++
		for {
			c.tags = append(c.tags, p.ident())
			if !p.accept(",") {
				break
			}
		}
		p.expect("]")
	}
	if p.peek().k == "id" && p.toks[p.i+1].k == "op" && p.toks[p.i+1].s == ":" {
		c.label = p.ident()
		p.expect(":")
	}
}

func (db *SpecDB) parseFile(file string) (err error) {
	b, err := os.ReadFile(file)
	if err != nil {
		return err
	}
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(specErr); ok {
				err = fmt.Errorf("%s", e.msg)
				return
			}
			panic(r)
		}
	}()
	toks, err := lexSpec(string(b), file)
	if err != nil {
		return err
	}
	p := &sparser{toks: toks, src: string(b), file: file}
	var cur *Contract
	for p.peek().k != "eof" {
		t := p.peek()
		if !p.atClause() {
			p.fail("expected a clause, found %q", t.s)
		}
		pos := fmt.Sprintf("%s:%d", filepath.Base(file), t.line)
		p.i++
		switch t.s {
		case "package":
			start := p.peek().start
			for !p.atClause() {
				p.i++
			}
			p.pkg = strings.TrimSpace(p.src[start:p.toks[p.i-1].end])
			cur = nil
		case "track":
			tn := p.ident()
			p.expect(":")
			g := p.ident()
			db.ghosts[g] = &ghostVar{name: g, typ: "set[*" + tn + "]", pkg: p.pkg}
			db.tracks = append(db.tracks, trackVar{tn, p.pkg, g})
			cur = nil
		case "assume":
			var ps []string
			for p.peek().k == "id" {
				ps = append(ps, p.peek().s)
				p.i++
			}
			if p.peek().k != "str" {
				panic(specErr{pos + ": assume needs a text"})
			}
			for _, x := range ps {
				db.assumes[x] = append(db.assumes[x], p.peek().s)
			}
			p.i++
			cur = nil
		case "pred":
			m := &macro{pkg: p.pkg, pos: pos}
			m.name = p.ident()
			p.expect("(")
			if !p.is(")") {
				m.params = p.qvars(")")
			}
			p.expect(")")
			p.expect("=")
			m.body = p.expr()
			if db.macros[m.name] != nil {
				p.fail("pred %s defined twice", m.name)
			}
			db.macros[m.name] = m
		case "fun":
			f := &specFun{pkg: p.pkg}
			f.name = p.ident()
			p.expect("(")
			for !p.is(")") {
				f.args = append(f.args, p.typeText(",", ")"))
				if !p.accept(",") {
					break
				}
			}
			p.expect(")")
			start := p.peek().start
			for !p.atClause() {
				p.i++
			}
			f.ret = strings.TrimSpace(p.src[start:p.toks[p.i-1].end])
			db.funs[f.name] = f
		case "axiom":
			a := &specAxiom{pkg: p.pkg}
			a.name = p.ident()
			p.expect(":")
			s := p.peek().start
			a.expr = p.expr()
			a.text = p.textFrom(s)
			db.axioms = append(db.axioms, a)
		case "ghost":
			g := &ghostVar{pkg: p.pkg}
			g.name = p.ident()
			p.expect(":")
			start := p.peek().start
			for !p.atClause() {
				p.i++
			}
			g.typ = strings.TrimSpace(p.src[start:p.toks[p.i-1].end])
			// "reset T": keyed by *T, zero when a T is allocated
			if i := strings.Index(g.typ, " reset "); i >= 0 {
				g.typ, g.reset = strings.TrimSpace(g.typ[:i]), strings.TrimSpace(g.typ[i+7:])
			}
			if strings.HasSuffix(g.typ, " thread") {
				g.typ, g.thread = strings.TrimSpace(strings.TrimSuffix(g.typ, " thread")), true
			}
			db.ghosts[g.name] = g
		case "func", "extern":
			start := p.peek().start
			// key up to the parameter list: last "(" group on this line is results
			cur = &Contract{pkg: p.pkg, pos: pos, file: file, extern: t.s == "extern", opts: map[string]string{}}
			line := t.line
			var hdr []tok
			for p.peek().k != "eof" && p.peek().line == line {
				hdr = append(hdr, p.peek())
				p.i++
			}
			txt := p.src[start:hdr[len(hdr)-1].end]
			if err := cur.parseHeader(txt); err != nil {
				p.fail("%v", err)
			}
			if db.contracts[cur.key] != nil {
				p.fail("second contract for %s", cur.key)
			}
			db.contracts[cur.key] = cur
		case "props":
			for !p.atClause() {
				cur.props = append(cur.props, p.ident())
				p.accept(",")
			}
		case "requires", "ensures", "names", "goensures":
			var c clause
			c.pos = pos
			p.label(&c)
			s := p.peek().start
			c.expr = p.expr()
			c.text = p.textFrom(s)
			if t.s == "requires" {
				cur.requires = append(cur.requires, c)
			} else if t.s == "goensures" {
				cur.goensures = append(cur.goensures, c)
			} else if t.s == "names" {
				// names given to new results: assumed by callers
				cur.names = append(cur.names, c)
			} else {
				if c.label == "" {
					c.label = fmt.Sprintf("post%d", len(cur.ensures)+1)
				}
				cur.ensures = append(cur.ensures, c)
			}
		case "let":
			m := macro{pkg: p.pkg, pos: pos}
			m.name = p.ident()
			p.expect("=")
			m.body = p.expr()
			cur.lets = append(cur.lets, m)
		case "assign":
			a := assignClause{pos: pos}
			if p.accept("at") {
				a.at = p.ident()
			}
			e := p.postfix()
			switch {
			case e.op == "index" && e.args[0].op == "ident":
				a.ghost, a.key = e.args[0].name, e.args[1]
			case e.op == "ident":
				a.ghost = e.name
			default:
				p.fail("bad assign")
			}
			p.expect("=")
			a.val = p.expr()
			if p.accept("when") {
				a.when = p.expr()
			}
			cur.assigns = append(cur.assigns, a)
		case "modifies":
			for {
				s := p.peek().start
				var m modClause
				if p.is("*") {
					p.i++
					m.kind = "deref"
					m.expr = p.unary()
				} else {
					e := p.postfix()
					switch {
					case e.op == "call" && (e.name == "map" || e.name == "elems" || e.name == "obj" || e.name == "text") && len(e.args) == 1:
						m.kind = e.name
						m.expr = e.args[0]
					case e.op == "field":
						m.kind = "field"
						m.expr = e.args[0]
						m.field = e.name
					case e.op == "index" && e.args[0].op == "ident":
						m.kind = "ghostkey"
						m.field = e.args[0].name
						if k := e.args[1]; k.op != "ident" || k.name != "new" {
							m.expr = k
						}
					case e.op == "ident" && e.name == "nothing":
						m.kind = "nothing"
					case e.op == "ident":
						m.kind = "ghost"
						m.field = e.name
					default:
						p.fail("bad modifies")
					}
				}
				if p.accept("for") {
					p.expect("(")
					m.vars = p.qvars(")")
					p.expect(")")
					p.expect(":")
					m.cond = p.expr()
				}
				m.text = p.textFrom(s)
				cur.modifies = append(cur.modifies, m)
				if !p.accept(",") {
					break
				}
			}
		case "inv", "dec":
			s := schema{pos: pos, dec: t.s == "dec"}
			s.name = p.ident()
			if p.accept("over") {
				s.overNot = p.accept("not")
				if p.accept("type") {
					p.expect("(")
					s.overType = p.typeText(")")
					p.expect(")")
				} else {
					s.over = p.expr()
				}
			}
			if p.accept("for") {
				p.expect("(")
				s.vars = p.qvars(")")
				p.expect(")")
			}
			p.expect(":")
			st := p.peek().start
			s.expr = p.expr()
			s.text = p.textFrom(st)
			cur.schemas = append(cur.schemas, s)
		case "strings":
			cur.native = p.ident() == "native"
		case "prune":
			cur.prune = true
		case "opt":
			k := p.ident()
			v := "1"
			if !p.atClause() {
				v = p.peek().s
				p.i++
			}
			cur.opts[k] = v
		}
		if !p.atClause() {
			p.fail("unexpected %q", p.peek().s)
		}
	}
	return nil
}

// parseHeader: internal/dag.(*visitor).visit(v, n) (r)
func (c *Contract) parseHeader(txt string) error {
	txt = strings.TrimSpace(txt)
	// split trailing groups
	var groups []string
	for strings.HasSuffix(txt, ")") && len(groups) < 2 {
		depth := 0
		i := len(txt) - 1
		for ; i >= 0; i-- {
			if txt[i] == ')' {
				depth++
			} else if txt[i] == '(' {
				depth--
				if depth == 0 {
					break
				}
			}
		}
		if i < 0 {
			return fmt.Errorf("bad header %q", txt)
		}
		g := txt[i+1 : len(txt)-1]
		if strings.HasPrefix(txt[i:], "(*") {
			break
		}
		groups = append([]string{g}, groups...)
		txt = strings.TrimSpace(txt[:i])
		if i > 0 && !strings.HasSuffix(txt, ")") {
			break
		}
	}
	if len(groups) == 0 {
		return fmt.Errorf("missing parameter list in %q", txt)
	}
	split := func(s string) []string {
		var out []string
		for _, x := range strings.Split(s, ",") {
			if x = strings.TrimSpace(x); x != "" {
				out = append(out, x)
			}
		}
		return out
	}
	c.key = txt
	c.params = split(groups[0])
	if len(groups) > 1 {
		c.results = split(groups[1])
	}
	return nil
}

func loadSpecs(dir string) (*SpecDB, error) {
	db := &SpecDB{contracts: map[string]*Contract{}, macros: map[string]*macro{}, funs: map[string]*specFun{}, ghosts: map[string]*ghostVar{}, assumes: map[string][]string{}}
	fs, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(fs)
	for _, f := range fs {
		if err := db.parseFile(f); err != nil {
			return nil, err
		}
		db.files = append(db.files, f)
	}
	return db, nil
}
