package main

// Grammar contracts: the postcondition of a parser, stated as a grammar with
// captures and actions on the fields of its result. A grammar is compiled into
// a nondeterministic machine whose threads are ghost state; sim.go proves that
// the parser's code simulates it.

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type byteSet [4]uint64

func (s *byteSet) add(b byte)     { s[b>>6] |= 1 << (b & 63) }
func (s byteSet) has(b byte) bool { return s[b>>6]&(1<<(b&63)) != 0 }
func (s byteSet) and(t byteSet) byteSet {
	return byteSet{s[0] & t[0], s[1] & t[1], s[2] & t[2], s[3] & t[3]}
}
func (s byteSet) or(t byteSet) byteSet {
	return byteSet{s[0] | t[0], s[1] | t[1], s[2] | t[2], s[3] | t[3]}
}
func (s byteSet) empty() bool             { return s == byteSet{} }
func (s byteSet) subsetOf(t byteSet) bool { return s.and(t) == s }
func (s byteSet) disjoint(t byteSet) bool { return s.and(t).empty() }
func (s byteSet) hex() string             { return fmt.Sprintf("%x.%x.%x.%x", s[0], s[1], s[2], s[3]) }
func (s byteSet) single() (b byte, ok bool) {
	n := 0
	for i := 0; i < 256; i++ {
		if s.has(byte(i)) {
			b = byte(i)
			n++
		}
	}
	return b, n == 1
}

type gOp struct {
	id     int
	kind   string // start end set append last
	name   string // capture (start)
	target string
	field  string // last
	val    *gVal
	fields map[string]*gVal // append of a record
}

// gVal: an expression over the capture
type gVal struct {
	kind string // lit true false cap trim collapse upper
	lit  string
	arg  *gVal
}

func (v *gVal) uses() bool {
	return v != nil && (v.kind == "cap" || v.arg.uses())
}

type gEps struct {
	op *gOp
	to int
}

type gNode struct {
	set    byteSet
	to     int // consuming edge, -1: none
	eps    []gEps
	accept bool
	live   bool // the capture may still be used by an action from here on
}

type Grammar struct {
	fn       string
	props    []string
	posProp  string
	posField string
	posData  string
	nodes    []gNode
	start    int
	classes  map[string]byteSet
	space    byteSet
	file     string
	assumes  []string
	nops     int
}

type gParser struct {
	s     string
	i     int
	g     *Grammar
	rules map[string]string
	depth int
}

type gFrag struct{ in, out int }

func (p *gParser) fail(f string, a ...any) {
	panic(specErr{fmt.Sprintf("%s: %s: %s (near %q)", p.g.file, p.g.fn, fmt.Sprintf(f, a...), clip(p.s[p.i:], 30))})
}

func (g *Grammar) node() int {
	g.nodes = append(g.nodes, gNode{to: -1})
	return len(g.nodes) - 1
}
func (g *Grammar) eps(a, b int, op *gOp) { g.nodes[a].eps = append(g.nodes[a].eps, gEps{op, b}) }

func (p *gParser) ws() {
	for p.i < len(p.s) && strings.IndexByte(" \t\n", p.s[p.i]) >= 0 {
		p.i++
	}
}
func (p *gParser) peek() byte {
	p.ws()
	if p.i < len(p.s) {
		return p.s[p.i]
	}
	return 0
}
func (p *gParser) eat(c string) bool {
	p.ws()
	if strings.HasPrefix(p.s[p.i:], c) {
		p.i += len(c)
		return true
	}
	return false
}
func (p *gParser) need(c string) {
	if !p.eat(c) {
		p.fail("expected %q", c)
	}
}
func isIdentB(c byte) bool {
	return c == '_' || 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z' || '0' <= c && c <= '9'
}
func (p *gParser) ident() string {
	p.ws()
	j := p.i
	for j < len(p.s) && isIdentB(p.s[j]) {
		j++
	}
	if j == p.i {
		p.fail("expected a name")
	}
	r := p.s[p.i:j]
	p.i = j
	return r
}

func (p *gParser) alt() gFrag {
	f := p.seq()
	if p.peek() != '|' {
		return f
	}
	in, out := p.g.node(), p.g.node()
	p.g.eps(in, f.in, nil)
	p.g.eps(f.out, out, nil)
	for p.eat("|") {
		f := p.seq()
		p.g.eps(in, f.in, nil)
		p.g.eps(f.out, out, nil)
	}
	return gFrag{in, out}
}

func (p *gParser) seq() gFrag {
	n := p.g.node()
	f := gFrag{n, n}
	for {
		c := p.peek()
		if c == 0 || c == '|' || c == ')' || c == '>' {
			return f
		}
		x := p.rep()
		p.g.eps(f.out, x.in, nil)
		f.out = x.out
	}
}

func (p *gParser) rep() gFrag {
	f := p.atom()
	for {
		switch p.peek() {
		case '*', '+', '?':
			c := p.s[p.i]
			p.i++
			in, out := p.g.node(), p.g.node()
			p.g.eps(in, f.in, nil)
			p.g.eps(f.out, out, nil)
			if c != '+' {
				p.g.eps(in, out, nil)
			}
			if c != '?' {
				p.g.eps(f.out, f.in, nil)
			}
			f = gFrag{in, out}
		default:
			return f
		}
	}
}

func (p *gParser) set(s byteSet) gFrag {
	a, b := p.g.node(), p.g.node()
	p.g.nodes[a].set = s
	p.g.nodes[a].to = b
	return gFrag{a, b}
}

func (p *gParser) atom() gFrag {
	switch c := p.peek(); {
	case c == '(':
		p.i++
		f := p.alt()
		p.need(")")
		return f
	case c == '"':
		j := strings.IndexByte(p.s[p.i+1:], '"')
		if j < 0 {
			p.fail("unterminated literal")
		}
		lit := p.s[p.i+1 : p.i+1+j]
		p.i += j + 2
		n := p.g.node()
		f := gFrag{n, n}
		for k := 0; k < len(lit); k++ {
			var s byteSet
			s.add(strings.ToUpper(lit[k : k+1])[0])
			s.add(strings.ToLower(lit[k : k+1])[0])
			x := p.set(s)
			p.g.eps(f.out, x.in, nil)
			f.out = x.out
		}
		return f
	case c == '[':
		return p.set(p.class())
	case c == '<': // <expr>: a capture
		p.i++
		a, b := p.g.node(), p.g.node()
		f := p.alt()
		p.need(">")
		p.g.eps(a, f.in, &gOp{kind: "start"})
		p.g.eps(f.out, b, &gOp{kind: "end"})
		return gFrag{a, b}
	case c == '{':
		p.i++
		a := p.g.node()
		f := gFrag{a, a}
		for !p.eat("}") {
			op := p.action()
			p.g.nops++
			op.id = p.g.nops
			n := p.g.node()
			p.g.eps(f.out, n, op)
			f.out = n
			p.eat(";")
		}
		return f
	case isIdentB(c):
		name := p.ident()
		if s, ok := p.g.classes[name]; ok {
			return p.set(s)
		}
		r, ok := p.rules[name]
		if !ok {
			p.fail("no rule %s", name)
		}
		if p.depth > 20 {
			p.fail("rule %s is recursive", name)
		}
		q := &gParser{s: r, g: p.g, rules: p.rules, depth: p.depth + 1}
		f := q.alt()
		if q.peek() != 0 {
			q.fail("trailing text in rule %s", name)
		}
		return f
	}
	p.fail("unexpected")
	return gFrag{}
}

// class: [a-z_\t] or [^…]
func (p *gParser) class() (s byteSet) {
	p.need("[")
	neg := false
	if p.i < len(p.s) && p.s[p.i] == '^' {
		neg = true
		p.i++
	}
	one := func() byte {
		c := p.s[p.i]
		p.i++
		if c == '\\' {
			c = p.s[p.i]
			p.i++
			switch c {
			case 't':
				c = '\t'
			case 'n':
				c = '\n'
			case 'v':
				c = '\v'
			case 'f':
				c = '\f'
			case 'r':
				c = '\r'
			}
		}
		return c
	}
	for p.i < len(p.s) && p.s[p.i] != ']' {
		a := one()
		b := a
		if p.i+1 < len(p.s) && p.s[p.i] == '-' && p.s[p.i+1] != ']' {
			p.i++
			b = one()
		}
		for x := int(a); x <= int(b); x++ {
			s.add(byte(x))
		}
	}
	p.need("]")
	if neg {
		s = byteSet{^s[0], ^s[1], ^s[2], ^s[3]}
	}
	return
}

func (p *gParser) value() *gVal {
	if p.peek() == '"' {
		j := strings.IndexByte(p.s[p.i+1:], '"')
		v := &gVal{kind: "lit", lit: p.s[p.i+1 : p.i+1+j]}
		p.i += j + 2
		return v
	}
	switch n := p.ident(); n {
	case "true", "false":
		return &gVal{kind: n}
	case "it": // the text captured last
		return &gVal{kind: "cap"}
	case "trim", "collapse", "upper":
		p.need("(")
		a := p.value()
		p.need(")")
		return &gVal{kind: n, arg: a}
	default:
		p.fail("unknown value %s", n)
	}
	return nil
}

// action: F := v | L += v | L += {A: v, B: v} | L.last.F := v
func (p *gParser) action() *gOp {
	t := p.ident()
	if p.eat(".last.") {
		f := p.ident()
		p.need(":=")
		return &gOp{kind: "last", target: t, field: f, val: p.value()}
	}
	if p.eat("+=") {
		if p.eat("{") {
			op := &gOp{kind: "append", target: t, fields: map[string]*gVal{}}
			for !p.eat("}") {
				f := p.ident()
				p.need(":")
				op.fields[f] = p.value()
				p.eat(",")
			}
			return op
		}
		return &gOp{kind: "append", target: t, val: p.value()}
	}
	p.need(":=")
	return &gOp{kind: "set", target: t, val: p.value()}
}

func loadGrammars(dir string) (gs []*Grammar, err error) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(specErr); ok {
				err = fmt.Errorf("%s", e.msg)
				return
			}
			panic(r)
		}
	}()
	fs, _ := filepath.Glob(filepath.Join(dir, "*.grammar"))
	sort.Strings(fs)
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		var stmts []string
		for _, l := range strings.Split(string(b), "\n") {
			t := strings.TrimSpace(l)
			if t == "" || strings.HasPrefix(t, "//") {
				continue
			}
			w := strings.Fields(t)[0]
			switch w {
			case "grammar", "props", "position", "class", "rule", "main", "assume":
				stmts = append(stmts, t)
			default:
				if len(stmts) == 0 {
					return nil, fmt.Errorf("%s: unexpected %q", f, t)
				}
				stmts[len(stmts)-1] += "\n" + t
			}
		}
		var g *Grammar
		rules := map[string]string{}
		main := ""
		finish := func() {
			if g == nil {
				return
			}
			p := &gParser{s: main, g: g, rules: rules}
			fr := p.alt()
			if p.peek() != 0 {
				p.fail("trailing text")
			}
			g.start = fr.in
			g.nodes[fr.out].accept = true
			g.space = g.classes["space"]
			g.liveness()
			gs = append(gs, g)
		}
		for _, s := range stmts {
			w := strings.Fields(s)
			rest := strings.TrimSpace(strings.TrimPrefix(s, w[0]))
			switch w[0] {
			case "grammar":
				finish()
				g = &Grammar{fn: rest, classes: map[string]byteSet{}, file: filepath.Base(f)}
				g.classes["any"] = byteSet{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}
				rules = map[string]string{}
			case "props":
				g.props = w[1:]
			case "position":
				g.posProp, g.posField, g.posData = w[1], w[2], w[3]
			case "assume":
				g.assumes = append(g.assumes, rest)
			case "class":
				p := &gParser{s: rest, g: g}
				n := p.ident()
				p.need("=")
				p.ws()
				g.classes[n] = p.class()
			case "rule":
				p := &gParser{s: rest, g: g}
				n := p.ident()
				p.need("=")
				rules[n] = rest[p.i:]
			case "main":
				p := &gParser{s: rest, g: g}
				p.need("=")
				main = rest[p.i:]
			}
		}
		finish()
	}
	return gs, nil
}

func (g *Grammar) liveness() {
	for changed := true; changed; {
		changed = false
		for i := range g.nodes {
			n := &g.nodes[i]
			l := n.live
			if n.to >= 0 && g.nodes[n.to].live {
				l = true
			}
			for _, e := range n.eps {
				switch {
				case e.op == nil:
					l = l || g.nodes[e.to].live
				case e.op.kind == "start":
				case e.op.kind == "end":
					l = true // open here
				default:
					u := e.op.val.uses()
					for _, v := range e.op.fields {
						u = u || v.uses()
					}
					l = l || u || g.nodes[e.to].live
				}
			}
			if l != n.live {
				n.live = l
				changed = true
			}
		}
	}
}
