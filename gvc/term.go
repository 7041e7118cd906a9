package main

// Hash-consed SMT terms with a light simplifier.

import (
	"fmt"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

type Term struct {
	Op    string // SMT symbol, or "int", "strlit", "bvar", "forall", "exists"
	Args  []*Term
	Sort  string
	Name  string // payload for int/strlit/bvar
	Bound []*Term
	Pats  [][]*Term
	id    int
	hasBV bool
	size  int
	h     uint64 // structural hash, independent of creation order
}

var internTab = map[string]*Term{}

func mix(h, x uint64) uint64 {
	h ^= x + 0x9e3779b97f4a7c15 + (h << 6) + (h >> 2)
	h *= 0xff51afd7ed558ccd
	return h ^ h>>33
}

func hashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

func (t *Term) hash() uint64 {
	h := mix(hashStr(t.Op), hashStr(t.Name))
	if len(t.Args) == 0 && len(t.Op) > 2 {
		// names carry creation-order numbers: those of definitions are replaced
		// by nameDef, those of heaps end in the allocation point's number
		h = mix(hashStr(heapIDRE.ReplaceAllString(t.Op, "")), hashStr(t.Name))
	}
	for _, a := range t.Args {
		h = mix(h, a.h)
	}
	for _, b := range t.Bound {
		h = mix(h, b.h+1)
	}
	return h
}

var heapIDRE = regexp.MustCompile(`!a\d+\|?$`)

func intern(t *Term) *Term {
	var sb strings.Builder
	sb.WriteString(t.Op)
	sb.WriteByte('|')
	sb.WriteString(t.Name)
	sb.WriteByte('|')
	sb.WriteString(t.Sort)
	for _, a := range t.Args {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(a.id))
	}
	for _, b := range t.Bound {
		sb.WriteByte(';')
		sb.WriteString(strconv.Itoa(b.id))
	}
	for _, p := range t.Pats {
		sb.WriteByte('!')
		for _, q := range p {
			sb.WriteByte(',')
			sb.WriteString(strconv.Itoa(q.id))
		}
	}
	k := sb.String()
	if x, ok := internTab[k]; ok {
		return x
	}
	t.id = len(internTab) + 1
	t.size = 1
	if t.Op == "bvar" {
		t.hasBV = true
	}
	for _, a := range t.Args {
		t.size += a.size
		if a.hasBV {
			t.hasBV = true
		}
	}
	if t.size > 1<<20 {
		t.size = 1 << 20
	}
	t.h = t.hash()
	internTab[k] = t
	return t
}

// ---- symbol registry ----

type Decl struct {
	Args   []string
	Ret    string
	Axioms []*Term  // included when the symbol occurs
	Def    string   // literal define-fun(-rec) body text instead of declare
	Needs  []string // symbols mentioned in Def
}

var decls = map[string]*Decl{}

func declare(name string, ret string, args ...string) *Decl {
	if d, ok := decls[name]; ok {
		return d
	}
	d := &Decl{Args: args, Ret: ret}
	decls[name] = d
	return d
}

func symOK(s string) string {
	ok := true
	for _, c := range s {
		if !(c == '_' || c == '.' || c == '!' || c == '$' || c == '-' || c == '@' || c == '%' || c == '/' || c == '*' || c == '?' || c == '~' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z') {
			ok = false
		}
	}
	if ok && s != "" && !(s[0] >= '0' && s[0] <= '9') && s[0] != '-' {
		return s
	}
	return "|" + strings.NewReplacer("|", "!", "\\", "/").Replace(s) + "|"
}

// Const declares (once) and returns a constant symbol.
func Const(name, srt string) *Term {
	n := symOK(name)
	declare(n, srt)
	if decls[n].Ret != srt {
		panic("constant redeclared with other sort: " + n + " " + decls[n].Ret + " vs " + srt)
	}
	return intern(&Term{Op: n, Sort: srt})
}

// App applies a declared or built-in function.
func App(op, srt string, args ...*Term) *Term {
	return intern(&Term{Op: op, Sort: srt, Args: args})
}

// UF declares and applies an uninterpreted function.
func UF(name, srt string, args ...*Term) *Term {
	n := symOK(name)
	if _, ok := decls[n]; !ok {
		as := make([]string, len(args))
		for i, a := range args {
			as[i] = a.Sort
		}
		declare(n, srt, as...)
	}
	d := decls[n]
	if len(d.Args) != len(args) {
		panic("UF arity " + n)
	}
	for i := range args {
		if d.Args[i] != args[i].Sort {
			panic(fmt.Sprintf("UF %s arg %d sort %s want %s", n, i, args[i].Sort, d.Args[i]))
		}
	}
	if len(args) == 0 {
		return intern(&Term{Op: n, Sort: srt})
	}
	return intern(&Term{Op: n, Sort: srt, Args: args})
}

func BV(name, srt string) *Term {
	return intern(&Term{Op: "bvar", Name: symOK(name), Sort: srt})
}

var True = intern(&Term{Op: "true", Sort: "Bool"})
var False = intern(&Term{Op: "false", Sort: "Bool"})

func Int(n int64) *Term {
	return intern(&Term{Op: "int", Name: strconv.FormatInt(n, 10), Sort: "Int"})
}
func BigInt(s string) *Term { return intern(&Term{Op: "int", Name: s, Sort: "Int"}) }

func intVal(t *Term) (int64, bool) {
	if t.Op == "int" {
		n, err := strconv.ParseInt(t.Name, 10, 64)
		return n, err == nil
	}
	return 0, false
}

func BoolT(b bool) *Term {
	if b {
		return True
	}
	return False
}

// StrLit is a Go string constant.
func StrLit(s string) *Term { return intern(&Term{Op: "strlit", Name: s, Sort: "Str"}) }

func isLit(t *Term) bool {
	return t.Op == "int" || t.Op == "strlit" || t == True || t == False
}

func Not(a *Term) *Term {
	switch {
	case a == True:
		return False
	case a == False:
		return True
	case a.Op == "not":
		return a.Args[0]
	}
	return App("not", "Bool", a)
}

func And(ts ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == False {
			return false
		}
		if t == True || seen[t] {
			return true
		}
		if t.Op == "and" {
			for _, x := range t.Args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if seen[Not(t)] {
			return false
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return False
		}
	}
	switch len(out) {
	case 0:
		return True
	case 1:
		return out[0]
	}
	return App("and", "Bool", out...)
}

func Or(ts ...*Term) *Term {
	ns := make([]*Term, len(ts))
	for i, t := range ts {
		if t.Op == "or" {
			xs := make([]*Term, len(t.Args))
			for j, y := range t.Args {
				xs[j] = Not(y)
			}
			ns[i] = And(xs...)
			continue
		}
		ns[i] = Not(t)
	}
	a := And(ns...)
	if a == True {
		return False
	}
	if a == False {
		return True
	}
	if a.Op != "and" {
		return Not(a)
	}
	xs := make([]*Term, len(a.Args))
	for i, x := range a.Args {
		xs[i] = Not(x)
	}
	return App("or", "Bool", xs...)
}

func Implies(a, b *Term) *Term {
	switch {
	case a == True:
		return b
	case a == False, b == True, a == b:
		return True
	case b == False:
		return Not(a)
	}
	return App("=>", "Bool", a, b)
}

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("Eq sorts %s %s: %s = %s", a.Sort, b.Sort, a, b))
	}
	if isLit(a) && isLit(b) {
		return False
	}
	if a.Sort == "Bool" {
		switch {
		case a == True:
			return b
		case b == True:
			return a
		case a == False:
			return Not(b)
		case b == False:
			return Not(a)
		}
	}
	if a.Sort == "Int" {
		d := Sub(a, b)
		if n, ok := intVal(d); ok {
			return BoolT(n == 0)
		}
	}
	if constructors[a.Op] && a.Op == b.Op {
		var cs []*Term
		for i := range a.Args {
			cs = append(cs, Eq(a.Args[i], b.Args[i]))
		}
		return And(cs...)
	}
	// nil / constant tests over ite
	if a.Op == "ite" && isLit(b) && isLit(a.Args[1]) && isLit(a.Args[2]) {
		return Ite(a.Args[0], Eq(a.Args[1], b), Eq(a.Args[2], b))
	}
	if b.Op == "ite" && isLit(a) && isLit(b.Args[1]) && isLit(b.Args[2]) {
		return Ite(b.Args[0], Eq(b.Args[1], a), Eq(b.Args[2], a))
	}
	if a.h > b.h || a.h == b.h && a.id > b.id {
		a, b = b, a
	}
	return App("=", "Bool", a, b)
}

func Ite(c, a, b *Term) *Term {
	switch {
	case c == True:
		return a
	case c == False:
		return b
	case a == b:
		return a
	}
	if a.Sort != b.Sort {
		panic("ite sorts " + a.Sort + " " + b.Sort)
	}
	if a.Sort == "Bool" {
		switch {
		case a == True && b == False:
			return c
		case a == False && b == True:
			return Not(c)
		case a == True:
			return Or(c, b)
		case b == False:
			return And(c, a)
		case a == False:
			return And(Not(c), b)
		case b == True:
			return Or(Not(c), a)
		}
	}
	return App("ite", a.Sort, c, a, b)
}

// linear normal form: coefficients over atoms
func linear(t *Term, k int64, m map[*Term]int64, c *int64) {
	switch t.Op {
	case "int":
		if n, ok := intVal(t); ok {
			*c += k * n
			return
		}
	case "+":
		for _, a := range t.Args {
			linear(a, k, m, c)
		}
		return
	case "-":
		if len(t.Args) == 1 {
			linear(t.Args[0], -k, m, c)
			return
		}
		linear(t.Args[0], k, m, c)
		for _, a := range t.Args[1:] {
			linear(a, -k, m, c)
		}
		return
	case "*":
		if len(t.Args) == 2 {
			if n, ok := intVal(t.Args[0]); ok && n > -(1<<30) && n < 1<<30 {
				linear(t.Args[1], k*n, m, c)
				return
			}
			if n, ok := intVal(t.Args[1]); ok && n > -(1<<30) && n < 1<<30 {
				linear(t.Args[0], k*n, m, c)
				return
			}
		}
	}
	m[t] += k
}

func fromLinear(m map[*Term]int64, c int64) *Term {
	var atoms []*Term
	for t, k := range m {
		if k != 0 {
			atoms = append(atoms, t)
		}
	}
	sort.Slice(atoms, func(i, j int) bool {
		return atoms[i].h < atoms[j].h || atoms[i].h == atoms[j].h && atoms[i].id < atoms[j].id
	})
	var parts []*Term
	for _, t := range atoms {
		if k := m[t]; k == 1 {
			parts = append(parts, t)
		} else {
			parts = append(parts, App("*", "Int", Int(k), t))
		}
	}
	if c != 0 || len(parts) == 0 {
		parts = append(parts, Int(c))
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return App("+", "Int", parts...)
}

func Add(ts ...*Term) *Term {
	m := map[*Term]int64{}
	var c int64
	for _, t := range ts {
		linear(t, 1, m, &c)
	}
	return fromLinear(m, c)
}
func Sub(a, b *Term) *Term {
	m := map[*Term]int64{}
	var c int64
	linear(a, 1, m, &c)
	linear(b, -1, m, &c)
	return fromLinear(m, c)
}
func Mul(a, b *Term) *Term {
	m := map[*Term]int64{}
	var c int64
	if n, ok := intVal(a); ok {
		linear(b, n, m, &c)
		return fromLinear(m, c)
	}
	if n, ok := intVal(b); ok {
		linear(a, n, m, &c)
		return fromLinear(m, c)
	}
	return App("*", "Int", a, b)
}

func Le(a, b *Term) *Term {
	d := Sub(b, a)
	if n, ok := intVal(d); ok {
		return BoolT(n >= 0)
	}
	return App("<=", "Bool", a, b)
}
func Lt(a, b *Term) *Term {
	d := Sub(b, a)
	if n, ok := intVal(d); ok {
		return BoolT(n > 0)
	}
	return App("<", "Bool", a, b)
}
func Ge(a, b *Term) *Term { return Le(b, a) }
func Gt(a, b *Term) *Term { return Lt(b, a) }

func arrSorts(s string) (string, string) {
	// "(Array X Y)"
	in := s[len("(Array ") : len(s)-1]
	depth := 0
	for i := 0; i < len(in); i++ {
		switch in[i] {
		case '(':
			depth++
		case ')':
			depth--
		case '|':
			i++
			for in[i] != '|' {
				i++
			}
		case ' ':
			if depth == 0 {
				return in[:i], in[i+1:]
			}
		}
	}
	panic("bad array sort " + s)
}
func ArrSort(k, v string) string { return "(Array " + k + " " + v + ")" }

// definitions of named heap versions (passive form), for simplification
var constDefs = map[*Term]*Term{}

func distinctRefs(a, b *Term) bool {
	if a.Sort != "Int" {
		return isLit(a) && isLit(b) && a != b
	}
	n, ok := intVal(Sub(a, b))
	return ok && n != 0
}

func Select(a, i *Term) *Term {
	_, v := arrSorts(a.Sort)
	for n := 0; n < 64; n++ {
		cur := a
		if d, ok := constDefs[cur]; ok {
			cur = d
		}
		if cur.Op == "store" {
			if cur.Args[1] == i {
				return cur.Args[2]
			}
			if distinctRefs(cur.Args[1], i) {
				a = cur.Args[0]
				continue
			}
		}
		if strings.HasPrefix(cur.Op, "(as const") {
			return cur.Args[0]
		}
		break
	}
	return App("select", v, a, i)
}

func Store(a, i, v *Term) *Term {
	_, vs := arrSorts(a.Sort)
	if vs != v.Sort {
		panic("store sort " + a.Sort + " <- " + v.Sort + " " + v.String())
	}
	if a.Op == "store" && a.Args[1] == i {
		a = a.Args[0]
	}
	return App("store", a.Sort, a, i, v)
}

func ConstArr(k, v string, x *Term) *Term {
	s := ArrSort(k, v)
	return App("(as const "+s+")", s, x)
}

func Forall(vars []*Term, body *Term, pats ...[]*Term) *Term {
	return quant("forall", vars, body, pats)
}
func Exists(vars []*Term, body *Term, pats ...[]*Term) *Term {
	return quant("exists", vars, body, pats)
}
func quant(q string, vars []*Term, body *Term, pats [][]*Term) *Term {
	if body == True || body == False {
		return body
	}
	used := map[*Term]bool{}
	collectBV(body, used)
	var vs []*Term
	for _, v := range vars {
		if used[v] {
			vs = append(vs, v)
		}
	}
	if len(vs) == 0 {
		return body
	}
	var ps [][]*Term
	for _, p := range pats {
		pu := map[*Term]bool{}
		for _, x := range p {
			collectBV(x, pu)
		}
		ok := true
		for _, v := range vs {
			if !pu[v] {
				ok = false
			}
		}
		if ok {
			ps = append(ps, p)
		}
	}
	t := intern(&Term{Op: q, Sort: "Bool", Args: []*Term{body}, Bound: vs, Pats: ps})
	// recompute hasBV: free bound variables remaining
	free := map[*Term]bool{}
	for v := range used {
		free[v] = true
	}
	for _, v := range vs {
		delete(free, v)
	}
	t.hasBV = len(free) > 0
	return t
}

func collectBV(t *Term, m map[*Term]bool) {
	if !t.hasBV {
		return
	}
	if t.Op == "bvar" {
		m[t] = true
		return
	}
	if len(t.Bound) > 0 {
		in := map[*Term]bool{}
		collectBV(t.Args[0], in)
		for _, b := range t.Bound {
			delete(in, b)
		}
		for k := range in {
			m[k] = true
		}
		return
	}
	for _, a := range t.Args {
		collectBV(a, m)
	}
}

// Subst replaces terms (leaves or any subterm) by others.
func Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if x, ok := m[t]; ok {
			return x
		}
		if len(t.Args) == 0 {
			return t
		}
		if x, ok := memo[t]; ok {
			return x
		}
		args := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			args[i] = rec(a)
			if args[i] != a {
				ch = true
			}
		}
		var pats [][]*Term
		for _, p := range t.Pats {
			var q []*Term
			for _, x := range p {
				y := rec(x)
				if y != x {
					ch = true
				}
				q = append(q, y)
			}
			pats = append(pats, q)
		}
		r := t
		if ch {
			r = rebuild(t, args, pats)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func rebuild(t *Term, args []*Term, pats [][]*Term) *Term {
	switch t.Op {
	case "and":
		return And(args...)
	case "or":
		return Or(args...)
	case "not":
		return Not(args[0])
	case "=>":
		return Implies(args[0], args[1])
	case "=":
		return Eq(args[0], args[1])
	case "ite":
		return Ite(args[0], args[1], args[2])
	case "+":
		return Add(args...)
	case "<=":
		return Le(args[0], args[1])
	case "<":
		return Lt(args[0], args[1])
	case "select":
		return Select(args[0], args[1])
	case "s_cat":
		return sCat(args[0], args[1])
	case "forall", "exists":
		return quant(t.Op, t.Bound, args[0], pats)
	}
	if isConcat(t) {
		return concatTerm(t.Op, args)
	}
	if len(args) == 1 {
		if i, ok := accessors[t.Op]; ok && args[0].Op == i.con {
			return args[0].Args[i.idx]
		}
	}
	return intern(&Term{Op: t.Op, Sort: t.Sort, Name: t.Name, Args: args, Bound: t.Bound, Pats: pats})
}

type accInfo struct {
	con string
	idx int
}

var accessors = map[string]accInfo{}
var constructors = map[string]bool{}

// datatypes: sort name -> declaration text; dependencies by sort text
type Datatype struct {
	Name   string
	Con    string
	Fields []string
	Sorts  []string
}

var datatypes = map[string]*Datatype{}
var datatypeOrder []string

func defDatatype(name, con string, fields, sorts []string) *Datatype {
	if d, ok := datatypes[name]; ok {
		return d
	}
	d := &Datatype{name, con, fields, sorts}
	datatypes[name] = d
	datatypeOrder = append(datatypeOrder, name)
	constructors[con] = true
	for i, f := range fields {
		accessors[f] = accInfo{con, i}
	}
	return d
}

func Acc(f, srt string, t *Term) *Term {
	a := accessors[f]
	if t.Op == a.con {
		return t.Args[a.idx]
	}
	if t.Op == "ite" {
		x, y := t.Args[1], t.Args[2]
		if x.Op == a.con || y.Op == a.con {
			return Ite(t.Args[0], Acc(f, srt, x), Acc(f, srt, y))
		}
	}
	return App(f, srt, t)
}

func init() {
	defDatatype("Slice", "mk_Slice", []string{"s_base", "s_off", "s_length", "s_cap"}, []string{"Int", "Int", "Int", "Int"})
	defDatatype("Iface", "mk_Iface", []string{"i_tag", "i_val"}, []string{"Int", "Int"})
	defDatatype("Unit", "mk_Unit", nil, nil)
}

func MkSlice(b, o, l, c *Term) *Term { return App("mk_Slice", "Slice", b, o, l, c) }
func SBase(s *Term) *Term            { return Acc("s_base", "Int", s) }
func SOff(s *Term) *Term             { return Acc("s_off", "Int", s) }
func SLen(s *Term) *Term             { return Acc("s_length", "Int", s) }
func SCap(s *Term) *Term             { return Acc("s_cap", "Int", s) }
func MkIface(t, v *Term) *Term       { return App("mk_Iface", "Iface", t, v) }
func ITag(s *Term) *Term             { return Acc("i_tag", "Int", s) }
func IVal(s *Term) *Term             { return Acc("i_val", "Int", s) }

var NilSlice = MkSlice(Int(0), Int(0), Int(0), Int(0))
var NilIface = MkIface(Int(0), Int(0))
var UnitT = App("mk_Unit", "Unit")

// ---- printing ----

func (t *Term) String() string {
	var sb strings.Builder
	p := &printer{sb: &sb}
	p.term(t)
	return sb.String()
}

type printer struct {
	ren    map[string]string
	sb     *strings.Builder
	named  map[*Term]string
	native bool
	lits   map[string]string // literal -> abstract constant name
}

func (p *printer) term(t *Term) {
	if n, ok := p.named[t]; ok {
		p.sb.WriteString(n)
		return
	}
	switch t.Op {
	case "int":
		if strings.HasPrefix(t.Name, "-") {
			p.sb.WriteString("(- " + t.Name[1:] + ")")
		} else {
			p.sb.WriteString(t.Name)
		}
		return
	case "bvar":
		p.sb.WriteString(t.Name)
		return
	case "strlit":
		if p.native {
			p.sb.WriteString(smtString(t.Name))
		} else if n, ok := p.lits[t.Name]; ok {
			p.sb.WriteString(n)
		} else {
			p.sb.WriteString(strconv.Quote(t.Name))
		}
		return
	case "forall", "exists":
		p.sb.WriteString("(" + t.Op + " (")
		for _, b := range t.Bound {
			p.sb.WriteString("(" + b.Name + " " + b.Sort + ")")
		}
		p.sb.WriteString(") ")
		if len(t.Pats) > 0 {
			p.sb.WriteString("(! ")
		}
		p.term(t.Args[0])
		for _, pt := range t.Pats {
			p.sb.WriteString(" :pattern (")
			for i, x := range pt {
				if i > 0 {
					p.sb.WriteByte(' ')
				}
				p.term(x)
			}
			p.sb.WriteString(")")
		}
		if len(t.Pats) > 0 {
			p.sb.WriteString(")")
		}
		p.sb.WriteString(")")
		return
	}
	if len(t.Args) == 0 {
		if r, ok := p.ren[t.Op]; ok {
			p.sb.WriteString(r)
			return
		}
		p.sb.WriteString(t.Op)
		return
	}
	p.sb.WriteByte('(')
	p.sb.WriteString(t.Op)
	for _, a := range t.Args {
		p.sb.WriteByte(' ')
		p.term(a)
	}
	p.sb.WriteByte(')')
}

func smtString(s string) string {
	var sb strings.Builder
	sb.WriteByte('"')
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == '"':
			sb.WriteString(`""`)
		case c < 32 || c > 126 || c == '\\':
			fmt.Fprintf(&sb, `\u{%x}`, c)
		default:
			sb.WriteByte(c)
		}
	}
	sb.WriteByte('"')
	return sb.String()
}
