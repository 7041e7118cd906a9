package main

// Proof that a parser's code simulates its grammar contract, for every input.
//
// The code is cut at every instruction that reads a new byte of its argument.
// A program point is a cut (with its call stack) together with the set of
// threads of the grammar's machine that are alive there. The invariant of a
// point says which of the program's live variables and heap cells and the
// threads' ghost registers are equal, which are constant, and how the
// positions among them are ordered. The invariants are found by iteration and
// then checked to be inductive: from every point, for each of the 256 values
// of the byte read and for both answers to "does the text end after it", the
// code is executed on symbolic values up to the next cut or to the return.
// At a return the result must be the one the grammar states.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"regexp/syntax"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

type vkind uint8

const (
	kUnk vkind = iota
	kInt
	kBool
	kStr
	kNil
	kAddr
	kList
	kRec
	kIface
	kRegexp
	kFunc
	kCell
	kTuple
)

type SV struct {
	k    vkind
	sym  string // kInt: symbol ("" constant); kUnk, kCell: name; kRegexp: pattern; kRec, kIface: type
	n    int64  // kInt, kBool
	segs []seg  // kStr
	obj  int    // kAddr
	path string // kAddr
	el   []*SV  // kList, kTuple, kIface(1)
	rec  map[string]*SV
	prov *SV // kInt: a byte of the text at this position
	fn   *ssa.Function
	cell vkind // kCell: kind of the cell
	ks   string
}

// seg of a string: literal, symbol, part of the text, application
type seg struct {
	op   byte // 'l' 's' 'd' 'a'
	lit  string
	a, b *SV // 'd'
	arg  *SV // 'a'
}

func (v *SV) key() string {
	if v == nil {
		return "<nil>"
	}
	if v.ks == "" {
		v.ks = v.mkkey()
	}
	return v.ks
}

func (v *SV) mkkey() string {
	switch v.k {
	case kInt:
		if v.sym == "" {
			return strconv.FormatInt(v.n, 10)
		}
		return v.sym + "+" + strconv.FormatInt(v.n, 10)
	case kBool:
		if v.sym != "" {
			return "b:" + v.sym
		}
		return "b" + strconv.FormatInt(v.n, 10)
	case kStr:
		var sb strings.Builder
		sb.WriteString("\"")
		for _, s := range v.segs {
			switch s.op {
			case 'l':
				sb.WriteString(strconv.Quote(s.lit))
			case 's':
				sb.WriteString("$" + s.lit)
			case 'd':
				sb.WriteString("[" + s.a.key() + ":" + s.b.key() + "]")
			case 'a':
				sb.WriteString(s.lit + "(" + s.arg.key() + ")")
			}
			sb.WriteString(" ")
		}
		return sb.String()
	case kNil:
		return "nil"
	case kAddr:
		return fmt.Sprintf("&%d%s", v.obj, v.path)
	case kList, kTuple:
		p := []string{}
		for _, e := range v.el {
			p = append(p, e.key())
		}
		return v.sym + "[" + strings.Join(p, ",") + "]"
	case kRec:
		p := []string{}
		for _, f := range sortedKeys(v.rec) {
			p = append(p, f+":"+v.rec[f].key())
		}
		return v.sym + "{" + strings.Join(p, ",") + "}"
	case kIface:
		return "iface " + v.sym + " " + v.el[0].key()
	case kRegexp:
		return "regexp " + v.sym
	case kFunc:
		return "func " + v.fn.String()
	case kCell:
		return "cell " + v.sym
	}
	return "?" + v.sym
}

func svInt(n int64) *SV           { return &SV{k: kInt, n: n} }
func svSym(s string, n int64) *SV { return &SV{k: kInt, sym: s, n: n} }
func svBool(b bool) *SV {
	if b {
		return &SV{k: kBool, n: 1}
	}
	return &SV{k: kBool}
}
func svLit(s string) *SV {
	if s == "" {
		return &SV{k: kStr}
	}
	return &SV{k: kStr, segs: []seg{{op: 'l', lit: s}}}
}
func (v *SV) isConst() bool { // no symbols of a point inside
	switch v.k {
	case kInt:
		return v.sym == "" || v.sym == "LEN"
	case kBool:
		return v.sym == ""
	case kStr:
		for _, s := range v.segs {
			if s.op != 'l' && !(s.op == 'd' && s.a.isConst() && s.b.isConst()) {
				return false
			}
		}
		return true
	case kNil:
		return true
	case kList:
		for _, e := range v.el {
			if !e.isConst() {
				return false
			}
		}
		return true
	case kRec:
		for _, e := range v.rec {
			if !e.isConst() {
				return false
			}
		}
		return true
	}
	return false
}
func (v *SV) literal() (string, bool) {
	if v.k != kStr {
		return "", false
	}
	r := ""
	for _, s := range v.segs {
		if s.op != 'l' {
			return "", false
		}
		r += s.lit
	}
	return r, true
}

func svCat(a, b *SV) *SV {
	if a.k != kStr || b.k != kStr {
		return &SV{k: kUnk, sym: "cat"}
	}
	r := &SV{k: kStr}
	r.segs = append(r.segs, a.segs...)
	for _, s := range b.segs {
		if n := len(r.segs); n > 0 {
			l := &r.segs[n-1]
			if l.op == 'l' && s.op == 'l' {
				r.segs[n-1] = seg{op: 'l', lit: l.lit + s.lit}
				continue
			}
			if l.op == 'd' && s.op == 'd' && l.b.key() == s.a.key() {
				r.segs[n-1] = seg{op: 'd', a: l.a, b: s.b}
				continue
			}
		}
		r.segs = append(r.segs, s)
	}
	return r
}
func svSub(a, b *SV) *SV {
	if a.key() == b.key() {
		return svLit("")
	}
	return &SV{k: kStr, segs: []seg{{op: 'd', a: a, b: b}}}
}

type shapeEl struct {
	set  byteSet
	plus bool
	node int
}

func shapeKey(s []shapeEl) string {
	var sb strings.Builder
	for _, e := range s {
		sb.WriteString(e.set.hex())
		if e.plus {
			sb.WriteByte('+')
		}
		sb.WriteByte(' ')
	}
	return sb.String()
}

// ---- threads of the grammar's machine

type gthread struct {
	node    int
	slot    int // 0 none, 1 open, 2 closed
	start   *SV
	end     *SV
	justEnd bool
	shape   []shapeEl
	noshape bool
	out     map[string]*SV            // scalar and list fields
	last    map[string]map[string]*SV // last element of a list of records
	pend    []*gOp                    // actions since the last byte, not done yet
}

func (t *gthread) id() string {
	s := fmt.Sprintf("%d/%d", t.node, t.slot)
	if t.slot != 0 {
		if t.noshape {
			s += "~"
		}
		s += shapeKey(t.shape)
	}
	for _, f := range sortedKeys(t.last) {
		s += "+" + f
	}
	for _, o := range t.pend {
		s += "!" + strconv.Itoa(o.id)
	}
	return s
}

// flush does the actions that are waiting.
func (m *sim) flush(s *sstate, t *gthread) {
	for _, o := range t.pend {
		m.doOp(s, t, o, nil)
	}
	t.pend = nil
}
func (t *gthread) clone() *gthread {
	u := *t
	u.out = map[string]*SV{}
	for k, v := range t.out {
		u.out[k] = v
	}
	u.last = map[string]map[string]*SV{}
	for k, v := range t.last {
		u.last[k] = v
	}
	return &u
}

// ---- states

type sframe struct {
	fn   *ssa.Function
	blk  *ssa.BasicBlock
	prev *ssa.BasicBlock
	idx  int
	vals map[ssa.Value]*SV
	call *ssa.Call // the call that this frame answers
}

type sobj struct {
	typ    types.Type
	f      map[string]*SV
	buf    bool
	text   *SV
	frozen bool
}

type sstate struct {
	m      *sim
	frames []*sframe
	heap   map[int]*sobj
	next   int
	cur    *SV // position of the byte b; nil before the first byte
	b      byte
	eof    bool // the text ends after the current byte
	shapes map[string][][]shapeEl
	facts  map[[2]string]int64 // upper bounds of differences of symbols
	steps  int
}

type simFail struct{ label, msg string }

type point struct {
	key     string
	frames  []tframe
	objs    []*tobj
	threads []*gthread // with kCell values
	dead    bool       // no thread is left
	cells   []string
	kinds   map[string]vkind
	class   map[string]int
	consts  map[int]*SV
	facts   map[[2]string]int64 // between cells ("0" and "LEN" included)
	init    bool
	prefix  string
	n       int
	desc    string
}

type tframe struct {
	fn   *ssa.Function
	blk  *ssa.BasicBlock
	prev *ssa.BasicBlock
	idx  int
	vals map[ssa.Value]*SV
	call *ssa.Call
}
type tobj struct {
	typ  types.Type
	f    map[string]*SV
	buf  bool
	text *SV
}

type sim struct {
	P       *Program
	g       *Grammar
	fn      *ssa.Function
	res     *types.Struct
	resName string
	live    map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool
	liveMu  sync.Mutex
	points  map[string]*point
	order   []*point
	inlined map[string]bool
	externs map[string]bool
	mu      sync.Mutex
	accepts atomic.Int64
}

type simResult struct {
	accepts                              int64
	points, edges, returns, obls, failed int
	fails                                map[string]*simFailure
	inlined, externs                     []string
	candidates                           []string
	err                                  string
}

type simFailure struct {
	label, msg, pos, witness string
	count                    int
}

// unsupported construct inside a run
func (s *sstate) bad(f string, a ...any) {
	panic(simFail{"verifier", fmt.Sprintf(f, a...)})
}
func (s *sstate) panics(f string, a ...any) {
	panic(simFail{"panic", fmt.Sprintf(f, a...)})
}

// ---- liveness of SSA values

func (m *sim) liveOut(fn *ssa.Function) map[*ssa.BasicBlock]map[ssa.Value]bool {
	m.liveMu.Lock()
	defer m.liveMu.Unlock()
	if l := m.live[fn]; l != nil {
		return l
	}
	in := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	out := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range fn.Blocks {
		in[b] = map[ssa.Value]bool{}
		out[b] = map[ssa.Value]bool{}
	}
	for ch := true; ch; {
		ch = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			o := out[b]
			for _, s := range b.Succs {
				for v := range in[s] {
					if !o[v] {
						o[v] = true
						ch = true
					}
				}
				for _, x := range s.Instrs {
					ph, ok := x.(*ssa.Phi)
					if !ok {
						break
					}
					for k, p := range s.Preds {
						if p == b {
							v := ph.Edges[k]
							if tracked(v) && !o[v] {
								o[v] = true
								ch = true
							}
						}
					}
				}
			}
			l := liveBack(b, 0, o)
			for v := range l {
				if !in[b][v] {
					in[b][v] = true
					ch = true
				}
			}
		}
	}
	m.live[fn] = out
	return out
}

func tracked(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
		return false
	}
	return true
}

// liveBack: values live before instruction idx of b
func liveBack(b *ssa.BasicBlock, idx int, out map[ssa.Value]bool) map[ssa.Value]bool {
	l := map[ssa.Value]bool{}
	for v := range out {
		l[v] = true
	}
	for i := len(b.Instrs) - 1; i >= idx; i-- {
		in := b.Instrs[i]
		if v, ok := in.(ssa.Value); ok {
			delete(l, v)
		}
		if _, ok := in.(*ssa.Phi); ok {
			continue
		}
		for _, op := range in.Operands(nil) {
			if *op != nil && tracked(*op) {
				l[*op] = true
			}
		}
	}
	return l
}

// ---- order of positions

func (s *sstate) bound(x, y *SV) (int64, bool) { // upper bound of x - y
	if x.sym == y.sym {
		return x.n - y.n, true
	}
	sx, sy := x.sym, y.sym
	if sx == "" {
		sx = "0"
	}
	if sy == "" {
		sy = "0"
	}
	if d, ok := s.facts[[2]string{sx, sy}]; ok {
		return d + x.n - y.n, true
	}
	return 0, false
}

func (s *sstate) closeFacts() {
	syms := map[string]bool{}
	for k := range s.facts {
		syms[k[0]] = true
		syms[k[1]] = true
	}
	l := sortedKeys(syms)
	for _, k := range l {
		for _, i := range l {
			for _, j := range l {
				a, ok1 := s.facts[[2]string{i, k}]
				b, ok2 := s.facts[[2]string{k, j}]
				if ok1 && ok2 && i != j {
					if d, ok := s.facts[[2]string{i, j}]; !ok || a+b < d {
						s.facts[[2]string{i, j}] = a + b
					}
				}
			}
		}
	}
}

func (s *sstate) cmp(op token.Token, x, y *SV) *SV {
	lt := func(x, y *SV) (bool, bool) { // x < y
		if d, ok := s.bound(x, y); ok && d <= -1 {
			return true, true
		}
		if d, ok := s.bound(y, x); ok && d <= 0 {
			return false, true
		}
		return false, false
	}
	var r, ok bool
	switch op {
	case token.LSS:
		r, ok = lt(x, y)
	case token.GTR:
		r, ok = lt(y, x)
	case token.LEQ:
		r, ok = lt(y, x)
		r = !r
	case token.GEQ:
		r, ok = lt(x, y)
		r = !r
	case token.EQL, token.NEQ:
		if x.key() == y.key() {
			r, ok = true, true
		} else if a, k := lt(x, y); k && a {
			r, ok = false, true
		} else if a, k := lt(y, x); k && a {
			r, ok = false, true
		} else {
			d1, k1 := s.bound(x, y)
			d2, k2 := s.bound(y, x)
			if k1 && k2 && d1 == 0 && d2 == 0 {
				r, ok = true, true
			}
		}
		if op == token.NEQ {
			r = !r
		}
	}
	if !ok {
		return &SV{k: kUnk, sym: fmt.Sprintf("%s %s %s", x.key(), op, y.key())}
	}
	return svBool(r)
}

// ---- texts

func (s *sstate) shapesOf(v *SV) [][]shapeEl {
	if l, ok := v.literal(); ok {
		var sh []shapeEl
		for i := 0; i < len(l); i++ {
			var b byteSet
			b.add(l[i])
			sh = append(sh, shapeEl{set: b})
		}
		return [][]shapeEl{sh}
	}
	return s.shapes[v.key()]
}

func setOf(bs string) (r byteSet) {
	for i := 0; i < len(bs); i++ {
		r.add(bs[i])
	}
	return
}

func asLiteral(sh []shapeEl) (*SV, bool) {
	r := ""
	for _, e := range sh {
		b, ok := e.set.single()
		if !ok || e.plus {
			return nil, false
		}
		r += string([]byte{b})
	}
	return svLit(r), true
}

// apply a text function, on the shapes of the text when it can
func (s *sstate) app(name string, v *SV, f func([]shapeEl) ([]shapeEl, bool)) *SV {
	if v.k != kStr {
		return &SV{k: kUnk, sym: name}
	}
	var shs [][]shapeEl
	for _, sh := range s.shapesOf(v) {
		n, ok := f(sh)
		if !ok {
			continue
		}
		if l, ok := asLiteral(n); ok {
			return l
		}
		if shapeKey(n) == shapeKey(sh) {
			return v // the function changes no text of this shape
		}
		shs = append(shs, n)
	}
	if len(v.segs) == 1 && v.segs[0].op == 'a' && v.segs[0].lit == name {
		return v // idempotent
	}
	r := &SV{k: kStr, segs: []seg{{op: 'a', lit: name, arg: v}}}
	s.shapes[r.key()] = append(s.shapes[r.key()], shs...)
	return r
}

var asciiSpace = setOf("\t\n\v\f\r ")

func highBytes() byteSet { return byteSet{0, 0, ^uint64(0), ^uint64(0)} }

func (s *sstate) trim(v *SV) *SV {
	return s.app("trim", v, func(sh []shapeEl) ([]shapeEl, bool) {
		opaque := asciiSpace.or(highBytes())
		for len(sh) > 0 && sh[0].set.subsetOf(asciiSpace) {
			sh = sh[1:]
		}
		if len(sh) > 0 && !sh[0].set.disjoint(opaque) {
			return nil, false
		}
		for len(sh) > 0 && sh[len(sh)-1].set.subsetOf(asciiSpace) {
			sh = sh[:len(sh)-1]
		}
		if len(sh) > 0 && !sh[len(sh)-1].set.disjoint(opaque) {
			return nil, false
		}
		return sh, true
	})
}

func (s *sstate) mapCase(name string, v *SV, lo, hi byte, d int) *SV {
	return s.app(name, v, func(sh []shapeEl) ([]shapeEl, bool) {
		r := make([]shapeEl, len(sh))
		for i, e := range sh {
			if !e.set.disjoint(highBytes()) {
				return nil, false
			}
			var n byteSet
			for c := 0; c < 128; c++ {
				if e.set.has(byte(c)) {
					if byte(c) >= lo && byte(c) <= hi {
						n.add(byte(c + d))
					} else {
						n.add(byte(c))
					}
				}
			}
			r[i] = shapeEl{set: n, plus: e.plus, node: e.node}
		}
		return r, true
	})
}
func (s *sstate) upper(v *SV) *SV { return s.mapCase("upper", v, 'a', 'z', -32) }
func (s *sstate) lower(v *SV) *SV { return s.mapCase("lower", v, 'A', 'Z', 32) }

// collapse replaces every maximal run of bytes of a class
func (s *sstate) collapse(v *SV, class byteSet, lit string) *SV {
	return s.app("collapse<"+class.hex()+">"+strconv.Quote(lit), v, func(sh []shapeEl) ([]shapeEl, bool) {
		var r []shapeEl
		in := false
		for _, e := range sh {
			switch {
			case e.set.subsetOf(class):
				if !in {
					for i := 0; i < len(lit); i++ {
						r = append(r, shapeEl{set: setOf(lit[i : i+1])})
					}
				}
				in = true
			case e.set.disjoint(class):
				r = append(r, e)
				in = false
			default:
				return nil, false
			}
		}
		return r, true
	})
}

// class+ patterns
func classPlus(pat string) (byteSet, bool) {
	re, err := syntax.Parse(pat, syntax.Perl)
	if err != nil {
		return byteSet{}, false
	}
	re = re.Simplify()
	if re.Op != syntax.OpPlus || re.Flags&syntax.NonGreedy != 0 {
		return byteSet{}, false
	}
	var set byteSet
	switch c := re.Sub[0]; c.Op {
	case syntax.OpCharClass:
		for i := 0; i+1 < len(c.Rune); i += 2 {
			for r := c.Rune[i]; r <= c.Rune[i+1]; r++ {
				if r > 127 {
					return set, false
				}
				set.add(byte(r))
			}
		}
	case syntax.OpLiteral:
		if len(c.Rune) != 1 || c.Rune[0] > 127 || c.Flags&syntax.FoldCase != 0 {
			return set, false
		}
		set.add(byte(c.Rune[0]))
	default:
		return set, false
	}
	return set, true
}

// ---- the grammar's step

func (m *sim) value(s *sstate, v *gVal, t *gthread) *SV {
	switch v.kind {
	case "lit":
		return svLit(v.lit)
	case "true":
		return svBool(true)
	case "false":
		return svBool(false)
	case "cap":
		if t.slot != 2 {
			panic(specErr{m.g.fn + ": the grammar uses a capture that has not ended"})
		}
		return svSub(t.start, t.end)
	case "trim":
		return s.trim(m.value(s, v.arg, t))
	case "upper":
		return s.upper(m.value(s, v.arg, t))
	case "collapse":
		return s.collapse(m.value(s, v.arg, t), m.g.space, " ")
	}
	panic(specErr{"value " + v.kind})
}

func (m *sim) zeroField(f string) *SV {
	for i := 0; i < m.res.NumFields(); i++ {
		if m.res.Field(i).Name() == f {
			return zeroSV(m.res.Field(i).Type())
		}
	}
	panic(specErr{m.g.fn + ": the result has no field " + f})
}

func (m *sim) recType(f string) (*types.Struct, string) {
	for i := 0; i < m.res.NumFields(); i++ {
		if m.res.Field(i).Name() == f {
			if sl, ok := m.res.Field(i).Type().Underlying().(*types.Slice); ok {
				if p, ok := sl.Elem().(*types.Pointer); ok {
					if st, ok := p.Elem().Underlying().(*types.Struct); ok {
						return st, types.TypeString(p.Elem(), nil)
					}
				}
			}
		}
	}
	panic(specErr{m.g.fn + ": " + f + " is no list of records"})
}

func (m *sim) doOp(s *sstate, t *gthread, op *gOp, pos *SV) {
	switch op.kind {
	case "start":
		t.slot, t.start, t.end, t.shape, t.noshape = 1, pos, nil, nil, false
		t.justEnd = false
	case "end":
		t.slot, t.end, t.justEnd = 2, pos, true
	case "set":
		m.zeroField(op.target)
		t.out[op.target] = m.value(s, op.val, t)
	case "append":
		l := t.out[op.target]
		if l == nil {
			l = m.zeroField(op.target)
		}
		if op.fields == nil {
			t.out[op.target] = &SV{k: kList, el: append(append([]*SV{}, wantList(l)...), m.value(s, op.val, t))}
			return
		}
		st, tn := m.recType(op.target)
		if old := t.last[op.target]; old != nil {
			t.out[op.target] = &SV{k: kList, el: append(append([]*SV{}, wantList(l)...), &SV{k: kRec, sym: tn, rec: old})}
		}
		rec := map[string]*SV{}
		for i := 0; i < st.NumFields(); i++ {
			rec[st.Field(i).Name()] = zeroSV(st.Field(i).Type())
		}
		for f, v := range op.fields {
			if rec[f] == nil {
				panic(specErr{"no field " + f})
			}
			rec[f] = m.value(s, v, t)
		}
		t.last[op.target] = rec
	case "last":
		old := t.last[op.target]
		if old == nil || old[op.field] == nil {
			panic(specErr{m.g.fn + ": no last element or field " + op.field})
		}
		rec := map[string]*SV{}
		for f, v := range old {
			rec[f] = v
		}
		rec[op.field] = m.value(s, op.val, t)
		t.last[op.target] = rec
	}
}

// closure follows the machine's silent moves from t, at position pos.
func (m *sim) closure(s *sstate, t *gthread, pos *SV, out *[]*gthread, visiting map[int]bool) {
	if visiting[t.node] {
		return
	}
	visiting[t.node] = true
	defer delete(visiting, t.node)
	n := &m.g.nodes[t.node]
	if n.to >= 0 || n.accept {
		c := t.clone()
		if !n.accept && c.slot == 2 && !c.justEnd && !n.live {
			c.slot, c.start, c.end, c.shape = 0, nil, nil, nil
		}
		*out = append(*out, c)
	}
	for _, e := range n.eps {
		c := t.clone()
		c.node = e.to
		if e.op != nil {
			switch e.op.kind {
			case "start", "end":
				m.flush(s, c)
				m.doOp(s, c, e.op, pos)
			default:
				c.pend = append(c.pend[:len(c.pend):len(c.pend)], e.op)
			}
		}
		m.closure(s, c, pos, out, visiting)
	}
}

func (m *sim) threadKey(t *gthread) string {
	r := t.id()
	for _, f := range sortedKeys(t.out) {
		r += "|" + f + "=" + t.out[f].key()
	}
	for _, f := range sortedKeys(t.last) {
		for _, g := range sortedKeys(t.last[f]) {
			r += "|" + f + "." + g + "=" + t.last[f][g].key()
		}
	}
	if t.slot != 0 {
		r += "|" + t.start.key() + ":" + t.end.key()
	}
	return r
}

func (m *sim) dedupe(ts []*gthread) []*gthread {
	seen := map[string]*gthread{}
	var r []*gthread
	for _, t := range ts {
		if o := seen[t.id()]; o != nil {
			if m.threadKey(o) != m.threadKey(t) {
				panic(specErr{fmt.Sprintf("%s: the grammar is ambiguous: %s and %s", m.g.fn, m.threadKey(o), m.threadKey(t))})
			}
			continue
		}
		seen[t.id()] = t
		r = append(r, t)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].id() < r[j].id() })
	return r
}

func (m *sim) startThreads(s *sstate) []*gthread {
	t := &gthread{node: m.g.start, out: map[string]*SV{}, last: map[string]map[string]*SV{}}
	for i := 0; i < m.res.NumFields(); i++ {
		t.out[m.res.Field(i).Name()] = zeroSV(m.res.Field(i).Type())
	}
	var out []*gthread
	m.closure(s, t, svInt(0), &out, map[int]bool{})
	return m.dedupe(out)
}

// step feeds byte b, at position cur, to the threads.
func (m *sim) step(s *sstate, ts []*gthread, b byte, cur *SV) []*gthread {
	next := svSym(cur.sym, cur.n+1)
	var out []*gthread
	for _, t := range ts {
		n := &m.g.nodes[t.node]
		if n.to < 0 || !n.set.has(b) {
			continue
		}
		c := t.clone()
		m.flush(s, c)
		c.node = n.to
		c.justEnd = false
		if c.slot == 1 && !c.noshape {
			sh := append([]shapeEl{}, c.shape...)
			if k := len(sh); k > 0 && sh[k-1].node == t.node {
				sh[k-1].plus = true
			} else {
				sh = append(sh, shapeEl{set: n.set, node: t.node})
			}
			c.shape = sh
			if len(sh) > 40 {
				c.shape, c.noshape = nil, true
			}
		}
		m.closure(s, c, next, &out, map[int]bool{})
	}
	return m.dedupe(out)
}

type namedSV struct {
	name string
	v    *SV
}

func derived(d *gthread, tn string) (r []namedSV) {
	for _, f := range sortedKeys(d.out) {
		r = append(r, namedSV{tn + "=" + f, normList(d.out[f])})
	}
	for _, f := range sortedKeys(d.last) {
		for _, g := range sortedKeys(d.last[f]) {
			r = append(r, namedSV{tn + "=" + f + ".last." + g, d.last[f][g]})
		}
	}
	return
}

func (s *sstate) learnShapes(ts []*gthread, next *SV) {
	for _, t := range ts {
		if t.slot == 0 || t.noshape {
			continue
		}
		e := t.end
		if t.slot == 1 {
			e = next
		}
		v := svSub(t.start, e)
		if _, lit := v.literal(); lit {
			continue
		}
		s.shapes[v.key()] = append(s.shapes[v.key()], t.shape)
	}
}

// ---- execution

func zeroSV(t types.Type) *SV {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return svLit("")
		case u.Info()&types.IsBoolean != 0:
			return svBool(false)
		case u.Info()&types.IsInteger != 0:
			return svInt(0)
		}
	case *types.Slice:
		return &SV{k: kList}
	case *types.Pointer, *types.Interface, *types.Map, *types.Signature, *types.Chan:
		return &SV{k: kNil}
	}
	return &SV{k: kUnk, sym: "zero of " + t.String()}
}

func isBuf(t types.Type) bool {
	s := types.TypeString(t, nil)
	return s == "bytes.Buffer" || s == "strings.Builder"
}

func (s *sstate) alloc(t types.Type) *SV {
	s.next++
	o := &sobj{typ: t, f: map[string]*SV{}}
	if isBuf(t) {
		o.buf = true
		o.text = svLit("")
	}
	s.heap[s.next] = o
	return &SV{k: kAddr, obj: s.next}
}

func (s *sstate) load(a *SV, t types.Type) *SV {
	if a.k == kNil {
		s.panics("nil dereference")
	}
	if a.k != kAddr {
		s.bad("load through %s", a.key())
	}
	o := s.heap[a.obj]
	if v := o.f[a.path]; v != nil {
		return v
	}
	if _, ok := t.Underlying().(*types.Struct); ok {
		s.bad("load of a whole struct")
	}
	return zeroSV(t)
}

func (s *sstate) store(a, v *SV) {
	if a.k == kNil {
		s.panics("nil dereference")
	}
	if a.k != kAddr {
		s.bad("store through %s", a.key())
	}
	o := s.heap[a.obj]
	if o.frozen {
		s.bad("store into an array that is shared")
	}
	o.f[a.path] = v
}

func (s *sstate) get(f *sframe, v ssa.Value) *SV {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return zeroSV(v.Type())
		}
		switch v.Value.Kind() {
		case constant.Bool:
			return svBool(constant.BoolVal(v.Value))
		case constant.String:
			return svLit(constant.StringVal(v.Value))
		case constant.Int:
			n, _ := constant.Int64Val(v.Value)
			return svInt(n)
		}
		s.bad("constant %s", v)
	case *ssa.Function:
		return &SV{k: kFunc, fn: v}
	case *ssa.Global:
		return &SV{k: kUnk, sym: "global " + v.String()}
	}
	r := f.vals[v]
	if r == nil {
		s.bad("value %s is not available", v.Name())
	}
	return r
}

func (s *sstate) addInt(x, y *SV, sign int64) *SV {
	if x.k != kInt || y.k != kInt {
		return &SV{k: kUnk, sym: "arithmetic"}
	}
	if y.sym == "" {
		return svSym(x.sym, x.n+sign*y.n)
	}
	if sign > 0 && x.sym == "" {
		return svSym(y.sym, x.n+y.n)
	}
	if sign < 0 && x.sym == y.sym {
		return svInt(x.n - y.n)
	}
	return &SV{k: kUnk, sym: "sum"}
}

type outcome struct {
	cut bool
	ret []*SV
}

// nextPos is the position of the next unread byte.
func (s *sstate) nextPos() *SV {
	if s.cur == nil {
		return svInt(0)
	}
	return svSym(s.cur.sym, s.cur.n+1)
}

func (s *sstate) lenV() *SV {
	if s.eof {
		return s.nextPos()
	}
	return svSym("LEN", 0)
}

// index reads a byte of a string; cut reports a new byte of the text.
func (s *sstate) index(str, i *SV) (v *SV, cut bool) {
	if str.k != kStr || i.k != kInt {
		s.bad("index of %s by %s", str.key(), i.key())
	}
	if l, ok := str.literal(); ok && i.sym == "" {
		if i.n < 0 || i.n >= int64(len(l)) {
			s.panics("index %d of a string of length %d", i.n, len(l))
		}
		return svInt(int64(l[i.n])), false
	}
	if len(str.segs) != 1 || str.segs[0].op != 'd' {
		s.bad("index of a computed string")
	}
	sg := str.segs[0]
	p := s.addInt(sg.a, i, 1)
	// bounds: 0 <= i and a+i < b
	if c := s.cmp(token.GEQ, i, svInt(0)); c.k != kBool {
		s.bad("index %s may be negative", i.key())
	} else if c.n == 0 {
		s.panics("index %s is negative", i.key())
	}
	if c := s.cmp(token.LSS, p, sg.b); c.k != kBool {
		s.bad("index %s may be out of range %s", p.key(), sg.b.key())
	} else if c.n == 0 {
		s.panics("index %s out of range: the text ends at %s", p.key(), sg.b.key())
	}
	if s.cur != nil && p.key() == s.cur.key() {
		v := svInt(int64(s.b))
		v.prov = p
		return v, false
	}
	if p.key() == s.nextPos().key() {
		return nil, true
	}
	return &SV{k: kUnk, sym: "byte at " + p.key()}, false
}

// run executes until the next cut or the return of the whole function.
func (s *sstate) run() outcome {
	for {
		if s.steps++; s.steps > 20000 {
			panic(simFail{"progress", "no byte is read in 20000 instructions"})
		}
		f := s.frames[len(s.frames)-1]
		in := f.blk.Instrs[f.idx]
		switch in := in.(type) {
		case *ssa.DebugRef:
		case *ssa.Phi:
			// all phis of the block at once
			k := -1
			for i, p := range f.blk.Preds {
				if p == f.prev {
					k = i
				}
			}
			nv := map[ssa.Value]*SV{}
			for _, x := range f.blk.Instrs {
				ph, ok := x.(*ssa.Phi)
				if !ok {
					break
				}
				e := ph.Edges[k]
				if tracked(e) && f.vals[e] == nil {
					nv[ph] = &SV{k: kUnk, sym: "undefined"}
				} else {
					nv[ph] = s.get(f, e)
				}
			}
			for p, v := range nv {
				f.vals[p] = v
			}
			for f.idx < len(f.blk.Instrs) {
				if _, ok := f.blk.Instrs[f.idx].(*ssa.Phi); !ok {
					break
				}
				f.idx++
			}
			continue
		case *ssa.Jump:
			f.prev, f.blk, f.idx = f.blk, f.blk.Succs[0], 0
			continue
		case *ssa.If:
			c := s.get(f, in.Cond)
			if c.k != kBool || c.sym != "" {
				s.bad("undecided condition %s at %s", c.key(), s.m.pos(in))
			}
			f.prev = f.blk
			if c.n != 0 {
				f.blk = f.blk.Succs[0]
			} else {
				f.blk = f.blk.Succs[1]
			}
			f.idx = 0
			continue
		case *ssa.Return:
			var r []*SV
			for _, x := range in.Results {
				r = append(r, s.get(f, x))
			}
			s.frames = s.frames[:len(s.frames)-1]
			if len(s.frames) == 0 {
				return outcome{ret: r}
			}
			c := s.frames[len(s.frames)-1]
			var v *SV
			if len(r) == 1 {
				v = r[0]
			} else {
				v = &SV{k: kTuple, el: r}
			}
			c.vals[f.call] = v
			c.idx++
			continue
		case *ssa.Call:
			if s.call(f, in) {
				continue // a frame was pushed
			}
		case *ssa.Lookup:
			x := s.get(f, in.X)
			if x.k != kStr {
				s.bad("lookup in %s", x.key())
			}
			v, cut := s.index(x, s.get(f, in.Index))
			if cut {
				return outcome{cut: true}
			}
			f.vals[in] = v
		case *ssa.Index:
			v, cut := s.index(s.get(f, in.X), s.get(f, in.Index))
			if cut {
				return outcome{cut: true}
			}
			f.vals[in] = v
		case *ssa.Panic:
			s.panics("panic statement")
		case *ssa.Store:
			s.store(s.get(f, in.Addr), s.get(f, in.Val))
		case *ssa.RunDefers:
		case ssa.Value:
			f.vals[in] = s.eval(f, in)
		default:
			s.bad("instruction %s", in)
		}
		f.idx++
	}
}

func (s *sstate) eval(f *sframe, in ssa.Value) *SV {
	switch in := in.(type) {
	case *ssa.Alloc:
		return s.alloc(in.Type().(*types.Pointer).Elem())
	case *ssa.FieldAddr:
		a := s.get(f, in.X)
		if a.k == kNil {
			s.panics("nil dereference")
		}
		if a.k != kAddr {
			s.bad("field of %s", a.key())
		}
		return &SV{k: kAddr, obj: a.obj, path: a.path + "." + strconv.Itoa(in.Field)}
	case *ssa.IndexAddr:
		x, i := s.get(f, in.X), s.get(f, in.Index)
		if x.k == kAddr && i.k == kInt && i.sym == "" { // array
			return &SV{k: kAddr, obj: x.obj, path: x.path + "[" + strconv.FormatInt(i.n, 10) + "]"}
		}
		if x.k == kList && i.k == kInt {
			// count explicit elements from the end
			n := s.listLen(x)
			d := s.addInt(n, i, -1) // distance from the end
			if d.k == kInt && d.sym == "" {
				if d.n <= 0 {
					s.panics("index out of range of a list")
				}
				if d.n <= int64(len(x.el)) && x.el[int64(len(x.el))-d.n].k != kUnk && !isSplice(x.el[int64(len(x.el))-d.n]) {
					o := s.alloc(in.Type().(*types.Pointer).Elem())
					s.heap[o.obj].f[""] = x.el[int64(len(x.el))-d.n]
					s.heap[o.obj].frozen = true
					return o
				}
				if i.sym == "" && i.n < 0 {
					s.panics("negative index of a list")
				}
			}
		}
		s.bad("element %s of %s", i.key(), x.key())
	case *ssa.UnOp:
		switch in.Op {
		case token.MUL:
			if g, ok := in.X.(*ssa.Global); ok {
				return s.global(g)
			}
			return s.load(s.get(f, in.X), in.Type())
		case token.NOT:
			x := s.get(f, in.X)
			if x.k == kBool && x.sym == "" {
				return svBool(x.n == 0)
			}
			return &SV{k: kUnk, sym: "not"}
		case token.SUB:
			x := s.get(f, in.X)
			if x.k == kInt && x.sym == "" {
				return svInt(-x.n)
			}
		}
		return &SV{k: kUnk, sym: in.String()}
	case *ssa.BinOp:
		x, y := s.get(f, in.X), s.get(f, in.Y)
		switch in.Op {
		case token.ADD:
			if x.k == kStr {
				return svCat(x, y)
			}
			return s.addInt(x, y, 1)
		case token.SUB:
			return s.addInt(x, y, -1)
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			if x.k == kInt && y.k == kInt {
				return s.cmp(in.Op, x, y)
			}
			if in.Op == token.EQL || in.Op == token.NEQ {
				r, ok := s.equal(x, y)
				if ok {
					return svBool(r == (in.Op == token.EQL))
				}
			}
			return &SV{k: kUnk, sym: "comparison of " + x.key() + " and " + y.key()}
		case token.OR, token.AND, token.XOR, token.SHL, token.SHR, token.MUL, token.AND_NOT, token.QUO, token.REM:
			if x.k == kInt && y.k == kInt && x.sym == "" && y.sym == "" {
				xv, yv := constant.MakeInt64(x.n), constant.MakeInt64(y.n)
				if in.Op == token.SHL || in.Op == token.SHR {
					if y.n >= 0 && y.n < 64 {
						r, _ := constant.Int64Val(constant.Shift(xv, in.Op, uint(y.n)))
						return wrap(r, in.Type())
					}
				} else if !((in.Op == token.QUO || in.Op == token.REM) && y.n == 0) {
					op := in.Op
					if op == token.QUO {
						op = token.QUO_ASSIGN
					}
					r, _ := constant.Int64Val(constant.BinaryOp(xv, op, yv))
					return wrap(r, in.Type())
				}
			}
		}
		return &SV{k: kUnk, sym: in.String()}
	case *ssa.ChangeType:
		return s.get(f, in.X)
	case *ssa.Convert:
		x := s.get(f, in.X)
		if x.k == kInt {
			if b, ok := in.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				if x.sym != "" {
					return x
				}
				r := wrap(x.n, in.Type())
				if r.n == x.n {
					return x
				}
				return r
			}
			if b, ok := in.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 && x.sym == "" && x.n < 128 {
				if x.prov != nil {
					return svSub(x.prov, svSym(x.prov.sym, x.prov.n+1))
				}
				return svLit(string(rune(x.n)))
			}
		}
		return &SV{k: kUnk, sym: in.String()}
	case *ssa.MakeInterface:
		return &SV{k: kIface, sym: types.TypeString(in.X.Type(), nil), el: []*SV{s.get(f, in.X)}}
	case *ssa.ChangeInterface:
		return s.get(f, in.X)
	case *ssa.Extract:
		t := s.get(f, in.Tuple)
		if t.k != kTuple {
			s.bad("extract")
		}
		return t.el[in.Index]
	case *ssa.Slice:
		x := s.get(f, in.X)
		if x.k == kAddr && in.Low == nil && in.High == nil { // a whole array
			o := s.heap[x.obj]
			at, ok := o.typ.Underlying().(*types.Array)
			if !ok {
				s.bad("slice of %s", o.typ)
			}
			o.frozen = true
			l := &SV{k: kList}
			for i := int64(0); i < at.Len(); i++ {
				e := o.f["["+strconv.FormatInt(i, 10)+"]"]
				if e == nil {
					e = zeroSV(at.Elem())
				}
				l.el = append(l.el, e)
			}
			return l
		}
		if x.k == kStr {
			lo := svInt(0)
			if in.Low != nil {
				lo = s.get(f, in.Low)
			}
			if len(x.segs) == 1 && x.segs[0].op == 'd' {
				sg := x.segs[0]
				a := s.addInt(sg.a, lo, 1)
				b := sg.b
				if in.High != nil {
					b = s.addInt(sg.a, s.get(f, in.High), 1)
				}
				if a.k != kInt || b.k != kInt {
					s.bad("slice bounds")
				}
				for _, c := range [][2]*SV{{sg.a, a}, {a, b}, {b, sg.b}} {
					r := s.cmp(token.LEQ, c[0], c[1])
					if r.k != kBool {
						s.bad("slice bounds: %s <= %s is not established", c[0].key(), c[1].key())
					}
					if r.n == 0 {
						s.panics("slice bounds out of range: %s <= %s fails", c[0].key(), c[1].key())
					}
				}
				return svSub(a, b)
			}
			if l, ok := x.literal(); ok {
				hi := svInt(int64(len(l)))
				if in.High != nil {
					hi = s.get(f, in.High)
				}
				if lo.sym == "" && hi.sym == "" && lo.k == kInt && hi.k == kInt {
					if lo.n < 0 || lo.n > hi.n || hi.n > int64(len(l)) {
						s.panics("slice bounds out of range")
					}
					return svLit(l[lo.n:hi.n])
				}
			}
		}
		if x.k == kList && in.Low == nil && in.High == nil {
			return x
		}
		if x.k == kList && in.Low == nil && in.High != nil {
			if h := s.get(f, in.High); h.k == kInt && h.sym == "" && h.n == 0 {
				return &SV{k: kList}
			}
		}
		s.bad("slice of %s", x.key())
	}
	s.bad("instruction %s", in)
	return nil
}

func wrap(n int64, t types.Type) *SV {
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch b.Kind() {
		case types.Uint8:
			n = int64(uint8(n))
		case types.Int8:
			n = int64(int8(n))
		case types.Uint16:
			n = int64(uint16(n))
		case types.Int32:
			n = int64(int32(n))
		case types.Uint32:
			n = int64(uint32(n))
		}
	}
	return svInt(n)
}

func isSplice(v *SV) bool { return v.k == kList }

func (s *sstate) listLen(x *SV) *SV {
	n := svInt(0)
	for _, e := range x.el {
		if isSplice(e) {
			n = &SV{k: kUnk, sym: "len"}
			if len(e.el) == 0 && e.sym != "" {
				n = svSym("len:"+e.sym, 0)
			}
			if x.el[0] != e {
				return &SV{k: kUnk, sym: "len"}
			}
			continue
		}
		n = s.addInt(n, svInt(1), 1)
	}
	if x.sym != "" && len(x.el) == 0 {
		return svSym("len:"+x.sym, 0)
	}
	return n
}

func (s *sstate) equal(x, y *SV) (bool, bool) {
	if x.key() == y.key() && x.k != kUnk {
		return true, true
	}
	if x.k == kBool && y.k == kBool && x.sym == "" && y.sym == "" {
		return x.n == y.n, true
	}
	a, ok1 := x.literal()
	b, ok2 := y.literal()
	if ok1 && ok2 {
		return a == b, true
	}
	if x.k == kNil && (y.k == kAddr || y.k == kIface) || y.k == kNil && (x.k == kAddr || x.k == kIface) {
		return false, true
	}
	if x.k == kStr && y.k == kStr {
		if ok1 {
			x, y, a = y, x, a
		} else if ok2 {
			a = b
		} else {
			return false, false
		}
		// y is the literal a
		if a == "" && len(x.segs) > 0 {
			for _, sg := range x.segs {
				if sg.op == 'l' {
					return false, true
				}
				if sg.op == 'd' {
					if d, ok := s.bound(sg.a, sg.b); ok && d <= -1 {
						return false, true
					}
				}
			}
		}
		for _, sh := range s.shapesOf(x) {
			if !shapeCanBe(sh, a) {
				return false, true
			}
		}
	}
	return false, false
}

func shapeCanBe(sh []shapeEl, a string) bool {
	if len(sh) == 0 {
		return a == ""
	}
	if len(a) == 0 || !sh[0].set.has(a[0]) {
		return false
	}
	if sh[0].plus && shapeCanBe(sh, a[1:]) {
		return true
	}
	return shapeCanBe(sh[1:], a[1:])
}

func (s *sstate) global(g *ssa.Global) *SV {
	if init := s.m.P.globalInit[g]; init != nil && !s.m.P.storedGlobals[g] {
		switch v := init.(type) {
		case *ssa.Call:
			if c := v.Call.StaticCallee(); c != nil && c.String() == "regexp.MustCompile" {
				if k, ok := v.Call.Args[0].(*ssa.Const); ok {
					return &SV{k: kRegexp, sym: constant.StringVal(k.Value)}
				}
			}
		case *ssa.Const:
			return s.get(nil, v)
		}
	}
	return &SV{k: kUnk, sym: "global " + g.String()}
}

func (s *sstate) buf(a *SV) *sobj {
	if a.k == kNil {
		s.panics("nil buffer")
	}
	if a.k != kAddr || s.heap[a.obj] == nil || !s.heap[a.obj].buf || a.path != "" {
		s.bad("buffer %s", a.key())
	}
	return s.heap[a.obj]
}

func (s *sstate) used(n string) {
	s.m.mu.Lock()
	s.m.externs[n] = true
	s.m.mu.Unlock()
}

// call executes a call; true if a frame was pushed.
func (s *sstate) call(f *sframe, in *ssa.Call) bool {
	c := in.Common()
	var args []*SV
	for _, a := range c.Args {
		args = append(args, s.get(f, a))
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "len":
			x := args[0]
			switch x.k {
			case kStr:
				if l, ok := x.literal(); ok {
					f.vals[in] = svInt(int64(len(l)))
					return false
				}
				if len(x.segs) == 1 && x.segs[0].op == 'd' {
					f.vals[in] = s.addInt(x.segs[0].b, x.segs[0].a, -1)
					return false
				}
			case kList:
				f.vals[in] = s.listLen(x)
				return false
			}
			f.vals[in] = &SV{k: kUnk, sym: "len"}
			return false
		case "append":
			x, y := args[0], args[1]
			if x.k == kNil {
				x = &SV{k: kList}
			}
			if x.k != kList || y.k != kList {
				s.bad("append to %s of %s", x.key(), y.key())
			}
			r := &SV{k: kList}
			if x.sym != "" {
				r.el = append(r.el, x)
			} else {
				r.el = append(r.el, x.el...)
			}
			if y.sym != "" {
				s.bad("append of a whole list")
			}
			r.el = append(r.el, y.el...)
			if len(y.el) == 0 {
				r = x
			}
			f.vals[in] = r
			return false
		}
		s.bad("builtin %s", b.Name())
	}
	callee := c.StaticCallee()
	if callee == nil {
		s.bad("dynamic call %s", in)
	}
	name := callee.String()
	set := func(v *SV) bool { f.vals[in] = v; return false }
	tup := func(v ...*SV) bool { f.vals[in] = &SV{k: kTuple, el: v}; return false }
	byteStr := func(v *SV) *SV {
		if v.k != kInt || v.sym != "" {
			s.bad("byte %s", v.key())
		}
		if v.prov != nil {
			return svSub(v.prov, svSym(v.prov.sym, v.prov.n+1))
		}
		return svLit(string([]byte{byte(v.n)}))
	}
	switch name {
	case "(*bytes.Buffer).WriteByte", "(*strings.Builder).WriteByte":
		s.used(name)
		o := s.buf(args[0])
		o.text = svCat(o.text, byteStr(args[1]))
		return set(&SV{k: kNil})
	case "(*bytes.Buffer).WriteString", "(*strings.Builder).WriteString":
		s.used(name)
		o := s.buf(args[0])
		o.text = svCat(o.text, args[1])
		return tup(&SV{k: kUnk, sym: "n"}, &SV{k: kNil})
	case "(*bytes.Buffer).WriteRune", "(*strings.Builder).WriteRune":
		if args[1].k == kInt && args[1].sym == "" && args[1].n < 128 {
			s.used(name)
			o := s.buf(args[0])
			o.text = svCat(o.text, byteStr(args[1]))
			return tup(svInt(1), &SV{k: kNil})
		}
	case "(*bytes.Buffer).String", "(*strings.Builder).String":
		s.used(name)
		return set(s.buf(args[0]).text)
	case "(*bytes.Buffer).Reset", "(*strings.Builder).Reset":
		s.used(name)
		s.buf(args[0]).text = svLit("")
		return set(nil)
	case "(*bytes.Buffer).Truncate":
		if args[1].k == kInt && args[1].key() == "0" {
			s.used(name)
			s.buf(args[0]).text = svLit("")
			return set(nil)
		}
	case "strings.TrimSpace":
		s.used(name)
		return set(s.trim(args[0]))
	case "strings.ToUpper":
		s.used(name)
		return set(s.upper(args[0]))
	case "strings.ToLower":
		s.used(name)
		return set(s.lower(args[0]))
	case "(*regexp.Regexp).ReplaceAllString", "(*regexp.Regexp).ReplaceAllLiteralString":
		if args[0].k == kRegexp {
			if l, ok := args[2].literal(); ok && !strings.Contains(l, "$") {
				s.used(name)
				if set1, ok := classPlus(args[0].sym); ok {
					return set(s.collapse(args[1], set1, l))
				}
				return set(&SV{k: kStr, segs: []seg{{op: 'a', lit: "re:" + args[0].sym + ":" + l, arg: args[1]}}})
			}
		}
	}
	if callee.Pkg == nil || !s.m.P.repo[callee.Pkg.Pkg] || callee.Blocks == nil {
		s.bad("call of %s", name)
	}
	if len(s.frames) > 20 {
		s.bad("call depth")
	}
	s.m.mu.Lock()
	s.m.inlined[funcKey(callee)] = true
	s.m.mu.Unlock()
	nf := &sframe{fn: callee, blk: callee.Blocks[0], vals: map[ssa.Value]*SV{}, call: in}
	for i, p := range callee.Params {
		nf.vals[p] = args[i]
	}
	s.frames = append(s.frames, nf)
	return true
}

func (m *sim) pos(in ssa.Instruction) string {
	p := m.P.prog.Fset.Position(in.Pos())
	i := strings.Index(p.Filename, "/internal/")
	if i >= 0 {
		p.Filename = p.Filename[i+1:]
	}
	return fmt.Sprintf("%s:%d", p.Filename, p.Line)
}

// ---- points

type canon struct {
	s     *sstate
	cells map[string]*SV
	names []string
	kinds map[string]vkind
	sig   strings.Builder
	objs  []*tobj
	num   map[int]int
	queue []int
}

func (c *canon) cell(name string, v *SV) *SV {
	c.cells[name] = v
	c.names = append(c.names, name)
	c.kinds[name] = v.k
	return &SV{k: kCell, sym: name, cell: v.k}
}

func (c *canon) val(name string, v *SV) *SV {
	if v == nil {
		return nil
	}
	switch v.k {
	case kInt, kBool, kStr, kRec:
		fmt.Fprintf(&c.sig, "%d", v.k)
		return c.cell(name, v)
	case kUnk:
		fmt.Fprintf(&c.sig, "?")
		return &SV{k: kUnk, sym: "havoc"}
	case kAddr:
		n, ok := c.num[v.obj]
		if !ok {
			n = len(c.num)
			c.num[v.obj] = n
			c.queue = append(c.queue, v.obj)
		}
		fmt.Fprintf(&c.sig, "&%d%s", n, v.path)
		return &SV{k: kAddr, obj: n, path: v.path}
	case kList:
		if k := len(v.el); k > 0 && v.el[k-1].k == kAddr {
			c.sig.WriteString("[..")
			pre := &SV{k: kList, el: c.s.flatten(v.el[:k-1])}
			a := c.cell(name+".init", pre)
			l := c.val(name+".last", v.el[k-1])
			return &SV{k: kList, el: []*SV{a, l}}
		}
		c.sig.WriteString("[]")
		return c.cell(name, &SV{k: kList, sym: v.sym, el: c.s.flatten(v.el)})
	case kIface:
		c.sig.WriteString("i" + v.sym)
		return &SV{k: kIface, sym: v.sym, el: []*SV{c.val(name+".i", v.el[0])}}
	case kTuple:
		r := &SV{k: kTuple}
		c.sig.WriteString("(")
		for i, e := range v.el {
			r.el = append(r.el, c.val(fmt.Sprintf("%s.%d", name, i), e))
		}
		return r
	}
	c.sig.WriteString(v.key())
	return v
}

// flatten turns pointers to records into records.
func (s *sstate) flatten(el []*SV) []*SV {
	var r []*SV
	for _, e := range el {
		if e.k == kAddr && e.path == "" && s.heap[e.obj] != nil {
			r = append(r, s.record(e))
			continue
		}
		if e.k == kList && e.sym == "" {
			r = append(r, s.flatten(e.el)...)
			continue
		}
		r = append(r, e)
	}
	return r
}

func (s *sstate) record(a *SV) *SV {
	o := s.heap[a.obj]
	st, ok := o.typ.Underlying().(*types.Struct)
	if !ok {
		return &SV{k: kUnk, sym: "record"}
	}
	r := &SV{k: kRec, sym: types.TypeString(o.typ, nil), rec: map[string]*SV{}}
	for i := 0; i < st.NumFields(); i++ {
		v := o.f["."+strconv.Itoa(i)]
		if v == nil {
			v = zeroSV(st.Field(i).Type())
		}
		r.rec[st.Field(i).Name()] = v
	}
	return r
}

// normList: one form for lists, so that equal lists have equal keys
func normList(v *SV) *SV {
	if v.k != kList {
		return v
	}
	if v.sym != "" {
		return v
	}
	var el []*SV
	for _, e := range v.el {
		if e.k == kList && e.sym == "" {
			el = append(el, normList(e).el...)
		} else {
			el = append(el, e)
		}
	}
	if len(el) == 1 && el[0].k == kList {
		return el[0]
	}
	return &SV{k: kList, el: el}
}

// arrive records that the state reaches a cut with the given threads.
func (m *sim) arrive(s *sstate, ts []*gthread, P *SV) (*point, map[string]*SV) {
	c := &canon{s: s, cells: map[string]*SV{}, kinds: map[string]vkind{}, num: map[int]int{}}
	pt := &point{}
	for i, f := range s.frames {
		var lv map[ssa.Value]bool
		if i == len(s.frames)-1 {
			lv = liveBack(f.blk, f.idx, m.liveOut(f.fn)[f.blk])
		} else {
			lv = liveBack(f.blk, f.idx+1, m.liveOut(f.fn)[f.blk])
			delete(lv, f.blk.Instrs[f.idx].(ssa.Value))
		}
		var names []ssa.Value
		for v := range lv {
			names = append(names, v)
		}
		sort.Slice(names, func(a, b int) bool { return names[a].Name() < names[b].Name() })
		tf := tframe{fn: f.fn, blk: f.blk, idx: f.idx, vals: map[ssa.Value]*SV{}, call: f.call}
		fmt.Fprintf(&c.sig, "|%s:%d:%d:", f.fn.Name(), f.blk.Index, f.idx)
		for _, v := range names {
			if x := f.vals[v]; x != nil {
				tf.vals[v] = c.val(fmt.Sprintf("%d.%s", i, v.Name()), x)
			}
		}
		pt.frames = append(pt.frames, tf)
	}
	for len(c.queue) > 0 {
		id := c.queue[0]
		c.queue = c.queue[1:]
		o := s.heap[id]
		n := c.num[id]
		t := &tobj{typ: o.typ, f: map[string]*SV{}, buf: o.buf}
		for len(c.objs) <= n {
			c.objs = append(c.objs, nil)
		}
		c.objs[n] = t
		if o.buf {
			t.text = c.val(fmt.Sprintf("#%d.text", n), o.text)
			continue
		}
		// every field of a struct, the stored cells of anything else
		if st, ok := o.typ.Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				p := "." + strconv.Itoa(i)
				if o.f[p] == nil {
					if _, ok := st.Field(i).Type().Underlying().(*types.Struct); !ok {
						o.f[p] = zeroSV(st.Field(i).Type())
					}
				}
			}
		}
		for _, p := range sortedKeys(o.f) {
			c.sig.WriteString(p)
			t.f[p] = c.val(fmt.Sprintf("#%d%s", n, p), o.f[p])
		}
	}
	pt.objs = c.objs
	// threads
	c.sig.WriteString("||")
	pt.dead = len(ts) == 0
	for i, t := range ts {
		c.sig.WriteString(t.id() + ";")
		u := t.clone()
		tn := fmt.Sprintf("t%d.", i)
		for _, f := range sortedKeys(t.out) {
			u.out[f] = c.cell(tn+f, t.out[f])
		}
		for _, f := range sortedKeys(t.last) {
			rec := map[string]*SV{}
			for _, g := range sortedKeys(t.last[f]) {
				rec[g] = c.cell(tn+f+".last."+g, t.last[f][g])
			}
			u.last[f] = rec
		}
		if t.slot != 0 {
			u.start = c.cell(tn+"start", t.start)
			e := P
			if t.slot == 2 {
				u.end = c.cell(tn+"end", t.end)
				e = t.end
			}
			v := svSub(t.start, e)
			c.cell(tn+"=it", v)
			c.cell(tn+"=trim", s.trim(v))
		}
		// the registers once the waiting actions are done
		if len(t.pend) > 0 {
			d := t.clone()
			m.flush(s, d)
			for _, x := range derived(d, tn) {
				c.cell(x.name, x.v)
			}
		}
		pt.threads = append(pt.threads, u)
	}
	c.cell("P", P)
	if pt.dead {
		d := s.cur
		if d == nil {
			d = svInt(-1)
		}
		c.cell("dead", d)
	}
	pt.key = c.sig.String()
	pt.cells = c.names
	pt.kinds = c.kinds
	for k, v := range c.cells {
		c.cells[k] = normList(v)
	}
	return pt, c.cells
}

// join weakens the invariant of the point by one more way to reach it.
func (m *sim) join(pt *point, s *sstate, vals map[string]*SV) bool {
	if !pt.init {
		pt.init = true
		pt.class = map[string]int{}
		pt.consts = map[int]*SV{}
		byKey := map[string]int{}
		for _, c := range pt.cells {
			k := kindKey(vals[c])
			id, ok := byKey[k]
			if !ok {
				id = len(byKey)
				byKey[k] = id
				if vals[c].isConst() {
					pt.consts[id] = vals[c]
				}
			}
			pt.class[c] = id
		}
		pt.facts = map[[2]string]int64{}
		for k, d := range m.cellFacts(pt, s, vals) {
			pt.facts[k] = d
		}
		return true
	}
	changed := false
	type gk struct {
		old int
		key string
	}
	ids := map[gk]int{}
	class := map[string]int{}
	consts := map[int]*SV{}
	for _, c := range pt.cells {
		v := vals[c]
		if v == nil {
			panic(simFail{"verifier", "cell " + c + " is missing"})
		}
		k := gk{pt.class[c], kindKey(v)}
		id, ok := ids[k]
		if !ok {
			id = len(ids)
			ids[k] = id
			if o := pt.consts[k.old]; o != nil {
				if o.key() == v.key() && v.isConst() {
					consts[id] = o
				} else {
					changed = true
				}
			}
		}
		class[c] = id
	}
	n := map[int]bool{}
	for _, i := range pt.class {
		n[i] = true
	}
	if len(n) != len(ids) {
		changed = true
	}
	fs := m.cellFacts(pt, s, vals)
	for k, d := range pt.facts {
		nd, ok := fs[k]
		if !ok {
			delete(pt.facts, k)
			changed = true
		} else if nd > d {
			pt.facts[k] = nd
			changed = true
		}
	}
	pt.class, pt.consts = class, consts
	return changed
}

func kindKey(v *SV) string {
	k := v.k
	if k == kBool {
		return "b" + v.key()
	}
	return fmt.Sprintf("%d%s", k, v.key())
}

// holds: the valuation satisfies the invariant of the point
func (m *sim) holds(pt *point, s *sstate, vals map[string]*SV) (string, bool) {
	rep := map[int]string{}
	for _, c := range pt.cells {
		v := vals[c]
		id := pt.class[c]
		if o := pt.consts[id]; o != nil && o.key() != v.key() {
			return fmt.Sprintf("%s is %s, not %s", c, v.key(), o.key()), false
		}
		k := kindKey(v)
		if r, ok := rep[id]; ok && r != k {
			return fmt.Sprintf("%s is %s, not %s", c, k, r), false
		}
		rep[id] = k
	}
	fs := m.cellFacts(pt, s, vals)
	for k, d := range pt.facts {
		if nd, ok := fs[k]; !ok || nd > d {
			return fmt.Sprintf("order of %s and %s", k[0], k[1]), false
		}
	}
	return "", true
}

// cellFacts: x - y <= d for the int cells and 0, with d in {-1, 0}
func (m *sim) cellFacts(pt *point, s *sstate, vals map[string]*SV) map[[2]string]int64 {
	r := map[[2]string]int64{}
	var l []string
	for _, c := range pt.cells {
		if pt.kinds[c] == kInt && vals[c].k == kInt {
			l = append(l, c)
		}
	}
	l = append(l, "0")
	get := func(c string) *SV {
		if c == "0" {
			return svInt(0)
		}
		return vals[c]
	}
	for _, a := range l {
		for _, b := range l {
			if a == b {
				continue
			}
			if d, ok := s.bound(get(a), get(b)); ok && d <= 0 {
				if d < -1 {
					d = -1
				}
				r[[2]string{a, b}] = d
			}
		}
	}
	return r
}

// instantiate makes a state that satisfies nothing but the point's invariant.
func (m *sim) instantiate(pt *point, b byte, eof bool) (*sstate, []*gthread) {
	s := &sstate{m: m, heap: map[int]*sobj{}, b: b, eof: eof, shapes: map[string][][]shapeEl{}, facts: map[[2]string]int64{}}
	byClass := map[int]*SV{}
	// positions first
	var val func(c string) *SV
	cache := map[string]*SV{}
	lenv := func(v *SV) *SV { return v }
	val = func(c string) *SV {
		if v := cache[c]; v != nil {
			return v
		}
		id := pt.class[c]
		if v := byClass[id]; v != nil {
			cache[c] = v
			return v
		}
		var v *SV
		sym := fmt.Sprintf("c%d", id)
		if k := pt.consts[id]; k != nil {
			v = lenv(k)
		} else {
			switch pt.kinds[c] {
			case kInt:
				v = svSym(sym, 0)
			case kBool:
				v = &SV{k: kBool, sym: sym}
			case kStr:
				v = &SV{k: kStr, segs: []seg{{op: 's', lit: sym}}}
			case kList:
				v = &SV{k: kList, sym: sym}
			default:
				v = &SV{k: kUnk, sym: sym}
			}
		}
		byClass[id] = v
		cache[c] = v
		return v
	}
	P := val("P")
	s.cur = P
	if eof {
		next := svSym(P.sym, P.n+1)
		lenv = func(v *SV) *SV {
			if v.k == kInt && v.sym == "LEN" {
				return svSym(next.sym, next.n+v.n)
			}
			if v.k == kStr && len(v.segs) == 1 && v.segs[0].op == 'd' && v.segs[0].b.sym == "LEN" {
				return svSub(v.segs[0].a, svSym(next.sym, next.n+v.segs[0].b.n))
			}
			return v
		}
	}
	// captured texts are parts of the text
	for i, t := range pt.threads {
		if t.slot == 0 {
			continue
		}
		tn := fmt.Sprintf("t%d.", i)
		e := P
		if t.slot == 2 {
			e = val(tn + "end")
		}
		id := pt.class[tn+"=it"]
		if byClass[id] == nil {
			byClass[id] = svSub(val(tn+"start"), e)
		}
		if !t.noshape {
			v := svSub(val(tn+"start"), e)
			if _, lit := v.literal(); !lit {
				s.shapes[v.key()] = append(s.shapes[v.key()], t.shape)
			}
		}
	}
	for i, t := range pt.threads {
		if t.slot == 0 {
			continue
		}
		tn := fmt.Sprintf("t%d.", i)
		id := pt.class[tn+"=trim"]
		if byClass[id] == nil && pt.consts[id] == nil {
			byClass[id] = s.trim(val(tn + "=it"))
		}
	}
	// order
	name := func(c string) *SV {
		if c == "0" {
			return svInt(0)
		}
		return val(c)
	}
	addFact := func(x, y *SV, d int64) { // x - y <= d
		sx, sy := x.sym, y.sym
		if sx == "" {
			sx = "0"
		}
		if sy == "" {
			sy = "0"
		}
		if sx == sy {
			return
		}
		k := [2]string{sx, sy}
		v := d - x.n + y.n
		if o, ok := s.facts[k]; !ok || v < o {
			s.facts[k] = v
		}
	}
	for k, d := range pt.facts {
		addFact(name(k[0]), name(k[1]), d)
	}
	if !eof {
		addFact(P, svSym("LEN", 0), -2)
	}
	s.closeFacts()
	var inst func(v *SV) *SV
	inst = func(v *SV) *SV {
		if v == nil {
			return nil
		}
		switch v.k {
		case kCell:
			return val(v.sym)
		case kList, kTuple:
			r := &SV{k: v.k}
			for _, e := range v.el {
				x := inst(e)
				if v.k == kList && e.k == kCell && x.k == kList && x.sym == "" {
					r.el = append(r.el, x.el...)
				} else {
					r.el = append(r.el, x)
				}
			}
			return r
		case kIface:
			return &SV{k: kIface, sym: v.sym, el: []*SV{inst(v.el[0])}}
		}
		return &SV{k: v.k, sym: v.sym, n: v.n, segs: v.segs, obj: v.obj, path: v.path, fn: v.fn}
	}
	var ts []*gthread
	for _, t := range pt.threads {
		u := t.clone()
		for f, v := range t.out {
			u.out[f] = inst(v)
		}
		for f, r := range t.last {
			rec := map[string]*SV{}
			for g, v := range r {
				rec[g] = inst(v)
			}
			u.last[f] = rec
		}
		u.start, u.end = inst(t.start), inst(t.end)
		ts = append(ts, u)
	}
	for i, u := range ts {
		if len(u.pend) == 0 {
			continue
		}
		d := u.clone()
		m.flush(s, d)
		for _, x := range derived(d, fmt.Sprintf("t%d.", i)) {
			if id := pt.class[x.name]; byClass[id] == nil && pt.consts[id] == nil {
				byClass[id] = x.v
			}
		}
	}
	for _, f := range pt.frames {
		nf := &sframe{fn: f.fn, blk: f.blk, idx: f.idx, call: f.call, vals: map[ssa.Value]*SV{}}
		for k, v := range f.vals {
			nf.vals[k] = inst(v)
		}
		s.frames = append(s.frames, nf)
	}
	for i, o := range pt.objs {
		no := &sobj{typ: o.typ, f: map[string]*SV{}, buf: o.buf, text: inst(o.text)}
		for p, v := range o.f {
			no.f[p] = inst(v)
		}
		s.heap[i] = no
	}
	s.next = len(pt.objs) + 1
	return s, ts
}

// ---- results

type simIssue struct{ label, msg string }

// check compares what the function returns with what the grammar states.
// atEnd: the whole text has been read or is known to end here.
func (m *sim) check(s *sstate, r []*SV, ts []*gthread, dead *SV, atEnd bool) (iss []simIssue) {
	add := func(l, f string, a ...any) { iss = append(iss, simIssue{l, fmt.Sprintf(f, a...)}) }
	if len(r) != 2 {
		add("verifier", "%d results", len(r))
		return
	}
	var acc []*gthread
	for _, t := range ts {
		if m.g.nodes[t.node].accept {
			acc = append(acc, t)
		}
	}
	switch {
	case r[1].k == kNil: // accepted
		if !atEnd {
			if len(ts) == 0 {
				add("rejects", "a text is accepted that no definition begins with")
			} else {
				add("verifier", "the text is accepted before its end")
			}
			return
		}
		if len(acc) == 0 {
			add("rejects", "a text is accepted that is no definition")
			return
		}
		if r[0].k != kAddr || s.heap[r[0].obj] == nil || r[0].path != "" {
			add("result", "the result is %s", r[0].key())
			return
		}
		o := s.heap[r[0].obj]
		m.accepts.Add(1)
		for _, t := range acc {
			t = t.clone()
			m.flush(s, t)
			for i := 0; i < m.res.NumFields(); i++ {
				f := m.res.Field(i)
				got := o.f["."+strconv.Itoa(i)]
				if got == nil {
					got = zeroSV(f.Type())
				}
				want := t.out[f.Name()]
				if l := t.last[f.Name()]; l != nil {
					_, tn := m.recType(f.Name())
					want = &SV{k: kList, el: append(append([]*SV{}, wantList(want)...), &SV{k: kRec, sym: tn, rec: l})}
				}
				if got.k == kList {
					got = &SV{k: kList, sym: got.sym, el: s.flatten(got.el)}
				}
				g, w := normList(got), normList(want)
				if g.key() != w.key() {
					add("field "+f.Name(), "%s is %s where the text states %s", f.Name(), g.key(), w.key())
				}
			}
		}
	case r[1].k == kIface: // rejected
		if len(acc) > 0 && atEnd {
			add("accepts", "a definition is rejected")
			return
		}
		if !atEnd && len(ts) > 0 {
			add("accepts", "a text is rejected at a byte with which a definition can continue")
			return
		}
		if m.g.posProp == "" {
			return
		}
		want := dead
		if len(ts) > 0 {
			want = s.lenV()
		}
		e := r[1].el[0]
		if e.k != kAddr {
			add("position", "the error is %s", r[1].key())
			return
		}
		o := s.heap[e.obj]
		st, ok := o.typ.Underlying().(*types.Struct)
		if !ok {
			add("position", "the error is a %s", o.typ)
			return
		}
		for i := 0; i < st.NumFields(); i++ {
			v := o.f["."+strconv.Itoa(i)]
			if v == nil {
				v = zeroSV(st.Field(i).Type())
			}
			switch st.Field(i).Name() {
			case m.g.posField:
				if v.key() != want.key() {
					add("position", "the error points at %s where the first offending byte is at %s", v.key(), want.key())
				}
			case m.g.posData:
				if w := svSub(svInt(0), s.lenV()); v.key() != w.key() {
					add("position", "the error shows %s", v.key())
				}
			}
		}
	default:
		add("verifier", "the error is %s", r[1].key())
	}
	return
}

func wantList(v *SV) []*SV {
	if v.sym != "" {
		return []*SV{v}
	}
	return v.el
}

// ---- driver

type edgeOut struct {
	b    byte
	eof  bool
	pt   *point // template of the target
	vals map[string]*SV
	st   *sstate
	iss  []simIssue
	ret  bool
}

func (m *sim) edge(pt *point, b byte, eof bool) (e edgeOut) {
	e.b, e.eof = b, eof
	s, ts := m.instantiate(pt, b, eof)
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case simFail:
				pos := ""
				if n := len(s.frames); n > 0 {
					f := s.frames[n-1]
					if f.idx < len(f.blk.Instrs) {
						pos = " at " + m.pos(f.blk.Instrs[f.idx])
					}
				}
				e.iss = append(e.iss, simIssue{x.label, x.msg + pos})
			default:
				panic(r)
			}
		}
	}()
	var nts []*gthread
	dead := s.cur
	if pt.dead {
		dead = m.cellVal(pt, s, "dead")
	} else {
		nts = m.step(s, ts, b, s.cur)
	}
	s.learnShapes(nts, s.nextPos())
	o := s.run()
	if o.cut {
		e.st = s
		cur := s.cur
		P := s.nextPos()
		s.cur = dead // recorded in the cell "dead"
		e.pt, e.vals = m.arrive(s, nts, P)
		s.cur = cur
		return
	}
	e.ret = true
	e.iss = m.check(s, o.ret, nts, dead, eof)
	return
}

func (m *sim) cellVal(pt *point, s *sstate, c string) *SV {
	id := pt.class[c]
	if k := pt.consts[id]; k != nil {
		return k
	}
	return svSym(fmt.Sprintf("c%d", id), 0)
}

func runSim(P *Program, g *Grammar) (res simResult) {
	res.fails = map[string]*simFailure{}
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case specErr:
				res.err = x.msg
			case simFail:
				res.err = x.msg
			default:
				if os.Getenv("GVC_STACK") != "" {
					panic(r)
				}
				res.err = fmt.Sprint("internal: ", r)
			}
		}
	}()
	fn := P.funcs[g.fn]
	if fn == nil {
		res.err = "function not found: " + g.fn
		return
	}
	m := &sim{P: P, g: g, fn: fn, live: map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool{}, points: map[string]*point{}, inlined: map[string]bool{}, externs: map[string]bool{}}
	sig := fn.Signature
	if sig.Params().Len() != 1 || sig.Results().Len() != 2 {
		res.err = "the parser's signature has changed"
		return
	}
	pt, ok := sig.Results().At(0).Type().(*types.Pointer)
	if !ok {
		res.err = "the parser's result type has changed"
		return
	}
	m.res = pt.Elem().Underlying().(*types.Struct)
	m.resName = types.TypeString(pt.Elem(), nil)

	fail := func(iss simIssue, at *point, b int, ret bool) {
		res.failed++
		f := res.fails[iss.label]
		if f == nil {
			f = &simFailure{label: iss.label, msg: iss.msg}
			if at != nil {
				f.pos = at.desc
				f.witness = at.prefix
				if b >= 0 {
					f.witness += string([]byte{byte(b)})
				}
			}
			res.fails[iss.label] = f
		}
		f.count++
		if at != nil && len(res.candidates) < 200 {
			w := at.prefix
			if b >= 0 {
				w += string([]byte{byte(b)})
			}
			res.candidates = append(res.candidates, w)
		}
	}
	// the empty text, and the first byte
	start := func(eof bool) (s *sstate, ts []*gthread, o outcome, iss *simIssue) {
		s = &sstate{m: m, heap: map[int]*sobj{}, eof: eof, shapes: map[string][][]shapeEl{}, facts: map[[2]string]int64{}}
		if !eof {
			s.facts[[2]string{"0", "LEN"}] = -1
		}
		ts = m.startThreads(s)
		f := &sframe{fn: fn, blk: fn.Blocks[0], vals: map[ssa.Value]*SV{}}
		f.vals[fn.Params[0]] = svSub(svInt(0), s.lenV())
		s.frames = []*sframe{f}
		defer func() {
			if r := recover(); r != nil {
				if x, ok := r.(simFail); ok {
					iss = &simIssue{x.label, x.msg}
					return
				}
				panic(r)
			}
		}()
		o = s.run()
		return
	}
	finish := func() {
		res.inlined = sortedKeys(m.inlined)
		res.externs = sortedKeys(m.externs)
		res.accepts = m.accepts.Load()
	}
	defer finish()
	s, ts, o, iss := start(true)
	res.obls++
	if iss != nil {
		fail(*iss, nil, -1, false)
	} else if o.cut {
		fail(simIssue{"panic", "a byte of the empty text is read"}, nil, -1, false)
	} else {
		res.returns++
		for _, i := range m.check(s, o.ret, ts, svInt(0), true) {
			fail(i, nil, -1, true)
		}
	}
	s, ts, o, iss = start(false)
	if iss != nil {
		fail(*iss, nil, -1, false)
		return
	}
	if !o.cut {
		fail(simIssue{"verifier", "the function returns without reading the text"}, nil, -1, false)
		return
	}
	var queue []*point
	inq := map[*point]bool{}
	reach := func(t *point, vals map[string]*SV, s *sstate, prefix string) {
		p := m.points[t.key]
		if p == nil {
			p = t
			p.prefix = prefix
			p.n = len(m.order)
			f := t.frames[len(t.frames)-1]
			p.desc = m.pos(f.blk.Instrs[f.idx])
			m.points[t.key] = p
			m.order = append(m.order, p)
			if len(m.order) > 20000 {
				panic(simFail{"verifier", "too many program points"})
			}
		}
		if m.join(p, s, vals) && !inq[p] {
			inq[p] = true
			queue = append(queue, p)
		}
	}
	s.cur = nil
	t0, v0 := m.arrive(s, ts, svInt(0))
	reach(t0, v0, s, "")
	for len(queue) > 0 {
		batch := queue
		queue = nil
		outs := make([][]edgeOut, len(batch))
		parallel(len(batch), func(i int) {
			for b := 0; b < 256; b++ {
				e := m.edge(batch[i], byte(b), false)
				if e.pt != nil {
					outs[i] = append(outs[i], e)
				}
			}
		})
		for i, p := range batch {
			inq[p] = false
			_ = i
		}
		for i, p := range batch {
			for _, e := range outs[i] {
				reach(e.pt, e.vals, e.st, p.prefix+string([]byte{e.b}))
			}
		}
	}
	// the invariants are inductive and imply the contract
	outs := make([][]edgeOut, len(m.order))
	parallel(len(m.order), func(i int) {
		for b := 0; b < 256; b++ {
			outs[i] = append(outs[i], m.edge(m.order[i], byte(b), false), m.edge(m.order[i], byte(b), true))
		}
	})
	for i, p := range m.order {
		for _, e := range outs[i] {
			res.edges++
			res.obls++
			if e.ret {
				res.returns++
			}
			if e.pt != nil {
				if e.eof {
					fail(simIssue{"panic", "a byte is read beyond the end of the text"}, p, int(e.b), false)
					continue
				}
				t := m.points[e.pt.key]
				if t == nil {
					fail(simIssue{"verifier", "point not explored"}, p, int(e.b), false)
					continue
				}
				if msg, ok := m.holds(t, e.st, e.vals); !ok {
					fail(simIssue{"verifier", "invariant not inductive: " + msg}, p, int(e.b), false)
				}
			}
			seen := map[string]bool{}
			for _, x := range e.iss {
				if !seen[x.label] {
					seen[x.label] = true
					fail(x, p, int(e.b), e.ret)
				}
			}
		}
	}
	res.points = len(m.order)
	return
}

func parallel(n int, f func(i int)) {
	var wg sync.WaitGroup
	ch := make(chan int)
	var perr any
	var mu sync.Mutex
	for w := 0; w < runtime.NumCPU(); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				func() {
					defer func() {
						if r := recover(); r != nil {
							mu.Lock()
							perr = r
							mu.Unlock()
						}
					}()
					f(i)
				}()
			}
		}()
	}
	for i := 0; i < n; i++ {
		ch <- i
	}
	close(ch)
	wg.Wait()
	if perr != nil {
		panic(perr)
	}
}

func cmdSim(repo, verif string, pats []string) int {
	P, err := loadProgram(repo)
	if err != nil {
		fmt.Println(err)
		return 3
	}
	gs, err := loadGrammars(verif + "/contracts")
	if err != nil {
		fmt.Println(err)
		return 3
	}
	rc := 0
	for _, g := range gs {
		ok := len(pats) == 0
		for _, p := range pats {
			ok = ok || strings.Contains(g.fn, p)
		}
		if !ok {
			continue
		}
		r := runSim(P, g)
		fmt.Printf("%s: %d points, %d edges, %d returns, %d obligations, %d failed %s\n", g.fn, r.points, r.edges, r.returns, r.obls, r.failed, r.err)
		for _, l := range sortedKeys(r.fails) {
			f := r.fails[l]
			fmt.Printf("   [%s] x%d %s (at %s, after %q)\n", l, f.count, clip(f.msg, 400), f.pos, f.witness)
			rc = 1
		}
		fmt.Println("   inlined", r.inlined, "externs", r.externs)
	}
	return rc
}
