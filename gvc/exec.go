package main

// Symbolic execution of SSA functions.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type unsupported struct{ msg string }

func unsup(f string, a ...interface{}) { panic(unsupported{fmt.Sprintf(f, a...)}) }

type Obligation struct {
	Unit    string
	Kind    string
	Label   string
	Pos     string
	asserts []*Term
	goal    *Term
	native  bool
	trace   []string
	tags    []string
	alts    []*Term // instances of an existential goal; one is enough

	Proved  bool
	Backend string
	Status  string
	Seconds float64
	model   string
}

type walk struct {
	verify     bool
	baseDepth  int
	onReturn   func(st *State, res []Val)
	onBackEdge func(st *State, al *activeLoop)
	stopFrame  string
	stopHeader *ssa.BasicBlock
	joinFrame  string
	joinBlock  *ssa.BasicBlock
	onJoin     func(st *State)
	goCon      *Contract // whose goensures clauses goroutines satisfy
	goEnv      map[string]bound
	goEntry    *State
}

type Unit struct {
	P             *Program
	S             *SpecDB
	fn            *ssa.Function
	con           *Contract
	name          string
	native        bool
	entry         *State
	params        map[string]bound
	obls          []*Obligation
	infer         int
	logs          []map[string][]*Term
	ghostLogs     []map[string]bool
	loopCache     map[string][]candidate
	usedContracts map[string]bool
	usedExterns   map[string]bool
	inlined       map[string]bool
	notes         map[string]bool
	paths         int
	returns       int
	liveReturns   int
	quiet         bool
	frameSeq      map[string]int
	dropped       map[string]bool
	invCount      int
	loopC         map[string]*loopCacheEnt
	writeOnly     int
	failure       string
	preconds      []*Term
	trivial       int
	wantDec       int
	genSecs       float64
}

func (u *Unit) pos(in ssa.Instruction) string {
	if in == nil {
		return ""
	}
	p := u.P.prog.Fset.Position(in.Pos())
	f := p.Filename
	if i := strings.Index(f, "/internal/"); i >= 0 {
		f = f[i+1:]
	}
	if !p.IsValid() {
		return in.Parent().Name()
	}
	return fmt.Sprintf("%s:%d", f, p.Line)
}

// oblige emits an obligation (in verify mode) and assumes it afterwards.
func (u *Unit) oblige(st *State, w *walk, kind, label string, in ssa.Instruction, goal *Term) {
	if goal == True {
		return
	}
	if w.verify && u.infer == 0 {
		u.obls = append(u.obls, &Obligation{Unit: u.name, Kind: kind, Label: label, Pos: u.pos(in), asserts: st.pc[:len(st.pc):len(st.pc)], goal: goal, native: u.native, trace: st.trace})
	}
	st.assume(goal)
}

func (u *Unit) logWrite(h *heapInfo, ref *Term) {
	for _, l := range u.logs {
		l[h.name] = append(l[h.name], ref)
	}
}

func (u *Unit) logGhost(g string) {
	for _, l := range u.ghostLogs {
		l[g] = true
	}
}

// ---- values ----

func (u *Unit) val(st *State, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return constVal(x)
	case *ssa.Function:
		return &Closure{fn: x}
	case *ssa.Global:
		return &Addr{kind: 'G', g: x, typ: x.Type().Underlying().(*types.Pointer).Elem()}
	case *ssa.Builtin:
		return x
	}
	for i := len(st.frames) - 1; i >= 0; i-- {
		f := st.frames[i]
		if r, ok := f.env[v]; ok {
			return r
		}
		break
	}
	unsup("undefined value %s in %s", v.Name(), v.Parent())
	return nil
}

func (u *Unit) term(st *State, v ssa.Value) *Term {
	return u.toTerm(st, u.val(st, v), v.Type())
}

func (u *Unit) toTerm(st *State, x Val, t types.Type) *Term {
	switch y := x.(type) {
	case *Term:
		return y
	case *Closure:
		return u.closureTerm(st, y)
	case *Addr:
		return u.addrTerm(y)
	}
	unsup("value %T cannot be a term", x)
	return nil
}

var closureTab = map[*Term]*Closure{}
var addrTab = map[*Term]*Addr{}

func (u *Unit) closureTerm(st *State, c *Closure) *Term {
	key := "fn:" + c.fn.String()
	for _, b := range c.binds {
		key += "," + u.toTerm(st, b, nil).String()
	}
	if c.recv != nil {
		key += "@" + u.toTerm(st, c.recv, nil).String()
	}
	t := Const(key, "Int")
	if decls[t.Op].Axioms == nil {
		decls[t.Op].Axioms = []*Term{Lt(t, Int(0))}
	}
	closureTab[t] = c
	return t
}

func (u *Unit) addrTerm(a *Addr) *Term {
	var t *Term
	switch a.kind {
	case 'F':
		t = UF("fieldaddr:"+a.h.name, "Int", a.ref)
	case 'E':
		t = UF("elemaddr:"+a.h.name, "Int", a.ref, a.idx)
	case 'G':
		t = Const("globaladdr:"+a.g.String(), "Int")
		if decls[t.Op].Axioms == nil {
			decls[t.Op].Axioms = []*Term{Lt(t, Int(0))}
		}
	}
	addrTab[t] = a
	return t
}

func constVal(c *ssa.Const) Val {
	if c.Value == nil {
		return zeroOf(c.Type())
	}
	switch sortOf(c.Type()) {
	case "Bool":
		return BoolT(constant.BoolVal(c.Value))
	case "Str":
		return StrLit(constant.StringVal(c.Value))
	case "Int":
		return BigInt(constant.ToInt(c.Value).ExactString())
	case "Flt":
		return Const("flt:"+c.Value.ExactString(), "Flt")
	}
	unsup("constant %s", c)
	return nil
}

// ---- loads and stores ----

func (u *Unit) load(st *State, w *walk, p Val, pt types.Type, in ssa.Instruction) Val {
	switch a := p.(type) {
	case *Addr:
		switch a.kind {
		case 'F':
			return Select(st.getHeap(a.h), a.ref)
		case 'E':
			return Select(Select(st.getHeap(a.h), a.ref), a.idx)
		case 'G':
			return u.globalVal(st, a.g)
		}
	case *Term:
		if x, ok := addrTab[a]; ok {
			return u.load(st, w, x, pt, in)
		}
		u.oblige(st, w, "nil", "nil pointer dereference", in, Not(Eq(a, Int(0))))
		return u.loadAt(st, a, pt)
	}
	unsup("load through %T", p)
	return nil
}

func (u *Unit) loadAt(st *State, ref *Term, t types.Type) *Term {
	if a, ok := t.Underlying().(*types.Array); ok && isStruct(a.Elem()) {
		unsup("array of structs as a value")
	}
	switch s := t.Underlying().(type) {
	case *types.Struct:
		if s.NumFields() == 0 {
			return UnitT
		}
		ss := structSort(t)
		var as []*Term
		for i := 0; i < s.NumFields(); i++ {
			ft := s.Field(i).Type()
			if isAgg(ft) {
				as = append(as, u.loadAt(st, Add(ref, Int(fieldOffset(s, i))), ft))
			} else {
				as = append(as, Select(st.getHeap(heapF(t, i)), ref))
			}
		}
		return App(datatypes[ss].Con, ss, as...)
	case *types.Array:
		return Select(st.getHeap(heapE(s.Elem())), ref)
	}
	return Select(st.getHeap(heapC(t)), ref)
}

func (u *Unit) storeAt(st *State, ref *Term, t types.Type, v *Term) {
	if a, ok := t.Underlying().(*types.Array); ok && isStruct(a.Elem()) {
		unsup("array of structs as a value")
	}
	switch s := t.Underlying().(type) {
	case *types.Struct:
		if s.NumFields() == 0 {
			return
		}
		ss := structSort(t)
		d := datatypes[ss]
		for i := 0; i < s.NumFields(); i++ {
			ft := s.Field(i).Type()
			fv := Acc(d.Fields[i], d.Sorts[i], v)
			if isAgg(ft) {
				u.storeAt(st, Add(ref, Int(fieldOffset(s, i))), ft, fv)
			} else {
				h := heapF(t, i)
				u.logWrite(h, ref)
				st.setHeap(h, Store(st.getHeap(h), ref, fv))
			}
		}
		return
	case *types.Array:
		h := heapE(s.Elem())
		u.logWrite(h, ref)
		st.setHeap(h, Store(st.getHeap(h), ref, v))
		return
	}
	h := heapC(t)
	u.logWrite(h, ref)
	st.setHeap(h, Store(st.getHeap(h), ref, v))
}

func (u *Unit) store(st *State, w *walk, p Val, pt types.Type, v *Term, in ssa.Instruction) {
	switch a := p.(type) {
	case *Addr:
		switch a.kind {
		case 'F':
			u.logWrite(a.h, a.ref)
			st.setHeap(a.h, Store(st.getHeap(a.h), a.ref, v))
			return
		case 'E':
			u.logWrite(a.h, a.ref)
			hp := st.getHeap(a.h)
			st.setHeap(a.h, Store(hp, a.ref, nameDef("e", Store(Select(hp, a.ref), a.idx, v))))
			return
		case 'G':
			unsup("store to global %s", a.g.Name())
		}
	case *Term:
		if x, ok := addrTab[a]; ok {
			u.store(st, w, x, pt, v, in)
			return
		}
		u.oblige(st, w, "nil", "nil pointer dereference", in, Not(Eq(a, Int(0))))
		u.storeAt(st, a, pt, v)
		return
	}
	unsup("store through %T", p)
}

// newObj allocates zeroed memory for a type.
func (u *Unit) newObj(st *State, t types.Type) *Term {
	ref := st.alloc
	st.alloc = Add(st.alloc, Int(sizeOf(t)))
	u.zeroAt(st, ref, t)
	if g := u.tracked(t); g != "" {
		u.logGhost("g:" + g)
		st.ghost["g:"+g] = nameDef("objs", Store(u.ghost(st, g), ref, True))
	}
	for _, n := range sortedKeys(u.S.ghosts) {
		if g := u.S.ghosts[n]; g.reset != "" && u.namesType(t, g.reset, g.pkg) {
			u.logGhost("g:" + n)
			cur := u.ghost(st, n)
			_, vs := arrSorts(cur.Sort)
			st.ghost["g:"+n] = nameDef("rg", Store(cur, ref, zeroSort(vs)))
		}
	}
	return ref
}

// tracked: the ghost set recording objects of a type, if any
func (u *Unit) tracked(t types.Type) string {
	for _, tv := range u.S.tracks {
		if u.namesType(t, tv.typ, tv.pkg) {
			return tv.ghost
		}
	}
	return ""
}

func (u *Unit) namesType(t types.Type, n, pkg string) bool {
	if i := strings.LastIndex(pkg, "/"); i >= 0 {
		n = strings.TrimPrefix(pkg, "internal/") + "." + n
	}
	return typeStr(t) == n
}

// zeroSort: the zero of a logical sort
func zeroSort(s string) *Term {
	switch s {
	case "Bool":
		return False
	case "Int":
		return Int(0)
	case "Str":
		return StrLit("")
	}
	if strings.HasPrefix(s, "(Array") {
		k, v := arrSorts(s)
		return ConstArr(k, v, zeroSort(v))
	}
	unsup("zero of sort %s", s)
	return nil
}

// trackedIn: every recorded object was allocated before a point
func (u *Unit) trackedIn(set, alloc *Term) *Term {
	r := BV("tr?", "Int")
	sel := App("select", "Bool", set, r)
	return Forall([]*Term{r}, Implies(sel, And(Lt(Int(0), r), Lt(r, alloc))), []*Term{sel})
}

func (u *Unit) zeroAt(st *State, ref *Term, t types.Type) {
	if isBuilder(t) {
		u.logWrite(heapText, ref)
		st.setHeap(heapText, Store(st.getHeap(heapText), ref, StrLit("")))
		u.logWrite(heapLost, ref)
		st.setHeap(heapLost, Store(st.getHeap(heapLost), ref, False))
	}
	switch s := t.Underlying().(type) {
	case *types.Array:
		if isStruct(s.Elem()) {
			if s.Len() > 64 {
				unsup("large array of structs")
			}
			for i := int64(0); i < s.Len(); i++ {
				u.zeroAt(st, Add(ref, Int(i*sizeOf(s.Elem()))), s.Elem())
			}
			return
		}
	case *types.Struct:
		for i := 0; i < s.NumFields(); i++ {
			ft := s.Field(i).Type()
			if isAgg(ft) {
				u.zeroAt(st, Add(ref, Int(fieldOffset(s, i))), ft)
			} else {
				h := heapF(t, i)
				u.logWrite(h, ref)
				st.setHeap(h, Store(st.getHeap(h), ref, zeroOf(ft)))
			}
		}
		return
	}
	u.storeAt(st, ref, t, zeroOf(t))
}

// globals: never-reassigned package variables
func (u *Unit) globalVal(st *State, g *ssa.Global) Val {
	t := g.Type().Underlying().(*types.Pointer).Elem()
	if u.P.storedGlobals[g] {
		unsup("global %s is reassigned at run time", g.Name())
	}
	if iv, ok := u.P.globalInit[g]; ok {
		if c, ok := iv.(*ssa.Const); ok {
			return constVal(c)
		}
	}
	name := "G:" + typeStr(types.NewPointer(t)) + ":" + strings.ReplaceAll(g.String(), modPath+"/", "")
	c := Const(name, sortOf(t))
	d := decls[c.Op]
	if d.Axioms == nil {
		ax := []*Term{wfVal(t, c, alloc0)}
		switch t.Underlying().(type) {
		case *types.Interface:
			ax = append(ax, Not(Eq(ITag(c), Int(0))))
			id := 1
			for _, ch := range g.String() {
				id = (id*131 + int(ch)) % 1000000007
			}
			ax = append(ax, Eq(UF("globalid", "Int", c), Int(int64(id))))
		case *types.Pointer, *types.Map:
			ax = append(ax, Not(Eq(c, Int(0))))
		}
		d.Axioms = ax
	}
	return c
}

// ---- boxing into interfaces ----

func (u *Unit) box(t types.Type, v *Term) *Term {
	tag := u.P.tag(t)
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return MkIface(Int(int64(tag)), v)
	}
	return MkIface(Int(int64(tag)), boxUF(t, v))
}

func boxUF(t types.Type, v *Term) *Term {
	n := "box:" + v.Sort
	un := "unbox:" + v.Sort
	b := UF(n, "Int", v)
	d := decls[symOK(n)]
	if d.Axioms == nil {
		x := BV("x?", v.Sort)
		declare(symOK(un), v.Sort, "Int")
		bx := App(symOK(n), "Int", x)
		d.Axioms = []*Term{Forall([]*Term{x}, Eq(App(symOK(un), v.Sort, bx), x), []*Term{bx})}
	}
	return b
}

func (u *Unit) unbox(t types.Type, i *Term) *Term {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return IVal(i)
	}
	s := sortOf(t)
	p := IVal(i)
	if p.Op == symOK("box:"+s) {
		return p.Args[0]
	}
	declare(symOK("unbox:"+s), s, "Int")
	return App(symOK("unbox:"+s), s, p)
}

// tagImplements: condition that a dynamic type tag implements an interface
func (u *Unit) tagImplements(tag *Term, it *types.Interface) *Term {
	if n, ok := intVal(tag); ok {
		if n == 0 {
			return False
		}
		if u.P.tagTypes[int(n)] != nil {
			return BoolT(types.Implements(u.P.tagTypes[int(n)], it))
		}
	}
	// known repo types decide; other types are unknown
	var yes []*Term
	closed := false
	for i := 0; i < it.NumMethods(); i++ {
		if !it.Method(i).Exported() {
			closed = true
		}
	}
	var no []*Term
	for _, t := range u.P.named {
		n := Int(int64(u.P.tag(t)))
		if types.Implements(t, it) {
			yes = append(yes, Eq(tag, n))
		} else {
			no = append(no, Eq(tag, n))
		}
	}
	if closed {
		return Or(yes...)
	}
	unk := UF("impl:"+types.TypeString(it, nil), "Bool", tag)
	return Or(append(yes, And(unk, Not(Or(no...)), Not(Eq(tag, Int(0)))))...)
}

// ---- exploration ----

const maxPaths = 6000

func (u *Unit) explore(st *State, w *walk) {
	work := []*State{st}
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		for {
			more, forks := u.step(s, w)
			for i := len(forks) - 1; i >= 0; i-- {
				work = append(work, forks[i])
			}
			if !more {
				break
			}
		}
	}
}

// step executes one instruction. Returns false when the path ended (or was
// replaced by the returned forks).
func (u *Unit) step(st *State, w *walk) (bool, []*State) {
	f := st.top()
	if f.idx >= len(f.block.Instrs) {
		unsup("fell off block in %s", f.fn)
	}
	in := f.block.Instrs[f.idx]
	f.idx++
	if os.Getenv("GVC_TRACE") != "" && u.infer == 0 {
		fmt.Fprintf(os.Stderr, "%s b%d %s\n", f.fn.Name(), f.block.Index, in)
	}
	switch x := in.(type) {
	case *ssa.DebugRef:
		return true, nil
	case *ssa.Alloc:
		f.env[x] = u.newObj(st, x.Type().Underlying().(*types.Pointer).Elem())
	case *ssa.Phi:
		unsup("phi out of place")
	case *ssa.BinOp:
		return u.binop(st, w, x)
	case *ssa.UnOp:
		return u.unop(st, w, x)
	case *ssa.FieldAddr:
		f.env[x] = u.fieldAddr(st, w, x)
	case *ssa.Field:
		t := x.X.Type()
		d := datatypes[structSort(t)]
		f.env[x] = Acc(d.Fields[x.Field], d.Sorts[x.Field], u.term(st, x.X))
	case *ssa.IndexAddr:
		f.env[x] = u.indexAddr(st, w, x)
	case *ssa.Index:
		switch x.X.Type().Underlying().(type) {
		case *types.Array:
			i := u.term(st, x.Index)
			f.env[x] = Select(u.term(st, x.X), i)
		default: // string
			s, i := u.term(st, x.X), u.term(st, x.Index)
			u.oblige(st, w, "bounds", "string index in range", in, And(Le(Int(0), i), Lt(i, sLen(s))))
			f.env[x] = sAt(s, i)
		}
	case *ssa.Store:
		u.store(st, w, u.val(st, x.Addr), x.Addr.Type().Underlying().(*types.Pointer).Elem(), u.term(st, x.Val), in)
	case *ssa.MapUpdate:
		u.mapUpdate(st, w, x.Map.Type().Underlying().(*types.Map), u.term(st, x.Map), u.term(st, x.Key), u.term(st, x.Value), in)
	case *ssa.Lookup:
		u.lookup(st, w, x)
	case *ssa.MakeMap:
		mt := x.Type().Underlying().(*types.Map)
		f.env[x] = u.newMap(st, mt)
	case *ssa.MakeSlice:
		n, c := u.term(st, x.Len), u.term(st, x.Cap)
		u.oblige(st, w, "bounds", "make: length and capacity in range", in, And(Le(Int(0), n), Le(n, c)))
		f.env[x] = u.newSlice(st, x.Type().Underlying().(*types.Slice).Elem(), n, c)
	case *ssa.MakeChan:
		f.env[x] = u.makeChan(st, w, x)
	case *ssa.Slice:
		u.sliceOp(st, w, x)
	case *ssa.MakeInterface:
		v := u.val(st, x.X)
		f.env[x] = u.box(x.X.Type(), u.toTerm(st, v, x.X.Type()))
	case *ssa.ChangeInterface:
		f.env[x] = u.val(st, x.X)
	case *ssa.ChangeType:
		f.env[x] = u.val(st, x.X)
	case *ssa.Convert:
		f.env[x] = u.convert(st, w, x)
	case *ssa.MakeClosure:
		c := &Closure{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			c.binds = append(c.binds, u.val(st, b))
		}
		f.env[x] = c
	case *ssa.Range:
		mt, ok := x.X.Type().Underlying().(*types.Map)
		if !ok {
			unsup("range over string")
		}
		m := u.term(st, x.X)
		id := fmt.Sprintf("%s.%s", f.id, x.Name())
		it := &IterVal{id: id, m: m, mt: mt, start: Select(st.getHeap(heapD(mt)), m)}
		st.ghost["seen:"+id] = ConstArr(sortOf(mt.Key()), "Bool", False)
		u.logGhost("seen:" + id)
		st.ghost["cur:"+id] = zeroOf(mt.Key())
		u.logGhost("cur:" + id)
		st.iters = append(st.iters, it)
		f.env[x] = it
	case *ssa.Next:
		it, ok := u.val(st, x.Iter).(*IterVal)
		if !ok {
			unsup("next on non-map iterator")
		}
		return false, u.nextIter(st, w, x, it)
	case *ssa.Extract:
		tv, ok := u.val(st, x.Tuple).(Tuple)
		if !ok {
			unsup("extract from %T", u.val(st, x.Tuple))
		}
		f.env[x] = tv[x.Index]
	case *ssa.TypeAssert:
		return u.typeAssert(st, w, x)
	case *ssa.If:
		return u.branch(st, w, u.term(st, x.Cond), f.block.Succs[0], f.block.Succs[1])
	case *ssa.Jump:
		return u.jump(st, w, f.block.Succs[0]), nil
	case *ssa.Return:
		return u.doReturn(st, w, x)
	case *ssa.Panic:
		u.oblige(st, w, "panic", "explicit panic is unreachable", in, False)
		return false, nil
	case *ssa.Call:
		return u.call(st, w, &x.Call, x, in)
	case *ssa.Defer:
		d := deferred{call: &x.Call}
		if x.Call.IsInvoke() {
			d.fn = nil
			d.args = append(d.args, u.val(st, x.Call.Value))
		} else {
			d.fn = u.val(st, x.Call.Value)
		}
		for _, a := range x.Call.Args {
			d.args = append(d.args, u.val(st, a))
		}
		f.defers = append(f.defers, d)
	case *ssa.RunDefers:
		if len(f.defers) > 0 {
			d := f.defers[len(f.defers)-1]
			f.defers = f.defers[:len(f.defers)-1]
			f.idx-- // run again until empty
			return u.callValues(st, w, d.call, d.fn, d.args, nil, in)
		}
	case *ssa.Go:
		return u.goStmt(st, w, x)
	case *ssa.Send:
		return u.send(st, w, x)
	case *ssa.Select:
		return u.selectStmt(st, w, x)
	default:
		unsup("instruction %T", in)
	}
	return true, nil
}

func (u *Unit) branch(st *State, w *walk, c *Term, yes, no *ssa.BasicBlock) (bool, []*State) {
	if v, ok := st.known(c); ok {
		if v {
			return u.jump(st, w, yes), nil
		}
		return u.jump(st, w, no), nil
	}
	u.paths++
	if u.paths > maxPaths*20 {
		unsup("too many paths")
	}
	if u.con.opt("merge") != "" {
		if j := joinOf(st.top().block); j != nil {
			return u.branchMerged(st, w, c, yes, no, j)
		}
	}
	a, b := st, st.clone()
	a.assume(c)
	b.assume(Not(c))
	a.brs = append(a.brs, c)
	b.brs = append(b.brs, Not(c))
	var out []*State
	if !a.dead() && u.feasible(a) && u.jump(a, w, yes) {
		out = append(out, a)
	}
	if !b.dead() && u.feasible(b) && u.jump(b, w, no) {
		out = append(out, b)
	}
	return false, out
}

// feasible prunes contradictory paths once the path is deep enough to matter
func (u *Unit) feasible(st *State) bool {
	if u.infer > 0 || u.con == nil || !u.con.prune {
		return true
	}
	return !contradictory(st.pc, u.native)
}

// jump moves the top frame to block b; false ends the path.
func (u *Unit) jump(st *State, w *walk, b *ssa.BasicBlock) bool {
	f := st.top()
	from := f.block
	// leaving loops
	for len(st.loops) > 0 {
		al := st.loops[len(st.loops)-1]
		if al.frame != f.id || al.lp.body[b] {
			break
		}
		st.loops = st.loops[:len(st.loops)-1]
		if w.stopFrame == f.id && w.stopHeader == al.header {
			return false
		}
	}
	f.prev = from
	f.block = b
	f.idx = 0
	if w.onJoin != nil && w.joinFrame == f.id && w.joinBlock == b {
		u.phis(st)
		w.onJoin(st)
		return false
	}
	if lp := loopsOf(f.fn)[b]; lp != nil {
		if n := len(st.loops); n > 0 && st.loops[n-1].frame == f.id && st.loops[n-1].header == b {
			al := st.loops[n-1]
			if w.onBackEdge != nil && w.stopFrame == f.id && w.stopHeader == b {
				w.onBackEdge(st, al)
			} else {
				u.backEdge(st, w, al)
			}
			return false
		}
		if u.unrolls(st, lp) {
			u.phis(st)
			return true
		}
		return u.enterLoop(st, w, lp)
	}
	u.phis(st)
	return true
}

// unrolls: the loop's condition is known at this point, so that its next
// iteration (or its end) is executed as it stands, without an invariant
func (u *Unit) unrolls(st *State, lp *loopInfo) bool {
	b := lp.header
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	for _, in := range b.Instrs[:len(b.Instrs)-1] {
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.BinOp:
			if x.Op == token.QUO || x.Op == token.REM {
				return false
			}
		default:
			return false
		}
	}
	f := st.top()
	if f.unrolled[b] >= 24 {
		return false
	}
	try := st.clone()
	tf := try.top()
	for i, v := range u.phiVals(try) {
		tf.env[b.Instrs[i].(*ssa.Phi)] = v
	}
	for _, in := range b.Instrs[:len(b.Instrs)-1] {
		if x, ok := in.(*ssa.BinOp); ok {
			switch x.Op {
			case token.ADD, token.SUB, token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
			default:
				return false
			}
			if _, isInt := x.X.Type().Underlying().(*types.Basic); !isInt {
				return false
			}
			u.binop(try, &walk{}, x)
		}
	}
	c, ok := tf.env[iff.Cond].(*Term)
	if !ok {
		if k, isC := iff.Cond.(*ssa.Const); !isC || k == nil {
			return false
		}
		return false
	}
	if c != True && c != False {
		return false
	}
	m := map[*ssa.BasicBlock]int{}
	for k, v := range f.unrolled {
		m[k] = v
	}
	m[b]++
	if c == False {
		delete(m, b)
	}
	f.unrolled = m
	return true
}

// phis assigns the phi nodes of the current block from the incoming edge.
func (u *Unit) phis(st *State) {
	f := st.top()
	vals := u.phiVals(st)
	for i, v := range vals {
		f.env[f.block.Instrs[i].(*ssa.Phi)] = v
	}
	f.idx = len(vals)
}

func (u *Unit) phiVals(st *State) []Val {
	f := st.top()
	pi := -1
	for i, p := range f.block.Preds {
		if p == f.prev {
			pi = i
		}
	}
	var vals []Val
	for _, in := range f.block.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals = append(vals, u.val(st, ph.Edges[pi]))
	}
	return vals
}

func (u *Unit) doReturn(st *State, w *walk, x *ssa.Return) (bool, []*State) {
	f := st.top()
	var res []Val
	for _, r := range x.Results {
		res = append(res, u.val(st, r))
	}
	// active loops of this frame are left
	for len(st.loops) > 0 && st.loops[len(st.loops)-1].frame == f.id {
		al := st.loops[len(st.loops)-1]
		st.loops = st.loops[:len(st.loops)-1]
		if w.stopFrame == f.id && w.stopHeader == al.header {
			return false, nil
		}
	}
	if len(st.frames) == w.baseDepth {
		if w.onReturn != nil {
			w.onReturn(st, res)
		}
		return false, nil
	}
	st.frames = st.frames[:len(st.frames)-1]
	if f.after != nil {
		f.after(st, res)
		return true, nil
	}
	u.bindResult(st, f.call, res)
	return true, nil
}

func (u *Unit) bindResult(st *State, v ssa.Value, res []Val) {
	if v == nil {
		return
	}
	f := st.top()
	switch len(res) {
	case 0:
	case 1:
		f.env[v] = res[0]
	default:
		f.env[v] = Tuple(res)
	}
}

// push enters a function body.
func (u *Unit) push(st *State, fn *ssa.Function, args []Val, binds []Val, call ssa.Value) *Frame {
	if len(fn.Blocks) == 0 {
		unsup("no body for %s", fn)
	}
	if len(st.frames) > 40 {
		unsup("inlining too deep at %s", fn)
	}
	for _, g := range st.frames {
		if g.fn == fn {
			unsup("recursive call of %s needs a contract", funcKey(fn))
		}
	}
	st.calls++
	f := &Frame{fn: fn, env: map[ssa.Value]Val{}, block: fn.Blocks[0], call: call, id: fmt.Sprintf("%s#%d", fn.Name(), st.calls)}
	for i, p := range fn.Params {
		f.env[p] = args[i]
	}
	for i, b := range fn.FreeVars {
		f.env[b] = binds[i]
	}
	st.frames = append(st.frames, f)
	return f
}

// ---- instructions ----

func (u *Unit) fieldAddr(st *State, w *walk, x *ssa.FieldAddr) Val {
	pt := x.X.Type().Underlying().(*types.Pointer).Elem()
	s := pt.Underlying().(*types.Struct)
	base := u.val(st, x.X)
	ft := s.Field(x.Field).Type()
	ref, ok := base.(*Term)
	if !ok {
		if a, isA := base.(*Addr); isA && a.kind == 'G' {
			unsup("field of global struct %s", a.g.Name())
		}
		unsup("field address through %T", base)
	}
	u.oblige(st, w, "nil", "nil pointer dereference", x, Not(Eq(ref, Int(0))))
	if isAgg(ft) {
		return Add(ref, Int(fieldOffset(s, x.Field)))
	}
	return &Addr{kind: 'F', h: heapF(pt, x.Field), ref: ref, typ: ft}
}

func (u *Unit) indexAddr(st *State, w *walk, x *ssa.IndexAddr) Val {
	i := u.term(st, x.Index)
	switch t := x.X.Type().Underlying().(type) {
	case *types.Slice:
		s := u.term(st, x.X)
		u.oblige(st, w, "bounds", "slice index in range", x, And(Le(Int(0), i), Lt(i, SLen(s))))
		if isStruct(t.Elem()) {
			// the elements of a slice of structs lie one after the other
			ref := Add(SBase(s), Mul(Int(sizeOf(t.Elem())), Add(SOff(s), i)))
			st.assume(Lt(Int(0), ref))
			return ref
		}
		return &Addr{kind: 'E', h: heapE(t.Elem()), ref: SBase(s), idx: Add(SOff(s), i), typ: t.Elem()}
	case *types.Pointer:
		at := t.Elem().Underlying().(*types.Array)
		ref := u.term(st, x.X)
		u.oblige(st, w, "bounds", "array index in range", x, And(Le(Int(0), i), Lt(i, Int(at.Len()))))
		if isStruct(at.Elem()) {
			return Add(ref, Mul(Int(sizeOf(at.Elem())), i))
		}
		return &Addr{kind: 'E', h: heapE(at.Elem()), ref: ref, idx: i, typ: at.Elem()}
	}
	unsup("index address of %s", x.X.Type())
	return nil
}

func (u *Unit) newMap(st *State, mt *types.Map) *Term {
	ref := st.alloc
	st.alloc = Add(st.alloc, Int(1))
	d := heapD(mt)
	u.logWrite(d, ref)
	st.setHeap(d, Store(st.getHeap(d), ref, ConstArr(sortOf(mt.Key()), "Bool", False)))
	return ref
}

func (u *Unit) newSlice(st *State, elem types.Type, n, c *Term) *Term {
	ref := st.alloc
	st.alloc = Add(st.alloc, Int(1))
	h := heapE(elem)
	u.logWrite(h, ref)
	st.setHeap(h, Store(st.getHeap(h), ref, ConstArr("Int", sortOf(elem), zeroOf(elem))))
	return MkSlice(ref, Int(0), n, c)
}

func (u *Unit) mapUpdate(st *State, w *walk, mt *types.Map, m, k, v *Term, in ssa.Instruction) {
	u.oblige(st, w, "nil", "assignment to entry in nil map", in, Not(Eq(m, Int(0))))
	d, vv := heapD(mt), heapV(mt)
	u.logWrite(d, m)
	u.logWrite(vv, m)
	hd := st.getHeap(d)
	st.setHeap(d, Store(hd, m, domAdd(Select(hd, m), k)))
	hv := st.getHeap(vv)
	st.setHeap(vv, Store(hv, m, nameDef("mv", Store(Select(hv, m), k, v))))
}

func (u *Unit) mapDelete(st *State, mt *types.Map, m, k *Term) {
	d := heapD(mt)
	hd := st.getHeap(d)
	if m == Int(0) {
		return
	}
	u.logWrite(d, m)
	// deleting from a nil map is a no-op: the nil map's domain is empty already
	st.setHeap(d, Store(hd, m, domDel(Select(hd, m), k)))
}

func (u *Unit) lookup(st *State, w *walk, x *ssa.Lookup) {
	f := st.top()
	mt, ok := x.X.Type().Underlying().(*types.Map)
	if !ok {
		s, i := u.term(st, x.X), u.term(st, x.Index)
		u.oblige(st, w, "bounds", "string index in range", x, And(Le(Int(0), i), Lt(i, sLen(s))))
		f.env[x] = sAt(s, i)
		return
	}
	m, k := u.term(st, x.X), u.term(st, x.Index)
	in := Select(Select(st.getHeap(heapD(mt)), m), k)
	v := Ite(in, Select(Select(st.getHeap(heapV(mt)), m), k), zeroOf(mt.Elem()))
	if x.CommaOk {
		f.env[x] = Tuple{v, in}
	} else {
		f.env[x] = v
	}
}

func (u *Unit) nextIter(st *State, w *walk, x *ssa.Next, it *IterVal) []*State {
	done := st.clone()
	// one more element
	seenKey := "seen:" + it.id
	k := st.fresh("key", sortOf(it.mt.Key()))
	dom := Select(st.getHeap(heapD(it.mt)), it.m)
	seen := st.ghost[seenKey]
	st.assume(Select(dom, k))
	st.assume(Not(Select(seen, k)))
	st.assume(wfVal(it.mt.Key(), k, st.alloc))
	v := Select(Select(st.getHeap(heapV(it.mt)), it.m), k)
	st.assume(wfVal(it.mt.Elem(), v, st.alloc))
	u.logGhost(seenKey)
	st.ghost[seenKey] = nameDef("sn", Store(seen, k, True))
	u.logGhost("cur:" + it.id)
	st.ghost["cur:"+it.id] = k
	st.top().env[x] = Tuple{True, k, v}
	// exhausted
	dseen := done.ghost[seenKey]
	b := BV("ke?", sortOf(it.mt.Key()))
	ddom := Select(done.getHeap(heapD(it.mt)), it.m)
	done.assume(Forall([]*Term{b}, Implies(And(App("select", "Bool", ddom, b), Select(it.start, b)), App("select", "Bool", dseen, b)), []*Term{App("select", "Bool", ddom, b)}, []*Term{App("select", "Bool", dseen, b)}))
	// extensionality, for loops that do not change the map
	k0 := done.fresh("ext", sortOf(it.mt.Key()))
	done.assume(Or(Eq(dseen, it.start), Not(Eq(Select(dseen, k0), Select(it.start, k0)))))
	var zk, zv Val = zeroOf(it.mt.Key()), zeroOf(it.mt.Elem())
	done.top().env[x] = Tuple{False, zk, zv}
	return []*State{st, done}
}

func (u *Unit) sliceOp(st *State, w *walk, x *ssa.Slice) {
	f := st.top()
	lo := Int(0)
	if x.Low != nil {
		lo = u.term(st, x.Low)
	}
	switch t := x.X.Type().Underlying().(type) {
	case *types.Basic: // string
		s := u.term(st, x.X)
		hi := sLen(s)
		if x.High != nil {
			hi = u.term(st, x.High)
		}
		u.oblige(st, w, "bounds", "string slice bounds in range", x, And(Le(Int(0), lo), Le(lo, hi), Le(hi, sLen(s))))
		f.env[x] = sSub(s, lo, hi)
	case *types.Slice:
		s := u.term(st, x.X)
		hi := SLen(s)
		if x.High != nil {
			hi = u.term(st, x.High)
		}
		// stricter than Go (which allows up to the capacity): contents beyond
		// the length are not modelled
		u.oblige(st, w, "bounds", "slice bounds in range", x, And(Le(Int(0), lo), Le(lo, hi), Le(hi, SLen(s))))
		c := Sub(SCap(s), lo)
		if x.Max != nil {
			m := u.term(st, x.Max)
			u.oblige(st, w, "bounds", "slice max in range", x, And(Le(hi, m), Le(m, SCap(s))))
			c = Sub(m, lo)
		}
		f.env[x] = MkSlice(SBase(s), Add(SOff(s), lo), Sub(hi, lo), c)
		// slicing nil gives nil: base 0 stays 0, bounds force 0
	case *types.Pointer:
		at := t.Elem().Underlying().(*types.Array)
		ref := u.term(st, x.X)
		hi := Int(at.Len())
		if x.High != nil {
			hi = u.term(st, x.High)
		}
		u.oblige(st, w, "bounds", "array slice bounds in range", x, And(Le(Int(0), lo), Le(lo, hi), Le(hi, Int(at.Len()))))
		f.env[x] = MkSlice(ref, lo, Sub(hi, lo), Sub(Int(at.Len()), lo))
	default:
		unsup("slice of %s", x.X.Type())
	}
}

// appendOne / appendSlice
func (u *Unit) appendSlice(st *State, elem types.Type, s, t *Term, knownN int) *Term {
	h := heapE(elem)
	n := SLen(t)
	fits := Le(Add(SLen(s), n), SCap(s))
	newRef := st.alloc
	st.alloc = Add(st.alloc, Int(1))
	var base *Term
	if SCap(s) == Int(0) && n.Op == "int" {
		base = newRef
		if n == Int(0) {
			return s
		}
	} else {
		base = Ite(fits, SBase(s), newRef)
	}
	hp := st.getHeap(h)
	old := Select(hp, SBase(s))
	src := Select(hp, SBase(t))
	var arr *Term
	if knownN >= 0 {
		arr = old
		for i := 0; i < knownN; i++ {
			v := Select(src, Add(SOff(t), Int(int64(i))))
			arr = Store(arr, Add(SOff(s), SLen(s), Int(int64(i))), v)
		}
		if knownN > 1 {
			// chained stores at distinct indices
		}
	} else {
		// arr' : old below the end, t's elements after it
		arr = u.catArr(old, Add(SOff(s), SLen(s)), src, SOff(t), n)
	}
	arr = nameDef("ap", arr)
	// membership of the result
	mx := BV("mx?", sortOf(elem))
	memNew := memOf(arr, SOff(s), Add(SLen(s), n), mx)
	memOld := memOf(old, SOff(s), SLen(s), mx)
	var memAdd []*Term
	if knownN >= 0 {
		for i := 0; i < knownN; i++ {
			memAdd = append(memAdd, Eq(mx, Select(src, Add(SOff(t), Int(int64(i))))))
		}
	} else {
		memAdd = append(memAdd, memOf(src, SOff(t), n, mx))
	}
	if knownN != 0 {
		pats := [][]*Term{{memNew}}
		if memOld.Op != "false" {
			pats = append(pats, []*Term{memOld})
		}
		if knownN < 0 {
			pats = append(pats, memAdd)
		}
		st.assume(Forall([]*Term{mx}, Eq(memNew, Or(append(memAdd, memOld)...)), pats...))
	}
	nc := st.fresh("cap", "Int")
	newLen := Add(SLen(s), n)
	st.assume(Le(newLen, nc))
	capT := Ite(fits, SCap(s), nc)
	if base == newRef {
		capT = nc
	}
	// appending nothing leaves the slice as it is
	res := MkSlice(base, SOff(s), newLen, capT)
	if knownN < 0 {
		empty := Eq(n, Int(0))
		// with n = 0 Go returns s itself
		fits2 := Or(fits, empty)
		base = Ite(fits2, SBase(s), newRef)
		res = MkSlice(base, SOff(s), newLen, Ite(fits2, SCap(s), nc))
		u.logWrite(h, base)
		st.setHeap(h, Store(hp, base, arr))
		return res
	}
	u.logWrite(h, base)
	st.setHeap(h, Store(hp, base, arr))
	return res
}

// memOf: x occurs in arr at a position in [lo, lo+n)
func memOf(arr, lo, hi, x *Term) *Term {
	if hi == Int(0) {
		return False
	}
	nm := "mem:" + sortCode(x.Sort)
	r := UF(nm, "Bool", arr, lo, hi, x)
	d := decls[symOK(nm)]
	if d.Axioms == nil {
		A, X := BV("a?", arr.Sort), BV("x?", x.Sort)
		L, H, I := BV("l?", "Int"), BV("h?", "Int"), BV("i?", "Int")
		m := App(symOK(nm), "Bool", A, L, H, X)
		w := UF("memw:"+sortCode(x.Sort), "Int", A, L, H, X)
		sel := App("select", x.Sort, A, I)
		d.Axioms = []*Term{
			Forall([]*Term{A, L, H, X}, Implies(m, And(App("<=", "Bool", L, w), App("<", "Bool", w, App("+", "Int", L, H)), App("=", "Bool", App("select", x.Sort, A, w), X))), []*Term{m}),
			Forall([]*Term{A, L, H, X, I}, Implies(And(App("<=", "Bool", L, I), App("<", "Bool", I, App("+", "Int", L, H)), App("=", "Bool", sel, X)), m), []*Term{m, sel}),
		}
	}
	return r
}

// catArr: array equal to a below position p and to b[q..] from p for n
// elements (and to a elsewhere)
func (u *Unit) catArr(a, p, b, q, n *Term) *Term {
	nm := "acat:" + sortCode(a.Sort)
	r := UF(nm, a.Sort, a, p, b, q, n)
	d := decls[symOK(nm)]
	if d.Axioms == nil {
		A, B := BV("a?", a.Sort), BV("b?", a.Sort)
		P, Q, N, I := BV("p?", "Int"), BV("q?", "Int"), BV("n?", "Int"), BV("i?", "Int")
		app := App(symOK(nm), a.Sort, A, P, B, Q, N)
		_, vs := arrSorts(a.Sort)
		sel := App("select", vs, app, I)
		in := And(App("<=", "Bool", P, I), App("<", "Bool", I, App("+", "Int", P, N)))
		val := App("ite", vs, in, App("select", vs, B, App("+", "Int", Q, App("-", "Int", I, P))), App("select", vs, A, I))
		selB := App("select", vs, B, I)
		d.Axioms = []*Term{
			Forall([]*Term{A, P, B, Q, N, I}, Eq(sel, val), []*Term{sel}),
			// every source element has its place
			Forall([]*Term{A, P, B, Q, N, I}, Implies(And(App("<=", "Bool", Q, I), App("<", "Bool", I, App("+", "Int", Q, N))),
				App("=", "Bool", App("select", vs, app, App("+", "Int", P, App("-", "Int", I, Q))), selB)), []*Term{app, selB}),
			Forall([]*Term{A, P, B, Q, N, I}, Implies(App("<", "Bool", I, P), App("=", "Bool", sel, App("select", vs, A, I))), []*Term{app, App("select", vs, A, I)}),
		}
	}
	return r
}

func (u *Unit) binop(st *State, w *walk, x *ssa.BinOp) (bool, []*State) {
	f := st.top()
	xv, yv := u.val(st, x.X), u.val(st, x.Y)
	a, b := u.toTerm(st, xv, x.X.Type()), u.toTerm(st, yv, x.Y.Type())
	t := x.X.Type()
	srt := sortOf(t)
	switch x.Op {
	case token.EQL, token.NEQ:
		var e *Term
		if srt == "Slice" {
			// comparison with nil only
			if b == NilSlice {
				e = Eq(SBase(a), Int(0))
			} else {
				e = Eq(SBase(b), Int(0))
			}
		} else if srt == "Iface" && sortOf(x.Y.Type()) == "Iface" {
			if b == NilIface {
				e = Eq(ITag(a), Int(0))
			} else if a == NilIface {
				e = Eq(ITag(b), Int(0))
			} else {
				e = Eq(a, b)
			}
		} else {
			if a.Sort != b.Sort {
				unsup("comparison %s", x)
			}
			e = Eq(a, b)
		}
		if x.Op == token.NEQ {
			e = Not(e)
		}
		f.env[x] = e
		return true, nil
	}
	switch srt {
	case "Str":
		switch x.Op {
		case token.ADD:
			f.env[x] = sCat(a, b)
		case token.LSS:
			f.env[x] = sLt(a, b)
		case token.GTR:
			f.env[x] = sLt(b, a)
		case token.LEQ:
			f.env[x] = Not(sLt(b, a))
		case token.GEQ:
			f.env[x] = Not(sLt(a, b))
		default:
			unsup("string operator %s", x.Op)
		}
		return true, nil
	case "Flt":
		f.env[x] = UF("flt"+x.Op.String(), sortOf(x.Type()), a, b)
		return true, nil
	case "Bool":
		switch x.Op {
		case token.AND, token.LAND:
			f.env[x] = And(a, b)
		case token.OR, token.LOR:
			f.env[x] = Or(a, b)
		default:
			unsup("bool operator %s", x.Op)
		}
		return true, nil
	}
	if srt != "Int" {
		unsup("operator %s on %s", x.Op, srt)
	}
	var r *Term
	switch x.Op {
	case token.ADD:
		r = wrapInt(x.Type(), Add(a, b))
	case token.SUB:
		r = wrapInt(x.Type(), Sub(a, b))
	case token.MUL:
		r = wrapInt(x.Type(), Mul(a, b))
	case token.QUO:
		u.oblige(st, w, "div", "division by zero", x, Not(Eq(b, Int(0))))
		r = goDiv(a, b)
	case token.REM:
		u.oblige(st, w, "div", "division by zero", x, Not(Eq(b, Int(0))))
		r = Sub(a, Mul(b, goDiv(a, b)))
	case token.LSS:
		r = Lt(a, b)
	case token.LEQ:
		r = Le(a, b)
	case token.GTR:
		r = Lt(b, a)
	case token.GEQ:
		r = Le(b, a)
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		if av, ok := intVal(a); ok {
			if bv, ok2 := intVal(b); ok2 {
				switch x.Op {
				case token.AND:
					r = Int(av & bv)
				case token.OR:
					r = Int(av | bv)
				case token.XOR:
					r = Int(av ^ bv)
				case token.AND_NOT:
					r = Int(av &^ bv)
				}
				break
			}
		}
		r = UF("bit"+x.Op.String(), "Int", a, b)
		st.assume(wfVal(x.Type(), r, st.alloc))
	case token.SHL:
		if bv, ok := intVal(b); ok && bv >= 0 && bv < 62 {
			r = wrapInt(x.Type(), Mul(a, Int(1<<uint(bv))))
		} else {
			r = UF("shl", "Int", a, b)
			if isLit(a) {
				st.assume(Implies(And(Le(Int(0), a), Le(Int(0), b), Lt(b, Int(40))), Le(a, r)))
			}
		}
	case token.SHR:
		if bv, ok := intVal(b); ok && bv >= 0 && bv < 62 {
			r = App("div", "Int", a, Int(1<<uint(bv)))
		} else {
			r = UF("shr", "Int", a, b)
		}
	default:
		unsup("operator %s", x.Op)
	}
	f.env[x] = r
	return true, nil
}

func goDiv(a, b *Term) *Term {
	if av, ok := intVal(a); ok {
		if bv, ok2 := intVal(b); ok2 && bv != 0 {
			return Int(av / bv)
		}
	}
	// Go truncates toward zero
	pos := App("div", "Int", a, b)
	neg := Sub(Int(0), App("div", "Int", Sub(Int(0), a), b))
	return Ite(Le(Int(0), a), pos, neg)
}

// wrapInt: unsigned and small integer types wrap around; int and int64 are
// treated as mathematical integers (assumption, reported)
func wrapInt(t types.Type, v *Term) *Term {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return v
	}
	var bits uint
	switch b.Kind() {
	case types.Uint8:
		bits = 8
	case types.Uint16:
		bits = 16
	case types.Uint32:
		bits = 32
	case types.Uint64, types.Uint, types.Uintptr:
		bits = 64
	case types.Int8:
		return signedWrap(v, 8)
	case types.Int16:
		return signedWrap(v, 16)
	case types.Int32:
		return signedWrap(v, 32)
	default:
		return v
	}
	if n, ok := intVal(v); ok && n >= 0 && (bits >= 63 || n < 1<<bits) {
		return v
	}
	m := new(big.Int).Lsh(big.NewInt(1), bits)
	return App("mod", "Int", v, BigInt(m.String()))
}

func signedWrap(v *Term, bits uint) *Term {
	if n, ok := intVal(v); ok && n >= -(1<<(bits-1)) && n < 1<<(bits-1) {
		return v
	}
	h := Int(1 << (bits - 1))
	return Ite(And(Le(Sub(Int(0), h), v), Lt(v, h)), v, Sub(App("mod", "Int", Add(v, h), Int(1<<bits)), h))
}

func (u *Unit) unop(st *State, w *walk, x *ssa.UnOp) (bool, []*State) {
	f := st.top()
	switch x.Op {
	case token.MUL:
		v := u.load(st, w, u.val(st, x.X), x.Type(), x)
		if t, ok := v.(*Term); ok {
			if c, ok := closureTab[t]; ok {
				v = c
			}
		}
		f.env[x] = v
	case token.NOT:
		f.env[x] = Not(u.term(st, x.X))
	case token.SUB:
		if sortOf(x.Type()) == "Flt" {
			f.env[x] = UF("fltneg", "Flt", u.term(st, x.X))
		} else {
			f.env[x] = wrapInt(x.Type(), Sub(Int(0), u.term(st, x.X)))
		}
	case token.ARROW:
		return u.recv(st, w, x)
	case token.XOR:
		f.env[x] = Sub(Int(-1), u.term(st, x.X))
	default:
		unsup("unary %s", x.Op)
	}
	return true, nil
}

func (u *Unit) typeAssert(st *State, w *walk, x *ssa.TypeAssert) (bool, []*State) {
	f := st.top()
	i := u.term(st, x.X)
	var ok, v *Term
	if it, isI := x.AssertedType.Underlying().(*types.Interface); isI {
		if it.Empty() {
			ok = Not(Eq(ITag(i), Int(0)))
		} else {
			ok = u.tagImplements(ITag(i), it)
		}
		v = i
	} else {
		ok = Eq(ITag(i), Int(int64(u.P.tag(x.AssertedType))))
		v = u.unbox(x.AssertedType, i)
	}
	if !x.CommaOk {
		u.oblige(st, w, "typeassert", "type assertion holds", x, ok)
		f.env[x] = v
		return true, nil
	}
	if b, known := st.known(ok); known {
		if b {
			st.assume(wfVal(x.AssertedType, v, st.alloc))
			f.env[x] = Tuple{v, True}
		} else {
			f.env[x] = Tuple{zeroOf(x.AssertedType), False}
		}
		return true, nil
	}
	no := st.clone()
	st.assume(ok)
	st.assume(wfVal(x.AssertedType, v, st.alloc))
	f.env[x] = Tuple{v, True}
	no.assume(Not(ok))
	no.top().env[x] = Tuple{zeroOf(x.AssertedType), False}
	return false, []*State{st, no}
}

func (u *Unit) convert(st *State, w *walk, x *ssa.Convert) Val {
	from, to := x.X.Type().Underlying(), x.Type().Underlying()
	v := u.term(st, x.X)
	fb, fok := from.(*types.Basic)
	tb, tok := to.(*types.Basic)
	if fok && tok {
		fi, ti := fb.Info(), tb.Info()
		switch {
		case fi&types.IsInteger != 0 && ti&types.IsInteger != 0:
			return wrapInt(x.Type(), v)
		case fi&types.IsString != 0 && ti&types.IsString != 0:
			return v
		case fi&types.IsInteger != 0 && ti&types.IsString != 0:
			return UF("str_of_rune", "Str", v)
		default:
			return UF(fmt.Sprintf("conv:%s:%s", fb, tb), sortOf(x.Type()), v)
		}
	}
	if ts, ok := to.(*types.Slice); ok && fok && fb.Info()&types.IsString != 0 {
		el := ts.Elem().Underlying().(*types.Basic)
		return u.stringToSlice(st, v, ts.Elem(), el.Kind() == types.Uint8)
	}
	if fs, ok := from.(*types.Slice); ok && tok && tb.Info()&types.IsString != 0 {
		el := fs.Elem().Underlying().(*types.Basic)
		arr := Select(st.getHeap(heapE(fs.Elem())), SBase(v))
		return stringOfSlice(arr, SOff(v), SLen(v), el.Kind() == types.Uint8)
	}
	unsup("conversion %s", x)
	return nil
}

func sortStrings(xs []string) []string { sort.Strings(xs); return xs }
