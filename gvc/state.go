package main

// Symbolic states.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Val interface{}

type Addr struct {
	kind byte // F, E, G
	h    *heapInfo
	ref  *Term
	idx  *Term
	g    *ssa.Global
	typ  types.Type // pointee
}

type Closure struct {
	fn    *ssa.Function
	binds []Val
	recv  Val // bound method closures
}

type Tuple []Val

type IterVal struct {
	id    string
	m     *Term
	mt    *types.Map
	start *Term // domain at start
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Val
	block  *ssa.BasicBlock
	idx    int
	prev   *ssa.BasicBlock
	defers []deferred
	call   ssa.Value // value in the caller receiving the result (nil: none)
	id     string
	after  func(st *State, res []Val) // continuation instead of call result
	ispan  bool

	unrolled map[*ssa.BasicBlock]int // iterations executed without an invariant
}

type deferred struct {
	fn   Val
	args []Val
	call *ssa.CallCommon
}

type activeLoop struct {
	frame      string
	header     *ssa.BasicBlock
	lp         *loopInfo
	invs       []candidate
	hv         *havocInfo
	entryCnt   int
	allocEntry *Term
	entry      *State
	decs       []*Term
}

type State struct {
	pc     []*Term
	heap   map[string]*Term
	alloc  *Term
	frames []*Frame
	ghost  map[string]*Term
	iters  []*IterVal
	cnt    int
	loops  []*activeLoop
	trace  []string
	calls  int
	brs    []*Term // the branches taken (recorded for comparison functions)
}

func (s *State) clone() *State {
	n := &State{pc: s.pc[:len(s.pc):len(s.pc)], alloc: s.alloc, cnt: s.cnt, calls: s.calls, brs: s.brs[:len(s.brs):len(s.brs)]}
	n.heap = make(map[string]*Term, len(s.heap))
	for k, v := range s.heap {
		n.heap[k] = v
	}
	n.ghost = make(map[string]*Term, len(s.ghost))
	for k, v := range s.ghost {
		n.ghost[k] = v
	}
	n.frames = make([]*Frame, len(s.frames))
	for i, f := range s.frames {
		g := *f
		g.env = make(map[ssa.Value]Val, len(f.env))
		for k, v := range f.env {
			g.env[k] = v
		}
		g.defers = f.defers[:len(f.defers):len(f.defers)]
		n.frames[i] = &g
	}
	n.iters = s.iters[:len(s.iters):len(s.iters)]
	n.loops = s.loops[:len(s.loops):len(s.loops)]
	n.trace = s.trace[:len(s.trace):len(s.trace)]
	return n
}

func (s *State) top() *Frame { return s.frames[len(s.frames)-1] }

func (s *State) assume(t *Term) {
	if t == True {
		return
	}
	for _, c := range conjuncts(t) {
		if c != True {
			s.pc = append(s.pc, c)
		}
	}
}

// conjuncts splits conjunctions, also below implications.
func conjuncts(t *Term) []*Term {
	switch t.Op {
	case "and":
		var out []*Term
		for _, a := range t.Args {
			out = append(out, conjuncts(a)...)
		}
		return out
	case "not":
		if o := t.Args[0]; o.Op == "or" {
			var out []*Term
			for _, a := range o.Args {
				out = append(out, conjuncts(Not(a))...)
			}
			return out
		}
	case "=>":
		cs := conjuncts(t.Args[1])
		if len(cs) == 1 {
			break
		}
		var out []*Term
		for _, c := range cs {
			out = append(out, Implies(t.Args[0], c))
		}
		return out
	}
	return []*Term{t}
}

func (s *State) dead() bool {
	for _, p := range s.pc {
		if p == False {
			return true
		}
	}
	return false
}

// known tells whether the path condition syntactically decides c.
func (s *State) known(c *Term) (bool, bool) {
	if c == True {
		return true, true
	}
	if c == False {
		return false, true
	}
	n := Not(c)
	for _, p := range s.pc {
		if p == c {
			return true, true
		}
		if p == n {
			return false, true
		}
	}
	return false, false
}

var constCnt = map[*Term]int{} // creation index of fresh constants
var allocConsts = map[*Term]bool{}

func sortCode(s string) string {
	return strings.NewReplacer(" ", "", "(", "<", ")", ">", "|", "").Replace(s)
}

// fresh makes a constant named by the state's own counter.
func (s *State) fresh(prefix, srt string) *Term {
	s.cnt++
	c := Const(fmt.Sprintf("%s!%d!%s", prefix, s.cnt, sortCode(srt)), srt)
	constCnt[c] = s.cnt
	return c
}

func (s *State) freshAlloc() *Term {
	a := s.fresh("alloc", "Int")
	allocConsts[a] = true
	return a
}

var maxCntMemo = map[*Term]int{}

// maxCnt: largest creation index of a constant the term depends on
func maxCnt(t *Term) int {
	if n, ok := maxCntMemo[t]; ok {
		return n
	}
	n := 0
	if c, ok := constCnt[t]; ok {
		n = c
	}
	if d, ok := constDefs[t]; ok {
		if m := maxCnt(d); m > n {
			n = m
		}
	}
	for _, a := range t.Args {
		if m := maxCnt(a); m > n {
			n = m
		}
	}
	maxCntMemo[t] = n
	return n
}

// nameDef gives a closed term a name (passive form).
func nameDef(prefix string, t *Term, extra ...func(c *Term) *Term) *Term {
	if len(t.Args) == 0 || t.hasBV {
		return t
	}
	n := symOK(fmt.Sprintf("%s.%d", prefix, t.id))
	if d, ok := decls[n]; ok {
		_ = d
		return Const(n, t.Sort)
	}
	c := Const(n, t.Sort)
	c.h = mix(hashStr(prefix), t.h)
	constDefs[c] = t
	ax := []*Term{App("=", "Bool", c, t)}
	for _, e := range extra {
		ax = append(ax, e(c))
	}
	decls[n].Axioms = ax
	return c
}

// ---- heap ----

func (s *State) getHeap(h *heapInfo) *Term {
	if t, ok := s.heap[h.name]; ok {
		return t
	}
	t := initialHeap(h)
	s.heap[h.name] = t
	return t
}

var alloc0 = func() *Term { a := Const("alloc0", "Int"); allocConsts[a] = true; return a }()

func initialHeap(h *heapInfo) *Term {
	n := "H0:" + h.name
	if _, ok := decls[symOK(n)]; ok {
		return Const(n, h.sort)
	}
	c := Const(n, h.sort)
	decls[symOK(n)].Axioms = heapWF(h, c, alloc0)
	return c
}

// freshHeap: a havoced version of a heap, well-formed below alloc
func (s *State) freshHeap(h *heapInfo, alloc *Term) *Term {
	s.cnt++
	n := fmt.Sprintf("H:%s!%d!a%d", h.name, s.cnt, alloc.id)
	c := Const(n, h.sort)
	constCnt[c] = s.cnt
	d := decls[symOK(n)]
	if d.Axioms == nil {
		d.Axioms = heapWF(h, c, alloc)
	}
	return c
}

func heapWF(h *heapInfo, c, alloc *Term) []*Term {
	r := BV("r?", "Int")
	var out []*Term
	switch h.kind {
	case 'F', 'C':
		sel := App("select", sortOf(h.typ), c, r)
		if f := wfVal(h.typ, sel, alloc); f != True {
			out = append(out, Forall([]*Term{r}, f, []*Term{sel}))
		}
	case 'E':
		_, inner := arrSorts(h.sort)
		i := BV("i?", "Int")
		sel := App("select", sortOf(h.typ), App("select", inner, c, r), i)
		if f := wfVal(h.typ, sel, alloc); f != True {
			out = append(out, Forall([]*Term{r, i}, f, []*Term{sel}))
		}
	case 'V':
		_, inner := arrSorts(h.sort)
		k := BV("k?", sortOf(h.key))
		sel := App("select", sortOf(h.typ), App("select", inner, c, r), k)
		if f := wfVal(h.typ, sel, alloc); f != True {
			out = append(out, Forall([]*Term{r, k}, f, []*Term{sel}))
		}
	case 'D':
		_, inner := arrSorts(h.sort)
		ks, vs := arrSorts(inner)
		out = append(out, App("=", "Bool", App("select", inner, c, Int(0)), ConstArr(ks, vs, False)))
	}
	return out
}

func wfRef(t, alloc *Term, size int64) *Term {
	if size <= 1 {
		return And(Le(Int(0), t), Lt(t, alloc))
	}
	return Or(Eq(t, Int(0)), And(Le(Int(1), t), Le(Add(t, Int(size)), alloc)))
}

// wfVal: facts every value of a type satisfies
func wfVal(t types.Type, v *Term, alloc *Term) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Uint8:
			return And(Le(Int(0), v), Le(v, Int(255)))
		case types.Uint16:
			return And(Le(Int(0), v), Le(v, Int(65535)))
		case types.Uint32:
			return And(Le(Int(0), v), Le(v, Int(4294967295)))
		case types.Int32:
			return And(Le(Int(-2147483648), v), Le(v, Int(2147483647)))
		case types.Uint, types.Uint64, types.Uintptr:
			return Le(Int(0), v)
		}
	case *types.Pointer:
		return wfRef(v, alloc, sizeOf(u.Elem()))
	case *types.Map, *types.Chan:
		return And(Le(Int(0), v), Lt(v, alloc))
	case *types.Slice:
		return And(Le(Int(0), SOff(v)), Le(Int(0), SLen(v)), Le(SLen(v), SCap(v)), Le(Int(0), SBase(v)), Lt(SBase(v), alloc),
			Implies(Eq(SBase(v), Int(0)), And(Eq(SLen(v), Int(0)), Eq(SCap(v), Int(0)), Eq(SOff(v), Int(0)))))
	case *types.Interface:
		return And(Le(Int(0), ITag(v)), Implies(Eq(ITag(v), Int(0)), Eq(IVal(v), Int(0))),
			Implies(Lt(Int(ptrTags), ITag(v)), And(Le(Int(0), IVal(v)), Lt(IVal(v), alloc))))
	case *types.Struct:
		if u.NumFields() == 0 {
			return True
		}
		s := structSort(t)
		var cs []*Term
		for i := 0; i < u.NumFields(); i++ {
			cs = append(cs, wfVal(u.Field(i).Type(), Acc(datatypes[s].Fields[i], datatypes[s].Sorts[i], v), alloc))
		}
		return And(cs...)
	}
	return True
}

func (s *State) setHeap(h *heapInfo, t *Term) {
	if t.Op == "store" {
		t = nameDef("d", t)
	}
	s.heap[h.name] = t
}

// ---- map domains / cardinality ----

func card(dom *Term) *Term {
	ks, _ := arrSorts(dom.Sort)
	n := symOK("card:" + ks)
	if _, ok := decls[n]; !ok {
		d := declare(n, "Int", dom.Sort)
		w := symOK("cardwit:" + ks)
		declare(w, ks, dom.Sort)
		D := BV("D?", dom.Sort)
		k := BV("k?", ks)
		cd := App(n, "Int", D)
		d.Axioms = []*Term{
			Forall([]*Term{D}, And(Le(Int(0), cd), Implies(Lt(Int(0), cd), App("select", "Bool", D, App(w, ks, D)))), []*Term{cd}),
			Forall([]*Term{D, k}, Implies(App("select", "Bool", D, k), Lt(Int(0), cd)), []*Term{cd, App("select", "Bool", D, k)}),
			App("=", "Bool", App(n, "Int", ConstArr(ks, "Bool", False)), Int(0)),
		}
		in := App("select", "Bool", D, k)
		sa, sd := App("store", dom.Sort, D, k, True), App("store", dom.Sort, D, k, False)
		d.Axioms = append(d.Axioms,
			Forall([]*Term{D, k}, Eq(App(n, "Int", sa), Add(cd, Ite(in, Int(0), Int(1)))), []*Term{App(n, "Int", sa)}),
			Forall([]*Term{D, k}, Eq(App(n, "Int", sd), Sub(cd, Ite(in, Int(1), Int(0)))), []*Term{App(n, "Int", sd)}))
	}
	if strings.HasPrefix(dom.Op, "(as const") {
		return Int(0)
	}
	return App(n, "Int", dom)
}

// uniOf: the set s and the elements a[o..o+n)
func uniOf(s, a, o, n *Term) *Term {
	ks, _ := arrSorts(s.Sort)
	nm := "uni:" + sortCode(ks)
	r := UF(nm, s.Sort, s, a, o, n)
	d := decls[symOK(nm)]
	if d.Axioms == nil {
		S, A, O, N, M, X := BV("s?", s.Sort), BV("a?", a.Sort), BV("o?", "Int"), BV("n?", "Int"), BV("m?", "Int"), BV("x?", ks)
		u := App(symOK(nm), s.Sort, S, A, O, N)
		um := App(symOK(nm), s.Sort, S, A, O, M)
		in := App("select", "Bool", u, X)
		mem := memOf(A, O, N, X)
		last := App("select", ks, A, App("+", "Int", O, N))
		d.Axioms = []*Term{
			Forall([]*Term{S, A, O, N, X}, Eq(in, Or(App("select", "Bool", S, X), mem)), []*Term{in}, []*Term{u, mem}, []*Term{u, App("select", "Bool", S, X)}),
			Forall([]*Term{S, A, O, N}, Implies(Le(N, Int(0)), App("=", "Bool", u, S)), []*Term{u}),
			Forall([]*Term{S, A, O, N, M}, Implies(And(Le(Int(0), N), App("=", "Bool", M, App("+", "Int", N, Int(1)))),
				And(App("=", "Bool", um, App("store", s.Sort, u, last, True)),
					App("=", "Bool", card(um), Add(card(u), Ite(App("select", "Bool", u, last), Int(0), Int(1)))))), []*Term{u, um}),
		}
		// n distinct elements, none of them in s: n more
		w1, w2 := UF("uniw1:"+sortCode(ks), "Int", S, A, O, N), UF("uniw2:"+sortCode(ks), "Int", S, A, O, N)
		at := func(i *Term) *Term { return App("select", ks, A, i) }
		rng := func(i *Term) *Term { return And(Le(O, i), Lt(i, App("+", "Int", O, N))) }
		d.Axioms = append(d.Axioms, Forall([]*Term{S, A, O, N}, Implies(Le(Int(0), N), Or(
			App("=", "Bool", card(u), App("+", "Int", card(S), N)),
			And(rng(w1), App("select", "Bool", S, at(w1))),
			And(rng(w1), rng(w2), Lt(w1, w2), App("=", "Bool", at(w1), at(w2))))), []*Term{card(u)}))
	}
	return r
}

// countOf: how many of the positions lo..hi-1 of a hold members of s
func countOf(s, a, lo, hi *Term) *Term {
	ks, _ := arrSorts(s.Sort)
	nm := "count:" + sortCode(ks)
	r := UF(nm, "Int", s, a, lo, hi)
	d := decls[symOK(nm)]
	if d.Axioms == nil {
		S, A, L, H, M := BV("s?", s.Sort), BV("a?", a.Sort), BV("l?", "Int"), BV("h?", "Int"), BV("m?", "Int")
		u := App(symOK(nm), "Int", S, A, L, H)
		um := App(symOK(nm), "Int", S, A, L, M)
		at := App("select", ks, A, H)
		step := func(x *Term) *Term {
			return App("=", "Bool", x, Add(u, Ite(App("select", "Bool", S, at), Int(1), Int(0))))
		}
		d.Axioms = []*Term{
			Forall([]*Term{S, A, L, H}, And(Implies(Le(H, L), Eq(u, Int(0))), Implies(Le(L, H), And(Le(Int(0), u), Le(u, Sub(H, L))))), []*Term{u}),
			Forall([]*Term{S, A, L, H, M}, Implies(And(Le(L, H), App("=", "Bool", M, App("+", "Int", H, Int(1)))), step(um)), []*Term{u, um}),
			Forall([]*Term{S, A, L, H}, Implies(Le(L, H), step(App(symOK(nm), "Int", S, A, L, Add(H, Int(1))))), []*Term{u, at}),
		}
	}
	return r
}

// minusOf: the members of a that are not in b
func minusOf(a, b *Term) *Term {
	ks, _ := arrSorts(a.Sort)
	nm := "minus:" + sortCode(ks)
	r := UF(nm, a.Sort, a, b)
	d := decls[symOK(nm)]
	if d.Axioms == nil {
		A, B, K := BV("a?", a.Sort), BV("b?", a.Sort), BV("k?", ks)
		u := App(symOK(nm), a.Sort, A, B)
		inA, inB := App("select", "Bool", A, K), App("select", "Bool", B, K)
		as := App("store", a.Sort, A, K, True)
		ua := App(symOK(nm), a.Sort, as, B)
		d.Axioms = []*Term{
			Forall([]*Term{A, B, K}, Eq(App("select", "Bool", u, K), And(inA, Not(inB))), []*Term{App("select", "Bool", u, K)}, []*Term{u, inA}),
			Forall([]*Term{A, B, K}, App("=", "Bool", ua, Ite(inB, u, App("store", a.Sort, u, K, True))), []*Term{ua}),
			Forall([]*Term{A, B}, Implies(App("=", "Bool", A, ConstArr(ks, "Bool", False)), App("=", "Bool", u, A)), []*Term{u}),
		}
	}
	return r
}

func domAdd(dom, k *Term) *Term {
	t := Store(dom, k, True)
	return nameDef("dm", t, func(c *Term) *Term {
		return Eq(card(c), Add(card(dom), Ite(Select(dom, k), Int(0), Int(1))))
	})
}
func domDel(dom, k *Term) *Term {
	t := Store(dom, k, False)
	return nameDef("dm", t, func(c *Term) *Term {
		return Eq(card(c), Sub(card(dom), Ite(Select(dom, k), Int(1), Int(0))))
	})
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
