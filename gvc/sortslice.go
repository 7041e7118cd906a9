package main

// sort.Slice and sort.SliceStable: the slice becomes a permutation of itself
// in the order of the comparison function. The function is executed
// symbolically at two arbitrary positions; what it returns must depend on the
// elements there alone and be a strict weak order of the slice's elements.

import (
	"go/types"
)

func init() {
	for _, n := range []string{"sort.Slice", "sort.SliceStable"} {
		stable := n == "sort.SliceStable"
		ext(n, func(c *callInfo) (bool, []*State) { return c.u.sortSliceBy(c, stable) })
	}
}

func (u *Unit) sortSliceBy(c *callInfo, stable bool) (bool, []*State) {
	st := c.st
	x := c.arg(0)
	tag, ok := intVal(ITag(x))
	if !ok || u.P.tagTypes[int(tag)] == nil {
		unsup("%s of a value of unknown type", c.name)
	}
	sl, ok := u.P.tagTypes[int(tag)].Underlying().(*types.Slice)
	if !ok {
		unsup("%s of a non-slice", c.name)
	}
	s := u.unbox(u.P.tagTypes[int(tag)], x)
	elem := sl.Elem()
	if isAgg(elem) {
		unsup("%s of %s", c.name, elem)
	}
	var cl *Closure
	switch f := c.args[1].(type) {
	case *Closure:
		cl = f
	case *Term:
		cl = closureTab[f]
	}
	if cl == nil {
		unsup("%s with an unknown comparison function", c.name)
	}
	h := heapE(elem)
	es := sortOf(elem)
	lo, hi := SOff(s), Add(SOff(s), SLen(s))
	in := func(x *Term) *Term { return And(Le(lo, x), Lt(x, hi)) }

	// the permutation
	hp := st.getHeap(h)
	arr, perm := u.permuted(st, elem, s)
	u.logWrite(h, SBase(s))
	st.setHeap(h, Store(hp, SBase(s), arr))

	// the comparison at two arbitrary positions
	run := st.clone()
	p, q := run.fresh("sortp", "Int"), run.fresh("sortq", "Int")
	mark := run.cnt
	run.assume(in(p))
	run.assume(in(q))
	run.brs = nil
	args := []Val{Sub(p, lo), Sub(q, lo)}
	if cl.recv != nil {
		args = append([]Val{cl.recv}, args...)
	}
	before := run.clone()
	u.push(run, cl.fn, args, cl.binds, nil)
	u.inlined[funcKey(cl.fn)] = true
	depth := len(run.frames)
	var alts []*Term
	sub := &walk{verify: c.w.verify, baseDepth: depth, onReturn: func(s2 *State, res []Val) {
		for hn, t := range s2.heap {
			if b, ok := before.heap[hn]; ok && b != t {
				unsup("the comparison function of %s has effects", c.name)
			}
		}
		r := u.toTerm(s2, res[0], types.Typ[types.Bool])
		alts = append(alts, And(append(append([]*Term{}, s2.brs...), r)...))
	}}
	u.explore(run, sub)
	body := Or(alts...)
	sp, sq := App("select", es, arr, p), App("select", es, arr, q)
	a0, b0 := Const("sorta?!"+es, es), Const("sortb?!"+es, es)
	body = Subst(body, map[*Term]*Term{sp: a0, sq: b0})
	if mentions(body, p) || mentions(body, q) || mentions(body, arr) {
		unsup("the comparison function of %s depends on more than the elements at its positions", c.name)
	}
	if maxCnt(body) >= mark {
		unsup("the comparison function of %s is not a function of the elements", c.name)
	}
	less := func(a, b *Term) *Term { return Subst(body, map[*Term]*Term{a0: a, b0: b}) }

	// a strict weak order of the elements
	if c.w.verify && u.infer == 0 {
		chk := st.clone()
		var e []*Term
		for i := 0; i < 3; i++ {
			k := chk.fresh("sortk", "Int")
			chk.assume(in(k))
			e = append(e, Select(arr, k))
		}
		a, b, d := e[0], e[1], e[2]
		ob := func(l string, g *Term) { u.oblige(chk, c.w, "order", l, c.in, g) }
		ob("irreflexive", Not(less(a, a)))
		ob("asymmetric", Not(And(less(a, b), less(b, a))))
		ob("transitive", Implies(And(less(a, b), less(b, d)), less(a, d)))
		eq := func(x, y *Term) *Term { return And(Not(less(x, y)), Not(less(y, x))) }
		ob("classes", Implies(And(eq(a, b), eq(b, d)), eq(a, d)))
	}
	i, j := BV("si?", "Int"), BV("sj?", "Int")
	sel := func(x *Term) *Term { return App("select", es, arr, x) }
	st.assume(Forall([]*Term{i, j}, Implies(And(in(i), in(j), Lt(i, j)), Not(less(sel(j), sel(i)))), []*Term{sel(i), sel(j)}))
	if stable {
		pi := func(x *Term) *Term { return App("select", "Int", perm, x) }
		st.assume(Forall([]*Term{i, j}, Implies(And(in(i), in(j), Lt(i, j), Not(less(sel(i), sel(j)))), Lt(pi(i), pi(j))), []*Term{sel(i), sel(j)}))
	}
	return c.ret()
}

func mentions(t, x *Term) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t == x {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.Args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}
