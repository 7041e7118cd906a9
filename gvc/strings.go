package main

import "go/types"

// String functions: abstract (axiomatised) and native (SMT strings) readings.
// A Go string is a sequence of bytes; in native mode bytes are SMT characters.

func strInit() {
	s, t, v := BV("s?", "Str"), BV("t?", "Str"), BV("v?", "Str")
	i := BV("i?", "Int")
	j := BV("j?", "Int")
	declare("s_len", "Int", "Str")
	declare("s_at", "Int", "Str", "Int")
	declare("s_cat", "Str", "Str", "Str")
	declare("s_sub", "Str", "Str", "Int", "Int")
	declare("s_lt", "Bool", "Str", "Str")
	ln := func(x *Term) *Term { return App("s_len", "Int", x) }
	at := func(x, i *Term) *Term { return App("s_at", "Int", x, i) }
	lt := func(x, y *Term) *Term { return App("s_lt", "Bool", x, y) }
	cat := App("s_cat", "Str", s, t)
	sub := App("s_sub", "Str", s, i, j)
	decls["s_len"].Axioms = []*Term{
		Forall([]*Term{s}, And(Le(Int(0), ln(s)), App("=", "Bool", Eq(ln(s), Int(0)), Eq(s, StrLit("")))), []*Term{ln(s)}),
	}
	decls["s_at"].Axioms = []*Term{
		Forall([]*Term{s, i}, And(Le(Int(0), at(s, i)), Le(at(s, i), Int(255))), []*Term{at(s, i)}),
	}
	k, l := BV("k?", "Int"), BV("l?", "Int")
	decls["s_cat"].Axioms = []*Term{
		Forall([]*Term{s, t}, And(Eq(ln(cat), Add(ln(s), ln(t))), Implies(Eq(s, StrLit("")), Eq(cat, t)), Implies(Eq(t, StrLit("")), Eq(cat, s))), []*Term{cat}),
		Forall([]*Term{s, t, k}, And(Implies(And(Le(Int(0), k), Lt(k, ln(s))), Eq(at(cat, k), at(s, k))),
			Implies(And(Le(ln(s), k), Lt(k, Add(ln(s), ln(t)))), Eq(at(cat, k), at(t, Sub(k, ln(s)))))), []*Term{at(cat, k)}),
	}
	decls["s_sub"].Axioms = []*Term{
		Forall([]*Term{s, i, j}, Implies(And(Le(Int(0), i), Le(i, j), Le(j, ln(s))), And(Eq(ln(sub), Sub(j, i)), Implies(And(Eq(i, Int(0)), Eq(j, ln(s))), Eq(sub, s)))), []*Term{sub}),
		Forall([]*Term{s, i, j, k}, Implies(And(Le(Int(0), i), Le(i, j), Le(j, ln(s)), Le(Int(0), k), Lt(k, Sub(j, i))), Eq(at(sub, k), at(s, Add(i, k)))), []*Term{at(sub, k)}),
	}
	decls["s_lt"].Axioms = []*Term{
		Forall([]*Term{s, t}, Implies(lt(s, t), And(Not(lt(t, s)), Not(Eq(s, t)))), []*Term{lt(s, t)}),
		Forall([]*Term{s, t}, Or(lt(s, t), lt(t, s), Eq(s, t)), []*Term{lt(s, t)}),
		Forall([]*Term{s, t, v}, Implies(And(lt(s, t), lt(t, v)), lt(s, v)), []*Term{lt(s, t), lt(t, v)}),
		// negated form, for sortedness stated as not (b < a)
		Forall([]*Term{s, t, v}, Implies(And(Not(lt(t, s)), Not(lt(v, t))), Not(lt(v, s))), []*Term{lt(t, s), lt(v, t)}),
	}
	nativeDefs["s_len"] = "(define-fun s_len ((s String)) Int (str.len s))"
	nativeDefs["s_at"] = "(define-fun s_at ((s String) (i Int)) Int (str.to_code (str.at s i)))"
	nativeDefs["s_cat"] = "(define-fun s_cat ((s String) (t String)) String (str.++ s t))"
	nativeDefs["s_sub"] = "(define-fun s_sub ((s String) (i Int) (j Int)) String (str.substr s i (- j i)))"
	nativeDefs["s_lt"] = "(define-fun s_lt ((s String) (t String)) Bool (str.< s t))"

	declare("s_prefix", "Bool", "Str", "Str") // s_prefix(p, s)
	declare("s_suffix", "Bool", "Str", "Str")
	declare("s_contains", "Bool", "Str", "Str") // (s, sub)
	declare("s_index", "Int", "Str", "Str")
	declare("s_indexfrom", "Int", "Str", "Str", "Int")
	declare("s_replaceall", "Str", "Str", "Str", "Str")
	nativeDefs["s_prefix"] = "(define-fun s_prefix ((p String) (s String)) Bool (str.prefixof p s))"
	nativeDefs["s_suffix"] = "(define-fun s_suffix ((p String) (s String)) Bool (str.suffixof p s))"
	nativeDefs["s_contains"] = "(define-fun s_contains ((s String) (t String)) Bool (str.contains s t))"
	nativeDefs["s_index"] = "(define-fun s_index ((s String) (t String)) Int (str.indexof s t 0))"
	nativeDefs["s_indexfrom"] = "(define-fun s_indexfrom ((s String) (t String) (i Int)) Int (str.indexof s t i))"
	nativeDefs["s_replaceall"] = "(define-fun s_replaceall ((s String) (a String) (b String)) String (str.replace_all s a b))"
	idx := App("s_index", "Int", s, t)
	decls["s_index"].Axioms = []*Term{
		Forall([]*Term{s, t}, And(Le(Int(-1), idx), Implies(Le(Int(0), idx), Le(Add(idx, ln(t)), ln(s)))), []*Term{idx}),
	}
	con := App("s_contains", "Bool", s, t)
	decls["s_contains"].Axioms = append(decls["s_contains"].Axioms, Forall([]*Term{s, t}, Eq(con, Le(Int(0), idx)), []*Term{con}))
	declare("s_indexbyte", "Int", "Str", "Int")
	nativeDefs["s_indexbyte"] = "(define-fun s_indexbyte ((s String) (c Int)) Int (str.indexof s (str.from_code c) 0))"
	ib := App("s_indexbyte", "Int", s, i)
	decls["s_indexbyte"].Axioms = []*Term{
		// a part of a part
		Forall([]*Term{s, i, j, k, l}, Implies(And(Le(Int(0), i), Le(i, j), Le(j, ln(s)), Le(Int(0), k), Le(k, l), Le(l, Sub(j, i))), Eq(App("s_sub", "Str", sub, k, l), App("s_sub", "Str", s, Add(i, k), Add(i, l)))), []*Term{App("s_sub", "Str", sub, k, l)}),
		Forall([]*Term{s, i}, And(Le(Int(-1), ib), Lt(ib, ln(s)), Implies(Le(Int(0), ib), Eq(at(s, ib), i))), []*Term{ib}),
		Forall([]*Term{s, i, j}, Implies(And(Le(Int(0), j), Lt(j, ln(s)), Or(Eq(ib, Int(-1)), Lt(j, ib))), Not(Eq(at(s, j), i))), []*Term{ib, at(s, j)}),
		// the same for a part of a string, in terms of the whole
		Forall([]*Term{s, i, j, k, l}, Implies(And(Le(Int(0), i), Le(i, l), Lt(l, j), Le(j, ln(s)),
			Or(Eq(App("s_indexbyte", "Int", sub, k), Int(-1)), Lt(Sub(l, i), App("s_indexbyte", "Int", sub, k)))), Not(Eq(at(s, l), k))),
			[]*Term{App("s_indexbyte", "Int", sub, k), at(s, l)}),
	}
	pre := App("s_prefix", "Bool", t, s)
	decls["s_prefix"].Axioms = []*Term{
		Forall([]*Term{s, t}, Implies(pre, Le(ln(t), ln(s))), []*Term{pre}),
		Forall([]*Term{s, t}, App("s_prefix", "Bool", s, cat), []*Term{App("s_prefix", "Bool", s, cat)}),
		Forall([]*Term{s}, App("s_prefix", "Bool", s, s), []*Term{App("s_prefix", "Bool", s, s)}),
	}
}

func init() { strInit() }

func sLen(s *Term) *Term {
	if s.Op == "strlit" {
		return Int(int64(len(s.Name)))
	}
	if s.Op == "s_cat" {
		return Add(sLen(s.Args[0]), sLen(s.Args[1]))
	}
	return App("s_len", "Int", s)
}
func sAt(s, i *Term) *Term {
	if n, ok := intVal(i); ok && s.Op == "strlit" && n >= 0 && int(n) < len(s.Name) {
		return Int(int64(s.Name[n]))
	}
	return App("s_at", "Int", s, i)
}
func sSub(s, i, j *Term) *Term {
	if i == Int(0) && j == sLen(s) {
		return s
	}
	if s.Op == "strlit" {
		a, ok1 := intVal(i)
		b, ok2 := intVal(j)
		if ok1 && ok2 && 0 <= a && a <= b && int(b) <= len(s.Name) {
			return StrLit(s.Name[a:b])
		}
	}
	return App("s_sub", "Str", s, i, j)
}

// sCat is kept right-associated so that equal concatenations are equal terms.
func sCat(a, b *Term) *Term {
	if a == StrLit("") {
		return b
	}
	if b == StrLit("") {
		return a
	}
	if a.Op == "strlit" && b.Op == "strlit" {
		return StrLit(a.Name + b.Name)
	}
	if a.Op == "s_cat" {
		return sCat(a.Args[0], sCat(a.Args[1], b))
	}
	if a.Op == "strlit" && b.Op == "s_cat" && b.Args[0].Op == "strlit" {
		return sCat(StrLit(a.Name+b.Args[0].Name), b.Args[1])
	}
	return App("s_cat", "Str", a, b)
}
func sLt(a, b *Term) *Term {
	if a == b {
		return False
	}
	if a.Op == "strlit" && b.Op == "strlit" {
		return BoolT(a.Name < b.Name)
	}
	return App("s_lt", "Bool", a, b)
}

// stringToSlice: []byte(s) / []rune(s)
func (u *Unit) stringToSlice(st *State, s *Term, elem types.Type, bytes bool) *Term {
	ref := st.alloc
	st.alloc = Add(st.alloc, Int(1))
	h := heapE(elem)
	u.logWrite(h, ref)
	pfx := "rune"
	if bytes {
		pfx = "byte"
	}
	n := seqLen(pfx, s)
	st.setHeap(h, Store(st.getHeap(h), ref, seqArr(pfx, s)))
	c := st.fresh("cap", "Int")
	st.assume(Le(n, c))
	return MkSlice(ref, Int(0), n, c)
}

func seqDecls(pfx string) {
	if _, ok := decls[pfx+"s_len"]; ok {
		return
	}
	ia := ArrSort("Int", "Int")
	declare(pfx+"s_len", "Int", "Str")
	declare(pfx+"s_of", ia, "Str")
	declare("str_of_"+pfx+"s", "Str", ia, "Int", "Int")
	s, t := BV("s?", "Str"), BV("t?", "Str")
	i, o, n := BV("i?", "Int"), BV("o?", "Int"), BV("n?", "Int")
	a := BV("a?", ia)
	ln := func(x *Term) *Term { return App(pfx+"s_len", "Int", x) }
	at := func(x, i *Term) *Term { return App("select", "Int", App(pfx+"s_of", ia, x), i) }
	mk := App("str_of_"+pfx+"s", "Str", a, o, n)
	validV := func(v *Term) *Term {
		if pfx == "byte" {
			return And(Le(Int(0), v), Le(v, Int(255)))
		}
		return Or(And(Le(Int(0), v), Lt(v, Int(0xD800))), And(Le(Int(0xE000), v), Le(v, Int(0x10FFFF))))
	}
	bad := Int(0xFFFD)
	if pfx == "byte" {
		bad = Int(0)
	}
	sel := App("select", "Int", a, Add(o, i))
	norm := Ite(validV(sel), sel, bad)
	if pfx == "byte" {
		norm = sel
	}
	decls[pfx+"s_len"].Axioms = []*Term{
		Forall([]*Term{s}, And(Le(Int(0), ln(s)), App("=", "Bool", Eq(ln(s), Int(0)), Eq(s, StrLit("")))), []*Term{ln(s)}),
	}
	decls[pfx+"s_of"].Axioms = []*Term{
		Forall([]*Term{s, i}, Implies(And(Le(Int(0), i), Lt(i, ln(s))), validV(at(s, i))), []*Term{at(s, i)}),
	}
	decls["str_of_"+pfx+"s"].Axioms = []*Term{
		Forall([]*Term{a, o, n}, Implies(Le(Int(0), n), Eq(ln(mk), n)), []*Term{mk}),
		Forall([]*Term{a, o, n, i}, Implies(And(Le(Int(0), i), Lt(i, n)), Eq(at(mk, i), norm)), []*Term{at(mk, i)}),
	}
	if pfx == "byte" {
		whole := App("str_of_bytes", "Str", App("bytes_of", ia, s), Int(0), n)
		decls["str_of_bytes"].Axioms = append(decls["str_of_bytes"].Axioms,
			Forall([]*Term{s, n}, Implies(Eq(n, ln(s)), Eq(whole, s)), []*Term{whole}))
	}
	_ = t
}

func seqLen(pfx string, s *Term) *Term {
	seqDecls(pfx)
	if s.Op == "strlit" {
		if pfx == "byte" {
			return Int(int64(len(s.Name)))
		}
		return Int(int64(len([]rune(s.Name))))
	}
	return App(pfx+"s_len", "Int", s)
}

func seqArr(pfx string, s *Term) *Term {
	seqDecls(pfx)
	return App(pfx+"s_of", ArrSort("Int", "Int"), s)
}

func stringOfSlice(arr, off, n *Term, bytes bool) *Term {
	pfx := "rune"
	if bytes {
		pfx = "byte"
	}
	seqDecls(pfx)
	if bytes && arr.Op == "bytes_of" && len(arr.Args) == 1 {
		if o, ok := intVal(off); ok && o == 0 && n == seqLen(pfx, arr.Args[0]) {
			return arr.Args[0]
		}
	}
	return App("str_of_"+pfx+"s", "Str", arr, off, n)
}
