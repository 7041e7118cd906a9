package main

// Models of external functions.

import (
	"fmt"
	"go/types"
	"strings"
)

func ext(name string, run func(c *callInfo) (bool, []*State), writes ...string) {
	externs[name] = &externHandler{run: run, writes: writes}
}

// newError: a fresh non-nil error value carrying a message term
func (c *callInfo) newError(kind string, msg *Term) *Term {
	t := c.st.alloc
	c.st.alloc = Add(c.st.alloc, Int(1))
	e := MkIface(Int(int64(c.u.P.tagNamed("ext:*"+kind))), t)
	if msg != nil {
		c.st.assume(Eq(UF("errmsg", "Str", e), msg))
	}
	return e
}

// tagNamed: tag of an external type known only by name
func (P *Program) tagNamed(n string) int {
	if k, ok := P.tags[n]; ok {
		return k
	}
	k := len(P.tags) + 1
	P.tags[n] = k
	P.setTagType(k, types.Universe.Lookup("error").Type())
	return k
}

func init() {
	ext("errors.New", func(c *callInfo) (bool, []*State) {
		return c.ret(c.newError("errors.errorString", c.arg(0)))
	})
	ext("fmt.Errorf", func(c *callInfo) (bool, []*State) {
		return c.ret(c.newError("fmt.wrapError", c.sprintf(c.arg(0), c.arg(1))))
	})
	ext("fmt.Sprintf", func(c *callInfo) (bool, []*State) {
		return c.ret(c.sprintf(c.arg(0), c.arg(1)))
	})
	ext("(error).Error", func(c *callInfo) (bool, []*State) {
		return c.ret(UF("errmsg", "Str", c.arg(0)))
	})
	for _, n := range []string{"strings.HasPrefix", "strings.HasSuffix", "strings.Contains", "strings.Index", "strings.ReplaceAll"} {
		n := n
		ext(n, func(c *callInfo) (bool, []*State) {
			var ts []*Term
			for i := range c.args {
				ts = append(ts, c.arg(i))
			}
			return c.ret(c.u.pureExtern(n, 0, c.sig.Results().At(0).Type(), ts))
		})
	}
	for _, n := range []string{"strings.IndexRune", "strings.IndexByte"} {
		n := n
		ext(n, func(c *callInfo) (bool, []*State) {
			if v, ok := intVal(c.arg(1)); ok && 0 <= v && v < 128 {
				return c.ret(App("s_indexbyte", "Int", c.arg(0), c.arg(1)))
			}
			return c.ret(c.u.pureExtern(n, 0, c.sig.Results().At(0).Type(), []*Term{c.arg(0), c.arg(1)}))
		})
	}
	ext("strings.Replace", func(c *callInfo) (bool, []*State) {
		if c.arg(3) == Int(-1) {
			return c.ret(App("s_replaceall", "Str", c.arg(0), c.arg(1), c.arg(2)))
		}
		return c.u.genericExtern(c)
	})
	ext("sort.Strings", func(c *callInfo) (bool, []*State) {
		s := c.arg(0)
		c.u.sortSlice(c.st, types.Typ[types.String], s, func(a, b *Term) *Term { return sLt(a, b) })
		return c.ret()
	}, "E|string")
}

// sortSlice: contents become a permutation of the old contents, sorted by less
// (a strict weak order).
func (u *Unit) sortSlice(st *State, elem types.Type, s *Term, less func(a, b *Term) *Term) {
	h := heapE(elem)
	hp := st.getHeap(h)
	es := sortOf(elem)
	arr, _ := u.permuted(st, elem, s)
	i, j := BV("si?", "Int"), BV("sj?", "Int")
	lo, hi := SOff(s), Add(SOff(s), SLen(s))
	in := func(x *Term) *Term { return And(Le(lo, x), Lt(x, hi)) }
	sel := func(a, x *Term) *Term { return App("select", es, a, x) }
	st.assume(Forall([]*Term{i, j}, Implies(And(in(i), in(j), Lt(i, j)), Not(less(sel(arr, j), sel(arr, i)))), []*Term{sel(arr, i), sel(arr, j)}))
	u.logWrite(h, SBase(s))
	st.setHeap(h, Store(hp, SBase(s), arr))
}

// permuted: a permutation of a slice's elements, and where each comes from
func (u *Unit) permuted(st *State, elem types.Type, s *Term) (arr, perm *Term) {
	h := heapE(elem)
	hp := st.getHeap(h)
	_, as := arrSorts(h.sort)
	es := sortOf(elem)
	old := Select(hp, SBase(s))
	arr = st.fresh("sorted", as)
	perm = st.fresh("perm", ArrSort("Int", "Int"))
	inv := st.fresh("perminv", ArrSort("Int", "Int"))
	i := BV("si?", "Int")
	lo, hi := SOff(s), Add(SOff(s), SLen(s))
	in := func(x *Term) *Term { return And(Le(lo, x), Lt(x, hi)) }
	sel := func(a, x *Term) *Term { return App("select", es, a, x) }
	pi := App("select", "Int", perm, i)
	qi := App("select", "Int", inv, i)
	st.assume(Forall([]*Term{i}, Implies(in(i), And(in(pi), Eq(sel(arr, i), sel(old, pi)), Eq(App("select", "Int", inv, pi), i))), []*Term{sel(arr, i)}, []*Term{pi}))
	st.assume(Forall([]*Term{i}, Implies(in(i), And(in(qi), Eq(sel(arr, qi), sel(old, i)), Eq(App("select", "Int", perm, qi), i))), []*Term{sel(old, i)}, []*Term{qi}))
	st.assume(Forall([]*Term{i}, Implies(Not(in(i)), Eq(sel(arr, i), sel(old, i))), []*Term{sel(arr, i)}))
	mx := BV("mx?", es)
	m1, m2 := memOf(arr, lo, SLen(s), mx), memOf(old, lo, SLen(s), mx)
	if m1 != False {
		st.assume(Forall([]*Term{mx}, Eq(m1, m2), []*Term{m1}, []*Term{m2}))
	}
	if w := wfVal(elem, sel(arr, i), st.alloc); w != True {
		st.assume(Forall([]*Term{i}, w, []*Term{sel(arr, i)}))
	}
	return arr, perm
}

// sprintf models the verbs used by the repository.
func (c *callInfo) sprintf(format, args *Term) *Term {
	if format.Op != "strlit" {
		return c.st.fresh("fmt", "Str")
	}
	h := anyHeap(c)
	arr := Select(c.st.getHeap(h), SBase(args))
	k := 0
	out := StrLit("")
	f := format.Name
	for i := 0; i < len(f); {
		if f[i] != '%' {
			j := strings.IndexByte(f[i:], '%')
			if j < 0 {
				j = len(f) - i
			}
			out = sCat(out, StrLit(f[i:i+j]))
			i += j
			continue
		}
		if i+1 < len(f) && f[i+1] == '%' {
			out = sCat(out, StrLit("%"))
			i += 2
			continue
		}
		j := i + 1
		for j < len(f) && !(f[j] >= 'a' && f[j] <= 'z' || f[j] >= 'A' && f[j] <= 'Z') {
			j++
		}
		if j >= len(f) {
			break
		}
		verb := f[i : j+1]
		v := Select(arr, Add(SOff(args), Int(int64(k))))
		k++
		if isStar(verb) {
			width := v
			v = Select(arr, Add(SOff(args), Int(int64(k))))
			k++
			if n, ok := intVal(ITag(width)); verb != "%-*s" || !ok || n <= 0 || c.u.P.tagTypes[int(n)] != types.Typ[types.Int] {
				unsup("format %s", verb)
			}
			declPad()
			out = sCat(out, App("s_padright", "Str", c.u.format1("%s", v), c.u.unbox(types.Typ[types.Int], width)))
			i = j + 1
			continue
		}
		out = sCat(out, c.u.format1(verb, v))
		i = j + 1
	}
	return out
}

func (u *Unit) format1(verb string, v *Term) *Term {
	if n, ok := intVal(ITag(v)); ok && u.P.tagTypes[int(n)] != nil {
		t := u.P.tagTypes[int(n)]
		if b, ok := t.Underlying().(*types.Basic); ok {
			x := u.unbox(t, v)
			if _, named := t.(*types.Named); !named || plainString(t) {
				switch {
				case b.Info()&types.IsString != 0 && (verb == "%s" || verb == "%v"):
					return x
				case b.Info()&types.IsString != 0 && verb == "%q":
					return UF("ext:strconv.Quote#0", "Str", x)
				case b.Info()&types.IsInteger != 0 && (verb == "%d" || verb == "%v"):
					return UF("ext:strconv.Itoa#0", "Str", x)
				}
			}
		}
	}
	return UF("fmt:"+verb, "Str", v)
}

// prefixExtern: families of functions without observable effect
func (u *Unit) prefixExtern(c *callInfo) (bool, bool, []*State) {
	for _, p := range []string{"(*go.uber.org/zap.SugaredLogger).Debug", "(*go.uber.org/zap.SugaredLogger).Info", "(*go.uber.org/zap.SugaredLogger).Warn", "(*go.uber.org/zap.SugaredLogger).Error", "(*go.uber.org/zap.SugaredLogger).Sync"} {
		if strings.HasPrefix(c.name, p) {
			if con := u.S.contracts[funcKey(c.fn)]; con != nil {
				return false, false, nil
			}
			u.usedExterns["logging: "+p+"*"] = true
			var out []Val
			rs := c.sig.Results()
			for i := 0; i < rs.Len(); i++ {
				r := c.st.fresh("log", sortOf(rs.At(i).Type()))
				c.st.assume(wfVal(rs.At(i).Type(), r, c.st.alloc))
				out = append(out, r)
			}
			more, forks := c.ret(out...)
			return true, more, forks
		}
	}
	return false, false, nil
}

var _ = fmt.Sprint
