package main

// What reaches an io.Writer: text(w) grows by what is printed; when the write
// reports an error, by some beginning of it.

import (
	"go/types"
	"strings"
)

func declPad() {
	if _, ok := decls["s_padright"]; ok {
		return
	}
	declare("s_padright", "Str", "Str", "Int")
	s, n := BV("s?", "Str"), BV("n?", "Int")
	p := App("s_padright", "Str", s, n)
	decls["s_padright"].Axioms = []*Term{
		Forall([]*Term{s, n}, App("s_prefix", "Bool", s, p), []*Term{p}),
	}
}

// writeTo: line is written to the io.Writer w
func (c *callInfo) writeTo(w, line *Term) (n, err *Term) {
	st := c.st
	h := st.getHeap(heapText)
	key := IVal(w)
	part := st.fresh("written", "Str")
	n = st.fresh("wn", "Int")
	err = st.fresh("werr", "Iface")
	st.assume(wfVal(types.Universe.Lookup("error").Type(), err, st.alloc))
	st.assume(Implies(Eq(ITag(err), Int(0)), And(Eq(part, line), Eq(n, sLen(line)))))
	st.assume(App("s_prefix", "Bool", part, line))
	st.assume(And(Le(Int(0), n), Le(n, sLen(line))))
	c.u.logWrite(heapText, key)
	st.setHeap(heapText, Store(h, key, sCat(Select(h, key), part)))
	hl := st.getHeap(heapLost)
	c.u.logWrite(heapLost, key)
	st.setHeap(heapLost, Store(hl, key, Or(Select(hl, key), Not(Eq(ITag(err), Int(0))))))
	return n, err
}

// plainString: values printed by %s as their own characters
func plainString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsString == 0 {
		return false
	}
	ms := types.NewMethodSet(t)
	for _, m := range []string{"String", "Error", "Format"} {
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == m {
				return false
			}
		}
	}
	return true
}

func init() {
	ext("fmt.Fprintf", func(c *callInfo) (bool, []*State) {
		n, err := c.writeTo(c.arg(0), c.sprintf(c.arg(1), c.arg(2)))
		return c.ret(n, err)
	}, heapText.name, heapLost.name)
	ext("fmt.Fprintln", func(c *callInfo) (bool, []*State) {
		args := c.arg(1)
		k, ok := intVal(SLen(args))
		if !ok {
			unsup("fmt.Fprintln with a variable number of values")
		}
		arr := Select(c.st.getHeap(anyHeap(c)), SBase(args))
		line := StrLit("")
		for i := int64(0); i < k; i++ {
			if i > 0 {
				line = sCat(line, StrLit(" "))
			}
			line = sCat(line, c.u.format1("%v", Select(arr, Add(SOff(args), Int(i)))))
		}
		n, err := c.writeTo(c.arg(0), sCat(line, StrLit("\n")))
		return c.ret(n, err)
	}, heapText.name, heapLost.name)
	ext("io.(Writer).Write", func(c *callInfo) (bool, []*State) {
		b := c.arg(1)
		arr := Select(c.st.getHeap(heapE(types.Typ[types.Uint8])), SBase(b))
		n, err := c.writeTo(c.arg(0), stringOfSlice(arr, SOff(b), SLen(b), true))
		return c.ret(n, err)
	}, heapText.name, heapLost.name)
}

func isStar(verb string) bool { return strings.Contains(verb, "*") }

// anyHeap: the elements of the variadic ...interface{} parameter
func anyHeap(c *callInfo) *heapInfo {
	ps := c.sig.Params()
	return heapE(ps.At(ps.Len() - 1).Type().Underlying().(*types.Slice).Elem())
}
