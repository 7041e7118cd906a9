package main

// The values pgx's Scan stores, as functions of the result, the row and the
// column: cell (text, empty for NULL), cellNull, cellInt, cellBool. They are
// declared in contracts/pg.spec.

import (
	"go/types"
)

func init() {
	scan := func(row func(c *callInfo) *Term) func(c *callInfo) (bool, []*State) {
		return func(c *callInfo) (bool, []*State) {
			u, st := c.u, c.st
			rows, dest := c.arg(0), c.arg(1)
			n, ok := intVal(SLen(dest))
			if !ok {
				unsup("Scan with a variable number of values")
			}
			err := st.fresh("scanerr", "Iface")
			st.assume(wfVal(types.Universe.Lookup("error").Type(), err, st.alloc))
			good := Eq(ITag(err), Int(0))
			i := row(c)
			arr := Select(st.getHeap(anyHeap(c)), SBase(dest))
			for j := int64(0); j < n; j++ {
				v := Select(arr, Add(SOff(dest), Int(j)))
				tag, ok := intVal(ITag(v))
				if !ok || u.P.tagTypes[int(tag)] == nil {
					unsup("Scan into a value of unknown type")
				}
				pt, ok := u.P.tagTypes[int(tag)].Underlying().(*types.Pointer)
				if !ok {
					unsup("Scan into %s", u.P.tagTypes[int(tag)])
				}
				el := pt.Elem()
				null := UF("fn:cellNull", "Bool", rows, i, Int(j))
				text := UF("fn:cell", "Str", rows, i, Int(j))
				var val *Term
				nullable := false
				switch t := el.Underlying().(type) {
				case *types.Basic:
					switch {
					case t.Kind() == types.String:
						val = text
					case t.Kind() == types.Bool:
						val = UF("fn:cellBool", "Bool", rows, i, Int(j))
					case t.Info()&types.IsInteger != 0:
						val = UF("fn:cellInt", "Int", rows, i, Int(j))
					}
				case *types.Pointer:
					if b, ok := t.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.String {
						nullable = true
						q := u.newObj(st, t.Elem())
						u.storeAt(st, q, t.Elem(), text)
						val = Ite(null, Int(0), q)
					}
				}
				if val == nil {
					unsup("Scan into %s", el)
				}
				if !nullable {
					st.assume(Implies(good, Not(null)))
				}
				other := st.fresh("scanned", sortOf(el))
				st.assume(wfVal(el, other, st.alloc))
				st.assume(Implies(null, Eq(text, StrLit(""))))
				got := st.fresh("got", sortOf(el))
				st.assume(Implies(good, Eq(got, val)))
				st.assume(wfVal(el, got, st.alloc))
				u.store(st, c.w, u.unbox(pt, v), el, got, c.in)
			}
			g := u.ghost(st, "rowsFailed")
			u.logGhost("g:rowsFailed")
			st.ghost["g:rowsFailed"] = nameDef("failed", Ite(good, g, Store(g, rows, True)))
			u.logGhost("g:scanErr")
			u.ghost(st, "scanErr")
			st.ghost["g:scanErr"] = err
			return c.ret(err)
		}
	}
	w := []string{heapC(types.Typ[types.String]).name, heapC(types.Typ[types.Bool]).name, heapC(types.Typ[types.Int64]).name, heapC(types.NewPointer(types.Typ[types.String])).name}
	ext("(*github.com/jackc/pgx.Rows).Scan", scan(func(c *callInfo) *Term {
		return Sub(Select(c.u.ghost(c.st, "rowN"), c.arg(0)), Int(1))
	}), w...)
	ext("(*github.com/jackc/pgx.Row).Scan", scan(func(c *callInfo) *Term { return Int(0) }), w...)
}
