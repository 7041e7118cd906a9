package main

// Evaluation of specification expressions to terms.

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// stype: a Go type, a set of a Go type, or a raw reference
type stype struct {
	g    types.Type
	set  *stype
	mapv *stype // total map set->mapv
	raw  string
}

func (t stype) sort() string {
	switch {
	case t.set != nil && t.mapv != nil:
		return ArrSort(t.set.sort(), t.mapv.sort())
	case t.set != nil:
		return ArrSort(t.set.sort(), "Bool")
	case t.g != nil:
		return sortOf(t.g)
	}
	return t.raw
}

func goT(t types.Type) stype { return stype{g: t} }

var intT = goT(types.Typ[types.Int])
var boolT = goT(types.Typ[types.Bool])
var strT = goT(types.Typ[types.String])

type bound struct {
	t   *Term
	typ stype
	abs *Term // for "forall i in s": nothing special
}

type evalCtx struct {
	u     *Unit
	st    *State
	old   *State
	entry *State
	env   map[string]bound
	pkg   string
	bvs   []*Term
	depth int
	iters map[string]*IterVal
	cur   *State // the state old() was left from
}

func (c *evalCtx) with(st *State) *evalCtx {
	d := *c
	d.st = st
	return &d
}

func (c *evalCtx) bind(n string, b bound) *evalCtx {
	d := *c
	d.env = make(map[string]bound, len(c.env)+1)
	for k, v := range c.env {
		d.env[k] = v
	}
	d.env[n] = b
	return &d
}

func efail(e *Expr, f string, a ...interface{}) {
	pos := ""
	if e != nil {
		pos = e.pos
	}
	panic(specErr{pos + ": " + fmt.Sprintf(f, a...)})
}

func (P *Program) pkgByName(from, name string) *types.Package {
	p := P.byPath[modPath+"/"+from]
	if p == nil {
		p = P.byPath[from]
	}
	if p != nil {
		for _, im := range p.Pkg.Imports() {
			if im.Name() == name {
				return im
			}
		}
	}
	// any package of the repository, then any imported one
	for _, q := range P.pkgs {
		if q.Types.Name() == name {
			return q.Types
		}
	}
	for _, q := range P.pkgs {
		for _, im := range q.Types.Imports() {
			if im.Name() == name || im.Path() == name {
				return im
			}
		}
	}
	// a package imported by one of this package's imports
	if p != nil {
		for _, im := range p.Pkg.Imports() {
			for _, im2 := range im.Imports() {
				if im2.Name() == name {
					return im2
				}
			}
		}
	}
	return nil
}

var typeCache = map[string]stype{}

func (P *Program) specType(txt, pkg string, e *Expr) stype {
	k := pkg + "|" + txt
	if t, ok := typeCache[k]; ok {
		return t
	}
	t := P.specType1(txt, pkg, e)
	typeCache[k] = t
	return t
}

func (P *Program) specType1(txt, pkg string, e *Expr) stype {
	txt = strings.TrimSpace(txt)
	if txt == "ref" {
		return stype{raw: "Int"}
	}
	if txt == "Iface" || txt == "Str" || txt == "Flt" {
		return stype{raw: txt}
	}
	if strings.HasPrefix(txt, "set[") {
		in := P.specType(txt[4:len(txt)-1], pkg, e)
		return stype{set: &in}
	}
	if strings.HasPrefix(txt, "tmap[") {
		depth, i := 0, 4
		for ; i < len(txt); i++ {
			if txt[i] == '[' {
				depth++
			} else if txt[i] == ']' {
				depth--
				if depth == 0 {
					break
				}
			}
		}
		k := P.specType(txt[5:i], pkg, e)
		v := P.specType(txt[i+1:], pkg, e)
		return stype{set: &k, mapv: &v}
	}
	x, err := parser.ParseExpr(txt)
	if err != nil {
		efail(e, "type %q: %v", txt, err)
	}
	return goT(P.astType(x, pkg, e))
}

func (P *Program) scopeOf(pkg string) *types.Scope {
	if p := P.byPath[modPath+"/"+pkg]; p != nil {
		return p.Pkg.Scope()
	}
	if p := P.byPath[pkg]; p != nil {
		return p.Pkg.Scope()
	}
	return nil
}

func (P *Program) astType(x ast.Expr, pkg string, e *Expr) types.Type {
	switch y := x.(type) {
	case *ast.Ident:
		if sc := P.scopeOf(pkg); sc != nil {
			if o := sc.Lookup(y.Name); o != nil {
				if tn, ok := o.(*types.TypeName); ok {
					return tn.Type()
				}
			}
		}
		if o := types.Universe.Lookup(y.Name); o != nil {
			return o.Type()
		}
	case *ast.SelectorExpr:
		if id, ok := y.X.(*ast.Ident); ok {
			if p := P.pkgByName(pkg, id.Name); p != nil {
				if o := p.Scope().Lookup(y.Sel.Name); o != nil {
					return o.Type()
				}
			}
		}
	case *ast.StarExpr:
		return types.NewPointer(P.astType(y.X, pkg, e))
	case *ast.ParenExpr:
		return P.astType(y.X, pkg, e)
	case *ast.ArrayType:
		if y.Len == nil {
			return types.NewSlice(P.astType(y.Elt, pkg, e))
		}
		if l, ok := y.Len.(*ast.BasicLit); ok {
			var n int64
			fmt.Sscan(l.Value, &n)
			return types.NewArray(P.astType(y.Elt, pkg, e), n)
		}
	case *ast.MapType:
		return types.NewMap(P.astType(y.Key, pkg, e), P.astType(y.Value, pkg, e))
	case *ast.StructType:
		if y.Fields.NumFields() == 0 {
			return types.NewStruct(nil, nil)
		}
	case *ast.InterfaceType:
		if y.Methods != nil && len(y.Methods.List) > 0 {
			tv, err := types.Eval(token.NewFileSet(), nil, token.NoPos, types.ExprString(y))
			if err != nil {
				efail(e, "%v", err)
			}
			return tv.Type
		}
		return types.NewInterfaceType(nil, nil)
	case *ast.ChanType:
		dir := types.SendRecv
		if y.Dir == ast.SEND {
			dir = types.SendOnly
		} else if y.Dir == ast.RECV {
			dir = types.RecvOnly
		}
		return types.NewChan(dir, P.astType(y.Value, pkg, e))
	}
	efail(e, "unknown type in package %s: %s", pkg, types.ExprString(x))
	return nil
}

func (c *evalCtx) boolean(e *Expr) *Term {
	b := c.eval(e)
	if b.t.Sort != "Bool" {
		efail(e, "expected a boolean, got %s", b.t.Sort)
	}
	return b.t
}

func derefT(t types.Type) (types.Type, bool) {
	if t == nil {
		return nil, false
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem(), true
	}
	return nil, false
}

func (c *evalCtx) eval(e *Expr) bound {
	switch e.op {
	case "int":
		return bound{t: BigInt(e.name), typ: intT}
	case "str":
		return bound{t: StrLit(e.name), typ: strT}
	case "ident":
		return c.ident(e)
	case "un":
		switch e.name {
		case "!":
			return bound{t: Not(c.boolean(e.args[0])), typ: boolT}
		case "-":
			x := c.eval(e.args[0])
			return bound{t: Sub(Int(0), x.t), typ: x.typ}
		case "&":
			return c.addrOf(e.args[0])
		case "*":
			x := c.eval(e.args[0])
			el, ok := derefT(x.typ.g)
			if !ok {
				efail(e, "dereference of non-pointer")
			}
			return bound{t: c.u.loadAt(c.st, x.t, el), typ: goT(el)}
		}
	case "cond":
		b := c.boolean(e.args[0])
		x, y := c.eval(e.args[1]), c.eval(e.args[2])
		x, y = c.unify(e, x, y)
		return bound{t: Ite(b, x.t, y.t), typ: x.typ}
	case "bin":
		return c.binary(e)
	case "field":
		return c.field(e)
	case "index":
		return c.index(e)
	case "slice":
		return c.sliceExpr(e)
	case "as":
		x := c.eval(e.args[0])
		t := c.u.P.specType(e.typ, c.pkg, e)
		return bound{t: c.u.unbox(t.g, x.t), typ: t}
	case "setof":
		d := *c
		d.env = map[string]bound{}
		for k, v := range c.env {
			d.env[k] = v
		}
		d.depth++
		var xs []*Term
		var ts []stype
		for _, v := range e.vars {
			t := c.u.P.specType(v.typ, c.pkg, e)
			x := BV(fmt.Sprintf("%s?%d", v.name, d.depth), t.sort())
			d.env[v.name] = bound{t: x, typ: t}
			xs, ts = append(xs, x), append(ts, t)
		}
		var body *Term
		srt := "Bool"
		var rt, bt stype
		if e.name == "fmap" {
			bv := (&d).eval(e.args[0])
			body, bt = bv.t, bv.typ
			srt = body.Sort
		} else {
			body = (&d).boolean(e.args[0])
		}
		for i := len(ts) - 1; i >= 0; i-- {
			t := ts[i]
			if i == len(ts)-1 && e.name == "fmap" {
				rt = stype{set: &t, mapv: &bt}
			} else if i == len(ts)-1 {
				rt = stype{set: &t}
			} else {
				in := rt
				rt = stype{set: &t, mapv: &in}
			}
			srt = ArrSort(t.sort(), srt)
		}
		a := c.st.fresh("setof", srt)
		in := a
		for _, x := range xs {
			_, vs := arrSorts(in.Sort)
			in = App("select", vs, in, x)
		}
		c.st.assume(Forall(xs, Eq(in, body), append([][]*Term{{in}}, autoTriggers(xs, body)...)...))
		return bound{t: a, typ: rt}
	case "concat":
		d := *c
		d.env = map[string]bound{}
		for k, v := range c.env {
			d.env[k] = v
		}
		d.depth++
		x := BV(fmt.Sprintf("%s?%d", e.name, d.depth), "Int")
		d.env[e.name] = bound{t: x, typ: intT}
		n := c.eval(e.args[0])
		return bound{t: mkConcat(x, (&d).eval(e.args[1]).t, n.t), typ: strT}
	case "forall", "exists":
		return c.quantifier(e)
	case "call":
		return c.call(e)
	}
	efail(e, "cannot evaluate %s %s", e.op, e.name)
	return bound{}
}

var nilB = bound{t: UF("spec_nil", "Unit"), typ: stype{raw: "nil"}}

func (c *evalCtx) nilOf(t stype, e *Expr) bound {
	switch t.sort() {
	case "Slice":
		return bound{t: NilSlice, typ: t}
	case "Iface":
		return bound{t: NilIface, typ: t}
	case "Int":
		return bound{t: Int(0), typ: t}
	}
	efail(e, "nil of sort %s", t.sort())
	return bound{}
}

func (c *evalCtx) unify(e *Expr, x, y bound) (bound, bound) {
	if x.typ.raw == "nil" && y.typ.raw != "nil" {
		x = c.nilOf(y.typ, e)
	}
	if y.typ.raw == "nil" && x.typ.raw != "nil" {
		y = c.nilOf(x.typ, e)
	}
	if x.t.Sort != y.t.Sort {
		// concrete compared with interface: box the concrete one
		if x.t.Sort == "Iface" && y.typ.g != nil {
			y = bound{t: c.u.box(y.typ.g, y.t), typ: x.typ}
		} else if y.t.Sort == "Iface" && x.typ.g != nil {
			x = bound{t: c.u.box(x.typ.g, x.t), typ: y.typ}
		} else {
			efail(e, "operands of different sorts %s and %s", x.t.Sort, y.t.Sort)
		}
	}
	return x, y
}

func (c *evalCtx) binary(e *Expr) bound {
	b := func(t *Term) bound { return bound{t: t, typ: boolT} }
	switch e.name {
	case "<==>":
		x, y := c.boolean(e.args[0]), c.boolean(e.args[1])
		return b(Eq(x, y))
	case "==>":
		return b(Implies(c.boolean(e.args[0]), c.boolean(e.args[1])))
	case "&&":
		return b(And(c.boolean(e.args[0]), c.boolean(e.args[1])))
	case "||":
		return b(Or(c.boolean(e.args[0]), c.boolean(e.args[1])))
	case "in":
		y := c.eval(e.args[1])
		if y.typ.raw == "nil" {
			return b(False)
		}
		x := c.eval(e.args[0])
		if y.typ.set != nil {
			if x.typ.raw == "nil" {
				x = c.nilOf(*y.typ.set, e)
			}
			return b(Select(y.t, x.t))
		}
		switch t := y.typ.g.Underlying().(type) {
		case *types.Map:
			if x.typ.raw == "nil" {
				x = c.nilOf(goT(t.Key()), e)
			}
			return b(Select(Select(c.st.getHeap(heapD(t)), y.t), x.t))
		case *types.Slice:
			if x.typ.raw == "nil" {
				x = c.nilOf(goT(t.Elem()), e)
			}
			arr := Select(c.st.getHeap(heapE(t.Elem())), SBase(y.t))
			return b(memOf(arr, SOff(y.t), SLen(y.t), x.t))
		}
		efail(e, "'in' on %s", y.typ.g)
	case "==", "!=":
		x, y := c.eval(e.args[0]), c.eval(e.args[1])
		var t *Term
		if x.typ.raw == "nil" && y.typ.raw == "nil" {
			return b(BoolT(e.name == "=="))
		}
		xn, yn := x.typ.raw == "nil", y.typ.raw == "nil"
		x, y = c.unify(e, x, y)
		switch {
		case x.t.Sort == "Slice" && yn:
			t = Eq(SBase(x.t), Int(0))
		case x.t.Sort == "Slice" && xn:
			t = Eq(SBase(y.t), Int(0))
		case x.t.Sort == "Iface" && yn:
			t = Eq(ITag(x.t), Int(0))
		case x.t.Sort == "Iface" && xn:
			t = Eq(ITag(y.t), Int(0))
		default:
			t = Eq(x.t, y.t)
		}
		if e.name == "!=" {
			t = Not(t)
		}
		return b(t)
	}
	x, y := c.eval(e.args[0]), c.eval(e.args[1])
	if x.t.Sort == "Str" {
		switch e.name {
		case "+":
			return bound{t: sCat(x.t, y.t), typ: x.typ}
		case "<":
			return b(sLt(x.t, y.t))
		case ">":
			return b(sLt(y.t, x.t))
		case "<=":
			return b(Not(sLt(y.t, x.t)))
		case ">=":
			return b(Not(sLt(x.t, y.t)))
		}
	}
	if x.t.Sort != "Int" || y.t.Sort != "Int" {
		efail(e, "operator %s on %s, %s", e.name, x.t.Sort, y.t.Sort)
	}
	switch e.name {
	case "+":
		return bound{t: Add(x.t, y.t), typ: intT}
	case "-":
		return bound{t: Sub(x.t, y.t), typ: intT}
	case "*":
		return bound{t: Mul(x.t, y.t), typ: intT}
	case "/":
		return bound{t: goDiv(x.t, y.t), typ: intT}
	case "%":
		return bound{t: Sub(x.t, Mul(y.t, goDiv(x.t, y.t))), typ: intT}
	case "<":
		return b(Lt(x.t, y.t))
	case "<=":
		return b(Le(x.t, y.t))
	case ">":
		return b(Lt(y.t, x.t))
	case ">=":
		return b(Le(y.t, x.t))
	}
	efail(e, "operator %s", e.name)
	return bound{}
}

var bvSeq int

func (c *evalCtx) bv(n, srt string) *Term {
	c.depth++
	return BV(fmt.Sprintf("%s?%d", n, bvCount(c)), srt)
}

// bound variable names must be distinct along a nesting path; a name derived
// from the nesting depth keeps equal formulas equal terms.
func bvCount(c *evalCtx) int { return c.depth }

func (c *evalCtx) ident(e *Expr) bound {
	switch e.name {
	case "true":
		return bound{t: True, typ: boolT}
	case "false":
		return bound{t: False, typ: boolT}
	case "nil":
		return nilB
	}
	if b, ok := c.env[e.name]; ok {
		return b
	}
	if g, ok := c.u.S.ghosts[e.name]; ok {
		t := c.u.P.specType(g.typ, g.pkg, e)
		return bound{t: c.u.ghost(c.st, g.name), typ: t}
	}
	if m, ok := c.u.S.macros[e.name]; ok && len(m.params) == 0 {
		d := *c
		d.pkg = m.pkg
		d.env = map[string]bound{}
		d.depth++
		return (&d).eval(m.body)
	}
	if sc := c.u.P.scopeOf(c.pkg); sc != nil {
		if o := sc.Lookup(e.name); o != nil {
			return c.object(o, e)
		}
	}
	efail(e, "unknown name %s", e.name)
	return bound{}
}

func (c *evalCtx) object(o types.Object, e *Expr) bound {
	switch x := o.(type) {
	case *types.Const:
		switch x.Val().Kind() {
		case constant.String:
			return bound{t: StrLit(constant.StringVal(x.Val())), typ: goT(x.Type())}
		case constant.Int:
			return bound{t: BigInt(x.Val().ExactString()), typ: goT(x.Type())}
		case constant.Bool:
			return bound{t: BoolT(constant.BoolVal(x.Val())), typ: goT(x.Type())}
		}
	case *types.Var:
		var g *ssa.Global
		if p := c.u.P.byPath[x.Pkg().Path()]; p != nil {
			g, _ = p.Members[x.Name()].(*ssa.Global)
		} else if p := c.u.P.prog.ImportedPackage(x.Pkg().Path()); p != nil {
			g, _ = p.Members[x.Name()].(*ssa.Global)
		}
		if g != nil {
			v := c.u.globalVal(c.st, g)
			return bound{t: c.u.toTerm(c.st, v, x.Type()), typ: goT(x.Type())}
		}
	}
	efail(e, "cannot use %s in a specification", o)
	return bound{}
}

func (u *Unit) ghost(st *State, name string) *Term {
	k := "g:" + name
	if t, ok := st.ghost[k]; ok {
		return t
	}
	g := u.S.ghosts[name]
	t := u.P.specType(g.typ, g.pkg, nil)
	c := Const("ghost0:"+name, t.sort())
	return c
}

func (c *evalCtx) field(e *Expr) bound {
	// qualified identifier?
	if id := e.args[0]; id.op == "ident" {
		if _, isVar := c.env[id.name]; !isVar && c.u.S.ghosts[id.name] == nil && c.u.S.macros[id.name] == nil {
			sc := c.u.P.scopeOf(c.pkg)
			if sc == nil || sc.Lookup(id.name) == nil {
				if p := c.u.P.pkgByName(c.pkg, id.name); p != nil {
					if o := p.Scope().Lookup(e.name); o != nil {
						return c.object(o, e)
					}
				}
			}
		}
	}
	x := c.eval(e.args[0])
	if x.typ.g == nil {
		efail(e, "field %s of a non-Go value", e.name)
	}
	return c.fieldOf(x, e.name, e)
}

func (c *evalCtx) fieldOf(x bound, name string, e *Expr) bound {
	pkg := c.pkgOfType(x.typ.g)
	_, path, _ := types.LookupFieldOrMethod(x.typ.g, true, pkg, name)
	if path == nil {
		efail(e, "no field %s in %s", name, x.typ.g)
	}
	cur := x
	for _, i := range path {
		if el, ok := derefT(cur.typ.g); ok {
			s := el.Underlying().(*types.Struct)
			ft := s.Field(i).Type()
			if isAgg(ft) {
				// value of the embedded aggregate
				cur = bound{t: c.u.loadAt(c.st, Add(cur.t, Int(fieldOffset(s, i))), ft), typ: goT(ft)}
			} else {
				cur = bound{t: Select(c.st.getHeap(heapF(el, i)), cur.t), typ: goT(ft)}
			}
			continue
		}
		s, ok := cur.typ.g.Underlying().(*types.Struct)
		if !ok {
			efail(e, "%s is not a struct", cur.typ.g)
		}
		d := datatypes[structSort(cur.typ.g)]
		cur = bound{t: Acc(d.Fields[i], d.Sorts[i], cur.t), typ: goT(s.Field(i).Type())}
	}
	return cur
}

// addrOf: the address of an embedded struct, x.f with f of struct type
func (c *evalCtx) addrOf(e *Expr) bound {
	if e.op != "field" {
		efail(e, "& needs a field")
	}
	x := c.eval(e.args[0])
	el, ok := derefT(x.typ.g)
	if !ok {
		efail(e, "& needs a field of a pointer")
	}
	s, ok := el.Underlying().(*types.Struct)
	if !ok {
		efail(e, "& needs a field of a struct")
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == e.name && isAgg(s.Field(i).Type()) {
			return bound{t: Add(x.t, Int(fieldOffset(s, i))), typ: goT(types.NewPointer(s.Field(i).Type()))}
		}
	}
	efail(e, "& of %s", e.name)
	return bound{}
}

func (c *evalCtx) pkgOfType(t types.Type) *types.Package {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Pkg()
	}
	return nil
}

func (c *evalCtx) index(e *Expr) bound {
	x := c.eval(e.args[0])
	if x.typ.set != nil {
		i := c.eval(e.args[1])
		if i.typ.raw == "nil" {
			i = c.nilOf(*x.typ.set, e)
		}
		if x.typ.mapv != nil {
			return bound{t: Select(x.t, i.t), typ: *x.typ.mapv}
		}
		return bound{t: Select(x.t, i.t), typ: boolT}
	}
	if x.typ.g == nil {
		efail(e, "index of a non-Go value")
	}
	i := c.eval(e.args[1])
	switch t := x.typ.g.Underlying().(type) {
	case *types.Map:
		in := Select(Select(c.st.getHeap(heapD(t)), x.t), i.t)
		v := Select(Select(c.st.getHeap(heapV(t)), x.t), i.t)
		return bound{t: Ite(in, v, zeroOf(t.Elem())), typ: goT(t.Elem())}
	case *types.Slice:
		return bound{t: Select(Select(c.st.getHeap(heapE(t.Elem())), SBase(x.t)), Add(SOff(x.t), i.t)), typ: goT(t.Elem())}
	case *types.Basic:
		return bound{t: sAt(x.t, i.t), typ: intT}
	case *types.Array:
		return bound{t: Select(x.t, i.t), typ: goT(t.Elem())}
	}
	efail(e, "cannot index %s", x.typ.g)
	return bound{}
}

func (c *evalCtx) sliceExpr(e *Expr) bound {
	x := c.eval(e.args[0])
	lo := Int(0)
	if e.args[1] != nil {
		lo = c.eval(e.args[1]).t
	}
	if x.t.Sort == "Str" {
		hi := sLen(x.t)
		if len(e.args) > 2 && e.args[2] != nil {
			hi = c.eval(e.args[2]).t
		}
		return bound{t: sSub(x.t, lo, hi), typ: x.typ}
	}
	if x.t.Sort == "Slice" {
		hi := SLen(x.t)
		if len(e.args) > 2 && e.args[2] != nil {
			hi = c.eval(e.args[2]).t
		}
		return bound{t: MkSlice(SBase(x.t), Add(SOff(x.t), lo), Sub(hi, lo), Sub(SCap(x.t), lo)), typ: x.typ}
	}
	efail(e, "cannot slice")
	return bound{}
}

func (c *evalCtx) quantifier(e *Expr) bound {
	d := *c
	d.env = make(map[string]bound, len(c.env)+len(e.vars))
	for k, v := range c.env {
		d.env[k] = v
	}
	var vars []*Term
	var guards []*Term
	for _, v := range e.vars {
		d.depth++
		if v.in != nil {
			s := (&d).eval(v.in)
			if s.t.Sort == "Slice" {
				j := BV(fmt.Sprintf("%s?%d", v.name, d.depth), "Int")
				vars = append(vars, j)
				guards = append(guards, Le(SOff(s.t), j), Lt(j, Add(SOff(s.t), SLen(s.t))))
				d.env[v.name] = bound{t: Sub(j, SOff(s.t)), typ: intT}
				continue
			}
			// keys of a map or members of a set
			var kt stype
			var dom *Term
			if s.typ.set != nil {
				kt = *s.typ.set
				dom = s.t
			} else if mt, ok := s.typ.g.Underlying().(*types.Map); ok {
				kt = goT(mt.Key())
				dom = Select(c.st.getHeap(heapD(mt)), s.t)
			} else {
				efail(e, "cannot quantify over %v", s.typ.g)
			}
			k := BV(fmt.Sprintf("%s?%d", v.name, d.depth), kt.sort())
			vars = append(vars, k)
			guards = append(guards, Select(dom, k))
			d.env[v.name] = bound{t: k, typ: kt}
			continue
		}
		t := c.u.P.specType(v.typ, c.pkg, e)
		bvv := BV(fmt.Sprintf("%s?%d", v.name, d.depth), t.sort())
		vars = append(vars, bvv)
		d.env[v.name] = bound{t: bvv, typ: t}
	}
	body := (&d).boolean(e.args[0])
	g := And(guards...)
	if e.op == "forall" {
		body = Implies(g, body)
	} else {
		body = And(g, body)
	}
	var pats [][]*Term
	for _, p := range e.trig {
		var ts []*Term
		for _, x := range p {
			ts = append(ts, (&d).eval(x).t)
		}
		pats = append(pats, ts)
	}
	if len(pats) == 0 {
		pats = autoTriggers(vars, body)
	}
	if e.op == "forall" {
		return bound{t: Forall(vars, body, pats...), typ: boolT}
	}
	return bound{t: Exists(vars, body, pats...), typ: boolT}
}

// autoTriggers chooses patterns for a quantifier.
func autoTriggers(vars []*Term, body *Term) [][]*Term {
	vset := map[*Term]bool{}
	for _, v := range vars {
		vset[v] = true
	}
	memo := map[*Term]map[*Term]bool{}
	var fv func(t *Term) map[*Term]bool
	fv = func(t *Term) map[*Term]bool {
		if m, ok := memo[t]; ok {
			return m
		}
		m := map[*Term]bool{}
		if t.hasBV {
			collectBV(t, m)
		}
		memo[t] = m
		return m
	}
	var pure func(t *Term) bool // usable inside a pattern
	pure = func(t *Term) bool {
		if !t.hasBV {
			return true
		}
		if t.Op == "bvar" {
			return true
		}
		if len(t.Bound) > 0 {
			return false
		}
		_, isUF := decls[t.Op]
		_, isAcc := accessors[t.Op]
		if t.Op != "select" && !isUF && !isAcc && !constructors[t.Op] {
			return false
		}
		for _, a := range t.Args {
			if !pure(a) {
				return false
			}
		}
		return true
	}
	var cands []*Term
	seen := map[*Term]bool{}
	inner := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] || !t.hasBV {
			return
		}
		seen[t] = true
		for _, b := range t.Bound {
			inner[b] = true
		}
		for _, a := range t.Args {
			walk(a)
		}
		_, isUF := decls[t.Op]
		if (t.Op == "select" || isUF) && pure(t) {
			ok := false
			for v := range fv(t) {
				if vset[v] {
					ok = true
				}
			}
			if ok {
				cands = append(cands, t)
			}
		}
	}
	walk(body)
	var usable []*Term
	for _, t := range cands {
		ok := true
		for v := range fv(t) {
			if inner[v] && !vset[v] {
				ok = false
			}
		}
		if ok {
			usable = append(usable, t)
		}
	}
	covers := func(ts ...*Term) bool {
		for _, v := range vars {
			ok := false
			for _, t := range ts {
				if fv(t)[v] {
					ok = true
				}
			}
			if !ok {
				return false
			}
		}
		return true
	}
	contains := func(a, b *Term) bool { // a strictly contains b
		var rec func(t *Term) bool
		rec = func(t *Term) bool {
			if t == b {
				return true
			}
			if !t.hasBV {
				return false
			}
			for _, x := range t.Args {
				if rec(x) {
					return true
				}
			}
			return false
		}
		return a != b && rec(a)
	}
	var full []*Term
	for _, t := range usable {
		if covers(t) {
			full = append(full, t)
		}
	}
	var out [][]*Term
	for _, t := range full {
		min := true
		for _, o := range full {
			if contains(t, o) {
				min = false
			}
		}
		if min {
			out = append(out, []*Term{t})
		}
	}
	if len(out) > 0 {
		return out
	}
	// pairs / triples of minimal terms
	var mins []*Term
	for _, t := range usable {
		dup := false
		for _, o := range usable {
			if contains(t, o) && len(fv(o)) == len(fv(t)) {
				dup = true
			}
		}
		if !dup {
			mins = append(mins, t)
		}
	}
	for i, a := range mins {
		for _, b := range mins[i+1:] {
			if covers(a, b) && len(out) < 6 {
				out = append(out, []*Term{a, b})
			}
		}
	}
	if len(out) > 0 {
		return out
	}
	for i, a := range mins {
		for j, b := range mins[i+1:] {
			for _, d := range mins[i+1+j+1:] {
				if covers(a, b, d) && len(out) < 6 {
					out = append(out, []*Term{a, b, d})
				}
			}
		}
	}
	return out
}

func (c *evalCtx) call(e *Expr) bound {
	u := c.u
	b := func(t *Term) bound { return bound{t: t, typ: boolT} }
	n := func(t *Term) bound { return bound{t: t, typ: intT} }
	arg := func(i int) bound {
		if i >= len(e.args) {
			efail(e, "missing argument of %s", e.name)
		}
		return c.eval(e.args[i])
	}
	switch e.name {
	case "len":
		x := arg(0)
		switch {
		case x.t.Sort == "Slice":
			return n(SLen(x.t))
		case x.t.Sort == "Str":
			return n(sLen(x.t))
		case x.typ.set != nil:
			return n(card(x.t))
		}
		if mt, ok := x.typ.g.Underlying().(*types.Map); ok {
			return n(card(Select(c.st.getHeap(heapD(mt)), x.t)))
		}
		efail(e, "len of %s", x.typ.g)
	case "cap":
		return n(SCap(arg(0).t))
	case "runelen":
		return n(seqLen("rune", arg(0).t))
	case "runeat":
		return n(Select(seqArr("rune", arg(0).t), arg(1).t))
	case "lost": // a write to this writer has failed
		x := arg(0).t
		if x.Sort == "Iface" {
			x = IVal(x)
		}
		return b(Select(c.st.getHeap(heapLost), x))
	case "text": // the contents of a strings.Builder
		x := arg(0).t
		if x.Sort == "Iface" { // what was written to an io.Writer
			x = IVal(x)
		}
		return bound{t: Select(c.st.getHeap(heapText), x), typ: strT}
	case "ispointer": // an interface value holds a pointer
		return b(Lt(Int(ptrTags), ITag(arg(0).t)))
	case "bytestext": // a byte slice as a string
		x := arg(0)
		el := x.typ.g.Underlying().(*types.Slice).Elem()
		return bound{t: stringOfSlice(Select(c.st.getHeap(heapE(el)), SBase(x.t)), SOff(x.t), SLen(x.t), true), typ: strT}
	case "dirOf", "extOf", "trimspace", "upperOf", "lowerOf":
		name := map[string]string{"dirOf": "path/filepath.Dir", "extOf": "path/filepath.Ext", "trimspace": "strings.TrimSpace", "upperOf": "strings.ToUpper", "lowerOf": "strings.ToLower"}[e.name]
		return bound{t: u.pureExtern(name, 0, types.Typ[types.String], []*Term{arg(0).t}), typ: strT}
	case "padright":
		declPad()
		return bound{t: App("s_padright", "Str", arg(0).t, arg(1).t), typ: strT}
	case "base":
		return bound{t: SBase(arg(0).t), typ: stype{raw: "Int"}}
	case "off":
		return n(SOff(arg(0).t))
	case "dom":
		x := arg(0)
		mt := x.typ.g.Underlying().(*types.Map)
		kt := goT(mt.Key())
		return bound{t: Select(c.st.getHeap(heapD(mt)), x.t), typ: stype{set: &kt}}
	case "vals":
		x := arg(0)
		mt := x.typ.g.Underlying().(*types.Map)
		kt, vt := goT(mt.Key()), goT(mt.Elem())
		return bound{t: Select(c.st.getHeap(heapV(mt)), x.t), typ: stype{set: &kt, mapv: &vt}}
	case "elemsof":
		t := u.P.specType(e.typ, c.pkg, e)
		return bound{t: Select(c.st.getHeap(heapE(t.g)), arg(0).t), typ: stype{raw: ArrSort("Int", t.sort())}}
	case "emptyset":
		t := u.P.specType(e.typ, c.pkg, e)
		return bound{t: ConstArr(t.sort(), "Bool", False), typ: stype{set: &t}}
	case "setadd":
		x, k := arg(0), arg(1)
		return bound{t: Store(x.t, k.t, True), typ: x.typ}
	case "setdel":
		x, k := arg(0), arg(1)
		return bound{t: Store(x.t, k.t, False), typ: x.typ}
	case "card":
		return n(card(arg(0).t))
	case "uni": // the members of a set and the first n elements of a slice
		x, y, k := arg(0), arg(1), arg(2)
		arr := Select(c.st.getHeap(heapE(y.typ.g.Underlying().(*types.Slice).Elem())), SBase(y.t))
		return bound{t: uniOf(x.t, arr, SOff(y.t), k.t), typ: x.typ}
	case "minus":
		x, y := arg(0), arg(1)
		return bound{t: minusOf(x.t, y.t), typ: x.typ}
	case "count": // how many of the first k elements of a slice are in a set
		x, y, k := arg(0), arg(1), arg(2)
		arr := Select(c.st.getHeap(heapE(y.typ.g.Underlying().(*types.Slice).Elem())), SBase(y.t))
		return n(countOf(x.t, arr, SOff(y.t), Add(SOff(y.t), k.t)))
	case "update":
		x, k, v := arg(0), arg(1), arg(2)
		return bound{t: Store(x.t, k.t, v.t), typ: x.typ}
	case "seen":
		id := e.args[0]
		it := c.iters[id.name]
		if it == nil {
			efail(e, "seen of unknown iterator")
		}
		kt := goT(it.mt.Key())
		return bound{t: c.st.ghost["seen:"+it.id], typ: stype{set: &kt}}
	case "cur": // the key an iterator gave last
		it := c.iters[e.args[0].name]
		if it == nil {
			efail(e, "cur of unknown iterator")
		}
		return bound{t: c.st.ghost["cur:"+it.id], typ: goT(it.mt.Key())}
	case "domof": // domain of the map an iterator ranges over, at its start
		it := c.iters[e.args[0].name]
		if it == nil {
			efail(e, "domof of unknown iterator")
		}
		kt := goT(it.mt.Key())
		return bound{t: it.start, typ: stype{set: &kt}}
	case "mapof": // the map an iterator ranges over
		it := c.iters[e.args[0].name]
		if it == nil {
			efail(e, "mapof of unknown iterator")
		}
		return bound{t: it.m, typ: goT(it.mt)}
	case "old":
		if c.old == nil {
			efail(e, "old() not available here")
		}
		d := c.with(c.old)
		if d.cur == nil {
			d.cur = c.st
		}
		return d.eval(e.args[0])
	case "now":
		if c.cur == nil {
			return arg(0)
		}
		d := c.with(c.cur)
		d.cur = nil
		return d.eval(e.args[0])
	case "entry":
		if c.entry == nil {
			efail(e, "entry() outside of a loop invariant")
		}
		return c.with(c.entry).eval(e.args[0])
	case "fresh":
		x := arg(0)
		if c.old == nil {
			efail(e, "fresh() not available here")
		}
		return b(Le(c.old.alloc, refOf(x)))
	case "entryalloc":
		return bound{t: c.entry.alloc, typ: stype{raw: "Int"}}
	case "oldalloc":
		return bound{t: c.old.alloc, typ: stype{raw: "Int"}}
	case "curalloc":
		return bound{t: c.st.alloc, typ: stype{raw: "Int"}}
	case "ref":
		return bound{t: refOf(arg(0)), typ: stype{raw: "Int"}}
	case "typeis":
		t := u.P.specType(e.typ, c.pkg, e)
		x := arg(0)
		if it, ok := t.g.Underlying().(*types.Interface); ok {
			return b(u.tagImplements(ITag(x.t), it))
		}
		return b(Eq(ITag(x.t), Int(int64(u.P.tag(t.g)))))
	case "as":
		t := u.P.specType(e.typ, c.pkg, e)
		return bound{t: u.unbox(t.g, arg(0).t), typ: t}
	case "box":
		t := u.P.specType(e.typ, c.pkg, e)
		return bound{t: u.box(t.g, arg(0).t), typ: stype{raw: "Iface"}}
	case "tag":
		return n(ITag(arg(0).t))
	case "hasPrefix":
		return b(App("s_prefix", "Bool", arg(1).t, arg(0).t))
	case "hasSuffix":
		return b(App("s_suffix", "Bool", arg(1).t, arg(0).t))
	case "contains":
		return b(App("s_contains", "Bool", arg(0).t, arg(1).t))
	case "indexOf":
		return n(App("s_index", "Int", arg(0).t, arg(1).t))
	case "replaceAll":
		return bound{t: App("s_replaceall", "Str", arg(0).t, arg(1).t, arg(2).t), typ: strT}
	case "column":
		return n(columnTerm(arg(0).t, arg(1).t))
	case "sqlfrom":
		return bound{t: sqlFromTerm(arg(0).t), typ: strT}
	case "sqlparam":
		return n(sqlParamTerm(arg(0).t, arg(1).t))
	case "eqseq":
		return b(c.eqseq(c.st, arg(0), c.st, arg(1)))
	case "eqseqold": // eqseqold(a, b): a now, b in the old state
		return b(c.eqseq(c.st, arg(0), c.old, c.with(c.old).eval(e.args[1])))
	case "eqseqentry":
		return b(c.eqseq(c.st, arg(0), c.entry, c.with(c.entry).eval(e.args[1])))
	case "wf": // every value of the type satisfies this
		x := arg(0)
		return b(wfVal(x.typ.g, x.t, c.st.alloc))
	}
	if m, ok := u.S.macros[e.name]; ok {
		if len(m.params) != len(e.args) {
			efail(e, "%s wants %d arguments", e.name, len(m.params))
		}
		d := *c
		d.pkg = m.pkg
		d.env = map[string]bound{}
		d.iters = map[string]*IterVal{}
		for i, p := range m.params {
			t := u.P.specType(p.typ, m.pkg, e)
			a := c.eval(e.args[i])
			if a.typ.raw == "nil" {
				a = c.nilOf(t, e)
			}
			if a.t.Sort != t.sort() {
				if t.sort() == "Iface" && a.typ.g != nil {
					a = bound{t: u.box(a.typ.g, a.t)}
				} else {
					efail(e, "argument %s of %s has sort %s, want %s", p.name, e.name, a.t.Sort, t.sort())
				}
			}
			a.typ = t
			d.env[p.name] = a
		}
		if d.depth > 400 {
			efail(e, "macro recursion in %s", e.name)
		}
		d.depth += 1
		return (&d).eval(m.body)
	}
	if f, ok := u.S.funs[e.name]; ok {
		var ts []*Term
		for i := range e.args {
			t := u.P.specType(f.args[i], f.pkg, e)
			a := c.eval(e.args[i])
			if a.typ.raw == "nil" {
				a = c.nilOf(t, e)
			}
			ts = append(ts, a.t)
		}
		if len(ts) != len(f.args) {
			efail(e, "%s wants %d arguments", f.name, len(f.args))
		}
		rt := u.P.specType(f.ret, f.pkg, e)
		u.useAxioms()
		return bound{t: UF("fn:"+f.name, rt.sort(), ts...), typ: rt}
	}
	// result of a pure external function: strings.ToUpper(x)
	if strings.Contains(e.name, ".") {
		parts := strings.SplitN(e.name, ".", 2)
		if p := u.P.pkgByName(c.pkg, parts[0]); p != nil {
			if f, ok := p.Scope().Lookup(parts[1]).(*types.Func); ok {
				var ts []*Term
				for i := range e.args {
					ts = append(ts, arg(i).t)
				}
				sg := f.Type().(*types.Signature)
				rt := sg.Results().At(0).Type()
				return bound{t: u.pureExtern(f.FullName(), 0, rt, ts), typ: goT(rt)}
			}
		}
	}
	// conversions: T(x)
	if len(e.args) == 1 {
		if t, ok := u.P.tryType(e.name, c.pkg); ok {
			x := arg(0)
			if x.typ.raw == "nil" {
				return c.nilOf(goT(t), e)
			}
			if x.t.Sort != sortOf(t) {
				if sortOf(t) == "Iface" && x.typ.g != nil {
					return bound{t: u.box(x.typ.g, x.t), typ: goT(t)}
				}
				efail(e, "conversion to %s changes representation", e.name)
			}
			return bound{t: x.t, typ: goT(t)}
		}
	}
	efail(e, "unknown function %s", e.name)
	return bound{}
}

func (P *Program) tryType(name, pkg string) (t types.Type, ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	s := P.specType(name, pkg, nil)
	return s.g, s.g != nil
}

func refOf(x bound) *Term {
	if x.t.Sort == "Slice" {
		return SBase(x.t)
	}
	if x.t.Sort == "Iface" {
		return IVal(x.t)
	}
	return x.t
}

func (c *evalCtx) eqseq(sa *State, a bound, sb *State, b2 bound) *Term {
	at := a.typ.g.Underlying().(*types.Slice)
	bt := b2.typ.g.Underlying().(*types.Slice)
	A := Select(sa.getHeap(heapE(at.Elem())), SBase(a.t))
	B := Select(sb.getHeap(heapE(bt.Elem())), SBase(b2.t))
	c.depth++
	j := BV(fmt.Sprintf("q?%d", c.depth), "Int")
	selA := Select(A, j)
	k := Add(SOff(b2.t), Sub(j, SOff(a.t)))
	f1 := Forall([]*Term{j}, Implies(And(Le(SOff(a.t), j), Lt(j, Add(SOff(a.t), SLen(a.t)))), Eq(selA, Select(B, k))), autoTriggers([]*Term{j}, selA)...)
	out := And(Eq(SLen(a.t), SLen(b2.t)), f1)
	if k != j {
		selB := Select(B, j)
		k2 := Add(SOff(a.t), Sub(j, SOff(b2.t)))
		out = And(out, Forall([]*Term{j}, Implies(And(Le(SOff(b2.t), j), Lt(j, Add(SOff(b2.t), SLen(b2.t)))), Eq(selB, Select(A, k2))), autoTriggers([]*Term{j}, selB)...))
	} else {
		selB := Select(B, j)
		out = And(Eq(SLen(a.t), SLen(b2.t)), Forall([]*Term{j}, Implies(And(Le(SOff(a.t), j), Lt(j, Add(SOff(a.t), SLen(a.t)))), Eq(selA, selB)), append(autoTriggers([]*Term{j}, selA), autoTriggers([]*Term{j}, selB)...)...))
	}
	return out
}

var axiomsDone bool

// useAxioms attaches the declared axioms to the spec functions they mention.
func (u *Unit) useAxioms() {
	if axiomsDone {
		return
	}
	axiomsDone = true
	for _, a := range u.S.axioms {
		st := &State{heap: map[string]*Term{}, alloc: alloc0, ghost: map[string]*Term{}}
		c := &evalCtx{u: u, st: st, env: map[string]bound{}, pkg: a.pkg}
		t := c.boolean(a.expr)
		seen := map[*Term]bool{}
		marks := map[string]bool{}
		var rec2 func(t *Term)
		rec2 = func(t *Term) {
			if seen[t] {
				return
			}
			seen[t] = true
			if strings.HasPrefix(strings.Trim(t.Op, "|"), "fn:") {
				marks[t.Op] = true
			}
			for _, x := range t.Args {
				rec2(x)
			}
		}
		rec2(t)
		for op := range marks {
			decls[op].Axioms = append(decls[op].Axioms, t)
		}
	}
}
