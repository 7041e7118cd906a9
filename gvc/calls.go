package main

// Calls: contracts, inlining, dispatch, built-ins.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type callInfo struct {
	u    *Unit
	st   *State
	w    *walk
	call *ssa.CallCommon
	name string
	fn   *ssa.Function // may be nil (interface method)
	sig  *types.Signature
	args []Val
	in   ssa.Instruction
	res  ssa.Value
}

func (c *callInfo) arg(i int) *Term {
	return c.u.toTerm(c.st, c.args[i], c.argType(i))
}

func (c *callInfo) argType(i int) types.Type {
	if c.sig.Recv() != nil {
		if i == 0 {
			return c.sig.Recv().Type()
		}
		i--
	}
	if i < c.sig.Params().Len() {
		return c.sig.Params().At(i).Type()
	}
	return nil
}

func (c *callInfo) ret(vs ...Val) (bool, []*State) {
	c.u.bindResult(c.st, c.res, vs)
	return true, nil
}

// externHandler models an external function on the current state.
type externHandler struct {
	run    func(c *callInfo) (bool, []*State)
	writes []string // heaps it may write
	note   string
}

var externs = map[string]*externHandler{}

func (u *Unit) call(st *State, w *walk, call *ssa.CallCommon, res ssa.Value, in ssa.Instruction) (bool, []*State) {
	var fnVal Val
	var args []Val
	if call.IsInvoke() {
		args = append(args, u.val(st, call.Value))
	} else {
		fnVal = u.val(st, call.Value)
	}
	for _, a := range call.Args {
		args = append(args, u.val(st, a))
	}
	return u.callValues(st, w, call, fnVal, args, res, in)
}

func (u *Unit) callValues(st *State, w *walk, call *ssa.CallCommon, fnVal Val, args []Val, res ssa.Value, in ssa.Instruction) (bool, []*State) {
	if call.IsInvoke() {
		return u.invoke(st, w, call, args, res, in)
	}
	switch f := fnVal.(type) {
	case *ssa.Builtin:
		return u.builtin(st, w, f, call, args, res, in)
	case *Closure:
		if f.recv != nil {
			args = append([]Val{f.recv}, args...)
		}
		return u.callFn(st, w, f.fn, args, f.binds, call, res, in)
	case *Term:
		if c, ok := closureTab[f]; ok {
			if c.recv != nil {
				args = append([]Val{c.recv}, args...)
			}
			return u.callFn(st, w, c.fn, args, c.binds, call, res, in)
		}
		// function value: a contract for its source location or type
		if k, con := u.funcValContract(call); con != nil {
			sig := call.Value.Type().Underlying().(*types.Signature)
			u.oblige(st, w, "nil", "call of nil function", in, Not(Eq(f, Int(0))))
			return u.applyContract(st, w, con, k, nil, sig, append([]Val{f}, args...), res, in)
		}
		unsup("call of unknown function value %s", call.Value)
	}
	unsup("call of %T", fnVal)
	return false, nil
}

// funcValContract: "funcval <type>" contracts for calls through function values.
func (u *Unit) funcValContract(call *ssa.CallCommon) (string, *Contract) {
	k := "funcval:" + typeStr(call.Value.Type())
	if c, ok := u.S.contracts[k]; ok {
		return k, c
	}
	if n, ok := call.Value.Type().(*types.Named); ok {
		k = "funcval:" + typeStr(n)
		if c, ok := u.S.contracts[k]; ok {
			return k, c
		}
	}
	return "", nil
}

func (u *Unit) isRepoFn(fn *ssa.Function) bool {
	if fn.Pkg != nil && u.P.repo[fn.Pkg.Pkg] {
		return true
	}
	if fn.Synthetic != "" && len(fn.Blocks) > 0 {
		// wrappers and bound methods of repo types
		return true
	}
	for p := fn.Parent(); p != nil; p = p.Parent() {
		if p.Pkg != nil && u.P.repo[p.Pkg.Pkg] {
			return true
		}
	}
	return false
}

func (u *Unit) callFn(st *State, w *walk, fn *ssa.Function, args []Val, binds []Val, call *ssa.CallCommon, res ssa.Value, in ssa.Instruction) (bool, []*State) {
	key := funcKey(fn)
	if con, ok := u.S.contracts[key]; ok && !con.inlines {
		return u.applyContract(st, w, con, key, fn, fn.Signature, args, res, in)
	}
	name := fn.String()
	ci := &callInfo{u, st, w, call, name, fn, fn.Signature, args, in, res}
	if h, ok := externs[name]; ok {
		u.usedExterns[name] = true
		return h.run(ci)
	}
	if ok, more, forks := u.prefixExtern(ci); ok {
		return more, forks
	}
	if u.isRepoFn(fn) && len(fn.Blocks) > 0 {
		u.inlined[key] = true
		u.push(st, fn, args, binds, res)
		return true, nil
	}
	return u.genericExtern(ci)
}

// genericExtern: scalar functions are uninterpreted and pure.
func (u *Unit) genericExtern(c *callInfo) (bool, []*State) {
	scalar := func(t types.Type) bool {
		_, ok := t.Underlying().(*types.Basic)
		return ok
	}
	ok := true
	ps := c.sig.Params()
	for i := 0; i < ps.Len(); i++ {
		if !scalar(ps.At(i).Type()) {
			ok = false
		}
	}
	rs := c.sig.Results()
	for i := 0; i < rs.Len(); i++ {
		if !scalar(rs.At(i).Type()) && rs.At(i).Type().String() != "error" {
			ok = false
		}
	}
	if c.sig.Recv() != nil {
		if _, isB := c.sig.Recv().Type().Underlying().(*types.Basic); !isB {
			ok = false
		}
	}
	if !ok {
		unsup("external function %s has no contract", c.name)
	}
	u.usedExterns["pure:"+c.name] = true
	var ts []*Term
	for i := range c.args {
		ts = append(ts, c.arg(i))
	}
	var out []Val
	for i := 0; i < rs.Len(); i++ {
		r := u.pureExtern(strings.TrimPrefix(c.name, ""), i, rs.At(i).Type(), ts)
		c.st.assume(wfVal(rs.At(i).Type(), r, c.st.alloc))
		out = append(out, r)
	}
	return c.ret(out...)
}

func (u *Unit) pureExtern(name string, i int, rt types.Type, args []*Term) *Term {
	switch name {
	case "strings.HasPrefix":
		return App("s_prefix", "Bool", args[1], args[0])
	case "strings.HasSuffix":
		return App("s_suffix", "Bool", args[1], args[0])
	case "strings.Contains":
		return App("s_contains", "Bool", args[0], args[1])
	case "strings.Index":
		return App("s_index", "Int", args[0], args[1])
	case "strings.ReplaceAll":
		return App("s_replaceall", "Str", args[0], args[1], args[2])
	}
	allLit := len(args) > 0
	for _, a := range args {
		if a.Op != "strlit" {
			allLit = false
		}
	}
	if allLit {
		if r := foldExtern(name, args); r != nil {
			return r
		}
	}
	r := UF(fmt.Sprintf("ext:%s#%d", name, i), sortOf(rt), args...)
	if d := decls[r.Op]; name == "path/filepath.Ext" && d != nil && d.Axioms == nil {
		x := BV("s?", "Str")
		t := App(r.Op, "Str", x)
		d.Axioms = []*Term{Forall([]*Term{x}, And(Le(App("s_len", "Int", t), App("s_len", "Int", x)), App("s_suffix", "Bool", t, x)), []*Term{t})}
	}
	return r
}

func foldExtern(name string, a []*Term) *Term {
	switch name {
	case "strings.ToUpper":
		return StrLit(strings.ToUpper(a[0].Name))
	case "strings.ToLower":
		return StrLit(strings.ToLower(a[0].Name))
	case "strings.TrimSpace":
		return StrLit(strings.TrimSpace(a[0].Name))
	}
	return nil
}

// ---- interface methods ----

func ifaceMethodKey(call *ssa.CallCommon) string {
	t := call.Value.Type()
	m := call.Method.Name()
	if n, ok := t.(*types.Named); ok {
		if n.Obj().Pkg() == nil {
			return "(" + n.Obj().Name() + ")." + m
		}
		p := strings.TrimPrefix(n.Obj().Pkg().Path(), modPath+"/")
		return p + ".(" + n.Obj().Name() + ")." + m
	}
	return "(" + t.String() + ")." + m
}

func (u *Unit) invoke(st *State, w *walk, call *ssa.CallCommon, args []Val, res ssa.Value, in ssa.Instruction) (bool, []*State) {
	recv := u.toTerm(st, args[0], call.Value.Type())
	u.oblige(st, w, "nil", "method call on nil interface", in, Not(Eq(ITag(recv), Int(0))))
	key := ifaceMethodKey(call)
	sig := call.Method.Type().(*types.Signature)
	if n, ok := intVal(ITag(recv)); ok && u.P.tagTypes[int(n)] != nil {
		if m := u.methodOf(u.P.tagTypes[int(n)], call.Method); m != nil {
			a := append([]Val{u.unbox(u.P.tagTypes[int(n)], recv)}, args[1:]...)
			return u.callFn(st, w, m, a, nil, call, res, in)
		}
	}
	// contract of the interface method (also inherited from embedded interfaces)
	for _, k := range append([]string{key}, u.embeddedKeys(call)...) {
		if con, ok := u.S.contracts[k]; ok {
			return u.applyContract(st, w, con, k, nil, sig, args, res, in)
		}
		if h, ok := externs[k]; ok {
			u.usedExterns[k] = true
			return h.run(&callInfo{u, st, w, call, k, nil, sig, args, in, res})
		}
	}
	// dispatch over the implementations in the repository
	it := call.Value.Type().Underlying().(*types.Interface)
	var forks []*State
	repoIface := false
	if n, ok := call.Value.Type().(*types.Named); ok && n.Obj().Pkg() != nil && u.P.repo[n.Obj().Pkg()] {
		repoIface = true
	}
	if !repoIface {
		unsup("interface method %s has no contract", key)
	}
	u.notes["interface "+typeStr(call.Value.Type())+" is implemented only by types of the repository"] = true
	var tags []*Term
	for _, t := range u.P.named {
		if !types.Implements(t, it) {
			continue
		}
		m := u.methodOf(t, call.Method)
		if m == nil {
			continue
		}
		if _, isPtr := t.(*types.Pointer); !isPtr {
			// values are boxed as such only when the repo boxes them; keep both
		}
		s := st.clone()
		tag := Int(int64(u.P.tag(t)))
		s.assume(Eq(ITag(recv), tag))
		tags = append(tags, Eq(ITag(recv), tag))
		rv := u.unbox(t, recv)
		s.assume(wfVal(t, rv, s.alloc))
		if s.dead() {
			continue
		}
		a := append([]Val{rv}, args[1:]...)
		more, fs := u.callFn(s, w, m, a, nil, call, res, in)
		if more {
			forks = append(forks, s)
		}
		forks = append(forks, fs...)
	}
	return false, forks
}

func (u *Unit) embeddedKeys(call *ssa.CallCommon) []string {
	var out []string
	m := call.Method
	if m.Pkg() != nil {
		p := strings.TrimPrefix(m.Pkg().Path(), modPath+"/")
		if r := m.Type().(*types.Signature).Recv(); r != nil {
			if n, ok := r.Type().(*types.Named); ok {
				out = append(out, p+".("+n.Obj().Name()+")."+m.Name())
			}
		}
	} else {
		out = append(out, "(error)."+m.Name())
	}
	return out
}

func (u *Unit) methodOf(t types.Type, m *types.Func) *ssa.Function {
	ms := u.P.prog.MethodSets.MethodSet(t)
	sel := ms.Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return u.P.prog.MethodValue(sel)
}

// ---- contracts ----

func (u *Unit) paramNames(con *Contract, fn *ssa.Function, n int) []string {
	if len(con.params) != n {
		panic(specErr{fmt.Sprintf("%s: contract %s names %d parameters, the function has %d", con.pos, con.key, len(con.params), n)})
	}
	return con.params
}

func paramTypes(sig *types.Signature, fn *ssa.Function, nargs int) []types.Type {
	var out []types.Type
	if fn != nil && len(fn.Params) == nargs {
		for _, p := range fn.Params {
			out = append(out, p.Type())
		}
		return out
	}
	if sig.Recv() != nil && nargs == sig.Params().Len()+1 {
		out = append(out, sig.Recv().Type())
	} else if nargs == sig.Params().Len()+1 {
		out = append(out, sig)
	}
	for i := 0; i < sig.Params().Len(); i++ {
		out = append(out, sig.Params().At(i).Type())
	}
	return out
}

func (u *Unit) ctxLets(c *evalCtx, con *Contract) {
	for _, l := range con.lets {
		b := c.eval(l.body)
		c.env[l.name] = b
	}
}

func (u *Unit) applyContract(st *State, w *walk, con *Contract, key string, fn *ssa.Function, sig *types.Signature, args []Val, res ssa.Value, in ssa.Instruction) (bool, []*State) {
	u.usedContracts[key] = true
	pt := paramTypes(sig, fn, len(args))
	names := u.paramNames(con, fn, len(args))
	env := map[string]bound{}
	for i, n := range names {
		if n == "_" {
			continue
		}
		t := u.toTerm(st, args[i], pt[i])
		env[n] = bound{t: t, typ: goT(pt[i])}
	}
	if u.con != nil {
		for _, a := range u.con.assigns {
			if a.at != "" && (strings.HasSuffix(key, "."+a.at) || strings.HasSuffix(key, ")."+a.at)) {
				env2 := map[string]bound{}
				for k, v := range u.params {
					env2[k] = v
				}
				for i := range args {
					if i < len(pt) {
						env2[fmt.Sprintf("arg%d", i)] = bound{t: u.toTerm(st, args[i], pt[i]), typ: goT(pt[i])}
					}
				}
				u.ghostAssign(st, &evalCtx{u: u, st: st, old: u.entry, env: env2, pkg: u.con.pkg}, a)
			}
		}
	}
	pre := &evalCtx{u: u, st: st, old: st, env: env, pkg: con.pkg}
	u.ctxLets(pre, con)
	short := key
	for i, r := range con.requires {
		l := r.label
		if l == "" {
			l = fmt.Sprintf("requires%d", i+1)
		}
		u.oblige(st, w, "precondition", short+":"+l, in, pre.boolean(r.expr))
	}
	if w.verify && u.infer == 0 {
		for i, a := range args {
			cl, ok := a.(*Closure)
			if t, isT := a.(*Term); !ok && isT {
				cl, ok = closureTab[t]
			}
			if ok && i < len(pt) {
				if k := "funcval:" + typeStr(pt[i]); u.S.contracts[k] != nil {
					u.checkClosure(st, w, cl, k, u.S.contracts[k], in)
				}
			}
		}
	}
	oldSt := st.clone()
	pre.st, pre.old = oldSt, oldSt
	// effects
	var ws map[string]bool
	if fn != nil && !con.extern {
		ws = u.P.writeSet(u.S, fn)
	} else {
		ws = u.P.contractWrites(u, con, pre)
	}
	allocPre := st.alloc
	if con.opt("noalloc") == "" {
		st.alloc = st.freshAlloc()
		st.assume(Le(allocPre, st.alloc))
	}
	var hl []string
	for h := range ws {
		hl = append(hl, h)
	}
	sort.Strings(hl)
	for _, hn := range hl {
		h := heaps[hn]
		if h == nil {
			continue
		}
		cur := st.getHeap(h)
		nh := st.freshHeap(h, st.alloc)
		r := BV("fr?", "Int")
		_, vs := arrSorts(h.sort)
		sel := App("select", vs, nh, r)
		mod := u.modPred(con, pre, h, r)
		st.assume(Forall([]*Term{r}, Implies(And(Lt(r, allocPre), Not(mod)), Eq(sel, App("select", vs, cur, r))), []*Term{sel}))
		for _, l := range u.logs {
			_ = l
		}
		u.logModifies(con, pre, h, st, allocPre)
		st.heap[hn] = nh
	}
	for _, tv := range u.S.tracks {
		pre := "F|" + strings.TrimPrefix(tv.pkg, "internal/") + "." + tv.typ + "|"
		hit := false
		for h := range ws {
			hit = hit || strings.HasPrefix(h, pre)
		}
		if hit {
			u.logGhost("g:" + tv.ghost)
			old := u.ghost(st, tv.ghost)
			nw := st.fresh("gh."+tv.ghost, old.Sort)
			st.ghost["g:"+tv.ghost] = nw
			r := BV("tr?", "Int")
			sel := App("select", "Bool", nw, r)
			st.assume(Forall([]*Term{r}, Implies(Lt(r, allocPre), Eq(sel, App("select", "Bool", old, r))), []*Term{sel}))
			st.assume(u.trackedIn(nw, st.alloc))
		}
	}
	for _, m := range con.modifies {
		if m.kind == "ghost" {
			u.logGhost("g:" + m.field)
			old := u.ghost(st, m.field)
			st.ghost["g:"+m.field] = st.fresh("gh."+m.field, old.Sort)
		}
	}
	for _, g := range con.ghostKeyed() {
		u.logGhost("g:" + g)
		old := u.ghost(st, g)
		st.ghost["g:"+g] = st.fresh("gh."+g, old.Sort)
		st.assume(u.ghostFrame(con, pre, g, old, st.ghost["g:"+g], allocPre))
	}
	// results
	var out []Val
	var rts []types.Type
	for i := 0; i < sig.Results().Len(); i++ {
		rts = append(rts, sig.Results().At(i).Type())
	}
	post := &evalCtx{u: u, st: st, old: oldSt, env: env, pkg: con.pkg}
	if len(con.results) != 0 && len(con.results) != len(rts) {
		panic(specErr{fmt.Sprintf("%s: contract %s names %d results, the function has %d", con.pos, con.key, len(con.results), len(rts))})
	}
	for i, t := range rts {
		c := st.fresh("res", sortOf(t))
		st.assume(wfVal(t, c, st.alloc))
		out = append(out, c)
		if len(con.results) > 0 {
			post.env[con.results[i]] = bound{t: c, typ: goT(t)}
		}
	}
	for _, e := range con.ensures {
		// a ghost given a constant value has that value
		if x := e.expr; x.op == "bin" && x.name == "==" && x.args[0].op == "ident" {
			if old, ok := st.ghost["g:"+x.args[0].name]; ok && post.env[x.args[0].name].t == nil && len(old.Args) == 0 {
				if v := post.eval(x.args[1]); v.t != nil && isLit(v.t) {
					st.ghost["g:"+x.args[0].name] = v.t
				}
			}
		}
		st.assume(post.boolean(e.expr))
	}
	for _, e := range con.names {
		st.assume(post.boolean(e.expr))
		u.usedExterns["naming: "+key+": "+e.text] = true
	}
	u.bindResult(st, res, out)
	return !st.dead(), nil
}

// ghostKeyed: ghost maps of which a contract changes single keys
func (con *Contract) ghostKeyed() []string {
	seen := map[string]bool{}
	var out []string
	for _, m := range con.modifies {
		if m.kind == "ghostkey" && !seen[m.field] {
			seen[m.field] = true
			out = append(out, m.field)
		}
	}
	return out
}

// ghostFrame: a ghost map differs only at the keys a contract names and at
// objects allocated since
func (u *Unit) ghostFrame(con *Contract, pre *evalCtx, g string, old, cur, alloc *Term) *Term {
	ks, vs := arrSorts(old.Sort)
	r := BV("gk?", ks)
	var cond []*Term
	if ks == "Int" {
		cond = append(cond, Lt(r, alloc))
	}
	for _, m := range con.modifies {
		if m.kind == "ghost" && m.field == g {
			return True
		}
		if m.kind == "ghostkey" && m.field == g && m.expr != nil {
			cond = append(cond, Not(Eq(r, pre.eval(m.expr).t)))
		}
	}
	sel := App("select", vs, cur, r)
	return Forall([]*Term{r}, Implies(And(cond...), Eq(sel, App("select", vs, old, r))), []*Term{sel})
}

// logModifies records what a callee may write for enclosing loops.
func (u *Unit) logModifies(con *Contract, pre *evalCtx, h *heapInfo, st *State, allocPre *Term) {
	if len(u.logs) == 0 {
		return
	}
	refs, any := u.modRefs(con, pre, h)
	for _, r := range refs {
		u.logWrite(h, r)
	}
	if any {
		a := Const("anyref!", "Int")
		constCnt[a] = 1 << 40
		u.logWrite(h, a)
	}
	// fresh objects
	u.logWrite(h, st.alloc)
}

// modRefs: the single references a contract may modify in a heap; any: a
// comprehension is involved.
func (u *Unit) modRefs(con *Contract, pre *evalCtx, h *heapInfo) (refs []*Term, any bool) {
	for _, m := range con.modifies {
		if len(m.vars) > 0 {
			if p := u.modPredOne(con, pre, m, h, BV("fr?", "Int")); p != False {
				any = true
			}
			continue
		}
		refs = append(refs, u.modTargets(pre, m, h)...)
	}
	return
}

// modTargets: refs modified in heap h by a plain modifies clause
func (u *Unit) modTargets(c *evalCtx, m modClause, h *heapInfo) []*Term {
	switch m.kind {
	case "ghost", "ghostkey", "nothing":
		return nil
	case "field":
		x := c.eval(m.expr)
		el, ok := derefT(x.typ.g)
		if !ok {
			efail(m.expr, "modifies: not a pointer")
		}
		pkg := c.pkgOfType(x.typ.g)
		_, path, _ := types.LookupFieldOrMethod(x.typ.g, true, pkg, m.field)
		if path == nil {
			efail(m.expr, "modifies: no field %s", m.field)
		}
		ref := x.t
		t := el
		for k, i := range path {
			s := t.Underlying().(*types.Struct)
			ft := s.Field(i).Type()
			if k == len(path)-1 {
				if isAgg(ft) {
					return u.aggTargets(Add(ref, Int(fieldOffset(s, i))), ft, h)
				}
				if heapF(t, i) == h {
					return []*Term{ref}
				}
				return nil
			}
			if p, ok := derefT(ft); ok {
				ref = Select(c.st.getHeap(heapF(t, i)), ref)
				t = p
			} else {
				ref = Add(ref, Int(fieldOffset(s, i)))
				t = ft
			}
		}
	case "deref", "obj":
		x := c.eval(m.expr)
		el, ok := derefT(x.typ.g)
		if !ok {
			efail(m.expr, "modifies: not a pointer")
		}
		return u.aggTargets(x.t, el, h)
	case "map":
		x := c.eval(m.expr)
		mt := x.typ.g.Underlying().(*types.Map)
		if h == heapD(mt) || h == heapV(mt) {
			return []*Term{x.t}
		}
	case "text":
		x := c.eval(m.expr).t
		if h != heapText && h != heapLost {
			return nil
		}
		if x.Sort == "Iface" {
			x = IVal(x)
		}
		return []*Term{x}
	case "elems":
		x := c.eval(m.expr)
		if sl, ok := x.typ.g.Underlying().(*types.Slice); ok && heapE(sl.Elem()) == h {
			return []*Term{SBase(x.t)}
		}
	}
	return nil
}

// aggTargets: references written when a whole object is overwritten
func (u *Unit) aggTargets(ref *Term, t types.Type, h *heapInfo) []*Term {
	switch s := t.Underlying().(type) {
	case *types.Struct:
		var out []*Term
		for i := 0; i < s.NumFields(); i++ {
			ft := s.Field(i).Type()
			if isAgg(ft) {
				out = append(out, u.aggTargets(Add(ref, Int(fieldOffset(s, i))), ft, h)...)
			} else if heapF(t, i) == h {
				out = append(out, ref)
			}
		}
		return out
	case *types.Array:
		if heapE(s.Elem()) == h {
			return []*Term{ref}
		}
		return nil
	}
	if heapC(t) == h {
		return []*Term{ref}
	}
	return nil
}

func (u *Unit) modPredOne(con *Contract, pre *evalCtx, m modClause, h *heapInfo, r *Term) *Term {
	if len(m.vars) == 0 {
		var cs []*Term
		for _, x := range u.modTargets(pre, m, h) {
			cs = append(cs, Eq(r, x))
		}
		return Or(cs...)
	}
	// comprehension: exists vars :: cond && r is a target
	d := *pre
	d.env = map[string]bound{}
	for k, v := range pre.env {
		d.env[k] = v
	}
	var vs []*Term
	for _, v := range m.vars {
		t := u.P.specType(v.typ, con.pkg, m.cond)
		d.depth++
		b := BV(fmt.Sprintf("%s?%d", v.name, d.depth+50), t.sort())
		vs = append(vs, b)
		d.env[v.name] = bound{t: b, typ: t}
	}
	// direct form: one reference variable that is itself the target
	ts := u.modTargets(&d, m, h)
	if len(ts) == 0 {
		return False
	}
	cond := (&d).boolean(m.cond)
	var out []*Term
	for _, x := range ts {
		if len(vs) == 1 && x == vs[0] {
			out = append(out, Subst(cond, map[*Term]*Term{vs[0]: r}))
			continue
		}
		body := And(cond, Eq(r, x))
		out = append(out, Exists(vs, body, autoTriggers(vs, body)...))
	}
	return Or(out...)
}

func (u *Unit) modPred(con *Contract, pre *evalCtx, h *heapInfo, r *Term) *Term {
	var cs []*Term
	for _, m := range con.modifies {
		cs = append(cs, u.modPredOne(con, pre, m, h, r))
	}
	return Or(cs...)
}

// contractWrites: heaps an assumed contract may write (its modifies clauses)
func (P *Program) contractWrites(u *Unit, con *Contract, pre *evalCtx) map[string]bool {
	out := map[string]bool{}
	for _, hn := range sortedKeys(heaps) {
		h := heaps[hn]
		refs, any := u.modRefs(con, pre, h)
		if len(refs) > 0 || any {
			out[hn] = true
		}
	}
	// heaps of fresh results that the contract describes
	for k := range con.opts {
		if strings.HasPrefix(k, "writes_") {
			out[k[7:]] = true
		}
	}
	for _, hn := range externFreshHeaps[con.key] {
		out[hn] = true
	}
	return out
}

var externFreshHeaps = map[string][]string{}

// ---- static write sets ----

type wsKey struct{ fn *ssa.Function }

var wsMemo = map[*ssa.Function]map[string]bool{}

func heapsOfStore(t types.Type, out map[string]bool) {
	switch s := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < s.NumFields(); i++ {
			ft := s.Field(i).Type()
			if isAgg(ft) {
				heapsOfStore(ft, out)
			} else {
				out[heapF(t, i).name] = true
			}
		}
		return
	case *types.Array:
		out[heapE(s.Elem()).name] = true
		return
	}
	out[heapC(t).name] = true
}

func (P *Program) writeSet(S *SpecDB, fn *ssa.Function) map[string]bool {
	if m, ok := wsMemo[fn]; ok {
		return m
	}
	out := map[string]bool{}
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visitMethodImpls := func(call *ssa.CallCommon) {
		it := call.Value.Type().Underlying().(*types.Interface)
		for _, t := range P.named {
			if types.Implements(t, it) {
				ms := P.prog.MethodSets.MethodSet(t)
				if sel := ms.Lookup(call.Method.Pkg(), call.Method.Name()); sel != nil {
					if m := P.prog.MethodValue(sel); m != nil {
						visit(m)
					}
				}
			}
		}
	}
	visit = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		if h, ok := externs[f.String()]; ok {
			for _, w := range h.writes {
				out[w] = true
			}
			return
		}
		if c, ok := S.contracts[funcKey(f)]; ok && c.extern {
			for _, w := range externFreshHeaps[c.key] {
				out[w] = true
			}
			P.modHeapsStatic(S, c, f, out)
			return
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					pt := x.Addr.Type().Underlying().(*types.Pointer).Elem()
					switch a := x.Addr.(type) {
					case *ssa.FieldAddr:
						if isAgg(pt) {
							heapsOfStore(pt, out)
						} else {
							out[heapF(a.X.Type().Underlying().(*types.Pointer).Elem(), a.Field).name] = true
						}
					case *ssa.IndexAddr:
						if isStruct(pt) {
							heapsOfStore(pt, out)
						}
						out[heapE(pt).name] = true
					default:
						heapsOfStore(pt, out)
					}
				case *ssa.Alloc:
					heapsOfStore(x.Type().Underlying().(*types.Pointer).Elem(), out)
				case *ssa.MakeMap:
					out[heapD(x.Type().Underlying().(*types.Map)).name] = true
				case *ssa.MakeSlice:
					out[heapE(x.Type().Underlying().(*types.Slice).Elem()).name] = true
				case *ssa.MapUpdate:
					mt := x.Map.Type().Underlying().(*types.Map)
					out[heapD(mt).name] = true
					out[heapV(mt).name] = true
				case *ssa.Convert:
					if sl, ok := x.Type().Underlying().(*types.Slice); ok {
						out[heapE(sl.Elem()).name] = true
					}
				case *ssa.MakeClosure:
					visit(x.Fn.(*ssa.Function))
				case ssa.CallInstruction:
					call := x.Common()
					if call.IsInvoke() {
						k := ifaceMethodKey(call)
						if h, ok := externs[k]; ok {
							for _, w := range h.writes {
								out[w] = true
							}
						}
						visitMethodImpls(call)
						continue
					}
					switch y := call.Value.(type) {
					case *ssa.Builtin:
						switch y.Name() {
						case "append", "copy":
							if sl, ok := call.Args[0].Type().Underlying().(*types.Slice); ok {
								out[heapE(sl.Elem()).name] = true
							}
						case "delete":
							out[heapD(call.Args[0].Type().Underlying().(*types.Map)).name] = true
						}
					case *ssa.Function:
						visit(y)
						if y.String() == "sort.Slice" || y.String() == "sort.SliceStable" {
							if mi, ok := call.Args[0].(*ssa.MakeInterface); ok {
								if sl, ok := mi.X.Type().Underlying().(*types.Slice); ok {
									out[heapE(sl.Elem()).name] = true
								}
							}
						}
					case *ssa.MakeClosure:
						visit(y.Fn.(*ssa.Function))
					}
				}
				for _, op := range in.Operands(nil) {
					if f2, ok := (*op).(*ssa.Function); ok && f2 != nil {
						if P.repo[pkgOf(f2)] {
							visit(f2)
						}
					}
				}
			}
		}
	}
	visit(fn)
	wsMemo[fn] = out
	return out
}

func pkgOf(f *ssa.Function) *types.Package {
	if f.Pkg != nil {
		return f.Pkg.Pkg
	}
	return nil
}

// modHeapsStatic: heaps named by the modifies clauses of an assumed contract
func (P *Program) modHeapsStatic(S *SpecDB, c *Contract, f *ssa.Function, out map[string]bool) {
	if len(c.modifies) == 0 {
		return
	}
	u := &Unit{P: P, S: S, con: c}
	st := &State{heap: map[string]*Term{}, alloc: alloc0, ghost: map[string]*Term{}}
	env := map[string]bound{}
	var ps []*types.Var
	if r := f.Signature.Recv(); r != nil {
		ps = append(ps, r)
	}
	for i := 0; i < f.Signature.Params().Len(); i++ {
		ps = append(ps, f.Signature.Params().At(i))
	}
	for i, p := range ps {
		if i < len(c.params) {
			env[c.params[i]] = bound{t: Const(fmt.Sprintf("ws:%d%s", i, sortCode(sortOf(p.Type()))), sortOf(p.Type())), typ: goT(p.Type())}
		}
	}
	pre := &evalCtx{u: u, st: st, old: st, env: env, pkg: c.pkg}
	for hn := range P.contractWrites(u, c, pre) {
		out[hn] = true
	}
}

// ---- built-ins ----

func (u *Unit) builtin(st *State, w *walk, b *ssa.Builtin, call *ssa.CallCommon, args []Val, res ssa.Value, in ssa.Instruction) (bool, []*State) {
	ret := func(v Val) (bool, []*State) {
		u.bindResult(st, res, []Val{v})
		return true, nil
	}
	at := func(i int) types.Type { return call.Args[i].Type() }
	term := func(i int) *Term { return u.toTerm(st, args[i], at(i)) }
	switch b.Name() {
	case "len":
		x := term(0)
		switch t := at(0).Underlying().(type) {
		case *types.Slice:
			return ret(SLen(x))
		case *types.Basic:
			return ret(sLen(x))
		case *types.Map:
			d := Select(st.getHeap(heapD(t)), x)
			return ret(card(d))
		case *types.Array:
			return ret(Int(t.Len()))
		case *types.Chan:
			c := st.fresh("chlen", "Int")
			st.assume(Le(Int(0), c))
			return ret(c)
		}
	case "cap":
		x := term(0)
		if x.Sort == "Slice" {
			return ret(SCap(x))
		}
	case "append":
		sl := at(0).Underlying().(*types.Slice)
		s := term(0)
		var t *Term
		if bt, ok := at(1).Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
			t = u.stringToSlice(st, term(1), sl.Elem(), true)
		} else {
			t = term(1)
		}
		n := -1
		if k, ok := intVal(SLen(t)); ok && k <= 8 {
			n = int(k)
		}
		if isStruct(sl.Elem()) && false {
			unsup("append of structs")
		}
		return ret(u.appendSlice(st, sl.Elem(), s, t, n))
	case "delete":
		u.mapDelete(st, at(0).Underlying().(*types.Map), term(0), term(1))
		return true, nil
	case "copy":
		sl := at(0).Underlying().(*types.Slice)
		d, s := term(0), term(1)
		if s.Sort != "Slice" {
			unsup("copy from string")
		}
		h := heapE(sl.Elem())
		n := Ite(Le(SLen(s), SLen(d)), SLen(s), SLen(d))
		hp := st.getHeap(h)
		arr := u.catArr(Select(hp, SBase(d)), SOff(d), Select(hp, SBase(s)), SOff(s), n)
		u.logWrite(h, SBase(d))
		st.setHeap(h, Store(hp, SBase(d), arr))
		return ret(n)
	case "close":
		return u.closeChan(st, w, args[0], call, res, in)
	case "print", "println":
		return true, nil
	case "ssa:wrapnilchk":
		return ret(args[0])
	case "min", "max":
		x, y := term(0), term(1)
		if b.Name() == "min" {
			return ret(Ite(Le(x, y), x, y))
		}
		return ret(Ite(Le(x, y), y, x))
	}
	unsup("built-in %s", b.Name())
	return false, nil
}
