package main

// Goroutines and channels. Every goroutine is verified on its own, against the
// "goensures" clauses of the contract of the function that starts it: its body
// is executed from the state at the go statement, with the ghost state declared
// "thread" empty (that is the goroutine's own history). What arrives on a
// channel is what the contract recv:TYPE of the channel's element type says;
// send:TYPE, close:TYPE and makechan:TYPE state what a send, a close and a new
// channel record and require. What other goroutines do to memory is not
// modelled (reported as an assumption).

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const concNote = "goroutines are verified one by one: no goroutine changes memory another one uses except through channels, messages are not changed after being sent"

func elemOf(ch types.Type) types.Type { return ch.Underlying().(*types.Chan).Elem() }

func (u *Unit) chanContract(op string, ch types.Type) (string, *Contract) {
	k := op + ":" + typeStr(elemOf(ch))
	return k, u.S.contracts[k]
}

func chanSig(ch types.Type, params []types.Type, results []types.Type) *types.Signature {
	tuple := func(ts []types.Type) *types.Tuple {
		var vs []*types.Var
		for _, t := range ts {
			vs = append(vs, types.NewVar(0, nil, "", t))
		}
		return types.NewTuple(vs...)
	}
	return types.NewSignatureType(nil, nil, nil, tuple(params), tuple(results), false)
}

func (u *Unit) makeChan(st *State, w *walk, x *ssa.MakeChan) Val {
	n := u.term(st, x.Size)
	u.oblige(st, w, "bounds", "make: channel size in range", x, Le(Int(0), n))
	u.notes[concNote] = true
	if k, con := u.chanContract("makechan", x.Type()); con != nil {
		u.applyContract(st, w, con, k, nil, chanSig(x.Type(), []types.Type{types.Typ[types.Int]}, []types.Type{x.Type()}), []Val{n}, x, x)
		return st.top().env[x]
	}
	r := st.alloc
	st.alloc = Add(st.alloc, Int(1))
	return r
}

// threadGhosts empties the history of a new goroutine.
func (u *Unit) threadGhosts(st *State) {
	for _, g := range sortedKeys(u.S.ghosts) {
		if !u.S.ghosts[g].thread {
			continue
		}
		cur := u.ghost(st, g)
		k := "g:" + g
		switch {
		case cur.Sort == "Int":
			st.ghost[k] = Int(0)
		case cur.Sort == "Bool":
			st.ghost[k] = False
		case !strings.HasPrefix(cur.Sort, "(Array"):
			st.ghost[k] = st.fresh("gh."+g, cur.Sort)
		default:
			if d, r := arrSorts(cur.Sort); r == "Bool" {
				st.ghost[k] = ConstArr(d, "Bool", False)
				continue
			} else if r == "Int" {
				st.ghost[k] = ConstArr(d, "Int", Int(0))
				continue
			}
			st.ghost[k] = st.fresh("gh."+g, cur.Sort)
		}
	}
}

func (u *Unit) goStmt(st *State, w *walk, x *ssa.Go) (bool, []*State) {
	u.notes[concNote] = true
	if _, ok := u.S.ghosts["goN"]; ok {
		u.logGhost("g:goN")
		st.ghost["g:goN"] = Add(u.ghost(st, "goN"), Int(1))
	}
	if !w.verify || u.infer != 0 {
		return true, nil
	}
	con, env, entry := u.con, u.params, u.entry
	if w.goCon != nil {
		con, env, entry = w.goCon, w.goEnv, w.goEntry
	}
	if con == nil || len(con.goensures) == 0 {
		u.notes["the goroutine started by "+u.name+" is not under contract there"] = true
		return true, nil
	}
	run := st.clone()
	run.loops = nil
	u.threadGhosts(run)
	call := &x.Call
	var fnVal Val
	var args []Val
	if call.IsInvoke() {
		args = append(args, u.val(run, call.Value))
	} else {
		fnVal = u.val(run, call.Value)
	}
	for _, a := range call.Args {
		args = append(args, u.val(run, a))
	}
	base := len(run.frames)
	check := func(s *State) {
		u.returns++
		c := &evalCtx{u: u, st: s, old: entry, env: env, pkg: con.pkg}
		for _, e := range con.goensures {
			t := c.boolean(e.expr)
			for _, p := range conjuncts(t) {
				if p == True {
					u.trivial++
					continue
				}
				u.obls = append(u.obls, &Obligation{Unit: u.name, Kind: "postcondition", Label: "goroutine:" + e.label, Pos: u.pos(x), asserts: s.pc[:len(s.pc):len(s.pc)], goal: p, native: u.native, tags: e.tags})
				if con.opt("witness") != "" {
					u.obls[len(u.obls)-1].alts = instances(p, witnesses(s))
				}
			}
		}
	}
	sub := &walk{verify: true, baseDepth: base + 1, onReturn: func(s *State, _ []Val) { check(s) }}
	more, forks := u.callValues(run, sub, call, fnVal, args, nil, x)
	if more {
		forks = append(forks, run)
	}
	for _, s := range forks {
		if len(s.frames) == base {
			check(s) // a call under contract
			continue
		}
		u.explore(s, sub)
	}
	return true, nil
}

func (u *Unit) send(st *State, w *walk, x *ssa.Send) (bool, []*State) {
	u.notes[concNote] = true
	return u.sendVal(st, w, x.Chan.Type(), u.val(st, x.Chan), u.val(st, x.X), x), nil
}

func (u *Unit) sendVal(st *State, w *walk, ct types.Type, ch, v Val, in ssa.Instruction) bool {
	c := u.toTerm(st, ch, ct)
	st.assume(Not(Eq(c, Int(0)))) // a send on a nil channel never returns
	k, con := u.chanContract("send", ct)
	if con == nil {
		st.alloc = st.freshAlloc()
		return !st.dead()
	}
	more, _ := u.applyContract(st, w, con, k, nil, chanSig(ct, []types.Type{ct, elemOf(ct)}, nil), []Val{c, v}, nil, in)
	return more
}

// recvVal returns the value received and whether it was sent.
func (u *Unit) recvVal(st *State, w *walk, ct types.Type, ch Val, x ssa.Value, in ssa.Instruction) (Val, *Term, bool) {
	c := u.toTerm(st, ch, ct)
	st.assume(Not(Eq(c, Int(0))))
	el := elemOf(ct)
	k, con := u.chanContract("recv", ct)
	if con == nil {
		a := st.alloc
		st.alloc = st.freshAlloc()
		st.assume(Le(a, st.alloc))
		v, ok := st.fresh("recv", sortOf(el)), st.fresh("recvok", "Bool")
		st.assume(wfVal(el, v, st.alloc))
		st.assume(Or(ok, Eq(v, zeroOf(el))))
		return v, ok, !st.dead()
	}
	more, _ := u.applyContract(st, w, con, k, nil, chanSig(ct, []types.Type{ct}, []types.Type{el, types.Typ[types.Bool]}), []Val{c}, x, in)
	t := st.top().env[x].(Tuple)
	v, ok := u.toTerm(st, t[0], el), u.toTerm(st, t[1], types.Typ[types.Bool])
	st.assume(Or(ok, Eq(v, zeroOf(el))))
	return v, ok, more && !st.dead()
}

func (u *Unit) recv(st *State, w *walk, x *ssa.UnOp) (bool, []*State) {
	u.notes[concNote] = true
	v, ok, more := u.recvVal(st, w, x.X.Type(), u.val(st, x.X), x, x)
	if x.CommaOk {
		st.top().env[x] = Tuple{v, ok}
	} else {
		st.top().env[x] = v
	}
	return more, nil
}

// selectStmt: any case may be the one that proceeds.
func (u *Unit) selectStmt(st *State, w *walk, x *ssa.Select) (bool, []*State) {
	u.notes[concNote] = true
	var forks []*State
	result := func(s *State, idx int, ok *Term, at int, v Val) {
		t := Tuple{Int(int64(idx)), ok}
		for i, c := range x.States {
			if c.Dir != types.RecvOnly {
				continue
			}
			if i == at {
				t = append(t, v)
			} else {
				t = append(t, zeroOf(elemOf(c.Chan.Type())))
			}
		}
		s.top().env[x] = t
		forks = append(forks, s)
	}
	for i, c := range x.States {
		s := st.clone()
		if c.Dir == types.RecvOnly {
			v, ok, more := u.recvVal(s, w, c.Chan.Type(), u.val(s, c.Chan), x, x)
			if more {
				result(s, i, ok, i, v)
			}
		} else if u.sendVal(s, w, c.Chan.Type(), u.val(s, c.Chan), u.val(s, c.Send), x) {
			result(s, i, False, -1, nil)
		}
	}
	if !x.Blocking {
		result(st.clone(), -1, False, -1, nil)
	}
	return false, forks
}

func (u *Unit) closeChan(st *State, w *walk, ch Val, call *ssa.CallCommon, res ssa.Value, in ssa.Instruction) (bool, []*State) {
	u.notes[concNote] = true
	ct := call.Args[0].Type()
	c := u.toTerm(st, ch, ct)
	u.oblige(st, w, "nil", "close of nil channel", in, Not(Eq(c, Int(0))))
	if k, con := u.chanContract("close", ct); con != nil {
		return u.applyContract(st, w, con, k, nil, chanSig(ct, []types.Type{ct}, nil), []Val{c}, nil, in)
	}
	return true, nil
}

// checkClosure: a function given as an argument satisfies the contract of its
// parameter's type.
func (u *Unit) checkClosure(st *State, w *walk, cl *Closure, k string, con *Contract, in ssa.Instruction) {
	u.usedContracts[k] = true
	run := st.clone()
	run.loops = nil
	sig := cl.fn.Signature
	env := map[string]bound{}
	var args []Val
	if cl.recv != nil {
		args = append(args, cl.recv)
	}
	a := run.alloc
	run.alloc = run.freshAlloc()
	run.assume(Le(a, run.alloc))
	if len(con.params) != sig.Params().Len()+1 {
		panic(specErr{con.pos + ": wrong number of parameters"})
	}
	for i := 0; i < sig.Params().Len(); i++ {
		t := sig.Params().At(i).Type()
		v := run.fresh("fnarg", sortOf(t))
		run.assume(wfVal(t, v, run.alloc))
		args = append(args, v)
		env[con.params[i+1]] = bound{t: v, typ: goT(t)}
	}
	pre := &evalCtx{u: u, st: run, old: run, env: env, pkg: con.pkg}
	for _, r := range con.requires {
		run.assume(pre.boolean(r.expr))
	}
	entry := run.clone()
	base := len(run.frames)
	sub := &walk{verify: true, baseDepth: base + 1, goCon: con, goEnv: env, goEntry: entry}
	sub.onReturn = func(s *State, _ []Val) {
		c := &evalCtx{u: u, st: s, old: entry, env: env, pkg: con.pkg}
		for _, e := range con.ensures {
			for _, p := range conjuncts(c.boolean(e.expr)) {
				u.obls = append(u.obls, &Obligation{Unit: u.name, Kind: "postcondition", Label: k + ":" + e.label, Pos: u.pos(in), asserts: s.pc[:len(s.pc):len(s.pc)], goal: p, native: u.native, tags: e.tags})
			}
		}
	}
	u.push(run, cl.fn, args, cl.binds, nil)
	u.inlined[funcKey(cl.fn)] = true
	u.explore(run, sub)
}
