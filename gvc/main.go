package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"go/types"

	"golang.org/x/tools/go/ssa"
)

func usage() {
	fmt.Fprintln(os.Stderr, "usage: gvc verify [-f func] | ssa PATTERN | check PROP")
	os.Exit(3)
}

func main() {
	debug.SetGCPercent(400)
	if len(os.Args) < 2 {
		usage()
	}
	repo := os.Getenv("VERIF_REPO")
	if repo == "" {
		repo = "/repo"
	}
	verif := os.Getenv("VERIF_HOME")
	if verif == "" {
		verif = "/verif"
	}
	switch os.Args[1] {
	case "ssa":
		P, err := loadProgram(repo)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		for _, k := range sortedKeys(P.funcs) {
			if len(os.Args) < 3 {
				fmt.Println(k)
				continue
			}
			if strings.Contains(k, os.Args[2]) {
				fmt.Println("==== " + k)
				P.funcs[k].WriteTo(os.Stdout)
			}
		}
	case "sim":
		os.Exit(cmdSim(repo, verif, os.Args[2:]))
	case "verify":
		os.Exit(cmdVerify(repo, verif, os.Args[2:]))
	case "check":
		if len(os.Args) < 3 {
			usage()
		}
		tier := "quick"
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		os.Exit(cmdCheck(repo, verif, os.Args[2], tier))
	default:
		usage()
	}
}

// checkProp is the property being decided; deadline ends solver attempts.
var checkProp string
var deadline time.Time
var failCount int32

func cmdVerify(repo, verif string, args []string) int {
	t0 := time.Now()
	P, err := loadProgram(repo)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	S, err := loadSpecs(verif + "/contracts")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	tl := time.Since(t0)
	var keys []string
	for _, a := range args {
		for _, k := range sortedKeys(S.contracts) {
			if !S.contracts[k].extern && strings.Contains(k, a) {
				keys = append(keys, k)
			}
		}
	}
	bad := 0
	for _, k := range keys {
		t1 := time.Now()
		u := verifyContract(P, S, k)
		dischargeAll([]*Unit{u}, false)
		n, ok := 0, 0
		for _, o := range u.obls {
			n++
			if o.Proved {
				ok++
			}
		}
		fmt.Printf("%-60s %d/%d obligations, %d returns, %d invariants, %.1fs\n", k, ok, n, u.returns, u.invCount, time.Since(t1).Seconds())
		if u.failure != "" {
			fmt.Println("   FAILURE:", u.failure)
			bad++
		}
		for _, o := range u.obls {
			if !o.Proved {
				bad++
				fmt.Printf("   FAILED %s [%s] at %s  (%s)\n", o.Kind, o.Label, o.Pos, o.Status)
				if os.Getenv("GVC_GOAL") != "" {
					fmt.Printf("      goal: %.1500s\n", o.goal.String())
					if os.Getenv("GVC_GOAL") == "2" {
						for _, a := range o.asserts {
							fmt.Printf("      asm: %.700s\n", a.String())
						}
					}
				}
			}
		}
	}
	fmt.Printf("load %.1fs total %.1fs solver %.1fs runs %d\n", tl.Seconds(), time.Since(t0).Seconds(), float64(solverTime)/1e9, solverRuns)
	if bad > 0 {
		return 1
	}
	return 0
}

// verifyContract generates the obligations of one function.
func verifyContract(P *Program, S *SpecDB, key string) (u *Unit) {
	con := S.contracts[key]
	u = &Unit{P: P, S: S, con: con, name: key, native: con.native, params: map[string]bound{}, loopC: map[string]*loopCacheEnt{},
		usedContracts: map[string]bool{}, usedExterns: map[string]bool{}, inlined: map[string]bool{}, notes: map[string]bool{}}
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case unsupported:
				u.failure = "unsupported: " + e.msg
			case specErr:
				u.failure = "specification: " + e.msg
			default:
				if os.Getenv("GVC_DEBUG") != "" {
					panic(r)
				}
				u.failure = fmt.Sprintf("internal: %v", r)
				if os.Getenv("GVC_STACK") != "" {
					debug.PrintStack()
				}
			}
		}
	}()
	fn := P.funcs[key]
	if fn == nil {
		if con.opt("helper") != "" {
			u.notes["contract of a helper that no longer exists: "+key] = true
			u.returns = 1
			return u
		}
		u.failure = "function not found: " + key
		return
	}
	u.fn = fn
	st := &State{heap: map[string]*Term{}, alloc: alloc0, ghost: map[string]*Term{}}
	st.assume(Le(Int(1), alloc0))
	var args []Val
	names := u.paramNames(con, fn, len(fn.Params))
	for i, p := range fn.Params {
		c := Const("p:"+key+":"+names[i]+fmt.Sprint(i), sortOf(p.Type()))
		st.assume(wfVal(p.Type(), c, st.alloc))
		args = append(args, c)
		if names[i] != "_" {
			u.params[names[i]] = bound{t: c, typ: goT(p.Type())}
		}
	}
	for _, g := range sortedKeys(S.ghosts) {
		st.ghost["g:"+g] = u.ghost(st, g)
	}
	for _, tv := range S.tracks {
		st.assume(u.trackedIn(u.ghost(st, tv.ghost), alloc0))
	}
	if len(fn.FreeVars) > 0 {
		// free variables are extra parameters named in the contract through opt
		unsup("contract on a closure with free variables")
	}
	pre := &evalCtx{u: u, st: st, old: st, env: u.params, pkg: con.pkg}
	for _, r := range con.requires {
		st.assume(pre.boolean(r.expr))
	}
	u.ctxLets(pre, con)
	u.entry = st.clone()
	u.preconds = st.pc[:len(st.pc):len(st.pc)]
	u.push(st, fn, args, nil, nil)
	w := &walk{verify: true, baseDepth: 1}
	w.onReturn = func(s *State, res []Val) { u.checkReturn(s, w, con, fn, res) }
	u.explore(st, w)
	return
}

func (u *Unit) checkReturn(s *State, w *walk, con *Contract, fn *ssa.Function, res []Val) {
	u.returns++
	env := map[string]bound{}
	for k, v := range u.params {
		env[k] = v
	}
	sig := fn.Signature
	if len(con.results) > 0 && len(con.results) != sig.Results().Len() {
		panic(specErr{con.pos + ": wrong number of results"})
	}
	for i := range con.results {
		rt := sig.Results().At(i).Type()
		env[con.results[i]] = bound{t: u.toTerm(s, res[i], rt), typ: goT(rt)}
	}
	c := &evalCtx{u: u, st: s, old: u.entry, env: env, pkg: con.pkg}
	in := s.top().block.Instrs[len(s.top().block.Instrs)-1]
	emit := func(kind, label string, goal *Term, tags []string) {
		if goal == True {
			u.trivial++
			return
		}
		u.obls = append(u.obls, &Obligation{Unit: u.name, Kind: kind, Label: label, Pos: u.pos(in), asserts: s.pc[:len(s.pc):len(s.pc)], goal: goal, native: u.native, tags: tags})
		if kind == "postcondition" && con.opt("witness") != "" {
			u.obls[len(u.obls)-1].alts = instances(goal, witnesses(s))
		}
	}
	for _, a := range con.assigns {
		if a.at == "" {
			u.ghostAssign(s, c, a)
		}
	}
	for _, e := range con.ensures {
		t := c.boolean(e.expr)
		// conjuncts separately
		if t.Op == "and" {
			for _, x := range t.Args {
				emit("postcondition", e.label, x, e.tags)
			}
		} else {
			emit("postcondition", e.label, t, e.tags)
		}
	}
	if con.noframe {
		return
	}
	// frame
	pre := &evalCtx{u: u, st: u.entry, old: u.entry, env: u.params, pkg: con.pkg}
	for _, hn := range sortedKeys(s.heap) {
		h := heaps[hn]
		cur := s.heap[hn]
		old := u.entry.getHeap(h)
		if cur == old {
			continue
		}
		r := Const("frameref", "Int")
		mod := u.modPred(con, pre, h, r)
		emit("frame", hn, Implies(And(Le(Int(1), r), Lt(r, u.entry.alloc), Not(mod)), Eq(Select(cur, r), Select(old, r))), nil)
	}
	for g, t := range s.ghost {
		if !strings.HasPrefix(g, "g:") || t == u.entry.ghost[g] || u.isTrack(g[2:]) {
			continue
		}
		ok, keyed := false, false
		for _, m := range con.modifies {
			if m.kind == "ghost" && m.field == g[2:] {
				ok = true
			}
			keyed = keyed || m.kind == "ghostkey" && m.field == g[2:]
		}
		if !ok && keyed {
			emit("frame", g, u.ghostFrame(con, pre, g[2:], u.entry.ghost[g], t, u.entry.alloc), nil)
		} else if !ok {
			emit("frame", g, Eq(t, u.entry.ghost[g]), nil)
		}
	}
}

// dischargeAll proves all obligations in parallel.
func dischargeAll(us []*Unit, deep bool) {
	var wg sync.WaitGroup
	lim := make(chan struct{}, 8)
	for _, u := range us {
		// identical obligations are proved once
		for _, o := range u.obls {
			wg.Add(1)
			lim <- struct{}{}
			go func(o *Obligation) {
				defer wg.Done()
				defer func() { <-lim }()
				if checkProp != "" && (atomic.LoadInt32(&failCount) >= 10 || !deadline.IsZero() && time.Now().After(deadline)) {
					o.Status = "not attempted: too many failures or out of time"
					return
				}
				defer func() {
					if !o.Proved {
						atomic.AddInt32(&failCount, 1)
					}
				}()
				if r, ok := o.proveInstance(); ok {
					o.Proved, o.Backend, o.Status, o.Seconds = true, r.backend, r.status, r.dur.Seconds()
					return
				}
				r := prove(o.asserts, o.goal, o.native, deep)
				if r.failed != nil {
					o.goal, o.asserts = r.failed, r.failedAsserts
				}
				o.Proved, o.Backend, o.Status, o.Seconds = r.proved, r.backend, r.status, r.dur.Seconds()
			}(o)
		}
	}
	wg.Wait()
}

var _ = sort.Strings
var _ types.Type

func (u *Unit) isTrack(g string) bool {
	for _, tv := range u.S.tracks {
		if tv.ghost == g {
			return true
		}
	}
	return false
}

// ghostAssign performs one update of ghost state.
func (u *Unit) ghostAssign(s *State, c *evalCtx, a assignClause) {
	v := c.eval(a.val).t
	k := "g:" + a.ghost
	if a.when != nil {
		cur := u.ghost(s, a.ghost)
		if a.key != nil {
			cur = Select(cur, c.eval(a.key).t)
		}
		v = Ite(c.boolean(a.when), v, cur)
	}
	u.logGhost(k)
	if a.key == nil {
		s.ghost[k] = v
	} else {
		s.ghost[k] = nameDef("gh", Store(u.ghost(s, a.ghost), c.eval(a.key).t, v))
	}
}
