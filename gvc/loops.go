package main

// Loops: write-set inference, invariant candidates, Houdini.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type loopInfo struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
}

type candidate struct {
	name string
	t    *Term
}

// havocInfo relates the havoced loop-head state to its entry and current states.
type havocInfo struct {
	hs     *State // state at the loop head (arbitrary iteration)
	phis   []*ssa.Phi
	phiC   []*Term           // havoc constants of the phis (nil: not havoced)
	heapW  map[string]*Term  // heap name -> head version
	refC   map[*Term]refCell // fresh cell constants -> heap, ref
	allocC *Term
	ghostC map[string]*Term
}

type refCell struct {
	h   *heapInfo
	ref *Term
}

var loopMemo = map[*ssa.Function]map[*ssa.BasicBlock]*loopInfo{}

func loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]*loopInfo {
	if m, ok := loopMemo[fn]; ok {
		return m
	}
	m := map[*ssa.BasicBlock]*loopInfo{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				lp := m[s]
				if lp == nil {
					lp = &loopInfo{s, map[*ssa.BasicBlock]bool{s: true}}
					m[s] = lp
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if lp.body[x] {
						continue
					}
					lp.body[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	loopMemo[fn] = m
	return m
}

type plan struct {
	refs   map[string][]*Term // invariant written refs
	fresh  map[string]bool    // fresh objects written
	any    map[string]bool
	ghosts map[string]bool
	alloc  bool
}

func newPlan() *plan {
	return &plan{map[string][]*Term{}, map[string]bool{}, map[string]bool{}, map[string]bool{}, false}
}

// iteLeaves of a reference term
func iteLeaves(t *Term) []*Term {
	if t.Op == "ite" {
		return append(iteLeaves(t.Args[1]), iteLeaves(t.Args[2])...)
	}
	return []*Term{t}
}

// isFreshRef: alloc constant created inside the loop, plus a constant
func isFreshRef(t *Term, entryCnt int) bool {
	base := t
	if t.Op == "+" && len(t.Args) == 2 {
		if _, ok := intVal(t.Args[1]); ok {
			base = t.Args[0]
		}
	}
	if !allocConsts[base] {
		return false
	}
	return constCnt[base] > entryCnt
}

// classify adds the writes of one exploration to the plan; true if it grew.
func (p *plan) classify(log map[string][]*Term, entryCnt int) bool {
	grew := false
	for h, refs := range log {
		for _, r := range refs {
			for _, l := range iteLeaves(r) {
				switch {
				case isFreshRef(l, entryCnt):
					if !p.fresh[h] {
						p.fresh[h] = true
						grew = true
					}
				case maxCnt(l) <= entryCnt:
					dup := false
					for _, x := range p.refs[h] {
						if x == l {
							dup = true
						}
					}
					if !dup {
						p.refs[h] = append(p.refs[h], l)
						grew = true
					}
				default:
					if !p.any[h] {
						p.any[h] = true
						grew = true
					}
				}
			}
		}
	}
	return grew
}

// havoc builds the arbitrary-iteration state for a plan.
func (u *Unit) havoc(st *State, lp *loopInfo, pl *plan, entryPhis []Val) *havocInfo {
	hv := &havocInfo{heapW: map[string]*Term{}, refC: map[*Term]refCell{}, ghostC: map[string]*Term{}}
	hs := st.clone()
	hv.hs = hs
	f := hs.top()
	allocEntry := hs.alloc
	hv.allocC = hs.freshAlloc()
	hs.assume(Le(allocEntry, hv.allocC))
	hs.alloc = hv.allocC
	i := 0
	for _, in := range lp.header.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		hv.phis = append(hv.phis, ph)
		if _, isT := entryPhis[i].(*Term); !isT {
			if isAddrOrClosure(entryPhis[i]) {
				// must not change in the loop; checked at the back edge
				f.env[ph] = entryPhis[i]
				hv.phiC = append(hv.phiC, nil)
				i++
				continue
			}
			unsup("loop phi of kind %T", entryPhis[i])
		}
		c := hs.fresh("phi."+ph.Name(), sortOf(ph.Type()))
		hs.assume(wfVal(ph.Type(), c, hs.alloc))
		f.env[ph] = c
		hv.phiC = append(hv.phiC, c)
		i++
	}
	f.idx = i
	names := map[string]bool{}
	for h := range pl.refs {
		names[h] = true
	}
	for h := range pl.fresh {
		names[h] = true
	}
	for h := range pl.any {
		names[h] = true
	}
	var hl []string
	for h := range names {
		hl = append(hl, h)
	}
	sort.Strings(hl)
	for _, hn := range hl {
		h := heaps[hn]
		cur := hs.getHeap(h)
		switch {
		case pl.any[hn]:
			nh := hs.freshHeap(h, hs.alloc)
			hs.heap[hn] = nh
			hv.heapW[hn] = nh
		case pl.fresh[hn]:
			nh := hs.freshHeap(h, hs.alloc)
			r := BV("fr?", "Int")
			_, vs := arrSorts(h.sort)
			sel := App("select", vs, nh, r)
			conds := []*Term{Lt(r, allocEntry)}
			for _, x := range pl.refs[hn] {
				conds = append(conds, Not(Eq(r, x)))
			}
			hs.assume(Forall([]*Term{r}, Implies(And(conds...), Eq(sel, App("select", vs, cur, r))), []*Term{sel}))
			hs.heap[hn] = nh
			hv.heapW[hn] = nh
		default:
			t := cur
			_, vs := arrSorts(h.sort)
			for _, x := range pl.refs[hn] {
				c := hs.fresh("cell."+hn, vs)
				if h.typ != nil && (h.kind == 'F' || h.kind == 'C') {
					hs.assume(wfVal(h.typ, c, hs.alloc))
				}
				if h.kind == 'E' || h.kind == 'V' {
					// contents stay well-formed
					ks, es := arrSorts(vs)
					b := BV("wi?", ks)
					sel := App("select", es, c, b)
					if w := wfVal(h.typ, sel, hs.alloc); w != True {
						hs.assume(Forall([]*Term{b}, w, []*Term{sel}))
					}
				}
				hv.refC[c] = refCell{h, x}
				t = nameDef("d", Store(t, x, c))
			}
			hs.heap[hn] = t
			hv.heapW[hn] = t
		}
	}
	var gs []string
	for g := range pl.ghosts {
		gs = append(gs, g)
	}
	sort.Strings(gs)
	for _, g := range gs {
		old, ok := hs.ghost[g]
		if !ok {
			if strings.HasPrefix(g, "g:") {
				old = u.ghost(hs, g[2:])
			} else {
				continue
			}
		}
		c := hs.fresh("gh."+g, old.Sort)
		hs.ghost[g] = c
		hv.ghostC[g] = c
	}
	return hv
}

func isAddrOrClosure(v Val) bool {
	switch v.(type) {
	case *Addr, *Closure, *IterVal:
		return true
	}
	return false
}

// inst instantiates a candidate for a state reaching the header with the
// given phi values.
func (hv *havocInfo) inst(u *Unit, c *Term, st *State, phiVals []Val) *Term {
	m := map[*Term]*Term{}
	for i, pc := range hv.phiC {
		if pc == nil {
			continue
		}
		m[pc] = u.toTerm(st, phiVals[i], hv.phis[i].Type())
	}
	for hn, w := range hv.heapW {
		m[w] = st.getHeap(heaps[hn])
	}
	for c, rc := range hv.refC {
		m[c] = Select(st.getHeap(rc.h), rc.ref)
	}
	m[hv.allocC] = st.alloc
	for g, c := range hv.ghostC {
		m[c] = st.ghost[g]
	}
	return Subst(c, m)
}

func (u *Unit) sortLocals(st *State) {}

// enterLoop replaces st by an arbitrary iteration at the loop head.
func (u *Unit) enterLoop(st *State, w *walk, lp *loopInfo) bool {
	f := st.top()
	entryPhis := u.phiVals(st)
	entryCnt := st.cnt
	// entry state with phis set, for evaluating entry()
	es := st.clone()
	for i, v := range entryPhis {
		es.top().env[lp.header.Instrs[i].(*ssa.Phi)] = v
	}
	key := u.loopKey(st, lp, entryPhis)
	lc, hit := u.loopC[key]
	if !hit {
		lc = &loopCacheEnt{}
		pl := newPlan()
		for {
			hv := u.havoc(st, lp, pl, entryPhis)
			u.infer++
			log := map[string][]*Term{}
			glog := map[string]bool{}
			u.logs = append(u.logs, log)
			u.ghostLogs = append(u.ghostLogs, glog)
			run := hv.hs.clone()
			run.loops = append(run.loops, &activeLoop{frame: f.id, header: lp.header, lp: lp, hv: hv})
			u.writeOnly++
			u.explore(run, &walk{baseDepth: len(run.frames), stopFrame: f.id, stopHeader: lp.header, onBackEdge: func(*State, *activeLoop) {}, onReturn: func(*State, []Val) {}})
			u.writeOnly--
			u.logs = u.logs[:len(u.logs)-1]
			u.ghostLogs = u.ghostLogs[:len(u.ghostLogs)-1]
			u.infer--
			grew := pl.classify(log, entryCnt)
			for g := range glog {
				if _, exists := st.ghost[g]; !exists && !strings.HasPrefix(g, "g:") {
					continue // iterator created inside of the loop
				}
				if !pl.ghosts[g] {
					pl.ghosts[g] = true
					grew = true
				}
			}
			if !grew {
				break
			}
		}
		lc.plan = pl
		if u.writeOnly == 0 {
			lc.invs = u.houdini(st, es, lp, pl, entryPhis, f.id)
			u.loopC[key] = lc
		}
	}
	hv := u.havoc(st, lp, lc.plan, entryPhis)
	if u.infer == 0 && w.verify {
		for _, c := range lc.invs {
			g := hv.inst(u, c.t, es, entryPhis)
			if g != True {
				u.obls = append(u.obls, &Obligation{Unit: u.name, Kind: "invariant-entry", Label: c.name, Pos: u.pos(firstPos(lp.header)), asserts: st.pc[:len(st.pc):len(st.pc)], goal: g, native: u.native, trace: st.trace})
			}
		}
		u.invCount += len(lc.invs)
	}
	var decs []*Term
	if u.infer == 0 && w.verify && u.con.opt("terminates") != "" {
		decs = u.measures(st, es, lp, hv, entryPhis)
	}
	// continue from the head
	*st = *hv.hs
	for _, c := range lc.invs {
		st.assume(c.t)
	}
	st.loops = append(st.loops[:len(st.loops):len(st.loops)], &activeLoop{frame: f.id, header: lp.header, lp: lp, invs: lc.invs, hv: hv, entry: es, decs: decs})
	return true
}

// measures: what may decrease with every iteration: the written ones and the
// distance to the bound in the loop's condition. A loop over a map ends by the
// language's definition.
func (u *Unit) measures(st, es *State, lp *loopInfo, hv *havocInfo, entryPhis []Val) []*Term {
	var out []*Term
	for _, in := range lp.header.Instrs {
		if _, ok := in.(*ssa.Next); ok {
			return []*Term{nil}
		}
	}
	add := func(n string, t *Term) { out = append(out, t) }
	vals, its := u.scope(hv.hs, lp, hv)
	u.wantDec++
	for _, s := range u.con.schemas {
		if s.dec {
			u.instSchema(s, st, es, lp, hv, entryPhis, vals, its, add)
		}
	}
	u.wantDec--
	if iff, ok := lp.header.Instrs[len(lp.header.Instrs)-1].(*ssa.If); ok {
		if b, ok := iff.Cond.(*ssa.BinOp); ok && (b.Op == token.LSS || b.Op == token.LEQ) {
			x := b.X
			k := Int(0)
			if a, ok := x.(*ssa.BinOp); ok && a.Op == token.ADD && a.Block() == lp.header {
				if c, ok := a.Y.(*ssa.Const); ok && c.Int64() == 1 {
					x, k = a.X, Int(1)
				}
			}
			if ph, ok := x.(*ssa.Phi); ok && ph.Block() == lp.header {
				var bound Val
				if c, ok := b.Y.(*ssa.Const); ok {
					bound = constVal(c)
				} else {
					bound = hv.hs.top().env[b.Y]
				}
				i, ok1 := hv.hs.top().env[ph].(*Term)
				n, ok2 := bound.(*Term)
				if ok1 && ok2 && n.Sort == "Int" {
					out = append(out, Sub(Add(n, Int(1)), Add(i, k)))
				}
			}
		}
	}
	return out
}

func firstPos(b *ssa.BasicBlock) ssa.Instruction {
	for _, in := range b.Instrs {
		if in.Pos().IsValid() {
			return in
		}
	}
	if len(b.Instrs) > 0 {
		return b.Instrs[0]
	}
	return nil
}

type loopCacheEnt struct {
	plan *plan
	invs []candidate
}

func (u *Unit) loopKey(st *State, lp *loopInfo, phis []Val) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%s:%s:%d:%d|", lp.header.Parent(), st.top().id, lp.header.Index, st.cnt)
	for _, p := range st.pc {
		fmt.Fprintf(&sb, "%d,", p.id)
	}
	for _, h := range sortedKeys(st.heap) {
		fmt.Fprintf(&sb, "%s=%d,", h, st.heap[h].id)
	}
	for _, g := range sortedKeys(st.ghost) {
		fmt.Fprintf(&sb, "%s=%d,", g, st.ghost[g].id)
	}
	fmt.Fprintf(&sb, "a%d", st.alloc.id)
	for _, v := range phis {
		if t, ok := v.(*Term); ok {
			fmt.Fprintf(&sb, ",%d", t.id)
		}
	}
	return sb.String()
}

func (u *Unit) backEdge(st *State, w *walk, al *activeLoop) {
	vals := u.phiVals(st)
	for i, pc := range al.hv.phiC {
		if pc == nil {
			cur := al.hv.hs.top().env[al.hv.phis[i]]
			if fmt.Sprint(cur) != fmt.Sprint(vals[i]) {
				unsup("loop changes a closure or address variable")
			}
		}
	}
	if u.infer > 0 || !w.verify {
		return
	}
	if u.con.opt("terminates") != "" && !(len(al.decs) == 1 && al.decs[0] == nil) {
		var or []*Term
		for _, d := range al.decs {
			or = append(or, And(Le(Int(0), d), Lt(al.hv.inst(u, d, st, vals), d)))
		}
		u.obls = append(u.obls, &Obligation{Unit: u.name, Kind: "termination", Label: "every iteration decreases a measure", Pos: u.pos(firstPos(al.header)), asserts: st.pc[:len(st.pc):len(st.pc)], goal: Or(or...), native: u.native, trace: st.trace})
	}
	for _, c := range al.invs {
		g := al.hv.inst(u, c.t, st, vals)
		if g == True {
			continue
		}
		u.obls = append(u.obls, &Obligation{Unit: u.name, Kind: "invariant-preserved", Label: c.name, Pos: u.pos(firstPos(al.header)), asserts: st.pc[:len(st.pc):len(st.pc)], goal: g, native: u.native, trace: st.trace})
	}
}

// houdini keeps the largest inductive subset of the candidates.
func (u *Unit) houdini(st, es *State, lp *loopInfo, pl *plan, entryPhis []Val, fid string) []candidate {
	hv := u.havoc(st, lp, pl, entryPhis)
	cands := u.candidates(st, es, lp, pl, hv, entryPhis)
	debug := os.Getenv("GVC_HOUDINI") != ""
	if debug {
		fmt.Fprintf(os.Stderr, "houdini %s loop %s b%d: %d candidates\n", u.name, lp.header.Parent().Name(), lp.header.Index, len(cands))
	}
	// entry
	var goals []*Term
	for _, c := range cands {
		goals = append(goals, hv.inst(u, c.t, es, entryPhis))
	}
	ok := checkMany(st.pc, goals, u.native, u.houdiniRL())
	u.retryUser(st.pc, goals, cands, ok)
	var alive []candidate
	for i, c := range cands {
		if ok[i] {
			alive = append(alive, c)
		} else if debug && (strings.HasPrefix(c.name, "user:") || os.Getenv("GVC_HOUDINI") == "2") {
			fmt.Fprintf(os.Stderr, "  drop at entry %s: %s\n", c.name, c.t)
		}
	}
	for round := 0; ; round++ {
		run := hv.hs.clone()
		for _, c := range alive {
			run.assume(c.t)
		}
		type be struct {
			pc    []*Term
			goals []*Term
		}
		var bes []be
		u.infer++
		u.logs = append(u.logs, map[string][]*Term{})
		u.ghostLogs = append(u.ghostLogs, map[string]bool{})
		run.loops = append(run.loops, &activeLoop{frame: fid, header: lp.header, lp: lp, hv: hv, invs: alive, entry: es})
		u.explore(run, &walk{baseDepth: len(run.frames), stopFrame: fid, stopHeader: lp.header, onBackEdge: func(s *State, al *activeLoop) {
			vals := u.phiVals(s)
			b := be{pc: s.pc}
			for _, c := range alive {
				b.goals = append(b.goals, hv.inst(u, c.t, s, vals))
			}
			bes = append(bes, b)
		}, onReturn: func(*State, []Val) {}})
		u.logs = u.logs[:len(u.logs)-1]
		u.ghostLogs = u.ghostLogs[:len(u.ghostLogs)-1]
		u.infer--
		drop := map[int]bool{}
		for _, b := range bes {
			var gs []*Term
			var ix []int
			for i, g := range b.goals {
				if !drop[i] {
					gs = append(gs, g)
					ix = append(ix, i)
				}
			}
			r := checkMany(b.pc, gs, u.native, u.houdiniRL())
			var cs []candidate
			for _, i := range ix {
				cs = append(cs, alive[i])
			}
			u.retryUser(b.pc, gs, cs, r)
			for k, v := range r {
				if !v {
					drop[ix[k]] = true
					u.why(cs[k], b.pc, gs[k], round)
				}
			}
		}
		if len(drop) == 0 {
			if debug {
				for _, c := range alive {
					fmt.Fprintf(os.Stderr, "  keep %s: %.300s\n", c.name, c.t)
				}
			}
			return alive
		}
		var next []candidate
		for i, c := range alive {
			if !drop[i] {
				next = append(next, c)
			} else if debug && (strings.HasPrefix(c.name, "user:") || os.Getenv("GVC_HOUDINI") == "2") {
				fmt.Fprintf(os.Stderr, "  drop round %d %s: %.400s\n", round, c.name, c.t)
			}
		}
		alive = next
	}
}

// why helps to debug: the query of a dropped candidate (GVC_WHY=name).
func (u *Unit) why(c candidate, pc []*Term, goal *Term, round int) {
	w := os.Getenv("GVC_WHY")
	if w == "" || c.name != "user:"+w {
		return
	}
	renderMu.Lock()
	pre, body, gt := render(relevant(pc), []*Term{goal}, u.native)
	renderMu.Unlock()
	whyN++
	f := fmt.Sprintf("/tmp/why-%s-%d.smt2", w, whyN)
	os.WriteFile(f, []byte(z3Script(50_000_000, false, "", pre+body+gt[0])+"(check-sat)\n"), 0o644)
	fmt.Fprintf(os.Stderr, "  why %s round %d: %s proved=%v\n   goal %.600s\n   cand %.200s\n", c.name, round, f, prove(pc, goal, u.native, false).proved, goal, c.t)
}

var whyN int

// retryUser gives candidates written in the contract a second, stronger attempt
// (contracts with "opt retry on").
func (u *Unit) retryUser(pc []*Term, goals []*Term, cands []candidate, ok []bool) {
	retry := u.con.opt("retry") != ""
	effort := 0
	if retry {
		effort = 1
	}
	var wg sync.WaitGroup
	lim := make(chan bool, 8)
	for i := range goals {
		if ok[i] || !strings.HasPrefix(cands[i].name, "user:") || !retry && !hasOp(goals[i], texty) {
			continue
		}
		k := "retry:" + qkey(pc, goals[i], u.native)
		if v, hit := qcache.Load(k); hit {
			ok[i] = v.(bool)
			continue
		}
		wg.Add(1)
		lim <- true
		go func(i int) {
			defer wg.Done()
			defer func() { <-lim }()
			ok[i] = proveEffort(pc, goals[i], u.native, effort).proved
			qcache.Store(k, ok[i])
		}(i)
	}
	wg.Wait()
}

func (u *Unit) houdiniRL() int64 {
	if s := u.con.opt("houdini"); s != "" {
		var n int64
		fmt.Sscan(s, &n)
		return n
	}
	return 1_500_000
}

type scopeVal struct {
	name string
	t    *Term
	typ  types.Type
	phi  bool
}

// scope lists the values visible at a loop head.
func (u *Unit) scope(hs *State, lp *loopInfo, hv *havocInfo) (vals []scopeVal, its []*IterVal) {
	seen := map[string]bool{}
	add := func(n string, t *Term, typ types.Type, phi bool) {
		k := fmt.Sprintf("%d|%s", t.id, typeStr(typ))
		if seen[k] {
			return
		}
		seen[k] = true
		vals = append(vals, scopeVal{n, t, typ, phi})
	}
	for i, p := range hv.phis {
		if hv.phiC[i] != nil {
			add(p.Name(), hv.phiC[i], p.Type(), true)
		}
	}
	for fi := len(hs.frames) - 1; fi >= 0; fi-- {
		f := hs.frames[fi]
		var ks []ssa.Value
		for v := range f.env {
			ks = append(ks, v)
		}
		sort.Slice(ks, func(i, j int) bool { return ks[i].Name() < ks[j].Name() })
		for _, v := range ks {
			if in, ok := v.(ssa.Instruction); ok && fi == len(hs.frames)-1 {
				if !in.Block().Dominates(lp.header) {
					continue
				}
			}
			switch x := f.env[v].(type) {
			case *Term:
				add(v.Name(), x, v.Type(), false)
				if al, ok := v.(*ssa.Alloc); ok {
					et := al.Type().Underlying().(*types.Pointer).Elem()
					if !isAgg(et) {
						add("*"+v.Name(), Select(hs.getHeap(heapC(et)), x), et, true)
					}
				} else if fv, ok := v.(*ssa.FreeVar); ok {
					if pt, ok := fv.Type().Underlying().(*types.Pointer); ok && !isAgg(pt.Elem()) {
						add("*"+v.Name(), Select(hs.getHeap(heapC(pt.Elem())), x), pt.Elem(), true)
					}
				}
			case *IterVal:
				its = append(its, x)
			case Tuple:
				if in, ok := v.(*ssa.Next); ok {
					_ = in
				}
			}
		}
	}
	return
}

func (u *Unit) candidates(st, es *State, lp *loopInfo, pl *plan, hv *havocInfo, entryPhis []Val) []candidate {
	var out []candidate
	dup := map[*Term]bool{}
	add := func(n string, t *Term) {
		if t == True || dup[t] {
			return
		}
		dup[t] = true
		out = append(out, candidate{n, t})
	}
	hs := hv.hs
	vals, its := u.scope(hs, lp, hv)
	// integer bounds
	type meas struct {
		n string
		t *Term
		e *Term
	}
	var ms []meas
	for _, v := range vals {
		if !v.phi {
			continue
		}
		e := hv.inst(u, v.t, es, entryPhis)
		switch v.t.Sort {
		case "Int":
			if b, ok := v.typ.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				ms = append(ms, meas{v.name, v.t, e})
			}
		case "Slice":
			ms = append(ms, meas{"len(" + v.name + ")", SLen(v.t), SLen(e)})
			add("auto:off", Eq(SOff(v.t), SOff(e)))
			add("auto:end", Eq(Add(SOff(v.t), SLen(v.t)), Add(SOff(e), SLen(e))))
			add("auto:base", Eq(SBase(v.t), SBase(e)))
			add("auto:base2", Or(Eq(SBase(v.t), SBase(e)), Le(es.alloc, SBase(v.t))))
			add("auto:base3", Or(Eq(SBase(v.t), Int(0)), Le(es.alloc, SBase(v.t))))
			add("auto:base4", Le(es.alloc, SBase(v.t)))
			add("auto:nn", Not(Eq(SBase(v.t), Int(0))))
		}
	}
	for _, m := range ms {
		add("auto:ge", Le(m.e, m.t))
		add("auto:le", Le(m.t, m.e))
		for _, v := range vals {
			var o *Term
			switch v.t.Sort {
			case "Int":
				if b, ok := v.typ.Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
					continue
				}
				o = v.t
			case "Slice":
				o = SLen(v.t)
			case "Str":
				if v.phi {
					continue
				}
				o = sLen(v.t)
			default:
				continue
			}
			if o == m.t {
				continue
			}
			add("auto:lt", Lt(m.t, o))
			add("auto:ltle", Le(m.t, o))
		}
	}
	for i, a := range ms {
		for _, b := range ms[i+1:] {
			add("auto:diff", Eq(Sub(a.t, a.e), Sub(b.t, b.e)))
			add("auto:sum", Eq(Add(a.t, b.t), Add(a.e, b.e)))
		}
	}
	// string phis: nothing automatic
	// pointers: fresh or entry
	for _, v := range vals {
		if v.phi && v.t.Sort == "Int" {
			switch v.typ.Underlying().(type) {
			case *types.Pointer, *types.Map:
				e := hv.inst(u, v.t, es, entryPhis)
				add("auto:ptrfresh", Or(Eq(v.t, e), Le(es.alloc, v.t)))
				add("auto:ptrnn", Not(Eq(v.t, Int(0))))
			}
		}
	}
	// frames of arbitrarily written heaps
	anyWritten := u.anyRefs(pl)
	_ = anyWritten
	for _, hn := range sortedKeys(hv.heapW) {
		if !pl.any[hn] {
			continue
		}
		h := heaps[hn]
		r := BV("fr?", "Int")
		_, vs := arrSorts(h.sort)
		sel := App("select", vs, hv.heapW[hn], r)
		cur := es.getHeap(h)
		eq := Eq(sel, App("select", vs, cur, r))
		// all exceptions: in-scope entry values
		var exc []*Term
		for _, v := range vals {
			if !v.phi {
				continue
			}
			e := hv.inst(u, v.t, es, entryPhis)
			switch {
			case v.t.Sort == "Slice" && h.kind == 'E':
				exc = append(exc, Not(Eq(r, SBase(e))))
			case v.t.Sort == "Int" && h.kind != 'E':
				switch v.typ.Underlying().(type) {
				case *types.Pointer, *types.Map:
					exc = append(exc, Not(Eq(r, e)))
				}
			}
		}
		if !u.con.noframe {
			pre := &evalCtx{u: u, st: u.entry, old: u.entry, env: u.params, pkg: u.con.pkg}
			mod := u.modPred(u.con, pre, h, r)
			add("auto:frameC", Forall([]*Term{r}, Implies(And(Le(Int(1), r), Lt(r, u.entry.alloc), Not(mod)), Eq(sel, Select(u.entry.getHeap(h), r))), []*Term{sel}))
		}
		add("auto:frame0", Forall([]*Term{r}, Implies(Lt(r, es.alloc), eq), []*Term{sel}))
		if len(exc) > 0 {
			add("auto:frame1", Forall([]*Term{r}, Implies(And(append(exc, Lt(r, es.alloc))...), eq), []*Term{sel}))
			if len(exc) > 1 {
				for _, x := range exc {
					add("auto:frame2", Forall([]*Term{r}, Implies(And(x, Lt(r, es.alloc)), eq), []*Term{sel}))
				}
			}
		}
		if h.kind == 'E' {
			// elements below the length of slices that only grow
			for _, v := range vals {
				if v.phi && v.t.Sort == "Slice" {
					if sl, ok := v.typ.Underlying().(*types.Slice); ok && heapE(sl.Elem()) == h {
						e := hv.inst(u, v.t, es, entryPhis)
						j := BV("pj?", "Int")
						es1 := Select(Select(hv.heapW[hn], SBase(v.t)), j)
						es2 := Select(Select(cur, SBase(e)), j)
						add("auto:prefix", Forall([]*Term{j}, Implies(And(Le(SOff(e), j), Lt(j, Add(SOff(e), SLen(e)))), Eq(es1, es2)), []*Term{es1}))
					}
				}
			}
		}
	}
	for _, g := range sortedKeys(hv.ghostC) {
		if !strings.HasPrefix(g, "g:") {
			continue
		}
		c := hv.ghostC[g]
		add("auto:ghost0", Eq(c, es.ghost[g]))
		if strings.HasPrefix(c.Sort, "(Array") && len(u.con.ghostKeyed()) > 0 {
			pre := &evalCtx{u: u, st: u.entry, old: u.entry, env: u.params, pkg: u.con.pkg}
			add("auto:ghostC", u.ghostFrame(u.con, pre, g[2:], u.ghost(u.entry, g[2:]), c, u.entry.alloc))
		}
	}
	// separation of in-scope slices that may be written
	for i, a := range vals {
		if a.t.Sort != "Slice" {
			continue
		}
		for _, b := range vals[i+1:] {
			if b.t.Sort == "Slice" && types.Identical(a.typ.Underlying(), b.typ.Underlying()) && (a.phi || b.phi) {
				add("auto:sep", Not(Eq(SBase(a.t), SBase(b.t))))
				add("auto:sep0", Or(Eq(SBase(a.t), Int(0)), Not(Eq(SBase(a.t), SBase(b.t)))))
			}
		}
	}
	// iteration sets
	for _, it := range its {
		if _, ok := hv.ghostC["seen:"+it.id]; !ok {
			continue
		}
		seen := hv.ghostC["seen:"+it.id]
		k := BV("sk?", sortOf(it.mt.Key()))
		sel := Select(seen, k)
		add("auto:seen", Forall([]*Term{k}, Implies(sel, Select(it.start, k)), []*Term{sel}))
		dom := Select(hs.getHeap(heapD(it.mt)), it.m)
		if dom != it.start {
			seld := Select(dom, k)
			if seld.Op == "select" {
				add("auto:seendom", Forall([]*Term{k}, Implies(sel, seld), []*Term{sel}))
			}
		}
	}
	// user schemas
	if u.con != nil {
		for _, s := range u.con.schemas {
			u.instSchema(s, st, es, lp, hv, entryPhis, vals, its, add)
		}
	}
	return out
}

func (u *Unit) anyRefs(pl *plan) []string { return nil }

func (u *Unit) instSchema(s schema, st, es *State, lp *loopInfo, hv *havocInfo, entryPhis []Val, vals []scopeVal, its []*IterVal, add func(string, *Term)) {
	if s.dec != (u.wantDec > 0) {
		return
	}
	base := &evalCtx{u: u, st: hv.hs, old: u.entry, entry: es, env: map[string]bound{}, pkg: u.con.pkg, iters: map[string]*IterVal{}}
	for k, v := range u.params {
		base.env[k] = v
	}
	if s.over != nil {
		want := base.with(es).eval(s.over).t
		ok := false
		for _, t := range iterated(es, lp) {
			if t == want {
				ok = true
			}
		}
		if ok == s.overNot {
			return
		}
	}
	if s.overType != "" {
		want := u.P.specType(s.overType, u.con.pkg, s.expr).g
		ok := false
		for _, t := range iteratedTypes(es, lp) {
			if want != nil && types.Identical(t.Underlying(), want.Underlying()) {
				ok = true
			}
		}
		if ok == s.overNot {
			return
		}
	}
	count := 0
	var rec func(i int, c *evalCtx, entryEnv map[string]bound)
	rec = func(i int, c *evalCtx, entryEnv map[string]bound) {
		if count > 400 {
			return
		}
		if i == len(s.vars) {
			count++
			func() {
				defer func() {
					if r := recover(); r != nil {
						if e, ok := r.(specErr); ok {
							if strings.Contains(e.msg, "no ghost") {
								return
							}
							panic(specErr{e.msg + " (in invariant " + s.name + ")"})
						}
						panic(r)
					}
				}()
				if s.dec {
					add("user:"+s.name, c.eval(s.expr).t)
					return
				}
				for _, t := range conjuncts(c.boolean(s.expr)) {
					add("user:"+s.name, t)
				}
			}()
			return
		}
		v := s.vars[i]
		typ := strings.TrimSpace(v.typ)
		switch {
		case strings.HasPrefix(typ, "iter(") || typ == "iter":
			for _, it := range its {
				if typ != "iter" {
					mt := u.P.specType(typ[5:len(typ)-1], u.con.pkg, s.expr)
					if !types.Identical(mt.g.Underlying(), it.mt) {
						continue
					}
				}
				d := c.bind("$", bound{})
				d.iters = map[string]*IterVal{}
				for k, x := range c.iters {
					d.iters[k] = x
				}
				d.iters[v.name] = it
				rec(i+1, d, entryEnv)
			}
		case typ == "idx":
			done := map[*Term]bool{}
			for _, x := range vals {
				if !x.phi || x.t.Sort != "Int" {
					continue
				}
				if b, ok := x.typ.Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
					continue
				}
				ks := []*Term{x.t, Add(x.t, Int(1))}
				switch hv.inst(u, x.t, es, entryPhis) {
				case Int(-1): // range over a slice
					ks = ks[1:]
				case Int(0):
					ks = ks[:1]
				}
				for _, k := range ks {
					if !done[k] {
						done[k] = true
						rec(i+1, c.bind(v.name, bound{t: k, typ: intT}), entryEnv)
					}
				}
			}
		default:
			phiOnly := false
			if strings.HasPrefix(typ, "phi ") {
				phiOnly = true
				typ = strings.TrimSpace(typ[4:])
			}
			t := u.P.specType(typ, u.con.pkg, s.expr)
			for _, x := range vals {
				if phiOnly && !x.phi {
					continue
				}
				if t.g != nil && (types.Identical(t.g, x.typ) || types.Identical(t.g.Underlying(), x.typ.Underlying()) && !isNamedOther(t.g, x.typ)) {
					rec(i+1, c.bind(v.name, bound{t: x.t, typ: t}), entryEnv)
				}
			}
		}
	}
	rec(0, base, nil)
}

// iterated: the slices and maps a loop ranges over
func iterated(es *State, lp *loopInfo) (out []*Term) {
	out, _ = iterated1(es, lp)
	return out
}

func iteratedTypes(es *State, lp *loopInfo) []types.Type {
	_, ts := iterated1(es, lp)
	return ts
}

func iterated1(es *State, lp *loopInfo) (out []*Term, ts []types.Type) {
	env := es.top().env
	phi := func(v ssa.Value) bool {
		if b, ok := v.(*ssa.BinOp); ok {
			v = b.X
		}
		p, ok := v.(*ssa.Phi)
		return ok && p.Block() == lp.header
	}
	for b := range lp.body {
		for _, in := range b.Instrs {
			var x ssa.Value
			switch i := in.(type) {
			case *ssa.IndexAddr:
				if phi(i.Index) {
					x = i.X
				}
			case *ssa.Index:
				if phi(i.Index) {
					x = i.X
				}
			case *ssa.Next:
				if it, ok := env[i.Iter].(*IterVal); ok && b == lp.header {
					out = append(out, it.m)
					ts = append(ts, it.mt)
				}
			}
			if x != nil {
				ts = append(ts, x.Type())
				if t, ok := env[x].(*Term); ok {
					out = append(out, t)
				}
			}
		}
	}
	return
}

func isNamedOther(a, b types.Type) bool {
	_, an := a.(*types.Named)
	_, bn := b.(*types.Named)
	return an && bn
}
