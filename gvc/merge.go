package main

// Joining the two ways through an if statement ("opt merge on"): the states in
// which both arms arrive at the block after it become one.

import (
	"golang.org/x/tools/go/ssa"
)

var joinCache = map[*ssa.BasicBlock]*ssa.BasicBlock{}

// joinOf: the block where both arms of the branch ending b meet again (its
// immediate postdominator), when the region between has no loop.
func joinOf(b *ssa.BasicBlock) *ssa.BasicBlock {
	if j, ok := joinCache[b]; ok {
		return j
	}
	joinCache[b] = nil
	fn := b.Parent()
	n := len(fn.Blocks)
	// postdominator sets
	pd := make([][]bool, n)
	for i := range pd {
		pd[i] = make([]bool, n)
		for k := range pd[i] {
			pd[i][k] = len(fn.Blocks[i].Succs) > 0 || k == i
		}
	}
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			x := fn.Blocks[i]
			if len(x.Succs) == 0 {
				continue
			}
			for k := 0; k < n; k++ {
				v := k == i
				if !v {
					v = true
					for _, s := range x.Succs {
						v = v && pd[s.Index][k]
					}
				}
				if v != pd[i][k] {
					pd[i][k] = v
					ch = true
				}
			}
		}
	}
	count := func(i int) int {
		c := 0
		for _, v := range pd[i] {
			if v {
				c++
			}
		}
		return c
	}
	var j *ssa.BasicBlock
	for k := 0; k < n; k++ {
		if k != b.Index && pd[b.Index][k] && (j == nil || count(k) > count(j.Index)) {
			j = fn.Blocks[k]
		}
	}
	if j == nil {
		return nil
	}
	loops := loopsOf(fn)
	if loops[j] != nil {
		return nil
	}
	seen := map[*ssa.BasicBlock]bool{}
	var bad bool
	var walkB func(x *ssa.BasicBlock)
	walkB = func(x *ssa.BasicBlock) {
		if x == j || seen[x] {
			return
		}
		seen[x] = true
		if loops[x] != nil || x == b {
			bad = true
			return
		}
		for _, s := range x.Succs {
			walkB(s)
		}
	}
	for _, s := range b.Succs {
		walkB(s)
	}
	for _, lp := range loops {
		if lp.body[b] != lp.body[j] {
			bad = true
		}
	}
	if bad {
		return nil
	}
	joinCache[b] = j
	return j
}

// branchMerged explores both arms up to the join and continues with one state.
func (u *Unit) branchMerged(st *State, w *walk, c *Term, yes, no, join *ssa.BasicBlock) (bool, []*State) {
	base := len(st.pc)
	a, b := st, st.clone()
	a.assume(c)
	b.assume(Not(c))
	a.brs = append(a.brs, c)
	b.brs = append(b.brs, Not(c))
	var arrived [2][]*State
	for i, s := range []*State{a, b} {
		if s.dead() {
			continue
		}
		i := i
		w2 := *w
		w2.joinFrame, w2.joinBlock = s.top().id, join
		w2.onJoin = func(s *State) { arrived[i] = append(arrived[i], s) }
		to := yes
		if i == 1 {
			to = no
		}
		if u.jump(s, &w2, to) {
			u.explore(s, &w2)
		}
	}
	var out []*State
	if len(arrived[0]) == 1 && len(arrived[1]) == 1 {
		if m := u.merge(base, c, arrived[0][0], arrived[1][0]); m != nil {
			out = []*State{m}
		}
	}
	if out == nil {
		out = append(append(out, arrived[0]...), arrived[1]...)
	}
	if w.onJoin != nil && w.joinBlock == join && len(out) > 0 && w.joinFrame == out[0].top().id {
		for _, s := range out {
			w.onJoin(s)
		}
		return false, nil
	}
	return false, out
}

func sameVal(a, b Val) bool {
	ta, okA := a.(Tuple)
	tb, okB := b.(Tuple)
	if okA || okB {
		if !okA || !okB || len(ta) != len(tb) {
			return false
		}
		for i := range ta {
			if !sameVal(ta[i], tb[i]) {
				return false
			}
		}
		return true
	}
	return a == b
}

func (u *Unit) merge(base int, c *Term, a, b *State) *State {
	if len(a.frames) != len(b.frames) || len(a.loops) != len(b.loops) || len(a.iters) != len(b.iters) {
		return nil
	}
	for i := range a.iters {
		if a.iters[i] != b.iters[i] {
			return nil
		}
	}
	m := a.clone()
	m.pc = a.pc[:base:base]
	for _, t := range a.pc[base:] {
		if t != c {
			m.assume(Implies(c, t))
		}
	}
	for _, t := range b.pc[base:] {
		if t != Not(c) {
			m.assume(Implies(Not(c), t))
		}
	}
	if b.cnt > m.cnt {
		m.cnt = b.cnt
	}
	if b.calls > m.calls {
		m.calls = b.calls
	}
	m.brs = nil
	for i := range a.brs {
		if i < len(b.brs) && a.brs[i] == b.brs[i] {
			m.brs = append(m.brs, a.brs[i])
		} else {
			break
		}
	}
	pick := func(name string, x, y *Term) *Term {
		if x == y {
			return x
		}
		n := m.fresh(name, x.Sort)
		m.assume(Implies(c, Eq(n, x)))
		m.assume(Implies(Not(c), Eq(n, y)))
		return n
	}
	for i := range a.frames {
		fa, fb, fm := a.frames[i], b.frames[i], m.frames[i]
		if fa.id != fb.id || fa.block != fb.block || fa.idx != fb.idx || len(fa.defers) != len(fb.defers) {
			return nil
		}
		for v, x := range fa.env {
			y, ok := fb.env[v]
			if !ok {
				delete(fm.env, v)
				continue
			}
			if sameVal(x, y) {
				continue
			}
			tx, okx := x.(*Term)
			ty, oky := y.(*Term)
			if !okx || !oky || tx.Sort != ty.Sort {
				return nil
			}
			if closureTab[tx] != nil || closureTab[ty] != nil {
				return nil
			}
			fm.env[v] = pick("join."+v.Name(), tx, ty)
		}
	}
	if a.alloc != b.alloc {
		al := m.freshAlloc()
		m.assume(Le(a.alloc, al))
		m.assume(Le(b.alloc, al))
		m.alloc = al
	}
	for hn := range b.heap {
		if _, ok := a.heap[hn]; !ok {
			a.getHeap(heaps[hn])
			m.heap[hn] = a.heap[hn]
			if m.heap[hn] == nil {
				m.heap[hn] = a.getHeap(heaps[hn])
			}
		}
	}
	for hn, x := range m.heap {
		y := b.getHeap(heaps[hn])
		if x == y {
			continue
		}
		m.cnt++
		h := m.freshHeap(heaps[hn], m.alloc)
		m.assume(Implies(c, Eq(h, x)))
		m.assume(Implies(Not(c), Eq(h, y)))
		m.heap[hn] = h
	}
	for g, x := range b.ghost {
		if _, ok := m.ghost[g]; !ok {
			_ = x
			return nil
		}
	}
	for g, x := range m.ghost {
		y, ok := b.ghost[g]
		if !ok {
			return nil
		}
		m.ghost[g] = pick("joing."+g, x, y)
	}
	return m
}
