package main

// Witnesses for existential postconditions (contracts with "opt witness on"):
// the values of the function at the return are tried in place of the bound
// variables. Proving one instance proves the postcondition.

import (
	"fmt"
	"os"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// witnesses: terms of the function at a return, the latest first, by sort
func witnesses(s *State) map[string][]*Term {
	type cand struct {
		t     *Term
		phi   bool
		order int
	}
	by := map[string][]cand{}
	for v, x := range s.top().env {
		t, ok := x.(*Term)
		if !ok || t.Op == "strlit" {
			continue
		}
		if _, isConst := intVal(t); isConst {
			continue
		}
		in, ok := v.(ssa.Instruction)
		if !ok {
			continue
		}
		_, phi := v.(*ssa.Phi)
		o := in.Block().Index * 10000
		for i, q := range in.Block().Instrs {
			if q == in {
				o += i
			}
		}
		by[t.Sort] = append(by[t.Sort], cand{t, phi, o})
	}
	out := map[string][]*Term{}
	for k, cs := range by {
		sort.Slice(cs, func(i, j int) bool {
			if cs[i].phi != cs[j].phi {
				return cs[i].phi
			}
			return cs[i].order > cs[j].order
		})
		seen := map[*Term]bool{}
		for _, c := range cs {
			if !seen[c.t] && len(out[k]) < 8 {
				seen[c.t] = true
				out[k] = append(out[k], c.t)
			}
		}
	}
	return out
}

// instances of a goal whose conclusion is existential
func instances(goal *Term, ws map[string][]*Term) []*Term {
	switch goal.Op {
	case "=>":
		var out []*Term
		for _, x := range instances(goal.Args[1], ws) {
			out = append(out, Implies(goal.Args[0], x))
		}
		return out
	case "exists":
		subs := []map[*Term]*Term{{}}
		for _, v := range goal.Bound {
			var next []map[*Term]*Term
			for _, m := range subs {
				for _, t := range ws[v.Sort] {
					m2 := map[*Term]*Term{v: t}
					for k, x := range m {
						m2[k] = x
					}
					next = append(next, m2)
				}
			}
			subs = next
		}
		var out []*Term
		for _, m := range subs {
			if len(out) < 64 {
				out = append(out, Subst(goal.Args[0], m))
			}
		}
		return out
	}
	return nil
}

// proveInstance proves one of the instances, the most promising first.
func (o *Obligation) proveInstance() (proofResult, bool) {
	type rank struct {
		t    *Term
		miss int
	}
	var rs []rank
	for _, a := range o.alts {
		var parts []sequent
		renderMu.Lock()
		splitGoal(o.asserts, a, &parts, new(int))
		renderMu.Unlock()
		r := rank{t: a}
		for _, p := range parts {
			if !checkMany(p.asserts, []*Term{p.goal}, o.native, 2_000_000)[0] {
				r.miss++
			}
		}
		rs = append(rs, r)
		if r.miss == 0 {
			break
		}
	}
	sort.SliceStable(rs, func(i, j int) bool { return rs[i].miss < rs[j].miss })
	if os.Getenv("GVC_WIT") != "" {
		for _, r := range rs {
			fmt.Fprintf(os.Stderr, "witness %d missing %.300s\n", r.miss, r.t)
		}
		if len(rs) > 0 {
			r := rs[0]
			var parts []sequent
			splitGoal(o.asserts, r.t, &parts, new(int))
			for _, p := range parts {
				if !checkMany(p.asserts, []*Term{p.goal}, o.native, 2_000_000)[0] {
					fmt.Fprintf(os.Stderr, "  open %.900s\n", p.goal)
				}
			}
		}
	}
	for i, r := range rs {
		if i >= 3 {
			break
		}
		if p := prove(o.asserts, r.t, o.native, false); p.proved {
			return p, true
		}
	}
	return proofResult{}, false
}
