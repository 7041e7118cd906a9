package main

// Text building: concat(i in n :: e) terms, the contents of strings.Builder,
// and the normalisation of goals about concatenations.

import (
	"fmt"
	"go/types"
	"strings"
)

// concat(i in n :: body): body[0] + ... + body[n-1], as a function of the
// terms of the body that do not depend on i.
type concatDef struct {
	params []*Term // bound variables standing for the parameters
	iv     *Term
	body   *Term
}

var concatDefs = map[string]*concatDef{}

func mkConcat(iv, body, n *Term) *Term {
	d := &concatDef{iv: BV("ci?", "Int")}
	var args []*Term
	idx := map[*Term]*Term{}
	var lift func(t *Term) *Term
	lift = func(t *Term) *Term {
		if t == iv {
			return d.iv
		}
		if t.Op == "int" || t.Op == "strlit" {
			return t
		}
		m := map[*Term]bool{}
		collectBV(t, m)
		if !m[iv] || t.Op == "bvar" {
			if len(m) == 0 && len(t.Args) == 0 && (t == True || t == False) {
				return t
			}
			if p, ok := idx[t]; ok {
				return p
			}
			p := BV(fmt.Sprintf("cp?%d", len(args)), t.Sort)
			idx[t] = p
			args = append(args, t)
			d.params = append(d.params, p)
			return p
		}
		if len(t.Bound) > 0 {
			unsup("quantifier inside concat")
		}
		as := make([]*Term, len(t.Args))
		for i, a := range t.Args {
			as[i] = lift(a)
		}
		return rebuild(t, as, nil)
	}
	d.body = lift(body)
	h := d.body.hash()
	for _, p := range d.params {
		h = mix(h, hashStr(p.Sort))
	}
	name := fmt.Sprintf("concat!%x", h)
	if old := concatDefs[name]; old != nil && old.body != d.body {
		panic("concat: hash collision")
	}
	concatDefs[name] = d
	var sorts []string
	for _, p := range d.params {
		sorts = append(sorts, p.Sort)
	}
	sorts = append(sorts, "Int")
	if decls[name] == nil {
		declare(name, "Str", sorts...)
		nv := BV("cn?", "Int")
		t := intern(&Term{Op: name, Sort: "Str", Args: append(append([]*Term{}, d.params...), nv)})
		decls[name].Axioms = []*Term{Forall(append(append([]*Term{}, d.params...), nv), Implies(Le(nv, Int(0)), Eq(t, StrLit(""))), []*Term{t})}
	}
	return concatTerm(name, append(args, n))
}

func concatTerm(name string, args []*Term) *Term {
	n := args[len(args)-1]
	if v, ok := intVal(n); ok && v <= 0 {
		return StrLit("")
	} else if ok && v <= 8 {
		prev := append(append([]*Term{}, args[:len(args)-1]...), Int(v-1))
		return sCat(concatTerm(name, prev), concatStep(name, prev))
	}
	return intern(&Term{Op: name, Sort: "Str", Args: args})
}

// concatStep: body[n] for the parameters
func concatStep(name string, args []*Term) *Term {
	d := concatDefs[name]
	m := map[*Term]*Term{d.iv: args[len(args)-1]}
	for i, p := range d.params {
		m[p] = args[i]
	}
	return Subst(d.body, m)
}

func hasOp(t *Term, pred func(*Term) bool) bool {
	seen := map[*Term]bool{}
	var rec func(*Term) bool
	rec = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if pred(t) {
			return true
		}
		for _, a := range t.Args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

func texty(t *Term) bool    { return t.Op == "s_cat" || isConcat(t) }
func isConcat(t *Term) bool { return strings.HasPrefix(t.Op, "concat!") }

// strNorm rewrites a goal about concatenations: known contents are inserted,
// concatenations are unfolded by one step, conditional pieces are split.
func strNorm(s sequent, out *[]sequent) {
	if !hasOp(s.goal, texty) {
		*out = append(*out, s)
		return
	}
	eqs := map[*Term]*Term{}
	known := map[*Term]bool{}
	concats := map[*Term]bool{}
	inGoal := map[string]bool{}
	family := func(x *Term) string {
		k := x.Op
		for _, a := range x.Args[:len(x.Args)-1] {
			k += fmt.Sprintf(",%d", a.id)
		}
		return k
	}
	hasOp(s.goal, func(x *Term) bool {
		if isConcat(x) {
			inGoal[family(x)] = true
		}
		return false
	})
	shares := func(t *Term) bool {
		return hasOp(t, func(x *Term) bool { return isConcat(x) && inGoal[family(x)] })
	}
	add := func(a, b *Term) bool {
		if texty(a) || a.Op == "strlit" || a.Op == "ite" || a.hasBV || b.hasBV {
			return false
		}
		// of several equations, the one that speaks of the goal's concatenation
		if eqs[a] != nil && (eqs[a] == b || !shares(b) || shares(eqs[a])) {
			return false
		}
		if hasOp(b, func(t *Term) bool { return t == a }) {
			return false
		}
		eqs[a] = b
		return true
	}
	for _, a := range s.asserts {
		known[a] = true
	}
	holds := func(t *Term) bool {
		if t.Op == "and" {
			for _, x := range t.Args {
				if !known[x] {
					return false
				}
			}
			return true
		}
		return known[t]
	}
	for _, a := range s.asserts {
		for a.Op == "=>" && holds(a.Args[0]) {
			a = a.Args[1]
		}
		if a.Op == "=" && a.Args[0].Sort == "Str" {
			x, y := a.Args[0], a.Args[1]
			if texty(y) || y.Op == "strlit" || y.Op == "ite" {
				add(x, y)
			} else if texty(x) || x.Op == "strlit" || x.Op == "ite" {
				add(y, x)
			}
		}
	}
	g := s.goal
	for i := 0; i < 12; i++ {
		n := Subst(g, eqs)
		if n == g || n.size > 200000 {
			break
		}
		g = n
	}
	note := func(t *Term) {
		hasOp(t, func(x *Term) bool {
			if isConcat(x) {
				concats[x] = true
			}
			return false
		})
	}
	note(g)
	for _, b := range eqs {
		note(b)
	}
	for round := 0; round < 3; round++ {
		un := map[*Term]*Term{}
		hasOp(g, func(x *Term) bool {
			if !isConcat(x) || x.hasBV {
				return false
			}
			n := x.Args[len(x.Args)-1]
			p := Sub(n, Int(1))
			args := append(append([]*Term{}, x.Args[:len(x.Args)-1]...), p)
			prev := concatTerm(x.Op, args)
			if concats[prev] {
				un[x] = sCat(prev, concatStep(x.Op, args))
				*out = append(*out, sequent{s.asserts, Le(Int(0), p)})
			}
			return false
		})
		if len(un) == 0 {
			break
		}
		g = Subst(g, un)
	}
	splitText(s.asserts, known, g, 0, out)
}

func splitText(asserts []*Term, known map[*Term]bool, g *Term, depth int, out *[]sequent) {
	var cond *Term
	for {
		m := map[*Term]*Term{}
		cond = nil
		hasOp(g, func(t *Term) bool {
			if t.Op == "ite" && t.Sort == "Str" && !t.hasBV {
				c := t.Args[0]
				switch {
				case known[c]:
					m[t] = t.Args[1]
				case known[Not(c)]:
					m[t] = t.Args[2]
				case cond == nil:
					cond = c
				}
			}
			return false
		})
		if len(m) == 0 {
			break
		}
		g = Subst(g, m)
	}
	if cond == nil || depth > 7 {
		*out = append(*out, sequent{asserts, g})
		return
	}
	for _, c := range []*Term{cond, Not(cond)} {
		var hyp State
		hyp.pc = asserts[:len(asserts):len(asserts)]
		hyp.assume(c)
		k := map[*Term]bool{c: true}
		for x := range known {
			k[x] = true
		}
		for _, x := range hyp.pc[len(asserts):] {
			k[x] = true
		}
		splitText(hyp.pc, k, g, depth+1, out)
	}
}

// ---- strings.Builder

var heapText = func() *heapInfo {
	h := &heapInfo{"C|$text", ArrSort("Int", "Str"), 'C', types.Typ[types.String], nil}
	heaps[h.name] = h
	return h
}()

// heapLost: whether a write to the writer has failed
var heapLost = func() *heapInfo {
	h := &heapInfo{"C|$lost", ArrSort("Int", "Bool"), 'C', types.Typ[types.Bool], nil}
	heaps[h.name] = h
	return h
}()

func isBuilder(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && (n.Obj().Pkg().Path() == "strings" && n.Obj().Name() == "Builder" || n.Obj().Pkg().Path() == "bytes" && n.Obj().Name() == "Buffer")
}

func (c *callInfo) appendText(s *Term) {
	h := c.st.getHeap(heapText)
	c.u.logWrite(heapText, c.arg(0))
	c.st.setHeap(heapText, Store(h, c.arg(0), sCat(Select(h, c.arg(0)), s)))
}

func init() {
	for _, t := range []string{"(*strings.Builder).", "(*bytes.Buffer)."} {
		ext(t+"WriteString", func(c *callInfo) (bool, []*State) {
			c.appendText(c.arg(1))
			return c.ret(sLen(c.arg(1)), NilIface)
		}, heapText.name)
		ext(t+"String", func(c *callInfo) (bool, []*State) {
			return c.ret(Select(c.st.getHeap(heapText), c.arg(0)))
		})
		ext(t+"Len", func(c *callInfo) (bool, []*State) {
			return c.ret(sLen(Select(c.st.getHeap(heapText), c.arg(0))))
		})
	}
	for _, n := range []string{"strings.Repeat", "strings.TrimSpace", "strings.ToUpper", "strings.ToLower", "strings.TrimSuffix", "strings.TrimPrefix", "strings.Title", "path/filepath.Ext", "path/filepath.Dir", "path/filepath.Base", "unicode/utf8.RuneCountInString", "strconv.Itoa", "strconv.Quote"} {
		n := n
		ext(n, func(c *callInfo) (bool, []*State) {
			var ts []*Term
			for i := range c.args {
				ts = append(ts, c.arg(i))
			}
			return c.ret(c.u.pureExtern(n, 0, c.sig.Results().At(0).Type(), ts))
		})
	}
}
