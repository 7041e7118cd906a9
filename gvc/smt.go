package main

// Rendering of queries to SMT-LIB and running of the solvers.

import (
	"bytes"
	"context"
	"crypto/sha256"
	"fmt"
	"os"
	"os/exec"
	"regexp"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// native definitions of symbols in native-string mode
var nativeDefs = map[string]string{}
var nativeNeeds = map[string][]string{}

type query struct {
	asserts []*Term
	native  bool
}

type symset struct {
	syms  map[string]bool
	lits  map[string]bool
	sorts map[string]bool
	seen  map[*Term]bool
	refs  map[*Term]int
	order []string // symbols in order of first occurrence
}

func (s *symset) add(n string) {
	if !s.syms[n] {
		s.syms[n] = true
		s.order = append(s.order, n)
	}
}

// canonical names: the text of a query does not depend on what was verified
// before
func canonical(order []string) map[string]string {
	m := map[string]string{}
	for i, n := range order {
		d := decls[n]
		if d == nil || len(d.Args) > 0 || d.Def != "" || !idRE.MatchString(n) {
			continue
		}
		b := strings.Trim(n, "|")
		if j := strings.IndexAny(b, "!."); j > 0 && !strings.HasPrefix(b, "H:") {
			b = b[:j]
		}
		m[n] = symOK(fmt.Sprintf("%s#%d", idRE.ReplaceAllString(b, "$1"), i))
	}
	return m
}

var idRE = regexp.MustCompile(`([!.])a?\d+`)

func (s *symset) walk(t *Term) {
	s.refs[t]++
	if s.seen[t] {
		return
	}
	s.seen[t] = true
	s.sorts[t.Sort] = true
	switch t.Op {
	case "strlit":
		s.lits[t.Name] = true
		return
	case "int", "bvar":
		return
	}
	if _, ok := decls[t.Op]; ok {
		s.add(t.Op)
	}
	for _, b := range t.Bound {
		s.sorts[b.Sort] = true
	}
	for _, a := range t.Args {
		s.walk(a)
	}
	for _, p := range t.Pats {
		for _, x := range p {
			s.walk(x)
		}
	}
}

// literal facts: function name -> generator of ground facts about literals
func litFacts(lits []string, syms map[string]bool) []*Term {
	var out []*Term
	for i, l := range lits {
		if syms["s_len"] {
			out = append(out, Eq(App("s_len", "Int", StrLit(l)), Int(int64(len(l)))))
		}
		if syms["s_at"] && len(l) <= 3 {
			for k := 0; k < len(l); k++ {
				out = append(out, Eq(App("s_at", "Int", StrLit(l), Int(int64(k))), Int(int64(l[k]))))
			}
		}
		if syms["s_lt"] {
			for j, m := range lits {
				if i != j {
					out = append(out, Eq(App("s_lt", "Bool", StrLit(l), StrLit(m)), BoolT(l < m)))
				}
			}
		}
	}
	return out
}

// renderer collects one prelude + assertions
func render(asserts []*Term, goals []*Term, native bool) (prelude string, body string, goalTxt []string) {
	ss := &symset{syms: map[string]bool{}, lits: map[string]bool{}, sorts: map[string]bool{}, seen: map[*Term]bool{}, refs: map[*Term]int{}}
	for _, a := range asserts {
		ss.walk(a)
	}
	for _, g := range goals {
		ss.walk(g)
	}
	// axioms to fixpoint
	var axioms []*Term
	done := map[string]bool{}
	for {
		var todo []string
		for _, s := range ss.order {
			if !done[s] {
				todo = append(todo, s)
			}
		}
		if len(todo) == 0 {
			break
		}
		for _, s := range todo {
			done[s] = true
			if native {
				if _, ok := nativeDefs[s]; ok {
					for _, n := range nativeNeeds[s] {
						ss.add(n)
					}
					continue
				}
			}
			for _, ax := range decls[s].Axioms {
				axioms = append(axioms, ax)
				ss.walk(ax)
			}
		}
	}
	var lits []string
	for l := range ss.lits {
		lits = append(lits, l)
	}
	sort.Strings(lits)
	if !native {
		fs := litFacts(lits, ss.syms)
		for _, f := range fs {
			ss.walk(f)
		}
		axioms = append(axioms, fs...)
	}

	var sb strings.Builder
	sortText := ""
	for s := range ss.sorts {
		sortText += s + "\n"
	}
	for _, d := range decls {
		_ = d
	}
	for s := range ss.syms {
		d := decls[s]
		sortText += d.Ret + "\n" + strings.Join(d.Args, "\n") + "\n"
	}
	if native {
		sb.WriteString("(define-sort Str () String)\n")
	} else {
		sb.WriteString("(declare-sort Str 0)\n")
	}
	sb.WriteString("(declare-sort Flt 0)\n")
	needDT := map[string]bool{}
	var mark func(n string)
	mark = func(n string) {
		if needDT[n] {
			return
		}
		needDT[n] = true
		for _, s := range datatypes[n].Sorts {
			for m := range datatypes {
				if containsSym(s, m) {
					mark(m)
				}
			}
		}
	}
	for n := range datatypes {
		if containsSym(sortText, n) {
			mark(n)
		}
	}
	for _, n := range datatypeOrder {
		if !needDT[n] {
			continue
		}
		d := datatypes[n]
		sb.WriteString("(declare-datatypes ((" + n + " 0)) (((" + d.Con)
		for i, f := range d.Fields {
			sb.WriteString(" (" + f + " " + d.Sorts[i] + ")")
		}
		sb.WriteString("))))\n")
	}
	syms := ss.order
	ren := canonical(syms)
	emitted := map[string]bool{}
	var nat []string
	for _, s := range syms {
		d := decls[s]
		if native {
			if _, ok := nativeDefs[s]; ok {
				nat = append(nat, s)
				continue
			}
		}
		if d.Def != "" {
			continue
		}
		if r, ok := ren[s]; ok {
			s = r
		}
		sb.WriteString("(declare-fun " + s + " (" + strings.Join(d.Args, " ") + ") " + d.Ret + ")\n")
	}
	var emitNat func(s string)
	emitNat = func(s string) {
		if emitted[s] {
			return
		}
		emitted[s] = true
		for _, n := range nativeNeeds[s] {
			if _, ok := nativeDefs[n]; ok {
				emitNat(n)
			}
		}
		sb.WriteString(nativeDefs[s] + "\n")
	}
	for _, s := range nat {
		emitNat(s)
	}
	for _, s := range syms {
		if d := decls[s]; d.Def != "" && !emitted[s] {
			sb.WriteString(d.Def + "\n")
		}
	}
	p := &printer{ren: ren, sb: &sb, named: map[*Term]string{}, native: native, lits: map[string]string{}}
	if !native && len(lits) > 0 {
		for i, l := range lits {
			n := fmt.Sprintf("lit!%d", i)
			p.lits[l] = n
			fmt.Fprintf(&sb, "(declare-fun %s () Str) ; %q\n", n, l)
		}
		if len(lits) > 1 {
			sb.WriteString("(assert (distinct")
			for _, l := range lits {
				sb.WriteString(" " + p.lits[l])
			}
			sb.WriteString("))\n")
		}
	}
	prelude = sb.String()
	sb.Reset()
	// shared closed subterms
	nm := 0
	var nameShared func(t *Term, visited map[*Term]bool)
	nameShared = func(t *Term, visited map[*Term]bool) {
		if visited[t] {
			return
		}
		visited[t] = true
		for _, a := range t.Args {
			nameShared(a, visited)
		}
		if !t.hasBV && t.Op != "bvar" && ss.refs[t] >= 2 && t.size >= 10 && t.Op != "forall" && t.Op != "exists" {
			n := fmt.Sprintf("t!%d", nm)
			nm++
			sb.WriteString("(define-fun " + n + " () " + t.Sort + " ")
			p.term(t)
			sb.WriteString(")\n")
			p.named[t] = n
		}
	}
	vis := map[*Term]bool{}
	for _, a := range axioms {
		sb.WriteString("(assert ")
		p.term(a)
		sb.WriteString(")\n")
	}
	for _, a := range asserts {
		nameShared(a, vis)
		sb.WriteString("(assert ")
		p.term(a)
		sb.WriteString(")\n")
	}
	for _, g := range goals {
		nameShared(g, vis)
	}
	body = sb.String()
	for _, g := range goals {
		sb.Reset()
		sb.WriteString("(assert (not ")
		p.term(g)
		sb.WriteString("))\n")
		goalTxt = append(goalTxt, sb.String())
	}
	return
}

func containsSym(text, sym string) bool {
	for i := 0; ; {
		j := strings.Index(text[i:], sym)
		if j < 0 {
			return false
		}
		j += i
		k := j + len(sym)
		ok := (j == 0 || strings.ContainsRune(" ()\n", rune(text[j-1]))) && (k == len(text) || strings.ContainsRune(" ()\n", rune(text[k])))
		if ok {
			return true
		}
		i = j + 1
	}
}

type backend struct {
	name   string
	cmd    []string
	opts   string
	rlimit int64
}

var solverTime int64 // ns
var solverRuns int64
var sem = make(chan struct{}, 8)

func runSolver(b backend, script string, wall time.Duration) string {
	sem <- struct{}{}
	defer func() { <-sem }()
	ctx, cancel := context.WithTimeout(context.Background(), wall)
	defer cancel()
	args := append([]string{}, b.cmd[1:]...)
	cmd := exec.CommandContext(ctx, b.cmd[0], args...)
	cmd.Stdin = strings.NewReader(script)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	t0 := time.Now()
	cmd.Run()
	atomic.AddInt64(&solverTime, int64(time.Since(t0)))
	atomic.AddInt64(&solverRuns, 1)
	if os.Getenv("GVC_DUMP") != "" {
		h := sha256.Sum256([]byte(script))
		os.WriteFile(fmt.Sprintf("%s/%x-%s.smt2", os.Getenv("GVC_DUMP"), h[:6], b.name), []byte(script+"\n; "+strings.ReplaceAll(out.String(), "\n", "\n; ")+fmt.Sprintf("\n; %v\n", time.Since(t0))), 0644)
	}
	return out.String()
}

func z3Script(rlimit int64, mbqi bool, prelude, body string) string {
	o := ""
	if mbqi {
		o = "(set-option :smt.mbqi true)\n"
	} else {
		o = "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n"
	}
	return o + fmt.Sprintf("(set-option :rlimit %d)\n", rlimit) + prelude + body
}

var renderMu sync.Mutex
var qcache sync.Map // key -> result bool

func qkey(asserts []*Term, goal *Term, native bool) string {
	h := sha256.New()
	for _, a := range asserts {
		fmt.Fprintf(h, "%d,", a.id)
	}
	fmt.Fprintf(h, "|%d|%v", goal.id, native)
	return string(h.Sum(nil))
}

// slice assumptions: drop quantifier-free assumptions sharing nothing? (kept: all)
func relevant(asserts []*Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, a := range asserts {
		if a == True || seen[a] {
			continue
		}
		seen[a] = true
		out = append(out, a)
	}
	return out
}

// checkMany decides several goals under the same assumptions with a small
// budget (used for invariant inference); true = proved.
func checkMany(asserts []*Term, goals []*Term, native bool, rlimit int64) []bool {
	asserts = relevant(asserts)
	res := make([]bool, len(goals))
	aset := map[*Term]bool{}
	for _, a := range asserts {
		aset[a] = true
		if a == False {
			for i := range res {
				res[i] = true
			}
			return res
		}
	}
	var todo []int
	for i, g := range goals {
		if g == True || aset[g] {
			res[i] = true
			continue
		}
		if v, ok := qcache.Load(qkey(asserts, g, native)); ok {
			res[i] = v.(bool)
			continue
		}
		todo = append(todo, i)
	}
	const chunk = 6
	var wg sync.WaitGroup
	for len(todo) > 0 {
		n := chunk
		if n > len(todo) {
			n = len(todo)
		}
		part := todo[:n]
		todo = todo[n:]
		var gs []*Term
		for _, i := range part {
			gs = append(gs, goals[i])
		}
		pre, body, gt := render(asserts, gs, native)
		var sb strings.Builder
		sb.WriteString(z3Script(rlimit, false, pre, body))
		for _, g := range gt {
			// definitions inside goal text must stay outside of push/pop scopes
			sb.WriteString("(push)\n" + g + "(check-sat)\n(pop)\n")
		}
		script := sb.String()
		wg.Add(1)
		go func(part []int, script string) {
			defer wg.Done()
			out := runSolver(backend{name: "h", cmd: []string{"z3-new", "-in"}}, script, 60*time.Second)
			k := 0
			for _, ln := range strings.Split(out, "\n") {
				ln = strings.TrimSpace(ln)
				if ln == "sat" || ln == "unsat" || ln == "unknown" || ln == "timeout" {
					if k < len(part) {
						res[part[k]] = ln == "unsat"
						qcache.Store(qkey(asserts, goals[part[k]], native), ln == "unsat")
					}
					k++
				} else if strings.HasPrefix(ln, "(error") && !strings.Contains(ln, "canceled") {
					fmt.Fprintln(os.Stderr, "gvc: solver:", ln)
					if os.Getenv("GVC_DEBUG") != "" {
						os.WriteFile("/tmp/gvc-err.smt2", []byte(script), 0644)
					}
				}
			}
		}(part, script)
	}
	wg.Wait()
	return res
}

type proofResult struct {
	proved        bool
	backend       string
	model         string
	status        string
	failed        *Term
	failedAsserts []*Term
	dur           time.Duration
}

// splitGoal turns a goal into sequents: universally quantified variables become
// fresh constants, premises become assumptions, conjunctions split.
func splitGoal(asserts []*Term, goal *Term, out *[]sequent, sk *int) {
	switch goal.Op {
	case "and":
		for _, a := range goal.Args {
			splitGoal(asserts, a, out, sk)
		}
		return
	case "=>":
		var hyp State
		hyp.pc = asserts[:len(asserts):len(asserts)]
		hyp.assume(goal.Args[0])
		splitGoal(hyp.pc, goal.Args[1], out, sk)
		return
	case "=":
		if a, b := goal.Args[0], goal.Args[1]; a.Sort == "Bool" {
			splitGoal(asserts, Implies(a, b), out, sk)
			splitGoal(asserts, Implies(b, a), out, sk)
			return
		}
	case "forall":
		m := map[*Term]*Term{}
		for _, v := range goal.Bound {
			*sk++
			m[v] = Const(fmt.Sprintf("sk!%d!%s!%s", *sk, v.Name, sortCode(v.Sort)), v.Sort)
		}
		splitGoal(asserts, Subst(goal.Args[0], m), out, sk)
		return
	}
	*out = append(*out, sequent{asserts, goal})
}

type sequent struct {
	asserts []*Term
	goal    *Term
}

// segments of a concatenation
func catParts(t *Term) []*Term {
	if t.Op == "s_cat" {
		return append(catParts(t.Args[0]), catParts(t.Args[1])...)
	}
	return []*Term{t}
}

// decompose reduces an equation between two texts of the same shape to the
// equations between their parts (which imply it); nil when the shapes differ.
func decompose(a, b *Term) []*Term {
	if a == b {
		return []*Term{}
	}
	if a.Sort != b.Sort {
		return nil
	}
	if a.Op == "s_cat" || b.Op == "s_cat" {
		x, y := catParts(a), catParts(b)
		if len(x) != len(y) {
			return nil
		}
		out := []*Term{}
		for i := range x {
			d := decompose(x[i], y[i])
			if d == nil {
				return nil
			}
			out = append(out, d...)
		}
		return out
	}
	if a.Op == "strlit" && b.Op == "strlit" {
		return nil
	}
	if a.Op == b.Op && a.Op == "app" && a.Name == b.Name || a.Op == b.Op && strings.HasPrefix(a.Op, "s_sub") || a.Op == b.Op && strings.HasPrefix(a.Op, "ext:") {
		if len(a.Args) == len(b.Args) && len(a.Args) > 0 && a.Sort == "Str" {
			out := []*Term{}
			ok := true
			for i := range a.Args {
				d := decompose(a.Args[i], b.Args[i])
				if d == nil {
					ok = false
					break
				}
				out = append(out, d...)
			}
			if ok {
				return out
			}
		}
	}
	return []*Term{Eq(a, b)}
}

func prove1parts(asserts []*Term, goal *Term, native bool, deep int) proofResult {
	if goal.Op == "=" && goal.Args[0].Op == "s_cat" && goal.Args[1].Op == "s_cat" {
		renderMu.Lock()
		d := decompose(goal.Args[0], goal.Args[1])
		renderMu.Unlock()
		if len(d) > 0 && !(len(d) == 1 && d[0] == goal) {
			all := proofResult{proved: true}
			for _, g := range d {
				r := prove1(asserts, g, native, min(deep, 1))
				if os.Getenv("GVC_DECOMP") != "" {
					fmt.Println("   decomposed:", r.proved, g)
				}
				if !r.proved {
					all.proved = false
					break
				}
				all.backend = r.backend
			}
			if all.proved {
				return all
			}
		}
	}
	return prove1(asserts, goal, native, deep)
}

// prove discharges one obligation, sequent by sequent.
func prove(asserts []*Term, goal *Term, native bool, deep bool) proofResult {
	n := 1
	if deep {
		n = 8
	}
	return proveEffort(asserts, goal, native, n)
}

// proveEffort: effort 0 runs only the first back end of the ladder.
func proveEffort(asserts []*Term, goal *Term, native bool, deep int) proofResult {
	var parts []sequent
	renderMu.Lock()
	splitGoal(asserts, goal, &parts, new(int))
	var normed []sequent
	for _, p := range parts {
		strNorm(p, &normed)
	}
	parts = normed
	renderMu.Unlock()
	t0 := time.Now()
	all := proofResult{proved: true}
	used := map[string]bool{}
	for _, p := range parts {
		r := prove1parts(p.asserts, p.goal, native, deep)
		if r.proved {
			if r.backend != "simplifier" && !used[r.backend] {
				used[r.backend] = true
				if all.backend != "" {
					all.backend += "+"
				}
				all.backend += r.backend
			}
			continue
		}
		all.proved = false
		all.status = r.status
		all.failed = p.goal
		all.failedAsserts = p.asserts
		break
	}
	if all.backend == "" {
		all.backend = "simplifier"
	}
	all.dur = time.Since(t0)
	return all
}

// prove1 runs the ladder of back ends on one goal.
func prove1(asserts []*Term, goal *Term, native bool, deep int) proofResult {
	t0 := time.Now()
	asserts = relevant(asserts)
	if goal == True {
		return proofResult{proved: true, backend: "simplifier"}
	}
	for _, a := range asserts {
		if a == goal || a == False {
			return proofResult{proved: true, backend: "simplifier"}
		}
	}
	renderMu.Lock()
	pre, body, gt := render(asserts, []*Term{goal}, native)
	renderMu.Unlock()
	q := pre + body + gt[0]
	mul := int64(max(deep, 1))
	type step struct {
		b      backend
		script string
	}
	z := func(bin, name string, rl int64, mbqi bool) step {
		return step{backend{name: name, cmd: []string{bin, "-in"}}, z3Script(rl, mbqi, "", q) + "(check-sat)\n"}
	}
	c5 := func(rl int64, extra ...string) step {
		args := append([]string{"cvc5", "--lang=smt2", fmt.Sprintf("--rlimit=%d", rl)}, extra...)
		return step{backend{name: "cvc5-1.1.2", cmd: args}, "(set-logic ALL)\n" + q + "(check-sat)\n"}
	}
	var steps []step
	if native {
		steps = []step{
			z("z3-new", "z3-5.3.2", 8_000_000*mul, true),
			c5(200_000*mul, "--strings-exp"),
			z("z3", "z3-4.8.12", 8_000_000*mul, true),
		}
	} else {
		steps = []step{
			z("z3-new", "z3-5.3.2", 6_000_000*mul, false),
			z("z3", "z3-4.8.12", 6_000_000*mul, false),
			c5(600_000 * mul),
			z("z3-new", "z3-5.3.2-mbqi", 10_000_000*mul, true),
		}
	}
	if !native {
		for i, seed := range []int{11, 23} {
			st := z("z3-new", fmt.Sprintf("z3-5.3.2-seed%d", seed), 12_000_000*mul, false)
			st.script = fmt.Sprintf("(set-option :smt.random_seed %d)\n(set-option :smt.arith.solver %d)\n", seed, 6-4*i) + st.script
			steps = append(steps, st)
		}
	}
	if deep == 0 {
		steps = steps[:min(len(steps), 3)]
	}
	status := ""
	for _, s := range steps {
		out := runSolver(s.b, s.script, 120*time.Second)
		first := ""
		for _, ln := range strings.Split(out, "\n") {
			ln = strings.TrimSpace(ln)
			if ln == "unsat" || ln == "sat" || ln == "unknown" || ln == "timeout" {
				first = ln
				break
			}
		}
		if first == "" {
			ln := strings.SplitN(strings.TrimSpace(out), "\n", 2)[0]
			first = "none:" + ln
			if strings.Contains(out, "(error") && os.Getenv("GVC_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, s.b.name, strings.TrimSpace(out))
				os.WriteFile("/tmp/gvc-err.smt2", []byte(s.script), 0644)
			}
		}
		status += s.b.name + ":" + first + " "
		if first == "unsat" {
			return proofResult{proved: true, backend: s.b.name, status: status, dur: time.Since(t0)}
		}
		if first == "sat" && strings.HasSuffix(s.b.name, "mbqi") || first == "sat" && native {
			break
		}
	}
	return proofResult{status: status, dur: time.Since(t0)}
}

// model asks for values of terms in a candidate counterexample
func modelOf(asserts []*Term, goal *Term, native bool, vals []*Term, names []string) string {
	pre, body, gt := render(relevant(asserts), append([]*Term{goal}, vals...), native)
	_ = gt
	var sb strings.Builder
	p := ""
	for i, v := range vals {
		sb.Reset()
		_ = v
		_ = names
		_ = i
	}
	_ = p
	script := "(set-option :timeout 8000)\n" + pre + body + gt[0] + "(check-sat)\n(get-model)\n"
	out := runSolver(backend{name: "model", cmd: []string{"z3-new", "-in"}}, script, 15*time.Second)
	if len(out) > 20000 {
		out = out[:20000]
	}
	return out
}

// satisfiable: false only if assumptions are provably contradictory
func contradictory(asserts []*Term, native bool) bool {
	asserts = relevant(asserts)
	for _, a := range asserts {
		if a == False {
			return true
		}
	}
	if v, ok := qcache.Load(qkey(asserts, False, native)); ok {
		return v.(bool)
	}
	pre, body, _ := render(asserts, nil, native)
	out := runSolver(backend{name: "vac", cmd: []string{"z3-new", "-in"}}, z3Script(2_000_000, false, pre, body)+"(check-sat)\n", 30*time.Second)
	r := strings.HasPrefix(strings.TrimSpace(out), "unsat")
	qcache.Store(qkey(asserts, False, native), r)
	return r
}
