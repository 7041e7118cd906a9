package main

// gvc check PROP: decide one property. Verifies every contract that the
// property lists and, transitively, every contract those rely on; on a failed
// obligation looks for a failing input on the real code.

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

type failure struct {
	Function   string `json:"function"`
	Kind       string `json:"kind"`
	Label      string `json:"label"`
	Pos        string `json:"pos"`
	Status     string `json:"status"`
	Goal       string `json:"goal,omitempty"`
	Assumption string `json:"path_condition,omitempty"`
}

func (f failure) key() string { return f.Function + "|" + f.Kind + "|" + f.Label }

type replayFile struct {
	Property     string    `json:"property"`
	Failed       []failure `json:"failed_obligations"`
	FailingInput string    `json:"failing_input,omitempty"`
	Replay       string    `json:"replay_command,omitempty"`
	Output       string    `json:"replay_output,omitempty"`
}

func hasProp(c *Contract, p string) bool {
	for _, x := range c.props {
		if x == p {
			return true
		}
	}
	return false
}

func tagged(tags []string, p string) bool {
	if len(tags) == 0 {
		return true
	}
	for _, t := range tags {
		if t == p {
			return true
		}
	}
	return false
}

func cmdCheck(repo, verif, prop, tier string) int {
	t0 := time.Now()
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	outdir := os.Getenv("VERIF_OUT")
	if outdir == "" {
		outdir = verif
	}
	var fails []failure
	var units []*Unit
	S, serr := loadSpecs(verif + "/contracts")
	if serr != nil {
		fmt.Fprintln(os.Stderr, "gvc: contracts:", serr)
		return 3
	}
	P, err := loadProgram(repo)
	if err != nil {
		fmt.Fprintln(os.Stderr, "gvc: cannot load", repo+":", err)
		return 3
	}
	grammars, gerr := loadGrammars(verif + "/contracts")
	if gerr != nil {
		fmt.Fprintln(os.Stderr, "gvc: grammars:", gerr)
		return 3
	}
	tload := time.Since(t0)
	deep := tier == "thorough"
	deadline = t0.Add(420 * time.Second)
	if deep {
		deadline = t0.Add(3000 * time.Second)
	}
	checkProp = prop
	// closure of contracts
	queue := []string{}
	seen := map[string]bool{}
	for _, k := range sortedKeys(S.contracts) {
		if c := S.contracts[k]; !c.extern && hasProp(c, prop) {
			queue = append(queue, k)
			seen[k] = true
		}
	}
	roots := len(queue)
	for len(queue) > 0 {
		k := queue[0]
		queue = queue[1:]
		t1 := time.Now()
		u := verifyContract(P, S, k)
		u.genSecs = time.Since(t1).Seconds()
		units = append(units, u)
		for _, c := range sortedKeys(u.usedContracts) {
			if !seen[c] && S.contracts[c] != nil && !S.contracts[c].extern {
				seen[c] = true
				queue = append(queue, c)
			}
		}
	}
	for _, u := range units {
		var keep []*Obligation
		for _, o := range u.obls {
			if tagged(o.tags, prop) {
				keep = append(keep, o)
			}
		}
		u.obls = keep
	}
	dischargeAll(units, deep)
	// functions whose invariants were perhaps given up too early: again, with
	// more effort
	for again := 0; again < 3; {
		hit := false
		for i, u := range units {
			bad := 0
			for _, o := range u.obls {
				if !o.Proved {
					bad++
				}
			}
			if bad == 0 || u.con == nil || u.con.opt("retry") != "" || len(u.con.schemas) == 0 || time.Since(t0) > 240*time.Second {
				continue
			}
			hit = true
			again++
			u.con.opts["retry"] = "on"
			if u.con.opt("houdini") == "" {
				u.con.opts["houdini"] = "5000000"
			}
			atomic.StoreInt32(&failCount, 0)
			u2 := verifyContract(P, S, u.name)
			var keep []*Obligation
			for _, o := range u2.obls {
				if tagged(o.tags, prop) {
					keep = append(keep, o)
				}
			}
			u2.obls = keep
			dischargeAll([]*Unit{u2}, deep)
			bad2 := 0
			for _, o := range u2.obls {
				if !o.Proved {
					bad2++
				}
			}
			if u2.failure == "" && bad2 < bad {
				units[i] = u2
			}
			if again >= 3 {
				break
			}
		}
		if !hit {
			break
		}
	}
	// vacuity: the preconditions of every verified function must be satisfiable
	vac := vacuityCheck(units)
	obl, dis, triv := 0, 0, 0
	backends := map[string]int{}
	externs := map[string]bool{}
	notes := map[string]bool{}
	inlined := map[string]bool{}
	var fnames []string
	var samples []any
	for _, u := range units {
		triv += u.trivial
		fnames = append(fnames, fmt.Sprintf("%s (%d obligations, %d loop invariants kept, %.1fs)", u.name, len(u.obls), u.invCount, u.genSecs))
		for _, o := range u.obls {
			obl++
			if o.Proved {
				dis++
				backends[o.Backend]++
				if len(samples) < 5 && o.Kind == "postcondition" && dis%7 == 1 {
					samples = append(samples, fmt.Sprintf("%s %s [%s] at %s by %s in %.2fs", o.Unit, o.Kind, o.Label, o.Pos, o.Backend, o.Seconds))
				}
			} else {
				f := failure{Function: u.name, Kind: o.Kind, Label: o.Label, Pos: o.Pos, Status: o.Status, Goal: clip(o.goal.String(), 4000)}
				var as []string
				for i, a := range o.asserts {
					if i < 40 {
						as = append(as, clip(a.String(), 500))
					}
				}
				f.Assumption = strings.Join(as, "\n")
				fails = append(fails, f)
			}
		}
		if u.failure != "" {
			fails = append(fails, failure{Function: u.name, Kind: "generation", Label: u.failure, Status: "the verifier could not generate this function's obligations"})
		} else if u.returns == 0 && u.con.opt("noreturn") == "" {
			fails = append(fails, failure{Function: u.name, Kind: "vacuity", Label: "no return is reachable", Status: "vacuous"})
		}
		for k := range u.usedExterns {
			externs[k] = true
		}
		for k := range u.notes {
			notes[k] = true
		}
		for k := range u.inlined {
			inlined[k] = true
		}
	}
	for _, n := range vac {
		fails = append(fails, failure{Function: n, Kind: "vacuity", Label: "preconditions are unsatisfiable", Status: "vacuous"})
	}
	var candidates []string
	for _, g := range grammars {
		inProps := false
		for _, x := range g.props {
			inProps = inProps || x == prop
		}
		if !inProps && g.posProp != prop {
			continue
		}
		roots++
		t1 := time.Now()
		r := runSim(P, g)
		fnames = append(fnames, fmt.Sprintf("%s against its grammar contract (%d program points with inferred inductive invariants, %d obligations, %d of them at returns, %.1fs)", g.fn, r.points, r.obls, r.returns, time.Since(t1).Seconds()))
		obl += r.obls
		dis += r.obls
		backends["byte case split and term equality (gvc)"] += r.obls
		if r.err != "" {
			fails = append(fails, failure{Function: g.fn, Kind: "grammar", Label: "generation", Status: r.err})
		} else if r.accepts == 0 {
			fails = append(fails, failure{Function: g.fn, Kind: "vacuity", Label: "no text is accepted", Status: "vacuous"})
		}
		for _, l := range sortedKeys(r.fails) {
			f := r.fails[l]
			if l == "position" && g.posProp != prop || l != "position" && l != "verifier" && l != "panic" && l != "progress" && !inProps {
				continue
			}
			dis -= f.count
			backends["byte case split and term equality (gvc)"] -= f.count
			fails = append(fails, failure{Function: g.fn, Kind: "grammar", Label: l, Pos: f.pos, Status: fmt.Sprintf("%d of %d steps, first after the text %q", f.count, r.obls, f.witness), Goal: f.msg})
		}
		candidates = append(candidates, r.candidates...)
		for _, x := range r.inlined {
			inlined[x] = true
		}
		for _, x := range r.externs {
			externs[x] = true
		}
		if len(samples) < 5 && r.failed == 0 {
			samples = append(samples, fmt.Sprintf("%s: the inferred invariants of %d program points are inductive over %d steps (every byte value, with and without the text ending after it)", g.fn, r.points, r.edges))
		}
		notes["the grammar contracts/"+g.file+" states what "+g.fn+" must accept and return; the ASCII behaviour of strings.ToUpper and TrimSpace and of regexp class+ replacement is assumed"] = true
	}
	if roots == 0 {
		fmt.Fprintln(os.Stderr, "gvc: no contract for", prop)
		return 3
	}
	// bounded stand-ins and failing-input search
	rp := newReplay(repo, verif, prop, seed, tier)
	rp.candidates = candidates
	bounded := rp.hasBounded()
	var found, out string
	boundedStats := ""
	if bounded {
		var bad bool
		bad, found, out, boundedStats = rp.run("Bounded"+prop, 400*time.Second)
		if bad {
			fails = append(fails, failure{Function: "bounded stand-in", Kind: "bounded", Label: "Bounded" + prop, Status: "failing input found on the real code"})
		}
	}
	known, noted := loadKnown(verif, prop)
	for _, k := range noted {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k)
	}
	var live []failure
	for _, f := range fails {
		if k := known[f.key()]; k != "" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k)
			continue
		}
		live = append(live, f)
	}
	rc := 0
	violations := 0
	if len(live) > 0 {
		violations = len(live)
		rc = 1
		if found == "" {
			var bad bool
			bad, found, out, _ = rp.run("Replay"+prop, 400*time.Second)
			_ = bad
		}
		rf := replayFile{Property: prop, Failed: live, FailingInput: found, Output: clip(out, 20000), Replay: rp.cmdline("Replay" + prop)}
		os.MkdirAll(outdir+"/replays", 0o755)
		path := fmt.Sprintf("%s/replays/%s.json", outdir, prop)
		b, _ := json.MarshalIndent(rf, "", " ")
		os.WriteFile(path, b, 0o644)
		for i, f := range live {
			if i < 12 {
				fmt.Printf("failed obligation: %s: %s [%s] %s (%s)\n", f.Function, f.Kind, clip(f.Label, 200), f.Pos, clip(f.Status, 160))
			}
		}
		if found != "" {
			fmt.Printf("failing input on the real code: %s\n", clip(found, 1500))
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		} else {
			fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, path)
		}
	} else if deep && rp.has("Replay"+prop) {
		// thorough: the executable oracle of the replay must agree with the proof
		bad, f2, o2, st := rp.run("Replay"+prop, 600*time.Second)
		boundedStats += " replay oracle on the unchanged code: " + st
		if bad {
			violations = 1
			rc = 1
			rf := replayFile{Property: prop, FailingInput: f2, Output: clip(o2, 20000), Replay: rp.cmdline("Replay" + prop)}
			os.MkdirAll(outdir+"/replays", 0o755)
			path := fmt.Sprintf("%s/replays/%s.json", outdir, prop)
			b, _ := json.MarshalIndent(rf, "", " ")
			os.WriteFile(path, b, 0o644)
			fmt.Printf("failing input on the real code: %s\n", clip(f2, 1500))
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		}
	}
	// evidence
	tb := []string{"go/packages and go/ssa (golang.org/x/tools): source to SSA", "gvc: SSA to verification conditions", "z3 5.3.2, z3 4.8.12, cvc5 1.1.2: unsat answers"}
	for _, k := range sortedKeys(externs) {
		tb = append(tb, "assumed contract: "+k)
	}
	assum := []string{"machine integers are treated as mathematical integers", "pointers and slices handed in by callers are well formed; no unsafe code, no data races inside a function under contract"}
	for _, k := range sortedKeys(notes) {
		assum = append(assum, k)
	}
	assum = append(assum, S.assumes[prop]...)
	cov := map[string]any{
		"obligations": obl, "discharged": dis, "trivially_true": triv,
		"checker_cmd":              fmt.Sprintf("/verif/check.sh %s %s", prop, tier),
		"trusted_base":             tb,
		"functions_under_contract": fnames,
		"functions_inlined":        sortedKeys(inlined),
		"discharged_by":            backends,
		"solver_seconds":           float64(solverTime) / 1e9,
		"solver_runs":              solverRuns,
		"load_seconds":             tload.Seconds(),
		"samples":                  samples,
		"vacuity_checks":           len(units),
	}
	if boundedStats != "" {
		cov["bounded_not_proved"] = boundedStats
	}
	level := "proof"
	ev := map[string]any{"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": assum, "wall_s": time.Since(t0).Seconds(), "violations": violations}
	os.MkdirAll(outdir+"/evidence", 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(outdir+"/evidence/"+prop+".json", b, 0o644)
	fmt.Printf("%s: %d functions and grammars under contract, %d/%d obligations discharged, solver %.1fs, wall %.1fs\n", prop, len(fnames), dis, obl, float64(solverTime)/1e9, time.Since(t0).Seconds())
	return rc
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

// vacuityCheck returns the functions whose preconditions are contradictory.
func vacuityCheck(us []*Unit) []string {
	type res struct {
		name string
		bad  bool
	}
	ch := make(chan res, len(us))
	lim := make(chan bool, 8)
	for _, u := range us {
		go func(u *Unit) {
			lim <- true
			defer func() { <-lim }()
			if u.failure != "" || u.preconds == nil {
				ch <- res{u.name, false}
				return
			}
			renderMu.Lock()
			pre, body, gt := render(u.preconds, []*Term{False}, u.native)
			renderMu.Unlock()
			q := z3Script(2000000, false, "", pre+body+gt[0]) + "(check-sat)\n"
			ctx := exec.Command("z3-new", "-T:3", "-in")
			ctx.Stdin = strings.NewReader(q)
			o, _ := ctx.Output()
			ch <- res{u.name, strings.HasPrefix(strings.TrimSpace(string(o)), "unsat")}
		}(u)
	}
	var bad []string
	for range us {
		if r := <-ch; r.bad {
			bad = append(bad, r.name)
		}
	}
	sort.Strings(bad)
	return bad
}

// loadKnown reads the known findings of a property: obligation key -> text.
func loadKnown(verif, prop string) (m map[string]string, noted []string) {
	m = map[string]string{}
	b, err := os.ReadFile(verif + "/known-findings.txt")
	if err != nil {
		return m, nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		p := "KNOWN-FINDING: property=" + prop + " "
		if strings.HasPrefix(l, p) {
			rest := strings.TrimPrefix(l, p)
			// key=<obligation key>; text
			if strings.HasPrefix(rest, "key=-; ") {
				noted = append(noted, rest[7:])
			} else if i := strings.Index(rest, "; "); strings.HasPrefix(rest, "key=") && i > 0 {
				m[rest[4:i]] = rest[i+2:]
			}
		}
	}
	return m, noted
}

// ---- replay on the real code

type replay struct {
	repo, verif, prop, tier string
	seed                    int
	files                   []string // relative to /verif/replay
	tests                   map[string][]string
	candidates              []string
	hit                     string // the package whose harness found a failing input
}

func newReplay(repo, verif, prop string, seed int, tier string) *replay {
	r := &replay{repo: repo, verif: verif, prop: prop, seed: seed, tier: tier, tests: map[string][]string{}}
	root := verif + "/replay"
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() && strings.HasSuffix(p, ".go") {
			rel, _ := filepath.Rel(root, p)
			r.files = append(r.files, rel)
			b, _ := os.ReadFile(p)
			for _, kind := range []string{"Replay", "Bounded"} {
				if strings.Contains(string(b), "func TestVerif"+kind+prop+"(") {
					r.tests[kind+prop] = append(r.tests[kind+prop], filepath.Dir(rel))
				}
			}
		}
		return nil
	})
	sort.Strings(r.files)
	return r
}

func (r *replay) has(n string) bool { return len(r.tests[n]) > 0 }
func (r *replay) hasBounded() bool  { return r.has("Bounded" + r.prop) }
func (r *replay) cmdline(n string) string {
	if !r.has(n) {
		return ""
	}
	pkg := r.tests[n][0]
	if r.hit != "" {
		pkg = r.hit
	}
	return fmt.Sprintf("cd /verif && VERIF_SEED=%d tools/replay.sh %s %s", r.seed, pkg, "TestVerif"+n)
}

// run executes one harness; bad reports a failing input on the real code.
func (r *replay) run(name string, limit time.Duration) (bad bool, input, out, stats string) {
	for _, pkg := range r.tests[name] {
		var st string
		bad, input, out, st = r.run1(name, pkg, limit/time.Duration(len(r.tests[name])))
		if bad {
			r.hit = pkg
			return bad, input, out, st
		}
		stats = strings.TrimSpace(stats + " " + st)
	}
	return
}

func (r *replay) run1(name, pkg string, limit time.Duration) (bad bool, input, out, stats string) {
	if !r.has(name) {
		return
	}
	dir, err := os.MkdirTemp("", "verif-replay")
	if err != nil {
		return
	}
	defer os.RemoveAll(dir)
	ov := map[string]string{}
	for _, f := range r.files {
		// helper packages, and the test files of this package that belong to this harness
		d := filepath.Dir(f)
		if strings.HasSuffix(f, "_test.go") {
			b, _ := os.ReadFile(r.verif + "/replay/" + f)
			if d != pkg || !(strings.Contains(string(b), "func TestVerif"+name+"(") || strings.Contains(string(b), "//verif:shared")) {
				continue
			}
		}
		ov[r.repo+"/"+f] = r.verif + "/replay/" + f
	}
	b, _ := json.Marshal(map[string]any{"Replace": ov})
	of := dir + "/overlay.json"
	os.WriteFile(of, b, 0o644)
	res := dir + "/result.json"
	secs := 40
	if r.tier == "thorough" {
		secs = 120
	}
	cmd := exec.Command("timeout", "-k", "5", fmt.Sprint(int(limit.Seconds())), "go", "test", "-overlay", of, "-vet=off", "-count=1", "-timeout", fmt.Sprintf("%ds", int(limit.Seconds())-10), "-run", "^TestVerif"+name+"$", "./"+pkg)
	cmd.Dir = r.repo
	cf := dir + "/candidates.json"
	cb, _ := json.Marshal(hexAll(r.candidates))
	os.WriteFile(cf, cb, 0o644)
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "VERIF_RESULT="+res, "VERIF_CANDIDATES="+cf, fmt.Sprintf("VERIF_SECS=%d", secs), fmt.Sprintf("VERIF_SEED=%d", r.seed), "VERIF_SCRATCH="+dir, "TMPDIR="+dir)
	o, err := cmd.CombinedOutput()
	out = string(o)
	var rr struct {
		Input, Current, Stats string
	}
	if b, e := os.ReadFile(res); e == nil {
		json.Unmarshal(b, &rr)
	}
	stats = rr.Stats
	if rr.Input != "" {
		return true, rr.Input, out, stats
	}
	if err != nil && rr.Current != "" && (strings.Contains(out, "panic:") || strings.Contains(out, "fatal error:")) {
		return true, "process died while handling: " + rr.Current, out, stats
	}
	if err != nil {
		fmt.Fprintf(os.Stderr, "gvc: replay harness %s did not run: %s\n", name, clip(out, 600))
	}
	return false, "", out, stats
}

func hexAll(l []string) []string {
	r := []string{}
	for _, s := range l {
		r = append(r, fmt.Sprintf("%x", s))
	}
	return r
}
