package parser_test

import (
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"github.com/sjansen/pgutil/internal/logger"
	"github.com/sjansen/pgutil/internal/taskset/demo"
	"github.com/sjansen/pgutil/internal/taskset/parser"
	"github.com/sjansen/pgutil/internal/taskset/pg"
	"github.com/sjansen/pgutil/internal/taskset/sh"
	"github.com/sjansen/pgutil/internal/taskset/types"
	"github.com/sjansen/pgutil/internal/verifkit"
)

type verifTarget struct {
	typ, id, text, want string
}

type verifTask struct {
	typ, id, target         string
	after, provide, require []string
	text                    string
	kind                    string
	body                    string
}

// verifBackend counts what it makes.
type verifBackend struct {
	types.TargetFactory
	made []types.Target
}

func (f *verifBackend) NewTarget() types.Target {
	t := f.TargetFactory.NewTarget()
	f.made = append(f.made, t)
	return t
}

func verifList(xs []string) string {
	var q []string
	for _, x := range xs {
		q = append(q, fmt.Sprintf("%q", x))
	}
	return "[" + strings.Join(q, ", ") + "]"
}

func TestVerifReplayP27(t *testing.T) {
	k := verifkit.New(t)
	defer k.Done()
	dir := os.Getenv("VERIF_SCRATCH")
	if dir == "" {
		dir = t.TempDir()
	}
	pick := func(xs ...string) string { return xs[k.R.Intn(len(xs))] }
	for k.More() {
		log := logger.Discard()
		all := map[string]*verifBackend{
			"demo": {TargetFactory: &demo.TargetFactory{Log: log, Stdout: ioutil.Discard}},
			"pg":   {TargetFactory: &pg.TargetFactory{Log: log}},
			"sh":   {TargetFactory: &sh.TargetFactory{Log: log}},
		}
		p := &parser.Parser{Targets: map[string]types.TargetFactory{}}
		for n, f := range all {
			if k.R.Intn(8) != 0 {
				p.Targets[n] = f
			}
		}
		bad := ""
		fail := func(s string) { bad = s }
		pool := []string{"a", "b", "msg1", "x y", "msg1/x", "é", "A", "demo", "pg", "", "b"}
		names := func(n int) (r []string) {
			for i := 0; i < n; i++ {
				r = append(r, pool[k.R.Intn(len(pool))]+pick("", "1", "2"))
			}
			return
		}
		group := map[string]map[string]string{} // the wanted string of each demo target
		for n := range p.Targets {
			group[n] = map[string]string{"": "/1"}
		}
		var text strings.Builder
		var known []string
		for n := range p.Targets {
			known = append(known, n)
		}
		sort.Strings(known)
		typ := func() string {
			if len(known) == 0 || k.R.Intn(40) == 0 {
				return pick("demo", "pg", "sh", "nope", "")
			}
			return known[k.R.Intn(len(known))]
		}
		for i := k.R.Intn(5); i > 0; i-- {
			ty, id := typ(), pool[k.R.Intn(len(pool))]
			body := ""
			want := ""
			if ty == "demo" {
				want = fmt.Sprintf("s%d", k.R.Intn(100))
				body = fmt.Sprintf("  string = %q\n", want)
				if k.R.Intn(3) == 0 {
					body += "  max_concurrency = 3\n"
					want += "/3"
				} else {
					want += "/1"
				}
				if k.R.Intn(30) == 0 {
					body = ""
					fail("a demo target without string")
				}
			}
			if k.R.Intn(30) == 0 {
				body += "  nonsense = 1\n"
				fail("unknown attribute of a target")
			}
			if _, ok := p.Targets[ty]; !ok {
				fail("target of type " + ty)
			} else {
				group[ty][id] = want
			}
			fmt.Fprintf(&text, "target %q %q {\n%s}\n", ty, id, body)
		}
		want := map[string]verifTask{}
		for i := k.R.Intn(6); i > 0; i-- {
			x := verifTask{typ: typ(), id: names(1)[0]}
			g := group[x.typ]
			if g == nil {
				fail("task of type " + x.typ)
			} else {
				var ids []string
				for id := range g {
					ids = append(ids, id)
				}
				sort.Strings(ids)
				x.target = ids[k.R.Intn(len(ids))]
			}
			if k.R.Intn(25) == 0 {
				x.target = "missing"
				fail("target missing")
			}
			full := x.typ
			switch x.typ {
			case "demo":
				x.kind = pick("echo", "fail", "rev", "rot13", "sleep")
				if k.R.Intn(25) == 0 {
					x.kind = pick("nope", "", "echo/x")
					fail("demo task of type " + x.kind)
				}
				full += "/" + x.kind
			case "pg":
				x.body = fmt.Sprintf("select %d", k.R.Intn(100))
				x.text = fmt.Sprintf("  sql = %q\n", x.body)
				full += pick("", "", "/exec")
			case "sh":
				x.body = fmt.Sprint([]string{"echo", fmt.Sprint(k.R.Intn(100))})
				x.text = fmt.Sprintf("  args = [%s]\n", strings.Replace(verifList(strings.Fields(strings.Trim(x.body, "[]")))[1:], "]", "", 1))
			}
			if x.text != "" && k.R.Intn(30) == 0 {
				x.text = ""
				fail("task without its settings")
			}
			if k.R.Intn(30) == 0 {
				x.text += "  nonsense = 1\n"
				fail("unknown attribute of a task")
			}
			attrs := x.text
			if x.target != "" || k.R.Intn(4) == 0 {
				attrs += fmt.Sprintf("  target = %q\n", x.target)
			}
			if k.R.Intn(2) == 0 {
				x.after = names(k.R.Intn(4))
				attrs += "  after = " + verifList(x.after) + "\n"
			}
			if k.R.Intn(2) == 0 {
				x.provide = names(k.R.Intn(4))
				attrs += "  provides = " + verifList(x.provide) + "\n"
			}
			if k.R.Intn(2) == 0 {
				x.require = names(k.R.Intn(4))
				attrs += "  requires = " + verifList(x.require) + "\n"
			}
			fmt.Fprintf(&text, "task %q %q {\n%s}\n", full, x.id, attrs)
			want[x.id] = x
		}
		src := text.String()
		if k.R.Intn(30) == 0 {
			src += pick("target \"demo\" {}\n", "task \"a\" \"b\" {", "nonsense = 1\n", "other \"x\" {}\n", "}\n")
			fail("not a task set")
		}
		file := filepath.Join(dir, "t.hcl")
		if err := ioutil.WriteFile(file, []byte(src), 0600); err != nil {
			t.Fatal(err)
		}
		missing := k.R.Intn(40) == 0
		if missing {
			os.Remove(file)
			fail("no file")
		}
		k.Do(fmt.Sprintf("types %v, file %s", known, src), func() string {
			ts, err := p.Parse(file)
			if bad != "" {
				if err == nil {
					return "loaded although there is " + bad
				}
				if ts != nil {
					return "an error and a task set"
				}
				return ""
			}
			if err != nil {
				return "did not load: " + err.Error()
			}
			if len(ts.Targets) != len(p.Targets) {
				return fmt.Sprintf("there are targets of %d types, should be %d", len(ts.Targets), len(p.Targets))
			}
			seen := map[types.Target]string{}
			for n := range p.Targets {
				g := ts.Targets[n]
				if len(g) != len(group[n]) {
					return fmt.Sprintf("there are %d targets of type %s, should be %d", len(g), n, len(group[n]))
				}
				for id, want := range group[n] {
					x, ok := g[types.TargetID(id)]
					if !ok || x == nil {
						return fmt.Sprintf("target %s %q is missing", n, id)
					}
					if o, dup := seen[x]; dup {
						return fmt.Sprintf("target %s %q is also %s", n, id, o)
					}
					seen[x] = n + " " + id
					mine := false
					for _, m := range all[n].made {
						mine = mine || m == x
					}
					if !mine {
						return fmt.Sprintf("target %s %q was not made for its type", n, id)
					}
					if d, ok := x.(*demo.Target); ok && fmt.Sprintf("%s/%d", d.String, d.MaxConcurrency) != want {
						return fmt.Sprintf("target %s %q has string %q and concurrency %d, should be %s", n, id, d.String, d.MaxConcurrency, want)
					}
				}
			}
			if len(ts.Tasks) != len(want) {
				return fmt.Sprintf("there are %d tasks, should be %d", len(ts.Tasks), len(want))
			}
			for id, w := range want {
				x, ok := ts.Tasks[types.TaskID(id)]
				if !ok || x == nil {
					return fmt.Sprintf("task %q is missing", id)
				}
				var deps []string
				for _, a := range w.after {
					deps = append(deps, "task:"+a)
				}
				deps = append(deps, w.require...)
				if g := x.Dependencies(); fmt.Sprintf("%q", g) != fmt.Sprintf("%q", deps) {
					return fmt.Sprintf("task %q depends on %q, should be %q", id, g, deps)
				}
				if g := x.Provides(); fmt.Sprintf("%q", g) != fmt.Sprintf("%q", w.provide) {
					return fmt.Sprintf("task %q provides %q, should be %q", id, g, w.provide)
				}
				is := ""
				switch x := x.(type) {
				case *demo.Echo:
					is = "demo echo"
				case *demo.Fail:
					is = "demo fail"
				case *demo.Rev:
					is = "demo rev"
				case *demo.Rot13:
					is = "demo rot13"
				case *demo.Sleep:
					is = "demo sleep"
				case *pg.Task:
					is = "pg " + x.SQL
				case *sh.Task:
					is = "sh " + fmt.Sprint(x.Args)
				}
				should := w.typ + " " + w.kind + w.body
				if is != should {
					return fmt.Sprintf("task %q is %s, should be %s", id, is, should)
				}
			}
			return ""
		})
	}
}
