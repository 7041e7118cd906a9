package parser_test

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"testing"

	"github.com/sjansen/pgutil/internal/runbook/parser"
	"github.com/sjansen/pgutil/internal/runbook/types"
	"github.com/sjansen/pgutil/internal/verifkit"
)

type verifTarget struct {
	A     int
	B     string
	class string
}

type verifTask struct {
	N     int
	S     []string
	class string
	of    *verifTarget
}

type verifFactory struct{ class string }

func (f verifFactory) NewTarget() types.Target { return &verifTarget{class: f.class, A: 7} }

func (t *verifTarget) Analyze() error {
	if t.A < 0 || t.B == "bad" {
		return errors.New("invalid settings")
	}
	return nil
}
func (t *verifTarget) ConcurrencyLimit() int                                { return 1 }
func (t *verifTarget) Handle(ctx context.Context, x types.TaskConfig) error { return nil }
func (t *verifTarget) NewTaskConfig(class string) (types.TaskConfig, error) {
	if class == "no" || class == "x/no" {
		return nil, errors.New("invalid class")
	}
	return &verifTask{class: class, of: t, N: 3}, nil
}
func (t *verifTarget) Start() error { return nil }
func (t *verifTarget) Stop() error  { return nil }

func (x *verifTask) Check() error {
	if x.N == 13 {
		return errors.New("invalid settings")
	}
	return nil
}

type verifDoc map[string]interface{}

func TestVerifReplayP08(t *testing.T) {
	k := verifkit.New(t)
	defer k.Done()
	dir := os.Getenv("VERIF_SCRATCH")
	if dir == "" {
		dir = t.TempDir()
	}
	file := filepath.Join(dir, "book.jsonnet")
	pick := func(xs ...string) string { return xs[k.R.Intn(len(xs))] }
	rare := func() bool { return k.R.Intn(14) == 0 }
	p := &parser.Parser{Targets: map[string]types.TargetFactory{"one": verifFactory{"one"}, "two": verifFactory{"two"}}}
	for k.More() && k.N < 40000 {
		valid := true
		type wantT struct {
			class string
			a     int
			b     string
		}
		type wantK struct {
			target, class, message string
			after                  []string
			n                      int
			s                      []string
		}
		wt, wk := map[string]wantT{}, map[string]wantK{}
		doc := verifDoc{}
		ids := []string{"t1", "t2", "T 3", "", "é"}[:1+k.R.Intn(5)]
		targets := verifDoc{}
		for _, id := range ids {
			if k.R.Intn(4) == 0 {
				continue
			}
			w := wantT{class: pick("one", "two"), a: 7}
			e := verifDoc{"class": w.class}
			if rare() {
				e["class"] = pick("three", "", "One")
				valid = false
			}
			switch k.R.Intn(3) {
			case 0:
				c := verifDoc{}
				if k.R.Intn(2) == 0 {
					w.a = k.R.Intn(5)
					c["a"] = w.a
				}
				if k.R.Intn(2) == 0 {
					w.b = pick("", "b", "bad ", "\"q\"")
					c["b"] = w.b
				}
				switch k.R.Intn(24) {
				case 0:
					c["a"], valid = -1, false
				case 1:
					c["b"], valid = "bad", false
				case 2:
					c["c"], valid = 1, false
				case 3:
					c["a"], valid = "text", false
				}
				e["config"] = c
			case 1:
				e["config"] = nil
				if rare() {
					odd := []interface{}{1, 12, "", "x", []int{}, true, -1.5, []int{1}}
					e["config"], valid = odd[k.R.Intn(len(odd))], false
				}
			}
			if rare() && rare() {
				e["other"] = 1
				valid = false
			}
			targets[id] = e
			if rare() && rare() {
				targets[id] = nil
				valid = false
			}
			wt[id] = w
		}
		if len(targets) > 0 || k.R.Intn(2) == 0 {
			doc["targets"] = targets
		}
		var declared []string
		for id := range wt {
			declared = append(declared, id)
		}
		tasks := verifDoc{}
		for _, id := range []string{"a", "b", "c d", "", "ü", "a/b"}[:k.R.Intn(7)] {
			if len(declared) == 0 && !rare() {
				continue
			}
			w := wantK{message: pick("", "hello", "a\nb"), n: 3}
			if len(declared) > 0 {
				w.target = declared[k.R.Intn(len(declared))]
			}
			if len(declared) == 0 || rare() && rare() {
				w.target = pick("nowhere", "T1", "t1 ")
				valid = false
			}
			full := w.target
			switch k.R.Intn(4) {
			case 0:
				w.class = pick("x", "x/y", "", "y ", "/")
				full += "/" + w.class
			case 1:
				if rare() {
					full += "/" + pick("no", "x/no")
					valid = false
				}
			}
			e := verifDoc{"target": full}
			if w.message != "" {
				e["message"] = w.message
			}
			for i := k.R.Intn(3); i > 0; i-- {
				w.after = append(w.after, pick("a", "b", "zz", "a"))
			}
			if w.after != nil || k.R.Intn(3) == 0 {
				e["after"] = append([]string{}, w.after...)
			}
			if k.R.Intn(2) == 0 {
				c := verifDoc{}
				if k.R.Intn(2) == 0 {
					w.n = k.R.Intn(12)
					c["n"] = w.n
				}
				if k.R.Intn(2) == 0 {
					w.s = []string{pick("p", "q"), "r"}
					c["s"] = w.s
				}
				switch k.R.Intn(24) {
				case 0:
					c["n"], valid = 13, false
				case 1:
					c["m"], valid = 1, false
				case 2:
					c["s"], valid = "text", false
				}
				e["config"] = c
			} else if rare() {
				odd := []interface{}{1, 12, "", "x", []int{}, true, -1.5, []int{1}}
				e["config"], valid = odd[k.R.Intn(len(odd))], false
			}
			if rare() && rare() {
				e["extra"] = true
				valid = false
			}
			tasks[id] = e
			if rare() && rare() {
				tasks[id] = nil
				valid = false
			}
			wk[id] = w
		}
		if len(tasks) > 0 || k.R.Intn(2) == 0 {
			doc["tasks"] = tasks
		}
		if rare() && rare() {
			doc["unknown"] = 1
			valid = false
		}
		b, err := json.Marshal(doc)
		if err != nil {
			t.Fatal(err)
		}
		if err := os.WriteFile(file, b, 0o600); err != nil {
			t.Fatal(err)
		}
		k.Do("runbook "+string(b), func() string {
			r, err := p.Parse(file)
			if !valid {
				if err == nil || r != nil {
					return fmt.Sprintf("an invalid runbook loads: %v, %v", r, err)
				}
				return ""
			}
			if err != nil || r == nil {
				return fmt.Sprintf("a valid runbook is refused: %v", err)
			}
			if len(r.Targets) != len(wt) || len(r.Tasks) != len(wk) {
				return fmt.Sprintf("%d targets and %d tasks are loaded", len(r.Targets), len(r.Tasks))
			}
			seen := map[types.Target]bool{}
			for id, w := range wt {
				x, ok := r.Targets[id].(*verifTarget)
				if !ok || x.class != w.class || x.A != w.a || x.B != w.b {
					return fmt.Sprintf("target %q is loaded as %#v", id, r.Targets[id])
				}
				if seen[x] {
					return fmt.Sprintf("target %q is shared", id)
				}
				seen[x] = true
			}
			cfgs := map[types.TaskConfig]bool{}
			for id, w := range wk {
				x := r.Tasks[id]
				if x == nil || x.Target != w.target || x.Message != w.message || len(x.After) != len(w.after) || len(w.after) > 0 && !reflect.DeepEqual(x.After, w.after) {
					return fmt.Sprintf("task %q is loaded as %#v", id, x)
				}
				c, ok := x.Config.(*verifTask)
				if !ok || c.class != w.class || c.of != r.Targets[w.target] || c.N != w.n || !reflect.DeepEqual(c.S, w.s) {
					return fmt.Sprintf("task %q has settings %#v", id, x.Config)
				}
				if cfgs[c] {
					return fmt.Sprintf("the settings of task %q are shared", id)
				}
				cfgs[c] = true
			}
			return ""
		})
	}
	for _, s := range []string{"", "null", "[]", "1", "{", "{targets: null, tasks: null}", "{targets: []}", "{tasks: {a: null}}", "{targets: {a: null}}", "{targets: {a: {}}}", "{tasks: {a: {}}}", "error 'x'", "import 'nothing.jsonnet'"} {
		os.WriteFile(file, []byte(s), 0o600)
		k.Do(fmt.Sprintf("runbook %q", s), func() string {
			r, err := p.Parse(file)
			if (r == nil) != (err != nil) {
				return fmt.Sprint(r, err)
			}
			ok := s == "null" || s == "{targets: null, tasks: null}"
			if ok != (err == nil) {
				return fmt.Sprint(r, err)
			}
			return ""
		})
	}
	// imports are found beside the runbook, whatever the working directory
	sub := filepath.Join(dir, "sub")
	os.MkdirAll(sub, 0o755)
	os.WriteFile(filepath.Join(sub, "lib.libsonnet"), []byte(`{targets: {z: {class: "one", config: {a: 2}}}}`), 0o600)
	os.WriteFile(filepath.Join(sub, "main.jsonnet"), []byte(`(import 'lib.libsonnet') + {tasks: {q: {target: 'z'}}}`), 0o600)
	k.Do("a runbook that imports a file beside it", func() string {
		r, err := p.Parse(filepath.Join(sub, "main.jsonnet"))
		if err != nil || r.Targets["z"].(*verifTarget).A != 2 || r.Tasks["q"] == nil {
			return fmt.Sprint(r, err)
		}
		return ""
	})
	k.Do("a runbook that does not exist", func() string {
		if r, err := p.Parse(filepath.Join(sub, "none.jsonnet")); err == nil || r != nil {
			return fmt.Sprint(r, err)
		}
		return ""
	})
}
