package sh_test

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"github.com/sjansen/pgutil/internal/runbook/sh"
	"github.com/sjansen/pgutil/internal/verifkit"
)

//verif:shared

func init() {
	// the command the harness lets shell tasks run: report what arrived
	if len(os.Args) > 1 && os.Args[1] == "__verif_dump" {
		wd, _ := os.Getwd()
		buf := make([]byte, 10)
		n, _ := os.Stdin.Read(buf)
		b, _ := json.Marshal(map[string]interface{}{"args": os.Args, "env": os.Environ(), "dir": wd, "stdin": n})
		os.Stdout.Write(b)
		os.Stderr.WriteString("complaint")
		if len(os.Args) > 2 && os.Args[2] == "fail" {
			os.Exit(3)
		}
		os.Exit(0)
	}
}

func in(x string, xs []string) bool {
	for _, y := range xs {
		if x == y {
			return true
		}
	}
	return false
}

// oracle: kept or replaced entries in order, and the set of appended ones
func oracle(e sh.Env, environ []string) (keep []string, add map[string]bool) {
	seen := map[string]bool{}
	for _, kv := range environ {
		name := kv
		if i := strings.Index(kv, "="); i > 0 {
			name = kv[:i]
		}
		v, set := e.Set[name]
		seen[name] = true
		switch {
		case set:
			keep = append(keep, name+"="+v)
		case len(e.Allow) > 0:
			if in(name, e.Allow) {
				keep = append(keep, kv)
			}
		case !in(name, e.Deny):
			keep = append(keep, kv)
		}
	}
	add = map[string]bool{}
	for k, v := range e.Set {
		if !seen[k] {
			add[k+"="+v] = true
		}
	}
	return
}

func checkEnv(e sh.Env, environ []string, got []string) string {
	keep, add := oracle(e, environ)
	if got == nil {
		return "nil result"
	}
	if len(got) != len(keep)+len(add) {
		return fmt.Sprintf("result %q, want %q and %v", got, keep, add)
	}
	for i, kv := range keep {
		if got[i] != kv {
			return fmt.Sprintf("result %q, want %q and %v", got, keep, add)
		}
	}
	rest := append([]string{}, got[len(keep):]...)
	sort.Strings(rest)
	for i, kv := range rest {
		if !add[kv] || i > 0 && rest[i-1] == kv {
			return fmt.Sprintf("result %q, want %q and %v", got, keep, add)
		}
	}
	return ""
}

func randEnv(k *verifkit.K, names []string) sh.Env {
	pick := func(max int) (r []string) {
		for n := k.R.Intn(max); n > 0; n-- {
			r = append(r, names[k.R.Intn(len(names))])
		}
		return
	}
	var e sh.Env
	if k.R.Intn(2) == 0 {
		e.Allow = pick(4)
	}
	if k.R.Intn(2) == 0 {
		e.Deny = pick(4)
	}
	if k.R.Intn(3) > 0 {
		e.Set = map[string]string{}
		for _, n := range pick(4) {
			e.Set[n] = []string{"", "1", "a=b", "two words"}[k.R.Intn(4)]
		}
	}
	return e
}

func TestVerifReplayP09(t *testing.T) {
	k := verifkit.New(t)
	defer k.Done()
	names := []string{"A", "B", "C", "AB", "a", "", "=X", "é"}
	for k.More() {
		e := randEnv(k, names)
		var environ []string
		for n := k.R.Intn(7); n > 0; n-- {
			kv := names[k.R.Intn(len(names))]
			if k.R.Intn(5) > 0 {
				kv += "=" + []string{"", "1", "2", "x=y", "="}[k.R.Intn(5)]
			}
			environ = append(environ, kv)
		}
		k.Do(fmt.Sprintf("%+v applied to %q", e, environ), func() string {
			before := append([]string{}, environ...)
			e0 := fmt.Sprintf("%+v", e)
			// room behind the list: an appending filter must not use it
			backing := append(append(make([]string, 0, len(environ)+8), environ...), "SPARE")
			given := backing[:len(environ)]
			got := e.Apply(given)
			if msg := checkEnv(e, before, got); msg != "" {
				return msg
			}
			for i := range got {
				got[i] = "OVERWRITTEN"
			}
			got = append(got, "MORE")
			for i := range before {
				if given[i] != before[i] {
					return "the inherited list was altered or is shared"
				}
			}
			if backing[len(environ)] != "SPARE" {
				return "the inherited list is shared"
			}
			if fmt.Sprintf("%+v", e) != e0 {
				return "the configuration was altered"
			}
			return ""
		})
	}
}

func TestVerifReplayP10(t *testing.T) {
	k := verifkit.New(t)
	defer k.Done()
	exe, err := os.Executable()
	if err != nil {
		t.Fatal(err)
	}
	scratch := t.TempDir()
	scratch, _ = filepath.EvalSymlinks(scratch)
	work := filepath.Join(scratch, "work dir")
	os.MkdirAll(filepath.Join(work, "sub"), 0o755)
	os.Symlink(exe, filepath.Join(work, "dump"))
	os.Symlink(exe, filepath.Join(work, "sub", "dump"))
	os.Symlink(exe, filepath.Join(scratch, "dump"))
	os.Symlink(exe, filepath.Join(scratch, "verif-dump-on-path"))
	os.Setenv("PATH", scratch+":"+os.Getenv("PATH"))
	os.Setenv("VERIF_A", "1")
	os.Setenv("VERIF_B", "x=y")
	os.Setenv("VERIF_C", "")
	stdin, _ := os.Open("/dev/zero")
	os.Stdin = stdin // what the command must not see
	names := []string{"VERIF_A", "VERIF_B", "VERIF_C", "VERIF_D", "VERIF", "HOME", "PATH"}

	valid := func(s string) bool {
		return !strings.Contains(s, "/") || s[0] == '/' || strings.HasPrefix(s, "./") || strings.HasPrefix(s, "../")
	}
	chars := []string{"/", ".", "..", "a", "", " ", "./", "../", "//", "~"}
	for i := 0; i < 3000 && k.More(); i++ {
		n := k.R.Intn(5)
		s := ""
		for j := 0; j < n; j++ {
			s += chars[k.R.Intn(len(chars))]
		}
		args := []string{s, "b", "c/d"}[:k.R.Intn(4)]
		k.Do(fmt.Sprintf("validity of the command %q", args), func() string {
			x := &sh.Exec{Args: args}
			if err := x.Check(); (err == nil) != (len(args) > 0 && valid(args[0])) {
				return fmt.Sprintf("Check: %v", err)
			}
			return ""
		})
	}
	for k.More() {
		te, xe := randEnv(k, names), randEnv(k, names)
		cmd := []string{"./dump", "../dump", exe, "./sub/dump", "verif-dump-on-path"}[k.R.Intn(5)]
		args := []string{cmd, "__verif_dump"}
		fail := k.R.Intn(4) == 0
		if fail {
			args = append(args, "fail")
		} else {
			args = append(args, "ok")
		}
		for n := k.R.Intn(4); n > 0; n-- {
			args = append(args, []string{"", "a b", "*", "$HOME", "'", "-x"}[k.R.Intn(6)])
		}
		late := k.R.Intn(3) == 0
		k.Do(fmt.Sprintf("args %q, target env %+v, task env %+v", args, te, xe), func() string {
			var stdout, stderr bytes.Buffer
			f := &sh.TargetFactory{Basedir: work, Stdout: &stdout, Stderr: &stderr}
			target := f.NewTarget()
			target.(*sh.Target).Env = te
			environ := os.Environ()
			if err := target.Start(); err != nil {
				return err.Error()
			}
			if late {
				os.Setenv("VERIF_LATE", "1")
				defer os.Unsetenv("VERIF_LATE")
			}
			class := []string{"", "exec"}[k.R.Intn(2)]
			cfg, err := target.NewTaskConfig(class)
			if err != nil {
				return err.Error()
			}
			x := cfg.(*sh.Exec)
			x.Args = args
			x.Env = xe
			err = target.Handle(context.Background(), x)
			if (err != nil) != fail {
				return fmt.Sprintf("error %v", err)
			}
			var got struct {
				Args  []string
				Env   []string
				Dir   string
				Stdin int
			}
			if err := json.Unmarshal(stdout.Bytes(), &got); err != nil {
				return fmt.Sprintf("standard output %q: %v", stdout.String(), err)
			}
			if stderr.String() != "complaint" {
				return fmt.Sprintf("standard error %q", stderr.String())
			}
			if fmt.Sprintf("%q", got.Args[1:]) != fmt.Sprintf("%q", args[1:]) {
				return fmt.Sprintf("arguments %q", got.Args)
			}
			if d, _ := filepath.EvalSymlinks(got.Dir); d != work {
				return fmt.Sprintf("directory %q", got.Dir)
			}
			if got.Stdin != 0 {
				return "standard input is not empty"
			}
			last := func(xs []string) map[string]string {
				m := map[string]string{}
				for _, kv := range xs {
					i := strings.Index(kv, "=")
					if i > 0 {
						m[kv[:i]] = kv[i+1:]
					}
				}
				return m
			}
			want := environ
			for _, e := range []sh.Env{te, xe} {
				keep, add := oracle(e, want)
				for kv := range add {
					keep = append(keep, kv)
				}
				want = keep
			}
			w, g := last(want), last(got.Env)
			if fmt.Sprint(w) != fmt.Sprint(g) {
				return fmt.Sprintf("environment %v, want %v", g, w)
			}
			return ""
		})
	}
}
