package commands_test

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	dot "github.com/awalterschulze/gographviz"

	"github.com/sjansen/pgutil/internal/commands"
	"github.com/sjansen/pgutil/internal/logger"
	"github.com/sjansen/pgutil/internal/sys"
	"github.com/sjansen/pgutil/internal/verifkit"
)

//verif:shared

type verifTask struct {
	target string
	after  []string
}

type verifBook struct {
	targets map[string]string // class
	tasks   map[string]verifTask
}

func verifScratch(t *testing.T) string {
	if dir := os.Getenv("VERIF_SCRATCH"); dir != "" {
		return dir
	}
	return t.TempDir()
}

func verifNames(k *verifkit.K, n int) []string {
	pool := []string{"a", "b", "demo", "reverse", "rotate 13", "x-y", "node", "graph", "digraph", "subgraph", "strict", "edge", "12", "1a", "-3.5", "\"q\"", "back\\slash", "end\\", "é", "日本", "", "a:b", "a;b", "{x}", "<b>", "long name with many words in it", "A", "B", "task_1", "task-1", "task.1", "->", "--", "#c", "//c", "%s", "%d%%", "new\nline", "tab\t"}
	k.R.Shuffle(len(pool), func(i, j int) { pool[i], pool[j] = pool[j], pool[i] })
	r := pool[:n]
	for i := range r {
		if k.R.Intn(10) == 0 {
			r[i] = strings.Repeat(string(rune('a'+k.R.Intn(26))), 1+k.R.Intn(40)) + fmt.Sprint(i)
		}
	}
	return append([]string{}, r...)
}

// verifRandomBook makes a valid runbook: tasks run after tasks listed earlier.
func verifRandomBook(k *verifkit.K) *verifBook {
	b := &verifBook{map[string]string{}, map[string]verifTask{}}
	ts := verifNames(k, 1+k.R.Intn(4))
	for i := 0; i < len(ts); i++ {
		for strings.Contains(ts[i], "/") { // the task's class follows
			ts[i] = strings.Replace(ts[i], "/", "_", 1)
		}
		b.targets[ts[i]] = []string{"demo", "demo", "sh", "pg"}[k.R.Intn(4)]
	}
	ids := verifNames(k, k.R.Intn(8))
	for i, id := range ids {
		x := verifTask{target: ts[k.R.Intn(len(ts))]}
		for j := 0; j < i; j++ {
			if k.R.Intn(3) == 0 {
				x.after = append(x.after, ids[j])
			}
		}
		k.R.Shuffle(len(x.after), func(i, j int) { x.after[i], x.after[j] = x.after[j], x.after[i] })
		b.tasks[id] = x
	}
	return b
}

func (b *verifBook) json() string {
	ts, ks := map[string]interface{}{}, map[string]interface{}{}
	for id, c := range b.targets {
		ts[id] = map[string]interface{}{"class": c}
	}
	for id, x := range b.tasks {
		var cfg interface{} = map[string]interface{}{}
		target := x.target
		switch b.targets[x.target] {
		case "demo":
			target += "/echo"
		case "sh":
			cfg = map[string]interface{}{"args": []string{"true"}}
		case "pg":
			cfg = map[string]interface{}{"sql": "SELECT 1"}
		}
		ks[id] = map[string]interface{}{"target": target, "after": append([]string{}, x.after...), "config": cfg}
	}
	s, _ := json.Marshal(map[string]interface{}{"targets": ts, "tasks": ks})
	return string(s)
}

// verifWriter accepts a number of bytes.
type verifWriter struct {
	bytes.Buffer
	fail bool
}

func (w *verifWriter) Write(p []byte) (int, error) {
	if w.fail {
		return 0, fmt.Errorf("cannot write")
	}
	return w.Buffer.Write(p)
}

func verifBase(out, err *verifWriter) *commands.Base {
	return &commands.Base{IO: sys.IO{Log: logger.Discard(), Stdout: out, Stderr: err}}
}

func verifWrite(t *testing.T, file, text string) {
	if err := os.MkdirAll(filepath.Dir(file), 0o755); err != nil {
		t.Fatal(err)
	}
	if err := os.WriteFile(file, []byte(text), 0o644); err != nil {
		t.Fatal(err)
	}
}

func verifUnquote(s string) string {
	if len(s) >= 2 && s[0] == '"' && s[len(s)-1] == '"' {
		s = s[1 : len(s)-1]
		s = strings.Replace(s, `\"`, `"`, -1)
		s = strings.Replace(s, `\\`, `\`, -1)
	}
	return s
}

// listing is the text a listing of the runbook should be.
func (b *verifBook) listing() string {
	var ids []string
	long := 0
	for id := range b.tasks {
		ids = append(ids, id)
		if len(id) > long {
			long = len(id)
		}
	}
	sort.Strings(ids)
	return fmt.Sprint(long, ids)
}

// checkGraph compares the text of a graph with the runbook.
func (b *verifBook) checkGraph(text string) string {
	g, err := dot.Read([]byte(text))
	if err != nil {
		return "the graph cannot be read: " + err.Error() + "\n" + text
	}
	if !g.Directed {
		return "the graph is not directed"
	}
	clusters := map[string]bool{}
	for n, sg := range g.SubGraphs.SubGraphs {
		id := verifUnquote(n)
		if !strings.HasPrefix(id, "cluster_") {
			return fmt.Sprintf("subgraph %q is not a cluster", n)
		}
		id = id[len("cluster_"):]
		if _, ok := b.targets[id]; !ok {
			return fmt.Sprintf("cluster %s is no target", n)
		}
		if l := verifUnquote(sg.Attrs["label"]); l != id {
			return fmt.Sprintf("cluster %s is labelled %q", n, l)
		}
		clusters[id] = true
		for c := range g.Relations.ParentToChildren[n] {
			x, ok := b.tasks[verifUnquote(c)]
			if !ok || x.target != id {
				return fmt.Sprintf("node %s is in cluster %s", c, n)
			}
		}
	}
	for id := range b.targets {
		if !clusters[id] {
			return fmt.Sprintf("target %q has no cluster", id)
		}
	}
	nodes := map[string]bool{}
	for _, n := range g.Nodes.Nodes {
		id := verifUnquote(n.Name)
		x, ok := b.tasks[id]
		if !ok {
			return fmt.Sprintf("node %s is no task", n.Name)
		}
		if nodes[id] {
			return fmt.Sprintf("node %s is there twice", n.Name)
		}
		nodes[id] = true
		in := false
		for c := range g.Relations.ChildToParents[n.Name] {
			if verifUnquote(c) == "cluster_"+x.target {
				in = true
			} else if strings.HasPrefix(verifUnquote(c), "cluster_") {
				return fmt.Sprintf("node %s is in %s", n.Name, c)
			}
		}
		if !in {
			return fmt.Sprintf("node %s is not in its cluster", n.Name)
		}
	}
	if len(nodes) != len(b.tasks) {
		return fmt.Sprintf("there are %d nodes for %d tasks", len(nodes), len(b.tasks))
	}
	got, want := map[[2]string]int{}, map[[2]string]int{}
	for _, e := range g.Edges.Edges {
		if !e.Dir {
			return "an arrow has no direction"
		}
		got[[2]string{verifUnquote(e.Src), verifUnquote(e.Dst)}]++
	}
	for id, x := range b.tasks {
		for _, a := range x.after {
			want[[2]string{a, id}]++
		}
	}
	if fmt.Sprint(got) != fmt.Sprint(want) {
		return fmt.Sprintf("the arrows are %v, should be %v", got, want)
	}
	return ""
}
