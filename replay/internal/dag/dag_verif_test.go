package dag_test

import (
	"errors"
	"fmt"
	"sort"
	"testing"

	"github.com/sjansen/pgutil/internal/dag"
	"github.com/sjansen/pgutil/internal/verifkit"
)

func vName(i int) string {
	return []string{"", "a", "b", "c", "ab", "d", "e", "\x00", "z", "é", "y", "x", "w"}[i%13]
}

// vGraphs: every graph over up to three nodes, then random larger ones
func vGraphs(k *verifkit.K, dangling bool, f func(m map[string][]string)) {
	for n := 0; n <= 3; n++ {
		for off := 0; off < 2; off++ {
			for bits := 0; bits < 1<<uint(n*n); bits++ {
				m := map[string][]string{}
				for i := 0; i < n; i++ {
					m[vName(i+off)] = nil
					for j := 0; j < n; j++ {
						if bits&(1<<uint(i*n+j)) != 0 {
							m[vName(i+off)] = append(m[vName(i+off)], vName(j+off))
						}
					}
				}
				f(m)
			}
		}
	}
	for k.More() {
		n := 1 + k.R.Intn(9)
		m := map[string][]string{}
		perm := k.R.Perm(n)
		dens := 1 + k.R.Intn(4)
		acyclic := k.R.Intn(3) > 0
		for i := 0; i < n; i++ {
			var es []string
			for j := 0; j < n; j++ {
				if acyclic && perm[j] >= perm[i] {
					continue
				}
				if k.R.Intn(5) < dens {
					es = append(es, vName(j))
					if k.R.Intn(8) == 0 {
						es = append(es, vName(j))
					}
				}
			}
			k.R.Shuffle(len(es), func(a, b int) { es[a], es[b] = es[b], es[a] })
			if dangling && k.R.Intn(12) == 0 {
				es = append(es, "nowhere")
			}
			m[vName(i)] = es
		}
		f(m)
	}
}

func vSet(l []string) map[string]bool {
	s := map[string]bool{}
	for _, x := range l {
		s[x] = true
	}
	return s
}

func vAcyclic(m map[string][]string) bool {
	done := map[string]bool{}
	for {
		grew := false
		for n, es := range m {
			if done[n] {
				continue
			}
			ok := true
			for _, e := range es {
				ok = ok && done[e]
			}
			if ok {
				done[n] = true
				grew = true
			}
		}
		if !grew {
			return len(done) == len(m)
		}
	}
}

func vDump(g *dag.DirectedGraph) string {
	var out []string
	for n, s := range *g {
		var es []string
		for e := range s {
			es = append(es, e)
		}
		sort.Strings(es)
		out = append(out, fmt.Sprintf("%q:%q", n, es))
	}
	sort.Strings(out)
	return fmt.Sprint(out)
}

func vWant(m map[string][]string) string {
	var out []string
	for n, l := range m {
		var es []string
		for e := range vSet(l) {
			es = append(es, e)
		}
		sort.Strings(es)
		out = append(out, fmt.Sprintf("%q:%q", n, es))
	}
	sort.Strings(out)
	return fmt.Sprint(out)
}

// vCycle checks a reported cycle against the edges.
func vCycle(cyc []string, has func(a, b string) bool) string {
	if len(cyc) == 0 {
		return "empty cycle reported"
	}
	fwd, bwd := true, true
	for i := range cyc {
		j := (i + 1) % len(cyc)
		fwd = fwd && has(cyc[i], cyc[j])
		bwd = bwd && has(cyc[j], cyc[i])
	}
	if !fwd && !bwd {
		return fmt.Sprintf("reported cycle %q is not a cycle", cyc)
	}
	return ""
}

func vTSort(m map[string][]string) string {
	g := dag.DirectedGraph{}
	for n, l := range m {
		s := dag.NodeSet{}
		for _, e := range l {
			s[e] = struct{}{}
		}
		g[n] = s
	}
	res, cyc := dag.TSort(&g)
	if vDump(&g) != vWant(m) {
		return "sorting changed the graph: " + vDump(&g)
	}
	has := func(a, b string) bool { return vSet(m[a])[b] }
	if cyc != nil {
		if len(res) > 0 {
			return "both an order and a cycle were returned"
		}
		if vAcyclic(m) {
			return fmt.Sprintf("cycle %q reported for an acyclic graph", cyc)
		}
		return vCycle(cyc, has)
	}
	if !vAcyclic(m) {
		return fmt.Sprintf("no cycle reported for a cyclic graph, result %q", res)
	}
	pos := map[string]int{}
	for i, n := range res {
		if _, dup := pos[n]; dup {
			return fmt.Sprintf("node %q occurs twice in %q", n, res)
		}
		if _, ok := m[n]; !ok {
			return fmt.Sprintf("unknown node %q in %q", n, res)
		}
		pos[n] = i
	}
	for n, l := range m {
		p, ok := pos[n]
		if !ok {
			return fmt.Sprintf("node %q missing from %q", n, res)
		}
		for _, e := range l {
			if pos[e] >= p {
				return fmt.Sprintf("node %q not after %q in %q", n, e, res)
			}
		}
	}
	return ""
}

func TestVerifReplayP01(t *testing.T) {
	k := verifkit.New(t)
	vGraphs(k, false, func(m map[string][]string) {
		k.Do(fmt.Sprintf("TSort(%q)", m), func() string { return vTSort(m) })
	})
	k.Done()
}

// vGraphOps compares one edit sequence with a model.
func vGraphOps(k *verifkit.K, m map[string][]string) {
	var log string
	k.Do(fmt.Sprintf("NewDirectedGraph(%q)", m), func() string {
		in := vWant(m)
		g, err := dag.NewDirectedGraph(m)
		if vWant(m) != in {
			return "input list changed"
		}
		bad := false
		for _, l := range m {
			for _, e := range l {
				if _, ok := m[e]; !ok {
					bad = true
				}
			}
		}
		if bad {
			if err == nil {
				return "dangling edge accepted"
			}
			if g != nil {
				return "graph returned together with an error"
			}
			var ie *dag.InvalidEdgeError
			if !errors.As(err, &ie) {
				return fmt.Sprintf("wrong error %v", err)
			}
			if _, ok := m[ie.Node]; !ok || !vSet(m[ie.Node])[ie.Edge] {
				return fmt.Sprintf("error names node %q and edge %q", ie.Node, ie.Edge)
			}
			if _, ok := m[ie.Edge]; ok {
				return fmt.Sprintf("error names the listed node %q as missing", ie.Edge)
			}
			return ""
		}
		if err != nil {
			return fmt.Sprintf("refused: %v", err)
		}
		model := map[string]map[string]bool{}
		for n, l := range m {
			model[n] = vSet(l)
		}
		list := func() map[string][]string {
			o := map[string][]string{}
			for n, s := range model {
				o[n] = nil
				for e := range s {
					o[n] = append(o[n], e)
				}
			}
			return o
		}
		if vDump(g) != vWant(list()) {
			return fmt.Sprintf("built %s", vDump(g))
		}
		names := []string{"", "a", "b", "c", "q"}
		pick := func() string { return names[k.R.Intn(len(names))] }
		add := func(a, b string) {
			if model[a] == nil {
				model[a] = map[string]bool{}
			}
			model[a][b] = true
			if model[b] == nil {
				model[b] = map[string]bool{}
			}
		}
		for s := 0; s < 8; s++ {
			a, b := pick(), pick()
			switch k.R.Intn(6) {
			case 0:
				log += fmt.Sprintf("; AddEdge(%q,%q)", a, b)
				g.AddEdge(a, b)
				add(a, b)
			case 1:
				es := []string{}
				for i := k.R.Intn(4); i > 0; i-- {
					es = append(es, pick())
				}
				log += fmt.Sprintf("; AddEdges(%q,%q)", a, es)
				g.AddEdges(a, es)
				for _, e := range es {
					add(a, e)
				}
			case 2:
				log += fmt.Sprintf("; RemoveEdge(%q,%q)", a, b)
				g.RemoveEdge(a, b)
				if model[a] != nil {
					delete(model[a], b)
				}
			case 3:
				log += fmt.Sprintf("; RemoveNode(%q)", a)
				g.RemoveNode(a)
				delete(model, a)
				for _, s := range model {
					delete(s, a)
				}
			}
			if vDump(g) != vWant(list()) {
				return fmt.Sprintf("after %s: have %s want %s", log, vDump(g), vWant(list()))
			}
			for _, n := range names {
				if g.HasNode(n) != (model[n] != nil) {
					return fmt.Sprintf("after %s: HasNode(%q)=%v", log, n, g.HasNode(n))
				}
				if g.OutDegree(n) != len(model[n]) {
					return fmt.Sprintf("after %s: OutDegree(%q)=%d want %d", log, n, g.OutDegree(n), len(model[n]))
				}
				for _, e := range names {
					if (*g)[n].Contains(e) != model[n][e] || (*g)[n].Size() != len(model[n]) {
						return fmt.Sprintf("after %s: Contains/Size of %q disagree", log, n)
					}
				}
			}
		}
		return ""
	})
	if log != "" {
		k.Mark(fmt.Sprintf("%q%s", m, log))
	}
}

func TestVerifReplayP02(t *testing.T) {
	k := verifkit.New(t)
	vGraphs(k, true, func(m map[string][]string) { vGraphOps(k, m) })
	k.Done()
}

// vRelease reports completions of released tasks in a random order.
func vRelease(k *verifkit.K, m map[string][]string) {
	var log string
	input := fmt.Sprintf("NewDependencyGraph(%q)", m)
	f := func() string {
		g, err := dag.NewDependencyGraph(m)
		dang := false
		for _, l := range m {
			for _, e := range l {
				if _, ok := m[e]; !ok {
					dang = true
				}
			}
		}
		if dang || !vAcyclic(m) {
			if err == nil || g != nil {
				return "cyclic or dangling dependencies accepted"
			}
			var ie *dag.InvalidEdgeError
			var ce *dag.CircularDependencyError
			switch {
			case errors.As(err, &ie):
				if _, ok := m[ie.Edge]; !vSet(m[ie.Node])[ie.Edge] || ok {
					return fmt.Sprintf("error names %q -> %q", ie.Node, ie.Edge)
				}
			case errors.As(err, &ce):
				return vCycle(ce.Cycle, func(a, b string) bool { return vSet(m[a])[b] })
			default:
				return fmt.Sprintf("wrong error %v", err)
			}
			return ""
		}
		if err != nil {
			return fmt.Sprintf("refused: %v", err)
		}
		if g.HasPending() != (len(m) > 0) {
			return "HasPending wrong after construction"
		}
		released, done := map[string]bool{}, map[string]bool{}
		var running []string
		take := func(batch []string) string {
			for _, x := range batch {
				if _, ok := m[x]; !ok {
					return fmt.Sprintf("after%s: unknown task %q released", log, x)
				}
				if released[x] {
					return fmt.Sprintf("after%s: task %q released twice", log, x)
				}
				for _, d := range m[x] {
					if !done[d] {
						return fmt.Sprintf("after%s: %q released before %q completed", log, x, d)
					}
				}
				released[x] = true
				running = append(running, x)
			}
			for x, l := range m {
				ok := !released[x]
				for _, d := range l {
					ok = ok && done[d]
				}
				if ok {
					return fmt.Sprintf("after%s: %q could be released but was not", log, x)
				}
			}
			if g.HasPending() != (len(released) < len(m)) {
				return fmt.Sprintf("after%s: HasPending=%v with %d of %d released", log, g.HasPending(), len(released), len(m))
			}
			return ""
		}
		first := ""
		if _, ok := m[""]; ok {
			first = "\x01none"
		}
		log += fmt.Sprintf(" Next(%q)", first)
		if s := take(g.Next(first)); s != "" {
			return s
		}
		for len(running) > 0 {
			i := k.R.Intn(len(running))
			x := running[i]
			running = append(append([]string{}, running[:i]...), running[i+1:]...)
			done[x] = true
			log += fmt.Sprintf(" Next(%q)", x)
			if s := take(g.Next(x)); s != "" {
				return s
			}
			if k.R.Intn(4) == 0 {
				log += fmt.Sprintf(" Next(%q)", x)
				if s := take(g.Next(x)); s != "" {
					return s
				}
			}
		}
		if len(released) != len(m) {
			return fmt.Sprintf("after%s: only %d of %d tasks released", log, len(released), len(m))
		}
		return ""
	}
	k.Do(input, f)
}

func TestVerifReplayP03(t *testing.T) {
	k := verifkit.New(t)
	vGraphs(k, true, func(m map[string][]string) { vRelease(k, m) })
	k.Done()
}
