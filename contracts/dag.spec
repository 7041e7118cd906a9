package internal/dag

// ---------------------------------------------------------------- sets

func internal/dag.(NodeSet).Add(s, n)
  props P02 P03
  requires nonnil: s != nil
  modifies map(s)
  ensures exact: dom(s) == setadd(old(dom(s)), n)

func internal/dag.(NodeSet).Remove(s, n)
  props P02 P03
  modifies map(s)
  ensures exact: dom(s) == setdel(old(dom(s)), n)

func internal/dag.(NodeSet).Contains(s, n) (r)
  props P02
  modifies nothing
  ensures exact: r <==> n in s

func internal/dag.(NodeSet).Size(s) (r)
  props P02 P03
  modifies nothing
  ensures exact: r == len(s)

// ---------------------------------------------------------------- topological sort

pred closedGraph(d: DirectedGraph) = forall n: string, m: string :: n in d && m in vals(d)[n] ==> m in d

pred distinct(s: []string) = forall i in s, j in s :: i < j ==> s[i] != s[j]

// v.graph lists for every node n of the graph the nodes n has an edge to
pred vgraph(v: *visitor) = v.graph != nil && v != nil

pred vdisj(v: *visitor) = forall n: string :: !(n in v.visited && n in v.visiting)

pred vclosed(v: *visitor) =
  forall n: string, i in vals(v.graph)[n] :: n in v.visited && n in v.graph ==> vals(v.graph)[n][i] in v.visited

pred vsorted(v: *visitor) =
  (forall n: string :: n in v.visited ==> n in v.sorted) && (forall i in v.sorted :: v.sorted[i] in v.visited)

pred vtopo(v: *visitor) =
  forall i in v.sorted, k in vals(v.graph)[v.sorted[i]] :: v.sorted[i] in v.graph ==>
    (exists j in v.sorted :: j < i && v.sorted[j] == vals(v.graph)[v.sorted[i]][k])

pred vsep(v: *visitor) =
  base(v.sorted) != 0 && (forall n: string :: n in v.graph ==> base(vals(v.graph)[n]) != base(v.sorted))

pred vok(v: *visitor) =
  v != nil && v.graph != nil && v.visited != nil && v.visiting != nil && v.visited != v.visiting
  && (forall n: string, i in vals(v.graph)[n] :: n in v.graph ==> vals(v.graph)[n][i] in v.graph)
  && (forall n: string :: n in v.visited ==> n in v.graph)
  && vdisj(v) && vclosed(v) && vsorted(v) && distinct(v.sorted) && vtopo(v) && vsep(v)

pred edgeIn(v: *visitor, n: string, m: string) = n in v.graph && m in vals(v.graph)[n]

func internal/dag.(*visitor).visit(v, n) (start, open)
  props P01
  requires ok: vok(v)
  requires nocycle: v.cycle == nil
  requires node: n in v.graph
  modifies v.cycle, v.sorted, map(v.visited), map(v.visiting), elems(v.sorted)
  ensures done: v.cycle == nil ==> vok(v) && dom(v.visiting) == old(dom(v.visiting)) && n in v.visited
      && (forall m: string :: m in old(dom(v.visited)) ==> m in v.visited)
  ensures sortedbase: base(v.sorted) == old(base(v.sorted)) || fresh(v.sorted)
  ensures cyclefresh: v.cycle != nil ==> fresh(v.cycle)
  ensures openCycle: v.cycle != nil && open ==> start in old(dom(v.visiting))
      && (len(v.cycle) == 0 ==> start == n)
      && (len(v.cycle) > 0 ==> edgeIn(v, v.cycle[0], start) && v.cycle[len(v.cycle) - 1] == n)
  ensures closedCycle: v.cycle != nil && !open ==> len(v.cycle) > 0 && edgeIn(v, v.cycle[0], v.cycle[len(v.cycle) - 1])
  ensures chain: v.cycle != nil ==> (forall i in v.cycle :: i > 0 ==> edgeIn(v, v.cycle[i], v.cycle[i - 1]))
  ensures onpath: v.cycle != nil ==> (forall i in v.cycle :: !(v.cycle[i] in old(dom(v.visiting)))) && distinct(v.cycle)
  inv ok: vok(v)
  inv nocycle: v.cycle == nil
  inv path: dom(v.visiting) == setadd(old(dom(v.visiting)), n)
  inv grow: forall m: string :: m in old(dom(v.visited)) ==> m in v.visited
  inv kids for (k: idx): forall i in vals(v.graph)[n] :: i < k && n in v.graph ==> vals(v.graph)[n][i] in v.visited
  inv sb: base(v.sorted) == old(base(v.sorted)) || fresh(v.sorted)

pred members(s: []string, m: NodeSet) = (forall x: string :: x in m ==> x in s) && (forall i in s :: s[i] in m)

// the positions of the nodes in the last order found
ghost lastRank: tmap[string]int

func internal/dag.TSort(g) (result, cycle)
  props P01
  requires wf: g != nil && closedGraph(*g)
  modifies lastRank
  names rank: forall i in result :: lastRank[result[i]] == i
  ensures order: cycle == nil ==> (forall n: string :: n in *g ==> n in result) && (forall i in result :: result[i] in *g) && distinct(result)
  ensures topo: cycle == nil ==> (forall i in result, m: string :: m in vals(*g)[result[i]] ==> (exists j in result :: j < i && result[j] == m))
  ensures cyc: cycle != nil ==> result == nil && len(cycle) > 0 && (forall i in cycle :: cycle[i] in *g)
      && (forall i in cycle :: i > 0 ==> cycle[i - 1] in vals(*g)[cycle[i]]) && cycle[len(cycle) - 1] in vals(*g)[cycle[0]]
  // collecting the nodes and their sorted edges
  inv edom for (it: iter(map[string]NodeSet), e: map[string][]string): dom(e) == seen(it)
  inv nmem for (it: iter(map[string]NodeSet), s: []string): (forall n: string :: n in seen(it) ==> n in s) && (forall i in s :: s[i] in seen(it))
  inv emem for (it: iter(map[string]NodeSet), e: map[string][]string): (forall n: string, m: string :: n in seen(it) && m in vals(*g)[n] ==> m in vals(e)[n]) && (forall n: string, i in vals(e)[n] :: n in seen(it) ==> vals(e)[n][i] in vals(*g)[n])
  inv esep for (e: map[string][]string, s: []string): forall n: string :: n in e ==> base(vals(e)[n]) != base(s)
  inv tmem for (it: iter(map[string]struct{}), s: phi []string): (forall m: string :: m in seen(it) ==> m in s) && (forall i in s :: s[i] in seen(it))
  // visiting
  inv nfull for (s: []string): forall n: string :: n in *g ==> n in s
  inv vok for (v: *visitor): vok(v) && v.cycle == nil && dom(v.visiting) == emptyset(string)
  inv done for (v: *visitor, s: []string, k: idx): forall i in s :: i < k ==> s[i] in v.visited
  inv nsep for (v: *visitor, s: []string): base(s) != base(v.sorted)
  inv ssep for (v: *visitor): base(v.sorted) >= oldalloc()

// ---------------------------------------------------------------- directed graphs

pred graphOK(d: DirectedGraph) = d != nil && (forall n: string :: n in d ==> vals(d)[n] != nil)
  && (forall n: string, m: string :: n in d && m in d && n != m ==> vals(d)[n] != vals(d)[m])

pred hasEdge(d: DirectedGraph, n: string, m: string) = n in d && m in vals(d)[n]

func internal/dag.NewDirectedGraph(nodes) (g, err)
  props P02 P03
  modifies nothing
  ensures ok: err == nil ==> g != nil && fresh(g) && fresh(*g) && graphOK(*g) && closedGraph(*g) && dom(*g) == dom(nodes)
  ensures edges: err == nil ==> (forall n: string, m: string :: n in nodes && m in vals(nodes)[n] ==> m in vals(*g)[n]) && (forall n: string, m: string :: n in *g && m in vals(*g)[n] ==> m in vals(nodes)[n])
  ensures freshsets: err == nil ==> (forall n: string :: n in *g ==> vals(*g)[n] >= oldalloc())
  ensures refused: err != nil ==> g == nil && typeis(err, *InvalidEdgeError) && as(err, *InvalidEdgeError).Node in nodes
      && as(err, *InvalidEdgeError).Edge in vals(nodes)[as(err, *InvalidEdgeError).Node] && !(as(err, *InvalidEdgeError).Edge in nodes)
  ensures refuses: err == nil ==> (forall n: string, m: string :: n in nodes && m in vals(nodes)[n] ==> m in nodes)
  inv gdom for (it: iter(map[string][]string), g: DirectedGraph): dom(g) == seen(it)
  inv gin for (it: iter(map[string][]string), g: DirectedGraph): graphOK(g) && (forall n: string :: n in g ==> vals(g)[n] >= oldalloc())
  inv gedges1 for (g: DirectedGraph): forall n: string, m: string :: n in g && m in vals(nodes)[n] ==> m in vals(g)[n]
  inv gedges2 for (g: DirectedGraph): forall n: string, m: string :: n in g && m in vals(g)[n] ==> m in vals(nodes)[n]
  inv gvalid for (g: DirectedGraph): forall n: string, m: string :: n in g && m in vals(g)[n] ==> m in nodes
  inv sdisj for (g: DirectedGraph, s: NodeSet): forall n: string :: n in g ==> vals(g)[n] != s
  inv smem1 for (s: NodeSet, l: []string, k: idx): forall i in l :: i < k ==> l[i] in s
  inv smem2 for (s: NodeSet, l: []string): forall m: string :: m in s ==> m in l && m in nodes

func internal/dag.(*DirectedGraph).AddEdge(g, node, edge)
  props P02
  requires ok: g != nil && graphOK(*g)
  modifies map(*g), map(vals(*g)[n]) for (n: string): n == node && node in *g
  ensures ok: graphOK(*g)
  ensures nodes: dom(*g) == setadd(setadd(old(dom(*g)), node), edge)
  ensures edges: forall n: string, m: string :: n in *g ==> (m in vals(*g)[n] <==> old(hasEdge(*g, n, m)) || n == node && m == edge)
  ensures keep: forall n: string :: n in old(dom(*g)) ==> vals(*g)[n] == old(vals(*g)[n])
  ensures fresh: forall n: string :: n in *g && !(n in old(dom(*g))) ==> vals(*g)[n] >= oldalloc()

func internal/dag.(*DirectedGraph).AddEdges(g, node, edges)
  props P02
  requires ok: g != nil && graphOK(*g)
  modifies map(*g), map(vals(*g)[n]) for (n: string): n == node && node in *g
  ensures ok: graphOK(*g)
  ensures nodes: forall n: string :: n in *g <==> n in old(dom(*g)) || n in edges || n == node && len(edges) > 0
  ensures edges: forall n: string, m: string :: n in *g ==> (m in vals(*g)[n] <==> old(hasEdge(*g, n, m)) || n == node && m in edges)
  inv ok: graphOK(*g)
  inv nodes1 for (k: idx): forall n: string :: n in *g ==> n in old(dom(*g)) || n in edges || n == node && k > 0
  inv nodes2: forall n: string :: n in old(dom(*g)) ==> n in *g && vals(*g)[n] == old(vals(*g)[n])
  inv nodes3 for (k: idx): (forall i in edges :: i < k ==> edges[i] in *g && edges[i] in vals(*g)[node]) && (k > 0 ==> node in *g)
  inv edges1: forall n: string, m: string :: n in *g && m in vals(*g)[n] ==> old(hasEdge(*g, n, m)) || n == node && m in edges
  inv edges2: forall n: string, m: string :: old(hasEdge(*g, n, m)) ==> m in vals(*g)[n]
  inv fresh: forall n: string :: n in *g && !(n in old(dom(*g))) ==> vals(*g)[n] >= oldalloc()

func internal/dag.(*DirectedGraph).HasNode(g, node) (r)
  props P02
  requires g: g != nil
  modifies nothing
  ensures exact: r <==> node in *g

func internal/dag.(*DirectedGraph).RemoveEdge(g, node, edge)
  props P02
  requires ok: g != nil && graphOK(*g)
  modifies map(vals(*g)[node]) for (n: string): n == node && node in *g
  ensures ok: graphOK(*g) && dom(*g) == old(dom(*g))
  ensures edges: forall n: string, m: string :: n in *g ==> (m in vals(*g)[n] <==> old(m in vals(*g)[n]) && !(n == node && m == edge))

func internal/dag.(*DirectedGraph).RemoveNode(g, node)
  props P02
  requires ok: g != nil && graphOK(*g)
  modifies map(*g), map(vals(*g)[n]) for (n: string): n in *g
  ensures ok: graphOK(*g) && dom(*g) == setdel(old(dom(*g)), node)
  ensures edges: forall n: string, m: string :: n in *g ==> (m in vals(*g)[n] <==> old(m in vals(*g)[n]) && m != node)
  inv ok: graphOK(*g) && dom(*g) == old(dom(*g)) && vals(*g) == old(vals(*g))
  inv del for (it: iter(map[string]NodeSet)): forall n: string, m: string :: n in *g && n in seen(it) ==> (m in vals(*g)[n] <==> old(m in vals(*g)[n]) && m != node)
  inv rest for (it: iter(map[string]NodeSet)): forall n: string, m: string :: n in *g && !(n in seen(it)) ==> (m in vals(*g)[n] <==> old(m in vals(*g)[n]))

func internal/dag.(*DirectedGraph).OutDegree(g, node) (r)
  props P02
  requires g: g != nil
  modifies nothing
  ensures exact: r == (node in *g ? len(vals(*g)[node]) : 0)

// ---------------------------------------------------------------- dependency release

// ghost state of a dependency graph: the list cells in use, the tasks not yet
// released, the dependencies it was built with, the completions it was told
ghost dgCells: tmap[*DependencyGraph]set[*pendingTask]
ghost dgPend: tmap[*DependencyGraph]set[string]
ghost dgEdges: tmap[*DependencyGraph]tmap[string]set[string]
ghost dgNodes: tmap[*DependencyGraph]set[string]
ghost dgDone: tmap[*DependencyGraph]set[string]

pred isReady(g: *DependencyGraph, x: string) = !(x in g.dependencies) || len(vals(g.dependencies)[x]) == 0

// the cells are linked in descending order of their addresses, all reachable
pred listOK(g: *DependencyGraph) =
  (g.pending != nil ==> g.pending in dgCells[g])
  && (forall c: *pendingTask :: c in dgCells[g] ==> c != nil && ref(c) <= ref(g.pending))
  && (forall c: *pendingTask :: c in dgCells[g] ==> (c.next != nil ==> c.next in dgCells[g]) && ref(c.next) < ref(c))
  && (forall c: *pendingTask, d: *pendingTask :: c in dgCells[g] && d in dgCells[g] && ref(d) < ref(c) ==> ref(d) <= ref(c.next))
  && (forall c: *pendingTask, d: *pendingTask :: c in dgCells[g] && d in dgCells[g] && c.id == d.id ==> c == d)

pred pendOK(g: *DependencyGraph) =
  (forall c: *pendingTask :: c in dgCells[g] ==> c.id in dgPend[g])
  && (forall x: string :: x in dgPend[g] ==> (exists c: *pendingTask :: c in dgCells[g] && c.id == x))

pred depsOK(g: *DependencyGraph) =
  graphOK(g.dependencies) && dom(g.dependencies) == dgNodes[g]
  && (forall n: string, m: string :: n in g.dependencies && m in vals(g.dependencies)[n] ==> m in g.dependents && n in vals(g.dependents)[m])
  && (forall n: string, m: string :: n in g.dependencies && m in g.dependents ==> vals(g.dependencies)[n] != vals(g.dependents)[m])

pred histOK(g: *DependencyGraph) =
  forall n: string, m: string :: n in g.dependencies ==> (m in vals(g.dependencies)[n] <==> m in dgEdges[g][n] && !(m in dgDone[g]))

pred relOK(g: *DependencyGraph) =
  (forall n: string :: n in dgNodes[g] && !(n in dgPend[g]) ==> isReady(g, n))
  && (forall n: string :: n in dgPend[g] ==> n in dgNodes[g])

pred dgCore(g: *DependencyGraph) = g != nil && depsOK(g) && listOK(g) && pendOK(g) && relOK(g)

pred dgOK(g: *DependencyGraph) = dgCore(g) && histOK(g)

func internal/dag.(*DependencyGraph).HasPending(g) (r)
  props P03
  requires ok: dgOK(g)
  modifies nothing
  ensures exact: r <==> (exists n: string :: n in dgPend[g])

func internal/dag.(*DependencyGraph).Ready(g) (result)
  props P03
  requires ok: dgCore(g)
  modifies g.pending, c.next for (c: *pendingTask): c in dgCells[g], dgCells[g], dgPend[g]
  assign dgCells[g] = setof(c: *pendingTask :: c in old(dgCells[g]) && !isReady(g, c.id))
  assign dgPend[g] = setof(x: string :: x in old(dgPend[g]) && !isReady(g, x))
  ensures ok: dgCore(g)
  ensures result: (forall x: string :: x in result ==> x in old(dgPend[g]) && isReady(g, x)) && (forall x: string :: x in old(dgPend[g]) && isReady(g, x) ==> x in result)
  ensures once: distinct(result)
  ensures pend: (forall x: string :: x in dgPend[g] <==> x in old(dgPend[g]) && !isReady(g, x))
  ensures freshresult: len(result) > 0 ==> fresh(result)
  inv in for (h: phi *pendingTask): h != nil ==> h in dgCells[g]
  inv done for (h: phi *pendingTask, s: phi []string): forall c: *pendingTask :: c in dgCells[g] && ref(c) > ref(h) && isReady(g, c.id) ==> c.id in s
  inv done1 for (h: phi *pendingTask): forall c: *pendingTask :: c in dgCells[g] && ref(c) > ref(h) ==> isReady(g, c.id)
  inv src for (h: phi *pendingTask, s: phi []string): forall x: string :: x in s ==> (exists c: *pendingTask :: c in dgCells[g] && ref(c) > ref(h) && c.id == x && isReady(g, x))
  inv dist for (s: phi []string): distinct(s)
  // second loop
  inv kept for (h: phi *pendingTask): h != nil ==> !isReady(g, h.id)
  inv src2 for (h: phi *pendingTask, s: phi []string): forall x: string :: x in s ==> (exists c: *pendingTask :: c in dgCells[g] && (h != nil ==> ref(c) > ref(h.next)) && c.id == x && isReady(g, x))
  inv gap for (h: phi *pendingTask, s: phi []string): forall c: *pendingTask :: h != nil && c in dgCells[g] && ref(c) > ref(h.next) && ref(c) < ref(h) ==> isReady(g, c.id) && c.id in s
  inv head: g.pending != nil ==> g.pending in dgCells[g] && !isReady(g, g.pending.id)
  inv head1: forall c: *pendingTask :: c in dgCells[g] && ref(c) > ref(g.pending) ==> isReady(g, c.id)
  inv hle for (h: phi *pendingTask): ref(h) <= ref(g.pending) && (h == nil ==> g.pending == nil)
  inv chain for (h: phi *pendingTask): forall c: *pendingTask :: h != nil && c in dgCells[g] && !isReady(g, c.id) && ref(c) > ref(h) ==> c.next in dgCells[g] && !isReady(g, c.next.id) && ref(c.next) >= ref(h) && ref(c.next) < ref(c)
  inv chain2 for (h: phi *pendingTask): forall c: *pendingTask, d: *pendingTask :: h != nil && c in dgCells[g] && !isReady(g, c.id) && ref(c) > ref(h) && d in dgCells[g] && ref(d) > ref(c.next) && ref(d) < ref(c) ==> isReady(g, d.id)
  inv rest for (h: phi *pendingTask): forall c: *pendingTask :: c in dgCells[g] && ref(c) < ref(h) ==> c.next == old(c.next)
  inv hnext for (h: phi *pendingTask): h != nil ==> (h.next != nil ==> h.next in dgCells[g]) && ref(h.next) < ref(h)

func internal/dag.(*DependencyGraph).Next(g, completed) (result)
  props P03
  requires ok: dgOK(g)
  modifies g.pending, c.next for (c: *pendingTask): c in dgCells[g], dgCells[g], dgPend[g], dgDone[g], map(vals(g.dependencies)[n]) for (n: string): n in g.dependencies
  assign dgDone[g] = setadd(old(dgDone[g]), completed)
  ensures ok: dgOK(g)
  ensures result: (forall x: string :: x in result ==> x in old(dgPend[g]) && isReady(g, x)) && (forall x: string :: x in old(dgPend[g]) && isReady(g, x) ==> x in result)
  ensures done: dgDone[g] == setadd(old(dgDone[g]), completed)
  ensures once: distinct(result)
  ensures pend: (forall x: string :: x in dgPend[g] <==> x in old(dgPend[g]) && !isReady(g, x))
  ensures freshresult: len(result) > 0 ==> fresh(result)
  inv same: forall n: string, m: string :: n in g.dependencies && m != completed ==> (m in vals(g.dependencies)[n] <==> old(m in vals(g.dependencies)[n]))
  inv gone for (it: iter(map[string]struct{})): forall n: string :: n in seen(it) && n in g.dependencies ==> !(completed in vals(g.dependencies)[n])
  inv less: forall n: string :: n in g.dependencies && completed in vals(g.dependencies)[n] ==> old(completed in vals(g.dependencies)[n])

track pendingTask: objsPT

func internal/dag.NewDependencyGraph(nodes) (g, err)
  props P03
  opt retry on
  opt houdini 5000000
  modifies dgCells[new], dgPend[new], dgEdges[new], dgNodes[new], dgDone[new], lastRank
  assign dgCells[g] = setof(c: *pendingTask :: c in objsPT && fresh(c)) when err == nil
  assign dgPend[g] = dom(nodes) when err == nil
  assign dgNodes[g] = dom(nodes) when err == nil
  assign dgDone[g] = emptyset(string) when err == nil
  assign dgEdges[g] = setof(n: string, m: string :: n in nodes && m in vals(nodes)[n]) when err == nil
  ensures deps: err == nil ==> fresh(g) && depsOK(g)
  ensures list: err == nil ==> listOK(g)
  ensures cells: err == nil ==> (forall c: *pendingTask :: c in dgCells[g] ==> fresh(c))
  ensures pend: err == nil ==> pendOK(g)
  ensures rel: err == nil ==> relOK(g)
  ensures hist: err == nil ==> histOK(g)
  ensures nodes: err == nil ==> dgNodes[g] == dom(nodes) && dgPend[g] == dom(nodes) && dgDone[g] == emptyset(string)
  ensures edges: err == nil ==> (forall n: string, m: string :: m in dgEdges[g][n] <==> n in nodes && m in vals(nodes)[n])
  ensures known: err == nil ==> (forall n: string, m: string :: n in nodes && m in vals(nodes)[n] ==> m in nodes)
  ensures order: err == nil ==> (forall n: string, m: string :: n in nodes && m in vals(nodes)[n] ==> lastRank[m] < lastRank[n])
  ensures refused: err != nil ==> g == nil && (typeis(err, *InvalidEdgeError) || typeis(err, *CircularDependencyError))
  ensures dangling: err != nil && typeis(err, *InvalidEdgeError) ==> as(err, *InvalidEdgeError).Node in nodes
      && as(err, *InvalidEdgeError).Edge in vals(nodes)[as(err, *InvalidEdgeError).Node] && !(as(err, *InvalidEdgeError).Edge in nodes)
  ensures circular: err != nil && typeis(err, *CircularDependencyError) ==> len(as(err, *CircularDependencyError).Cycle) > 0 && (forall i in as(err, *CircularDependencyError).Cycle :: as(err, *CircularDependencyError).Cycle[i] in nodes)
      && (forall i in as(err, *CircularDependencyError).Cycle :: i > 0 ==> as(err, *CircularDependencyError).Cycle[i - 1] in vals(nodes)[as(err, *CircularDependencyError).Cycle[i]]) && as(err, *CircularDependencyError).Cycle[len(as(err, *CircularDependencyError).Cycle) - 1] in vals(nodes)[as(err, *CircularDependencyError).Cycle[0]]
  inv cells for (p: phi *pendingTask): (p != nil ==> p in objsPT && ref(p) >= (oldalloc()) ) && (forall c: *pendingTask :: c in objsPT && ref(c) >= (oldalloc()) ==> c != nil && ref(c) <= ref(p) && ref(c) < (curalloc()))
  inv chain: forall c: *pendingTask :: c in objsPT && ref(c) >= (oldalloc()) ==> (c.next != nil ==> c.next in objsPT && ref(c.next) >= (oldalloc())) && ref(c.next) < ref(c)
  inv tight: forall c: *pendingTask, d: *pendingTask :: c in objsPT && d in objsPT && ref(c) >= (oldalloc()) && ref(d) >= (oldalloc()) && ref(d) < ref(c) ==> ref(d) <= ref(c.next)
  inv ids for (l: []string): forall c: *pendingTask :: c in objsPT && ref(c) >= (oldalloc()) ==> c.id in l
  inv rest for (i: phi int, l: []string): forall c: *pendingTask, k in l :: c in objsPT && ref(c) >= (oldalloc()) && k <= i ==> l[k] != c.id
  inv allids for (i: phi int, l: []string): forall k in l :: k > i ==> (exists c: *pendingTask :: c in objsPT && ref(c) >= (oldalloc()) && c.id == l[k])
  inv uniq: forall c: *pendingTask, d: *pendingTask :: c in objsPT && d in objsPT && ref(c) >= (oldalloc()) && ref(d) >= (oldalloc()) && c.id == d.id ==> c == d
  inv range for (i: phi int, l: []string): -1 <= i && i < len(l)
  // second phase: dependencies and dependents
  inv gdom for (it: iter(map[string]NodeSet), g: *DependencyGraph): dom(g.dependencies) == seen(it)
  inv gok for (g: *DependencyGraph): graphOK(g.dependencies) && g.dependents != nil && g.dependents != g.dependencies
  inv dok for (g: *DependencyGraph): (forall m: string :: m in g.dependents ==> vals(g.dependents)[m] != nil) && (forall n: string, m: string :: n in g.dependents && m in g.dependents && n != m ==> vals(g.dependents)[n] != vals(g.dependents)[m])
  inv sep for (g: *DependencyGraph): forall n: string, m: string :: n in g.dependencies && m in g.dependents ==> vals(g.dependencies)[n] != vals(g.dependents)[m]
  inv own for (g: *DependencyGraph): (forall n: string :: n in g.dependencies ==> vals(g.dependencies)[n] >= (oldalloc())) && (forall n: string :: n in g.dependents ==> vals(g.dependents)[n] >= (oldalloc()))
  inv sepd for (g: *DependencyGraph, d: *DirectedGraph): (forall n: string, m: string :: n in g.dependencies && m in *d ==> vals(g.dependencies)[n] != vals(*d)[m]) && (forall n: string, m: string :: n in g.dependents && m in *d ==> vals(g.dependents)[n] != vals(*d)[m])
  inv sub for (g: *DependencyGraph, d: *DirectedGraph): forall n: string, m: string :: n in g.dependencies && m in vals(g.dependencies)[n] ==> m in vals(*d)[n]
  inv full for (g: *DependencyGraph, d: *DirectedGraph): forall n: string, m: string :: n in g.dependencies && m in vals(*d)[n] ==> m in vals(g.dependencies)[n]
  inv full2 for (g: *DependencyGraph, d: *DirectedGraph, n0: string): forall n: string, m: string :: n in g.dependencies && n != n0 && m in vals(*d)[n] ==> m in vals(g.dependencies)[n]
  inv cur for (g: *DependencyGraph, n0: string, it2: iter(map[string]struct{})): n0 in g.dependencies && (forall m: string :: m in seen(it2) ==> m in vals(g.dependencies)[n0])
  inv dep for (g: *DependencyGraph): forall n: string, m: string :: n in g.dependencies && m in vals(g.dependencies)[n] ==> m in g.dependents && n in vals(g.dependents)[m]
  inv sub0 for (g: *DependencyGraph): forall n: string, m: string :: n in g.dependencies && m in vals(g.dependencies)[n] ==> n in nodes && m in vals(nodes)[n]
  inv dgn for (d: *DirectedGraph): forall n: string, m: string :: n in *d ==> n in nodes && (m in vals(*d)[n] <==> m in vals(nodes)[n])
