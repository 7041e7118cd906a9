package internal/runbook

extern path/filepath.Abs(s) (r, err)
  modifies nothing

func internal/runbook.newParser(sys, basedir) (p, err)
  props P24
  requires sys: sys != nil
  modifies nothing
  ensures new: err == nil ==> p != nil && fresh(p) && p.Targets != nil
  ensures classes: err == nil ==> (forall c: string :: c in p.Targets <==> c == "pg" || c == "sh" || c == "demo")
  ensures factories: err == nil ==> (forall c: string :: c in p.Targets ==> vals(p.Targets)[c] != nil)
  ensures kinds: err == nil ==> typeis(vals(p.Targets)["pg"], *pg.TargetFactory) && typeis(vals(p.Targets)["sh"], *sh.TargetFactory) && typeis(vals(p.Targets)["demo"], *demo.TargetFactory)

func internal/runbook.List(sys, filename) (r, err)
  props P24
  requires sys: sys != nil
  modifies made, madeBy, configs, configOf, configAs, decSrc[new], decStrict[new], decodedFrom, decodedStrict, decodedAny, passed, loadFails, lastDoc, readName, evalName, evalSource, evalPaths, evalResult, vmPaths[new], parsed
  ensures none: err != nil ==> r == nil
  ensures file: err == nil ==> readName == filename && parsed != nil
  ensures tasks: err == nil ==> r != nil && dom(r) == dom(parsed.Tasks) && (forall id: string :: id in r ==> vals(r)[id] == vals(parsed.Tasks)[id].Target)
  inv tasks for (m: map[TaskID]TargetID, it: iter): dom(m) == seen(it) && (forall id: string :: id in m ==> vals(m)[id] == vals(parsed.Tasks)[id].Target)

// ---------------------------------------------------------------- graphs

fun dotID(string) string
axiom dotID: forall s: string :: {dotID(s), replaceAll(s, "\\", "\\\\")} dotID(s) == "\"" + replaceAll(replaceAll(s, "\\", "\\\\"), "\"", "\\\"") + "\""
// escaping keeps names apart
fun idName(string) string
axiom idName: forall s: string :: {dotID(s)} idName(dotID(s)) == s

func internal/runbook.quote(s) (r)
  props P24
  modifies nothing
  ensures quoted: r == dotID(s)

// what a graph contains: clusters with their labels, nodes by cluster, the
// sources of the arrows to a node
ghost gvName: tmap[*gographviz.Graph]string
ghost gvDirected: tmap[*gographviz.Graph]bool
ghost gvClusters: tmap[*gographviz.Graph]set[string]
ghost gvLabels: tmap[*gographviz.Graph]tmap[string]string
ghost gvNodes: tmap[*gographviz.Graph]tmap[string]set[string]
ghost gvEdges: tmap[*gographviz.Graph]tmap[string]set[string]
// what was drawn last
ghost drawn: *gographviz.Graph
ghost drawing: *ast.Graph
fun dotText(*ast.Graph) string

extern github.com/awalterschulze/gographviz.NewGraph() (g)
  modifies gvName[new], gvDirected[new], gvClusters[new], gvLabels[new], gvNodes[new], gvEdges[new]
  ensures new: fresh(g) && gvClusters[g] == emptyset(string) && !gvDirected[g] && (forall c: string :: gvNodes[g][c] == emptyset(string) && gvEdges[g][c] == emptyset(string))

extern github.com/awalterschulze/gographviz.(*Graph).SetDir(g, d) (err)
  requires g: g != nil
  modifies gvDirected[g]
  ensures set: gvDirected[g] == d

extern github.com/awalterschulze/gographviz.(*Graph).SetName(g, name) (err)
  requires g: g != nil
  modifies gvName[g]
  ensures set: gvName[g] == name

extern github.com/awalterschulze/gographviz.(*Graph).AddAttr(g, of, field, value) (err)
  requires g: g != nil
  modifies gvLabels[g]
  ensures label: field == "label" ==> gvLabels[g] == update(old(gvLabels[g]), of, value)
  ensures other: field != "label" ==> gvLabels[g] == old(gvLabels[g])

extern github.com/awalterschulze/gographviz.(*Graph).AddSubGraph(g, parent, name, attrs) (err)
  requires g: g != nil
  requires top: parent == gvName[g]
  requires plain: attrs == nil
  modifies gvClusters[g]
  ensures added: gvClusters[g] == setadd(old(gvClusters[g]), name)

extern github.com/awalterschulze/gographviz.(*Graph).AddNode(g, parent, name, attrs) (err)
  requires g: g != nil
  requires plain: attrs == nil
  modifies gvNodes[g]
  ensures added: gvNodes[g] == update(old(gvNodes[g]), parent, setadd(old(gvNodes[g][parent]), name))

extern github.com/awalterschulze/gographviz.(*Graph).AddEdge(g, src, dst, directed, attrs) (err)
  requires g: g != nil
  requires arrow: directed && gvDirected[g]
  requires plain: attrs == nil
  modifies gvEdges[g]
  ensures added: gvEdges[g] == update(old(gvEdges[g]), dst, setadd(old(gvEdges[g][dst]), src))

extern github.com/awalterschulze/gographviz.(*Graph).WriteAst(g) (a, err)
  requires g: g != nil
  modifies drawn, drawing
  ensures drawn: err == nil ==> a != nil && drawn == g && drawing == a

extern github.com/awalterschulze/gographviz/ast.(*Graph).String(a) (s)
  requires a: a != nil
  modifies nothing
  ensures text: s == dotText(a)

pred cluster(t: string) = dotID("cluster_" + t)
fun clusterName(string) string
axiom clusterName: forall t: string :: {dotID("cluster_" + t)} clusterName(dotID("cluster_" + t)) == t

func internal/runbook.Dot(sys, filename, w, splines) (err)
  props P24
  opt retry on
  requires sys: sys != nil && w != nil
  modifies text(w), made, madeBy, configs, configOf, configAs, decSrc[new], decStrict[new], decodedFrom, decodedStrict, decodedAny, passed, loadFails, lastDoc, readName, evalName, evalSource, evalPaths, evalResult, vmPaths[new], parsed, gvName[new], gvDirected[new], gvClusters[new], gvLabels[new], gvNodes[new], gvEdges[new], drawn, drawing
  ensures file: err == nil ==> readName == filename && parsed != nil && drawn != nil
  ensures text: err == nil ==> text(w) == old(text(w)) + dotText(drawing)
  ensures directed: err == nil ==> gvDirected[drawn]
  ensures clusters: err == nil ==> (forall t: string :: t in parsed.Targets ==> cluster(t) in gvClusters[drawn] && gvLabels[drawn][cluster(t)] == dotID(t))
  ensures onlyclusters: err == nil ==> (forall c: string :: c in gvClusters[drawn] ==> (exists t: string :: t in parsed.Targets && c == cluster(t)))
  ensures nodes: err == nil ==> (forall id: string :: id in parsed.Tasks ==> dotID(id) in gvNodes[drawn][cluster(vals(parsed.Tasks)[id].Target)])
  ensures onlynodes: err == nil ==> (forall c: string, n: string :: n in gvNodes[drawn][c] ==> (exists id: string :: id in parsed.Tasks && n == dotID(id) && c == cluster(vals(parsed.Tasks)[id].Target)))
  ensures edges: err == nil ==> (forall id: string :: id in parsed.Tasks ==> (forall i in vals(parsed.Tasks)[id].After :: dotID(vals(parsed.Tasks)[id].After[i]) in gvEdges[drawn][dotID(id)]))
  ensures onlyedges: err == nil ==> (forall d: string, s: string :: s in gvEdges[drawn][d] ==> (exists id: string :: id in parsed.Tasks && d == dotID(id) && (exists i in vals(parsed.Tasks)[id].After :: s == dotID(vals(parsed.Tasks)[id].After[i]))))
  inv name for (g: *gographviz.Graph): g != nil && fresh(g) && gvName[g] == "runbook" && gvDirected[g]
  inv cl over type(map[string]types.Target) for (g: *gographviz.Graph, it: iter(map[string]types.Target)): forall t: string :: t in seen(it) ==> cluster(t) in gvClusters[g] && gvLabels[g][cluster(t)] == dotID(t)
  inv cl2 over type(map[string]types.Target) for (g: *gographviz.Graph, it: iter(map[string]types.Target)): forall c: string :: c in gvClusters[g] ==> (exists t: string :: t in seen(it) && c == cluster(t))
  inv cl3 over not type(map[string]types.Target) for (g: *gographviz.Graph, it: iter(map[string]*types.Task)): forall t: string :: t in parsed.Targets ==> cluster(t) in gvClusters[g] && gvLabels[g][cluster(t)] == dotID(t)
  inv cl4 over not type(map[string]types.Target) for (g: *gographviz.Graph, it: iter(map[string]*types.Task)): forall c: string :: c in gvClusters[g] ==> (exists t: string :: t in parsed.Targets && c == cluster(t))
  inv none over type(map[string]types.Target) for (g: *gographviz.Graph, it: iter(map[string]types.Target)): forall c: string :: gvNodes[g][c] == emptyset(string) && gvEdges[g][c] == emptyset(string)
  inv nodes over not type(map[string]types.Target) for (g: *gographviz.Graph, it: iter(map[string]*types.Task)): forall id: string :: id in seen(it) ==> dotID(id) in gvNodes[g][cluster(vals(parsed.Tasks)[id].Target)]
  inv nodes2 over not type(map[string]types.Target) for (g: *gographviz.Graph, it: iter(map[string]*types.Task)): forall c: string, n: string :: n in gvNodes[g][c] ==> (exists id: string :: id in seen(it) && n == dotID(id) && c == cluster(vals(parsed.Tasks)[id].Target))
  inv edges over not type(map[string]types.Target) for (g: *gographviz.Graph, it: iter(map[string]*types.Task)): forall id: string :: id in seen(it) && id != cur(it) ==> (forall i in vals(parsed.Tasks)[id].After :: dotID(vals(parsed.Tasks)[id].After[i]) in gvEdges[g][dotID(id)])
  inv edges1 over type(map[string]*types.Task) for (g: *gographviz.Graph, it: iter(map[string]*types.Task)): cur(it) in seen(it) ==> (forall i in vals(parsed.Tasks)[cur(it)].After :: dotID(vals(parsed.Tasks)[cur(it)].After[i]) in gvEdges[g][dotID(cur(it))])
  inv edges0 over type([]string) for (g: *gographviz.Graph, k: idx, it: iter(map[string]*types.Task)): forall i in vals(parsed.Tasks)[cur(it)].After :: i < k ==> dotID(vals(parsed.Tasks)[cur(it)].After[i]) in gvEdges[g][dotID(cur(it))]
  inv edges2 over not type(map[string]types.Target) for (g: *gographviz.Graph, it: iter(map[string]*types.Task)): forall d: string, s: string :: s in gvEdges[g][d] ==> (exists id: string :: id in seen(it) && d == dotID(id) && (exists i in vals(parsed.Tasks)[id].After :: s == dotID(vals(parsed.Tasks)[id].After[i])))

// ---------------------------------------------------------------- evaluation

extern encoding/json.Unmarshal(data, v) (err)
  modifies obj(x) for (x: *interface{}): typeis(v, *interface{}) && x == as(v, *interface{})
  modifies jsonText
  ensures from: jsonText == bytestext(data)

// the colours that do not depend on the process's standard output
ghost alwaysOn: set[*color.Color]

extern github.com/hokaccha/go-prettyjson.NewFormatter() (f)
  modifies nothing
  ensures new: fresh(f) && f.KeyColor != nil && f.StringColor != nil && f.BoolColor != nil && f.NumberColor != nil && f.NullColor != nil

extern github.com/fatih/color.(*Color).EnableColor(c)
  requires c: c != nil
  modifies alwaysOn
  ensures on: alwaysOn == setadd(old(alwaysOn), c)

ghost jsonText: string
ghost colored: bool
ghost prettyText: string

extern github.com/hokaccha/go-prettyjson.(*Formatter).Marshal(f, v) (b, err)
  requires f: f != nil
  modifies colored, prettyText
  ensures off: f.DisabledColor ==> !colored
  ensures on: !f.DisabledColor && f.KeyColor in alwaysOn && f.StringColor in alwaysOn && f.BoolColor in alwaysOn && f.NumberColor in alwaysOn && f.NullColor in alwaysOn ==> colored
  ensures text: prettyText == bytestext(b)

func internal/runbook.Eval(sys, filename, w, color) (err)
  props P25
  requires sys: sys != nil && w != nil
  modifies text(w), readName, evalName, evalSource, evalPaths, evalResult, loadFails, vmPaths[new], jsonText, colored, prettyText, alwaysOn
  ensures file: err == nil ==> readName == filename && jsonText == evalResult
  ensures color: err == nil ==> colored == color
  ensures text: err == nil ==> text(w) == old(text(w)) + prettyText
  ensures none: err != nil ==> hasPrefix(text(w), old(text(w)))
