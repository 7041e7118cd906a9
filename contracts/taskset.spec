package internal/taskset/parser

// ---------------------------------------------------------------- task set files

// ghost state: the targets and tasks made so far, by what, the body each value
// was decoded from, the dependencies each task was given, how many steps failed
ghost tsMade: set[types.Target]
ghost tsMadeBy: tmap[types.Target]types.TargetFactory
ghost tsTasks: set[types.Task]
ghost tsTaskOf: tmap[types.Task]types.Target
ghost tsTaskAs: tmap[types.Task]string
ghost tsBody: tmap[interface{}]hcl.Body
ghost tsBodies: set[interface{}]
ghost tsDecodes: tmap[interface{}]int
ghost tsAfter: tmap[interface{}][]string
ghost tsProvide: tmap[interface{}][]string
ghost tsRequire: tmap[interface{}][]string
ghost tsGiven: set[interface{}]
ghost tsFails: int
// diagnostics, errors or not
ghost tsNotes: int
ghost tsName: string
ghost tsFile: *hcl.File
ghost tsRaw: *taskSet

fun diagBad(hcl.Diagnostics) bool

extern github.com/hashicorp/hcl2/hclparse.NewParser() (p)
  modifies nothing
  ensures new: fresh(p)

extern github.com/hashicorp/hcl2/hclparse.(*Parser).ParseHCLFile(p, name) (f, diags)
  requires p: p != nil
  modifies tsName, tsFile, tsFails
  ensures name: tsName == name && tsFile == f
  ensures good: diags == nil || !diagBad(diags) ==> f != nil && fresh(f) && tsFails == old(tsFails)
  ensures bad: diags != nil && diagBad(diags) ==> tsFails > old(tsFails)

extern github.com/hashicorp/hcl2/hcl.(Diagnostics).HasErrors(d) (r)
  modifies nothing
  ensures r: r <==> diagBad(d)

extern github.com/hashicorp/hcl2/gohcl.DecodeBody(body, ctx, val) (diags)
  modifies obj(x) for (x: *taskSet): typeis(val, *taskSet) && x == as(val, *taskSet)
  modifies tsBody[val], tsBodies, tsDecodes, tsFails, tsNotes, tsRaw
  ensures from: tsBody[val] == body && tsBodies == setadd(old(tsBodies), val) && tsDecodes == update(old(tsDecodes), val, old(tsDecodes)[val] + 1)
  ensures raw: typeis(val, *taskSet) ==> tsRaw == as(val, *taskSet) && (forall i in tsRaw.Targets :: tsRaw.Targets[i] != nil) && (forall i in tsRaw.Tasks :: tsRaw.Tasks[i] != nil)
  ensures noraw: !typeis(val, *taskSet) ==> tsRaw == old(tsRaw)
  ensures good: diags == nil || !diagBad(diags) ==> tsFails == old(tsFails)
  ensures bad: diags != nil && diagBad(diags) ==> tsFails > old(tsFails)
  ensures notes: diags != nil ==> tsNotes > old(tsNotes)
  ensures more: tsNotes >= old(tsNotes)

extern internal/taskset/types.(TargetFactory).NewTarget(f) (t)
  modifies tsMade, tsMadeBy
  ensures new: t != nil && !(t in old(tsMade)) && tsMade == setadd(old(tsMade), t) && tsMadeBy == update(old(tsMadeBy), t, f)
  ensures plain: !typeis(t, *taskSet) && !(t in tsBodies) && tsDecodes[t] == 0

extern internal/taskset/types.(Target).NewTask(t, class) (c, err)
  modifies tsTasks, tsTaskOf, tsTaskAs, tsFails
  ensures ok: err == nil ==> c != nil && !(c in old(tsTasks)) && tsTasks == setadd(old(tsTasks), c) && tsTaskOf == update(old(tsTaskOf), c, t) && tsTaskAs == update(old(tsTaskAs), c, class) && tsFails == old(tsFails) && !typeis(c, *taskSet) && !(c in tsBodies) && tsDecodes[c] == 0 && !(c in tsGiven)
  ensures other: err == nil ==> forall t: types.Target :: {t in tsMade} t in tsMade ==> t != c
  ensures settable: err == nil ==> typeis(c, interface{ SetDependencies(after, provide, require []string) })
  ensures bad: err != nil ==> tsTasks == old(tsTasks) && tsTaskOf == old(tsTaskOf) && tsTaskAs == old(tsTaskAs) && tsFails > old(tsFails)

extern (interface{SetDependencies(after []string, provide []string, require []string)}).SetDependencies(x, after, provide, require)
  modifies tsAfter, tsProvide, tsRequire, tsGiven
  ensures given: tsGiven == setadd(old(tsGiven), x) && tsAfter == update(old(tsAfter), x, after) && tsProvide == update(old(tsProvide), x, provide) && tsRequire == update(old(tsRequire), x, require)

// the default target of every type
pred tsDefault(p: *Parser, ts: *types.TaskSet, c: string) = c in ts.Targets && vals(ts.Targets)[c] != nil && dom(vals(ts.Targets)[c]) == setadd(emptyset(string), "") && vals(vals(ts.Targets)[c])[""] != nil && vals(vals(ts.Targets)[c])[""] in tsMade && tsMadeBy[vals(vals(ts.Targets)[c])[""]] == vals(p.Targets)[c] && !(vals(vals(ts.Targets)[c])[""] in tsBodies)

func internal/taskset/parser.(*Parser).loadDefaultTargets(p, ts) (err)
  props P27
  requires in: p != nil && ts != nil && ts.Targets != nil && dom(ts.Targets) == emptyset(string)
  requires factories: forall c: string :: c in p.Targets ==> vals(p.Targets)[c] != nil
  modifies map(ts.Targets), tsMade, tsMadeBy
  ensures ok: err == nil
  ensures all: dom(ts.Targets) == dom(p.Targets)
  ensures each: forall c: string :: c in p.Targets ==> tsDefault(p, ts, c)
  ensures new: forall c: string :: c in ts.Targets ==> fresh(vals(ts.Targets)[c])
  ensures own: forall a: string, b: string :: a in ts.Targets && b in ts.Targets && a != b ==> vals(ts.Targets)[a] != vals(ts.Targets)[b]
  inv seen for (it: iter): dom(ts.Targets) == seen(it)
  inv each for (it: iter): forall c: string :: c in seen(it) ==> tsDefault(p, ts, c)
  inv new for (it: iter): forall c: string :: c in seen(it) ==> fresh(vals(ts.Targets)[c])
  inv own for (it: iter): forall a: string, b: string :: a in seen(it) && b in seen(it) && a != b ==> vals(ts.Targets)[a] != vals(ts.Targets)[b]

pred tsSame(a: *target, b: *target) = a.Type == b.Type && a.ID == b.ID
pred tsLater(raw: *taskSet, i: int, k: int) = exists j in raw.Targets :: i < j && j < k && tsSame(raw.Targets[i], raw.Targets[j])
// the target declared as t was made by its type's factory and configured from its declaration
pred tsLoaded(p: *Parser, ts: *types.TaskSet, t: *target) = t.Type in p.Targets && t.Type in ts.Targets && t.ID in vals(ts.Targets)[t.Type] && tsMadeBy[vals(vals(ts.Targets)[t.Type])[t.ID]] == vals(p.Targets)[t.Type] && tsBody[vals(vals(ts.Targets)[t.Type])[t.ID]] == t.Config && vals(vals(ts.Targets)[t.Type])[t.ID] in tsBodies && tsDecodes[vals(vals(ts.Targets)[t.Type])[t.ID]] == 1
// nothing is there that is neither a default nor declared before k
pred tsKnown(raw: *taskSet, ts: *types.TaskSet, k: int) = forall c: string, id: string :: c in ts.Targets && id in vals(ts.Targets)[c] ==> id == "" || (exists i in raw.Targets :: i < k && raw.Targets[i].Type == c && raw.Targets[i].ID == id)
pred tsUndeclared(raw: *taskSet, c: string, k: int) = forall i in raw.Targets :: i < k ==> !(raw.Targets[i].Type == c && raw.Targets[i].ID == "")
pred tsStays(p: *Parser, ts: *types.TaskSet, c: string) = "" in vals(ts.Targets)[c] && tsMadeBy[vals(vals(ts.Targets)[c])[""]] == vals(p.Targets)[c] && !(vals(vals(ts.Targets)[c])[""] in tsBodies)
pred tsOwn(ts: *types.TaskSet) = forall a: string, b: string :: a in ts.Targets && b in ts.Targets && a != b ==> vals(ts.Targets)[a] != vals(ts.Targets)[b]
pred tsThere(ts: *types.TaskSet) = forall c: string, id: string :: c in ts.Targets && id in vals(ts.Targets)[c] ==> vals(vals(ts.Targets)[c])[id] != nil && vals(vals(ts.Targets)[c])[id] in tsMade

func internal/taskset/parser.(*Parser).loadExplicitTargets(p, raw, ts) (err)
  props P27
  opt houdini 5000000
  opt retry on
  requires in: p != nil && raw != nil && ts != nil && ts.Targets != nil && dom(ts.Targets) == dom(p.Targets)
  requires raw: forall i in raw.Targets :: raw.Targets[i] != nil
  requires factories: forall c: string :: c in p.Targets ==> vals(p.Targets)[c] != nil
  requires defaults: forall c: string :: c in p.Targets ==> tsDefault(p, ts, c)
  requires own: tsOwn(ts)
  modifies map(vals(ts.Targets)[c]) for (c: string): c in ts.Targets
  modifies tsMade, tsMadeBy, tsBody, tsBodies, tsDecodes, tsFails, tsNotes, tsRaw
  ensures all: dom(ts.Targets) == old(dom(ts.Targets))
  ensures each: err == nil ==> forall i in raw.Targets :: tsLater(raw, i, len(raw.Targets)) || tsLoaded(p, ts, raw.Targets[i])
  ensures known: err == nil ==> tsKnown(raw, ts, len(raw.Targets))
  ensures default: err == nil ==> forall c: string :: c in ts.Targets && tsUndeclared(raw, c, len(raw.Targets)) ==> tsStays(p, ts, c)
  ensures there: tsThere(ts)
  ensures clean: err == nil ==> tsFails == old(tsFails)
  ensures cause: err != nil ==> tsFails > old(tsFails) || tsNotes > old(tsNotes) || (exists i in raw.Targets :: !(raw.Targets[i].Type in p.Targets))
  ensures raw: tsRaw == old(tsRaw)
  ensures doc: forall x: *taskSet :: {tsBody[box(x, *taskSet)]} tsBody[box(x, *taskSet)] == old(tsBody[box(x, *taskSet)])
  inv each for (k: idx): forall i in raw.Targets :: i < k ==> tsLater(raw, i, k) || tsLoaded(p, ts, raw.Targets[i])
  inv known for (k: idx): tsKnown(raw, ts, k)
  inv default for (k: idx): forall c: string :: c in ts.Targets && tsUndeclared(raw, c, k) ==> tsStays(p, ts, c)
  inv there: tsThere(ts)
  inv clean: tsFails == old(tsFails) && tsNotes >= old(tsNotes)
  inv raw: tsRaw == old(tsRaw)
  inv doc: forall x: *taskSet :: {tsBody[box(x, *taskSet)]} tsBody[box(x, *taskSet)] == old(tsBody[box(x, *taskSet)])

pred tsSameTask(a: *task, b: *task) = a.ID == b.ID
pred tsLaterTask(raw: *taskSet, i: int, k: int) = exists j in raw.Tasks :: i < j && j < k && tsSameTask(raw.Tasks[i], raw.Tasks[j])
pred tsPlaced(ts: *types.TaskSet, t: *task) = taskTarget(t.Type) in ts.Targets && t.Target in vals(ts.Targets)[taskTarget(t.Type)]
// the task loaded as x was made by its target for its type, configured from its declaration and given its dependencies
pred tsTaskFrom(ts: *types.TaskSet, x: types.Task, t: *task) = x in tsTasks && tsTaskOf[x] == vals(vals(ts.Targets)[taskTarget(t.Type)])[t.Target] && tsTaskAs[x] == taskClass(t.Type)
pred tsTaskConfigured(x: types.Task, t: *task) = x in tsBodies && tsBody[x] == t.Config && tsDecodes[x] == 1
pred tsTaskGiven(x: types.Task, t: *task) = x in tsGiven && tsAfter[x] == t.After && tsProvide[x] == t.Provide && tsRequire[x] == t.Require
pred tsTaskLoaded(ts: *types.TaskSet, t: *task) = tsPlaced(ts, t) && t.ID in ts.Tasks && tsTaskFrom(ts, vals(ts.Tasks)[t.ID], t) && tsTaskConfigured(vals(ts.Tasks)[t.ID], t) && tsTaskGiven(vals(ts.Tasks)[t.ID], t)
pred tsKnownTasks(raw: *taskSet, ts: *types.TaskSet, k: int) = forall id: string :: id in ts.Tasks ==> (exists i in raw.Tasks :: i < k && raw.Tasks[i].ID == id)

func internal/taskset/parser.(*Parser).loadTasks(p, raw, ts) (err)
  props P27
  opt witness on
  opt houdini 5000000
  opt retry on
  requires in: raw != nil && ts != nil && ts.Targets != nil && ts.Tasks != nil && dom(ts.Tasks) == emptyset(string)
  requires raw: forall i in raw.Tasks :: raw.Tasks[i] != nil
  requires there: tsThere(ts)
  modifies map(ts.Tasks), tsTasks, tsTaskOf, tsTaskAs, tsBody, tsBodies, tsDecodes, tsFails, tsNotes, tsRaw, tsAfter, tsProvide, tsRequire, tsGiven
  ensures placed: err == nil ==> forall i in raw.Tasks :: tsPlaced(ts, raw.Tasks[i])
  ensures each: err == nil ==> forall i in raw.Tasks :: tsLaterTask(raw, i, len(raw.Tasks)) || tsTaskLoaded(ts, raw.Tasks[i])
  ensures known: err == nil ==> tsKnownTasks(raw, ts, len(raw.Tasks))
  ensures targets: forall t: types.Target :: {t in tsMade} t in tsMade ==> tsBody[t] == old(tsBody)[t] && tsDecodes[t] == old(tsDecodes)[t] && (t in tsBodies) == (t in old(tsBodies))
  ensures clean: err == nil ==> tsFails == old(tsFails)
  ensures cause: err != nil ==> tsFails > old(tsFails) || (exists i in raw.Tasks :: !tsPlaced(ts, raw.Tasks[i]))
  ensures raw: tsRaw == old(tsRaw)
  ensures doc: forall x: *taskSet :: {tsBody[box(x, *taskSet)]} tsBody[box(x, *taskSet)] == old(tsBody[box(x, *taskSet)])
  inv placed for (k: idx): forall i in raw.Tasks :: i < k ==> tsPlaced(ts, raw.Tasks[i])
  inv each for (k: idx): forall i in raw.Tasks :: i < k ==> tsLaterTask(raw, i, k) || tsTaskLoaded(ts, raw.Tasks[i])
  inv known for (k: idx): tsKnownTasks(raw, ts, k)
  inv made: forall id: string :: id in ts.Tasks ==> vals(ts.Tasks)[id] in tsTasks
  inv targets: forall t: types.Target :: {t in tsMade} t in tsMade ==> tsBody[t] == old(tsBody)[t] && tsDecodes[t] == old(tsDecodes)[t] && (t in tsBodies) == (t in old(tsBodies))
  inv clean: tsFails == old(tsFails)
  inv raw: tsRaw == old(tsRaw)
  inv doc: forall x: *taskSet :: {tsBody[box(x, *taskSet)]} tsBody[box(x, *taskSet)] == old(tsBody[box(x, *taskSet)])

func internal/taskset/parser.(*Parser).Parse(p, filename) (ts, err)
  props P27
  requires p: p != nil
  requires factories: forall c: string :: c in p.Targets ==> vals(p.Targets)[c] != nil
  modifies tsMade, tsMadeBy, tsTasks, tsTaskOf, tsTaskAs, tsBody, tsBodies, tsDecodes, tsFails, tsNotes, tsRaw, tsAfter, tsProvide, tsRequire, tsGiven, tsName, tsFile
  ensures none: err != nil ==> ts == nil
  ensures some: err == nil ==> ts != nil && fresh(ts) && tsFails == old(tsFails)
  ensures document: err == nil ==> tsName == filename && tsFile != nil && tsRaw != nil && tsBody[box(tsRaw, *taskSet)] == tsFile.Body
  ensures types: err == nil ==> dom(ts.Targets) == dom(p.Targets)
  ensures targets: err == nil ==> forall i in tsRaw.Targets :: tsLater(tsRaw, i, len(tsRaw.Targets)) || tsLoaded(p, ts, tsRaw.Targets[i])
  ensures known: err == nil ==> tsKnown(tsRaw, ts, len(tsRaw.Targets))
  ensures default: err == nil ==> forall c: string :: c in ts.Targets && tsUndeclared(tsRaw, c, len(tsRaw.Targets)) ==> tsStays(p, ts, c)
  ensures placed: err == nil ==> forall i in tsRaw.Tasks :: tsPlaced(ts, tsRaw.Tasks[i])
  ensures tasks: err == nil ==> forall i in tsRaw.Tasks :: tsLaterTask(tsRaw, i, len(tsRaw.Tasks)) || tsTaskLoaded(ts, tsRaw.Tasks[i])
  ensures knowntasks: err == nil ==> tsKnownTasks(tsRaw, ts, len(tsRaw.Tasks))
