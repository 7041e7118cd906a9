package internal/runbook/scheduler

// ghost state of a scheduler: the tasks handed out so far, and per target those
// handed out and not yet reported complete
ghost schOut: tmap[*Scheduler]set[taskID] reset Scheduler
ghost schRun: tmap[*Scheduler]tmap[targetID]set[taskID] reset Scheduler

pred schMaps(s: *Scheduler) = s != nil && s.tasks != nil && s.pending != nil && s.targetCap != nil && s.targetLen != nil && s.targetCap != s.targetLen

pred schBase(s: *Scheduler) = schMaps(s) && dgOK(s.deps) && dgNodes[s.deps] == dom(s.tasks)
  && (forall q: targetID, i in vals(s.pending)[q] :: q in s.pending ==> vals(s.pending)[q][i] in s.tasks && vals(s.tasks)[vals(s.pending)[q][i]] == q
        && !(vals(s.pending)[q][i] in dgPend[s.deps]) && !(vals(s.pending)[q][i] in schOut[s]))
  && (forall q: targetID, i in vals(s.pending)[q], j in vals(s.pending)[q] :: q in s.pending && i < j ==> vals(s.pending)[q][i] != vals(s.pending)[q][j])
  && (forall q: targetID :: q in s.pending && len(vals(s.pending)[q]) > 0 ==> vals(s.pending)[q][0] in s.tasks && !(vals(s.pending)[q][0] in schOut[s]))
  && (forall q: targetID, p: targetID :: q in s.pending && p in s.pending && q != p && base(vals(s.pending)[q]) != 0 ==> base(vals(s.pending)[q]) != base(vals(s.pending)[p]))
  && (forall x: taskID :: x in schOut[s] ==> x in s.tasks && !(x in dgPend[s.deps]))
  && dom(s.targetLen) == dom(s.targetCap)
  && (forall q: targetID, x: taskID :: x in schRun[s][q] ==> x in schOut[s] && vals(s.tasks)[x] == q && q in s.targetCap)

// the counters are the numbers of running tasks, at most the capacities
pred schCount(s: *Scheduler) = forall q: targetID :: q in s.targetCap ==> card(schRun[s][q]) == vals(s.targetLen)[q] && (vals(s.targetLen)[q] <= vals(s.targetCap)[q] || vals(s.targetLen)[q] == 0)

// x waits in its target's queue
pred queued(s: *Scheduler, x: taskID) = vals(s.tasks)[x] in s.pending && x in vals(s.pending)[vals(s.tasks)[x]]

pred schCover(s: *Scheduler) = forall x: taskID :: x in s.tasks && !(x in dgPend[s.deps]) && !(x in schOut[s]) ==> queued(s, x)

pred schOK(s: *Scheduler) = schBase(s) && schCount(s) && schCover(s)

// no target has both spare capacity and a waiting task
pred schBusy(s: *Scheduler) = forall q: targetID :: q in s.pending && len(vals(s.pending)[q]) > 0 ==> !(q in s.targetCap) || vals(s.targetLen)[q] >= vals(s.targetCap)[q]

func internal/runbook/scheduler.(*Scheduler).noPendingTasks(s) (r)
  props P04 P05
  requires ok: schOK(s)
  modifies map(s.pending)
  ensures ok: schOK(s)
  ensures exact: r <==> (forall x: taskID :: x in s.tasks ==> x in schOut[s])
  ensures keep: forall q: targetID :: q in old(dom(s.pending)) && len(old(vals(s.pending)[q])) > 0 ==> q in s.pending && vals(s.pending)[q] == old(vals(s.pending)[q])
  ensures less: forall q: targetID :: q in s.pending ==> q in old(dom(s.pending)) && vals(s.pending)[q] == old(vals(s.pending)[q])
  inv keep: forall q: targetID :: q in old(dom(s.pending)) && len(old(vals(s.pending)[q])) > 0 ==> q in s.pending && vals(s.pending)[q] == old(vals(s.pending)[q])
  inv less: forall q: targetID :: q in s.pending ==> q in old(dom(s.pending)) && vals(s.pending)[q] == old(vals(s.pending)[q])
  inv gone for (it: iter(map[targetID][]taskID)): forall q: targetID :: q in seen(it) ==> !(q in s.pending)

func internal/runbook/scheduler.(*Scheduler).fillPending(s, tasks)
  props P04 P05
  requires ok: schBase(s)
  requires new: forall i in tasks :: tasks[i] in s.tasks && !(tasks[i] in dgPend[s.deps]) && !(tasks[i] in schOut[s]) && !queued(s, tasks[i])
  requires once: distinct(tasks)
  requires rest: forall x: taskID :: x in s.tasks && !(x in dgPend[s.deps]) && !(x in schOut[s]) && !queued(s, x) ==> x in tasks
  modifies map(s.pending), elems(vals(s.pending)[q]) for (q: targetID): q in s.pending
  ensures ok: schBase(s) && schCover(s)
  inv ok: schBase(s)
  inv rest for (k: idx): forall x: taskID :: x in s.tasks && !(x in dgPend[s.deps]) && !(x in schOut[s]) && !queued(s, x) ==> x in tasks
  inv new for (k: idx): forall i in tasks :: i >= k ==> !queued(s, tasks[i])
  inv done for (k: idx): forall i in tasks :: i < k ==> queued(s, tasks[i])
  inv bases: forall q: targetID :: q in s.pending ==> base(vals(s.pending)[q]) >= (oldalloc()) || q in old(dom(s.pending)) && base(vals(s.pending)[q]) == base(old(vals(s.pending)[q]))

pred handed(ready: map[string][]string, q: targetID, x: taskID) = q in ready && x in vals(ready)[q]

// how many tasks of queue q were handed out
pred cut(ready: map[string][]string, q: targetID) = q in ready ? len(vals(ready)[q]) : 0

func internal/runbook/scheduler.(*Scheduler).buildReady(s) (ready)
  props P04 P05
  requires ok: schOK(s)
  modifies map(s.pending), map(s.targetLen), schOut[s], schRun[s]
  assign schRun[s] = fmap(q: targetID :: q in s.targetCap ? uni(old(schRun[s][q]), old(vals(s.pending)[q]), cut(ready, q)) : old(schRun[s][q]))
  assign schOut[s] = setof(x: taskID :: x in old(schOut[s]) || x in s.tasks && handed(ready, vals(s.tasks)[x], x))
  ensures fresh: ready != nil && fresh(ready)
  ensures own: forall q: targetID, x: taskID :: handed(ready, q, x) ==> x in s.tasks && vals(s.tasks)[x] == q && !(x in old(schOut[s])) && !(x in dgPend[s.deps])
  ensures once: forall q: targetID :: q in ready ==> distinct(vals(ready)[q]) && fresh(vals(ready)[q])
  ensures out: forall x: taskID :: x in schOut[s] <==> x in old(schOut[s]) || x in s.tasks && handed(ready, vals(s.tasks)[x], x)
  ensures run: forall q: targetID, x: taskID :: x in schRun[s][q] <==> x in old(schRun[s][q]) || handed(ready, q, x)
  ensures ok: schOK(s)
  ensures busy: schBusy(s)
  inv fresh for (ready: map[string][]string): forall q: targetID :: q in ready ==> fresh(vals(ready)[q])
  inv rin for (it: iter(map[targetID][]taskID), ready: map[string][]string): forall q: targetID :: q in ready ==> q in seen(it) && q in s.targetCap && 0 < len(vals(ready)[q]) && len(vals(ready)[q]) <= len(old(vals(s.pending)[q]))
  inv relems for (ready: map[string][]string): forall q: targetID, i in vals(ready)[q] :: q in ready ==> vals(ready)[q][i] == old(vals(s.pending)[q])[i]
  inv relems2 for (ready: map[string][]string): forall q: targetID, i in old(vals(s.pending)[q]) :: q in ready && i < len(vals(ready)[q]) ==> vals(ready)[q][i] == old(vals(s.pending)[q])[i]
  inv pdom: dom(s.pending) == old(dom(s.pending)) && dom(s.targetLen) == old(dom(s.targetLen))
  inv pcut for (ready: map[string][]string): forall q: targetID :: q in s.pending ==> base(vals(s.pending)[q]) == base(old(vals(s.pending)[q])) && off(vals(s.pending)[q]) == off(old(vals(s.pending)[q])) + cut(ready, q) && len(vals(s.pending)[q]) == len(old(vals(s.pending)[q])) - cut(ready, q)
  inv tlen for (ready: map[string][]string): forall q: targetID :: q in s.targetCap ==> vals(s.targetLen)[q] == old(vals(s.targetLen)[q]) + cut(ready, q) && (vals(s.targetLen)[q] <= vals(s.targetCap)[q] || vals(s.targetLen)[q] == 0)
  inv busy for (it: iter(map[targetID][]taskID)): forall q: targetID :: q in seen(it) && q in s.pending && len(vals(s.pending)[q]) > 0 ==> !(q in s.targetCap) || vals(s.targetLen)[q] >= vals(s.targetCap)[q]
  // copying the names
  inv copy for (l: []taskID, t: []string, k: idx): forall i in t :: i < k ==> t[i] == l[i]
  inv copy2 for (l: []taskID, t: []string, k: idx): forall i in l :: i < k ==> t[i] == l[i]
  inv tfresh for (t: []string): fresh(t)

// the tasks of a batch: each on its own target, once, never handed out before, all its
// predecessors reported complete
pred batchOK(s: *Scheduler, ready: map[string][]string, before: set[taskID]) =
  ready != nil && fresh(ready)
  && (forall q: targetID, x: taskID :: handed(ready, q, x) ==> x in s.tasks && vals(s.tasks)[x] == q && !(x in before))
  && (forall q: targetID :: q in ready ==> distinct(vals(ready)[q]) && fresh(vals(ready)[q]))
  && (forall q: targetID, x: taskID, m: string :: handed(ready, q, x) && m in dgEdges[s.deps][x] ==> m in dgDone[s.deps])

func internal/runbook/scheduler.(*Scheduler).Next(s, completed) (ready, err)
  props P04 P05
  requires ok: schOK(s)
  requires running: completed in schRun[s][vals(s.tasks)[completed]]
  modifies map(s.pending), elems(vals(s.pending)[q]) for (q: targetID): q in s.pending, map(s.targetLen), schOut[s], schRun[s]
  modifies s.deps.pending, c.next for (c: *dag.pendingTask): c in dgCells[s.deps], dgCells[s.deps], dgPend[s.deps], dgDone[s.deps], map(vals(s.deps.dependencies)[n]) for (n: string): n in s.deps.dependencies
  assign at buildReady schRun[s] = update(schRun[s], vals(s.tasks)[completed], setdel(schRun[s][vals(s.tasks)[completed]], completed))
  ensures end: err != nil <==> (forall x: taskID :: x in s.tasks ==> x in old(schOut[s]))
  ensures endnil: err != nil ==> ready == nil && schOut[s] == old(schOut[s])
  ensures ok: schOK(s)
  ensures done: err == nil ==> dgDone[s.deps] == setadd(old(dgDone[s.deps]), completed)
  ensures batch: err == nil ==> batchOK(s, ready, old(schOut[s]))
  ensures out: err == nil ==> (forall x: taskID :: x in schOut[s] <==> x in old(schOut[s]) || x in s.tasks && handed(ready, vals(s.tasks)[x], x))
  ensures run: err == nil ==> (forall q: targetID, x: taskID :: x in schRun[s][q] <==> x in old(schRun[s][q]) && x != completed || handed(ready, q, x))
  ensures busy: err == nil ==> schBusy(s)

fun limit(types.Target) int

extern internal/runbook/types.(Target).ConcurrencyLimit(t) (n)
  modifies nothing
  ensures n == limit(t)

func internal/runbook/demo.(*Target).ConcurrencyLimit(t) (n)
  props P05
  modifies nothing
  ensures one: n == 1

func internal/runbook/pg.(*Target).ConcurrencyLimit(t) (n)
  props P05
  requires some: t != nil
  modifies nothing
  ensures limit: n == t.Concurrency

func internal/runbook/sh.(*Target).ConcurrencyLimit(t) (n)
  props P05 P10
  requires some: t != nil
  modifies nothing
  ensures limit: n == t.Concurrency

func internal/runbook/scheduler.New(targets, tasks) (s, ready, err)
  props P04 P05
  requires targets: forall k: string :: k in targets ==> vals(targets)[k] != nil
  requires tasks: forall k: string :: k in tasks ==> vals(tasks)[k] != nil
  modifies dgCells[new], dgPend[new], dgEdges[new], dgNodes[new], dgDone[new], schOut[new], schRun[new], lastRank
  ensures refused: err != nil ==> s == nil && ready == nil
  ensures known: err == nil ==> (forall k: string, m: string :: k in tasks && m in vals(tasks)[k].After ==> m in tasks)
  ensures order: err == nil ==> (forall k: string, m: string :: k in tasks && m in vals(tasks)[k].After ==> lastRank[m] < lastRank[k])
  ensures reason: err != nil ==> typeis(err, *dag.InvalidEdgeError) || typeis(err, *dag.CircularDependencyError)
  ensures dangling: err != nil && typeis(err, *dag.InvalidEdgeError) ==> as(err, *dag.InvalidEdgeError).Node in tasks
      && as(err, *dag.InvalidEdgeError).Edge in vals(tasks)[as(err, *dag.InvalidEdgeError).Node].After && !(as(err, *dag.InvalidEdgeError).Edge in tasks)
  ensures circular: err != nil && typeis(err, *dag.CircularDependencyError) ==> len(as(err, *dag.CircularDependencyError).Cycle) > 0 && (forall i in as(err, *dag.CircularDependencyError).Cycle :: as(err, *dag.CircularDependencyError).Cycle[i] in tasks)
      && (forall i in as(err, *dag.CircularDependencyError).Cycle :: i > 0 ==> as(err, *dag.CircularDependencyError).Cycle[i - 1] in vals(tasks)[as(err, *dag.CircularDependencyError).Cycle[i]].After) && as(err, *dag.CircularDependencyError).Cycle[len(as(err, *dag.CircularDependencyError).Cycle) - 1] in vals(tasks)[as(err, *dag.CircularDependencyError).Cycle[0]].After
  ensures ok: err == nil ==> fresh(s) && schOK(s)
  ensures tasks: err == nil ==> dom(s.tasks) == dom(tasks) && (forall k: string :: k in tasks ==> vals(s.tasks)[k] == vals(tasks)[k].Target)
  ensures after: err == nil ==> (forall k: string, m: string :: k in tasks ==> (m in dgEdges[s.deps][k] <==> m in vals(tasks)[k].After)) && dgDone[s.deps] == emptyset(string)
  ensures caps: err == nil ==> dom(s.targetCap) == dom(targets) && (forall k: string :: k in targets ==> vals(s.targetCap)[k] == limit(vals(targets)[k]))
  ensures batch: err == nil ==> batchOK(s, ready, emptyset(taskID))
  ensures out: err == nil ==> (forall x: taskID :: x in schOut[s] <==> x in s.tasks && handed(ready, vals(s.tasks)[x], x))
  ensures run: err == nil ==> (forall q: targetID, x: taskID :: x in schRun[s][q] <==> handed(ready, q, x))
  ensures busy: err == nil ==> schBusy(s)
  inv base for (s: *Scheduler): schMaps(s)
  inv caps for (it: iter(map[string]types.Target), s: *Scheduler): dom(s.targetCap) == seen(it) && dom(s.targetLen) == seen(it)
  inv cap for (s: *Scheduler): forall k: string :: k in s.targetCap ==> vals(s.targetCap)[k] == limit(vals(targets)[k]) && vals(s.targetLen)[k] == 0
  inv empty for (s: *Scheduler): dom(s.pending) == emptyset(targetID)
  inv tasks for (it: iter(map[string]*types.Task), s: *Scheduler, d: map[string][]string): dom(s.tasks) == seen(it) && dom(d) == seen(it)
  inv task for (s: *Scheduler, d: map[string][]string): forall k: string :: k in s.tasks ==> vals(s.tasks)[k] == vals(tasks)[k].Target && vals(d)[k] == vals(tasks)[k].After
