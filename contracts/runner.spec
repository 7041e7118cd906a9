package internal/runbook

// The history of a goroutine: the messages it received and sent, the tasks it
// executed, the messages it logged.

// tasks received
ghost rdN: int thread
ghost rdID: tmap[int]TaskID thread
ghost rdTarget: tmap[int]TargetID thread
ghost rdText: tmap[int]string thread
ghost rdTask: tmap[int]types.TaskConfig thread
ghost rdEnd: bool thread

// tasks executed, and how many messages had been logged before
ghost hN: int thread
ghost hTarget: tmap[int]types.Target thread
ghost hTask: tmap[int]types.TaskConfig thread
ghost hErr: tmap[int]error thread
ghost hLogs: tmap[int]int thread

// messages logged for the user
ghost logN: int thread
ghost logMsg: tmap[int]interface{} thread

// outcomes sent
ghost outN: int thread
ghost outID: tmap[int]TaskID thread
ghost outErr: tmap[int]error thread

// targets stopped
ghost stopN: int thread
ghost stopTarget: types.Target thread
ghost stopAt: int thread

extern recv:*runbook.readyMsg(ch) (x, ok)
  modifies rdN, rdID, rdTarget, rdText, rdTask, rdEnd
  ensures one: ok ==> x != nil && rdN == old(rdN) + 1 && rdEnd == old(rdEnd)
  ensures what: ok ==> rdID == update(old(rdID), old(rdN), x.taskID) && rdTarget == update(old(rdTarget), old(rdN), x.target) && rdText == update(old(rdText), old(rdN), x.message) && rdTask == update(old(rdTask), old(rdN), x.task)
  ensures end: !ok ==> rdEnd && rdN == old(rdN) && rdID == old(rdID) && rdTarget == old(rdTarget) && rdText == old(rdText) && rdTask == old(rdTask)
  ensures last: old(rdEnd) ==> !ok

extern send:*runbook.endedMsg(ch, x)
  requires some: x != nil
  modifies outN, outID, outErr
  ensures one: outN == old(outN) + 1 && outID == update(old(outID), old(outN), x.taskID) && outErr == update(old(outErr), old(outN), x.err)

extern internal/runbook/types.(Target).Handle(t, ctx, task) (err)
  modifies hN, hTarget, hTask, hErr, hLogs
  ensures one: hN == old(hN) + 1 && hTarget == update(old(hTarget), old(hN), t) && hTask == update(old(hTask), old(hN), task) && hErr == update(old(hErr), old(hN), err)
  ensures when: hLogs == update(old(hLogs), old(hN), logN)

extern internal/runbook/types.(Target).Stop(t) (err)
  modifies stopN, stopTarget, stopAt
  ensures one: stopN == old(stopN) + 1 && stopTarget == t && stopAt == hN

extern internal/sys.(Logger).Info(l, args)
  modifies logN, logMsg
  ensures one: logN == old(logN) + 1
  ensures what: len(args) == 1 ==> logMsg == update(old(logMsg), old(logN), args[0])
  ensures rest: forall n: int :: n < old(logN) ==> logMsg[n] == old(logMsg)[n]

extern internal/sys.(Logger).Infow(l, msg, args)
  modifies logN, logMsg
  ensures one: logN == old(logN) + 1 && logMsg == update(old(logMsg), old(logN), box(msg, string))

extern internal/sys.(Logger).Infof(l, template, args)
  modifies logN, logMsg
  ensures one: logN == old(logN) + 1
  ensures what: len(args) == 0 && indexOf(template, "%") < 0 ==> logMsg == update(old(logMsg), old(logN), box(template, string))
  ensures rest: forall n: int :: n < old(logN) ==> logMsg[n] == old(logMsg)[n]

extern internal/sys.(Logger).Debug(l, args)
  modifies nothing
extern internal/sys.(Logger).Debugf(l, template, args)
  modifies nothing
extern internal/sys.(Logger).Debugw(l, msg, args)
  modifies nothing
extern internal/sys.(Logger).Warn(l, args)
  modifies nothing
extern internal/sys.(Logger).Warnf(l, template, args)
  modifies nothing
extern internal/sys.(Logger).Warnw(l, msg, args)
  modifies nothing
extern internal/sys.(Logger).Error(l, args)
  modifies nothing
extern internal/sys.(Logger).Errorf(l, template, args)
  modifies nothing
extern internal/sys.(Logger).Errorw(l, msg, args)
  modifies nothing

extern sync.(*WaitGroup).Add(wg, n)
  modifies nothing
extern sync.(*WaitGroup).Done(wg)
  modifies nothing
extern sync.(*WaitGroup).Wait(wg)
  modifies nothing

// the first n tasks received were executed in that order, each after its message
pred ran(target: types.Target, n: int) = forall k: int :: 0 <= k && k < n ==> hTarget[k] == target && hTask[k] == rdTask[k]
pred announced(n: int) = forall k: int :: 0 <= k && k < n && rdText[k] != "" ==> (k == 0 ? 0 : hLogs[k-1]) < hLogs[k] && hLogs[k] <= logN && logMsg[hLogs[k]-1] == box(rdText[k], string)
pred outIDs(n: int) = forall k: int :: 0 <= k && k < n ==> outID[k] == rdID[k]
pred outErrs(n: int) = forall k: int :: 0 <= k && k < n ==> outErr[k] == hErr[k]
pred good(n: int) = forall k: int :: 0 <= k && k < n ==> hErr[k] == nil

func internal/runbook.startTargetGoroutine(ctx, log, wg, target, ready, ended)
  props P07
  requires in: log != nil && wg != nil && target != nil
  modifies goN, chTarget
  assign chTarget[ref(ready)] = target
  ensures one: goN == old(goN) + 1
  ensures leads: chTarget == update(old(chTarget), ref(ready), target)
  goensures count: hN <= rdN && outN == hN
  goensures executed: ran(target, hN)
  goensures announced: announced(hN)
  goensures outcomes: outIDs(hN)
  goensures errors: outErrs(hN)
  goensures failed: good(hN - 1)
  goensures all: hN < rdN ==> hN > 0 && hErr[hN-1] != nil
  goensures drained: rdEnd
  goensures stopped: stopN == 1 && stopTarget == target && stopAt == hN
  inv count: hN == rdN && outN == hN && hN >= 0 && stopN == 0
  inv count2: hN <= rdN && outN == hN && stopN == 0
  inv executed: ran(target, hN)
  inv announced: announced(hN)
  inv logs: logN >= 0 && (hN > 0 ==> hLogs[hN-1] <= logN)
  inv outcomes: outIDs(hN)
  inv errors: outErrs(hN)
  inv good: good(hN)
  inv failed: good(hN - 1)
  inv all: hN < rdN ==> hN > 0 && hErr[hN-1] != nil
  inv all2: hN > 0 && hErr[hN-1] != nil || rdEnd

ghost goN: int

// ---------------------------------------------------------------- starting targets

// the target a channel leads to, the targets started, the last failure to start one
ghost chTarget: tmap[ref]types.Target
ghost startN: int
ghost startErr: error

// tasks sent: what, where, and how many had been received before
ghost sdN: int thread
ghost sdID: tmap[int]TaskID thread
ghost sdTarget: tmap[int]TargetID thread
ghost sdText: tmap[int]string thread
ghost sdTask: tmap[int]types.TaskConfig thread
ghost sdCh: tmap[int]ref thread
ghost sdRd: tmap[int]int thread
// the message sent after receiving the n-th
ghost fwd: tmap[int]int thread

extern send:*runbook.readyMsg(ch, x)
  requires some: x != nil
  modifies sdN, sdID, sdTarget, sdText, sdTask, sdCh, sdRd, fwd, sdDone, inFlight, sentIDs
  ensures one: sdN == old(sdN) + 1 && sdID == update(old(sdID), old(sdN), x.taskID) && sdTarget == update(old(sdTarget), old(sdN), x.target)
  ensures what: sdText == update(old(sdText), old(sdN), x.message) && sdTask == update(old(sdTask), old(sdN), x.task)
  ensures where: sdCh == update(old(sdCh), old(sdN), ref(ch)) && sdRd == update(old(sdRd), old(sdN), rdN)
  ensures when: fwd == update(old(fwd), rdN - 1, old(sdN))
  ensures after: sdDone == update(old(sdDone), old(sdN), doneIDs) && inFlight == setadd(old(inFlight), x.taskID) && sentIDs == setadd(old(sentIDs), x.taskID)

extern internal/runbook/types.(Target).Start(t) (err)
  modifies startN, startErr
  ensures one: startN == old(startN) + 1 && startErr == err

pred passedOn(r: *runner, k: int) = 0 <= fwd[k] && fwd[k] < sdN && sdRd[fwd[k]] == k + 1 && sdID[fwd[k]] == rdID[k] && sdTarget[fwd[k]] == rdTarget[k] && sdText[fwd[k]] == rdText[k] && sdTask[fwd[k]] == rdTask[k]
pred toTarget(r: *runner, n: int) = chTarget[sdCh[n]] == vals(r.targets)[sdTarget[n]] && sdTarget[n] in r.targets

func internal/runbook.(*runner).startTargets(r) (err)
  props P06 P07
  requires in: r != nil && r.log != nil && r.ended != nil && (forall k: string :: k in r.targets ==> vals(r.targets)[k] != nil)
  modifies goN, chTarget, startN, startErr
  ensures failed: err != nil ==> startN > old(startN) && startErr != nil
  ensures started: err == nil ==> startN == old(startN) || startErr == nil
  ensures why: err != nil ==> err == startErr
  ensures all: err == nil ==> startN == old(startN) + card(dom(r.targets))
  ensures one: err == nil ==> goN == old(goN) + card(dom(r.targets)) + 1
  goensures end: rdEnd
  goensures forwarded: startN == old(startN) || startErr == nil ==> (forall k: int :: 0 <= k && k < rdN && rdTarget[k] in r.targets ==> passedOn(r, k))
  goensures once: forall n: int :: 0 <= n && n < sdN ==> 0 < sdRd[n] && sdRd[n] <= rdN && fwd[sdRd[n] - 1] == n
  goensures own: forall n: int :: 0 <= n && n < sdN ==> toTarget(r, n)
  inv started for (it: iter(types.Targets)): startN == old(startN) + card(seen(it))
  inv went for (it: iter(types.Targets)): goN == old(goN) + card(seen(it))
  inv noerr: startN == old(startN) || startErr == nil
  inv errnil for (e: phi error): e == nil
  inv chs for (m: map[TargetID]chan<- *readyMsg, it: iter(types.Targets)): dom(m) == seen(it)
  inv chto for (m: map[TargetID]chan<- *readyMsg): forall q: TargetID :: q in m ==> q in r.targets && chTarget[ref(vals(m)[q])] == vals(r.targets)[q]
  inv chnew for (m: map[TargetID]chan<- *readyMsg): forall q: TargetID :: q in m ==> ref(vals(m)[q]) < curalloc() && vals(m)[q] != nil
  inv counts: 0 <= sdN && 0 <= rdN
  inv forwarded: forall k: int :: 0 <= k && k < rdN && rdTarget[k] in r.targets ==> passedOn(r, k)
  inv once: forall n: int :: 0 <= n && n < sdN ==> 0 < sdRd[n] && sdRd[n] <= rdN
  inv once2: forall n: int :: 0 <= n && n < sdN ==> fwd[sdRd[n] - 1] == n
  inv own: forall n: int :: 0 <= n && n < sdN ==> toTarget(r, n)

// ---------------------------------------------------------------- scheduling

// tasks reported done, tasks sent, tasks sent and not yet reported
ghost doneIDs: set[string] thread
ghost doneEnd: bool thread
ghost sentIDs: set[string] thread
ghost inFlight: set[string] thread
ghost sdDone: tmap[int]set[string] thread

// only tasks that were sent and not reported yet are reported (what run and the targets do)
extern recv:runbook.TaskID(ch) (id, ok)
  modifies doneIDs, doneEnd, inFlight
  ensures one: ok ==> id in old(inFlight) && inFlight == setdel(old(inFlight), id) && doneIDs == setadd(old(doneIDs), id) && doneEnd == old(doneEnd)
  ensures end: !ok ==> doneEnd && inFlight == old(inFlight) && doneIDs == old(doneIDs)

pred refusal(tasks: types.Tasks, err: error) = (typeis(err, *dag.InvalidEdgeError) || typeis(err, *dag.CircularDependencyError))
  && (typeis(err, *dag.InvalidEdgeError) ==> as(err, *dag.InvalidEdgeError).Node in tasks && as(err, *dag.InvalidEdgeError).Edge in vals(tasks)[as(err, *dag.InvalidEdgeError).Node].After && !(as(err, *dag.InvalidEdgeError).Edge in tasks))
  && (typeis(err, *dag.CircularDependencyError) ==> len(as(err, *dag.CircularDependencyError).Cycle) > 0 && (forall i in as(err, *dag.CircularDependencyError).Cycle :: as(err, *dag.CircularDependencyError).Cycle[i] in tasks)
      && (forall i in as(err, *dag.CircularDependencyError).Cycle :: i > 0 ==> as(err, *dag.CircularDependencyError).Cycle[i - 1] in vals(tasks)[as(err, *dag.CircularDependencyError).Cycle[i]].After) && as(err, *dag.CircularDependencyError).Cycle[len(as(err, *dag.CircularDependencyError).Cycle) - 1] in vals(tasks)[as(err, *dag.CircularDependencyError).Cycle[0]].After)

// the dependencies lead to tasks and have an order
pred orderly(tasks: types.Tasks) = forall k: string, m: string :: k in tasks && m in vals(tasks)[k].After ==> m in tasks && lastRank[m] < lastRank[k]

pred runnerOK(r: *runner) = r != nil && r.log != nil && r.done != nil && r.ended != nil && r.ready != nil
  && (forall k: string :: k in r.targets ==> vals(r.targets)[k] != nil) && (forall k: string :: k in r.tasks ==> vals(r.tasks)[k] != nil)

// handed out by the scheduler, but not sent yet
pred declared(r: *runner, n: int) = sdID[n] in r.tasks && sdTarget[n] == vals(r.tasks)[sdID[n]].Target && sdTask[n] == vals(r.tasks)[sdID[n]].Config && sdText[n] == vals(r.tasks)[sdID[n]].Message && sdCh[n] == ref(r.ready)

pred sameTasks(r: *runner, s: *scheduler.Scheduler) = dom(s.tasks) == dom(r.tasks) && (forall k: string :: k in r.tasks ==> vals(s.tasks)[k] == vals(r.tasks)[k].Target) && (forall k: string, m: string :: k in r.tasks ==> (m in dgEdges[s.deps][k] <==> m in vals(r.tasks)[k].After))

pred late(r: *runner, b: map[string][]string, x: string) = handed(b, vals(r.tasks)[x].Target, x)

func internal/runbook.(*runner).startScheduler(r) (err)
  props P06
  requires ok: runnerOK(r)
  modifies goN, dgCells[new], dgPend[new], dgEdges[new], dgNodes[new], dgDone[new], schOut[new], schRun[new], lastRank
  ensures refused: err != nil ==> refusal(r.tasks, err)
  ensures orderly: err == nil ==> orderly(r.tasks)
  ensures one: err == nil ==> goN == old(goN) + 1
  goensures declared: forall n: int :: 0 <= n && n < sdN ==> declared(r, n)
  goensures after: forall n: int, m: string :: 0 <= n && n < sdN && m in vals(r.tasks)[sdID[n]].After ==> m in sdDone[n]
  goensures once: forall n: int, p: int :: 0 <= p && p < n && n < sdN ==> sdID[p] != sdID[n]
  goensures all: doneEnd || card(inFlight) == 0 || (forall x: string :: x in r.tasks ==> x in sentIDs)
  inv counts: sdN >= 0
  inv sch for (s: phi *scheduler.Scheduler): schOK(s)
  inv same for (s: phi *scheduler.Scheduler): sameTasks(r, s)
  inv own for (s: phi *scheduler.Scheduler, b: phi map[string][]string): forall q: string, x: string :: handed(b, q, x) ==> x in r.tasks && vals(r.tasks)[x].Target == q && x in schOut[s] && x in schRun[s][q]
  inv dist for (b: phi map[string][]string): forall q: string :: q in b ==> distinct(vals(b)[q])
  inv pre for (s: phi *scheduler.Scheduler, b: phi map[string][]string): forall q: string, x: string, m: string :: handed(b, q, x) && m in vals(r.tasks)[x].After ==> m in dgDone[s.deps]
  inv dones for (s: phi *scheduler.Scheduler): forall x: string :: x in dgDone[s.deps] <==> x in doneIDs
  inv declared: forall n: int :: 0 <= n && n < sdN ==> declared(r, n)
  inv after: forall n: int, m: string :: 0 <= n && n < sdN && m in vals(r.tasks)[sdID[n]].After ==> m in sdDone[n]
  inv once: forall n: int, p: int :: 0 <= p && p < n && n < sdN ==> sdID[p] != sdID[n]
  inv sent: forall n: int :: 0 <= n && n < sdN ==> sdID[n] in sentIDs
  inv running for (n: phi int): n == card(inFlight)
  // what was handed out is sent, except for the current batch
  inv fl: forall x: string :: x in inFlight <==> x in sentIDs && !(x in doneIDs)
  inv run for (s: phi *scheduler.Scheduler): forall x: string :: x in r.tasks ==> (x in schRun[s][vals(r.tasks)[x].Target] <==> x in schOut[s] && !(x in doneIDs))
  inv real for (s: phi *scheduler.Scheduler): forall x: string :: x in sentIDs ==> x in schOut[s]
  inv outera for (s: phi *scheduler.Scheduler, b: phi map[string][]string): forall q: string, x: string :: handed(b, q, x) ==> !(x in sentIDs)
  inv outerd for (s: phi *scheduler.Scheduler, b: phi map[string][]string): forall x: string :: x in schOut[s] && !late(r, b, x) ==> x in sentIDs
  inv mida over type(map[string][]string) for (s: phi *scheduler.Scheduler, b: phi map[string][]string, it: iter(map[string][]string)): forall q: string, x: string :: handed(b, q, x) && !(q in seen(it)) ==> !(x in sentIDs)
  inv midd over type(map[string][]string) for (s: phi *scheduler.Scheduler, b: phi map[string][]string, it: iter(map[string][]string)): forall x: string :: x in schOut[s] && !(late(r, b, x) && !(vals(r.tasks)[x].Target in seen(it))) ==> x in sentIDs
  inv innera over type([]string) for (b: phi map[string][]string, it: iter(map[string][]string)): forall q: string, x: string :: handed(b, q, x) && !(q in seen(it)) ==> !(x in sentIDs)
  inv innerb over type([]string) for (l: []string, k: idx): forall i in l :: i < k ==> l[i] in sentIDs
  inv innerc over type([]string) for (l: []string, k: idx): forall i in l :: i >= k ==> !(l[i] in sentIDs)
  inv innerd over type([]string) for (s: phi *scheduler.Scheduler, b: phi map[string][]string, it: iter(map[string][]string)): forall x: string :: x in schOut[s] && !(late(r, b, x) && (!(vals(r.tasks)[x].Target in seen(it)) || vals(r.tasks)[x].Target == cur(it))) ==> x in sentIDs
