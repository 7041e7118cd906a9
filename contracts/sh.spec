package internal/runbook/sh

// ---------------------------------------------------------------- environment filtering

// the name of an environment entry
pred envKey(kv: string) = indexOf(kv, "=") > 0 ? kv[:indexOf(kv, "=")] : kv

// an inherited entry is replaced or kept
pred envStays(e: *Env, kv: string) = envKey(kv) in e.Set || len(e.Allow) > 0 && envKey(kv) in e.Allow || len(e.Allow) == 0 && !(envKey(kv) in e.Deny)

pred envOut(e: *Env, kv: string) = envKey(kv) in e.Set ? envKey(kv) + "=" + vals(e.Set)[envKey(kv)] : kv

func internal/runbook/sh.(*Env).Apply(e, environ) (r)
  props P09 P10
  requires e: e != nil
  modifies nothing
  opt retry on
  let K = setof(kv: string :: envStays(e, kv))
  let I = setof(k: string :: exists i in environ :: envKey(environ[i]) == k)
  let N = count(K, environ, len(environ))
  let A = setof(k: string :: k in e.Allow)
  let D = setof(k: string :: k in e.Deny)
  ensures own: r != nil && fresh(r)
  ensures inherited: len(r) >= N && old(forall i in environ :: environ[i] in K ==> count(K, environ, i) < N && now(r[old(count(K, environ, i))]) == envOut(e, environ[i]))
  ensures appended: (forall k: string :: k in e.Set && !(k in I) ==> k + "=" + vals(e.Set)[k] in r)
  ensures others: forall i in r :: i >= N ==> (exists k: string :: k in e.Set && !(k in I) && r[i] == k + "=" + vals(e.Set)[k])
  ensures once: len(r) == N + card(minus(dom(e.Set), I))
  // the lists as sets
  inv allow over e.Allow for (m: map[string]struct{}, k: idx): (forall x: string :: x in m ==> x in A) && old(forall i in e.Allow :: i < k ==> now(old(e.Allow[i]) in m)) && (k > 0 ==> old(e.Allow[0]) in m)
  inv deny over e.Deny for (m: map[string]struct{}, k: idx): (forall x: string :: x in m ==> x in D) && old(forall i in e.Deny :: i < k ==> now(old(e.Deny[i]) in m))
  inv set over e.Set for (m: map[string]string, it: iter(map[string]string)): dom(m) == seen(it) && (forall x: string :: x in m ==> x in e.Set && vals(m)[x] == x + "=" + old(vals(e.Set)[x]))
  // the inherited entries
  inv len over environ for (s: phi []string, k: idx): len(s) == old(count(K, environ, k))
  inv out over environ for (s: phi []string, k: idx): old(forall i in environ :: i < k && environ[i] in K ==> count(K, environ, i) < now(len(s)) && now(s[old(count(K, environ, i))]) == envOut(e, environ[i]))
  inv upd over environ for (m: map[string]struct{}, k: idx): (forall x: string :: x in m ==> x in old(e.Set) && x in I) && old(forall i in environ :: i < k && envKey(environ[i]) in e.Set ==> now(old(envKey(environ[i])) in m))
  // the others
  inv keep over not environ for (s: phi []string): len(s) >= N && old(forall i in environ :: environ[i] in K ==> count(K, environ, i) < N && now(s[old(count(K, environ, i))]) == envOut(e, environ[i]))
  inv len2 over not environ for (s: phi []string, it: iter(map[string]string)): len(s) == N + card(minus(seen(it), I))
  inv add over not environ for (s: phi []string, it: iter(map[string]string)): forall x: string :: x in seen(it) && !(x in I) ==> x + "=" + old(vals(e.Set)[x]) in s
  inv add2 over not environ for (s: phi []string, it: iter(map[string]string)): forall i in s :: i >= N ==> (exists x: string :: x in seen(it) && !(x in I) && s[i] == x + "=" + old(vals(e.Set)[x]))

// ---------------------------------------------------------------- commands

// what the operating system was asked to run last, and how often it was asked
ghost osCmdName: tmap[*exec.Cmd]string
ghost osCmdArgs: tmap[*exec.Cmd][]string
ghost osRuns: int
ghost osLast: *exec.Cmd
ghost osDir: string
ghost osEnv: []string
ghost osStdin: io.Reader
ghost osStdout: io.Writer
ghost osStderr: io.Writer
ghost osErr: error

extern os/exec.CommandContext(ctx, name, arg) (cmd)
  modifies osCmdName[new], osCmdArgs[new]
  ensures new: cmd != nil && fresh(cmd) && cmd.Stdin == nil
  ensures args: osCmdName[cmd] == name && osCmdArgs[cmd] == arg

extern os/exec.(*Cmd).Run(c) (err)
  requires c: c != nil
  modifies osRuns, osLast, osDir, osEnv, osStdin, osStdout, osStderr, osErr
  ensures run: osRuns == old(osRuns) + 1 && osLast == c && osDir == c.Dir && osEnv == c.Env && osStdin == c.Stdin && osStdout == c.Stdout && osStderr == c.Stderr && osErr == err

ghost osEnviron: []string

extern os.Environ() (r)
  modifies osEnviron
  ensures new: fresh(r) && osEnviron == r

// r is what the rules of e make of environ
pred envKeeps(e: *Env) = setof(kv: string :: envStays(e, kv))
pred envNames(environ: []string) = setof(k: string :: exists i in environ :: envKey(environ[i]) == k)
pred envFirst(e: *Env, environ: []string, r: []string) = forall i in environ :: environ[i] in envKeeps(e) ==> count(envKeeps(e), environ, i) < count(envKeeps(e), environ, len(environ)) && r[count(envKeeps(e), environ, i)] == envOut(e, environ[i])
pred envAdded(e: *Env, environ: []string, r: []string) = forall k: string :: k in e.Set && !(k in envNames(environ)) ==> k + "=" + vals(e.Set)[k] in r
pred envRest(e: *Env, environ: []string, r: []string) = forall i in r :: i >= count(envKeeps(e), environ, len(environ)) ==> (exists k: string :: k in e.Set && !(k in envNames(environ)) && r[i] == k + "=" + vals(e.Set)[k])
pred envOnce(e: *Env, environ: []string, r: []string) = len(r) == count(envKeeps(e), environ, len(environ)) + card(minus(dom(e.Set), envNames(environ)))

func internal/runbook/sh.(*Exec).exec(x, ctx, t) (err)
  props P10
  requires x: x != nil && t != nil && len(x.Args) > 0
  modifies osRuns, osLast, osDir, osEnv, osStdin, osStdout, osStderr, osErr, osCmdName[new], osCmdArgs[new]
  ensures once: osRuns == old(osRuns) + 1 && err == osErr
  ensures command: osCmdName[osLast] == x.Args[0] && len(osCmdArgs[osLast]) == len(x.Args) - 1 && (forall i in osCmdArgs[osLast] :: osCmdArgs[osLast][i] == x.Args[i + 1])
  ensures place: osDir == t.basedir && osStdin == nil && osStdout == t.stdout && osStderr == t.stderr
  ensures environ1: osEnv != nil && envFirst(&x.Env, t.environ, osEnv)
  ensures environ2: envAdded(&x.Env, t.environ, osEnv)
  ensures environ3: envRest(&x.Env, t.environ, osEnv)
  ensures environ4: envOnce(&x.Env, t.environ, osEnv)

func internal/runbook/sh.(*Target).Start(t) (err)
  props P10
  requires t: t != nil
  modifies t.environ, osEnviron
  ensures ok: err == nil
  ensures environ1: t.environ != nil && envFirst(&t.Env, osEnviron, t.environ)
  ensures environ2: envAdded(&t.Env, osEnviron, t.environ)
  ensures environ3: envRest(&t.Env, osEnviron, t.environ)
  ensures environ4: envOnce(&t.Env, osEnviron, t.environ)

func internal/runbook/sh.(*Target).Handle(t, ctx, task) (err)
  props P10
  requires t: t != nil && (typeis(task, *Exec) ==> as(task, *Exec) != nil && len(as(task, *Exec).Args) > 0)
  modifies osRuns, osLast, osDir, osEnv, osStdin, osStdout, osStderr, osErr, osCmdName[new], osCmdArgs[new]
  ensures other: !typeis(task, *Exec) ==> err != nil && osRuns == old(osRuns)
  ensures once: typeis(task, *Exec) ==> osRuns == old(osRuns) + 1 && err == osErr

func internal/runbook/sh.(*Target).NewTaskConfig(t, class) (cfg, err)
  props P10
  modifies nothing
  ensures known: (err == nil) == (class == "" || class == "exec")
  ensures new: err == nil ==> typeis(cfg, *Exec) && fresh(as(cfg, *Exec)) && len(as(cfg, *Exec).Args) == 0 && len(as(cfg, *Exec).Env.Allow) == 0 && len(as(cfg, *Exec).Env.Deny) == 0

func internal/runbook/sh.(*TargetFactory).NewTarget(f) (r)
  props P10
  requires f: f != nil
  modifies nothing
  ensures new: typeis(r, *Target) && fresh(as(r, *Target))
  ensures place: as(r, *Target).basedir == f.Basedir && as(r, *Target).stdout == f.Stdout && as(r, *Target).stderr == f.Stderr && as(r, *Target).Concurrency == 1

pred validCommand(s: string) = !contains(s, "/") || hasPrefix(s, "/") || hasPrefix(s, "./") || hasPrefix(s, "../")

func internal/runbook/sh.validateArg0(arg0) (err)
  props P10
  modifies nothing
  ensures valid: (err == nil) == validCommand(arg0)

func internal/runbook/sh.(*Exec).Check(x) (err)
  props P10
  requires x: x != nil
  modifies nothing
  ensures valid: (err == nil) == (len(x.Args) > 0 && validCommand(x.Args[0]))

func internal/runbook/sh.(*Target).Analyze(t) (err)
  props P10
  requires t: t != nil
  modifies nothing
  ensures valid: (err == nil) == (t.Concurrency >= 1)
