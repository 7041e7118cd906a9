package internal/runbook/demo

// how long the process slept, in nanoseconds
ghost slept: int

extern time.Sleep(d) ()
  modifies slept
  ensures passed: slept == old(slept) + max0(d)

pred max0(d: int) = d > 0 ? d : 0

pred validRune(r: int) = 0 <= r && r < 55296 || 57344 <= r && r <= 1114111

// the letter 13 places on
pred rot(r: int) = 97 <= r && r <= 122 ? (r <= 109 ? r + 13 : r - 13) : (65 <= r && r <= 90 ? (r <= 77 ? r + 13 : r - 13) : r)

// b has the characters of a in opposite order; those of a, each 13 places on
pred reversed(a: string, b: string) = runelen(b) == runelen(a) && (forall i: int :: 0 <= i && i < runelen(a) ==> runeat(b, i) == runeat(a, runelen(a) - 1 - i))
pred rotated(a: string, b: string) = runelen(b) == runelen(a) && (forall i: int :: 0 <= i && i < runelen(a) ==> runeat(b, i) == rot(runeat(a, i)))

func internal/runbook/demo.(*Echo).munge(x, t) (err)
  props P23
  requires t: x != nil && t != nil
  modifies text(t.stdout)
  ensures printed: err == nil ==> text(t.stdout) == old(text(t.stdout)) + t.String + "\n"
  ensures some: hasPrefix(text(t.stdout), old(text(t.stdout)))
  ensures same: t.String == old(t.String)

func internal/runbook/demo.(*Fail).munge(x, t) (err)
  props P23
  requires t: x != nil && t != nil
  modifies nothing
  ensures fails: err != nil

func internal/runbook/demo.(*Rev).munge(x, t) (err)
  props P23
  requires t: x != nil && t != nil
  modifies t.String
  ensures reversed: err == nil && reversed(old(t.String), t.String)
  inv len for (s: []rune): len(s) == old(runelen(t.String))
  inv valid for (s: []rune): forall i in s :: validRune(s[i])
  inv same: t.String == old(t.String)
  inv ends for (k: phi int, s: []rune): k >= 0 && (forall i in s :: i < k || i >= len(s) - k ==> s[i] == runeat(t.String, len(s) - 1 - i))
  inv middle for (k: phi int, s: []rune): forall i in s :: k <= i && i < len(s) - k ==> s[i] == runeat(t.String, i)
  inv sum for (k: phi int, j: phi int, s: []rune): k + j == len(s) - 1

func internal/runbook/demo.(*Rot13).munge(x, t) (err)
  props P23
  requires t: x != nil && t != nil
  modifies t.String
  ensures rotated: err == nil && rotated(old(t.String), t.String)
  inv len for (s: []rune): len(s) == old(runelen(t.String))
  inv valid for (s: []rune): forall i in s :: validRune(s[i])
  inv same: t.String == old(t.String)
  inv done for (k: idx, s: []rune): forall i in s :: i < k ==> s[i] == rot(runeat(t.String, i))
  inv todo for (k: idx, s: []rune): forall i in s :: i >= k ==> s[i] == runeat(t.String, i)
  inv done2 for (k: phi int, s: []rune): k >= 0 && (forall i in s :: i < k ==> s[i] == rot(runeat(t.String, i)))
  inv todo2 for (k: phi int, s: []rune): forall i in s :: i >= k ==> s[i] == runeat(t.String, i)

func internal/runbook/demo.(*Sleep).munge(x, t) (err)
  props P23
  requires t: x != nil && t != nil && x.Seconds >= 1
  modifies slept
  ensures sleeps: err == nil && slept >= old(slept) + 1000000000

func internal/runbook/demo.(*Sleep).Check(x) (err)
  props P23
  requires x: x != nil
  modifies x.Seconds
  ensures ok: err == nil && x.Seconds >= 1 && (old(x.Seconds) >= 1 ==> x.Seconds == old(x.Seconds))

func internal/runbook/demo.(*Echo).Check(x) (err)
  props P23
  modifies nothing
  ensures ok: err == nil

func internal/runbook/demo.(*Fail).Check(x) (err)
  props P23
  modifies nothing
  ensures ok: err == nil

func internal/runbook/demo.(*Rev).Check(x) (err)
  props P23
  modifies nothing
  ensures ok: err == nil

func internal/runbook/demo.(*Rot13).Check(x) (err)
  props P23
  modifies nothing
  ensures ok: err == nil

func internal/runbook/demo.(*Target).Handle(t, ctx, task) (err)
  props P23
  requires t: t != nil && (typeis(task, *Echo) ==> as(task, *Echo) != nil) && (typeis(task, *Fail) ==> as(task, *Fail) != nil) && (typeis(task, *Rev) ==> as(task, *Rev) != nil) && (typeis(task, *Rot13) ==> as(task, *Rot13) != nil) && (typeis(task, *Sleep) ==> as(task, *Sleep) != nil) && (typeis(task, *Sleep) ==> as(task, *Sleep).Seconds >= 1)
  modifies t.String, text(t.stdout), slept
  ensures refused: !(typeis(task, *Echo) || typeis(task, *Fail) || typeis(task, *Rev) || typeis(task, *Rot13) || typeis(task, *Sleep)) ==> err != nil && t.String == old(t.String) && text(t.stdout) == old(text(t.stdout)) && slept == old(slept)
  ensures echo: typeis(task, *Echo) ==> t.String == old(t.String) && (err == nil ==> text(t.stdout) == old(text(t.stdout)) + t.String + "\n")
  ensures fail: typeis(task, *Fail) ==> err != nil && t.String == old(t.String)
  ensures rev: typeis(task, *Rev) ==> err == nil && reversed(old(t.String), t.String)
  ensures rot13: typeis(task, *Rot13) ==> err == nil && rotated(old(t.String), t.String)
  ensures sleep: typeis(task, *Sleep) ==> err == nil && t.String == old(t.String) && slept >= old(slept) + 1000000000
  ensures silent: !typeis(task, *Echo) ==> text(t.stdout) == old(text(t.stdout))


func internal/runbook/demo.(*Target).NewTaskConfig(t, class) (r, err)
  props P23
  modifies nothing
  ensures echo: class == "echo" ==> err == nil && typeis(r, *Echo) && fresh(as(r, *Echo))
  ensures fail: class == "fail" ==> err == nil && typeis(r, *Fail) && fresh(as(r, *Fail))
  ensures rev: class == "rev" ==> err == nil && typeis(r, *Rev) && fresh(as(r, *Rev))
  ensures rot13: class == "rot13" ==> err == nil && typeis(r, *Rot13) && fresh(as(r, *Rot13))
  ensures sleep: class == "sleep" ==> err == nil && typeis(r, *Sleep) && fresh(as(r, *Sleep))
  ensures refused: class != "echo" && class != "fail" && class != "rev" && class != "rot13" && class != "sleep" ==> err != nil

package internal/taskset/demo

// the mutexes that are held
ghost held: set[*sync.Mutex]

extern sync.(*Mutex).Lock(m)
  requires free: m != nil && !(m in held)
  modifies held
  ensures locked: held == setadd(old(held), m)

extern sync.(*Mutex).Unlock(m)
  requires locked: m != nil && m in held
  modifies held
  ensures free: held == setdel(old(held), m)

func internal/taskset/demo.(*Echo).exec(x, t) (err)
  props P23
  requires t: x != nil && t != nil && !(&t.Mutex in held)
  modifies text(t.stdout), held
  ensures printed: err == nil ==> text(t.stdout) == old(text(t.stdout)) + t.String + "\n"
  ensures some: hasPrefix(text(t.stdout), old(text(t.stdout)))
  ensures same: t.String == old(t.String)
  ensures unlocked: !(&t.Mutex in held)

func internal/taskset/demo.(*Fail).exec(x, t) (err)
  props P23
  requires t: x != nil && t != nil && !(&t.Mutex in held)
  modifies held
  ensures fails: err != nil
  ensures unlocked: !(&t.Mutex in held)

func internal/taskset/demo.(*Rev).exec(x, t) (err)
  props P23
  requires t: x != nil && t != nil && !(&t.Mutex in held)
  modifies t.String, held
  ensures reversed: err == nil && reversed(old(t.String), t.String)
  ensures unlocked: !(&t.Mutex in held)
  inv len for (s: []rune): len(s) == old(runelen(t.String))
  inv valid for (s: []rune): forall i in s :: validRune(s[i])
  inv same: t.String == old(t.String)
  inv ends for (k: phi int, s: []rune): k >= 0 && (forall i in s :: i < k || i >= len(s) - k ==> s[i] == runeat(t.String, len(s) - 1 - i))
  inv middle for (k: phi int, s: []rune): forall i in s :: k <= i && i < len(s) - k ==> s[i] == runeat(t.String, i)
  inv sum for (k: phi int, j: phi int, s: []rune): k + j == len(s) - 1

func internal/taskset/demo.(*Rot13).exec(x, t) (err)
  props P23
  requires t: x != nil && t != nil && !(&t.Mutex in held)
  modifies t.String, held
  ensures rotated: err == nil && rotated(old(t.String), t.String)
  ensures unlocked: !(&t.Mutex in held)
  inv len for (s: []rune): len(s) == old(runelen(t.String))
  inv valid for (s: []rune): forall i in s :: validRune(s[i])
  inv same: t.String == old(t.String)
  inv done for (k: idx, s: []rune): forall i in s :: i < k ==> s[i] == rot(runeat(t.String, i))
  inv todo for (k: idx, s: []rune): forall i in s :: i >= k ==> s[i] == runeat(t.String, i)
  inv done2 for (k: phi int, s: []rune): k >= 0 && (forall i in s :: i < k ==> s[i] == rot(runeat(t.String, i)))
  inv todo2 for (k: phi int, s: []rune): forall i in s :: i >= k ==> s[i] == runeat(t.String, i)

func internal/taskset/demo.(*Sleep).exec(x, t) (err)
  props P23
  requires t: x != nil && t != nil && !(&t.Mutex in held) && x.Seconds >= 1
  modifies slept, held
  ensures sleeps: err == nil && slept >= old(slept) + 1000000000
  ensures unlocked: !(&t.Mutex in held)

func internal/taskset/demo.(*Sleep).Ready(x) (err)
  props P23
  requires x: x != nil
  modifies x.Seconds
  ensures ok: err == nil && x.Seconds >= 1 && (old(x.Seconds) >= 1 ==> x.Seconds == old(x.Seconds))

func internal/taskset/demo.(*Echo).Ready(x) (err)
  props P23
  modifies nothing
  ensures ok: err == nil

func internal/taskset/demo.(*Fail).Ready(x) (err)
  props P23
  modifies nothing
  ensures ok: err == nil

func internal/taskset/demo.(*Rev).Ready(x) (err)
  props P23
  modifies nothing
  ensures ok: err == nil

func internal/taskset/demo.(*Rot13).Ready(x) (err)
  props P23
  modifies nothing
  ensures ok: err == nil

func internal/taskset/demo.(*Target).Run(t, ctx, task) (err)
  props P23
  requires t: t != nil && !(&t.Mutex in held) && (typeis(task, *Echo) ==> as(task, *Echo) != nil) && (typeis(task, *Fail) ==> as(task, *Fail) != nil) && (typeis(task, *Rev) ==> as(task, *Rev) != nil) && (typeis(task, *Rot13) ==> as(task, *Rot13) != nil) && (typeis(task, *Sleep) ==> as(task, *Sleep) != nil) && (typeis(task, *Sleep) ==> as(task, *Sleep).Seconds >= 1)
  modifies t.String, text(t.stdout), slept, held
  ensures refused: !(typeis(task, *Echo) || typeis(task, *Fail) || typeis(task, *Rev) || typeis(task, *Rot13) || typeis(task, *Sleep)) ==> err != nil && t.String == old(t.String) && text(t.stdout) == old(text(t.stdout)) && slept == old(slept)
  ensures echo: typeis(task, *Echo) ==> t.String == old(t.String) && (err == nil ==> text(t.stdout) == old(text(t.stdout)) + t.String + "\n")
  ensures fail: typeis(task, *Fail) ==> err != nil && t.String == old(t.String)
  ensures rev: typeis(task, *Rev) ==> err == nil && reversed(old(t.String), t.String)
  ensures rot13: typeis(task, *Rot13) ==> err == nil && rotated(old(t.String), t.String)
  ensures sleep: typeis(task, *Sleep) ==> err == nil && t.String == old(t.String) && slept >= old(slept) + 1000000000
  ensures silent: !typeis(task, *Echo) ==> text(t.stdout) == old(text(t.stdout))
  ensures unlocked: !(&t.Mutex in held)

func internal/taskset/demo.(*Target).NewTask(t, class) (r, err)
  props P23 P27
  ensures settable: err == nil ==> r != nil && typeis(r, interface{ SetDependencies(after, provide, require []string) })
  modifies nothing
  ensures echo: class == "echo" ==> err == nil && typeis(r, *Echo) && fresh(as(r, *Echo))
  ensures fail: class == "fail" ==> err == nil && typeis(r, *Fail) && fresh(as(r, *Fail))
  ensures rev: class == "rev" ==> err == nil && typeis(r, *Rev) && fresh(as(r, *Rev))
  ensures rot13: class == "rot13" ==> err == nil && typeis(r, *Rot13) && fresh(as(r, *Rot13))
  ensures sleep: class == "sleep" ==> err == nil && typeis(r, *Sleep) && fresh(as(r, *Sleep))
  ensures refused: class != "echo" && class != "fail" && class != "rev" && class != "rot13" && class != "sleep" ==> err != nil

