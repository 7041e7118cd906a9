package internal/taskset/base

// ---------------------------------------------------------------- dependencies of loaded tasks

func internal/taskset/base.(*Task).SetDependencies(t, after, provide, require)
  props P27
  requires t: t != nil
  modifies t.After, t.Provide, t.Require
  ensures given: t.After == after && t.Provide == provide && t.Require == require

func internal/taskset/base.(*Task).Provides(t) (r)
  props P27
  requires t: t != nil
  modifies nothing
  ensures r: r == t.Provide

func internal/taskset/base.(*Task).Dependencies(t) (r)
  props P27
  requires t: t != nil
  modifies nothing
  ensures count: len(r) == len(t.After) + len(t.Require)
  ensures after: forall i in t.After :: r[i] == "task:" + t.After[i]
  ensures require: forall i in t.Require :: r[len(t.After) + i] == t.Require[i]
  inv count for (s: phi []string, k: idx): len(s) == k
  inv new for (s: phi []string): fresh(s)
  inv after for (s: phi []string, k: idx): forall i in t.After :: i < k ==> s[i] == "task:" + t.After[i]

func internal/taskset/pg.(*Target).NewTask(t, typ) (r, err)
  props P27
  modifies nothing
  ensures made: err == nil && r != nil && fresh(r) && typeis(r, interface{ SetDependencies(after, provide, require []string) })

func internal/taskset/sh.(*Target).NewTask(t, typ) (r, err)
  props P27
  modifies nothing
  ensures made: err == nil && r != nil && fresh(r) && typeis(r, interface{ SetDependencies(after, provide, require []string) })

func internal/taskset/demo.(*TargetFactory).NewTarget(f) (t)
  props P27
  requires f: f != nil
  modifies nothing
  ensures new: t != nil && fresh(t)

func internal/taskset/pg.(*TargetFactory).NewTarget(f) (t)
  props P27
  requires f: f != nil
  modifies nothing
  ensures new: t != nil && fresh(t)

func internal/taskset/sh.(*TargetFactory).NewTarget(f) (t)
  props P27
  requires f: f != nil
  modifies nothing
  ensures new: t != nil && fresh(t)
