package internal/ddl

// ---------------------------------------------------------------- storage parameters

fun isInt(string) bool
fun intOf(string) int
fun isBool(string) bool
fun boolOf(string) bool
fun isFloat(string) bool
fun floatOf(string) float64

extern strconv.Atoi(s) (n, err)
  modifies nothing
  ensures (err == nil) == isInt(s) && (isInt(s) ==> n == intOf(s))

extern strconv.ParseBool(s) (b, err)
  modifies nothing
  ensures (err == nil) == isBool(s) && (isBool(s) ==> b == boolOf(s))

extern strconv.ParseFloat(s, bits) (f, err)
  modifies nothing
  ensures bits == 64 ==> (err == nil) == isFloat(s) && (isFloat(s) ==> f == floatOf(s))

func internal/ddl.(*TableStorageParameters).Set(p, key, value) (err)
  props P21
  requires p: p != nil
  modifies obj(p)
  ensures fillfactor: key == "fillfactor" && isInt(value) ==> err == nil && p.Fillfactor != nil && fresh(p.Fillfactor) && *p.Fillfactor == intOf(value)
  ensures fillfactor_only: !(key == "fillfactor" && isInt(value)) ==> p.Fillfactor == old(p.Fillfactor)
  ensures fillfactor_bad: key == "fillfactor" && !isInt(value) ==> err != nil
  ensures parallel_workers: key == "parallel_workers" && isInt(value) ==> err == nil && p.ParallelWorkers != nil && fresh(p.ParallelWorkers) && *p.ParallelWorkers == intOf(value)
  ensures parallel_workers_only: !(key == "parallel_workers" && isInt(value)) ==> p.ParallelWorkers == old(p.ParallelWorkers)
  ensures parallel_workers_bad: key == "parallel_workers" && !isInt(value) ==> err != nil
  ensures autovacuum_enabled: key == "autovacuum_enabled" && isBool(value) ==> err == nil && p.AutovacuumEnabled != nil && fresh(p.AutovacuumEnabled) && *p.AutovacuumEnabled == boolOf(value)
  ensures autovacuum_enabled_only: !(key == "autovacuum_enabled" && isBool(value)) ==> p.AutovacuumEnabled == old(p.AutovacuumEnabled)
  ensures autovacuum_enabled_bad: key == "autovacuum_enabled" && !isBool(value) ==> err != nil
  ensures autovacuum_vacuum_threshold: key == "autovacuum_vacuum_threshold" && isInt(value) ==> err == nil && p.AutovacuumVacuumThreshold != nil && fresh(p.AutovacuumVacuumThreshold) && *p.AutovacuumVacuumThreshold == intOf(value)
  ensures autovacuum_vacuum_threshold_only: !(key == "autovacuum_vacuum_threshold" && isInt(value)) ==> p.AutovacuumVacuumThreshold == old(p.AutovacuumVacuumThreshold)
  ensures autovacuum_vacuum_threshold_bad: key == "autovacuum_vacuum_threshold" && !isInt(value) ==> err != nil
  ensures autovacuum_vacuum_scale_factor: key == "autovacuum_vacuum_scale_factor" && isFloat(value) ==> err == nil && p.AutovacuumVacuumScaleFactor != nil && fresh(p.AutovacuumVacuumScaleFactor) && *p.AutovacuumVacuumScaleFactor == floatOf(value)
  ensures autovacuum_vacuum_scale_factor_only: !(key == "autovacuum_vacuum_scale_factor" && isFloat(value)) ==> p.AutovacuumVacuumScaleFactor == old(p.AutovacuumVacuumScaleFactor)
  ensures autovacuum_vacuum_scale_factor_bad: key == "autovacuum_vacuum_scale_factor" && !isFloat(value) ==> err != nil
  ensures autovacuum_analyze_threshold: key == "autovacuum_analyze_threshold" && isInt(value) ==> err == nil && p.AutovacuumAnalyzeThreshold != nil && fresh(p.AutovacuumAnalyzeThreshold) && *p.AutovacuumAnalyzeThreshold == intOf(value)
  ensures autovacuum_analyze_threshold_only: !(key == "autovacuum_analyze_threshold" && isInt(value)) ==> p.AutovacuumAnalyzeThreshold == old(p.AutovacuumAnalyzeThreshold)
  ensures autovacuum_analyze_threshold_bad: key == "autovacuum_analyze_threshold" && !isInt(value) ==> err != nil
  ensures autovacuum_analyze_scale_factor: key == "autovacuum_analyze_scale_factor" && isFloat(value) ==> err == nil && p.AutovacuumAnalyzeScaleFactor != nil && fresh(p.AutovacuumAnalyzeScaleFactor) && *p.AutovacuumAnalyzeScaleFactor == floatOf(value)
  ensures autovacuum_analyze_scale_factor_only: !(key == "autovacuum_analyze_scale_factor" && isFloat(value)) ==> p.AutovacuumAnalyzeScaleFactor == old(p.AutovacuumAnalyzeScaleFactor)
  ensures autovacuum_analyze_scale_factor_bad: key == "autovacuum_analyze_scale_factor" && !isFloat(value) ==> err != nil
  ensures autovacuum_vacuum_cost_limit: key == "autovacuum_vacuum_cost_limit" && isInt(value) ==> err == nil && p.AutovacuumVacuumCostDelay != nil && fresh(p.AutovacuumVacuumCostDelay) && *p.AutovacuumVacuumCostDelay == intOf(value)
  ensures autovacuum_vacuum_cost_limit_only: !(key == "autovacuum_vacuum_cost_limit" && isInt(value)) ==> p.AutovacuumVacuumCostDelay == old(p.AutovacuumVacuumCostDelay)
  ensures autovacuum_vacuum_cost_limit_bad: key == "autovacuum_vacuum_cost_limit" && !isInt(value) ==> err != nil
  ensures autovacuum_freeze_min_age: key == "autovacuum_freeze_min_age" && isInt(value) ==> err == nil && p.AutovacuumFreezeMinAge != nil && fresh(p.AutovacuumFreezeMinAge) && *p.AutovacuumFreezeMinAge == intOf(value)
  ensures autovacuum_freeze_min_age_only: !(key == "autovacuum_freeze_min_age" && isInt(value)) ==> p.AutovacuumFreezeMinAge == old(p.AutovacuumFreezeMinAge)
  ensures autovacuum_freeze_min_age_bad: key == "autovacuum_freeze_min_age" && !isInt(value) ==> err != nil
  ensures autovacuum_freeze_max_age: key == "autovacuum_freeze_max_age" && isInt(value) ==> err == nil && p.AutovacuumFreezeMaxAge != nil && fresh(p.AutovacuumFreezeMaxAge) && *p.AutovacuumFreezeMaxAge == intOf(value)
  ensures autovacuum_freeze_max_age_only: !(key == "autovacuum_freeze_max_age" && isInt(value)) ==> p.AutovacuumFreezeMaxAge == old(p.AutovacuumFreezeMaxAge)
  ensures autovacuum_freeze_max_age_bad: key == "autovacuum_freeze_max_age" && !isInt(value) ==> err != nil
  ensures autovacuum_freeze_table_age: key == "autovacuum_freeze_table_age" && isInt(value) ==> err == nil && p.AutovacuumFreezeTableAge != nil && fresh(p.AutovacuumFreezeTableAge) && *p.AutovacuumFreezeTableAge == intOf(value)
  ensures autovacuum_freeze_table_age_only: !(key == "autovacuum_freeze_table_age" && isInt(value)) ==> p.AutovacuumFreezeTableAge == old(p.AutovacuumFreezeTableAge)
  ensures autovacuum_freeze_table_age_bad: key == "autovacuum_freeze_table_age" && !isInt(value) ==> err != nil
  ensures autovacuum_multixact_freeze_min_age: key == "autovacuum_multixact_freeze_min_age" && isInt(value) ==> err == nil && p.AutovacuumMultixactFreezeMinAge != nil && fresh(p.AutovacuumMultixactFreezeMinAge) && *p.AutovacuumMultixactFreezeMinAge == intOf(value)
  ensures autovacuum_multixact_freeze_min_age_only: !(key == "autovacuum_multixact_freeze_min_age" && isInt(value)) ==> p.AutovacuumMultixactFreezeMinAge == old(p.AutovacuumMultixactFreezeMinAge)
  ensures autovacuum_multixact_freeze_min_age_bad: key == "autovacuum_multixact_freeze_min_age" && !isInt(value) ==> err != nil
  ensures autovacuum_multixact_freeze_max_age: key == "autovacuum_multixact_freeze_max_age" && isInt(value) ==> err == nil && p.AutovacuumMultixactFreezeMaxAge != nil && fresh(p.AutovacuumMultixactFreezeMaxAge) && *p.AutovacuumMultixactFreezeMaxAge == intOf(value)
  ensures autovacuum_multixact_freeze_max_age_only: !(key == "autovacuum_multixact_freeze_max_age" && isInt(value)) ==> p.AutovacuumMultixactFreezeMaxAge == old(p.AutovacuumMultixactFreezeMaxAge)
  ensures autovacuum_multixact_freeze_max_age_bad: key == "autovacuum_multixact_freeze_max_age" && !isInt(value) ==> err != nil
  ensures autovacuum_multixact_freeze_table_age: key == "autovacuum_multixact_freeze_table_age" && isInt(value) ==> err == nil && p.AutovacuumMultixactFreezeTableAge != nil && fresh(p.AutovacuumMultixactFreezeTableAge) && *p.AutovacuumMultixactFreezeTableAge == intOf(value)
  ensures autovacuum_multixact_freeze_table_age_only: !(key == "autovacuum_multixact_freeze_table_age" && isInt(value)) ==> p.AutovacuumMultixactFreezeTableAge == old(p.AutovacuumMultixactFreezeTableAge)
  ensures autovacuum_multixact_freeze_table_age_bad: key == "autovacuum_multixact_freeze_table_age" && !isInt(value) ==> err != nil
  ensures log_autovacuum_min_duration: key == "log_autovacuum_min_duration" && isInt(value) ==> err == nil && p.LogAutovacuumMinDuration != nil && fresh(p.LogAutovacuumMinDuration) && *p.LogAutovacuumMinDuration == intOf(value)
  ensures log_autovacuum_min_duration_only: !(key == "log_autovacuum_min_duration" && isInt(value)) ==> p.LogAutovacuumMinDuration == old(p.LogAutovacuumMinDuration)
  ensures log_autovacuum_min_duration_bad: key == "log_autovacuum_min_duration" && !isInt(value) ==> err != nil
  ensures user_catalog_table: key == "user_catalog_table" && isBool(value) ==> err == nil && p.UserCatalogTable != nil && fresh(p.UserCatalogTable) && *p.UserCatalogTable == boolOf(value)
  ensures user_catalog_table_only: !(key == "user_catalog_table" && isBool(value)) ==> p.UserCatalogTable == old(p.UserCatalogTable)
  ensures user_catalog_table_bad: key == "user_catalog_table" && !isBool(value) ==> err != nil
  ensures unknown: key != "fillfactor" && key != "parallel_workers" && key != "autovacuum_enabled" && key != "autovacuum_vacuum_threshold" && key != "autovacuum_vacuum_scale_factor" && key != "autovacuum_analyze_threshold" && key != "autovacuum_analyze_scale_factor" && key != "autovacuum_vacuum_cost_limit" && key != "autovacuum_freeze_min_age" && key != "autovacuum_freeze_max_age" && key != "autovacuum_freeze_table_age" && key != "autovacuum_multixact_freeze_min_age" && key != "autovacuum_multixact_freeze_max_age" && key != "autovacuum_multixact_freeze_table_age" && key != "log_autovacuum_min_duration" && key != "user_catalog_table" ==> err == nil

// ---------------------------------------------------------------- generated SQL

pred quoted(s: string) = "\"" + replaceAll(s, "\"", "\"\"") + "\""

func internal/ddl.quoteName(s) (r)
  props P20
  opt helper on
  opt inline on
  modifies nothing
  ensures quoted: r == quoted(s)

func internal/ddl.(*Table).ToSQL(t) (r, err)
  props P20
  requires t: t != nil && (forall c in t.Columns :: t.Columns[c] != nil) && (forall c in t.Checks :: t.Checks[c] != nil)
  modifies nothing
  let COLS = concat(i in len(t.Columns) :: (i < 1 ? "  " : ", ") + quoted(t.Columns[i].Name) + " " + t.Columns[i].Type + (t.Columns[i].NotNull ? " NOT NULL" : "") + (t.Columns[i].Default != "" ? " DEFAULT " + t.Columns[i].Default : "") + "\n")
  let CHECKS = concat(i in len(t.Checks) :: ", CHECK(" + t.Checks[i].Expression + ")\n")
  ensures ok: err == nil
  ensures text: r == "CREATE TABLE " + quoted(t.Name) + " (\n" + COLS + CHECKS + ")\n;\n"
  inv cols over t.Columns for (sb: *strings.Builder, k: idx): text(sb) == old("CREATE TABLE " + quoted(t.Name) + " (\n" + concat(i in now(k) :: (i < 1 ? "  " : ", ") + quoted(t.Columns[i].Name) + " " + t.Columns[i].Type + (t.Columns[i].NotNull ? " NOT NULL" : "") + (t.Columns[i].Default != "" ? " DEFAULT " + t.Columns[i].Default : "") + "\n"))
  inv checks over t.Checks for (sb: *strings.Builder, k: idx): text(sb) == old("CREATE TABLE " + quoted(t.Name) + " (\n" + COLS + concat(i in now(k) :: ", CHECK(" + t.Checks[i].Expression + ")\n"))

func internal/ddl.(*Index).ToSQL(x) (r, err)
  props P20
  requires x: x != nil && (forall c in x.Keys :: x.Keys[c] != nil)
  modifies nothing
  ensures ok: err == nil
  ensures text: x.Primary ==> r == "ALTER TABLE " + quoted(x.Table) + "\n  ADD " + (x.Name != "" ? "CONSTRAINT " + quoted(x.Name) + "\n  " : "") + "PRIMARY KEY (" + concat(i in len(x.Keys) :: (i > 0 ? ", " : "") + quoted(x.Keys[i].Column)) + ")\n;\n"
  inv keys for (sb: *strings.Builder, k: idx): text(sb) == old("ALTER TABLE " + quoted(x.Table) + "\n  ADD " + (x.Name != "" ? "CONSTRAINT " + quoted(x.Name) + "\n  " : "") + "PRIMARY KEY (" + concat(i in now(k) :: (i > 0 ? ", " : "") + quoted(x.Keys[i].Column)))

func internal/ddl.(*Trigger).ToSQL(t) (r, err)
  props P20
  requires t: t != nil
  modifies nothing
  let COLS = concat(i in len(t.Columns) :: (i < 1 ? " OF " : ", ") + quoted(t.Columns[i]))
  let I = t.Insert ? " INSERT" : ""
  let U = t.Update ? (t.Insert ? " OR UPDATE" : " UPDATE") + COLS : ""
  let D = t.Delete ? (t.Insert || t.Update ? " OR DELETE" : " DELETE") : ""
  let T = t.Truncate ? (t.Insert || t.Update || t.Delete ? " OR TRUNCATE" : " TRUNCATE") : ""
  ensures ok: err == nil
  ensures text: r == "CREATE " + (t.Constraint ? "CONSTRAINT " : "") + "TRIGGER " + quoted(t.Name) + "\n  " + t.When + I + U + D + T + " ON " + quoted(t.Table) + (t.Deferrable ? "\n  DEFERRABLE" : "") + (t.InitiallyDeferred ? "\n  INITIALLY DEFERRED" : "") + (t.ForEachRow ? "\n  FOR EACH ROW" : "") + "\n  EXECUTE PROCEDURE " + t.Function + "()\n;\n"
  inv cols over t.Columns for (sb: *strings.Builder, k: idx): text(sb) == old("CREATE " + (t.Constraint ? "CONSTRAINT " : "") + "TRIGGER " + quoted(t.Name) + "\n  " + t.When + I + (t.Insert ? " OR UPDATE" : " UPDATE") + concat(i in now(k) :: (i < 1 ? " OF " : ", ") + quoted(t.Columns[i])))

func internal/ddl.(*Function).ToSQL(f) (r, err)
  props P20
  requires f: f != nil
  modifies nothing
  ensures ok: err == nil
  ensures text: r == "CREATE OR REPLACE FUNCTION " + f.Name + "()\nRETURNS " + f.Returns + " AS $$\n" + f.Definition + "$$ LANGUAGE '" + f.Language + "'\n;\n"

// ---------------------------------------------------------------- parse errors

// the line of s around position p: from bol up to eol
fun bol(string, int) int
fun eol(string, int) int
axiom bol: forall s: string, p: int :: {bol(s, p)} 0 <= p && p < len(s) ==> 0 <= bol(s, p) && bol(s, p) <= p && (bol(s, p) == 0 || s[bol(s, p) - 1] == 10) && (forall j: int :: {s[j]} bol(s, p) <= j && j < p ==> s[j] != 10)
axiom eol: forall s: string, p: int :: {eol(s, p)} 0 <= p && p < len(s) ==> p <= eol(s, p) && eol(s, p) <= len(s) && (eol(s, p) == len(s) || s[eol(s, p)] == 10) && (forall j: int :: {s[j]} p <= j && j < eol(s, p) ==> s[j] != 10)

func internal/ddl.(*parseError).Error(e) (r)
  props P19
  requires e: e != nil && e.cs >= 0
  modifies nothing
  opt terminates on
  ensures end: e.cs >= len(e.data) ==> r == "error after end of data"
  ensures caret: e.cs < len(e.data) ==> r == e.data[bol(e.data, e.cs):eol(e.data, e.cs)] + "\n" + strings.Repeat(" ", utf8.RuneCountInString(e.data[bol(e.data, e.cs):e.cs])) + "^"
  inv rest for (d: phi string): len(d) <= len(e.data) && d == e.data[len(e.data) - len(d):]
  inv pos for (d: phi string, cs: phi int): cs == e.cs - (len(e.data) - len(d)) && 0 <= cs && cs < len(d)
  inv line for (d: phi string): len(d) == len(e.data) || e.data[len(e.data) - len(d) - 1] == 10
  inv line2 for (d: phi string): bol(e.data, e.cs) >= len(e.data) - len(d)
  dec left for (d: phi string): len(d)
