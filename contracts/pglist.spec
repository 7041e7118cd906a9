package internal/pg

// ---------------------------------------------------------------- results
// What the server answers, as functions of the result object: the text of a
// cell (empty for NULL), its value as a number or a truth value, how many rows
// there are, and whether the result ends badly.
fun cell(*pgx.Rows, int, int) string
fun cellNull(*pgx.Rows, int, int) bool
fun cellInt(*pgx.Rows, int, int) int
fun cellBool(*pgx.Rows, int, int) bool
fun rowCount(*pgx.Rows) int
fun badEnd(*pgx.Rows) bool

// the row each result is at, and the results that ended, failed, are open
ghost rowN: tmap[*pgx.Rows]int
ghost rowsEnd: set[*pgx.Rows]
ghost rowsFailed: set[*pgx.Rows]
ghost rowsOpen: set[*pgx.Rows]
// what the latest Scan returned
ghost scanErr: error
// the latest query for rows
ghost listSQL: string
ghost listArgs: int
ghost listArg: tmap[int]string
ghost lastRows: *pgx.Rows
// every query for a single row, in order; the arguments of the latest
ghost rowCalls: int
ghost rowAt: tmap[int]*pgx.Rows
ghost rowSQL: tmap[int]string
ghost rowFrom: tmap[int]string
ghost rowQuery: string
ghost rowArgs: int
ghost rowArg: tmap[int]string

extern github.com/jackc/pgx.(*Conn).Query(c, sql, args) (r, err)
  requires c: c != nil
  modifies listSQL, listArgs, listArg, lastRows, rowN, rowsOpen
  ensures asked: listSQL == sql
  ensures count: listArgs == len(args)
  ensures args: forall i in args :: typeis(args[i], string) ==> listArg[i] == as(args[i], string)
  ensures new: err == nil ==> fresh(r) && lastRows == r && !(r in old(rowsOpen)) && !(r in rowsEnd) && !(r in rowsFailed) && rowsOpen == setadd(old(rowsOpen), r)
  ensures start: err == nil ==> rowN == update(old(rowN), r, 0)
  ensures failed: err != nil ==> rowsOpen == old(rowsOpen) && rowN == old(rowN) && lastRows == old(lastRows)

extern github.com/jackc/pgx.(*Conn).QueryRow(c, sql, args) (r)
  requires c: c != nil
  modifies rowCalls, rowAt, rowSQL, rowFrom, rowQuery, rowArgs, rowArg
  ensures asked: rowQuery == sql
  ensures count: rowArgs == len(args)
  ensures args: forall i in args :: typeis(args[i], string) ==> rowArg[i] == as(args[i], string)
  ensures new: fresh(r) && rowCalls == old(rowCalls) + 1 && rowAt == update(old(rowAt), old(rowCalls), r)
  ensures from: rowFrom == update(old(rowFrom), old(rowCalls), sqlfrom(sql))
  ensures sql: rowSQL == update(old(rowSQL), old(rowCalls), sql)

extern github.com/jackc/pgx.(*Rows).Next(r) (more)
  requires r: r != nil
  modifies rowN, rowsEnd, rowsOpen
  ensures row: more ==> rowN == update(old(rowN), r, old(rowN)[r] + 1) && rowsEnd == old(rowsEnd) && rowsOpen == old(rowsOpen)
  ensures end: !more ==> rowN == old(rowN) && rowsEnd == setadd(old(rowsEnd), r) && rowsOpen == setdel(old(rowsOpen), r)
  ensures complete: !more && !(r in rowsFailed) && !badEnd(r) ==> rowN[r] == rowCount(r)
  ensures stopped: more ==> !(r in rowsFailed) && !(r in rowsEnd)

extern github.com/jackc/pgx.(*Rows).Err(r) (err)
  requires r: r != nil
  modifies nothing
  ensures failed: r in rowsFailed || r in rowsEnd && badEnd(r) ==> err != nil
  ensures good: !(r in rowsFailed) && (r in rowsEnd ==> !badEnd(r)) ==> err == nil

extern github.com/jackc/pgx.(*Rows).Close(r) ()
  requires r: r != nil
  modifies rowsOpen
  ensures closed: rowsOpen == setdel(old(rowsOpen), r)

extern github.com/jackc/pgx.(Identifier).Sanitize(ident) (r)
  modifies nothing
  ensures two: len(ident) == 2 ==> r == "\"" + replaceAll(replaceAll(ident[0], "\0", ""), "\"", "\"\"") + "\".\"" + replaceAll(replaceAll(ident[1], "\0", ""), "\"", "\"\"") + "\""

// ------------------------------------------------------- definition texts
// What the parsers of definition texts yield is a function of the text:
// properties P15 to P18 say which.
fun checkOK(string) bool
fun checkExpression(string) string
fun checkDeferrable(string) bool
fun checkDeferred(string) bool
extern internal/ddl.ParseCheck(data) (r, err)
  modifies nothing
  ensures bad: (err == nil) == checkOK(data) && (err != nil ==> r == nil)
  ensures good: err == nil ==> fresh(r) && r.Expression == checkExpression(data) && r.Deferrable == checkDeferrable(data) && r.InitiallyDeferred == checkDeferred(data)

fun fkOK(string) bool
fun fkTable(string) string
fun fkMatch(string) string
fun fkOnDelete(string) string
fun fkOnUpdate(string) string
fun fkDeferrable(string) bool
fun fkDeferred(string) bool
fun fkColumns(string) int
fun fkColumn(string, int) string
fun fkReferences(string) int
fun fkReferenced(string, int) string
extern internal/ddl.ParseForeignKey(data) (r, err)
  modifies nothing
  ensures bad: (err == nil) == fkOK(data) && (err != nil ==> r == nil)
  ensures good: err == nil ==> fresh(r) && fkText(r, data)
pred fkText(r: *ddl.ForeignKey, data: string) = r.Table == fkTable(data) && r.Match == fkMatch(data) && r.OnDelete == fkOnDelete(data) && r.OnUpdate == fkOnUpdate(data) && r.Deferrable == fkDeferrable(data) && r.InitiallyDeferred == fkDeferred(data) && len(r.Columns) == fkColumns(data) && len(r.Referenced) == fkReferences(data) && (forall k in r.Columns :: r.Columns[k] == fkColumn(data, k)) && (forall k in r.Referenced :: r.Referenced[k] == fkReferenced(data, k))

fun indexOK(string) bool
fun indexTable(string) string
fun indexName(string) string
fun indexUnique(string) bool
fun indexUsing(string) string
fun indexWhere(string) string
fun indexKeys(string) int
fun indexColumn(string, int) string
fun indexExpression(string, int) string
fun indexOpClass(string, int) string
extern internal/ddl.ParseIndex(data) (r, err)
  modifies nothing
  ensures bad: (err == nil) == indexOK(data) && (err != nil ==> r == nil)
  ensures good: err == nil ==> fresh(r) && indexText(r, data)
pred indexText(r: *ddl.Index, data: string) = r.Table == indexTable(data) && r.Name == indexName(data) && r.Unique == indexUnique(data) && r.Using == indexUsing(data) && r.Where == indexWhere(data) && len(r.Keys) == indexKeys(data) && (forall k in r.Keys :: r.Keys[k] != nil && r.Keys[k].Column == indexColumn(data, k) && r.Keys[k].Expression == indexExpression(data, k) && r.Keys[k].OpClass == indexOpClass(data, k) && !r.Keys[k].Descending)

fun triggerOK(string) bool
fun triggerTable(string) string
fun triggerName(string) string
fun triggerFunction(string) string
fun triggerWhen(string) string
fun triggerConstraint(string) bool
fun triggerDeferrable(string) bool
fun triggerDeferred(string) bool
fun triggerRow(string) bool
fun triggerDelete(string) bool
fun triggerInsert(string) bool
fun triggerTruncate(string) bool
fun triggerUpdate(string) bool
fun triggerColumns(string) int
fun triggerColumn(string, int) string
extern internal/ddl.ParseTrigger(data) (r, err)
  modifies nothing
  ensures bad: (err == nil) == triggerOK(data) && (err != nil ==> r == nil)
  ensures good: err == nil ==> fresh(r) && triggerText(r, data)
pred triggerText(r: *ddl.Trigger, data: string) = r.Table == triggerTable(data) && r.Name == triggerName(data) && r.Function == triggerFunction(data) && r.When == triggerWhen(data) && r.Constraint == triggerConstraint(data) && r.Deferrable == triggerDeferrable(data) && r.InitiallyDeferred == triggerDeferred(data) && r.ForEachRow == triggerRow(data) && r.Delete == triggerDelete(data) && r.Insert == triggerInsert(data) && r.Truncate == triggerTruncate(data) && r.Update == triggerUpdate(data) && len(r.Columns) == triggerColumns(data) && (forall k in r.Columns :: r.Columns[k] == triggerColumn(data, k))

// ------------------------------------------------------------------- calls
// How often each listing was asked for, for what, and how much it returned;
// how many listings failed. Every entry a listing returns is named by the call
// that returned it and its position there.
ghost listFails: int
ghost tabN: int
ghost tabLen: tmap[int]int
ghost tabTotal: int
fun tabCall(*ddl.Table) int
fun tabPos(*ddl.Table) int
ghost schN: int
ghost schLen: tmap[int]int
ghost schTotal: int
fun schCall(*ddl.Schema) int
fun schPos(*ddl.Schema) int
ghost funN: int
ghost funLen: tmap[int]int
ghost funTotal: int
fun funCall(*ddl.Function) int
fun funPos(*ddl.Function) int
ghost seqN: int
ghost seqLen: tmap[int]int
ghost seqTotal: int
fun seqCall(*ddl.Sequence) int
fun seqPos(*ddl.Sequence) int
ghost colN: int
ghost colLen: tmap[int]int
ghost colTotal: int
fun colCall(*ddl.Column) int
fun colPos(*ddl.Column) int
ghost colSchema: tmap[int]string
ghost colTable: tmap[int]string
ghost chkN: int
ghost chkLen: tmap[int]int
ghost chkTotal: int
fun chkCall(*ddl.Check) int
fun chkPos(*ddl.Check) int
ghost chkSchema: tmap[int]string
ghost chkTable: tmap[int]string
ghost fkyN: int
ghost fkyLen: tmap[int]int
ghost fkyTotal: int
fun fkyCall(*ddl.ForeignKey) int
fun fkyPos(*ddl.ForeignKey) int
ghost fkySchema: tmap[int]string
ghost fkyTable: tmap[int]string
ghost idxN: int
ghost idxLen: tmap[int]int
ghost idxTotal: int
fun idxCall(*ddl.Index) int
fun idxPos(*ddl.Index) int
ghost idxSchema: tmap[int]string
ghost idxTable: tmap[int]string
ghost trgN: int
ghost trgLen: tmap[int]int
ghost trgTotal: int
fun trgCall(*ddl.Trigger) int
fun trgPos(*ddl.Trigger) int
ghost trgSchema: tmap[int]string
ghost trgTable: tmap[int]string
ghost lastParams: *ddl.Parameters
ghost tspN: int
ghost tspOf: tmap[int]*ddl.TableStorageParameters
ghost tspSchema: tmap[int]string
ghost tspTable: tmap[int]string

// --------------------------------------------------------------- listings
func internal/pg.String(s) (r)
  props P13
  modifies nothing
  ensures none: s == nil ==> r == ""
  ensures some: s != nil ==> r == *s

func internal/pg.Identifier(parts) (r)
  props P13
  modifies nothing
  ensures two: len(parts) == 2 ==> r == "\"" + replaceAll(replaceAll(parts[0], "\0", ""), "\"", "\"\"") + "\".\"" + replaceAll(replaceAll(parts[1], "\0", ""), "\"", "\"\"") + "\""

// the cell of the column a query selects
pred listed(n: int) = !badEnd(lastRows) && n == rowCount(lastRows) && !(lastRows in rowsFailed)

pred tableRow(r: *ddl.Table, i: int) = r.Schema == cell(lastRows, i, column(listSQL, "n.nspname")) && r.Name == cell(lastRows, i, column(listSQL, "c.relname")) && r.Owner == cell(lastRows, i, column(listSQL, "pg_get_userbyid(c.relowner)")) && r.Comment == cell(lastRows, i, column(listSQL, "obj_description(c.oid, 'pg_class')")) && r.Columns == nil && r.Checks == nil && r.ForeignKeys == nil && r.StorageParameters == nil

func internal/pg.(*Conn).ListTables(c) (r, err)
  props P13
  requires c: c != nil && c.conn != nil && c.log != nil
  modifies listSQL, listArgs, listArg, lastRows, rowN, rowsEnd, rowsFailed, rowsOpen, scanErr, tabN, tabLen, tabTotal, listFails
  assign tabLen[tabN] = len(r)
  assign tabTotal = tabTotal + len(r)
  assign tabN = tabN + 1
  assign listFails = listFails + 1 when err != nil
  ensures fails: (err == nil ==> listFails == old(listFails)) && (err != nil ==> listFails == old(listFails) + 1)
  ensures called: tabN == old(tabN) + 1 && tabLen == update(old(tabLen), old(tabN), len(r)) && tabTotal == old(tabTotal) + len(r)
  names entries: forall i in r :: tabCall(r[i]) == old(tabN) && tabPos(r[i]) == i
  ensures bare: err == nil ==> forall i in r :: r[i].Checks == nil && r[i].ForeignKeys == nil
  ensures free: rowsOpen == old(rowsOpen)
  ensures none: err != nil ==> r == nil
  ensures complete: err == nil ==> listed(len(r))
  ensures rows: err == nil ==> forall i in r :: r[i] != nil && fresh(r[i]) && tableRow(r[i], i)
  ensures distinct: err == nil ==> forall i in r, j in r :: i != j ==> r[i] != r[j]
  inv open: rowsOpen == setadd(old(rowsOpen), lastRows) && !(lastRows in old(rowsOpen))
  inv state: !(lastRows in rowsFailed) && !(lastRows in rowsEnd)
  inv count for (s: phi []*ddl.Table): len(s) == rowN[lastRows]
  inv bare for (s: phi []*ddl.Table): forall i in s :: s[i].Checks == nil && s[i].ForeignKeys == nil
  inv there for (s: phi []*ddl.Table): forall i in s :: s[i] != nil && fresh(s[i])
  inv rows for (s: phi []*ddl.Table): forall i in s :: tableRow(s[i], i)
  inv distinct for (s: phi []*ddl.Table): forall i in s, j in s :: i != j ==> s[i] != s[j]

pred schemaRow(r: *ddl.Schema, i: int) = r.Name == cell(lastRows, i, column(listSQL, "n.nspname")) && r.Owner == cell(lastRows, i, column(listSQL, "pg_get_userbyid(n.nspowner)")) && r.Comment == cell(lastRows, i, column(listSQL, "obj_description(n.oid, 'pg_namespace')"))

func internal/pg.(*Conn).ListSchemas(c) (r, err)
  props P13
  requires c: c != nil && c.conn != nil && c.log != nil
  modifies listSQL, listArgs, listArg, lastRows, rowN, rowsEnd, rowsFailed, rowsOpen, scanErr, schN, schLen, schTotal, listFails
  assign schLen[schN] = len(r)
  assign schTotal = schTotal + len(r)
  assign schN = schN + 1
  assign listFails = listFails + 1 when err != nil
  ensures fails: (err == nil ==> listFails == old(listFails)) && (err != nil ==> listFails == old(listFails) + 1)
  ensures called: schN == old(schN) + 1 && schLen == update(old(schLen), old(schN), len(r)) && schTotal == old(schTotal) + len(r)
  names entries: forall i in r :: schCall(r[i]) == old(schN) && schPos(r[i]) == i
  ensures free: rowsOpen == old(rowsOpen)
  ensures none: err != nil ==> r == nil
  ensures complete: err == nil ==> listed(len(r))
  ensures rows: err == nil ==> forall i in r :: r[i] != nil && fresh(r[i]) && schemaRow(r[i], i)
  ensures distinct: err == nil ==> forall i in r, j in r :: i != j ==> r[i] != r[j]
  inv open: rowsOpen == setadd(old(rowsOpen), lastRows) && !(lastRows in old(rowsOpen))
  inv state: !(lastRows in rowsFailed) && !(lastRows in rowsEnd)
  inv count for (s: phi []*ddl.Schema): len(s) == rowN[lastRows]
  inv there for (s: phi []*ddl.Schema): forall i in s :: s[i] != nil && fresh(s[i])
  inv rows for (s: phi []*ddl.Schema): forall i in s :: schemaRow(s[i], i)
  inv distinct for (s: phi []*ddl.Schema): forall i in s, j in s :: i != j ==> s[i] != s[j]

pred functionRow(r: *ddl.Function, i: int) = r.Schema == cell(lastRows, i, column(listSQL, "n.nspname")) && r.Name == cell(lastRows, i, column(listSQL, "p.proname")) && r.Owner == cell(lastRows, i, column(listSQL, "pg_get_userbyid(p.proowner)")) && r.Comment == cell(lastRows, i, column(listSQL, "obj_description(p.oid, 'pg_proc')")) && r.Returns == cell(lastRows, i, column(listSQL, "pg_get_function_result(p.oid)")) && r.Language == cell(lastRows, i, column(listSQL, "l.lanname")) && r.Definition == cell(lastRows, i, column(listSQL, "p.prosrc"))

func internal/pg.(*Conn).ListFunctions(c) (r, err)
  props P13
  requires c: c != nil && c.conn != nil && c.log != nil
  modifies listSQL, listArgs, listArg, lastRows, rowN, rowsEnd, rowsFailed, rowsOpen, scanErr, funN, funLen, funTotal, listFails
  assign funLen[funN] = len(r)
  assign funTotal = funTotal + len(r)
  assign funN = funN + 1
  assign listFails = listFails + 1 when err != nil
  ensures fails: (err == nil ==> listFails == old(listFails)) && (err != nil ==> listFails == old(listFails) + 1)
  ensures called: funN == old(funN) + 1 && funLen == update(old(funLen), old(funN), len(r)) && funTotal == old(funTotal) + len(r)
  names entries: forall i in r :: funCall(r[i]) == old(funN) && funPos(r[i]) == i
  ensures free: rowsOpen == old(rowsOpen)
  ensures none: err != nil ==> r == nil
  ensures complete: err == nil ==> listed(len(r))
  ensures rows: err == nil ==> forall i in r :: r[i] != nil && fresh(r[i]) && functionRow(r[i], i)
  ensures distinct: err == nil ==> forall i in r, j in r :: i != j ==> r[i] != r[j]
  inv open: rowsOpen == setadd(old(rowsOpen), lastRows) && !(lastRows in old(rowsOpen))
  inv state: !(lastRows in rowsFailed) && !(lastRows in rowsEnd)
  inv count for (s: phi []*ddl.Function): len(s) == rowN[lastRows]
  inv there for (s: phi []*ddl.Function): forall i in s :: s[i] != nil && fresh(s[i])
  inv rows for (s: phi []*ddl.Function): forall i in s :: functionRow(s[i], i)
  inv distinct for (s: phi []*ddl.Function): forall i in s, j in s :: i != j ==> s[i] != s[j]

pred columnRow(r: *ddl.Column, i: int) = r.Name == cell(lastRows, i, column(listSQL, "a.attname")) && r.Type == cell(lastRows, i, column(listSQL, "format_type(a.atttypid, a.atttypmod)")) && r.NotNull == cellBool(lastRows, i, column(listSQL, "a.attnotnull")) && r.Default == cell(lastRows, i, column(listSQL, "pg_get_expr(d.adbin, d.adrelid)")) && r.Comment == cell(lastRows, i, column(listSQL, "col_description(a.attrelid, a.attnum)"))

func internal/pg.(*Conn).ListColumns(c, schema, table) (r, err)
  props P13
  requires c: c != nil && c.conn != nil && c.log != nil
  modifies listSQL, listArgs, listArg, lastRows, rowN, rowsEnd, rowsFailed, rowsOpen, scanErr, colN, colLen, colTotal, listFails, colSchema, colTable
  assign colLen[colN] = len(r)
  assign colSchema[colN] = schema
  assign colTable[colN] = table
  assign colTotal = colTotal + len(r)
  assign colN = colN + 1
  assign listFails = listFails + 1 when err != nil
  ensures fails: (err == nil ==> listFails == old(listFails)) && (err != nil ==> listFails == old(listFails) + 1)
  ensures called: colN == old(colN) + 1 && colLen == update(old(colLen), old(colN), len(r)) && colTotal == old(colTotal) + len(r)
  ensures calledfor: colSchema == update(old(colSchema), old(colN), schema) && colTable == update(old(colTable), old(colN), table)
  names entries: forall i in r :: colCall(r[i]) == old(colN) && colPos(r[i]) == i
  ensures free: rowsOpen == old(rowsOpen)
  ensures asked: sqlparam(listSQL, "n.nspname") == 1 && sqlparam(listSQL, "c.relname") == 2 && listArgs == 2 && listArg[0] == schema && listArg[1] == table
  ensures none: err != nil ==> r == nil
  ensures complete: err == nil ==> listed(len(r))
  ensures rows: err == nil ==> forall i in r :: r[i] != nil && fresh(r[i]) && columnRow(r[i], i)
  ensures distinct: err == nil ==> forall i in r, j in r :: i != j ==> r[i] != r[j]
  inv open: rowsOpen == setadd(old(rowsOpen), lastRows) && !(lastRows in old(rowsOpen))
  inv state: !(lastRows in rowsFailed) && !(lastRows in rowsEnd)
  inv count for (s: phi []*ddl.Column): len(s) == rowN[lastRows]
  inv there for (s: phi []*ddl.Column): forall i in s :: s[i] != nil && fresh(s[i])
  inv rows for (s: phi []*ddl.Column): forall i in s :: columnRow(s[i], i)
  inv distinct for (s: phi []*ddl.Column): forall i in s, j in s :: i != j ==> s[i] != s[j]

pred checkRow(r: *ddl.Check, i: int) = r.Name == cell(lastRows, i, column(listSQL, "r.conname")) && r.Expression == checkExpression(cell(lastRows, i, column(listSQL, "pg_get_constraintdef(r.oid, true)"))) && r.Deferrable == checkDeferrable(cell(lastRows, i, column(listSQL, "pg_get_constraintdef(r.oid, true)"))) && r.InitiallyDeferred == checkDeferred(cell(lastRows, i, column(listSQL, "pg_get_constraintdef(r.oid, true)")))

func internal/pg.(*Conn).ListChecks(c, schema, table) (r, err)
  props P13
  requires c: c != nil && c.conn != nil && c.log != nil
  modifies listSQL, listArgs, listArg, lastRows, rowN, rowsEnd, rowsFailed, rowsOpen, scanErr, chkN, chkLen, chkTotal, listFails, chkSchema, chkTable
  assign chkLen[chkN] = len(r)
  assign chkSchema[chkN] = schema
  assign chkTable[chkN] = table
  assign chkTotal = chkTotal + len(r)
  assign chkN = chkN + 1
  assign listFails = listFails + 1 when err != nil
  ensures fails: (err == nil ==> listFails == old(listFails)) && (err != nil ==> listFails == old(listFails) + 1)
  ensures called: chkN == old(chkN) + 1 && chkLen == update(old(chkLen), old(chkN), len(r)) && chkTotal == old(chkTotal) + len(r)
  ensures calledfor: chkSchema == update(old(chkSchema), old(chkN), schema) && chkTable == update(old(chkTable), old(chkN), table)
  names entries: forall i in r :: chkCall(r[i]) == old(chkN) && chkPos(r[i]) == i
  ensures free: rowsOpen == old(rowsOpen)
  ensures asked: sqlparam(listSQL, "n.nspname") == 1 && sqlparam(listSQL, "c.relname") == 2 && listArgs == 2 && listArg[0] == schema && listArg[1] == table
  ensures none: err != nil ==> r == nil
  ensures complete: err == nil ==> listed(len(r))
  ensures texts: err == nil ==> forall n: int :: 0 <= n && n < len(r) ==> checkOK(cell(lastRows, n, column(listSQL, "pg_get_constraintdef(r.oid, true)")))
  ensures rows: err == nil ==> forall i in r :: r[i] != nil && fresh(r[i]) && checkRow(r[i], i)
  ensures distinct: err == nil ==> forall i in r, j in r :: i != j ==> r[i] != r[j]
  inv open: rowsOpen == setadd(old(rowsOpen), lastRows) && !(lastRows in old(rowsOpen))
  inv state: !(lastRows in rowsFailed) && !(lastRows in rowsEnd)
  inv count for (s: phi []*ddl.Check): len(s) == rowN[lastRows]
  inv there for (s: phi []*ddl.Check): forall i in s :: s[i] != nil && fresh(s[i])
  inv texts: forall n: int :: 0 <= n && n < rowN[lastRows] ==> checkOK(cell(lastRows, n, column(listSQL, "pg_get_constraintdef(r.oid, true)")))
  inv rows for (s: phi []*ddl.Check): forall i in s :: checkRow(s[i], i)
  inv distinct for (s: phi []*ddl.Check): forall i in s, j in s :: i != j ==> s[i] != s[j]

pred fkRow(r: *ddl.ForeignKey, i: int) = r.Name == cell(lastRows, i, column(listSQL, "t.conname")) && fkText(r, cell(lastRows, i, column(listSQL, "pg_get_constraintdef(t.oid)")))

func internal/pg.(*Conn).ListForeignKeys(c, schema, table) (r, err)
  props P13
  requires c: c != nil && c.conn != nil && c.log != nil
  modifies listSQL, listArgs, listArg, lastRows, rowN, rowsEnd, rowsFailed, rowsOpen, scanErr, fkyN, fkyLen, fkyTotal, listFails, fkySchema, fkyTable
  assign fkyLen[fkyN] = len(r)
  assign fkySchema[fkyN] = schema
  assign fkyTable[fkyN] = table
  assign fkyTotal = fkyTotal + len(r)
  assign fkyN = fkyN + 1
  assign listFails = listFails + 1 when err != nil
  ensures fails: (err == nil ==> listFails == old(listFails)) && (err != nil ==> listFails == old(listFails) + 1)
  ensures called: fkyN == old(fkyN) + 1 && fkyLen == update(old(fkyLen), old(fkyN), len(r)) && fkyTotal == old(fkyTotal) + len(r)
  ensures calledfor: fkySchema == update(old(fkySchema), old(fkyN), schema) && fkyTable == update(old(fkyTable), old(fkyN), table)
  names entries: forall i in r :: fkyCall(r[i]) == old(fkyN) && fkyPos(r[i]) == i
  ensures free: rowsOpen == old(rowsOpen)
  ensures asked: sqlparam(listSQL, "n.nspname") == 1 && sqlparam(listSQL, "c1.relname") == 2 && listArgs == 2 && listArg[0] == schema && listArg[1] == table
  ensures none: err != nil ==> r == nil
  ensures complete: err == nil ==> listed(len(r))
  ensures texts: err == nil ==> forall n: int :: 0 <= n && n < len(r) ==> fkOK(cell(lastRows, n, column(listSQL, "pg_get_constraintdef(t.oid)")))
  ensures rows: err == nil ==> forall i in r :: r[i] != nil && fresh(r[i]) && fkRow(r[i], i)
  ensures distinct: err == nil ==> forall i in r, j in r :: i != j ==> r[i] != r[j]
  inv open: rowsOpen == setadd(old(rowsOpen), lastRows) && !(lastRows in old(rowsOpen))
  inv state: !(lastRows in rowsFailed) && !(lastRows in rowsEnd)
  inv count for (s: phi []*ddl.ForeignKey): len(s) == rowN[lastRows]
  inv there for (s: phi []*ddl.ForeignKey): forall i in s :: s[i] != nil && fresh(s[i])
  inv texts: forall n: int :: 0 <= n && n < rowN[lastRows] ==> fkOK(cell(lastRows, n, column(listSQL, "pg_get_constraintdef(t.oid)")))
  inv rows for (s: phi []*ddl.ForeignKey): forall i in s :: fkRow(s[i], i)
  inv distinct for (s: phi []*ddl.ForeignKey): forall i in s, j in s :: i != j ==> s[i] != s[j]

pred indexRow(r: *ddl.Index, i: int, schema: string) = r.Schema == schema && r.Primary == cellBool(lastRows, i, column(listSQL, "i.indisprimary")) && indexText(r, cell(lastRows, i, column(listSQL, "pg_get_indexdef(i.indexrelid, 0, true)")))

func internal/pg.(*Conn).ListIndexes(c, schema, table) (r, err)
  props P13
  requires c: c != nil && c.conn != nil && c.log != nil
  modifies listSQL, listArgs, listArg, lastRows, rowN, rowsEnd, rowsFailed, rowsOpen, scanErr, idxN, idxLen, idxTotal, listFails, idxSchema, idxTable
  assign idxLen[idxN] = len(r)
  assign idxSchema[idxN] = schema
  assign idxTable[idxN] = table
  assign idxTotal = idxTotal + len(r)
  assign idxN = idxN + 1
  assign listFails = listFails + 1 when err != nil
  ensures fails: (err == nil ==> listFails == old(listFails)) && (err != nil ==> listFails == old(listFails) + 1)
  ensures called: idxN == old(idxN) + 1 && idxLen == update(old(idxLen), old(idxN), len(r)) && idxTotal == old(idxTotal) + len(r)
  ensures calledfor: idxSchema == update(old(idxSchema), old(idxN), schema) && idxTable == update(old(idxTable), old(idxN), table)
  names entries: forall i in r :: idxCall(r[i]) == old(idxN) && idxPos(r[i]) == i
  ensures free: rowsOpen == old(rowsOpen)
  ensures asked: sqlparam(listSQL, "n.nspname") == 1 && sqlparam(listSQL, "c.relname") == 2 && listArgs == 2 && listArg[0] == schema && listArg[1] == table
  ensures none: err != nil ==> r == nil
  ensures complete: err == nil ==> listed(len(r))
  ensures texts: err == nil ==> forall n: int :: 0 <= n && n < len(r) ==> indexOK(cell(lastRows, n, column(listSQL, "pg_get_indexdef(i.indexrelid, 0, true)")))
  ensures rows: err == nil ==> forall i in r :: r[i] != nil && fresh(r[i]) && indexRow(r[i], i, schema)
  ensures distinct: err == nil ==> forall i in r, j in r :: i != j ==> r[i] != r[j]
  inv open: rowsOpen == setadd(old(rowsOpen), lastRows) && !(lastRows in old(rowsOpen))
  inv state: !(lastRows in rowsFailed) && !(lastRows in rowsEnd)
  inv count for (s: phi []*ddl.Index): len(s) == rowN[lastRows]
  inv there for (s: phi []*ddl.Index): forall i in s :: s[i] != nil && fresh(s[i])
  inv texts: forall n: int :: 0 <= n && n < rowN[lastRows] ==> indexOK(cell(lastRows, n, column(listSQL, "pg_get_indexdef(i.indexrelid, 0, true)")))
  inv rows for (s: phi []*ddl.Index): forall i in s :: indexRow(s[i], i, schema)
  inv distinct for (s: phi []*ddl.Index): forall i in s, j in s :: i != j ==> s[i] != s[j]

pred triggerEntry(r: *ddl.Trigger, i: int, schema: string) = r.Schema == schema && triggerText(r, cell(lastRows, i, column(listSQL, "pg_get_triggerdef(t.oid, true)")))

func internal/pg.(*Conn).ListTriggers(c, schema, table) (r, err)
  props P13
  requires c: c != nil && c.conn != nil && c.log != nil
  modifies listSQL, listArgs, listArg, lastRows, rowN, rowsEnd, rowsFailed, rowsOpen, scanErr, trgN, trgLen, trgTotal, listFails, trgSchema, trgTable
  assign trgLen[trgN] = len(r)
  assign trgSchema[trgN] = schema
  assign trgTable[trgN] = table
  assign trgTotal = trgTotal + len(r)
  assign trgN = trgN + 1
  assign listFails = listFails + 1 when err != nil
  ensures fails: (err == nil ==> listFails == old(listFails)) && (err != nil ==> listFails == old(listFails) + 1)
  ensures called: trgN == old(trgN) + 1 && trgLen == update(old(trgLen), old(trgN), len(r)) && trgTotal == old(trgTotal) + len(r)
  ensures calledfor: trgSchema == update(old(trgSchema), old(trgN), schema) && trgTable == update(old(trgTable), old(trgN), table)
  names entries: forall i in r :: trgCall(r[i]) == old(trgN) && trgPos(r[i]) == i
  ensures free: rowsOpen == old(rowsOpen)
  ensures asked: sqlparam(listSQL, "n.nspname") == 1 && sqlparam(listSQL, "c.relname") == 2 && listArgs == 2 && listArg[0] == schema && listArg[1] == table
  ensures none: err != nil ==> r == nil
  ensures complete: err == nil ==> listed(len(r))
  ensures texts: err == nil ==> forall n: int :: 0 <= n && n < len(r) ==> triggerOK(cell(lastRows, n, column(listSQL, "pg_get_triggerdef(t.oid, true)")))
  ensures rows: err == nil ==> forall i in r :: r[i] != nil && fresh(r[i]) && triggerEntry(r[i], i, schema)
  ensures distinct: err == nil ==> forall i in r, j in r :: i != j ==> r[i] != r[j]
  inv open: rowsOpen == setadd(old(rowsOpen), lastRows) && !(lastRows in old(rowsOpen))
  inv state: !(lastRows in rowsFailed) && !(lastRows in rowsEnd)
  inv count for (s: phi []*ddl.Trigger): len(s) == rowN[lastRows]
  inv there for (s: phi []*ddl.Trigger): forall i in s :: s[i] != nil && fresh(s[i])
  inv texts: forall n: int :: 0 <= n && n < rowN[lastRows] ==> triggerOK(cell(lastRows, n, column(listSQL, "pg_get_triggerdef(t.oid, true)")))
  inv rows for (s: phi []*ddl.Trigger): forall i in s :: triggerEntry(s[i], i, schema)
  inv distinct for (s: phi []*ddl.Trigger): forall i in s, j in s :: i != j ==> s[i] != s[j]

pred sequenceRow(r: *ddl.Sequence, i: int) = r.Schema == cell(lastRows, i, column(listSQL, "n.nspname")) && r.Name == cell(lastRows, i, column(listSQL, "c.relname")) && r.Owner == cell(lastRows, i, column(listSQL, "pg_get_userbyid(c.relowner)")) && r.Comment == cell(lastRows, i, column(listSQL, "obj_description(c.oid, 'pg_class')")) && r.OwnedBy != nil && r.OwnedBy.Schema == cell(lastRows, i, column(listSQL, "n2.nspname")) && r.OwnedBy.Table == cell(lastRows, i, column(listSQL, "c2.relname")) && r.OwnedBy.Column == cell(lastRows, i, column(listSQL, "a2.attname")) && r.DataType == cell(lastRows, i, column(listSQL, "format_type(s.seqtypid, NULL)")) && r.Start == cellInt(lastRows, i, column(listSQL, "s.seqstart")) && r.Minimum == cellInt(lastRows, i, column(listSQL, "s.seqmin")) && r.Maximum == cellInt(lastRows, i, column(listSQL, "s.seqmax")) && r.Increment == cellInt(lastRows, i, column(listSQL, "s.seqincrement")) && r.Cache == cellInt(lastRows, i, column(listSQL, "s.seqcache")) && r.Cycle == cellBool(lastRows, i, column(listSQL, "s.seqcycle"))

func internal/pg.(*Conn).listSequences(c) (r, err)
  props P13
  requires c: c != nil && c.conn != nil && c.log != nil
  modifies listSQL, listArgs, listArg, lastRows, rowN, rowsEnd, rowsFailed, rowsOpen, scanErr
  ensures free: rowsOpen == old(rowsOpen)
  ensures none: err != nil ==> r == nil
  ensures complete: err == nil ==> listed(len(r))
  ensures rows: err == nil ==> forall i in r :: r[i] != nil && fresh(r[i]) && sequenceRow(r[i], i)
  ensures distinct: err == nil ==> forall i in r, j in r :: i != j ==> r[i] != r[j]
  inv open: rowsOpen == setadd(old(rowsOpen), lastRows) && !(lastRows in old(rowsOpen))
  inv state: !(lastRows in rowsFailed) && !(lastRows in rowsEnd)
  inv count for (s: phi []*ddl.Sequence): len(s) == rowN[lastRows]
  inv there for (s: phi []*ddl.Sequence): forall i in s :: s[i] != nil && fresh(s[i])
  inv rows for (s: phi []*ddl.Sequence): forall i in s :: sequenceRow(s[i], i)
  inv distinct for (s: phi []*ddl.Sequence): forall i in s, j in s :: i != j ==> s[i] != s[j]

func internal/pg.(*Conn).ServerVersion(c) (r, err)
  props P13
  requires c: c != nil && c.conn != nil && c.log != nil
  modifies rowCalls, rowAt, rowSQL, rowFrom, rowQuery, rowArgs, rowArg, rowsFailed, scanErr
  ensures error: err == scanErr && (err != nil ==> r == "")
  ensures asked: rowCalls == old(rowCalls) + 1
  ensures value: err == nil ==> r == cell(rowAt[old(rowCalls)], 0, column(rowQuery, "version()"))

func internal/pg.(*Conn).DescribeFunction(c, schema, name) (r, err)
  props P13
  requires c: c != nil && c.conn != nil && c.log != nil
  modifies rowCalls, rowAt, rowSQL, rowFrom, rowQuery, rowArgs, rowArg, rowsFailed, scanErr
  ensures asked: sqlparam(rowQuery, "n.nspname") == 1 && sqlparam(rowQuery, "p.proname") == 2 && rowArgs == 2 && rowArg[0] == schema && rowArg[1] == name
  ensures calls: rowCalls == old(rowCalls) + 1
  ensures missing: scanErr == pgx.ErrNoRows ==> err == ErrNotFound
  ensures error: scanErr != nil && scanErr != pgx.ErrNoRows ==> err == scanErr
  ensures none: err != nil ==> r == nil
  ensures found: scanErr == nil ==> err == nil && r != nil && fresh(r) && r.Schema == schema && r.Name == name && described(r, rowAt[old(rowCalls)])
pred described(f: *ddl.Function, r: *pgx.Rows) = f.Owner == cell(r, 0, column(rowQuery, "pg_get_userbyid(p.proowner)")) && f.Comment == cell(r, 0, column(rowQuery, "obj_description(p.oid, 'pg_proc')")) && f.Returns == cell(r, 0, column(rowQuery, "pg_get_function_result(p.oid)")) && f.Language == cell(r, 0, column(rowQuery, "l.lanname")) && f.Definition == cell(r, 0, column(rowQuery, "p.prosrc"))

pred trigDef(n: int) = cell(rowAt[n], 0, column(rowQuery, "pg_get_triggerdef(t.oid, true)"))
func internal/pg.(*Conn).DescribeTrigger(c, schema, table, name) (r, err)
  props P13
  requires c: c != nil && c.conn != nil && c.log != nil
  modifies rowCalls, rowAt, rowSQL, rowFrom, rowQuery, rowArgs, rowArg, rowsFailed, scanErr
  ensures asked: sqlparam(rowQuery, "n.nspname") == 1 && sqlparam(rowQuery, "c.relname") == 2 && sqlparam(rowQuery, "t.tgname") == 3 && rowArgs == 3 && rowArg[0] == schema && rowArg[1] == table && rowArg[2] == name
  ensures calls: rowCalls == old(rowCalls) + 1
  ensures missing: scanErr == pgx.ErrNoRows ==> err == ErrNotFound
  ensures error: scanErr != nil && scanErr != pgx.ErrNoRows ==> err == scanErr
  ensures none: err != nil ==> r == nil
  ensures bad: scanErr == nil && !triggerOK(trigDef(old(rowCalls))) ==> err != nil
  ensures found: scanErr == nil && triggerOK(trigDef(old(rowCalls))) ==> err == nil && r != nil && fresh(r) && r.Schema == schema && triggerText(r, trigDef(old(rowCalls)))

fun splitLen(string, string) int
fun splitAt(string, string, int) string
extern strings.Split(s, sep) (r)
  modifies nothing
  ensures parts: fresh(r) && len(r) == splitLen(s, sep) && (forall k in r :: r[k] == splitAt(s, sep, k))

extern strings.SplitN(s, sep, n) (r)
  requires two: n == 2 && sep != ""
  modifies nothing
  ensures new: fresh(r)
  ensures one: indexOf(s, sep) < 0 ==> len(r) == 1 && r[0] == s
  ensures two: indexOf(s, sep) >= 0 ==> len(r) == 2 && r[0] == s[:indexOf(s, sep)] && r[1] == s[indexOf(s, sep)+len(sep):]

func internal/pg.(*Conn).ListParameters(c) (r, err)
  props P13
  requires c: c != nil && c.conn != nil && c.log != nil
  modifies rowCalls, rowAt, rowSQL, rowFrom, rowQuery, rowArgs, rowArg, rowsFailed, scanErr, lastParams, listFails
  assign lastParams = r
  assign listFails = listFails + 1 when err != nil
  ensures fails: (err == nil ==> listFails == old(listFails)) && (err != nil ==> listFails == old(listFails) + 1)
  ensures last: lastParams == r
  ensures none: err != nil ==> r == nil
  ensures error: scanErr != nil ==> err == scanErr
  ensures good: scanErr == nil ==> err == nil && r != nil && fresh(r) && rowCalls == old(rowCalls) + 2
  ensures asked: err == nil ==> (rowSQL[old(rowCalls)] == "SHOW search_path" && rowSQL[old(rowCalls)+1] == "SHOW timezone")
  ensures path: err == nil ==> len(r.SearchPath) == splitLen(cell(rowAt[old(rowCalls)], 0, 0), ",") && (forall k in r.SearchPath :: r.SearchPath[k] == splitAt(cell(rowAt[old(rowCalls)], 0, 0), ",", k))
  ensures zone: err == nil ==> r.Timezone == cell(rowAt[old(rowCalls)+1], 0, 0)

pred seqEntry(r: *ddl.Sequence, i: int) = r.Schema == cell(lastRows, i, column(listSQL, "n.nspname")) && r.Name == cell(lastRows, i, column(listSQL, "c.relname")) && r.Owner == cell(lastRows, i, column(listSQL, "pg_get_userbyid(c.relowner)")) && r.Comment == cell(lastRows, i, column(listSQL, "obj_description(c.oid, 'pg_class')")) && r.DataType == "bigint"
pred seqOwner(r: *ddl.Sequence, i: int) = r.OwnedBy != nil && r.OwnedBy.Schema == cell(lastRows, i, column(listSQL, "n2.nspname")) && r.OwnedBy.Table == cell(lastRows, i, column(listSQL, "c2.relname")) && r.OwnedBy.Column == cell(lastRows, i, column(listSQL, "a2.attname"))
// the columns are those of a sequence's own row: start_value, min_value, max_value, increment_by, cache_value, is_cycled
pred seqValues(r: *ddl.Sequence, n: int) = r.Start == cellInt(rowAt[n], 0, 0) && r.Minimum == cellInt(rowAt[n], 0, 1) && r.Maximum == cellInt(rowAt[n], 0, 2) && r.Increment == cellInt(rowAt[n], 0, 3) && r.Cache == cellInt(rowAt[n], 0, 4) && r.Cycle == cellBool(rowAt[n], 0, 5)
pred seqFrom(r: *ddl.Sequence, n: int) = (rowFrom[n] == "\"" + replaceAll(replaceAll(r.Schema, "\0", ""), "\"", "\"\"") + "\"" + "." + "\"" + replaceAll(replaceAll(r.Name, "\0", ""), "\"", "\"\"") + "\"")

func internal/pg.(*Conn).listSequencesLegacy(c) (r, err)
  props P13
  requires c: c != nil && c.conn != nil && c.log != nil
  modifies listSQL, listArgs, listArg, lastRows, rowN, rowsEnd, rowsOpen, rowCalls, rowAt, rowSQL, rowFrom, rowQuery, rowArgs, rowArg, rowsFailed, scanErr
  ensures free: rowsOpen == old(rowsOpen)
  ensures none: err != nil ==> r == nil
  ensures complete: err == nil ==> listed(len(r))
  ensures there: err == nil ==> forall i in r :: r[i] != nil && fresh(r[i])
  ensures rows: err == nil ==> forall i in r :: seqEntry(r[i], i) && seqOwner(r[i], i)
  ensures values: err == nil ==> forall i in r :: seqValues(r[i], old(rowCalls) + i)
  ensures from: err == nil ==> forall i in r :: seqFrom(r[i], old(rowCalls) + i)
  ensures distinct: err == nil ==> forall i in r, j in r :: i != j ==> r[i] != r[j]
  inv open: rowsOpen == setadd(old(rowsOpen), lastRows) && !(lastRows in old(rowsOpen))
  inv state: !(lastRows in rowsFailed) && !(lastRows in rowsEnd)
  inv count for (s: phi []*ddl.Sequence): len(s) == rowN[lastRows]
  inv there for (s: phi []*ddl.Sequence): forall i in s :: s[i] != nil && fresh(s[i])
  inv rows for (s: phi []*ddl.Sequence): forall i in s :: seqEntry(s[i], i) && seqOwner(s[i], i)
  inv distinct for (s: phi []*ddl.Sequence): forall i in s, j in s :: i != j ==> s[i] != s[j]
  inv there2 for (s: []*ddl.Sequence): forall i in s :: s[i] != nil && fresh(s[i])
  inv rows2 for (s: []*ddl.Sequence): forall i in s :: seqEntry(s[i], i) && seqOwner(s[i], i)
  inv distinct2 for (s: []*ddl.Sequence): forall i in s, j in s :: i != j ==> s[i] != s[j]
  inv calls for (k: idx): rowCalls == old(rowCalls) + k
  inv values for (k: idx, s: []*ddl.Sequence): forall i in s :: i < k ==> seqValues(s[i], old(rowCalls) + i)
  inv from for (k: idx, s: []*ddl.Sequence): forall i in s :: i < k ==> seqFrom(s[i], old(rowCalls) + i)

func internal/pg.(*Conn).ListSequences(c) (r, err)
  props P13
  requires c: c != nil && c.conn != nil && c.log != nil
  modifies listSQL, listArgs, listArg, lastRows, rowN, rowsEnd, rowsOpen, rowCalls, rowAt, rowSQL, rowFrom, rowQuery, rowArgs, rowArg, rowsFailed, scanErr, seqN, seqLen, seqTotal, listFails
  assign seqLen[seqN] = len(r)
  assign seqTotal = seqTotal + len(r)
  assign seqN = seqN + 1
  assign listFails = listFails + 1 when err != nil
  ensures fails: (err == nil ==> listFails == old(listFails)) && (err != nil ==> listFails == old(listFails) + 1)
  ensures called: seqN == old(seqN) + 1 && seqLen == update(old(seqLen), old(seqN), len(r)) && seqTotal == old(seqTotal) + len(r)
  names entries: forall i in r :: seqCall(r[i]) == old(seqN) && seqPos(r[i]) == i
  ensures there: err == nil ==> forall i in r :: r[i] != nil && fresh(r[i])
  ensures free: rowsOpen == old(rowsOpen)
  ensures none: err != nil ==> r == nil
  ensures complete: err == nil ==> listed(len(r))
  ensures distinct: err == nil ==> forall i in r, j in r :: i != j ==> r[i] != r[j]

ghost setN: int
ghost setKey: tmap[int]string
ghost setValue: tmap[int]string
ghost setOn: tmap[int]*ddl.TableStorageParameters
pred setting(text: string, n: int) = (indexOf(text, "=") < 0 ==> setKey[n] == text && setValue[n] == "") && (indexOf(text, "=") >= 0 ==> setKey[n] == text[:indexOf(text, "=")] && setValue[n] == text[indexOf(text, "=")+1:])

func internal/pg.(*Conn).ListTableStorageParameters(c, schema, table) (r, err)
  props P13
  requires c: c != nil && c.conn != nil && c.log != nil
  modifies listSQL, listArgs, listArg, lastRows, rowN, rowsEnd, rowsOpen, rowsFailed, scanErr, setN, setKey, setValue, setOn, tspN, tspOf, tspSchema, tspTable, listFails
  assign tspOf[tspN] = r
  assign tspSchema[tspN] = schema
  assign tspTable[tspN] = table
  assign tspN = tspN + 1
  assign listFails = listFails + 1 when err != nil
  ensures fails: (err == nil ==> listFails == old(listFails)) && (err != nil ==> listFails == old(listFails) + 1)
  ensures called: tspN == old(tspN) + 1 && tspOf == update(old(tspOf), old(tspN), r) && tspSchema == update(old(tspSchema), old(tspN), schema) && tspTable == update(old(tspTable), old(tspN), table)
  assign at Set setOn[setN] = arg0
  assign at Set setKey[setN] = arg1
  assign at Set setValue[setN] = arg2
  assign at Set setN = setN + 1
  ensures free: rowsOpen == old(rowsOpen)
  ensures asked: sqlparam(listSQL, "n.nspname") == 1 && sqlparam(listSQL, "c.relname") == 2 && listArgs == 2 && listArg[0] == schema && listArg[1] == table
  ensures none: err != nil ==> r == nil
  ensures complete: err == nil ==> r != nil && fresh(r) && listed(setN - old(setN))
  ensures set: err == nil ==> forall n: int :: old(setN) <= n && n < setN ==> setOn[n] == r && setting(cell(lastRows, n - old(setN), 0), n)
  inv open: rowsOpen == setadd(old(rowsOpen), lastRows) && !(lastRows in old(rowsOpen))
  inv state: !(lastRows in rowsFailed) && !(lastRows in rowsEnd)
  inv count: setN == old(setN) + rowN[lastRows]
  inv on for (p: *ddl.TableStorageParameters): forall n: int :: old(setN) <= n && n < setN ==> setOn[n] == p
  inv set for (p: *ddl.TableStorageParameters): forall n: int :: old(setN) <= n && n < setN ==> setting(cell(lastRows, n - old(setN), 0), n)
