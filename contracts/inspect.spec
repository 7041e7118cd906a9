package internal/pg

// -------------------------------------------------------------- inspection
// the Columns of a table are the entries of call n, each once
pred colFor(t: *ddl.Table, n: int) = colSchema[n] == t.Schema && colTable[n] == t.Name
pred colCount(t: *ddl.Table, n: int) = len(t.Columns) == colLen[n]
pred colOf(t: *ddl.Table, n: int) = (forall i in t.Columns :: t.Columns[i] != nil && colCall(t.Columns[i]) == n && 0 <= colPos(t.Columns[i]) && colPos(t.Columns[i]) < colLen[n])
pred colOnce(t: *ddl.Table) = forall i in t.Columns, j in t.Columns :: i != j ==> colPos(t.Columns[i]) != colPos(t.Columns[j])
pred colKept(t: *ddl.Table) = forall i in t.Columns :: colPos(t.Columns[i]) == i
// the Checks of a table are the entries of call n, each once
pred chkFor(t: *ddl.Table, n: int) = chkSchema[n] == t.Schema && chkTable[n] == t.Name
pred chkCount(t: *ddl.Table, n: int) = len(t.Checks) == chkLen[n]
pred chkOf(t: *ddl.Table, n: int) = (forall i in t.Checks :: t.Checks[i] != nil && chkCall(t.Checks[i]) == n && 0 <= chkPos(t.Checks[i]) && chkPos(t.Checks[i]) < chkLen[n])
pred chkOnce(t: *ddl.Table) = forall i in t.Checks, j in t.Checks :: i != j ==> chkPos(t.Checks[i]) != chkPos(t.Checks[j])
pred chkKept(t: *ddl.Table) = forall i in t.Checks :: chkPos(t.Checks[i]) == i
// the ForeignKeys of a table are the entries of call n, each once
pred fkyFor(t: *ddl.Table, n: int) = fkySchema[n] == t.Schema && fkyTable[n] == t.Name
pred fkyCount(t: *ddl.Table, n: int) = len(t.ForeignKeys) == fkyLen[n]
pred fkyOf(t: *ddl.Table, n: int) = (forall i in t.ForeignKeys :: t.ForeignKeys[i] != nil && fkyCall(t.ForeignKeys[i]) == n && 0 <= fkyPos(t.ForeignKeys[i]) && fkyPos(t.ForeignKeys[i]) < fkyLen[n])
pred fkyOnce(t: *ddl.Table) = forall i in t.ForeignKeys, j in t.ForeignKeys :: i != j ==> fkyPos(t.ForeignKeys[i]) != fkyPos(t.ForeignKeys[j])
pred fkyKept(t: *ddl.Table) = forall i in t.ForeignKeys :: fkyPos(t.ForeignKeys[i]) == i
pred byName(t: *ddl.Table) = forall i in t.Columns, j in t.Columns :: i < j ==> !(t.Columns[j].Name < t.Columns[i].Name)
pred byExpression(t: *ddl.Table) = forall i in t.Checks, j in t.Checks :: i < j ==> !(t.Checks[j].Expression < t.Checks[i].Expression)
pred settingsOf(t: *ddl.Table, n: int) = t.StorageParameters == tspOf[n] && tspSchema[n] == t.Schema && tspTable[n] == t.Name

func internal/pg.(*Conn).inspectTable(c, o, db, table) (err)
  props P14
  opt merge on
  requires c: c != nil && c.conn != nil && c.log != nil
  requires in: o != nil && db != nil && table != nil && table.Checks == nil && table.ForeignKeys == nil
  modifies table.Columns, table.Checks, table.ForeignKeys, table.StorageParameters, db.Indexes, db.Triggers, elems(db.Indexes), elems(db.Triggers), listSQL, listArgs, listArg, lastRows, rowN, rowsEnd, rowsFailed, rowsOpen, scanErr, setN, setKey, setValue, setOn, listFails, tspN, tspOf, tspSchema, tspTable, colN, colLen, colTotal, colSchema, colTable, chkN, chkLen, chkTotal, chkSchema, chkTable, fkyN, fkyLen, fkyTotal, fkySchema, fkyTable, idxN, idxLen, idxTotal, idxSchema, idxTable, trgN, trgLen, trgTotal, trgSchema, trgTable
  ensures fails: (err == nil ==> listFails == old(listFails)) && (err != nil ==> listFails == old(listFails) + 1)
  ensures once: err == nil ==> colN == old(colN) + 1 && chkN == old(chkN) + 1 && fkyN == old(fkyN) + 1 && tspN == old(tspN) + 1 && idxN == old(idxN) + 1 && trgN == old(trgN) + 1
  ensures before_col: err == nil ==> colLen == update(old(colLen), old(colN), colLen[old(colN)]) && colSchema == update(old(colSchema), old(colN), table.Schema) && colTable == update(old(colTable), old(colN), table.Name)
  ensures before_chk: err == nil ==> chkLen == update(old(chkLen), old(chkN), chkLen[old(chkN)]) && chkSchema == update(old(chkSchema), old(chkN), table.Schema) && chkTable == update(old(chkTable), old(chkN), table.Name)
  ensures before_fky: err == nil ==> fkyLen == update(old(fkyLen), old(fkyN), fkyLen[old(fkyN)]) && fkySchema == update(old(fkySchema), old(fkyN), table.Schema) && fkyTable == update(old(fkyTable), old(fkyN), table.Name)
  ensures before_idx: err == nil ==> idxLen == update(old(idxLen), old(idxN), idxLen[old(idxN)]) && idxSchema == update(old(idxSchema), old(idxN), table.Schema) && idxTable == update(old(idxTable), old(idxN), table.Name)
  ensures before_trg: err == nil ==> trgLen == update(old(trgLen), old(trgN), trgLen[old(trgN)]) && trgSchema == update(old(trgSchema), old(trgN), table.Schema) && trgTable == update(old(trgTable), old(trgN), table.Name)
  ensures before_tsp: err == nil ==> tspOf == update(old(tspOf), old(tspN), table.StorageParameters) && tspSchema == update(old(tspSchema), old(tspN), table.Schema) && tspTable == update(old(tspTable), old(tspN), table.Name)
  ensures col: err == nil ==> colOf(table, old(colN))
  ensures col_count: err == nil ==> colCount(table, old(colN))
  ensures col_once: err == nil ==> colOnce(table)
  ensures chk: err == nil ==> chkOf(table, old(chkN))
  ensures chk_count: err == nil ==> chkCount(table, old(chkN))
  ensures chk_once: err == nil ==> chkOnce(table)
  ensures fky: err == nil ==> fkyOf(table, old(fkyN))
  ensures fky_count: err == nil ==> fkyCount(table, old(fkyN))
  ensures fky_once: err == nil ==> fkyOnce(table)
  ensures col_kept: err == nil && !o.SortColumns ==> colKept(table)
  ensures col_sorted: err == nil && o.SortColumns ==> byName(table)
  ensures chk_kept: err == nil && !o.SortChecks ==> chkKept(table)
  ensures chk_sorted: err == nil && o.SortChecks ==> byExpression(table)
  ensures fky_kept: err == nil ==> fkyKept(table)
  ensures idx_count: err == nil ==> len(db.Indexes) == old(len(db.Indexes)) + idxLen[old(idxN)] && idxTotal == old(idxTotal) + idxLen[old(idxN)]
  ensures idx_own: err == nil ==> db.Indexes == nil || ref(db.Indexes) == old(ref(db.Indexes)) || fresh(db.Indexes)
  ensures idx_old: err == nil ==> forall i in db.Indexes :: i < old(len(db.Indexes)) ==> db.Indexes[i] == old(db.Indexes[i])
  ensures idx_new: err == nil ==> forall i in db.Indexes :: i >= old(len(db.Indexes)) ==> db.Indexes[i] != nil && idxCall(db.Indexes[i]) == old(idxN) && idxPos(db.Indexes[i]) == i - old(len(db.Indexes))
  ensures trg_count: err == nil ==> len(db.Triggers) == old(len(db.Triggers)) + trgLen[old(trgN)] && trgTotal == old(trgTotal) + trgLen[old(trgN)]
  ensures trg_own: err == nil ==> db.Triggers == nil || ref(db.Triggers) == old(ref(db.Triggers)) || fresh(db.Triggers)
  ensures trg_old: err == nil ==> forall i in db.Triggers :: i < old(len(db.Triggers)) ==> db.Triggers[i] == old(db.Triggers[i])
  ensures trg_new: err == nil ==> forall i in db.Triggers :: i >= old(len(db.Triggers)) ==> db.Triggers[i] != nil && trgCall(db.Triggers[i]) == old(trgN) && trgPos(db.Triggers[i]) == i - old(len(db.Triggers))

// entries of the calls from a on, each once
pred idxAll(s: []*ddl.Index, a: int) = forall i in s :: s[i] != nil && a <= idxCall(s[i]) && idxCall(s[i]) < idxN && 0 <= idxPos(s[i]) && idxPos(s[i]) < idxLen[idxCall(s[i])]
pred idxEach(s: []*ddl.Index) = forall i in s, j in s :: i != j ==> idxCall(s[i]) != idxCall(s[j]) || idxPos(s[i]) != idxPos(s[j])
pred idxOrder(s: []*ddl.Index) = forall i in s, j in s :: i < j ==> idxCall(s[i]) < idxCall(s[j]) || idxCall(s[i]) == idxCall(s[j]) && idxPos(s[i]) < idxPos(s[j])

// entries of the calls from a on, each once
pred trgAll(s: []*ddl.Trigger, a: int) = forall i in s :: s[i] != nil && a <= trgCall(s[i]) && trgCall(s[i]) < trgN && 0 <= trgPos(s[i]) && trgPos(s[i]) < trgLen[trgCall(s[i])]
pred trgEach(s: []*ddl.Trigger) = forall i in s, j in s :: i != j ==> trgCall(s[i]) != trgCall(s[j]) || trgPos(s[i]) != trgPos(s[j])
pred trgOrder(s: []*ddl.Trigger) = forall i in s, j in s :: i < j ==> trgCall(s[i]) < trgCall(s[j]) || trgCall(s[i]) == trgCall(s[j]) && trgPos(s[i]) < trgPos(s[j])

pred idxBefore(a: *ddl.Index, b: *ddl.Index) = a.Schema < b.Schema || a.Schema == b.Schema && (a.Table < b.Table || a.Table == b.Table && a.Name < b.Name)
pred idxSorted(s: []*ddl.Index) = forall i in s, j in s :: i < j ==> !idxBefore(s[j], s[i])

func internal/pg.(*Conn).inspectTables(c, o, db) (err)
  props P14
  opt retry on
  requires c: c != nil && c.conn != nil && c.log != nil
  requires in: o != nil && db != nil && db.Indexes == nil && db.Triggers == nil
  modifies db.Tables, db.Indexes, db.Triggers, listSQL, listArgs, listArg, lastRows, rowN, rowsEnd, rowsFailed, rowsOpen, scanErr, setN, setKey, setValue, setOn, listFails, tspN, tspOf, tspSchema, tspTable, colN, colLen, colTotal, colSchema, colTable, chkN, chkLen, chkTotal, chkSchema, chkTable, fkyN, fkyLen, fkyTotal, fkySchema, fkyTable, idxN, idxLen, idxTotal, idxSchema, idxTable, trgN, trgLen, trgTotal, trgSchema, trgTable, tabN, tabLen, tabTotal
  ensures fails: (err == nil ==> listFails == old(listFails)) && (err != nil ==> listFails == old(listFails) + 1)
  ensures tables: err == nil ==> tabN == old(tabN) + 1 && len(db.Tables) == tabLen[old(tabN)] && (forall i in db.Tables :: db.Tables[i] != nil && tabCall(db.Tables[i]) == old(tabN) && tabPos(db.Tables[i]) == i)
  ensures calls: err == nil ==> colN == old(colN) + len(db.Tables) && chkN == old(chkN) + len(db.Tables) && fkyN == old(fkyN) + len(db.Tables) && tspN == old(tspN) + len(db.Tables) && idxN == old(idxN) + len(db.Tables) && trgN == old(trgN) + len(db.Tables)
  ensures col: err == nil ==> forall i in db.Tables :: colOf(db.Tables[i], old(colN) + i)
  ensures col_for: err == nil ==> forall i in db.Tables :: colFor(db.Tables[i], old(colN) + i)
  ensures col_count: err == nil ==> forall i in db.Tables :: colCount(db.Tables[i], old(colN) + i)
  ensures col_once: err == nil ==> forall i in db.Tables :: colOnce(db.Tables[i])
  ensures chk: err == nil ==> forall i in db.Tables :: chkOf(db.Tables[i], old(chkN) + i)
  ensures chk_for: err == nil ==> forall i in db.Tables :: chkFor(db.Tables[i], old(chkN) + i)
  ensures chk_count: err == nil ==> forall i in db.Tables :: chkCount(db.Tables[i], old(chkN) + i)
  ensures chk_once: err == nil ==> forall i in db.Tables :: chkOnce(db.Tables[i])
  ensures fky: err == nil ==> forall i in db.Tables :: fkyOf(db.Tables[i], old(fkyN) + i)
  ensures fky_for: err == nil ==> forall i in db.Tables :: fkyFor(db.Tables[i], old(fkyN) + i)
  ensures fky_count: err == nil ==> forall i in db.Tables :: fkyCount(db.Tables[i], old(fkyN) + i)
  ensures fky_once: err == nil ==> forall i in db.Tables :: fkyOnce(db.Tables[i])
  ensures settings: err == nil ==> forall i in db.Tables :: settingsOf(db.Tables[i], old(tspN) + i)
  ensures fky_kept: err == nil ==> forall i in db.Tables :: fkyKept(db.Tables[i])
  ensures idx_for: err == nil ==> forall i in db.Tables :: idxSchema[old(idxN) + i] == db.Tables[i].Schema && idxTable[old(idxN) + i] == db.Tables[i].Name
  ensures trg_for: err == nil ==> forall i in db.Tables :: trgSchema[old(trgN) + i] == db.Tables[i].Schema && trgTable[old(trgN) + i] == db.Tables[i].Name
  ensures col_kept: err == nil && !o.SortColumns ==> forall i in db.Tables :: colKept(db.Tables[i])
  ensures col_sorted: err == nil && o.SortColumns ==> forall i in db.Tables :: byName(db.Tables[i])
  ensures chk_kept: err == nil && !o.SortChecks ==> forall i in db.Tables :: chkKept(db.Tables[i])
  ensures chk_sorted: err == nil && o.SortChecks ==> forall i in db.Tables :: byExpression(db.Tables[i])
  ensures idx_count: err == nil ==> len(db.Indexes) == idxTotal - old(idxTotal)
  ensures idx_all: err == nil ==> idxAll(db.Indexes, old(idxN))
  ensures idx_once: err == nil ==> idxEach(db.Indexes)
  ensures trg_count: err == nil ==> len(db.Triggers) == trgTotal - old(trgTotal)
  ensures trg_all: err == nil ==> trgAll(db.Triggers, old(trgN))
  ensures trg_once: err == nil ==> trgEach(db.Triggers)
  ensures idx_kept: err == nil && !o.SortIndexes ==> idxOrder(db.Indexes)
  ensures idx_sorted: err == nil && o.SortIndexes ==> idxSorted(db.Indexes)
  ensures trg_kept: err == nil ==> trgOrder(db.Triggers)
  inv fails: listFails == old(listFails)
  inv calls for (k: idx): colN == old(colN) + k && chkN == old(chkN) + k && fkyN == old(fkyN) + k && tspN == old(tspN) + k && idxN == old(idxN) + k && trgN == old(trgN) + k
  inv there: forall i in db.Tables :: db.Tables[i] != nil && fresh(db.Tables[i])
  inv distinct: forall i in db.Tables, j in db.Tables :: i != j ==> db.Tables[i] != db.Tables[j]
  inv bare for (k: idx): forall i in db.Tables :: i >= k ==> db.Tables[i].Checks == nil && db.Tables[i].ForeignKeys == nil
  inv col for (k: idx): forall i in db.Tables :: i < k ==> colOf(db.Tables[i], old(colN) + i)
  inv col_for for (k: idx): forall i in db.Tables :: i < k ==> colFor(db.Tables[i], old(colN) + i)
  inv col_count for (k: idx): forall i in db.Tables :: i < k ==> colCount(db.Tables[i], old(colN) + i)
  inv col_once for (k: idx): forall i in db.Tables :: i < k ==> colOnce(db.Tables[i])
  inv chk for (k: idx): forall i in db.Tables :: i < k ==> chkOf(db.Tables[i], old(chkN) + i)
  inv chk_for for (k: idx): forall i in db.Tables :: i < k ==> chkFor(db.Tables[i], old(chkN) + i)
  inv chk_count for (k: idx): forall i in db.Tables :: i < k ==> chkCount(db.Tables[i], old(chkN) + i)
  inv chk_once for (k: idx): forall i in db.Tables :: i < k ==> chkOnce(db.Tables[i])
  inv fky for (k: idx): forall i in db.Tables :: i < k ==> fkyOf(db.Tables[i], old(fkyN) + i)
  inv fky_for for (k: idx): forall i in db.Tables :: i < k ==> fkyFor(db.Tables[i], old(fkyN) + i)
  inv fky_count for (k: idx): forall i in db.Tables :: i < k ==> fkyCount(db.Tables[i], old(fkyN) + i)
  inv fky_once for (k: idx): forall i in db.Tables :: i < k ==> fkyOnce(db.Tables[i])
  inv settings for (k: idx): forall i in db.Tables :: i < k ==> settingsOf(db.Tables[i], old(tspN) + i)
  inv fky_kept for (k: idx): forall i in db.Tables :: i < k ==> fkyKept(db.Tables[i])
  inv idx_for for (k: idx): forall i in db.Tables :: i < k ==> idxSchema[old(idxN) + i] == db.Tables[i].Schema && idxTable[old(idxN) + i] == db.Tables[i].Name
  inv trg_for for (k: idx): forall i in db.Tables :: i < k ==> trgSchema[old(trgN) + i] == db.Tables[i].Schema && trgTable[old(trgN) + i] == db.Tables[i].Name
  inv col_kept for (k: idx): !o.SortColumns ==> forall i in db.Tables :: i < k ==> colKept(db.Tables[i])
  inv col_sorted for (k: idx): o.SortColumns ==> forall i in db.Tables :: i < k ==> byName(db.Tables[i])
  inv chk_kept for (k: idx): !o.SortChecks ==> forall i in db.Tables :: i < k ==> chkKept(db.Tables[i])
  inv chk_sorted for (k: idx): o.SortChecks ==> forall i in db.Tables :: i < k ==> byExpression(db.Tables[i])
  inv idx_count: len(db.Indexes) == idxTotal - old(idxTotal)
  inv idx_own: db.Indexes == nil || fresh(db.Indexes)
  inv idx_all: idxAll(db.Indexes, old(idxN))
  inv idx_order: idxOrder(db.Indexes)
  inv trg_count: len(db.Triggers) == trgTotal - old(trgTotal)
  inv trg_own: db.Triggers == nil || fresh(db.Triggers)
  inv trg_all: trgAll(db.Triggers, old(trgN))
  inv trg_order: trgOrder(db.Triggers)

func internal/pg.(*Conn).InspectDatabase(c, o) (db, err)
  props P14
  requires c: c != nil && c.conn != nil && c.log != nil
  modifies listSQL, listArgs, listArg, lastRows, rowN, rowsEnd, rowsFailed, rowsOpen, scanErr, setN, setKey, setValue, setOn, listFails, tspN, tspOf, tspSchema, tspTable, colN, colLen, colTotal, colSchema, colTable, chkN, chkLen, chkTotal, chkSchema, chkTable, fkyN, fkyLen, fkyTotal, fkySchema, fkyTable, idxN, idxLen, idxTotal, idxSchema, idxTable, trgN, trgLen, trgTotal, trgSchema, trgTable, tabN, tabLen, tabTotal, schN, schLen, schTotal, funN, funLen, funTotal, seqN, seqLen, seqTotal, lastParams, rowCalls, rowAt, rowSQL, rowFrom, rowQuery, rowArgs, rowArg
  ensures fails: (err == nil ==> listFails == old(listFails)) && (err != nil ==> listFails == old(listFails) + 1 && db == nil)
  ensures parameters: err == nil ==> db != nil && fresh(db) && db.Parameters == lastParams
  ensures sch: err == nil ==> schN == old(schN) + 1 && len(db.Schemas) == schLen[old(schN)] && (forall i in db.Schemas :: db.Schemas[i] != nil && schCall(db.Schemas[i]) == old(schN) && schPos(db.Schemas[i]) == i)
  ensures fun: err == nil ==> funN == old(funN) + 1 && len(db.Functions) == funLen[old(funN)] && (forall i in db.Functions :: db.Functions[i] != nil && funCall(db.Functions[i]) == old(funN) && funPos(db.Functions[i]) == i)
  ensures seq: err == nil ==> seqN == old(seqN) + 1 && len(db.Sequences) == seqLen[old(seqN)] && (forall i in db.Sequences :: db.Sequences[i] != nil && seqCall(db.Sequences[i]) == old(seqN) && seqPos(db.Sequences[i]) == i)
  ensures tables: err == nil ==> tabN == old(tabN) + 1 && len(db.Tables) == tabLen[old(tabN)] && (forall i in db.Tables :: db.Tables[i] != nil && tabCall(db.Tables[i]) == old(tabN) && tabPos(db.Tables[i]) == i)
  ensures calls: err == nil ==> colN == old(colN) + len(db.Tables) && chkN == old(chkN) + len(db.Tables) && fkyN == old(fkyN) + len(db.Tables) && tspN == old(tspN) + len(db.Tables) && idxN == old(idxN) + len(db.Tables) && trgN == old(trgN) + len(db.Tables)
  ensures col: err == nil ==> forall i in db.Tables :: colOf(db.Tables[i], old(colN) + i)
  ensures col_for: err == nil ==> forall i in db.Tables :: colFor(db.Tables[i], old(colN) + i)
  ensures col_count: err == nil ==> forall i in db.Tables :: colCount(db.Tables[i], old(colN) + i)
  ensures col_once: err == nil ==> forall i in db.Tables :: colOnce(db.Tables[i])
  ensures chk: err == nil ==> forall i in db.Tables :: chkOf(db.Tables[i], old(chkN) + i)
  ensures chk_for: err == nil ==> forall i in db.Tables :: chkFor(db.Tables[i], old(chkN) + i)
  ensures chk_count: err == nil ==> forall i in db.Tables :: chkCount(db.Tables[i], old(chkN) + i)
  ensures chk_once: err == nil ==> forall i in db.Tables :: chkOnce(db.Tables[i])
  ensures fky: err == nil ==> forall i in db.Tables :: fkyOf(db.Tables[i], old(fkyN) + i)
  ensures fky_for: err == nil ==> forall i in db.Tables :: fkyFor(db.Tables[i], old(fkyN) + i)
  ensures fky_count: err == nil ==> forall i in db.Tables :: fkyCount(db.Tables[i], old(fkyN) + i)
  ensures fky_once: err == nil ==> forall i in db.Tables :: fkyOnce(db.Tables[i])
  ensures settings: err == nil ==> forall i in db.Tables :: settingsOf(db.Tables[i], old(tspN) + i)
  ensures fky_kept: err == nil ==> forall i in db.Tables :: fkyKept(db.Tables[i])
  ensures idx_for: err == nil ==> forall i in db.Tables :: idxSchema[old(idxN) + i] == db.Tables[i].Schema && idxTable[old(idxN) + i] == db.Tables[i].Name
  ensures trg_for: err == nil ==> forall i in db.Tables :: trgSchema[old(trgN) + i] == db.Tables[i].Schema && trgTable[old(trgN) + i] == db.Tables[i].Name
  ensures col_kept: err == nil && (o == nil || !o.SortColumns) ==> forall i in db.Tables :: colKept(db.Tables[i])
  ensures col_sorted: err == nil && o != nil && o.SortColumns ==> forall i in db.Tables :: byName(db.Tables[i])
  ensures chk_kept: err == nil && (o == nil || !o.SortChecks) ==> forall i in db.Tables :: chkKept(db.Tables[i])
  ensures chk_sorted: err == nil && o != nil && o.SortChecks ==> forall i in db.Tables :: byExpression(db.Tables[i])
  ensures idx_count: err == nil ==> len(db.Indexes) == idxTotal - old(idxTotal)
  ensures idx_all: err == nil ==> idxAll(db.Indexes, old(idxN))
  ensures idx_once: err == nil ==> idxEach(db.Indexes)
  ensures trg_count: err == nil ==> len(db.Triggers) == trgTotal - old(trgTotal)
  ensures trg_all: err == nil ==> trgAll(db.Triggers, old(trgN))
  ensures trg_once: err == nil ==> trgEach(db.Triggers)
  ensures idx_kept: err == nil && (o == nil || !o.SortIndexes) ==> idxOrder(db.Indexes)
  ensures idx_sorted: err == nil && o != nil && o.SortIndexes ==> idxSorted(db.Indexes)
  ensures trg_kept: err == nil ==> trgOrder(db.Triggers)
