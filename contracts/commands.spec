package internal/commands

// ---------------------------------------------------------------- listings

pred longest(s: []string, w: int) = (forall i in s :: len(s[i]) <= w) && (w == 0 || (exists i in s :: len(s[i]) == w))
pred inOrder(s: []string) = forall i in s, j in s :: i < j ==> s[i] != s[j] && !(s[j] < s[i])
pred theTasks(s: []string, b: *types.Runbook) = (forall i in s :: s[i] in b.Tasks) && (forall id: string :: id in b.Tasks ==> id in s)

func internal/commands.(*RunBookListCmd).Run(c, base) (err)
  props P24
  opt witness on
  requires in: c != nil && base != nil && base.IO.Stdout != nil
  modifies text(base.IO.Stdout), made, madeBy, configs, configOf, configAs, decSrc[new], decStrict[new], decodedFrom, decodedStrict, decodedAny, passed, loadFails, lastDoc, readName, evalName, evalSource, evalPaths, evalResult, vmPaths[new], parsed
  let OUT = base.IO.Stdout
  ensures file: err == nil ==> readName == c.File && parsed != nil
  ensures quiet: err != nil ==> text(OUT) == old(text(OUT))
  ensures lines: err == nil && !lost(OUT) ==> (exists s: []string, w: int :: theTasks(s, parsed) && inOrder(s) && longest(s, w) && text(OUT) == old(text(OUT)) + "Tasks & Targets:\n" + concat(i in len(s) :: "  " + padright(s[i], w) + "  " + vals(parsed.Tasks)[s[i]].Target + "\n"))
  // the names collected so far, and the longest of them
  inv names over type(map[runbook.TaskID]runbook.TargetID) for (s: phi []string, it: iter): (forall i in s :: s[i] in seen(it)) && (forall id: string :: id in seen(it) ==> id in s)
  inv once over type(map[runbook.TaskID]runbook.TargetID) for (s: phi []string): forall i in s, j in s :: i < j ==> s[i] != s[j]
  inv long over type(map[runbook.TaskID]runbook.TargetID) for (s: phi []string, w: phi int): longest(s, w)
  // the lines printed so far
  inv print over type([]string) for (s: []string, w: int, k: idx): !lost(OUT) ==> text(OUT) == old(text(OUT)) + "Tasks & Targets:\n" + concat(i in k :: "  " + padright(s[i], w) + "  " + vals(parsed.Tasks)[s[i]].Target + "\n")

// ---------------------------------------------------------------- destinations

// the files opened for writing
ghost fileN: int
ghost fileName: string
ghost fileFlags: int
ghost fileErr: error
ghost fileW: *os.File

extern os.OpenFile(name, flag, perm) (f, err)
  modifies fileN, fileName, fileFlags, fileErr, fileW
  ensures recorded: fileN == old(fileN) + 1 && fileName == name && fileFlags == flag && fileErr == err && fileW == f
  ensures opened: err == nil ==> f != nil && fresh(f)
  ensures empty: err == nil && flag == 577 ==> text(f) == ""

func internal/commands.(*RunBookDotCmd).Run(c, base) (err)
  props P25
  requires in: c != nil && base != nil && ispointer(base.IO.Stdout)
  modifies text(base.IO.Stdout), fileN, fileName, fileFlags, fileErr, fileW, made, madeBy, configs, configOf, configAs, decSrc[new], decStrict[new], decodedFrom, decodedStrict, decodedAny, passed, loadFails, lastDoc, readName, evalName, evalSource, evalPaths, evalResult, vmPaths[new], parsed, gvName[new], gvDirected[new], gvClusters[new], gvLabels[new], gvNodes[new], gvEdges[new], drawn, drawing
  let OUT = base.IO.Stdout
  let DASH = c.Output == "-" || c.Output == "" && !c.AutoOut
  ensures stdout: DASH ==> fileN == old(fileN)
  ensures printed: DASH && err == nil ==> text(OUT) == old(text(OUT)) + dotText(drawing)
  ensures file: !DASH ==> fileN == old(fileN) + 1 && fileFlags == 577
  ensures silent: !DASH ==> text(OUT) == old(text(OUT))
  ensures named: c.Output != "" && c.Output != "-" ==> fileName == c.Output
  ensures auto: c.Output == "" && c.AutoOut ==> fileName == c.File[0:len(c.File)-len(extOf(c.File))] + ".dot"
  ensures unopened: !DASH && fileErr != nil ==> err != nil
  ensures written: !DASH && err == nil ==> text(fileW) == dotText(drawing)
  ensures source: err == nil ==> readName == c.File

func internal/commands.(*RunBookEvalCmd).Run(c, base) (err)
  props P25
  requires in: c != nil && base != nil && ispointer(base.IO.Stdout)
  modifies text(base.IO.Stdout), fileN, fileName, fileFlags, fileErr, fileW, readName, evalName, evalSource, evalPaths, evalResult, loadFails, vmPaths[new], jsonText, colored, prettyText, alwaysOn
  let OUT = base.IO.Stdout
  let DASH = c.Output == "-" || c.Output == ""
  ensures stdout: DASH ==> fileN == old(fileN)
  ensures printed: DASH && err == nil ==> text(OUT) == old(text(OUT)) + prettyText
  ensures file: !DASH ==> fileN == old(fileN) + 1 && fileFlags == 577 && fileName == c.Output
  ensures silent: !DASH ==> text(OUT) == old(text(OUT))
  ensures unopened: !DASH && fileErr != nil ==> err != nil
  ensures written: !DASH && err == nil ==> text(fileW) == prettyText
  ensures source: err == nil ==> readName == c.File
  ensures requested: err == nil && c.Color == "true" ==> colored
  ensures never: err == nil && c.Color != "true" && c.Color != "auto" ==> !colored
  ensures tty: DASH && err == nil && c.Color == "auto" ==> (colored <==> typeis(OUT, interface{ Fd() uintptr }) && terminal(fdOf(OUT)))
  ensures ttyfile: !DASH && err == nil && c.Color == "auto" ==> (colored <==> terminal(fdOf(box(fileW, *os.File))))

// ---------------------------------------------------------------- databases

// the database description encoded last, where it was encoded, and the texts taken from there
ghost hclDB: *ddl.Database
ghost hclIn: *hclwrite.Body
ghost hclText: string
fun hclBody(*hclwrite.File) *hclwrite.Body

extern github.com/hashicorp/hcl2/hclwrite.NewEmptyFile() (f)
  modifies nothing
  ensures f: f != nil && fresh(f)

extern github.com/hashicorp/hcl2/hclwrite.(*File).Body(f) (b)
  requires f: f != nil
  modifies nothing
  ensures b: b == hclBody(f)

extern github.com/hashicorp/hcl2/gohcl.EncodeIntoBody(val, dst)
  modifies hclDB, hclIn
  ensures encoded: typeis(val, *ddl.Database) ==> hclDB == as(val, *ddl.Database) && hclIn == dst

extern github.com/hashicorp/hcl2/hclwrite.(*File).Bytes(f) (b)
  requires f: f != nil
  modifies hclText
  ensures b: hclIn == hclBody(f) ==> hclText == bytestext(b)

func internal/ddl.(*Database).Write(db, w) (err)
  props P25
  requires in: db != nil && w != nil && ispointer(w)
  modifies text(w), hclDB, hclIn, hclText
  ensures written: err == nil ==> hclDB == db && text(w) == old(text(w)) + hclText

func internal/commands.(*InspectCmd).Run(c, base) (err)
  props P12 P14 P25
  requires in: c != nil && base != nil && base.Log != nil && ispointer(base.IO.Stdout)
  modifies text(base.IO.Stdout), fileN, fileName, fileFlags, fileErr, fileW, hclDB, hclIn, hclText, dials, dialHost, dialPort, dialUser, dialPassword, dialDatabase, dialTLS, dialFallback, dialFallbackTLS, opens, openN, lastErr, slept, listSQL, listArgs, listArg, lastRows, rowN, rowsEnd, rowsFailed, rowsOpen, scanErr, setN, setKey, setValue, setOn, listFails, tspN, tspOf, tspSchema, tspTable, colN, colLen, colTotal, colSchema, colTable, chkN, chkLen, chkTotal, chkSchema, chkTable, fkyN, fkyLen, fkyTotal, fkySchema, fkyTable, idxN, idxLen, idxTotal, idxSchema, idxTable, trgN, trgLen, trgTotal, trgSchema, trgTable, tabN, tabLen, tabTotal, schN, schLen, schTotal, funN, funLen, funTotal, seqN, seqLen, seqTotal, lastParams, rowCalls, rowAt, rowSQL, rowFrom, rowQuery, rowArgs, rowArg
  let OUT = base.IO.Stdout
  let DASH = c.Output == "-" || c.Output == ""
  ensures stdout: DASH ==> fileN == old(fileN)
  ensures printed: DASH && err == nil ==> text(OUT) == old(text(OUT)) + hclText
  ensures file: !DASH && err == nil ==> fileN == old(fileN) + 1 && fileFlags == 577 && fileName == c.Output
  ensures silent: !DASH || listFails != old(listFails) ==> text(OUT) == old(text(OUT))
  ensures unopened: fileN != old(fileN) && fileErr != nil ==> err != nil
  ensures written: !DASH && err == nil ==> text(fileW) == hclText
  ensures closed: opens == old(opens)
  ensures failed: listFails != old(listFails) ==> err != nil && fileN == old(fileN)
  ensures settings: settings(c.Host, c.Port, c.Username, "", c.DBName, old(dials), dials)
  ensures policy: forall n: int :: tried(n, old(dials), dials) ==> tlsPolicy(c.SSLMode, "", n)
  ensures attempts: dials <= old(dials) + 1
  ensures tables: err == nil ==> hclDB != nil && tabN == old(tabN) + 1 && len(hclDB.Tables) == tabLen[old(tabN)]
  ensures col_kept: err == nil && !c.SortColumns ==> forall i in hclDB.Tables :: colKept(hclDB.Tables[i])
  ensures col_sorted: err == nil && c.SortColumns ==> forall i in hclDB.Tables :: byName(hclDB.Tables[i])
  ensures chk_kept: err == nil && !c.SortChecks ==> forall i in hclDB.Tables :: chkKept(hclDB.Tables[i])
  ensures chk_sorted: err == nil && c.SortChecks ==> forall i in hclDB.Tables :: byExpression(hclDB.Tables[i])
  ensures idx_kept: err == nil && !c.SortIndexes ==> idxOrder(hclDB.Indexes)
  ensures idx_sorted: err == nil && c.SortIndexes ==> idxSorted(hclDB.Indexes)

func internal/commands.(*PingCmd).Run(c, base) (err)
  props P12 P25
  requires in: c != nil && base != nil && base.Log != nil && ispointer(base.IO.Stdout)
  modifies text(base.IO.Stdout), dials, dialHost, dialPort, dialUser, dialPassword, dialDatabase, dialTLS, dialFallback, dialFallbackTLS, opens, openN, lastErr, slept, rowCalls, rowAt, rowSQL, rowFrom, rowQuery, rowArgs, rowArg, rowsFailed, scanErr
  let OUT = base.IO.Stdout
  ensures settings: settings(c.Host, c.Port, c.Username, "", c.DBName, old(dials), dials)
  ensures policy: forall n: int :: tried(n, old(dials), dials) ==> tlsPolicy(c.SSLMode, "", n)
  ensures attempts: dials <= old(dials) + 1
  ensures closed: opens == old(opens)
  ensures silent: err != nil ==> text(OUT) == old(text(OUT))
  ensures printed: err == nil && !lost(OUT) ==> rowCalls == old(rowCalls) + 1 && text(OUT) == old(text(OUT)) + cell(rowAt[old(rowCalls)], 0, column(rowQuery, "version()")) + "\n"
