package internal/runbook/parser

// ghost state: the targets made so far and by which factory, the text each
// value was decoded from, whether unknown settings were refused, which values
// passed their validation after they were last decoded, how many steps failed
ghost made: set[types.Target]
ghost madeBy: tmap[types.Target]types.TargetFactory
ghost configs: set[types.TaskConfig]
ghost configOf: tmap[types.TaskConfig]types.Target
ghost configAs: tmap[types.TaskConfig]string
ghost decodedFrom: tmap[interface{}]string
ghost decodedStrict: tmap[interface{}]bool
ghost decodedAny: set[interface{}]
ghost passed: set[interface{}]
ghost loadFails: int
ghost lastDoc: *runbook

ghost decSrc: tmap[*json.Decoder]string
ghost decStrict: tmap[*json.Decoder]bool

fun readerText(io.Reader) string

extern bytes.NewReader(b) (r)
  modifies nothing
  ensures text: r != nil && readerText(box(r, *bytes.Reader)) == bytestext(b)

extern strings.NewReader(s) (r)
  modifies nothing
  ensures text: r != nil && readerText(box(r, *strings.Reader)) == s

extern encoding/json.NewDecoder(r) (d)
  modifies decSrc[new], decStrict[new]
  ensures new: fresh(d) && decSrc[d] == readerText(r) && !decStrict[d]

extern encoding/json.(*Decoder).DisallowUnknownFields(d) ()
  requires d: d != nil
  modifies decStrict[d]
  ensures strict: decStrict[d]

extern encoding/json.(*Decoder).Decode(d, v) (err)
  requires d: d != nil
  modifies obj(x) for (x: *runbook): typeis(v, *runbook) && x == as(v, *runbook)
  modifies decodedFrom[v], decodedStrict[v], decodedAny, passed, loadFails, lastDoc
  ensures ok: err == nil ==> loadFails == old(loadFails)
  ensures bad: err != nil ==> loadFails > old(loadFails)
  ensures from: decodedFrom[v] == decSrc[d] && decodedStrict[v] == decStrict[d] && decodedAny == setadd(old(decodedAny), v)
  ensures notyet: passed == setdel(old(passed), v)
  ensures doc: typeis(v, *runbook) ==> lastDoc == as(v, *runbook)
  ensures nodoc: !typeis(v, *runbook) ==> lastDoc == old(lastDoc)

extern internal/runbook/types.(TargetFactory).NewTarget(f) (t)
  modifies made, madeBy
  ensures new: t != nil && !(t in old(made)) && made == setadd(old(made), t) && madeBy == update(old(madeBy), t, f)
  ensures plain: !typeis(t, *runbook) && !(t in decodedAny) && !(t in passed)

extern internal/runbook/types.(Target).Analyze(t) (err)
  modifies passed, loadFails
  ensures ok: err == nil ==> passed == setadd(old(passed), t) && loadFails == old(loadFails)
  ensures bad: err != nil ==> passed == old(passed) && loadFails > old(loadFails)

extern internal/runbook/types.(Target).NewTaskConfig(t, class) (c, err)
  modifies configs, configOf, configAs, loadFails
  ensures ok: err == nil ==> c != nil && !(c in old(configs)) && configs == setadd(old(configs), c) && configOf == update(old(configOf), c, t) && !typeis(c, *runbook) && configAs == update(old(configAs), c, class) && loadFails == old(loadFails) && !(c in decodedAny) && !(c in passed)
  ensures bad: err != nil ==> configs == old(configs) && configOf == old(configOf) && configAs == old(configAs) && loadFails > old(loadFails)

extern internal/runbook/types.(TaskConfig).Check(c) (err)
  modifies passed, loadFails
  ensures ok: err == nil ==> passed == setadd(old(passed), c) && loadFails == old(loadFails)
  ensures bad: err != nil ==> passed == old(passed) && loadFails > old(loadFails)

// settings given as text s reached the value v, which then passed its validation
pred configured(v: interface{}, s: []byte) = (len(s) > 0 ==> v in decodedAny && decodedFrom[v] == bytestext(s) && decodedStrict[v]) && (len(s) == 0 ==> !(v in decodedAny)) && v in passed

pred targetOK(p: *Parser, tmp: *runbook, book: *types.Runbook, id: string) = vals(tmp.Targets)[id] != nil && vals(tmp.Targets)[id].Class in p.Targets && id in book.Targets && madeBy[vals(book.Targets)[id]] == vals(p.Targets)[vals(tmp.Targets)[id].Class] && configured(vals(book.Targets)[id], vals(tmp.Targets)[id].Config)

func internal/runbook/parser.(*Parser).loadTargets(p, tmp, book) (err)
  props P08
  requires in: p != nil && tmp != nil && book != nil && book.Targets != nil && dom(book.Targets) == emptyset(string)
  requires factories: forall c: string :: c in p.Targets ==> vals(p.Targets)[c] != nil
  modifies map(book.Targets), made, madeBy, decSrc[new], decStrict[new], decodedFrom, decodedStrict, decodedAny, passed, loadFails, lastDoc
  ensures all: err == nil ==> dom(book.Targets) == dom(tmp.Targets)
  ensures each: err == nil ==> (forall id: string :: id in tmp.Targets ==> targetOK(p, tmp, book, id))
  ensures own: forall a: string, b: string :: a in book.Targets && b in book.Targets && a != b ==> vals(book.Targets)[a] != vals(book.Targets)[b]
  ensures made: forall a: string :: a in book.Targets ==> vals(book.Targets)[a] != nil && vals(book.Targets)[a] in made
  ensures doc: lastDoc == old(lastDoc) && (forall x: *runbook :: {decodedFrom[box(x, *runbook)]} decodedFrom[box(x, *runbook)] == old(decodedFrom[box(x, *runbook)])) && (forall x: *runbook :: {decodedStrict[box(x, *runbook)]} decodedStrict[box(x, *runbook)] == old(decodedStrict[box(x, *runbook)]))
  ensures clean: err == nil ==> loadFails == old(loadFails)
  ensures cause: err != nil ==> loadFails > old(loadFails) || (exists id: string :: id in tmp.Targets && (vals(tmp.Targets)[id] == nil || !(vals(tmp.Targets)[id].Class in p.Targets)))
  inv doc: lastDoc == old(lastDoc) && (forall x: *runbook :: {decodedFrom[box(x, *runbook)]} decodedFrom[box(x, *runbook)] == old(decodedFrom[box(x, *runbook)])) && (forall x: *runbook :: {decodedStrict[box(x, *runbook)]} decodedStrict[box(x, *runbook)] == old(decodedStrict[box(x, *runbook)]))
  inv same: tmp.Targets == old(tmp.Targets) && tmp.Tasks == old(tmp.Tasks)
  inv seen for (it: iter): dom(book.Targets) == seen(it) && (forall id: string :: id in seen(it) ==> targetOK(p, tmp, book, id))
  inv own: forall a: string, b: string :: a in book.Targets && b in book.Targets && a != b ==> vals(book.Targets)[a] != vals(book.Targets)[b]
  inv made: forall a: string :: a in book.Targets ==> vals(book.Targets)[a] != nil && vals(book.Targets)[a] in made
  inv clean: loadFails == old(loadFails)

pred taskTarget(s: string) = indexOf(s, "/") >= 0 ? s[0 : indexOf(s, "/")] : s
pred taskClass(s: string) = indexOf(s, "/") >= 0 ? s[indexOf(s, "/") + 1 : len(s)] : ""
pred taskOK(tmp: *runbook, book: *types.Runbook, id: string) = vals(tmp.Tasks)[id] != nil && id in book.Tasks && vals(book.Tasks)[id] != nil && vals(book.Tasks)[id].After == vals(tmp.Tasks)[id].After && vals(book.Tasks)[id].Message == vals(tmp.Tasks)[id].Message && vals(book.Tasks)[id].Target == taskTarget(vals(tmp.Tasks)[id].Target) && vals(book.Tasks)[id].Target in book.Targets && configOf[vals(book.Tasks)[id].Config] == vals(book.Targets)[vals(book.Tasks)[id].Target] && configAs[vals(book.Tasks)[id].Config] == taskClass(vals(tmp.Tasks)[id].Target) && configured(vals(book.Tasks)[id].Config, vals(tmp.Tasks)[id].Config)

func internal/runbook/parser.(*Parser).loadTasks(p, tmp, book) (err)
  props P08
  requires in: tmp != nil && book != nil && book.Targets != nil && book.Tasks != nil && dom(book.Tasks) == emptyset(string)
  requires targets: forall c: string :: c in book.Targets ==> vals(book.Targets)[c] != nil
  modifies map(book.Tasks), configs, configOf, configAs, decSrc[new], decStrict[new], decodedFrom, decodedStrict, decodedAny, passed, loadFails, lastDoc
  ensures all: err == nil ==> dom(book.Tasks) == dom(tmp.Tasks)
  ensures each: err == nil ==> (forall id: string :: id in tmp.Tasks ==> taskOK(tmp, book, id))
  ensures own: forall a: string, b: string :: a in book.Tasks && b in book.Tasks && a != b ==> vals(book.Tasks)[a] != vals(book.Tasks)[b] && vals(book.Tasks)[a].Config != vals(book.Tasks)[b].Config
  ensures doc: lastDoc == old(lastDoc) && (forall x: *runbook :: {decodedFrom[box(x, *runbook)]} decodedFrom[box(x, *runbook)] == old(decodedFrom[box(x, *runbook)])) && (forall x: *runbook :: {decodedStrict[box(x, *runbook)]} decodedStrict[box(x, *runbook)] == old(decodedStrict[box(x, *runbook)]))
  ensures kept: forall x: interface{} :: x in old(passed) ==> x in passed && decodedFrom[x] == old(decodedFrom[x]) && decodedStrict[x] == old(decodedStrict[x]) && (x in decodedAny) == old(x in decodedAny)
  ensures clean: err == nil ==> loadFails == old(loadFails)
  ensures cause: err != nil ==> loadFails > old(loadFails) || (exists id: string :: id in tmp.Tasks && (vals(tmp.Tasks)[id] == nil || !(taskTarget(vals(tmp.Tasks)[id].Target) in book.Targets)))
  inv doc: lastDoc == old(lastDoc) && (forall x: *runbook :: {decodedFrom[box(x, *runbook)]} decodedFrom[box(x, *runbook)] == old(decodedFrom[box(x, *runbook)])) && (forall x: *runbook :: {decodedStrict[box(x, *runbook)]} decodedStrict[box(x, *runbook)] == old(decodedStrict[box(x, *runbook)]))
  inv kept: forall x: interface{} :: x in old(passed) ==> x in passed && decodedFrom[x] == old(decodedFrom[x]) && decodedStrict[x] == old(decodedStrict[x]) && (x in decodedAny) == old(x in decodedAny)
  inv same: tmp.Targets == old(tmp.Targets) && tmp.Tasks == old(tmp.Tasks)
  inv seen for (it: iter): dom(book.Tasks) == seen(it)
  inv each for (it: iter): forall id: string :: id in seen(it) ==> taskOK(tmp, book, id)
  inv own: forall a: string, b: string :: a in book.Tasks && b in book.Tasks && a != b ==> vals(book.Tasks)[a] != vals(book.Tasks)[b] && vals(book.Tasks)[a].Config != vals(book.Tasks)[b].Config
  inv made: forall a: string :: a in book.Tasks ==> vals(book.Tasks)[a] != nil && fresh(vals(book.Tasks)[a]) && vals(book.Tasks)[a].Config in configs
  inv clean: loadFails == old(loadFails)

// reading and evaluating the file
ghost readName: string
ghost evalName: string
ghost evalSource: string
ghost evalPaths: []string
ghost evalResult: string

extern io/ioutil.ReadFile(name) (data, err)
  modifies readName, loadFails
  ensures name: readName == name
  ensures ok: err == nil ==> loadFails == old(loadFails)
  ensures bad: err != nil ==> loadFails > old(loadFails)
  ensures new: fresh(data)

ghost vmPaths: tmap[*jsonnet.VM][]string

extern github.com/google/go-jsonnet.MakeVM() (vm)
  modifies nothing
  ensures new: fresh(vm)

extern github.com/google/go-jsonnet.(*VM).Importer(vm, i) ()
  requires vm: vm != nil
  requires files: typeis(i, *jsonnet.FileImporter) && as(i, *jsonnet.FileImporter) != nil
  modifies vmPaths[vm]
  ensures paths: vmPaths[vm] == as(i, *jsonnet.FileImporter).JPaths

extern github.com/google/go-jsonnet.(*VM).EvaluateSnippet(vm, name, source) (s, err)
  requires vm: vm != nil
  modifies evalName, evalSource, evalPaths, evalResult, loadFails
  ensures all: evalName == name && evalSource == source && evalPaths == vmPaths[vm] && evalResult == s
  ensures ok: err == nil ==> loadFails == old(loadFails)
  ensures bad: err != nil ==> loadFails > old(loadFails)

func internal/runbook/parser.(*Parser).Load(p, filename) (s, err)
  props P08
  modifies readName, evalName, evalSource, evalPaths, evalResult, loadFails, vmPaths[new]
  ensures file: readName == filename
  ensures evaluated: err == nil ==> s == evalResult && evalName == filename && loadFails == old(loadFails)
  ensures imports: err == nil ==> len(evalPaths) == 1 && evalPaths[0] == dirOf(filename)
  ensures cause: err != nil ==> loadFails > old(loadFails)

ghost parsed: *types.Runbook

func internal/runbook/parser.(*Parser).Parse(p, filename) (r, err)
  props P08
  assign parsed = r when err == nil
  requires p: p != nil
  requires factories: forall c: string :: c in p.Targets ==> vals(p.Targets)[c] != nil
  modifies made, madeBy, configs, configOf, configAs, decSrc[new], decStrict[new], decodedFrom, decodedStrict, decodedAny, passed, loadFails, lastDoc, readName, evalName, evalSource, evalPaths, evalResult, vmPaths[new], parsed
  ensures none: err != nil ==> r == nil
  ensures some: err == nil ==> r != nil && fresh(r) && loadFails == old(loadFails)
  ensures document: err == nil ==> lastDoc != nil && decodedFrom[box(lastDoc, *runbook)] == evalResult && decodedStrict[box(lastDoc, *runbook)] && readName == filename
  ensures targets: err == nil ==> dom(r.Targets) == dom(lastDoc.Targets) && (forall id: string :: id in r.Targets ==> targetOK(p, lastDoc, r, id))
  ensures tasks: err == nil ==> dom(r.Tasks) == dom(lastDoc.Tasks) && (forall id: string :: id in r.Tasks ==> taskOK(lastDoc, r, id))
  ensures own: err == nil ==> (forall a: string, b: string :: a in r.Targets && b in r.Targets && a != b ==> vals(r.Targets)[a] != vals(r.Targets)[b]) && (forall a: string, b: string :: a in r.Tasks && b in r.Tasks && a != b ==> vals(r.Tasks)[a] != vals(r.Tasks)[b])
  ensures cause: err != nil ==> loadFails > old(loadFails) || (exists id: string :: id in lastDoc.Targets && (vals(lastDoc.Targets)[id] == nil || !(vals(lastDoc.Targets)[id].Class in p.Targets))) || (exists id: string :: id in lastDoc.Tasks && (vals(lastDoc.Tasks)[id] == nil || !(taskTarget(vals(lastDoc.Tasks)[id].Target) in lastDoc.Targets)))
  ensures parsed: err == nil ==> parsed == r
