GEN="Every obligation generated from the current source is discharged for all inputs and iterations. Trusted: go/ssa, gvc's translation, the SMT solvers, the assumed contracts named in the evidence; integers are mathematical; allocation never fails."
CLAIMED={
"P01":GEN,
"P02":GEN,
"P04":GEN+" The tasks handed out and the running tasks of every target are ghost state of the scheduler. That only running tasks are reported complete is a precondition of Next.",
"P05":GEN+" The tasks handed out and the running tasks of every target are ghost state of the scheduler; a limit is whatever ConcurrencyLimit returned when the scheduler was made. That only running tasks are reported complete is a precondition of Next.",
"P09":GEN,
"P10":GEN+" os/exec's CommandContext and (*Cmd).Run and os.Environ are assumed contracts: ghost state records what the operating system is asked to run.",
"P21":GEN+" strconv's Atoi, ParseBool and ParseFloat are assumed pure; a value is well formed when they accept it.",
"P20":GEN+" The contents of a strings.Builder and strings.Replace are modelled; the statements' text is proved equal to a closed form over the recorded attributes.",
"P03":GEN+" The list of unreleased tasks, the reported completions and the original edges are ghost state of the dependency graph.",
}
CLAIMED["P15"]=GEN+" The recogniser is compared with the contract's grammar at every program point by inferred inductive invariants, one case per input byte; strings.ToUpper, strings.TrimSpace and the white-space expression of collapseWhitespace are taken as their ASCII behaviour."
CLAIMED["P16"]=GEN+" The recogniser is compared with the contract's grammar at every program point by inferred inductive invariants, one case per input byte; strings.ToUpper, strings.TrimSpace and the white-space expression of collapseWhitespace are taken as their ASCII behaviour."
CLAIMED["P17"]=GEN+" The recogniser is compared with the contract's grammar at every program point by inferred inductive invariants, one case per input byte; strings.ToUpper, strings.TrimSpace and the white-space expression of collapseWhitespace are taken as their ASCII behaviour."
CLAIMED["P18"]=GEN+" The recogniser is compared with the contract's grammar at every program point by inferred inductive invariants, one case per input byte; strings.ToUpper, strings.TrimSpace and the white-space expression of collapseWhitespace are taken as their ASCII behaviour."
CLAIMED["P19"]=GEN+" The recorded position is proved for the four parsers against their grammar contracts; the message for every position and text."
CLAIMED["P08"]=GEN+" encoding/json's decoder, the jsonnet evaluator, the factories and targets behind their interfaces are assumed contracts over ghost state (what was decoded from which text, how strictly, and what passed its validation)."
CLAIMED["P22"]=GEN+" fmt.Fprintf and io.Writer are modelled: a successful write appends exactly the formatted text; zap's cores are assumed contracts."
CLAIMED["P23"]=GEN+" fmt.Fprintf, io.Writer and time.Sleep are assumed contracts; durations are mathematical integers."
CLAIMED["P11"]=GEN+" pgx's ParseEnvLibpq and Connect are assumed contracts: ghost state records every attempt to connect with its settings; crypto/tls is trusted to honour its configuration."
CLAIMED["P12"]=GEN+" pgx's ParseEnvLibpq, Connect and Close are assumed contracts: ghost state records every attempt and which connections are open; an attempt is one call of pgx.Connect."
CLAIMED["P24"]=GEN+" gographviz is an assumed contract over ghost sets of clusters, nodes and arrows; escaping is assumed injective (a task named cluster_<target> is excluded, see known-findings.txt); fmt.Fprintf, io.Writer and sort.Strings are modelled."
CLAIMED["P13"]=GEN+" pgx's Query, QueryRow, Next, Scan, Err and Close are assumed contracts: the cells of a result are functions of row and column, and ghost state records every query and where each result stands. The columns are found by what the query text selects; what PostgreSQL answers is outside. That the parsers of definition texts are functions of the text is P15 to P18."
CLAIMED["P14"]=GEN+" The nine listings are called through P13's contracts; names entries: which call's answer an element of the result belongs to is recorded in ghost state. sort.Slice and sort.SliceStable are modelled: the comparator is executed symbolically and proved a strict weak order, the result is an ordered permutation."
CLAIMED["P25"]=GEN+" os.OpenFile, gographviz, hclwrite, the JSON printer and the terminal test are assumed contracts over ghost state; a successful write appends exactly the text written."
CLAIMED["P27"]=GEN+" hclparse, gohcl.DecodeBody and the targets and factories behind their interfaces are assumed contracts over ghost state (what was made by what, which body each value was decoded from, which dependencies each task was given); the implementations in the repository are proved to satisfy what is assumed of the interfaces."
CLAIMED["P07"]=GEN+" A goroutine is verified against the goensures clauses of the function that starts it, over ghost histories of the messages it received and sent, the tasks executed and the messages logged; channels, sync.WaitGroup, the targets behind their interface and the loggers are assumed contracts, goroutines are assumed free of data races, and that a goroutine reaches its end is P29."
TECHNIQUE={}
LEVEL={}
NA={}
