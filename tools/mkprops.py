import json
P=[]
def p(id,title,statement,over,text,why,files,mechanism=None,observe=None):
    a={"files":files}
    a["mechanism"]=[{"name":mechanism or title,"where":files[0]}]
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
I=["inputs"]
p("P01","Topological sort is a complete dependency order, or reports a real cycle",
 "Sorting a directed graph whose edges all lead to nodes of the graph either returns every node exactly once, each one after every node it has an edge to, or returns a non-empty list of nodes that really form a cycle in the graph. The two outcomes exclude each other: a cycle is reported exactly when no dependency order exists. Sorting leaves the graph unchanged.",
 I,"every finite directed graph closed under its edges, including self loops, diamonds and disconnected parts",
 "Tests sort four fixed graphs; order and cycle detection depend on the shape of the whole graph and on which node is visited first.",
 ["internal/dag/tsort.go"],"depth-first search with visiting/visited sets")
p("P02","Directed graph operations keep exact node and edge sets",
 "Building a graph from a node list yields exactly the listed nodes and edges, and is refused with an error naming the node and edge when an edge leads to a node that is not listed. Adding or removing edges and nodes afterwards changes exactly the named nodes and edges: adding an edge also adds missing end points, removing a node also removes every edge into it, and nothing else changes. The edge count and membership queries always agree with that set.",
 I,"every node list and every sequence of edits, including duplicate edges, self loops and unknown names",
 "Tests walk one edit sequence; the guarantee is a frame condition over all nodes and edges not mentioned.",
 ["internal/dag/directed.go","internal/dag/nodeset.go","internal/dag/errors.go"])
p("P03","Dependency release: each task exactly once and as soon as it is allowed",
 "When completions are reported one by one, every task is released exactly once, never before all the tasks it depends on were reported complete, and in the very call that reports the last of them. The structure says work is pending exactly while some task has not been released. Construction fails, with the cycle or the dangling dependency in the error, exactly when the dependencies are cyclic or name an unknown task.",
 ["inputs","histories"],"every acyclic dependency structure over non-empty task names and every order of reported completions",
 "A test replays one completion order on one graph; premature, late or lost release only shows on particular list positions and orders.",
 ["internal/dag/dependency.go","internal/dag/tsort.go"],"pending linked list pruned against remaining dependency sets")
p("P04","Scheduler hands every task out exactly once, on its own target, after its deps",
 "Over the initial batch and all batches returned for reported completions, each task of the runbook is handed out at most once, only under the target it names, and only after every task it must run after was reported complete. No batch ever contains a task that is not in the runbook, and the name list of one batch is never altered by later calls.",
 ["inputs","histories"],"every set of targets and tasks accepted by the scheduler and every sequence of completion reports of handed-out tasks",
 "Unit tests replay one scripted history for one runbook; duplication or early release depends on the interleaving of completions with target capacity.",
 ["internal/runbook/scheduler/scheduler.go","internal/dag/dependency.go"])
p("P05","Scheduler respects target capacity and never leaves runnable work idle",
 "At no time does a target have more handed-out, unfinished tasks than its concurrency limit, and after each call no target has both spare capacity and a task whose dependencies are complete but that was not handed out. The no-more-tasks answer is given exactly when every task was already handed out.",
 ["inputs","histories"],"every set of targets with any positive limits, every task set and every completion order",
 "The bound and its converse relate running counts to queues over the whole history; tests sample one history with three targets.",
 ["internal/runbook/scheduler/scheduler.go"])
p("P06","Running a runbook reports failure exactly when something failed",
 "Running a runbook returns an error when a task's execution failed, a target could not be started, or the tasks' dependencies are cyclic or name unknown tasks, and returns no error when every task executed successfully. A task is only ever handed to its target after all the tasks it runs after completed without error, so nothing that depends on a failed task is executed.",
 ["inputs","schedules"],"every runbook, every set of failing tasks and targets, and every goroutine interleaving",
 "Tests run one passing and one failing book; which error wins and what has been released depends on scheduling.",
 ["internal/runbook/runner.go","internal/runbook/runbook.go"],"channels between scheduler, router, target and collector goroutines")
p("P07","A target runs its tasks one at a time, announces each, stops after a failure",
 "Each task that reaches a target is executed there exactly once with its own configuration, after its message (if it has one) was logged, and produces exactly one outcome carrying that task's name and the error its execution returned. After a failed task the target executes nothing more, and when it is finished it is stopped exactly once.",
 ["inputs","schedules"],"every sequence of tasks delivered to a target and every pattern of failures",
 "Tests use at most a handful of tasks on one target and do not observe stop calls or outcomes.",
 ["internal/runbook/runner.go"])
p("P08","Only valid runbooks load, and they load completely",
 "A runbook loads only if every target names a registered class, every task names a declared target and a task class that target accepts, every setting is known to the target or task it is given to and every target and task passes its own validation; otherwise loading returns an error and no runbook, and never panics. When it loads, the loaded targets and tasks are exactly the declared ones, each task carrying the declared dependencies, message, target name and the settings decoded for its own class.",
 I,"every runbook document that evaluates to JSON, including null entries, missing sections and class suffixes",
 "Tests load one valid and six invalid documents.",
 ["internal/runbook/parser/parser.go","internal/runbook/types/types.go"])
p("P09","Environment filtering follows the allow, deny and set rules exactly",
 "Each inherited variable is replaced in place by the configured value when its name is to be set; otherwise it is kept exactly when an allow list exists and names it, or no allow list exists and no deny list names it. Variables to be set that were not inherited are appended once each, nothing else appears, inherited order is preserved, and the result is a list of its own (never nil, never sharing or altering the inherited one).",
 I,"every inherited list (including duplicates, entries without an equals sign and values containing equals signs) and every allow, deny and set configuration",
 "Six example configurations are tested; interactions between the three lists and malformed entries are not.",
 ["internal/runbook/sh/env.go"])
p("P10","Shell tasks run exactly the configured command in the configured place",
 "A shell task executes its first argument with the remaining arguments unchanged, in the runbook's directory, with the target's filtered environment further filtered by the task's own rules, no standard input, and the target's output streams; it fails exactly when the command fails. A shell task is valid exactly when it has a command and that command is either a bare name or a path starting with a slash, ./ or ../.",
 I,"every argument vector, directory and environment configuration",
 "Tests execute three commands and never look at directory, environment or argument passing in combination.",
 ["internal/runbook/sh/exec.go","internal/runbook/sh/sh.go"])
p("P11","TLS policy: encryption and verification are never weaker than requested",
 "The requested ssl mode determines the connection's TLS use exactly: disable never uses TLS; allow tries plain first and then TLS; prefer tries TLS first and then plain; require uses only TLS; verify-full uses only TLS verified against the host name; any other value is an error and no connection is attempted. When no mode is requested and a password is in use, verify-full applies, so a password is never sent over an unverified connection unless a weaker mode was requested.",
 I,"every mode string and every combination of explicit options and environment defaults",
 "No unit test touches connection settings; the wrong cell of the table still connects to a test server.",
 ["internal/pg/pg.go"])
p("P12","Explicit connection options win, retries are bounded, one connection results",
 "Each connection setting given explicitly is used, and the environment's value is used only for settings not given. A failing connection is attempted exactly once plus the configured number of retries (none when negative), the attempts stop at the first success, and the result is exactly one open connection or the last error, never a connection object without a connection behind it.",
 ["inputs","fault_sequences"],"every combination of options and environment, every retry count including zero and negative, every pattern of failing attempts",
 "A test server either accepts or refuses always; counting connections under failure patterns needs a controlled server.",
 ["internal/pg/pg.go","internal/runbook/pg/pg.go"])
p("P13","Database listings are complete and unaltered, or an error is returned",
 "Each database listing returns one entry per result row, in the order the server returned them, with every reported column value placed in its own field and absent values as empty text. If the query, any row, any definition text or the end of the result is bad, the listing returns an error and no partial list. Either way the connection is left free for the next query.",
 ["inputs","fault_sequences"],"every result set (any number of rows, any null pattern) and every point of failure, including a connection lost after some rows",
 "Tests need a live server and never fail half way through a result.",
 ["internal/pg/tables.go","internal/pg/columns.go","internal/pg/schemas.go","internal/pg/functions.go","internal/pg/sequence.go","internal/pg/check.go","internal/pg/foreign_key.go","internal/pg/index.go","internal/pg/triggers.go","internal/pg/table_storage_parameters.go"])
p("P14","Inspection collects every section of every table, sorted as requested",
 "Inspecting a database returns its parameters, schemas, functions, sequences, tables, and for every listed table its columns, checks, foreign keys and storage settings, plus all indexes and triggers of all tables; any failing part makes the whole inspection fail. With a sort option the columns of each table are ordered by name, its checks by expression, and all indexes by schema, then table, then name; sorting never loses or duplicates an entry, and without the option server order is kept.",
 ["inputs","fault_sequences"],"every database content, every combination of sort options and every failing query",
 "Needs a live server; sortedness and completeness over arbitrary contents cannot be sampled.",
 ["internal/pg/inspect.go"])
p("P15","Check constraint definitions parse totally and faithfully",
 "For every input string the parser terminates without panicking and either returns an error or a check constraint; it accepts exactly the grammar of check definitions (CHECK, a parenthesised expression, optional deferrability). On acceptance the expression is exactly the text between the outer parentheses with surrounding white space removed, and the deferrability flags are exactly those stated after the closing parenthesis.",
 I,"every byte string",
 "A generated state machine with dozens of states is tested on a handful of strings.",
 ["internal/ddl/check_parser.go","internal/ddl/check_parser.rl","internal/ddl/check.go"])
p("P16","Foreign key definitions parse totally and faithfully",
 "For every input string the parser terminates without panicking and either returns an error or a foreign key; it accepts exactly the grammar of foreign key definitions. On acceptance the table, the column and referenced column lists in order, the match type, the delete and update actions in canonical spelling and the deferrability flags are exactly what the text states.",
 I,"every byte string",
 "The generated machine has hundreds of transitions; tests cover a few complete definitions.",
 ["internal/ddl/foreign_key_parser.go","internal/ddl/foreign_key_parser.rl","internal/ddl/foreign_key.go"])
p("P17","Index definitions parse totally and faithfully",
 "For every input string the parser terminates without panicking and either returns an error or an index; it accepts exactly the grammar of index definitions. On acceptance name, table, uniqueness, access method, the key list in order (columns, expressions, operator classes each on its own key) and the predicate are exactly what the text states.",
 I,"every byte string",
 "The generated machine has hundreds of transitions; tests cover a few complete definitions.",
 ["internal/ddl/index_parser.go","internal/ddl/index_parser.rl","internal/ddl/index.go"])
p("P18","Trigger definitions parse totally and faithfully",
 "For every input string the parser terminates without panicking and either returns an error or a trigger; it accepts exactly the grammar of trigger definitions. On acceptance name, table, timing in canonical spelling, exactly the stated events, update columns in order, constraint and deferrability flags, row or statement level and function name are exactly what the text states.",
 I,"every byte string",
 "The generated machine has hundreds of transitions; tests cover a few complete definitions.",
 ["internal/ddl/trigger_parser.go","internal/ddl/trigger_parser.rl","internal/ddl/trigger.go"])
p("P19","Parse errors point at the offending character",
 "When a definition text is rejected, the error shows the line of the text that contains the first character at which parsing could not continue, with a caret under exactly that character; when the text ended too early the error says so. Producing the message never panics or loops, whatever the text.",
 I,"every rejected byte string, including multi-line ones and every position in them",
 "Tests render three hand-made positions and never connect them to a real rejection.",
 ["internal/ddl/parser_utils.go","internal/ddl/check_parser.go","internal/ddl/foreign_key_parser.go","internal/ddl/index_parser.go","internal/ddl/trigger_parser.go"])
p("P20","Generated SQL is injection-safe and states every recorded attribute",
 "In generated SQL every table, column, constraint and trigger name is a double-quoted identifier with embedded quotes doubled, so no name can end its identifier early. Table statements list every column in order with type, nullability and default and every check; primary keys list all key columns in order; triggers state their timing, all of their events, table, level and function.",
 I,"every name (including quotes), every number of columns, keys and checks, every combination of flags",
 "There is one golden example per statement kind at most; quoting and list separators depend on content and length.",
 ["internal/ddl/util.go","internal/ddl/table.go","internal/ddl/index.go","internal/ddl/trigger.go","internal/ddl/function.go"])
p("P21","Storage parameters: each known key sets its own field, bad values are errors",
 "Setting a storage parameter with a known key and a well-formed value stores exactly that value in that key's field and leaves every other field alone. A malformed value is reported as an error and leaves all fields as they were; unknown keys are ignored without effect.",
 I,"every key and value string and every previous content",
 "Sixteen near-identical cases, none unit tested; a swapped field or dropped error is invisible on the happy path.",
 ["internal/ddl/table_storage_parameters.go","internal/pg/table_storage_parameters.go"])
p("P22","Log verbosity: each level shows exactly its severities, debug log shows all",
 "A logger of verbosity 0 or less shows only errors, 1 adds warnings, 2 adds informational messages, 3 or more adds debug messages. When a debug log is given every message is written to it whatever the verbosity, and the default log is not affected by that.",
 I,"every verbosity value, with and without a debug log",
 "Tests construct loggers but do not cover each severity against each verbosity.",
 ["internal/logger/logger.go","internal/cli/cli.go"])
p("P23","Demo text tasks transform the target's text exactly",
 "Reversing replaces the target's text by the same characters in opposite order, and doing it twice restores the original; rot13 replaces exactly the unaccented Latin letters by the letter 13 places on, keeping case, and doing it twice restores the original. Echo prints the text without changing it, a fail task always fails, a sleep task always sleeps at least one second, and every other task kind is refused.",
 I,"every text, including empty, odd and even lengths and non-Latin characters",
 "One six-letter string is tested.",
 ["internal/runbook/demo/tasks.go","internal/runbook/demo/demo.go","internal/taskset/demo/rev.go","internal/taskset/demo/rot13.go","internal/taskset/demo/echo.go","internal/taskset/demo/sleep.go","internal/taskset/demo/fail.go"])
p("P24","Runbook listing and graph show exactly the runbook's tasks, targets and edges",
 "Listing a runbook prints one line per task, in name order, pairing it with the target it runs on, and nothing else. The graph has one cluster per target, one node per task inside its target's cluster, and one arrow from each prerequisite to the task that runs after it, and nothing else.",
 I,"every valid runbook",
 "One four-task runbook is listed in tests and the graph's content is never examined.",
 ["internal/commands/runbook_list.go","internal/runbook/runbook.go"])
p("P25","Command output goes to the place the options select",
 "Output goes to the named file when one is given, to standard output when none is given or the name is a dash, and for graphs with automatic naming to the runbook's own path with its extension replaced by .dot; a file that cannot be opened is an error and nothing is printed. Colour is used for evaluated runbooks exactly when requested or when automatic and the destination is a terminal.",
 I,"every combination of output options, file names with and without extensions, and destinations",
 "Tests use only dash or default output.",
 ["internal/commands/inspect.go","internal/commands/runbook_dot.go","internal/commands/runbook_eval.go"])
p("P26","Task set execution reports every task once and shuts down cleanly",
 "Every task submitted to a target's task set runner is started exactly once and its outcome is delivered exactly once. When the submission side is closed, the result side is closed after all outstanding outcomes were delivered, and never before.",
 ["inputs","schedules"],"every sequence of batches, every concurrency limit and every interleaving",
 "No test runs a task set; shutdown behaviour depends on what is in flight.",
 ["internal/taskset/base/base.go","internal/taskset/demo/demo.go","internal/taskset/pg/pg.go","internal/taskset/sh/sh.go"])
p("P27","Task set files load completely, with the declared dependencies",
 "A task set file loads only if every target has a registered type and every task names an existing target and a task type it accepts; the loaded targets are the declared ones plus one default per type, and the loaded tasks are the declared ones. Each loaded task reports the dependencies and provisions declared for it in the file.",
 I,"every task set document",
 "Tests load one example document.",
 ["internal/taskset/parser/parser.go","internal/taskset/base/base.go"])
p("P28","Database descriptions survive writing and reading back",
 "Writing a database description and parsing the written text yields the same description, field for field.",
 I,"every database description",
 "Tests parse one fixture; a round trip over arbitrary contents is not tested.",
 ["internal/ddl/ddl.go","internal/ddl/database.go"])
p("P29","Running a runbook always finishes",
 "Running a runbook terminates once the tasks it has started terminate, whatever fails and however execution interleaves, and leaves no task running behind it.",
 ["inputs","schedules"],"every runbook including empty ones, every failure pattern, every interleaving",
 "A deadlock needs a particular interleaving or an empty runbook.",
 ["internal/runbook/runner.go"])
for x in P: assert len(x["title"])<=80,(x["id"],len(x["title"]))
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
