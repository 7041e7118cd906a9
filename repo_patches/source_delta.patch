From 6ce8f7f20b3a97e616ba672ff46d827b39f62159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:49 +0000
Subject: [PATCH 01/25] fix: report cycles that start at a node with an empty
 name

---
 internal/dag/tsort.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/internal/dag/tsort.go b/internal/dag/tsort.go
index faafd19..40ef086 100644
--- a/internal/dag/tsort.go
+++ b/internal/dag/tsort.go
@@ -46,30 +46,30 @@ type visitor struct {
 	sorted   []string
 }
 
-func (v *visitor) visit(n string) (cycleStart string) {
+func (v *visitor) visit(n string) (cycleStart string, open bool) {
 	if _, ok := v.visiting[n]; ok {
 		if v.cycle == nil {
 			v.cycle = make([]string, 0)
 		}
-		return n
+		return n, true
 	} else if _, ok := v.visited[n]; ok {
-		return ""
+		return "", false
 	}
 	v.visiting[n] = struct{}{}
 	for _, m := range v.graph[n] {
-		cycleStart := v.visit(m)
+		cycleStart, open := v.visit(m)
 		if v.cycle != nil {
-			if cycleStart != "" {
+			if open {
 				if n == cycleStart {
-					cycleStart = ""
+					open = false
 				}
 				v.cycle = append(v.cycle, n)
 			}
-			return cycleStart
+			return cycleStart, open
 		}
 	}
 	delete(v.visiting, n)
 	v.visited[n] = struct{}{}
 	v.sorted = append(v.sorted, n)
-	return ""
+	return "", false
 }
-- 
2.43.0


From 093ea0028e717e4832c22455406a9031af265c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:52 +0000
Subject: [PATCH 02/25] fix: release every ready task in the call that makes it
 ready

---
 internal/dag/dependency.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/dag/dependency.go b/internal/dag/dependency.go
index 00df408..fa57c71 100644
--- a/internal/dag/dependency.go
+++ b/internal/dag/dependency.go
@@ -73,11 +73,13 @@ func (g *DependencyGraph) Next(completed string) []string {
 	}
 	g.pending = head
 
-	for head = g.pending; head != nil && head.next != nil; head = head.next {
+	for head = g.pending; head != nil && head.next != nil; {
 		p := head.next
 		if g.dependencies[p.id].Size() < 1 {
 			ready = append(ready, p.id)
 			head.next = p.next
+		} else {
+			head = p
 		}
 	}
 	return ready
-- 
2.43.0


From 98fae7984fcc6f6f49aad26d811ed9f4bd7997d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:49 +0000
Subject: [PATCH 03/25] fix: do not treat a task with an empty name as
 completed at the start

---
 internal/dag/dependency.go              | 7 ++++++-
 internal/runbook/scheduler/scheduler.go | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/internal/dag/dependency.go b/internal/dag/dependency.go
index fa57c71..af9b875 100644
--- a/internal/dag/dependency.go
+++ b/internal/dag/dependency.go
@@ -61,11 +61,16 @@ func (g *DependencyGraph) HasPending() bool {
 // Next registers the completion of a a task and returns a list of tasks
 // that can be started given previously completed tasks
 func (g *DependencyGraph) Next(completed string) []string {
-	var ready []string
 	for id := range g.dependents[completed] {
 		g.dependencies[id].Remove(completed)
 	}
+	return g.Ready()
+}
 
+// Ready returns a list of tasks that can be started given previously completed
+// tasks, without registering a completion
+func (g *DependencyGraph) Ready() []string {
+	var ready []string
 	head := g.pending
 	for head != nil && g.dependencies[head.id].Size() < 1 {
 		ready = append(ready, head.id)
diff --git a/internal/runbook/scheduler/scheduler.go b/internal/runbook/scheduler/scheduler.go
index b860a88..5615a50 100644
--- a/internal/runbook/scheduler/scheduler.go
+++ b/internal/runbook/scheduler/scheduler.go
@@ -48,7 +48,7 @@ func New(targets types.Targets, tasks types.Tasks) (s *Scheduler, ready map[stri
 		return nil, nil, err
 	}
 
-	s.fillPending(s.deps.Next(""))
+	s.fillPending(s.deps.Ready())
 	return s, s.buildReady(), nil
 }
 
-- 
2.43.0


From 3e055dd30608f1031f5beecd5990b28c98234446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:57 +0000
Subject: [PATCH 04/25] fix: report an error when the tasks of a runbook cannot
 be scheduled

---
 internal/runbook/runner.go | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/internal/runbook/runner.go b/internal/runbook/runner.go
index fa46adb..9196bb7 100644
--- a/internal/runbook/runner.go
+++ b/internal/runbook/runner.go
@@ -63,8 +63,11 @@ func (r *runner) closeDone() {
 func (r *runner) run() error {
 	defer r.closeDone()
 
-	r.startScheduler()
-	err := r.startTargets()
+	err := r.startScheduler()
+	if err != nil {
+		return err
+	}
+	err = r.startTargets()
 	if err != nil {
 		return err
 	}
@@ -90,16 +93,17 @@ func (r *runner) run() error {
 	return err
 }
 
-func (r *runner) startScheduler() {
+func (r *runner) startScheduler() error {
+	s, ready, err := scheduler.New(r.targets, r.tasks)
+	if err != nil {
+		return err
+	}
+
 	go func(readyChan chan<- *readyMsg, doneChan <-chan TaskID) {
 		defer close(readyChan)
 
 		r.log.Debug("scheduler: started")
-		s, ready, err := scheduler.New(r.targets, r.tasks)
-		for {
-			if err != nil {
-				break
-			}
+		for err == nil {
 			for targetID, taskIDs := range ready {
 				for _, taskID := range taskIDs {
 					r.log.Debugw("scheduler: task ready", "task", taskID, "target", targetID)
@@ -121,6 +125,7 @@ func (r *runner) startScheduler() {
 		}
 		r.log.Debug("scheduler: stopped")
 	}(r.ready, r.done)
+	return nil
 }
 
 func (r *runner) startTargets() (err error) {
-- 
2.43.0


From 94f4f355835c1053bc2f16363eee633e126383bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:01 +0000
Subject: [PATCH 05/25] fix: finish a run when there is no task to wait for

---
 internal/runbook/runner.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/runbook/runner.go b/internal/runbook/runner.go
index 9196bb7..7de987d 100644
--- a/internal/runbook/runner.go
+++ b/internal/runbook/runner.go
@@ -103,6 +103,7 @@ func (r *runner) startScheduler() error {
 		defer close(readyChan)
 
 		r.log.Debug("scheduler: started")
+		running := 0
 		for err == nil {
 			for targetID, taskIDs := range ready {
 				for _, taskID := range taskIDs {
@@ -114,10 +115,15 @@ func (r *runner) startScheduler() error {
 						message: task.Message,
 						task:    task.Config,
 					}
+					running++
 				}
 			}
+			if running < 1 {
+				break
+			}
 			r.log.Debug("scheduler: checking for finished tasks")
 			if taskID, ok := <-doneChan; ok {
+				running--
 				ready, err = s.Next(string(taskID))
 			} else {
 				break
-- 
2.43.0


From 0a05328ac215d63ec1ef2fd3f71fa3fdd6e8ebe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:05 +0000
Subject: [PATCH 06/25] fix: do not block the router after a target failed

---
 internal/runbook/runner.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/runbook/runner.go b/internal/runbook/runner.go
index 7de987d..3d170f5 100644
--- a/internal/runbook/runner.go
+++ b/internal/runbook/runner.go
@@ -191,6 +191,10 @@ func startTargetGoroutine(
 				break
 			}
 		}
+		// tasks ready before the failure was noticed are not started
+		for x := range ready {
+			log.Debugw("target: task skipped", "task", x.taskID)
+		}
 		target.Stop()
 		wg.Done()
 	}()
-- 
2.43.0


From 1bc8d1fa9c0e0068a0ee64d42562d6495b8b5078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:09 +0000
Subject: [PATCH 07/25] fix: stop the started targets when another one cannot
 be started

---
 internal/runbook/runner.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/internal/runbook/runner.go b/internal/runbook/runner.go
index 3d170f5..d9c1e08 100644
--- a/internal/runbook/runner.go
+++ b/internal/runbook/runner.go
@@ -69,6 +69,10 @@ func (r *runner) run() error {
 	}
 	err = r.startTargets()
 	if err != nil {
+		r.closeDone()
+		for range r.ended {
+			// wait for the targets that were started
+		}
 		return err
 	}
 
@@ -157,8 +161,9 @@ func (r *runner) startTargets() (err error) {
 		r.log.Debug("router: started")
 		for x := range r.ready {
 			r.log.Debugw("router: task ready", "task", x.taskID, "target", x.target)
-			ch := channels[x.target]
-			ch <- x
+			if ch, ok := channels[x.target]; ok {
+				ch <- x
+			}
 		}
 		r.log.Debug("router: stopping...")
 		for _, ch := range channels {
-- 
2.43.0


From eb2f763dc39848f236ebf63c6488d5609522d033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:51 +0000
Subject: [PATCH 08/25] fix: report null targets and tasks in a runbook instead
 of panicking

---
 internal/runbook/parser/parser.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/runbook/parser/parser.go b/internal/runbook/parser/parser.go
index 0478b30..a13e0e6 100644
--- a/internal/runbook/parser/parser.go
+++ b/internal/runbook/parser/parser.go
@@ -82,6 +82,9 @@ func (p *Parser) Parse(filename string) (*types.Runbook, error) {
 
 func (p *Parser) loadTargets(tmp *runbook, book *types.Runbook) error {
 	for targetID, wrapper := range tmp.Targets {
+		if wrapper == nil {
+			return errors.New("invalid target")
+		}
 		factory, ok := p.Targets[wrapper.Class]
 		if !ok {
 			return errors.New("invalid target class")
@@ -107,6 +110,9 @@ func (p *Parser) loadTargets(tmp *runbook, book *types.Runbook) error {
 
 func (p *Parser) loadTasks(tmp *runbook, book *types.Runbook) error {
 	for taskID, task := range tmp.Tasks {
+		if task == nil {
+			return errors.New("invalid task")
+		}
 		targetID := task.Target
 		taskClass := ""
 		if idx := strings.Index(task.Target, "/"); idx != -1 {
-- 
2.43.0


From 6ec28bed0b50359db125e3a1790a32d31226d346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:52 +0000
Subject: [PATCH 09/25] fix: stop connecting after the first success

---
 internal/pg/pg.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/internal/pg/pg.go b/internal/pg/pg.go
index f42475f..c42d21e 100644
--- a/internal/pg/pg.go
+++ b/internal/pg/pg.go
@@ -60,16 +60,16 @@ func New(o *Options) (*Conn, error) {
 
 	delay := 100 * time.Millisecond
 	var conn *pgx.Conn
-	for retries := 0; retries <= o.ConnectRetries; retries++ {
+	for retries := 0; ; retries++ {
 		conn, err = pgx.Connect(cfg)
-		if err != nil {
-			if retries < o.ConnectRetries {
-				time.Sleep(delay)
-				delay = time.Duration(2^retries) * 100 * time.Millisecond
-			} else {
-				return nil, err
-			}
+		if err == nil {
+			break
+		}
+		if retries >= o.ConnectRetries {
+			return nil, err
 		}
+		time.Sleep(delay)
+		delay *= 2
 	}
 
 	c := &Conn{
-- 
2.43.0


From c5dc0b4c4fed94be044348a8c0a2fbf321362a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:54 +0000
Subject: [PATCH 10/25] fix: sort checks and indexes as requested

---
 internal/pg/inspect.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/internal/pg/inspect.go b/internal/pg/inspect.go
index 028722b..a9a6fb9 100644
--- a/internal/pg/inspect.go
+++ b/internal/pg/inspect.go
@@ -61,10 +61,13 @@ func (c *Conn) inspectTables(o *InspectOptions, db *ddl.Database) (err error) {
 	if o.SortIndexes {
 		indexes := db.Indexes
 		sort.Slice(indexes, func(i, j int) bool {
-			return (indexes[i].Schema < indexes[j].Schema &&
-				indexes[i].Table < indexes[j].Table &&
-				indexes[i].Name < indexes[j].Name)
-
+			if indexes[i].Schema != indexes[j].Schema {
+				return indexes[i].Schema < indexes[j].Schema
+			}
+			if indexes[i].Table != indexes[j].Table {
+				return indexes[i].Table < indexes[j].Table
+			}
+			return indexes[i].Name < indexes[j].Name
 		})
 	}
 
@@ -87,14 +90,14 @@ func (c *Conn) inspectTable(o *InspectOptions, db *ddl.Database, table *ddl.Tabl
 	if err != nil {
 		return err
 	}
-	if len(checks) > 0 {
-		table.Checks = append(table.Checks, checks...)
-	}
 	if o.SortChecks {
 		sort.Slice(checks, func(i, j int) bool {
 			return (checks[i].Expression < checks[j].Expression)
 		})
 	}
+	if len(checks) > 0 {
+		table.Checks = append(table.Checks, checks...)
+	}
 
 	fks, err := c.ListForeignKeys(table.Schema, table.Name)
 	if err != nil {
-- 
2.43.0


From 201d85bd87f554099467b94f7a9e046c73293ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:55 +0000
Subject: [PATCH 11/25] fix: report errors that end a listing early

---
 internal/pg/check.go                    | 3 +++
 internal/pg/columns.go                  | 3 +++
 internal/pg/foreign_key.go              | 3 +++
 internal/pg/functions.go                | 3 +++
 internal/pg/index.go                    | 3 +++
 internal/pg/schemas.go                  | 3 +++
 internal/pg/sequence.go                 | 6 ++++++
 internal/pg/table_storage_parameters.go | 3 +++
 internal/pg/tables.go                   | 3 +++
 internal/pg/triggers.go                 | 3 +++
 10 files changed, 33 insertions(+)

diff --git a/internal/pg/check.go b/internal/pg/check.go
index d5fd7d1..ed3d7e7 100644
--- a/internal/pg/check.go
+++ b/internal/pg/check.go
@@ -46,6 +46,9 @@ func (c *Conn) ListChecks(schema, table string) ([]*ddl.Check, error) {
 		check.Name = name
 		checks = append(checks, check)
 	}
+	if err == nil {
+		err = rows.Err()
+	}
 	if err != nil {
 		return nil, err
 	}
diff --git a/internal/pg/columns.go b/internal/pg/columns.go
index 81e3ada..bb3f0a2 100644
--- a/internal/pg/columns.go
+++ b/internal/pg/columns.go
@@ -52,6 +52,9 @@ func (c *Conn) ListColumns(schema, table string) ([]*ddl.Column, error) {
 		c.log.Debugw("row scanned", "column", col.Name, "type", col.Type)
 		columns = append(columns, col)
 	}
+	if err == nil {
+		err = rows.Err()
+	}
 	if err != nil {
 		return nil, err
 	}
diff --git a/internal/pg/foreign_key.go b/internal/pg/foreign_key.go
index 03f76d8..d232ff7 100644
--- a/internal/pg/foreign_key.go
+++ b/internal/pg/foreign_key.go
@@ -48,6 +48,9 @@ func (c *Conn) ListForeignKeys(schema, table string) ([]*ddl.ForeignKey, error)
 		fk.Name = name
 		fks = append(fks, fk)
 	}
+	if err == nil {
+		err = rows.Err()
+	}
 	if err != nil {
 		return nil, err
 	}
diff --git a/internal/pg/functions.go b/internal/pg/functions.go
index c452dcc..4d955a7 100644
--- a/internal/pg/functions.go
+++ b/internal/pg/functions.go
@@ -109,6 +109,9 @@ func (c *Conn) ListFunctions() ([]*ddl.Function, error) {
 		c.log.Debugw("scanned", "function", function)
 		functions = append(functions, function)
 	}
+	if err == nil {
+		err = rows.Err()
+	}
 	if err != nil {
 		return nil, err
 	}
diff --git a/internal/pg/index.go b/internal/pg/index.go
index 18752e0..d913353 100644
--- a/internal/pg/index.go
+++ b/internal/pg/index.go
@@ -53,6 +53,9 @@ func (c *Conn) ListIndexes(schema, table string) ([]*ddl.Index, error) {
 		index.Primary = isPrimary
 		indexes = append(indexes, index)
 	}
+	if err == nil {
+		err = rows.Err()
+	}
 	if err != nil {
 		return nil, err
 	}
diff --git a/internal/pg/schemas.go b/internal/pg/schemas.go
index 7e6a3b0..9d0f9ae 100644
--- a/internal/pg/schemas.go
+++ b/internal/pg/schemas.go
@@ -41,6 +41,9 @@ func (c *Conn) ListSchemas() ([]*ddl.Schema, error) {
 		c.log.Debugw("row scanned", "schema", schema)
 		schemas = append(schemas, schema)
 	}
+	if err == nil {
+		err = rows.Err()
+	}
 	if err != nil {
 		return nil, err
 	}
diff --git a/internal/pg/sequence.go b/internal/pg/sequence.go
index ba46fd7..bbc1fef 100644
--- a/internal/pg/sequence.go
+++ b/internal/pg/sequence.go
@@ -152,6 +152,9 @@ func (c *Conn) listSequences() ([]*ddl.Sequence, error) {
 		c.log.Debugw("row scanned", "sequence", sequence)
 		sequences = append(sequences, sequence)
 	}
+	if err == nil {
+		err = rows.Err()
+	}
 	if err != nil {
 		return nil, err
 	}
@@ -198,6 +201,9 @@ func (c *Conn) listSequencesLegacy() ([]*ddl.Sequence, error) {
 		c.log.Debugw("row scanned", "sequence", sequence)
 		sequences = append(sequences, sequence)
 	}
+	if err == nil {
+		err = rows.Err()
+	}
 	if err != nil {
 		return nil, err
 	}
diff --git a/internal/pg/table_storage_parameters.go b/internal/pg/table_storage_parameters.go
index cbc4d7e..51941e0 100644
--- a/internal/pg/table_storage_parameters.go
+++ b/internal/pg/table_storage_parameters.go
@@ -47,6 +47,9 @@ func (c *Conn) ListTableStorageParameters(schema, table string) (*ddl.TableStora
 			return nil, err
 		}
 	}
+	if err == nil {
+		err = rows.Err()
+	}
 	if err != nil {
 		return nil, err
 	}
diff --git a/internal/pg/tables.go b/internal/pg/tables.go
index e3084b8..022f579 100644
--- a/internal/pg/tables.go
+++ b/internal/pg/tables.go
@@ -47,6 +47,9 @@ func (c *Conn) ListTables() ([]*ddl.Table, error) {
 		c.log.Debugw("row scanned", "table", table)
 		tables = append(tables, table)
 	}
+	if err == nil {
+		err = rows.Err()
+	}
 	if err != nil {
 		return nil, err
 	}
diff --git a/internal/pg/triggers.go b/internal/pg/triggers.go
index 492f7a7..6e80ecf 100644
--- a/internal/pg/triggers.go
+++ b/internal/pg/triggers.go
@@ -89,6 +89,9 @@ func (c *Conn) ListTriggers(schema, table string) ([]*ddl.Trigger, error) {
 		trigger.Schema = schema
 		triggers = append(triggers, trigger)
 	}
+	if err == nil {
+		err = rows.Err()
+	}
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From dba5fb9944187a8f0338e3a1eee19e3a37c083c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:17 +0000
Subject: [PATCH 12/25] fix: report where parsing a definition stopped, not the
 parser's state

---
 internal/ddl/check_parser.go       | 2 +-
 internal/ddl/check_parser.rl       | 2 +-
 internal/ddl/foreign_key_parser.go | 2 +-
 internal/ddl/foreign_key_parser.rl | 2 +-
 internal/ddl/index_parser.go       | 2 +-
 internal/ddl/index_parser.rl       | 2 +-
 internal/ddl/trigger_parser.go     | 2 +-
 internal/ddl/trigger_parser.rl     | 2 +-
 8 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/internal/ddl/check_parser.go b/internal/ddl/check_parser.go
index 83d0ae7..6805e32 100644
--- a/internal/ddl/check_parser.go
+++ b/internal/ddl/check_parser.go
@@ -1114,7 +1114,7 @@ tr39:
 
 	if cs < check_first_final {
 		return nil, &parseError{
-		    cs: cs,
+		    cs: p,
 		    data: data,
 		}
 	}
diff --git a/internal/ddl/check_parser.rl b/internal/ddl/check_parser.rl
index 44f37ba..d6d475c 100644
--- a/internal/ddl/check_parser.rl
+++ b/internal/ddl/check_parser.rl
@@ -46,7 +46,7 @@ func ParseCheck(data string) (*Check, error) {
 
 	if cs < check_first_final {
 		return nil, &parseError{
-		    cs: cs,
+		    cs: p,
 		    data: data,
 		}
 	}
diff --git a/internal/ddl/foreign_key_parser.go b/internal/ddl/foreign_key_parser.go
index 1b19665..b974cfa 100644
--- a/internal/ddl/foreign_key_parser.go
+++ b/internal/ddl/foreign_key_parser.go
@@ -3975,7 +3975,7 @@ tr193:
 
 	if cs < foreign_key_first_final {
 		return nil, &parseError{
-		    cs: cs,
+		    cs: p,
 		    data: data,
 		}
 	}
diff --git a/internal/ddl/foreign_key_parser.rl b/internal/ddl/foreign_key_parser.rl
index 17a6cfe..cc88f1c 100644
--- a/internal/ddl/foreign_key_parser.rl
+++ b/internal/ddl/foreign_key_parser.rl
@@ -83,7 +83,7 @@ func ParseForeignKey(data string) (*ForeignKey, error) {
 
 	if cs < foreign_key_first_final {
 		return nil, &parseError{
-		    cs: cs,
+		    cs: p,
 		    data: data,
 		}
 	}
diff --git a/internal/ddl/index_parser.go b/internal/ddl/index_parser.go
index 3b6e1bc..4514246 100644
--- a/internal/ddl/index_parser.go
+++ b/internal/ddl/index_parser.go
@@ -1269,7 +1269,7 @@ tr64:
 
 	if cs < index_first_final {
 		return nil, &parseError{
-		    cs: cs,
+		    cs: p,
 		    data: data,
 		}
 	}
diff --git a/internal/ddl/index_parser.rl b/internal/ddl/index_parser.rl
index d6d98c5..f853b34 100644
--- a/internal/ddl/index_parser.rl
+++ b/internal/ddl/index_parser.rl
@@ -84,7 +84,7 @@ func ParseIndex(data string) (*Index, error) {
 
 	if cs < index_first_final {
 		return nil, &parseError{
-		    cs: cs,
+		    cs: p,
 		    data: data,
 		}
 	}
diff --git a/internal/ddl/trigger_parser.go b/internal/ddl/trigger_parser.go
index 8b8cc35..d24e58a 100644
--- a/internal/ddl/trigger_parser.go
+++ b/internal/ddl/trigger_parser.go
@@ -3378,7 +3378,7 @@ tr195:
 
 	if cs < trigger_first_final {
 		return nil, &parseError{
-		    cs: cs,
+		    cs: p,
 		    data: data,
 		}
 	}
diff --git a/internal/ddl/trigger_parser.rl b/internal/ddl/trigger_parser.rl
index 0922ff0..b914b35 100644
--- a/internal/ddl/trigger_parser.rl
+++ b/internal/ddl/trigger_parser.rl
@@ -91,7 +91,7 @@ func ParseTrigger(data string) (*Trigger, error) {
 
 	if cs < trigger_first_final {
 		return nil, &parseError{
-		    cs: cs,
+		    cs: p,
 		    data: data,
 		}
 	}
-- 
2.43.0


From af86fb56a700742bf97e43558bca6bb720d1894f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:19 +0000
Subject: [PATCH 13/25] fix: place the caret of a parse error under the
 offending character

---
 internal/ddl/parser_utils.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/ddl/parser_utils.go b/internal/ddl/parser_utils.go
index 51cfee7..71ad3f5 100644
--- a/internal/ddl/parser_utils.go
+++ b/internal/ddl/parser_utils.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"regexp"
 	"strings"
+	"unicode/utf8"
 )
 
 var whitespace = regexp.MustCompile(`\s+`)
@@ -39,7 +40,7 @@ OUTER:
 		switch {
 		case idx == -1:
 			break OUTER
-		case idx > cs:
+		case idx >= cs:
 			data = data[:idx]
 			break OUTER
 		default:
@@ -49,5 +50,6 @@ OUTER:
 		}
 	}
 
-	return fmt.Sprintf("%s\n%*s", data, cs+1, "^")
+	column := utf8.RuneCountInString(data[:cs])
+	return fmt.Sprintf("%s\n%*s", data, column+1, "^")
 }
-- 
2.43.0


From ee099f6ab6021e0aed54ea072a77ed2a62bcd2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:20 +0000
Subject: [PATCH 14/25] fix: take the deferrability of a check only from after
 its expression

---
 internal/ddl/check_parser.go | 4 ++++
 internal/ddl/check_parser.rl | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/internal/ddl/check_parser.go b/internal/ddl/check_parser.go
index 6805e32..cc7fc5e 100644
--- a/internal/ddl/check_parser.go
+++ b/internal/ddl/check_parser.go
@@ -274,12 +274,16 @@ tr9:
 //line check_parser.rl:22
 
 		mark2 = p
+		check.Deferrable = false
+		check.InitiallyDeferred = false
 	
 	goto st56
 tr11:
 //line check_parser.rl:22
 
 		mark2 = p
+		check.Deferrable = false
+		check.InitiallyDeferred = false
 	
 	goto st56
 	st56:
diff --git a/internal/ddl/check_parser.rl b/internal/ddl/check_parser.rl
index d6d475c..29cce15 100644
--- a/internal/ddl/check_parser.rl
+++ b/internal/ddl/check_parser.rl
@@ -21,6 +21,8 @@ func ParseCheck(data string) (*Check, error) {
 	}
 	action setMark2 {
 		mark2 = fpc
+		check.Deferrable = false
+		check.InitiallyDeferred = false
 	}
 
 	action matchDeferrable        { check.Deferrable = true }
-- 
2.43.0


From 109c3e39ade1f48881d5863755d792e4c62bda1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:22 +0000
Subject: [PATCH 15/25] fix: state all events and attributes of a trigger in
 SQL

---
 internal/ddl/trigger.go | 40 +++++++++++++++++++++++++++++++++++++---
 1 file changed, 37 insertions(+), 3 deletions(-)

diff --git a/internal/ddl/trigger.go b/internal/ddl/trigger.go
index 7a8d4c1..8146247 100644
--- a/internal/ddl/trigger.go
+++ b/internal/ddl/trigger.go
@@ -47,15 +47,49 @@ func (t *Trigger) setWhen(s string) {
 
 func (t *Trigger) ToSQL() (string, error) {
 	var sb strings.Builder
-	sb.WriteString("CREATE TRIGGER ")
+	sb.WriteString("CREATE ")
+	if t.Constraint {
+		sb.WriteString("CONSTRAINT ")
+	}
+	sb.WriteString("TRIGGER ")
 	sb.WriteString(quoteName(t.Name))
 	sb.WriteString("\n  ")
 	sb.WriteString(t.When)
-	if t.Update {
-		sb.WriteString(" UPDATE")
+	sep := " "
+	for _, event := range []struct {
+		name    string
+		enabled bool
+	}{
+		{"INSERT", t.Insert},
+		{"UPDATE", t.Update},
+		{"DELETE", t.Delete},
+		{"TRUNCATE", t.Truncate},
+	} {
+		if !event.enabled {
+			continue
+		}
+		sb.WriteString(sep)
+		sb.WriteString(event.name)
+		if event.name == "UPDATE" {
+			for i, column := range t.Columns {
+				if i < 1 {
+					sb.WriteString(" OF ")
+				} else {
+					sb.WriteString(", ")
+				}
+				sb.WriteString(quoteName(column))
+			}
+		}
+		sep = " OR "
 	}
 	sb.WriteString(" ON ")
 	sb.WriteString(quoteName(t.Table))
+	if t.Deferrable {
+		sb.WriteString("\n  DEFERRABLE")
+	}
+	if t.InitiallyDeferred {
+		sb.WriteString("\n  INITIALLY DEFERRED")
+	}
 	if t.ForEachRow {
 		sb.WriteString("\n  FOR EACH ROW")
 	}
-- 
2.43.0


From 12ff024b690f1ab63985ef5517b84cd0139a9cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:25 +0000
Subject: [PATCH 16/25] fix: leave storage parameters as they were when a value
 is malformed

---
 internal/ddl/table_storage_parameters.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/internal/ddl/table_storage_parameters.go b/internal/ddl/table_storage_parameters.go
index b3c9bc9..05d8279 100644
--- a/internal/ddl/table_storage_parameters.go
+++ b/internal/ddl/table_storage_parameters.go
@@ -22,8 +22,18 @@ type TableStorageParameters struct {
 	UserCatalogTable                  *bool    `hcl:"user_catalog_table,optional"`
 }
 
-//nolint:gocyclo
+// Set changes a parameter, unless the value is malformed
 func (p *TableStorageParameters) Set(key, value string) error {
+	tmp := *p
+	err := tmp.set(key, value)
+	if err == nil {
+		*p = tmp
+	}
+	return err
+}
+
+//nolint:gocyclo
+func (p *TableStorageParameters) set(key, value string) error {
 	switch key {
 	case "fillfactor":
 		tmp, err := strconv.Atoi(value)
-- 
2.43.0


From f66b604ef21890da601e5ee33aef28a745b699f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:26 +0000
Subject: [PATCH 17/25] fix: shut a task set runner down once its tasks ended

---
 internal/taskset/base/base.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/internal/taskset/base/base.go b/internal/taskset/base/base.go
index 406910e..0e4ddb2 100644
--- a/internal/taskset/base/base.go
+++ b/internal/taskset/base/base.go
@@ -53,14 +53,11 @@ func RunTasks(fn RunTask, maxConcurrency int) (chan<- types.TaskBatch, <-chan ty
 			}
 		}
 	shutdown:
-		for result := range relay {
-			results <- result
+		for running > 0 {
+			results <- <-relay
 			running--
-			if running < 1 {
-				close(relay)
-				close(results)
-			}
 		}
+		close(results)
 	}(queue, results)
 
 	return queue, results
-- 
2.43.0


From 4b95dc55e66aed40eab26c8390dc16f8a033607d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:28 +0000
Subject: [PATCH 18/25] fix: keep the dependencies declared in a task set file

---
 internal/taskset/base/base.go     | 7 +++++++
 internal/taskset/parser/parser.go | 6 ++++++
 2 files changed, 13 insertions(+)

diff --git a/internal/taskset/base/base.go b/internal/taskset/base/base.go
index 0e4ddb2..6d312a8 100644
--- a/internal/taskset/base/base.go
+++ b/internal/taskset/base/base.go
@@ -25,6 +25,13 @@ func (t *Task) Provides() []string {
 	return t.Provide
 }
 
+// SetDependencies records the relationships declared for a task
+func (t *Task) SetDependencies(after, provide, require []string) {
+	t.After = after
+	t.Provide = provide
+	t.Require = require
+}
+
 type RunTask func(types.TaskID, types.Task, chan<- types.TaskResults)
 
 func RunTasks(fn RunTask, maxConcurrency int) (chan<- types.TaskBatch, <-chan types.TaskResults) {
diff --git a/internal/taskset/parser/parser.go b/internal/taskset/parser/parser.go
index 593b6b2..057f990 100644
--- a/internal/taskset/parser/parser.go
+++ b/internal/taskset/parser/parser.go
@@ -129,6 +129,12 @@ func (p *Parser) loadTasks(raw *taskSet, ts *types.TaskSet) error {
 			return diag
 		}
 
+		if x, ok := task.(interface {
+			SetDependencies(after, provide, require []string)
+		}); ok {
+			x.SetDependencies(t.After, t.Provide, t.Require)
+		}
+
 		ts.Tasks[types.TaskID(t.ID)] = task
 	}
 	return nil
-- 
2.43.0


From a866eeffc3bc9ecca07a889a60cda6b8ca5ba872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:46 +0000
Subject: [PATCH 19/25] fix: place the caret correctly in very long lines

---
 internal/ddl/parser_utils.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/internal/ddl/parser_utils.go b/internal/ddl/parser_utils.go
index 71ad3f5..8d20673 100644
--- a/internal/ddl/parser_utils.go
+++ b/internal/ddl/parser_utils.go
@@ -1,7 +1,6 @@
 package ddl
 
 import (
-	"fmt"
 	"regexp"
 	"strings"
 	"unicode/utf8"
@@ -51,5 +50,5 @@ OUTER:
 	}
 
 	column := utf8.RuneCountInString(data[:cs])
-	return fmt.Sprintf("%s\n%*s", data, column+1, "^")
+	return data + "\n" + strings.Repeat(" ", column) + "^"
 }
-- 
2.43.0


From 581e797efd795134ba961320384bd258505d6c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:29 +0000
Subject: [PATCH 20/25] fix: accept DEFERRABLE without INITIALLY

---
 internal/ddl/check_parser.go       | 32 ++++++++++-----------
 internal/ddl/check_parser.rl       | 14 ++++++----
 internal/ddl/foreign_key_parser.go | 32 ++++++++++-----------
 internal/ddl/foreign_key_parser.rl | 14 ++++++----
 internal/ddl/trigger_parser.go     | 45 +++++++-----------------------
 internal/ddl/trigger_parser.rl     | 14 ++++++----
 6 files changed, 69 insertions(+), 82 deletions(-)

diff --git a/internal/ddl/check_parser.go b/internal/ddl/check_parser.go
index cc7fc5e..290cc6a 100644
--- a/internal/ddl/check_parser.go
+++ b/internal/ddl/check_parser.go
@@ -75,8 +75,8 @@ func ParseCheck(data string) (*Check, error) {
 		goto st_case_16
 	case 17:
 		goto st_case_17
-	case 18:
-		goto st_case_18
+	case 60:
+		goto st_case_60
 	case 58:
 		goto st_case_58
 	case 19:
@@ -450,30 +450,30 @@ tr11:
 		case 41:
 			goto tr11
 		case 69:
-			goto st18
+			goto tr21
 		case 101:
-			goto st18
+			goto tr21
 		}
 		goto st8
-	st18:
+tr21:
+//line check_parser.rl:26
+ check.Deferrable = true 
+	goto st60
+	st60:
 		if p++; p == pe {
-			goto _test_eof18
+			goto _test_eof60
 		}
-	st_case_18:
+	st_case_60:
 		switch data[p] {
 		case 32:
-			goto tr21
+			goto st58
 		case 41:
 			goto tr11
 		}
 		if 9 <= data[p] && data[p] <= 13 {
-			goto tr21
+			goto st58
 		}
 		goto st8
-tr21:
-//line check_parser.rl:26
- check.Deferrable = true 
-	goto st58
 	st58:
 		if p++; p == pe {
 			goto _test_eof58
@@ -482,7 +482,7 @@ tr21:
 //line check_parser.go:479
 		switch data[p] {
 		case 32:
-			goto tr21
+			goto st58
 		case 41:
 			goto tr11
 		case 73:
@@ -491,7 +491,7 @@ tr21:
 			goto st19
 		}
 		if 9 <= data[p] && data[p] <= 13 {
-			goto tr21
+			goto st58
 		}
 		goto st8
 	st19:
@@ -1068,7 +1068,7 @@ tr39:
 	_test_eof15: cs = 15; goto _test_eof
 	_test_eof16: cs = 16; goto _test_eof
 	_test_eof17: cs = 17; goto _test_eof
-	_test_eof18: cs = 18; goto _test_eof
+	_test_eof60: cs = 60; goto _test_eof
 	_test_eof58: cs = 58; goto _test_eof
 	_test_eof19: cs = 19; goto _test_eof
 	_test_eof20: cs = 20; goto _test_eof
diff --git a/internal/ddl/check_parser.rl b/internal/ddl/check_parser.rl
index 29cce15..40c0e6d 100644
--- a/internal/ddl/check_parser.rl
+++ b/internal/ddl/check_parser.rl
@@ -29,16 +29,20 @@ func ParseCheck(data string) (*Check, error) {
 	action matchInitiallyDeferred { check.InitiallyDeferred = true }
 
 	ws = space+;
+	initially = 'INITIALLY'i ws
+		( 'IMMEDIATE'i
+		| 'DEFERRED'i @ matchInitiallyDeferred
+		);
 
 	main := space*
 		'CHECK'i space* '(' % setMark1
 		  any**
 		')' @ setMark2
-		( ws ( 'NOT'i ws 'DEFERRABLE'i )
-		| ws ( 'DEFERRABLE'i ws @ matchDeferrable )?
-		  ( 'INITIALLY'i ws 'IMMEDIATE'i
-		  | 'INITIALLY'i ws 'DEFERRED'i @ matchInitiallyDeferred
-		  )?
+		( ws
+		  ( 'NOT'i ws 'DEFERRABLE'i
+		  | 'DEFERRABLE'i @ matchDeferrable ( ws initially )?
+		  | initially
+		  )
 		)?
 		space*;
 
diff --git a/internal/ddl/foreign_key_parser.go b/internal/ddl/foreign_key_parser.go
index b974cfa..0aea5de 100644
--- a/internal/ddl/foreign_key_parser.go
+++ b/internal/ddl/foreign_key_parser.go
@@ -128,8 +128,8 @@ func ParseForeignKey(data string) (*ForeignKey, error) {
 		goto st_case_41
 	case 42:
 		goto st_case_42
-	case 43:
-		goto st_case_43
+	case 196:
+		goto st_case_196
 	case 188:
 		goto st_case_188
 	case 44:
@@ -1165,27 +1165,27 @@ tr38:
 	st_case_42:
 		switch data[p] {
 		case 69:
-			goto st43
+			goto tr51
 		case 101:
-			goto st43
+			goto tr51
 		}
 		goto st0
-	st43:
+tr51:
+//line foreign_key_parser.rl:51
+ fk.Deferrable = true 
+	goto st196
+	st196:
 		if p++; p == pe {
-			goto _test_eof43
+			goto _test_eof196
 		}
-	st_case_43:
+	st_case_196:
 		if data[p] == 32 {
-			goto tr51
+			goto st188
 		}
 		if 9 <= data[p] && data[p] <= 13 {
-			goto tr51
+			goto st188
 		}
 		goto st0
-tr51:
-//line foreign_key_parser.rl:51
- fk.Deferrable = true 
-	goto st188
 	st188:
 		if p++; p == pe {
 			goto _test_eof188
@@ -1194,14 +1194,14 @@ tr51:
 //line foreign_key_parser.go:1195
 		switch data[p] {
 		case 32:
-			goto tr51
+			goto st188
 		case 73:
 			goto st44
 		case 105:
 			goto st44
 		}
 		if 9 <= data[p] && data[p] <= 13 {
-			goto tr51
+			goto st188
 		}
 		goto st0
 	st44:
@@ -3790,7 +3790,7 @@ tr193:
 	_test_eof40: cs = 40; goto _test_eof
 	_test_eof41: cs = 41; goto _test_eof
 	_test_eof42: cs = 42; goto _test_eof
-	_test_eof43: cs = 43; goto _test_eof
+	_test_eof196: cs = 196; goto _test_eof
 	_test_eof188: cs = 188; goto _test_eof
 	_test_eof44: cs = 44; goto _test_eof
 	_test_eof45: cs = 45; goto _test_eof
diff --git a/internal/ddl/foreign_key_parser.rl b/internal/ddl/foreign_key_parser.rl
index cc88f1c..a94b164 100644
--- a/internal/ddl/foreign_key_parser.rl
+++ b/internal/ddl/foreign_key_parser.rl
@@ -52,6 +52,10 @@ func ParseForeignKey(data string) (*ForeignKey, error) {
 	action matchInitiallyDeferred { fk.InitiallyDeferred = true }
 
 	ws = space+;
+	initially = 'INITIALLY'i ws
+		( 'IMMEDIATE'i
+		| 'DEFERRED'i @ matchInitiallyDeferred
+		);
 	ident = [a-zA-Z][_a-zA-Z0-9]*;
 	match = ( 'FULL'i | 'PARTIAL'i | 'SIMPLE'i );
 	onaction = ( 'NO'i ws 'ACTION'i | 'RESTRICT'i | 'CASCADE'i | 'SET'i ws 'NULL'i | 'SET'i ws 'DEFAULT'i );
@@ -68,11 +72,11 @@ func ParseForeignKey(data string) (*ForeignKey, error) {
 		( ws 'MATCH'i ws ( match $ addToBuffer % setMatch ) )?
 		( ws 'ON'i ws 'DELETE'i ws ( onaction $ addToBuffer % setOnDelete ) )?
 		( ws 'ON'i ws 'UPDATE'i ws ( onaction $ addToBuffer % setOnUpdate ) )?
-		( ws ( 'NOT'i ws 'DEFERRABLE'i )
-		| ws ( 'DEFERRABLE'i ws @ matchDeferrable )?
-		  ( 'INITIALLY'i ws 'IMMEDIATE'i
-		  | 'INITIALLY'i ws 'DEFERRED'i @ matchInitiallyDeferred
-		  )?
+		( ws
+		  ( 'NOT'i ws 'DEFERRABLE'i
+		  | 'DEFERRABLE'i @ matchDeferrable ( ws initially )?
+		  | initially
+		  )
 		)?
 		space*
 		;
diff --git a/internal/ddl/trigger_parser.go b/internal/ddl/trigger_parser.go
index d24e58a..f0a6dc3 100644
--- a/internal/ddl/trigger_parser.go
+++ b/internal/ddl/trigger_parser.go
@@ -154,8 +154,6 @@ func ParseTrigger(data string) (*Trigger, error) {
 		goto st_case_56
 	case 57:
 		goto st_case_57
-	case 58:
-		goto st_case_58
 	case 59:
 		goto st_case_59
 	case 60:
@@ -1307,49 +1305,27 @@ tr55:
 	st_case_56:
 		switch data[p] {
 		case 69:
-			goto st57
-		case 101:
-			goto st57
-		}
-		goto st0
-	st57:
-		if p++; p == pe {
-			goto _test_eof57
-		}
-	st_case_57:
-		if data[p] == 32 {
 			goto tr71
-		}
-		if 9 <= data[p] && data[p] <= 13 {
+		case 101:
 			goto tr71
 		}
 		goto st0
 tr71:
 //line trigger_parser.rl:48
  trigger.Deferrable = true 
-	goto st58
-	st58:
+	goto st57
+	st57:
 		if p++; p == pe {
-			goto _test_eof58
+			goto _test_eof57
 		}
-	st_case_58:
-//line trigger_parser.go:1337
-		switch data[p] {
-		case 32:
-			goto tr72
-		case 73:
-			goto st108
-		case 105:
-			goto st108
+	st_case_57:
+		if data[p] == 32 {
+			goto st59
 		}
 		if 9 <= data[p] && data[p] <= 13 {
-			goto tr72
+			goto st59
 		}
 		goto st0
-tr72:
-//line trigger_parser.rl:48
- trigger.Deferrable = true 
-	goto st59
 	st59:
 		if p++; p == pe {
 			goto _test_eof59
@@ -1358,7 +1334,7 @@ tr72:
 //line trigger_parser.go:1359
 		switch data[p] {
 		case 32:
-			goto tr72
+			goto st59
 		case 69:
 			goto st60
 		case 70:
@@ -1373,7 +1349,7 @@ tr72:
 			goto st108
 		}
 		if 9 <= data[p] && data[p] <= 13 {
-			goto tr72
+			goto st59
 		}
 		goto st0
 	st60:
@@ -3239,7 +3215,6 @@ tr195:
 	_test_eof55: cs = 55; goto _test_eof
 	_test_eof56: cs = 56; goto _test_eof
 	_test_eof57: cs = 57; goto _test_eof
-	_test_eof58: cs = 58; goto _test_eof
 	_test_eof59: cs = 59; goto _test_eof
 	_test_eof60: cs = 60; goto _test_eof
 	_test_eof61: cs = 61; goto _test_eof
diff --git a/internal/ddl/trigger_parser.rl b/internal/ddl/trigger_parser.rl
index b914b35..1f55b39 100644
--- a/internal/ddl/trigger_parser.rl
+++ b/internal/ddl/trigger_parser.rl
@@ -55,6 +55,10 @@ func ParseTrigger(data string) (*Trigger, error) {
 	action matchUpdate   { trigger.Update = true }
 
 	ws = space+;
+	initially = 'INITIALLY'i ws
+		( 'IMMEDIATE'i
+		| 'DEFERRED'i @ matchInitiallyDeferred
+		);
 	ident = [a-zA-Z][_a-zA-Z0-9]*;
 
 	insert   = 'INSERT'i @ matchInsert;
@@ -74,11 +78,11 @@ func ParseTrigger(data string) (*Trigger, error) {
 		   ( insert | update | delete | truncate )
 		)*
 		ws 'ON'i ws ( ident $ addToBuffer % setTable )
-		( ws ( 'NOT'i ws 'DEFERRABLE'i )
-		| ws ( 'DEFERRABLE'i ws @ matchDeferrable )?
-		  ( 'INITIALLY'i ws 'IMMEDIATE'i
-		  | 'INITIALLY'i ws 'DEFERRED'i @ matchInitiallyDeferred
-		  )?
+		( ws
+		  ( 'NOT'i ws 'DEFERRABLE'i
+		  | 'DEFERRABLE'i @ matchDeferrable ( ws initially )?
+		  | initially
+		  )
 		)?
 		( ws 'FOR'i ws ('EACH'i ws)? ('ROW'i @ matchForEachRow | 'STATEMENT'i) )?
 		ws 'EXECUTE'i ws ('FUNCTION'i | 'PROCEDURE'i) ws ( ident $ addToBuffer % setFunction ) '()'
-- 
2.43.0


From 6aba8dcf88da41a67cb217c9307f9f9896a804d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:57 +0000
Subject: [PATCH 21/25] fix: accept referential actions in either order

---
 internal/ddl/foreign_key_parser.go | 58 ++++--------------------------
 internal/ddl/foreign_key_parser.rl |  7 ++--
 2 files changed, 11 insertions(+), 54 deletions(-)

diff --git a/internal/ddl/foreign_key_parser.go b/internal/ddl/foreign_key_parser.go
index 0aea5de..d9218f1 100644
--- a/internal/ddl/foreign_key_parser.go
+++ b/internal/ddl/foreign_key_parser.go
@@ -266,12 +266,6 @@ func ParseForeignKey(data string) (*ForeignKey, error) {
 		goto st_case_192
 	case 193:
 		goto st_case_193
-	case 106:
-		goto st_case_106
-	case 107:
-		goto st_case_107
-	case 108:
-		goto st_case_108
 	case 109:
 		goto st_case_109
 	case 110:
@@ -2179,7 +2173,7 @@ tr202:
 		case 78:
 			goto st78
 		case 79:
-			goto st106
+			goto st90
 		case 100:
 			goto st34
 		case 105:
@@ -2187,53 +2181,12 @@ tr202:
 		case 110:
 			goto st78
 		case 111:
-			goto st106
+			goto st90
 		}
 		if 9 <= data[p] && data[p] <= 13 {
 			goto st193
 		}
 		goto st0
-	st106:
-		if p++; p == pe {
-			goto _test_eof106
-		}
-	st_case_106:
-		switch data[p] {
-		case 78:
-			goto st107
-		case 110:
-			goto st107
-		}
-		goto st0
-	st107:
-		if p++; p == pe {
-			goto _test_eof107
-		}
-	st_case_107:
-		if data[p] == 32 {
-			goto st108
-		}
-		if 9 <= data[p] && data[p] <= 13 {
-			goto st108
-		}
-		goto st0
-	st108:
-		if p++; p == pe {
-			goto _test_eof108
-		}
-	st_case_108:
-		switch data[p] {
-		case 32:
-			goto st108
-		case 85:
-			goto st109
-		case 117:
-			goto st109
-		}
-		if 9 <= data[p] && data[p] <= 13 {
-			goto st108
-		}
-		goto st0
 	st109:
 		if p++; p == pe {
 			goto _test_eof109
@@ -2490,12 +2443,16 @@ tr205:
 			goto st44
 		case 78:
 			goto st78
+		case 79:
+			goto st90
 		case 100:
 			goto st34
 		case 105:
 			goto st44
 		case 110:
 			goto st78
+		case 111:
+			goto st90
 		}
 		if 9 <= data[p] && data[p] <= 13 {
 			goto st195
@@ -3859,9 +3816,6 @@ tr193:
 	_test_eof105: cs = 105; goto _test_eof
 	_test_eof192: cs = 192; goto _test_eof
 	_test_eof193: cs = 193; goto _test_eof
-	_test_eof106: cs = 106; goto _test_eof
-	_test_eof107: cs = 107; goto _test_eof
-	_test_eof108: cs = 108; goto _test_eof
 	_test_eof109: cs = 109; goto _test_eof
 	_test_eof110: cs = 110; goto _test_eof
 	_test_eof111: cs = 111; goto _test_eof
diff --git a/internal/ddl/foreign_key_parser.rl b/internal/ddl/foreign_key_parser.rl
index a94b164..a67c1a0 100644
--- a/internal/ddl/foreign_key_parser.rl
+++ b/internal/ddl/foreign_key_parser.rl
@@ -70,8 +70,11 @@ func ParseForeignKey(data string) (*ForeignKey, error) {
 		  ( ws? ',' ws? ( ident $ addToBuffer % addReferenced ) )*
 		ws? ')'
 		( ws 'MATCH'i ws ( match $ addToBuffer % setMatch ) )?
-		( ws 'ON'i ws 'DELETE'i ws ( onaction $ addToBuffer % setOnDelete ) )?
-		( ws 'ON'i ws 'UPDATE'i ws ( onaction $ addToBuffer % setOnUpdate ) )?
+		( ws 'ON'i ws
+		  ( 'DELETE'i ws ( onaction $ addToBuffer % setOnDelete )
+		  | 'UPDATE'i ws ( onaction $ addToBuffer % setOnUpdate )
+		  )
+		)*
 		( ws
 		  ( 'NOT'i ws 'DEFERRABLE'i
 		  | 'DEFERRABLE'i @ matchDeferrable ( ws initially )?
-- 
2.43.0


From 80762dd157854610fa7d5320169a0f019b2928b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:53 +0000
Subject: [PATCH 22/25] fix: treat vertical tabs as white space when collapsing
 it

The parsers accept a vertical tab between keywords, but it was left in
canonical spellings ("SET<VT>NULL").
---
 internal/ddl/parser_utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/ddl/parser_utils.go b/internal/ddl/parser_utils.go
index 8d20673..112afd5 100644
--- a/internal/ddl/parser_utils.go
+++ b/internal/ddl/parser_utils.go
@@ -6,7 +6,7 @@ import (
 	"unicode/utf8"
 )
 
-var whitespace = regexp.MustCompile(`\s+`)
+var whitespace = regexp.MustCompile(`[\s\v]+`)
 
 func collapseWhitespace(before string) string {
 	after := whitespace.ReplaceAllString(before, " ")
-- 
2.43.0


From 15113ff123cec06e9833831d9e6b15ac2b706ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:12 +0000
Subject: [PATCH 23/25] fix: quote names in runbook graphs

---
 internal/runbook/runbook.go | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/internal/runbook/runbook.go b/internal/runbook/runbook.go
index 41d2c94..9c4795f 100644
--- a/internal/runbook/runbook.go
+++ b/internal/runbook/runbook.go
@@ -4,6 +4,7 @@ import (
 	"encoding/json"
 	"io"
 	"path/filepath"
+	"strings"
 
 	dot "github.com/awalterschulze/gographviz"
 	"github.com/hokaccha/go-prettyjson"
@@ -56,25 +57,25 @@ func Dot(sys *sys.IO, filename string, w io.Writer, splines string) error {
 		return err
 	}
 
-	g := dot.NewEscape()
+	g := dot.NewGraph()
 	g.SetDir(true)
 	g.SetName("runbook")
 	g.AddAttr("runbook", "newrank", "true")
 	if splines != "" {
-		g.AddAttr("runbook", "splines", splines)
+		g.AddAttr("runbook", "splines", quote(splines))
 	}
 
 	for targetID := range runbook.Targets {
-		graphID := "cluster_" + targetID
+		graphID := quote("cluster_" + targetID)
 		g.AddSubGraph("runbook", graphID, nil)
-		g.AddAttr(graphID, "label", targetID)
+		g.AddAttr(graphID, "label", quote(targetID))
 	}
 
 	for dstID, task := range runbook.Tasks {
-		graphID := "cluster_" + task.Target
-		g.AddNode(graphID, dstID, nil)
+		graphID := quote("cluster_" + task.Target)
+		g.AddNode(graphID, quote(dstID), nil)
 		for _, srcID := range task.After {
-			g.AddEdge(srcID, dstID, true, nil)
+			g.AddEdge(quote(srcID), quote(dstID), true, nil)
 		}
 	}
 
@@ -82,6 +83,13 @@ func Dot(sys *sys.IO, filename string, w io.Writer, splines string) error {
 	return nil
 }
 
+// quote converts a string to a quoted DOT identifier
+func quote(s string) string {
+	s = strings.Replace(s, `\`, `\\`, -1)
+	s = strings.Replace(s, `"`, `\"`, -1)
+	return `"` + s + `"`
+}
+
 // Eval converts a runbook to JSON and pretty prints it
 func Eval(sys *sys.IO, filename string, w io.Writer, color bool) error {
 	p, err := newParser(sys, filepath.Dir(filename))
-- 
2.43.0


From 701341e0ed8b59889a721bbf2bdd616447e034cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:18 +0000
Subject: [PATCH 24/25] fix: report failures to draw or write a runbook graph

---
 internal/runbook/runbook.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/runbook/runbook.go b/internal/runbook/runbook.go
index 9c4795f..a7455b7 100644
--- a/internal/runbook/runbook.go
+++ b/internal/runbook/runbook.go
@@ -79,8 +79,12 @@ func Dot(sys *sys.IO, filename string, w io.Writer, splines string) error {
 		}
 	}
 
-	w.Write([]byte(g.String()))
-	return nil
+	ast, err := g.WriteAst()
+	if err != nil {
+		return err
+	}
+	_, err = w.Write([]byte(ast.String()))
+	return err
 }
 
 // quote converts a string to a quoted DOT identifier
-- 
2.43.0


From 01fec7afceecbd18b1c2b341be28b85ecc66746d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:08 +0000
Subject: [PATCH 25/25] fix: colour an evaluated runbook whenever that is
 requested

---
 internal/runbook/runbook.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/runbook/runbook.go b/internal/runbook/runbook.go
index a7455b7..81116d9 100644
--- a/internal/runbook/runbook.go
+++ b/internal/runbook/runbook.go
@@ -114,6 +114,14 @@ func Eval(sys *sys.IO, filename string, w io.Writer, color bool) error {
 
 	formatter := prettyjson.NewFormatter()
 	formatter.DisabledColor = !color
+	if color {
+		// don't depend on the process's standard output
+		formatter.KeyColor.EnableColor()
+		formatter.StringColor.EnableColor()
+		formatter.BoolColor.EnableColor()
+		formatter.NumberColor.EnableColor()
+		formatter.NullColor.EnableColor()
+	}
 	formatted, err := formatter.Marshal(unformatted)
 	if err != nil {
 		return err
-- 
2.43.0

