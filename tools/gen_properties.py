#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one compact table, expanded to the schema)."""
import json, os
P = []
def p(id, title, statement, over, q, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": q}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
        "mechanism": [{"name": a, "where": b} for a, b in mech],
        "observe_at": list(observe), "hook_needed": None}})
E="engine.go"; S="snapshot.go"; EV="event.go"; MB="eventbus/mysql/eventbus.go"; PO="eventbus/mysql/po.go"
LD="lock/db/sql.go"; LR="lock/redis/redis.go"; X="executor/mysql/executor.go"; T="d_timer/sql/timer.go"; TM="d_timer/sql/model.go"; MM="eventbus/mem/eventbus.go"

p("C01","Every transactional run is bracketed by exactly one begin and one end",
 "A transactional run opens exactly one executor transaction before any of the command's main work and ends it exactly once: it commits only when the command, the persistence and the event hand-off all succeeded, and rolls back on any error, on a break and on a panic of the command (which keeps propagating to the caller). Every executor call of the run, including the closing one, and the command's main function receive the context that opening the transaction returned. A run configured without transactions never opens, commits or rolls back one.",
 ["inputs","fault_sequences","configurations"],"for every command, every combination of failing/breaking/panicking steps and every option set",
 "The tests commit happy paths through an in-memory executor; no test injects an error, break or panic after a successful begin and counts the endings.",
 [E],[("Stage.runWithTransaction","engine.go"),("Stage.Save","engine.go")],
 [("ctx","context returned by IExecutor.Begin","engine.go Stage.runWithTransaction")],["IExecutor.Begin/Commit/RollBack/Exec calls"])
p("C02","Lock keys are all acquired before the run and all released after it",
 "A run with lock keys acquires every key, in one global (sorted) order and each at most once, before its transaction opens and before the command's main function runs; a duplicate key or a failed acquisition ends the run with an error before any of that happens. Every lock acquired is released exactly once on every exit (success, error, break, panic of the command, failed acquisition of a later key) and only after the transaction has ended. Nothing is released that was not acquired.",
 ["inputs","fault_sequences","schedules"],"for every key list and every failing acquisition or failing/panicking run",
 "The tests take one or two keys on a memory lock; partial acquisition failures, panics and orderings across concurrent runs are not reached.",
 [E],[("Stage.runOnLock","engine.go"),("Stage.Save","engine.go")],
 [("ls","locks held by this run","engine.go Stage.runOnLock")],["ILock.Lock/UnLock calls"])
p("C03","No failure during a run is lost",
 "If any step of a run reports an error (command init/build/act/main, executor, converter, ID generator, entity hook, event conversion, event bus dispatch, locker, transaction begin or commit), the returned result carries an error for which errors.Is finds the reported error, or is marked as break when the command returned the break sentinel, wrapped or not. After the failing step the run performs no further executor write, no event dispatch and no transaction commit. An entity whose converter reports the not-registered sentinel, wrapped or not, is skipped instead of failing the run.",
 ["fault_sequences","inputs"],"for every step that can fail, every error value (wrapped or not), every command",
 "Only a few error paths are exercised (an error from main, repeated entity); each collaborator failure at each step would need its own injected fault.",
 [E,"command.go","executor.go"],[("Stage.do/persist/makeActions/runCommand","engine.go"),("ErrList","engine.go"),("ResultErrOrBreak","engine.go")],(),["Result.Error, Result.Break"])
p("C04","Saving detects every created, updated and deleted entity exactly once",
 "When a run saves, every entity attached to a parent (or to the repository) that was not attached to it in the baseline is a creation, every baseline child no longer attached is a deletion even when its whole child key has disappeared, and every entity present in both is an update exactly when it is marked dirty. Nothing else is a change. This holds at every nesting depth below created and remaining entities, each entity yielding one change.",
 ["inputs","histories"],"for every aggregate shape, every nesting depth and every sequence of modifications between two saves",
 "Tests use fixed two- or three-level aggregates; the diff must be right for every tree, key set and edit history.",
 [S,E],[("entityDiff","snapshot.go"),("simpleSet","snapshot.go"),("findChildren","snapshot.go")],[("snapshot","baseline child lists per entity","engine.go Stage.snapshot")],["Actions passed to IExecutor.Exec"])
p("C05","Each change becomes exactly one model of the right operation, in order",
 "Every detected change is converted once, with its own entity and parent and with the operation that matches it (created to insert, dirty to update, removed to delete), and lands in exactly one action of that operation that only groups models of the same type. An update's previous model sits at the same position as its model and is the entity's baseline model. All insert actions run before all updates and those before all deletes, every action is executed exactly once, and the executed actions are what the result reports.",
 ["inputs"],"for every set of changes over any mix of entity types, operations and parents",
 "Tests check a few fixed aggregates; grouping, alignment and ordering must hold for every mix of types and operations.",
 [E],[("Stage.makeActions","engine.go"),("changeType2OP","engine.go"),("Stage.exec","engine.go")],(),["IExecutor.Entity2Model and IExecutor.Exec arguments","Result.Actions"])
p("C06","New entities get an ID before conversion, existing IDs are never replaced",
 "During a save every entity to be created that has no ID receives one freshly generated by the configured ID generator, before any entity is converted to a model. An ID that is already set is never overwritten, and entities that are updated or deleted are never given an ID. A generator failure aborts the save before anything is written.",
 ["inputs","fault_sequences"],"for every set of created entities with and without preset IDs",
 "Tests check that some created roots end with an ID, not that every created entity gets one before every conversion or that preset IDs survive.",
 [E],[("Stage.putNewID","engine.go"),("Stage.persist","engine.go")],(),["IIDGenerator.NewID, IEntity.SetID, IExecutor.Entity2Model"])
p("C07","Entity hooks match the change and surround the write",
 "For every changed entity that implements a hook, the before hook of its own change kind (create, update, delete) runs exactly once before IDs are assigned and before any write of that save, and the after hook of the same kind runs exactly once after all writes of that save succeeded. No hook of another kind runs for it, unchanged entities get none, and an error from a hook aborts the run (a before hook's error before anything is written). Each hook receives the context of the run.",
 ["inputs","fault_sequences"],"for every changed entity, every change kind and every failing hook",
 "Tests cover single hook calls on one entity; pairing of kind and phase for all entities and the abort on error are not enumerated.",
 [E,"domain.go"],[("execHook","engine.go"),("Stage.persist","engine.go")],(),["IBefore*/IAfter* calls"])
p("C08","The baseline only contains what was loaded or persisted",
 "The state a save is compared against contains exactly the roots loaded through the repository (get, custom get, command build), roots handed to removal, and the outcome of the last save in the run; additions and removals that have not been saved stay pending whatever is loaded after them. The baseline holds its own copies of child lists, so later edits of an aggregate's children never change it. After a mid-run save succeeded the baseline equals the saved state and dirty marks are cleared; loading an already tracked root is refused.",
 ["histories","inputs"],"for every interleaving of get, custom get, add, remove, child edits and save within a run",
 "The tests follow a fixed load-modify-save order; interleavings such as add-then-load are not tried.",
 [E,S],[("Stage.updateSnapshot/flush/commit","engine.go"),("Repository","engine.go"),("childrenSnapshot","engine.go")],[("snapshot","baseline","engine.go Stage.snapshot"),("meta","tracked roots","engine.go Stage.meta")],["Actions produced by the next save"])
p("C09","Dry-run never writes and never sends",
 "With the dry-run option no executor write (insert, update or delete, including event persistence) is executed and no event reaches the event bus in any form, on every path of the run including explicit mid-run saves. Queries still work. Without the option both happen.",
 ["inputs","configurations"],"for every command and every combination of the other options",
 "One test runs one command in dry-run mode.",
 [E],[("Stage.exec","engine.go"),("Stage.dispatchEvents","engine.go")],(),["IExecutor.Exec, IEventBus calls"])
p("C10","All events of the run's entities are collected once and in order",
 "After persistence, the events to send are exactly the events of every entity reachable from the repository's roots and of every entity deleted during the run (and what is reachable from it), including ones deleted by an earlier save of the run. Each event appears once even if it is reachable several ways. They are ordered by creation time and, at equal times, by event ID.",
 ["inputs","histories"],"for every aggregate tree, deletion history and event timestamps",
 "Tests look at the events of one or two roots; deleted subtrees, shared events and equal timestamps are not covered.",
 [E],[("Stage.collectEvents","engine.go"),("Stage.recycle","engine.go"),("EntityContainer.Recycle/GetDeleted","engine.go")],[("deleted","entities deleted in this run","engine.go EntityContainer")],["arguments of IEventBus.Dispatch/DispatchBegin"])
p("C11","Events are persisted and dispatched only after the writes, inside the run",
 "Events are handed over (first through the configured event persistence, then to the event bus) only after every entity write and after-hook of the run succeeded and before the transaction is committed, each event exactly once. If events exist and event persistence is configured, all of them are written as one insert that holds one converted model per event in event order. A dispatch or conversion error fails the run; a run without events touches neither.",
 ["inputs","fault_sequences","configurations"],"for every run with any set of events and any failing step",
 "Tests see events arrive; the position relative to writes and commit under faults is not observable there.",
 [E],[("Stage.do","engine.go"),("Stage.makeEventPersistAction","engine.go"),("Stage.dispatchEvents","engine.go")],(),["IExecutor.Exec, IEventBus.Dispatch order"])
p("C12","Transactional events follow the run's transaction in two phases",
 "In a transactional run on a bus that supports transactional messages, exactly the events marked transactional are announced with the begin call and all others are dispatched normally. The message is committed only after the executor's commit succeeded, rolled back when the run fails or breaks after it was announced, and left undecided when the commit itself fails; commit and rollback receive the context the announcement returned. On other buses, or without transactions, every event is dispatched normally.",
 ["inputs","fault_sequences","configurations"],"for every mix of event send types, bus capability and failing step",
 "No existing test runs a transactional bus through a failing commit or a failing dispatch.",
 [E,EV],[("Stage.dispatchEvents","engine.go"),("Stage.runWithTransaction","engine.go")],[("eventCtx","context of the announced message","engine.go Stage.eventCtx")],["ITransactionEventBus calls"])
p("C13","The event router calls every handler in order and stops on the first error",
 "An incoming event is passed to every handler registered for its type, in registration order, each exactly once with the incoming context, until one returns an error, which is returned. Handlers typed on the raw envelope get the envelope itself, others a freshly decoded payload; a payload that cannot be decoded is an error and the handler is not called. User handlers are never called while the registry lock is held.",
 ["inputs","schedules","fault_sequences"],"for every event type, set of registered handlers and payload",
 "Tests register one handler per type and send valid payloads.",
 [EV,E],[("onEvent","event.go"),("RegisterEventHandler","event.go"),("Engine.RegisterEventHandler","engine.go")],[("eventRouter","handlers per type","event.go")],["handler invocations"])
p("C14","The transaction check answers rollback whenever it cannot know",
 "Asked for the outcome of a transactional event, the framework returns exactly the status the checker registered for that event type returned (for any status type the registration accepts), calling it once with the decoded event. With no checker for the type, or a payload that cannot be decoded, the answer is rollback. The checker is never called while the registry lock is held, and a second checker for one type is refused.",
 ["inputs"],"for every event, checker signature accepted by registration and payload",
 "No test reaches the checker with a convertible status type or a broken payload.",
 [EV],[("onTXChecker","event.go"),("RegisterEventTXChecker","event.go")],[("eventTXCheckerRouter","checker per type","event.go")],["return value to the event bus"])
p("C15","Runs of one engine share no mutable state",
 "Options, hooks, locks, results, tracked entities and pending events of one run never become visible in another run of the same engine, sequential or concurrent. Constructing and running never modifies the engine after it was built, and option application in a run never writes into memory reachable from the engine.",
 ["schedules","inputs","histories"],"for every set of concurrent runs with different options on one engine",
 "Aliasing between runs shows only with particular slice capacities and interleavings that no test sets up.",
 [E],[("Engine.NewStage","engine.go"),("Stage.WithOption","engine.go"),("*Option.ApplyToOptions","engine.go")],[("Engine.options","engine defaults","engine.go")],["Result, hooks invoked per run"])
p("C16","Misuse of add and remove is reported",
 "Adding an entity that is already tracked, or removing one that is not, is recorded and makes the run end with an error instead of being ignored, for the repository and for the container given to a command's act step alike. An explicit mid-run save is refused once such an error is recorded. Nothing is written or dispatched after the misuse was recorded and the command returned.",
 ["inputs","histories"],"for every sequence of add/remove calls on the repository or container",
 "One test adds the same root twice through the repository; the container and remove variants are untested.",
 [E],[("RootContainer.Add/Remove","engine.go"),("Repository.Add/Remove/Save","engine.go"),("EntityContainer.Add/Remove","engine.go")],(),["Result.Error"])
p("C17","Post-save hooks run exactly when the run succeeded, after everything else",
 "Each post-save hook configured on the engine or the run, and the command's own, is called exactly once, in configuration order, with the caller's context and the run's result, and only when that result carries no error. They run after the transaction was ended and after all locks were released. A run that failed, including at commit, calls none.",
 ["inputs","fault_sequences","configurations"],"for every outcome of a run and every set of hooks",
 "Tests check that a hook is called on success.",
 [E],[("Stage.Save","engine.go"),("PostSaveOption","engine.go"),("Stage.Run/runCommand","engine.go")],(),["hook invocations"])
p("C18","Moving an entity between parents is one update, any other double use is an error",
 "An entity that disappears from one parent and appears under another in the same save is persisted as exactly one update with the new parent, neither inserted nor deleted, however many entities are moved at once. An entity that would be changed twice in any other way makes the save fail with an error before anything is written. Entities that are not moved keep their change.",
 ["inputs","histories"],"for every number of moved entities and every combination of changes in one save",
 "One test moves a single entity; the in-place filtering goes wrong only with several.",
 [S],[("handleEntityMove","snapshot.go"),("entityChanged.Remove","snapshot.go")],(),["Actions passed to IExecutor.Exec"])
p("C19","Recursive delete removes every descendant, and only when enabled",
 "With recursive delete enabled, every entity below a deleted entity, at any depth and under any child key, is also deleted in that save, each with its direct parent. Without the option only the entity itself is deleted. Entities below created or updated ones are never deleted by it.",
 ["inputs","configurations"],"for every deleted subtree",
 "One test deletes a fixed small tree.",
 [S,E],[("recursiveDelete","snapshot.go"),("Stage.getEntityChanged","engine.go"),("walk","snapshot.go")],(),["Actions passed to IExecutor.Exec"])
p("C20","Commands run their phases in the documented order",
 "A command's init runs exactly once, first, before locks and transaction, and its error ends the run before anything else happens (as break for the break sentinel); the keys it returns are exactly the keys locked. Build runs before act, every root it returns must already have an ID and forms the baseline before act sees it; main or act runs exactly once inside lock and transaction. Every documented command form is accepted and any other value is refused by a panic.",
 ["inputs","fault_sequences"],"for every command form, returned key list and failing phase",
 "Tests run each form on its happy path.",
 [E,"command.go"],[("Stage.Run","engine.go"),("Stage.runCommand","engine.go")],(),["order of ICommand* calls"])
p("C21","Loading fills exactly the requested entities or fails",
 "Loading a root without ID is an error before any query. The root is filled from a query built from itself and a missing row is the not-found error; each requested child collection is filled from a query built with the loaded root as parent, holds one new entity per returned row in row order, and a destination of the wrong shape is an error. Any converter or executor error is returned and nothing is added to the repository: whatever the command does with the error, the run neither inserts nor updates that aggregate, and the load may be repeated. Loading with a getter of the caller adds all the given roots or, if one is already tracked or given twice, none.",
 ["inputs","fault_sequences"],"for every root, child destination type and query result",
 "Tests load existing rows into well-formed destinations.",
 [E],[("Stage.BuildEntity/buildEntity/buildEntitySliceByParent","engine.go"),("Repository.Get","engine.go")],(),["OpQuery actions, returned error"])
p("C22","Event envelopes identify the event completely",
 "Every envelope made from a business event carries a fresh unique ID, the event's own type and sender, its JSON encoding, the creation time, and the send type requested by options (normal by default). An event that cannot be encoded is refused instead of producing an envelope. Adding an event to an entity appends exactly one envelope and keeps the previous ones.",
 ["inputs"],"for every event value and option list",
 "Tests build a few events and compare the payload only.",
 [EV,"domain.go","timer.go"],[("NewDomainEvent","event.go"),("BaseEntity.AddEvent","domain.go")],(),["IEntity.GetEvents"])
p("C23","The database lock is granted to one holder at a time",
 "A lock is granted only by creating the row of a free resource, or by taking over a row older than the lock's lifetime with an update conditioned on the holder that was read, and only if that update hit a row; each grant carries a fresh holder ID that was written. In every other situation (row young, lost creation race, lost takeover) the caller gets the locked error and no grant; any database error is returned with no grant. Only the locked error is retried.",
 ["schedules","fault_sequences","inputs"],"for every interleaving of lockers and database errors",
 "The lock's tests need a MySQL server and do not interleave two takers between read and write.",
 [LD],[("DBLock.Lock/lock","lock/db/sql.go")],[("ResourceLock row","holder and renewal time","lock/db/po.go")],["rows written, returned grant"])
p("C24","Releasing and renewing a database lock touch only the caller's own grant",
 "Unlocking deletes only the row whose resource and holder ID are both those of the grant, and renewing updates only such a row. When no row matches, because the lock was lost to another holder, both report an error and change nothing; database errors are returned. Renewing writes a fresh renewal time and keeps the holder.",
 ["schedules","inputs"],"for every interleaving with a taker of an expired lock",
 "Needs an expired lock taken over between grant and release.",
 [LD],[("DBLock.UnLock","lock/db/sql.go"),("DBLock.update","lock/db/sql.go")],(),["DELETE/UPDATE conditions"])
p("C25","A function run under the database lock is guarded for its whole duration",
 "The guarded function runs exactly once and only after the lock was granted; when acquisition fails its error is returned and the function is not run. The lock is released on every exit including a panic, and is renewed periodically meanwhile; when a renewal fails the function's context is cancelled. After the function returned, the renewal activity ends and shares no unsynchronised variable with the caller.",
 ["schedules","fault_sequences"],"for every duration and panic of the function and every renewal failure",
 "Tests run short functions; leaks, races and failing renewals are not observed.",
 [LD],[("DBLock.Run","lock/db/sql.go")],(),["context of the function, goroutine exit"])
p("C26","The Redis lock reports contention and errors and releases what it obtained",
 "Locking asks Redis for exactly the given key with the configured lifetime and returns the obtained lock as the grant; contention is reported as the framework's locked error and any other failure as itself, in both cases without a grant. Unlocking releases exactly the granted lock and reports the outcome. No caller context is dropped.",
 ["inputs","fault_sequences"],"for every key and every outcome of the Redis client",
 "There is no Redis in the test environment.",
 [LR],[("RedisLock.Lock/UnLock","lock/redis/redis.go")],(),["redislock client calls"])
p("C27","The MySQL executor's work happens in the transaction of its context",
 "Beginning opens one database transaction and returns a context that carries it, or an error; every action executed with that context uses that transaction, and one executed without uses the plain connection. Commit and rollback end exactly the transaction carried by their context and report the database's error; without a transaction in the context, or without a database, they fail. The original context is extended, never replaced.",
 ["inputs","fault_sequences","configurations"],"for every context and every database error",
 "The executor tests need MySQL and follow the happy path.",
 [X],[("Executor.Begin/Commit/RollBack/Exec","executor/mysql/executor.go")],[("txKey","context key of the transaction","executor/mysql/executor.go")],["gorm handle used"])
p("C28","The MySQL executor applies every model of an action and reports errors",
 "For insert all models of the action are created; for update each model with a previous model writes the differing columns only (nothing if none differ) and one without is saved whole; for delete the rows of exactly the given models are deleted, and for query the query model is the condition and the result goes to the given destination. Every database error is returned and stops the action. An operation without implementation is an error, and every operation the engine emits has one.",
 ["inputs","fault_sequences"],"for every action with any number of models",
 "Needs a database and a failing statement in the middle of an action.",
 [X,"executor/mysql/diff.go"],[("opMap","executor/mysql/executor.go"),("Executor.Exec","executor/mysql/executor.go")],(),["gorm statements"])
p("C29","Dispatching to the outbox stores events and deliveries atomically",
 "Dispatching through the MySQL event bus stores one event row per event and, for every registered service, one pending delivery row per event that refers to that event's row, all within one database transaction (the caller's, if the context carries one). Any database error is returned and leaves nothing stored. Deliveries are immediately due and rows of a transactional message carry its transaction ID.",
 ["inputs","fault_sequences","crash_points"],"for every event list, number of services and failing statement or crash between statements",
 "A crash or failure between the two inserts is not reachable by tests, which also need MySQL.",
 [MB,PO],[("EventBus.Dispatch","eventbus/mysql/eventbus.go"),("eventPersist","eventbus/mysql/po.go")],[("EventPO/ServiceEventPO rows","outbox","eventbus/mysql/po.go")],["INSERT statements and their handle"])
p("C30","A transactional message is sent once or dropped, and its record removed",
 "Announcing stores one message record with the service, all events and a due time, returns a context carrying it, and refuses an empty event list. Committing dispatches the message's events unless rows for that message already exist and then removes the record; rolling back only removes the record; both fail without a message in the context and keep the record when a database step failed. Overdue records of the own service, read under a row lock, are resolved by the registered checker's answer (commit, rollback, or left for later when unknown), using the transaction that locked them.",
 ["histories","fault_sequences","crash_points","schedules"],"for every outcome of the checker, every failing statement and every repetition of commit",
 "Needs crashes between steps and repeated commits against MySQL.",
 [MB,PO],[("EventBus.DispatchBegin/Commit/Rollback","eventbus/mysql/eventbus.go"),("EventBus.checkTX/handleTransactions","eventbus/mysql/eventbus.go")],[("Transaction rows","undecided messages","eventbus/mysql/po.go")],["statements on ddd_event_transaction"])
p("C31","A delivery is handled under its row lock and its outcome always recorded",
 "The handler for a delivery is called only inside a database transaction that holds the row lock of that delivery and only if the freshly read row is still pending; it is called at most once per attempt with the stored event. On every outcome (success, error, panic, predecessor not ready) the delivery row is saved in that same transaction: success marks it done, an error or panic consults the retry policy and records the message, a missing predecessor leaves it pending without consuming a retry. A failed save is reported and rolls back.",
 ["schedules","fault_sequences"],"for every interleaving of consumers and every handler outcome",
 "Two consumers racing for one row, and panicking handlers, are not in the tests (which need MySQL).",
 [MB],[("EventBus.handleEvent","eventbus/mysql/eventbus.go")],[("ServiceEventPO.Status","delivery state","eventbus/mysql/po.go")],["statements on ddd_domain_service_event, handler calls"])
p("C32","Ordered events wait for their predecessor",
 "Before an event of an ordered send type (FIFO or lax FIFO) is handled, its latest predecessor of the same sender is looked up and judged by this service's own delivery of it; an ordered event without sender, or a database error while looking, is not handled. FIFO waits unless the predecessor's delivery is done or expired; lax FIFO waits only while it is pending. An event with no predecessor, one before the scan window, or one without a delivery for this service, is handled at once, and unordered events never wait.",
 ["histories","schedules","fault_sequences"],"for every delivery status, send type and predecessor situation",
 "Tests need MySQL and sample a few orders.",
 [MB],[("EventBus.checkPrecedingEvent","eventbus/mysql/eventbus.go"),("EventBus.handleEvent","eventbus/mysql/eventbus.go")],(),["handler calls"])
p("C33","Retries are counted, bounded and end in failure",
 "Each failed attempt asks the retry policy once with the delivery's current count; a granted retry stores the policy's new count and next time, a refused one marks the delivery failed, and a bus without policy fails at once. Every built-in policy grants a finite number of retries, raises the count by exactly one per grant and, for interval policies, never schedules earlier than the interval after now or the last time. The policy configured explicitly wins over the interval and custom options.",
 ["inputs","histories"],"for every limit, interval list and retry count",
 "Tests sample one policy; boundedness is for every count and limit.",
 [MB],[("EventBus.doRetryStrategy","eventbus/mysql/eventbus.go"),("LimitRetry/IntervalRetry/CustomRetry.Next","eventbus/mysql/eventbus.go"),("NewEventBus","eventbus/mysql/eventbus.go")],[("RetryCount","attempts so far","eventbus/mysql/po.go")],["ServiceEventPO.RetryCount/NextTime/Status"])
p("C34","Scans pick due pending deliveries of the own service with their events",
 "A scan selects only deliveries of the bus's own service that are pending and due, oldest event first and bounded by the configured batch size, and hands each to a worker exactly once. Each delivery is handled together with the event row it refers to, also when some event row is missing. Database errors end the scan with an error instead of being taken for an empty result.",
 ["inputs","histories","fault_sequences"],"for every table content and database error",
 "Needs tables with gaps and failing queries.",
 [MB],[("EventBus.getScanEvents","eventbus/mysql/eventbus.go"),("EventBus.dispatchEvents/handleEvents","eventbus/mysql/eventbus.go")],(),["query conditions, EventTuple pairs"])
p("C35","Cleanup deletes only successfully handled, expired records",
 "Cleaning removes only delivery rows of the bus's own service that are done and whose event is older than the retention time. An event row is removed only after its delivery of this service was removed and only if no delivery of any service refers to it any more. Every selected delivery is processed, a database error stops the cleaning and is returned, and the result cursor is closed on every exit.",
 ["inputs","histories","fault_sequences"],"for every table content, batch boundary and database error",
 "Batch boundaries and other services' rows are not sampled; needs MySQL.",
 [MB],[("EventBus.cleanEvents","eventbus/mysql/eventbus.go")],(),["DELETE statements"])
p("C36","Timers are registered once per service and key, and cancelled only there",
 "Registering a timer creates a job for this service and key unless one exists, which is then kept unchanged; an overdue one-time timer and an invalid cron expression are refused with an error and nothing is stored. A cron job's first due time is computed from its expression. Cancelling removes the job of that key of the own service only; database errors are returned.",
 ["inputs","configurations"],"for every service, key and cron expression",
 "Needs two services sharing one table; the tests need MySQL.",
 [T,TM],[("DBTimer.RunCron/RunOnce/Cancel/run","d_timer/sql/timer.go"),("TimerJob.Reset","d_timer/sql/model.go")],(),["statements on ddd_timer"])
p("C37","A due timer job runs under its row lock and is then moved on",
 "The timer callback is called only for jobs of the own service that are due and still to run, inside a transaction that re-read the job under a row lock; a job another instance holds or already ran is skipped. After the callback, whatever it returned, the job is saved in that transaction: a cron job with its next due time, a one-time job finished, and a job that can no longer be scheduled closed. One job's failure never keeps the other due jobs from running.",
 ["schedules","fault_sequences","inputs"],"for every set of due jobs, instance interleaving and callback outcome",
 "Needs several instances and failing callbacks against MySQL.",
 [T,TM],[("DBTimer.handleJobs","d_timer/sql/timer.go"),("TimerJob.Next/Close","d_timer/sql/model.go")],[("TimerJob.Status","job state","d_timer/sql/model.go")],["callback calls, statements on ddd_timer"])
p("C38","Background workers start once and survive user code",
 "Starting an event bus or timer any number of times starts its worker once. A panic in a user callback (event handler, transaction checker, timer handler) invoked from a background goroutine of the MySQL bus or the database timer does not terminate the process, and no background goroutine calls a callback that was never registered. Worker errors are logged and the worker goes on.",
 ["schedules","fault_sequences"],"for every number of starts, registration order and panicking callback",
 "A crash of a worker goroutine kills the test binary; registration order is fixed in tests.",
 [MB,T,MM],[("EventBus.Start/handleEvents/checkTX","eventbus/mysql/eventbus.go"),("DBTimer.Start","d_timer/sql/timer.go"),("MemoryEventBus.Start","eventbus/mem/eventbus.go")],[("once","start guard","each Start")],["goroutine lifetimes"])
p("C39","The in-memory bus delivers every accepted event and stops when told",
 "Dispatching to the in-memory bus queues every given event, in order, exactly once. The worker calls the registered callback exactly once per queued event, in queue order, and goes on after a callback error. When the start context ends the worker stops instead of spinning.",
 ["schedules","inputs"],"for every event list and context cancellation point",
 "The test receives a few events and never cancels.",
 [MM],[("MemoryEventBus.Dispatch","eventbus/mem/eventbus.go"),("MemoryEventBus.Start","eventbus/mem/eventbus.go")],[("ch","queue","eventbus/mem/eventbus.go")],["callback calls"])
p("C40","Callbacks and handlers can be registered while workers run",
 "The handler and checker registries, and the callbacks a bus or timer holds, are accessed only under one lock each, because every run re-registers callbacks while background workers use them. No exit of a registration, lookup or dispatch leaves such a lock held, and no user code runs while it is held. This holds for registration from any goroutine at any time.",
 ["schedules"],"for every interleaving of runs, registrations and worker activity",
 "The tests are not race-clean schedules; a data race needs a particular interleaving and the race detector.",
 [EV,MB,MM,T],[("eventBusMu","event.go"),("EventBus.RegisterEventHandler/RegisterEventTXChecker","eventbus/mysql/eventbus.go"),("DBTimer.RegisterTimerHandler","d_timer/sql/timer.go"),("MemoryEventBus.RegisterEventHandler","eventbus/mem/eventbus.go")],(),["accesses to the registries and callback fields"])
p("C41","Model comparison lists exactly the differing columns",
 "Comparing two models of one type with DiffModel yields exactly the names of the columns whose values differ, each once. A column is named by its field; the fields of an embedded struct (anonymous, or with the gorm tag embedded, at any depth) are named by themselves, a difference inside any other nested struct by the name of the nested field. Pointers are compared by what they refer to and a nil pointer differs from a set one, even one to a zero value; slices, maps and interface values are compared element by element; zero values count as values. Comparing does not panic, whether the models are given by value or by pointer. (Not constrained: whether a nil and an empty slice or map differ; fields embedded by pointer; a time in a location other than UTC may be listed although it is equal, but never left out when it differs.)",
 ["inputs"],"for every pair of models of every type built from the documented kinds of columns",
 "The test compares one pair of one model; the claim is over all values of all shapes of models, and a column left out silently loses an update.",
 ["executor/mysql/diff.go"],[("DiffModel","executor/mysql/diff.go"),("diffStruct/diffValue","executor/mysql/diff.go")],(),["return value"])
p("C42","A dispatched event is eventually delivered despite crashes",
 "Every event whose dispatch returned success is eventually handled at least once by every registered service, across crashes and restarts of any instance.",
 ["crash_points","schedules","histories"],"for every crash and restart sequence",
 "Needs crash injection over a real database and unbounded time.",
 [MB],[("EventBus.Start","eventbus/mysql/eventbus.go")],(),["handler calls over time"])
p("C43","Two runs with a common lock key never overlap in time",
 "Across all instances, two runs holding a common lock key never execute their command at the same time, as long as clocks agree and renewals are on time.",
 ["schedules","histories"],"for every timing of renewals, expiry and clock skew",
 "Depends on wall-clock timing between processes.",
 [LD,LR],[("DBLock","lock/db/sql.go"),("RedisLock","lock/redis/redis.go")],(),["overlap of runs"])
p("C44","Timers and retries fire at the scheduled time",
 "A cron job fires once per scheduled instant and a retry not before its due time and soon after it.",
 ["schedules","inputs"],"for every expression, clock and load",
 "Real time.",
 [T,MB],[("TimerJob.Reset","d_timer/sql/model.go"),("EventBus.getScanEvents","eventbus/mysql/eventbus.go")],(),["time of the callback"])
p("C45","Events survive the encode-store-decode round trip unchanged",
 "The event a handler receives equals, field by field, the event the entity sent.",
 ["inputs"],"for every event type and value",
 "Round-trip equality over all values of user types.",
 [EV,PO],[("NewDomainEvent","event.go"),("onEvent","event.go"),("EventPO.Event serializer","eventbus/mysql/po.go")],(),["handler argument"])
p("C46","Commands bound to events and schedules run once per event on their engine",
 "For each event of the type a constructor was registered for, the engine calls the constructor exactly once with the decoded event (the envelope itself if that is its type) and runs the command it returns exactly once, on the engine it was registered with and with the context of the event; an undecodable payload or the error of the command is returned to the event bus, breaking off is not an error. A scheduled task is called once per tick with the key and schedule of the tick, never before, and its handler is in place before the timer can fire. A constructor of the wrong shape, a key that is taken, a schedule the timer refuses and a schedule on an engine without a timer are refused.",
 ["inputs","histories","fault_sequences"],"for every constructor shape, engine, event, tick and outcome of the command",
 "Tests register one constructor and deliver one decodable event; failing commands, undecodable payloads, several engines and early ticks are not sampled.",
 [E,EV,"timer.go"],[("Engine.RegisterEventHandler","engine.go"),("Engine.RegisterCronTask","engine.go"),("Engine.RegisterCronTaskOfCommand","engine.go"),("onTimer","timer.go")],(),["constructor calls, commands run, errors returned to bus and timer"])
p("C47","An option replaces exactly its own setting, for the engine or for one run",
 "A run uses the lock, executor, event bus, timer, id generator, logger, event persistence, transaction mode, dry run and recursive delete that were configured last for it: options given to the run override those of the engine for that run only, an option changes nothing but its own setting, and post-save hooks accumulate. The library's callbacks are registered with the event bus and the timer a run uses before it uses them. Without an id generator new entities get fresh IDs, and without an event bus a run with events fails instead of dropping them.",
 ["configurations","histories"],"for every set of engine options and run options, in every form of a run",
 "Tests configure one or two options per engine and none per run; the combinations are not covered.",
 [E],[("NewEngine","engine.go"),("Stage.WithOption","engine.go"),("Engine.NewStage","engine.go"),("*Option.ApplyToOptions","engine.go")],[("Options","settings of an engine or a run","engine.go")],["collaborators called in a run"])
p("C48","Children an entity does not declare are found in its fields",
 "For an entity whose GetChildren returns nil, every entity reachable through an exported field is its child under the name of the field: a field of an entity type or of type IEntity that is not nil, the elements of a slice of them, the values of a map of them. Unexported fields, the embedded base entity (as pointer, value, or inside an embedded struct) and fields of other types are not; an empty field is an empty list of children. An entity that declares its children, even none, is asked only. Creation, update, move, delete, recursive delete, hooks, events and IDs work on children found this way as on declared ones, and looking for children does not panic.",
 ["inputs","histories"],"for every arrangement of fields of an entity and every edit of them",
 "The tests use entities that mostly declare their children or have one slice; kinds of fields, their order, hidden fields and edits of them in combination are not sampled, and an overlooked child silently loses its writes.",
 ["snapshot.go"],[("findChildren","snapshot.go"),("recordEntityChildren","snapshot.go"),("BaseEntity.GetChildren","domain.go")],(),["rows written"])
p("C49","The result of a run lists the executed actions in order",
 "After a run that succeeded, the actions of its result are exactly the actions its executor was given, in that order and each once, including those of explicit mid-run saves and the one that persists the events, and none of another run or of a dry run. The output is the one the command set last.",
 ["inputs","histories","configurations"],"for every sequence of saves in a run",
 "Tests look at the database; the action list of results with several saves or persisted events is not compared.",
 [E],[("Stage.exec","engine.go"),("Stage.persist","engine.go"),("StageAgent.SetOutput","command.go")],[("Stage.result","result under construction","engine.go")],["Result.Actions, Result.Output"])
p("C50","A base entity keeps its identity, its dirty mark and its events apart",
 "An entity has the ID it was given last (by its constructor or SetID), is dirty exactly from a call of Dirty until UnDirty, and holds one event per successful AddEvent in order; none of the three is changed by the others' operations or by another entity's, the base entity declares no children, and no operation on it panics, but adding an event that cannot be encoded.",
 ["histories","inputs"],"for every sequence of operations on two entities",
 "The tests mark an entity dirty and save it; interleavings of marks, IDs and events on several entities are not sampled.",
 ["domain.go"],[("BaseEntity","domain.go"),("NewBase","domain.go")],[("BaseEntity","identity, dirty mark, events of one entity","domain.go")],["GetID, IsDirty, GetEvents"])
p("C51","The MySQL executor converts with the converter of the entity's type",
 "Entities and models are converted by the converter registered last for exactly the type of the entity, called once with the entity, parent and operation (or model and entity) given, and its result or error is returned. An entity of a type without converter is refused as not registered, a model that is not one of the executor's is refused, and registering one type leaves the others.",
 ["inputs","histories"],"for every sequence of registrations and every conversion",
 "The tests that use converters need a MySQL server; several types, repeated registrations and failing converters are not covered.",
 ["executor/mysql/executor.go"],[("Executor.Entity2Model","executor/mysql/executor.go"),("Executor.Model2Entity","executor/mysql/executor.go"),("RegisterConverter","executor/mysql/executor.go"),("RegisterEntity2Model","executor/mysql/executor.go")],(),["converter calls, models returned"])
p("C52","The order of writes within a save follows the aggregate, not chance",
 "Within one kind of write and one model type, the children of a parent that are inserted, updated or deleted (and neither moved nor deleted along with their parent) are written in the order in which the parent lists them, children under different keys in the alphabetical order of the keys; repeating the same run gives the same order. A new child is never inserted before its new parent, unless it shares its action with an entity of the same type that comes first.",
 ["inputs","histories"],"for every aggregate, every set of changes and every order of map iteration",
 "The code iterates Go maps, whose order differs from run to run; a test sees one order, and aggregates with few siblings hide a lost sort.",
 ["engine.go","snapshot.go"],[("entityDiff","snapshot.go"),("simpleSet","snapshot.go"),("Stage.makeActions","engine.go")],(),["order of models within actions, order of actions"])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
