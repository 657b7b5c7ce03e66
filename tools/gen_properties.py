#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))
CC = "src/concurrency_control/"
IF = CC + "interface/"
prop("C01", "Concurrent short transactions are serializable",
 "For any set of short transactions running concurrently, the committed ones have results (every value read, every found / not-found answer, every range-scan result) and a final database state equal to some serial execution of exactly those transactions. A transaction that began after another one's commit returned is not ordered before it.",
 ["schedules", "programs"],
 "every interleaving of the shared-memory steps of 2-3 short transactions (up to a preemption bound), with epoch advance and reclamation running at any point, over small programs of point reads, inserts, updates, upserts, deletes and scans on shared keys",
 "The stock build runs 11 unit tests that never start the engine; the wider suite relies on a handful of sleeps and random contention, so an anomaly that needs one specific preemption inside the commit protocol is practically never hit and would not be recognised without a serializability oracle.",
 [IF+"short_tx/termination.cpp", IF+"short_tx/search.cpp", CC+"include/tid.h", CC+"record.cpp", CC+"include/local_set.h", CC+"include/version.h"],
 [("lock-validate-write commit", IF+"short_tx/termination.cpp"), ("stable record read", IF+"helper.cpp"), ("record timestamp word", CC+"include/tid.h")])
prop("C02", "Mixed short, long and read-only transactions are serializable",
 "For any mix of short, long (write-preserving) and read-only transactions, the committed ones have results and a final database state equal to some serial execution of exactly those transactions. This also holds when a long transaction is ordered before transactions that committed earlier than it, and when a commit is finished later in the background.",
 ["histories", "programs", "schedules"],
 "every ordering of the API calls of 2-4 transactions of all three kinds, with epoch boundaries placed at every point between calls, over an enumerated family of read/write/scan programs on two tables",
 "Anomalies between long transactions need three or more transactions whose begin epochs, reads and commit requests fall in one particular order; the existing scenario tests hard-code a few such orders and check individual return codes rather than serializability of the outcome.",
 [IF+"long_tx/termination.cpp", CC+"ongoing_tx.cpp", CC+"read_by.cpp", CC+"wp_meta.cpp", CC+"wp.cpp", CC+"read_plan.cpp", IF+"short_tx/termination.cpp"],
 [("forwarding / order-before decision", IF+"long_tx/termination.cpp"), ("committed-read protection", CC+"read_by.cpp"), ("wait for preceding long transactions", CC+"ongoing_tx.cpp"), ("write-preserve verification by short transactions", IF+"short_tx/termination.cpp")])
prop("C03", "Observed absence, presence and ranges still hold at commit (no phantoms)",
 "If a transaction commits, every absence it observed (a key reported missing by a read, update or delete), every presence it observed (an insert refused because the key exists) and the complete contents of every range it scanned are still true at its place in the serial order, its own writes aside. Concurrent insertion, deletion, re-insertion and physical removal of deleted keys never break this.",
 ["histories", "schedules", "programs"],
 "all call-level orderings and bounded memory-level interleavings of one observing transaction (missing-key reads, refused operations, empty and non-empty scans in either direction and both scan modes) against transactions that insert, delete and re-insert inside and beside the observed range, with reclamation enabled",
 "Phantoms depend on the index node state at the instant between observation and commit and on when deleted keys are physically unhooked; tests exercise a few fixed sequences without reclamation in between.",
 [CC+"include/local_set.h", CC+"local_set.cpp", IF+"scan/open_scan.cpp", IF+"scan/next.cpp", IF+"insert.cpp", IF+"delete.cpp", IF+"update.cpp", CC+"garbage.cpp", CC+"read_by.cpp"],
 [("index node version verification", CC+"local_set.cpp"), ("range read registration", CC+"read_by.cpp"), ("shared tombstones and physical removal", CC+"garbage.cpp")])
prop("C04", "Commits are all-or-nothing and aborted work leaves no trace",
 "The writes of a committed transaction become visible to other transactions together or not at all, and a transaction that is aborted, fails validation or has not committed yet never makes any write visible to anyone. Every value returned by a read is, byte for byte, one value some committed transaction (or the reader itself) wrote for that key.",
 ["schedules", "histories", "programs"],
 "every interleaving (bounded preemptions) of a multi-key writer that commits, is aborted by the user or fails validation, with readers of each kind, plus all call-level orderings of such transactions followed by a complete read-back of the database",
 "Torn or partial visibility exists only in the few instructions between locking, version switching and unlocking; failing-commit clean-up paths need a conflicting transaction at an exact point.",
 [IF+"short_tx/termination.cpp", IF+"long_tx/termination.cpp", CC+"record.cpp", CC+"include/version.h", IF+"helper.cpp", CC+"session.cpp"],
 [("write phase", IF+"short_tx/termination.cpp"), ("inserted-placeholder cancellation at abort", IF+"long_tx/termination.cpp"), ("stable value copy", IF+"helper.cpp")])
prop("C05", "Read-only transactions see one stable, consistent snapshot and never fail",
 "All reads and scans of a read-only transaction return the state produced by one fixed set of committed transactions that is closed under their serial order; repeating a read returns the same answer for as long as the transaction runs, and reading and committing never fail because of other transactions. No write is accepted from a read-only transaction.",
 ["schedules", "histories"],
 "every call-level ordering and bounded memory-level interleaving of a read-only transaction with short and long writers (inserting, overwriting, deleting, re-inserting, committing late in the background) and with version reclamation, with epoch boundaries at every point",
 "Which snapshot is chosen depends on the epoch in which the reader begins relative to running short commits and long transactions, and which versions survive depends on the reclaimer's timing; tests pin both to one convenient arrangement.",
 [IF+"read_only_tx/read_only_tx.cpp", IF+"read_only_tx/search.cpp", CC+"epoch.cpp", CC+"bg_work/include/bg_commit.h", CC+"garbage.cpp", IF+"tx_begin.cpp", CC+"session.cpp"],
 [("safe snapshot epoch computation", CC+"epoch.cpp"), ("version chain search", CC+"include/version.h"), ("snapshot choice at begin", IF+"tx_begin.cpp")])
prop("C06", "Operations follow the key-value contract, including own uncommitted writes",
 "Within one transaction and across successive transactions, every read, insert, update, upsert, delete, commit and abort returns the status and value defined by the documented key-value contract: a transaction sees its own writes, deletes and cancelled inserts in program order over the committed state, and a refused operation changes nothing. Values and keys are arbitrary byte strings up to the documented key size limit.",
 ["programs", "inputs", "configurations"],
 "all operation sequences up to a depth over a few keys (including empty, long, shared-prefix, embedded-zero and over-long keys, and small, empty and large values), for short and long transactions, split over commits and aborts at every position, small and large write sets",
 "The number of operation sequences grows exponentially; tests check hand-picked pairs of operations, mostly for one transaction kind and with the record in one particular physical state.",
 [IF+"insert.cpp", IF+"update.cpp", IF+"upsert.cpp", IF+"delete.cpp", IF+"search.cpp", CC+"local_set.cpp", IF+"helper.cpp", IF+"tx_begin.cpp"],
 [("write-set lookup and operation folding", CC+"local_set.cpp"), ("re-use of deleted records", IF+"insert.cpp")])
prop("C07", "Range scans return exactly the requested range, in order, without duplicates",
 "Opening a scan and stepping through it yields exactly the visible entries whose keys satisfy both end-point conditions (inclusive, exclusive or unbounded), each once, in key order (or reverse order when requested) and at most the requested number of them, with the values visible to the transaction including its own earlier writes. Empty ranges and exhausted scans are reported by the documented statuses.",
 ["inputs", "programs", "configurations"],
 "all combinations of end points, end-point kinds, limits and directions over small key sets with deleted, re-inserted, uncommitted and own-written entries at every position, for all three transaction kinds and both scan modes, including writes made while a scan is open",
 "End-point kinds, limits, direction, own writes, tombstones and transaction kind multiply to thousands of combinations, of which tests cover a few dozen.",
 [IF+"scan/open_scan.cpp", IF+"scan/next.cpp", IF+"scan/read_kv_from_scan.cpp", IF+"scan/close_scan.cpp", IF+"scan/scannable_total_index_size.cpp", CC+"include/scan.h", "src/index/yakushima/include/interface.h"],
 [("scan cache and cursor", IF+"scan/open_scan.cpp"), ("skipping of unreadable entries", IF+"scan/next.cpp")])
prop("C08", "After a crash, recovery restores a consistent and durable prefix",
 "After a crash at any moment followed by recovery from the log, every transaction reported durable before the crash is present, every transaction is present completely or not at all, no aborted or uncommitted write is present, and if a recovered transaction depended on another committed transaction then that one is recovered too. Tables, their names, ids and options are recovered under the same rule, and deleted tables and keys stay deleted.",
 ["crash_points", "histories", "schedules"],
 "a crash at every log-device event (session begin, entry, session end, epoch switch, durable advance) and at every scheduling point of histories of short, long and schema transactions, followed by recovery and a full comparison with the set of admissible states",
 "Existing recovery tests shut down cleanly or crash at one fixed point; they cannot place the crash between two log entries or between buffering, flush and epoch switch.",
 ["src/datastore/limestone/lpwal.cpp", "src/concurrency_control/include/lpwal.h", "src/datastore/limestone/datastore.cpp", IF+"short_tx/termination.cpp", IF+"long_tx/termination.cpp", IF+"start_up.cpp", IF+"storage.cpp"],
 [("per-session log buffer and flush", "src/datastore/limestone/lpwal.cpp"), ("write version assignment", IF+"short_tx/termination.cpp"), ("recovery from the log snapshot", "src/datastore/limestone/datastore.cpp")])
prop("C09", "Restart after orderly shutdown reproduces the committed database exactly",
 "Shutting the engine down normally and starting it in restore mode yields exactly the committed contents of all tables, table names, ids and options, and sequences, and the restarted engine continues to work correctly (new transactions, new tables, further restarts) without colliding with or losing anything recovered. Starting in create mode yields an empty database, and repeated or misplaced start and stop calls are reported and harmless.",
 ["programs", "histories", "configurations"],
 "all short programs of data, table and sequence operations split by one or two restarts at every position, for single and parallel recovery and every open mode, including shutdown with unflushed work and with sessions still open",
 "Tests restart once after one fixed workload; interactions such as delete-recreate across restarts, id counters after recovery and overwriting recovered keys need sequences of several restarts.",
 [IF+"start_up.cpp", IF+"shut_down.cpp", "src/datastore/limestone/datastore.cpp", "src/datastore/limestone/lpwal.cpp", IF+"storage.cpp", CC+"sequence.cpp"],
 [("final flush and durable wait at shutdown", "src/datastore/limestone/lpwal.cpp"), ("restoration of counters and catalog", "src/datastore/limestone/datastore.cpp")])
prop("C10", "Commit outcome, completion callbacks and durability reports are truthful",
 "Every commit request reports its outcome through its callback exactly once, with the same result as the transaction actually has, also when the commit finishes later in the background; transaction state handles move only forward through the documented states and agree with that outcome. A transaction is reported durable (by its durability marker or its state) only when a crash at that moment would not lose it, and every committed transaction is eventually reported durable while epochs advance.",
 ["schedules", "histories", "crash_points"],
 "all call-level orderings of short, long and read-only commits and aborts with state queries, epoch boundaries and durable advances at every point, plus bounded interleavings of a commit with the epoch, logging and background-commit threads",
 "The wrong answer appears only in windows between commit, flush, epoch switch and durable notification, which tests do not control.",
 [IF+"termination.cpp", CC+"transaction_state.cpp", "src/database/tx_state_notification.cpp", CC+"bg_work/bg_commit.cpp", "src/datastore/limestone/lpwal.cpp", IF+"short_tx/termination.cpp", IF+"long_tx/termination.cpp"],
 [("callback invocation", CC+"session.cpp"), ("durability marker", IF+"short_tx/termination.cpp"), ("transaction state table", CC+"transaction_state.cpp")])
prop("C11", "Every call returns and every waiting commit is eventually decided",
 "While epochs advance and the background threads run, no combination of concurrent transactions, aborts, table operations, reclamation and shutdown makes a call block forever or the engine deadlock. A long transaction's commit that was told to wait is decided once the transactions it waits for have finished, and its session can then be used again.",
 ["schedules", "histories"],
 "bounded-preemption interleavings of 2-3 conflicting transactions (locking several keys in opposite program order, failing validation, user aborts) with epoch, logging, background-commit and reclamation threads, and all call-level orderings of waiting long transactions; a run that reaches a state where nothing can progress is a violation",
 "Deadlocks and lost wake-ups need an exact interleaving; a test only shows that the schedules it happened to get terminated.",
 [IF+"short_tx/termination.cpp", CC+"ongoing_tx.cpp", CC+"bg_work/bg_commit.cpp", CC+"epoch.cpp", CC+"include/tid.h", CC+"wp_lock.cpp", CC+"wp_meta.cpp", "src/datastore/limestone/lpwal.cpp", "src/database/thread_pool.cpp"],
 [("sorted record locking and unlock on failure", IF+"short_tx/termination.cpp"), ("background commit queue", CC+"bg_work/bg_commit.cpp"), ("waiting graph", CC+"ongoing_tx.cpp")])
prop("C12", "Reclamation never removes or corrupts data a running transaction can still use",
 "Background reclamation of old versions, deleted keys and freed records never changes the result of any read or scan of a running transaction and never lets a thread touch memory that has been released. Deleted keys and superseded versions that no transaction can need any more are eventually reclaimed.",
 ["schedules", "histories"],
 "bounded-preemption interleavings of the reclamation threads with readers of each kind, deleting and re-inserting writers, aborted inserts and table deletion, with every memory access of the engine checked against the set of released blocks, plus all call-level orderings with a full reclamation pass between any two calls",
 "Use of reclaimed data needs the reclaimer to run inside a reader's few-instruction window after the reader's epoch was sampled; sanitizer runs of the tests only see the schedules the OS happens to choose.",
 [CC+"garbage.cpp", CC+"include/garbage.h", CC+"record.cpp", CC+"include/version.h", IF+"helper.cpp", IF+"insert.cpp", IF+"storage.cpp", CC+"session.cpp"],
 [("minimum epoch computation", CC+"garbage.cpp"), ("unhooking of deleted keys", CC+"garbage.cpp"), ("version pruning", CC+"garbage.cpp"), ("delayed release of records", CC+"garbage.cpp")])
prop("C13", "Long transactions keep to declared areas and keep their priority",
 "A long transaction can write only to tables it declared for writing and read only inside its declared read area, cannot operate before its start epoch, and its declaration takes effect atomically for all declared tables. While it runs, no short transaction commits having read from a table it declared, and short transactions alone can never make it abort or wait; its declarations disappear when it ends. Asked for its priority, it is told to be the highest only when no long transaction begun earlier is still open, and always when it is the oldest open transaction.",
 ["histories", "programs", "schedules"],
 "all call-level orderings of one or two long transactions with every combination of declared write and read areas (positive and negative lists, overlapping, unknown tables) against short and read-only transactions, epoch boundaries at every point, and bounded interleavings of begin and end with short commits",
 "The guarantee covers every short transaction overlapping the declaration in any way; tests cover one position of the short transaction relative to the long one's begin epoch.",
 [IF+"tx_begin.cpp", IF+"long_tx/helper.cpp", CC+"wp.cpp", CC+"wp_meta.cpp", CC+"wp_lock.cpp", CC+"read_plan.cpp", IF+"short_tx/termination.cpp", IF+"scan/open_scan.cpp"],
 [("write-preserve registration and removal", CC+"wp.cpp"), ("read-area check", IF+"long_tx/helper.cpp"), ("optimistic read of declarations", CC+"wp_meta.cpp")])
prop("C14", "Sequences are versioned, transactional and never run backwards",
 "A sequence starts at version zero and value zero, takes an update only when the updating transaction commits and only if the given version is larger than any earlier one, and reading it returns a committed pair whose version never decreases until restart. After a restart or crash it has the durable pair with the largest version, deleted or unknown sequences are reported missing, and identifiers are not shared between live sequences.",
 ["programs", "histories", "crash_points"],
 "all sequences up to a depth of create, update (several versions, several transactions, long and short), commit, abort, read, delete, epoch/durable advance, crash and restart steps over one or two sequences",
 "Version order versus commit order versus durability order only differ in particular multi-step combinations that the few sequence tests do not contain.",
 [CC+"sequence.cpp", CC+"session.cpp", "src/datastore/limestone/datastore.cpp"],
 [("versioned in-memory map", CC+"sequence.cpp"), ("sequence log entries and recovery", "src/datastore/limestone/datastore.cpp")])
prop("C15", "Tables are independent and the table catalog is exact",
 "Creating, looking up, listing, re-configuring and deleting tables always agrees with the history of successful table operations: names and ids are unique among live tables, a failed operation changes nothing, deleted tables disappear with all their contents and a table created afterwards under the same name or id starts empty. Keys in one table never influence another table.",
 ["programs", "histories", "schedules"],
 "all sequences up to a depth of table operations (named, unnamed, with explicit ids and payloads, on live, deleted and unknown tables) mixed with data operations and restarts, and bounded interleavings of two concurrent table operations",
 "Interactions such as delete, re-create and look-up in all orders, explicit ids colliding with allocated ones, and two sessions creating the same name need systematic enumeration.",
 [IF+"storage.cpp", "src/include/storage.h", "include/shirakami/storage_options.h", "src/index/yakushima/include/interface.h"],
 [("id allocation and name map", IF+"storage.cpp"), ("catalog records", IF+"storage.cpp")])
prop("C16", "Sessions are exclusive and isolated from each other",
 "Every successfully opened session is distinct from all other open ones, up to exactly the configured maximum, and a closed session's slot can be opened again without any effect of its previous use (open transactions, scans, declared areas, sequence updates, results, logs) leaking into the next. Ending a transaction leaves the session ready for the next one, and calls made in the wrong state (not begun, already begun, session closed twice) are refused with the documented status and change nothing.",
 ["schedules", "programs", "histories"],
 "bounded-preemption interleavings of 2-3 threads opening and closing sessions around the capacity limit, and all call sequences up to a depth including begin, operations, scans, commit, abort, leave and re-enter for all transaction kinds",
 "Two threads must race on the same free slot, or a slot must be re-used after one particular unfinished activity, for the defect to show.",
 [CC+"session.cpp", CC+"include/session.h", CC+"interface/session_management.cpp", IF+"tx_begin.cpp", IF+"termination.cpp"],
 [("slot acquisition", CC+"session.cpp"), ("clean-up at end of transaction", CC+"session.cpp")])
prop("C17", "Parallel operations inside one transaction behave like some sequential order",
 "When several threads issue data operations on the same running transaction, each operation's result and the transaction's final effect equal those of executing the operations one after another in some order. No such operation is lost, duplicated or mixed up with another thread's scan; because of the concurrency an operation may only be refused as such, without effect, or the transaction be given up as a whole.",
 ["schedules", "programs"],
 "bounded-preemption interleavings of two threads issuing reads, writes and scans on one short or long transaction, compared with all sequential orders of the same operations",
 "The shared local sets are only corrupted by specific interleavings; tests run two threads once without control of the schedule.",
 [CC+"include/local_set.h", CC+"local_set.cpp", CC+"include/scan.h", CC+"session.cpp", IF+"insert.cpp", IF+"scan/open_scan.cpp", IF+"update.cpp"],
 [("latched local sets", CC+"local_set.cpp"), ("concurrent operation vs termination guard", CC+"session.cpp")])
prop("C18", "Large-object references reach the log exactly with the value written",
 "References to large objects that an application passes with an insert, update or upsert are handed to the durable log together with that very value when the transaction commits, complete and in the given order. A key whose value was replaced inside the transaction carries only the references of the last accepted write, and writes that were refused, cancelled by a deletion or part of an aborted transaction hand over nothing. This holds for short and long transactions, for any number of writes, and when transactions or several threads of one transaction write the same key concurrently.",
 ["inputs", "programs", "histories", "schedules"],
 "call sequences of writes with different numbers of references on present, absent, deleted and own-written keys with commits and aborts, call orders of two or three transactions, and bounded thread schedules including threads of one transaction",
 "References are never readable again through the interface, so a lost, stale or mixed-up list shows only in the log; tests write one record with references once.",
 [CC+"include/local_set.h", CC+"local_set.cpp", CC+"include/lpwal.h", "src/datastore/limestone/lpwal.cpp", IF+"insert.cpp", IF+"update.cpp", IF+"upsert.cpp", IF+"short_tx/termination.cpp", IF+"long_tx/termination.cpp"],
 [("write set entry with references", CC+"include/local_set.h"), ("log record hand-over", "src/datastore/limestone/lpwal.cpp")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        for fn in p["anchors"]["files"] + [m["where"] for m in p["anchors"]["mechanism"]]:
            if not os.path.exists("/repo/" + fn): print("missing", p["id"], fn)
        n = p["statement"].count(". ") + 1
        assert n <= 3, (p["id"], n)
        f.write(json.dumps(p) + "\n")
