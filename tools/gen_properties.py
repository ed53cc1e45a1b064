#!/usr/bin/env python3
"""Writes properties.jsonl.  Kept as a script so that the JSON stays well formed."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})
CC = "src/concurrency_control/"
IF = CC + "interface/"

prop("C01", "A short transaction commits only if everything it read is still current",
 "If a short (optimistic) transaction commits successfully, then at one instant during the commit every record version it had read was still the newest committed version of that record and no other transaction was in the middle of replacing it. If any version it read has been superseded, deleted, re-created or is being written by somebody else, commit reports a serialization failure and none of the transaction's writes take effect.",
 ["schedules", "histories"], "for every set of read records, every interleaving of other committers between each read and the commit, and every commit epoch",
 "A stale read is only visible when another commit falls into a window of a few instructions; tests sample a handful of schedules and record counts.",
 [IF+"short_tx/termination.cpp", IF+"short_tx/search.cpp", IF+"helper.cpp", CC+"include/local_set.h", CC+"include/tid.h"],
 [("read set validation at commit", IF+"short_tx/termination.cpp"), ("optimistic stable read of a record", IF+"helper.cpp")],
 ["commit() status", "search_key()/read_value_from_scan() results", "values seen by later transactions"])

prop("C02", "A committed short transaction's scans and misses saw no phantoms",
 "If a short transaction scanned a key range or looked up a key that did not exist and then commits successfully, no other transaction has added a key to or removed a key from the examined part of the index between the examination and the commit. Keys inserted by the transaction itself do not make its own commit fail, and a concurrent insertion by someone else must make it fail even if the transaction inserted into the same part of the index too.",
 ["schedules", "histories"], "for every sequence of scans, lookups and own inserts, and every placement of concurrent inserts/removals",
 "Phantoms need an insertion between scan and validation; with own inserts mixed in, the counter arithmetic only goes wrong for particular orders.",
 [CC+"include/local_set.h", CC+"include/session.h", IF+"short_tx/termination.cpp", IF+"insert.cpp", IF+"upsert.cpp", "src/index/yakushima/include/tool.h"],
 [("index node version set", CC+"include/local_set.h"), ("node version comparison", "src/index/yakushima/include/tool.h")],
 ["commit() status", "insert()/upsert()/open_scan()/next() status"])

prop("C03", "Short transactions stay clear of storages reserved by long transactions",
 "A short transaction never commits a read of a storage for which a long transaction holds a write reservation that already became valid, and it never commits a write that such a reservation, or a committed long-transaction read of that key or range, forbids. In those cases the commit or the operation reports a concurrency-control failure or a write-preserve conflict instead of success.",
 ["schedules", "histories"], "for every set of reservations, their epochs, every short transaction footprint and every commit epoch",
 "The outcome depends on the relative epochs of reservation, operation and commit; tests fix only a few of these combinations.",
 [IF+"short_tx/termination.cpp", IF+"short_tx/search.cpp", IF+"upsert.cpp", IF+"insert.cpp", IF+"update.cpp", IF+"delete.cpp", CC+"wp_meta.cpp", CC+"read_by.cpp"],
 [("read/write verification against reservations at commit", IF+"short_tx/termination.cpp"), ("check of reservations at operation time", IF+"helper.cpp")],
 ["commit() status", "write operation status", "transaction result info"])

prop("C04", "Commit timestamps respect read, write and session order",
 "The timestamp given to a committed short transaction is strictly greater than the timestamp of every record version it read, of every version it overwrites, and of every timestamp given earlier to the same session, and its epoch part is the global epoch sampled after its write locks were taken. All records written by one short transaction carry that same timestamp.",
 ["histories", "inputs"], "for every combination of read, overwritten and previous timestamps including wrap boundaries between epochs",
 "Timestamp ordering errors are invisible until recovery or validation of some later transaction; tests do not enumerate the orderings of the maxima involved.",
 [IF+"short_tx/termination.cpp", CC+"include/session.h", CC+"include/tid.h", CC+"session.cpp"],
 [("commit timestamp computation", CC+"session.cpp"), ("timestamp comparison", CC+"include/tid.h")],
 ["timestamps stored in records", "log entry versions passed to the datastore"])

prop("C05", "Commits are all-or-nothing and leave no record locked",
 "When commit returns success every write of the transaction is in place; when commit or any operation reports that the transaction was aborted, or abort is called, none of its updates or deletes is ever visible and its inserted placeholders never read as existing records. In every case no record remains locked by the finished transaction and the session can begin a new transaction.",
 ["schedules", "histories", "inputs"], "for every write set (mix of insert, update, upsert, delete), every failing step of commit, and every concurrent state of the target records",
 "Each early-exit path of commit must undo a different amount of work; a test reaches one such exit for one write set.",
 [IF+"short_tx/termination.cpp", IF+"long_tx/termination.cpp", CC+"local_set.cpp", CC+"session.cpp"],
 [("write lock acquisition and release", IF+"short_tx/termination.cpp"), ("write phase", IF+"short_tx/termination.cpp"), ("undo of inserted placeholders", CC+"session.cpp")],
 ["commit()/abort() status", "subsequent reads by other sessions", "record lock state"])

prop("C06", "Snapshot readers see the newest version older than their snapshot",
 "A long or read-only transaction reading a key gets exactly the newest committed version whose epoch is older than the transaction's snapshot epoch, or 'not found' if that version is a deletion or no such version exists. Versions committed at or after the snapshot epoch never influence its results, however many versions or concurrent writers the record has.",
 ["histories", "schedules"], "for every version history of the record (length, epochs, deletions) and every snapshot epoch",
 "The property is about all version chains; tests build chains of length two or three with one epoch layout.",
 [CC+"include/version.h", IF+"long_tx/helper.cpp", IF+"long_tx/search.cpp", IF+"read_only_tx/search.cpp", IF+"read_only_tx/read_only_tx.cpp", IF+"scan/open_scan.cpp", IF+"scan/read_kv_from_scan.cpp"],
 [("version chain traversal", IF+"long_tx/helper.cpp"), ("optimistic check of the head version", IF+"long_tx/helper.cpp")],
 ["search_key()/exist_key()/read_value_from_scan() result and status"])

prop("C07", "A transaction reads its own pending writes",
 "After a transaction wrote a key, its own reads of that key return the value of its latest write, or 'not found' after its own delete, until it terminates, while other transactions see nothing of it. The last write to a key wins and earlier pending writes to that key have no further effect.",
 ["programs", "inputs"], "for every sequence of writes and reads of the same and different keys within one transaction of each writing type",
 "The merging of consecutive writes has a distinct case for each pair of operations and each storage/record combination; tests cover individual pairs.",
 [CC+"local_set.cpp", CC+"include/local_set.h", IF+"short_tx/search.cpp", IF+"long_tx/search.cpp", IF+"scan/read_kv_from_scan.cpp"],
 [("local write set lookup and merge", CC+"local_set.cpp")],
 ["search_key()/exist_key()/read_value_from_scan() results inside the writing transaction"])

prop("C08", "Insert, update, upsert and delete follow their status contract",
 "Insert of a key that exists (committed and visible, or pending in this transaction) reports already-exists and changes nothing; update and delete of a key that does not exist report not-found and change nothing; upsert always succeeds absent conflicts. Deleting a key that was only inserted by this same transaction cancels that insert with a distinguished status, and after any successful sequence the committed state equals applying the operations in order.",
 ["programs", "inputs", "histories"], "for every operation sequence on a key and every committed prior state (absent, present, deleted)",
 "The number of operation pair x prior state x transaction type combinations exceeds what is enumerated by tests.",
 [IF+"insert.cpp", IF+"update.cpp", IF+"upsert.cpp", IF+"delete.cpp", CC+"local_set.cpp", CC+"record.cpp"],
 [("pending write merge", IF+"delete.cpp"), ("re-use of deleted records for insertion", IF+"helper.cpp")],
 ["status of each write operation", "committed state after commit()"])

prop("C09", "Reads committed by a long transaction are never invalidated later",
 "Once a long transaction committed having read a key or a key range, no long transaction ordered before it, and no short transaction in an epoch before the reader's order position, may commit a write that the reader should have seen; such a writer's commit fails. A reader and a writer that touch disjoint keys and ranges do not conflict.",
 ["histories", "schedules"], "for every set of committed point and range reads with their epochs and transaction ids, and every writer",
 "Conflicts depend on comparing epochs, ids and range end points of arbitrary many entries; tests have one or two entries.",
 [CC+"read_by.cpp", CC+"include/read_by.h", IF+"long_tx/termination.cpp", CC+"include/local_set.h"],
 [("registry of point reads by long transactions", CC+"read_by.cpp"), ("registry of range reads by long transactions", CC+"read_by.cpp"), ("registry of reads by short transactions", CC+"read_by.cpp")],
 ["commit() status of the writer", "transaction result info"])

prop("C10", "A long transaction that overtook a writer is ordered before it, or aborts",
 "If a long transaction read data from under a higher-priority long transaction's reservation and that transaction committed a write intersecting what was read, the reader commits only with an order position at or before that writer's and only if all of its own writes remain valid there; otherwise its commit fails. If nothing it read intersects what the other transaction actually wrote, its position is unchanged.",
 ["histories", "schedules"], "for every set of overtaken transactions, their write ranges and the reader's read ranges with all end-point kinds",
 "The decision is a nested comparison over sets of transactions and ranges; boundary kinds multiply the cases beyond any test table.",
 [CC+"wp.cpp", IF+"long_tx/termination.cpp", IF+"long_tx/helper.cpp", CC+"ongoing_tx.cpp", CC+"wp_meta.cpp"],
 [("recording of overtaken transactions and read ranges", CC+"wp.cpp"), ("computation of the order position at commit", IF+"long_tx/helper.cpp")],
 ["commit() status", "order of committed versions of a record"])

prop("C11", "A long transaction waits for undecided transactions that could order before it",
 "Commit of a long transaction is not decided while a higher-priority long transaction whose reserved storages overlap what it read is still running, unless the result cannot depend on it; then commit reports that it is waiting and the final decision is delivered later exactly once. When nothing relevant remains undecided the wait ends.",
 ["schedules", "histories"], "for every set of concurrently running long transactions, reservations and read sets",
 "Whether waiting is needed depends on the whole set of running transactions; tests use two or three.",
 [CC+"ongoing_tx.cpp", CC+"bg_work/bg_commit.cpp", IF+"termination.cpp", IF+"long_tx/termination.cpp"],
 [("registry of running transactions and wait predicate", CC+"ongoing_tx.cpp"), ("background commit worker", CC+"bg_work/bg_commit.cpp")],
 ["commit() status WAITING", "check_commit() status", "commit callback"])

prop("C12", "Write reservations are visible from begin to end, neither lost nor leaked",
 "From the moment a long transaction's begin returns until its result is decided, each storage it reserved reports that reservation with its epoch and id; after termination, for whatever reason, no reservation of it remains and its result is recorded for later readers that depend on it. Adding, removing and querying reservations never affects reservations of other transactions.",
 ["histories", "inputs", "schedules"], "for every sequence of reservation registrations and removals on a storage, including full tables and unknown ids",
 "The reservation table is an array with holes; errors appear only for particular fill patterns and removal orders.",
 [CC+"wp_meta.cpp", CC+"include/wp_meta.h", CC+"wp.cpp"],
 [("reservation table", CC+"wp_meta.cpp"), ("reservation results", CC+"wp_meta.cpp")],
 ["tx_begin() status", "operations of other transactions on the storage"])

prop("C13", "Long transactions keep to their reserved storages and declared read area",
 "A write by a long transaction to a storage it did not reserve at begin is rejected and has no effect; any write by a read-only transaction is rejected. A read by a long transaction outside the read area it declared (excluded storages, or not among the included ones) is rejected with the read-area status, and a read inside it is never rejected for that reason.",
 ["inputs", "programs"], "for every declared set of reservations and positive/negative read areas and every accessed storage",
 "Set membership rules for combinations of inclusive and exclusive areas are only sampled by tests.",
 [IF+"helper.cpp", IF+"tx_begin.cpp", CC+"session.cpp", CC+"read_plan.cpp", IF+"long_tx/helper.cpp"],
 [("reservation membership check", IF+"helper.cpp"), ("read area check", IF+"helper.cpp")],
 ["status of read and write operations"])

prop("C14", "Record locks are mutually exclusive and carry the rest of the word unchanged",
 "At any time at most one party holds the lock of a record: acquiring succeeds only by atomically replacing an unlocked state, and the lock stays held until its holder releases it. Locking and unlocking change nothing else in the record's timestamp word, and every field of that word can be set and read back independently of all others.",
 ["schedules", "inputs"], "for every value of the 128-bit timestamp word and every interference by other threads",
 "A torn or non-atomic acquisition shows only under a precise race; field independence is over 2^128 words.",
 [CC+"include/tid.h", CC+"tid.cpp", CC+"include/record.h"],
 [("lock acquire/release on the timestamp word", CC+"include/tid.h"), ("packed fields", CC+"include/tid.h")],
 ["record state before and after lock operations"])

prop("C15", "The reservation lock excludes writers and exposes torn reads",
 "The lock protecting a storage's reservation table is held by at most one party, and each completed critical section changes the version number readers compare. A lock-free reader that reports success returns a table content that existed at one instant outside any critical section.",
 ["schedules"], "for every interference by lockers between any two steps of the reader",
 "A torn read needs a writer inside a window of a few loads.",
 [CC+"wp_lock.cpp", CC+"include/wp_lock.h", CC+"wp_meta.cpp"],
 [("sequence lock", CC+"wp_lock.cpp"), ("optimistic copy of the table", CC+"wp_meta.cpp")],
 ["snapshot of the reservation table returned to operations"])

prop("C16", "Garbage collection never takes away what a live transaction can read",
 "Background collection removes a version or a record only when no running or future transaction may need it: every version that some active snapshot would read stays reachable, live records stay in the index, and memory is released only after every session that could still hold a reference has moved on. Collection does not change the outcome of any read.",
 ["schedules", "histories"], "for every version chain, every set of active transactions and epochs, and every placement of a collection pass",
 "Only specific epoch relations between collector and reader expose premature removal.",
 [CC+"garbage.cpp", CC+"include/garbage.h", CC+"include/version.h"],
 [("choice of the version to cut", CC+"garbage.cpp"), ("record unhooking", CC+"garbage.cpp"), ("minimum step/begin epoch computation", CC+"garbage.cpp")],
 ["reads by snapshot transactions while collection runs"])

prop("C17", "Epochs only advance and snapshots are taken only where history is settled",
 "The global epoch increases by one at a time and never decreases. The epoch offered to read-only snapshots never lies beyond the point where a still-undecided long transaction or a short transaction in the middle of publishing could still insert a version before it.",
 ["schedules", "histories"], "for every set of running long transactions, forwarded order positions, and short transactions in their publishing phase",
 "An unsafe snapshot is observable only when a slow committer coincides with an epoch change.",
 [CC+"epoch.cpp", CC+"include/epoch.h", CC+"include/session.h", IF+"short_tx/termination.cpp", IF+"read_only_tx/read_only_tx.cpp"],
 [("epoch advancement", CC+"epoch.cpp"), ("safe snapshot computation", CC+"epoch.cpp"), ("publishing window of short transactions", CC+"include/session.h")],
 ["epoch values", "read-only transaction results over time"])

prop("C18", "The log receives exactly the committed writes with replayable versions",
 "For every committed transaction the datastore receives exactly one entry per written key, except for writes of long transactions that a newer version already hides; it carries the operation, storage, key, value, large-object references and a version whose order agrees with the order in which the writes took effect. Nothing is logged for aborted or read-only transactions. Entries are sent only inside a log session, and a flush drops none.",
 ["histories", "schedules", "inputs"], "for every write set, operation kind and flush timing",
 "The log content only matters after a crash; tests inspect little of it and flushes race with commits.",
 ["src/datastore/limestone/lpwal.cpp", CC+"include/lpwal.h", "src/datastore/limestone/limestone_api_helper.cpp", IF+"short_tx/termination.cpp", IF+"long_tx/termination.cpp"],
 [("log buffer of a session", CC+"include/lpwal.h"), ("log emission at commit", IF+"short_tx/termination.cpp"), ("flush", "src/datastore/limestone/lpwal.cpp")],
 ["entries passed to the datastore"])

prop("C19", "Commit outcome and durability are reported once and truthfully",
 "The callback passed to commit runs exactly once, with a success status and the durability marker only if the transaction committed, otherwise with the failure status and its reason; calling commit again while one is pending does not replace it. Every registered durability callback is told the durable epoch at registration and then each durable epoch reported by the datastore, in registration order, and none is called after shutdown.",
 ["schedules", "programs", "histories"], "for every way a commit can end (success, failure, waiting, background completion) and every sequence of callback registrations",
 "The number of commit exit paths times callback states exceeds the tested set.",
 [IF+"termination.cpp", CC+"bg_work/bg_commit.cpp", IF+"short_tx/termination.cpp", "src/database/tx_state_notification.cpp", "src/database/include/tx_state_notification.h"],
 [("commit callback processing", CC+"include/session.h"), ("durability callback registry", "src/database/tx_state_notification.cpp")],
 ["invocations of user callbacks"])

prop("C20", "Restart restores the recovered state",
 "After a restart in restore mode the database contains exactly the records, storages (with names, ids and options) and sequence values delivered by the datastore, each readable by every kind of transaction, and identifiers handed out afterwards never collide with restored ones. The global epoch starts beyond the last durable epoch.",
 ["inputs", "crash_points", "configurations"], "for every recovered content and any number of recovery threads",
 "The content space is unbounded and tests restore a few records.",
 ["src/datastore/limestone/datastore.cpp", IF+"start_up.cpp", IF+"storage.cpp", CC+"sequence.cpp"],
 [("index rebuild from the recovered snapshot", "src/datastore/limestone/datastore.cpp"), ("identifier generators", "src/datastore/limestone/datastore.cpp")],
 ["reads, list_storage(), get_storage(), read_sequence() after init()"])

prop("C21", "Sequence values follow versions, atomically with the transaction",
 "Reading a sequence returns the value with the greatest version among updates of committed transactions, or the initial value if there is none; an update takes effect only if its transaction commits and only if its version exceeds every version already recorded. Distinct sequences get distinct identifiers and never affect each other, and deleted or unknown identifiers are reported as not found.",
 ["programs", "histories", "inputs"], "for every order of updates, versions, epochs and garbage collection of sequence entries",
 "Version order, epoch order and durability advance independently; tests follow one order.",
 [CC+"sequence.cpp", "src/include/sequence.h", CC+"include/session.h"],
 [("sequence map keyed by epoch", CC+"sequence.cpp"), ("identifier generator", "src/include/sequence.h")],
 ["create_sequence()/update_sequence()/read_sequence()/delete_sequence() results"])

prop("C22", "Storage names, handles and options stay consistent",
 "Creating a storage under a used name or id is rejected; a created storage is found by its name with the handle returned, is listed, and carries the options last set; a deleted storage disappears under name and handle together with its records. Generated handles never collide with each other or with user-chosen ids, and internal storages are never exposed or deletable.",
 ["programs", "inputs", "histories"], "for every sequence of create, delete, rename-by-recreate and option changes",
 "Sequences of DDL operations and id layouts are unbounded.",
 [IF+"storage.cpp", "src/include/storage.h"],
 [("name to handle map", "src/include/storage.h"), ("handle generation", IF+"storage.cpp")],
 ["create_storage()/get_storage()/list_storage()/delete_storage()/storage options API"])

prop("C23", "Sessions and transactions follow their life cycle",
 "A session token is given to one holder at a time and returned by leave; operations on a session without a begun transaction are rejected with the not-begun status, a second begin is rejected while one is running, and after commit or abort the session is ready for a new transaction. Keys longer than the supported maximum are rejected, and every transaction of the process gets an identifier different from those of all others.",
 ["programs", "schedules"], "for every sequence of enter, begin, operation, terminate and leave calls on any number of sessions",
 "Call sequences are unbounded and exclusivity is about races between enter calls.",
 [IF+"session_management.cpp", IF+"tx_begin.cpp", IF+"termination.cpp", CC+"session_table.cpp", CC+"session.cpp", IF+"tx_id.cpp"],
 [("session acquisition", CC+"session_table.cpp"), ("begin/terminate state", CC+"include/session.h")],
 ["status of every API call", "get_tx_id()"])

prop("C24", "Scans return exactly the requested range, in order, within the limit",
 "A scan returns every record visible to the transaction whose key lies in the requested range, each once and in the requested key order, up to the requested maximum, including the transaction's own pending inserts and excluding its own deletes; empty or inverted ranges return nothing. An open scan can be used only through the session that opened it; a null handle or another session's handle is rejected, and closing a scan twice is rejected.",
 ["inputs", "programs", "histories"], "for every range with every end-point kind, limit, direction and mixture of visible and invisible records",
 "End-point kinds, limits and skipped records combine multiplicatively.",
 [IF+"scan/open_scan.cpp", IF+"scan/next.cpp", IF+"scan/read_kv_from_scan.cpp", IF+"scan/close_scan.cpp", IF+"scan/scannable_total_index_size.cpp", CC+"include/scan.h"],
 [("range emptiness decision", IF+"scan/open_scan.cpp"), ("cursor advance with visibility filter", IF+"scan/next.cpp"), ("scan handle table", CC+"include/scan.h")],
 ["open_scan()/next()/read_key_from_scan()/read_value_from_scan() results"])

prop("C25", "The reported failure reason belongs to the failed transaction",
 "After a transaction fails, the result information names the reason, and where given the key and storage, of that failure, and it stays available until the next transaction begins in the session. Setting one part of the result information does not disturb the others and a new transaction starts with it cleared.",
 ["inputs", "programs"], "for every reason, key and storage and every order of reporting calls",
 "Clearing and flag handling errors need specific call orders over the reporting interface.",
 [CC+"result_info.cpp", "include/shirakami/result_info.h", CC+"include/session.h", IF+"api_result.cpp"],
 [("result information object", "include/shirakami/result_info.h")],
 ["transaction_result_info() contents"])

prop("C26", "Transaction state handles report the true phase of their transaction",
 "A state handle reports the phase of the transaction it was acquired for: waiting to start until its snapshot epoch has arrived, started, waiting for commit, committed, durable or aborted, and phases are only reported in that order. A released or never issued handle is rejected and handles of different transactions do not influence each other.",
 ["programs", "schedules"], "for every order of acquire, check, release, begin, commit and durability events",
 "Phase transitions depend on epochs that advance independently of the calling program.",
 [CC+"transaction_state.cpp", "src/include/transaction_state.h", "include/shirakami/transaction_state.h", CC+"include/session.h"],
 [("phase transition on query", CC+"transaction_state.cpp"), ("handle registry", CC+"transaction_state.cpp")],
 ["check_tx_state()/release_tx_state_handle() results"])

prop("C27", "Operations and termination of one transaction exclude each other",
 "When several threads work on the same transaction, no data operation of it overlaps with a requested commit or abort: an operation either completes before termination starts or finds the transaction finished, and termination happens once. Operations of these threads see and change the transaction's own writes one after another, so that no write is lost or mixed with another.",
 ["schedules"], "for every interleaving of data operations with commit or abort on the same token",
 "The overlap window is a few instructions in each of a dozen API functions.",
 [IF+"upsert.cpp", IF+"insert.cpp", IF+"update.cpp", IF+"delete.cpp", IF+"search.cpp", IF+"scan/open_scan.cpp", IF+"scan/next.cpp", IF+"scan/read_kv_from_scan.cpp", IF+"termination.cpp", CC+"include/session.h"],
 [("termination mutex", CC+"include/session.h")],
 ["status of operations issued concurrently with termination"])

prop("C28", "Tasks handed to the worker pool are taken exactly once before shutdown",
 "Every task handed to the internal worker pool is taken by exactly one worker, and no worker terminates before shutdown was requested and the queue of tasks it looked at was empty. Shutting the pool down returns only after every worker has terminated.",
 ["schedules", "programs"], "for every number of tasks and workers and every interleaving of submission, execution and shutdown",
 "Lost or duplicated tasks need particular interleavings.",
 ["src/database/thread_pool.cpp", "src/database/include/thread_pool.h", "src/database/include/thread_task.h", "src/include/concurrent_queue.h"],
 [("task queue", "src/include/concurrent_queue.h"), ("worker loop", "src/database/thread_pool.cpp")],
 ["execution of submitted tasks"])

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps(p) + "\n")
    print(len(P))
