#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, qtext, why, files, mech, note, observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=None), _note=note))

A = "coerce/src/actor/"
prop("C01", "One message at a time, in order, none lost or invented",
  "An actor handles at most one message at a time, and every handled message was accepted for that very actor and is handled exactly once. Messages are handled in the order in which they were accepted. Every message accepted by an actor before it was asked to stop is handled, and a message that was refused is never handled.",
  ["schedules", "histories"], "all interleavings of senders, notifiers and stop requests with a running actor, including handlers that suspend",
  "tests send a handful of messages from one task on a multi-threaded runtime whose interleavings are not controlled",
  [A + "lifecycle.rs", A + "mod.rs", A + "message/mod.rs", A + "blocking.rs"],
  [("mailbox and receive loop", A + "lifecycle.rs"), ("local references", A + "mod.rs")],
  "Handlers, senders, timers and stop requests are interleaved by the simulated scheduler; a per-actor reference queue judges every handled message.")
prop("C02", "A reply belongs to its request and every request resolves",
  "A request that succeeds returns exactly the value its own handler invocation returned, after that invocation completed. Every request resolves: with a reply if its handler completed, with an error if the actor stopped, panicked or was already gone. A request is never reported as failed while the actor is alive and its handler completed.",
  ["schedules", "histories"], "all interleavings of concurrent requests, asynchronous and blocking, with stops, panics and restarts of the target",
  "tests await one request at a time and never stop the actor while requests are queued at a chosen point",
  [A + "message/mod.rs", A + "mod.rs", A + "lifecycle.rs", A + "blocking.rs"],
  [("reply channel per message", A + "message/mod.rs"), ("mailbox drop on stop", A + "lifecycle.rs")],
  "Replies carry the identity of the handler invocation; unresolved requests are detected by virtual-time bounds.")
prop("C03", "Start and stop hooks run once, in order, and stop waits for the end",
  "An actor's start hook completes before creation is reported and before any message is handled, and its stop hook runs at most once, after the last message. A stop request returns only after the stop hook completed, an actor asked to stop always ends, and after that it accepts no message and its references report it as gone. A start that fails is reported as a failure, never as a running actor.",
  ["schedules", "histories"], "all interleavings of creation, deferred creation, messages, concurrent stop requests and self-stops, asynchronous and blocking, with suspending hooks",
  "tests exercise one start and one stop in sequence",
  [A + "lifecycle.rs", A + "scheduler/mod.rs", A + "context.rs", A + "system/mod.rs", A + "blocking.rs"],
  [("lifecycle loop", A + "lifecycle.rs"), ("start notification", A + "scheduler/mod.rs")],
  "A lifecycle state machine per actor instance is replayed over the recorded history of hooks, messages and results.")
prop("C04", "Lookup by name returns the live actor registered under that name",
  "Looking up a tracked actor by id returns the newest actor created under that id as soon as its creation was reported and until it is asked to stop, and returns nothing once its stop completed. A lookup never returns an actor of another id, of another type, one whose creation failed, or one that was superseded. The number of registered actors reported on a quiet system equals the number of tracked actors running.",
  ["schedules", "histories"], "all interleavings of creation, re-creation under the same id, lookups, stops and failing starts",
  "tests look up one actor before and after one stop",
  [A + "scheduler/mod.rs", A + "system/mod.rs", A + "lifecycle.rs"],
  [("registry in the scheduler actor", A + "scheduler/mod.rs"), ("de-registration when an actor ends", A + "lifecycle.rs")],
  "Interval-based linearizability check of every lookup against the creations and stops overlapping it.")
prop("C05", "Supervision: children are known, reported once and never outlive a parent",
  "A parent knows exactly the children it spawned that have not ended, cannot be given two children of one name, and each child can reach its parent. When a child ends, by stopping or by panicking, its parent is told exactly once and only after the child and everything below it has ended. When a parent ends, all actors below it end.",
  ["schedules", "histories"], "trees of actors with spawns, stops and panics at every level, interleaved arbitrarily",
  "tests build one small tree and stop it from the top once",
  [A + "supervised.rs", A + "context.rs", A + "lifecycle.rs"],
  [("children map and stop cascade", A + "supervised.rs"), ("child termination notice", A + "lifecycle.rs")],
  "Random trees with stops, panics and re-spawns; a reference tree judges counts, lookups, notices and their order.")
prop("C06", "A watcher is told exactly once when the watched actor ends",
  "An actor that watches another before that one is asked to stop is told exactly once that it terminated, whether it stopped or panicked, and only after it ended. An actor that does not watch, or stopped watching before the end, is not told.",
  ["schedules", "histories"], "all interleavings of watch, unwatch, stop and panic with several watchers per subject",
  "tests have one watcher and one orderly stop",
  [A + "watch/mod.rs", A + "watch/watchers.rs", A + "lifecycle.rs", A + "context.rs"],
  [("watcher list", A + "watch/watchers.rs"), ("notification at the end of life", A + "lifecycle.rs")],
  "Same scenario family as C05, judged per (watcher, subject) pair; watchers have distinct ids.")
prop("C07", "Timers tick on time, in order, and not after they are stopped",
  "A repeating timer delivers its tick to its actor once per period, never before it is due, and not later than the actor is able to handle it. A delayed message is delivered exactly once, not before its delay elapsed. After a timer was stopped or a delayed message cancelled, at most a tick already sent is still handled.",
  ["schedules", "histories"], "all periods, delays, busy handlers and stop times on the virtual clock",
  "tests run a few ticks in wall-clock time and can only compare loosely",
  [A + "scheduler/timer.rs", A + "mod.rs", A + "system/mod.rs"],
  [("timer loop", A + "scheduler/timer.rs"), ("delayed notification", A + "mod.rs")],
  "Due times are computed exactly on the virtual clock and compared with handled ticks.")
prop("C08", "Shutting a system down stops every tracked actor and always returns",
  "When shutdown returns, every actor that was tracked before shutdown was requested has completed its stop hook, with all its children, and none was stopped twice. Shutdown, and every operation in progress on the system meanwhile, returns. Afterwards lookups find nothing and the system reports itself terminated.",
  ["schedules", "histories"], "shutdown at every point of a busy system: actors being created, stopping, panicking, looking each other up; repeated shutdown",
  "tests shut down an idle system",
  [A + "system/mod.rs", A + "scheduler/mod.rs", A + "lifecycle.rs"],
  [("system shutdown", A + "system/mod.rs"), ("tracked actors", A + "scheduler/mod.rs")],
  "Shutdown is requested at seeded points of a busy system; hangs are bounded in virtual time.")
prop("C09", "A worker pool spreads tasks evenly, runs each once, answers the caller",
  "Every task dispatched to a worker pool is handled exactly once by one worker and its own result is returned to its caller, or the caller gets an error if that worker died. Tasks are spread evenly: with all workers alive, no worker is given more than one task more than another. A worker handles one task at a time and an idle worker's task is not held up by other workers.",
  ["schedules", "histories"], "concurrent dispatchers, suspending tasks and dying workers, all interleavings",
  "tests dispatch sequentially to healthy workers",
  [A + "worker.rs"], [("round-robin dispatch", A + "worker.rs")],
  "Concurrent dispatchers with suspending and fatal tasks; counts per worker and per task are checked.")
prop("C28", "The description of the actor tree is accurate and always arrives",
  "Describing an actor, or the whole system, always produces an answer in bounded time, whatever the described actors are doing. The description of the system lists every tracked actor that was created before and not stopped, and none that had been stopped before; each actor's description carries its own id, type, tags and a path below its parent's path. Within the limits asked for (depth, number of children, whether attached actors are included) it lists every child the actor had, once, under its own parent, and nothing beyond the limits. A live idle actor is described, not reported as failed or unresponsive; an actor that is busy throughout is reported as unresponsive, not described. Describing does not hold up other messages.",
  ["schedules", "histories"], "trees of spawned and attached actors that change, stop, panic and are busy for any time while descriptions with all combinations of limits run concurrently",
  "tests describe one static, idle tree",
  [A + "describe/mod.rs", A + "context.rs", A + "supervised.rs", A + "scheduler/mod.rs"],
  [("description of one actor and its children", A + "describe/mod.rs"), ("paths of children", A + "context.rs"), ("children known to their parent", A + "supervised.rs")],
  "Trees are built and changed while descriptions run; each answer is compared with what the recorded history allows at any moment between request and answer.")
J = "coerce/src/persistent/"
prop("C10", "Acknowledged events survive crashes, in order, exactly once",
  "After any crash or stop, a persistent actor that starts again is restored to a state built from every event whose persist was acknowledged, in the order they were persisted, each exactly once. Events whose persist did not succeed appear at most once, batches entirely or not at all, and nothing else appears. Reading back a range of persisted messages returns exactly the acknowledged messages in that range.",
  ["crash_points", "fault_sequences", "schedules", "histories"], "crashes at any point of any write, storage errors before and after the write takes effect, restarts, several actors concurrently",
  "tests persist four events, stop in an orderly way and recover once, without any fault",
  [J + "journal/mod.rs", J + "actor.rs", J + "recovery.rs", J + "batch.rs", J + "journal/provider.rs"],
  [("sequence assignment", J + "journal/mod.rs"), ("recovery", J + "recovery.rs"), ("batches", J + "batch.rs")],
  "Simulated journal medium with injected errors, latency and process crashes; recovered state compared with the acknowledged history.")
prop("C11", "Persistence failure policies do exactly what they say",
  "A failed write is retried, reported, or ends the actor exactly as its policy says: the configured number of attempts, the configured delay between them, the same sequence number, success reported only if the last attempt succeeded, and an actor whose policy stops it handles nothing afterwards. Recovery follows its policy in the same way: an actor never handles a message before its recovery completed, and never starts after its recovery failed or its journal could not be decoded. Sequence numbers of acknowledged writes are strictly increasing across restarts.",
  ["fault_sequences", "configurations", "crash_points"], "all policies, retry limits and delays, against arbitrary sequences of storage read and write errors and corrupt entries",
  "tests cover one error sequence for four of the policies and check only the final result",
  [J + "failure.rs", J + "actor.rs", J + "recovery.rs", J + "journal/mod.rs"],
  [("persist failure handling", J + "actor.rs"), ("retry decision", J + "failure.rs"), ("recovery failure handling", J + "recovery.rs")],
  "Every storage attempt is logged with its virtual time and judged against the policy.")
prop("C12", "Snapshots and truncation lose nothing",
  "A persistent actor that takes snapshots and truncates its journal recovers to the same state as one that keeps all events: the snapshot first, then exactly the acknowledged events after it. After an acknowledged truncation no message older than the snapshot remains stored. This holds for crashes and storage errors at any point of writing the snapshot or truncating.",
  ["crash_points", "fault_sequences", "schedules", "histories"], "snapshots and truncations at any point of any history, with crashes and errors during either",
  "no test takes a snapshot of an actor or recovers from one",
  [J + "journal/mod.rs", J + "journal/snapshot.rs", J + "actor.rs", J + "journal/provider.rs"],
  [("snapshot sequence", J + "journal/mod.rs"), ("truncation", J + "journal/mod.rs")],
  "As C10 with snapshot and truncate operations in the plans.")
prop("C13", "Persistent actors are isolated from each other",
  "A persistent actor writes to and recovers from only the journal of its own persistence key, in the storage configured for its actor type (or the default storage if there is none). No event, snapshot or truncation of one actor affects another, whatever their keys look like and however their writes interleave.",
  ["histories", "configurations", "crash_points"], "several actors of two types with confusable keys, two storage providers, interleaved writes, crashes",
  "no test has two persistent actors or two providers",
  [J + "mod.rs", J + "context.rs", "coerce/src/actor/context.rs", J + "journal/mod.rs"],
  [("provider selection", J + "mod.rs"), ("journal per actor", J + "context.rs")],
  "As C10 with up to six actors, confusable keys and two providers; foreign events and writes to the wrong provider are reported.")
prop("C14", "Storage backends behave like an ordered journal",
  "Both shipped journal backends return, for every read, exactly the entries written under that key in the requested range, in sequence order and byte for byte, and the newest snapshot. A write reported as successful is visible to every later read, also through a new connection, until it is deleted; a write reported as failed is visible at most once. When the connection breaks or the server replies with an error, every operation in progress still returns.",
  ["inputs", "fault_sequences", "schedules", "histories"], "arbitrary payload bytes, key names, concurrent operations, connection resets, partitions, slow and failing servers",
  "the redis tests need a live server and run one operation at a time; the in-memory test checks one deletion",
  ["coerce/src/persistent/journal/provider.rs", "coerce/src/persistent/journal/storage.rs", "providers/persistence/coerce-redis/src/journal/mod.rs", "providers/persistence/coerce-redis/src/journal/actor.rs"],
  [("in-memory journal", "coerce/src/persistent/journal/provider.rs"), ("redis commands", "providers/persistence/coerce-redis/src/journal/actor.rs"), ("entry encoding", "coerce/src/persistent/journal/storage.rs")],
  "The real redis provider and client talk to a stub server over the simulated network; every read is compared with a reference journal.")

exec(open(os.path.join(ROOT, "tools", "props_remote.py")).read()) if os.path.exists(os.path.join(ROOT, "tools", "props_remote.py")) else None

NA = []
def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}, ensure_ascii=False) + "\n")
    m = dict(version=1, setup_cmd="bash setup.sh",
             hooks=dict(guard="none: no hook in /repo; the simulator replaces the tokio crate through [patch.crates-io] in /verif/sim/Cargo.toml", enable="cargo build in /verif/sim", source_commits=[]),
             checks=[dict(property=p["id"], quick_cmd=f"bash check.sh {p['id']} quick", thorough_cmd=f"bash check.sh {p['id']} thorough",
                          evidence_file=f"evidence/{p['id']}.json", technique="deterministic simulation with fault injection (seeded search)",
                          level="exploration", level_note=p["_note"]) for p in P],
             not_applicable=NA)
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
    open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
main()
