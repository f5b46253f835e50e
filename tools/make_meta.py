"""Writes properties.jsonl and MANIFEST.json from one table."""

import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []


def prop(id, title, statement, over, qtext, why, files, mechanism, technique, note,
         level="exploration", state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append(locals().copy())


D = "daisy/"

prop(
    "C01",
    "Blocks tile the task's region exactly, for every geometry and fit mode",
    "For every total ROI, read ROI, write ROI (contained in the read ROI) and fit mode, the blocks a task is "
    "processed in are exactly the translations of the write ROI that tile the total ROI minus the context from its "
    "lower corner: 'valid' keeps those that fit, 'overhang' all that overlap it, 'shrink' all that overlap it, cut at "
    "its border with the context preserved. Their write ROIs never overlap, no block is missing, duplicated or "
    "differently shaped, and the announced number of blocks is the number of blocks handed out.",
    ["inputs"],
    "every dimension, geometry, context (also asymmetric or larger than the block), offset, fit mode, including tasks "
    "in which no block fits",
    "Tests enumerate a handful of fixed 1-3D geometries; gaps or overlaps appear only for particular remainders, "
    "contexts or fits.",
    [D + "dependency_graph.py", D + "block.py", D + "task.py"],
    [
        {"name": "level offsets, inclusion criteria and shrinking", "where": "dependency_graph.py BlockwiseDependencyGraph"},
        {"name": "number of blocks per level", "where": "dependency_graph.py _num_level_blocks"},
    ],
    "runtime monitor: enumerations and complete runs against a geometric reference",
    "All blocks of several enumerations and of monitored scheduler and server runs are compared with an independent "
    "geometric model on seeded random geometries. Trusts the model and that geometries of up to 200 blocks are "
    "representative.",
    observe=["DependencyGraph enumeration", "blocks handed out by Scheduler and Server"],
)
prop(
    "C02",
    "Every block has one unique, stable identity everywhere",
    "Within a run every block has an id that no other block has, and the same position of the same task gets the same "
    "id wherever and whenever the block is constructed: in any enumeration, as a neighbour, in a region query, in a new "
    "process or in a later run with the same task. Blocks are equal exactly if they are the same block, and copying or "
    "pickling a block preserves id, ROIs, task and status without sharing state with the original.",
    ["inputs", "histories"],
    "all task geometries with read ROI containing write ROI, all ways to obtain a block, all copies",
    "Tests compare a few ids; collisions depend on contexts, remainders and fits, and bookkeeping by id breaks silently.",
    [D + "block.py", D + "dependency_graph.py"],
    [{"name": "cantor number of the block index", "where": "block.py Block.__compute_block_id"},
     {"name": "__eq__/__hash__/copy", "where": "block.py Block"}],
    "runtime monitor: identity map over all observed blocks",
    "Every block observed anywhere must map to the id of its grid position, one to one. Ids beyond 2^53 are not covered.",
    observe=["Block.block_id", "Block.copy", "pickle of blocks", "blocks received over TCP"],
)
prop(
    "C03",
    "Conflicting blocks are never in flight at the same time",
    "With read_write_conflict (the default), at no time are two blocks of the same task handed out and not yet returned "
    "such that the write ROI of one intersects the read or write ROI of the other. This holds for any number of workers, "
    "any order of requests and returns, retries, failures and lost workers.",
    ["inputs", "schedules", "fault_sequences"],
    "all task geometries, all interleavings of requests, returns, failures and losses",
    "Tests never check concurrency of neighbouring blocks; a missing conflict shows only for particular geometries under "
    "particular interleavings.",
    [D + "dependency_graph.py", D + "ready_surface.py", D + "scheduler.py", D + "server.py"],
    [{"name": "level stride and conflict offsets", "where": "dependency_graph.py compute_level_stride, get_conflict_offsets"},
     {"name": "ready surface", "where": "ready_surface.py mark_success"}],
    "online trace monitor: pairwise geometric conflict check at every hand-out, scheduler and TCP server stress",
    "Every hand-out in thousands of randomized scheduler histories and server runs is compared geometrically with all "
    "blocks in flight. Explores sampled schedules, not all.",
    observe=["Scheduler.acquire_block/release_block", "blocks held by TCP clients", "process functions of real worker processes"],
)
prop(
    "C04",
    "Declared block dependencies are exact, symmetric, acyclic and complete",
    "A block depends on exactly those blocks of each upstream task whose write ROI intersects its read ROI; upstream and "
    "downstream queries are inverse to each other, mention only existing blocks (each once), and contain no cycles. Within "
    "a task with read/write conflicts any two conflicting blocks are ordered (transitively) and the longest chain does not "
    "grow with the volume; without conflicts there is no dependency at all. The blocks announced as free to start are "
    "exactly those without dependencies, and the blocks found for a region are exactly those writing to (or reading from) it.",
    ["inputs"],
    "all sets of tasks with any geometries, offsets, fits, disjoint or partially overlapping upstream ROIs, all regions",
    "Tests use one chain with equal grids and check some blocks; asymmetric contexts, different grids and borders are not reached.",
    [D + "dependency_graph.py"],
    [{"name": "upstream/downstream by conflict offsets", "where": "dependency_graph.py BlockwiseDependencyGraph"},
     {"name": "inter-task dependencies by region", "where": "dependency_graph.py get_subgraph_blocks, DependencyGraph"}],
    "runtime oracle: all dependency queries against geometric reference",
    "All queries on all blocks of seeded random task sets are compared with the geometry; order is checked by transitive "
    "closure. Trusts the geometric model.",
    observe=["DependencyGraph.upstream/downstream/roots", "BlockwiseDependencyGraph.get_subgraph_blocks"],
)
prop(
    "C05",
    "A block is handed out only after everything it depends on has succeeded",
    "Whenever a block is handed out for processing, every block of an upstream task that writes into its read ROI, and "
    "every block of its own task it is declared to depend on, has been completed successfully (or was skipped as already "
    "done). A failed, lost, pending or merely retried dependency never counts.",
    ["inputs", "schedules", "fault_sequences"],
    "all task sets, all orders of requests and returns, all outcomes including failures, retries, losses and skips",
    "Tests run one chain with all blocks succeeding; premature hand-outs need particular overlaps and orders of returns.",
    [D + "scheduler.py", D + "ready_surface.py", D + "dependency_graph.py", D + "server.py"],
    [{"name": "ready surface", "where": "ready_surface.py mark_success, mark_failure"},
     {"name": "ready queues", "where": "scheduler.py release_block"}],
    "online trace monitor: reference state machine over scheduler, TCP server and serial runs",
    "Every hand-out is checked against geometric upstream blocks and declared predecessors. Sampled schedules and fault sequences.",
    observe=["Scheduler.acquire_block/release_block", "real runs over TCP"],
)
prop(
    "C06",
    "Each block has one holder, completes once, and is retried as configured",
    "A block is in the hands of at most one client at a time, completes at most once and is never handed out again "
    "afterwards; if it keeps failing it is attempted exactly max_retries + 1 times and then counts as failed. A return "
    "changes the state of a block only if it comes from the client the block is currently given to: duplicate, stale or "
    "foreign returns have no effect, whatever status they carry.",
    ["schedules", "fault_sequences", "histories"],
    "all interleavings of requests and returns by any number of clients, including misbehaving and reconnecting ones",
    "Tests return every block once from the right client; double counting needs duplicates, reconnects and races.",
    [D + "server.py", D + "block_bookkeeper.py", D + "scheduler.py", D + "processing_queue.py", D + "serial_server.py"],
    [{"name": "valid returns", "where": "block_bookkeeper.py is_valid_return"},
     {"name": "retry counting", "where": "scheduler.py release_block"},
     {"name": "ready queue", "where": "processing_queue.py"}],
    "trace monitor: one-to-one matching of hand-outs, client actions and accepted returns under forged/duplicate/stale returns",
    "Client actions are recorded before they happen; every accepted return must be explained by the current holder. A return "
    "sent right before the client closes its connection may be lost (not claimed).",
    level="fault_enumeration",
    observe=["messages of clients", "Scheduler.acquire_block/release_block"],
)
prop(
    "C07",
    "Every run makes progress and ends with every block in a final state",
    "A block is offered to the next request for its task as soon as its dependencies are done, requests are answered with a "
    "block whenever one is available and wait only while blocks are still pending, and blocks that do not depend on each "
    "other are available in parallel. As long as clients keep asking for blocks, every run ends by itself, with every block of "
    "every task completed, failed or orphaned.",
    ["inputs", "schedules", "fault_sequences"],
    "all task sets (also without blocks, with disjoint upstream ROIs, all blocks skipped), orders of events, failures and losses",
    "Tests see a few runs end; hangs depend on geometry, on skipping, on which task waits first and on lost clients.",
    [D + "scheduler.py", D + "ready_surface.py", D + "server.py", D + "serial_server.py", D + "dependency_graph.py"],
    [{"name": "ready surface", "where": "ready_surface.py"}, {"name": "delayed requests", "where": "server.py _get_client_message"},
     {"name": "end of run", "where": "server.py _check_all_tasks_completed"}],
    "online monitor of work conservation plus bounded-progress watchdog over scheduler, TCP server and serial runs",
    "Every answer to every request is compared with the reference's set of ready blocks; a run that does not end three "
    "times in a row within its (generous) limit is reported.",
    observe=["answers to block requests", "end of run_blockwise"],
)
prop(
    "C08",
    "A permanent failure gives up exactly the blocks that depend on it",
    "When a block fails permanently, exactly the blocks that directly or indirectly depend on it (within the task and in "
    "downstream tasks) are given up: each is counted as orphaned once, none of them is ever handed out, and every other block "
    "is still processed.",
    ["inputs", "schedules", "fault_sequences"],
    "all task sets, all sets of failing blocks, all orders in which successes and failures arrive",
    "Tests fail one block of one chain; double counting or a lost orphan depends on the order of several failures.",
    [D + "ready_surface.py", D + "scheduler.py"],
    [{"name": "orphans", "where": "ready_surface.py mark_failure"}],
    "online trace monitor: transitive closure of failures against orphan counts and hand-outs",
    "After each failure in randomized histories the counts of all tasks equal the transitive closure computed independently.",
    observe=["TaskState.orphaned_count", "Scheduler.acquire_block"],
)
prop(
    "C09",
    "Task states always tell the truth",
    "After every request and every return the counts of each task (total, ready, processing, completed, skipped, failed, "
    "orphaned, pending) equal the actual numbers of blocks in these states, add up to the total number of blocks, and a task "
    "reports to be done exactly if all its blocks are completed, failed or orphaned.",
    ["inputs", "schedules", "fault_sequences"],
    "all task sets and all histories of requests, returns, failures, retries, losses and skips",
    "Tests compare final counts of a few runs; wrong intermediate counts end runs early, or never.",
    [D + "task_state.py", D + "scheduler.py", D + "server.py", D + "serial_server.py"],
    [{"name": "counters", "where": "scheduler.py acquire_block, release_block"}, {"name": "derived counts", "where": "task_state.py"}],
    "online monitor: all counters compared with a reference state machine after every operation",
    "Complete comparison after every operation of randomized scheduler, server and serial runs.",
    observe=["Scheduler.task_states", "result of run_blockwise"],
)
prop(
    "C10",
    "Blocks found done by the check function are skipped, all others are run",
    "A block for which check_function returns a true value is not processed, counts as completed and skipped, and releases "
    "its dependents; a block for which it returns a false value or raises is processed normally. This holds for any subset of "
    "blocks, including all blocks of all tasks, with and without multiprocessing, and never stalls or ends a run early.",
    ["inputs", "histories"],
    "all task sets, all subsets of done blocks, all return values and exceptions of the check function",
    "Tests skip all or no blocks of a single task; chains of skipped tasks and raising checks are not reached.",
    [D + "scheduler.py", D + "server.py", D + "serial_server.py"],
    [{"name": "pre-check", "where": "scheduler.py acquire_block, __precheck"}, {"name": "recruiting after skipping", "where": "server.py _handle_acquire_block"}],
    "online trace monitor over scheduler, TCP server and serial runs with adversarial check functions",
    "The monitor sees every answer of the check function and what happens to the block. Sampled subsets and task sets.",
    observe=["check_function calls", "Scheduler.acquire_block", "TaskState.skipped_count"],
)
prop(
    "C17",
    "Observers see every event of a run once, in order and with true states",
    "Registered observers are told about the start of a task at most once and before any of its blocks is handed out, about "
    "every block handed out and every block taken back exactly once, about every exception of a block exactly once with block, "
    "exception and client context, about the end of every task exactly once (after its last block) and about the end of the "
    "run exactly once and last. The task state given is the true state at that moment, and with the distributed server the init "
    "callback of a started task is called exactly once, before any of its blocks is handed out, with the address of the server.",
    ["schedules", "fault_sequences"],
    "all runs of the distributed and the serial server, all outcomes",
    "Tests do not look at notifications; missed or doubled ones depend on skips, failures and the order of events.",
    [D + "server_observer.py", D + "server.py", D + "serial_server.py"],
    [{"name": "notifications", "where": "server.py, serial_server.py notify_*"}, {"name": "init callback", "where": "server.py _recruit_workers"}],
    "offline trace checker over recorded notifications of stressed runs",
    "Complete notification traces of randomized distributed and serial runs are checked against hand-outs and accepted returns.",
    observe=["ServerObserver callbacks", "Task.init_callback_fn"],
)
prop(
    "C20",
    "Scheduling cost does not grow with the size of the volume",
    "Preparing a run and answering a request or a return touches a number of blocks that depends on the shape of blocks and "
    "context only, not on the size of the total ROI (where upstream tasks cover what downstream tasks read): volumes with "
    "billions of blocks can be scheduled without enumerating them.",
    ["inputs"],
    "all block shapes, contexts, fits and chains of tasks, all volumes",
    "Tests use small volumes, where an accidental enumeration goes unnoticed.",
    [D + "dependency_graph.py", D + "ready_surface.py", D + "scheduler.py", D + "processing_queue.py"],
    [{"name": "generators of roots", "where": "dependency_graph.py root_gen"}, {"name": "on-the-fly dependencies", "where": "dependency_graph.py upstream, downstream"}],
    "instrumented object counting on paired small/huge volumes",
    "Counts constructed blocks for identical histories on volumes that differ by orders of magnitude.",
    observe=["construction of Block objects"],
)
prop(
    "C21",
    "Expanding a ROI to the grid gives the smallest aligned ROI that contains it",
    "For every ROI and block geometry, the grid expansion helpers return the smallest ROI that contains the given one and "
    "whose borders lie on the grid of block write ROIs (extended by the context for read requests), including ROIs with negative "
    "offsets and ROIs that leave the total ROI.",
    ["inputs"],
    "all ROIs and geometries",
    "No test covers the helpers; rounding of negative offsets is easily wrong.",
    [D + "blocks.py"],
    [{"name": "floor and ceil division", "where": "blocks.py expand_roi_to_grid, expand_write_roi_to_grid, expand_request_roi_to_grid"}],
    "runtime oracle on randomized calls",
    "Compared with an independent definition on random inputs.",
    observe=["return values"],
)

exec(open(os.path.join(HERE, "tools", "more_props.py")).read()) if os.path.exists(
    os.path.join(HERE, "tools", "more_props.py")
) else None

P.sort(key=lambda p: p["id"])


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(
                json.dumps(
                    {
                        "id": p["id"],
                        "title": p["title"],
                        "statement": p["statement"],
                        "quantifier": {"over": p["over"], "text": p["qtext"]},
                        "why_tests_cant": p["why"],
                        "anchors": {
                            "files": p["files"],
                            "state": list(p["state"]),
                            "mechanism": p["mechanism"],
                            "observe_at": list(p["observe"]),
                            "hook_needed": p["hook"],
                        },
                    },
                    ensure_ascii=False,
                )
                + "\n"
            )
    cmd = "/opt/venv/bin/python check.py"
    m = {
        "version": 1,
        "setup_cmd": "/opt/venv/bin/python -c \"import sys; sys.dont_write_bytecode=True; sys.path.insert(0,'/repo'); import daisy, tornado, dill, numpy\"",
        "checks": [
            {
                "property": p["id"],
                "quick_cmd": f"VERIF_TIER=quick {cmd} {p['id']}",
                "thorough_cmd": f"VERIF_TIER=thorough {cmd} {p['id']}",
                "evidence_file": f"evidence/{p['id']}.json",
                "technique": p["technique"],
                "level": p["level"],
                "level_note": p["note"],
            }
            for p in P
        ],
        "not_applicable": [],
        "notes": "No hooks in /repo: the monitors use daisy's public interfaces (scheduler argument of run_blockwise, "
        "server observers, check and process functions, TCP messages). known_findings.txt lists repaired defects.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")


main()
