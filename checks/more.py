"""Checks that involve clients, processes, sockets and ends of runs."""

from vlib import addr, busy, clients, ctx, lost, multi, perturb, pool, procs, sched, serial, srv, stop, tcp

from .registry import (
    CHECKS, GEO, RUNS, SPECS, L, Part, S, V, mixed, register, seeded,
)

PROCS = (
    "runs with real worker processes (process and spawn functions) whose blocks succeed, fail, raise, exit or kill "
    "their process as planned per attempt; begin and end of every block are logged with the monotonic clock. "
)


def R(prop, extra=None):
    return lambda case: procs.proc_case(case, {prop}, extra)


def delayed(part, name="delays", quick=(40, 15), thorough=(2000, 300), places=perturb.PLACES):
    """The cases of a part again, with delays at random places inside of daisy."""
    return Part(
        name, perturb.perturbed(part.fn, places), lambda n: [dict(c, again=name) for c in part.cases(2 * n)[n:]], kind="io",
        quick=quick, thorough=thorough, **part.kw,
    )


def proc_part(prop, name, kinds, how=None, quick=(60, 20), thorough=(1500, 300), extra=None, **fixed):
    return Part(
        name, R(prop, extra), mixed(f"{prop}{name}", "kind", kinds, how=how, **fixed), kind="io",
        quick=quick, thorough=thorough, watchdog=90,
    )


ALL = ["ok", "fail", "raise", "crash", "storm", "chaos"]

# real processes for properties about scheduling
CHECKS["C03"].parts.append(proc_part("C03", "processes", ["ok", "ok", "raise", "crash", "chaos"], quick=(80, 20)))
CHECKS["C05"].parts.append(proc_part("C05", "processes", ["fail", "raise", "crash", "chaos"], quick=(60, 20)))
CHECKS["C06"].parts.append(proc_part("C06", "processes", ["fail", "raise", "crash", "storm", "chaos"], quick=(80, 20)))
CHECKS["C07"].parts.append(proc_part("C07", "processes", ALL, quick=(60, 20)))
CHECKS["C10"].parts.append(proc_part("C10", "processes", ["ok", "fail"], quick=(40, 15), pskip=0.5))
for p in ("C03", "C05", "C06", "C07", "C10"):
    CHECKS[p].rule += " " + PROCS
    CHECKS[p].need = list(CHECKS[p].need) + ["process_runs"]

register(
    "C11",
    [
        Part("clients", lambda c: clients.client_case(c, {"C11"}), seeded("c11", kind="ok"), kind="io", quick=(120, 30), thorough=(4000, 500)),
        Part("gone", clients.gone_case, seeded("c11g"), kind="io", quick=(40, 25), thorough=(1000, 200)),
        Part("late", clients.late_case, seeded("c11l"), kind="io", quick=(16, 15), thorough=(200, 100)),
        Part("nested", clients.nested_case, seeded("c11n"), kind="io", quick=(48, 15), thorough=(1000, 150)),
    ],
    "server runs with real daisy.Client objects whose user code ends normally, early, with any status, with exceptions of "
    "17 kinds (large, chained, not picklable, not unpicklable), KeyboardInterrupt or SystemExit; servers that go away while "
    "clients wait, work or rest; clients that acquire blocks while they hold others. Non-trivial: distinct event sequence over more than one block.",
    [GEO, "exceptions whose repr() raises are not covered"],
    need=["exceptions_reported", "clients_of_gone_servers", "late_clients", "nested_blocks", "nested_reports"],
)
register(
    "C12",
    [
        Part("books", lost.books_case, seeded("c12b"), quick=(2000, 15), thorough=(60000, 200)),
        Part("server", V("C12", lost.check), mixed("c12v", "kind", ["drop", "drop", "mix"]), kind="io", quick=(120, 30), thorough=(4000, 500)),
        Part("waiting", lost.waiting_case, seeded("c12w"), kind="io", quick=(48, 15), thorough=(1000, 150)),
        proc_part("C12", "processes", ["crash", "crash", "chaos"], quick=(100, 25), thorough=(3000, 400), pskip=0),
    ],
    RUNS + PROCS + "Histories of the block bookkeeper with closing connections and timeouts. Non-trivial: distinct event "
    "sequence over more than one block.",
    [GEO, "clients that are gone are replaced", "a return sent right before the connection closes may be lost"],
    need=["lost_blocks", "losses_accounted", "action_leave", "action_ok_leave", "process_runs", "clients_lost_with_several_blocks",
          "gone_while_waiting"],
)
register(
    "C13",
    [
        Part("pool", pool.pool_case, seeded("c13p"), kind="io", quick=(300, 20), thorough=(10000, 300)),
        Part("tasks", pool.tasks_case, seeded("c13t"), kind="io", quick=(300, 20), thorough=(10000, 300)),
        Part("long", pool.tasks_case, seeded("c13l", long=True), kind="io", quick=(24, 20), thorough=(400, 150), watchdog=90),
        proc_part("C13", "processes", ["ok", "raise", "crash", "storm", "chaos"], quick=(100, 25), thorough=(3000, 400), pskip=0),
        Part("busy", busy.busy_case, mixed("c13b", "what", ["crash", "fail"]), kind="io", quick=(16, 20), thorough=(200, 150), watchdog=90),
    ],
    "random sequences of pool operations with real processes that crash, exit, raise, are killed and fail blocks, judged by "
    "the processes that exist. " + PROCS + "Non-trivial: distinct sequence.",
    ["workers that exit with code 0 are not replaced (documented)", "workers do not ignore SIGTERM"],
    need=["worker_sets_compared", "crashed_workers_replaced", "failing_workers_replaced", "foreign_failures", "reaps",
          "concurrent_settings", "process_runs", "replaced_in_busy_runs"],
)
register(
    "C14",
    [
        Part("raise", stop.raise_case, seeded("c14r"), kind="io", quick=(160, 25), thorough=(5000, 300)),
        proc_part("C14", "processes", ALL, quick=(60, 20)),
        proc_part("C14", "blockwise", ALL, how="run_blockwise", quick=(40, 20)),
        Part("busy", busy.busy_case, mixed("c14b", "what", ["raise"]), kind="io", quick=(8, 20), thorough=(100, 100), watchdog=90),
    ],
    PROCS + "Runs in which spawn functions (at once or after some blocks), init callbacks or observers raise exceptions of "
    "several kinds. After every run the process table is searched for processes of the run. Non-trivial: distinct run.",
    ["workers do not ignore SIGTERM"],
    need=["raised_spawn", "raised_callback", "raised_exit", "clients_released", "runs_without_leftovers", "busy_raise"],
)
register(
    "C15",
    [
        Part("round trip", ctx.context_case, seeded("c15c"), quick=(60, 10), thorough=(2000, 100)),
        Part("workers", ctx.worker_case, seeded("c15w"), kind="io", quick=(120, 15), thorough=(3000, 150)),
        Part("ids", ctx.ids_case, seeded("c15i"), kind="io", quick=(16, 20), thorough=(300, 150)),
        Part("commands", ctx.command_case, seeded("c15s"), kind="io", quick=(16, 20), thorough=(200, 150)),
    ],
    "random contexts (unicode, blanks, slashes, separators, empty values, numbers) through the environment, through pools of real worker "
    "processes and through workers that are commands of their own. Non-trivial: distinct context.",
    ["keys given to the constructor are identifiers, log directories contain no slashes at the end"],
    need=["round_trips", "round_trips_with_separators", "worker_contexts", "blocks_in_commands", "refused_values", "concurrent_ids"],
)
register(
    "C16",
    [
        Part("messages", tcp.tcp_case, seeded("c16"), kind="io", quick=(240, 35), thorough=(6000, 600)),
        Part("odd", tcp.odd_case, seeded("c16o"), kind="io", quick=(24, 15), thorough=(300, 100)),
        Part("burst", tcp.burst_case, seeded("c16b"), kind="io", quick=(16, 15), thorough=(300, 100)),
        Part("first", perturb.perturbed(tcp.first_case, ["tcp/io_looper.py"] * 3 + perturb.PLACES), seeded("c16f"), kind="io",
             quick=(64, 15), thorough=(1500, 200), watchdog=120),
    ],
    "bursts of up to 6000 messages to a receiver that is busy; up to 5 clients (threads or processes) with up to 3 sending threads each and answers from 2 server threads, message "
    "sizes 0 to 10 MB; clients disconnect, are killed or closed by the server; pairs of servers and clients that are made at the same time in a new process. Non-trivial: distinct order of arrival.",
    ["messages can be pickled and are smaller than the buffers of tornado (100 MB)", "no claim about messages in flight when a connection breaks"],
    need=["messages_to_server", "messages_to_clients", "ends_graceful", "ends_kill", "ends_abrupt", "ends_server", "large_messages", "first_messages", "burst_messages", "bursts_before_disconnect"],
)
register(
    "C18",
    [
        proc_part("C18", "blockwise", ["ok", "fail", "raise", "crash", "storm"], how="run_blockwise", quick=(160, 40), thorough=(4000, 500)),
        Part("serial", serial.blockwise_case, seeded("c18s"), quick=(300, 15), thorough=(8000, 200)),
        Part("layers", serial.layers_case, seeded("c18l"), quick=(24, 10), thorough=(400, 100), cpu_limit=60),
        Part("interrupt", lambda c: stop.interrupt_case(c, "C18"), mixed("c18i", "kind", ["ok", "fail"]), kind="io", quick=(40, 15), thorough=(600, 150)),
    ],
    SPECS + PROCS + "run_blockwise is called with any list (subsets, duplicates, any order) whose upstream closure is the task "
    "set. Non-trivial: distinct run over more than one block.",
    [GEO],
    need=["returned_True", "returned_False", "serial_blockwise_runs", "layers", "interrupted_False"],
)
register(
    "C19",
    [
        Part("serial", L("C19"), seeded("c19s"), quick=(500, 25), thorough=(20000, 400)),
        proc_part("C19", "processes", ["ok", "fail", "raise", "crash"], quick=(160, 40), thorough=(4000, 500)),
    ],
    SPECS + PROCS + "Attempts per block and final counts of serial and distributed runs are compared with what follows from "
    "the outcomes and the declared dependencies. Non-trivial: distinct run over more than one block.",
    [GEO, "the order declared within a task is daisy's own (checked by C04)"],
    need=["serial_runs", "process_runs", "outcomes_compared"],
)
register(
    "C22",
    [
        proc_part("C22", "processes", ["ok", "raise", "fail", "crash"], quick=(140, 35), thorough=(3000, 400), extra=procs.outputs, talk=True, pskip=0),
        Part("nowhere", procs.nolog_case, seeded("c22n"), kind="io", quick=(16, 15), thorough=(100, 60)),
    ],
    PROCS + "Workers print through print(), file descriptors and commands; log files are compared line by line. Non-trivial: "
    "distinct run over more than one block.",
    ["lines are complete and printed before the worker dies"],
    need=["lines_logged", "worker_logs", "unlogged_lines", "unlogged_inner_runs", "odd_log_directories"],
)
register(
    "C23",
    [
        Part("event", stop.stop_case, mixed("c23e", "kind", ["ok", "fail", "raise", "crash", "storm"]), kind="io", quick=(240, 30), thorough=(6000, 400)),
        Part("interrupt", stop.interrupt_case, mixed("c23i", "kind", ["ok", "fail", "crash"]), kind="io", quick=(100, 25), thorough=(2000, 300)),
        Part("busy", busy.busy_case, mixed("c23b", "what", ["stop", "interrupt"]), kind="io", quick=(16, 20), thorough=(200, 150), watchdog=90),
    ],
    "the stop event is set before, at a random time of, and after any number of begun blocks of runs with real processes; ^C is "
    "sent to the main process or to all processes. Non-trivial: distinct run that was cut short.",
    ["workers do not ignore SIGTERM", "a run that does not end within 45 s three times is stuck"],
    need=["stops", "interrupts", "interrupts_of_group", "interrupts_of_other_threads", "tasks_cut_short", "busy_stop", "busy_interrupt"],
)
register(
    "C24",
    [
        proc_part("C24", "server", ALL, quick=(100, 25), thorough=(2500, 300), extra=procs.summary),
        proc_part("C24", "blockwise", ["ok", "fail", "raise", "crash"], how="run_blockwise", quick=(60, 20), thorough=(1500, 200), extra=procs.summary),
        Part("serial", serial.summary_case, seeded("c24s"), quick=(120, 15), thorough=(3000, 100)),
        Part("many", procs.many_case, seeded("c24m"), kind="io", quick=(8, 20), thorough=(40, 100)),
    ],
    PROCS + "The printed summary is parsed and compared with the returned states and the exceptions that were raised. "
    "Non-trivial: distinct run over more than one block.",
    [],
    need=["summaries", "exceptions_listed", "serial_summaries", "long_lists"],
)
register(
    "C25",
    [
        Part("sequence", multi.sequence_case, seeded("c25s"), kind="io", quick=(32, 30), thorough=(600, 400), watchdog=150),
        Part("same", multi.same_case, seeded("c25r"), kind="io", quick=(24, 30), thorough=(400, 400), watchdog=150),
        Part("together", multi.together_case, seeded("c25t"), kind="io", quick=(24, 20), thorough=(400, 200), watchdog=100),
        Part("logging", multi.logging_case, seeded("c25l"), kind="io", quick=(24, 15), thorough=(300, 100), watchdog=90),
        Part("nested", multi.nested_case, seeded("c25n"), kind="io", quick=(16, 15), thorough=(200, 100), watchdog=90),
    ],
    "sequences of different runs in one process (distributed, serial, failing, stopped, the same tasks again), the same run many "
    "times, runs at the same time in several threads, runs inside of workers, and runs of a process that logs to terminals; each run is judged as if it was alone and, if it "
    "is not as expected, repeated alone. Non-trivial: distinct sequence of runs.",
    ["a run that is wrong alone as well is not counted", "inner runs are complete before their block ends"],
    need=["runs_like_alone", "surroundings_compared", "resources_compared", "runs_at_the_same_time", "messages_logged", "inner_runs"],
)
register(
    "C26",
    [
        Part("address", addr.address_case, seeded("c26a"), kind="io", quick=(160, 30), thorough=(4000, 300), watchdog=60),
        Part("ports", addr.nofree_case, seeded("c26p"), kind="io", quick=(60, 15), thorough=(1000, 100), watchdog=60),
        Part("runs", addr.run_case, seeded("c26r"), kind="io", quick=(60, 20), thorough=(1000, 200), watchdog=60),
    ],
    "servers in networks with and without a default route, whose address can not be bound, connected to, accepted from or read "
    "from, with busy ports and given hosts; clients connect to the announced address and exchange messages, complete runs with "
    "workers are executed. Non-trivial: distinct network.",
    ["the default route is what a UDP socket connected to a public address reports", "defects of a network hit all connections to the address"],
    need=["addresses_reached", "hosts_outside", "route_none", "route_usable", "route_broken", "busy_ports_passed", "no_free_port", "found_port_at_last", "runs_in_networks"],
)

# the same with delays between any two steps of daisy's own code
for prop, part, name, quick in [
    ("C03", "server", "delays", (32, 12)),
    ("C05", "server", "delays", (32, 12)),
    ("C06", "server", "delays", (40, 12)),
    ("C07", "server", "delays", (40, 12)),
    ("C09", "server", "delays", (32, 12)),
    ("C11", "clients", "delayed clients", (48, 12)),
    ("C11", "gone", "delays at the end", (96, 20)),
    ("C12", "server", "delays", (96, 20)),
    ("C13", "processes", "delays", (32, 12)),
    ("C13", "pool", "delayed pools", (48, 12)),
    ("C14", "raise", "delays", (40, 12)),
    ("C16", "messages", "delays", (80, 20)),
    ("C17", "server", "delays", (48, 15)),
    ("C18", "blockwise", "delays", (32, 12)),
    ("C19", "processes", "delays", (32, 12)),
    ("C23", "event", "delays", (48, 12)),
    ("C25", "together", "delays", (48, 20)),
]:
    found = [p for p in CHECKS[prop].parts if p.name == part]
    places = perturb.PLACES
    if prop == "C25":
        # what runs have in common
        places = perturb.PLACES + ["tcp/io_looper.py", "tcp"] * 4
    CHECKS[prop].parts.append(delayed(found[0], name, quick, places=places))
    CHECKS[prop].need = list(CHECKS[prop].need) + ["delays_inside_of_daisy"]
    if "delays inside" not in CHECKS[prop].rule:
        CHECKS[prop].rule += (
            " Part of the runs have delays inside of daisy's own code: before a random set of its "
            "instructions, so that other threads run in between."
        )
