"""One entry per property: which workloads run, which monitors judge them."""

import os
import random

from vlib import common, graph, mass, notes, sched, serial, srv, wait
from vlib.common import SEED, TIER


def seeds(n, salt):
    rng = random.Random(f"{SEED}-{salt}")
    return [rng.randrange(1, 2**31) for _ in range(n)]


class Part:
    """A family of cases and the function that runs and judges one case."""

    def __init__(self, name, fn, cases, kind="cpu", quick=(100, 40), thorough=(2000, 600), **kw):
        self.name = name
        self.fn = fn
        self.cases = cases  # (n) -> list of cases
        self.kind = kind
        self.quick = quick
        self.thorough = thorough
        self.kw = kw

    def run(self):
        n, budget = self.quick if TIER == "quick" else self.thorough
        # surveys of many changed trees run fewer cases
        scale = float(os.environ.get("VERIF_SCALE", "1"))
        n, budget = max(2, round(n * scale)), max(4, budget * scale)
        cases = [dict(c, part=self.name) for c in self.cases(n)]
        runner = common.run_cpu_cases if self.kind == "cpu" else common.run_io_cases
        return runner(self.fn, cases, budget, **self.kw)


class Check:
    def __init__(self, prop, parts, rule, assumptions=(), need=(), level="exploration"):
        self.prop = prop
        self.parts = parts
        self.rule = rule
        self.assumptions = assumptions
        self.need = need
        self.level = level

    def run(self, t0):
        results = []
        for p in self.parts:
            r = p.run()
            results.append(r)
            if r.violations:
                break
        return common.finish(
            self.prop, results, self.rule, t0, level=self.level,
            assumptions=self.assumptions, need=self.need,
        )

    def replay(self, case, t0):
        for p in self.parts:
            if p.name == case.get("part"):
                runner = common.run_cpu_cases if p.kind == "cpu" else common.run_io_cases
                r = runner(p.fn, [case], 600, **p.kw)
                return common.finish(self.prop, [r], "replay", t0, level=self.level)
        raise SystemExit(f"no part {case.get('part')}")


def seeded(salt, **fixed):
    return lambda n: [dict(seed=s, **fixed) for s in seeds(n, salt)]


def mixed(salt, key, values, **fixed):
    return lambda n: [
        {"seed": s, key: values[i % len(values)], **fixed}
        for i, s in enumerate(seeds(n, salt))
    ]


def S(prop):
    """Scheduler histories judged for ``prop``."""
    return lambda case: sched.drive(case, {prop})


def V(prop, extra=None):
    return lambda case: srv.server_case(case, {prop}, extra)


def L(prop, extra=None):
    return lambda case: serial.serial_case(case, {prop}, extra)


CHECKS = {}


def register(prop, *a, **kw):
    CHECKS[prop] = Check(prop, *a, **kw)


SPECS = (
    "seeded random task sets: 1-4 tasks (chains, fan-in, fan-out, diamonds, independent), 1-4 "
    "dimensions, asymmetric contexts from 0 to more than the write size, all fits, total ROIs that are "
    "no multiple of the block, negative and large offsets, disjoint and partially overlapping upstream "
    "ROIs, tasks without blocks. "
)
HIST = (
    "scheduler histories: requests and returns in random order and width, outcomes random (success, "
    "failure, sticky failure, skipped by check_function), blocks optionally returned as pickled copies. "
)
RUNS = (
    "runs of the real Server over TCP with up to a dozen client threads that process, fail, drop the "
    "connection holding or awaiting a block, come back with stale returns, duplicate and forge returns. "
)
GEO = (
    "the geometric model of vlib/geom.py states the documented meaning of fit, context and total ROI"
)

register(
    "C01",
    [
        Part("tiling", graph.tiling, seeded("tiling"), quick=(420, 30), thorough=(20000, 600)),
        Part("far", lambda c: graph.far(c, {"C01"}), seeded("c01f", n=60), quick=(64, 15), thorough=(2000, 200)),
        Part("histories", S("C01"), mixed("c01", "mode", ["ok", "mixed"]), quick=(200, 20), thorough=(8000, 300)),
        Part("server", V("C01"), mixed("c01v", "kind", ["ok", "fail"]), kind="io", quick=(24, 20), thorough=(600, 200)),
    ],
    SPECS + "All blocks of four independent enumerations and of complete scheduler and server runs are "
    "compared with the model; non-trivial: a task geometry with more than one block, counted once.",
    [GEO, "read ROI contains write ROI"],
    need=["blocks_enumerated", "fit_valid", "fit_shrink", "fit_overhang", "far_counts"],
)
register(
    "C02",
    [
        Part("identity", graph.identity, seeded("identity"), quick=(320, 30), thorough=(16000, 600)),
        Part("far", lambda c: graph.far(c, {"C02"}), seeded("c02f"), quick=(64, 20), thorough=(2000, 200)),
        Part("elsewhere", graph.elsewhere, seeded("c02e"), kind="io", quick=(10, 15), thorough=(200, 150)),
        Part("histories", S("C02"), mixed("c02", "mode", ["mixed"]), quick=(100, 20), thorough=(3000, 200)),
        Part("server", V("C02"), mixed("c02v", "kind", ["ok", "mix"]), kind="io", quick=(24, 20), thorough=(400, 200)),
    ],
    SPECS + "Every block met anywhere (enumerations, neighbours, region queries, scheduler, wire, copies) "
    "must carry the id of its position; volumes of up to 2^40 blocks are looked at in places; non-trivial: task set with more than one block.",
    [GEO, "ids are exact for grids whose cantor numbers stay below 2^53"],
    need=["identities_compared", "copies_compared", "ids_in_new_processes", "far_blocks"],
)
register(
    "C03",
    [
        Part("histories", S("C03"), mixed("c03", "mode", ["ok", "ok", "fail", "mixed"]), quick=(900, 30), thorough=(40000, 600)),
        Part("server", V("C03"), mixed("c03v", "kind", ["ok", "fail", "drop", "mix"]), kind="io", quick=(80, 25), thorough=(3000, 400)),
    ],
    SPECS + HIST + RUNS + "At every hand-out the block is compared geometrically with everything in "
    "flight. Non-trivial: distinct event sequence over more than one block.",
    [GEO],
    need=["conflict_pairs_checked", "steps_with_parallel_blocks"],
)
register(
    "C04",
    [
        Part("dependencies", graph.dependencies, seeded("deps"), quick=(1600, 40), thorough=(80000, 700)),
        Part("far", lambda c: graph.far(c, {"C04"}), seeded("c04f"), quick=(64, 20), thorough=(2000, 200)),
    ],
    SPECS + "Every upstream/downstream list, root and region query is compared with the geometry; "
    "conflicting pairs must be ordered transitively; volumes of up to 2^40 blocks are looked at in places. Non-trivial: task set with more than one block.",
    [GEO],
    need=["inter_task_dependencies", "conflicting_pairs", "region_queries", "far_dependencies"],
)
register(
    "C05",
    [
        Part("histories", S("C05"), mixed("c05", "mode", ["ok", "fail", "mixed", "skipfail"]), quick=(900, 30), thorough=(40000, 600)),
        Part("server", V("C05"), mixed("c05v", "kind", ["ok", "fail", "drop", "mix"]), kind="io", quick=(80, 25), thorough=(3000, 400)),
        Part("serial", L("C05"), seeded("c05s"), quick=(160, 15), thorough=(4000, 200)),
    ],
    SPECS + HIST + RUNS + "At every hand-out all geometric upstream blocks and all declared predecessors "
    "must have succeeded. Non-trivial: distinct event sequence over more than one block.",
    [GEO],
    need=["dependencies_checked", "retries"],
)
register(
    "C06",
    [
        Part("histories", S("C06"), mixed("c06", "mode", ["fail", "fail", "mixed", "skipfail"]), quick=(600, 25), thorough=(30000, 500)),
        Part("server", V("C06"), mixed("c06v", "kind", ["fail", "forge", "forge", "mix", "drop"]), kind="io", quick=(140, 30), thorough=(5000, 600)),
        Part("serial", L("C06"), seeded("c06s"), quick=(120, 15), thorough=(4000, 200)),
    ],
    HIST + RUNS + "Hand-outs and accepted returns are matched one to one with what clients did. "
    "Non-trivial: distinct event sequence over more than one block.",
    [GEO, "a return that a client sends right before it closes its connection may be lost (at least once)"],
    need=["retries", "permanent_failures", "forged_returns", "clients_with_several_blocks"],
)
register(
    "C07",
    [
        Part("histories", S("C07"), mixed("c07", "mode", ["ok", "fail", "mixed", "skip"]), quick=(900, 30), thorough=(40000, 600)),
        Part("server", V("C07"), mixed("c07v", "kind", ["ok", "fail", "drop", "mix", "forge"]), kind="io", quick=(120, 30), thorough=(4000, 500)),
        Part("serial", L("C07"), seeded("c07s"), quick=(120, 15), thorough=(4000, 200)),
        Part("waiting", lambda c: wait.wait_case(c, {"C07"}), mixed("c07w", "kind", ["ok", "fail", "fail", "mix"]), kind="io", quick=(48, 30), thorough=(800, 300)),
    ],
    SPECS + HIST + RUNS + "A request must be answered with a block exactly if the reference has a ready "
    "one; runs must end with every block done, failed or orphaned. Non-trivial: distinct event sequence "
    "over more than one block.",
    [GEO, "clients that are gone are replaced (as the worker pool does)", "a run that does not end within 45 s three times is stuck"],
    need=["no_block_answers", "server_runs", "serial_runs", "quiet_points", "requests_rightly_waiting"],
)
register(
    "C08",
    [
        Part("histories", S("C08"), mixed("c08", "mode", ["fail", "fail", "skipfail", "mixed"]), quick=(1100, 35), thorough=(50000, 700)),
        Part("server", V("C08"), mixed("c08v", "kind", ["fail", "drop"]), kind="io", quick=(60, 20), thorough=(2000, 300)),
        Part("mass", mass.mass_case, seeded("c08m"), kind="io", quick=(8, 20), thorough=(100, 200)),
    ],
    SPECS + HIST + "After every permanent failure exactly the transitive dependents are given up. "
    "Non-trivial: distinct event sequence over more than one block.",
    [GEO],
    need=["orphans_by_failures", "permanent_failures", "orphans_of_one_failure"],
)
register(
    "C09",
    [
        Part("histories", S("C09"), mixed("c09", "mode", ["mixed", "fail", "skipfail", "ok"]), quick=(900, 30), thorough=(40000, 600)),
        Part("server", V("C09"), mixed("c09v", "kind", ["ok", "fail", "drop", "mix", "forge"]), kind="io", quick=(80, 25), thorough=(3000, 400)),
        Part("serial", L("C09"), seeded("c09s"), quick=(120, 15), thorough=(4000, 200)),
    ],
    SPECS + HIST + RUNS + "All counters of all tasks are compared with the reference after every "
    "operation. Non-trivial: distinct event sequence over more than one block.",
    [GEO],
    need=["state_comparisons", "orphans_by_failures", "blocks_skipped"],
)
register(
    "C10",
    [
        Part("histories", S("C10"), mixed("c10", "mode", ["skip", "skipfail"]), quick=(700, 30), thorough=(30000, 500)),
        Part("server", V("C10"), mixed("c10v", "kind", ["ok", "fail", "drop"], skip=True), kind="io", quick=(80, 25), thorough=(3000, 400)),
        Part("serial", L("C10"), seeded("c10s"), quick=(200, 15), thorough=(6000, 200)),
    ],
    SPECS + HIST + "check_function answers True, other true values, false values or raises; every answer "
    "is seen by the monitor. Non-trivial: distinct event sequence over more than one block.",
    [GEO],
    need=["blocks_skipped", "check_function_calls", "server_runs", "serial_runs"],
)
register(
    "C17",
    [
        Part("server", V("C17", notes.check), mixed("c17v", "kind", ["ok", "fail", "fail", "drop", "mix"]), kind="io", quick=(140, 30), thorough=(5000, 600)),
        Part("serial", L("C17", lambda r: notes.check(r, True)), seeded("c17s"), quick=(300, 20), thorough=(10000, 300)),
    ],
    RUNS + "All notifications of an observer and all init callbacks are recorded with the reference's "
    "counts at that moment and checked as a trace. Non-trivial: distinct event sequence over more than "
    "one block.",
    [GEO],
    need=["notifications", "failures_notified", "task_lifecycles"],
)
register(
    "C20",
    [Part("lazy", graph.laziness, seeded("lazy"), quick=(240, 40), thorough=(6000, 600), cpu_limit=60)],
    "identical request/return sequences on a small and on a volume with up to 10^9 blocks; the number of "
    "block objects created and of functions called is counted for every step. Non-trivial: every geometry.",
    ["upstream tasks write wherever downstream tasks read", "blocks are objects of daisy.Block"],
    need=["steps", "calls_counted"],
)
register(
    "C21",
    [Part("expansion", graph.expansion, seeded("expand"), quick=(4000, 20), thorough=(100000, 200))],
    "random ROIs and block geometries; non-trivial: the ROI is not aligned already.",
    [],
    need=["expansions"],
)
