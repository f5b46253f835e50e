"""Monitored runs of the serial server."""

import collections
import random
import threading

from . import gen, sched, srv
from .common import Stats, Violation


class _Hub:
    def __init__(self):
        self.lock = threading.RLock()
        self.events = []

    def server_event(self, what, key):
        self.events.append((what, key))

    def no_block(self, task_id, pending):
        pass

    def failed(self, key):
        pass


class SerialRun:
    def __init__(self, case, wanted):
        self.case = case
        self.wanted = set(wanted)
        rng = self.rng = random.Random(case["seed"])
        self.spec = case.get("spec") or gen.spec(
            rng, max_blocks=case.get("max_blocks", 40), max_tasks=4
        )
        self.st = Stats()
        # the result of a run follows from these
        also = {"C05", "C06", "C07", "C08", "C10"} if "C19" in wanted else set()
        self.mon = sched.Monitor(self.spec, self.wanted | also, self.st)
        # without a monitor in between, only results are judged
        self.plain = bool(also) and case["seed"] % 2 == 0
        self.hub = _Hub()
        self.notes = []
        self.processed = collections.Counter()
        self.pfail = case.get("pfail", rng.choice([0, 0, 0.1, 0.4, 0.8]))
        self.pskip = case.get("pskip", rng.choice([0, 0, 0.3, 0.8, 1.0]))
        # number of times a block fails before it succeeds
        self.fails = {}
        for k in sorted(self.mon.model.blocks, key=repr):
            self.fails[k] = rng.choice([1, 1, 2, 5]) if rng.random() < self.pfail else 0
        self.skips = {
            k: rng.random() < self.pskip
            for k in sorted(self.mon.model.blocks, key=repr)
        }

    def flag(self, tags, text):
        self.mon.flag(tags, text)

    def go(self):
        import daisy
        from daisy import BlockStatus
        from daisy.server_observer import ServerObserver

        ref = [self.mon]
        rng = self.rng
        inside = [0]

        def answer(mon, block):
            if self.skips[mon.model.key_of(block)]:
                return rng.choice([True, 1, "x"])
            return rng.choice([False, 0, None, sched.check_error(rng)])

        def process(tid):
            def f(block):
                key = self.mon.model.key_of(block)
                if not self.plain and self.mon.state.get(key) != sched.BUSY:
                    self.flag({"C06", "C19"}, f"{key} is processed while it is {self.mon.state.get(key)}")
                if inside[0]:
                    self.flag({"C03", "C19"}, "two blocks are processed at once")
                inside[0] += 1
                self.processed[key] += 1
                if self.processed[key] <= self.fails[key]:
                    block.status = BlockStatus.FAILED
                elif rng.random() < 0.3:
                    block.status = BlockStatus.SUCCESS
                inside[0] -= 1

            return f

        def plain_check(tid):
            return lambda block: self.skips[self.mon.model.key_of(block)]

        tasks = gen.build(
            self.spec,
            process=process,
            check=None if not self.pskip else plain_check if self.plain else sched.CheckFn(ref, answer),
        )
        rng.shuffle(tasks)
        if not self.pskip:
            self.skips = {k: False for k in self.skips}
        run = self

        class Obs(ServerObserver):
            def rec(self, *what):
                run.notes.append(what)

            def on_task_start(self, task_id, s):
                self.rec("start", task_id, srv.snapshot(s), run.view(task_id))

            def on_acquire_block(self, task_id, s):
                self.rec("acquire", task_id, srv.snapshot(s), run.view(task_id))

            def on_release_block(self, task_id, s):
                self.rec("release", task_id, srv.snapshot(s), run.view(task_id))

            def on_task_done(self, task_id, s):
                self.rec("done", task_id, srv.snapshot(s), run.view(task_id))

            def on_block_failure(self, block, exception, context):
                self.rec("failure", block.task_id)

            def on_server_exit(self):
                self.rec("exit", None)

        st = self.st
        class Other(Obs):
            def __init__(self, server):
                self.trace = []
                super().__init__(server)

            def rec(self, *what):
                self.trace.append(what)

        server = daisy.SerialServer()
        gone = self.gone_observer = Other(server)
        self.other_observers = [Other(server)]
        Obs(server)
        self.other_observers += [Other(server), Other(server)]
        server.unregister_observer(gone)
        cls = srv.make_scheduler_class(daisy)
        try:
            if self.plain:
                self.mon.attach(None)
                states = server.run_blockwise(tasks)
                st.add("plain_runs")
            else:
                states = server.run_blockwise(tasks, scheduler=cls(tasks, self.mon, self.hub))
                self.mon.check_final()
            self.check_result(states)
        except sched.Foreign as e:
            st.add("runs_abandoned")
            st.sample({"abandoned": str(e)[:200]})
            return None
        self.states = states
        st.add("serial_runs")
        if len(self.mon.model.blocks) > 1:
            st.see("serial", gen.describe(self.spec), tuple(map(str, self.hub.events)))
        st.sample(
            {"tasks": gen.describe(self.spec), "events": [str(e) for e in self.hub.events[:8]]},
            cap=1,
        )
        return self

    def view(self, tid):
        return dict(self.mon.count[tid])

    def check_result(self, states):
        """Final counts follow from the outcomes alone."""
        exp = predict(self.mon, self.fails, self.skips)
        for tid in self.mon.model.tasks:
            s = states[tid]
            got = (
                int(s.completed_count),
                int(s.skipped_count),
                int(s.failed_count),
                int(s.orphaned_count),
                int(s.total_block_count),
            )
            if got != exp[tid]:
                self.flag({"C19"}, f"task {tid}: (completed, skipped, failed, orphaned, total) is {got}, should be {exp[tid]}")
        for k, n in exp["attempts"].items():
            if self.processed[k] != n:
                self.flag({"C19", "C06"}, f"block {k} is processed {self.processed[k]} times, should be {n}")
        self.st.add("outcomes_compared", len(exp["attempts"]))


def predict(mon, fails, skips):
    """Final outcome of every block from the declared dependencies and the
    number of times each block fails, by recursion over the dependencies."""
    memo = {}
    order = []
    missing = {k: len(u) for k, u in mon.ups.items()}
    todo = [k for k, n in missing.items() if not n]
    while todo:
        k = todo.pop()
        order.append(k)
        for d in mon.downs[k]:
            missing[d] -= 1
            if not missing[d]:
                todo.append(d)
    attempts = {}
    for k in order:
        t = mon.model.tasks[k[0]]
        if any(memo[u] not in ("done", "skipped") for u in mon.ups[k]):
            memo[k] = "orphaned"
            attempts[k] = 0
        elif skips.get(k):
            memo[k] = "skipped"
            attempts[k] = 0
        elif fails.get(k, 0) > t.max_retries:
            memo[k] = "failed"
            attempts[k] = t.max_retries + 1
        else:
            memo[k] = "done"
            attempts[k] = fails.get(k, 0) + 1
    out = {"attempts": attempts, "final": memo}
    for tid, t in mon.model.tasks.items():
        c = collections.Counter(v for k, v in memo.items() if k[0] == tid)
        out[tid] = (
            c["done"] + c["skipped"],
            c["skipped"],
            c["failed"],
            c["orphaned"],
            t.num_blocks(),
        )
    return out


def serial_case(case, wanted, extra=None):
    run = SerialRun(case, wanted)
    ok = run.go()
    if ok is not None and extra is not None:
        extra(run)
    return run.st


def blockwise_case(case):
    """daisy.run_blockwise(..., multiprocessing=False) on any list of tasks
    whose upstream closure is the set of tasks (C18)."""
    import contextlib
    import io

    import daisy
    from daisy import BlockStatus

    run = SerialRun(case, {"C18"})
    rng, st, mon = run.rng, run.st, run.mon
    mon.attach(None)

    def process(tid):
        def f(block):
            key = mon.model.key_of(block)
            run.processed[key] += 1
            if run.processed[key] <= run.fails[key]:
                block.status = BlockStatus.FAILED

        return f

    names = {k for k, s in run.skips.items() if s}
    tasks = gen.build(
        run.spec,
        process=process,
        check=(lambda tid: (lambda b: mon.model.key_of(b) in names)) if names else None,
    )
    used = {u for t in run.spec["tasks"] for u in t["up"]}
    args = [t for t in tasks if t.task_id not in used or rng.random() < 0.4]
    if rng.random() < 0.4:
        args.append(rng.choice(args))
    rng.shuffle(args)
    before = list(args)
    ups = [list(t.upstream_tasks) for t in tasks]
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        result = daisy.run_blockwise(args, multiprocessing=False)
    if len(args) != len(before) or any(x is not y for x, y in zip(args, before)):
        raise Violation("run_blockwise changed the list of its caller")
    for t, u in zip(tasks, ups):
        if [id(x) for x in t.upstream_tasks] != [id(x) for x in u]:
            raise Violation(f"run_blockwise changed the upstream tasks of {t.task_id}")
    exp = predict(mon, run.fails, run.skips)
    for k, n in exp["attempts"].items():
        if run.processed[k] != n:
            raise Violation(f"block {k} is processed {run.processed[k]} times, should be {n}")
    if isinstance(result, bool):
        want = all(v in ("done", "skipped") for v in exp["final"].values())
        if result != want:
            raise Violation(f"run_blockwise returned {result}, all blocks succeeded: {want}")
    st.add("serial_blockwise_runs")
    st.add("tasks_found", len(tasks))
    if len(mon.model.blocks) > 1:
        st.see("sbw", gen.describe(run.spec), [t.task_id for t in args], sorted(run.processed.items(), key=repr))
    return st


def summary_case(case):
    """The summary printed after a serial run (C24)."""
    import contextlib
    import io

    import daisy
    from daisy.cl_monitor import CLMonitor

    from . import procs

    run = SerialRun(case, {"C24"})
    out = io.StringIO()
    made = []
    orig = daisy.SerialServer

    class Serv(orig):
        def __init__(self):
            super().__init__()
            made.append(CLMonitor(self))

    daisy.SerialServer = Serv
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            ok = run.go()
    finally:
        daisy.SerialServer = orig
    if ok is None:
        return run.st

    def flag(text):
        raise Violation(text)

    seen, listed = procs.parse_summary(out.getvalue(), flag)
    exp = predict(run.mon, run.fails, run.skips)
    exp = {t: exp[t] for t in run.mon.model.tasks}
    if seen != exp:
        raise Violation(f"summary says {seen}, truth is {exp}")
    if any(e for e, _ in listed.values()):
        raise Violation(f"summary lists exceptions: {listed}")
    run.st.add("serial_summaries", len(seen))
    return run.st


def layers_case(case):
    """Many layers of tasks, each depending on all tasks of the layer before;
    only the last layer (and a few others) are given (C18)."""
    import contextlib
    import io

    import daisy
    from daisy import Roi, Task

    rng = random.Random(case["seed"])
    st = Stats()
    width, depth = rng.choice([(2, 24), (3, 14), (4, 12)])
    n = rng.randint(1, 2)
    seen = collections.Counter()
    order = []

    def f(block):
        seen[(block.task_id, int(block.write_roi.offset[0]))] += 1
        order.append(block.task_id)

    layers = []
    for d in range(depth):
        ups = [t for t in layers[-1] if rng.random() < 0.9] if layers else []
        layers.append(
            [
                Task(
                    f"{d}.{i}", Roi((0,), (n,)), Roi((0,), (1,)), Roi((0,), (1,)), f,
                    upstream_tasks=rng.sample(ups, len(ups)), read_write_conflict=rng.random() < 0.5,
                )
                for i in range(width)
            ]
        )
    used = {u.task_id for l in layers for t in l for u in t.upstream_tasks}
    all_ = [t for l in layers for t in l]
    args = [t for t in all_ if t.task_id not in used or rng.random() < 0.1]
    rng.shuffle(args)
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        daisy.run_blockwise(args, multiprocessing=False)
    want = {(t.task_id, k): 1 for t in all_ for k in range(n)}
    if dict(seen) != want:
        diff = {k: seen.get(k, 0) for k in set(want) | set(seen) if seen.get(k, 0) != want.get(k, 0)}
        raise Violation(f"{depth} layers of {width} tasks: blocks are processed this often: {list(diff.items())[:5]}")
    st.add("layers", depth)
    st.add("tasks_found", len(all_))
    st.see("layers", width, depth, n, [t.task_id for t in args])
    return st
