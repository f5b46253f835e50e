"""Worker pools with real processes (C13).

Workers report their process and worker id to a log file and obey commands
given through files.  The pool is judged by the processes that exist, not by
its own books."""

import collections
import os
import random
import shutil
import signal
import tempfile
import threading
import time

from . import common, procs
from .common import Inconclusive, Stats, Violation


class Obey:
    """Spawn function: log who I am, then do as told."""

    def __init__(self, where, tid="pool"):
        self.where = where
        self.tid = tid

    def __call__(self):
        import daisy

        wid = int(daisy.Context.from_env()["worker_id"])
        cmd = os.path.join(self.where, f"cmd.{wid}")
        if wid % 3 == 0:
            # cleans up when it is terminated
            signal.signal(signal.SIGTERM, procs.die_slowly)
        procs.log_event(
            os.path.join(self.where, "log"), "up", time.monotonic_ns(), os.getpid(), wid, self.tid
        )
        while True:
            if os.path.exists(cmd):
                what = open(cmd).read()
                if what == "exit0":
                    os._exit(0)
                if what == "return":
                    return
                if what == "exit3":
                    os._exit(3)
                if what == "raise":
                    raise procs.Boom(f"planned {wid}")
                if what == "sysexit":
                    raise SystemExit(4)
                if what == "kill":
                    os.kill(os.getpid(), signal.SIGKILL)
            time.sleep(0.005)


def alive(pid):
    try:
        with open(f"/proc/{pid}/stat") as f:
            s = f.read()
        return s[s.rindex(")") + 2] not in "ZX"
    except OSError:
        return False


class World:
    def __init__(self, case):
        self.rng = random.Random(case["seed"])
        self.dir = tempfile.mkdtemp(dir=common.SCRATCH or None)
        self.st = Stats()
        self.log = []

    def ups(self, tid=None):
        out = []
        for e in procs.read_events(os.path.join(self.dir, "log")):
            if tid is None or e[4] == tid:
                out.append((e[3], e[2]))
        return out

    def expect(self, n, what, tid=None, limit=30):
        """Wait until n workers have reported in total; more is a violation."""
        t = time.monotonic()
        while True:
            u = self.ups(tid)
            if len(u) > n:
                raise Violation(f"{what}: {len(u)} workers were started, expected {n} | {self.log[-8:]}")
            if len(u) == n:
                ids = [w for w, _ in u]
                if len(set(ids)) != len(ids):
                    raise Violation(f"{what}: worker ids are not unique: {ids}")
                if len({p for _, p in u}) != len(u):
                    raise Violation(f"{what}: two workers share a process: {u}")
                return dict(u)
            if time.monotonic() - t > limit:
                raise Inconclusive(f"{what}: only {len(u)} of {n} workers were started | {self.log[-8:]}")
            time.sleep(0.004)

    def tell(self, wid, what, pid):
        self.log.append(("tell", wid, what))
        tmp = os.path.join(self.dir, f"tmp.{wid}")
        with open(tmp, "w") as f:
            f.write(what)
        os.rename(tmp, os.path.join(self.dir, f"cmd.{wid}"))
        t = time.monotonic()
        while alive(pid):
            if time.monotonic() - t > 30:
                raise Inconclusive(f"worker {wid} does not obey")
            time.sleep(0.003)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def check_alive(w, pids, want, what):
    got = sorted(k for k, p in pids.items() if alive(p))
    if got != sorted(want):
        raise Violation(f"{what}: workers alive {got}, expected {sorted(want)} | {w.log[-8:]}")
    w.st.add("worker_sets_compared")


def pool_case(case):
    import daisy
    from daisy.worker_pool import WorkerPool

    w = World(case)
    rng, st = w.rng, w.st
    pool = None
    try:
        context = daisy.Context(hostname="h", port=1, task_id="pool")
        pool = WorkerPool(Obey(w.dir), context)
        slots = []  # ids of workers that count, oldest first
        gone = set()  # of these: exited normally
        dead = set()  # of these: crashed, not yet reaped
        total = 0
        errors = 0
        pids = {}
        order = []
        for _ in range(rng.randint(6, 14)):
            op = rng.choice(["set", "set", "set", "die", "die", "reap", "stop", "inc", "threads"])
            live = [i for i in slots if i not in gone and i not in dead]
            if op in ("set", "inc", "stop", "threads") and dead:
                op = "reap"
            if op == "set":
                n = rng.choice([0, 1, 2, 3, 4, len(slots)])
                w.log.append(("set", n))
                pool.set_num_workers(n)
                if n > len(slots):
                    total += n - len(slots)
                    new = w.expect(total, f"set_num_workers({n})")
                    slots += sorted(set(new) - set(pids))
                    pids = new
                else:
                    slots = slots[:n]
                gone &= set(slots)
            elif op == "inc":
                n = rng.randint(1, 2)
                if len(slots) > 4:
                    continue
                w.log.append(("inc", n))
                pool.inc_num_workers(n)
                total += n
                new = w.expect(total, f"inc_num_workers({n})")
                slots += sorted(set(new) - set(pids))
                pids = new
            elif op == "stop" and slots:
                i = rng.choice(slots + [10**6])
                w.log.append(("stop", i))
                pool.stop(i)
                if i in slots:
                    slots.remove(i)
                    gone.discard(i)
            elif op == "die" and live:
                i = rng.choice(live)
                how = rng.choice(["exit0", "return", "exit3", "raise", "sysexit", "kill", "SIGTERM", "SIGKILL"])
                if how.startswith("SIG"):
                    w.log.append((how, i))
                    os.kill(pids[i], getattr(signal, how))
                    t = time.monotonic()
                    while alive(pids[i]):
                        if time.monotonic() - t > 30:
                            raise Inconclusive("worker survives signal")
                        time.sleep(0.003)
                else:
                    w.tell(i, how, pids[i])
                # exceptions are reported instead of counted
                if how == "raise":
                    errors += 1
                (gone if how in ("exit0", "return", "raise") else dead).add(i)
                st.add(f"died_{how}")
            elif op == "reap":
                n = pool.reap_dead_workers()
                w.log.append(("reap", n))
                if n != len(dead):
                    raise Violation(f"reap_dead_workers() is {n}, {len(dead)} workers crashed | {w.log[-8:]}")
                slots = [i for i in slots if i not in dead]
                dead = set()
                n = pool.reap_dead_workers()
                if n:
                    raise Violation(f"{n} crashed workers are counted twice | {w.log[-8:]}")
                st.add("reaps")
            elif op == "threads":
                # concurrent callers
                pool.set_num_workers(0)
                ns = [rng.randint(0, 3) for _ in range(3)]
                w.log.append(("threads", ns))
                gate = threading.Barrier(len(ns))
                wrong = []

                def call(n):
                    gate.wait()
                    try:
                        pool.set_num_workers(n)
                    except Exception as e:
                        wrong.append(e)

                ths = [threading.Thread(target=call, args=(n,)) for n in ns]
                for t in ths:
                    t.start()
                for t in ths:
                    t.join()
                left = procs.session_processes()
                if wrong:
                    raise Violation(f"set_num_workers {ns} in parallel raised {wrong[0]!r}")
                if len(left) not in ns:
                    raise Violation(f"set_num_workers {ns} in parallel leaves {len(left)} workers")
                # whoever was last: bring it to a known number
                pool.set_num_workers(0)
                left = procs.session_processes()
                if left:
                    raise Violation(f"processes {left} survive set_num_workers(0) after {ns} in parallel")
                slots, gone = [], set()
                # workers may have been stopped before they reported
                os.rename(os.path.join(w.dir, "log"), os.path.join(w.dir, "old")) if os.path.exists(
                    os.path.join(w.dir, "log")
                ) else None
                total = 0
                pids = {}
                st.add("concurrent_settings")
            st.add(f"op_{op}")
            order.append(op)
            # stopped means: not alive any more when the call returns
            check_alive(w, pids, [i for i in slots if i not in gone and i not in dead], str(w.log[-1:]))
        # exceptions of workers are raised, each once
        got = 0
        t = time.monotonic()
        while True:
            try:
                pool.check_for_errors()
                if got >= errors:
                    break
                if time.monotonic() - t > 20:
                    raise Violation(f"{errors} workers raised, {got} exceptions are reported | {w.log[-8:]}")
                time.sleep(0.01)
            except procs.Boom as e:
                got += 1
                if not str(e).startswith("planned "):
                    raise Violation(f"wrong exception {e!r}")
                if got > errors:
                    raise Violation(f"{errors} workers raised, {got} exceptions are reported")
        st.add("worker_exceptions", got)
        pool.stop()
        left = procs.session_processes()
        if left:
            raise Violation(f"processes {left} survive stop() | {w.log[-8:]}")
        st.see("pool", w.log)
        st.sample({"operations": [str(x) for x in w.log[:14]]}, cap=1)
        return st
    finally:
        if pool is not None:
            try:
                pool.stop()
            except Exception:
                pass
        w.close()


def tasks_case(case):
    """Pools of several tasks, health checks and failing workers."""
    import daisy
    from daisy import Roi, Task
    from daisy.server_observer import ServerObservee
    from daisy.task_worker_pools import TaskWorkerPools

    w = World(case)
    rng, st = w.rng, w.st

    class Fake(ServerObservee):
        hostname, port = "127.0.0.1", 1

    server = Fake()
    names = ["A", "B", "C"][: rng.randint(1, 3)]
    roi = Roi((0,), (4,))
    tasks = {
        n: Task(n, roi, roi, roi, Obey(w.dir, n), num_workers=rng.randint(1, 3)) for n in names
    }
    limit = rng.choice([None, 0, 1, 3])
    kw = {} if limit is None else {"max_block_failures": limit}
    limit = 3 if limit is None else limit
    pools = TaskWorkerPools(list(tasks.values()), server, **kw)
    try:
        slots = {n: [] for n in names}
        gone = {n: set() for n in names}
        pids = {n: {} for n in names}
        total = collections.Counter()
        counts = collections.Counter()

        def update(n, what):
            new = w.expect(total[n], what, n)
            slots[n] += sorted(set(new) - set(pids[n]))
            pids[n] = new

        def block(n):
            t = tasks[n]
            return daisy.Block(t.total_roi, t.read_roi, t.write_roi, task_id=n)

        ops = ["recruit", "recruit", "die", "die", "fail", "fail", "foreign", "other"]
        steps = rng.randint(6, 14)
        if case.get("long"):
            # workers that die again and again
            steps, ops = 90, rng.choice([["recruit", "die", "die", "die"], ["recruit", "fail", "fail", "fail"], ops])
        for _ in range(steps):
            n = rng.choice(names)
            op = rng.choice(ops)
            live = [i for i in slots[n] if i not in gone[n]]
            if op == "recruit":
                chosen = {m: tasks[m] for m in names if m == n or rng.random() < 0.3}
                w.log.append(("recruit", sorted(chosen)))
                pools.recruit_workers(chosen)
                for m in chosen:
                    want = tasks[m].num_workers
                    total[m] += max(0, want - len(slots[m]))
                    update(m, "recruit_workers")
            elif op == "die" and live:
                crashed = 0
                for i in rng.sample(live, rng.randint(1, len(live))):
                    how = rng.choice((["exit0", "return"] if not case.get("long") else []) + ["exit3", "kill", "sysexit"])
                    w.tell(i, how, pids[n][i])
                    st.add(f"died_{how}")
                    if how in ("exit0", "return"):
                        gone[n].add(i)
                    else:
                        crashed += 1
                        slots[n].remove(i)
                pools.check_worker_health()
                w.log.append(("health",))
                total[n] += crashed
                update(n, f"check_worker_health after {crashed} crashes")
                st.add("crashed_workers_replaced", crashed)
            elif op == "fail" and live:
                i = rng.choice(live)
                k = rng.randint(1, limit + 2)
                for _ in range(k):
                    if i not in slots[n]:
                        break
                    w.log.append(("failure", n, i))
                    server.notify_block_failure(
                        block(n), ValueError("x"),
                        daisy.Context(hostname="h", port=1, task_id=n, worker_id=rng.choice([i, str(i)])),
                    )
                    counts[(n, i)] += 1
                    if counts[(n, i)] > limit:
                        # replaced by another worker
                        slots[n].remove(i)
                        total[n] += 1
                        st.add("failing_workers_replaced")
                    update(n, f"failure {counts[(n, i)]} of worker {i} (limit {limit})")
                    check_alive(w, pids[n], [j for j in slots[n] if j not in gone[n]], "after a failure")
            elif op == "foreign":
                # failures of clients that are no workers of the pool
                for _ in range(limit + 2):
                    server.notify_block_failure(
                        block(n), ValueError("x"),
                        daisy.Context(hostname="h", port=1, task_id=n, worker_id=10**7),
                    )
                w.log.append(("foreign failures", n))
                time.sleep(0.02)
                update(n, "failures from outside")
                st.add("foreign_failures")
            elif op == "other":
                pools.check_worker_health()
                update(n, "health check")
            for m in names:
                check_alive(w, pids[m], [j for j in slots[m] if j not in gone[m]], f"task {m} after {op}")
            st.add(f"pools_{op}")
        pools.stop()
        left = procs.session_processes()
        if left:
            raise Violation(f"processes {left} survive stop() | {w.log[-8:]}")
        st.see("pools", w.log)
        st.sample({"operations": [str(x) for x in w.log[:14]]}, cap=1)
        return st
    finally:
        try:
            pools.stop()
        except Exception:
            pass
        w.close()
