"""Contexts on their way to workers (C15)."""

import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import textwrap
import time

from . import common, procs
from .common import Inconclusive, Stats, Violation

ALPHA = "abcXYZ019 _-./\\\"'$%&{}[](),;#~äßé日本€\t"


def word(rng, lo=0, hi=12, extra=""):
    return "".join(rng.choice(ALPHA + extra) for _ in range(rng.randint(lo, hi)))


def make(rng):
    """(kwargs, settings): values as the user gives them."""
    kw = {}
    if rng.random() < 0.8:
        kw.update(
            hostname=rng.choice(["127.0.0.1", "localhost", "node-3.cluster", "::1", "fe80::1%eth0"]),
            port=rng.choice([1, 80, 65535, rng.randint(1024, 60000)]),
            task_id=word(rng, 1, extra=":=%"),
        )
    for i in range(rng.randint(0, 3)):
        kw[f"k{i}"] = rng.choice([word(rng, extra="\n:="), "%41%3A:%", rng.randint(-9, 9), 2.5, None, True])
    sets = []
    for i in range(rng.randint(0, 4)):
        sets.append((rng.choice([word(rng, 1), "task_id", f"k{i}", "logdir", 7]), rng.choice([word(rng), i])))
    return kw, sets


def context_case(case):
    import daisy
    from daisy import Context

    rng = random.Random(case["seed"])
    st = Stats()
    before = dict(os.environ)
    for _ in range(case.get("n", 40)):
        kw, sets = make(rng)
        c = Context(**kw)
        want = {k: str(v) for k, v in kw.items()}
        want["logdir"] = str(daisy.logging.get_log_basedir())
        for k, v in sets:
            c[k] = v
            want[str(k)] = str(v)
        for bad in (":", "=", "a:b", "x=1"):
            for k, v in ((bad, "v"), ("fine", bad)):
                try:
                    c[k] = v
                except RuntimeError:
                    st.add("refused_values")
                else:
                    raise Violation(f"context accepts {k!r}={v!r}, which can not be passed on")
        for k, v in want.items():
            if str(c[k]) != v or str(c.get(k)) != v:
                raise Violation(f"context has {k!r}: {c[k]!r}, was set to {v!r}")
        if c.get("not there", 5) != 5 or c.get("not there") is not None:
            raise Violation("default of a missing value is not returned")
        d = c.copy()
        d["k0"] = "changed"
        d["more"] = "more"
        if c.get("k0") == "changed" and want.get("k0") != "changed" or c.get("more") is not None:
            raise Violation("changing a copy changes the original")
        if dict(os.environ) != before:
            raise Violation("creating and changing a context changes the environment of the process")
        os.environ[Context.ENV_VARIABLE] = c.to_env()
        try:
            back = Context.from_env()
        finally:
            del os.environ[Context.ENV_VARIABLE]
        for k, v in want.items():
            if back.get(k) != v:
                raise Violation(f"{k!r}={v!r} arrives as {back.get(k)!r} (environment {c.to_env()!r})")
        # passed on again, by a worker to a command
        os.environ[Context.ENV_VARIABLE] = back.copy().to_env()
        try:
            again = Context.from_env()
        finally:
            del os.environ[Context.ENV_VARIABLE]
        for k, v in want.items():
            if again.get(k) != v:
                raise Violation(f"{k!r}={v!r} arrives as {again.get(k)!r} when passed on twice")
        if any(":" in v or "=" in v for v in want.values()):
            st.add("round_trips_with_separators")
        st.add("round_trips")
        st.see("ctx", sorted(want.items()))
    try:
        Context.from_env()
        raise Violation("a context is read although there is none")
    except KeyError:
        pass
    if dict(os.environ) != before:
        raise Violation("the environment of the main process changed")
    st.sample({"context": {k: str(v) for k, v in kw.items()}}, cap=1)
    return st


class Report:
    """Spawn function: write down the context the worker sees."""

    def __init__(self, where, keys):
        self.where = where
        self.keys = keys

    def __call__(self):
        import daisy

        c = daisy.Context.from_env()
        path = os.path.join(self.where, f"{os.getpid()}")
        with open(path + ".tmp", "w") as f:
            json.dump(
                {
                    "values": {k: c.get(k) for k in self.keys},
                    "worker_id": c["worker_id"],
                    "logdir": c["logdir"],
                    "basedir": str(daisy.logging.get_log_basedir()),
                    "env": os.environ["DAISY_CONTEXT"],
                },
                f,
            )
        os.rename(path + ".tmp", path)
        time.sleep(60)


def worker_case(case):
    import daisy
    from daisy.worker_pool import WorkerPool

    rng = random.Random(case["seed"])
    st = Stats()
    where = tempfile.mkdtemp(dir=common.SCRATCH or None)
    logs = os.path.join(where, "logs" + word(rng, 0, 3, extra=":=%").replace("/", "_").replace("\\", "_"))
    daisy.logging.set_log_basedir(logs)
    outs = os.path.join(where, "out")
    os.mkdir(outs)
    kw, sets = make(rng)
    kw.pop("task_id", None)
    if rng.random() < 0.7:
        kw["task_id"] = "t" + word(rng, 0, 5, extra=":=%").replace("/", "_").replace("\\", "_").replace(".", "_")
    context = daisy.Context(**kw)
    elsewhere = None
    if rng.random() < 0.5:
        # these workers log somewhere else than this process would
        elsewhere = logs
        logs = os.path.join(where, "other", "logs" + word(rng, 0, 3).replace("/", "_").replace("\\", "_"))
        context["logdir"] = logs
    before_env = context.to_env()
    osenv = dict(os.environ)
    pools = []
    try:
        n = rng.randint(1, 4)
        two = rng.random() < 0.5
        p = WorkerPool(Report(outs, list(kw)), context)
        pools.append(p)
        p.set_num_workers(n)
        if two:
            # another pool sharing the context
            q = WorkerPool(Report(outs, list(kw)), context)
            pools.append(q)
            q.set_num_workers(2)
        total = n + (2 if two else 0)
        t0 = time.monotonic()
        while True:
            files = [f for f in os.listdir(outs) if not f.endswith(".tmp")]
            if len(files) >= total:
                break
            if time.monotonic() - t0 > 30:
                raise Inconclusive(f"{len(files)} of {total} workers reported")
            time.sleep(0.01)
        seen = [json.load(open(os.path.join(outs, f))) for f in files]
        ids = [s["worker_id"] for s in seen]
        if len(set(ids)) != len(ids):
            raise Violation(f"workers have the ids {ids}")
        for s in seen:
            for k, v in kw.items():
                if s["values"][k] != str(v):
                    raise Violation(f"{k!r}={v!r} arrives as {s['values'][k]!r} in the worker")
            if s["logdir"] != str(logs) or s["basedir"] != str(logs):
                raise Violation(f"log directory {logs} arrives as {s['logdir']} / {s['basedir']}")
            int(s["worker_id"])
            st.add("worker_contexts")
        for d, want in ((logs, True), (elsewhere, False)):
            files = [f for _, _, fs in os.walk(d) for f in fs] if d is not None else []
            if d is not None and bool(files) != want:
                raise Violation(f"logs of workers in {d}: {files}, their log directory is {logs}")
        if elsewhere is not None:
            st.add("other_log_directories")
            if str(daisy.logging.get_log_basedir()) != elsewhere:
                raise Violation("the log directory of the main process changed")
        if context.to_env() != before_env:
            raise Violation(f"the context of the pool changed from {before_env} to {context.to_env()}")
        if dict(os.environ) != osenv:
            raise Violation("the environment of the main process changed")
        st.see("worker", sorted(map(str, kw.items())), total)
        st.sample({"context": before_env, "workers": total}, cap=1)
        return st
    finally:
        for p in pools:
            p.stop()


class Idle:
    """A worker that notes its id and waits."""

    def __init__(self, out):
        self.out = out

    def __call__(self):
        import daisy

        wid = daisy.Context.from_env()["worker_id"]
        tmp = os.path.join(self.out, f"{os.getpid()}.tmp")
        with open(tmp, "w") as f:
            f.write(str(wid))
        os.rename(tmp, tmp[:-4])
        time.sleep(60)


def ids_case(case):
    """Workers started at the same time by several threads have different ids."""
    import sys
    import threading

    from daisy.worker import Worker
    from daisy.worker_pool import WorkerPool

    rng = random.Random(case["seed"])
    st = Stats()
    old = sys.getswitchinterval()
    out = tempfile.mkdtemp()
    pools = [WorkerPool(Idle(out)) for _ in range(4)]
    got = []
    gate = threading.Barrier(8)

    def recruit(pool):
        gate.wait()
        pool.set_num_workers(6)

    def ask():
        gate.wait()
        mine = [Worker.get_next_id() for _ in range(3000)]
        got.extend(mine)

    try:
        sys.setswitchinterval(1e-6)
        ths = [threading.Thread(target=recruit, args=(p,)) for p in pools]
        ths += [
            threading.Thread(target=ask if hasattr(Worker, "get_next_id") else gate.wait)
            for _ in range(4)
        ]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
        t0 = time.monotonic()
        while True:
            files = [f for f in os.listdir(out) if not f.endswith(".tmp")]
            if len(files) >= 24:
                break
            if time.monotonic() - t0 > 30:
                raise Inconclusive(f"{len(files)} of 24 workers noted their ids")
            time.sleep(0.01)
        ids = [int(open(os.path.join(out, f)).read()) for f in files]
        if len(ids) != 24:
            raise Violation(f"{len(ids)} workers in 4 pools of 6")
        allids = ids + got
        if len(set(allids)) != len(allids):
            raise Violation(f"{len(allids)} workers have {len(set(allids))} ids")
        st.add("concurrent_ids", len(allids))
        st.see("ids", case["seed"], sorted(ids))
    finally:
        sys.setswitchinterval(old)
        for p in pools:
            p.stop()
        shutil.rmtree(out, ignore_errors=True)
    return st


SCRIPT = textwrap.dedent(
    """
    import os, sys, json, logging
    sys.dont_write_bytecode = True
    sys.path.insert(0, sys.argv[1])
    logging.disable(50)
    import daisy
    client = daisy.Client()
    while True:
        with client.acquire_block() as block:
            if block is None:
                break
            fd = os.open(sys.argv[2], os.O_WRONLY | os.O_APPEND | os.O_CREAT)
            os.write(fd, (json.dumps([client.task_id, client.worker_id, block.task_id, int(block.block_id[1])]) + "\\n").encode())
            os.close(fd)
    """
)


class Launch:
    """Spawn function that starts the worker as a command."""

    def __init__(self, script, log, sub=True):
        self.script = script
        self.log = log

    def __call__(self):
        subprocess.run([sys.executable, self.script, common.REPO, self.log], check=True)


def command_case(case):
    """Workers that are commands of their own find their server and task."""
    import daisy
    from daisy import Roi, Task

    rng = random.Random(case["seed"])
    st = Stats()
    where = tempfile.mkdtemp(dir=common.SCRATCH or None)
    script = os.path.join(where, "w.py")
    open(script, "w").write(SCRIPT)
    log = os.path.join(where, "log")
    tasks = []
    n = rng.randint(1, 3)
    sizes = {}
    for i in range(n):
        tid = rng.choice([f"task {i}", f"a:{i}", f"step={i}", f"{i}%3A:=%"])
        sizes[tid] = rng.randint(1, 6)
        tasks.append(
            Task(
                tid, Roi((0,), (2 * sizes[tid],)), Roi((0,), (2,)), Roi((0,), (2,)),
                Launch(script, log), num_workers=rng.randint(1, 2), read_write_conflict=False,
            )
        )
    ok = daisy.run_blockwise(list(tasks))
    if ok is not True:
        raise Violation(f"run_blockwise returned {ok}")
    seen = {}
    for line in open(log):
        t, w, b, i = json.loads(line)
        if t != b:
            raise Violation(f"worker {w} of {t} got a block of {b}")
        seen.setdefault(t, []).append(i)
        st.add("blocks_in_commands")
    for tid, k in sizes.items():
        if len(seen.get(tid, [])) != k or len(set(seen[tid])) != k:
            raise Violation(f"task {tid}: blocks {seen.get(tid)} were processed, there are {k}")
    st.see("command", sizes, case["seed"])
    return st
