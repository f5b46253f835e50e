"""Runs that are never idle (C13, C14, C23).

The volumes have millions of small blocks, so that there is always a message from
a worker to be answered.  What has to happen to such a run (the stop event, ^C, a
worker that crashes, keeps failing or raises) must not wait for a pause."""

import mmap
import os
import random
import shutil
import signal
import struct
import tempfile
import threading
import time

from . import common, procs, stop
from .common import Inconclusive, Stats, Violation

SLOTS = 512
LIMIT = 25

# written by the workers (which are forked): the number of blocks each worker has
# processed; and by this process: what is to happen to which worker
# (each case makes its own)
COUNTS, ORDERS = [None], [None]
DIR = [None]


def get(m, slot):
    return struct.unpack_from("q", m[0], 8 * slot)[0]


def put(m, slot, value):
    struct.pack_into("q", m[0], 8 * slot, value)


def my_slot():
    import daisy

    return int(daisy.Context.from_env()["worker_id"]) % SLOTS


class Fail(Exception):
    pass


def work(block):
    slot = my_slot()
    n = get(COUNTS, slot)
    if n == 0:
        with open(os.path.join(DIR[0], f"w.{slot}"), "w") as f:
            f.write(str(os.getpid()))
    put(COUNTS, slot, n + 1)
    order = get(ORDERS, slot)
    if order == 1:
        os._exit(3)
    elif order == 2:
        os.kill(os.getpid(), signal.SIGKILL)
    elif order == 3:
        raise Fail("this worker keeps failing")


def spawned():
    """A worker with a loop of its own."""
    import daisy

    client = daisy.Client()
    slot = my_slot()
    while True:
        with client.acquire_block() as block:
            if block is None:
                return
            work(block)
        if get(ORDERS, slot) == 4:
            raise Fail("this worker raises")


def seen():
    """Workers that have processed blocks."""
    out = {}
    for name in os.listdir(DIR[0]):
        if name.startswith("w."):
            with open(os.path.join(DIR[0], name)) as f:
                text = f.read()
            if text:
                out[int(name[2:])] = int(text)
    return out


def progress():
    return sum(get(COUNTS, i) for i in range(SLOTS))


def wait(cond, what, limit=LIMIT, over=None):
    t0 = time.monotonic()
    while not cond():
        if time.monotonic() - t0 > limit:
            raise Inconclusive(what() if callable(what) else what)
        if over is not None and over.is_set():
            return False
        time.sleep(0.01)
    return True


def make_tasks(daisy, rng, raising, workers):
    from daisy import Coordinate, Roi, Task

    dims = rng.randint(1, 3)
    per = {1: 10**7, 2: 4000, 3: 250}[dims]
    w = Coordinate(rng.randint(1, 4) for _ in range(dims))
    conflict = rng.random() < 0.5
    ctx = Coordinate(rng.randint(0, 1) if conflict else 0 for _ in range(dims))
    read = Roi((0,) * dims, w).grow(ctx, ctx)
    write = Roi((0,) * dims, w)
    total = Roi((0,) * dims, w * per).grow(ctx, ctx)
    fn = spawned if raising or rng.random() < 0.3 else work
    a = Task("A", total, read, write, fn, num_workers=workers, max_retries=rng.choice([2, 50]))
    tasks = [a]
    if rng.random() < 0.4:
        tasks.append(
            Task("B", Roi((0,) * dims, w * per), write, write, spawned if raising else work, upstream_tasks=[a], num_workers=rng.randint(1, 2))
        )
    return tasks


def busy_case(case):
    import daisy

    rng = random.Random(case["seed"])
    st = Stats()
    what = case["what"]
    DIR[0] = where = tempfile.mkdtemp(dir=common.SCRATCH or None)
    COUNTS[0] = mmap.mmap(-1, 8 * SLOTS)
    ORDERS[0] = mmap.mmap(-1, 8 * SLOTS)
    try:
        daisy.logging.set_log_basedir(os.path.join(where, "logs"))
        os.makedirs(os.path.join(where, "logs"), exist_ok=True)
        workers = rng.randint(2, 5)
        tasks = make_tasks(daisy, rng, what == "raise", workers)
        if what == "interrupt":
            interrupted(daisy, rng, tasks, st)
        else:
            driven(daisy, rng, tasks, what, workers, st)
        n = progress()
        time.sleep(0.1)
        if progress() != n:
            raise Violation("blocks are processed after the run ended")
        st.add("blocks_of_busy_runs", n)
        st.add(f"busy_{what}")
        st.see("busy", what, workers, n)
        st.sample({"what": what, "workers": workers, "blocks": n}, cap=1)
        return st
    finally:
        signal.signal(signal.SIGINT, signal.SIG_IGN)
        shutil.rmtree(where, ignore_errors=True)


def over():
    left = procs.session_processes()
    if left:
        raise Violation(f"processes {left} are alive after a busy run ended")


def interrupted(daisy, rng, tasks, st):
    if threading.current_thread() is not threading.main_thread():
        raise Inconclusive("not in the main thread")
    group = rng.random() < 0.5
    n = rng.choice([1, 20, 300])
    outside = stop.Outside()
    done = threading.Event()
    sent = []

    def go():
        try:
            wait(lambda: progress() >= n, "", 60, done)
        except Inconclusive:
            pass
        sent.append(time.monotonic())
        outside.send(group)

    signal.signal(signal.SIGINT, signal.default_int_handler)
    th = threading.Thread(target=go, daemon=True)
    th.start()
    returned = "nothing"
    try:
        returned = daisy.run_blockwise(tasks)
    except KeyboardInterrupt:
        returned = "KeyboardInterrupt"
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    done.set()
    th.join(5)
    outside.close()
    over()
    if returned is not False:
        raise Violation(f"run_blockwise returned {returned!r} after ^C in a run of millions of blocks")
    if time.monotonic() - sent[0] > LIMIT:
        raise Inconclusive(f"^C took {time.monotonic() - sent[0]:.0f} s to end a busy run")


def driven(daisy, rng, tasks, what, workers, st):
    ev = threading.Event()
    server = daisy.Server(stop_event=ev, host="127.0.0.1")
    done = threading.Event()
    out = {}

    def main():
        try:
            out["states"] = server.run_blockwise(tasks)
        except BaseException as e:
            out["error"] = e
        finally:
            done.set()

    th = threading.Thread(target=main, daemon=True)
    th.start()
    if not wait(
        lambda: progress() >= 50 and len(seen()) >= workers, lambda: f"{seen()} of {workers} workers work", 60, done
    ):
        raise out.get("error") or Violation("a run of millions of blocks is over already")
    try:
        if what in ("crash", "fail"):
            first = seen()
            victim = rng.choice(sorted(first))
            order = rng.choice([1, 2]) if what == "crash" else 3
            put(ORDERS, victim, order)
            before = progress()

            def replaced():
                new = {s: p for s, p in seen().items() if s not in first}
                return new and not os.path.exists(f"/proc/{first[victim]}")

            wait(replaced, f"a worker that {what}s is not replaced while others are busy", LIMIT, done)
            if done.is_set():
                raise out.get("error") or Violation("a run of millions of blocks is over already")
            # exactly one new one; look twice, as it is in the making
            time.sleep(0.3)
            alive = [s for s, p in seen().items() if os.path.exists(f"/proc/{p}")]
            if len(alive) > len(first):
                raise Violation(f"{len(first)} workers became {len(alive)} after one of them {what}ed")
            if progress() <= before:
                raise Inconclusive("the others do not work")
            st.add("replaced_in_busy_runs")
        elif what == "raise":
            put(ORDERS, rng.choice(sorted(seen())), 4)
            if not done.wait(LIMIT):
                raise Inconclusive("an exception in a spawn function does not end a busy run")
            e = out.get("error")
            if not isinstance(e, Fail):
                raise Violation(f"a spawn function raised Fail, run_blockwise ended with {e!r}")
            over()
            return
        else:
            time.sleep(rng.choice([0, 0.1, 0.5]))
        ev.set()
        if not done.wait(LIMIT):
            raise Inconclusive("a busy run does not end after its stop event was set")
    finally:
        ev.set()
    if "error" in out:
        raise out["error"]
    over()
    n = sum(int(s.completed_count) for s in out["states"].values())
    if n > progress():
        raise Violation(f"{n} blocks count as completed, {progress()} were processed")
