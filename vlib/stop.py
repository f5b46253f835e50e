"""Ends of runs: exceptions, stop events, interrupts (C14, C23)."""

import collections
import os
import random
import shutil
import signal
import sys
import threading
import time

from . import common, gen, procs, sched
from .clients import Keeps, LocksUp, NeedsArgs
from .common import Inconclusive, Stats, Violation


class RaisingSpawn:
    """Spawn function that raises: at once, or after some blocks."""

    def __init__(self, make, after, work):
        self.make = make
        self.after = after
        self.work = work

    def __call__(self):
        import daisy

        if self.after == 0:
            raise self.make()
        client = daisy.Client()
        n = 0
        while True:
            with client.acquire_block() as block:
                if block is None:
                    break
                self.work(block)
            n += 1
            if n >= self.after:
                raise self.make()
        raise self.make()


def make_value():
    return ValueError("spawn", 7)


def make_keeps():
    return Keeps("spawn")


def make_needs():
    return NeedsArgs("spawn", 2)


def make_locks():
    return LocksUp()


def make_local():
    class Local(Exception):
        pass

    return Local("spawn")


def builtin(i):
    """Exceptions that something on the way might handle by mistake."""
    import queue

    from daisy.tcp.exceptions import NotConnected, StreamClosedError

    return [
        lambda: OSError(5, "spawn"),
        lambda: FileNotFoundError(2, "spawn", "/nowhere"),
        lambda: queue.Empty("spawn"),
        lambda: queue.Full("spawn"),
        lambda: EOFError("spawn"),
        lambda: TimeoutError("spawn"),
        lambda: ConnectionResetError(104, "spawn"),
        lambda: BrokenPipeError(32, "spawn"),
        lambda: StopIteration("spawn"),
        lambda: AssertionError("spawn"),
        lambda: KeyError("spawn"),
        lambda: AttributeError("spawn"),
        lambda: RuntimeError(),
        lambda: StreamClosedError("127.0.0.1", 7),
        lambda: NotConnected("spawn"),
        lambda: MemoryError("spawn"),
    ][i]()


class Builtin:
    def __init__(self, i):
        self.i = i
        self.__name__ = f"builtin{i}"

    def __call__(self):
        return builtin(self.i)


CALLBACK = [None]


def run_callback(context):
    """Init callback; tasks are sent to workers, so it must not hold on to
    anything itself."""
    if CALLBACK[0] is not None:
        CALLBACK[0](context)


MAKERS = [make_value, make_keeps, make_needs, make_locks, make_local]


class Stop(procs.ProcRun):
    """A run that does not get to its end."""

    def start(self, daisy, tasks, stop_event=None, body=None):
        out = self.out = {}
        self.done = threading.Event()

        def main():
            try:
                if body is not None:
                    out["returned"] = body()
                else:
                    server = self.server = daisy.Server(stop_event=stop_event, host="127.0.0.1")
                    self.exits = []
                    watch_exit(server, self.exits)
                    out["states"] = server.run_blockwise(tasks)
            except BaseException as e:
                out["error"] = e
            finally:
                out["t"] = time.monotonic_ns()
                out["left"] = procs.session_processes()
                self.done.set()

        self.thread = threading.Thread(target=main, daemon=True)
        self.thread.start()

    def wait_events(self, n, limit=20):
        t0 = time.monotonic()
        while len([e for e in procs.read_events(self.log) if e[0] == "begin"]) < n:
            if self.done.is_set() or time.monotonic() - t0 > limit:
                return
            time.sleep(0.005)

    def after(self, prop):
        if self.out["left"]:
            raise Violation(f"processes {self.out['left']} are alive after the run ended")
        time.sleep(0.05)
        for e in procs.read_events(self.log):
            if e[1] > self.out["t"]:
                raise Violation(f"a worker still works after the run ended: {e}")
        self.st.add("ends_without_leftovers")


def watch_exit(server, exits):
    from daisy.server_observer import ServerObserver

    class Obs(ServerObserver):
        def on_server_exit(self):
            exits.append(1)

    return Obs(server)


def external_client(daisy, server, tid, out, idle=None):
    """A client that is no worker of the run, waiting for a block (an idle one
    asks for its first only when told to)."""

    def go():
        try:
            c = daisy.Client(
                daisy.Context(hostname=server.hostname, port=server.port, task_id=tid, worker_id=12345)
            )
            out["connected"] = True
            if idle is not None:
                idle.wait(120)
            while True:
                with c.acquire_block() as b:
                    if b is None:
                        out["end"] = "none"
                        return
                    time.sleep(0.01)
        except Exception as e:
            out["end"] = repr(e)

    th = threading.Thread(target=go, daemon=True)
    th.start()
    return th


def raise_case(case):
    """Exceptions outside of blocks end the run, and are what it raises."""
    import daisy

    rng = random.Random(case["seed"])
    run = Stop(dict(case, kind="ok", pskip=0), {"C14"})
    st = run.st
    try:
        daisy.logging.set_log_basedir(os.path.join(run.dir, "logs"))
        maker = rng.choice(MAKERS) if rng.random() < 0.4 else Builtin(rng.randrange(16))
        what = rng.choice(["spawn", "spawn", "spawn", "callback", "observer", "exit"])
        specs = [t for t in run.spec["tasks"] if run.model.tasks[t["id"]].num_blocks() > 0]
        roots = [t for t in specs if not any(run.model.inter_up(k) for k in run.model.blocks if k[0] == t["id"])]
        if not roots:
            return st
        bad = rng.choice(roots)["id"]
        after = rng.choice([0, 0, 1, 2])
        e = maker()

        def process(tid):
            w = procs.Work(tid, run.cfg)
            if what == "spawn" and tid == bad:
                return RaisingSpawn(maker, after, w)
            return w

        ext = {}
        holder = {}

        idle = threading.Event()

        def callback(ctx):
            if what == "exit" and "th" not in holder:
                holder["th"] = external_client(daisy, run.server, bad, ext, idle)
                t0 = time.monotonic()
                while not ext.get("connected") and time.monotonic() - t0 < 10:
                    time.sleep(0.01)
            if what == "callback":
                if rng.random() < 0.7:
                    # a client that got to know the server before
                    holder["th"] = external_client(daisy, run.server, bad, ext)
                    t0 = time.monotonic()
                    while not ext.get("connected") and time.monotonic() - t0 < 10:
                        time.sleep(0.01)
                raise e

        CALLBACK[0] = callback
        for t in run.spec["tasks"]:
            if t["id"] == bad:
                t["init_callback_fn"] = run_callback
        tasks = gen.build(run.spec, process=process)
        for t in run.spec["tasks"]:
            t.pop("init_callback_fn", None)
        server = run.server = daisy.Server(host="127.0.0.1")
        exits = []
        watch_exit(server, exits)
        if what == "observer":
            from daisy.server_observer import ServerObserver

            def fail(self, task_id, s):
                raise e

            when = rng.choice(["on_task_start", "on_acquire_block", "on_release_block", "on_task_done"])
            type("Obs", (ServerObserver,), {when: fail})(server)
        if what == "exit":
            from daisy.server_observer import ServerObserver

            def fail_exit(self):
                raise e

            type("Obs", (ServerObserver,), {"on_server_exit": fail_exit})(server)
        convenient = what == "spawn" and rng.random() < 0.4

        def body():
            if convenient:
                exits.append(1)
                return daisy.run_blockwise(list(tasks))
            return server.run_blockwise(tasks)

        run.start(daisy, tasks, body=body)
        run.thread.join(60)
        if run.thread.is_alive():
            raise Inconclusive(f"run with an exception in {what} ({e!r}) does not end")
        err = run.out.get("error")
        if err is None:
            if what == "spawn" and after > 0:
                # others may have finished all blocks before
                states = run.out["returned"]
                if states is True or (states and all(s.is_done() for s in states.values())):
                    st.add("runs_finished_first")
                    run.after("C14")
                    return st
            raise Violation(f"{e!r} in {what} ({bad}, after {after} blocks) is not raised by run_blockwise")
        same = type(err) is type(e) and repr(err.args) == repr(e.args)
        if maker in (make_value, make_keeps) or isinstance(maker, Builtin) or what != "spawn":
            if not same:
                raise Violation(f"run_blockwise raised {err!r}, the exception was {e!r}")
        elif not same and type(e).__name__ not in repr(err):
            raise Violation(f"run_blockwise raised {err!r}, the exception was {e!r}")
        run.after("C14")
        idle.set()
        if "th" in holder:
            holder["th"].join(30)
            if holder["th"].is_alive():
                raise Inconclusive("a connected client waits for a run that is over")
            st.add("clients_released")
        if len(exits) != 1:
            raise Violation(f"observers are told about the end {len(exits)} times")
        st.add(f"raised_{what}")
        st.see("raise", what, maker.__name__, after, gen.describe(run.spec))
        st.sample({"where": what, "exception": repr(e), "after": after}, cap=1)
        return st
    finally:
        shutil.rmtree(run.dir, ignore_errors=True)


def consistent(run, st):
    """Counts after an early end."""
    ok = collections.Counter()
    seen = set()
    for e in procs.read_events(run.log):
        if e[0] == "ok":
            key = run.key_of[f"{e[4]}@{'_'.join(map(str, e[5]))}"]
            if key not in seen:
                seen.add(key)
                ok[key[0]] += 1
    for tid, t in run.model.tasks.items():
        s = run.out["states"][tid]
        n = t.num_blocks()
        vals = dict(
            total=int(s.total_block_count), completed=int(s.completed_count), skipped=int(s.skipped_count),
            failed=int(s.failed_count), orphaned=int(s.orphaned_count), processing=int(s.processing_count),
            ready=int(s.ready_count), pending=int(s.pending_count),
        )
        if min(vals.values()) < 0 or vals["total"] != n:
            raise Violation(f"task {tid} ends with {vals}, it has {n} blocks")
        if sum(vals[k] for k in ("completed", "failed", "orphaned", "processing", "ready", "pending")) != n:
            raise Violation(f"counts of task {tid} do not add up: {vals}")
        if vals["completed"] - vals["skipped"] > ok[tid]:
            raise Violation(f"task {tid} ends with {vals}, but workers succeeded only {ok[tid]} times")
        if s.is_done() != (vals["completed"] + vals["failed"] + vals["orphaned"] == n):
            raise Violation(f"task {tid} with {vals} says it is done: {s.is_done()}")
        if not s.is_done():
            st.add("tasks_cut_short")
        st.add("states_checked")


def stop_case(case):
    """stop_event at any time."""
    import daisy

    rng = random.Random(case["seed"])
    run = Stop(case, {"C23"})
    st = run.st
    try:
        daisy.logging.set_log_basedir(os.path.join(run.dir, "logs"))
        run.cfg["delay"] = rng.choice([0, 0.05, 0.2])
        if case["seed"] % 5 == 0:
            # blocks that take much longer than anybody wants to wait
            run.cfg["slow"] = set(run.key_of)
            run.cfg["slow_by"] = 300
            if case["seed"] % 2 == 0:
                run.cfg["slow_term"] = "very"
        tasks = run.tasks()
        stop = rng.choice([threading.Event, __import__("multiprocessing").Event])()
        when = rng.choice(["events", "events", "time", "before"])
        if when == "before":
            stop.set()
        run.start(daisy, tasks, stop_event=stop)
        if when == "events":
            long = run.cfg["slow_by"] > 100
            run.wait_events(1 if long else rng.randint(1, max(1, len(run.model.blocks))), 5 if long else 20)
        elif when == "time":
            time.sleep(rng.random() * 0.4)
        already = run.done.is_set()
        t0 = time.monotonic()
        stop.set()
        run.thread.join(25)
        if run.thread.is_alive():
            raise Inconclusive("the run does not end after its stop event was set")
        dt = time.monotonic() - t0
        if "error" in run.out:
            raise run.out["error"]
        run.after("C23")
        consistent(run, st)
        if len(run.exits) != 1:
            raise Violation(f"observers are told about the end {len(run.exits)} times")
        st.add("stops_after_end" if already else "stops")
        st.add(f"stopped_by_{when}")
        if run.cfg["slow_by"] > 100:
            st.add("stops_of_long_blocks")
        if not already:
            st.see("stop", when, gen.describe(run.spec), len(procs.read_events(run.log)))
        st.sample({"when": when, "seconds": round(dt, 2), "kind": run.kind}, cap=1)
        return st
    finally:
        shutil.rmtree(run.dir, ignore_errors=True)


class Outside:
    """Sends a signal from a process that is not part of the run, as terminals
    and users do.  (A signal sent by a thread of this process may be taken by
    that very thread, and the main thread sleeps on.)"""

    def __init__(self):
        r, self.w = os.pipe()
        target = os.getpid()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.setsid()
                os.close(self.w)
                for fd in range(3, 256):
                    if fd != r:
                        try:
                            os.close(fd)
                        except OSError:
                            pass
                what = os.read(r, 1)
                if what == b"g":
                    os.killpg(target, signal.SIGINT)
                elif what == b"p":
                    os.kill(target, signal.SIGINT)
            finally:
                os._exit(0)
        os.close(r)

    def send(self, group):
        os.write(self.w, b"g" if group else b"p")

    def close(self):
        os.close(self.w)
        os.waitpid(self.pid, 0)


def interrupt_case(case, prop="C23"):
    """^C during daisy.run_blockwise, in this process or in the whole group."""
    import daisy

    rng = random.Random(case["seed"])
    case = dict(case, max_blocks=30)
    run = Stop(case, {prop})
    st = run.st
    if threading.current_thread() is not threading.main_thread():
        raise Inconclusive("not in the main thread")
    try:
        daisy.logging.set_log_basedir(os.path.join(run.dir, "logs"))
        run.cfg["delay"] = 0.1
        run.cfg["slow"] = set(run.key_of)
        run.cfg["slow_by"] = 0.4
        tasks = run.tasks()
        group = rng.random() < 0.5
        elsewhere = not group and rng.random() < 0.4
        if elsewhere or rng.random() < 0.3:
            # these blocks do not end on their own
            run.cfg["slow_by"] = 300
        if not group and rng.random() < 0.25:
            # and these take their time to clean up
            run.cfg["slow_term"] = "very"
            st.add("interrupts_of_slow_workers")
        n = rng.randint(1, max(1, min(4, len(run.model.blocks))))
        if run.cfg["slow_by"] > 100:
            n = 1
        run.done = threading.Event()
        sent = []

        def interrupt():
            run.wait_events(n)
            with lock:
                if not run.done.is_set():
                    sent.append(time.monotonic())
                    if elsewhere:
                        # the kernel may choose any thread to receive a signal
                        signal.pthread_kill(threading.get_ident(), signal.SIGINT)
                    else:
                        outside.send(group)

        lock = threading.Lock()
        outside = Outside()
        signal.signal(signal.SIGINT, signal.default_int_handler)
        th = threading.Thread(target=interrupt, daemon=True)
        th.start()
        returned = "nothing"
        try:
            try:
                returned = daisy.run_blockwise(list(tasks))
            except KeyboardInterrupt:
                returned = "KeyboardInterrupt"
            signal.signal(signal.SIGINT, signal.SIG_IGN)
        except KeyboardInterrupt:
            # right after the end of the run
            signal.signal(signal.SIGINT, signal.SIG_IGN)
        with lock:
            run.done.set()
            outside.close()
        t = time.monotonic_ns()
        left = procs.session_processes()
        if left:
            raise Violation(f"processes {left} are alive after ^C ended the run")
        time.sleep(0.05)
        for e in procs.read_events(run.log):
            if e[1] > t:
                raise Violation(f"a worker still works after the run ended: {e}")
        if not sent:
            st.add("finished_before_interrupt")
            return st
        oks = {(e[4], tuple(e[5])) for e in procs.read_events(run.log) if e[0] == "ok"}
        skipped = sum(run.skips.values())
        if not isinstance(returned, bool) and len(oks) + skipped < len(run.model.blocks):
            raise Violation(f"run_blockwise returned {returned!r} after ^C")
        if returned is True and len(oks) + skipped < len(run.model.blocks):
            raise Violation(
                f"run_blockwise returned True after ^C, but only {len(oks)} of {len(run.model.blocks)} blocks succeeded"
            )
        st.add("interrupts_of_group" if group else "interrupts")
        if elsewhere:
            st.add("interrupts_of_other_threads")
        st.add(f"interrupted_{returned}")
        st.see("interrupt", group, n, gen.describe(run.spec))
        return st
    finally:
        signal.signal(signal.SIGINT, signal.SIG_IGN)
        shutil.rmtree(run.dir, ignore_errors=True)
