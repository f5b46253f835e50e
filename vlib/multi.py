"""Several runs in one process (C26).

Each run is judged as if it was the only one (``procs.ProcRun``).  A run that
does not behave as expected is repeated alone in a new process: only if it is
right there, it was disturbed by the others.  What a run leaves in the process
(file descriptors, threads, children, objects of daisy, environment, signal
handlers, ...) is compared before and after, and over the number of runs."""

import collections
import gc
import json
import os
import random
import shutil
import signal
import subprocess
import sys
import threading
import time

from . import common, gen, procs, sched
from .common import Inconclusive, Stats, Violation

ALL = {f"C{n:02}" for n in range(1, 25)} - {"C24", "C22"}
HOW = ["run_blockwise", "run_blockwise", "server", "serial"]


class Run(procs.ProcRun):
    """One of several runs."""

    cached = None

    def tasks(self, spawn_ok=True):
        # the same task objects in every repetition
        if self.cached is None:
            self.cached = super().tasks(spawn_ok)
        return list(self.cached)

    def leftovers(self):
        if not self.case.get("together"):
            return super().leftovers()
        mine = {e[2] for e in procs.read_events(self.log) if e[0] == "begin"} - {os.getpid()}
        return [p for p in procs.session_processes() if p in mine]

    def once(self):
        """Run, judge and forget the run, the tasks may be used again."""
        shutil.rmtree(self.cfg["dir"], ignore_errors=True)
        os.mkdir(self.cfg["dir"])
        if os.path.exists(self.log):
            os.unlink(self.log)
        self.events, self.foreign = [], []
        self.go(self.case["how"])
        self.obs = None


def plan(rng, n=1, together=False):
    how = rng.choice(HOW)
    kind = rng.choice(["ok", "ok", "fail"] if how == "serial" else ["ok", "ok", "fail", "raise", "crash"])
    return {
        "seed": rng.getrandbits(31), "how": how, "kind": kind, "max_blocks": rng.choice([3, 6, 9]),
        "max_tasks": 2, "together": together, "limit": 40,
    }


ALONE = """
import json, os, sys
sys.path.insert(0, sys.argv[1])
os.setsid()
from vlib import common
common.quiet_daisy(sys.argv[2])
from vlib import multi
run = multi.Run(json.loads(sys.argv[3]), multi.ALL)
try:
    run.once()
    ok = True
except common.Violation as e:
    ok = False
except common.Inconclusive as e:
    ok = False
except BaseException:
    ok = False
with open(sys.argv[4], "w") as f:
    f.write("right" if ok else "wrong")
for p in multi.procs.session_processes():
    try:
        os.kill(p, 9)
    except OSError:
        pass
os._exit(0)
"""


def right_alone(case, times=2):
    """Is this run as expected if it is the only one of its process?"""
    case = dict(case, together=False)
    for k in range(times):
        where = os.path.join(common.SCRATCH, f"alone{os.getpid()}_{threading.get_ident()}_{k}")
        os.makedirs(where)
        verdict = os.path.join(where, "verdict")
        p = subprocess.Popen(
            [sys.executable, "-c", ALONE, common.VERIF, where, json.dumps(case), verdict],
            stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=where,
        )
        try:
            p.wait(60)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        ok = os.path.exists(verdict) and open(verdict).read() == "right"
        shutil.rmtree(where, ignore_errors=True)
        if not ok:
            return False
    return True


class Surroundings:
    """What a run has no business to change."""

    def __init__(self):
        self.state = self.look()

    @staticmethod
    def look():
        mask = os.umask(0)
        os.umask(mask)
        out = {
            "environment": dict(os.environ),
            "working directory": os.getcwd(),
            "umask": mask,
            "sys.stdout": id(sys.stdout),
            "sys.stderr": id(sys.stderr),
            "sys.excepthook": id(sys.excepthook),
            "threading.excepthook": id(threading.excepthook),
            "sys.path": list(sys.path),
        }
        for s in (signal.SIGINT, signal.SIGTERM, signal.SIGCHLD, signal.SIGHUP, signal.SIGUSR1, signal.SIGALRM):
            out[f"handler of signal {s.name}"] = repr(signal.getsignal(s))
        for fd in (0, 1, 2):
            st = os.fstat(fd)
            out[f"file descriptor {fd}"] = (st.st_dev, st.st_ino)
        return out

    def same(self, what):
        now = self.look()
        for k, v in self.state.items():
            if now[k] != v:
                raise Violation(f"{what} changed the {k} of the calling process from {v!r:.400} to {now[k]!r:.400}")


def resources():
    gc.collect()
    out = collections.Counter()
    for f in os.listdir("/proc/self/fd"):
        out["file descriptors"] += 1
    out["threads"] = len(os.listdir("/proc/self/task"))
    me = os.getpid()
    for d in os.listdir("/proc"):
        if d.isdigit():
            try:
                with open(f"/proc/{d}/stat") as f:
                    s = f.read()
            except OSError:
                continue
            if int(s[s.rindex(")") + 2 :].split()[1]) == me:
                out["children"] += 1
    for o in gc.get_objects():
        m = type(o).__module__
        if isinstance(m, str) and m.split(".")[0] == "daisy":
            out[f"{type(o).__name__} objects"] += 1
    return out


def settled(before, limit, patience=10):
    """Resources that grew by ``limit`` or more and stay so."""
    end = time.monotonic() + patience
    while True:
        now = resources()
        grown = {k: (before[k], n) for k, n in now.items() if n - before[k] >= limit}
        if not grown or time.monotonic() > end:
            return grown
        time.sleep(0.3)


def failing(rng):
    """A run that ends by an exception, returns what to call."""
    import daisy

    def boom():
        raise KeyError("planned")

    def bad(context):
        raise KeyError("planned")

    where = rng.choice(["spawn", "callback", "serial"])
    roi = daisy.Roi((0,), (2,))

    def ok(block):
        pass

    def raising(block):
        raise KeyError("planned")

    f = {"spawn": boom, "callback": ok, "serial": raising}[where]
    t = daisy.Task(
        "bad", daisy.Roi((0,), (6,)), roi, roi, process_function=f, num_workers=rng.choice([1, 2]),
        read_write_conflict=False, **({"init_callback_fn": bad} if where == "callback" else {}),
    )

    def call():
        try:
            daisy.run_blockwise([t], multiprocessing=where != "serial")
        except KeyError:
            return
        except BaseException as e:
            raise Violation(f"a run with a failing {where} function raised {e!r} in a process with other runs")
        raise Violation(f"a run with a failing {where} function did not raise in a process with other runs")

    return call


def stopped(rng):
    """A run that is stopped by its event."""
    import daisy

    roi = daisy.Roi((0,), (2,))

    def slow(block):
        time.sleep(0.05)

    t = daisy.Task(
        "endless", daisy.Roi((0,), (2 * 10**6,)), roi, roi, process_function=slow, num_workers=2,
        read_write_conflict=False,
    )
    after = rng.choice([0, 0.05, 0.3])

    def call():
        ev = threading.Event()
        server = daisy.Server(stop_event=ev, host="127.0.0.1")
        if after:
            threading.Timer(after, ev.set).start()
        else:
            ev.set()
        server.run_blockwise([t])

    return call


def judged(run, what, st):
    """Run it, and decide whether disagreements are due to the other runs."""
    try:
        run.once()
        st.add("runs_like_alone")
        return True
    except (Violation, Inconclusive) as e:
        if not right_alone(run.case):
            st.add("runs_wrong_alone")
            return False
        text = f"{what} is not as it is alone: {e}"
        raise (Inconclusive if isinstance(e, Inconclusive) else Violation)(text)
    except BaseException as e:
        if common._first_repo_frame(e.__traceback__) is None:
            raise
        if not right_alone(run.case):
            st.add("runs_wrong_alone")
            return False
        raise Violation(f"{what} is not as it is alone: it raised {type(e).__name__}: {e}")


def in_thread(f, limit=90):
    """Call f in a thread of its own."""
    out = []

    def go():
        try:
            out.append((None, f()))
        except BaseException as e:
            out.append((e, None))

    th = threading.Thread(target=go, daemon=True)
    th.start()
    th.join(limit)
    if th.is_alive():
        raise Inconclusive("a run did not finish")
    if out[0][0] is not None:
        raise out[0][0]
    return out[0][1]


def sequence_case(case):
    """Different runs, one after the other."""
    rng = random.Random(case["seed"])
    st = Stats()
    around = Surroundings()
    runs, names = [], []
    for k in range(case.get("n", 6)):
        dice = rng.random()
        if dice < 0.12:
            call, name = failing(rng), "a failing run"
        elif dice < 0.22:
            call, name = stopped(rng), "a stopped run"
        elif dice < 0.4 and runs:
            run = rng.choice(runs)
            name = f"run {k} (the same tasks again, {run.case['how']})"
            call = None
        else:
            run = Run(plan(rng), ALL)
            runs.append(run)
            name = f"run {k} ({run.case['how']}, {run.case['kind']}) after {names}"
            call = None
        if call is not None:
            (call if rng.random() < 0.5 else lambda: in_thread(call))()
            left = procs.session_processes()
            if left:
                raise Violation(f"processes {left} are alive after {name} as part of {names}")
        elif not judged(run, name, st):
            return st
        around.same(name)
        st.add("surroundings_compared")
        names.append(name.split(" after")[0])
    st.see("sequence", [r.case for r in runs])
    st.sample({"sequence": names}, cap=1)
    for r in runs:
        r.st.counts.clear()
        shutil.rmtree(r.dir, ignore_errors=True)
    return st


def same_case(case):
    """The same run many times: nothing may grow with the number of runs."""
    rng = random.Random(case["seed"])
    st = Stats()
    what = rng.choice(["run", "run", "run", "run", "failing", "stopped"])
    n = case.get("n", 11)
    run = None
    if what == "run":
        run = Run(plan(rng), ALL)
        name = f"{run.case['how']} run ({run.case['kind']}: {gen.describe(run.spec)})"
        seen = []

        def call():
            ok = judged(run, f"repetition {len(seen)} of a {name}", st)
            seen.append(ok)
            return ok
    elif what == "failing":
        call, name = failing(rng), "failing run"
    else:
        call, name = stopped(rng), "stopped run"
    own_thread = rng.random() < 0.5
    before = None
    for k in range(n):
        got = in_thread(call) if own_thread else call()
        if run is not None and not got:
            return st
        if k == 2:
            settled(collections.Counter(), 0, patience=0.5)
            before = resources()
    grown = settled(before, n - 3)
    if grown:
        raise Violation(
            f"{n - 3} more repetitions of a {name} left more and more behind: "
            + ", ".join(f"{a} -> {b} {k}" for k, (a, b) in sorted(grown.items()))
        )
    st.add("resources_compared", len(before))
    st.add("repetitions", n)
    st.see("same", name, own_thread)
    st.sample({"repeated": name, "resources": dict(before)}, cap=1)
    if run is not None:
        shutil.rmtree(run.dir, ignore_errors=True)
    return st


def together_case(case):
    """Runs at the same time, in threads of one process."""
    import daisy

    rng = random.Random(case["seed"])
    st = Stats()
    runs = [Run(plan(rng, together=True), ALL) for _ in range(rng.choice([2, 2, 3, 4]))]
    for r in runs:
        r.case["limit"] = 60
    if rng.random() < 0.5:
        daisy.Server(host="127.0.0.1")  # there is an IO loop already
    errors = {}
    gate = threading.Barrier(len(runs))
    late = [0 if rng.random() < 0.6 else rng.random() * 0.5 for _ in runs]

    def one(k):
        gate.wait()
        time.sleep(late[k])
        try:
            runs[k].once()
        except BaseException as e:
            errors[k] = e

    ths = [threading.Thread(target=one, args=(k,), daemon=True) for k in range(len(runs))]
    for t in ths:
        t.start()
    for t in ths:
        t.join(80)
    if any(t.is_alive() for t in ths):
        raise Inconclusive("runs at the same time did not finish")
    for k, e in sorted(errors.items(), key=lambda x: isinstance(x[1], Inconclusive)):
        if not isinstance(e, (Violation, Inconclusive)) and common._first_repo_frame(e.__traceback__) is None:
            raise e
        if not right_alone(runs[k].case):
            st.add("runs_wrong_alone")
            return st
        text = f"run {k} of {[(r.case['how'], r.case['kind']) for r in runs]} at the same time is not as it is alone: {type(e).__name__} {e}"
        raise (Inconclusive if isinstance(e, Inconclusive) else Violation)(text)
    st.add("runs_at_the_same_time", len(runs))
    st.see("together", [r.case for r in runs])
    for r in runs:
        shutil.rmtree(r.dir, ignore_errors=True)
    return st


class Nested:
    """A process function that runs tasks itself."""

    def __init__(self, n, how, log):
        self.n, self.how, self.log = n, how, log

    def __call__(self, block):
        import daisy

        roi = daisy.Roi((0,), (2,))
        log, i = self.log, int(block.write_roi.offset[0])

        def inner(b):
            procs.log_event(log, i, int(b.write_roi.offset[0]))

        before = os.environ["DAISY_CONTEXT"]
        t = daisy.Task(
            "inner", daisy.Roi((0,), (2 * self.n,)), roi, roi, process_function=inner, num_workers=2,
            read_write_conflict=False,
        )
        if self.how == "serial":
            states = daisy.run_blockwise([t], multiprocessing=False)
            ok = states["inner"].completed_count == self.n
        else:
            ok = daisy.run_blockwise([t])
        if not ok:
            raise RuntimeError("inner run failed")
        if os.environ["DAISY_CONTEXT"] != before:
            raise RuntimeError("the inner run changed the context")


def nested_case(case):
    """Workers that run tasks themselves."""
    import daisy

    rng = random.Random(case["seed"])
    st = Stats()
    where = os.path.join(common.SCRATCH, f"nested{os.getpid()}")
    os.makedirs(where)
    log = os.path.join(where, "log")
    outer, inner, how = rng.randint(1, 4), rng.randint(1, 4), rng.choice(["serial", "processes", "processes"])
    roi = daisy.Roi((0,), (2,))
    t = daisy.Task(
        "outer", daisy.Roi((0,), (2 * outer,)), roi, roi, process_function=Nested(inner, how, log),
        num_workers=rng.randint(1, 3), read_write_conflict=False, max_retries=0,
    )
    ok = in_thread(lambda: daisy.run_blockwise([t]), 60)
    got = sorted(tuple(e) for e in procs.read_events(log))
    want = sorted((2 * i, 2 * j) for i in range(outer) for j in range(inner))
    if not ok or got != want:
        raise Violation(
            f"{outer} blocks that each run {inner} blocks ({how}): returned {ok}, processed {got}, should be {want}"
        )
    left = procs.session_processes()
    if left:
        raise Violation(f"processes {left} are alive after a run with inner runs")
    st.add("inner_runs", outer)
    st.see("nested", outer, inner, how, t.num_workers)
    shutil.rmtree(where, ignore_errors=True)
    return st


def logging_case(case):
    """What the calling process logs is still written once after many runs."""
    import io
    import logging

    import daisy

    class Terminal(io.StringIO):
        def isatty(self):
            return True

    rng = random.Random(case["seed"])
    st = Stats()
    logging.disable(logging.NOTSET)
    root = logging.getLogger()
    for h in list(root.handlers):
        root.removeHandler(h)
    root.setLevel(logging.INFO)
    logging.getLogger("daisy").setLevel(logging.CRITICAL + 1)
    logging.getLogger("asyncio").setLevel(logging.CRITICAL + 1)
    streams = []
    for _ in range(rng.randint(1, 3)):
        s = rng.choice([Terminal, Terminal, io.StringIO])()
        h = logging.StreamHandler(s)
        h.setLevel(rng.choice([logging.INFO, logging.INFO, logging.ERROR]))
        h.setFormatter(logging.Formatter("<%(levelname)s|%(message)s>"))
        root.addHandler(h)
        streams.append((s, h.level))
    number = len(root.handlers)
    wanted = []
    log = logging.getLogger(rng.choice(["mine", "my.own", None]))

    def say(text):
        level = rng.choice([logging.INFO, logging.WARNING, logging.ERROR])
        log.log(level, "%s", text)
        wanted.append((level, f"<{logging.getLevelName(level)}|{text}>"))

    roi = daisy.Roi((0,), (2,))
    calls = iter(range(10**9))

    def work(block):
        say(f"block {next(calls)}")

    def quiet(block):
        pass

    n = rng.choice([4, 8, 40])
    before = None
    for k in range(n):
        serial = n == 40 or rng.random() < 0.6
        t = daisy.Task(
            "logs", daisy.Roi((0,), (4,)), roi, roi, process_function=work if serial else quiet,
            read_write_conflict=False,
        )
        if serial:
            daisy.run_blockwise([t], multiprocessing=False)
        else:
            in_thread(lambda: daisy.run_blockwise([t]))
        say(f"after run {k}")
        if k == 2:
            before = resources()
    for s, level in streams:
        got = [x for x in s.getvalue().splitlines() if x.startswith("<")]
        want = [x for lv, x in wanted if lv >= level]
        if got != want:
            bad = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
            raise Violation(
                f"a handler wrote {len(got)} messages, {len(want)} were logged for it, they differ at {bad}: "
                f"{got[bad:bad + 3]} instead of {want[bad:bad + 3]}"
            )
    if len(root.handlers) != number:
        raise Violation(f"there are {len(root.handlers)} handlers of log messages after {n} runs, {number} before")
    grown = settled(before, n - 3) if n > 4 else None
    if grown:
        raise Violation(f"{n - 3} more runs with logging to a terminal left behind: {grown}")
    st.add("messages_logged", len(wanted))
    st.see("logging", case["seed"])
    return st
