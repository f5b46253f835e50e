"""Shared plumbing of all checks: where daisy comes from, how cases are run in
parallel child processes, how verdicts, replays and evidence are written.

Verdicts are three-valued.  A *case* ends in one of

    held          -- returns a ``Stats`` (what the monitors observed)
    violated      -- raises ``Violation`` (or daisy raised on a valid workload)
    inconclusive  -- the watchdog fired; the case is repeated alone with a longer
                     watchdog and only a hang that repeats every time is
                     reported (as lack of bounded progress)
"""

import collections
import hashlib
import json
import os
import pickle
import select
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)

SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
NPROC = max(2, min(8, os.cpu_count() or 4))


class scratch:
    """A directory that is gone after the check."""

    def __enter__(self):
        import tempfile

        self.path = tempfile.mkdtemp(prefix="verif-daisy-")
        return self.path

    def __exit__(self, *a):
        import shutil

        os.chdir("/")
        shutil.rmtree(self.path, ignore_errors=True)


SCRATCH = None


def quiet_daisy(where=None):
    """Import daisy from /repo and silence its logging."""
    global SCRATCH
    import logging

    logging.disable(logging.CRITICAL)
    import daisy
    import daisy.logging

    SCRATCH = where
    if where is not None:
        daisy.logging.set_log_basedir(os.path.join(where, "logs"))

    where = os.path.abspath(daisy.__file__)
    assert where.startswith(os.path.abspath(REPO) + os.sep), where
    return daisy


class Violation(Exception):
    """The property does not hold on the execution just observed."""


class Inconclusive(Exception):
    """The execution could not be judged (watchdog, harness problem)."""


class CpuLimit(Exception):
    pass


class Stats:
    """What the monitors of one case observed."""

    def __init__(self):
        self.counts = collections.Counter()
        self.distinct = set()  # hashes of distinct non-trivial observations
        self.samples = []

    def add(self, name, n=1):
        self.counts[name] += n

    def see(self, *what):
        h = hashlib.blake2b(repr(what).encode(), digest_size=8).digest()
        self.distinct.add(h)

    def sample(self, obj, cap=2):
        if len(self.samples) < cap:
            self.samples.append(obj)

    def merge(self, other):
        self.counts.update(other.counts)
        self.distinct |= other.distinct
        self.samples.extend(other.samples[: max(0, 6 - len(self.samples))])


# -- running one case ---------------------------------------------------------


def _first_repo_frame(tb):
    frames = traceback.extract_tb(tb)
    for f in reversed(frames):
        if os.path.abspath(f.filename).startswith(REPO + os.sep):
            return f"{os.path.relpath(f.filename, REPO)}:{f.name}"
    return None


def run_inline(fn, case, cpu_limit=None):
    """Run ``fn(case)``; returns (verdict, payload)."""

    def on_alarm(signum, frame):
        raise CpuLimit()

    if cpu_limit:
        signal.signal(signal.SIGVTALRM, on_alarm)
        signal.setitimer(signal.ITIMER_VIRTUAL, cpu_limit)
    try:
        st = fn(case)
        return ("held", st)
    except Violation as e:
        return ("violated", {"detail": str(e)})
    except Inconclusive as e:
        return ("inconclusive", {"detail": str(e)})
    except CpuLimit:
        return (
            "violated",
            {"detail": f"no result after {cpu_limit} s of CPU time (no bounded progress)"},
        )
    except BaseException as e:  # noqa
        where = _first_repo_frame(e.__traceback__)
        text = "".join(traceback.format_exception(e))[-3000:]
        if where is not None:
            return (
                "violated",
                {
                    "detail": f"daisy raised {type(e).__name__} in {where} on a valid "
                    f"workload: {str(e)[:300]}",
                    "traceback": text,
                },
            )
        return ("error", {"detail": text})
    finally:
        if cpu_limit:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)


class _Child:
    def __init__(self, target, args, watchdog):
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                os.setsid()
                dn = os.open(os.devnull, os.O_RDWR)
                os.dup2(dn, 0)
                if not os.environ.get("VERIF_DEBUG"):
                    os.dup2(dn, 1)
                    os.dup2(dn, 2)
                out = os.fdopen(w, "wb")

                def emit(obj):
                    data = pickle.dumps(obj)
                    out.write(len(data).to_bytes(8, "big") + data)
                    out.flush()

                target(emit, *args)
                out.flush()
                code = 0
            finally:
                os._exit(code)
        os.close(w)
        self.pid = pid
        self.fd = r
        self.buf = b""
        self.deadline = time.monotonic() + watchdog
        self.watchdog = watchdog
        self.done = False

    def messages(self):
        out = []
        while len(self.buf) >= 8:
            n = int.from_bytes(self.buf[:8], "big")
            if len(self.buf) < 8 + n:
                break
            out.append(pickle.loads(self.buf[8 : 8 + n]))
            self.buf = self.buf[8 + n :]
        return out

    def kill(self):
        try:
            os.killpg(self.pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            os.waitpid(self.pid, 0)
        except OSError:
            pass
        try:
            os.close(self.fd)
        except OSError:
            pass
        self.done = True


def _cpu_chunk(emit, fn, cases, cpu_limit, deadline):
    import gc

    gc.disable()
    n = 0
    for case in cases:
        if time.monotonic() > deadline:
            break
        emit(("case", case, run_inline(fn, case, cpu_limit)))
        n += 1
        if n % 50 == 0:
            gc.collect()


def _one(emit, fn, case):
    emit(("case", case, run_inline(fn, case)))


class Result:
    def __init__(self):
        self.stats = Stats()
        self.evaluations = 0
        self.violations = []  # (case, payload)
        self.inconclusive = []
        self.errors = []

    def take(self, case, verdict, payload):
        if verdict == "held":
            self.evaluations += 1
            if payload is not None:
                self.stats.merge(payload)
        elif verdict == "violated":
            self.evaluations += 1
            self.violations.append((case, payload))
        elif verdict == "inconclusive":
            self.inconclusive.append((case, payload))
        else:
            self.errors.append((case, payload))


def run_cpu_cases(fn, cases, budget_s, procs=NPROC, cpu_limit=200, stop_after=1):
    """Pure-CPU cases: chunks of cases per child, CPU-time limit per case."""
    res = Result()
    cases = list(cases)
    deadline = time.monotonic() + budget_s
    children = []
    for k in range(procs):
        part = cases[k::procs]
        if part:
            children.append(
                _Child(_cpu_chunk, (fn, part, cpu_limit, deadline), budget_s + 300)
            )
    _drain(children, res, stop_after)
    for c in children:
        if not c.done:
            c.kill()
    return res


def _drain(children, res, stop_after, on_done=None):
    live = [c for c in children if not c.done]
    while live:
        r, _, _ = select.select([c.fd for c in live], [], [], 0.5)
        for c in list(live):
            if c.fd in r:
                data = os.read(c.fd, 1 << 20)
                if data:
                    c.buf += data
                    for _, case, (verdict, payload) in c.messages():
                        res.take(case, verdict, payload)
                else:
                    c.kill()
                    live.remove(c)
            elif time.monotonic() > c.deadline:
                c.kill()
                live.remove(c)
                res.inconclusive.append((None, {"detail": "watchdog of a chunk fired"}))
        if stop_after and len(res.violations) >= stop_after:
            return


def run_io_cases(fn, cases, budget_s, procs=NPROC, watchdog=60, stop_after=1):
    """Cases with threads, sockets and processes: one fresh child per case.

    A case whose watchdog fires is repeated, alone and with twice the watchdog.
    Only if it never finishes it is reported."""
    res = Result()
    todo = collections.deque(cases)
    suspects = []
    running = {}
    deadline = time.monotonic() + budget_s

    def reap(c, case):
        got = c.messages()
        if got:
            for _, cs, (verdict, payload) in got:
                if verdict == "inconclusive":
                    suspects.append((cs, payload["detail"]))
                else:
                    res.take(cs, verdict, payload)
        else:
            suspects.append((case, "case died or hung without a verdict"))

    while todo or running:
        while todo and len(running) < procs and time.monotonic() < deadline:
            case = todo.popleft()
            c = _Child(_one, (fn, case), watchdog)
            running[c] = case
        if not running:
            break
        r, _, _ = select.select([c.fd for c in running], [], [], 0.2)
        for c in list(running):
            if c.fd in r:
                data = os.read(c.fd, 1 << 20)
                if data:
                    c.buf += data
                    continue
                c.kill()
                reap(c, running.pop(c))
            elif time.monotonic() > c.deadline:
                c.kill()
                reap(c, running.pop(c))
        if stop_after and len(res.violations) >= stop_after:
            for c in running:
                c.kill()
            return res

    # repeat what did not finish: alone, with more time
    for case, detail in suspects[:3]:
        details = [detail]
        verdict = Result()
        for _ in range(2):
            c = _Child(_one, (fn, case), 2 * watchdog)
            sub = Result()
            _drain([c], sub, 0)
            if sub.violations or sub.evaluations:
                verdict = sub
                break
            details.append(
                (sub.inconclusive or sub.errors or [(None, {"detail": "died"})])[0][1][
                    "detail"
                ]
            )
        res.evaluations += verdict.evaluations
        res.stats.merge(verdict.stats)
        res.violations += verdict.violations
        if verdict.violations:
            return res
        if verdict.evaluations == 0:
            res.evaluations += 1
            res.violations.append(
                (
                    case,
                    {
                        "detail": "the run did not finish in any of 3 attempts, the last "
                        f"two alone with a {2 * watchdog} s watchdog: {details}"
                    },
                )
            )
            return res
        # it finishes sometimes: does it depend on the schedule?
        found = _again(fn, case, watchdog, details)
        if found:
            res.evaluations += 1
            res.violations.append((case, {"detail": found}))
            return res
        res.inconclusive.append((case, {"detail": f"once: {detail}"}))
    return res


def _again(fn, case, watchdog, details, times=24, procs=4):
    """Repeat a case that did not finish once.  If it gets stuck again while all
    others are quick, it is the schedule that decides, not the machine."""
    took, stuck, running = [], 0, {}
    left = times
    while (left or running) and not stuck:
        while left and len(running) < procs:
            running[_Child(_one, (fn, case), watchdog)] = time.monotonic()
            left -= 1
        r, _, _ = select.select([c.fd for c in running], [], [], 0.2)
        for c in list(running):
            if c.fd in r:
                data = os.read(c.fd, 1 << 20)
                if data:
                    c.buf += data
                    continue
                verdicts = [v for _, _, (v, _) in c.messages()]
                if "held" in verdicts or "violated" in verdicts:
                    took.append(time.monotonic() - running.pop(c))
                else:
                    stuck += 1
                    running.pop(c)
                c.kill()
            elif time.monotonic() > c.deadline:
                stuck += 1
                running.pop(c)
                c.kill()
    for c in running:
        c.kill()
    took.sort()
    if stuck and len(took) >= 3 and took[-1] < watchdog / 5:
        return (
            f"the run gets stuck depending on the schedule: {1 + stuck} times, while {len(took) + 1} other "
            f"runs of the same case ended within {took[-1]:.1f} s: {details}"
        )
    return None


# -- reporting ----------------------------------------------------------------


def known_findings(prop):
    """Mechanism keys of findings that are recorded and not repaired."""
    path = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding:") and f"property={prop} " in line:
                out.append(line)
    return out


def finish(prop, results, rule, t0, level="exploration", assumptions=(), minimum=1,
           need=()):
    """Write evidence, print the verdict, return the exit code."""
    total = Result()
    for r in results:
        total.stats.merge(r.stats)
        total.evaluations += r.evaluations
        total.violations += r.violations
        total.inconclusive += r.inconclusive
        total.errors += r.errors
    ev_dir = os.path.join(VERIF, "evidence")
    os.makedirs(ev_dir, exist_ok=True)
    coverage = {
        "evaluations": total.evaluations,
        "distinct_nontrivial": len(total.stats.distinct),
        "rule": rule,
        "samples": total.stats.samples[:6] or ["(none)"],
        "observed": {k: int(v) for k, v in sorted(total.stats.counts.items())},
        "inconclusive_cases": len(total.inconclusive),
    }
    evidence = {
        "property": prop,
        "tier": TIER,
        "seed": SEED,
        "level": level,
        "coverage": coverage,
        "assumptions": list(assumptions),
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": len(total.violations),
    }
    with open(os.path.join(ev_dir, f"{prop}.json"), "w") as f:
        json.dump(evidence, f, indent=1, default=str)
    if total.violations:
        rdir = os.path.join(ev_dir, "replays")
        os.makedirs(rdir, exist_ok=True)
        case, payload = total.violations[0]
        key = hashlib.sha1(repr(case).encode()).hexdigest()[:10]
        path = os.path.join(rdir, f"{prop}-{key}.json")
        with open(path, "w") as f:
            json.dump(
                {"property": prop, "case": case, **payload}, f, indent=1, default=str
            )
        for case, payload in total.violations[:3]:
            print(f"{prop}: case {case}: {payload['detail'][:1500]}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if total.errors:
        print(f"{prop}: error of the harness: {total.errors[0][1]['detail'][-2000:]}")
        return 3
    missing = [n for n in need if not total.stats.counts.get(n)]
    if total.evaluations < minimum or not total.stats.distinct or missing:
        print(
            f"{prop}: inconclusive: {total.evaluations} evaluations, "
            f"{len(total.stats.distinct)} distinct, monitors not reached: {missing} "
            f"{total.inconclusive[:2]}"
        )
        return 2
    print(
        f"{prop}: held on {total.evaluations} executions "
        f"({len(total.stats.distinct)} distinct non-trivial), "
        f"{dict(total.stats.counts)}, {evidence['wall_s']} s"
    )
    return 0


def _part(obj, cls):
    """The attribute of an object that is an instance of a class, whatever its name."""
    for v in list(vars(obj).values()):
        if isinstance(v, cls):
            return v
    return None


def tcp_client_of(client):
    """The connection of a daisy.Client."""
    from daisy.tcp import TCPClient

    return _part(client, TCPClient)


def close_hard(client):
    """Close the connection of a TCPClient without telling the server."""
    import threading

    import tornado.ioloop
    from daisy.tcp.tcp_stream import TCPStream

    stream = _part(client, TCPStream)
    loop = _part(client, tornado.ioloop.IOLoop)
    if stream is None:
        return
    if loop is None:
        stream.close()
        return
    done = threading.Event()

    def f():
        try:
            stream.close()
        finally:
            done.set()

    loop.add_callback(f)
    done.wait(10)


def task_graph(graph, task_id):
    """The graph of the blocks of one task in a DependencyGraph."""
    from daisy.dependency_graph import BlockwiseDependencyGraph

    for v in list(vars(graph).values()):
        if isinstance(v, dict) and isinstance(v.get(task_id), BlockwiseDependencyGraph):
            return v[task_id]
    raise Inconclusive("no graph for the blocks of a task")
