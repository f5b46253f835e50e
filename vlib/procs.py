"""Runs with real worker processes.

Process functions append what they do to one log file (O_APPEND, one line per
event, with the system-wide monotonic clock).  The begin of a block is recorded
after it was received and its end before it is returned, so intervals in the
log are contained in the time the block is handed out.  Outcomes are planned
per block and attempt, which makes the result of a run predictable from the
declared dependencies alone (``serial.predict``), whatever the schedule is."""

import collections
import io
import json
import os
import random
import re
import signal
import sys
import tempfile
import threading
import time

from . import common, gen, geom, sched, serial, srv
from .common import Inconclusive, Stats, Violation


def log_event(path, *ev):
    fd = os.open(path, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
    try:
        os.write(fd, (json.dumps(ev) + "\n").encode())
    finally:
        os.close(fd)


def read_events(path):
    out = []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                if line.endswith("\n"):
                    out.append(json.loads(line))
    return out


def kname(key):
    return f"{key[0]}@{'_'.join(map(str, key[1]))}"


class Boom(Exception):
    pass


def die_slowly(signum, frame):
    """Handler of workers that clean up when they are terminated."""
    time.sleep(0.2)
    os._exit(143)


def die_very_slowly(signum, frame):
    time.sleep(4)
    os._exit(143)


class Work:
    """A process function for blocks of one task."""

    def __init__(self, tid, cfg):
        self.tid = tid
        self.cfg = cfg

    def __call__(self, block):
        import daisy
        from daisy import BlockStatus

        cfg = self.cfg
        if cfg.get("slow_term") and os.getpid() != cfg["main"]:
            very = cfg["slow_term"] == "very"
            signal.signal(signal.SIGTERM, die_very_slowly if very else die_slowly)
        now = time.monotonic_ns()
        w = [int(x) for x in block.write_roi.offset]
        r = geom.box_of(block.read_roi)
        wb = geom.box_of(block.write_roi)
        name = f"{block.task_id}@{'_'.join(map(str, w))}"
        n = 0
        while True:
            try:
                os.close(
                    os.open(
                        os.path.join(cfg["dir"], f"{name}.{n}"),
                        os.O_CREAT | os.O_EXCL | os.O_WRONLY,
                    )
                )
                break
            except FileExistsError:
                n += 1
        wid = None
        if "DAISY_CONTEXT" in os.environ:
            wid = daisy.Context.from_env()["worker_id"]
        log_event(
            cfg["log"], "begin", now, os.getpid(), wid, block.task_id, w, n,
            [list(r.b), list(r.e), list(wb.b), list(wb.e)], list(map(str, block.block_id)),
        )
        outs = cfg["plan"].get(name, [])
        how = outs[n] if n < len(outs) else "ok"
        rng = random.Random(f"{name}{n}{cfg['seed']}")
        if cfg.get("talk"):
            for k in range(rng.randint(1, 3)):
                line = f"OUT {name} {n} {k}"
                if rng.random() < 0.3:
                    os.write(1, (line + "\n").encode())
                elif rng.random() < 0.1:
                    sys.stdout.flush()
                    os.system(f"echo '{line}'")
                else:
                    print(line)
                print(f"ERR {name} {n} {k}", file=sys.stderr)
        delay = cfg["delay"] * rng.random()
        if name in cfg.get("slow", ()):
            delay += cfg["slow_by"]
        if delay:
            time.sleep(delay)

        def end(what):
            log_event(
                cfg["log"], what, time.monotonic_ns(), os.getpid(), wid, block.task_id, w, n, how
            )

        if how == "ok":
            if rng.random() < 0.3:
                block.status = BlockStatus.SUCCESS
            end("ok")
        elif how == "fail":
            block.status = BlockStatus.FAILED
            end("fail")
        elif how == "raise":
            end("fail")
            raise Boom(f"planned {name} {n}")
        elif how == "sysexit":
            end("dies")
            raise SystemExit(rng.choice([1, 3, "text"]))
        elif how == "kill":
            end("dies")
            os.kill(os.getpid(), signal.SIGKILL)
            time.sleep(60)
        elif how == "term":
            end("dies")
            os.kill(os.getpid(), signal.SIGTERM)
            time.sleep(60)
        elif how == "exit":
            end("dies")
            os._exit(rng.choice([1, 7, 255]))
        else:
            raise RuntimeError(how)


class Spawn:
    """A spawn function: takes no argument and runs a client by itself."""

    def __init__(self, work):
        self.work = work

    def __call__(self):
        import daisy

        client = daisy.Client()
        while True:
            with client.acquire_block() as block:
                if block is None:
                    return
                self.work(block)


class Check:
    def __init__(self, names):
        self.names = names

    def __call__(self, block):
        w = "_".join(str(int(x)) for x in block.write_roi.offset)
        return f"{block.task_id}@{w}" in self.names


def session_processes():
    """Live processes of this case other than this one."""
    me = os.getpid()
    sid = os.getsid(0)
    out = []
    for d in os.listdir("/proc"):
        if not d.isdigit() or int(d) == me:
            continue
        try:
            with open(f"/proc/{d}/stat") as f:
                s = f.read()
        except OSError:
            continue
        rest = s[s.rindex(")") + 2 :].split()
        state, session = rest[0], int(rest[3])
        if session == sid and state not in "ZX":
            out.append(int(d))
    return out


DYING = ["kill", "exit", "sysexit", "term"]
KINDS = {
    # outcome pool, probability that a block has bad attempts
    "ok": ([], 0),
    "fail": (["fail"], 0.4),
    "raise": (["raise", "fail"], 0.4),
    "crash": (DYING + ["fail"], 0.35),
    "storm": (["raise", "raise", "raise", "fail", "exit"], 0.7),
    "chaos": (["fail"], 0.1),
}


class ProcRun:
    def __init__(self, case, wanted):
        self.case = case
        self.wanted = set(wanted)
        rng = self.rng = random.Random(case["seed"])
        self.kind = case.get("kind", "ok")
        self.spec = case.get("spec") or gen.spec(
            rng, max_blocks=case.get("max_blocks", 18), max_tasks=case.get("max_tasks", 3)
        )
        for t in self.spec["tasks"]:
            t["num_workers"] = rng.choice([1, 2, 2, 3, 4])
        self.st = Stats()
        self.mon = sched.Monitor(self.spec, wanted, self.st)
        self.model = self.mon.model
        self.dir = tempfile.mkdtemp(dir=common.SCRATCH or None)
        self.name_of = {}
        self.key_of = {}
        for k, b in self.model.blocks.items():
            n = f"{k[0]}@{'_'.join(map(str, b.write.b))}"
            self.name_of[k] = n
            self.key_of[n] = k
        pool, p = KINDS[self.kind]
        self.fails = {}
        self.plan = {}
        raises = collections.Counter()
        pskip = case.get("pskip", rng.choice([0, 0, 0, 0.4, 1.0]))
        self.skips = {}
        for k in sorted(self.model.blocks, key=repr):
            self.skips[k] = rng.random() < pskip
            if rng.random() < p:
                outs = []
                for _ in range(rng.choice([1, 1, 2, 3])):
                    how = rng.choice(pool)
                    if how == "raise" and self.kind != "storm":
                        if raises[k[0]] >= 3:
                            how = "fail"
                        raises[k[0]] += 1
                    outs.append(how)
                self.plan[self.name_of[k]] = outs
                self.fails[k] = len(outs)
            else:
                self.fails[k] = 0
        self.exact = self.kind not in ("storm", "chaos")
        self.log = os.path.join(self.dir, "events")
        slow = [n for n in self.key_of if rng.random() < 0.15]
        self.cfg = {
            "dir": os.path.join(self.dir, "attempts"),
            "log": self.log,
            "plan": self.plan,
            "seed": case["seed"],
            "delay": rng.choice([0, 0.02, 0.05, 0.15]),
            "slow": set(slow) if rng.random() < 0.6 else set(),
            "slow_by": 0.25,
            "talk": case.get("talk", False),
            "slow_term": case["seed"] % 3 == 0,
            "main": os.getpid(),
        }
        os.mkdir(self.cfg["dir"])
        self.kills = []
        self.foreign = []
        self.events = []
        self.states = None
        self.returned = None

    def flag(self, tags, text):
        """Judgement is offline: it goes on after disagreements that are not
        about the property."""
        if set(tags) & self.wanted:
            raise Violation(f"{text} | last events: {[e[:7] for e in self.events[-8:]]}")
        if not self.foreign:
            self.st.sample({"foreign": f"{sorted(tags)} {text}"[:300]})
        self.foreign.append(text)
        self.st.add("foreign_disagreements")

    # -- the run

    def tasks(self, spawn_ok=True):
        rng = self.rng

        def process(tid):
            w = Work(tid, self.cfg)
            return Spawn(w) if spawn_ok and rng.random() < 0.3 else w

        names = {self.name_of[k] for k, s in self.skips.items() if s}
        return gen.build(
            self.spec, process=process, check=(lambda tid: Check(names)) if names else None
        )

    def monkey(self, done):
        """Kills workers at any time."""
        rng = random.Random(self.case["seed"] + 7)
        left = rng.randint(1, 4)
        while left and not done.wait(rng.random() * 0.25):
            pids = {e[2] for e in read_events(self.log) if e[0] == "begin"}
            alive = [p for p in session_processes() if p in pids or rng.random() < 0.2]
            if alive:
                p = rng.choice(alive)
                try:
                    if os.getsid(p) == os.getsid(0):
                        self.kills.append((time.monotonic_ns(), p))
                        os.kill(p, rng.choice([signal.SIGKILL, signal.SIGKILL, signal.SIGTERM]))
                        left -= 1
                except OSError:
                    pass

    def leftovers(self):
        """Processes that should be gone after the run."""
        return session_processes()

    def go(self, how=None):
        import daisy

        self.logs = os.path.join(self.dir, "logs")
        if self.case.get("talk"):
            # directories can have any name
            self.logs += random.Random(self.case["seed"] + 11).choice(["", "", "=3", ":a=b", " %41%3A", ".d", "/x:/y"])
        daisy.logging.set_log_basedir(self.logs)
        tasks = self.tasks(spawn_ok=how != "serial")
        order = list(tasks)
        if how not in ("run_blockwise", "serial"):
            self.rng.shuffle(order)
        self.mon.attach(None)
        out = {}
        done = threading.Event()
        # everything this process and (by mistake) its workers print
        self.screen = os.path.join(self.dir, "screen")
        redirected = not self.case.get("together")
        if redirected:
            saved = os.dup(1), os.dup(2)
            fd = os.open(self.screen, os.O_RDWR | os.O_CREAT | os.O_APPEND)
            os.dup2(fd, 1)
            os.dup2(fd, 2)

        def main():
            try:
                if how == "run_blockwise":
                    out["returned"] = daisy.run_blockwise(self.arguments(order))
                elif how == "serial":
                    out["states"] = daisy.run_blockwise(self.arguments(order), multiprocessing=False)
                else:
                    server = daisy.Server(host="127.0.0.1")
                    self.obs = watch(server)
                    daisy.cl_monitor.CLMonitor(server)
                    out["states"] = server.run_blockwise(order)
            except BaseException as e:
                out["error"] = e
            finally:
                out["t"] = time.monotonic_ns()
                out["left"] = self.leftovers()
                done.set()

        th = threading.Thread(target=main, daemon=True)
        th.start()
        if self.kind == "chaos":
            threading.Thread(target=self.monkey, args=(done,), daemon=True).start()
        th.join(self.case.get("limit", 60))
        sys.stdout.flush()
        sys.stderr.flush()
        if redirected:
            os.dup2(saved[0], 1)
            os.dup2(saved[1], 2)
            for f in saved + (fd,):
                os.close(f)
        if th.is_alive():
            raise Inconclusive(f"run did not finish; last events {read_events(self.log)[-6:]}")
        if "error" in out:
            raise out["error"]
        self.out = out
        self.states = out.get("states")
        self.returned = out.get("returned")
        self.events = read_events(self.log)
        self.events.sort(key=lambda e: e[1])
        try:
            self.judge()
        except sched.Foreign as e:
            self.st.add("runs_abandoned")
            self.st.sample({"abandoned": str(e)[:300]})
            return None
        self.st.add("process_runs")
        self.st.add("process_events", len(self.events))
        if len(self.model.blocks) > 1:
            self.st.see("proc", gen.describe(self.spec), [(e[0], e[4], e[5]) for e in self.events])
        self.st.sample(
            {
                "tasks": gen.describe(self.spec),
                "kind": self.kind,
                "plan": self.plan,
                "events": [e[:7] for e in self.events[:6]],
            },
            cap=1,
        )
        return self

    def arguments(self, tasks):
        """Any list of tasks whose upstream closure is all tasks."""
        rng = self.rng
        used = {u for t in self.spec["tasks"] for u in t["up"]}
        args = [t for t in tasks if t.task_id not in used or rng.random() < 0.4]
        if rng.random() < 0.4:
            args += [rng.choice(args)]
        rng.shuffle(args)
        self.args = args
        self.args_before = list(args)
        return args

    # -- judging

    def judge(self):
        model, st = self.model, self.st
        if self.out["left"]:
            self.flag({"C14"}, f"processes {self.out['left']} are alive after the run returned")
        st.add("runs_without_leftovers")
        open_ = {}
        spans = []
        begins = collections.Counter()
        oks = {}
        busy = collections.defaultdict(set)
        killed = {}
        for t, p in self.kills:
            killed[p] = min(t, killed.get(p, t))
        pids = collections.defaultdict(set)
        wids = {}
        for e in self.events:
            what, t, pid, wid, tid, w, n = e[:7]
            key = self.key_of.get(f"{tid}@{'_'.join(map(str, w))}")
            if key is None:
                self.flag({"C01", "C06"}, f"a worker got a block that does not exist: {e}")
                continue
            m = model.blocks[key]
            if what == "begin":
                if e[7] != [list(m.read.b), list(m.read.e), list(m.write.b), list(m.write.e)]:
                    self.flag({"C01", "C02"}, f"block {key} in the worker is {e[7]}, should be {m}")
                begins[key] += 1
                if self.skips.get(key):
                    self.flag({"C10"}, f"{key} is processed although it was done already")
                if pid in open_:
                    k2 = open_[pid][0]
                    self.flag({"C06"}, f"worker {pid} got {key} while it has {k2}")
                wids.setdefault(wid, pid)
                if wids[wid] != pid:
                    self.flag({"C13"}, f"workers {pid} and {wids[wid]} both have id {wid}")
                open_[pid] = (key, t, e)
            else:
                if pid in open_ and open_[pid][0] == key:
                    spans.append((key, open_.pop(pid)[1], t, what, pid, n))
        for pid, (key, t, e) in open_.items():
            if pid in killed:
                spans.append((key, t, max(t, killed[pid]), "killed", pid, e[6]))
            elif self.kind == "storm":
                spans.append((key, t, t, "stopped", pid, e[6]))
            else:
                self.flag(
                    {"C07", "C14", "C23"}, f"{key} was never finished by worker {pid}, which was not killed"
                )
        spans.sort(key=lambda s: s[1])
        # conflicts, holders, workers in parallel
        active = []
        for s in spans:
            key, b, e, what, pid, n = s
            active = [a for a in active if a[2] > b]
            par = 1
            for a in active:
                if a[0] == key:
                    self.flag({"C06"}, f"{key} is processed by workers {a[4]} and {pid} at the same time")
                if a[0][0] == key[0]:
                    par += 1
                    if model.tasks[key[0]].conflict:
                        st.add("parallel_pairs_checked")
                        if geom.conflicting(model.blocks[a[0]], model.blocks[key]):
                            self.flag({"C03"}, f"{key} and {a[0]} are processed at the same time")
                st.add("overlaps")
            limit = next(t["num_workers"] for t in self.spec["tasks"] if t["id"] == key[0])
            if par > limit:
                self.flag({"C13"}, f"{par} workers of task {key[0]} work at the same time, {limit} are allowed")
            active.append(s)
        done_at = {}
        for key, b, e, what, pid, n in sorted(spans, key=lambda s: s[2]):
            if what == "ok" and key not in done_at:
                done_at[key] = e
        for key, b, e, what, pid, n in spans:
            for u in self.mon.ups[key]:
                st.add("dependencies_checked")
                if self.skips.get(u):
                    continue
                if done_at.get(u, 1 << 62) > b:
                    self.flag({"C05"}, f"{key} is processed before {u}, which it depends on, succeeded")
            if key in done_at and b > done_at[key] and not self.kills:
                # a worker that was killed may have taken the return with it
                self.flag({"C06"}, f"{key} is processed again after it succeeded")
        for key, n in begins.items():
            lim = model.tasks[key[0]].max_retries + 1
            if n > lim:
                self.flag({"C06", "C12"}, f"{key} is processed {n} times, {lim} are allowed")
        self.begins = begins
        if self.exact:
            exp = serial.predict(self.mon, self.fails, self.skips)
            self.expected = exp
            for k, n in exp["attempts"].items():
                if begins[k] != n:
                    tags = {"C06", "C12", "C19", "C07"}
                    if "returned" in self.out:
                        tags.add("C18")
                    if any(self.skips.values()):
                        tags.add("C10")
                    self.flag(
                        tags,
                        f"{k} is processed {begins[k]} times, should be {n} ({self.plan.get(self.name_of[k])})",
                    )
            st.add("outcomes_compared", len(exp["attempts"]))
            all_ok = all(v in ("done", "skipped") for v in exp["final"].values())
        else:
            all_ok = None
        if self.states is not None:
            self.check_states()
            if not self.exact:
                all_ok = all(
                    s.completed_count == s.total_block_count for s in self.states.values()
                )
        if "returned" in self.out:
            if not isinstance(self.returned, bool):
                self.flag({"C18"}, f"run_blockwise returned {self.returned!r}")
            if not self.exact or self.foreign:
                all_ok = all(
                    k in done_at or self.skips.get(k) for k in model.blocks
                ) if not self.kills else self.returned
            if self.returned != all_ok:
                self.flag({"C18"}, f"run_blockwise returned {self.returned}, all blocks succeeded: {all_ok}")
            st.add(f"returned_{self.returned}")
            if [id(t) for t in self.args] != [id(t) for t in self.args_before]:
                self.flag({"C18"}, "run_blockwise changed the list of its caller")
        for pid in {s[4] for s in spans}:
            st.add("worker_processes")

    def check_states(self):
        for tid, t in self.model.tasks.items():
            s = self.states[tid]
            got = (
                int(s.completed_count),
                int(s.skipped_count),
                int(s.failed_count),
                int(s.orphaned_count),
                int(s.total_block_count),
            )
            if self.exact and got != self.expected[tid]:
                self.flag(
                    {"C19", "C12"},
                    f"task {tid}: (completed, skipped, failed, orphaned, total) is {got}, should be {self.expected[tid]}",
                )
            if got[0] + got[2] + got[3] != got[4] or not s.is_done():
                self.flag({"C07", "C09"}, f"the run ended with {got} for task {tid}")


def watch(server):
    from daisy.server_observer import ServerObserver

    class Obs(ServerObserver):
        def __init__(self, s):
            super().__init__(s)
            self.failures = []

        def on_block_failure(self, block, exception, context):
            self.failures.append((block.block_id, repr(exception), str(context["worker_id"])))

    return Obs(server)


# -- extra judgements


def parse_summary(text, flag):
    """{task: (completed, skipped, failed, orphaned, total)} and the listed
    exceptions {task: [(block, worker, exception)], number of omitted ones}."""
    if "Execution Summary" not in text:
        flag("no execution summary was printed")
    body = text[text.rindex("Execution Summary") :]
    parts = re.split(r"^  Task (.*):\s*$", body, flags=re.M)
    seen, listed = {}, {}
    for name, part in zip(parts[1::2], parts[2::2]):
        if name in seen:
            flag(f"task {name} is summarised twice")

        def num(pat):
            m = re.search(pat, part)
            if m is None:
                flag(f"summary of {name} has no {pat}: {part[:300]}")
            return int(m.group(1))

        seen[name] = (
            num(r"completed[^:\n]*:\s*(\d+)"),
            num(r"skipped (\d+)"),
            num(r"failed[^:\n]*:\s*(\d+)"),
            num(r"orphaned[^:\n]*:\s*(\d+)"),
            num(r"num blocks[^:\n]*:\s*(\d+)"),
        )
        success = "all blocks processed successfully" in part
        if success != (seen[name][0] == seen[name][4]):
            flag(f"summary of {name} claims success: {success}, counts {seen[name]}")
        more = re.search(r"\(and (\d+) more\)", part)
        listed[name] = (
            re.findall(r"block (\d+) in worker (\S+) with exception (.*)", part),
            int(more.group(1)) if more else 0,
        )
    return seen, listed


def summary(run):
    """The printed execution summary tells the truth (C24)."""
    text = open(run.screen, errors="replace").read()
    seen, listed = parse_summary(text, lambda t: run.flag({"C24"}, t))
    for name, (entries, more) in listed.items():
        want = collections.Counter()
        for e in run.events:
            if e[0] == "fail" and e[7] == "raise" and e[4] == name:
                key = run.key_of[f"{name}@{'_'.join(map(str, e[5]))}"]
                want[(run.name_of[key], e[6], str(e[3]))] += 1
        got = collections.Counter()
        for bid, wid, exc in entries:
            m = re.search(r"planned (.+) (\d+)'", exc)
            if m is None:
                run.flag({"C24"}, f"summary of {name} lists an exception nobody had: {exc[:200]}")
            got[(m.group(1), int(m.group(2)), wid)] += 1
        if got - want:
            run.flag({"C24"}, f"summary of {name} lists {dict(got - want)}, which did not happen")
        if sum(got.values()) + more != sum(want.values()):
            run.flag(
                {"C24"},
                f"summary of {name} lists {sum(got.values())} and {more} more exceptions, "
                f"there were {sum(want.values())}",
            )
        if more and sum(got.values()) < 10:
            run.flag({"C24"}, f"summary of {name} omits {more} of {more + sum(got.values())} exceptions")
        if more:
            run.st.add("long_lists")
        run.st.add("exceptions_listed", sum(got.values()))
    exp = None
    if run.states is not None:
        exp = {
            t: (
                int(s.completed_count), int(s.skipped_count), int(s.failed_count),
                int(s.orphaned_count), int(s.total_block_count),
            )
            for t, s in run.states.items()
        }
    elif run.exact and not run.foreign:
        exp = {t: run.expected[t] for t in run.model.tasks}
    if exp is not None and seen != exp:
        run.flag({"C24"}, f"summary says {seen}, truth is {exp}")
    run.st.add("summaries", len(seen))


def many_case(case):
    """More exceptions than the summary lists."""
    rng = random.Random(case["seed"])
    n = rng.randint(36, 44)
    spec = {
        "tasks": [
            {
                "id": "many", "total": [[0], [2 * n]], "read": [[0], [2]], "write": [[0], [2]],
                "fit": "valid", "conflict": False, "up": [], "max_retries": 2,
            }
        ]
    }

    class Many(ProcRun):
        def __init__(self, case, wanted):
            super().__init__(case, wanted)
            self.spec["tasks"][0]["num_workers"] = 4
            self.plan.update({name: ["raise"] * 3 for name in self.key_of})
            self.cfg["delay"] = 0
            self.cfg["slow"] = set()

    run = Many(dict(case, kind="storm", spec=spec, pskip=0), {"C24"})
    import shutil

    try:
        if run.go() is not None:
            summary(run)
        return run.st
    finally:
        shutil.rmtree(run.dir, ignore_errors=True)


class Shout:
    def __init__(self, seed):
        self.seed = seed

    def __call__(self, block):
        # lines of several workers may mix on a terminal
        for f, tag in ((sys.stdout, "OUT"), (sys.stderr, "ERR")):
            f.write(f"<{tag} {block.block_id[1]}>")
            f.flush()


class Inner:
    """Runs other blocks, in workers of its own, to process a block."""

    def __init__(self, seed, n, workers):
        self.seed, self.n, self.workers = seed, n, workers

    def __call__(self, block):
        import daisy
        from daisy import Roi, Task

        task = Task(
            "inner", Roi((0,), (2 * self.n,)), Roi((0,), (2,)), Roi((0,), (2,)), Shout(self.seed),
            num_workers=self.workers, read_write_conflict=False,
        )
        states = daisy.Server(host="127.0.0.1").run_blockwise([task])
        if any(s.completed_count != s.total_block_count for s in states.values()):
            raise RuntimeError(f"inner run ended with {states}")


def nolog_case(case):
    """With log directory None, workers print to the terminal."""
    import daisy
    from daisy import Roi, Task

    rng = random.Random(case["seed"])
    st = Stats()
    where = tempfile.mkdtemp(dir=common.SCRATCH or None)
    os.chdir(where)
    daisy.logging.set_log_basedir(None)
    n = rng.randint(1, 8)
    task = Task(
        "nolog", Roi((0,), (2 * n,)), Roi((0,), (2,)), Roi((0,), (2,)), Shout(case["seed"]),
        num_workers=rng.randint(1, 3), read_write_conflict=False,
    )
    if rng.random() < 0.4:
        # the blocks are processed by another run, inside of a worker of this one
        task = Task(
            "nolog", Roi((0,), (2,)), Roi((0,), (2,)), Roi((0,), (2,)), Inner(case["seed"], n, task.num_workers),
            num_workers=1, read_write_conflict=False,
        )
        st.add("unlogged_inner_runs")
    screen = os.path.join(where, "screen")
    fd = os.open(screen, os.O_RDWR | os.O_CREAT | os.O_APPEND)
    saved = os.dup(1), os.dup(2)
    os.dup2(fd, 1)
    os.dup2(fd, 2)
    try:
        ok = daisy.Server(host="127.0.0.1").run_blockwise([task])
    finally:
        os.dup2(saved[0], 1)
        os.dup2(saved[1], 2)
    if not all(s.completed_count == s.total_block_count for s in ok.values()):
        raise Violation(f"run without log directory ended with {ok}")
    lines = re.findall(r"<(?:OUT|ERR) \d+>", open(screen).read())
    if len(lines) != 2 * n or len(set(lines)) != 2 * n:
        raise Violation(f"without log directory, {len(lines)} of {2 * n} lines are printed: {open(screen).read()!r:.600}")
    made = sorted(x for x in os.listdir(where) if x != "screen")
    if made:
        raise Violation(f"without log directory, {made} are created")
    st.add("unlogged_lines", len(lines))
    st.see("nolog", n, case["seed"])
    return st


def outputs(run):
    """What workers print is in their log files, and only there (C22)."""
    import daisy

    want = collections.defaultdict(lambda: ([], []))
    for e in run.events:
        if e[0] != "begin":
            continue
        tid, wid, n = e[4], e[3], e[6]
        name = f"{tid}@{'_'.join(map(str, e[5]))}"
        rng = random.Random(f"{name}{n}{run.cfg['seed']}")
        for k in range(rng.randint(1, 3)):
            # same draws as in Work
            if rng.random() < 0.3:
                pass
            else:
                rng.random()
            want[(tid, wid)][0].append(f"OUT {name} {n} {k}")
            want[(tid, wid)][1].append(f"ERR {name} {n} {k}")
    base = run.logs
    run.st.add("odd_log_directories", int(not base.endswith("logs")))
    for (tid, wid), (outs, errs) in want.items():
        for suffix, lines, tag in ((".out", outs, "OUT"), (".err", errs, "ERR")):
            path = os.path.join(base, tid, f"worker_{wid}{suffix}")
            named = daisy.logging.get_worker_log_basename(wid, tid).with_suffix(suffix)
            if os.path.abspath(named) != os.path.abspath(path):
                run.flag({"C22"}, f"the log of worker {wid} is said to be {named}, not {path}")
            if not os.path.exists(path):
                run.flag({"C22"}, f"worker {wid} of task {tid} has no log {path}")
            got = [l.rstrip("\n") for l in open(path) if l.startswith(tag)]
            if got != lines:
                run.flag({"C22"}, f"log {path} has {got[:6]} ({len(got)}), worker printed {lines[:6]} ({len(lines)})")
            foreign = [l for l in open(path) if l.startswith("ERR" if tag == "OUT" else "OUT")]
            if foreign:
                run.flag({"C22"}, f"log {path} has output of the other stream: {foreign[:3]}")
            run.st.add("lines_logged", len(lines))
    text = open(run.screen, errors="replace").read()
    if re.search(r"^(OUT|ERR) ", text, flags=re.M):
        run.flag({"C22"}, "output of workers shows up in the output of the main process")
    # every worker has its own files
    run.st.add("worker_logs", len(want))


def proc_case(case, wanted, extra=None):
    how = case.get("how")
    run = ProcRun(case, wanted)
    import shutil

    try:
        ok = run.go(how)
        if ok is not None and extra is not None:
            try:
                extra(run)
            except sched.Foreign:
                run.st.add("runs_abandoned")
        return run.st
    finally:
        shutil.rmtree(run.dir, ignore_errors=True)
