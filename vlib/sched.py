"""The online monitor of scheduling histories, and the driver that makes them.

``Monitor`` replays every observed operation on a reference state machine that
knows only the geometry of the tasks (``geom.Model``), the order daisy declares
between blocks of one task, and the outcomes of the blocks.  It compares what
daisy hands out, answers and counts with what the reference allows.  Every
disagreement is tagged with the properties it breaks.
"""

import collections
import pickle
import random

from . import common, gen, geom
from .common import Stats, Violation

PENDING, READY, BUSY, DONE, FAILED, ORPHAN = (
    "pending",
    "ready",
    "processing",
    "done",
    "failed",
    "orphaned",
)


# which properties a wrong counter breaks
TAGS = {
    "total_block_count": {"C09", "C01"},
    "ready_count": {"C09", "C07"},
    "pending_count": {"C09", "C07", "C08"},
    "orphaned_count": {"C09", "C08"},
    "failed_count": {"C09", "C06"},
    "completed_count": {"C09", "C06"},
    "skipped_count": {"C09", "C10"},
}


class Foreign(Exception):
    """A disagreement that is not about the property under check: the reference
    can not follow this history any further."""


def declared_intra(model, dgraph):
    """Order that daisy declares between blocks of the same task, as
    {key: set(keys that have to come first)}."""
    out = {}
    for key, blk in model.blocks.items():
        out[key] = set()
    for tid, t in model.tasks.items():
        if not t.conflict:
            continue
        g = common.task_graph(dgraph, tid)
        for block, ups in g.enumerate_all_dependencies():
            k = model.key_of(block)
            if k is None:
                continue
            for u in ups:
                ku = model.key_of(u)
                if ku is not None:
                    out[k].add(ku)
    return out


class Monitor:
    def __init__(self, spec, wanted, stats=None, count_all_orphans=True):
        self.spec = spec
        self.model = geom.Model(spec)
        self.wanted = set(wanted)
        self.st = stats or Stats()
        self.exact_orphans = count_all_orphans
        self.log = []
        self.attempts = collections.Counter()
        self.skipped = set()
        self.started = set()
        self.handed = {}
        self.scheduler = None
        # whether check_function would find a block done right now
        self.found_done = lambda key: False

    def attach(self, scheduler):
        """Read the declared order from the scheduler's own graph."""
        import daisy

        tasks = gen.build(self.spec)
        dg = daisy.DependencyGraph(tasks)
        intra = declared_intra(self.model, dg)
        self.ups = {
            k: intra[k] | self.model.inter_up(k) for k in self.model.blocks
        }
        self.inter = {k: self.model.inter_up(k) for k in self.model.blocks}
        self.downs = collections.defaultdict(set)
        for k, us in self.ups.items():
            for u in us:
                self.downs[u].add(k)
        self.state = {}
        self.missing = {k: len(us) for k, us in self.ups.items()}
        self.count = {
            t: collections.Counter({PENDING: 0}) for t in self.model.tasks
        }
        for k in self.model.blocks:
            s = READY if self.missing[k] == 0 else PENDING
            self.state[k] = s
            self.count[k[0]][s] += 1
        self.scheduler = scheduler
        self.check_states("at the start")

    # -- tools

    def flag(self, tags, text):
        tags = set(tags)
        wrong = self.wrongly_skipped()
        if wrong:
            tags.add("C10")
            text += f" | {wrong}"
        if tags & self.wanted:
            tail = self.log[-12:]
            raise Violation(f"{text} | last events: {tail}")
        raise Foreign(f"{sorted(tags)}: {text}")

    def wrongly_skipped(self):
        """Whether blocks count as skipped although check_function did not say
        that they are done."""
        if self.scheduler is None:
            return None
        for tid in self.model.tasks:
            n = sum(1 for k in self.skipped if k[0] == tid)
            m = int(self.scheduler.task_states[tid].skipped_count)
            if m > n:
                return f"task {tid} skipped {m} blocks, check_function found {n} of them done"
        return None

    def move(self, key, new):
        old = self.state[key]
        self.state[key] = new
        c = self.count[key[0]]
        c[old] -= 1
        c[new] += 1

    def finish_block(self, key):
        self.move(key, DONE)
        for d in self.downs[key]:
            self.missing[d] -= 1
            if self.missing[d] == 0 and self.state[d] == PENDING:
                self.move(d, READY)

    def fail_block(self, key):
        self.move(key, FAILED)
        todo = list(self.downs[key])
        n = 0
        while todo:
            k = todo.pop()
            if self.state[k] == PENDING:
                self.move(k, ORPHAN)
                n += 1
                todo.extend(self.downs[k])
        self.st.add("orphans_by_failures", n)

    # -- events

    def on_skip(self, block):
        """check_function said that this block is done already."""
        key = self.model.key_of(block)
        self.log.append(("skip", key))
        if key is None:
            self.flag({"C01", "C02", "C10"}, f"check_function got a block that no task has: {block}")
        s = self.state[key]
        if s != READY:
            self.flag(
                {"C10", "C05" if s == PENDING else "C06"},
                f"block {key} is checked for skipping while it is {s}",
            )
        self.skipped.add(key)
        self.st.add("blocks_skipped")
        self.finish_block(key)

    def on_checked(self, block):
        """check_function said this block is not done (or raised)."""
        key = self.model.key_of(block)
        if key is None:
            self.flag({"C01", "C02", "C10"}, f"check_function got a block that no task has: {block}")

    def on_none(self, task_id):
        self.log.append(("none", task_id))
        n = self.count[task_id][READY]
        if n > 0:
            self.flag(
                {"C07"},
                f"task {task_id} has {n} blocks whose dependencies are done, but none is handed out: "
                f"{[k for k, s in self.state.items() if s == READY and k[0] == task_id][:5]}",
            )
        self.st.add("no_block_answers")

    def on_acquired(self, task_id, block, checks=None):
        key = self.model.key_of(block)
        self.log.append(("acquired", key if key else repr(block)))
        if key is None or key[0] != task_id:
            self.flag({"C01", "C02", "C06"}, f"task {task_id} was given {block}, which is not one of its blocks")
        m = self.model.blocks[key]
        r, w = geom.box_of(block.read_roi), geom.box_of(block.write_roi)
        if r != m.read or w != m.write:
            self.flag(
                {"C01"}, f"block {key} has read {r} write {w}, should be {m.read} {m.write}"
            )
        s = self.state[key]
        if s == BUSY:
            self.flag({"C06", "C03"}, f"block {key} is handed out while it is being processed")
        if s in (DONE, FAILED):
            self.flag(
                {"C06", "C10"} if key in self.skipped else {"C06"},
                f"block {key} is handed out again although it is {s} "
                f"(attempts {self.attempts[key]})",
            )
        if self.found_done(key):
            self.flag({"C10"}, f"block {key} is handed out (attempt {self.attempts[key] + 1}) although check_function finds it done")
        # geometric checks first: they do not rely on anything daisy declares
        for k2 in list(self.handed):
            if k2[0] == task_id and self.model.tasks[task_id].conflict:
                if geom.conflicting(m, self.model.blocks[k2]):
                    self.flag(
                        {"C03"},
                        f"block {m} is handed out while {self.model.blocks[k2]} is being processed",
                    )
                self.st.add("conflict_pairs_checked")
        if s == ORPHAN:
            self.flag({"C08", "C05"}, f"block {key} is handed out although a block it depends on failed")
        if s == PENDING:
            unmet = [u for u in self.inter[key] if self.state[u] != DONE]
            if unmet:
                self.flag(
                    {"C05"},
                    f"block {m} is handed out before upstream block {self.model.blocks[unmet[0]]} "
                    f"({self.state[unmet[0]]}) succeeded",
                )
            unmet = [u for u in self.ups[key] if self.state[u] != DONE]
            self.flag(
                {"C05"},
                f"block {m} is handed out before {unmet[0]} ({self.state[unmet[0]]}), "
                "which it is declared to depend on",
            )
        self.st.add("dependencies_checked", len(self.ups[key]))
        self.attempts[key] += 1
        if self.attempts[key] > self.model.tasks[task_id].max_retries + 1:
            self.flag({"C06"}, f"block {key} is attempted {self.attempts[key]} times")
        self.handed[key] = block.block_id
        self.started.add(task_id)
        self.move(key, BUSY)
        self.st.add("blocks_handed_out")
        return key

    def on_released(self, block, ok, check_states=True):
        key = self.model.key_of(block)
        self.log.append(("released", key, "ok" if ok else "fail"))
        if key is None or self.state.get(key) != BUSY:
            self.flag({"C06"}, f"{block} is taken back although it is not being processed")
        del self.handed[key]
        self.st.add("blocks_taken_back")
        if ok:
            self.finish_block(key)
        elif self.attempts[key] <= self.model.tasks[key[0]].max_retries:
            self.move(key, READY)
            self.st.add("retries")
        else:
            before = self.count[key[0]][FAILED]
            self.fail_block(key)
            self.st.add("permanent_failures")
        return key

    # -- counters

    def check_states(self, when=""):
        if self.scheduler is None:
            return
        ts = self.scheduler.task_states
        self.st.add("state_comparisons")
        for tid, t in self.model.tasks.items():
            s = ts[tid]
            c = self.count[tid]
            n = t.num_blocks()
            sk = sum(1 for k in self.skipped if k[0] == tid)
            exp = dict(
                total_block_count=n,
                ready_count=c[READY],
                processing_count=c[BUSY],
                completed_count=c[DONE],
                skipped_count=sk,
                failed_count=c[FAILED],
                orphaned_count=c[ORPHAN],
                pending_count=c[PENDING],
            )
            tags, wrong = set(), []
            for name, e in exp.items():
                got = getattr(s, name)
                if not self.exact_orphans and name in ("orphaned_count", "pending_count"):
                    continue
                if int(got) != e:
                    tags |= TAGS.get(name, {"C09"})
                    wrong.append(f"{name} is {got}, true value is {e}")
            if wrong:
                self.flag(tags, f"{when}: task {tid}: {', '.join(wrong)}; {exp}")
            done = c[DONE] + c[FAILED] + c[ORPHAN] == n
            if self.exact_orphans and bool(s.is_done()) != done:
                self.flag({"C09", "C07"}, f"{when}: task {tid}: is_done() is {s.is_done()}, should be {done}")
            if tid in self.started and not s.started:
                self.flag({"C09"}, f"{when}: task {tid} handed out blocks but is not started")

    def check_ready_tasks(self):
        got = sorted(str(t.task_id) for t in self.scheduler.get_ready_tasks())
        exp = sorted(str(t) for t in self.model.tasks if self.count[t][READY] > 0)
        if got != exp:
            self.flag({"C07"}, f"ready tasks are {got}, should be {exp}")

    def check_final(self):
        for k, s in self.state.items():
            if s in (READY, PENDING, BUSY):
                self.flag({"C07"}, f"the run ended with block {k} {s}")
            if s == FAILED and self.attempts[k] != self.model.tasks[k[0]].max_retries + 1:
                self.flag({"C06"}, f"block {k} failed after {self.attempts[k]} attempts")
            if s == DONE and k not in self.skipped and self.attempts[k] < 1:
                self.flag({"C06"}, f"block {k} is done without having been processed")
        for tid, s in self.scheduler.task_states.items():
            if self.exact_orphans and not s.is_done():
                self.flag({"C07", "C09"}, f"task {tid} is not done at the end: {s}")


class CheckFailed(Exception):
    """An exception of the user's own."""


def check_error(rng):
    """Something that a check function might raise."""
    return rng.choice(
        [
            ValueError("check"), OSError("gone"), RuntimeError("check"), KeyError(1), AttributeError("x"),
            ZeroDivisionError(), AssertionError(), StopIteration(), ImportError("x"), MemoryError(),
            CheckFailed("no"), FileNotFoundError(2, "no such file"), RecursionError("deep"), IndexError(),
            UnicodeDecodeError("utf8", b"x", 0, 1, "bad"), EOFError(), TimeoutError(), LookupError(),
            NotImplementedError(), ConnectionResetError(), BufferError(), Exception("plain"),
        ]
    )


class CheckFn:
    """check_function whose answers the monitor sees."""

    def __init__(self, mon_ref, answer):
        self.ref = mon_ref
        self.answer = answer

    def __call__(self, tid):
        def check(block):
            mon = self.ref[0]
            a = self.answer(mon, block)
            mon.st.add("check_function_calls")
            if isinstance(a, Exception):
                mon.on_checked(block)
                raise a
            if a:
                mon.on_skip(block)
            else:
                mon.on_checked(block)
            return a

        return check


def drive(case, wanted):
    """One scheduler history.  ``case`` is {"seed": int, "mode": str, ...}"""
    import daisy
    from daisy import BlockStatus

    rng = random.Random(case["seed"])
    mode = case.get("mode", "mixed")
    spec = case.get("spec") or gen.spec(
        rng, max_blocks=case.get("max_blocks", 60), max_tasks=case.get("max_tasks", 4)
    )
    st = Stats()
    ref = [None]
    pskip = 0.0
    if mode in ("skip", "skipfail") or (mode == "mixed" and rng.random() < 0.25):
        pskip = rng.choice([0.1, 0.5, 0.9, 1.0])
    pfail = 0.0
    if mode in ("fail", "skipfail"):
        pfail = rng.choice([0.05, 0.3, 0.6, 1.0])
    elif mode == "mixed":
        pfail = rng.choice([0.0, 0.0, 0.05, 0.3, 0.7])
    # failures that hit permanently: one block always fails
    sticky = set()
    truthy = [True, 1, "yes", [0]]
    falsy = [False, False, 0, None, "", (), 0.0]
    skip_of = {}
    fickle = case["seed"] % 2 == 0

    def answer(mon, block):
        key = mon.model.key_of(block)
        if skip_of.get(key):
            return rng.choice(truthy)
        return rng.choice(falsy) if rng.random() < 0.7 else check_error(rng)

    use_check = pskip > 0 or rng.random() < 0.1
    tasks = gen.build(spec, check=CheckFn(ref, answer) if use_check else None)
    order = list(tasks)
    given = rng.choice(["all", "leaves", "shuffled"])
    if given == "leaves":
        needed = {u for t in spec["tasks"] for u in t["up"]}
        order = [t for t in tasks if t.task_id not in needed]
    elif given == "shuffled":
        rng.shuffle(order)
    exact = not (mode == "fail" and rng.random() < 0.15)
    mon = Monitor(spec, wanted, st, count_all_orphans=exact)
    ref[0] = mon
    if use_check:
        for k in mon.model.blocks:
            skip_of[k] = rng.random() < pskip
        mon.found_done = lambda key: skip_of.get(key, False)
    try:
        sched = daisy.Scheduler(order, count_all_orphans=exact)
        mon.attach(sched)
        if pfail > 0:
            keys = list(mon.model.blocks)
            for _ in range(rng.randint(0, 3)):
                if keys:
                    sticky.add(rng.choice(keys))
        held = []
        ids = list(mon.model.tasks)
        width = rng.choice([1, 2, 4, 10**6, 10**6])
        lifo = rng.choice(["lifo", "fifo", "random", "random"])
        over_wire = rng.random() < 0.3
        every = 1 if len(mon.model.blocks) < 80 else 3
        idle = 0
        step = 0
        while True:
            step += 1
            progressed = False
            if len(held) < width and (not held or rng.random() < 0.6 or width > 100):
                todo = ids[:]
                rng.shuffle(todo)
                for tid in todo:
                    b = sched.acquire_block(tid)
                    if b is None:
                        mon.on_none(tid)
                    else:
                        mon.on_acquired(tid, b)
                        held.append(b)
                        progressed = True
                    if step % every == 0:
                        mon.check_states(f"after a request for task {tid}")
                    if b is not None and len(held) >= width:
                        break
                if progressed and width > 100 and rng.random() < 0.7:
                    continue
            mon.check_ready_tasks()
            if held:
                if len(held) > 1:
                    st.add("steps_with_parallel_blocks")
                i = {"lifo": -1, "fifo": 0}.get(lifo, rng.randrange(len(held)))
                b = held.pop(i)
                key = mon.model.key_of(b)
                bad = key in sticky or rng.random() < pfail
                if over_wire:
                    b = pickle.loads(pickle.dumps(b))
                b.status = BlockStatus.FAILED if bad else BlockStatus.SUCCESS
                mon.on_released(b, not bad)
                if bad and fickle and use_check:
                    # a block that failed might be found done later
                    skip_of[key] = rng.random() < min(pskip, 0.5)
                sched.release_block(b)
                mon.check_states(f"after release of {key} ({'failed' if bad else 'ok'})")
                progressed = True
            if not held and not any(c[READY] for c in mon.count.values()):
                break
            idle = 0 if progressed else idle + 1
            if idle > len(mon.model.blocks) + 10:
                mon.flag({"C07"}, "blocks are ready, but none is ever handed out")
        mon.check_final()
    except Foreign as e:
        st.add("histories_abandoned")
        st.sample({"abandoned": str(e)[:200]})
        return st
    st.add("histories")
    if len(mon.model.blocks) > 1:
        st.see("history", gen.describe(spec), tuple(mon.log))
    st.sample(
        {
            "tasks": gen.describe(spec),
            "first_events": [str(x) for x in mon.log[:8]],
            "events": len(mon.log),
        },
        cap=1,
    )
    return st
