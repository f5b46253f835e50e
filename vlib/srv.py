"""Runs of the real Server over real TCP connections with scripted clients.

The server runs in its own thread with a scheduler whose operations are
observed (``MonScheduler`` feeds ``sched.Monitor``), an observer records all
notifications, and *puppets* (threads with a real connection) take, return,
lose, forge and duplicate blocks according to a seeded plan.  Puppets record
what they do before they do it, so every effect at the server has to be
explained by an earlier record."""

import collections
import os
import pickle
import random
import threading
import time

from . import common, gen, geom, sched
from .common import Inconclusive, Stats, Violation


class Abort(Exception):
    pass


def make_scheduler_class(daisy):
    class MonScheduler(daisy.Scheduler):
        def __init__(self, tasks, mon, hub):
            self._mon = None
            self._hub = hub
            self._nested = 0
            super().__init__(tasks)
            self._mon = mon
            mon.attach(self)

        def acquire_block(self, task_id):
            if self._nested or self._mon is None:
                return super().acquire_block(task_id)
            self._nested += 1
            try:
                block = super().acquire_block(task_id)
            finally:
                self._nested -= 1
            with self._hub.lock:
                if block is None:
                    self._mon.on_none(task_id)
                    self._hub.no_block(task_id, self._mon.count[task_id][sched.PENDING])
                else:
                    key = self._mon.on_acquired(task_id, block)
                    self._hub.server_event("handout", key)
                self._mon.check_states(f"after a request for {task_id}")
            return block

        def release_block(self, block):
            if self._nested or self._mon is None:
                return super().release_block(block)
            with self._hub.lock:
                ok = block.status == block.status.__class__.SUCCESS
                key = self._mon.on_released(block, ok)
                if not ok:
                    self._hub.failed(key)
                self._hub.server_event("accepted_ok" if ok else "accepted_fail", key)
            self._nested += 1
            try:
                r = super().release_block(block)
            finally:
                self._nested -= 1
            with self._hub.lock:
                self._mon.check_states(f"after {key} was taken back")
            return r

    return MonScheduler


class Hub:
    """What server, observer and puppets did, in one total order."""

    def __init__(self, model, wanted, st):
        self.lock = threading.RLock()
        self.model = model
        self.wanted = set(wanted)
        self.st = st
        self.events = []
        self.problem = None
        self.holding = {}  # key -> (puppet name, block) held by a live connection
        self.legit_ok = collections.Counter()
        self.legit_fail = collections.Counter()
        self.lost = collections.Counter()
        self.lost_waiting = 0
        self.acc_ok = collections.Counter()
        self.acc_fail = collections.Counter()
        self.handouts = collections.Counter()
        self.receipts = collections.Counter()
        self.may_stop = set()
        self.waiting = {}  # puppet -> task it asked for a block of
        self.stop = threading.Event()

    def flag(self, tags, text):
        if set(tags) & self.wanted:
            e = Violation(f"{text} | last events: {self.events[-14:]}")
        else:
            e = sched.Foreign(f"{sorted(tags)} {text}")
        if self.problem is None or (
            isinstance(e, Violation) and not isinstance(self.problem, Violation)
        ):
            self.problem = e
        raise e

    def add(self, *ev):
        with self.lock:
            self.events.append(ev)

    def failed(self, key):
        pass

    def no_block(self, task_id, pending):
        if pending == 0:
            self.may_stop.add(task_id)

    def told_to_stop(self, who, task_id):
        with self.lock:
            self.events.append((who, "told to stop"))
            if task_id not in self.may_stop:
                self.flag({"C07"}, f"{who} is told that there are no more blocks of {task_id}, but there are")

    def server_event(self, what, key):
        self.events.append(("server", what, key))
        if what == "handout":
            self.handouts[key] += 1
        elif what == "accepted_ok":
            self.acc_ok[key] += 1
            if self.legit_ok[key] < self.acc_ok[key]:
                self.flag(
                    {"C06", "C12", "C11"},
                    f"block {key} counts as done, but the client it was given to did not return it as such",
                )
        else:
            self.acc_fail[key] += 1
            if self.acc_fail[key] > self.legit_fail[key] + self.lost[key] + self.lost_waiting:
                self.flag(
                    {"C06", "C12", "C11"},
                    f"block {key} counts as failed {self.acc_fail[key]} times, but clients failed it "
                    f"{self.legit_fail[key]} times and lost it at most "
                    f"{self.lost[key] + self.lost_waiting} times",
                )

    # -- puppets

    def received(self, who, block):
        with self.lock:
            key = self.model.key_of(block)
            self.events.append((who, "received", key))
            if key is None:
                self.flag({"C01", "C02"}, f"client received {block}, which does not exist")
            m = self.model.blocks[key]
            r, w = geom.box_of(block.read_roi), geom.box_of(block.write_roi)
            if (r, w) != (m.read, m.write):
                self.flag({"C01", "C02"}, f"client received {block}, should be {m}")
            if key in self.holding:
                self.flag(
                    {"C06"}, f"{who} received {key} while {self.holding[key]} still has it"
                )
            if self.model.tasks[key[0]].conflict:
                for k2 in self.holding:
                    if k2[0] == key[0] and geom.conflicting(m, self.model.blocks[k2]):
                        self.flag({"C03"}, f"{who} received {m} while {k2} is being processed")
            self.receipts[key] += 1
            if self.receipts[key] > self.handouts[key]:
                self.flag({"C06"}, f"{key} was received more often than handed out")
            self.holding[key] = who
            self.st.add("blocks_received_by_clients")
            return key

    def returns(self, who, key, ok):
        with self.lock:
            self.events.append((who, "returns", key, "ok" if ok else "fail"))
            (self.legit_ok if ok else self.legit_fail)[key] += 1
            self.holding.pop(key, None)

    def loses(self, who, key):
        with self.lock:
            self.events.append((who, "drops", key))
            if key is None:
                self.lost_waiting += 1
            else:
                self.lost[key] += 1
                self.holding.pop(key, None)
            self.st.add("connections_dropped")


class Puppet(threading.Thread):
    """A client that speaks the protocol itself."""

    def __init__(self, run, name, task_id, seed):
        super().__init__(daemon=True, name=name)
        self.run_ = run
        self.hub = run.hub
        self.task_id = task_id
        self.rng = random.Random(seed)
        self.client = None
        self.end = None

    # -- protocol

    def connect(self):
        from daisy.tcp import TCPClient

        self.client = TCPClient(self.run_.host, self.run_.port)

    def close_hard(self):
        common.close_hard(self.client)

    def send(self, msg):
        self.client.send_message(msg)

    def wait(self):
        while not self.hub.stop.is_set():
            m = self.client.get_message(timeout=0.1)
            if m is not None:
                return m
        raise Abort()

    def run(self):
        try:
            from daisy.tcp.exceptions import NotConnected, StreamClosedError
        except ImportError as e:
            self.run_.errors.append(e)
            self.run_.abort()
            return
        try:
            self.main()
        except (StreamClosedError, NotConnected):
            self.end = self.end or "closed"
        except Abort:
            self.end = "aborted"
        except (Violation, sched.Foreign):
            self.hub.stop.set()
            self.run_.abort()
        except Exception as e:
            # (the server stops listening a moment before the run is over)
            if self.run_.finished.wait(3):
                self.end = "closed"
                return
            self.end = f"error {e!r}"
            self.run_.errors.append(e)
            self.run_.abort()
        finally:
            self.hub.add(self.name, "ends", self.end)

    def main(self):
        from daisy.messages import (
            AcquireBlock,
            BlockFailed,
            ReleaseBlock,
            RequestShutdown,
            SendBlock,
        )
        from daisy import BlockStatus

        plan = self.run_.plan
        self.connect()
        if self.rng.random() < plan.get("ahead", 0):
            return self.ahead()
        stale = self.run_.stale
        while not self.hub.stop.is_set():
            self.hub.add(self.name, "requests", self.task_id)
            if self.rng.random() < plan.get("drop_waiting", 0):
                self.hub.loses(self.name, None)
                self.send(AcquireBlock(self.task_id))
                time.sleep(self.rng.choice([0, 0.001, 0.05, 0.2]))
                self.close_hard()
                self.run_.replace(self)
                self.end = "dropped"
                return
            with self.hub.lock:
                self.hub.waiting[self.name] = self.task_id
            self.send(AcquireBlock(self.task_id))
            try:
                msg = self.wait()
            finally:
                with self.hub.lock:
                    self.hub.waiting.pop(self.name, None)
            if isinstance(msg, RequestShutdown):
                self.hub.told_to_stop(self.name, self.task_id)
                self.end = "shutdown"
                self.client.disconnect()
                return
            if not isinstance(msg, SendBlock):
                self.hub.flag({"C06", "C11"}, f"client received {msg}")
            block = msg.block
            if block.task_id != self.task_id:
                self.hub.flag({"C06", "C01"}, f"client of {self.task_id} received {block}")
            key = self.hub.received(self.name, block)
            act = self.pick(key)
            self.hub.st.add(f"action_{act}")
            delay = plan.get("delay", 0)
            if delay:
                time.sleep(self.rng.random() * delay)
            self.run_.hold(self, key)
            if act in ("ok", "dup_ok", "ok_then_fail"):
                block.status = BlockStatus.SUCCESS
                self.hub.returns(self.name, key, True)
                self.send(ReleaseBlock(block))
                if act == "dup_ok":
                    self.send(ReleaseBlock(block))
                if act == "ok_then_fail":
                    b2 = block.copy()
                    b2.status = BlockStatus.FAILED
                    self.send(ReleaseBlock(b2))
                stale.append(block.copy())
            elif act in ("fail", "fail_dup", "fail_then_ok", "exc"):
                block.status = BlockStatus.FAILED
                self.hub.returns(self.name, key, False)
                if act == "exc":
                    e = self.run_.make_exception(self.rng)
                    self.run_.note_exception(key, e)
                    self.send(BlockFailed(e, block.copy(), self.run_.context(self)))
                self.send(ReleaseBlock(block))
                if act == "fail_dup":
                    self.send(ReleaseBlock(block))
                if act == "fail_then_ok":
                    b2 = block.copy()
                    b2.status = BlockStatus.SUCCESS
                    self.send(ReleaseBlock(b2))
                stale.append(block.copy())
            elif act == "drop":
                self.hub.loses(self.name, key)
                self.close_hard()
                stale.append(block.copy())
                self.run_.replace(self)
                self.end = "dropped"
                return
            elif act == "leave":
                # disconnect properly, but with a block
                self.hub.loses(self.name, key)
                self.client.disconnect()
                stale.append(block.copy())
                self.run_.replace(self)
                self.end = "left"
                return
            elif act == "ok_leave":
                # disconnecting properly does not lose what was returned
                block.status = BlockStatus.SUCCESS
                self.hub.returns(self.name, key, True)
                self.send(ReleaseBlock(block))
                self.client.disconnect()
                self.run_.replace(self)
                self.end = "left"
                return
            elif act == "drop_stale":
                # lose the connection, come back with another one and return
                # the old block through it
                self.hub.loses(self.name, key)
                self.close_hard()
                time.sleep(self.rng.choice([0, 0.05, 0.3]))
                self.connect()
                block.status = self.rng.choice([BlockStatus.SUCCESS, BlockStatus.FAILED])
                self.hub.add(self.name, "stale return", key, block.status.name)
                self.send(ReleaseBlock(block))
            elif act == "forge":
                # return blocks that this client does not have
                self.forge(BlockStatus, ReleaseBlock, BlockFailed)
                block.status = BlockStatus.SUCCESS
                self.hub.returns(self.name, key, True)
                self.send(ReleaseBlock(block))
                stale.append(block.copy())
            else:
                raise RuntimeError(act)

    def ahead(self):
        """Ask for more blocks while having some, as several threads with one
        client would."""
        from daisy import BlockStatus
        from daisy.messages import AcquireBlock, BlockFailed, ReleaseBlock, RequestShutdown, SendBlock

        rng, hub = self.rng, self.hub
        width = rng.randint(2, 4)
        open_ = 0
        held = []
        stopped = returned = waited = False
        last = 0
        while not hub.stop.is_set():
            while not stopped and not last and open_ + len(held) < width:
                hub.add(self.name, "requests", self.task_id)
                self.send(AcquireBlock(self.task_id))
                open_ += 1
            if stopped and not open_ and not held:
                self.end = "shutdown"
                self.client.disconnect()
                return
            msg = self.client.get_message(timeout=0.02 if held else 0.1) if open_ else None
            if isinstance(msg, RequestShutdown):
                hub.told_to_stop(self.name, self.task_id)
                stopped = True
                open_ -= 1
                continue
            if isinstance(msg, SendBlock):
                open_ -= 1
                block = msg.block
                if block.task_id != self.task_id:
                    hub.flag({"C06", "C01"}, f"client of {self.task_id} received {block}")
                held.append((hub.received(self.name, block), block))
                if len(held) > 1:
                    hub.st.add("clients_with_several_blocks")
                if open_ and rng.random() < 0.7:
                    continue
            elif msg is not None:
                hub.flag({"C06", "C11"}, f"client received {msg}")
            if not held:
                continue
            act = self.pick(held[0][0])
            if last == 0 and not waited and act in ("drop", "leave", "drop_stale") and open_:
                # get what was asked for before
                last, waited = 10, True
            if last and open_:
                last -= 1
                continue
            if last or act in ("drop", "leave", "drop_stale") and not open_:
                for key, block in held:
                    hub.loses(self.name, key)
                if act == "leave" or returned:
                    # (a return might be lost if the connection is cut)
                    self.client.disconnect()
                else:
                    self.close_hard()
                hub.st.add("clients_lost_with_several_blocks", int(len(held) > 1))
                self.run_.replace(self)
                self.end = "dropped"
                return
            returned, waited = True, False
            key, block = held.pop(rng.randrange(len(held)))
            if act in ("fail", "exc", "fail_dup", "fail_then_ok") or key in self.run_.plan["sticky"]:
                block.status = BlockStatus.FAILED
                hub.returns(self.name, key, False)
                if act == "exc":
                    e = self.run_.make_exception(rng)
                    self.run_.note_exception(key, e)
                    self.send(BlockFailed(e, block.copy(), self.run_.context(self)))
                self.send(ReleaseBlock(block))
            else:
                block.status = BlockStatus.SUCCESS
                hub.returns(self.name, key, True)
                self.send(ReleaseBlock(block))
                if act == "dup_ok":
                    self.send(ReleaseBlock(block))

    def forge(self, BlockStatus, ReleaseBlock, BlockFailed):
        for _ in range(self.rng.randint(1, 3)):
            b = None
            with self.hub.lock:
                mine = {k for k, w in self.hub.holding.items() if w == self.name}
                others = [k for k in self.hub.model.blocks if k not in mine]
                held = [k for k in self.hub.holding if k not in mine]
            if held and self.rng.random() < 0.6:
                b = self.run_.real_block(self.rng.choice(held))
            elif self.run_.stale and self.rng.random() < 0.5:
                cand = self.rng.choice(self.run_.stale)
                if self.hub.model.key_of(cand) not in mine:
                    b = cand.copy()
            elif others:
                b = self.run_.real_block(self.rng.choice(others))
            if b is None:
                continue
            b.status = self.rng.choice([BlockStatus.SUCCESS, BlockStatus.FAILED])
            self.hub.add(self.name, "forges", self.hub.model.key_of(b), b.status.name)
            self.hub.st.add("forged_returns")
            if self.rng.random() < 0.2:
                self.send(
                    BlockFailed(RuntimeError("forged"), b, self.run_.context(self))
                )
            else:
                self.send(ReleaseBlock(b))

    def pick(self, key):
        plan = self.run_.plan
        if key in plan["sticky"]:
            return self.rng.choice(plan["bad"])
        x = self.rng.random()
        for act, p in plan["acts"]:
            x -= p
            if x < 0:
                return act
        return "ok"


PLANS = {
    "ok": [],
    "fail": [("exc", 0.2), ("fail", 0.15)],
    "forge": [("forge", 0.3), ("dup_ok", 0.1), ("fail_dup", 0.05), ("fail_then_ok", 0.05), ("ok_then_fail", 0.1), ("exc", 0.05)],
    "drop": [("drop", 0.12), ("leave", 0.08), ("drop_stale", 0.12), ("ok_leave", 0.2), ("exc", 0.05)],
    "mix": [("drop", 0.06), ("leave", 0.03), ("drop_stale", 0.06), ("ok_leave", 0.08), ("forge", 0.1), ("exc", 0.1), ("fail", 0.05), ("dup_ok", 0.05), ("ok_then_fail", 0.05)],
}


class Run:
    """One run of the server."""

    puppet_class = Puppet

    def __init__(self, case, wanted):
        import daisy

        self.daisy = daisy
        self.case = case
        self.wanted = set(wanted)
        rng = self.rng = random.Random(case["seed"])
        self.spec = case.get("spec") or gen.spec(
            rng, max_blocks=case.get("max_blocks", 24), max_tasks=case.get("max_tasks", 3)
        )
        self.st = Stats()
        self.mon = sched.Monitor(self.spec, wanted, self.st)
        self.hub = Hub(self.mon.model, wanted, self.st)
        kind = case.get("kind", "mix")
        acts = list(PLANS[kind])
        bad = [a for a, _ in acts if a in ("exc", "fail", "drop", "leave", "drop_stale", "fail_dup")]
        sticky = set()
        if bad and rng.random() < 0.5 and self.mon.model.blocks:
            sticky.add(rng.choice(sorted(self.mon.model.blocks, key=repr)))
        self.plan = {
            "acts": acts,
            "sticky": sticky,
            "bad": bad,
            "drop_waiting": 0.08 if kind in ("drop", "mix") and rng.random() < 0.5 else 0,
            "delay": rng.choice([0, 0, 0.01, 0.05]),
            "ahead": 0.5 if case["seed"] % 4 == 0 else 0,
        }
        self.skip = 0
        self.fickle = case["seed"] % 2 == 0
        if case.get("skip") or rng.random() < 0.2:
            self.skip = rng.choice([0.2, 0.6, 1.0])
        # clients may be gone when their requests are finally answered
        self.slow_check = (
            case["seed"] % 3 > 0 if self.plan["drop_waiting"] else kind in ("drop", "mix") and case["seed"] % 3 == 1
        )
        self.errors = []
        self.stale = []
        self.puppets = []
        self.plock = threading.Lock()
        self.finished = threading.Event()
        self.notes = []
        self.exceptions = collections.defaultdict(list)
        self.result = None
        self.callbacks = []
        self.started = threading.Event()
        self.outcome = None
        self.unsent = 0

    # -- helpers for puppets

    def context(self, puppet):
        c = self.daisy.Context(
            hostname=self.host, port=self.port, task_id=puppet.task_id, worker_id=puppet.wid
        )
        return c

    def make_exception(self, rng):
        return rng.choice(
            [ValueError("boom"), KeyError(3), RuntimeError("x" * 2000), OSError(5, "io")]
        )

    def note_exception(self, key, e):
        with self.hub.lock:
            self.exceptions[key].append(repr(e))

    def real_block(self, key):
        t = self.mon.model.tasks[key[0]]
        g = self.daisy.DependencyGraph(gen.build(self.spec))
        m = self.mon.model.blocks[key]
        roi = self.daisy.Roi(m.write.b, m.write.shape)
        for b in common.task_graph(g, key[0]).get_subgraph_blocks(roi):
            if self.mon.model.key_of(b) == key:
                return b
        return None

    def hold(self, puppet, key):
        """Called while a puppet has a block."""

    def replace(self, puppet):
        self.spawn(puppet.task_id)

    def spawn(self, task_id):
        with self.plock:
            if self.finished.is_set() or self.hub.stop.is_set():
                return
            n = len(self.puppets)
            p = self.puppet_class(self, f"p{n}", task_id, self.case["seed"] * 1000 + n)
            p.wid = 1000 + n
            self.puppets.append(p)
        p.start()

    def janitor(self):
        """Clients are told to stop once no block is left to be handed out. If
        a block that is being processed at that time is lost, somebody else
        has to ask for it."""
        idle = collections.Counter()
        while not self.finished.wait(0.1):
            with self.hub.lock:
                counts = getattr(self.mon, "count", {})
                ready = [t for t, c in counts.items() if c[sched.READY]]
                called = {t for t, _ in self.callbacks}
            for tid in list(self.mon.model.tasks):
                alive = any(p.is_alive() for p in list(self.puppets) if p.task_id == tid)
                if tid in ready and tid in called and not alive:
                    idle[tid] += 1
                    if idle[tid] > 3:
                        self.st.add("clients_added_late")
                        self.spawn(tid)
                        idle[tid] = 0
                else:
                    idle[tid] = 0

    def abort(self):
        self.hub.stop.set()
        try:
            self.server.stop_event.set()
        except Exception:
            pass

    # -- the run

    def go(self):
        daisy = self.daisy
        rng = self.rng
        st = self.st
        ref = [self.mon]
        skip_of = {}

        def answer(mon, block):
            k = mon.model.key_of(block)
            if self.slow_check:
                time.sleep(rng.choice([0, 0.002, 0.02, 0.06]))
            if skip_of.get(k):
                return True
            return rng.choice([False, False, None, sched.check_error(rng)])

        def failed(k):
            # a block that failed might be found done later
            if self.fickle:
                skip_of[k] = rng.random() < min(self.skip, 0.5)

        if self.skip or self.slow_check:
            for k in self.mon.model.blocks:
                skip_of[k] = rng.random() < self.skip
            self.mon.found_done = lambda key: skip_of.get(key, False)
            self.hub.failed = failed

        def callback(tid):
            def cb(context):
                with self.hub.lock:
                    self.hub.events.append(("server", "init_callback", tid))
                    self.notes.append(("callback", tid, self.view(tid)))
                    self.callbacks.append((tid, context))
                for _ in range(self.nclients[tid]):
                    self.spawn(tid)

            return cb

        for t in self.spec["tasks"]:
            t["num_workers"] = 0
            t["init_callback_fn"] = callback(t["id"])
        self.nclients = {
            t["id"]: rng.choice([1, 2, 3, 4]) for t in self.spec["tasks"]
        }
        tasks = gen.build(
            self.spec, check=sched.CheckFn(ref, answer) if self.skip or self.slow_check else None
        )
        for t in self.spec["tasks"]:
            del t["init_callback_fn"]
        cls = make_scheduler_class(daisy)
        self.server = daisy.Server(host="127.0.0.1")
        self.host, self.port = self.server.hostname, self.server.port
        observer(self, daisy)
        out = {}

        def serve():
            try:
                mon_sched = cls(tasks, self.mon, self.hub)
                out["states"] = self.server.run_blockwise(tasks, scheduler=mon_sched)
            except (Violation, sched.Foreign) as e:
                if self.hub.problem is None:
                    self.hub.problem = e
            except BaseException as e:
                out["error"] = e
            finally:
                self.finished.set()

        th = threading.Thread(target=serve, daemon=True)
        th.start()
        threading.Thread(target=self.janitor, daemon=True).start()
        th.join(self.case.get("limit", 45))
        if th.is_alive() and self.hub.problem is None and not self.errors:
            with self.hub.lock:
                tail = self.hub.events[-10:]
                open_ = [k for k, s in self.mon.state.items() if s not in ("done", "failed", "orphaned")]
            raise Inconclusive(
                f"run did not finish; {len(open_)} blocks open, last events {tail}"
            )
        self.hub.stop.set()
        for p in list(self.puppets):
            p.join(10)
            if p.is_alive() and self.hub.problem is None and "error" not in out and not self.errors:
                raise Inconclusive(f"client {p.name} did not end after the server stopped")
        if isinstance(self.hub.problem, Violation):
            raise self.hub.problem
        if isinstance(self.hub.problem, sched.Foreign):
            st.add("runs_abandoned")
            st.sample({"abandoned": str(self.hub.problem)[:200]})
            return None
        if self.errors:
            raise self.errors[0]
        if "error" in out:
            raise out["error"]
        self.result = out["states"]
        try:
            self.mon.check_final()
            if set(self.result) != set(self.mon.model.tasks):
                self.mon.flag({"C09"}, f"states of {set(self.result)} are returned")
        except sched.Foreign:
            st.add("runs_abandoned")
            return None
        for k, m in self.mon.state.items():
            st.add(f"final_{m}")
        st.add("server_runs")
        st.add("clients", len(self.puppets))
        if len(self.mon.model.blocks) > 1:
            st.see("run", gen.describe(self.spec), self.case["seed"], tuple(map(str, self.hub.events)))
        st.sample(
            {
                "tasks": gen.describe(self.spec),
                "events": [str(e) for e in self.hub.events[:12]],
                "num_events": len(self.hub.events),
            },
            cap=1,
        )
        return self

    def view(self, tid):
        c = self.mon.count[tid]
        return dict(c)


def observer(run, daisy):
    from daisy.server_observer import ServerObserver

    class Obs(ServerObserver):
        def rec(self, *what):
            with run.hub.lock:
                run.notes.append(what)

        def on_task_start(self, task_id, task_state):
            self.rec("start", task_id, snapshot(task_state), run.view(task_id))

        def on_acquire_block(self, task_id, task_state):
            self.rec("acquire", task_id, snapshot(task_state), run.view(task_id))

        def on_release_block(self, task_id, task_state):
            self.rec("release", task_id, snapshot(task_state), run.view(task_id))

        def on_task_done(self, task_id, task_state):
            self.rec("done", task_id, snapshot(task_state), run.view(task_id))

        def on_block_failure(self, block, exception, context):
            self.rec(
                "failure",
                block.task_id,
                run.mon.model.key_of(block),
                repr(exception),
                context["task_id"],
                str(context["worker_id"]),
            )

        def on_server_exit(self):
            self.rec("exit", None)

    class Other(Obs):
        """More observers, which have to be told the same."""

        def __init__(self, server):
            self.trace = []
            super().__init__(server)

        def rec(self, *what):
            with run.hub.lock:
                self.trace.append(what)

    class Gone(Other):
        """An observer that does not want to know any more."""

    gone = Gone(run.server)
    before = Other(run.server)
    main = Obs(run.server)
    run.other_observers = [before] + [Other(run.server) for _ in range(2)]
    run.server.unregister_observer(gone)
    run.gone_observer = gone
    return main


def snapshot(s):
    return {
        "completed": int(s.completed_count),
        "failed": int(s.failed_count),
        "orphaned": int(s.orphaned_count),
        "processing": int(s.processing_count),
        "ready": int(s.ready_count),
        "total": int(s.total_block_count),
        "done": bool(s.is_done()),
    }


def server_case(case, wanted, extra=None):
    run = Run(case, wanted)
    ok = run.go()
    if ok is not None and extra is not None:
        extra(run)
    return run.st
