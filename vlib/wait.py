"""Requests that have to wait (C07).

Some blocks are held for a long time.  Once nothing happens any more, every
request that is still open has to be one that must wait: for a task with pending
blocks none of which is ready.  All others should have been answered long ago,
with a block or with the news that there are no more."""

import random
import threading
import time

from . import gen, geom, sched, srv
from .common import Inconclusive

QUIET = 2.0  # the server looks at delayed requests ten times a second


class WaitRun(srv.Run):
    def __init__(self, case, wanted):
        super().__init__(case, wanted)
        rng = random.Random(case["seed"] + 7)
        blocks = self.mon.model.blocks
        tids = sorted({k[0] for k in blocks})
        self.slow = set()
        how = rng.choice(["task", "task", "blocks", "both"])
        if how in ("task", "both") and tids:
            t = rng.choice(tids)
            self.slow |= {k for k in blocks if k[0] == t}
        if how in ("blocks", "both") and blocks:
            keys = sorted(blocks, key=repr)
            self.slow |= set(rng.sample(keys, min(len(keys), rng.randint(1, 4))))
        self.plan["delay"] = 0
        self.plan["ahead"] = 0
        self.gate = threading.Event()
        self.points = rng.randint(1, 2)
        self.unanswered = None
        self.held = {}

    def hold(self, puppet, key):
        if key in self.slow:
            mine = threading.Event()
            with self.hub.lock:
                self.held[puppet.name] = mine
            while not (mine.is_set() or self.gate.is_set() or self.hub.stop.is_set() or self.finished.is_set()):
                mine.wait(0.1)
            with self.hub.lock:
                self.held.pop(puppet.name, None)

    def watch(self):
        rng = random.Random(self.case["seed"] + 8)
        last, since = None, time.monotonic()
        while not self.finished.wait(0.05):
            with self.hub.lock:
                now = len(self.hub.events)
            if now != last:
                last, since = now, time.monotonic()
                continue
            if time.monotonic() - since < QUIET:
                continue
            with self.hub.lock:
                if len(self.hub.events) != last:
                    continue
                asked = dict(self.hub.waiting)
                held = dict(self.held)
                counts = {t: dict(c) for t, c in self.mon.count.items()}
            if not held:
                if not asked:
                    since = time.monotonic()
                    continue
            for who, tid in asked.items():
                c = counts[tid]
                if c.get(sched.READY, 0) or not c.get(sched.PENDING, 0):
                    self.unanswered = (
                        f"{who} asked for a block of {tid} and got no answer for {QUIET} s, while "
                        f"{c.get(sched.READY, 0)} blocks of it are ready and {c.get(sched.PENDING, 0)} pending "
                        f"({len(held)} blocks are being processed)"
                    )
                else:
                    self.st.add("requests_rightly_waiting")
            if self.unanswered:
                self.gate.set()
                return
            if held:
                self.st.add("quiet_points")
            self.points -= 1
            if self.points <= 0:
                self.gate.set()
            elif held:
                held[rng.choice(sorted(held))].set()
            last = None


def wait_case(case, wanted):
    rng = random.Random(case["seed"])
    for _ in range(100):
        spec = gen.spec(rng, max_blocks=18, max_tasks=4)
        if len(spec["tasks"]) > 1 and len({t["id"] for t in spec["tasks"] if geom.MTask(t).num_blocks()}) > 1:
            break
    run = WaitRun(dict(case, spec=spec), wanted)
    th = threading.Thread(target=run.watch, daemon=True)
    th.start()
    run.go()
    if run.unanswered:
        raise Inconclusive(run.unanswered)
    return run.st
