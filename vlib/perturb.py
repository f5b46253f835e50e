"""Delays inside of daisy's own code.

Every run picks a small random set of the instructions of daisy's concurrent
modules.  Whenever a thread of this process is about to execute one of them it
may have to pause for a moment, so that other threads run in between.  Which
instructions there are does not matter: nothing is known about the code apart
from the directory it lies in."""

import os
import random
import sys
import time
import zlib

from . import common

TOOL = 4


class Perturb:
    def __init__(self, seed, one_in=40, chance=0.5, budget=300, longest=0.02, only=None):
        self.seed = seed
        self.one_in = one_in
        self.chance = chance
        self.budget = budget
        self.longest = longest
        self.dir = os.path.realpath(os.path.join(common.REPO, "daisy")) + os.sep
        self.only = only
        self.rng = random.Random(seed)
        self.files = {}
        self.hits = 0
        self.spots = set()

    def ours(self, code):
        f = code.co_filename
        r = self.files.get(f)
        if r is None:
            p = os.path.realpath(f)
            r = p.startswith(self.dir)
            if r and self.only is not None:
                r = any(os.path.join(self.dir, o) == p or p.startswith(os.path.join(self.dir, o) + os.sep) for o in self.only)
            self.files[f] = r
        return r

    def instruction(self, code, offset):
        if not self.ours(code):
            return sys.monitoring.DISABLE
        spot = zlib.crc32(f"{self.seed}/{code.co_filename}/{code.co_name}/{code.co_firstlineno}/{offset}".encode())
        if spot % self.one_in or self.hits >= self.budget:
            return sys.monitoring.DISABLE
        # (no locks here: this process might be forked at any time)
        if self.rng.random() > self.chance:
            return None
        self.hits += 1
        self.spots.add((os.path.basename(code.co_filename), code.co_name, offset))
        time.sleep(self.longest * self.rng.random() ** 2)
        return None

    def __enter__(self):
        m = sys.monitoring
        m.use_tool_id(TOOL, "perturb")
        m.register_callback(TOOL, m.events.INSTRUCTION, self.instruction)
        m.restart_events()
        m.set_events(TOOL, m.events.INSTRUCTION)
        return self

    def __exit__(self, *a):
        m = sys.monitoring
        m.set_events(TOOL, 0)
        m.register_callback(TOOL, m.events.INSTRUCTION, None)
        m.free_tool_id(TOOL)


# where threads meet; those that do not exist (any more) are not used
PLACES = [
    "tcp",
    "tcp/tcp_stream.py",
    "tcp/tcp_client.py",
    "tcp/tcp_server.py",
    "tcp/io_looper.py",
    "client.py",
    "server.py",
    "block_bookkeeper.py",
    "scheduler.py",
    "worker_pool.py",
    "worker.py",
    "task_worker_pools.py",
    "convenience.py",
]


def perturbed(f, places=PLACES, **kw):
    """The same case, with delays."""

    def g(case):
        rng = random.Random(f"perturb {case['seed']}")
        there = [p for p in places if os.path.exists(os.path.join(common.REPO, "daisy", p))]
        only = [rng.choice(there)] if there and rng.random() < 0.8 else None
        one_in = rng.choice([4, 15, 40] if only else [40, 100])
        with Perturb(rng.random(), one_in=one_in, chance=rng.choice([0.2, 1.0]), only=only, **kw) as p:
            st = f(case)
        if p.hits and st is not None:
            st.add("delays_inside_of_daisy", p.hits)
            for s in p.spots:
                st.see("delayed", *s)
        return st

    return g
