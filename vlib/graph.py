"""Checkers of block enumeration, identity and declared dependencies.

They observe the real graph objects through their public queries and compare
with the geometric model (vlib.geom)."""

import copy
import itertools
import math
import os
import pickle
import random
import sys

from . import common, gen, geom
from .common import Stats, Violation


def _case_spec(case, rng, max_blocks=120, max_tasks=3):
    return case.get("spec") or gen.spec(
        rng,
        max_blocks=case.get("max_blocks", max_blocks),
        max_tasks=case.get("max_tasks", max_tasks),
    )


def _drain(daisy, tasks):
    """All blocks a scheduler hands out when everything succeeds, through
    requests in all possible places."""
    sched = daisy.Scheduler(tasks)
    out = []
    held = []
    limit = 20 * sum(int(s.total_block_count) for s in sched.task_states.values()) + 100
    while True:
        got = False
        for t in tasks:
            b = sched.acquire_block(t.task_id)
            if b is not None:
                out.append(b)
                held.append(b)
                got = True
        if not got:
            if not held:
                return out
            for b in held:
                b.status = daisy.BlockStatus.SUCCESS
                sched.release_block(b)
            held = []
        if len(out) > limit:
            raise Violation(f"the scheduler handed out more than {limit} blocks")


def enumerations(daisy, spec, tasks):
    """Different ways to get all blocks of every task: {name: [blocks]}"""
    dg = daisy.DependencyGraph(tasks)
    out = {}
    per = {}
    for t in spec["tasks"]:
        g = common.task_graph(dg, t["id"])
        per[t["id"]] = [b for b, _ in g.enumerate_all_dependencies()]
    out["graph"] = per
    per = {}
    for t in spec["tasks"]:
        g = common.task_graph(dg, t["id"])
        per[t["id"]] = [
            b for level in range(g.num_levels) for b in g.level_blocks(level)
        ]
    out["levels"] = per
    per = {}
    for t in spec["tasks"]:
        m = geom.MTask(t)
        g = daisy.BlockwiseDependencyGraph(
            t["id"],
            daisy.Roi(*t["read"]),
            daisy.Roi(*t["write"]),
            t["conflict"],
            t["fit"],
            total_write_roi=daisy.Roi(m.twrite.b, m.twrite.shape),
        )
        per[t["id"]] = [b for b, _ in g.enumerate_all_dependencies()]
    out["graph from the total write ROI"] = per
    if sum(geom.MTask(t).num_blocks() for t in spec["tasks"]) <= 70:
        per = {t["id"]: [] for t in spec["tasks"]}
        for b in _drain(daisy, tasks):
            per[b.task_id].append(b)
        out["scheduler"] = per
    return dg, out


def tiling(case):
    """C01"""
    import daisy

    rng = random.Random(case["seed"])
    spec = _case_spec(case, rng, max_blocks=200)
    tasks = gen.build(spec)
    st = Stats()
    dg, enums = enumerations(daisy, spec, tasks)
    for t in spec["tasks"]:
        m = geom.MTask(t)
        exp = {}
        for idx in m.indices():
            b = m.block(idx)
            exp[(b.read, b.write)] = idx
        n = m.num_blocks()
        for name, per in enums.items():
            got = [
                (geom.box_of(b.read_roi), geom.box_of(b.write_roi)) for b in per[t["id"]]
            ]
            # first principles, on what daisy produced
            if len(set(got)) != len(got):
                raise Violation(f"{name}: task {t} enumerates a block twice")
            vol = sum(w.volume() for _, w in got)
            for r, w in got:
                if w.empty:
                    raise Violation(f"{name}: empty write ROI {w} in {t}")
                if t["fit"] != "overhang" and not (w.inside(m.twrite) and r.inside(m.total)):
                    raise Violation(f"{name}: block r{r} w{w} leaves the total ROI of {t}")
                if geom.sub(w.b, r.b) != m.lo or geom.sub(r.e, w.e) != m.hi:
                    raise Violation(f"{name}: block r{r} w{w} has another context than {t}")
            if t["fit"] == "shrink" and vol != m.twrite.volume():
                raise Violation(
                    f"{name}: blocks write {vol} voxels of {m.twrite.volume()} in {t}"
                )
            inside = sum(w.cut(m.twrite).volume() for _, w in got)
            if t["fit"] == "overhang" and inside != m.twrite.volume():
                raise Violation(
                    f"{name}: blocks cover {inside} voxels of {m.twrite.volume()} in {t}"
                )
            ws = [w for _, w in got]
            if len(ws) <= 120:
                for a, b in itertools.combinations(ws, 2):
                    if a.meets(b):
                        raise Violation(f"{name}: write ROIs {a} and {b} overlap in {t}")
                    st.add("pairs_of_write_rois")
            if set(got) != set(exp):
                miss = [x for x in exp if x not in set(got)][:3]
                extra = [x for x in got if x not in exp][:3]
                raise Violation(f"{name}: missing {miss}, unexpected {extra} in {t}")
            st.add("blocks_enumerated", len(got))
        counts = {
            "graph": int(dg.num_blocks(t["id"])),
            "task graph": int(common.task_graph(dg, t["id"]).num_blocks),
            "scheduler": int(
                daisy.Scheduler(tasks).task_states[t["id"]].total_block_count
            ),
        }
        for name, c in counts.items():
            if c != n:
                raise Violation(f"{name} announces {c} blocks, there are {n} in {t}")
        st.add("tasks")
        st.add(f"fit_{t['fit']}")
        if n == 0:
            st.add("tasks_without_blocks")
        if n > 1:
            st.see("tiling", t["total"], t["read"], t["write"], t["fit"])
    st.sample({"tasks": gen.describe(spec)}, cap=1)
    return st


def identity(case):
    """C02"""
    import daisy

    rng = random.Random(case["seed"])
    spec = _case_spec(case, rng, max_blocks=150)
    st = Stats()
    tasks = gen.build(spec)
    dg, enums = enumerations(daisy, spec, tasks)
    model = geom.Model(spec)
    known = {}  # model key -> block id
    ids = {}  # block id -> model key

    def learn(b, where):
        key = model.key_of(b)
        if key is None:
            raise Violation(f"{where}: {b} is not a block of {spec}")
        bid = b.block_id
        if not (isinstance(bid, tuple) and len(bid) == 2 and bid[0] == b.task_id == key[0]):
            raise Violation(f"{where}: block {key} has id {bid}, task {b.task_id}")
        if known.setdefault(key, bid) != bid:
            raise Violation(f"{where}: block {key} has id {bid}, elsewhere {known[key]}")
        if ids.setdefault(bid, key) != key:
            raise Violation(f"{where}: blocks {key} and {ids[bid]} have the same id {bid}")
        hash(bid)
        st.add("identities_compared")

    for name, per in enums.items():
        for tid, blocks in per.items():
            for b in blocks:
                learn(b, name)
            if len({b.block_id for b in blocks}) != len(blocks):
                raise Violation(f"{name}: block ids of task {tid} are not unique")
    dg2 = daisy.DependencyGraph(gen.build(spec))
    blocks = [b for per in enums["graph"].values() for b in per]
    rng.shuffle(blocks)
    for b in blocks[:80]:
        for u in dg.upstream(b):
            learn(u, "upstream")
        for u in dg.downstream(b):
            learn(u, "downstream")
        for u in dg2.upstream(b):
            learn(u, "upstream of a second graph")
        for roi in (b.read_roi, b.write_roi):
            for rr in (True, False):
                for u in common.task_graph(dg, b.task_id).get_subgraph_blocks(
                    roi, read_roi=rr
                ):
                    learn(u, "get_subgraph_blocks")
        # equality and hash follow the identity, copies keep everything
        b.status = rng.choice(list(daisy.BlockStatus))
        for how, c in (
            ("copy()", b.copy()),
            ("pickle", pickle.loads(pickle.dumps(b))),
            ("deepcopy", copy.deepcopy(b)),
        ):
            if c is b:
                raise Violation(f"{how} of a block is the same object")
            if not (c == b and hash(c) == hash(b) and c.block_id == b.block_id):
                raise Violation(f"{how} of block {b} has another identity: {c}")
            if (c.read_roi, c.write_roi, c.status, c.task_id) != (
                b.read_roi,
                b.write_roi,
                b.status,
                b.task_id,
            ):
                raise Violation(f"{how} of block {b} {b.status} differs: {c} {c.status}")
            c.status = daisy.BlockStatus.FAILED
            before = b.status
            c.read_roi = c.read_roi.grow(1, 1)
            if b.status != before or b.read_roi == c.read_roi:
                raise Violation(f"{how} of a block shares state with the original")
            # ROIs can be changed in place
            before = (str(b.read_roi), str(b.write_roi))
            for roi in (c.read_roi, c.write_roi):
                roi.offset = roi.offset + 1
                roi.shape = roi.shape + 1
            if (str(b.read_roi), str(b.write_roi)) != before:
                raise Violation(f"{how} of a block shares its ROIs with the original")
            st.add("copies_compared")
    for tid, (num, it) in dg.roots().items():
        for b in it:
            learn(b, "roots")
    if len(blocks) > 1:
        some = blocks[: min(40, len(blocks))]
        for a, b in itertools.combinations(some, 2):
            if (a == b) != (model.key_of(a) == model.key_of(b)):
                raise Violation(f"blocks {a} and {b}: equality is {a == b}")
        if len(set(blocks)) != len(blocks):
            raise Violation("blocks collide in a set")
        st.see("identity", gen.describe(spec))
    st.sample({"tasks": gen.describe(spec), "ids": list(ids)[:5]}, cap=1)
    return st


ELSEWHERE = """
import os, pickle, sys
sys.dont_write_bytecode = True
sys.path[:0] = [sys.argv[1], sys.argv[2]]
spec = pickle.loads(sys.stdin.buffer.read())
import logging
logging.disable(logging.CRITICAL)
import daisy
from vlib import common, gen, geom
model = geom.Model(spec)
dg = daisy.DependencyGraph(gen.build(spec))
out = []
for t in spec["tasks"]:
    for b, ups in common.task_graph(dg, t["id"]).enumerate_all_dependencies():
        out.append((model.key_of(b), b.block_id))
        out.extend((model.key_of(u), u.block_id) for u in dg.upstream(b))
sys.stdout.buffer.write(pickle.dumps(out))
"""


def elsewhere(case):
    """C02: ids in new interpreters"""
    import daisy
    import subprocess
    import sys
    from .common import REPO, VERIF

    rng = random.Random(case["seed"])
    spec = _case_spec(case, rng, max_blocks=80)
    st = Stats()
    dg = daisy.DependencyGraph(gen.build(spec))
    model = geom.Model(spec)
    here = {}
    for t in spec["tasks"]:
        for b, _ in common.task_graph(dg, t["id"]).enumerate_all_dependencies():
            here[model.key_of(b)] = b.block_id
    for _ in range(2):
        env = dict(os.environ, PYTHONHASHSEED=str(rng.randrange(1, 10**6)))
        p = subprocess.run(
            [sys.executable, "-c", ELSEWHERE, REPO, VERIF], input=pickle.dumps(spec),
            stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=120,
        )
        if p.returncode != 0:
            raise Violation(f"blocks can not be enumerated in a new process: {p.stderr.decode()[-300:]}")
        for key, bid in pickle.loads(p.stdout):
            if here.get(key) != bid:
                raise Violation(f"block {key} has id {bid} in a new process, {here.get(key)} here")
            st.add("ids_in_new_processes")
    if len(here) > 1:
        st.see("elsewhere", gen.describe(spec))
    return st


def dependencies(case):
    """C04"""
    import daisy

    rng = random.Random(case["seed"])
    spec = _case_spec(case, rng, max_blocks=140)
    st = Stats()
    tasks = gen.build(spec)
    model = geom.Model(spec)
    dg = daisy.DependencyGraph(tasks)
    blocks = {}
    for t in spec["tasks"]:
        g = common.task_graph(dg, t["id"])
        for b, ups in g.enumerate_all_dependencies():
            k = model.key_of(b)
            if k is None:
                raise Violation(f"{b} is not a block of {t}")
            blocks[k] = (b, ups)

    def keys(bs, where, unique=True):
        out = []
        for b in bs:
            k = model.key_of(b)
            if k is None:
                raise Violation(f"{where} is {b}, which does not exist")
            m = model.blocks[k]
            if geom.box_of(b.read_roi) != m.read or geom.box_of(b.write_roi) != m.write:
                raise Violation(f"{where} is {b}, which should be {m}")
            out.append(k)
        if unique and len(set(out)) != len(out):
            raise Violation(f"{where}: the same block is listed twice: {out}")
        return set(out)

    up, down = {}, {}
    for k, (b, ups) in blocks.items():
        up[k] = keys(dg.upstream(b), f"an upstream block of {k}")
        down[k] = keys(dg.downstream(b), f"a downstream block of {k}")
        intra = {x for x in up[k] if x[0] == k[0]}
        if keys(ups, f"an upstream block of {k}") != intra:
            raise Violation(f"enumerated dependencies of {k} differ from upstream()")
        inter = {x for x in up[k] if x[0] != k[0]}
        exp = model.inter_up(k)
        if inter != exp:
            raise Violation(
                f"block {model.blocks[k]} depends on {sorted(inter - exp)} too much and misses "
                f"{[model.blocks[x] for x in sorted(exp - inter)]}"
            )
        if not model.tasks[k[0]].conflict and intra:
            raise Violation(f"block {k} depends on {intra} although reads and writes do not conflict")
        st.add("blocks")
        st.add("inter_task_dependencies", len(inter))
        st.add("intra_task_dependencies", len(intra))
    for k in up:
        for u in up[k]:
            if k not in down[u]:
                raise Violation(f"{u} is upstream of {k}, but {k} is not downstream of {u}")
        for d in down[k]:
            if k not in up[d]:
                raise Violation(f"{d} is downstream of {k}, but {k} is not upstream of {d}")
    # acyclic, and conflicting blocks are ordered (transitively)
    order = []
    missing = {k: len(us) for k, us in up.items()}
    todo = [k for k, n in missing.items() if n == 0]
    depth = {k: 1 for k in todo}
    while todo:
        k = todo.pop()
        order.append(k)
        for d in down[k]:
            missing[d] -= 1
            if d[0] == k[0]:
                depth[d] = max(depth.get(d, 1), depth.get(k, 1) + 1)
            else:
                depth.setdefault(d, 1)
            if missing[d] == 0:
                todo.append(d)
    if len(order) != len(up):
        raise Violation(f"dependencies are cyclic: {[k for k, n in missing.items() if n][:6]}")
    bit = {k: 1 << i for i, k in enumerate(order)}
    anc = {}
    for k in order:
        a = 0
        for u in up[k]:
            if u[0] == k[0]:
                a |= anc[u] | bit[u]
        anc[k] = a
    for t in model.tasks.values():
        if not t.conflict:
            continue
        mine = [k for k in order if k[0] == t.id]
        for a, b in itertools.combinations(mine, 2):
            st.add("pairs")
            if geom.conflicting(model.blocks[a], model.blocks[b]):
                st.add("conflicting_pairs")
                if not (anc[a] & bit[b] or anc[b] & bit[a]):
                    raise Violation(
                        f"blocks {model.blocks[a]} and {model.blocks[b]} conflict, but none is "
                        f"ordered before the other in {t.spec}"
                    )
        # the length of chains does not depend on the volume
        bound = 1
        for lo, hi, w, g in zip(t.lo, t.hi, t.wshape, t.grid):
            bound *= min(-(-(max(lo, hi) + w) // w), max(1, g))
        deepest = max([depth[k] for k in mine] or [0])
        if deepest > bound:
            raise Violation(
                f"chain of {deepest} dependent blocks in one task, {bound} suffice: {t.spec}"
            )
        st.add("depth_bounds")
    # blocks found for arbitrary regions
    for t in model.tasks.values():
        g = common.task_graph(dg, t.id)
        for _ in range(12):
            span = [
                (b - 2 * w - 3, e + 2 * w + 3)
                for b, e, w in zip(t.total.b, t.total.e, t.wshape)
            ]
            lo = [rng.randint(a, b) for a, b in span]
            if rng.random() < 0.5:
                sh = [rng.randint(1, 2 * w + 1) for w in t.wshape]
            else:
                sh = [rng.randint(1, max(1, (b - a))) for a, b in span]
            box = geom.Box.of(tuple(lo), tuple(sh))
            roi = daisy.Roi(tuple(lo), tuple(sh))
            for rr in (False, True):
                got = keys(
                    g.get_subgraph_blocks(roi, read_roi=rr), f"get_subgraph_blocks({roi},{rr})"
                )
                exp = {
                    b.key
                    for b in (t.reading_from(box) if rr else t.writing_into(box))
                }
                if rr and t.fit == "shrink":
                    # the read ROI of shrunk blocks is cut: both answers are safe
                    cand = {b.key for b in _uncut_readers(t, box)}
                    ok = exp <= got <= cand
                else:
                    ok = got == exp
                if not ok:
                    raise Violation(
                        f"blocks {'reading' if rr else 'writing'} in {box}: missing "
                        f"{sorted(exp - got)}, too much {sorted(got - exp)} in {t.spec}"
                    )
                st.add("region_queries")
    # roots: exactly the blocks without dependencies
    roots = {}
    for tid, (num, it) in dg.roots().items():
        lst = list(it)
        roots[tid] = keys(lst, f"a root of {tid}")
        if len(lst) != int(num):
            raise Violation(f"{num} roots of {tid} announced, {len(lst)} produced")
    exp = {k for k in up if not up[k]}
    got = set().union(*roots.values()) if roots else set()
    if got != exp:
        raise Violation(
            f"blocks without dependencies: missing {sorted(exp - got)[:5]}, "
            f"too much {sorted(got - exp)[:5]} in {gen.describe(spec)}"
        )
    if len(up) > 1:
        st.see("deps", gen.describe(spec))
    st.sample({"tasks": gen.describe(spec)}, cap=1)
    return st


def _uncut_readers(t, box):
    out = []
    for idx in t.indices():
        b = t.block(idx)
        wb = geom.add(t.twrite.b, tuple(i * w for i, w in zip(idx, t.wshape)))
        read = geom.Box(
            geom.sub(wb, t.lo), geom.add(geom.add(wb, t.wshape), t.hi)
        )
        if read.meets(box):
            out.append(b)
    return out


def laziness(case):
    """C20"""
    import daisy
    from daisy.block import Block

    rng = random.Random(case["seed"])
    d = rng.choice([1, 2, 3])
    write = tuple(rng.randint(1, 3) for _ in range(d))
    lo = tuple(rng.randint(0, 2 * w) for w in write)
    hi = tuple(rng.randint(0, 2 * w) for w in write)
    ntasks = rng.choice([1, 1, 2, 3])
    conflict = [rng.random() < 0.7 for _ in range(ntasks)]
    fit = rng.choice(["valid", "overhang", "shrink"])
    ctx_of = [
        (tuple(rng.randint(0, w) for w in write), tuple(rng.randint(0, w) for w in write))
        for _ in range(ntasks)
    ]
    ctx_of[0] = (lo, hi)
    steps = 60

    def make(n):
        ext = tuple(n * w for w in write)
        tasks = []
        for k in range(ntasks):
            a, b = ctx_of[k]
            tasks.append(
                dict(
                    id=f"T{k}",
                    total=(tuple(-x for x in a), tuple(x + e + y for x, e, y in zip(a, ext, b))),
                    read=(tuple(-x for x in a), tuple(x + w + y for x, w, y in zip(a, write, b))),
                    write=((0,) * d, write),
                    fit=fit,
                    conflict=conflict[k],
                    up=[f"T{k-1}"] if k else [],
                    max_retries=1,
                )
            )
        return {"tasks": tasks}

    plan = [(rng.random(), rng.random()) for _ in range(steps)]

    class TooMuch(BaseException):
        pass

    def measure(n, limit=None):
        """(cost of preparing, cost of every step, announced blocks), where the
        cost is (block objects created, functions called)."""
        count = [0]
        calls = [0]
        orig = Block.__init__

        def counting(self, *a, **kw):
            count[0] += 1
            return orig(self, *a, **kw)

        def profile(frame, event, arg):
            if event == "call" or event == "c_call":
                calls[0] += 1
                if limit is not None and calls[0] > limit:
                    sys.setprofile(None)
                    raise TooMuch()

        def cost(f, *a):
            count[0] = calls[0] = 0
            sys.setprofile(profile)
            try:
                r = f(*a)
            except TooMuch:
                r = TooMuch
            finally:
                sys.setprofile(None)
            return r, (count[0], calls[0])

        tasks = gen.build(make(n))
        Block.__init__ = counting
        try:
            sched, build = cost(daisy.Scheduler, tasks)
            if sched is TooMuch:
                return build, [], None
            per = []
            held = []
            for x, y in plan:
                if not held or x < 0.5:
                    b, c = cost(sched.acquire_block, tasks[int(y * ntasks)].task_id)
                    if b is not None and b is not TooMuch:
                        held.append(b)
                else:
                    b = held.pop(int(y * len(held)))
                    b.status = daisy.BlockStatus.SUCCESS
                    b, c = cost(sched.release_block, b)
                per.append(c)
                if b is TooMuch:
                    break
            return build, per, int(sched.task_states["T0"].total_block_count)
        finally:
            Block.__init__ = orig

    st = Stats()
    n0 = {1: 400, 2: 40, 3: 14}[d]
    n1 = {1: 10**7, 2: 10**4, 3: 10**3}[d]
    small = measure(n0)
    worst = max(c for _, c in small[1])
    cap_calls = 8 * max(small[0][1], worst) + 100_000
    large = measure(n1, cap_calls)
    if large[0][0] > small[0][0] + 16 or large[0][1] > cap_calls:
        raise Violation(
            f"preparing {n1**d} blocks needs {large[0]} (blocks, calls), {n0**d} need {small[0]}: {make(n1)}"
        )
    # a neighbourhood of blocks per step, whatever the volume
    most = max(v for v, _ in small[1])
    for i, (v, c) in enumerate(large[1]):
        if v > 4 * most + 64 or c > cap_calls:
            raise Violation(
                f"step {i} needs {v} blocks, {c} calls for a volume of {n1**d} blocks "
                f"(at most {most}, {worst} for {n0**d}): {make(n1)}"
            )
    if large[2] != n1**d:
        raise Violation(f"{large[2]} blocks announced, there are {n1**d}")
    st.add("steps", 2 * steps)
    st.add("blocks_in_large_volumes", n1**d)
    st.add("block_objects_created", sum(v for v, _ in [small[0], large[0]] + small[1] + large[1]))
    st.add("calls_counted", sum(c for _, c in [small[0], large[0]] + small[1] + large[1]))
    st.see("lazy", d, write, ctx_of, fit, conflict, plan[0])
    st.sample(
        {
            "n": [n0**d, n1**d], "prepare": [small[0], large[0]],
            "max_calls_per_step": [worst, max(c for _, c in large[1])],
        },
        cap=1,
    )
    return st


def expansion(case):
    """C21"""
    import daisy
    from daisy.blocks import expand_request_roi_to_grid

    rng = random.Random(case["seed"])
    st = Stats()
    for _ in range(40):
        t = gen.geometry(rng, max_blocks=10**6)
        m = geom.MTask(dict(t, id="A", conflict=True, up=[]))
        d = len(m.wshape)
        total = daisy.Roi(*t["total"])
        read = daisy.Roi(*t["read"])
        write = daisy.Roi(*t["write"])
        lo = tuple(rng.randint(b - 3 * w - 2, e + 3 * w) for b, e, w in zip(m.total.b, m.total.e, m.wshape))
        sh = tuple(rng.randint(1, 4 * w + 1) for w in m.wshape)
        box = geom.Box.of(lo, sh)
        roi = daisy.Roi(lo, sh)

        def smallest(grid):
            b = tuple(g + ((x - g) // w) * w for x, g, w in zip(box.b, grid, m.wshape))
            e = tuple(g - ((g - x) // w) * w for x, g, w in zip(box.e, grid, m.wshape))
            return geom.Box(b, e)

        exp = smallest(m.twrite.b)
        got = geom.box_of(daisy.expand_roi_to_grid(roi, total, read, write))
        if got != exp:
            raise Violation(f"expand_roi_to_grid({roi}) with {t} is {got}, smallest is {exp}")
        got = geom.box_of(daisy.expand_write_roi_to_grid(roi, write))
        exp0 = smallest((0,) * d)
        if got != exp0:
            raise Violation(f"expand_write_roi_to_grid({roi},{write}) is {got}, smallest is {exp0}")
        got = geom.box_of(expand_request_roi_to_grid(roi, total, read, write))
        expr = geom.Box(geom.sub(exp.b, m.lo), geom.add(exp.e, m.hi))
        if got != expr:
            raise Violation(f"expand_request_roi_to_grid({roi}) with {t} is {got}, not {expr}")
        st.add("expansions", 3)
        if exp != box:
            st.see("expand", t, lo, sh)
        st.sample({"roi": [lo, sh], "write": t["write"], "expanded": str(exp)}, cap=1)
    return st


FAR = {1: 40, 2: 20, 3: 13, 4: 9}  # bits per dimension


def far(case, props):
    """C01, C02, C04: volumes far too large to enumerate, looked at in places."""
    import daisy

    rng = random.Random(case["seed"])
    st = Stats()
    d = rng.choice([1, 2, 3, 3, 4])
    base = gen.geometry(rng, dims=d, max_blocks=10**9, zero_ok=False)
    bits = FAR[d]

    def volume(t, extra):
        """The same block in a volume of up to 2**bits blocks per dimension."""
        lo, hi = geom.MTask(dict(t, id="x", conflict=True)).lo, geom.MTask(dict(t, id="x", conflict=True)).hi
        ext = [n * w + rng.randint(0, w - 1) for n, w in zip(extra, t["write"][1])]
        return (t["total"][0], tuple(l + e + h for l, e, h in zip(lo, ext, hi)))

    many = [rng.choice([rng.randint(1, 9), 2 ** rng.randint(1, bits), rng.randint(1, 2**bits), 10**6 % 2**bits + 1]) for _ in range(d)]
    many[rng.randrange(d)] = rng.randint(2 ** (bits - 1), 2**bits)
    base["total"] = volume(base, many)
    specs = [dict(base, id="A", conflict=rng.random() < 0.8, up=[], max_retries=1)]
    m = geom.MTask(specs[0])
    if rng.random() < 0.6:
        t = gen.geometry(rng, dims=d, max_blocks=10**9, big=False, zero_ok=False)
        r, w = t["read"], t["write"]
        scale = tuple(max(1, x // 3) for x in m.wshape)
        t["read"] = tuple(tuple(a * s for a, s in zip(v, scale)) for v in r)
        t["write"] = tuple(tuple(a * s for a, s in zip(v, scale)) for v in w)
        shift = [rng.choice([0, rng.randint(-30, 30)]) for _ in range(d)]
        t["total"] = (tuple(x + s for x, s in zip(m.total.b, shift)), m.total.shape)
        specs.append(dict(t, id="B", conflict=rng.random() < 0.6, up=["A"], max_retries=1))
    spec = {"tasks": specs}
    mtasks = {t["id"]: geom.MTask(t) for t in specs}
    if any(0 in t.grid for t in mtasks.values()):
        return st
    for t in mtasks.values():  # not too many neighbours, nor too many levels
        near = 1
        for other in [t] + [mtasks[u] for u in t.up]:
            for a in (t, other):
                for b in (t, other):
                    near = max(near, math.prod(2 * r // w + 3 for r, w in zip(a.bread.shape, b.wshape)))
        if near > 1200:
            return st
    dg = daisy.DependencyGraph(gen.build(spec))
    known, ids = {}, {}
    if "C01" in props:
        for t in mtasks.values():
            if dg.num_blocks(t.id) != math.prod(t.grid):
                raise Violation(
                    f"task {t.id} is said to have {dg.num_blocks(t.id)} blocks, should be {math.prod(t.grid)}: "
                    f"{gen.describe(spec)}"
                )
            st.add("far_counts")
        # counts that are not representable as floating point numbers
        d2 = rng.randint(1, 3)
        w = tuple(rng.randint(1, 4) for _ in range(d2))
        n = tuple(2 * rng.randint(2 ** (60 // d2 - 3), 2 ** (60 // d2 - 1) - 1) + 1 for _ in range(d2))
        c = tuple(rng.randint(0, 2) for _ in range(d2))
        fit = rng.choice(["valid", "overhang", "shrink"])
        cut = tuple(rng.randint(0, x - 1) for x in w)
        shape = tuple(a * b + (e if fit == "valid" else -e) + 2 * x for a, b, e, x in zip(n, w, cut, c))
        task = daisy.Task(
            "N", daisy.Roi((0,) * d2, shape), daisy.Roi((0,) * d2, tuple(a + 2 * b for a, b in zip(w, c))),
            daisy.Roi(c, w), lambda b: None, fit=fit, read_write_conflict=rng.random() < 0.5,
        )
        got = daisy.DependencyGraph([task]).num_blocks("N")
        if got != math.prod(n):
            raise Violation(f"a task of {n} blocks of {w} with context {c} in {shape} ({fit}) is said to have {got} blocks, not {math.prod(n)}")
        st.add("far_counts")

    def learn(b, where):
        t = mtasks.get(b.task_id)
        idx = t.index_of(geom.box_of(b.write_roi).b) if t else None
        if idx is None:
            raise Violation(f"{where} is {b}, which does not exist in {gen.describe(spec)}")
        key = (t.id, idx)
        want = t.block(idx)
        if {"C01", "C04"} & set(props) and (geom.box_of(b.read_roi) != want.read or geom.box_of(b.write_roi) != want.write):
            raise Violation(f"{where} is {b}, which should be {want}")
        if "C02" in props:
            if known.setdefault(key, b.block_id) != b.block_id:
                raise Violation(f"{where}: block {key} has id {b.block_id}, elsewhere {known[key]}")
            if ids.setdefault(b.block_id, key) != key:
                raise Violation(f"{where}: blocks {key} and {ids[b.block_id]} have the same id {b.block_id}")
            st.add("identities_compared")
        return key

    def at(t, idx):
        g = common.task_graph(dg, t.id)
        w = t.block(idx).write
        p = tuple(rng.choice([a, b - 1, rng.randint(a, b - 1)]) for a, b in zip(w.b, w.e))
        got = g.get_subgraph_blocks(daisy.Roi(p, (1,) * d))
        keys = [learn(b, f"the block writing {p}") for b in got]
        if keys != [(t.id, idx)]:
            raise Violation(f"{p} is written by {keys}, should be {(t.id, idx)}: {gen.describe(spec)}")
        return got[0]

    n = case.get("n", 250)
    for t in mtasks.values():
        for _ in range(n):
            idx = tuple(rng.choice([0, g - 1, rng.randrange(g), rng.randrange(g), rng.randrange(min(g, 9))]) for g in t.grid)
            b = at(t, idx)
            # the same place some power further, and neighbours
            k = rng.randrange(d)
            for step in (1, 2 ** rng.randint(1, 40), 10 ** rng.randint(1, 11)):
                j = idx[k] + step
                if j < t.grid[k]:
                    at(t, idx[:k] + (j,) + idx[k + 1:])
            ups = dg.upstream(b)
            downs = dg.downstream(b)
            ku = {learn(u, f"an upstream block of {idx}") for u in ups}
            kd = {learn(u, f"a downstream block of {idx}") for u in downs}
            st.add("far_blocks")
            if "C04" not in props:
                continue
            mine = t.block(idx)
            exp = set()
            for u in t.up:
                exp |= {x.key for x in mtasks[u].writing_into(mine.read)}
            if {k for k in ku if k[0] != t.id} != exp:
                raise Violation(f"block {mine} depends on {sorted(ku)}, should depend on {sorted(exp)} of other tasks: {gen.describe(spec)}")
            for u in ups[:3]:
                if (t.id, idx) not in {learn(x, "a downstream block") for x in dg.downstream(u)}:
                    raise Violation(f"{u} is upstream of {mine}, which is not downstream of it: {gen.describe(spec)}")
            for u in downs[:3]:
                if (t.id, idx) not in {learn(x, "an upstream block") for x in dg.upstream(u)}:
                    raise Violation(f"{u} is downstream of {mine}, which is not upstream of it: {gen.describe(spec)}")
            if not t.conflict and any(k[0] == t.id for k in ku | kd):
                raise Violation(f"block {mine} is ordered with {ku | kd} although reads and writes do not conflict")
            st.add("far_dependencies", len(ku) + len(kd))
    st.see("far", gen.describe(spec))
    st.sample({"tasks": gen.describe(spec)}, cap=1)
    return st
