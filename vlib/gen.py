"""Generators of task specs (JSON-able), all driven by random.Random."""

from . import geom


def _rint(rng, a, b):
    return rng.randint(a, b)


def geometry(rng, dims=None, max_blocks=60, big=True, zero_ok=True):
    """(total, read, write, fit) of one task."""
    while True:
        d = dims or rng.choice([1, 1, 2, 2, 2, 3, 3, 4])
        wmax = {1: 6, 2: 4, 3: 3, 4: 2}[d]
        write = tuple(_rint(rng, 1, wmax) for _ in range(d))
        style = rng.random()
        lo, hi = [], []
        for w in write:
            if style < 0.15:
                a = b = 0
            elif style < 0.35:
                a = b = _rint(rng, 0, 2 * w)
            elif style < 0.45:
                a, b = _rint(rng, 0, 3 * w + 1), 0
            elif style < 0.55:
                a, b = 0, _rint(rng, 0, 3 * w + 1)
            elif style < 0.65:
                a, b = _rint(rng, w, 3 * w + 1), _rint(rng, w, 3 * w + 1)
            else:
                a, b = _rint(rng, 0, 2 * w), _rint(rng, 0, 2 * w)
            lo.append(a)
            hi.append(b)
        nmax = {1: 24, 2: 7, 3: 4, 4: 3}[d]
        ext = []
        for w in write:
            n = _rint(rng, 1, nmax)
            r = 0 if rng.random() < 0.4 else _rint(rng, 0, w - 1)
            ext.append(n * w + r)
        if zero_ok and rng.random() < 0.04:
            ext[_rint(rng, 0, d - 1)] = _rint(rng, 0, max(0, write[0] - 1))
        fit = rng.choice(["valid", "overhang", "shrink"])
        tb = tuple(_rint(rng, -40, 40) for _ in range(d))
        rb = tuple(_rint(rng, -7, 7) for _ in range(d))
        if rng.random() < 0.4:
            rb = (0,) * d
        total = (tb, tuple(l + e + h for l, e, h in zip(lo, ext, hi)))
        read = (rb, tuple(l + w + h for l, w, h in zip(lo, write, hi)))
        wr = (tuple(b + l for b, l in zip(rb, lo)), write)
        if big and rng.random() < 0.15:
            s = tuple(rng.choice([1, 4, 8, 40]) for _ in range(d))
            off = tuple(rng.choice([0, 0, 10**6, -(10**7)]) for _ in range(d))

            def sc(x, o=None):
                y = tuple(a * b for a, b in zip(x, s))
                return y if o is None else tuple(a + b for a, b in zip(y, o))

            total = (sc(total[0], off), sc(total[1]))
            read = (sc(read[0]), sc(read[1]))
            wr = (sc(wr[0]), sc(wr[1]))
        n = 1
        for e, w in zip(ext, write):
            n *= -(-e // w)
        if n <= max_blocks:
            return dict(total=total, read=read, write=wr, fit=fit)


def one_task(rng, tid="A", **kw):
    t = geometry(rng, **kw)
    t["id"] = tid
    t["conflict"] = rng.random() < 0.75
    t["up"] = []
    t["max_retries"] = rng.choice([0, 0, 1, 1, 2, 3])
    return t


def dependent_task(rng, tid, ups, max_blocks=60):
    """A task that reads (at least partially) where ``ups`` write, or not."""
    base = geom.MTask(rng.choice(ups))
    d = len(base.wshape)
    for _ in range(200):
        t = geometry(rng, dims=d, max_blocks=10**9, big=False)
        how = rng.random()
        if how < 0.15:
            # same geometry
            for k in ("total", "read", "write", "fit"):
                t[k] = base.spec[k]
        elif how < 0.75:
            # total ROI covers (about) what upstream writes
            lo = tuple(x - y for x, y in zip(t["write"][0], t["read"][0]))
            scale = [max(1, w // 4) if w > 8 else 1 for w in base.wshape]
            if any(s > 1 for s in scale):
                # keep the number of blocks comparable for scaled upstreams
                def sc(x):
                    return tuple(a * s for a, s in zip(x, scale))

                t["read"] = (sc(t["read"][0]), sc(t["read"][1]))
                t["write"] = (sc(t["write"][0]), sc(t["write"][1]))
                lo = sc(lo)
            hi = tuple(
                (rb + rs) - (wb + ws)
                for rb, rs, wb, ws in zip(
                    t["read"][0], t["read"][1], t["write"][0], t["write"][1]
                )
            )
            tw = base.twrite
            j = [0] * (2 * d)
            if how > 0.4:
                j = [
                    rng.randint(-w, w)
                    for w in (list(base.wshape) + list(base.wshape))
                ]
            begin = tuple(x - l + jj for x, l, jj in zip(tw.b, lo, j))
            if how > 0.6:
                # read from exactly the region upstream writes
                begin = tuple(x + jj for x, jj in zip(tw.b, j))
                end = tuple(x + jj for x, jj in zip(tw.e, j[d:]))
            else:
                end = tuple(x + h + jj for x, h, jj in zip(tw.e, hi, j[d:]))
            shape = tuple(y - x for x, y in zip(begin, end))
            if any(s < l + h for s, l, h in zip(shape, lo, hi)):
                continue
            t["total"] = (begin, shape)
        else:
            # anywhere near
            t["total"] = (
                tuple(x + rng.randint(-10, 10) for x in base.total.b),
                t["total"][1],
            )
        t["id"] = tid
        t["up"] = [u["id"] for u in ups]
        t["conflict"] = rng.random() < 0.6
        t["max_retries"] = rng.choice([0, 0, 1, 1, 2])
        if geom.MTask(t).num_blocks() <= max_blocks:
            return t
    t = dict(base.spec)
    t.update(id=tid, up=[u["id"] for u in ups])
    return t


def spec(rng, max_blocks=60, max_tasks=4, dims=None):
    """A set of tasks: single, chain, fan-out, fan-in, diamond, independent."""
    n = rng.choice([1, 1, 2, 2, 2, 3, 3, 4])
    n = min(n, max_tasks)
    per = max(6, max_blocks // n)
    names = ["A", "B", "C", "D", "E", "F", "G"]
    if rng.random() < 0.3:
        names = ["0", "task two", "c", "D-4", "e_5", "6.f", "g"]
    if max_tasks > 2 and rng.random() < 0.18:
        return _many(rng, names, max_blocks, dims)
    tasks = [one_task(rng, names[0], max_blocks=per, dims=dims)]
    d = len(tasks[0]["write"][1])
    for k in range(1, n):
        r = rng.random()
        if r < 0.1:
            t = one_task(rng, names[k], dims=d, max_blocks=per)
        elif r < 0.6:
            t = dependent_task(rng, names[k], [tasks[-1]], per)
        else:
            m = rng.randint(1, len(tasks))
            ups = rng.sample(tasks, m)
            t = dependent_task(rng, names[k], ups, per)
        tasks.append(t)
    return {"tasks": tasks}


def _many(rng, names, max_blocks, dims):
    """More tasks with fewer blocks: many upstream tasks of one task, many
    downstream tasks of one task, or a long chain."""
    n = rng.randint(4, 7)
    per = max(2, max_blocks // n)
    how = rng.choice(["in", "in", "out", "out", "chain"])
    wide = how == "in"
    tasks = [one_task(rng, names[0], max_blocks=per, dims=dims)]
    d = len(tasks[0]["write"][1])
    for k in range(1, n):
        if how == "out":
            ups = [tasks[0]] if rng.random() < 0.8 else rng.sample(tasks, rng.randint(1, len(tasks)))
            t = dependent_task(rng, names[k], ups, per)
        elif not wide:
            t = dependent_task(rng, names[k], [tasks[-1]], per)
        elif k < n - 1 and rng.random() < 0.5:
            t = one_task(rng, names[k], dims=d, max_blocks=per)
        elif k < n - 1:
            t = dict(dependent_task(rng, names[k], [tasks[0]], per), up=[])
        else:
            t = dependent_task(rng, names[k], rng.sample(tasks, len(tasks)), per)
        tasks.append(t)
    return {"tasks": tasks}


def build(spec, process=None, check=None, daisy=None, **common):
    """daisy Tasks of a spec, in the order of the spec.

    ``process``/``check`` map a task id to a function."""
    import daisy as _d
    from daisy import Roi, Task

    made = {}
    out = []
    for t in spec["tasks"]:
        kw = dict(common)
        for k in ("num_workers", "timeout", "init_callback_fn"):
            if k in t:
                kw[k] = t[k]
        made[t["id"]] = Task(
            t["id"],
            Roi(t["total"][0], t["total"][1]),
            Roi(t["read"][0], t["read"][1]),
            Roi(t["write"][0], t["write"][1]),
            process_function=(process(t["id"]) if process else (lambda b: None)),
            check_function=(check(t["id"]) if check else None),
            read_write_conflict=t["conflict"],
            max_retries=t.get("max_retries", 2),
            fit=t["fit"],
            upstream_tasks=[made[u] for u in t.get("up", [])],
            **kw,
        )
        out.append(made[t["id"]])
    return out


def describe(spec):
    return [
        {
            "id": t["id"],
            "total": t["total"],
            "read": t["read"],
            "write": t["write"],
            "fit": t["fit"],
            "conflict": t["conflict"],
            "up": t["up"],
            "max_retries": t.get("max_retries"),
        }
        for t in spec["tasks"]
    ]
