"""An independent geometric model of block-wise tasks.

Everything is plain tuples of Python integers; nothing here imports daisy.  A
*spec* is a JSON-able description of a set of tasks; ``Model`` is what daisy
must make of it according to its documentation:

* the region a task may write is its total ROI minus the context (the margin
  between read and write ROI of a block);
* blocks are the translations of the write ROI that tile this region from its
  lower corner, the read ROI moving in synchrony;
* "valid" keeps the blocks that fit, "overhang" keeps all that overlap,
  "shrink" keeps all that overlap, cut at the region.
"""

import itertools


def add(a, b):
    return tuple(x + y for x, y in zip(a, b))


def sub(a, b):
    return tuple(x - y for x, y in zip(a, b))


class Box:
    """A half-open integer box."""

    __slots__ = ("b", "e")

    def __init__(self, b, e):
        self.b = tuple(int(x) for x in b)
        self.e = tuple(int(x) for x in e)

    @classmethod
    def of(cls, offset, shape):
        return cls(offset, add(offset, shape))

    @property
    def shape(self):
        return sub(self.e, self.b)

    @property
    def empty(self):
        return any(x >= y for x, y in zip(self.b, self.e))

    def meets(self, o):
        return all(
            max(x, y) < min(u, v) for x, y, u, v in zip(self.b, o.b, self.e, o.e)
        )

    def inside(self, o):
        return all(x >= y for x, y in zip(self.b, o.b)) and all(
            x <= y for x, y in zip(self.e, o.e)
        )

    def cut(self, o):
        return Box(map(max, zip(self.b, o.b)), map(min, zip(self.e, o.e)))

    def volume(self):
        v = 1
        for x, y in zip(self.b, self.e):
            v *= max(0, y - x)
        return v

    def points(self):
        return itertools.product(*[range(x, y) for x, y in zip(self.b, self.e)])

    def __eq__(self, o):
        return self.b == o.b and self.e == o.e

    def __hash__(self):
        return hash((self.b, self.e))

    def __repr__(self):
        return f"[{self.b}:{self.e}]"


def box_of(roi):
    """The box of a daisy Roi."""
    off = tuple(int(x) for x in roi.offset)
    return Box.of(off, tuple(int(x) for x in roi.shape))


class MBlock:
    __slots__ = ("key", "read", "write", "idx")

    def __init__(self, key, idx, read, write):
        self.key = key
        self.idx = idx
        self.read = read
        self.write = write

    def __repr__(self):
        return f"{self.key} r{self.read} w{self.write}"


class MTask:
    def __init__(self, t):
        self.spec = t
        self.id = t["id"]
        self.fit = t["fit"]
        self.conflict = t["conflict"]
        self.up = list(t.get("up", []))
        self.total = Box.of(t["total"][0], t["total"][1])
        self.bread = Box.of(t["read"][0], t["read"][1])
        self.bwrite = Box.of(t["write"][0], t["write"][1])
        self.lo = sub(self.bwrite.b, self.bread.b)
        self.hi = sub(self.bread.e, self.bwrite.e)
        self.wshape = self.bwrite.shape
        self.twrite = Box(add(self.total.b, self.lo), sub(self.total.e, self.hi))
        self.max_retries = t.get("max_retries", 2)
        ext = self.twrite.shape
        if self.fit == "valid":
            self.grid = tuple(max(0, e // w) for e, w in zip(ext, self.wshape))
        else:
            self.grid = tuple(max(0, -(-e // w)) for e, w in zip(ext, self.wshape))

    def num_blocks(self):
        n = 1
        for g in self.grid:
            n *= g
        return n

    def block(self, idx):
        wb = add(self.twrite.b, tuple(i * w for i, w in zip(idx, self.wshape)))
        write = Box.of(wb, self.wshape)
        read = Box(sub(write.b, self.lo), add(write.e, self.hi))
        if self.fit == "shrink":
            write = write.cut(self.twrite)
            read = read.cut(self.total)
        return MBlock((self.id, idx), idx, read, write)

    def indices(self):
        return itertools.product(*[range(g) for g in self.grid])

    def index_of(self, write_begin):
        """Grid index of a block, from the begin of its write ROI."""
        rel = sub(write_begin, self.twrite.b)
        if any(r % w for r, w in zip(rel, self.wshape)):
            return None
        idx = tuple(r // w for r, w in zip(rel, self.wshape))
        if any(i < 0 or i >= g for i, g in zip(idx, self.grid)):
            return None
        return idx

    def writing_into(self, box):
        """All blocks whose write ROI intersects the box."""
        return self._select(box, (0,) * len(self.lo), (0,) * len(self.lo))

    def reading_from(self, box):
        """All blocks whose read ROI intersects the box."""
        return self._select(box, self.hi, self.lo)

    def _select(self, box, grow_lo, grow_hi):
        if box.empty:
            return []
        b = sub(sub(box.b, grow_lo), self.twrite.b)
        e = sub(add(box.e, grow_hi), self.twrite.b)
        rng = []
        for x, y, w, g in zip(b, e, self.wshape, self.grid):
            rng.append(range(max(0, x // w - 1), min(g, -(-y // w) + 1)))
        out = []
        which = "write" if not any(grow_lo) and not any(grow_hi) else None
        for idx in itertools.product(*rng):
            blk = self.block(idx)
            target = blk.write if which else blk.read
            if target.meets(box):
                out.append(blk)
        return out


def conflicting(a, b):
    """Two blocks of one task that must not be processed at the same time."""
    return a.read.meets(b.write) or b.read.meets(a.write) or a.write.meets(b.write)


class Model:
    """All tasks of a spec with all blocks enumerated."""

    def __init__(self, spec):
        self.tasks = {t["id"]: MTask(t) for t in spec["tasks"]}
        self.blocks = {}
        for t in self.tasks.values():
            for idx in t.indices():
                b = t.block(idx)
                self.blocks[b.key] = b
        self.down_tasks = {t: [] for t in self.tasks}
        for t in self.tasks.values():
            for u in set(t.up):
                self.down_tasks[u].append(t.id)

    def key_of(self, block):
        """Key of a daisy block; None if the task has no such block."""
        t = self.tasks.get(block.task_id)
        if t is None:
            return None
        idx = t.index_of(box_of(block.write_roi).b)
        return None if idx is None else (t.id, idx)

    def inter_up(self, key):
        t = self.tasks[key[0]]
        blk = self.blocks[key]
        out = set()
        for u in set(t.up):
            out.update(b.key for b in self.tasks[u].writing_into(blk.read))
        return out

    def closure(self, task_id):
        seen, todo = set(), [task_id]
        while todo:
            t = todo.pop()
            if t not in seen:
                seen.add(t)
                todo.extend(self.tasks[t].up)
        return seen
