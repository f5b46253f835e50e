"""A failure that gives up very many blocks (C08)."""

import math
import random


from .common import Stats, Violation


def mass_case(case):
    """One block of an upstream task fails, tens of thousands of blocks read from it."""
    import daisy
    from daisy import BlockStatus, Roi, Task
    from daisy.scheduler import Scheduler

    rng = random.Random(case["seed"])
    st = Stats()
    many = rng.randint(12000, 20000)
    rest = rng.randint(50, 300)
    w = rng.randint(1, 3)
    c = rng.randint(0, w)
    n = many + rest
    conflict = rng.random() < 0.3
    # A: two or three large blocks, the first one is written over many small blocks of B
    size = many * w
    pieces = rng.randint(2, 3)
    a = Task(
        "A", Roi((0,), (size * pieces,)), Roi((0,), (size,)), Roi((0,), (size,)), lambda b: None,
        max_retries=0, read_write_conflict=rng.random() < 0.5,
    )
    b = Task(
        "B", Roi((-c,), (n * w + 2 * c,)), Roi((-c,), (w + 2 * c,)), Roi((0,), (w,)), lambda b: None,
        max_retries=0, read_write_conflict=conflict, upstream_tasks=[a],
    )
    per = rng.randint(20, 60)
    d = Task(
        "C", Roi((0,), (n * w,)), Roi((0,), (per * w,)), Roi((0,), (per * w,)), lambda b: None,
        max_retries=0, fit="overhang", read_write_conflict=False, upstream_tasks=[b],
    )
    s = Scheduler([d])
    failed = 0
    # all of A, the first one fails
    while True:
        block = s.acquire_block("A")
        if block is None:
            break
        ok = block.write_roi.offset[0] != 0
        failed += not ok
        block.status = BlockStatus.SUCCESS if ok else BlockStatus.FAILED
        s.release_block(block)
    # by geometry: blocks of B that read from [0, size), and, within B with conflicts, those that depend on them
    direct = {k for k in range(n) if k * w - c < size and (k + 1) * w + c > 0}
    got = {}
    for tid in ("B", "C"):
        got[tid] = set()
        while True:
            block = s.acquire_block(tid)
            if block is None:
                break
            got[tid].add(int(block.write_roi.offset[0]) // int(block.write_roi.shape[0]))
            block.status = BlockStatus.SUCCESS
            s.release_block(block)
    bad = got["B"] & direct
    if bad:
        raise Violation(f"blocks {sorted(bad)[:5]} of B were handed out although they read from a failed block")
    if not conflict and got["B"] != set(range(n)) - direct:
        raise Violation(f"{len(got['B'])} of {n} blocks of B were processed, {n - len(direct)} do not depend on the failure")
    upper = {k for k in range(math.ceil(n / per)) if all(j in got["B"] for j in range(k * per, min(n, (k + 1) * per)))}
    if got["C"] != upper:
        raise Violation(f"blocks {sorted(got['C'])[:9]} of C were processed, those whose input exists are {sorted(upper)[:9]}")
    for tid, total in (("B", n), ("C", math.ceil(n / per))):
        state = s.task_states[tid]
        want = (total, len(got[tid]), 0, total - len(got[tid]))
        have = (state.total_block_count, state.completed_count, state.failed_count, state.orphaned_count)
        if have != want or not state.is_done():
            raise Violation(
                f"one failure in A: task {tid} has (total, completed, failed, orphaned) {have}, should be {want}; done: {state.is_done()}"
            )
    st.add("orphans_of_one_failure", n - len(got["B"]))
    st.see("mass", case["seed"])
    return st
