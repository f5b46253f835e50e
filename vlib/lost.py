"""Lost clients and the books about blocks that were sent (C12)."""

import random
import threading
import time

from . import common, gen
from .common import Inconclusive, Stats, Violation


def check(run):
    """After a server run: every loss was noticed once, none was invented."""
    hub = run.hub
    for k in run.mon.model.blocks:
        back = hub.acc_ok[k] + hub.acc_fail[k]
        if back != hub.handouts[k]:
            raise Violation(f"{k} was handed out {hub.handouts[k]} times and taken back {back} times")
        if hub.acc_fail[k] < hub.legit_fail[k] + hub.lost[k]:
            raise Violation(
                f"{k} was failed {hub.legit_fail[k]} times and lost {hub.lost[k]} times, but counts as "
                f"failed only {hub.acc_fail[k]} times"
            )
        if hub.lost[k]:
            run.st.add("losses_accounted", hub.lost[k])


class Stream:
    """Stands for a connection."""

    def __init__(self, name):
        self.name = name
        self.gone = False
        self.address = ("127.0.0.1", 40000 + int(name[1:]))
        self.stream = self
        self.sent = []

    def closed(self):
        return self.gone

    def close(self):
        self.gone = True

    def send_message(self, message):
        self.sent.append(message)

    def __repr__(self):
        return self.name


def books_case(case):
    """Histories of BlockBookkeeper."""
    import daisy
    from daisy.block_bookkeeper import BlockBookkeeper

    rng = random.Random(case["seed"])
    st = Stats()
    spec = gen.spec(rng, max_blocks=20, max_tasks=2)
    tasks = gen.build(spec)
    graph = daisy.DependencyGraph(tasks)
    pool = []
    for t in tasks:
        for b in common.task_graph(graph, t.task_id).enumerate_all_dependencies():
            pool.append(b[0])
    if not pool:
        return st
    timeout = rng.choice([None, None, None, 1e9, 0.03])
    keeper = BlockBookkeeper(processing_timeout=timeout) if timeout else BlockBookkeeper()
    streams = [Stream(f"s{i}") for i in range(rng.randint(1, 4))]
    sent = {}  # id -> (block, stream, time)
    log = []
    for _ in range(rng.randint(5, 60)):
        op = rng.choice(["send", "send", "send", "return", "ask", "close", "lost", "new", "sleep"])
        b = rng.choice(pool)
        s = rng.choice(streams)
        if op == "send":
            if b.block_id in sent:
                continue
            keeper.notify_block_sent(b, s)
            sent[b.block_id] = (b, s, time.time())
            log.append(("send", b.block_id, s))
        elif op in ("ask", "return"):
            if op == "return" and sent:
                b, s, _t = rng.choice(list(sent.values()))
                b = b.copy()
            want = b.block_id in sent and sent[b.block_id][1] is s
            got = keeper.is_valid_return(b, s)
            if bool(got) != want:
                raise Violation(f"is_valid_return({b.block_id}, {s}) is {got}, should be {want} | {log[-10:]}")
            st.add("valid_returns" if want else "invalid_returns")
            if op == "return" and want:
                keeper.notify_block_returned(b, s)
                del sent[b.block_id]
                log.append(("return", b.block_id, s))
        elif op == "close":
            s.gone = True
            log.append(("close", s))
        elif op == "new":
            streams.append(Stream(f"s{len(streams)}"))
        elif op == "sleep" and timeout == 0.03:
            time.sleep(0.04)
            log.append(("sleep",))
        elif op == "lost":
            t0 = time.time()
            got = keeper.get_lost_blocks()
            t1 = time.time()
            ids = [x.block_id for x in got]
            if len(set(ids)) != len(ids):
                raise Violation(f"lost blocks are reported twice: {ids} | {log[-10:]}")
            for i, (blk, stream, t) in list(sent.items()):
                must = stream.gone or (timeout is not None and t0 - t > timeout + 0.005)
                may = stream.gone or (timeout is not None and t1 - t > timeout - 0.005)
                if must and i not in ids:
                    raise Violation(f"{i} is lost but not reported | {log[-10:]}")
                if i in ids and not may:
                    raise Violation(f"{i} is reported as lost, but is not | {log[-10:]}")
                if i in ids:
                    ids.remove(i)
                    del sent[i]
                    st.add("lost_blocks")
                    if keeper.is_valid_return(blk, stream):
                        raise Violation(f"{i} can still be returned after it was reported lost | {log[-10:]}")
            if ids:
                raise Violation(f"{ids} are reported as lost, but were not out | {log[-10:]}")
            log.append(("lost", len(got)))
    st.see("books", log, timeout)
    st.sample({"history": [str(x) for x in log[:10]], "timeout": timeout}, cap=1)
    return st


def waiting_case(case):
    """Clients that leave while they wait for a block cost nothing, whoever else is waiting."""
    st = Stats()
    # the server gets more time to notice that clients are gone, before the verdict
    for notice in (0.15, 0.6, 3):
        bad = waiting_run(case, notice, st)
        if bad is None:
            st.see("waiting", case["seed"], notice)
            return st
        st.add("repeated_with_more_time")
    raise Violation(bad)


def waiting_run(case, notice, st):
    import daisy
    from daisy import BlockStatus, Roi, Task
    from daisy.messages import AcquireBlock, ReleaseBlock, RequestShutdown, SendBlock
    from daisy.tcp import TCPClient

    rng = random.Random(case["seed"])
    n = rng.randint(2, 8)
    # neighbours are in conflict: half of the blocks have to wait for the other half
    task = Task(
        "w", Roi((0,), (2 * n + 2,)), Roi((0,), (4,)), Roi((1,), (2,)), lambda b: None,
        num_workers=0, max_retries=0, read_write_conflict=True,
    )
    server = daisy.Server(host="127.0.0.1")
    out = {}

    def serve():
        try:
            out["states"] = server.run_blockwise([task])
        except BaseException as e:
            out["error"] = e

    th = threading.Thread(target=serve, daemon=True)
    th.start()

    def get(c):
        t0 = time.monotonic()
        while time.monotonic() - t0 < 20:
            m = c.get_message(timeout=0.1)
            if m is not None:
                return m
            if not th.is_alive():
                break
        raise Inconclusive("no answer")

    def connect():
        return TCPClient(server.hostname, server.port)

    # take everything that is ready
    holder = connect()
    held = []
    extra = connect()
    for _ in range(n // 2):
        holder.send_message(AcquireBlock("w"))
        m = get(holder)
        if not isinstance(m, SendBlock):
            raise Inconclusive(f"unexpected answer {m}")
        held.append(m.block)
    waiters = [connect() for _ in range(rng.randint(2, 6))]
    for c in waiters:
        c.send_message(AcquireBlock("w"))
        time.sleep(rng.choice([0, 0.005]))
    time.sleep(0.3)  # they have to wait
    # others wait behind them
    leaving = rng.sample(waiters[:-1], rng.randint(1, len(waiters) - 1))
    for c in leaving:
        if rng.random() < 0.5:
            common.close_hard(c)
        else:
            c.disconnect()
        st.add("gone_while_waiting")
    time.sleep(notice)
    for b in held:
        b.status = BlockStatus.SUCCESS
        holder.send_message(ReleaseBlock(b))
    staying = [c for c in waiters if c not in leaving] + [extra]
    done = [len(held)]
    errors = []

    def work(c, asked):
        try:
            while True:
                if not asked:
                    c.send_message(AcquireBlock("w"))
                asked = False
                m = get(c)
                if isinstance(m, RequestShutdown):
                    return
                m.block.status = BlockStatus.SUCCESS
                done[0] += 1
                c.send_message(ReleaseBlock(m.block))
        except Exception as e:
            if th.is_alive():
                errors.append(e)

    ths = [threading.Thread(target=work, args=(c, c is not extra), daemon=True) for c in staying]
    for t in ths[:-1]:
        t.start()
    th.join(0.5)
    ths[-1].start()  # in case that all others were told to leave
    th.join(20)
    if th.is_alive():
        raise Inconclusive(f"run does not end {errors}")
    if "error" in out:
        raise out["error"]
    s = out["states"]["w"]
    if s.failed_count or s.orphaned_count or s.completed_count != n:
        return (
            f"{len(leaving)} of {len(waiters)} clients left while they waited for a block, {len(held)} blocks were held by "
            f"another one: {s.completed_count} of {n} blocks completed, {s.failed_count} failed, {s.orphaned_count} orphaned"
        )
    st.add("waiting_runs")
    return None
