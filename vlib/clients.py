"""Runs of the server with real daisy.Client objects whose user code ends in
every possible way (C11)."""

import collections
import pickle
import random
import threading
import time

from . import common, srv
from .common import Inconclusive, Stats, Violation


class NeedsArgs(Exception):
    """Can be pickled but not unpickled."""

    def __init__(self, a, b):
        super().__init__(f"{a} and {b}")
        self.a, self.b = a, b


class Keeps(Exception):
    """Can be pickled, keeps an attribute."""

    def __init__(self, text):
        super().__init__(text)
        self.extra = [1, 2, text]


class LocksUp(Exception):
    """Can not be pickled."""

    def __init__(self):
        super().__init__("holds a lock")
        self.lock = threading.Lock()


class ReduceRaises(Exception):
    def __reduce__(self):
        raise RuntimeError("no pickling")


def make_exceptions(rng):
    class Local(Exception):
        pass

    try:
        raise KeyError("inner")
    except KeyError as e:
        chained = ValueError("outer")
        chained.__cause__ = e
    from daisy.tcp.exceptions import NotConnected, StreamClosedError

    pool = [
        ("closed", StreamClosedError("127.0.0.1", 4711), True),
        ("notconnected", NotConnected(), True),
        ("timeout", TimeoutError("a service the user talks to"), True),
        ("value", ValueError("boom"), True),
        ("key", KeyError(("a", 3)), True),
        ("os", OSError(5, "io", "/some/file"), True),
        ("big", RuntimeError("x" * 300000), True),
        ("stop", StopIteration("done"), True),
        ("stopasync", StopAsyncIteration(), True),
        ("assert", AssertionError(), True),
        ("unicode", UnicodeDecodeError("utf8", b"\xff", 0, 1, "bad"), True),
        ("chained", chained, True),
        ("keeps", Keeps("k"), True),
        ("needs", NeedsArgs(1, 2), False),
        ("local", Local("local"), False),
        ("lock", LocksUp(), False),
        ("reduce", ReduceRaises("r"), False),
        ("lambda", ValueError(lambda: 3), False),
        ("notimpl", NotImplementedError("n"), True),
        ("lookup", ConnectionResetError(104, "reset by a service the user talks to"), True),
    ]
    return rng.choice(pool)


OUTCOMES = [
    ("normal", 6),
    ("break", 1),
    ("set_success", 1),
    ("set_failed", 2),
    ("set_created", 1),
    ("exception", 5),
    ("success_then_exception", 1),
    ("keyboard", 1),
    ("system_exit", 1),
    ("mutate", 1),
]


class ClientPuppet(srv.Puppet):
    """Uses daisy.Client the documented way."""

    def main(self):
        import daisy
        from daisy import BlockStatus

        run, hub, rng = self.run_, self.hub, self.rng
        ctx = daisy.Context(
            hostname=run.host, port=run.port, task_id=self.task_id, worker_id=self.wid
        )
        client = daisy.Client(context=ctx)
        self.client = common.tcp_client_of(client)
        kinds = [k for k, n in OUTCOMES for _ in range(n)]
        while not hub.stop.is_set():
            hub.add(self.name, "requests", self.task_id)
            how = None
            raised = None
            try:
                with client.acquire_block() as block:
                    if block is None:
                        hub.add(self.name, "no more blocks")
                        self.end = "none"
                        return
                    key = hub.received(self.name, block)
                    if block.status != BlockStatus.PROCESSING:
                        hub.flag({"C11"}, f"{self.name} gets block {key} with status {block.status}")
                    how = rng.choice(kinds)
                    hub.st.add(f"outcome_{how}")
                    if run.plan["delay"]:
                        time.sleep(rng.random() * run.plan["delay"])
                    if how in ("normal", "break", "set_success", "mutate"):
                        hub.returns(self.name, key, True)
                        if how == "set_success":
                            block.status = BlockStatus.SUCCESS
                        if how == "mutate":
                            block.requested_write_roi = block.read_roi
                        if how == "break":
                            # leave the with statement early, without exception
                            continue
                    elif how in ("set_failed", "set_created"):
                        hub.returns(self.name, key, False)
                        block.status = (
                            BlockStatus.FAILED if how == "set_failed" else BlockStatus.CREATED
                        )
                    elif how in ("exception", "success_then_exception"):
                        hub.returns(self.name, key, False)
                        name, e, picklable = make_exceptions(rng)
                        hub.st.add(f"exception_{name}")
                        run.expect_failure(key, e, picklable, self)
                        if how == "success_then_exception":
                            block.status = BlockStatus.SUCCESS
                        raise e
                    elif how == "keyboard":
                        hub.returns(self.name, key, False)
                        raise KeyboardInterrupt()
                    elif how == "system_exit":
                        hub.returns(self.name, key, False)
                        raise SystemExit(0)
            except (KeyboardInterrupt, SystemExit) as e:
                raised = type(e).__name__
                if how not in ("keyboard", "system_exit"):
                    hub.flag({"C11"}, f"{how} in a block raised {e!r} in the client")
            except (Violation, srv.sched.Foreign):
                raise
            except Exception as e:
                # (also not if the server is gone meanwhile)
                if how is None:
                    hub.flag({"C11"}, f"acquire_block raised {e!r}")
                hub.flag({"C11"}, f"{how} in a block made the client raise {e!r}")
            if how in ("keyboard", "system_exit") and raised is None:
                hub.flag({"C11"}, f"{how} in a block was swallowed by the client")


class ClientRun(srv.Run):
    puppet_class = ClientPuppet

    def __init__(self, case, wanted):
        super().__init__(case, wanted)
        self.expected = []
        self.plan["sticky"] = set()
        self.real = []

    def expect_failure(self, key, e, picklable, puppet):
        with self.hub.lock:
            self.expected.append((key, e, picklable, puppet.task_id, puppet.wid))

    def judge(self):
        """Everything clients did arrived exactly once."""
        hub = self.hub
        for k in self.mon.model.blocks:
            if hub.acc_ok[k] != hub.legit_ok[k]:
                raise Violation(
                    f"{k}: clients returned it as done {hub.legit_ok[k]} times, {hub.acc_ok[k]} counted"
                )
            if hub.acc_fail[k] != hub.legit_fail[k]:
                raise Violation(
                    f"{k}: clients failed it {hub.legit_fail[k]} times, {hub.acc_fail[k]} counted"
                )
        got = [n for n in self.failures]
        for key, e, picklable, tid, wid in self.expected:
            match = None
            for i, (k, exc, ctid, cwid) in enumerate(got):
                if k != key or int(cwid) != wid:
                    continue
                if picklable:
                    same = type(exc) is type(e) and repr(exc.args) == repr(e.args)
                    if isinstance(e, Keeps):
                        same = same and getattr(exc, "extra", None) == e.extra
                else:
                    same = type(exc) is type(e) or repr(e) in str(exc) or type(e).__name__ in repr(exc)
                if same and ctid == tid:
                    match = i
                    break
            if match is None:
                raise Violation(
                    f"exception {e!r:.200} of block {key} in client {wid} was not reported; reported: "
                    f"{[g for g in got if g[0] == key][:3]!r:.500}"
                )
            got.pop(match)
            self.st.add("exceptions_reported")
        if got:
            raise Violation(f"failures reported that no client had: {got[:3]!r:.500}")
        for p in self.puppets:
            # None: stopped by the harness, between two blocks, after the run
            if p.end not in (None, "none", "closed", "aborted"):
                raise Violation(f"client {p.name} ended with {p.end}")


def client_case(case, wanted):
    run = ClientRun(case, wanted)
    run.failures = []
    # observe failures with the exception objects themselves
    orig = srv.observer

    def obs(r, daisy):
        o = orig(r, daisy)
        from daisy.server_observer import ServerObserver

        class F(ServerObserver):
            def on_block_failure(self, block, exception, context):
                with r.hub.lock:
                    run.failures.append(
                        (r.mon.model.key_of(block), exception, context["task_id"], context["worker_id"])
                    )

        F(r.server)
        return o

    srv.observer = obs
    try:
        ok = run.go()
    finally:
        srv.observer = orig
    if ok is not None:
        run.judge()
    return run.st


def gone_case(case):
    """The server goes away while clients wait, work or rest."""
    import daisy
    from daisy import BlockStatus, Roi, Task

    rng = random.Random(case["seed"])
    st = Stats()
    n = rng.randint(2, 6)
    started = threading.Event()
    ctxs = []

    def cb(ctx):
        ctxs.append(ctx)
        started.set()

    # two blocks that conflict: the second client has to wait
    task = Task(
        "gone",
        Roi((0,), (6,)),
        Roi((0,), (4,)),
        Roi((1,), (2,)),
        process_function=lambda b: None,
        init_callback_fn=cb,
        num_workers=0,
        read_write_conflict=True,
    )
    stop = threading.Event()
    server = daisy.Server(stop_event=stop, host="127.0.0.1")
    out = {}

    def serve():
        out["states"] = server.run_blockwise([task])

    th = threading.Thread(target=serve, daemon=True)
    th.start()
    if not started.wait(20):
        raise Inconclusive("init callback not called")
    context = daisy.Context(
        hostname=server.hostname, port=server.port, task_id="gone", worker_id=7
    )
    results = {}
    holding = [threading.Event() for _ in range(2)]
    release = threading.Event()

    nhold = rng.randint(1, 2)
    hows = [rng.choice(["normal", "raise", "failed"]) for _ in range(nhold)]
    holders = []

    def holder(i, c):
        how = hows[i]
        step = "acquire_block"
        try:
            with c.acquire_block() as b:
                results[f"holds{i}"] = b is not None
                holding[i].set()
                release.wait(60)
                step = f"{how} in a block"
                if b is not None and how == "failed":
                    b.status = BlockStatus.FAILED
                if b is not None and how == "raise":
                    raise ValueError(i)
            # later requests of a client whose server is gone
            last = []
            for _ in range(6):
                step = "a later acquire_block"
                with c.acquire_block() as b:
                    last.append(b)
            results[f"h{i}"] = ("value", last[-1] or last[-2], 0)
        except BaseException as e:
            results[f"h{i}"] = ("raised", f"{e!r} ({step})", 0)
        finally:
            holding[i].set()

    def waiter(name, c):
        t = time.monotonic()
        try:
            with c.acquire_block() as b:
                results[name] = ("value", b, time.monotonic() - t)
        except BaseException as e:
            results[name] = ("raised", repr(e), time.monotonic() - t)

    for i in range(nhold):
        t = threading.Thread(target=holder, args=(i, daisy.Client(context=context)), daemon=True)
        t.start()
        holders.append(t)
        if i == 0 and (not holding[0].wait(20) or not results.get("holds0")):
            raise Inconclusive("no block for the first client")
    waiters = []
    clients = [daisy.Client(context=context) for _ in range(n)]
    nwait = rng.randint(1, n)
    for i in range(nwait):
        w = threading.Thread(target=waiter, args=(f"w{i}", clients[i]), daemon=True)
        w.start()
        waiters.append(w)
    time.sleep(rng.choice([0.0, 0.05, 0.3]))
    early = rng.random() < 0.5
    if early:
        # blocks end right when the server does
        threading.Timer(rng.choice([0, 0.01, 0.05, 0.1, 0.15]), release.set).start()
    stop.set()
    th.join(30)
    if th.is_alive():
        raise Inconclusive("server did not stop")
    # requests sent after the server is gone
    time.sleep(rng.choice([0.0, 0.02, 0.3]))
    for i in range(nwait, n):
        w = threading.Thread(target=waiter, args=(f"late{i}", clients[i]), daemon=True)
        w.start()
        waiters.append(w)
    for w in waiters:
        w.join(30)
        if w.is_alive():
            raise Inconclusive("acquire_block did not return after the server was gone")
    release.set()
    for t in holders:
        t.join(30)
        if t.is_alive():
            raise Inconclusive("a client that held a block does not return after the server was gone")
    for name, r in results.items():
        if name.startswith("holds"):
            continue
        if r[0] == "raised":
            raise Violation(f"{name}: client raised {r[1]} after the server was gone")
        if r[1] is not None and not (early and name.startswith("w")):
            raise Violation(f"{name}: acquire_block gave {r[1]} after the server was gone")
        st.add("clients_of_gone_servers")
        st.see("gone", n, nwait, name, case["seed"])
    st.sample({"clients": n, "waiting": nwait}, cap=1)
    return st


def late_case(case):
    """Clients that show up around and after the end of a run."""
    import daisy
    from daisy import Roi, Task

    rng = random.Random(case["seed"])
    st = Stats()
    n = rng.randint(1, 6)
    task = Task(
        "late", Roi((0,), (2 * n,)), Roi((0,), (2,)), Roi((0,), (2,)),
        process_function=lambda b: None, num_workers=0, read_write_conflict=False,
    )
    stop = threading.Event()
    server = daisy.Server(stop_event=stop, host="127.0.0.1")
    over = threading.Event()
    out = {}

    def serve():
        try:
            out["states"] = server.run_blockwise([task])
        except BaseException as e:
            out["error"] = e
        over.set()

    th = threading.Thread(target=serve, daemon=True)
    th.start()
    context = daisy.Context(hostname=server.hostname, port=server.port, task_id="late", worker_id=3)
    ends = []
    lock = threading.Lock()
    counted = [0]

    def client(wait):
        was_over = over.is_set()
        end = None
        try:
            c = daisy.Client(context=context)
            while True:
                with c.acquire_block() as b:
                    if b is None:
                        end = "none"
                        break
                    if was_over:
                        end = "block"
                        break
                    with lock:
                        counted[0] += 1
                    time.sleep(wait)
        except Exception as e:
            end = repr(e)
        with lock:
            ends.append((was_over, end))

    ths = []
    t0 = time.monotonic()
    extra = 0
    early = rng.random() < 0.3
    while time.monotonic() - t0 < 30 and (not over.is_set() or extra < 4):
        t = threading.Thread(target=client, args=(rng.choice([0, 0.02]),), daemon=True)
        t.start()
        ths.append(t)
        if over.is_set():
            extra += 1
        if early and len(ths) > 2:
            stop.set()
        time.sleep(rng.choice([0, 0.01, 0.05]))
        if len(ths) > 60:
            over.wait(20)
    if not over.is_set():
        raise Inconclusive("run did not end")
    if "error" in out:
        raise out["error"]
    for t in ths:
        t.join(30)
        if t.is_alive():
            raise Inconclusive("a client that connected late waits for a run that is over")
    for was_over, end in ends:
        if was_over:
            if end == "block":
                raise Violation("a client got a block from a run that is over")
            st.add("late_clients")
    st.add("clients_around_the_end", len(ends))
    st.see("late", case["seed"], n, [e for e in ends])
    return st


def nested_case(case):
    """Clients that hold several blocks, in with statements inside of each other."""
    import daisy
    from daisy import BlockStatus, Roi, Task
    from daisy.server_observer import ServerObserver

    rng = random.Random(case["seed"])
    st = Stats()
    n = rng.randint(12, 40)
    nclients = rng.randint(1, 3)
    depth = rng.randint(2, 3)
    retries = rng.randint(0, 2)
    task = Task(
        "nested", Roi((0,), (2 * n,)), Roi((0,), (2,)), Roi((0,), (2,)),
        process_function=lambda b: None, num_workers=0, read_write_conflict=False, max_retries=retries,
    )
    server = daisy.Server(host="127.0.0.1")
    reported = []
    out = {}

    class Obs(ServerObserver):
        def on_block_failure(self, block, exception, context):
            reported.append((int(block.block_id[1]), str(exception), int(context["worker_id"])))

    Obs(server)

    def serve():
        try:
            out["states"] = server.run_blockwise([task])
        except BaseException as e:
            out["error"] = e

    th = threading.Thread(target=serve, daemon=True)
    th.start()
    lock = threading.Lock()
    claims = [0]
    serial = [0]
    plan = []  # (block, outcome, text, worker)
    errors = []

    def work(client, wid, level, r):
        with lock:
            claims[0] += 1
        try:
            with client.acquire_block() as block:
                if block is None:
                    return False
                num = int(block.block_id[1])
                if level + 1 < depth and r.random() < 0.6:
                    with lock:
                        enough = claims[0] + 2 * nclients < n
                    if enough:
                        st.add("nested_blocks")
                        if not work(client, wid, level + 1, r):
                            errors.append(f"client {wid} got no block while {n - claims[0]} were never asked for")
                how = r.choice(["ok", "ok", "ok", "failed", "raise"])
                with lock:
                    serial[0] += 1
                    text = f"nested-{serial[0]}"
                    plan.append((num, how, text, wid))
                if how == "failed":
                    block.status = BlockStatus.FAILED
                elif how == "raise":
                    raise RuntimeError(text)
        except Exception as e:
            errors.append(f"client {wid} raised {e!r}")
            return False
        return True

    def client_main(wid):
        r = random.Random(f"{case['seed']}/{wid}")
        context = daisy.Context(hostname=server.hostname, port=server.port, task_id="nested", worker_id=wid)
        client = daisy.Client(context=context)
        while work(client, wid, 0, r):
            time.sleep(r.choice([0, 0, 0.001]))

    t0 = time.monotonic()
    wid = 0
    while th.is_alive():
        # clients that are told to leave while blocks are still processed are replaced
        group = []
        for _ in range(nclients):
            wid += 1
            group.append(threading.Thread(target=lambda w=wid: guard(client_main, w, th, errors), daemon=True))
        for t in group:
            t.start()
        for t in group:
            t.join(30)
            if t.is_alive():
                raise Inconclusive("a client does not end")
        th.join(0.2)
        if time.monotonic() - t0 > 40:
            raise Inconclusive("run does not end")
    if "error" in out:
        raise out["error"]
    if errors:
        raise Violation("; ".join(errors[:3]))
    oks = collections.Counter(p[0] for p in plan if p[1] == "ok")
    fails = collections.Counter(p[0] for p in plan if p[1] != "ok")
    if max(oks.values(), default=0) > 1:
        raise Violation(f"blocks were processed successfully more than once: {[k for k, v in oks.items() if v > 1]}")
    lost = [k for k in fails if k not in oks and fails[k] != retries + 1]
    if lost:
        raise Violation(
            f"failed blocks were not tried {retries + 1} times: {[(k, fails[k]) for k in lost][:5]}"
        )
    state = out["states"]["nested"]
    nok = len(oks)
    nfail = len([k for k in fails if k not in oks])
    if (state.completed_count, state.failed_count, state.total_block_count) != (nok, nfail, n):
        raise Violation(
            f"clients completed {nok} and failed {nfail} of {n} blocks, counted are "
            f"{state.completed_count}, {state.failed_count} of {state.total_block_count}"
        )
    want = sorted((p[0], p[2], p[3]) for p in plan if p[1] == "raise")
    got = sorted(reported)
    if want != got:
        raise Violation(
            f"exceptions raised but not reported {[w for w in want if w not in got][:3]}, reported but not "
            f"raised {[g for g in got if g not in want][:3]}"
        )
    st.add("nested_reports", len(plan))
    st.see("nested", case["seed"], plan)
    return st


def guard(f, wid, th, errors):
    try:
        f(wid)
    except Exception as e:
        th.join(3)
        if th.is_alive():
            errors.append(f"client {wid} raised {e!r}")
