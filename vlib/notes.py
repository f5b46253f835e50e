"""Checker of the trace of observer notifications (C17)."""

import collections

from . import sched
from .common import Violation


def check(run, serial=False):
    notes = run.notes
    st = run.st
    model = run.mon.model
    tids = list(model.tasks)
    kinds = collections.Counter((n[0], n[1]) for n in notes)
    text = [n[:2] for n in notes][-20:]
    told = [n for n in notes if n[0] != "callback"]
    for o in run.other_observers:
        if o.trace != told:
            k = next((i for i, (a, b) in enumerate(zip(o.trace, told)) if a != b), min(len(o.trace), len(told)))
            raise Violation(
                f"observers are told different things: {o.trace[k : k + 2]} and {told[k : k + 2]} "
                f"({len(o.trace)} and {len(told)} notifications)"
            )
        st.add("traces_compared")
    if run.gone_observer.trace:
        raise Violation(f"an observer that was removed is told {run.gone_observer.trace[:2]}")
    if kinds[("exit", None)] != 1 or notes[-1][0] != "exit":
        raise Violation(f"server exit is not notified once, at the end: {text}")
    if serial:
        handed = collections.Counter()
        for (what, key) in run.hub.events:
            if what == "handout":
                handed[key[0]] += 1
        taken = handed
    else:
        handed = collections.Counter()
        for k, n in run.hub.handouts.items():
            handed[k[0]] += n
        taken = collections.Counter()
        for c in (run.hub.acc_ok, run.hub.acc_fail):
            for k, n in c.items():
                taken[k[0]] += n
    seen = set()
    done = set()
    for n in notes:
        what, tid = n[0], n[1]
        st.add("notifications")
        if what == "exit":
            continue
        if what == "failure":
            if not serial and tid not in seen and run.case.get("kind") in ("ok", "fail", "drop"):
                raise Violation(f"failure of a block of {tid} before it started: {text}")
            continue
        if what == "callback":
            continue
        if what == "start":
            seen.add(tid)
        elif what in ("acquire", "release"):
            if tid not in seen:
                raise Violation(f"{what} of task {tid} is notified before its start: {text}")
            if tid in done:
                raise Violation(f"{what} of task {tid} is notified after it is done: {text}")
        elif what == "done":
            done.add(tid)
            s = n[2]
            if not s["done"]:
                raise Violation(f"task {tid} is notified as done with state {s}")
        if len(n) > 3:
            s, v = n[2], n[3]
            exp = {
                "completed": v.get(sched.DONE, 0),
                "failed": v.get(sched.FAILED, 0),
                "orphaned": v.get(sched.ORPHAN, 0),
                "processing": v.get(sched.BUSY, 0),
                "ready": v.get(sched.READY, 0),
            }
            for k, e in exp.items():
                if s[k] != e:
                    raise Violation(f"{what} of {tid} is notified with {s}, true counts are {exp}")
    for tid in tids:
        ns = kinds[("start", tid)]
        if ns > 1 or (handed[tid] and ns != 1):
            raise Violation(f"start of task {tid} is notified {ns} times: {text}")
        if kinds[("done", tid)] != 1:
            raise Violation(f"end of task {tid} is notified {kinds[('done', tid)]} times: {text}")
        if kinds[("acquire", tid)] != handed[tid]:
            raise Violation(
                f"{kinds[('acquire', tid)]} blocks of {tid} are notified as acquired, {handed[tid]} were"
            )
        if kinds[("release", tid)] != taken[tid]:
            raise Violation(
                f"{kinds[('release', tid)]} blocks of {tid} are notified as released, {taken[tid]} were"
            )
        if not serial:
            nc = kinds[("callback", tid)]
            if nc != ns:
                raise Violation(f"init callback of {tid} is called {nc} times, task started {ns} times")
            if nc:
                ctx = [c for t, c in run.callbacks if t == tid][0]
                got = (str(ctx["hostname"]), int(ctx["port"]), ctx["task_id"])
                if got != (str(run.host), int(run.port), tid):
                    raise Violation(f"init callback of {tid} gets context {ctx}")
        st.add("task_lifecycles")
    if not serial:
        # the callback comes before the first block of the task is handed out
        cb = set()
        for e in run.hub.events:
            if e[:2] == ("server", "init_callback"):
                cb.add(e[2])
            elif e[:2] == ("server", "handout") and e[2][0] not in cb:
                raise Violation(f"block {e[2]} is handed out before the init callback of its task")
        if run.case.get("kind") in ("ok", "fail", "drop"):
            exp = collections.Counter()
            for k, es in run.exceptions.items():
                for e in es:
                    exp[(k, e)] += 1
            got = collections.Counter((n[2], n[3]) for n in notes if n[0] == "failure")
            if exp != got:
                raise Violation(
                    f"block failures: not notified {list((exp - got).items())[:3]}, "
                    f"notified but not reported {list((got - exp).items())[:3]}"
                )
            for n in notes:
                if n[0] == "failure":
                    st.add("failures_notified")
                    if n[4] != n[1] or not n[5].isdigit() or int(n[5]) < 1000:
                        raise Violation(f"failure notification has wrong context: {n}")
    st.add("traces")
