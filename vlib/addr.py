"""Where a server says it can be reached (C26).

The network is replaced by one with a given default route and given defects
(methods of ``socket.socket`` are wrapped, everything else is real): whatever
the network is like, clients in the same network have to reach the server at
the address it announces."""

import errno
import os
import random
import shutil
import socket
import tempfile
import threading
import time

from . import common, procs
from .common import Inconclusive, Stats, Violation

LOCAL = ["127.0.0.2", "127.7.1.9", "127.255.0.3"]  # usable on this machine
AWAY = ["203.0.113.7", "10.255.255.1", "192.0.2.44"]  # not of this machine


class World:
    """A network."""

    def __init__(self, rng):
        self.route = rng.choice([None, None] + LOCAL * 2 + AWAY)
        self.broken = set()
        self.how = None
        if self.route in AWAY:
            self.broken.add(self.route)
            self.how = "bind"
        elif self.route and rng.random() < 0.6:
            self.broken.add(self.route)
            self.how = rng.choice(["bind", "connect", "accept", "recv", "recv", "empty", "silent"])
        self.no_route = rng.choice([errno.ENETUNREACH, errno.EHOSTUNREACH, errno.EPERM])
        # failures to bind any port at first
        self.busy = rng.choice([0, 0, 0, 0, 1, 2, 7])
        self.asked = []

    def describe(self):
        return {"default route": self.route, "unusable": self.how, "ports that are busy": self.busy}

    def install(self):
        S = socket.socket
        real = {n: getattr(S, n) for n in ("connect", "connect_ex", "getsockname", "bind", "accept", "recv", "recv_into")}
        world = self

        def udp(s):
            return s.type & 0xF == socket.SOCK_DGRAM

        def away(address):
            return isinstance(address, tuple) and address and str(address[0]) in world.broken

        def own(s):
            try:
                return away(real["getsockname"](s))
            except OSError:
                return False

        faked = {}

        def connect(s, address):
            if udp(s):
                world.asked.append(address)
                if world.route is None:
                    raise OSError(world.no_route, "no route")
                faked[id(s)] = world.route
                return
            if away(address) and world.how in ("bind", "connect"):
                raise OSError(errno.ECONNREFUSED, "refused")
            return real["connect"](s, address)

        def connect_ex(s, address):
            if away(address) and world.how in ("bind", "connect"):
                return errno.ECONNREFUSED
            return real["connect_ex"](s, address)

        def getsockname(s):
            if udp(s) and id(s) in faked:
                return (faked.pop(id(s)), 40000)
            return real["getsockname"](s)

        def bind(s, address):
            if away(address) and world.how == "bind":
                raise OSError(errno.EADDRNOTAVAIL, "not available")
            if world.busy and not udp(s) and str(address[0]) in ("", "0.0.0.0", "::"):
                world.busy -= 1
                raise OSError(errno.EADDRINUSE, "in use")
            return real["bind"](s, address)

        def accept(s):
            conn, address = real["accept"](s)
            if world.how == "accept" and own(conn):
                conn.close()
                raise OSError(errno.ECONNABORTED, "aborted")
            return conn, address

        def recv(s, *a):
            if own(s) and not udp(s):
                if world.how == "recv":
                    raise OSError(errno.ENOTCONN, "not connected")
                if world.how == "empty":
                    return b""
                if world.how == "silent":
                    if s.gettimeout() == 0:
                        raise BlockingIOError(errno.EAGAIN, "again")
                    time.sleep(min(s.gettimeout() or 1, 0.2))
                    raise TimeoutError("timed out")
            return real["recv"](s, *a)

        def recv_into(s, buffer, *a):
            if own(s) and not udp(s):
                if world.how == "recv":
                    raise OSError(errno.ENOTCONN, "not connected")
                if world.how == "empty":
                    return 0
                if world.how == "silent":
                    raise BlockingIOError(errno.EAGAIN, "again")
            return real["recv_into"](s, buffer, *a)

        for f in (connect, connect_ex, getsockname, bind, accept, recv, recv_into):
            setattr(S, f.__name__, f)


def exchange(address, server, what):
    """A client reaches the server at this address, in both directions."""
    from daisy.messages import AcquireBlock, RequestShutdown
    from daisy.tcp import TCPClient

    out = {}

    def go():
        try:
            c = TCPClient(*address)
            c.send_message(AcquireBlock("hello"))
            end = time.monotonic() + 15
            while time.monotonic() < end:
                m = server.get_message(timeout=0.1)
                if m is not None:
                    break
            else:
                out["problem"] = "what a client sent did not arrive"
                return
            m.stream.send_message(RequestShutdown())
            got = c.get_message(timeout=15)
            if not isinstance(got, RequestShutdown):
                out["problem"] = f"the client received {got} as an answer"
            out["done"] = True
        except BaseException as e:
            out["problem"] = repr(e)

    th = threading.Thread(target=go, daemon=True)
    th.start()
    th.join(40)
    if th.is_alive():
        raise Inconclusive(f"{what}: no connection to {address}")
    if "problem" in out:
        raise Violation(f"clients do not reach the server at {address} it announces: {out['problem']} | {what}")


def address_case(case):
    from daisy.tcp import TCPServer

    rng = random.Random(case["seed"])
    st = Stats()
    world = World(rng)
    what = world.describe()
    host = rng.choice([None, None, None, "localhost", "127.0.0.1", "127.9.9.9", "203.0.113.7", "daisy.example.org"])
    world.install()
    if host in world.broken:
        host = None
    server = TCPServer(host=host)
    ip, port = server.address
    if host is not None:
        want = host
    elif world.route is not None and world.route not in world.broken:
        want = world.route
    else:
        want = "127.0.0.1"
    what["given host"] = host
    if ip != want:
        raise Violation(f"the server announces to be reachable at {server.address}, should be {want} | {what}")
    if host in ("203.0.113.7", "daisy.example.org"):
        # where clients reach this server from outside, it can not know better
        exchange(("127.0.0.1", port), server, what)
        st.add("hosts_outside")
    else:
        exchange(server.address, server, what)
    if host is None and rng.random() < 0.5:
        # more than one server in the same network
        other = TCPServer()
        exchange(other.address, other, what)
        exchange(server.address, server, what)
        if other.address == server.address:
            raise Violation(f"two servers announce the same address {other.address}")
    st.add("addresses_reached")
    st.add(f"route_{'none' if world.route is None else 'broken' if world.broken else 'usable'}")
    if what["ports that are busy"]:
        st.add("busy_ports_passed")
    st.see("address", what, case["seed"] % 50)
    st.sample(what, cap=1)
    return st


def nofree_case(case):
    """No port at all, or not within the allowed number of tries."""
    from daisy.tcp import TCPServer
    from daisy.tcp.exceptions import NoFreePort

    rng = random.Random(case["seed"])
    st = Stats()
    world = World(rng)
    tries = rng.choice([1, 2, 5, 20])
    busy = rng.choice([tries - 1, tries, tries + 3, 10**6])
    world.busy = busy
    world.install()
    what = dict(world.describe(), tries=tries, busy=busy)
    try:
        server = TCPServer(max_port_tries=tries)
    except NoFreePort:
        if busy < tries:
            raise Violation(f"no port was found although one of {tries} tries was possible | {what}")
        st.add("no_free_port")
    except BaseException as e:
        raise Violation(f"without a free port, the server raised {e!r} | {what}")
    else:
        # every try binds at least one socket
        if busy >= 2 * tries + 2:
            raise Violation(f"a server was created at {server.address} without a free port | {what}")
        exchange(server.address, server, what)
        st.add("found_port_at_last")
    st.see("nofree", what)
    return st


def run_case(case):
    """Complete runs in such a network."""
    import daisy

    rng = random.Random(case["seed"])
    st = Stats()
    world = World(rng)
    what = world.describe()
    where = tempfile.mkdtemp(dir=common.SCRATCH)
    world.install()
    log = os.path.join(where, "log")
    n = rng.randint(1, 5)
    roi = daisy.Roi((0,), (2,))
    seen = []

    def work(block):
        c = daisy.Context.from_env()
        procs.log_event(log, int(block.write_roi.offset[0]), c["hostname"], int(c["port"]))

    def spawn():
        client = daisy.Client()
        while True:
            with client.acquire_block() as block:
                if block is None:
                    return
                work(block)

    def callback(context):
        seen.append((context["hostname"], int(context["port"])))

    t = daisy.Task(
        "t", daisy.Roi((0,), (2 * n,)), roi, roi, process_function=rng.choice([work, spawn]),
        num_workers=rng.randint(1, 2), read_write_conflict=False, init_callback_fn=callback,
    )
    host = rng.choice([None, None, "127.0.0.1"])
    out = {}

    def go():
        try:
            if rng.random() < 0.5 or host:
                out["address"] = None
                server = daisy.Server(host=host)
                out["address"] = (server.hostname, server.port)
                states = server.run_blockwise([t])
                out["ok"] = states["t"].completed_count == n
            else:
                out["ok"] = daisy.run_blockwise([t])
        except BaseException as e:
            out["error"] = e

    th = threading.Thread(target=go, daemon=True)
    th.start()
    th.join(45)
    if th.is_alive():
        raise Inconclusive(f"a run did not finish: {what} {out} {procs.read_events(log)}")
    if "error" in out:
        raise out["error"]
    got = procs.read_events(log)
    if not out["ok"] or sorted(e[0] for e in got) != [2 * k for k in range(n)]:
        raise Violation(f"a run processed {got}, ok {out['ok']} | {what}")
    told = {(e[1], e[2]) for e in got} | set(seen) | ({out["address"]} if out.get("address") else set())
    if len(told) != 1:
        raise Violation(f"server, callback and workers were told different addresses: {told} | {what}")
    st.add("runs_in_networks")
    st.see("run", what, n, host)
    shutil.rmtree(where, ignore_errors=True)
    return st
