"""Message transport (C16): every message arrives exactly once, in order, in
both directions; lost and closed connections are noticed, graceful ones lose
nothing."""

import hashlib
import os
import random
import threading
import time

from . import common, procs
from .common import Inconclusive, Stats, Violation

SIZES = [0, 1, 3, 4, 5, 100, 1000, 4095, 4096, 65535, 65536, 65537, 200_000]


def size(rng, big):
    x = rng.random()
    if x < big:
        return rng.choice([1_000_000, 3_000_000, 10_000_000])
    if x < 0.5:
        return rng.choice(SIZES)
    return rng.randint(0, 3000)


def payload(who, thread, seq, n):
    base = hashlib.blake2b(f"{who}/{thread}/{seq}".encode()).digest()
    return (who, thread, seq, (base * (n // 64 + 1))[:n])


def good(p):
    return p == payload(p[0], p[1], p[2], len(p[3]))


class Closed:
    pass


def pump(get, sink, stop, on_closed):
    """Receive until told to stop and nothing arrives any more."""
    from daisy.tcp.exceptions import NotConnected, StreamClosedError

    while True:
        try:
            m = get(timeout=0.05)
        except (StreamClosedError, NotConnected) as e:
            if on_closed(e):
                return
            continue
        if m is None:
            if stop.is_set():
                return
            continue
        sink(m)


def sender(client, who, thread, seed, n, big):
    from daisy.tcp import TCPMessage

    rng = random.Random(seed)
    for i in range(n):
        client.send_message(TCPMessage(payload(who, thread, i, size(rng, big))))
        if rng.random() < 0.1:
            time.sleep(rng.random() * 0.01)


def tcp_case(case):
    from daisy.tcp import TCPClient, TCPMessage, TCPServer
    from daisy.tcp.exceptions import NotConnected, StreamClosedError

    rng = random.Random(case["seed"])
    st = Stats()
    server = TCPServer(host="127.0.0.1")
    host, port = server.address
    nclients = rng.randint(1, 5)
    nthreads = rng.randint(1, 3)
    nmsg = rng.choice([1, 5, 20, 60])
    big = rng.choice([0, 0, 0.02, 0.1]) if nmsg <= 20 else 0
    events = []
    lock = threading.Lock()
    arrived = []  # payloads at the server, in order
    streams = {}
    lost = []
    stop = threading.Event()
    first = {}

    def at_server(m):
        p = m.payload
        with lock:
            arrived.append((p[0], p[1], p[2], good(p)))
            if p[0] not in streams:
                streams[p[0]] = m.stream
            elif streams[p[0]] is not m.stream:
                events.append(f"messages of client {p[0]} come from different streams")
            first.setdefault(p[0], threading.Event()).set()

    srv_thread = threading.Thread(
        target=pump, args=(server.get_message, at_server, stop, lambda e: lost.append(e) or False),
        daemon=True,
    )
    srv_thread.start()

    forked = rng.random() < 0.35
    clients = {}
    got = {}
    pumps = []
    senders = []
    closers = {}
    children = {}
    if forked:
        # clients in processes of their own; they end gracefully or are killed
        for c in range(nclients):
            end = rng.choice(["graceful", "graceful", "kill"])
            closers[c] = end
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    cl = TCPClient(host, port)
                    for t in range(nthreads):
                        sender(cl, c, t, rng.random(), nmsg, big)
                    if end == "graceful":
                        cl.disconnect()
                    else:
                        os.kill(os.getpid(), 9)
                    code = 0
                finally:
                    os._exit(code)
            children[c] = pid
        t0 = time.monotonic()
        codes = {}
        while len(codes) < nclients:
            for c, pid in children.items():
                if c not in codes:
                    p, status = os.waitpid(pid, os.WNOHANG)
                    if p:
                        codes[c] = status
            if time.monotonic() - t0 > 40:
                for pid in children.values():
                    try:
                        os.kill(pid, 9)
                    except OSError:
                        pass
                raise Inconclusive(f"clients do not end: {closers} {codes}")
            time.sleep(0.01)
        for c, s in codes.items():
            if closers[c] == "graceful" and s != 0:
                raise Violation(f"client {c} failed to send and disconnect: status {s}")
    else:
        for c in range(nclients):
            clients[c] = TCPClient(host, port)
            got[c] = []
            closers[c] = rng.choice(["graceful", "graceful", "abrupt", "server"])
        cstop = threading.Event()
        ended = {}
        for c, cl in clients.items():
            def sink(m, c=c):
                with lock:
                    got[c].append((m.payload[0], m.payload[1], m.payload[2], good(m.payload)))

            def closed(e, c=c):
                ended[c] = e
                return True

            th = threading.Thread(target=pump, args=(cl.get_message, sink, cstop, closed), daemon=True)
            th.start()
            pumps.append(th)
            for t in range(nthreads):
                th = threading.Thread(
                    target=sender, args=(cl, c, t, rng.random(), nmsg, big), daemon=True
                )
                senders.append(th)
        rng.shuffle(senders)
        for th in senders:
            th.start()
        # the server answers while it receives
        nback = rng.choice([0, 3, 30])
        backs = []

        def back(c, t, seed):
            r = random.Random(seed)
            if not first.setdefault(c, threading.Event()).wait(30):
                return
            for i in range(nback):
                streams[c].send_message(TCPMessage(payload(c, f"s{t}", i, size(r, big))))
                if r.random() < 0.1:
                    time.sleep(0.003)

        with lock:
            for c in clients:
                first.setdefault(c, threading.Event())
        for c in clients:
            for t in range(2):
                backs.append(threading.Thread(target=back, args=(c, t, rng.random()), daemon=True))
        for th in backs:
            th.start()
        for th in senders + backs:
            th.join(40)
            if th.is_alive():
                raise Inconclusive("a sender does not end")
        # everything sent by the server is received before anything is closed
        t0 = time.monotonic()
        while any(len(got[c]) < 2 * nback for c in clients):
            if time.monotonic() - t0 > 30:
                raise Inconclusive(
                    f"clients received {[len(got[c]) for c in clients]} of {2 * nback} messages"
                )
            time.sleep(0.01)
        # graceful disconnects may directly follow the messages
        for c, cl in clients.items():
            if closers[c] == "graceful":
                cl.disconnect()
                if cl.connected():
                    raise Violation("client is connected after disconnect()")
                try:
                    cl.send_message(TCPMessage("x"))
                    raise Violation("a disconnected client can send")
                except (NotConnected, StreamClosedError):
                    pass

    def complete(c):
        return sum(1 for a in arrived if a[0] == c)

    # abrupt ends may take messages with them, graceful ones may not
    sure = [c for c in closers if forked is False or closers[c] == "graceful"]
    t0 = time.monotonic()
    while any(complete(c) < nthreads * nmsg for c in sure):
        if time.monotonic() - t0 > 30:
            raise Inconclusive(
                f"server received {[complete(c) for c in sure]} of {nthreads * nmsg} messages per client ({closers})"
            )
        time.sleep(0.01)
    if not forked:
        for c, cl in clients.items():
            if closers[c] == "abrupt":
                common.close_hard(cl)
        time.sleep(rng.choice([0, 0.02, 0.1]))
        server.disconnect()
        for c in clients:
            t0 = time.monotonic()
            while c not in ended:
                if time.monotonic() - t0 > 30:
                    raise Inconclusive(f"client {c} ({closers[c]}) does not notice that the connection is closed")
                time.sleep(0.01)
        for th in pumps:
            th.join(10)
    nlost = sum(1 for e in closers.values() if e in ("kill", "abrupt"))
    t0 = time.monotonic()
    while len(lost) < nlost:
        if time.monotonic() - t0 > 30:
            raise Inconclusive(f"server noticed {len(lost)} of {nlost} lost connections")
        time.sleep(0.01)
    time.sleep(0.05)
    stop.set()
    srv_thread.join(10)
    if events:
        raise Violation(events[0])
    # order, completeness, content
    def judge(seq, who, where):
        per = {}
        for a in seq:
            if not a[3]:
                raise Violation(f"{where} received a corrupted message {a[:3]}")
            per.setdefault((a[0], a[1]), []).append(a[2])
        for k, ids in per.items():
            if ids != list(range(len(ids))):
                raise Violation(f"{where} received messages of {k} as {ids[:40]}")
        return per

    per = judge(arrived, None, "server")
    for c in sure:
        for t in range(nthreads):
            if len(per.get((c, t), [])) != nmsg:
                raise Violation(f"server received {len(per.get((c, t), []))} of {nmsg} messages of client {c}")
    st.add("messages_to_server", len(arrived))
    if not forked:
        for c in clients:
            pc = judge(got[c], c, f"client {c}")
            for k in pc:
                if k[0] != c:
                    raise Violation(f"client {c} received a message for client {k[0]}")
            for t in range(2):
                if nback and len(pc.get((c, f"s{t}"), [])) != nback:
                    raise Violation(f"client {c} received {len(pc.get((c, f's{t}'), []))} of {nback} messages")
            st.add("messages_to_clients", len(got[c]))
        # connections closed by the server itself are no lost ones twice
        if len(lost) > nclients - sum(1 for e in closers.values() if e == "graceful"):
            raise Violation(f"server reports {len(lost)} lost connections: {closers}")
    elif len(lost) != nlost:
        raise Violation(f"server reports {len(lost)} lost connections, {nlost} were: {closers}")
    for e in closers.values():
        st.add(f"ends_{e}")
    st.see("tcp", [(a[0], a[1], a[2]) for a in arrived], closers, big)
    st.sample(
        {"clients": nclients, "threads": nthreads, "messages": nmsg, "ends": closers, "processes": forked},
        cap=1,
    )
    return st


def odd_case(case):
    """Timeouts, servers that are not there."""
    from daisy.tcp import TCPClient, TCPMessage, TCPServer

    rng = random.Random(case["seed"])
    st = Stats()
    server = TCPServer(host="127.0.0.1")
    host, port = server.address
    if server.address != ("127.0.0.1", server.address[1]) or not port:
        raise Violation(f"server address is {server.address}")
    t = rng.choice([0.05, 0.1, 0.3])
    t0 = time.monotonic()
    m = server.get_message(timeout=t)
    dt = time.monotonic() - t0
    if m is not None or dt < t * 0.8:
        raise Violation(f"get_message(timeout={t}) without message: {m} after {dt}")
    client = TCPClient(host, port)
    t0 = time.monotonic()
    m = client.get_message(timeout=t)
    dt = time.monotonic() - t0
    if m is not None or dt < t * 0.8:
        raise Violation(f"get_message(timeout={t}) without message: {m} after {dt}")
    # waiting without timeout ends with the message
    client.send_message(TCPMessage(("a", 1)))
    m = server.get_message(timeout=30)
    if m is None or m.payload != ("a", 1):
        raise Violation(f"received {m}")
    res = []
    th = threading.Thread(target=lambda: res.append(client.get_message()), daemon=True)
    th.start()
    time.sleep(rng.choice([0, 0.05]))
    m.stream.send_message(TCPMessage("late"))
    th.join(30)
    if not res or res[0].payload != "late":
        raise Violation(f"get_message() without timeout got {res}")
    st.add("timeouts", 2)
    # large messages, and small ones after them
    if case["seed"] % 3 == 0:
        n = rng.choice([17, 20, 33, 65]) * 2**20 + rng.randrange(100)
        data = bytes([rng.randrange(256)]) * n
        for who, send, get in (
            ("server", client.send_message, server.get_message),
            ("client", m.stream.send_message, client.get_message),
        ):
            send(TCPMessage(("large", data)))
            send(TCPMessage("small"))
            x = get(timeout=60)
            if x is None:
                raise Inconclusive(f"{who} does not get a message of {n} bytes")
            if x.payload != ("large", data):
                raise Violation(f"a message of {n} bytes arrives changed at the {who}")
            x = get(timeout=30)
            if x is None or x.payload != "small":
                raise Violation(f"the message after one of {n} bytes is {x}")
            st.add("large_messages")
    # nobody listens
    import socket

    s = socket.socket()
    s.bind(("127.0.0.1", 0))
    free = s.getsockname()[1]
    s.close()
    out = []

    def connect():
        try:
            TCPClient("127.0.0.1", free)
            out.append(None)
        except Exception as e:
            out.append(e)

    th = threading.Thread(target=connect, daemon=True)
    th.start()
    th.join(30)
    if th.is_alive():
        raise Inconclusive("connecting to a closed port does not end")
    if out[0] is None:
        raise Violation("connecting to a port nobody listens on succeeds")
    st.add("refused_connections")
    # servers that run at the same time have different addresses
    others = [TCPServer(host="127.0.0.1") for _ in range(3)]
    if len({o.address for o in others} | {server.address}) != 4:
        raise Violation("two servers have the same address")
    client.disconnect()
    st.see("odd", case["seed"], t)
    return st


def burst_case(case):
    """Messages wait for a receiver that is busy, however many they are."""
    from daisy.tcp import TCPClient, TCPMessage, TCPServer
    from daisy.tcp.exceptions import NotConnected, StreamClosedError

    rng = random.Random(case["seed"])
    st = Stats()
    server = TCPServer(host="127.0.0.1")
    n = rng.choice([300, 700, 1500, 3000, 6000])
    nclients = rng.choice([1, 1, 2, 3])
    clients = [TCPClient(*server.address) for _ in range(nclients)]
    sizes = [rng.choice([0, 1, 10, 100, 1000, 5000]) for _ in range(n)]

    def collect(get, want, where):
        got = []
        t0 = time.monotonic()
        while len(got) < want:
            try:
                m = get(timeout=0.5)
            except (StreamClosedError, NotConnected) as e:
                raise Violation(f"{where} got {e!r} after {len(got)} of {want} messages")
            if m is not None:
                got.append(m)
            elif time.monotonic() - t0 > 30:
                raise Inconclusive(f"{where} received {len(got)} of {want} messages")
        return got

    for i in range(n):
        for c, cl in enumerate(clients):
            cl.send_message(TCPMessage(payload(c, 0, i, sizes[i])))
    time.sleep(rng.choice([0, 0.2, 0.5]))
    leave = rng.random() < 0.5
    got = collect(server.get_message, n * nclients, "server")
    streams = {}
    per = {c: [] for c in range(nclients)}
    for m in got:
        if not good(m.payload):
            raise Violation(f"server received a corrupted message {m.payload[:3]}")
        per[m.payload[0]].append(m.payload[2])
        streams[m.payload[0]] = m.stream
    for c, ids in per.items():
        if ids != list(range(n)):
            bad = next(i for i, x in enumerate(ids + [None]) if x != i)
            raise Violation(f"server received {len(ids)} of {n} messages of client {c}, wrong from {bad} on")
    for i in range(n):
        for c, s in streams.items():
            s.send_message(TCPMessage(payload(c, "s", i, sizes[i])))
    time.sleep(rng.choice([0, 0.2, 0.5]))
    for c, cl in enumerate(clients):
        ids = []
        for m in collect(cl.get_message, n, f"client {c}"):
            if m.payload[0] != c or not good(m.payload):
                raise Violation(f"client {c} received a corrupted message {m.payload[:3]}")
            ids.append(m.payload[2])
        if ids != list(range(n)):
            raise Violation(f"client {c} received {ids[:40]}... instead of {n} messages in order")
    st.add("burst_messages", 2 * n * nclients)
    if leave:
        # what was sent before a proper disconnect arrives all the same
        for i in range(n):
            clients[0].send_message(TCPMessage(payload(0, 1, i, sizes[i])))
        clients[0].disconnect()
        time.sleep(rng.choice([0, 0.2]))
        ids = [m.payload[2] for m in collect(server.get_message, n, "server")]
        if ids != list(range(n)):
            raise Violation(f"server received {ids[:40]}... of a client that left")
        st.add("bursts_before_disconnect")
    server.disconnect()
    st.see("burst", n, nclients, sizes[:50], leave)
    st.sample({"messages": n, "clients": nclients, "leave": leave}, cap=1)
    return st


def first_case(case):
    """Servers and clients that are made in threads of a new process at the same
    time: each pair exchanges messages as if it was alone."""
    from daisy.tcp import TCPClient, TCPMessage, TCPServer

    rng = random.Random(case["seed"])
    st = Stats()
    n = rng.randint(2, 4)
    nmsg = rng.choice([30, 100])
    sizes = [[rng.choice([10, 3000, 200_000, 400_000]) for _ in range(nmsg)] for _ in range(n)]
    gate = threading.Barrier(n)
    errors = []
    got = [([], []) for _ in range(n)]

    def one(k):
        try:
            gate.wait()
            server = TCPServer(host="127.0.0.1")
            client = TCPClient(*server.address)
            client.send_message(TCPMessage(payload(k, "hello", 0, 1)))
            hello = server.get_message(timeout=20)
            if hello is None:
                raise Inconclusive("a first message does not arrive")

            def send(how, direction):
                for i, size in enumerate(sizes[k]):
                    how(TCPMessage(payload(k, direction, i, size)))

            ths = [
                threading.Thread(target=send, args=(client.send_message, "up"), daemon=True),
                threading.Thread(target=send, args=(hello.stream.send_message, "down"), daemon=True),
            ]
            for t in ths:
                t.start()
            for get, sink in ((server.get_message, got[k][0]), (client.get_message, got[k][1])):
                t0 = time.monotonic()
                while len(sink) < nmsg and time.monotonic() - t0 < 25:
                    m = get(timeout=1)
                    if m is not None:
                        sink.append(m.payload)
            for t in ths:
                t.join(20)
            # nothing else
            for get, sink in ((server.get_message, got[k][0]), (client.get_message, got[k][1])):
                m = get(timeout=0.2)
                if m is not None:
                    sink.append(m.payload)
        except BaseException as e:
            errors.append(e)

    ths = [threading.Thread(target=one, args=(k,), daemon=True) for k in range(n)]
    for t in ths:
        t.start()
    for t in ths:
        t.join(90)
        if t.is_alive():
            raise Inconclusive("messages do not arrive")
    for k in range(n):
        for where, msgs, direction in (("server", got[k][0], "up"), ("client", got[k][1], "down")):
            for i, p in enumerate(msgs):
                if i >= nmsg or p[:3] != (k, direction, i) or p != payload(k, direction, i, sizes[k][i]):
                    raise Violation(
                        f"{where} {k} of {n} made at the same time received {p[:3]} instead of message {i} "
                        f"({direction}, {nmsg} were sent)"
                    )
    for e in errors:
        raise e
    for k in range(n):
        for msgs in got[k]:
            if len(msgs) < nmsg:
                raise Inconclusive(f"{len(msgs)} of {nmsg} messages arrived")
            st.add("first_messages", len(msgs))
    st.see("first", case["seed"], n, nmsg)
    return st
