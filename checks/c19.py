"""C19: sessions release everything and the server always stops cleanly."""
import os
import signal
import socket
import threading
import time

import numpy as np
from hypothesis import strategies as st

from checks import c14, srv
from vlib import models as M
from vlib import proto
from vlib.core import Skip, Sub, Violation, run_check
from vlib.server import LONG, Server, Upstream, listening

PID = "C19"
RULE = ("a case is a server configuration, several clients each brought to some point of its session (connected, half a header, half a request, receiving without reading, "
        "between or inside messages) and ended in some way and order under schedule noise, or a termination signal at some moment of that; non-trivial when at least two "
        "clients with an accepted session were ended or terminated")
SIGS = st.sampled_from(["SIGTERM", "SIGINT", "SIGHUP"])
AGAIN = st.lists(st.tuples(st.sampled_from([0, 0, 0.0003, 0.001, 0.003, 0.01]), SIGS).map(list), min_size=1, max_size=25)
DELAYS = ("spawn_parent_us", "spawn_child_us", "close_us", "join_us")


@st.composite
def client(draw, conf, i):
    kinds = ["rx"] * 5 + ["raw"] * 2 + ["bad"] * 3 + (["tx"] * 4 if conf["tx"] != "none" else [])
    kind = draw(st.sampled_from(kinds))
    c = {"kind": kind, "wait": draw(st.sampled_from([0, 0, 0.002, 0.01]))}
    if kind == "raw":
        c.update(bytes=draw(st.integers(0, 5)), body=draw(st.sampled_from([None, None, "rx", "tx"])), end=draw(st.sampled_from(["close", "reset", "half", "time"])))
        return c
    if kind == "bad":
        # a request which fails somewhere on the way
        c["tx"] = conf["tx"] != "none" and draw(st.booleans())
        low = 520834 if conf["tx" if c["tx"] else "rx"] == "plutosdr" else 0
        r = draw(srv.tx_request(dopp=0.5, low=low, name="bad.cf32")) if c["tx"] else draw(srv.rx_request(conf["rx"], dopp=0.5, low=low))
        how = draw(st.sampled_from(["any", "any", "tle", "file", "dump"]))
        if how == "any":
            r = draw(c14.mutate(r, c["tx"]))
        elif how == "tle" and r.get("doppler"):
            r["doppler"]["tle"] = draw(st.sampled_from([["a", "b", "c"], ["a"], []]))
        elif how == "file" and r.get("file"):
            r["file"]["filename"] = draw(st.sampled_from(["absent/absent", "", "x" * 300]))
        elif how == "dump":
            r["dump"] = True
            c["nodir"] = True
        c["req"] = r
        return c
    c["end"] = draw(st.sampled_from(["shut", "shut", "shut", "close", "close", "reset", "half", "header", "body", "junk"]))
    c["part"] = draw(st.integers(0, 60))
    if kind == "rx":
        c["req"] = draw(srv.rx_request(conf["rx"], dopp=0.1, low=520834 if conf["rx"] == "plutosdr" else 0))
        c["n"] = draw(st.one_of(st.integers(0, 4 * conf["B"]), st.just(20000)))
        c["read"] = draw(st.sampled_from(["none", "none", "some", "all"]))
        if conf["rx"] != "file":
            c["source"] = draw(st.integers(0, 3)) == 0
        c["full"] = draw(st.integers(0, 9)) == 0
    else:
        c["req"] = draw(srv.tx_request(dopp=0.1, low=520834 if conf["tx"] == "plutosdr" else 0, name="out%d.cf32" % i))
        c["sizes"] = draw(st.lists(st.integers(0, 3 * conf["B"]), max_size=5))
        c["read"] = draw(st.sampled_from(["none", "all"]))
    return c


@st.composite
def scenes(draw, term=False):
    conf = {"rx": draw(st.sampled_from(["file", "file", "file", "plutosdr", "sdr-server"])), "tx": draw(st.sampled_from(["file", "file", "plutosdr", "none"])), "B": draw(st.sampled_from([16, 64, 512])),
            "q": draw(st.sampled_from([1, 2, 16]))}
    n = draw(st.integers(1, 5))
    c = {"conf": conf, "clients": [draw(client(conf, i)) for i in range(n)], "order": draw(st.permutations(range(n))), "small": draw(st.booleans()), "seed": draw(st.integers(0, 2 ** 31)),
         "sched": draw(st.sampled_from([None, [100, 300], [300, 1000]])), "delay": draw(st.one_of(st.none(), st.tuples(st.sampled_from(DELAYS), st.sampled_from([500, 3000, 20000])))),
         "txfail": draw(st.sampled_from([0, 0, 0, 1, 3]))}
    if term:
        c.update(sig=draw(st.sampled_from(["SIGTERM", "SIGINT", "SIGHUP"])), after=draw(st.sampled_from([0, 0, 0.001, 0.005, 0.02, 0.1])), during=draw(st.sampled_from(["", "connect", "end", "send"])),
                 some=draw(st.integers(0, 3)), again=draw(st.one_of(st.just([]), AGAIN)))
    else:
        c.update(reuse=draw(st.booleans()), after=draw(st.sampled_from([0, 0, 0.002, 0.02])))
    return c


class Scene:
    def __init__(self, run, c):
        self.run, self.c = run, c
        self.w = run.worker()
        self.up = Upstream() if c["conf"]["rx"] == "sdr-server" else None
        self.open = 0
        self.acks = {}
        self.x = {}

    def conf(self):
        f = self.c["conf"]
        sc = {"buffer_size": f["B"], "queue_size": f["q"], "rx_sdr_type": f["rx"], "tx_sdr_type": f["tx"]}
        if "plutosdr" in (f["rx"], f["tx"]):
            sc.update(rx_plutosdr_gain=20.0, tx_plutosdr_gain=-10.0, tx_plutosdr_timeout_millis=100)
        if self.up:
            sc.update(rx_sdr_server_address="127.0.0.1", rx_sdr_server_port=self.up.port)
        return sc

    def noise(self, s):
        if self.c["sched"]:
            s.ctl(sched_seed=self.c["seed"], sched_max_us=self.c["sched"][1], sched_prob=self.c["sched"][0])
        if self.c["delay"]:
            s.ctl(**{self.c["delay"][0]: self.c["delay"][1]})
        if self.c["small"]:
            s.ctl(sndbuf=1)
        s.ictl(rx_end_mode=1, tx_fail_after=self.c["txfail"], rx_delay_us=200)

    def begin(self, s, i):
        """brings client i to its point; None when its request was refused"""
        q = self.c["clients"][i]
        k = s.connect(rcvbuf=2304 if q.get("read") == "none" and self.c["small"] else None)
        k.q, k.ok, k.got, k.answers = q, False, b"", []
        if q["kind"] == "raw":
            if q["body"]:
                b = proto.message(proto.RX_REQUEST if q["body"] == "rx" else proto.TX_REQUEST, b"\x08\x01" * 20)
                k.send(b[:6 + 7 * q["bytes"]])
            else:
                k.send(proto.message(proto.RX_REQUEST, b"")[:q["bytes"]])
            return k
        req = q["req"]
        if q["kind"] == "bad":
            if q.get("nodir"):
                os.rename(s.base, s.base + ".away")
            srv.write_in(s, np.zeros(20, np.complex64), "in.cf32")
            k.send(proto.message(proto.TX_REQUEST, proto.tx_body(req)) if q["tx"] else proto.message(proto.RX_REQUEST, proto.rx_body(req)))
            a = k.response("request %d" % i)
            if q.get("nodir"):
                os.rename(s.base + ".away", s.base)
            if a[0]:
                k.ended("refused")
                k.close()
            else:
                srv.finish(k, "ending client %d" % i)
            return None
        if q["kind"] == "rx":
            if self.c["conf"]["rx"] == "file":
                name = "in%d.cf32" % i
                x = srv.samples("gfsk", q["n"], q["n"] + i, req)
                srv.write_in(s, x, name)
                req = dict(req, file=dict(req["file"], filename=name))
                k.x = x
            if q["full"] and req["dump"]:
                os.symlink("/dev/full", s.path("rx", k.id))
            self.noise_upstream = None
            k.send(proto.message(proto.RX_REQUEST, proto.rx_body(req)))
        else:
            k.send(proto.message(proto.TX_REQUEST, proto.tx_body(req)))
        a = k.response("request %d" % i)
        if a[0]:
            k.ended("refused")
            k.close()
            return None
        srv.accept(k, a, "request %d" % i)
        k.ok = True
        k.req = req
        self.open += 1
        if q["kind"] == "rx" and self.up:
            live = [u for u in self.up.conns if u.answered and not u.over]
            for u in live:
                u.send(srv.samples("gfsk", min(q["n"], 2000), 3, req))
        if q["kind"] == "rx" and q["read"] == "some":
            d = k.read_some(100, timeout=0.02)
            k.got += d or b""
        return k

    def act(self, k):
        """what a transmitting client says before it ends"""
        q = k.q
        if q["kind"] != "tx" or not k.ok:
            return
        room = 40000
        k.datas = []
        for j, n in enumerate(q["sizes"]):
            per = max(1, int(8 * np.floor(np.float32(q["req"]["rate"] / q["req"]["baud"]))))
            n = min(n, room // per)
            room -= n * per
            d = np.random.default_rng(j + n).integers(0, 256, n, dtype=np.uint8).tobytes()
            k.datas.append(d)
            if not k.send(proto.message(proto.TX_DATA, proto.tx_data_body(d))):
                return
            if q["read"] == "all":
                a = k.maybe_response("data")
                if a is None:
                    return
                k.answers.append(a)

    def drain(self, k, what):
        """until the server closes"""
        while True:
            b = k.read_some()
            if b is None:
                k.server.check_alive(what)
                raise Violation("%s: the connection stays open\n%s" % (what, k.server.stacks()))
            if not b:
                return
            k.got += b

    def finish(self, s, k, i):
        """ends client i its way; whether the end was seen"""
        q = k.q
        what = "client %d (%s, %s)" % (i, q["kind"], q["end"])
        if q["kind"] == "rx" and q.get("source") and self.up:
            for u in self.up.conns:
                u.ended_by_us = True
                u.fin()
        e = q["end"]
        if e == "shut":
            k.shut()
            self.drain(k, what)
            k.close()
            return True
        if e == "half":
            k.s.shutdown(socket.SHUT_WR)
            self.drain(k, what)
            k.close()
            return True
        if e == "time":
            self.drain(k, what)
            k.close()
            return True
        if e == "header":
            k.send(proto.message(proto.TX_DATA, b"")[:q["part"] % 6])
        elif e == "body":
            k.send(proto.message(proto.TX_DATA, proto.tx_data_body(b"a" * 100))[:6 + q["part"]])
        elif e == "junk":
            k.send(b"\x07\x09\0\0\0\x05" + b"z" * q["part"])
        if e == "reset":
            k.reset()
        else:
            k.close()
        return False

    def files(self, s, k):
        """what the files of an ended session hold"""
        q, B = k.q, self.c["conf"]["B"]
        what = "client %d" % k.id
        if q["kind"] == "tx":
            if self.c["conf"]["tx"] != "file":
                return
            ref = srv.ref_tx(self.w, q["req"], B, getattr(k, "datas", []))
            y = [M.cat(v, np.complex64) for v in ref]
            if not all(np.isfinite(v).all() for v in y):
                return
            for path in [os.path.join(s.dir, q["req"]["file"]["filename"])] + ([s.path("tx", k.id)] if q["req"]["dump"] else []):
                with open(path, "rb") as f:
                    b = f.read()
                if len(b) % 8:
                    raise Violation("%s: %s ends inside a sample" % (what, os.path.basename(path)))
                d = np.frombuffer(b, np.complex64)
                want = M.cat(y, np.complex64)
                least = sum(len(v) for v in y[:len(k.answers)])
                if q["end"] == "body":
                    least = min(least, len(d))
                if len(d) < least or len(d) > len(want):
                    raise Violation("%s: %s holds %d samples, %d were confirmed, %d sent" % (what, os.path.basename(path), len(d), least, len(want)))
                srv.same_samples(d, want[:len(d)], what)
            return
        r = k.req
        if q["full"] and r["dump"]:
            return
        d = s.data("rx", k.id) if r["dump"] else None
        soft = s.data("demod", k.id) if r["dest"] != proto.SOCKET else None
        if self.c["conf"]["rx"] == "file":
            b = srv.shifted(self.w, srv.blocks(k.x, B), r["rate"], r["offset"], B)
            if d is not None:
                whole = M.cat(b, np.complex64)
                if len(d) > len(whole) or (len(d) % B and len(d) != len(whole)):
                    raise Violation("%s: the dump ends at %d" % (what, len(d)))
                srv.same_samples(d, whole[:len(d)], what + " (dump)")
                b = srv.blocks(d, B)
            if soft is not None:
                want = M.cat(srv.ref_rx(self.w, r, B, b), np.int8)
                if d is None:
                    want = want[:len(soft)]
                srv.same_soft(soft, want, what + " (file)")
                if r["dest"] == proto.BOTH:
                    m = min(len(k.got), len(want))
                    if len(k.got) > len(want):
                        raise Violation("%s: %d soft bits on the socket, %d in the file" % (what, len(k.got), len(want)))
                    srv.same_soft(k.got[:m], want[:m], what + " (socket)")
        elif d is not None and soft is not None:
            n = len(M.cat(srv.ref_rx(self.w, r, B, srv.blocks(d, B)), np.int8))
            if abs(n - len(soft)) > 2:
                raise Violation("%s: %d soft bits in the file for a dump worth %d" % (what, len(soft), n))


def timeout(c):
    return 400000 if c["conf"]["rx"] == "sdr-server" else 150000


def start(sc, run, c):
    return srv.Serve(run, sc.conf(), iio=True, rx_data=np.zeros((4000, 2), np.int16), timeout_us=None)


def opened(sc, s, c):
    """the clients which stay, in the order of the case"""
    out = []
    for i in range(len(c["clients"])):
        q = c["clients"][i]
        k = sc.begin(s, i)
        if k is None:
            continue
        if q["kind"] == "raw":
            # the server waits for it: nobody else is served before
            sc.finish(s, k, i)
            continue
        out.append((i, k))
        if q["wait"]:
            time.sleep(q["wait"])
    return out


def use(sc, s, kind, c, what):
    """the device is there for the next client"""
    B = c["conf"]["B"]
    k = s.connect()
    if kind == "tx":
        r = {"rate": 600000, "baud": 200000, "center": 437525000, "dump": False, "type": proto.GMSK, "offset": 0, "fsk": {"deviation": 50000}, "file": {"filename": "again.cf32", "start": 1600000000}}
        k.send(proto.message(proto.TX_REQUEST, proto.tx_body(r)))
    else:
        srv.write_in(s, np.zeros(5, np.complex64), "again.in")
        r = {"rate": 600000, "baud": 100000, "center": 437525000, "dump": False, "type": proto.GMSK, "offset": 0, "decimation": 1, "dest": 1, "fsk": {"deviation": 50000, "width": 20000, "dc": False},
             "file": {"filename": "again.in", "start": 1600000000}}
        k.send(proto.message(proto.RX_REQUEST, proto.rx_body(r)))
    a = k.response(what)
    if a != (proto.SUCCESS, k.id):
        raise Violation("%s: the next %s client is answered with %s" % (what, kind, a))
    if kind == "tx":
        k.send(proto.message(proto.TX_DATA, proto.tx_data_body(b"abcd"[:max(1, min(4, B))])))
        a = k.response("data")
        if a != (proto.SUCCESS, 0) and not c["txfail"]:
            raise Violation("%s: the next client's data is answered with %s" % (what, a))
    srv.finish(k, "ending the next client")


def history(run, c):
    srv.limited(run.worker(iio=True))
    sc = Scene(run, c)
    try:
        with start(sc, run, c) as s:
            s.ctl(rcvtimeo_us=timeout(c))
            sc.noise(s)
            there = opened(sc, s, c)
            for i, k in there:
                sc.act(k)
            if c["after"]:
                time.sleep(c["after"])
            seen = True
            alive = dict(there)
            for i in c["order"]:
                if i not in alive:
                    continue
                k = alive.pop(i)
                q = k.q
                e = sc.finish(s, k, i)
                if c["small"]:
                    s.ctl(sndbuf=0)
                # whose end was seen: what it used is free again
                if e and c["reuse"]:
                    if q["kind"] == "tx" or (c["conf"]["rx"] == "plutosdr"):
                        use(sc, s, q["kind"], c, "after client %d" % i)
                seen = seen and e
            s.ctl(close_us=0, join_us=0, spawn_parent_us=0, spawn_child_us=0)
            if seen:
                s.released("after all sessions ended")
            s.idle("after all sessions ended")
            for i, k in there:
                sc.files(s, k)
            for kind in ("tx", "rx"):
                if c["conf"][kind] != "none":
                    use(sc, s, kind, c, "after all")
            s.idle("after one more")
            if sc.up:
                sc.up.wait(lambda: all(u.over for u in sc.up.conns), "the end of the upstream connections")
            if s.iget("misuse"):
                raise Violation("the device library was misused %d times\n%s" % (s.iget("misuse"), s.iio_log()[-600:]))
    finally:
        if sc.up:
            sc.up.close()
    return sc.open >= 2


def termination(run, c):
    srv.limited(run.worker(iio=True))
    sc = Scene(run, c)
    try:
        with start(sc, run, c) as s:
            s.ctl(rcvtimeo_us=timeout(c))
            sc.noise(s)
            there = opened(sc, s, c)
            quit_ = threading.Event()

            def busy():
                try:
                    if c["during"] == "connect":
                        for j in range(20):
                            if quit_.is_set():
                                return
                            k = socket.create_connection(("127.0.0.1", s.port), timeout=2)
                            k.sendall([proto.message(proto.PING), proto.message(proto.TX_REQUEST, b"\x08\x01"), b"\0", proto.message(proto.RX_REQUEST, proto.rx_body(there[0][1].req) if there and there[0][1].q["kind"] == "rx" else b"")][j % 4])
                            time.sleep(0.001)
                            k.close()
                    elif c["during"] == "end":
                        for i, k in there:
                            if k.q["end"] in ("shut", "half"):
                                k.shut()
                            else:
                                k.reset()
                    elif c["during"] == "send":
                        for i, k in there:
                            sc.act(k)
                except (OSError, Violation):
                    pass
            t = None
            if c["during"]:
                t = threading.Thread(target=busy)
                t.start()
            else:
                for i, k in there:
                    sc.act(k)
            if c["after"]:
                time.sleep(c["after"])
            s.stop(sig=getattr(signal, c["sig"]), what="with %d sessions" % len(there), again=[(p, getattr(signal, n)) for p, n in c["again"]])
            quit_.set()
            if t:
                t.join(LONG)
            left = {n: s.iget(n) for n in ("contexts", "buffers", "enabled", "misuse")}
            if s.get("alloc_live") or any(left.values()):
                raise Violation("left at the end: %d allocations, %s" % (s.get("alloc_live"), left))
            for i, k in there:
                if c["during"] != "end":
                    try:
                        k.got += k.buf
                        k.buf = b""
                        while True:
                            b = k.s.recv(1 << 16)
                            if not b:
                                break
                            k.got += b
                    except OSError:
                        pass
                    if k.q["kind"] == "tx":
                        # the answers which were sent
                        k.answers = k.answers + [None] * (k.got.count(proto.message(proto.RESPONSE, b"\x08\0\x10\0")))
                sc.files(s, k)
            if sc.up:
                sc.up.wait(lambda: all(u.over for u in sc.up.conns), "the end of the upstream connections")
            s.p = None
            return sc.open >= 2
    finally:
        if sc.up:
            sc.up.close()


@st.composite
def earlies(draw):
    return {"after": draw(st.floats(0, 0.2)), "spawn": draw(st.sampled_from([0, 0, 100000])), "sig": draw(SIGS), "listen": draw(st.booleans()), "again": draw(st.one_of(st.just([]), AGAIN))}


def early(run, c):
    """a signal right after the server has started to listen"""
    s = Server(run.products)
    try:
        s.ctl(spawn_parent_us=c["spawn"])
        p = s.launch()
        end = time.time() + LONG
        while not listening(s.port):
            if p.poll() is not None or time.time() > end:
                raise Violation("the server did not start\n" + s.log())
            time.sleep(0.0005)
        if not c["listen"]:
            time.sleep(c["after"])
        s.stop(sig=getattr(signal, c["sig"]), what="right after the start", again=[(p, getattr(signal, n)) for p, n in c["again"]])
        if s.get("alloc_live"):
            raise Violation("%d allocations left at the end" % s.get("alloc_live"))
    finally:
        s.done()
    return True


@st.composite
def waits(draw):
    return {"rx": draw(st.sampled_from(["file", "plutosdr"])), "tx": draw(st.sampled_from(["file", "plutosdr"])), "kind": draw(st.sampled_from(["tx", "rx"])), "B": draw(st.sampled_from([16, 256])),
            "seed": draw(st.integers(0, 2 ** 31)), "how": draw(st.sampled_from(["shut", "half"])), "cut": draw(st.integers(0, 5)), "dump": draw(st.booleans()), "pause": draw(st.sampled_from([0, 0.01, 0.05]))}


def waiting(run, c):
    """somebody is connected already, without a whole header, while the session before ends: it gets what that one used"""
    srv.limited(run.worker(iio=True))
    conf = {"buffer_size": c["B"], "queue_size": 64, "rx_sdr_type": c["rx"], "tx_sdr_type": c["tx"], "rx_plutosdr_gain": 20.0, "tx_plutosdr_gain": -10.0, "tx_plutosdr_timeout_millis": 100}
    if c["kind"] == "tx":
        r = {"rate": 600000, "baud": 200000, "center": 437525000, "dump": c["dump"], "type": proto.GMSK, "offset": 0, "fsk": {"deviation": 50000}}
        if c["tx"] == "file":
            r["file"] = {"filename": "a.cf32", "start": 1600000000}
        m = proto.message(proto.TX_REQUEST, proto.tx_body(r))
    else:
        r = {"rate": 600000, "baud": 100000, "center": 437525000, "dump": c["dump"], "type": proto.GMSK, "offset": 0, "decimation": 1, "dest": 1, "fsk": {"deviation": 50000, "width": 20000, "dc": False}}
        if c["rx"] == "file":
            r["file"] = {"filename": "a.in", "start": 1600000000}
        m = proto.message(proto.RX_REQUEST, proto.rx_body(r))
    with srv.Serve(run, conf, iio=True, rx_data=np.zeros((4000, 2), np.int16), timeout_us=None) as s:
        s.ctl(rcvtimeo_us=3000000)
        s.ictl(rx_end_mode=1, rx_delay_us=200)
        srv.write_in(s, np.zeros(50, np.complex64), "a.in")
        old = None
        for i in range(3):
            k = s.connect()
            if old:
                k.send(m[:c["cut"] if i == 1 else 0])
                time.sleep(c["pause"])
                # the one before ends while the server waits for this one
                if c["how"] == "half":
                    old.s.shutdown(socket.SHUT_WR)
                    while True:
                        b = old.read_some()
                        if b is None:
                            raise Violation("the connection stays open\n" + s.stacks())
                        if not b:
                            break
                    old.close()
                else:
                    srv.finish(old, "the end of the one before")
                k.send(m[c["cut"] if i == 1 else 0:])
            else:
                k.send(m)
            a = k.response("client %d" % i)
            if a != (proto.SUCCESS, k.id):
                raise Violation("client %d, whose request came after the end of the session before, is answered with %s" % (i, a))
            old = k
        srv.finish(old, "the end of the last")
        s.idle("after all sessions ended")
    return True


def main():
    return run_check(PID, [
        Sub("history", scenes(), history, 300, 6000, shards=4, tshards=4, qtime=80, ttime=900),
        Sub("termination", scenes(term=True), termination, 300, 6000, shards=3, tshards=3, qtime=80, ttime=900),
        Sub("waiting", waits(), waiting, 60, 1500, shards=1, tshards=1, qtime=40, ttime=300),
        Sub("early", earlies(), early, 40, 500, shards=1, tshards=1, qtime=60, ttime=300),
    ], RULE, assumptions=["the upstream sdr-server closes the connection when it is asked to shut down"])
