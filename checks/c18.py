"""C18: clients share an upstream sdr-server connection correctly."""
import threading
import time

import numpy as np
from hypothesis import strategies as st

from checks import srv
from vlib import models as M
from vlib import proto
from vlib.core import Sub, Violation, run_check
from vlib.server import Upstream

PID = "C18"
RULE = ("a case is a history of joining and leaving clients, samples in pieces, refusals and ends of the upstream; non-trivial when clients shared a connection, a client "
        "joined after samples had passed, and at least eight soft bits of some client were compared; for the stream in pieces, when a pause was inside a sample")
U32 = (1 << 32) - 1
LOCKS = 16 | 32  # delays before a mutex is locked and after it is unlocked only


@st.composite
def wish(draw, n):
    """which stream (base number and what differs from it) and how it is demodulated"""
    return {"base": draw(st.integers(0, n - 1)), "other": draw(st.sampled_from(["", "", "", "", "", "", "", "", "rate", "offset", "center", "rate2", "offset2"])),
            "fsk": draw(st.sampled_from([0, 0, 1, 2])), "dest": draw(st.sampled_from([0, 1, 1, 2])), "dump": draw(st.integers(0, 3)) > 0}


@st.composite
def histories(draw):
    B = draw(st.sampled_from([64, 256, 1024]))
    bases = []
    for _ in range(draw(st.sampled_from([1, 1, 2]))):
        r = draw(srv.radio())
        c = draw(st.sampled_from([437525000, 145900000, 2 ** 31 + 5, U32 - 10 ** 6, U32]))
        r.update(center=c, offset=draw(st.sampled_from([0, 0, 1000, -1, -r["rate"], 999999])))
        if c == U32 and r["offset"] > 0:
            # the highest frequency a request can have
            r["center"] -= r["offset"]
        bases.append(r)
    n = len(bases)
    ops = [["join", draw(wish(n)), "accept", "quiet"]]
    for _ in range(draw(st.integers(4, 14))):
        k = draw(st.sampled_from(["join"] * 5 + ["fail"] * 2 + ["send"] * 8 + ["leave"] * 4 + ["swap"] * 2 + ["end", "end", "stall", "ping"]))
        if k == "join":
            ops.append([k, draw(wish(n)), "accept", draw(st.sampled_from(["quiet", "quiet", "race", "busy"]))])
        elif k == "fail":
            w = draw(wish(n))
            if draw(st.integers(0, 3)):
                w["other"] = "alone"
            ops.append(["join", w, draw(st.sampled_from(["reject", "silent", "close", "badversion", "badtype", "half", "rst", "range"])), "quiet"])
        elif k == "send":
            ops.append([k, draw(st.integers(0, 5)), draw(st.sampled_from([1, 1, 2, 5])), draw(st.one_of(st.just(0), st.just(0), st.integers(1, B - 1))), draw(st.lists(st.floats(0, 1), max_size=4))])
        elif k == "leave":
            ops.append([k, draw(st.integers(0, 9)), draw(st.sampled_from(["shut", "shut", "shut", "close", "reset"])), draw(st.booleans())])
        elif k == "swap":
            ops.append([k, draw(st.integers(0, 9)), draw(st.integers(0, 2)), draw(st.booleans())])
        elif k == "end":
            ops.append([k, draw(st.integers(0, 5)), draw(st.integers(0, 7))])
        else:
            ops.append([k])
    if sum(o[0] == "stall" for o in ops) > 1 or draw(st.integers(0, 2)):
        ops = [o for o in ops if o[0] != "stall"]
    return {"B": B, "bases": bases, "ops": ops, "seed": draw(st.integers(0, 2 ** 31)), "noise": draw(st.booleans()), "fin": draw(st.sampled_from(["leave", "leave", "end", "end", "term"])),
            "sched": draw(st.sampled_from([None, None, [100, 300]]))}


class Conn:
    """the model of one upstream connection"""

    def __init__(self, u, key, x, patience):
        self.u, self.key, self.x, self.patience = u, key, x, patience
        self.sent = 0       # bytes
        self.clients = []
        self.loose = False  # whether the reader might have waited for the rest of a block for too long
        self.last = time.time()

    def aged(self, B):
        if self.sent % (8 * B) and time.time() - self.last > self.patience:
            self.loose = True
        return self.loose

    @property
    def samples(self):
        return self.sent // 8


class World:
    def __init__(self, run, s, up, c):
        self.run, self.s, self.up, self.c = run, s, up, c
        self.w = run.worker()
        self.conns = []     # alive, in the model
        self.clients = []
        self.seen = 0
        self.shared = self.late = self.compared = 0
        self.noise = c["noise"] and not any(o[0] == "stall" for o in c["ops"])

    def request(self, w):
        b = self.c["bases"][w["base"]]
        r = dict(b, type=proto.GMSK, dump=w["dump"], dest=w["dest"])
        f = dict(b["fsk"])
        if w["fsk"] == 1:
            f["deviation"] = f["deviation"] * 2
            f["dc"] = not f["dc"]
        elif w["fsk"] == 2:
            r["decimation"] = max(1, b["decimation"] - 1)
        r["fsk"] = f
        o = w["other"]
        if o == "rate":
            r["rate"] += 1
        elif o == "rate2":
            r["rate"] *= 2
        elif o == "offset":
            r["offset"] += 1 if r["center"] + r["offset"] < U32 else -1
        elif o == "offset2":
            r["offset"] = -r["offset"] if r["offset"] > 0 else r["offset"] - 5
        elif o == "center":
            # the same sum of center and offset but another band
            r["center"] -= 7
            r["offset"] += 7
        elif o == "alone":
            r["center"] -= 12345
        return r

    def signal(self, r):
        n = self.c["B"] * 64
        kind = "noise" if self.noise else "gfsk"
        x = srv.samples(kind, n, self.c["seed"] + self.seen, r)
        # no two places look the same
        rng = np.random.default_rng(self.c["seed"] + 77 + self.seen)
        return (x + 1e-3 * (rng.standard_normal(n) + 1j * rng.standard_normal(n))).astype(np.complex64)

    def settle(self):
        if not self.s.quiet(hold=0.03):
            raise Violation("the server is still busy")

    def join(self, w, mode, how):
        s, up = self.s, self.up
        r = self.request(w)
        if mode == "range":
            r["center"] = [U32 + 1, U32 - 5][w["fsk"] % 2]
            r["offset"] = 6 if r["center"] < U32 else -100
        key = (r["center"], r["rate"], r["offset"])
        there = [k for k in self.conns if k.key == key]
        can = srv.ref_rx(self.w, r, self.c["B"], []) is not None
        with up.cv:
            up.mode = "accept" if mode == "range" else mode
        fails = mode == "range" or (mode != "accept" and not there)
        if mode in ("silent", "half"):
            s.ctl(rcvtimeo_us=150000 // s.conf["read_timeout_seconds"])
        if how == "quiet":
            self.settle()
        lo = there[0].samples if there else 0
        if there and how == "quiet":
            lo -= self.c["B"] if there[0].aged(self.c["B"]) else lo % self.c["B"]
        elif there:
            lo = 0
        sender = None
        if there and how == "race":
            sender = threading.Thread(target=self.flow, args=(there[0],))
            sender.start()
        elif there and how == "busy":
            self.push(there[0], 3, 0, [])
        k = s.connect()
        k.send(proto.message(proto.RX_REQUEST, proto.rx_body(r)))
        a = k.response("join")
        hi = there[0].samples if there else 0
        if sender:
            sender.join()
        s.ctl(rcvtimeo_us=0)
        with up.cv:
            up.mode = "accept"
        if not can or fails:
            if a != (proto.FAILURE, proto.INTERNAL):
                raise Violation("a request which cannot be served (%s) was answered with %s" % (mode, a))
            k.ended("a failed request")
            k.close()
            self.adopt(r, None if not can or mode == "range" else 1, True)
            return
        if a[0]:
            raise Violation("a joining client was answered with %s\n%s" % (a, s.log(1500)))
        srv.accept(k, a, "join")
        conn = there[0] if there else None
        if conn is None:
            conn = self.adopt(r, 1, False)
        else:
            self.adopt(r, 0, False)
            self.shared += 1
            if conn.sent:
                self.late += 1
        self.add(k, r, conn, lo, hi)

    def add(self, k, r, conn, lo, hi):
        k.r, k.conn, k.lo, k.hi = r, conn, lo, hi
        conn.clients.append(k)
        self.clients.append(k)

    def adopt(self, r, n, failed):
        """exactly n new upstream connections were made, asking for what the request says"""
        up = self.up
        if n:
            up.wait(lambda: len(up.conns) > self.seen and up.conns[self.seen].request is not None, "a connection for the request")
        new = up.conns[self.seen:]
        if n is None:
            n = 0
        if len(new) != n:
            raise Violation("%d upstream connections were made instead of %d" % (len(new), n))
        self.seen += len(new)
        if not new:
            return None
        u = new[0]
        want = {"version": 0, "type": 0, "center": r["center"] + r["offset"], "rate": r["rate"], "band": r["center"], "dest": 1}
        if u.request != want:
            raise Violation("the upstream was asked for %s instead of %s" % (u.request, want))
        if failed:
            up.wait(lambda: u.over, "the end of the failed connection")
            return None
        conn = Conn(u, (r["center"], r["rate"], r["offset"]), self.signal(r), self.s.conf["read_timeout_seconds"] * 0.4)
        self.conns.append(conn)
        return conn

    def push(self, conn, blocks, extra, cuts, tail=0):
        B = self.c["B"]
        n = min(blocks * B * 8 + extra * 8 + tail, len(conn.x) * 8 - conn.sent)
        conn.aged(B)
        conn.last = time.time()
        if not extra and not tail:
            # up to the boundary of a block
            n = min(n + (-(conn.sent + n)) % (8 * B), len(conn.x) * 8 - conn.sent)
        data = conn.x.tobytes()[conn.sent:conn.sent + n]
        conn.sent += n
        conn.u.send(data, cuts=[int(f * n) for f in cuts])

    def flow(self, conn):
        for _ in range(6):
            self.push(conn, 1, 0, [])
            time.sleep(0.0007)

    def rest(self, k):
        return srv.finish(k, "leaving")

    def leave(self, k, how, settled):
        conn = k.conn
        if settled:
            self.settle()
        got = b""
        if how == "shut":
            got = self.rest(k)
        elif how == "close":
            k.close()
        else:
            k.reset()
        self.gone(k)
        self.s.ping()
        if how != "shut":
            self.s.idle_of(k)
        end = None
        if settled:
            end = self.whole(conn)
        self.judge(k, got if how == "shut" else None, end)

    def whole(self, conn):
        """the samples in full blocks; the rest of a block is delivered when the time is out"""
        n, B = conn.samples, self.c["B"]
        return (n - B, n) if conn.aged(B) else n - n % B

    def gone(self, k):
        k.conn.clients.remove(k)
        self.clients.remove(k)
        if not k.conn.clients:
            u = k.conn.u
            self.conns.remove(k.conn)
            self.up.wait(lambda: u.over, "the end of the connection nobody uses")
            if not u.shutdown and not u.ended_by_us:
                raise Violation("the connection nobody uses was not shut down by a message")

    def swap(self, k, fsk, close):
        """one leaves while another one asks for the same"""
        s = self.s
        self.settle()
        conn = k.conn
        last = len(conn.clients) == 1
        w = {"base": 0, "other": "", "fsk": 0, "dest": 2, "dump": True}
        r = dict(k.r, dump=True, dest=2)
        got = b""
        if close:
            k.close()
        else:
            k.shut()
        n = s.connect()
        n.send(proto.message(proto.RX_REQUEST, proto.rx_body(r)))
        a = n.response("joining while another one leaves")
        if a[0]:
            raise Violation("a client which joined while another one left was answered with %s\n%s" % (a, s.log(1500)))
        srv.accept(n, a, "joining while another one leaves")
        new = len(self.up.conns) > self.seen
        if new and not last:
            raise Violation("a connection which is in use was not shared")
        if new:
            c2 = self.adopt(r, 1, False)
            self.add(n, r, c2, 0, 0)
        else:
            self.adopt(r, 0, False)
            lo = conn.samples
            self.add(n, r, conn, lo - self.c["B"] if conn.aged(self.c["B"]) else lo - lo % self.c["B"], lo)
            self.shared += 1
        if not close:
            got = self.rest(k)
        self.gone(k)
        if close:
            s.idle_of(k)
        self.judge(k, None if close else got, None)

    def end(self, conn, tail):
        """the upstream ends: everything which arrived is delivered, then the sessions end"""
        if tail:
            self.push(conn, 0, 0, [], tail)
        conn.u.ended_by_us = True
        conn.u.fin()
        end = conn.samples
        got = {}
        for k in conn.clients:
            b = k.buf
            k.buf = b""
            while True:
                x = k.read_some()
                if x is None:
                    self.s.check_alive()
                    raise Violation("the upstream ended but the session did not\n" + self.s.stacks())
                if not x:
                    break
                b += x
            got[k] = b
            k.close()
        self.s.ping()
        for k in list(conn.clients):
            conn.clients.remove(k)
            self.clients.remove(k)
            self.judge(k, got[k], end)
        self.conns.remove(conn)
        self.up.wait(lambda: conn.u.over, "the end of the connection")

    def judge(self, k, got, end, what="client"):
        """got: what came through the socket, None when the client did not stay; end: number of the sample after the last, or what is between, or unknown"""
        r, x, B = k.r, k.conn.x, self.c["B"]
        what = "%s %d" % (what, k.id)
        k.conn.aged(B)
        if end is None:
            end = (0, k.conn.samples)
        elif not isinstance(end, tuple):
            end = (end, end)
        d = self.s.data("rx", k.id) if r["dump"] else None
        soft = None if r["dest"] == proto.SOCKET else self.s.data("demod", k.id)
        lo, hi = max(0, k.lo), k.hi
        if d is not None and len(d):
            at = [p for p in range(lo, hi + 1) if p < len(x) and x[p] == d[0]]
            if not at:
                where = np.flatnonzero(x == d[0])
                raise Violation("%s: its samples start at %s, not in %d..%d" % (what, where[:3], lo, hi))
            p = at[0]
            if p + len(d) > len(x) or not np.array_equal(x[p:p + len(d)], d):
                m = min(len(d), len(x) - p)
                bad = np.flatnonzero(x[p:p + m] != d[:m])
                raise Violation("%s: its samples differ from the stream at %s after the start %d" % (what, bad[:1], p))
            e = p + len(d)
            if not end[0] <= e <= end[1]:
                raise Violation("%s: its samples end at %d instead of %s" % (what, e, end))
            parts = [(p, e)]
        elif d is not None:
            if end[0] > hi:
                raise Violation("%s: no samples although %d arrived" % (what, end[0] - hi))
            parts = [(0, 0)]
        else:
            if lo != hi or end[0] != end[1]:
                parts = None
            else:
                parts = [(lo, max(lo, end[0]))]
        if parts is None:
            return
        p, e = parts[0]
        want = M.cat(srv.ref_rx(self.w, r, B, srv.blocks(x[p:e], B)), np.int8)
        if soft is not None:
            if got is None:
                self.prefix(k.conn, soft, want, what + " (file)")
            else:
                self.same(k.conn, soft, want, what + " (file)")
        if got is not None:
            if r["dest"] == proto.FILE:
                if got:
                    raise Violation("%s: %d bytes on the socket of a client which asked for a file" % (what, len(got)))
            else:
                self.same(k.conn, np.frombuffer(got, np.int8), want, what + " (socket)")
        self.compared = max(self.compared, len(want))

    def same(self, conn, got, want, what):
        if conn.loose and self.noise:
            return
        if conn.loose and abs(len(got) - len(want)) <= 1:
            # other blocks: one symbol of latency more or less
            n = min(len(got), len(want))
            got, want = got[:n], want[:n]
        srv.same_soft(got, want, what)

    def prefix(self, conn, got, want, what):
        if len(got) > len(want) + conn.loose:
            raise Violation("%s: %d soft bits of %d" % (what, len(got), len(want)))
        self.same(conn, got, want[:len(got)], what)


def history(run, c):
    srv.limited(run.worker())
    up = Upstream()
    try:
        with srv.Serve(run, {"buffer_size": c["B"], "queue_size": 256, "rx_sdr_type": "sdr-server", "rx_sdr_server_address": "127.0.0.1", "rx_sdr_server_port": up.port},
                       timeout_s=1 if c["fin"] == "term" or ["stall"] in c["ops"] else 6) as s:
            if c["sched"]:
                s.ctl(sched_seed=c["seed"], sched_max_us=c["sched"][1], sched_prob=c["sched"][0], eintr=30 * (c["seed"] % 2))
            w = World(run, s, up, c)
            for o in c["ops"]:
                if o[0] == "join":
                    w.join(o[1], o[2], o[3])
                elif o[0] == "ping":
                    s.ping()
                elif o[0] == "stall":
                    if w.conns:
                        w.push(w.conns[0], 0, 3, [])
                    time.sleep(1.1)
                elif not w.clients:
                    continue
                elif o[0] == "send":
                    w.push(w.conns[o[1] % len(w.conns)], o[2], o[3], o[4])
                elif o[0] == "leave":
                    w.leave(w.clients[o[1] % len(w.clients)], o[2], o[3])
                elif o[0] == "swap":
                    w.swap(w.clients[o[1] % len(w.clients)], o[2], o[3])
                elif o[0] == "end":
                    w.end(w.conns[o[1] % len(w.conns)], o[2])
            if c["fin"] == "leave":
                for k in list(w.clients):
                    w.leave(k, "shut", True)
            elif c["fin"] == "end":
                for k in list(w.conns):
                    w.end(k, 3)
            else:
                w.settle()
                live = list(w.clients)
                # the rest of a block might be delivered while other sessions end
                ends = {k: (k.conn.samples - (c["B"] if k.conn.aged(c["B"]) else k.conn.samples % c["B"]), k.conn.samples) for k in live}
                s.stop(what="with sessions")
                for k in live:
                    got = k.buf
                    while True:
                        b = k.read_some()
                        if not b:
                            break
                        got += b
                    conn = k.conn
                    w.gone(k)
                    w.judge(k, got, ends[k], "after termination")
                left = s.get("alloc_live")
                if left:
                    raise Violation("%d allocations left at the end" % left)
                s.kill()
            if c["fin"] != "term":
                s.idle("after all sessions ended")
            for u in up.conns:
                if u.extra:
                    raise Violation("the upstream received %s" % u.extra[:10].hex())
    finally:
        up.close()
    return bool(w.shared and w.late and w.compared >= 8)


@st.composite
def stubborns(draw):
    return {"req": draw(srv.rx_request("sdr", 0)), "n": draw(st.integers(0, 5)), "visits": draw(st.lists(st.tuples(st.sampled_from(["ping", "slow", "slow", "rx"]), st.floats(0, 0.05), st.floats(0, 0.15)), min_size=3, max_size=6)), "first": draw(st.sampled_from([0, 0.3, 0.33, 0.4])),
            "flow": draw(st.booleans())}


def stubborn(run, c):
    """the upstream does not hurry to close the connection nobody uses: others are served all the same"""
    w = srv.limited(run.worker())
    up = Upstream()
    r = dict(c["req"], offset=0, dest=proto.SOCKET, dump=False)
    if srv.ref_rx(w, r, 64, []) is None:
        up.close()
        return False
    try:
        with srv.Serve(run, {"buffer_size": 64, "queue_size": 256, "rx_sdr_type": "sdr-server", "rx_sdr_server_address": "127.0.0.1", "rx_sdr_server_port": up.port}, timeout_s=6) as s:
            s.ctl(rcvtimeo_us=300000 // 6)
            x = srv.samples("gfsk", 64 * 30, 5, r)
            k = s.connect()
            k.send(proto.message(proto.RX_REQUEST, proto.rx_body(r)))
            if k.response("join")[0]:
                return False    # too slow for such a short timeout
            s.ctl(rcvtimeo_us=0)
            up.wait(lambda: up.conns and up.conns[0].answered, "the request")
            u = up.conns[0]
            u.send(x[:64 * c["n"]])
            up.graceful = False
            k.shut()
            seen = 1
            time.sleep(c["first"])
            for kind, before, inside in c["visits"]:
                time.sleep(before)
                if c["flow"] and not u.over:
                    u.send(x[:7])
                n = s.connect()
                m = proto.message(proto.PING) if kind != "rx" else proto.message(proto.RX_REQUEST, proto.rx_body(dict(r, center=r["center"] + seen)))
                time.sleep(inside)
                n.send(m, cuts=range(1, 6) if kind == "slow" else None, pause=0.07)
                a = n.response(kind)
                if kind != "rx":
                    if a != (proto.SUCCESS, 0):
                        raise Violation("a ping was answered with %s" % (a,))
                    n.close()
                    continue
                srv.accept(n, a, "another stream")
                up.wait(lambda: len(up.conns) > seen and up.conns[seen].answered, "the request")
                v = up.conns[seen]
                seen += 1
                v.send(x)
                want = M.cat(srv.ref_rx(w, r, 64, srv.blocks(x, 64)), np.int8)
                srv.same_soft(n.read(len(want), "another stream"), want, "another stream")
                v.ended_by_us = True
                v.fin()
                if n.read_some() != b"":
                    raise Violation("another stream: more soft bits than expected")
                n.close()
            up.wait(lambda: u.over, "the end of the connection nobody uses")
            if not u.shutdown:
                raise Violation("the connection nobody uses was not shut down by a message")
            k.close()
            s.idle("after all sessions ended")
    finally:
        up.close()
    return True


@st.composite
def lazies(draw):
    r = draw(srv.rx_request("sdr", 0))
    r["rate"], r["decimation"] = r["baud"] * draw(st.sampled_from([2, 3, 4])), 1
    r["fsk"]["width"] = r["baud"] // 2
    return {"req": r, "B": draw(st.sampled_from([512, 1024, 2048])), "q": draw(st.sampled_from([2, 3, 8])), "fsk": draw(st.integers(0, 1)), "lazy": draw(st.lists(st.sampled_from(["none", "some"]), min_size=1, max_size=2)),
            "first": draw(st.booleans()), "end": draw(st.sampled_from(["close", "reset", "stay", "read"])), "seed": draw(st.integers(0, 10 ** 6)), "sched": draw(st.sampled_from([0, 0, 100])), "extra": draw(st.integers(0, 10)), "again": draw(st.booleans())}


def lazy(run, c):
    """one client does not read what it is sent: who shares the stream with it gets everything in time"""
    w = srv.limited(run.worker())
    B = c["B"]
    r = dict(c["req"], offset=0, dest=proto.SOCKET, dump=False)
    sps = r["rate"] / r["baud"]
    slow = dict(r)
    if c["fsk"]:
        slow["fsk"] = dict(r["fsk"], deviation=r["fsk"]["deviation"] * 2)
    # what fills the sockets and the queue of the lazy client
    n = int(16000 * sps / B) + 2 * c["q"] + c["extra"]
    x = srv.samples("gfsk", n * B, c["seed"], r)
    b = srv.blocks(x, B)
    want = srv.ref_rx(w, r, B, b)
    if want is None or srv.ref_rx(w, slow, B, []) is None:
        return False
    up = Upstream()
    try:
        with srv.Serve(run, {"buffer_size": B, "queue_size": c["q"], "rx_sdr_type": "sdr-server", "rx_sdr_server_address": "127.0.0.1", "rx_sdr_server_port": up.port}, timeout_s=6) as s:
            if c["sched"]:
                s.ctl(sched_seed=c["seed"], sched_max_us=200, sched_prob=c["sched"], eintr=30 * (c["seed"] % 2))

            def reader():
                k = s.connect()
                k.send(proto.message(proto.RX_REQUEST, proto.rx_body(r)))
                srv.accept(k, k.response("the reading client"), "the reading client")
                return k
            k = reader() if c["first"] else None
            lazies = []
            for _ in c["lazy"]:
                s.ctl(sndbuf=1)
                z = s.connect(rcvbuf=2304)
                z.send(proto.message(proto.RX_REQUEST, proto.rx_body(slow)))
                srv.accept(z, z.response("the lazy client"), "the lazy client")
                s.ctl(sndbuf=0)
                lazies.append(z)
            k = k or reader()
            up.wait(lambda: up.conns and up.conns[0].answered, "the request")
            if len(up.conns) != 1:
                raise Violation("%d upstream connections for one stream" % len(up.conns))
            u = up.conns[0]
            got, due = b"", 0
            total = M.cat(want, np.int8)
            for i in range(n):
                if i == 3 * n // 4 and c["end"] != "stay":
                    # the lazy one goes, or catches up with what it missed
                    for z in lazies:
                        if c["end"] == "close":
                            z.close()
                        elif c["end"] == "reset":
                            z.reset()
                        else:
                            z.read_some(1 << 16, timeout=0.01)
                u.send(b[i])
                due += len(want[i])
                if due > len(got):
                    got += k.read(due - len(got), "who shares a stream with a client that does not read (block %d of %d)" % (i, n))
            srv.same_soft(got, total, "who shares a stream with a client that does not read")
            u.ended_by_us = True
            u.fin()
            if k.read_some() != b"":
                raise Violation("more soft bits than samples")
            k.close()
            if c["again"]:
                # nothing will come from the connection the lazy ones still use
                k = reader()
                up.wait(lambda: len(up.conns) > 1 and up.conns[1].answered, "a new connection after the end of the first one")
                u = up.conns[1]
                for i in range(min(3, n)):
                    # one after another: the queue might be short
                    u.send(b[i])
                    srv.same_soft(k.read(len(want[i]), "the stream after the end of the first one"), want[i], "the stream after the end of the first one")
                k.close()
                up.wait(lambda: u.over, "the end of the second connection")
            for z in lazies:
                z.close()
            s.idle("after all sessions ended")
    finally:
        up.close()
    return len(total) > 12000


@st.composite
def endings(draw):
    return {"req": draw(srv.rx_request("sdr", 0)), "n": draw(st.integers(0, 6)), "read": draw(st.booleans()), "wait": draw(st.one_of(st.floats(0, 0.008), st.floats(0, 0.03))),
            "joins": draw(st.lists(st.tuples(st.sampled_from([0, 0, 0.0001, 0.0003, 0.001]), st.integers(0, 1)), min_size=1, max_size=5)), "seed": draw(st.integers(0, 10 ** 6)),
            "sched": draw(st.sampled_from([(0, 0, 0), (500, 500, 0), (500, 3000, LOCKS), (900, 2000, LOCKS), (500, 5000, 16), (1000, 4000, 32), (1000, 4000, 32), (1000, 8000, 32)]))}


def ending(run, c):
    """clients ask for a stream while it ends: refused, ended or served from a new connection, but never left waiting"""
    w = srv.limited(run.worker())
    B = 64
    r = dict(c["req"], offset=0, dest=proto.SOCKET, dump=False)
    other = dict(r, fsk=dict(r["fsk"], deviation=r["fsk"]["deviation"] * 2))
    kinds = [r, other]
    x = srv.samples("gfsk", B * 40, c["seed"], r)
    y = srv.samples("gfsk", B * 30, c["seed"] + 1, r)
    first = srv.ref_rx(w, r, B, srv.blocks(x[:B * c["n"]], B))
    if first is None or srv.ref_rx(w, other, B, []) is None:
        return False
    first = M.cat(first, np.int8)
    later = [M.cat(srv.ref_rx(w, q, B, srv.blocks(y, B)), np.int8) for q in kinds]
    up = Upstream()
    fates = set()
    try:
        with srv.Serve(run, {"buffer_size": B, "queue_size": 256, "rx_sdr_type": "sdr-server", "rx_sdr_server_address": "127.0.0.1", "rx_sdr_server_port": up.port}, timeout_s=6) as s:
            k = s.connect()
            k.send(proto.message(proto.RX_REQUEST, proto.rx_body(r)))
            srv.accept(k, k.response("the first client"), "the first client")
            up.wait(lambda: up.conns and up.conns[0].answered, "the request")
            u = up.conns[0]
            if c["n"]:
                u.send(x[:B * c["n"]])
            got = k.read(len(first), "the first client") if c["read"] else b""
            s.quiet(hold=0.01)
            s.ctl(sched_seed=c["seed"], sched_prob=c["sched"][0], sched_max_us=c["sched"][1], sched_kinds=c["sched"][2])

            def finish():
                time.sleep(c["wait"])
                u.ended_by_us = True
                u.fin()
            t = threading.Thread(target=finish)
            t.start()
            new = []
            for pause, q in c["joins"]:
                time.sleep(pause)
                j = s.connect()
                j.send(proto.message(proto.RX_REQUEST, proto.rx_body(kinds[q])))
                a = j.response("a client which joins a stream that ends")
                if a == (proto.FAILURE, proto.INTERNAL):
                    fates.add("refused")
                    j.ended("a refused request")
                    j.close()
                    continue
                if a[0]:
                    raise Violation("a client which joined a stream that ends was answered with %s" % (a,))
                srv.accept(j, a, "a client which joins a stream that ends")
                new.append((j, q))
            t.join()
            s.ctl(sched_seed=0, sched_prob=0, sched_kinds=0)

            def rest(j, what):
                b, j.buf = j.buf, b""
                while True:
                    d = j.read_some()
                    if d is None:
                        s.check_alive()
                        raise Violation("the stream ended but the session of %s did not\n%s" % (what, s.stacks()))
                    if not d:
                        j.close()
                        return b
                    b += d
            got += rest(k, "the first client")
            srv.same_soft(got, first, "the first client")
            up.wait(lambda: u.over, "the end of the connection")
            s.quiet(hold=0.01)
            if len(up.conns) > 2:
                raise Violation("%d connections for one stream" % (len(up.conns) - 1))
            served = 0
            for v in up.conns[1:]:
                up.wait(lambda: v.answered, "the request")
                v.send(y)
                v.ended_by_us = True
                v.fin()
            for j, q in new:
                b = rest(j, "a client which joined while it ended")
                if b:
                    fates.add("served")
                    served += 1
                    srv.same_soft(b, later[q], "who joined while the stream ended")
                else:
                    fates.add("ended")
            if len(up.conns) > 1 and not served and len(later[0]) and len(later[1]):
                raise Violation("nobody got what the new connection delivered")
            s.idle("after all sessions ended")
    finally:
        up.close()
    return "+".join(sorted(fates))


@st.composite
def larges(draw):
    r = draw(srv.rx_request("sdr", 0))
    r["rate"], r["decimation"], r["offset"] = r["baud"] * draw(st.sampled_from([4, 5, 10])), draw(st.sampled_from([1, 2])), draw(st.sampled_from([0, 500]))
    r["fsk"]["width"] = r["baud"]
    B = draw(st.one_of(st.integers(65530, 65545), st.integers(66000, 140000)))
    return {"req": r, "B": B, "blocks": draw(st.integers(1, 3)), "rest": draw(st.sampled_from([0, 0, 1, 1000])), "step": draw(st.sampled_from([0, 4096, 50000, 100001])), "seed": draw(st.integers(0, 10 ** 6)),
            "io": draw(st.sampled_from([0, 0, 70000]))}


def large(run, c):
    """buffers of the size a real configuration has: more than 65536 samples"""
    w = srv.limited(run.worker())
    B, r = c["B"], c["req"]
    n = B * c["blocks"] + c["rest"]
    x = srv.samples("gfsk", n, c["seed"], r)
    b = srv.blocks(x, B)
    want = srv.ref_rx(w, r, B, b)
    if want is None:
        return False
    total = M.cat(want, np.int8)
    up = Upstream()
    try:
        with srv.Serve(run, {"buffer_size": B, "queue_size": 4, "rx_sdr_type": "sdr-server", "rx_sdr_server_address": "127.0.0.1", "rx_sdr_server_port": up.port}, timeout_s=6) as s:
            s.ctl(io_max=c["io"])
            k = s.connect()
            k.send(proto.message(proto.RX_REQUEST, proto.rx_body(r)))
            srv.accept(k, k.response("request"), "request")
            up.wait(lambda: up.conns and up.conns[0].answered, "the request")
            u = up.conns[0]
            d = x.tobytes()
            for i in range(0, len(d), c["step"] or len(d)):
                u.send(d[i:i + (c["step"] or len(d))])
            u.ended_by_us = True
            u.fin()
            got = b""
            while True:
                y = k.read_some()
                if y is None:
                    s.check_alive()
                    raise Violation("the upstream ended but the session did not\n" + s.stacks())
                if not y:
                    break
                got += y
            k.close()
            i = k.id
            s.ctl(io_max=0)
            s.idle("after the session")
            if r["dest"] != proto.FILE:
                srv.same_soft(got, total, "soft bits of large blocks")
            elif got:
                raise Violation("%d bytes on the socket of a client which asked for a file" % len(got))
            if r["dest"] != proto.SOCKET:
                srv.same_soft(s.data("demod", i), total, "soft bits of large blocks (file)")
            if r["dump"]:
                srv.same_samples(s.data("rx", i), x, "dump of large blocks")
    finally:
        up.close()
    return len(total) > 1000


@st.composite
def pieces(draw):
    r = draw(srv.rx_request("sdr", 0))
    r["rate"], r["decimation"], r["offset"] = r["baud"] * draw(st.sampled_from([4, 5, 10])), draw(st.sampled_from([1, 2])), draw(st.sampled_from([0, 500]))
    r["fsk"]["width"] = r["baud"]
    r["dump"] = True
    return {"req": r, "B": draw(st.sampled_from([16, 64, 100, 1024])), "n": draw(st.integers(200, 3000)), "tail": draw(st.integers(0, 7)), "seed": draw(st.integers(0, 10 ** 6)),
            # the length of each piece in bytes and whether a pause longer than the timeout follows
            "cuts": draw(st.lists(st.tuples(st.one_of(st.integers(1, 20), st.integers(1, 4000)), st.booleans()), min_size=1, max_size=6)),
            "second": draw(st.integers(0, 6))}


def pieced(run, c):
    """a stream which stops for longer than the read timeout, also within a sample"""
    w = srv.limited(run.worker())
    B, r = c["B"], c["req"]
    x = srv.samples("gfsk", c["n"], c["seed"], r)
    rng = np.random.default_rng(c["seed"])
    x = (x + 1e-3 * (rng.standard_normal(len(x)) + 1j * rng.standard_normal(len(x)))).astype(np.complex64)
    want = srv.ref_rx(w, r, B, srv.blocks(x, B))
    if want is None:
        return False
    total = M.cat(want, np.int8)
    up = Upstream()
    inside = 0
    try:
        with srv.Serve(run, {"buffer_size": B, "queue_size": 400, "rx_sdr_type": "sdr-server", "rx_sdr_server_address": "127.0.0.1", "rx_sdr_server_port": up.port}, timeout_s=6) as s:
            def join(what):
                k = s.connect()
                k.send(proto.message(proto.RX_REQUEST, proto.rx_body(r)))
                srv.accept(k, k.response(what), what)
                return k

            # only the timeout of the connection to the upstream and of the first client
            s.ctl(rcvtimeo_us=120000 // 6)
            ks = [(join("request"), 0, 0)]
            up.wait(lambda: up.conns and up.conns[0].answered, "the request")
            s.ctl(rcvtimeo_us=0)
            u = up.conns[0]
            d = x.tobytes() + b"\x3f" * c["tail"]
            at = 0
            for i, (n, wait) in enumerate(c["cuts"] + [[len(d), False]]):
                if i == c["second"] and i:
                    ks.append((join("a second request"), 0, at // 8))
                n = min(n, len(d) - at)
                u.send(d[at:at + n])
                at += n
                if wait and at < len(d):
                    time.sleep(0.2)
                    inside += at % 8 != 0
            u.ended_by_us = True
            u.fin()
            for j, (k, lo, hi) in enumerate(ks):
                got = b""
                while True:
                    y = k.read_some()
                    if y is None:
                        s.check_alive()
                        raise Violation("the upstream ended but the session did not\n" + s.stacks())
                    if not y:
                        break
                    got += y
                k.close()
                s.idle_of(k)
                t = s.data("rx", k.id)
                e = len(x) - len(t)
                if not lo <= e <= hi:
                    raise Violation("client %d: %d samples were stored of %d, although it joined between %d and %d" % (k.id, len(t), len(x), lo, hi))
                srv.same_samples(t, x[e:], "stored samples of a stream in pieces", 0)
                if e == 0 and j == 0:
                    for kind in [0] * (r["dest"] != proto.FILE) + [1] * (r["dest"] != proto.SOCKET):
                        y = s.data("demod", k.id) if kind else np.frombuffer(got, np.int8)
                        m = min(len(y), len(total))
                        if len(y) < len(total) - 2 or len(y) > len(total) + 2:
                            raise Violation("%d soft bits instead of %d of a stream in pieces" % (len(y), len(total)))
                        srv.same_soft(y[:m], total[:m], "soft bits of a stream in pieces")
            s.idle("after the session")
    finally:
        up.close()
    return inside > 0


def main():
    return run_check(PID, [
        Sub("history", histories(), history, 400, 6000, shards=6, tshards=8, qtime=90, ttime=900),
        Sub("stubborn", stubborns(), stubborn, 40, 500, shards=2, tshards=4, qtime=60, ttime=300),
        Sub("large", larges(), large, 12, 300, qtime=60, ttime=300),
        Sub("pieces", pieces(), pieced, 40, 1500, shards=2, tshards=4, qtime=60, ttime=400),
        Sub("ending", endings(), ending, 200, 4000, shards=3, tshards=4, qtime=40, ttime=400, confirm=60),
        Sub("lazy", lazies(), lazy, 60, 1500, shards=2, tshards=4, qtime=60, ttime=400),
    ], RULE, assumptions=["queues are long enough and clients read fast enough that no block has to be discarded (C12 covers full queues)",
                          "the upstream stops sending and closes when it is asked to shut down"])
