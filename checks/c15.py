"""C15: no client can harm the server or another client."""
import errno
import os
import random
import resource
import socket
import time

import numpy as np
from hypothesis import strategies as st

from checks import c14, srv
from vlib import models as M
from vlib import orbit, proto
from vlib.core import Sub, Violation, run_check
from vlib.server import LONG, Upstream

PID = "C15"
RULE = ("a case is a server, none to two well-behaved sessions, and a history of hostile connections: random bytes, requests with altered fields or bytes, lengths which lie, "
        "accepted sessions which go on with nonsense, sudden ends, crowds; non-trivial when at least one request was refused and the well-behaved sessions, if any, were compared")
SMALL = 4 << 20
JUNK = st.binary(max_size=80).map(bytes.hex)
TYPES = [0, 1, 2, 3, 4, 5, 6, 128, 255]
LENGTHS = [0, 1, 5, 40, 4096, proto.MAX_BODY, proto.MAX_BODY + 1, 1 << 16, 1 << 31, (1 << 32) - 1]
ENDS = ["close", "close", "reset", "half", "shut", "leave"]


@st.composite
def digits(draw):
    """a genuine element set with absurd values"""
    t = list(srv.ISS)
    for i in (1, 2):
        l = list(t[i])
        for _ in range(draw(st.integers(0, 6))):
            k = draw(st.integers(2 if i == 2 else 18, 67))
            if l[k].isdigit() and k > 6:
                l[k] = draw(st.sampled_from("0123456789"))
        if i == 2:
            f = draw(st.sampled_from(["", "", "ecc9", "ecc0", "mm0", "mm99", "incl999"]))
            for name, a, b, v in (("ecc9", 26, 33, "9999999"), ("ecc0", 26, 33, "0000000"), ("mm0", 52, 63, "00.00000000"), ("mm99", 52, 63, "99.99999999"), ("incl999", 8, 16, "999.9999")):
                if f == name:
                    l[a:b] = v
        s = "".join(l)[:68]
        t[i] = s + str(orbit.checksum(s))
    return t


@st.composite
def request(draw, conf, tx):
    if tx:
        r = draw(srv.tx_request(low=520834 if conf["tx"] == "plutosdr" else 0, dopp=0.3, name=draw(st.sampled_from(["evil.out", "evil2.out", "/dev/full", "/dev/null", "base", "", "no/where", "y" * 300]))))
    else:
        r = draw(srv.rx_request(conf["rx"], low=520834 if conf["rx"] == "plutosdr" else 0, dopp=0.3))
        if r.get("file"):
            r["file"]["filename"] = draw(st.sampled_from(["evil.in", "evil.in", "evil.in", "victim.in", "/dev/null", "base", "", "no/where", "y" * 300]))
    plain = draw(st.integers(0, 2)) == 0
    if not plain:
        keep = dict(r.get("file") or {})
        r = draw(c14.mutate(r, tx))
        if r.get("file") and r["file"].get("filename") in ("in.cf32", "out.cf32", "ok.cf32", "."):
            r["file"]["filename"] = keep.get("filename", "evil.in")
        if r.get("file") and r["file"].get("filename") == "victim.in":
            r["file"]["filename"] = "evil.in"
        if r.get("doppler") and draw(st.booleans()):
            r["doppler"]["tle"] = draw(digits())
        if r.get("doppler") and draw(st.integers(0, 2)) == 0:
            # lines which are longer, or shorter, than a line may be
            t = [l.ljust(69) for l in draw(digits())]
            for i in range(3):
                n = draw(st.sampled_from([0, 10, 68, 69, 79, 80, 81, 120, 300, 2000, 9000]))
                t[i] = (t[i] + "7" * n)[:n] if n else t[i]
            r["doppler"]["tle"] = t
        if r.get("file") and draw(st.integers(0, 11)) == 0:
            r["file"]["filename"] = "z" * draw(st.sampled_from([254, 255, 256, 4000, 4095, 4096, 5000, 20000]))
    return r, plain


@st.composite
def hostile(draw, conf):
    k = draw(st.sampled_from(["req"] * 6 + ["raw", "raw", "head", "crowd", "ping", "aborted"]))
    end = draw(st.sampled_from(ENDS))
    if k == "raw":
        return {"k": k, "hex": draw(JUNK), "end": end, "n": draw(st.sampled_from([1, 1, 1, 100, 1000]))}
    if k == "head":
        return {"k": k, "version": draw(st.sampled_from([0, 0, 0, 1, 255])), "type": draw(st.sampled_from(TYPES)), "length": draw(st.sampled_from(LENGTHS)), "hex": draw(JUNK), "end": end}
    if k == "crowd":
        return {"k": k, "n": draw(st.sampled_from([2, 3, 20, 40])), "hex": draw(st.sampled_from(["", "00", "0003", "000300000000", "00000000ffff"])), "end": draw(st.sampled_from(["close", "reset", "half"]))}
    if k == "aborted":
        e = draw(st.sampled_from(["ECONNABORTED"] * 4 + ["EINTR"] * 4 + ["EMFILE"]))
        return {"k": k, "err": e, "n": 1 if e == "EMFILE" else draw(st.integers(1, 5))}
    if k == "ping":
        return {"k": k, "n": draw(st.sampled_from([1, 3, 10])), "end": end}
    tx = draw(st.booleans())
    r, plain = draw(request(conf, tx))
    o = {"k": k, "tx": tx, "req": r, "end": end, "muts": [], "len": 0, "after": [], "cuts": draw(st.lists(st.integers(1, 200), max_size=3)), "plain": plain}
    if draw(st.integers(0, 3)) == 0:
        o["muts"] = draw(st.lists(st.tuples(st.sampled_from(["flip", "set", "del", "ins", "dup", "cut"]), st.floats(0, 1), st.integers(0, 255)), min_size=1, max_size=4))
        o["plain"] = False
    if draw(st.integers(0, 7)) == 0:
        o["len"] = draw(st.sampled_from([-1, -5, 1, 7, 1000, 32000, 1 << 20]))
    if draw(st.integers(0, 1)):
        o["after"] = draw(st.lists(after(), min_size=1, max_size=5))
    return o


@st.composite
def after(draw):
    k = draw(st.sampled_from(["data", "data", "rawdata", "head", "junk", "part", "wait"]))
    if k == "data":
        return [k, draw(st.sampled_from([0, 1, 10, 100, 5000, 32000]))]
    if k == "rawdata":
        return [k, draw(JUNK)]
    if k == "head":
        return [k, draw(st.sampled_from([0, 0, 0, 1, 255])), draw(st.sampled_from(TYPES)), draw(st.sampled_from(LENGTHS)), draw(JUNK)]
    if k == "junk":
        return [k, draw(JUNK)]
    if k == "part":
        return [k, draw(st.integers(1, 200))]
    return [k, draw(st.sampled_from([0.0, 0.002, 0.02]))]


@st.composite
def scenes(draw, few=False):
    conf = {"rx": draw(st.sampled_from(["file", "file", "sdr-server", "plutosdr"])), "tx": draw(st.sampled_from(["file", "file", "plutosdr", "none"])), "B": draw(st.sampled_from([16, 64])),
            "q": draw(st.sampled_from([2, 64]))}
    if conf["rx"] == "sdr-server":
        conf["q"] = 64
    who = draw(st.sampled_from(["rx", "tx", "both", "both", "none"]))
    c = {"conf": conf, "ops": draw(st.lists(hostile(conf), min_size=1, max_size=6 if few else 14)), "seed": draw(st.integers(0, 2 ** 31)), "sched": draw(st.sampled_from([None, None, [100, 300]])),
         "io": draw(st.sampled_from([0, 0, 1, 7]))}
    if who in ("rx", "both") and conf["rx"] != "plutosdr":
        r = draw(srv.rx_request(conf["rx"], dopp=0.2))
        r["dest"] = draw(st.sampled_from([1, 2]))
        if r.get("file"):
            r["file"]["filename"] = "victim.in"
        c["rx"] = {"req": r, "n": draw(st.integers(1500, 6000)), "small": draw(st.booleans())}
    if who in ("tx", "both") and conf["tx"] != "none":
        c["tx"] = {"req": draw(srv.tx_request(low=520834 if conf["tx"] == "plutosdr" else 0, dopp=0.2, name="victim.out")), "n": draw(st.sampled_from([1, 10, 2 * conf["B"] + 1]))}
    if few:
        c["spare"] = draw(st.integers(0, 8))
    return c


def altered(body, muts):
    b = bytearray(body)
    for kind, where, v in muts:
        i = min(len(b) - 1, int(where * len(b))) if b else 0
        if kind == "ins":
            b.insert(i, v)
        elif kind == "dup":
            b[i:i] = b[i:i + v]
        elif kind == "cut":
            del b[i:]
        elif b:
            if kind == "flip":
                b[i] ^= 1 << (v & 7)
            elif kind == "set":
                b[i] = v
            else:
                del b[i]
    return bytes(b[:60000])


class Victims:
    def __init__(self, run, s, c, up):
        self.w, self.s, self.c, self.up = run.worker(iio=True), s, c, up
        self.rx = self.tx = None
        self.B = c["conf"]["B"]
        self.g = random.Random(c["seed"])
        if "tx" in c:
            q = c["tx"]["req"]
            k = s.connect()
            k.send(proto.message(proto.TX_REQUEST, proto.tx_body(q)))
            srv.accept(k, k.response("well-behaved transmitter"), "well-behaved transmitter")
            self.tx, self.datas = k, []
        if "rx" in c:
            q = c["rx"]["req"]
            self.x = srv.samples("gfsk", c["rx"]["n"], c["seed"] % 1000, q)
            blocks = srv.blocks(self.x, self.B)
            if up is None:
                srv.write_in(s, self.x, "victim.in")
                blocks = srv.shifted(self.w, blocks, q["rate"], q["offset"], self.B)
            self.blocks = blocks
            self.want = srv.ref_rx(self.w, q, self.B, blocks) if blocks is not None else None
            if self.want is None:
                return
            if c["rx"]["small"]:
                s.ctl(sndbuf=1)
            k = s.connect(rcvbuf=2304 if c["rx"]["small"] else None)
            k.send(proto.message(proto.RX_REQUEST, proto.rx_body(q)))
            srv.accept(k, k.response("well-behaved receiver"), "well-behaved receiver")
            s.ctl(sndbuf=0)
            self.rx, self.got = k, b""
            self.sent = 0
            if up is not None:
                up.wait(lambda: up.conns and up.conns[0].answered, "the well-behaved request")
                self.u = up.conns[0]

    def step(self):
        if self.tx is not None:
            k = self.tx
            d = self.g.randbytes(self.g.randint(0, self.c["tx"]["n"]))
            if sum(len(x) for x in self.datas) * 8 * self.c["tx"]["req"]["rate"] / self.c["tx"]["req"]["baud"] < 60000:
                k.send(proto.message(proto.TX_DATA, proto.tx_data_body(d)))
                a = k.response("the well-behaved transmitter")
                if a != (proto.SUCCESS, 0):
                    raise Violation("data of the well-behaved transmitter is answered with %s" % (a,))
                self.datas.append(d)
        if self.rx is not None:
            if self.up is not None:
                n = self.g.randint(1, 4)
                for b in self.blocks[self.sent:self.sent + n]:
                    if not self.u.send(b):
                        raise Violation("the upstream connection of the well-behaved receiver was closed")
                self.sent = min(len(self.blocks), self.sent + n)
                least = sum(len(v) for v in self.want[:self.sent]) - 2
                if least > len(self.got):
                    self.got += self.rx.read(least - len(self.got), "the well-behaved receiver")
            else:
                total = sum(len(v) for v in self.want)
                n = min(self.g.randint(0, 300), total - len(self.got))
                if n > 0:
                    self.got += self.rx.read(n, "the well-behaved receiver")

    def finish(self):
        s = self.s
        if self.rx is not None:
            if self.up is not None:
                while self.sent < len(self.blocks):
                    self.step()
            total = sum(len(v) for v in self.want)
            least = total - (2 if self.up else 0)
            if least > len(self.got):
                self.got += self.rx.read(least - len(self.got), "the well-behaved receiver")
            self.got += srv.finish(self.rx, "the well-behaved receiver")
            s.ping()
            want = M.cat(self.want, np.int8)
            q = self.c["rx"]["req"]
            if self.up is not None:
                want = want[:len(self.got)] if least <= len(self.got) else want
            srv.same_soft(self.got, want, "the well-behaved receiver")
            if q["dest"] == proto.BOTH:
                f = s.data("demod", self.rx.id)
                srv.same_soft(f, M.cat(self.want, np.int8)[:max(len(f), least)], "the well-behaved receiver's file")
            if q["dump"]:
                d, x = s.data("rx", self.rx.id), M.cat(self.blocks, np.complex64)
                # the client knows of the last symbols only that they were sent
                if up_slack(self.up, q, self.B) >= len(x) - len(d):
                    x = x[:len(d)]
                srv.same_samples(d, x, "the well-behaved receiver's dump")
        if self.tx is not None:
            srv.finish(self.tx, "the well-behaved transmitter")
            s.ping()
            q = self.c["tx"]["req"]
            y = M.cat([M.cat(v, np.complex64) for v in srv.ref_tx(self.w, q, self.B, self.datas)], np.complex64)
            if not np.isfinite(y).all():
                return
            if self.c["conf"]["tx"] == "file":
                with open(os.path.join(s.dir, "victim.out"), "rb") as f:
                    srv.same_samples(np.frombuffer(f.read(), np.complex64), y, "the well-behaved transmitter")
            if q["dump"]:
                srv.same_samples(s.data("tx", self.tx.id), y, "the well-behaved transmitter's dump")


def up_slack(up, q, B):
    return 3 * q["rate"] // q["baud"] + B if up else 0


def pieces(o):
    """the bytes of a hostile connection's first message"""
    if o["k"] == "raw":
        return bytes.fromhex(o["hex"]) * o["n"]
    if o["k"] == "head":
        return proto.message(o["type"], bytes.fromhex(o["hex"]), version=o["version"], length=o["length"])
    body = altered((proto.tx_body if o["tx"] else proto.rx_body)(o["req"]), o["muts"])
    return proto.message(proto.TX_REQUEST if o["tx"] else proto.RX_REQUEST, body, length=max(0, len(body) + o["len"]))


def end_it(s, k, how, what, left):
    if how == "leave":
        left.append(k)
        return
    if how == "shut":
        k.shut()
        how = "half"
    if how == "half":
        try:
            k.s.shutdown(socket.SHUT_WR)
        except OSError:
            pass
        end = time.time() + LONG
        while True:
            b = k.read_some()
            if b is None or time.time() > end:
                s.check_alive(what)
                raise Violation("%s: the connection stays open\n%s" % (what, s.stacks()))
            if not b:
                break
    if how == "reset":
        k.reset()
    else:
        k.close()


def attack(s, o, c, left, patient=True):
    """one hostile connection; what became of it"""
    what = "%s" % {x: (v if len(str(v)) < 200 else str(v)[:200]) for x, v in o.items()}
    if o["k"] == "crowd":
        # the server takes a few connections in advance; the network delays others for seconds
        for i in range(0, o["n"] if patient else 5, 3):
            ks = [s.connect() for _ in range(min(3, o["n"] - i))]
            for k in ks:
                if o["hex"]:
                    k.send(bytes.fromhex(o["hex"]))
            if o["end"] == "half":
                for k in ks:
                    try:
                        k.s.shutdown(socket.SHUT_WR)
                    except OSError:
                        pass
            for k in ks:
                end_it(s, k, o["end"] if patient else "close", what, left)
        return "crowd"
    if o["k"] == "aborted":
        # connections which are gone before they are accepted
        s.ctl(accept_err=getattr(errno, o["err"]), accept_errs=o["n"])
        if patient:
            s.ping()
            s.ping()
        return "aborted"
    if o["k"] == "ping":
        for _ in range(o["n"]):
            k = s.connect()
            k.send(proto.message(proto.PING))
            end_it(s, k, o["end"] if patient else "close", what, left)
        return "ping"
    k = s.connect()
    data = pieces(o)
    k.send(data, cuts=o.get("cuts"))
    if o["k"] != "req" or o["len"] > 0:
        if o["end"] in ("close", "reset") or not patient:
            end_it(s, k, o["end"] if patient else "close", what, left)
            return "gone"
    if not patient:
        r, _, _ = __import__("select").select([k.s], [], [], 0.4)
        if not r:
            end_it(s, k, "close", what, left)
            return "ignored"
    try:
        a = k.maybe_response(what)
    except Violation as e:
        # more was sent than the server reads: the network may drop the rest of the answer
        if "the connection was closed after" in str(e) and (o["k"] != "req" or o["len"] or o["muts"] or len(data) > proto.MAX_BODY):
            a = None
        else:
            raise
    if a is None:
        k.close()
        return "closed"
    if a[0] not in (proto.SUCCESS, proto.FAILURE) or (a[0] == proto.FAILURE and a[1] not in (proto.INVALID, proto.INTERNAL, proto.TX_USED, proto.RX_USED)):
        raise Violation("%s: answered with %s" % (what, a))
    if a[0] == proto.FAILURE:
        b = k.read_some()
        if b is None or b:
            s.check_alive(what)
            raise Violation("%s: %s after a refusal" % (what, "the connection stays open" if b is None else "%d bytes" % len(b)))
        k.close()
        return "refused"
    if o["k"] != "req":
        end_it(s, k, o["end"], what, left)
        return "ping"
    # an accepted session goes on with nonsense
    per = 1
    if o["tx"] and o["plain"]:
        per = max(1, 8 * o["req"]["rate"] // o["req"]["baud"])
    for m in o["after"]:
        if m[0] == "data":
            n = min(m[1], 40000 // per) if o["plain"] or not o["tx"] else min(m[1], c["conf"]["B"])
            d = proto.message(proto.TX_DATA, proto.tx_data_body(b"\xa5" * n))
        elif m[0] == "rawdata":
            d = proto.message(proto.TX_DATA, bytes.fromhex(m[1]))
        elif m[0] == "head":
            d = proto.message(m[2], bytes.fromhex(m[4]), version=m[1], length=m[3])
        elif m[0] == "junk":
            d = bytes.fromhex(m[1])
        elif m[0] == "part":
            d = proto.message(proto.TX_DATA, proto.tx_data_body(b"\xa5" * 300))[:m[1]]
        else:
            time.sleep(m[1])
            continue
        # nothing is read meanwhile: the server may be unable to answer, which is the client's own problem
        k.s.settimeout(0.5)
        try:
            k.s.sendall(d)
        except (socket.timeout, OSError):
            break
    end_it(s, k, "close" if o["end"] == "half" and o["after"] else o["end"] if o["end"] != "shut" or not o["after"] else "close", what, left)
    return "accepted"


def config(c):
    f = c["conf"]
    sc = {"buffer_size": f["B"], "queue_size": f["q"], "rx_sdr_type": f["rx"], "tx_sdr_type": f["tx"]}
    if "plutosdr" in (f["rx"], f["tx"]):
        sc.update(rx_plutosdr_gain=20.0, tx_plutosdr_gain=-10.0, tx_plutosdr_timeout_millis=100)
    return sc


def scene(run, c, patient=True):
    srv.limited(run.worker(iio=True))
    sc = config(c)
    up = Upstream() if c["conf"]["rx"] == "sdr-server" else None
    if up:
        sc.update(rx_sdr_server_address="127.0.0.1", rx_sdr_server_port=up.port)
    did = {}
    try:
        S = srv.Serve(run, sc, iio=True, rx_data=np.zeros((3000, 2), np.int16), timeout_us=400000 if up else 150000)
        S.s.env["HARN_JAIL"] = S.s.dir
        with S as s:
            s.ctl(alloc_max=SMALL)
            s.ictl(rx_end_mode=1)
            srv.write_in(s, np.zeros(20, np.complex64), "evil.in")
            srv.write_in(s, np.zeros(20, np.complex64), "victim.in")
            if c["sched"]:
                s.ctl(sched_seed=c["seed"], sched_max_us=c["sched"][1], sched_prob=c["sched"][0])
            s.ctl(io_max=c["io"])
            v = Victims(run, s, c, up)
            v.step()
            left = []
            lim = None
            if not patient:
                lim = resource.prlimit(s.p.pid, resource.RLIMIT_NOFILE)
                s.connect_timeout = 0.3
                resource.prlimit(s.p.pid, resource.RLIMIT_NOFILE, (len(os.listdir("/proc/%d/fd" % s.p.pid)) + c["spare"], lim[1]))
            for o in c["ops"]:
                try:
                    r = attack(s, o, c, left, patient)
                except Violation as e:
                    if patient or "cannot connect: timed out" not in str(e):
                        raise
                    r = "ignored"
                did[r] = did.get(r, 0) + 1
                s.check_alive(str(o)[:300])
                v.step()
                if not patient and len(left) > 3:
                    left.pop(0).close()
            for i, k in enumerate(left):
                k.reset() if i % 2 else k.close()
            if lim:
                resource.prlimit(s.p.pid, resource.RLIMIT_NOFILE, lim)
                s.connect_timeout = LONG
            s.ping()
            v.step()
            v.finish()
            s.idle("after all connections ended")
            # and somebody new is served
            again(run, s, c)
    finally:
        if up:
            up.close()
    label = "+".join(n for n in ("rx", "tx") if n in c) or "nobody"
    return label if patient and (did.get("refused") or did.get("accepted")) or not patient and did.get("accepted", 0) + did.get("refused", 0) else None


def again(run, s, c):
    r = {"rate": 600000, "baud": 100000, "center": 437525000, "dump": False, "type": proto.GMSK, "offset": 0, "decimation": 1, "dest": 1, "fsk": {"deviation": 50000, "width": 20000, "dc": False},
         "file": {"filename": "evil.in", "start": 1600000000}}
    k = s.connect()
    k.send(proto.message(proto.RX_REQUEST, proto.rx_body(r)))
    a = k.response("a new receiver")
    if a[0] != proto.SUCCESS:
        raise Violation("a new receiver is answered with %s" % (a,))
    srv.finish(k, "the new receiver")
    if c["conf"]["tx"] != "none":
        r = {"rate": 600000, "baud": 200000, "center": 437525000, "dump": False, "type": proto.GMSK, "offset": 0, "fsk": {"deviation": 50000}, "file": {"filename": "again.out", "start": 1600000000}}
        k = s.connect()
        k.send(proto.message(proto.TX_REQUEST, proto.tx_body(r)))
        a = k.response("a new transmitter")
        if a[0] != proto.SUCCESS:
            raise Violation("a new transmitter is answered with %s" % (a,))
        k.send(proto.message(proto.TX_DATA, proto.tx_data_body(b"abcd")))
        a = k.response("its data")
        if a != (proto.SUCCESS, 0):
            raise Violation("a new transmitter's data is answered with %s" % (a,))
        srv.finish(k, "the new transmitter")


def crowded(run, c):
    return scene(run, c, patient=False)


def main():
    return run_check(PID, [
        Sub("hostile", scenes(), scene, 420, 20000, shards=6, tshards=7, qtime=60, ttime=1200),
        Sub("descriptors", scenes(few=True), crowded, 40, 1500, shards=2, tshards=3, qtime=50, ttime=600),
    ], RULE, assumptions=["files a client names are opened only below the scratch directory, /dev/null and /dev/full: any other path fails as if not permitted",
                          "requests which need more than about 4 MB in one piece are answered as by a machine which does not have it",
                          "a client which sends nothing may keep the next one waiting for the configured timeout"])
