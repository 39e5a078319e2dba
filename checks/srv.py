"""What the checks of the running server share: generated requests, the reference sample paths, the expected answers."""
import os

import numpy as np
from hypothesis import strategies as st

from checks import gen
from checks.c10 import elements
from vlib import models as M
from vlib import orbit, proto
from vlib.core import Skip, Violation
from vlib.server import Server

LIMIT = 16 << 20    # allocations above this fail in the servers under test: requests cannot take the memory of the sandbox
U32 = 1 << 32
ISS = ["ISS (ZARYA)", "1 25544U 98067A   20291.51542368  .00001332  00000-0  32012-4 0  9999", "2 25544  51.6442 118.9966 0001457  33.6331  96.6302 15.49312716250776"]


@st.composite
def doppler(draw, start=None):
    """an orbit, a station and a start near its epoch"""
    kind = draw(st.sampled_from(["iss", "iss", "gen"]))
    if kind == "iss":
        lines, epoch = ISS, 1602850000
    else:
        t = draw(elements(("leo", "ell", "gps")))
        t["yy"] = 20
        lines = orbit.make_tle(t)
        epoch = 1577836800 + int(draw(st.integers(0, 364))) * 86400
    return ({"tle": [l if isinstance(l, str) else l.decode("latin-1") for l in lines], "lat": draw(st.integers(0, 900000000)), "lon": draw(st.integers(0, 1800000000)), "alt": draw(st.integers(0, 50000))},
            epoch + draw(st.integers(-200000, 200000)))


@st.composite
def radio(draw, low=0):
    """(rate, baud, decimation, deviation, width, dc) of a demodulator which is quick to set up"""
    baud = draw(st.sampled_from([1200, 2400, 4800, 9600]))
    if low:
        decim = draw(st.sampled_from([20, 50, 100]))
        sps = draw(st.sampled_from([2, 4, 5, 10]))
        baud = max(baud, -(-low // (decim * sps)))
    else:
        decim = draw(st.sampled_from([1, 1, 2, 3, 5]))
        sps = draw(st.sampled_from([2, 3, 4, 5, 8, 10]))
    rate = baud * decim * sps
    return {"rate": rate, "baud": baud, "decimation": decim, "fsk": {"deviation": draw(st.sampled_from([baud // 4, baud // 2, baud, -baud // 2])), "width": max(rate // 400, int(baud * draw(st.sampled_from([0.3, 1.0])))),
            "dc": draw(st.booleans())}}


@st.composite
def rx_request(draw, source="file", dopp=0.3, low=0):
    r = draw(radio(low))
    r.update(center=draw(st.sampled_from([437525000, 145900000, 2 ** 31 + 5, 435000000])), dump=draw(st.booleans()), type=proto.GMSK, dest=draw(st.sampled_from([0, 1, 1, 2, 2])))
    r["offset"] = draw(st.one_of(st.just(0), st.integers(-r["rate"] // 2, r["rate"] // 2), st.sampled_from([r["baud"], -3 * r["rate"]])))
    if source == "file" or draw(st.booleans()):
        r["file"] = {"filename": "in.cf32", "start": draw(st.integers(1500000000, 1700000000))}
    if draw(st.floats(0, 1, exclude_max=True)) < dopp:
        d, start = draw(doppler())
        r["doppler"] = d
        r["file"] = {"filename": "in.cf32", "start": start}
    return r


@st.composite
def tx_request(draw, dopp=0.3, low=0, name="out.cf32"):
    baud = draw(st.sampled_from([1200, 4800, 9600, 19200]))
    sps = draw(st.sampled_from([2, 3, 4, 5, 10, 20, 2.5, 1]))
    if low:
        baud = max(baud, -(-low // int(max(sps, 2))))
        sps = max(sps, 2)
    rate = int(baud * sps)
    r = {"rate": rate, "baud": baud, "center": draw(st.sampled_from([437525000, 145900000])), "dump": draw(st.booleans()), "type": proto.GMSK,
         "fsk": {"deviation": draw(st.sampled_from([baud // 4, baud // 2, baud, -baud // 2, 0]))}}
    r["offset"] = draw(st.one_of(st.just(0), st.integers(-rate // 2, rate // 2), st.sampled_from([1000, -3 * rate])))
    r["file"] = {"filename": name, "start": draw(st.integers(1500000000, 1700000000))}
    if draw(st.floats(0, 1, exclude_max=True)) < dopp:
        d, start = draw(doppler())
        r["doppler"] = d
        r["file"]["start"] = start
    return r


def s64(v):
    v &= (1 << 64) - 1
    return v - (1 << 64) if v >> 63 else v


def blocks(x, n):
    return [x[i:i + n] for i in range(0, len(x), n)]


def ok(r, what):
    if r["code"] == 0 and r.get("leak"):
        raise Violation("%s: %d allocations left" % (what, r["leak"]))
    return r["code"] == 0


def shifted(w, x, rate, offset, B):
    """what a file device with an offset gives, block by block"""
    if offset == 0:
        return x
    r = w.sig(1.0, rate, B, [(offset, b) for b in x])
    if r["code"] != 0:
        return None
    return r["out"]


def start_of(req):
    return s64(req["file"]["start"]) if req.get("file") else 0


def dop(w, req, direction, B, x, offset):
    d = req["doppler"]
    return w.doppler(d["lat"] / 10e6, d["lon"] / 10e6, d["alt"] / 10e3, req["rate"], req["center"], s64(offset), start_of(req), B, [proto.as_bytes(l).split(b"\0")[0] for l in d["tle"]], direction, x)


def demod(w, req, B, x):
    f = req["fsk"]
    return w.fsk_demod(req["rate"], req["baud"], s64(f["deviation"]), req["decimation"], f["width"], bool(f["dc"]), B, x)


def ref_rx(w, req, B, x):
    """(soft bits of every block) of a session which is given the blocks x; None when the session cannot be set up"""
    if req.get("doppler"):
        r = dop(w, req, "rx", B, x, 0)
        if not ok(r, "doppler"):
            return None
        x = r["out"]
    r = demod(w, req, B, x)
    if not ok(r, "demodulator"):
        return None
    return r["out"]


def sens(req):
    return np.float32(2 * np.pi * float(s64(req["fsk"]["deviation"])) / float(req["rate"]))


def max_out(req, B):
    return int(8 * np.floor(np.float32(req["rate"] / req["baud"])) * B)


def ref_tx(w, req, B, datas):
    """the samples of every message's batches: list of lists; None when the session cannot be set up"""
    parts = []
    for d in datas:
        parts.append([np.frombuffer(d[i:i + B], np.uint8) for i in range(0, len(d), B)])
    flat = [p for ps in parts for p in ps]
    r = w.gfsk_mod(float(np.float32(req["rate"] / req["baud"])), float(sens(req)), 0.5, B, flat)
    if not ok(r, "modulator"):
        return None
    y = r["out"]
    m = max_out(req, B)
    if m >= U32:
        return None
    if req.get("doppler"):
        r = dop(w, req, "tx", m, y, req["offset"])
        if not ok(r, "doppler"):
            return None
        y = r["out"]
    elif req["offset"]:
        r = w.sig(1.0, req["rate"], m, [(s64(req["offset"]), b) for b in y])
        if r["code"] != 0:
            return None
        y = r["out"]
    out, i = [], 0
    for ps in parts:
        out.append(y[i:i + len(ps)])
        i += len(ps)
    return out


def same_soft(got, want, what):
    """soft bits are the same up to the rounding to eight bits"""
    got = np.frombuffer(got, np.int8) if isinstance(got, bytes) else got
    k = min(len(got), len(want))
    d = np.flatnonzero(np.abs(got[:k].astype(int) - want[:k].astype(int)) > 1)
    if len(d):
        raise Violation("%s: soft bit %d is %d instead of %d (%d of %d differ)" % (what, d[0], got[d[0]], want[d[0]], len(d), k))
    if len(got) != len(want):
        raise Violation("%s: %d soft bits instead of %d" % (what, len(got), len(want)))


def same_samples(got, want, what, tol=1e-3):
    k = min(len(got), len(want))
    d = np.flatnonzero(~(np.abs(got[:k] - want[:k]) <= tol * np.maximum(1, np.abs(want[:k]))))
    if len(d):
        raise Violation("%s: sample %d is %s instead of %s (%d of %d differ)" % (what, d[0], got[d[0]], want[d[0]], len(d), k))
    if len(got) != len(want):
        raise Violation("%s: %d samples instead of %d" % (what, len(got), len(want)))


def samples(kind, n, seed, req):
    if n == 0:
        return np.zeros(0, np.complex64)
    if kind == "gfsk":
        nb = int(n * req["baud"] / req["rate"] / 8) + 1
        x = gen.gfsk_samples(seed, nb, req["rate"], req["baud"], req["fsk"]["deviation"], noise=0.05)[1]
        return np.resize(x, n).astype(np.complex64) if len(x) < n else x[:n]
    return gen.signal(kind, n, seed)


def write_in(s, x, name="in.cf32", tail=0):
    with open(os.path.join(s.dir, name), "wb") as f:
        f.write(np.asarray(x, np.complex64).tobytes() + b"\x41" * tail)


def limited(w):
    """the same limit on memory as in the server"""
    w.limit(LIMIT)
    return w


class Serve:
    """with Serve(run, ...) as s: a server which is stopped and checked for leaks at the end of a passed case"""

    def __init__(self, run, conf=None, stop=True, **kw):
        self.s = Server(run.products, conf, **kw)
        self.stop = stop

    def __enter__(self):
        self.s.ctl(alloc_max=LIMIT)
        self.s.start()
        return self.s

    def __exit__(self, kind, e, tb):
        s = self.s
        try:
            if kind is None and self.stop and s.p is not None:
                s.stop()
                left = s.get("alloc_live")
                if left:
                    raise Violation("%d allocations left at the end" % left)
            elif kind is not None and issubclass(kind, (OSError, ValueError)):
                s.check_alive()
        finally:
            s.done()
        return False


def accept(c, r, what):
    """the answer has to be success with the number of the connection"""
    if r != (proto.SUCCESS, c.id):
        raise Violation("%s: answered with %s instead of %s" % (what, r, (proto.SUCCESS, c.id)))


def finish(c, what="shutdown"):
    """the client asks to end and reads until the connection is closed; the rest of the data"""
    c.shut()
    rest = c.buf
    c.buf = b""
    while True:
        b = c.read_some()
        if b is None:
            c.server.check_alive(what)
            raise Violation("%s: the connection stays open\n%s" % (what, c.server.stacks()))
        if not b:
            c.close()
            return rest
        rest += b
