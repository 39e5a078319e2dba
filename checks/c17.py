"""C17: a receive session delivers the demodulation of its samples."""
import os

import numpy as np
from hypothesis import strategies as st

from checks import gen, srv
from vlib import client
from vlib import models as M
from vlib import proto
from vlib.core import Sub, Violation, run_check

PID = "C17"
RULE = ("a case is a server configuration (source, buffer and queue sizes) and one or several receive sessions with their own requests and samples, at once or one after "
        "another; non-trivial when at least one session was accepted and delivered eight or more soft bits which were all compared")
KIND = st.sampled_from(["gfsk", "gfsk", "noise", "chirp", "impulses", "zeros"])


@st.composite
def session(draw, B, source):
    r = draw(srv.rx_request(source, low=520834 if source == "pluto" else 0))
    if draw(st.integers(0, 3)):
        n = int(draw(st.integers(10, 300)) * r["rate"] / r["baud"]) + draw(st.integers(0, 5))
        n -= draw(st.booleans()) * (n % B)
    else:
        n = draw(st.one_of(st.integers(0, 6 * B), st.integers(1, 20).map(lambda k: k * B), st.integers(0, 3)))
    return {"req": r, "n": min(n, 30000), "kind": draw(KIND), "seed": draw(st.integers(0, 2 ** 31)), "tail": draw(st.sampled_from([0, 0, 3, 7])), "lazy": draw(st.sampled_from([0, 0, 0, 0.03])),
            "rcvbuf": draw(st.sampled_from([None, None, 2304]))}


@st.composite
def files(draw):
    B = draw(st.sampled_from([16, 64, 256, 1000, 2048, 4096]))
    k = draw(st.sampled_from([1, 1, 2, 3]))
    if draw(st.integers(0, 19)) == 0:
        # the size a real configuration has
        B = draw(st.one_of(st.integers(65530, 65545), st.integers(66000, 140000)))
        q = draw(session(1000, "file"))
        q["req"].update(rate=q["req"]["baud"] * draw(st.sampled_from([4, 5, 10])), decimation=1)
        q["req"]["fsk"]["width"] = q["req"]["baud"]
        q["n"] = draw(st.sampled_from([B, B + 1, 2 * B, 2 * B + 1000]))
        return {"B": B, "q": 2, "sessions": [q], "together": False, "sched": None, "stale": False, "seed": 0}
    return {"B": B, "q": draw(st.sampled_from([1, 2, 3, 16, 64])), "sessions": [draw(session(B, "file")) for _ in range(k)], "together": draw(st.booleans()),
            "sched": draw(st.sampled_from([None, None, [100, 300]])), "stale": draw(st.integers(0, 3)) == 0, "seed": draw(st.integers(0, 2 ** 31))}


def file_ref(w, q, B):
    req = q["req"]
    x = srv.samples(q["kind"], q["n"], q["seed"], req)
    b = srv.shifted(w, srv.blocks(x, B), req["rate"], req["offset"], B)
    return x, b, None if b is None else srv.ref_rx(w, req, B, b)


def begin(s, q, x, i):
    name = "in%d.cf32" % i
    srv.write_in(s, x, name, q["tail"])
    req = dict(q["req"], file=dict(q["req"]["file"], filename=name))
    c = s.connect(rcvbuf=q["rcvbuf"])
    c.send(proto.message(proto.RX_REQUEST, proto.rx_body(req)))
    return c


def expect_open(c, want, what):
    r = c.response(what)
    if want is None:
        if r != (proto.FAILURE, proto.INTERNAL):
            raise Violation("%s: cannot be set up but is answered with %s" % (what, r))
        c.ended(what)
        return False
    srv.accept(c, r, what)
    return True


def judge_files(s, c, q, got, blocks, want, what, whole=True):
    soft = M.cat(want, np.int8)
    if q["req"]["dest"] != proto.FILE:
        srv.same_soft(got, soft, what + " (socket)")
    elif got:
        raise Violation("%s: %d bytes on the socket of a client which asked for a file" % (what, len(got)))
    paths = {"demod": q["req"]["dest"] != proto.SOCKET, "rx": q["req"]["dump"]}
    for kind, there in paths.items():
        if there != s.wrote(kind, c.id):
            raise Violation("%s: the file %s is %s" % (what, os.path.basename(s.path(kind, c.id)), "missing" if there else "not asked for"))
    if paths["demod"]:
        srv.same_soft(s.data("demod", c.id), soft, what + " (file)")
    if paths["rx"]:
        srv.same_samples(s.data("rx", c.id), M.cat(blocks, np.complex64), what + " (dump)")


def from_file(run, c):
    w = srv.limited(run.worker())
    plans = [file_ref(w, q, c["B"]) for q in c["sessions"]]
    done = 0
    with srv.Serve(run, {"buffer_size": c["B"], "queue_size": c["q"]}) as s:
        if c["stale"]:
            s.litter()
        if c["sched"]:
            s.ctl(sched_seed=c["seed"], sched_max_us=c["sched"][1], sched_prob=c["sched"][0], eintr=30 * (c["seed"] % 2))
        turns = [list(range(len(plans)))] if c["together"] else [[i] for i in range(len(plans))]
        for turn in turns:
            opened = []
            for i in turn:
                x, b, want = plans[i]
                k = begin(s, c["sessions"][i], x, i)
                if expect_open(k, want, "session %d" % i):
                    opened.append((i, k))
            ended = []
            for i, k in opened:
                q = c["sessions"][i]
                x, b, want = plans[i]
                n = sum(len(y) for y in want)
                what = "session %d" % i
                if q["lazy"]:
                    import time
                    time.sleep(q["lazy"])
                got = b""
                if q["req"]["dest"] != proto.FILE:
                    got = k.read(n, what)
                if q["req"]["dest"] == proto.FILE or (want and not len(want[-1])):
                    if not s.quiet(deadline=20):
                        raise Violation("the server is still busy")
                ended.append((i, k, got + srv.finish(k, what)))
            s.ping()
            for i, k, got in ended:
                x, b, want = plans[i]
                judge_files(s, k, c["sessions"][i], got, b, want, "session %d" % i)
                done = max(done, sum(len(y) for y in want))
    return done >= 8 and ("together" if c["together"] and len(plans) > 1 else "one by one")


@st.composite
def plutos(draw):
    B = draw(st.sampled_from([64, 256, 1000, 4096]))
    return {"B": B, "q": draw(st.sampled_from([128, 200])), "one": draw(session(B, "pluto")), "edge": draw(st.booleans()), "how": draw(st.sampled_from(["end", "end", "shut"])),
            "tx": draw(st.sampled_from([False, False, True])), "after": draw(st.integers(0, 400)), "stale": draw(st.integers(0, 3)) == 0,
            "gains": [draw(st.integers(-4, 280)) / 4, draw(st.integers(-358, 0)) / 4]}


def from_pluto(run, c):
    """the device gives 12-bit samples; its end ends the session after everything was delivered"""
    w = srv.limited(run.worker())
    q = c["one"]
    B, req = c["B"], q["req"]
    n = min(q["n"], 120 * B)
    x = srv.samples(q["kind"], n, q["seed"], req)
    iq = np.clip(np.round(np.stack([x.real, x.imag], 1) * (2047 if c["edge"] else 900)), -2048, 2047).astype(np.int16)
    x = (iq[:, 0] / np.float32(2048) + 1j * (iq[:, 1] / np.float32(2048))).astype(np.complex64)
    blocks = srv.blocks(x, B)
    want = srv.ref_rx(w, req, B, blocks)
    conf = {"buffer_size": B, "queue_size": c["q"], "rx_sdr_type": "plutosdr", "tx_sdr_type": "plutosdr" if c["tx"] else "none", "rx_plutosdr_gain": c["gains"][0], "tx_plutosdr_gain": c["gains"][1],
            "tx_plutosdr_timeout_millis": 100}
    if req.get("doppler") and not req.get("file"):
        return False
    with srv.Serve(run, conf, iio=True, rx_data=iq) as s:
        if c["stale"]:
            s.litter()
        s.ictl(rx_end_mode=0 if c["how"] == "end" else 1)
        k = s.connect()
        k.send(proto.message(proto.RX_REQUEST, proto.rx_body(req)))
        if not expect_open(k, want, "session"):
            return "refused"
        total = sum(len(y) for y in want)
        soft = M.cat(want, np.int8)
        if c["how"] == "end":
            got = b""
            while True:
                b = k.read_some()
                if b is None:
                    s.check_alive()
                    raise Violation("the source ended but the session did not\n" + s.stacks())
                if not b:
                    break
                got += b
            k.close()
            s.ping()
            judge_files(s, k, q, got, blocks, want, "session")
        else:
            first = min(total, c["after"])
            got = k.read(first, "session") if req["dest"] != proto.FILE else b""
            got += srv.finish(k, "shutdown")
            s.ping()
            m = min(len(got), total)
            if req["dest"] != proto.FILE:
                srv.same_soft(got[:m], soft[:m], "session (socket)")
            if req["dest"] != proto.SOCKET:
                f = s.data("demod", k.id)
                m = min(len(f), total)
                srv.same_soft(f[:m], soft[:m], "session (file)")
                if req["dest"] == proto.BOTH and len(f) < len(got):
                    raise Violation("%d soft bits on the socket but %d in the file" % (len(got), len(f)))
            if req["dump"]:
                d = s.data("rx", k.id)
                m = min(len(d), len(x))
                srv.same_samples(d[:m], x[:m], "session (dump)")
        # the device had been asked for what the request says
        log = s.iio_log()
        for line in ("attr ad9361-phy/altvoltage0/out frequency = %d" % (req["center"] + req["offset"]), "attr ad9361-phy/voltage0/in sampling_frequency = %d" % req["rate"],
                     "attr ad9361-phy/voltage0/in hardwaregain = %.6f" % c["gains"][0]):
            if line not in log:
                raise Violation("the device never saw: %s" % line)
    return c["how"] if total >= 8 else 'few'


def main():
    return run_check(PID, [
        Sub("file", files(), from_file, 500, 8000, shards=5, tshards=7, qtime=60, ttime=900),
        Sub("pluto", plutos(), from_pluto, 160, 4000, shards=3, tshards=6, qtime=60, ttime=900),
    ], RULE, assumptions=["soft bits are compared up to one unit of the eight-bit rounding with those of the library's own demodulator, which C02 to C07 judge",
                          "the PlutoSDR source is a pretended libiio; its queue is large enough for everything the device gives"])
