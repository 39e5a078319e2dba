"""C16: a transmit session emits exactly the data, in order."""
import os

import numpy as np
from hypothesis import strategies as st

from checks import srv
from vlib import models as M
from vlib import proto
from vlib.core import Skip, Sub, Violation, run_check

PID = "C16"
RULE = ("a case is a server configuration and one or several transmit sessions, each with a history of data messages (any size, well-formed or not, one at a time or "
        "pipelined), other messages, refused rivals and device failures; non-trivial when two or more data messages were answered and the emitted samples compared")
TOP = proto.MAX_BODY - 4  # the largest data whose message is within the limit (tag and three length bytes)


def data_of(seed, n):
    return np.random.default_rng(seed).integers(0, 256, n, dtype=np.uint8).tobytes()


@st.composite
def step(draw, B, big):
    k = draw(st.sampled_from(["data"] * 8 + ["rival", "other", "version", "broken", "long", "edge"]))
    if k == "data":
        n = draw(st.one_of(st.integers(1, 40), st.integers(0, 2), st.integers(1, 4).map(lambda v: v * B), st.sampled_from([B - 1, B, B + 1, 2 * B + 1]), st.integers(1, 3 * B + 5)))
        return ["data", min(max(n, 0), big), draw(st.integers(0, 2 ** 31))]
    if k == "edge":
        return ["data", min(big, draw(st.sampled_from([TOP, TOP - 1, 16384, 16383, 128, 127]))), draw(st.integers(0, 2 ** 31))]
    if k == "other":
        return ["other", draw(st.sampled_from([proto.RX_REQUEST, proto.PING, proto.RESPONSE, proto.TX_REQUEST, 6, 17, 255])), draw(st.sampled_from([0, 0, 3, 100, 5000])), draw(st.integers(0, 2 ** 31))]
    if k == "version":
        return ["version", draw(st.integers(1, 255)), draw(st.integers(0, 300)), draw(st.integers(0, 2 ** 31))]
    if k == "broken":
        return ["broken", draw(st.sampled_from(["empty", "wrong", "cut"])), draw(st.integers(1, 60))]
    if k == "long":
        return ["long", draw(st.sampled_from([proto.MAX_BODY + 1, proto.MAX_BODY + 5000, 100000, 65536, 65542])), draw(st.integers(0, 2 ** 31))]
    return ["rival"]


@st.composite
def session(draw, B, big, low=0, i=0):
    r = draw(srv.tx_request(low=low, name="out%d.cf32" % i))
    return {"req": r, "steps": draw(st.lists(step(B, big), max_size=8)), "pipe": draw(st.booleans())}


@st.composite
def files(draw):
    B = draw(st.sampled_from([1, 7, 16, 64, 256, 1024, 4096]))
    # no more than a few hundred thousand samples
    return {"B": B, "sessions": [draw(session(B, draw(st.sampled_from([300, 2000, TOP])), i=i)) for i in range(draw(st.sampled_from([1, 1, 1, 2, 3])))], "seed": draw(st.integers(0, 2 ** 31)),
            "sched": draw(st.sampled_from([0, 0, 100])), "again": draw(st.booleans()), "stale": draw(st.integers(0, 3)) == 0}


def encode(op):
    """(bytes, expected answer or None, data or None)"""
    k = op[0]
    if k == "data":
        d = data_of(op[2], op[1])
        return proto.message(proto.TX_DATA, proto.tx_data_body(d)), (proto.SUCCESS, 0), d
    if k == "other":
        return proto.message(op[1], data_of(op[3], op[2])), None, None
    if k == "version":
        return proto.message(proto.TX_DATA, proto.tx_data_body(data_of(op[3], op[2])), version=op[1]), None, None
    if k == "long":
        return proto.message(proto.TX_DATA, data_of(op[2], op[1])), (proto.FAILURE, proto.INVALID), None
    if k == "broken":
        good = proto.tx_data_body(data_of(1, op[2]))
        body = {"empty": b"", "wrong": proto.f_int(2, op[2]), "cut": good[:-1]}[op[1]]
        return proto.message(proto.TX_DATA, body), (proto.FAILURE, proto.INVALID), None
    raise ValueError(k)


def rival(s, req):
    """somebody else asks for the transmitter in use"""
    c = s.connect()
    c.send(proto.message(proto.TX_REQUEST, proto.tx_body(dict(req, file={"filename": "rival.cf32", "start": 1600000000}))))
    r = c.response("rival")
    if r != (proto.FAILURE, proto.TX_USED):
        raise Violation("a second transmitter is answered with %s" % (r,))
    c.ended("rival")
    c.close()


def play(s, c, q, judge=None):
    """the history of a session; what was sent and how it was answered"""
    sent = []
    waiting = []

    def collect():
        for want, d, op in waiting:
            r = c.response("answer to %s" % op[:2])
            sent.append((d, r, op))
            if want is not None and judge is None and r != want:
                raise Violation("%s is answered with %s instead of %s" % (op[:2], r, want))
        del waiting[:]
    held = 0
    for op in q["steps"]:
        if op[0] == "rival":
            collect()
            held = 0
            rival(s, q["req"])
            continue
        b, want, d = encode(op)
        c.send(b)
        held += len(b)
        if want is not None:
            waiting.append((want, d, op))
        if not q["pipe"] or held > 50000:
            collect()
            held = 0
    collect()
    if not c.silent(0.0):
        raise Violation("more answers than data messages")
    return sent


def length(req, n):
    return int(8 * np.floor(np.float32(req["rate"] / req["baud"])) * n)


def to_file(run, c):
    w = srv.limited(run.worker())
    count = 0
    for q in c["sessions"]:
        room = 150000 if q["req"]["rate"] > 2.5 * q["req"]["baud"] else 700000
        for op in q["steps"]:
            if op[0] == "data":
                op[1] = min(op[1], int(room / max(1, length(q["req"], 1))))
                room -= length(q["req"], op[1])
    with srv.Serve(run, {"buffer_size": c["B"], "queue_size": 4, "tx_sdr_type": "file"}) as s:
        if c["stale"]:
            s.litter()
            for q in c["sessions"]:
                with open(os.path.join(s.dir, q["req"]["file"]["filename"]), "wb") as f:
                    f.write(b"left over" * 700)
        if c["sched"]:
            s.ctl(sched_seed=c["seed"], sched_max_us=300, sched_prob=c["sched"], eintr=30 * (c["seed"] % 2))
        for i, q in enumerate(c["sessions"]):
            datas = [data_of(op[2], op[1]) for op in q["steps"] if op[0] == "data"]
            ref = srv.ref_tx(w, q["req"], c["B"], datas)
            k = s.connect()
            k.send(proto.message(proto.TX_REQUEST, proto.tx_body(q["req"])))
            r = k.response("request")
            if ref is None:
                if r != (proto.FAILURE, proto.INTERNAL):
                    raise Violation("cannot be set up but is answered with %s" % (r,))
                k.ended("refused")
                continue
            srv.accept(k, r, "request")
            sent = play(s, k, q)
            rest = srv.finish(k, "end")
            if rest:
                raise Violation("%d bytes nobody asked for" % len(rest))
            s.ping()
            want = M.cat([y for ys in ref for y in ys], np.complex64)
            if not np.isfinite(want).all():
                raise Skip("no number")
            with open(os.path.join(s.dir, q["req"]["file"]["filename"]), "rb") as f:
                got = f.read()
            if len(got) % 8:
                raise Violation("the file has %d bytes" % len(got))
            srv.same_samples(np.frombuffer(got, np.complex64), want, "transmitted")
            if s.wrote("tx", k.id) != q["req"]["dump"]:
                raise Violation("the dump file is %s" % ("missing" if q["req"]["dump"] else "not asked for"))
            if q["req"]["dump"]:
                srv.same_samples(s.data("tx", k.id), want, "dump")
            if sum(1 for d, r, op in sent if d) >= 2:
                count += 1
        if os.path.exists(os.path.join(s.dir, "rival.cf32")) and os.path.getsize(os.path.join(s.dir, "rival.cf32")):
            raise Violation("the refused client's file was written")
    return count and ("doppler" if any(q["req"].get("doppler") for q in c["sessions"]) else "offset" if any(q["req"]["offset"] for q in c["sessions"]) else "plain")


@st.composite
def plutos(draw):
    B = draw(st.sampled_from([2, 16, 64, 256]))
    return {"B": B, "one": draw(session(B, 4 * B + 3, low=520834)), "fail": draw(st.sampled_from([0, 0, 1, 2, 3, 5, 9, 20])), "stale": draw(st.integers(0, 3)) == 0,
            "gain": draw(st.integers(-358, 0)) / 4}


def to_pluto(run, c):
    """the device takes 16-bit samples; a push it refuses fails the message it belongs to, and only that one"""
    w = srv.limited(run.worker())
    q, B = c["one"], c["B"]
    req = q["req"]
    room = 120000
    for op in q["steps"]:
        if op[0] == "data":
            op[1] = min(op[1], int(room / max(1, length(req, 1))))
            room -= length(req, op[1])
    if req.get("doppler") is None and not req["dump"]:
        req.pop("file", None)
    datas = [data_of(op[2], op[1]) for op in q["steps"] if op[0] == "data"]
    ref = srv.ref_tx(w, req, B, datas)
    conf = {"buffer_size": B, "queue_size": 4, "tx_sdr_type": "plutosdr", "rx_plutosdr_gain": 20.0, "tx_plutosdr_gain": c["gain"], "tx_plutosdr_timeout_millis": 100}
    with srv.Serve(run, conf, iio=True) as s:
        if c["stale"]:
            s.litter()
        s.ictl(tx_fail_after=c["fail"])
        k = s.connect()
        k.send(proto.message(proto.TX_REQUEST, proto.tx_body(req)))
        r = k.response("request")
        if ref is None:
            if r != (proto.FAILURE, proto.INTERNAL):
                raise Violation("cannot be set up but is answered with %s" % (r,))
            return "refused"
        srv.accept(k, r, "request")
        sent = play(s, k, q, judge=True)
        srv.finish(k, "end")
        s.ping()
        failed = []
        i = -1
        for d, r, op in sent:
            if op[0] != "data":
                if r != (proto.FAILURE, proto.INVALID):
                    raise Violation("%s is answered with %s" % (op[:2], r))
                continue
            i += 1
            if r == (proto.FAILURE, proto.INTERNAL):
                failed.append(i)
            elif r != (proto.SUCCESS, 0):
                raise Violation("%s is answered with %s" % (op[:2], r))
        hit = c["fail"] and s.iget("pushes") >= c["fail"]
        if len(failed) != (1 if hit else 0):
            raise Violation("%d messages failed while %d pushes did" % (len(failed), 1 if hit else 0))
        log = s.iio_log()
        for line in ("attr ad9361-phy/altvoltage1/out frequency = %d" % req["center"], "attr ad9361-phy/voltage0/out sampling_frequency = %d" % req["rate"],
                     "attr ad9361-phy/voltage0/out hardwaregain = %.6f" % c["gain"]):
            if line not in log:
                raise Violation("the device never saw: %s" % line)
        got = s.iio_tx()

        def iq(parts):
            y = M.cat([y for ys in parts for y in ys], np.complex64)
            v = np.stack([y.real, y.imag], 1).astype(float) * 32768
            return np.clip(v, -32768, 32767)

        def match(v):
            return len(v) == len(got) and (len(v) == 0 or np.abs(v - got).max() <= 33)
        if not hit:
            v = iq(ref)
            if not np.isfinite(v).all():
                raise Skip("no number")
            if not match(v):
                m = min(len(v), len(got))
                bad = np.flatnonzero(np.abs(v[:m] - got[:m]).max(1) > 33) if m else []
                raise Violation("the device got %d samples instead of %d, first difference at %s" % (len(got), len(v), bad[0] if len(bad) else None))
            if req["dump"]:
                srv.same_samples(s.data("tx", k.id), M.cat([y for ys in ref for y in ys], np.complex64), "dump")
            return len(datas) >= 2 and "all sent"
        # everything before the failed message, a part of it, everything after it; the modulator may have seen any number of its batches
        f = failed[0]
        nb = len(ref[f])
        for used in range(1, nb + 1):
            trial = datas[:f] + [datas[f][: used * B]] + datas[f + 1:]
            v = srv.ref_tx(w, req, B, trial)
            before, part, after = iq(v[:f]), iq([v[f]]), iq(v[f + 1:])
            n = len(got) - len(before) - len(after)
            if 0 <= n <= len(part) and (used == 1 or n >= len(iq([v[f][:used - 1]]))) and match(np.concatenate([before, part[:n], after])):
                return "failed push"
        raise Violation("after a failed push the device got %d samples which are not those of the messages answered with success" % len(got))


def main():
    return run_check(PID, [
        Sub("file", files(), to_file, 500, 8000, shards=5, tshards=7, qtime=60, ttime=900),
        Sub("pluto", plutos(), to_pluto, 300, 4000, shards=3, tshards=6, qtime=60, ttime=900),
    ], RULE, assumptions=["the samples are compared with those of the library's own modulator, shift and Doppler correction, which C01, C08 and C09 judge",
                          "a file transmitter that cannot write (full disk) is not covered: such errors are ignored by design"])
