"""C22: file devices."""
import os

import numpy as np
from hypothesis import strategies as st

from checks import gen
from vlib import client
from vlib import models as M
from vlib.core import Sub, Violation, run_check

PID = "C22"
RULE = ("a case is file contents (any number of bytes), an offset, a buffer size and a sequence of reads, writes, oversize writes and the stop request; non-trivial when "
        "samples passed through a device in more than one block or an error was provoked and the device used afterwards")


def shifted(x, f, fs):
    """samples times exp(2 pi i f k / fs), and the accuracy a float oscillator can keep"""
    k = np.arange(len(x))
    osc = np.exp(2j * np.pi * ((f * k) % fs) / fs)
    drift = (1e-6 + 3e-7 * abs(f % fs if f >= 0 else -(-f % fs)) / fs) * (k + 1)
    return x * osc, (2e-4 + 3 * drift) * np.abs(x) + 1e-30


def same(got, x, f, fs, what):
    if len(got) != len(x):
        raise Violation("%s: %d samples, expected %d" % (what, len(got), len(x)))
    if f == 0:
        if not np.array_equal(got.view(np.uint32), x.view(np.uint32)):
            raise Violation("%s: sample %d differs" % (what, int(np.flatnonzero((got.view(np.uint32) != x.view(np.uint32)).reshape(-1, 2).any(axis=1))[0])))
        return
    ref, tol = shifted(x.astype(complex), f, fs)
    bad = np.flatnonzero(~(np.abs(got - ref) <= tol))
    if len(bad):
        raise Violation("%s: sample %d is %s, expected %s" % (what, int(bad[0]), got[bad[0]], ref[bad[0]]))


def offsets(draw, fs):
    return draw(st.one_of(st.just(0), st.integers(-fs, fs), st.sampled_from([1, -1, fs // 4, fs // 2]), st.integers(-3 * fs, 3 * fs)))


@st.composite
def reads(draw):
    fs = draw(st.one_of(st.sampled_from([48000, 96000]), st.integers(100, 3000000)))
    maxbuf = draw(st.one_of(st.integers(1, 70), st.sampled_from([512, 2048])))
    n = draw(st.one_of(st.integers(0, 5 * maxbuf), st.sampled_from([0, maxbuf, 2 * maxbuf, 2 * maxbuf + 1, 3 * maxbuf - 1])))
    return {"fs": fs, "maxbuf": maxbuf, "n": n, "tail": draw(st.sampled_from([0, 0, 1, 4, 7])), "kind": draw(st.sampled_from(["noise", "noise", "tone", "zeros"])), "amp": draw(st.sampled_from([1, 1, 1e-20, 1e4])),
            "seed": draw(st.integers(0, 2 ** 31)), "offset": offsets(draw, fs), "tx": draw(st.sampled_from(["none", "none", "tx", "wrong"])), "wait": draw(st.sampled_from([0.02, 0.02, 0.005]))}


def read(run, c):
    """a file as receiver: all whole samples in order, then it waits for the stop"""
    d = client.scratch()
    path = os.path.join(d, "in.cf32")
    x = gen.signal(c["kind"], c["n"], c["seed"], amp=c["amp"])
    with open(path, "wb") as f:
        f.write(x.tobytes() + b"\x3f" * c["tail"])
    k = -(-c["n"] // c["maxbuf"])
    steps = []
    for i in range(k):
        steps.append(("rx",))
        if c["tx"] == "wrong" and i % 2 == 0:
            steps.append(("tx", np.ones(min(3, c["maxbuf"]), np.complex64)))
    steps.append(("end", c["wait"]))
    r = run.worker().file_script(path, os.path.join(d, "out.cf32") if c["tx"] == "tx" else None, c["fs"], c["offset"], c["maxbuf"], steps)
    with open(path, "rb") as f:
        if f.read() != x.tobytes() + b"\x3f" * c["tail"]:
            raise Violation("reading changed the file")
    for n in os.listdir(d):
        os.unlink(os.path.join(d, n))
    os.rmdir(d)
    if r["code"] != 0:
        raise Violation("create %d" % r["code"])
    if r["hung"]:
        run.fresh()
        run._workers = {}
        raise Violation("the read at the end of the file did not return after the stop request")
    got = []
    for s, o in zip(steps, r["res"]):
        if s[0] == "rx":
            code, y = o
            if code != 0 or len(y) == 0 or len(y) > c["maxbuf"]:
                raise Violation("a read returned %d with %d samples (buffer %d) before the end of the file" % (code, len(y), c["maxbuf"]))
            got.append(y)
        elif s[0] == "tx" and o == 0:
            raise Violation("a write on a receive-only device succeeded")
        elif s[0] == "end":
            waited, (code, y) = o
            if len(y):
                raise Violation("%d samples after the end of a file of %d" % (len(y), c["n"]))
            if code == 0:
                raise Violation("the read past the end reported success")
            if not waited:
                raise Violation("the read past the end did not wait for the stop request")
    same(np.concatenate(got) if got else np.zeros(0, np.complex64), x, c["offset"], c["fs"], "receiver")
    if r["leak"] or r["fdleak"]:
        raise Violation("%d allocations and %d descriptors left" % (r["leak"], r["fdleak"]))
    return k >= 2 and "%s%s" % ("shifted" if c["offset"] % c["fs"] else "plain", " partial sample" if c["tail"] else "")


@st.composite
def writes(draw):
    fs = draw(st.one_of(st.sampled_from([48000, 96000]), st.integers(100, 3000000)))
    maxbuf = draw(st.one_of(st.integers(1, 70), st.sampled_from([512, 2048])))
    steps = draw(st.lists(st.one_of(st.tuples(st.just("tx"), st.integers(1, maxbuf)), st.tuples(st.just("tx"), st.sampled_from([maxbuf])), st.tuples(st.just("big"), st.integers(1, 50)),
                                    st.tuples(st.just("rx"), st.just(0)), st.tuples(st.just("stop"), st.just(0)), st.tuples(st.just("tx"), st.just(0))), max_size=25))
    return {"fs": fs, "maxbuf": maxbuf, "steps": [list(s) for s in steps], "seed": draw(st.integers(0, 2 ** 31)), "offset": offsets(draw, fs), "old": draw(st.integers(0, 100))}


def write(run, c):
    """a file as transmitter: exactly the samples accepted"""
    d = client.scratch()
    path = os.path.join(d, "out.cf32")
    if c["old"]:
        with open(path, "wb") as f:
            f.write(b"x" * c["old"])
    total = sum(s[1] + (c["maxbuf"] if s[0] == "big" else 0) for s in c["steps"])
    x = gen.signal("noise", total + 1, c["seed"])
    i, steps, sent = 0, [], []
    for op, k in c["steps"]:
        if op == "tx":
            steps.append(("tx", x[i:i + k]))
            sent.append(x[i:i + k])
            i += k
        elif op == "big":
            steps.append(("tx", x[i:i + c["maxbuf"] + k]))
            i += c["maxbuf"] + k
        else:
            steps.append((op,))
    r = run.worker().file_script(None, path, c["fs"], c["offset"], c["maxbuf"], steps)
    if r["code"] != 0:
        raise Violation("create %d" % r["code"])
    with open(path, "rb") as f:
        raw = f.read()
    os.unlink(path)
    os.rmdir(d)
    for (op, k), o in zip(c["steps"], r["res"]):
        if op == "tx" and k and o != 0:
            raise Violation("a write of %d samples (buffer %d) failed" % (k, c["maxbuf"]))
        if op == "big" and o == 0:
            raise Violation("a write of %d samples into a buffer of %d succeeded" % (c["maxbuf"] + k, c["maxbuf"]))
        if op == "rx" and (o[0] == 0 or len(o[1])):
            raise Violation("a read on a transmit-only device gave %d with %d samples" % (o[0], len(o[1])))
    if len(raw) % 8:
        raise Violation("the file holds %d bytes" % len(raw))
    y = np.concatenate(sent) if sent else np.zeros(0, np.complex64)
    same(np.frombuffer(raw, np.complex64), y, c["offset"], c["fs"], "transmitter")
    if r["leak"] or r["fdleak"]:
        raise Violation("%d allocations and %d descriptors left" % (r["leak"], r["fdleak"]))
    return len(sent) >= 2 and ("with errors" if any(s[0] in ("big", "rx") for s in c["steps"]) else "clean")


@st.composite
def wrongs(draw):
    return {"rx": draw(st.sampled_from(["missing", "ok", "none", "nodir", "isdir"])), "tx": draw(st.sampled_from(["nodir", "isdir", "ok", "none"])), "offset": draw(st.sampled_from([0, 100])),
            "maxbuf": draw(st.integers(1, 1000))}


def wrong(run, c):
    """files that cannot be opened: an error, nothing left behind"""
    d = client.scratch()
    ok = os.path.join(d, "in.cf32")
    with open(ok, "wb") as f:
        f.write(bytes(80))
    rx = {"missing": os.path.join(d, "absent"), "ok": ok, "none": None, "nodir": os.path.join(d, "no", "in"), "isdir": d}[c["rx"]]
    tx = {"nodir": os.path.join(d, "no", "out"), "isdir": d, "ok": os.path.join(d, "out"), "none": None}[c["tx"]]
    r = run.worker().file_script(rx, tx, 48000, c["offset"], c["maxbuf"], [("rx",), ("rx",)] if c["rx"] in ("isdir", "none") else [])
    for n in os.listdir(d):
        os.unlink(os.path.join(d, n))
    os.rmdir(d)
    bad = c["rx"] in ("missing", "nodir") or c["tx"] in ("nodir", "isdir") or (c["rx"] == "isdir" and r["code"] != 0)
    for code, y in r.get("res", []):
        # nothing to read from, now or later: an error at once
        if code == 0 or len(y):
            raise Violation("a read without a readable file gave %d and %d samples" % (code, len(y)))
    if bad != (r["code"] != 0):
        raise Violation("receiver %s transmitter %s: code %d" % (c["rx"], c["tx"], r["code"]))
    if r["leak"] or r["fdleak"]:
        raise Violation("%d allocations and %d descriptors left" % (r["leak"], r["fdleak"]))
    return bad


@st.composite
def larges(draw):
    """buffers of the size a real configuration has: more than 65536 samples"""
    m = draw(st.one_of(st.integers(65530, 65545), st.integers(66000, 300000)))
    return {"fs": 48000, "maxbuf": m, "n": draw(st.sampled_from([m, m - 1, 2 * m, m + 17])), "tail": draw(st.sampled_from([0, 7])), "kind": "noise", "amp": 1, "seed": draw(st.integers(0, 2 ** 31)),
            "offset": draw(st.sampled_from([0, 0, 1000, -7777])), "tx": "none", "wait": 0.005}


def main():
    return run_check(PID, [
        Sub("large", larges(), read, 15, 200),
        Sub("read", reads(), read, 600, 12000, shards=4, tshards=8),
        Sub("write", writes(), write, 800, 20000, shards=3, tshards=8),
        Sub("wrong", wrongs(), wrong, 60, 400, shards=1),
    ], RULE, assumptions=["writing to a full disk is not covered: the file transmitter ignores short writes"])
