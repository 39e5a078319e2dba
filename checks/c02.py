"""C02: the demodulated stream does not depend on how the samples arrive."""
import numpy as np
from hypothesis import strategies as st

from checks import gen
from vlib import models as M
from vlib.core import Sub, Violation, run_check

PID = "C02"
RULE = ("a case is (request parameters, stream recipe, two partitions into blocks); non-trivial when the partitions differ and both gave at least eight soft bits, "
        "all compared")


@st.composite
def params(draw):
    baud = draw(st.sampled_from([1200, 2400, 4800, 9600, 19200])) if draw(st.booleans()) else draw(st.integers(50, 20000))
    decim = draw(st.sampled_from([1, 1, 2, 3, 4, 5, 8, 20]))
    sps = draw(st.sampled_from([2, 2.5, 4, 5, 10, 16, 40])) if draw(st.booleans()) else draw(st.floats(1.6, 30))
    fs = int(baud * sps * decim)
    # the filter before the discriminator has to fit into the band
    top = max(1, int(fs / 2 - baud / 2 - 2))
    dev = min(top, draw(st.sampled_from([baud // 4, baud // 2, baud, 5000])) or 1)
    return {"fs": fs, "baud": baud, "decim": decim, "dev": dev * draw(st.sampled_from([1, 1, 1, -1])), "tw": max(1, int(baud * draw(st.sampled_from([0.2, 0.5, 1.0, 2.0])))),
            "dc": draw(st.booleans())}


@st.composite
def cases(draw):
    p = draw(params())
    maxbuf = draw(st.sampled_from([1, 3, 16, 100, 512, 2000, 4096]))
    n = draw(st.integers(1, 6000 if maxbuf > 16 else 600))
    p.update(maxbuf=maxbuf, n=n, kind=draw(st.sampled_from(["gfsk", "gfsk", "gfsk", "noise", "chirp", "impulses", "zeros", "steps"])), seed=draw(st.integers(0, 2 ** 31)),
             lens=draw(gen.chunk_lens(maxbuf)), lens2=draw(gen.chunk_lens(maxbuf)), one=draw(st.booleans()))
    return p


def pieces(x, lens, maxbuf):
    out = []
    for p in M.split(x, [min(n, maxbuf) for n in lens]):
        for i in range(0, len(p), maxbuf):
            out.append(p[i:i + maxbuf])
    return out


def stream(c):
    if c["kind"] == "gfsk":
        nbytes = int(c["n"] * c["baud"] / c["fs"] / 8) + 1
        return gen.gfsk_samples(c["seed"], nbytes, c["fs"], c["baud"], c["dev"], noise=0.05)[1][: c["n"]]
    return gen.signal(c["kind"], c["n"], c["seed"])


def run_demod(w, c, chunks, maxbuf):
    r = w.fsk_demod(c["fs"], c["baud"], c["dev"], c["decim"], c["tw"], c["dc"], maxbuf, chunks)
    if r["code"] != 0:
        raise Violation("creation fails (%d)" % r["code"])
    if r["leak"]:
        raise Violation("%d allocations left" % r["leak"])
    return r["out"]


def differ(a, b):
    """first soft bit that differs by more than the rounding to eight bits"""
    if abs(len(a) - len(b)) > 1:
        return "%d and %d soft bits" % (len(a), len(b))
    k = min(len(a), len(b))
    d = np.flatnonzero(np.abs(a[:k].astype(int) - b[:k].astype(int)) > 1)
    if len(d):
        return "soft bit %d is %d and %d (%d of %d differ)" % (d[0], a[d[0]], b[d[0]], len(d), k)
    return None


def blocks(run, c):
    w = run.worker()
    x = stream(c)
    p1 = pieces(x, c["lens"], c["maxbuf"])
    m2 = len(x) if c["one"] else c["maxbuf"]
    p2 = [x] if c["one"] else pieces(x, c["lens2"], c["maxbuf"])
    a = M.cat(run_demod(w, c, p1, c["maxbuf"]), np.int8)
    b = M.cat(run_demod(w, c, p2, m2), np.int8)
    e = differ(a, b)
    if e:
        raise Violation("two partitions (%d and %d blocks) of the same stream: %s" % (len(p1), len(p2), e))
    want = len(x) / (c["fs"] / c["baud"])
    if c["kind"] == "gfsk" and not 0.97 * want - 12 <= len(a) <= 1.03 * want + 3:
        raise Violation("%d samples at %g per symbol gave %d soft bits" % (len(x), c["fs"] / c["baud"], len(a)))
    return c["kind"] if len(a) >= 8 and [len(p) for p in p1] != [len(p) for p in p2] else None


@st.composite
def mixed(draw):
    c = draw(cases())
    c["maxbuf"] = max(c["maxbuf"], 16)
    c["at"] = draw(st.integers(0, 10))
    c["over"] = draw(st.integers(1, 3000))
    return c


def oversize(run, c):
    """an oversize block yields nothing; what follows is demodulated as if it had not been there"""
    w = run.worker()
    x = stream(c)
    p = pieces(x, c["lens"], c["maxbuf"])
    at = min(c["at"], len(p))
    q = p[:at] + [gen.signal("noise", c["maxbuf"] + c["over"], c["seed"] + 1)] + p[at:]
    a = run_demod(w, c, p, c["maxbuf"])
    b = run_demod(w, c, q, c["maxbuf"])
    if len(b[at]):
        raise Violation("a block of %d samples with a maximum of %d gave %d soft bits" % (c["maxbuf"] + c["over"], c["maxbuf"], len(b[at])))
    e = differ(M.cat(a, np.int8), M.cat(b[:at] + b[at + 1:], np.int8))
    if e:
        raise Violation("after an oversize block: %s" % e)
    return len(M.cat(a, np.int8)) >= 8


@st.composite
def pairs(draw):
    a, b = draw(cases()), draw(cases())
    return {"a": a, "b": b, "order": draw(st.lists(st.booleans(), max_size=60))}


def independent(run, c):
    """two demodulators used alternately do not influence each other"""
    w = run.worker()
    ps, refs = [], []
    for k in ("a", "b"):
        d = c[k]
        x = stream(d)[:2000]
        p = pieces(x, d["lens"], d["maxbuf"])
        ps.append(([d["fs"], d["baud"], d["dev"], d["decim"], d["tw"], d["dc"], d["maxbuf"]], p))
        refs.append(M.cat(run_demod(w, d, p, d["maxbuf"]), np.int8))
    outs = w.fsk_demods(ps, [int(o) for o in c["order"]])
    for k, (o, r) in enumerate(zip(outs, refs)):
        o = M.cat(o, np.int8)
        if len(o) != len(r) or (o != r).any():
            raise Violation("demodulator %d gives other soft bits next to another one" % k)
    return len(refs[0]) > 4 and len(refs[1]) > 4


@st.composite
def larges(draw):
    """blocks of the size a real configuration has: more than 65536 samples"""
    p = draw(params())
    # short filters
    p["fs"] = p["baud"] * draw(st.sampled_from([4, 5, 10, 13]))
    p.update(decim=draw(st.sampled_from([1, 1, 2])), tw=p["baud"], dev=p["baud"] // 2)
    n = draw(st.one_of(st.integers(65530, 65545), st.integers(66000, 300000)))
    p.update(maxbuf=n, n=n, kind=draw(st.sampled_from(["gfsk", "gfsk", "noise"])), seed=draw(st.integers(0, 2 ** 31)), part=draw(st.integers(500, 9000)), lead=draw(st.sampled_from([0, 0, 100])))
    return p


def large(run, c):
    w = run.worker()
    x = stream(c)
    first = x[:c["lead"]]
    rest = x[c["lead"]:]
    p1 = ([first] if len(first) else []) + [rest]
    p2 = [x[i:i + c["part"]] for i in range(0, len(x), c["part"])]
    a = M.cat(run_demod(w, c, p1, len(x)), np.int8)
    b = M.cat(run_demod(w, c, p2, c["part"]), np.int8)
    e = differ(a, b)
    if e:
        raise Violation("one block of %d samples and blocks of %d: %s" % (len(x), c["part"], e))
    return len(a) >= 8


def main():
    return run_check(PID, [
        Sub("large", larges(), large, 25, 400),
        Sub("blocks", cases(), blocks, 2400, 40000, shards=5, tshards=7),
        Sub("oversize", mixed(), oversize, 400, 6000),
        Sub("independent", pairs(), independent, 300, 4000),
    ], RULE, assumptions=["soft bits are compared up to one unit of the eight-bit rounding", "plain-C VOLK kernels in place of the SIMD ones"])
