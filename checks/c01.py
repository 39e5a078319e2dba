"""C01: the transmitted waveform is GFSK of exactly the bits supplied, whatever the split into messages."""
import numpy as np
from hypothesis import strategies as st

from vlib import models as M
from vlib.core import Sub, Violation, run_check

PID = "C01"
RULE = ("a case is (sampling rate, baud, deviation, buffer size, list of byte chunks); non-trivial when at least two bytes "
        "with both bit values were modulated and compared sample by sample with the float64 reference")

RATES = st.sampled_from([(9600, 1200), (9600, 4800), (9600, 9600), (9600, 2400), (38400, 9600), (48000, 9600), (48000, 1200),
                         (50000, 9600), (57600, 4800), (57600, 9600), (240000, 9600), (528000, 9600), (100000, 1200), (19200, 9600),
                         (250000, 1000), (255000, 1000), (96000, 1200), (256000, 1000), (300000, 1000), (480000, 1200), (1200000, 1200)])


@st.composite
def cases(draw):
    if draw(st.booleans()):
        fs, baud = draw(RATES)
    else:
        baud = draw(st.integers(300, 20000))
        fs = draw(st.integers(baud, baud * 60))
    dev = draw(st.sampled_from([5000, -5000, 2400, 1200, 600, 3500])) if draw(st.booleans()) else draw(st.integers(-fs // 2, fs // 2))
    if abs(dev) > fs // 2:
        dev = fs // 4
    big = draw(st.integers(0, 9)) == 0
    cap = 200 if big else 24
    if fs / baud > 40:
        cap = min(cap, 40)
    if fs / baud > 255:
        cap = 3
    chunks = [c.hex() for c in draw(st.lists(st.binary(min_size=0, max_size=cap), min_size=1, max_size=6 if cap > 3 else 2))]
    longest = max(len(c) // 2 for c in chunks)
    maxbuf = draw(st.sampled_from([max(1, longest), longest + 1, longest + 100, 2048 if cap > 3 else longest + 7]))
    return {"fs": fs, "baud": baud, "dev": dev, "chunks": chunks, "maxbuf": maxbuf}


def waveform(run, c):
    w = run.worker()
    chunks = [bytes.fromhex(x) for x in c["chunks"]]
    sps = np.float32(c["fs"] / c["baud"])
    sens = np.float32(2 * np.pi * c["dev"] / c["fs"])
    r = w.gfsk_mod(float(sps), float(sens), 0.5, c["maxbuf"], [np.frombuffer(x, np.uint8) for x in chunks])
    if r["code"] != 0:
        raise Violation("a valid configuration is refused: %d" % r["code"])
    if r["leak"]:
        raise Violation("%d allocations left after destroy" % r["leak"])
    k = int(sps)
    data = b"".join(chunks)
    for i, (x, o) in enumerate(zip(chunks, r["out"])):
        if len(o) != len(x) * 8 * k:
            raise Violation("message %d: %d bytes gave %d samples, expected %d" % (i, len(x), len(o), len(x) * 8 * k))
    got = M.cat(r["out"], np.complex64)
    ref = M.gfsk(data, float(sps), float(sens))
    if len(got) == 0:
        return None
    amp = np.abs(np.abs(got) - 1).max()
    if not amp < 1e-5:
        raise Violation("envelope is off by %g" % amp)
    n = np.arange(len(got))
    tol = 2e-4 + 3e-6 * n
    err = np.abs(got - ref)
    bad = np.flatnonzero(~(err <= tol))
    if len(bad):
        i = int(bad[0])
        raise Violation("sample %d (bit %d): %s, reference %s" % (i, i // k, got[i], ref[i]))
    if len(data) >= 2 and len(set(M.bits_msb(data))) == 2 and c["dev"]:
        return "multi-message" if sum(1 for x in chunks if x) > 1 else "one message"
    return None


@st.composite
def long_cases(draw):
    fs, baud = draw(st.sampled_from([(9600, 2400), (9600, 1200), (48000, 9600), (9600, 9600)]))
    total = draw(st.integers(2000, 6000))
    return {"fs": fs, "baud": baud, "dev": draw(st.sampled_from([5000, -2400, 1200])), "seed": draw(st.integers(0, 2 ** 31)),
            "kind": draw(st.sampled_from(["random", "ones", "zeros", "mostly ones"])), "total": total,
            "lens": draw(st.lists(st.integers(1, 700), max_size=12))}


def long_waveform(run, c):
    """a long transmission: same waveform for two different splits, and no drift of frequency against the reference"""
    w = run.worker()
    g = M.rng(c["seed"])
    p = {"random": 0.5, "ones": 1.0, "zeros": 0.0, "mostly ones": 0.95}[c["kind"]]
    data = np.packbits(g.random(c["total"] * 8) < p).astype(np.uint8)
    sps = np.float32(c["fs"] / c["baud"])
    sens = np.float32(2 * np.pi * c["dev"] / c["fs"])
    a = w.gfsk_mod(float(sps), float(sens), 0.5, len(data), [data])
    b = w.gfsk_mod(float(sps), float(sens), 0.5, len(data), M.split(data, c["lens"]))
    x, y = M.cat(a["out"], np.complex64), M.cat(b["out"], np.complex64)
    if len(x) != len(y):
        raise Violation("one message gives %d samples, %d messages give %d" % (len(x), len(b["out"]), len(y)))
    err = np.abs(x - y)
    tol = 2e-4 + 3e-6 * np.arange(len(x))
    bad = np.flatnonzero(~(err <= tol))
    if len(bad):
        raise Violation("the split into messages changes sample %d: %s / %s" % (bad[0], x[bad[0]], y[bad[0]]))
    # frequency: angle between consecutive samples equals the reference increment
    inc = np.angle(x[1:].astype(complex) * np.conj(x[:-1].astype(complex)))
    ref = float(sens) * M.gfsk_freq(data.tobytes(), float(sps))[1:]
    d = np.abs(np.angle(np.exp(1j * (inc - ref))))
    if not d.max() < 1e-4:
        i = int(d.argmax())
        raise Violation("frequency at sample %d: %g rad, reference %g rad" % (i + 1, inc[i], ref[i]))
    return c["kind"]


@st.composite
def over_cases(draw):
    maxbuf = draw(st.integers(1, 32))
    return {"maxbuf": maxbuf, "before": draw(st.binary(min_size=1, max_size=maxbuf)).hex(), "over": draw(st.integers(1, 40)),
            "after": draw(st.binary(min_size=1, max_size=maxbuf)).hex(), "fs": 9600, "baud": draw(st.sampled_from([1200, 2400, 4800]))}


def oversize(run, c):
    """a message larger than the buffer yields nothing and leaves the stream where it was"""
    w = run.worker()
    sps, sens = c["fs"] / c["baud"], 0.7
    a, b = bytes.fromhex(c["before"]), bytes.fromhex(c["after"])
    r = w.gfsk_mod(sps, sens, 0.5, c["maxbuf"], [np.frombuffer(a, np.uint8), np.full(c["maxbuf"] + c["over"], 0x5A, np.uint8), np.frombuffer(b, np.uint8)])
    if len(r["out"][1]):
        raise Violation("an oversize message produced %d samples" % len(r["out"][1]))
    got = M.cat(r["out"], np.complex64)
    ref = M.gfsk(a + b, sps, float(np.float32(sens)))
    if len(got) != len(ref) or not np.abs(got - ref).max() < 1e-3:
        raise Violation("the stream after an oversize message is not the continuation of the stream before it")
    return True


@st.composite
def larges(draw):
    """buffers of the size a real configuration has: more than 65536 samples at once"""
    fs, baud = draw(st.sampled_from([(9600, 4800), (38400, 9600), (48000, 9600), (57600, 4800), (48000, 1200)]))
    per = 8 * (fs // baud)
    return {"fs": fs, "baud": baud, "dev": draw(st.sampled_from([5000, -5000, 1200])), "bytes": draw(st.integers(65536 // per - 1, 200000 // per)), "seed": draw(st.integers(0, 2 ** 31)),
            "part": draw(st.integers(20, 700)), "twice": draw(st.booleans())}


def large(run, c):
    w = run.worker()
    x = np.random.default_rng(c["seed"]).integers(0, 256, c["bytes"], dtype=np.uint8)
    sps = np.float32(c["fs"] / c["baud"])
    sens = np.float32(2 * np.pi * c["dev"] / c["fs"])
    parts = [x[i:i + c["part"]] for i in range(0, len(x), c["part"])]
    one = [x[:100], x[100:]] if c["twice"] else [x]
    a = w.gfsk_mod(float(sps), float(sens), 0.5, len(x), one)
    b = w.gfsk_mod(float(sps), float(sens), 0.5, c["part"], parts)
    for r in (a, b):
        if r["code"] != 0 or r["leak"]:
            raise Violation("create %d, %d allocations left" % (r["code"], r["leak"]))
    a, b = M.cat(a["out"], np.complex64), M.cat(b["out"], np.complex64)
    if len(a) != len(x) * 8 * int(sps):
        raise Violation("a message of %d bytes gave %d samples, expected %d" % (len(x), len(a), len(x) * 8 * int(sps)))
    if len(b) != len(a):
        raise Violation("%d bytes in messages of %d gave %d samples, expected %d" % (len(x), c["part"], len(b), len(a)))
    bad = np.flatnonzero(~(np.abs(a - b) < 1e-3))
    if len(bad):
        raise Violation("sample %d of one large message is %s, %s when it comes in parts" % (bad[0], a[bad[0]], b[bad[0]]))
    return True


def main():
    return run_check(PID, [
        Sub("large", larges(), large, 25, 400),
        Sub("waveform", cases(), waveform, 1500, 40000, shards=3, tshards=6),
        Sub("long", long_cases(), long_waveform, 120, 4000, shards=2),
        Sub("oversize", over_cases(), oversize, 150, 3000),
    ], RULE, assumptions=["float64 reference of the GNU Radio gfsk_mod definition (BT 0.5, four symbols of Gaussian, floor(fs/baud) samples per bit)",
                          "plain-C VOLK kernels in place of the SIMD ones"])
