"""C08: frequency translation."""
import numpy as np
from hypothesis import strategies as st

from checks import gen
from vlib import models as M
from vlib.core import Sub, Violation, run_check

PID = "C08"
RULE = "a case is (sampling rate, amplitude, list of (frequency, block)); non-trivial when a non-zero signal was shifted by a non-zero frequency and compared sample by sample"


@st.composite
def cases(draw):
    fs = draw(st.sampled_from([48000, 9600, 100000, 528000, 2400000])) if draw(st.booleans()) else draw(st.integers(100, 4000000))
    maxbuf = draw(st.sampled_from([1, 3, 64, 200, 512]))
    f = st.one_of(st.integers(-fs // 2, fs // 2), st.sampled_from([0, 1, -1, fs // 2, -(fs // 2), fs // 4]), st.integers(-3 * fs, 3 * fs))
    same = draw(st.booleans())
    f0 = draw(f)
    steps = [[f0 if same else draw(f), draw(st.integers(1, maxbuf)), draw(st.booleans())] for _ in range(draw(st.integers(1, 12)))]
    return {"fs": fs, "amp": draw(st.sampled_from([1.0, 1.0, 0.5, 2.0])), "maxbuf": maxbuf, "steps": steps, "kind": draw(gen.KINDS), "seed": draw(st.integers(0, 2 ** 31))}


def shift(run, c):
    w = run.worker()
    total = sum(s[1] for s in c["steps"])
    x = gen.signal(c["kind"], total, c["seed"])
    steps, i, ref, ph = [], 0, [], 0.0
    worst = []
    drift = 0.0
    for f, n, mul in c["steps"]:
        blk = x[i:i + n]
        steps.append((f, blk if mul else n))
        k = np.arange(n)
        osc = c["amp"] * np.exp(1j * (ph + 2 * np.pi * ((f * k) % c["fs"]) / c["fs"]))
        ref.append(osc * blk if mul else osc)
        worst.append(drift + (1e-6 + 3e-7 * abs(f) / c["fs"]) * (k + 1))
        drift += (1e-6 + 3e-7 * abs(f) / c["fs"]) * n
        ph = (ph + 2 * np.pi * ((f * n) % c["fs"]) / c["fs"]) % (2 * np.pi)
        i += n
    r = w.sig(c["amp"], c["fs"], c["maxbuf"], steps)
    if r["code"] != 0 or r["leak"]:
        raise Violation("create %d, %d allocations left" % (r["code"], r["leak"]))
    for j, (o, e, t) in enumerate(zip(r["out"], ref, worst)):
        if len(o) != len(e):
            raise Violation("block %d: %d samples gave %d" % (j, len(e), len(o)))
        tol = (2e-4 + 3 * t) * (np.abs(e) + 0.01) + 1e-6
        bad = np.flatnonzero(~(np.abs(o - e) <= tol))
        if len(bad):
            b = int(bad[0])
            raise Violation("block %d (frequency %d of %d) sample %d: %s, reference %s" % (j, c["steps"][j][0], c["fs"], b, o[b], e[b]))
    return "one frequency" if len({s[0] for s in c["steps"]}) == 1 else "changing" if any(s[0] for s in c["steps"]) and np.any(x) else None


@st.composite
def longs(draw):
    fs = draw(st.sampled_from([48000, 9600, 100000]))
    return {"fs": fs, "f": draw(st.integers(-fs // 2, fs // 2)), "n": draw(st.integers(20000, 60000)), "lens": draw(gen.chunk_lens(5000, 20))}


def long_run(run, c):
    """no amplitude drift; the same stream whatever the blocks; the frequency itself is exact to 1e-6 of the rate"""
    w = run.worker()
    one = w.sig(1.0, c["fs"], c["n"], [(c["f"], c["n"])])["out"][0]
    lens, left = [], c["n"]
    for n in c["lens"]:
        if left:
            lens.append(min(n, left))
            left -= lens[-1]
    if left:
        lens.append(left)
    two = M.cat(w.sig(1.0, c["fs"], c["n"], [(c["f"], n) for n in lens])["out"], np.complex64)
    if np.abs(np.abs(one) - 1).max() > 1e-5:
        raise Violation("the amplitude drifts to %g" % np.abs(one)[np.abs(np.abs(one) - 1).argmax()])
    if len(one) != len(two) or np.abs(one - two).max() > 1e-2:
        raise Violation("the split into blocks changes the oscillator by %g" % np.abs(one - two).max())
    inc = np.angle(one[1:].astype(complex) * np.conj(one[:-1].astype(complex)))
    d = np.abs(np.angle(np.exp(1j * (inc - 2 * np.pi * c["f"] / c["fs"]))))
    if d.max() > 2e-5 or abs(np.angle(np.exp(1j * (inc - 2 * np.pi * c["f"] / c["fs"]))).mean()) > 2e-6:
        raise Violation("the oscillator runs at another frequency: off by up to %g rad per sample" % d.max())
    return c["f"] != 0


@st.composite
def oversizes(draw):
    m = draw(st.integers(1, 40))
    return {"maxbuf": m, "a": draw(st.integers(1, m)), "over": draw(st.integers(1, 50)), "f": draw(st.integers(1, 4000)), "seed": draw(st.integers(0, 2 ** 31))}


def oversize(run, c):
    w = run.worker()
    a = gen.signal("noise", c["a"], c["seed"])
    o = gen.signal("noise", c["maxbuf"] + c["over"], c["seed"] + 1)
    r1 = w.sig(1.0, 9600, c["maxbuf"], [(c["f"], a), (c["f"], o), (c["f"], a)])["out"]
    r2 = w.sig(1.0, 9600, c["maxbuf"], [(c["f"], a), (c["f"], a)])["out"]
    if len(r1[1]):
        raise Violation("a block above the maximum produced %d samples" % len(r1[1]))
    if not np.allclose(np.concatenate([r1[0], r1[2]]), np.concatenate(r2), atol=1e-6):
        raise Violation("a refused block moved the oscillator")
    return True


@st.composite
def larges(draw):
    """blocks of the size a real configuration has: more than 65536 samples"""
    n = draw(st.one_of(st.integers(65530, 65545), st.integers(66000, 300000)))
    fs = draw(st.sampled_from([48000, 240000]))
    return {"fs": fs, "amp": 1.0, "maxbuf": n, "steps": [[draw(st.integers(-fs // 2, fs // 2)), k, draw(st.booleans())] for k in draw(st.sampled_from([[n], [1, n], [n, 100]]))],
            "kind": draw(gen.KINDS), "seed": draw(st.integers(0, 2 ** 31))}


def main():
    return run_check(PID, [
        Sub("large", larges(), shift, 25, 400),
        Sub("shift", cases(), shift, 3000, 60000, shards=3, tshards=6),
        Sub("long", longs(), long_run, 150, 3000, shards=2),
        Sub("oversize", oversizes(), oversize, 200, 3000),
    ], RULE, assumptions=["float64 complex exponential as the reference; tolerance grows with the number of samples (single-precision phase accumulator)",
                          "plain-C VOLK kernels in place of the SIMD ones"])
