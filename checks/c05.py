"""C05: quadrature demodulator."""
import numpy as np
from hypothesis import strategies as st

from checks import gen
from vlib import models as M
from vlib.core import Sub, Violation, run_check

PID = "C05"
RULE = ("a case is (gain, signal recipe, chunk lengths); non-trivial when the demodulated phase differences of a non-zero signal were compared with "
        "the float64 angle for every sample")


@st.composite
def cases(draw):
    maxbuf = draw(st.sampled_from([1, 2, 5, 64, 100, 512, 1000]))
    return {"gain": draw(st.sampled_from([1.0, 0.5, 2.0, -1.0, 1.5278874])) if draw(st.booleans()) else round(draw(st.floats(-50, 50)), 4),
            "maxbuf": maxbuf, "n": draw(st.integers(1, 1500 if maxbuf > 4 else 200)), "kind": draw(gen.KINDS), "amp": draw(st.sampled_from([1.0, 1e-3, 100.0, 1e-6, 1e6])),
            "seed": draw(st.integers(0, 2 ** 31)), "lens": draw(gen.chunk_lens(maxbuf))}


def pieces(x, lens, maxbuf):
    out = []
    for p in M.split(x, [min(n, maxbuf) for n in lens]):
        for i in range(0, len(p), maxbuf):
            out.append(p[i:i + maxbuf])
    return out


def demod(run, c):
    w = run.worker()
    x = gen.signal(c["kind"], c["n"], c["seed"], True, c["amp"])
    r = w.quad_demod(c["gain"], c["maxbuf"], pieces(x, c["lens"], c["maxbuf"]))
    if r["code"] != 0 or r["leak"]:
        raise Violation("create %d, %d allocations left" % (r["code"], r["leak"]))
    got = M.cat(r["out"], np.float32).astype(float)
    if len(got) != len(x):
        raise Violation("%d samples gave %d outputs" % (len(x), len(got)))
    gain = float(np.float32(c["gain"]))
    ref = M.quad_demod(x, 1.0)
    # a product of two samples can underflow to nothing; angles are compared modulo a turn
    prod = np.abs(x) * np.abs(np.concatenate([[0], x[:-1]]))
    g = got / gain if gain else got
    d = np.abs(np.angle(np.exp(1j * (g - ref))))
    bad = np.flatnonzero(~((d < 1e-3) | (prod < 1e-30)))
    if gain == 0:
        bad = np.flatnonzero(got != 0)
    if len(bad):
        i = int(bad[0])
        raise Violation("output %d is %g = gain * %g, the phase difference is %g" % (i, got[i], g[i], ref[i]))
    if (np.abs(g) > np.pi + 1e-3).any():
        raise Violation("a phase outside [-pi, pi]")
    z = np.flatnonzero((prod == 0) & (got != 0))
    if len(z):
        raise Violation("output %d is %g for a zero product" % (z[0], got[z[0]]))
    return c["kind"] if np.any(x) else None


@st.composite
def tones(draw):
    fs = draw(st.sampled_from([48000, 9600, 192000]))
    return {"fs": fs, "dev": draw(st.sampled_from([5000, 2400, 1200, -5000, 600])), "f": round(draw(st.floats(-0.45, 0.45)), 4), "n": draw(st.integers(3, 300)),
            "phase": round(draw(st.floats(0, 6.28)), 3), "amp": draw(st.sampled_from([0.01, 1.0, 7.0]))}


def tone(run, c):
    """a carrier at f Hz reads f/deviation, at every amplitude and phase"""
    w = run.worker()
    x = c["amp"] * np.exp(1j * (2 * np.pi * c["f"] * np.arange(c["n"]) + c["phase"]))
    gain = c["fs"] / (2 * np.pi * c["dev"])
    r = w.quad_demod(gain, c["n"], [x.astype(np.complex64)])
    got = r["out"][0][1:]
    want = c["f"] * c["fs"] / c["dev"]
    if np.abs(got - want).max() > 1e-3 * abs(gain) + 1e-6:
        raise Violation("a tone at %g of the sampling rate reads %g, expected %g" % (c["f"], got[np.abs(got - want).argmax()], want))
    return abs(c["f"]) > 0.001


def half_open(y, x, got):
    """(-pi, pi]: the half turn is the positive one, and the sign of the angle is the sign of y"""
    i = np.flatnonzero(((y == 0) & (x < 0) & ~(got > 3.14)) | ((y > 0) & ~(got >= 0)) | ((y < 0) & ~(got <= 0)))
    if len(i):
        raise Violation("atan2(%g, %g) = %g" % (y[i[0]], x[i[0]], got[i[0]]))


@st.composite
def reals(draw):
    return {"gain": draw(st.sampled_from([1.0, 2.0, 0.5, 1.5278874])), "v": draw(st.lists(st.one_of(st.sampled_from([1.0, -1.0, 0.5, -3.0]), st.floats(0.01, 100).map(lambda v: round(v, 3)), st.floats(0.01, 100).map(lambda v: -round(v, 3))), min_size=2, max_size=60)),
            "axis": draw(st.sampled_from(["real", "imag"])), "maxbuf": draw(st.sampled_from([1, 3, 64])), "lens": draw(gen.chunk_lens(8))}


def real(run, c):
    """samples on one axis: every phase advance is nothing or exactly half a turn, which counts as positive"""
    x = np.array(c["v"], np.complex64)
    if c["axis"] == "imag":
        x = np.array([complex(0, v) for v in c["v"]], np.complex64)
    r = run.worker().quad_demod(c["gain"], c["maxbuf"], pieces(x, c["lens"], c["maxbuf"]))
    got = M.cat(r["out"], np.float32).astype(float)
    flips = np.sign(np.array(c["v"][1:])) != np.sign(np.array(c["v"][:-1]))
    want = np.where(flips, np.pi * np.float32(c["gain"]), 0.0)
    bad = np.flatnonzero(~(np.abs(got[1:] - want) < 1e-3 * c["gain"]))
    if len(got) != len(x) or len(bad):
        raise Violation("samples %s on the %s axis: output %s" % (c["v"], c["axis"], got[:bad[0] + 2 if len(bad) else 3]))
    return bool(flips.any())


@st.composite
def angles(draw):
    v = st.one_of(st.floats(-1e3, 1e3, width=32), st.floats(-1, 1, width=32), st.sampled_from([0.0, 1.0, -1.0, 1e-20, -1e-20, 1e20, -1e20, 0.003, -0.0]))
    pts = draw(st.lists(st.tuples(v, v), min_size=1, max_size=60))
    return {"pts": [[float(a), float(b)] for a, b in pts]}


def atan(run, c):
    y = np.array([p[0] for p in c["pts"]], np.float32)
    x = np.array([p[1] for p in c["pts"]], np.float32)
    got = run.worker().atan2_many(y.tolist(), x.tolist())
    ref = np.arctan2(y.astype(float), x.astype(float))
    ref[(y == 0) & (x == 0)] = 0
    d = np.abs(np.angle(np.exp(1j * (got.astype(float) - ref))))
    bad = np.flatnonzero(~(d < 1e-4))
    if len(bad):
        i = bad[0]
        raise Violation("atan2(%g, %g) = %g, expected %g" % (y[i], x[i], got[i], ref[i]))
    half_open(y, x, got)
    return bool(np.any((x != 0) & (y != 0)))


@st.composite
def sweeps(draw):
    return {"start": round(draw(st.floats(-3.2, 3.2)), 5), "r": draw(st.sampled_from([1.0, 1e-3, 250.0])), "k": draw(st.integers(50, 400))}


def sweep(run, c):
    a = c["start"] + np.arange(c["k"]) * 0.0171
    y, x = (c["r"] * np.sin(a)).astype(np.float32), (c["r"] * np.cos(a)).astype(np.float32)
    got = run.worker().atan2_many(y.tolist(), x.tolist())
    d = np.abs(np.angle(np.exp(1j * (got.astype(float) - np.arctan2(y.astype(float), x.astype(float))))))
    if not d.max() < 1e-4:
        i = int(d.argmax())
        raise Violation("angle of (%g, %g) = %g" % (x[i], y[i], got[i]))
    half_open(y, x, got)
    return True


@st.composite
def larges(draw):
    """blocks of the size a real configuration has: more than 65536 samples"""
    n = draw(st.one_of(st.integers(65530, 65545), st.integers(66000, 300000)))
    return {"gain": draw(st.sampled_from([1.0, 1.5278874])), "maxbuf": n, "n": n + draw(st.integers(0, 1000)), "kind": draw(gen.KINDS), "amp": 1.0, "seed": draw(st.integers(0, 2 ** 31)),
            "lens": draw(st.sampled_from([[], [1], [100, 3]]))}


def main():
    return run_check(PID, [
        Sub("large", larges(), demod, 25, 400),
        Sub("demod", cases(), demod, 2500, 60000, shards=2, tshards=6),
        Sub("tone", tones(), tone, 600, 10000),
        Sub("real", reals(), real, 400, 8000),
        Sub("atan", angles(), atan, 1000, 20000),
        Sub("sweep", sweeps(), sweep, 400, 8000),
    ], RULE, assumptions=["numpy angle as the reference, 1e-3 rad", "plain-C VOLK kernels in place of the SIMD ones"])
