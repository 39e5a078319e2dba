"""C07: symbol clock recovery."""
import numpy as np
from hypothesis import strategies as st

from checks import gen
from vlib import models as M
from vlib.core import Sub, Violation, run_check

PID = "C07"
RULE = ("a case is (samples per symbol, loop gains, initial phase, stream recipe, block lengths); non-trivial when at least ten symbols of a non-zero stream "
        "were recovered and each was compared with the reference")


@st.composite
def cases(draw):
    maxbuf = draw(st.sampled_from([1, 2, 7, 8, 9, 64, 200, 1000, 4000]))
    sps = draw(st.one_of(st.floats(1.1, 4), st.floats(2, 30), st.floats(2, 30), st.floats(30, 300), st.sampled_from([2.0, 5.0, 10.0, 8.0, 16.0, 2.5])))
    sps = float(np.float32(round(sps, 4)))
    n = draw(st.integers(1, 3000 if maxbuf > 8 else 400))
    return {"sps": sps, "go": draw(st.sampled_from([sps * 0.0314159, 0.01, 0.0])), "mu": draw(st.sampled_from([0.5, 0.5, 0.0, 0.9, 1.0])),
            "gm": draw(st.sampled_from([0.0625, 0.0625, 0.175, 0.0])), "lim": draw(st.sampled_from([0.01, 0.005, 0.05, 0.0])),
            "maxbuf": maxbuf, "n": n, "kind": draw(st.sampled_from(["noise", "steps", "tone", "dc", "impulses", "symbols", "symbols", "symbols"])),
            "amp": draw(st.sampled_from([1.0, 1.0, 0.3, 1e-3])), "bad": draw(st.lists(st.tuples(st.integers(0, n - 1), st.sampled_from([0, 1, 2])), max_size=3)),
            "seed": draw(st.integers(0, 2 ** 31)), "lens": draw(gen.chunk_lens(maxbuf))}


def stream(c):
    if c["kind"] == "symbols":
        g = M.rng(c["seed"])
        nsym = int(c["n"] / c["sps"]) + 4
        bits = g.choice([-1.0, 1.0], nsym)
        pos = np.arange(c["n"]) / c["sps"] + g.uniform(0, 1)
        x = np.interp(pos * 16, np.arange(nsym * 16), np.convolve(np.repeat(bits, 16), np.hanning(17) / 8, "same")) * c["amp"]
        x = x.astype(np.float32)
    else:
        x = gen.signal(c["kind"], c["n"], c["seed"], False, c["amp"])
    for i, k in c["bad"] if c["kind"] in ("noise", "symbols", "tone") else ():
        x[i] = [np.nan, np.inf, -np.inf][k]
    return x


def pieces(x, lens, maxbuf):
    out = []
    for p in M.split(x, [min(n, maxbuf) for n in lens]):
        for i in range(0, len(p), maxbuf):
            out.append(p[i:i + maxbuf])
    return out


def tame(c, x):
    """the timing error cannot throw the loop back by more than it advances"""
    return c["sps"] * (1 - c["lim"]) - 4 * c["gm"] * np.abs(x[np.isfinite(x)]).max(initial=0) >= 1


def recover(run, c):
    w = run.worker()
    x = stream(c)
    ps = pieces(x, c["lens"], c["maxbuf"])
    r = w.clock(c["sps"], c["go"], c["mu"], c["gm"], c["lim"], c["maxbuf"], ps)
    if r["code"] != 0 or r["leak"]:
        raise Violation("create %d, %d allocations left" % (r["code"], r["leak"]))
    got = M.cat(r["out"], np.float32)
    if not tame(c, x):
        return None
    m = M.Clock(c["sps"], c["go"], c["mu"], c["gm"], c["lim"])
    for k, o in enumerate(got):
        if m.i + 8 > len(x):
            raise Violation("symbol %d comes from sample %d of %d" % (k, m.i, len(x)))
        v, near, top = m.value(x)
        if not np.isfinite(v):
            if o != 0:
                raise Violation("symbol %d is %g where the samples are not finite" % (k, o))
            m.step(0, False)
            continue
        if o == 0 and v != 0 and not np.isfinite(x[max(0, m.i - 8):m.i]).all():
            # aligned loads multiply a few earlier samples by zero weights: not a number stays not a number
            m.step(0, False)
            continue
        if not abs(float(o) - v) <= 2e-6 * top + 1.01 * near + 1e-12:
            raise Violation("symbol %d (sample %d + %.4f) is %g, the interpolation gives %g" % (k, m.i, m.mu, o, v))
        if abs(float(o) - v) > 2e-6 * top + 1e-12:
            # the same position, rounded the other way; fine while rare
            m.flips = getattr(m, "flips", 0) + 1
            if m.flips > 3 + len(got) // 20:
                raise Violation("symbol %d (sample %d + %.4f) is %g, the interpolation gives %g (%d symbols differ so)" % (k, m.i, m.mu, o, v, m.flips))
        m.step(o)
    if m.i + 8 <= len(x):
        raise Violation("%d samples gave %d symbols; the next at sample %d is missing" % (len(x), len(got), m.i))
    return c["kind"] if len(got) >= 10 and np.any(x) else None


@st.composite
def locks(draw):
    sps = float(np.float32(draw(st.one_of(st.floats(2, 12), st.floats(4, 40), st.sampled_from([2.0, 5.0, 10.0])))))
    maxbuf = draw(st.sampled_from([100, 1000, 3000]))
    return {"sps": sps, "err": draw(st.floats(-0.006, 0.006)), "phase": draw(st.floats(0, 1)), "nsym": draw(st.integers(250, 700)), "noise": draw(st.sampled_from([0.0, 0.0, 0.05, 0.1])),
            "maxbuf": maxbuf, "seed": draw(st.integers(0, 2 ** 31)), "lens": draw(gen.chunk_lens(maxbuf, 60))}


ACQ = 120


def lock(run, c):
    w = run.worker()
    g = M.rng(c["seed"])
    bits = g.integers(0, 2, c["nsym"])
    over = 32
    # unit-gain pulses: rectangles smoothed over 0.6 symbols
    sh = np.hanning(int(0.6 * over) + 3)[1:-1]
    wave = np.convolve(np.repeat(2.0 * bits - 1, over), sh / sh.sum(), "same")
    rate = c["sps"] * (1 + c["err"])
    n = int((c["nsym"] - 1) * rate)
    x = np.interp((np.arange(n) / rate + c["phase"]) * over, np.arange(len(wave)), wave)
    x = (x + c["noise"] * g.standard_normal(n)).astype(np.float32)
    r = w.clock(c["sps"], c["sps"] * np.pi / 100, 0.5, 0.0625, 0.01, c["maxbuf"], pieces(x, c["lens"], c["maxbuf"]))
    got = (M.cat(r["out"], np.float32) > 0).astype(int)
    # the loop locks to one symbol phase: find the shift on the middle, then everything after the acquisition must agree
    best = None
    for s in range(-6, 7):
        lo = max(ACQ, -s, ACQ - s)
        k = min(len(got), len(bits) - s) - lo
        if k <= 50:
            continue
        errs = np.flatnonzero(got[lo:lo + k] != bits[lo + s:lo + s + k])
        if best is None or len(errs) < best[0]:
            best = (len(errs), s, lo + int(errs[0]) if len(errs) else -1, k)
    if best is None:
        raise Violation("%d symbols gave %d values" % (c["nsym"], len(got)))
    if best[0]:
        raise Violation("%d of %d values after acquisition are wrong, first at %d (shift %d)" % (best[0], best[3], best[2], best[1]))
    if abs(len(got) - c["nsym"]) > 4 + abs(best[1]):
        raise Violation("%d symbols gave %d values" % (c["nsym"], len(got)))
    return True


@st.composite
def splits(draw):
    c = draw(cases())
    c["amp"] = draw(st.sampled_from([1.0, 1.0, 1.0, 0.1, 30.0, 1e4, 1e15, 1e30, 3e38]))
    c["sps"] = float(np.float32(draw(st.one_of(st.floats(0.3, 4), st.floats(1, 40), st.sampled_from([1.0, 0.5, 500.0, 5000.0])))))
    if draw(st.booleans()):
        c["bad"] = []
    c["lens2"] = draw(gen.chunk_lens(c["maxbuf"]))
    return c


def split(run, c):
    """any amplitude, any rate: memory-safe, and from one sample per symbol on the blocks do not matter"""
    w = run.worker()
    with np.errstate(all="ignore"):
        x = stream(c)
    a, b = [w.clock(c["sps"], c["go"], c["mu"], c["gm"], c["lim"], c["maxbuf"], pieces(x, l, c["maxbuf"])) for l in (c["lens"], c["lens2"])]
    for r in (a, b):
        if r["code"] != 0 or r["leak"]:
            raise Violation("create %d, %d allocations left" % (r["code"], r["leak"]))
        for o, p in zip(r["out"], pieces(x, c["lens"] if r is a else c["lens2"], c["maxbuf"])):
            if len(o) > c["maxbuf"]:
                raise Violation("a block of %d samples gave %d symbols" % (len(p), len(o)))
            if not np.isfinite(o).all():
                raise Violation("a symbol is not finite")
    ga, gb = M.cat(a["out"], np.float32), M.cat(b["out"], np.float32)
    ok = tame(c, x) and np.isfinite(x).all()
    if ok:
        if len(ga) != len(gb) or (len(ga) and np.abs(ga - gb).max() > 1e-6 * c["amp"]):
            raise Violation("two splits of the same stream gave %d and %d symbols, differing by %g" % (len(ga), len(gb), np.abs(ga[:min(len(ga), len(gb))] - gb[:min(len(ga), len(gb))]).max() if len(ga) and len(gb) else 0))
    return ("split" if ok else "extreme") if len(ga) > 5 else None


def taps(run, c):
    """the interpolator is the minimum mean squared error one"""
    w = run.worker()
    x = gen.signal(c["kind"], 40, c["seed"], False)
    r = w.mmse(x, [i / 128 for i in c["mu"]])
    if r["code"] != 0 or r["taps"] != 8:
        raise Violation("interpolator: code %s" % r)
    t = M.mmse_taps()
    for i, o in zip(c["mu"], r["out"]):
        ref = np.array([x[k:k + 8].astype(float) @ t[i] for k in range(len(x) - 7)])
        if np.abs(ref - o).max() > 1e-5 * np.abs(x).max() + 1e-9:
            raise Violation("interpolation at %d/128 is off by %g" % (i, np.abs(ref - o).max()))
    return True


@st.composite
def larges(draw):
    """blocks of the size a real configuration has: more than 65536 samples"""
    sps = float(np.float32(draw(st.one_of(st.floats(1.05, 3), st.sampled_from([1.0, 2.0, 2.5, 5.0, 10.0])))))
    n = draw(st.one_of(st.integers(65530, 65545), st.integers(66000, 300000)))
    return {"sps": sps, "go": draw(st.sampled_from([sps * 0.0314159, 0.0])), "mu": 0.5, "gm": draw(st.sampled_from([0.0625, 0.175])), "lim": 0.01, "maxbuf": n, "n": n,
            "kind": draw(st.sampled_from(["noise", "steps", "symbols"])), "amp": draw(st.sampled_from([1.0, 0.1])), "bad": [], "seed": draw(st.integers(0, 2 ** 31)),
            "lens": draw(st.sampled_from([[], [1], [100, 3]])), "lens2": [draw(st.integers(100, 5000))] * 3000}


def main():
    return run_check(PID, [
        Sub("large", larges(), split, 25, 400),
        Sub("recover", cases(), recover, 3000, 60000, shards=4, tshards=6),
        Sub("lock", locks(), lock, 600, 15000, shards=2),
        Sub("split", splits(), split, 2000, 40000, shards=2),
        Sub("interpolator", st.fixed_dictionaries({"kind": gen.KINDS, "seed": st.integers(0, 2 ** 31), "mu": st.lists(st.integers(0, 128), min_size=1, max_size=129, unique=True)}), taps, 150, 2000),
    ], RULE, assumptions=["reference: Mueller and Mueller recurrence in single precision fed with the system's own outputs, interpolator weights solved from the normal equations",
                          "acquisition is allowed the first %d symbols" % ACQ, "plain-C VOLK kernels in place of the SIMD ones"])
