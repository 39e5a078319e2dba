"""C04: low pass filter."""
import numpy as np
from hypothesis import strategies as st

from checks import gen
from vlib import models as M
from vlib.core import Sub, Violation, run_check

PID = "C04"
RULE = ("a case is (sampling rate, cutoff, transition width, decimation, real/complex, signal recipe, chunk lengths) or a filter design; "
        "non-trivial when the output was compared with the float64 convolution on at least one non-zero sample, or the design's whole response was measured")


@st.composite
def designs(draw):
    fs = draw(st.sampled_from([48000, 9600, 192000, 240000, 50000, 8000])) if draw(st.booleans()) else draw(st.integers(1000, 2000000))
    cutoff = draw(st.integers(max(1, fs // 200), fs // 2))
    tw = draw(st.integers(max(1, fs // 400), max(2, fs // 2)))
    if draw(st.integers(0, 15)) == 0:
        tw = draw(st.integers(fs // 2, 4 * fs))
    return {"fs": fs, "cutoff": cutoff, "tw": tw, "gain": draw(st.sampled_from([1.0, 1.0, 2.0, 0.5]))}


def design(run, c):
    r = run.worker().lp_taps(c["gain"], c["fs"], c["cutoff"], c["tw"])
    if r["code"] != 0:
        raise Violation("a valid design is refused")
    h = r["taps"].astype(float)
    ref = M.lowpass_taps(c["gain"], c["fs"], c["cutoff"], c["tw"])
    if len(h) % 2 == 0:
        raise Violation("even number of taps: %d" % len(h))
    if not np.all(np.isfinite(h)):
        raise Violation("taps are not finite")
    if np.abs(h - h[::-1]).max() > 1e-5 * np.abs(h).max():
        raise Violation("not linear phase")
    if abs(h.sum() - c["gain"]) > 1e-3 * c["gain"]:
        raise Violation("gain at DC is %g, expected %g" % (h.sum(), c["gain"]))
    if abs(len(h) - len(ref)) > 2:
        raise Violation("%d taps, the 53 dB rule gives %d" % (len(h), len(ref)))
    if len(h) == len(ref) and np.abs(h - ref).max() > 2e-5 * np.abs(ref).max():
        raise Violation("taps differ from the windowed-sinc design by %g" % np.abs(h - ref).max())
    # the response itself
    tw, cut, fs = c["tw"], c["cutoff"], c["fs"]
    if cut >= 2 * tw and cut + 1.1 * tw < fs / 2:
        n = 1 << int(np.ceil(np.log2(len(h) * 8)))
        H = np.abs(np.fft.rfft(h, n)) / c["gain"]
        f = np.arange(len(H)) * fs / n
        p = H[f <= cut - tw]
        s = H[f >= cut + tw]
        if len(p) and np.abs(p - 1).max() > 0.02:
            raise Violation("pass band deviates by %g" % np.abs(p - 1).max())
        if len(s) and s.max() > 10 ** (-45 / 20):
            raise Violation("stop band at %.1f dB" % (20 * np.log10(s.max())))
        return "response"
    return "taps"


@st.composite
def filters(draw):
    c = draw(designs())
    if c["fs"] / c["tw"] > 120:
        c["tw"] = max(1, c["fs"] // 120)
    del c["gain"]
    c["cplx"] = draw(st.booleans())
    c["decim"] = draw(st.one_of(st.integers(1, 8), st.just(1), st.integers(1, 255)))
    c["maxbuf"] = draw(st.sampled_from([1, 2, 7, 64, 100, 512, 1000]))
    c["n"] = draw(st.integers(1, 1500 if c["maxbuf"] > 4 else 300))
    c["kind"] = draw(gen.KINDS)
    c["seed"] = draw(st.integers(0, 2 ** 31))
    c["lens"] = draw(gen.chunk_lens(c["maxbuf"]))
    return c


def pieces(x, lens, maxbuf):
    out = []
    for p in M.split(x, [min(n, maxbuf) for n in lens]):
        for i in range(0, len(p), maxbuf):
            out.append(p[i:i + maxbuf])
    return out


def stream(run, c):
    w = run.worker()
    x = gen.signal(c["kind"], c["n"], c["seed"], c["cplx"])
    ch = pieces(x, c["lens"], c["maxbuf"])
    r = w.lpf(c["decim"], c["fs"], c["cutoff"], c["tw"], c["maxbuf"], c["cplx"], ch)
    if r["code"] != 0:
        raise Violation("a valid filter is refused")
    if r["leak"]:
        raise Violation("%d allocations left after destroy" % r["leak"])
    got = M.cat(r["out"], x.dtype)
    h = w.lp_taps(1.0, c["fs"], c["cutoff"], c["tw"])["taps"].astype(float)
    ref = M.fir_decim(x.astype(complex if c["cplx"] else float), h, c["decim"])
    if len(got) != len(ref):
        raise Violation("%d samples in chunks of %s gave %d outputs, expected %d" % (len(x), [len(p) for p in ch][:20], len(got), len(ref)))
    err = np.abs(got - ref)
    tol = 2e-5 * (np.abs(h).sum() * np.abs(x).max() + 1e-3)
    bad = np.flatnonzero(~(err <= tol))
    if len(bad):
        raise Violation("output %d is %s, the convolution gives %s" % (bad[0], got[bad[0]], ref[bad[0]]))
    if not np.any(x):
        return None
    return ("complex" if c["cplx"] else "real") + (" decimating" if c["decim"] > 1 else "")


@st.composite
def firs(draw):
    n = draw(st.integers(1, 60))
    maxbuf = draw(st.sampled_from([1, 3, 16, 100, 400]))
    return {"taps_seed": draw(st.integers(0, 2 ** 31)), "ntaps": n, "decim": draw(st.one_of(st.integers(1, 6), st.integers(1, 255))), "cplx": draw(st.booleans()), "maxbuf": maxbuf,
            "n": draw(st.integers(1, 800 if maxbuf > 2 else 200)), "kind": draw(gen.KINDS), "seed": draw(st.integers(0, 2 ** 31)),
            "lens": draw(gen.chunk_lens(maxbuf))}


def fir(run, c):
    w = run.worker()
    x = gen.signal(c["kind"], c["n"], c["seed"], c["cplx"])
    h = M.rng(c["taps_seed"]).standard_normal(c["ntaps"]).astype(np.float32)
    r = w.fir(c["decim"], h, c["maxbuf"], c["cplx"], pieces(x, c["lens"], c["maxbuf"]))
    if r["code"] != 0:
        raise Violation("a valid filter is refused")
    if r["leak"]:
        raise Violation("%d allocations left after destroy" % r["leak"])
    got = M.cat(r["out"], x.dtype)
    ref = M.fir_decim(x.astype(complex if c["cplx"] else float), h.astype(float), c["decim"])
    if len(got) != len(ref):
        raise Violation("%d samples gave %d outputs, expected %d" % (len(x), len(got), len(ref)))
    tol = 2e-5 * (np.abs(h).sum() * np.abs(x).max() + 1e-3)
    if not (np.abs(got - ref) <= tol).all():
        i = int(np.argmax(~(np.abs(got - ref) <= tol)))
        raise Violation("output %d is %s, the convolution gives %s" % (i, got[i], ref[i]))
    return bool(np.any(x))


@st.composite
def invalid(draw):
    fs = draw(st.integers(1, 1000000))
    kind = draw(st.sampled_from(["cutoff0", "cutoff high", "tw0", "fs0", "decim0"]))
    c = {"kind": kind, "fs": fs, "cutoff": max(1, fs // 4), "tw": max(1, fs // 10), "decim": draw(st.integers(1, 255)), "cplx": draw(st.booleans()), "over": draw(st.integers(1, 100000))}
    return c


def refused(run, c):
    fs, cutoff, tw, decim = c["fs"], c["cutoff"], c["tw"], c["decim"]
    if c["kind"] == "cutoff0":
        cutoff = 0
    elif c["kind"] == "cutoff high":
        cutoff = fs // 2 + c["over"]
    elif c["kind"] == "tw0":
        tw = 0
    elif c["kind"] == "fs0":
        fs = 0
    else:
        decim = 0
    r = run.worker().lpf(decim, fs, cutoff, tw, 64, c["cplx"], [])
    if r["code"] == 0:
        raise Violation("%s is accepted" % c["kind"])
    if r["leak"]:
        raise Violation("%d allocations left after the refusal" % r["leak"])
    return c["kind"]


@st.composite
def oversizes(draw):
    m = draw(st.integers(1, 50))
    return {"maxbuf": m, "a": draw(st.integers(1, m)), "over": draw(st.integers(1, 60)), "b": draw(st.integers(1, m)), "decim": draw(st.integers(1, 5)), "cplx": draw(st.booleans()), "seed": draw(st.integers(0, 1 << 31))}


def oversize(run, c):
    a = gen.signal("noise", c["a"], c["seed"], c["cplx"])
    b = gen.signal("noise", c["b"], c["seed"] + 1, c["cplx"])
    o = gen.signal("noise", c["maxbuf"] + c["over"], c["seed"] + 2, c["cplx"])
    h = M.rng(7).standard_normal(9).astype(np.float32)
    w = run.worker()
    r1 = w.fir(c["decim"], h, c["maxbuf"], c["cplx"], [a, o, b])
    r2 = w.fir(c["decim"], h, c["maxbuf"], c["cplx"], [a, b])
    if len(r1["out"][1]):
        raise Violation("a buffer above the maximum produced output")
    if not np.allclose(M.cat(r1["out"], a.dtype), M.cat(r2["out"], a.dtype), atol=1e-6):
        raise Violation("a refused buffer changed the stream")
    return True


@st.composite
def larges(draw):
    """blocks of the size a real configuration has: more than 65536 samples"""
    n = draw(st.one_of(st.integers(65530, 65545), st.integers(66000, 300000)))
    k = draw(st.integers(1, 60))
    return {"taps_seed": draw(st.integers(0, 2 ** 31)), "ntaps": k, "decim": draw(st.sampled_from([1, 1, 1, 2, 2, 3, 255])), "cplx": draw(st.booleans()), "maxbuf": n, "n": n + draw(st.integers(0, 5000)),
            "kind": draw(gen.KINDS), "seed": draw(st.integers(0, 2 ** 31)), "lens": draw(st.sampled_from([[], [1], [100, 3]]))}


def main():
    return run_check(PID, [
        Sub("large", larges(), fir, 40, 600),
        Sub("stream", filters(), stream, 2500, 60000, shards=3, tshards=6),
        Sub("fir", firs(), fir, 2000, 40000, shards=2),
        Sub("design", designs(), design, 1500, 30000),
        Sub("refused", invalid(), refused, 300, 5000),
        Sub("oversize", oversizes(), oversize, 200, 3000),
    ], RULE, assumptions=["float64 numpy convolution as the reference", "plain-C VOLK kernels in place of the SIMD ones"])
