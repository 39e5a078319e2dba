"""C03: what is modulated is what is demodulated."""
import numpy as np
from hypothesis import strategies as st

from checks import gen
from vlib import models as M
from vlib.core import Sub, Violation, run_check

PID = "C03"
RULE = ("a case is (rates, deviation, payload, block sizes on both sides, impairments); non-trivial when at least 200 soft bits after acquisition were compared "
        "with the payload")
ACQ = 150


@st.composite
def cases(draw, own):
    baud = draw(st.sampled_from([1200, 2400, 4800, 9600, 19200])) if draw(st.booleans()) else draw(st.integers(300, 20000))
    decim = draw(st.sampled_from([1, 1, 2, 3, 5]))
    sps = draw(st.sampled_from([4, 5, 8, 10, 16])) if own or draw(st.booleans()) else round(draw(st.floats(3.2, 16)), 2)
    fs = int(round(baud * sps * decim))
    h = draw(st.sampled_from([0.5, 0.5, 0.6, 1.0, 0.7]))
    dev = int(baud * h)
    dc = draw(st.booleans())
    c = {"fs": fs, "baud": baud, "decim": decim, "dev": dev, "tw": int(baud * draw(st.sampled_from([0.2, 0.4, 0.6]))), "dc": dc,
         "nbytes": draw(st.integers(70, 120)) + (50 if dc else 0), "seed": draw(st.integers(0, 2 ** 31)),
         "maxbuf": draw(st.sampled_from([64, 500, 2048])), "lens": draw(gen.chunk_lens(2048)),
         "err": draw(st.floats(-0.004, 0.004)), "delay": draw(st.floats(0, 1)), "phase": draw(st.floats(0, 6.28)),
         "freq": draw(st.floats(-0.15, 0.15)) * (1.5 if dc else 0.5), "snr": draw(st.sampled_from([0, 0, 25, 20, 18]))}
    if own:
        c.update(tx_maxbuf=draw(st.sampled_from([1, 7, 64, 200])), tx_lens=draw(gen.chunk_lens(200, 20)), invert=draw(st.booleans()))
    return c


def pieces(x, lens, maxbuf):
    out = []
    for p in M.split(x, [min(n, maxbuf) for n in lens]):
        for i in range(0, len(p), maxbuf):
            out.append(p[i:i + maxbuf])
    return out


BALANCED = [b for b in range(256) if bin(b).count("1") == 4]


def payload(c):
    g = M.rng(c["seed"])
    if c["dc"]:
        # the blocker removes the running mean of the data as well: no wander
        return bytes(BALANCED[k] for k in g.integers(0, len(BALANCED), c["nbytes"]))
    return g.integers(0, 256, c["nbytes"], dtype=np.uint8).tobytes()


def noisy(c, x):
    if c["snr"]:
        # in the band of the first filter
        band = min(1.0, 2 * (c["dev"] + c["baud"] / 2) / c["fs"])
        s = 10 ** (-c["snr"] / 20) / np.sqrt(band)
        g = M.rng(c["seed"] + 7)
        x = x + s * (g.standard_normal(len(x)) + 1j * g.standard_normal(len(x))) / np.sqrt(2)
    return x.astype(np.complex64)


def compare(c, bits, soft):
    got = (soft > 0).astype(int)
    acq = ACQ + (160 if c["dc"] else 0)
    best = None
    for s in range(-110, 20):
        # soft bit i corresponds to bit i + s
        lo = max(acq, acq - s, -s)
        k = min(len(got), len(bits) - s) - lo
        if k < 150:
            continue
        e = np.flatnonzero(got[lo:lo + k] != bits[lo + s:lo + s + k])
        if best is None or len(e) < best[0]:
            best = (len(e), s, lo + int(e[0]) if len(e) else -1, k)
    if best is None:
        raise Violation("%d bits gave %d soft bits" % (len(bits), len(soft)))
    if best[0]:
        raise Violation("%d of %d bits are wrong after acquisition, first at soft bit %d (alignment %d)" % (best[0], best[3], best[2], best[1]))
    return best


def loop(run, c):
    w = run.worker()
    data = payload(c)
    chunks = []
    for p in M.split(data, [min(n, c["tx_maxbuf"]) for n in c["tx_lens"]]):
        chunks += [list(p[i:i + c["tx_maxbuf"]]) for i in range(0, len(p), c["tx_maxbuf"])]
    dev = -c["dev"] if c["invert"] else c["dev"]
    r = w.gfsk_mod(c["fs"] / c["baud"], 2 * np.pi * dev / c["fs"], 0.5, c["tx_maxbuf"], chunks)
    if r["code"] != 0:
        raise Violation("the modulator cannot be created (%d)" % r["code"])
    x = M.cat(r["out"], np.complex64)
    n = np.arange(len(x))
    # the receiver's carrier phase, frequency and clock differ
    y = x * np.exp(1j * (c["phase"] + 2 * np.pi * c["freq"] * c["dev"] / c["fs"] * n))
    pos = n * (1 + c["err"]) + c["delay"] * c["fs"] / c["baud"]
    pos = pos[pos <= len(x) - 1]
    y = np.interp(pos, n, y.real) + 1j * np.interp(pos, n, y.imag) if c["fs"] / c["baud"] >= 8 else y
    r = w.fsk_demod(c["fs"], c["baud"], dev, c["decim"], c["tw"], c["dc"], c["maxbuf"], pieces(noisy(c, y), c["lens"], c["maxbuf"]))
    if r["code"] != 0:
        raise Violation("the demodulator cannot be created (%d)" % r["code"])
    best = compare(c, M.bits_msb(data), M.cat(r["out"], np.int8))
    return "inverted" if c["invert"] else "loop" if best[3] >= 200 else None


def receive(run, c):
    """an ideal transmitter, any number of samples per symbol"""
    w = run.worker()
    bits, x = gen.gfsk_samples(c["seed"], c["nbytes"], c["fs"], c["baud"] * (1 + c["err"]), c["dev"], freq=c["freq"] * c["dev"], delay=c["delay"], phase=c["phase"], data=payload(c))
    r = w.fsk_demod(c["fs"], c["baud"], c["dev"], c["decim"], c["tw"], c["dc"], c["maxbuf"], pieces(noisy(c, x), c["lens"], c["maxbuf"]))
    if r["code"] != 0:
        raise Violation("the demodulator cannot be created (%d)" % r["code"])
    soft = M.cat(r["out"], np.int8)
    best = compare(c, bits, soft)
    if abs(len(soft) - len(x) * c["baud"] * (1 + c["err"]) / c["fs"]) > 0.012 * len(soft) + 5:
        raise Violation("%g symbols gave %d soft bits" % (len(x) * c["baud"] / c["fs"], len(soft)))
    # amplitude of a soft bit: the deviation is about full scale
    a = np.abs(soft[ACQ + (160 if c["dc"] else 0):].astype(int))
    if not 30 <= np.median(a) <= 127:
        raise Violation("the median soft bit is %g" % np.median(a))
    return "fractional" if (c["fs"] / c["baud"]) % 1 else "whole" if best[3] >= 200 else None


def main():
    return run_check(PID, [
        Sub("loop", cases(True), loop, 700, 15000, shards=4, tshards=6),
        Sub("receive", cases(False), receive, 700, 15000, shards=4, tshards=6),
    ], RULE, assumptions=["bit errors are demanded to be zero at 18 dB and more in the band of the receiver, after %d symbols (longer with the DC blocker)" % ACQ,
                          "plain-C VOLK kernels in place of the SIMD ones"])
