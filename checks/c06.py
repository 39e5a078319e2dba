"""C06: DC blocker."""
import numpy as np
from hypothesis import strategies as st

from checks import gen
from vlib import models as M
from vlib.core import Sub, Violation, run_check

PID = "C06"
RULE = "a case is (length, signal recipe, DC level, chunk lengths); non-trivial when a non-zero signal longer than the settling time of 4 lengths was compared with the float64 reference"


@st.composite
def cases(draw):
    length = draw(st.one_of(st.integers(2, 40), st.integers(2, 400)))
    return {"len": length, "n": draw(st.integers(1, 4 * length + 1500)), "kind": draw(gen.KINDS), "seed": draw(st.integers(0, 2 ** 31)),
            "amp": draw(st.sampled_from([1.0, 0.1, 3.0])), "dc": draw(st.sampled_from([0.0, 0.0, 1.0, -0.5, 5.0])), "lens": draw(gen.chunk_lens(512))}


def blocker(run, c):
    w = run.worker()
    x = gen.signal(c["kind"], c["n"], c["seed"], False, c["amp"]) + np.float32(c["dc"])
    r = w.dc_block(c["len"], M.split(x, c["lens"]))
    if r["code"] != 0 or r["leak"]:
        raise Violation("create %d, %d allocations left" % (r["code"], r["leak"]))
    got = M.cat(r["out"], np.float32).astype(float)
    if len(got) != len(x):
        raise Violation("%d samples gave %d outputs" % (len(x), len(got)))
    ref = M.dc_blocker(x, c["len"])
    tol = 1e-4 * (np.abs(x).max() + 0.1) + 4e-7 * np.arange(len(x)) * np.abs(x).max()
    bad = np.flatnonzero(~(np.abs(got - ref) <= tol))
    if len(bad):
        i = int(bad[0])
        raise Violation("output %d is %g, reference %g (length %d)" % (i, got[i], ref[i], c["len"]))
    return c["kind"] if np.any(x) and len(x) > 4 * c["len"] else None


@st.composite
def shifts(draw):
    length = draw(st.integers(2, 200))
    return {"len": length, "seed": draw(st.integers(0, 2 ** 31)), "dc": draw(st.sampled_from([1.0, -2.0, 0.25, 10.0])), "kind": draw(st.sampled_from(["noise", "steps", "tone"])), "lens": draw(gen.chunk_lens(300))}


def removal(run, c):
    """after the settling time a constant added to the input does not show, and the signal itself passes with the documented delay"""
    w = run.worker()
    n = 6 * c["len"] + 300
    s = gen.signal(c["kind"], n, c["seed"], False)
    a = M.cat(w.dc_block(c["len"], [s])["out"], np.float32)
    b = M.cat(w.dc_block(c["len"], M.split((s + np.float32(c["dc"])).astype(np.float32), c["lens"]))["out"], np.float32)
    k = 4 * c["len"]
    d = np.abs(a[k:] - b[k:]).max()
    if not d < 1e-3 * (1 + abs(c["dc"])):
        raise Violation("a DC level of %g leaves %g after settling" % (c["dc"], d))
    return True


def short(run, c):
    r = run.worker().dc_block(c["len"], [])
    if r["code"] == 0:
        r = run.worker().dc_block(c["len"], [np.ones(50, np.float32)])
    elif r["leak"]:
        raise Violation("%d allocations left after a refused length" % r["leak"])
    return True


@st.composite
def larges(draw):
    """blocks of the size a real configuration has: more than 65536 samples"""
    return {"len": draw(st.integers(2, 400)), "n": draw(st.one_of(st.integers(65530, 65545), st.integers(66000, 300000))), "kind": draw(gen.KINDS), "seed": draw(st.integers(0, 2 ** 31)), "amp": 1.0, "dc": draw(st.sampled_from([0.0, 1.0])),
            "lens": draw(st.sampled_from([[], [1], [100, 3]]))}


def main():
    return run_check(PID, [
        Sub("large", larges(), blocker, 25, 400),
        Sub("blocker", cases(), blocker, 2500, 50000, shards=3, tshards=6),
        Sub("removal", shifts(), removal, 500, 10000),
        Sub("degenerate", st.fixed_dictionaries({"len": st.integers(-2, 2)}), short, 10, 20),
    ], RULE, assumptions=["reference: GNU Radio dc_blocker_ff, long form (x delayed by 2(n-1) minus four moving averages)"])
