"""C09: Doppler correction."""
import calendar
import datetime
import math
import time

import numpy as np
from hypothesis import strategies as st

from checks import gen
from checks.c10 import elements
from vlib import models as M
from vlib import orbit
from vlib.core import Skip, Sub, Violation, run_check

PID = "C09"
RULE = ("a case is (element set, station, start time, centre frequency, sampling rate, offset, direction, blocks); non-trivial when the satellite's shift changes by more "
        "than the tolerance over the session or at least one second boundary was crossed with a non-zero shift")
UNIX = 2440587.5
KINDS = ("leo", "leo", "leo", "ell", "heo", "gps", "geo")


@st.composite
def cases(draw, long=False, tx=None):
    t = draw(elements(KINDS))
    t["yy"] = draw(st.one_of(st.integers(71, 99), st.integers(0, 55), st.sampled_from([20, 24, 26])))
    fs = draw(st.sampled_from([100, 128, 200])) if long else draw(st.one_of(st.sampled_from([1000, 4800, 9600, 48000]), st.integers(300, 60000)))
    maxbuf = draw(st.one_of(st.integers(1, 16), st.sampled_from([fs // 8, fs // 16, fs // 4, 3 * fs // 2, 2 * fs, fs, fs + 1, fs - 1, 1000])).map(lambda v: max(1, v)))
    c = {"tle": t, "fs": fs, "maxbuf": maxbuf, "center": draw(st.sampled_from([137500000, 145900000, 145900000, 435000000] + ([] if fs < 1000 else [437525000, 1296000000, 2215000000]))),
         "days": draw(st.floats(-8, 8)), "lat": draw(st.floats(-89, 89)), "lon": draw(st.floats(-180, 180)), "alt": draw(st.floats(0, 5)),
         "below": draw(st.one_of(st.none(), st.floats(-300, 600))), "tx": draw(st.booleans()) if tx is None else tx,
         "seed": draw(st.integers(0, 2 ** 31)), "kind": draw(st.sampled_from(["dc", "phase"]))}
    c["offset"] = draw(st.one_of(st.just(0), st.integers(-fs, fs), st.integers(-20000, 20000))) if c["tx"] else 0
    secs = draw(st.integers(200, 900)) if long else draw(st.floats(0.2, 6))
    c["n"] = min(int(secs * fs), 150000)
    c["cut"] = draw(st.sampled_from(["full", "full", "random", "tiny"]))
    c["oversize"] = draw(st.booleans())
    return c


def chunks_of(c, n=None):
    n = c["n"] if n is None else n
    g = M.rng(c["seed"])
    left, out = n, []
    tiny = min(n, 3000) if c["cut"] == "tiny" else 0
    while left > 0:
        if c["cut"] == "full":
            k = c["maxbuf"]
        elif c["cut"] == "tiny" and n - left < tiny:
            k = int(g.integers(1, min(c["maxbuf"], 8) + 1))
        else:
            k = int(g.integers(1, c["maxbuf"] + 1))
        out.append(min(k, left))
        left -= out[-1]
    return out


def setup(c, start=None):
    """the orbit, the start time (seconds since 1970), the station"""
    lines = orbit.make_tle(c["tle"])
    try:
        o = orbit.Orbit(lines)
    except (ValueError, ZeroDivisionError, OverflowError):
        raise Skip("no orbit")
    if o.perigee < 130:
        raise Skip("perigee inside the atmosphere")
    if start is None:
        start = int((o.jd_epoch - UNIX) * 86400 + c["days"] * 86400)
    if start < 1 or start > 2745532799:
        raise Skip("start outside 1970-2056")
    lat, lon = c["lat"], c["lon"]
    if c["below"] is not None:
        jd = UNIX + (start + c["below"]) / 86400.0
        s = o.state((jd - o.jd_epoch) * 1440)
        if s is None:
            raise Skip("decayed")
        x, y, z = s[0]
        lat = math.degrees(math.atan2(z, math.hypot(x, y)))
        lon = (math.degrees(math.atan2(y, x) - orbit.gmst(jd)) + 180) % 360 - 180
    return lines, start, lat, lon


def shifts(lines, c, start, lat, lon, secs):
    """the shift at every whole second, and how well it is known"""
    def one(cache):
        o = orbit.Orbit(lines, cache)
        rs, slack = [], 1.0
        for k in range(secs + 1):
            r = o.range_rate(UNIX + (start + k) / 86400.0, lat, lon, c["alt"])
            if r is None:
                raise Skip("decayed")
            rs.append(r)
            slack = max(slack, 1 / max(0.02, o.kepler_margin))
        return np.array(rs), slack, o
    rr, slack, o = one(True)
    d = 0.0
    if o.deep:
        d = float(np.abs(one(False)[0] - rr).max())
    t = abs((UNIX + start / 86400.0 - o.jd_epoch) * 1440)
    tv = (6e-5 + 1e-7 * t) * slack ** 1.5 + d
    sign = -1 if c["tx"] else 1
    return sign * c["center"] * rr / orbit.C_KM + c["offset"], c["center"] / orbit.C_KM * tv


def signal(c):
    if c["kind"] == "dc":
        return np.ones(c["n"], np.complex64)
    return np.exp(2j * np.pi * M.rng(c["seed"] + 1).random(c["n"])).astype(np.complex64)


def judge(c, out, x, f, extra, lens, clock=0.0):
    fs = c["fs"]
    n = len(x)
    y = out.astype(complex) * np.conj(x.astype(complex)) / np.abs(x.astype(complex)) ** 2
    if not np.all(np.abs(np.abs(y) - 1) < 1e-3):
        b = int(np.flatnonzero(~(np.abs(np.abs(y) - 1) < 1e-3))[0])
        raise Violation("sample %d: the correction has modulus %s" % (b, abs(y[b])))
    if n < 2:
        return
    inst = np.angle(y[1:] * np.conj(y[:-1])) * fs / (2 * np.pi)
    k = np.arange(n - 1)
    sec = k // fs
    slope = np.diff(f)
    want = f[sec] + slope[sec] * (k % fs) / fs
    rate = np.abs(slope).max()
    block = min(max(lens), fs)
    tol = np.abs(slope)[sec] * block / fs + 1.05 + 0.01 * rate + extra + 1.5e-6 * fs + 1e-6 * np.abs(want) + rate * (1e-6 * k / fs + clock)
    if tol.max() > fs / 6:
        raise Skip("sampling rate too low for this shift")
    err = np.abs((inst - want + fs / 2) % fs - fs / 2)
    bad = np.flatnonzero(~(err <= tol))
    if len(bad):
        b = int(bad[0])
        raise Violation("sample %d (%.4f s): correction frequency %.3f Hz (mod %d), satellite says %.3f Hz, allowed %.3f; %d samples wrong" % (
            b, b / fs, inst[b], fs, want[b], tol[b], len(bad)))
    # the oscillator is not restarted: over a second the mean frequency is right to well within one Hz plus half a block
    return "pass" if f.min() * f.max() < 0 else "moving" if abs(f[-1] - f[0]) > 2 else "slow"


def follows(run, c):
    lines, start, lat, lon = setup(c)
    f, extra = shifts(lines, c, start, lat, lon, int(math.ceil(c["n"] / c["fs"])) + 1)
    x = signal(c)
    lens = chunks_of(c)
    chunks, i = [], 0
    big = len(lens) // 2 if c["oversize"] else -1
    for j, m in enumerate(lens):
        if j == big:
            chunks.append(np.ones(c["maxbuf"] + 1, np.complex64))
            chunks.append(np.zeros(0, np.complex64))
        chunks.append(x[i:i + m])
        i += m
    r = run.worker().doppler(lat, lon, c["alt"], c["fs"], c["center"], c["offset"], start, c["maxbuf"], lines, "tx" if c["tx"] else "rx", chunks)
    if r["code"] != 0 or r["leak"]:
        raise Violation("create %d, %d allocations left" % (r["code"], r["leak"]))
    outs = list(r["out"])
    if big >= 0:
        if len(outs[big]) or len(outs[big + 1]):
            raise Violation("a block above the maximum or an empty block gave %d / %d samples" % (len(outs[big]), len(outs[big + 1])))
        del outs[big:big + 2]
    for m, o in zip(lens, outs):
        if len(o) != m:
            raise Violation("%d samples gave %d" % (m, len(o)))
    res = judge(c, np.concatenate(outs), x, f, extra, lens)
    return None if res is None else "%s %s" % (c["tle"]["kind"], res)


@st.composite
def olds(draw):
    c = draw(cases(long=True))
    t = c["tle"] if c["tle"]["kind"] == "leo" else draw(elements(("leo",)))
    t["yy"] = c["tle"]["yy"]
    c["tle"] = t
    c["days"] = draw(st.floats(-8, 4))
    c["age"] = draw(st.integers(3600, 259200))
    c["below"] = draw(st.floats(-20, 120)) + c["age"]
    c["fs"] = draw(st.sampled_from([100, 128, 200]))
    c["maxbuf"] = c["fs"] * draw(st.sampled_from([1, 16, 64]))
    c["n"] = c["fs"] * draw(st.integers(10, 90))
    c["alt"] = draw(st.floats(0, 2))
    c["oversize"] = False
    c["block"] = c["fs"] // draw(st.integers(8, 16))
    return c


def old(run, c):
    """a session which has been running for days is still right"""
    lines, start, lat, lon = setup(c)
    f, extra = shifts(lines, c, start + c["age"], lat, lon, int(math.ceil(c["n"] / c["fs"])) + 1)
    x = signal(c)
    lens = chunks_of(dict(c, maxbuf=c["block"]))
    r = run.worker().doppler_late(lat, lon, c["alt"], c["fs"], c["center"], c["offset"], start, c["maxbuf"], lines, "tx" if c["tx"] else "rx", c["age"] * c["fs"], c["maxbuf"],
                                  np.split(x, np.cumsum(lens)[:-1]))
    if r["code"] != 0:
        raise Violation("create %d" % r["code"])
    if "lost" in r:
        raise Violation("%d samples gave %d" % tuple(r["lost"]))
    return judge(c, np.concatenate(r["out"]), x, f, extra, lens)


@st.composite
def inverses(draw):
    c = draw(cases(tx=False))
    c["n"] = min(c["n"], 40000)
    return c


def inverse(run, c):
    """what the transmitter adds the receiver takes away, when both work in the same blocks"""
    lines, start, lat, lon = setup(c)
    x = signal(c)
    lens = chunks_of(c)
    cuts = np.cumsum(lens)[:-1]
    w = run.worker()
    a = w.doppler(lat, lon, c["alt"], c["fs"], c["center"], 0, start, c["maxbuf"], lines, "tx", np.split(x, cuts))
    b = w.doppler(lat, lon, c["alt"], c["fs"], c["center"], 0, start, c["maxbuf"], lines, "rx", a["out"])
    y = np.concatenate(b["out"])
    if len(y) != len(x) or not np.abs(y - x).max() < 2e-3:
        raise Violation("received after transmission differs from the signal by %g" % (np.abs(y - x).max() if len(y) == len(x) else -1))
    moved = np.abs(np.concatenate(a["out"]) - x).max() > 0.1
    return moved


@st.composite
def sides(draw):
    cs = [draw(cases()) for _ in range(draw(st.integers(2, 3)))]
    for c in cs:
        c["n"] = min(c["n"], 3 * c["fs"], 30000)
        c["maxbuf"] = max(c["maxbuf"], 50)
    return {"cs": cs, "seed": draw(st.integers(0, 2 ** 31))}


def side_by_side(run, c):
    """several sessions in turns: each follows its own satellite"""
    confs, plan, ref = [], [], []
    for i, d in enumerate(c["cs"]):
        lines, start, lat, lon = setup(d)
        f, extra = shifts(lines, d, start, lat, lon, int(math.ceil(d["n"] / d["fs"])) + 1)
        x = signal(d)
        lens = chunks_of(d)
        confs.append({"tle": lines, "lat": lat, "lon": lon, "alt": d["alt"], "fs": d["fs"], "center": d["center"], "offset": d["offset"], "start": start,
                      "maxbuf": d["maxbuf"], "dir": "tx" if d["tx"] else "rx"})
        ref.append((f, extra, x, lens))
        plan.append(list(np.split(x, np.cumsum(lens)[:-1])))
    g = M.rng(c["seed"])
    order, idx = [], [0] * len(plan)
    bag = g.permutation(np.concatenate([np.full(len(p), i) for i, p in enumerate(plan)]))
    for i in bag:
        order.append((int(i), plan[i][idx[i]]))
        idx[i] += 1
    r = run.worker().dopplers(confs, order)
    if r["code"] != 0:
        raise Violation("create %d" % r["code"])
    n = 0
    for i, d in enumerate(c["cs"]):
        f, extra, x, lens = ref[i]
        try:
            n += judge(d, np.concatenate(r["out"][i]), x, f, extra, lens) is not None
        except Violation as e:
            raise Violation("session %d of %d: %s" % (i, len(plan), e)) from None
    return n >= 2


@st.composite
def nows(draw):
    c = draw(cases())
    c["fs"] = 48000
    c["maxbuf"] = 3000
    c["n"] = 96000
    c["tz"] = draw(st.sampled_from(["UTC", "Asia/Tokyo", "America/Los_Angeles", "XXX-9:30YYY"]))
    c["wait"] = draw(st.sampled_from([0, 0, 2]))
    c["below"] = draw(st.floats(-120, 120))
    return c


def now(run, c):
    """a start time of zero is the time of the first block"""
    t = dict(c["tle"])
    today = datetime.datetime.now(datetime.timezone.utc)
    t["yy"], t["day"] = today.year % 100, max(1, min(365, today.timetuple().tm_yday - int(c["days"])))
    c = dict(c, tle=t)
    lines, start, lat, lon = setup(c, int(time.time()))
    x = signal(c)
    lens = chunks_of(c)
    order = [(0, b) for b in np.split(x, np.cumsum(lens)[:-1])]
    conf = {"tle": lines, "lat": lat, "lon": lon, "alt": c["alt"], "fs": c["fs"], "center": c["center"], "offset": c["offset"], "start": 0,
            "maxbuf": c["maxbuf"], "dir": "tx" if c["tx"] else "rx", "wait": c["wait"]}
    w = run.worker(env={"TZ": c["tz"]})
    t0 = time.time()
    r = w.dopplers([conf], order)
    if r["code"] != 0:
        raise Violation("create %d" % r["code"])
    first = r["first"]
    if not t0 - 1 <= first <= time.time() + 1:
        raise Skip("clock stepped")
    f, extra = shifts(lines, c, first, lat, lon, int(math.ceil(c["n"] / c["fs"])) + 1)
    if np.abs(np.diff(f)).max() * 1.5 > 2000:
        raise Skip("too fast")
    judge(c, np.concatenate(r["out"][0]), x, f, extra, lens, clock=1.3)
    return "waited" if c["wait"] else True


@st.composite
def fars(draw):
    c = draw(cases())
    c["n"] = min(c["n"], c["fs"] + 10, 5000)
    c["start"] = draw(st.one_of(st.integers(1, 2745532799), st.integers(2713910400, 2745532799), st.integers(2 ** 31, 2 ** 40), st.integers(2 ** 40, 2 ** 55), st.integers(2 ** 55, 2 ** 63 - 1), st.integers(-2 ** 62, -1)))
    return c


def far(run, c):
    """any start time is answered: within the years a TLE can name it works, far from them it is refused or harmless"""
    c = dict(c, below=None, oversize=False)
    lines = orbit.make_tle(c["tle"])
    if orbit.acceptable(lines[1], lines[2]) is not True:
        raise Skip("not a TLE")
    x = signal(c)
    lens = chunks_of(c)
    r = run.worker().doppler(c["lat"], c["lon"], c["alt"], c["fs"], c["center"], c["offset"], c["start"], c["maxbuf"], lines, "tx" if c["tx"] else "rx",
                             np.split(x, np.cumsum(lens)[:-1]))
    if r["leak"]:
        raise Violation("%d allocations left" % r["leak"])
    if r["code"] != 0:
        if 0 < c["start"] < 2745532800:
            raise Violation("start %d refused" % c["start"])
        return "refused"
    y = np.concatenate(r["out"])
    if len(y) != len(x) or not np.all(np.abs(np.abs(y) - 1) < 1e-3):
        raise Violation("not a rotation of the input")
    return "accepted"


def main():
    return run_check(PID, [
        Sub("follows", cases(), follows, 480, 12000, shards=6, tshards=8, qtime=40),
        Sub("long", cases(long=True), follows, 48, 1200, shards=6, tshards=8, qtime=40),
        Sub("old", olds(), old, 24, 400, shards=6, tshards=8, qtime=40, ttime=600),
        Sub("inverse", inverses(), inverse, 60, 1500, shards=2),
        Sub("side_by_side", sides(), side_by_side, 80, 2000, shards=4),
        Sub("far", fars(), far, 120, 3000, shards=1),
        Sub("now", nows(), now, 12, 200, shards=2),
    ], RULE, assumptions=["the frequency is applied in whole hertz and per block (as documented in the code): the tolerance is 1 Hz plus the change of the shift over one block",
                          "the sign convention of the transmitter is the inverse of the receiver's, as the project's own test fixes it"])
