"""C10: orbit prediction, observation geometry and time."""
import datetime
import math

import numpy as np
from hypothesis import strategies as st

from vlib import orbit
from vlib.core import Skip, Sub, Violation, run_check

PID = "C10"
RULE = ("a case is a generated element set (low, elliptic, 12-hour resonant, GPS-like, synchronous, equatorial, epochs 1957-2056) with evaluation times, "
        "an observer with a satellite state, or a date; non-trivial when the theory is valid there (perigee above ground) and a position was compared")


@st.composite
def elements(draw, kinds=("leo", "leo", "low", "ell", "edge", "heo", "gps", "geo", "equatorial")):
    kind = draw(st.sampled_from(kinds))
    t = {"kind": kind, "cat": draw(st.integers(1, 99999)), "intl": "19038W", "yy": draw(st.one_of(st.integers(0, 99), st.sampled_from([56, 57, 99, 0, 20]))),
         "day": draw(st.integers(1, 365)), "frac": draw(st.integers(0, 99999999)), "ndot": draw(st.integers(-90000, 90000)),
         "nddot": [draw(st.integers(0, 99999)), draw(st.integers(-9, 0))], "bstar": [draw(st.integers(-20000, 60000)), draw(st.sampled_from([-3, -4, -5, -6]))],
         "elset": draw(st.integers(0, 9999)), "node": draw(st.integers(0, 3599999)), "argp": draw(st.integers(0, 3599999)), "ma": draw(st.integers(0, 3599999)),
         "rev": draw(st.integers(0, 99999)), "name": "SAT", "incl": draw(st.integers(2000, 1790000))}
    if kind == "leo":
        t.update(ecc=draw(st.integers(0, 100000)), mm=draw(st.integers(int(12.5e8), int(15.6e8))))
    elif kind == "low":
        t.update(ecc=draw(st.integers(0, 80000)), mm=draw(st.integers(int(15.9e8), int(16.45e8))))
        t["bstar"] = [t["bstar"][0], min(t["bstar"][1], -4)]
        if draw(st.booleans()):
            # the perigee between 100 and 160 km, where the atmosphere is modelled in another way
            t.update(ecc=draw(st.integers(0, 20000)), mm=draw(st.integers(int(16.38e8), int(16.57e8))))
            t["bstar"] = [abs(t["bstar"][0]), min(t["bstar"][1], -3)]
    elif kind == "ell":
        t.update(ecc=draw(st.integers(0, 7000000)), mm=draw(st.integers(int(1.2e8), int(14e8))))
    elif kind == "edge":
        # a period around 225 minutes, from which on the sun and the moon count
        t.update(ecc=draw(st.integers(0, 3000000)), mm=draw(st.one_of(st.integers(int(6.38e8), int(6.42e8)), st.integers(int(6.399e8), int(6.401e8)))))
    elif kind == "heo":
        t.update(ecc=draw(st.one_of(st.integers(5000000, 7400000), st.sampled_from([5000000, 6500000, 7000000, 7150000]))), mm=draw(st.integers(int(1.92e8), int(2.1e8))))
    elif kind == "gps":
        t.update(ecc=draw(st.integers(0, 300000)), mm=draw(st.integers(int(1.9e8), int(2.1e8))))
    else:
        t.update(ecc=draw(st.integers(0, 20000)), mm=draw(st.integers(int(0.98e8), int(1.02e8))), incl=draw(st.integers(1, 200000)))
        if kind == "equatorial":
            t["incl"] = draw(st.sampled_from([0, 0, 1, 10, 29000, 31000]))
    return t


def model(t):
    lines = orbit.make_tle(t)
    try:
        o = orbit.Orbit(lines)
    except (ValueError, ZeroDivisionError, OverflowError):
        raise Skip("no orbit")
    if o.perigee < 100:
        raise Skip("perigee inside the atmosphere")
    return lines, o


def backsteps(ts):
    """the resonance integrator continues from where it stands; going back towards the epoch costs it some accuracy"""
    out, far, n = [], 0.0, 0.0
    for t in ts:
        if far and abs(t) < abs(far) and t * far >= 0:
            n += 1 + (abs(far) - abs(t)) / 720
        far = t
        out.append(n)
    return out


def compare(row, o, t, what, back=0.0):
    """the state against the theory, with or without its 30-minute memory of lunar-solar terms"""
    refs = []
    for cache in (True, False):
        if cache:
            refs.append(o.state(t))
        else:
            keep = (o.cache, o.savtsn, getattr(o, "saved", None))
            o.cache = False
            refs.append(o.state(t))
            o.cache, o.savtsn, o.saved = keep
            if not o.deep:
                break
    if refs[0] is None:
        return False
    a_e = o.e_now
    slack = 1 / max(0.02, o.kepler_margin)
    best = None
    for s in refs:
        d = float(np.linalg.norm(row[:3] - np.array(s[0])))
        v = float(np.linalg.norm(row[3:6] - np.array(s[1])))
        tp = (0.05 + 6e-5 * abs(t) + (0.3 * back if o.deep and o.reso else 0)) * slack
        tv = (5e-5 + 8e-8 * abs(t) + (3e-5 * back if o.deep and o.reso else 0)) * slack ** 1.5
        if d <= tp and v <= tv:
            return True
        best = (d, v, tp, tv, s)
    raise Violation("%s at %.3f min: position off by %.4f km (allowed %.4f), velocity by %.6f km/s (allowed %.6f); eccentricity %.4f; got %s, theory %s" % (
        what, t, best[0], best[2], best[1], best[3], a_e, [round(float(x), 4) for x in row[:6]], [round(x, 4) for x in best[4][0] + best[4][1]]))


def times_for(draw, kind):
    lim = {"leo": 15000.0, "low": 2000.0}.get(kind, 40000.0)
    one = st.one_of(st.floats(-lim, lim), st.floats(-60, 60), st.sampled_from([0.0, 719.9, 720.0, 720.1, -720.0, 1440.0, -1.0]))
    return draw(st.lists(one, min_size=1, max_size=8))


@st.composite
def single(draw):
    t = draw(elements())
    return {"tle": t, "ts": times_for(draw, t["kind"]), "lat": draw(st.floats(-89.5, 89.5)), "lon": draw(st.floats(-180, 360)), "alt": draw(st.floats(0, 8))}


def propagate(run, c):
    lines, o = model(c["tle"])
    r = run.worker().track(lines, c["lat"], c["lon"], c["alt"], c["ts"])
    if r["code"] != 0:
        raise Violation("a genuine set was refused: %s" % lines)
    if bool(r["deep"]) != o.deep and abs(2 * math.pi / o.xnodp - 225) > 1e-6:
        raise Violation("period %.3f min handled by the %s model" % (2 * math.pi / o.xnodp, "deep-space" if r["deep"] else "near-earth"))
    if abs(r["epoch"] - o.jd_epoch) > 2e-8:
        raise Violation("epoch %.8f is JD %.9f, not %.9f" % (o.epoch, o.jd_epoch, r["epoch"]))
    n = 0
    for t, row, back in zip(c["ts"], r["rows"], backsteps(c["ts"])):
        ok = compare(row, o, t, c["tle"]["kind"], back)
        n += ok
        if not ok:
            continue
        lk = orbit.look(r["epoch"] + t / 1440.0, row[:3], row[3:6], math.radians(c["lat"]), math.radians(c["lon"]), c["alt"])
        check_look(row[6:10], lk)
    return c["tle"]["kind"] if n else None


def check_look(got, lk):
    if not -1e-9 <= got[0] <= 2 * math.pi + 1e-9:
        raise Violation("azimuth %.7f rad" % got[0])
    da = abs((got[0] - lk[0] + math.pi) % (2 * math.pi) - math.pi) * math.cos(lk[1])
    if da > 1e-6 or abs(got[1] - lk[1]) > 1e-6:
        raise Violation("azimuth %.7f elevation %.7f rad, geometry says %.7f %.7f" % (got[0], got[1], lk[0], lk[1]))
    if abs(got[2] - lk[2]) > 1e-3 or abs(got[3] - lk[3]) > 1e-6:
        raise Violation("range %.5f km rate %.7f km/s, geometry says %.5f %.7f" % (got[2], got[3], lk[2], lk[3]))


@st.composite
def several(draw):
    n = draw(st.integers(2, 4))
    sats = [draw(elements()) for _ in range(n)]
    order = draw(st.lists(st.tuples(st.integers(0, n - 1), st.floats(-10000, 10000)), min_size=4, max_size=16))
    return {"sats": sats, "order": [list(x) for x in order]}


def interleaved(run, c):
    """several satellites evaluated in turns: each as if it were alone"""
    ms = [model(t) for t in c["sats"]]
    r = run.worker().track_multi([m[0] for m in ms], [k for k, _ in c["order"]], [t for _, t in c["order"]])
    if r["code"] != 0:
        raise Violation("a genuine set was refused")
    n = 0
    past = {}
    for (k, t), row in zip(c["order"], r["rows"]):
        past.setdefault(k, []).append(t)
        if ms[k][1].simple is False and not ms[k][1].deep and abs(t) > 3000 and ms[k][1].perigee < 300:
            continue
        n += compare(row, ms[k][1], t, "satellite %d in turns" % k, backsteps(past[k])[-1])
    return n >= 2


@st.composite
def parallel(draw):
    return {"sats": [draw(elements()) for _ in range(draw(st.integers(2, 4)))], "step": draw(st.floats(0.01, 40))}


def threads(run, c):
    """sessions on several threads at once do not disturb each other"""
    ms = [model(t) for t in c["sats"]]
    ts = [i * c["step"] for i in range(400)]
    r = run.worker().track_threads([m[0] for m in ms], ts)
    for k, (a, b) in enumerate(zip(r["par"], r["seq"])):
        bad = np.flatnonzero(~(np.abs(a - b).max(axis=1) <= 1e-6) & np.isfinite(b).all(axis=1))
        if len(bad):
            raise Violation("satellite %d computed on its own thread differs at %.2f min by %g km" % (k, ts[bad[0]], np.abs(a - b)[bad[0]].max()))
    return True


@st.composite
def consistencies(draw):
    t = draw(elements(("leo", "ell", "heo", "gps", "geo")))
    return {"tle": t, "t": draw(st.floats(-5000, 5000)), "lat": draw(st.floats(-89.5, 89.5)), "lon": draw(st.floats(-180, 180)), "alt": draw(st.floats(0, 8))}


def consistency(run, c):
    """velocity is the derivative of position, range rate the derivative of range"""
    lines, o = model(c["tle"])
    h = 0.1
    ref = [o.state(x) for x in (c["t"], c["t"] - h, c["t"] + h)]
    if None in ref:
        raise Skip("decayed")
    if np.linalg.norm((np.array(ref[2][0]) - np.array(ref[1][0])) / (2 * h * 60) - np.array(ref[0][1])) > 1e-3 * np.linalg.norm(ref[0][1]) + 1e-3:
        raise Skip("the theory itself jumps here (node through zero at low inclination)")
    r = run.worker().track(lines, c["lat"], c["lon"], c["alt"], [c["t"], c["t"] - h, c["t"] + h])["rows"]
    v = (r[2][:3] - r[1][:3]) / (2 * h * 60)
    speed = float(np.linalg.norm(r[0][3:6]))
    # the theory's own velocity is that of the osculating orbit; Kepler's equation is solved to 1e-6 rad
    tol = 2e-3 * speed + 2e-3 + 3e-6 * o.aodp * 6378 / (2 * h * 60)
    if not np.linalg.norm(v - r[0][3:6]) <= tol:
        raise Violation("velocity %s but the position moves with %s km/s" % (r[0][3:6], v))
    rr = (r[2][8] - r[1][8]) / (2 * h * 60)
    if not abs(rr - r[0][9]) <= tol:
        raise Violation("range rate %.6f but the range changes by %.6f km/s" % (r[0][9], rr))
    rad = np.linalg.norm(r[0][:3])
    if not 6378.135 * 0.98 < rad < 1.1 * 6378.135 * o.aodp * (1 + max(o.eo, 0.02)):
        raise Violation("distance from the centre of the Earth %.1f km" % rad)
    return c["tle"]["kind"]


dates = st.datetimes(datetime.datetime(1957, 1, 1), datetime.datetime(2056, 12, 31, 23, 59, 59))


@st.composite
def geometries(draw):
    return {"when": draw(dates).replace(microsecond=0).isoformat(), "lat": draw(st.one_of(st.floats(-89.9, 89.9), st.sampled_from([0.0, 45.0, -45.0]))), "lon": draw(st.floats(-180, 360)),
            "alt": draw(st.floats(-0.4, 9)), "dir": [draw(st.floats(0, 6.283)), draw(st.floats(-1.5, 1.5))], "dist": draw(st.floats(100, 45000)),
            "vel": [draw(st.floats(-8, 8)) for _ in range(3)]}


def geometry(run, c):
    """a satellite placed at a chosen azimuth, elevation and distance is seen there"""
    jd = orbit.jd_of(datetime.datetime.fromisoformat(c["when"]))
    lat, lon = math.radians(c["lat"]), math.radians(c["lon"])
    az, el = c["dir"]
    pos, ov = orbit.observer(jd, lat, lon, c["alt"])
    th = orbit.gmst(jd) + lon
    up = np.array((math.cos(lat) * math.cos(th), math.cos(lat) * math.sin(th), math.sin(lat)))
    east = np.array((-math.sin(th), math.cos(th), 0.0))
    north = np.cross(up, east)
    d = c["dist"] * (math.cos(el) * math.cos(az) * north + math.cos(el) * math.sin(az) * east + math.sin(el) * up)
    p = np.array(pos) + d
    o = run.worker().obs(jd, list(p) + c["vel"], lat, lon, c["alt"])
    rr = float(np.dot(d, np.array(c["vel"]) - np.array(ov)) / c["dist"])
    if math.cos(el) > 1e-3:
        check_look(o[:4], (az, el, c["dist"], rr))
    if len(o) == 6:
        ra, dec = math.atan2(d[1], d[0]) % (2 * math.pi), math.asin(max(-1, min(1, d[2] / c["dist"])))
        if abs(o[5] - dec) > 1e-5 or abs((o[4] - ra + math.pi) % (2 * math.pi) - math.pi) * math.cos(dec) > 1e-5:
            raise Violation("right ascension %.6f declination %.6f, geometry says %.6f %.6f" % (o[4], o[5], ra, dec))
    return True


def time_cases():
    return st.fixed_dictionaries({"when": st.one_of(dates, st.sampled_from([datetime.datetime(y, m, d, 23, 59, 59) for y in (1957, 2000, 2020, 2024, 2056) for m, d in ((1, 1), (2, 28), (3, 1), (12, 31))]))
                                 .map(lambda d: d.replace(microsecond=0).isoformat()), "frac": st.integers(0, 99999999)})


def times(run, c):
    w = run.worker()
    d = datetime.datetime.fromisoformat(c["when"])
    jd = orbit.jd_of(d)
    got = w.jd(d.year, d.month, d.day, d.hour, d.minute, d.second)
    if abs(got - jd) > 3e-9:
        raise Violation("%s is JD %.9f, got %.9f" % (d, jd, got))
    doy = d.timetuple().tm_yday
    epoch = (d.year % 100) * 1000 + doy + c["frac"] * 1e-8
    got = w.time_fn("Julian_Date_of_Epoch", epoch)
    if abs(got - orbit.jd_of_epoch(epoch)) > 2e-8:
        raise Violation("epoch %.8f is JD %.9f, got %.9f" % (epoch, orbit.jd_of_epoch(epoch), got))
    th = w.time_fn("ThetaG_JD", jd)
    if th is not None and abs((th - orbit.gmst(jd) + math.pi) % (2 * math.pi) - math.pi) > 1e-6:
        raise Violation("sidereal angle at %s is %.7f, got %.7f" % (d, orbit.gmst(jd), th))
    # sidereal time against the formula of the Almanac in days from J2000 (independent of how the day is split)
    if th is not None:
        du = jd - 2451545.0
        era = (280.46061837 + 360.98564736629 * du) % 360
        if abs((math.degrees(th) - era + 180) % 360 - 180) > 1e-2:
            raise Violation("sidereal angle at %s is %.4f degrees, got %.4f" % (d, era, math.degrees(th)))
    p = orbit.observer(jd, 0.7, 1.0, 100.0)[0]
    back = w.latlonalt(jd, p)
    if back is not None and (abs(back[0] - 0.7) > 1e-7 or abs(back[1] - 1.0) > 1e-7 or abs(back[2] - 100.0) > 1e-3):
        raise Violation("a point above 0.7 rad north 1 rad east at 100 km is placed at %s" % back)
    return True


PUBLISHED = [
    ("1 88888U          80275.98708465  .00073094  13844-3  66816-4 0    8", "2 88888  72.8435 115.9689 0086731  52.6988 110.5714 16.05824518  105",
     {0: (2328.97048951, -5995.22076416, 1719.97067261, 2.91207230, -0.98341546, -7.09081703), 360: (2456.10705566, -6071.93853760, 1222.89727783, 2.67938992, -0.44829041, -7.22879231),
      720: (2567.56195068, -6112.50384522, 713.96397400, 2.44024599, 0.09810869, -7.31995916), 1080: (2663.09078980, -6115.48229980, 196.39640427, 2.19611958, 0.65241995, -7.36282432),
      1440: (2742.55133057, -6079.67144775, -326.38095856, 1.94850229, 1.21106251, -7.35619372)}),
    ("1 11801U          80230.29629788  .01431103  00000-0  14311-1 0    2", "2 11801  46.7916 230.4354 7318036  47.4722  10.4117  2.28537848    6",
     {0: (7473.37066650, 428.95261765, 5828.74786377, 5.1071513, 6.44468284, -0.18613096), 360: (-3305.22537232, 32410.86328125, -24697.17675781, -1.30113538, -1.15131518, -0.28333528),
      720: (14271.28759766, 24110.46411133, -4725.76837158, -0.32050445, 2.67984074, -2.08405289), 1080: (-9990.05883789, 22717.35522461, -23616.89062501, -1.01667246, -2.29026759, 0.72892364),
      1440: (9787.86975097, 33753.34667969, -15030.81176758, -1.09425066, 0.92358845, -1.52230928)}),
]


def published(run, c):
    """the test cases printed in Spacetrack Report No. 3"""
    a, b, table = PUBLISHED[c["k"]]
    lines = ["X"] + [l.ljust(68) + str(orbit.checksum(l.ljust(68))) for l in (a, b)]
    r = run.worker().track(lines, 0, 0, 0, [float(t) for t in c["ts"]])
    if r["code"] != 0:
        raise Violation("the published set was refused")
    for t, row in zip(c["ts"], r["rows"]):
        ref = np.array(table[t])
        if np.abs(row[:3] - ref[:3]).max() > 0.05 or np.abs(row[3:6] - ref[3:]).max() > 5e-5:
            raise Violation("published case %d at %d min: %s, printed %s" % (c["k"], t, row[:6], ref))
    return True


def main():
    return run_check(PID, [
        Sub("propagate", single(), propagate, 1500, 60000, shards=2, tshards=8),
        Sub("interleaved", several(), interleaved, 300, 10000, shards=1),
        Sub("threads", parallel(), threads, 60, 1500),
        Sub("consistency", consistencies(), consistency, 600, 20000),
        Sub("geometry", geometries(), geometry, 1500, 60000),
        Sub("times", time_cases(), times, 1500, 60000),
        Sub("published", st.fixed_dictionaries({"k": st.integers(0, 1), "ts": st.lists(st.sampled_from([0, 360, 720, 1080, 1440]), min_size=1, max_size=5)}), published, 30, 200),
    ], RULE, assumptions=["reference: Python implementation of Spacetrack Report No. 3 (with the Lyddane patch), validated against the printed test cases",
                          "tolerances: 0.05 km + 6e-5 km per minute from epoch, because the code carries the constants of the report to 8 digits"])
