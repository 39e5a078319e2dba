"""Independent reference for the orbital part: SGP4/SDP4 as published in Spacetrack Report No. 3, observer geometry, time, TLE text."""
import datetime
import math
from math import cos, sin, sqrt, pi

XKE, CK2, CK4 = 7.43669161e-2, 5.413079e-4, 6.209887e-7
XKMPER, XJ3, S0, QOMS2T = 6378.135, -2.53881e-6, 1.012229, 1.880279e-09
TWOPI = 2 * pi
THDT = 4.3752691e-3
ZNS, C1SS, ZES, ZNL, C1L, ZEL = 1.19459e-5, 2.9864797e-6, 1.675e-2, 1.5835218e-4, 4.7968065e-7, 5.490e-2
F = 3.352779e-3
OMEGA_E = 7.292115e-5
C_KM = 2.99792458e5


# ---- text ----
def checksum(line):
    return sum(int(ch) if ch in "0123456789" else ch == "-" for ch in line[:68]) % 10


def exp_field(v):
    """' 32890-4' style: sign, five digits, exponent sign, exponent digit; value = 0.ddddd * 10^e"""
    mant, e = v
    if isinstance(e, str):
        return "%s%05d%s" % ("-" if mant < 0 else " ", abs(mant), e)
    return "%s%05d%s%d" % ("-" if mant < 0 else " ", abs(mant), "-" if e <= 0 else "+", abs(e))


def make_tle(t):
    """t: dict of integer-scaled fields; returns [name, line1, line2] and the exact values"""
    l1 = "1 %05dU %-8s %02d%012.8f %s.%08d %s %s 0 %4d" % (
        t["cat"], t["intl"], t["yy"], t["day"] + t["frac"] * 1e-8, "-" if t["ndot"] < 0 else " ", abs(t["ndot"]), exp_field(t["nddot"]), exp_field(t["bstar"]), t["elset"])
    l2 = "2 %05d %8.4f %8.4f %07d %8.4f %8.4f %11.8f%5d" % (
        t["cat"], t["incl"] / 1e4, t["node"] / 1e4, t["ecc"], t["argp"] / 1e4, t["ma"] / 1e4, t["mm"] / 1e8, t["rev"])
    assert len(l1) == 68 and len(l2) == 68, (l1, l2)
    return [t["name"], l1 + str(checksum(l1)), l2 + str(checksum(l2))]


def fields(lines):
    """exact values of an accepted set, read from the standard columns"""
    l1, l2 = lines[1], lines[2]

    def ex(s):
        return float("%s.%se%s" % (s[0].strip(), s[1:6], s[6:8].replace(" ", "+")))
    return {
        "cat": int(l1[2:7]), "intl": l1[9:17], "epoch": float(l1[18:20]) * 1000 + float(l1[20:32]), "ndot": float(l1[33:43]), "nddot": ex(l1[44:52]),
        "bstar": ex(l1[53:61]), "elset": int(l1[64:68]), "incl": float(l2[8:16]), "node": float(l2[17:25]), "ecc": float("0." + l2[26:33]),
        "argp": float(l2[34:42]), "ma": float(l2[43:51]), "mm": float(l2[52:63]), "rev": int(l2[63:68]),
    }


def acceptable(l1, l2):
    """whether a pair of 69-character lines is a genuine element set"""
    for l in (l1, l2):
        if len(l) < 69 or l[68] not in "0123456789" or int(l[68]) != checksum(l):
            return False
    if l1[0] != "1" or l2[0] != "2" or l1[2:7] != l2[2:7]:
        return False
    if l1[23] != "." or l1[34] != "." or l1[61:64] != " 0 ":
        return False
    return all(l2[k] == "." for k in (11, 20, 37, 46, 54))


# ---- time ----
def jd_of(dt):
    """Julian date of a UTC datetime, exact to double precision"""
    d = dt - datetime.datetime(2000, 1, 1, 12)
    return 2451545.0 + d.days + d.seconds / 86400.0 + d.microseconds / 86400e6


def year_day(epoch):
    yy = int(epoch // 1000)
    return (2000 + yy if yy < 57 else 1900 + yy), epoch - 1000 * yy


def jd_of_epoch(epoch):
    year, day = year_day(epoch)
    return jd_of(datetime.datetime(year, 1, 1)) - 1 + day


def gmst(jd):
    ut = (jd + 0.5) % 1.0
    tu = (jd - ut - 2451545.0) / 36525.0
    g = 24110.54841 + tu * (8640184.812866 + tu * (0.093104 - tu * 6.2e-6))
    return TWOPI * ((g + 86400.0 * 1.0027379 * ut) % 86400.0) / 86400.0


# ---- observer ----
def observer(jd, lat, lon, alt):
    """ECI position and velocity (km, km/s); radians"""
    th = gmst(jd) + lon
    a, b = XKMPER, XKMPER * (1 - F)
    n = a * a / sqrt((a * cos(lat)) ** 2 + (b * sin(lat)) ** 2)
    p = (n + alt) * cos(lat)
    z = (n * (b / a) ** 2 + alt) * sin(lat)
    x, y = p * cos(th), p * sin(th)
    return (x, y, z), (-OMEGA_E * y, OMEGA_E * x, 0.0)


def look(jd, pos, vel, lat, lon, alt):
    """azimuth, elevation (rad), range (km), range rate (km/s)"""
    o, ov = observer(jd, lat, lon, alt)
    r = [a - b for a, b in zip(pos, o)]
    v = [a - b for a, b in zip(vel, ov)]
    th = gmst(jd) + lon
    up = (cos(lat) * cos(th), cos(lat) * sin(th), sin(lat))
    east = (-sin(th), cos(th), 0.0)
    north = (-sin(lat) * cos(th), -sin(lat) * sin(th), cos(lat))
    dot = lambda a, b: sum(x * y for x, y in zip(a, b))
    rng = sqrt(dot(r, r))
    return math.atan2(dot(r, east), dot(r, north)) % TWOPI, math.asin(max(-1, min(1, dot(r, up) / rng))), rng, dot(r, v) / rng


# ---- propagation ----
class Orbit:
    def __init__(self, lines, cache=True):
        f = fields(lines)
        self.f = f
        d = pi / 180
        self.xincl, self.xnodeo, self.omegao, self.xmo = f["incl"] * d, f["node"] * d, f["argp"] * d, f["ma"] * d
        self.eo = max(f["ecc"], 1e-6)
        self.xno = f["mm"] * TWOPI / 1440.0
        self.bstar = f["bstar"]
        self.epoch = f["epoch"]
        self.jd_epoch = jd_of_epoch(self.epoch)
        self.cache = cache
        self.savtsn = None
        self._init()

    def _init(self):
        eo = self.eo
        self.cosio, self.sinio = cos(self.xincl), sin(self.xincl)
        self.theta2 = th2 = self.cosio ** 2
        self.x3thm1, self.x1mth2, self.x7thm1 = 3 * th2 - 1, 1 - th2, 7 * th2 - 1
        self.eosq = eo * eo
        self.betao2 = 1 - self.eosq
        self.betao = sqrt(self.betao2)
        a1 = (XKE / self.xno) ** (2 / 3)
        k = 1.5 * CK2 * self.x3thm1 / (self.betao * self.betao2)
        d1 = k / a1 ** 2
        ao = a1 * (1 - d1 * (1 / 3 + d1 * (1 + 134 / 81 * d1)))
        do = k / ao ** 2
        self.xnodp = self.xno / (1 + do)
        self.aodp = ao / (1 - do)
        self.deep = TWOPI / self.xnodp >= 225.0
        per = self.aodp * (1 - eo)
        self.perigee = (per - 1) * XKMPER
        self.simple = per < 220 / XKMPER + 1
        s4, q = S0, QOMS2T
        if self.perigee < 156:
            h = 20.0 if self.perigee <= 98 else self.perigee - 78
            q = ((120 - h) / XKMPER) ** 4
            s4 = h / XKMPER + 1
        pinvsq = 1 / (self.aodp ** 2 * self.betao2 ** 2)
        tsi = 1 / (self.aodp - s4)
        self.eta = eta = self.aodp * eo * tsi
        etasq, eeta = eta * eta, eo * eta
        psisq = abs(1 - etasq)
        coef = q * tsi ** 4
        coef1 = coef / psisq ** 3.5
        c2 = coef1 * self.xnodp * (self.aodp * (1 + 1.5 * etasq + eeta * (4 + etasq)) + 0.75 * CK2 * tsi / psisq * self.x3thm1 * (8 + 3 * etasq * (8 + etasq)))
        self.c1 = self.bstar * c2
        a3 = -XJ3 / CK2
        c3 = coef * tsi * a3 * self.xnodp * self.sinio / eo
        self.c4 = 2 * self.xnodp * coef1 * self.aodp * self.betao2 * (
            eta * (2 + 0.5 * etasq) + eo * (0.5 + 2 * etasq) - 2 * CK2 * tsi / (self.aodp * psisq) * (
                -3 * self.x3thm1 * (1 - 2 * eeta + etasq * (1.5 - 0.5 * eeta)) + 0.75 * self.x1mth2 * (2 * etasq - eeta * (1 + etasq)) * cos(2 * self.omegao)))
        self.c5 = 2 * coef1 * self.aodp * self.betao2 * (1 + 2.75 * (etasq + eeta) + eeta * etasq)
        th4 = th2 * th2
        t1 = 3 * CK2 * pinvsq * self.xnodp
        t2 = t1 * CK2 * pinvsq
        t3 = 1.25 * CK4 * pinvsq ** 2 * self.xnodp
        self.xmdot = self.xnodp + 0.5 * t1 * self.betao * self.x3thm1 + 0.0625 * t2 * self.betao * (13 - 78 * th2 + 137 * th4)
        self.omgdot = -0.5 * t1 * (1 - 5 * th2) + 0.0625 * t2 * (7 - 114 * th2 + 395 * th4) + t3 * (3 - 36 * th2 + 49 * th4)
        xh = -t1 * self.cosio
        self.xnodot = xh + (0.5 * t2 * (4 - 19 * th2) + 2 * t3 * (3 - 7 * th2)) * self.cosio
        self.xnodcf = 3.5 * self.betao2 * xh * self.c1
        self.t2cof = 1.5 * self.c1
        self.xlcof = 0.125 * a3 * self.sinio * (3 + 5 * self.cosio) / (1 + self.cosio)
        self.aycof = 0.25 * a3 * self.sinio
        if self.deep:
            self._deep_init()
            return
        self.omgcof = self.bstar * c3 * cos(self.omegao)
        self.xmcof = -2 / 3 * coef * self.bstar / eeta
        self.delmo = (1 + eta * cos(self.xmo)) ** 3
        self.sinmo = sin(self.xmo)
        if not self.simple:
            c1 = self.c1
            a = self.aodp
            self.d2 = 4 * a * tsi * c1 ** 2
            t = self.d2 * tsi * c1 / 3
            self.d3 = (17 * a + s4) * t
            self.d4 = 0.5 * t * a * tsi * (221 * a + 31 * s4) * c1
            self.t3cof = self.d2 + 2 * c1 ** 2
            self.t4cof = 0.25 * (3 * self.d3 + c1 * (12 * self.d2 + 10 * c1 ** 2))
            self.t5cof = 0.2 * (3 * self.d4 + 12 * c1 * self.d3 + 6 * self.d2 ** 2 + 15 * c1 ** 2 * (2 * self.d2 + c1 ** 2))

    def _third_body(self, cosg, sing, cosi, sini, cosh, sinh, cc, n, e):
        ci, si_ = self.cosio, self.sinio
        eq, eqsq = self.eo, self.eosq
        a1 = cosg * cosh + sing * cosi * sinh
        a3 = -sing * cosh + cosg * cosi * sinh
        a7 = -cosg * sinh + sing * cosi * cosh
        a8 = sing * sini
        a9 = sing * sinh + cosg * cosi * cosh
        a10 = cosg * sini
        a2, a4 = ci * a7 + si_ * a8, ci * a9 + si_ * a10
        a5, a6 = -si_ * a7 + ci * a8, -si_ * a9 + ci * a10
        cw, sw = cos(self.omegao), sin(self.omegao)
        x1, x2 = a1 * cw + a2 * sw, a3 * cw + a4 * sw
        x3, x4 = -a1 * sw + a2 * cw, -a3 * sw + a4 * cw
        x5, x6, x7, x8 = a5 * sw, a6 * sw, a5 * cw, a6 * cw
        z31, z32, z33 = 12 * x1 * x1 - 3 * x3 * x3, 24 * x1 * x2 - 6 * x3 * x4, 12 * x2 * x2 - 3 * x4 * x4
        z1 = 3 * (a1 * a1 + a2 * a2) + z31 * eqsq
        z2 = 6 * (a1 * a3 + a2 * a4) + z32 * eqsq
        z3 = 3 * (a3 * a3 + a4 * a4) + z33 * eqsq
        z11 = -6 * a1 * a5 + eqsq * (-24 * x1 * x7 - 6 * x3 * x5)
        z12 = -6 * (a1 * a6 + a3 * a5) + eqsq * (-24 * (x2 * x7 + x1 * x8) - 6 * (x3 * x6 + x4 * x5))
        z13 = -6 * a3 * a6 + eqsq * (-24 * x2 * x8 - 6 * x4 * x6)
        z21 = 6 * a2 * a5 + eqsq * (24 * x1 * x5 - 6 * x3 * x7)
        z22 = 6 * (a4 * a5 + a2 * a6) + eqsq * (24 * (x2 * x5 + x1 * x6) - 6 * (x4 * x7 + x3 * x8))
        z23 = 6 * a4 * a6 + eqsq * (24 * x2 * x6 - 6 * x4 * x8)
        z1, z2, z3 = 2 * z1 + self.betao2 * z31, 2 * z2 + self.betao2 * z32, 2 * z3 + self.betao2 * z33
        s3 = cc / self.xnodp
        s2 = -0.5 * s3 / self.betao
        s4 = s3 * self.betao
        s1 = -15 * eq * s4
        s5, s6, s7 = x1 * x3 + x2 * x4, x2 * x3 + x1 * x4, x2 * x4 - x1 * x3
        r = {"se": s1 * n * s5, "si": s2 * n * (z11 + z13), "sl": -n * s3 * (z1 + z3 - 14 - 6 * eqsq), "sgh": s4 * n * (z31 + z33 - 6),
             "sh": 0.0 if self.xincl < 5.2359877e-2 else -n * s2 * (z21 + z23)}
        r["e"] = (2 * s1 * s6, 2 * s1 * s7)
        r["i"] = (2 * s2 * z12, 2 * s2 * (z13 - z11))
        r["l"] = (-2 * s3 * z2, -2 * s3 * (z3 - z1), -2 * s3 * (-21 - 9 * eqsq) * e)
        r["gh"] = (2 * s4 * z32, 2 * s4 * (z33 - z31), -18 * s4 * e)
        r["h"] = (-2 * s2 * z22, -2 * s2 * (z23 - z21))
        return r

    def _deep_init(self):
        year, day = year_day(self.epoch)
        ds50 = jd_of(datetime.datetime(year, 1, 1)) - 1 - 2433281.5 + day
        self.thgr = (6.3003880987 * ds50 + 1.72944494) % TWOPI
        d = ds50 + 18261.5
        xnodce = 4.5236020 - 9.2422029e-4 * d
        st, ct = sin(xnodce), cos(xnodce)
        zcosil = 0.91375164 - 0.03568096 * ct
        zsinil = sqrt(1 - zcosil ** 2)
        zsinhl = 0.089683511 * st / zsinil
        zcoshl = sqrt(1 - zsinhl ** 2)
        c = 4.7199672 + 0.22997150 * d
        gam = 5.8351514 + 0.0019443680 * d
        self.zmol = (c - gam) % TWOPI
        zx = math.atan2(0.39785416 * st / zsinil, zcoshl * ct + 0.91744867 * zsinhl * st)
        zx = gam + zx - xnodce
        self.zmos = (6.2565837 + 0.017201977 * d) % TWOPI
        cq, sq = cos(self.xnodeo), sin(self.xnodeo)
        sun = self._third_body(0.1945905, -0.98088458, 0.91744867, 0.39785416, cq, sq, C1SS, ZNS, ZES)
        moon = self._third_body(cos(zx), sin(zx), zcosil, zsinil, zcoshl * cq + zsinhl * sq, sq * zcoshl - cq * zsinhl, C1L, ZNL, ZEL)
        self.sun, self.moon = sun, moon
        self.sse, self.ssi, self.ssl = sun["se"] + moon["se"], sun["si"] + moon["si"], sun["sl"] + moon["sl"]
        sh = sun["sh"] + moon["sh"]
        self.ssh = sh / self.sinio if sh else 0.0
        self.ssg = sun["sgh"] + moon["sgh"] - self.cosio * self.ssh
        n, e, esq = self.xnodp, self.eo, self.eosq
        aqnv = 1 / self.aodp
        ci, si_, th2 = self.cosio, self.sinio, self.theta2
        self.reso = None
        if 0.0034906585 < n < 0.0052359877:
            self.reso = "24h"
            g200 = 1 + esq * (-2.5 + 0.8125 * esq)
            g310 = 1 + 2 * esq
            g300 = 1 + esq * (-6 + 6.60937 * esq)
            f220 = 0.75 * (1 + ci) ** 2
            f311 = 0.9375 * si_ ** 2 * (1 + 3 * ci) - 0.75 * (1 + ci)
            f330 = 1.875 * (1 + ci) ** 3
            del1 = 3 * n * n * aqnv * aqnv
            self.del2 = 2 * del1 * f220 * g200 * 1.7891679e-6
            self.del3 = 3 * del1 * f330 * g300 * 2.2123015e-7 * aqnv
            self.del1 = del1 * f311 * g310 * 2.1460748e-6 * aqnv
            self.xlamo = self.xmo + self.xnodeo + self.omegao - self.thgr
            bf = self.xmdot + self.omgdot + self.xnodot - THDT + self.ssl + self.ssg + self.ssh
        elif 0.00826 <= n <= 0.00924 and e >= 0.5:
            self.reso = "12h"
            eoc = e * esq
            poly = lambda a, b, c_, d_: a + b * e + c_ * esq + d_ * eoc
            g201 = -0.306 - (e - 0.64) * 0.44
            if e <= 0.65:
                g211 = poly(3.616, -13.247, 16.290, 0)
                g310 = poly(-19.302, 117.390, -228.419, 156.591)
                g322 = poly(-18.9068, 109.7927, -214.6334, 146.5816)
                g410 = poly(-41.122, 242.694, -471.094, 313.953)
                g422 = poly(-146.407, 841.880, -1629.014, 1083.435)
                g520 = poly(-532.114, 3017.977, -5740, 3708.276)
            else:
                g211 = poly(-72.099, 331.819, -508.738, 266.724)
                g310 = poly(-346.844, 1582.851, -2415.925, 1246.113)
                g322 = poly(-342.585, 1554.908, -2366.899, 1215.972)
                g410 = poly(-1052.797, 4758.686, -7193.992, 3651.957)
                g422 = poly(-3581.69, 16178.11, -24462.77, 12422.52)
                g520 = poly(1464.74, -4664.75, 3763.64, 0) if e <= 0.715 else poly(-5149.66, 29936.92, -54087.36, 31324.56)
            if e < 0.7:
                g533 = poly(-919.2277, 4988.61, -9064.77, 5542.21)
                g521 = poly(-822.71072, 4568.6173, -8491.4146, 5337.524)
                g532 = poly(-853.666, 4690.25, -8624.77, 5341.4)
            else:
                g533 = poly(-37995.78, 161616.52, -229838.2, 109377.94)
                g521 = poly(-51752.104, 218913.95, -309468.16, 146349.42)
                g532 = poly(-40023.88, 170470.89, -242699.48, 115605.82)
            s2 = si_ * si_
            f220 = 0.75 * (1 + 2 * ci + th2)
            f221 = 1.5 * s2
            f321 = 1.875 * si_ * (1 - 2 * ci - 3 * th2)
            f322 = -1.875 * si_ * (1 + 2 * ci - 3 * th2)
            f441 = 35 * s2 * f220
            f442 = 39.375 * s2 * s2
            f522 = 9.84375 * si_ * (s2 * (1 - 2 * ci - 5 * th2) + 0.33333333 * (-2 + 4 * ci + 6 * th2))
            f523 = si_ * (4.92187512 * s2 * (-2 - 4 * ci + 10 * th2) + 6.56250012 * (1 + 2 * ci - 3 * th2))
            f542 = 29.53125 * si_ * (2 - 8 * ci + th2 * (-12 + 8 * ci + 10 * th2))
            f543 = 29.53125 * si_ * (-2 - 8 * ci + th2 * (12 + 8 * ci - 10 * th2))
            k = 3 * n * n * aqnv * aqnv
            r22, r32, r44, r52, r54 = 1.7891679e-6, 3.7393792e-7, 7.3636953e-9, 1.1428639e-7, 2.1765803e-9
            k3, k4, k5 = k * aqnv, k * aqnv ** 2, k * aqnv ** 3
            g22, g32, g44, g52, g54 = 5.7686396, 0.95240898, 1.8014998, 1.0508330, 4.4108898
            # (amplitude, coefficient of omega, coefficient of lambda, phase)
            self.res_terms = [(k * r22 * f220 * g201, 2, 1, g22), (k * r22 * f221 * g211, 0, 1, g22),
                              (k3 * r32 * f321 * g310, 1, 1, g32), (k3 * r32 * f322 * g322, -1, 1, g32),
                              (2 * k4 * r44 * f441 * g410, 2, 2, g44), (2 * k4 * r44 * f442 * g422, 0, 2, g44),
                              (k5 * r52 * f522 * g520, 1, 1, g52), (k5 * r52 * f523 * g532, -1, 1, g52),
                              (2 * k5 * r54 * f542 * g521, 1, 2, g54), (2 * k5 * r54 * f543 * g533, -1, 2, g54)]
            self.xlamo = self.xmo + 2 * self.xnodeo - 2 * self.thgr
            bf = self.xmdot + 2 * self.xnodot - 2 * THDT + self.ssl + 2 * self.ssh
        if self.reso:
            self.xfact = bf - n

    def _rates(self, li, ni, at):
        if self.reso == "24h":
            p = [(self.del1, 1, 0.13130908), (self.del2, 2, 2.8843198), (self.del3, 3, 0.37448087)]
            nd = sum(a * sin(k * (li - ph)) for a, k, ph in p)
            ndd = sum(a * k * cos(k * (li - ph)) for a, k, ph in p)
        else:
            om = self.omegao + self.omgdot * at
            nd = sum(a * sin(ko * om + kl * li - ph) for a, ko, kl, ph in self.res_terms)
            ndd = sum(a * kl * cos(ko * om + kl * li - ph) for a, ko, kl, ph in self.res_terms)
        ld = ni + self.xfact
        return nd, ndd * ld, ld

    def _secular(self, t, xll, omg, node):
        xll += self.ssl * t
        omg += self.ssg * t
        node += self.ssh * t
        em = self.eo + self.sse * t
        inc = self.xincl + self.ssi * t
        if inc < 0:
            inc, node, omg = -inc, node + pi, omg - pi
        n = self.xnodp
        if self.reso:
            li, ni, at = self.xlamo, self.xnodp, 0.0
            step = 720.0 if t >= 0 else -720.0
            while abs(t - at) >= 720.0:
                nd, ndd, ld = self._rates(li, ni, at)
                li += ld * step + nd * 259200.0
                ni += nd * step + ndd * 259200.0
                at += step
            nd, ndd, ld = self._rates(li, ni, at)
            ft = t - at
            n = ni + nd * ft + ndd * ft * ft * 0.5
            xl = li + ld * ft + nd * ft * ft * 0.5
            temp = -node + self.thgr + t * THDT
            xll = xl - omg + temp if self.reso == "24h" else xl + 2 * temp
        return xll, omg, node, em, inc, n

    def _periodic_terms(self, t):
        if self.cache and self.savtsn is not None and abs(self.savtsn - t) < 30:
            return self.saved
        tot = {k: 0.0 for k in "eilgh"}
        tot = {"e": 0.0, "i": 0.0, "l": 0.0, "gh": 0.0, "h": 0.0}
        for body, zm0, n, e in ((self.sun, self.zmos, ZNS, ZES), (self.moon, self.zmol, ZNL, ZEL)):
            zm = zm0 + n * t
            zf = zm + 2 * e * sin(zm)
            s = sin(zf)
            f2, f3 = 0.5 * s * s - 0.25, -0.5 * s * cos(zf)
            for k in tot:
                c = body[k]
                tot[k] += c[0] * f2 + c[1] * f3 + (c[2] * s if len(c) > 2 else 0)
        self.savtsn, self.saved = t, tot
        return tot

    def _periodic(self, t, xll, omg, node, em, inc):
        si_, ci = sin(inc), cos(inc)
        p = self._periodic_terms(t)
        pgh, ph = p["gh"], p["h"]
        inc += p["i"]
        em += p["e"]
        if self.xincl >= 0.2:
            ph /= self.sinio
            pgh -= self.cosio * ph
            return xll + p["l"], omg + pgh, node + ph, em, inc
        a = si_ * sin(node) + ph * cos(node) + p["i"] * ci * sin(node)
        b = si_ * cos(node) - ph * sin(node) + p["i"] * ci * cos(node)
        node %= TWOPI
        xls = xll + omg + ci * node + p["l"] + pgh - p["i"] * node * si_
        old = node
        node = math.atan2(a, b) % TWOPI
        if abs(old - node) > pi:
            node += TWOPI if node < old else -TWOPI
        xll += p["l"]
        omg = xls - xll - cos(inc) * node
        return xll, omg, node, em, inc

    def state(self, t):
        """position (km) and velocity (km/s) at t minutes from epoch; None when the theory breaks down"""
        xmdf = self.xmo + self.xmdot * t
        omg = self.omegao + self.omgdot * t
        node = self.xnodeo + self.xnodot * t + self.xnodcf * t * t
        tempa = 1 - self.c1 * t
        tempe = self.bstar * self.c4 * t
        templ = self.t2cof * t * t
        if self.deep:
            xll, omg, node, em, inc, n = self._secular(t, xmdf, omg, node)
            a = (XKE / n) ** (2 / 3) * tempa ** 2
            xll += self.xnodp * templ
            xll, omg, node, e, inc = self._periodic(t, xll, omg, node, em - tempe, inc)
            xl = xll + omg + node
        else:
            inc = self.xincl
            xmp = xmdf
            if not self.simple:
                d = self.omgcof * t + self.xmcof * ((1 + self.eta * cos(xmdf)) ** 3 - self.delmo)
                xmp = xmdf + d
                omg -= d
                tempa -= self.d2 * t ** 2 + self.d3 * t ** 3 + self.d4 * t ** 4
                tempe += self.bstar * self.c5 * (sin(xmp) - self.sinmo)
                templ += self.t3cof * t ** 3 + t ** 4 * (self.t4cof + t * self.t5cof)
            a = self.aodp * tempa ** 2
            e = self.eo - tempe
            xl = xmp + omg + node + self.xnodp * templ
        if not (0 <= abs(e) < 1 and a > 0 and tempa > 0):
            return None
        self.a_now, self.e_now = a, e
        xn = XKE / a ** 1.5
        axn = e * cos(omg)
        k = 1 / (a * (1 - e * e))
        ayn = e * sin(omg) + k * self.aycof
        capu = (xl + k * self.xlcof * axn - node) % TWOPI
        el2 = axn ** 2 + ayn ** 2
        if el2 >= 1:
            return None
        u = capu
        for _ in range(60):
            su, cu = sin(u), cos(u)
            du = (capu - ayn * cu + axn * su - u) / (1 - axn * cu - ayn * su)
            u += du
            if abs(du) < 1e-13:
                break
        su, cu = sin(u), cos(u)
        ecose, esine = axn * cu + ayn * su, axn * su - ayn * cu
        self.kepler_margin = 1 - ecose
        pl = a * (1 - el2)
        r = a * (1 - ecose)
        rdot, rfdot = XKE * sqrt(a) * esine / r, XKE * sqrt(pl) / r
        betal = sqrt(1 - el2)
        g = esine / (1 + betal)
        cosu, sinu = a / r * (cu - axn + ayn * g), a / r * (su - ayn - axn * g)
        uu = math.atan2(sinu, cosu)
        s2u, c2u = 2 * sinu * cosu, 2 * cosu ** 2 - 1
        t1 = CK2 / pl
        t2 = t1 / pl
        rk = r * (1 - 1.5 * t2 * betal * self.x3thm1) + 0.5 * t1 * self.x1mth2 * c2u
        uk = uu - 0.25 * t2 * self.x7thm1 * s2u
        nk = node + 1.5 * t2 * self.cosio * s2u
        ik = inc + 1.5 * t2 * self.cosio * self.sinio * c2u
        rdk = rdot - xn * t1 * self.x1mth2 * s2u
        rfk = rfdot + xn * t1 * (self.x1mth2 * c2u + 1.5 * self.x3thm1)
        mx, my = -sin(nk) * cos(ik), cos(nk) * cos(ik)
        ux, uy, uz = mx * sin(uk) + cos(nk) * cos(uk), my * sin(uk) + sin(nk) * cos(uk), sin(ik) * sin(uk)
        vx, vy, vz = mx * cos(uk) - cos(nk) * sin(uk), my * cos(uk) - sin(nk) * sin(uk), sin(ik) * cos(uk)
        kv = XKMPER / 60.0
        return ((XKMPER * rk * ux, XKMPER * rk * uy, XKMPER * rk * uz),
                (kv * (rdk * ux + rfk * vx), kv * (rdk * uy + rfk * vy), kv * (rdk * uz + rfk * vz)))

    def range_rate(self, jd, lat, lon, alt):
        """degrees in, km/s out"""
        s = self.state((jd - self.jd_epoch) * 1440.0)
        if s is None:
            return None
        return look(jd, s[0], s[1], math.radians(lat), math.radians(lon), alt)[3]
