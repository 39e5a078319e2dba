"""C11: acceptance and reading of TLEs."""
import math
import re

from hypothesis import strategies as st

from checks import c10
from vlib import orbit
from vlib.core import Skip, Sub, Violation, run_check

PID = "C11"
RULE = ("a case is a generated element set, possibly altered (digits, letters, swaps, shifts, cuts, checksum forgeries, whole lines exchanged), or arbitrary bytes; "
        "non-trivial when the outcome was compared with the reference acceptance rule, plus every field when accepted")
NAME = st.text(alphabet="ABCZ09 -&()[]+PXBS.a", min_size=0, max_size=79)


@st.composite
def sets(draw):
    t = draw(c10.elements())
    t["name"] = draw(st.one_of(st.sampled_from(["LUCKY-7", "X", "", "[+]", " [-]", "NAME [P]", "NAME[B]", "A B C  [S] TAIL", "ISS (ZARYA)", "A&B", "   ", "ABCDEFGHIJKLMNOPQRSTUVWXYZ", "ABCDEFGHIJKLMNOPQRSTU [X]",
                                                "ABCDEFGHIJKLMNOPQRSTUVW[+]", "ABCDEFGHIJKLMNOPQRSTUVWX  "]), NAME))
    small = st.sampled_from(["-0", "+0", "+1", "-1", "-9", "+9", "-4", "+3"])
    if draw(st.booleans()):
        t["nddot"][1] = draw(small)
    if draw(st.booleans()):
        t["bstar"][1] = draw(small)
    t["intl"] = draw(st.sampled_from(["19038W", "98067A", "", "19038AAA", "20001-  "]))
    return t


DEC = r"[ 0-9]{2}[0-9]\.[0-9]{4}"
L1 = re.compile(r"1 [0-9]{5}.{11}[0-9]{2} {0,2}[0-9]{1,3}\.[0-9]{8} [ +-]\.[0-9]{8} [ +-][0-9]{5}[+-][0-9] [ +-][0-9]{5}[+-][0-9] 0 [ 0-9]{3}[0-9][0-9]", re.S)
L2 = re.compile(r"2 [0-9]{5} %s %s [0-9]{7} %s %s [ 0-9][0-9]\.[0-9]{8}[ 0-9]{4}[0-9][0-9]" % (DEC, DEC, DEC, DEC), re.S)
INNER = re.compile(r"[0-9] +[0-9]")


def expected_name(line0):
    s = line0[:25]
    m = re.match(r"[^\n\r\0]*", s)
    s = m.group(0)
    for i in range(len(s)):
        if i < 23 and re.match(r"\[[+\-PBSX]\]", line0[i:i + 3]):
            s = s[:i]
            break
    return s[:24].replace("&", "/").rstrip(" ")


def verify(run, lines):
    """outcome and values of one parse against the reference"""
    r = run.worker().tle_parse(lines)
    pad = [l[:69].ljust(69, "\0") for l in lines[1:]]
    want = orbit.acceptable(pad[0], pad[1])
    if (r["code"] == 1) != want:
        raise Violation("%s %s, but it is %s" % (lines, "accepted" if r["code"] == 1 else "refused", "genuine" if want else "not genuine"))
    if not want:
        return False
    if any(INNER.search(l) for l in (lines[1][18:32], lines[1][64:68], lines[2][8:16], lines[2][17:25], lines[2][34:42], lines[2][43:51], lines[2][52:63], lines[2][63:68])):
        return True
    if not (L1.fullmatch(lines[1][:69]) and L2.fullmatch(lines[2][:69])):
        return True  # accepted by the layout rule, but a field is no number
    f = orbit.fields(lines)
    num, ints = r["num"], r["ints"]
    got = {"epoch": num[0], "ndot": num[1], "nddot": num[2], "bstar": num[3], "incl": num[4], "node": num[5], "ecc": num[6], "argp": num[7], "ma": num[8], "mm": num[9],
           "cat": ints[0], "elset": ints[1], "rev": ints[2]}
    f["ecc"] = max(f["ecc"], 1e-6)
    if num[9] == float(lines[2][52:62]):
        f["mm"] = num[9]  # the last digit is judged by mean_motion below
    for k, v in got.items():
        if v != f[k] and not (abs(v - f[k]) <= 4e-16 * abs(f[k])):
            raise Violation("%s of %s is %r, read as %r" % (k, lines, f[k], v))
    name = r["name"].split(b"\0")[0].decode("latin-1")
    if len(r["name"].split(b"\0")) < 2:
        raise Violation("the name of %s is not terminated" % lines)
    if name != expected_name(lines[0]):
        raise Violation("the name in %r is %r, read as %r" % (lines[0], expected_name(lines[0]), name))
    if r["idesg"].split(b"\0")[0].decode("latin-1") != lines[1][9:17]:
        raise Violation("the designator %r was read as %r" % (lines[1][9:17], r["idesg"]))
    return True


def genuine(run, t):
    lines = orbit.make_tle(t)
    if not verify(run, lines):
        raise Violation("the generator made an unacceptable set")  # cannot happen
    return True


@st.composite
def altered(draw):
    t = draw(sets())
    ops = []
    for _ in range(draw(st.sampled_from([1, 1, 1, 2]))):
        k = draw(st.sampled_from(["digit", "digit", "char", "swap", "delete", "insert", "cut", "exchange", "mix", "forge", "blank_checksum"]))
        ops.append([k, draw(st.integers(1, 2)), draw(st.integers(0, 68)), draw(st.integers(0, 255))])
    return {"tle": t, "ops": ops, "other": draw(sets()) if any(o[0] == "mix" for o in ops) else None}


def fix(l):
    return l[:68].ljust(68) + str(orbit.checksum(l[:68].ljust(68)))


def alter(c):
    lines = orbit.make_tle(c["tle"])
    for k, li, pos, val in c["ops"]:
        l = lines[li]
        pos = min(pos, max(0, len(l) - 1))
        if k == "digit":
            p = [i for i, ch in enumerate(l) if ch.isdigit()]
            if p:
                i = p[pos % len(p)]
                lines[li] = l[:i] + str((int(l[i]) + 1 + val % 9) % 10) + l[i + 1:]
        elif k == "char":
            lines[li] = l[:pos] + (chr(val) if val else " ") + l[pos + 1:]
        elif k == "swap" and pos + 1 < len(l):
            lines[li] = l[:pos] + l[pos + 1] + l[pos] + l[pos + 2:]
        elif k == "delete":
            lines[li] = l[:pos] + l[pos + 1:]
        elif k == "insert":
            lines[li] = l[:pos] + chr(32 + val % 90) + l[pos:]
        elif k == "cut":
            lines[li] = l[:pos]
        elif k == "exchange":
            lines[1], lines[2] = lines[2], lines[1]
        elif k == "mix":
            lines[li] = orbit.make_tle(c["other"])[li]
        elif k == "forge":  # alter a character and repair the checksum
            ch = " 0.5-+AZ12"[val % 10]
            lines[li] = fix(l[:pos] + ch + l[pos + 1:])
        elif k == "blank_checksum":
            lines[li] = l[:68] + " :;/A\0"[val % 6]
    return [l[:79] for l in lines]


def broken(run, c):
    lines = alter(c)
    ok = verify(run, lines)
    single = len(c["ops"]) == 1 and c["ops"][0][0] == "digit"
    if single and ok:
        raise Violation("a single altered digit was accepted: %s" % lines)
    d = run.worker().doppler(50.0, 40.0, 0.1, 9600, 437000000, 0, 1583840449, 64, lines, "rx", [])
    if (d["code"] == 0) != ok:
        raise Violation("%s: the set is %s, the corrector %s" % (lines, "genuine" if ok else "not genuine", "was created" if d["code"] == 0 else "was refused"))
    if d["leak"]:
        raise Violation("%d allocations left after %s" % (d["leak"], lines))
    return "altered but genuine" if ok else "refused"


def every_digit(run, c):
    """all single-digit alterations of one set, one after the other"""
    lines = orbit.make_tle(c["tle"])
    w = run.worker()
    calls, what = [], []
    for li in (1, 2):
        for i, ch in enumerate(lines[li]):
            if ch.isdigit():
                for d in range(1, 10):
                    new = list(lines)
                    new[li] = lines[li][:i] + str((int(ch) + d) % 10) + lines[li][i + 1:]
                    calls.append(("tle_parse", (new,)))
                    what.append((li, i, d))
    for r, wh in zip(w.many(calls), what):
        if r["code"] == 1:
            raise Violation("accepted with the digit at line %d column %d altered by %d: %s" % (*wh, lines))
    return True


def mean_motion(run, t):
    """the eleventh character of the mean motion counts as well"""
    lines = orbit.make_tle(t)
    r = run.worker().tle_parse(lines)
    if r["code"] == 1 and r["num"][9] != float(lines[2][52:63]):
        if r["num"][9] == float(lines[2][52:62]):
            raise Violation("the last digit of the mean motion is dropped: %s read as %r" % (lines[2][52:63], r["num"][9]))
        raise Violation("mean motion %s read as %r" % (lines[2][52:63], r["num"][9]))
    return True


raw = st.lists(st.binary(min_size=0, max_size=80), min_size=3, max_size=3).map(lambda ls: [l.replace(b"\0", b" ").decode("latin-1") for l in ls])


def arbitrary(run, lines):
    verify(run, lines)
    return True


def main():
    return run_check(PID, [
        Sub("genuine", sets(), genuine, 2500, 80000, shards=2),
        Sub("broken", altered(), broken, 4000, 150000, shards=2, tshards=6),
        Sub("mean_motion", sets(), mean_motion, 200, 2000),
        Sub("every_digit", st.fixed_dictionaries({"tle": sets()}), every_digit, 30, 600),
        Sub("arbitrary", raw, arbitrary, 2000, 60000, shards=1),
    ], RULE, assumptions=["a genuine set: both checksums, line numbers, equal catalogue numbers, decimal points in their columns, ephemeris type 0",
                          "the parser sees lines of up to 80 characters, as the request handler hands them over"])
