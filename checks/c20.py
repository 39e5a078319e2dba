"""C20: PlutoSDR configuration, streaming and the shared context, against a pretended libiio."""
import re

import numpy as np
from hypothesis import strategies as st

from vlib.core import Sub, Violation, run_check

PID = "C20"
RULE = ("a case is a device request (rates, frequencies, gains, directions), a fault in one device call, a sample stream, or a history of creating, failing, using and "
        "destroying a receiver and a transmitter; non-trivial when the device was created, or a fault was really hit")
NO_FIR = 2083334  # the AD936x cannot go lower without its filter: 25 MHz / 12
rates = st.one_of(st.integers(520834, 61440000), st.sampled_from([520834, 520835, 1041666, 1041667, 1041668, 2083333, 2083334, 2083335, 600000, 1000000, 1500000, 3000000]),
                  st.integers(520834, 2100000))
freqs = st.one_of(st.integers(70_000_000, 6_000_000_000), st.sampled_from([437_525_000, 2 ** 32 - 1, 2 ** 32, 5_999_999_999]))


@st.composite
def cfg(draw, kind):
    gain = draw(st.one_of(st.floats(0, 73) if kind == "rx" else st.floats(-89.75, 0), st.sampled_from([0.0, 1.0, 0.25, 30.5] if kind == "rx" else [0.0, -0.25, -89.75, -30.5])))
    mode = draw(st.sampled_from([0, 0, 0, 1, 2, 3])) if kind == "rx" else 0
    return [draw(rates), draw(freqs), mode, draw(st.integers(-100000, 100000)), round(gain, 4)]


@st.composite
def requests(draw):
    d = draw(st.sampled_from(["rx", "rx", "tx", "tx", "both"]))
    return {"rx": draw(cfg("rx")) if d != "tx" else None, "tx": draw(cfg("tx")) if d != "rx" else None,
            "rx_only": d == "rx" and draw(st.booleans()), "timeout": draw(st.integers(1, 60000)), "max": draw(st.sampled_from([1, 2, 3, 64, 1000, 4096, 100000]))}


class Hardware:
    """what the device holds after the calls it saw"""

    def __init__(self):
        self.attr = {}
        self.fir_en = None
        self.fir = None
        self.timeout = None
        self.buffers = []
        self.problems = []

    def line(self, s):
        if s.endswith("FAIL") or "-> none" in s:
            return
        m = re.match(r"attr ([^/]+)/([^/]+)/(in|out) (\S+) = (\S+)$", s)
        if m:
            dev, ch, d, attr, v = m.groups()
            if ch == "out" and attr == "voltage_filter_fir_en":
                self.set_fir(int(v))
                return
            if dev == "ad9361-phy" and ch == "voltage0" and attr == "sampling_frequency":
                self.rate(d, int(v))
            self.attr[(dev, ch, d, attr)] = v
            return
        m = re.match(r"devattr (\S+) in_out_voltage_filter_fir_en = (\d)$", s)
        if m:
            self.set_fir(int(m.group(2)))
            return
        if s.startswith("fir "):
            self.fir = s[4:].split("|")
            return
        m = re.match(r"set_timeout (\d+)$", s)
        if m:
            self.timeout = int(m.group(1))
            return
        m = re.match(r"create_buffer (\S+) (\d+) (\d)$", s)
        if m:
            self.buffers.append((m.group(1), int(m.group(2)), int(m.group(3))))

    def factor(self, d):
        for l in self.fir or ():
            m = re.match(r"(RX|TX) \d+ GAIN -?\d+ (DEC|INT) (\d+)$", l)
            if m and (m.group(1) == "RX") == (d == "in"):
                return int(m.group(3))
        return 1

    def rate(self, d, v):
        if v < NO_FIR:
            if not self.fir_en:
                self.problems.append("rate %d asked for while the filter is off" % v)
            elif v * self.factor(d) < NO_FIR:
                self.problems.append("rate %d asked for with decimation %d" % (v, self.factor(d)))

    def set_fir(self, on):
        if on and self.fir is None:
            self.problems.append("filter enabled without coefficients")
        if not on:
            for d in ("in", "out"):
                v = self.attr.get(("ad9361-phy", "voltage0", d, "sampling_frequency"))
                if v is None or int(v) < NO_FIR:
                    self.problems.append("filter disabled while the %s rate is %s" % (d, v))
        self.fir_en = on


def need(rate):
    return 4 if rate < 1041667 else 2 if rate < NO_FIR else 1


def taps_ok(lines, k, factor):
    """the coefficients low-pass: symmetric, unit gain at 0, nothing left of what folds back"""
    t = np.array([int(l.split(",")[k]) for l in lines], float)
    if len(t) not in (16, 32, 48, 64, 80, 96, 112, 128):
        return "%d coefficients" % len(t)
    nz = np.flatnonzero(t)
    if len(nz) and (t[nz[0]:nz[-1] + 1] != t[nz[0]:nz[-1] + 1][::-1]).any():
        return "not symmetric"
    f = np.abs(np.fft.rfft(t, 8192)) / 32768
    w = np.arange(len(f)) / 8192
    edge = 0.5 / factor
    if not (f[w < 0.6 * edge] > 0.4 * f[0]).all() or f[0] < 0.5:
        return "pass band"
    if (f[w > 1.4 * edge] > 0.1 * f[0]).any():
        return "stop band"
    return None


def check_state(hw, c, powerdown_may_fail=False):
    """everything the request asks for is set"""
    want = []
    for kind, cf in (("rx", c["rx"]), ("tx", c["tx"])):
        if cf is None:
            continue
        d, lo = ("in", "altvoltage0") if kind == "rx" else ("out", "altvoltage1")
        want += [(("ad9361-phy", lo, "out", "frequency"), cf[1]), (("ad9361-phy", "voltage0", d, "rf_bandwidth"), cf[0]),
                 (("ad9361-phy", "voltage0", d, "sampling_frequency"), cf[0])]
        if kind == "rx":
            want.append((("ad9361-phy", "voltage0", "in", "gain_control_mode"), ["manual", "fast_attack", "slow_attack", "hybrid"][cf[2]]))
        if cf[2] == 0:
            want.append((("ad9361-phy", "voltage0", d, "hardwaregain"), cf[4]))
        if kind == "tx":
            want.append((("ad9361-phy", "altvoltage1", "out", "powerdown"), 0))
            for n in ("TX1_I_F1", "TX1_Q_F1", "TX1_I_F2", "TX1_Q_F2"):
                want.append((("cf-ad9361-dds-core-lpc", n, "out", "raw"), 0))
        dev = "cf-ad9361-lpc" if kind == "rx" else "cf-ad9361-dds-core-lpc"
        if (dev, c["max"], 0) not in hw.buffers:
            raise Violation("no buffer of %d samples on %s: %s" % (c["max"], dev, hw.buffers))
        k = need(cf[0])
        if k > 1:
            if not hw.fir_en:
                raise Violation("rate %d without the filter" % cf[0])
            if hw.factor(d) != k and not (c["rx"] and c["tx"]):
                raise Violation("rate %d with decimation %d" % (cf[0], hw.factor(d)))
            if cf[0] * hw.factor(d) < NO_FIR:
                raise Violation("rate %d with decimation %d" % (cf[0], hw.factor(d)))
            rows = [l for l in hw.fir if re.match(r"-?\d+,-?\d+$", l)]
            bad = taps_ok(rows, 0 if kind == "tx" else 1, k)
            if bad:
                raise Violation("filter of %s: %s" % (kind, bad))
    if all(need(cf[0]) == 1 for cf in (c["rx"], c["tx"]) if cf) and hw.fir_en != 0:
        raise Violation("rate %s with the filter left as it was" % [cf[0] for cf in (c["rx"], c["tx"]) if cf])
    if c["rx_only"] and c["rx"] and not powerdown_may_fail:
        want.append((("ad9361-phy", "altvoltage1", "out", "powerdown"), 1))
    for k, v in want:
        got = hw.attr.get(k)
        ok = got is not None and (got == v if isinstance(v, str) else abs(float(got) - v) < 1e-5)
        if not ok:
            raise Violation("%s is %s, requested %s" % ("/".join(k), got, v))
    if hw.timeout != c["timeout"]:
        raise Violation("timeout %s, requested %d" % (hw.timeout, c["timeout"]))
    if hw.problems:
        raise Violation(hw.problems[0])


def replay(log):
    hw = Hardware()
    for l in log.split("\n"):
        hw.line(l)
    return hw


def create(c, k=1):
    return ("create", k, c["rx_only"], c["rx"], c["tx"], c["timeout"], c["max"])


def idle(s, what, users=0):
    """nothing of the device is in use beyond what its users hold"""
    if s["misuse"]:
        raise Violation("%s: the device library was misused (%d)" % (what, s["misuse"]))
    want = {"contexts": 1 if users else 0, "buffers": users, "enabled": 2 * users, "scans": 0}
    for k, v in want.items():
        if s[k] != v:
            raise Violation("%s: %d %s in use, expected %d" % (what, s[k], k, v))


def users_of(c):
    return (c["rx"] is not None) + (c["tx"] is not None)


def configure(run, c):
    r = run.worker(iio=True).pluto([create(c)])
    if r["res"][0] != 0:
        raise Violation("not created: %s" % r["res"])
    idle(r["state"][0], "created", users_of(c))
    check_state(replay(r["log"]), c)
    idle(r["end"], "destroyed")
    if r["leak"]:
        raise Violation("%d allocations left" % r["leak"])
    return "fir%d" % max(need(x[0]) for x in (c["rx"], c["tx"]) if x)


@st.composite
def low(draw):
    c = draw(requests())
    k = draw(st.sampled_from([k for k in ("rx", "tx") if c[k]]))
    c[k][0] = draw(st.one_of(st.integers(1, 520833), st.sampled_from([520833, 48000, 1])))
    return c


def refuse(run, c):
    """a rate the device cannot have is refused, and nothing stays open"""
    r = run.worker(iio=True).pluto([create(c)])
    if r["res"][0] == 0:
        raise Violation("rate accepted")
    idle(r["state"][0], "refused")
    if r["leak"]:
        raise Violation("%d allocations left" % r["leak"])
    return True


def fault(run, c):
    """each single device call failing, and everything failing from that call on"""
    w = run.worker(iio=True)
    calls = w.pluto([create(c)])["state"][0]["calls"]
    points = range(1, calls + 1) if c["every"] else [1 + c["at"] % calls]
    other = c["other"]
    hit = 0
    for n in points:
        steps = [create(other, 9)] if other else []
        at = len(steps) + 1
        steps += [("ctl", {"calls": 0, "fail_at": n, "fail_all": int(c["all"])}), create(c), ("ctl", {"fail_at": 0, "fail_all": 0})]
        base = users_of(other) if other else 0
        if other:
            steps += [("destroy", 9)]
        steps += [create(c, 2)]
        r = w.pluto(steps)
        s = r["state"][at]
        if not s["failed"]:
            continue
        hit += 1
        begin = r["state"][at - 1]["log"]
        log = r["log"][begin:s["log"]]
        failed = [l for l in log.split("\n") if l.endswith("FAIL") or "-> none" in l]
        what = "call %d (%s)" % (n, failed[0] if failed else "")
        if other and r["res"][0] != 0:
            raise Violation("not created")
        if r["res"][at] == 0:
            # whatever failed was of no consequence
            idle(s, what, base + users_of(c))
            try:
                check_state(replay(log), c, powerdown_may_fail=True)
            except Violation as e:
                raise Violation("created although %s failed: %s" % (what, e)) from None
            continue
        idle(s, what, base)
        if s["live"] != r["state"][at - 1]["live"]:
            raise Violation("%s: %d allocations left" % (what, s["live"] - r["state"][at - 1]["live"]))
        if other:
            idle(r["state"][at + 2], "the other device destroyed after %s" % what, 0)
        if r["res"][-1] != 0:
            raise Violation("not created once the device works again: %s" % what)
        idle(r["end"], "destroyed")
        if r["leak"]:
            raise Violation("%d allocations left" % r["leak"])
    return ("with another user" if other else "alone") if hit else None


@st.composite
def faults(draw):
    c = draw(requests())
    c["other"] = None
    c["every"] = draw(st.booleans())
    c["at"] = draw(st.integers(0, 60))
    c["all"] = draw(st.booleans())
    if (c["rx"] is None) != (c["tx"] is None) and draw(st.booleans()):
        c["other"] = {"rx": draw(cfg("rx")) if c["tx"] else None, "tx": draw(cfg("tx")) if c["rx"] else None, "rx_only": False, "timeout": 100, "max": 64}
    return c


@st.composite
def rx_streams(draw):
    mx = draw(st.sampled_from([1, 2, 7, 64, 1000]))
    n = draw(st.integers(1, 5 * mx))
    return {"max": mx, "n": n, "chunk": draw(st.one_of(st.just(0), st.integers(1, mx))), "seed": draw(st.integers(0, 2 ** 31)), "kind": draw(st.sampled_from(["12", "16", "edge"])),
            "fail": draw(st.one_of(st.just(0), st.integers(1, 8))), "stop": draw(st.one_of(st.none(), st.integers(0, 12)))}


def rx_stream(run, c):
    rng = np.random.default_rng(c["seed"])
    if c["kind"] == "edge":
        data = rng.choice([-2048, 2047, 0, -1, 1, 32767, -32768], (c["n"], 2)).astype(np.int16)
    else:
        b = 2048 if c["kind"] == "12" else 32768
        data = rng.integers(-b, b, (c["n"], 2)).astype(np.int16)
    size = c["chunk"] or c["max"]
    reads = -(-c["n"] // size) + 2 + (1 if c["fail"] else 0)
    steps = [create({"rx": [3000000, 437000000, 0, 0, 10], "tx": None, "rx_only": False, "timeout": 100, "max": c["max"]}),
             ("ctl", {"rx_chunk": c["chunk"], "rx_fail_at": c["fail"]})]
    for i in range(reads):
        if c["stop"] == i:
            steps.append(("stop", 1))
        steps.append(("rx", 1))
    steps.append(("tx", 1, np.zeros(3, np.complex64)))
    r = run.worker(iio=True).pluto(steps, data)
    if r["res"][0] != 0:
        raise Violation("not created")
    pos, stopped, k = 0, False, 0
    for st_, res in zip(steps[2:-1], r["res"][2:-1]):
        if st_[0] == "stop":
            stopped = True
            continue
        k += 1
        code, out = res
        n = min(size, c["n"] - pos)
        if stopped or k == c["fail"] or n == 0:
            if code == 0 or len(out):
                raise Violation("read %d: code %d, %d samples; %s" % (k, code, len(out), "stopped" if stopped else "the device failed"))
            continue
        if code != 0:
            raise Violation("read %d: code %d" % (k, code))
        want = (data[pos:pos + n, 0].astype(np.float64) + 1j * data[pos:pos + n, 1].astype(np.float64)) / 2048
        if len(out) != n or not np.array_equal(out.astype(np.complex128), want):
            raise Violation("read %d: %d samples for %d, or other values than sample / 2048" % (k, len(out), n))
        pos += n
    if r["res"][-1] == 0:
        raise Violation("a receiver accepted samples to transmit")
    idle(r["end"], "destroyed")
    return True


@st.composite
def tx_streams(draw):
    mx = draw(st.sampled_from([1, 2, 3, 7, 64, 1000]))
    return {"max": mx, "blocks": draw(st.lists(st.integers(0, 4 * mx), min_size=1, max_size=6)), "seed": draw(st.integers(0, 2 ** 31)),
            "amp": draw(st.sampled_from([0.001, 0.9, 1.0, 1.00001, 2.0, 1e6])), "fail": draw(st.one_of(st.just(0), st.integers(1, 12)))}


def tx_stream(run, c):
    rng = np.random.default_rng(c["seed"])
    blocks = []
    for n in c["blocks"]:
        v = rng.uniform(-1, 1, (n, 2))
        v[rng.random((n, 2)) < 0.1] = 1
        v[rng.random((n, 2)) < 0.1] = -1
        v *= c["amp"]
        blocks.append((v[:, 0] + 1j * v[:, 1]).astype(np.complex64))
    steps = [create({"rx": None, "tx": [3000000, 437000000, 0, 0, -10], "rx_only": False, "timeout": 100, "max": c["max"]}), ("ctl", {"tx_fail_after": c["fail"]})]
    steps += [("tx", 1, b) for b in blocks] + [("rx", 1)]
    r = run.worker(iio=True).pluto(steps)
    if r["res"][0] != 0:
        raise Violation("not created")
    sent = 0
    pushes = [0] + [s["pushes"] for s in r["state"]]
    for i, b in enumerate(blocks):
        k = i + 2
        s, before = r["state"][k], r["state"][k - 1]
        got = r["tx"][before["tx"] // 4:s["tx"] // 4]
        failed = c["fail"] and before["pushes"] < c["fail"] <= s["pushes"]
        if failed:
            if r["res"][k] == 0:
                raise Violation("block %d: the device refused a buffer, yet no error" % i)
            if len(got) > len(b):
                raise Violation("block %d: more samples than given" % i)
            b = b[:len(got)]
        elif r["res"][k] != 0:
            raise Violation("block %d of %d samples: code %d" % (i, len(b), r["res"][k]))
        if len(got) != len(b):
            raise Violation("block %d: %d of %d samples reached the device" % (i, len(got), len(b)))
        want = np.clip(np.stack([b.real, b.imag], 1).astype(np.float64) * 32768, -32768, 32767)
        if len(b) and np.abs(got - want).max() > 1.0001:
            j = int(np.abs(got - want).max(1).argmax())
            raise Violation("block %d sample %d: %s sent as %s" % (i, j, b[j], got[j]))
    for l in r["log"].split("\n"):
        m = re.match(r"push (\d+)", l)
        if m and not 1 <= int(m.group(1)) <= c["max"]:
            raise Violation("push of %s samples into a buffer of %d" % (m.group(1), c["max"]))
    if r["res"][-1][0] == 0:
        raise Violation("a transmitter delivered received samples")
    idle(r["end"], "destroyed")
    return "failed push" if c["fail"] and c["fail"] <= r["state"][-1]["pushes"] else "ok"


@st.composite
def histories(draw):
    ops = draw(st.lists(st.tuples(st.sampled_from(["rx", "tx"]), st.sampled_from(["toggle", "toggle", "toggle", "fail", "low", "use", "none", "stop"]), st.integers(1, 40)), min_size=3, max_size=30))
    return {"ops": [list(o) for o in ops], "rx": draw(cfg("rx")), "tx": draw(cfg("tx")), "max": draw(st.sampled_from([2, 64]))}


def history(run, c):
    """the context lives exactly while someone uses it"""
    steps, expect = [], []
    alive = set()
    marks = set()
    for kind, op, n in c["ops"]:
        cf = {"rx": c["rx"] if kind == "rx" else None, "tx": c["tx"] if kind == "tx" else None, "rx_only": False, "timeout": 50, "max": c["max"]}
        if op == "toggle":
            if kind in alive:
                steps.append(("destroy", kind))
                alive.discard(kind)
            else:
                steps.append(create(cf, kind))
                alive.add(kind)
            expect.append(("ok", set(alive)))
            if len(alive) == 2:
                marks.add("shared")
        elif op in ("fail", "low", "none") and kind not in alive:
            if op == "low":
                cf = dict(cf, **{kind: [1000] + list(cf[kind][1:])})
            if op == "none" and alive:
                continue  # no scan then
            steps.append(("ctl", {"fail_at": n, "fail_all": 0} if op == "fail" else {"no_device": 1} if op == "none" else {}))
            expect.append((None, set(alive)))
            steps.append(create(cf, kind))
            expect.append(("maybe" if op == "fail" else "refused", set(alive)))
            if op == "fail":
                steps.append(("destroy", kind))  # in case the fault was never reached
                expect.append((None, set(alive)))
            steps.append(("ctl", {"fail_at": 0, "no_device": 0}))
            expect.append((None, set(alive)))
            marks.add("failed")
        elif op == "use" and kind in alive:
            steps.append(("rx", kind) if kind == "rx" else ("tx", kind, np.zeros(5, np.complex64)))
            expect.append((None, set(alive)))
        elif op == "stop" and "rx" in alive:
            steps.append(("stop", "rx"))
            expect.append((None, set(alive)))
    ids = {"rx": 1, "tx": 2}
    steps = [(s[0],) + ((ids[s[1]],) if s[0] != "ctl" else (s[1],)) + tuple(s[2:]) for s in steps]
    r = run.worker(iio=True).pluto(steps, np.zeros((100, 2), np.int16))
    for i, (s, (e, users), res, state) in enumerate(zip(steps, expect, r["res"], r["state"])):
        what = "after step %d of %s" % (i, [(x[0], x[1]) for x in steps[:i + 1]])
        if e == "ok" and res != 0:
            raise Violation("%s: code %s" % (what, res))
        if e == "refused" and res == 0:
            raise Violation("%s: created" % what)
        extra = 1 if e == "maybe" and res == 0 else 0
        idle(state, what, len(users) + extra)
    idle(r["end"], "at the end")
    if r["leak"]:
        raise Violation("%d allocations left" % r["leak"])
    return " ".join(sorted(marks)) or None


@st.composite
def thread_runs(draw):
    return {"rx": draw(cfg("rx")), "tx": draw(cfg("tx")), "n": [draw(st.integers(1, 12)), draw(st.integers(1, 12))], "use": draw(st.booleans()),
            "seed": draw(st.integers(1, 2 ** 31)), "prob": draw(st.sampled_from([0, 200, 600])), "us": draw(st.sampled_from([50, 500]))}


def threads(run, c):
    """a receiver and a transmitter which come and go at the same time"""
    scripts = []
    for kind, n in zip(("rx", "tx"), c["n"]):
        cf = {"rx": c["rx"] if kind == "rx" else None, "tx": c["tx"] if kind == "tx" else None, "rx_only": False, "timeout": 50, "max": 8}
        s = []
        for i in range(n):
            s.append(create(cf, 1 if kind == "rx" else 2))
            if c["use"] and kind == "tx":
                s.append(("tx", 2, np.zeros(5, np.complex64)))
            s.append(("destroy", 1 if kind == "rx" else 2))
        scripts.append(s)
    r = run.worker(iio=True).pluto_threads(scripts, (c["seed"], c["prob"], c["us"]))
    if r["hung"]:
        run.fresh()
        run._workers = {}
        raise Violation("never returned")
    for s, o in zip(scripts, r["res"]):
        for a, (code, ctx) in zip(s, o):
            if code != 0:
                raise Violation("%s %s: code %s" % (a[0], a[1], code))
            if a[0] != "destroy" and ctx != 1:
                raise Violation("%d contexts while a device is open" % ctx)
    idle(r["end"], "at the end")
    if r["leak"]:
        raise Violation("%d allocations left" % r["leak"])
    return True


def main():
    return run_check(PID, [
        Sub("configure", requests(), configure, 600, 20000),
        Sub("refuse", low(), refuse, 100, 2000),
        Sub("fault", faults(), fault, 120, 3000, shards=2),
        Sub("rx_stream", rx_streams(), rx_stream, 500, 20000),
        Sub("tx_stream", tx_streams(), tx_stream, 500, 20000),
        Sub("history", histories(), history, 300, 10000, shards=2),
        Sub("threads", thread_runs(), threads, 100, 4000),
    ], RULE, assumptions=["the device is a pretended libiio: what real hardware does with the values it is given is outside",
                          "one receiver and one transmitter at most, as the server allows"])
