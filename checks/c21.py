"""C21: allocations and thread creations which fail."""
import os
import time

import numpy as np
from hypothesis import strategies as st

from checks import gen, srv
from vlib import client, ops, proto
from vlib.server import LONG, Upstream
from vlib.core import Sub, Violation, run_check

PID = "C21"
RULE = ("a case is a component with its parameters and the position of the allocation (or of the first of a row) which is refused; non-trivial when the refused "
        "allocation was really reached")
TLE = ["LUCKY-7", "1 44406U 19038W   20069.88080907  .00000505  00000-0  32890-4 0  9992", "2 44406  97.5270  32.5584 0026284 107.4758 252.9348 15.12089395 37524"]
BIG = 60000


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(["gfsk_mod", "freq_mod", "gaussian_taps", "convolve", "lp_taps", "lpf", "quad_demod", "dc_block", "clock", "mmse", "fsk_demod",
                                 "fsk_demod", "sig", "doppler", "queue_script", "file_rx", "file_tx", "file_script", "pluto", "config", "iio_library"]))
    return {"kind": kind, "a": draw(st.integers(0, 2 ** 31)), "at": draw(st.floats(0, 1)), "every": draw(st.booleans()), "keep": draw(st.booleans()),
            "back": draw(st.integers(0, 12))}


def calls(run, c):
    """the operation, deterministic for the case"""
    g = np.random.default_rng(c["a"])
    k = c["kind"]
    d = client_dir(run)
    mb = int(g.choice([1, 8, 100, 1024, BIG]))
    n = min(mb, 200)
    cx = gen.signal("noise", n, c["a"])
    fl = gen.signal("noise", n, c["a"], cplx=False)
    if k == "gfsk_mod":
        return k, (float(g.choice([2, 5, 10, 300])), 0.3, 0.5, mb, [np.arange(min(n, 20)) % 256]), {}
    if k == "freq_mod":
        return k, (0.3, mb, [fl]), {}
    if k == "gaussian_taps":
        return k, (1.0, 5.0, 0.5, int(g.integers(1, 60))), {}
    if k == "convolve":
        return k, (fl, gen.signal("noise", int(g.integers(1, 20)), 5, cplx=False)), {}
    if k == "lp_taps":
        return k, (1.0, 48000, int(g.integers(1000, 20000)), int(g.integers(500, 5000))), {}
    if k == "lpf":
        cp = bool(g.integers(2))
        return k, (int(g.integers(1, 5)), 48000, int(g.integers(1000, 20000)), int(g.integers(500, 5000)), mb, cp, [cx if cp else fl]), {}
    if k == "quad_demod":
        return k, (1.3, mb, [cx]), {}
    if k == "dc_block":
        return k, (int(g.choice([2, 3, 32, 500])), [fl]), {}
    if k == "clock":
        return k, (float(g.uniform(2, 12)), 0.01, 0.5, 0.1, 0.01, mb, [fl]), {}
    if k == "mmse":
        return k, (list(range(8)), [0.5]), {}
    if k == "fsk_demod":
        return k, (48000, int(g.choice([1200, 4800, 9600])), int(g.choice([2400, 5000])), int(g.integers(1, 4)), 2000, bool(g.integers(2)), mb, [cx]), {}
    if k == "sig":
        return k, (1.0, 48000, mb, [(1000, cx), (500, n)]), {}
    if k == "doppler":
        return k, (51.5, 0.1, 0.02, 48000, 437525000, int(g.choice([0, 1000])), 1583840449, mb, TLE, "rx" if g.integers(2) else "tx", [cx]), {}
    if k == "queue_script":
        return k, (int(g.choice([1, 16, 300])), int(g.integers(1, 20)), bool(g.integers(2)), [("put", 1, 1), ("take",), ("complete",)]), {}
    if k in ("file_rx", "file_tx", "file_script"):
        src = os.path.join(d, "in.cf32")
        with open(src, "wb") as f:
            f.write(cx.tobytes())
        off = int(g.choice([0, 0, 700]))
        if k == "file_rx":
            return k, (src, 48000, off, mb, 1), {}
        if k == "file_tx":
            return k, (os.path.join(d, "out.cf32"), 48000, off, mb, [cx]), {}
        return k, (src, os.path.join(d, "out.cf32"), 48000, off, mb, [("rx",), ("tx", cx)]), {}
    if k == "pluto":
        rx = [int(g.choice([600000, 1500000, 3000000])), 437000000, 0, 0, 10.0]
        tx = [int(g.choice([600000, 1500000, 3000000])), 437000000, 0, 0, -10.0]
        w = int(g.integers(3))
        return k, ([("create", 1, False, rx if w != 1 else None, tx if w != 0 else None, 100, mb)],), {"iio": True}
    if k == "config":
        p = os.path.join(d, "c.conf")
        items = ['bind_address="127.0.0.1";', 'port=8081;', 'rx_sdr_server_address="127.0.0.1";', 'base_path="/tmp";', 'rx_file_base_path="/tmp/a";',
                 'tx_file_base_path="/tmp/b";', 'rx_sdr_type="%s";' % g.choice(["sdr-server", "plutosdr", "file"]), 'tx_sdr_type="%s";' % g.choice(["none", "plutosdr", "file"])]
        with open(p, "w") as f:
            f.write("\n".join(i for i in items if g.random() < 0.8) + "\n")
        return k, (p,), {"iio": True}
    return k, (), {"iio": True}


def client_dir(run):
    if not hasattr(run, "_dir") or not os.path.isdir(run._dir):
        run._dir = client.scratch()
    return run._dir


def same(a, b):
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        return a.dtype == b.dtype and a.shape == b.shape and a.tobytes() == b.tobytes()
    return a == b or (a != a and b != b)


def code_of(k, r):
    return r["res"][0] if k == "pluto" else r["code"]


def relevant(k, r):
    return {"res": r["res"], "log": r["log"]} if k == "pluto" else r


def allocation(run, c):
    k, args, kw = calls(run, c)
    w = run.worker(**kw)
    w.call(k, *args)  # whatever is set up only once
    clean, total, places = w.call("counted", k, args)
    if code_of(k, clean) != 0 or clean["leak"] if "leak" in clean else False:
        raise Violation("%s: %s without any fault" % (k, clean))
    if total == 0:
        return None
    if c["every"] and total <= 25:
        points = list(range(1, total + 1))
    elif c["every"] and len(places) <= 60:
        # every place of the program
        points = places
    else:
        points = [max(1, total - c["back"]) if c["at"] > 0.6 else 1 + int(c["at"] / 0.6 * (total - 1))]
    hit = 0
    for n in points:
        r = w.with_fault(n, c["keep"], k, args)
        if not r["failed"]:
            continue
        hit += 1
        what = "%s, allocation %d of %d refused" % (k, n, total)
        if r["leak"]:
            raise Violation("%s: %d allocations left" % (what, r["leak"]))
        if r["r"].get("fdleak"):
            raise Violation("%s: %d files left open" % (what, r["r"]["fdleak"]))
        if k == "pluto":
            e = r["r"]["end"]
            if e["contexts"] or e["buffers"] or e["enabled"] or e["scans"] or e["misuse"]:
                raise Violation("%s: the device stays in use: %s" % (what, {x: e[x] for x in ("contexts", "buffers", "enabled", "scans", "misuse")}))
        if code_of(k, r["r"]) == 0 and not same(relevant(k, r["r"]), relevant(k, clean)):
            raise Violation("%s: no error, and another result than without the fault" % what)
        again = w.call(k, *args)
        if not same(relevant(k, again), relevant(k, clean)):
            raise Violation("%s: afterwards the same operation gives another result" % what)
    return k if hit else None


@st.composite
def sessions(draw):
    conf = {"rx": draw(st.sampled_from(["file", "plutosdr", "sdr-server"])), "tx": draw(st.sampled_from(["file", "plutosdr"])), "B": draw(st.sampled_from([16, 512]))}
    tx = draw(st.booleans())
    if tx:
        r = draw(srv.tx_request(low=520834 if conf["tx"] == "plutosdr" else 0, dopp=0.4, name="out.cf32"))
    else:
        r = draw(srv.rx_request(conf["rx"], low=520834 if conf["rx"] == "plutosdr" else 0, dopp=0.4))
    return {"conf": conf, "tx": tx, "req": r, "keep": draw(st.booleans()), "first": draw(st.integers(0, 3)), "step": draw(st.sampled_from([1, 1, 2])), "threads": draw(st.booleans()),
            "shared": draw(st.booleans()), "seed": draw(st.integers(0, 2 ** 31)), "sched": draw(st.booleans())}


class Attempt:
    """one request, and a short session when it is accepted"""

    def __init__(self, s, c, up):
        self.s, self.c, self.up = s, c, up
        body = (proto.tx_body if c["tx"] else proto.rx_body)(c["req"])
        self.msg = proto.message(proto.TX_REQUEST if c["tx"] else proto.RX_REQUEST, body)
        self.ref = None
        self.slack = False
        self.x = np.zeros(0, np.complex64)
        self.data = proto.message(proto.TX_DATA, proto.tx_data_body(b"\x5a\xa5\x0f" * 6))

    def result(self, k, what):
        """what an accepted client gets"""
        s, r = self.s, self.c["req"]
        if self.up:
            u = self.up.conns[-1]
            self.up.wait(lambda: u.answered, "the request to the upstream")
            u.send(self.x)
        if self.c["conf"]["rx"] == "plutosdr":
            # it never ends: the samples have to be taken from the device
            n, end = s.iget("refills"), time.time() + LONG
            while s.iget("refills") < n + 2:
                s.check_alive(what)
                if time.time() > end:
                    raise Violation("%s: the request was accepted, but nobody reads from the device" % what)
                time.sleep(0.001)
            srv.finish(k, what)
            return []
        s.quiet(hold=0.02)
        got = [srv.finish(k, what)]
        if r["type"] != proto.NONE and r["dest"] != proto.SOCKET:
            got.append(s.data("demod", k.id).tobytes())
        if r["dump"]:
            got.append(s.data("rx", k.id).tobytes())
        return got

    def go(self, what, must, failed=None, ref=False):
        """failed: the counter of what was refused; ref: remember what the client got"""
        s = self.s
        f1 = s.get(failed) if failed else 0
        k = s.connect()
        k.send(self.msg)
        a = k.maybe_response(what)
        if a is None or a[0] == proto.FAILURE:
            if must:
                raise Violation("%s: %s" % (what, "closed without an answer" if a is None else "answered with %s" % (a,)))
            if a is not None:
                if a[1] not in (proto.INVALID, proto.INTERNAL):
                    raise Violation("%s: answered with %s" % (what, a))
                b = k.read_some()
                if b is None or b:
                    s.check_alive(what)
                    raise Violation("%s: the connection %s after the failure" % (what, "stays open" if b is None else "goes on"))
            k.close()
            # a connection whose options cannot be set is closed, and may or may not have been counted
            self.slack = a is None and failed == "sys_failed" and s.get(failed) > f1
            return False
        if self.slack and a == (proto.SUCCESS, k.id - 1):
            s.count -= 1
            k.id -= 1
        self.slack = False
        if a != (proto.SUCCESS, k.id):
            raise Violation("%s: answered with %s" % (what, a))
        # the session is set up
        s.ctl(alloc_fail_at=0, thread_fail_at=0, sys_fail_at=0)
        if not self.c["tx"] and (ref or (failed and s.get(failed) > f1)):
            got = self.result(k, what)
            if ref:
                self.ref = got
            elif got != self.ref:
                raise Violation("%s: the request was accepted, but its client got %s bytes instead of %s" % (what, [len(g) for g in got], [len(g) for g in self.ref]))
            return True
        if self.c["tx"]:
            for i in range(3):
                f0 = s.get("alloc_failed")
                # nothing else needs memory now
                s.ctl(alloc_fail_at=1 if must and i == 1 else 0)
                k.send(self.data)
                a = k.response(what)
                s.ctl(alloc_fail_at=0)
                refused = s.get("alloc_failed") > f0
                if a[0] == proto.FAILURE if not refused else a not in ((proto.SUCCESS, 0), (proto.FAILURE, proto.INVALID), (proto.FAILURE, proto.INTERNAL)):
                    raise Violation("%s: data is answered with %s" % (what, a))
        srv.finish(k, what)
        return True


FAULTS = {"alloc_fail_at": "allocation", "thread_fail_at": "thread", "sys_fail_at": "socket, connection or file"}


def session(run, c):
    conf = c["conf"]
    sc = {"buffer_size": conf["B"], "queue_size": 16, "rx_sdr_type": conf["rx"], "tx_sdr_type": conf["tx"]}
    if "plutosdr" in (conf["rx"], conf["tx"]):
        sc.update(rx_plutosdr_gain=20.0, tx_plutosdr_gain=-10.0, tx_plutosdr_timeout_millis=100)
    up = Upstream() if conf["rx"] == "sdr-server" else None
    if up:
        sc.update(rx_sdr_server_address="127.0.0.1", rx_sdr_server_port=up.port)
    hit = 0
    g = np.random.default_rng(c["seed"])
    rx_data = g.integers(-2000, 2000, (50, 2)).astype(np.int16)
    x = (g.standard_normal(60) + 1j * g.standard_normal(60)).astype(np.complex64)
    try:
        with srv.Serve(run, sc, iio=True, timeout_us=400000, rx_data=rx_data) as s:
            s.ictl(rx_end_mode=1)
            srv.write_in(s, x)
            at = Attempt(s, c, up)
            at.x = np.tile(x, 10)[:conf["B"]]
            other = None
            if c["shared"] and not c["tx"] and conf["rx"] != "plutosdr":
                other = s.connect()
                other.send(at.msg)
                a = other.response("the first client")
                if a[0]:
                    return None
            before = s.baseline
            if other:
                s.ping()
                s.quiet()
                before = s.usage()
            if not at.go("without a fault", False, ref=True):
                return None
            s.idle("without a fault", expect=before)
            n0, t0, y0 = s.get("alloc_total"), s.get("threads_created"), s.get("sys_calls")
            s.ctl(trace=1, traced=0)
            at.go("without a fault", True)
            s.idle("without a fault", expect=before)
            # the cycle which is counted includes the clients of idle()
            total, threads, calls = s.get("alloc_total") - n0, s.get("threads_created") - t0, s.get("sys_calls") - y0
            s.ctl(trace=0)
            places = ops.places(s.trace())
            if c["sched"]:
                s.ctl(sched_seed=c["seed"], sched_max_us=300, sched_prob=100)
            points = [("thread_fail_at", n) for n in range(1, threads + 1)] if c["threads"] else []
            points += [("sys_fail_at", n) for n in range(1, calls + 1)]
            # every place of the program, first and last time, and some more
            g = np.random.default_rng(c["seed"])
            more = [int(n) for n in g.integers(1, total + 1, 10)]
            points += [("alloc_fail_at", n) for n in sorted(set(places[c["first"] % c["step"]::c["step"]] + more))]
            points = [points[int(i)] for i in g.permutation(len(points))] if len(points) > 60 else points
            end = time.time() + (15 if run.tier == "quick" else 120)
            for word, n in points:
                if time.time() > end:
                    break
                what = "%s %d refused" % (FAULTS[word], n)
                failed = word.replace("fail_at", "failed")
                f0 = s.get(failed)
                s.ctl(alloc_fail_all=1 if c["keep"] and word == "alloc_fail_at" else 0)
                s.ctl(**{word: n})
                got = at.go(what, False, failed)
                s.ctl(alloc_fail_at=0, thread_fail_at=0, sys_fail_at=0, alloc_fail_all=0)
                s.check_alive(what)
                faulted = s.get(failed) > f0
                if not faulted and not got:
                    raise Violation("%s: nothing was refused, but the request failed" % what)
                hit += faulted and not got
                s.idle(what, expect=before)
                at.go("after " + what, True)
            s.idle("after all", expect=before)
            if other:
                srv.finish(other, "the first client")
            s.idle("after all")
            if s.iget("misuse"):
                raise Violation("the device library was misused %d times\n%s" % (s.iget("misuse"), s.iio_log()[-600:]))
            if up:
                up.wait(lambda: all(u.over for u in up.conns), "the end of the upstream connections")
    finally:
        if up:
            up.close()
    return ("tx " + conf["tx"] if c["tx"] else "rx " + conf["rx"]) if hit else None


def main():
    return run_check(PID, [
        Sub("allocation", cases(), allocation, 1500, 60000, shards=4),
        Sub("session", sessions(), session, 160, 4000, shards=6, tshards=6, qtime=45, ttime=900),
    ], RULE, assumptions=["allocations inside libconfig, protobuf-c and the C library itself are not refused"])
