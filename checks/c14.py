"""C14: each request gets the right answer."""
import copy
import os

import numpy as np
from hypothesis import strategies as st

from checks import srv
from vlib import orbit, proto
from vlib.core import Sub, Violation, run_check
from vlib.server import Upstream, closed_port

PID = "C14"
RULE = ("a case is a server configuration and a history of connections: requests with any fields absent, zero, extreme or unknown, other message types and versions, sessions "
        "kept open and ended; non-trivial when at least one request was refused for a reason in its content and one was accepted, or a device in use was asked for, "
        "or more than 256 connections came before the last request")

U64, U32 = (1 << 64) - 1, (1 << 32) - 1
# what every field may be besides a sensible value; None: absent
EXTREME = {
    "center": [None, 0, 1, U64, 1 << 63, 1 << 32, U32, 6_000_000_000],
    "rate": [None, 0, 1, 2, 7, U64, 1 << 63, 1 << 32, U32, 10 ** 6, 10 ** 12],
    "dump": [None, 0, 1],
    "offset": [None, 0, 1, -1, U64 >> 1, -(1 << 63), 1 << 33, -(1 << 33)],
    "type": [None, 0, 2, 3, 77, U32],
    "baud": [None, 0, 1, 2, U32, 10 ** 6],
    "decimation": [None, 0, 1, 2, 255, 256, 257, 512, 1000, U32],
    "dest": [None, 0, 1, 2, 3, 100],
}
SUBFIELDS = {
    "fsk": {"deviation": [None, 0, 1, -1, U64 >> 1, -(1 << 63), 10 ** 9], "width": [None, 0, 1, 7, U32, 10 ** 6], "dc": [None, 0, 1]},
    "fsk_tx": {"deviation": [None, 0, 1, -1, U64 >> 1, -(1 << 63), 10 ** 9]},
    "doppler": {"lat": [None, 0, U32, 900000001], "lon": [None, 0, U32], "alt": [None, 0, U32],
                "tle": [[], ["a"], ["a", "b"], ["a", "b", "c", "d"], ["", "", ""], ["x" * 200, "y" * 200, "z" * 200], ["a", "b", "c"], "swap", "blank", "long", "bytes", "none", "one", "two", "four", "six"]},
    "file": {"filename": [None, "", "absent.cf32", "sub/absent.cf32", ".", "ok.cf32", "x" * 300], "start": [None, 0, 1, U64, 1 << 63, 1 << 40, 10 ** 10]},
}


def words(d, k, v):
    """a word in the table of values stands for lines made from the right ones"""
    if not isinstance(v, str) or k != "tle":
        return v
    t = list(d.get("tle", srv.ISS))
    if len(t) != 3:
        return t
    return {"none": [], "one": t[:1], "two": t[:2], "four": t + ["more"], "six": t + t, "swap": [t[0], t[2], t[1]], "blank": [t[0], t[1], " " * 69],
            "long": [t[0] * 30, t[1] + "0" * 90, t[2] + "\r\n"], "bytes": [t[0], t[1][:30] + "\udcff\udc80" + t[1][32:], t[2]]}[v]


def every_change(tx):
    """every value of the tables, one change at a time"""
    out = [(None, k, v) for k in EXTREME if not (tx and k in ("decimation", "dest")) for v in EXTREME[k]]
    for kind in ("fsk", "doppler", "file"):
        for k, vs in SUBFIELDS["fsk_tx" if kind == "fsk" and tx else kind].items():
            out += [(kind, k, v) for v in vs]
        out += [(None, kind, v) for v in (None, {})]
    return out


STRIDE = 16


@st.composite
def sweeps(draw):
    conf = {"rx": draw(st.sampled_from(["file", "file", "plutosdr", "sdr-server"])), "tx": draw(st.sampled_from(["file", "file", "plutosdr"])), "B": 64, "base": True, "up": "accept"}
    bases = {"rx": draw(srv.rx_request(conf["rx"], low=520834 if conf["rx"] == "plutosdr" else 0, dopp=1)), "tx": draw(srv.tx_request(low=520834 if conf["tx"] == "plutosdr" else 0, dopp=1))}
    k = draw(st.integers(0, STRIDE - 1))
    ops = []
    for tx, n in ((False, "rx"), (True, "tx")):
        for kind, field, v in every_change(tx)[k::STRIDE]:
            r = copy.deepcopy(bases[n])
            if kind is None:
                r[field] = copy.deepcopy(v)
            else:
                r[kind][field] = words(r[kind], field, v)
            ops += [[n, r], ["end", 0]]
    return {"conf": conf, "ops": ops}


@st.composite
def mutate(draw, r, tx):
    r = copy.deepcopy(r)
    names = [k for k in EXTREME if not (tx and k in ("decimation", "dest"))]
    for _ in range(draw(st.sampled_from([0, 1, 1, 1, 2, 3]))):
        kind = draw(st.sampled_from(["field"] * 5 + ["fsk", "fsk", "doppler", "doppler", "file", "file", "drop"]))
        if kind == "field":
            k = draw(st.sampled_from(names))
            r[k] = draw(st.sampled_from(EXTREME[k]))
        elif kind == "drop":
            k = draw(st.sampled_from(["fsk", "doppler", "file"]))
            r[k] = draw(st.sampled_from([None, {}]))
        else:
            if kind == "doppler" and not r.get("doppler"):
                d, start = draw(srv.doppler())
                r["doppler"] = d
                r["file"] = {"filename": "in.cf32" if not tx else "out.cf32", "start": start}
            if not r.get(kind):
                continue
            table = SUBFIELDS["fsk_tx" if kind == "fsk" and tx else kind]
            k = draw(st.sampled_from(sorted(table)))
            v = draw(st.sampled_from(table[k]))
            v = words(r[kind], k, v)
            r[kind][k] = v
    return r


@st.composite
def op(draw, conf):
    k = draw(st.sampled_from(["rx"] * 6 + ["tx"] * 6 + ["ping", "type", "version", "long", "short", "garbage", "end", "end"]))
    if k == "rx":
        r = draw(srv.rx_request(conf["rx"], low=520834 if conf["rx"] == "plutosdr" else 0, dopp=0.2))
        return ["rx", draw(mutate(r, False))]
    if k == "tx":
        r = draw(srv.tx_request(low=520834 if conf["tx"] == "plutosdr" else 0, dopp=0.2))
        if conf["tx"] != "file" and draw(st.booleans()):
            r.pop("file", None)
            r.pop("doppler", None)
        return ["tx", draw(mutate(r, True))]
    if k == "type":
        return ["type", draw(st.sampled_from([1, 2, 4, 6, 7, 100, 255])), draw(st.integers(0, 40))]
    if k == "version":
        return ["version", draw(st.integers(1, 255)), draw(st.sampled_from([0, 3, 5, 9])), draw(st.integers(0, 20))]
    if k == "long":
        return ["long", draw(st.sampled_from(["rx", "tx"])), draw(st.sampled_from([proto.MAX_BODY + 1, U32, 1 << 31, 65536]))]
    if k == "short":
        return ["short", draw(st.sampled_from(["rx", "tx"])), draw(st.floats(0, 0.99)), draw(st.booleans())]
    if k == "garbage":
        return ["garbage", draw(st.sampled_from(["rx", "tx"])), draw(st.binary(max_size=60)).hex()]
    if k == "end":
        return ["end", draw(st.integers(0, 5))]
    return [k]


@st.composite
def histories(draw):
    conf = {"rx": draw(st.sampled_from(["file", "file", "plutosdr", "sdr-server"])), "tx": draw(st.sampled_from(["file", "file", "plutosdr", "none"])),
            "B": draw(st.sampled_from([64, 512])), "base": draw(st.sampled_from([True, True, True, False])), "up": draw(st.sampled_from(["accept", "accept", "reject", "refuse", "close"]))}
    return {"conf": conf, "ops": draw(st.lists(op(conf), min_size=1, max_size=12))}


def missing_rx(r):
    """whether a mandatory field is absent"""
    if any(r.get(k) is None for k in ("center", "rate", "dump", "offset", "type", "baud", "decimation", "dest")):
        return True
    return missing_common(r, ("deviation", "width", "dc"))


def missing_common(r, fsk):
    if r.get("fsk") is not None and any(r["fsk"].get(k) is None for k in fsk):
        return True
    if r.get("doppler") is not None and any(r["doppler"].get(k) is None for k in ("lat", "lon", "alt")):
        return True
    if r.get("file") is not None and any(r["file"].get(k) is None for k in ("filename", "start")):
        return True
    return False


def missing_tx(r):
    if any(r.get(k) is None for k in ("center", "rate", "dump", "offset", "type", "baud")):
        return True
    return missing_common(r, ("deviation",))


def bad_rx(r, conf):
    """whether its values are outside what the server takes"""
    if r["type"] != proto.GMSK or r["center"] == 0 or r["rate"] == 0 or r["baud"] == 0 or not 1 <= r["decimation"] <= 255 or r["dest"] not in (0, 1, 2):
        return True
    if r.get("doppler") is not None and len(r["doppler"].get("tle", ())) != 3:
        return True
    if conf["rx"] == "file" and r.get("file") is None:
        return True
    return r.get("fsk") is None or r["fsk"]["width"] == 0


def bad_tx(r, conf):
    if r["type"] != proto.GMSK or conf["tx"] == "none" or r["center"] == 0 or r["rate"] == 0 or r["baud"] == 0 or r.get("fsk") is None:
        return True
    if r.get("doppler") is not None and len(r["doppler"].get("tle", ())) != 3:
        return True
    return conf["tx"] == "file" and r.get("file") is None


def three(w, fn):
    """works / cannot work / depends on how much memory exactly is there"""
    w.limit(srv.LIMIT // 4)
    try:
        if fn():
            return True
        w.limit(srv.LIMIT * 4)
        return None if fn() else False
    finally:
        w.limit(srv.LIMIT)


def settled(r, tx):
    """True for a request which any build can set up, False for one which means nothing, None when the library is asked"""
    if r.get("doppler"):
        l = [proto.as_bytes(x).split(b"\0")[0].decode("latin-1") for x in r["doppler"]["tle"]]
        if not orbit.acceptable(l[1].ljust(69, "\0")[:69], l[2].ljust(69, "\0")[:69]):
            return False
    rate, baud, dev = r["rate"], r["baud"], abs(srv.s64(r["fsk"]["deviation"]))
    if tx:
        if r.get("doppler"):
            return None
        return True if 1 <= rate / baud <= 100 and rate <= 10 ** 7 and dev <= rate else None
    width, carson = r["fsk"]["width"], dev + baud // 2
    if carson > rate // 2 + 1 or baud < 2:
        return False
    if r.get("doppler") or rate > 10 ** 7 or dev == 0 or carson > 0.49 * rate or carson < 20 or rate < 2 * baud * r["decimation"] or rate > 500 * carson or rate > 2000 * width or rate > 1000 * baud:
        return None
    return True


def known(can, r, tx):
    k = settled(r, tx)
    return can if k is None else k


def files_ok(s, name, tx):
    """whether the file device can open what the request names"""
    if name == "":
        return False
    p = os.path.join(s.dir, name)
    if tx:
        return os.path.isdir(os.path.dirname(p)) and not os.path.isdir(p) and len(os.path.basename(name)) < 256
    return os.path.exists(p)


class World:
    def __init__(self, conf):
        self.conf = conf
        self.open = []
        self.tx = None
        self.rx = []


def sets_up_rx(run, s, r, c, world, up):
    """the set of answers the machinery behind the request allows"""
    w = run.worker(iio=True)
    B = c["conf"]["B"]
    need_dir = r["dump"] or r["dest"] != proto.SOCKET
    if need_dir and not c["conf"]["base"]:
        return {(proto.FAILURE, proto.INTERNAL)}

    def fn():
        return srv.ref_rx(w, r, B, []) is not None
    can = known(three(w, fn), r, False)
    bad = (proto.FAILURE, proto.INTERNAL)
    if can is False:
        return {bad}
    src = c["conf"]["rx"]
    if src == "file":
        dev = files_ok(s, r["file"]["filename"], False)
        if dev and srv.s64(r["offset"]):
            dev = three(w, lambda: w.sig(1.0, r["rate"], B, [])["code"] == 0)
    elif src == "plutosdr":
        if world.rx:
            return {(proto.FAILURE, proto.RX_USED)} | ({bad} if can is None else set())
        center = (r["center"] + r["offset"]) & U64
        dev = three(w, lambda: w.pluto([("create", 1, world.tx is None, [r["rate"], center if center < 1 << 53 else 1, 0, 0, 20.0], None, 100, B)])["res"][0] == 0)
    else:
        same = any(o["center"] == r["center"] and o["rate"] == r["rate"] and srv.s64(o["offset"]) == srv.s64(r["offset"]) for _, o in world.rx)
        center = (r["center"] + r["offset"]) & U64
        dev = same or (c["conf"]["up"] == "accept" and r["center"] <= U32 and center <= U32 and r["rate"] <= U32)
    out = set()
    if dev is not True or can is None:
        out.add(bad)
    if dev is not False:
        out.add("ok")
    return out


def sets_up_tx(run, s, r, c, world):
    w = run.worker(iio=True)
    B = c["conf"]["B"]
    bad = (proto.FAILURE, proto.INTERNAL)
    if srv.max_out(r, B) > U32:
        return {bad}
    can = known(three(w, lambda: srv.ref_tx(w, r, B, []) is not None), r, True)
    if can is False or (r["dump"] and not c["conf"]["base"]):
        return {bad}
    if world.tx is not None:
        return {(proto.FAILURE, proto.TX_USED)} | ({bad} if can is None else set())
    if c["conf"]["tx"] == "file":
        dev = files_ok(s, r["file"]["filename"], True)
        if dev:
            dev = three(w, lambda: w.file_script(None, "/dev/null", r["rate"], 0, srv.max_out(r, B), [])["code"] == 0)
    else:
        dev = three(w, lambda: w.pluto([("create", 1, False, None, [r["rate"], r["center"] if r["center"] < 1 << 53 else 1, 0, 0, -10.0], 100, B)])["res"][0] == 0)
    out = set()
    if dev is not True or can is None:
        out.add(bad)
    if dev is not False:
        out.add("ok")
    return out


def expect(c, what, r, allowed):
    got = "ok" if r == (proto.SUCCESS, c.id) else r
    if got not in allowed:
        raise Violation("connection %d, %s: answered with %s, allowed is %s" % (c.id, what, r, sorted(map(str, allowed))))
    return got == "ok"


INVALID = {(proto.FAILURE, proto.INVALID)}


def history(run, c):
    srv.limited(run.worker(iio=True))
    conf = c["conf"]
    up = None
    keep = None
    sc = {"buffer_size": conf["B"], "queue_size": 4, "rx_sdr_type": conf["rx"], "tx_sdr_type": conf["tx"]}
    if "plutosdr" in (conf["rx"], conf["tx"]):
        sc.update(rx_plutosdr_gain=20.0, tx_plutosdr_gain=-10.0, tx_plutosdr_timeout_millis=100)
    if conf["rx"] == "sdr-server":
        if conf["up"] == "refuse":
            keep, port = closed_port()
        else:
            up = Upstream()
            up.mode = conf["up"]
            port = up.port
        sc.update(rx_sdr_server_address="127.0.0.1", rx_sdr_server_port=port)
    world = World(conf)
    refused = accepted = used = 0
    try:
        with srv.Serve(run, sc, iio=True, timeout_us=400000, rx_data=np.zeros((10, 2), np.int16)) as s:
            s.ictl(rx_end_mode=1)
            for n in ("in.cf32", "ok.cf32"):
                srv.write_in(s, np.zeros(40, np.complex64), n)
            if not conf["base"]:
                os.rmdir(s.base)
            for step in c["ops"]:
                kind = step[0]
                if kind == "end":
                    if world.open:
                        k, what, r = world.open.pop(step[1] % len(world.open))
                        srv.finish(k, "ending a session")
                        if what == "rx":
                            world.rx = [(i, o) for i, o in world.rx if i != k.id]
                        else:
                            world.tx = None
                    continue
                k = s.connect()
                if kind == "rx":
                    r = step[1]
                    k.send(proto.message(proto.RX_REQUEST, proto.rx_body(r)))
                    allowed = INVALID if missing_rx(r) or bad_rx(r, conf) else sets_up_rx(run, s, r, c, world, up)
                elif kind == "tx":
                    r = step[1]
                    k.send(proto.message(proto.TX_REQUEST, proto.tx_body(r)))
                    allowed = INVALID if missing_tx(r) or bad_tx(r, conf) else sets_up_tx(run, s, r, c, world)
                elif kind == "ping":
                    k.send(proto.message(proto.PING))
                    allowed = {(proto.SUCCESS, 0)}
                elif kind == "type":
                    k.send(proto.message(step[1], b"\x08" * step[2]))
                    allowed = INVALID
                elif kind == "version":
                    k.send(proto.message(step[2], b"\x08" * step[3], version=step[1]))
                    allowed = INVALID
                elif kind == "long":
                    k.send(proto.message({"rx": proto.RX_REQUEST, "tx": proto.TX_REQUEST}[step[1]], b"", length=step[2]))
                    allowed = INVALID
                elif kind == "garbage":
                    b = bytes.fromhex(step[2])
                    # protocol buffers of nothing but unknown or broken fields miss the mandatory ones
                    k.send(proto.message({"rx": proto.RX_REQUEST, "tx": proto.TX_REQUEST}[step[1]], b))
                    allowed = INVALID
                else:
                    body = proto.rx_body({"center": 1, "rate": 48000, "baud": 4800}) if step[1] == "rx" else proto.tx_body({"center": 1, "rate": 48000})
                    k.send(proto.message({"rx": proto.RX_REQUEST, "tx": proto.TX_REQUEST}[step[1]], body[:int(len(body) * step[2])], length=len(body)))
                    if step[3]:
                        import socket
                        k.s.shutdown(socket.SHUT_WR)
                    allowed = INVALID
                what = "%s %s" % (kind, step[1:])
                answer = k.response(what)
                if expect(k, what, answer, allowed) and kind in ("rx", "tx"):
                    accepted += 1
                    world.open.append((k, kind, r))
                    if kind == "rx":
                        world.rx.append((k.id, r))
                    else:
                        world.tx = k.id
                else:
                    k.ended(what)
                    k.close()
                    if answer[0] == proto.FAILURE and kind in ("rx", "tx"):
                        if answer[1] in (proto.TX_USED, proto.RX_USED):
                            used += 1
                        elif answer[1] == proto.INVALID:
                            refused += 1
                    if answer[0] == proto.FAILURE and not world.open:
                        s.idle("after %s was refused" % what)
            for k, what, r in world.open:
                srv.finish(k, "ending a session")
            s.idle("after all sessions ended")
    finally:
        if up:
            up.close()
        if keep:
            keep.close()
    return "in use" if used else "accepted and refused" if accepted and refused else None


@st.composite
def crowds(draw):
    return {"n": draw(st.one_of(st.integers(250, 262), st.integers(500, 520), st.integers(1, 700))), "rx": draw(srv.rx_request("file", dopp=0)), "tx": draw(srv.tx_request(dopp=0)),
            "refused": draw(st.booleans())}


def crowd(run, c):
    """the numbers of clients after many connections, and the files named after them"""
    w = srv.limited(run.worker())
    rx, tx = dict(c["rx"], dump=True, dest=proto.FILE), dict(c["tx"], dump=True)
    if srv.ref_rx(w, rx, 64, []) is None or srv.ref_tx(w, tx, 64, []) is None:
        return False
    bad = proto.message(proto.RX_REQUEST, proto.rx_body(dict(rx, baud=0)))
    with srv.Serve(run, {"buffer_size": 64, "queue_size": 4, "tx_sdr_type": "file"}, timeout_s=6) as s:
        srv.write_in(s, np.zeros(40, np.complex64))
        first = []
        for i in range(c["n"] + 1):
            if i in (0, c["n"]):
                for r, t, kinds in ((rx, proto.RX_REQUEST, ("rx", "demod")), (tx, proto.TX_REQUEST, ("tx",))):
                    k = s.connect()
                    k.send(proto.message(t, proto.rx_body(r) if t == proto.RX_REQUEST else proto.tx_body(r)))
                    srv.accept(k, k.response("request"), "request after %d connections" % (s.count - 1))
                    for kind in kinds:
                        if not os.path.exists(s.path(kind, k.id)):
                            raise Violation("no file named after client %d" % k.id)
                    first.append(k)
            elif c["refused"] and i % 7 == 0:
                k = s.connect()
                k.send(bad)
                if k.response("a refused request") != (proto.FAILURE, proto.INVALID):
                    raise Violation("an invalid request is not refused as invalid")
                k.close()
            else:
                s.ping()
            if i == 0:
                # the transmitter is free for the last one
                srv.finish(first.pop(), "end")
        for k in first:
            srv.finish(k, "end")
    return c["n"] > 256


def main():
    return run_check(PID, [
        Sub("crowd", crowds(), crowd, 12, 300, shards=2, tshards=4, qtime=40, ttime=300),
        Sub("history", histories(), history, 900, 15000, shards=8, tshards=8, qtime=100, ttime=900),
        Sub("each", sweeps(), history, 160, 2000, shards=4, tshards=4, qtime=100, ttime=900),
    ], RULE, assumptions=["requests which need more than about 16 MB in one piece are answered as by a machine which does not have it",
                          "whether a demodulator, modulator, Doppler correction or device can be set up with certain values is taken from the library itself (judged by C01 to C11, C20, C22)"])
