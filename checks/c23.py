"""C23: the protocol is the documented one, however it is segmented."""
import os
import random
import time

import numpy as np
from hypothesis import strategies as st

from checks import srv
from vlib import models as M
from vlib import proto
from vlib.core import Skip, Sub, Violation, run_check

PID = "C23"
RULE = ("a case is one session: its request in some standard encoding, all its messages as one string of bytes cut anywhere with pauses, socket buffers and the portions the "
        "network takes at a time, and a reader of some speed; non-trivial when the encoding is not the canonical one or the bytes were cut or joined, and the effects "
        "(soft bits, samples, answers) were compared")
MAX = (1 << 64) - 1


# ---- encodings ----
def tree(fields):
    """the canonical encoding as (number, wire type, value) of the top level"""
    out = []
    for f in fields:
        k, i = proto.parse_varint(f, 0)
        if k & 7 == 0:
            v, i = proto.parse_varint(f, i)
        else:
            n, i = proto.parse_varint(f, i)
            v = f[i:i + n]
        out.append((k >> 3, k & 7, v))
    return out


def over(v, rnd, p, limit=10):
    """a varint, possibly longer than it has to be"""
    b = bytearray(proto.varint(v))
    if rnd.random() < p:
        while len(b) < limit and rnd.random() < 0.7:
            b[-1] |= 128
            b.append(0)
    return bytes(b)


def unknown(rnd, known):
    n = rnd.choice([k for k in (1, 2, 3, 12, 13, 15, 16, 99, 1000, 18999, 536870911) if k not in known])
    k = rnd.randrange(4)
    if k == 0:
        return proto.f_int(n, rnd.choice([0, 1, MAX, rnd.getrandbits(40)]))
    if k == 1:
        return proto.varint(n << 3 | 1) + rnd.randbytes(8)
    if k == 2:
        return proto.varint(n << 3 | 5) + rnd.randbytes(4)
    return proto.f_bytes(n, rnd.randbytes(rnd.choice([0, 1, 20, 127, 128, 300])))


def encode(fields, sub, e):
    """another encoding of the same message; sub: known field numbers of submessages by their number"""
    rnd = random.Random(e["seed"])
    if e["plain"]:
        return b"".join(fields)
    t = tree(fields)
    parts = []
    p = 0.3 if e["over"] else 0
    for n, wt, v in t:
        if wt == 0:
            one = over(n << 3, rnd, p, 5) + over(v, rnd, p)
            if e["twice"] and rnd.random() < 0.2:
                # the last one counts
                one = proto.f_int(n, rnd.choice([0, 1, 7, v])) + one
        else:
            if n in sub and rnd.random() < 0.5:
                inner = [(a, b, c) for a, b, c in split(v)]
                rnd2 = list(inner)
                if e["order"]:
                    # repeated fields keep their order
                    slots = [x[0] for x in rnd2]
                    rnd.shuffle(slots)
                    by = {a: [x for x in inner if x[0] == a] for a in set(slots)}
                    rnd2 = [by[a].pop(0) for a in slots]
                ps = [over(a << 3 | b, rnd, p, 5) + (over(c, rnd, p) if b == 0 else over(len(c), rnd, p, 5) + c) for a, b, c in rnd2]
                if e["unknown"]:
                    ps.insert(rnd.randrange(len(ps) + 1), unknown(rnd, sub[n]))
                v = b"".join(ps)
            one = over(n << 3 | 2, rnd, p, 5) + over(len(v), rnd, p, 5) + v
        parts.append(one)
    if e["order"]:
        rnd.shuffle(parts)
    known = range(1, 12)
    for _ in range(e["unknown"]):
        parts.insert(rnd.randrange(len(parts) + 1), unknown(rnd, known))
    b = b"".join(parts)
    if e["fill"]:
        # as long as a message may be
        left = proto.MAX_BODY - len(b) - 1 - 4
        if left > 0x4000:
            b += proto.varint(15 << 3 | 2) + over(left, random.Random(0), 0)[:0] + long_varint(left, 4) + b"\xa5" * left
            if len(b) != proto.MAX_BODY:
                raise ValueError(len(b))
    return b


def long_varint(v, n):
    b = bytearray(proto.varint(v))
    while len(b) < n:
        b[-1] |= 128
        b.append(0)
    return bytes(b)


def split(b):
    i = 0
    while i < len(b):
        k, i = proto.parse_varint(b, i)
        if k & 7 == 0:
            v, i = proto.parse_varint(b, i)
        else:
            n, i = proto.parse_varint(b, i)
            v = b[i:i + n]
            i += n
        yield k >> 3, k & 7, v


RX_SUB = {9: (1, 2, 3, 4), 10: (1, 2, 3), 11: (1, 2)}
TX_SUB = {7: (1, 2, 3, 4), 8: (1,), 9: (1, 2)}


@st.composite
def encodings(draw):
    return {"plain": draw(st.integers(0, 3)) == 0, "order": draw(st.booleans()), "unknown": draw(st.integers(0, 3)), "over": draw(st.booleans()), "twice": draw(st.booleans()),
            "fill": draw(st.integers(0, 5)) == 0, "seed": draw(st.integers(0, 2 ** 31))}


@st.composite
def networks(draw):
    return {"io": draw(st.sampled_from([0, 0, 1, 2, 7, 1000])), "sndbuf": draw(st.sampled_from([0, 1, 5000])), "rcvbuf": draw(st.sampled_from([0, 1])), "client": draw(st.sampled_from([None, 2304])),
            "sched": draw(st.sampled_from([0, 0, 100])), "seed": draw(st.integers(0, 2 ** 31)), "eintr": draw(st.sampled_from([0, 0, 30, 300]))}


@st.composite
def cutting(draw):
    return {"kind": draw(st.sampled_from(["whole", "messages", "cuts", "cuts", "header", "bytes"])), "at": draw(st.lists(st.floats(0, 1), max_size=12)), "pause": draw(st.sampled_from([0, 0, 0.001, 0.005])),
            "join": draw(st.booleans())}


def pieces(msgs, cut):
    """(bytes, pause before them)"""
    all_ = b"".join(msgs)
    pos = [0]
    for m in msgs:
        pos.append(pos[-1] + len(m))
    at = set()
    if not cut["join"] or cut["kind"] == "messages":
        at |= set(pos)
    if cut["kind"] == "cuts":
        at |= set(int(f * len(all_)) for f in cut["at"])
    elif cut["kind"] == "header":
        # every message is cut inside its header or right behind it
        for i, f in zip(range(len(msgs)), cut["at"] * len(msgs)):
            at.add(pos[i] + 1 + int(f * 5.999))
    elif cut["kind"] == "bytes":
        first = pos[0] if not cut["at"] else pos[min(len(msgs) - 1, int(cut["at"][0] * len(msgs)))]
        at |= set(range(first, min(first + 200, len(all_))))
    at = sorted(a for a in at | {0, len(all_)} if 0 <= a <= len(all_))
    return [all_[a:b] for a, b in zip(at, at[1:]) if b > a]


def transport(k, msgs, cut):
    for i, p in enumerate(pieces(msgs, cut)):
        if i and cut["pause"]:
            time.sleep(cut["pause"])
        if not k.send(p):
            return


def tune(s, net):
    s.ctl(io_max=net["io"], sndbuf=net["sndbuf"], rcvbuf=net["rcvbuf"], sched_seed=net["seed"], sched_max_us=200, sched_prob=net["sched"], eintr=net["eintr"])


@st.composite
def receives(draw):
    r = draw(srv.rx_request("file", dopp=0.2))
    r["dest"] = draw(st.sampled_from([1, 1, 2]))
    B = draw(st.sampled_from([64, 512, 4096]))
    n = draw(st.one_of(st.integers(0, 3000), st.just(40000)))
    return {"req": r, "B": B, "n": n, "seed": draw(st.integers(0, 2 ** 31)), "enc": draw(encodings()), "cut": draw(cutting()), "net": draw(networks()),
            "extra": draw(st.lists(st.sampled_from(["ping", "data", "version", "unknown"]), max_size=3)), "early": draw(st.integers(0, 4)) == 0,
            "read": draw(st.sampled_from(["fast", "fast", "small", "slow", "late"]))}


def extras(kinds):
    """messages a receive session has to skip"""
    out = []
    for i, k in enumerate(kinds):
        body = bytes([0, 1, 0, 0, 0, 0] * (5 + i))
        out.append({"ping": proto.message(proto.PING, body), "data": proto.message(proto.TX_DATA, body), "version": proto.message(proto.SHUTDOWN, body, version=9),
                    "unknown": proto.message(77, body)}[k])
    return out


def receive(run, c):
    w = srv.limited(run.worker())
    r, B, net = c["req"], c["B"], c["net"]
    n = c["n"]
    if net["io"] == 1:
        n = min(n, 5000)
    x = srv.samples("gfsk", n, c["seed"], r)
    b = srv.shifted(w, srv.blocks(x, B), r["rate"], r["offset"], B)
    want = None if b is None else srv.ref_rx(w, r, B, b)
    if c["read"] in ("slow", "late"):
        # a short timeout: no long requests through a small window
        net = dict(net, rcvbuf=0)
        c["enc"]["fill"] = False
    body = encode(proto.rx_fields(r), RX_SUB, c["enc"])
    with srv.Serve(run, {"buffer_size": B, "queue_size": 16}, timeout_s=5 if c["read"] not in ("slow", "late") else 1) as s:
        srv.write_in(s, x)
        tune(s, net)
        if c["read"] in ("slow", "late"):
            s.ctl(rcvtimeo_us=100000)
        k = s.connect(rcvbuf=net["client"])
        msgs = [proto.message(proto.RX_REQUEST, body)] + extras(c["extra"])
        cut = c["cut"]
        if c["read"] in ("slow", "late"):
            # the time to send a body is short as well
            cut = dict(cut, pause=0)
        if c["early"]:
            msgs.append(proto.message(proto.SHUTDOWN))
        transport(k, msgs, cut)
        a = k.response("request")
        if want is None:
            if a != (proto.FAILURE, proto.INTERNAL):
                raise Violation("cannot be set up but is answered with %s" % (a,))
            return False
        srv.accept(k, a, "request")
        soft = M.cat(want, np.int8)
        if c["read"] == "late":
            time.sleep(0.35)
        got = bytearray()
        i = 0
        while len(got) < len(soft) or c["early"]:
            d = k.read_some(700 if c["read"] in ("small", "slow") else 1 << 16)
            if d is None:
                s.check_alive()
                raise Violation("%d of %d soft bits after a long time\n%s" % (len(got), len(soft), s.stacks()))
            if not d:
                break
            got += d
            i += 1
            if c["read"] == "slow" and i < 4:
                time.sleep(0.15)
        if c["early"]:
            k.close()
            m = min(len(got), len(soft))
            srv.same_soft(bytes(got[:m]), soft[:m], "soft bits before the end")
            if len(got) > len(soft):
                raise Violation("%d soft bits of %d" % (len(got), len(soft)))
        else:
            got += srv.finish(k, "end")
            srv.same_soft(bytes(got), soft, "soft bits")
    return len(soft) > 8 and ("other encoding" if not c["enc"]["plain"] else "cut" if c["cut"]["kind"] != "whole" else "portions" if net["io"] or net["client"] else None)


@st.composite
def transmits(draw):
    r = draw(srv.tx_request(dopp=0.2))
    B = draw(st.sampled_from([16, 256, 2048]))
    msgs = []
    for _ in range(draw(st.integers(0, 6))):
        k = draw(st.sampled_from(["data"] * 6 + ["skip", "skip", "bad"]))
        if k == "data":
            msgs.append([k, draw(st.one_of(st.integers(0, 50), st.sampled_from([B, 2 * B + 1, 127, 128, 3000]))), draw(st.integers(0, 2 ** 31)), draw(st.sampled_from(["plain", "plain", "unknown", "twice", "long"]))])
        elif k == "skip":
            msgs.append([k, draw(st.sampled_from(["ping", "rx", "version", "unknown"]))])
        else:
            msgs.append([k, draw(st.integers(1, 40))])
    return {"req": r, "B": B, "msgs": msgs, "enc": draw(encodings()), "cut": draw(cutting()), "net": draw(networks()), "shut": draw(st.booleans()),
            "pauses": draw(st.sampled_from([None, None, None, [draw(st.integers(0, 6)), draw(st.integers(0, 5)), draw(st.integers(0, 47))]]))}


def data_msg(op):
    d = np.random.default_rng(op[2]).integers(0, 256, op[1], dtype=np.uint8).tobytes()
    b = proto.tx_data_body(d)
    if op[3] == "unknown":
        b = proto.f_int(2, 5) + b + proto.f_bytes(19, b"abc" * 9)
    elif op[3] == "twice":
        b = proto.tx_data_body(d[::-1] + b"x") + b
    elif op[3] == "long":
        b = long_varint(1 << 3 | 2, 3) + long_varint(len(d), 5) + d
    return d, proto.message(proto.TX_DATA, b)


def transmit(run, c):
    w = srv.limited(run.worker())
    r, B, net = c["req"], c["B"], c["net"]
    if c["pauses"]:
        net = dict(net, rcvbuf=0)
        c["enc"]["fill"] = False
    body = encode(proto.tx_fields(r), TX_SUB, c["enc"])
    per = max(1, int(8 * np.floor(np.float32(r["rate"] / r["baud"]))))
    datas, msgs, want = [], [proto.message(proto.TX_REQUEST, body)], []
    room = 100000
    for op in c["msgs"]:
        if op[0] == "data":
            op[1] = min(op[1], room // per)
            room -= op[1] * per
            d, m = data_msg(op)
            datas.append(d)
            msgs.append(m)
            want.append((proto.SUCCESS, 0))
        elif op[0] == "skip":
            body2 = bytes([0, 1, 0, 0, 0, 0] * 7)
            msgs.append({"ping": proto.message(proto.PING, body2), "rx": proto.message(proto.RX_REQUEST, body2), "version": proto.message(proto.TX_DATA, body2, version=3),
                         "unknown": proto.message(200, body2)}[op[1]])
        else:
            msgs.append(proto.message(proto.TX_DATA, proto.tx_data_body(b"z" * op[1])[:-1]))
            want.append((proto.FAILURE, proto.INVALID))
    ref = srv.ref_tx(w, r, B, datas)
    with srv.Serve(run, {"buffer_size": B, "queue_size": 4, "tx_sdr_type": "file"}, timeout_s=5 if not c["pauses"] else 1) as s:
        tune(s, net)
        if c["pauses"]:
            s.ctl(rcvtimeo_us=150000)
        k = s.connect(rcvbuf=net["client"])
        if c["shut"]:
            msgs.append(proto.message(proto.SHUTDOWN))
        if ref is None:
            k.send(msgs[0])
            a = k.response("request")
            if a != (proto.FAILURE, proto.INTERNAL):
                raise Violation("cannot be set up but is answered with %s" % (a,))
            return False
        if c["pauses"]:
            # long pauses before and inside the header of a later message
            i, j, inside = c["pauses"]
            i = 1 + i % max(1, len(msgs) - 1)
            if 0 < i <= len(c["msgs"]) and c["msgs"][i - 1][0] == "skip":
                # nobody needs the body of this message
                j = inside
            k.send(b"".join(msgs[:i]))
            if i < len(msgs):
                time.sleep(0.25)
                k.send(msgs[i][:j])
                time.sleep(0.25)
                k.send(msgs[i][j:] + b"".join(msgs[i + 1:]))
        else:
            transport(k, msgs, c["cut"])
        srv.accept(k, k.response("request"), "request")
        for i, v in enumerate(want):
            a = k.response("answer %d" % i)
            if a != v:
                raise Violation("answer %d is %s instead of %s" % (i, a, v))
        if c["shut"]:
            k.ended("after the session")
            k.close()
        else:
            rest = srv.finish(k, "end")
            if rest:
                raise Violation("%d bytes nobody asked for" % len(rest))
        s.ctl(io_max=0)
        s.ping()
        y = M.cat([v for ys in ref for v in ys], np.complex64)
        if not np.isfinite(y).all():
            raise Skip("no number")
        with open(os.path.join(s.dir, r["file"]["filename"]), "rb") as f:
            got = f.read()
        if len(got) % 8:
            raise Violation("the file has %d bytes" % len(got))
        srv.same_samples(np.frombuffer(got, np.complex64), y, "transmitted")
    return sum(1 for d in datas if d) > 0 and ("pauses" if c["pauses"] else "other encoding" if not c["enc"]["plain"] else "cut" if c["cut"]["kind"] != "whole" else "joined" if c["cut"]["join"] else None)


@st.composite
def refusals(draw):
    return {"reqs": draw(st.lists(st.tuples(st.booleans(), st.sampled_from(["missing", "zero", "too long", "fits", "cut off", "good", "lines"]), st.integers(0, 7), encodings(), cutting()), min_size=1, max_size=5)),
            "net": draw(networks()), "rx": draw(srv.rx_request("file", dopp=0)), "tx": draw(srv.tx_request(dopp=0))}


def refuse(run, c):
    """what a request is refused for does not depend on its encoding or its pieces either"""
    srv.limited(run.worker())
    with srv.Serve(run, {"buffer_size": 64, "queue_size": 4, "tx_sdr_type": "file"}, timeout_s=5) as s:
        srv.write_in(s, np.zeros(10, np.complex64))
        tune(s, c["net"])
        n = 0
        for tx, kind, which, enc, cut in c["reqs"]:
            r = dict(c["tx"] if tx else c["rx"])
            keys = ["center", "rate", "dump", "offset", "type", "baud"] + ([] if tx else ["decimation", "dest"])
            enc = dict(enc, twice=False)
            if kind == "missing":
                r.pop(keys[which % len(keys)])
            elif kind == "zero":
                r[["center", "rate", "type", "baud"][which % 4]] = 0
            elif kind == "lines":
                r["doppler"] = {"tle": srv.ISS[:2] * (which % 4), "lat": 1, "lon": 1, "alt": 1}
                if which % 4 == 3:
                    r["doppler"]["tle"] = ["x"] * 4
            enc["fill"] = kind in ("fits", "too long") or (enc["fill"] and kind != "cut off")
            enc["plain"] = enc["plain"] and not enc["fill"]
            fields = proto.tx_fields(r) if tx else proto.rx_fields(r)
            body = encode(fields, TX_SUB if tx else RX_SUB, enc)
            if kind == "too long":
                body += b"\x78\x01"
            elif kind == "cut off":
                body = body[:-1 - which] + b"\xff"
            # what is left unread resets the connection: an answer which was not taken at once may be lost with it
            s.ctl(io_max=0 if kind == "too long" else c["net"]["io"])
            k = s.connect(rcvbuf=c["net"]["client"])
            m = proto.message(proto.TX_REQUEST if tx else proto.RX_REQUEST, body)
            transport(k, [m], cut)
            a = k.response("%s %s" % ("tx" if tx else "rx", kind))
            if kind in ("good", "fits"):
                if a == (proto.SUCCESS, k.id):
                    srv.finish(k, "end")
                elif a != (proto.FAILURE, proto.INTERNAL):
                    raise Violation("an acceptable request is answered with %s" % (a,))
                continue
            if a != (proto.FAILURE, proto.INVALID):
                raise Violation("a request (%s) is answered with %s" % (kind, a))
            k.ended(kind)
            k.close()
            n += 1
    return bool(n)


def main():
    return run_check(PID, [
        Sub("receive", receives(), receive, 260, 5000, shards=3, tshards=3, qtime=60, ttime=900),
        Sub("transmit", transmits(), transmit, 300, 5000, shards=3, tshards=3, qtime=60, ttime=900),
        Sub("refuse", refusals(), refuse, 200, 3000, shards=2, tshards=2, qtime=60, ttime=900),
    ], RULE, assumptions=["an answer to a request whose body is too long (which the server does not read) is taken by the network at once", "pauses inside a body are shorter than the read timeout (a body not received in time is refused, which the repository's tests pin)",
                          "soft bits and samples are compared with those of the library's own blocks, which C01 to C09 judge"])
