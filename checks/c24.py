"""C24: the configuration file."""
import os
import signal
import socket
import time

from hypothesis import strategies as st

from vlib import client
from vlib.core import Sub, Violation, run_check
from vlib.server import LONG, Server

PID = "C24"
RULE = ("a case is a configuration text: settings present or absent in any order and notation with values in range, at the limits, out of range or of the wrong type, "
        "or arbitrary text; non-trivial when at least three settings were given or the file had to be refused")
INTS = {"port": (8091, 1, 65535), "read_timeout_seconds": (5, 1, 2 ** 31 - 1), "buffer_size": (262144, 1, 2 ** 31 - 1), "queue_size": (64, 1, 65535),
        "rx_sdr_server_port": (8090, 1, 65535), "tx_plutosdr_timeout_millis": (10000, 1, 2 ** 31 - 1)}
STRS = {"bind_address": "127.0.0.1", "rx_sdr_server_address": "127.0.0.1", "base_path": None, "rx_file_base_path": None, "tx_file_base_path": None}
GAINS = ("tx_plutosdr_gain", "rx_plutosdr_gain")
RX = {"sdr-server": 0, "plutosdr": 1, "file": 2}
TX = {"none": 0, "plutosdr": 1, "file": 2}
EITHER = "either"


def quote(s):
    out = ""
    for ch in s:
        out += {"\\": "\\\\", '"': '\\"', "\n": "\\n", "\t": "\\t"}.get(ch, ch)
    return '"%s"' % out


wrong_for_int = st.sampled_from(['"8091"', "3.5", "true", "false", "{ a = 1; }", "[ 1, 2 ]", "( 1 )", '""', "1.0", "1e3"])
wrong_for_str = st.sampled_from(["5", "1.5", "true", "{ a = 1; }", '[ "x" ]', "( )", "127L"])
wrong_for_num = st.sampled_from(['"1.0"', "true", "{ }", "[ 1.0 ]"])
words = st.one_of(st.sampled_from(["127.0.0.1", "0.0.0.0", "/tmp/", "", "localhost", "a" * 300, "q\"uote", "back\\slash", "%s%n", "tab\there"]), st.text(st.characters(min_codepoint=32, max_codepoint=126), max_size=40))


@st.composite
def configs(draw):
    """lines, and per setting the expected value (None: refuse)"""
    items = []
    bad = draw(st.sampled_from([0, 0, 0, 1, 1, 2]))
    names = list(INTS) + list(STRS) + list(GAINS) + ["rx_sdr_type", "tx_sdr_type"]
    wrongs = draw(st.lists(st.sampled_from(names), max_size=bad, min_size=bad))
    for n in names:
        kind = "wrong" if n in wrongs else draw(st.sampled_from(["absent", "absent", "ok"]))
        if kind == "absent":
            continue
        if n in INTS:
            _, lo, hi = INTS[n]
            if kind == "ok":
                v = draw(st.one_of(st.integers(lo, min(hi, 100000)), st.sampled_from([lo, lo + 1, hi - 1, hi]), st.integers(lo, hi)))
                form = draw(st.sampled_from(["%d", "%d", "%d", "0x%x", "%dL", "+%d"]))
                if form == "0x%x" and v > 0x7fffffff:
                    form = "%d"
                items.append([n, form % v if form != "+%d" else "%d" % v, v])
            else:
                how = draw(st.sampled_from(["type", "low", "high"]))
                if how == "type":
                    items.append([n, draw(wrong_for_int), None])
                elif how == "low":
                    items.append([n, str(draw(st.one_of(st.just(-1), st.integers(-2 ** 31, -1), st.integers(-2 ** 40, -1), st.just(0) if lo == 1 and n in ("queue_size", "buffer_size", "read_timeout_seconds") else st.just(-2)))), None])
                else:
                    v = draw(st.one_of(st.just(hi + 1), st.integers(hi + 1, 2 ** 40), st.just(hi + 65536), st.just(hi + 8092), st.just(2 ** 32 + 1)))
                    items.append([n, "%d%s" % (v, "L" if v > 2 ** 31 - 1 else ""), None])
        elif n in STRS:
            if kind == "ok":
                v = draw(words)
                items.append([n, quote(v), v])
            else:
                items.append([n, draw(wrong_for_str), None])
        elif n in GAINS:
            if kind == "ok":
                v = draw(st.one_of(st.integers(-100, 100), st.floats(-120, 120).map(lambda x: round(x, draw(st.integers(1, 6)))), st.sampled_from([0.0, -0.25, 1e-3, 73])))
                items.append([n, repr(v) if isinstance(v, int) or draw(st.booleans()) else "%.9e" % v, float(v)])
            else:
                items.append([n, draw(wrong_for_num), None])
        else:
            table = RX if n == "rx_sdr_type" else TX
            if kind == "ok":
                v = draw(st.sampled_from(sorted(table)))
                items.append([n, quote(v), table[v]])
            else:
                items.append([n, draw(st.one_of(wrong_for_str, st.sampled_from(['"airspy"', '"File"', '"sdr-serve"', '"sdr-server "', '""', '"filex"', '"none"' if n == "rx_sdr_type" else '"sdr-server"']))), None])
    items = draw(st.permutations(items))
    return {"items": [list(i) for i in items], "style": draw(st.integers(0, 5)), "tmp": draw(st.sampled_from([None, None, "/var/tmp", "/x y"])), "extra": draw(st.booleans()), "seed": draw(st.integers(0, 99))}


def render(c):
    out = []
    for k, (n, text, _) in enumerate(c["items"]):
        eq = [" = ", "=", " : ", "="][(c["style"] + k) % 4]
        end = [";", "", ",", ""][(c["style"] + k + c["seed"]) % 4] if c["style"] > 2 else ""
        out.append(n + eq + text + end)
        if c["style"] == 4:
            out.append("# %s = 1" % n)
        if c["style"] == 5:
            out.append("// comment\n/* %s = 5\n */" % n)
    if c["extra"]:
        out.append('unrelated = { port = 1; name = "x"; };')
    return "\n".join(out) + "\n"


def parse(text):
    d = {}
    for line in text.split("\n"):
        if "=" in line:
            k, v = line.split("=", 1)
            d[k] = v
    return d


def expectation(c):
    """the settings in effect; None when the file must be refused, EITHER when nothing is promised"""
    given = {n: v for n, _, v in c["items"]}
    tmp = c["tmp"] if c["tmp"] is not None else "/tmp"
    rx = given.get("rx_sdr_type", 0)
    verdict = None
    relevant = dict(given)
    if rx not in (0, None) or ("rx_sdr_type" in given and given["rx_sdr_type"] is None):
        for n in ("rx_sdr_server_address", "rx_sdr_server_port"):
            if n in relevant and relevant[n] is None:
                verdict = EITHER
                del relevant[n]
    if any(v is None for v in relevant.values()):
        return None
    if verdict == EITHER:
        return EITHER
    e = {n: given.get(n, d) for n, (d, _, _) in INTS.items()}
    e.update({n: given.get(n, d if d is not None else tmp) for n, d in STRS.items()})
    e.update({n: given.get(n, 0.0) for n in GAINS})
    e["rx_sdr_type"] = rx
    e["tx_sdr_type"] = given.get("tx_sdr_type", 0)
    return e


def write(text):
    d = client.scratch()
    path = os.path.join(d, "c.conf")
    with open(path, "wb") as f:
        f.write(text if isinstance(text, bytes) else text.encode())
    return d, path


def means(run, c):
    """every setting given takes effect exactly, every one left out is the default, wrong ones are refused"""
    text = render(c)
    d, path = write(text)
    e = expectation(c)
    w = run.worker(iio=True)
    r = w.config(path, c["tmp"])
    os.unlink(path)
    os.rmdir(d)
    if r["leak"]:
        raise Violation("%d allocations left; code %d; %s" % (r["leak"], r["code"], text))
    if e == EITHER:
        return None
    if e is None:
        if r["code"] == 0:
            bad = [(n, t) for n, t, v in c["items"] if v is None]
            got = parse(r["text"])
            raise Violation("accepted %s; taken as %s" % (bad, [got.get(n) for n, _ in bad]))
        return "refused"
    if r["code"] != 0:
        raise Violation("refused (%d): %s" % (r["code"], text))
    got = parse(r["text"])
    for n, v in e.items():
        g = got.get(n)
        if n in ("rx_sdr_server_address", "rx_sdr_server_port") and e["rx_sdr_type"] != 0:
            continue
        if isinstance(v, float):
            ok = abs(float(g) - v) <= 1e-7 * max(1, abs(v))
        elif isinstance(v, int):
            ok = g == str(v)
        else:
            ok = g == v
        if not ok:
            raise Violation("%s is %r in effect, the file says %r (%s)" % (n, g, v, dict((i[0], i[1]) for i in c["items"]).get(n, "left out")))
    want = e["rx_sdr_type"] == 1 or e["tx_sdr_type"] == 1
    if (got.get("iio") == "1") != want:
        raise Violation("receiver %s transmitter %s: the PlutoSDR library is %sloaded" % (e["rx_sdr_type"], e["tx_sdr_type"], "" if got.get("iio") == "1" else "not "))
    return len(c["items"]) >= 3 and "accepted"


FRAGS = ["port", "=", ":", ";", "{", "}", "(", ")", "[", "]", '"', "\n", "rx_sdr_type", '"file"', "0x", "1e", "999999999999999999999", "-", "/*", "#", "@include", '"c.conf"', "\\x00", "true", ",", "buffer_size", "L", "."]


def texts():
    return st.one_of(st.lists(st.one_of(st.sampled_from(FRAGS), st.text(max_size=4)), max_size=30).map(lambda l: " ".join(l).encode("utf-8", "replace").hex()),
                     st.binary(max_size=200).map(lambda b: b.hex()))


def arbitrary(run, h):
    """any file contents: an answer, no crash, nothing left; broken syntax is refused"""
    raw = bytes.fromhex(h)
    d, path = write(raw)
    r = run.worker(iio=True).config(path, None)
    os.unlink(path)
    os.rmdir(d)
    if r["leak"]:
        raise Violation("%d allocations left, code %d" % (r["leak"], r["code"]))
    if r["code"] == 0 and raw.strip():
        t = raw.split(b"\0")[0]
        if t.count(b"{") > t.count(b"}") + t.count(b"#") + t.count(b"/") + t.count(b'"'):
            raise Violation("unbalanced text was accepted")
    return r["code"] != 0 and "refused"


@st.composite
def mutations(draw):
    c = draw(configs())
    text = render(c)
    k = draw(st.sampled_from(["truncate", "insert", "delete", "duplicate"]))
    return {"cfg": c, "how": k, "at": draw(st.floats(0, 1)), "ins": draw(st.sampled_from(["}", "{", "=", "\x01", "@", "&", ")"]))} if text else {"cfg": c, "how": "insert", "at": 0.5, "ins": "="}


def broken(run, m):
    """one syntax error anywhere in a correct file"""
    items = [i for i in m["cfg"]["items"] if i[2] is not None]
    c = dict(m["cfg"], items=items, style=0, extra=False)
    lines = [l for l in render(c).split("\n") if l] if items else []
    at = int(m["at"] * len(lines))
    how = m["how"]
    if how == "insert" or not lines:
        lines.insert(at, {"=": "= 5"}.get(m["ins"], m["ins"]))
    elif how == "truncate":
        i = min(at, len(lines) - 1)
        lines = lines[:i] + [lines[i].split("=")[0].split(":")[0].strip() + " ="]
    elif how == "delete":
        i = min(at, len(lines) - 1)
        lines[i] = lines[i].replace(" = ", " ").replace(" : ", " ").replace("=", " ", 1) if not lines[i].startswith("#") else "="
    else:
        i = min(at, len(lines) - 1)
        lines.append(lines[i])
    text = "\n".join(lines)
    d, path = write(text)
    r = run.worker(iio=True).config(path, None)
    os.unlink(path)
    os.rmdir(d)
    if r["leak"]:
        raise Violation("%d allocations left, code %d" % (r["leak"], r["code"]))
    if r["code"] == 0:
        raise Violation("accepted a file with a syntax error: %s" % text)
    return True


def missing(run, c):
    """no file, a directory, no library"""
    if c["what"] == "nolib":
        d = client.scratch()
        lib = os.path.join(d, "libiio.so")
        if c["k"]:
            with open(lib, "wb") as f:
                f.write(b"not a library")
        else:
            # a library without the functions
            import glob
            os.symlink(glob.glob("/lib/x86_64-linux-gnu/libm.so.6")[0], lib)
        _, path = write('rx_sdr_type = "%s"\ntx_sdr_type = "%s"\n' % (c["rx"], c["tx"]))
        r = run.worker(env={"LD_LIBRARY_PATH": d}).config(path, None)
        os.unlink(path)
        need = "plutosdr" in (c["rx"], c["tx"])
        run.fresh()
        run._workers = {}
        if (r["code"] != 0) != need:
            raise Violation("without the device library, receiver %s transmitter %s: code %d" % (c["rx"], c["tx"], r["code"]))
    else:
        d = client.scratch()
        r = run.worker(iio=True).config(d if c["what"] == "dir" else os.path.join(d, "absent"), None)
        if r["code"] == 0:
            raise Violation("%s accepted as a configuration" % c["what"])
    if r["leak"]:
        raise Violation("%d allocations left" % r["leak"])
    return True


def symbols(run, c):
    """a device library which lacks one function is as good as none"""
    _, path = write('rx_sdr_type = "%s"\ntx_sdr_type = "%s"\n' % (c["rx"], c["tx"]))
    w = run.worker(iio=True)
    r = w.without_symbol(c["n"], "config", (path, None))
    again = w.without_symbol(0, "config", (path, None))
    os.unlink(path)
    what = "receiver %s transmitter %s, function %d missing" % (c["rx"], c["tx"], c["n"])
    if r["failed"] and r["r"]["code"] == 0:
        raise Violation("%s: accepted" % what)
    if not r["failed"] and r["r"]["code"]:
        raise Violation("%s: refused although nobody asked for it" % what)
    if r["leak"] or r["r"]["leak"] or again["leak"]:
        raise Violation("%s: %d allocations left" % (what, r["leak"] or again["leak"]))
    if r["libs"] or again["libs"]:
        raise Violation("%s: %d libraries stay loaded" % (what, r["libs"] or again["libs"]))
    if again["r"]["code"]:
        raise Violation("%s: refused with the whole library afterwards" % what)
    return "missing" if r["failed"] else None


@st.composite
def processes(draw):
    kind = draw(st.sampled_from(["config", "config", "config", "config", "busy", "address", "missing", "none"]))
    return {"kind": kind, "cfg": draw(configs()), "bind": draw(st.sampled_from(["127.0.0.1", "127.0.0.2", "0.0.0.0"])), "address": draw(st.sampled_from(["999.1.1.1", "localhost", "", "::1", "127.0.0.1 ", "192.0.2.1"])),
            "sig": draw(st.sampled_from(["SIGTERM", "SIGINT", "SIGHUP"]))}


def process(run, c):
    """the program: it serves on the address and port it was given, or ends with an error"""
    s = Server(run.products, iio=True)
    busy = None
    try:
        cfg, bind, port = dict(c["cfg"]), c["bind"], s.port
        e = expectation(cfg)
        if c["kind"] == "busy":
            bind = "127.0.0.1"
            busy, port = occupied()
        elif c["kind"] == "address":
            bind = c["address"]
        if e == EITHER or (c["kind"] != "config" and e is None):
            cfg["items"] = []
        mine = {"bind_address": [quote(bind), bind], "port": [str(port), port], "base_path": [quote(s.base), s.base]}
        # a wrong value stays wrong
        wrong = {i[0] for i in cfg["items"] if i[2] is None}
        cfg["items"] = [i for i in cfg["items"] if i[0] in wrong or i[0] not in mine] + [[k] + v for k, v in mine.items() if k not in wrong]
        good = c["kind"] == "config" and expectation(cfg) is not None
        p = s.launch(text=render(cfg), args=[os.path.join(s.dir, "absent")] if c["kind"] == "missing" else [] if c["kind"] == "none" else None)
        end = time.time() + LONG
        want = "%s:%04X" % ("".join("%02X" % int(x) for x in reversed(bind.split("."))), port) if good else None
        while p.poll() is None:
            if time.time() > end:
                raise Violation("%s: the server %s\n%s" % (c["kind"], "does not listen" if good else "does not end", s.log()))
            if good and listens(want):
                break
            if not good and c["kind"] == "config" and (listens("0100007F:%04X" % port) or listens("00000000:%04X" % port)):
                raise Violation("the server was started with a configuration which should be refused\n%s" % render(cfg))
            time.sleep(0.002)
        if good:
            if p.poll() is not None:
                raise Violation("the server ended with %d\n%s\n%s" % (p.returncode, render(cfg), s.log()))
            s.stop(sig=getattr(signal, c["sig"]), what="after the start")
            return "served"
        if p.returncode <= 0 or p.returncode == 98:
            raise Violation("%s: the server ended with %d instead of a failure\n%s" % (c["kind"], p.returncode, s.log()))
        return "refused"
    finally:
        if busy:
            busy.close()
        s.done()


def listens(want):
    with open("/proc/net/tcp") as f:
        return any(p[1] == want and p[3] == "0A" for p in (l.split() for l in f) if len(p) > 3)


def occupied():
    """a port somebody else listens on, without sharing it"""
    b = socket.socket()
    b.bind(("127.0.0.1", 0))
    b.listen(1)
    return b, b.getsockname()[1]


def main():
    return run_check(PID, [
        Sub("means", configs(), means, 3000, 60000, shards=3, tshards=8),
        Sub("broken", mutations(), broken, 600, 10000, shards=1, tshards=8),
        Sub("arbitrary", texts(), arbitrary, 1500, 60000, shards=2, tshards=8),
        Sub("missing", st.fixed_dictionaries({"what": st.sampled_from(["nolib", "nolib", "dir", "absent"]), "k": st.integers(0, 1), "rx": st.sampled_from(sorted(RX)), "tx": st.sampled_from(sorted(TX))}), missing, 16, 60),
        Sub("symbols", st.fixed_dictionaries({"n": st.integers(1, 28), "rx": st.sampled_from(["plutosdr", "plutosdr", "file"]), "tx": st.sampled_from(["plutosdr", "none"])}), symbols, 150, 400),
        Sub("process", processes(), process, 120, 3000, shards=2, tshards=8),
    ], RULE, assumptions=["the grammar of the file itself is libconfig's"])
