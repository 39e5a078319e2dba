"""The wire protocol, written from api.proto and api.h: version, type, big-endian length, protocol buffer body."""
import struct

VERSION = 0
RX_REQUEST, SHUTDOWN, RESPONSE, PING, TX_DATA, TX_REQUEST = 0, 1, 2, 3, 4, 5
SUCCESS, FAILURE = 0, 1
NONE, INVALID, INTERNAL, TX_USED, RX_USED = 0, 1, 3, 4, 5
GMSK = 1
FILE, SOCKET, BOTH = 0, 1, 2
MAX_BODY = 32 * 1024


def varint(v):
    v &= (1 << 64) - 1
    out = bytearray()
    while True:
        b = v & 127
        v >>= 7
        out.append(b | (128 if v else 0))
        if not v:
            return bytes(out)


def f_int(n, v):
    return varint(n << 3) + varint(v)


def f_bytes(n, b):
    return varint(n << 3 | 2) + varint(len(b)) + b


def as_bytes(s):
    return s.encode("utf-8", "surrogateescape") if isinstance(s, str) else bytes(s)


def doppler_fields(d):
    out = [f_bytes(1, as_bytes(l)) for l in d.get("tle", ())]
    for n, k in ((2, "lat"), (3, "lon"), (4, "alt")):
        if d.get(k) is not None:
            out.append(f_int(n, d[k]))
    return out


def file_fields(d):
    out = []
    if d.get("filename") is not None:
        out.append(f_bytes(1, as_bytes(d["filename"])))
    if d.get("start") is not None:
        out.append(f_int(2, d["start"]))
    return out


def rx_fields(r):
    """the encoded fields of a receive request; a value of None leaves the field out"""
    out = []
    for n, k in ((1, "center"), (2, "rate"), (3, "dump"), (4, "offset"), (5, "type"), (6, "baud"), (7, "decimation"), (8, "dest")):
        if r.get(k) is not None:
            out.append(f_int(n, int(r[k])))
    if r.get("doppler") is not None:
        out.append(f_bytes(9, b"".join(doppler_fields(r["doppler"]))))
    if r.get("fsk") is not None:
        f = r["fsk"]
        b = b"".join(f_int(n, int(f[k])) for n, k in ((1, "deviation"), (2, "width"), (3, "dc")) if f.get(k) is not None)
        out.append(f_bytes(10, b))
    if r.get("file") is not None:
        out.append(f_bytes(11, b"".join(file_fields(r["file"]))))
    return out


def tx_fields(r):
    out = []
    for n, k in ((1, "center"), (2, "rate"), (3, "dump"), (4, "offset"), (5, "type"), (6, "baud")):
        if r.get(k) is not None:
            out.append(f_int(n, int(r[k])))
    if r.get("doppler") is not None:
        out.append(f_bytes(7, b"".join(doppler_fields(r["doppler"]))))
    if r.get("fsk") is not None:
        f = r["fsk"]
        out.append(f_bytes(8, f_int(1, f["deviation"]) if f.get("deviation") is not None else b""))
    if r.get("file") is not None:
        out.append(f_bytes(9, b"".join(file_fields(r["file"]))))
    return out


def rx_body(r):
    return b"".join(rx_fields(r))


def tx_body(r):
    return b"".join(tx_fields(r))


def tx_data_body(data):
    return f_bytes(1, bytes(data))


def message(kind, body=b"", version=VERSION, length=None):
    return struct.pack(">BBI", version, kind, len(body) if length is None else length) + body


def parse_varint(b, i):
    v = s = 0
    while True:
        if i >= len(b) or s > 63:
            raise ValueError("varint")
        v |= (b[i] & 127) << s
        s += 7
        i += 1
        if not b[i - 1] & 128:
            return v, i


def parse_response(body):
    """strictly the two fields of Response"""
    got = {}
    i = 0
    while i < len(body):
        k, i = parse_varint(body, i)
        if k & 7 != 0 or k >> 3 not in (1, 2) or k >> 3 in got:
            raise ValueError("field %d" % (k >> 3))
        got[k >> 3], i = parse_varint(body, i)
    if set(got) != {1, 2}:
        raise ValueError("fields %s" % sorted(got))
    return got[1], got[2]
