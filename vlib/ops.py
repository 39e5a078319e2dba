"""Operations on the code under test, run inside the sanitized worker process (see worker.py).

Every function here takes and returns plain Python values / numpy arrays.  Input buffers are exact-size allocations,
so an over-read is seen by AddressSanitizer.
"""
import ctypes as C
import os
import struct
import threading
import time

import numpy as np

L = None
libc = C.CDLL(None)
libc.malloc.restype = C.c_void_p
libc.malloc.argtypes = [C.c_size_t]
libc.free.argtypes = [C.c_void_p]
P = C.c_void_p
SZ = C.c_size_t
CTL = ["alloc_total", "alloc_live", "alloc_fail_at", "alloc_failed", "thread_fail_at", "thread_failed", "threads_created",
       "rcvtimeo_us", "sched_prob", "sched_max_us", "sched_seed", "sched_calls", "alloc_fail_all", "spawn_parent_us",
       "spawn_child_us", "close_us", "fds_opened", "join_us", "destroy_us", "alloc_max", "io_max", "sndbuf", "rcvbuf", "eintr", "eintrs", "trace", "traced", "sched_kinds", "dlsym_fail_at", "dlsym_failed", "libs", "sys_calls", "sys_fail_at",
       "sys_failed", "accept_errs", "accept_err"]
TRACE_AT, TRACE_LEN = 4096, 8192
ctl = None
trace = None


def load(path):
    global L, ctl, trace
    L = C.CDLL(path, mode=os.RTLD_NOW | os.RTLD_LOCAL)
    L.h_ctl.restype = P
    ctl = (C.c_int64 * len(CTL)).from_address(L.h_ctl())
    trace = (C.c_int64 * TRACE_LEN).from_address(L.h_ctl() + TRACE_AT)
    L.h_jd.restype = C.c_double
    for f in ("fast_atan2f", "mmse_fir_interpolator_process"):
        getattr(L, f).restype = C.c_float


def ctl_get(name):
    return ctl[CTL.index(name)]


def ctl_set(**kw):
    for k, v in kw.items():
        ctl[CTL.index(k)] = int(v)


class Buf:
    """exact-size heap copy of an array"""

    def __init__(self, arr):
        arr = np.ascontiguousarray(arr)
        self.n = arr.nbytes
        self.p = libc.malloc(max(1, self.n)) if self.n else libc.malloc(1)
        C.memmove(self.p, arr.ctypes.data, self.n)

    def __enter__(self):
        return C.c_void_p(self.p)

    def __exit__(self, *a):
        libc.free(self.p)


def copy_out(ptr, n, dtype):
    dt = np.dtype(dtype)
    if not ptr or n == 0:
        return np.zeros(0, dt)
    return np.frombuffer(C.string_at(ptr, n * dt.itemsize), dtype=dt).copy()


def fd_count():
    return len(os.listdir("/proc/self/fd"))


def thread_count():
    return len(os.listdir("/proc/self/task"))


# ---- generic create / process / destroy stage ----
def _proc(fn, h, arr, out_dtype):
    out, n = P(), SZ(0xDEAD)
    with Buf(arr) as b:
        fn(b, SZ(len(arr)), C.byref(out), C.byref(n), h)
        res = copy_out(out.value, n.value, out_dtype)
    return res


def _run(create, process, destroy, chunks, in_dtype, out_dtype, limit=None):
    live0 = ctl_get("alloc_live")
    h = P()
    code = create(h)
    if code != 0:
        return {"code": code, "leak": ctl_get("alloc_live") - live0}
    outs = [_proc(process, h, np.asarray(c, in_dtype), out_dtype) for c in chunks]
    destroy(h)
    return {"code": 0, "out": outs, "leak": ctl_get("alloc_live") - live0}


def gfsk_mod(sps, sens, bt, maxbuf, chunks):
    return _run(lambda h: L.gfsk_mod_create(C.c_float(sps), C.c_float(sens), C.c_float(bt), C.c_uint32(maxbuf), C.byref(h)),
                L.gfsk_mod_process, L.gfsk_mod_destroy, chunks, np.uint8, np.complex64)


def freq_mod(sens, maxbuf, chunks):
    return _run(lambda h: L.frequency_modulator_create(C.c_float(sens), C.c_uint32(maxbuf), C.byref(h)),
                L.frequency_modulator_process, L.frequency_modulator_destroy, chunks, np.float32, np.complex64)


def interp_fir(taps, interp, maxbuf, chunks):
    taps = np.asarray(taps, np.float32)

    def create(h):
        # ownership of the taps passes to the filter on success only
        t = libc.malloc(max(1, taps.nbytes))
        C.memmove(t, taps.ctypes.data, taps.nbytes)
        r = L.interp_fir_filter_create(P(t), SZ(len(taps)), C.c_uint32(interp), C.c_uint32(maxbuf), C.byref(h))
        if r != 0:
            libc.free(t)
        return r
    return _run(create, L.interp_fir_filter_process, L.interp_fir_filter_destroy, chunks, np.float32, np.float32)


def gaussian_taps(gain, sps, bt, n):
    out = P()
    r = L.gaussian_taps_create(C.c_double(gain), C.c_double(sps), C.c_double(bt), SZ(n), C.byref(out))
    if r != 0:
        return {"code": r}
    a = copy_out(out.value, n, np.float32)
    L.__getattr__  # noqa
    _free(out)
    return {"code": 0, "taps": a}


def _free(p):
    # freed through the same (tracked) allocator the library used
    L.__wrap_free(p)


def convolve(x, y):
    x = np.asarray(x, np.float32)
    y = np.asarray(y, np.float32)
    out, n = P(), SZ()
    with Buf(x) as bx, Buf(y) as by:
        r = L.gfsk_mod_convolve(bx, SZ(len(x)), by, SZ(len(y)), C.byref(out), C.byref(n))
    if r != 0:
        return {"code": r}
    a = copy_out(out.value, n.value, np.float32)
    _free(out)
    return {"code": 0, "out": a}


def lp_taps(gain, fs, cutoff, tw):
    live0 = ctl_get("alloc_live")
    out, n = P(), SZ()
    r = L.create_low_pass_filter(C.c_float(gain), C.c_uint64(fs), C.c_uint64(cutoff), C.c_uint32(tw), C.byref(out), C.byref(n))
    if r != 0:
        return {"code": r, "leak": ctl_get("alloc_live") - live0}
    a = copy_out(out.value, n.value, np.float32)
    _free(out)
    return {"code": 0, "taps": a, "leak": ctl_get("alloc_live") - live0}


def lpf(decim, fs, cutoff, tw, maxbuf, cplx, chunks):
    dt = np.complex64 if cplx else np.float32
    return _run(lambda h: L.lpf_create(C.c_uint8(decim), C.c_uint64(fs), C.c_uint64(cutoff), C.c_uint32(tw), SZ(maxbuf),
                                       SZ(8 if cplx else 4), C.byref(h)),
                L.lpf_process, L.lpf_destroy, chunks, dt, dt)


def fir(decim, taps, maxbuf, cplx, chunks):
    dt = np.complex64 if cplx else np.float32
    taps = np.asarray(taps, np.float32)

    def create(h):
        t = libc.malloc(max(1, taps.nbytes))
        C.memmove(t, taps.ctypes.data, taps.nbytes)
        return L.fir_filter_create(C.c_uint8(decim), P(t), SZ(len(taps)), SZ(maxbuf), SZ(8 if cplx else 4), C.byref(h))
    return _run(create, L.fir_filter_process, L.fir_filter_destroy, chunks, dt, dt)


def quad_demod(gain, maxbuf, chunks):
    return _run(lambda h: L.quadrature_demod_create(C.c_float(gain), C.c_uint32(maxbuf), C.byref(h)),
                L.quadrature_demod_process, L.quadrature_demod_destroy, chunks, np.complex64, np.float32)


def atan2_many(y, x):
    return np.array([L.fast_atan2f(C.c_float(float(a)), C.c_float(float(b))) for a, b in zip(y, x)], np.float32)


def dc_block(length, chunks):
    return _run(lambda h: L.dc_blocker_create(C.c_int(length), C.byref(h)),
                L.dc_blocker_process, L.dc_blocker_destroy, chunks, np.float32, np.float32)


def clock(omega, gain_omega, mu, gain_mu, lim, maxbuf, chunks):
    return _run(lambda h: L.clock_mm_create(C.c_float(omega), C.c_float(gain_omega), C.c_float(mu), C.c_float(gain_mu),
                                            C.c_float(lim), SZ(maxbuf), C.byref(h)),
                L.clock_mm_process, L.clock_mm_destroy, chunks, np.float32, np.float32)


def mmse(samples, mus):
    h = P()
    r = L.mmse_fir_interpolator_create(C.byref(h))
    if r != 0:
        return {"code": r}
    taps = L.mmse_fir_interpolator_taps(h)
    # an aligned buffer, as its caller in the receive chain provides
    raw = libc.malloc(4 * len(samples) + 256)
    base = (raw + 127) & ~127
    arr = np.asarray(samples, np.float32)
    C.memset(raw, 0, 4 * len(samples) + 256)
    C.memmove(base, arr.ctypes.data, arr.nbytes)
    out = []
    for i, mu in enumerate(mus):
        out.append([L.mmse_fir_interpolator_process(P(base + 4 * k), C.c_float(mu), h) for k in range(len(samples) - taps + 1)])
    L.mmse_fir_interpolator_destroy(h)
    libc.free(raw)
    return {"code": 0, "taps": taps, "out": np.array(out)}


def fsk_demod(fs, baud, dev, decim, tw, dc, maxbuf, chunks):
    return _run(lambda h: L.fsk_demod_create(C.c_uint64(fs), C.c_uint32(baud), C.c_int64(dev), C.c_uint8(decim), C.c_uint32(tw),
                                             C.c_bool(dc), C.c_uint32(maxbuf), C.byref(h)),
                L.fsk_demod_process, L.fsk_demod_destroy, chunks, np.complex64, np.int8)


def sig(amp, fs, maxbuf, steps):
    """steps: list of (freq, array or n)"""
    live0 = ctl_get("alloc_live")
    h = P()
    r = L.sig_source_create(C.c_float(amp), C.c_uint64(fs), C.c_uint32(maxbuf), C.byref(h))
    if r != 0:
        return {"code": r}
    outs = []
    for freq, x in steps:
        out, n = P(), SZ()
        if isinstance(x, int):
            L.sig_source_process(C.c_int64(freq), SZ(x), C.byref(out), C.byref(n), h)
            outs.append(copy_out(out.value, n.value, np.complex64))
        else:
            with Buf(np.asarray(x, np.complex64)) as b:
                L.sig_source_multiply(C.c_int64(freq), b, SZ(len(x)), C.byref(out), C.byref(n), h)
                outs.append(copy_out(out.value, n.value, np.complex64))
    L.sig_source_destroy(h)
    return {"code": 0, "out": outs, "leak": ctl_get("alloc_live") - live0}


def tle_bytes(lines):
    out = b""
    for l in lines:
        if isinstance(l, str):
            l = l.encode("latin-1")
        out += l[:80].ljust(80, b"\0")
    return out


def doppler(lat, lon, alt, fs, center, offset, start, maxbuf, tle, direction, chunks):
    buf = tle_bytes(tle)
    fn = L.doppler_process_rx if direction == "rx" else L.doppler_process_tx

    def create(h):
        with Buf(np.frombuffer(buf, np.uint8)) as t:
            return L.doppler_create(C.c_double(lat), C.c_double(lon), C.c_double(alt), C.c_uint64(fs), C.c_uint64(center),
                                    C.c_int64(offset), C.c_long(start), C.c_uint32(maxbuf), t, C.byref(h))
    return _run(create, fn, L.doppler_destroy, chunks, np.complex64, np.complex64)


def doppler_late(lat, lon, alt, fs, center, offset, start, maxbuf, tle, direction, skip, block, chunks):
    """a session which is already `skip` samples old"""
    h = P()
    with Buf(np.frombuffer(tle_bytes(tle), np.uint8)) as t:
        r = L.doppler_create(C.c_double(lat), C.c_double(lon), C.c_double(alt), C.c_uint64(fs), C.c_uint64(center), C.c_int64(offset), C.c_long(start), C.c_uint32(maxbuf), t, C.byref(h))
    if r != 0:
        return {"code": r}
    fn = L.doppler_process_rx if direction == "rx" else L.doppler_process_tx
    x = np.ones(block, np.complex64)
    out, n = P(), C.c_size_t()
    with Buf(x) as b:
        while skip > 0:
            m = min(skip, block)
            fn(b, C.c_size_t(m), C.byref(out), C.byref(n), h)
            if n.value != m:
                L.doppler_destroy(h)
                return {"code": 0, "lost": [m, n.value]}
            skip -= m
    outs = [_proc(fn, h, np.asarray(c, np.complex64), np.complex64) for c in chunks]
    L.doppler_destroy(h)
    return {"code": 0, "out": outs}


def dopplers(configs, block_order):
    """several correctors side by side; block_order: list of (index, array)"""
    hs = []
    for c in configs:
        h = P()
        with Buf(np.frombuffer(tle_bytes(c["tle"]), np.uint8)) as t:
            r = L.doppler_create(C.c_double(c["lat"]), C.c_double(c["lon"]), C.c_double(c["alt"]), C.c_uint64(c["fs"]), C.c_uint64(c["center"]),
                                 C.c_int64(c["offset"]), C.c_long(c["start"]), C.c_uint32(c["maxbuf"]), t, C.byref(h))
        if r != 0:
            return {"code": r}
        hs.append(h)
    outs = [[] for _ in configs]
    time.sleep(max(c.get("wait", 0) for c in configs))
    first = time.time()
    for i, arr in block_order:
        fn = L.doppler_process_rx if configs[i]["dir"] == "rx" else L.doppler_process_tx
        outs[i].append(_proc(fn, hs[i], np.asarray(arr, np.complex64), np.complex64))
    for h in hs:
        L.doppler_destroy(h)
    return {"code": 0, "out": outs, "first": first}


# ---- orbit ----
def tle_parse(lines):
    num = (C.c_double * 11)()
    ints = (C.c_int * 6)()
    name = C.create_string_buffer(25)
    idesg = C.create_string_buffer(9)
    with Buf(np.frombuffer(tle_bytes(lines), np.uint8)) as b:
        r = L.h_tle_parse(b, num, ints, name, idesg)
    return {"code": r, "num": list(num), "ints": list(ints), "name": name.raw, "idesg": idesg.raw}


def tle_good(raw139):
    with Buf(np.frombuffer(raw139[:139].ljust(139, b"\0"), np.uint8)) as b:
        return L.h_tle_good(b)


def track(lines, lat, lon, alt, ts):
    n = len(ts)
    t = (C.c_double * n)(*ts)
    out = (C.c_double * (10 * n))()
    deep = C.c_int()
    ep = C.c_double()
    with Buf(np.frombuffer(tle_bytes(lines), np.uint8)) as b:
        r = L.h_track(b, C.c_double(lat), C.c_double(lon), C.c_double(alt), t, n, out, C.byref(deep), C.byref(ep))
    return {"code": r, "rows": np.array(out).reshape(n, 10), "deep": deep.value, "epoch": ep.value}


def jd(*a):
    return L.h_jd(*[C.c_int(x) for x in a])


def time_fn(name, x):
    if not hasattr(L, name):
        return None
    f = getattr(L, name)
    f.restype = C.c_double
    return f(C.c_double(x))


def track_multi(sats, which, ts):
    n = len(ts)
    out = (C.c_double * (6 * n))()
    with Buf(np.frombuffer(b"".join(tle_bytes(s) for s in sats), np.uint8)) as b:
        r = L.h_track_multi(b, len(sats), (C.c_int * n)(*which), (C.c_double * n)(*ts), n, out)
    return {"code": r, "rows": np.array(out).reshape(n, 6)}


def track_threads(sats, ts):
    """the same evaluation on one thread per satellite at once, and one after the other"""
    res = [None] * len(sats)

    def one(i):
        res[i] = track_multi([sats[i]], [0] * len(ts), ts)["rows"]
    th = [threading.Thread(target=one, args=(i,)) for i in range(len(sats))]
    for t in th:
        t.start()
    for t in th:
        t.join()
    return {"par": res, "seq": [track_multi([s], [0] * len(ts), ts)["rows"] for s in sats]}


def latlonalt(j, pos):
    o = (C.c_double * 4)()
    r = L.h_latlonalt(C.c_double(j), (C.c_double * 3)(*pos), o)
    return None if r else list(o)


def obs(j, pv, lat, lon, alt):
    o = (C.c_double * 6)()
    r = L.h_obs(C.c_double(j), (C.c_double * 6)(*pv), C.c_double(lat), C.c_double(lon), C.c_double(alt), o)
    return list(o) if r == 0 else list(o)[:4]


# ---- linked list ----
def list_script(steps):
    """steps: list of tuples; returns one observation per step"""
    live0 = ctl_get("alloc_live")
    L.h_list_reset()
    res = []
    out = (C.c_int * 4096)()
    used = set()
    for st in steps:
        op, li = st[0], st[1]
        used.add(li)
        if op == "add":
            r = L.h_list_add(li, st[2], C.c_long(st[3]))
        elif op == "add_fail":
            ctl_set(alloc_fail_at=1)
            r = L.h_list_add(li, st[2], C.c_long(st[3]))
            ctl_set(alloc_fail_at=0)
        elif op == "find":
            r = L.h_list_find(li, C.c_long(st[2]))
        elif op == "remove":
            r = L.h_list_remove(li, C.c_long(st[2]))
        elif op == "destroy_id":
            r = L.h_list_destroy_by_id(li, C.c_long(st[2])) and 0
        elif op == "destroy_sel":
            r = L.h_list_destroy_by_selector(li, C.c_long(st[2]), C.c_long(st[3])) and 0
        elif op == "destroy":
            r = L.h_list_destroy(li) and 0
        n = L.h_list_foreach(li, out, 4096)
        content = list(out[:n])
        d = L.h_list_destroyed(out)
        res.append({"r": r, "content": content, "destroyed": list(out[:d]), "empty": L.h_list_empty(li)})
        if op in ("destroy_id", "destroy_sel", "destroy"):
            res[-1]["r"] = 0
    for li in used:
        L.h_list_destroy(li)
    d = L.h_list_destroyed(out)
    return {"res": res, "final": list(out[:d]), "leak": ctl_get("alloc_live") - live0}


# ---- queue ----
def _tag_buf(tag, n):
    a = np.zeros(n, np.complex64)
    a.real[:] = tag
    a.imag[:] = np.arange(n)
    return a


def queue_script(bufsize, qsize, blocking, steps):
    """single threaded; every step must be one that cannot block"""
    live0 = ctl_get("alloc_live")
    q = P()
    r = L.create_queue(C.c_uint32(bufsize), C.c_uint16(qsize), C.c_bool(blocking), C.byref(q))
    if r != 0:
        return {"code": r, "leak": ctl_get("alloc_live") - live0}
    res = []
    held = None
    for st in steps:
        if st[0] == "put":
            a = _tag_buf(st[1], st[2])
            with Buf(a) as b:
                res.append(L.queue_put(b, SZ(len(a)), q))
        elif st[0] == "put_null":
            res.append(L.queue_put(None, SZ(4), q))
        elif st[0] == "take":
            out, n = P(0), SZ(0)
            L.take_buffer_for_processing(C.byref(out), C.byref(n), q)
            if not out.value:
                res.append(None)
                held = None
            else:
                held = (out.value, n.value)
                a = copy_out(out.value, n.value, np.complex64)
                ok = bool(np.all(a.real == a.real[0]) and np.array_equal(a.imag, np.arange(len(a))))
                res.append((int(a.real[0]), len(a), ok))
        elif st[0] == "recheck":
            # the detached buffer must be untouched by puts
            a = copy_out(held[0], held[1], np.complex64)
            ok = bool(np.all(a.real == a.real[0]) and np.array_equal(a.imag, np.arange(len(a))))
            res.append((int(a.real[0]), len(a), ok))
        elif st[0] == "complete":
            L.complete_buffer_processing(q)
            held = None
            res.append(0)
        elif st[0] == "interrupt":
            L.interrupt_waiting_the_data(q)
            res.append(0)
    L.destroy_queue(q)
    return {"code": 0, "res": res, "leak": ctl_get("alloc_live") - live0}


def queue_threads(bufsize, qsize, blocking, puts, put_delays, take_delays, interrupt_after, producers=1, sched=None, stop_takes=None):
    """real producer threads and a consumer thread; interrupt after the producers finished or when `interrupt_after`
    buffers were taken (None: after the producers).  Returns what each side saw, or hung=True."""
    if sched:
        ctl_set(sched_seed=sched[0], sched_prob=sched[1], sched_max_us=sched[2])
    q = P()
    r = L.create_queue(C.c_uint32(bufsize), C.c_uint16(qsize), C.c_bool(blocking), C.byref(q))
    if r != 0:
        return {"code": r}
    took, codes = [], [[] for _ in range(producers)]
    torn = []
    parts = [[] for _ in range(producers)]
    for i, p in enumerate(puts):
        parts[i % producers].append((i, p))

    def produce(k):
        for i, (tag, n) in parts[k]:
            d = put_delays[i % len(put_delays)] if put_delays else 0
            if d:
                time.sleep(d / 1e6)
            with Buf(_tag_buf(tag, n)) as b:
                codes[k].append((tag, L.queue_put(b, SZ(n), q)))

    def consume():
        i = 0
        while True:
            out, n = P(0), SZ(0)
            L.take_buffer_for_processing(C.byref(out), C.byref(n), q)
            if not out.value:
                return
            d = take_delays[i % len(take_delays)] if take_delays else 0
            if d:
                time.sleep(d / 1e6)
            a = copy_out(out.value, n.value, np.complex64)
            if len(a) == 0 or not (np.all(a.real == a.real[0]) and np.array_equal(a.imag, np.arange(len(a)))):
                torn.append(i)
            took.append((int(a.real[0]) if len(a) else -1, len(a)))
            L.complete_buffer_processing(q)
            i += 1
            if interrupt_after is not None and i == interrupt_after:
                L.interrupt_waiting_the_data(q)

    ts = [threading.Thread(target=produce, args=(k,), daemon=True) for k in range(producers)]
    ct = threading.Thread(target=consume, daemon=True)
    ct.start()
    for t in ts:
        t.start()
    deadline = time.time() + 20
    for t in ts:
        t.join(max(0.01, deadline - time.time()))
    hung_p = any(t.is_alive() for t in ts)
    if not hung_p:
        L.interrupt_waiting_the_data(q)
    ct.join(max(0.01, deadline - time.time()))
    hung_c = ct.is_alive()
    ctl_set(sched_prob=0)
    if hung_p or hung_c:
        return {"code": 0, "hung": ("producer" if hung_p else "") + ("consumer" if hung_c else ""), "took": took, "codes": codes}
    L.destroy_queue(q)
    return {"code": 0, "hung": "", "took": took, "codes": codes, "torn": torn}


def queue_stop(bufsize, qsize, blocking, rounds, sched=None):
    """rounds of [delay us, buffers, gap us]: one thread puts and interrupts at once while the consumer is waiting"""
    if sched:
        ctl_set(sched_seed=sched[0], sched_prob=sched[1], sched_max_us=sched[2])
    res = []
    for delay, n, gap in rounds:
        q = P()
        r = L.create_queue(C.c_uint32(bufsize), C.c_uint16(qsize), C.c_bool(blocking), C.byref(q))
        if r != 0:
            return {"code": r}
        took = []

        def consume():
            while True:
                out, k = P(0), SZ(0)
                L.take_buffer_for_processing(C.byref(out), C.byref(k), q)
                if not out.value:
                    return
                a = copy_out(out.value, k.value, np.complex64)
                took.append((int(a.real[0]) if len(a) else -1, len(a)))
                L.complete_buffer_processing(q)
        t = threading.Thread(target=consume, daemon=True)
        t.start()
        if delay:
            time.sleep(delay / 1e6)
        codes = []
        bufs = [Buf(_tag_buf(i + 1, bufsize)) for i in range(n)]
        ptrs = [b.__enter__() for b in bufs]
        put, stop, size = L.queue_put, L.interrupt_waiting_the_data, SZ(bufsize)
        for p in ptrs:
            codes.append(put(p, size, q))
        if gap:
            time.sleep(gap / 1e6)
        stop(q)
        t.join(20)
        for b in bufs:
            b.__exit__(None, None, None)
        if t.is_alive():
            ctl_set(sched_prob=0)
            return {"code": 0, "hung": True, "res": res}
        L.destroy_queue(q)
        res.append((codes, took))
    ctl_set(sched_prob=0)
    return {"code": 0, "hung": False, "res": res}


# ---- devices ----
def _rx(dev):
    out, n = P(), SZ(0xDEAD)
    r = L.h_dev_rx(dev, C.byref(out), C.byref(n))
    return r, copy_out(out.value, n.value, np.complex64) if out.value else np.full(min(n.value, 9), np.nan, np.complex64)  # a length without samples shows


def file_rx(path, fs, offset, maxbuf, reads):
    live0, fd0 = ctl_get("alloc_live"), fd_count()
    d = P()
    r = L.h_file_create(1, path.encode(), None, C.c_uint64(fs), C.c_int64(offset), C.c_uint32(maxbuf), C.byref(d))
    if r != 0:
        return {"code": r, "leak": ctl_get("alloc_live") - live0, "fdleak": fd_count() - fd0}
    outs = []
    for _ in range(reads):
        outs.append(_rx(d))
    # the read past the end waits for stop
    end = {}

    def last():
        end["v"] = _rx(d)
    t = threading.Thread(target=last, daemon=True)
    t.start()
    time.sleep(0.02)
    waited = t.is_alive()
    L.h_dev_stop(d)
    t.join(10)
    if t.is_alive():
        return {"code": 0, "hung": True}
    L.h_dev_destroy(d)
    return {"code": 0, "out": outs, "end": end["v"], "waited": waited, "leak": ctl_get("alloc_live") - live0, "fdleak": fd_count() - fd0}


def file_tx(path, fs, offset, maxbuf, chunks):
    live0, fd0 = ctl_get("alloc_live"), fd_count()
    d = P()
    r = L.h_file_create(1, None, path.encode(), C.c_uint64(fs), C.c_int64(offset), C.c_uint32(maxbuf), C.byref(d))
    if r != 0:
        return {"code": r, "leak": ctl_get("alloc_live") - live0, "fdleak": fd_count() - fd0}
    codes = []
    for c in chunks:
        with Buf(np.asarray(c, np.complex64)) as b:
            codes.append(L.h_dev_tx(d, b, SZ(len(c))))
    L.h_dev_destroy(d)
    with open(path, "rb") as f:
        data = np.frombuffer(f.read(), np.complex64).copy()
    return {"code": 0, "codes": codes, "data": data, "leak": ctl_get("alloc_live") - live0, "fdleak": fd_count() - fd0}


def file_script(rx, tx, fs, offset, maxbuf, steps):
    """any sequence of reads, writes and stop requests on one device; "end" is a read that has to wait for the stop"""
    live0, fd0 = ctl_get("alloc_live"), fd_count()
    d = P()
    r = L.h_file_create(1, rx.encode() if rx else None, tx.encode() if tx else None, C.c_uint64(fs), C.c_int64(offset), C.c_uint32(maxbuf), C.byref(d))
    if r != 0:
        return {"code": r, "leak": ctl_get("alloc_live") - live0, "fdleak": fd_count() - fd0}
    res = []
    for st in steps:
        if st[0] == "rx":
            res.append(_rx(d))
        elif st[0] == "tx":
            with Buf(np.asarray(st[1], np.complex64)) as b:
                res.append(L.h_dev_tx(d, b, SZ(len(st[1]))))
        elif st[0] == "stop":
            L.h_dev_stop(d)
            res.append(0)
        elif st[0] == "end":
            got = {}
            t = threading.Thread(target=lambda: got.update(v=_rx(d)), daemon=True)
            t.start()
            time.sleep(st[1])
            waited = t.is_alive()
            L.h_dev_stop(d)
            t.join(20)
            if t.is_alive():
                return {"code": 0, "hung": True}
            res.append((waited, got["v"]))
    L.h_dev_destroy(d)
    return {"code": 0, "res": res, "hung": False, "leak": ctl_get("alloc_live") - live0, "fdleak": fd_count() - fd0}


_iio = None


def iio():
    global _iio
    if _iio is None:
        h = P()
        r = L.iio_lib_create(C.byref(h))
        if r != 0:
            raise RuntimeError("iio_lib_create failed: %d" % r)
        _iio = h
    return _iio


def _cfg(c):
    return None if c is None else (C.c_double * 5)(*c)


IIO_CTL = ["calls", "fail_at", "failed", "contexts", "buffers", "enabled", "misuse", "rx_delay_us", "rx_chunk", "rx_end_mode", "tx_delay_us",
           "tx_fail_after", "pushes", "refills", "no_device", "ctx_created", "rx_served", "rx_fail_at", "scans", "tx_short", "fail_all"]
_iio_dll = None


def iio_ctl():
    global _iio_dll
    if _iio_dll is None:
        iio()
        d = C.CDLL("libiio.so")
        d.h_iio_ctl.restype = P
        _iio_dll = (d, (C.c_int64 * len(IIO_CTL)).from_address(d.h_iio_ctl()))
    return _iio_dll


class Pluto:
    """devices of the pretended PlutoSDR, driven step by step"""

    def __init__(self):
        self.lib = iio()
        self.devs = {}

    def step(self, st):
        op, k = st[0], st[1]
        if op == "create":
            d = P()
            r = L.h_pluto_create(k, int(st[2]), _cfg(st[3]), _cfg(st[4]), C.c_uint(st[5]), C.c_uint32(st[6]), self.lib, C.byref(d))
            if r == 0:
                self.devs[k] = d
            return r
        if k not in self.devs:
            return "none"
        if op == "tx":
            with Buf(np.asarray(st[2], np.complex64)) as b:
                return L.h_dev_tx(self.devs[k], b, SZ(len(st[2])))
        if op == "rx":
            return _rx(self.devs[k])
        if op == "stop":
            L.h_dev_stop(self.devs[k])
            return 0
        if op == "destroy":
            L.h_dev_destroy(self.devs.pop(k))
            return 0
        raise ValueError(op)


def pluto(steps, rx=None, keep=()):
    """steps over several devices: ('create', k, rx_only, rx_cfg, tx_cfg, timeout, maxbuf) / ('tx', k, array) / ('rx', k) /
    ('stop', k) / ('destroy', k) / ('ctl', {name: value}).  What the library saw is returned after every step."""
    dll, ic = iio_ctl()
    for i in range(len(IIO_CTL)):
        ic[i] = 0
    base = os.path.join(os.getcwd(), "pluto")
    if rx is not None:
        with open(base + ".rx", "wb") as f:
            f.write(np.asarray(rx, np.int16).tobytes())
    dll.h_iio_files((base + ".log").encode(), (base + ".rx").encode() if rx is not None else None, (base + ".tx").encode())
    live0 = ctl_get("alloc_live")
    p = Pluto()
    res, state = [], []
    for st in steps:
        if st[0] == "ctl":
            for n, v in st[1].items():
                ic[IIO_CTL.index(n)] = v
            res.append(0)
        else:
            res.append(p.step(st))
        state.append(dict(zip(IIO_CTL, list(ic)), log=os.path.getsize(base + ".log"), tx=os.path.getsize(base + ".tx"), live=ctl_get("alloc_live") - live0))
    for k in list(p.devs):
        p.step(("destroy", k))
    end = dict(zip(IIO_CTL, list(ic)))
    dll.h_iio_files(None, None, None)
    with open(base + ".log") as f:
        log = f.read()
    with open(base + ".tx", "rb") as f:
        tx = np.frombuffer(f.read(), np.int16).reshape(-1, 2).copy()
    return {"res": res, "state": state, "end": end, "log": log, "tx": tx, "leak": ctl_get("alloc_live") - live0}


def pluto_threads(scripts, noise):
    """one thread per script, each with devices of its own"""
    dll, ic = iio_ctl()
    for i in range(len(IIO_CTL)):
        ic[i] = 0
    base = os.path.join(os.getcwd(), "pluto")
    dll.h_iio_files((base + ".log").encode(), None, None)
    live0 = ctl_get("alloc_live")
    ctl_set(sched_seed=noise[0], sched_prob=noise[1], sched_max_us=noise[2])
    out = [[] for _ in scripts]

    def go(i):
        p = Pluto()
        for st in scripts[i]:
            out[i].append((p.step(st), ic[IIO_CTL.index("contexts")]))
        for k in list(p.devs):
            p.step(("destroy", k))
    th = [threading.Thread(target=go, args=(i,), daemon=True) for i in range(len(scripts))]
    for t in th:
        t.start()
    for t in th:
        t.join(30)
    hung = any(t.is_alive() for t in th)
    ctl_set(sched_prob=0)
    if hung:
        return {"hung": True}
    end = dict(zip(IIO_CTL, list(ic)))
    dll.h_iio_files(None, None, None)
    with open(base + ".log") as f:
        log = f.read()
    return {"hung": False, "res": out, "end": end, "log": log, "leak": ctl_get("alloc_live") - live0}


def config(path, tmpdir=None):
    if tmpdir is not None:
        libc.setenv(b"TMPDIR", tmpdir.encode(), 1)
    else:
        libc.unsetenv(b"TMPDIR")
    live0 = ctl_get("alloc_live")
    out = C.create_string_buffer(65536)
    r = L.h_config(path.encode(), out, SZ(65536))
    return {"code": r, "text": out.value.decode("latin-1"), "leak": ctl_get("alloc_live") - live0}


# ---- allocation faults around any other operation ----
def with_fault(n, keep_failing, op, args):
    """run op with its n-th allocation refused; returns (result, how many allocations were refused)"""
    before = ctl_get("alloc_failed")
    live0 = ctl_get("alloc_live")
    ctl_set(alloc_fail_at=n, alloc_fail_all=1 if keep_failing else 0)
    try:
        r = globals()[op](*args)
    finally:
        ctl_set(alloc_fail_at=0, alloc_fail_all=0)
    return {"r": r, "failed": ctl_get("alloc_failed") - before, "leak": ctl_get("alloc_live") - live0}


def without_symbol(n, op, args):
    """run op with a device library which lacks the n-th symbol it is asked for; returns (result, whether it was asked for, libraries which stay loaded)"""
    failed, libs, live = ctl_get("dlsym_failed"), ctl_get("libs"), ctl_get("alloc_live")
    ctl_set(dlsym_fail_at=n)
    try:
        r = globals()[op](*args)
    finally:
        ctl_set(dlsym_fail_at=0)
    return {"r": r, "failed": ctl_get("dlsym_failed") - failed, "libs": ctl_get("libs") - libs, "leak": ctl_get("alloc_live") - live}


def many(calls):
    return [globals()[op](*args) for op, args in calls]


def limit(n):
    """larger allocations fail from now on"""
    ctl_set(alloc_max=n)


def ping():
    return os.getpid()


def fsk_demods(configs, order):
    """two demodulators fed alternately in the given order, then to the end"""
    hs, outs, pos = [], [], []
    for (fs, baud, dev, decim, tw, dc, maxbuf), _ in configs:
        h = P()
        if L.fsk_demod_create(C.c_uint64(fs), C.c_uint32(baud), C.c_int64(dev), C.c_uint8(decim), C.c_uint32(tw), C.c_bool(dc), C.c_uint32(maxbuf), C.byref(h)) != 0:
            raise RuntimeError("create")
        hs.append(h)
        outs.append([])
        pos.append(0)
    todo = list(order) + [0] * len(configs[0][1]) + [1] * len(configs[1][1])
    for k in todo:
        chunks = configs[k][1]
        if pos[k] < len(chunks):
            outs[k].append(_proc(L.fsk_demod_process, hs[k], np.asarray(chunks[pos[k]], np.complex64), np.int8))
            pos[k] += 1
    for h in hs:
        L.fsk_demod_destroy(h)
    return outs


def counted(op, args):
    """(result, allocations made, the numbers of the first and the last one of every place in the program)"""
    a = ctl_get("alloc_total")
    ctl_set(trace=1, traced=0)
    try:
        r = globals()[op](*args)
    finally:
        ctl_set(trace=0)
    return r, ctl_get("alloc_total") - a, places(trace[:min(ctl_get("traced"), TRACE_LEN)])


def places(sites):
    """the first and the last allocation (from 1) of every place and size"""
    first, last = {}, {}
    for i, s in enumerate(sites):
        first.setdefault(s, i + 1)
        last[s] = i + 1
    return sorted(set(first.values()) | set(last.values()))


def iio_library():
    live0 = ctl_get("alloc_live")
    h = P()
    r = L.iio_lib_create(C.byref(h))
    if r == 0:
        L.iio_lib_destroy(h)
    return {"code": r, "leak": ctl_get("alloc_live") - live0}
