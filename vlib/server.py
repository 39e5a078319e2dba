"""The sanitized server as a process, its clients, and a stand-in for the upstream sdr-server."""
import atexit
import errno
import mmap
import os
import select
import signal
import socket
import struct
import subprocess
import threading
import time

import numpy as np

from . import client as C
from . import ops, proto
from .core import Violation

SLOW = float(os.environ.get("HARN_SLOW", "1"))
LONG = 40 * SLOW  # a deadline which is only ever reached when something is stuck


def reserve_port():
    """a port nobody else gets while the socket lives; the server may bind it as well"""
    s = socket.socket()
    s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
    s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEPORT, 1)
    s.bind(("127.0.0.1", 0))
    return s, s.getsockname()[1]


def closed_port():
    """a port which refuses connections while the socket lives"""
    s = socket.socket()
    s.bind(("127.0.0.1", 0))
    return s, s.getsockname()[1]


def listening(port):
    want = ":%04X" % port
    with open("/proc/net/tcp") as f:
        for l in f:
            p = l.split()
            if len(p) > 3 and p[1].endswith(want) and p[3] == "0A":
                return True
    return False


_leaks = {}


def leaks_work(products):
    """whether the leak detector can run in this environment: the server without a configuration ends with 1"""
    if products.exe not in _leaks:
        r = subprocess.run([products.exe], env=dict(os.environ, ASAN_OPTIONS=C.ASAN.replace("detect_leaks=0", "detect_leaks=1")), stdout=subprocess.DEVNULL,
                           stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL)
        _leaks[products.exe] = r.returncode == 1
    return _leaks[products.exe]


class Server:
    def __init__(self, products, conf=None, iio=False, timeout_s=1, timeout_us=None, rx_data=None, env=None, leaks=True):
        self.products = products
        self.dir = C.scratch("s-")
        self.base = os.path.join(self.dir, "base")
        os.mkdir(self.base)
        self.holder, self.port = reserve_port()
        self.conf = {"bind_address": "127.0.0.1", "port": self.port, "read_timeout_seconds": timeout_s, "buffer_size": 1024, "queue_size": 64,
                     "base_path": self.base, "rx_sdr_type": "file", "tx_sdr_type": "none"}
        self.conf.update(conf or {})
        self.iio = iio
        self.ctl_path = os.path.join(self.dir, "ctl")
        with open(self.ctl_path, "wb") as f:
            f.write(b"\0" * (ops.TRACE_AT + 8 * ops.TRACE_LEN))
        self.ctl_f = open(self.ctl_path, "r+b")
        self.ctl_m = mmap.mmap(self.ctl_f.fileno(), ops.TRACE_AT + 8 * ops.TRACE_LEN)
        self.iio_path = os.path.join(self.dir, "iioctl")
        with open(self.iio_path, "wb") as f:
            f.write(b"\0" * 4096)
        self.iio_f = open(self.iio_path, "r+b")
        self.iio_m = mmap.mmap(self.iio_f.fileno(), 4096)
        self.log_path = os.path.join(self.dir, "log")
        self.env = dict(env or {})
        self.leaks = leaks and leaks_work(products)
        if timeout_us is not None:
            self.ctl(rcvtimeo_us=timeout_us)
        self.rx_path = os.path.join(self.dir, "iio.rx")
        with open(self.rx_path, "wb") as f:
            if rx_data is not None:
                f.write(np.asarray(rx_data, np.int16).tobytes())
        self.p = None
        self.clients = []
        self.count = 0
        self.connect_timeout = LONG
        atexit.register(self.kill)

    # ---- control words ----
    def ctl(self, **kw):
        for k, v in kw.items():
            struct.pack_into("<q", self.ctl_m, 8 * ops.CTL.index(k), int(v))

    def get(self, name):
        return struct.unpack_from("<q", self.ctl_m, 8 * ops.CTL.index(name))[0]

    def trace(self):
        """where the allocations since ctl(trace=1, traced=0) were made"""
        n = min(self.get("traced"), ops.TRACE_LEN)
        return list(struct.unpack_from("<%dq" % n, self.ctl_m, ops.TRACE_AT))

    def ictl(self, **kw):
        for k, v in kw.items():
            struct.pack_into("<q", self.iio_m, 8 * ops.IIO_CTL.index(k), int(v))

    def iget(self, name):
        return struct.unpack_from("<q", self.iio_m, 8 * ops.IIO_CTL.index(name))[0]

    # ---- life ----
    def launch(self, text=None, args=None):
        """text: the configuration file instead of self.conf; args: arguments instead of its path"""
        path = os.path.join(self.dir, "conf")
        with open(path, "w") as f:
            f.write(text or "")
            for k, v in self.conf.items() if text is None else ():
                if v is None:
                    continue
                f.write("%s = %s;\n" % (k, '"%s"' % v.replace("\\", "\\\\").replace('"', '\\"') if isinstance(v, str) else v))
        env = dict(os.environ)
        env.update({"ASAN_OPTIONS": C.ASAN.replace("detect_leaks=0", "detect_leaks=%d" % self.leaks) + ":log_path=" + os.path.join(self.dir, "asan"),
                    "LSAN_OPTIONS": "exitcode=98:report_objects=0:suppressions=" + self.suppress(),
                    "VOLK_GENERIC": "1", "VOLK_ALIGNMENT": "16", "HARN_VOLK": "instr", "HARN_CTL": self.ctl_path, "TZ": "UTC", "LC_ALL": "C", "TMPDIR": self.dir})
        if self.iio:
            env.update({"LD_LIBRARY_PATH": self.products.iio_dir, "HARN_IIO_CTL": self.iio_path, "HARN_IIO_LOG": os.path.join(self.dir, "iio.log"),
                        "HARN_IIO_RX": self.rx_path, "HARN_IIO_TX": os.path.join(self.dir, "iio.tx")})
        env.update(self.env)
        with open(self.log_path, "wb") as log:
            self.p = subprocess.Popen([self.products.exe] + ([path] if args is None else args), stdout=log, stderr=log, stdin=subprocess.DEVNULL, env=env, cwd=self.dir)
        return self.p

    def start(self):
        self.launch()
        deadline = time.time() + LONG
        while not listening(self.port):
            if self.p.poll() is not None:
                raise Violation("the server did not start (exit %s)\n%s" % (self.p.returncode, self.log()))
            if time.time() > deadline:
                raise Violation("the server never listened")
            time.sleep(0.004)
        self.ping()
        self.baseline = self.usage()
        return self

    def suppress(self):
        p = os.path.join(self.dir, "lsan.supp")
        if not os.path.exists(p):
            with open(p, "w") as f:
                f.write("leak:libvolk\n")
        return p

    def log(self, n=3000):
        text = ""
        for name in sorted(os.listdir(self.dir)):
            if name.startswith("asan"):
                with open(os.path.join(self.dir, name), errors="replace") as f:
                    text += f.read()
        k = text.find("Shadow bytes")
        text = text[:k] if k >= 0 else text
        if text:
            return text[:n]
        with open(self.log_path, errors="replace") as f:
            return f.read()[-n:]

    def alive(self):
        return self.p is not None and self.p.poll() is None

    def check_alive(self, what=""):
        if not self.alive():
            raise Violation("the server died (exit %s) %s\n%s" % (self.p.returncode, what, self.log()))

    def kill(self):
        for c in self.clients:
            c.close()
        self.clients = []
        if self.p is not None:
            self.p.kill()
            self.p.wait()
            self.p = None
        if self.holder is not None:
            self.holder.close()
            self.holder = None
            self.ctl_m.close()
            self.ctl_f.close()
            self.iio_m.close()
            self.iio_f.close()

    def done(self):
        """forget the server, remove its files"""
        import shutil
        self.kill()
        if self.dir.startswith(C.scratch_root()):
            shutil.rmtree(self.dir, ignore_errors=True)

    def stop(self, sig=signal.SIGTERM, what="", again=()):
        """termination: the process exits normally, nothing leaked; again: further signals and the pauses before them"""
        self.check_alive(what)
        self.p.send_signal(sig)
        for pause, more in again:
            if pause:
                time.sleep(pause)
            if self.p.poll() is not None:
                break
            self.p.send_signal(more)
        try:
            code = self.p.wait(LONG)
        except subprocess.TimeoutExpired:
            raise Violation("the server did not stop within %d s of the signal %s\n%s" % (LONG, what, self.stacks())) from None
        if code != 0:
            raise Violation("the server ended with %s %s\n%s" % (code, what, self.log()))

    def stacks(self):
        out = []
        try:
            for t in sorted(os.listdir("/proc/%d/task" % self.p.pid)):
                with open("/proc/%d/task/%s/wchan" % (self.p.pid, t)) as f:
                    out.append("%s %s" % (t, f.read()))
        except OSError:
            pass
        return "; ".join(out) + "\n" + self.log(1500)

    # ---- what it holds ----
    def usage(self):
        pid = self.p.pid
        fds = []
        for f in os.listdir("/proc/%d/fd" % pid):
            try:
                t = os.readlink("/proc/%d/fd/%s" % (pid, f))
            except OSError:
                continue
            fds.append(t.split(":")[0] if t.startswith(("socket:", "pipe:", "anon")) else t)
        return {"fds": sorted(fds), "threads": len(os.listdir("/proc/%d/task" % pid)), "allocs": self.get("alloc_live"),
                "contexts": self.iget("contexts"), "buffers": self.iget("buffers"), "enabled": self.iget("enabled")}

    def idle(self, what="", expect=None, deadline=LONG):
        """everything is released by the time further clients are handled"""
        want = expect or self.baseline
        end = time.time() + deadline
        pause = 0.002
        while True:
            self.check_alive(what)
            self.ping()
            # the socket of the ping itself may still be on its way out
            for _ in range(3):
                now = self.usage()
                if now == want:
                    return
                time.sleep(pause)
            if time.time() > end:
                raise Violation("%s: not released: %s" % (what, {k: (now[k], "was", want[k]) for k in want if now[k] != want[k]}))
            pause = min(0.2, pause * 2)

    def idle_of(self, c, deadline=LONG):
        """the files of a client which went away are closed"""
        paths = [os.path.basename(self.path(k, c.id)) for k in ("rx", "demod", "tx")]
        end = time.time() + deadline
        while True:
            self.check_alive()
            if not any(os.path.basename(f) in paths for f in self.usage()["fds"]):
                return
            if time.time() > end:
                raise Violation("the files of client %d which is gone are still open\n%s" % (c.id, self.stacks()))
            time.sleep(0.003)

    def released(self, what="", deadline=LONG):
        """one more client is handled, then everything is as it was at the start"""
        want = self.baseline
        self.ping()
        end = time.time() + deadline
        while True:
            now = self.usage()
            if now == want:
                return
            if time.time() > end:
                raise Violation("%s: not released by the time the next client was handled: %s" % (what, {k: (now[k], "was", want[k]) for k in want if now[k] != want[k]}))
            time.sleep(0.003)

    def quiet(self, hold=0.15, deadline=LONG):
        """wait until no thread of the server has anything to do"""
        end = time.time() + deadline
        last, since = None, time.time()
        while time.time() < end:
            self.check_alive()
            now = []
            busy = False
            for t in sorted(os.listdir("/proc/%d/task" % self.p.pid)):
                try:
                    with open("/proc/%d/task/%s/stat" % (self.p.pid, t)) as f:
                        p = f.read().rsplit(")", 1)[1].split()
                    with open("/proc/%d/task/%s/status" % (self.p.pid, t)) as f:
                        sw = [l for l in f if "ctxt" in l]
                except (OSError, IndexError):
                    busy = True
                    continue
                if p[0] not in "S":
                    busy = True
                now.append((t, p[11], p[12], tuple(sw)))
            if busy or now != last:
                last, since = now, time.time()
            elif time.time() - since > hold:
                return True
            time.sleep(0.02)
        return False

    # ---- clients ----
    def connect(self, rcvbuf=None, sndbuf=None):
        """connections are numbered in the order they are made"""
        self.count += 1
        c = Client(self, rcvbuf, sndbuf)
        self.clients.append(c)
        return c

    def ping(self):
        c = self.connect()
        try:
            c.send(proto.message(proto.PING))
            r = c.response("ping")
            if r != (proto.SUCCESS, 0):
                raise Violation("a ping was answered with %s" % (r,))
            if c.read_some() != b"":
                raise Violation("more than one answer to a ping")
        finally:
            c.close()
            self.clients.remove(c)

    def path(self, kind, cid):
        return os.path.join(self.base, {"rx": "rx.sdr2demod.%d.cf32", "demod": "rx.demod2client.%d.s8", "tx": "tx.mod2sdr.%d.cf32"}[kind] % cid)

    STALE = b"left over" * 700

    def litter(self, n=12):
        """the files which an earlier run of the server in this folder left behind"""
        for cid in range(n):
            for kind in ("rx", "demod", "tx"):
                with open(self.path(kind, cid), "wb") as f:
                    f.write(self.STALE)

    def wrote(self, kind, cid):
        """is there a file of this session (and not of an earlier run)"""
        p = self.path(kind, cid)
        if not os.path.exists(p):
            return False
        with open(p, "rb") as f:
            return f.read() != self.STALE

    def data(self, kind, cid):
        return load(self.path(kind, cid), {"rx": np.complex64, "demod": np.int8, "tx": np.complex64}[kind])

    def iio_log(self):
        with open(os.path.join(self.dir, "iio.log")) as f:
            return f.read()

    def iio_tx(self):
        return load(os.path.join(self.dir, "iio.tx"), np.int16).reshape(-1, 2)


def load(path, dtype):
    with open(path, "rb") as f:
        b = f.read()
    n = np.dtype(dtype).itemsize
    if len(b) % n:
        raise Violation("%s ends in the middle of a sample (%d bytes)" % (os.path.basename(path), len(b)))
    return np.frombuffer(b, dtype).copy()


class Client:
    def __init__(self, server, rcvbuf=None, sndbuf=None):
        self.server = server
        self.s = socket.socket()
        if rcvbuf:
            self.s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcvbuf)
        if sndbuf:
            self.s.setsockopt(socket.SOL_SOCKET, socket.SO_SNDBUF, sndbuf)
        self.s.settimeout(server.connect_timeout)
        try:
            self.s.connect(("127.0.0.1", server.port))
        except OSError as e:
            server.check_alive("while connecting")
            raise Violation("cannot connect: %s" % e) from None
        self.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.id = server.count - 1
        self.buf = b""
        self.eof = False

    def send(self, data, cuts=None, pause=0.0):
        """the bytes, optionally in pieces"""
        parts = [data]
        if cuts:
            pos = [0] + sorted(set(c for c in cuts if 0 < c < len(data))) + [len(data)]
            parts = [data[a:b] for a, b in zip(pos, pos[1:])]
        for i, p in enumerate(parts):
            if i and pause:
                time.sleep(pause)
            try:
                self.s.sendall(p)
            except socket.timeout:
                self.server.check_alive("while sending")
                raise Violation("the server stopped reading for %d s" % LONG) from None
            except OSError as e:
                if e.errno in (errno.EPIPE, errno.ECONNRESET):
                    return False
                raise
        return True

    def read_some(self, n=1 << 16, timeout=None):
        """up to n bytes; b'' when the server closed the connection, None on timeout"""
        if self.buf:
            out, self.buf = self.buf[:n], self.buf[n:]
            return out
        self.s.settimeout(LONG if timeout is None else timeout)
        try:
            return self.s.recv(n)
        except socket.timeout:
            return None
        except ConnectionResetError:
            return b""

    def read(self, n, what=""):
        """exactly n bytes"""
        while len(self.buf) < n:
            self.s.settimeout(LONG)
            try:
                b = self.s.recv(max(4096, n - len(self.buf)))
            except socket.timeout:
                self.server.check_alive(what)
                raise Violation("%s: %d of %d bytes after %d s\n%s" % (what, len(self.buf), n, LONG, self.server.stacks())) from None
            except ConnectionResetError:
                b = b""
            if not b:
                self.server.check_alive(what)
                raise Violation("%s: the connection was closed after %d of %d bytes\n%s" % (what, len(self.buf), n, self.server.log(800)))
            self.buf += b
        out, self.buf = self.buf[:n], self.buf[n:]
        return out

    def response(self, what=""):
        v, t, n = struct.unpack(">BBI", self.read(6, what))
        if v != proto.VERSION or t != proto.RESPONSE or n > 64:
            raise Violation("%s: version %d, type %d, length %d instead of a response" % (what, v, t, n))
        body = self.read(n, what)
        try:
            return proto.parse_response(body)
        except ValueError as e:
            raise Violation("%s: malformed response %s: %s" % (what, body.hex(), e)) from None

    def maybe_response(self, what=""):
        """a response, or None when the connection was closed before its first byte"""
        if not self.buf:
            b = self.read_some()
            if b is None:
                self.server.check_alive(what)
                raise Violation("%s: neither an answer nor an end of the connection for %d s\n%s" % (what, LONG, self.server.stacks()))
            if b == b"":
                return None
            self.buf = b
        return self.response(what)

    def ended(self, what=""):
        """the server closes the connection without saying anything more"""
        b = self.read_some()
        if b is None:
            self.server.check_alive(what)
            raise Violation("%s: the connection stays open" % what)
        if b:
            raise Violation("%s: %d further bytes %s" % (what, len(b), b[:20].hex()))

    def silent(self, seconds=0.0):
        """nothing waits to be read"""
        if self.buf:
            return False
        r, _, _ = select.select([self.s], [], [], seconds)
        return not r

    def shut(self):
        self.send(proto.message(proto.SHUTDOWN))

    def reset(self):
        self.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        self.close()

    def close(self):
        try:
            self.s.close()
        except OSError:
            pass


class Upstream:
    """sdr-server: accepts, answers requests, sends the samples it is told to"""

    def __init__(self):
        self.ls = socket.socket()
        self.ls.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.ls.bind(("127.0.0.1", 0))
        self.ls.listen(16)
        self.port = self.ls.getsockname()[1]
        self.conns = []
        self.mode = "accept"  # accept / reject / silent / close / badversion / badtype / slow
        self.reject_details = 2
        self.cv = threading.Condition()
        self.closed = False
        self.graceful = True
        self.t = threading.Thread(target=self._loop, daemon=True)
        self.t.start()

    def _loop(self):
        while True:
            try:
                s, _ = self.ls.accept()
            except OSError:
                return
            c = UpConn(self, s)
            with self.cv:
                self.conns.append(c)
                self.cv.notify_all()
            threading.Thread(target=c.run, daemon=True).start()

    def wait(self, pred, what=""):
        with self.cv:
            if not self.cv.wait_for(pred, LONG):
                raise Violation("upstream: %s did not happen within %d s" % (what, LONG))

    def open(self):
        return [c for c in self.conns if c.request is not None and not c.over]

    def close(self):
        self.closed = True
        try:
            self.ls.shutdown(socket.SHUT_RDWR)
        except OSError:
            pass
        self.ls.close()
        for c in list(self.conns):
            c.close()


class UpConn:
    def __init__(self, up, s):
        self.up, self.s = up, s
        self.request = None
        self.raw = b""
        self.answered = False
        self.shutdown = False   # the modem asked to end
        self.over = False       # the connection is closed
        self.ended_by_us = False
        self.extra = b""
        self.lock = threading.Lock()
        s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)

    def _read(self, n):
        b = b""
        while len(b) < n:
            x = self.s.recv(n - len(b))
            if not x:
                return None
            b += x
        return b

    def run(self):
        up = self.up
        try:
            b = self._read(15)
            if b is None:
                return
            v, t, center, rate, band, dest = struct.unpack(">BBIIIB", b)
            with up.cv:
                self.request = {"version": v, "type": t, "center": center, "rate": rate, "band": band, "dest": dest}
                mode = up.mode
                up.cv.notify_all()
            if mode == "close":
                return
            if mode == "rst":
                self.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
                return
            if mode == "silent":
                self._read(1)
                return
            if mode == "half":
                self.s.sendall(struct.pack(">BB", 0, 2))
                self._read(1)
                return
            status = 1 if mode == "reject" else 0
            self.s.sendall(struct.pack(">BBBI", 1 if mode == "badversion" else 0, 7 if mode == "badtype" else 2, status, up.reject_details if status else 0))
            with up.cv:
                self.answered = mode == "accept"
                up.cv.notify_all()
            while True:
                b = self._read(2)
                if b is None:
                    return
                with up.cv:
                    if b == b"\0\1":
                        self.shutdown = True
                    else:
                        self.extra += b
                    up.cv.notify_all()
                if self.shutdown and up.graceful:
                    return
        except OSError:
            pass
        finally:
            self.close()

    def send(self, samples, cuts=None, pause=0.0):
        """complex samples, optionally in pieces of bytes"""
        data = np.asarray(samples, np.complex64).tobytes() if not isinstance(samples, (bytes, bytearray)) else bytes(samples)
        pos = [0] + sorted(set(c for c in cuts or () if 0 < c < len(data))) + [len(data)]
        try:
            for i, (a, b) in enumerate(zip(pos, pos[1:])):
                if i and pause:
                    time.sleep(pause)
                self.s.sendall(data[a:b])
        except OSError:
            return False
        return True

    def fin(self):
        """no more samples"""
        try:
            self.s.shutdown(socket.SHUT_WR)
        except OSError:
            pass

    def close(self):
        with self.up.cv:
            self.over = True
            self.up.cv.notify_all()
        try:
            if self.up.mode != "rst":
                self.s.shutdown(socket.SHUT_RDWR)
        except OSError:
            pass
        try:
            self.s.close()
        except OSError:
            pass
