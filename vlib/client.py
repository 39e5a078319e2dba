"""Parent side of the sanitized worker."""
import atexit
import os
import pickle
import select
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))


class Crash(Exception):
    """the code under test died (signal, sanitizer report)"""


class Hang(Exception):
    """a call into the code under test did not return"""


class HarnessError(Exception):
    pass


ROOT = None


def scratch_root():
    """one directory per check run, removed when the run ends"""
    global ROOT
    if ROOT is None:
        ROOT = tempfile.mkdtemp(prefix="sdrm-")
        atexit.register(scratch_done, os.getpid())
    return ROOT


def scratch_done(pid=None):
    if ROOT is not None and (pid is None or pid == os.getpid()):
        shutil.rmtree(ROOT, ignore_errors=True)


def scratch(prefix="d-"):
    return tempfile.mkdtemp(prefix=prefix, dir=scratch_root())


ASAN = "detect_leaks=0:max_malloc_fill_size=1048576:abort_on_error=0:exitcode=99:allocator_may_return_null=1:handle_abort=1:detect_stack_use_after_return=1:max_allocation_size_mb=8192:symbolize=1"


def asan_lib():
    return os.path.realpath(subprocess.check_output(["gcc", "-print-file-name=libasan.so"], text=True).strip())


class Worker:
    def __init__(self, products, env=None, volk="instr", iio=False):
        self.products = products
        self.extra = dict(env or {})
        self.volk = volk
        self.iio = iio
        self.p = None
        self.dir = scratch()
        self.log_path = os.path.join(self.dir, "worker.log")
        self.restarts = 0
        self.calls = 0
        atexit.register(self.close)

    def start(self):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        env = dict(os.environ)
        env.update({"LD_PRELOAD": asan_lib(), "ASAN_OPTIONS": ASAN, "UBSAN_OPTIONS": "print_stacktrace=1",
                    "VOLK_GENERIC": "1", "VOLK_ALIGNMENT": "16", "HARN_VOLK": self.volk, "PYTHONMALLOC": "malloc",
                    "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "TZ": "UTC", "LC_ALL": "C"})
        if self.volk == "native":
            env.pop("VOLK_GENERIC")
            env.pop("VOLK_ALIGNMENT")
        if self.iio:
            env["LD_LIBRARY_PATH"] = self.products.iio_dir
        env.update(self.extra)
        log = open(self.log_path, "wb")
        self.p = subprocess.Popen([sys.executable, os.path.join(HERE, "worker.py"), self.products.lib, str(r1), str(w2)],
                                  pass_fds=(r1, w2), stdout=log, stderr=log, stdin=subprocess.DEVNULL, env=env, cwd=self.dir)
        log.close()
        os.close(r1)
        os.close(w2)
        self.w = os.fdopen(w1, "wb")
        self.r = r2
        self.restarts += 1

    def close(self):
        if self.p is not None:
            try:
                self.w.close()
            except Exception:
                pass
            try:
                self.p.kill()
                self.p.wait()
            except Exception:
                pass
            os.close(self.r)
            self.p = None

    def _read(self, n, deadline):
        data = b""
        while len(data) < n:
            left = deadline - time.time()
            if left <= 0:
                return None
            ready, _, _ = select.select([self.r], [], [], min(left, 1.0))
            if ready:
                chunk = os.read(self.r, min(1 << 20, n - len(data)))
                if not chunk:
                    raise EOFError
                data += chunk
        return data

    def log_tail(self, n=4000):
        try:
            with open(self.log_path, "rb") as f:
                f.seek(0, 2)
                size = f.tell()
                f.seek(max(0, size - 200000))
                text = f.read().decode("utf-8", "replace")
        except OSError:
            return ""
        k = text.find("ERROR: AddressSanitizer")
        if k < 0:
            k = text.find("runtime error")
        text = text[k:] if k >= 0 else text[-n:]
        keep = [l for l in text.splitlines() if "libpython" not in l and "/usr/bin/python" not in l and "libffi" not in l and "_ctypes" not in l and " in Py" not in l]
        text = "\n".join(keep)
        k = text.find("Shadow bytes")
        return (text[:k] if k >= 0 else text)[:n]

    def call(self, op, *args, timeout=60):
        if self.p is None:
            self.start()
        self.calls += 1
        data = pickle.dumps((op, args), protocol=4)
        try:
            self.w.write(struct.pack("<I", len(data)) + data)
            self.w.flush()
            deadline = time.time() + timeout
            head = self._read(4, deadline)
            body = None if head is None else self._read(struct.unpack("<I", head)[0], deadline)
        except (EOFError, BrokenPipeError):
            code = self.p.wait()
            tail = self.log_tail()
            self.close()
            raise Crash("the code under test died in %s (exit %s)\n%s" % (op, code, tail)) from None
        if body is None:
            self.close()
            raise Hang("%s did not return within %d s" % (op, timeout))
        kind, value = pickle.loads(body)
        if kind == "err":
            raise HarnessError(value)
        return value

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        return lambda *a, **k: self.call(name, *a, **k)


def crash_summary(text):
    for line in text.splitlines():
        if "ERROR: AddressSanitizer" in line or "runtime error" in line:
            return line.strip()[:300]
    return text.strip().splitlines()[0][:300] if text.strip() else ""
