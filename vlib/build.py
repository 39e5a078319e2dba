"""Builds /repo's current working tree together with the harness shims, outside /repo.

Products live in /verif/.build/<hash of everything compiled>, so a check that finds its tree unchanged reuses them.
"""
import concurrent.futures
import fcntl
import glob
import hashlib
import os
import shutil
import subprocess

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("HARN_REPO", "/repo")
CACHE = os.path.join(VERIF, ".build")
NATIVE = os.path.join(VERIF, "native")
CC = "gcc"

WRAPS = ["malloc", "free", "calloc", "realloc", "strdup", "posix_memalign", "aligned_alloc", "volk_malloc", "volk_free",
         "pthread_create", "pthread_join", "pthread_mutex_lock", "pthread_mutex_unlock", "socket", "connect", "setsockopt", "close", "recv",
         "write", "send", "shutdown", "accept", "fopen", "config_init", "config_destroy", "dlopen", "dlsym", "dlclose"]
SAN = ["-fsanitize=address", "-fsanitize=bounds", "-fno-sanitize-recover=bounds", "-fno-omit-frame-pointer"]
BASE = ["-std=gnu99", "-O1", "-g", "-fPIC", "-w", "-D_GNU_SOURCE"]


class BuildError(Exception):
    pass


def pkg(*args):
    return subprocess.check_output(["pkg-config", *args, "volk", "libconfig", "libprotobuf-c"], text=True).split()


def _sources():
    files = sorted(glob.glob(os.path.join(REPO, "src", "**", "*.c"), recursive=True))
    return [f for f in files if os.path.basename(f) != "main.c"]


def _digest():
    h = hashlib.sha256()
    paths = sorted(glob.glob(os.path.join(REPO, "src", "**", "*.[ch]"), recursive=True)) + \
        sorted(glob.glob(os.path.join(NATIVE, "*"))) + [os.path.abspath(__file__)]
    for p in paths:
        if os.path.isfile(p):
            h.update(p.encode() + b"\0")
            with open(p, "rb") as f:
                h.update(f.read())
            h.update(b"\0")
    return h.hexdigest()[:20]


def _run(cmd):
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout + r.stderr)


class Products:
    def __init__(self, d):
        self.dir = d
        self.lib = os.path.join(d, "libmodem.so")
        self.exe = os.path.join(d, "sdr_modem")
        self.iio_dir = os.path.join(d, "iio")
        self.iio = os.path.join(self.iio_dir, "libiio.so")


def _extra_flags():
    # the same language level as the project's own build
    # a variable which is read before it is written has a value which shows (it would often be zero)
    return ["-std=c99", "-O1", "-g", "-fPIC", "-w", "-ftrivial-auto-var-init=pattern"]


def build():
    os.makedirs(CACHE, exist_ok=True)
    digest = _digest()
    out = os.path.join(CACHE, digest)
    p = Products(out)
    done = os.path.join(out, "done")
    if os.path.exists(done):
        os.utime(done)
        return p
    with open(os.path.join(CACHE, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(done):
            return p
        # keep the cache small
        old = sorted((d for d in glob.glob(os.path.join(CACHE, "*")) if os.path.isdir(d)), key=os.path.getmtime)
        for d in old[:-6]:
            if os.path.dirname(d) == CACHE:
                shutil.rmtree(d, ignore_errors=True)
        tmp = out + ".tmp"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(os.path.join(tmp, "obj"))
        os.makedirs(os.path.join(tmp, "iio"))
        cflags = pkg("--cflags")
        jobs = []
        objs = []
        for i, src in enumerate(_sources()):
            obj = os.path.join(tmp, "obj", "%03d_%s.o" % (i, os.path.basename(src)[:-2]))
            objs.append(obj)
            jobs.append([CC, *_extra_flags(), *SAN, *cflags, "-c", src, "-o", obj])
        main_obj = os.path.join(tmp, "obj", "main.o")
        jobs.append([CC, *_extra_flags(), *SAN, *cflags, "-c", os.path.join(REPO, "src", "main.c"), "-o", main_obj])
        wrap_obj = os.path.join(tmp, "obj", "h_wrap.o")
        jobs.append([CC, *BASE, "-c", os.path.join(NATIVE, "wrap.c"), "-o", wrap_obj])
        volk_obj = os.path.join(tmp, "obj", "h_volk.o")
        jobs.append([CC, *BASE, *SAN, *cflags, "-c", os.path.join(NATIVE, "volk_instr.c"), "-o", volk_obj])
        shim_obj = os.path.join(tmp, "obj", "h_shim.o")
        jobs.append([CC, *BASE, *SAN, "-I" + os.path.join(REPO, "src"), "-I" + NATIVE, *cflags, "-c", os.path.join(NATIVE, "shim.c"), "-o", shim_obj])
        jobs.append([CC, *BASE, *SAN, "-shared", os.path.join(NATIVE, "fake_iio.c"), "-o", os.path.join(tmp, "iio", "libiio.so"), "-lpthread"])
        with concurrent.futures.ThreadPoolExecutor(max_workers=max(2, os.cpu_count() or 2)) as ex:
            for f in [ex.submit(_run, j) for j in jobs]:
                f.result()
        wraps = ["-Wl," + ",".join("--wrap=" + w for w in WRAPS)]
        libs = pkg("--libs") + ["-lpthread", "-lm", "-ldl"]
        link = [
            [CC, "-shared", *SAN, *objs, shim_obj, wrap_obj, volk_obj, *wraps, "-o", os.path.join(tmp, "libmodem.so"), *libs],
            [CC, *SAN, "-rdynamic", main_obj, *objs, wrap_obj, volk_obj, *wraps, "-o", os.path.join(tmp, "sdr_modem"), *libs],
        ]
        with concurrent.futures.ThreadPoolExecutor(max_workers=2) as ex:
            for f in [ex.submit(_run, j) for j in link]:
                f.result()
        shutil.rmtree(os.path.join(tmp, "obj"))
        with open(os.path.join(tmp, "done"), "w") as f:
            f.write(digest + "\n")
        shutil.rmtree(out, ignore_errors=True)
        os.rename(tmp, out)
    return p


if __name__ == "__main__":
    print(build().dir)
