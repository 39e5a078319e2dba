"""Drives the checks: generated cases, explicit oracle, shrinking, confirmation, replay files, evidence."""
import hashlib
import json
import multiprocessing
import os
import signal
import sys
import time
import traceback

os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")

import hypothesis  # noqa: E402
from hypothesis import HealthCheck, Phase, given, settings  # noqa: E402

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    """the property does not hold for this case"""


class Skip(Exception):
    """the case says nothing about the property (counted, never a pass of a non-trivial case)"""


def jkey(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True, default=str).encode()).hexdigest()[:16]


def short(x, n=600):
    s = json.dumps(x, default=str)
    return s if len(s) <= n else s[:n] + "..."


class Sub:
    """One executable statement of (part of) a property."""

    def __init__(self, name, strategy, fn, quick, thorough=None, shards=1, tshards=None, qtime=40, ttime=600, confirm=3, need=2,
                 shrink_s=60, cleanup=None, setup=None):
        self.name = name
        self.strategy = strategy
        self.fn = fn
        self.n = {"quick": quick, "thorough": thorough if thorough is not None else quick * 20}
        self.shards = {"quick": shards, "thorough": tshards if tshards is not None else max(shards, 4)}
        self.time = {"quick": qtime, "thorough": ttime}
        self.confirm = confirm
        self.need = need
        self.shrink_s = shrink_s
        self.setup = setup
        self.cleanup = cleanup


class Result:
    def __init__(self, name):
        self.name = name
        self.evaluations = 0
        self.skipped = 0
        self.keys = set()
        self.samples = []
        self.labels = {}
        self.violation = None
        self.unconfirmed = []
        self.known = []
        self.error = None
        self.broken = []
        self.wall = 0.0


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)


class Runner:
    def __init__(self, sub, tier, seed, shard, shards, pid, products):
        self.sub, self.tier, self.seed, self.shard, self.shards, self.pid = sub, tier, seed, shard, shards, pid
        self.products = products
        self.res = Result(sub.name)

    def evaluate(self, case):
        """one execution of the oracle; raises Violation"""
        r = self.sub.fn(self, case)
        return r

    # helpers for check functions
    def worker(self, **kw):
        from . import client
        key = tuple(sorted((k, str(v)) for k, v in kw.items()))
        if not hasattr(self, "_workers"):
            self._workers = {}
        if key not in self._workers:
            self._workers[key] = client.Worker(self.products, **kw)
        return self._workers[key]

    def fresh(self):
        for w in getattr(self, "_workers", {}).values():
            w.close()
        if self.sub.cleanup:
            self.sub.cleanup(self)

    def run(self):
        from . import client
        sub, res = self.sub, self.res
        t0 = time.time()
        limit = sub.time[self.tier]
        n = max(1, sub.n[self.tier] // self.shards)
        fails = {}
        state = {"first": None, "last": None, "first_t": None, "known_hit": set()}
        knowns = [k for k in known_findings() if k.get("property") == self.pid and k.get("status") == "known" and k.get("sub") == sub.name]

        def body(case):
            key = jkey(case)
            if key in fails:
                raise fails[key]
            now = time.time()
            if state["first"] is None:
                if now - t0 > limit:
                    return
            elif now - state["first_t"] > sub.shrink_s:
                return
            res.evaluations += 1
            try:
                try:
                    r = self.evaluate(case)
                except (client.Crash, client.Hang) as e:
                    raise Violation(str(e)) from None
                except Skip as e:
                    res.skipped += 1
                    res.labels["skip:" + str(e)[:40]] = res.labels.get("skip:" + str(e)[:40], 0) + 1
                    return
                except (Violation, KeyboardInterrupt):
                    raise
                except Exception as e:
                    # the check itself failed; it is an error of the check when it happens again and again
                    res.broken.append(traceback.format_exc())
                    res.labels["error:" + type(e).__name__] = res.labels.get("error:" + type(e).__name__, 0) + 1
                    return
            except Violation as e:
                for k in knowns:
                    if k["match"] in str(e):
                        state["known_hit"].add(k["id"])
                        return
                if state["first"] is None:
                    state["first"], state["first_t"] = case, time.time()
                state["last"] = case
                err = Violation(str(e))
                fails[key] = err
                raise err
            if r:
                res.keys.add(key)
                if isinstance(r, str):
                    res.labels[r] = res.labels.get(r, 0) + 1
                if len(res.samples) < 3:
                    res.samples.append({"sub": sub.name, "case": short(case)})

        seed = int(hashlib.sha256(("%s/%s/%d/%d" % (self.pid, sub.name, self.seed, self.shard)).encode()).hexdigest()[:12], 16)
        wrapped = given(sub.strategy)(body)
        wrapped = settings(max_examples=n, deadline=None, database=None, derandomize=False, report_multiple_bugs=False,
                           suppress_health_check=list(HealthCheck), phases=(Phase.explicit, Phase.generate, Phase.shrink),
                           print_blob=False)(wrapped)
        wrapped = hypothesis.seed(seed)(wrapped)
        try:
            if sub.setup:
                sub.setup(self)
            try:
                wrapped()
            except Violation:
                pass
            except hypothesis.errors.Flaky:
                pass
            except BaseExceptionGroup:
                pass
            if state["last"] is not None:
                for case in ([state["last"]] if state["last"] == state["first"] else [state["last"], state["first"]]):
                    msg = self.confirm(case, knowns)
                    if msg is not None:
                        res.violation = {"sub": sub.name, "case": case, "message": msg}
                        break
                else:
                    res.unconfirmed.append({"sub": sub.name, "case": short(state["first"]), "message": str(fails[jkey(state["first"])])[:500]})
            res.known = sorted(state["known_hit"])
            if len(res.broken) > max(2, res.evaluations // 20) and res.violation is None:
                res.error = res.broken[0]
        except Exception:
            res.error = traceback.format_exc()
        finally:
            try:
                self.fresh()
            except Exception:
                pass
        res.wall = time.time() - t0
        return res

    def confirm(self, case, knowns=()):
        from . import client
        hits, msg = 0, None
        for _ in range(self.sub.confirm):
            self.fresh()
            try:
                try:
                    self.evaluate(case)
                except (client.Crash, client.Hang) as e:
                    raise Violation(str(e)) from None
                except Skip:
                    pass
            except Violation as e:
                if any(k["match"] in str(e) for k in knowns):
                    continue
                hits += 1
                msg = str(e)
            if hits >= self.sub.need:
                return msg
        return None


def _child(conn, args):
    signal.signal(signal.SIGTERM, signal.SIG_DFL)
    os.setsid()
    try:
        r = Runner(*args).run()
    except BaseException:
        r = Result(args[0].name)
        r.error = traceback.format_exc()
    try:
        conn.send(r)
    finally:
        conn.close()
        import atexit
        atexit._run_exitfuncs()
        os._exit(0)


def _kill_group(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        p.kill()  # not yet a group


def run_check(pid, subs, rule, level="exploration", assumptions=(), extra=None):
    from . import build, client
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    try:
        products = build.build()
    except build.BuildError as e:
        print("BUILD FAILED\n%s" % e)
        return 2
    argv = sys.argv[2:]
    if argv and argv[0] == "--replay":
        with open(argv[1]) as f:
            rep = json.load(f)
        sub = [s for s in subs if s.name == rep["sub"]][0]
        r = Runner(sub, tier, seed, 0, 1, pid, products)
        if sub.setup:
            sub.setup(r)
        msg = r.confirm(rep["case"])
        r.fresh()
        print("reproduced: %s" % msg if msg else "not reproduced")
        return 1 if msg else 0
    if argv and argv[0] == "--sub":
        subs = [s for s in subs if s.name in argv[1].split(",")]
    client.scratch_root()
    jobs = []
    for s in subs:
        k = min(s.shards[tier], max(1, s.n[tier]))
        for i in range(k):
            jobs.append((s, i, k))
    ctx = multiprocessing.get_context("fork")
    cores = int(os.environ.get("HARN_JOBS", "0")) or max(2, os.cpu_count() or 2)
    pending, running, results = list(jobs), [], []
    violation = None

    def stop(*_):
        for q, _, _ in running:
            _kill_group(q)
        client.scratch_done()
        os._exit(2)
    signal.signal(signal.SIGTERM, stop)
    hard = time.time() + (840 if tier == "quick" else 6 * 3600)
    while pending or running:
        while pending and len(running) < cores and violation is None:
            s, i, k = pending.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(b, (s, tier, seed, i, k, pid, products)))
            p.start()
            b.close()
            running.append((p, a, s))
        if violation is not None:
            pending = []
        ready = multiprocessing.connection.wait([a for _, a, _ in running], timeout=5)
        for item in list(running):
            p, a, s = item
            if a in ready:
                try:
                    r = a.recv()
                except EOFError:
                    r = Result(s.name)
                    r.error = "the check process died"
                p.join(10)
                _kill_group(p)
                running.remove(item)
                results.append(r)
                if r.violation and violation is None:
                    violation = r.violation
                    for q, _, _ in running:
                        _kill_group(q)
                    for q, _, _ in running:
                        q.join(5)
                    running = []
                    break
        if time.time() > hard:
            for q, _, _ in running:
                _kill_group(q)
            print("OUT OF TIME")
            return 2
    client.scratch_done()
    errors = [r.error for r in results if r.error]
    per = {}
    keys = set()
    for r in results:
        d = per.setdefault(r.name, {"evaluations": 0, "distinct_nontrivial": 0, "skipped": 0, "labels": {}, "wall_s": 0.0})
        d["evaluations"] += r.evaluations
        d["skipped"] += r.skipped
        d["wall_s"] = round(d["wall_s"] + r.wall, 2)
        for k, v in r.labels.items():
            d["labels"][k] = d["labels"].get(k, 0) + v
        new = {(r.name, k) for k in r.keys} - keys
        d["distinct_nontrivial"] += len(new)
        keys |= new
    samples = []
    for r in results:
        for s in r.samples[:1 if len(results) > 6 else 3]:
            if len(samples) < 12:
                samples.append(s)
    known_ids = sorted({k for r in results for k in r.known})
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": level,
        "coverage": {
            "evaluations": sum(d["evaluations"] for d in per.values()),
            "distinct_nontrivial": len(keys),
            "rule": rule,
            "samples": samples,
            "per_statement": per,
            "unconfirmed": [u for r in results for u in r.unconfirmed],
            "known_findings_hit": known_ids,
        },
        "assumptions": list(assumptions),
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if violation else 0,
    }
    if extra:
        ev["coverage"].update(extra)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
        f.write("\n")
    for k in known_findings():
        if k.get("property") == pid and k.get("status") == "known":
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    for u in ev["coverage"]["unconfirmed"]:
        print("unconfirmed: %s" % short(u, 1500))
    if violation:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", "%s-%s.json" % (pid, jkey([violation["sub"], violation["case"]])))
        with open(path, "w") as f:
            json.dump({"property": pid, "sub": violation["sub"], "case": violation["case"], "message": violation["message"],
                       "how": "python3-vt run_check.py %s --replay %s" % (pid, path)}, f, indent=1, default=str)
            f.write("\n")
        print("%s: %s" % (violation["sub"], violation["message"][:1500]))
        print("case: %s" % short(violation["case"], 2000))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if errors:
        print("CHECK ERROR\n" + errors[0])
        return 2
    print("%s %s: %d cases, %d distinct non-trivial, %.1f s" % (pid, tier, ev["coverage"]["evaluations"], len(keys), time.time() - t0))
    for name, d in per.items():
        print("   %-28s %6d cases %6d non-trivial %5d skipped  %6.1f s %s" % (name, d["evaluations"], d["distinct_nontrivial"], d["skipped"], d["wall_s"], d["labels"] or ""))
    return 0
