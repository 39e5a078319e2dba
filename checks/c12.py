"""C12: the sample queue."""
from hypothesis import strategies as st

from vlib.core import Sub, Violation, run_check

PID = "C12"
RULE = ("a case is a queue size, a mode and a history of puts, takes, completions and interruptions (single thread, against the model), or producer and consumer "
        "threads with generated delays; non-trivial when a buffer was taken after the queue wrapped, overflowed, blocked or was interrupted")


@st.composite
def scripts(draw):
    n = draw(st.integers(1, 6))
    size = draw(st.sampled_from([1, 2, 7, 64]))
    ops = draw(st.lists(st.tuples(st.sampled_from(["put", "put", "put", "put", "take", "take", "take", "complete", "complete", "complete", "recheck", "interrupt", "put_null", "put_big", "put_empty"]),
                                  st.integers(1, size)), min_size=8, max_size=150))
    return {"n": n, "size": size, "blocking": draw(st.sampled_from([False, False, True])), "ops": [list(o) for o in ops], "weird": draw(st.booleans())}


def script(run, c):
    """every history of calls that cannot block, against a list"""
    n, filled, held, dead = c["n"], [], None, False
    steps, want = [], []
    tag = 0
    marks = set()
    for op, k in c["ops"]:
        free = n - len(filled) - (held is not None)
        if op == "put":
            if c["blocking"] and dead:
                tag += 1
                steps.append(("put", tag, k))
                want.append(-1)
                marks.add("refused")
                continue
            if c["blocking"] and free == 0:
                continue  # would wait
            tag += 1
            steps.append(("put", tag, k))
            if free:
                filled.append((tag, k))
                want.append(0)
            elif filled:
                filled[-1] = (tag, k)
                want.append(0)
                marks.add("overflow")
            else:
                want.append(-1)
                marks.add("dropped")
        elif op == "take":
            if held is not None:
                continue
            if filled:
                held = filled.pop(0)
                want.append((held[0], held[1], True))
            elif dead:
                want.append(None)
                marks.add("end")
            else:
                continue
            steps.append(("take",))
            if tag > n:
                marks.add("wrapped")
        elif op in ("complete", "recheck"):
            if held is None:
                continue
            steps.append((op,))
            want.append((held[0], held[1], True) if op == "recheck" else 0)
            if op == "complete":
                held = None
        elif op == "interrupt":
            if not c["weird"]:
                continue
            dead = True
            steps.append(("interrupt",))
            want.append(0)
        elif op == "put_null":
            steps.append(("put_null",))
            want.append(-1)
        elif op == "put_empty":
            steps.append(("put", 0, 0))
            want.append(-1)
        elif op == "put_big":
            steps.append(("put", 7777, c["size"] + k))
            want.append(-1)
    # what is queued is delivered, then the end marker
    if held is not None:
        steps.append(("complete",))
        want.append(0)
    steps.append(("interrupt",))
    want.append(0)
    for t in filled:
        steps += [("take",), ("recheck",), ("complete",)]
        want += [(t[0], t[1], True)] * 2 + [0]
    steps += [("take",), ("take",)]
    want += [None, None]
    r = run.worker().queue_script(c["size"], n, c["blocking"], steps)
    if r["code"] != 0:
        raise Violation("create %d" % r["code"])
    for i, (s, g, e) in enumerate(zip(steps, r["res"], want)):
        if isinstance(g, (list, tuple)):
            g = tuple(g)
        if s[0] in ("complete", "interrupt"):
            continue
        if s[0].startswith("put"):
            if (g == 0) != (e == 0):
                raise Violation("step %d %s: returned %s, expected %s; history %s" % (i, s, g, e, steps[:i + 1]))
        elif g != e:
            raise Violation("step %d %s: got %s, expected %s; history %s" % (i, s, g, e, steps[:i + 1]))
    if r["leak"]:
        raise Violation("%d allocations left" % r["leak"])
    return " ".join(sorted(marks)) or None


@st.composite
def races(draw):
    n = draw(st.sampled_from([1, 1, 2, 3, 8]))
    us = st.sampled_from([0, 0, 0, 50, 300, 2000])
    c = {"n": n, "size": draw(st.sampled_from([1, 16, 300])), "blocking": draw(st.booleans()), "producers": draw(st.sampled_from([1, 1, 2, 3])),
         "pd": draw(st.lists(us, min_size=1, max_size=4)), "td": draw(st.lists(us, min_size=1, max_size=4)), "puts": draw(st.integers(1, 60)),
         "seed": draw(st.integers(1, 2 ** 31)), "sched": draw(st.sampled_from([0, 100, 400]))}
    c["after"] = draw(st.one_of(st.none(), st.integers(1, c["puts"])))
    return c


def race(run, c):
    """producers and a consumer: order, content, nothing lost where nothing may be lost, nobody stuck"""
    puts = [(i + 1, 1 + (i * 7) % c["size"]) for i in range(c["puts"])]
    r = run.worker().queue_threads(c["size"], c["n"], c["blocking"], puts, c["pd"], c["td"], c["after"], c["producers"], (c["seed"], c["sched"], 400))
    if r["code"] != 0:
        raise Violation("create %d" % r["code"])
    took = [t for t, _ in r["took"]]
    if r["hung"]:
        run.fresh()
        run._workers = {}
        raise Violation("%s never returned; taken %s" % (r["hung"], took[-10:]))
    if r["torn"]:
        raise Violation("buffers %s changed or mixed while being processed" % r["torn"])
    size = dict(puts)
    for t, k in r["took"]:
        if size.get(t) != k:
            raise Violation("buffer %d came out with %d samples, was %s" % (t, k, size.get(t)))
    if len(set(took)) != len(took):
        raise Violation("a buffer was delivered twice: %s" % took)
    accepted = []
    for codes in r["codes"]:
        ok = [t for t, code in codes if code == 0]
        accepted.append(ok)
        own = set(t for t, _ in codes)
        got = [t for t in took if t in own]
        if got != sorted(got):
            raise Violation("out of order: %s" % got)
    every = set(t for ok in accepted for t in ok)
    if not set(took) <= every:
        raise Violation("refused buffers were delivered: %s" % sorted(set(took) - every))
    if c["blocking"]:
        if set(took) != every:
            raise Violation("accepted but never delivered: %s" % sorted(every - set(took)))
        if c["after"] is None and len(every) != len(puts):
            raise Violation("refused without an interruption: %s" % sorted(set(dict(puts)) - every))
    elif c["after"] is None:
        if len(puts) <= c["n"] and len(took) != len(puts):
            raise Violation("%d of %d buffers lost though the queue has room for %d" % (len(puts) - len(took), len(puts), c["n"]))
        if len(took) < min(c["n"], len(puts)):
            raise Violation("only %d of %d delivered by a queue of %d" % (len(took), len(puts), c["n"]))
        if c["n"] >= 2 and c["producers"] == 1 and len(puts) not in took:
            raise Violation("the newest buffer was lost by a queue of %d" % c["n"])
    return ("blocking" if c["blocking"] else "lossy" if len(took) < len(puts) else "not full") + (" interrupted" if c["after"] else "")


@st.composite
def stops(draw):
    n = draw(st.sampled_from([1, 2, 3, 8]))
    blocking = draw(st.booleans())
    return {"n": n, "size": draw(st.sampled_from([1, 16, 300])), "blocking": blocking, "seed": draw(st.integers(1, 2 ** 31)), "sched": draw(st.sampled_from([0, 0, 200])),
            "rounds": draw(st.lists(st.tuples(st.sampled_from([0, 50, 200, 500]), st.integers(1, n if not blocking else n + 2), st.sampled_from([0, 0, 0, 20])), min_size=10, max_size=30))}


def stop(run, c):
    """buffers put right before the interruption, while the consumer is waiting: delivered, then the end"""
    r = run.worker().queue_stop(c["size"], c["n"], c["blocking"], c["rounds"], (c["seed"], c["sched"], 300))
    if r["code"] != 0:
        raise Violation("create %d" % r["code"])
    if r["hung"]:
        run.fresh()
        run._workers = {}
        raise Violation("the consumer was not told the end in round %d" % len(r["res"]))
    for (d, n, g), (codes, took) in zip(c["rounds"], r["res"]):
        if any(codes):
            raise Violation("%d buffers in a queue of %d: refused %s" % (n, c["n"], codes))
        if [tuple(t) for t in took] != [(i + 1, c["size"]) for i in range(n)]:
            raise Violation("%d buffers were put before the interruption, delivered %s" % (n, took))
    return True


def main():
    return run_check(PID, [
        Sub("script", scripts(), script, 3000, 60000, shards=3),
        Sub("race", races(), race, 500, 12000, shards=6, tshards=8),
        Sub("stop", stops(), stop, 60, 1500, shards=2, tshards=4),
    ], RULE, assumptions=["thread schedules are sampled with random delays at lock operations, not enumerated"])
