"""C13: the session list."""
from hypothesis import strategies as st

from vlib.core import Sub, Violation, run_check

PID = "C13"
RULE = ("a case is a history of additions (some failing for lack of memory), searches, traversals and removals on up to three lists, checked after every step against "
        "Python lists; non-trivial when an element was removed from a list with at least two elements")


@st.composite
def histories(draw):
    keys = st.integers(0, draw(st.sampled_from([1, 3, 8])))
    li = st.integers(0, draw(st.sampled_from([0, 0, 2])))
    op = st.one_of(st.tuples(st.just("add"), li, keys), st.tuples(st.just("add"), li, keys), st.tuples(st.just("add"), li, keys), st.tuples(st.just("add_fail"), li, keys),
                   st.tuples(st.just("find"), li, keys), st.tuples(st.just("remove"), li, keys), st.tuples(st.just("destroy_id"), li, keys),
                   st.tuples(st.just("destroy_sel"), li, st.integers(1, 4), st.integers(0, 4)), st.tuples(st.just("destroy"), li))
    big = draw(st.booleans())
    pre = [("add", 0, draw(keys)) for _ in range(draw(st.integers(0, 12)))] if big else []
    return [list(o) for o in pre + draw(st.lists(op, min_size=1, max_size=60))]


def history(run, ops):
    lists = {}
    steps, want = [], []
    n, real = 0, False
    for o in ops:
        op, li = o[0], o[1]
        cur = lists.setdefault(li, [])
        r, dead = 0, []
        if op == "add":
            steps.append(("add", li, n, o[2]))
            cur.append((n, o[2]))
            n += 1
        elif op == "add_fail":
            steps.append(("add_fail", li, 4000, o[2]))
            r = "error"
        else:
            steps.append(tuple(o))
            before = len(cur)
            if op in ("find", "remove", "destroy_id"):
                hit = next((i for i, e in enumerate(cur) if e[1] == o[2]), None)
                r = -1 if hit is None else cur[hit][0]
                if op != "find" and hit is not None:
                    gone = cur.pop(hit)
                    if op == "destroy_id":
                        dead = [gone[0]]
                if op == "destroy_id":
                    r = 0
            elif op == "destroy_sel":
                dead = [e[0] for e in cur if e[1] % o[2] == o[3]]
                lists[li] = [e for e in cur if e[1] % o[2] != o[3]]
            elif op == "destroy":
                dead = [e[0] for e in cur]
                lists[li] = []
            real = real or (before >= 2 and len(lists[li]) < before)
        want.append((r, [e[0] for e in lists[li]], dead))
    out = run.worker().list_script(steps)
    for i, (s, g, e) in enumerate(zip(steps, out["res"], want)):
        got = ("error" if s[0] == "add_fail" and g["r"] != 0 else g["r"], g["content"], sorted(g["destroyed"]))
        exp = (e[0], e[1], sorted(e[2]))
        if got != exp:
            raise Violation("step %d %s: result, content, destroyed = %s, expected %s; history %s" % (i, s, got, exp, steps[:i + 1]))
        if bool(g["empty"]) != (not e[1]):
            raise Violation("step %d %s: the list is %s" % (i, s, "empty" if g["empty"] else "not empty"))
    rest = sorted(e[0] for v in lists.values() for e in v)
    if sorted(out["final"]) != rest:
        raise Violation("destroying the lists destroyed %s, they held %s" % (sorted(out["final"]), rest))
    if out["leak"]:
        raise Violation("%d nodes left" % out["leak"])
    return real


def main():
    return run_check(PID, [Sub("history", histories(), history, 6000, 150000, shards=6, tshards=8)], RULE)
