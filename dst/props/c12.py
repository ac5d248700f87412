"""C12: a lazy value is computed once, never lost, never replaces an assigned
value."""
import copy

from .. import common as C
from ..gen import Gen

RUNS = {"quick": 220, "thorough": 4000}
RULE = ("Each case: an object with 1-3 lazy properties of all kinds, and 1-3 "
        "threads reading (attribute, selector, JSON), assigning and deleting "
        "them, with up to 6 preemptions from a traced dry run, computing "
        "functions that fail or return something else, interrupts and "
        "allocation failures.  The history of each property must be "
        "linearizable as one cell that a read fills when it is empty; in "
        "single-threaded cases the calls of the function are counted.")
ASSUMES = ["A read that was interrupted may or may not have stored what it "
           "computed."]


def gen_props(g):
    ps = []
    for i in range(g.pick([1, 1, 2, 3])):
        t = g.pick(["any", "int", "int", "pos", "str", "list:int", "num"])
        p = {"name": "abc"[i], "t": t, "lazy": 1,
             "dm": "uniqstr" if t == "str" else
             "uniqlist" if t == "list:int" else "unique"}
        if t in ("any", "list:int") and g.chance(.25):
            # a value that is there, but false
            p["dm"] = "nolist" if t == "list:int" else g.pick(
                ["nolist", "nothing", "zero"])
        if t == "int" and g.chance(.4):
            p["co"] = "int"
        if t == "int" and g.chance(.4):
            p["chk"] = "pos"
        if t == "str" and g.chance(.4):
            p["co"] = "str"
        if g.chance(.25):
            p["ro"] = 1
        if t == "any" and g.chance(.4):
            p["safe"] = 1
            p.pop("ro", None)
        if g.json and g.chance(.4):
            p["jn"] = "j" + p["name"]
        if g.chance(.15):
            p["ext"] = 1
        ps.append(p)
    return ps


def gen(rng, tier):
    g = Gen(rng)
    g.json = g.chance(.5)
    ps = gen_props(g)
    c = {"name": "Z", "base": "JsonRecord" if g.json else "Record",
         "props": ps + [{"name": "k", "t": "int"}]}
    g.classes.append(c)
    g.by["Z"] = c
    val = {}
    kw = {"k": 1}
    n = [100]

    def fresh(p):
        n[0] += 1
        v = n[0]
        t = p["t"]
        if g.chance(.2) and (t == "pos" or "co" in p and t == "int"):
            return str(v), v
        if t == "str":
            return "v%d" % v, "v%d" % v
        if t == "list:int":
            return [v], [v]
        return v, v
    for p in ps:
        if g.chance(.15):
            kw[p["name"]] = fresh(p)[0]
    setup = [{"o": "new", "cls": "Z", "p": kw, "to": "x"}]
    nt = g.pick([1, 1, 2, 2, 2, 3])
    threads = []
    for t in range(nt):
        ops = []
        for i in range(rng.randrange(1, 5 if nt > 1 else 9)):
            p = g.pick(ps)
            r = rng.random()
            a = p["name"]
            if r < .58 or i == 0 and r < .8:
                o = g.pick(["get", "get", "get", "fs", "json", "a0", "tj"])
                if o == "get":
                    op = {"o": "get", "x": "x", "a": a}
                elif o == "fs":
                    op = {"o": "fs", "x": "x", "m": "get", "path": [a]}
                elif o == "json":
                    op = {"o": "to_json_prop", "x": "x", "a": a}
                elif o == "a0":
                    op = {"o": "get", "x": "x", "a": a + "0"}
                else:
                    op = {"o": "to_json", "x": "x", "ext": True}
                op["p"] = a
            elif r < .85:
                v = fresh(p)
                if g.chance(.12):
                    v = g.bad(p["t"], p), None
                op = {"o": "set", "x": "x", "a": a, "v": v[0], "p": a,
                      "val": v[1]}
            else:
                op = {"o": "del", "x": "x", "a": a, "p": a}
            ops.append(op)
        threads.append(ops)
    case = {"spec": {"classes": [c]}, "salt": 0, "setup": setup,
            "threads": threads}
    traces = []
    for ops in threads:
        w = C.world(case)
        s = C.run1(w, copy.deepcopy(ops), trace=True)
        traces.append(s.threads[0].alltrace)
        for i, op in enumerate(ops):
            if g.chance(.25 if nt == 1 else .12):
                ncb = s.threads[0].opcbs[i]
                if ncb and g.chance(.7):
                    op["cb"] = [[1 if g.chance(.6) else
                                 rng.randrange(1, ncb + 1),
                                 g.pick(C.CB_ACTS)]]
                elif traces[-1][i]:
                    C.place_fault(rng, op, traces[-1][i])
    if nt > 1:
        C.place_switches(rng, threads, traces, rng.randrange(1, 7), nt)
    return case


FAULTS = ("InjectedFault", "KeyboardInterrupt", "MemoryError")


def observations(hist, p, ps):
    """What the history says about one property:
    (inv, resp, kind, value or None, effect certain)"""
    out = []
    name = p["name"]
    for (inv, resp, tid, op, res) in hist:
        ok = res[0] == "ok"
        if ok and op.get("a") == name + "0" and is_empty(res[1]):
            continue        # the function raised AttributeError
        if not ok and op["o"] not in ("set", "del"):
            # something failed or was cut, perhaps after the value was kept
            out.append((inv, resp, "get?", None, op))
            continue
        if op["o"] == "to_json":
            if ok:
                key = p.get("jn", name)
                for kv in res[1][1:]:
                    if kv[0] == key:
                        out.append((inv, resp, "get", unbox(kv[1]), op))
            continue
        if op["p"] != name:
            continue
        if op["o"] == "set":
            if ok:
                # what exactly is kept is unknown after odd coercions
                known = op["val"] is not None and not op.get("cb")
                out.append((inv, resp, "set", op["val"] if known else ANY,
                            op))
            elif op["val"] is not None and cut(res):
                out.append((inv, resp, "set?", op["val"], op))
        elif op["o"] == "del":
            if ok:
                out.append((inv, resp, "del", None, op))
            elif cut(res):
                out.append((inv, resp, "del?", None, op))
            elif res[1] in ("KeyError", "AttributeError"):
                out.append((inv, resp, "del-unset", None, op))
        else:
            if ok:
                out.append((inv, resp, "get", unbox(res[1]), op))
    return out


def cut(res):
    return res[0] == "exc" and res[1] in ("KeyboardInterrupt", "MemoryError")


def is_empty(v):
    return isinstance(v, list) and v[:1] == ["empty"]


def unbox(v):
    """A collection (typed, plain or as JSON) as a list."""
    if isinstance(v, list) and v[:1] == ["coll"]:
        v = v[2]
    if isinstance(v, list) and v[:1] == ["list"]:
        return v[1:]
    return v


UNSET = "UNSET"
ANY = "ANY"


def linearizable(obs, init, was_set):
    """Is there an order of the operations, consistent with their real-time
    order, that one cell explains?  Fresh values are any value not assigned."""
    n = len(obs)
    assigned = [o[3] for o in obs if o[2] in ("set", "set?")]
    if init != UNSET:
        assigned.append(init)
    seen = set()
    full = (1 << n) - 1

    def go(done, state):
        if done == full:
            return True
        key = (done, repr(state))
        if key in seen:
            return False
        seen.add(key)
        first = min(obs[i][1] for i in range(n) if not done >> i & 1)
        for i in range(n):
            if done >> i & 1 or obs[i][0] > first:
                continue
            kind, v = obs[i][2], obs[i][3]
            d = done | 1 << i
            if kind == "get":
                if state in (v, ANY) and state != UNSET:
                    if go(d, v):
                        return True
                elif state == UNSET and v not in assigned:
                    if go(d, v):
                        return True
            elif kind == "get?":
                if go(d, state) or state == UNSET and go(d, ANY):
                    return True
            elif kind in ("set", "set?"):
                if go(d, v):
                    return True
                if kind == "set?" and go(d, state):
                    return True
            elif kind in ("del", "del?"):
                if state != UNSET and go(d, UNSET):
                    return True
                if kind == "del?" and go(d, state):
                    return True
            elif kind == "del-unset":
                if state == UNSET and go(d, state):
                    return True
        return False
    return go(0, init)


def run(case, stats):
    w = C.world(case)
    ps = [p for p in case["spec"]["classes"][0]["props"] if p.get("lazy")]
    init = {}
    with w.node:
        d = vars(w.objs["x"])
        for p in ps:
            init[p["name"]] = unbox(w.T.snap(d[p["name"]])) \
                if p["name"] in d else UNSET
    final = [{"o": "get", "x": "x", "a": p["name"], "p": p["name"]}
             for p in ps] * 2
    if len(case["threads"]) == 1:
        v = counted(case, w, stats, ps, init)
        if v:
            return v
        if case["threads"] == [[]]:
            return None
        w = C.world(case)
    s = C.runN(w, case["threads"], stats)
    if s.stuck:
        return C.violation("stuck", "readers do not finish: %s" % s.stuck)
    hist = s.history()
    last = max([h[1] for h in hist] or [0])
    s2 = C.run1(w, final)
    for (i, r, op, out) in s2.threads[0].history:
        hist.append((last + i, last + r, 99, op, out))
    for p in ps:
        obs = observations(hist, p, ps)
        if len(obs) > 14:
            continue
        if not linearizable(obs, init[p["name"]], None):
            return C.violation(
                "history", "no order of the operations explains what was "
                "read", prop=p, init=init[p["name"]],
                history=[[o[0], o[1], o[2], o[3]] for o in obs])
    return None


def counted(case, w, stats, ps, init):
    """One thread: how often the function ran, and that failures store
    nothing."""
    by = {p["name"]: p for p in ps}
    state = dict(init)
    for op in case["threads"][0]:
        if op["o"] in ("to_json",):
            continue
        n0 = C.COUNTER[0]
        s = C.run1(w, [op], stats)
        res = C.outs(s)[0]
        calls = C.COUNTER[0] - n0
        if s.stuck:
            return C.violation("stuck", "an operation does not end", op=op)
        name = op["p"]
        with w.node:
            d = vars(w.objs["x"])
            now = unbox(w.T.snap(d[name])) if name in d else UNSET
        was = state[name]
        bad = None
        if op["o"] in ("set", "del"):
            if calls:
                bad = "%s calls the computing function" % op["o"]
        elif was != UNSET:
            if calls:
                bad = "computed again although the value is there"
            elif now != was:
                bad = "a read changed the value"
        elif res[0] == "ok" and op.get("a") == name + "0" and \
                is_empty(res[1]):
            if now != UNSET:
                bad = "a failed computation stored something"
        elif res[0] == "ok":
            if calls > 1:
                bad = "computed %d times for one read" % calls
            elif not calls and not {"none", "junk", "falsy"} & {
                    a for _, a in op.get("cb", ())}:
                bad = "a value was read that was not computed"
            elif now == UNSET:
                bad = "the value was returned but not kept"
            elif now != unbox(res[1]):
                bad = "another value was kept than returned"
        elif not cut(res) and now != UNSET and op["o"] in ("get", "fs"):
            bad = "a failed computation stored something"
        elif cut(res) and calls > 1:
            bad = "computed %d times for one read" % calls
        if bad:
            return C.violation("counted", bad, op=op, outcome=res, before=was,
                               after=now, calls=calls)
        state[name] = now
    return None
