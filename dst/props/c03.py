"""C03: a failed or interrupted operation does no lasting damage."""
import copy
import json
import re

from .. import common as C
from ..gen import Gen
from . import c02

RUNS = {"quick": 220, "thorough": 3000}
RULE = ("Each case: a random schema and objects; 1-3 operations of any kind "
        "are cut short by an interrupt, an allocation failure or a "
        "misbehaving user function at a point chosen from a traced dry run; "
        "then the same operations and others on other objects and types are "
        "compared with a process where the cut-short ones never happened.")
ASSUMES = ["An object that was itself being changed when the operation was "
           "cut short is left to C04 and C05.",
           "Lazy properties are left to C12."]


def any_op(g, objs, n):
    """One operation that can be cut short; -> (op, can be repeated)"""
    rng = g.rng
    r = rng.random()
    cut = "z%d" % n
    if r < .22:
        base = list(g.classes)
        name = "T%d" % n
        if g.chance(.15) and base:
            c = g.gen_coll(name, g.json and bool(g.records(json=True)), {})
        else:
            c = g.gen_class(name, g.json and g.chance(.8),
                            dict(c02.OPTS, lazy=.1))
            used = {p["name"] for p in c["props"]}
            for nm in ("ka", "kb"):
                if g.kinds and nm not in used and g.chance(.3):
                    c["props"].append(g.kind_prop(
                        g.kinds[g.pick(sorted(g.kinds))], nm))
            if g.chance(.2):
                c = dict(c, bad=g.gen_bad())
        g.classes = base
        return {"o": "declare", "c": c}, True
    if r < .24:
        k = g.gen_kind("KT%d" % n)
        g.kinds[k["name"]] = k
        return k, True
    if r < .3:
        recs = g.records()
        return {"o": "list_of", "t": g.pick(
            ["@" + g.pick(recs)["name"], "int", "pos", "str"]),
            "m": g.pick(["list", "dict"])}, True
    if r < .4:
        c = g.pick(g.records())["name"]
        kw = g.kwargs(c)
        for p in g.props(c):
            v = g.coercible(p["t"], p) if g.chance(.4) else None
            if v is not None and p["name"] in kw:
                kw[p["name"]] = v
        return {"o": "new", "cls": c, "p": kw, "to": cut}, True
    if r < .46:
        return dict(g.make(g.any_type(), cut)), True
    if r < .54:
        c = g.pick(g.records())["name"]
        return {"o": "from_json", "cls": c, "doc": g.doc(c), "to": cut}, True
    if r < .62:
        x = g.pick(sorted(objs))
        return mutation(g, x, objs[x]), False
    if r < .66:
        x = g.pick(sorted(objs))
        t = objs[x]
        return {"o": "fs", "x": x, "path": g.path(t, wild=0)[0],
                "m": g.pick(["put", "post", "delete"]), "v": 3}, False
    return g.read_op(objs), True


def nesting(g):
    """A JSON record class with JSON records in it."""
    for c in g.classes:
        if "item" not in c and g.is_json(c["name"]):
            for p in g.props(c["name"]):
                k, x = g.kind_of(p["t"])
                if k == "rec" and g.is_json(x) or k in ("list", "dict") and \
                        x[0] == "@" and g.is_json(x[1:]):
                    return c["name"]


def mutation(g, x, t):
    k, it = g.kind_of(t)
    if k == "rec":
        p = g.pick(g.props(it)) if g.props(it) else {"name": "zz", "t": "any"}
        if g.chance(.2):
            return {"o": "del", "x": x, "a": p["name"]}
        f = g.pick([g.good, g.coercible, g.bad])
        return {"o": "set", "x": x, "a": p["name"], "v": f(p["t"], p)}
    if k == "list":
        if g.chance(.5):
            return {"o": "m", "x": x, "m": "append", "args": [g.good(it)]}
        return {"o": "m", "x": x, "m": "extend", "args": [
            {"$it": [g.good(it) for _ in range(3)]}]}
    return {"o": "m", "x": x, "m": "update", "args": [
        {"q%d" % i: g.good(it) for i in range(2)}]}


def gen(rng, tier):
    g = Gen(rng)
    g.odd = .1
    spec = g.gen_spec(json=.6, lazy=0)
    spec = {"classes": list(spec["classes"])}
    objs, setup = {}, []
    for i in range(rng.randrange(1, 4)):
        t = g.any_type()
        objs["x%d" % i] = t
        setup.append(g.make(t, "x%d" % i))
    g.kinds = {}
    for i in range(g.pick([0, 0, 1, 2])):
        k = g.gen_kind("K%d" % i)
        g.kinds[k["name"]] = k
        setup.append(k)
    others, oth = {}, []
    for i in range(2):
        t = g.pick(sorted(objs.values())) if g.chance(.7) else g.any_type()
        others["o%d" % i] = t
        oth.append(g.make(t, "o%d" % i))
    case = {"spec": spec, "salt": rng.randrange(50)}
    pre, post, new = [], [], []
    touched = set()
    if g.chance(.08):
        # safe navigation below what is not set
        c = g.pick([d["name"] for d in g.records() if any(
            p["t"][:1] in "@ld" for p in g.props(d["name"]))] or
            [g.pick(g.records())["name"]])
        setup.append({"o": "new", "cls": c, "p": {
            p["name"]: g.good(p["t"], p)
            for p in g.props(c) if p.get("req")}, "to": "bare"})
        objs["bare"] = "@" + c
        first = [g.read_op({"bare": "@" + c}, heavy="getchain")]
        ch = first[0]["chain"]
        for n in range(1, len(ch) + 1):
            for tail in ("no_such", "name", "n0"):
                post.append({"o": "getchain", "x": "bare",
                             "chain": ch[:n] + [tail]})
    elif g.chance(.12) and nesting(g):
        # the first conversion of a document with keys nobody knows
        c = nesting(g)
        setup.append({"o": "from_json", "cls": c, "to": "doc",
                      "doc": g.doc(c, unknown=.6, full=True)})
        first = [dict(g.pick([{"o": "to_json", "ext": True},
                              {"o": "to_json", "ext": False},
                              {"o": "json_data", "ext": True}]), x="doc")]
        post += [{"o": "to_json", "x": "doc", "ext": True},
                 {"o": "json_data", "x": "doc", "ext": True}]
    else:
        first = []
    for i in range(g.pick([1, 1, 1, 2, 3])):
        op, rep = (first.pop(), True) if first else any_op(g, objs, i)
        pre.append(op)
        if not rep:
            touched.add(op["x"])
        else:
            post.append(copy.deepcopy(op))
        if op["o"] == "declare":
            failing = op["c"].get("bad")
            if failing and g.chance(.5):
                post.pop()
            if failing and g.chance(.6):
                # the repaired declaration
                post.append(copy.deepcopy(op))
                post[-1]["c"].pop("bad")
            if any(q["o"] == "declare" and "bad" not in q["c"] and
                   q["c"]["name"] == op["c"]["name"] for q in post):
                new.append(op["c"]["name"])
            for _ in range(g.pick([0, 1, 1]) if failing else g.pick([0, 1])):
                # a sibling with the same properties under another name
                c = copy.deepcopy(op["c"])
                c["name"] += "s"
                c.pop("bad", 0)
                g.by[c["name"]] = c
                post.append({"o": "declare", "c": c})
                new.append(c["name"])
    # the operations that ran on objects being changed are not repeated
    post = [p for p in post if not ({p.get("x"), p.get("y")} & touched)]
    case["setup"] = setup + oth
    w = C.world(case)
    hit = False
    for i, op in enumerate(pre):
        s = C.run1(w, [copy.deepcopy(op)], trace=True)
        tr = s.threads[0].alltrace[0]
        ncb = s.threads[0].opcbs[0]
        r = rng.random()
        if op["o"] == "declare" and "bad" in op["c"] and g.chance(.7):
            hit = True
        elif i == len(pre) - 1 or g.chance(.7):
            if ncb and r < .6:
                op["cb"] = [[rng.randrange(1, ncb + 1), g.pick(C.CB_ACTS)]]
                hit = True
            elif tr:
                kinds = ("KI", "KI", "ME")
                if g.chance(.4):
                    st = C.once_step(rng, tr)
                    if st:
                        op["flt"] = [[st, "KI"]]
                        hit = True
                else:
                    hit = C.place_fault(rng, op, tr, kinds) or hit
    if not hit:
        return None
    # (a class that is not declared afterwards is not used either)
    known = {c["name"] for c in spec["classes"]} | set(new)
    g.classes[:] = [c for c in g.classes if c["name"] in known]
    free = {k: t for k, t in objs.items() if k not in touched}
    free.update(others)
    for i in range(rng.randrange(1, 5)):
        post.append(g.read_op(free))
    if g.chance(.5):
        recs = g.records()
        post.append({"o": "list_of", "t": "@" + g.pick(recs)["name"],
                     "m": g.pick(["list", "dict"])})
    for n in new:
        post += g.probe_class(n, "p_" + n, full=False)
    if g.chance(.5):
        n = g.pick(g.classes)["name"]
        post += g.probe_class(n, "p_" + n, full=False)
    case["pre"] = pre
    case["post"] = []
    known = {c["name"] for c in spec["classes"]}
    for op in post:
        # what refers to a class that is not declared is left out
        names = set(re.findall(r"\bK?T[0-9]+s*\b", json.dumps(op)))
        if op["o"] == "declare":
            names.discard(op["c"]["name"])
        elif op["o"] == "kind":
            known.add(op["name"])
        if names <= known:
            case["post"].append(op)
            if op["o"] == "declare" and "bad" not in op["c"]:
                known.add(op["c"]["name"])
    return case


def run(case, stats):
    w = C.world(case)
    s = C.run1(w, case["pre"], stats)
    if s.stuck:
        return C.violation("stuck", "an interrupted operation does not end")
    # what was declared for good is not declared again
    done = {h[2]["name"] for h in s.threads[0].history
            if h[2]["o"] == "kind" and h[3][0] == "ok"}
    post = [op for op in case["post"]
            if op["o"] != "kind" or op["name"] not in done]
    C.COUNTER[0] = 0
    got = C.outs(C.run1(w, post, stats))
    w2 = C.world(case)
    C.COUNTER[0] = 0
    ref = [out for op, out in zip(case["post"], C.outs(
        C.run1(w2, case["post"]))) if any(op is q for q in post)]
    for op, a, b in zip(post, ref, got):
        if a != b:
            return C.violation(
                "damage:" + op["o"], "an operation no longer does what it "
                "does where the cut-short operation never happened", op=op,
                clean=a, got=b, cut=[h[3] for h in s.threads[0].history])
    return None
