"""C13: reading operations never alter their arguments and return detached
results."""
import copy
import datetime

from .. import common as C
from ..gen import Gen
from ..refsel import Frame

RUNS = {"quick": 200, "thorough": 4000}
RULE = ("Each case: 1-4 objects, some sharing parts, JSON documents, "
        "selectors, path lists and diff options that are kept and passed "
        "again and again to 4-14 reading operations of all kinds, some of "
        "which fail in user functions, are interrupted, run out of memory or "
        "are abandoned, on one thread or two preempted ones.  After every "
        "operation everything that was passed in must be what it was, item "
        "for item; then the results are torn to pieces, which must not show "
        "in the sources nor in one another, nor when the operations are "
        "repeated.")
ASSUMES = ["Objects with lazy properties are left to C12.",
           "Records made from a JSON document may use the document's "
           "containers as plain values; what a visit yields may too."]
DETACHED = ("to_json", "json_data", "to_json_prop", "deepcopy", "pickle",
            "mfs", "sel")


def schema(g):
    g.odd = .12
    spec = g.gen_spec(n=g.pick([1, 2, 2, 3]), json=.65, lazy=0, colls=.5)
    for c in g.classes:
        for p in c.get("props", ()):
            # a function of the user's may return what it was given
            if p["t"] not in ("int", "str", "float", "pos", "evn", "num",
                              "integer", "shortstr"):
                p.pop("jo", 0)
    used = {b for c in g.classes for b in c["base"].split(",")}
    for c in g.classes:
        # deeper
        prev = [x for x in g.classes[:g.classes.index(c)]
                if "item" not in x and x["name"] not in c["base"].split(",")]
        if prev and "item" not in c and c["name"] not in used and \
                g.chance(.7) and not any(p["name"] == "deep"
                                         for p in g.props(c["name"])):
            c["props"].append({"name": "deep", "t": g.pick(
                ["list:", "list:", "dict:"]) + "@" + g.pick(prev)["name"]})
    return spec


def reader(g, objs, docs, mfss, fss, plists, dopts, n):
    rng = g.rng
    r = rng.random()
    if r < .14 and docs:
        d = g.pick(sorted(docs))
        c = docs[d]
        if g.chance(.2):
            return {"o": "cast", "cls": "@" + c, "doc": {"$ref": d}}
        op = {"o": "from_json", "cls": c, "ref": d, "doc": 0}
        if g.is_json(c):
            op["via"] = g.pick(["fn", "ctor", "meth"])
        return op
    if r < .32 and mfss:
        f = g.pick(sorted(mfss))
        x = mfss[f]
        m = g.pick(["get", "get", "get", "patch", "patch", "patch", "path", "str", "getitem", "iter",
                    "in"])
        op = {"o": "sel", "f": f, "m": m}
        if m == "get":
            op["x"] = x
        elif m == "patch":
            op["x"] = x
            op["y"] = g.pick([y for y in sorted(objs) if objs[y] == objs[x]])
        elif m in ("getitem", "in"):
            op["k"] = g.pick(["a", "b", "c", 0, 1, "x"])
        return op
    if r < .40 and fss:
        f = g.pick(sorted(fss))
        m = g.pick(["get", "get_or_none", "plus", "slice", "cmp",
                    "startswith", "path", "str", "getitem", "copy", "mfs"])
        op = {"o": "sel", "f": f, "m": m}
        if m in ("get", "get_or_none"):
            op["x"] = fss[f]
        elif m == "plus":
            op["k"] = g.pick(["a", 1, {"$ref": g.pick(sorted(fss))}])
            if isinstance(op["k"], dict):
                op["k"] = "b"
        elif m == "getitem":
            op["k"] = g.pick([0, 0, -1, 1])
        elif m in ("cmp", "startswith"):
            op["g"] = g.pick(sorted(fss))
        return op
    if r < .50:
        x = g.pick(sorted(objs))
        op = {"o": "vis", "x": x, "id": "V%d" % n,
              "fn": g.pick(["id", "tag", "none"]),
              "red": g.pick(["def", "def", "partial%d" % rng.randrange(4),
                             "inter", "first"])}
        F = [f for f in sorted(mfss) if objs[mfss[f]] == objs[x]]
        if F and g.chance(.4):
            op["F"] = g.pick(F)
        if g.chance(.3):
            op["extraneous"] = g.chance(.5)
        return op
    op = g.read_op(objs, "diff" if g.chance(.25) else
                   "mfs" if g.chance(.1) else None)
    same = lambda ks: [k for k in sorted(ks)
                       if objs[ks[k]] == objs[op["x"]]]
    if op["o"] == "diff":
        op["opts"].pop("compare_filter", 0)
        q = rng.random()
        O, P, F = same(dopts), same(plists), same(mfss)
        if q < .4 and O:
            op["opts"] = {"options": {"$ref": g.pick(O)}}
            op.pop("json", 0)
            op.pop("str", 0)
            op["iter"] = 1
        elif q < .55 and P:
            op["opts"]["compare_filter"] = {"$ref": g.pick(P)}
        elif q < .7 and F:
            op["opts"]["compare_filter"] = {"$ref": g.pick(F)}
        if g.chance(.25):
            op = {"o": "dstart", "x": op["x"], "y": op["y"], "k": "G%d" % n,
                  "opts": op["opts"]}
    elif op["o"] == "visit" and "filter" in op:
        P, F = same(plists), same(mfss)
        if P and g.chance(.4):
            op["filter"] = {"$ref": g.pick(P)}
        elif F and g.chance(.5):
            op["filter"] = {"$ref": g.pick(F)}
    elif op["o"] in ("deepcopy",) and g.chance(.2):
        op["o"] = "copy"
    return op


def gen(rng, tier):
    g = Gen(rng)
    spec = schema(g)
    setup, objs = [], {}
    t = g.any_type()
    for i in range(g.pick([1, 2, 2, 3, 4])):
        if g.chance(.3):
            t = g.any_type()
        n = "x%d" % i
        setup.append(g.make(t, n))
        objs[n] = t
    for x in sorted(objs):
        # share parts
        if g.chance(.3):
            others = [y for y in sorted(objs) if y != x]
            k, it = g.kind_of(objs[x])
            if k == "rec":
                for p in g.props(it):
                    for y in others:
                        if objs[y] == p["t"] and g.chance(.5):
                            setup.append({"o": "set", "x": x, "a": p["name"],
                                          "v": {"$ref": y}})
    for x in sorted(objs):
        # one much like another
        if g.chance(.4):
            y = "y" + x[1:]
            setup.append({"o": "deepcopy", "x": x, "to": y})
            objs[y] = objs[x]
            for _ in range(rng.randrange(0, 3)):
                op = g.mutate({y: objs[y]}, bad=0, fail=0)
                if op:
                    op["try"] = 1
                    setup.append(op)
    t = objs["x0"]
    sets = [op for op in setup if op["o"] == "set" or "try" in op]
    setup = [op for op in setup if op not in sets]
    if sets:
        w = C.world({"spec": spec, "setup": setup})
        with w.node:
            setup += [op for op in sets if C.plain(w, op)[0] == "ok"]
    docs, mfss, fss, plists, dopts = {}, {}, {}, {}, {}
    hold = []
    recs = [c["name"] for c in g.classes if "item" not in c]
    for i in range(rng.randrange(0, 3)):
        c = g.pick(recs)
        docs["D%d" % i] = c
        doc = g.doc(c, unknown=.5)
        hold.append({"o": "hold", "v": doc, "to": "D%d" % i})
    for i in range(rng.randrange(0, 3)):
        x = g.pick(sorted(objs))
        ps = g.mfs_paths(objs[x])
        if ps:
            mfss["F%d" % i] = x
            hold.append({"o": "mkmfs", "paths": ps, "to": "F%d" % i})
    for i in range(rng.randrange(0, 3)):
        x = g.pick(sorted(objs))
        fss["f%d" % i] = x
        hold.append({"o": "mkfs", "path": g.path(objs[x])[0],
                     "to": "f%d" % i})
    for i in range(rng.randrange(0, 2)):
        x = g.pick(sorted(objs))
        ps = g.mfs_paths(objs[x])
        if ps:
            plists["P%d" % i] = x
            hold.append({"o": "hold", "v": ps, "to": "P%d" % i})
    for i in range(rng.randrange(0, 3)):
        x = g.pick(sorted(objs))
        o = dict(g.pick(g.DIFFOPTS))
        if g.chance(.3):
            o["recurse"] = True
        q = rng.random()
        if q < .4:
            ps = g.mfs_paths(objs[x])
            if ps:
                o["compare_filter"] = ps
        elif q < .6:
            P = [k for k in sorted(plists) if objs[plists[k]] == objs[x]]
            if P:
                o["compare_filter"] = {"$ref": g.pick(P)}
        dopts["O%d" % i] = x
        hold.append({"o": "mkopts", "opts": o, "to": "O%d" % i})
    nt = g.pick([1, 1, 1, 2])
    threads = []
    n = [0]
    for ti in range(nt):
        ops = []
        gens = []
        for i in range(rng.randrange(3, 12)):
            n[0] += 1
            op = reader(g, objs, docs, mfss, fss, plists, dopts, n[0])
            if ops and g.chance(.2):
                op = copy.deepcopy(g.pick(ops))
                op.pop("rid", 0)
                if "id" in op:
                    op["id"] = "V%d" % n[0]
            if op["o"] == "dstart":
                gens.append(op["k"])
            if op["o"] in DETACHED and not (
                    op["o"] == "sel" and op["m"] not in ("get", "patch") or
                    op["o"] == "sel" and op["f"][0] == "f" or
                    op["o"] == "mfs" and op["m"] != "get"):
                op["rid"] = "R%d" % n[0]
            if op["o"] == "from_json":
                op["rid"] = "J%d" % n[0]
            ops.append(op)
            if gens and g.chance(.6):
                k = g.pick(gens)
                ops.append({"o": "dnext", "k": k, "n": rng.randrange(1, 4)}
                           if g.chance(.6) else {"o": "dclose", "k": k})
        threads.append(ops)
    case = {"spec": spec, "salt": rng.randrange(20), "setup": setup,
            "hold": hold, "threads": threads}
    w = world(case)
    traces = []
    for ops in threads:
        s = C.run1(w, copy.deepcopy(ops), trace=True)
        tr = s.threads[0]
        traces.append(tr.alltrace)
        for i, op in enumerate(ops):
            if g.chance(.25):
                if tr.opcbs[i] and g.chance(.7):
                    op["cb"] = [[rng.randrange(1, tr.opcbs[i] + 1),
                                 g.pick(["raise", "value", "attr", "key",
                                         "ki", "me"])]]
                elif tr.alltrace[i]:
                    C.place_fault(rng, op, tr.alltrace[i])
    if nt > 1:
        C.place_switches(rng, threads, traces, rng.randrange(1, 6), nt)
    return case


def world(case):
    w = C.world(case)
    with w.node:
        for op in case["hold"]:
            out = C.plain(w, op)
            if out[0] != "ok":
                raise C.SetupFailed(op, out)
    return w


class Kept:
    """Everything that was passed in."""

    def __init__(self, w):
        self.w = w
        self.frame = Frame(w)
        self.sel = self.selectors()

    def selectors(self):
        w = self.w
        out = {}
        for n, o in sorted(w.objs.items()):
            if n[0] == "f":
                out[n] = list(o.selectors)
            elif n[0] == "F":
                out[n] = w.T.snap(o)
            elif n[0] == "O":
                out[n] = {k: w.T.snap(v) for k, v in vars(o).items()
                          if k[0] != "_"}
            elif n[0] in "DP":
                # also the order of keys
                out[n] = repr(o)
        return out

    def check(self):
        with self.w.node:
            bad = self.frame.check()
            if bad:
                return bad
            now = self.selectors()
            for n in self.sel:
                if now[n] != self.sel[n]:
                    return "%s: %s -> %s" % (n, self.sel[n], now[n])


def tear(w, r, seen):
    """Tears a result to pieces."""
    todo = [r]
    while todo:
        o = todo.pop()
        if id(o) in seen:
            continue
        seen[id(o)] = o
        if type(o) in (list, tuple):
            todo += o
            if type(o) is list:
                o[:] = ["torn"]
        elif type(o) is dict:
            todo += list(o) + list(o.values())
            o.clear()
            o["torn"] = "torn"
        elif isinstance(o, set):
            o.clear()
        elif isinstance(o, w.N.Record):
            d = vars(o)
            todo += d.values()
            d.clear()


def ids(w, r):
    """Every mutable container or record in a result."""
    seen = {}
    todo = [r]
    while todo:
        o = todo.pop()
        if id(o) in seen:
            continue
        if type(o) is tuple:
            todo += o
        elif type(o) in (list, set):
            seen[id(o)] = o
            todo += o
        elif type(o) is dict:
            seen[id(o)] = o
            todo += list(o) + list(o.values())
        elif isinstance(o, w.N.Record):
            seen[id(o)] = o
            todo += vars(o).values()
    return seen


def strip(op):
    return {k: v for k, v in op.items() if k not in
            ("sw", "cb", "flt", "fge", "rid")}


def changed(case, op, bad):
    return C.violation("altered:" + op["o"], "a reading operation altered "
                       "what it was given", op=op, change=bad)


def run(case, stats):
    w = world(case)
    kept = Kept(w)
    hist = []
    before = copy.deepcopy(case["threads"])
    if len(case["threads"]) == 1:
        for op in case["threads"][0]:
            s = C.run1(w, [op], stats)
            hist.append((op, C.outs(s)[0]))
            bad = kept.check()
            if bad:
                return changed(case, op, bad)
    else:
        s = C.runN(w, case["threads"], stats)
        if s.stuck:
            return C.violation("stuck", "threads do not finish")
        hist = [(h[3], h[4]) for h in s.history()]
        bad = kept.check()
        if bad:
            return changed(case, {"o": "threads"}, bad)
    if case["threads"] != before:
        for a, b in zip(sum(before, []), sum(case["threads"], [])):
            if a != b:
                return changed(case, a, "the arguments became %s" % (b,))
    # what a JSON record keeps of a document is its own
    with w.node:
        docs = {}
        for n, o in w.objs.items():
            if n[0] == "D":
                docs.update(ids(w, o))
        for rid, r in sorted(w.results.items()):
            if rid[0] != "J":
                continue
            for o in ids(w, r).values():
                if isinstance(o, w.N.Record):
                    u = vars(o).get("unknown_json_keys")
                    for i in ids(w, u):
                        if i in docs:
                            return C.violation(
                                "shared", "unknown keys kept by a record are "
                                "part of the document", part=w.T.snap(u))
    # results are detached ...
    src = {}
    with w.node:
        for n, o in w.objs.items():
            src.update(ids(w, o))
    where = {}
    for rid, r in sorted(w.results.items()):
        if rid[0] == "J":
            continue
        for i, o in ids(w, r).items():
            if i in src:
                return C.violation(
                    "shared", "a result shares a part with what it was made "
                    "from", op=[op for op, _ in hist
                                if op.get("rid") == rid][0],
                    part=w.T.snap(o))
            if i in where:
                return C.violation(
                    "shared", "two results share a part",
                    op=[op for op, _ in hist if op.get("rid") == rid][0],
                    part=w.T.snap(o))
            where[i] = o
    # ... in effect too
    done = [(op, out) for op, out in hist
            if out[0] == "ok" and op.get("rid", "J")[0] != "J" and
            not any(k in op for k in ("cb", "flt", "fge"))]
    again = [strip(op) for op, _ in done]
    was = [out for _, out in done]
    seen = {}
    with w.node:
        for rid, r in sorted(w.results.items()):
            if rid[0] == "R":
                tear(w, r, seen)
    bad = kept.check()
    if bad:
        return C.violation("torn", "changing a result changed what it was "
                           "made from", change=bad)
    for op, a, b in zip(again, was, C.outs(C.run1(w, again))):
        if a != b:
            return C.violation(
                "torn", "after its first result was changed an operation "
                "gives another one", op=op, first=a, second=b)
    return None
