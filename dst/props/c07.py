"""C07: saved records survive a restart."""
import re

from .. import common as C
from .. import hist as H
from ..gen import Gen
from . import c07auto

RUNS = {"quick": 150, "thorough": 2600}
RULE = ("Each case: a random schema and history of changes; objects of the "
        "history are saved (pickle protocols 0-5, deepcopy, JSON text), with "
        "interrupts and failing user functions during save and load followed "
        "by a clean retry; they are read back in the same process, and after "
        "a crash in a new process with the classes declared in another "
        "order, another set order and some other use first.  Slots, types, "
        "sharing, equality and the outcomes of following operations are "
        "compared with the original.  Every third case or so is a history of "
        "automatic JSON records, whose classes come from documents.")
ASSUMES = ["The restarted process makes the list_of()/dict_of() types of "
           "the saved objects before it loads them, as part of declaring the "
           "same classes.",
           "Object graphs are acyclic.",
           "JSON cannot carry: properties without JSON name, subclass "
           "instances, extra attributes of collections, records in unions, "
           "unset slots that have a default, sharing."]
ATOM = re.compile(r"@(\w+)")


def gen(rng, tier):
    if rng.random() < .07:
        return c07auto.gen(rng)
    js = rng.random() < .75
    case, g = H.gen_hist(
        rng, rng.randrange(0, 6),
        dict(json=1 if js else 0, lazy=.12, lazyconst=1, ro=.15, req=.25,
             dflt=.25, v1=.12, chk=.2, co=.25, collprops=.5, jn=.35,
             jio=.9 if rng.random() < .25 else .2,
             ext=.15, inherit=.3, colls=.5),
        faults=.1, bad=.15)
    t0 = {op["to"]: op.get("cls") for op in case["setup"]}
    w = C.world(case)
    s = C.run1(w, case["ops"])
    names = sorted(w.objs)
    for i in range(2):
        if g.chance(.15):
            x = g.pick(names)
            same = [n for n in names if type(w.objs[n]) is type(w.objs[x])]
            case["ops"].append({"o": "diff", "x": x, "y": g.pick(same),
                                "keep": "d%d" % i})
    saves = []
    for i in range(rng.randrange(1, 4)):
        x = g.pick(names + ["d0", "d1"])
        how = g.weighted([("pickle", 5), ("deep", 1.5), ("json", 4)])
        sv = {"x": x, "how": how, "proto": rng.randrange(0, 6)}
        if how == "json":
            sv["form"] = g.pick(["text", "text", "bytes", "loaded"])
            sv["via"] = g.pick(["fn", "ctor"])
            sv["ascii"] = rng.randrange(2)
        for k in ("sf", "lf"):
            if g.chance(.25):
                sv[k] = [rng.randrange(1, 120), g.pick(["KI", "ME"])]
        if g.chance(.6 if how == "json" and "'jo'" in
                    repr(case["spec"]) else .2):
            sv["cb"] = [[rng.randrange(1, 5 if how != "json" else 3), g.pick(
                ["ki", "raise", "me", "attr", "attr", "key", "type",
                 "value"])]]
        if g.chance(.15):
            sv["torn"] = rng.random()
        saves.append(sv)
    case["saves"] = saves
    # what is done with the original and with what was read back
    case["post"] = []
    for sv in saves:
        case["post"].append(post(g, w, sv["x"]))
    order = topo(rng, case["spec"]["classes"])
    # other use of the new process first
    warm = []
    for i in range(rng.randrange(0, 4)):
        t = g.any_type()
        warm.append(g.make(t, "w%d" % i))
        warm.append(g.read_op({"w%d" % i: t}))
    case["node2"] = {"salt": rng.randrange(50), "order": order, "warm": warm,
                     "late": g.chance(.5)}
    return case


def typeref(w, x):
    """Type reference of an object (None: not one of ours)."""
    if x not in w.objs:
        return None
    return tref(w, w.objs[x])


def tref(w, o):
    n = type(o).__name__
    if n in w.T.cspec:
        return "@" + n
    itt = vars(type(o)).get("itemtype")
    t = H.Spec(w).tname(itt)
    if t is None:
        return None
    lc = w.node.mod("normalize.coll").ListCollection
    return ("list:" if isinstance(o, lc) else "dict:") + t


def post(g, w, x):
    t = typeref(w, x)
    if t is None:
        return []
    ops = []
    objs = {"x": t}
    for i in range(g.rng.randrange(2, 8)):
        r = g.rng.random()
        if r < .7:
            op = g.mutate(objs, bad=.35, fs=.15)
        else:
            op = g.read_op(objs)
            if op["o"] in ("hash", "diff"):
                continue
            if op["o"] == "mfs" and op["m"] != "get":
                continue
        ops.append(op)
    return ops


def topo(rng, classes):
    """A random declaration order that respects references."""
    need = {}
    for c in classes:
        refs = [*c["base"].split(","), c.get("item", "")] + \
            [p["t"] for p in c.get("props", ())]
        need[c["name"]] = {m for r in refs for m in ATOM.findall(r)} | \
            {b for b in c["base"].split(",")}
    names = [c["name"] for c in classes]
    left = list(range(len(names)))
    out = []
    while left:
        ready = [i for i in left if not
                 need[names[i]] & {names[j] for j in left if j != i}]
        i = ready[rng.randrange(len(ready))]
        out.append(i)
        left.remove(i)
    return out


def keep_diffs(w, ops):
    """Runs the history; results of some diffs become objects."""
    for op in ops:
        if op.get("keep"):
            with w.node:
                try:
                    w.objs[op["keep"]] = w.objs[op["x"]].diff(
                        w.objs[op["y"]])
                except Exception:
                    pass
        else:
            yield op


def sharing(w, o):
    """Where the same record or container occurs more than once."""
    first, out = {}, []
    todo = [("", o)]
    while todo:
        path, o = todo.pop()
        if isinstance(o, w.N.Record):
            kids = sorted(vars(o).items())
        elif isinstance(o, dict):
            kids = sorted(o.items(), key=lambda kv: repr(kv[0]))
        elif isinstance(o, (list, tuple)) and o != ():
            kids = list(enumerate(o))
        else:
            continue
        if id(o) in first:
            out.append([path, first[id(o)]])
            continue
        first[id(o)] = path
        todo += [("%s/%s" % (path, k), v) for k, v in reversed(kids)]
    return out


def loadable(w, o):
    """Is from_json() for such objects?"""
    return not isinstance(o, w.node.mod("normalize.coll").Collection) or \
        hasattr(o, "json_data")


def has(snap, tags):
    if isinstance(snap, list):
        if snap and isinstance(snap[0], str) and snap[0] in tags:
            return True
        return any(has(x, tags) for x in snap)
    return False


class Json:
    """Which part of a snapshot JSON carries, and comparing by it."""

    def __init__(self, w):
        self.sp = H.Spec(w)

    def carryable(self, o, t="any"):
        """Does the live object consist of what JSON can carry?"""
        N = self.sp.N
        if o is None or isinstance(o, (bool, str, float)):
            return True
        if isinstance(o, int):
            return abs(o) < 2 ** 50
        if isinstance(o, N.Record):
            name = type(o).__name__
            if t != "any" and t[0] == "@" and name != t[1:]:
                return False        # a subclass instance
            it = self.sp.item(name)
            if it is None:
                it = self.sp.tname(vars(type(o)).get("itemtype"))
            if it is not None:
                v = vars(o)["_values"]
                if isinstance(v, dict) and not all(
                        isinstance(k, str) for k in v):
                    return False
                return all(self.carryable(x, it) for x in (
                    v.values() if isinstance(v, dict) else v))
            if name not in self.sp.by or t == "any":
                return False
            ps = {p["name"]: p for p in self.sp.props(name)}
            for k, v in vars(o).items():
                if k == "unknown_json_keys":
                    if not self.carryable(v):
                        return False
                    continue
                p = ps.get(k)
                if p is None:
                    return False
                if p.get("jn", 1) is None:
                    if p.get("req"):
                        return False
                    continue
                if "ji" in p or p["t"] in ("date", "dt"):
                    continue
                if p["t"] == "rdate":
                    return False
                pt = p["t"]
                if pt.startswith("u:"):
                    if not self.carryable(v) or isinstance(v, dict):
                        return False
                elif pt in ("int", "str") and False:
                    pass
                elif not self.carryable(v, pt):
                    return False
            return True
        if isinstance(o, dict):
            return t in ("any", "pdict") and all(
                isinstance(k, str) and self.carryable(v)
                for k, v in o.items())
        if type(o) is list:
            return t in ("any", "plist") and all(map(self.carryable, o))
        return False

    def differs(self, a, b, path=""):
        """Where snapshot b is not what JSON carries of snapshot a."""
        if a == b:
            return None
        if not (isinstance(a, list) and isinstance(b, list) and a and b and
                a[0] == b[0] and a[0] in ("rec", "coll") and a[1] == b[1]):
            return [path, a, b]
        if a[0] == "coll":
            x, y = a[2], b[2]
            if x[0] != y[0] or len(x) != len(y):
                return [path, x, y]
            if x[0] == "dict":
                if [k for k, _ in x[1:]] != [k for k, _ in y[1:]]:
                    return [path, x, y]
                pairs = [("%s[%r]" % (path, k), v, v2)
                         for (k, v), (_, v2) in zip(x[1:], y[1:])]
            else:
                pairs = [("%s[%d]" % (path, i), v, v2) for i, (v, v2)
                         in enumerate(zip(x[1:], y[1:]))]
            for p, v, v2 in pairs:
                d = self.differs(v, v2, p)
                if d:
                    return d
            return None
        x, y = dict(a[2]), dict(b[2])
        for p in self.sp.props(a[1]):
            n = p["name"]
            if p.get("jn", 1) is None:
                x.pop(n, None)
                y.pop(n, None)
                continue
            if n not in x and (
                    "df" in p or "dv" in p or "v1n" in p or
                    "dm" in p and not p.get("lazy")):
                y.pop(n, None)
                continue
            if (n in x) != (n in y):
                return [path + "." + n, x.get(n, "unset"),
                        y.get(n, "unset")]
            if n in x:
                d = self.differs(x.pop(n), y.pop(n), path + "." + n)
                if d:
                    return d
        if x != y:
            return [path, x, y]
        return None


def slots_ok(w, o, sp):
    """Every restored value is of the type its property declares now."""
    bad = sp.misfit({"r": o})
    if bad:
        return bad
    for path, r in sp.walk({"r": o}):
        for k, v in vars(r).items():
            p = type(r).properties.get(k)
            if p is not None and p.valuetype and \
                    not isinstance(v, p.valuetype):
                return "%s.%s" % (path, k), "declared type"
    return None


def typeonly(out):
    return out[:2] if out[0] == "exc" else out


def final(w, name, seq):
    outs = []
    for op in seq:
        op = dict(op)
        outs.append([op, typeonly(C.outs(C.run1(w, [rename(op, name)]))[0])])
    return outs, C.snaps(w, [name])[name]


def rename(op, name):
    op = dict(op)
    for k in ("x", "y"):
        if k in op:
            op[k] = [name] + op[k][1:] if isinstance(op[k], list) else name
    return op


def clean_retry(w, op, fault, cb, stats):
    """The op with its faults, then without if it did not succeed."""
    f = dict(op)
    if fault:
        f["fge"] = fault
    if cb:
        f["cb"] = cb
    s = C.run1(w, [f], stats)
    out = C.outs(s)[0]
    if out[0] != "ok" and (fault or cb):
        s = C.run1(w, [op], stats)
        out = C.outs(s)[0]
    return out


def run(case, stats):
    if case.get("auto"):
        return c07auto.run(case, stats, clean_retry)
    w = C.world(case)
    C.run1(w, list(keep_diffs(w, [])) + [
        op for op in case["ops"] if not op.get("keep")], stats)
    list(keep_diffs(w, [op for op in case["ops"] if op.get("keep")]))
    js = Json(w)
    done = []
    for i, sv in enumerate(case["saves"]):
        x = sv["x"]
        if x not in w.objs:
            continue
        with w.node:
            o = w.objs[x]
            t = tref(w, o)
            cyc = has(w.T.snap(o), ("cycle", "unsnappable"))
            if cyc:
                continue
            if sv["how"] == "json" and not (
                    t and t[0] == "@" and loadable(w, o) and
                    js.carryable(o, t)):
                continue
        key = "k%d" % i
        before = C.snaps(w, [x])[x]
        out = clean_retry(w, {"o": "save", "x": x, "how": sv["how"],
                              "proto": sv["proto"], "key": key,
                              "ascii": sv.get("ascii")},
                          sv.get("sf"), sv.get("cb"), stats)
        if out[0] != "ok":
            if has(before, ("faultiter", "callable")):
                continue
            return C.violation("save:" + sv["how"], "saving fails", save=sv,
                               outcome=out, object=before)
        snap = C.snaps(w, [x])[x]
        if snap != before and sv["how"] != "json":
            return C.violation("saved-changed", "saving changed the object",
                               save=sv, before=before, after=snap)
        ld = {"o": "load", "key": key, "how": sv["how"], "cls":
              t[1:] if t and t[0] == "@" else None, "via": sv.get("via") if hasattr(o, "json_data") else "fn",
              "form": sv.get("form"), "to": "r%d" % i}
        out = clean_retry(w, ld, sv.get("lf"), sv.get("cb"), stats)
        v = judge(w, js, sv, out, snap, x, "r%d" % i, "same process")
        if v:
            return v
        done.append((i, sv, x, ld, snap, t))
    # what the objects do next, as long as the first process lives
    want = {}
    for (i, sv, x, ld, snap, t) in done:
        with w.node:
            want[i] = [None, None, sharing(w, w.objs[x])]
    for (i, sv, x, ld, snap, t) in done[:1]:
        if C.snaps(w, [x])[x] != snap:
            continue
        want[i][:2] = final(w, x, (case["post"][i:] or [[]])[0])
    types = {t for (_, _, _, _, _, t) in done if t and t[0] != "@"}
    saved = {k: v for k, v in w.saved.items()
             if isinstance(v, (bytes, str))}
    w.node.crash()
    stats.fault("crash_restart")
    # ---------------------------------------------------------- restart
    n2 = case["node2"]
    w2 = C.world({"salt": n2["salt"]}, setup=False)
    with w2.node:
        w2.T.declare_all(case["spec"], n2["order"])
        if n2["order"] != sorted(n2["order"]):
            stats.fault("declaration_order")
        if not n2["late"]:
            for t in sorted(types):
                w2.T.ref(t)
    for op in n2["warm"]:
        C.run1(w2, [op])
    with w2.node:
        for t in sorted(types):
            w2.T.ref(t)
    js2 = Json(w2)
    w2.saved = saved
    for (i, sv, x, ld, snap, t) in done:
        if ld["key"] not in saved:
            continue
        if "torn" in sv and sv["how"] == "pickle":
            cut = int(len(saved[ld["key"]]) * sv["torn"])
            out = C.outs(C.run1(w2, [dict(ld, cut=cut)]))[0]
            stats.fault("torn_file")
        out = clean_retry(w2, ld, sv.get("lf"), sv.get("cb"), stats)
        v = judge(w2, js2, sv, out, snap, None, "r%d" % i, "restarted")
        if v:
            return v
        got, last, share = want[i]
        rsnap = C.snaps(w2, ["r%d" % i])["r%d" % i]
        with w2.node:
            rshare = sharing(w2, w2.objs["r%d" % i])
        if sv["how"] == "pickle" and rshare != share and t:
            return C.violation("sharing", "objects shared before are not, or "
                               "the other way round", save=sv, before=share,
                               after=rshare)
        if rsnap != snap or share or got is None:
            continue
        again = final(w2, "r%d" % i, case["post"][i])
        if again != (got, last):
            d = [[a, b[1]] for a, b in zip(got, again[0]) if a != b]
            return C.violation(
                "behaves", "what was read back behaves otherwise than the "
                "original", save=sv, steps=d[:2], original=last,
                restored=again[1])
    return None


def judge(w, js, sv, out, snap, x, r, where):
    how = sv["how"]
    if out[0] != "ok":
        return C.violation("load:%s" % how, "reading back fails in the %s"
                           % where, save=sv, outcome=out, object=snap)
    got = C.snaps(w, [r])[r]
    if how == "json":
        d = js.differs(snap, got)
        if d:
            return C.violation("value:json", "another value is read back "
                               "from JSON in the %s" % where, save=sv,
                               where=d[0], saved=d[1], loaded=d[2],
                               object=snap)
    elif got != snap:
        return C.violation("value:%s" % how, "another value is read back in "
                           "the %s" % where, save=sv, saved=snap, loaded=got)
    with w.node:
        o = w.objs[r]
        if snap[1] not in ("Diff", "JsonDiff"):
            bad = slots_ok(w, o, js.sp)
            if bad:
                return C.violation("type:%s" % how, "a value is not of the "
                                   "declared type", save=sv, where=bad)
    if x is not None and got == snap and not has(snap, ("opaque",)):
        with w.node:
            a, b = w.objs[x], w.objs[r]
            try:
                eq = [a == b, b == a, a != b]
            except Exception as e:
                eq = repr(e)[:200]
            if eq != [True, True, False]:
                return C.violation("equal:%s" % how, "what is read back is "
                                   "not equal", save=sv, got=eq, object=snap)
    return None
