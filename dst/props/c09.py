"""C09: selectors read and change exactly the addressed fields."""
from .. import common as C
from .. import refsel
from ..gen import Gen

RUNS = {"quick": 170, "thorough": 4000}
RULE = ("Each case: a random schema and object graph (with sharing), and up "
        "to 10 selector operations along paths that mostly exist: get, put, "
        "post, delete by one selector, get, delete, patch and membership by "
        "several, the selectors made in various ways.  Every operation is "
        "carried out on a second process by direct attribute and item access "
        "and results and whole graphs are compared; every container that is "
        "not addressed must keep the very same contents.  In part of the "
        "cases the last operation is hit by a failing user function, an "
        "interrupt or an allocation failure; then only addressed spots may "
        "have changed.")
ASSUMES = ["Mistyped steps (an index into a record, a name inside a string) "
           "are only required to leave the rest unchanged.",
           "Which of several failures of one operation is reported is not "
           "judged."]
VIA = [None, None, "tuple", "fs", "add", "plus", "slice", "copy", "extend"]
MVIA = [None, None, "fs", "mfs", "iter", "parts", "copy"]


def opath(g, w, o, t, wild=.15, hit=.8, maxlen=5, deep=False):
    """A path into an existing object -> (path, type of what is there).
    deep: mostly through what is not there yet."""
    rng = g.rng
    ref = refsel.Ref(w)
    out = []
    while len(out) < maxlen:
        if t.startswith("u:"):
            break
        k, x = g.kind_of(t)
        if t == "plist":
            k, x = "list", "any"
        if t == "pdict":
            k, x = "dict", "any"
        if k == "scalar" or out and g.chance(.02 if deep else .1):
            break
        there = ref.kind(o)
        ps = g.props(t[1:]) if t[0] == "@" else []
        if k == "rec" or ps and g.chance(.25):
            if not ps or g.chance(.03):
                out.append("no_such")
                return out, None
            d = vars(o) if isinstance(o, ref.R) else {}
            have = [p for p in ps if p["name"] in d]
            if deep and g.chance(.85):
                ps = [p for p in ps if len(out) < 3 and
                      g.kind_of(p["t"])[0] != "scalar" and
                      not p["t"].startswith("u:")] or ps
                have = []
                if g.chance(.8):
                    ps = [p for p in ps if p["name"] not in d] or ps
            p = g.pick(have if have and g.chance(hit) else ps)
            out.append(p["name"])
            o, t = d.get(p["name"]), p["t"]
            continue
        if k == "list":
            n = len(o) if there == "list" else 0
            r = rng.random()
            if r < wild:
                key = None
            elif deep and g.chance(.7):
                key = n
            elif n and r < wild + hit:
                key = rng.randrange(n)
                if g.chance(.05):
                    key -= n
            elif g.chance(.6):
                key = n
            else:
                key = rng.randrange(-1, n + 3)
            nxt = None
            if n:
                nxt = o[rng.randrange(n)] if key is None else \
                    o[key] if -n <= key < n else None
        else:
            have = sorted(o.keys(), key=repr) if there == "dict" else []
            r = rng.random()
            if r < wild:
                key = None
                nxt = o[g.pick(have)] if have else None
            elif have and g.chance(hit):
                key = g.pick(have)
                nxt = o[key]
            else:
                key = g.pick("kwxyz") + g.pick(["", "", "1"])
                nxt = None
        out.append(key)
        o, t = nxt, x
    if not out:
        out = ["no_such"]
        t = None
    return out, t


def gen_op(g, w, objs):
    x = g.pick(sorted(objs))
    t = objs[x]
    r = g.rng.random()
    if r < .62:
        wild = g.pick([0, .15, .4])
        m = g.pick(["get", "put", "put", "post", "post", "delete"])
        deep = m == "post" and g.chance(.6)
        p, lt = opath(g, w, w.objs[x], t, wild / 4 if deep else wild,
                      hit=.1 if deep else .5 if m == "post" else .85,
                      maxlen=7 if deep else 5, deep=deep)
        op = {"o": "fs", "x": x, "path": p, "m": m, "via": g.pick(VIA)}
        if m == "get" and g.chance(.2):
            op["m"] = "get_or_none"
        if m in ("put", "post"):
            if lt is None:
                op["v"] = 3
            elif p[-1] is None:
                k = "list"
                # the collection of items of type lt: its kind follows from
                # what is there
                try:
                    k = refsel.Ref(w).kind(
                        refsel.Ref(w).get(w.objs[x], p[:-1]))
                except Exception:
                    pass
                if k == "dict":
                    op["v"] = {"k": g.value(lt), "n1": g.value(lt)} \
                        if g.chance(.9) else 3
                else:
                    op["v"] = g.items_in(lt)
            else:
                op["v"] = g.value(lt, bad=g.pick([.05, .4]),
                                  refs=objs if g.chance(.3) else None)
        return op
    paths = []
    for _ in range(g.rng.randrange(1, 5)):
        p = opath(g, w, w.objs[x], t, g.pick([0, .4]), hit=.93)[0]
        p = [0 if isinstance(k, int) and k < 0 else k for k in p]
        if g.path_ok(paths + [p]):
            paths.append(p)
    same = [n for n in sorted(objs) if objs[n] == t]
    m = g.pick(["get", "get", "delete", "patch", "patch", "contains"])
    op = {"o": "mfs", "x": x, "m": m, "paths": paths, "via": g.pick(MVIA)}
    if m == "patch":
        op["y"] = x
        op["x"] = g.pick(same)
        op["copy"] = g.chance(.5)
    if m == "delete":
        op["force"] = g.chance(.4)
    if m == "contains":
        op["probe"] = []
        for _ in range(3):
            q = g.pick(paths) if g.chance(.6) else \
                opath(g, w, w.objs[x], t, .2)[0]
            q = q[:g.rng.randrange(1, len(q) + 1)]
            if g.chance(.3):
                q = q + [g.pick(["a", 0, None])]
            op["probe"].append([g.pick([0, 1]) if k is None and
                                g.chance(.5) else k for k in q])
        q = g.pick(paths)[:1] if paths and g.chance(.7) else opath(
            g, w, w.objs[x], t, .2)[0][:1]
        op["probe"].append(g.pick([0, 1, "k"]) if q[0] is None else q[0])
    return op


def gen(rng, tier):
    g = Gen(rng)
    spec = g.gen_spec(json=.4, lazy=.08, lazyconst=1, ro=.12,
                      req=g.pick([.25, .08, .08]), dflt=.2, v1=.12,
                      chk=.2, co=.2, collprops=.5)
    objs, setup = {}, []
    for i in range(rng.randrange(1, 4)):
        same = sorted(objs)
        t = objs[g.pick(same)] if same and g.chance(.5) else g.any_type()
        objs["x%d" % i] = t
        setup.append(g.make(t, "x%d" % i))
    if g.chance(.15):
        # long enough for indexes of two digits
        t = g.pick(["int", "str"])
        objs["l"] = "list:" + t
        setup.append({"o": "build", "to": "l", "v": {"$c": objs["l"], "v": [
            i if t == "int" else "s%d" % i
            for i in range(rng.randrange(11, 15))]}})
    case = {"spec": spec, "salt": rng.randrange(50), "setup": setup}
    w = C.world(case)
    ops = []
    n = rng.randrange(1, 11)
    for i in range(n):
        with w.node:
            op = gen_op(g, w, objs)
        th = C.run1(w, [dict(op)]).threads[0]
        if i == n - 1 and g.chance(.5):
            if th.opcbs[0] and op.get("v") is not None and g.chance(.7):
                op["cb"] = [[rng.randrange(1, th.opcbs[0] + 1),
                             g.pick(["raise", "value", "type", "attr",
                                     "key", "ki"])]]
            elif th.opsteps[0]:
                op["fge"] = [rng.randrange(1, th.opsteps[0] + 1),
                             g.pick(["KI", "KI", "ME"])]
        ops.append(op)
    case["ops"] = ops
    return case


ADDRESS = ("FieldSelectorException", "FieldSelectorAttributeError",
           "FieldSelectorKeyError", "KeyError", "IndexError", "ValueError")
RAW = ("AttributeError", "NameError", "UnboundLocalError")


def expect(w, op):
    """The outcome according to the reference, which also changes ``w``."""
    ref = refsel.Ref(w)
    with w.node:
        x = w._x(op)
        m = op["m"]
        try:
            if op["o"] == "fs":
                p = list(op["path"])
                if m == "get":
                    r = ref.get(x, p)
                elif m == "get_or_none":
                    try:
                        r = ref.get(x, p)
                    except refsel.Missing:
                        r = None
                elif m == "delete":
                    r = ref.delete(x, p)
                else:
                    r = getattr(ref, m)(x, p, w._dq(op["v"]))
            elif m == "get":
                r = ref.select(x, ref.tree(op["paths"]))
            elif m == "delete":
                r = ref.mdelete(x, op["paths"], op.get("force"))
            elif m == "patch":
                r = ref.patch(x, w._x(op, "y"), op["paths"], op["copy"])
            else:
                r = [ref.contains(op["paths"], q) for q in op["probe"]]
            return ["ok", w.T.snap(r)]
        except refsel.Missing:
            return ["missing"]
        except refsel.Undefined as e:
            return ["undefined", str(e)]
        except Exception as e:
            return w.T.snap_exc(e)


def run(case, stats):
    w, w2 = C.world(case), C.world(case)
    lazy = {p["name"] for c in case["spec"]["classes"]
            for p in c.get("props", ()) if p.get("lazy")}
    for op in case["ops"]:
        m = op["m"]
        with w.node:
            fr = refsel.Frame(w)
            if m in ("put", "post", "delete", "patch"):
                x = w._x(op)
                for p in op["paths"] if op["o"] == "mfs" else [op["path"]]:
                    fr.allow(x, p, op["o"] == "fs")
        s = C.run1(w, [op], stats)
        out = C.outs(s)[0]
        if s.stuck:
            return C.violation("stuck", "an operation does not end", op=op)
        with w.node:
            # deleting and patching by several paths may remove items
            bad = fr.check(lazy, "any" if m == "patch" else m == "delete")
        if bad:
            return C.violation(
                "frame:" + op["o"] + ":" + m, "something that is not "
                "addressed was changed", op=op, outcome=out, changed=bad,
                after=C.snaps(w))
        if s.fired:
            return None
        want = expect(w2, op)
        stats.probe("%s_%s_%s" % (op["o"], m, want[0]))
        if want[0] == "undefined":
            return None
        if want[0] == "missing":
            # several things may be wrong: with the value, other paths...
            if out[0] == "ok" or out[1] not in ADDRESS and \
                    op["o"] == "fs" and (
                        "v" not in op or m == "put" and
                        None not in op["path"] and out[1] in RAW):
                return C.violation(
                    "missing:" + op["o"] + ":" + m, "a path that addresses "
                    "nothing is not reported as such", op=op, outcome=out)
        elif want[0] == "exc":
            if out[0] == "ok":
                return C.violation(
                    "accepted:" + op["o"] + ":" + m, "an operation succeeds "
                    "although one of its changes is not possible", op=op,
                    outcome=out, direct=want)
        elif out != want:
            return C.violation(
                "result:" + op["o"] + ":" + m, "an operation does not give "
                "what direct access gives", op=op, outcome=out, direct=want)
        a, b = C.snaps(w), C.snaps(w2)
        if a != b:
            if want[0] != "ok":
                return None     # how far it came is not judged
            d = [k for k in a if a[k] != b.get(k)]
            return C.violation(
                "state:" + op["o"] + ":" + m, "an operation does not do what "
                "direct access does", op=op, outcome=out,
                after={k: a[k] for k in d}, direct={k: b[k] for k in d})
    return None
