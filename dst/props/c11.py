"""C11: a JSON conversion error names the exact spot that failed."""
import copy

from .. import common as C
from ..gen import Gen
from ..world import FUNCS

RUNS = {"quick": 260, "thorough": 6000}
RULE = ("Each case: a random schema with JSON records, lists and dicts "
        "nested in one another, and 1-2 preempted threads converting "
        "documents, each with one bad value somewhere or with one call of a "
        "user function failing; the corrected document follows.  The path "
        "in the error is compared with the place of the bad value, found "
        "from the document and the schema alone.")
ASSUMES = ["A value refused by a property or item type (not by a JSON "
           "conversion) is located by the path of the record or collection "
           "being built around it.",
           "Below a slot that is not converted as JSON (an ordinary list "
           "property, a union) the path ends at the record with the slot."]
ACTS = ["raise", "value", "type", "attr", "key", "falsy"]


# ------------------------------------------------------------ schema
def schema(g):
    g.no_types = ("bool",) if g.chance(.4) else \
        ("pos", "evn", "shortstr")
    spec = g.gen_spec(n=g.pick([2, 2, 3, 4]), json=1, colls=.5, req=.25,
                      dflt=0, lazy=0, v1=.05, jio=.4, jn=.4, minp=2, maxp=6,
                      ext=.05, style_isa=1)
    used = {b for c in g.classes for b in c["base"].split(",")}
    for c in g.classes:
        if c["base"] == "JsonRecord" and c["name"] not in used and \
                g.chance(.2):
            # an ordinary record among them
            c["base"] = "Record"
            for p in c["props"]:
                for k in ("jn", "ji", "jo"):
                    p.pop(k, 0)
        last = [x for x in g.classes[:g.classes.index(c)] if x["base"][:4] ==
                "Json" and not (c["base"] == "Record" and "item" not in x)
                and x["name"] not in c["base"].split(",")]
        if last and "item" not in c and g.chance(.8):
            # deeper
            q = g.pick(last[-2:])
            names = [p["name"] for p in g.props(c["name"])]
            t = "@" + q["name"]
            p = {"name": "deep", "t": t}
            if "item" not in q and g.chance(.6):
                p["t"] = g.pick(["list:", "dict:"]) + t
                p["style"] = "json"
            if "deep" not in names and not any(
                    c["name"] in x["base"].split(",") for x in g.classes):
                c["props"].append(p)
        for p in c.get("props", ()):
            if p["t"][:5] in ("list:", "dict:") and g.chance(.6):
                p["style"] = "json"
    return spec


def kind(g, t, p=None):
    """(kind, item or class, converted as JSON)"""
    if t.startswith("u:") or t in ("plist", "pdict"):
        return "scalar", None, False
    k, x = g.kind_of(t)
    if k == "scalar":
        return k, None, False
    return k, x, g.jsoncoll(p) if t[0] != "@" else g.is_json(t[1:])


def pname(g, c, key):
    for p in g.props(c):
        if (g.jname(p) if g.is_json(c) else p["name"]) == key:
            return p


def spots(g, t, doc, path=(), p=None):
    """Every place of the document: (path, type, property)"""
    yield list(path), t, p
    k, x, _ = kind(g, t, p)
    if k == "rec" and isinstance(doc, dict):
        for key in doc:
            q = pname(g, x, key)
            if q is not None:
                for s in spots(g, q["t"], doc[key], path + (key,), q):
                    yield s
    elif k in ("list", "dict") and isinstance(doc, (list, dict)):
        for key, v in (enumerate(doc) if k == "list" else doc.items()):
            for s in spots(g, x, v, path + (key,), None):
                yield s


def located(g, t, path, stage, p=None, top=False):
    """The path an error at ``path`` carries, when ``t`` is converted."""
    if not path:
        return []
    k, x, js = kind(g, t, p)
    key = path[0]
    if k == "rec":
        q = pname(g, x, key)
        if len(path) == 1 and stage == "ji":
            return [key]
        if kind(g, q["t"], q)[2]:
            return [key] + located(g, q["t"], path[1:], stage, q)
        return []
    if kind(g, x)[0] == "rec" or kind(g, x)[2]:
        return [key] + located(g, x, path[1:], stage)
    return []


def at(doc, path):
    for k in path:
        doc = doc[k]
    return doc


def put(doc, path, v):
    if not path:
        return v
    at(doc, path[:-1])[path[-1]] = v
    return doc


def bad(g, t, p):
    """-> a value that cannot be converted, and the stage that fails"""
    if p is not None and p.get("ji") == "hex":
        if "chk" in p and g.chance(.3):
            return "-5", "type"
        return g.pick(["zz", [1], None, 5]), "ji"
    if p is not None and "chk" in p:
        return (g.pick([0, -3]) if p["chk"] == "pos" else
                "much too long for this"), "type"
    k, x, js = kind(g, t, p)
    if k == "rec":
        return g.pick([5, [1], "zz"] if js or g.is_json(x) else
                      [5, {"no_such": 1}]), "type"
    if k == "list":
        return g.pick([5, {"a": 1}, True] if js else [5, True]), "type"
    if k == "dict":
        return g.pick([5, [[1]], True] if js else [5, True]), "type"
    v = {"int": ["zz", [1], {"a": 1}], "integer": ["zz", [1]],
         "num": ["zz", [1]], "float": ["zz", {}], "pos": ["zz", 0, -4],
         "evn": ["zz", 1], "shortstr": ["much too long for this"],
         "date": ["zz", 17, [1]], "dt": ["zz", 17], "uni": [5, [1]],
         "plist": [5], "pdict": [5, [1]]}.get(t)
    return (g.pick(v), "type") if v else (None, None)


def uniques(g, t, doc):
    """Make the values which user functions see distinct."""
    n = 0
    for path, t, p in list(spots(g, t, doc)):
        n += 1
        v = at(doc, path)
        if p is not None and p.get("ji") == "hex":
            v = "%x" % (0x1000 + n)
        elif t in ("int", "integer", "num", "pos", "evn"):
            v = 100 + 2 * n
        elif t == "float":
            v = 100.5 + n
        elif t in ("str", "uni", "shortstr"):
            v = "u%d" % n
        else:
            continue
        doc = put(doc, path, v)
    return doc


# ------------------------------------------------------------ generator
def gen(rng, tier):
    g = Gen(rng)
    g.digits = .3
    spec = schema(g)
    case = {"spec": spec, "salt": rng.randrange(50), "setup": []}
    nt = g.pick([1, 1, 1, 2])
    threads = []
    recs = [c for c in g.classes if "item" not in c or g.is_json(c["name"])]
    chain = deepen(g, recs[-1]["name"]) if g.chance(.12) and recs else []
    if chain:
        nt = 1
    for ti in range(nt):
        ops = []
        for i in range(rng.randrange(1, 4)):
            c = chain[-1][0] if chain and g.chance(.8) else g.pick(
                g.classes if g.chance(.3) else g.records())["name"]
            t = "@" + c
            k = kind(g, t)[0]
            if k != "rec" and not g.is_json(c):
                continue
            if chain and c == chain[-1][0]:
                doc = document(g, "@" + recs[-1]["name"])
                for _, key, box in chain:
                    doc = {key: [doc] if box == "list" else
                           {"k": doc} if box == "dict" else doc}
                doc = uniques(g, t, doc)
            else:
                doc = uniques(g, t, document(g, t))
            clean = {"o": "from_json", "cls": c, "doc": doc,
                     "form": g.pick(["loaded", "loaded", "text", "bytes"]),
                     "via": g.pick(["fn", "fn", "ctor", "meth"])
                     if g.is_json(c) else "fn"}
            s = C.run1(C.world(case), [clean]).threads[0]
            if s.history[0][3][0] != "ok":
                continue
            op = copy.deepcopy(clean)
            op["eid"] = "%d.%d" % (ti, i)
            if s.opcbs[0] and g.chance(.45):
                op["cb"] = [[rng.randrange(1, s.opcbs[0] + 1),
                             g.pick(ACTS)]]
                op["good"] = True
            elif not spoil(g, op, t):
                continue
            ops += [op, clean]
            if g.chance(.3):
                ops.append(copy.deepcopy(clean))
        threads.append(ops)
    if not any(threads):
        return None
    case["threads"] = [t for t in threads if t]
    nt = len(case["threads"])
    if nt > 1:
        traces = [C.run1(C.world(case), copy.deepcopy(ops), trace=True)
                  .threads[0].alltrace for ops in case["threads"]]
        C.place_switches(rng, case["threads"], traces,
                         rng.randrange(1, 6), nt)
    return case


def deepen(g, c):
    """Classes around another: (name, key, container)"""
    out = []
    for i in range(g.rng.randrange(4, 12)):
        p = {"name": g.pick(["s", "more", "below"]), "t": "@" + c}
        box = g.pick(["", "", "list", "dict"]) if \
            "item" not in g.by[c] else ""
        if box:
            p["t"] = "%s:%s" % (box, p["t"])
            p["style"] = "json"
        if g.chance(.2):
            p["jn"] = "j" + p["name"]
        c = "W%d" % i
        new = {"name": c, "base": "JsonRecord", "props": [p]}
        g.classes.append(new)
        g.by[c] = new
        out.append((c, g.jname(p), box))
    return out


def document(g, t, depth=0):
    k, x, _ = kind(g, t)
    if k == "rec":
        return g.doc(x, full=g.chance(.4))
    n = g.rng.randrange(1, 4)
    v = [g.docval(x, None, 1) for _ in range(n)]
    return v if k == "list" else dict(zip("kwxyz", v))


def spoil(g, op, t):
    """One bad value; notes where the error must point."""
    ss = [s for s in spots(g, t, op["doc"]) if s[0]]
    deep = [s for s in ss if len(s[0]) > 2]
    if not ss:
        return False
    for _ in range(6):
        path, tt, p = g.pick(deep if deep and g.chance(.6) else ss)
        k, x, _ = kind(g, tt, p)
        if k == "rec" and g.chance(.3):
            d = at(op["doc"], path)
            req = [q for q in g.props(x) if q.get("req") and
                   (g.jname(q) if g.is_json(x) else q["name"]) in d]
            if req:
                q = g.pick(req)
                del d[g.jname(q) if g.is_json(x) else q["name"]]
                op["want"] = located(g, t, path, "type")
                op["at"] = path
                return True
        v, stage = bad(g, tt, p)
        if stage is None:
            continue
        op["doc"] = put(op["doc"], path, v)
        op["want"] = located(g, t, path, stage)
        op["at"] = path
        return True
    return False


# ------------------------------------------------------------ check
def error_path(e):
    fs = getattr(e, "error_fs", None)
    return [] if fs is None else list(fs.selectors)


def run(case, stats):
    w = C.world(case)
    s = C.runN(w, case["threads"], stats) if len(case["threads"]) > 1 \
        else C.run1(w, case["threads"][0], stats)
    if s.stuck:
        return C.violation("stuck", "a conversion does not end")
    g = Gen(None)
    g.classes = case["spec"]["classes"]
    g.by = {c["name"]: c for c in g.classes}
    first = {}
    for th in s.threads:
        struck = [x for x in s.struck if x[0] == th.tid]
        for (_, _, op, out) in th.history:
            t = "@" + op["cls"]
            if "eid" not in op:
                if out[0] != "ok":
                    return C.violation(
                        "corrected", "a good document does not convert after "
                        "one that failed", op=op, outcome=out)
                key = repr((op["cls"], op["doc"]))
                if key not in first:
                    first[key] = C.outs(C.run1(C.world(case), [dict(
                        op, sw=[])]))[0]
                if first[key] != out:
                    return C.violation(
                        "differs", "a document does not convert to what it "
                        "gives in a fresh process", op=op, outcome=out,
                        fresh=first[key])
                continue
            e = w.excs.get(op["eid"])
            want, spot, why = op.get("want"), op.get("at"), None
            if op.get("good"):
                if not struck:
                    continue
                tid, fn, args, act = struck.pop(0)[:4]
                if e is None:
                    stats.probe("fault_absorbed")
                    continue
                stage = "ji" if fn is FUNCS["hex"] else "type"
                at_ = [x for x in spots(g, t, op["doc"])
                       if matches(x, at(op["doc"], x[0]), args[0], stage)]
                if len(at_) != 1 or act == "falsy" and stage == "ji":
                    stats.probe("spot_unknown")
                    continue
                spot = at_[0][0]
                if at_[0][2] is None and kind(g, at_[0][1])[0] == "scalar":
                    pass
                want = located(g, t, spot, stage)
                why = act
            elif e is None:
                return C.violation(
                    "accepted", "a bad document converts", op=op,
                    outcome=out)
            got = error_path(e)
            stats.probe("path_depth_%d" % len(want))
            stats.probe("judged_cb" if why else "judged_value")
            if got != want:
                return C.violation(
                    "path:" + ("longer" if len(got) > len(want) else
                               "shorter" if len(got) < len(want) else
                               "other"), "the error does not point to the "
                    "spot", op=op, outcome=out, path=got, expected=want,
                    spot=spot)
            if want and type(e).__name__ != "JsonConversionError":
                return C.violation("type", "not a conversion error", op=op,
                                   outcome=out)
            if want:
                sub = getattr(e, "sub_exception", None)
                if not isinstance(sub, Exception) or hasattr(
                        sub, "error_fs") or str(sub) not in str(e) and \
                        type(sub).__name__ != "KeyError":
                    return C.violation(
                        "original", "the original error is lost", op=op,
                        outcome=out, sub=w.T.snap_exc(sub)
                        if isinstance(sub, Exception) else repr(sub))
                if why in ("raise", "value", "attr", "key") and \
                        "injected" not in str(sub):
                    return C.violation(
                        "original", "the error of the user's function is "
                        "lost", op=op, outcome=out, sub=w.T.snap_exc(sub))
    return None


def matches(spot, v, arg, stage):
    p = spot[2]
    if p is not None and p.get("ji") == "hex":
        try:
            return v == arg if stage == "ji" else int(v, 16) == arg
        except Exception:
            return False
    return stage != "ji" and type(v) is type(arg) and v == arg and \
        not isinstance(v, (dict, list))
