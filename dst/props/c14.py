"""C14: required values are always present, read-only values never change."""
from .. import common as C
from .. import hist as H

RUNS = {"quick": 240, "thorough": 4000}
RULE = ("Each case: a schema rich in required, defaulted and read-only "
        "properties, objects, and a history of up to 16 constructions, "
        "assignments, deletions, selector operations, copies and reads; a "
        "third of the steps is hit by a misbehaving user function, an "
        "interrupt or an allocation failure.  After every step every "
        "reachable record is checked for its required values, and every "
        "read-only value for being the very same object as before.")
ASSUMES = ["A mutable value inside a read-only property may itself be edited.",
           "Properties declared unsafe are outside the property."]


def gen(rng, tier):
    case, g = H.gen_hist(rng, rng.randrange(2, 17), dict(
        ro=.45, req=.45, dflt=.5, lazy=.2, v1=.03, chk=.1, co=.5, reqdf=.6,
        colls=.25, nones=1, mix=.4),
        faults=rng.choice([.1, .35]), bad=.2)
    # construction without a required value
    for c in case["spec"]["classes"]:
        ps = [p for p in g.props(c["name"]) if p.get("req")]
        if ps and "item" not in c and g.chance(.4):
            kw = g.kwargs(c["name"])
            kw.pop(g.pick(ps)["name"], 0)
            case["ops"].insert(
                rng.randrange(len(case["ops"]) + 1),
                {"o": "new", "cls": c["name"], "p": kw,
                 "to": "y" + c["name"]})
    # construction with a function that gives nothing for a required value
    for c in case["spec"]["classes"]:
        ps = [p for p in g.props(c["name"]) if p.get("req")
              and ("co" in p or "ji" in p)]
        if ps and "item" not in c and g.chance(.6):
            p = g.pick(ps)
            kw = g.kwargs(c["name"])
            v = g.coercible(p["t"], p)
            if v is not None:
                kw[p["name"]] = v
                case["ops"].insert(
                    rng.randrange(len(case["ops"]) + 1),
                    {"o": "new", "cls": c["name"], "p": kw,
                     "to": "z" + c["name"],
                     "cb": [[rng.randrange(1, 4), "none"]]})
    return case


def ro_values(w, sp, known):
    """First read-only value that changed; records the ones now set."""
    for path, o in sp.walk(w.objs):
        name = type(o).__name__
        if name not in sp.by:
            continue
        d = vars(o)
        k = known.get(id(o))
        if k is None:
            k = known[id(o)] = (o, {})
        for p in sp.props(name):
            if not p.get("ro"):
                continue
            n = p["name"]
            if n in k[1]:
                if n not in d:
                    return "%s.%s" % (path, n), "read-only value is gone"
                if d[n] is not k[1][n]:
                    return "%s.%s" % (path, n), "read-only value changed"
            elif n in d:
                k[1][n] = d[n]
    return None


def run(case, stats):
    w = C.world(case)
    sp = H.Spec(w)
    known = {}
    m = sp.missing(w.objs, defaults=True)
    if m:
        return C.violation("missing:setup", "a constructed object lacks a "
                           "value", where=m[0], rule=m[1])
    ro_values(w, sp, known)
    for op in case["ops"]:
        s = C.run1(w, [op], stats)
        out = C.outs(s)[0]
        if s.stuck:
            return C.violation("stuck", "an operation does not end", op=op)
        with w.node:
            m = sp.missing(w.objs)
            r = ro_values(w, sp, known)
            if not m and out[0] == "ok" and not s.fired and \
                    op["o"] in ("new", "from_json") and op["to"] in w.objs:
                m = sp.missing({op["to"]: w.objs[op["to"]]}, defaults=True) \
                    if fresh(op) else None
        if m:
            return C.violation(
                "missing:" + op["o"] + ":" + op.get("m", ""),
                "a record lacks a value it must have", op=op, outcome=out,
                where=m[0], rule=m[1])
        if r:
            return C.violation(
                "readonly:" + op["o"] + ":" + op.get("m", ""),
                "a read-only value is no longer what it was", op=op,
                outcome=out, where=r[0], rule=r[1])
    return None


def fresh(op):
    """Is everything in the new object new (no existing objects inside)?"""
    return "$ref" not in repr(op.get("p", ""))
