"""C05: a refused change leaves the object exactly as it was."""
from .. import common as C
from ..gen import Gen
from .. import hist as H

RUNS = {"quick": 260, "thorough": 4500}
RULE = ("Each case: a random schema and objects, and up to 12 single-target "
        "changes with conforming, coercible and refused values, missing "
        "targets, user functions failing at the n-th call and iterators "
        "failing at the n-th item.  After every refused change the whole "
        "object graph (values and identities) is compared with before; the "
        "change is repeated without the failure and compared with a process "
        "in which the refused attempt never happened.")
ASSUMES = ["extend, update, sort and wildcard selectors have several targets "
           "and are left to C06 and C09.", "Lazy properties are left to C12."]
SKIP = ("extend", "update", "sort", "reverse", "clear")
ACTS = ["raise", "value", "type", "attr", "key", "none", "junk", "falsy",
        "ki", "me"]


def gen(rng, tier):
    g = Gen(rng)
    g.nones = 4
    spec = g.gen_spec(json=.4, lazy=0, ro=.25, req=.3, v1=.12, chk=.35,
                      co=.4, collprops=.4)
    for c in spec["classes"]:
        if c.get("item") in ("int", "str") and g.chance(.5):
            c["coitem"] = g.pick([c["item"], c["item"], "ident", "first"])
    objs, setup = {}, []
    for i in range(rng.randrange(1, 4)):
        t = g.any_type()
        objs["x%d" % i] = t
        setup.append(g.make(t, "x%d" % i))
    case = {"spec": spec, "salt": 0, "setup": setup}
    w = C.world(case)
    ops = []
    for i in range(rng.randrange(2, 13)):
        for _ in range(3):
            while True:
                op = g.mutate(objs, bad=g.pick([.1, .5]), fs=.2,
                              **{})
                if op.get("m") in SKIP or op.get("m") == "post" or \
                        op["o"] in ("get", "len", "iter", "in") or \
                        op["o"] == "fs" and None in op["path"]:
                    continue
                break
            th = C.run1(w, [dict(op)]).threads[0]
            if th.history[0][3][:2] != ["exc", "KeyError"] or g.chance(.3):
                break
        if th.opcbs[0] and g.chance(.6):
            op["cb"] = [[rng.randrange(1, th.opcbs[0] + 1), g.pick(ACTS)]]
        it = op.get("v") or (op.get("args") or [None])[-1]
        if isinstance(it, dict) and "$it" in it and g.chance(.6):
            it["fail"] = rng.randrange(0, len(it["$it"]) + 1)
            it["act"] = g.pick(ACTS[:5] + ["ki"])
        ops.append(op)
    case["ops"] = ops
    return case


def state(w):
    """Values and identities of everything reachable."""
    with w.node:
        ids = []
        todo = sorted(w.objs.items())
        todo.reverse()
        seen = set()
        while todo:
            p, o = todo.pop()
            if isinstance(o, (list, tuple)):
                kids = list(enumerate(o))
            elif isinstance(o, dict):
                kids = list(o.items())
            elif isinstance(o, w.N.Record):
                kids = sorted(vars(o).items())
            else:
                continue
            if id(o) in seen:
                ids.append((p, id(o)))
                continue
            seen.add(id(o))
            ids.append((p, id(o)))
            todo += [("%s/%s" % (p, k), v) for k, v in reversed(kids)]
        return C.snaps(w), ids


def clean(op):
    """The change without the failure."""
    r = {k: v for k, v in op.items() if k not in ("cb", "flt", "fge")}

    def cl(v):
        if isinstance(v, dict):
            if "$it" in v:
                return {"$it": [cl(x) for x in v["$it"]]}
            return {k: cl(x) for k, x in v.items()}
        if isinstance(v, list):
            return [cl(x) for x in v]
        return v
    for k in ("v", "args"):
        if k in r:
            r[k] = cl(r[k])
    return r


def run(case, stats):
    w, w2 = C.world(case), C.world(case)
    for op in case["ops"]:
        before = state(w)
        s = C.run1(w, [op], stats)
        out = C.outs(s)[0]
        if s.stuck:
            return C.violation("stuck", "an operation does not end", op=op)
        if out[0] != "exc":
            # accepted all the same
            C.run1(w2, [op])
            if C.snaps(w) != C.snaps(w2):
                return None     # shared history is lost; C04 and C06 judge
            continue
        stats.fault("refused_change")
        after = state(w)
        if after != before:
            d = [k for k in before[0] if before[0][k] != after[0].get(k)]
            return C.violation(
                "changed:" + op["o"] + ":" + op.get("m", ""),
                "a refused change left something changed", op=op, outcome=out,
                before={k: before[0][k] for k in d} or "same values",
                after={k: after[0].get(k) for k in d} or "other identities")
        cl = clean(op)
        a = C.outs(C.run1(w, [cl], stats))[0]
        b = C.outs(C.run1(w2, [cl]))[0]
        if a != b or C.snaps(w) != C.snaps(w2):
            return C.violation(
                "retry:" + op["o"] + ":" + op.get("m", ""),
                "the same change made again does not do what it does without "
                "the refused attempt", op=op, refused=out, again=a, alone=b)
    return None
