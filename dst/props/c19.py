"""C19: results do not depend on the process's hash and set ordering."""
import json
import os
import subprocess
import sys

from .. import common as C
from .. import hist as H
from ..gen import Gen
from . import c07auto, c20
from ..node import Node
from ..world import World

RUNS = {"quick": 260, "thorough": 4000}
RULE = ("Each case: a random schema (class declarations in any order that "
        "works, properties whose defaults are worked out from other "
        "properties), objects, and a history of up to 12 constructions, "
        "conversions, edits, comparisons, visits, selector operations and "
        "copies, a fifth of them with a misbehaving user function.  The same "
        "history runs in two or three processes: in this one under two "
        "different set iteration orders, and in a peer process with another "
        "PYTHONHASHSEED; the outcome of every step (value, order, error and "
        "its text) and the objects left at the end have to be the same.")
ASSUMES = ["Differences between unordered parts are compared as a multiset: "
           "the order in which they are reported is not promised.",
           "Values given by the user contain no sets (their order is the "
           "interpreter's).",
           "Orders which depend on the addresses of objects are only "
           "searched through the set seam, not through the peer process."]


def gen(rng, tier):
    r = rng.random()
    if r < .1:
        # automatic records: classes and properties come from the document
        a = c07auto.gen(rng)
        g = Gen(rng)
        case = {"spec": a["spec"], "setup": []}
        ops = [{"o": "from_json", "cls": a["cls"], "doc": a["doc"],
                "via": "ctor", "to": "x"}]
        for st in a["steps"]:
            ops += [{k: v for k, v in st.items() if k not in ("want", "bad", "k")},
                    {"o": "to_json", "x": "x"}]
        ops += [{"o": o, "x": "x"} for o in ("to_json", "repr", "deepcopy")]
    elif r < .2:
        # safe navigation; the order of the type names counts as well
        g = Gen(rng)
        c = union_navs(g) if g.chance(.6) else c20.gen(rng, tier)
        case = {"spec": c["spec"], "setup": c["setup"]}
        ops = [{"o": "nav", "x": op["x"], "steps": op["steps"], "ord": 1}
               for t in [c["pre"]] + c["threads"] for op in t]
    elif r < .55:
        case, g = H.gen_hist(rng, rng.randrange(1, 9), dict(
            json=.5, lazy=.15, lazyconst=1, dflt=.35, dmeth=.35, v1=.1, req=.35, reqdf=.3,
            ext=.15, ca=.1, maxp=6, nones=1, pk=.5), faults=0, bad=.3)
        ops = case["ops"]
    else:
        g = Gen(rng)
        spec = g.gen_spec(json=.6, lazy=.15, lazyconst=1, dflt=.35, dmeth=.35, v1=.1,
                          ext=.15, ca=.15, req=.35, reqdf=.3, maxp=6, jn=.3)
        case = {"spec": spec, "setup": []}
        objs = {}
        ops = []
        for i in range(rng.randrange(1, 4)):
            t = g.any_type() if not objs or g.chance(.4) else \
                objs[g.pick(sorted(objs))]
            objs["x%d" % i] = t
            case["setup"].append(g.make(t, "x%d" % i))
            if g.chance(.5):
                objs["y%d" % i] = t
                case["setup"].append(g.make(t, "y%d" % i))
        for i in range(rng.randrange(1, 10)):
            q = g.chance
            if q(.65):
                op = g.read_op(objs)
            elif q(.5):
                op = g.mutate(objs, bad=.3, fs=.2)
            else:
                # construction from some of the properties
                c = g.pick(g.records())["name"]
                kw = g.kwargs(c)
                for n in sorted(kw):
                    if q(.4):
                        del kw[n]
                for p in g.props(c):
                    b = g.bad(p["t"], p)
                    if b is not None and q(.15):
                        kw[p["name"]] = b
                op = {"o": "new", "cls": c, "p": kw, "to": "n%d" % i}
            ops.append(op)
    for op in ops:
        if rng.random() < .2 and op["o"] not in ("diff", "compare"):
            op["cb"] = [[rng.randrange(1, 4), g.pick(C.CB_ACTS)]]
    case["ops"] = ops
    case["salt"] = rng.randrange(32)
    case["salt2"] = rng.randrange(32)
    case["hs"] = rng.randrange(1, 4) if rng.random() < .4 else 0
    return case


def union_navs(g):
    """Paths through slots of several types, none of which is set."""
    rng = g.rng
    kinds = ["int", "str", "float", "date", "dt"]
    classes = []
    for i in range(rng.randrange(2, 5)):
        props = []
        for n in rng.sample("abcde", rng.randrange(2, 5)):
            pool = rng.sample(kinds, rng.randrange(1, 3)) + [
                "@" + c["name"] for c in classes if g.chance(.7)]
            rng.shuffle(pool)
            props.append({"name": n, "t": pool[0] if len(pool) == 1 else
                          "u:" + "|".join(pool)})
        classes.append({"name": "C%d" % i, "base": "Record", "props": props})
    last = classes[-1]["name"]
    ops = []
    for i in range(rng.randrange(2, 8)):
        steps = [["a", g.pick(g0)] for g0 in ["abcde"] *
                 rng.randrange(1, 4)]
        steps[0][1] += "0"
        ops += [{"x": "x", "steps": steps[:k] + end}
                for k in range(1, len(steps) + 1)
                for end in ([], [g.pick([["set", "z"], ["i", 0], ["c"],
                                         ["a", "zz"]])])]
    return {"spec": {"classes": classes}, "pre": [], "threads": [ops],
            "setup": [{"o": "new", "cls": last, "p": {}, "to": "x"}]}


def play(case, salt, stats=None):
    """-> outcomes and final objects of the history under a set order."""
    w = World(Node(salt), case["spec"])
    w.T.ordered = True
    with w.node:
        res = [C.plain(w, op) for op in case["setup"]]
    s = C.run1(w, case["ops"], stats)
    if s.stuck:
        return {"stuck": 1}
    res += C.outs(s)
    for i, op in enumerate(case["setup"] + case["ops"]):
        if op["o"] == "hash":
            # a hash is different in every process, as for any text
            res[i] = [type(res[i][1]).__name__]
    return json.loads(json.dumps({"outs": res, "end": C.snaps(w)}))


PEERS = {}


def peer(case):
    hs = str(case["hs"])
    if hs == os.environ.get("PYTHONHASHSEED"):
        hs = "77"
    p = PEERS.get(hs)
    if p is None or p.poll() is not None:
        p = PEERS[hs] = subprocess.Popen(
            [sys.executable, "-W", "ignore", "-m", "dst.props.c19"],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True,
            cwd=os.path.dirname(os.path.dirname(os.path.dirname(
                os.path.abspath(__file__)))),
            env=dict(os.environ, PYTHONHASHSEED=hs))
    p.stdin.write(json.dumps(case) + "\n")
    p.stdin.flush()
    line = p.stdout.readline()
    if not line:
        raise RuntimeError("the peer process ended")
    return json.loads(line)


def serve():
    for line in sys.stdin:
        case = json.loads(line)
        try:
            out = play(case, case["salt"])
        except Exception as e:
            out = {"failed": type(e).__name__ + ": " + str(e)[:300]}
        sys.stdout.write(json.dumps(out) + "\n")
        sys.stdout.flush()


def lazies(case):
    return any("lazy" in p for c in case["spec"]["classes"]
               for p in c.get("props", ()))


def run(case, stats):
    ref = play(case, case["salt"], stats)
    others = []
    if case["salt2"] != case["salt"]:
        stats.fault("other_set_order")
        others.append(("another set order",
                       play(case, case["salt2"], stats)))
    if case["hs"]:
        stats.fault("other_hash_seed")
        others.append(("another hash seed", peer(case)))
    ops = case["setup"] + case["ops"]
    for how, got in others:
        if got == ref:
            continue
        if "outs" not in got or "outs" not in ref:
            return C.violation("differs", "a history fails in only one of "
                               "two processes", how=how, one=ref, two=got)
        part = False
        for op, a, b in zip(ops, ref["outs"], got["outs"]):
            # how far a failing comparison came, and hence which lazy values
            # it asked for, follows from the order of the differences
            if op["o"] == "diff" and a[0] == "exc" == b[0] and lazies(case):
                part = True
            if a != b:
                return C.violation(
                    "differs:" + op["o"],
                    "the same history has another result with " + how,
                    op=op, one=a, two=b)
            if part:
                break
        if part:
            continue
        return C.violation("differs:end", "the same history leaves other "
                           "objects with " + how,
                           one=ref["end"], two=got["end"])
    return None


if __name__ == "__main__":
    serve()
