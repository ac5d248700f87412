"""C02: types declared concurrently or in any order behave the same."""
import copy

from .. import common as C
from ..gen import Gen

RUNS = {"quick": 55, "thorough": 900}
RULE = ("Each case: item types declared first; then 2-3 threads declare 1-3 "
        "classes or property kinds each and ask for collection types, with "
        "up to 7 preemptions from a traced dry run; afterwards every class is "
        "driven with conforming, coercible and refused values and compared "
        "with the same declaration made alone in a fresh process.")
ASSUMES = ["Names of property kinds composed by the library are not part of "
           "the behaviour."]
OPTS = dict(v1=.15, ca=.3, lazy=.15, ro=.2, jn=.3, ext=.15, dflt=.35)


def decl_threads(g, nt, opts=OPTS, user=True):
    rng = g.rng
    g.kinds = {}
    threads = [[] for _ in range(nt)]
    probes = {}
    lists = {}
    base = list(g.classes)
    twin = None
    for ti in range(nt):
        mine = list(base)
        kinds = []
        for j in range(rng.randrange(1, 4)):
            r = rng.random()
            recs = [c for c in base if "item" not in c]
            if r < .2:
                t = g.pick(["@" + g.pick(recs)["name"], "int", "pos"]
                           if recs else ["int", "pos"])
                threads[ti].append({"o": "list_of", "t": t,
                                    "m": g.pick(["list", "dict"])})
                continue
            name = "T%d%d" % (ti, j)
            if r < .33 and user and len(kinds) < 2:
                k = g.gen_kind("K" + name)
                kinds.append(k)
                g.kinds[k["name"]] = k
                if g.chance(.3):
                    # its argument is used too early
                    d = {"name": "E" + name, "base": "Record", "props": [],
                         "bad": dict(g.gen_bad(), how="arg",
                                     arg=k["name"].lower() + "_arg")}
                    threads[ti].append({"o": "declare", "c": d})
                threads[ti].append(k)
            # only classes every thread can rely on may be referred to
            g.classes = mine
            js = g.json and g.chance(.8)
            if r < .3:
                c = g.gen_coll(name, js and bool(g.records(json=True)), {})
            elif twin is not None and g.chance(.5):
                c = copy.deepcopy(twin)
                c["name"] = name
                g.by[name] = c
            else:
                c = g.gen_class(name, js, opts)
                if ti == 0 and twin is None and \
                        deps(g, c) <= {x["name"] for x in base}:
                    twin = c
            g.classes = base
            if "item" not in c and kinds and c is not twin:
                used = {p["name"] for p in g.props(name)}
                for n in ("ka", "kb"):
                    if n not in used and g.chance(.6):
                        c["props"].append(g.kind_prop(g.pick(kinds), n))
            if "item" not in c and recs and c is not twin and g.chance(.2):
                # a property of another class is declared here as well
                src = g.pick(recs)["name"]
                used = {p["name"] for p in g.props(name)}
                for p in g.props(src):
                    if set(p) <= {"name", "t", "req", "ro", "style", "chk"} \
                            and p["name"] not in used:
                        c["props"].append(dict(p, take=src))
            if user and g.chance(.12) and "item" not in c and c is not twin:
                d = copy.deepcopy(c)
                d["name"] += "x"
                d["bad"] = g.gen_bad()
                threads[ti].append({"o": "declare", "c": d})
            threads[ti].append({"o": "declare", "c": c})
            for p in c.get("props", ()):
                if p["t"][:5] in ("list:", "dict:") and not (
                        set(p) & {"jn", "ji", "jo"}) \
                        and p.get("style") != "json":
                    lists.setdefault(p["t"], []).append([name, p["name"]])
    return threads, lists


def deps(g, c):
    """Names of classes declared in the threads that c needs."""
    out = set()

    def ref(t):
        for x in t.replace("|", ":").split(":"):
            if x[:1] == "@":
                need(x[1:])

    def need(n):
        if n in g.by and n not in out:
            out.add(n)
            cc = g.by[n]
            for b in cc["base"].split(","):
                need(b)
            if "item" in cc:
                ref(cc["item"])
            for p in cc.get("props", ()):
                ref(p["t"])
    for b in c["base"].split(","):
        need(b)
    if "item" in c:
        ref(c["item"])
    for p in c.get("props", ()):
        ref(p["t"])
    return out


def kinds_of(g, c):
    """The property kinds it needs."""
    out = set()
    for n in [c] + [g.by[n] for n in sorted(deps(g, c))]:
        out |= {p["kind"] for p in n.get("props", ()) if "kind" in p}
    return sorted(out)


def gen(rng, tier):
    g = Gen(rng)
    spec = g.gen_spec(n=rng.randrange(1, 3), json=.6, colls=.2)
    spec = {"classes": list(spec["classes"])}
    nt = g.pick([1, 2, 2, 2, 3])
    threads, lists = decl_threads(g, nt)
    if g.chance(.35):
        # classes of one name in several modules
        cs = [c for c in spec["classes"] + [
            op["c"] for ops in threads for op in ops
            if op["o"] == "declare"] if "item" not in c]
        mods = ["one", "two", "p.one", "p.two", "p.q.one", "p.q.two", "q.one"]
        rng.shuffle(mods)
        for c in cs:
            if mods and g.chance(.6):
                c["as"] = "Item"
                c["mod"] = mods.pop()
    probe = []
    for ops in threads:
        for op in ops:
            if op["o"] == "declare" and "bad" not in op["c"]:
                probe.append({"c": op["c"]["name"],
                              "ops": g.probe_class(op["c"]["name"],
                                                   "p_" + op["c"]["name"])})
    for c in spec["classes"]:
        # those which were there before
        if g.chance(.35):
            probe.append({"c": c["name"], "old": 1, "ops": g.probe_class(
                c["name"], "p_" + c["name"])})
    same = [{"o": "gtypes", "t": t[5:], "m": t[:4], "in": v}
            for t, v in sorted(lists.items())]
    case = {"spec": spec, "salt": rng.randrange(50), "threads": threads,
            "probe": probe, "same": same,
            "needs": {op["c"]["name"]: kinds_of(g, op["c"]) + sorted(
                n for n in deps(g, op["c"])
                if n not in [c["name"] for c in spec["classes"]])
                for ops in threads for op in ops if op["o"] == "declare"}}
    if nt > 1:
        w = C.world(case)
        traces = [C.run1(w, copy.deepcopy(ops), trace=True)
                  .threads[0].alltrace for ops in threads]
        if any(any(t) for t in traces):
            C.place_switches(rng, threads, traces, rng.randrange(1, 8), nt)
    return case


def strip(op):
    return {k: v for k, v in op.items() if k not in ("sw", "flt", "cb")}


def run(case, stats):
    w = C.world(case)
    s = C.runN(w, case["threads"], stats)
    if len(case["threads"]) == 1:
        stats.fault("order")
    if s.stuck:
        return C.violation("stuck", "declarations do not finish: %s" % s.stuck)
    hist = s.history()
    decls = {}
    for (_, _, tid, op, out) in hist:
        if op["o"] == "declare":
            decls[op["c"]["name"]] = (strip(op), out)
        elif op["o"] == "kind":
            decls[op["name"]] = (strip(op), out)
    alone = {}
    for (_, _, tid, op, out) in hist:
        op = strip(op)
        if op["o"] == "declare":
            name = op["c"]["name"]
            need = [strip(decls[n][0]) for n in case["needs"].get(name, ())
                    if n in decls]
            w2 = C.world(case)
            ref = C.outs(C.run1(w2, need + [op]))[-1]
            alone[name] = w2
        else:
            ref = C.outs(C.run1(C.world(case), [op]))[0]
        if ref != out:
            return C.violation(
                "declare:" + op["o"],
                "a declaration does not go as it does alone",
                op=op, alone=ref, got=out, thread=tid)
    r = C.outs(C.run1(w, case["same"])) if case["same"] else []
    for op, out in zip(case["same"], r):
        if out[0] != "ok" or not all(out[1]):
            return C.violation(
                "not-one-type", "declarations naming one item type do not "
                "share one collection type", op=op, got=out)
    for pr in case["probe"]:
        if pr.get("old"):
            alone[pr["c"]] = C.world(case)
        if pr["c"] not in alone:
            continue
        C.COUNTER[0] = 0
        got = C.outs(C.run1(w, pr["ops"], stats))
        C.COUNTER[0] = 0
        ref = C.outs(C.run1(alone[pr["c"]], pr["ops"]))
        for op, a, b in zip(pr["ops"], ref, got):
            if a != b:
                return C.violation(
                    "behaves:" + op["o"], "a class behaves otherwise than "
                    "when declared alone", cls_spec=decls.get(pr["c"], [0])[0], op=op,
                    alone=a, got=b)
    return None
