"""C01: shared reading from several threads = alone in a fresh process."""
import copy

from .. import common as C
from ..gen import Gen

RUNS = {"quick": 260, "thorough": 3000}
RULE = ("Each case: a random schema, shared objects, earlier activity in the "
        "process (successful and failing), then 2-3 threads each making 1-3 "
        "reading calls with 1-5 preemptions placed by a traced dry run.")
ASSUMES = ["Objects with lazy properties are left to C12."]


def gen(rng, tier):
    g = Gen(rng)
    g.odd = .1
    # the threads do the same at the same time with objects of one type
    twins = g.chance(.35)
    spec = g.gen_spec(json=.9 if twins else .65, lazy=0,
                      jio=.8 if twins else .15)
    objs = {}
    setup = []
    for i in range(rng.randrange(1, 4)):
        t = g.any_type() if not objs or g.chance(.4) else \
            objs[g.pick(sorted(objs))]
        n = "x%d" % i
        objs[n] = t
        setup.append(g.make(t, n))
        if g.chance(.3) or twins and not i:
            objs["y%d" % i] = t
            setup.append(g.make(t, "y%d" % i))
    burst = g.chance(.2 if twins else .45)
    warm = []
    wobjs = dict(objs)
    for i in range(0 if burst else g.pick([0, 0, 1, 2, 4])):
        r = rng.random()
        if r < .5:
            warm.append(g.read_op(wobjs))
        elif r < .7:
            t = g.any_type()
            wobjs["w%d" % i] = t
            warm.append(g.make(t, "w%d" % i))
        elif r < .85:
            recs = g.records()
            c = g.pick(recs)["name"]
            kw = g.kwargs(c)
            for p in g.props(c):
                b = g.bad(p["t"], p)
                if b is not None and g.chance(.5):
                    kw[p["name"]] = b
            warm.append({"o": "new", "cls": c, "p": kw, "to": "junk"})
        else:
            op = g.read_op(wobjs)
            if op["o"] in ("visit", "to_json", "diff"):
                op["cb"] = [[rng.randrange(1, 4), "raise"]]
            warm.append(op)
    nt = 2 if twins else g.pick([2, 2, 2, 3])
    threads = []
    first = g.read_op({n: t for n, t in objs.items()
                       if n in ("x0", "y0")} if twins else objs, g.pick(["to_json", "json_data", "visit", "str",
                                    "diff", "mfs"] + (
                          ["to_json", "json_data"] if twins
                          else ["getchain"]))
                      if (burst or twins) and g.chance(.6) else None)
    same = burst or twins or g.chance(.5)
    for t in range(nt):
        ops = []
        for j in range(1 if twins else rng.randrange(1, 4)):
            if g.chance(.3) or j == 0 and same:
                op = dict(first)
                if twins and "x" in op and t % 2:
                    # the same of another object
                    op["x"] = "xy"[op["x"][0] == "x"] + op["x"][1:]
            else:
                op = g.read_op(objs)
            ops.append(op)
        threads.append(ops)
    case = {"spec": spec, "salt": rng.randrange(0, 50), "setup": setup,
            "pre": warm, "threads": threads,
            "pick": rng.randrange(12)}
    w = C.world(case)
    if warm:
        C.run1(w, copy.deepcopy(warm))
    traces = []
    for ops in threads:
        # a burst meets every thread with cold caches
        wt = C.world(case) if burst and traces else w
        s = C.run1(wt, copy.deepcopy(ops), trace=True)
        traces.append(s.threads[0].alltrace)
    if burst:
        C.place_switches(rng, threads, traces, rng.randrange(1, 4), nt,
                         once=True)
    else:
        C.place_switches(rng, threads, traces, rng.randrange(1, 7), nt)
    return case


def run(case, stats):
    w = C.world(case)
    if case["pre"]:
        C.run1(w, case["pre"], stats)
    s = C.runN(w, case["threads"], stats)
    if s.stuck:
        return C.violation("stuck", "threads do not finish: %s" % s.stuck)
    hist = s.history()
    strip = lambda op: {k: v for k, v in op.items() if k != "sw"}
    # the same calls one after another in a process of their own ...
    uniq = []
    for (_, _, _, op, _) in hist:
        if strip(op) not in uniq:
            uniq.append(strip(op))
    seq = C.outs(C.run1(C.world(case), uniq))

    def alone(op):
        return C.outs(C.run1(C.world(case), [strip(op)]))[0]
    # ... and one of them really alone
    pick = case.get("pick", 0) % len(uniq)
    seq[pick] = alone(uniq[pick])
    for (_, _, tid, op, out) in hist:
        if seq[uniq.index(strip(op))] != out:
            ref = alone(op)
            if ref == out:
                out = seq[uniq.index(strip(op))]
            return C.violation(
                "differs:" + op["o"],
                "a reading call differs from the same call made alone in a "
                "fresh process", op=op, alone=ref, got=out, thread=tid)
    return None
