"""C10: a visitor visits every populated selected slot once, at its path."""
import copy

from .. import common as C
from .. import refsel
from ..gen import Gen
from ..world import EMPTY, reduced, vfn
from .c09 import opath

RUNS = {"quick": 200, "thorough": 4000}
RULE = ("Each case: a random schema and object graph, and 1-3 preempted "
        "threads making visits and round trips by cast with the user's own "
        "functions: mapping, dropping, stopping at a type, reducing items "
        "and properties interleaved, abandoning a visit part way, starting "
        "another visit from inside; with filters (shared or not) and "
        "options.  A part of the visits is hit by a failing function, an "
        "interrupt or an allocation failure and made again afterwards.  "
        "Every call of the user's function is compared, with its path, "
        "property and value, with an independent walk of the graph.")
ASSUMES = ["The declared type of a slot governs what is below it; a slot "
           "without one is taken by the class of its value.",
           "Filters select whole slots and items, those they select in part "
           "included."]
CB = [a for a in C.CB_ACTS if a not in ("none", "junk", "falsy")]


# ------------------------------------------------------------ generator
def gen(rng, tier):
    g = Gen(rng)
    g.u2 = 1.5
    spec = g.gen_spec(json=.4, lazy=.12, lazyconst=1, ro=.05, req=.2,
                      dflt=.15, v1=.12, chk=.1, co=.1, ext=.2, collprops=.6,
                      minp=g.pick([0, 1, 1, 1]), maxp=g.pick([2, 5, 5]))
    objs, setup = {}, []
    for i in range(rng.randrange(1, 4)):
        t = g.any_type()
        objs["x%d" % i] = t
        setup.append(g.make(t, "x%d" % i))
    w = C.world({"spec": spec, "setup": setup})
    more = []
    for i in range(rng.randrange(0, 4)):
        x, t = g.target(objs)
        if t.startswith("u:") or g.kind_of(t)[0] != "rec":
            continue
        p = g.pick(g.props(t[1:]) or [None])
        if p is None:
            continue
        op = {"o": "set", "x": x, "a": p["name"], "v": None} \
            if g.chance(.3) else {"o": "del", "x": x, "a": p["name"]}
        if p["t"] == "any" and g.chance(.8):
            op = {"o": "set", "x": x, "a": p["name"],
                  "v": g.good("@" + g.pick(g.records())["name"])}
        if C.run1(w, [op]).threads[0].history[0][3][0] == "ok":
            more.append(op)
    setup += more
    case = {"spec": spec, "salt": rng.randrange(50), "setup": setup}
    for i in range(2):
        x = g.pick(sorted(objs))
        if g.chance(.4):
            setup.append({"o": "mkmfs", "to": "F%d" % i,
                          "paths": paths(g, w, objs, x)})
            g.filters = getattr(g, "filters", []) + [("F%d" % i, objs[x])]
    unions = any(p["t"].startswith("u:") for c in spec["classes"]
                 for p in c.get("props", ()))
    nt = g.pick([1, 1, 2, 2, 3])
    threads = []
    for t in range(nt):
        ops = []
        for i in range(rng.randrange(1, 4 if nt > 1 else 6)):
            if ops and g.chance(.3):
                op = copy.deepcopy(g.pick(ops))     # once more
                rename(op, "%d.%d" % (t, i))
            else:
                op = vis_op(g, w, objs, "%d.%d" % (t, i), t)
            ops.append(op)
        threads.append(ops)
    case["threads"] = threads
    traces = []
    for ops in threads:
        w = C.world(case)
        s = C.run1(w, copy.deepcopy(ops), trace=True)
        traces.append(s.threads[0].alltrace)
        for i, op in enumerate(list(ops)):
            if g.chance(.25):
                ncb = s.threads[0].opcbs[i]
                if ncb and g.chance(.7):
                    op["cb"] = [[rng.randrange(1, ncb + 1), g.pick(
                        [a for a in CB if a != "type" or not unions])]]
                elif traces[-1][i]:
                    C.place_fault(rng, op, traces[-1][i])
                again = copy.deepcopy(op)
                again.pop("cb", 0), again.pop("flt", 0)
                rename(again, op["id"] + "r")
                again["sw"] = []
                ops.append(again)
                traces[-1].append(traces[-1][i])
    if nt > 1:
        C.place_switches(rng, threads, traces, rng.randrange(1, 7), nt)
    return case


def rename(op, oid):
    op["id"] = oid
    if "nest" in op:
        op["nest"]["op"]["id"] = oid + "n"


def paths(g, w, objs, x):
    out = []
    with w.node:
        for _ in range(g.rng.randrange(1, 4)):
            p = opath(g, w, w.objs[x], objs[x], g.pick([0, .4]), hit=.93)[0] \
                if g.chance(.9) else g.path(objs[x])[0]
            p = [0 if isinstance(k, int) and k < 0 else k for k in p]
            if g.path_ok(out + [p]):
                out.append(p)
    return out


def vis_op(g, w, objs, oid, tid, depth=0):
    x = g.pick(sorted(objs))
    t = objs[x]
    op = {"o": "vis", "x": x, "id": oid, "t": t}
    if g.chance(.3):
        op["extraneous"] = g.chance(.7)
    unions = any(p["t"].startswith("u:") for c in g.classes
                 for p in c.get("props", ()))
    if g.chance(.2) and not unions:
        # (among several types, whatever maps to something true is taken)
        op["apply_empty_slots"] = True
    if not depth and g.chance(.25):
        op["o"] = "viscast"
        if g.chance(.5):
            op.pop("extraneous", 0), op.pop("apply_empty_slots", 0)
            op["reuse"] = "t%d" % tid
        return op
    fs = [f for f, ft in getattr(g, "filters", []) if ft == t]
    if fs and g.chance(.6):
        op["F"] = g.pick(fs)
    elif g.chance(.4):
        op["filter"] = paths(g, w, objs, x)
    if g.chance(.25):
        op["ignore_none"] = False
    if g.chance(.25):
        op["ignore_empty_string"] = True
    op["fn"] = g.pick(["id", "id", "tag", "none", "empty"])
    op["red"] = g.pick(["def", "def", "inter", "first", "plain",
                        "partial%d" % g.rng.randrange(0, 4)])
    if g.chance(.15) and not unions:
        # (among several types, a true result says that the type fits)
        op["stop"] = g.pick(g.classes)["name"]
        op["stopv"] = g.pick([None, "S"])
    k, it = g.kind_of(t)
    if k != "rec" and g.chance(.25):
        op["plain"] = 1
    elif k != "rec" and g.chance(.1) and not depth:
        op["wrong"] = g.pick([17, True, 1.5])
        op.pop("stop", 0)
    elif k == "rec" and g.by[it]["base"] in g.by and g.chance(.5):
        op["as"] = g.by[it]["base"]
    if not depth and g.chance(.15):
        op["nest"] = {"at": g.rng.randrange(1, 6), "op": vis_op(
            g, w, objs, oid + "n", tid, 1)}
    return op


# ------------------------------------------------------------ oracle
class Walk:
    """The calls a visit owes, and its result, worked out from the schema and
    the stored values."""

    def __init__(self, w, case, op, reader=None):
        self.w, self.op = w, op
        g = Gen(None)
        g.classes = case["spec"]["classes"]
        g.by = {c["name"]: c for c in g.classes}
        self.g = g
        self.R = w.N.Record
        self.J = w.node.mod("normalize.record.json").JsonRecord
        self.C = w.node.mod("normalize.coll").Collection
        self.calls = []
        self.ext = op.get("extraneous", False)
        self.empties = op.get("apply_empty_slots", False)
        self.cast = op["o"] == "viscast"
        self.tree = None
        ps = op.get("filter")
        if "F" in op:
            ps = [s["paths"] for s in case["setup"] if s.get("to") == op["F"]
                  ][0]
        if ps:
            self.tree = refsel.Ref.tree(ps)
        self.fn, self.red = op.get("fn", "id"), op.get("red", "def")

    def selected(self, path):
        n = self.tree
        if n is None:
            return True
        for k in path:
            if n is all:
                return True
            n = n.get(None if None in n else k)
            if n is None:
                return False
        return True

    def props(self, t, o):
        ps = self.g.props(t[1:]) if t[0] == "@" else []
        pt = self.w.T.cls[t[1:]] if t[0] == "@" else type(o)
        if issubclass(pt, self.J):
            ps = ps + [{"name": "unknown_json_keys", "t": "any", "ext": 1}]
        return ps

    def dropped(self, v):
        return v is None and self.op.get("ignore_none", True) or \
            v == "" and self.op.get("ignore_empty_string", False)

    def leaf(self, path, pname, v):
        self.calls.append((path, pname, v))
        return vfn(self.fn, path, v)

    def value(self, o, t, path, pname):
        if t == "any" and isinstance(o, self.R):
            t = "@" + type(o).__name__
        elif t.startswith("u:"):
            for x in t[2:].split("|"):
                if x[0] == "@" and isinstance(o, self.w.T.cls[x[1:]]):
                    return self.node(o, x, path)
            return self.leaf(path, pname, o)
        if t in ("plist", "pdict") or self.g.kind_of(t)[0] == "scalar":
            return self.leaf(path, pname, o)
        if o is None and self.op.get("stop") != t[1:]:
            return None         # nothing below an unset slot
        return self.node(o, t, path)

    def node(self, o, t, path):
        if self.op.get("stop") == (t[1:] if t[0] == "@" else
                                   type(o).__name__):
            return self.op["stopv"]
        k, it = self.g.kind_of(t)
        props, some = [], False
        for p in self.props(t, o):
            n = p["name"]
            if p.get("ext") and not self.ext or \
                    not self.selected(path + [n]):
                continue
            some = True
            d = vars(o) if isinstance(o, self.R) else {}
            if n in d:
                v = d[n]
            elif p.get("lazy"):
                v = "lz" if p["dm"] == "conststr" else 7
            elif "v1n" in p and d is not None:
                v = p["v1n"]
            elif self.empties:
                v = EMPTY
            else:
                continue
            n0 = len(self.calls)
            m = self.leaf(path + [n], n, v) if v is EMPTY else \
                self.value(v, p["t"], path + [n], n)
            if self.cast and self.empties and v is not EMPTY and \
                    self.dropped(m):
                # not in the result, and so not there when it is cast
                del self.calls[n0:]
                self.leaf(path + [n], n, EMPTY)
            if not self.dropped(m):
                props.append((n, m))
        items = None
        if k != "rec":
            items = []
            c = vars(o)["_values"] if isinstance(o, self.C) else o
            leafy = self.g.kind_of(it)[0] == "scalar"
            for key, v in (enumerate(c) if k == "list" else c.items()):
                if leafy and not self.selected(path + [key]):
                    continue
                m = self.value(v, it, path + [key], None)
                if not self.dropped(m):
                    items.append([key, m])
        if self.red[:7] == "partial":
            return "partial"
        if self.red != "def":
            # (what is false tells the visitor that a type does not fit)
            return (props or items) and {"P": dict(props), "I": items} \
                or {}
        r = dict(props)
        if items is not None:
            agg = dict(map(tuple, items)) if k == "dict" else \
                [v for _, v in items]
            if not some:
                return agg
            r["values"] = agg
        return r


def find(w, root, path):
    """What stands at the path, by direct access."""
    C_ = w.node.mod("normalize.coll").Collection
    o = root
    for i, k in enumerate(path):
        if isinstance(o, C_):
            c = vars(o)["_values"]
            if isinstance(k, int) or isinstance(c, dict) and k in c and not (
                    i == len(path) - 1 and k in vars(o)):
                o = c[k]
                continue
        elif isinstance(o, (list, dict)):
            o = o[k]
            continue
        o = vars(o)[k] if k in vars(o) else getattr(o, k)
    return o


def castable(w, wk, o, t, top=True):
    """Does a default visit keep everything needed to make it again?"""
    if t == "any":
        return o is not None and not isinstance(o, wk.R)
    if t.startswith("u:"):
        # casting to one of several types takes a grok() of the user's own
        return "@" not in t and o is not None
    if t in ("plist", "pdict") or wk.g.kind_of(t)[0] == "scalar":
        return o is not None
    k, it = wk.g.kind_of(t)
    if not isinstance(o, wk.R) or \
            k == "rec" and type(o) is not w.T.cls[it]:
        # of which sub-class an object was is not kept
        return False
    d = vars(o)
    for p in wk.props(t, o):
        if p.get("ext") and not wk.ext:
            if p.get("req"):
                return False
            continue
        if p["name"] in d:
            if not castable(w, wk, d[p["name"]], p["t"], False):
                return False
        elif "df" in p or "dv" in p:
            return False
        elif "v1n" in p and p["v1n"] is not None:
            return False
    if k == "rec":
        return True
    c = d["_values"]
    return all(castable(w, wk, x, it, False) for x in
               (c if k == "list" else c.values()))


def sig(w, calls):
    return sorted(([list(map(repr, p)), n, w.T.snap(v)] for p, n, v in calls),
                  key=repr)


def judge(w, case, op, out, stats, hit=()):
    """-> violation or None, for a visit that was not disturbed itself"""
    t = op["t"]
    o = w.objs[op["x"]]
    if t[0] == "@" and type(o) is not w.T.cls[t[1:]]:
        t = "@" + type(o).__name__      # an object of a sub-class
    log = w.vlog.get(op["id"], [])
    if "wrong" in op:
        if out[0] == "ok" or log or out[1] != "VisitorUnpackError" and \
                not (op.get("flt") or op.get("cb")):
            return C.violation("wrong", "a value that is no collection is "
                               "visited as one", op=op, outcome=out)
        return None
    wk = Walk(w, case, op)
    root = vars(o)["_values"] if op.get("plain") else o
    want = wk.node(root, "@" + op["as"] if "as" in op else t, [])
    got = [(e[0], e[1], e[2]) for e in log]
    faulted = bool(op.get("cb") or op.get("flt"))
    cast = op["o"] == "viscast"
    if cast and not castable(w, wk, o, t):
        stats.probe("cast_not_judged")
        return None
    if cast:
        # slots that are not set but read as None
        wk.calls = [c for c in wk.calls if c[2] is not None]
    if any(h[3] in ("attr", "key") for h in hit):
        # (a slot that fails in this way is taken for an empty one)
        got = [e for e in got if e[2] is not EMPTY]
    part = faulted or op.get("red", "def")[:7] == "partial"
    A, B = sig(w, got), sig(w, wk.calls)
    more = list(A)
    for x in B:
        if x in more:
            more.remove(x)
    less = [] if part else list(B)
    for x in [] if part else A:
        if x in less:
            less.remove(x)
    if more or less:
        return C.violation(
            "calls:" + ("twice" if [x for x in more if x in B] else
                        "more" if more else "less"),
            "the user's function is not called once for each populated "
            "selected slot at its path", op=op, outcome=out, more=more[:4],
            less=less[:4])
    if not cast:
        for p, n, v in got:
            if v is EMPTY:
                continue
            if find(w, root, p) is not v and not wk.op.get("plain"):
                return C.violation(
                    "value", "the value passed is not the one at its path",
                    op=op, path=p, passed=w.T.snap(v))
    if not faulted and not op.get("plain"):
        for p, n, v in got:
            if v is EMPTY:
                continue
            # a name in a dict collection may be a key or a property
            if len(p) > 0 and any(
                    isinstance(find(w, root, p[:i]), (dict, wk.C))
                    and isinstance(k, str) for i, k in enumerate(p)):
                if n is not None:
                    continue
            r = w.N.FieldSelector(p).get(o)
            if (r is not v) if not cast else w.T.snap(r) != w.T.snap(v):
                return C.violation(
                    "path", "a field selector does not find the value at "
                    "the path", op=op, path=p, passed=w.T.snap(v),
                    found=w.T.snap(r))
    if faulted:
        # (what is of several types may refuse one with a TypeError)
        unions = any(p["t"].startswith("u:") for c in w.T.cspec.values()
                     for p in c.get("props", ()))
        if any(e[3] for e in log) and out[0] == "ok" and not (
                unions and any(a == "type" for _, a in op.get("cb", ()))):
            return C.violation("swallowed", "a failure of the user's "
                               "function is lost", op=op, outcome=out)
        if out[0] == "ok" and not cast and any(
                h[3] in ("raise", "value", "ki", "me") + (
                    () if unions else ("type",)) and not h[5]
                for h in hit):
            return C.violation("swallowed", "a failure to read a slot is "
                               "lost", op=op, outcome=out)
        return None
    if out[0] != "ok":
        return C.violation("fails", "a visit fails that nothing disturbs",
                           op=op, outcome=out)
    if cast:
        r = w.vkeep[op["id"]]
        stats.probe("cast_judged")
        exts = any(p.get("ext") for c in case["spec"]["classes"]
                   for p in c.get("props", ()))
        if type(r) is not type(o) or not r == o or (
                not exts or wk.ext) and w.T.snap(r) != w.T.snap(o) and \
                not unknown(o):
            return C.violation(
                "cast", "casting the result of a visit does not give an "
                "equal record", op=op, got=w.T.snap(r), want=w.T.snap(o))
        return None
    if not part and out[1] != w.T.snap(want):
        return C.violation(
            "result", "the result of a visit is not made of the mapped "
            "values", op=op, got=out[1], want=w.T.snap(want))
    return None


def unknown(o):
    return "unknown_json_keys" in repr_vars(o, 0)


def repr_vars(o, depth):
    d = getattr(o, "__dict__", None)
    out = []
    if isinstance(o, (list, tuple)):
        d = dict(enumerate(o))
    elif isinstance(o, dict):
        d = o
    if d is None or depth > 12:
        return out
    for k, v in d.items():
        out.append(k)
        out += repr_vars(v, depth + 1)
    return out


def run(case, stats):
    w = C.world(case)
    s = C.runN(w, case["threads"], stats) if len(case["threads"]) > 1 else \
        C.run1(w, case["threads"][0], stats)
    if s.stuck:
        return C.violation("stuck", "a visit does not end")
    with w.node:
        for th in s.threads:
            for i, (_, _, op, out) in enumerate(th.history):
                stats.probe(op["o"])
                v = judge(w, case, op, out, stats, [
                    h for h in s.struck if h[0] == th.tid and h[4] == i])
                if v:
                    return v
                n = op.get("nest")
                if n and len(w.vlog.get(op["id"], ())) >= n["at"] and \
                        not (op.get("cb") or op.get("flt")):
                    stats.probe("nested")
                    v = judge(w, case, n["op"], ["ok", w.T.snap(
                        w.vkeep[n["op"]["id"]])] if n["op"]["id"] in w.vkeep
                        else ["?"], stats)
                    if v:
                        return v
    return None
