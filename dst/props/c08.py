"""C08: diff reports exactly the differences."""
import copy
import re
import unicodedata

from .. import common as C
from .. import hist as H
from ..gen import Gen

RUNS = {"quick": 170, "thorough": 3000}
RULE = ("Each case: a random schema, objects and edited copies of them; up "
        "to 5 comparisons with random options are consumed step by step, "
        "interleaved with each other, abandoned, or hit by a failing "
        "compare_as function, in one or two preempted threads, under two "
        "different orders of all internal sets.  Every finished comparison "
        "must report exactly what a model computes from the slots and the "
        "schema.")
ASSUMES = ["Items without matching key are paired as documented by "
           "fuzzy_match: best score first, then by position.",
           "An item whose key cannot be hashed may be refused.",
           "Option duck_type is judged for independence of set order and "
           "pacing only."]


class Undiffable(Exception):
    pass


NOTH = type("Nothing", (), {"__repr__": lambda s: "NOTH"})()


def selected(paths, at):
    """Does the filter select anything at or below this path?"""
    if paths is None:
        return True
    for p in paths:
        if all(a is None or b is None or a == b for a, b in zip(p, at)):
            return True
    return False


BOX = (list, tuple, dict)


class Model:
    def __init__(self, w, opts):
        self.w = w
        self.sp = H.Spec(w)
        self.by = w.T.cspec
        o = dict(ignore_ws=True, ignore_case=False, unchanged=False,
                 moved=False, extraneous=False, fuzzy_match=True,
                 recurse=False, compare_filter=None,
                 ignore_empty_slots=False, ignore_empty_items=False)
        o.update(opts)
        self.o = o
        self.f = o["compare_filter"]
        self.out = []

    # ------------------------------------------------------ schema
    def props(self, r):
        name = r if isinstance(r, str) else type(r).__name__
        ps = {p["name"]: p for p in self.sp.props(name)}
        cls = self.w.T.cls.get(name) or type(r)
        if hasattr(cls, "json_data"):
            ps["unknown_json_keys"] = {"name": "unknown_json_keys",
                                       "t": "any", "ext": 1}
        return [ps[k] for k in sorted(ps)]

    def is_coll(self, o):
        return isinstance(o, self.sp.coll.Collection)

    def itemref(self, o):
        n = type(o).__name__
        return self.sp.item(n) or self.sp.tname(type(o).itemtype)

    # ------------------------------------------------------ values
    def text(self, v):
        if isinstance(v, str):
            if self.o["ignore_ws"]:
                v = " ".join(x for x in re.split(r"\s+", v) if x)
            if self.o["ignore_case"]:
                v = v.upper()
            v = unicodedata.normalize("NFC", v)
        return v

    def slot(self, r, p):
        d = vars(r)
        if p["name"] in d:
            v = d[p["name"]]
        elif p.get("lazy"):
            v = 7 if p["dm"] == "const" else "lz"
        elif "v1n" in p:
            v = p["v1n"]
        else:
            return NOTH
        if "ca" in p:
            if v is None:
                raise Undiffable("compare_as(None)")
            v = v.upper() if p["ca"] == "upper" else v.lower()
        return self.val(v)

    def val(self, v):
        v = self.text(v)
        if self.o["ignore_empty_slots"] and (v is None or isinstance(v, str)
                                             and not v):
            return NOTH
        return v

    def anything(self, v, at):
        """Is there anything that counts in this value?"""
        found = False
        if isinstance(v, self.sp.N.Record):
            if self.is_coll(v):
                it = self.itemref(v)
                if it[0] != "@":
                    found = self.vals([x for _, x in self.kv(v)])
                else:
                    for k, x in self.items(self.kv(v), it, at).values():
                        # with recurse, an item counts as such
                        found = self.o["recurse"] or \
                            self.anything(x, at + [k]) or found
            for p in self.props(v):
                q = at + [p["name"]]
                if p.get("ext") and not self.o["extraneous"] or \
                        not selected(self.f, q):
                    continue
                x = self.slot(v, p)
                if isinstance(x, BOX + (self.sp.N.Record,)):
                    found = self.anything(x, q) or found
                elif x is not NOTH:
                    found = True
            return found
        return self.vals(v.values() if isinstance(v, dict) else v)

    def vals(self, vs):
        found = False
        for v in vs:
            v = self.val(v)
            self.matched(v, [])
            found = found or v is not NOTH
        return found

    # ------------------------------------------------------ comparing
    def add(self, kind, a, b):
        self.out.append([kind, list(a), list(b)])

    def item(self, a, b, pa, pb):
        """Two items that belong together."""
        if type(a) is not type(b):
            self.add("modified", pa, pb)
            return False
        self.compare(a, b, pa, pb)
        return True

    def compare(self, a, b, pa, pb):
        if self.is_coll(a):
            self.coll(a, b, pa, pb)
        if isinstance(a, self.sp.N.Record):
            self.rec(a, b, pa, pb)
        elif isinstance(a, (list, tuple)):
            self.plain(list(enumerate(a)), list(enumerate(b)), pa, pb)
        else:
            self.plain(list(a.items()), list(b.items()), pa, pb)

    def rec(self, a, b, pa, pb):
        for p in self.props(a):
            n = p["name"]
            if p.get("ext") and not self.o["extraneous"]:
                continue
            qa, qb = pa + [n], pb + [n]
            if not selected(self.f, qa):
                continue
            x, y = self.slot(a, p), self.slot(b, p)
            box = (list, tuple, dict, self.sp.N.Record)
            if x is NOTH and y is NOTH:
                continue
            if (isinstance(x, box) or isinstance(y, box)) and \
                    type(x) is type(y):
                self.compare(x, y, qa, qb)
            elif self.o["ignore_empty_slots"] and (
                    x is NOTH and isinstance(y, box) or
                    y is NOTH and isinstance(x, box)):
                if self.anything(y if x is NOTH else x, qa):
                    self.add("added" if x is NOTH else "removed", qa, qb)
                elif self.o["unchanged"]:
                    self.add("none", qa, qb)
            elif x is NOTH:
                self.add("added", qa, qb)
            elif y is NOTH:
                self.add("removed", qa, qb)
            elif x != y:
                self.add("modified", qa, qb)
            elif self.o["unchanged"]:
                self.add("none", qa, qb)

    def same(self, ka, kb, pa, pb):
        """Items that are the same at these places."""
        if self.o["moved"] and ka != kb:
            self.add("moved", pa + [ka], pb + [kb])
        elif self.o["unchanged"]:
            self.add("none", pa + [ka], pb + [kb])

    def plain(self, xs, ys, pa, pb):
        """Collections of values: matched by value."""
        seen = []

        def hashed(kvs):
            out = {}
            n = {}
            for k, v in kvs:
                v = self.val(v)
                if v is NOTH:
                    continue
                v = self.matched(v, seen)
                i = n[v] = n.get(v, -1) + 1
                out[v, i] = k
            return out
        a, b = hashed(xs), hashed(ys)
        for v in a:
            if v in b:
                self.same(a[v], b[v], pa, pb)
        gone = [a[v] for v in a if v not in b]
        new = [b[v] for v in b if v not in a]
        for k in gone:
            if k in new:
                self.add("modified", pa + [k], pb + [k])
            else:
                self.add("removed", pa + [k], pb)
        for k in new:
            if k not in gone:
                self.add("added", pa, pb + [k])

    def matched(self, v, seen):
        """Which of the values seen is this equal to?"""
        self.judged(v)
        for j, x in enumerate(seen):
            if x is v or x == v:
                return j
        seen.append(v)
        return len(seen) - 1

    def judged(self, v):
        if isinstance(v, dict):
            v = list(v.values())
        if isinstance(v, (list, tuple, set, frozenset)):
            for x in v:
                self.judged(x)
            return
        if self.is_coll(v):
            raise Undiffable()      # may be equal to a plain list
        try:
            hash(v)
        except TypeError:
            raise Undiffable()

    @staticmethod
    def kv(c):
        v = vars(c)["_values"]
        return list(v.items()) if isinstance(v, dict) else list(enumerate(v))

    def coll(self, a, b, pa, pb):
        it = self.itemref(a)
        xs, ys = self.kv(a), self.kv(b)
        if it[0] != "@":
            return self.plain(xs, ys, pa, pb)

        A, B = self.items(xs, it, pa), self.items(ys, it, pa)
        if self.o["recurse"]:
            A, B = dict(A.values()), dict(B.values())
            for k in A:
                if k in B:
                    self.item(A[k], B[k], pa + [k], pb + [k])
                else:
                    self.add("removed", pa + [k], pb)
            for k in B:
                if k not in A:
                    self.add("added", pa, pb + [k])
            return
        for key in A:
            if key in B:
                (ka, x), (kb, y) = A[key], B[key]
                if self.item(x, y, pa + [ka], pb + [kb]):
                    self.same(ka, kb, pa, pb)
        gone = [k for k in A if k not in B]
        new = [k for k in B if k not in A]
        if self.o["fuzzy_match"]:
            scored = []
            for p in gone:
                for q in new:
                    m = [x == y for x, y in zip(p[0], q[0])]
                    hits = sum(1 for x, ok in zip(p[0], m)
                               if ok and not falsy(x))
                    miss = m.count(False) + abs(len(p[0]) - len(q[0]))
                    if hits:
                        scored.append((miss - hits, len(scored), p, q))
            for _, _, p, q in sorted(scored, key=lambda s: s[:2]):
                if p in gone and q in new:
                    gone.remove(p)
                    new.remove(q)
                    (ka, x), (kb, y) = A[p], B[q]
                    n = len(self.out)
                    self.item(x, y, pa + [ka], pb + [kb])
                    diff = any(d[0] != "none" for d in self.out[n:])
                    if self.o["moved"] and ka != kb:
                        self.add("moved", pa + [ka], pb + [kb])
                    elif self.o["unchanged"] and not diff:
                        self.add("none", pa + [ka], pb + [kb])
        for k in gone:
            self.add("removed", pa + [A[k][0]], pb)
        for k in new:
            self.add("added", pa, pb + [B[k][0]])

    def items(self, kvs, it, pa):
        """The items that count, by key and number."""
        out, n = {}, {}
        for k, v in kvs:
            if not selected(self.f, pa + [k]):
                continue
            key = self.key(v, it, pa + [k], True)
            if self.o["ignore_empty_items"] and blank(key):
                continue
            try:
                i = n[key] = n.get(key, -1) + 1
            except TypeError:
                raise Undiffable()
            out[key, i] = k, v
        return out

    def key(self, r, t, at, own=False):
        """The key of an item: its primary key, or else all compared
        slots."""
        if t[0] != "@" and t[:5] not in ("list:", "dict:"):
            return r
        if self.is_coll(r):
            it = self.itemref(r)
            kvs = self.kv(r)
            if isinstance(vars(r)["_values"], dict):
                # equal dicts may be in any order
                kvs.sort(key=lambda kv: str(kv[0]))
            return tuple(self.key(v, it, at + [k]) for k, v in kvs
                         if selected(self.f, at + [k]))
        # items are known by their own type, what is in slots by that of
        # the slot
        name = type(r).__name__ if own else t[1:]
        c = self.by.get(name, {})
        ps = {p["name"]: p for p in self.props(name)}
        cols = c.get("pk", ())
        if cols and self.f is not None and not all(
                selected(self.f, at + [n]) for n in cols):
            cols = ()
        if not cols:
            cols = [p["name"] for p in self.props(name)
                    if not p.get("ext") and selected(self.f, at + [p["name"]])]
        out = []
        for n in cols:
            p = ps[n]
            v = self.slot(r, p)
            if v is NOTH:
                v = None
            if isinstance(v, self.sp.N.Record):
                k = self.key(v, self.ref(v, p["t"]), at + [n])
                v = k
            out.append(v)
        out = tuple(out)
        try:
            hash(out)
        except TypeError:
            raise Undiffable()
        return out

    def ref(self, v, t):
        if t.startswith("u:"):
            # of several types that which the value is of
            return [x for x in t[2:].split("|") if x[0] == "@"
                    and isinstance(v, self.w.T.cls[x[1:]])][0]
        return t


def blank(x):
    if isinstance(x, tuple):
        return all(blank(y) for y in x)
    return x is None or isinstance(x, str) and not x


def falsy(x):
    if isinstance(x, tuple):
        return any(falsy(y) for y in x)
    return not x


# ---------------------------------------------------------------- cases
MODELLED = ("ignore_ws", "ignore_case", "unchanged", "moved", "extraneous",
            "fuzzy_match", "recurse", "compare_filter",
            "ignore_empty_slots", "ignore_empty_items")


def gen_opts(g, t):
    o = {}
    for k, p in (("unchanged", .12), ("moved", .15), ("extraneous", .15),
                 ("ignore_case", .1), ("recurse", .08),
                 ("ignore_empty_slots", .12), ("ignore_empty_items", .08),
                 ("duck_type", .05)):
        if g.chance(p):
            o[k] = True
    if g.chance(.12):
        o["fuzzy_match"] = False
    if g.chance(.08):
        o["ignore_ws"] = False
    if g.chance(.15):
        ps = []
        for _ in range(g.rng.randrange(1, 4)):
            q = g.path(t, bad=0, wild=.7)[0]
            if g.path_ok(ps + [q]):
                ps.append(q)
        o["compare_filter"] = ps
    if getattr(g, "twin", None) and g.chance(.5):
        o["compare_filter"] = twin_filter(g, t)
    return o


def variant(g, v):
    """A copy of a value with its collections shuffled, items repeated or
    missing, and fields of one item taken over by another."""
    if isinstance(v, list):
        return [variant(g, x) for x in v]
    if not isinstance(v, dict):
        if g.chance(.06) and type(v) in (int, bool):
            return float(v)
        return v
    v = {k: variant(g, x) for k, x in v.items()}
    if g.chance(.3):
        its = list(v.items())
        g.rng.shuffle(its)
        v = dict(its)
    if "$c" in v and isinstance(v["v"], list) and v["v"]:
        xs = v["v"]
        for _ in range(g.pick([0, 1, 1, 2, 3])):
            i = g.rng.randrange(len(xs))
            how = g.pick(["drop", "dup", "move", "cross", "cross", "strip"])
            if how == "drop" and len(xs) > 1:
                del xs[i]
            elif how == "dup":
                xs.insert(g.rng.randrange(len(xs) + 1), copy.deepcopy(xs[i]))
            elif how == "move":
                xs.insert(g.rng.randrange(len(xs)), xs.pop(i))
            else:
                a, b = xs[i], g.pick(xs)
                if not (isinstance(a, dict) and isinstance(b, dict) and
                        a.get("$r") and a.get("$r") == b.get("$r")):
                    continue
                if how == "cross" and b["p"]:
                    k = g.pick(sorted(b["p"]))
                    a["p"][k] = copy.deepcopy(b["p"][k])
                elif how == "strip" and len(a["p"]) > 1:
                    a["p"].pop(g.pick(sorted(a["p"])))
    return v


# values which are equal or look equal
CAP = 8000000       # steps
ALIKE = [{"x": 1, "y": 2}, {"y": 2, "x": 1}, {"x": 1.0, "y": 2}, {"x": 1},
         "{'x': 1}", [1], [1.0], "[1]", [True], [], {}, "[]", "{}",
         [{"x": 1, "y": [2]}], [{"y": [2], "x": 1}]]


def g_pick(rng, seq):
    return seq[rng.randrange(len(seq))]


def nesting(g, t, seen=()):
    """How many collections of records are nested in one another?"""
    kind, x = g.kind_of(t)
    if kind == "scalar" or t in seen or len(seen) > 5:
        return 0
    if kind == "rec":
        return max([nesting(g, p["t"], seen + (t,))
                    for p in g.props(x)] or [0])
    return (g.kind_of(x)[0] != "scalar") + nesting(g, x, seen + (t,))


def union_key(g):
    """Lets a class be identified by a slot of several types."""
    recs = [c for c in g.classes if "item" not in c]
    for c in recs[1:]:
        if c["name"] not in (b for x in recs for b in x["base"].split(",")) and \
                c["base"] in ("Record", "JsonRecord") and \
                not any(p["name"] == "uk" for p in c["props"]):
            r = recs[0]["name"]
            c["props"].append({"name": "uk", "req": 1, "t": g.pick([
                "u:@%s|str", "u:@%s|int"]) % r})
            c["pk"] = ["uk"]


def twins(g):
    """Gives a class two collections of the same records."""
    recs = [c for c in g.classes if "item" not in c]
    if len(recs) < 2:
        return None
    c, r = recs[-1], g.pick(recs[:-1])["name"]
    kind = g.pick(["list:@", "list:@", "dict:@"]) + r
    for n in ("tw1", "tw2"):
        c["props"].append({"name": n, "t": kind, "style": "isa"})
    g.twin = r
    return g.pick(["@", "@", "list:@", "dict:@"]) + c["name"]


def twin_filter(g, t):
    """Selects different parts of the twins' items."""
    ps = [p["name"] for p in g.props(g.twin)]
    pre = [None] if t[0] != "@" else []
    return [pre + [n, None, p] for n in ("tw1", "tw2")
            for p in g.rng.sample(ps, g.rng.randrange(1, len(ps) + 1))]


def gen(rng, tier):
    want = g_pick(rng, [0, 1, 1, 2, 2, 2])
    for _ in range(12):
        g = Gen(rng)
        g.subs = g.pick([0, 0, .15, .3])
        g.no_types = ("plist", "pdict") if g.chance(.7) else ()
        g.nest = g.pick([1, 1, 2, 3])
        if g.chance(.3):
            g.nest, g.pool = 2, ALIKE
            g.no_types = ("u",)
        g.no_types += ("u",) if g.chance(.7) else ()
        spec = g.gen_spec(json=.5, lazy=.06, lazyconst=1, ro=.05, req=.2,
                          dflt=.15, v1=.06, chk=.1, co=.1, ca=.15, ext=.15,
                          pk=.5, collprops=.3, colls=.5,
                          n=rng.randrange(1, 5), pku=.6)
        if g.chance(.15):
            union_key(g)
        if g.pool:
            for c in g.classes:
                if "item" not in c and not any(
                        b in g.by for b in c["base"].split(",")) and \
                        not any("," in x["base"] for x in g.classes):
                    c["props"].append({"name": "pl", "req": 1, "t": g.pick(
                        ["plist", "plist", "pdict"])})
        ts = [x for c in spec["classes"] for x in (
            "@" + c["name"], "list:@" + c["name"], "dict:@" + c["name"])
            if x[0] == "@" or "item" not in c]
        ts = [x for x in ts if nesting(g, x) >= want]
        if ts:
            break
    t = g.pick(ts) if ts else g.any_type()
    if g.chance(.15):
        t = twins(g) or t
    objs, setup = {}, []
    edits = []
    vals = [g.good(t, size=6) for _ in range(g.pick([1, 1, 2]))]
    for i, v in enumerate(vals):
        setup.append({"o": "build", "v": v, "to": "x%d" % i})
        objs["x%d" % i] = t
    for i in range(g.pick([1, 1, 2])):
        y = "y%d" % i
        # stays, where the variant cannot be built
        setup.append({"o": "deepcopy", "x": "x0", "to": y})
        if g.chance(.6):
            edits.append({"o": "build", "v": variant(g, vals[0]), "to": y})
        objs[y] = t
    edits += [g.mutate({y: t for y in objs if y[0] == "y"}, deep=.7, bad=0,
                      co=.1, fs=.1) for _ in range(rng.randrange(0, 9))]
    names = sorted(objs)
    nt = g.pick([1, 1, 1, 2])
    threads = [[] for _ in range(nt)]
    for k in range(rng.randrange(1, 6)):
        th = g.pick(threads)
        x, y = (g.pick(["x0", "y0"]), g.pick(names))
        th.append({"o": "dstart", "k": "g%d" % k, "x": x, "y": y,
                   "opts": gen_opts(g, t)})
        if g.chance(.1):
            th[-1]["opts"] = dict(next(
                (o["opts"] for T in threads for o in T), {}))
    for ti, th in enumerate(threads):
        starts = list(th)
        keys = [o["k"] for o in starts]
        out, openk = [], []
        while starts or openk:
            if starts and (not openk or g.chance(.4)):
                o = starts.pop(0)
                openk.append(o["k"])
                out.append(o)
                continue
            k = g.pick(openk)
            n = g.pick([1, 1, 2, 3, 5])
            o = {"o": "dnext", "k": k, "n": n}
            if g.chance(.04):
                o["cb"] = [[rng.randrange(1, 4), g.pick(["raise", "value",
                                                        "ki"])]]
            if g.chance(.04):
                o["fge"] = [rng.randrange(1, 60), g.pick(["KI", "ME"])]
            if g.chance(.05):
                o = {"o": "dclose", "k": k}
            out.append(o)
            if o["o"] == "dclose" or g.chance(.15):
                # to the end, some day
                openk.remove(k)
        for k in keys:
            if g.chance(.85):
                out.append({"o": "dnext", "k": k, "n": 10000})
        threads[ti] = out
    case = {"spec": spec, "salt": 0, "salt2": rng.randrange(1, 64),
            "setup": setup, "edits": edits, "threads": threads}
    if nt == 2:
        w = prepare(case, 0)
        traces = []
        for ops in threads:
            s = C.run1(w, ops, trace=True, cap=CAP)
            traces.append(s.threads[0].alltrace)
        if all(any(t) for t in traces):
            C.place_switches(rng, threads, traces, rng.randrange(1, 6), nt)
    return case


def prepare(case, salt):
    w = C.world(case, salt=salt)
    C.run1(w, case["edits"])
    return w


def run(case, stats):
    starts = {op["k"]: op for th in case["threads"] for op in th
              if op["o"] == "dstart"}
    got = []
    for salt in (0, case["salt2"]):
        w = prepare(case, salt)
        if salt:
            stats.fault("set_order")
        s = C.runN(w, case["threads"], stats, cap=CAP)
        if s.stuck:
            return C.violation("stuck", "a comparison does not end")
        # what was left open is consumed now
        fin = [{"o": "dnext", "k": k, "n": 100000} for k in sorted(w.gens)]
        s2 = C.run1(w, fin, cap=CAP)
        res = {}
        errs = {}
        hist = [h[3:] for h in s.history()] + \
            [(op, out) for (_, _, op, out) in s2.threads[0].history]
        for op, out in hist:
            if out[0] == "exc":
                errs[op["k"]] = out, op
        for k, gen_ in sorted(w.gens.items()):
            with w.node:
                res[k] = [gen_[2], w.T.diffs(gen_[1])[1:]]
            if gen_[2] == "abandoned":
                stats.fault("abandoned")
        got.append(res)
        for k, op in sorted(starts.items()):
            opts = op["opts"]
            fault = errs.get(k) and (errs[k][1].get("cb") or
                                     errs[k][1].get("fge"))
            if k not in res:
                if k in errs and fault:
                    continue
                st, found = "failed", []
            else:
                st, found = res[k]
            if st == "abandoned" or fault and st == "failed":
                continue
            if set(opts) - set(MODELLED):
                continue
            with w.node:
                m = Model(w, opts)
                try:
                    a, b = w.objs[op["x"]], w.objs[op["y"]]
                    if type(a) is not type(b):
                        raise Undiffable()
                    m.compare(a, b, [], [])
                    want = sorted(m.out, key=repr)
                except Undiffable:
                    want = None
            if want is None:
                stats.probe("not_judged")
                continue
            stats.probe("judged")
            for kind in {d[0] for d in want}:
                stats.probe("expect_" + kind)
            if st == "failed":
                return C.violation(
                    "error", "a comparison fails", op=op,
                    outcome=errs.get(k, [None])[0], expected=want,
                    x=C.snaps(w, [op["x"]]), y=C.snaps(w, [op["y"]]))
            if found != want:
                extra = [d for d in found if d not in want]
                lost = [d for d in want if d not in found]
                return C.violation(
                    "differences", "not exactly the differences are "
                    "reported", op=op, salt=salt, wrong=extra[:6],
                    missing=lost[:6], found=len(found), expected=len(want),
                    x=C.snaps(w, [op["x"]]), y=C.snaps(w, [op["y"]]))
    for k in starts:
        a, b = (r.get(k) for r in got)
        if a and b and a[0] == b[0] == "done" and a[1] != b[1]:
            return C.violation(
                "order", "the differences depend on the order of a set",
                op=starts[k], first=a[1][:8], second=b[1][:8])
        if {(a or [None])[0], (b or [None])[0]} == {"done", "failed"} and \
                len(case["threads"]) == 1 and not any(
                    o.get("fge") or o.get("cb") for o in case["threads"][0]):
            return C.violation("order", "whether a comparison succeeds "
                               "depends on the order of a set", op=starts[k],
                               first=a and a[0], second=b and b[0])
    return None
