"""C20: following what is not set ('0' accessors) is always safe and typed."""
import copy
import datetime
import json
import numbers

from .. import common as C
from .. import hist as H
from ..gen import Gen

RUNS = {"quick": 260, "thorough": 5000}
RULE = ("Each case: a random schema (unions of types, subtypes, inherited "
        "properties, types with methods, generated collection types, "
        "properties named like another one's accessor), objects with many "
        "unset values, and 1-2 threads each following 1-6 paths of "
        "attributes, indexes, slices and calls through '0' accessors, with "
        "preemptions, interrupts and allocation failures; every path that "
        "was not itself hit must end as a walk over the schema and the "
        "populated values says: the value, a false placeholder naming the "
        "declared types, or the documented refusal; no object changes.")
ASSUMES = ["Lazy properties are C12's.",
           "Slices of what cannot be subscripted are not tried."]
ATTRS = ["upper", "real", "append", "no_such", "no_such0", "hi", "year",
         "keys"]


def gen(rng, tier):
    g = Gen(rng)
    g.u2 = g.pick([.8, 3])
    g.ucoll = .4
    g.recw = 8
    g.fill = g.pick([.1, .3, .6])
    same = rng.random() < .2
    if same:
        g.no_types = ("list", "dict")
        g.recw = 14
        g.fill = .1
    spec = g.gen_spec(rng.randrange(3 if same else 1, 5), json=.3, lazy=0, v1=0, chk=.05,
                      req=.05, dflt=.05, ext=.1, ro=.1, collprops=.4, maxp=6,
                      inherit=.4, acc=.05)
    for c in spec["classes"]:
        if rng.random() < .35:
            c["meth"] = rng.sample(["__call__", "__getitem__", "hi"],
                                   rng.randrange(1, 3)) \
                if "item" not in c else ["hi"]
    objs, setup = {}, []
    for i in range(rng.randrange(1, 3)):
        t = g.any_type() if rng.random() < .3 else \
            "@" + g.pick(g.records())["name"]
        objs["x%d" % i] = t
        setup.append(g.make(t, "x%d" % i))
    if same or rng.random() < .3:
        # several classes of one name, if no collections are made of them
        text = json.dumps([spec, setup])
        for c in spec["classes"]:
            if "item" not in c and rng.random() < .8 and \
                    ":@" + c["name"] not in text.replace("u:@", "@"):
                c["as"] = "Item"
    case = {"spec": spec, "salt": rng.randrange(50), "setup": setup,
            "pre": []}

    def some(t):
        """Types a name or index of this type leads to."""
        if t.startswith("u:"):
            return g.pick(t[2:].split("|"))
        return t

    w = C.world(case)
    m = Model(w)

    def step(t, first):
        """-> (step, type it leads to)"""
        t = some(t)
        kk, xx = g.kind_of(t)
        r = rng.random()
        if kk in ("list", "dict") and r < .75:
            if r < .1:
                return ["s", rng.randrange(3), rng.randrange(3)], t
            return ["i", rng.randrange(-2, 3)
                    if kk == "list" else g.pick("kwxyz")], xx
        if kk != "scalar" and r < .93 and g.props(t[1:]):
            p = g.pick(g.props(t[1:]))
            return ["a", p["name"] + (
                "0" if rng.random() < (.95 if first else .3)
                else "")], p["t"]
        if t == "any" and r < .5:
            return g.pick([["a", "zz"], ["i", 3], ["c"], ["s", 0, 1],
                           ["c", 2]]), t
        return (["a", g.pick(ATTRS)] if r < .93 else
                g.pick([["i", 0], ["c"], ["a", "hi"]])), "any"

    def nav():
        x = g.pick(sorted(objs))
        t = objs[x]
        steps = []
        for _ in range(rng.randrange(1, 7)):
            # mostly on to where nothing is set
            for i in range(g.pick([1, 4, 4, 4, 4])):
                new = step(t, not steps)
                with w.node:
                    r = m.walk({"x": x, "steps": steps + [new[0]]})
                if r and (r[0] == "empty" or i < 2 and r[0] == "val" and
                          str(r[1])[:5] in ("['rec", "['col")):
                    break
            steps.append(new[0])
            t = new[1]
            if r and r[0] == "exc":
                break
        if rng.random() < .4:
            steps.append(g.pick([
                ["set", g.pick(["zz", "zz", "_zz", "__zz__", "a0"])],
                ["seti", 0], ["c"], ["i", 1], ["iter"],
                ["in", "x"], ["eq", "foo"], ["eq", None], ["a", "no_such"]]))
        return {"o": "nav", "x": x, "steps": steps}
    threads = []
    first = nav()
    for t in range(g.pick([1, 1, 2, 2, 3])):
        ops = []
        for i in range(rng.randrange(1, 14 if same else 7)):
            ops.append(nav() if rng.random() < .7 else
                       copy.deepcopy(first))
        threads.append(ops)
    case["pre"] = [nav() for _ in range(g.pick([0, 0, 2]))]
    if case["pre"]:
        C.run1(w, copy.deepcopy(case["pre"]))
    traces = []
    for ops in threads:
        s = C.run1(C.world(case), copy.deepcopy(ops), trace=True)
        traces.append(s.threads[0].alltrace)
    if len(threads) > 1:
        C.place_switches(rng, threads, traces, rng.randrange(1, 5),
                         len(threads), once=rng.random() < .5)
    for ops, tr in zip(threads, traces):
        for op, t in zip(ops, tr):
            if t and rng.random() < .2:
                C.place_fault(rng, op, t)
    case["threads"] = threads
    return case


class Model:
    """What a path leads to, from the case's schema and the raw values."""

    def __init__(self, w):
        self.w = w
        self.sp = H.Spec(w)
        self.by = self.sp.by
        self.name = {c: n for n, c in w.T.cls.items()}

    def flat(self, t):
        """Type references of a declared type, as a set."""
        return set(t[2:].split("|")) if t.startswith("u:") else {t}

    def prop(self, c, name):
        ps = [p for p in self.sp.props(c) if p["name"] == name]
        return ps[-1] if ps else None

    def named(self, c, name):
        """('slot' | 'safe', property) a class has under a name, or None."""
        # the nearest class which declares the name itself, or the property
        # whose accessor it is
        if c in self.by:
            here = {p["name"]: p for p in self.by[c].get("props", ())}
            if name in here:
                return "slot", here[name]
            if name[-1:] == "0" and name[:-1] in here and \
                    name[-2:-1] not in "0123456789" and \
                    self.prop(c, name) is None:
                return "safe", here[name[:-1]]
            for b in self.by[c]["base"].split(","):
                r = self.named(b, name)
                if r is not None:
                    return r
        return None

    def has(self, t, what):
        """Do values of a (non-any) type have a name?"""
        if t in self.plain:
            return what != "__call__" and hasattr(self.plain[t], what)
        if t[0] == "@":
            c = t[1:]
            todo = [c]
            while todo:
                d = todo.pop()
                if d in self.by:
                    if what in self.by[d].get("meth", ()):
                        return True
                    todo += self.by[d]["base"].split(",")
            while c in self.by:
                c = self.by[c]["base"].split(",")[0]
            return what == "__getitem__" and self.item(t) is not None or \
                what != "__call__" and hasattr(
                    self.sp.coll.ListCollection
                    if c in LISTS or c[:5] == "list:" else
                    self.sp.coll.DictCollection
                    if c in DICTS or c[:5] == "dict:" else object,
                    what)
        if t[:5] in ("list:", "dict:"):
            return what != "__call__" and hasattr(
                self.sp.coll.ListCollection if t[:5] == "list:" else
                self.sp.coll.DictCollection, what)
        raise KeyError(t)

    def item(self, t):
        if t[:5] in ("list:", "dict:"):
            return t[5:]
        if t[0] == "@":
            return self.sp.item(t[1:])
        return None

    plain = {"int": int, "integer": numbers.Integral, "str": str, "uni": str, "pos": int,
             "evn": int, "shortstr": str, "float": float, "bool": bool,
             "date": datetime.date, "rdate": datetime.date, "dt": datetime.datetime,
             "plist": list, "pdict": dict, "num": numbers.Number,
             "none": type(None)}

    def typenames(self, ts):
        if "any" in ts:
            return ["any"]
        out = set()
        for t in ts:
            if t in ("num", "integer", "uni"):
                out.add({"num": numbers.Number, "integer": numbers.Integral,
                         "uni": str}[t])
                continue
            r = self.w.T.ref(t)
            for x in r if isinstance(r, tuple) else (r,):
                out.add(x)
        return sorted(x.__name__ for x in out)

    def walk(self, op):
        x = self.w.objs[op["x"]]
        ts = None                     # a placeholder for these types
        coll = self.sp.coll
        for i, (k, *a) in enumerate(op["steps"]):
            if ts is None:
                if not isinstance(x, self.w.N.Record) or k not in "ai" or \
                        k == "i" and not isinstance(x, coll.Collection):
                    break
                if k == "i":
                    v = vars(x)["_values"]
                    try:
                        x = v[a[0]]
                    except (IndexError, KeyError) as e:
                        return ["exc", i, [type(e).__name__]]
                    continue
                c = self.name.get(type(x), type(x).__name__)
                n = self.named(c, a[0])
                if n is None:
                    if self.attr(x, a[0]):
                        return None   # a method of the object
                    return ["exc", i, ["AttributeError"]]
                v = vars(x)
                if n[1]["name"] in v:
                    x = v[n[1]["name"]]
                elif n[0] == "slot":
                    return ["exc", i, ["AttributeError"]]
                else:
                    ts = self.flat(n[1]["t"])
                continue
            free = "any" in ts
            if k == "eq":
                return ["eq", False, True]
            if k in ("set", "seti"):
                return ["exc", i, ["BadAssignment", "EmptyAttributeError",
                                   "TypeError"]]
            if k == "a":
                if free:
                    continue
                new = set()
                found = False
                for t in ts:
                    n = self.named(t[1:], a[0]) if t[0] == "@" else None
                    if n is not None:
                        found = True
                        new |= self.flat(n[1]["t"])
                    elif self.has(t, a[0]):
                        found = True
                        new.add("any")
                if not found:
                    return ["exc", i, ["AttributeError", "EmptyAttributeError",
                                       "NoSuchAttribute"]]
                ts = new
            elif k == "s":
                if not free and not any(self.has(t, "__getitem__")
                                        for t in ts):
                    return None
            elif k in ("i", "iter", "in"):
                new = set()
                for t in ts:
                    if t == "any":
                        new.add("any")
                    elif self.item(t) is not None:
                        new |= self.flat(self.item(t))
                    elif self.has(t, "__getitem__"):
                        new.add("any")
                if not new and k == "in":
                    return ["exc", i, ["TypeError"]]
                if not new:
                    return ["exc", i, ["EmptyAttributeError",
                                       "NotSubscriptable", "TypeError"]]
                if k == "iter":
                    return ["iter", 0]
                if k == "in":
                    return ["in", False]
                ts = new
            elif k == "c":
                if not free and not any(self.has(t, "__call__") for t in ts):
                    return ["exc", i, ["EmptyAttributeError", "NotCallable",
                                       "TypeError"]]
                ts = {"any"}
        if ts is None:
            return ["val", self.w.T.snap(x)]
        return ["empty", False, "False(", self.typenames(ts)]

    def attr(self, x, name):
        return hasattr(type(x), name)


LISTS = ("RecordList", "JsonRecordList")
DICTS = ("DictCollection", "JsonRecordDict")


def run(case, stats):
    w = C.world(case)
    m = Model(w)
    if case["pre"]:
        C.run1(w, case["pre"], stats)
    before = C.snaps(w)
    s = C.runN(w, case["threads"], stats)
    if s.stuck:
        return C.violation("stuck", "following what is not set does not end",
                           stuck=str(s.stuck))
    for th in s.threads:
        for h in th.history:
            op, out = h[2], h[3]
            if out[0] != "ok":
                if op.get("flt"):
                    continue
                return C.violation("fails", "following a path fails", op=op,
                                   got=out)
            with w.node:
                want = m.walk(op)
            got = out[1]
            if want is None:
                continue
            text = None
            if got[0] == "exc":
                text = got[3]
                got = got[:3]
            if got != want:
                return C.violation(
                    "nav:" + want[0], "following a path does not end as the "
                    "schema and the values say", op=op, want=want, got=got,
                    text=text)
            if text is not None and want[2][-1] == "NoSuchAttribute" and \
                    "'%s'" % op["steps"][want[1]][1] not in text:
                return C.violation("text", "the refusal does not name the "
                                   "attribute", op=op, got=text)
    after = C.snaps(w)
    if after != before:
        return C.violation("changed", "following a path changes an object",
                           before=before, after=after)
    return None
