"""Histories of changes to an object graph, with faults, and what must hold
of every object in it (worked out from the schema, not from the library)."""
import datetime
import numbers

from . import common as C
from .gen import Gen
from .sim import Opaque

BIN = ("list", "dict", "tuple")


def gen_hist(rng, n, spec_opts, faults=.35, bad=.3, mut=None):
    """-> case with spec, setup and ops.  ``n``: number of ops."""
    g = Gen(rng)
    o = dict(json=.4, lazy=.15, ro=.2, req=.3, dflt=.25, v1=.1, chk=.3,
             co=.3, collprops=.4, dmeth=.1, acc=.04)
    o.update(spec_opts)
    js = o.pop("json")
    g.nones = o.pop("nones", 0)
    spec = g.gen_spec(json=js, **o)
    for c in spec["classes"]:
        # custom item coercion
        if c.get("item") in ("int", "str") and g.chance(.5):
            c["coitem"] = g.pick([c["item"], c["item"], "ident", "first"])
    objs, setup = {}, []
    for i in range(rng.randrange(1, 4)):
        t = g.any_type()
        objs["x%d" % i] = t
        setup.append(g.make(t, "x%d" % i))
    case = {"spec": spec, "salt": rng.randrange(50), "setup": setup}
    w = C.world(case)
    ops = []
    for i in range(n):
        # each step is tried out, so that later steps find what it made
        for _ in range(3):
            op = step(g, dict(objs), i, bad)
            s = C.run1(w, [dict(op)])
            th = s.threads[0]
            if th.history[0][3][:2] != ["exc", "KeyError"] or g.chance(.3):
                break
        if op.get("to") in w.objs:
            objs[op["to"]] = made(op, objs)
        if g.chance(faults):
            place(rng, g, op, th.opsteps[0], th.opcbs[0])
        ops.append(op)
    case["ops"] = ops
    return case, g


def made(op, objs):
    if "cls" in op:
        return "@" + op["cls"]
    return objs[op["x"]]


def step(g, objs, i, bad):
    rng = g.rng
    r = rng.random()
    if r < .1:
        c = g.pick(g.records())["name"]
        kw = {}
        for p in g.props(c):
            if "lazy" in p and g.chance(.6):
                continue
            if p.get("req") and g.chance(.95) or g.chance(.7):
                kw[p["name"]] = g.value(p["t"], p, bad / 2, .3, objs)
        n = "n%d" % i
        objs[n] = "@" + c
        return {"o": "new", "cls": c, "p": kw, "to": n}
    if r < .16:
        c = g.pick(g.records())["name"]
        d = g.doc(c)
        if d and g.chance(.4):
            k = g.pick(sorted(d))
            d[k] = g.pick(["zz", None, [1], {"a": 1}, 0, -1, "7"])
        if d and g.chance(.15):
            d.pop(g.pick(sorted(d)))
        n = "n%d" % i
        objs[n] = "@" + c
        return {"o": "from_json", "cls": c, "doc": d, "to": n,
                "via": g.pick(["fn", "fn", "ctor"]) if g.is_json(c)
                else "fn"}
    if r < .2:
        x = g.pick(sorted(objs))
        objs["n%d" % i] = objs[x]
        return {"o": g.pick(["deepcopy", "repickle", "recopy"]), "x": x,
                "proto": rng.randrange(2, 6), "to": "n%d" % i}
    if r < .25:
        x = g.pick(sorted(objs))
        same = [n for n in sorted(objs) if objs[n] == objs[x]]
        if g.chance(.5):
            return {"o": "mfs", "x": x, "m": "patch", "y": g.pick(same),
                    "paths": g.mfs_paths(objs[x]), "copy": g.chance(.5)}
        return {"o": "mfs", "x": x, "m": "delete",
                "paths": g.mfs_paths(objs[x]), "force": g.chance(.5)}
    if r < .29:
        x = g.pick(sorted(objs))
        op = {"o": "mfs", "x": x, "m": "get", "paths": g.mfs_paths(objs[x]),
              "to": "n%d" % i}
        objs["n%d" % i] = objs[x]
        return op
    if r < .33:
        x, t = g.target(objs)
        if not t.startswith("u:") and g.kind_of(t)[0] == "rec" and \
                g.props(t[1:]):
            return {"o": "get", "x": x, "a": g.pick(g.props(t[1:]))["name"]}
    return g.mutate(objs, bad=bad, fs=.2)


def place(rng, g, op, steps, cbs):
    """A fault for an op that took so many steps and callbacks without."""
    if cbs and g.chance(.75):
        op["cb"] = [[rng.randrange(1, cbs + 1), g.pick(C.CB_ACTS)]]
        if g.chance(.3):
            op["cb"].append([rng.randrange(1, cbs + 1), g.pick(C.CB_ACTS)])
    elif steps:
        n = rng.randrange(1, min(steps, 30) + 1) if g.chance(.6) \
            else rng.randrange(1, steps + 1)
        op["fge"] = [n, g.pick(["KI", "KI", "ME"])]


# ------------------------------------------------------------ invariants
class Spec:
    """What the schema says, from the case alone."""

    def __init__(self, w):
        self.w = w
        self.N = w.N
        self.by = w.T.cspec
        self.coll = w.node.mod("normalize.coll")

    def props(self, name):
        out = []
        if name in self.by:
            c = self.by[name]
            for b in c["base"].split(","):
                out += self.props(b)
            out += c.get("props", ())
        return out

    def item(self, name):
        while name in self.by:
            if "item" in self.by[name]:
                return self.by[name]["item"]
            name = self.by[name]["base"].split(",")[0]
        return None

    def conforms(self, t, v):
        if t == "any":
            return True
        if t in ("int", "integer"):
            return isinstance(v, int)
        if t == "num":
            return isinstance(v, numbers.Number)
        if t == "float":
            return isinstance(v, float)
        if t in ("str", "uni"):
            return isinstance(v, str)
        if t == "bool":
            return isinstance(v, bool)
        if t == "date":
            return isinstance(v, datetime.date) and \
                not isinstance(v, datetime.datetime)
        if t == "rdate":
            return isinstance(v, datetime.date)
        if t == "dt":
            return isinstance(v, datetime.datetime)
        if t == "pos":
            return isinstance(v, int) and v > 0
        if t == "evn":
            return isinstance(v, int) and v % 2 == 0
        if t == "shortstr":
            return isinstance(v, str) and len(v) < 8
        if t == "plist":
            return isinstance(v, list)
        if t == "pdict":
            return isinstance(v, dict)
        if t == "none":
            return v is None
        if t.startswith("u:"):
            return any(self.conforms(x, v) for x in t[2:].split("|"))
        if t.startswith("list:"):
            return isinstance(v, self.coll.ListCollection) and \
                self.items(v, t[5:], list)
        if t.startswith("dict:"):
            return isinstance(v, self.coll.DictCollection) and \
                self.items(v, t[5:], dict)
        return isinstance(v, self.w.T.cls[t[1:]])

    def items(self, v, it, box):
        c = vars(v).get("_values", self)
        if type(c) is not box:
            return False
        return all(self.conforms(it, x) for x in
                   (c if box is list else c.values()))

    def check(self, p, v):
        c = p.get("chk")
        return not c or (v > 0 if c == "pos" else len(v) < 8)

    # -------------------------------------------------------- walking
    def walk(self, roots):
        """All records and collections reachable: yields (path, object)."""
        seen = set()
        todo = [(n, o) for n, o in sorted(roots.items())]
        while todo:
            path, o = todo.pop()
            if o is None or isinstance(o, (int, str, float, Opaque)):
                continue
            if id(o) in seen:
                continue
            seen.add(id(o))
            if isinstance(o, dict):
                todo += [("%s[%r]" % (path, k), v) for k, v in o.items()]
            elif isinstance(o, (list, tuple)):
                todo += [("%s[%d]" % (path, i), v) for i, v in enumerate(o)]
            elif isinstance(o, self.N.Record):
                yield path, o
                todo += [("%s.%s" % (path, k), v)
                         for k, v in vars(o).items()]

    def misfit(self, roots):
        """First slot or item that does not conform, or None."""
        for path, o in self.walk(roots):
            name = type(o).__name__
            d = vars(o)
            if name in self.by:
                it = self.item(name)
                if it is not None:
                    box = list if isinstance(
                        o, self.coll.ListCollection) else dict
                    if not self.items(o, it, box):
                        return path, "item of %s" % it
                for p in self.props(name):
                    if p["name"] not in d:
                        continue
                    v = d[p["name"]]
                    if not self.conforms(p["t"], v):
                        return "%s.%s" % (path, p["name"]), "type " + p["t"]
                    if not self.check(p, v):
                        return "%s.%s" % (path, p["name"]), \
                            "check " + p["chk"]
            elif isinstance(o, self.coll.Collection):
                itt = type(o).itemtype
                it = self.tname(itt)
                if it is not None:
                    box = list if isinstance(
                        o, self.coll.ListCollection) else dict
                    if not self.items(o, it, box):
                        return path, "item of %s" % it
        return None

    def tname(self, itt):
        """The type reference of a generated collection's item type."""
        for k, v in (("int", int), ("str", str), ("float", float)):
            if itt is v:
                return k
        for k, v in self.w.T.sub.items():
            if itt is v:
                return k
        for k, v in self.w.T.cls.items():
            if itt is v:
                return "@" + k
        return None

    def missing(self, roots, fresh=(), defaults=False):
        """First required (or defaulted) property that is not populated."""
        for path, o in self.walk(roots):
            name = type(o).__name__
            if name not in self.by:
                continue
            d = vars(o)
            for p in self.props(name):
                if p.get("req"):
                    if p["name"] not in d:
                        return "%s.%s" % (path, p["name"]), "required, unset"
                    if p["t"] == "any" and d[p["name"]] is None:
                        return "%s.%s" % (path, p["name"]), "required, None"
                elif defaults and ("df" in p or p.get("dv") or "dm" in p) and \
                        not p.get("lazy") and p["name"] not in d:
                    return "%s.%s" % (path, p["name"]), "default, unset"
        return None
