"""C06: typed collections behave like built-in lists and dicts."""
import copy

from .. import common as C
from ..gen import Gen
from ..sim import InjectedFault

RUNS = {"quick": 420, "thorough": 7000}
RULE = ("Each case: a typed list or dict (generated or declared, with record, "
        "simple, constrained or JSON items, custom item coercion) and up to "
        "24 operations with inputs in all forms, of which iterators and item "
        "coercions fail at a chosen item; every result, error kind and the "
        "contents after every step are compared with a built-in list or dict "
        "given the coerced items.")
ASSUMES = ["Arguments of index, count, remove and in are conforming values."]


def gen(rng, tier):
    g = Gen(rng)
    spec = g.gen_spec(json=.4, colls=.3, lazy=0, pk=.4)
    r = rng.random()
    recs = g.records()
    kind = g.pick(["list", "list", "dict"])
    it = g.pick(["int", "str", "pos", "evn", "shortstr", "float",
                 "@" + g.pick(recs)["name"]])
    js = False
    if r < .45:
        t = "%s:%s" % (kind, it)
    else:
        js = g.json and it[0] == "@" and g.chance(.5)
        base = {"list": "RecordList", "dict": "DictCollection"}[kind]
        if js:
            base = {"list": "JsonRecordList", "dict": "JsonRecordDict"}[kind]
        c = {"name": "K", "base": base, "item": it}
        if it == "int" and g.chance(.5):
            c["coitem"] = "int"
        if it == "str" and g.chance(.5):
            c["coitem"] = "str"
        if it in ("int", "str") and g.chance(.2):
            c["coitem"] = g.pick(["ident", "none", "first"])
        g.classes.append(c)
        g.by["K"] = c
        t = "@K"
    if kind == "dict" and not js:
        g.odd_keys = g.pick([0, 0, .2])
    fail = g.pick([0, .2, .5])
    bad = g.pick([0, .15, .4])
    init = g.pick(["none", "values", "values", "form"])
    new = {"o": "new", "cls": t, "args": [], "kw": {}, "to": "x"}
    if t == "@K":
        new["cls"] = "K"
    if init != "none":
        if kind == "list":
            v = g.items_in(it, bad, .3, fail, forms="lll" if js else "ltigl")
            if g.chance(.1):
                v = g.mapping((g.key(), g.good(it)) for _ in range(3))
        else:
            op = g.dict_op("x", it, bad, .3, fail, read=0)
            while op["m"] != "update":
                op = g.dict_op("x", it, bad, .3, fail, read=0)
            v = op["kw"] if op.get("kw") else op["args"][0] \
                if op["args"] else {}
            if isinstance(v, list):
                # a sequence of pairs is a sequence of items here
                if g.chance(.3):
                    v.insert(g.rng.randrange(len(v) + 1), g.good(it))
                v = {"$it": v}
            if g.chance(.1):
                v = [g.good(it) for _ in range(2)]
        if g.chance(.04):
            v = g.pick([5, "abc", {"$x": "o"}])
        new["kw"]["values"] = v
    ops = [new]
    y = copy.deepcopy(new)
    y["to"] = "y"
    y["kw"] = {"values": {"k": g.good(it)} if kind == "dict" else
               [g.good(it) for _ in range(2)]}
    ops.append(y)
    f = g.list_op if kind == "list" else g.dict_op
    for i in range(rng.randrange(3, 24)):
        r = rng.random()
        if r < .05:
            n = rng.randrange(0, 4)
            w = (lambda: g.value(it, None, bad)) if g.chance(.4) else \
                (lambda: g.good(it))
            v = [w() for _ in range(n)] if kind == "list" else \
                g.mapping((g.key(), w()) for _ in range(n))
            ops.append({"o": "eqplain", "x": "x", "v": v})
        elif r < .075:
            ops.append({"o": "eq", "x": "x", "y": "y"})
        elif r < .095 and kind == "list":
            # another one made of this one
            ops.append(dict(copy.deepcopy(y),
                            kw={"values": {"$ref": g.pick("xy")}}))
        elif r < .12 and kind == "list":
            ops.append({"o": "add", "x": "x", "v": g.pick([
                {"$ref": "y"}, [], [g.value(it, None, bad / 3)
                                    for _ in range(2)]])})
            if g.chance(.6):
                ops[-1]["to"] = "y"
        elif r < .17:
            n = g.pick(["y", "y", "x"])
            m = "extend" if kind == "list" else "update"
            if kind == "list" and g.chance(.5):
                ops.append({"o": "item", "x": "x", "m": "set",
                            "k": g.slice(), "v": {"$ref": n}})
            else:
                ops.append({"o": "m", "x": "x", "m": m,
                            "args": [{"$ref": n}]})
        else:
            op = f("x", it, bad, .3, fail)
            ops.append(op)
    if any(c.get("coitem") for c in spec["classes"]) or it in (
            "pos", "shortstr"):
        for op in ops[2:]:
            if g.chance(.25):
                op["cb"] = [[rng.randrange(1, 4), g.pick(
                    ["raise", "value", "type", "key", "attr"])]]
    return {"spec": spec, "salt": 0, "ops": ops, "t": t, "kind": kind,
            "item": it, "js": js}


class Uncoercible(Exception):
    pass


class Model(C.World):
    """The built-in list or dict; items are coerced on their way in."""

    def setup(self, case):
        self.kind = case["kind"]
        it = case["item"]
        with self.node:
            self.itemtype = self.T.ref(it)
            cs = self.T.cspec.get("K")
            from ..world import fn1
            self.coerce = fn1(cs["coitem"]) if cs and "coitem" in cs \
                else self.itemtype

    def co(self, v):
        if isinstance(v, self.itemtype):
            return v
        try:
            r = self.coerce(v)
        except Exception:
            raise Uncoercible()
        if not isinstance(r, self.itemtype):
            raise Uncoercible()
        return r

    def pairs(self, v):
        """What a dict is updated from, as (key, coerced) pairs."""
        if isinstance(v, dict) or hasattr(v, "keys"):
            for k in v.keys():
                yield k, self.co(v[k])
        else:
            for k, x in v:
                yield k, self.co(x)

    def op_new(self, op):
        v = self._dq(op["kw"].get("values"))
        if self.kind == "list":
            if v is None:
                r = []
            elif isinstance(v, dict):
                r = [self.co(v[k]) for k in sorted(v)]
            elif isinstance(v, str) or not hasattr(v, "__iter__"):
                raise Uncoercible()
            else:
                r = list(self.co(x) for x in v)
        else:
            if v is None:
                r = {}
            elif isinstance(v, (list, tuple)):
                r = {i: self.co(x) for i, x in enumerate(v)}
            elif isinstance(v, str) or not (
                    isinstance(v, dict) or hasattr(v, "__next__")):
                raise Uncoercible()
            elif isinstance(v, dict):
                r = dict(self.pairs(v))
            else:
                r = {}
                for i, x in enumerate(v):
                    if isinstance(x, tuple) and len(x) == 2:
                        r[x[0]] = self.co(x[1])
                    else:
                        r[i] = self.co(x)
        self.objs[op["to"]] = r
        return r

    def op_m(self, op):
        x = self._x(op)
        a = self._dq(op.get("args", []))
        m = op["m"]
        if self.kind == "list":
            if m == "append":
                return x.append(self.co(a[0]))
            if m == "extend":
                if a[0] is x:
                    return x.extend(x)
                return x.extend(self.co(i) for i in a[0])
            if m == "insert":
                return x.insert(a[0], self.co(a[1]))
            return getattr(x, m)(*a)
        if m == "update":
            kw = self._dq(op.get("kw", {}))
            if a:
                for k, v in self.pairs(a[0]):
                    x[k] = v
            for k, v in kw.items():
                x[k] = self.co(v)
            return None
        r = getattr(x, {"itertuples": "items", "iteritems": "items",
                        "iterkeys": "keys", "itervalues": "values"}.get(
                            m, m))(*a)
        return list(r) if op.get("list") else r

    def op_item(self, op):
        x, k = self._x(op), self._dq(op["k"])
        if op["m"] == "get":
            return x[k]
        if op["m"] == "del":
            del x[k]
            return
        v = self._dq(op["v"])
        if isinstance(k, slice):
            if v is x:
                v = list(x)
            x[k] = [self.co(i) for i in v]
        else:
            # built-in evaluation order: the item exists before it is stored
            x[k] = self.co(v)

    def op_iter(self, op):
        x = self._x(op)
        return list(x)

    def op_eqplain(self, op):
        x, v = self._x(op), self._dq(op["v"])
        v = [self.co(i) for i in v] if self.kind == "list" else \
            {k: self.co(i) for k, i in v.items()}
        return [x == v, x != v]

    def op_add(self, op):
        x, v = self._x(op), self._dq(op["v"])
        r = x + [self.co(i) for i in v]
        if "to" in op:
            self.objs[op["to"]] = r
        return r


def contents(w, kind, name="x"):
    with w.node:
        x = w.objs.get(name)
        if x is None:
            return None
        v = getattr(x, "_values", x)
        if kind == "list":
            if type(v) is not list:
                return ["type", type(v).__name__]
            return w.T.snap(v)
        if type(v) is not dict:
            return ["type", type(v).__name__]
        return [[k, w.T.snap(i)] for k, i in v.items()]


def norm(out):
    """A typed collection as a result counts as its contents."""
    if out[0] == "ok" and isinstance(out[1], list) and out[1][:1] == ["coll"]:
        return ["ok", out[1][2]]
    return out


def run(case, stats):
    w = C.world(case)
    m = Model(C.Node(0), case["spec"])
    m.setup(case)
    kind = case["kind"]
    before = None
    for op in case["ops"]:
        if op["o"] != "new" and "x" not in w.objs:
            break
        s = C.run1(w, [op], stats)
        if s.stuck:
            return C.violation("stuck", "an operation does not end", op=op)
        got = C.outs(s)[0]
        sm = C.run1(m, [op])
        ref = C.outs(sm)[0]
        if sm.stuck:
            return None
        if case["t"] != "@K" or not case["js"]:
            cbs = s.threads[0].opcbs[0], sm.threads[0].opcbs[0]
            if op.get("cb") and cbs[0] != cbs[1]:
                # another number of coercions: the failure hit elsewhere
                return None
        a, b = norm(ref), norm(got)
        if a[0] == "exc" and a[1] == "Uncoercible":
            bad = b[0] != "exc"
        elif a[0] == "exc":
            bad = b[0] != "exc" or b[1] != a[1]
        else:
            bad = a != b
        if bad:
            return C.violation(
                "result:" + op["o"] + ":" + op.get("m", ""),
                "an operation does not give what the built-in %s gives" %
                kind, op=op, builtin=ref, got=got, before=before)
        before = contents(w, kind)
        model = contents(m, kind)
        if op.get("m") == "sort" and a[0] == "exc":
            before, model = sorted(before, key=repr), sorted(model, key=repr)
            w.objs["x"]._values[:] = list(w.objs["x"]._values)
        if before != model:
            return C.violation(
                "contents:" + op["o"] + ":" + op.get("m", ""),
                "the contents differ from the built-in %s" % kind, op=op,
                builtin=model, got=before, outcome=got)
        if op.get("m") == "sort" and a[0] == "exc":
            return None
        before2, model = contents(w, kind, "y"), contents(m, kind, "y")
        if before2 != model:
            return C.violation(
                "other:" + op["o"] + ":" + op.get("m", ""),
                "an operation on one %s changes another" % kind, op=op,
                builtin=model, got=before2, outcome=got)
    return None
