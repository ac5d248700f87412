"""Case language: schemas, values and operations as JSON, run on a node.

Everything a run does is spelled out in its JSON case, so that a case replays
without the generator.  The library is only used through its public API.
"""
import copy
import datetime
import io
import json
import pickle
import re
import types

from . import node as nodemod
from . import sim as simmod
from .sim import Opaque, FaultIter, FaultMap, callback, InjectedFault

PROPNAME = re.compile(r"<\w*Property ")
ADDR = re.compile(r"0x[0-9a-f]+")


# ------------------------------------------------------------ user functions
def _int(v):
    if isinstance(v, (str, float)) and not isinstance(v, bool):
        return int(v)
    raise ValueError("no int: %s" % type(v).__name__)


FUNCS = {
    # coerce / json_in
    "int": _int,
    "str": lambda v: v if isinstance(v, str) else "s%s" % (v,),
    "first": lambda v: v[0],
    "upper": lambda v: v.upper(),
    "lower": lambda v: v.lower(),
    "ident": lambda v: v,
    "neg": lambda v: -v,
    "hex": lambda v: int(v, 16),
    "tohex": lambda v: "%x" % v,
    "wrap": lambda v: {"w": v},
    "unwrap": lambda v: v["w"],
    "tolist": lambda v: list(v),
    "none": lambda v: None,
    # checks
    "pos": lambda v: v > 0,
    "short": lambda v: len(v) < 8,
    "even": lambda v: v % 2 == 0,
    "true": lambda v: True,
    # defaults
    "d0": lambda: 0,
    "d5": lambda: 5,
    "dlist": lambda: [],
    "dstr": lambda: "dflt",
    "dtwo": lambda: 2,
}


CHECKS = ("pos", "short", "even", "true")


NAVEXC = ("EmptyAttributeError", "NoSuchAttribute", "NotSubscriptable",
          "NotCallable", "BadAssignment")


def fn1(name):
    f = FUNCS[name]

    pred = name in CHECKS

    def user_function(v):
        return callback(f, v, pred=pred)
    user_function.__name__ = "uf_" + name
    return user_function


def fn0(name):
    f = FUNCS[name]

    def user_function():
        return callback(f)
    user_function.__name__ = "uf_" + name
    return user_function


COUNTER = [0]


def method(name):
    """A default= or compare_as= method of the object."""
    if name.startswith("sum:"):
        props = name[4:].split(",")

        def compute(self):
            return callback(lambda: sum(
                len(v) if isinstance(v, (str, list)) else v
                if isinstance(v, (int, float)) else 1
                for v in (getattr(self, p, 0) for p in props)))
    elif name == "unique":
        def compute(self):
            def f():
                COUNTER[0] += 1
                return COUNTER[0]
            return callback(f)
    elif name in ("const", "conststr"):
        def compute(self):
            return callback(lambda: 7 if name == "const" else "lz")
    elif name == "uniqstr":
        def compute(self):
            def f():
                COUNTER[0] += 1
                return str(COUNTER[0])
            return callback(f)
    elif name == "uniqlist":
        def compute(self):
            def f():
                COUNTER[0] += 1
                return [COUNTER[0]]
            return callback(f)
    elif name in ("nolist", "nothing", "zero"):
        def compute(self):
            def f():
                COUNTER[0] += 1
                return [] if name == "nolist" else None \
                    if name == "nothing" else 0
            return callback(f)
    else:
        raise simmod.HarnessError(name)

    def default(self):
        return compute(self)
    return default


# ------------------------------------------------------------ schema building
SIMPLE = {"int": int, "str": str, "float": float, "plist": list,
          "pdict": dict, "bool": bool, "none": type(None)}


class Types:
    """The declared types of one schema on one node."""
    ordered = False               # do snapshots tell the order of dict keys?

    def __init__(self, node, spec=None):
        self.node = node
        self.N = node.ns
        self.cls = {}
        self.sub = {}
        self.spec = {"classes": []}
        self.cspec = {}
        self.kinds = {}
        if spec:
            self.declare_all(spec)

    def subtype(self, name):
        if name in self.sub:
            return self.sub[name]
        with simmod.quiet():
            N = self.N
            if name == "pos":
                s = N.subtype("pos", of=int, where=fn1("pos"),
                              coerce=fn1("int"))
            elif name == "evn":
                s = N.subtype("evn", of=int, where=fn1("even"))
            elif name == "shortstr":
                s = N.subtype("shortstr", of=str, where=fn1("short"),
                              coerce=fn1("str"))
            else:
                raise simmod.HarnessError(name)
            s.__module__ = "simschema"
            setattr(self.node.schema, name, s)
            self.sub[name] = s
        return self.sub[name]

    def ref(self, t):
        """Type reference -> python type (None for 'any')."""
        N = self.N
        if t in SIMPLE:
            return SIMPLE[t]
        if t == "any":
            return None
        if t in ("pos", "evn", "shortstr"):
            return self.subtype(t)
        if t == "date":
            return self.node.mod("normalize.property.types").date
        if t == "dt":
            return datetime.datetime
        if t == "rdate":
            return datetime.date
        if t[0] == "@":
            return self.cls[t[1:]]
        if t.startswith("list:"):
            return self.node.mod("normalize.coll").list_of(self.ref(t[5:]))
        if t.startswith("dict:"):
            return self.node.mod("normalize.coll").dict_of(self.ref(t[5:]))
        if t.startswith("u:"):
            return tuple(self.ref(x) for x in t[2:].split("|"))
        raise simmod.HarnessError("type %r" % t)

    def prop(self, p):
        N = self.N
        kw = {}
        t = p["t"]
        ctor = N.Property
        # property kind by type
        if t == "num":
            ctor = N.NumberProperty
        elif t == "integer":
            ctor = N.IntegerProperty
        elif t == "date":
            ctor = N.DateProperty
        elif t == "dt":
            ctor = N.DatetimeProperty
        elif t == "uni":
            ctor = N.UnicodeProperty
        elif t in ("int", "str", "float") and p.get("style") == "kind":
            ctor = {"int": N.IntProperty, "str": N.StringProperty,
                    "float": N.FloatProperty}[t]
        elif t.startswith("list:"):
            if p.get("style") == "isa":
                kw["isa"] = self.ref(t)
            else:
                kw["list_of"] = self.ref(t[5:])
            if p.get("style") == "json":
                ctor = N.JsonListProperty
            elif p.get("style") == "kind":
                ctor = N.ListProperty
        elif t.startswith("dict:"):
            if p.get("style") == "isa":
                kw["isa"] = self.ref(t)
            else:
                kw["dict_of"] = self.ref(t[5:])
            if p.get("style") == "json":
                ctor = N.JsonDictProperty
            elif p.get("style") == "kind":
                ctor = N.DictProperty
        elif t != "any":
            kw["isa"] = self.ref(t)
        if p.get("kind"):
            k = self.kinds[p["kind"]]
            if p.get("karg"):
                # an argument which only that kind has
                kw[p["kind"].lower() + "_arg"] = p["karg"]
            else:
                ctor = k
                kw.pop("isa", None)
        for k in ("lazy",):
            if p.get(k):
                kw[k] = True
        if p.get("req"):
            kw["required"] = True
        if p.get("ext"):
            kw["extraneous"] = True
        traits = []
        if p.get("ro"):
            traits.append("ro")
        if p.get("unsafe"):
            traits.append("unsafe")
        if p.get("safe"):
            traits.append("safe")
        if traits:
            kw["traits"] = traits
        if "co" in p:
            kw["coerce"] = fn1(p["co"])
        if "chk" in p:
            kw["check"] = fn1(p["chk"])
        if "df" in p:
            kw["default"] = fn0(p["df"])
        if "dm" in p:
            kw["default"] = method(p["dm"])
        if "dv" in p:
            kw["default"] = self.dec(p["dv"])
        if "v1n" in p:
            kw["v1_none"] = p["v1n"]
        if "jn" in p:
            kw["json_name"] = p["jn"]
        if "ji" in p:
            kw["json_in"] = fn1(p["ji"])
        if "jo" in p:
            kw["json_out"] = fn1(p["jo"])
        if "ca" in p:
            kw["compare_as"] = fn1(p["ca"])
        return ctor(**kw)

    def kind(self, k):
        """Declare a property kind of the user's own."""
        N = self.N
        base = getattr(N, k["base"])
        kw = {}
        if k["base"] in ("Property", "SafeProperty") and k["t"] != "any":
            kw["isa"] = self.ref(k["t"])
        if "co" in k:
            kw["coerce"] = fn1(k["co"])
        if "df" in k:
            kw["default"] = fn0(k["df"])
        if "jo" in k:
            kw["json_out"] = fn1(k["jo"])
        name = k["name"]
        if k["style"] == "make":
            r = self.node.mod("normalize.property").make_property_type(
                name, base_type=base, **kw)
        else:
            me = []
            arg = name.lower() + "_arg"
            ns = {}
            exec("def __init__(self, %s=None, **kw):\n"
                 "    init(self, %s, kw)\n" % (arg, arg), ns)

            def init(self, arg, more):
                for a in kw:
                    more.setdefault(a, kw[a])
                super(me[0], self).__init__(**more)
                self.arg = arg
            ns["init"] = init
            r = type(base)(name, (base,), {
                "__trait__": name.lower(), "__init__": ns["__init__"]})
            me.append(r)
        self.kinds[name] = r
        return r

    def bad(self, ns, b):
        """Put something that cannot be declared into a class."""
        N = self.N
        kw = {}
        for f in b["feats"]:
            if f == "json":
                kw["json_name"] = "zz"
            elif f == "lazy":
                kw.update(lazy=True, default=method("unique"))
            elif f == "ro":
                kw["traits"] = ["ro"]
            elif f == "ext":
                kw["extraneous"] = True
            elif f == "v1":
                kw["v1_none"] = ""
            elif f == "ca":
                kw["compare_as"] = fn1("upper")
            elif f == "list":
                kw["list_of"] = int
        how = b["how"]
        ctor = N.Property
        if how == "arg":
            kw[b.get("arg", "no_such_argument")] = 1
        elif how == "coerce":
            kw["coerce"] = fn1("int")
            if "list" in b["feats"]:
                kw["no_such_argument"] = 1
        elif how == "default":
            kw["default"] = lambda one, two: 3
        elif how == "v1":
            kw["v1_none"] = []
        elif how == "of":
            ctor = N.ListProperty
            kw.pop("list_of", None)
        elif how == "traits":
            kw["traits"] = ["no_such_trait"]
        elif how == "ca":
            kw["compare_as"] = lambda one, two, three: 3
        elif how == "coll":
            kw["isa"] = self.ref("list:int")
            ctor = N.DictProperty
        elif how == "pos":
            return {"zz": N.Property("positional", **kw)}
        elif how == "reserved":
            return {"zz": ctor(**kw), "properties": {}}
        elif how == "pk":
            return {"zz": ctor(**kw), "primary_key": ["no_such_prop"]}
        elif how == "fn":
            # a statement of the class body fails
            kw["default"] = 3
            callback(lambda: None)
            r = {"zz": ctor(**kw)}
            raise InjectedFault("class body")
        return {"zz": ctor(**kw)}

    def base(self, name):
        N = self.N
        if name in self.cls:
            return self.cls[name]
        if name == "JsonRecordDict":
            return self.node.mod("normalize.record.json").JsonRecordDict
        if name[:5] in ("list:", "dict:"):
            return self.ref(name)
        return getattr(N, name)

    def declare(self, c):
        """Declare one class."""
        # several modules may have classes of one name
        name = c.get("as", c["name"])
        mod = "simschema" + ("." + c["mod"] if "mod" in c else "")
        home = nodemod.schema_module(mod) if "mod" in c else self.node.schema
        ns = {"__module__": mod, "__qualname__": name}
        bad = c.get("bad")
        if bad and bad["first"]:
            ns.update(self.bad(ns, bad))
        for p in c.get("props", ()):
            ns[p["name"]] = self.cls[p["take"]].properties[p["name"]] \
                if "take" in p else self.prop(p)
        if bad and not bad["first"]:
            ns.update(self.bad(ns, bad))
        if c.get("pk"):
            ns["primary_key"] = [
                ns[x] if x in ns else x for x in c["pk"]]
        if "item" in c and c["base"][:5] not in ("list:", "dict:"):
            ns["itemtype"] = self.ref(c["item"])
        for m in c.get("meth", ()):
            ns[m] = (lambda self, *a, **kw: "user method")
        if "coitem" in c:
            ns["coerceitem"] = staticmethod(fn1(c["coitem"]))
        bases = tuple(self.base(b) for b in c["base"].split(","))
        cls = type(bases[0])(name, bases, ns)
        self.cls[c["name"]] = cls
        self.cspec[c["name"]] = c
        setattr(home, name, cls)
        self.spec["classes"].append(c)
        return cls

    def declare_all(self, spec, order=None):
        cs = spec["classes"]
        for i in (order or range(len(cs))):
            self.declare(cs[i])

    # -------------------------------------------------------- values
    def dec(self, v, objs=None):
        """Decode an encoded value."""
        if isinstance(v, list):
            return [self.dec(x, objs) for x in v]
        if isinstance(v, dict):
            if len(v) <= 3 and any(k[:1] == "$" for k in v):
                return self._dec_special(v, objs)
            return {k: self.dec(x, objs) for k, x in v.items()}
        return v

    def _dec_special(self, v, objs):
        D = lambda x: self.dec(x, objs)
        if "$d" in v:
            return datetime.date.fromisoformat(v["$d"])
        if "$dt" in v:
            return datetime.datetime.fromisoformat(v["$dt"])
        if "$r" in v:
            return self.cls[v["$r"]](
                **{k: D(x) for k, x in v["p"].items()})
        if "$c" in v:
            t = v["$c"]
            cls = self.cls[t[1:]] if t[0] == "@" else self.ref(t)
            return cls(values=D(v["v"]), **{
                k: D(x) for k, x in v.get("p", {}).items()})
        if "$x" in v:
            return Opaque(v["$x"])
        if "$it" in v:
            return FaultIter([D(x) for x in v["$it"]], v.get("fail"),
                             v.get("act", "raise"))
        if "$map" in v:
            return FaultMap([(D(k), D(x)) for k, x in v["$map"]],
                            v.get("fail"), v.get("act", "raise"))
        if "$at" in v:
            n, i, other = v["$at"]
            try:
                x = resolve(objs, n)
                x = getattr(x, "_values", x)
                return x[i % len(x)]
            except Exception:
                return D(other)
        if "$gen" in v:
            return (x for x in [D(x) for x in v["$gen"]])
        if "$t" in v:
            return tuple(D(x) for x in v["$t"])
        if "$D" in v:
            return {D(k): D(x) for k, x in v["$D"]}
        if "$set" in v:
            return set(D(x) for x in v["$set"])
        if "$j" in v:
            return VALUES[v["$j"][0]](v["$j"][1])
        if "$b" in v:
            return v["$b"].encode("utf-8")
        if "$s" in v:
            return slice(*v["$s"])
        if "$ref" in v:
            return objs[v["$ref"]]
        if "$type" in v:
            return self.ref(v["$type"])
        if "$float" in v:
            return float(v["$float"])
        raise simmod.HarnessError("value %r" % (v,))

    # -------------------------------------------------------- snapshots
    def snap(self, o):
        with simmod.quiet():
            try:
                return self._snap(o, (), 0)
            except simmod.HarnessError:
                raise
            except Exception as e:
                return ["unsnappable", type(e).__name__, scrub(str(e))]

    def _snap(self, o, path, depth):
        if o is None or o is True or o is False:
            return o
        t = type(o)
        if t in (int, str):
            return o
        if t is float:
            return ["f", repr(o)]
        if id(o) in path or depth > 40:
            return ["cycle"]
        path = path + (id(o),)
        S = lambda x: self._snap(x, path, depth + 1)
        if t in (list, tuple):
            return [t.__name__] + [S(x) for x in o]
        if t is dict:
            items = [[S(k), S(v)] for k, v in o.items()]
            if not self.ordered:
                items.sort(key=lambda kv: repr(kv[0]))
            return ["dict"] + items
        if isinstance(o, (set, frozenset)):
            return ["set"] + sorted((S(x) for x in o), key=repr)
        if t is datetime.datetime:
            return ["dt", o.isoformat()]
        if t is datetime.date:
            return ["date", o.isoformat()]
        if t is bytes:
            return ["bytes", o.hex()]
        if isinstance(o, Opaque):
            return ["opaque", o.tag]
        if isinstance(o, Value):
            return ["value", t.__name__, S(o.v)]
        N = self.N
        if isinstance(o, N.Record):
            # (what a library may note down on the side is none of our business)
            d = {k: v for k, v in vars(o).items()
                 if k[:1] != "_" or k == "_values"}
            out = ["rec", t.__name__]
            vals = d.pop("_values", self)
            if issubclass(t, self.node.mod("normalize.coll").Collection):
                if vals is self:
                    vals = list(o.itertuples())
                out[0] = "coll"
                out.append(S(vals))
            out.append(sorted(([k, S(v)] for k, v in d.items()),
                              key=lambda kv: kv[0]))
            return out
        if isinstance(o, N.FieldSelector):
            return ["fs", list(o.selectors)]
        if isinstance(o, N.MultiFieldSelector):
            sels = [repr(list(x.selectors)) for x in o]
            return ["mfs", sels if self.ordered else sorted(sels)]
        if isinstance(o, type):
            return ["type", o.__name__]
        if isinstance(o, BaseException):
            return self.snap_exc(o)
        if t.__name__ == "EmptyVal":
            return ["empty", repr(o)]
        if hasattr(o, "canonical_name"):
            return ["enum", o.canonical_name]
        if isinstance(o, (FaultIter, FaultMap)):
            return ["faultiter"]
        if callable(o):
            return ["callable", getattr(o, "__name__", t.__name__)]
        return ["other", t.__name__, scrub(repr(o))]

    def snap_exc(self, e):
        with simmod.quiet():
            try:
                msg = scrub(str(e))
            except Exception as e2:
                msg = "(%s)" % type(e2).__name__
            return ["exc", type(e).__name__, msg]

    def diffs(self, seq):
        """A list of DiffInfo, order-free."""
        out = []
        for d in seq:
            out.append([d.diff_type.canonical_name,
                        list(d.base.selectors), list(d.other.selectors)])
        return ["diffs"] + sorted(out, key=repr)


def scrub(s):
    s = PROPNAME.sub("<Property ", ADDR.sub("0x", s))
    return s if len(s) < 2000 else s[:2000]


# ------------------------------------------------------------ pickling helpers
def dumps(obj, proto):
    buf = io.BytesIO()
    pickle._Pickler(buf, proto).dump(obj) if False else \
        pickle.Pickler(buf, proto).dump(obj)
    return buf.getvalue()


def loads(data):
    return pickle.loads(data)


# ------------------------------------------------------------ visitors
def vkey(at):
    return sum(k if isinstance(k, int) else len(str(k)) for k in at)


class Value:
    """A value type of the user's own, for untyped slots."""

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return "<%s %r>" % (type(self).__name__, self.v)

    def __eq__(self, o):
        return type(o) is type(self) and o.v == self.v

    def __hash__(self):
        return 11


class ValueD(Value):
    def json_data(self):
        return callback(lambda: {"v": self.v})


class ValueE(Value):
    def json_data(self, extraneous=False):
        return callback(lambda: {"v": self.v, "e": bool(extraneous)})


class ValueK(Value):
    def json_data(self, *, extraneous=False):
        return callback(lambda: [self.v, bool(extraneous)])


class ValueA(Value):
    json_data = "not a function"


VALUES = {"d": ValueD, "e": ValueE, "k": ValueK, "a": ValueA, "": Value}
EMPTY = "(an empty slot)"


def vfn(fn, at, value):
    """What a visit maps a value to."""
    if value is EMPTY:
        value = None
    if fn == "tag":
        return {"at": list(at)}
    if fn == "none" and vkey(at) % 3 == 0:
        return None
    if fn == "empty" and vkey(at) % 3 == 0:
        return ""
    return value


def reduced(red, props, agg):
    """Consumes properties and items as they come, in some order."""
    P, I = {}, None if agg is None else []
    todo = [("I", agg), ("P", props)] if red == "first" else \
        [("P", props), ("I", agg)]
    todo = [(k, iter(g)) for k, g in todo if g is not None]
    n = 0
    while todo:
        if red[:7] == "partial" and n >= int(red[7:]):
            return "partial"
        i = n % len(todo) if red == "inter" else 0
        k, g = todo[i]
        n += 1
        try:
            a, b = next(g)
        except StopIteration:
            del todo[i]
            continue
        if k == "P":
            P[a.name] = b
        else:
            I.append([a, b])
    return {"P": P, "I": I} if P or I else {}


# ------------------------------------------------------------ operations
def resolve(objs, ref):
    if isinstance(ref, str):
        return objs[ref]
    o = objs[ref[0]]
    for k in ref[1:]:
        if isinstance(k, str) and not isinstance(
                getattr(o, "_values", o), dict):
            o = getattr(o, k)
        else:
            o = o[k]
    return o


class World:
    """Named objects on a node, and the operations on them."""

    def __init__(self, node, spec, visitor_log=None):
        self.node = node
        self.N = node.ns
        COUNTER[0] = 0
        with node:
            self.T = Types(node)
            if spec is not None:
                self.T.declare_all(spec)
        self.objs = {}
        self.gens = {}
        self.saved = {}
        self.excs = {}
        self.vlog, self.vkeep, self.visitors = {}, {}, {}
        self.results = {}

    # the executor given to Sim: runs one op, returns its outcome
    def execute(self, sim, t, op):
        f = getattr(self, "op_" + op["o"])
        try:
            r = f(op)
        except (simmod.StepCap, simmod.Deadlock, simmod.HarnessError):
            raise
        except BaseException as e:
            t.quiet += 1
            out = self.T.snap_exc(e)
            self.last_exc = e
            if "eid" in op:
                self.excs[op["eid"]] = e
            return out
        t.quiet += 1
        if "rid" in op:
            self.results[op["rid"]] = r
        if isinstance(r, _Raw):
            return ["ok", r.v]
        return ["ok", self.T.snap(r)]

    def _args(self, op):
        with simmod.quiet():
            pass
        return self.T.dec(op.get("v"), self.objs)

    def _x(self, op, key="x"):
        with simmod.quiet():
            return resolve(self.objs, op[key])

    def _dq(self, v):
        """decode without counting steps (input preparation)"""
        with simmod.quiet():
            return self.T.dec(v, self.objs)

    # construction
    def op_new(self, op):
        c = self.T.cls[op["cls"]] if op["cls"] in self.T.cls else \
            self.T.ref(op["cls"])
        if "args" in op:
            args = self._dq(op["args"])
            kw = self._dq(op.get("kw", {}))
            o = c(*args, **kw)
        else:
            kw = self._dq(op["p"])
            o = c(**kw)
        self.objs[op["to"]] = o
        return o

    def op_build(self, op):
        """Decode a value (nested constructions count as steps)."""
        o = self.T.dec(op["v"], self.objs)
        self.objs[op["to"]] = o
        return o

    def op_declare(self, op):
        return self.T.declare(op["c"])

    # attributes
    def op_set(self, op):
        x, v = self._x(op), self._dq(op["v"])
        setattr(x, op["a"], v)

    def op_del(self, op):
        x = self._x(op)
        delattr(x, op["a"])

    def op_get(self, op):
        x = self._x(op)
        return getattr(x, op["a"])

    def op_getchain(self, op):
        """Safe navigation: a.b0.c0[0].d0"""
        x = self._x(op)
        for k in op["chain"]:
            x = getattr(x, k) if isinstance(k, str) else x[k]
        return x

    def op_nav(self, op):
        """Safe navigation, step by step; stops at plain values."""
        x = self._x(op)
        N = self.N
        Empty = self.node.mod("normalize.empty").EmptyVal
        coll = self.node.mod("normalize.coll")
        i = -1
        try:
            for i, (k, *a) in enumerate(op["steps"]):
                if not isinstance(x, Empty):
                    if not isinstance(x, N.Record) or k not in "ai" or \
                            k == "i" and not isinstance(x, coll.Collection):
                        break
                if k == "a":
                    x = getattr(x, a[0])
                elif k == "i":
                    x = x[a[0]]
                elif k == "s":
                    x = x[a[0]:a[1]]
                elif k == "c":
                    x = x(*a)
                elif k == "set":
                    setattr(x, a[0], 1)
                elif k == "seti":
                    x[a[0]] = 1
                elif k == "iter":
                    return _Raw(["iter", len(list(x))])
                elif k == "in":
                    return _Raw(["in", a[0] in x])
                elif k == "eq":
                    return _Raw(["eq", x == a[0], x != a[0]])
        except MemoryError:
            raise
        except Exception as e:
            return _Raw(["exc", i, sorted(
                c.__name__ for c in type(e).__mro__
                if c in (AttributeError, TypeError, IndexError, KeyError) or
                c.__module__.startswith("normalize") and
                c.__name__ in NAVEXC and k != "in"), str(e) if isinstance(
                    e, self.node.mod("normalize.exc").EmptyAttributeError)
                else None])
        if isinstance(x, Empty):
            t = str(x)
            names = t[6:-1].split(",")
            return _Raw(["empty", bool(x), t[:6], names if op.get("ord")
                         else sorted(names)])
        return _Raw(["val", self.T.snap(x)])

    # collections
    def op_m(self, op):
        x = self._x(op)
        args = self._dq(op.get("args", []))
        kw = self._dq(op.get("kw", {}))
        r = getattr(x, op["m"])(*args, **kw)
        if op.get("list"):
            r = list(r)
        return r

    def op_item(self, op):
        x, k = self._x(op), self._dq(op["k"])
        if op["m"] == "get":
            return x[k]
        if op["m"] == "del":
            del x[k]
            return
        v = self._dq(op["v"])
        x[k] = v

    def op_len(self, op):
        return len(self._x(op))

    def op_iter(self, op):
        return list(self._x(op))

    def op_in(self, op):
        x, v = self._x(op), self._dq(op["v"])
        return v in x

    def op_eqplain(self, op):
        x, v = self._x(op), self._dq(op["v"])
        return [bool(x == v), bool(x != v)]

    def op_add(self, op):
        x, v = self._x(op), self._dq(op["v"])
        r = x + v
        if "to" in op:
            self.objs[op["to"]] = r
        return r

    # reading
    def op_to_json(self, op):
        x = self._x(op)
        return self.node.ns.to_json(x, op.get("ext", True))

    def op_json_data(self, op):
        x = self._x(op)
        return x.json_data(extraneous=op.get("ext", False))

    def op_to_json_prop(self, op):
        x = self._x(op)
        return self.node.ns.to_json(x, True, op["a"])

    def _doc(self, op):
        with simmod.quiet():
            if "ref" in op:
                return self.objs[op["ref"]]
            if "hex" in op:
                d = bytes.fromhex(op["hex"])
                return bytearray(d) if op.get("form") == "bytearray" else d
            if "raw" in op:
                d = op["raw"]
                if op.get("form") == "loaded":
                    return json.loads(d)
            elif op.get("form", "loaded") == "loaded":
                return copy.deepcopy(op["doc"])
            else:
                d = json.dumps(op["doc"], ensure_ascii=not op.get("uni"))
            if op.get("form") == "bytes":
                return d.encode("utf-8") if isinstance(d, str) else d
            if op.get("form") == "bytearray":
                return bytearray(d.encode("utf-8"))
            return d

    def op_from_json(self, op):
        d = self._doc(op)
        c = self.T.cls[op["cls"]]
        if op.get("via") == "ctor":
            r = c(d)
        elif op.get("via") == "meth":
            r = c.from_json(d)
        else:
            r = self.node.ns.from_json(c, d)
        if "to" in op:
            self.objs[op["to"]] = r
        return r

    def op_spoil(self, op):
        """Change every plain list and dict of a result in place."""
        todo, seen = [self.results.get(op["of"])], set()
        while todo:
            o = todo.pop()
            if id(o) in seen:
                continue
            seen.add(id(o))
            if isinstance(o, self.N.Record):
                todo += vars(o).values()
            elif type(o) is list:
                todo += o
                o.append("spoilt")
            elif type(o) is dict:
                todo += o.values()
                o["spoilt"] = 1

    def op_eq(self, op):
        x, y = self._x(op), self._x(op, "y")
        return [bool(x == y), bool(x != y)]

    def op_hash(self, op):
        x = self._x(op)
        return hash(x)

    def op_str(self, op):
        return str(self._x(op))

    def op_repr(self, op):
        return repr(self._x(op))

    def op_pk(self, op):
        return self._x(op).__pk__

    def op_diff(self, op):
        x, y = self._x(op), self._x(op, "y")
        kw = self._dq(op.get("opts", {}))
        if op.get("iter"):
            r = list(x.diff_iter(y, **kw))
        else:
            r = x.diff(y, **kw)
            if op.get("json"):
                j = r.json_data()
                with simmod.quiet():
                    return _Raw(sorted(j, key=repr))
            if op.get("str"):
                s = str(r)
        with simmod.quiet():
            return _Raw(self.T.diffs(r))

    # generators consumed step by step
    def op_dstart(self, op):
        x, y = self._x(op), self._x(op, "y")
        kw = self._dq(op.get("opts", {}))
        self.gens[op["k"]] = [iter(x.diff_iter(y, **kw)), [], "open"]

    def op_dnext(self, op):
        g = self.gens.get(op["k"])
        if g is None or g[2] != "open":
            return "closed"
        for _ in range(op["n"]):
            try:
                d = next(g[0])
            except StopIteration:
                g[2] = "done"
                break
            except BaseException as e:
                g[2] = "failed"
                raise
            g[1].append(d)
        return len(g[1])

    def op_dclose(self, op):
        g = self.gens.get(op["k"])
        if g is not None and g[2] == "open":
            g[2] = "abandoned"
            g[0].close()

    def op_visit(self, op):
        x = self._x(op)
        V = self.node.ns.VisitorPattern
        kw = {}
        if op.get("filter") is not None:
            kw["filter"] = self._dq(op["filter"])
        for k in ("extraneous", "apply_empty_slots", "ignore_none",
                  "ignore_empty_string"):
            if k in op:
                kw[k] = op[k]
        return V.visit(x, **kw)

    def op_cast(self, op):
        V = self.node.ns.VisitorPattern
        d = self._dq(op["doc"])
        return V.cast(self.T.ref(op["cls"]), d)

    def op_visitcast(self, op):
        x = self._x(op)
        V = self.node.ns.VisitorPattern
        d = V.visit(x)
        return V.cast(type(x), d)

    def pattern(self, op, log):
        """A visitor pattern of the user's own, which notes its calls."""
        V = self.node.ns.VisitorPattern
        world, fn, red = self, op.get("fn", "id"), op.get("red", "def")

        def noted(value, prop, visitor):
            with simmod.quiet():
                at = list(visitor.field_selector.selectors)
                if isinstance(value, (AttributeError, KeyError)):
                    value = EMPTY
                e = [at, None if prop is None else prop.name, value, False]
                log.append(e)
            nest = op.get("nest")
            if nest and len(log) == nest["at"]:
                world.op_vis(nest["op"])
            e[3] = True
            r = callback(lambda: vfn(fn, at, value))
            e[3] = False
            return r

        class P(V):
            @classmethod
            def unpack(cls, value, value_type, visitor):
                if op.get("stop") == value_type.__name__:
                    return V.StopVisiting(op["stopv"]) \
                        if op.get("stopv") else V.StopVisiting
                return super(P, cls).unpack(value, value_type, visitor)

            @classmethod
            def apply(cls, value, prop, visitor):
                return noted(value, prop, visitor)

            @classmethod
            def reverse(cls, value, prop, visitor):
                return noted(value, prop, visitor)

        if red != "def":
            class Q(P):
                @classmethod
                def aggregate(cls, gen, coll_type, visitor):
                    return gen

                @classmethod
                def reduce(cls, props, agg, value_type, visitor):
                    return reduced(red, props, agg)
            return Q
        return P

    def vis_opts(self, op):
        kw = {k: op[k] for k in ("extraneous", "ignore_none",
                                 "apply_empty_slots",
                                 "ignore_empty_string") if k in op}
        if "F" in op:
            kw["filter"] = self.objs[op["F"]]
        elif op.get("filter") is not None:
            kw["filter"] = op["filter"]
        return kw

    def op_vis(self, op):
        with simmod.quiet():
            x = resolve(self.objs, op["x"])
            log = self.vlog.setdefault(op["id"], [])
            P = self.pattern(op, log)
            kw = self.vis_opts(op)
            if "as" in op:
                kw["value_type"] = self.T.cls[op["as"]]
            elif op.get("plain"):
                kw["value_type"] = type(x)
                x = x._values
            elif "wrong" in op:
                kw["value_type"] = type(x)
                x = op["wrong"]
        r = P.visit(x, **kw)
        self.vkeep[op["id"]] = r
        return r

    def op_viscast(self, op):
        with simmod.quiet():
            x = resolve(self.objs, op["x"])
            log = self.vlog.setdefault(op["id"], [])
            P = self.pattern(dict(op, fn="id", red="def"), log)
            kw = self.vis_opts(op)
            V = self.node.ns.VisitorPattern
            d = V.visit(x, **kw)
            if "reuse" in op:
                k = op["reuse"]
                v = self.visitors.get(k)
                if v is None:
                    v = self.visitors[k] = P.Visitor(
                        P.grok, lambda *a: self.visitors[k, 0](*a),
                        P.collect, P.produce, **kw)
                self.visitors[k, 0] = P.reverse
                kw = {"visitor": v}
        r = P.cast(type(x), d, **kw)
        with simmod.quiet():
            self.vkeep[op["id"]] = r
        return r

    def op_mkopts(self, op):
        D = self.node.mod("normalize.diff").DiffOptions
        self.objs[op["to"]] = D(**self._dq(op["opts"]))

    def op_mkfs(self, op):
        self.objs[op["to"]] = self.fs(op["path"])

    def op_hold(self, op):
        """Keeps a plain value as it is."""
        self.objs[op["to"]] = copy.deepcopy(op["v"])

    def op_sel(self, op):
        """Reading use of a selector that is kept."""
        f = self._x(op, "f")
        m = op["m"]
        if m == "path":
            return f.path
        if m == "str":
            return [str(f), repr(f)]
        if m == "plus":
            return f + op["k"]
        if m == "slice":
            return [f[:-1], f[1:], len(f)]
        if m == "cmp":
            g = self._x(op, "g")
            return [f == g, f != g, f < g, hash(f) == hash(g)]
        if m == "startswith":
            return f.startswith(self._x(op, "g"))
        if m == "getitem":
            return f[op["k"]]
        if m == "iter":
            sels = [repr(list(x.selectors)) for x in f]
            return _Raw(sels if self.T.ordered else sorted(sels))
        if m == "in":
            return op["k"] in f
        if m == "copy":
            return copy.deepcopy(f)
        if m == "mfs":
            return self.node.ns.MultiFieldSelector(f)
        x = self._x(op)
        if m == "patch":
            with simmod.quiet():
                r = copy.deepcopy(x)
                if "rid" in op:
                    self.results[op["rid"]] = r
            f.patch(r, self._x(op, "y"), copy=True)
            return r
        r = getattr(f, m)(x)
        if "to" in op:
            self.objs[op["to"]] = r
        return r

    def op_mkmfs(self, op):
        self.objs[op["to"]] = self.mfs(op["paths"])

    def op_reflect(self, op):
        x = self._x(op)
        return self.node.ns.VisitorPattern.reflect(x)

    def op_pickle(self, op):
        x = self._x(op)
        data = dumps(x, op.get("proto", 2))
        y = loads(data)
        return y

    def op_deepcopy(self, op):
        x = self._x(op)
        r = copy.deepcopy(x)
        if "to" in op:
            self.objs[op["to"]] = r
        return r

    def op_recopy(self, op):
        r = copy.copy(self._x(op))
        self.objs[op["to"]] = r
        return r

    def op_repickle(self, op):
        r = loads(dumps(self._x(op), op.get("proto", 2)))
        self.objs[op["to"]] = r
        return r

    # saving and restoring
    def op_save(self, op):
        x = self._x(op)
        if op["how"] == "pickle":
            data = dumps(x, op["proto"])
        elif op["how"] == "json":
            d = x.json_data(extraneous=True) if hasattr(x, "json_data") \
                else self.node.ns.to_json(x, True)
            with simmod.quiet():
                data = json.dumps(d, ensure_ascii=bool(op.get("ascii", 1)))
        else:
            data = copy.deepcopy(x) if op["how"] == "deep" else copy.copy(x)
        self.saved[op["key"]] = data

    def op_load(self, op):
        data = self.saved[op["key"]]
        if op["how"] == "pickle":
            r = loads(data if "cut" not in op else data[:op["cut"]])
        elif op["how"] == "json":
            if op.get("form") == "bytes":
                data = data.encode("utf-8")
            elif op.get("form") == "loaded":
                data = json.loads(data)
            c = self.T.cls[op["cls"]]
            r = c(data) if op.get("via") == "ctor" else \
                self.node.ns.from_json(c, data)
        else:
            r = data
        self.objs[op["to"]] = r

    def op_copy(self, op):
        return copy.copy(self._x(op))

    # selectors
    def fs(self, path, via=None):
        """A field selector, made in one of several ways."""
        F = self.node.ns.FieldSelector
        if via == "tuple":
            return F(tuple(path))
        if via == "fs":
            return F(F(path))
        if via == "add":
            f = F([])
            for k in path:
                if k is None:
                    f.add_full_collection()
                elif isinstance(k, str):
                    f.add_property(k)
                else:
                    f.add_index(k)
            return f
        if via == "plus":
            f = F([])
            for k in path:
                f = f + ([k] if k is None else k)
            return f
        if via == "slice":
            return F(list(path) + ["zz"])[:-1]
        if via == "copy":
            return copy.deepcopy(F(path))
        if via == "extend":
            return F(path[:1]).extend(F(path[1:]))
        return F(path)

    def mfs(self, paths, via=None):
        F, M = self.node.ns.FieldSelector, self.node.ns.MultiFieldSelector
        if via == "fs":
            return M(*[F(p) for p in paths])
        if via == "mfs":
            return M(M(*paths))
        if via == "iter":
            return M(*M(*paths))
        if via == "parts":
            return M(*[M(p) for p in paths])
        if via == "copy":
            return copy.deepcopy(M(*paths))
        return M(*paths)

    def op_fs(self, op):
        x = self._x(op)
        fs = self.fs(op["path"], op.get("via"))
        m = op["m"]
        if m in ("get", "get_or_none", "delete"):
            return getattr(fs, m)(x)
        v = self._dq(op["v"])
        return getattr(fs, m)(x, v)

    def op_mfs(self, op):
        x = self._x(op)
        mfs = self.mfs(op["paths"], op.get("via"))
        m = op["m"]
        if m == "get":
            r = mfs.get(x)
            if "to" in op:
                self.objs[op["to"]] = r
            return r
        if m == "delete":
            return mfs.delete(x, force=op.get("force", False))
        if m == "patch":
            return mfs.patch(x, self._x(op, "y"), copy=op.get("copy", False))
        if m == "iter":
            sels = [repr(list(f.selectors)) for f in mfs]
            return _Raw(sels if self.T.ordered else sorted(sels))
        if m == "contains":
            return [p in mfs for p in op["probe"]]
        if m == "complete":
            return mfs[op["k"]]

    def op_list_of(self, op):
        c = self.node.mod("normalize.coll")
        t = self.T.ref(op["t"])
        return (c.list_of if op["m"] == "list" else c.dict_of)(t)

    def op_sameas(self, op):
        """Is the value stored as it is, or converted?"""
        x, y = self._x(op), self._x(op, "y")
        v = getattr(y, op["b"])
        setattr(x, op["a"], v)
        return getattr(x, op["a"]) is v

    def op_gtypes(self, op):
        """The collection types found for one item type are one type."""
        c = self.node.mod("normalize.coll")
        t = self.T.ref(op["t"])
        f = c.list_of if op["m"] == "list" else c.dict_of
        seen = [f(t)]
        for v in op["in"]:
            cls = self.T.cls.get(v[0])
            if cls is not None:
                seen.append(cls.properties[v[1]].valuetype)
        return _Raw([s is seen[0] for s in seen])

    def op_kind(self, op):
        """A property kind of the user's own."""
        self.T.kind(op)
        return None

    def op_nop(self, op):
        return None


class _Raw:
    def __init__(self, v):
        self.v = v
