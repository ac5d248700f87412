"""Random schemas, values and documents (all JSON-able, see world.py)."""
import copy

NAMES = ["a", "b", "name", "val", "items", "ref", "kind", "tag", "note",
         "camel_case", "n", "q", "when", "sub", "other"]
STRS = ["", "x", "y", "foo", "foo bar", "Foo", "bar", "baz", "it's", "\u00e9t\u00e9",
        "\u2603", "12", "zed", "a b", "longer text here"]


ODD = [{"$set": [1, 2]}, {"$set": []}, {"$set": ["a"]},
       {"$t": [[1], {"q": 2}]}, {"$t": []}, [{"$set": [3]}],
       {"k": {"$t": [[5]]}}, {"k": {"$set": [1]}},
       {"$j": ["d", 1]}, {"$j": ["e", 2]}, {"$j": ["k", 3]},
       {"$j": ["e", 4]}, {"k": {"$j": ["d", 5]}}, [{"$j": ["k", 6]}],
       {"$j": ["a", 7]}, {"$j": ["", 8]}]


class Gen:
    def __init__(self, rng):
        self.rng = rng
        self.classes = []          # specs in declaration order
        self.by = {}
        self.uniq = 0

    # ------------------------------------------------------------ helpers
    def chance(self, p):
        return self.rng.random() < p

    def pick(self, seq):
        return seq[self.rng.randrange(len(seq))]

    def weighted(self, pairs):
        tot = sum(w for _, w in pairs)
        x = self.rng.random() * tot
        for v, w in pairs:
            x -= w
            if x < 0:
                return v
        return pairs[-1][0]

    # ------------------------------------------------------------ schema
    def records(self, json=None):
        return [c for c in self.classes if "item" not in c and
                (json is None or self.is_json(c["name"]) == json)]

    def colls(self):
        return [c for c in self.classes if "item" in c]

    def bases(self, name):
        return self.by[name]["base"].split(",")

    def is_json(self, name):
        if name in self.by:
            return any(self.is_json(b) for b in self.bases(name))
        return name.startswith("Json")

    def base_kind(self, name):
        while name in self.by:
            name = self.bases(name)[0]
        return "RecordList" if name[:5] == "list:" else \
            "DictCollection" if name[:5] == "dict:" else name

    def props(self, cname):
        """All properties of a class including inherited ones."""
        out = []
        if cname in self.by:
            for b in self.bases(cname):
                out += self.props(b)
            out += self.by[cname].get("props", ())
        return out

    def prop(self, cname, pname):
        for p in self.props(cname):
            if p["name"] == pname:
                return p

    def gen_type(self, depth=0, json_only=False, feats=()):
        r = [("int", 4), ("str", 4), ("any", 2)]
        if "float" not in feats:
            r += [("float", 1), ("num", 1), ("integer", 1)]
        r += [("date", 2), ("dt", 1), ("uni", 1)]
        r += [("pos", 1.5), ("evn", .5), ("shortstr", 1)]
        if depth == 0:
            r += [("list", 4), ("dict", 2), ("plist", .7), ("pdict", .7),
                  ("u", 1)]
            if self.nones:
                r.append(("un", self.nones))
            if self.u2:
                r.append(("u2", self.u2))
        recs = self.records(json=True if json_only else None)
        if recs:
            r += [("rec", self.recw)]
        if self.colls() and depth == 0:
            r += [("coll", 2)]
        r = [x for x in r if x[0] not in self.no_types]
        t = self.weighted(r)
        if t == "rec":
            return "@" + self.pick(recs)["name"]
        if t == "coll":
            return "@" + self.pick(self.colls())["name"]
        if t in ("list", "dict"):
            items = [("int", 2), ("str", 2)]
            if recs:
                items += [("rec", 5)]
            if "pos" not in self.no_types:
                items += [("pos", .7)]
            it = self.weighted(items)
            if it == "rec":
                it = "@" + self.pick(recs)["name"]
            return "%s:%s" % (t, it)
        if t == "u":
            opts = ["int|str", "str|int", "plist|str"]
            if recs:
                n = self.pick(recs)["name"]
                opts += ["@%s|str" % n, "@%s|int" % n]
            return "u:" + self.pick(opts)
        if t == "u2" and recs and self.ucoll and self.chance(self.ucoll):
            # a collection or a record
            x = [self.pick(["list:int", "dict:str", "list:@%s" % self.pick(
                recs)["name"]] + ["@" + c["name"] for c in self.colls()]),
                "@" + self.pick(recs)["name"]]
            self.rng.shuffle(x)
            return "u:" + "|".join(x + ["str"])
        if t == "u2":
            # one of several record types, unrelated to each other
            cand = [(a["name"], b["name"]) for a in recs for b in recs
                    if a is not b and not self.within(a["name"], b["name"])
                    and not self.within(b["name"], a["name"])]
            if not cand:
                return "any"
            return "u:@%s|@%s" % self.pick(cand) + (
                "|str" if self.json else self.pick(["", "|str"]))
        if t == "un":
            opts = ["int|none", "none|str", "int|none", "str|none"]
            if recs:
                opts.append("@%s|none" % self.pick(recs)["name"])
            return "u:" + self.pick(opts)
        return t

    no_types = ()
    u2 = .7         # weight of unions of record types
    digits = .06    # chance of an odd key in a dict collection
    recw = 4        # weight of record types
    fill = .75      # chance of each property to be given
    ucoll = 0       # part of those which are of a collection and a record
    nones = 0       # weight of types which allow None

    def gen_prop(self, name, json, opts):
        rng = self.rng
        t = self.gen_type(json_only=json)
        p = {"name": name, "t": t}
        o = lambda k, d: self.chance(opts.get(k, d))
        if t in ("int", "str", "float") and o("kind", .3):
            p["style"] = "kind"
        elif t.startswith(("list:", "dict:")):
            st = ["", "kind", "isa"] + (["json", "json"] if json else [])
            if "style_isa" in opts and not opts["style_isa"]:
                st.remove("isa")
            p["style"] = self.pick(st)
        if t == "int" and o("chk", .2):
            p["chk"] = "pos"
        if t == "str" and o("chk", .15):
            p["chk"] = "short"
        if t == "int" and o("co", .25) and p.get("style") != "kind":
            p["co"] = "int"
        if t == "str" and o("co", .2) and p.get("style") != "kind":
            p["co"] = "str"
        if o("req", .2):
            p["req"] = 1
        if ("req" not in p or self.chance(opts.get("reqdf", .3))) and \
                o("dflt", .2):
            if t == "int":
                p[self.pick(["df", "dv"])] = None
                if "df" in p:
                    p["df"] = "d5"
                else:
                    p["dv"] = self.pick([3, 4])
            elif t == "str":
                if self.chance(.5):
                    p["df"] = "dstr"
                else:
                    p["dv"] = "def"
            elif t == "pos":
                p["df"] = "dtwo"
            elif t == "plist" or t.startswith("list:"):
                p["df"] = "dlist"
            elif t == "any":
                p["df"] = self.pick(["d0", "dlist"])
        if o("ext", .1):
            p["ext"] = 1
        if o("ro", .1):
            p["ro"] = 1
        if t == "any" and o("safe", 0):
            p["safe"] = 1
        if o("lazy", .08) and "df" not in p and "dv" not in p \
                and "req" not in p:
            const = opts.get("lazyconst")
            if t in ("int", "any", "pos"):
                p["lazy"] = 1
                p["dm"] = "const" if const else "unique"
            elif t == "str":
                p["lazy"] = 1
                p["dm"] = "conststr" if const else "uniqstr"
        if o("v1", .06) and not set(p) & {"df", "dv", "ro", "lazy"}:
            p["v1n"] = None
        if t in ("str", "uni") and o("ca", .1):
            p["ca"] = self.pick(["upper", "lower"])
        if json:
            if o("jn", .3):
                p["jn"] = "j" + name.capitalize()
            elif o("jnone", .04) and "req" not in p:
                p["jn"] = None
            if t == "int" and o("jio", .15):
                p["ji"], p["jo"] = "hex", "tohex"
                if "chk" not in p:
                    pass
        return p

    def gen_class(self, name, json, opts):
        rng = self.rng
        bases = [c["name"] for c in self.records(json=json)
                 if "item" not in c]
        base = "JsonRecord" if json else "Record"
        if bases and self.chance(opts.get("inherit", .2)):
            base = self.pick(bases)
        if self.chance(opts.get("mix", .12)):
            # of two classes (at most one of them may be a JSON record)
            base = self.mixed(base)
        taken = {p["name"] for b in base.split(",") for p in self.props(b)}
        names = [n for n in NAMES if n not in taken]
        rng.shuffle(names)
        c = {"name": name, "base": base, "props": []}
        for n in names[:rng.randrange(opts.get("minp", 1),
                                      opts.get("maxp", 5) + 1)]:
            c["props"].append(self.gen_prop(n, json, opts))
        # a property with the name of the accessor of another one
        for p in list(c["props"]):
            if self.chance(opts.get("acc", 0)) and p["name"] + "0" not in taken:
                c["props"].insert(rng.randrange(len(c["props"]) + 1), {
                    "name": p["name"] + "0", "t": self.pick(["int", "str"])})
        # defaults worked out from other properties
        for p in c["props"]:
            if p["t"] in ("int", "any") and not \
                    set(p) & {"df", "dv", "lazy", "chk", "v1n", "ji"} and \
                    self.chance(opts.get("dmeth", 0)):
                more = [q["name"] for q in c["props"] if q is not p] + \
                    [n for n in names if n not in
                     [q["name"] for q in c["props"]]][:1]
                rng.shuffle(more)
                p["dm"] = "sum:" + ",".join(more[:rng.randrange(1, 4)])
        # primary key over required-able scalar properties
        if self.chance(opts.get("pk", .5)):
            cand = [p for p in c["props"] if p["t"] in
                    ("int", "str", "pos", "uni", "date") +
                    ((p["t"],) if p["t"][:3] == "u:@" and
                     self.chance(opts.get("pku", 0)) else ())
                    and not set(p) & {"lazy", "v1n", "ext", "ca"}
                    and p.get("jn", 1) is not None]
            if cand:
                k = cand[:self.pick([1, 1, 2])]
                c["pk"] = [p["name"] for p in k]
                for p in k:
                    if not set(p) & {"df", "dv"}:
                        p["req"] = 1
        self.classes.append(c)
        self.by[name] = c
        return c

    def mixed(self, base):
        """Another class next to a base class, if one goes with it."""
        def bare(n):
            return n[:-1] if n[-1:] == "0" else n
        cand = [c["name"] for c in self.records(json=False)
                if "as" not in c and "," not in c["base"]]
        if base == "Record" and cand:
            base = cand.pop(self.rng.randrange(len(cand)))
        ns = {bare(p["name"]) for p in self.props(base)}
        fam = set(self.family(base)) | {base}
        cand = [n for n in cand if n not in fam and not
                ns & {bare(p["name"]) for p in self.props(n)}]
        if base == "Record" or not cand:
            return base
        two = [base, self.pick(cand)]
        if self.chance(.4):
            two.reverse()
        return ",".join(two)

    def gen_coll(self, name, json, opts):
        recs = self.records(json=True) if json else self.records()
        item = self.pick(["int", "str"] + ["@" + r["name"] for r in recs] * 2)
        kind = self.pick(["list", "list", "dict"])
        base = {("list", False): "RecordList", ("dict", False):
                "DictCollection", ("list", True): "JsonRecordList",
                ("dict", True): "JsonRecordDict"}[kind, bool(json)]
        if not json and self.chance(opts.get("subgen", .2)):
            # a subclass of a generated collection type
            base = "%s:%s" % (kind, item)
        c = {"name": name, "base": base, "item": item}
        if self.chance(opts.get("collprops", .2)):
            c["props"] = [{"name": "extra", "t": "int"}]
        self.classes.append(c)
        self.by[name] = c
        return c

    def gen_spec(self, n=None, json=.5, colls=.4, **opts):
        """json: probability that the schema's records are JSON records."""
        rng = self.rng
        n = n or rng.randrange(1, 4)
        self.json = self.chance(json)
        for i in range(n):
            self.gen_class("C%d" % i, self.json and self.chance(.85) or
                           self.json, opts)
            if self.chance(colls):
                self.gen_coll("L%d" % i, self.json and self.chance(.6), opts)
        return {"classes": self.classes}

    # ------------------------------------------------------------ values
    def kind_of(self, t):
        """('list'|'dict'|'rec'|'scalar', item type or class name)"""
        if t.startswith("list:"):
            return "list", t[5:]
        if t.startswith("dict:"):
            return "dict", t[5:]
        if t[0] == "@":
            c = self.by[t[1:]]
            b = self.base_kind(t[1:])
            if b in ("RecordList", "JsonRecordList"):
                return "list", self.item_of(t[1:])
            if b in ("DictCollection", "JsonRecordDict"):
                return "dict", self.item_of(t[1:])
            return "rec", t[1:]
        return "scalar", None

    def item_of(self, cname):
        while "item" not in self.by[cname]:
            cname = self.bases(cname)[0]
        return self.by[cname]["item"]

    def unique(self):
        self.uniq += 1
        return self.uniq

    @staticmethod
    def jsoncoll(p):
        """Does the property make a JSON collection type of its own?"""
        return p is not None and p.get("style") != "isa" and \
            p["t"][:5] in ("list:", "dict:") and \
            (p.get("style") == "json" or bool(set(p) & {"jn", "ji", "jo"}))

    def good(self, t, p=None, size=3, depth=0, small=True):
        """An encoded value of exactly the declared type."""
        rng = self.rng
        if p is not None and "chk" in p:
            if p["chk"] == "pos":
                return rng.randrange(1, 9)
            if p["chk"] == "short":
                return self.pick([s for s in STRS if len(s) < 8])
        if t in ("int", "integer"):
            return rng.randrange(-2, 9)
        if t == "num":
            return self.pick([1, 2, 3, 1.5, 2.5, -1, 1, 1.5, 1e20])
        if t == "float":
            return self.pick([0.5, 1.5, 2.25, -3.0, .5, 2.0 ** 60])
        if t in ("str", "uni"):
            return self.pick(STRS)
        if t == "date":
            return {"$d": "2020-0%d-1%d" % (rng.randrange(1, 9),
                                           rng.randrange(0, 9))}
        if t == "dt":
            return {"$dt": "2020-0%d-1%dT0%d:%s" % (
                rng.randrange(1, 9), rng.randrange(0, 9),
                rng.randrange(0, 9), self.pick(
                    ["00:00", "00:00", "07:30", "00:00.250000"]))}
        if t == "pos":
            return rng.randrange(1, 9)
        if t == "evn":
            return 2 * rng.randrange(0, 5)
        if t == "shortstr":
            return self.pick([s for s in STRS if len(s) < 8])
        if t == "any":
            if self.odd and self.chance(self.odd):
                return copy.deepcopy(self.pick(ODD))
            v = self.plain(self.nest)
            return 7 if v is None and p is not None and p.get("req") else v
        if t == "plist":
            return [self.plain(self.nest) for _ in range(rng.randrange(0, 3))]
        if t == "pdict":
            return {self.pick("xyzk"): self.plain(self.nest)
                    for _ in range(rng.randrange(0, 3))}
        if t == "bool":
            return self.chance(.5)
        if t == "none":
            return None
        if t.startswith("u:"):
            if "none" in t and self.chance(.3):
                return None
            return self.good(self.pick(t[2:].split("|")), depth=depth + 1)
        k, x = self.kind_of(t)
        if k == "rec":
            if self.subs and self.chance(self.subs):
                x = self.pick([x] + [c["name"] for c in self.records()
                                     if self.within(c["name"], x)])
            return {"$r": x, "p": self.kwargs(x, depth + 1)}
        n = 0 if depth > 3 else rng.randrange(0, size + 1)
        if self.jsoncoll(p):
            # an anonymous JSON collection type: given as plain data
            if k == "list":
                return [self.good(x, depth=depth + 1) for _ in range(n)]
            return {self.dkey(["", "1", " 2"]):
                    self.good(x, depth=depth + 1) for _ in range(n)}
        pk = {}
        if t[0] == "@" and self.props(t[1:]) and self.chance(.6):
            pk = {"p": {"extra": rng.randrange(5)}}
        if k == "list":
            return {"$c": t, "v": [self.good(x, depth=depth + 1)
                                   for _ in range(n)], **pk}
        return {"$c": t, "v": {self.dkey(["", "1", " 2"]):
                               self.good(x, depth=depth + 1)
                               for _ in range(n)}, **pk}

    subs = .06    # how often records are of a sub-class
    nest = 1    # how deep plain values are
    odd = 0     # how often untyped values are other containers

    pool = ()   # untyped values to take more often

    def plain(self, depth):
        if self.pool and depth > 0 and self.chance(.5):
            return copy.deepcopy(self.pick(self.pool))
        r = [lambda: self.rng.randrange(9), lambda: self.pick(STRS),
             lambda: None, lambda: True,
             lambda: self.pick([1.5, 1.5, 1e20])]
        if depth > 0:
            r += [lambda: [self.plain(depth - 1) for _ in range(
                self.rng.randrange(3))],
                lambda: {self.pick("xyzk"): self.plain(depth - 1)
                         for _ in range(self.rng.randrange(3))}]
        return self.pick(r)()

    def kwargs(self, cname, depth=0, full=False):
        out = {}
        for p in self.props(cname):
            if "lazy" in p and self.chance(.7):
                continue
            if p.get("req") or full or self.chance(self.fill):
                out[p["name"]] = self.good(p["t"], p, depth=depth)
        return out

    def coercible(self, t, p=None, depth=0):
        """A value that is not of the type but coerces to it, or None."""
        rng = self.rng
        if t in ("int", "integer"):
            if p and p.get("chk") == "pos":
                return str(rng.randrange(1, 9))
            return str(rng.randrange(0, 9))
        if t == "num":
            return self.pick(["3", "2.5"])
        if t == "float":
            return self.pick(["1.5", 2])
        if t == "pos":
            return str(rng.randrange(1, 9))
        if t == "shortstr":
            return rng.randrange(9)
        if t == "str":
            return rng.randrange(9)
        if t == "date":
            return self.pick(["2020-03-04", {"$dt": "2020-01-02T03:04:05"}])
        if t == "dt":
            return self.pick(["2020-03-04", {"$d": "2020-01-02"},
                              "2020-03-04T05:06:07"])
        if t in ("any", "evn", "plist", "pdict", "uni", "bool", "none"):
            return None
        if t.startswith("u:"):
            return None
        k, x = self.kind_of(t)
        if k == "rec":
            if self.is_json(x):
                return None
            if depth > 2:
                return None
            return self.kwargs(x, depth + 1)
        n = rng.randrange(0, 3)

        def item():
            v = self.coercible(x, depth=depth + 1) \
                if self.chance(.5) and depth < 2 else None
            if v is None:
                v = self.good(x, depth=depth + 1)
            return v
        if k == "list":
            form = self.pick(["l", "t", "g"])
            its = [item() for _ in range(n)]
            if t[0] == "@" and self.is_json(t[1:]):
                form = "l"
            return its if form == "l" else {"$t": its} if form == "t" else \
                {"$it": its}
        return {self.pick("kwxyz"): item() for _ in range(n)}

    def bad(self, t, p=None):
        """A value that must be refused (None when there is no such)."""
        if p is not None and "chk" in p:
            if p["chk"] == "pos" and self.chance(.5):
                return self.pick([0, -1, "-3"])
            if p["chk"] == "short" and self.chance(.5):
                return "much too long text"
        x = {"$x": "bad"}
        if t in ("int", "integer", "num", "float"):
            return self.pick(["zz", x, [1], None if not (
                p and "v1n" in p) else "zz"])
        if t == "pos":
            return self.pick(["zz", x, 0, -4, "-1"])
        if t == "evn":
            return self.pick(["zz", x, 1, 3])
        if t == "shortstr":
            return "much too long for this"
        if t in ("date", "dt"):
            return self.pick(["zz", x, 17])
        if t == "uni":
            return self.pick([x, 5, [1]])
        if t == "plist":
            return self.pick([x, 5])
        if t == "pdict":
            return self.pick([x, 5, [1]])
        if t in ("any", "str", "bool", "none"):
            return None
        if t.startswith("u:"):
            return self.pick([x, 1.5]) if "none" in t else None
        k, it = self.kind_of(t)
        if k == "rec":
            return self.pick([x, 5, {"no_such_prop": 1}]) \
                if not self.is_json(it) else self.pick([x, 5, [1]])
        b = self.bad(it)
        if k == "list":
            r = [x, 17] if not (t[0] == "@" and self.is_json(t[1:])) else [17]
            if b is not None:
                g = [self.good(it) for _ in range(self.rng.randrange(3))]
                g.insert(self.rng.randrange(len(g) + 1), b)
                return self.pick([g, g, {"$it": g}] if not (
                    t[0] == "@" and self.is_json(t[1:])) else [g])
            return "abc"
        if b is not None:
            g = {self.pick("kwxyz"): self.good(it) for _ in range(2)}
            g[self.pick("kwxyz")] = b
            return g
        return "abc"

    # ------------------------------------------------------------ documents
    def jname(self, p):
        return p["jn"] if "jn" in p else p["name"]

    def doc(self, cname, depth=0, unknown=.2, full=False):
        """A JSON document for a record class."""
        out = {}
        for p in self.props(cname):
            n = self.jname(p)
            if n is None:
                continue
            if "lazy" in p and self.chance(.6):
                continue
            if p.get("req") or full or self.chance(self.fill):
                out[n] = self.docval(p["t"], p, depth)
        if self.is_json(cname) and self.chance(unknown):
            for _ in range(self.pick([1, 1, 2, 3])):
                out["unk" + self.pick("123")] = self.plain(2)
        items = list(out.items())
        self.rng.shuffle(items)
        return dict(items)

    def docval(self, t, p=None, depth=0):
        rng = self.rng
        if p is not None and p.get("ji") == "hex":
            v = rng.randrange(1, 40)
            return "%x" % v
        if t == "date":
            return "2020-0%d-1%d" % (rng.randrange(1, 9), rng.randrange(9))
        if t == "dt":
            return "2020-0%d-1%dT0%d:00:00" % (
                rng.randrange(1, 9), rng.randrange(9), rng.randrange(9))
        if t.startswith("u:"):
            for x in t[2:].split("|"):
                if x[0] != "@" and x[4:5] != ":":
                    return self.docval(x)
        k, x = ("scalar", None) if t.startswith("u:") else self.kind_of(t)
        if k == "rec":
            if self.is_json(x):
                return self.doc(x, depth + 1)
            return self.plaindoc(x, depth + 1)
        if k == "scalar":
            v = self.good(t, p)
            return v
        n = rng.randrange(0, 4) if depth < 3 else 0
        if k == "list":
            return [self.docval(x, None, depth + 1) for _ in range(n)]
        return {self.dkey(["", "1"]):
                self.docval(x, None, depth + 1) for _ in range(n)}

    def plaindoc(self, cname, depth):
        """Document of a non-JSON record nested in another: keyed by
        property name."""
        out = {}
        for p in self.props(cname):
            if p.get("req") or self.chance(.75):
                out[p["name"]] = self.docval(p["t"], None, depth)
        return out

    # ------------------------------------------------------------ paths
    def path(self, t, maxlen=4, wild=.25, bad=.06):
        """A selector path into a value of type t -> (path, leaf type)."""
        rng = self.rng
        out = []
        while len(out) < maxlen:
            if t.startswith("u:") or t in ("plist", "pdict", "any"):
                break
            k, x = self.kind_of(t)
            if k == "scalar":
                break
            if out and self.chance(.12):
                break
            if k == "rec":
                ps = self.props(x)
                if not ps or self.chance(bad):
                    out.append("no_such")
                    return out, None
                p = self.pick(ps)
                out.append(p["name"])
                t = p["t"]
            elif k == "list":
                out.append(None if self.chance(wild) else
                           rng.randrange(0, 4))
                t = x
            else:
                out.append(None if self.chance(wild) else
                           self.pick("kwxyz") + self.pick(["", "", "1"]))
                t = x
        return out or [self.pick(NAMES)], t

    def mfs_paths(self, t, n=None):
        """Paths for one multi-field selector (never a wildcard next to a
        name at the same place)."""
        out = []
        for _ in range(n or self.rng.randrange(1, 4)):
            p = self.path(t, bad=.02)[0]
            if self.path_ok(out + [p]):
                out.append(p)
        return out

    @staticmethod
    def path_ok(paths):
        seen = {}
        for p in paths:
            for i in range(len(p)):
                pre = tuple("*" if x is None else x for x in p[:i])
                seen.setdefault(pre, set()).add(p[i] is None)
        return all(len(v) == 1 for v in seen.values())

    # ------------------------------------------------------------ reading ops
    DIFFOPTS = [{}, {}, {"ignore_ws": False}, {"ignore_case": True},
                {"unchanged": True}, {"moved": True},
                {"ignore_empty_slots": True}, {"fuzzy_match": False},
                {"ignore_empty_items": True}, {"extraneous": True},
                {"duck_type": True}]

    def read_op(self, objs, heavy=None):
        """objs: {name: type string}"""
        rng = self.rng
        x = self.pick(sorted(objs))
        t = objs[x]
        same = [n for n in sorted(objs) if objs[n] == t]
        k, it = self.kind_of(t)
        is_json = t[0] == "@" and self.is_json(t[1:])
        ch = [("to_json", 4), ("eq", 2), ("hash", 1), ("str", 1), ("repr", 1),
              ("pk", 1), ("diff", 4), ("visit", 4), ("visitcast", 1),
              ("reflect", .5), ("pickle", 2), ("deepcopy", 1), ("fs", 3),
              ("mfs", 3), ("len", .3)]
        if is_json:
            ch += [("json_data", 4)]
        if k == "rec":
            ch += [("get", 2), ("getchain", 3), ("to_json_prop", 1)]
        o = heavy if heavy in [c for c, _ in ch] else self.weighted(ch)
        op = {"o": o, "x": x}
        if o in ("to_json", "json_data"):
            op["ext"] = self.chance(.6)
        elif o in ("eq", "diff"):
            op["y"] = self.pick(same)
            if o == "diff":
                op["opts"] = dict(self.pick(self.DIFFOPTS))
                if self.chance(.25):
                    op["opts"]["compare_filter"] = self.mfs_paths(t)
                op[self.pick(["iter", "json", "str"]) if is_json else
                   self.pick(["iter", "str"])] = 1
        elif o == "visit":
            if self.chance(.5):
                op["filter"] = self.mfs_paths(t)
            for q in ("extraneous", "apply_empty_slots", "ignore_none",
                      "ignore_empty_string"):
                if self.chance(.25):
                    op[q] = self.chance(.5)
        elif o == "pickle":
            op["proto"] = rng.randrange(0, 6)
        elif o == "fs":
            op["path"] = self.path(t)[0]
            op["m"] = self.pick(["get", "get", "get_or_none"])
        elif o == "mfs":
            op["paths"] = self.mfs_paths(t)
            op["m"] = self.pick(["get", "get", "get", "iter"])
        elif o in ("get", "to_json_prop"):
            ps = self.props(it)
            op["a"] = self.pick(ps)["name"] if ps else "nope"
        elif o == "getchain":
            ch = []
            cur = it
            while len(ch) < 5:
                ps = self.props(cur) if cur else []
                if not ps:
                    break
                p = self.pick(ps)
                ch.append(p["name"] + self.pick(["0", "0", "0", ""]))
                kk, xx = ("scalar", None) if p["t"].startswith("u:") \
                    else self.kind_of(p["t"])
                if kk == "list":
                    ch.append(rng.randrange(3))
                    kk, xx = self.kind_of(xx)
                elif kk == "dict":
                    ch.append(self.pick("kwxyz"))
                    kk, xx = self.kind_of(xx)
                cur = xx if kk == "rec" else None
            op["chain"] = ch or ["nope0"]
            if self.chance(.15):
                del op["chain"][self.rng.randrange(1, len(op["chain"]) + 1):]
                op["chain"].append(self.pick(["no_such", "no_such0", "name"]))
        return op

    def gen_bad(self):
        """Makes a declaration fail."""
        return {"how": self.pick(["arg", "coerce", "default", "v1", "of",
                                  "traits", "ca", "coll", "pos", "reserved",
                                  "pk", "fn"]),
                "feats": [f for f in ("json", "lazy", "ro", "ext", "v1",
                                      "ca", "list") if self.chance(.3)],
                "first": self.chance(.4)}

    def gen_kind(self, name):
        """A property kind of the user's own."""
        t = self.pick(["int", "int", "str", "any", "date"] + (
            [] if "pos" in self.no_types else ["pos"]))
        k = {"o": "kind", "name": name, "t": t, "base": "Property",
             "style": self.pick(["make", "make", "class"])}
        if t == "date":
            k["base"] = "DateProperty"
        elif t == "any":
            k["base"] = self.pick(["Property", "SafeProperty", "ROProperty"])
        elif t in ("int", "str"):
            k["base"] = self.pick(["Property", "SafeProperty", {
                "int": "IntProperty", "str": "StringProperty"}[t]])
        if t in ("int", "str") and self.chance(.5):
            k["co"] = t
        if t in ("int", "str") and self.chance(.3):
            k["df"] = {"int": "d5", "str": "dstr"}[t]
        if k["base"] in ("IntProperty", "StringProperty"):
            k.pop("co", None)
        return k

    def kind_prop(self, k, name):
        """A property of such a kind."""
        p = {"name": name, "t": k["t"], "kind": k["name"]}
        if k["style"] == "class" and self.chance(.5):
            p["karg"] = 5
        f = lambda x: self.chance(x)
        if f(.25):
            p["req"] = 1
        elif f(.25) and k["t"] in ("int", "str") and "df" not in k:
            p["lazy"] = 1
            p["dm"] = {"int": "const", "str": "conststr"}[k["t"]]
        elif f(.2) and "df" not in k:
            p["v1n"] = None
        if f(.2):
            p["ext"] = 1
        if f(.2) and k["base"] != "ROProperty" and "v1n" not in p:
            p["ro"] = 1
        if f(.3):
            p["jn"] = "j" + name
        if f(.2) and k["t"] == "str":
            p["ca"] = "upper"
        return p

    def any_type(self):
        """A type worth making an object of."""
        c = self.pick(self.classes)
        r = ["@" + c["name"]] * 3
        if "item" not in c:
            r += ["list:@" + c["name"], "dict:@" + c["name"]]
        return self.pick(r)

    def make(self, t, to):
        """A setup op building an object of type t."""
        if t[0] == "@" and self.by[t[1:]].get("item") is None and \
                self.is_json(t[1:]) and self.chance(.4):
            return {"o": "from_json", "cls": t[1:], "doc": self.doc(t[1:]),
                    "to": to}
        return {"o": "build", "v": self.good(t), "to": to}

    # ------------------------------------------------------------ probing
    def probe_class(self, cname, tag, full=True):
        """Operations that show how a record or collection class behaves."""
        rng = self.rng
        ops = []
        t = "@" + cname
        a, b = tag + "a", tag + "b"
        if "item" in self.by[cname] or self.kind_of(t)[0] != "rec":
            ops.append({"o": "build", "v": self.good(t), "to": a})
            v = self.coercible(t)
            if v is not None:
                ops.append({"o": "new", "cls": cname, "args": [],
                            "kw": {"values": v}, "to": b})
            v = self.bad(t)
            if v is not None:
                ops.append({"o": "new", "cls": cname, "args": [],
                            "kw": {"values": v}, "to": tag + "c"})
            it = self.item_of(cname)
            v = self.good(it)
            if self.kind_of(t)[0] == "list":
                ops.append({"o": "m", "x": a, "m": "append", "args": [v]})
            else:
                ops.append({"o": "item", "x": a, "m": "set", "k": "k",
                            "v": v})
            ops += [{"o": "to_json", "x": a}, {"o": "repr", "x": a},
                    {"o": "pickle", "x": a, "proto": 2}]
            return ops
        ps = self.props(cname)
        kw = self.kwargs(cname)
        ops.append({"o": "new", "cls": cname, "p": kw, "to": a})
        kw = {}
        for p in ps:
            if "lazy" in p:
                continue
            v = self.coercible(p["t"], p) if self.chance(.6) else None
            if v is None:
                v = self.good(p["t"], p)
            kw[p["name"]] = v
        ops.append({"o": "new", "cls": cname, "p": kw, "to": b})
        if ps:
            kw = dict(kw)
            p = self.pick(ps)
            v = self.bad(p["t"], p)
            if v is not None:
                kw[p["name"]] = v
            else:
                kw.pop(p["name"], None)
            ops.append({"o": "new", "cls": cname, "p": kw, "to": tag + "c"})
        for p in ps:
            n = p["name"]
            ops.append({"o": "get", "x": a, "a": n})
            for f in (self.good, self.coercible, self.bad):
                if self.chance(.5):
                    v = f(p["t"], p)
                    ops.append({"o": "set", "x": a, "a": n, "v": v})
            if self.chance(.3):
                ops.append({"o": "set", "x": a, "a": n, "v": None})
            if self.chance(.4):
                ops.append({"o": "del", "x": a, "a": n})
            if self.chance(.4):
                ops.append({"o": "get", "x": a, "a": n})
            if self.chance(.2):
                ops.append({"o": "get", "x": a, "a": n + "0"})
        ops += [{"o": "to_json", "x": a}, {"o": "to_json", "x": b},
                {"o": "pickle", "x": b, "proto": 2},
                {"o": "diff", "x": a, "y": b},
                {"o": "visit", "x": b}, {"o": "eq", "x": a, "y": b},
                {"o": "from_json", "cls": cname, "doc": self.doc(cname),
                 "to": tag + "d"},
                {"o": "str", "x": a}]
        if full:
            return ops
        keep = [o for o in ops[3:] if self.chance(.5)]
        return ops[:3] + keep

    # ------------------------------------------------------------ mutations
    def target(self, objs, deep=.45):
        """A (reference, type) of something to change."""
        x = self.pick(sorted(objs))
        t = objs[x]
        ref = [x]
        while self.chance(deep):
            if t.startswith("u:"):
                break
            k, it = self.kind_of(t)
            if k == "rec":
                ps = [p for p in self.props(it) if not
                      p["t"].startswith("u:") and
                      self.kind_of(p["t"])[0] != "scalar"]
                if not ps:
                    break
                p = self.pick(ps)
                ref.append(p["name"])
                t = p["t"]
            elif k in ("list", "dict"):
                if it[0] != "@":
                    break
                ref.append(self.rng.randrange(0, 3) if k == "list"
                           else self.pick("kwxyz"))
                t = it
            else:
                break
        return (ref if len(ref) > 1 else x), t

    def value(self, t, p=None, bad=.3, co=.3, refs=None):
        r = self.rng.random()
        if refs and r > .9:
            # an existing object of that type: shared structure
            c = [n for n in sorted(refs) if refs[n] == t]
            if c:
                return {"$ref": self.pick(c)}
        if r < bad:
            v = self.bad(t, p)
            if v is not None:
                return v
        elif r < bad + co:
            v = self.coercible(t, p)
            if v is not None:
                return v
        return self.good(t, p)

    def items_in(self, it, bad=.3, co=.3, fail=.2, n=4, forms="ltigs"):
        """An input of several items in one of several forms."""
        vs = [self.value(it, bad=bad / 3, co=co)
              for _ in range(self.rng.randrange(0, n))]
        f = self.pick(forms)
        if f == "s":
            v = self.typed_in(it)
            if v is not None:
                return v
        if f == "t":
            return {"$t": vs}
        if f == "g":
            return {"$gen": vs}
        if f == "i":
            d = {"$it": vs}
            if self.chance(fail):
                d["fail"] = self.rng.randrange(0, len(vs) + 1)
                d["act"] = self.pick(["raise", "value", "type", "key",
                                      "attr"])
            return d
        return vs

    def family(self, name):
        """The record types related to one by inheritance."""
        up = {c["name"]: [b for b in c["base"].split(",")
                          if any(b == d["name"] for d in self.records())]
              for c in self.records()}
        fam, todo = set(), [name]
        while todo:
            n = todo.pop()
            if n in fam or n not in up:
                continue
            fam.add(n)
            todo += up[n] + [k for k in up if n in up[k]]
        return sorted(fam)

    def typed_in(self, it):
        """Items in a typed list of another type than the one they are for
        (a wider one, that of a relative, or the same)."""
        n = self.rng.randrange(1, 4)
        if it[0] == "@":
            fam = self.family(it[1:])
            if not fam:
                return None
            if len(fam) == 1 or self.chance(.2):
                t = "@" + self.pick(sorted(
                    c["name"] for c in self.records()))
            else:
                t = "@" + self.pick(fam)
            own = [c for c in [it[1:]] + fam if self.within(c, t[1:])]
            if not own:
                own = [t[1:]]
            vs = [self.good("@" + (own[0] if self.chance(.4)
                                   else self.pick(own))) for _ in range(n)]
        elif it in ("pos", "evn"):
            t, vs = "int", [self.pick([1, 2, 4, 6, -1, 0, 3])
                            for _ in range(n)]
        elif it == "shortstr":
            t, vs = "str", [self.pick(STRS) for _ in range(n)]
        elif it in ("int", "str"):
            t = self.pick(["int", "str"])
            vs = [self.good(t) if self.chance(.6) else
                  (1 if t == "int" else "1") for _ in range(n)]
        else:
            return None
        return {"$c": "list:" + t, "v": vs}

    def within(self, sub, sup):
        """Whether a record type is one by inheritance."""
        if sub == sup:
            return True
        return any(self.within(b, sup) for c in self.records()
                   if c["name"] == sub for b in c["base"].split(","))

    def index(self):
        return self.rng.randrange(-6, 7)

    def slice(self):
        r = self.rng
        f = lambda: self.pick([None, None, self.index()])
        return {"$s": [f(), f(), self.pick([None, None, None, 1, 2, -1, -2])]}

    def list_op(self, x, it, bad=.2, co=.3, fail=.2, read=.2, n=4):
        V = lambda: self.value(it, bad=bad, co=co)
        I = lambda: self.items_in(it, bad, co, fail, n)
        if self.chance(read):
            o = self.pick(["get", "slice", "len", "iter", "in", "index",
                           "count"])
            if o == "get":
                return {"o": "item", "x": x, "m": "get", "k": self.index()}
            if o == "slice":
                return {"o": "item", "x": x, "m": "get", "k": self.slice()}
            if o in ("len", "iter"):
                return {"o": o, "x": x}
            if o == "in":
                return {"o": o, "x": x, "v": self.present(x, it)}
            a = [self.present(x, it)]
            if o == "index":
                a += self.pick([[], [self.index()],
                                [self.index(), self.index()]])
            return {"o": "m", "x": x, "m": o, "args": a}
        o = self.weighted([
            ("append", 3), ("extend", 3), ("insert", 2.5), ("pop", 1.5),
            ("popi", 1), ("remove", 1), ("reverse", .5), ("sort", .5),
            ("set", 3), ("setslice", 4), ("del", 1.5), ("delslice", 1)])
        m = {"o": "m", "x": x, "m": o}
        if o == "append":
            return dict(m, args=[V()])
        if o == "extend":
            return dict(m, args=[I()])
        if o == "insert":
            return dict(m, args=[self.index(), V()])
        if o in ("pop", "reverse", "sort"):
            return dict(m, args=[])
        if o == "popi":
            return dict(m, m="pop", args=[self.index()])
        if o == "remove":
            return dict(m, args=[self.present(x, it)])
        if o == "set":
            return {"o": "item", "x": x, "m": "set", "k": self.index(),
                    "v": V()}
        if o == "setslice":
            return {"o": "item", "x": x, "m": "set", "k": self.slice(),
                    "v": I()}
        return {"o": "item", "x": x, "m": "del",
                "k": self.index() if o == "del" else self.slice()}

    odd_keys = 0      # how often dict keys are no strings
    items_of = None   # an existing collection to take items from

    def dkey(self, tails):
        """The key of an item of a dict collection"""
        if self.chance(self.digits):
            return self.pick(["7", "0", "12", "a b", "it's", "a.b", "*",
                              "\u00e9"])
        return self.pick("kwxyz") + self.pick(tails)

    def key(self):
        if self.odd_keys and self.chance(self.odd_keys):
            return copy.deepcopy(self.pick(
                [0, 1, True, -1, None, 2.0, {"$t": [1, "k"]}]))
        return self.pick("kwxyz") + self.pick(["", "", "", "1", " 2"])

    @staticmethod
    def mapping(vs):
        vs = list(vs)
        if all(isinstance(k, str) for k, _ in vs):
            return dict(vs)
        return {"$D": [list(kv) for kv in vs]}

    def present(self, x, it):
        """An item to look for; often one that is there."""
        if self.chance(.6):
            return {"$at": [x, self.rng.randrange(0, 5), self.good(it)]}
        return self.good(it)

    def dict_op(self, x, it, bad=.2, co=.3, fail=.2, read=.2, n=4):
        V = lambda: self.value(it, bad=bad, co=co)
        k = self.key()
        if self.chance(read):
            o = self.pick(["get", "len", "iter", "in", "keys", "values",
                           "items", "itertuples", "iterkeys", "itervalues",
                           "iteritems"])
            if o == "get":
                return {"o": "item", "x": x, "m": "get", "k": k}
            if o in ("len", "iter"):
                return {"o": o, "x": x}
            if o == "in":
                return {"o": o, "x": x, "v": k}
            return {"o": "m", "x": x, "m": o, "args": [], "list": 1}
        o = self.weighted([("set", 4), ("del", 1.5), ("pop", 1.5),
                           ("popitem", 1), ("clear", .3), ("update", 4),
                           ("updatekw", 1.5)])
        m = {"o": "m", "x": x, "m": o}
        if o in ("set", "del"):
            r = {"o": "item", "x": x, "m": o, "k": k}
            if o == "set":
                r["v"] = V()
            return r
        if o == "pop":
            return dict(m, args=[k])
        if o in ("popitem", "clear"):
            return dict(m, args=[])
        vs = [(self.key(), self.value(it, bad=bad / 3, co=co))
              for _ in range(self.rng.randrange(0, n))]
        if o == "updatekw":
            return dict(m, m="update", args=[],
                        kw={a.replace(" ", "_"): v for a, v in vs
                            if isinstance(a, str)})
        f = self.pick("mmppiiM")
        if f == "m":
            return dict(m, args=[self.mapping(vs)])
        if f == "M":
            d = {"$map": [list(kv) for kv in vs]}
            if self.chance(fail):
                d["fail"] = self.rng.randrange(0, len(vs) + 1)
                d["act"] = self.pick(["raise", "value", "type", "key"])
            return dict(m, args=[d])
        ps = [{"$t": [a, v]} for a, v in vs]
        if self.odd_keys and ps and self.chance(.08):
            ps[self.rng.randrange(len(ps))] = copy.deepcopy(self.pick(
                [{"$t": ["k"]}, {"$t": ["k", 1, 2]}, 5, "ab", ["k"], None]))
        if f == "p":
            return dict(m, args=[ps])
        d = {"$it": ps}
        if self.chance(fail):
            d["fail"] = self.rng.randrange(0, len(ps) + 1)
            d["act"] = self.pick(["raise", "value", "type", "key"])
        return dict(m, args=[d])

    def rec_op(self, x, cname, bad=.3, co=.3, refs=None):
        ps = self.props(cname)
        if not ps:
            return {"o": "set", "x": x, "a": "no_such", "v": 1}
        p = self.pick(ps)
        r = self.rng.random()
        if r < .2:
            q = [d for d in ps if d.get("req")]
            if q and self.chance(.4):
                p = self.pick(q)
            return {"o": "del", "x": x, "a": p["name"]}
        if r < .27:
            return {"o": "set", "x": x, "a": p["name"], "v": None}
        return {"o": "set", "x": x, "a": p["name"],
                "v": self.value(p["t"], p, bad, co, refs)}

    def mutate(self, objs, deep=.45, fs=.15, **kw):
        """One operation that changes something."""
        if self.chance(fs):
            x = self.pick(sorted(objs))
            p, t = self.path(objs[x], wild=.1)
            m = self.pick(["put", "put", "post", "delete"])
            op = {"o": "fs", "x": x, "path": p, "m": m}
            if m != "delete":
                op["v"] = self.value(t) if t else 3
            return op
        x, t = self.target(objs, deep)
        k, it = ("scalar", None) if t.startswith("u:") else self.kind_of(t)
        if k == "list":
            return self.list_op(x, it, read=.05, **kw)
        if k == "dict":
            return self.dict_op(x, it, read=.05, **kw)
        if k == "rec":
            return self.rec_op(x, it, refs=objs)
        return {"o": "get", "x": x, "a": "a"}
