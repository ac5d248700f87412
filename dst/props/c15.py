"""C15: a damaged or differently delivered document never yields a wrong
record."""
import copy
import datetime
import json
import re

from .. import common as C
from ..gen import Gen

RUNS = {"quick": 130, "thorough": 3500}
RULE = ("Each case: 1-3 documents which were damaged on the way (truncated, "
        "bytes flipped, spans lost, doubled or moved, keys lost, doubled or "
        "exchanged, parts replaced by their text or by parts of another "
        "document, broken UTF-8), delivered as text, bytes, bytearray and "
        "loaded, by function, constructor and method, on 1-2 preempted "
        "threads, with failing and interrupted conversions before and "
        "between.  Every clean conversion is compared with what the parsed "
        "content denotes according to the schema, worked out slot by slot, "
        "and with the same delivery alone in a fresh process; the forms of "
        "delivery with one another.")
ASSUMES = ["What None, or a value of another JSON type than the slot's, "
           "stands for in a slot which coerces is not judged in each case; "
           "the rest of such a document is.",
           "A document whose outermost value is a text or null is only "
           "judged for equal outcomes in equal forms."]


def schema(g):
    g.no_types = ("bool",) if g.chance(.3) else ()
    spec = g.gen_spec(n=g.pick([1, 2, 2, 3]), json=.92, colls=.5, lazy=0,
                      req=.3, dflt=.3, jio=.3, jn=.35, minp=2, maxp=6,
                      co=.3, chk=.25, v1=.04)
    used = {b for c in g.classes for b in c["base"].split(",")}
    for c in g.classes:
        prev = [x for x in g.classes[:g.classes.index(c)]
                if x["name"] not in c["base"].split(",")]
        if prev and "item" not in c and c["name"] not in used and \
                g.chance(.7) and not any(p["name"] == "deep"
                                         for p in g.props(c["name"])):
            q = g.pick(prev)
            p = {"name": "deep", "t": "@" + q["name"]}
            if "item" not in q and g.chance(.6):
                p["t"] = g.pick(["list:", "dict:"]) + p["t"]
                if g.is_json(q["name"]) and g.is_json(c["name"]) and \
                        g.chance(.6):
                    p["style"] = "json"
            c["props"].append(p)
    return spec


# ------------------------------------------------------------ damage
class Pairs(dict):
    """A JSON object with a text of its own (doubled keys...)."""


def nodes(d, path=()):
    yield path
    if isinstance(d, dict):
        for k in d:
            for p in nodes(d[k], path + (k,)):
                yield p
    elif isinstance(d, list):
        for i, x in enumerate(d):
            for p in nodes(x, path + (i,)):
                yield p


def at(d, path):
    for k in path:
        d = d[k]
    return d


def put(d, path, v):
    if not path:
        return v
    at(d, path[:-1])[path[-1]] = v
    return d


def dump(g, d, dup=None):
    """JSON text of d, with a key doubled: dup = (path, key, value, first)"""
    sep = (",", ":") if g.chance(.3) else (", ", ": ")
    asc = g.chance(.6)

    def text(d, path):
        if isinstance(d, dict):
            its = [(k, text(v, path + (k,))) for k, v in d.items()]
            if dup and dup[0] == path:
                its.insert(0 if dup[3] else len(its),
                           (dup[1], json.dumps(dup[2])))
            return "{" + sep[0].join(
                json.dumps(k, ensure_ascii=asc) + sep[1] + v
                for k, v in its) + "}"
        if isinstance(d, list):
            return "[" + sep[0].join(text(v, path + (i,))
                                     for i, v in enumerate(d)) + "]"
        return json.dumps(d, ensure_ascii=asc)
    return text(d, ())


def reshape(g, d, other):
    """Damage to the structure -> (document, doubled key or None)"""
    rng = g.rng
    d = copy.deepcopy(d)
    ps = list(nodes(d))
    how = g.pick(["drop", "drop", "null", "text", "other", "swap", "dup",
                  "dup", "order", "junk", "move", "retype", "wrap"])
    if how == "wrap":
        # an envelope around a part
        p = g.pick([x for x in ps if isinstance(at(d, x), list)] or ps)
        v = at(d, p)
        k = g.pick(["a", "0", "values", "items"])
        return put(d, p, {k: v} if g.chance(.7) or isinstance(v, list)
                   else [v]), None
    p = g.pick(ps[1:] or ps)
    if not p:
        return d, None
    box = at(d, p[:-1])
    if how == "drop":
        del box[p[-1]]
    elif how == "null":
        box[p[-1]] = None
    elif how == "text":
        box[p[-1]] = json.dumps(box[p[-1]])
        if g.chance(.2):
            box[p[-1]] = box[p[-1]][:-1]
    elif how == "other":
        q = list(nodes(other))
        same = [x for x in q if x and x[-1] == p[-1]]
        box[p[-1]] = copy.deepcopy(at(other, g.pick(same or q)))
    elif how == "swap":
        q = g.pick(ps[1:])
        if q[:len(p)] != p and p[:len(q)] != q:
            a, b = at(d, p), at(d, q)
            d = put(put(d, p, b), q, a)
    elif how == "order" and isinstance(box, dict):
        its = list(box.items())
        rng.shuffle(its)
        box.clear()
        box.update(its)
    elif how == "junk":
        box[p[-1]] = g.pick([0, -1, 7, "zz", "7", "", [], {}, [1], {"a": 1},
                             True, 1.5, 1e300, 12345678901234567890])
    elif how == "move" and isinstance(box, dict):
        k = g.pick([x for x in ps if x and isinstance(x[-1], str)])[-1]
        box[k] = box.pop(p[-1])
    elif how == "retype":
        v = box[p[-1]]
        box[p[-1]] = str(v) if isinstance(v, (int, float)) else \
            [v] if not isinstance(v, list) else \
            {str(i): x for i, x in enumerate(v)}
    elif how == "dup" and isinstance(box, dict):
        k = p[-1] if g.chance(.6) else g.pick(list(box))
        return d, (p[:-1], k, copy.deepcopy(at(other, g.pick(
            list(nodes(other))))) if g.chance(.5) else copy.deepcopy(
                box[p[-1]]), g.chance(.5))
    return d, None


def garble(g, s):
    """Damage to the text."""
    rng = g.rng
    n = len(s)
    i = rng.randrange(n)
    j = min(n, i + g.pick([1, 1, 2, 3, 5, 8, 20]))
    how = g.pick(["cut", "flip", "flip", "digit", "lose", "lose", "twice",
                  "insert", "tail", "letter"])
    if how == "cut":
        return s[:i]
    if how == "flip":
        return s[:i] + chr(ord(s[i]) ^ (1 << rng.randrange(7))) + s[i + 1:]
    if how in ("digit", "letter"):
        at_ = [k for k, c in enumerate(s) if (
            c.isdigit() if how == "digit" else c.isalpha())]
        if at_:
            i = g.pick(at_)
            return s[:i] + g.pick("0123456789-.e" if how == "digit" else
                                  "abkx_ ") + s[i + 1:]
        return s[:i]
    if how == "lose":
        return s[:i] + s[j:]
    if how == "twice":
        return s[:j] + s[i:j] + s[j:]
    if how == "insert":
        return s[:i] + g.pick([",", "\"", " ", "\n", "{", "}", "null", "\0",
                               "NaN", "\ufeff", "\\", "1"]) + s[i:]
    return s + g.pick([" ", "}", ",", "x", s])


def parsed(raw):
    try:
        v = json.loads(raw)
    except (ValueError, RecursionError):
        return False, None
    return True, v


def damaged(g, c, other):
    """-> a delivery: {"raw": text} or {"hex": bytes}"""
    d = g.doc(c, full=g.chance(.3)) if "item" not in g.by[c] else \
        g.docval("@" + c)
    dup = None
    if g.chance(.7):
        for _ in range(g.pick([1, 1, 1, 2, 3])):
            d, dup = reshape(g, d, other)
    s = dump(g, d, dup)
    if g.chance(.35):
        s = garble(g, s)
    if g.chance(.04):
        s = "\ufeff" + s
    if g.chance(.15):
        b = bytearray(s.encode("utf-8"))
        if b:
            i = g.rng.randrange(len(b))
            r = g.rng.random()
            if r < .5:
                b[i] ^= 1 << g.rng.randrange(8)
            elif r < .75:
                b[i:i + 1] = b"\xff" if r < .6 else b"\xe2\x82"
            elif r < .9:        # cut off in a character
                b += g.pick([b"\xe2\x82", b"\xc3", b"\xf0\x9f\x98"])
            else:
                b = b[:i]
        return {"hex": bytes(b).hex()}
    return {"raw": s}


def deliveries(g, c, dv):
    out = []
    ok = "raw" in dv and parsed(dv["raw"])
    vias = ["fn", "ctor", "meth"] if g.is_json(c) else ["fn"]
    via = g.pick(vias)
    for form in (["text", "bytes", "bytearray", "loaded"] if "raw" in dv else
                 ["bytes", "bytearray"]):
        if form == "loaded" and not (ok[0] and isinstance(
                ok[1], (dict, list))):
            continue
        op = {"o": "from_json", "cls": c, "form": form, "doc": 0,
              "via": via if g.chance(.8) else g.pick(vias)}
        op.update(dv)
        out.append(op)
    g.rng.shuffle(out)
    return out


def gen(rng, tier):
    g = Gen(rng)
    spec = schema(g)
    recs = [c["name"] for c in g.classes if "item" not in c or
            g.is_json(c["name"]) and g.chance(.5)]
    threads = []
    nt = g.pick([1, 1, 1, 2])
    c = g.pick(recs[-2:])
    for ti in range(nt):
        ops = []
        for i in range(g.pick([1, 1, 2, 3]) if nt == 1 else 1):
            if g.chance(.3):
                c = g.pick(recs)
            other = g.doc(c) if "item" not in g.by[c] else \
                g.docval("@" + c)
            dv = damaged(g, c, other)
            new = deliveries(g, c, dv)
            if g.chance(.6):
                # one which fails
                bad = dict(new[0])
                bad.pop("hex", 0)
                if g.chance(.4):
                    bad["raw"] = dump(g, other)
                    bad["form"] = g.pick(["text", "bytes", "loaded"])
                elif "raw" not in bad:
                    bad = dict(new[0])
                bad["upset"] = 1
                new.insert(rng.randrange(len(new)), bad)
            if g.chance(.3):
                # a former result, changed by its owner, is no source
                i = rng.randrange(len(new))
                new[i + 1:i + 1] = [{"o": "spoil", "of": None},
                                    dict(new[i])]
            ops += new
        threads.append(ops)
    case = {"spec": spec, "salt": rng.randrange(20), "threads": threads}
    w = C.world(case)
    traces = []
    for ops in threads:
        s = C.run1(w, copy.deepcopy(ops), trace=True)
        tr = s.threads[0]
        traces.append(tr.alltrace)
        for i, op in enumerate(ops):
            if op.pop("upset", 0):
                if tr.opcbs[i] and g.chance(.6):
                    op["cb"] = [[rng.randrange(1, tr.opcbs[i] + 1),
                                 g.pick(C.CB_ACTS)]]
                elif tr.alltrace[i]:
                    C.place_fault(rng, op, tr.alltrace[i])
    if nt > 1:
        C.place_switches(rng, threads, traces, rng.randrange(1, 6), nt)
    return case


# ------------------------------------------------------------ what it denotes
class Fail(Exception):
    pass


UNK = ["?"]
ISO = re.compile(r"\d{4}-\d\d-\d\d$", re.A)
ISOT = re.compile(r"\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d$", re.A)


class Denotes:
    """What the parsed content stands for, according to the schema.  Raises
    Fail when it cannot be converted."""

    def __init__(self, g):
        self.g = g

    def top(self, c, v):
        if isinstance(v, str) or v is None:
            return UNK
        k, x = self.g.kind_of("@" + c)
        if k != "rec":
            if not isinstance(v, list if k == "list" else dict):
                raise Fail("no JSON " + k)
            return self.value("@" + c, v)
        if not isinstance(v, dict):
            raise Fail("no JSON object")
        return self.record(c, v, json=True)

    def record(self, c, d, json):
        """A record from a dict; ``json``: as a JSON document, or as
        arguments"""
        g = self.g
        left = dict(d)
        slots = {}
        isj = g.is_json(c)
        for p in g.props(c):
            n = p["name"]
            key = (g.jname(p) if isj else n) if json else n
            if key is not None and key in left:
                slots[n] = self.slot(p, left.pop(key), json and isj)
            else:
                v = self.default(p)
                if v is not None:
                    slots[n] = v
        if left:
            if not isj or not json:
                raise Fail("unknown %s" % sorted(left))
            slots["unknown_json_keys"] = ["plain", left]
        return ["rec", c, slots]

    def default(self, p):
        for k, v in (("d5", 5), ("d0", 0), ("dlist", []), ("dstr", "dflt"),
                     ("dtwo", 2)):
            if p.get("df") == k:
                return self.slot(dict(p, ji=0), v, False)
        if "df" in p:
            return UNK
        if "dv" in p:
            return ["plain", p["dv"]]
        if p.get("req"):
            raise Fail("required " + p["name"])
        if "v1n" in p:
            return ["may"]

    def slot(self, p, v, json):
        if json and p.get("ji") == "hex":
            if not isinstance(v, str):
                raise Fail("json_in")
            try:
                v = int(v, 16)
            except ValueError:
                raise Fail("json_in")
        elif json and p.get("ji"):
            return UNK
        if v is None and ("v1n" in p or p["t"] != "any" or p.get("req")):
            return UNK
        r = self.value(p["t"], v, p)
        if "chk" in p and r[0] == "plain":
            x = r[1]
            if not (x > 0 if p["chk"] == "pos" else len(x) < 8):
                raise Fail("check")
        return r

    def number(self, f, v):
        if not isinstance(v, (str, int, float)):
            raise Fail("no number")
        try:
            return ["plain", f(v)]
        except (ValueError, OverflowError):
            raise Fail("no number")

    def value(self, t, v, p=None):
        p = p or {}
        g = self.g
        if t == "any":
            return ["plain", v]
        if v is None:
            return UNK
        if t == "int":
            if isinstance(v, int):
                return ["plain", v]
            return self.number(int, v)
        if t == "float":
            if isinstance(v, float):
                return ["plain", v]
            return self.number(float, v)
        if t == "str":
            if isinstance(v, str):
                return ["plain", v]
            if isinstance(v, (dict, list)):
                return UNK
            return ["plain", "s%s" % (v,) if p.get("co") == "str" else
                    str(v)]
        if t == "bool":
            return ["plain", v] if isinstance(v, bool) else UNK
        if t in ("num", "integer"):
            if isinstance(v, int) or t == "num" and isinstance(v, float):
                return ["plain", v]
            if isinstance(v, (dict, list)):
                raise Fail("no number")
            return UNK
        if t == "uni":
            return ["plain", v] if isinstance(v, str) else UNK
        if t in ("date", "dt"):
            if isinstance(v, str) and (ISO if t == "date" else ISOT).match(v):
                try:
                    return ["plain", datetime.date.fromisoformat(v)
                            if t == "date" else
                            datetime.datetime.fromisoformat(v)]
                except ValueError:
                    raise Fail("no such date")
            return UNK
        if t == "pos":
            if isinstance(v, int):
                if v > 0:
                    return ["plain", v]
                raise Fail("pos")
            r = self.number(int, v)
            if r[1] <= 0:
                raise Fail("pos")
            return r
        if t == "evn":
            if isinstance(v, int) and v % 2 == 0:
                return ["plain", v]
            raise Fail("evn")
        if t == "shortstr":
            s = v if isinstance(v, str) else "s%s" % (v,)
            if len(s) < 8:
                return ["plain", s]
            raise Fail("shortstr")
        if t in ("plist", "pdict"):
            return ["plain", v] if isinstance(
                v, list if t == "plist" else dict) else UNK
        if t.startswith("u:"):
            for x in t[2:].split("|"):
                if x in ("int", "str", "float") and isinstance(
                        v, {"int": int, "str": str, "float": float}[x]):
                    return ["plain", v]
            return UNK
        k, x = g.kind_of(t)
        isj = t[0] == "@" and g.is_json(t[1:])
        if isj and isinstance(v, str):
            ok, v = parsed(v)
            if not ok:
                raise Fail("no JSON text")
            if v is None or isinstance(v, str):
                return UNK
        if k == "rec":
            if isinstance(v, dict):
                return self.record(x, v, json=isj)
            if isj:
                raise Fail("no JSON object")
            return UNK
        if not isinstance(v, list if k == "list" else dict):
            if v and isinstance(v, (int, float)) or isj:
                raise Fail("no collection")
            return UNK
        if k == "list":
            return ["list", [self.value(x, i) for i in v]]
        return ["dict", {n: self.value(x, i) for n, i in v.items()}]


def match(w, e, o, path=""):
    """-> what differs, or None"""
    if e is UNK:
        return None
    if e[0] == "plain":
        if same(e[1], o):
            return None
        return "%s is %r, not %r" % (path, w.T.snap(o), e[1])
    if e[0] == "rec":
        if type(o).__name__ != e[1]:
            return "%s is a %s" % (path, type(o).__name__)
        d = {k: v for k, v in vars(o).items() if k[:1] != "_"}
        for k, v in e[2].items():
            if v is UNK or v[0] == "may":
                d.pop(k, 0)
                continue
            if k not in d:
                return "%s.%s is not set" % (path, k)
            r = match(w, v, d.pop(k), "%s.%s" % (path, k))
            if r:
                return r
        if d:
            return "%s.%s is set" % (path, sorted(d)[0])
        return None
    c = vars(o).get("_values") if isinstance(o, w.N.Record) else None
    if type(c) is not (list if e[0] == "list" else dict):
        return "%s is a %s" % (path, type(o).__name__)
    if len(c) != len(e[1]):
        return "%s has %d items, not %d" % (path, len(c), len(e[1]))
    for k in (range(len(c)) if e[0] == "list" else c):
        if e[0] == "dict" and k not in e[1]:
            return "%s[%r] is new" % (path, k)
        r = match(w, e[1][k], c[k], "%s[%r]" % (path, k))
        if r:
            return r
    return None


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, list):
        return len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a) or \
            set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    return a == b or a != a and b != b


def strip(op):
    return {k: v for k, v in op.items() if k not in
            ("sw", "cb", "flt", "fge", "rid", "to")}


def schema_of(case):
    g = Gen(None)
    for c in case["spec"]["classes"]:
        g.classes.append(c)
        g.by[c["name"]] = c
    g.json = True
    return g


def content(op):
    """-> (parses, content)"""
    if "hex" in op:
        try:
            raw = bytes.fromhex(op["hex"]).decode("utf-8")
        except UnicodeDecodeError:
            return False, None
    else:
        raw = op["raw"]
    return parsed(raw)


def run(case, stats):
    w = C.world(case)
    n = 0
    spoilt = set()
    for ops in case["threads"]:
        for op in ops:
            if op["o"] == "spoil":
                op["of"] = "r%d" % n
                spoilt.add(op["of"])
                continue
            n += 1
            op["rid"] = "r%d" % n
    s = C.runN(w, case["threads"], stats)
    if s.stuck:
        return C.violation("stuck", "threads do not finish")
    g = schema_of(case)
    den = Denotes(g)
    alone, forms = {}, {}
    for (_, _, tid, op, out) in s.history():
        if any(k in op for k in ("cb", "flt", "fge")) or \
                op["o"] == "spoil":
            continue
        brief = strip(op)
        ok, v = content(op)
        try:
            if not ok:
                raise Fail("no JSON")
            e = den.top(op["cls"], v)
        except Fail as f:
            e = None
            if out[0] == "ok":
                return C.violation(
                    "accepted", "a document which must not convert (%s) "
                    "gives a record" % f, op=brief, got=out)
        if e is not None and out[0] == "ok" and op["rid"] not in spoilt:
            with w.node:
                bad = match(w, e, w.results[op["rid"]])
            if bad:
                return C.violation(
                    "wrong", "the record is not what the document says",
                    op=brief, what_differs=bad, got=out)
        if e is not None and out[0] != "ok" and "?" not in repr_(e):
            return C.violation(
                "refused", "a document which denotes a record does not "
                "convert", op=brief, got=out)
        # the same alone, in a fresh process
        k = repr(sorted(brief.items()))
        if k not in alone and (len(alone) < 1 or len(alone) < 3 and (
                "?" in repr_(e or ["plain"]))):
            alone[k] = C.outs(C.run1(C.world(case), [brief]))[0]
        if alone.get(k, out) != out:
            return C.violation(
                "history", "a conversion differs from the same conversion "
                "alone in a fresh process", op=brief, alone=alone[k],
                got=out)
        # other forms of the same
        if "raw" in op and ok and not isinstance(v, (dict, list)) and \
                op["form"] == "loaded":
            continue
        k = repr((op["cls"], op.get("raw"), op.get("hex"), op["via"]))
        r = out if out[0] == "ok" else out[:2]
        if ok and forms.setdefault(k, (r, op["form"]))[0] != r:
            return C.violation(
                "form", "two forms of one document do not convert alike",
                op=brief, other=forms[k][1], got=out, first=forms[k][0])
    return None


def repr_(e):
    """The marks of unjudged parts in an expectation."""
    if e is UNK:
        return "?"
    if e[0] == "rec":
        return "".join(repr_(x) for x in e[2].values())
    if e[0] == "list":
        return "".join(repr_(x) for x in e[1])
    if e[0] == "dict":
        return "".join(repr_(x) for x in e[1].values())
    return ""
