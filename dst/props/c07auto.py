"""The part of C07 about AutoJsonRecord: attributes made from documents.

The model is the JSON document itself: whatever is converted, assigned,
deleted, saved and read back, the record must convert to that document.
"""
import copy
import re

from .. import common as C
from ..gen import Gen

KEYS = ["plain", "fooBar", "aB", "x1Y", "someLongName", "q", "zEd",
        "a_1", "n2", "_x", "ABC", "fooBAR", "Foo", "two__u", "x-y", "a b",
        "1", "b_2Cd", "ünÏ", "class", "end_"]


def py_name(key, nc):
    return key if nc else re.sub(
        "([a-z0-9])([A-Z])", lambda m: m[1] + "_" + m[2].lower(), key)


def scalar(g):
    return g.pick([0, 1, -5, "", "abc", "Ünï", None, True, 1.5, [], [1, "x"],
                   [[2], [{"aB": 1}]], 7])


def doc(g, depth=0):
    out = {}
    for k in g.rng.sample(KEYS, g.rng.randrange(0, 4)):
        r = g.rng.random()
        if depth < 3 and r < .3:
            out[k] = doc(g, depth + 1)
        elif depth < 3 and r < .5:
            out[k] = [doc(g, depth + 1) for _ in range(g.pick([1, 2, 3]))]
        else:
            out[k] = scalar(g)
    return out


def spots(d, nc, path=()):
    """Every record in a document: (path of attributes, its part)"""
    yield list(path), d
    for k, v in d.items():
        at = path + (py_name(k, nc),)
        if isinstance(v, dict):
            yield from spots(v, nc, at)
        elif isinstance(v, list) and v and isinstance(v[0], dict):
            for i, x in enumerate(v):
                yield from spots(x, nc, at + (i,))


def gen(rng):
    g = Gen(rng)
    nc = rng.random() < .4
    props = [{"name": n, "t": t} for n, t in [("num", "int"), ("txt", "str")]
             if g.chance(.7)]
    if props and g.chance(.3):
        props[0]["jn"] = "jName"
    spec = {"classes": [{"name": "A0", "base": "NCAutoJsonRecord" if nc else
                         "AutoJsonRecord", "props": props}]}
    if g.chance(.3):
        spec["classes"].append({"name": "A1", "base": "A0", "props": [
            {"name": "more", "t": "int"}]})
    cls = g.pick(spec["classes"])["name"]
    d = doc(g)
    for p in props:
        if g.chance(.8):
            d[p.get("jn", p["name"])] = 3 if p["t"] == "int" else "t"
    steps = []
    model = copy.deepcopy(d)
    decl = {p["name"]: p for p in props}
    for i in range(rng.randrange(0, 5)):
        path, part = g.pick(list(spots(model, nc)))
        names = [p["name"] for p in props] if not path else []
        if part and g.chance(.4):
            k = g.pick(sorted(part))
            a = [n for n in names if decl[n].get("jn", n) == k]
            steps.append({"o": "del", "x": ["x"] + path,
                          "a": a[0] if a else py_name(k, nc), "k": k})
            del part[k]
        elif names and g.chance(.4):
            n = g.pick(names)
            k = decl[n].get("jn", n)
            v = rng.randrange(9) if decl[n]["t"] == "int" else "s%d" % i
            if decl[n]["t"] == "int" and g.chance(.3):
                v = {"$x": "bad"}
                steps.append({"o": "set", "x": ["x"] + path, "a": n, "v": v,
                              "bad": 1})
            else:
                steps.append({"o": "set", "x": ["x"] + path, "a": n, "v": v})
                part[k] = v
        else:
            k = g.pick(KEYS)
            v = g.pick([scalar(g), 5])
            steps.append({"o": "set", "x": ["x"] + path,
                          "a": py_name(k, nc), "v": v})
            part[k] = copy.deepcopy(v)
        steps[-1]["want"] = copy.deepcopy(model)
    saves = []
    for i in range(rng.randrange(1, 4)):
        sv = {"how": g.pick(["pickle", "deep", "json"]),
              "proto": rng.randrange(0, 6),
              "form": g.pick(["text", "bytes", "loaded"]),
              "via": g.pick(["fn", "ctor"])}
        for k in ("sf", "lf"):
            if g.chance(.25):
                sv[k] = [rng.randrange(1, 120), g.pick(["KI", "ME"])]
        saves.append(sv)
    return {"auto": 1, "spec": spec, "salt": rng.randrange(50), "cls": cls,
            "doc": d, "nc": nc, "steps": steps, "saves": saves,
            "node2": {"salt": rng.randrange(50)}}


def same(w, name, want, case):
    """Difference between what a record says and the model, or None"""
    with w.node:
        o = w.objs[name]
        try:
            got = o.json_data(extraneous=True)
        except Exception as e:
            return {"json_data": repr(e)[:200], "document": want}
        if got != want:
            return {"json_data": got, "document": want}
        for path, part in spots(want, case["nc"]):
            x = o
            try:
                for k in path:
                    x = getattr(x, k) if isinstance(k, str) else x[k]
                for k, v in part.items():
                    if path or k not in ("jName",):
                        y = getattr(x, py_name(k, case["nc"]))
                        if not isinstance(v, (dict, list)) and y != v:
                            return {"at": path + [k], "read": repr(y)[:100],
                                    "document": want}
                for k in KEYS:
                    if k not in part and hasattr(
                            x, py_name(k, case["nc"])):
                        return {"at": path + [k], "what": "there is one",
                                "document": want}
            except Exception as e:
                return {"at": path, "error": repr(e)[:200],
                        "document": want}
    return None


def run(case, stats, retry):
    w = C.world(case)
    out = C.outs(C.run1(w, [{"o": "from_json", "cls": case["cls"],
                             "doc": case["doc"], "to": "x"}], stats))[0]
    if out[0] != "ok":
        return C.violation("auto:convert", "a document does not convert to an "
                           "automatic record", doc=case["doc"], outcome=out)
    want = case["doc"]
    d = same(w, "x", want, case)
    if d:
        return C.violation("auto:content", "an automatic record is not what "
                           "its document says", **d)
    for st in case["steps"]:
        op = {k: v for k, v in st.items() if k not in ("want", "bad", "k")}
        out = C.outs(C.run1(w, [op], stats))[0]
        if (out[0] == "ok") == bool(st.get("bad")):
            return C.violation("auto:change", "a change of an automatic "
                               "record goes wrong", step=op, outcome=out)
        want = st["want"]
        d = same(w, "x", want, case)
        if d:
            return C.violation("auto:change", "an automatic record is not "
                               "what its history says", step=op, **d)
    stats.probe("auto_steps", len(case["steps"]))
    before = C.snaps(w, ["x"])["x"]
    loads = []
    for i, sv in enumerate(case["saves"]):
        ld = {"o": "load", "key": "k%d" % i, "how": sv["how"],
              "cls": case["cls"], "via": sv["via"], "form": sv["form"],
              "to": "r%d" % i}
        out = retry(w, {"o": "save", "x": "x", "how": sv["how"],
                        "proto": sv["proto"], "key": "k%d" % i},
                    sv.get("sf"), None, stats)
        if out[0] == "ok":
            out = retry(w, ld, sv.get("lf"), None, stats)
        if out[0] != "ok":
            return C.violation("auto:save", "an automatic record cannot be "
                               "saved and read back", save=sv, outcome=out)
        v = judge(w, "r%d" % i, before, want, case, sv, "same process")
        if v:
            return v
        with w.node:
            eq = w.objs["x"] == w.objs["r%d" % i]
        if not eq:
            return C.violation("auto:equal", "what is read back is not equal",
                               save=sv, object=before)
        loads.append((sv, ld))
    saved = {k: v for k, v in w.saved.items() if isinstance(v, (bytes, str))}
    w.node.crash()
    stats.fault("crash_restart")
    w2 = C.world({"salt": case["node2"]["salt"], "spec": case["spec"]})
    with w2.node:
        lo = w2.node.mod("normalize.coll").list_of
        lo(w2.N.AutoJsonRecord)
        lo(w2.N.NCAutoJsonRecord)
        w2.T.declare_all(case["spec"]) if not w2.T.cls else None
    w2.saved = saved
    for sv, ld in loads:
        if ld["key"] not in saved:
            continue
        out = retry(w2, ld, sv.get("lf"), None, stats)
        if out[0] != "ok":
            return C.violation("auto:save", "an automatic record cannot be "
                               "read back after a restart", save=sv,
                               outcome=out)
        v = judge(w2, ld["to"], before, want, case, sv, "restarted process")
        if v:
            return v
    return None


def judge(w, r, before, want, case, sv, where):
    d = same(w, r, want, case)
    if d:
        return C.violation("auto:value", "another automatic record is read "
                           "back in the " + where, save=sv, **d)
    after = C.snaps(w, [r])[r]
    if after != before:
        return C.violation("auto:value", "another automatic record is read "
                           "back in the " + where, save=sv, saved=before,
                           loaded=after)
    return None
