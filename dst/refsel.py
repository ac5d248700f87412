"""What a selector path means: a reference interpreter that carries it out by
direct attribute and item access, one elementary operation at a time."""
import copy


class Missing(Exception):
    """The path addresses nothing here: an error is due."""


class Undefined(Exception):
    """Nothing is promised about the outcome (mistyped step...)."""


class Ref:
    def __init__(self, w):
        self.w = w
        c = w.node.mod("normalize.coll")
        self.C, self.L, self.D = c.Collection, c.ListCollection, \
            c.DictCollection
        self.R = w.N.Record

    def kind(self, o):
        if isinstance(o, (list, self.L)):
            return "list"
        if isinstance(o, (dict, self.D)):
            return "dict"
        if isinstance(o, self.R):
            return "rec"
        return "other"

    # ---------------------------------------------------- single steps
    def all(self, o):
        k = self.kind(o)
        if k == "list":
            return list(o)
        if k == "dict":
            return list(o.values())
        raise Undefined("items of %s" % type(o).__name__)

    def step(self, o, sel):
        k = self.kind(o)
        if k == "dict":
            if sel in o:
                return o[sel]
            raise Missing(sel)
        if isinstance(sel, int):
            if k != "list":
                raise Undefined(sel)
            if -len(o) <= sel < len(o):
                return o[sel]
            raise Missing(sel)
        if k == "other" and o is not None:
            raise Undefined(sel)
        try:
            return getattr(o, sel)
        except AttributeError:
            raise Missing(sel)

    # ---------------------------------------------------- whole operations
    def get(self, o, path):
        for i, sel in enumerate(path):
            if sel is None:
                out, ok = [], False
                items = self.all(o)
                for x in items:
                    try:
                        out.append(self.get(x, path[i + 1:]))
                        ok = True
                    except Missing:
                        out.append(None)
                if items and not ok:
                    raise Missing(path)
                return out
            o = self.step(o, sel)
        return o

    def put(self, o, path, v):
        if not path:
            raise Undefined(path)
        for i, sel in enumerate(path[:-1]):
            if sel is None:
                for x in self.all(o):
                    self.put(x, path[i + 1:], v)
                return
            o = self.step(o, sel)
        self.final(o, path[-1], v)

    def final(self, o, sel, v):
        k = self.kind(o)
        if sel is None:
            if k == "list":
                o[:] = v
            elif k == "dict":
                v = type(o)(v)
                o.clear()
                o.update(v)
            else:
                raise Undefined(sel)
        elif k == "dict":
            o[sel] = v
        elif isinstance(sel, int):
            if k != "list":
                raise Undefined(sel)
            if not -len(o) <= sel < len(o):
                raise Missing(sel)
            o[sel] = v
        elif k == "other" and o is not None or type(o) is list:
            raise Undefined(sel)
        else:
            try:
                setattr(o, sel, v)
            except AttributeError:
                raise Missing(sel)

    def post(self, o, path, v):
        if not path:
            raise Undefined(path)
        n = len(path)
        done = False
        for i, sel in enumerate(path[:-1]):
            if sel is None:
                return sum(self.post(x, path[i + 1:], v)
                           for x in self.all(o))
            k = self.kind(o)
            try:
                o2 = self.step(o, sel)
                if o2 is None and k == "rec" and sel not in vars(o) and \
                        sel in type(o).properties:
                    raise Missing(sel)      # an unset v1 property
            except Missing:
                t = None
                if k == "rec" or k == "list" and isinstance(sel, str):
                    p = type(o).properties.get(sel) \
                        if isinstance(o, self.R) else None
                    if p is not None:
                        t = p.valuetype
                elif k != "other":
                    if k == "list" and sel != len(o):
                        raise
                    t = getattr(type(o), "itemtype", None)
                if not t:
                    raise
                if isinstance(t, tuple):
                    raise Undefined(sel)
                kw = {}
                last = path[-1]
                if i == n - 2 and isinstance(last, str) and not (
                        issubclass(t, self.C) and last not in t.properties):
                    kw = {last: v}
                new = t(**kw)
                if k == "list" and isinstance(sel, int):
                    o.append(new)
                elif k == "dict":
                    o[sel] = new
                else:
                    setattr(o, sel, new)
                if kw:
                    done = True
                o2 = self.step(o, sel)
            o = o2
        if not done:
            self.final(o, path[-1], v)
        return 1

    def delete(self, o, path):
        if not path:
            raise Undefined(path)
        for i, sel in enumerate(path[:-1]):
            if sel is None:
                ok, items = False, self.all(o)
                for x in items:
                    try:
                        self.delete(x, path[i + 1:])
                        ok = True
                    except Missing:
                        pass
                if items and not ok:
                    raise Missing(path)
                return
            o = self.step(o, sel)
        self.remove(o, path[-1])

    def remove(self, o, sel):
        k = self.kind(o)
        if sel is None:
            if k not in ("list", "dict"):
                raise Undefined(sel)
            if k == "list":
                o[:] = ()
            else:
                o.clear()
        elif k == "dict":
            if sel not in o:
                raise Missing(sel)
            del o[sel]
        elif isinstance(sel, int):
            if k != "list":
                raise Undefined(sel)
            if not -len(o) <= sel < len(o):
                raise Missing(sel)
            del o[sel]
        elif not isinstance(o, self.R):
            raise Undefined(sel)
        else:
            try:
                getattr(o, sel)
            except AttributeError:
                return
            delattr(o, sel)

    # ---------------------------------------------------- several paths
    @staticmethod
    def tree(paths):
        """{step: sub tree, or all}"""
        t = {}
        for p in paths:
            n = t
            for i, k in enumerate(p):
                if n.get(k) is all:
                    break
                if i == len(p) - 1:
                    n[k] = all
                else:
                    n = n.setdefault(k, {})
        return t

    @staticmethod
    def leaves(tree):
        for k in sorted((k for k in tree if isinstance(k, int))) + [
                k for k in tree if not isinstance(k, int)]:
            if tree[k] is all:
                yield [k]
            else:
                for x in Ref.leaves(tree[k]):
                    yield [k] + x

    def select(self, o, tree):
        if tree is all:
            return copy.deepcopy(o)
        k = self.kind(o)
        names = [x for x in tree if isinstance(x, str)]
        ints = sorted(x for x in tree if isinstance(x, int))
        if None in tree and k == "list":
            vals = [self.select(x, tree[None]) for x in o]
        elif k == "list":
            if names:
                raise Undefined(names)
            if any(not -len(o) <= i < len(o) for i in ints):
                raise Missing(ints)
            vals = [self.select(o[i], tree[i]) for i in ints]
        elif None in tree and k == "dict":
            vals = [(x, self.select(y, tree[None])) for x, y in o.items()]
        elif k == "dict":
            vals = [(x, self.select(o[x], tree[x])) for x in tree if x in o]
        elif k == "rec":
            if None in tree and tree[None] is all:
                return copy.deepcopy(o)
            if None in tree or ints:
                raise Undefined(tree)
            kw = {}
            for x in names:
                v = getattr(o, x, None)
                if v is not None or tree[x] is all and x in vars(o):
                    kw[x] = self.select(v, tree[x])
            return type(o)(**kw)
        elif o is None and not ints:
            return None
        else:
            raise Undefined(tree)
        if isinstance(o, self.L):
            return type(o)(values=vals)
        return type(o)(vals if k == "list" else dict(vals))

    def spots(self, o, path):
        """(container, step) pairs which a path addresses."""
        for i, sel in enumerate(path[:-1]):
            if sel is None:
                out = []
                for x in self.all(o):
                    try:
                        out += self.spots(x, path[i + 1:])
                    except Missing:
                        pass
                return out
            o = self.step(o, sel)
        return [(o, path[-1])]

    def mdelete(self, o, paths, force):
        leaves = list(self.leaves(self.tree(paths)))
        if not force:
            for p in leaves:
                self.get(o, p)
        spots, seen = [], set()
        for p in leaves:
            try:
                for c, k in self.spots(o, p):
                    if isinstance(k, int) and self.kind(c) == "list":
                        if k < 0:
                            k += len(c)
                    if (id(c), k) not in seen:
                        seen.add((id(c), k))
                        spots.append((c, k))
            except Missing:
                pass
        spots.sort(key=lambda s: -s[1] if isinstance(s[1], int) else 1)
        for c, k in spots:
            try:
                self.remove(c, k)
            except Missing:
                pass

    def expand(self, o, path):
        """Concrete paths for a path whose wildcards refer to ``o``."""
        if None not in path[:-1]:
            return [path]
        i = path.index(None)
        try:
            c = self.get(o, path[:i])
        except Missing as e:
            if self.attr_missing(o, path[:i]):
                return [path]
            raise
        k = self.kind(c)
        if k == "other" or k == "rec":
            raise Undefined(path)
        out = []
        for key in (range(len(c)) if k == "list" else list(c.keys())):
            out += self.expand(o, path[:i] + [key] + path[i + 1:])
        return out

    def attr_missing(self, o, path):
        """Does the path break off at an attribute (not a key or index)?"""
        for sel in path:
            try:
                o = self.step(o, sel)
            except Missing:
                return isinstance(sel, str) and self.kind(o) != "dict"
        return False

    def patch(self, target, source, paths, cp):
        todo = []
        for p in self.leaves(self.tree(paths)):
            for q in self.expand(source, p):
                whole = q[-1] is None
                if None in q[:-1]:
                    todo.append((q, None, True))
                    continue
                part = q[:-1] if whole else q
                try:
                    todo.append((q, self.get(source, part), False))
                except Missing:
                    if not self.attr_missing(source, part):
                        raise
                    todo.append((q, None, True))
        for q, v, gone in todo:
            if gone:
                self.delete(target, q)
            else:
                self.post(target, q, copy.deepcopy(v) if cp else v)

    def contains(self, paths, probe):
        """Does the selection keep everything at ``probe``?"""
        tree = self.tree(paths)
        if not isinstance(probe, list):
            # would anything at this place be kept?
            return None in tree or probe in tree
        for k in probe:
            if None in tree:
                tree = tree[None]
            elif k in tree:
                tree = tree[k]
            else:
                return False
            if tree is all:
                return True
        return tree.get(None) is all


class Frame:
    """What an operation may touch, and whether it touched anything else."""

    def __init__(self, w):
        self.w = w
        self.ref = Ref(w)
        self.before = {}
        self.free = {}
        self.extra = {}
        todo = [o for _, o in sorted(w.objs.items())]
        while todo:
            o = todo.pop()
            c = self.content(o)
            if c is None or id(o) in self.before:
                continue
            self.before[id(o)] = (o, c)
            todo += c.values() if isinstance(c, dict) else c
            if isinstance(o, (self.ref.L, self.ref.D)):
                # extra properties of the collection
                d = {k: v for k, v in vars(o).items() if k[:1] != "_"}
                self.extra[id(o)] = (o, d)
                todo += d.values()

    def content(self, o):
        if isinstance(o, (self.ref.L, self.ref.D)):
            c = vars(o).get("_values")
            return None if c is None else list(c) \
                if isinstance(c, list) else dict(c)
        if isinstance(o, list):
            return list(o)
        if isinstance(o, dict):
            return dict(o)
        if isinstance(o, self.ref.R):
            return {k: v for k, v in vars(o).items() if k[:1] != "_"}
        return None

    def allow(self, o, path, one=False):
        """``path`` from ``o`` may change; ``one``: and nothing else may."""
        for i, sel in enumerate(path):
            k = self.ref.kind(o)
            if k == "other":
                return
            if sel is None:
                if i == len(path) - 1:
                    self.free.setdefault(id(o), set()).add(None)
                    return
                c = self.content(o)
                if k == "list":
                    self.free.setdefault(id(o), set()).add("+")
                if k == "dict":
                    self.free.setdefault(id(o), set()).add("new")
                for x in (c.values() if isinstance(c, dict) else c or ()):
                    self.allow(x, path[i + 1:], one)
                return
            if k == "list" and isinstance(sel, int):
                c = self.content(o)
                key = sel + len(c) if sel < 0 else sel
                if key >= len(c) or key < 0:
                    if key == len(c) or not one:
                        self.free.setdefault(id(o), set()).add("+")
                    return
                nxt = c[key]
            else:
                key = ("a", sel) if k == "list" else sel
                d = vars(o) if k in ("list", "rec") and \
                    isinstance(o, self.ref.R) else self.content(o)
                if not isinstance(d, dict) or sel not in d:
                    self.free.setdefault(id(o), set()).add(key)
                    return
                nxt = d[sel]
            if i == len(path) - 1:
                self.free.setdefault(id(o), set()).add(key)
                return
            o = nxt

    def check(self, lazy=(), removal=False):
        """-> description of something changed that must not, or None
        removal: True if addressed items may only go, "any" if they may go,
        be replaced or have others added behind them"""
        for i, (o, c) in self.before.items():
            free = self.free.get(i, ())
            now = self.content(o)
            if None in free:
                continue
            if isinstance(c, list):
                bad = self.lists(c, now, free, removal)
            else:
                bad = None
                for k in set(c) | set(now):
                    if k in free or k in c and k in now and c[k] is now[k]:
                        continue
                    if k not in c and (k in lazy or "new" in free):
                        continue
                    bad = k
            if bad is not None:
                return "%s: %s" % (type(o).__name__, bad)
        for i, (o, d) in self.extra.items():
            now = {k: v for k, v in vars(o).items() if k[:1] != "_"}
            for k in set(d) | set(now):
                if ("a", k) not in self.free.get(i, ()) and not (
                        k in d and k in now and d[k] is now[k]) and not (
                        k in lazy and k not in d):
                    return "%s: property %s" % (type(o).__name__, k)
        return None

    @staticmethod
    def lists(c, now, free, removal):
        if removal:
            # what is left must be the rest, in order
            def left(i, j):
                if i == len(c):
                    return j == len(now) or removal == "any" and \
                        j < len(now) and "+" in free
                return j < len(now) and (
                    now[j] is c[i] or removal == "any" and i in free
                ) and left(i + 1, j + 1) or i in free and left(i + 1, j)
            return None if left(0, 0) else "an item that stays"
        if len(now) < len(c) or len(now) > len(c) and "+" not in free:
            return "length"
        for i, x in enumerate(c):
            if now[i] is not x and i not in free:
                return "item %d" % i
        return None
