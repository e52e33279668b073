"""Executable model of grouped lists: a plain list of groups, each a plain list of slots.

A slot is [uid, value]; uids give items an identity, for checks on views and iterators.  Operations are plain data with
indices that are reduced modulo the current length, so that they stay meaningful when a history is shortened.
"""
import copy

from . import engine
from .base import Violation


class SourceError(Exception):
    """Raised by an item source supplied by the caller."""


class CompareError(Exception):
    """Raised by items that cannot be ordered."""


class World:
    """A number of real lists of one kind together with their models."""
    def __init__(self, p, kind, values):
        self.p, self.kind, self.values = p, kind, values
        self.cls = p.Grouped if kind == "G" else p.List
        self.real, self.model = [], []
        self.uid = 0
        self.fuzzy = set()          # uids whose identity an operation may have renewed
        self.log = []

    def slot(self, v):
        self.uid += 1
        return [self.uid, v]

    def val(self, i):
        return self.values[i % len(self.values)]

    def new(self, nested=(), flat=False):
        if flat:
            self.real.append(self.cls([v for g in nested for v in g]))
            g = [self.slot(v) for g in nested for v in g]
            self.model.append([g] if g else [])
        else:
            self.real.append(self.cls([list(g) for g in nested]))
            self.model.append([[self.slot(v) for v in g] for g in nested if g])
        return len(self.real) - 1

    # -- model helpers
    def flat(self, m):
        return [s for g in self.model[m] for s in g]

    def size(self, m):
        return sum(len(g) for g in self.model[m])

    def where(self, m, i):
        for g, grp in enumerate(self.model[m]):
            if i < len(grp):
                return g, i
            i -= len(grp)
        raise AssertionError

    def remove_at(self, m, i):
        g, k = self.where(m, i)
        s = self.model[m][g].pop(k)
        if not self.model[m][g]:
            del self.model[m][g]
        return s

    def renew(self, m, groups):
        """New contents of a list; the identities of all its slots become uncertain."""
        for s in self.flat(m):
            self.fuzzy.add(s[0])
        self.model[m] = groups


def nested(p, lst):
    return [list(g) for g in lst.groups]


def values(groups):
    return [[s[1] for s in g] for g in groups]


# ----------------------------------------------------------------------------------------------------------------------
def look(w, m, cx=None, deep=True, when=""):
    """Compares a list with its model through every way of looking at it."""
    lst, grp = w.real[m], w.model[m]
    flat = [s[1] for g in grp for s in g]
    n = len(flat)

    def bad(what, got, want):
        raise Violation("list-differs", f"{when}: {what} is {show(got)}, expected {show(want)}")

    def same(what, got, want):
        if len(got) != len(want) or not all(_eq(a, b) for a, b in zip(got, want)):
            bad(what, got, want)

    def take(it):
        out = []
        for x in it:
            out.append(x)
            if len(out) > 2 * n + 20:
                bad("iteration", f"more than {len(out)} items", n)
        return out
    if len(lst) != n:
        bad("length", len(lst), n)
    same("forward iteration", take(lst), flat)
    same("backward iteration", take(reversed(lst)), flat[::-1])
    gs = take(lst.groups)
    if len(lst.groups) != len(grp) or len(gs) != len(grp):
        bad("number of groups", (len(lst.groups), len(gs)), len(grp))
    for g, view in enumerate(gs):
        same(f"group {g}", take(view), [s[1] for s in grp[g]])
    if not deep:
        return
    same("indexing", [lst[i] for i in range(n)], flat)
    same("negative indexing", [lst[i - n] for i in range(n)], flat)
    for g in range(len(grp)):
        view = lst.groups[g]
        if len(view) != len(grp[g]):
            bad(f"length of group {g}", len(view), len(grp[g]))
        same(f"indexing of group {g}", [view[k] for k in range(len(grp[g]))], [s[1] for s in grp[g]])
    for g in range(len(grp)):
        same(f"group {g - len(grp)}", take(lst.groups[g - len(grp)]), [s[1] for s in grp[g]])
    nl = lst.to_nested_lists()
    if len(nl) != len(grp):
        bad("to_nested_lists", nl, values(grp))
    for a, b in zip(nl, values(grp)):
        same("to_nested_lists", a, b)
    for bad_i in (n, -n - 1):
        try:
            x = lst[bad_i]
        except IndexError:
            continue
        bad(f"item {bad_i}", x, "an IndexError")
    for bad_i in (len(grp), -len(grp) - 1):
        try:
            x = lst.groups[bad_i]
        except IndexError:
            continue
        bad(f"group {bad_i}", list(x), "an IndexError")
    if w.kind == "G":
        for v in w.values[:3]:
            c = sum(1 for x in flat if _eq(x, v))
            if lst.count(v) != c:
                bad(f"count({show(v)})", lst.count(v), c)
            if (v in lst) != (c > 0):
                bad(f"{show(v)} in list", v in lst, c > 0)
    for v in flat[:2] + flat[-1:]:
        i = next(i for i, x in enumerate(flat) if _eq(x, v))
        if lst.index(v) != i:
            bad(f"index({show(v)})", lst.index(v), i)
        if lst.count(v) != sum(1 for x in flat if _eq(x, v)):
            bad(f"count({show(v)})", lst.count(v), "different")
    twin = w.cls(values(grp))
    if not (lst == twin and twin == lst) or lst != twin:
        bad("comparison with an equal list", False, True)
    if not lst.equals(flat, compare_groups=False):
        bad("comparison with its items", False, True)
    if len(grp) > 1:
        other = w.cls([flat])
        if lst == other:
            bad("comparison with a list grouped differently", True, False)
        if not lst.equals(other, compare_groups=False):
            bad("comparison with the same items grouped differently", False, True)
    if n:
        other = w.cls(values(grp))
        other.pop()
        if lst == other:
            bad("comparison with a shorter list", True, False)


def _eq(a, b):
    return a is b or a == b


def show(x):
    s = repr(x)
    return s if len(s) < 300 else s[:297] + "..."


# ----------------------------------------------------------------------------------------------------------------------
# Operations.  Each returns the set of exception types that are due, or None, and has applied the edit to the model.
# ----------------------------------------------------------------------------------------------------------------------
def _resolve(w, op):
    m = op["l"] % len(w.real)
    return m, w.real[m], w.model[m], w.size(m)


OPS = {}


def op(name):
    def deco(f):
        OPS[name] = f
        return f
    return deco


@op("append")
def _append(w, o):
    m, r, g, n = _resolve(w, o)
    v = w.val(o["v"])
    r.append(v, new_group=bool(o["g"])) if o["g"] else r.append(v)
    if not g or o["g"]:
        g.append([w.slot(v)])
    else:
        g[-1].append(w.slot(v))


@op("prepend")
def _prepend(w, o):
    m, r, g, n = _resolve(w, o)
    v = w.val(o["v"])
    r.prepend(v, new_group=bool(o["g"])) if o["g"] else r.prepend(v)
    if not g or o["g"]:
        g.insert(0, [w.slot(v)])
    else:
        g[0].insert(0, w.slot(v))


@op("insert")
def _insert(w, o):
    m, r, g, n = _resolve(w, o)
    v = w.val(o["v"])
    i = o["i"] % (n + 1)
    neg = o.get("neg") and n and i < n
    r.insert(i - n if neg else i, v)
    if not g:
        g.append([w.slot(v)])
    elif i == n:
        g[-1].append(w.slot(v))
    else:
        a, k = w.where(m, i)
        g[a].insert(k, w.slot(v))


@op("insert_group_at")
def _insert_group_at(w, o):
    m, r, g, n = _resolve(w, o)
    if not n:
        return
    i = o["i"] % n
    r.insert_group_at(i - n if o.get("neg") else i)
    a, k = w.where(m, i)
    if k:
        g[a:a + 1] = [g[a][:k], g[a][k:]]


def _due(fn, exc, what):
    try:
        x = fn()
    except exc:
        return
    raise Violation("not-refused", f"{what} returned {show(x)} instead of raising {exc}")


@op("pop")
def _pop(w, o):
    m, r, g, n = _resolve(w, o)
    if not n:
        return _due(lambda: r.pop(), IndexError, "pop() on an empty list")
    k = o.get("how", 0) % 3
    i = n - 1 if k == 0 else o["i"] % n
    x = r.pop() if k == 0 else r.pop(i) if k == 1 else r.pop(i - n)
    s = w.remove_at(m, i)
    if not _eq(x, s[1]):
        raise Violation("list-differs", f"pop returned {show(x)}, expected {show(s[1])}")


@op("del")
def _del(w, o):
    m, r, g, n = _resolve(w, o)
    if n:
        i = o["i"] % n
        del r[i - n if o.get("neg") else i]
        w.remove_at(m, i)


@op("remove")
def _remove(w, o):
    m, r, g, n = _resolve(w, o)
    v = w.val(o["v"])
    for i, s in enumerate(w.flat(m)):
        if _eq(s[1], v):
            r.remove(v)
            w.remove_at(m, i)
            return
    _due(lambda: r.remove(v), ValueError, f"remove({show(v)})")


@op("set")
def _set(w, o):
    m, r, g, n = _resolve(w, o)
    if n:
        i = o["i"] % n
        v = w.val(o["v"])
        r[i - n if o.get("neg") else i] = v
        a, k = w.where(m, i)
        w.fuzzy.add(g[a][k][0])
        g[a][k][1] = v


def _items(w, o):
    """Items from a plain list, a generator, another list, or a group, and their values."""
    k = o.get("src", "list")
    if k in ("self", "other", "group") and w.real:
        s = o["l"] % len(w.real) if k == "self" else o.get("l2", 0) % len(w.real)
        if k == "group":
            if not w.model[s]:
                return [], []
            gi = o["i"] % len(w.model[s])
            return w.real[s].groups[gi], [x[1] for x in w.model[s][gi]]
        return w.real[s], [x[1] for x in w.flat(s)]
    vals = [w.val(v) for v in o["vs"]]
    if k == "gen":
        return iter(vals), vals
    if k == "tuple":
        return tuple(vals), vals
    return list(vals), vals


@op("extend")
def _extend(w, o):
    m, r, g, n = _resolve(w, o)
    src, vals = _items(w, o)
    if o.get("iadd"):
        b = r
        b += src
        if b is not r:
            raise Violation("list-differs", "+= bound the variable to another object")
    else:
        r.extend(src)
    slots = [w.slot(v) for v in vals]
    if slots:
        if g:
            g[-1] += slots
        else:
            g.append(slots)


@op("append_group")
def _append_group(w, o):
    m, r, g, n = _resolve(w, o)
    src, vals = _items(w, o)
    r.append_group(src)
    if vals:
        g.append([w.slot(v) for v in vals])


@op("clear")
def _clear(w, o):
    m, r, g, n = _resolve(w, o)
    r.clear()
    w.model[m] = []


@op("clear_groups")
def _clear_groups(w, o):
    m, r, g, n = _resolve(w, o)
    r.clear_groups()
    f = w.flat(m)
    for s in f:
        w.fuzzy.add(s[0])
    w.model[m] = [f] if f else []


@op("reverse")
def _reverse(w, o):
    m, r, g, n = _resolve(w, o)
    r.reverse()
    f = w.flat(m)[::-1]
    w.renew(m, [f] if f else [])


@op("sort")
def _sort(w, o):
    m, r, g, n = _resolve(w, o)
    if w.kind == "G" or o.get("plain"):
        r.sort() if w.kind == "G" else r.sort(regroup=False)
        f = sorted(w.flat(m), key=lambda s: s[1])
        w.renew(m, [f] if f else [])
    else:
        r.sort()
        adopt(w, m, sorted(w.flat(m), key=lambda s: s[1]))


@op("regroup")
def _regroup(w, o):
    m, r, g, n = _resolve(w, o)
    if w.kind == "R":
        r.regroup()
        adopt(w, m, w.flat(m))


def adopt(w, m, slots):
    """Takes over the list's own new grouping (which is for other checks to judge) of known items."""
    sizes = []
    for g in w.real[m].groups:
        sizes.append(len(list(g)))
        if len(sizes) > len(slots) + 5:
            break
    if sum(sizes) != len(slots) or 0 in sizes:
        raise Violation("list-differs", f"the groups hold {sizes} items, the list should hold {len(slots)}")
    out, k = [], 0
    for z in sizes:
        out.append(slots[k:k + z])
        k += z
    w.renew(m, out)


@op("copy")
def _copy(w, o):
    m, r, g, n = _resolve(w, o)
    if len(w.real) >= 4:
        k = o["i"] % len(w.real)
        if k == m:
            return
    else:
        k = len(w.real)
        w.real.append(None)
        w.model.append(None)
    how = o.get("how", 0)
    w.real[k] = copy.copy(r) if how == 1 else copy.deepcopy(r) if how == 2 else w.cls(r)
    f = [[w.slot(s[1]) for s in gr] for gr in w.model[m]]
    if w.kind == "G" and not how:
        f = [[s for gr in f for s in gr]]
    w.model[k] = [gr for gr in f if gr]
    if type(w.real[k]) is not type(r):
        raise Violation("list-differs", f"a copy of a {type(r).__name__} is a {type(w.real[k]).__name__}")


@op("new")
def _new(w, o):
    nest = [[w.val(v) for v in g] for g in o["nest"]]
    if len(w.real) < 4:
        w.new(nest, o.get("flat"))
    else:
        k = o["l"] % 4
        w.new(nest, o.get("flat"))
        w.real[k], w.model[k] = w.real.pop(), w.model.pop()


@op("gset")
def _gset(w, o):
    m, r, g, n = _resolve(w, o)
    if n:
        a = o["i"] % len(g)
        k = o["k"] % len(g[a])
        v = w.val(o["v"])
        r.groups[a][k] = v
        w.fuzzy.add(g[a][k][0])
        g[a][k][1] = v


@op("gdel")
def _gdel(w, o):
    m, r, g, n = _resolve(w, o)
    if n:
        a = o["i"] % len(g)
        k = o["k"] % len(g[a])
        del r.groups[a][k]
        del g[a][k]
        if not g[a]:
            del g[a]


@op("index")
def _index(w, o):
    m, r, g, n = _resolve(w, o)
    v = w.val(o["v"])
    flat = [s[1] for s in w.flat(m)]
    args = []
    lo, hi = 0, n
    if n and o.get("how", 0) % 3:
        lo = o["i"] % n
        args = [lo]
        if o["how"] % 3 == 2:
            hi = lo + 1 + o["k"] % (n - lo)
            args.append(hi)
            if o.get("neg") and hi < n:
                args[1] -= n
        if o.get("neg"):
            args[0] -= n
    want = next((i for i in range(lo, hi) if _eq(flat[i], v)), None)
    try:
        got = r.index(v, *args)
    except ValueError:
        got = None
    if got != want:
        raise Violation("list-differs", f"index({show(v)}, {args}) gave {got}, expected {want} in {show(values(g))}")


@op("bad")
def _bad(w, o):
    """Operations that must be refused."""
    m, r, g, n = _resolve(w, o)
    d = o["k"] % 3
    i = n + d if o["i"] % 2 else -n - 1 - d
    v = w.val(o["v"])
    how = o["how"]
    if how == "get":
        _due(lambda: r[i], IndexError, f"list[{i}] of {n}")
    elif how == "set":
        _due(lambda: r.__setitem__(i, v), IndexError, f"list[{i}] = ... of {n}")
    elif how == "del":
        _due(lambda: r.__delitem__(i), IndexError, f"del list[{i}] of {n}")
    elif how == "pop":
        _due(lambda: r.pop(i), IndexError, f"pop({i}) of {n}")
    elif how == "insert_group_at":
        _due(lambda: r.insert_group_at(i), IndexError, f"insert_group_at({i}) of {n}")
    elif how == "group":
        j = len(g) + d if o["i"] % 2 else -len(g) - 1 - d
        _due(lambda: r.groups[j], IndexError, f"groups[{j}] of {len(g)}")
    elif how in ("gset", "gdel") and g:
        a = o["i"] % len(g)
        k = len(g[a]) + d
        if how == "gset":
            _due(lambda: r.groups[a].__setitem__(k, v), IndexError, f"group[{k}] = ... of {len(g[a])}")
        else:
            _due(lambda: r.groups[a].__delitem__(k), IndexError, f"del group[{k}] of {len(g[a])}")
    elif how == "type" and w.kind == "R":
        x = w.p.range(o.get("x")) if o.get("x") else "Matt 1"
        fn = (lambda: r.append("Matt 1:1"), lambda: r.prepend(5), lambda: r.insert(0, None), lambda: r.insert(n, "x"),
              lambda: r.remove("x"), lambda: r.__setitem__(0, 3) if n else r.append(3),
              lambda: r.groups[0].__setitem__(0, "x") if n else r.append("x"))[o["k"] % 7]
        _due(fn, (TypeError, ValueError), "an item of the wrong type")


SIMPLE = ["append", "append", "prepend", "insert", "insert", "insert_group_at", "pop", "del", "remove", "set", "extend",
          "append_group", "gset", "gdel"]
BULK = ["clear", "clear_groups", "reverse", "sort", "regroup", "copy", "new", "index", "bad"]


def gen_op(rng, names, n_lists=3, n_vals=8):
    o = {"o": rng.choice(names), "l": rng.randrange(n_lists)}
    k = o["o"]
    o["i"] = rng.choice((0, 0, 1, rng.randrange(40)))
    o["k"] = rng.choice((0, 0, 1, 2, rng.randrange(9)))
    o["v"] = rng.randrange(n_vals)
    if k in ("append", "prepend"):
        o["g"] = int(rng.random() < 0.4)
    if k in ("insert", "insert_group_at", "del", "set", "index"):
        o["neg"] = int(rng.random() < 0.3)
    if k in ("pop", "index"):
        o["how"] = rng.randrange(3)
    if k in ("extend", "append_group"):
        o["vs"] = [rng.randrange(n_vals) for _ in range(rng.choice((0, 1, 2, 3, 5)))]
        o["src"] = rng.choice(("list", "list", "gen", "tuple", "self", "other", "group"))
        o["l2"] = rng.randrange(n_lists)
        o["iadd"] = rng.randint(0, 1)
    if k == "sort":
        o["plain"] = rng.randint(0, 1)
    if k == "copy":
        o["how"] = rng.choice((0, 0, 1, 2))
    if k == "new":
        o["nest"] = gen_nest(rng, n_vals)
        o["flat"] = rng.randint(0, 1)
    if k == "bad":
        o["how"] = rng.choice(("get", "set", "del", "pop", "insert_group_at", "group", "gset", "gdel", "type", "type"))
        if o["how"] == "type":
            o["k"] = rng.randrange(7)
    return o


def gen_nest(rng, n_vals, most=4):
    return [[rng.randrange(n_vals) for _ in range(rng.choice((0, 1, 1, 2, 3, 4)))] for _ in range(rng.randint(0, most))]


def do(w, o):
    return OPS[o["o"]](w, o)
