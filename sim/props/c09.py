"""C09: a list operation that fails loses, corrupts or half-applies nothing."""
from .. import engine, oracle, world, pkg, lists
from ..base import Prop, Violation
from ..lists import SourceError, CompareError
from . import c06
from .c08 import NAMES, operate_in_place


class Touchy:
    """An item whose comparisons fail once its fuse has burnt down."""
    __slots__ = ("n", "fuse")

    def __init__(self, n, fuse):
        self.n, self.fuse = n, fuse

    def _burn(self):
        f = self.fuse
        if f["left"] is not None:
            f["left"] -= 1
            if f["left"] < 0:
                f["blown"] = True
                raise CompareError()

    def __eq__(self, o):
        self._burn()
        return isinstance(o, Touchy) and self.n == o.n

    def __lt__(self, o):
        self._burn()
        return self.n < o.n

    def __gt__(self, o):
        self._burn()
        return self.n > o.n

    def __le__(self, o):
        self._burn()
        return self.n <= o.n

    def __ge__(self, o):
        self._burn()
        return self.n >= o.n

    def __hash__(self):
        return hash(self.n)

    def __repr__(self):
        return f"T{self.n}"


FAILING = ("source", "source", "sort", "sort", "setop", "setop", "setop", "whole", "bad", "bad", "seek", "new")


class PROP(Prop):
    ID = "C09"
    SHRINK = ("ops", "init")

    def min_len(self, path):
        return 1 if path == ("init",) else 0

    def gen(self, rng):
        plan = c06.gen_common(rng)
        if plan["kind"] == "G" and rng.random() < 0.6:
            plan["items"] = rng.choice(("mixed", "touchy", "touchy"))
        nv = len(plan["values"])
        pool = lists.SIMPLE + ["clear_groups", "reverse", "copy", "new", "index"]
        if plan.get("items") != "mixed":
            pool.append("sort")
        out = []
        for _ in range(rng.randint(2, 24)):
            if rng.random() < 0.5:
                out.append(lists.gen_op(rng, pool, n_vals=nv))
                continue
            k = rng.choice(FAILING)
            if k == "bad":
                o = lists.gen_op(rng, ["bad"], n_vals=nv)
            else:
                o = {"o": "f_" + k, "l": rng.randrange(3), "l2": rng.randrange(3), "fuse": rng.choice((0, 0, 1, 2, 3, rng.randrange(12), rng.randrange(40)))}
                o["without"] = sorted(rng.sample(range(8), rng.randint(0, 3)))    # books (by position) without data meanwhile
                o["what"] = rng.choice(("order", "maxv", "both"))
                o["flags"] = rng.choice((None, 0, 1, 2, 3))
                o["glob"] = rng.randint(0, 3)
                if k == "source":
                    o["vs"] = [rng.randrange(nv) for _ in range(rng.choice((1, 2, 3, 5)))]
                    o["k"] = rng.randint(0, len(o["vs"]))
                    o["how"] = rng.choice(("raise", "raise", "type", "self-then-raise", "not iterable"))
                    o["into"] = rng.choice(("extend", "append_group", "+="))
                elif k == "setop":
                    o["name"] = rng.choice(NAMES)
                    o["form"] = rng.randint(0, 1)
                    o["x"] = rng.choice(("str", "int", "None", "plain list", "grouped", "failing", "failing", "list", "list", "self", "item"))
                    o["k"] = rng.randrange(4)
                elif k == "sort":
                    o["how"] = rng.choice(("sort", "sort", "plain"))
                elif k == "whole":
                    o["how"] = rng.choice(("merge", "merge", "regroup", "verse_0_to_1", "verse_1_to_0", "reverse", "clear_groups"))
                elif k == "seek":
                    o["how"] = rng.choice(("remove", "index", "count", "in", "==", "pop", "del", "set", "get", "slice", "insert", "view"))
                    o["v"] = rng.randrange(nv)
                elif k == "new":
                    o = dict(o, o="f_new", vs=[rng.randrange(nv) for _ in range(3)], k=rng.randrange(4))
            out.append(o)
        plan["ops"] = out
        return plan

    def run(self, plan, cx):
        cfg = self.cfg = world.Cfg(plan["cfg"])
        p = oracle.fresh(cfg, plan.get("glob", 0))
        self.fuse = {"left": None, "blown": False}
        items = plan.get("items")
        if plan["kind"] == "R":
            vals = [p.range(r) for r in plan["values"]]
        elif items == "mixed":
            vals = [v if i % 3 else f"s{v}" for i, v in enumerate(plan["values"])]
        elif items == "touchy":
            vals = [Touchy(v, self.fuse) for v in plan["values"]]
        else:
            vals = plan["values"]
        w = lists.World(p, plan["kind"], vals)
        for nest in plan["init"]:
            w.new([[w.val(v) for v in g] for g in nest])
        self.failed = 0
        for n, o in enumerate(plan["ops"]):
            m = o["l"] % len(w.real)
            if o["o"] in ("extend", "append_group", "f_source") and w.size(m) > 40:
                continue
            when = f"step {n} ({o['o']})"
            f = getattr(self, "op_" + o["o"][2:], None) if o["o"].startswith("f_") else None
            if f is not None:
                p.set_flags(o["glob"])
                before = [lists.values(g) for g in w.model]
                r = f(p, w, m, o, cx)
                p.set_flags(plan.get("glob", 0))
                if r:
                    self.failed += 1
                    cx.probes["failed: " + o["o"]] += 1
                    when += f", which raised {r}, before: {lists.show(before)}"
                cx.log(o["o"], bool(r), [[len(g) for g in x] for x in w.model])
                cx.state((o["o"], o.get("how") or o.get("name"), o.get("x"), r, tuple(len(g) for g in w.model[m])[:5]))
            else:
                lists.do(w, o)
                cx.log(o["o"], [[len(g) for g in x] for x in w.model])
            for k in range(len(w.real)):
                lists.look(w, k, deep=k == m, when=f"after {when}")
        for k in range(len(w.real)):
            lists.look(w, k, when="at the end")
        cx.nontrivial = self.failed >= 1

    # -- faults
    def attempt(self, p, w, o, cx, fn):
        """Runs fn() while books lack data and comparisons fail; returns the name of the exception it raised, or None."""
        cfg = self.cfg
        gone = {cfg.order[i % len(cfg.order)] for i in o["without"]} if w.kind == "R" else ()
        if gone:
            if o["what"] != "maxv":
                p.data.book_order = p.book_order_obj([b for b in cfg.order if b not in gone])
            if o["what"] != "order":
                p.data.max_verses = p.maxv_obj({b: v for b, v in cfg.maxv.items() if b not in gone})
            cx.faults["book data missing"] += 1
        self.fuse["left"], self.fuse["blown"] = o["fuse"], False
        try:
            fn()
            r = None
        except Exception as e:
            r = type(e).__name__
        finally:
            self.fuse["left"] = None
        if self.fuse["blown"]:
            cx.faults["comparison fails"] += 1
        if gone:
            p.data.book_order = p.book_order_obj(cfg.order)
            p.data.max_verses = p.maxv_obj(cfg.maxv)
        return r

    def absorb(self, w, m):
        """The operation succeeded with a result that is for other checks to judge: takes over the list's contents."""
        out = []
        n = 0
        for g in w.real[m].groups:
            out.append([])
            for v in g:
                out[-1].append(w.slot(v))
                n += 1
                if n > 4000:
                    raise Violation("list-differs", "a list grows without end")
        w.renew(m, out)

    def op_source(self, p, w, m, o, cx):
        vals = [w.val(v) for v in o["vs"]]
        k = min(o["k"], len(vals))
        how = o["how"]

        def source():
            if how == "self-then-raise":
                yield from list(w.real[m])
            for v in vals[:k]:
                yield v
            raise SourceError()
        if how == "type":
            src = vals[:k] + ["wrong"] + vals[k:]
            if w.kind != "R":
                src = source()
        elif how == "not iterable":
            src = 5
        else:
            src = source()
        lst = w.real[m]
        first = [s[1] for s in w.flat(m)] if how == "self-then-raise" else []
        lead = first + vals[:k]
        n0 = len(lst)
        try:
            if o["into"] == "append_group":
                lst.append_group(src)
            elif o["into"] == "extend":
                lst.extend(src)
            else:
                lst += src
        except (SourceError, TypeError, ValueError) as e:
            cx.faults["source fails" if isinstance(e, SourceError) else "wrong operand"] += 1
            r = type(e).__name__
        else:
            raise Violation("not-refused", f"{o['into']} with {how!r} source did not raise")
        kept = len(lst) - n0
        if how == "not iterable" and kept or not 0 <= kept <= len(lead):
            raise Violation("list-differs", f"{o['into']} failed and left {kept} additional items")
        if kept:
            cx.probes["leading part kept"] += 1
            slots = [w.slot(v) for v in lead[:kept]]
            g = w.model[m]
            if o["into"] == "append_group" or not g:
                g.append(slots)
            else:
                g[-1] += slots
        return r

    def op_sort(self, p, w, m, o, cx):
        lst = w.real[m]
        fn = (lambda: lst.sort(regroup=False)) if w.kind == "R" and o["how"] == "plain" else lst.sort
        r = self.attempt(p, w, o, cx, fn)
        if r is None:
            self.absorb(w, m)
        return r

    def op_whole(self, p, w, m, o, cx):
        lst = w.real[m]
        how = o["how"]
        if not hasattr(lst, how):
            how = "reverse"
        kw = {"flags": p.flagbits[o["flags"]]} if how in ("merge", "regroup") and o["flags"] is not None else {}
        r = self.attempt(p, w, o, cx, lambda: getattr(lst, how)(**kw))
        if r is None:
            self.absorb(w, m)
        return r

    def op_setop(self, p, w, m, o, cx):
        if w.kind != "R":
            return self.op_whole(p, w, m, dict(o, how="reverse"), cx)
        lst = w.real[m]
        other = w.real[o["l2"] % len(w.real)]
        x = o["x"]
        if x == "failing":
            class Failing(p.List):
                armed = False

                def __iter__(self):
                    if not self.armed:
                        yield from super().__iter__()
                        return
                    for i, v in enumerate(super().__iter__()):
                        if i >= o["k"]:
                            cx.faults["source fails"] += 1
                            raise SourceError()
                        yield v
            src = Failing(list(other))
            src.armed = True
        else:
            src = {"str": "Matt 1", "int": 5, "None": None, "plain list": list(other), "list": other, "self": lst,
                   "grouped": p.Grouped(list(other)), "item": other[o["k"] % len(other)] if len(other) else 7}[x]
        if x not in ("failing", "list", "self", "item"):
            cx.faults["wrong operand"] += 1
        name = o["name"]
        kw = {} if o["flags"] is None else {"flags": p.flagbits[o["flags"]]}

        def fn():
            if o["form"]:
                getattr(lst, name + "_update")(src, **kw)
            else:
                operate_in_place(name, lst, src)
        r = self.attempt(p, w, o, cx, fn)
        if r is None:
            self.absorb(w, m)
        return r

    def op_new(self, p, w, m, o, cx):
        """Constructing a list from a failing source harms nothing."""
        lst = w.real[m]

        def src():
            for i, v in enumerate(lst):
                if i == o["k"]:
                    raise SourceError()
                yield v
            raise SourceError()
        try:
            w.cls(src())
        except SourceError:
            cx.faults["source fails"] += 1
            return "SourceError"
        raise Violation("not-refused", "a list was constructed from a source that failed")

    def op_seek(self, p, w, m, o, cx):
        """Searching with failing comparisons, or with nonsensical indices."""
        lst, g, n = w.real[m], w.model[m], w.size(m)
        v = w.val(o["v"])
        how = o["how"]
        big = 10 ** 6
        if how in ("remove", "index", "count", "in", "=="):
            flat = [s[1] for s in w.flat(m)]
            at = next((i for i, x in enumerate(flat) if lists._eq(x, v)), None)
            fn = {"remove": lambda: lst.remove(v), "index": lambda: lst.index(v), "count": lambda: lst.count(v), "in": lambda: v in lst,
                  "==": lambda: lst == w.real[o["l2"] % len(w.real)]}[how]
            r = self.attempt(p, w, dict(o, without=[]), cx, fn)
            if r is None and how == "remove":
                w.remove_at(m, at)
            return r
        fn = {"pop": lambda: lst.pop("x"), "del": lambda: lst.__delitem__("x"), "set": lambda: lst.__setitem__("0", v),
              "get": lambda: lst[1.5], "slice": lambda: lst.__setitem__(slice(0, 2), [v]), "insert": lambda: lst.insert("1", v),
              "view": lambda: lst.groups[0].__setitem__(big, v) if n else lst.groups[0]}[how]
        try:
            fn()
        except Exception as e:
            cx.faults["wrong operand"] += 1
            return type(e).__name__
        raise Violation("not-refused", f"{how} with a nonsensical index did not raise")
