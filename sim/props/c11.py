"""C11: text produced for a list reads back as that list, in any configuration."""
from .. import engine, oracle, world, lists
from ..base import Prop, Violation
from .c08 import NAMES, operate_in_place


class PROP(Prop):
    ID = "C11"
    SHRINK = ("ops", "init")

    def min_len(self, path):
        return 0

    def gen_fmt(self, rng):
        return [rng.randint(0, 1) for _ in range(4)]      # abbrev, alt_sep, nospace, force_start_verses

    def gen(self, rng):
        spec = world.gen_cfg(rng, seps=0.3, custom=0.7)
        cfg = world.Cfg(spec)
        v0, multi = int(rng.random() < 0.5), int(rng.random() < 0.5)
        near = rng.random() < 0.5
        init = [self.gen_list(rng, cfg, v0, multi, near) for _ in range(rng.choice((1, 2, 3)))]
        out = []
        for _ in range(rng.randint(3, 14)):
            k = rng.random()
            l = rng.randrange(3)
            if k < 0.34:
                o = {"o": rng.choice(("append", "append", "prepend", "insert", "set", "gset")), "l": l, "r": world.gen_range(rng, cfg, v0, multi), "g": rng.randint(0, 1), "i": rng.randrange(9)}
            elif k < 0.44:
                o = {"o": rng.choice(("pop", "split_group", "gdel", "bounds", "swap")), "l": l, "i": rng.randrange(9), "k": rng.randrange(4)}
            elif k < 0.5:
                o = {"o": rng.choice(("sort", "reverse", "regroup", "clear_groups", "merge")), "l": l}
            elif k < 0.58:
                o = {"o": "setop", "name": rng.choice(NAMES), "l": l, "l2": rng.randrange(3)}
            elif k < 0.66:
                seps = rng.choice((list(world.DEFAULT_SEPS), world.gen_seps(rng)))
                o = {"o": "seps", "v": seps}
            elif k < 0.72:
                o = {"o": "flags", "v": rng.randint(0, 3)}
            elif k < 0.8:
                o = {"o": "new", "l": l, "v": self.gen_list(rng, cfg, v0, multi, near)}
            elif k < 0.86:
                spec2 = world.gen_cfg(rng, seps=0, custom=0.8)
                cfg = world.Cfg(spec2)
                o = {"o": "data", "v": spec2, "lists": [self.gen_list(rng, cfg, v0, multi, near) for _ in range(2)]}
            else:
                o = {"o": "aborted", "what": rng.choice(("str", "parse", "union", "seps")), "l": l, "at": oracle.gen_at(rng), "act": rng.choice(("interrupt", "memory", "timeout")),
                     "i": rng.randrange(5), "v": rng.choice(world.SEP_POOL)}
            o["check"] = [[l if rng.random() < 0.6 else rng.randrange(3), self.gen_fmt(rng) if rng.random() < 0.6 else [0, 0, 0, 0], rng.randint(0, 1)] for _ in range(rng.choice((1, 1, 2)))]
            out.append(o)
        return {"cfg": spec, "v0": v0, "multi": multi, "init": init, "ops": out, "glob": rng.randint(0, 3)}

    def gen_list(self, rng, cfg, v0, multi, near):
        if not near:
            return world.gen_list(rng, cfg, v0, multi, 5)
        # ranges of one or two books, so that the context of the preceding reference matters
        bs = rng.sample(cfg.books(), min(len(cfg.books()), rng.choice((1, 1, 2))))
        u = cfg.uni(v0)
        out = []
        for _ in range(rng.randint(1, 4)):
            grp = []
            for _ in range(rng.choice((1, 2, 2, 3))):
                b = rng.choice(bs)
                n = len(cfg.maxv[b])
                c = rng.randint(1, min(n, 4))
                d = rng.choice((c, c, min(n, c + 1), n))
                (i0, i1), (j0, j1) = u.cspan[(b, c)], u.cspan[(b, d)]
                i = rng.choice((i0, i0, i1, rng.randint(i0, i1), min(i1, i0 + 1)))
                j = rng.choice((j1, j1, j0, rng.randint(j0, j1), i))
                grp.append([list(x) for x in u.r(min(i, j), max(i, j))])
            out.append(grp)
        return out

    def run(self, plan, cx):
        cfg = world.Cfg(plan["cfg"])
        self.want_flags = plan["multi"] | 2 * plan["v0"]
        p = oracle.fresh(cfg, plan["glob"])
        L = [p.list(g) for g in plan["init"]]
        while len(L) < 3:
            L.append(p.List())
        seps = list(cfg.seps)
        n = 0
        for k in range(3):
            n += self.round_trip(p, L[k], [0, 0, 0, 0], 1, cx, f"initial list {k}")
        for step, o in enumerate(plan["ops"]):
            k = o["o"]
            lst = L[o["l"]] if "l" in o else None
            fl = p.flagbits[self.want_flags]
            size = len(lst) if lst is not None else 0
            if k == "append":
                lst.append(p.range(o["r"]), new_group=bool(o["g"]))
            elif k == "prepend":
                lst.prepend(p.range(o["r"]), new_group=bool(o["g"]))
            elif k == "insert":
                lst.insert(o["i"] % (size + 1), p.range(o["r"]))
            elif k == "pop" and size:
                lst.pop(o["i"] % size)
            elif k == "split_group" and size:
                lst.insert_group_at(o["i"] % size)
            elif k == "gdel" and size:
                g = lst.groups[o["i"] % len(lst.groups)]
                del g[o["k"] % len(g)]
            elif k == "set" and size:
                lst[o["i"] % size] = p.range(o["r"])
            elif k == "gset" and size:
                g = lst.groups[o["i"] % len(lst.groups)]
                g[o["i"] % len(g)] = p.range(o["r"])
            elif k == "swap" and size:
                a, b = o["i"] % size, o["k"] % size
                lst[a], lst[b] = lst[b], lst[a]
            elif k == "bounds" and size:                # as many groups, elsewhere
                many = len(lst.groups)
                lst.clear_groups()
                for x in range(many - 1):
                    lst.insert_group_at(1 + (o["i"] + x * (o["k"] + 1)) % max(1, size - 1) if size > 1 else 0)
            elif k == "sort":
                lst.sort()
            elif k in ("reverse", "clear_groups"):
                getattr(lst, k)()
            elif k in ("regroup", "merge"):
                getattr(lst, k)(flags=fl)
            elif k == "setop":
                getattr(lst, o["name"] + "_update")(L[o["l2"]], flags=fl)
            elif k == "seps":
                for nm, s in zip(world.SEP_NAMES, o["v"]):
                    setattr(p.data, nm, s)
                seps = o["v"]
            elif k == "flags":
                p.set_flags(o["v"])
            elif k == "new":
                L[o["l"]] = p.list(o["v"])
            elif k == "data":
                cfg = world.Cfg(dict(o["v"], seps=seps))
                p.apply_cfg(cfg, seps=False, full=True)
                L = [p.list(g) for g in o["lists"]] + [p.List()]
            elif k == "aborted":
                what = o["what"]
                s = lst.str(flags=fl)
                name = world.SEP_NAMES[o["i"]]
                if not size:
                    continue
                fn = {"str": lambda: lst.str(flags=fl), "parse": lambda: p.List(s, flags=fl), "union": lambda: lst.union(lst, flags=fl),
                      "seps": lambda: setattr(p.data, name, o["v"])}[what]
                if what == "seps" and o["v"] in seps:
                    continue
                g = engine.Guard(o["at"], o["act"])
                try:
                    g.run(fn)
                except engine.INJECTED:
                    pass
                except p.BaseErr:
                    if not g.fired and size:
                        self.unparsable(lst, s)
                if g.fired:
                    cx.faults[o["act"]] += 1
                if what == "seps":
                    seps = list(p.get_seps())
            for j, fmt, how in o["check"]:
                n += self.round_trip(p, L[j], fmt, how, cx, f"step {step} ({k})")
        cx.nontrivial = n >= 3

    def unparsable(self, lst, s):
        raise Violation("round-trip", f"the text {s!r} does not parse")

    def round_trip(self, p, lst, fmt, how, cx, when):
        if not len(lst):
            return 0
        rs = list(lst)
        f = self.want_flags
        if how:             # flags given to both calls
            kw = {"flags": p.flagbits[f]}
        else:               # flags set package-wide
            kw, old = {}, p.get_flags()
            p.set_flags(f)
        try:
            a, b, c, d = (bool(x) for x in fmt)
            before = p.enc(lst)
            text = lst.str(abbrev=a, alt_sep=b, nospace=c, force_start_verses=d, **kw)
            again = oracle.outcome_of(p, lambda: p.List(text, **kw))
            plain = str(lst) if not how else None
            plain_again = oracle.outcome_of(p, lambda: p.List(plain)) if not how else None
        finally:
            if not how:
                p.set_flags(old)
        cx.log(text, again)
        cx.state((tuple(fmt), f, [x for x in text if not x.isalnum()]))
        opt = f"abbrev={a}, alt_sep={b}, nospace={c}, force_start_verses={d}, flags={f}"
        if again != before:
            raise Violation("round-trip", f"{when}: {lists.show(before)} is written ({opt}) as {text!r}, which reads as {lists.show(again)}")
        if plain_again is not None and plain_again != before:
            raise Violation("round-trip", f"{when}: {lists.show(before)} is written as {plain!r}, which reads as {lists.show(plain_again)}")
        if p.enc(lst) != before:
            raise Violation("round-trip", f"{when}: writing {lists.show(before)} changed the list")
        return 1
