"""C08: set updates on lists equal verse-set algebra over any history."""
from .. import engine, oracle, ops, world, pkg, lists
from ..base import Prop, Violation

NAMES = ("union", "intersection", "difference", "sym_difference")
SYM = dict(zip(NAMES, "|&-^"))


def alg(name, a, b):
    return a | b if name == "union" else a & b if name == "intersection" else a & ~b if name == "difference" else a ^ b


def operate(name, a, b):
    return a | b if name == "union" else a & b if name == "intersection" else a - b if name == "difference" else a ^ b


def operate_in_place(name, a, b):
    if name == "union":
        a |= b
    elif name == "intersection":
        a &= b
    elif name == "difference":
        a -= b
    else:
        a ^= b
    return a


class PROP(Prop):
    ID = "C08"
    SHRINK = ("ops", "init")

    def min_len(self, path):
        return 1 if path == ("init",) else 0

    def gen(self, rng):
        spec = world.gen_cfg(rng, seps=0, custom=0.85)
        cfg = world.Cfg(spec)
        v0 = int(rng.random() < 0.5)
        multi = rng.random() < 0.5
        init = [world.gen_list(rng, cfg, v0, multi) for _ in range(rng.choice((2, 3)))]
        out = []
        faults = rng.random() < 0.3
        for _ in range(rng.randint(2, 12)):
            k = rng.random()
            if k < 0.78:
                x = rng.random()
                if x < 0.4:
                    arg = ["l", rng.randrange(3)]
                elif x < 0.5:
                    arg = ["self"]
                elif x < 0.7:
                    arg = ["R", world.gen_range(rng, cfg, v0, multi)]
                elif x < 0.85:
                    arg = ["V", world.gen_verse(rng, cfg, v0)]
                else:
                    arg = ["item", rng.randrange(3), rng.randrange(5), rng.randint(0, 2)]      # an item, its start or its end
                o = {"o": rng.choice(NAMES), "form": rng.choice(("method", "op", "update", "update", "iop", "iop", "range", "rangeop")),
                     "l": rng.randrange(3), "x": arg, "d": rng.randrange(4), "flags": rng.choice((None, 0, 1)), "glob": rng.randint(0, 1), "i": rng.randrange(5)}
                if faults and o["form"] in ("method", "op") and rng.random() < 0.4:
                    o["fault"] = [oracle.gen_at(rng, (5, 40, 200, 800)), rng.choice(("interrupt", "memory", "timeout"))]
                out.append(o)
            elif k < 0.88:
                out.append({"o": "merge", "l": rng.randrange(3), "flags": rng.choice((None, 0, 1)), "glob": rng.randint(0, 1)})
            elif k < 0.94:
                out.append({"o": "append", "l": rng.randrange(3), "r": world.gen_range(rng, cfg, v0, multi), "g": rng.randint(0, 1)})
            else:
                out.append({"o": "drop", "l": rng.randrange(3), "i": rng.randrange(5)})
            out[-1]["ask"] = [["R", world.gen_range(rng, cfg, v0, True)], ["V", world.gen_verse(rng, cfg, v0)],
                              ["l", rng.randrange(3)]][:rng.randint(0, 3)]
        return {"cfg": spec, "v0": v0, "init": init, "ops": out}

    def run(self, plan, cx):
        cfg, v0 = world.Cfg(plan["cfg"]), plan["v0"]
        u = cfg.uni(v0)
        p = oracle.fresh(cfg, 2 * v0)
        L = [p.list(g) for g in plan["init"]]
        M = [u.mask([r for grp in g for r in grp]) for g in plan["init"]]
        done = 0
        self.u, self.p = u, p

        def mask(lst):
            return u.mask([p.enc(r) for r in lst])

        for n, o in enumerate(plan["ops"]):
            k = o["l"] % len(L)
            lst = L[k]
            when = f"step {n}"
            if o["o"] == "append":
                lst.append(p.range(o["r"]), new_group=bool(o["g"]))
                M[k] |= u.mask([o["r"]])
                continue
            if o["o"] == "drop":
                if len(lst):
                    lst.pop(o["i"] % len(lst))
                    M[k] = mask(lst)
                continue
            glob = o["glob"] | 2 * v0
            p.set_flags(glob)
            F = None if o["flags"] is None else o["flags"] | 2 * v0
            eff = glob if F is None else F
            kw = {} if F is None else {"flags": p.flagbits[F]}
            if o["o"] == "merge":
                spans = [u.span(p.enc(r)) for r in lst]
                lst.merge(**kw)
                self.judge(lst, M[k], eff, spans, f"{when}: merge()", cx)
                done += 1
            else:
                name, form = o["o"], o["form"]
                x, xm, xsrc = self.operand(p, u, L, M, o, k)
                if x is None:
                    continue
                left, lm = lst, M[k]
                if form in ("range", "rangeop"):
                    if not len(lst):
                        continue
                    left = lst[o["i"] % len(lst)]
                    lm = u.mask([p.enc(left)])
                want = alg(name, lm, xm)
                spans = [u.span(p.enc(r)) for r in (left if isinstance(left, p.List) else [left])]
                spans += [u.span(p.enc(r)) for r in (x if isinstance(x, p.List) else [x] if isinstance(x, p.Range) else [p.Range(start=x, end=x)])]
                before = p.enc(left), p.enc(x)
                desc = f"{when}: {name} ({form}, flags {F}, package flags {glob}) of {lists.show(before[0])} and {lists.show(before[1])}"
                if form in ("op", "iop", "rangeop"):
                    eff, kw = glob, {}
                if form in ("method", "range", "update"):
                    out_of_place = lambda: getattr(left, name)(x, **kw)
                else:
                    out_of_place = lambda: operate(name, left, x)
                if "fault" in o:
                    g = engine.Guard(*o["fault"])
                    try:
                        g.run(out_of_place)
                    except engine.INJECTED:
                        pass
                    if g.fired:
                        cx.faults[o["fault"][1]] += 1
                    if (p.enc(left), p.enc(x)) != before:
                        raise Violation("operand", f"{desc}: cut short, it changed an operand")
                r = out_of_place()
                if not isinstance(r, p.List):
                    raise Violation("result", f"{desc} gave {r!r}")
                self.judge(r, want, eff, spans, desc, cx)
                if (p.enc(left), p.enc(x)) != before:
                    raise Violation("operand", f"{desc} changed an operand")
                if form in ("update", "iop"):
                    if form == "update":
                        getattr(lst, name + "_update")(x, **kw)
                        same = lst
                    else:
                        same = operate_in_place(name, lst, x)
                    if same is not lst:
                        raise Violation("rebound", f"{desc}: the in-place operator gave {same!r} instead of the list")
                    if p.enc(lst) != p.enc(r):
                        raise Violation("in-place", f"{desc}: in place it leaves {p.enc(lst)}, otherwise it gives {p.enc(r)}")
                    M[k] = want
                    if x is not lst and p.enc(x) != before[1]:
                        raise Violation("operand", f"{desc} changed its operand")
                else:
                    d = o["d"]
                    if d < len(L):
                        L[d], M[d] = r, want
                    elif len(L) < 4:
                        L.append(r)
                        M.append(want)
                done += 1
                cx.state((name, form, eff, self.shape(lm, xm)))
                cx.log(name, form, eff, p.enc(r))
            for j in range(len(L)):
                if mask(L[j]) != M[j]:
                    raise Violation("coverage", f"{when}: list {j} covers other verses than set algebra gives: {p.enc(L[j])}")
            for a in o["ask"]:
                self.ask(p, u, L, M, k, a, glob, when, cx)
        cx.nontrivial = done >= 2

    def shape(self, a, b):
        return (a == 0, b == 0, a & b == 0, a & ~b == 0, b & ~a == 0)

    def operand(self, p, u, L, M, o, k):
        a = o["x"]
        if a[0] == "self":
            return L[k], M[k], None
        if a[0] == "l":
            j = a[1] % len(L)
            return L[j], M[j], None
        if a[0] == "item":
            src = L[a[1] % len(L)]
            if not len(src):
                return None, 0, None
            r = src[a[2] % len(src)]
            if a[3] == 0:
                return r, u.mask([p.enc(r)]), None
            v = r.start if a[3] == 1 else r.end
            return v, u.mask([(p.enc(v), p.enc(v))]), None
        if a[0] == "R":
            return p.range(a[1]), u.mask([a[1]]), None
        return p.verse(a[1]), u.mask([(a[1], a[1])]), None

    def judge(self, lst, want, eff, spans, desc, cx):
        u, p = self.u, self.p
        rs = [p.enc(r) for r in lst]
        for r in rs:
            if not u.ok(r):
                raise Violation("coverage", f"{desc} gives {rs}, with verses that do not exist under the flags")
        if u.mask(rs) != want:
            w = [u.r(*x) for x in u.runs(want)]
            raise Violation("coverage", f"{desc} gives {rs}, which covers other verses than {w}")
        sp = [u.span(r) for r in rs]
        for (a, b), (c, d) in zip(sp, sp[1:]):
            if c <= b:
                raise Violation("consolidation", f"{desc} gives {rs}, which is not sorted and disjoint")
            if c == b + 1 and (eff & 1 or u.verses[b][0] == u.verses[c][0]):
                raise Violation("consolidation", f"{desc} gives {rs}, where two ranges could be merged")
        if not eff & 1:
            for a, b in sp:
                while u.bspan[u.verses[a][0]][1] < b:
                    e = u.bspan[u.verses[a][0]][1]
                    if not any(i <= e and j > e for i, j in spans):
                        raise Violation("consolidation", f"{desc} gives {rs}, with a range across books that the flags do not allow and no operand had")
                    cx.probes["range across books kept without MULTIBOOK"] += 1
                    a = e + 1
        if any(len(list(g)) == 0 for g in lst.groups) or sum(len(list(g)) for g in lst.groups) != len(rs):
            raise Violation("consolidation", f"{desc}: broken groups")

    def ask(self, p, u, L, M, k, a, glob, when, cx):
        if a[0] == "l":
            j = a[1] % len(L)
            x, xm, parts = L[j], M[j], [p.enc(r) for r in L[j]]
        elif a[0] == "R":
            x, xm, parts = p.range(a[1]), u.mask([a[1]]), [a[1]]
        else:
            x, xm, parts = p.verse(a[1]), u.mask([(a[1], a[1])]), [(a[1], a[1])]
        m = M[k]
        got = L[k].is_disjoint(x)
        if got != (m & xm == 0):
            raise Violation("membership", f"{when}: {p.enc(L[k])}.is_disjoint({p.enc(x)}) is {got}")
        inside = xm & ~m == 0
        # (a range across books in a list of single-book ranges: whether it counts as inside depends on the flags)
        if not glob & 1 and inside and any(r[0][0] != r[1][0] for r in parts):
            return
        for what, got in (("in", x in L[k]), ("contains", L[k].contains(x))):
            if got != inside:
                raise Violation("membership", f"{when}: {p.enc(x)} {what} {p.enc(L[k])} (package flags {glob}) is {got}")
        cx.probes["inside" if inside else "not inside"] += 1
        if len(L[k]):
            r = u.runs(m)
            got, want = p.enc(L[k].range()), u.r(r[0][0], r[-1][1])
            if got != want:
                raise Violation("membership", f"{when}: the range of {p.enc(L[k])} is {got}, expected {want}")
