"""C12: operations finish, whatever the list size, aliasing or stack left."""
import copy, random, sys
from .. import engine, oracle, world, lists
from ..base import Prop, Violation
from .c08 import NAMES, alg, operate_in_place

RESERVE = 150          # frames left to a call that is made deep in the stack
CAP = 100_000_000
LINEAR = ("sort", "sort", "sort-plain", "merge", "merge", "union", "union", "reverse", "clear_groups", "regroup", "str", "iterate", "count", "copy", "extend",
          "append_group", "equal", "verse_count", "pops", "view", "boundaries", "range", "clear", "remove-last", "index-last", "nested", "convert")
PRODUCT = ("intersection", "difference", "sym_difference", "contains", "is_disjoint")


def deep(fn, reserve):
    """Calls fn() with only about `reserve` stack frames left."""
    d, f = 0, sys._getframe()
    while f is not None:
        d += 1
        f = f.f_back

    def rec(k):
        return fn() if k <= 0 else rec(k - 1)
    return rec(sys.getrecursionlimit() - d - reserve)


def build(u, kind, d):
    """Deterministic contents of a list of d["n"] items in groups."""
    rng = random.Random(f"{d['seed']}")
    n, shape, size = d["n"], d["shape"], len(u)
    out = []
    if kind == "G":
        vals = [rng.randrange(-n, 2 * n) for _ in range(n)]
        if shape in ("sorted", "adjacent"):
            vals.sort()
        elif shape == "reversed":
            vals.sort(reverse=True)
        elif shape == "same":
            vals = [7] * n
    else:
        for k in range(n):
            if shape == "same":
                i = j = size // 2
            elif shape == "nested":
                i = min(k, size - 1)
                j = max(i, min(size - 1, i + min(2 * (n - k), 40)))
            elif shape == "adjacent":
                i = j = k % size
            elif shape == "sparse":
                i = j = (2 * k) % size
            else:
                i = rng.randrange(size)
                j = min(size - 1, i + rng.choice((0, 0, 1, 2, 5, 20)))
            if not d["multi"]:
                j = min(j, u.bspan[u.verses[i][0]][1])
            out.append((i, j))
        if shape in ("sorted", "sparse", "adjacent"):
            out.sort()
        elif shape == "reversed":
            out.sort(reverse=True)
        elif shape == "shuffled":
            rng.shuffle(out)
        vals = [u.r(i, j) for i, j in out]
    groups, i = [], 0
    while i < n:
        k = {"one": n, "each": 1}.get(d["groups"]) or rng.randint(1, 7)
        groups.append(vals[i:i + k])
        i += k
    return groups


class PROP(Prop):
    ID = "C12"
    SHRINK = ("ops",)
    RUN_BUDGET = 400_000_000

    def gen(self, rng):
        k = rng.random()
        size = rng.choice((0, 1, 2, 3, 5, 8, 13)) if k < 0.6 else rng.randint(14, 60) if k < 0.85 else rng.randint(200, 1500) if k < 0.97 else rng.randint(1500, 3000)
        kind = "R" if rng.random() < 0.75 else "G"
        multi = int(rng.random() < 0.4)
        big = size > 60
        names = list(LINEAR)
        if not big:
            names += list(PRODUCT) * 4 + ["alias"] * 12 + ["boundary"] * 5
        out = []
        for _ in range(rng.randint(1, 3) if big else rng.randint(2, 9)):
            o = {"o": rng.choice(names), "l": rng.randrange(2), "flags": multi, "deep": rng.random() < 0.4, "i": rng.choice((0, 0, 1, rng.randrange(70))), "k": rng.randrange(4)}
            if o["o"] == "alias":
                o["a"] = rng.choice(("extend", "append_group", "iadd", "group", "own group", "extend group", "setop", "setop", "setop", "iop", "iop", "eq", "contains",
                                     "in", "is_disjoint", "view and view", "item"))
                o["name"] = rng.choice(NAMES)
            if rng.random() < 0.2:
                o["disturb"] = [oracle.gen_at(rng), rng.choice(("interrupt", "memory", "timeout")), rng.choice(("str", "union", "copy", "iter", "contains", "eq"))]
            out.append(o)
        init = [{"n": n, "shape": rng.choice(("random", "sorted", "reversed", "same", "adjacent", "nested", "sparse", "shuffled")), "seed": rng.randrange(10 ** 6),
                 "multi": multi, "groups": rng.choice(("one", "each", "some", "some"))} for n in (size, rng.choice((0, 1, 3, size, size // 2)))]
        spec = {} if big or rng.random() < 0.4 else world.gen_cfg(rng, seps=0, custom=1)
        return {"cfg": spec, "kind": kind, "init": init, "ops": out, "multi": multi}

    def simplify(self, plan):
        yield from super().simplify(plan)
        for i, d in enumerate(plan["init"]):
            for n in (0, 1, 2, d["n"] // 4, d["n"] // 2, d["n"] * 3 // 4, d["n"] - 1):
                if 0 <= n < d["n"]:
                    c = {**plan, "init": [dict(x) for x in plan["init"]]}
                    c["init"][i]["n"] = n
                    yield c

    def run(self, plan, cx):
        cfg = world.Cfg(plan["cfg"])
        u = self.u = cfg.uni(0)
        p = self.p = oracle.fresh(cfg, plan["multi"])
        self.fl = plan["multi"]
        self.chap, last = [], None                  # running chapter number of each verse
        for v in u.verses:
            self.chap.append((self.chap[-1] if self.chap else 0) + (v[:2] != last))
            last = v[:2]
        kind = plan["kind"]
        w = self.w = lists.World(p, kind, [])
        with oracle.quiet():
            for d in plan["init"]:
                g = build(u, kind, d)
                w.new(g if kind == "G" else [[p.range(r) for r in x] for x in g])
        self.cx = cx
        n = 0
        for step, o in enumerate(plan["ops"]):
            m = o["l"]
            when = f"step {step} ({o['o']}{' ' + o['a'] if 'a' in o else ''}, {w.size(0)} and {w.size(1)} items{', deep in the stack' if o['deep'] else ''})"
            if "disturb" in o:
                self.disturb(o, w.real[m], w.real[1 - m])
            self.step(o, m, when)
            n += 1
            with oracle.quiet():
                for k in (0, 1):
                    lists.look(w, k, deep=w.size(k) <= 60, when=f"after {when}")
            cx.log(o["o"], [[len(g) for g in x][:50] for x in w.model])
            cx.state((o["o"], o.get("a"), o.get("name"), o["deep"], w.size(m).bit_length(), plan["init"][m]["shape"]))
        cx.nontrivial = n >= 1

    def disturb(self, o, lst, other):
        at, act, what = o["disturb"]
        g = engine.Guard(at, act, budget=CAP)
        if self.w.kind == "G" and what in ("str", "union"):
            what = "copy"
        if what == "contains" and len(lst) * len(other) > 4000:
            what = "eq"
        fn = {"str": lambda: str(lst), "union": lambda: lst.union(other), "copy": lambda: self.w.cls(lst), "iter": lambda: [list(g) for g in lst.groups] + list(reversed(lst)),
              "contains": lambda: [x in other for x in lst], "eq": lambda: lst == other}[what]
        try:
            g.run(fn)
        except engine.INJECTED:
            pass
        if g.fired:
            self.cx.faults[act] += 1

    def call(self, o, when, n, m, fn, product=False):
        budget = 240_000 + (3200 * (n + 2) * (m + 2) ** 2 if product else 800 * (n + m + 2) ** 2)
        if self.w.kind == "R":
            with oracle.quiet():
                budget += 12000 * sum(self.chap[j] - self.chap[i] for k in (0, 1) for i, j in self.spans(k))
        g = engine.Guard(budget=min(budget, CAP))
        try:
            if o["deep"]:
                self.cx.faults["little stack left"] += 1
                r = deep(lambda: g.run(fn), RESERVE)
            else:
                r = g.run(fn)
        except engine.StepLimit:
            raise Violation("no-progress", f"{when}: not finished after {g.n} steps")
        except RecursionError as e:
            raise Violation("no-progress", f"{when}: failed with {RESERVE if o['deep'] else 'about 900'} stack frames left ({e})")
        self.cx.steps += g.n
        self.cx.probes["steps per item, over 500" if g.n > 500 * (n + m + 1) else "steps per item, up to 500"] += 1
        return r

    def spans(self, m):
        return [self.u.span(self.p.enc(s[1])) for s in self.w.flat(m)]

    def consolidated(self, mask, spans=()):
        """The only consolidated list for a set of verses (no range crosses books unless the flags allow it)."""
        u = self.u
        out = []
        for i, j in u.runs(mask):
            while not self.fl and u.bspan[u.verses[i][0]][1] < j:
                e = u.bspan[u.verses[i][0]][1]
                out.append((i, e))
                i = e + 1
            out.append((i, j))
        return out

    def judge_set(self, lst, mask, when):
        u, p = self.u, self.p
        got = [p.enc(r) for r in lst]
        want = [u.r(*x) for x in self.consolidated(mask)]
        if got != want:
            raise Violation("wrong-result", f"{when} gives {lists.show(got)}, expected {lists.show(want)}")

    def absorb(self, m):
        w = self.w
        w.renew(m, [[w.slot(v) for v in g] for g in w.real[m].groups])

    def step(self, o, m, when):
        with oracle.quiet():
            w, p, u = self.w, self.p, self.u
            lst, other, g = w.real[m], w.real[1 - m], w.model[m]
            n, n2 = w.size(m), w.size(1 - m)
            vals = [s[1] for s in w.flat(m)]
            R = w.kind == "R"
            mask = u.mask([p.enc(v) for v in vals]) if R else 0
            mask2 = u.mask([p.enc(s[1]) for s in w.flat(1 - m)]) if R else 0
        k = o["o"]

        def call(fn, product=False, a=n, b=n2):
            return self.call(o, when, a, b, fn, product)

        def expect(got, want, what=""):
            if got != want:
                raise Violation("wrong-result", f"{when} {what} gives {lists.show(got)}, expected {lists.show(want)}")
        if k == "alias":
            return self.alias(o, m, when, call, expect, mask)
        if k == "boundary":
            if n:
                for _ in range(3):
                    call(lambda: lst.insert_group_at(o["i"] % n))
                a, i = w.where(m, o["i"] % n)
                if i:
                    g[a:a + 1] = [g[a][:i], g[a][i:]]
                expect(call(lambda: len([list(x) for x in lst.groups])), len(g), "groups")
        elif k == "boundaries":
            for i in range(0, min(n, 40)):
                call(lambda: lst.insert_group_at(i))
            f = w.flat(m)
            ends = {0}
            for x in g:
                ends.add(max(ends) + len(x))
            ends |= set(range(0, min(n, 40)))
            ends = sorted(e for e in ends if e < n)
            w.model[m] = [f[a:b] for a, b in zip(ends, ends[1:] + [n])]
        elif k in ("sort", "sort-plain"):
            if R and k == "sort-plain":
                call(lambda: lst.sort(regroup=False))
            else:
                call(lst.sort)
            with oracle.quiet():
                if R:
                    f = sorted(w.flat(m), key=lambda s: u.span(p.enc(s[1])))
                    if k == "sort":
                        lists.adopt(w, m, f)
                        return
                else:
                    f = sorted(w.flat(m), key=lambda s: s[1])
                w.renew(m, [f] if f else [])
        elif k in ("reverse", "clear_groups"):
            call(getattr(lst, k))
            f = w.flat(m)[::-1] if k == "reverse" else w.flat(m)
            w.renew(m, [f] if f else [])
        elif k == "clear":
            call(lst.clear)
            w.model[m] = []
        elif k == "iterate":
            expect(call(lambda: (len(list(lst)), len(list(reversed(lst))), len(list(lst.groups)))), (n, n, len(g)))
        elif k == "nested":
            expect(call(lst.to_nested_lists) == lists.values(g), True, "to_nested_lists")
        elif k == "copy":
            c = call(lambda: (w.cls, copy.copy, copy.deepcopy)[o["k"] % 3](lst))
            expect(list(c) == vals, True, "a copy")
        elif k == "equal":
            c = w.cls(lists.values(g))
            expect(call(lambda: lst == c), True)
        elif k in ("count", "index-last", "remove-last"):
            if n:
                v = vals[-1]
                if k == "count":
                    expect(call(lambda: lst.count(v)), sum(x == v for x in vals))
                else:
                    i = vals.index(v)
                    if k == "index-last":
                        expect(call(lambda: lst.index(v)), i)
                    else:
                        call(lambda: lst.remove(v))
                        w.remove_at(m, i)
        elif k == "pops":
            for _ in range(min(n, 5)):
                call(lambda: lst.pop(len(lst) // 2))
                w.remove_at(m, w.size(m) // 2)
        elif k == "view":
            if n:
                gi = o["i"] % len(g)
                v = lst.groups[gi]
                expect(call(lambda: (len(v), list(v) == [s[1] for s in g[gi]])), (len(g[gi]), True))
        elif k in ("extend", "append_group"):
            if n + n2 > 4000:
                return
            call(lambda: getattr(lst, k)(other))
            s = [w.slot(x[1]) for x in w.flat(1 - m)]
            if s:
                if g and k == "extend":
                    g[-1] += s
                else:
                    g.append(s)
        elif not R:
            return
        elif k == "str":
            s = call(lst.str)
            if (s == "") != (n == 0):
                raise Violation("wrong-result", f"{when} gives {lists.show(s)}")
        elif k == "verse_count":
            expect(call(lst.verse_count), sum(j - i + 1 for i, j in self.spans(m)))
        elif k == "range":
            if n:
                sp = self.spans(m)
                expect(p.enc(call(lst.range)), u.r(min(i for i, j in sp), max(j for i, j in sp)))
        elif k == "convert":
            call(lst.verse_1_to_0)
            call(lst.verse_0_to_1)
            w.renew(m, w.model[m])
        elif k == "regroup":
            call(lst.regroup)
            lists.adopt(w, m, w.flat(m))
        elif k == "merge":
            call(lst.merge)
            with oracle.quiet():
                self.judge_set(lst, mask, when)
                self.absorb(m)
        elif k == "union":
            r = call(lambda: lst.union(other))
            with oracle.quiet():
                self.judge_set(r, mask | mask2, when)
        elif k in ("contains", "is_disjoint"):
            if n * n2 > 4000:
                return
            r = call(lambda: getattr(lst, k)(other), True)
            expect(r, mask & mask2 == 0 if k == "is_disjoint" else mask2 & ~mask == 0)
        elif k in NAMES:
            r = call(lambda: getattr(lst, k)(other), True)
            with oracle.quiet():
                self.judge_set(r, alg(k, mask, mask2), when)

    def alias(self, o, m, when, call, expect, mask):
        """The list, or a part of it, is its own operand."""
        w, p = self.w, self.p
        lst, g, n = w.real[m], w.model[m], w.size(m)
        a, R = o["a"], w.kind == "R"
        if not R and a in ("setop", "iop", "contains", "in", "is_disjoint", "item"):
            a = "extend"
        if n > 240 and a in ("extend", "append_group", "iadd", "group", "own group", "extend group"):
            a = "eq"

        def dup(slots, new):
            s = [w.slot(x[1]) for x in slots]
            if s:
                if g and not new:
                    g[-1] += s
                else:
                    g.append(s)
        if a == "extend":
            call(lambda: lst.extend(lst), b=n)
            dup(w.flat(m), False)
        elif a == "iadd":
            def fn():
                x = lst
                x += lst
                return x is lst
            expect(call(fn, b=n), True, "the variable")
            dup(w.flat(m), False)
        elif a == "append_group":
            call(lambda: lst.append_group(lst), b=n)
            dup(w.flat(m), True)
        elif a in ("group", "own group", "extend group"):
            if n:
                k = len(g) - 1 if a == "own group" else o["i"] % len(g)
                v = lst.groups[k]
                call(lambda: lst.extend(v) if a == "extend group" else lst.append_group(v), b=n)
                dup(list(g[k]), a != "extend group")
        elif a == "eq":
            expect(call(lambda: (lst == lst, lst != lst, lst.equals(lst)), b=n), (True, False, True))
        elif a in ("contains", "in"):
            expect(call(lambda: lst.contains(lst) if a == "contains" else lst in lst, True, b=n), True)
        elif a == "is_disjoint":
            expect(call(lambda: lst.is_disjoint(lst), True, b=n), n == 0)
        elif a == "view and view":
            if n:
                k = o["i"] % len(g)
                v, v2 = lst.groups[k], lst.groups[k]
                expect(call(lambda: sum(1 for x in v for y in v2), True, b=n), len(g[k]) ** 2)
        elif a == "item":
            if n:
                i = o["i"] % n
                call(lambda: operate_in_place(o["name"], lst, lst[i]), True, b=n)
                with oracle.quiet():
                    self.judge_set(lst, alg(o["name"], mask, self.u.mask([p.enc(w.flat(m)[i][1])])), when)
                    self.absorb(m)
        else:
            name = o["name"]
            want = alg(name, mask, mask)
            if a == "setop":
                with oracle.quiet():
                    before = p.enc(lst)
                r = call(lambda: getattr(lst, name)(lst), True, b=n)
                with oracle.quiet():
                    self.judge_set(r, want, when)
                    expect(p.enc(lst), before, "its operand")
                call(lambda: getattr(lst, name + "_update")(lst), True, b=n)
            else:
                expect(call(lambda: operate_in_place(name, lst, lst) is lst, True, b=n), True, "the variable")
            with oracle.quiet():
                self.judge_set(lst, want, when)
                self.absorb(m)
