"""C04: a Bible-data change takes full effect, or none, and can be undone."""
import copy
from .. import engine, model, oracle, ops, world, pkg
from ..base import Prop, Violation

PARTS = ("order", "names", "maxv", "v0")
ATTR = {"order": "book_order", "names": "name_data", "maxv": "max_verses", "v0": "verse_0s"}
VOCAB = ["Alpha", "Bravo", "Charlie", "Delta", "Echo", "Foxtrot", "Golf", "Hotel"]     # no prefix of a default name, nor of each other
BAD = {"order": ["dup", "nonbook", "none", "int", "fail", "failbook"],
       "names": ["short", "entry", "regex", "nonstr", "none", "int", "fail"],
       "maxv": ["none", "int", "fail"], "v0": ["none", "int", "fail"]}


class SourceError(Exception):
    pass


class FailSeq(list):
    """A sequence that fails at its at-th access while armed."""
    at = None

    def _tick(self):
        if self.at is not None:
            self.at -= 1
            if self.at < 0:
                raise SourceError()

    def __getitem__(self, i):
        self._tick()
        return list.__getitem__(self, i)

    def __len__(self):
        self._tick()
        return list.__len__(self)

    def __iter__(self):
        for x in list.__iter__(self):
            self._tick()
            yield x


class FailMap(dict):
    at = None
    _tick = FailSeq._tick

    def __getitem__(self, k):
        self._tick()
        return dict.__getitem__(self, k)

    def __contains__(self, k):
        self._tick()
        return dict.__contains__(self, k)

    def get(self, k, d=None):
        self._tick()
        return dict.get(self, k, d)

    def __iter__(self):
        self._tick()
        return dict.__iter__(self)

    def keys(self):
        self._tick()
        return dict.keys(self)

    def items(self):
        self._tick()
        return dict.items(self)

    def values(self):
        self._tick()
        return dict.values(self)


def compose(cfgs, state):
    spec = {}
    for part, i in state.items():
        if i >= 0 and cfgs[i].get(part) is not None:
            spec[part] = cfgs[i][part]
    return spec


class PROP(Prop):
    ID = "C04"
    SHRINK = ("ops", "cfgs")

    def gen_cfgs(self, rng):
        base = rng.sample(world.REF["order"], rng.randint(3, 6))
        out = []
        for _ in range(rng.randint(1, 3)):
            if out and rng.random() < 0.5:
                out.append(self.near(rng, rng.choice(out), base))
                continue
            spec = {}
            books = [b for b in base if rng.random() < 0.85] or base[:2]
            rng.shuffle(books)
            if rng.random() < 0.2:
                books = list(world.REF["order"])
                rng.shuffle(books)
            spec["order"] = books
            if len(books) < 20:
                spec["maxv"] = {b: [rng.randint(1, 5) for _ in range(rng.choice((1, 2, 3)))] for b in (base if rng.random() < 0.7 else books)}
            elif rng.random() < 0.5:
                mv = dict(world.REF["maxv"])
                for b in rng.sample(sorted(mv), 3):
                    mv[b] = [rng.randint(1, 9) for _ in range(rng.randint(1, 4))]
                spec["maxv"] = mv
            mv = spec.get("maxv") or world.REF["maxv"]
            spec["v0"] = {b: [c for c in range(1, len(mv[b]) + 1) if rng.random() < 0.5] for b in books[:8] if b in mv}
            if rng.random() < 0.6:
                nm = dict(world.REF["names"]) if rng.random() < 0.5 else {b: world.REF["names"][b] for b in base}
                voc = rng.sample(VOCAB, rng.randint(1, 4))
                for v in voc:
                    b = rng.choice(base)
                    if nm.get(b, [0, ""])[1] not in VOCAB:
                        nm[b] = [v[:3], v, rng.randint(1, 3), ["Q" + v] if rng.random() < 0.5 else []]
                spec["names"] = nm
            out.append(spec)
        return base, out

    def near(self, rng, spec, base, only=None):
        """A copy of a configuration that differs in a few places only."""
        spec = copy.deepcopy(spec)
        for _ in range(rng.randint(1, 3)):
            k = only or rng.choice(("swap", "verse", "verse", "v0", "drop", "name"))
            b = rng.choice([b for b in base if b in spec["order"]] or spec["order"])
            if k == "swap" and len(spec["order"]) > 1:
                i = spec["order"].index(b)
                j = rng.choice((i - 1, rng.randrange(len(spec["order"]))))
                spec["order"][i], spec["order"][j] = spec["order"][j], spec["order"][i]
            elif k == "drop" and len(spec["order"]) > 2:
                spec["order"].remove(b)
            elif k == "verse":
                mv = spec.setdefault("maxv", dict(world.REF["maxv"]))
                if b in mv:
                    mv[b] = list(mv[b])
                    i = rng.randrange(len(mv[b]))
                    mv[b][i] = max(1, mv[b][i] + rng.choice((-1, 1, 2)))
            elif k == "v0":
                n = len((spec.get("maxv") or world.REF["maxv"]).get(b, ()))
                if n:
                    spec["v0"][b] = sorted(set(spec["v0"].get(b, ())) ^ {rng.randint(1, n)})
            elif k == "name":
                nm = spec.setdefault("names", dict(world.REF["names"]))
                v = rng.choice(VOCAB)
                if all(x[1] != v for x in nm.values()):
                    nm[b] = [v[:3], v, rng.randint(1, 3), []]
        return spec

    def gen_panel(self, rng, cfgs):
        """Calls made again and again, under whatever data is in effect."""
        out = []
        for _ in range(rng.randint(2, 7)):
            cfg = world.Cfg(rng.choice(cfgs))
            if cfg.books():
                c = ops.gen_call(rng, cfg, rng.random() < 0.5, rng.random() < 0.6)
                if ops.OPS[c["f"]][0]:
                    c["flags"] = rng.choice((None, 0, 1, 2, 3))
                out.append(c)
        return out

    def gen(self, rng):
        base, cfgs = self.gen_cfgs(rng)
        panel = self.gen_panel(rng, cfgs)
        state = {p: -1 for p in PARTS}
        out = []
        for _ in range(rng.randint(3, 14)):
            k = rng.random()
            if k < 0.3:          # change a whole configuration, in any order of its parts
                i = rng.randint(-1, len(cfgs) - 1)
                parts = list(PARTS)
                rng.shuffle(parts)
                for p in parts:
                    if rng.random() < 0.9:
                        out.append({"k": "set", "part": p, "i": i})
                        state[p] = i
            elif k < 0.42:
                p, i = rng.choice(PARTS), rng.randint(-1, len(cfgs) - 1)
                out.append({"k": "set", "part": p, "i": i})
                state[p] = i
            elif k < 0.6:
                p = rng.choice(PARTS)
                out.append({"k": "bad", "part": p, "how": rng.choice(BAD[p]), "i": rng.randint(-1, len(cfgs) - 1),
                            "at": rng.randint(0, rng.choice((2, 8, 70, 200)))})
            else:
                cfg = world.Cfg(compose(cfgs, state))
                if cfg.books():
                    c = ops.gen_call(rng, cfg, rng.random() < 0.5, rng.random() < 0.6)
                    if ops.OPS[c["f"]][0]:
                        c["flags"] = rng.choice((None, 0, 1, 2, 3))
                    out.append({"k": "probe", "c": c})
            if rng.random() < 0.3:
                out.append({"k": "model", "s": rng.randrange(1 << 30)})
            if rng.random() < 0.5:
                out.append({"k": "panel", "c": panel})
        out.append({"k": "panel", "c": panel})
        out.append({"k": "model", "s": rng.randrange(1 << 30)})
        return {"cfgs": cfgs, "base": base, "glob": rng.choice((0, 1, 2, 3)), "ops": out}

    # ---------------------------------------------------------------------------------------------------------------
    def obj(self, p, part, cfg):
        return {"order": lambda: p.book_order_obj(cfg.order), "names": lambda: p.names_obj(cfg.names),
                "maxv": lambda: p.maxv_obj(cfg.maxv), "v0": lambda: p.v0_obj(cfg.v0)}[part]()

    def bad(self, p, o, cfg):
        part, how = o["part"], o["how"]
        x = self.obj(p, part, cfg)
        n = len(x)
        if how == "none":
            return None
        if how == "int":
            return 5
        if how == "fail":
            x = FailSeq(x) if part == "order" else FailMap(x)
            x.at = o["at"]
            return x
        at = o["at"] % n
        if how == "dup":
            x.insert((at * 7) % (n + 1), x[at])
        elif how == "nonbook":
            x[at] = "Matt"
        elif how == "failbook":
            x[at] = None
        elif part == "names":
            b = list(x)[at]
            x[b] = {"short": x[b][:2], "entry": None, "regex": (x[b][0], "Ab(", 3, []), "nonstr": (x[b][0], 12, 1, [])}[how]
        return x

    def run(self, plan, cx):
        p = pkg.Pkg()
        glob = plan["glob"]
        p.set_flags(glob)
        cfgs = plan["cfgs"]
        state = {x: -1 for x in PARTS}
        pristine = {}
        changes = 0
        self.pool = {}
        self.kept = []           # objects made under earlier data
        for n, o in enumerate(plan["ops"]):
            if o["k"] == "set":
                i = o["i"] if o["i"] < len(cfgs) else -1
                new = dict(state, **{o["part"]: i})
                cfg = world.Cfg(compose(cfgs, new))
                x = self.obj(p, o["part"], cfg)
                setattr(p.data, ATTR[o["part"]], x)
                cx.log("set", o["part"], i)
                changes += new != state
                state = new
                got = getattr(p.data, ATTR[o["part"]])
                if got != x:
                    raise Violation("readback", f"step {n}: {ATTR[o['part']]} reads back differently from what was set")
            elif o["k"] == "bad":
                i = o["i"] if o["i"] < len(cfgs) else -1
                cfg = world.Cfg(compose(cfgs, dict(state, **{o["part"]: i})))
                before = copy.copy(getattr(p.data, ATTR[o["part"]]))
                x = self.bad(p, o, cfg)
                try:
                    setattr(p.data, ATTR[o["part"]], x)
                    refused = False
                except Exception as e:
                    refused = True
                finally:
                    if hasattr(x, "at"):
                        x.at = None
                cx.log("bad", o["part"], o["how"], refused)
                if refused:
                    cx.faults["rejected " + o["part"] + " " + o["how"]] += 1
                    if getattr(p.data, ATTR[o["part"]]) != before:
                        raise Violation("half-applied", f"step {n}: {ATTR[o['part']]} changed although the change ({o['how']}) was refused")
                    self.basics(p, world.Cfg(compose(cfgs, state)), glob, f"after the refused change in step {n}")
                elif o["how"] == "fail":
                    state = dict(state, **{o["part"]: i})      # the failure point was beyond the end: a normal change
                else:
                    cx.probes["odd data accepted"] += 1         # nothing is claimed then; set proper data again
                    setattr(p.data, ATTR[o["part"]], self.obj(p, o["part"], world.Cfg(compose(cfgs, state))))
            elif o["k"] == "probe":
                self.ask(p, [o["c"]], world.Cfg(compose(cfgs, state)), glob, pristine, cx, n, state)
            elif o["k"] == "panel":
                self.ask(p, o["c"], world.Cfg(compose(cfgs, state)), glob, pristine, cx, n, state)
            else:
                self.basics(p, world.Cfg(compose(cfgs, state)), glob, f"step {n}")
                self.model(p, world.Cfg(compose(cfgs, state)), glob, o["s"], cx, f"step {n}")
        for part in PARTS:          # back to the defaults: everything as it was
            setattr(p.data, ATTR[part], self.obj(p, part, world.Cfg()))
        self.basics(p, world.Cfg(), glob, "after setting the default data again")
        self.model(p, world.Cfg(), glob, len(plan["ops"]), cx, "after setting the default data again")
        cx.nontrivial = changes > 0

    def ask(self, p, calls, cfg, glob, pristine, cx, n, state):
        """Calls, against an instance that was set up with the data in effect at once."""
        key = cfg.key()
        if key not in pristine:
            with oracle.quiet():
                pristine[key] = oracle.fresh(cfg, glob, active=p)
        for c in calls:
            r = oracle.outcome(p, c)
            with oracle.quiet():
                pristine[key].activate()
                want = oracle.outcome(pristine[key], c)
                p.activate()
            cx.log(c, r)
            if r != want:
                raise Violation("stale", f"step {n}: {c} gave {r}; in an instance set up with this data at once {want}")
            cx.state((tuple(sorted(state.items())), c["f"]))

    def fail(self, when, what, got, want):
        raise Violation("wrong-answer", f"{when}: {what} is {got}, but the data set last says {want}")

    def basics(self, p, cfg, glob, when):
        """Every book's own answers, against the data set last."""
        v0 = glob & 2
        for b in p.Book:
            n = b.name
            pos = cfg.pos.get(n)
            if b.order != pos:
                self.fail(when, f"{n}.order", b.order, pos)
            nm = cfg.names.get(n)
            t = (nm[0], nm[1]) if nm else (None, None)
            if (b.abbrev, b.title) != t:
                self.fail(when, f"{n}'s abbreviation and title", (b.abbrev, b.title), t)
            mv = cfg.maxv.get(n)
            if mv is not None:
                got = [b.max_verse_num(c) for c in range(1, b.max_chap_num() + 1)]
                if got != list(mv):
                    self.fail(when, f"{n}'s verse counts", got, mv)
                got = [b.min_verse_num(c) for c in range(1, len(mv) + 1)]
                want = [cfg.minv(n, c, v0) for c in range(1, len(mv) + 1)]
                if got != want:
                    self.fail(when, f"{n}'s lowest verses", got, want)
                got, want = b.verse_count(), sum(mv) + want.count(0)
                if got != want:
                    self.fail(when, f"{n}'s verse count", got, want)
            elif b.chap_count() not in (0, 1):        # (a book without data reports a meaningless count)
                self.fail(when, f"{n}'s chapter count", b.chap_count(), "none")
            nx = cfg.order[pos + 1] if pos is not None and pos + 1 < len(cfg.order) else None
            pv = cfg.order[pos - 1] if pos else None
            got = tuple(x and x.name for x in (b.next(), b.prev()))
            if got != (nx, pv):
                self.fail(when, f"{n}'s neighbours", got, (nx, pv))
        titles = {v[1]: k for k, v in cfg.names.items()}
        for v in VOCAB:
            got = p.Book.from_str(v)
            got = got and got.name
            if got != titles.get(v):
                self.fail(when, f"the book named {v!r}", got, titles.get(v))
        for n in ("Genesis", "Psalms", "Jude", "1 John", "Matthew"):
            if [v[1] for v in cfg.names.values()].count(n) == 1:
                got = p.Book.from_str(n)
                if got is None or got.name != titles[n]:
                    self.fail(when, f"the book named {n!r}", got, titles[n])
        default = {v[1]: k for k, v in world.REF["names"].items()}
        for n in list(default)[::7]:
            if n not in titles and p.Book.from_str(n) is not None:
                self.fail(when, f"the book named {n!r}", p.Book.from_str(n), None)

    def model(self, p, cfg, glob, seed, cx, when):
        """Queries of every kind against the reference model (only where order, counts and names cover each other)."""
        import random
        rng = random.Random(seed)
        if not model.complete(cfg):
            return
        cx.probes["model probes"] += 1
        v0 = glob & 2
        u = cfg.uni(v0)
        if len(u) < 3000:
            got = [p.enc(v) for v in p.Range.whole_bible()]
            if got != u.verses:
                self.fail(when, "the verses of the whole Bible", got[:3] + got[-3:], u.verses[:3] + u.verses[-3:])
        for cat, what, fn, want in model.queries(p, cfg, glob, rng, 8, pool=self.pool):
            got = p.call(fn)
            cx.probes["model queries"] += 1
            if got != want:
                self.fail(when, what, got, want)
        enc = p.enc
        for _ in range(3):
            i, j = sorted((rng.randrange(len(u)), rng.randrange(len(u))))
            if rng.random() < 0.5:
                j = min(len(u) - 1, i + rng.randint(0, 40))
            j = min(j, i + rng.choice((300, 300, 300, 300, 300, 300, 2000)))
            a, b = u.verses[i], u.verses[j]
            va, vb = p.verse(a), p.verse(b)
            F = p.flagbits[1 | v0]
            for what, got, want in (
                    (f"{a} < {b}", va < vb, i < j),
                    (f"{a} + {j - i}", enc(va.add(j - i, flags=F)), b if not (a[2] == 0 and not v0) else None),
                    (f"{b} - {j - i}", enc(vb.subtract(j - i, flags=F)), a if not (b[2] == 0 and not v0) else None),
                    (f"{b} - {a}", vb.subtract(va, flags=F), j - i),
                    (f"verse count of {a}-{b}", p.Range(start=va, end=vb, flags=F).verse_count(flags=F), j - i + 1)):
                if want is not None and got != want:
                    self.fail(when, what, got, want)
            pieces = [x for x in p.Range(start=va, end=vb, flags=F).split(by_chap=True, flags=F)]
            want, k = [], i
            while k <= j:
                e = min(j, u.cspan[u.verses[k][:2]][1])
                want.append((u.verses[k], u.verses[e]))
                k = e + 1
            if [enc(x) for x in pieces] != want:
                self.fail(when, f"split of {a}-{b} by chapters", [enc(x) for x in pieces], want)
            # validity, text, parsing
            t = (a[0], rng.choice((a[1], 1, len(cfg.maxv[a[0]]), len(cfg.maxv[a[0]]) + 1)), rng.choice((a[2], 0, 1, 3)))
            try:
                p.Verse(p.Book[t[0]], t[1], t[2])
                ok = True
            except p.InvalidRef:
                ok = False
            if ok != u.has(t):
                self.fail(when, f"validity of {t}", ok, u.has(t))
            text = va.str()
            nch = len(cfg.maxv[a[0]])
            want = cfg.names[a[0]][1] + (f" {a[2]}" if nch == 1 else f" {a[1]}:{a[2]}")
            if text != want:
                self.fail(when, f"the text of {a}", text, want)
            got = oracle.outcome(p, {"f": "Verse.str", "a": [text], "flags": v0})
            if got != a:
                self.fail(when, f"the verse {text!r}", got, a)
        # sorting and set operations
        rs = []
        while len(rs) < 5:
            r = world.gen_range(rng, cfg, v0, True)
            i, j = u.span(r)
            if j - i > 400:
                r = [list(u.verses[i]), list(u.verses[i + 400])]
            rs.append(r)
        F = p.flagbits[1 | v0]
        lst = p.List([p.range(r) for r in rs])
        lst.sort()
        want = sorted(rs, key=lambda r: (cfg.key_of(r[0]), cfg.key_of(r[1])))
        if [enc(x) for x in lst] != [(tuple(r[0]), tuple(r[1])) for r in want]:
            self.fail(when, f"sorted {rs}", [enc(x) for x in lst], want)
        m1, m2 = u.mask(rs[:3]), u.mask(rs[3:])
        l1, l2 = p.List([p.range(r) for r in rs[:3]]), p.List([p.range(r) for r in rs[3:]])
        for name, m in (("union", m1 | m2), ("intersection", m1 & m2), ("difference", m1 & ~m2), ("sym_difference", m1 ^ m2)):
            got = [enc(x) for x in getattr(l1, name)(l2, flags=F)]
            want = [u.r(*x) for x in u.runs(m)]
            if got != want:
                self.fail(when, f"{name} of {rs[:3]} and {rs[3:]}", got, want)
        # objects that were made under earlier data
        self.kept.append((rs, [p.range(r) for r in rs], p.List([p.range(r) for r in rs])))
        for rs, rr, lst in self.kept[-4:]:
            if not all(u.ok(r) and u.span(r)[0] <= u.span(r)[1] for r in rs):
                continue
            cx.probes["queries on objects made under earlier data"] += 1
            c = p.List(lst)
            c.sort()
            want = sorted(rs, key=lambda r: (cfg.key_of(r[0]), cfg.key_of(r[1])))
            if [enc(x) for x in c] != [(tuple(r[0]), tuple(r[1])) for r in want]:
                self.fail(when, f"sorted {rs}", [enc(x) for x in c], want)
            spans = [u.span(r) for r in rs]
            for (i, j), x in zip(spans, rr):
                if x.verse_count(flags=F) != j - i + 1:
                    self.fail(when, f"verse count of {enc(x)}", x.verse_count(flags=F), j - i + 1)
            if lst.verse_count(flags=F) != sum(j - i + 1 for i, j in spans):
                self.fail(when, f"verse count of {rs}", lst.verse_count(flags=F), sum(j - i + 1 for i, j in spans))
            got = [enc(x) for x in lst.union(rr[0], flags=F)]
            want = [u.r(*x) for x in u.runs(u.mask(rs))]
            if got != want:
                self.fail(when, f"union of {rs}", got, want)
            i, j = spans[0]
            got = rr[0].is_whole_book(flags=F), rr[0].is_whole_chap(flags=F)
            b = rs[0][0][0]
            want = u.bspan[b] == (i, j), u.cspan[(b, rs[0][0][1])] == (i, j)
            if got != want:
                self.fail(when, f"whether {rs[0]} is a whole book, a whole chapter", got, want)
            if enc(lst.range()) != u.r(min(i for i, j in spans), max(j for i, j in spans)):
                self.fail(when, f"extent of {rs}", enc(lst.range()), "different")
