"""C10: read-only operations leave their operands alone, also when shared."""
from .. import engine, oracle, ops, world, lists
from ..base import Prop, Violation

LISTY = [n for n, o in ops.OPS.items() if "L" in o[1] or "X" in o[1]]
ALL = [n for n in ops.OPS if "V" in ops.OPS[n][1] or "R" in ops.OPS[n][1]]
FAMILIES = [["list.contains", "list.in", "list.in", "range.contains", "list.is_disjoint", "range.is_adjacent"]] + [
    [n for n in LISTY if any(w in n for w in ws)] for ws in (
    ("union", "|"), ("inter", "&"), (".diff", "list-", "range-"), ("sym", "^"),
    ("count", "_range", ".range"), ("str",), ("iter", "reversed", "nested", "group", "item", "eq", "index", "len"), ("merge", "sort", "copy"))]
EDITS = ("append", "prepend", "set", "del", "clear", "reverse", "sort", "groups", "gset", "gdel", "merge", "append_group", "iand", "ior")


class PROP(Prop):
    ID = "C10"
    THREADS = True
    SHRINK = ("ops", "threads", "switches", "faults")

    def min_len(self, path):
        return 1 if path == ("threads",) else 0

    def gen_call(self, rng, cfg):
        names = ALL if rng.random() < 0.25 else LISTY if rng.random() < 0.5 else rng.choice(FAMILIES)
        c = ops.gen_call(rng, cfg, self.v0, self.multi, names=names, share=self.share)
        if ops.OPS[c["f"]][0]:
            c["flags"] = rng.choice((None, None, 0, 1, 2, 3))
        return c

    def gen(self, rng):
        spec = world.gen_cfg(rng, seps=0.1, custom=0.8)
        cfg = world.Cfg(spec)
        self.v0, self.multi = rng.random() < 0.5, rng.random() < 0.5
        self.share = [ops.gen_arg(rng, cfg, k, self.v0, self.multi and rng.random() < 0.6) for k in "VRRLLL"]
        if rng.random() < 0.4:
            g, (i, j) = world.gen_tiles(rng, cfg, self.v0, self.multi)
            self.share[3] = ["L", g]
            a, b = sorted((rng.randint(i, j), rng.randint(i, j)))
            self.share[1] = ["R", [list(v) for v in cfg.uni(self.v0).r(a, b)]]
        elif rng.random() < 0.5:            # a range related to a list
            g = rng.choice([o for o in self.share if o[0] == "L"])[1]
            if g:
                self.share[1] = ["R", world.gen_near(rng, cfg, self.v0, self.multi or rng.random() < 0.5, rng.choice(rng.choice(g)))]
        plan = {"cfg": spec, "glob": rng.randint(0, 3), "objs": self.share, "fine": rng.random() < 0.06}
        if rng.random() < 0.6:
            out = []
            if rng.random() < 0.6:        # a few calls, made again and again
                panel = [self.gen_call(rng, cfg) for _ in range(rng.randint(2, 8))]
                for _ in range(rng.randint(3, 7)):
                    out += [{"k": "call", "c": c} for c in panel]
                    if rng.random() < 0.5:
                        out.append({"k": "glob", "g": rng.randint(0, 3)})
                    else:
                        out.append({"k": "edit", "which": rng.randrange(12), "e": rng.choice(EDITS), "i": rng.randrange(8), "r": world.gen_range(rng, cfg, self.v0, self.multi)})
                plan.update(mode="history", ops=out)
                return plan
            for _ in range(rng.randint(3, 16)):
                if rng.random() < 0.35 and out:
                    out.append({"k": "edit", "which": rng.randrange(12), "e": rng.choice(EDITS), "i": rng.randrange(8), "r": world.gen_range(rng, cfg, self.v0, self.multi)})
                    continue
                if rng.random() < 0.15 and out:
                    out.append({"k": "glob", "g": rng.randint(0, 3)})
                    continue
                old = [x["c"] for x in out if x["k"] == "call"]
                o = {"k": "call", "c": rng.choice(old) if old and rng.random() < (0.2 if out[-1]["k"] == "call" else 0.7) else self.gen_call(rng, cfg)}
                m = rng.random()
                if m < 0.15:
                    o["fault"] = [oracle.gen_at(rng, (5, 20, 80, 300, 900)), rng.choice(("interrupt", "memory", "timeout"))]
                elif m < 0.27:
                    o["re"] = [oracle.gen_at(rng, (5, 20, 80, 300, 900)), self.gen_call(rng, cfg)]
                out.append(o)
            plan.update(mode="history", ops=out)
            return plan
        n = rng.choice((2, 2, 3))
        sc = (5, 20, 60, 150, 400, 1000)
        plan.update(mode="threads", threads=[[self.gen_call(rng, cfg) for _ in range(rng.randint(1, 3))] for _ in range(n)],
                    first=rng.randrange(n), switches=oracle.gen_switches(rng, n, scales=sc),
                    faults=[[rng.randrange(n), oracle.gen_at(rng, sc), rng.choice(("interrupt", "memory", "timeout"))] for _ in range(rng.choice((0, 0, 1, 2)))])
        return plan

    def run(self, plan, cx):
        cfg = world.Cfg(plan["cfg"])
        glob = plan["glob"]
        with oracle.quiet():
            q = oracle.fresh(cfg, glob)
        p = oracle.fresh(cfg, glob)
        self.p, self.q, self.cx = p, q, cx
        self.specs = [s for s in plan["objs"]]
        self.objs = [ops.build(p, x) for x in plan["objs"]]
        if plan["mode"] == "history":
            g = engine.Guard(budget=60_000_000)
            g.run(lambda: self.history(plan, cx, cfg))
            cx.steps += g.n
        else:
            self.threads(plan, cx)

    # -- oracle: the same call on fresh objects in an instance of its own
    def want(self, c):
        p, q = self.p, self.q
        with oracle.quiet():
            q.activate()
            try:
                return oracle.outcome(q, c, [ops.build(q, x) for x in self.specs])
            finally:
                p.activate()

    def judge(self, c, r, what):
        w = self.want(c)
        if r != w:
            raise Violation("answer-differs", f"{what}{c} on {lists.show([self.specs[a[1]] for a in c['a'] if isinstance(a, list) and a[0] == 'o'])} gave {lists.show(r)}; alone {lists.show(w)}")

    def intact(self, when):
        p = self.p
        for x, s in zip(self.objs, self.specs):
            e = p.enc(x)
            if s[0] == "V":
                ok = e == tuple(s[1])
            elif s[0] == "R":
                ok = e == (tuple(s[1][0]), tuple(s[1][1]))
            else:
                w = lists.World(p, "R", [])
                w.real = [x]
                w.model = [[[w.slot(p.range(r)) for r in g] for g in s[1] if g]]
                lists.look(w, 0, when=f"{when}: an operand")
                continue
            if not ok:
                raise Violation("operand-changed", f"{when}: operand {s} became {e}")

    # -- history with edits of the returned lists and of the operands
    def history(self, plan, cx, cfg):
        p = self.p
        kept = []                   # returned lists: [list, its contents]
        calls = 0
        for n, o in enumerate(plan["ops"]):
            if o["k"] == "edit":
                self.edit(o, kept, n)
                continue
            if o["k"] == "glob":
                p.set_flags(o["g"])
                self.q.set_flags(o["g"])
                continue
            c = o["c"]
            box = []
            if "fault" in o:
                g = engine.Guard(*o["fault"])
            elif "re" in o:
                g = engine.Guard(o["re"][0], lambda: box.append(oracle.outcome(p, o["re"][1], self.objs)))
            else:
                g = engine.Guard()
            raw = []

            def fn():
                try:
                    raw.append(ops.call(p, c, self.objs))
                    return p.enc(raw[0])
                except Exception as e:
                    r = p.enc_exc(e)
                    return r + (e.start_pos, e.end_pos) if r == ("EXC", "ParseError") else r
            try:
                r = g.run(fn)
            except engine.INJECTED:
                r = ("INJECTED",)
            cx.log(c, r, g.fired)
            when = f"step {n} ({c['f']}{', cut short' if g.fired and 'fault' in o else ''})"
            self.intact(when)
            if g.fired and "fault" in o:
                cx.faults[o["fault"][1]] += 1
                continue
            self.judge(c, r, f"step {n}: ")
            if g.fired:
                cx.faults["reentry"] += 1
                self.judge(o["re"][1], box[0], f"step {n}, nested: ")
            calls += 1
            cx.state((c["f"], c["flags"], p.get_flags(), isinstance(r, tuple) and r[:1] == ("EXC",)))
            if raw and isinstance(raw[0], p.List):
                for x in self.objs:
                    if raw[0] is x:
                        raise Violation("aliased", f"{when} returned its operand instead of a new list")
                kept.append([raw[0], r])
                kept = kept[-6:]
        cx.nontrivial = calls >= 2

    def edit(self, o, kept, n):
        """Edits one of the lists (operand or result); no other may change."""
        p = self.p
        idx = [i for i, s in enumerate(self.specs) if s[0] == "L"]
        pool = kept + [[self.objs[i], None, i] for i in idx]
        t = pool[-1 - o["which"] % len(pool)]
        lst, size, e = t[0], len(t[0]), o["e"]
        r = p.range(o["r"])
        if e == "append":
            lst.append(r)
        elif e == "prepend":
            lst.prepend(r, new_group=True)
        elif e == "append_group":
            lst.append_group([r, r])
        elif e in ("clear", "reverse"):
            getattr(lst, e)()
        elif e == "sort":
            lst.sort()
        elif e == "merge":
            lst.merge()
        elif e == "ior":
            lst |= r
        elif e == "iand":
            lst &= r
        elif size:
            if e == "set":
                lst[o["i"] % size] = r
            elif e == "del":
                del lst[o["i"] % size]
            elif e == "groups":
                lst.insert_group_at(o["i"] % size)
            elif e == "gset":
                lst.groups[o["i"] % len(lst.groups)][0] = r
            elif e == "gdel":
                del lst.groups[o["i"] % len(lst.groups)][0]
        if len(t) == 3:
            self.specs[t[2]] = ["L", [[[list(x) for x in v] for v in g] for g in p.enc(lst)[1:]]]
        else:
            t[1] = p.enc(lst)
        when = f"step {n}: after {e} on {'an operand' if len(t) == 3 else 'a returned list'}"
        for x, want in kept:
            if p.enc(x) != want:
                raise Violation("entangled", f"{when}, a list returned earlier changed from {lists.show(want)} to {lists.show(p.enc(x))}")
        self.intact(when)
        self.cx.log("edit", e, len(t))

    def threads(self, plan, cx):
        p = self.p
        res = []

        def thread(i, calls):
            def fn():
                for c in calls:
                    n0 = sim.ts[i].n
                    try:
                        r = oracle.outcome(p, c, self.objs)
                    except engine.INJECTED:
                        r = ("INJECTED",)
                    res.append((i, c, r, any(a == i and n0 < n <= sim.ts[i].n for a, n in sim.fired)))
            return fn
        sim = engine.ThreadSim([thread(i, c) for i, c in enumerate(plan["threads"])], plan["switches"], plan["faults"], plan["first"])
        sim.run()
        cx.steps += sim.total
        cx.log(sim.log, sim.fired)
        cx.faults["thread switch"] += len(sim.log)
        for i, n in sim.fired:
            cx.faults[sim.kind(i, n)] += 1
        if sim.failure:
            raise Violation("no-progress", f"{sim.failure}")
        for i, c, r, hit in res:
            cx.log(i, c, r, hit)
            if not hit:
                self.judge(c, r, f"thread {i}: ")
        self.intact("after the threads finished")
        cx.state(tuple(sim.log))
        cx.nontrivial = bool(sim.log)
