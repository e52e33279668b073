"""C05: per-call flags replace the package-wide flags for that call only."""
from .. import engine, oracle, ops, world, pkg
from ..base import Prop, Violation


class PROP(Prop):
    ID = "C05"
    THREADS = True
    SHRINK = ("ops", "threads", "switches", "faults")

    def min_len(self, path):
        return 1 if path == ("threads",) else 0

    def gen_flagged(self, rng, cfg):
        c = ops.gen_call(rng, cfg, rng.random() < 0.6, rng.random() < 0.6, names=self.names(rng), share=self.share)
        c["flags"] = rng.randint(0, 3)
        return c

    def names(self, rng):
        return ops.FLAGGED if rng.random() < 0.85 else [n for n in ops.FLAGGED if n in ops.PARSING or "str" in n or "split" in n or "count" in n]

    def gen(self, rng):
        spec = world.gen_cfg(rng, seps=0.1, custom=0.8)
        cfg = world.Cfg(spec)
        self.share = None
        if rng.random() < 0.6:            # objects that several calls use
            self.share = [ops.gen_arg(rng, cfg, k, rng.random() < 0.6, True) for k in "VVRRRLLL"]
        plan = self.gen2(rng, spec, cfg)
        plan["objs"] = self.share or []
        return plan

    def gen2(self, rng, spec, cfg):
        if rng.random() < 0.7:
            out = []
            for _ in range(rng.randint(4, 24)):
                k = rng.random()
                if k < 0.2:
                    out.append({"k": "flags", "v": rng.randint(0, 3)})
                    continue
                o = {"k": "call", "c": self.gen_flagged(rng, cfg)}
                if rng.random() < 0.2:
                    o["c"]["flags"] = None
                if rng.random() < 0.12:
                    o["re"] = [oracle.gen_at(rng, (5, 20, 80, 300)), self.gen_flagged(rng, cfg)]
                elif rng.random() < 0.12:
                    o["fault"] = [oracle.gen_at(rng, (5, 20, 80, 300)), rng.choice(("interrupt", "memory", "timeout"))]
                out.append(o)
            return {"mode": "history", "cfg": spec, "glob": rng.randint(0, 3), "ops": out, "fine": rng.random() < 0.05}
        n = rng.choice((2, 2, 3))
        threads = [[self.gen_flagged(rng, cfg) for _ in range(rng.randint(1, 3))] for _ in range(n)]
        sc = (5, 20, 60, 150, 400)
        faults = [[rng.randrange(n), oracle.gen_at(rng, sc), rng.choice(("interrupt", "memory"))] for _ in range(rng.choice((0, 0, 1)))]
        return {"mode": "threads", "cfg": spec, "glob": rng.randint(0, 3), "threads": threads, "first": rng.randrange(n),
                "switches": oracle.gen_switches(rng, n, scales=sc), "faults": faults, "fine": rng.random() < 0.1}

    def run(self, plan, cx):
        cfg = world.Cfg(plan["cfg"])
        p = oracle.fresh(cfg, plan["glob"])
        self.objs = [ops.build(p, x) for x in plan["objs"]]
        self.specs = plan["objs"]
        self.cfg = cfg
        q = {}           # per flag value an instance whose package-wide flags never change, where calls are made without flags
        if plan["mode"] == "history":
            g = engine.Guard(budget=60_000_000)
            g.run(lambda: self.history(plan, cx, cfg, p, q))
            cx.steps += g.n
        else:
            self.threads(plan, cx, cfg, p, q)

    def want(self, p, q, glob, c):
        """Outcome of the call without flags when the package-wide flags are those the call was given."""
        f = glob if c["flags"] is None else c["flags"]
        with oracle.quiet():
            if f not in q:
                i = oracle.fresh(self.cfg, f)
                q[f] = i, [ops.build(i, x) for x in self.specs]
            i, objs = q[f]
            i.activate()
            r = oracle.outcome(i, dict(c, flags=None), objs)
            p.activate()
        return r

    def judge(self, p, q, glob, c, r, what):
        w = self.want(p, q, glob, c)
        if r != w:
            raise Violation("flags-differ", f"{what} {c} under package flags {glob} gave {r}; without the argument under those flags {w}")

    def history(self, plan, cx, cfg, p, q):
        glob = plan["glob"]
        n = 0
        for o in plan["ops"]:
            if o["k"] == "flags":
                glob = o["v"]
                p.set_flags(glob)
                continue
            c = o["c"]
            if "fault" in o:
                g = engine.Guard(*o["fault"])
            elif "re" in o:
                box = []
                g = engine.Guard(o["re"][0], lambda: box.append(oracle.outcome(p, o["re"][1], self.objs)))
            else:
                g = engine.Guard()
            try:
                r = g.run(lambda: oracle.outcome(p, c, self.objs))
            except engine.INJECTED:
                r = ("INJECTED",)
            cx.log(c, r, g.fired)
            if p.get_flags() != glob:
                raise Violation("flags-changed", f"{c} changed the package flags from {glob} to {p.get_flags()}")
            if g.fired and "fault" in o:
                cx.faults[o["fault"][1]] += 1
                continue
            self.judge(p, q, glob, c, r, "")
            if g.fired:
                cx.faults["reentry"] += 1
                self.judge(p, q, glob, o["re"][1], box[0], "nested")
            if c["flags"] is not None and c["flags"] != glob:
                n += 1
                cx.state((c["f"], c["flags"], glob, r[:2] if isinstance(r, tuple) and r and r[0] == "EXC" else ""))
        cx.nontrivial = n > 0

    def threads(self, plan, cx, cfg, p, q):
        glob = plan["glob"]
        res = []

        def thread(i, calls):
            def fn():
                for c in calls:
                    n0 = sim.ts[i].n
                    try:
                        r = oracle.outcome(p, c, self.objs)
                    except engine.INJECTED:
                        r = ("INJECTED",)
                    res.append((i, c, r, any(a == i and n0 < n <= sim.ts[i].n for a, n in sim.fired), p.get_flags()))
            return fn
        sim = engine.ThreadSim([thread(i, c) for i, c in enumerate(plan["threads"])], plan["switches"], plan["faults"], plan["first"])
        sim.run()
        cx.steps += sim.total
        cx.log(sim.log, sim.fired)
        cx.faults["thread switch"] += len(sim.log)
        for i, n in sim.fired:
            cx.faults[sim.kind(i, n)] += 1
        if sim.failure:
            raise Violation("no-progress", f"{sim.failure}")
        for i, c, r, hit, fl in res:
            cx.log(i, c, r, hit)
            if fl != glob:
                raise Violation("flags-changed", f"package flags are {fl} after {c}, were {glob}")
            if not hit:
                self.judge(p, q, glob, c, r, f"thread {i}:")
        cx.state(tuple(sim.log))
        cx.nontrivial = bool(sim.log)
