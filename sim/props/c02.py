"""C02: parses running at the same time do not affect one another."""
from .. import engine, oracle, ops, world, pkg
from ..base import Prop, Violation


class PROP(Prop):
    ID = "C02"
    THREADS = True
    SHRINK = ("threads", "switches", "faults")

    def gen(self, rng):
        spec = world.gen_cfg(rng, seps=0.4, custom=0.3) if rng.random() < 0.3 else {}
        cfg = world.Cfg(spec)
        n = rng.choice((2, 2, 2, 3, 4))
        threads = []
        for _ in range(n):
            threads.append([oracle.gen_parse(rng, cfg) for _ in range(rng.choice((1, 1, 2, 3)))])
        faults = []
        if rng.random() < 0.4:
            for _ in range(rng.randint(1, 3)):
                faults.append([rng.randrange(n), oracle.gen_at(rng), rng.choice(("interrupt", "memory", "timeout"))])
        if rng.random() < 0.35:
            for _ in range(rng.randint(1, 2)):
                faults.append([rng.randrange(n), oracle.gen_at(rng), oracle.gen_parse(rng, cfg)])
        fine = rng.random() < 0.15
        sc = tuple(6 * s for s in oracle.SCALES) if fine else oracle.SCALES
        return {"cfg": spec, "glob": rng.choice((0, 0, 1, 2, 3)), "warm": rng.random() < 0.4, "threads": threads,
                "switches": oracle.gen_switches(rng, n, scales=sc), "faults": faults, "first": rng.randrange(n), "fine": fine}

    def min_len(self, path):
        return 1 if path == ("threads",) else 0

    def run(self, plan, cx):
        cfg, glob = world.Cfg(plan["cfg"]), plan["glob"]
        p = oracle.fresh(cfg, glob)
        if plan["warm"]:
            oracle.outcome(p, {"f": "List.str", "a": ["Matt 1:2"], "flags": None})
        res, nested = [], []

        def thread(i, calls):
            def fn():
                for c in calls:
                    t = sim.ts[i]
                    n0 = t.n
                    try:
                        r = oracle.outcome(p, c)
                    except engine.INJECTED as e:
                        r = ("INJECTED",)
                    hit = any(a == i and n0 < n <= t.n and not callable(t.faults[n]) for a, n in sim.fired)
                    res.append((i, c, r, hit))
            return fn
        faults = []
        for t, at, a in plan["faults"]:
            if isinstance(a, dict):
                def re(c=a):
                    nested.append((c, oracle.outcome(p, c)))
                faults.append([t, at, re])
            else:
                faults.append([t, at, a])
        sim = engine.ThreadSim([thread(i, c) for i, c in enumerate(plan["threads"])], plan["switches"], faults, plan["first"])
        sim.run()
        cx.steps += sim.total
        cx.log("switches", sim.log)
        cx.log("fired", sim.fired)
        if sim.failure:
            raise Violation("no-progress", f"parsing threads make no progress: {sim.failure}")
        for i, n in sim.fired:
            cx.faults[sim.kind(i, n)] += 1
        cx.faults["thread switch"] += len(sim.log)
        if not plan["warm"] and sim.log and min(n for _, n, _ in sim.log) < 60:
            cx.probes["switch during the first parse's setup"] += 1
        for s in sim.sites:
            cx.state(("switch in", s))
        cx.state(tuple(sim.log))
        for i, c, r, hit in res:
            cx.log(i, c, r, hit)
            if hit:
                cx.probes["parses cut short"] += 1
                continue
            want = oracle.solo(cfg, glob, c, active=p)
            if r != want:
                raise Violation("interference", f"thread {i}: {c} gave {r} among concurrent parses; alone it gives {want}")
        for c, r in nested:
            want = oracle.solo(cfg, glob, c, active=p)
            if r != want:
                raise Violation("interference", f"re-entrant {c} gave {r}; alone it gives {want}")
        if p.get_flags() != glob:
            raise Violation("flags-changed", "parsing changed the package flags")
        cx.nontrivial = bool(sim.log or nested)
