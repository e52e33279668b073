"""C14: a suspended verse iteration is unaffected by what happens meanwhile."""
from .. import engine, oracle, ops, world, pkg
from ..base import Prop, Violation


class PROP(Prop):
    ID = "C14"
    SHRINK = ("ops",)

    def gen(self, rng):
        spec = world.gen_cfg(rng, seps=0.1, custom=0.8)
        cfg = world.Cfg(spec)
        rs = []
        for _ in range(rng.randint(1, 4)):
            r = world.gen_range(rng, cfg, rng.random() < 0.6, rng.random() < 0.7)
            i, j = cfg.uni(True).span(r)
            if j - i > 120:
                r = [r[0], list(cfg.uni(True).verses[i + rng.randint(20, 120)])]
            rs.append(r)
        out = []
        for _ in range(rng.randint(4, 40)):
            k = rng.random()
            if k < 0.12:
                out.append({"o": "iter", "r": rng.randrange(len(rs))})
            elif k < 0.6:
                out.append({"o": "step", "t": rng.randrange(4), "n": rng.choice((1, 1, 2, 5, 30))})
            elif k < 0.75:
                out.append({"o": "flags", "v": rng.randint(0, 3)})
            elif k < 0.95:
                c = ops.gen_call(rng, cfg, rng.random() < 0.5, rng.random() < 0.5)
                if ops.OPS[c["f"]][0]:
                    c["flags"] = rng.choice((None, 0, 1, 2, 3))
                o = {"o": "call", "c": c}
                if rng.random() < 0.4:
                    o["fault"] = [oracle.gen_at(rng, (5, 40, 200)), rng.choice(("interrupt", "memory", "timeout"))]
                out.append(o)
            else:
                out.append({"o": "abandon", "t": rng.randrange(4)})
        return {"cfg": spec, "glob": rng.randint(0, 3), "ranges": rs, "ops": out}

    def run(self, plan, cx):
        cfg = world.Cfg(plan["cfg"])
        glob = plan["glob"]
        p = oracle.fresh(cfg, glob)
        rs = [p.range(r) for r in plan["ranges"]]
        its = []
        mixed = 0
        for n, o in enumerate(plan["ops"]):
            when = f"step {n}"
            if o["o"] == "iter":
                if len(its) < 5:
                    i = o["r"] % len(rs)
                    its.append({"r": i, "it": iter(rs[i]), "glob": glob, "want": None, "k": 0, "done": False, "disturbed": False})
            elif o["o"] == "step":
                if its:
                    for _ in range(o["n"]):
                        self.step(p, cfg, plan, glob, its[o["t"] % len(its)], rs, cx, when)
            elif o["o"] == "flags":
                glob = o["v"]
                p.set_flags(glob)
            elif o["o"] == "abandon":
                if its:
                    t = its.pop(o["t"] % len(its))
                    t["it"].close() if hasattr(t["it"], "close") else None
            else:
                f = o.get("fault")
                g = engine.Guard(*f) if f else engine.Guard()
                try:
                    r = g.run(lambda: ops.outcome(p, o["c"]))
                except engine.INJECTED:
                    r = "INJECTED"
                if g.fired:
                    cx.faults[f[1]] += 1
                cx.log("call", o["c"]["f"], r)
            if o["o"] in ("flags", "call"):
                for t in its:
                    if t["want"] is not None and not t["done"]:
                        t["disturbed"] = True
                        mixed += 1
            cx.log(o["o"], [t["k"] for t in its])
            cx.state((o["o"], glob, tuple((t["k"], t["done"]) for t in its)[:3]))
        for t in its:
            k = 0
            while not t["done"]:
                self.step(p, cfg, plan, glob, t, rs, cx, "at the end")
                k += 1
                if k > 5000:
                    raise Violation("endless", "a verse iteration does not end")
        cx.nontrivial = mixed > 0

    def step(self, p, cfg, plan, glob, t, rs, cx, when):
        if t["done"]:
            return
        r = plan["ranges"][t["r"]]
        if t["want"] is None:             # it begins now, with the flags now in effect (or began when the iterator was made)
            t["want"] = [self.verses(cfg, r, glob), self.verses(cfg, r, t["glob"])]
            n, m = rs[t["r"]].verse_count(), len(t["want"][0])
            if n != m:
                raise Violation("count", f"{when}: {r} has a verse count of {n} under package flags {glob}, expected {m}")
        k = t["k"]
        try:
            v = p.enc(next(t["it"]))
        except StopIteration:
            t["done"] = True
            if not any(len(w) == k for w in t["want"]):
                raise Violation("iteration", f"{when}: iterating {r} ended after {k} of {len(t['want'][0])} verses")
            cx.probes["iterations finished" + (" after disturbances" if t["disturbed"] else "")] += 1
            return
        due = [w[k] if k < len(w) else "the end" for w in t["want"]]
        t["want"] = [w for w, d in zip(t["want"], due) if v == d]
        if not t["want"]:
            raise Violation("iteration", f"{when}: iterating {r}: verse number {k} is {v}, expected {due[0]}")
        t["k"] += 1

    def verses(self, cfg, r, glob):
        u = cfg.uni(glob & 2 or r[0][2] == 0 or r[1][2] == 0)
        i, j = u.span(r)
        return u.verses[i:j + 1]
