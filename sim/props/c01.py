"""C01: what a string parses to does not depend on what was parsed before."""
from .. import engine, oracle, ops, world, pkg
from ..base import Prop, Violation


class PROP(Prop):
    ID = "C01"
    SHRINK = ("ops",)

    def gen(self, rng):
        n_cfg = rng.choice((1, 1, 1, 2, 3))
        specs = [world.gen_cfg(rng, seps=0.5, custom=0.3) if i or rng.random() < 0.35 else {} for i in range(n_cfg)]
        cfgs = [world.Cfg(s) for s in specs]
        faults = rng.random() < 0.6
        reent = rng.random() < 0.3
        out, cur = [], 0
        recent = []
        for _ in range(rng.randint(3, 18)):
            k = rng.random()
            if k < 0.07:
                out.append({"k": "flags", "v": rng.randint(0, 3)})
            elif k < 0.15 and n_cfg > 1:
                cur = rng.randrange(n_cfg)
                out.append({"k": "cfg", "v": cur})
            else:
                c = rng.choice(recent) if recent and rng.random() < 0.35 else oracle.gen_parse(rng, cfgs[cur])
                recent.append(c)
                o = {"k": "p", "c": c}
                if faults and rng.random() < 0.3:
                    o["fault"] = [oracle.gen_at(rng), rng.choice(("interrupt", "memory", "timeout"))]
                elif reent and rng.random() < 0.3:
                    o["re"] = [oracle.gen_at(rng), oracle.gen_parse(rng, cfgs[cur])]
                elif rng.random() < 0.15:
                    o["then"] = rng.choice(("clear", "append", "set", "gset", "regroup", "str", "str", "union"))
                out.append(o)
        return {"cfgs": specs, "glob": rng.choice((0, 0, 1, 2, 3)), "ops": out, "fine": rng.random() < 0.05}

    def run(self, plan, cx):
        cfgs = [world.Cfg(s) for s in plan["cfgs"]]
        cfg, glob = cfgs[0], plan["glob"]
        p = oracle.fresh(cfg, glob)
        parses, disturbed = 0, False
        hist = []
        for o in plan["ops"]:
            if o["k"] == "flags":
                glob = o["v"]
                p.set_flags(glob)
                disturbed = True
                hist.append(("flags", glob))
                continue
            if o["k"] == "cfg":
                if o["v"] >= len(cfgs):
                    continue
                cfg = cfgs[o["v"]]
                p.apply_cfg(cfg, full=True)
                disturbed = True
                hist.append(("cfg", o["v"]))
                continue
            c = o["c"]
            if "fault" in o:
                at, kind = o["fault"]
                g = engine.Guard(at, kind)
                try:
                    r = g.run(lambda: oracle.outcome(p, c))
                except engine.INJECTED as e:
                    r = ("INJECTED", type(e).__name__)
                if g.fired:
                    cx.faults[kind] += 1
                    cx.log("cut short", c, at, kind, r)
                    disturbed = True
                    hist.append(("cut", at * 8 // max(g.n, 1), c["f"]))
                    if glob != p.get_flags():
                        raise Violation("flags-changed", f"an interrupted parse of {c} changed the package flags")
                    continue
            elif "re" in o:
                at, c2 = o["re"]
                box = []
                g = engine.Guard(at, lambda: box.append(oracle.outcome(p, c2)))
                r = g.run(lambda: oracle.outcome(p, c))
                if box:
                    cx.faults["reentry"] += 1
                    disturbed = True
                    self.judge(p, cfg, glob, c2, box[0], cx, "parse re-entered")
            elif "then" in o:
                r = self.then(p, c, o["then"])
                disturbed = True
            else:
                r = oracle.outcome(p, c)
            cx.log(c, r)
            self.judge(p, cfg, glob, c, r, cx, "parse")
            parses += 1
            hist.append((c["f"], c["flags"], r[0] if isinstance(r, tuple) else r, r[1] if isinstance(r, tuple) and r[0] == "EXC" else ""))
            cx.state(tuple(hist[-4:]))
        cx.nontrivial = parses >= 2 and disturbed

    def then(self, p, c, what):
        """Parses, then uses or edits what was returned, which is no business of later parses."""
        box = []

        def keep():
            box.append(ops.call(p, c))
            return box[0]
        r = oracle.outcome_with(p, keep)
        x = box[0] if box else None
        if isinstance(x, p.List) and len(x):
            y = x[len(x) - 1]
            if what == "clear":
                x.clear()
            elif what == "append":
                x.append(y, new_group=True)
            elif what == "set":
                x[0] = y
            elif what == "gset":
                x.groups[0][0] = y
                del x.groups[len(x.groups) - 1][0]
            elif what == "regroup":
                x.reverse()
                x.regroup(flags=p.Flag.ALL)
            elif what == "union":
                x.union_update(y, flags=p.Flag.ALL)
        if what == "str" and x is not None:
            str(x)
        return r

    def judge(self, p, cfg, glob, c, r, cx, what):
        want = oracle.solo(cfg, glob, c, active=p)
        if r != want:
            raise Violation("history-dependent", f"{what} of {c} under package flags {glob} gave {r}; in a fresh process it gives {want}")
        if c["f"] in ops.PARSING and world.is_bookless(c["a"][0], cfg):
            cx.probes["bookless strings rejected"] += 1
            if r[:2] != ("EXC", "ParseError"):
                raise Violation("bookless-accepted", f"{what} of {c}, which starts without a book, gave {r}")
