"""Histories of everything that can happen to a process, with queries judged against the reference model throughout.

Used by C15-C20, which differ in the kinds of queries they ask (CATS).  A history changes the data and the flags, has
changes rejected, makes unrelated calls, cuts calls short at arbitrary yield points, re-enters calls in the middle of
others, and lets several threads ask at once; the same queries come back under other data and flags.
"""
import copy, random
from . import engine, model, oracle, ops, world, pkg
from .base import Prop, Violation

PARTS = ("order", "names", "maxv", "v0")


class History(Prop):
    THREADS = True
    SHRINK = ("ops", "cfgs")
    CATS = ()
    NAMES = 0.4             # how often configurations have names of their own
    N = 8
    SEPS = 0.0              # how often separators change

    # -- configurations
    def gen_cfgs(self, rng):
        from .props.c04 import PROP as C04, VOCAB
        out = []
        for _ in range(rng.randint(1, 3)):
            if out and rng.random() < 0.6:
                spec = copy.deepcopy(rng.choice(out))
                if "order" in spec:
                    spec = C04().near(rng, spec, spec["order"], rng.choice((None, None, "v0", "v0", "verse")))
                else:
                    continue
            else:
                spec = world.gen_cfg(rng, seps=0, custom=0.85, max_verses=rng.choice((3, 5, 9)))
            if "order" in spec and rng.random() < self.NAMES:
                nm = dict(spec.get("names") or (world.REF["names"] if rng.random() < 0.5 else {b: world.REF["names"][b] for b in spec["order"]}))
                for v in rng.sample(VOCAB, rng.randint(1, 4)):
                    b = rng.choice(spec["order"])
                    if all(x[1] != v for x in nm.values()):
                        nm[b] = [v[:3], v, rng.randint(1, 4), ["Q" + v] if rng.random() < 0.5 else []]
                if rng.random() < 0.4:           # two books change names
                    a, b = rng.choice(spec["order"]), rng.choice(spec["order"])
                    nm[a], nm[b] = nm[b], nm[a]
                spec["names"] = nm
            if model.complete(world.Cfg(spec)):
                out.append(spec)
        return out or [{}]

    def gen(self, rng):
        cfgs = self.gen_cfgs(rng)
        seeds = [rng.randrange(1 << 30) for _ in range(rng.randint(2, 4))]
        cur = 0
        out = []

        def seed():
            return rng.choice(seeds) if rng.random() < 0.6 else rng.randrange(1 << 30)
        for _ in range(rng.randint(4, 12)):
            k = rng.random()
            if rng.random() < self.SEPS:
                out.append({"k": "seps", "v": world.gen_seps(rng) if rng.random() < 0.7 else list(world.DEFAULT_SEPS)})
            elif k < 0.2:
                cur = rng.randint(-1, len(cfgs) - 1)
                parts = list(PARTS)
                rng.shuffle(parts)
                out.append({"k": "data", "i": cur, "p": parts, "only": int(rng.random() < 0.5)})
            elif k < 0.27:
                out.append({"k": "bad", "part": rng.choice(PARTS), "how": rng.choice(("none", "int", "keys"))})
            elif k < 0.42:
                out.append({"k": "flags", "f": rng.randint(0, 3)})
            elif k < 0.55:
                cfg = world.Cfg(cfgs[cur] if cur >= 0 else {})
                c = ops.gen_call(rng, cfg, rng.random() < 0.5, rng.random() < 0.6)
                if ops.OPS[c["f"]][0]:
                    c["flags"] = rng.choice((None, 0, 1, 2, 3))
                o = {"k": "call", "c": c}
                if rng.random() < 0.4:
                    o["cut"] = [oracle.gen_at(rng, (5, 20, 80, 300, 900)), rng.choice(sorted(engine.FAULTS))]
                out.append(o)
            elif k < 0.62:
                out.append({"k": "ask", "s": seed(), "cut": [oracle.gen_at(rng, (5, 20, 80, 300)), rng.choice(sorted(engine.FAULTS))]})
            elif k < 0.7:
                out.append({"k": "ask", "s": seed(), "in": [oracle.gen_at(rng, (5, 20, 80, 300)), seed()]})
            elif k < 0.81:
                n = rng.choice((2, 2, 3))
                out.append({"k": "threads", "s": [seed() for _ in range(n)], "sw": oracle.gen_switches(rng, n, scales=(5, 20, 80, 300, 900)), "first": rng.randrange(n),
                            "cut": [[rng.randrange(n), oracle.gen_at(rng, (20, 80, 300)), rng.choice(sorted(engine.FAULTS))]] if rng.random() < 0.25 else []})
            elif k < 0.94:                          # the same question right before and after a change
                q = {"k": "ask", "s": seed(), "n": 1}
                out.append(q)
                if rng.random() < 0.5:
                    out.append({"k": "flags", "f": rng.randint(0, 3)})
                else:
                    cur = rng.randint(-1, len(cfgs) - 1)
                    out.append({"k": "data", "i": cur, "p": list(PARTS), "only": int(rng.random() < 0.7)})
                out.append(dict(q))
                continue
            else:
                out.append({"k": "ask", "s": seed()})
            if out[-1]["k"] in ("data", "bad", "flags", "call", "seps") and rng.random() < 0.6:
                out.append({"k": "ask", "s": seed()})
        out.append({"k": "ask", "s": seeds[0]})
        return {"cfgs": cfgs, "glob": rng.randint(0, 3), "ops": out, "fine": rng.random() < 0.04}

    # -- execution
    def set_data(self, p, part, cfg):
        d = p.data
        if part == "order":
            d.book_order = p.book_order_obj(cfg.order)
        elif part == "names":
            d.name_data = p.names_obj(cfg.names)
        elif part == "maxv":
            d.max_verses = p.maxv_obj(cfg.maxv)
        else:
            d.verse_0s = p.v0_obj(cfg.v0)

    def run(self, plan, cx):
        p = pkg.Pkg()
        self.p, self.cx, self.pending, self.pool = p, cx, [], {}
        self.spec, self.seps, self.cfg, self.glob = {}, world.DEFAULT_SEPS, world.Cfg(), plan["glob"]
        p.set_flags(self.glob)
        asked = events = 0
        for n, o in enumerate(plan["ops"]):
            k = o["k"]
            if k == "threads":
                asked += self.threads(o, f"step {n}")
                events += 1
                continue
            act = at = None
            if "cut" in o:
                at, act = o["cut"]
            elif "in" in o:
                at = o["in"][0]
                act = lambda: self.nested(o["in"][1], f"step {n}, in the middle of a call")
            g = engine.Guard(at=at, act=act)
            try:
                asked += g.run(lambda: self.step(o, plan, f"step {n}", g)) or 0
            except engine.INJECTED:
                pass
            finally:
                cx.steps += g.n
            if self.pending:
                raise self.pending[0]
            if g.fired:
                cx.faults[("re-entry" if "in" in o else o["cut"][1])] += 1
            events += k != "ask" or g.fired
            cx.log(n, k, g.n, g.fired)
            cx.state((k, self.glob, self.cfg.order_set, g.fired))
        cx.nontrivial = asked > 0 and events > 0

    def step(self, o, plan, when, g):
        p, cx = self.p, self.cx
        k = o["k"]
        if k == "data":
            self.spec = plan["cfgs"][o["i"]] if 0 <= o["i"] < len(plan["cfgs"]) else {}
            old, self.cfg = self.cfg, world.Cfg(dict(self.spec, seps=self.seps))
            for part in o["p"]:
                if not (o.get("only") and getattr(old, part) == getattr(self.cfg, part)):     # else only what differs is set
                    self.set_data(p, part, self.cfg)
        elif k == "bad":
            bad = {"none": None, "int": 7, "keys": {"Matt": 5}}[o["how"]]
            attr = {"order": "book_order", "names": "name_data", "maxv": "max_verses", "v0": "verse_0s"}[o["part"]]
            try:
                setattr(p.data, attr, bad)
            except Exception:
                cx.faults["rejected data"] += 1
            else:                       # nothing is claimed for data accepted all the same; set proper data again
                self.set_data(p, o["part"], self.cfg)
        elif k == "seps":
            self.seps = o["v"]
            self.cfg = world.Cfg(dict(self.spec, seps=self.seps))
            for name, v in zip(p.SEPS, self.seps):
                setattr(p.data, name, v)
        elif k == "flags":
            self.glob = o["f"]
            p.set_flags(self.glob)
        elif k == "call":
            p.call(lambda: ops.call(p, o["c"]))
        else:
            return self.ask(o["s"], when, g, o.get("n"))

    def nested(self, seed, when):
        try:
            self.ask(seed, when, None)
        except Violation as v:          # must not get lost in a handler of the package
            self.pending.append(v)

    def ask(self, seed, when, g, n_kinds=None):
        """Queries of the property's kinds; one that a fault falls into is not judged."""
        rng = random.Random(seed)
        n = 0
        cats = []
        q = model.queries(self.p, self.cfg, self.glob, rng, n_kinds or self.N, self.CATS, self.pool)
        while True:
            try:
                cat, what, fn, want = next(q)
                got = self.p.call(fn)
            except StopIteration:
                break
            except Exception:
                if g is not None and g.fired:
                    break
                raise
            if g is not None and g.fired and isinstance(g.act, str):
                break
            if got != want:
                raise Violation("wrong-answer", f"{when}: {what} is {got}; the data, flags and arguments say {want}")
            n += 1
        self.cx.log("asked", seed, n)
        self.cx.probes["queries judged"] += n
        return n

    def threads(self, o, when):
        p, cx = self.p, self.cx
        done = [0] * len(o["s"])
        wrong = []

        def asker(i, seed):
            def body():
                q = model.queries(p, self.cfg, self.glob, random.Random(seed), max(2, self.N // 3), self.CATS, self.pool)
                while not wrong:
                    try:
                        cat, what, fn, want = next(q)
                        got = p.call(fn)
                    except StopIteration:
                        return
                    except engine.INJECTED:
                        return
                    except Exception as e:
                        if any(t == i for t, _ in sim.fired):
                            return
                        wrong.append(Violation("unexpected-exception", f"{when}, thread {i}: making the operands of a query raised {type(e).__name__}: {e}"))
                        return
                    if any(t == i for t, _ in sim.fired):
                        return
                    if got != want:
                        wrong.append(Violation("wrong-answer", f"{when}, thread {i}: {what} is {got}; the data, flags and arguments say {want}"))
                        return
                    done[i] += 1
            return body
        sim = engine.ThreadSim([asker(i, s) for i, s in enumerate(o["s"])], o["sw"], o["cut"], o["first"])
        sim.run()
        cx.steps += sim.total
        cx.faults["thread switch"] += len(sim.log)
        for t, c in sim.fired:
            cx.faults[sim.kind(t, c)] += 1
        cx.log("threads", sim.log, sim.fired, done)
        cx.state(("switches", tuple(x[0] for x in sim.log), tuple(sorted(sim.sites))))
        cx.probes["queries judged"] += sum(done)
        if wrong:
            raise wrong[0]
        if sim.failure:
            raise Violation("no-progress", f"{when}: {sim.failure}")
        return sum(done)

    def simplify(self, plan):
        yield from super().simplify(plan)
        for i, o in enumerate(plan["ops"]):
            for k in ("cut", "in"):
                if k in o and o["k"] != "threads":
                    c = copy.deepcopy(plan)
                    del c["ops"][i][k]
                    yield c
            if o["k"] == "threads":
                for s in o["s"]:
                    c = copy.deepcopy(plan)
                    c["ops"][i] = {"k": "ask", "s": s}
                    yield c
                c = copy.deepcopy(plan)
                for j in range(len(o["sw"])):
                    d = copy.deepcopy(plan)
                    del d["ops"][i]["sw"][j]
                    yield d
