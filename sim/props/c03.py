"""C03: a separator change takes effect everywhere, or not at all."""
from .. import engine, oracle, ops, world, pkg
from ..base import Prop, Violation

SURE = set(world.SEP_POOL)
ODD = ["\\", '"', "x", "\n", "", None, 7]           # unusable values: refused (if accepted, the result is only judged for \\ and ")
LISTS = ([[["Matt", 1, 2], ["Matt", 1, 4]], [["Matt", 1, 6], ["Matt", 1, 6]]], [[["Matt", 7, 1], ["Matt", 7, 1]]],
         [[["John", 3, 5], ["John", 4, 2]]])


def expected(seps, alt):
    rs, ma, mi, std, al = seps
    v = al if alt else std
    return f"Matthew 1{v}2{rs}4{mi}6{ma}7{v}1{ma}John 3{v}5{rs}4{v}2"


class PROP(Prop):
    ID = "C03"
    THREADS = True
    SHRINK = ("ops", "threads", "switches", "faults")

    def min_len(self, path):
        return 1 if path == ("threads",) else 0

    def gen_value(self, rng, cur, i):
        k = rng.random()
        if k < 0.2:
            return rng.choice(ODD)
        if k < 0.28:
            return rng.choice(cur)          # duplicate of another separator (allowed on the way, e.g. when swapping)
        while True:
            c = rng.choice(world.SEP_POOL if rng.random() < 0.7 else world.DEFAULT_SEPS)
            if c not in cur[:i] + cur[i + 1:]:
                return c

    def gen(self, rng):
        if rng.random() < 0.6:
            cur = list(world.DEFAULT_SEPS)
            out = []
            for _ in range(rng.randint(2, 9)):
                k = rng.random()
                if k < 0.72:
                    i = rng.randrange(5)
                    v = self.gen_value(rng, cur, i)
                    o = {"k": "set", "i": i, "v": v}
                    if rng.random() < 0.35:
                        o["fault"] = [oracle.gen_at(rng, (3, 8, 20, 60, 120)), rng.choice(("interrupt", "memory", "timeout"))]
                    elif v in SURE:
                        cur[i] = v
                    out.append(o)
                elif k < 0.8:
                    i, j = rng.sample(range(5), 2)
                    out += [{"k": "set", "i": i, "v": cur[j]}, {"k": "set", "i": j, "v": cur[i]}]
                    cur[i], cur[j] = cur[j], cur[i]
                else:
                    o = {"k": "parse", "c": oracle.gen_parse(rng, world.Cfg())}
                    if rng.random() < 0.5:
                        o["fault"] = [oracle.gen_at(rng), rng.choice(("interrupt", "memory"))]
                    out.append(o)
            return {"mode": "history", "ops": out, "fine": rng.random() < 0.2, "probe_each": rng.random() < 0.6}
        n = rng.choice((2, 2, 3))
        own = list(range(5))
        rng.shuffle(own)
        shared = rng.random() < 0.3
        threads = []
        used = set(world.DEFAULT_SEPS)
        pool = [c for c in world.SEP_POOL if c not in used]
        rng.shuffle(pool)
        setters = rng.choice((1, n, n, n - 1)) or 1
        for t in range(n):
            ops_ = []
            mine = [own[0]] if shared else own[t * 5 // n:(t + 1) * 5 // n] or [own[t]]
            for _ in range(rng.randint(1, 3)):
                if t < setters and (not ops_ or rng.random() < 0.7):
                    i = rng.choice(mine)
                    v = rng.choice(ODD) if rng.random() < 0.15 else pool.pop() if pool else ODD[0]
                    ops_.append({"k": "set", "i": i, "v": v})
                else:
                    ops_.append({"k": "parse", "t": rng.choice(["Matt", "Mark 4", "Jude", "2 John", "Zzz 3", "5"])})
            threads.append(ops_)
        fine = rng.random() < 0.3
        sc = (4, 10, 25, 60, 150, 600) if not fine else (20, 60, 150, 400, 1500)
        faults = [[rng.randrange(n), oracle.gen_at(rng, sc), rng.choice(("interrupt", "memory"))] for _ in range(rng.choice((0, 0, 1)))]
        return {"mode": "threads", "warm": rng.random() < 0.4, "threads": threads, "first": rng.randrange(n),
                "switches": oracle.gen_switches(rng, n, scales=sc), "faults": faults, "fine": fine}

    # -----------------------------------------------------------------------------------------------------------
    def run(self, plan, cx):
        if plan["mode"] == "history":
            g = engine.Guard(budget=60_000_000)
            g.run(lambda: self.history(plan, cx))
            cx.steps += g.n
        else:
            self.threads(plan, cx)

    def agree(self, p, seps, cx, when):
        """Formatting and parsing use exactly the given separators."""
        if p.get_seps() != tuple(seps):
            raise Violation("settings", f"{when}: separators read back as {p.get_seps()}, expected {tuple(seps)}")
        if len(set(map(str, seps))) < 5 or any(not isinstance(s, str) or len(s) != 1 or (s not in SURE and s not in '\\"') for s in seps):
            return False
        cx.probes["agreement probes"] += 1
        cx.state(tuple(seps))
        lst = p.list(LISTS)
        want = p.enc(lst)
        for alt in (False, True):
            text = expected(seps, alt)
            got = lst.str(alt_sep=alt)
            if got.replace(" ", "") != text.replace(" ", ""):
                raise Violation("format", f"{when}: with separators {seps} the list is written as {got!r}, expected like {text!r}")
            if alt:
                text = got
            r = oracle.outcome(p, {"f": "List.str", "a": [text], "flags": None})
            if r != want:
                raise Violation("parse", f"{when}: with separators {seps}, {text!r} parses to {r}, expected {want}")
        text = expected(world.DEFAULT_SEPS, False) if tuple(seps) != world.DEFAULT_SEPS else None
        if text is not None:
            c = {"f": "List.str", "a": [text], "flags": None}
            r = oracle.outcome(p, c)
            want = oracle.solo(world.Cfg({"seps": list(seps)}), 0, c, active=p)
            if r != want:
                raise Violation("stale", f"{when}: with separators {seps}, {text!r} parses to {r}; freshly configured it gives {want}")
        return True

    def history(self, plan, cx):
        p = pkg.Pkg()
        seps = list(world.DEFAULT_SEPS)
        changed = 0
        for n, o in enumerate(plan["ops"]):
            when = f"after step {n}"
            f = o.get("fault")
            g = engine.Guard(*f) if f else engine.Guard()
            if o["k"] == "parse":
                try:
                    r = g.run(lambda: oracle.outcome(p, o["c"]))
                except engine.INJECTED:
                    r = ("INJECTED",)
                cx.log("parse", o["c"], r, g.fired)
            else:
                i, v = o["i"], o["v"]
                try:
                    g.run(lambda: setattr(p.data, world.SEP_NAMES[i], v))
                    r = "set"
                except Exception as e:
                    r = "refused"
                except engine.SimInterrupt:
                    r = "interrupted"
                now = list(p.get_seps())
                after = seps[:i] + [v] + seps[i + 1:]
                cx.log("set", i, v, r, g.fired, now)
                if r == "set":
                    if now != after:
                        raise Violation("settings", f"{when}: setting {world.SEP_NAMES[i]} to {v!r} leaves {now}")
                    if seps != after:
                        changed += 1
                    if not (isinstance(v, str) and v in SURE):
                        cx.probes["odd value accepted"] += 1
                else:
                    cx.probes["change refused" if r == "refused" and not g.fired else "change interrupted"] += 1
                    if now != seps and (not g.fired or now != after):
                        raise Violation("mixture", f"{when}: setting {world.SEP_NAMES[i]} to {v!r} failed and leaves {now}, was {seps}")
                seps = now
            if g.fired:
                cx.faults[f[1]] += 1
            if plan["probe_each"] or g.fired or o["k"] == "set" and r != "set":
                self.agree(p, seps, cx, when)
        self.agree(p, seps, cx, "at the end")
        # the settings can still be changed, and changed back
        for i, s in enumerate(world.DEFAULT_SEPS):
            setattr(p.data, world.SEP_NAMES[i], s)
        self.agree(p, list(world.DEFAULT_SEPS), cx, "after setting the defaults again")
        cx.nontrivial = changed > 0

    def threads(self, plan, cx):
        p = pkg.Pkg()
        if plan["warm"]:
            oracle.outcome(p, {"f": "List.str", "a": ["Matt 1"], "flags": None})
        done = []
        cfg = world.Cfg()

        def thread(i, todo):
            def fn():
                for o in todo:
                    n0 = sim.ts[i].n
                    try:
                        if o["k"] == "set":
                            setattr(p.data, world.SEP_NAMES[o["i"]], o["v"])
                            r = "set"
                        else:
                            r = oracle.outcome(p, {"f": "List.str", "a": [o["t"]], "flags": None})
                    except engine.INJECTED:
                        r = "interrupted"
                    except Exception as e:
                        r = "refused"
                    hit = any(a == i and n0 < n <= sim.ts[i].n for a, n in sim.fired)
                    done.append((i, o, r, hit))
            return fn
        sim = engine.ThreadSim([thread(i, t) for i, t in enumerate(plan["threads"])], plan["switches"], plan["faults"], plan["first"])
        sim.run()
        cx.steps += sim.total
        cx.log(sim.log, sim.fired)
        cx.faults["thread switch"] += len(sim.log)
        for i, n in sim.fired:
            cx.faults[sim.kind(i, n)] += 1
        if sim.failure:
            raise Violation("no-progress", f"threads changing separators make no progress: {sim.failure}")
        now = list(p.get_seps())
        for i, o, r, hit in done:
            cx.log(i, o, r, hit)
            if o["k"] == "parse" and not hit:
                c = {"f": "List.str", "a": [o["t"]], "flags": None}
                want = oracle.solo(cfg, 0, c, active=p)
                if r != want:
                    raise Violation("parse-during-change", f"parsing {o['t']!r} while separators change gave {r}; alone {want}")
        for s in range(5):
            writers = {i for i, o, r, hit in done if o["k"] == "set" and o["i"] == s}
            sets = [(o["v"], r, hit) for i, o, r, hit in done if o["k"] == "set" and o["i"] == s]
            if len(writers) <= 1:
                # what a successful change by the only writer set must be in place, unless a later change was cut short
                ok = [world.DEFAULT_SEPS[s]]
                for v, r, hit in sets:
                    if r == "set":
                        ok = [v]
                    elif hit:
                        ok.append(v)
                if now[s] not in ok:
                    raise Violation("lost-change", f"{world.SEP_NAMES[s]} reads {now[s]!r} after {sets}")
            elif now[s] not in [v for v, r, hit in sets] + [world.DEFAULT_SEPS[s]]:
                raise Violation("settings", f"{world.SEP_NAMES[s]} reads {now[s]!r} after {sets}")
        for s in sim.sites:
            cx.state(s)
        cx.state(tuple(sim.log))
        g = engine.Guard(budget=60_000_000)
        g.run(lambda: self.agree(p, now, cx, "after the threads finished"))
        cx.nontrivial = bool(sim.log)
