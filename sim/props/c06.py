"""C06: a grouped list always equals a plain list of groups under any edits."""
from .. import engine, oracle, world, pkg, lists
from ..base import Prop, Violation


def gen_pool(rng, kind):
    """Configuration and values for lists of one kind."""
    if kind == "G":
        return {}, rng.sample(range(-5, 30), rng.randint(2, 8))
    spec = world.gen_cfg(rng, seps=0, custom=0.85)
    cfg = world.Cfg(spec)
    vals = []
    while len(vals) < rng.randint(2, 8):
        vals.append(world.gen_range(rng, cfg, True, True))
    return spec, vals


def setup(plan):
    cfg = world.Cfg(plan["cfg"])
    p = oracle.fresh(cfg, plan.get("glob", 0))
    vals = plan["values"] if plan["kind"] == "G" else [p.range(r) for r in plan["values"]]
    w = lists.World(p, plan["kind"], vals)
    for nest in plan["init"]:
        w.new([[w.val(v) for v in g] for g in nest])
    return p, w


def gen_common(rng):
    kind = rng.choice("GGR")
    spec, vals = gen_pool(rng, kind)
    return {"kind": kind, "cfg": spec, "values": vals, "glob": rng.choice((0, 0, 1, 2, 3)),
            "init": [lists.gen_nest(rng, len(vals)) for _ in range(rng.choice((1, 2, 2, 3)))]}


class PROP(Prop):
    ID = "C06"
    SHRINK = ("ops", "init")

    def min_len(self, path):
        return 1 if path == ("init",) else 0

    def gen(self, rng):
        plan = gen_common(rng)
        pool = lists.SIMPLE * 3 + lists.BULK
        if rng.random() < 0.5:           # swarm: only some kinds of operations
            pool = rng.sample(sorted(set(pool)), rng.randint(3, 9))
            if not set(pool) & {"append", "prepend", "insert", "extend", "append_group", "new"}:
                pool += ["append", "append_group", "prepend"]
        long = rng.random() < 0.1
        plan["ops"] = []
        for _ in range(rng.randint(40, 150) if long else rng.randint(2, 30)):
            o = lists.gen_op(rng, pool, n_vals=len(plan["values"]))
            if rng.random() < 0.08:
                o["peek"] = [oracle.gen_at(rng, (5, 20, 100)), rng.choice(("interrupt", "memory"))]
            plan["ops"].append(o)
        plan["deep"] = rng.choice((1, 1, 1, 4))
        return plan

    def run(self, plan, cx):
        p, w = setup(plan)
        edits = 0
        size_cap = 40
        for m in range(len(w.real)):
            lists.look(w, m, when="at the start")
        for n, o in enumerate(plan["ops"]):
            m = o["l"] % len(w.real)
            if o["o"] in ("extend", "append_group") and w.size(m) > size_cap:
                continue
            before = [lists.values(g) for g in w.model]
            lists.do(w, o)
            edits += before != [lists.values(g) for g in w.model]
            if "peek" in o:             # a reader that is cut short
                g = engine.Guard(*o["peek"])
                try:
                    g.run(lambda: (list(w.real[m]), w.real[m].to_nested_lists(), w.real[m] == w.real[0], str(w.real[m])))
                except engine.INJECTED:
                    cx.faults[o["peek"][1]] += 1
            for k in range(len(w.real)):
                lists.look(w, k, deep=k == m and n % plan["deep"] == 0, when=f"after step {n} ({o['o']})")
            cx.log(o["o"], [[len(g) for g in m] for m in w.model])
            cx.state((o["o"], tuple(len(g) for g in w.model[m % len(w.model)])[:6]))
        for k in range(len(w.real)):
            lists.look(w, k, when="at the end")
        cx.nontrivial = edits >= 2
