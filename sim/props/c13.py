"""C13: iterating a list stays sound while the list is edited between steps."""
from .. import engine, oracle, world, pkg, lists
from ..base import Prop, Violation


class PROP(Prop):
    ID = "C13"
    SHRINK = ("ops", "init")

    def gen(self, rng):
        kind = rng.choice("GGR")
        edits = lists.SIMPLE
        if rng.random() < 0.5:
            edits = rng.sample(sorted(set(edits)), rng.randint(2, 6))
        out = []
        for _ in range(rng.randint(4, 40)):
            k = rng.random()
            if k < 0.15:
                out.append({"o": "iter", "l": rng.randrange(2), "back": rng.randint(0, 1)})
                if rng.random() < 0.35:
                    out[-1].update(g=rng.randrange(5), back=0)          # over one group
            elif k < 0.55:
                out.append({"o": "step", "t": rng.randrange(4), "n": rng.choice((1, 1, 1, 2, 3))})
            elif k < 0.6:
                out.append({"o": "peek", "l": rng.randrange(2), "at": oracle.gen_at(rng, (3, 10, 40)), "kind": rng.choice(("interrupt", "memory"))})
            else:
                o = lists.gen_op(rng, edits, n_lists=2, n_vals=1)
                if rng.random() < 0.6:
                    o["near"] = [rng.randrange(4), rng.choice((-1, 0, 0, 1, 1, 2))]     # edit close to where an iterator stands
                o.pop("src", None)
                out.append(o)
        n = 2
        return {"kind": kind, "ops": out, "init": [[rng.randint(1, 4) for _ in range(rng.randint(0, 5))] for _ in range(n)]}

    def min_len(self, path):
        return 1 if path[0] == "init" else 0

    def run(self, plan, cx):
        p = pkg.Pkg()
        kind = plan["kind"]
        count = [0]
        u = world.Cfg().uni(False)

        class Fresh(list):
            """Every value is used once, so that what an iterator delivers identifies the item."""
            def __len__(self):
                return 1

            def __getitem__(self, i):
                count[0] += 1
                return count[0] if kind == "G" else p.range(u.r(count[0], count[0]))
        w = lists.World(p, kind, Fresh())
        for sizes in plan["init"]:
            w.new([[w.val(0) for _ in range(k)] for k in sizes])
        its = []
        mixed = 0
        for n, o in enumerate(plan["ops"]):
            when = f"step {n} ({o['o']})"
            if o["o"] == "iter":
                m = o["l"] % len(w.real)
                if "g" in o:
                    if len(its) < 6 and w.model[m]:
                        g = o["g"] % len(w.model[m])
                        flat = [s[1] for s in w.model[m][g]]
                        its.append(dict(m=m, back=0, it=iter(w.real[m].groups[g]), got=[], through=list(flat), ever=set(flat), done=False,
                                        last=None, head=flat[0]))
                elif len(its) < 6:
                    flat = [s[1] for s in w.flat(m)]
                    its.append(dict(m=m, back=o["back"], it=iter(reversed(w.real[m])) if o["back"] else iter(w.real[m]), got=[],
                                    through=list(flat), ever=set(flat), done=False, last=None))
            elif o["o"] == "step":
                if its:
                    for _ in range(o["n"]):
                        self.step(w, its[o["t"] % len(its)], cx, when)
            elif o["o"] == "peek":
                m = o["l"] % len(w.real)
                g = engine.Guard(o["at"], o["kind"])
                try:
                    g.run(lambda: (list(w.real[m]), w.real[m].to_nested_lists(), list(reversed(w.real[m]))))
                except engine.INJECTED:
                    cx.faults[o["kind"]] += 1
            else:
                o = dict(o)
                if "near" in o and its:
                    t = its[o["near"][0] % len(its)]
                    o["l"] = t["m"]
                    flat = [s[1] for s in w.flat(t["m"])]
                    if t["last"] in flat:
                        o["i"] = max(0, flat.index(t["last"]) + o["near"][1])
                        if o["o"] in ("gset", "gdel") and flat:
                            o["i"], o["k"] = w.where(t["m"], o["i"] % len(flat))
                if o["o"] == "remove":
                    o["o"] = "del"
                lists.do(w, o)
                for t in its:
                    if t["m"] == o["l"] % len(w.real):
                        flat = [s[1] for s in w.flat(t["m"])]
                        if "head" in t:
                            flat = [[s[1] for s in g] for g in w.model[t["m"]] if g[0][1] == t["head"]]
                            flat = flat[0] if flat else []
                            if not flat or t["last"] is not None and t["last"] not in flat:
                                if not t["done"]:
                                    cx.probes["group iterations left open"] += 1
                                t["done"] = True        # the group, or the item the iteration stands on, is gone: nothing is claimed
                        now = set(flat)
                        t["through"] = [v for v in t["through"] if v in now]
                        if not t["done"]:
                            t["ever"] |= now
                            mixed += bool(t["got"])
                cx.log(o["o"], [[len(g) for g in m] for m in w.model])
            cx.state((o["o"], tuple((t["back"], len(t["got"]), t["done"]) for t in its)[:3]))
        for t in its:                  # the edits have stopped: every iteration must end
            k = 0
            while not t["done"]:
                self.step(w, t, cx, "at the end")
                k += 1
                if k > len(t["ever"]) + 5:
                    raise Violation("endless", "an iteration does not end after the edits have stopped")
        for m in range(len(w.real)):
            lists.look(w, m, deep=False, when="at the end")
        cx.nontrivial = mixed > 0

    def step(self, w, t, cx, when):
        if t["done"]:
            return
        try:
            v = next(t["it"])
        except StopIteration:
            t["done"] = True
            # the items that stayed throughout, in list order (their order never changes: no sorting here)
            want = t["through"][::-1] if t["back"] else t["through"]
            keep = set(want)
            got = [x for x in t["got"] if x in keep]
            if got != want:
                kind = "group" if "head" in t else "backward" if t["back"] else "forward"
                raise Violation("iteration", f"{when}: {kind} iteration delivered {t['got']}, but {want} stayed in the list throughout")
            cx.probes["group iterations finished" if "head" in t else "iterations finished"] += 1
            cx.log("end", len(t["got"]))
            return
        if v in t["got"]:
            raise Violation("iteration", f"{when}: item {v} was delivered twice")
        if v not in t["ever"]:
            raise Violation("iteration", f"{when}: item {v} was delivered but never in the {'group' if 'head' in t else 'list'} during the iteration")
        t["got"].append(v)
        t["last"] = v
        cx.log("next", len(t["got"]))
