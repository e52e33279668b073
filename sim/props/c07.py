"""C07: a group view shows its live group or refuses, and never harms others."""
from .. import engine, oracle, world, pkg, lists
from ..base import Prop, Violation
from .c06 import setup, gen_common


class PROP(Prop):
    ID = "C07"
    SHRINK = ("ops", "init")

    def min_len(self, path):
        return 1 if path == ("init",) else 0

    def gen(self, rng):
        plan = gen_common(rng)
        edits = lists.SIMPLE * 4 + ["clear", "clear_groups", "reverse", "sort", "regroup", "copy", "new"]
        if rng.random() < 0.5:
            edits = rng.sample(sorted(set(edits)), rng.randint(2, 7)) + ["append_group", "insert"]
        plan["ops"] = []
        for _ in range(rng.randint(3, 30)):
            k = rng.random()
            if k < 0.28:
                plan["ops"].append({"o": "open", "l": rng.randrange(3), "i": rng.randrange(6), "it": int(rng.random() < 0.4)})
            elif k < 0.5:
                plan["ops"].append({"o": "use", "l": 0, "w": rng.randrange(8), "how": rng.choice(("set", "del", "del", "read", "get")),
                                    "k": rng.choice((0, 0, 1, 2, rng.randrange(6))), "v": rng.randrange(8)})
            else:
                plan["ops"].append(lists.gen_op(rng, edits, n_vals=len(plan["values"])))
        return plan

    def run(self, plan, cx):
        p, w = setup(plan)
        views = []              # (real view, model list object index, uid)
        self.owners = {}
        used = 0
        for n, o in enumerate(plan["ops"]):
            when = f"after step {n} ({o['o']})"
            if o["o"] == "open":
                m = o["l"] % len(w.real)
                if w.model[m]:
                    g = o["i"] % len(w.model[m])
                    v = list(w.real[m].groups)[g] if o["it"] else w.real[m].groups[g]
                    s = w.model[m][g][0]
                    views.append([v, w.real[m], s[0], s[0] in w.fuzzy, w.model[m][g][0][1]])
                    w.fuzzy.discard(s[0])      # from here on this slot's identity is what the view sees
                    for x in views[:-1]:
                        if x[2] == s[0] and views[-1][3]:
                            x[3] = True
                    views[-1][3] = False
            elif o["o"] == "use":
                if views:
                    used += 1
                    self.use(p, w, views[o["w"] % len(views)], o, cx, when)
            else:
                if o["o"] in ("extend", "append_group") and w.size(o["l"] % len(w.real)) > 40:
                    continue
                lists.do(w, o)
            for x in views:                        # identities that the last operation made uncertain
                if x[2] in w.fuzzy:
                    x[3] = True
            cx.log(o["o"], [[len(g) for g in m] for m in w.model])
            for k in range(len(w.real)):
                lists.look(w, k, deep=False, when=when)
            for i, x in enumerate(views):
                r = self.check(p, w, x, i, cx, when)
                cx.log("view", i, r)
                cx.state((o["o"], r))
            for k in range(len(w.real)):
                lists.look(w, k, deep=False, when=when + ", views read")
        cx.nontrivial = used > 0 and len(views) > 0

    def group_of(self, w, x):
        """The group that currently begins with the view's slot: (model groups, index), or None."""
        for m, r in enumerate(w.real):
            if r is x[1]:
                for g, grp in enumerate(w.model[m]):
                    if grp[0][0] == x[2]:
                        return m, g
        return None

    def candidates(self, w, x):
        """Where the slot's identity became uncertain: groups of the view's list that begin with an equal item."""
        out = []
        for m, r in enumerate(w.real):
            if r is x[1]:
                for g, grp in enumerate(w.model[m]):
                    out.append((m, g))
        return out

    def check(self, p, w, x, i, cx, when):
        view = x[0]
        if not any(r is x[1] for r in w.real):
            return "list gone"          # the list itself was dropped from the run
        at = self.group_of(w, x)

        def read():
            out = []
            for v in view:
                out.append(v)
                if len(out) > 2000:
                    raise Violation("view", f"{when}: iterating view {i} does not end")
            return out, len(view), view[0], str(view)
        try:
            got, ln, first, s = read()
        except p.ViewError:
            cx.probes["view refused"] += 1
            if at is not None and not x[3]:
                raise Violation("view-lost", f"{when}: view {i} is refused although its group still begins with the item it was opened on")
            return "refused"
        cx.probes["view shown"] += 1
        if at is not None:
            want = [s[1] for s in w.model[at[0]][at[1]]]
        elif x[3]:
            for m, g in self.candidates(w, x):
                want = [s[1] for s in w.model[m][g]]
                if lists._eq(want[0], x[4]) and want == got:
                    break
            else:
                raise Violation("view-wrong", f"{when}: view {i} shows {lists.show(got)}, which is no group that begins with {lists.show(x[4])}")
        else:
            raise Violation("view-wrong", f"{when}: view {i} shows {lists.show(got)} although no group begins with its item any more")
        if got != want or ln != len(want) or not lists._eq(first, want[0]):
            raise Violation("view-wrong", f"{when}: view {i} shows {lists.show(got)} (length {ln}), its group is {lists.show(want)}")
        x[4] = want[0]
        return "shown", len(want)

    def use(self, p, w, x, o, cx, when):
        view = x[0]
        if not any(r is x[1] for r in w.real):
            return
        at = self.group_of(w, x)
        if at is None and x[3]:
            return                 # which group it shows, if any, is left open: only read it
        n = len(w.model[at[0]][at[1]]) if at else 3
        k = o["k"] % (n + 1)       # n: just past the end
        v = w.val(o["v"])
        try:
            if o["how"] == "set":
                view[k] = v
            elif o["how"] == "del":
                del view[k]
            elif o["how"] == "get":
                r = view[k]
            else:
                r = list(view)
        except p.ViewError:
            cx.probes["view edit refused"] += 1
            if at is not None and not x[3]:
                raise Violation("view-lost", f"{when}: a view is refused although its group still begins with the item it was opened on")
            return
        except IndexError:
            if at is None or k < n or o["how"] == "read":
                raise Violation("view-wrong", f"{when}: using a view ({o['how']} {k}) raised IndexError")
            return
        if at is None:
            raise Violation("view-wrong", f"{when}: a view of a group that is gone can be used ({o['how']})")
        grp = w.model[at[0]][at[1]]
        if o["how"] == "read":
            if list(r) != [s[1] for s in grp]:
                raise Violation("view-wrong", f"{when}: view shows {lists.show(r)}")
            return
        if k >= n:
            raise Violation("view-wrong", f"{when}: index {k} of a group of {n} was not refused ({o['how']})")
        cx.probes["view edits"] += 1
        if o["how"] == "set":
            w.fuzzy.add(grp[k][0])
            grp[k][1] = v
        elif o["how"] == "del":
            del grp[k]
            if not grp:
                del w.model[at[0]][at[1]]
        elif not lists._eq(r, grp[k][1]):
            raise Violation("view-wrong", f"{when}: view[{k}] is {lists.show(r)}, expected {lists.show(grp[k][1])}")
