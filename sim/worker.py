"""Worker process: executes a share of the runs of one property and reports JSON lines on stdout."""
import json, os, sys, time


def main():
    a = json.loads(sys.argv[1])
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    from sim import base, props
    from sim.engine import HarnessError
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)                     # whatever the code under test prints goes to stderr
    prop = props.load(a["prop"])
    t_end = time.monotonic() + a["wall"]
    tot = dict(runs=0, nontrivial=0, steps=0, max_steps=0)
    faults, probes, digests, states = {}, {}, set(), set()
    samples, per_run = [], []
    i = a["start"]
    known = a.get("known", [])
    known_hit = {}
    err = None
    while i < a["count"] and time.monotonic() < t_end:
        plan = base.plan_for(prop, a["seed"], i)
        try:
            v, cx = base.execute(prop, plan)
        except HarnessError as e:
            err = f"run {i}: {e}"
            break
        tot["runs"] += 1
        tot["steps"] += cx.steps
        tot["max_steps"] = max(tot["max_steps"], cx.steps)
        for k, n in cx.faults.items():
            faults[k] = faults.get(k, 0) + n
        for k, n in cx.probes.items():
            probes[k] = probes.get(k, 0) + n
        d = cx.digest()
        if cx.nontrivial:
            tot["nontrivial"] += 1
            digests.add(d)
        if len(states) < 400000:
            states |= cx.states
        if a.get("digests"):
            per_run.append([i, d])
        if len(samples) < 2 and cx.nontrivial and a["start"] == 0:
            samples.append({"run": i, "plan": plan})
        if v is not None:
            hit = [k for k in known if v.sig is not None and k == v.sig]
            if hit:
                known_hit[v.sig] = known_hit.get(v.sig, 0) + 1
            else:
                m, mv, tried = base.minimise(prop, plan, v, wall=a.get("min_wall", 60))
                out.write(json.dumps({"violation": {"run": i, "plan": m, "cls": mv.cls, "what": mv.what, "sig": mv.sig,
                                                    "original": plan, "tried": tried}}) + "\n")
                out.flush()
                break
        i += a["stride"]
    out.write(json.dumps({"summary": tot, "faults": faults, "probes": probes, "digests": sorted(digests),
                          "states": len(states), "samples": samples, "per_run": per_run, "known": known_hit,
                          "error": err}) + "\n")
    out.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
