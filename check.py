#!/usr/bin/env python3
"""Runs a property check:   check.py C01 [--tier quick|thorough] [--runs N] [--wall S] [--workers N]
Replays a failure:          check.py replay FILE
Lists event digests:        check.py C01 --digests
Exit 0: held on everything explored; 1: VIOLATION line; 2: the check itself failed.
"""
import argparse, json, os, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = os.environ.get("VERIF_PYTHON") or "/opt/venv/bin/python"
sys.path.insert(0, HERE)


def env():
    e = dict(os.environ)
    e.setdefault("PYTHONHASHSEED", "0")
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    return e


def known_findings(prop):
    """Signatures of recorded findings (not repaired), and their descriptions."""
    out = {}
    with open(os.path.join(HERE, "KNOWN_FINDINGS.txt")) as f:
        for line in f:
            if line.startswith("finding:"):
                w = line.split(None, 3)
                if w[1] == "property=" + prop:
                    out[w[2].split("=", 1)[1]] = w[3].strip()
    return out


def replay(path):
    with open(path) as f:
        r = json.load(f)
    from sim import base, props
    prop = props.load(r["property"])
    v, cx = base.execute(prop, r["plan"], keep_log=True)
    for line in cx.lines:
        print(line)
    if v is None:
        print("no violation")
        return 0
    print(f"{v.cls}: {v.what}")
    print(f"VIOLATION property={r['property']} replay={path}")
    return 1


def main():
    if len(sys.argv) > 2 and sys.argv[1] == "replay":
        if os.path.realpath(sys.executable) != os.path.realpath(PY) or "PYTHONHASHSEED" not in os.environ:
            os.execve(PY, [PY, os.path.abspath(__file__)] + sys.argv[1:], env())
        sys.exit(replay(sys.argv[2]))
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--runs", type=int)
    ap.add_argument("--wall", type=float)
    ap.add_argument("--workers", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--digests", action="store_true")
    ap.add_argument("--no-evidence", action="store_true")
    o = ap.parse_args()
    from plan import TIERS, INFO
    count, wall = TIERS[o.prop][o.tier if o.tier in ("quick", "thorough") else "quick"]
    count, wall = o.runs or count, o.wall or wall
    t0 = time.monotonic()
    known = known_findings(o.prop)
    procs = []
    for w in range(o.workers):
        a = dict(prop=o.prop, seed=o.seed, start=w, stride=o.workers, count=count, wall=wall, known=list(known),
                 digests=o.digests)
        procs.append(subprocess.Popen([PY, os.path.join(HERE, "sim", "worker.py"), json.dumps(a)], stdout=subprocess.PIPE,
                                      stderr=subprocess.PIPE, env=env(), cwd=HERE, text=True))
    violation, summaries, errors = None, [], []
    import selectors, threading
    outs = [[None, None] for _ in procs]

    def reader(i):
        so, se = procs[i].communicate()
        outs[i] = [so, se]
    ths = [threading.Thread(target=reader, args=(i,), daemon=True) for i in range(len(procs))]
    for t in ths:
        t.start()
    deadline = t0 + wall + 500
    pending = set(range(len(procs)))
    while pending:
        for i in sorted(pending):
            if not ths[i].is_alive():
                pending.discard(i)
                so, se = outs[i]
                ok = False
                for line in (so or "").splitlines():
                    try:
                        d = json.loads(line)
                    except ValueError:
                        continue
                    if "violation" in d:
                        if violation is None or d["violation"]["run"] < violation["run"]:
                            violation = d["violation"]
                    elif "summary" in d:
                        summaries.append(d)
                        ok = True
                        if d["error"]:
                            errors.append(d["error"])
                if not ok:
                    errors.append(f"worker {i} exited with {procs[i].returncode}: {(se or '')[-2000:]}")
                if violation is not None or errors:
                    for j in pending:
                        procs[j].kill()
                    pending = set()
                    break
        if time.monotonic() > deadline:
            for j in pending:
                procs[j].kill()
            errors.append("workers did not finish in time")
            break
        time.sleep(0.05)
    wall_s = time.monotonic() - t0
    if violation is not None:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        path = os.path.join(HERE, "replays", f"{o.prop}-seed{o.seed}-run{violation['run']}.json")
        with open(path, "w") as f:
            json.dump(dict(property=o.prop, seed=o.seed, run=violation["run"], cls=violation["cls"], what=violation["what"],
                           plan=violation["plan"], original_plan=violation["original"],
                           minimisation_runs=violation["tried"]), f, indent=1)
        r = subprocess.run([PY, os.path.abspath(__file__), "replay", path], env=env(), cwd=HERE, capture_output=True, text=True)
        again = r.returncode == 1
    evidence(o, count, wall_s, summaries, violation, known, INFO)
    if o.digests:
        for i, d in sorted(x for s in summaries for x in s["per_run"]):
            print("digest", i, d)
    for s in sorted(known):
        print(f"KNOWN-FINDING: property={o.prop} {known[s]}")
    tot = sum(s["summary"]["runs"] for s in summaries)
    print(f"{o.prop} {o.tier}: {tot} simulated runs, seed {o.seed}, {wall_s:.1f} s")
    if violation is not None:
        print(f"run {violation['run']}: {violation['cls']}: {violation['what']}")
        print(f"replayed in a fresh process: {'same violation' if again else 'NOT reproduced'}")
        print(f"VIOLATION property={o.prop} replay={path}")
        sys.exit(1)
    if errors:
        print("ERROR of the check:", errors[0][:4000], file=sys.stderr)
        sys.exit(2)
    if tot < min(count, 20):
        print("ERROR of the check: too few runs", file=sys.stderr)
        sys.exit(2)
    sys.exit(0)


def evidence(o, count, wall_s, summaries, violation, known, INFO):
    if o.no_evidence:
        return
    from collections import Counter
    faults, probes = Counter(), Counter()
    digests = set()
    for s in summaries:
        faults.update(s["faults"])
        probes.update(s["probes"])
        digests |= set(s["digests"])
    runs = sum(s["summary"]["runs"] for s in summaries)
    steps = sum(s["summary"]["steps"] for s in summaries)
    info = INFO[o.prop]
    ev = dict(property=o.prop, tier=o.tier if o.tier in ("quick", "thorough") else "quick", seed=o.seed, level="exploration",
              coverage=dict(
                  evaluations=runs, distinct_nontrivial=len(digests), rule=info["rule"],
                  samples=[x for s in summaries for x in s["samples"]][:2] or ["(violation found before a sample was kept)"],
                  planned_runs=count,
                  runs_per_hour_one_seed_each=round(runs / max(wall_s, 0.01) * 3600),
                  simulated_time_yield_points=steps,
                  max_steps_in_a_run=max([s["summary"]["max_steps"] for s in summaries], default=0),
                  faults_injected=dict(sorted(faults.items())), probes=dict(sorted(probes.items())),
                  distinct_states=sum(s["states"] for s in summaries),
                  distinct_states_measure=info.get("states", "distinct abstract states, counted per worker and added up"),
                  real_components=info["real"], stubbed_components=info["stub"]),
              assumptions=info["assumptions"], wall_s=round(wall_s, 2), violations=1 if violation else 0)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", o.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write("\n")


if __name__ == "__main__":
    main()
