"""Common parts of the property checks: run context, violations, execution, minimisation."""
import copy, hashlib, json, os, random, signal, sys, time, traceback
from collections import Counter
from . import engine, pkg

engine.install()
RUN_BUDGET = 120_000_000       # yield points per run; the largest runs need far less (see evidence: max_steps_in_a_run)
RUN_CPU = 150                 # seconds of processor time; only reached by code that spins where the simulator cannot count


class Violation(Exception):
    def __init__(self, cls, what, sig=None):
        super().__init__(what)
        self.cls, self.what, self.sig = cls, what, sig


class Cx:
    """Context of one run: event log digest, counters."""
    def __init__(self, keep_log=False):
        self._h = hashlib.blake2b(digest_size=12)
        self.faults, self.probes = Counter(), Counter()
        self.nontrivial = False
        self.steps = 0
        self.states = set()
        self.lines = [] if keep_log else None

    def log(self, *items):
        s = repr(items)
        self._h.update(s.encode("utf-8", "surrogatepass"))
        if self.lines is not None:
            self.lines.append(s)

    def state(self, x):
        """Notes an abstract state that was reached (for the distinct-states measure)."""
        self.states.add(hashlib.blake2b(repr(x).encode("utf-8", "surrogatepass"), digest_size=8).hexdigest())

    def digest(self):
        return self._h.hexdigest()


def plan_for(prop, seed, index):
    rng = random.Random(f"{prop.ID}:{seed}:{index}")
    plan = prop.gen(rng)
    return json.loads(json.dumps(plan))      # exactly what a replay file can hold


def _in_package(tb):
    src = os.path.realpath(pkg.SRC) + os.sep
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(src):
            return True
        tb = tb.tb_next
    return False


def _alarm(signum, frame):
    raise engine.StepLimit("processor time")


def execute(prop, plan, keep_log=False):
    """Runs a plan.  Returns (violation or None, context).  Raises HarnessError if the harness itself fails."""
    cx = Cx(keep_log)
    g = engine.Guard(budget=getattr(prop, "RUN_BUDGET", RUN_BUDGET))
    engine.fired_rules.clear()
    engine.granularity(bool(plan.get("fine")))
    viol = None
    old = signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, RUN_CPU)
    try:
        if getattr(prop, "THREADS", False):
            prop.run(plan, cx)
        else:
            g.run(lambda: prop.run(plan, cx))
    except Violation as v:
        viol = v
    except engine.StepLimit as e:
        viol = Violation("no-progress", f"operation does not finish ({e})")
    except engine.HarnessError:
        raise
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt) and not isinstance(e, engine.SimInterrupt):
            raise
        if _in_package(e.__traceback__):
            last = traceback.extract_tb(e.__traceback__)[-1]
            viol = Violation("unexpected-exception", f"a legal operation raised {type(e).__name__}: {e} (in {last.name})")
        else:
            raise engine.HarnessError("".join(traceback.format_exception(e))) from e
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)
    cx.steps += g.n
    if viol is not None:
        cx.log("VIOLATION", viol.cls)
    return viol, cx


# ---------------------------------------------------------------------------------------------------------------------
# Minimisation
# ---------------------------------------------------------------------------------------------------------------------
def _paths(plan, path=()):
    """Lists inside the plan from which elements may be dropped (those under keys the property names in SHRINK)."""
    return path


def _get(o, path):
    for k in path:
        o = o[k]
    return o


def lowered(plan):
    """The plan with the counts of yield points at which rules fired in the last execution instead of the rules."""
    fired = {}
    for rule, thread, n in engine.fired_rules:
        fired.setdefault((rule, thread), []).append(n)

    def low(o):
        if isinstance(o, dict):
            return {k: low(v) for k, v in o.items()}
        if isinstance(o, list):
            out = []
            for x in o:
                if isinstance(x, list) and len(x) == 3 and isinstance(x[1], int) and (x[1], x[0]) in fired:
                    out += [[x[0], n, low(x[2])] for n in fired[x[1], x[0]]]
                else:
                    out.append(low(x))
            return out
        if type(o) is int and o < 0 and len(fired.get((o, None), ())) == 1:
            return fired[o, None][0]
        return o
    return low(plan)


def minimise(prop, plan, viol, wall=60.0):
    t_end = time.monotonic() + wall
    best, best_v = plan, viol
    tried = [0]

    def fails(p):
        if time.monotonic() > t_end:
            return None
        tried[0] += 1
        try:
            p = json.loads(json.dumps(p))
            v, _ = execute(prop, p)
        except Exception:
            return None
        if v is not None and v.cls == viol.cls and v.sig == viol.sig:
            return v
        return None

    cand = lowered(plan)
    if cand != plan:                    # places given by rules become plain counts where that is the same execution
        v = fails(cand)
        if v is not None:
            best, best_v = cand, v
    progress = True
    while progress and time.monotonic() < t_end:
        progress = False
        for path in prop.shrink_paths(best):
            try:
                lst = _get(best, path)
            except (KeyError, IndexError, TypeError):
                continue
            if not isinstance(lst, list):
                continue
            n = max(1, len(lst) // 2)
            while n >= 1 and time.monotonic() < t_end:
                i = 0
                while i < len(_get(best, path)):
                    cand = copy.deepcopy(best)
                    del _get(cand, path)[i:i + n]
                    if len(_get(cand, path)) < prop.min_len(path):
                        i += n
                        continue
                    v = fails(cand)
                    if v is not None:
                        best, best_v, progress = cand, v, True
                    else:
                        i += n
                n //= 2
        for cand in prop.simplify(best):
            v = fails(cand)
            if v is not None:
                best, best_v, progress = cand, v, True
    return best, best_v, tried[0]


class Prop:
    """Base class of the property checks."""
    ID = None
    THREADS = False                 # the check drives threads itself
    SHRINK = ("ops",)               # keys of the plan whose lists may lose elements
    REAL = "all of bibleref (ref, parser, data, util) and Lark: real code"
    STUB = "none"

    def gen(self, rng):
        raise NotImplementedError

    def run(self, plan, cx):
        raise NotImplementedError

    def shrink_paths(self, plan):
        out = []
        for k in self.SHRINK:
            v = plan.get(k)
            if isinstance(v, list):
                out.append((k,))
                for i, x in enumerate(v):
                    if isinstance(x, list) and any(isinstance(y, (list, dict)) for y in x):
                        out.append((k, i))
        return out

    def min_len(self, path):
        return 0

    def simplify(self, plan):
        if plan.get("cfg"):
            for k in list(plan["cfg"]):
                c = copy.deepcopy(plan)
                del c["cfg"][k]
                yield c
        if plan.get("fine"):
            c = copy.deepcopy(plan)
            c["fine"] = False
            yield c
        if isinstance(plan.get("glob"), int) and plan["glob"]:
            c = copy.deepcopy(plan)
            c["glob"] = 0
            yield c
