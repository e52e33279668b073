"""Simulator core: statement/bytecode-level yield points, injected faults, cooperative threads and locks.

Nothing here reads a clock or draws random numbers: a run is a pure function of its plan (plain data) and of the code.
"""
import dis, sys, threading, _thread, types, zlib
from . import pkg as _pkg

_mon = sys.monitoring
TOOL = 3
_RealLock, _RealRLock = _thread.allocate_lock, threading.RLock
_get_ident = _thread.get_ident


class HarnessError(Exception):
    """The simulator itself went wrong (never a verdict about the code under test)."""


class SimInterrupt(KeyboardInterrupt):
    """Injected asynchronous exception (as from Ctrl-C or a cancelling signal handler)."""


class SimMemoryError(MemoryError):
    """Injected allocation failure."""


class SimTimeout(Exception):
    """Injected exception as raised by an alarm handler (an ordinary Exception)."""


class StepLimit(BaseException):
    """The operation used up its step budget: no progress."""


FAULTS = {"interrupt": SimInterrupt, "memory": SimMemoryError, "timeout": SimTimeout}
INJECTED = (SimInterrupt, SimMemoryError, SimTimeout)

_hook = None          # active consumer of yield points: callable(code, offset) or None
_fine = False         # yield points at every bytecode of the package, otherwise at every source line
_codes = []
_names = {}           # id of code -> number standing for its name
_starts = {}          # id of code -> offsets of its yield points at line granularity


def _line_points(co):
    """Offsets at which a source line, or another round of a loop, begins.

    LINE events of the interpreter are not used: whether one is repeated after a call inside the line depends on how warm
    the code is, and the count of yield points must depend on nothing but the plan.
    """
    ins = list(dis.get_instructions(co))
    entry = max([i.offset for i in ins if i.opname == "RESUME" and i.arg == 0][:1] or [-1])
    at = {o for o, _ in dis.findlinestarts(co)}
    at |= {i.argval for i in ins if i.opcode in dis.hasjrel and i.argval <= i.offset}
    out, ext = set(), None
    for i in ins:
        if i.opname == "EXTENDED_ARG":
            ext = i.offset if ext is None else ext
            continue
        if (i.offset in at or ext in at) and i.offset > entry:
            out.add(i.offset)
        ext = None
    return frozenset(out)


def _on_event(code, offset):
    if not _fine and offset not in _starts[id(code)]:
        return _mon.DISABLE
    h = _hook
    if h is not None:
        h(code, offset)


# A position that a plan names is a count of yield points (positive) or a rule (negative): a rule stands for a random
# selection of places in the code, whatever the time spent there, so that places passed seldom are met as often as loops.
SELECT = (12, 40, 120)
fired_rules = []      # (rule, thread or None, count of yield points) of the rules that fired in this run


def _selected(code, offset, rule):
    h = ((_names.get(id(code), 7) + offset * 0x9E3779B1) ^ (rule * 0x85EBCA6B)) & 0xFFFFFFFF
    h = (h ^ (h >> 15)) * 0x2C1B3C6D & 0xFFFFFFFF
    h = (h ^ (h >> 12)) * 0x297A2D39 & 0xFFFFFFFF
    return (h ^ (h >> 15)) % SELECT[-rule % 3] == 0


def granularity(fine):
    global _fine
    if fine != _fine:
        _fine = fine
        if fine:
            _mon.restart_events()


def install():
    if _mon.get_tool(TOOL) is not None:
        return
    _mon.use_tool_id(TOOL, "bibleref-sim")
    _mon.register_callback(TOOL, _mon.events.INSTRUCTION, _on_event)

    def placed(co):
        for c in _pkg.walk_code(co):
            _starts[id(c)] = _line_points(c)
            _names[id(c)] = zlib.crc32(c.co_qualname.encode())
            _codes.append(c)
            _mon.set_local_events(TOOL, c, _mon.events.INSTRUCTION)
    _pkg._code_listeners.append(placed)
    # The entry points of the parsing toolkit get yield points too, so that switches and faults can fall between the
    # package's own lines while the toolkit runs.
    import lark.lark as ll
    seen = set()
    for f in list(vars(ll.Lark).values()):
        f = getattr(f, "__func__", f)
        co = getattr(f, "__code__", None)
        if co is not None and co.co_filename == ll.__file__ and co not in seen:
            seen.add(co)
            placed(co)
    _thread.allocate_lock = SimLock
    threading.Lock = SimLock
    threading.RLock = SimRLock
    threading._RLock = SimRLock


# ---------------------------------------------------------------------------------------------------------------------
# Single-threaded guard: counts yield points of one call, injects a fault or a re-entrant call, bounds the work
# ---------------------------------------------------------------------------------------------------------------------
class Guard:
    """Runs fn() counting yield points; at yield point `at` raises a fault or runs a nested call.

    Only the yield points of this call are counted, so (operation, at) is reproducible.
    """
    __slots__ = ("n", "at", "act", "budget", "fired", "tid", "skip")

    def __init__(self, at=None, act=None, budget=60_000_000):
        self.n = 0
        self.at = at
        self.act = act            # fault name or callable (re-entrant call)
        self.budget = budget
        self.fired = False
        self.skip = (0, 0, 1, 3, 9)[-at // 3 % 5] if at is not None and at < 0 else None

    def _step(self, code, offset):
        if _get_ident() != self.tid:
            return
        self.n += 1
        if self.skip is not None and _selected(code, offset, self.at):
            self.skip -= 1
            if self.skip < 0:
                fired_rules.append((self.at, None, self.n))
                self.skip = None
                self.at = self.n
        if self.n == self.at:
            self.fired = True
            act = self.act
            if callable(act):
                act()
            else:
                raise FAULTS[act]()
        if self.n > self.budget:
            raise StepLimit(self.n)

    def run(self, fn):
        global _hook
        prev = _hook
        self.tid = _get_ident()
        _hook = self._step
        try:
            return fn()
        finally:
            _hook = prev


# ---------------------------------------------------------------------------------------------------------------------
# Cooperative threads: real threads, exactly one runs at a time, every switch is decided by the plan
# ---------------------------------------------------------------------------------------------------------------------
class _T:
    __slots__ = ("i", "sem", "n", "state", "fn", "ident", "pre", "faults", "blocked_on", "rules")


_sim = None


class Deadlock(Exception):
    pass


class ThreadSim:
    """Runs the given functions as cooperative threads.

    switches: list of [thread, count, target]: when `thread` passes its count-th yield point, control goes to `target`.
    faults:   list of [thread, count, action]: exception name, or callable run re-entrantly at that point.
    When a thread ends or blocks, the runnable thread following it (cyclically) continues.
    """
    def __init__(self, fns, switches=(), faults=(), first=0, budget=40_000_000):
        self.ts = []
        for i, fn in enumerate(fns):
            t = _T()
            t.i, t.fn, t.n, t.state, t.blocked_on, t.rules = i, fn, 0, "ready", None, []
            t.sem = _RealLock()
            t.sem.acquire()
            t.pre = {}
            t.faults = {}
            t.ident = None
            self.ts.append(t)
        for th, c, tgt in switches:
            if th < len(self.ts):
                if c < 0:
                    self.ts[th].rules.append([c, tgt, 0, 12])
                else:
                    self.ts[th].pre[c] = tgt
        for th, c, a in faults:
            if th < len(self.ts):
                if c < 0:
                    self.ts[th].rules.append([c, None, (0, 0, 1, 3, 9)[-c // 3 % 5], 1, a])
                else:
                    self.ts[th].faults[c] = a
        self.first = first % len(self.ts)
        self.budget = budget
        self.total = 0
        self.log = []              # (thread, count, target) of the switches that happened
        self.fired = []            # faults that happened
        self.by_ident = {}
        self.done = _RealLock()
        self.done.acquire()
        self.cur = None
        self.failure = None
        self.kill = False
        self.sites = set()

    # -- called in simulated threads
    def _step(self, code, offset):
        t = self.by_ident.get(_get_ident())
        if t is None or t is not self.cur:
            return
        t.n += 1
        self.total += 1
        if self.kill or self.total > self.budget:
            if not self.kill:
                self.failure = self.failure or ("no progress", t.i)
            raise StepLimit(self.total)
        a = t.faults.get(t.n)
        tgt = t.pre.get(t.n)
        for r in t.rules:
            if r[3] and _selected(code, offset, r[0]):
                if r[2]:
                    r[2] -= 1
                    continue
                r[3] -= 1
                fired_rules.append((r[0], t.i, t.n))
                if r[1] is None:
                    a = t.faults[t.n] = r[4]
                else:
                    tgt = r[1]
        if a is not None:
            self.fired.append((t.i, t.n))
            if callable(a):
                a()
            else:
                raise FAULTS[a]()
        if tgt is not None:
            nt = self._pick(tgt)
            if nt is not None and nt is not t:
                self.log.append((t.i, t.n, nt.i))
                self.sites.add((code.co_name, nt.i))
                self._switch(t, nt)

    def _pick(self, start):
        k = len(self.ts)
        for d in range(k):
            t = self.ts[(start + d) % k]
            if t.state == "ready":
                return t
        return None

    def _switch(self, t, nt):
        self.cur = nt
        nt.sem.release()
        t.sem.acquire()
        if self.kill:
            raise StepLimit("killed")

    def block(self, lock):
        """Current simulated thread waits for `lock`."""
        t = self.by_ident[_get_ident()]
        t.state = "blocked"
        t.blocked_on = lock
        nt = self._pick(t.i + 1)
        if nt is None:
            self.failure = ("deadlock", t.i)
            self._abort()
            raise StepLimit("deadlock")
        self.log.append((t.i, t.n, nt.i))
        self._switch(t, nt)

    def wake(self, lock):
        for t in self.ts:
            if t.state == "blocked" and t.blocked_on is lock:
                t.state = "ready"
                t.blocked_on = None

    def _abort(self):
        self.kill = True
        for t in self.ts:
            if t.state == "blocked":
                t.state = "ready"
                t.blocked_on = None

    def _main(self, t):
        t.sem.acquire()
        t.ident = _get_ident()
        self.by_ident[t.ident] = t
        try:
            if not self.kill:
                t.fn()
        except StepLimit:
            if self.failure is None:
                self.failure = ("no progress", t.i)
            self._abort()
        except BaseException as e:          # the functions are expected to catch what they expect
            if self.failure is None:
                self.failure = ("harness", t.i, repr(e))
            self._abort()
        t.state = "done"
        nt = self._pick(t.i + 1)
        if nt is None:
            self.cur = None
            if any(x.state == "blocked" for x in self.ts):
                self.failure = self.failure or ("deadlock", t.i)
                self._abort()
                nt = self._pick(t.i + 1)
                self.cur = nt
                nt.sem.release()
            else:
                self.done.release()
        else:
            self.cur = nt
            nt.sem.release()

    def kind(self, i, n):
        """Kind of the fault that thread i met at its n-th yield point."""
        a = self.ts[i].faults[n]
        return a if isinstance(a, str) else "re-entry"

    def run(self):
        global _hook, _sim
        if _sim is not None or _hook is not None:
            raise HarnessError("nested simulation")
        _hook, _sim = self._step, self
        old = threading.stack_size()
        try:
            for t in self.ts:
                _thread.start_new_thread(self._main, (t,))
            self.cur = self.ts[self.first]
            self.cur.sem.release()
            if not self.done.acquire(timeout=300):
                raise HarnessError("simulated threads stuck outside the simulator's control")
        finally:
            _hook, _sim = None, None
        if self.failure and self.failure[0] == "harness":
            raise HarnessError(self.failure[2])
        return self


class SimLock:
    """Lock seam: blocks by handing control to another simulated thread."""
    def __init__(self):
        self.owner = None

    def acquire(self, blocking=True, timeout=-1):
        me = _get_ident()
        while self.owner is not None:
            if not blocking:
                return False
            s = _sim
            if s is None or me not in s.by_ident:
                if timeout is not None and timeout >= 0:
                    return False
                raise StepLimit("lock never released")       # a single caller waiting for itself: deadlock
            if timeout is not None and timeout > 0 and s._pick(s.by_ident[me].i + 1) in (None, s.by_ident[me]):
                return False
            s.block(self)
        self.owner = me
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.owner = None
        if _sim is not None:
            _sim.wake(self)

    def locked(self):
        return self.owner is not None

    acquire_lock, release_lock, locked_lock = acquire, release, locked

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self.owner = None


class SimRLock(SimLock):
    def __init__(self):
        self.owner = None
        self.depth = 0

    def acquire(self, blocking=True, timeout=-1):
        if self.owner == _get_ident():
            self.depth += 1
            return True
        if SimLock.acquire(self, blocking, timeout):
            self.depth = 1
            return True
        return False

    def release(self):
        if self.owner != _get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self.depth -= 1
        if self.depth == 0:
            SimLock.release(self)

    def _is_owned(self):
        return self.owner == _get_ident()

    def _release_save(self):
        d, self.depth = self.depth, 0
        SimLock.release(self)
        return d

    def _acquire_restore(self, d):
        SimLock.acquire(self)
        self.depth = d

    def __enter__(self):
        self.acquire()
        return self
