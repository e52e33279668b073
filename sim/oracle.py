"""Outcomes that calls have when they are alone: each in its own pristine instance of the package."""
import json
from . import pkg, ops, world, engine

_cache = {}


def outcome(p, c, objs=None):
    """Outcome of a call as plain data; parse errors with the positions they report."""
    return outcome_with(p, lambda: ops.call(p, c, objs))


def outcome_with(p, fn):
    try:
        return p.enc(fn())
    except Exception as e:
        r = p.enc_exc(e)
        if r == ("EXC", "ParseError"):
            r += (e.start_pos, e.end_pos)
        return r


def outcome_of(p, fn):
    """Outcome of fn() as plain data."""
    try:
        return p.enc(fn())
    except Exception as e:
        return p.enc_exc(e) + (str(e)[:120],)


class quiet:
    """Oracle work is not part of the simulated execution: its yield points are not counted."""
    def __enter__(self):
        self.h = engine._hook
        engine._hook = None

    def __exit__(self, *a):
        engine._hook = self.h


def fresh(cfg, glob=0, active=None):
    """A pristine instance with the given configuration."""
    p = pkg.Pkg()
    p.apply_cfg(cfg)
    p.set_flags(glob)
    if active is not None:
        active.activate()
    return p


def solo(cfg, glob, c, active=None):
    """Outcome of call `c` made first thing in a pristine instance with configuration `cfg` and package flags `glob`."""
    key = (cfg.key(), glob, json.dumps(c, sort_keys=True))
    r = _cache.get(key)
    if r is None:
        with quiet():
            p = fresh(cfg, glob)
            r = outcome(p, c)
            if active is not None:
                active.activate()
        if len(_cache) > 60000:
            _cache.clear()
        _cache[key] = r
    return r


# A pool of strings over the default configuration that runs share, so that solo outcomes can be kept between runs
def _pool():
    import random
    rng = random.Random("pool")
    cfg = world.Cfg()
    out = []
    for _ in range(260):
        out.append(world.gen_text(rng, cfg, v0=rng.random() < 0.3))
    out += ["3:4", "5", "2-3", "1:1-2", "7, 8", "4; 5", "Matt 2:3-4; 5, 7", "Mark 4", "Jude 3", "Jude", "Philemon 2-5", "Mark 1, 2:3",
            "Psalm 3:0", "Psa 3:0-4", "Matt 10-John 10", "Gen", "1 John 1:5-3 John 8", "2 John", "2 John 4, 6; Mark 4, 6",
            "Luke 5:1, 3; 6", "Gen 1:1; 2; 3:4, 5", "Matt 5-Mark", "Rev 22:21", "Rom 8:1-2, 4-5, 9:3", "Psa 119:176", "Obadiah 3; 4"]
    return out


POOL = _pool()


def gen_parse(rng, cfg, pool=0.7, v0=None):
    """A parse call."""
    f = rng.choice(("List.str",) * 6 + ("Range.str", "Verse.str", "from_str"))
    if f == "from_str":
        s = world.book_name(rng, cfg, world.gen_book(rng, cfg)) if rng.random() < 0.8 else rng.choice(("Zzz", "J", ""))
    elif not cfg.spec and rng.random() < pool:
        s = rng.choice(POOL)
    else:
        s = world.gen_text(rng, cfg, v0=rng.random() < 0.3, bookless=0.25)
    fl = rng.choice((None, None, 0, 1, 2, 3)) if f != "from_str" else None
    return {"f": f, "a": [s], "flags": fl}


SCALES = (3, 12, 40, 120, 300, 600, 1200, 2500)


def gen_rule(rng):
    return -rng.randint(1, 1 << 28)


def gen_at(rng, scales=SCALES):
    """A position in a call: a number of yield points, or a rule selecting places in the code."""
    if rng.random() < 0.35:
        return gen_rule(rng)
    return rng.randint(1, rng.choice(scales))


def gen_switches(rng, n_threads, most=8, scales=SCALES):
    n = rng.choice((1, 1, 2, 2, 3, 4, rng.randint(1, most)))
    out = []
    k = rng.random()
    if k < 0.4:                        # at places in the code, the same ones for all threads
        r = gen_rule(rng)
        return [[t, r, (t + 1) % n_threads] for t in range(n_threads)]
    if k < 0.55:            # systematic ping-pong from a random point on
        at, step = rng.randint(1, rng.choice(scales)), rng.choice((1, 2, 3, 7, 20, 60))
        for k in range(rng.randint(4, 40)):
            out.append([k % n_threads, at + (k // n_threads) * step, (k + 1) % n_threads])
        return out
    for _ in range(n):
        t = rng.randrange(n_threads)
        out.append([t, gen_at(rng, scales), (t + rng.randint(1, n_threads - 1)) % n_threads])
    return out
