"""Fresh, independent instances of the package under test, always built from /repo's working tree.

Every simulated run gets its own instance ("process image"): the modules are executed anew, so that no state survives
from another run.  The compiled code is cached per worker process, which also gives the simulator a stable set of code
objects on which to place its statement-level yield points (sys.monitoring).
"""
import importlib, importlib.abc, importlib.util, os, sys, types, warnings

SRC = os.environ.get("BIBLEREF_SRC", "/repo/src")
NAME = "bibleref"
sys.dont_write_bytecode = True

import lark, lark.visitors, lark.exceptions  # the real dependency, loaded once
import lark.parsers.earley, lark.parsers.xearley  # noqa
import dataclasses, enum, re, typing, collections.abc, functools, contextlib, contextvars, threading, copy, itertools, operator, weakref, bisect  # noqa: preloaded before the lock seam is installed

_code = {}
_code_listeners = []


def walk_code(co):
    yield co
    for c in co.co_consts:
        if isinstance(c, types.CodeType):
            yield from walk_code(c)


class _Loader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def get_filename(self, name=None):
        return self.path

    def exec_module(self, module):
        co = _code.get(self.path)
        if co is None:
            with open(self.path, "rb") as f:
                src = f.read()
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                co = compile(src, self.path, "exec", dont_inherit=True)
            _code[self.path] = co
            for fn in _code_listeners:
                fn(co)
        exec(co, module.__dict__)

    def get_data(self, path):
        with open(path, "rb") as f:
            return f.read()


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path, target=None):
        if name.split(".")[0] != NAME:
            return None
        rel = os.path.join(SRC, *name.split("."))
        if os.path.isfile(os.path.join(rel, "__init__.py")):
            p = os.path.join(rel, "__init__.py")
            return importlib.util.spec_from_file_location(name, p, loader=_Loader(p), submodule_search_locations=[rel])
        if os.path.isfile(rel + ".py"):
            return importlib.util.spec_from_file_location(name, rel + ".py", loader=_Loader(rel + ".py"))
        return None


sys.meta_path.insert(0, _Finder())


class Pkg:
    """Handle on one instance of the package."""
    def __init__(self):
        for k in [k for k in sys.modules if k.split(".")[0] == NAME]:
            del sys.modules[k]
        self.m = importlib.import_module(NAME)
        self.util = importlib.import_module(NAME + ".util")
        self.ref = importlib.import_module(NAME + ".ref")
        # some code imports lazily ("import bibleref" inside a function): keep the modules reachable for activate()
        self.mods = {k: v for k, v in sys.modules.items() if k.split(".")[0] == NAME}
        m = self.m
        self.Book, self.Verse, self.Range, self.List, self.Flag = m.BibleBook, m.BibleVerse, m.BibleRange, m.BibleRangeList, m.BibleFlag
        self.Grouped = self.util.GroupedList
        self.data = m.bible_data()
        self.ViewError = self.util.GroupViewError
        self.ParseError = self.ref.BibleRefParsingError
        self.InvalidRef = self.ref.InvalidReferenceError
        self.MultiErr = self.ref.MultibookRangeNotAllowedError
        self.BaseErr = m.BibleRefException
        self.flagbits = {0: self.Flag.NONE, 1: self.Flag.MULTIBOOK, 2: self.Flag.VERSE_0, 3: self.Flag.ALL}

    def activate(self):
        for k in [k for k in sys.modules if k.split(".")[0] == NAME]:
            del sys.modules[k]
        sys.modules.update(self.mods)

    # --- plain data <-> objects ------------------------------------------------------------------------------
    def flag(self, bits):
        return None if bits is None else self.flagbits[bits]

    def bits(self, flag):
        if flag is None:
            return None
        return (1 if self.Flag.MULTIBOOK in flag else 0) | (2 if self.Flag.VERSE_0 in flag else 0)

    def set_flags(self, bits):
        self.m.flags = self.flagbits[bits]

    def get_flags(self):
        return self.bits(self.m.flags)

    def verse(self, v):
        return self.Verse(self.Book[v[0]], v[1], v[2], flags=self.Flag.ALL)

    def range(self, r):
        return self.Range(start=self.verse(r[0]), end=self.verse(r[1]), flags=self.Flag.ALL)

    def list(self, groups):
        out = self.List()
        for g in groups:
            out.append_group([self.range(r) for r in g])
        return out

    def enc(self, x):
        """Objects -> plain data (tuples), for comparison and logging."""
        if x is None or isinstance(x, (bool, int, str)):
            return x
        if isinstance(x, self.Book):
            return ("B", x.name)
        if isinstance(x, self.Verse):
            return (x.book.name, x.chap_num, x.verse_num)
        if isinstance(x, self.Range):
            return (self.enc(x.start), self.enc(x.end))
        if isinstance(x, self.Grouped):
            return ("L",) + tuple(tuple(self.enc(i) for i in g) for g in x.groups)
        if isinstance(x, self.Flag):
            return ("F", self.bits(x))
        if isinstance(x, (list, tuple)):
            return tuple(self.enc(i) for i in x)
        if x is NotImplemented:
            return "NotImplemented"
        return ("?", type(x).__name__)

    def enc_exc(self, e):
        for n, c in (("ParseError", self.ParseError), ("MultiErr", self.MultiErr), ("InvalidRef", self.InvalidRef),
                     ("ViewError", self.ViewError)):
            if isinstance(e, c):
                return ("EXC", n)
        return ("EXC", type(e).__name__)

    def call(self, fn):
        """Outcome of fn as plain data."""
        try:
            return self.enc(fn())
        except Exception as e:
            return self.enc_exc(e)

    # --- configuration ---------------------------------------------------------------------------------------
    SEPS = ("range_sep", "major_list_sep", "minor_list_sep", "verse_sep_std", "verse_sep_alt")

    def get_seps(self):
        return tuple(getattr(self.data, s) for s in self.SEPS)

    def book_order_obj(self, order):
        return [self.Book[b] for b in order]

    def names_obj(self, names):
        return {self.Book[b]: (v[0], v[1], v[2], list(v[3])) for b, v in names.items()}

    def maxv_obj(self, maxv):
        return {self.Book[b]: list(v) for b, v in maxv.items()}

    def v0_obj(self, v0):
        return {self.Book[b]: set(v) for b, v in v0.items()}

    def apply_cfg(self, cfg, seps=True, full=False):
        """Configures the package; full: also sets those parts that are at their defaults."""
        d = self.data
        if full or cfg.order_set:
            d.book_order = self.book_order_obj(cfg.order)
        if full or cfg.names_set:
            d.name_data = self.names_obj(cfg.names)
        if full or cfg.maxv_set:
            d.max_verses = self.maxv_obj(cfg.maxv)
        if full or cfg.v0_set:
            d.verse_0s = self.v0_obj(cfg.v0)
        if seps and tuple(cfg.seps) != self.get_seps():
            for n, s in zip(self.SEPS, cfg.seps):
                setattr(d, n, s)
