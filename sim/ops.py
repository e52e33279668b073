"""Registry of the package's public read-only operations, as plain-data calls, with generators.

A call is {"f": name, "a": [args], "flags": bits or None}.  Arguments: ["B", name], ["V", verse], ["R", range],
["L", groups], ["o", index of a shared object], or a plain value.
`takes_flags` tells whether the operation documents a `flags` argument.
"""
import copy

from . import world


def _split(p, a, k):
    return a[0].split(by_book=bool(a[1]), by_chap=bool(a[2]), num_verses=a[3], regroup=bool(a[4]), **k)


def _str_r(p, a, k):
    return a[0].str(abbrev=bool(a[1]), alt_sep=bool(a[2]), nospace=bool(a[3]), force_start_verses=bool(a[4]), **k)


def _str_l(p, a, k):
    return a[0].str(abbrev=bool(a[1]), alt_sep=bool(a[2]), nospace=bool(a[3]), preserve_groups=bool(a[4]),
                    force_start_verses=bool(a[5]), **k)


def _copy_then(method):
    def f(p, a, k):
        c = p.List(a[0])
        getattr(c, method)(*a[1:], **k)
        return c
    return f


def _iop(op):
    def f(p, a, k):
        c = p.List(a[0])
        if op == "|":
            c |= a[1]
        elif op == "&":
            c &= a[1]
        elif op == "-":
            c -= a[1]
        else:
            c ^= a[1]
        return c
    return f


def _rel(a, b):
    return (a < b, a <= b, a > b, a >= b, a == b, a != b)


# name: (takes_flags, argument kinds, function)
OPS = {
    # books
    "from_str": (0, "n", lambda p, a, k: p.Book.from_str(a[0])),
    "book.verse_count": (1, "B", lambda p, a, k: a[0].verse_count(**k)),
    "book.chap_count": (0, "B", lambda p, a, k: a[0].chap_count()),
    "book.chaps": (0, "B", lambda p, a, k: (a[0].min_chap_num(), a[0].max_chap_num())),
    "book.min_verse_num": (1, "Bc", lambda p, a, k: a[0].min_verse_num(a[1], **k)),
    "book.max_verse_num": (0, "Bc", lambda p, a, k: a[0].max_verse_num(a[1])),
    "book.first_verse": (1, "Bd", lambda p, a, k: a[0].first_verse(a[1], **k)),
    "book.last_verse": (0, "Bd", lambda p, a, k: a[0].last_verse(a[1])),
    "book.next": (0, "B", lambda p, a, k: a[0].next()),
    "book.prev": (0, "B", lambda p, a, k: a[0].prev()),
    "book.rel": (0, "BB", lambda p, a, k: _rel(a[0], a[1])),
    "book.range": (1, "B", lambda p, a, k: a[0].range(**k)),
    "book.chap_range": (1, "Bc", lambda p, a, k: a[0].chap_range(a[1], **k)),
    "book.chap_ranges": (1, "Bb", lambda p, a, k: a[0].chap_ranges(regroup=bool(a[1]), **k)),
    "book.attrs": (0, "B", lambda p, a, k: (a[0].abbrev, a[0].title, a[0].order)),
    # verses
    "Verse": (1, "Bcv", lambda p, a, k: p.Verse(a[0], a[1], a[2], **k)),
    "Verse.name": (1, "ncv", lambda p, a, k: p.Verse(a[0], a[1], a[2], **k)),
    "Verse.str": (1, "s", lambda p, a, k: p.Verse(a[0], **k)),
    "verse.min_verse_num": (1, "Vd", lambda p, a, k: a[0].min_verse_num(a[1], **k)),
    "verse.max_verse_num": (0, "Vd", lambda p, a, k: a[0].max_verse_num(a[1])),
    "verse.chaps": (0, "V", lambda p, a, k: (a[0].min_chap_num(), a[0].max_chap_num())),
    "verse.first_verse": (1, "Vd", lambda p, a, k: a[0].first_verse(a[1], **k)),
    "verse.last_verse": (0, "Vd", lambda p, a, k: a[0].last_verse(a[1])),
    "verse.is_first_in_chap": (1, "V", lambda p, a, k: a[0].is_first_in_chap(**k)),
    "verse.is_last_in_chap": (0, "V", lambda p, a, k: a[0].is_last_in_chap()),
    "verse.is_first_in_book": (1, "V", lambda p, a, k: a[0].is_first_in_book(**k)),
    "verse.is_last_in_book": (0, "V", lambda p, a, k: a[0].is_last_in_book()),
    "verse.chap_range": (1, "V", lambda p, a, k: a[0].chap_range(**k)),
    "verse.book_range": (1, "V", lambda p, a, k: a[0].book_range(**k)),
    "verse.add": (1, "Vi", lambda p, a, k: a[0].add(a[1], **k)),
    "verse.sub": (1, "Vi", lambda p, a, k: a[0].subtract(a[1], **k)),
    "verse.diff": (1, "VV", lambda p, a, k: a[0].subtract(a[1], **k)),
    "verse+": (0, "Vi", lambda p, a, k: a[0] + a[1]),
    "verse-": (0, "Vi", lambda p, a, k: a[0] - a[1]),
    "verse-verse": (0, "VV", lambda p, a, k: a[0] - a[1]),
    "verse.0to1": (0, "V", lambda p, a, k: a[0].verse_0_to_1()),
    "verse.1to0": (0, "V", lambda p, a, k: a[0].verse_1_to_0()),
    "verse.str": (0, "Vbbb", lambda p, a, k: a[0].str(bool(a[1]), bool(a[2]), bool(a[3]))),
    "verse.rel": (0, "VV", lambda p, a, k: _rel(a[0], a[1])),
    "verse.copy": (1, "V", lambda p, a, k: p.Verse(a[0], **k)),
    # ranges
    "Range": (1, "VV", lambda p, a, k: p.Range(start=a[0], end=a[1], **k)),
    "Range.str": (1, "s", lambda p, a, k: p.Range(a[0], **k)),
    "Range.book": (1, "B", lambda p, a, k: p.Range(a[0], **k)),
    "Range.chap": (1, "Bc", lambda p, a, k: p.Range(a[0], a[1], **k)),
    "Range.verse": (1, "Bcv", lambda p, a, k: p.Range(a[0], a[1], a[2], **k)),
    "Range.tochap": (1, "Bc", lambda p, a, k: p.Range(a[0], None, None, None, a[1], **k)),
    "Range.full": (1, "VV", lambda p, a, k: p.Range(a[0].book, a[0].chap_num, a[0].verse_num, a[1].book, a[1].chap_num,
                                                     a[1].verse_num, **k)),
    "whole_bible": (1, "", lambda p, a, k: p.Range.whole_bible(**k)),
    "range.is_single_verse": (0, "R", lambda p, a, k: a[0].is_single_verse()),
    "range.is_whole_chap": (1, "R", lambda p, a, k: a[0].is_whole_chap(**k)),
    "range.spans_start_chap": (1, "R", lambda p, a, k: a[0].spans_start_chap(**k)),
    "range.spans_end_chap": (1, "R", lambda p, a, k: a[0].spans_end_chap(**k)),
    "range.is_whole_book": (1, "R", lambda p, a, k: a[0].is_whole_book(**k)),
    "range.spans_start_book": (1, "R", lambda p, a, k: a[0].spans_start_book(**k)),
    "range.spans_end_book": (1, "R", lambda p, a, k: a[0].spans_end_book(**k)),
    "range.verse_count": (1, "R", lambda p, a, k: a[0].verse_count(**k)),
    "range.chap_count": (1, "Rb", lambda p, a, k: a[0].chap_count(whole=bool(a[1]), **k)),
    "range.book_count": (1, "Rb", lambda p, a, k: a[0].book_count(whole=bool(a[1]), **k)),
    "range.chap_range": (1, "R", lambda p, a, k: a[0].chap_range(**k)),
    "range.book_range": (1, "R", lambda p, a, k: a[0].book_range(**k)),
    "range.split": (1, "Rbbmb", _split),
    "range.is_disjoint": (0, "RX", lambda p, a, k: a[0].is_disjoint(a[1])),
    "range.is_adjacent": (1, "RX", lambda p, a, k: a[0].is_adjacent(a[1], **k)),
    "range.contains": (0, "RX", lambda p, a, k: a[0].contains(a[1])),
    "range.in": (0, "RX", lambda p, a, k: a[1] in a[0]),
    "range.surrounds": (0, "RX", lambda p, a, k: a[0].surrounds(a[1])),
    "range.union": (1, "RX", lambda p, a, k: a[0].union(a[1], **k)),
    "range.intersection": (1, "RX", lambda p, a, k: a[0].intersection(a[1], **k)),
    "range.difference": (1, "RX", lambda p, a, k: a[0].difference(a[1], **k)),
    "range.sym_difference": (1, "RX", lambda p, a, k: a[0].sym_difference(a[1], **k)),
    "range|": (0, "RX", lambda p, a, k: a[0] | a[1]),
    "range&": (0, "RX", lambda p, a, k: a[0] & a[1]),
    "range-": (0, "RX", lambda p, a, k: a[0] - a[1]),
    "range^": (0, "RX", lambda p, a, k: a[0] ^ a[1]),
    "range.iter": (0, "R", lambda p, a, k: list(a[0])),
    "range.str": (1, "Rbbbb", _str_r),
    "range.0to1": (0, "R", lambda p, a, k: a[0].verse_0_to_1()),
    "range.1to0": (0, "R", lambda p, a, k: a[0].verse_1_to_0()),
    "range.rel": (0, "RR", lambda p, a, k: _rel(a[0], a[1])),
    # lists
    "List.str": (1, "s", lambda p, a, k: p.List(a[0], **k)),
    "List.copy": (1, "L", lambda p, a, k: p.List(a[0], **k)),
    "list.copy.copy": (0, "L", lambda p, a, k: copy.copy(a[0])),
    "list.deepcopy": (0, "L", lambda p, a, k: copy.deepcopy(a[0])),
    "list.verse_count": (1, "L", lambda p, a, k: a[0].verse_count(**k)),
    "list.chap_count": (1, "Lb", lambda p, a, k: a[0].chap_count(whole=bool(a[1]), **k)),
    "list.book_count": (1, "Lb", lambda p, a, k: a[0].book_count(whole=bool(a[1]), **k)),
    "list.range": (0, "L", lambda p, a, k: a[0].range()),
    "list.chap_range": (1, "L", lambda p, a, k: a[0].chap_range(**k)),
    "list.book_range": (1, "L", lambda p, a, k: a[0].book_range(**k)),
    "list.contains": (1, "LX", lambda p, a, k: a[0].contains(a[1], **k)),
    "list.in": (0, "LX", lambda p, a, k: a[1] in a[0]),
    "list.is_disjoint": (0, "LX", lambda p, a, k: a[0].is_disjoint(a[1])),
    "list.union": (1, "LX", lambda p, a, k: a[0].union(a[1], **k)),
    "list.intersection": (1, "LX", lambda p, a, k: a[0].intersection(a[1], **k)),
    "list.difference": (1, "LX", lambda p, a, k: a[0].difference(a[1], **k)),
    "list.sym_difference": (1, "LX", lambda p, a, k: a[0].sym_difference(a[1], **k)),
    "list|": (0, "LX", lambda p, a, k: a[0] | a[1]),
    "list&": (0, "LX", lambda p, a, k: a[0] & a[1]),
    "list-": (0, "LX", lambda p, a, k: a[0] - a[1]),
    "list^": (0, "LX", lambda p, a, k: a[0] ^ a[1]),
    "list.union_update": (1, "LX", _copy_then("union_update")),
    "list.intersection_update": (1, "LX", _copy_then("intersection_update")),
    "list.difference_update": (1, "LX", _copy_then("difference_update")),
    "list.sym_difference_update": (1, "LX", _copy_then("sym_difference_update")),
    "list.merge": (1, "L", _copy_then("merge")),
    "list.regroup": (1, "L", _copy_then("regroup")),
    "list.sort": (0, "L", _copy_then("sort")),
    "list|=": (0, "LX", _iop("|")),
    "list&=": (0, "LX", _iop("&")),
    "list-=": (0, "LX", _iop("-")),
    "list^=": (0, "LX", _iop("^")),
    "list.str": (1, "Lbbbbb", _str_l),
    "list.str()": (0, "L", lambda p, a, k: str(a[0])),
    "list.eq": (0, "LL", lambda p, a, k: (a[0] == a[1], a[0] != a[1], a[0].equals(a[1], compare_groups=False))),
    "list.len": (0, "L", lambda p, a, k: (len(a[0]), len(a[0].groups))),
    "list.iter": (0, "L", lambda p, a, k: list(a[0])),
    "list.reversed": (0, "L", lambda p, a, k: list(reversed(a[0]))),
    "list.nested": (0, "L", lambda p, a, k: a[0].to_nested_lists()),
    "list.getitem": (0, "Li", lambda p, a, k: a[0][a[1]]),
    "list.group": (0, "Li", lambda p, a, k: list(a[0].groups[a[1]])),
    "list.count": (0, "LR", lambda p, a, k: a[0].count(a[1])),
    "list.index": (0, "LR", lambda p, a, k: a[0].index(a[1])),
}
FLAGGED = [n for n, o in OPS.items() if o[0]]
PARSING = {"Verse.str", "Range.str", "List.str"}
MUTATING_COPY = {n for n in OPS if n.endswith("_update") or n.endswith("=") or n in ("list.merge", "list.regroup", "list.sort")}


def call(p, c, objs=None):
    """Performs a call; returns the raw result."""
    a = [arg(p, x, objs) for x in c["a"]]
    return OPS[c["f"]][2](p, a, {} if c.get("flags") is None else {"flags": p.flagbits[c["flags"]]})


def arg(p, x, objs=None):
    if isinstance(x, list):
        k, v = x
        if k == "o":
            return objs[v]
        return build(p, x)
    return x


def build(p, x):
    k, v = x
    return p.Book[v] if k == "B" else p.verse(v) if k == "V" else p.range(v) if k == "R" else p.list(v)


def outcome(p, c, objs=None):
    return p.call(lambda: call(p, c, objs))


def gen_arg(rng, cfg, kind, v0, multi, first_book=None, share=None):
    if kind == "X":
        kind = rng.choice("VRL")
    if kind in "VRL" and share and rng.random() < 0.85:
        c = [i for i, o in enumerate(share) if o[0] == kind]
        if c:
            return ["o", rng.choice(c)]
    if kind == "B":
        return ["B", world.gen_book(rng, cfg)]
    if kind == "V":
        return ["V", world.gen_verse(rng, cfg, v0)]
    if kind == "R":
        return ["R", world.gen_range(rng, cfg, v0, multi)]
    if kind == "L":
        return ["L", world.gen_list(rng, cfg, v0, multi)]
    if kind == "c":
        return rng.choice((1, 1, 2, 3, 0, 4, 200))
    if kind == "d":
        return rng.choice((None, 1, 1, 2, 3))
    if kind == "v":
        return rng.choice((0, 0, 1, 1, 2, 3, 500))
    if kind == "i":
        return rng.choice((0, 1, 1, 2, 3, 5, 8, 13, 40))
    if kind == "m":
        return rng.choice((None, None, 1, 2, 3, 7))
    if kind == "b":
        return rng.randint(0, 1)
    if kind == "n":
        return world.book_name(rng, cfg, world.gen_book(rng, cfg)) if rng.random() < 0.85 else rng.choice(("Zzz", "", "J", "Matth "))
    if kind == "s":
        return world.gen_text(rng, cfg, v0=v0)
    raise ValueError(kind)


def gen_call(rng, cfg, v0, multi, names=None, share=None):
    f = rng.choice(names) if names else rng.choice(list(OPS))
    return {"f": f, "a": [gen_arg(rng, cfg, k, v0, multi, share=share) for k in OPS[f][1]], "flags": None}
