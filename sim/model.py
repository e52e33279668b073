"""Reference model of the package's queries: what each must answer, computed from the Bible data alone.

`queries(p, cfg, glob, rng, n)` yields (category, description, thunk, expected outcome).  Outcomes are plain data as in pkg.Pkg.enc, or
("EXC", kind).  Only answers that the documentation settles are modelled.  The data has to be complete: every book in the
order has names and chapters.
"""
import copy
import re
from . import world

ROMAN = {"1": "I", "2": "II", "3": "III"}
INVALID, MULTI = ("EXC", "InvalidRef"), ("EXC", "MultiErr")


def squeeze(s):
    return "".join(s.split()).lower()


def named(cfg, s):
    """Books that the string names, or might name (over-approximation, ignoring all white space)."""
    t = squeeze(s)
    alt = {t}
    for d, r in ROMAN.items():
        if t.startswith(r.lower()):
            alt.add(d + t[len(r):])
    out = set()
    for b, (ab, title, mn, extra) in ((b, x[:4]) for b, x in cfg.names.items()):
        full = squeeze(title)
        n = mn + (1 if title[:2] in ("1 ", "2 ", "3 ") else 0)
        for a in alt:
            if full.startswith(a) and len(a) >= min(n, len(full)) or a in map(squeeze, extra):
                out.add(b)
    return out


class Model:
    def __init__(self, p, cfg, glob, rng, pool=None, sticky=False):
        self.p, self.cfg, self.glob, self.rng = p, cfg, glob, rng
        self.pool = {} if pool is None else pool        # objects made earlier, also under other data
        self.books = cfg.books()
        self.recent = self.pool.setdefault("recent", [])
        self.sticky = rng.random() < (0.8 if sticky else 0.25)              # the same few references again and again
        self.reuse = (0.9, 0.9, 0.7) if self.sticky else (0.12, 0.3, 0.3)

    # -- flags: given to the call, or the package's own
    def flags(self):
        f = self.rng.choice((None, None, None, None, None, 3) if self.sticky else (None, None, 0, 1, 2, 3))
        self.kw = {} if f is None else {"flags": self.p.flagbits[f]}
        self.f = self.glob if f is None else f
        self.u = self.cfg.uni(self.f & 2)
        self.ft = "" if f is None else f" with flags {f}"
        return self.f

    def at(self):
        """Index of a verse, often at a boundary."""
        u, rng = self.u, self.rng
        if rng.random() < self.reuse[0] and self.recent:
            v = rng.choice(rng.choice(self.recent[-2:] if self.sticky else self.recent))
            if u.has(v):
                return u.idx[v]
        i = rng.randrange(len(u))
        k = rng.random()
        if k < 0.35:
            i = u.cspan[u.verses[i][:2]][rng.randint(0, 1)]
        elif k < 0.6:
            i = u.bspan[u.verses[i][0]][rng.randint(0, 1)]
        return i

    def span(self, multi=True, most=700):
        u, rng = self.u, self.rng
        if rng.random() < self.reuse[1] and self.recent:        # asked about before, perhaps under other data or flags
            r = rng.choice(self.recent[-2:] if self.sticky else self.recent)
            if u.ok(r):
                i, j = u.span(r)
                if i <= j <= i + most and (multi or r[0][0] == r[1][0]):
                    return i, j
        i = self.at()
        k = rng.random()
        b, c = u.bspan[u.verses[i][0]], u.cspan[u.verses[i][:2]]
        if k < 0.12:
            i, j = c
        elif k < 0.22:
            i, j = b
        elif k < 0.3:
            j = i
        elif k < 0.42:
            j = c[1]
        elif k < 0.5:
            j = b[1]
        elif k < 0.7:
            j = i + rng.randint(0, 12)
        elif k < 0.8:
            i, j = c[0], u.cspan[u.verses[min(len(u) - 1, c[1] + 1)][:2]][1]
        elif k < 0.88:
            i, j = b[0], u.bspan[u.verses[min(len(u) - 1, b[1] + 1)][0]][1]
        else:
            j = self.at()
            i, j = min(i, j), max(i, j)
        j = min(j, i + most, len(u) - 1)
        if not multi:
            j = min(j, u.bspan[u.verses[i][0]][1])
        if len(self.recent) < 40:
            self.recent.append(u.r(i, j))
        else:
            self.recent[rng.randrange(40)] = u.r(i, j)
        return i, j

    def pair(self, kind, x, y):
        """The two, or two asked about together before, perhaps under other data or flags."""
        u, rng = self.u, self.rng
        pairs = self.pool.setdefault("pairs of " + kind, [])
        if rng.random() < self.reuse[2] and pairs:
            rs = rng.choice(pairs[-2:] if self.sticky else pairs)
            if all(map(u.ok, rs)):
                sp = [u.span(r) for r in rs]
                if all(i <= j for i, j in sp):
                    return sp
        if u.verses[x[0]][0] != u.verses[y[1]][0] or rng.random() < 0.3:        # (what a change of order can affect, above all)
            if len(pairs) < 16:
                pairs.append((u.r(*x), u.r(*y)))
            else:
                pairs[rng.randrange(16)] = (u.r(*x), u.r(*y))
        return x, y

    def keep(self, key, make):
        x = self.pool.get(key) if self.rng.random() < (1 if self.sticky else 0.6) else None
        if x is None:
            x = make(key)
            if len(self.pool) < 5000:
                self.pool[key] = x
        return x

    def verse(self, v):
        return self.keep(v, self.p.verse)

    def range(self, ij):
        return self.keep(self.u.r(*ij), self.p.range)

    def edited(self, L, groups, multi=True):
        """Edits the list in place; the groups (of spans) it has then."""
        rng = self.rng
        groups = [list(g) for g in groups]
        g, k = rng.choice([(g, k) for g in range(len(groups)) for k in range(len(groups[g]))])
        n = sum(map(len, groups[:g])) + k
        how = rng.choice(("set", "set", "view", "bounds", "swap", "move", "again", "one"))
        x = self.span(multi, most=200)
        if how == "set":
            L[n] = self.range(x)
            groups[g][k] = x
        elif how == "view":
            L.groups[g][k] = self.range(x)
            groups[g][k] = x
        elif how == "swap":
            L[0], L[n] = L[n], L[0]
            groups[0][0], groups[g][k] = groups[g][k], groups[0][0]
        elif how == "move":
            del L[n]
            del groups[g][k]
            groups = [y for y in groups if y] or [[]]
            L.append(self.range(x))
            groups[-1].append(x)
        elif how == "one":
            L.clear_groups()
            groups = [sum(groups, [])]
        else:
            xs = sum(groups, [])
            cut = sorted(rng.sample(range(1, len(xs)), len(groups) - 1))          # as many groups
            groups = [xs[a:b] for a, b in zip([0] + cut, cut + [len(xs)])]
            if how == "bounds":
                L.clear_groups()
                for c in cut:
                    L.insert_group_at(c)
            else:
                L.clear()
                for y in groups:
                    L.append_group([self.range(z) for z in y])
        return groups

    def queries(self, n, cats=None):
        q = self.KINDS[None] if cats is None else [k for c in cats for k in self.KINDS[c]]
        for _ in range(n):
            self.flags()
            for x in getattr(self, "q_" + self.rng.choice(q))():
                if cats is None or x[0] in cats:
                    yield x

    KINDS = {None: ("book", "name", "verse", "verse", "range", "range", "two", "make", "text", "list", "walk", "sort", "parse", "own", "sets", "conv"),
             "name": ("name",), "arith": ("verse", "verse", "walk"), "split": ("range", "range", "range", "book", "own"), "valid": ("make", "make", "verse"),
             "order": ("book", "verse", "two", "sort"), "count": ("book", "verse", "range", "range", "two", "two", "list", "own"), "text": ("text",), "parse": ("parse", "parse", "parse", "text"), "error": ("error",), "style": ("style",),
             "sets": ("sets",), "conv": ("conv",)}

    # ---------------------------------------------------------------------------------------------------------------
    def q_book(self):
        p, cfg, rng, u, kw, ft = self.p, self.cfg, self.rng, self.u, self.kw, self.ft
        b, c = rng.choice(self.books), rng.choice(self.books)
        if rng.random() < 0.2:
            c = b
        last = self.pool.setdefault("books", [])            # asked about before, perhaps under other data or flags
        if last and rng.random() < self.reuse[0]:
            b, c = (x if x in self.books else y for x, y in zip(rng.choice(last[-2:] if self.sticky else last), (b, c)))
        last.append((b, c))
        del last[:-8]
        B, C = p.Book[b], p.Book[c]
        i, j = cfg.pos[b], cfg.pos[c]
        yield "order", f"{b} compared with {c}", lambda: [B < C, B <= C, B > C, B >= C, B == C, B != C], (i < j, i <= j, i > j, i >= j, i == j, i != j)
        yield ("count", f"{b}'s neighbours", lambda: [B.next(), B.prev()],
               tuple(("B", cfg.order[k]) if 0 <= k < len(cfg.order) else None for k in (i + 1, i - 1)))
        nch = len(cfg.maxv[b])
        yield "count", f"{b}'s chapters", lambda: [B.min_chap_num(), B.max_chap_num(), B.chap_count()], (1, nch, nch)
        s = u.bspan[b]
        yield "count", f"{b}'s verse count{ft}", lambda: B.verse_count(**kw), s[1] - s[0] + 1
        yield "count", f"{b}'s ends{ft}", lambda: [B.first_verse(**kw), B.last_verse(), B.range(**kw)], (u.verses[s[0]], u.verses[s[1]], u.r(*s))
        yield ("split", f"{b}'s chapter ranges{ft}", lambda: list(B.chap_ranges(regroup=rng.random() < 0.5, **kw)),
               tuple(u.r(*u.cspan[(b, k)]) for k in range(1, nch + 1)))
        k = rng.choice((1, nch, rng.randint(1, nch), 0, nch + 1, -1))
        if 1 <= k <= nch:
            s = u.cspan[(b, k)]
            want = u.verses[s[0]], u.verses[s[1]], u.r(*s), u.verses[s[0]][2], u.verses[s[1]][2]
        else:
            want = (INVALID,) * 5
        for fn, w in zip((lambda: B.first_verse(k, **kw), lambda: B.last_verse(k), lambda: B.chap_range(k, **kw), lambda: B.min_verse_num(k, **kw),
                          lambda: B.max_verse_num(k)), want):
            yield "count", f"{b} chapter {k}{ft}", fn, w

    def q_name(self):
        p, cfg, rng = self.p, self.cfg, self.rng
        b = rng.choice(sorted(cfg.names))
        ab, title, mn, extra = cfg.names[b][:4]
        num = title[:2] if title[:2] in ("1 ", "2 ", "3 ") else ""
        word = title[len(num):]
        k = rng.choice((len(word), min(mn, len(word)), rng.randint(min(mn, len(word)), len(word)), mn - 1))
        s = word[:max(k, 0)]
        if num and rng.random() < 0.5:
            num = rng.choice((ROMAN[num[0]] + " ", ROMAN[num[0]] + "  ", num[0], num[0] + "  "))
        s = num + s
        if k >= mn and extra and rng.random() < 0.3:
            s = rng.choice(extra)
        if " " in s and rng.random() < 0.3 and not s.startswith("I"):
            s = s.replace(" ", rng.choice(("", "  ", "\t")))
        s = rng.choice((s, s, s.upper(), s.lower(), s.swapcase()))
        s = rng.choice((s, s, " " + s, s + "  ", "\n" + s + " "))
        who = named(cfg, s)
        if len(who) > 1:
            return
        want = ("B", who.pop()) if who else None
        if want is None or want[1] == b:
            yield "name", f"the book named {s!r}", lambda: p.Book.from_str(s), want
            yield "name", f"the book named {s!r}", lambda: p.Book.from_str(s, raise_error=True), want or INVALID
        if want is None:
            yield "name", f"the verse in {s!r}", lambda: p.Verse(s, 1, 1), INVALID
        elif want[1] == b and b in self.books:
            u = self.u
            v = u.verses[u.bspan[b][1]]
            yield "name", f"the verse in {s!r}", lambda: p.Verse(s, v[1], v[2], **self.kw), v
            if len(cfg.maxv[b]) > 1 and len(s.strip()) > 1 and not any(x in s.strip() for x in ("  ", "\t")):
                s2 = s.strip()
                yield "name", f"the list in '{s2} {v[1]}'", lambda: p.List(f"{s2} {v[1]}", **self.kw), ("L", (u.r(*u.cspan[v[:2]]),))
            yield "name", f"the range of {s!r}", lambda: p.Range(s, None, None, None, v[1], v[2], **self.kw), u.r(*u.bspan[b])

    def q_verse(self):
        p, cfg, rng, u, kw, ft, f = self.p, self.cfg, self.rng, self.u, self.kw, self.ft, self.f
        i, j = self.at(), self.at()
        if rng.random() < 0.15:
            j = i
        elif rng.random() < 0.3:
            j = min(len(u) - 1, i + rng.randint(0, 3))
        (i, _), (j, _) = self.pair("verses", (i, i), (j, j))
        a, b = u.verses[i], u.verses[j]
        A, B = self.verse(a), self.verse(b)
        yield "order", f"{a} compared with {b}", lambda: [A < B, A <= B, A > B, A >= B, A == B, A != B, hash(A) == hash(B)], (i < j, i <= j, i > j, i >= j, i == j, i != j, i == j)
        n = rng.choice((0, 1, 1, 2, 5, 30, abs(i - j) if abs(i - j) < 700 else 3))
        s = u.bspan[a[0]]

        def moved(k):
            ok = s[0] <= k <= s[1] or f & 1 and 0 <= k < len(u)
            return u.verses[k] if ok else None
        yield "arith", f"{a} + {n}{ft}", lambda: A.add(n, **kw), moved(i + n)
        yield "arith", f"{a} - {n}{ft}", lambda: A.subtract(n, **kw), moved(i - n)
        if not kw:
            yield "arith", f"{a} + {n}", lambda: A + n, moved(i + n)
            yield "arith", f"{a} - {n}", lambda: A - n, moved(i - n)
        if abs(i - j) < 1500:
            yield "arith", f"{a} - {b}{ft}", lambda: A.subtract(B, **kw), i - j if a[0] == b[0] or f & 1 else MULTI
            if not kw:
                yield "arith", f"{a} - {b}", lambda: A - B, i - j if a[0] == b[0] or f & 1 else MULTI
        c = u.cspan[a[:2]]
        yield ("count", f"place of {a}{ft}", lambda: [A.is_first_in_chap(**kw), A.is_last_in_chap(), A.is_first_in_book(**kw), A.is_last_in_book()],
               (i == c[0], i == c[1], i == s[0], i == s[1]))
        yield ("count", f"bounds of {a}{ft}", lambda: [A.first_verse(**kw), A.last_verse(), A.chap_range(**kw), A.book_range(**kw), A.min_chap_num(), A.max_chap_num(),
                                              A.min_verse_num(**kw), A.max_verse_num(None)],
               (u.verses[c[0]], u.verses[c[1]], u.r(*c), u.r(*s), 1, len(cfg.maxv[a[0]]), u.verses[c[0]][2], u.verses[c[1]][2]))
        k = rng.randint(1, len(cfg.maxv[a[0]]))
        d = u.cspan[(a[0], k)]
        yield ("count", f"chapter {k} as seen from {a}{ft}", lambda: [A.first_verse(k, **kw), A.last_verse(k), A.min_verse_num(k, **kw), A.max_verse_num(k), A.is_first_in_chap(k, **kw),
                                                         A.is_last_in_chap(k)],
               (u.verses[d[0]], u.verses[d[1]], u.verses[d[0]][2], u.verses[d[1]][2], i == d[0], i == d[1]))
        yield ("count", f"book {b[0]} as seen from {a}{ft}", lambda: [A.is_first_in_book(B.book, **kw), A.is_last_in_book(B.book)],
               (i == u.bspan[b[0]][0], i == u.bspan[b[0]][1]))
        t = a[0], rng.choice((a[1], 1, len(cfg.maxv[a[0]]), len(cfg.maxv[a[0]]) + 1, 0, -1)), rng.choice((a[2], 0, 1, 3, -1, u.verses[c[1]][2], u.verses[c[1]][2] + 1))
        yield "valid", f"making {t}{ft}", lambda: p.Verse(p.Book[t[0]], t[1], t[2], **kw), t if u.has(t) else INVALID

    def q_walk(self):
        """Steps forth and back."""
        p, rng, u, kw, ft, f = self.p, self.rng, self.u, self.kw, self.ft, self.f
        if not f & 2 and rng.random() < 0.3:            # a verse 0 brings its own flag along
            w = self.cfg.uni(2)
            zeros = [i for (b, c), (i, j) in w.cspan.items() if w.verses[i][2] == 0]
            if zeros:
                i, n = rng.choice(zeros), rng.choice((0, 1, 2, 5, 12))
                lo, hi = (0, len(w) - 1) if f & 1 else w.bspan[w.verses[i][0]]
                Z = self.verse(w.verses[i])
                yield "arith", f"{w.verses[i]} + {n}{ft}", lambda: Z.add(n, **kw), w.verses[i + n] if i + n <= hi else None
                yield "arith", f"{w.verses[i]} - {n}{ft}", lambda: Z.subtract(n, **kw), w.verses[i - n] if i - n >= lo else None
        i = self.at()
        lo, hi = (0, len(u) - 1) if f & 1 else u.bspan[u.verses[i][0]]
        if rng.random() < 0.5:
            i = max(lo, min(hi, rng.choice((lo, hi)) + rng.randint(-3, 3)))
        A = self.verse(u.verses[i])
        n = rng.choice((1, 2, 3, 7, 20))

        def steps(g, k):
            out, x = [], A
            for _ in range(k):
                x = g(x)
                if x is None:
                    break
                out.append(x)
            return out
        yield ("arith", f"{n} steps on from {u.verses[i]}{ft}", lambda: steps(lambda x: x.add(1, **kw), n), tuple(u.verses[i + 1:min(hi, i + n) + 1]))
        yield ("arith", f"{n} steps back from {u.verses[i]}{ft}", lambda: steps(lambda x: x.subtract(1, **kw), n), tuple(u.verses[max(lo, i - n):i][::-1]))
        j = rng.randint(lo, hi) if hi - lo < 1500 else min(hi, i + rng.randint(0, 500))
        m = abs(i - j)
        if i <= j:
            yield "arith", f"{u.verses[i]} + {m} - {m}{ft}", lambda: A.add(m, **kw).subtract(m, **kw), u.verses[i]
        else:
            yield "arith", f"{u.verses[i]} - {m} + {m}{ft}", lambda: A.subtract(m, **kw).add(m, **kw), u.verses[i]

    def q_sort(self):
        p, rng, u = self.p, self.rng, self.u
        xs = [self.at() for _ in range(rng.randint(2, 9))]
        xs += [rng.choice(xs) for _ in range(rng.randint(0, 2))]
        vs = [self.verse(u.verses[i]) for i in xs]
        t = f"{[u.verses[i] for i in xs]}"
        yield ("order", f"order of {t}", lambda: [sorted(vs), sorted(vs, reverse=True), min(vs), max(vs), sorted(dict.fromkeys(vs))],
               (tuple(u.verses[i] for i in sorted(xs)), tuple(u.verses[i] for i in sorted(xs, reverse=True)), u.verses[min(xs)], u.verses[max(xs)], tuple(u.verses[i] for i in sorted(set(xs)))))
        xs = [self.span() for _ in range(rng.randint(2, 6))]
        for _ in range(rng.randint(0, 3)):
            i, j = rng.choice(xs)
            k = rng.choice(xs)[1]
            xs.append((i, max(i, rng.choice((j, k, i)))))
        rs = [self.range(x) for x in xs]
        t = f"{[u.r(*x) for x in xs]}"
        yield ("order", f"order of {t}", lambda: [sorted(rs), min(rs), max(rs), sorted(dict.fromkeys(rs))],
               (tuple(u.r(*x) for x in sorted(xs)), u.r(*min(xs)), u.r(*max(xs)), tuple(u.r(*x) for x in sorted(set(xs)))))

        def listed():
            L = p.List(rs)
            L.sort()
            return list(L)
        yield "order", f"sorted list of {t}", listed, tuple(u.r(*x) for x in sorted(xs))
        if rng.random() < 0.5:                  # sorted again after an edit
            L = p.List(rs)
            L.sort(regroup=False)
            ys = sum(self.edited(L, [sorted(xs)]), [])

            def again():
                L.sort(regroup=False)
                return list(L)
            yield "order", f"sorted list of {[u.r(*x) for x in ys]}, sorted before the last edit", again, tuple(u.r(*x) for x in sorted(ys))

    def counts(self, i, j):
        u = self.u
        out = []
        for spans in (u.cspan, u.bspan):
            part = whole = 0
            k = i
            while k <= j:
                s = spans[u.verses[k][:2] if spans is u.cspan else u.verses[k][0]]
                part += 1
                whole += s[0] >= i and s[1] <= j
                k = s[1] + 1
            out += [part, whole]
        return out

    def split(self, i, j, by_book, by_chap, num):
        u = self.u
        out = []
        while i <= j:
            e = j
            if by_book:
                e = min(e, u.bspan[u.verses[i][0]][1])
            if by_chap:
                e = min(e, u.cspan[u.verses[i][:2]][1])
            while i <= e:
                k = min(e, i + num - 1) if num else e
                out.append(u.r(i, k))
                i = k + 1
        return tuple(out)

    def q_range(self):
        p, cfg, rng, u, kw, ft, f = self.p, self.cfg, self.rng, self.u, self.kw, self.ft, self.f
        i, j = self.span()
        R = self.range((i, j))
        a, b = u.verses[i], u.verses[j]
        t = f"{a}-{b}{ft}"
        cs, ce, bs, be = u.cspan[a[:2]], u.cspan[b[:2]], u.bspan[a[0]], u.bspan[b[0]]
        yield ("count", f"extent of {t}", lambda: [R.is_single_verse(), R.is_whole_chap(**kw), R.is_whole_book(**kw), R.spans_start_chap(**kw), R.spans_end_chap(**kw),
                                          R.spans_start_book(**kw), R.spans_end_book(**kw)],
               (i == j, (i, j) == cs, (i, j) == bs, i == cs[0] and j >= cs[1], j == ce[1] and i <= ce[0], i == bs[0] and j >= bs[1], j == be[1] and i <= be[0]))
        yield ("count", f"counts of {t}", lambda: [R.verse_count(**kw), R.chap_count(**kw), R.chap_count(whole=True, **kw), R.book_count(**kw), R.book_count(whole=True, **kw)],
               (j - i + 1, *self.counts(i, j)))
        yield "count", f"chapters and books around {t}", lambda: [R.chap_range(**kw), R.book_range(**kw)], (u.r(cs[0], ce[1]), u.r(bs[0], be[1]))
        x = rng.random() < 0.5, rng.random() < 0.5, rng.choice((None, None, 1, 2, 3, 7, 100))
        if not x[2] or (j - i) / x[2] < 150:
            yield ("split", f"split{x} of {t}", lambda: list(R.split(by_book=x[0], by_chap=x[1], num_verses=x[2], regroup=rng.random() < 0.5, **kw)),
                   self.split(i, j, *x))
            if rng.random() < 0.3:
                def grouped():
                    L = R.split(by_book=x[0], by_chap=x[1], num_verses=x[2], **kw)
                    M = R.split(by_book=x[0], by_chap=x[1], num_verses=x[2], regroup=False, **kw)
                    K = p.List(list(M))
                    one = M == K
                    K.regroup(**kw)
                    return [one, L == K]
                yield "split", f"the groups in split{x} of {t}", grouped, (True, True)
        if not kw and j - i < 200:
            yield "split", f"the verses of {t}", lambda: list(R), tuple(u.verses[i:j + 1])

    def q_own(self):
        """Ranges whose ends are verse 0s count and split with verse 0s, whatever the flags."""
        p, rng, kw, ft, f = self.p, self.rng, self.kw, self.ft, self.f
        u = self.cfg.uni(2)
        zeros = [i for (b, c), (i, j) in u.cspan.items() if u.verses[i][2] == 0]
        if f & 2 or not zeros:
            return
        i = rng.choice(zeros)
        j = min(len(u) - 1, i + rng.choice((0, 2, 5, 9, 20, 60)))
        if rng.random() < 0.3:
            i, j = max(0, i - rng.choice((0, 2, 5, 9))), i
        elif rng.random() < 0.4:                # to the end of the chapter or the book
            b, c = u.verses[i][:2]
            if rng.random() < 0.5:
                c = max(k[1] for k in u.cspan if k[0] == b)
            j = u.cspan[b, c][1]
        R = self.keep(u.r(i, j), p.range)
        t = f"{u.r(i, j)}{ft}"
        b, c = u.verses[j][:2]
        lastc = max(k[1] for k in u.cspan if k[0] == b)
        ends = []
        for first, last in ((c, c), (1, lastc)):
            lo = u.cspan[b, first][0]
            lo += u.verses[lo][2] == 0          # the first verse under the flags, which leave verse 0s out
            ends.append(j == u.cspan[b, last][1] and i <= lo)
        yield "count", f"whether {t} includes all of the chapter and book it ends in", lambda: [R.spans_end_chap(**kw), R.spans_end_book(**kw)], tuple(ends)
        yield "count", f"verse count of {t}", lambda: R.verse_count(**kw), j - i + 1
        x = rng.random() < 0.5, rng.random() < 0.5, rng.choice((None, None, 1, 2, 3, 7, 100))
        old, self.u = self.u, u
        want = self.split(i, j, *x)
        self.u = old
        yield "split", f"split{x} of {t}", lambda: list(R.split(by_book=x[0], by_chap=x[1], num_verses=x[2], **kw)), want

    def q_two(self):
        p, rng, u, kw, ft, f = self.p, self.rng, self.u, self.kw, self.ft, self.f
        x = self.span(most=200)
        y = self.span(most=200)
        k = rng.random()
        if k < 0.3 and x[1] + 1 < len(u):
            y = x[1] + 1, min(len(u) - 1, x[1] + 1 + rng.randint(0, 4))
        elif k < 0.6:
            y = tuple(sorted((rng.randint(*x), rng.randint(*x))))
            if rng.random() < 0.4:
                y = max(0, y[0] - rng.randint(0, 3)), min(len(u) - 1, y[1] + rng.randint(0, 3))
        if rng.random() < 0.5:
            x, y = y, x
        x, y = self.pair("ranges", x, y)
        R, S = self.range(x), self.range(y)
        t = f"{u.r(*x)} and {u.r(*y)}{ft}"
        yield ("order", f"comparison of {t}", lambda: [R < S, R <= S, R > S, R >= S, R == S, R != S, hash(R) == hash(S)], (x < y, x <= y, x > y, x >= y, x == y, x != y, x == y))
        lo, hi = sorted((x, y))
        inside = x[0] <= y[0] and y[1] <= x[1]
        within = x[0] < y[0] and y[1] < x[1]
        adj = lo[1] + 1 == hi[0] and (f & 1 or u.verses[lo[1]][0] == u.verses[hi[0]][0])
        forms = [("range", S)]
        if y[0] == y[1]:
            forms.append(("verse", S.start))
        forms.append(("list", p.List([S])))
        z = self.span(most=60)
        if rng.random() < 0.5:
            w = rng.choice((x[1] + 1, x[0] - 1, x[0], x[1], rng.randint(*x)))
            w = max(0, min(len(u) - 1, w))
            z = (w, min(len(u) - 1, w + rng.randint(0, 3)))
        T = self.range(z)
        M = p.List([S, T] if rng.random() < 0.5 else [[T], [S]])
        yz = (y, z)
        apart = all(x[1] < w[0] or w[1] < x[0] for w in yz)

        def next_to(v, w):
            lo, hi = sorted((v, w))
            return lo[1] + 1 == hi[0] and (f & 1 or u.verses[lo[1]][0] == u.verses[hi[0]][0])
        yield ("count", f"relation of {u.r(*x)} and the list of {u.r(*y)} and {u.r(*z)}{ft}",
               lambda: [R.is_disjoint(M), R.surrounds(M), R.is_adjacent(M, **kw)],
               (apart, all(x[0] < w[0] and w[1] < x[1] for w in yz), bool(apart and any(next_to(x, w) for w in yz))))
        if self.glob & 1:
            yield ("count", f"whether {u.r(*x)} contains the list of {u.r(*y)} and {u.r(*z)}", lambda: [R.contains(M), M in R],
                   (all(x[0] <= w[0] and w[1] <= x[1] for w in yz),) * 2)
        for form, O in forms:
            yield ("count", f"relation of {t} (a {form})", lambda: [R.is_disjoint(O), R.contains(O), O in R, R.surrounds(O), R.is_adjacent(O, **kw)],
                   (lo[1] < hi[0], inside, inside, within, bool(adj)))

    def q_make(self):
        p, cfg, rng, u, kw, ft, f = self.p, self.cfg, self.rng, self.u, self.kw, self.ft, self.f
        i, j = self.span()
        if rng.random() < 0.4:
            j = self.at()
        a, b = u.verses[i], u.verses[j]
        lo, hi = min(i, j), max(i, j)
        A, B = self.verse(a), self.verse(b)
        N = rng.random() < 0.3

        def name(x):
            return cfg.names[x][1] if N and len(named(cfg, cfg.names[x][1])) == 1 else p.Book[x]
        BA, BB = name(a[0]), name(b[0])
        bad = a[0] != b[0] and not f & 1
        whole = MULTI if bad else u.r(lo, hi)
        forms = [(f"start {a}, end {b}", lambda: p.Range(start=A, end=B, **kw), whole),
                 (f"{a} to {b}", lambda: p.Range(BA, a[1], a[2], BB, b[1], b[2], **kw), whole)]
        if a[0] == b[0]:
            forms.append((f"{a} to {b[1:]}", lambda: p.Range(BA, a[1], a[2], None, b[1], b[2], **kw), whole))
            c, d = sorted((a[1], b[1]))
            forms.append((f"{a[0]} {a[1]}-{b[1]}", lambda: p.Range(BA, a[1], None, None, b[1], **kw), (u.verses[u.cspan[(a[0], c)][0]], u.verses[u.cspan[(a[0], d)][1]])))
            forms.append((f"{a[0]} to chapter {b[1]}", lambda: p.Range(BA, None, None, None, b[1], **kw), (u.verses[u.bspan[a[0]][0]], u.verses[u.cspan[b[:2]][1]])))
            if a[1] == b[1]:
                forms.append((f"{a} to verse {b[2]}", lambda: p.Range(BA, a[1], a[2], None, None, b[2], **kw), whole))
            d1 = u.cspan[(a[0], 1)]
            v = rng.choice((1, u.verses[d1[1]][2], u.verses[d1[1]][2] + 1))
            forms.append((f"{a[0]} to verse {v}", lambda: p.Range(BA, None, None, None, None, v, **kw), (u.verses[d1[0]], (a[0], 1, v)) if (a[0], 1, v) in u.idx else INVALID))
        else:
            w = [u.bspan[a[0]], u.bspan[b[0]]]
            w = u.r(min(w)[0], max(w)[1])
            forms.append((f"{a[0]} to verse {b[2]} of {b[0]}", lambda: p.Range(BA, a[1], a[2], BB, None, b[2], **kw), INVALID))
            forms.append((f"{a[0]} to {b[0]}", lambda: p.Range(BA, None, None, BB, **kw), MULTI if bad else w))
        if not N:
            forms.append((f"{a[0]}", lambda: p.Range(BA, **kw), u.r(*u.bspan[a[0]])))
        forms.append((f"{a[0]} {a[1]}", lambda: p.Range(BA, a[1], **kw), u.r(*u.cspan[a[:2]])))
        forms.append((f"{a}", lambda: p.Range(BA, *a[1:], **kw), (a, a)))
        n, m = len(cfg.maxv[a[0]]) + 1, u.verses[u.cspan[a[:2]][1]][2] + 1
        forms.append((f"{a[0]} {n}", lambda: p.Range(BA, n, **kw), INVALID))
        forms.append((f"{a[:2]} {m}", lambda: p.Range(BA, a[1], m, **kw), INVALID))
        forms.append((f"{a} to chapter {n}", lambda: p.Range(BA, a[1], a[2], None, n, **kw), INVALID))
        for t, fn, w in rng.sample(forms, 3):
            yield "valid", f"range made of {t}{ft}", fn, w
        yield "count", f"the whole Bible{ft}", lambda: p.Range.whole_bible(**kw), u.r(0, len(u) - 1)

    # -- text: forms that are the same for parsing and formatting
    def text(self, i, j, full=False):
        """Text of a span; None if only its parsing is settled."""
        u, cfg = self.u, self.cfg
        a, b = u.verses[i], u.verses[j]
        sep = cfg.seps[3]
        one = len(cfg.maxv[a[0]]) == 1
        T = cfg.names[a[0]][1]
        if (i, j) == u.bspan[a[0]] and not full:
            return T
        if (i, j) == u.cspan[a[:2]] and not full:
            return f"{T} {a[1]}"
        va = f"{a[2]}" if one else f"{a[1]}{sep}{a[2]}"
        if i == j:
            return f"{T} {va}"
        if a[0] != b[0]:
            vb = f"{cfg.names[b[0]][1]} " + (f"{b[2]}" if len(cfg.maxv[b[0]]) == 1 else f"{b[1]}{sep}{b[2]}")
        else:
            vb = f"{b[2]}" if one or a[1] == b[1] else f"{b[1]}{sep}{b[2]}"
        return f"{T} {va}{cfg.seps[0]}{vb}"

    def q_text(self):
        p, cfg, rng, u, kw, ft, f = self.p, self.cfg, self.rng, self.u, self.kw, self.ft, self.f
        good = [b for b in self.books if len(named(cfg, cfg.names[b][1])) == 1]
        groups, want, clear = [], [], True
        for _ in range(rng.choice((1, 1, 2, 3))):
            g, w = [], []
            for _ in range(rng.choice((1, 1, 2))):
                i, j = self.span()
                full = rng.random() < 0.4
                if u.verses[i][0] not in good or u.verses[j][0] not in good:
                    return
                bad = u.verses[i][0] != u.verses[j][0] and not f & 1
                if bad:
                    clear = False
                g.append(self.text(i, j, full))
                w.append(u.r(i, j))
            groups.append(g)
            want.append(tuple(w))
        s = (cfg.seps[1] + " ").join((cfg.seps[2] + " ").join(g) for g in groups)
        kind = ("L", *want) if clear else ("EXC", "ParseError")
        yield "parse", f"the list in {s!r}{ft}", lambda: p.List(s, **kw), kind
        if clear and len(want) == 1 and len(want[0]) == 1:
            yield "parse", f"the range in {s!r}{ft}", lambda: p.Range(s, **kw), want[0][0]
            i, j = u.span(want[0][0])
            yield "parse", f"the verse in {s!r}{ft}", lambda: p.Verse(s, **kw), u.verses[i] if i == j else INVALID
            if i == j or (i, j) == u.bspan[u.verses[i][0]] or u.verses[i][:2] == u.verses[j][:2] and len(cfg.maxv[u.verses[i][0]]) > 1 and i != u.cspan[u.verses[i][:2]][0]:
                R, t = self.range((i, j)), self.text(i, j)
                if (i, j) == u.bspan[u.verses[i][0]] or i == j and u.cspan[u.verses[i][:2]] != (i, i) or i < j < u.bspan[u.verses[i][0]][1]:
                    yield "text", f"the text of {want[0][0]}{ft}", lambda: [R.str(**kw), p.List([R]).str(**kw)], (t, t)
                    ab = cfg.names[u.verses[i][0]][0]
                    t2 = ab + t[len(cfg.names[u.verses[i][0]][1]):]
                    yield "text", f"the short text of {want[0][0]}{ft}", lambda: [R.str(abbrev=True, **kw), R.str(abbrev=True, nospace=True, **kw)], (t2, t2.replace(" ", ""))

    # -- reference strings: generated together with what they mean
    def spell(self, err, foreign=0.0):
        """(text, groups of spans, None), or (text, None, where the first offending reference is)."""
        cfg, rng, u, f = self.cfg, self.rng, self.u, self.f
        good = [b for b in self.books if len(named(cfg, cfg.names[b][1])) == 1]
        if not good:
            return None
        rs, major, minor, std, alt = cfg.seps
        st = {"book": None, "chap": None, "verses": False}
        where = None

        def chap_of(b):
            n = len(cfg.maxv[b])
            return rng.choice((1, n, rng.randint(1, n))) if not err or rng.random() < 0.6 else rng.choice((0, n + 1, n + 5, 300))

        def verse_of(b, c):
            s = u.cspan.get((b, c))
            if s is None:
                return rng.randint(1, 3)
            lo, hi = u.verses[s[0]][2], u.verses[s[1]][2]
            return rng.choice((lo, hi, rng.randint(lo, hi))) if not err or rng.random() < 0.6 else rng.choice((0, hi + 1, 400))

        def name(b):
            ab, title, mn, extra = cfg.names[b][:4]
            c = [title, title, title.upper(), title.lower()]
            if len(ab) > 1 and named(cfg, ab) == {b}:
                c += [ab, ab, ab.lower()]
            return rng.choice(c)

        def single(first):
            """(text, first verse, last verse), or None in place of the verses if there is no such thing."""
            k = rng.random()
            b = st["book"]
            if (b is None and rng.random() < 0.95) or rng.random() < 0.35:
                b = rng.choice(good)
                t = name(b)
                one = len(cfg.maxv[b]) == 1
                if k < 0.3:
                    st.update(book=b, verses=False)
                    return t, u.bspan[b]
                t += rng.choice((" ", " ", " ", "", "  "))
                if k < 0.6:
                    if one:
                        v = verse_of(b, 1)
                        st.update(book=b, chap=1, verses=True)
                        return t + str(v), point(b, 1, v)
                    c = chap_of(b)
                    st.update(book=b, chap=c, verses=False)
                    return t + str(c), u.cspan.get((b, c))
                c = chap_of(b)
                v = verse_of(b, c)
                st.update(book=b, chap=c, verses=True)
                return t + str(c) + vsep() + str(v), point(b, c, v)
            if b is None:
                return rng.choice(("3", "3" + vsep() + "4")), None
            if k < 0.4:
                c = chap_of(b)
                v = verse_of(b, c)
                st.update(chap=c, verses=True)
                return str(c) + vsep() + str(v), point(b, c, v)
            if st["verses"] or len(cfg.maxv[b]) == 1:
                if len(cfg.maxv[b]) == 1:
                    st["chap"] = 1
                v = verse_of(b, st["chap"])
                return str(v), point(b, st["chap"], v)
            c = chap_of(b)
            return str(c), u.cspan.get((b, c))

        def point(b, c, v):
            i = u.idx.get((b, c, v))
            return None if i is None else (i, i)

        def vsep():
            return rng.choice(("", "", "", " ")) + (std if rng.random() < 0.7 else alt) + rng.choice(("", "", "", " "))
        n = rng.choice((1, 1, 2, 3, 5))
        text, groups = rng.choice(("", "", " ")), [[]]
        for k in range(n):
            begin = len(text)
            self.last_dual = False
            t, span = single(k == 0)
            text += t
            if span is None and where is None:
                where = (begin, len(text))
            if rng.random() < 0.35:
                text += rng.choice(("", "", " ")) + rs + rng.choice(("", "", " "))
                at = len(text)
                self.last_dual = True
                t, to = single(False)
                text += t
                if to is None and where is None:
                    where = (at, len(text))
                if span is not None and to is not None:
                    # from the start of the first to the end of the second, exchanged if the wrong way round
                    span = (span[0], to[1]) if span[0] <= to[1] else (to[1], span[0])
                    if u.verses[span[0]][0] != u.verses[span[1]][0] and not f & 1 and where is None:
                        where = (begin, len(text))
            groups[-1].append(span)
            if k + 1 < n or rng.random() < 0.1:
                if rng.random() < 0.5:
                    text += rng.choice(("", "", " ")) + major + rng.choice(("", " ", " "))
                    st["verses"] = False
                    groups.append([])
                else:
                    text += rng.choice(("", "", " ")) + minor + rng.choice(("", " ", " "))
        return (text, groups, None) if where is None else (text, None, where)

    def q_parse(self):
        p, rng, u, kw, ft = self.p, self.rng, self.u, self.kw, self.ft
        r = self.spell(rng.random() < 0.12)
        if r is None:
            return
        text, groups, where = r
        if where is None:
            want = tuple(tuple(u.r(*x) for x in g) for g in groups if g)
            yield "parse", f"the list in {text!r}{ft}", lambda: p.List(text, **kw), ("L", *want)
            if len(want) == 1 and len(want[0]) == 1:
                r = want[0][0]
                yield "parse", f"the range in {text!r}{ft}", lambda: p.Range(text, **kw), r
                yield "parse", f"the verse in {text!r}{ft}", lambda: p.Verse(text, **kw), r[0] if r[0] == r[1] else INVALID
            elif rng.random() < 0.2:
                yield "parse", f"the range in {text!r}{ft}", lambda: p.Range(text, **kw), INVALID
                yield "parse", f"the verse in {text!r}{ft}", lambda: p.Verse(text, **kw), INVALID
        else:
            yield "parse", f"the list in {text!r}{ft}", lambda: p.List(text, **kw), ("EXC", "ParseError")

    def q_error(self):
        """Where errors point: at the first reference that does not exist, a name that is none, or where the string stops making sense."""
        p, cfg, rng, kw, ft = self.p, self.cfg, self.rng, self.kw, self.ft
        k = rng.random()
        r = self.spell(k < 0.6)
        if r is None:
            return
        text, groups, where = r
        rs, major, minor, std, alt = cfg.seps
        if where is None:
            if k < 0.6:
                return
            text = text.rstrip()
            if text[-1:] in (major, minor):
                text = text[:-1].rstrip()
            sp = rng.choice(("", " "))
            if k < 0.7:                     # a separator too many
                text += sp + rng.choice((major, minor)) + sp
                where = (len(text), len(text) + 1)
                text += rng.choice((major, minor, rs, std, alt)) + rng.choice(("", " 2", "3", " " + cfg.names[cfg.order[0]][1]))
            elif k < 0.8:                   # breaks off
                if rng.random() < 0.05:
                    text = sp
                elif self.last_dual:
                    text += sp + rng.choice((major, minor)) + sp + cfg.names[cfg.order[0]][1] + sp + rs + sp
                else:
                    text += sp + rs + sp
                where = (len(text), len(text))
            elif k < 0.83 and self.last_dual:
                text += sp
                where = (len(text), len(text) + 1)
                text += rs + rng.choice(("", "1", " 1" + std + "1"))
            elif k < 0.9:                   # begins with a separator
                sp = rng.choice(("", " "))
                where = (len(sp), len(sp) + 1)
                text = sp + rng.choice(cfg.seps) + text
            else:                           # a name that is none
                t = rng.choice(("Zzyx", "Qqq", "4 Qqq", "zz zz"))
                words = re.findall(r"[^\W\d_]{3,}", text)
                if words and rng.random() < 0.5:            # a piece of what comes before
                    w = rng.choice(words)
                    i = rng.randrange(len(w) - 1)
                    t = w[i:rng.randint(i + 2, len(w))]
                if named(cfg, t):
                    return
                text += sp + rng.choice((major, minor)) + sp
                where = (len(text), len(text) + len(t))
                text += t + rng.choice(("", " 3", " 3" + std + "4", major + "5"))

        def pointed(make):
            def fn():
                try:
                    return ["no error", p.enc(make(text, **kw))]
                except p.ParseError as e:
                    return [e.start_pos, e.end_pos]
            return fn
        for what, make in (("list", p.List), ("range", p.Range), ("verse", p.Verse))[:rng.choice((1, 1, 3))]:
            yield "error", f"where {text!r} cannot be read as a {what}{ft}", pointed(make), where

    # -- spelling: what the options of str() change, and what they leave
    def q_style(self):
        p, cfg, rng, u, kw, ft, f = self.p, self.cfg, self.rng, self.u, self.kw, self.ft, self.f
        rs, major, minor, std, alt = cfg.seps
        titles = {cfg.names[b][1]: cfg.names[b][0] for b in cfg.order}
        if len(titles) < len(cfg.order) or any(c in t for t in titles for c in cfg.seps) or len(set(cfg.seps)) < 5:
            return
        full = re.compile("|".join(re.escape(t) for t in sorted(titles, key=lambda t: (-len(t), t))))

        def short(t):
            return full.sub(lambda m: titles[m[0]], t)
        k = rng.random()
        if k < 0.3:
            v = u.verses[self.at()]
            V, (b, c, n) = self.verse(v), v
            one = len(cfg.maxv[b]) == 1
            ab, T = cfg.names[b][:2]
            cv = {s: str(n) if one else f"{c}{s}{n}" for s in (std, alt)}
            yield ("style", f"spellings of {v}", lambda: [str(V), V.str(abbrev=True), V.str(alt_sep=True), V.str(nospace=True), V.str(abbrev=True, alt_sep=True, nospace=True)],
                   (f"{T} {cv[std]}", f"{ab} {cv[std]}", f"{T} {cv[alt]}", f"{T} {cv[std]}".replace(" ", ""), f"{ab} {cv[alt]}".replace(" ", "")))
            B = p.ref.BibleVersePart
            yield ("style", f"parts of {v}", lambda: [V.str(verse_parts=x) for x in (B.BOOK, B.CHAP, B.VERSE, B.BOOK_CHAP, B.CHAP_VERSE)],
                   (T, "" if one else str(c), str(n), T if one else f"{T} {c}", cv[std]))
            return
        if k < 0.6:
            i, j = self.span()
            R = self.range((i, j))
            a, b = u.verses[i], u.verses[j]
            what = f"the range {u.r(i, j)}{ft}"
            if a[0] == b[0] and a[1] < b[1] and i == u.cspan[a[:2]][0] and j < u.cspan[b[:2]][1]:
                T, end = cfg.names[a[0]][1], f"{b[1]}{std}{b[2]}"
                L = p.List([R])
                yield ("style", f"start verse of {what}", lambda: [x.str(force_start_verses=y, **kw) for x in (R, L) for y in (True, False)],
                       (f"{T} {a[1]}{std}{a[2]}{rs}{end}", f"{T} {a[1]}{rs}{end}") * 2)
        else:
            R = None
            xs = [self.span(most=200) for _ in range(rng.randint(1, 5))]
            cut = sorted(rng.sample(range(1, len(xs)), rng.randint(0, len(xs) - 1)))
            groups = [xs[x:y] for x, y in zip([0] + cut, cut + [len(xs)])]
            L = p.List([[self.range(x) for x in g] for g in groups])
        force = {"force_start_verses": True} if rng.random() < 0.4 else {}
        if R is not None:
            alone = i == j or (i, j) in (u.cspan[a[:2]], u.bspan[a[0]])
            yield "style", f"whether {what} is written with start and end", lambda: [R.str(**force, **kw).count(rs), p.List([R]).str(**force, **kw).count(rs)], (int(not alone),) * 2
            yield from self.options(R, what, force, short)
            return
        yield from self.list_styles(L, groups, force, short)
        if rng.random() < 0.5:
            yield from self.list_styles(L, self.edited(L, groups), force, short)

    def options(self, X, what, force, short):
        kw = self.kw
        rs, major, minor, std, alt = self.cfg.seps

        def options():
            base = X.str(**force, **kw)
            new = {"alt_sep": lambda t: t.replace(std, alt), "nospace": lambda t: t.replace(" ", ""), "abbrev": short}
            bad = []
            for opts in (("alt_sep",), ("nospace",), ("abbrev",), ("abbrev", "alt_sep", "nospace")):
                want = base
                for o in opts:
                    want = new[o](want)
                got = X.str(**{o: True for o in opts}, **force, **kw)
                if got != want:
                    bad.append((*opts, got, want))
            if not kw and not force and str(X) != base:
                bad.append(("str()", str(X), base))
            return bad
        yield "style", f"what options change in the text of {what}", options, ()

    def list_styles(self, L, groups, force, short):
        p, cfg, rng, u, kw, ft, f = self.p, self.cfg, self.rng, self.u, self.kw, self.ft, self.f
        rs, major, minor, std, alt = cfg.seps
        xs = sum(groups, [])
        enc = tuple(tuple(u.r(*x) for x in g) for g in groups)
        what = f"the list {enc}{ft}"
        allowed = f & 1 or all(u.verses[i][0] == u.verses[j][0] for i, j in xs)
        yield from self.options(L, what, force, short)
        yield ("style", f"separators in {what}", lambda: (lambda t: [t.count(major), t.count(minor), set(t) & set(cfg.seps) <= {rs, major, minor, std}])(L.str(**force, **kw)),
               (len(groups) - 1, len(xs) - len(groups), True))

        def single(x):
            b = u.verses[x[0]]
            return x[0] == x[1] or x == u.cspan[b[:2]] or x == u.bspan[b[0]]
        least = sum(not single(x) for x in xs)
        most = least + sum(x == u.cspan[u.verses[x[0]][:2]] for g in groups for x in g[1:])       # a whole chapter among verses has to be written with its verses
        yield "style", f"how many of {what} are written with start and end", lambda: (lambda n: n if n < least or n > most else True)(L.str(**force, **kw).count(rs)), True

        def regrouped():
            K = p.List([[self.range(x) for x in g] for g in groups])
            K.regroup(**kw)
            t = L.str(preserve_groups=False, **force, **kw)
            out = [list(K) == list(L), K.str(**force, **kw) == t]
            if allowed:
                out.append(p.List(t, **kw) == K)
            return out
        yield "style", f"natural groups of {what}", regrouped, (True,) * (3 if allowed else 2)
        if allowed:
            yield "style", f"reading back the text of {what}", lambda: p.List(L.str(**force, **kw), **kw), ("L", *enc)

    def q_list(self):
        p, rng, u, kw, ft, f = self.p, self.rng, self.u, self.kw, self.ft, self.f
        xs = [self.span(most=200) for _ in range(rng.randint(1, 4))]
        if rng.random() < 0.4 and xs[0][1] + 1 < len(u):
            xs.append((xs[0][1] + 1, min(len(u) - 1, xs[0][1] + 1 + rng.randint(0, 5))))
        rng.shuffle(xs)
        k = rng.randint(0, len(xs))
        groups = [g for g in (xs[:k], xs[k:]) if g]
        L = p.List([[self.range(x) for x in g] for g in groups])
        yield from self.list_counts(L, xs)
        if rng.random() < 0.5:
            yield from self.list_counts(L, sum(self.edited(L, groups), []))

    def list_counts(self, L, xs):
        p, rng, u, kw, ft, f = self.p, self.rng, self.u, self.kw, self.ft, self.f
        t = f"{[u.r(*x) for x in xs]}{ft}"
        c = [self.counts(*x) for x in xs]
        yield ("count", f"counts of {t}", lambda: [L.verse_count(**kw), L.chap_count(**kw), L.chap_count(whole=True, **kw), L.book_count(**kw), L.book_count(whole=True, **kw)],
               (sum(j - i + 1 for i, j in xs), *(sum(y[m] for y in c) for m in range(4))))
        i, j = min(x[0] for x in xs), max(x[1] for x in xs)
        a, b = u.verses[i], u.verses[j]
        yield ("count", f"extent of {t}", lambda: [L.range(), L.chap_range(**kw), L.book_range(**kw)],
               (u.r(i, j), u.r(u.cspan[a[:2]][0], u.cspan[b[:2]][1]), u.r(u.bspan[a[0]][0], u.bspan[b[0]][1])))
        y = self.span(most=60)
        S = self.range(y)
        m, my = u.mask([u.r(*x) for x in xs]), u.mask([u.r(*y)])
        yield "count", f"disjointness of {t} and {u.r(*y)}", lambda: [L.is_disjoint(S), S.is_disjoint(L)], (m & my == 0,) * 2
        if f & 1:
            yield "count", f"whether {u.r(*y)} is in {t}", lambda: L.contains(S, **kw), my & ~m == 0

    def q_sets(self):
        """Set algebra between verses, ranges and lists: exactly the verses, as the longest ranges that the flags allow."""
        p, rng, u, kw, ft, f = self.p, self.rng, self.u, self.kw, self.ft, self.f
        multi = bool(f & 1)
        x0 = self.span(multi, most=200)

        def near():
            k = rng.random()
            if k < 0.3:
                return self.span(multi, most=200)
            i, j = rng.choice(((x0[0], x0[1]), (x0[1] + 1, x0[1] + rng.randint(1, 6)), (x0[0] - rng.randint(1, 6), x0[0] - 1), u.bspan[u.verses[x0[1]][0]],
                               (x0[0] + rng.randint(-2, 2), x0[1] + rng.randint(-2, 2)), (rng.randint(*x0),) * 2))
            i = max(0, min(len(u) - 1, i))
            j = max(i, min(len(u) - 1, j))
            if not multi:
                j = min(j, u.bspan[u.verses[i][0]][1])
            return i, j
        forms = []
        for first in (True, False):
            xs = [x0 if first else near()]
            kind = rng.choice(("range", "list") if first else ("verse", "range", "list", "list"))
            if kind == "verse":
                xs = [(xs[0][0],) * 2]
            elif kind == "list":
                xs += [near() for _ in range(rng.choice((0, 1, 1, 2, 3)))]
                rng.shuffle(xs)
                if rng.random() < 0.06:
                    xs = []
            forms.append((kind, xs, rng.randint(0, len(xs))))
        if forms[0][0] == "range" and forms[1][0] != "list" and multi:
            x, y = self.pair("operands", x0, forms[1][1][0])
            forms = [("range", [x], 0), (forms[1][0] if y[0] == y[1] else "range", [y], 0)]

        def make(kind, xs, k):
            if kind == "list":
                return p.List([g for g in ([self.range(x) for x in xs[:k]], [self.range(x) for x in xs[k:]]) if g])
            return self.verse(u.verses[xs[0][0]]) if kind == "verse" else self.range(xs[0])

        A, B = make(*forms[0]), make(*forms[1])
        yield from self.set_queries(A, B, forms, rng.randrange(4))
        if rng.random() < 0.4:                  # again after a list was edited
            n = rng.choice([n for n in (0, 1) if forms[n][0] == "list" and forms[n][1]] or (None,))
            if n is not None:
                kind, xs, k = forms[n]
                forms[n] = kind, sum(self.edited((A, B)[n], [g for g in (xs[:k], xs[k:]) if g], multi), []), 0
                yield from self.set_queries(A, B, forms, rng.randrange(4))

    def set_queries(self, A, B, forms, n):
        p, u, kw, ft, f = self.p, self.u, self.kw, self.ft, self.f
        multi = bool(f & 1)

        def plain(m):
            out = []
            for i, j in u.runs(m):
                while not multi and u.bspan[u.verses[i][0]][1] < j:
                    e = u.bspan[u.verses[i][0]][1]
                    out.append(u.r(i, e))
                    i = e + 1
                out.append(u.r(i, j))
            return tuple(out)
        ma, mb = (u.mask([u.r(*x) for x in xs]) for _, xs, _ in forms)
        t = " and ".join(f"the {kind} {[u.r(*x) for x in xs]}" for kind, xs, _ in forms) + ft
        want = tuple(map(plain, (ma | mb, ma & mb, ma & ~mb, ma ^ mb)))
        yield "sets", f"set algebra of {t}", lambda: [list(g(B, **kw)) for g in (A.union, A.intersection, A.difference, A.sym_difference)], want
        if f == self.glob:
            yield "sets", f"operators on {t}", lambda: [list(y) for y in (A | B, A & B, A - B, A ^ B)], want
        if forms[0][0] != "list":
            return

        def update():
            C = p.List(A)
            getattr(C, ("union", "intersection", "difference", "sym_difference")[n] + "_update")(B, **kw)
            return list(C)

        def merged():
            C = p.List(A)
            C.merge(**kw)
            return list(C)
        yield "sets", f"set update {n} of {t}", update, want[n]
        yield "sets", f"the merged {t}", merged, plain(ma)
        if self.rng.random() < 0.4 and (want[n] if n % 2 else ma):           # the same list merged or updated, edited, and merged or updated again
            C = p.List(A)
            how = "merge" if n % 2 == 0 else ("union", "intersection", "difference", "sym_difference")[n] + "_update"
            args = () if n % 2 == 0 else (B,)
            getattr(C, how)(*args, **kw)
            C.clear_groups()
            now = self.edited(C, [[u.span(r) for r in (plain(ma) if n % 2 == 0 else want[n])]], multi)
            mc = u.mask([u.r(*x) for g in now for x in g])

            def again():
                getattr(C, how)(*args, **kw)
                return list(C)
            yield ("sets", f"{how} of {[[u.r(*x) for x in g] for g in now]} after the same and an edit, {t}", again,
                   plain(mc if n % 2 == 0 else (mc | mb, mc & mb, mc & ~mb, mc ^ mb)[n]))
        if f == self.glob:
            yield "sets", f"whether one contains the other or not, of {t}", lambda: [A.contains(B), B in A, A.is_disjoint(B)], (mb & ~ma == 0, mb & ~ma == 0, ma & mb == 0)

    def q_conv(self):
        """Verse 0 taken for verse 1 and the reverse, and copies: nothing else changes, and no flag matters."""
        p, cfg, rng, kw, ft = self.p, self.cfg, self.rng, self.kw, self.ft
        u = self.u = cfg.uni(2)
        zeros = [i for i, j in u.cspan.values() if u.verses[i][2] == 0]

        def start(v):
            return v[2] == 1 and v[1] in cfg.v0.get(v[0], ())

        def to1(v):
            return v[0], v[1], v[2] or 1

        def to0(v):
            return (v[0], v[1], 0) if start(v) else v

        def span():
            i, j = self.span(most=200)
            if zeros and rng.random() < 0.6:
                i = min(len(u) - 1, rng.choice(zeros) + rng.choice((0, 0, 1, 1, 2)))
                j = rng.choice((i, i + rng.randint(0, 9), u.cspan[u.verses[i][:2]][1]))
                if rng.random() < 0.3:
                    i, j = max(0, i - rng.randint(0, 9)), i
            return i, min(j, len(u) - 1)
        xs = [span() for _ in range(rng.randint(1, 4))]
        a = u.verses[xs[0][rng.randint(0, 1)]]
        A = self.verse(a)
        yield "conv", f"{a} without verse 0", lambda: [A.verse_0_to_1(), A.verse_0_to_1().verse_0_to_1()], (to1(a),) * 2
        yield "conv", f"{a} with verse 0", lambda: [A.verse_1_to_0(), A.verse_1_to_0().verse_1_to_0()], (to0(a),) * 2
        R = self.range(xs[0])
        r = u.r(*xs[0])
        yield "conv", f"{r} without verse 0", lambda: [R.verse_0_to_1(), R], (tuple(map(to1, r)), r)
        yield "conv", f"{r} with verse 0", lambda: [R.verse_1_to_0(), R], (tuple(map(to0, r)), r)
        groups = [[x] for x in xs]
        for _ in range(rng.randint(0, len(xs) - 1)):
            k = rng.randrange(len(groups) - 1)
            groups[k:k + 2] = [groups[k] + groups[k + 1]]

        def enc(conv):
            return ("L", *(tuple(tuple(map(conv, u.r(*x))) for x in g) for g in groups))

        def lst():
            return p.List([[self.range(x) for x in g] for g in groups])

        def edited(name, again=None):
            L, K = lst(), lst()
            out = getattr(L, name)()
            return [out, L, K == lst()]
        t = f"{[[u.r(*x) for x in g] for g in groups]}"
        yield "conv", f"{t} without verse 0", lambda: edited("verse_0_to_1"), (None, enc(to1), True)
        yield "conv", f"{t} with verse 0", lambda: edited("verse_1_to_0"), (None, enc(to0), True)
        if rng.random() < 0.4:                  # converted, edited, converted again
            L = lst()
            conv, name = (to1, "verse_0_to_1") if rng.random() < 0.5 else (to0, "verse_1_to_0")
            getattr(L, name)()
            done = [[u.span(tuple(map(conv, u.r(*x)))) for x in g] for g in groups]
            now = self.edited(L, done)

            def again():
                getattr(L, name)()
                return L
            yield ("conv", f"{[[u.r(*x) for x in g] for g in now]} after {name}, converted and edited before", again,
                   ("L", *(tuple(tuple(map(conv, u.r(*x))) for x in g) for g in now)))
        copied = (p.List, copy.copy, copy.deepcopy)[rng.randrange(3)]

        def both():
            L = lst()
            C = copied(L)
            K = copied(L)
            if len(xs) > 1:
                K.pop()
            K.append(R)
            return [C, L]
        yield "conv", f"a copy of {t}, another one edited", both, (enc(lambda v: v),) * 2
        if not any(v[2] == 0 for v in (a, *r)) or self.f & 2:
            yield "conv", f"a copy of {a}{ft}", lambda: p.Verse(A, **kw), a
            if self.f & 1 or r[0][0] == r[1][0]:
                yield "conv", f"a copy of {r}{ft}", lambda: p.Range(R, **kw), r


def complete(cfg):
    """The model applies: every book in the order has names and chapters, and verse 0s only where there is a chapter."""
    return all(b in cfg.maxv and b in cfg.names for b in cfg.order) and all(c <= len(cfg.maxv.get(b, ())) for b, s in cfg.v0.items() for c in s)


def queries(p, cfg, glob, rng, n, cats=None, pool=None):
    yield from Model(p, cfg, glob, rng, pool, n == 1).queries(n, cats)
