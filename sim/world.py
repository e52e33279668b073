"""Configurations, the independent reference model of the verse universe, and workload generators (plain data only)."""
import json, os

with open(os.path.join(os.path.dirname(__file__), "refdata.json")) as f:
    REF = json.load(f)
DEFAULT_SEPS = ("-", ";", ",", ":", ".")
SEP_NAMES = ("range_sep", "major_list_sep", "minor_list_sep", "verse_sep_std", "verse_sep_alt")
MULTI, V0 = 1, 2
_DEFAULT_UNI = {}


class Cfg:
    """Configuration of the package as plain data; parts that are None keep the package's defaults."""
    def __init__(self, spec=None):
        spec = spec or {}
        self.spec = spec
        self.order_set, self.names_set = spec.get("order") is not None, spec.get("names") is not None
        self.maxv_set, self.v0_set = spec.get("maxv") is not None, spec.get("v0") is not None
        self.order = list(spec.get("order") or REF["order"])
        self.names = spec.get("names") or REF["names"]
        self.maxv = spec.get("maxv") or REF["maxv"]
        v0 = spec.get("v0") if self.v0_set else REF["v0"]
        self.v0 = {b: set(v) for b, v in v0.items()}
        self.seps = tuple(spec.get("seps") or DEFAULT_SEPS)
        self.pos = {b: i for i, b in enumerate(self.order)}
        self._uni = {}

    def key(self):
        return json.dumps(self.spec, sort_keys=True)

    def uni(self, v0):
        v0 = bool(v0)
        if v0 not in self._uni:
            if self.order_set or self.maxv_set or self.v0_set:
                self._uni[v0] = Universe(self, v0)
            else:
                if v0 not in _DEFAULT_UNI:
                    _DEFAULT_UNI[v0] = Universe(self, v0)
                self._uni[v0] = _DEFAULT_UNI[v0]
        return self._uni[v0]

    def books(self):
        """Books that can be used without reservation: ordered, named, with chapters."""
        return [b for b in self.order if b in self.maxv and b in self.names]

    def minv(self, b, c, v0):
        return 0 if v0 and c in self.v0.get(b, ()) else 1

    def key_of(self, v):
        return (self.pos[v[0]], v[1], v[2])


class Universe:
    """All verses of the Bible in order, with or without verse 0s."""
    def __init__(self, cfg, v0):
        self.cfg = cfg
        self.v0 = v0
        self.verses = []
        self.idx = {}
        self.bspan = {}
        self.cspan = {}
        for b in cfg.order:
            if b not in cfg.maxv:
                continue
            b0 = len(self.verses)
            for c, mx in enumerate(cfg.maxv[b], 1):
                c0 = len(self.verses)
                for v in range(cfg.minv(b, c, v0), mx + 1):
                    self.idx[(b, c, v)] = len(self.verses)
                    self.verses.append((b, c, v))
                self.cspan[(b, c)] = (c0, len(self.verses) - 1)
            self.bspan[b] = (b0, len(self.verses) - 1)

    def __len__(self):
        return len(self.verses)

    def has(self, v):
        return tuple(v) in self.idx

    def span(self, r):
        return self.idx[tuple(r[0])], self.idx[tuple(r[1])]

    def ok(self, r):
        return tuple(r[0]) in self.idx and tuple(r[1]) in self.idx

    def mask(self, ranges):
        m = 0
        for r in ranges:
            i, j = self.span(r)
            m |= ((1 << (j - i + 1)) - 1) << i
        return m

    def r(self, i, j):
        return (self.verses[i], self.verses[j])

    def runs(self, m):
        """Maximal runs of a mask as index pairs."""
        out = []
        i = 0
        while m:
            z = (m & -m).bit_length() - 1
            m >>= z
            i += z
            o = ((~m) & (m + 1)).bit_length() - 1
            out.append((i, i + o - 1))
            m >>= o
            i += o
        return out


_CUSTOM_POOL = [b for b in REF["order"]]


def gen_cfg(rng, seps=0.3, custom=0.75, max_books=5, max_chaps=4, max_verses=5, all_names=True):
    """A configuration: usually a tiny Bible (so that boundaries are everywhere), sometimes the default one."""
    spec = {}
    if rng.random() < custom:
        books = rng.sample(_CUSTOM_POOL, rng.randint(2, max_books))
        if rng.random() < 0.5:
            books.sort(key=REF["order"].index)
        maxv, v0 = {}, {}
        for b in books:
            n = 1 if rng.random() < 0.3 else rng.randint(1, max_chaps)
            maxv[b] = [rng.choice((1, 2, 3, rng.randint(1, max_verses))) for _ in range(n)]
            chs = [c for c in range(1, n + 1) if rng.random() < 0.35]
            if chs:
                v0[b] = chs
        spec["order"], spec["maxv"], spec["v0"] = books, maxv, v0
        if not all_names:
            spec["names"] = {b: REF["names"][b] for b in books}
    if rng.random() < seps:
        spec["seps"] = gen_seps(rng)
    return spec


# Punctuation that is accepted and unambiguous in every separator position.
SEP_POOL = list("-;,:.|~!@%&*+=<>$^`?(){}[]") + ["–", "—", "·", "→", "§", "'", "#", "/"]


def gen_seps(rng):
    base = list(DEFAULT_SEPS)
    if rng.random() < 0.5:
        k = rng.sample(range(5), rng.randint(1, 3))
        for i in k:
            c = rng.choice(SEP_POOL)
            while c in base:
                c = rng.choice(SEP_POOL)
            base[i] = c
        if rng.random() < 0.3:
            rng.shuffle(base)
    else:
        base = rng.sample(SEP_POOL, 5)
    return base


def gen_book(rng, cfg):
    return rng.choice(cfg.books())


def gen_verse(rng, cfg, v0):
    b = gen_book(rng, cfg)
    n = len(cfg.maxv[b])
    c = rng.choice((1, n, rng.randint(1, n)))
    lo, hi = cfg.minv(b, c, v0), cfg.maxv[b][c - 1]
    return [b, c, rng.choice((lo, hi, rng.randint(lo, hi), min(hi, lo + 1)))]


def gen_range(rng, cfg, v0, multi, width=None):
    """A range biased to chapter and book boundaries."""
    b = gen_book(rng, cfg)
    u = cfg.uni(v0)
    n = len(cfg.maxv[b])
    k = rng.random()
    if multi and k < 0.3:
        v, w = gen_verse(rng, cfg, v0), gen_verse(rng, cfg, v0)
        i, j = sorted((u.idx[tuple(v)], u.idx[tuple(w)]))
        if j - i > 4000:
            j = i + rng.randint(0, 4000)
        r = u.r(i, j)
    elif k < 0.42:
        i, j = u.bspan[b]
        r = u.r(i, j)
    elif k < 0.6:
        c = rng.randint(1, n)
        d = min(n, c + rng.choice((0, 0, 0, 1, 2)))
        r = u.r(u.cspan[(b, c)][0], u.cspan[(b, d)][1])
    elif k < 0.75:
        i = u.idx[tuple(gen_verse(rng, cfg, v0))]
        r = u.r(i, i)
    else:
        i0, j0 = u.bspan[b]
        i = u.idx[tuple(gen_verse(rng, cfg, v0))] if rng.random() < 0.5 else rng.randint(i0, j0)
        if not i0 <= i <= j0:
            i0, j0 = u.bspan[u.verses[i][0]]
        b2 = u.verses[i][0]
        m = rng.random()
        if m < 0.4:
            j = min(j0, i + rng.randint(0, 6))
        elif m < 0.6:
            c = u.verses[i][1]
            j = u.cspan[(b2, c)][1]
        elif m < 0.8:
            c = rng.randint(1, len(cfg.maxv[b2]))
            j = u.cspan[(b2, c)][rng.randint(0, 1)]
        else:
            j = rng.randint(i0, j0)
        i, j = min(i, j), max(i, j)
        r = u.r(i, j)
    return [list(r[0]), list(r[1])]


def gen_near(rng, cfg, v0, multi, r):
    """A range that touches, overlaps, encloses or lies within the given one (cut at the end of a book unless `multi`)."""
    u = cfg.uni(v0)
    i, j = u.idx.get(tuple(r[0])), u.idx.get(tuple(r[1]))
    if i is None or j is None:
        return gen_range(rng, cfg, v0, multi)
    k = rng.random()
    w = rng.choice((0, 1, 3, 8))
    if k < 0.35 and j + 1 < len(u):
        a, b = j + 1, j + 1 + w
        if rng.random() < 0.3:
            b = u.bspan[u.verses[a][0]][1]
    elif k < 0.5 and i > 0:
        a, b = i - 1 - w, i - 1
    elif k < 0.6:
        a, b = rng.randint(i, j), j + w
    elif k < 0.7:
        a, b = i - w, rng.randint(i, j)
    elif k < 0.8:
        a, b = sorted((rng.randint(i, j), rng.randint(i, j)))
    elif k < 0.9:
        a, b = i - w, j + rng.choice((0, 1, 3))
    else:
        a, b = i, j
    a, b = max(0, a), min(len(u) - 1, b)
    if not multi:
        c = rng.choice((a, b))
        lo, hi = u.bspan[u.verses[c][0]]
        a, b = max(a, lo), min(b, hi)
    a, b = u.r(a, b)
    return [list(a), list(b)]


def gen_tiles(rng, cfg, v0, multi):
    """Groups of ranges that together tile a stretch of the Bible, often across books; and the stretch as index pair."""
    u = cfg.uni(v0)
    i = rng.randrange(len(u))
    if rng.random() < 0.7:
        i = max(0, u.bspan[u.verses[i][0]][1] - rng.randint(0, 3))
    j = min(len(u) - 1, i + rng.randint(1, 14))
    tiles, a = [], i
    while a <= j:
        b = min(j, a + rng.choice((0, 1, 2, 4, 9)))
        if rng.random() < 0.4:
            b = min(j, u.cspan[u.verses[a][:2]][1])
        if not multi or rng.random() < 0.7:
            b = min(b, u.bspan[u.verses[a][0]][1])
        tiles.append([list(v) for v in u.r(a, b)])
        a = b + 1
    if rng.random() < 0.4:
        rng.shuffle(tiles)
    if rng.random() < 0.2 and len(tiles) > 1:
        tiles.pop(rng.randrange(len(tiles)))
    out = []
    for t in tiles:
        if out and rng.random() < 0.5:
            out[-1].append(t)
        else:
            out.append([t])
    return out, (i, j)


def gen_list(rng, cfg, v0, multi, max_len=6):
    if rng.random() < 0.12 and max_len >= 6:
        return gen_tiles(rng, cfg, v0, multi)[0]
    n = rng.choice((0, 1, 1, 2, 3, rng.randint(0, max_len)))
    out, cur = [], []
    r = None
    for _ in range(n):
        r = gen_near(rng, cfg, v0, multi, r) if r and rng.random() < 0.4 else gen_range(rng, cfg, v0, multi)
        cur.append(r)
        if rng.random() < 0.5:
            out.append(cur)
            cur = []
    if cur:
        out.append(cur)
    return out


# ---------------------------------------------------------------------------------------------------------------------
# Reference strings
# ---------------------------------------------------------------------------------------------------------------------
def book_name(rng, cfg, b):
    ab, title, mn, extra = cfg.names[b][:4]
    k = rng.random()
    if k < 0.45:
        s = title
    elif k < 0.8:
        s = ab
    elif extra and k < 0.9:
        s = rng.choice(extra)
    else:
        s = title
    m = rng.random()
    if m < 0.1:
        s = s.upper()
    elif m < 0.2:
        s = s.lower()
    elif m < 0.25:
        s = s.replace(" ", "  ")
    return s


def gen_text(rng, cfg, bookless=0.12, junk=0.12, v0=False, max_refs=4):
    """A reference string; not necessarily valid."""
    rs, ma, mi, std, alt = cfg.seps
    out = ""
    cur = None
    n = rng.choice((1, 1, 2, 3, rng.randint(1, max_refs)))

    def num(c=None, b=None):
        if rng.random() < 0.06:
            return rng.choice((0, 99, 151, 200))
        if b is None:
            return rng.randint(1, 6)
        if c is None:
            return rng.randint(1, len(cfg.maxv[b]))
        if 1 <= c <= len(cfg.maxv[b]):
            lo = 0 if (v0 and rng.random() < 0.4) or rng.random() < 0.1 else 1
            return rng.randint(lo, cfg.maxv[b][c - 1])
        return rng.randint(1, 5)

    def single(first):
        nonlocal cur
        k = rng.random()
        sp = " " if rng.random() < 0.8 else ""
        nobook = (rng.random() < bookless) if first else rng.random() < 0.6
        vs = std if rng.random() < 0.7 else alt
        if not nobook or (cur is None and not first):
            cur = gen_book(rng, cfg)
            s = book_name(rng, cfg, cur)
            if k < 0.2:
                return s
            if k < 0.5:
                return s + sp + str(num(None, cur))
            c = num(None, cur)
            return s + sp + str(c) + vs + str(num(c, cur))
        c = num(None, cur)
        if k < 0.5:
            return str(rng.choice((c, num(c, cur))))
        return str(c) + vs + str(num(c, cur))
    for i in range(n):
        if i:
            out += rng.choice((ma, mi)) + (" " if rng.random() < 0.7 else "")
        out += single(i == 0)
        if rng.random() < 0.3:
            out += rs + single(False)
    if rng.random() < 0.1:
        out += rng.choice((ma, mi))
    if rng.random() < junk:
        k = rng.random()
        if k < 0.3:
            out = out[:rng.randint(0, len(out))]
        elif k < 0.6:
            i = rng.randint(0, len(out))
            out = out[:i] + rng.choice(("@", "Zzz", " ", rs, ma, mi, std, "0", "é", "\n")) + out[i:]
        elif k < 0.8:
            out = rng.choice(("Zorg 3", "", " ", "-", "Matt 3 4", "3:", "Xyz 1:2", "1 2 3", ";", "Gen 1:1;;2"))
        else:
            out = rng.choice(("3:4", "5", "2-3", "1:1-2", "7, 8", "4; 5", "12:3;4", "1" + alt + "1"))
    return out


def is_bookless(text, cfg):
    """True if the string begins with a bare number reference (so that no book can be implied)."""
    t = text.lstrip()
    i = 0
    while i < len(t) and t[i] in "0123456789":
        i += 1
    if i == 0:
        return False
    rest = t[i:].lstrip()
    return rest == "" or rest[0] in cfg.seps
