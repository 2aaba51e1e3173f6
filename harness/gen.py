"""Generators of JSON-serialisable cases.

Every choice is a function of one byte string drawn by Hypothesis: the first bytes are used
as they are, the (many) later ones are stretched from the last eight. This is about ten times
faster than drawing each number separately; failing cases are minimised on the decoded case
(shrink.py), and replay files hold the decoded case itself.
"""
import random

from hypothesis import strategies as st

CLASSES = ("A", "B", "C", "D", "A_", "B_", "B__", "A__", "E", "F")
POOL = ("A", "A_", "B_", "C", "B", "D", "A__", "B__", "F", "E")
HEADER = 48

ODD_IDS = (
    "", " ", "O", "A", "B", "A_", "None", "0", "-1", "strip-pack-container", "w", "l", "W", "L",
    "i\u00e9", "\u03b1\u03b2", "\u4e2d\u6587", "\U0001f4e6", "a b", "x" * 40, "y" * 99, "long name " * 9 + "1", "long name " * 9 + "2", "container_0", "id\t", "%s", "{}", "\\",
    "%d", "%(w)s", "{w}", "{id}", "{0}", "$w", "$id", "width", "id: a", "a\nb", "<b>", "&amp;", "a__b", "e\u0301", "\u200b", "true", "null",
)


class Src:
    """Choices decoded from bytes."""

    def __init__(self, data):
        self.data = data
        self.pos = 0
        self.end = max(0, len(data) - 8)
        self._tail = None

    def _bits(self, k):
        """k <= 32 random bits."""
        need = (k + 7) // 8
        if self._tail is None and self.pos + need <= self.end:
            b = int.from_bytes(self.data[self.pos : self.pos + need], "big")
            self.pos += need
            return b >> (8 * need - k)
        if self._tail is None:
            self._tail = random.Random(self.data[self.end :])
        return self._tail.getrandbits(k)

    def below(self, n):
        if n <= 1:
            return 0
        if n <= 64:
            return (self._bits(8) * n) >> 8
        if n <= 8192:
            return (self._bits(16) * n) >> 16
        return (self._bits(32) * n) >> 32

    def between(self, lo, hi):
        return lo + self.below(hi - lo + 1) if hi > lo else lo

    def flag(self):
        return self.below(2) == 1

    def chance(self, one_in):
        return self.below(one_in) == one_in - 1

    def choice(self, seq):
        return seq[self.below(len(seq))]

    def perm(self, seq):
        out = list(seq)
        for k in range(len(out) - 1, 0, -1):
            j = self.below(k + 1)
            out[k], out[j] = out[j], out[k]
        return out

    def sample(self, seq, k):
        return self.perm(seq)[:k]


def cases(decode, *args, **kwargs):
    """Strategy of the cases that decode(src, ...) gives."""
    return st.binary(min_size=HEADER + 8, max_size=HEADER + 8).map(lambda b: decode(Src(b), *args, **kwargs))


def length(s, low, high, most, one_in=60):
    """The length of a history: now and then a long one."""
    return s.between(high, most) if s.chance(one_in) else s.between(low, high)


TEXT = "abzAZ019 _-.,:;!?'\"()[]{}<>/\\|@#$%^&*+=~`\u00e4\u00df\u00f1\u0416\u05d0\u0905\u3042\u6f22\ud55c\u20ac\U0001f600"


def text(s, max_size=6):
    return "".join(s.choice(TEXT) for _ in range(s.below(max_size + 1)))


def ids(s, n, prefix="i", mode=None):
    """n distinct string ids."""
    if mode is None:
        mode = s.choice(("plain", "plain", "plain", "reversed", "shuffled", "odd", "text", "numbers"))
    base = [f"{prefix}{k}" for k in range(n)]
    if mode == "reversed":
        return [f"{prefix}{n - k}" for k in range(n)]
    if mode == "shuffled":
        return s.perm(base)
    if mode == "numbers":
        return [str(x) for x in s.perm(range(s.choice((0, 1, 8, 95)), 200 + n))[:n]] if n < 300 else base
    if mode == "odd":
        odd = s.sample(ODD_IDS, s.between(0, min(n, len(ODD_IDS))))
        return (odd + [x for x in base if x not in odd])[:n]
    if mode == "text":
        out = list(dict.fromkeys(text(s) for _ in range(min(n, 12))))
        return (out + [x for x in base if x not in out])[:n]
    return base


def _cut(s, W, L, parts):
    """Guillotine cut of a W x L rectangle: perfect packings."""
    rects = [(W, L)]
    for _ in range(parts - 1):
        cand = [k for k, (w, l) in enumerate(rects) if w > 1 or l > 1]
        if not cand:
            break
        w, l = rects.pop(s.choice(cand))
        vertical = s.flag() if w > 1 and l > 1 else w > 1
        if vertical:
            c = s.between(1, w - 1)
            rects += [(c, l), (w - c, l)]
        else:
            c = s.between(1, l - 1)
            rects += [(w, c), (w, l - c)]
    return rects


# name: (largest container side, items)
PROFILES = {
    "micro": (4, 6),
    "tiny": (7, 9),
    "small": (14, 16),
    "mid": (40, 30),
    "wide": (120, 60),
    "large": (300, 120),
}
MIX = ("micro", "tiny", "tiny") + ("small",) * 6 + ("mid",) * 4 + ("wide", "wide", "large")


def containers_list(s, side, max_n=5, prefix="c", min_n=1):
    n = s.choice([k for k in (1, 1, 1, 2, 2, 3, 4, 5, 8) if min_n <= k <= max_n] or [min_n])
    lo = 1 if side <= 40 else max(1, side // 8)
    shape = s.choice(("free", "free", "free", "square", "flat", "tall", "same"))
    out = []
    for _ in range(n):
        if shape == "same" and out:
            W, L = out[0]
        else:
            W, L = s.between(lo, side), s.between(lo, side)
            if shape == "square":
                L = W
            elif shape == "flat":
                L = min(L, s.between(1, 3))
            elif shape == "tall":
                W = min(W, s.between(1, 3))
        out.append((W, L))
    return [[i, W, L] for i, (W, L) in zip(ids(s, n, prefix), out)]


MODES = ("mixed", "mixed", "small", "small", "small", "smaller", "thin", "equal", "few-kinds", "cut", "cut", "cut", "cut+", "cut+", "big")


def items_list(s, conts, max_items, min_items=1, mode=None):
    """Items related to the containers: from slivers to items that fit nowhere."""
    W = max(c[1] for c in conts)
    L = max(c[2] for c in conts)
    mode = mode or s.choice(MODES)
    n = s.between(min_items, max_items)
    W2, L2 = max(1, W // 2), max(1, L // 2)
    dims = []
    if mode in ("cut", "cut+"):
        per = max(1, n // len(conts))
        for _, cw, cl in conts:
            dims += _cut(s, cw, cl, per)
        if s.flag():
            dims = [(l, w) if s.flag() else (w, l) for w, l in dims]
        if mode == "cut+":
            dims += [(s.between(1, W2), s.between(1, L2)) for _ in range(s.below(5))]
        dims = s.perm(dims)[:max_items]
    elif mode == "equal":
        dims = [(s.between(1, W2), s.between(1, L2))] * n
    elif mode == "few-kinds":
        kinds = [(s.between(1, W2), s.between(1, L2)) for _ in range(3)]
        dims = [s.choice(kinds) for _ in range(n)]
    else:
        for _ in range(n):
            if mode == "mixed":
                w, l = s.between(1, W + 1), s.between(1, L + 1)
            elif mode == "small":
                w, l = s.between(1, max(1, W // 3)), s.between(1, max(1, L // 3))
            elif mode == "smaller":
                w, l = s.between(1, max(1, W // 5)), s.between(1, max(1, L // 5))
            elif mode == "thin":
                w, l = s.between(1, 2), s.between(1, max(1, max(W, L) // 2))
                if s.flag():
                    w, l = l, w
            else:
                w, l = s.between(W2, W + 3), s.between(max(1, L // 3), L + 3)
            dims.append((w, l))
    while len(dims) < min_items:
        dims.append((1, 1))
    return [[i, w, l] for i, (w, l) in zip(ids(s, len(dims)), dims)]


def pp_strategy(s):
    """A potential points strategy: default (None), permutations, partial ones, empty."""
    kind = s.choice(("none",) * 4 + ("perm",) * 4 + ("partial",) * 4 + ("pool", "single", "empty"))
    if kind == "none":
        return None
    if kind == "pool":
        return list(POOL)
    if kind == "empty":
        return []
    p = s.perm(CLASSES)
    if kind == "single":
        return p[:1]
    return p if kind == "perm" else p[: s.between(2, 9)]


def more_settings(s, prob, one_in=8):
    """Now and then further settings, which have no part in solving."""
    if s.chance(one_in):
        prob["settings"] = {}
        if s.below(3):
            prob["settings"]["workers_num"] = s.choice((1, 2, 3, 4, 4, 5, 8, 31))
        if s.chance(3):
            prob["settings"]["max_time_in_seconds"] = s.choice((60, 600, 10**6))
    return prob


def problem(
    s,
    mix=MIX,
    max_items=None,
    min_items=1,
    max_containers=5,
    min_containers=1,
    strip=None,
    kinds=("hp", "hp", "hp", "pg"),
    rotation=None,
    mode=None,
):
    """One packing problem, as plain data (with now and then more containers than most)."""
    if max_items is None and mode is None and not strip and s.chance(50) and max_containers >= 5:
        prob = s.choice((crowd, crowd, sparse))(s, kinds)
        if rotation is not None:
            prob["rotation"] = rotation
        return prob
    side, n = PROFILES[s.choice(mix)]
    if max_items is not None:
        n = min(n, max_items)
    n = max(n, min_items)
    is_strip = s.chance(4) if strip is None else strip
    prob = {"kind": s.choice(kinds)}
    if is_strip:
        W = s.between(1, min(side, 60)) if side < 100 or s.below(4) else s.between(60, side)
        if side < 40 and s.chance(20):
            W = s.between(41, 90)
        conts = [["strip-pack-container", W, max(2, min(3 * W, 40))]]
        prob["containers"] = None
        prob["strip"] = W
        prob["height"] = None if s.below(3) else s.between(1, max(3, min(6 * W, 200)))
        prob["min_height"] = None if s.below(4) else s.between(1, max(3, min(4 * W, 100)))
        top = prob["height"] or 10 * W
        if prob["min_height"] and prob["min_height"] > top:
            prob["min_height"] = top
    else:
        if min_containers == 1 and 1 < max_containers < 5 and s.chance(12):
            min_containers, max_containers = 4, 8
        conts = containers_list(s, side, max_n=max_containers, min_n=min_containers)
        prob["containers"] = conts
        prob["strip"] = None
    prob["items"] = items_list(s, conts, n, min_items=min_items, mode=mode)
    prob["rotation"] = s.choice((None, True, False, False)) if rotation is None else rotation
    prob["pp"] = pp_strategy(s)
    if s.chance(7):
        prob["past"] = past(s)
    return prob


def stretched(s, rotation=False):
    """A small problem drawn out in one direction: distances far beyond those of ordinary problems."""
    prob = problem(s, mix=("tiny", "small", "small"), max_items=14, strip=False, max_containers=2, rotation=rotation)
    k, factor = s.between(1, 2), s.between(20, 120)
    if s.chance(8):
        # much further; in both directions, or in one
        most = max(max(c[1:]) for c in prob["containers"])
        if s.flag():
            factor = s.between(30, 1400 // most)
            for e in prob["containers"] + prob["items"]:
                e[3 - k] *= factor
        else:
            factor = s.between(1000, 140000 // (most * max(1, most // 4)))
    for c in prob["containers"]:
        c[k] *= factor
    for i in prob["items"]:
        i[k] = max(1, i[k] * factor - (s.below(factor) if s.chance(3) else 0))
    return prob


def sparse(s, kinds=("hp", "pg")):
    """A few small items in containers hundreds of times longer, wider or both."""
    conts = []
    for k in range(s.choice((1, 1, 2))):
        a, b = s.choice((s.between(300, 1300), s.between(900, 4000))), s.choice((1, 2, 3, 3, s.between(3, 300)))
        if b < 3 and s.chance(12):
            a = s.between(33000, 140000)
        conts.append([f"c{k}", a, b] if s.below(3) else [f"c{k}", b, a])
    low = min(min(c[1:]) for c in conts)
    items = [[f"i{k}", s.between(1, 3), s.between(1, min(3, low))] for k in range(s.between(1, 9))]
    if s.flag():
        items.append(["one more", s.between(1, max(conts[0][1:])), s.between(1, low)])
    return {"kind": s.choice(kinds), "containers": conts, "strip": None, "items": items, "rotation": s.choice((None, True, False)), "pp": pp_strategy(s)}


def past(s):
    """What an instance went through before it became the problem (see build.with_past)."""
    return {
        "ops": [s.choice(("solve", "solve", "log", "search", "hyper", "strategy", "print")) for _ in range(s.between(0, 4))],
        "junk": [[s.below(9), s.between(1, 9), s.between(1, 9)] for _ in range(s.below(4))],
        "junk_containers": s.flag(), "alter": s.below(4), "gap": s.chance(3), "rotation": s.choice((None, True, False)),
        "assign": s.chance(4), "whole": s.chance(3),
    }


def crowd(s, kinds=("hp", "hp", "pg")):
    """Many items, or many containers, of moderate sizes."""
    side = s.choice((4, 7, 14))
    conts = [(s.between(1, side), s.between(1, side)) for _ in range(s.choice((1, 1, 2, 3, s.between(4, 40))))]
    conts = [[i, W, L] for i, (W, L) in zip(ids(s, len(conts), "c"), conts)]
    most = s.choice((160,) * 6 + (350, 350, 1100))
    items = items_list(s, conts, most, min_items=s.between(10, most), mode=s.choice(("mixed", "small", "equal", "few-kinds", "cut")))
    return {
        "kind": s.choice(kinds), "containers": conts, "strip": None, "items": items, "rotation": s.choice((None, True, False)), "pp": pp_strategy(s),
    }


def thousands(s):
    """Thousands of items, nearly all of which fit."""
    low = s.choice((40, 102))
    W, L = s.between(low, 110), s.between(low, 110)
    n = W * L - s.between(0, 60)
    items = [[f"i{k}", 1, 1] for k in range(n)]
    for _ in range(s.choice((0, 1, 1, 2, 3))):
        at = s.below(n)
        items[at][1:] = s.choice(([2, 1], [1, 3], [W + 1, L + 1]))
    conts = [["c0", W, L]]
    strip = None
    if s.chance(3):
        conts.append(["c1", s.between(1, 30), s.between(1, 30)])
    elif s.chance(3):
        conts, strip = None, W
    return {"kind": s.choice(("hp", "pg")), "containers": conts, "strip": strip, "height": None, "min_height": None, "items": items, "rotation": s.choice((None, False)), "pp": s.choice((None, None, ["A", "B"], ["B", "A"]))}


def without_searches(ops):
    """For problems too large to search."""
    for o in ops:
        if o["op"] in ("ls", "hs"):
            o.clear()
            o["op"] = "log"
    return ops


def sequence(s, n):
    """Indices of a sequence: None (items order), a permutation or a part of one."""
    kind = s.choice(("none",) * 3 + ("perm",) * 5 + ("part",) * 3 + ("swap", "reverse", "empty"))
    if kind == "none":
        return None
    if kind == "empty":
        return []
    p = list(range(n))
    if kind == "reverse":
        return p[::-1]
    if kind == "swap":
        a, b = s.below(n), s.below(n)
        p[a], p[b] = p[b], p[a]
        return p
    p = s.perm(p)
    return p[: s.between(1, n)] if kind == "part" else p


def strategy_lists(s, max_n=4, min_n=1, style="full"):
    """Strategies to search with; 'short' ones (1-5 classes) often give different values."""
    out = []
    for _ in range(s.between(min_n, max_n)):
        p = s.perm(CLASSES)
        if style == "short" or (style == "mixed" and s.flag()):
            p = p[: s.between(0 if s.chance(6) else 1, 5)]
        elif style == "any":
            p = p[: s.between(0, 9)]
        out.append(p)
    return out


def search_style(s):
    return s.choice(("full", "full", "short", "short", "short", "mixed", "mixed", "any"))


def fine_problem(s, max_items, containers=1):
    """Long flat containers: solutions whose values differ by little (1e-4 to 1e-6)."""
    L = s.choice((1, 1, 1, 2, 2, 3))
    W = s.choice((2000, 5000, 12000, 12000, 30000, 30000, 100000)) // L + s.below(50)
    if W > 60000:
        max_items = min(max_items, 4)
    if s.chance(12) and containers == 1:
        W, max_items = W * 4, min(max_items, 4)
    dims = []
    while len(dims) < max(2, min(max_items, 2 + s.below(5))):
        row = W
        for _ in range(s.choice((1, 1, 2, 3))):
            w = s.choice((row - s.below(4), row // 2 + s.below(3), s.between(1, row), s.below(4) + 1))
            w = max(1, min(w, row))
            dims.append((w, s.choice((1, 1, L))))
            row -= w
            if row < 1:
                break
    dims = s.perm(dims[:max_items])
    conts = [[f"c{k}", W + s.below(3) if k else W, L] for k in range(containers)]
    prob = {"kind": "hp", "containers": conts, "strip": None, "items": [[f"i{k}", w, l] for k, (w, l) in enumerate(dims)]}
    prob["rotation"] = s.choice((False, False, None))
    prob["pp"] = s.choice((None, None, s.perm(CLASSES)))
    return prob


def needle(s, most=45, max_containers=12):
    """Many items in a row, where only exchanges of a few of them gain something."""
    n = s.choice((s.between(21, 45), s.between(21, 45), s.between(46, 71)))
    n = min(n, most)
    b, d = s.between(1, 3), s.between(1, 2)
    row = [b] * n
    i, j = s.between(0, n // 3), n - 1 - s.choice((0, 0, s.below(n // 2)))
    # those from j on do not fit; one of them does instead of the one at i
    row[i] = b + 1
    row[j:] = [b + 1 + d] * (n - j)
    widths = [sum(row[:j]) + d] + [s.between(1, b + d) for _ in range(s.choice((0, 0, s.below(max_containers))))]
    if s.chance(3):
        # a ladder: one item at a time, each a unit longer, so many improvements
        row = list(range(n, 2 * n))
        if s.flag():
            i, j = s.below(n), s.below(n)
            row[i], row[j] = row[j], row[i]
        widths = [2 * n - s.between(0, 1)] + widths[1:]
    turned = s.flag()
    items = [[f"i{k}", 1, w] if turned else [f"i{k}", w, 1] for k, w in enumerate(row)]
    conts = [[f"c{k}", 1, W] if turned else [f"c{k}", W, 1] for k, W in enumerate(widths)]
    return {"kind": "hp", "containers": conts, "strip": None, "items": items, "rotation": s.choice((False, False, None)), "pp": s.choice((None, None, s.perm(CLASSES)))}


def long_strip(s):
    """A narrow strip with many thin items: many small improvements."""
    W = s.between(2, 3)
    items = [[f"i{k}", 1, s.between(1, 5)] for k in range(s.between(12, 30))]
    need = -(-sum(i[2] for i in items) // W)
    low = s.choice((None, None, s.between(1, need + 5)))
    return {"kind": "hp", "containers": None, "strip": W, "height": need * 2, "min_height": low, "items": items, "rotation": False, "pp": None}


def rich_problem(s, max_items, max_containers=2, strip=False):
    """Bin problems on which strategies and exchanges of items make a difference."""
    if not strip and max_items >= 5 and s.chance(40):
        return needle(s, 40, max_containers)
    if not strip and s.chance(12):
        return fine_problem(s, min(max_items, 6), s.choice((1, 1, 2)))
    prob = problem(
        s, mix=("micro", "tiny", "small", "small", "mid"), max_items=max_items, min_items=min(max_items, s.choice((2, 4, 5, 7))), kinds=("hp",), strip=strip,
        max_containers=max_containers, mode=s.choice(("cut+", "cut+", "cut+", "cut", "cut", "mixed", "few-kinds", "thin", None)),
    )
    if s.chance(3):
        prob["pp"] = s.perm(CLASSES)[: s.between(1, 4)]
    return prob
