"""Reference model of the potential-points construction heuristic.

Written from the description of the method, not from the code's control flow: the container
is a set of placed rectangles; cell(x, y) tells what covers a unit cell: 0 nothing, or the
part of an item: 1 inside, 2 side, 3 corner.
"""
from collections import deque

FREE, INSIDE, SIDE, CORNER = 0, 1, 2, 3
DEFAULT = ("A", "B", "C", "D", "A_", "B_", "B__", "A__", "E", "F")
NEAR = 0.2


class Container:
    def __init__(self, W, L, near=(NEAR, NEAR)):
        self.W, self.L = W, L
        self.near = near
        self.cells = {}
        self.placed = []

    def cell(self, x, y):
        return self.cells.get((x, y), FREE)

    def fits(self, x, y, w, l):
        if x + w > self.W or y + l > self.L:
            return False
        return not any(x < px + pw and px < x + w and y < py + pl and py < y + l for px, py, pw, pl in self.placed)

    def place(self, x, y, w, l):
        self.placed.append((x, y, w, l))
        for cx in range(x, x + w):
            for cy in range(y, y + l):
                ends = (cx in (x, x + w - 1)) + (cy in (y, y + l - 1))
                self.cells[cx, cy] = (INSIDE, SIDE, CORNER)[ends]


EDGE = (SIDE, CORNER)


def points_of(box, x, y, w, l):
    """The new points a placement generates: [(class, (x, y))] in order of generation."""
    W, L, cell = box.W, box.L, box.cell
    top, right = y + l, x + w
    out = []

    # ---- upper left of the item: A, A', E, A''
    if top < L and cell(x, top) == FREE:
        if x == 0:
            is_a = True
        else:
            below, beside = cell(x - 1, top - 1), cell(x - 1, top)
            is_a = (below in EDGE and beside in EDGE) or (below in (FREE, CORNER) and beside == CORNER)
        if is_a:
            out.append(("A", (x, top)))
        else:
            if cell(x - 1, top) == FREE and cell(x - 1, top - 1) == FREE:
                found = _project_left(box, x, top)
                if found is not None:
                    near = (x - found) / W <= box.near[0]
                    out.append(("A_" if near else "E", (found, top)))
            out.append(("A__", (x, top)))

    # ---- lower right of the item: B, B', F, B''
    if right < W and cell(right, y) == FREE:
        if y == 0:
            is_b = True
        else:
            left, under = cell(right - 1, y - 1), cell(right, y - 1)
            is_b = (left in EDGE and under in EDGE) or (left in (FREE, CORNER) and under == CORNER)
        if is_b:
            out.append(("B", (right, y)))
        else:
            if cell(right, y - 1) == FREE and cell(right - 1, y - 1) == FREE:
                found = _project_down(box, right, y)
                if found is not None:
                    near = (y - found) / L <= box.near[1]
                    out.append(("B_" if near else "F", (right, found)))
            out.append(("B__", (right, y)))

    # ---- corners of neighbours under the upper side (C) and along the right side (D)
    if top < L:
        for cx in range(x, right - 1):
            if cell(cx, top) == CORNER and cell(cx + 1, top) == FREE:
                out.append(("C", (cx + 1, top)))
    if right < W:
        for cy in range(y, top - 1):
            if cell(right, cy) == CORNER and cell(right, cy + 1) == FREE:
                out.append(("D", (right, cy + 1)))
    return out


def _project_left(box, x, top):
    """Where the line of the item's upper side, followed to the left, meets something."""
    for cx in range(x - 1, -1, -1):
        above, below = box.cell(cx, top), box.cell(cx, top - 1)
        if above == FREE and below == FREE:
            if cx == 0:
                return 0
        elif above in EDGE and below in (FREE, SIDE, CORNER):
            return cx + 1
    return None


def _project_down(box, right, y):
    """Where the line of the item's right side, followed downwards, meets something."""
    for cy in range(y - 1, -1, -1):
        outer, inner = box.cell(right, cy), box.cell(right - 1, cy)
        if outer == FREE and inner == FREE:
            if cy == 0:
                return 0
        elif outer in EDGE and inner in (FREE, SIDE, CORNER):
            return cy + 1
        elif outer == FREE and inner in EDGE:
            return None
    return None


def construct(items, W, L, strategy, rotation, stats=None, near=(NEAR, NEAR)):
    """items: [[id, w, l]] in sequence. Returns ([[id, [x, y, w, l]]], remaining items)."""
    box = Container(W, L, near)
    pools = {c: deque() for c in DEFAULT}
    rest = list(items)
    placed = []
    covered = 0
    point = (0, 0)
    while point is not None and rest and covered < W * L:
        x, y = point
        for k, (i, w, l) in enumerate(rest):
            shapes = [(w, l), (l, w)] if rotation else [(w, l)]
            shape = next((s for s in shapes if box.fits(x, y, *s)), None)
            if shape is None:
                continue
            del rest[k]
            box.place(x, y, *shape)
            covered += shape[0] * shape[1]
            placed.append([i, [x, y, *shape]])
            for cls, pt in points_of(box, x, y, *shape):
                pools[cls].append(pt)
                if stats is not None:
                    stats[cls] = stats.get(cls, 0) + 1
            break
        point = None
        for cls in strategy:
            if pools[cls]:
                point = pools[cls].popleft()
                if stats is not None:
                    stats["from " + cls] = stats.get("from " + cls, 0) + 1
                break
    return placed, rest


def solve(items, conts, strategy, rotation, stats=None, near=(NEAR, NEAR)):
    """conts: [[id, W, L]]. Returns [[id, [[item, [x, y, w, l]], ...]]] in order."""
    rest = list(items)
    out = []
    for c, W, L in conts:
        placed, rest = construct(rest, W, L, strategy, rotation, stats, near) if rest else ([], rest)
        out.append([c, placed])
    return out
