"""Operations on a problem's structures, heights, settings and strategy: generation, running, prediction.

Values are JSON; what JSON has not is tagged: {"$": "d", "v": [[k, v], ...]} a dict, "t" a tuple,
"o" an object, "b" bytes, "s" a set, "n" NaN, "i" infinity, "as" an instance of a subclass of the value's type.
"""
import collections

import build
import gen
from core import Violation, load

CLS = {"items": "ItemsError", "containers": "ContainersError"}
KEYS = {"items": ("w", "l"), "containers": ("W", "L")}
LIB = (
    "ItemsError", "ContainersError", "DimensionsError", "SettingsError", "PotentialPointsError",
    "FigureExportError", "MultiProcessError",
)


# ------------------------------------------------------------------ values


def D(pairs):
    return {"$": "d", "v": [list(x) for x in pairs]}


class Thing:
    pass


class Int(int):
    pass


class Str(str):
    pass


class Dict(dict):
    pass


class Tuple(tuple):
    pass


def in_disguise(v, kind):
    """An equal instance of a subclass of the type of v, where there is one."""
    if type(v) is dict:
        return (Dict, collections.OrderedDict, lambda x: collections.defaultdict(int, x))[kind % 3](v)
    for base, sub in ((int, Int), (str, Str), (tuple, Tuple)):
        if type(v) is base:
            return sub(v)
    return v


def disguised(s, x, one_in=12):
    """The tagged value x, now and then with parts of it made instances of subclasses of their types."""
    return _disguised(s, x) if s.chance(one_in) else x


def _disguised(s, x):
    if isinstance(x, dict):
        if x["$"] == "d":
            x = D([[_disguised(s, k), _disguised(s, v)] for k, v in x["v"]])
        elif x["$"] == "t":
            x = {"$": "t", "v": [_disguised(s, v) for v in x["v"]]}
        else:
            return x
    elif type(x) not in (int, str):
        return x
    return {"$": "as", "v": x, "k": s.below(3)} if s.flag() else x


def disguised_op(s, op, one_in=12):
    """The same for the values of an operation, in place."""
    if s.chance(one_in):
        for k in ("value", "id", "key"):
            if k in op:
                op[k] = _disguised(s, op[k])
        if "pairs" in op:
            op["pairs"] = [[_disguised(s, a), _disguised(s, b)] for a, b in op["pairs"]]
    return op


def val(x):
    if isinstance(x, dict):
        t = x["$"]
        if t == "as":
            return in_disguise(val(x["v"]), x["k"])
        if t == "d":
            return {val(k): val(v) for k, v in x["v"]}
        if t == "t":
            return tuple(val(v) for v in x["v"])
        if t == "s":
            return set(val(v) for v in x["v"])
        if t == "b":
            return x["v"].encode()
        if t == "n":
            return float("nan")
        if t == "i":
            return float("inf")
        return Thing()
    if isinstance(x, list):
        return [val(v) for v in x]
    return x


def good_dim(s):
    return s.choice((1, 2, 3, 5, 8, 13, s.between(1, 40), s.between(1, 10**6), s.choice((2**70, 2**70, 2**31, 2**63, 2**101, 10**40)) if s.chance(6) else 7))


def bad_dim(s):
    return s.choice(
        (0, -1, -7, 0, -1, 1.0, 2.5, 0.5, 3.0, "3", "", None, [], [1], {"$": "o"}, {"$": "n"}, {"$": "i"}, D([]), {"$": "t", "v": [1]}, -(2**70))
    )


def good_dims(s, which):
    a, b = KEYS[which]
    pairs = [[a, good_dim(s)], [b, good_dim(s)]]
    return D(pairs[::-1] if s.chance(3) else pairs)


def bad_dims(s, which):
    a, b = KEYS[which]
    k = s.below(9)
    if k == 0:
        return s.choice((None, 5, "wl", [], [3, 4], 1.5, {"$": "t", "v": [3, 4]}, {"$": "o"}, [[a, 1], [b, 2]], {"$": "s", "v": [1]}))
    if k == 1:
        return D([])
    if k == 2:
        return D([[s.choice((a, b)), good_dim(s)]])
    if k == 3:
        return D([[a, good_dim(s)], [b, good_dim(s)], [s.choice(("x", "h", "W" if a == "w" else "w", "", "H")), good_dim(s)]])
    if k == 4:
        other = KEYS["containers" if which == "items" else "items"]
        return D([[other[0], good_dim(s)], [other[1], good_dim(s)]])
    if k == 5:
        return D([[a, good_dim(s)], [s.choice((1, None, "L " if b == "L" else "l ", "x", a.swapcase())), good_dim(s)]])
    if k == 6:
        return D([[a, bad_dim(s)], [b, good_dim(s)]])
    return D(s.perm([[a, good_dim(s)], [b, bad_dim(s)]]))


IDS = ("a", "b", "c", "d", "e", "", "A", "w", "0", "\u03b1", "container", "strip-pack-container", "a ", " b", "{w}", "%(l)s", "a\nb", "width")
BAD_IDS = (1, 0, None, 2.5, {"$": "t", "v": ["a"]}, {"$": "b", "v": "a"}, {"$": "o"}, True)


def good_struct(s, which, max_n=4):
    n = s.between(1, max_n)
    if s.chance(30):
        return D([[f"x{k}", good_dims(s, which)] for k in range(s.between(20, 120))])
    return D([[i, good_dims(s, which)] for i in s.sample(IDS, n)])


def bad_struct(s, which):
    k = s.below(6)
    if k == 0:
        return s.choice((None, 5, "abc", [], [1], {"$": "t", "v": []}, {"$": "o"}, {"$": "s", "v": ["a"]}, 0, ""))
    if k == 1:
        return D([])
    pairs = [[i, good_dims(s, which)] for i in s.sample(IDS, s.between(1, 4))]
    if s.chance(30):
        pairs = [[f"x{j}", good_dims(s, which)] for j in range(s.between(20, 120))]
    at = s.below(len(pairs))
    if k == 2:
        pairs[at][0] = s.choice(BAD_IDS)
    else:
        pairs[at][1] = bad_dims(s, which)
    return D(pairs)


# ------------------------------------------------------------------ structure operations


def structure_op(s, which=None, valid=None):
    """One mapping operation on the items or the containers (or their dimensions)."""
    which = which or s.choice(("items", "items", "containers"))
    ok = s.below(5) < 3 if valid is None else valid
    kind = s.choice(
        ("assign", "set", "set", "setdim", "setdim", "setdim", "update", "ior", "dim_update", "dim_ior", "setdefault", "dim_setdefault")
        + ("del", "del", "pop", "popitem", "clear", "dim_del", "dim_pop", "dim_popitem", "dim_clear", "del_attr")
    )
    op = {"op": kind, "on": which}
    if kind == "assign":
        op["value"] = good_struct(s, which) if ok else bad_struct(s, which)
    elif kind in ("set", "setdefault"):
        op["id"] = s.choice(IDS)
        op["value"] = good_dims(s, which)
        if not ok:
            if s.chance(4) and kind == "set":
                op["id"] = s.choice(BAD_IDS)
            else:
                op["value"] = bad_dims(s, which)
    elif kind in ("update", "ior"):
        op["pairs"] = [[i, good_dims(s, which)] for i in s.sample(IDS, s.between(0, 3))]
        op["as"] = s.choice(("dict", "dict", "pairs"))
        if not ok and op["pairs"]:
            at = s.below(len(op["pairs"]))
            if s.chance(4):
                op["pairs"][at][0] = s.choice(BAD_IDS)
            else:
                op["pairs"][at][1] = bad_dims(s, which)
    elif kind in ("setdim", "dim_setdefault"):
        op["at"] = s.below(6)
        op["key"] = s.choice(KEYS[which])
        op["value"] = good_dim(s)
        if not ok:
            if s.chance(3):
                op["key"] = s.choice(("x", "", "width", KEYS["containers" if which == "items" else "items"][0], 1, None))
            else:
                op["value"] = bad_dim(s)
    elif kind in ("dim_update", "dim_ior"):
        op["at"] = s.below(6)
        op["pairs"] = [[k, good_dim(s)] for k in s.sample(KEYS[which], s.between(0, 2))]
        op["as"] = s.choice(("dict", "dict", "pairs"))
        if not ok and op["pairs"]:
            at = s.below(len(op["pairs"]))
            if s.chance(3):
                op["pairs"][at][0] = s.choice(("x", "", KEYS["containers" if which == "items" else "items"][0], 3))
            else:
                op["pairs"][at][1] = bad_dim(s)
    elif kind in ("del", "pop"):
        op["at"] = s.below(6) if s.below(4) else None  # None: an id that is not there
        if kind == "pop":
            op["default"] = s.chance(3)
    elif kind in ("dim_del", "dim_pop"):
        op["at"] = s.below(6)
        op["key"] = s.choice(KEYS[which])
    elif kind in ("dim_popitem", "dim_clear"):
        op["at"] = s.below(6)
    return op


class Alone:
    """Structures that belong to no problem, where a problem's are expected."""

    _strip_pack = False

    def __init__(self, items, containers):
        self.items, self.containers = items, containers

    @property
    def items(self):
        return self._items

    @items.setter
    def items(self, value):
        self._items = load().Items(value)

    @property
    def containers(self):
        return self._containers

    @containers.setter
    def containers(self, value):
        self._containers = load().Containers(value)


MISSING = "no such id"


def _id_at(p, op):
    ids = list(getattr(p, op["on"]))
    return MISSING if op["at"] is None else ids[op["at"] % len(ids)]


def run_structure_op(p, op):
    """Performs the operation; exceptions pass through."""
    k, which = op["op"], op["on"]
    st = getattr(p, which)
    if k == "assign":
        setattr(p, which, val(op["value"]))
    elif k == "del_attr":
        delattr(p, which)
    elif k == "set":
        st[val(op["id"])] = val(op["value"])
    elif k == "setdefault":
        st.setdefault(val(op["id"]), val(op["value"]))
    elif k in ("update", "ior"):
        pairs = [(val(a), val(b)) for a, b in op["pairs"]]
        arg = dict(pairs) if op["as"] == "dict" else pairs
        if k == "update":
            st.update(arg)
        else:
            st |= arg
    elif k == "del":
        del st[_id_at(p, op)]
    elif k == "pop":
        st.pop(_id_at(p, op), None) if op["default"] else st.pop(_id_at(p, op))
    elif k == "popitem":
        st.popitem()
    elif k == "clear":
        st.clear()
    else:
        dim = st[_id_at(p, op)]
        if k == "setdim":
            dim[val(op["key"])] = val(op["value"])
        elif k == "dim_setdefault":
            dim.setdefault(val(op["key"]), val(op["value"]))
        elif k in ("dim_update", "dim_ior"):
            pairs = [(val(a), val(b)) for a, b in op["pairs"]]
            arg = dict(pairs) if op["as"] == "dict" else pairs
            if k == "dim_update":
                dim.update(arg)
            else:
                dim |= arg
        elif k == "dim_del":
            del dim[val(op["key"])]
        elif k == "dim_pop":
            dim.pop(val(op["key"]))
        elif k == "dim_popitem":
            dim.popitem()
        elif k == "dim_clear":
            dim.clear()
        else:
            raise ValueError(k)


def dims_fault(x, which):
    """None if x is a well-formed pair of dimensions."""
    if not isinstance(x, dict) or set(x) != set(KEYS[which]):
        return "DimensionsError"
    for v in x.values():
        if not isinstance(v, int) or v <= 0:
            return "DimensionsError"
    return None


def struct_fault(x, which):
    if not isinstance(x, dict) or not x:
        return CLS[which]
    for i, d in x.items():
        if not isinstance(i, str):
            return CLS[which]
        f = dims_fault(d, which)
        if f:
            return f
    return None


def _copy(d):
    return {i: dict(v) for i, v in d.items()}


class Prediction:
    """error: None (must succeed) or the set of acceptable exception names; states: acceptable
    structures afterwards; removal: whether, on error, some entries may be gone (clear)."""

    def __init__(self, error, states, removal=False, changes=False):
        self.error, self.states, self.removal, self.changes = error, states, removal, changes


def predict_structure(now, op, strip):
    """now: {id: {key: value}} of the structure the operation is on."""
    k, which = op["op"], op["on"]
    own = CLS[which]
    same = _copy(now)
    locked = strip and which == "containers"
    ids = list(now)

    def at():
        return MISSING if op["at"] is None else ids[op["at"] % len(ids)]

    def bad(*names):
        return Prediction(set(names), [same])

    def good(new, changes=True):
        return Prediction(None, [new], changes=changes)

    if k == "del_attr":
        return bad(own)
    if k == "assign":
        v = val(op["value"])
        if locked:
            return bad("ContainersError")
        f = struct_fault(v, which)
        return bad(f) if f else good(_copy(v))
    if k in ("set", "setdefault"):
        i, v = val(op["id"]), val(op["value"])
        if k == "setdefault" and i in now:
            return good(same, changes=False)
        if locked:
            return bad("ContainersError")
        f = own if not isinstance(i, str) else dims_fault(v, which)
        if f:
            return bad(f)
        new = _copy(now)
        new[i] = dict(v)
        return good(new)
    if k in ("update", "ior"):
        pairs = [(val(a), val(b)) for a, b in op["pairs"]]
        if not pairs:
            return good(same, changes=False)
        if locked:
            return bad("ContainersError")
        states, cur = [same], _copy(now)
        for i, v in pairs:
            f = own if not isinstance(i, str) else dims_fault(v, which)
            if f:
                return Prediction({f}, states)
            cur = _copy(cur)
            cur[i] = dict(v)
            states.append(cur)
        return good(cur)
    if k in ("del", "pop", "popitem"):
        i = ids[0] if k == "popitem" else at()
        if i == MISSING and MISSING not in now:
            if k == "pop" and op["default"]:
                return good(same, changes=False)
            return bad("KeyError", own)
        if len(now) == 1:
            return bad(own)
        new = _copy(now)
        if k == "popitem":
            # whichever entry it takes
            return Prediction(None, [{a: b for a, b in new.items() if a != x} for x in ids], changes=True)
        del new[i]
        return good(new)
    if k == "clear":
        return Prediction({own}, [same], removal=True)
    i = ids[op["at"] % len(ids)]
    if k in ("dim_del", "dim_pop", "dim_popitem", "dim_clear"):
        return bad("DimensionsError", *(["ContainersError"] if locked else []))
    if k == "dim_setdefault":
        key, v = val(op["key"]), val(op["value"])
        if key in now[i]:
            return good(same, changes=False)
        return bad("DimensionsError", *(["ContainersError"] if locked else []))
    if k == "setdim":
        pairs = [(val(op["key"]), val(op["value"]))]
    else:
        pairs = [(val(a), val(b)) for a, b in op["pairs"]]
        if not pairs:
            return good(same, changes=False)
    if locked:
        return bad("ContainersError")
    states, cur = [same], _copy(now)
    for key, v in pairs:
        if key not in KEYS[which] or not isinstance(v, int) or v <= 0:
            return Prediction({"DimensionsError"}, states)
        cur = _copy(cur)
        cur[i][key] = v
        states.append(cur)
    return good(cur)


def view(p, which):
    """The structure as plain data, whatever it holds."""
    out = {}
    st = getattr(p, which)
    for i in st:
        d = st[i]
        out[i] = {k: d[k] for k in d}
    return out


def same_structure(a, b):
    """Equal, also in order."""
    return list(a) == list(b) and all(a[i] == b[i] for i in a)


# ------------------------------------------------------------------ heights, settings, strategy


def height_op(s, width=10):
    k = s.choice(("height",) * 5 + ("min_height",) * 5 + ("reset", "reset", "del_height", "del_min_height"))
    op = {"op": k}
    if k in ("height", "min_height"):
        top = 10 * width
        op["value"] = (
            s.choice((1, 2, 3, width, top, s.between(1, top), s.between(1, top), s.between(1, 2 * top), s.between(1, 12)))
            if s.below(4)
            else s.choice((0, -1, -5, 1.0, 2.5, 7.0, "3", None, [], {"$": "o"}, {"$": "n"}, {"$": "i"}, {"$": "t", "v": [3]}, 0, -1))
        )
    return op


def run_height_op(p, op):
    k = op["op"]
    if k == "height":
        p.container_height = val(op["value"])
    elif k == "min_height":
        p.container_min_height = val(op["value"])
    elif k == "reset":
        p.reset_container_height()
    elif k == "del_height":
        del p.container_height
    elif k == "del_min_height":
        del p.container_min_height
    else:
        raise ValueError(k)


def predict_height(state, op, width):
    """state: (height, min height). Returns (error names or None, new state)."""
    k = op["op"]
    h, m = state
    if k == "reset":
        return None, (10 * width, None)
    if k.startswith("del"):
        return {"DimensionsError"}, state
    v = val(op["value"])
    if not isinstance(v, int) or v < 1:
        return {"DimensionsError"}, state
    if k == "height":
        if m is not None and v < m:
            return {"ContainersError"}, state
        return None, (v, m)
    if v > h:
        return {"ContainersError"}, state
    return None, (h, v)


ODD = (0, 1, 5, -1, 0.5, 1.0, "x", "", None, [], ["A"], {"$": "o"}, {"$": "n"}, {"$": "t", "v": []})


def setting_value(s, key):
    if key == "rotation":
        return s.choice((True, False, True, False, True, None) + (0, 1, "True", "yes", [], 1.0, {"$": "o"}, "", D([]), "False", 2))
    if key == "max_time_in_seconds":
        return s.choice((1, 2, 30, 60, 61, 3600, s.between(1, 10**6), 2**40) + (0, -1, 1.0, 2.5, "60", None, [], {"$": "o"}, {"$": "n"}, {"$": "i"}, 0, -60, ""))
    return s.choice((1, 2, 3, 4, 8, 9, 1000, s.between(1, 64), None) + (0, -1, 1.0, 2.0, 0.5, "2", [], {"$": "o"}, {"$": "n"}, {"$": "i"}, -8, "", D([])))


def settings_value(s):
    if s.chance(9):
        return s.choice(([], 5, "rotation", {"$": "t", "v": [1]}, {"$": "o"}, {"$": "s", "v": ["rotation"]}, 1.5, [["rotation", True]]))
    keys = [k for k in ("rotation", "max_time_in_seconds", "workers_num") if s.flag()]
    pairs = [[k, setting_value(s, k) if s.below(3) == 0 else good_setting(s, k)] for k in s.perm(keys)]
    if s.chance(8):
        pairs.append([s.choice(("other", "Rotation", "", "workers")), 1])
    return D(pairs)


def good_setting(s, key):
    if key == "rotation":
        return s.choice((True, False, None))
    if key == "max_time_in_seconds":
        return s.choice((1, 2, 60, 61, s.between(1, 10**5)))
    return s.choice((1, 2, 3, 8, 9, None))


DEFAULTS = {"rotation": True, "max_time_in_seconds": 60, "workers_num": 1}


def settings_fault(v, hp=True):
    """None when valid; v is the real value."""
    if not isinstance(v, dict):
        return "SettingsError"
    r = v.get("rotation")
    if r is not None and not isinstance(r, bool):
        return "SettingsError"
    if not hp:
        return None
    t = v.get("max_time_in_seconds", 60)
    if not isinstance(t, int) or t < 1:
        return "SettingsError"
    n = v.get("workers_num")
    if n is not None and (not isinstance(n, int) or n <= 0):
        return "SettingsError"
    return None


def effective(v):
    out = dict(DEFAULTS)
    for k in out:
        if v.get(k) is not None:
            out[k] = v[k]
    return out


NAMES = gen.CLASSES


def strategy_value(s):
    """A value for the potential points strategy; about half are valid."""
    k = s.below(12)
    p = s.perm(NAMES)
    if k < 4:
        return {"$": "t", "v": p[: s.between(0, 10)]}
    if k == 4:
        return {"$": "t", "v": p}
    if k == 5:
        return s.choice((p, p[:3], [], None, "A", "ABCD", 5, {"$": "s", "v": p[:3]}, D([[x, 1] for x in p[:2]]), {"$": "o"}, ""))
    cut = p[: s.between(1, 10)]
    at = s.below(len(cut))
    if k in (6, 7):
        return {"$": "t", "v": cut[:at] + [s.choice(ODD_ELEMENTS)] + cut[at:]}
    if k in (8, 9):
        return {"$": "t", "v": cut[:at] + [s.choice(BAD_NAMES)] + cut[at:]}
    if k == 10:
        return {"$": "t", "v": cut + [cut[at]]}
    dup = s.choice(cut)
    return {"$": "t", "v": cut[:at] + [dup] + cut[at:]}


ODD_ELEMENTS = (0, 1, None, 1.5, True, ["A"], {"$": "t", "v": ["A"]}, {"$": "b", "v": "A"}, {"$": "o"}, D([]))
BAD_NAMES = ("O", "a", "", " A", "A ", "A___", "_A", "AB", "G", "A'", "C_", "E_", "F__", "D__", "\u0391")


def strategy_fault(v):
    if not isinstance(v, tuple):
        return "PotentialPointsError"
    if any(not isinstance(x, str) or x not in NAMES for x in v) or len(set(v)) != len(v):
        return "PotentialPointsError"
    return None


# ------------------------------------------------------------------ running


def outcome(fn, *args, **kwargs):
    """(exception or None, value)."""
    try:
        return None, fn(*args, **kwargs)
    except Violation:
        raise
    except Exception as e:  # noqa
        return e, None


def exc_name(e):
    return None if e is None else type(e).__name__


def messages(cls):
    """The message constants of an exception class of the library."""
    return [v for k, v in vars(cls).items() if isinstance(v, str) and not k.startswith("__")]


def own_messages(cls):
    out = []
    for c in cls.__mro__:
        if c.__module__.startswith("hyperpack"):
            out += messages(c)
    return out


__all__ = [n for n in dir() if not n.startswith("_")]
_ = (build, load, collections)
