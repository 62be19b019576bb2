"""Random interpretation of extracted terms: two arithmetic terms denote the same function (up to probability zero)
when they agree on randomly chosen values of their leaves.  Used to compare a formula found in the compiled program with
the formula of a standard, whatever way it is written.  Nothing of the analysed program is run: only the term is read."""
import math
from val import *


class Unk(Exception):
    """the term holds something this evaluator has no meaning for"""


DUR = {"from_hours": 3600.0, "from_minutes": 60.0, "from_milliseconds": 1e-3, "from_microseconds": 1e-6, "from_nanoseconds": 1e-9, "to_microseconds": 1e6}


def mm(a, b):
    if isinstance(b[0], list):
        return [[sum(a[i][k] * b[k][j] for k in range(len(b))) for j in range(len(b[0]))] for i in range(len(a))]
    return [sum(a[i][k] * b[k] for k in range(len(b))) for i in range(len(a))]


def rot(axis, t):
    c, s = math.cos(t), math.sin(t)
    if axis == "x":
        return [[1, 0, 0], [0, c, -s], [0, s, c]]
    if axis == "y":
        return [[c, 0, s], [0, 1, 0], [-s, 0, c]]
    return [[c, -s, 0], [s, c, 0], [0, 0, 1]]


def ismat(x):
    return isinstance(x, list) and x and isinstance(x[0], list)


def mul(a, b):
    if isinstance(a, list) and isinstance(b, list):
        if not ismat(a):
            raise Unk("vector product")
        return mm(a, b)
    if isinstance(b, list):
        a, b = b, a
    if isinstance(a, list):
        return [mul(x, b) for x in a]
    return a * b


def add(a, b, s=1):
    if isinstance(a, list):
        return [add(x, y, s) for x, y in zip(a, b)]
    return a + s * b


def close(a, b, rel=1e-7):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(close(x, y, rel) for x, y in zip(a, b))
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        return False
    return abs(a - b) <= rel * max(abs(a), abs(b)) + 1e-30


class Eval:
    """leaf(v) -> number or None decides leaves; phi(v) -> number gives loop variables their fixed point"""

    def __init__(self, leaf, phi=None, calls=None):
        self.leaf = leaf
        self.phi = phi
        self.calls = calls or {}
        self.memo = {}

    def __call__(self, v):
        r = self.memo.get(v)
        if r is None:
            r = self._ev(v)
            self.memo[v] = r
        return r

    def _ev(self, v):
        x = self.leaf(v)
        if x is not None:
            return x
        if v.k == "c":
            if v.a[0] in ("int", "f64"):
                return cval(v)
            if v.a[0] == "bool":
                return 1 if cval(v) else 0
            raise Unk("constant " + show(v))
        if v.k == "j":
            vals = [self(m) for m in members(v)]
            for y in vals[1:]:
                if not close(vals[0], y):
                    raise Unk("several values")
            return vals[0]
        if v.k == "agg":
            if v.a[0] in ("()", "[]"):
                return [self(f) for f in v.a[4]]
            if len(v.a[4]) == 1:
                return self(v.a[4][0])
            raise Unk("aggregate " + v.a[0])
        if v.k != "e":
            raise Unk(v.k)
        op, meta, a = v.a
        if op == "phi":
            if self.phi is None:
                raise Unk("loop variable")
            return self.phi(v)
        try:
            return self.e(op, meta, a)
        except (ValueError, ZeroDivisionError, OverflowError, TypeError, IndexError) as e:
            raise Unk(str(e))

    def e(self, op, meta, a):
        if op == "bin":
            x, y = self(a[0]), self(a[1])
            if meta == "Add":
                return add(x, y)
            if meta == "Sub":
                return add(x, y, -1)
            if meta == "Mul":
                return mul(x, y)
            if meta == "Div":
                return mul(x, 1.0 / y)
            if meta == "Rem":
                return math.fmod(x, y)
            if meta in ("Gt", "Ge", "Lt", "Le", "Eq", "Ne"):
                return {"Gt": x > y, "Ge": x >= y, "Lt": x < y, "Le": x <= y, "Eq": x == y, "Ne": x != y}[meta]
            raise Unk("operator %s" % meta)
        if op == "un" and meta == "Not":
            x = self(a[0])
            if isinstance(x, bool):
                return not x
            raise Unk("not")
        if op == "un" and meta == "Neg":
            return mul(self(a[0]), -1)
        if op == "cast":
            x = self(a[0])
            if isinstance(x, float) and meta and meta[0] in "iu":
                return int(x)
            return float(x) if meta in ("f64", "f32") else x
        if op in ("sin", "cos", "tan", "sqrt", "exp", "asin", "acos", "atan", "floor", "ceil"):
            return getattr(math, op)(self(a[0]))
        if op == "ln":
            return math.log(self(a[0]))
        if op == "abs":
            return abs(self(a[0]))
        if op == "round":
            x = self(a[0])
            return math.floor(abs(x) + 0.5) * (1 if x >= 0 else -1)
        if op in ("powf", "powi", "pow"):
            x = self(a[0])
            y = self(a[1]) if len(a) > 1 else meta
            return x**y
        if op == "atan2":
            return math.atan2(self(a[0]), self(a[1]))
        if op in ("to_radians", "radians"):
            return math.radians(self(a[0]))
        if op in ("to_degrees", "degrees"):
            return math.degrees(self(a[0]))
        if op in ("max", "min"):
            return (max if op == "max" else min)(self(a[0]), self(a[1]))
        if op in ("ok", "deref", "clone"):
            return self(a[0])
        if op == "idx":
            return self(a[0])[int(self(a[1]))]
        if op == "f" and isinstance(meta, str) and (meta.isdigit() or meta in "xyzw"):
            return self(a[0])[int(meta) if meta.isdigit() else "xyzw".index(meta)]
        if op == "call":
            n = meta.split("::")[-1]
            if meta in self.calls:
                return self.calls[meta](self, a)
            if n in self.calls:
                return self.calls[n](self, a)
            if meta.startswith("hifitime::"):
                if n == "from_days":
                    return self(a[0]) * 86400.0
                if n in ("from_seconds", "to_seconds", "from_bdt_duration", "from_gpst_duration"):
                    return self(a[0])
                if n in ("from_duration", "to_time_scale"):
                    return self(a[0])
                if n == "abs":
                    return abs(self(a[0]))
                if n in DUR:
                    return self(a[0]) * DUR[n]
            if meta.startswith("nalgebra::"):
                if n in ("x_axis", "y_axis", "z_axis"):
                    return ["axis" + n[0]]
                if n == "from_axis_angle":
                    ax = self(a[0])
                    if isinstance(ax, list) and isinstance(ax[0], str) and ax[0].startswith("axis"):
                        return rot(ax[0][4], self(a[1]))
                    raise Unk("axis")
                if n == "new" and len(a) in (3, 4, 6):
                    return [self(x) for x in a]
                if n == "new" and len(a) == 9:
                    y = [self(x) for x in a]
                    return [y[0:3], y[3:6], y[6:9]]
                if n == "from_matrix":
                    return self(a[0])
            raise Unk("call " + meta)
        raise Unk("%s %s" % (op, meta))
