"""Reading back the LaTeX of a DISCOVER equation, and exact values for it.

Values are truncated Taylor expansions about a point (a jet) in three
coordinates, so that a derivative of anything is exact.
"""
import math
import re

import numpy as np

ORDER = 7
EXPS = [(i, j, k) for n in range(ORDER + 1) for i in range(n + 1) for j in range(n + 1 - i) for k in (n - i - j,)]
EXPS = sorted(set(EXPS), key=lambda e: (sum(e), e))
AT = {e: i for i, e in enumerate(EXPS)}
DEG = np.array([sum(e) for e in EXPS])
_A, _B, _C = [], [], []
for _i, _a in enumerate(EXPS):
    for _j, _b in enumerate(EXPS):
        _s = tuple(p + q for p, q in zip(_a, _b))
        if sum(_s) <= ORDER:
            _A.append(_i), _B.append(_j), _C.append(AT[_s])
_A, _B, _C = map(np.array, (_A, _B, _C))
_D = []
for _ax in range(3):
    src, dst, fac = [], [], []
    for _i, e in enumerate(EXPS):
        if e[_ax]:
            d = list(e)
            d[_ax] -= 1
            src.append(_i), dst.append(AT[tuple(d)]), fac.append(e[_ax])
    _D.append((np.array(src), np.array(dst), np.array(fac, float)))


def const(c):
    v = np.zeros(len(EXPS))
    v[0] = c
    return v


def coordinate(ax, at):
    v = const(at)
    v[AT[tuple(int(k == ax) for k in range(3))]] = 1.0
    return v


def mul(a, b):
    return np.bincount(_C, weights=a[_A] * b[_B], minlength=len(EXPS))


def d(a, ax, n=1):
    for _ in range(n):
        s, t, f = _D[ax]
        o = np.zeros(len(EXPS))
        o[t] = a[s] * f
        a = o
    return a


def compose(series, a):
    """series: Taylor coefficients of f about a's value."""
    hh = a.copy()
    hh[0] = 0.0
    out = const(series[-1])
    for c in series[-2::-1]:
        out = mul(out, hh)
        out[0] += c
    return out


def power(a, r):
    if isinstance(r, int) and r >= 0:
        out = const(1.0)
        for _ in range(r):
            out = mul(out, a)
        return out
    a0 = a[0]
    if a0 == 0 or (a0 < 0 and r != int(r)):
        return const(math.nan)
    s, c = [], 1.0
    for n in range(ORDER + 1):
        s.append(c * a0 ** (r - n))
        c = c * (r - n) / (n + 1)
    return compose(s, a)


def _fact(f):
    return [f(n) / math.factorial(n) for n in range(ORDER + 1)]


def exp(a):
    if a[0] > 300:
        return const(math.nan)
    return compose(_fact(lambda n: math.exp(a[0])), a)


def log(a):
    if not a[0] > 0:
        return const(math.nan)
    return compose([math.log(a[0])] + [(-1) ** (n + 1) / n / a[0] ** n for n in range(1, ORDER + 1)], a)


def sin(a):
    return compose(_fact(lambda n: math.sin(a[0] + n * math.pi / 2)), a)


def cos(a):
    return compose(_fact(lambda n: math.cos(a[0] + n * math.pi / 2)), a)


def absolute(a):
    return a if a[0] > 0 else -a if a[0] < 0 else const(math.nan)


def maximum(*v):
    return max(v, key=lambda a: a[0])


def minimum(*v):
    return min(v, key=lambda a: a[0])


def inv(a):
    return power(a, -1)


def tan(a):
    return mul(sin(a), inv(cos(a)))


def tanh(a):
    e = exp(2 * a)
    return mul(e - const(1.0), inv(e + const(1.0)))


def laplacian(a):
    return d(a, 0, 2) + d(a, 1, 2) + d(a, 2, 2)


def sign(a):
    return const(float(np.sign(a[0])))


def harmonic(a):
    """Stands for an operator of which the display only has to give the name."""
    return cos(1.3 * a + const(0.2)) + 0.4 * a


OPERATORS = {"laplacian": laplacian, "harmonic": harmonic, "lap": laplacian, "lap_3": laplacian, "re": lambda a: a}
FUNCTIONS = {"sin": sin, "cos": cos, "tan": tan, "tanh": tanh, "exp": exp, "log": log}

PLAIN = {
    "add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": mul, "div": lambda a, b: mul(a, inv(b)),
    "n2": lambda a: power(a, 2), "n3": lambda a: power(a, 3), "n4": lambda a: power(a, 4), "n5": lambda a: power(a, 5),
    "neg": lambda a: -a, "inv": inv, "max": maximum, "min": minimum, "abs": absolute, "exp": exp, "log": log,
    "sqrt": lambda a: power(a, 0.5), "sin": sin, "cos": cos, "tan": tan, "tanh": tanh,
    "sigmoid": lambda a: inv(const(1.0) + exp(-a)), "expneg": lambda a: exp(-a), "logabs": lambda a: log(absolute(a)),
    "lap": laplacian, "lap_3": laplacian, "harmonic": harmonic, "laplacian": laplacian,
}
DERIVATIVE = {"diff": 1, "diff2": 2, "diff3": 3, "diff4": 4, "Diff": 1, "Diff2": 2, "Diff_3": 1, "Diff2_3": 2}


def value(tree, env):
    n = tree[0]
    b = n[:-2] if n.endswith("_t") else n
    if len(tree) == 1:
        if n in env:
            return env[n]
        return const(float(n))
    if b in DERIVATIVE:
        return d(value(tree[1], env), int(tree[2][0][1:]) - 1, DERIVATIVE[b])
    return PLAIN[b](*[value(c, env) for c in tree[1:]])


def fields(names, point, seed=0):
    """Analytic fields, positive near the point, as jets."""
    x = [coordinate(k, p) for k, p in enumerate(point)]
    env = {f"x{k + 1}": v for k, v in enumerate(x)}
    for m, n in enumerate(names):
        a, b, c = 0.7 + 0.31 * m + 0.1 * seed, 0.9 - 0.23 * m, 0.45 + 0.17 * m
        w = sin(a * x[0] + b * x[1] - c * x[2] + const(0.3 * m)) + 0.3 * mul(x[0], x[1]) + cos(c * x[0] - a * x[1] + b * x[2])
        env[n] = w + const(2.3 + 0.2 * m) + 0.11 * mul(x[2], mul(x[0], x[0]))
    return env


# ---------------------------------------------------------------- reader
class Unreadable(ValueError):
    pass


TOKEN = re.compile(r"\\[A-Za-z]+|\\.|\d+\.\d+|\d+\.|\.\d+|\d+|[A-Za-z]|\S")


class Reader:
    """names: display text -> name of a leaf; axes: display text -> axis index.

    Subscript notation: `f_{xy}` is a derivative of f.  Leibniz notation: a
    derivative operator applies to the one factor after it; a name is a function
    when it is followed by its argument list.
    """

    def __init__(self, text, names, axes, env, leibniz):
        self.t = TOKEN.findall(text)
        self.i = 0
        self.names, self.axes, self.env, self.leibniz = names, axes, env, leibniz
        self.longest = sorted(names, key=len, reverse=True)

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def take(self, *want):
        for w in want:
            if self.peek() != w:
                raise Unreadable(f"expected {w!r} at {' '.join(self.t[self.i:self.i + 8])!r}")
            self.i += 1

    def looks(self, *want):
        return self.t[self.i:self.i + len(want)] == list(want)

    def raw_group(self):
        """Text of a {...} group."""
        self.take("{")
        depth, out = 1, []
        while True:
            k = self.peek()
            if k is None:
                raise Unreadable("unclosed group")
            self.i += 1
            depth += (k == "{") - (k == "}")
            if not depth:
                return "".join(out)
            out.append(k)

    def whole(self):
        v = self.sum()
        if self.peek() is not None:
            raise Unreadable(f"left over: {' '.join(self.t[self.i:])!r}")
        return v

    def sum(self):
        total, sign = None, 1.0
        if self.peek() in ("-", "+"):
            sign = -1.0 if self.peek() == "-" else 1.0
            self.i += 1
        while True:
            v = sign * self.product()
            total = v if total is None else total + v
            if self.peek() in ("+", "-"):
                sign = -1.0 if self.peek() == "-" else 1.0
                self.i += 1
            else:
                return total

    def starts(self):
        k = self.peek()
        if k is None or k in ("+", "-", "}", ")", "]", ",", "=", "$"):
            return False
        return k not in ("\\right", "|")

    def product(self):
        v = None
        while self.starts():
            if self.peek() == "\\cdot":
                self.i += 1
                continue
            f = self.factor()
            v = f if v is None else mul(v, f)
        if v is None:
            raise Unreadable(f"a term is missing at {' '.join(self.t[self.i:self.i + 8])!r}")
        return v

    def exponent(self):
        """-> number or None"""
        if self.peek() != "^":
            return None
        self.i += 1
        g = self.raw_group() if self.peek() == "{" else self.t[self.i]
        if g is self.peek():
            self.i += 1
        m = re.fullmatch(r"(-?)\s*(?:(\d+)|\\frac\{(\d+)\}\{(\d+)\})", g)
        if not m:
            raise Unreadable(f"exponent {g!r}")
        r = int(m[2]) if m[2] else int(m[3]) / int(m[4])
        return -r if m[1] else r

    def suffixed(self, v, derivable=True):
        """Subscripts (derivatives) and an exponent after a factor."""
        if self.peek() == "_" and derivable:
            self.i += 1
            g = self.raw_group()
            while g:
                for a in sorted(self.axes, key=len, reverse=True):
                    if g.startswith(a):
                        v = d(v, self.axes[a])
                        g = g[len(a):]
                        break
                else:
                    raise Unreadable(f"derivative {g!r}")
        r = self.exponent()
        if r is not None:
            v = power(v, r)
        if self.peek() in ("_", "^"):
            raise Unreadable("double subscript or exponent")
        return v

    def bracket(self):
        self.take("\\left", "(")
        v = self.sum()
        self.take("\\right", ")")
        return v

    def factor(self):
        k = self.peek()
        if re.fullmatch(r"[\d.]+", k):
            self.i += 1
            v = const(float(k))
            r = self.exponent()
            return v if r is None else power(v, r)
        if self.looks("\\left", "("):
            return self.suffixed(self.bracket(), not self.leibniz)
        if k == "(":
            if self.leibniz:
                raise Unreadable("bare parenthesis")
            self.i += 1
            v = self.sum()
            self.take(")")
            return self.suffixed(v)
        if self.looks("\\left", "|"):
            self.take("\\left", "|")
            v = self.group()
            self.take("\\right", "|")
            return self.suffixed(absolute(v), False)
        if k == "\\frac":
            return self.frac()
        if k == "\\sqrt":
            self.i += 1
            r = 2
            if self.peek() == "[":
                r = int(self.t[self.i + 1])
                self.i += 2
                self.take("]")
            return power(self.group(), 1.0 / r)
        if k in ("\\max", "\\min"):
            self.i += 1
            self.take("\\left", "(")
            vs = [self.sum()]
            while self.peek() == ",":
                self.i += 1
                vs.append(self.sum())
            self.take("\\right", ")")
            return self.suffixed((maximum if k == "\\max" else minimum)(*vs), False)
        if k in ("\\operatorname", "\\sin", "\\cos", "\\tan", "\\tanh", "\\log"):
            return self.function()
        if k == "e" and self.peek(1) == "^" and "e" not in self.names:
            self.i += 2
            return exp(self.group())
        return self.name()

    def group(self):
        self.take("{")
        v = self.sum()
        self.take("}")
        return v

    def function(self):
        k = self.peek()
        self.i += 1
        name = k[1:]
        if k == "\\operatorname":
            name = self.raw_group()
        if self.leibniz and name in self.names:
            return self.applied(name)
        r = self.exponent()
        self.take("{")
        v = self.bracket()
        self.take("}")
        if name not in FUNCTIONS and name.replace("\\_", "_") not in OPERATORS:
            raise Unreadable(f"function {name!r}")
        v = FUNCTIONS[name](v) if name in FUNCTIONS else OPERATORS[name.replace("\\_", "_")](v)
        v = v if r is None else power(v, r)
        r = self.exponent()
        return v if r is None else power(v, r)

    def frac(self):
        self.take("\\frac")
        if self.looks("{", "\\partial") or self.looks("{", "d", "}", "{", "d") or self.looks("{", "d", "^"):
            top, bottom = self.raw_group(), self.raw_group()
            m = re.fullmatch(r"(?:\\partial|d)(?:\^\{(\d+)\})?", top)
            if m:
                n = int(m[1] or 1)
                parts = re.findall(r"(?:\\partial|d)((?:(?!\\partial|d|\^).)+)(?:\^\{(\d+)\})?", bottom)
                order = []
                for a, p in parts:
                    a = re.sub(r"\s", "", a)
                    if a not in self.axes:
                        raise Unreadable(f"derivative along {a!r}")
                    order += [self.axes[a]] * int(p or 1)
                if len(order) != n:
                    raise Unreadable(f"derivative of order {n} along {bottom!r}")
                v = self.factor()
                for a in order:
                    v = d(v, a)
                return v
            raise Unreadable(f"fraction {top!r}")
        a = self.group()
        b = self.group()
        return self.suffixed(mul(a, inv(b)), False)

    def name(self):
        braced = self.peek() == "{"
        if braced:
            g = self.raw_group()
            if g not in self.names:
                raise Unreadable(f"name {g!r}")
            return self.suffixed(self.env[self.names[g]])
        rest = "".join(self.t[self.i:self.i + 12])
        for n in self.longest:
            k = TOKEN.findall(n)
            if self.t[self.i:self.i + len(k)] == k:
                self.i += len(k)
                if self.leibniz and n not in self.axes:
                    return self.applied(n)
                return self.suffixed(self.env[self.names[n]], not self.leibniz)
        raise Unreadable(f"name at {rest!r}")

    def applied(self, n):
        """A field followed by its coordinates, the exponent in between."""
        r = self.exponent()
        args = re.sub(r"\s", "", self.raw_group())
        want = "\\left(" + ",".join(sorted(self.axes)[:3]) + "\\right)"
        if args != want:
            raise Unreadable(f"arguments {args!r} of {n}")
        v = self.env[self.names[n]]
        return v if r is None else power(v, r)


def read(text, names, axes, env, leibniz):
    with np.errstate(all="ignore"):
        return Reader(text, names, axes, env, leibniz).whole()
