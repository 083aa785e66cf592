"""Reader of displayed genetic-search equations; shares no code with the renderer."""
from __future__ import annotations

import re

GREEK = {"alpha", "beta", "gamma", "delta", "epsilon", "kappa", "lambda", "mu", "nu", "rho", "sigma"}


class Unreadable(Exception):
    pass


TOKEN = re.compile(r"\s*(\\frac|\\partial|\\cdot|\\,|\\[A-Za-z]+|\d+\.?\d*(?:[eE][+-]?\d+)?|\.\d+|[A-Za-z][A-Za-z0-9]*|\S)")


def tokens(s):
    out, i = [], 0
    s = s.rstrip()
    while i < len(s):
        m = TOKEN.match(s, i)
        if not m:
            raise Unreadable(s[i:])
        out.append(m.group(1))
        i = m.end()
    return out


class Reader:
    def __init__(self, text, axes, symbols):
        self.t = tokens(text)
        self.i = 0
        self.axes, self.symbols = list(axes), set(symbols)

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def take(self, want=None):
        tok = self.peek()
        if tok is None or (want is not None and tok != want):
            raise Unreadable(f"expected {want}, found {tok} at {self.i} of {self.t}")
        self.i += 1
        return tok

    def group_text(self):
        """Raw tokens of a {...} group."""
        self.take("{")
        depth, out = 1, []
        while True:
            tok = self.take()
            if tok == "{":
                depth += 1
            elif tok == "}":
                depth -= 1
                if depth == 0:
                    return out
            out.append(tok)

    def product(self):
        fs = [self.factor()]
        while self.peek() == "\\cdot":
            self.take()
            fs.append(self.factor())
        flat = []
        for f in fs:
            flat += list(f[1:]) if f[0] == "*" else [f]
        return flat[0] if len(flat) == 1 else ("*", *flat)

    def inside(self):
        """product (('+'|'-') product)*  -- only ever inside brackets."""
        e = self.product()
        while self.peek() in ("+", "-"):
            op = self.take()
            e = (op, e, self.product())
        return e

    def subscript(self, base):
        self.take()
        if self.peek() == "{":
            sub = "".join(self.group_text())
        else:
            sub = self.take()
            if len(sub) != 1:
                raise Unreadable(f"subscript {sub} needs braces")
        if self.peek() == "_":
            raise Unreadable("double subscript")
        seq, rest = [], sub
        while rest:
            for a in sorted(self.axes, key=len, reverse=True):
                if rest.startswith(a):
                    seq.append(a)
                    rest = rest[len(a):]
                    break
            else:
                break
        if rest:
            name = f"{base[0]}_{sub}"
            if len(base) == 1 and name in self.symbols:
                return (name,)
            raise Unreadable(f"subscript {sub}")
        return diff(base, tuple(seq))

    def factor(self):
        tok = self.peek()
        if tok == "(":
            self.take()
            e = self.inside()
            self.take(")")
        elif tok == "\\frac":
            self.take()
            e = self.fraction()
        elif tok is None:
            raise Unreadable("nothing left")
        elif re.fullmatch(r"\\?[A-Za-z][A-Za-z0-9]*", tok) or tok in ("0", "1"):
            self.take()
            name = tok[1:] if tok.startswith("\\") else tok
            if tok.startswith("\\") and name not in GREEK:
                raise Unreadable(tok)
            e = (name,)
        else:
            raise Unreadable(f"{tok} in {self.t}")
        if self.peek() == "_":
            e = self.subscript(e)
        if e[0] not in ("*", "+", "-", "/", "pow", "D") and e[0] not in self.symbols and e[0] not in ("0", "1"):
            raise Unreadable(f"unknown symbol {e[0]}")
        if self.peek() == "^":
            self.take()
            p = self.group_text()
            if self.peek() in ("^", "_"):
                raise Unreadable("double superscript")
            e = ("pow", e, int("".join(p)))
        return e

    def fraction(self):
        if self.peek(1) == "\\partial":
            self.take("{")
            self.take()
            order = 1
            if self.peek() == "^":
                self.take()
                order = int("".join(self.group_text()))
            operand = self.factor()
            self.take("}")
            den = self.group_text()
            if not den or den[0] != "\\partial":
                raise Unreadable("derivative without denominator")
            ax = den[1]
            if ax not in self.axes:
                raise Unreadable(f"axis {ax}")
            rest = den[2:]
            want = [] if order == 1 else ["^", "{", str(order), "}"]
            if rest != want:
                raise Unreadable(f"denominator {den} for order {order}")
            return diff(operand, (ax,) * order)
        self.take("{")
        a = self.inside()
        self.take("}")
        self.take("{")
        b = self.inside()
        self.take("}")
        return ("/", a, b)


def diff(e, seq):
    if e[0] == "D":
        return ("D", e[1], e[2] + seq)
    return ("D", e, seq)


def canonical(e, axes, fields):
    """Canonical form of a nested-tuple tree, to be compared with the text read back."""
    n = e[0]
    if len(e) == 1:
        base, sep, ax = n.rpartition("_")
        if sep and base in fields and ax in axes:
            return diff((base,), (ax,))
        return (n,)
    if n in ("d", "d^2"):
        ax = e[2][0]
        return diff(canonical(e[1], axes, fields), (ax,) * (1 if n == "d" else 2))
    kids = [canonical(c, axes, fields) for c in e[1:]]
    if n == "*":
        flat = []
        for k in kids:
            flat += list(k[1:]) if k[0] == "*" else [k]
        return ("*", *flat)
    if n in ("^2", "^3"):
        return ("pow", kids[0], int(n[1]))
    return (n, *kids)


def read_equation(text, axes, symbols):
    """(lhs expression, [(signed coefficient or None, expression)])"""
    if text.count(" = ") != 1:
        raise Unreadable(text)
    left, right = text.split(" = ")
    r = Reader(left, axes, symbols)
    lhs = r.factor()
    if r.peek() is not None:
        raise Unreadable(f"left-hand side {left}")
    r = Reader(right, axes, symbols)
    terms = []
    if right.strip() == "0":
        return lhs, terms
    sign = 1
    if r.peek() == "-":
        r.take()
        sign = -1
    while True:
        coeff = None
        tok = r.peek()
        if tok is not None and re.fullmatch(r"[\d.]+(?:[eE][+-]?\d+)?", tok):
            if r.peek(1) == "\\,":
                coeff = float(r.take())
                r.take()
                e = r.product()
            elif r.peek(1) in (None, "+", "-"):
                e = (tok,)
                if tok not in ("0", "1"):
                    e, coeff = ("1",), float(tok)
                r.take()
            else:
                e = r.product()
        else:
            e = r.product()
        terms.append((sign, coeff, e))
        tok = r.peek()
        if tok is None:
            return lhs, terms
        if tok not in ("+", "-"):
            raise Unreadable(f"{tok} after a term in {right}")
        r.take()
        sign = 1 if tok == "+" else -1
