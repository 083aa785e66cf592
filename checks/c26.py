"""C26: lifecycle and variable names of the regression wrappers."""
import contextlib
import itertools
import os
import shutil
import sys
import tempfile
import types

try:
    import triton._C.libtriton  # noqa: F401  (must be loaded before TensorFlow)
except Exception:  # noqa: BLE001
    pass
import numpy as np

from checks.c12 import stand_in
from mc.core import quiet

os.environ.setdefault("TQDM_DISABLE", "1")

ARITY = {"add": 2, "sub": 2, "mul": 2, "div": 2, "n2": 1, "n3": 1}
FUN = {"add": np.add, "sub": np.subtract, "mul": np.multiply, "div": np.divide, "n2": np.square, "n3": lambda a: a ** 3}


def value(tokens, X, consts=()):
    """Independent evaluation of a prefix expression on the rows of X."""
    toks, cs = list(tokens), list(consts)

    def go():
        t = toks.pop(0)
        if t in ARITY:
            args = [go() for _ in range(ARITY[t])]
            return FUN[t](*args)
        if t == "const":
            return np.full(len(X), float(cs.pop(0)))
        if t[0] == "x":
            return X[:, int(t[1:]) - 1]
        return np.full(len(X), float(t))
    out = go()
    assert not toks
    return out


def prefixes(ops, leaves, size):
    """All prefix expressions of exactly `size` tokens."""
    def go(n):
        if n == 1:
            yield from ((v,) for v in leaves)
        for o in ops:
            if ARITY[o] == 1 and n > 1:
                for a in go(n - 1):
                    yield (o, *a)
            elif ARITY[o] == 2:
                for k in range(1, n - 1):
                    for a in go(k):
                        for b in go(n - 1 - k):
                            yield (o, *a, *b)
    return list(go(size))


# ------------------------------------------------------------------ names
NAMES = ["x1", "x2", "x3", "x10", "ax1", "x1b", "x_1", "x", "1", "mul", "add", "R_F", "x2x1", "\\rho", "x1 ", "n2"]


def part_names(ck):
    ck.part("names")
    from kd.model.kd_discover_regression import KD_Discover_Regression as R
    render = getattr(R, "_render_named_expression", None)
    if render is None:
        ck.notes["names"] = "renderer not found: covered through fit only"
        return
    exprs = {2: [e for n in (1, 3, 4) for e in prefixes(["mul", "n2"], ["x1", "x2", "1.5"], n)],
             3: [e for n in (3,) for e in prefixes(["mul"], ["x1", "x2", "x3"], n)] + [("add", "x3", "mul", "x1", "x2"), ("add", "0.1", "x3")]}
    for n in (2, 3):
        for names in itertools.product(NAMES, repeat=n):
            ck.visit((n, names))
            for e in exprs[n]:
                rep = {"expression": ",".join(e), "names": names}
                got = render(",".join(e), list(names))
                ck.step()
                want = ",".join(names[int(t[1:]) - 1] if t[0] == "x" else t for t in e)
                ck.expect(got == want, "rename", f"{rep}: {got!r}, expected {want!r}", rep)
        ck.trace(len(NAMES) ** n)
    for n in (9, 10, 11, 12, 23):
        base = [f"x{i + 1}" for i in range(n)]
        for shift in range(n):
            for names in (base[shift:] + base[:shift], (base[shift:] + base[:shift])[::-1], [f"v{i}" for i in range(n)]):
                e = ["add"] * (n - 1) + base
                got = render(",".join(e), names)
                ck.step()
                ck.visit((n, shift, names[0], names[1]))
                ck.expect(got == ",".join(["add"] * (n - 1) + names), "rename:many", f"{names}: {got}", {"names": names})


# ------------------------------------------------------------------ KD_Discover_Regression
class Crash(Exception):
    pass


def stubbed():
    """The real wrapper with a scripted search: no controller, no training."""
    from kd.model.discover.program import from_str_tokens
    from kd.model.kd_discover_regression import KD_Discover_Regression

    class Scripted(KD_Discover_Regression):
        script = None

        def make_controller(self):
            return None

        def make_searcher(self):
            return None

        def train(self, n_epochs=100, verbose=True):
            if isinstance(self.script, Exception):
                raise self.script
            p = from_str_tokens(self.script, skip_cache=True)
            return {"program": p, "r": p.r_ridge, "expression": repr(p), "traversal": repr(p)}
    return Scripted


def build(cls, seed=0, **kw):
    return cls(n_iterations=1, n_samples_per_batch=20, binary_operators=["add", "sub", "mul", "div"], unary_operators=["n2"], seed=seed, **kw)


def table(n, rows=9, seed=0):
    return np.round(np.random.RandomState(seed + n).rand(rows, n) + 0.5, 3)


def same_values(a, b, tol=1e-6):
    return a.shape == b.shape and np.allclose(a, b, rtol=tol, atol=tol)


def judge_result(ck, key, rep, r, tokens, names, X, y, tol=1e-6):
    """What fit returns describes one and the same expression, with the user's names."""
    consts = list(np.ravel(r["constants"]))
    got = r["expression"].split(",")
    ck.expect(len(got) == len(tokens) and all(g == t if t != "const" else abs(float(g) - c) <= 6e-7 for g, t, c in
              zip(got, tokens, consts_at(tokens, consts))), key + ":expression", f"{rep}: {r['expression']} {consts}", rep)
    want = ",".join(names[int(t[1:]) - 1] if t in {f"x{i + 1}" for i in range(len(names))} else t for t in got)
    ck.expect(r["expression_named"] == want and list(r["var_names"]) == list(names), key + ":named",
              f"{rep}: {r['expression_named']!r}, expected {want!r}", rep)
    v = value(tokens, X, consts)
    mse = float(np.mean((y - v) ** 2))
    ck.expect(abs(r["mse"] - mse) <= 1e-9 + tol * mse, key + ":mse", f"{rep}: {r['mse']} != {mse}", rep)
    rew = 1.0 / (1.0 + np.sqrt(mse / max(np.var(y), 1e-12)))
    ck.expect(abs(r["reward"] - rew) <= 1e-6, key + ":reward", f"{rep}: {r['reward']} != {rew}", rep)
    return consts


def consts_at(tokens, consts):
    cs = list(consts)
    return [cs.pop(0) if t == "const" else 0.0 for t in tokens]


FITS = {"A": (2, "mul,x1,add,x2,x2", ["x2", "x1"]), "B": (3, "sub,x3,mul,const,x1", ["a", "x1", "b"]),
        "C": (2, "div,x2,n2,x1", None), "D": (2, "add,const,const", ["p", "q"])}
BAD_FITS = ("rows", "flat", "names", "crash", "nothing")
QUERIES = ("predict2", "predict3", "predict-flat", "predict-swapped")
OTHER = ("other:A", "other:B")


def part_regression(ck):
    ck.part("regression histories")
    Scripted = stubbed()
    ops = [*FITS, *BAD_FITS, *QUERIES, *OTHER]
    depth = 4 if ck.thorough else 3
    items = [s for n in range(1, depth + 1) for s in itertools.product(ops, repeat=n)
             if s[-1] in QUERIES or (s[-1] in FITS and n < depth)]
    # every history is followed by all queries, so only one query at the end is needed
    items = [s for s in items if s[-1] in FITS or s[-1] == "predict2"]

    def one(ck, seq):
        d = tempfile.mkdtemp(prefix="c26-")
        cwd = os.getcwd()
        os.chdir(d)
        try:
            m, other = build(Scripted), build(Scripted, seed=1)
            state = None          # (number of features, tokens, constants, X)
            for n, op in enumerate(seq):
                rep = {"history": seq[:n + 1]}
                fresh = ck.visit(seq[:n + 1])
                ck.step()
                with ck.case("regression", rep):
                    if op in FITS or op in BAD_FITS or op in OTHER:
                        w = other if op in OTHER else m
                        nf, expr, names = FITS[op.split(":")[-1]] if op not in BAD_FITS else FITS["B"]
                        X, y = table(nf, seed=len(op)), None
                        y = value(expr.replace("const", "1.5").split(","), X)
                        X0, y0 = X.copy(), y.copy()
                        w.script = expr
                        args = {"rows": (X, y[:-1]), "flat": (X[:, 0], y)}.get(op, (X, y))
                        nm = ["a"] if op == "names" else list(names) if names else None
                        if op == "crash":
                            w.script = Crash("search failed")
                        if op == "nothing":
                            w.script = "div,x1,sub,x2,x2"     # never valid
                        err = None
                        try:
                            with quiet():
                                r = w.fit(*args, **({} if nm is None else {"var_names": nm}))
                        except Exception as e:  # noqa: BLE001
                            err = e
                        if op in BAD_FITS:
                            ck.expect(err is not None, "regression:bad-fit-accepted", f"{rep}: {op}", rep)
                        elif ck.expect(err is None, "regression:fit-fails", f"{rep}: {err!r}", rep):
                            full = list(names or [f"x{i + 1}" for i in range(nf)])
                            cs = judge_result(ck, "regression", rep, r, expr.split(","), full, X0, y0)
                            if w is m:
                                state = (nf, expr.split(","), cs)
                            ck.trace()
                        ck.expect(np.array_equal(X, X0) and np.array_equal(y, y0), "regression:data", f"{rep}", rep)
                    if fresh or op in QUERIES:
                        ask(ck, m, state, rep)
        finally:
            os.chdir(cwd)
            shutil.rmtree(d, ignore_errors=True)

    ck.pool(one, items)


def ask(ck, m, state, rep):
    """Every query, against the latest successful fit."""
    for q in QUERIES:
        X = {"predict2": table(2, 5, 7), "predict3": table(3, 4, 7), "predict-flat": table(2, 5, 7)[:, 0],
             "predict-swapped": np.asfortranarray(table(state[0] if state else 2, 6, 7)[:, ::-1])}[q]
        X0 = X.copy()
        got, err = None, None
        try:
            with quiet():
                got = m.predict(X)
        except Exception as e:  # noqa: BLE001
            err = e
        ck.step()
        allowed = state is not None and X.ndim == 2 and X.shape[1] == state[0]
        r = {**rep, "query": q}
        if not allowed:
            ck.expect(isinstance(err, (RuntimeError, ValueError)), "regression:answers", f"{r}: {got} {err!r}", r)
        elif ck.expect(err is None, "regression:refuses", f"{r}: {err!r}", r):
            want = value(state[1], X0, state[2])
            ck.trace()
            ck.expect(same_values(np.asarray(got), want), "regression:prediction", f"{r}: {got}, expected {want}", r)
        ck.expect(np.array_equal(X, X0), "regression:query-data", f"{r}", r)
    if state is not None:
        x1 = table(state[0], 1, 9)
        with quiet():
            try:
                one = np.asarray(m.predict(x1))
            except Exception as e:  # noqa: BLE001
                one = repr(e)
        ck.expect(not isinstance(one, str) and same_values(one, value(state[1], x1, state[2])), "regression:one-row", f"{rep}: {one}", rep)


def part_expressions(ck):
    """Every small expression: fitted, named, predicted."""
    ck.part("regression expressions")
    Scripted = stubbed()
    sizes = (1, 2, 3, 4, 5) if ck.thorough else (1, 2, 3, 4)
    exprs = [e for n in sizes for e in prefixes(["add", "sub", "mul", "div", "n2"], ["x1", "x2", "const"], n)
             if n < 4 or (e.count("const") <= (2 if n < 5 else 1))]
    namings = [None, ["x2", "x1"], ["mul", "x10"], ["ax1", "x2"]]
    X = table(2, 8, 3)
    y = 1.0 + X[:, 0] * 2 - X[:, 1] ** 2
    Xn = table(2, 5, 11)

    def one(ck, e):
        d = tempfile.mkdtemp(prefix="c26-")
        cwd = os.getcwd()
        os.chdir(d)
        try:
            for k, names in enumerate(namings):
                if k and "const" in e and len(e) > 3:
                    continue
                rep = {"expression": ",".join(e), "names": names}
                ck.visit((e, k))
                m = build(Scripted)
                m.script = ",".join(e)
                with ck.case("expression", rep), np.errstate(all="ignore"):
                    try:
                        with quiet():
                            r = m.fit(X, y, var_names=names)
                    except Exception as err:  # noqa: BLE001
                        ck.step()
                        if "const" not in e:
                            v = value(e, X)
                            ck.expect(not np.all(np.isfinite(v)), "expression:fit-fails", f"{rep}: {err!r}", rep)
                        continue
                    ck.step()
                    cs = judge_result(ck, "expression", rep, r, list(e), names or ["x1", "x2"], X, y)
                    want = value(e, Xn, cs)
                    if np.all(np.isfinite(want)):
                        with quiet():
                            got = np.asarray(m.predict(Xn))
                        ck.step()
                        ck.trace()
                        ck.expect(same_values(got, want), "expression:prediction", f"{rep}: {got} != {want}", rep)
        finally:
            os.chdir(cwd)
            shutil.rmtree(d, ignore_errors=True)

    ck.pool(one, exprs)


def part_real(ck):
    """Whole fits with the real search."""
    ck.part("regression searches")
    from kd.model.kd_discover_regression import KD_Discover_Regression
    items = list(itertools.product(range(4 if ck.thorough else 2), (["x2", "x1"], ["a", "b"]), (False, True)))

    def one(ck, it):
        seed, names, again = it
        d = tempfile.mkdtemp(prefix="c26-")
        cwd = os.getcwd()
        os.chdir(d)
        rep = {"seed": seed, "names": names, "second fit": again}
        ck.visit((seed, tuple(names), again))
        try:
            with ck.case("search", rep, timeout=200):
                m = build(KD_Discover_Regression, seed=seed)
                X = table(2, 10, seed)
                y = 2 * X[:, 0] + X[:, 1]
                with quiet():
                    if again:
                        m.fit(table(3, 10, seed), X[:, 0])
                    r = m.fit(X, y, var_names=names)
                    got = np.asarray(m.predict(X[::-1]))
                ck.step(2)
                toks = ["const" if t not in ARITY and t[0] != "x" and any(abs(float(t) - c) <= 6e-7 for c in r["constants"]) else t
                        for t in r["expression"].split(",")]
                judge_result(ck, "search", rep, r, toks, names, X, y)
                want = value(toks, X[::-1], list(r["constants"]))
                ck.trace()
                ck.expect(same_values(got, want, 1e-5), "search:prediction", f"{rep}: {got} != {want}", rep)
        finally:
            os.chdir(cwd)
            shutil.rmtree(d, ignore_errors=True)

    ck.pool(one, items)


# ------------------------------------------------------------------ KD_PySR
class Backend:
    """Stands in for PySRRegressor: least squares on the columns, scripted failures."""
    fault = None
    style = "full"
    made = []

    def __init__(self, **kw):
        if Backend.fault == "build":
            raise Crash("no backend")
        self.kw, self.coef = kw, None
        style = Backend.style
        if style == "mixed":        # what a backend can tell differs from one fit to the next
            style = ("sympy", "bare", "raising", "full")[len(Backend.made) % 4]
        Backend.made.append(self)
        if style == "bare":
            self.get_best = self.sympy = self.latex = None
        elif style == "raising":
            self.get_best = self.sympy = self.latex = self.boom
        elif style == "sympy":
            self.latex = None

    def boom(self, *a):
        raise Crash("not available")

    def fit(self, X, y):
        self.data = (np.array(X), np.array(y))
        if Backend.fault == "fit":
            raise Crash("fit failed")
        self.coef = np.linalg.lstsq(X, y, rcond=None)[0]

    def predict(self, X):
        if self.coef is None:
            raise Crash("not fitted")
        if X.shape[1] != len(self.coef):
            raise ValueError("columns")
        return X @ self.coef

    def text(self):
        return " + ".join(f"{round(c, 4)}*x{i}" for i, c in enumerate(self.coef))

    def get_best(self):
        return {"equation": self.text()}

    def sympy(self):
        import sympy
        return sympy.sympify(self.text())

    def latex(self):
        return "L:" + self.text()

    def __str__(self):
        return "S:" + ("unfitted" if self.coef is None else self.text())


def part_pysr(ck):
    ck.part("pysr histories")
    from kd.model import kd_pysr
    sdk = types.ModuleType("pysr")
    sdk.PySRRegressor = Backend
    depth = 5 if ck.thorough else 4
    ops = ["fitA", "fitB", "fit-crash", "fit-build", "fit-rows", "fit-flat", "other", "mutate"]
    items = [(s, seq) for s in ("full", "sympy", "raising", "bare", "mixed") for n in range(0, depth + 1) for seq in itertools.product(ops, repeat=n)]
    coef = {"fitA": [2.0, -1.0], "fitB": [0.5, 3.0, 1.0], "other": [7.0, 7.0]}

    def one(ck, it):
        style, seq = it
        Backend.style, Backend.fault, Backend.made = style, None, []
        if hasattr(kd_pysr, "_PySRRegressor"):
            kd_pysr._PySRRegressor = None
        opsb, opsu, extra = ["+", "*"], ["cos"], {"maxsize": 9}
        with stand_in("pysr", sdk):
            m = kd_pysr.KD_PySR(niterations=3, binary_operators=opsb, unary_operators=opsu, extra_model_kwargs=extra)
            o = kd_pysr.KD_PySR(niterations=4)
            state, last = None, None
            for n, op in enumerate(("start", *seq)):
                rep = {"backend": style, "history": seq[:n]}
                ck.visit((style, seq[:n]))
                with ck.case("pysr", rep):
                    if op == "mutate":
                        if last is not None:
                            last[0][:] = 99.0
                            last[1][:] = -1.0
                        opsb.append("^")
                        extra["maxsize"] = 77
                    elif op != "start":
                        c = coef.get(op, coef["fitB"])
                        X = table(len(c), 8, 1)
                        y = X @ np.array(c)
                        Backend.fault = {"fit-crash": "fit", "fit-build": "build"}.get(op)
                        err = None
                        try:
                            w = o if op == "other" else m
                            ret = w.fit(*{"fit-rows": (X, y[:-1]), "fit-flat": (X[:, 0], y)}.get(op, (X, y.reshape(-1, 1) if op == "fitB" else y)))
                        except Exception as e:  # noqa: BLE001
                            err = e
                        Backend.fault = None
                        ck.step()
                        if op in ("fitA", "fitB", "other"):
                            ck.expect(err is None and ret is w, "pysr:fit", f"{rep}: {err!r}", rep)
                            b = Backend.made[-1]
                            ck.expect(np.array_equal(b.data[0], X) and np.array_equal(b.data[1], y), "pysr:backend-data", f"{rep}", rep)
                            if op != "other":
                                state, last = (c, X.copy(), y.copy()), (X, y)
                                ck.expect(b.kw.get("niterations") == 3 and b.kw.get("unary_operators") == ["cos"]
                                          and b.kw.get("binary_operators") == ["+", "*"] and b.kw.get("maxsize") == 9, "pysr:settings", f"{rep}: {b.kw}", rep)
                            else:
                                ck.expect(b.kw == {"niterations": 4}, "pysr:settings", f"{rep}: {b.kw}", rep)
                        else:
                            ck.expect(err is not None, "pysr:bad-accepted", f"{rep}: {op}", rep)
                    queries(ck, m, state, style, rep)

    ck.pool(one, items)
    if hasattr(kd_pysr, "_PySRRegressor"):
        kd_pysr._PySRRegressor = None


def queries(ck, m, state, style, rep):
    for nf in (2, 3):
        X = table(nf, 4, 5)
        got = err = None
        try:
            got = m.predict(X)
        except Exception as e:  # noqa: BLE001
            err = e
        ck.step()
        if state is None or len(state[0]) != nf:
            ck.expect(err is not None, "pysr:answers", f"{rep}: predict with {nf} columns gave {got}", rep)
        else:
            ck.trace()
            ck.expect(err is None and same_values(np.asarray(got), X @ np.array(state[0])), "pysr:prediction", f"{rep}: {got} {err!r}", rep)
    eq = err = None
    try:
        eq = m.equation_latex()
    except Exception as e:  # noqa: BLE001
        err = e
    if state is None:
        ck.expect(isinstance(err, RuntimeError), "pysr:equation-early", f"{rep}: {eq} {err!r}", rep)
        ck.expect(m.best_equation_ is None, "pysr:best-early", f"{rep}: {m.best_equation_}", rep)
        return
    want = " + ".join(f"{round(c, 4)}*x{i}" for i, c in enumerate(np.array(state[0])))
    norm = {k: float(v) for k, v in zip("abcd", state[0])}
    ck.expect(err is None and len(numbers(eq)) == len(state[0]) and np.allclose(sorted(numbers(eq)), sorted(state[0]), atol=1e-3),
              "pysr:equation", f"{rep}: {eq!r} {err!r}, fit has {norm}", rep)
    ck.expect(numbers(str(m.best_equation_)) and np.allclose(sorted(numbers(str(m.best_equation_))), sorted(state[0]), atol=1e-3),
              "pysr:best", f"{rep}: {m.best_equation_!r}, expected {want}", rep)
    X, y = getattr(m, "X_train_", None), getattr(m, "y_train_", None)
    if X is not None:
        ck.expect(np.array_equal(X, state[1]) and np.array_equal(y, state[2]), "pysr:training-data", f"{rep}", rep)


def numbers(text):
    """Coefficients of a small linear expression, also when a coefficient is 1."""
    import re
    text = text.replace("\\cdot", "*").replace("{", "").replace("}", "").replace("_", "")
    text = text.split("=")[-1].split(":")[-1].replace("- ", "-").replace("+ ", " ")
    out = []
    for m in re.finditer(r"(-?\d*\.?\d*)\s*\*?\s*x(\d)", text):
        c = m.group(1)
        out.append(float(c) if c not in ("", "-") else (-1.0 if c == "-" else 1.0))
    return out


def run(ck):
    import kd.model  # noqa: F401
    part_names(ck)
    part_regression(ck)
    part_expressions(ck)
    part_real(ck)
    part_pysr(ck)
    ck.assumptions += ["The search of the histories is scripted (the real one runs in 'regression searches'); PySR is not installed and stands in as a recorder."]
