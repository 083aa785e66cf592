"""C03: the value of an expression on the data is the one its operators define; non-finite results are invalid."""
import itertools
import math

try:
    import triton._C.libtriton  # noqa: F401
except Exception:  # noqa: BLE001
    pass
import numpy as np

from mc.core import h, quiet
from mc.explore import sequences

GAMMA = 0.5772156649015329


# ------------------------------------------------------------ what the operators mean
def line(u, axis, f):
    v = np.moveaxis(np.asarray(u, float), axis, 0)
    return np.moveaxis(f(v), 0, axis)


def d1(u, step, axis, wrap=False):
    def f(v):
        o = np.empty_like(v)
        o[1:-1] = (v[2:] - v[:-2]) / (2 * step)
        if wrap:
            o[0] = (v[1] - v[-1]) / (2 * step)
            o[-1] = (v[0] - v[-2]) / (2 * step)
        else:
            o[0] = (-1.5 * v[0] + 2 * v[1] - 0.5 * v[2]) / step
            o[-1] = (1.5 * v[-1] - 2 * v[-2] + 0.5 * v[-3]) / step
        return o
    return line(u, axis, f)


def d2(u, step, axis, wrap=False):
    def f(v):
        o = np.empty_like(v)
        o[1:-1] = (v[2:] - 2 * v[1:-1] + v[:-2]) / step ** 2
        if wrap:
            o[0] = (v[1] - 2 * v[0] + v[-1]) / step ** 2
            o[-1] = (v[0] - 2 * v[-1] + v[-2]) / step ** 2
        else:
            o[0] = (2 * v[0] - 5 * v[1] + 4 * v[2] - v[3]) / step ** 2
            o[-1] = (2 * v[-1] - 5 * v[-2] + 4 * v[-3] - v[-4]) / step ** 2
        return o
    return line(u, axis, f)


def harmonic(x):
    x = np.asarray(x, float)
    if np.all((np.floor(x) == x) & (x < 1000)):
        return np.vectorize(lambda v: sum(1.0 / k for k in range(1, int(v) + 1)), otypes=[float])(x)
    return GAMMA + np.log(x) + 0.5 / x - 1 / (12 * x ** 2) + 1 / (120 * x ** 4)


PLAIN = {
    "add": (2, lambda a, b: a + b), "sub": (2, lambda a, b: a - b), "mul": (2, lambda a, b: a * b),
    "div": (2, lambda a, b: a / b), "max": (2, np.maximum), "min": (2, np.minimum),
    "sin": (1, np.sin), "cos": (1, np.cos), "tan": (1, np.tan), "exp": (1, np.exp), "log": (1, np.log), "sqrt": (1, np.sqrt),
    "n2": (1, lambda a: a * a), "neg": (1, lambda a: -a), "abs": (1, np.abs), "tanh": (1, np.tanh), "inv": (1, lambda a: 1 / a),
    "logabs": (1, lambda a: np.log(np.abs(a))), "expneg": (1, lambda a: np.exp(-a)), "n3": (1, lambda a: a * a * a),
    "n4": (1, lambda a: a ** 4), "n5": (1, lambda a: a ** 5), "sigmoid": (1, lambda a: 1 / (1 + np.exp(-a))),
    "harmonic": (1, harmonic),
}


def where(c, a, b):
    return np.where(c, a, b)


PROTECTED = {
    "div": (2, lambda a, b: where(np.abs(b) > 0.001, a / b, 1.0)),
    "exp": (1, lambda a: where(a < 100, np.exp(a), 0.0)),
    "log": (1, lambda a: where(np.abs(a) > 0.001, np.log(np.abs(a)), 0.0)),
    "logabs": (1, lambda a: where(np.abs(a) > 0.001, np.log(np.abs(a)), 0.0)),
    "sqrt": (1, lambda a: np.sqrt(np.abs(a))),
    "inv": (1, lambda a: where(np.abs(a) > 0.001, 1 / a, 0.0)),
    "expneg": (1, lambda a: where(a > -100, np.exp(-a), 0.0)),
    "n2": (1, lambda a: where(np.abs(a) < 1e6, a * a, 0.0)),
    "n3": (1, lambda a: where(np.abs(a) < 1e6, a ** 3, 0.0)),
    "n4": (1, lambda a: where(np.abs(a) < 1e6, a ** 4, 0.0)),
    "sigmoid": (1, lambda a: 1 / (1 + where(a > -100, np.exp(-a), 0.0))),
}
TORCH = {
    "add_t": (2, lambda a, b: a + b), "sub_t": (2, lambda a, b: a - b), "mul_t": (2, lambda a, b: a * b),
    "div_t": (2, lambda a, b: a / where(np.abs(b) > 1e-8, b, 1e-8)),
    "n2_t": (1, lambda a: where(np.abs(a) < 1e6, a * a, 0.0)), "n3_t": (1, lambda a: where(np.abs(a) < 1e6, a ** 3, 0.0)),
}
DIFF = {"diff": 1, "diff2": 2, "diff3": 3, "diff4": 4, "Diff": 1, "Diff2": 2, "Diff_3": 1, "Diff2_3": 2}
LAP = ("lap", "lap_3")


class Env:
    """Named values on the grid, and which axis / spacing a coordinate has."""

    def __init__(self, values, axes=None, steps=None, wrap=False, ops=PLAIN):
        self.values, self.axes, self.steps, self.wrap, self.ops = values, axes or {}, steps or {}, wrap, ops

    def eval(self, tree, full):
        """-> (value, flagged, finite throughout)"""
        flags = []

        class Log:
            def write(self, m):
                flags.append(m)
        with np.errstate(all="log", call=Log()):
            v = self._rec(tree, full, flags)
        return v, bool(flags)

    def _rec(self, t, full, flags):
        n = t[0]
        if len(t) == 1:
            v = self.values[n]
            return v
        if n in DIFF:
            a = np.broadcast_to(self._rec(t[1], full, flags), full) if full else self._rec(t[1], full, flags)
            x = t[2][0]
            # a function of its own coordinate alone is not taken to be periodic
            wrap = self.wrap and not all(n == x for n in flat(t[1]) if n in self.values)
            ax, st = self.axes[x], self.steps[x]
            o = DIFF[n]
            if o == 1:
                return d1(a, st, ax, wrap)
            b = d2(a, st, ax, wrap)
            return b if o == 2 else d1(b, st, ax, wrap) if o == 3 else d2(b, st, ax, wrap)
        if n in LAP:
            a = np.broadcast_to(self._rec(t[1], full, flags), full)
            used = {n for n in flat(t[1]) if n in self.values}
            return sum(d2(a, self.steps[x], self.axes[x], self.wrap and used != {x}) for x in self.axes)
        f = self.ops[n][1]
        return f(*[self._rec(c, full, flags) for c in t[1:]])


def trees(size, leaves, ops, coords=()):
    """All trees of exactly `size` tokens.  The second operand of a derivative is a coordinate."""
    if size == 1:
        return [(x,) for x in leaves]
    out = []
    for op, ar in ops.items():
        if op in DIFF or op.endswith("_t") and op[:-2] in DIFF:
            if size >= 3:
                out += [(op, a, (c,)) for a in trees(size - 2, leaves, ops, coords) for c in coords]
        elif ar == 1:
            out += [(op, a) for a in trees(size - 1, leaves, ops, coords)]
        else:
            for k in range(1, size - 1):
                out += [(op, a, b) for a in trees(k, leaves, ops, coords) for b in trees(size - 1 - k, leaves, ops, coords)]
    return out


def flat(t):
    out = [t[0]]
    for c in t[1:]:
        out += flat(c)
    return out


def uses(t, prefix):
    return any(n[0] == prefix and n[1:].isdigit() for n in flat(t))


def close(a, b, tol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    with np.errstate(all="ignore"):
        big = np.max(np.abs(b)) if b.size else 0.0
        return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(b)) + 1e-12 * (0 if not np.isfinite(big) else big)))


# ------------------------------------------------------------ the real thing
def setup(functions, data, protected=False, torch=False, metric="pde_reward"):
    from kd.model.discover.program import Program
    from kd.model.discover.task.pde.pde import PDETask
    t = PDETask(list(functions), "case", metric=metric, metric_params=(0.01,), protected=protected, spatial_error=False,
                max_depth=50, use_torch=torch)
    t.load_data(data)
    Program.n_objects = 1
    Program.default_terms = []
    Program.set_task(t)
    Program.set_execute(protected, torch)
    Program.set_const_optimizer("dummy")
    Program.set_complexity("token")
    Program.clear_cache()
    return t


def setup_regression(functions, X, y, protected=False):
    from kd.model.discover.program import Program
    from kd.model.discover.task.regression import RegressionTask
    t = RegressionTask(list(functions), "case", protected=protected)
    t.load_data({"X": X, "y": y})
    Program.n_objects = 1
    Program.default_terms = []
    Program.set_task(t)
    Program.set_execute(protected, False)
    Program.set_const_optimizer("dummy")
    Program.set_complexity("token")
    Program.clear_cache()
    return t


def program(tree):
    from kd.model.discover.program import from_tokens, Program
    lib = Program.library
    return from_tokens(np.array([lib.names.index(n) for n in flat(tree)], dtype=np.int32))


def frozen(d):
    return {k: v.tobytes() for k, v in d.items()}


def judge(ck, key, got, invalid, want, flagged, shape, rep, tol=1e-9):
    """The verdict on one evaluation."""
    with np.errstate(all="ignore"):
        w = np.broadcast_to(np.asarray(want, float), shape) if shape is not None else np.asarray(want, float)
        bad = not np.all(np.isfinite(w))
    ck.step()
    if bad:
        ck.expect(invalid, f"{key}:non-finite-accepted", lambda: f"{rep}: the value is not finite, the expression is valid", rep)
        return
    if invalid:
        ck.expect(flagged, f"{key}:valid-refused", lambda: f"{rep}: finite value, no floating-point error, yet invalid", rep)
        return
    if not ck.expect(got is not None, f"{key}:no-value", lambda: f"{rep}", rep):
        return
    g = np.asarray(got, float)
    try:
        g = np.broadcast_to(g, w.shape)
    except ValueError:
        ck.fail(f"{key}:shape", f"{rep}: shape {g.shape}, expected {w.shape}", rep)
        return
    ck.expect(close(g, w, tol), f"{key}:value", lambda: f"{rep}: {np.ravel(g)[:4]} expected {np.ravel(w)[:4]}", rep)


# ------------------------------------------------------------ A: one space dimension
N, T = 6, 5
STEP = 0.5


def worlds():
    x = -1.0 + STEP * np.arange(N)
    t = 0.25 * np.arange(T)
    X, TT = np.meshgrid(x, t, indexing="ij")
    gen = np.sin(1.3 * X + 0.4) + 0.5 * X * TT + 1.7
    zero = gen.copy()
    zero[2, 1] = zero[0, 0] = zero[N - 1, 2] = 0.0
    neg = -gen
    neg[1, 1] = 0.5
    big = gen * 1e180
    small = gen * 1e-200
    inf, nan = gen.copy(), gen.copy()
    inf[1, 2], inf[4, 0] = np.inf, -np.inf
    nan[3, 3] = np.nan
    ints = np.round(4 * np.sin(3.1 * X + 7.7 * TT))
    return {"generic": gen, "zeros": zero, "negative": neg, "large": big, "small": small, "integers": ints,
            "constant": np.full_like(gen, 2.0), "infinite": inf, "missing": nan}, x


SUB_A = (("add", "sub", "mul", "n2"), ("mul", "div", "n3"), ("diff", "diff2", "mul", "add"), ("diff", "diff3", "n2"),
         ("diff2", "diff4", "div"), ("exp", "log", "div"), ("sqrt", "inv", "neg", "sub"), ("max", "min", "abs", "sub"),
         ("sin", "cos", "tanh", "mul"), ("tan", "logabs", "expneg"), ("n4", "n5", "sigmoid"))


def all_ops():
    o = {k: v[0] for k, v in PLAIN.items()}
    o.update({k: 2 for k in DIFF})
    return o


def a_plain(ck, item):
    fs, wname, depth = item
    ws, x = worlds()
    u = ws[wname]
    data = {"u": u, "X": [x.reshape(-1, 1)], "ut": (u * 0.5 + 1.0), "n_input_dim": 1,
            "n_param_var": 4, "param_data": [u - 7.0, np.abs(u) * 0.5 + 0.25 * (wname != "zeros"), u + 9.0, u - 4.0],
            "param_names": ["p1", "p2", "p3", "p4"]}
    keep = frozen({"u": u, "x": data["X"][0], "p": data["param_data"][1], "ut": data["ut"]})
    task = setup(fs, data)
    ops = {f: all_ops()[f] for f in fs}
    env = Env({"u1": u, "x1": x.reshape(-1, 1), "p2": data["param_data"][1]}, {"x1": 0}, {"x1": STEP})
    from kd.model.discover.program import Program
    for size in range(1, depth + 1):
        for tree in trees(size, ("u1", "x1", "p2"), ops, ("x1",)):
            rep = dict(functions=fs, data=wname, expression=",".join(flat(tree)))
            if not ck.visit((fs, wname, tree)):
                continue
            want, flagged = env.eval(tree, u.shape)
            with ck.case("plain", rep):
                p = program(tree)
                got, invalid, _, _ = Program.execute_function(p.traversal, task.u, task.x)
                judge(ck, "plain", got, bool(invalid), want, flagged, u.shape, rep)
            ck.trace()
            if keep != frozen({"u": task.u[0], "x": task.x[0], "p": data["param_data"][1], "ut": data["ut"]}):
                ck.fail("plain:data-modified", f"{rep}", rep)
                return
    ck.sample(dict(functions=fs, data=wname, depth=depth))


# ------------------------------------------------------------ B: every operator, protected or not, on special values
SPECIAL = (0.0, 1.0, -1.0, 0.5, -0.25, 2.0, 5.0, 0.0009, -0.0009, 0.0011, 99.0, 101.0, -99.0, -101.0, 800.0, 1e5, 1.1e6, -1.1e6,
           1e200, -1e200, 1e-200, 1e-320)


def b_special(ck, item):
    mode, outer, inner = item
    table = dict(PLAIN)
    if mode == "protected":
        table.update(PROTECTED)
    fs = [f for f in dict.fromkeys((outer, inner)) if f]
    xs = np.array(SPECIAL)
    a, b = [v.ravel() for v in np.meshgrid(xs, xs, indexing="ij")] if table[outer][0] == 2 or (inner and table[inner][0] == 2) \
        else (xs, xs[::-1].copy())
    from kd.model.discover.program import Program
    inner_tree = ("x1",) if not inner else (inner, ("x1",)) if table[inner][0] == 1 else (inner, ("x1",), ("x2",))
    shapes = [(outer, inner_tree)] if table[outer][0] == 1 else [(outer, inner_tree, ("x2",)), (outer, ("x2",), inner_tree)]
    with ck.case(f"{mode}:{outer}", item):
        task = setup_regression(fs, [a, b], a, protected=mode == "protected")
        for tree in shapes:
            toks = flat(tree)
            p = program(tree)
            # one value at a time (validity is judged per data set), then all finite ones at once
            ok = []
            for i in range(len(a)):
                env = Env({"x1": a[i:i + 1].reshape(-1, 1), "x2": b[i:i + 1].reshape(-1, 1)}, ops=table)
                if (outer == "harmonic" or inner == "harmonic") and max(abs(a[i]), abs(b[i])) > 1e100:
                    continue
                rep = dict(mode=mode, expression=",".join(toks), x1=a[i], x2=b[i])
                ck.visit((mode, tuple(toks), a[i], b[i]))
                try:
                    want, flagged = env.eval(tree, None)
                except (OverflowError, ValueError):
                    continue
                got, _, _ = p.execute_direct([a[i:i + 1].reshape(-1, 1), b[i:i + 1].reshape(-1, 1)])
                judge(ck, f"{mode}:{outer}", got, bool(p.invalid), want, flagged, (1, 1), rep,
                      1e-6 if "harmonic" in toks else 1e-9)
                if np.all(np.isfinite(want)) and not flagged and "harmonic" not in toks:
                    ok.append(i)
            if ok:
                A, B = a[ok].reshape(-1, 1), b[ok].reshape(-1, 1)
                want, flagged = Env({"x1": A, "x2": B}, ops=table).eval(tree, None)
                got, _, _ = p.execute_direct([A, B])
                judge(ck, f"{mode}:{outer}:vector", got, bool(p.invalid), want, flagged, A.shape,
                      dict(mode=mode, expression=",".join(toks), vector=True))
            ck.trace()


def b_torch(ck, item):
    """The torch operators on the special values, one by one and all at once."""
    import torch
    from kd.model.discover.functions import function_map
    from kd.model.discover.library import Token
    from kd.model.discover.stridge import unsafe_execute_torch
    outer, inner = item
    x1, x2 = Token(None, "x1", 0, 1, input_var=0), Token(None, "x2", 0, 1, input_var=1)
    a, b = [v.ravel() for v in np.meshgrid(SPECIAL, SPECIAL, indexing="ij")]
    sub = ("x1",) if inner is None else (inner, ("x1",)) if TORCH[inner][0] == 1 else (inner, ("x1",), ("x2",))
    for tree in ([(outer, sub)] if TORCH[outer][0] == 1 else [(outer, sub, ("x2",)), (outer, ("x2",), sub)]):
        toks = [{"x1": x1, "x2": x2}.get(n) or function_map[n] for n in flat(tree)]
        with np.errstate(all="ignore"):
            want, _ = Env({"x1": a.reshape(-1, 1), "x2": b.reshape(-1, 1)}, ops=TORCH).eval(tree, None)
        rows = [[i] for i in range(len(a))] + [[i for i in range(len(a)) if np.isfinite(want[i, 0])]]
        for r in rows:
            rep = dict(mode="torch", expression=",".join(flat(tree)), x1=a[r][:3], x2=b[r][:3])
            ck.visit((tree, tuple(r) if len(r) < 2 else "all"))
            with ck.case(f"torch:{outer}", rep), quiet():
                cols = [torch.tensor(v[r].reshape(-1, 1), dtype=torch.float64, requires_grad=True) for v in (a, b)]
                got, invalid, _, _ = unsafe_execute_torch(list(toks), [cols[0]], cols)
                _, flagged = Env({"x1": a[r].reshape(-1, 1), "x2": b[r].reshape(-1, 1)}, ops=TORCH).eval(tree, None)
                judge(ck, f"torch:{outer}", None if invalid else got.detach().numpy(), bool(invalid), want[r], flagged,
                      (len(r), 1), rep)
        ck.trace()


def b_states(ck, item):
    """Several unknowns: each name means its own one."""
    import torch
    from kd.model.discover.functions import function_map
    from kd.model.discover.library import Token
    from kd.model.discover.stridge import unsafe_execute, unsafe_execute_torch
    fs, n, size = item
    ws, x = worlds()
    vals = [ws["generic"] + 3.0 * k * np.cos((k + 1) * ws["generic"]) for k in range(n)]
    names = [f"u{k + 1}" for k in range(n)]
    tok = {f: function_map[f] for f in fs}
    tok.update({m: Token(None, m, 0, 1, state_var=k) for k, m in enumerate(names)})
    tok["x1"] = Token(None, "x1", 0, 1, input_var=0)
    cols = [v[:, 1:2] for v in vals]
    for tree in trees(size, tuple(names) + ("x1",), {f: function_map[f].arity for f in fs}, ("x1",)):
        rep = dict(functions=fs, states=n, expression=",".join(flat(tree)))
        ck.visit((fs, n, tree))
        with ck.case("states", rep), quiet():
            if fs[0].endswith("_t"):
                c = [torch.tensor(x.reshape(-1, 1), requires_grad=True)]
                got, bad, _, _ = unsafe_execute_torch([tok[m] for m in flat(tree)], [torch.tensor(np.hstack(cols))], c)
                want, flagged = Env({**dict(zip(names, cols)), "x1": x.reshape(-1, 1)}, ops=TORCH).eval(tree, None)
                judge(ck, "states", None if bad else got.detach().numpy(), bool(bad), want, flagged, (N, 1), rep)
            else:
                got, bad, _, _ = unsafe_execute([tok[m] for m in flat(tree)], vals, [x.reshape(-1, 1)])
                want, flagged = Env({**dict(zip(names, vals)), "x1": x.reshape(-1, 1)}, {"x1": 0}, {"x1": STEP}).eval(tree, (N, T))
                judge(ck, "states", got, bool(bad), want, flagged, (N, T), rep)
        ck.trace()


# ------------------------------------------------------------ C: torch
def poly_mul(p, q):
    out = {}
    for (a, c) in p.items():
        for (b, d) in q.items():
            k = tuple(i + j for i, j in zip(a, b))
            out[k] = out.get(k, 0.0) + c * d
    return out


class Poly(dict):
    def on(self, cols):
        return sum((c * np.prod([v ** e for v, e in zip(cols, k)], axis=0) for k, c in self.items()), np.zeros_like(cols[0]))

    def diff(self, j):
        out = Poly()
        for k, c in self.items():
            if k[j]:
                kk = k[:j] + (k[j] - 1,) + k[j + 1:]
                out[kk] = out.get(kk, 0.0) + c * k[j]
        return out


def poly_of(tree, env, nd):
    """The exact polynomial of a torch tree (None if it has a quotient)."""
    n = tree[0]
    if len(tree) == 1:
        return env[n]
    if n.startswith("diff"):
        o = int(n[4:-2] or 1)
        p = poly_of(tree[1], env, nd)
        if p is None:
            return None
        for _ in range(o):
            p = p.diff(int(tree[2][0][1:]) - 1)
        return p
    subs = [poly_of(c, env, nd) for c in tree[1:]]
    if any(s is None for s in subs):
        return None
    if n == "lap_t":
        out = Poly()
        for j in range(nd):
            for k, c in subs[0].diff(j).diff(j).items():
                out[k] = out.get(k, 0.0) + c
        return out
    if n in ("add_t", "sub_t"):
        out = Poly(subs[0])
        for k, c in subs[1].items():
            out[k] = out.get(k, 0.0) + (c if n == "add_t" else -c)
        return out
    if n == "mul_t":
        return Poly(poly_mul(subs[0], subs[1]))
    if n == "n2_t":
        return Poly(poly_mul(subs[0], subs[0]))
    if n == "n3_t":
        return Poly(poly_mul(poly_mul(subs[0], subs[0]), subs[0]))
    return None


SUB_C = (("add_t", "sub_t", "mul_t", "n2_t"), ("mul_t", "div_t", "n3_t"), ("diff_t", "diff2_t", "mul_t"), ("diff_t", "n2_t", "add_t"),
         ("diff3_t", "mul_t"), ("lap_t", "n2_t", "mul_t"), ("diff4_t", "n3_t"))


def c_torch(ck, item):
    fs, nd, size = item
    import torch
    from kd.model.discover.functions import function_map
    from kd.model.discover.library import Token
    from kd.model.discover.stridge import unsafe_execute_torch
    pts = np.array([[-1.0 + 0.4 * i + 0.17 * j * j for j in range(nd)] for i in range(6)])
    upoly = Poly({tuple(2 if i == j else 0 for i in range(nd)): 1.0 + j for j in range(nd)})
    for j in range(nd):
        k = tuple(3 if i == j else 1 for i in range(nd))
        upoly[k] = 0.5
    upoly[(0,) * nd] = 1.3
    env = {"u1": upoly}
    for j in range(nd):
        env[f"x{j + 1}"] = Poly({tuple(1 if i == j else 0 for i in range(nd)): 1.0})
    ops = {f: function_map[f].arity for f in fs}
    coords = tuple(f"x{j + 1}" for j in range(nd))
    cols_np = [pts[:, j:j + 1] for j in range(nd)]
    tok = {f: function_map[f] for f in fs}
    tok["u1"] = Token(None, "u1", 0, 1, state_var=0)
    for j in range(nd):
        tok[f"x{j + 1}"] = Token(None, f"x{j + 1}", 0, 1, input_var=j)
    for tree in trees(size, ("u1",) + coords, ops, coords):
        rep = dict(functions=fs, dims=nd, expression=",".join(flat(tree)))
        ck.visit((fs, nd, tree))
        cols = [torch.tensor(c, dtype=torch.float64, requires_grad=True) for c in cols_np]
        u = sum(c * math.prod([cols[j] ** k[j] for j in range(nd)]) for k, c in upoly.items())
        before = u.detach().numpy().copy()
        want = poly_of(tree, env, nd)
        with ck.case("torch", rep):
            with quiet():
                got, invalid, _, _ = unsafe_execute_torch([tok[n] for n in flat(tree)], [u], cols)
            ck.step()
            if want is None:
                if any(n.startswith("diff") or n == "lap_t" for n in flat(tree)):
                    continue
                e = Env({k: v.on(cols_np) for k, v in env.items()}, ops=TORCH)
                w, _ = e.eval(tree, None)
            else:
                w = want.on(cols_np)
            if invalid:
                # autograd refuses a derivative that vanishes identically, or of something without that coordinate
                der = [s for s in subtrees(tree) if s[0].startswith("diff") or s[0] == "lap_t"]
                ck.expect(any(vanishes(s, env, nd) for s in der), "torch:valid-refused", f"{rep}", rep)
            else:
                ck.expect((want is not None and huge(tree, env, cols_np)) or close(got.detach().numpy(), w, 1e-8), "torch:value",
                          lambda: f"{rep}: {got.detach().numpy().ravel()[:4]} expected {w.ravel()[:4]}", rep)
            ck.expect(np.array_equal(u.detach().numpy(), before), "torch:data-modified", f"{rep}", rep)
        ck.trace()


def subtrees(t):
    yield t
    for c in t[1:]:
        yield from subtrees(c)


def huge(tree, env, cols):
    """Some power meets values beyond the limit up to which it is defined as one."""
    for s in subtrees(tree):
        if s[0] in ("n2_t", "n3_t"):
            p = poly_of(s[1], env, len(cols))
            if p is None or np.max(np.abs(p.on(cols))) > 0.99e6:
                return True
    return False


def vanishes(s, env, nd):
    """Differentiating s makes a constant of some coordinate on the way."""
    p = poly_of(s[1], env, nd)
    if p is None:
        return True
    if s[0] == "lap_t":
        return any(not p.diff(j) or not p.diff(j).diff(j) or all(k[j] == 0 for k in p.diff(j)) for j in range(nd))
    j, o = int(s[2][0][1:]) - 1, int(s[0][4:-2] or 1)
    for _ in range(o):
        if all(k[j] == 0 for k in p):
            return True
        p = p.diff(j)
        if all(all(e == 0 for e in k) for k in p):
            return True
    return not p


# ------------------------------------------------------------ D: two and three space dimensions
SUB_D2 = (("mul", "add", "Diff"), ("Diff2", "mul", "n2"), ("lap", "mul", "sub"), ("div", "Diff", "n2"))
SUB_D3 = (("mul", "add", "Diff_3"), ("Diff2_3", "mul", "n2"), ("lap_3", "mul", "sub"))


def d_nd(ck, item):
    fs, sizes, flatx, size = item
    nd = len(sizes) - 1
    steps = [0.5, 0.25, 1.5][:nd]
    cs = [-0.7 + 0.3 * j + s * np.arange(n) for j, (n, s) in enumerate(zip(sizes[1:], steps))]
    grid = np.meshgrid(np.arange(float(sizes[0])), *cs, indexing="ij")
    u = 1.5 + np.sin(grid[0] + 0.3) * 0.5 + sum((0.4 + 0.3 * j) * np.cos((1 + j) * g + 0.2) for j, g in enumerate(grid[1:]))
    p1 = 0.3 + 0.1 * grid[1] ** 2 + 0.2 * grid[-1]
    X = [c.reshape(-1, 1) if flatx == "column" else c for c in cs]
    data = {"u": u, "X": X, "ut": u * 0.5, "n_input_dim": nd, "n_param_var": 1, "param_data": [p1], "param_names": ["p1"]}
    coords = tuple(f"x{j + 1}" for j in range(nd))
    ops = {f: (1 if f in LAP else 2 if f in DIFF else PLAIN[f][0]) for f in fs}
    env = Env({"u1": u, "p1": p1, **{f"x{j + 1}": grid[j + 1] for j in range(nd)}},
              {f"x{j + 1}": j + 1 for j in range(nd)}, {f"x{j + 1}": s for j, s in enumerate(steps)}, wrap=nd == 2)
    task = setup(fs, data)
    from kd.model.discover.program import Program
    keep = frozen({"u": u, "p": p1, **{f"x{j}": c for j, c in enumerate(X)}})
    for tree in trees(size, ("u1", "p1") + coords, ops, coords):
        rep = dict(functions=fs, sizes=sizes, expression=",".join(flat(tree)), coordinates=flatx)
        if not ck.visit((fs, sizes, flatx, tree)):
            continue
        want, flagged = env.eval(tree, u.shape)
        with quiet(), ck.case(f"nd{nd}", rep):
            p = program(tree)
            got, invalid, _, _ = Program.execute_function(p.traversal, task.u, task.x)
            if not uses(tree, "u") and tree[0] not in ("u1",):
                # no state variable: never a term of an equation, its value may stay on its own axis
                ck.step()
            elif got is None:
                ck.fail(f"nd{nd}:no-value", f"{rep}", rep)
            else:
                # a derivative of something that lives on fewer axes may be refused, not wrong
                judge(ck, f"nd{nd}", got, bool(invalid), want, flagged or thin(tree), u.shape, rep, 1e-8)
        ck.trace()
    ck.expect(keep == frozen({"u": task.u[0], "p": p1, **{f"x{j}": c for j, c in enumerate(task.x)}}), f"nd{nd}:data-modified", "",
              dict(functions=fs, sizes=sizes))


def thin(tree):
    return any((s[0] in DIFF or s[0] in LAP) and not uses(s[1], "u") and not uses(s[1], "p") for s in subtrees(tree))


# ------------------------------------------------------------ E: regression inputs
def e_inputs(ck, item):
    fs, consts = item
    n = 5
    a = np.array([-1.0, 0.5, 2.0, 3.0, 1.5])
    b = np.array([2.0, 1.0, -0.5, 4.0, 0.25])
    from kd.model.discover.program import Program, from_str_tokens
    leaves = ("x1", "x2") + (("const",) if consts == "const" else ("0.5",) if consts == "hard" else ())
    names = list(fs) + (["const"] if consts == "const" else [0.5] if consts == "hard" else [])
    task = setup_regression(names, [a, b], a + b)
    ops = {f: PLAIN[f][0] for f in fs}
    forms = {"columns": [a.reshape(-1, 1), b.reshape(-1, 1)], "matrix": np.column_stack([a, b])}
    for size in range(1, 6):
        for tree in trees(size, leaves, ops):
            toks = flat(tree)
            for cv in ((0.5, -2.0, 1e3) if "const" in toks else (0.5,)):
                rep = dict(expression=",".join(toks), const=cv)
                if not ck.visit((fs, consts, tree, cv)):
                    continue
                for fname, X in forms.items():
                    with quiet(), ck.case("inputs", rep):
                        keep = [np.array(c) for c in X]
                        p = program(tree)
                        if "const" in toks:
                            p.set_constants([cv] * toks.count("const"))
                        env = Env({"x1": a.reshape(-1, 1), "x2": b.reshape(-1, 1), "const": np.array([[cv]]), "0.5": np.array([[0.5]], dtype=np.float32)})
                        want, flagged = env.eval(tree, None)
                        got, _, w = p.execute_direct(X)
                        if got is not None and not p.invalid:
                            ck.expect(np.shape(got) == (n, 1), "inputs:shape", f"{rep} {fname}: {np.shape(got)}", rep)
                        judge(ck, "inputs", got, bool(p.invalid), want, flagged, (n, 1), dict(rep, form=fname),
                              1e-5 if "0.5" in toks else 1e-9)
                        ck.expect(all(np.array_equal(c, k) for c, k in zip(X, keep)), "inputs:data-modified", f"{rep}", rep)
                        # the task's score is that of this value
                        if fname == "columns":
                            r, ww, y_hat, _ = task.reward_function(p)
                            fin = bool(np.all(np.isfinite(want)))
                            if fin and not flagged:
                                y = (a + b).reshape(-1, 1)
                                exp = 1 / (1 + np.sqrt(np.mean((y - np.broadcast_to(want, y.shape)) ** 2) / np.var(y)))
                                ck.expect(abs(r - exp) < 1e-9, "inputs:score", f"{rep}: {r} expected {exp}", rep)
                                ck.expect(abs(task.mse_function(p) - np.mean((y - np.broadcast_to(want, y.shape)) ** 2))
                                          <= 1e-9 * (1 + abs(task.mse_function(p))), "inputs:mse", f"{rep}", rep)
                            elif not fin:
                                ck.expect(r == task.invalid_reward, "inputs:invalid-score", f"{rep}: {r}", rep)
                                ck.expect(not task.mse_function(p) < np.inf, "inputs:invalid-mse", f"{rep}", rep)
                ck.trace()
    # a single vector is one input
    one = setup_regression(["add", "mul"], [a], a)
    for tree in trees(3, ("x1",), {"add": 2, "mul": 2}):
        p = program(tree)
        with ck.case("inputs:vector", dict(expression=",".join(flat(tree)))):
            got, _, _ = p.execute_direct(a)
            want, _ = Env({"x1": a.reshape(-1, 1)}).eval(tree, None)
            judge(ck, "inputs:vector", got, bool(p.invalid), want, False, (n, 1), dict(expression=",".join(flat(tree))))


# ------------------------------------------------------------ F: histories
HANDLER = []


def history_ops():
    """name -> (callable returning a comparable outcome).  Each outcome must not depend on what came before."""
    import torch
    from kd.model.discover.functions import function_map
    from kd.model.discover.library import Token
    from kd.model.discover.stridge import unsafe_execute, unsafe_execute_torch
    u1 = Token(None, "u1", 0, 1, state_var=0)
    x1 = Token(None, "x1", 0, 1, input_var=0)
    f = function_map
    ws, x = worlds()
    u, z = ws["generic"], ws["zeros"]
    big = ws["large"]
    X = [x.reshape(-1, 1)]
    c = [torch.tensor(x.reshape(-1, 1), requires_grad=True)]

    def np_(toks, data):
        def run():
            y, bad, _, _ = unsafe_execute(list(toks), [data], X)
            return ("invalid",) if bad else ("value", None if y is None else np.asarray(y).tobytes())
        return run

    def t_(toks, data):
        def run():
            y, bad, _, _ = unsafe_execute_torch(list(toks), [data()], c)
            return ("invalid",) if bad else ("value", y.detach().numpy().tobytes())
        return run

    def outside():
        """Other code using numpy's error state"""
        with np.errstate(all="ignore"):
            np.divide(1.0, np.zeros(2))
        return ("outside",)

    def handler():
        np.seterrcall(None)
        return ("handler",)

    def logging():
        class L:
            def write(self, m):
                pass
        old = np.seterrcall(L())
        with np.errstate(all="log"):
            np.divide(1.0, np.zeros(2))
        np.seterrcall(old)
        return ("logging",)

    def leftover():
        """A floating-point error of other code, reported to the handler the library installed"""
        if HANDLER:
            with np.errstate(all="log", call=HANDLER[0]):
                np.divide(1.0, np.zeros(2))
        return ("leftover",)
    return {
        "valid": np_((f["mul"], u1, u1), u), "derivative": np_((f["diff"], f["n2"], u1, x1), u),
        "divide": np_((f["div"], u1, u1), z), "overflow": np_((f["n2"], u1), big), "illegal": np_((f["max"], u1, f["diff"], u1, u1), z[:2]),
        "torch-valid": t_((f["diff_t"], f["n2_t"], u1, x1), lambda: c[0] * c[0]),
        "torch-bad": t_((f["diff_t"], u1, x1), lambda: torch.ones(6, 1)),
        "torch-nan": t_((f["mul_t"], u1, u1), lambda: c[0] * float("nan")),
        "outside": outside, "handler": handler, "logging": logging, "leftover": leftover,
    }


def f_histories(ck, item):
    first, depth = item
    with quiet():
        ops = history_ops()
        state0 = np.geterr()
        alone = {}
        for k, f in ops.items():
            alone[k] = f()
        for rest in sequences(sorted(ops), depth - 1):
            seq = (first,) + tuple(rest)
            ck.visit(seq)
            for i, k in enumerate(seq):
                with ck.case("history", dict(history=seq[:i + 1])):
                    got = ops[k]()
                    ck.step()
                    if got != alone[k]:
                        ck.fail(f"history:{k}", f"after {seq[:i]}: {got[0]} instead of {alone[k][0]}", dict(history=seq[:i + 1]))
                        break
            ck.trace()
        ck.expect(np.geterr() == state0, "history:error-state", f"numpy's error handling changed: {np.geterr()}", dict(first=first))
        want = {"valid": "value", "derivative": "value", "divide": "invalid", "overflow": "invalid", "torch-valid": "value",
                "torch-bad": "invalid", "torch-nan": "invalid"}
        for k, v in want.items():
            ck.expect(alone[k][0] == v, f"history:{k}:alone", f"{alone[k][0]}", dict(op=k))


# ------------------------------------------------------------ G: the torch form of an expression
SUB_G = (("add", "mul"), ("sub", "mul"), ("sub", "add", "n2"), ("div", "sub"), ("n2", "n3", "mul"), ("mul", "diff"), ("diff", "sub"),
         ("diff2", "n2", "sub"))


def g_switch(ck, item):
    fs, size, hard = item
    import torch
    from kd.model.discover.functions import add_torch_tokens
    from kd.model.discover.program import Program
    from kd.model.discover.stridge import unsafe_execute_torch
    ws, x = worlds()
    data = {"u": ws["generic"], "X": [x.reshape(-1, 1)], "ut": ws["generic"], "n_input_dim": 1, "n_param_var": 0}
    task = setup(list(fs) + ([2.0] if hard else []), data)
    Program.library.add_torch_tokens(add_torch_tokens(fs, False))
    ops = {f: all_ops()[f] for f in fs}
    upoly = Poly({(0,): 1.3, (2,): 1.0, (3,): 0.5})
    env = {"u1": upoly, "x1": Poly({(1,): 1.0}), "2.0": Poly({(0,): 2.0})}
    c = np.linspace(-1.0, 1.5, 6).reshape(-1, 1)
    leaves = ("u1", "x1") + (("2.0",) if hard else ())
    for tree in trees(size, leaves, ops, ("x1",)):
        rep = dict(functions=fs, expression=",".join(flat(tree)))
        ck.visit((fs, hard, tree))
        with quiet(), ck.case("switch", rep):
            p = program(tree)
            p.switch_tokens()
            names = [t.name for t in p.traversal]
            for n, m in zip(flat(tree), names):
                if n in ops:
                    ck.expect(m == n + "_t", "switch:token", f"{rep}: {n} became {m}", rep)
                else:
                    ck.expect(m == n, "switch:token", f"{rep}: {n} became {m}", rep)
            cols = [torch.tensor(c, dtype=torch.float64, requires_grad=True)]
            u = sum(k * cols[0] ** e[0] for e, k in upoly.items())
            if not hard:
                got, invalid, _, _ = unsafe_execute_torch(p.traversal, [u], cols)
                ck.step()
                want = poly_of(torch_tree(tree), env, 1)
                if want is not None and not invalid:
                    ck.expect(huge(torch_tree(tree), env, [c]) or close(got.detach().numpy(), want.on([c]), 1e-8), "switch:value", lambda: f"{rep}", rep)
                elif want is not None:
                    der = [s for s in subtrees(torch_tree(tree)) if s[0].startswith("diff")]
                    ck.expect(any(vanishes(s, env, 1) for s in der), "switch:refused", f"{rep}", rep)
            # the sum is still split into the same terms
            ck.expect(sum(len(t) for t in p.STRidge.terms_token) + len(p.STRidge.terms_token) - 1 == len(names), "switch:terms",
                      f"{rep}: {p.STRidge.terms_token}", rep)
        ck.trace()


def torch_tree(t):
    if len(t) == 1:
        return t
    return (t[0] + "_t",) + tuple(torch_tree(c) for c in t[1:])


# ------------------------------------------------------------ H: scores and validity of whole equations
def h_scores(ck, item):
    metric, fs, wname, size = item
    ws, x = worlds()
    u = ws[wname]
    from kd.model.discover.program import Program
    ut = 0.7 * u + 0.3 * np.cos(3 * u) - 0.2
    data = {"u": u, "X": [x.reshape(-1, 1)], "ut": ut, "n_input_dim": 1, "n_param_var": 1, "param_data": [np.abs(u) + 0.1],
            "param_names": ["nu"]}
    y = ut.reshape(-1, 1)
    task = setup(fs, data, metric=metric)
    ops = {f: all_ops()[f] for f in fs}
    env = Env({"u1": u, "x1": x.reshape(-1, 1), "nu": data["param_data"][0]}, {"x1": 0}, {"x1": STEP})
    keep = frozen({"u": u, "ut": ut, "x": data["X"][0], "p": data["param_data"][0]})
    for tree in trees(size, ("u1", "x1", "nu"), ops, ("x1",)):
        rep = dict(metric=metric, functions=fs, data=wname, expression=",".join(flat(tree)))
        ck.visit((metric, fs, wname, tree))
        terms = []
        split(tree, 1, terms)
        state = all(uses(t, "u") for _, t in terms)
        cols, flagged = [], False
        for _, t in terms:
            v, fl = env.eval(t, u.shape)
            cols.append(np.broadcast_to(v, u.shape).ravel())
            flagged |= fl
        with quiet(), ck.case("score", rep):
            p = program(tree)
            r, w, y_hat, theta = task.reward_function(p)
            ck.step()
            M = np.array(cols).T
            if not state:
                ck.expect(p.invalid and r == task.invalid_reward, "score:no-state",
                          f"{rep}: a term without the unknown is accepted (score {r})", rep)
                continue
            if not np.all(np.isfinite(M)):
                ck.expect(p.invalid and r == task.invalid_reward, "score:non-finite", f"{rep}: score {r}", rep)
                continue
            ck.expect(np.isfinite(r), "score:not-a-number", f"{rep}: {r}", rep)
            if p.invalid:
                ck.expect(r == task.invalid_reward, "score:invalid", f"{rep}: {r}", rep)
                ref = np.linalg.lstsq(M, y, rcond=None)[0].ravel()
                fine = np.all(np.abs(ref) > 1e-4) and np.all(np.abs(ref) < 5e3)
                with np.errstate(all="ignore"):
                    yy = M @ ref
                    fine = fine and np.isfinite(np.var(y)) and (metric != "correlation" or np.ptp(yy) > 1e-9 * np.max(np.abs(yy)))
                ck.expect(flagged or not fine, "score:refused", f"{rep}: coefficients {ref}", rep)
                continue
            ck.expect(theta is not None and close(np.asarray(theta), M, 1e-8), "score:matrix",
                      lambda: f"{rep}: the terms' values are not the columns of the system", rep)
            c = np.asarray(w, float).ravel()
            yy = M @ c[:M.shape[1]].reshape(-1, 1)
            ck.expect(close(np.asarray(y_hat).reshape(-1, 1), yy, 1e-6), "score:prediction", f"{rep}", rep)
            ref = np.linalg.lstsq(M, y, rcond=None)[0].ravel()
            res = M @ ref.reshape(-1, 1)
            e, e0 = np.mean((y - yy) ** 2), np.mean((y - res) ** 2)
            ck.expect(e <= e0 * (1 + 1e-6) + 1e-12, "score:not-least-squares", f"{rep}: {e} > {e0}", rep)
            n = len(c)
            with np.errstate(all="ignore"):
                nr = np.sqrt(e / np.var(y))
            want = {"pde_reward": (1 - 0.01 * n) / (1 + nr), "inv_nrmse": 1 / (1 + nr), "R2": 1 - e / np.var(y),
                    "correlation": float(np.corrcoef(y.ravel() / np.max(np.abs(y)), yy.ravel() / np.max(np.abs(yy)))[0, 1]) if np.ptp(yy) > 1e-12 else r}[metric]
            ck.expect(abs(r - want) <= 1e-6 * (1 + abs(want)), f"score:{metric}", f"{rep}: {r} expected {want}", rep)
            ck.expect(r <= task.max_reward + 1e-9, "score:maximum", f"{rep}: {r}", rep)
            toks, vals = task.terms_values(p)
            if not isinstance(vals, tuple):
                ck.expect(len(vals) == len(terms) and all(close(np.ravel(v), c0, 1e-8) for v, c0 in zip(vals, cols)), "score:terms",
                          f"{rep}", rep)
        ck.trace()
    ck.expect(keep == frozen({"u": task.u[0], "ut": ut, "x": task.x[0], "p": data["param_data"][0]}), "score:data-modified", "", item)


def split(t, s, out):
    if t[0] in ("add", "sub"):
        split(t[1], s, out)
        split(t[2], s if t[0] == "add" else -s, out)
    else:
        out.append((s, t))


def run(ck):
    deep = ck.thorough
    ck.part("one dimension")
    items = [(fs, w, (6 if deep else 5)) for fs in SUB_A for w in worlds()[0]]
    ck.pool(a_plain, sorted(items, key=lambda i: h(str(i))))
    ck.part("operators")
    un = [k for k, v in PLAIN.items()]
    items = []
    for mode in ("plain", "protected"):
        for o in un:
            items.append((mode, o, None))
            for i in un:
                if PLAIN[o][0] + PLAIN[i][0] < 4 or deep:
                    if deep or (h(str((mode, o, i))) % 3 == 0 or (PLAIN[o][0] == 1 and PLAIN[i][0] == 1)):
                        items.append((mode, o, i))
    ck.pool(b_special, sorted(items, key=lambda i: h(str(i))))
    ck.part("torch operators")
    ck.pool(b_torch, sorted([(o, i) for o in TORCH for i in (None,) + tuple(TORCH)], key=lambda i: h(str(i))))
    ck.part("several unknowns")
    ck.pool(b_states, sorted([(fs, n, k) for fs in (("add", "mul", "diff"), ("sub", "n2", "diff2"), ("add_t", "mul_t"),
                                                    ("sub_t", "n2_t", "div_t")) for n in (2, 3)
                              for k in range(1, 6 if deep else 5)], key=lambda i: h(str(i))))
    ck.part("automatic differentiation")
    items = [(fs, nd, s) for fs in SUB_C for nd in (1, 2, 3) for s in range(1, (6 if deep else 5) + (1 if nd == 1 else 0))]
    ck.pool(c_torch, sorted(items, key=lambda i: h(str(i))))
    ck.part("more dimensions")
    items = [(fs, s, f, k) for fs in SUB_D2 for s in ((3, 5, 4), (4, 4, 4), (3, 4, 5), (5, 5, 4)) for f in ("column", "flat")
             for k in range(1, 6 if deep else 5)]
    items += [(fs, s, "column", k) for fs in SUB_D3 for s in ((2, 4, 5, 4), (4, 4, 4, 4)) for k in range(1, 6 if deep else 5)]
    items += [(fs, (4, 4, 4), "column", 5) for fs in SUB_D2[:2]]
    ck.pool(d_nd, sorted(set(items), key=lambda i: h(str(i))))
    ck.part("inputs")
    items = [(fs, c) for fs in (("add", "mul"), ("sub", "div"), ("exp", "mul"), ("inv", "neg", "sub"), ("log", "sqrt"))
             for c in ("none", "const", "hard")]
    ck.pool(e_inputs, sorted(items, key=lambda i: h(str(i))))
    import kd.model.discover.stridge  # noqa: F401  (installs a handler for floating-point errors)
    if not HANDLER and np.geterrcall() is not None:
        HANDLER.append(np.geterrcall())
    ck.part("histories")
    ck.pool(f_histories, [(o, 4 if deep else 3) for o in sorted(history_ops())])
    ck.part("torch form")
    ck.pool(g_switch, sorted([(fs, s, hd) for fs in SUB_G for s in range(1, 7 if deep else 6) for hd in (False, True)],
                             key=lambda i: h(str(i))))
    ck.part("scores")
    items = [(m, fs, w, s) for m in ("pde_reward", "inv_nrmse", "R2", "correlation")
             for fs in (("add", "mul", "n2"), ("sub", "mul", "diff"), ("add", "div", "n3")) for w in ("generic", "zeros", "negative", "large", "infinite", "missing")
             for s in range(1, 6 if (m == "pde_reward" or deep) else 5)]
    ck.pool(h_scores, sorted(items, key=lambda i: h(str(i))))
    ck.assumptions.append("a result may be refused as invalid when evaluating it raises any floating-point flag (including "
                          "underflow); a derivative operand is a coordinate, as the sampler guarantees")
