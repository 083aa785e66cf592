"""C27: a DISCOVER equation is displayed as the expression that was found."""
import itertools
from types import SimpleNamespace

try:
    import triton._C.libtriton  # noqa: F401
except Exception:  # noqa: BLE001
    pass
import numpy as np

from mc.core import quiet
from mc import latexdisc as X
from checks import c03

import logging
logging.disable(logging.WARNING)

POINTS = [(0.4, 0.7, 0.3), (1.1, 0.2, 0.9), (0.8, 1.3, 0.5)]
LEAVES = {"u1": ("u", "u_{1}"), "u2": ("u_{2}", "u_{2}"), "p1": ("p_{1}", "p_{1}"), "p2": ("p_{2}", "p_{2}"),
          "p4": ("p_{4}", "p_{4}"), "kappa": (r"\kappa", r"\kappa"), "beta": (r"\beta", r"\beta"), "E": ("E", "E"),
          "S": ("S", "S"), "gamma": (r"\gamma", r"\gamma"), "lambda": (r"\lambda", r"\lambda"), "rho0": (r"\rho_{0}", r"\rho_{0}"),
          "nu": (r"\nu", r"\nu"), "x1": ("x", "x_{1}"), "x2": ("y", "x_{2}"), "x3": ("z", "x_{3}"), "Q": ("Q", "Q"), "N": ("N", "N"),
          "I": ("I", "I"), "k": ("k", "k")}
ENVS = [X.fields([n for n in LEAVES if n[0] != "x"], p) for p in POINTS]
UNARY = ("n2", "n3", "n4", "n5", "neg", "inv", "abs", "exp", "log", "sqrt", "sin", "cos", "tan", "tanh", "sigmoid", "expneg",
         "logabs", "lap", "lap_3", "harmonic", "lap_t", "n2_t")
BINARY = ("add", "sub", "mul", "div", "max", "min", "mul_t", "sub_t")
DIFFS = tuple(X.DERIVATIVE) + ("diff_t", "diff2_t")
MODES = list(itertools.product(("subscript", "leibniz"), (True, False)))


def arity(n):
    return 2 if n in BINARY or n in DIFFS else 1 if n in UNARY else 0


def node(tree, texts=False):
    """A tree of the code's own nodes."""
    from kd.model.discover.stridge import Node
    n = Node(SimpleNamespace(name=tree[0], arity=arity(tree[0])))
    n.children = [node(c) for c in tree[1:]]
    return n


def flat(t):
    return c03.flat(t)


def order(t):
    """Derivatives stacked in a tree."""
    n = t[0][:-2] if t[0].endswith("_t") else t[0]
    return max([order(c) for c in t[1:]], default=0) + X.DERIVATIVE.get(n, 2 if n in ("lap", "lap_3") else 0)


def right(text, notation, axes=("x", "y", "z")):
    sub = notation == "subscript"
    names = {v[0 if sub else 1]: k for k, v in LEAVES.items() if not sub or k[0] != "x"}
    if sub:
        names |= {a: f"x{i + 1}" for i, a in enumerate(axes)}
    ax = {a: i for i, a in enumerate(axes)} if sub else {f"x_{{{i + 1}}}": i for i in range(3)}
    return [X.read(text, names, ax, e, not sub)[0] for e in ENVS]


def split_sides(text):
    assert text.startswith("$") and text.endswith("$"), text
    left, r = text[1:-1].split(" = ", 1)
    return left, r


def compare(ck, key, text, terms, notation, lhs, rep, axes=("x", "y", "z"), slack=0.0):
    """terms: [(coefficient, tree)]"""
    rep = dict(rep, text=text)
    left, r = split_sides(text)
    ck.expect(left == lhs, key + ":lhs", lambda: f"{rep}: left-hand side {left!r}, expected {lhs!r}", rep)
    try:
        got = right(r, notation, axes)
    except (X.Unreadable, IndexError, KeyError) as e:
        ck.fail(key + ":unreadable", f"{rep}: {e!r}", rep)
        return
    n = 0
    with np.errstate(all="ignore"):
        for env, g in zip(ENVS, got):
            vals = [X.value(t, env)[0] for _, t in terms]
            want = sum(c * v for (c, _), v in zip(terms, vals))
            size = sum(abs(c * v) for (c, _), v in zip(terms, vals))
            if not np.isfinite(want):
                continue
            n += 1
            tol = 1e-7 * (1 + size) + slack * sum(abs(v) for v in vals)
            if not ck.expect(abs(g - want) <= tol, key + ":value", lambda: f"{rep}: worth {g}, the expression {want}", rep):
                return
    ck.outcome((key, n))


def show(terms, **kw):
    from kd.viz.discover_eq2latex import discover_program_to_latex
    p = SimpleNamespace(w=[c for c, _ in terms], STRidge=SimpleNamespace(terms=[node(t) for _, t in terms]))
    before = repr((p.w, p.STRidge.terms))
    text = discover_program_to_latex(p, **kw)
    assert repr((p.w, p.STRidge.terms)) == before, "the program was changed by displaying it"
    return text


def forms(tree):
    """A tree twice: with '_t' ops the display is the same."""
    return tree


def all_trees(size, leaves, unary, binary, diffs, coords):
    return c03.trees(size, leaves, {**{b: 2 for b in binary}, **{u: 1 for u in unary}}, ()) if not diffs else \
        mixed(size, leaves, unary, binary, diffs, coords)


def mixed(size, leaves, unary, binary, diffs, coords, memo=None):
    """Trees of `size` nodes, a derivative counting for one node."""
    memo = {} if memo is None else memo
    if size in memo:
        return memo[size]
    if size == 1:
        memo[1] = [(x,) for x in leaves]
        return memo[1]
    out = []
    for a in mixed(size - 1, leaves, unary, binary, diffs, coords, memo):
        out += [(u, a) for u in unary]
        out += [(x, a, (c,)) for x in diffs for c in coords]
    for k in range(1, size - 1):
        for a in mixed(k, leaves, unary, binary, diffs, coords, memo):
            for b in mixed(size - 1 - k, leaves, unary, binary, diffs, coords, memo):
                out += [(o, a, b) for o in binary]
    memo[size] = out
    return out


# name: (leaves, unary, binary, diffs, coordinates, sizes quick, sizes thorough)
WORLDS = {
    "everything": (("u1", "x1", "p1"), UNARY, BINARY, DIFFS, ("x1", "x2"), (1, 2), (1, 2)),
    "everything-3": (("u1", "x1"), UNARY[:19], BINARY[:6], ("diff", "Diff2", "diff3"), ("x1",), (3,), (3,)),
    "algebra": (("u1", "x1"), ("n2", "neg", "inv"), ("add", "sub", "mul", "div"), (), (), (3, 4), (3, 4, 5)),
    "derivatives": (("u1", "x1"), ("n2",), ("mul", "div", "sub"), ("diff", "diff2"), ("x1",), (3, 4), (3, 4, 5)),
    "two-axes": (("u1", "p1"), ("n3", "lap"), ("mul", "add"), ("Diff", "Diff2"), ("x1", "x2"), (3,), (3, 4)),
    "numbers": (("u1", "0.5", "2.0", "-1.0"), ("n2", "inv"), ("add", "sub", "mul", "div"), ("diff",), ("x1",), (2, 3), (2, 3, 4)),
    "functions": (("u1", "x1"), ("exp", "sin", "tanh", "sigmoid", "log", "sqrt"), ("mul",), ("diff",), ("x1",), (3,), (3, 4)),
    "names": (tuple(n for n in LEAVES if n[0] != "x") + ("x3",), ("n2",), ("mul", "div", "add"), ("diff", "diff2"), ("x1", "x3"), (1, 2, 3), (1, 2, 3)),
}


def expression_chunk(ck, item):
    world, size, stride, off = item
    leaves, unary, binary, diffs, coords, _, _ = WORLDS[world]
    for k, t in enumerate(mixed(size, leaves, unary, binary, diffs, coords)):
        if k % stride != off or order(t) > X.ORDER - 1:
            continue
        ck.visit((world, t))
        with np.errstate(all="ignore"):
            vals = [X.value(t, e)[0] for e in ENVS]
        if not any(np.isfinite(v) for v in vals):
            continue
        for notation, expand in MODES:
            key = f"expression[{world},{notation}]"
            rep = {"expression": ",".join(flat(t)), "notation": notation, "expanded": expand}
            with quiet(), ck.case(key, rep, timeout=None):
                text = show([(1.0, t)], notation=notation, expand_derivatives=expand)
                ck.step()
                compare(ck, key, text, [(1.0, t)], notation, "u_t", rep)
                ck.trace()
    return None


SHAPES = [("u1",), ("x1",), ("diff", ("u1",), ("x1",)), ("mul", ("u1",), ("diff", ("u1",), ("x1",))),
          ("diff", ("n2", ("u1",)), ("x1",)), ("diff", ("mul", ("u1",), ("x1",)), ("x1",)), ("neg", ("u1",)),
          ("diff2", ("n2", ("u1",)), ("x1",)), ("mul", ("u1",), ("sub", ("u1",), ("x1",))), ("n2", ("sub", ("x1",), ("u1",))),
          ("div", ("u1",), ("x1",)), ("diff", ("div", ("u1",), ("x1",)), ("x1",)), ("mul", ("u1",), ("add", ("u1",), ("u1",))),
          ("div", ("u1",), ("u1",)), ("exp", ("u1",)), ("diff", ("sub", ("x1",), ("n2", ("u1",))), ("x1",))]
COEFFS = [1.0, -1.0, 0.5, -2.0, 3.25, -0.0625, 1.0004, -0.9998, 123456.7891, -0.0001]


def program_chunk(ck, item):
    length, stride, off = item
    k = 0
    cs = COEFFS if length < 2 else [1.0, -0.5, 3.25, -1.0] if length == 2 else [1.0, -0.5]
    for shapes in itertools.product(SHAPES, repeat=length):
        for coeffs in itertools.product(cs, repeat=length):
            k += 1
            if k % stride != off or (length == 3 and not ck.thorough and k // stride % 12):
                continue
            terms = list(zip(coeffs, shapes))
            ck.visit((coeffs, shapes))
            for notation, expand in MODES:
                key = f"program[{length},{notation}]"
                rep = {"terms": [(c, ",".join(flat(t))) for c, t in terms], "notation": notation, "expanded": expand}
                with quiet(), ck.case(key, rep, timeout=None):
                    text = show(terms, notation=notation, expand_derivatives=expand)
                    ck.step()
                    compare(ck, key, text, terms, notation, "u_t", rep, slack=1.01e-5 if length == 1 else 0.0)
                    ck.trace()


def digits_chunk(ck, item):
    """Coefficients are shown rounded to four decimals, with their sign; 1 is not written."""
    lo, hi = item
    for m in range(lo, hi):
        for c in (m / 997.0, -m / 997.0, m * 3.7, -m * 13.3331, 1 + m * 1e-6, -1 - m * 1e-6):
            ck.visit(c)
            rep = {"coefficient": c}
            with ck.case("digits", rep, timeout=None):
                text = show([(c, ("u1",)), (-c, ("x1",))])
                ck.step()
                left, r = split_sides(text)
                got = right(r, "subscript")
                for env, g in zip(ENVS, got):
                    a, b = env["u1"][0], env["x1"][0]
                    tol = 5.01e-5 + 1.1e-5 * (abs(abs(c) - 1) < 2e-5)
                    ck.expect(abs(g - c * (a - b)) <= tol * (a + b), "digits:value", f"{rep}: {text}", rep)
                ck.trace()


# -------------------------------------------------------------- the real programs
def data_1d():
    ws, x = c03.worlds()
    u = ws["generic"]
    return {"u": u, "X": [x.reshape(-1, 1)], "ut": 0.7 * u + 0.3 * np.cos(3 * u) - 0.2, "n_input_dim": 1, "n_param_var": 1,
            "param_data": [np.abs(u) + 0.1], "param_names": ["nu"]}, x


def deep_split(t, out):
    if t[0] in ("add", "sub"):
        deep_split(t[1], out)
        deep_split(t[2], out)
    else:
        out.append(t)


def real_chunk(ck, item):
    fs, size, stride, off = item
    data, x = data_1d()
    y = data["ut"].reshape(-1, 1)
    task = c03.setup(fs, data)
    env = c03.Env({"u1": data["u"], "x1": x.reshape(-1, 1), "nu": data["param_data"][0]}, {"x1": 0}, {"x1": c03.STEP})
    ops = {f: c03.all_ops()[f] for f in fs}
    from kd.viz.discover_eq2latex import discover_program_to_latex
    for k, tree in enumerate(c03.trees(size, ("u1", "x1", "nu"), ops, ("x1",))):
        if k % stride != off or order(tree) > X.ORDER - 1:
            continue
        rep = dict(functions=fs, expression=",".join(flat(tree)))
        with quiet(), ck.case("found", rep):
            p = c03.program(tree)
            r, w, y_hat, _ = task.reward_function(p)
            if p.invalid:
                continue
            ck.visit((fs, tree))
            p.w = w  # as the search does
            terms = []
            deep_split(tree, terms)
            w = [float(c) for c in np.ravel(w)]
            before = repr((p.w, p.STRidge.terms, list(p.traversal), p.tokens.tolist()))
            cols = np.array([np.broadcast_to(env.eval(t, data["u"].shape)[0], data["u"].shape).ravel() for t in terms]).T
            ck.expect(np.allclose(cols @ np.array(w).reshape(-1, 1), np.asarray(y_hat).reshape(-1, 1), rtol=1e-6, atol=1e-7),
                      "found:terms", f"{rep}: coefficients {w} do not give the prediction", rep)
            rounded = [(c, t) for c, t in zip(w, terms)]
            for notation, expand in MODES:
                for lhs in (None, "x"):
                    text = discover_program_to_latex(p, notation=notation, expand_derivatives=expand, lhs_axis=lhs)
                    ck.step()
                    compare(ck, f"found[{notation}]", text, rounded, notation, "u_t" if lhs is None else "u_{x}",
                            dict(rep, notation=notation, expanded=expand), slack=2e-4)
            ck.expect(before == repr((p.w, p.STRidge.terms, list(p.traversal), p.tokens.tolist())), "found:program-changed", f"{rep}", rep)
            ck.trace()


def part_display(ck):
    """The public entry point, on a model with a data set of any axis names."""
    import os
    import tempfile
    from kd.model.kd_discover import KD_Discover
    import kd.viz as viz
    exprs = [SHAPES[i] for i in (0, 2, 3, 4, 5, 8, 11)] + [
        ("diff", ("mul", ("p1",), ("u1",)), ("x1",)), ("Diff", ("Diff", ("u1",), ("x1",)), ("x2",)), ("lap", ("u1",)),
        ("max", ("u1",), ("x1",)), ("logabs", ("u1",)), ("sigmoid", ("u1",)), ("diff2", ("kappa",), ("x1",)), ("sqrt", ("u1",)),
        ("div", ("diff", ("u1",), ("x1",)), ("x1",)), ("n2", ("diff", ("n2", ("u1",)), ("x1",)))]
    sets = [None, ("t", ["x", "t"]), ("t", ["t", "x", "y"]), ("t", ["y", "x", "t"]), ("x", ["x", "t"]), ("y", ["x", "y", "t"]),
            ("t", ["x", "y", "z", "t"]), (None, None), ("z", ["t", "z"])]
    ck.part("displayed by the viz layer")
    with tempfile.TemporaryDirectory(prefix="mcc27-") as tmp:
        for (i, t), s in itertools.product(enumerate(exprs), sets):
            for notation in ("subscript", "leibniz", None):
                if i > 3 and s is not None and notation == "leibniz":
                    continue
                rep = {"expression": ",".join(flat(t)), "dataset": s, "notation": notation}
                ck.visit((t, s, notation))
                with quiet(), ck.case("render", rep):
                    m = KD_Discover.__new__(KD_Discover)
                    p = SimpleNamespace(w=[-0.5], STRidge=SimpleNamespace(terms=[node(t)]))
                    m.searcher = SimpleNamespace(best_p=p)
                    axes = ["x", "y", "z"]
                    lhs = "u_t"
                    if s is not None:
                        m.dataset_ = SimpleNamespace(lhs_axis=s[0], axis_order=s[1])
                        if s[1] is not None:
                            axes = [a for a in s[1] if a != s[0]]
                        if s[0] not in (None, "t"):
                            lhs = f"u_{{{s[0]}}}"
                    axes += [a for a in ("x", "y", "z") if a not in axes][:3 - len(axes)]
                    if len(s[1] if s and s[1] else "xyz") <= 2 and any(n in ("x2",) for n in flat(t)):
                        continue
                    kw = {} if notation is None else {"notation": notation}
                    viz.configure(save_dir=os.path.join(tmp, "out"))
                    res = viz.render_equation(m, **kw)
                    ck.step()
                    if not ck.expect(not res.warnings and len(res.paths) == 1 and os.path.getsize(res.paths[0]) > 0, "render:failed",
                                     lambda: f"{rep}: {res.warnings}", rep):
                        continue
                    compare(ck, "render", res.metadata["latex"], [(-0.5, t)], notation or "subscript", lhs, rep, axes=axes)
                    os.remove(res.paths[0])
                    ck.trace()


def part_edges(ck):
    """No terms, a fitted constant, a structure that cannot be displayed."""
    from kd.viz.discover_eq2latex import discover_program_to_latex as f
    ck.part("edges")
    S = SimpleNamespace
    for notation in ("subscript", "leibniz"):
        for lhs in (None, "y"):
            kw = dict(notation=notation, lhs_axis=lhs)
            left = "u_t" if lhs is None else "u_{y}"
            for w, ts in (([], []), ([0.5], [("u1",)]), ([0.5, -1.5], [("u1",)]), ([2.0, 1.0], [("n2", ("u1",))]),
                          ([1.0, -0.25, 0.125], [("u1",), ("diff", ("u1",), ("x1",))])):
                rep = dict(kw, w=w, terms=[",".join(flat(t)) for t in ts])
                ck.visit((w, ts, notation, lhs))
                with quiet(), ck.case("constant", rep):
                    text = f(S(w=w, STRidge=S(terms=[node(t) for t in ts])), **kw)
                    ck.step()
                    if not ts:
                        ck.expect(text == f"${left} = 0$", "edges:empty", f"{rep}: {text}", rep)
                        continue
                    terms = list(zip(w, ts)) + ([(w[-1], ("1.0",))] if len(w) > len(ts) else [])
                    compare(ck, "constant", text, terms, notation, left, rep, slack=5.01e-5)
                    ck.trace()
            bad = [None, S(), S(w=[1.0]), S(w=[1.0], STRidge=S()), S(w=[1.0], STRidge=S(terms=None)), S(w=None, STRidge=S(terms=[node(("u1",))])),
                   S(w=[1.0], STRidge=S(terms=[node(("u1",)), node(("x1",))])), S(w=[], STRidge=S(terms=[node(("u1",))]))]
            for i, b in enumerate(bad):
                ck.visit((i, notation, lhs))
                with quiet(), ck.case("malformed", i):
                    text = f(b, **kw)
                    ck.step()
                    ck.expect("Error" in text and text.startswith(f"${left} ="), "edges:malformed", f"case {i}: {text}", i)
                    ck.trace()


def run(ck):
    ck.part("expressions")
    items = []
    for w, v in WORLDS.items():
        for s in v[6] if ck.thorough else v[5]:
            n = len(mixed(s, *v[:5]))
            k = max(1, min(16, n // 60))
            items += [(w, s, k, o) for o in range(k)]
    items.sort(key=lambda i: -i[1])
    ck.pool(expression_chunk, items)
    ck.part("programs")
    ck.pool(program_chunk, [(1, 4, o) for o in range(4)] + [(2, 16, o) for o in range(16)] + [(3, 32, o) for o in range(32)])
    ck.part("coefficients")
    ck.pool(digits_chunk, [(a, a + 25) for a in range(0, 400 if ck.thorough else 200, 25)])
    ck.part("programs of the search")
    fs = [("add", "sub", "mul", "diff"), ("add", "n2", "diff", "diff2"), ("sub", "div", "n3", "diff"), ("add", "mul", "exp", "diff2")]
    ck.pool(real_chunk, [(f, s, 4, o) for f in fs for s in ((1, 2, 3, 4, 5) if not ck.thorough else (1, 2, 3, 4, 5, 6)) for o in range(4)])
    part_edges(ck)
    part_display(ck)
    ck.assumptions += ["Values are compared at three points of a generic analytic field, exactly differentiated; coefficients are displayed with four decimals.",
                       "The notation is read by the rules of mc/latexdisc.py: a derivative operator acts on the factor after it, a subscript on the factor before it."]
