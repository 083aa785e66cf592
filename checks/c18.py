"""C18: a genetic-search equation is displayed as the equation that was found."""
import itertools
from types import SimpleNamespace

import numpy as np

from mc.core import quiet
from mc import sgalib as L
from mc import latexsga as X
from checks import c15

NOTATIONS = ("subscript", "leibniz")


def as_tree(e):
    """The level structure of an expression tree."""
    levels = [[e]]
    out = []
    while levels[-1]:
        nodes, nxt = [], []
        for x in levels[-1]:
            nodes.append(SimpleNamespace(name=x[0], child_num=len(x) - 1, child_st=len(nxt) if len(x) > 1 else None))
            nxt += list(x[1:])
        out.append(nodes)
        levels.append(nxt)
    return SimpleNamespace(tree=out, inorder=L.inorder(e), preorder=L.preorder(e))


def text_of(terms, lhs="u_t", **kw):
    from kd.model.sga.sgapde.equation import SGAEquationDetails, SGAEquationTerm, sga_equation_to_latex
    ts = [SGAEquationTerm(label=lab, source="generated" if tr is not None else "default", coefficient=c, tree=tr)
          for c, lab, tr in terms]
    return sga_equation_to_latex(SGAEquationDetails(lhs=lhs, terms=tuple(ts)), **kw)


def check_text(ck, key, text, terms, lhs, axes, fields, symbols, coeffs, rep):
    """terms: [(coefficient, nested tuple)]"""
    rep = dict(rep, text=text)
    try:
        left, got = X.read_equation(text, axes, symbols)
    except (X.Unreadable, ValueError, IndexError) as e:
        ck.fail(key + ":unreadable", f"{rep} cannot be read back: {e}", rep)
        return
    ck.expect(left == X.canonical((lhs,), axes, fields), key + ":lhs", f"{rep}: left-hand side {left}", rep)
    if not ck.expect(len(got) == len(terms), key + ":term-count", f"{rep}: {len(got)} terms, expected {len(terms)}", rep):
        return
    for (sign, c, e), (want_c, want_e) in zip(got, terms):
        w = X.canonical(want_e, axes, fields)
        if not ck.expect(e == w, key + ":expression", lambda: f"{L.preorder(want_e)} displayed as {text}", rep):
            return
        ck.expect((sign < 0) == (want_c < 0), key + ":sign", f"{rep}: {want_c}", rep)
        if coeffs:
            shown = 1.0 if c is None else c
            if e in (("0",),) and c is None:
                shown = 1.0
            ck.expect(abs(shown - abs(want_c)) <= 2e-5 * abs(want_c), key + ":coefficient",
                      f"{rep}: {want_c} displayed as {shown}", rep)
        else:
            ck.expect(c is None, key + ":coefficient-in-structure", str(rep), rep)


# ------------------------------------------------------------------ expressions
def exprs(leaves, axes, below):
    """All expressions one level deeper than `below`."""
    for a in below:
        for n in ("^2", "^3"):
            yield (n, a)
        for n in ("d", "d^2"):
            for x in axes:
                yield (n, a, (x,))


def binary(A, B):
    for n in ("+", "-", "*", "/"):
        for a in A:
            for b in B:
                yield (n, a, b)


ALPHABETS = {
    "u": ([("u",), ("x",), ("u_x",)], ["x"], ["u"], "t"),
    "uv-param": ([("u",), ("alpha",), ("u_y",), ("v_x",)], ["x", "y"], ["u", "v"], "t"),
    "rho": ([("rho",), ("y",), ("rho_y",), ("0",)], ["y"], ["rho"], "t"),
}


def expression_chunk(ck, item):
    name, deep, stride, off = item
    leaves, axes, fields, lhs_ax = ALPHABETS[name]
    symbols = {n for (n,) in leaves} | set(fields) | set(axes)
    e1 = leaves + list(exprs(leaves, axes, leaves)) + list(binary(leaves, leaves))
    if deep == 2:
        gen = itertools.chain(exprs(leaves, axes, e1), binary(e1, e1))
    else:
        e2 = itertools.chain(exprs(leaves, axes, e1), binary(e1, e1) if ck.thorough or name == "u"
                             else binary(e1[:12], e1))
        gen = itertools.chain(exprs(leaves, axes, e2),)
    lhs = f"{fields[0]}_{lhs_ax}"
    for k, e in enumerate(gen):
        if k % stride != off:
            continue
        t = as_tree(e)
        ck.visit((name, e))
        for notation in NOTATIONS:
            key = f"expression[{name},{notation}]"
            rep = {"term": L.preorder(e), "notation": notation}
            with ck.case(key, rep, timeout=None):
                text = text_of([(1.0, t.inorder, t)], lhs, include_coefficients=False, notation=notation)
                ck.step()
                check_text(ck, key, text, [(1.0, e)], lhs, axes + [lhs_ax], fields, symbols, False, rep)
                ck.trace()
    ck.sample({"alphabet": name, "expression": L.preorder(e), "text": text})


COEFFS = [1.0, -1.0, 0.5, -2.0, 1e-4, -3.25e-5, 123456.789, -1.0004, 0.99999, 1.00002, 1e-12, 7e9, -0.1234567]


def coefficient_chunk(ck, item):
    stride, off = item
    shapes = [("u",), ("u_x",), ("*", ("u",), ("u_x",)), ("+", ("u",), ("x",)), ("-", ("u",), ("x",)),
              ("/", ("u",), ("x",)), ("d^2", ("u",), ("x",)), ("^2", ("u",)), ("d", ("*", ("u",), ("x",)), ("x",)),
              ("*", ("-", ("u",), ("x",)), ("u",))]
    syms = {"u", "x", "t"}
    n = 0
    for m in (0, 1, 2, 3):
        for sh in itertools.product(shapes, repeat=m):
            if m == 3 and len(set(sh)) < 3:
                continue
            for cs in itertools.product(COEFFS if m < 3 else [1.0, -1.0, 0.5, -0.1234567], repeat=m):
                n += 1
                if n % stride != off:
                    continue
                if m == 3 and not ck.thorough and n % (8 * stride) != off:
                    continue
                for inc in (True, False):
                    key = f"coefficients[{m},{inc}]"
                    rep = {"terms": [L.preorder(e) for e in sh], "coefficients": cs}
                    terms = [(c, e) for c, e in zip(cs, sh)]
                    ck.visit((sh, cs, inc))
                    with ck.case(key, rep, timeout=None):
                        # first term as a default (unstructured) one when it is a plain name
                        objs = [(c, L.inorder(e), None if i == 0 and len(e) == 1 else as_tree(e))
                                for i, (c, e) in enumerate(terms)]
                        zero = [(0.0, "u", None)] if n % 2 else []
                        text = text_of(objs + zero, include_coefficients=inc)
                        ck.step()
                        check_text(ck, key, text, terms, "u_t", ["x", "t"], ["u"], syms, inc, rep)
                        ck.trace()
    ck.sample({"coefficients": COEFFS, "shapes": len(shapes)})


# ------------------------------------------------------------------ details from real candidates
def details(ck, item):
    from kd.model.sga.sgapde.equation import extract_equation_details, sga_equation_to_latex
    from kd.model.kd_sga import KD_SGA
    name, stride, off = item
    est = KD_SGA()
    P = c15.problem(name)
    spec = c15.PROBLEMS[name]
    fields = list(spec.get("fields", ("u",)))
    target = spec.get("target") or fields[0]
    ts = list(c15.trees(P, 2).items())
    ax0 = [a for a in P["ax"] if a != P["lhs"]][0]
    for e, t in c15.trees(P, 3, 3 if ck.thorough else 2).items():
        ts.append((e, t))
    lhs_e, lhs_t = ("d", ("u" if "u" in fields else target,), (P["lhs"],)), None
    fp = c15.fingerprint(P["ctx"])
    axes = list(P["ax"])
    symbols = set(P["leaves"]) | set(axes) | set(fields)
    combos = [(a,) for a in ts] + [(a, b) for i, a in enumerate(ts) for b in ts[i % 7::7]]
    for k, combo in enumerate(combos):
        if k % stride != off:
            continue
        es = [e for e, _ in combo]
        rep = {"problem": name, "terms": [L.preorder(e) for e in es]}
        key = f"details[{name}]"
        try:
            kept, cols = c15.reference(P, es)
        except c15.Ambiguous:
            continue
        if not np.all(np.isfinite(cols)) or np.max(np.abs(cols)) > 1e9:
            continue
        ck.visit((name, tuple(es)))
        with ck.case(key, rep):
            trees = [t if i == 0 or combo[0][1] is not t else __import__("copy").copy(t)
                     for i, (_, t) in enumerate(combo)]
            p = c15.pde_of(P, trees)
            with quiet(), np.errstate(all="ignore"):
                d = extract_equation_details(p, P["ctx"])
                _, w, m = c15.evaluate(c15.pde_of(P, list(trees)), P)
            ck.step(2)
            ck.expect([id(t) for t in p.elements] == [id(t) for t in trees] and p.W == len(trees),
                      key + ":candidate-changed", str(rep), rep)
            ck.expect(d.lhs == f"{target}_{P['lhs']}", key + ":lhs", f"{rep}: {d.lhs}", rep)
            if not kept:
                ck.expect(len(d.terms) == 0, key + ":terms-without-support", str(rep), rep)
                continue
            w = np.asarray(w, float).reshape(-1)
            want = [("default", target, float(w[0]), None)] + [
                ("generated", L.squash(L.inorder(es[i])), float(w[1 + j]), es[i]) for j, i in enumerate(kept)]
            if any(abs(abs(x[2]) - 1e-5) < 1e-9 for x in want):
                continue
            want = [x for x in want if abs(x[2]) >= 1e-5]
            got = [(t.source, L.squash(t.label), float(t.coefficient)) for t in d.terms]
            ck.expect([(s, L.squash(l)) for s, l, *_ in want] == [(s, l) for s, l, _ in got], key + ":terms",
                      lambda: f"{rep}: lists {got}, expected {[x[:3] for x in want]}", rep)
            ck.expect(np.allclose([x[2] for x in want], [g[2] for g in got], rtol=1e-9, atol=1e-12)
                      if len(want) == len(got) else True, key + ":coefficients",
                      lambda: f"{rep}: {got}, expected {[x[:3] for x in want]}", rep)
            pred = cols @ w
            ck.expect(d.predicted_rhs is not None and np.shape(d.predicted_rhs) == P["ut"].shape
                      and np.allclose(np.asarray(d.predicted_rhs).reshape(-1), pred, rtol=1e-6,
                                      atol=1e-7 * max(1.0, float(np.max(np.abs(cols)) * np.max(np.abs(w))))),
                      key + ":prediction", f"{rep}: prediction is not the weighted sum of its terms", rep)
            # and the text of it
            if len(want) == len(got):
                for notation in NOTATIONS:
                    text = sga_equation_to_latex(d, notation=notation)
                    est.best_equation_details_ = d
                    for t2, inc in ((est.equation_latex(notation=notation), True),
                                    (est.equation_latex(notation=notation, include_coefficients=False), False)):
                        check_text(ck, key + ":estimator", t2, [(x[2], x[3] or (target,)) for x in want],
                                   f"{target}_{P['lhs']}", axes, fields, symbols, inc, rep)
                    ck.expect(est.equation_structure_latex() == est.equation_latex(include_coefficients=False),
                              key + ":structure", str(rep), rep)
                    check_text(ck, key + ":display", text, [(x[2], x[3] or (target,)) for x in want],
                               f"{target}_{P['lhs']}", axes, fields, symbols, True, rep)
            with quiet(), np.errstate(all="ignore"):
                short = p.concise_visualize(P["ctx"])
            full = [(target, float(w[0]))] + [(L.inorder(es[i]), float(w[1 + j])) for j, i in enumerate(kept)]
            if not any(abs(abs(c) - 1e-4) < 1e-9 or abs(abs(c * 1e4) % 1 - 0.5) < 1e-6 for _, c in full):
                exp = "+".join(f"{round(c, 4)}{n}" for n, c in full if abs(c) >= 1e-4)
                ck.expect(L.squash(short) == L.squash(exp), key + ":concise", f"{rep}: {short}, expected {exp}", rep)
            now = c15.fingerprint(P["ctx"])
            ck.expect(now == fp, key + ":impure", str(rep), rep)
            ck.trace()
    ck.sample({"problem": name, "candidates": len(combos)})


# ------------------------------------------------------------------ names
FIELDS = ["u", "v", "ux", "uxx", "u_x", "a", "aa", "rho", "p1", "x", "u_", "u__x"]
AXES = ["x", "y", "xx", "t", "xy", "a"]


def spell(f, a, n):
    return f"{f}_{a * n}"


def names(ck, _=None):
    from kd.model.sga.sgapde import naming as N
    keys = {}
    for f in FIELDS:
        for a in AXES:
            for n in (1, 2, 3, 4):
                key = "build"
                rep = {"field": f, "axis": a, "order": n}
                with ck.case(key, rep):
                    k = N.build_derivative_key(f, a, order=n)
                    ck.step()
                    ck.visit(("build", f, a, n))
                    ck.expect(k == spell(f, a, n), key, f"{rep}: {k}", rep)
                    keys[(f, a, n)] = k
            for n in (0, -1):
                try:
                    N.build_derivative_key(f, a, order=n)
                    ck.fail("build:order", f"order {n} accepted")
                except ValueError:
                    ck.trace()
    axsets = [c for m in (1, 2, 3) for c in itertools.combinations(AXES, m)]
    for axs in axsets:
        for (f, a, n), k in keys.items():
            cands = [(x, len(k.rsplit("_", 1)[1]) // len(x)) for x in axs
                     if x * (len(k.rsplit("_", 1)[1]) // len(x)) == k.rsplit("_", 1)[1]]
            rep = {"key": k, "axes": axs}
            ck.visit(("parse", k, axs))
            ck.step()
            with ck.case("parse", rep):
                try:
                    got = N.parse_derivative_key(k, known_axes=list(axs))
                except ValueError:
                    got = None
                if f.endswith("_"):
                    pass
                want = (f, *cands[0]) if len(cands) == 1 else None
                ck.expect(got == want, "parse", f"{rep}: {got}, expected {want or 'refusal'}", rep)
                ck.trace()
    for bad in ("u", "", "u_", "_x", None, 3, "1u_x", "u_z", "u_xz", "u_xyx"):
        with ck.case("parse-bad", {"key": bad}):
            try:
                r = N.parse_derivative_key(bad, known_axes=["x", "y"])
                ck.fail("parse-bad", f"{bad!r} read as {r}", {"key": bad})
            except ValueError:
                ck.trace()
    # without a list of axes: one repeated letter
    for f in FIELDS:
        for tok in ("x", "xx", "yyy", "xy", "t"):
            with ck.case("parse-free", {"key": f"{f}_{tok}"}):
                try:
                    got = N.parse_derivative_key(f"{f}_{tok}")
                except ValueError:
                    got = None
                want = (f, tok[0], len(tok)) if len(set(tok)) == 1 else None
                ck.expect(got == want, "parse-free", f"{f}_{tok}: {got}")
                ck.trace()
    # legacy spellings: unique reading or refusal, anything else untouched
    for fs in [c for m in (1, 2, 3) for c in itertools.combinations(["u", "v", "ux", "a", "rho"], m)]:
        for axs in [c for m in (1, 2, 3) for c in itertools.combinations(["x", "y", "xx", "a"], m)]:
            for k in ("u", "ux", "uxx", "uxxx", "uy", "uxy", "vx", "aa", "aaa", "rhox", "x", "uxxxx", "zz", "u_x"):
                cands = []
                for f in fs:
                    if "_" not in k and k.startswith(f) and len(k) > len(f):
                        r = k[len(f):]
                        for a in axs:
                            if len(r) % len(a) == 0 and a * (len(r) // len(a)) == r:
                                cands.append(spell(f, a, len(r) // len(a)))
                rep = {"key": k, "fields": fs, "axes": axs}
                ck.visit(("legacy", k, fs, axs))
                with ck.case("legacy", rep):
                    try:
                        got = N.normalize_legacy_derivative_key(k, field_names=list(fs), axis_names=list(axs))
                    except ValueError:
                        got = "refused"
                    ck.step()
                    ok = {got} <= ({k} if not cands else {cands[0]} if len(cands) == 1 else
                                   {"refused"})
                    if len(cands) > 1 and len(set(cands)) == 1:
                        ok = got in ("refused", cands[0])
                    ck.expect(ok, "legacy", f"{rep}: {got}, readings {cands}", rep)
                    ck.trace()
    # conflict resolution: injective, avoids axes, leaves the rest alone
    fpool = ["u", "x", "f_x", "f_x_1", "t", "v"]
    for m in (1, 2, 3, 4):
        for fs in itertools.permutations(fpool, m):
            for cs in itertools.combinations(["x", "t", "u"], 2):
                rep = {"fields": fs, "coords": cs}
                ck.visit(("resolve", fs, cs))
                with ck.case("resolve", rep):
                    r = N.resolve_field_name_conflicts(field_names=list(fs), coord_names=list(cs))
                    ck.step()
                    ck.expect(set(r) == set(fs) and len(set(r.values())) == len(fs)
                              and not set(r.values()) & set(cs), "resolve", f"{rep}: {r}", rep)
                    if not set(fs) & set(cs):
                        ck.expect(all(r[f] == f for f in fs), "resolve:renamed", f"{rep}: {r}", rep)
                    ck.trace()
    ck.sample({"fields": FIELDS, "axes": AXES})


def run(ck):
    import kd.model.kd_sga  # noqa: F401
    T = ck.thorough
    ck.part("names")
    names(ck)
    ck.end_part()
    ck.part("display")
    jobs = [(expression_chunk, (n, 2, 8, o)) for n in ALPHABETS for o in range(8)]
    jobs += [(expression_chunk, (n, 3, 16 if T else 16, o)) for n in ALPHABETS for o in range(16)]
    jobs += [(coefficient_chunk, (16, o)) for o in range(16)]
    ck.pool(lambda c, j: j[0](c, j[1]), jobs)
    ck.end_part()
    ck.part("details")
    ck.pool(details, [(n, 8, o) for n in c15.PROBLEMS for o in range(8)])
    ck.end_part()
    ck.notes["bounds"] = "all expressions of two operator levels over three alphabets, both notations; all " \
        "unary/derivative towers of a third level; 0-3 terms over 13 coefficients; real candidates of 1-2 terms"
