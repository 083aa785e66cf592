"""C15: evaluating candidate equations is exact, pure and repeatable (genetic search)."""
import copy
import os

import numpy as np

from mc.core import quiet
from mc.explore import ControlledRandom, Explorer
from mc import sgalib as L

PROBLEMS = {
    "xt": dict(order=("x", "t")),
    "tx": dict(order=("t", "x")),
    "ty": dict(order=("t", "y")),
    "xt-lhs-x": dict(order=("x", "t"), lhs="x"),
    "yxt": dict(order=("y", "x", "t")),
    "xt-uv": dict(order=("x", "t"), fields=("u", "v")),
    "xt-vu": dict(order=("x", "t"), fields=("u", "v"), target="v"),
    "xt-param": dict(order=("x", "t"), params="alpha"),
}
SIZES = {"x": 5, "y": 4, "z": 4, "t": 4}


def problem(name, **config):
    kw = dict(PROBLEMS[name])
    ratio = config.get("aic_ratio", 1.0)
    order, lhs = kw["order"], kw.get("lhs", "t")
    coords = {a: L.grid(a, SIZES[a]) for a in order}
    names = kw.get("fields", ("u",))
    fields = {f: L.field(coords, order, i) for i, f in enumerate(names)}
    params = None
    if kw.pop("params", None):
        params = {"alpha": 1.0 + 0.5 * np.abs(L.field(coords, order, 1))}
    ctx = L.make_context(params=params, **kw, **config)
    leaves = L.leaves_of(order, coords, fields, lhs, params)
    target = kw.get("target") or names[0]
    ax = {a: i for i, a in enumerate(order)}
    delta = {a: coords[a][1] - coords[a][0] for a in order}
    ut = L.deriv1(fields[target], delta[lhs], ax[lhs])
    return dict(name=name, ratio=ratio, ctx=ctx, leaves=leaves, ax=ax, delta=delta, lhs=lhs, ut=ut,
                base=fields[target].reshape(-1, 1), names=set(leaves))


def fingerprint(ctx):
    out = []
    for row in list(ctx.VARS) + list(ctx.den):
        out.append((row[0], np.asarray(row[2]).tobytes()))
    for a in ("ut", "u", "default_terms"):
        out.append((a, np.asarray(getattr(ctx, a)).tobytes()))
    for k, v in ctx.fields.items():
        out.append((k, np.asarray(v).tobytes()))
    for k, v in ctx.coords_1d.items():
        out.append((k, np.asarray(v).tobytes()))
    return out


def trees(P, depth, deviations=None):
    from kd.model.sga.sgapde.tree import Tree

    def body(ch):
        with ControlledRandom(ch).installed():
            return Tree(P["ctx"], depth, 0.5)
    seen = {}
    for _, t in Explorer(body, deviations=deviations).runs():
        e = L.read_tree(t)
        if e not in seen:
            seen[e] = t
    return seen


def pde_of(P, elements):
    from kd.model.sga.sgapde.pde import PDE
    p = object.__new__(PDE)
    p.context, p.depth, p.p_var = P["ctx"], 3, 0.5
    p.elements = list(elements)
    p.W = len(p.elements)
    return p


class Ambiguous(Exception):
    pass


def noisy(P, e):
    """Divides by something that is zero up to rounding: the quotient is rounding error."""
    if len(e) == 1:
        return False
    if e[0] == "/" and len(e[2]) > 1:
        try:
            d = np.abs(L.evaluate(e[2], P["leaves"], P["ax"], P["delta"], P["lhs"], False))
            if 0 < np.max(d) <= 1e-9:
                return True
        except L.Discard:
            pass
    return any(noisy(P, c) for c in e[1:])


def reference(P, exprs, guard=False):
    """(kept indices, columns, finite)"""
    kept, cols = [], [P["base"]]
    if any(noisy(P, e) for e in exprs):
        raise Ambiguous
    for i, e in enumerate(exprs):
        try:
            v = L.evaluate(e, P["leaves"], P["ax"], P["delta"], P["lhs"], guard)
        except L.Discard:
            continue
        v = np.broadcast_to(v, P["ut"].shape)
        if not np.any(v != 0) and not np.any(np.isnan(v)):
            continue
        top = np.max(np.abs(v[np.isfinite(v)]), initial=0.0)
        if np.all(np.isfinite(v)) and top < 1e-8:
            raise Ambiguous     # zero up to rounding: either verdict is right
        kept.append(i)
        cols.append(np.asarray(v, float).reshape(-1, 1))
    return kept, np.hstack(cols)


def close(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    with np.errstate(all="ignore"):
        scale = max(1.0, float(np.nanmax(np.abs(b[np.isfinite(b)]), initial=0.0)))
        return bool(np.all((np.abs(a - b) <= 1e-9 * np.maximum(scale, np.abs(b)))
                           | (a == b) | (np.isnan(a) & np.isnan(b))))


def same_result(r1, r2):
    (a1, w1, m1), (a2, w2, m2) = r1, r2
    if not (a1 == a2 or (np.isnan(a1) and np.isnan(a2))):
        return False
    return np.array_equal(np.asarray(w1), np.asarray(w2), equal_nan=True) and (
        (m1 is None and m2 is None) or np.array_equal(m1, m2, equal_nan=True))


def evaluate(p, P):
    from kd.model.sga.sgapde.pde import evaluate_mse
    with np.errstate(all="ignore"), quiet():
        aic, w, m = evaluate_mse(p, P["ctx"], return_matrix=True)
    return aic, np.array(w, copy=True), None if m is None else np.array(m, copy=True)


def check_eval(ck, P, exprs, treelist, key, guard, fp, twice=True):
    rep = {"problem": P["name"], "terms": [L.preorder(e) for e in exprs]}
    try:
        kept, cols = reference(P, exprs, guard)
    except Ambiguous:
        return None
    p = pde_of(P, treelist)
    r1 = evaluate(p, P)
    ck.step()
    finite = bool(np.all(np.isfinite(cols))) and len(kept) > 0
    aic, w, m = r1
    txt = "; ".join(rep["terms"])
    ck.expect([id(t) for t in p.elements] == [id(treelist[i]) for i in kept], key + ":kept-terms",
              lambda: f"[{txt}]: kept {[t.preorder for t in p.elements]}, expected terms {kept}", rep)
    ck.expect(p.W == len(p.elements), key + ":width", txt, rep)
    if finite:
        big = float(np.max(np.abs(cols))) < 1e12
        if ck.expect(m is not None, key + ":finite-rejected", txt, rep):
            ck.expect(close(m, cols), key + ":values", f"[{txt}]: term values differ", rep)
            ck.expect(np.shape(w)[0] == cols.shape[1], key + ":coefficient-count", txt, rep)
            if big and np.shape(w)[0] == cols.shape[1]:
                w = np.asarray(w, float).reshape(-1)
                mse = float(np.mean((P["ut"].reshape(-1) - m @ w) ** 2))
                k = int(np.count_nonzero(w))
                with np.errstate(all="ignore"):
                    exp = 2 * P["ratio"] * k + 2 * np.log(mse)
                ck.expect(close(aic, exp) or abs(aic - exp) < 1e-6 * max(1, abs(exp)) or mse < 1e-20,
                          key + ":score", f"[{txt}]: score {aic}, from its terms {exp}", rep)
    else:
        ck.expect(aic == np.inf, key + ":nonfinite-scored", f"[{txt}]: score {aic}", rep)
    if twice and p.elements:
        r2 = evaluate(p, P)
        ck.step()
        ck.expect(same_result(r1, r2), key + ":repeat", f"[{txt}]: {r1[0]} then {r2[0]}", rep)
    now = fingerprint(P["ctx"])
    if now != fp:
        bad = [n for (n, a), (_, b) in zip(now, fp) if a != b]
        ck.fail(key + ":impure", f"[{txt}] changed {sorted(set(bad))}", rep)
        fp[:] = now
    for t, e in zip(treelist, exprs):
        ck.expect(L.read_tree(t) == e and L.squash(t.inorder) == L.squash(L.inorder(e)),
                  key + ":tree-changed", txt, rep)
    ck.trace()
    ck.outcome((len(kept), finite))
    return r1


def lhs_tree(P, e):
    """Turn the derivative axis of a real tree into the target axis (as an external caller could)."""
    pass


def single(ck, name, depth, dev, stride, off):
    P = problem(name)
    fp = fingerprint(P["ctx"])
    ck.expect(L.squash(str(sorted(r[0] for r in P["ctx"].VARS)))
              == L.squash(str(sorted(P["names"]))), f"terminals[{name}]",
              f"offered {sorted(r[0] for r in P['ctx'].VARS)}, data has {sorted(P['names'])}")
    for i, (e, t) in enumerate(trees(P, depth, dev).items()):
        if i % stride != off:
            continue
        key = f"term[{name},depth={depth}]"
        with ck.case(key, {"problem": name, "term": L.preorder(e)}):
            ck.visit((name, depth, e))
            check_eval(ck, P, [e], [copy.deepcopy(t)] if i % 2 else [t], key, False, fp)
    ck.sample({"problem": name, "depth": depth, "terms": i + 1})


def pairs(ck, name, stride, off, guard=False, limit=None):
    """Two-term equations, and A, B, A sequences that share the context's arrays."""
    from kd.model.sga.sgapde import pde as pde_module
    P = problem(name)
    fp = fingerprint(P["ctx"])
    ts = list(trees(P, 2).items())
    # add a few depth-3 shapes that are dropped, or divide by a field, or nest derivatives
    want = ("/ u x", "d d u", "- u u", "* 0", "/ u - u u", "/ x d", "^2 d u", "/ ^2 x u", "d^2 / u")
    ax0 = [a for a in P["ax"] if a != P["lhs"]][0]
    for e, t in trees(P, 3, 4).items():
        if L.preorder(e).startswith(tuple(w.replace("x", ax0) for w in want)):
            ts.append((e, t))
    ts = ts[:limit] if limit else ts
    if guard:
        os.environ["KD_SGA_DIVIDE_MODE"] = "guard"
    try:
        n = 0
        for i, (e1, t1) in enumerate(ts):
            for j, (e2, t2) in enumerate(ts):
                n += 1
                if n % stride != off:
                    continue
                key = f"pair[{name}{',guard' if guard else ''}]"
                with ck.case(key, {"problem": name, "terms": [L.preorder(e1), L.preorder(e2)]}):
                    ck.visit((name, guard, e1, e2))
                    check_eval(ck, P, [e1, e2], [t1, copy.copy(t2) if i == j else t2], key,
                                   guard, fp, twice=False)
                    # A alone, B alone, A again: no memory of what came before
                    r1 = evaluate(pde_of(P, [t1]), P)
                    evaluate(pde_of(P, [t2]), P)
                    r2 = evaluate(pde_of(P, [t1]), P)
                    ck.step(3)
                    ck.expect(same_result(r1, r2), key + ":history",
                              f"{L.preorder(e1)} scores {r1[0]} then {r2[0]} after {L.preorder(e2)}",
                              {"problem": name, "terms": [L.preorder(e1), L.preorder(e2)]})
    finally:
        os.environ.pop("KD_SGA_DIVIDE_MODE", None)
    ck.sample({"problem": name, "pairs of": len(ts), "guard": guard})


def target_axis(ck, name):
    """A derivative along the target axis smuggled into a tree is discarded, nothing else is."""
    P = problem(name)
    fp = fingerprint(P["ctx"])
    lhs = P["lhs"]
    grid = P["ctx"].coord_grids[lhs]
    for e, t in list(trees(P, 2).items()) + list(trees(P, 3, 3).items()):
        if not any(n.name in ("d", "d^2") for lv in t.tree for n in lv):
            continue
        t = copy.deepcopy(t)
        for d, lv in enumerate(t.tree[:-1]):
            for n in lv:
                if n.name in ("d", "d^2"):
                    leaf = t.tree[d + 1][n.child_st + 1]
                    leaf.name, leaf.var, leaf.cache = lhs, grid, grid
                    leaf.full = [lhs, 0, grid]
        e = L.read_tree(t)
        t.inorder, t.preorder = L.inorder(e), L.preorder(e)
        other_e, other_t = next(iter(trees(P, 2).items()))
        key = f"target-axis[{name}]"
        for ex, tr in (([e], [t]), ([e, other_e], [copy.deepcopy(t), other_t]),
                       ([other_e, e], [other_t, copy.deepcopy(t)])):
            with ck.case(key, {"problem": name, "terms": [L.preorder(x) for x in ex]}):
                ck.visit((name, "lhs", tuple(ex)))
                check_eval(ck, P, ex, tr, key, False, fp, twice=False)


def pool_of(P, guard):
    """Terms of every kind: usable ones, zero, non-finite, dividing by zero, nested discards
    (with other parts of the term already worked out when the division is reached)."""
    found = {}
    for e, t in trees(P, 3, 4).items():
        if noisy(P, e):
            continue
        names = set(L.preorder(e).split())
        try:
            v = np.broadcast_to(L.evaluate(e, P["leaves"], P["ax"], P["delta"], P["lhs"], True), P["ut"].shape)
            kind = ("nan" if np.any(np.isnan(v)) else "inf" if np.any(np.isinf(v))
                    else "zero" if not np.any(v != 0) else "tiny" if np.max(np.abs(v)) < 1e-8
                    else "huge" if np.max(np.abs(v)) > 1e6 else "ok", bool(names & {"d", "d^2"}))
        except L.Discard:
            kind = ("discard", e[0] == "/") + tuple(
                c[0] if len(c) == 1 and c[0] == "0" else "leaf" if len(c) == 1 else
                "/" if c[0] == "/" else "power" if len(c) == 2 else "d" if c[0][0] == "d" else "op"
                for c in e[1:])
        if kind[0] != "tiny":
            found.setdefault(kind, []).append((e, t))
    return [x for k in sorted(found) for x in found[k][:2 if k[0] == "zero" else 1]]


def infinite_tree(P):
    """A term with infinite (but no undefined) values, as an external caller can hand in."""
    for e, t in trees(P, 2).items():
        if e[0] == "*" and e[1] == e[2] and len(e[1]) == 1 and e[1][0] in P["leaves"] and e[1][0] != "0":
            t = copy.deepcopy(t)
            leaf = t.tree[1][0]
            v = np.array(leaf.var, float)
            v.flat[3] = np.inf
            leaf.var, leaf.cache = v, v.copy()
            leaf.full = [leaf.name, 0, v]
            return e, t
    return None


def several(ck, name, count, guard, stride, off):
    """Equations of three and more terms, several of them dropped; every one is evaluated again
    from the same term objects, also under the other division rule in between."""
    P = problem(name)
    fp = fingerprint(P["ctx"])
    pool = pool_of(P, guard)
    import itertools
    modes = ("guard", "legacy") if guard else ("legacy", "guard")
    try:
        for n, idx in enumerate(itertools.product(range(len(pool)), repeat=count)):
            if n % stride != off:
                continue
            exprs = [pool[i][0] for i in idx]
            tl = [copy.deepcopy(pool[i][1]) for i in idx]
            key = f"equation[{name},{count} terms{',guard' if guard else ''}]"
            rep = {"problem": name, "terms": [L.preorder(e) for e in exprs]}
            with ck.case(key, rep):
                ck.visit((name, guard, count, idx))
                os.environ["KD_SGA_DIVIDE_MODE"] = modes[0]
                r1 = check_eval(ck, P, exprs, list(tl), key, guard, fp, twice=False)
                if r1 is None:
                    continue
                os.environ["KD_SGA_DIVIDE_MODE"] = modes[1]
                check_eval(ck, P, exprs, list(tl), key + ":other-rule", not guard, fp, twice=False)
                os.environ["KD_SGA_DIVIDE_MODE"] = modes[0]
                r2 = evaluate(pde_of(P, tl), P)
                ck.step()
                ck.expect(same_result(r1, r2), key + ":again", f"{rep['terms']}: {r1[0]} then {r2[0]}", rep)
    finally:
        os.environ.pop("KD_SGA_DIVIDE_MODE", None)
    ck.sample({"problem": name, "pool": [L.preorder(e) for e, _ in pool], "terms": count, "guard": guard})


def infinite(ck, name):
    """Equations with a term that is infinite somewhere score infinity and leave nothing behind."""
    P = problem(name)
    bad = infinite_tree(P)
    if bad is None:
        return
    fine = [x for x in trees(P, 2).items() if "0" not in L.preorder(x[0]).split()][:6]
    for k, (e, t) in enumerate(fine):
        for order in ((0,), (0, 1), (1, 0), (1, 0, 1)):
            tl = [copy.deepcopy((bad[1], t)[i]) for i in order]
            rep = {"problem": name, "terms": [L.preorder((bad[0], e)[i]) for i in order]}
            key = f"infinite[{name}]"
            with ck.case(key, rep):
                ck.visit((name, "inf", k, order))
                aic, w, m = evaluate(pde_of(P, tl), P)
                ck.step()
                ck.expect(aic == np.inf, key, f"{rep['terms']} with an infinite value scores {aic}", rep)


def ratios(ck, name, ratio):
    """The configured complexity weight is the one used in the score."""
    P = problem(name, aic_ratio=ratio)
    fp = fingerprint(P["ctx"])
    ts = [x for x in trees(P, 2).items()]
    for i, (e1, t1) in enumerate(ts):
        for j in ((), (i + 1,), (i + 1, i + 3)):
            ex = [e1] + [ts[k % len(ts)][0] for k in j]
            tl = [copy.deepcopy(t1)] + [copy.deepcopy(ts[k % len(ts)][1]) for k in j]
            key = f"weight[{name},{ratio}]"
            with ck.case(key, {"problem": name, "terms": [L.preorder(e) for e in ex]}):
                ck.visit((name, "ratio", ratio, i, j))
                check_eval(ck, P, ex, tl, key, False, fp, twice=False)


def division_setting(ck):
    """How the division rule is chosen: only the documented names, whatever case or padding."""
    P = problem("xt")
    fp = fingerprint(P["ctx"])
    pool = [x for x in pool_of(P, True)]
    for value, guard in ((None, False), ("", False), ("guard", True), ("legacy", False), ("GUARD", True),
                         (" guard ", True), ("Guard\n", True), ("Legacy", False), ("strict", False),
                         ("guards", False), ("1", False)):
        for e, t in pool:
            if value is None:
                os.environ.pop("KD_SGA_DIVIDE_MODE", None)
            else:
                os.environ["KD_SGA_DIVIDE_MODE"] = value
            try:
                key = "division-setting"
                with ck.case(key, {"value": repr(value), "term": L.preorder(e)}):
                    ck.visit(("setting", value, e))
                    check_eval(ck, P, [e], [copy.deepcopy(t)], f"{key}[{value!r}]", guard, fp, twice=False)
            finally:
                os.environ.pop("KD_SGA_DIVIDE_MODE", None)


def run(ck):
    T = ck.thorough
    ck.part("evaluation")
    jobs = []
    for n in PROBLEMS:
        st = 4
        for off in range(st):
            full = T or n == "xt"
            jobs.append(("single", n, 3, None if full else 3, st, off))
            jobs.append(("pairs", n, st * (1 if T else 3 if n in ("xt", "ty") else 12), off, False))
        jobs.append(("single", n, 2, None, 1, 0))
        jobs.append(("single", n, 4, 2 if not T else 3, 1, 0))
        jobs.append(("lhs", n))
    for n in ("xt", "ty"):
        for off in range(4):
            jobs.append(("pairs", n, 4 * (1 if T else 6), off, True))
    for n in PROBLEMS:
        jobs.append(("infinite", n))
        for g in (False, True):
            for off in range(4 if T else 1):
                jobs.append(("several", n, 3, g, 4 if T else 29 if n == "xt" else 97, off))
        for r in (0.0, 0.5, 3.0):
            if T or n in ("xt", "yxt", "xt-uv"):
                jobs.append(("ratios", n, r))
    for g in (False, True):
        for off in range(8):
            jobs.append(("several", "xt", 4, g, 43 if T else 6151, off))
    jobs.append(("setting",))
    import kd.model.sga.sgapde.solver  # noqa: F401

    def work(c, j):
        if j[0] == "single":
            single(c, *j[1:])
        elif j[0] == "pairs":
            pairs(c, *j[1:])
        else:
            {"lhs": target_axis, "infinite": infinite, "several": several, "ratios": ratios,
             "setting": division_setting}[j[0]](c, *j[1:])
    jobs.sort(key=lambda j: -len(j))
    ck.pool(work, jobs)
    ck.assumptions += ["terms above 1e12 in magnitude are compared for value but not for score"]
    ck.notes["bounds"] = {"problems": list(PROBLEMS), "tree depth": "2 full, 3 full or <=3 deviations, 4 <=2-3 deviations", "equations": "1 and 2 terms; 3 and 4 terms over a pool of usable, zero, non-finite and discarded terms"}
