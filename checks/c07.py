"""C07: sparse regression returns the least-squares fit on its support."""
import itertools

try:
    import triton._C.libtriton  # noqa: F401
except Exception:  # noqa: BLE001
    pass
import numpy as np

from mc.core import h, quiet

# Columns of every kind: scaled, collinear, repeated, nearly constant, zero.
COLS = {
    "e": (1, 0, 0, 0, 0), "f": (0, 1, 0, 0, 0), "p": (1, 2, -1, 0, 3), "q": (2, 1, 1, -1, 0), "r": (1, -1, 2, 2, 1), "s": (1, 1, 1, 1, 1),
    "P": (1000, 2000, -1000, 0, 3000), "t": (.001, .0005, -.002, .001, 0), "g": (1, 1, 0, 0, 0), "z": (0, 0, 0, 0, 0), "v": (3, 0, -1, 4, 2),
    "w": (-1, 4, 2, 0.5, 1),
}
GENERAL = ((1.0, 2.0, -1.0, 0.5, 3.0), (0.3, -0.2, 4.0, 1.0, 0.0), (0.0, 0.0, 0.0, 0.0, 0.0), (2e4, 1.0, -3.0, 7.0, 1.0))
TOLS = (0.0, 0.25, 1.0, 3.0)


def col(n):
    return np.array(COLS[n], float)


def fit(X, y):
    """Independent least squares (singular values below 1e-10 of the largest count as zero)."""
    if X.shape[1] == 0:
        return np.zeros((0, 1))
    return np.linalg.pinv(X, rcond=1e-10) @ y


def full_rank(X):
    if X.shape[1] == 0:
        return True
    n = np.linalg.norm(X, axis=0)
    if np.any(n == 0):
        return False
    s = np.linalg.svd(X / n, compute_uv=False)
    return s[-1] > 1e-8


def is_fit(X, y, w, tol=1e-7):
    """The prediction is the projection of y on the kept columns (whatever the rank)."""
    S = [i for i in range(X.shape[1]) if w[i, 0] != 0]
    A = X[:, S]
    r = A @ w[S] - A @ (fit(A / _norms(A), y) / _norms(A).T) if S else 0 * y
    scale = max(np.linalg.norm(y), 1e-12)
    return np.linalg.norm(r) <= tol * scale


def _norms(A):
    n = np.linalg.norm(A, axis=0, keepdims=True)
    return np.where(n == 0, 1.0, n)


def first(X, y, lam, norm):
    """The estimate that is thresholded first."""
    Z = X / (_norms(X) if norm else 1.0)
    if lam:
        return np.linalg.pinv(Z.T @ Z + lam * np.eye(X.shape[1]), rcond=1e-13) @ (Z.T @ y)
    return fit(Z, y)


def thresholded(X, y, lam, tol, norm, iters):
    """Reference: (coefficients, 'ok' | 'all-below' | 'ambiguous')."""
    d = X.shape[1]
    s = _norms(X) if norm else np.ones((1, d))
    Z = X / s

    def est(S):
        A = Z[:, S]
        if lam:
            return np.linalg.pinv(A.T @ A + lam * np.eye(len(S)), rcond=1e-13) @ (A.T @ y)
        return fit(A, y)
    S = list(range(d))
    w = est(S)
    for j in range(iters):
        if np.any(np.abs(np.abs(w) - tol) <= 1e-7 * max(tol, 1e-3)):
            return None, "ambiguous"
        keep = [S[k] for k in range(len(S)) if abs(w[k, 0]) >= tol]
        if len(keep) == len(S):
            break
        if not keep:
            if j == 0:
                return None, "all-below"
            break
        S = keep
        w = est(S)
    out = np.zeros((d, 1))
    out[S] = fit(Z[:, S], y)
    return out / s.T, "ok"


def targets(X, names):
    d = X.shape[1]
    vals = (0.0, 1.0, -2.5) if d > 2 else (0.0, 1.0, -2.5, 0.125, 40.0)
    for c in itertools.product(vals, repeat=d):
        yield ("exact",) + c, X @ np.array(c).reshape(-1, 1)
    for g in GENERAL:
        yield ("general",) + g, np.array(g).reshape(-1, 1)


def routines():
    from kd.model.sga.sgapde import PDE_find
    from kd.model.discover import ga_utils
    out = {}
    for n, m in (("sga", PDE_find), ("discover-library", ga_utils)):
        if hasattr(m, "STRidge"):
            out[n] = m
    return out


# ------------------------------------------------------------ thresholded regression
def a_stridge(ck, item):
    which, names, norm, lam = item
    f = routines().get(which)
    if f is None:
        return
    X = np.array([col(n) for n in names]).T
    rank = full_rank(X)
    for ykey, y in targets(X, names):
        for tol in TOLS:
            rep = dict(routine=which, columns="".join(names), y=list(ykey), tolerance=tol, normalize=norm, ridge=lam)
            ck.visit((item, ykey, tol))
            with quiet(), ck.case(f"{which}:stridge", rep):
                keep = X.tobytes(), y.tobytes()
                w = np.asarray(f.STRidge(X, y, lam, 10, tol, normalize=norm), float)
                ck.step()
                ck.expect(keep == (X.tobytes(), y.tobytes()), f"{which}:modified", lambda: f"{rep}", rep)
                if not ck.expect(w.shape == (len(names), 1) and np.all(np.isfinite(w)), f"{which}:shape", lambda: f"{rep}: {w}", rep):
                    continue
                ref, kind = thresholded(X, y, lam, tol, norm, 10)
                if kind == "all-below":
                    if not is_fit(X, y, w):
                        # recorded: the estimate for the normalised columns comes back as it is
                        known = np.allclose(w, first(X, y, lam, norm), rtol=1e-6, atol=1e-7 * (1 + np.linalg.norm(y)))
                        ck.fail(f"{which}:all-below-tolerance" if known else f"{which}:all-below-tolerance-wrong", f"{rep}: {w.ravel()}", rep)
                    continue
                if kind == "ambiguous" and np.max(np.abs(first(X, y, lam, norm))) <= tol * (1 + 1e-7):
                    continue
                ck.expect(is_fit(X, y, w), f"{which}:not-least-squares", lambda: f"{rep}: {w.ravel()}", rep)
                if kind == "ambiguous" or not rank:
                    continue
                ck.expect(np.allclose(w * _norms(X).T, ref * _norms(X).T, rtol=1e-6, atol=1e-7 * (1 + np.linalg.norm(y))), f"{which}:support",
                          lambda: f"{rep}: {w.ravel()} expected {ref.ravel()}", rep)
                if ykey[0] == "exact" and (lam == 0):
                    c = np.array(ykey[1:]).reshape(-1, 1)
                    nz = np.abs(c * (_norms(X).T if norm else 1))
                    if all(v == 0 or v > tol * (1 + 1e-6) for v in nz.ravel()) and np.any(c):
                        ck.expect(np.allclose(w, c, rtol=1e-7, atol=1e-9 * np.max(np.abs(c))), f"{which}:exact", lambda: f"{rep}: {w.ravel()}", rep)
                if len(names) > 1:
                    for perm in itertools.permutations(range(len(names))):
                        wp = np.asarray(f.STRidge(X[:, perm].copy(), y, lam, 10, tol, normalize=norm), float)
                        ck.step()
                        ck.expect(np.allclose(wp * _norms(X).T[list(perm)], (w * _norms(X).T)[list(perm)], rtol=1e-6, atol=1e-7 * (1 + np.linalg.norm(y))), f"{which}:order",
                                  lambda: f"{rep}: order {perm} gives {wp.ravel()}, {w.ravel()}", rep)
                if norm:
                    for sc in ((8.0,) * len(names), tuple(2.0 ** (3 * k - 2) for k in range(len(names))), (-4.0,) * len(names)):
                        ws = np.asarray(f.STRidge(X * np.array(sc), y, lam, 10, tol, normalize=norm), float)
                        ck.step()
                        ck.expect(np.allclose(ws.ravel() * np.array(sc) * _norms(X).ravel(), (w * _norms(X).T).ravel(), rtol=1e-6, atol=1e-7 * (1 + np.linalg.norm(y))),
                                  f"{which}:scaling", lambda: f"{rep}: columns times {sc} give {ws.ravel()}, {w.ravel()}", rep)
        ck.trace()


# ------------------------------------------------------------ the search over tolerances
def b_train(ck, item):
    which, names, ratio = item
    f = routines().get(which)
    if f is None:
        return
    X = np.array([col(n) for n in names]).T
    for ykey, y in targets(X, names):
        if not np.any(y):
            continue
        rep = dict(routine=which, columns="".join(names), y=list(ykey), penalty=ratio)
        ck.visit((item, ykey))
        with quiet(), ck.case(f"{which}:train", rep):
            keep = X.tobytes(), y.tobytes()
            full = X / _norms(X) @ fit(X / _norms(X), y)
            mse0 = float(np.mean((y - full) ** 2))
            if which == "sga":
                if not hasattr(f, "Train"):
                    continue
                w, err, mse, aic = f.Train(X, y, 0, 1, ratio)
                w = np.asarray(w, float)
                got = float(np.mean((y - X @ w) ** 2))
                noise = 1e-18 * float(np.mean(y ** 2))
                ck.expect(abs(mse - got) <= 1e-9 * got + noise, "sga:train-mse", lambda: f"{rep}: {mse}, is {got}", rep)
                ck.expect(abs(err - np.linalg.norm(y - X @ w)) <= 1e-6 * err + 1e-8 * np.linalg.norm(y), "sga:train-error", lambda: f"{rep}: {err}", rep)
                k = int(np.count_nonzero(w))
                with np.errstate(divide="ignore"):
                    if got > noise:
                        ck.expect(abs(aic - (ratio * 2 * k + 2 * np.log(got))) < 1e-6, "sga:train-aic", lambda: f"{rep}: {aic}", rep)
                    if mse0 > noise:
                        ck.expect(aic <= ratio * 2 * len(names) + 2 * np.log(mse0) + 1e-6, "sga:train-worse-than-full", lambda: f"{rep}: {aic}", rep)
            else:
                if not hasattr(f, "TrainSTRidge"):
                    continue
                w, mse = f.TrainSTRidge(X, y, l0_penalty=ratio)
                w = np.asarray(w, float)
                got = float(np.mean((y - X @ w) ** 2))
                noise = 1e-18 * float(np.mean(y ** 2))
                ck.expect(abs(mse - got) <= 1e-9 * got + noise, "discover-library:train-mse", lambda: f"{rep}: {mse}, is {got}", rep)
                ck.expect(got + ratio * np.count_nonzero(w) <= mse0 + ratio * len(names) + 1e-9 * (1 + mse0), "discover-library:train-worse-than-full", lambda: f"{rep}", rep)
            ck.step()
            ck.expect(keep == (X.tobytes(), y.tobytes()), f"{which}:train-modified", lambda: f"{rep}", rep)
            ck.expect(np.all(np.isfinite(w)) and is_fit(X, y, w), f"{which}:train-not-least-squares", lambda: f"{rep}: {w.ravel()}", rep)
            if ykey[0] == "exact" and which == "sga" and ratio <= 1:
                ck.expect(got <= 1e-14 * np.mean(y ** 2), "sga:train-exact", lambda: f"{rep}: mse {got}", rep)
        ck.trace()


# ------------------------------------------------------------ lasso
def c_lasso(ck, item):
    names, norm = item
    f = routines().get("sga")
    if f is None or not hasattr(f, "Lasso"):
        return
    X = np.array([col(n) for n in names]).T
    for ykey, y in targets(X, names):
        for lam in (0.01, 1.0, 30.0):
            rep = dict(routine="lasso", columns="".join(names), y=list(ykey), penalty=lam, normalize=norm)
            ck.visit((item, ykey, lam))
            if not np.any(X):
                continue
            with quiet(), ck.case("lasso", rep):
                keep = X.tobytes(), y.tobytes()
                w = np.asarray(f.Lasso(X, y, lam, maxit=50, normalize=norm), float)
                ck.step()
                ck.expect(keep == (X.tobytes(), y.tobytes()), "lasso:modified", lambda: f"{rep}", rep)
                ck.expect(w.shape == (len(names), 1) and np.all(np.isfinite(w)) and is_fit(X, y, w), "lasso:not-least-squares", lambda: f"{rep}: {w.ravel()}", rep)
                w2, err, mse, aic = f.Train(X, y, lam, 1, maxit=5, normalize=norm, sparse="Lasso")
                ck.step()
                w2 = np.asarray(w2, float)
                got = float(np.mean((y - X @ w2) ** 2))
                ck.expect(np.array_equal(w2, w), "lasso:train", lambda: f"{rep}: {w2.ravel()} {w.ravel()}", rep)
                ck.expect(abs(err - np.linalg.norm(y - X @ w2)) <= 1e-6 * err + 1e-8 * np.linalg.norm(y), "lasso:train-error", lambda: f"{rep}: {err}, is {np.linalg.norm(y - X @ w2)}", rep)
                if got > 1e-18 * float(np.mean(y ** 2)):
                    ck.expect(abs(aic - (2 * int(np.count_nonzero(w2)) + 2 * np.log(got))) < 1e-6, "lasso:train-aic", lambda: f"{rep}: {aic}", rep)
                ck.expect(abs(mse - got) <= 1e-9 * got + 1e-18 * float(np.mean(y ** 2)), "lasso:train-mse", lambda: f"{rep}: {mse}, is {got}", rep)
        ck.trace()


# ------------------------------------------------------------ DISCOVER
def d_discover(ck, item):
    names, const = item
    from checks import c03
    ws, x = c03.worlds()
    u = ws["generic"]
    task = c03.setup(("add", "mul"), {"u": u, "X": [x.reshape(-1, 1)], "ut": u, "n_input_dim": 1})
    p = c03.program(("u1",))
    s = p.STRidge
    if not hasattr(s, "coef_calculate"):
        return
    s.add_const = const
    X0 = np.array([col(n) for n in names]).T
    X = np.hstack([X0, np.ones((5, 1))]) if const else X0
    rank = full_rank(X)
    d = X.shape[1]
    vals = (1.0, -2.0, 4e-5, -6e-5, 9.9e3, -1.1e4, 0.0)
    cs = list(itertools.product(vals if d < 3 else (1.0, 4e-5, -6e-5, -1.1e4, 0.0), repeat=d))
    ys = [(("exact",) + c, X @ np.array(c).reshape(-1, 1)) for c in cs] + [(("general",) + g, np.array(g).reshape(-1, 1)) for g in GENERAL]
    for bad in (np.nan, np.inf, -np.inf):
        for k in range(5):
            g = np.array(GENERAL[0])
            g[k] = bad
            ys.append((("bad", str(bad), k), g.reshape(-1, 1)))
    for ykey, y in ys:
        rep = dict(columns="".join(names), constant=const, y=list(ykey))
        ck.visit((item, ykey))
        with quiet(), ck.case("discover", rep):
            keep = X.tobytes(), y.tobytes()
            y_hat, w, invalid, node, err, theta = s.coef_calculate(X, y)
            ck.step()
            ck.expect(keep == (X.tobytes(), y.tobytes()), "discover:modified", lambda: f"{rep}", rep)
            if ykey[0] == "bad":
                ck.expect(invalid or np.all(np.isfinite(w)), "discover:non-finite-accepted", lambda: f"{rep}: {w}", rep)
                continue
            ref = fit(X / _norms(X), y) / _norms(X).T
            used = X
            small, large = np.abs(ref) < 5e-5, np.abs(ref) > 1e4
            unclear = np.any(np.abs(np.abs(ref) / 5e-5 - 1) < 1e-2) or np.any(np.abs(np.abs(ref) / 1e4 - 1) < 1e-6) or np.linalg.norm(y) > 1e6 or not rank
            if const and small[-1, 0]:
                used = X[:, :-1]
                ref = fit(used / _norms(used), y) / _norms(used).T
                small, large = small[:-1], large[:-1]
            if unclear:
                if not invalid:
                    W = np.array(w).reshape(-1, 1)
                    T = np.asarray(theta)
                    ck.expect(np.all(np.isfinite(W)) and np.allclose(T @ W, T @ fit(T, y), rtol=1e-6, atol=1e-6 * (1 + np.linalg.norm(y))), "discover:not-least-squares", lambda: f"{rep}: {w}", rep)
                continue
            want_bad = bool(small.any() or large.any())
            ck.expect(bool(invalid) == want_bad, "discover:refused" if invalid else "discover:accepted",
                      lambda: f"{rep}: coefficients {ref.ravel()}, invalid={invalid} {err}", rep)
            if invalid or want_bad:
                continue
            W = np.array(w, float).reshape(-1, 1)
            ck.expect(W.shape == ref.shape and np.allclose(W, ref, rtol=1e-6, atol=1e-9 * np.max(np.abs(ref))), "discover:coefficients", lambda: f"{rep}: {w} expected {ref.ravel()}", rep)
            ck.expect(np.asarray(theta).shape == used.shape and np.array_equal(theta, used), "discover:matrix", lambda: f"{rep}", rep)
            ck.expect(np.allclose(y_hat, used @ W, rtol=1e-9, atol=1e-9 * (1 + np.linalg.norm(y))), "discover:prediction", lambda: f"{rep}", rep)
            for perm in itertools.permutations(range(X0.shape[1])):
                Xp = np.hstack([X0[:, perm], np.ones((5, 1))]) if const else X0[:, perm]
                r2 = s.coef_calculate(Xp, y)
                ck.step()
                full = list(perm) + ([d - 1] if const and len(W) == d else [])
                ck.expect(not r2[2] and np.allclose(np.array(r2[1]).ravel(), W.ravel()[full], rtol=1e-6, atol=1e-9 * np.max(np.abs(ref))), "discover:order",
                          lambda: f"{rep}: {perm}: {r2[1]}", rep)
    ck.trace()


def e_levels(ck, item):
    """Several data sets share the terms: every level has its own fit."""
    names, _ = item
    from checks import c03
    ws, x = c03.worlds()
    u = ws["generic"]
    c03.setup(("add", "mul"), {"u": u, "X": [x.reshape(-1, 1)], "ut": u, "n_input_dim": 1})
    s = c03.program(("u1",)).STRidge
    if not hasattr(s, "multi_coef_calculate"):
        return
    s.add_const = False
    mats = [np.array([col(n) for n in names]).T, np.array([col(n) * 2 + col("w") for n in names]).T, np.array([col(n)[::-1] for n in names]).T]
    for k in (1, 2, 3):
        for sel in itertools.product(range(3), repeat=k):
            for ysel in itertools.product(range(2), repeat=k):
                rep = dict(columns="".join(names), levels=sel, y=ysel)
                ck.visit((item, sel, ysel))
                with quiet(), ck.case("levels", rep):
                    Xs = [mats[i] for i in sel]
                    ys = [np.array(GENERAL[i]).reshape(-1, 1) for i in ysel]
                    r = s.multi_coef_calculate([list(M.T) for M in Xs], ys)
                    ck.step()
                    refs = [fit(M, y) for M, y in zip(Xs, ys)]
                    if any(not full_rank(M) for M in Xs):
                        continue
                    badc = any(np.any(np.abs(c) < 5e-5) or np.any(np.abs(c) > 1e4) for c in refs)
                    ck.expect(bool(r[2]) == badc, "levels:validity", lambda: f"{rep}: {r[2]} {refs}", rep)
                    if r[2] or badc:
                        continue
                    ck.expect(len(r[1]) == k and all(np.allclose(np.ravel(a), c.ravel(), rtol=1e-6) for a, c in zip(r[1], refs)), "levels:coefficients",
                              lambda: f"{rep}: {r[1]} expected {refs}", rep)
                    ck.expect(all(np.allclose(a, M @ c) for a, M, c in zip(r[0], Xs, refs)), "levels:prediction", lambda: f"{rep}", rep)
    ck.trace()


# ------------------------------------------------------------ through the genetic search's score
def f_sga(ck, item):
    from checks import c15
    name, part, parts, width = item
    with quiet():
        P = c15.problem(name)
        seen = c15.trees(P, 2)
    ut = P["ut"].reshape(-1, 1)
    exprs = sorted(seen, key=str)
    for k, combo in enumerate(itertools.combinations(exprs, width)):
        if k % parts != part or (width > 1 and h(str(combo)) % (3 if ck.thorough else 12)):
            continue
        rep = dict(problem=name, terms=[str(e) for e in combo])
        ck.visit((name, combo))
        with quiet(), ck.case("sga:score", rep):
            import copy
            p = c15.pde_of(P, [copy.deepcopy(seen[e]) for e in combo])
            aic, w, M = c15.evaluate(p, P)
            ck.step()
            if M is None or not np.isfinite(aic) or np.max(np.abs(M)) > 1e8:
                continue
            w = np.asarray(w, float).reshape(-1, 1)
            if not ck.expect(w.shape[0] == M.shape[1] and np.all(np.isfinite(w)), "sga:score-coefficients", lambda: f"{rep}: {w.ravel()}", rep):
                continue
            ck.expect(is_fit(M, ut, w, 1e-6), "sga:score-not-least-squares", lambda: f"{rep}: {w.ravel()}", rep)
            n = len(w)
            mse0 = float(np.mean((ut - M / _norms(M) @ fit(M / _norms(M), ut)) ** 2))
            if mse0 > 1e-18:
                ck.expect(aic <= 2 * n + 2 * np.log(mse0) + 1e-6, "sga:score-worse-than-full", lambda: f"{rep}: {aic}", rep)
    ck.trace()


def run(ck):
    deep = ck.thorough
    names = sorted(COLS)
    ck.part("thresholded")
    items = []
    for which in ("sga", "discover-library"):
        for d in (1, 2, 3, 4) if deep else (1, 2, 3):
            for c in itertools.combinations(names, d):
                if d == 4 and h(str(c)) % 4:
                    continue
                for norm in (0, 2):
                    for lam in (0, 1e-5, 0.5) if deep else (0, 1e-5):
                        if d == 3 and not deep and (lam or which != "sga" or norm == 0) and h(str((c, norm, lam, which))) % 4:
                            continue
                        items.append((which, c, norm, lam))
            if d == 2:
                items += [(which, (n, n), norm, lam) for n in names for norm in (0, 2) for lam in (0, 1e-5)]
    ck.pool(a_stridge, sorted(items, key=lambda i: h(str(i))))
    ck.part("search over tolerances")
    items = [(which, c, ratio) for which in ("sga", "discover-library") for d in (1, 2, 3) for c in itertools.combinations(names, d) for ratio in (1, 0.01)
             if d < 3 or (deep or (which == "sga" and ratio == 1))]
    ck.pool(b_train, sorted(items, key=lambda i: h(str(i))))
    ck.part("lasso")
    items = [(c, norm) for d in (1, 2, 3) for c in itertools.combinations(names, d) for norm in (0, 2) if d < 3 or deep]
    ck.pool(c_lasso, sorted(items, key=lambda i: h(str(i))))
    ck.part("DISCOVER")
    items = [(c, k) for d in (1, 2, 3) for c in itertools.combinations([n for n in names if n != "z"], d) for k in (False, True)
             if d < 3 or deep or h(str((c, k))) % 2 == 0]
    ck.pool(d_discover, sorted(items, key=lambda i: h(str(i))))
    ck.part("levels")
    ck.pool(e_levels, [(c, 0) for c in itertools.combinations([n for n in names if n not in "ztP"], 2)])
    ck.part("genetic search scores")
    ck.pool(f_sga, [(n, k, 8, w) for n in ("xt", "ty", "xt-lhs-x", "yxt", "xt-uv", "xt-param") for k in range(8) for w in (1, 2)])
    ck.assumptions.append("a coefficient within 1e-7 of the tolerance may be kept or dropped; rank-deficient libraries are judged by the prediction only")
