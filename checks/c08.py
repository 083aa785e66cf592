"""C08: every model receives the field, coordinates and target derivative of the dataset it is given."""
import itertools
import types

try:
    import triton._C.libtriton  # noqa: F401  (must be loaded before TensorFlow)
except Exception:  # noqa: BLE001
    pass
import numpy as np

from mc.core import h, quiet
from mc.explore import Explorer

START = {"x": (-1.0, 0.5), "y": (-0.6, 0.3), "z": (0.1, 0.2), "t": (0.25, 0.125)}
WEIGHT = {"x": 1.0, "y": 1.7, "z": 0.6, "t": 2.3}
SIZES = ({"x": 5, "y": 4, "z": 6, "t": 3}, {"x": 4, "y": 4, "z": 4, "t": 4}, {"x": 4, "y": 6, "z": 5, "t": 7})


def coords_for(axes, sizes, down=()):
    out = {}
    for a in axes:
        s, d = START[a]
        c = s + d * np.arange(sizes[a])
        out[a] = c[::-1].copy() if a in down else c
    return out


def value(which, **c):
    """Every grid point of every field has its own value."""
    s = sum((WEIGHT[a] + 0.37 * which) * np.asarray(v, float) for a, v in c.items())
    p = 1.0
    for a, v in c.items():
        p = p * (np.asarray(v, float) + 1.7 + which)
    return np.sin(s) + 0.3 * p + which


def field_on(order, coords, which):
    mesh = np.meshgrid(*[coords[a] for a in order], indexing="ij")
    return value(which, **dict(zip(order, mesh)))


def fd(u, step, axis):
    """Second-order first derivative, one-sided at the ends."""
    v = np.moveaxis(np.asarray(u, float), axis, 0)
    out = np.empty_like(v)
    out[1:-1] = (v[2:] - v[:-2]) / (2 * step)
    out[0] = (-3 * v[0] + 4 * v[1] - v[2]) / (2 * step)
    out[-1] = (3 * v[-1] - 4 * v[-2] + v[-3]) / (2 * step)
    return np.moveaxis(out, 0, axis)


def eq(a, b, tol=1e-9):
    try:
        a, b = np.asarray(a, float), np.asarray(b, float)
    except (TypeError, ValueError):
        return False
    return a.shape == b.shape and np.allclose(a, b, rtol=tol, atol=tol)


def make_nd(order, coords, *, target="u", lhs="t", fields=("u",), params=()):
    from kd.dataset import PDEDataset
    ids = {"u": 0, "v": 1, "nu": 2, "k": 3}
    return PDEDataset("mc-case", fields_data={f: field_on(order, coords, ids[f]) for f in fields},
                      coords_1d={a: coords[a] for a in sorted(coords)},      # axis_order alone says the order
                      axis_order=list(order), target_field=target, lhs_axis=lhs,
                      param_fields={p: field_on(order, coords, ids[p]) for p in params} or None)


IDS = {"u": 0, "v": 1, "nu": 2, "k": 3}


def frozen(ds):
    parts = [ds.usol, ds.x, ds.t] + [v for _, v in sorted((ds.fields_data or {}).items())]
    parts += [v for _, v in sorted((ds.coords_1d or {}).items())]
    parts += [v for _, v in sorted(ds.param_fields.items())]
    return h([None if p is None else (p.shape, np.ascontiguousarray(p).tobytes()) for p in parts])


# ------------------------------------------------------------------ DISCOVER, full grid

def check_regular(ck, data, ds, spatial, lhs, coords, target, params, key, rep):
    want_order = [lhs] + spatial if len(spatial) > 1 else spatial + [lhs]
    u = field_on(want_order, coords, IDS[target])
    ut = fd(u, coords[lhs][1] - coords[lhs][0], want_order.index(lhs))
    ck.expect(eq(data["u"], u), key + ":u", lambda: f"{rep}: the field handed over is not the dataset's, point by point", rep)
    ck.expect(eq(np.asarray(data["ut"]).reshape(-1), ut.reshape(-1), 1e-7), key + ":ut",
              lambda: f"{rep}: the target is not the derivative of {target} along {lhs}", rep)
    X = [np.asarray(c) for c in data["X"]]
    ck.expect(len(X) == len(spatial) and all(eq(a.reshape(-1), coords[s]) for a, s in zip(X, spatial)),
              key + ":X", lambda: f"{rep}: coordinates handed over {[a.reshape(-1).tolist() for a in X]}", rep)
    ck.expect(data["n_input_dim"] == len(spatial), key + ":dim", f"{rep}: {data['n_input_dim']}", rep)
    got = list(zip(data.get("param_names") or [], data.get("param_data") or []))
    ck.expect([n for n, _ in got] == list(params) and (not params or data["n_param_var"] == len(params)),
              key + ":params", f"{rep}: {[n for n, _ in got]}", rep)
    for n, a in got:
        if n in IDS:
            ck.expect(eq(a, field_on(want_order, coords, IDS[n])), key + ":param-value",
                      lambda: f"{rep}: parameter {n} is not aligned with the field", rep)


def quiet_model(cls):
    m = cls(n_samples_per_batch=10)
    m.out_path = None
    return m


def regular_case(ck, case):
    from kd.model import KD_Discover
    from kd.model.discover.adapter import DiscoverRegularAdapter
    from kd.model.discover.program import Program
    legacy, order, sizes, lhs, target, params, down, whole = case
    rep = {"legacy": legacy, "order": order, "sizes": [SIZES[sizes][a] for a in order], "lhs": lhs,
           "target": target, "params": params, "down": down}
    coords = coords_for(order, SIZES[sizes], down)
    if legacy:
        from kd.dataset import PDEDataset
        ds = PDEDataset("mc-case", x=coords["x"], t=coords["t"], usol=field_on(["x", "t"], coords, 0),
                        param_fields={p: field_on(["x", "t"], coords, IDS[p]) for p in params} or None)
    else:
        ds = make_nd(order, coords, target=target, lhs=lhs, fields=("u", "v"), params=params)
    before = frozen(ds)
    spatial = [a for a in order if a != lhs]
    key = "legacy" if legacy else f"nd{len(spatial)}"
    ck.visit(repr(case))
    with ck.case(key, rep), quiet():
        data = DiscoverRegularAdapter(ds).get_data()
        ck.step()
        check_regular(ck, data, ds, spatial, lhs, coords, target, params, key, rep)
        if whole:
            # what the search itself evaluates on
            m = quiet_model(KD_Discover)
            m.import_dataset(ds)
            task = Program.task
            ck.step()
            got = {"u": task.u[0], "ut": task.ut, "X": task.x, "n_input_dim": task.n_input_var,
                   "param_names": task.param_names, "param_data": task.param_data,
                   "n_param_var": task.n_param_var}
            check_regular(ck, got, ds, spatial, lhs, coords, target, params, key + "-task", rep)
            want_order = [lhs] + spatial if len(spatial) > 1 else spatial + [lhs]
            toks = {t.name: t for t in task.library.tokens if t.param_var is not None}
            for n in params:
                ref = getattr(toks.get(n), "_param_data_ref", None)
                ck.expect(ref is not None and eq(ref, field_on(want_order, coords, IDS[n])),
                          key + "-task:token", lambda: f"{rep}: token {n} does not carry its parameter", rep)
        ck.trace()
    ck.expect(frozen(ds) == before, key + ":dataset-changed", f"{rep}", rep)
    ck.outcome((key, tuple(order)))
    ck.sample(rep)


def regular_cases(ck):
    out = []
    for sz in range(3):
        for down in ((), ("x",), ("t",), ("x", "t")):
            for params in ((), ("nu",), ("nu", "k"), ("k", "nu")):
                out.append((True, ["x", "t"], sz, "t", "u", params, down, True))
    for axes in (("x", "y", "t"), ("x", "y", "z", "t")):
        for order in itertools.permutations(axes):
            for sz in range(3) if len(axes) == 3 or ck.thorough else ((0, 1) if order[0] in "xt" else (0,)):
                for lhs in axes:
                    if SIZES[sz]["t"] < 4 and lhs != "t":
                        continue          # every other axis then includes t, which is too short
                    for target in ("u", "v"):
                        for params in ((), ("nu",), ("k", "nu")):
                            if not ck.thorough and len(axes) == 4 and (target == "u") != (len(params) == 1):
                                continue
                            out.append((False, list(order), sz, lhs, target, params, (), len(params) > 0))
            out.append((False, list(order), 2, "t", "v", ("nu",), ("x",), True))
            out.append((False, list(order), 2, "y", "u", ("k",), ("t", "y"), True))
    return out


# ------------------------------------------------------------------ DISCOVER, sampled points

class PickGenerator(np.random.Generator):
    """A generator whose draws without replacement are decided by the explorer."""
    ch = None
    log = None

    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
        ch = type(self).ch
        if ch is None or replace or p is not None or size is None:
            return super().choice(a, size, replace, p, axis, shuffle)
        pool = list(range(int(a))) if np.ndim(a) == 0 else list(a)
        return np.array([pool.pop(ch.choose(len(pool), "draw")) for _ in range(int(size))],
                        dtype=int if np.ndim(a) == 0 else None)


def sparse_expect(ck, data, grid_axes, coords, target, params, n, key, rep, *, noise=False, cut=None,
                  colloc=7, ratio=None):
    """grid_axes: spatial axes followed by the time axis."""
    c = cut or coords
    u = field_on(grid_axes, c, IDS[target])
    table = {}
    for ix in np.ndindex(*u.shape):
        table[tuple(round(float(c[a][i]), 9) for a, i in zip(grid_axes, ix))] = float(u[ix])

    def rows(a):
        return [tuple(round(float(v), 9) for v in r) for r in np.asarray(a).reshape(-1, len(grid_axes))]

    def attached(X, y, what, exact=True):
        y = np.asarray(y).reshape(-1)
        r = rows(X)
        ck.expect(len(r) == len(y), key + ":" + what, f"{rep}: {len(r)} points, {len(y)} values", rep)
        for p, v in zip(r, y):
            if p not in table:
                ck.fail(key + ":" + what + "-point", f"{rep}: {p} is not a grid point of the dataset", rep)
                return r
            if exact and abs(table[p] - v) > 1e-9:
                ck.fail(key + ":" + what + "-value", f"{rep}: {p} carries {v}, the dataset has {table[p]}", rep)
                return r
        return r
    tr = attached(data["X_u_train"], data["u_train"], "train", not noise)
    va = attached(data["X_u_val"], data["u_val"], "validation", not noise)
    me = rows(data["measured_points"])
    if ratio is None:
        ck.expect(sorted(tr + va) == sorted(me), key + ":split",
                  f"{rep}: training and validation points are not the measured ones: {len(tr)}+{len(va)} of {len(me)}", rep)
    else:
        ck.expect(set(tr + va) <= set(me) and len(tr) >= 1, key + ":split", f"{rep}", rep)
    ck.expect(len(set(me)) == len(me) and (n is None or len(me) == n), key + ":count",
              f"{rep}: {len(me)} measured points, asked for {n}", rep)
    ck.expect(not (set(tr) & set(va)), key + ":overlap", f"{rep}", rep)
    attached(data["X_star"], data["u_star"], "full-field")
    ck.expect(rows(data["X_star"]) == [tuple(round(float(v), 9) for v in p) for p in
                                       itertools.product(*[c[a] for a in grid_axes])] and
              tuple(data["shape"]) == u.shape, key + ":full-field-order", f"{rep}: {data['shape']}", rep)
    lo, hi = [c[a].min() for a in grid_axes], [c[a].max() for a in grid_axes]
    ck.expect(eq(data["lb"], lo) and eq(data["ub"], hi), key + ":bounds",
              f"{rep}: {data['lb']} {data['ub']} expected {lo} {hi}", rep)
    xf = np.asarray(data["X_f_train"], float)
    ck.expect(xf.shape == (colloc + len(tr), len(grid_axes)) and np.all(xf >= np.array(lo) - 1e-9)
              and np.all(xf <= np.array(hi) + 1e-9) and sorted(rows(xf[colloc:])) == sorted(tr),
              key + ":collocation", lambda: f"{rep}: shape {xf.shape}, range {xf.min(0)}..{xf.max(0)}", rep)
    got = list(zip(data.get("param_names") or [], data.get("param_data") or []))
    ck.expect([p for p, _ in got] == list(params), key + ":params", f"{rep}", rep)
    for p, a in got:
        if p in IDS and cut is None:
            ck.expect(eq(a, field_on(grid_axes, coords, IDS[p])), key + ":param-value",
                      f"{rep}: parameter {p} is not aligned with the full field", rep)


def build(order, sizes, lhs, target, params, legacy, down=()):
    coords = coords_for(order, sizes, down)
    if legacy:
        from kd.dataset import PDEDataset
        return coords, PDEDataset("mc-case", x=coords["x"], t=coords["t"], usol=field_on(order, coords, 0),
                                  param_fields={p: field_on(order, coords, IDS[p]) for p in params} or None)
    return coords, make_nd(order, coords, target=target, lhs=lhs, fields=("v", "u"), params=params)


def sparse_draws(ck, case):
    """All ordered draws of the measured points and of the training subset on a tiny grid."""
    from kd.model.discover.adapter import DiscoverSparseAdapter
    legacy, order, sizes, lhs, target, n = case
    sizes = dict(zip(order, sizes))
    grid_axes = [a for a in order if a != lhs] + [lhs]
    key = "legacy-draws" if legacy else "nd-draws"
    coords, ds = build(order, sizes, lhs, target, (), legacy)
    before = frozen(ds)
    real_rng, real_choice = np.random.default_rng, np.random.choice

    def body(ch):
        class G(PickGenerator):
            pass
        G.ch = ch

        def choice(a, size=None, replace=True, p=None):
            if replace or p is not None or size is None:
                return real_choice(a, size, replace, p)
            pool = list(range(int(a)))
            return np.array([pool.pop(ch.choose(len(pool), "split")) for _ in range(int(size))], dtype=int)
        np.random.default_rng = lambda s=None: G(np.random.PCG64(0))
        np.random.choice = choice
        try:
            with quiet():
                return DiscoverSparseAdapter(ds, sample=n, colloc_num=7, random_state=1).get_data()
        finally:
            np.random.default_rng, np.random.choice = real_rng, real_choice
    rep0 = {"order": order, "sizes": list(sizes.values()), "lhs": lhs, "target": target, "sample": n}
    ex = Explorer(body)
    with ck.case(key, rep0, timeout=300):
        for ch, data in ex.runs():
            rep = dict(rep0, choices=ch.choices)
            ck.visit((repr(case), tuple(ch.choices)))
            ck.step(len(ch.choices) + 1)
            sparse_expect(ck, data, grid_axes, coords, target, (), n, key, rep)
            ck.trace()
            ck.outcome(tuple(map(tuple, np.asarray(data["X_u_train"]).round(6).tolist())))
            ck.sample(rep)
            if len(ck.fails) > 10:
                return
    ck.expect(frozen(ds) == before, key + ":dataset-changed", f"{rep0}", rep0)


def draw_cases(ck):
    out = [(True, ["x", "t"], (2, 3), "t", "u", n) for n in (1, 2, 3)]
    out += [(True, ["x", "t"], (3, 2), "t", "u", 2)]
    for order in itertools.permutations(("x", "y", "t")):
        for lhs in ("t", "x"):
            out.append((False, list(order), (2, 3, 1), lhs, "v", 2))
            out.append((False, list(order), (1, 2, 2), lhs, "u", 3))
    for order in itertools.permutations(("x", "y", "z", "t")):
        out.append((False, list(order), (1, 2, 1, 3), "t", "v", 2))
    if ck.thorough:
        out += [(True, ["x", "t"], (2, 3), "t", "u", 4), (True, ["x", "t"], (4, 3), "t", "u", 3)]
        for order in itertools.permutations(("x", "y", "t")):
            out.append((False, list(order), (2, 3, 2), "y", "v", 3))
        for order in itertools.permutations(("x", "y", "z", "t")):
            for lhs in "xyz":
                out.append((False, list(order), (2, 1, 3, 2), lhs, "u", 2))
    return out


def sparse_case(ck, case):
    """Layouts and options, with the generator left alone."""
    from kd.model import KD_Discover_SPR
    from kd.model.discover.adapter import DiscoverSparseAdapter
    from kd.model.discover.program import Program
    legacy, order, szi, lhs, target, params, opts, whole, down, seed = (tuple(case) + ((), 3))[:10]
    opts = dict(opts)
    sizes = SIZES[szi] if isinstance(szi, int) else dict(zip(order, szi))
    grid_axes = [a for a in order if a != lhs] + [lhs]
    coords, ds = build(order, sizes, lhs, target, params, legacy, down)
    total = int(np.prod([len(coords[a]) for a in order]))
    key = "sparse-legacy" if legacy else f"sparse-nd{len(order) - 1}"
    rep = {"order": order, "sizes": [sizes[a] for a in order], "lhs": lhs, "target": target,
           "params": params, "opts": opts, "descending": list(down), "random_state": seed}
    before = frozen(ds)
    ck.visit(repr(case))
    with ck.case(key, rep), quiet():
        np.random.seed(11)
        np.random.rand(5)
        pos = np.random.get_state()
        data = DiscoverSparseAdapter(ds, colloc_num=7, random_state=seed, **opts).get_data()
        ck.expect(same_stream(np.random.get_state(), pos), key + ":caller-random-state",
                  f"{rep}: a seeded preparation moved the caller's random generator", rep)
        np.random.seed(12)
        again = DiscoverSparseAdapter(ds, colloc_num=7, random_state=seed, **opts).get_data()
        for k in ("X_u_train", "u_train", "X_u_val", "u_val", "X_f_train", "measured_points"):
            ck.expect(eq(data[k], again[k]), key + ":random_state",
                      f"{rep}: {k} differs between two preparations with the same random_state", rep)
        ck.step(2)
        n, cut, ratio = opts.get("sample"), None, None
        if opts.get("cut_quantile"):
            q = opts["cut_quantile"]
            if min(len(coords[a]) - 2 * int(len(coords[a]) * q) for a in order) < 2:
                return                # such an axis is left uncut
            cut = {a: coords[a][int(len(coords[a]) * q):len(coords[a]) - int(len(coords[a]) * q)] for a in order}
            total = int(np.prod([len(cut[a]) for a in order]))
        if opts.get("spline_sample"):
            c = cut or coords
            r = opts.get("data_ratio", opts.get("sample_ratio", 0.1))
            n = (max(1, int(n / len(c["t"]))) if n else max(1, int(len(c["x"]) * r))) * len(c["t"])
            ratio = opts.get("data_ratio")
        elif n is None:
            n = max(1, int(total * opts.get("sample_ratio", 0.1)))
        if opts.get("data_ratio") is not None:
            ratio = opts["data_ratio"]
        sparse_expect(ck, data, grid_axes, coords, target, params, n, key, rep,
                      noise=bool(opts.get("noise_level")), cut=cut, ratio=ratio)
        if opts.get("spline_sample"):
            xs = {}
            for xx, tt in np.asarray(data["measured_points"]):
                xs.setdefault(round(float(xx), 9), set()).add(round(float(tt), 9))
            ck.expect(all(len(v) == len((cut or coords)["t"]) for v in xs.values()), key + ":series",
                      f"{rep}: a chosen position does not carry its whole time series", rep)
        if whole:
            m = quiet_model(KD_Discover_SPR)
            import os
            m.out_path = os.path.join(os.getcwd(), "c08")
            try:
                m.import_dataset(ds, colloc_num=7, random_state=seed, **opts)
                pn, ad = m.denoise_pinn, m.data_class.get_data()
            finally:
                import logging
                logging.disable(logging.NOTSET)
            ck.step()
            got_x = np.concatenate([np.asarray(v.detach(), float) for v in pn.x] + [np.asarray(pn.t.detach(), float)], 1)
            got_v = np.concatenate([np.asarray(v.detach(), float) for v in pn.x_val] + [np.asarray(pn.t_val.detach(), float)], 1)
            got_f = np.concatenate([np.asarray(v.detach(), float) for v in pn.x_f] + [np.asarray(pn.t_f.detach(), float)], 1)
            for name, a, b in (("x", got_x, ad["X_u_train"]), ("u", pn.u_train.detach(), ad["u_train"]),
                               ("x_val", got_v, ad["X_u_val"]), ("u_val", pn.u_val.detach(), ad["u_val"]),
                               ("x_f", got_f, ad["X_f_train"]), ("lb", pn.lb, ad["lb"]), ("ub", pn.ub, ad["ub"])):
                ck.expect(eq(a, b, 1e-5), key + "-pinn:" + name,
                          lambda: f"{rep}: the network received other {name} than the adapter prepared", rep)
            sparse_expect(ck, ad, grid_axes, coords, target, params, n, key + "-spr", rep,
                          noise=bool(opts.get("noise_level")), cut=cut, ratio=ratio)
            raw = getattr(Program.task, "_param_fields_raw", None)
            for p, a in zip(params, raw or []):
                ck.expect(eq(a, field_on(grid_axes, coords, IDS[p])), key + "-spr:param", f"{rep}: {p}", rep)
        ck.trace()
    ck.expect(frozen(ds) == before, key + ":dataset-changed", f"{rep}", rep)
    ck.outcome((key, tuple(order), tuple(sorted(opts))))


def same_stream(a, b):
    return a[0] == b[0] and np.array_equal(a[1], b[1]) and tuple(a[2:]) == tuple(b[2:])


def sparse_cases(ck):
    out = []
    # quantile cuts of every small grid, every pairing of kept points and values
    for nx in range(3, 11):
        for nt in range(3, 11):
            for q in (0.1, 0.2, 0.25, 0.34, 0.4, 0.45):
                for more in ((("sample_ratio", 1.0),), (("spline_sample", True), ("sample_ratio", 0.7))):
                    out.append((True, ["x", "t"], (nx, nt), "t", "u", (), (("cut_quantile", q),) + more, False))
    for seed in range(8):
        for n, r in ((60, 0.5), (60, 0.9), (40, 0.3), (72, 1.0)):
            out.append((True, ["x", "t"], (9, 8), "t", "u", (), (("sample", n), ("data_ratio", r)), seed == 0, (), seed))
            out.append((True, ["x", "t"], (9, 8), "t", "u", (), (("sample", n), ("noise_level", 0.1), ("data_ratio", r)),
                        False, (), seed))
    for down in (("x",), ("t",), ("x", "t")):
        for o in ((("sample", 9),), (("spline_sample", True), ("sample_ratio", 0.6)), (("sample", 14), ("data_ratio", 0.5)),
                  (("cut_quantile", 0.25), ("sample_ratio", 0.9)), (("spline_sample", True), ("sample_ratio", 1.0))):
            for sz in range(3):
                out.append((True, ["x", "t"], sz, "t", "u", ("nu",), o, False, down))
        for order in itertools.permutations(("x", "y", "t")):
            for lhs in order:
                for n in (9, 40):
                    out.append((False, list(order), 2, lhs, "v", ("nu",), (("sample", n),), n == 9, down))
    leg_opts = [(("sample", 6),), (("sample_ratio", 0.5),), (("sample_ratio", 1.0),), (("sample", 8), ("noise_level", 0.1)),
                (("sample", 9), ("data_ratio", 0.5)), (("spline_sample", True), ("sample_ratio", 0.6)),
                (("spline_sample", True), ("data_ratio", 0.5)), (("spline_sample", True), ("sample", 9)),
                (("cut_quantile", 0.25), ("sample_ratio", 0.9)), (("cut_quantile", 0.34), ("sample_ratio", 1.0)),
                (("cut_quantile", 0.25), ("spline_sample", True), ("sample_ratio", 0.9)), ()]
    for sz in range(3):
        for o in leg_opts:
            for params in ((), ("nu", "k")):
                out.append((True, ["x", "t"], sz, "t", "u", params, o, params == ()))
    nd_opts = [(("sample", 9),), (("sample_ratio", 0.5),), (("sample", 9), ("noise_level", 0.2)), ()]
    for axes in (("x", "y", "t"), ("x", "y", "z", "t")):
        for order in itertools.permutations(axes):
            for lhs in axes:
                for k, o in enumerate(nd_opts):
                    for sz in range(3):
                        if not ck.thorough and (sz + k + len(axes)) % 3:
                            continue
                        for target, params in (("u", ()), ("v", ("nu", "k"))):
                            out.append((False, list(order), sz, lhs, target, params, o,
                                        lhs == "t" and k < 2 and (ck.thorough or len(axes) == 3)))
    return out


# ------------------------------------------------------------------ SGA and DLGA

def sga_case(ck, case):
    from kd.dataset import PDEDataset
    from kd.model import KD_SGA
    legacy, order, szi, lhs, target, params, name, explicit = case
    coords = coords_for(order, SIZES[szi])
    rep = {"legacy": legacy, "order": order, "sizes": [SIZES[szi][a] for a in order], "lhs": lhs,
           "target": target, "params": params, "name": name, "explicit": explicit}
    if legacy:
        ds = PDEDataset(name, x=coords["x"], t=coords["t"], usol=field_on(order, coords, 0),
                        param_fields={p: field_on(order, coords, IDS[p]) for p in params} or None)
    else:
        ds = PDEDataset(name, fields_data={f: field_on(order, coords, IDS[f]) for f in ("v", "u")},
                        coords_1d={a: coords[a] for a in sorted(coords)}, axis_order=list(order),
                        target_field="u" if explicit else target, lhs_axis="t" if explicit else lhs,
                        param_fields={p: field_on(order, coords, IDS[p]) for p in params} or None)
    before = frozen(ds)
    key = "sga-legacy" if legacy else f"sga{len(order)}"
    got = {}

    class Context:
        def __init__(self, config):
            got["config"] = config
            from kd.model.sga.sgapde.context import ProblemContext
            self.real = ProblemContext(config)
            got["context"] = self.real

    class Solver:
        best_equation_details_ = None

        def __init__(self, config):
            pass

        def run(self, context):
            return "pde", 0.0
    ck.visit(repr(case))
    with ck.case(key, rep), quiet():
        m = KD_SGA(**({"target_field": target, "lhs_axis": lhs} if explicit else {}))
        m.fit_dataset(ds, context_cls=Context, solver_cls=Solver)
        ck.step()
        cfg, ctx = got["config"], got["context"]
        fields = {"u": field_on(order, coords, 0)}
        if not legacy:
            fields["v"] = field_on(order, coords, 1)
        if legacy:
            ck.expect(eq(cfg.u_data, fields["u"]) and eq(cfg.x_data, coords["x"]) and eq(cfg.t_data, coords["t"]),
                      key + ":config", f"{rep}: the solver was given other arrays", rep)
        else:
            ck.expect(set(cfg.fields_data) == set(fields) and all(eq(cfg.fields_data[f], fields[f]) for f in fields)
                      and all(eq(cfg.coords_1d[a], coords[a]) for a in order) and list(cfg.axis_order) == list(order),
                      key + ":config", f"{rep}: the solver was given other arrays", rep)
        ck.expect((cfg.target_field or "u", cfg.lhs_axis or "t") == (target, lhs), key + ":target",
                  f"{rep}: asked for {target}_{lhs}, configured {cfg.target_field}_{cfg.lhs_axis}", rep)
        ck.expect(list(ctx.axis_order) == list(order), key + ":axes", f"{rep}: {ctx.axis_order}", rep)
        for a in order:
            ck.expect(eq(ctx.coords_1d[a], coords[a]), key + ":coordinate", f"{rep}: {a}", rep)
        for f in fields:
            if f in ctx.fields or not legacy:
                ck.expect(eq(ctx.fields.get(f), fields[f]), key + ":field", f"{rep}: {f}", rep)
        ck.expect(eq(ctx.u, fields[target]), key + ":u", f"{rep}: the target field is not {target}", rep)
        # centred differences in the interior, whatever is done at the ends
        ax = order.index(lhs)
        ref = fd(fields[target], coords[lhs][1] - coords[lhs][0], ax)
        sl = [slice(None)] * len(order)
        sl[ax] = slice(1, -1)
        ck.expect(np.shape(ctx.ut) == ref.shape and eq(np.asarray(ctx.ut)[tuple(sl)], ref[tuple(sl)], 1e-7),
                  key + ":ut", f"{rep}: the left-hand side is not d{target}/d{lhs}", rep)
        terms = {r[0]: r[2] for r in ctx.VARS}
        for p in params:
            ck.expect(p in terms and eq(terms[p], field_on(order, coords, IDS[p])), key + ":param",
                      f"{rep}: parameter {p} missing or misaligned", rep)
        ck.trace()
    ck.expect(frozen(ds) == before, key + ":dataset-changed", f"{rep}", rep)
    ck.outcome((key, tuple(order), lhs))


def sga_cases(ck):
    out = []
    for szi in range(3):
        for params in ((), ("nu",), ("k", "nu")):
            for name in ("mc-case", "burgers", "kdv", "chafee-infante"):
                out.append((True, ["x", "t"], szi, "t", "u", params, name, False))
    for axes in (("x", "t"), ("x", "y", "t"), ("x", "y", "z", "t")):
        for order in itertools.permutations(axes):
            for szi in range(3):
                for lhs in axes:
                    for target in ("u", "v"):
                        for explicit in (False, True):
                            for params in ((), ("nu", "k")):
                                if not ck.thorough and len(axes) == 4 and (szi != 0 or explicit == bool(params)):
                                    continue
                                out.append((False, list(order), szi, lhs, target, params, "mc-case", explicit))
    return out


def dlga_case(ck, case):
    from kd.dataset import PDEDataset
    from kd.model import KD_DLGA
    legacy, order, szi, target, mode, lhs = case
    coords = coords_for(order, SIZES[szi])
    rep = {"legacy": legacy, "order": order, "sizes": [SIZES[szi][a] for a in order], "target": target,
           "mode": mode, "lhs": lhs}
    if legacy:
        ds = PDEDataset("mc-case", x=coords["x"], t=coords["t"], usol=field_on(order, coords, 0))
    else:
        ds = make_nd(order, coords, target=target, fields=("v", "u"), lhs=lhs)
    got = {}

    class Probe(KD_DLGA):
        def fit(self, X, y):
            got["X"], got["y"] = X, y
            return self
    table = {(round(float(a), 9), round(float(b), 9)): float(value(IDS[target], x=a, t=b))
             for a in coords["x"] for b in coords["t"]}
    before = frozen(ds)
    key = "dlga"
    ck.visit(repr(case))
    with quiet():
        m = Probe(operators=["u", "u_x"], epi=0.1, input_dim=2, verbose=False, max_iter=1)
    if lhs != "t":
        refused(ck, key + ":lhs-axis", rep, lambda: m.fit_dataset(ds))
        return
    with ck.case(key, rep), quiet():
        np.random.seed(1)
        m.fit_dataset(ds, **dict(mode))
        X, y = np.asarray(got["X"], float), np.asarray(got["y"], float).reshape(-1)
        ck.step()
        rows = [tuple(round(float(v), 9) for v in r) for r in X]
        ck.expect(len(rows) == len(y), key + ":length", f"{rep}", rep)
        bad = [(p, v) for p, v in zip(rows, y) if p not in table or abs(table[p] - v) > 1e-9]
        ck.expect(not bad, key + ":value", lambda: f"{rep}: {bad[:2]}", rep)
        d = dict(mode)
        if d.get("sample") and d.get("sample_method") is None and d.get("Xy_from") != "mesh":
            n = d["sample"] if isinstance(d["sample"], int) else int(len(table) * d["sample"])
            ck.expect(len(rows) == n == len(set(rows)), key + ":count", f"{rep}: {len(rows)} points, asked for {n}", rep)
        if dict(mode).get("sample") is None or dict(mode).get("Xy_from") == "mesh":
            ck.expect(sorted(rows) == sorted(table), key + ":mesh", f"{rep}: not every grid point once", rep)
        ck.trace()
    ck.expect(frozen(ds) == before, key + ":dataset-changed", f"{rep}", rep)
    ck.outcome((tuple(order), mode))


def dlga_cases(ck):
    modes = [(), (("sample", 5),), (("sample", 1),), (("sample", 12),), (("sample", 1.0),), (("sample", 0.5),), (("sample", 4), ("sample_method", "uniform")),
             (("sample", 3), ("Xy_from", "mesh")), (("Xy_from", "mesh"),)]
    out = []
    for szi in range(3):
        for mode in modes:
            out.append((True, ["x", "t"], szi, "u", mode, "t"))
            for order in (["x", "t"], ["t", "x"]):
                for target in ("u", "v"):
                    out.append((False, order, szi, target, mode, "t"))
        for order in (["x", "t"], ["t", "x"]):
            out.append((False, order, szi, "u", (), "x"))
    return out


# ------------------------------------------------------------------ refusals

def refused(ck, key, rep, call, kinds=Exception):
    ck.step()
    ck.visit((key, repr(rep)))
    try:
        with quiet():
            call()
    except kinds:
        ck.trace()
        ck.outcome(key)
        return
    ck.fail(key, f"{rep}: accepted", rep)


def part_refusals(ck):
    from kd.dataset import PDEDataset
    from kd.model import KD_DLGA, KD_Discover, KD_Discover_SPR, KD_SGA
    from kd.model.discover.adapter import DiscoverRegularAdapter, DiscoverSparseAdapter
    from kd.model.sga.adapter import SGADataAdapter
    for junk in (None, {}, {"x": [1]}, np.zeros((4, 4)), types.SimpleNamespace(x=1, t=1, usol=1)):
        kind = type(junk).__name__
        refused(ck, f"regular:junk:{kind}", kind, lambda: DiscoverRegularAdapter(junk))
        refused(ck, f"sparse:junk:{kind}", kind, lambda: DiscoverSparseAdapter(junk))
        refused(ck, f"sga:junk:{kind}", kind, lambda: SGADataAdapter(junk).to_solver_kwargs())
        refused(ck, f"sga-model:junk:{kind}", kind, lambda: KD_SGA().fit_dataset(junk))
        refused(ck, f"discover:junk:{kind}", kind, lambda: quiet_model(KD_Discover).import_dataset(junk))
        refused(ck, f"spr:junk:{kind}", kind, lambda: quiet_model(KD_Discover_SPR).import_dataset(junk))
        refused(ck, f"dlga:junk:{kind}", kind,
                lambda: KD_DLGA(operators=["u"], epi=0.1, input_dim=2, verbose=False).fit_dataset(junk))
    uneven = {0: lambda c: c + 0.05 * (np.arange(len(c)) == 1), 1: lambda c: c * np.abs(c),
              2: lambda c: c + 0.05 * (np.arange(len(c)) == len(c) - 1),
              # uneven by a small fraction of the step, and in units in which all coordinates are tiny or huge
              3: lambda c: c + 0.01 * (c[1] - c[0]) * (np.arange(len(c)) == 1),
              4: lambda c: (c + 0.05 * (np.arange(len(c)) == 1)) * 2.0 ** -30,
              5: lambda c: c * np.abs(c) * 2.0 ** -44,
              6: lambda c: (c + 0.05 * (np.arange(len(c)) == len(c) - 1)) * 2.0 ** 30}
    for order in ([list(p) for n in (3, 4) for p in itertools.permutations(("x", "y", "t") if n == 3 else ("x", "y", "z", "t"))]):
        base = coords_for(order, SIZES[2])
        for lhs in order:
            for a in order:
                for k, warp in uneven.items():
                    c = dict(base)
                    c[a] = warp(c[a])
                    ds = make_nd(order, c, lhs=lhs)
                    where = "time" if a == lhs else "space"
                    refused(ck, f"regular:uneven-{where}", {"order": order, "axis": a, "lhs": lhs, "warp": k},
                            lambda: DiscoverRegularAdapter(ds))
        for a in order:
            for n in (1, 2, 3):
                sizes = dict(SIZES[2])
                sizes[a] = n
                if a != "t" or n < 3:
                    ds = make_nd(order, coords_for(order, sizes))
                    refused(ck, "regular:short-axis", {"order": order, "axis": a, "n": n},
                            lambda: DiscoverRegularAdapter(ds))
            for what in (np.nan, np.inf, -np.inf, 1j):
                c = coords_for(order, SIZES[2])
                u = field_on(order, c, 0).astype(complex if what == 1j else float)
                u[tuple(-1 if b == a else 0 for b in order)] = what
                ds = PDEDataset("mc", fields_data={"u": u}, coords_1d=c, axis_order=order)
                for nm, A in (("regular", DiscoverRegularAdapter), ("sparse", DiscoverSparseAdapter)):
                    refused(ck, f"{nm}:not-real-finite", {"order": order, "value": str(what)}, lambda: A(ds))
    for a in "xt":
        for k, warp in uneven.items():
            c = coords_for(["x", "t"], SIZES[2])
            c[a] = warp(c[a])
            ds = PDEDataset("mc", x=c["x"], t=c["t"], usol=field_on(["x", "t"], c, 0))
            refused(ck, f"regular-legacy:uneven-{a}", {"axis": a, "warp": k}, lambda: DiscoverRegularAdapter(ds))
            refused(ck, f"sga:uneven-{a}", {"axis": a, "warp": k},
                    lambda: __import__("kd.model.sga.sgapde.context", fromlist=["x"]).ProblemContext(
                        __import__("kd.model.sga.sgapde.config", fromlist=["x"]).SolverConfig(
                            fields_data={"u": ds.usol}, coords_1d={"x": ds.x, "t": ds.t}, axis_order=["x", "t"],
                            target_field="u", lhs_axis="t")))
    for what in (np.nan, np.inf, -np.inf):
        c = coords_for(["x", "t"], SIZES[2])
        for ix in ((0, 0), (-1, -1), (1, 2)):
            u = field_on(["x", "t"], c, 0)
            u[ix] = what
            ds = PDEDataset("mc", x=c["x"], t=c["t"], usol=u)
            for nm, A in (("regular-legacy", DiscoverRegularAdapter), ("sparse-legacy", DiscoverSparseAdapter)):
                refused(ck, f"{nm}:not-finite", {"value": str(what), "at": ix}, lambda: A(ds))
    # dimensions a model has no derivative operators for, or that contradict an explicit request
    for n in (1, 4, 5):
        axes = ["x", "y", "z", "t", "p", "q"]
        order = ["t"] + [a for a in axes if a != "t"][:n]
        c = {a: np.arange(4.0) for a in order}
        mesh = np.meshgrid(*[c[a] for a in order], indexing="ij")
        ds = PDEDataset("mc", fields_data={"u": sum(mesh)}, coords_1d=c, axis_order=order)
        refused(ck, "regular:dimensions", {"spatial": n}, lambda: DiscoverRegularAdapter(ds))
        if n != 1:
            refused(ck, "dlga:dimensions", {"spatial": n}, lambda: KD_DLGA(
                operators=["u"], epi=0.1, input_dim=2, verbose=False).fit_dataset(ds))
    for order in (["x", "y"], ["y", "t"]):
        c = coords_for(order, SIZES[2])
        ds = make_nd(order, c, lhs=order[-1])
        refused(ck, "dlga:axes", {"order": order}, lambda: KD_DLGA(
            operators=["u"], epi=0.1, input_dim=2, verbose=False).fit_dataset(ds))
    for order, dims in ((["x", "t"], (2, 3, 0)), (["x", "y", "t"], (1, 3)), (["t", "x", "y", "z"], (1, 2))):
        c = coords_for(order, SIZES[2])
        ds = (PDEDataset("mc", x=c["x"], t=c["t"], usol=field_on(order, c, 0)) if len(order) == 2
              else make_nd(order, c))
        for d in dims:
            if d:
                refused(ck, "regular:n_input_dim", {"order": order, "dim": d},
                        lambda: DiscoverRegularAdapter(ds, n_input_dim=d))
        for kw in ({"sample": 10 ** 6}, {"sample_ratio": 0.0}, {"sample_ratio": 1.5}, {"sample_ratio": -0.1},
                   {"sample": -1}):
            refused(ck, f"sparse:{sorted(kw)[0]}", {"order": order, **kw},
                    lambda: DiscoverSparseAdapter(ds, colloc_num=5, **kw))
        if len(order) > 2:
            for kw in ({"spline_sample": True}, {"cut_quantile": 0.1}, {"data_ratio": 0.5}):
                refused(ck, f"sparse:{sorted(kw)[0]}", {"order": order, **kw},
                        lambda: DiscoverSparseAdapter(ds, colloc_num=5, **kw))
        else:
            for kw in ({"cut_quantile": 0.5}, {"cut_quantile": -0.1}, {"data_ratio": 0.0}, {"data_ratio": 1.2}):
                refused(ck, f"sparse:{sorted(kw)[0]}", {"order": order, **kw},
                        lambda: DiscoverSparseAdapter(ds, colloc_num=5, **kw))


# ------------------------------------------------------------------ units
def unit_case(ck, case):
    """The same dataset with coordinates in another unit: the same field, its derivative scaled."""
    from kd.dataset import PDEDataset
    from kd.model.discover.adapter import DiscoverRegularAdapter, DiscoverSparseAdapter
    order, lhs, unit, scaled, legacy = case
    rep = {"order": order, "lhs": lhs, "unit": f"2^{unit}", "scaled": scaled, "legacy": legacy}
    ck.visit(repr(case))
    with ck.case("units", rep), quiet():
        base = coords_for(order, SIZES[2])
        s = {a: 2.0 ** (unit if a in scaled else 0) for a in order}
        new = {a: c * s[a] for a, c in base.items()}
        fields = {f: field_on(order, base, i) for f, i in (("u", 0), ("v", 1))}
        if legacy:
            sets = [PDEDataset("mc", x=c["x"], t=c["t"], usol=fields["u"]) for c in (base, new)]
        else:
            sets = [PDEDataset("mc", fields_data=fields, coords_1d=c, axis_order=list(order), target_field="u",
                               lhs_axis=lhs) for c in (base, new)]
        a, b = (DiscoverRegularAdapter(d).get_data() for d in sets)
        ck.step()
        spatial = [x for x in order if x != lhs]
        ua, ub = np.asarray(a["ut"], float), np.asarray(b["ut"], float)
        ck.expect(ua.shape == ub.shape and np.all(np.abs(ub * s[lhs] - ua) <= 1e-9 * np.max(np.abs(ua))),
                  "units:ut", lambda: f"{rep}: the target derivative is not the same quantity in the other unit", rep)
        ck.expect(eq(a["u"], b["u"]), "units:u", lambda: f"{rep}: the field changed with the unit", rep)
        ck.expect(len(b["X"]) == len(spatial) and
                  all(eq(np.asarray(xb).reshape(-1) / s[n], np.asarray(xa).reshape(-1))
                      for n, xa, xb in zip(spatial, a["X"], b["X"])),
                  "units:X", lambda: f"{rep}: coordinates handed over are not those of the dataset", rep)
        if lhs == "t":
            a, b = (DiscoverSparseAdapter(d, sample=20, colloc_num=12, random_state=3).get_data() for d in sets)
            ck.step()
            names = (order if legacy else spatial + [lhs])
            for k in ("X_u_train",):
                if k in a:
                    xa, xb = np.asarray(a[k], float), np.asarray(b[k], float)
                    f = np.array([s[n] for n in names])
                    ck.expect(xa.shape == xb.shape and eq(xb / f, xa), "units:sparse-X",
                              lambda: f"{rep}: the sampled coordinates changed with the unit", rep)
            if "u_train" in a:
                ck.expect(eq(a["u_train"], b["u_train"]), "units:sparse-u",
                          lambda: f"{rep}: the sampled values changed with the unit", rep)
        ck.trace()


def unit_cases(ck):
    yield from (((["x", "t"]), "t", k, sc, True) for k in (-44, -30, -14, 20) for sc in (["x", "t"], ["x"], ["t"]))
    for axes in (("x", "y", "t"), ("x", "y", "z", "t")):
        for order in itertools.permutations(axes):
            for lhs in order:
                for k in (-44, -30, -14, 20) if ck.thorough or len(axes) == 3 else (-30,):
                    for sc in [list(order)] + [[a] for a in order]:
                        yield list(order), lhs, k, sc, False


# ------------------------------------------------------------------ parameter fields of the network-assisted mode
def param_case(ck, case):
    """A constant parameter field reaches the terms with its value; one that varies is refused, in any unit."""
    from kd.model.discover.task.pde.pde_pinn import PDEPINNTask
    shape, unit, kind = case
    scale = 2.0 ** unit
    n = int(np.prod(shape))
    task = PDEPINNTask(function_set=["add", "mul"], dataset="test", metric="inv_nrmse", metric_params=(1,),
                       n_param_var=2, param_names=["nu", "mu"])
    if not hasattr(task, "_refresh_param_refs"):
        return
    toks = sorted((t for t in task.library.tokens if t.param_var is not None), key=lambda t: t.param_var)
    import torch
    us = (np.linspace(0, 1, 7), torch.linspace(0, 1, 5), torch.linspace(0, 1, 6, dtype=torch.float64).reshape(6, 1))
    if kind == "constant":
        fields = [(v * scale, w * scale) for v in (1.0, -2.5, 0.0) for w in (1.0, 0.75)]
        good = [([np.full(shape, a), np.full(shape, b)], (a, b)) for a, b in fields]
        bad = []
    else:
        good, bad = [], []
        for k in range(n):                      # one node differs
            for base, other in ((1.0, 1.01), (1.0, 0.0), (0.0, 1.0), (1.0, -1.0)):
                f = np.full(n, base)
                f[k] = other
                bad.append(f.reshape(shape) * scale)
        bad.append(np.arange(1.0, n + 1).reshape(shape) * scale)
    for u in us:
        for raw, vals in good:
            rep = {"shape": shape, "unit": f"2^{unit}", "values": vals, "field": str(type(u).__name__)}
            ck.visit((case, vals, type(u).__name__, tuple(u.shape)))
            with ck.case("parameters", rep), quiet():
                task.load_data({"param_data": [r.copy() for r in raw]})
                task.u = [u]
                task._refresh_param_refs()
                ck.step()
                for t, v in zip(toks, vals):
                    g = t._param_data_ref
                    ck.expect(tuple(g.shape) == tuple(u.shape) and np.all(np.abs(np.asarray(g, float) - v) <= 1e-6 * abs(v)),
                              "parameters:value", lambda: f"{rep}: {t.name} is {np.asarray(g).ravel()[:3]}, not {v}", rep)
        for f in bad:
            for pos in (0, 1):
                rep = {"shape": shape, "unit": f"2^{unit}", "values": f.ravel().tolist(), "position": pos}
                ck.visit((case, pos, f.tobytes(), type(u).__name__, tuple(u.shape)))
                raw = [np.full(shape, scale), np.full(shape, scale)]
                raw[pos] = f
                task.load_data({"param_data": raw})
                task.u = [u]
                try:
                    with quiet():
                        task._refresh_param_refs()
                    ck.fail("parameters:varying-accepted", f"{rep}: a parameter that varies in space was taken for a constant", rep)
                except NotImplementedError:
                    pass
                ck.step()
    ck.trace()


def param_cases(ck):
    for shape in ((1,), (4,), (3, 2), (2, 2, 2)):
        for unit in (-44, -30, -14, 0, 20) if not ck.thorough else range(-60, 61, 4):
            yield shape, unit, "constant"
            if np.prod(shape) > 1:
                yield shape, unit, "varying"


def run(ck):
    ck.part("parameters")
    ck.pool(param_case, sorted(param_cases(ck), key=lambda c: h(str(c))))
    ck.end_part()
    ck.part("units")
    ck.pool(unit_case, sorted(unit_cases(ck), key=lambda c: h(str(c))))
    ck.end_part()
    ck.part("regular")
    ck.pool(regular_case, sorted(regular_cases(ck), key=lambda c: h(str(c))))
    ck.end_part()
    ck.part("sparse-draws")
    ck.pool(sparse_draws, sorted(draw_cases(ck), key=lambda c: h(str(c))))
    ck.end_part()
    ck.part("sparse")
    ck.pool(sparse_case, sorted(sparse_cases(ck), key=lambda c: h(str(c))))
    ck.end_part()
    ck.part("sga")
    ck.pool(sga_case, sorted(sga_cases(ck), key=lambda c: h(str(c))))
    ck.end_part()
    ck.part("dlga")
    ck.pool(dlga_case, sorted(dlga_cases(ck), key=lambda c: h(str(c))))
    ck.end_part()
    ck.part("refusals")
    part_refusals(ck)
    ck.end_part()
    ck.assumptions += ["fields are sampled from one family of functions whose value differs at every grid point"]
