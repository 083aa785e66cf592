"""C09 - datasets are validated and their accessors agree with the stored grid.

construct-nd      every axis order over up to three axes, sizes 1..3, every field shape 1-D..3-D,
                  every single defect: accepted exactly when consistent.
construct-xt      the same for x/t/usol and pde_data in every array layout.
accessors         every accessor with every index, range and sample size on every grid of a
                  family, against direct indexing of the stored field.
histories         every sequence of accessor calls (depth 2 / 3): same answers, dataset unchanged.
"""
from __future__ import annotations

import itertools

import numpy as np

from mc.core import Check, h, quiet
from mc.explore import ControlledRandom, Explorer

BAD = (ValueError, TypeError, KeyError, IndexError)


def snapshot(ds):
    out = {}
    for k, v in sorted(vars(ds).items()):
        if isinstance(v, np.ndarray):
            out[k] = (v.shape, str(v.dtype), v.tobytes())
        elif isinstance(v, dict):
            out[k] = {a: (b.shape, b.tobytes()) if isinstance(b, np.ndarray) else repr(b)
                      for a, b in v.items()}
        else:
            out[k] = repr(v)
    return out


def field(shape, dtype=float):
    """A value that identifies its own index (and is not symmetric)."""
    out = np.zeros(shape, dtype=dtype)
    for idx in np.ndindex(*shape):
        out[idx] = sum((i + 1) * 10.0 ** (2 * k) for k, i in enumerate(idx)) + 0.25 * len(idx)
    return out


def coord(n, kind="up", off=0.0):
    base = {"up": np.arange(n) * 0.5, "down": -np.arange(n) * 0.5,
            "stretch": np.array([0.0, 1.0, 1.5, 4.0, 4.25, 9.0][:n])}[kind]
    return base + off


# ------------------------------------------------------------------ construction
def nd_case(ck: Check, item):
    from kd.dataset import PDEDataset
    order = list(item)
    k = len(order)
    sizes_all = list(itertools.product((1, 2, 3), repeat=k))
    shapes = [s for r in (0, 1, 2, 3) for s in itertools.product((1, 2, 3), repeat=r)]
    if not ck.thorough and k == 3:
        sizes_all = [s for s in sizes_all if len(set(s)) > 1 or s == (2, 2, 2)]
    for sizes in sizes_all:
        coords = {a: coord(n, off=10 * i) for i, (a, n) in enumerate(zip(order, sizes))}
        for layout in ("flat", "col", "reversed"):
            cs = {a: (c.reshape(-1, 1) if layout == "col" else c) for a, c in coords.items()}
            if layout == "reversed":
                if k == 1:
                    continue
                cs = dict(reversed(cs.items()))
            for shape in shapes:
                ok = shape == sizes
                if layout == "col" and not ok or layout == "reversed" and sorted(shape) != sorted(sizes):
                    continue
                f = field(shape)
                for target, lhs in ((("u", order[-1]),) if not ok else
                                    [(t, a) for t in ("u", "v", "w") for a in order + ["q"]]):
                    fields = {"u": f, "v": f + 1}
                    good = ok and target in fields and lhs in order
                    build(ck, PDEDataset, fields, cs, order, target, lhs, good,
                          (order, sizes, shape, target, lhs), coords)
        # single defects of an otherwise consistent request
        f = field(sizes)
        for name, req in defects(f, coords, order):
            build(ck, PDEDataset, *req, order[-1], False, (order, sizes, name), coords)
        for pshape in shapes:
            for val in (0.5, np.nan, np.inf, -np.inf):
                arr = np.full(pshape, 0.5)
                if arr.size:
                    arr[tuple(s - 1 for s in pshape)] = val
                ck.step()
                try:
                    d = PDEDataset("e", fields_data={"u": f}, coords_1d=coords, axis_order=order,
                                   lhs_axis=order[0], param_fields={"p": arr})
                    acc = True
                except BAD:
                    acc = False
                good = pshape == sizes and np.isfinite(val)
                ck.expect(acc == good, "param-accepted" if acc else "param-refused",
                          f"parameter of shape {pshape} with {val} on grid {sizes}", [order, sizes, pshape])
                if acc and good:
                    ck.expect(np.array_equal(d.param_fields["p"], arr), "param-value", f"{pshape}")


def defects(f, coords, order):
    u = {"u": f}
    yield "no-fields", ({}, coords, order, "u")
    yield "fields-none", (None, coords, order, "u")
    yield "coords-none", (u, None, order, "u")
    yield "order-none", (u, coords, None, "u")
    yield "order-empty", (u, coords, [], "u")
    yield "order-duplicate", (u, coords, [order[0]] + order, "u")
    yield "order-missing", (u, coords, order[:-1], "u")
    yield "order-extra", (u, coords, order + ["q"], "u")
    yield "order-renamed", (u, coords, order[:-1] + ["q"], "u")
    yield "coord-missing", (u, {a: coords[a] for a in order[1:]}, order, "u")
    yield "coord-extra", (u, {**coords, "q": np.arange(2.0)}, order, "u")
    for a in order:
        yield "coord-long-" + a, (u, {**coords, a: np.arange(len(coords[a]) + 1.0)}, order, "u")
        if len(coords[a]) > 1:
            yield "coord-short-" + a, (u, {**coords, a: coords[a][:-1]}, order, "u")
    yield "second-field-shape", ({"u": f, "v": np.zeros(tuple(s + 1 for s in f.shape))}, coords, order, "u")
    yield "second-field-rank", ({"u": f, "v": f[..., None]}, coords, order, "u")
    yield "first-field-rank", ({"v": f[..., None], "u": f}, coords, order, "u")
    if len(set(f.shape)) > 1:
        yield "reversed", ({"u": f.T.copy()}, coords, order, "u") if f.T.shape != f.shape else \
            ({"u": f[None]}, coords, order, "u")


def build(ck, cls, fields, coords, order, target, lhs, good, rep, flat):
    ck.step()
    err = None
    try:
        ds = cls("e", fields_data=fields, coords_1d=coords, axis_order=order, target_field=target, lhs_axis=lhs)
    except BAD as e:
        err = e
    except Exception as e:  # noqa: BLE001
        ck.fail("construct-error-type", f"{type(e).__name__}: {e} for {rep}", str(rep))
        return
    ck.visit(str(rep))
    if err is not None:
        ck.expect(not good, "refused-consistent", f"{err} for {rep}", str(rep))
        return
    if not ck.expect(good, "accepted-inconsistent", f"{rep}", str(rep)):
        return
    same = (ds.axis_order == list(order) and ds.target_field == target and ds.lhs_axis == lhs
            and set(ds.fields_data) == set(fields) and set(ds.coords_1d) == set(order)
            and all(np.array_equal(ds.fields_data[k], fields[k]) for k in fields)
            and all(np.array_equal(ds.coords_1d[a], flat[a]) for a in order))
    ck.expect(same, "stored-differs", f"{rep}", str(rep))
    ck.expect(np.array_equal(ds.usol, fields[target]) and np.array_equal(ds.u, fields[target]),
              "target-field", f"{rep}", str(rep))
    for a in "xt":
        got = getattr(ds, a)
        ck.expect(got is None if a not in order else np.array_equal(got, flat[a]), "compat-" + a, f"{rep}", str(rep))
    ck.expect(ds.get_size() == tuple(len(flat[a]) for a in order), "size", f"{rep} {ds.get_size()}", str(rep))
    b = ds.get_boundaries()
    ck.expect(b == {a: (flat[a].min(), flat[a].max()) for a in order}, "boundaries", f"{rep} {b}", str(rep))
    ck.expect("e" in repr(ds), "repr", repr(ds))
    ck.trace()


def xt_case(ck: Check, item):
    """Two-axis construction from arrays."""
    from kd.dataset import PDEDataset
    nx, nt = item
    lay = {"flat": lambda c: c, "col": lambda c: c.reshape(-1, 1), "row": lambda c: c.reshape(1, -1),
           "list": lambda c: c.tolist(), "int": lambda c: (c * 2).astype(int)}
    x, t = coord(nx), coord(nt, off=3)
    for shape in [s for r in (0, 1, 2, 3) for s in itertools.product((1, 2, 3, 4), repeat=r)]:
        for dt in (float, complex, int):
            u = field(shape, dt) + (2j if dt is complex else 0)
            for lx, lt in itertools.product(lay, repeat=2):
                for how in ("arrays", "dict"):
                    vx, vt = lay[lx](x), lay[lt](t)
                    ck.step()
                    kw = dict(x=vx, t=vt, usol=u) if how == "arrays" else \
                        dict(pde_data={"x": vx, "t": vt, "usol": u, "other": 1})
                    good = shape == (nx, nt)
                    rep = (nx, nt, shape, dt.__name__, lx, lt, how)
                    try:
                        ds = PDEDataset("e", **kw)
                    except BAD:
                        ck.expect(not good, "refused-consistent", str(rep), str(rep))
                        continue
                    ck.visit(str(rep))
                    if not ck.expect(good, "accepted-inconsistent", str(rep), str(rep)):
                        continue
                    ex = x * 2 if lx == "int" else x
                    et = t * 2 if lt == "int" else t
                    ck.expect(np.array_equal(ds.x, ex) and np.array_equal(ds.t, et)
                              and np.array_equal(ds.usol, np.real(u)) and np.array_equal(ds.u, np.real(u))
                              and not np.iscomplexobj(ds.usol), "stored-differs", str(rep), str(rep))
                    ck.expect(ds.fields_data is None and ds.coords_1d is None and ds.param_fields == {},
                              "xt-nd-attributes", str(rep))
                    ck.trace()
    u = field((nx, nt))
    for drop in itertools.chain.from_iterable(itertools.combinations(("x", "t", "usol"), r) for r in (1, 2, 3)):
        full = {"x": x, "t": t, "usol": u}
        for how in ("arrays", "dict", "dict-none"):
            part = {k: v for k, v in full.items() if k not in drop}
            kw = {"arrays": part, "dict": {"pde_data": part},
                  "dict-none": {"pde_data": {**part, **{k: None for k in drop}}}}[how]
            ck.step()
            try:
                PDEDataset("e", **kw)
                ck.fail("accepted-incomplete", f"{drop} missing ({how}) on a {nx}x{nt} grid", [drop, how, nx, nt])
            except BAD:
                ck.visit((nx, nt, drop, how))
    for pshape in [s for r in (0, 1, 2, 3) for s in itertools.product((1, 2, 3), repeat=r)]:
        for val in (1.5, np.nan, np.inf):
            try:
                PDEDataset("e", x=x, t=t, usol=u, param_fields={"p": np.ones(pshape), "q": np.full(pshape, val)})
                acc = True
            except BAD:
                acc = False
            ck.step()
            ck.expect(acc == (pshape == (nx, nt) and np.isfinite(val)), "param-validation",
                      f"{pshape} {val} on {nx}x{nt}: {'accepted' if acc else 'refused'}", [pshape, str(val)])


# ------------------------------------------------------------------ accessors
class Grid:
    """A dataset together with the reference value of every (x, t) node."""

    def __init__(self, kind, nx, nt, kx, kt, values=None):
        from kd.dataset import PDEDataset
        self.kind, self.x, self.t = kind, coord(nx, kx, 1.0), coord(nt, kt, -2.0)
        self.f = values if values is not None else field((nx, nt))     # always [x, t]
        self.order = {"xt": ["x", "t"], "nd-xt": ["x", "t"], "nd-tx": ["t", "x"]}[kind]
        dom = {"x": (0.0, 1.0), "t": (2.0, 3.0)}
        if kind == "xt":
            self.ds = PDEDataset("e", x=self.x.copy(), t=self.t.copy(), usol=self.f.copy(), domain=dom, epi=.5)
        else:
            stored = self.f if kind == "nd-xt" else self.f.T
            self.ds = PDEDataset("e", fields_data={"u": stored * 0 - 7, "v": stored.copy()}, target_field="v",
                                 coords_1d={"t": self.t.copy(), "x": self.x.copy()}, axis_order=self.order,
                                 lhs_axis="t", domain=dom, epi=.5)
        self.stored = self.f if self.order == ["x", "t"] else self.f.T
        self.node = {(float(a), float(b)): float(self.f[i, j])
                     for i, a in enumerate(self.x) for j, b in enumerate(self.t)}

    def agrees(self, pts, vals):
        pts, vals = np.asarray(pts), np.asarray(vals).ravel()
        return (pts.ndim == 2 and pts.shape[1] == 2 and len(pts) == len(vals) and
                all(self.node.get((float(p[0]), float(p[1]))) == float(v) for p, v in zip(pts, vals)))


def accessors(ck: Check, item):
    kind, nx, nt, kx, kt = item
    g = Grid(*item)
    ds = g.ds
    rep = list(map(str, item))
    before = snapshot(ds)

    def unchanged(key):
        ck.expect(snapshot(ds) == before, key + "-changes-dataset", f"{rep}", rep)

    with ck.case("plain", replay=rep):
        ck.expect(ds.get_size() == g.stored.shape, "size", f"{ds.get_size()}", rep)
        d = ds.get_data()
        ck.expect(set(d) == {"x", "t", "usol"} and np.array_equal(d["x"], g.x) and np.array_equal(d["t"], g.t)
                  and np.array_equal(d["usol"], g.stored), "get_data", "differs from the stored arrays", rep)
        ck.expect(ds.get_boundaries() == {"x": (g.x.min(), g.x.max()), "t": (g.t.min(), g.t.max())},
                  "boundaries", f"{ds.get_boundaries()}", rep)
        ck.expect(ds.get_domain() == {"x": (0.0, 1.0), "t": (2.0, 3.0)} and ds.epi == .5, "domain", "", rep)
        for k in ("x", "t", "usol"):
            ck.expect(np.array_equal(ds[k], getattr(ds, k)), "getitem", k, rep)
        try:
            ds["nothing"]
            ck.fail("getitem-unknown", "no KeyError", rep)
        except KeyError:
            pass
        unchanged("plain")
        ck.step(6)
    for i in range(-2, nx + 2):
        for j in range(-2, nt + 2):
            with ck.case("get_datapoint", replay=[rep, i, j]):
                ck.step()
                inside = 0 <= i < nx and 0 <= j < nt
                try:
                    got = ds.get_datapoint(i, j)
                except IndexError:
                    ck.expect(not inside, "get_datapoint-refused", f"({i},{j})", [rep, i, j])
                    continue
                ck.expect(inside and tuple(map(float, got)) == (g.x[i], g.t[j], g.f[i, j]), "get_datapoint",
                          lambda: f"({i},{j}) -> {got}", [rep, i, j])
    unchanged("get_datapoint")
    with ck.case("mesh", replay=rep):
        m = ds.mesh()
        ck.expect(m.shape == (nx * nt, 2) and g.agrees(m, ds.usol.ravel()), "mesh",
                  f"{rep}: row k of mesh() is not the node of usol.ravel()[k]", rep)
        m2 = ds.mesh(indexing="xy")
        ck.expect(sorted(map(tuple, m2.tolist())) == sorted(map(tuple, m.tolist()))
                  and g.agrees(m2, ds.usol.T.ravel()), "mesh-xy", f"{rep}", rep)
        for ix in ("ij", "xy"):
            lo, hi = ds.mesh_bounds(indexing=ix)
            ck.expect(tuple(lo) == (g.x.min(), g.t.min()) and tuple(hi) == (g.x.max(), g.t.max()), "mesh_bounds",
                      f"{lo} {hi}", rep)
        ck.step(4)
        unchanged("mesh")
    xb, tb = bounds(g.x), bounds(g.t)
    for xr in itertools.product(xb, repeat=2):
        for tr in itertools.product(tb, repeat=2):
            with ck.case("get_range", replay=[rep, xr, tr]):
                ck.step()
                r = ds.get_range(xr, tr)
                sides = []
                for got, c, (lo, hi) in ((r["x"], g.x, xr), (r["t"], g.t, tr)):
                    must = [v for v in c if lo <= v < hi]
                    may = [v for v in c if lo <= v <= hi]
                    got = list(map(float, got))
                    sides.append(got == must or got == may)
                ok = all(sides) and r["usol"].shape == (len(r["x"]), len(r["t"])) and all(
                    r["usol"][i, j] == g.node[(float(a), float(b))]
                    for i, a in enumerate(r["x"]) for j, b in enumerate(r["t"]))
                ck.expect(ok, "get_range", lambda: f"{rep} {xr} {tr}: x={r['x']} t={r['t']} usol={r['usol'].tolist()}",
                          [rep, xr, tr])
                ck.visit((item, xr, tr))
    unchanged("get_range")
    total = nx * nt
    for n in list(range(0, total + 2)) + [0.1, 0.25, 1 / 3, 0.5, 0.75, 0.999, 1.0]:
        want = int(total * n) if isinstance(n, float) else n
        for method in ("random", "uniform"):
            with ck.case(f"sample-{method}", replay=[rep, n]):
                def body(ch):
                    with ControlledRandom(ch).installed():
                        return ds.sample(n, method=method)
                if want > total:
                    try:
                        ds.sample(n, method=method)
                        ck.fail("sample-too-many", f"{n} of {total}", [rep, n])
                    except ValueError:
                        ck.step()
                    continue
                if method == "uniform" and want < 1:
                    continue
                small = total <= 6 and want <= 4
                ex = Explorer(body, None, None if small else 2)
                outs = set()
                for ch, (pts, vals) in ex.runs():
                    ck.step()
                    ck.expect(vals.shape == (len(pts), 1) and g.agrees(pts, vals), f"sample-{method}-values",
                              lambda: f"{rep} n={n}: {pts.tolist()} {vals.ravel().tolist()}", [rep, n, ch.choices])
                    if method == "random":
                        ck.expect(len(pts) == want and len(set(map(tuple, pts.tolist()))) == want,
                                  "sample-random-count", lambda: f"{rep} n={n}: {pts.tolist()}", [rep, n])
                    else:
                        q = int(np.sqrt(want))
                        ck.expect(len(pts) == q * q, "sample-uniform-count", lambda: f"{rep} n={n}: {len(pts)}", [rep, n])
                    outs.add(tuple(map(tuple, pts.tolist())))
                ck.trace(ex.count)
                ck.visit((item, n, method))
                ck.outcome((item, n, method, len(outs)))
                if method == "random" and small and want:
                    seen = set().union(*map(set, outs))
                    ck.expect(len(seen) == total, "sample-random-coverage",
                              lambda: f"{rep} n={n}: only {len(seen)} of {total} nodes can be drawn", [rep, n])
    for bad in ("grid", "", None):
        try:
            ds.sample(1, method=bad)
            ck.fail("sample-method", f"{bad!r} accepted", rep)
        except ValueError:
            ck.step()
    unchanged("sample")
    if nx > 1 and nt > 1:
        derivatives(ck, item, rep)


def bounds(c):
    s = sorted(c)
    out = [s[0] - 1]
    for a, b in zip(s, s[1:] + [s[-1] + 2]):
        out += [a, (a + b) / 2]
    return out + [s[-1] + 5]


def derivatives(ck, item, rep):
    kind, nx, nt, kx, kt = item
    X, T = np.meshgrid(coord(nx, kx, 1.0), coord(nt, kt, -2.0), indexing="ij")
    polys = [(a, b) for a in range(3) for b in range(3)]
    for a, b in polys:
        g = Grid(*item, values=X ** a * T ** b)
        before = snapshot(g.ds)
        for axis, deg, exact in (("x", a, a * X ** max(a - 1, 0) * T ** b), ("t", b, b * X ** a * T ** max(b - 1, 0))):
            with ck.case("get_derivative", replay=[rep, a, b, axis]):
                ck.step()
                got = np.asarray(g.ds.get_derivative(axis))
                if not ck.expect(got.shape == g.stored.shape, "derivative-shape", f"{got.shape}", [rep, axis]):
                    continue
                got = got if g.order == ["x", "t"] else got.T
                k = 0 if axis == "x" else 1
                inner = [slice(None)] * 2
                if deg == 2:
                    inner[k] = slice(1, -1)
                ck.expect(np.allclose(got[tuple(inner)], exact[tuple(inner)], rtol=1e-9, atol=1e-9), "derivative-value",
                          lambda: f"{rep} d/d{axis} of x^{a} t^{b}: {got.tolist()} instead of {exact.tolist()}",
                          [rep, axis, a, b])
                ck.visit((item, a, b, axis))
        for bad in ("q", "", "y"):
            try:
                g.ds.get_derivative(bad)
                ck.fail("derivative-axis", f"{bad!r} accepted", rep)
            except ValueError:
                ck.step()
        ck.expect(snapshot(g.ds) == before, "derivative-changes-dataset", f"{rep}", rep)


def spline_case(ck: Check, item):
    """Interpolated samples are exact for polynomial fields (up to cubic in each coordinate)."""
    kind, nx, nt = item
    X, T = np.meshgrid(coord(nx, "up", 1.0), coord(nt, "up", -2.0), indexing="ij")
    for a in range(4):
        for b in range(4):
            g = Grid(kind, nx, nt, "up", "up", values=X ** a * T ** b + 0.5 * X)
            for n in (1, 4, 9, 10, 16):
                if n > nx * nt:
                    continue
                with ck.case("sample-spline", replay=[item, a, b, n]):
                    ck.step()
                    before = snapshot(g.ds)
                    pts, vals = g.ds.sample(n, method="spline")
                    want = pts[:, 0] ** a * pts[:, 1] ** b + 0.5 * pts[:, 0]
                    q = int(np.sqrt(n))
                    ck.expect(len(pts) == q * q == len(set(map(tuple, pts.tolist()))), "sample-spline-count",
                              f"{len(pts)}", [item, n])
                    ck.expect(vals.shape == (len(pts), 1) and np.allclose(vals.ravel(), want, rtol=1e-6, atol=1e-6),
                              "sample-spline-values", lambda: f"{item} x^{a} t^{b} n={n}: {pts.tolist()} "
                              f"{vals.ravel().tolist()}", [item, a, b, n])
                    lo, hi = pts.min(0), pts.max(0)
                    ck.expect(lo[0] >= g.x.min() and hi[0] <= g.x.max() and lo[1] >= g.t.min() and hi[1] <= g.t.max(),
                              "sample-spline-range", f"{lo} {hi}", [item, n])
                    ck.expect(snapshot(g.ds) == before, "sample-spline-changes-dataset", "", item)
                    ck.visit((item, a, b, n))
                    ck.trace()


def other_axes(ck: Check, item):
    """Datasets with other axes: the x/t accessors refuse rather than misread them."""
    from kd.dataset import PDEDataset
    order, sizes = item
    f = field(sizes)
    coords = {a: coord(n, off=5.0 * i) for i, (a, n) in enumerate(zip(order, sizes))}
    ds = PDEDataset("e", fields_data={"u": f}, coords_1d=coords, axis_order=list(order), lhs_axis=order[0])
    before = snapshot(ds)
    calls = {"get_datapoint": lambda: ds.get_datapoint(0, 0), "mesh": ds.mesh, "mesh_bounds": ds.mesh_bounds,
             "sample": lambda: ds.sample(1), "sample-uniform": lambda: ds.sample(4, method="uniform"),
             "get_range": lambda: ds.get_range((0, 99), (0, 99))}
    for name, f2 in calls.items():
        ck.step()
        try:
            got = f2()
        except Exception:  # noqa: BLE001
            ck.visit((item, name))
            continue
        ck.fail("other-axes-" + name, f"{name} of a dataset with axes {order} returned {str(got)[:120]}", [order, sizes])
    for k, a in enumerate(order):
        if sizes[k] < 2:
            continue
        for e in range(2):
            shp = [1] * len(order)
            shp[k] = -1
            v = np.broadcast_to((coords[a] ** e).reshape(shp), sizes) + 0 * f
            d2 = PDEDataset("e", fields_data={"u": v}, coords_1d=coords, axis_order=list(order), lhs_axis=order[0])
            for b in ("x", "y", "z", "t"):
                try:
                    got = d2.get_derivative(b)
                except Exception:  # noqa: BLE001
                    ck.expect(not (b in order and b in "xt" and len(coords[b]) > 1), "derivative-refused",
                              f"{b} of {order}", [order, b])
                    continue
                ck.step()
                ck.expect(b in order and np.shape(got) == tuple(sizes)
                          and np.allclose(got, float(e) if b == a else 0.0), "derivative-nd",
                          f"d/d{b} of {a}^{e} on {order} {sizes}", [order, sizes, a, b])
    ck.expect(snapshot(ds) == before, "other-axes-changes-dataset", f"{order}", [order])
    ck.trace()


def histories(ck: Check, item):
    """Sequences of accessor calls give the answers of a fresh dataset."""
    def calls(ds):
        return {"mesh": lambda: ds.mesh(), "mesh-xy": lambda: ds.mesh(indexing="xy"),
                "bounds": lambda: ds.mesh_bounds(), "point": lambda: ds.get_datapoint(1, 2),
                "range": lambda: ds.get_range((1.0, 1.6), (-2.0, 0.0)), "dx": lambda: ds.get_derivative("x"),
                "dt": lambda: ds.get_derivative("t"), "size": lambda: ds.get_size(),
                "boundaries": lambda: ds.get_boundaries(), "data": lambda: ds.get_data(),
                "uniform": lambda: ds.sample(4, method="uniform"), "repr": lambda: repr(ds),
                "bad": lambda: ds.get_derivative("q")}

    def frozen(f):
        try:
            r = f()
        except Exception as e:  # noqa: BLE001
            return type(e).__name__
        return repr(r) if not isinstance(r, np.ndarray) else (r.shape, r.tobytes())
    fresh = {k: frozen(f) for k, f in calls(Grid(*item).ds).items()}
    fresh = {k: frozen(calls(Grid(*item).ds)[k]) for k in fresh}
    depth = 4 if ck.thorough else 3
    for word in itertools.product(fresh, repeat=depth):
        ds = Grid(*item).ds
        before = snapshot(ds)
        for k in word:
            ck.step()
            ck.expect(frozen(calls(ds)[k]) == fresh[k], "history-answer", f"{word} {item}", [word, item])
        ck.expect(snapshot(ds) == before, "history-changes-dataset", f"{word} {item}", [word, item])
        ck.visit((item, word))
        ck.trace()


def spread(items):
    return sorted(items, key=lambda i: h(str(i)))


def run(ck: Check):
    with quiet():
        import kd.dataset  # noqa: F401
        ck.part("construct-nd")
        orders = [o for r in (1, 2, 3) for o in itertools.permutations("txyz", r)]
        ck.pool(nd_case, spread(orders))
        ck.end_part()
        ck.part("construct-xt")
        ck.pool(xt_case, spread(itertools.product((1, 2, 3, 4), repeat=2)))
        ck.end_part()
        ck.part("accessors")
        kinds = ("xt", "nd-xt", "nd-tx")
        top = 6 if ck.thorough else 5
        grids = [(k, nx, nt, kx, kt) for k in kinds for nx in range(1, top) for nt in range(1, top)
                 for kx, kt in itertools.product(("up", "down", "stretch"), repeat=2)]
        grids += [(k, 5, 2, "up", "up") for k in kinds] + [(k, 2, 5, "stretch", "up") for k in kinds]
        ck.pool(accessors, spread(grids))
        ck.end_part()
        ck.part("spline")
        ck.pool(spline_case, [(k, nx, nt) for k in kinds for nx in (4, 5, 6) for nt in (4, 5, 6)])
        ck.end_part()
        ck.part("other-axes")
        ck.pool(other_axes, [(o, s) for r in (1, 2, 3) for o in itertools.permutations("txyz", r)
                             if set(o) != {"x", "t"} for s in itertools.product((1, 2, 3), repeat=r)])
        ck.end_part()
        ck.part("histories")
        ck.pool(histories, [(k, nx, nt, "up", "stretch") for k in kinds for nx, nt in ((3, 3), (2, 4), (4, 3))])
        ck.end_part()
