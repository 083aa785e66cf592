"""C25 - visual summaries carry the model's own numbers.

contracts  every summary object over all combinations of a shape set, element types and argument
           forms: accepted exactly when the shapes agree, holding exactly the given values, residual
           equal to actual minus predicted.
slices     every cut of 3-, 4- and 5-axis fields, all axis and index requests including those out
           of range, against direct indexing.
adapters   every figure-producing request of the four model adapters, over all variants of the
           model's attributes within bounds: the numbers handed back, the numbers *drawn* (the
           artists are read back from the figure at the moment it is saved) and the model
           afterwards.
"""
from __future__ import annotations

import itertools
import os
import pathlib
import re
import shutil
import tempfile

import numpy as np

from mc.core import quiet

REFUSED = (ValueError, TypeError, IndexError)


def arr(v):
    return np.asarray(v)


def same(a, b, tol=0.0):
    """Same shape, same values, same order (NaN equals NaN)."""
    a, b = arr(a), arr(b)
    if a.shape != b.shape:
        return False
    try:
        a, b = a.astype(float), b.astype(float)
    except (TypeError, ValueError):
        return False
    return bool(np.allclose(a, b, rtol=tol, atol=tol, equal_nan=True) if tol
                else np.array_equal(a, b, equal_nan=True))


def filled(shape, which, kind):
    n = int(np.prod(shape))
    v = (np.arange(n) * (3 + which) + 5 * (which + 1)) % 11 - (0 if kind in ("u1", "b") else 4)
    v = v.reshape(shape)
    if kind == "f":
        return v * 0.5 + which
    if kind == "i":
        return v.astype(np.int64)
    if kind == "i1":
        return (v * 20).astype(np.int8)
    if kind == "u1":
        return v.astype(np.uint8)
    if kind == "b":
        return v % 2 == 0
    if kind == "list":
        return (v * 0.25).tolist()
    if kind == "nan":
        w = v * 0.5
        if w.ndim and w.size:
            w.reshape(-1)[-1] = np.nan
        return w
    raise KeyError(kind)


def minus(a, b):
    return arr(a).astype(float) - arr(b).astype(float)


class Watch:
    """The caller's objects must be left alone."""

    def __init__(self, *objs):
        import copy
        self.objs, self.was = objs, copy.deepcopy(objs)

    def intact(self):
        from checks.c06 import canon
        return all(difference(canon(a), canon(b)) is None for a, b in zip(self.objs, self.was))


def difference(a, b):
    from checks.c06 import difference as d
    return d(a, b) or None


SHAPES = [(), (1,), (2,), (3,), (1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2), (3, 1), (6,), (1, 2, 3)]


def attempt(build):
    try:
        return build()
    except REFUSED:
        return None


# ------------------------------------------------------------------ contracts
def contracts_part(ck, item):
    from kd.viz import _contracts as C
    what, kind = item
    n = 0
    if what == "residual":
        coord_shapes = [None, (1,), (2,), (3,), (2, 2), (3, 1)]
        for sa, sp, sr, sc in itertools.product(SHAPES, SHAPES, SHAPES, coord_shapes):
            if not ck.thorough and sr not in (sa, sp, (), (2,), (3,)):
                continue
            a, p, r = filled(sa, 0, kind), filled(sp, 1, kind), filled(sr, 2, kind)
            c = None if sc is None else filled(sc, 3, "f")
            w = Watch(a, p, r, c)
            rep = [what, kind, sa, sp, sr, sc]
            with ck.case(what, replay=rep):
                d = attempt(lambda: C.ResidualPlotData(a, p, r, c, {"k": 1}))
                ok = sa == sp == sr and (c is None or (sa and sc[0] == sa[0]))
                n += 1
                ck.expect((d is not None) == bool(ok), "residual-accepts",
                          f"actual {sa} predicted {sp} residuals {sr} coordinates {sc}: "
                          f"{'accepted' if d is not None else 'refused'}", rep)
                if d is not None:
                    ck.expect(same(d.actual, a) and same(d.predicted, p) and same(d.residuals, r)
                              and (c is None) == (d.input_coordinates is None)
                              and (c is None or same(d.input_coordinates, c)) and d.metadata == {"k": 1},
                              "residual-values", f"{rep}: {d}", rep)
                ck.expect(w.intact(), "residual-inputs", f"{rep}", rep)
        for sa, sp, sc in itertools.product(SHAPES, SHAPES, coord_shapes):
            for other in ((kind, "f") if kind != "f" else ("f",)):
                a, p = filled(sa, 0, kind), filled(sp, 1, other)
                c = None if sc is None else filled(sc, 3, "f")
                w = Watch(a, p, c)
                rep = [what + "-from", kind, other, sa, sp, sc]
                with ck.case(what + "-from", replay=rep):
                    d = attempt(lambda: C.ResidualPlotData.from_actual_predicted(
                        a, p, input_coordinates=c, metadata={"k": 1}))
                    ok = sa == sp and (c is None or (sa and sc[0] == sa[0]))
                    n += 1
                    ck.expect((d is not None) == bool(ok), "residual-from-accepts",
                              f"{rep}: {'accepted' if d is not None else 'refused'}", rep)
                    if d is not None and ok:
                        ck.expect(same(d.actual, a) and same(d.predicted, p)
                                  and same(d.residuals, minus(a, p), 1e-12) and d.metadata == {"k": 1},
                                  "residual-from-values",
                                  f"{rep}: residuals {d.residuals} of {a} and {p}", rep)
                    ck.expect(w.intact(), "residual-from-inputs", f"{rep}", rep)
    elif what == "parity":
        for sa, sp, sr in itertools.product(SHAPES, SHAPES, SHAPES):
            a, p, r = filled(sa, 0, kind), filled(sp, 1, kind), filled(sr, 2, kind)
            w = Watch(a, p, r)
            rep = [what, kind, sa, sp, sr]
            with ck.case(what, replay=rep):
                d = attempt(lambda: C.ParityPlotData(a, p, r, {"k": 1}))
                ok = arr(a).size == arr(p).size == arr(r).size
                n += 1
                ck.expect((d is not None) == ok, "parity-accepts", f"{rep}", rep)
                if d is not None and ok:
                    ck.expect(same(d.actual_values, arr(a).reshape(-1))
                              and same(d.predicted_values, arr(p).reshape(-1))
                              and same(d.residuals, arr(r).reshape(-1)), "parity-values",
                              f"{rep}: {d}", rep)
                ck.expect(w.intact(), "parity-inputs", f"{rep}", rep)
        for sa, sp in itertools.product(SHAPES, SHAPES):
            for other in ((kind, "f") if kind != "f" else ("f",)):
                a, p = filled(sa, 0, kind), filled(sp, 1, other)
                rep = [what + "-from", kind, other, sa, sp]
                with ck.case(what + "-from", replay=rep):
                    d = attempt(lambda: C.ParityPlotData.from_actual_predicted(a, p, metadata={"k": 1}))
                    n += 1
                    if sa == sp:
                        ck.expect(d is not None, "parity-from-refuses", f"{rep}", rep)
                    if arr(a).size != arr(p).size:
                        ck.expect(d is None, "parity-from-accepts", f"{rep}", rep)
                    if d is not None and arr(a).size == arr(p).size:
                        ck.expect(same(d.actual_values, arr(a).reshape(-1))
                                  and same(d.predicted_values, arr(p).reshape(-1))
                                  and same(d.residuals, minus(arr(a).reshape(-1), arr(p).reshape(-1)),
                                           1e-12), "parity-from-values",
                                  f"{rep}: residuals {d.residuals} of {a} and {p}", rep)
    elif what in ("history", "rewards"):
        names = (("steps", "objective", "complexity", "population_size", "unique_modules")
                 if what == "history" else ("steps", "best_reward", "max_reward", "mean_reward"))
        cls = C.OptimizationHistoryData if what == "history" else C.RewardEvolutionData
        small = [(), (1,), (2,), (3,), (2, 1), (2, 2)]
        opt = [None, (2,), (3,), (2, 1)]
        for s in itertools.product(small, small, *[opt] * (len(names) - 2)):
            vals = [None if x is None else filled(x, i, kind) for i, x in enumerate(s)]
            w = Watch(*vals)
            rep = [what, kind, s]
            with ck.case(what, replay=rep):
                d = attempt(lambda: cls(**dict(zip(names, vals)), metadata={"k": 1}))
                ok = len({x for x in s if x is not None}) == 1
                n += 1
                ck.expect((d is not None) == ok, f"{what}-accepts", f"{rep}", rep)
                if d is not None and ok:
                    ck.expect(all((v is None and getattr(d, k) is None) or
                                  (v is not None and same(getattr(d, k), v))
                                  for k, v in zip(names, vals)) and d.metadata == {"k": 1},
                              f"{what}-values", f"{rep}: {d}", rep)
                ck.expect(w.intact(), f"{what}-inputs", f"{rep}", rep)
    elif what in ("field", "times"):
        axes_forms = [("array", (2,)), ("array", (3,)), ("flat", (2,)), ("flat", (3,)), ("x", (2,)),
                      ("xlist", (3,)), ("arrays", (2,)), ("arrays", (2, 3)), ("lists", (2, 3)),
                      ("tuple", (3, 2)), ("arrays", (2, 2, 3)), ("arrays", (1, 2)), ("none", ()),
                      ("column", (3,)), ("scalar", ())]
        fields = [(2, 2), (2, 3), (3, 2), (3, 3), (2, 3, 2), (2, 3, 3), (3, 2, 2), (2, 2, 3, 2), (2, 2, 3, 3),
                  (1, 2, 2), (6,), (2,), (3, 1), (1, 2), (2, 6)]
        if what == "field":
            third = [None, (2, 2), (2, 3), (3, 2), (2, 3, 2), (3, 3)]
        else:
            third = [[0.0], [1.0, 0.2], [0.5, 0.5], [], [-0.1], [1.5], [0.0, 2.0], [float("nan")],
                     [0.3, float("nan")], 0.4, 3.0, [float("inf")]]
        for (form, sx), nt, st, sp, third_v in itertools.product(
                axes_forms, (1, 2, 3), fields, fields, third):
            if sp != st and not (ck.thorough or (sp == st[::-1] or sp == fields[0])):
                continue
            xs = [filled((k,), i, "f") for i, k in enumerate(sx)]
            t = np.linspace(0, 1, nt) if nt > 1 else np.array([0.4])
            f, p = filled(st, 0, kind), filled(sp, 1, kind)
            kw = {}
            if form == "array":
                kw["spatial_coords"] = xs[0]
            elif form == "flat":
                kw["spatial_coords"] = xs[0].tolist()
            elif form == "x":
                kw["x_coords"] = xs[0]
            elif form == "xlist":
                kw["x_coords"] = xs[0].tolist()
            elif form == "arrays":
                kw["spatial_coords"] = xs
            elif form == "lists":
                kw["spatial_coords"] = [x.tolist() for x in xs]
            elif form == "tuple":
                kw["spatial_coords"] = tuple(xs)
            elif form == "column":
                kw["spatial_coords"] = xs[0].reshape(-1, 1)
            elif form == "scalar":
                kw["spatial_coords"], sx = 0.5, (1,)
            want_shape = tuple(sx) + (nt,)
            rep = [what, kind, form, sx, nt, st, sp, third_v]
            w = Watch(kw, t, f, p)
            with ck.case(what, replay=rep):
                ok = form != "none" and st == sp == want_shape
                n += 1
                if what == "field":
                    r = None if third_v is None else filled(third_v, 2, kind)
                    ok = ok and (r is None or third_v == want_shape)
                    d = attempt(lambda: C.FieldComparisonData(
                        t_coords=t, true_field=f, predicted_field=p, residual_field=r,
                        metadata={"k": 1}, **kw))
                else:
                    st_ok = np.all((arr(third_v) >= t.min()) & (arr(third_v) <= t.max()))
                    ok = ok and bool(st_ok)
                    d = attempt(lambda: C.TimeSliceComparisonData(
                        t_coords=t, true_field=f, predicted_field=p, slice_times=third_v,
                        metadata={"k": 1}, **kw))
                ck.expect((d is not None) == ok, f"{what}-accepts",
                          f"{rep}: {'accepted' if d is not None else 'refused'}", rep)
                ck.expect(w.intact(), f"{what}-inputs", f"{rep}", rep)
                if d is None or not ok:
                    continue
                got = [arr(c).reshape(-1) for c in d.spatial_coords]
                good = (len(got) == len(sx) and (form == "scalar" or all(same(g, x) for g, x in zip(got, xs)))
                        and same(d.t_coords, t) and same(d.true_field, f) and same(d.predicted_field, p)
                        and d.metadata == {"k": 1} and d.n_spatial_dims == len(sx)
                        and same(arr(d.x_coords).reshape(-1), got[0]))
                if what == "field":
                    good = good and same(d.residual_field, minus(f, p) if r is None else r, 1e-12)
                else:
                    good = good and same(d.slice_times, third_v)
                ck.expect(good, f"{what}-values", f"{rep}: {d}", rep)
    elif what == "terms":
        for sl, n_terms in itertools.product(SHAPES, (0, 1, 2)):
            for ts in itertools.product(SHAPES, repeat=n_terms):
                lhs = filled(sl, 0, kind)
                tv = [filled(s, i + 1, kind) for i, s in enumerate(ts)]
                rep = [what, kind, sl, ts]
                w = Watch(lhs, tv)
                with ck.case(what, replay=rep):
                    terms = [C.TermContribution(f"T{i}", v, -1.5 * i + 0.25) for i, v in enumerate(tv)]
                    d = attempt(lambda: C.TermRelationshipData(lhs, "u_t", terms, {"k": 1}))
                    ok = n_terms > 0 and all(arr(v).size == arr(lhs).size for v in tv)
                    n += 1
                    ck.expect((d is not None) == ok, "terms-accepts", f"{rep}", rep)
                    if d is not None and ok:
                        ck.expect(same(d.lhs_values, arr(lhs).reshape(-1)) and d.lhs_label == "u_t"
                                  and [t.label for t in d.terms] == [f"T{i}" for i in range(n_terms)]
                                  and all(same(t.values, arr(v).reshape(-1)) for t, v in zip(d.terms, tv))
                                  and [t.coefficient for t in d.terms] == [-1.5 * i + 0.25 for i in
                                                                          range(n_terms)],
                                  "terms-values", f"{rep}: {d}", rep)
                    ck.expect(w.intact(), "terms-inputs", f"{rep}", rep)
    ck.step(n)
    ck.count_states(n)
    ck.trace(n)


KINDS = ["f", "i", "i1", "u1", "b", "list", "nan"]


def contracts_items(deep):
    out = []
    for what in ("residual", "parity", "history", "rewards", "field", "times", "terms"):
        kinds = KINDS
        if what in ("field", "times", "residual") and not deep:
            kinds = ["f", "u1", "b", "list", "i1"] if what != "times" else ["f", "u1"]
        if what in ("history", "rewards") and not deep:
            kinds = ["f", "list", "i"]
        out += [(what, k) for k in kinds]
    return out


# ------------------------------------------------------------------ slices
def slices_part(ck, item):
    from kd.viz._contracts import FieldComparisonData, slice_3d_to_2d
    sizes, nt = item
    n = len(sizes)
    coords = [np.linspace(i, i + 1, s) if s > 1 else np.array([float(i)]) for i, s in enumerate(sizes)]
    t = np.linspace(0, 1, nt)
    f = np.arange(int(np.prod(sizes)) * nt, dtype=float).reshape(*sizes, nt)
    p = f * 0.5 + 3
    resids = [None, f * 7 - 1]
    for r in resids:
        data = FieldComparisonData(spatial_coords=coords, t_coords=t, true_field=f, predicted_field=p,
                                   residual_field=r, metadata={"k": 1})
        rr = f - p if r is None else r
        for sa, si in itertools.product([None] + list(range(-n - 2, n + 3)),
                                        [None, -2, -1, 0, 1, 2, 3, 9]):
            rep = [list(sizes), nt, sa, si]
            with ck.case("slice", replay=rep):
                kw = {}
                if sa is not None:
                    kw["slice_axis"] = sa
                if si is not None:
                    kw["slice_index"] = si
                w = Watch(data)
                got = slice_3d_to_2d(data, **kw)
                ck.step()
                # oracle: plain indexing
                fix = {}
                left = list(range(n))
                first = True
                while len(left) > 2:
                    a = (-1 if sa is None else sa) if first else -1
                    a = a + len(left) if a < 0 else a
                    a = min(max(a, 0), len(left) - 1)
                    k = si if first else None
                    size = sizes[left[a]]
                    k = size // 2 if k is None else min(max(k, 0), size - 1)
                    fix[left[a]] = k
                    del left[a]
                    first = False
                idx = tuple(fix.get(i, slice(None)) for i in range(n))
                ck.expect(len(got.spatial_coords) == len(left)
                          and all(same(c, coords[i]) for c, i in zip(got.spatial_coords, left))
                          and same(got.t_coords, t) and same(got.true_field, f[idx])
                          and same(got.predicted_field, p[idx]) and same(got.residual_field, rr[idx]),
                          "values", f"sizes {sizes}, axis {sa}, index {si}: not the plane {idx}", rep)
                ck.expect(w.intact(), "input-changed", f"{rep}", rep)
                ck.visit((sizes, nt, idx if False else tuple(sorted(fix.items())), r is None))
                ck.trace()


# ------------------------------------------------------------------ reading figures back
class Drawn:
    """What a figure showed at the moment it was saved."""

    def __init__(self, fig):
        import matplotlib.collections as mc
        self.axes = []
        for ax in fig.axes:
            if not ax.get_visible():
                continue
            d = {"title": ax.get_title(), "x": ax.get_xlabel(), "y": ax.get_ylabel(),
                 "lines": [(np.array(l.get_xdata(), float), np.array(l.get_ydata(), float),
                            str(l.get_label())) for l in ax.get_lines()],
                 "mesh": [], "dots": [], "image": [arr(im.get_array()).copy() for im in ax.images],
                 "bars": [(q.get_x(), q.get_width(), q.get_height()) for q in ax.patches
                          if hasattr(q, "get_width")],
                 "legend": [t.get_text() for t in ax.get_legend().get_texts()] if ax.get_legend() else []}
            for c in ax.collections:
                if isinstance(c, mc.QuadMesh):
                    xy = np.array(c.get_coordinates(), float)
                    z = np.ma.getdata(c.get_array())
                    z = np.array(z, float)
                    if z.ndim == 1:
                        shape = (xy.shape[0] - 1, xy.shape[1] - 1)
                        z = z.reshape(shape if z.size == shape[0] * shape[1] else xy.shape[:2])
                    if z.shape != xy.shape[:2]:          # cell edges: centres of the cells
                        xy = 0.25 * (xy[1:, 1:] + xy[:-1, 1:] + xy[1:, :-1] + xy[:-1, :-1])
                    d["mesh"].append((xy[0, :, 0], xy[:, 0, 1], z))
                elif isinstance(c, mc.PathCollection):
                    z = c.get_array()
                    d["dots"].append((np.array(c.get_offsets(), float),
                                      None if z is None else np.array(z, float)))
            # colour bars hold a mesh of their own scale
            d["bar"] = "colorbar" in (ax.get_label() or "") or hasattr(ax, "_colorbar")
            self.axes.append(d)
        self.title = fig._suptitle.get_text() if fig._suptitle is not None else ""

    def all(self, what):
        return [x for a in self.axes if not a["bar"] for x in a[what]]


class Studio:
    """Registers one adapter, answers requests in a scratch directory, keeps what was drawn."""

    def __init__(self, which):
        self.which = which

    def __enter__(self):
        import matplotlib
        matplotlib.use("Agg")
        import matplotlib.figure
        import kd.viz as viz
        from kd.viz import _adapters as A
        from checks.c24 import Bare
        self.viz, self.fig = viz, matplotlib.figure.Figure
        self.real = self.fig.savefig
        self.root = pathlib.Path(tempfile.mkdtemp(prefix="c25"))
        self.cwd = os.getcwd()
        os.chdir(self.root)
        self.drawn = []

        def save(fig, fname, **kw):
            self.drawn.append(Drawn(fig))
            pathlib.Path(fname).write_bytes(b"x")

        self.fig.savefig = save
        self.layout = self.fig.tight_layout
        self.fig.tight_layout = lambda fig, *a, **k: None     # arranges the page, not the numbers
        viz.clear_registry()
        viz.register_adapter(Bare, {"dlga": A.DLGAVizAdapter, "discover": A.DiscoverVizAdapter,
                                    "sga": A.SGAVizAdapter, "pysr": A.PySRVizAdapter}[self.which]())
        return self

    def ask(self, model, kind, **opts):
        import matplotlib.pyplot as plt
        self.drawn = []
        try:
            with quiet():
                return self.viz.render(self.viz.VizRequest(
                    kind, model, dict(opts, output_dir=str(self.root))))
        finally:
            plt.close("all")

    def __exit__(self, *a):
        self.viz.clear_registry()
        self.fig.savefig, self.fig.tight_layout = self.real, self.layout
        os.chdir(self.cwd)
        shutil.rmtree(self.root, ignore_errors=True)


def has_line(drawn, x, y, tol=1e-12):
    return any(same(a, arr(x).reshape(-1), tol) and same(b, arr(y).reshape(-1), tol)
               for a, b, _ in drawn.all("lines"))


def bars_of(ax, values):
    """The bars of this axis are a histogram of these values."""
    if not ax["bars"]:
        return True
    edges = [b[0] for b in ax["bars"]] + [ax["bars"][-1][0] + ax["bars"][-1][1]]
    v = arr(values).reshape(-1).astype(float)
    heights = [b[2] for b in ax["bars"]]
    lo, hi = v.min(), v.max()
    tol = 1e-9 * max(hi - lo, 0.0) + 1e-12 * max(1.0, abs(lo), abs(hi))
    if hi > lo and (abs(edges[0] - lo) > 1e-6 * (hi - lo) + tol or abs(edges[-1] - hi) > 1e-6 * (hi - lo) + tol):
        return False
    total = float(np.sum(heights))
    if abs(total - v.size) > 1e-9 * v.size:            # a density
        area = arr(heights) * np.diff(edges)
        if abs(float(area.sum()) - 1.0) > 1e-6:
            return False
        heights = area * v.size
    upto = np.cumsum(heights)
    # a value on an inner edge may fall on either side of it
    below = arr([np.sum(v < e - tol) for e in edges[1:]])
    within = arr([np.sum(v <= e + tol) for e in edges[1:]])
    return bool(np.all(upto >= below - 1e-6) and np.all(upto <= within + 1e-6))


def meshes_ok(ck, drawn, true, pred, coords_x, coords_y, times, key, rep, mode):
    """Every heat map shows the field its title names, at the points its axes carry.

    mode 'xt': one map per field over (space, time); mode 'xy': one map per field and time.
    """
    seen = {"true": 0, "pred": 0}
    for ax in drawn.axes:
        if ax["bar"] or not ax["mesh"]:
            continue
        title = ax["title"].lower()
        # SGA calls the smoothed field 'metadata' and shows it as the prediction
        which = "pred" if ("predict" in title or "metadata" in title) else (
            "true" if ("true" in title or "original" in title or "exact" in title) else None)
        for mx, my, z in ax["mesh"]:
            if which is None:
                continue
            seen[which] += 1
            f = true if which == "true" else pred
            if mode == "xt":
                good = same(z, f, 1e-12) and same(mx, times, 1e-9) and same(my, coords_x, 1e-9)
            else:
                m = re.search(r"t\s*[=~≈]\s*(-?[0-9.]+)", ax["title"])
                ks = range(len(times)) if m is None else [
                    k for k, tv in enumerate(times) if abs(float(m.group(1)) - tv) < 0.00501]
                good = any(same(z, f[..., k], 1e-12) for k in ks) and same(mx, coords_y, 1e-9) \
                    and same(my, coords_x, 1e-9)
            ck.expect(good, f"{key}-drawn-{which}",
                      lambda: f"the map titled {ax['title']!r} does not show that field at those points",
                      rep)
    ck.expect(seen["true"] == seen["pred"] and seen["true"] > 0, f"{key}-drawn-pairs",
              lambda: f"maps drawn: {seen}", rep)


def dots_ok(drawn, actual, pred):
    actual, pred = arr(actual).reshape(-1).astype(float), arr(pred).reshape(-1).astype(float)
    for ax in drawn.axes:
        for xy, _ in ax["dots"]:
            actual_first = bool(re.search("actual|target|true", ax["x"].lower()))
            want = np.stack([actual, pred] if actual_first else [pred, actual], 1)
            if not same(xy, want, 1e-12):
                return False
    return True


def stats(r):
    r = arr(r).reshape(-1).astype(float)
    return {"mean": r.mean(), "std": r.std(), "max_abs": np.abs(r).max(), "count": r.size,
            "mean_residual": r.mean(), "max_abs_residual": np.abs(r).max(),
            "rmse": np.sqrt(np.mean(r * r)), "residual_mean": r.mean(), "residual_std": r.std()}


def summary_ok(given, r):
    s = stats(r)
    return all(np.isclose(float(v), s[k], rtol=1e-9, atol=1e-12) for k, v in given.items() if k in s)


def coverage(ck, key):
    ck.visit(key)
    ck.step()
    ck.trace()


# ------------------------------------------------------------------ DLGA
def dlga_part(ck, item):
    from checks.c24 import Bare
    what = item[0]
    with Studio("dlga") as st:
        if what == "history":
            keysets = [("fitness",), ("objective",), ("fitness", "complexity"),
                       ("fitness", "complexity", "population_size", "unique_modules"), ("complexity",)]
            vals = (0.5, -1.0, 2.0)
            for n in (0, 1, 2, 3):
                for objs in itertools.product(vals, repeat=n):
                    for keys in itertools.product(keysets, repeat=min(n, 2)):
                        ks = [keys[min(i, len(keys) - 1)] for i in range(n)]
                        m = Bare()
                        m.evolution_history = [
                            {k: (objs[i] if k in ("fitness", "objective") else i * 2 + len(k)) for k in kk}
                            for i, kk in enumerate(ks)]
                        m.train_loss_history = list(objs)
                        m.val_loss_history = [o + 1 for o in objs]
                        rep = ["history", objs, ks]
                        w = Watch(m)
                        with ck.case("history", replay=rep):
                            res = st.ask(m, "optimization")
                            known = n and all("fitness" in k or "objective" in k for k in ks)
                            ck.expect(bool(res.has_content) == bool(known), "optimization-answer",
                                      f"{rep}: {res}", rep)
                            if known and res.has_content:
                                d, s = res.metadata["optimization"], res.metadata["summary"]
                                good = same(d.objective, objs) and arr(d.steps).shape == (n,)
                                for attr in ("complexity", "population_size", "unique_modules"):
                                    want = [e.get(attr) for e in m.evolution_history]
                                    got = getattr(d, attr)
                                    good = good and ((got is None) if None in want else same(got, want))
                                ck.expect(good and s["initial_objective"] == objs[0]
                                          and s["final_objective"] == objs[-1]
                                          and s["best_objective"] == min(objs), "optimization-values",
                                          f"{rep}: {d} {s}", rep)
                                ck.expect(has_line(st.drawn[-1], d.steps, objs), "optimization-drawn",
                                          f"{rep}", rep)
                            for kind, attr in (("training_curve", "train_loss_history"),
                                               ("validation_curve", "val_loss_history")):
                                res = st.ask(m, kind)
                                ck.step()
                                ck.expect(bool(res.has_content) == bool(n), f"{kind}-answer", f"{rep}", rep)
                                if n:
                                    h = getattr(m, attr)
                                    ck.expect(res.metadata.get("points") == n
                                              and any(same(y, h) for _, y, _ in st.drawn[-1].all("lines")),
                                              f"{kind}-drawn", f"{rep}", rep)
                            ck.expect(w.intact(), "history-model-changed", f"{rep}", rep)
                            coverage(ck, rep)
        elif what == "terms":
            part, of = item[1:]
            ops = ["u", "u_x", "u_xx"]
            base = np.linspace(0.5, 2.0, 6)
            meta = {"u_t": base * 3 - 1, "u": base, "u_x": base ** 2 - 1, "u_xx": 0.5 - base}
            genes = [[], [0], [1], [0, 0], [0, 1], [2, 1], [0, 1, 2], [3]]
            coefs = (0.5, -2.0, 0.0, 3.0)
            layouts = ["col", "flat", "list"]
            for n in (1, 2, 3):
                chroms = list(itertools.product(genes[:5] if n == 3 else genes, repeat=n))
                if n == 3 and not ck.thorough:
                    chroms = [c for c in chroms if [] not in c]
                for ci, chrom in enumerate(chroms):
                    if ci % of != part:
                        continue
                    cs = [coefs[(ci + k * (1 + ci // 4)) % 4] for k in range(n)]
                    for layout, missing, short in itertools.product(layouts, (None, "u_x"), (0, 1)):
                        if (missing or short) and layout != "col":
                            continue
                        if not ck.thorough and n == 3 and (missing or short or layout != "col"):
                            continue
                        if not ck.thorough and layout != "col" and ci % 3:
                            continue
                        m = Bare()
                        cv = np.array(cs[:n - short] if short else cs, float)
                        if cv.size == 0:
                            continue
                        m.Chrom = [[list(g) for g in chrom], [[0]]]
                        m.coef = [cv.reshape(-1, 1) if layout == "col" else cv if layout == "flat"
                                  else cv.tolist(), np.array([[9.0]])]
                        m.name = ["u_t", "u_tt"]
                        m.user_operators = list(ops)
                        m.metadata = {k: v.reshape(2, 3) for k, v in meta.items() if k != missing}
                        rep = ["terms", chrom, cs, layout, missing, short]
                        used = []
                        for g, c in zip(chrom, cv.tolist()):
                            if any(k >= len(ops) for k in g) or any(ops[k] == missing for k in g):
                                continue
                            v = np.ones(6)
                            for k in g:
                                v = v * meta[ops[k]]
                            used.append((g, c, v))
                        w = Watch(m)
                        with ck.case("terms", replay=rep):
                            for top in (None, 1, 2):
                                res = st.ask(m, "derivative_relationships",
                                             **({} if top is None else {"top_n_terms": top}))
                                ck.expect(bool(res.has_content) == bool(used), "terms-answer",
                                          f"{rep}: {res}", rep)
                                if not used or not res.has_content:
                                    continue
                                d = res.metadata["term_relationships"]
                                order = sorted(used, key=lambda u: -abs(u[1]))
                                limit = min(len(used), top or 4)
                                good = (same(d.lhs_values, meta["u_t"]) and d.lhs_label == "u_t"
                                        and d.metadata.get("total_terms") == len(used)
                                        and len(d.terms) == limit
                                        and [abs(t.coefficient) for t in d.terms]
                                        == [abs(u[1]) for u in order[:limit]])
                                pool = list(used)
                                for t in d.terms:
                                    hit = [u for u in pool if u[1] == t.coefficient
                                           and same(t.values, u[2], 1e-12)
                                           and sorted(t.label.split(" * ")) == sorted([ops[k] for k in u[0]] or ["1"])]
                                    good = good and bool(hit)
                                    if hit:
                                        pool.remove(hit[0])
                                ck.expect(good, "terms-values", lambda: f"{rep}: {d}", rep)
                                dots = st.drawn[-1].all("dots")
                                ck.expect(len(dots) == len(d.terms) and all(
                                    same(xy, np.stack([t.values, d.lhs_values], 1), 1e-12)
                                    for (xy, _), t in zip(dots, d.terms)), "terms-drawn", f"{rep}", rep)
                            res = st.ask(m, "parity")
                            rhs = sum((c * v for _, c, v in used), np.zeros(6))
                            d = res.metadata["parity"]
                            ck.expect(same(d.actual_values, meta["u_t"])
                                      and same(d.predicted_values, rhs, 1e-12)
                                      and same(d.residuals, meta["u_t"] - rhs, 1e-12)
                                      and summary_ok(res.metadata["summary"], meta["u_t"] - rhs),
                                      "parity-values", lambda: f"{rep}: {d}", rep)
                            ck.expect(dots_ok(st.drawn[-1], meta["u_t"], rhs), "parity-drawn",
                                      f"{rep}", rep)
                            ck.expect(w.intact(), "terms-model-changed", f"{rep}", rep)
                            coverage(ck, rep)
        elif what == "equations":
            for names in itertools.product(("u_t", "u_tt"), repeat=3):
                m = Bare()
                m.Chrom, m.coef, m.name = [[[0]], [[1]], [[0], [1]]], [np.array([[2.5]]), np.array([[-3.25]]), np.array([[4.5], [7.75]])], list(names)
                m.user_operators = ["u", "u_x"]
                text = lambda s: s.replace("{", "").replace("}", "").replace("$", "").replace(" ", "").replace("\\", "")
                for ask, index in (({}, 0), ({"solution_index": None}, 0), ({"solution_index": 0}, 0), ({"solution_index": 1}, 1),
                                   ({"solution_index": 2}, 2), ({"solution_index": 3}, None), ({"solution_index": 9}, None)):
                    rep = ["equation", names, ask]
                    w = Watch(m)
                    with ck.case("equation", replay=rep):
                        res = st.ask(m, "equation", **ask)
                        ck.expect(bool(res.has_content) == (index is not None), "equation-answer", f"{rep}: {res}", rep)
                        if index is not None and res.has_content:
                            lhs, _, rhs = text(str(res.metadata.get("latex"))).partition("=")
                            nums = [t for t in ("2.5", "3.25", "4.5", "7.75") if t in rhs]
                            want = [["2.5"], ["3.25"], ["4.5", "7.75"]][index]
                            ck.expect(lhs == names[index].replace("_", "_") and nums == want, "equation-shown",
                                      f"{rep}: {res.metadata.get('latex')}", rep)
                        ck.expect(w.intact(), "equation-model-changed", f"{rep}", rep)
                        coverage(ck, rep)
        elif what == "fields":
            for nx, nt in [item[1:]]:
                for desc, form in itertools.product((0, 1), ("array", "list")):
                    x, t = np.linspace(0, 1, nx), np.linspace(0.0, 0.9, nt)
                    if desc:
                        t = t[::-1].copy()
                    f = np.outer(x + 1, t + 2) + x[:, None] ** 2
                    p = f * 0.9 + 0.1 * t
                    conv = (lambda v: v) if form == "array" else (lambda v: v.tolist())
                    give = {"x_coords": conv(x), "t_coords": conv(t), "true_field": conv(f),
                            "predicted_field": conv(p)}
                    for resid in (None, f * 0 + 0.25):
                        rep = ["field", nx, nt, desc, form, resid is not None]
                        o = dict(give)
                        if resid is not None:
                            o["residual_field"] = resid
                        w = Watch(o)
                        with ck.case("field", replay=rep):
                            res = st.ask(Bare(), "field_comparison", **o)
                            d = res.metadata["field_comparison"]
                            ck.expect(same(d.x_coords, x) and same(d.t_coords, t) and same(d.true_field, f)
                                      and same(d.predicted_field, p)
                                      and same(d.residual_field, f - p if resid is None else resid, 1e-12),
                                      "field-values", f"{rep}: {d}", rep)
                            meshes_ok(ck, st.drawn[-1], f, p, x, None, t, "field", rep, "xt")
                            ck.expect(w.intact(), "field-inputs-changed", f"{rep}", rep)
                            coverage(ck, rep)
                    asks = [{}, {"num_slices": 1}, {"num_slices": 2}, {"num_slices": 9}] + [
                        {"slice_times": list(c)} for k in (1, 2) for c in itertools.product(
                            (0.0, 0.9, 0.31, 0.55, 1.4, -0.2, float("nan")), repeat=k)]
                    for a in asks:
                        rep = ["times", nx, nt, desc, form, a]
                        w = Watch(give)
                        want = a.get("slice_times")
                        bad = want is not None and not all(0.0 <= v <= 0.9 for v in want)
                        with ck.case("times", replay=rep):
                            try:
                                res = st.ask(Bare(), "time_slices", **give, **a)
                            except ValueError:
                                ck.expect(bad, "times-refuses", f"{rep}", rep)
                                coverage(ck, rep)
                                continue
                            ck.expect(bad != bool(res.has_content), "times-accepts", f"{rep}: {res}", rep)
                            if bad or not res.has_content:
                                continue
                            d = res.metadata["time_slices"]
                            if want is None:
                                k = min(a.get("num_slices", 3), nt)
                                want = np.linspace(t.min(), t.max(), k)
                            idx = d.metadata["slice_indices"]
                            near = [np.isclose(abs(t[i] - v), np.abs(t - v).min()) for i, v in zip(idx, want)]
                            ck.expect(same(d.slice_times, want, 1e-12) and len(idx) == len(want) and all(near)
                                      and same(d.true_field, f) and same(d.predicted_field, p)
                                      and same(d.x_coords, x) and same(d.t_coords, t),
                                      "times-values", f"{rep}: {d}", rep)
                            lines = st.drawn[-1].all("lines")
                            ck.expect(len(lines) == 2 * len(idx) and all(
                                has_line(st.drawn[-1], x, f[:, i]) and has_line(st.drawn[-1], x, p[:, i])
                                for i in idx), "times-drawn", f"{rep}", rep)
                            ck.expect(w.intact(), "times-inputs-changed", f"{rep}", rep)
                            coverage(ck, rep)
        elif what == "residual":
            for names in (("actual", "predicted"), ("actual_values", "predicted_values")):
                for shape, given, coords, kind in itertools.product(
                        [(1,), (4,), (2, 3), (3, 1)], (0, 1), (None, "flat", "table", "short"),
                        ("f", "u1", "list", "i1")):
                    a, p = filled(shape, 0, kind), filled(shape, 1, kind)
                    o = {names[0]: a, names[1]: p}
                    r = minus(a, p)
                    if given:
                        r = filled(shape, 2, "f")
                        o["residuals"] = r
                    if coords:
                        k = shape[0] + (coords == "short")
                        o["coordinates"] = filled((k,) if coords != "table" else (k, 2), 3, "f")
                    # dots are coloured by the first coordinate: needs one per sample
                    drawable = coords is None or len(shape) == 1 or shape[1] == 1
                    rep = ["residual", names, shape, given, coords, kind]
                    w = Watch(o)
                    with ck.case("residual", replay=rep):
                        try:
                            res = st.ask(Bare(), "residual", **o)
                        except ValueError:
                            ck.expect(coords == "short" or not drawable, "residual-refuses", f"{rep}", rep)
                            coverage(ck, rep)
                            continue
                        ck.expect((coords != "short") == bool(res.has_content), "residual-accepts",
                                  f"{rep}: {res}", rep)
                        if not res.has_content:
                            continue
                        d = res.metadata["residual"]
                        ck.expect(same(d.actual, a) and same(d.predicted, p) and same(d.residuals, r, 1e-12)
                                  and summary_ok(res.metadata["summary"], r)
                                  and (coords is None or same(d.input_coordinates, o["coordinates"])),
                                  "residual-values", f"{rep}: {d} {res.metadata['summary']}", rep)
                        ck.expect(dots_ok(st.drawn[-1], a, p)
                                  and all(bars_of(ax, r) for ax in st.drawn[-1].axes),
                                  "residual-drawn", f"{rep}", rep)
                        if coords:
                            col = arr(o["coordinates"])
                            col = col[:, 0] if col.ndim > 1 else col
                            ck.expect(all(z is None or same(z, col) for _, z in st.drawn[-1].all("dots")),
                                      "residual-colours", f"{rep}", rep)
                        ck.expect(w.intact(), "residual-inputs-changed", f"{rep}", rep)
                        coverage(ck, rep)


# ------------------------------------------------------------------ PySR
def pysr_part(ck, item):
    from checks.c24 import Bare
    with Studio("pysr") as st:
        for n, cols, yform, pform, source in itertools.product(
                item[:1], item[1:], ("flat", "col", "list", "f32", "u1"), ("flat", "col", "list"),
                ("model", "options", "half", "both")):
            X = np.linspace(0.2, 1.0, n * cols).reshape(n, cols)
            y = (X.sum(1) * 10).round() if yform == "u1" else X.sum(1) * 2 - 0.7
            yy = {"flat": y, "col": y.reshape(-1, 1), "list": y.tolist(), "f32": y.astype(np.float32),
                  "u1": y.astype(np.uint8)}[yform]
            m = Bare()
            calls = []

            def predict(Z, calls=calls, pform=pform, u=yform == "u1"):
                calls.append(np.array(Z, float))
                v = np.asarray(Z, float)[:, 0] * 3 + 0.5
                if u:
                    v = (v + 5).astype(np.uint8)
                return v.reshape(-1, 1) if pform == "col" else v.tolist() if pform == "list" else v

            m.predict = predict
            o = {}
            X2, y2 = X * 2 + 1, yy
            if source in ("model", "both", "half"):
                m.X_train_, m.y_train_ = X, yy
            if source in ("options", "both"):
                o = {"X": X2, "y": y2}
            if source == "half":
                o = {"X": X2}
            use = X2 if source in ("options", "both") else X
            pred = arr(predict(use)).reshape(-1).astype(float)
            calls.clear()
            act = arr(yy).reshape(-1).astype(float)
            rep = ["pysr", n, cols, yform, pform, source]
            w = Watch(X, yy, X2)
            for kind in ("residual", "parity"):
                with ck.case(kind, replay=rep):
                    res = st.ask(m, kind, **o)
                    ck.expect(res.has_content and all(same(c, use) for c in calls), f"{kind}-answer",
                              f"{rep}: {res}", rep)
                    if not res.has_content:
                        continue
                    fig = st.drawn[-1]
                    if kind == "residual":
                        ck.expect(summary_ok(res.metadata, act - pred)
                                  and all(bars_of(ax, act - pred) for ax in fig.axes), "residual-values",
                                  f"{rep}: {res.metadata}, residuals {act - pred}", rep)
                    else:
                        ck.expect(dots_ok(fig, act, pred), "parity-drawn", f"{rep}", rep)
                    ck.expect(w.intact(), "inputs-changed", f"{rep}", rep)
                    coverage(ck, rep + [kind])
        # a training set whose two halves disagree is refused
        m = Bare()
        m.X_train_, m.y_train_, m.predict = np.ones((3, 1)), np.ones(4), lambda X: np.ones(len(X))
        for kind in ("residual", "parity"):
            with ck.case(kind + "-mismatch"):
                res = st.ask(m, kind)
                ck.expect(res.warnings and not res.has_content, f"{kind}-mismatch", f"{res}")
                coverage(ck, kind)


# ------------------------------------------------------------------ SGA
def sga_context(order, sizes, lhs, grid, nd, down=()):
    from checks.c24 import Bare
    c = Bare()
    coords = {}
    for i, a in enumerate(order):
        v = np.linspace(0.1 * (i + 1), 0.1 * (i + 1) + 0.07 * (sizes[a] - 1), sizes[a])
        coords[a] = v[::-1].copy() if a in down else v
    mesh = np.meshgrid(*[coords[a] for a in order], indexing="ij")
    f = sum((i + 1.3) * g for i, g in enumerate(mesh)) + np.prod(mesh, 0)
    c.u = f
    c.u_origin = f + 0.05 * mesh[0] ** 2
    c.ut, c.ut_origin = 0.5 * f - mesh[-1], 0.5 * f + 0.25 * mesh[0]
    c.right_side_full, c.right_side_full_origin = c.ut + 0.02 * mesh[0] - 0.3, c.ut_origin - 0.01 * f
    if nd:
        c.axis_order, c.coords_1d, c.lhs_axis = list(order), coords, lhs
    else:
        c.x, c.t = ((mesh[0], mesh[1]) if grid == "mesh" else (coords[order[0]], coords[order[1]])
                    if grid == "1d" else (None, None))
        if grid == "none":
            coords = {a: np.linspace(0, 1, sizes[a]) for a in order}
    return c, coords


def sga_part(ck, item):
    from checks.c24 import Bare
    order, sizes, lhs, grid, nd, down = item
    with Studio("sga") as st:
        c, coords = sga_context(order, sizes, lhs, grid, nd, down)
        m = Bare()
        m.context_ = c
        space = [a for a in order if a != lhs] if nd else [order[0]]
        tax = lhs if nd else order[1]
        perm = [order.index(a) for a in space] + [order.index(tax)]
        true, pred = np.transpose(c.u_origin, perm), np.transpose(c.u, perm)
        sp, tt = [coords[a] for a in space], coords[tax]
        w = Watch(m)
        rep0 = ["sga", order, sizes, lhs, grid, nd, down]
        n = len(space)

        def plane(axis, index):
            """The 2-D picture of a field with three or more spatial axes."""
            left, fix, first = list(range(n)), {}, True
            while len(left) > 2:
                a = axis if first else -1
                a = min(max(a + len(left) if a < 0 else a, 0), len(left) - 1)
                size = len(sp[left[a]])
                k = index if first else None
                fix[left[a]] = size // 2 if k is None else min(max(k, 0), size - 1)
                del left[a]
                first = False
            return tuple(fix.get(i, slice(None)) for i in range(n)), left

        cuts = [{}] if n < 3 else [{}] + [{"slice_axis": a, "slice_index": i}
                                          for a in range(-1, n) for i in (None, 0, 1, 9)]
        for cut in cuts:
            rep = rep0 + [cut]
            idx, left = plane(cut.get("slice_axis", -1), cut.get("slice_index"))
            with ck.case("field", replay=rep):
                res = st.ask(m, "field_comparison", **cut)
                ck.expect(res.has_content, "field-answer", f"{rep}: {res}", rep)
                if not res.has_content:
                    continue
                d, s = res.metadata["field_comparison_data"], res.metadata["summary"]
                ck.expect(len(d.spatial_coords) == n and all(same(arr(a).reshape(-1), b) for a, b in
                                                            zip(d.spatial_coords, sp))
                          and same(arr(d.t_coords).reshape(-1), tt) and same(d.true_field, true)
                          and same(d.predicted_field, pred) and same(d.residual_field, true - pred, 1e-12)
                          and np.isclose(s["vmin"], min(true.min(), pred.min()))
                          and np.isclose(s["vmax"], max(true.max(), pred.max()))
                          and tuple(s["predicted_shape"]) == pred.shape
                          and tuple(s["original_shape"]) == true.shape,
                          "field-values", lambda: f"{rep}: {d} {s}", rep)
                if n == 1:
                    meshes_ok(ck, st.drawn[-1], true, pred, sp[0], None, tt, "field", rep, "xt")
                else:
                    meshes_ok(ck, st.drawn[-1], true[idx], pred[idx], sp[left[0]], sp[left[1]], tt,
                              "field", rep, "xy")
                coverage(ck, rep + ["field"])
        lo, hi = float(tt.min()), float(tt.max())
        mid = lo + 0.37 * (hi - lo)
        asks = [{}, {"slice_count": 1}, {"slice_count": 2}, {"slice_count": 7}, {"slice_times": []}]
        asks += [{"slice_times": list(q)} for k in (1, 2) for q in
                 itertools.product((lo, hi, mid, lo - 1, hi + 1), repeat=k)]
        for a in asks:
            rep = rep0 + [a]
            idx, left = plane(-1, None)
            with ck.case("times", replay=rep):
                res = st.ask(m, "time_slices", **a)
                ck.expect(res.has_content, "times-answer", f"{rep}: {res}", rep)
                if not res.has_content:
                    continue
                d, s = res.metadata["time_slices_data"], res.metadata["time_slices_summary"]
                if a.get("slice_times"):
                    asked = a["slice_times"]
                elif "slice_times" in a:
                    asked = list(tt)
                else:
                    asked = list(np.linspace(lo, hi, a.get("slice_count", 3)))
                wanted = sorted(set(float(np.clip(v, lo, hi)) for v in asked))
                got = list(map(float, s["actual_slice_times"]))
                near = len(got) == len(wanted) and all(
                    any(g == float(x) for x in tt) and np.isclose(abs(g - v), np.abs(tt - v).min())
                    for g, v in zip(got, wanted))
                ck.expect(near and same(s["requested_slice_times"], asked, 1e-12)
                          and same(d.slice_times, got) and same(d.true_field, true)
                          and same(d.predicted_field, pred) and same(arr(d.t_coords).reshape(-1), tt)
                          and len(d.spatial_coords) == n and all(same(arr(p).reshape(-1), q) for p, q in
                                                                zip(d.spatial_coords, sp)),
                          "times-values", lambda: f"{rep}: wanted {wanted}, got {got}; {d}", rep)
                ks = [int(np.argmin(np.abs(tt - g))) for g in got]
                if n == 1:
                    ck.expect(all(has_line(st.drawn[-1], sp[0], true[:, k]) and
                                  has_line(st.drawn[-1], sp[0], pred[:, k]) for k in ks)
                              and len(st.drawn[-1].all("lines")) == 2 * len(ks), "times-drawn", f"{rep}", rep)
                else:
                    meshes_ok(ck, st.drawn[-1], true[idx], pred[idx], sp[left[0]], sp[left[1]], tt,
                              "times", rep, "xy")
                coverage(ck, rep + ["times"])
        # residuals: the metadata and the original right-hand side, each with its own left-hand side
        with ck.case("residual", replay=rep0):
            res = st.ask(m, "residual")
            d, s = res.metadata["residual_data"], res.metadata["summary"]
            rm, ro = c.ut - c.right_side_full, c.ut_origin - c.right_side_full_origin
            ck.expect(summary_ok(s["metadata"], rm) and summary_ok(s["original"], ro)
                      and same(d.residuals, minus(d.actual, d.predicted), 1e-12)
                      and same(np.sort(d.actual), np.sort(c.ut_origin.reshape(-1)))
                      and same(np.sort(d.predicted), np.sort(c.right_side_full.reshape(-1))),
                      "residual-values", lambda: f"{rep0}: {s}", rep0)
            for ax in st.drawn[-1].axes:
                if ax["bars"]:
                    v = np.transpose(ro if "origin" in ax["title"].lower() else rm, perm)
                    cut = v
                    while cut.ndim > 3:      # with three spatial axes the picture is of a slice, and says so
                        cut = np.take(cut, cut.shape[-2] // 2, axis=cut.ndim - 2)
                    ck.expect(bars_of(ax, v) or (cut.ndim < v.ndim and bool(res.warnings) and bars_of(ax, cut)),
                              "residual-drawn-histogram", f"{rep0}: {ax['title']}", rep0)
                for im in ax["image"]:
                    v = np.transpose(ro if "origin" in ax["title"].lower() else rm, perm)
                    while v.ndim > 3:
                        v = np.take(v, v.shape[-2] // 2, axis=v.ndim - 2)
                    if v.ndim == 3:
                        k = re.search(r"t_idx\s*=\s*(\d+)", ax["title"])
                        v = v[..., int(k.group(1)) if k else v.shape[-1] // 2]
                    ck.expect(same(im, v, 1e-12), "residual-drawn-map", f"{rep0}: {ax['title']}", rep0)
            coverage(ck, rep0 + ["residual"])
        # parity of the stored right-hand side
        from kd.model.sga.sgapde.equation import SGAEquationDetails, SGAEquationTerm
        rhs = 0.9 * c.ut + 0.2
        for form, mode in itertools.product(("same", "flat", "column", "F"), (None, "metadata", "original")):
            given = {"same": rhs, "flat": rhs.reshape(-1), "column": rhs.reshape(-1, 1),
                     "F": np.asfortranarray(rhs)}[form]
            m.best_equation_details_ = SGAEquationDetails(
                lhs="u_t", terms=[SGAEquationTerm(label="u", source="default", coefficient=1.0, tree=None)],
                predicted_rhs=given)
            rep = rep0 + [form, mode]
            with ck.case("parity", replay=rep):
                res = st.ask(m, "parity", **({} if mode is None else {"compare": mode}))
                act = c.ut_origin if mode == "original" else c.ut
                d = res.metadata["parity"]
                ck.expect(same(d.actual_values, act.reshape(-1)) and same(d.predicted_values, rhs.reshape(-1))
                          and same(d.residuals, (act - rhs).reshape(-1), 1e-12)
                          and res.metadata["summary"]["mode"] == (mode or "metadata")
                          and d.metadata.get("mode") == (mode or "metadata")
                          and summary_ok(res.metadata["summary"], act - rhs),
                          "parity-values", lambda: f"{rep}: {d} {res.metadata['summary']}", rep)
                ck.expect(dots_ok(st.drawn[-1], act, rhs), "parity-drawn", f"{rep}", rep)
                coverage(ck, rep)
        m.best_equation_details_ = None
        del m.best_equation_details_
        ck.expect(w.intact(), "model-changed", f"{rep0}", rep0)


def sga_items(deep):
    out = []
    for nx, nt in itertools.product((2, 3, 4, 6), (2, 3, 4)):
        for grid in ("mesh", "1d", "none"):
            out.append(("xt", {"x": nx, "t": nt}, "t", grid, False, ()))
    for order in ("xt", "tx"):
        for nx, nt in ((3, 4), (3, 3), (4, 3)):
            for down in ((), ("x",), ("t",)):
                out.append((order, {"x": nx, "t": nt}, "t", None, True, down))
    out.append(("xt", {"x": 3, "t": 4}, "x", None, True, ()))
    for order in map("".join, itertools.permutations("xyt")):
        for sizes in ({"x": 3, "y": 2, "t": 4}, {"x": 3, "y": 3, "t": 3}):
            out.append((order, sizes, "t", None, True, ()))
    out.append(("xyt", {"x": 3, "y": 2, "t": 4}, "y", None, True, ()))
    out.append(("xyt", {"x": 3, "y": 2, "t": 4}, "t", None, True, ("y",)))
    orders = list(map("".join, itertools.permutations("xyzt")))
    for order in (orders if deep else ("xyzt", "txyz", "zxty", "yztx")):
        out.append((order, {"x": 3, "y": 2, "z": 4, "t": 3}, "t", None, True, ()))
    out.append(("xyzt", {"x": 3, "y": 3, "z": 3, "t": 3}, "t", None, True, ()))
    if deep:
        out.append(("xyzwt", {"x": 2, "y": 3, "z": 2, "w": 4, "t": 3}, "t", None, True, ()))
    return out


# ------------------------------------------------------------------ DISCOVER
class Tree:
    """A term of the library, evaluated by polynomial algebra (no finite differences)."""


def discover_terms(n_space, deep):
    """Terms whose derivatives are exact for any second-order scheme on a product of linear factors."""
    u = ("u1",)
    if n_space == 1:
        coords = [("x1",)]
        der = [("diff", u, coords[0]), ("diff2", u, coords[0]), ("diff", ("n2", u), coords[0]),
               ("diff2", ("n2", u), coords[0]), ("diff", ("mul", u, coords[0]), coords[0])]
    else:
        coords = [(f"x{i + 1}",) for i in range(n_space)]
        der = []
        for c in coords:
            der += [("Diff", u, c), ("Diff2", u, c), ("Diff2", ("n2", u), c), ("Diff", ("mul", u, c), c),
                    ("Diff", ("n2", u), c)]
        der += [("lap", ("n2", u)), ("Diff", ("Diff", ("n2", u), coords[0]), coords[1]),
                ("Diff", ("mul", u, coords[1]), coords[0])]
    flat = [u, ("n2", u), ("n3", u), ("sub", u, coords[0]), ("mul", u, coords[-1]),
            ("div", u, ("add", ("n2", coords[0]), ("add", u, u)))]
    out = flat + der + [("mul", u, d) for d in der] + [("add", d, u) for d in der[:3]]
    if deep:
        out += [("sub", a, b) for a in der for b in der] + [("mul", a, b) for a in der for b in der]
    return out


def sympy_of(t, syms):
    import sympy as sp
    op = t[0]
    if len(t) == 1:
        return syms[op] if op in syms else sp.Float(op)
    a = [sympy_of(x, syms) for x in t[1:]]
    if op in ("diff", "Diff"):
        return sp.diff(a[0], a[1])
    if op in ("diff2", "Diff2"):
        return sp.diff(a[0], a[1], 2)
    if op == "lap":
        return sum(sp.diff(a[0], syms[s], 2) for s in syms if s.startswith("x"))
    return {"n2": lambda: a[0] ** 2, "n3": lambda: a[0] ** 3, "add": lambda: a[0] + a[1],
            "sub": lambda: a[0] - a[1], "mul": lambda: a[0] * a[1], "div": lambda: a[0] / a[1]}[op]()


def node_of(t):
    from kd.model.discover.stridge import Node
    n = Node(t[0])
    for c in t[1:]:
        n.children.append(node_of(c))
    return n


def discover_part(ck, item):
    kind = item[0]
    from checks.c24 import Bare
    if kind == "rewards":
        return rewards(ck)
    _, order, sizes, down, k, of = item
    import sympy as sp
    from kd.dataset import PDEDataset
    from kd.model.discover.adapter import DiscoverRegularAdapter
    start = {"x": 0.5, "y": -0.3, "z": 1.1, "t": 0.0}
    step = {"x": 0.1, "y": 0.15, "z": 0.2, "t": 0.25}
    coords = {a: start[a] + step[a] * np.arange(sizes[a]) for a in order}
    for a in down:
        coords[a] = coords[a][::-1].copy()
    space = [a for a in order if a != "t"]
    names = {a: sp.Symbol(f"x{i + 1}") for i, a in enumerate(space)}
    tsym = sp.Symbol("t")
    # linear in every axis, so every product used above stays quadratic in each
    usym = sp.Integer(1)
    for i, a in enumerate(space):
        usym = usym * (sp.Rational(13, 10) + sp.Rational(7 + 3 * i, 10) * names[a])
    usym = usym * (2 + sp.Rational(1, 2) * tsym) + sp.Rational(1, 5) * names[space[0]]
    syms = {"u1": usym, **{str(v): v for v in names.values()}}
    lhs_first = len(space) > 1
    lay = (["t"] + space) if lhs_first else [space[0], "t"]
    mesh = dict(zip(lay, np.meshgrid(*[coords[a] for a in lay], indexing="ij")))
    args = [names[a] for a in space] + [tsym]

    def on_grid(expr):
        v = sp.lambdify(args, expr, "numpy")(*[mesh[a] for a in space], mesh["t"])
        return np.broadcast_to(np.asarray(v, float), mesh["t"].shape).copy()

    u = on_grid(usym)
    full = np.transpose(u, [lay.index(a) for a in order])
    if lhs_first:
        ds = PDEDataset("mc", fields_data={"u": full}, coords_1d=coords, axis_order=list(order),
                        target_field="u", lhs_axis="t")
    else:
        ds = PDEDataset("mc", x=coords["x"], t=coords["t"], usol=full)
    m = Bare()
    with quiet():
        m.data_class = DiscoverRegularAdapter(ds)
    data0 = m.data_class.get_data()
    ut = np.array(data0["ut"])
    terms = discover_terms(len(space), ck.thorough)
    grids = {t: on_grid(sympy_of(t, syms)) for t in terms}
    n = len(space)
    xs = [coords[a] for a in space]
    to_contract = (lambda v: np.transpose(v, list(range(1, n + 1)) + [0])) if lhs_first else (lambda v: v)
    sets = [(t,) for t in terms] + [p for p in itertools.combinations(terms, 2)]
    if not ck.thorough:
        sets = [s for i, s in enumerate(sets) if len(s) == 1 or i % 7 == 0 and n == 1 or i % 29 == 0]
    with Studio("discover") as st:
        for i, ts in enumerate(sets):
            if i % of != k:
                continue
            const = i % 2
            w = np.array([(-1.5, 0.75, 2.0)[(i + j) % 3] for j in range(len(ts))] + [0.4] * const)
            if i % 4 > 1:
                w = w.reshape(-1, 1)

            class P:
                pass

            p = P()
            p.STRidge = P()
            p.STRidge.terms = [node_of(t) for t in ts]
            p.w = w
            m.best_p = [p] if i % 3 == 0 else p
            rhs = sum(float(c) * grids[t] for c, t in zip(w.reshape(-1), ts)) + 0.4 * const
            rep = ["discover", order, sizes, down, repr(ts), w.tolist()]
            watch = Watch(m.data_class.get_data(), w, [repr_node(q) for q in p.STRidge.terms])
            tol = 1e-6

            with ck.case("residual", replay=rep):
                res = st.ask(m, "residual")
                ck.expect(res.has_content, "residual-answer", f"{rep}: {res.warnings}", rep)
                if res.has_content:
                    d, s = res.metadata["residual"], res.metadata["summary"]
                    ck.expect(same(np.sort(d.actual), np.sort(ut.reshape(-1)))
                              and same(d.residuals, minus(d.actual, d.predicted), 1e-12)
                              and same(arr(d.residuals).reshape(-1), (ut - rhs).reshape(-1), tol)
                              and summary_ok(s, d.residuals), "residual-values",
                              lambda: f"{rep}: worst {np.abs(d.residuals - (ut - rhs).reshape(-1)).max()}",
                              rep)
                    for ax in st.drawn[-1].axes:
                        if ax["bar"]:
                            continue
                        ck.expect(bars_of(ax, d.residuals), "residual-drawn-histogram", f"{rep}", rep)
                        for xy, z in ax["dots"]:
                            want = {(round(float(a), 9), j): (ut - rhs)[q, j] for q, a in enumerate(xs[0])
                                    for j in range(sizes["t"])} if n == 1 else {}
                            ck.expect(z is not None and len(z) == len(want) and all(
                                abs(want.get((round(float(b), 9), int(round(a))), 1e9) - v) < 1e-5 * (1 + abs(v))
                                for (a, b), v in zip(xy, z)), "residual-drawn-dots", f"{rep}", rep)
                        for mx, my, z in ax["mesh"]:
                            r = to_contract(ut - rhs)
                            tk = re.search(r"t\s*=\s*(-?[0-9.]+)", ax["title"])
                            tk = int(round(float(tk.group(1)))) if tk else sizes["t"] // 2
                            v = r[..., tk]
                            while v.ndim > 2:
                                v = v[..., v.shape[-1] // 2]
                            ck.expect(same(z, v, 1e-5) and same(mx, xs[1], 1e-9) and same(my, xs[0], 1e-9),
                                      "residual-drawn-map",
                                      lambda: f"{rep}: points {mx} / {my}, grid {xs[1]} / {xs[0]}", rep)
                coverage(ck, rep + ["residual"])
            with ck.case("field", replay=rep):
                res = st.ask(m, "field_comparison")
                ck.expect(res.has_content, "field-answer", f"{rep}: {res.warnings}", rep)
                if res.has_content:
                    d = res.metadata["field_comparison"]
                    ck.expect(len(d.spatial_coords) == n and all(same(a, b, 1e-12) for a, b in
                                                                zip(d.spatial_coords, xs)),
                              "field-points", lambda: f"{rep}: {d.spatial_coords} for {xs}", rep)
                    ck.expect(same(d.true_field, to_contract(ut))
                              and same(d.predicted_field, to_contract(rhs), tol)
                              and same(d.residual_field, minus(d.true_field, d.predicted_field), 1e-12),
                              "field-values", lambda: f"{rep}: worst "
                              f"{np.abs(d.predicted_field - to_contract(rhs)).max()}", rep)
                    if n == 1:
                        meshes_ok(ck, st.drawn[-1], d.true_field, d.predicted_field, xs[0], None,
                                  arr(d.t_coords).reshape(-1), "field", rep, "xt")
                    else:
                        cut = (slice(None), slice(None)) + tuple(q // 2 for q in d.true_field.shape[2:-1])
                        meshes_ok(ck, st.drawn[-1], d.true_field[cut], d.predicted_field[cut], xs[0], xs[1],
                                  arr(d.t_coords).reshape(-1), "field", rep, "xy")
                coverage(ck, rep + ["field"])
            with ck.case("parity", replay=rep):
                res = st.ask(m, "parity")
                ck.expect(res.has_content, "parity-answer", f"{rep}: {res.warnings}", rep)
                if res.has_content:
                    d = res.metadata["parity"]
                    ck.expect(same(d.actual_values, ut.reshape(-1)) and same(d.predicted_values,
                                                                            rhs.reshape(-1), tol)
                              and same(d.residuals, minus(d.actual_values, d.predicted_values), 1e-12),
                              "parity-values", f"{rep}", rep)
                    ck.expect(dots_ok(st.drawn[-1], d.actual_values, d.predicted_values), "parity-drawn",
                              f"{rep}", rep)
                coverage(ck, rep + ["parity"])
            ck.expect(watch.intact() and [repr_node(q) for q in p.STRidge.terms] == watch.was[2],
                      "model-changed", f"{rep}", rep)


def repr_node(n):
    return (str(n.val), tuple(repr_node(c) for c in n.children))


def rewards(ck):
    from checks.c24 import Bare
    vals = (0.2, 0.9, -0.5)
    with Studio("discover") as st:
        batches = [b for k in (1, 2) for b in itertools.product(vals, repeat=k)]
        hists = [h for n in (1, 2) for h in itertools.product(batches, repeat=n)]
        hists += list(itertools.product(batches[:6], repeat=3))
        for i, hist in enumerate(hists):
            m = Bare()
            m.searcher = Bare()
            m.searcher.r_train = [np.array(b) if i % 2 else list(b) for b in hist]
            rep = ["rewards", hist]
            w = Watch(m)
            with ck.case("rewards", replay=rep):
                res = st.ask(m, "search_evolution")
                d = res.metadata["reward_evolution"]
                top = [max(b) for b in hist]
                best = list(np.maximum.accumulate(top))
                mean = [float(np.mean(b)) for b in hist]
                ck.expect(same(d.steps, range(1, len(hist) + 1)) and same(d.best_reward, best)
                          and same(d.max_reward, top) and same(d.mean_reward, mean, 1e-12),
                          "rewards-values", f"{rep}: {d}", rep)
                ck.expect(all(has_line(st.drawn[-1], d.steps, v) for v in (best, top, mean)),
                          "rewards-drawn", f"{rep}", rep)
                ck.expect(w.intact(), "rewards-model-changed", f"{rep}", rep)
                coverage(ck, rep)
        # densities: each curve is that of the epoch its label names
        try:
            import seaborn as sns
        except ImportError:
            return
        import matplotlib.pyplot as plt
        for n in (1, 2, 3, 4, 7):
            m = Bare()
            m.searcher = Bare()
            m.searcher.r_history = [np.array([0.1 * k, 0.5 + 0.3 * k, 0.9 - 0.05 * k * k, 0.2]) for k in range(n)]
            w = Watch(m)
            curves = []
            for hk in m.searcher.r_history:
                fig, ax = plt.subplots()
                sns.kdeplot(hk, ax=ax)
                curves.append((ax.get_lines()[0].get_xdata(), ax.get_lines()[0].get_ydata()))
                plt.close(fig)
            asks = [{}] + [{"max_curves": k} for k in (1, 2, 3)]
            asks += [{"epoches": list(e)} for k in (1, 2) for e in itertools.product(range(0, n + 2), repeat=k)]
            for a in asks:
                rep = ["density", n, a]
                with ck.case("density", replay=rep):
                    res = st.ask(m, "density", **a)
                    want = a.get("epoches")
                    ok = want is None or any(e < n for e in want)
                    ck.expect(bool(res.has_content) == ok, "density-answer", f"{rep}: {res}", rep)
                    if ok and res.has_content:
                        shown = []
                        for x, y, label in st.drawn[-1].all("lines"):
                            k = re.search(r"(\d+)\s*$", label)
                            k = int(k.group(1)) if k else None
                            shown.append(k)
                            ck.expect(k is not None and k < n and same(x, curves[k][0], 1e-9)
                                      and same(y, curves[k][1], 1e-9), "density-label",
                                      f"{rep}: the curve labelled {label!r} is not that epoch's", rep)
                        if want is not None:
                            ck.expect(shown == [e for e in want if e < n], "density-curves",
                                      f"{rep}: curves {shown}", rep)
                        ck.expect(list(res.metadata["epoches"]) == (shown if want is None else want),
                                  "density-epochs",
                                  f"{rep}: reported {res.metadata['epoches']}, drawn {shown}", rep)
                    ck.expect(w.intact(), "density-model-changed", f"{rep}", rep)
                    coverage(ck, rep)


def discover_items(deep):
    base = {"x": 6, "y": 7, "z": 6, "t": 5}
    eq = {"x": 6, "y": 6, "z": 6, "t": 6}
    out = [("rewards",)]
    for down in ((), ("x",), ("t",)):
        for k in range(2):
            out.append(("eq", "xt", {"x": 6, "t": 5}, down, k, 2))
    out.append(("eq", "xt", {"x": 6, "t": 6}, (), 0, 1))
    for order in ("xyt", "txy", "ytx"):
        for k in range(2):
            out.append(("eq", order, base, (), k, 2))
    out += [("eq", "xyt", base, ("x",), 0, 1), ("eq", "xyt", base, ("y",), 0, 1),
            ("eq", "txy", eq, ("y", "t"), 0, 1), ("eq", "xyt", eq, (), 0, 1)]
    out += [("eq", "xyzt", base, (), k, 3) for k in range(3)]
    if deep:
        out += [("eq", o, base, d, k, 2) for o in map("".join, itertools.permutations("xyt"))
                for d in ((), ("x",), ("x", "y")) for k in range(2)]
        out += [("eq", o, base, d, k, 3) for o in ("txyz", "zyxt") for d in ((), ("z",)) for k in range(3)]
    return out


# ------------------------------------------------------------------ network-assisted search
LEVELS = (0.0, 0.1, 0.3, 0.5, 0.7, 0.9, 1.0)      # fifths: 0, 0, 1, 2, 3, 4, 4


def scattered(n_space, per_level, levels, units, t0, span, start=1):
    """Scattered points and values linear in the first two coordinates within every fifth of the time range."""
    g = (0.7548776662466927, 0.5698402909980532, 0.3819660112501051)
    pts, t = [], []
    for lv in levels:
        for _ in range(per_level):
            start += 1
            pts.append([(start * g[d]) % 1.0 for d in range(n_space)])
            t.append(lv)
    pts, lv = arr(pts), arr(t)
    fifth = np.minimum((lv * 5 + 1e-9).astype(int), 4)
    return pts, lv, fifth, pts * arr(units[:n_space]), t0 + span * lv


class Evaluated:
    """A program whose prediction exists once its reward was asked for."""

    def __init__(self, y_hat):
        self.y_hat_rhs = self.Theta = None
        self._y = y_hat

    @property
    def r_ridge(self):
        self.y_hat_rhs, self.Theta = self._y, np.stack([self._y.reshape(-1)] * 2, 1)
        return 0.5


def sparse_part(ck, item):
    from checks.c24 import Bare
    from scipy.spatial import Delaunay
    import torch
    from kd.model.discover.program import Program
    n, per, levels, units, t0, span, form = item
    rep = ["network-assisted"] + list(map(repr, item))
    pts, lv, fifth, xs, t = scattered(n, per, levels, units, t0, span)
    inside = 1 + 2 * pts[:, 0] - (3 * pts[:, 1] if n > 1 else 2 * lv)
    true = inside + (10.0 * fifth if n > 1 else 0.0)
    pred = 2 * true - 5 if form != "shuffled" else 0.5 * true + 3
    dtype = torch.float64

    class Task:
        pass

    task = Task()
    task.x = [torch.tensor(xs[:, i:i + 1], dtype=dtype, requires_grad=form == "grad") for i in range(n)]
    task.t = torch.tensor(t.reshape(-1, 1), dtype=dtype)
    task.u = [torch.tensor(true.reshape(-1, 1))]
    task.ut = true.reshape(-1, 1).copy() if form != "flat" else true.copy()
    task.sym_true_input, task.eq_num = None, 1
    if form == "cached":
        task.ut_cache, task.ut = [task.ut], None
        task.reset_ut = lambda i: setattr(task, "ut", task.ut_cache[i])
    y = pred.reshape(-1, 1)
    if form == "short":
        y = y[:-1]
    p = Evaluated(y if form != "flat" else pred.copy())
    if form == "unevaluated":
        p = Evaluated(y)
        p.__class__ = type("Never", (Evaluated,), {"r_ridge": property(lambda self: 0.0)})
    m = Bare()
    m.best_p = [p] if per % 2 else p
    m.searcher = None
    had = Program.__dict__.get("task")
    Program.task = task
    watch = Watch([a.detach().numpy().copy() for a in task.x], t, true, pred)
    usable = form not in ("short", "unevaluated")
    try:
        with Studio("discover") as st:
            with ck.case("spr-residual", replay=rep):
                res = st.ask(m, "spr_residual")
                if not usable:
                    ck.expect(not res.has_content and bool(res.warnings), "spr-residual-refused", lambda: f"{rep}: {res}", rep)
                else:
                    ck.expect(res.has_content, "spr-residual-answer", lambda: f"{rep}: {res.warnings}", rep)
                    d = res.metadata["residual"]
                    ck.expect(same(d.actual, true) and same(d.predicted, pred) and same(d.residuals, true - pred, 1e-12),
                              "spr-residual-values", lambda: f"{rep}: {d.actual[:4]} {d.predicted[:4]}", rep)
                    c = d.input_coordinates
                    ck.expect(c is None or same(arr(c), np.column_stack([xs, t]), 1e-12), "spr-residual-points",
                              lambda: f"{rep}: {arr(c)[:3]} for {np.column_stack([xs, t])[:3]}", rep)
                    ck.expect(dots_ok(st.drawn[-1], true, pred), "spr-residual-drawn", f"{rep}", rep)
                    for ax in st.drawn[-1].axes:
                        if not ax["dots"] and not ax["bar"]:
                            ck.expect(bars_of(ax, true - pred), "spr-residual-histogram", f"{rep}", rep)
                coverage(ck, rep + ["residual"])
            with ck.case("spr-field", replay=rep):
                if form == "short":
                    return
                res = st.ask(m, "spr_field_comparison")
                if not usable:
                    ck.expect(not res.has_content and bool(res.warnings), "spr-field-refused", lambda: f"{rep}: {res}", rep)
                    return
                ck.expect(res.has_content, "spr-field-answer", lambda: f"{rep}: {res.warnings}", rep)
                if not res.has_content:
                    return
                d = res.metadata["field_comparison"]
                tc = arr(d.t_coords).reshape(-1).astype(float)
                T, P = arr(d.true_field).astype(float), arr(d.predicted_field).astype(float)
                f = (lambda v: 2 * v - 5) if form != "shuffled" else (lambda v: 0.5 * v + 3)
                if n == 1:
                    gx = arr(d.x_coords).reshape(-1).astype(float)
                    A, B = np.meshgrid((gx / units[0]), (tc - t0) / span, indexing="ij")
                    hull = Delaunay(np.column_stack([pts[:, 0], lv]))
                    c = np.column_stack([pts[:, 0], lv]).mean(0)
                    q = np.column_stack([A.ravel(), B.ravel()])
                    ok = (hull.find_simplex(c + (q - c) * 1.03) >= 0).reshape(A.shape)
                    want = 1 + 2 * A - 2 * B
                    ck.expect(T.shape == want.shape and np.all(np.abs(T - want)[ok] < 1e-3) and np.all(np.abs(P - f(want))[ok] < 1e-3),
                              "spr-field-values", lambda: f"{rep}: worst {np.abs(T - want)[ok].max()} {np.abs(P - f(want))[ok].max()}", rep)
                    meshes_ok(ck, st.drawn[-1], T, P, gx, None, tc, "spr-field", rep, "xt")
                else:
                    gx, gy = (arr(a).reshape(-1).astype(float) for a in d.spatial_coords[:2])
                    A, B = np.meshgrid(gx / units[0], gy / units[1], indexing="ij")
                    ok_shape = T.shape == P.shape == (len(gx), len(gy), len(tc))
                    ck.expect(ok_shape and np.all(np.diff(tc) > 0), "spr-field-shape", lambda: f"{rep}: {T.shape} for {len(gx)}, {len(gy)}, {len(tc)}", rep)
                    for k, tk in enumerate(tc if ok_shape else ()):
                        b = int(min(max((tk - t0) / span * 5, 0), 4))
                        mine = pts[fifth == b][:, :2]
                        if len(mine) < 4:
                            ck.expect(not np.any(np.nan_to_num(T[..., k])), "spr-field-empty", lambda: f"{rep}: values invented for time {tk}", rep)
                            continue
                        c = mine.mean(0)
                        q = c + (np.column_stack([A.ravel(), B.ravel()]) - c) * 1.03
                        ok = (Delaunay(mine).find_simplex(q) >= 0).reshape(A.shape)
                        want = 1 + 2 * A - 3 * B + 10.0 * b
                        ck.expect(np.all(np.abs(T[..., k] - want)[ok] < 1e-2) and np.all(np.abs(P[..., k] - f(want))[ok] < 2e-2),
                                  "spr-field-values", lambda: f"{rep}: at time {tk} (part {b}) worst {np.abs(T[..., k] - want)[ok].max()}", rep)
                    for ax in st.drawn[-1].axes:
                        for mx, my, z in ax["mesh"]:
                            if not ax["bar"]:
                                src = P if "predict" in ax["title"].lower() else T
                                ck.expect(same(mx, gy, 1e-9) and same(my, gx, 1e-9) and any(
                                    np.array_equal(arr(z), src[..., k], equal_nan=True) for k in range(len(tc))),
                                    "spr-field-drawn", lambda: f"{rep}: {ax['title']}", rep)
                coverage(ck, rep + ["field"])
            ck.expect(watch.intact() and np.array_equal(p._y.reshape(-1), pred) and np.array_equal(arr(task.ut).reshape(-1), true),
                      "model-changed", f"{rep}", rep)
    finally:
        if had is None:
            del Program.task
        else:
            Program.task = had


def sparse_items(deep):
    out = []
    for n in (1, 2, 3):
        for form in ("column", "grad", "flat", "cached", "shuffled", "short", "unevaluated"):
            out.append((n, 9, LEVELS, (1.0, 1.0, 1.0), 0.0, 1.0, form))
        for per in (5, 8, 13) if not deep else (4, 5, 6, 7, 8, 13, 21, 30):
            for levels in (LEVELS, (0.0, 0.3, 0.5, 1.0), (0.0, 0.1, 0.9, 1.0)):
                out.append((n, per, levels, (1.0, 1.0, 1.0), 0.0, 1.0, "column"))
    ux = ((1.0, 1.0, 1.0), (2.0 ** -20, 2.0 ** -20, 1.0), (2.0 ** 10, 2.0 ** 10, 1.0))
    for n in (2, 3):
        for units in ux:
            for t0, span in ((0.0, 2.0 ** -40), (0.0, 2.0 ** -27), (0.0, 2.0 ** 20), (2000.0, 2.0 ** -7), (-3.0, 2.0 ** -12), (1e6, 1.0), (-1.0, 2.0)):
                out.append((n, 9, LEVELS, units, t0, span, "column"))
    for u, span in ((4.0, 1.0), (1.0, 0.25), (0.125, 8.0)):
        out.append((1, 9, LEVELS, (u,), -1.0, span, "column"))
    return out


def run(ck):
    import matplotlib
    matplotlib.use("Agg")
    try:
        import triton._C.libtriton  # noqa: F401
    except Exception:  # noqa: BLE001
        pass
    with quiet():
        import kd.viz  # noqa: F401
        from kd.viz import _adapters  # noqa: F401
        import kd.model.discover.stridge  # noqa: F401
        import kd.model.discover.adapter  # noqa: F401
        import kd.model.sga.sgapde.equation  # noqa: F401
    ck.part("contracts")
    ck.pool(contracts_part, contracts_items(ck.thorough))
    ck.end_part()
    ck.part("slices")
    sizes = [s for n in (3, 4) for s in itertools.product((1, 2, 3), repeat=n)]
    sizes += list(itertools.product((1, 3) if ck.thorough else (2, 3), repeat=5))
    ck.pool(slices_part, [(s, nt) for s in sizes for nt in ((1, 3) if ck.thorough else (2,))])
    ck.end_part()
    ck.part("dlga")
    ck.pool(dlga_part, 
            [("history",), ("residual",), ("equations",)] + [("terms", k, 12) for k in range(12)]
            + [("fields", nx, nt) for nx in (2, 3, 4) for nt in (2, 3, 4)])
    ck.end_part()
    ck.part("pysr")
    ck.pool(pysr_part, [(n, c) for n in (1, 2, 5) for c in (1, 2)])
    ck.end_part()
    ck.part("sga")
    ck.pool(sga_part, sga_items(ck.thorough))
    ck.end_part()
    ck.part("network-assisted")
    ck.pool(sparse_part, sparse_items(ck.thorough))
    ck.end_part()
    ck.part("discover")
    ck.pool(discover_part, discover_items(ck.thorough))
    ck.end_part()
