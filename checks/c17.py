"""C17: the prepared genetic-search problem keeps axes, derivatives and target consistent."""
import itertools

import numpy as np

from mc.core import quiet
from mc import sgalib as L

SIZES = {"x": 12, "y": 5, "z": 4, "t": 6}
STARTS = {"x": (-1.0, 0.5), "y": (-0.6, 0.3), "z": (0.1, 0.2), "t": (0.0, 0.25), "s": (2.0, -0.4)}


def coords_for(axes, variant=0):
    out = {}
    for a in axes:
        st, h = STARTS[a]
        n = SIZES.get(a, 5)
        if variant == 1 and a == axes[0]:
            st, h = st + h * (n - 1), -h          # decreasing coordinate
        if variant == 2:
            n = 4 if a != "x" else 10             # all the other axes equally long
        out[a] = st + h * np.arange(n)
    return out


def field_of(coords, order, which):
    mesh = dict(zip(order, np.meshgrid(*[coords[a] for a in order], indexing="ij")))
    w = {"x": 1.0, "y": 1.7, "z": 0.6, "t": 2.3, "s": -0.8}
    s = sum((w[a] + 0.4 * which) * mesh[a] for a in order)
    p = np.ones_like(s)
    for a in order:
        p = p * (mesh[a] + 1.5 + which)
    return np.sin(s) + 0.3 * p


def crop(order, coords, arrays):
    """Reference for edge deletion: 10% of the x axis on each side."""
    i = order.index("x")
    n = len(coords["x"])
    sl = [slice(None)] * len(order)
    sl[i] = slice(int(n * 0.1), int(n * 0.9))
    c2 = dict(coords)
    c2["x"] = coords["x"][sl[i]]
    return c2, [{k: v[tuple(sl)] for k, v in a.items()} for a in arrays]


def eq(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.allclose(np.asarray(a, float), np.asarray(b, float),
                                              rtol=1e-9, atol=1e-9)


def check_context(ck, ctx, spec, key):
    """Compare one prepared problem with the request it was built from."""
    order, lhs, target = spec["order"], spec["lhs"], spec["target"]
    coords, fields, params = spec["coords"], spec["fields"], spec["params"] or {}
    rep = {k: str(spec[k]) for k in ("order", "lhs", "target", "edges", "primary")}
    rep["sizes"] = {a: len(c) for a, c in coords.items()}
    full_coords, full_fields = coords, fields
    if spec["edges"]:
        coords, (fields, params) = crop(order, coords, [fields, params])
    shape = tuple(len(coords[a]) for a in order)
    want = L.leaves_of(order, {a: coords[a] for a in order}, fields, lhs, params)

    def bad(name, what=""):
        ck.fail(key + ":" + name, f"{rep}: {what}", rep)
    got = {}
    for row in ctx.VARS:
        if row[0] in got:
            bad("duplicate-terminal", row[0])
        got[row[0]] = row[2]
        if int(row[1]) != 0:
            bad("terminal-arity", row[0])
    if set(got) != set(want):
        bad("terminals", f"offers {sorted(got)}, expected {sorted(want)}")
    for n in sorted(set(got) & set(want)):
        v = np.asarray(got[n])
        if v.shape != shape:
            bad("shape:" + ("param" if n in params else "terminal"), f"{n} has shape {v.shape}, grid {shape}")
        elif not eq(v, want[n]):
            kind = ("field" if n in fields else "coordinate" if n in coords else
                    "param" if n in params else "derivative")
            bad("value:" + kind, f"{n} differs from the data by up to {np.max(np.abs(v - want[n]))}")
    den = {row[0]: row[2] for row in ctx.den}
    want_den = [a for a in order if a != lhs]
    if [row[0] for row in ctx.den] != want_den and set(den) != set(want_den) or len(ctx.den) != len(want_den):
        bad("axes", f"differentiation axes {sorted(den)}, expected {want_den}")
    ax = {a: i for i, a in enumerate(order)}
    if dict(ctx.axis_map) != ax:
        bad("axis-map", ctx.axis_map)
    for a in order:
        d = float(coords[a][1] - coords[a][0])
        if a not in ctx.delta or abs(ctx.delta[a] - d) > 1e-12:
            bad("spacing", f"{a}: {ctx.delta.get(a)} expected {d}")
        if not eq(ctx.coords_1d[a], coords[a]):
            bad("coords", a)
    for f in fields:
        if f not in ctx.fields or not eq(ctx.fields[f], fields[f]):
            bad("fields", f)
    if set(ctx.fields) != set(fields):
        bad("fields", sorted(ctx.fields))
    d = {a: coords[a][1] - coords[a][0] for a in order}
    ut = L.deriv1(fields[target], d[lhs], ax[lhs])
    if not eq(ctx.ut, ut):
        bad("lhs", "left-hand side is not the requested derivative of the target field")
    if not eq(ctx.u, fields[target]):
        bad("target", "u is not the target field")
    if not (np.asarray(ctx.default_terms).shape == (ut.size, 1)
            and eq(ctx.default_terms[:, 0], fields[target].reshape(-1))):
        bad("default-terms", "default term is not the target field point by point")
    if list(ctx.default_names) != [target] or ctx.num_default != 1:
        bad("default-names", f"default term of target {target} is labelled {ctx.default_names}")
    # the left-hand side derivative is not on offer (up to sign), nor is its axis
    for n, v in got.items():
        v = np.asarray(v, float)
        if v.shape == ut.shape and np.allclose(v, ut, rtol=1e-9, atol=1e-12):
            bad("lhs-on-rhs", f"terminal {n} equals the left-hand side")
    if lhs in got or lhs in den:
        bad("lhs-axis-on-rhs", lhs)
    prim = spec["primary"] or ("x" if "x" in order and lhs != "x" else [a for a in order if a != lhs][0])
    if ctx.primary_spatial_axis != prim:
        bad("primary", f"{ctx.primary_spatial_axis} expected {prim}")
    ux = L.deriv1(fields[target], d[prim], ax[prim])
    uxx = L.deriv1(ux, d[prim], ax[prim])
    if not eq(ctx.ux, ux):
        bad("ux", "ux is not the derivative along the primary axis")
    if not eq(ctx.uxx, uxx) or not eq(ctx.uxxx, L.deriv1(uxx, d[prim], ax[prim])):
        bad("uxx", "uxx / uxxx are not repeated derivatives along the primary axis")
    if not spec["edges"]:
        o = {"ut_origin": ut, "ux_origin": ux, "uxx_origin": uxx, "u_origin": fields[target]}
    else:
        fu = full_fields[target]
        fd = {a: full_coords[a][1] - full_coords[a][0] for a in order}
        o = {"u_origin": fu, "ut_origin": L.deriv1(fu, fd[lhs], ax[lhs]),
             "ux_origin": L.deriv1(fu, fd[prim], ax[prim])}
    for n, v in o.items():
        if not eq(getattr(ctx, n), v):
            bad("origin", n)


def requests(thorough):
    """Every request of the bounded space, as plain dictionaries."""
    sets = [("x", "t"), ("y", "t"), ("x", "y"), ("x", "s"), ("x", "y", "t"), ("y", "z", "t"), ("x", "y", "z", "t")]
    for axes in sets:
        orders = list(itertools.permutations(axes))
        for order in orders:
            if len(axes) == 4 and not thorough and order[0] not in ("t", "y"):
                continue
            for lhs in order:
                if len(axes) == 4 and not thorough and lhs not in ("t", "z"):
                    continue
                for fset in (("u",), ("v", "u"), ("p", "w")):
                    for target in fset:
                        for npar in (0, 1, 2):
                            for variant in (0, 1, 2):
                                prims = [None] + [a for a in order if a != lhs]
                                for prim in prims:
                                    if prim is not None and (npar or variant) and not thorough:
                                        continue
                                    edges_opts = (False, True) if len(order) == 2 and "x" in order else (False,)
                                    for edges in edges_opts:
                                        if edges and lhs == "x" and variant == 2:
                                            pass
                                        if (len(axes) >= 3 and not thorough
                                                and (npar == 2 or variant == 2 and fset != ("u",))):
                                            continue
                                        yield dict(order=order, lhs=lhs, fset=fset, target=target, npar=npar,
                                                   variant=variant, primary=prim, edges=edges)


def materialise(r):
    order = list(r["order"])
    coords = coords_for(order, r["variant"])
    fields = {f: field_of(coords, order, i) for i, f in enumerate(r["fset"])}
    params = {n: field_of(coords, order, 5 + i) for i, n in enumerate(("alpha", "kappa")[:r["npar"]])}
    return dict(r, order=order, coords=coords, fields=fields, params=params or None)


def build(spec, **over):
    from kd.model.sga.sgapde.config import SolverConfig
    from kd.model.sga.sgapde.context import ProblemContext
    kw = dict(problem_name="mc", fields_data=dict(spec["fields"]), coords_1d=dict(spec["coords"]),
              axis_order=list(spec["order"]), target_field=spec["target"], lhs_axis=spec["lhs"],
              param_fields=spec["params"], primary_spatial_axis=spec["primary"],
              delete_edges=spec["edges"])
    kw.update(over)
    with quiet():
        return ProblemContext(SolverConfig(**kw))


def run_requests(ck, chunk):
    for r in chunk:
        spec = materialise(r)
        key = "request"
        with ck.case(key, {k: str(v) for k, v in r.items()}):
            ck.visit(sorted((k, str(v)) for k, v in r.items()))
            ctx = build(spec)
            ck.step()
            check_context(ck, ctx, spec, key)
            ck.trace()
            ck.sample({k: str(v) for k, v in r.items()})


# ------------------------------------------------------------------ estimator front door
class Capture:
    """Stand-in for the search itself (fit_dataset's documented solver_cls argument)."""
    last = None

    def __init__(self, config):
        self.config = config

    def run(self, context):
        Capture.last = context
        return "best", 0.0


def run_estimator(ck, chunk):
    from kd.dataset import PDEDataset
    from kd.model.kd_sga import KD_SGA
    for r in chunk:
        mode, explicit = r["mode"], r["explicit"]
        spec = materialise(r)
        key = f"estimator:{mode}"
        rep = {k: str(v) for k, v in r.items()}
        with ck.case(key, rep):
            ck.visit(sorted(rep.items()))
            if mode == "legacy":
                ds = PDEDataset(equation_name="mc", x=spec["coords"]["x"], t=spec["coords"]["t"],
                                usol=spec["fields"][spec["target"]], param_fields=spec["params"])
            else:
                other = spec["order"][0] if explicit else spec["lhs"]
                first = spec["fset"][0] if explicit else spec["target"]
                ds = PDEDataset(equation_name="mc", fields_data=spec["fields"], coords_1d=spec["coords"],
                                axis_order=spec["order"], target_field=first, lhs_axis=other,
                                param_fields=spec["params"])
            kw = dict(target_field=spec["target"], lhs_axis=spec["lhs"]) if explicit else {}
            m = KD_SGA(delete_edges=spec["edges"], primary_spatial_axis=spec["primary"], **kw)
            Capture.last = None
            with quiet():
                m.fit_dataset(ds, solver_cls=Capture)
            ck.step()
            ctx = Capture.last
            if mode == "legacy":
                spec["fields"] = {spec["target"]: spec["fields"][spec["target"]]}
            check_context(ck, ctx, spec, key)
            ck.expect(m.context_ is ctx, key + ":context", "context_ is not the one searched", rep)
            ck.trace()
            ck.sample(rep)


def estimator_requests(thorough):
    seen = set()
    for r in requests(thorough):
        if r["primary"] is not None and r["npar"]:
            continue
        for explicit in (False, True):
            q = dict(r, mode="nd", explicit=explicit)
            yield q
            if tuple(r["order"]) == ("x", "t") and r["fset"] == ("u",):
                if explicit or r["lhs"] == "t":
                    yield dict(r, mode="legacy", explicit=explicit)


# ------------------------------------------------------------------ inconsistent requests
def faults(spec):
    """(name, changed keyword arguments) -- every single inconsistency of a valid request."""
    order, coords, fields = spec["order"], spec["coords"], spec["fields"]
    t = spec["target"]
    shape = tuple(len(coords[a]) for a in order)
    yield "target-absent", dict(target_field="q")
    yield "lhs-absent", dict(lhs_axis="q")
    yield "lhs-is-field", dict(lhs_axis=t)
    yield "primary-absent", dict(primary_spatial_axis="q")
    yield "primary-is-lhs", dict(primary_spatial_axis=spec["lhs"])
    yield "no-fields", dict(fields_data=None)
    yield "no-coords", dict(coords_1d=None)
    yield "fields-not-dict", dict(fields_data=[1, 2])
    yield "coords-not-dict", dict(coords_1d=[1, 2])
    for f in fields:
        for bad_shape in {tuple(reversed(shape)), shape[:-1], shape + (1,), (shape[0] + 1,) + shape[1:],
                          shape[:-1] + (shape[-1] - 1,), (1,) * len(shape), ()} - {shape}:
            yield f"field-shape:{bad_shape}", dict(fields_data={**fields, f: np.ones(bad_shape)})
    for i, a in enumerate(order):
        yield f"axis-missing-coords:{a}", dict(coords_1d={k: v for k, v in coords.items() if k != a})
        yield f"axis-missing-order:{a}", dict(axis_order=[k for k in order if k != a])
        yield f"axis-duplicated:{a}", dict(axis_order=list(order) + [a])
        b = [k for k in order if k != a][0]
        yield f"axis-replaced:{a}", dict(axis_order=[b if k == a else k for k in order])
        c = coords[a]
        yield f"coords-longer:{a}", dict(coords_1d={**coords, a: np.append(c, c[-1] + (c[1] - c[0]))})
        yield f"coords-shorter:{a}", dict(coords_1d={**coords, a: c[:-1]})
        yield f"coords-2d:{a}", dict(coords_1d={**coords, a: np.stack([c, c], axis=1)})
        for j in range(1, len(c) - 1):
            for off in (0.3, 0.05, -0.01):
                for unit in (0, -30, -44, 30):
                    w = c.copy()
                    w[j] = w[j] + off * (c[1] - c[0])
                    yield f"coords-uneven:{a}:{j}:{off}:2^{unit}", dict(coords_1d={**coords, a: w * 2.0 ** unit})
            w = c.copy()
            w[j] = w[j - 1]
            yield f"coords-repeated:{a}:{j}", dict(coords_1d={**coords, a: w})
            w = c.copy()
            w[j], w[j + 1] = w[j + 1], w[j]
            yield f"coords-unsorted:{a}:{j}", dict(coords_1d={**coords, a: w})
        for unit in (0, -30, -44):
            for off in (0.3, 0.01):
                w = c.copy()
                w[-1] = w[-1] + off * (c[1] - c[0])
                yield f"coords-uneven:{a}:last:{off}:2^{unit}", dict(coords_1d={**coords, a: w * 2.0 ** unit})
            w = c[0] + (c[1] - c[0]) * (np.arange(len(c)) + 0.02 * np.arange(len(c)) ** 2)
            yield f"coords-uneven:{a}:stretched:2^{unit}", dict(coords_1d={**coords, a: w * 2.0 ** unit})
        yield f"coords-constant:{a}", dict(coords_1d={**coords, a: np.zeros_like(c)})
        if not any(c.shape == coords[k].shape for k in order if k != a):
            pass
    for extra in ("q",):
        yield "coords-extra", dict(coords_1d={**coords, extra: np.arange(3.0)})
    one = np.ones(shape)
    names = list(order) + [f"{f}_{a}" for f in fields for a in order] + ["0", "d", "+", "a b", "", "1u", "u-1", "ux",
                                                                         f"{t}{spec['lhs']}"]
    for n in names:
        yield f"field-name:{n}", dict(fields_data={**fields, n: one})
    for n in [n for n in names if n not in ("ux", f"{t}{spec['lhs']}")] + list(fields):
        yield f"param-name:{n}", dict(param_fields={n: one})
    for bad_shape in {tuple(reversed(shape)), shape[:-1], shape + (1,), (), (1,) * len(shape), (shape[0],)} - {shape}:
        yield f"param-shape:{bad_shape}", dict(param_fields={"alpha": np.ones(bad_shape)})
    if len(order) > 2:
        yield "edges-nd", dict(delete_edges=True)
    if "x" not in order:
        yield "edges-no-x", dict(delete_edges=True)
    for a in order:
        for nm in ("a_b", "0", "a b"):
            new = {nm if k == a else k: v for k, v in coords.items()}
            over = dict(coords_1d=new, axis_order=[nm if k == a else k for k in order])
            if a == spec["lhs"]:
                over["lhs_axis"] = nm
            yield f"axis-name:{a}:{nm}", over
    if order != ["x", "t"]:
        yield "metadata-order", dict(use_metadata=True)


def run_faults(ck, chunk):
    for r in chunk:
        spec = materialise(r)
        allf = list(faults(spec))
        pairs = [(f,) for f in allf]
        if ck.thorough:
            pairs += [(f, g) for f, g in itertools.combinations(allf, 2) if not set(f[1]) & set(g[1])]
        for fs in pairs:
            name = "+".join(f[0] for f in fs)
            over = {}
            for f in fs:
                over.update(f[1])
            rep = dict(fault=name, **{k: str(v) for k, v in r.items()})
            ck.visit(sorted(rep.items()))
            ck.step()
            try:
                build(spec, **over)
            except Exception as e:
                ck.outcome(type(e).__name__)
                ck.trace()
                continue
            ck.fail("inconsistent:" + ":".join(fs[0][0].split(":")[:1]) + ("+pair" if len(fs) > 1 else ""),
                    f"accepted although {name}: {rep}", rep)


# ------------------------------------------------------------------ units
def run_units(ck, chunk):
    """The same problem with one coordinate in another unit: derivatives scale, nothing else changes."""
    for r in chunk:
        spec = materialise(r)
        order, lhs, target = spec["order"], spec["lhs"], spec["target"]
        rep = {k: str(v) for k, v in r.items()}
        with ck.case("units", rep):
            ck.visit(sorted(rep.items()))
            s = {a: 2.0 ** (r["unit"] if a in r["scaled"] else 0) for a in order}
            base = build(spec)
            new = build(spec, coords_1d={a: c * s[a] for a, c in spec["coords"].items()})
            ck.step()
            one = {row[0]: np.asarray(row[2], float) for row in base.VARS}
            two = {row[0]: np.asarray(row[2], float) for row in new.VARS}
            if set(one) != set(two):
                ck.fail("units:terminals", f"{rep}: {sorted(one)} became {sorted(two)}", rep)
            for n in set(one) & set(two):
                f = 1.0
                if n in s:
                    f = s[n]
                elif n not in spec["fields"] and "_" in n:
                    f = 1.0 / s[n.rsplit("_", 1)[1]]
                if not same_up_to(two[n], f * one[n]):
                    ck.fail("units:value", f"{rep}: terminal {n} is not the same quantity in the other unit", rep)
            for n, f in (("ut", 1.0 / s[lhs]), ("u", 1.0), ("ut_origin", 1.0 / s[lhs])):
                if not same_up_to(getattr(new, n), f * np.asarray(getattr(base, n), float)):
                    ck.fail("units:" + n, f"{rep}: {n} is not the same quantity in the other unit", rep)
            if not same_up_to(new.default_terms, base.default_terms):
                ck.fail("units:default-terms", f"{rep}", rep)
            ck.trace()


def same_up_to(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.all(np.abs(a - b) <= 1e-9 * max(1e-300, np.max(np.abs(b), initial=0.0)))


def unit_requests(thorough):
    for r in requests(False):
        if r["primary"] is None and r["npar"] == 0 and r["fset"] == ("u",) and (thorough or r["variant"] < 2):
            for unit in (-44, -30, -14, 20) if thorough or len(r["order"]) < 4 else (-30,):
                for scaled in [r["order"]] + [(a,) for a in r["order"]]:
                    yield dict(r, unit=unit, scaled=scaled)


# ------------------------------------------------------------------ derivatives by networks
WN = {"x": 1.0, "y": -0.7, "z": 0.5, "t": 1.6, "s": -1.2}


def network(order, which, cubic=False):
    """A module that is an exact polynomial of its inputs, and its exact derivatives.

    Quadratic in every input, so that the derivatives along one axis are linear in it (finite
    differences of them are exact as well)."""
    import torch
    w = [WN[a] * (1 + 0.3 * which) for a in order]
    q = [0.25 * (i + 1) - 0.1 * which for i in range(len(order))]
    c = 0.5 + 0.2 * which
    k3 = 0.3 if cubic else 0.0

    class Poly(torch.nn.Module):
        input_dim = len(order)

        def forward(self, z):
            out = sum(w[i] * z[:, i] + q[i] * z[:, i] ** 2 + k3 * z[:, i] ** 3 for i in range(len(order)))
            for i in range(len(order)):
                for j in range(i):
                    out = out + c * (i + 2 * j + 1) * z[:, i] * z[:, j]
            return out.view(-1, 1)

    def d1(z, i):
        g = w[i] + 2 * q[i] * z[i] + 3 * k3 * z[i] ** 2
        for j in range(len(order)):
            if j < i:
                g = g + c * (i + 2 * j + 1) * z[j]
            elif j > i:
                g = g + c * (j + 2 * i + 1) * z[j]
        return g
    return Poly(), d1, q


def near(a, b, scale):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.allclose(a, b, rtol=0, atol=2e-4 * scale)


def network_requests(thorough):
    sets = [("x", "t"), ("y", "t"), ("x", "y"), ("x", "y", "t"), ("y", "z", "t")] + \
        ([("x", "y", "z", "t")] if thorough else [])
    for axes in sets:
        for order in itertools.permutations(axes):
            for lhs in order:
                for fset in (("u",), ("v", "u")):
                    for target in fset:
                        for variant in (0, 1, 2):
                            for prim in [None] + ([a for a in order if a != lhs] if variant == 0 else []):
                                for auto in {None, (target,), fset}:
                                    for normal in (True, False):
                                        edges_opts = (False, True) if len(order) == 2 and "x" in order else (False,)
                                        for edges in edges_opts:
                                            for npar in (0, 1) if variant == 0 and prim is None else (0,):
                                                yield dict(order=order, lhs=lhs, fset=fset, target=target, npar=npar,
                                                           variant=variant, primary=prim, edges=edges, auto=auto,
                                                           normal=normal)


def run_networks(ck, chunk):
    from kd.model.sga.sgapde.config import SolverConfig
    from kd.model.sga.sgapde.context import ProblemContext
    for r in chunk:
        spec = materialise(r)
        order, lhs, target = spec["order"], spec["lhs"], spec["target"]
        rep = {k: str(v) for k, v in r.items()}
        key = "networks"
        with ck.case(key, rep):
            ck.visit(sorted(rep.items()))
            kw = dict(problem_name="mc", fields_data=dict(spec["fields"]), coords_1d=dict(spec["coords"]),
                      axis_order=list(order), target_field=target, lhs_axis=lhs, param_fields=spec["params"],
                      primary_spatial_axis=spec["primary"], delete_edges=spec["edges"], use_autograd=True,
                      normal=r["normal"])
            names = list(spec["fset"]) if r["auto"] is None else list(r["auto"])
            with quiet():
                cfg = SolverConfig(**kw)
                # one network over (x, t): its second and third derivatives are its own, not differences
                high = set(order) == {"x", "t"} and lhs == "t" and len(names) == 1
                cfg.autograd_models = {f: network(order, list(spec["fset"]).index(f), high)[0] for f in names}
                if r["auto"] is not None:
                    cfg.autograd_fields = list(r["auto"])
                ctx = ProblemContext(cfg)
            ck.step()
            coords, fields, params = spec["coords"], spec["fields"], spec["params"] or {}
            if spec["edges"]:
                coords, (fields, params) = crop(order, coords, [fields, params])
            shape = tuple(len(coords[a]) for a in order)
            mesh = np.meshgrid(*[coords[a] for a in order], indexing="ij")

            def bad(name, what=""):
                ck.fail(f"{key}:{name}", f"{rep}: {what}", rep)
            want, second, third = {}, {}, {}
            for f in fields:
                if f in names:
                    _, d1, q = network(order, list(spec["fset"]).index(f), high)
                    if r["normal"]:
                        z = [(m - m.mean()) / m.std() for m in mesh]
                        sc = [fields[f].std() / m.std() for m in mesh]
                        s2 = [fields[f].std() / m.std() ** 2 for m in mesh]
                    else:
                        z, sc, s2 = mesh, [1.0] * len(order), [1.0] * len(order)
                    for i, a in enumerate(order):
                        want[f, a] = sc[i] * d1(z, i)
                        second[f, a] = np.full(shape, s2[i] * 2 * q[i]) + s2[i] * 6 * (0.3 if high else 0.0) * z[i]
                        third[f, a] = np.full(shape, s2[i] * (sc[i] / fields[f].std() if r["normal"] else 1.0)
                                              * 6 * 0.3)
                else:
                    for i, a in enumerate(order):
                        want[f, a] = L.deriv1(fields[f], coords[a][1] - coords[a][0], i)
            got = {row[0]: row[2] for row in ctx.VARS}
            expected = set(fields) | set(params) | {a for a in order if a != lhs} | {"0"} | \
                {f"{f}_{a}" for f in fields for a in order if a != lhs}
            if set(got) != expected:
                bad("terminals", f"offers {sorted(got)}, expected {sorted(expected)}")
            for f in fields:
                if not eq(got.get(f), fields[f]):
                    bad("value:field", f)
                for a in order:
                    if a == lhs:
                        continue
                    scale = 1.0 + np.max(np.abs(want[f, a]))
                    if f"{f}_{a}" in got and not near(got[f"{f}_{a}"], want[f, a], scale):
                        bad("value:derivative", f"{f}_{a} is not the derivative of the network of {f} along {a}")
            for a in order:
                if a != lhs and a in got and not eq(got[a], mesh[list(order).index(a)]):
                    bad("value:coordinate", a)
            for n in params:
                if n in got and not eq(got[n], params[n]):
                    bad("value:param", n)
            sl = 1.0 + np.max(np.abs(want[target, lhs]))
            if not near(ctx.ut, want[target, lhs], sl):
                bad("lhs", "left-hand side is not the derivative of the target's network along the left-hand axis")
            prim = spec["primary"] or ("x" if "x" in order and lhs != "x" else [a for a in order if a != lhs][0])
            if not near(ctx.ux, want[target, prim], 1.0 + np.max(np.abs(want[target, prim]))):
                bad("ux", f"ux is not the network's derivative along {prim}")
            s2 = 1.0 + np.max(np.abs(second[target, prim])) + np.max(np.abs(want[target, prim])) / abs(
                coords[prim][1] - coords[prim][0])
            if not near(ctx.uxx, second[target, prim], s2):
                bad("uxx", f"uxx is not the network's second derivative along {prim}: "
                           f"{np.ravel(ctx.uxx)[:3]} expected {np.ravel(second[target, prim])[:3]}")
            if high and not near(ctx.uxxx, third[target, prim], 1.0 + np.max(np.abs(third[target, prim]))):
                bad("uxxx", f"uxxx is not the network's third derivative along {prim}: "
                            f"{np.ravel(ctx.uxxx)[:3]} expected {np.ravel(third[target, prim])[:3]}")
            if not eq(ctx.default_terms[:, 0], fields[target].reshape(-1)):
                bad("default-terms")
            den = [row[0] for row in ctx.den]
            if sorted(den) != sorted(a for a in order if a != lhs):
                bad("axes", den)
            ck.trace()


def run_training(ck, chunk):
    """Networks trained while preparing: same pairs, own statistics, no trace in the random state."""
    import torch
    from kd.model.sga.sgapde.config import SolverConfig
    from kd.model.sga.sgapde.context import ProblemContext
    from kd.model.sga.sgapde import metann
    for r in chunk:
        spec = materialise(r)
        order, lhs, target = spec["order"], spec["lhs"], spec["target"]
        rep = {k: str(v) for k, v in r.items()}
        key = "training"
        with ck.case(key, rep):
            ck.visit(sorted(rep.items()))
            coords, fields = spec["coords"], spec["fields"]
            if spec["edges"]:
                coords, (fields,) = crop(order, coords, [fields])
            mesh = np.meshgrid(*[coords[a] for a in order], indexing="ij")
            flat = np.stack([m.reshape(-1) for m in mesh], axis=1)
            if hasattr(metann, "prepare_training_data"):
                X, y, stats = metann.prepare_training_data(coords, fields[target], axis_order=list(order),
                                                           normalize=r["normal"])
                X, y = np.asarray(X), np.asarray(y).reshape(-1)
                if r["normal"]:
                    X = X * stats["x_std"] + stats["x_mean"]
                    y = y * stats["y_std"] + stats["y_mean"]
                ck.expect(X.shape == flat.shape and np.allclose(X, flat) and np.allclose(y, fields[target].reshape(-1)),
                          key + ":pairs", lambda: f"{rep}: row k is not node k with its value", rep)
            np.random.seed(3)
            torch.manual_seed(3)
            with quiet():
                cfg = SolverConfig(problem_name="mc", fields_data=dict(spec["fields"]),
                                   coords_1d=dict(spec["coords"]), axis_order=list(order), target_field=target,
                                   lhs_axis=lhs, delete_edges=spec["edges"], use_autograd=True, normal=r["normal"],
                                   max_epoch=r["epochs"], hidden_dim=4, seed=r["seed"])
                before = np.random.get_state()[1].copy(), np.random.get_state()[2], torch.get_rng_state().clone()
                ctx = ProblemContext(cfg)
                after = np.random.get_state()[1].copy(), np.random.get_state()[2], torch.get_rng_state().clone()
                again = ProblemContext(cfg)
            ck.step()
            if not (np.array_equal(before[0], after[0]) and before[1] == after[1]
                    and torch.equal(before[2], after[2])):
                ck.fail(key + ":random-state", f"{rep}: preparing the problem moved the random state", rep)
            if not near(again.ut, ctx.ut, 1.0):
                ck.fail(key + ":repeatable", f"{rep}: the same request trained another network", rep)
            models = ctx.config.autograd_models
            for f in fields:
                if f not in models:
                    ck.fail(key + ":model", f"{rep}: no network for {f}", rep)
                    continue

                def deriv(at_mesh, axis, f=f):
                    # what the network, trained on the prepared grid, says about the given nodes
                    m32 = [m.reshape(-1) for m in at_mesh]
                    if r["normal"]:
                        cols = [(m - g.mean()) / g.std() for m, g in zip(m32, mesh)]
                        sc = fields[f].std() / mesh[axis].std()
                    else:
                        cols, sc = m32, 1.0
                    z = torch.tensor(np.stack(cols, axis=1), dtype=torch.float32, requires_grad=True)
                    g = torch.autograd.grad(models[f](z).sum(), z)[0][:, axis].numpy()
                    return sc * g.reshape(at_mesh[0].shape)
                for i, a in enumerate(order):
                    w = deriv(mesh, i)
                    v = ctx.ut if (f == target and a == lhs) else \
                        {row[0]: row[2] for row in ctx.VARS}.get(f"{f}_{a}") if a != lhs else None
                    if v is not None and not near(v, w, 1.0 + np.max(np.abs(w))):
                        ck.fail(key + ":derivative", f"{rep}: d{f}/d{a} is not that of its trained network", rep)
            if spec["edges"]:
                full = np.meshgrid(*[spec["coords"][a] for a in order], indexing="ij")
                if np.shape(ctx.ut_origin) == full[0].shape:
                    w = deriv(full, list(order).index(lhs), target)
                    ck.expect(near(ctx.ut_origin, w, 1.0 + np.max(np.abs(w))), key + ":origin",
                              lambda: f"{rep}: ut_origin is not the trained network's derivative on the original "
                                      f"nodes (off by {np.max(np.abs(ctx.ut_origin - w))})", rep)
            ck.trace()


def training_requests(thorough):
    for r in network_requests(thorough):
        if r["auto"] is None and r["primary"] is None and r["npar"] == 0:
            for epochs in (0, 2):
                for seed in (0, 1) if thorough else (0,):
                    yield dict(r, epochs=epochs, seed=seed)


def run_finer(ck, chunk):
    """use_metadata: the problem lives on a finer grid whose field is the stored network's."""
    import os
    import tempfile
    import torch
    from kd.model.sga.sgapde.config import Net, SolverConfig
    from kd.model.sga.sgapde.context import ProblemContext
    for r in chunk:
        spec = materialise(r)
        order = ["x", "t"]
        key = "finer"
        rep = {k: str(v) for k, v in r.items()}
        with tempfile.TemporaryDirectory(prefix="kdmc.c17.") as tmp, ck.case(key, rep):
            ck.visit(sorted(rep.items()))
            torch.manual_seed(5)
            net = Net(2, 6, 1)
            path = os.path.join(tmp, "net.pkl")
            torch.save(net.state_dict(), path)
            u = spec["fields"]["u"]
            x, t = spec["coords"]["x"], spec["coords"]["t"]
            kw = dict(fields_data={"u": u}, coords_1d={"x": x, "t": t}, axis_order=order) if r["nd"] else \
                dict(u_data=u, x_data=x, t_data=t)
            with quiet():
                ctx = ProblemContext(SolverConfig(problem_name="mc", use_metadata=True, hidden_dim=6,
                                                  model_path=path, normal=r["normal"], fine_ratio=r["ratio"],
                                                  delete_edges=spec["edges"], **kw))
            ck.step()
            fx = np.linspace(x.min(), x.max(), r["ratio"] * len(x))
            ft = np.linspace(t.min(), t.max(), r["ratio"] * len(t))
            X, T = np.meshgrid(fx, ft, indexing="ij")
            cols = [X.reshape(-1), T.reshape(-1)]
            if r["normal"]:
                cols = [(c - c.mean()) / c.std() for c in cols]
            with torch.no_grad():
                p = net(torch.tensor(np.stack(cols, axis=1), dtype=torch.float32)).numpy().reshape(X.shape).astype(float)
            if r["normal"]:
                p = p * u.std() + u.mean()
            c = {"x": fx, "t": ft}
            f = {"u": p}
            if spec["edges"]:
                c, (f,) = crop(order, c, [f])
            scale = 1.0 + np.max(np.abs(p))
            if not near(ctx.u, f["u"], scale):
                ck.fail(key + ":field", f"{rep}: u is not the network's field on the finer grid "
                                        f"({np.shape(ctx.u)}, {f['u'].shape})", rep)
                continue
            for a in order:
                if not eq(ctx.coords_1d[a], c[a]):
                    ck.fail(key + ":coords", f"{rep}: {a}", rep)
            d = {a: c[a][1] - c[a][0] for a in order}
            checks = [("lhs", ctx.ut, L.deriv1(f["u"], d["t"], 1), d["t"]), ("ux", ctx.ux, L.deriv1(f["u"], d["x"], 0), d["x"])]
            vars_ = {row[0]: row[2] for row in ctx.VARS}
            checks += [("u_x", vars_.get("u_x"), L.deriv1(f["u"], d["x"], 0), d["x"]),
                       ("u", vars_.get("u"), f["u"], 1.0)]
            d0 = {"x": x[1] - x[0], "t": t[1] - t[0]}
            checks += [("u_origin", ctx.u_origin, u, 1.0), ("ut_origin", ctx.ut_origin, L.deriv1(u, d0["t"], 1), 1.0),
                       ("ux_origin", ctx.ux_origin, L.deriv1(u, d0["x"], 0), 1.0)]
            for name, v, w, dd in checks:
                if v is None or not near(v, w, (scale + np.max(np.abs(w))) / min(1.0, abs(dd))):
                    ck.fail(f"{key}:{name}", f"{rep}: {name} is not what the finer grid says", rep)
            if set(vars_) != {"u", "x", "0", "u_x"}:
                ck.fail(key + ":terminals", f"{rep}: {sorted(vars_)}", rep)
            ck.trace()


def finer_requests():
    for variant in (0, 2):
        for normal in (True, False):
            for ratio in (1, 2, 3):
                for edges in (False, True):
                    for nd in (False, True):
                        yield dict(order=("x", "t"), lhs="t", fset=("u",), target="u", npar=0, variant=variant,
                                   primary=None, edges=edges, normal=normal, ratio=ratio, nd=nd)


def chunks(items, n=64):
    items = list(items)
    return [items[i::n] for i in range(n) if items[i::n]]


def run(ck):
    import kd.model.kd_sga  # noqa: F401  (before forking)
    ck.part("requests")
    ck.pool(run_requests, chunks(requests(ck.thorough)))
    ck.end_part()
    ck.part("estimator")
    ck.pool(run_estimator, chunks(estimator_requests(ck.thorough)))
    ck.end_part()
    ck.part("units")
    ck.pool(run_units, chunks(unit_requests(ck.thorough)))
    ck.end_part()
    ck.part("networks")
    ck.pool(run_networks, chunks(network_requests(ck.thorough)))
    ck.end_part()
    ck.part("training")
    ck.pool(run_training, chunks(training_requests(ck.thorough)))
    ck.end_part()
    ck.part("finer")
    ck.pool(run_finer, chunks(finer_requests()))
    ck.end_part()
    ck.part("inconsistent")
    base = [r for r in requests(False) if r["variant"] == 0 and r["npar"] == 0 and not r["edges"]
            and r["primary"] is None and (ck.thorough or len(r["order"]) < 4)
            and (ck.thorough or r["fset"] != ("p", "w"))]
    ck.pool(run_faults, chunks(base))
    ck.notes["bounds"] = "2-4 axes, every order and left-hand axis, 1-2 fields, 0-2 parameter fields, " \
                         "3 coordinate variants, edge trimming; every single inconsistency" + \
                         (" and pairs" if ck.thorough else "")
