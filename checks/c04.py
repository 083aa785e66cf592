"""C04: numerical derivatives.

Every routine is linear in its field, so applying it to each unit impulse of a small grid gives its complete
operator on that grid.  The operator is then checked point by point: it must not mix grid lines, it must be the same
on every line, and its rows must satisfy the moment conditions of the requested derivative (exactness on polynomials).
Linearity itself is checked on every pair of impulses and on dense fields.
"""
import itertools
import math

try:
    import triton._C.libtriton  # noqa: F401
except Exception:  # noqa: BLE001
    pass
import numpy as np

from mc.core import h, quiet

SPACINGS = (1.0, 0.5, -0.25, 2.0)


class R:
    """One routine: call(u, coords, axis) -> derivative.  `deg` = exactness degree at interior / boundary points."""

    def __init__(self, name, call, order, axes, ndim, min_n, margin, deg, edge, tol=1e-9, extra=()):
        self.name, self.call, self.order, self.axes, self.ndim = name, call, order, axes, ndim
        self.min_n, self.margin, self.deg, self.edge, self.tol = min_n, margin, deg, edge, tol
        self.extra = extra


def coords_of(sizes, steps, offset=0.0):
    return [offset + s * np.arange(n) for n, s in zip(sizes, steps)]


def step_of(c):
    return float(c[1] - c[0])


def routines():
    """(routine, kind) pairs from the public names of every module that offers derivatives."""
    out = []
    from kd.model.discover.task.pde import utils_fd as fd
    mods = [("utils_fd", fd)]
    try:
        from kd.model.discover.task.pde import utils_v1 as v1
        mods.append(("utils_v1", v1))
    except ImportError:
        pass
    for mname, m in mods:
        g = lambda n: getattr(m, n, None)   # noqa: E731
        if g("FiniteDiff"):
            out.append(R(mname + ".FiniteDiff", lambda u, c, a, f=g("FiniteDiff"): f(u, step_of(c[a])),
                         1, (0,), 1, 3, 1, 2, "exact"))
        if g("FiniteDiff2"):
            out.append(R(mname + ".FiniteDiff2", lambda u, c, a, f=g("FiniteDiff2"): f(u, step_of(c[a])),
                         2, (0,), 1, 4, 1, 3, "exact"))
        for n, o, mn, mg, dg in (("Diff", 1, 3, 1, 2), ("Diff2", 2, 4, 1, 3), ("Diff3", 3, 4, 2, 3), ("Diff4", 4, 4, 2, 5)):
            if g(n):
                for col in (False, True):
                    out.append(R(f"{mname}.{n}" + ("[column]" if col else ""),
                                 lambda u, c, a, f=g(n), col=col: f(u, c[a].reshape(-1, 1) if col else c[a], 1),
                                 o, (0,), 2, mn, mg, dg, "exact" if o < 3 else "composed"))
        for n, o, nd, mn, edge in (("Diff_2", 1, 3, 3, "wrap"), ("Diff2_2", 2, 3, 3, "wrap"),
                                   ("Diff_3", 1, 4, 3, "exact"), ("Diff2_3", 2, 4, 4, "exact")):
            if g(n):
                for shape in ("flat", "column", "axis"):
                    def call(u, c, a, f=g(n), shape=shape):
                        x = c[a]
                        if shape == "column":
                            x = x.reshape(-1, 1)
                        elif shape == "axis":
                            x = x.reshape([-1 if i == a else 1 for i in range(u.ndim)])
                        return f(u, x, name=a)
                    out.append(R(f"{mname}.{n}[{shape}]", call, o, tuple(range(1, nd)), nd, mn, 1, 2 if o == 1 else 3, edge))
    from kd.utils import utils_fd as ufd
    for o, mn, mg, dg, edge in ((1, 3, 1, 2, "exact"), (2, 4, 1, 3, "exact"), (3, 5, 2, 4, "zero"), (4, 5, 2, 5, "zero")):
        out.append(R(f"kd.utils.FiniteDiff[{o}]", lambda u, c, a, o=o: ufd.FiniteDiff(u, step_of(c[a]), o),
                     o, (0,), 1, mn, mg, dg, edge))
    try:
        from kd.utils.solver import FiniteDifferenceOperator as FDO
        for o, mn, mg, dg in ((1, 3, 1, 2), (2, 4, 1, 3), (3, 4, 2, 3), (4, 4, 2, 5)):
            edge = "exact" if o < 3 else "composed"
            out.append(R(f"FiniteDifferenceOperator.diff[{o}]", lambda u, c, a, o=o: FDO.diff(u, step_of(c[a]), o),
                         o, (0,), 2, mn, mg, dg, edge))
            out.append(R(f"FiniteDifferenceOperator.compute[{o}]",
                         lambda u, c, a, o=o: FDO(u, step_of(c[a]), 2).compute(o), o, (0,), 2, mn, mg, dg, edge))
    except ImportError:
        pass
    from kd.model.sga.sgapde import PDE_find as pf
    for n, o, mn, dg in (("FiniteDiff", 1, 3, 2), ("FiniteDiff2", 2, 4, 3)):
        if hasattr(pf, n):
            out.append(R(f"sga.{n}", lambda u, c, a, f=getattr(pf, n): f(u, step_of(c[a])), o, (0,), 1, mn, 1, dg, "exact"))
    for n, o, mn, dg in (("Diff", 1, 3, 2), ("Diff2", 2, 4, 3)):
        if hasattr(pf, n):
            for nd in (1, 2, 3, 4):
                out.append(R(f"sga.{n}[{nd}d]", lambda u, c, a, f=getattr(pf, n): f(u, step_of(c[a]), a),
                             o, tuple(range(nd)), nd, mn, 1, dg, "exact"))
            out.append(R(f"sga.{n}[named]", lambda u, c, a, f=getattr(pf, n): f(u, step_of(c[a]), "xt"[a]),
                         o, (0, 1), 2, mn, 1, dg, "exact"))
    try:
        from kd.model.sga.sgapde.context import ProblemContext
        f = getattr(ProblemContext, "_finite_diff_along_axis", None)
        if f is not None:
            for o, mn, dg in ((1, 3, 2), (2, 4, 3)):
                for nd in (2, 3):
                    out.append(R(f"sga.context[{o},{nd}d]", lambda u, c, a, o=o: f(u, step_of(c[a]), a, order=o),
                                 o, tuple(range(nd)), nd, mn, 1, dg, "exact"))
    except ImportError:
        pass
    try:
        from kd.model.discover.task.pde import pde_find as df
        for d, mn, mg, dg, edge in ((1, 3, 1, 2, "exact"), (2, 4, 1, 3, "exact"), (3, 6, 2, 4, "low3"), (4, 6, 3, 4, "composed"),
                                    (5, 7, 3, 5, "composed")):
            out.append(R(f"pde_find.FiniteDiff[{d}]",
                         lambda u, c, a, d=d: np.real(df.FiniteDiff(u, step_of(c[a]), d)),
                         d, (0,), 1, mn, mg, dg, edge, 2e-3 if d > 3 else 1e-5))
    except ImportError:
        pass
    try:
        from kd.viz import discover_viz as dv
        f2 = getattr(dv, "_finite_difference_nd", None)
        if f2 is not None:
            for o, mn, mg, dg in ((1, 3, 1, 2), (2, 5, 2, 3), (3, 7, 3, 4), (4, 9, 4, 5)):
                for nd in (1, 2):
                    out.append(R(f"viz.nd[{o},{nd}d]", lambda u, c, a, o=o: f2(u, step_of(c[a]), order=o, axis=a),
                                 o, tuple(range(nd)), nd, mn, mg, dg, "composed2"))
    except ImportError:
        pass
    # torch
    try:
        out += torch_routines()
    except ImportError:
        pass
    return out


def torch_routines():
    return []


def falling(k, o):
    r = 1
    for i in range(o):
        r *= (k - i)
    return r if k >= o else 0


def edge_degree(r, n):
    """Exactness degree guaranteed at the points of the boundary."""
    if r.edge == "exact":
        return 2 if r.order == 1 else 3
    if r.edge == "composed":
        return 3 if r.order <= 4 else 3
    if r.edge == "low3":
        return 3
    return 2


def operator_of(ck, r, sizes, steps, axis, offset=0.0):
    """{(in index): result} for all unit impulses; None on failure."""
    c = coords_of(sizes, steps, offset)
    res = {}
    for idx in itertools.product(*map(range, sizes)):
        u = np.zeros(sizes)
        u[idx] = 1.0
        keep = u.copy()
        kc = [x.copy() for x in c]
        out = np.asarray(r.call(u, c, axis))
        ck.step()
        if out.shape != tuple(sizes):
            ck.fail(f"{r.name}:shape", f"input {sizes}, output {out.shape}", dict(routine=r.name, sizes=sizes, axis=axis))
            return None
        if not np.array_equal(u, keep) or any(not np.array_equal(p, q) for p, q in zip(c, kc)):
            ck.fail(f"{r.name}:input-modified", f"sizes {sizes} axis {axis}", dict(routine=r.name, sizes=sizes))
            return None
        if out is u or np.shares_memory(out, u):
            ck.fail(f"{r.name}:aliases-input", f"sizes {sizes} axis {axis}", dict(routine=r.name, sizes=sizes))
        res[idx] = np.array(out, float)
    return res


def check_operator(ck, r, sizes, steps, axis):
    rep = dict(routine=r.name, sizes=list(sizes), steps=list(steps), axis=axis)
    key = f"{r.name}:axis{axis}"
    ops = operator_of(ck, r, sizes, steps, axis)
    if ops is None:
        return
    n, hh = sizes[axis], steps[axis]
    others = [i for i in range(len(sizes)) if i != axis]
    scale = abs(hh) ** -r.order
    tol = r.tol * max(1.0, scale)
    # 1. no grid line influences another one
    for idx, out in ops.items():
        o = np.moveaxis(out, axis, -1)
        mask = np.ones(o.shape[:-1], bool)
        mask[tuple(idx[i] for i in others)] = False
        if not np.all(np.abs(o[mask]) <= tol) or not np.all(np.isfinite(out)):
            ck.fail(f"{key}:leaks", f"impulse at {idx} of {sizes}, axis {axis}: other lines change", dict(rep, impulse=idx))
            return
    # 2. one matrix for all lines
    mats = {}
    for line in itertools.product(*[range(sizes[i]) for i in others]):
        m = np.zeros((n, n))
        for j in range(n):
            full = [0] * len(sizes)
            for i, v in zip(others, line):
                full[i] = v
            full[axis] = j
            m[:, j] = np.moveaxis(ops[tuple(full)], axis, -1)[line]
        mats[line] = m
    first = next(iter(mats.values()))
    for line, m in mats.items():
        if not np.allclose(m, first, rtol=0, atol=tol):
            ck.fail(f"{key}:line-dependent", f"line {line} of {sizes}, axis {axis} has another operator", dict(rep, line=line))
            return
    # 3. moments of every row
    x = hh * np.arange(n)
    for i in range(n):
        interior = r.margin <= i < n - r.margin
        row = first[i]
        if r.edge == "wrap" and not interior:
            want = np.zeros(n)
            nxt, prv = (i + 1) % n, (i - 1) % n
            if r.order == 1:
                want[nxt] += 1 / (2 * hh)
                want[prv] -= 1 / (2 * hh)
            else:
                want[nxt] += 1 / hh ** 2
                want[prv] += 1 / hh ** 2
                want[i] -= 2 / hh ** 2
            ck.expect(np.allclose(row, want, rtol=0, atol=tol), f"{key}:boundary",
                      lambda: f"row {i} of {n}: {row}, periodic stencil is {want}", dict(rep, row=i))
            continue
        if r.edge == "zero" and not interior:
            ck.expect(np.allclose(row, 0, atol=tol), f"{key}:boundary", lambda: f"row {i} of {n} is {row}, documented zero",
                      dict(rep, row=i))
            continue
        deg = r.deg if interior else edge_degree(r, n)
        if r.edge in ("composed", "composed2", "low3") and not interior:
            deg = min(deg, r.order if r.edge == "composed2" else max(3, r.order) if r.edge != "composed" else 3)
        for k in range(deg + 1):
            got = float(np.dot(row, (x - x[i]) ** k))
            want = float(falling(k, r.order)) if k == r.order else 0.0
            lim = r.tol * (1 + np.dot(np.abs(row), np.abs(x - x[i]) ** k)) * 10
            if not abs(got - want) <= lim:
                ck.fail(f"{key}:{'interior' if interior else 'boundary'}",
                        f"point {i} of {n}, spacing {hh}: the derivative of (x-x_i)^{k} is {got:.6g}, expected {want:.6g}",
                        dict(rep, row=i, degree=k))
                return
    ck.outcome((r.name, axis, n, hh, tuple(np.round(first.ravel(), 9))))
    return first


def dense(sizes):
    n = int(np.prod(sizes))
    return (((np.arange(n) * 7 + 3) % 11) - 5.0).reshape(sizes)


def apply_matrix(m, u, axis):
    return np.moveaxis(np.tensordot(m, u, axes=(1, axis)), 0, axis)


def check_linear(ck, r, sizes, steps, axis, m, pairs):
    """The routine agrees with its operator on dense fields, dtypes, memory layouts, offsets and pairs of impulses."""
    rep = dict(routine=r.name, sizes=list(sizes), steps=list(steps), axis=axis)
    key = f"{r.name}:axis{axis}"
    c = coords_of(sizes, steps)
    base = dense(sizes)
    tol = max(r.tol, 1e-9) * 100 * max(1.0, abs(steps[axis]) ** -r.order)
    fields = [("dense", base), ("scaled", -3.5 * base), ("constant", np.full(sizes, 2.5)), ("large", base * 1e6),
              ("small", base * 1e-6),
              ("int", base.astype(np.int64)), ("int32", base.astype(np.int32)), ("uint8", (base + 5).astype(np.uint8)),
              ("int8", (base * 20).astype(np.int8)), ("int16", (base * 6000).astype(np.int16)),
              ("bool", base > 0), ("float32", base.astype(np.float32)),
              ("fortran", np.asfortranarray(base)),
              ("strided", np.repeat(base, 2, axis=0)[::2]), ("reversed-view", base[::-1]),
              ("transposed-view", np.ascontiguousarray(base.T).T)]
    for name, u in fields:
        keep = u.copy()
        got = None
        # a routine may refuse logical fields
        with ck.case(f"{key}:{name}", dict(rep, field=name), allow=(TypeError,) if name == "bool" else ()):
            got = np.asarray(r.call(u, c, axis))
            ck.step()
            want = apply_matrix(m, u.astype(float), axis)
            big = max(1.0, float(np.max(np.abs(want)))) if want.size else 1.0
            t = (1e-4 if name == "float32" else 1e-9) if r.tol <= 1e-9 else r.tol * 5
            sc = max(1.0, float(np.max(np.abs(u.astype(float))))) * max(1.0, abs(steps[axis]) ** -r.order)
            if name == "small":
                big, sc = 1e-6, 1e-6 * max(1.0, abs(steps[axis]) ** -r.order)
            ck.expect(got.shape == tuple(sizes) and np.allclose(got, want, rtol=0, atol=t * (big + sc)),
                      f"{key}:{name}", lambda: f"sizes {sizes}: not its own operator: {np.ravel(got)[:6]} vs {np.ravel(want)[:6]}",
                      dict(rep, field=name))
            ck.expect(np.array_equal(u, keep), f"{key}:{name}:input-modified", "", dict(rep, field=name))
    for off in (3.0, -100.0):
        with ck.case(f"{key}:offset", dict(rep, offset=off)):
            got = np.asarray(r.call(base.copy(), coords_of(sizes, steps, off), axis))
            ck.step()
            ck.expect(np.allclose(got, apply_matrix(m, base, axis), rtol=0, atol=1e-7 * 100 + tol), f"{key}:offset",
                      f"depends on the origin of the coordinate ({off})", dict(rep, offset=off))
    if pairs:
        cells = list(itertools.product(*map(range, sizes)))
        for a, b in itertools.combinations(cells, 2):
            u = np.zeros(sizes)
            u[a], u[b] = 2.0, -1.5
            got = np.asarray(r.call(u, c, axis))
            ck.step()
            if not np.allclose(got, apply_matrix(m, u, axis), rtol=0, atol=tol):
                ck.fail(f"{key}:not-linear", f"impulses at {a} and {b}", dict(rep, a=a, b=b))
                return


def part_operators(ck, item):
    i, axis, n, hh = item
    r = routines()[i]
    sizes_list = []
    for base in ((3, 4, 5, 3), (5, 3, 3, 4), (2, 5, 2, 3)) if r.ndim > 1 else ((0,),):
        s = list(base[:r.ndim])
        s[axis] = n
        sizes_list.append(tuple(s))
    if r.ndim == 4 and not ck.thorough:
        sizes_list = sizes_list[:1]
    for sizes in sizes_list:
        if int(np.prod(sizes)) > (400 if ck.thorough else 260):
            continue
        steps = [0.5 + 0.25 * k for k in range(r.ndim)]
        steps[axis] = hh
        if not ck.visit((r.name, sizes, tuple(steps), axis)):
            continue
        m = None
        with quiet(), ck.case(f"{r.name}:axis{axis}", dict(routine=r.name, sizes=sizes, steps=steps, axis=axis)):
            m = check_operator(ck, r, sizes, steps, axis)
        if m is not None:
            with quiet(), ck.case(f"{r.name}:axis{axis}", dict(routine=r.name, sizes=sizes, steps=steps, axis=axis)):
                check_linear(ck, r, sizes, steps, axis, m, int(np.prod(sizes)) <= (60 if ck.thorough else 30))
        ck.trace()
        ck.sample(dict(routine=r.name, sizes=sizes, axis=axis, spacing=hh))


# ------------------------------------------------------------- Laplacians
def part_laplace(ck, item):
    name, sizes, steps = item
    from kd.model.discover.task.pde import utils_fd as fd
    f = getattr(fd, name, None)
    if f is None:
        return
    nd = len(sizes)
    second = getattr(fd, "Diff2_2" if name == "Laplace" else "Diff2_3")
    rep = dict(routine=name, sizes=sizes, steps=steps)
    ck.visit(("lap", name, sizes, steps))
    c = [s * np.arange(n) for n, s in zip(sizes[1:], steps)]
    for form in ("column", "axis"):
        x = [v.reshape(-1, 1) if form == "column" else v.reshape([-1 if k == a else 1 for k in range(nd)])
             for a, v in enumerate(c, 1)]
        cells = list(itertools.product(*map(range, sizes)))
        for cell in cells + ["dense", "int", "uint8", "int8"]:
            if isinstance(cell, str):
                u = dense(sizes) if cell == "dense" else dense(sizes).astype(int) if cell == "int" else \
                    (dense(sizes) * 20).astype(np.int8) if cell == "int8" else (dense(sizes) + 5).astype(np.uint8)
            else:
                u = np.zeros(sizes)
                u[cell] = 1.0
            with quiet(), ck.case(f"{name}", dict(rep, field=cell)):
                got = np.asarray(f(u.copy(), list(x)))
                ck.step()
                want = sum(second(u.astype(float), v, name=a) for a, v in enumerate(x, 1))
                # independent reference in the interior
                ref = np.zeros(sizes)
                inner = tuple([slice(None)] + [slice(1, -1)] * (nd - 1))
                uf = u.astype(float)
                for a in range(1, nd):
                    hh = steps[a - 1]
                    ref += (np.roll(uf, -1, a) - 2 * uf + np.roll(uf, 1, a)) / hh ** 2
                ck.expect(got.shape == tuple(sizes) and np.allclose(got[inner], ref[inner], atol=1e-8), f"{name}:interior",
                          f"{form} {sizes}: the Laplacian of field {cell} is not the sum of second derivatives",
                          dict(rep, field=cell))
                ck.expect(got.shape == tuple(sizes) and np.allclose(got, want, atol=1e-8), f"{name}:boundary",
                          f"{form} {sizes}: field {cell}: not the sum of the second derivatives at the boundary",
                          dict(rep, field=cell))
    ck.trace()


# ------------------------------------------------------------- refusals
def part_refused(ck, _item):
    from kd.utils import utils_fd as ufd
    u = dense((6,))
    for o in (0, 5, 6, -1, "x"):
        ck.visit(("ufd", o))
        try:
            out = ufd.FiniteDiff(u.copy(), 0.5, o)
        except Exception:  # noqa: BLE001
            ck.trace()
            continue
        ck.fail("kd.utils.FiniteDiff:order", f"order {o} is not supported but returns {out}", dict(order=o))
    try:
        from kd.utils.solver import FiniteDifferenceOperator as FDO
        for o in (0, 5, -1):
            ck.visit(("fdo", o))
            try:
                out = FDO.diff(dense((6, 3)), 0.5, o)
            except Exception:  # noqa: BLE001
                ck.trace()
                continue
            ck.fail("FiniteDifferenceOperator:order", f"order {o} accepted", dict(order=o))
    except ImportError:
        pass
    from kd.model.discover.task.pde import utils_fd as fd
    for n, nd in (("Diff_2", 3), ("Diff2_2", 3), ("Diff_3", 4), ("Diff2_3", 4)):
        f = getattr(fd, n, None)
        if f is None:
            continue
        for axis in (0, nd, -1):
            ck.visit((n, axis))
            try:
                out = f(dense((4, 5, 4, 5)[:nd]), np.arange(5.0).reshape(-1, 1), name=axis)
            except Exception:  # noqa: BLE001
                ck.trace()
                continue
            # a time derivative (axis 0) or a negative axis may be supported, but then it must be right
            ck.fail(f"{n}:axis", f"axis {axis} is not supported but returns an array of shape {np.shape(out)}", dict(axis=axis))
    from kd.model.sga.sgapde import PDE_find as pf
    for n in ("Diff", "Diff2"):
        f = getattr(pf, n, None)
        if f is None:
            continue
        for nd in (1, 2, 3):
            for axis in (nd, nd + 1, "y" if nd == 2 else "x" if nd == 3 else "q"):
                ck.visit((n, nd, axis))
                try:
                    f(dense((5, 5, 5)[:nd]), 0.5, axis)
                except Exception:  # noqa: BLE001
                    ck.trace()
                    continue
                ck.fail(f"sga.{n}:axis", f"axis {axis!r} accepted for {nd} dimensions", dict(axis=axis, ndim=nd))
    for short in (1, 2):
        for n, mn in (("FiniteDiff", 3), ("FiniteDiff2", 4)):
            f = getattr(pf, n, None)
            if f is None:
                continue
            ck.visit((n, "short", short))
            try:
                f(np.arange(float(mn - short)), 0.5)
            except Exception:  # noqa: BLE001
                ck.trace()
                continue
            ck.fail(f"sga.{n}:short", f"{mn - short} points are too few", dict(n=mn - short))


# ------------------------------------------------------------- fields of one coordinate
def part_own(ck, _item):
    """d/dx of a field that depends on x alone is given on that coordinate only; on others it is zero."""
    from kd.model.discover.task.pde import utils_fd as fd
    for n, order, nd in (("Diff_2", 1, 3), ("Diff2_2", 2, 3), ("Diff_3", 1, 4), ("Diff2_3", 2, 4)):
        f = getattr(fd, n, None)
        if f is None:
            continue
        for axis in range(1, nd):
            for size in (4, 5, 7):
                for hh in SPACINGS:
                    for off in (0.0, -1.0, 3.0):
                        x = (off + hh * np.arange(size))
                        for k in range(0, 4):
                            if k > (2 if order == 1 else 3):
                                continue
                            shape = [1] * nd
                            shape[axis] = size
                            ck.visit((n, axis, size, hh, off, k))
                            u = (x ** k).reshape(shape)
                            want = (falling(k, order) * x ** max(k - order, 0)) if k >= order else np.zeros(size)
                            rep = dict(routine=n, axis=axis, size=size, spacing=hh, offset=off, degree=k)
                            with ck.case(f"{n}:own-coordinate", rep):
                                got = np.asarray(f(u, x.reshape(shape), name=axis))
                                ck.step()
                                ck.expect(np.allclose(got.ravel(), want, atol=1e-8), f"{n}:own-coordinate",
                                          f"d^{order}/dx^{order} of x^{k} on x = {x} is {got.ravel()}", rep)
                            ck.trace()


# ------------------------------------------------------------- polynomial and Tikhonov differentiation
def part_poly(ck, item):
    try:
        from kd.model.discover.task.pde import pde_find as df
    except ImportError:
        return
    deg, diff, width, n, hh, off = item
    x = off + hh * np.arange(n)
    rep = dict(deg=deg, diff=diff, width=width, n=n, spacing=hh, offset=off)
    ck.visit(item)
    for k in range(deg + 1):
        u = (x - off) ** k
        if hasattr(df, "PolyDiff"):
            with quiet(), ck.case("PolyDiff", rep):
                for form in ("flat", "column"):
                    uu, xx = (u, x) if form == "flat" else (u.reshape(-1, 1), x.reshape(-1, 1))
                    k1, k2 = uu.copy(), xx.copy()
                    got = df.PolyDiff(uu, xx, deg=deg, diff=diff, width=width)
                    ck.step()
                    ck.expect(np.array_equal(uu, k1) and np.array_equal(xx, k2), "PolyDiff:input-modified", "", rep)
                    if not ck.expect(np.shape(got) == (n - 2 * width, diff), "PolyDiff:shape", f"{np.shape(got)}", rep):
                        break
                    for d in range(1, diff + 1):
                        want = np.array([falling(k, d) * (v - off) ** (k - d) if k >= d else 0.0 for v in x[width:n - width]])
                        ck.expect(np.allclose(got[:, d - 1], want, atol=1e-6 * (1 + np.max(np.abs(u)) / abs(hh) ** d)),
                                  f"PolyDiff:{d}", f"derivative {d} of x^{k}: {got[:, d - 1]} vs {want}", rep)
        if hasattr(df, "PolyDiffPoint"):
            with quiet(), ck.case("PolyDiffPoint", rep):
                for index in [None] + list(range(n)):
                    got = df.PolyDiffPoint(u, x, deg=deg, diff=diff, index=index)
                    ck.step()
                    i = (n - 1) // 2 if index is None else index
                    want = [falling(k, d) * (x[i] - off) ** (k - d) if k >= d else 0.0 for d in range(1, diff + 1)]
                    ck.expect(np.allclose(got, want, atol=1e-6 * (1 + np.max(np.abs(u)) / abs(hh) ** diff)),
                              "PolyDiffPoint", f"index {index}, x^{k}: {got} vs {want}", rep)
    if deg == 1 and hasattr(df, "TikhonovDiff"):
        for lam in (1e-8, 1e-3, 1.0):
            for slope in (0.0, 1.0, -2.5):
                u = 0.7 + slope * (x - off)
                with quiet(), ck.case("TikhonovDiff", rep):
                    keep = u.copy()
                    got = np.asarray(df.TikhonovDiff(u, hh, lam))
                    ck.step()
                    ck.expect(np.array_equal(u, keep), "TikhonovDiff:input-modified", "", rep)
                    ck.expect(got.shape == (n,) and np.allclose(got, slope, atol=1e-4), "TikhonovDiff",
                              f"slope {slope}, lam {lam}: {got}", rep)
    ck.trace()


# ------------------------------------------------------------- automatic differentiation
def part_torch(ck, item):
    dims, powers, mode = item
    import torch
    from kd.model.discover.task.pde import utils_nn as nn_
    f = getattr(nn_, "torch_diff", None)
    lap = getattr(nn_, "Laplacian_t", None)
    if f is None:
        return
    ck.visit(item)
    pts = torch.tensor([[(-1.0 + 0.5 * i + 0.3 * j) for j in range(dims)] for i in range(5)], dtype=torch.float64)
    rep = dict(dims=dims, powers=powers, mode=mode)

    def expected(orders):
        v = np.ones(len(pts))
        for j in range(dims):
            k, o = powers[j], orders[j]
            v = v * (falling(k, o) * pts[:, j].numpy() ** max(k - o, 0) if k >= o else 0.0)
        return v.reshape(-1, 1)

    def field(parts):
        u = torch.ones(len(pts), 1, dtype=torch.float64)
        for j in range(dims):
            u = u * parts[j] ** powers[j]
        return u
    if mode == "columns":
        cols = [pts[:, j:j + 1].clone().requires_grad_(True) for j in range(dims)]
        u = field(cols)
        before = u.detach().clone()
        for j in range(dims):
            for o in range(1, 5):
                # autograd refuses to differentiate a constant once more
                with quiet(), ck.case("torch_diff", dict(rep, axis=j, order=o), allow=(RuntimeError,) if o > powers[j] else ()):
                    got = f(u, cols[j], order=o).detach().numpy()
                    ck.step()
                    want = expected([o if q == j else 0 for q in range(dims)])
                    ck.expect(got.shape == want.shape and np.allclose(got, want, atol=1e-8), f"torch_diff:{o}",
                              lambda: f"axis {j}: {got.ravel()} vs {want.ravel()}", dict(rep, axis=j, order=o))
        if lap is not None:
            with quiet(), ck.case("Laplacian_t", rep, allow=(RuntimeError,) if min(powers) < 2 else ()):
                got = lap(u, cols)
                again = lap(u, cols).detach().numpy()
                got = got.detach().numpy()
                ck.step(2)
                want = sum(expected([2 if q == j else 0 for q in range(dims)]) for j in range(dims))
                ck.expect(np.allclose(got, want, atol=1e-8), "Laplacian_t", lambda: f"{got.ravel()} vs {want.ravel()}", rep)
                ck.expect(np.allclose(again, want, atol=1e-8), "Laplacian_t:twice", lambda: f"{again.ravel()}", rep)
        ck.expect(torch.equal(u.detach(), before), "torch:input-modified", "", rep)
    else:
        p = pts.clone().requires_grad_(True)
        u = field([p[:, j:j + 1] for j in range(dims)])
        for j in range(dims):
            for o in range(1, 5):
                with quiet(), ck.case("torch_diff[dim]", dict(rep, axis=j, order=o),
                                      allow=(RuntimeError,) if o > powers[j] else ()):
                    got = f(u, p, order=o, dim=j).detach().numpy()
                    ck.step()
                    want = expected([o if q == j else 0 for q in range(dims)])
                    ck.expect(got.shape == want.shape and np.allclose(got, want, atol=1e-8), f"torch_diff[dim]:{o}",
                              lambda: f"axis {j}: {got.ravel()} vs {want.ravel()}", dict(rep, axis=j, order=o))
    ck.trace()


def run(ck):
    rs = routines()
    ck.notes["routines"] = len(rs)
    ck.part("operators")
    items = []
    for i, r in enumerate(rs):
        for axis in r.axes:
            top = max(r.min_n + 2, 6) + (2 if ck.thorough else 0) + (2 if r.margin > 1 else 0)
            for n in range(r.min_n, top + 1):
                for hh in SPACINGS if (ck.thorough or r.ndim < 4) else SPACINGS[1:3]:
                    items.append((i, axis, n, hh))
    ck.pool(part_operators, sorted(items, key=lambda i: h(str(i))))
    ck.part("laplacians")
    items = []
    for s in itertools.product((3, 4, 5), repeat=2):
        for st in ((1.0, 0.5), (0.5, 2.0), (-0.25, 1.0)):
            items.append(("Laplace", (2,) + s, st))
    for s in itertools.product((4, 5), repeat=3) if not ck.thorough else itertools.product((4, 5, 6), repeat=3):
        items.append(("Laplace_3", (2,) + s, (0.5, 1.0, 2.0)))
    ck.pool(part_laplace, sorted(items, key=lambda i: h(str(i))))
    ck.part("refused")
    part_refused(ck, None)
    ck.part("own coordinate")
    with quiet():
        part_own(ck, None)
    ck.part("polynomial fits")
    items = [(dg, df_, w, n, hh, off) for dg in (1, 2, 3, 4) for df_ in range(1, dg + 1) for w in (2, 3) if 2 * w >= dg
             for n in (2 * w + 1, 2 * w + 3) for hh in (1.0, 0.25) for off in (0.0, 2.0)]
    ck.pool(part_poly, sorted(items, key=lambda i: h(str(i))))
    ck.part("automatic differentiation")
    items = [(d, p, m) for d in (1, 2, 3) for p in itertools.product(range(1, 5 if d < 3 else 4), repeat=d)
             for m in ("columns", "matrix")]
    ck.pool(part_torch, sorted(items, key=lambda i: h(str(i))))
    ck.assumptions.append("fields are determined by their values on the grid; linearity over pairs of impulses and the "
                          "listed dense fields stands for linearity over all fields")
