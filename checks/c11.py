"""C11: no stage of any model changes what the caller handed in.

Explicit-state exploration: the state is the content of every object the caller owns (raw arrays,
the arrays they are views of, the dataset, operator lists, configuration dicts); the transitions are
the stages of the models.  The property is that every transition leaves that state where it was, and
that what a stage computes depends on its own model's history alone.
"""
import copy
import itertools
import logging
import os
import pathlib
import random
import shutil
import tempfile

try:
    import triton._C.libtriton  # noqa: F401  (must be loaded before TensorFlow)
except Exception:  # noqa: BLE001
    pass
import numpy as np

from checks.c06 import canon, difference
from checks.c08 import IDS, coords_for, field_on
from mc.core import h, quiet

SIZES = {"x": 9, "y": 8, "z": 8, "t": 10}

# name -> (axes, fields, target, lhs, params, legacy constructor)
SHAPES = {
    "D1": ("xt", ("u",), "u", "t", (), "xyz"),
    "D1d": ("xt", ("u",), "u", "t", (), "dict"),
    "D1p": ("xt", ("u",), "u", "t", ("k",), "xyz"),
    "D1n": ("xt", ("u",), "u", "t", (), None),
    "Dtx": ("tx", ("u",), "u", "t", (), None),
    "D1np": ("xt", ("u", "v"), "v", "t", ("k", "nu"), None),
    "D2": ("xyt", ("u", "v"), "u", "t", (), None),
    "D2p": ("xyt", ("u",), "u", "t", ("k",), None),
    "D3": ("xyzt", ("u",), "u", "t", (), None),
}
LAYOUTS = ["C", "F", "view", "back", "f32", "int", "desc"]


def laid_out(a, layout):
    """(the array handed in, the array that owns its memory)."""
    a = np.asarray(a, float)
    if layout == "F":
        b = np.asfortranarray(a)
        return b, b
    if layout == "view":
        big = np.full(tuple(2 * n for n in a.shape), -7.5)
        v = big[tuple(slice(None, None, 2) for _ in a.shape)]
        v[...] = a
        return v, big
    if layout == "back":
        big = a[tuple(slice(None, None, -1) for _ in a.shape)].copy()
        return big[tuple(slice(None, None, -1) for _ in a.shape)], big
    if layout == "f32":
        b = a.astype(np.float32)
        return b, b
    if layout == "int":
        b = np.round(a * 10).astype(np.int64)
        return b, b
    b = a.copy()
    return b, b


class World:
    """Everything the caller owns."""

    def __init__(self, name, layout="C"):
        from kd.dataset import PDEDataset
        axes, fields, target, lhs, params, legacy = SHAPES[name]
        self.axes, self.name, self.layout = axes, name, layout
        coords = coords_for(axes, SIZES, down="x" if layout == "desc" else ())
        self.raw, self.own = {}, {}

        def keep(key, a, lay=layout):
            self.raw[key], self.own[key] = laid_out(a, lay)
            return self.raw[key]

        # coordinates stay equidistant in whatever number type they come
        c = {a: keep("coord " + a, v if layout != "int" else np.arange(len(v)) / 10.0,
                     "C" if layout == "desc" else layout) for a, v in coords.items()}
        f = {n: keep("field " + n, field_on(axes, coords, IDS[n])) for n in fields}
        p = {n: keep("param " + n, field_on(axes, coords, IDS[n])) for n in params}
        self.lists = {"axis_order": list(axes), "fields": f, "coords": c, "params": p,
                      "domain": {"x": (1.2, 1.9), "t": (0.1, 0.6)},
                      "operators": ["u", "u_x", "u_xx"], "binary": ["add", "mul", "diff"], "unary": ["n2"],
                      "binary_t": ["add_t", "mul_t", "diff_t"], "unary_t": ["n2_t"],
                      "config": {"task": {"max_depth": 3}, "controller": {"num_units": 4},
                                 "training": {"epsilon": 0.2}},
                      "config_t": {"pinn": {"n_hidden": 4, "number_layer": 2, "iter_num": 1, "pretrain_epoch": 1,
                                            "pinn_epoch": 2, "duration": 1, "coll_data": 20},
                                   "controller": {"num_units": 4}},
                      "config_r": {"task": {"threshold": 0.9}, "controller": {"num_units": 4}},
                      "extra": {"maxsize": 9, "nested": [1, 2]},
                      "names": ["first", "second"],
                      "domains": {"lb": [0.0, 0.0], "ub": [2.0, 2.0]}}
        kw = {"domain": self.lists["domain"], "param_fields": p or None}
        if legacy == "xyz":
            self.ds = PDEDataset("mc-case", x=c["x"], t=c["t"], usol=f["u"], **kw)
        elif legacy == "dict":
            self.lists["pde_data"] = {"x": c["x"], "t": c["t"], "usol": f["u"], "note": "mine"}
            self.ds = PDEDataset("mc-case", pde_data=self.lists["pde_data"], **kw)
        else:
            self.ds = PDEDataset("mc-case", fields_data=f, coords_1d=c, axis_order=self.lists["axis_order"],
                                 target_field=target, lhs_axis=lhs, **kw)
        # arrays for the models that take them directly
        n = 14
        X = np.sin(np.arange(2 * n, dtype=float)).reshape(n, 2) + 1.5
        self.X, self.y = keep("X", X), keep("y", (X[:, 0] * 2 + X[:, 1])[:, None])
        self.Xnew = keep("X new", X[:5] + 0.25)
        self.flat = keep("y flat", X[:, 1] ** 2)
        lo, hi = X.min(0) - 0.5, X.max(0) + 0.5
        self.lb, self.ub = keep("lower", lo), keep("upper", hi)
        self.lists["bounds"] = [self.lb, self.ub]
        self.attrs = [k for k in vars(self.ds) if not k.startswith("_")]
        self.first = self.snapshot()

    def snapshot(self):
        out = {"raw " + k: (v.strides, v.flags.writeable, canon(v)) for k, v in self.raw.items()}
        out.update({"memory " + k: canon(v) for k, v in self.own.items()})
        for k, v in self.lists.items():
            out["given " + k] = ordered(v)
        for k in self.attrs:
            out["dataset " + k] = ordered(vars(self.ds).get(k, "missing"))
        return out

    def moved(self):
        now = self.snapshot()
        return sorted(k for k in self.first if now[k] != self.first[k])


def ordered(v):
    """Content including the order of the keys."""
    if isinstance(v, dict):
        return [(str(k), ordered(x)) for k, x in v.items()]
    if isinstance(v, (list, tuple)):
        return [type(v).__name__] + [ordered(x) for x in v]
    return canon(v)


# ------------------------------------------------------------------ the stages of the models

def seeded():
    import torch
    random.seed(5)
    np.random.seed(5)
    torch.manual_seed(5)


REFUSED = "refused: "


class Running:
    """One estimator per kind, working on the caller's objects."""

    def __init__(self, kind, w):
        self.kind, self.w = kind, w
        self.m = self.make()
        self.given = {}

    def make(self):
        w, L = self.w, self.w.lists
        if self.kind == "dlga":
            from kd.model import KD_DLGA
            m = KD_DLGA(operators=L["operators"], epi=0.1, input_dim=2, verbose=False, max_iter=2)
            m.pop_size, m.n_generations = 6, 1
            return m
        if self.kind == "sga":
            return None
        if self.kind == "disc":
            from kd.model import KD_Discover
            return KD_Discover(n_iterations=1, n_samples_per_batch=5, binary_operators=L["binary"],
                               unary_operators=L["unary"], config_out=L["config"], out_path="out/log0")
        if self.kind == "spr":
            from kd.model import KD_Discover_SPR
            m = KD_Discover_SPR(n_iterations=1, n_samples_per_batch=5, binary_operators=L["binary_t"],
                                unary_operators=L["unary_t"], config_out=L["config_t"], out_path="out/log0")
            if hasattr(m, "make_pinn_model"):
                real = m.make_pinn_model

                def short():
                    p = real()
                    p.pretrain_epoch = 3
                    return p
                m.make_pinn_model = short
            return m
        if self.kind == "reg":
            from kd.model.kd_discover_regression import KD_Discover_Regression
            return KD_Discover_Regression(n_iterations=1, n_samples_per_batch=5, config_out=L["config_r"],
                                          out_path="out/log0")
        from kd.model.kd_pysr import KD_PySR
        return KD_PySR(binary_operators=L["binary"], unary_operators=L["unary"], extra_model_kwargs=L["extra"])

    def do(self, stage):
        """A stage that refuses (judged by other properties) must leave everything alone as well."""
        seeded()
        try:
            return canon(getattr(self, self.kind + "_" + stage)())
        except (Exception, SystemExit) as e:  # noqa: BLE001
            return REFUSED + type(e).__name__

    # DLGA
    def dlga_out(self):
        m = self.m
        return [str(m.Chrom), canon(m.metadata), canon(np.asarray(m.train_loss_history[-1]))]

    def dlga_full(self):
        self.m = self.make()
        self.m.fit_dataset(self.w.ds)
        return self.dlga_out()

    def dlga_again(self):
        self.m.fit_dataset(self.w.ds)
        return self.dlga_out()

    def dlga_some(self):
        self.m = self.make()
        self.m.fit_dataset(self.w.ds, sample=20)
        return self.dlga_out()

    def dlga_part(self):
        self.m = self.make()
        self.m.fit_dataset(self.w.ds, sample=0.4, sample_method="uniform")
        return self.dlga_out()

    def dlga_mesh(self):
        self.m = self.make()
        self.m.fit_dataset(self.w.ds, sample=20, Xy_from="mesh")
        return self.dlga_out()

    def dlga_raw(self):
        self.m = self.make()
        self.m.fit(self.w.X, self.w.y)
        return self.dlga_out()

    def dlga_predict(self):
        return self.m.predict(self.w.Xnew)

    def dlga_plots(self):
        return plots(self.m, self.w, ["training_curve", "validation_curve", "search_evolution", "optimization",
                                      "equation", "residuals", "field_comparison", "time_slices",
                                      "derivative_relationships", "parity"])

    # SGA
    def sga_run(self, **kw):
        from kd.model import KD_SGA
        self.m = KD_SGA(sga_run=1, num=2, depth=2, width=2, seed=1, max_epoch=2, **kw)
        self.m.fit_dataset(self.w.ds)
        return [str(self.m.best_pde_), float(self.m.best_score_)]

    def sga_fit(self):
        return self.sga_run()

    def sga_edges(self):
        return self.sga_run(delete_edges=True)

    def sga_auto(self):
        return self.sga_run(use_autograd=True) if len(self.w.axes) == 2 else None

    def sga_meta(self):
        """High-resolution data from a network the user trained beforehand."""
        if len(self.w.axes) != 2 or self.w.axes != "xt":
            return None
        import torch
        from kd.model.sga.adapter import SGADataAdapter
        from kd.model.sga.sgapde.config import SolverConfig
        from kd.model.sga.sgapde.context import ProblemContext  # noqa: F401
        import kd.model.sga.sgapde.context as ctx
        kw = SGADataAdapter(self.w.ds).to_solver_kwargs()
        kw.pop("problem_name", None)
        c = SolverConfig(problem_name="mc-case", max_epoch=2, **kw)
        if not hasattr(ctx, "Net") or not getattr(c, "model_path", None):
            return None
        torch.save(ctx.Net(c.num_feature, c.hidden_dim, 1).state_dict(), c.model_path)
        return self.sga_run(use_metadata=True)

    def sga_latex(self):
        return [self.m.equation_latex(), self.m.equation_structure_latex(), self.m.plot_results()]

    def sga_plots(self):
        return plots(self.m, self.w, ["equation", "residuals", "field_comparison", "time_slices", "parity",
                                      "derivative_relationships"])

    # DISCOVER on the full grid
    def disc_imp(self):
        self.m.import_dataset(self.w.ds)
        return canon(self.m.data_class.get_data())

    def disc_setup(self):
        self.m.setup()
        return canon(self.m.data_class.get_data())

    def disc_train(self):
        r = self.m.train(n_epochs=1, verbose=False)
        self.m.best_p = [r["program"]]
        return [r["expression"], float(r["r"])]

    def disc_fit(self):
        r = self.m.fit_dataset(self.w.ds, n_epochs=1, verbose=False)
        return [r["expression"], float(r["r"])]

    def disc_plots(self):
        return plots(self.m, self.w, ["equation", "search_evolution", "parity", "residuals", "field_comparison"])

    # DISCOVER with a network
    def spr_imp(self):
        self.m.import_dataset(self.w.ds, sample=20, colloc_num=12, random_state=3)
        return canon(self.m.data_class.get_data())

    def spr_noisy(self):
        self.m.import_dataset(self.w.ds, sample=20, colloc_num=12, random_state=3, noise_level=0.3, data_ratio=0.5)
        return canon(self.m.data_class.get_data())

    def spr_cut(self):
        self.m.import_dataset(self.w.ds, sample_ratio=0.3, colloc_num=12, random_state=3, cut_quantile=0.2)
        return canon(self.m.data_class.get_data())

    def spr_setup(self):
        self.m.setup()
        return canon(self.m.data_class.get_data())

    def spr_train(self):
        r = self.m.train(n_epochs=1, verbose=False)
        return [r["expression"], round(float(r["r"]), 6)]

    def spr_fit(self):
        r = self.m.fit_dataset(self.w.ds, n_epochs=1, verbose=False, sample=20, colloc_num=12, random_state=3)
        return [r["expression"], round(float(r["r"]), 6)]

    def spr_raw(self):
        self.m.fit(self.w.X, self.w.y, self.w.lists["bounds"], n_epochs=1, verbose=False)

    def spr_plots(self):
        return plots(self.m, self.w, ["equation", "search_evolution", "parity"])

    # regression
    def reg_fit(self):
        r = self.m.fit(self.w.X, self.w.y, self.w.lists["names"], verbose=False)
        return [str(r.get("expression")) if isinstance(r, dict) else str(r)[:80]]

    def reg_flat(self):
        r = self.m.fit(self.w.X, self.w.flat, verbose=False)
        return [str(r.get("expression")) if isinstance(r, dict) else str(r)[:80]]

    def reg_predict(self):
        return self.m.predict(self.w.Xnew)

    def pysr_fit(self):
        self.m.fit(self.w.X, self.w.y)

    def pysr_flat(self):
        self.m.fit(self.w.X, self.w.flat)

    def pysr_predict(self):
        return self.m.predict(self.w.Xnew)

    def pysr_plots(self):
        return plots(self.m, self.w, ["equation", "parity", "residuals"])


FIRST = {"dlga": ["full", "some", "part", "mesh", "raw"], "sga": ["fit", "edges", "auto", "meta"],
         "disc": ["imp", "fit"], "spr": ["imp", "noisy", "cut", "fit", "raw"], "reg": ["fit", "flat"],
         "pysr": ["fit", "flat"]}
THEN = {"dlga": ["again", "predict", "plots"], "sga": ["latex", "plots"], "disc": ["setup", "train", "plots"],
        "spr": ["setup", "train", "plots"], "reg": ["predict"], "pysr": ["predict", "plots"]}
DATASETS = {"dlga": ["D1", "D1d", "D1p", "D1n", "Dtx"], "sga": list(SHAPES), "disc": list(SHAPES),
            "spr": list(SHAPES), "reg": ["D1"], "pysr": ["D1"]}


def plots(m, w, wanted):
    """Every picture of a fitted model, over the caller's own arrays.  What a picture shows is another property."""
    import kd.viz as viz
    import matplotlib.pyplot as plt
    r, seen = w.raw, []
    field, x, t = r["field u"] if "field u" in r else None, r.get("coord x"), r.get("coord t")
    two = len(w.axes) == 2 and w.axes == "xt"
    calls = {
        "training_curve": lambda: viz.plot_training_curve(m),
        "validation_curve": lambda: viz.plot_validation_curve(m),
        "search_evolution": lambda: viz.plot_search_evolution(m),
        "optimization": lambda: viz.plot_optimization(m),
        "equation": lambda: viz.render_equation(m),
        "parity": lambda: viz.plot_parity(m),
        "derivative_relationships": lambda: viz.plot_derivative_relationships(m),
        "residuals": lambda: viz.plot_residuals(m, actual=w.y, predicted=w.flat, coordinates=w.X),
        "field_comparison": lambda: two and viz.plot_field_comparison(
            m, x_coords=x, t_coords=t, true_field=field, predicted_field=r.get("param k", field)),
        "time_slices": lambda: two and viz.plot_time_slices(
            m, x_coords=x, t_coords=t, true_field=field, predicted_field=r.get("param k", field),
            slice_times=w.lists["bounds"][0]),
    }
    for name in wanted:
        try:
            res = calls[name]()
            seen.append((name, bool(res) and not res.warnings))
        except Exception as e:  # noqa: BLE001
            seen.append((name, type(e).__name__))
        plt.close("all")
    return seen


class Backend:
    """Stands in for PySRRegressor."""

    def __init__(self, **kw):
        self.kw = kw

    def fit(self, X, y):
        self.c = np.linalg.lstsq(np.asarray(X, float), np.asarray(y, float), rcond=None)[0]

    def predict(self, X):
        return np.asarray(X, float) @ self.c

    def sympy(self):
        import sympy
        return sympy.Symbol("x0") * 2

    def latex(self):
        return "2 x_0"

    def get_best(self):
        return {"equation": "2*x0"}


def sequences(kind, depth):
    out = []
    for n in range(1, depth + 1):
        for seq in itertools.product(FIRST[kind] + THEN[kind], repeat=n):
            if seq[0] in FIRST[kind]:
                out.append(seq)
    return out


@np.errstate(all="ignore")
def in_scratch(ck, cases, fn):
    import types
    from checks.c12 import stand_in
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.figure
    import kd.viz as viz
    from kd.model import kd_pysr
    real = matplotlib.figure.Figure.savefig
    layout = matplotlib.figure.Figure.tight_layout
    sdk = types.ModuleType("pysr")
    sdk.PySRRegressor = Backend

    def small(self, fname, **kw):
        pathlib.Path(fname).touch()

    def one(sub, case):
        d = tempfile.mkdtemp(prefix="c11-")
        cwd = os.getcwd()
        os.chdir(d)
        matplotlib.figure.Figure.savefig = small
        matplotlib.figure.Figure.tight_layout = lambda self, **kw: None
        viz.configure(save_dir=pathlib.Path(d) / "viz")
        if hasattr(kd_pysr, "_PySRRegressor"):
            kd_pysr._PySRRegressor = None
        try:
            with stand_in("pysr", sdk):
                fn(sub, case)
        finally:
            matplotlib.figure.Figure.savefig = real
            matplotlib.figure.Figure.tight_layout = layout
            os.chdir(cwd)
            shutil.rmtree(d, ignore_errors=True)
            if hasattr(kd_pysr, "_PySRRegressor"):
                kd_pysr._PySRRegressor = None
    ck.pool(one, cases)


def unmoved(ck, w, key, rep):
    m = w.moved()
    return ck.expect(not m, key + ":" + (m[0] if m else ""), lambda: f"changed by {rep}: {m[:6]}", rep)


def one_model(ck, case):
    kind, name, layout, seq = case
    rep = {"model": kind, "dataset": name, "layout": layout, "stages": list(seq)}
    ck.visit(case)
    with ck.case(f"{kind}:{seq[-1]}", rep, timeout=120), quiet():
        w = World(name, layout)
        r = Running(kind, w)
        for i, s in enumerate(seq):
            got = r.do(s)
            ck.step()
            ran = not (isinstance(got, str) and got.startswith(REFUSED))
            ck.notes["stages completed" if ran else "stages refused"] = ck.notes.get(
                "stages completed" if ran else "stages refused", 0) + 1
            ck.outcome((kind, s, ran))
            if os.environ.get("MC_VERBOSE") and not ran:
                import sys
                print("REFUSED", kind, name, layout, seq[:i + 1], got, file=sys.stderr)
            if not unmoved(ck, w, f"{kind}:{s}", dict(rep, stage=i)):
                return
        ck.trace()
        ck.sample(rep)


_ALONE = {}


def together(ck, case):
    """Two or three estimators work in turns on one dataset: each computes what it computes alone."""
    name, layout, kinds, order, stages = case
    rep = {"dataset": name, "layout": layout, "models": list(kinds), "turns": list(order)}
    ck.visit(case)
    with ck.case("+".join(kinds), rep, timeout=180), quiet():
        w = World(name, layout)
        running = [Running(k, w) for k in kinds]
        at = [0] * len(kinds)
        for turn in order:
            kind, stage = kinds[turn], stages[turn][at[turn]]
            got = running[turn].do(stage)
            at[turn] += 1
            ck.step()
            if not unmoved(ck, w, f"{kind}:{stage}", rep):
                return
            mine = tuple(stages[turn][:at[turn]])
            fk = (name, layout, kind, mine)
            if fk not in _ALONE:
                a = Running(kind, World(name, layout))
                for s in mine:
                    want = a.do(s)
                _ALONE[fk] = want
            d = difference(got, _ALONE[fk])
            ck.expect(d is None, f"{kind}:{stage}:result", lambda: f"{rep}: stage {at[turn]} of {kind} alone gives "
                      f"something else: {d}", rep)
        ck.trace()
        ck.outcome((kinds, order))
        ck.sample(rep)


TURNS = {"dlga": ["full", "plots", "some"], "sga": ["fit", "plots", "edges"], "disc": ["imp", "fit", "plots"],
         "spr": ["imp", "fit", "noisy"]}


def interleavings(n):
    """All orders of the steps of several estimators with n[i] steps each."""
    if not any(n):
        yield ()
        return
    for i, k in enumerate(n):
        if k:
            rest = list(n)
            rest[i] -= 1
            for tail in interleavings(rest):
                yield (i,) + tail


# ------------------------------------------------------------------ the dataset's own methods

def accessors(w):
    ds = w.ds
    box = ((1.0, 2.0), (0.0, 1.0))
    return {
        "mesh": lambda: ds.mesh(), "mesh xy": lambda: ds.mesh(indexing="xy"), "bounds": lambda: ds.mesh_bounds(),
        "boundaries": lambda: ds.get_boundaries(), "domain": lambda: ds.get_domain(),
        "d/dx": lambda: ds.get_derivative("x"), "d/dt": lambda: ds.get_derivative("t"),
        "range": lambda: ds.get_range(*box), "point": lambda: ds.get_datapoint(1, 2), "size": lambda: ds.get_size(),
        "random": lambda: ds.sample(12), "ratio": lambda: ds.sample(0.3), "uniform": lambda: ds.sample(16, "uniform"),
        "all": lambda: ds.sample(1.0), "data": lambda: ds.get_data(), "repr": lambda: repr(ds),
        "item": lambda: ds["usol"],
    }


def dataset_part(ck, case):
    name, layout, seq = case
    rep = {"dataset": name, "layout": layout, "calls": list(seq)}
    ck.visit(case)
    with ck.case(f"dataset:{seq[-1]}", rep), quiet():
        w = World(name, layout)
        first = {}
        for op in seq:
            seeded()
            try:
                got = accessors(w)[op]()
            except Exception as e:      # noqa: BLE001  (a method this dataset does not have axes for)
                got = REFUSED + type(e).__name__
            ck.step()
            c = canon(got)
            if not unmoved(ck, w, f"dataset:{op}", rep):
                return
            ck.expect(first.setdefault(op, c) == c, f"dataset:{op}:result", f"{rep}: another answer the "
                      f"second time", rep)
        ck.trace()
        ck.sample(rep)


# ------------------------------------------------------------------ a solver configuration of the caller's

def config_state(c):
    out = {}
    for k, v in vars(c).items():
        if isinstance(v, dict):
            out[k] = [(n, net_state(x)) for n, x in v.items()]
        else:
            out[k] = net_state(v)
    return out


def net_state(x):
    if hasattr(x, "state_dict"):
        return [id(x)] + [canon(v.detach().numpy()) for v in x.state_dict().values()]
    return ordered(x)


def configurations(ck, case):
    """A configuration is read, not used as a scratch pad: the second context equals the first."""
    data, edges, par, auto, order, rounds = case
    rep = dict(data=data, delete_edges=edges, params=par, autograd=auto, axes="".join(order), contexts=rounds)
    ck.visit(case)
    with ck.case("configuration:" + data, rep, timeout=120), quiet():
        import torch
        from kd.model.sga.sgapde.config import SolverConfig
        from kd.model.sga.sgapde.context import ProblemContext
        n = {"x": 14, "t": 11}
        c = {a: np.linspace(0.0, 1.0, n[a]) for a in order}
        g = np.meshgrid(*[c[a] for a in order], indexing="ij")
        u = np.sin(2 * g[0] + 0.3) * (1.2 + g[1] ** 2)
        kw = dict(problem_name="mc-case", max_epoch=2, seed=3, delete_edges=edges, hidden_dim=4)
        if data == "arrays":
            kw.update(u_data=u, x_data=c["x"], t_data=c["t"])
        else:
            kw.update(fields_data={"u": u, **({"v": u + 1} if data == "fields" else {})}, coords_1d=c,
                      axis_order=list(order))
        if par:
            kw["param_fields"] = {"k": u * 0.5 + 2.0}
        if auto != "no":
            kw["use_autograd"] = True
            net = torch.nn.Sequential(torch.nn.Linear(2, 4), torch.nn.Tanh(), torch.nn.Linear(4, 1))
        conf = SolverConfig(**kw)
        if auto == "models":
            conf.autograd_models = {"u": net}
        elif auto == "empty":
            conf.autograd_models, conf.autograd_model_paths = {}, {}
        elif auto == "one":
            conf.autograd_model = net
            conf.autograd_models = {}
        conf.autograd_fields = ["u"] if auto != "no" else getattr(conf, "autograd_fields", None)
        first, seen = config_state(conf), []
        for k in range(rounds):
            seeded()
            try:
                ctx = ProblemContext(conf)
                params = getattr(ctx.config, "param_fields", None)
                got = [canon(ctx.u), canon(ctx.fields), canon(ctx.coords_1d), canon(params)]
            except Exception as e:  # noqa: BLE001
                got = REFUSED + type(e).__name__
            ck.step()
            ck.outcome((case[:-1], str(got)[:40]))
            now = config_state(conf)
            moved = sorted(a for a in set(now) | set(first) if now.get(a, "-") != first.get(a, "-"))
            ck.expect(not moved, "configuration:" + data, lambda: f"{rep}: after {k + 1} contexts the caller's "
                      f"configuration has another {moved[:4]}", rep)
            seen.append(got)
            ck.expect(got == seen[0], "configuration:" + data + ":repeat",
                      lambda: f"{rep}: context {k + 1} is not the first: {difference(got, seen[0])}", rep)
        if os.environ.get("MC_VERBOSE") and isinstance(seen[0], str):
            import sys
            print("REFUSED", rep, seen[0], file=sys.stderr)
        ck.trace()
        ck.sample(rep)


def run(ck):
    logging.disable(logging.CRITICAL)
    import warnings
    warnings.simplefilter("ignore")
    import torch
    torch.set_num_threads(1)
    import kd.model  # noqa: F401
    import kd.viz  # noqa: F401
    from kd.model import kd_pysr  # noqa: F401
    deep = ck.thorough

    ck.part("dataset methods")
    ops = list(accessors(World("D1")))
    cases = [(n, lay, seq) for n in SHAPES for lay in LAYOUTS for k in (1, 2, 3)
             if k < 3 or (lay == "C" and n == "D1") or (deep and n in ("D1", "Dtx", "D2p"))
             for seq in itertools.product(ops, repeat=k)]
    ck.pool(dataset_part, cases)

    ck.part("solver configurations")
    cases = [(d, e, p, a, o, 3 if deep else 2) for d in ("arrays", "field", "fields") for e in (False, True)
             for p in (False, True) for a in ("no", "models", "empty", "one")
             for o in (("x", "t"), ("t", "x")) if d != "arrays" or o == ("x", "t")]
    in_scratch(ck, cases, configurations)

    # compile and import everything once, before the workers are forked
    with quiet():
        in_scratch_warm()

    ck.part("stages of one model")
    cases = []
    for kind in FIRST:
        light = kind in ("reg", "pysr")
        for i, name in enumerate(DATASETS[kind]):
            for lay in LAYOUTS:
                depth = 1 + (lay in ("C", "view") and i == 0) + deep + (light and lay in ("C", "view"))
                seqs = sequences(kind, depth)
                if depth == 1:
                    # every follow-up stage once behind the first way of loading data
                    seqs += [(FIRST[kind][0], s) for s in THEN[kind]]
                cases += [(kind, name, lay, seq) for seq in seqs]
    in_scratch(ck, maximal(cases), one_model)

    ck.part("models taking turns")
    cases = []
    n = 3 if deep else 2
    for name, lay in [("D1", "C"), ("D1p", "view"), ("D1np", "F"), ("D1d", "back")][:4 if deep else 2]:
        for kinds in itertools.product(TURNS, repeat=2):
            st = tuple(tuple(TURNS[k][:n]) for k in kinds)
            cases += [(name, lay, kinds, o, st) for o in interleavings([n, n])]
    for name in ("D2", "D2p", "D3"):
        for kinds in itertools.product([k for k in TURNS if k != "dlga"], repeat=2):
            st = tuple(tuple(TURNS[k][:2]) for k in kinds)
            cases += [(name, "view", kinds, o, st) for o in interleavings([2, 2])]
    for kinds in itertools.permutations(TURNS, 3):
        st = tuple((TURNS[k][1 if k in ("disc", "spr") else 0],) for k in kinds)
        cases += [("D1n", "C", kinds, o, st) for o in interleavings([1, 1, 1])]
    in_scratch(ck, cases, together)
    ck.assumptions += [
        "networks are trained for one or two steps and searches run for one generation: the stages are the real ones, "
        "their length is not; the PySR back end is a stand-in",
        "what a picture shows is not judged here, only that drawing it leaves the caller's arrays alone"]


def maximal(cases):
    """A sequence that another one continues is not run again: its states are visited on the way."""
    seen = set()
    for c in cases:
        for n in range(1, len(c[3])):
            seen.add((c[0], c[1], c[2], c[3][:n]))
    return [c for c in cases if c not in seen]


def in_scratch_warm():
    d = tempfile.mkdtemp(prefix="c11-")
    cwd = os.getcwd()
    os.chdir(d)
    try:
        w = World("D1")
        for kind, stage in (("disc", "fit"), ("spr", "fit")):
            try:
                Running(kind, w).do(stage)
            except Exception:  # noqa: BLE001
                pass
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)
