"""C24 - plot requests reach the right adapter and report unsupported ones.

registry   every history (depth 4 / 5) of registering, replacing, lazily registering, removing,
           clearing and requesting over a class lattice with single, multiple and virtual
           inheritance and a name clash; after each history every class of the lattice is asked.
isolation  every history (depth 3 / 4) of configuring, plotting with styles, output directories,
           unknown style keys, failing and re-entrant adapters.
api        every plot function with every subset of its optional arguments.
adapters   every shipped adapter, every intent, fitted and bare models, all pairs of requests
           that differ in data and destination: files, contents and answers.
"""
from __future__ import annotations

import abc
import hashlib
import itertools
import os
import pathlib
import shutil
import tempfile

import numpy as np

from mc.core import Check, quiet

INTENTS = ["training_curve", "validation_curve", "search_evolution", "optimization",
           "time_slices", "equation", "residual", "field_comparison",
           "derivative_relationships", "parity"]


# ------------------------------------------------------------------ lattice
class Base:
    pass


class Mid(Base):
    pass


class Leaf(Mid):
    pass


class Right(Base):
    pass


class Diamond(Right, Mid):
    pass


class Virtual(abc.ABC):
    pass


class Duck:
    pass


class SubVirtual(Virtual):
    pass


Virtual.register(Duck)
Clash = type("Mid", (), {})
LATTICE = {"Base": Base, "Mid": Mid, "Leaf": Leaf, "Right": Right, "Diamond": Diamond,
           "Duck": Duck, "Clash": Clash, "Virtual": Virtual}


class Adapter:
    def __init__(self, name, supports=("ex",)):
        self.name = name
        self.capabilities = set(supports) | {"id:" + name}
        self.calls = []

    def render(self, request, ctx):
        from kd.viz import VizResult
        self.calls.append((request, ctx))
        return VizResult(intent=request.kind, metadata={"by": self.name})


def new_adapters():
    return {n: Adapter(n) for n in ("B", "M", "L", "R", "V", "Z")} | {"N": Adapter("N", ())}


REG_OPS = [("reg", "Base", "B"), ("reg", "Mid", "M"), ("reg", "Mid", "N"), ("reg", "Leaf", "L"),
           ("reg", "Right", "R"), ("reg", "Virtual", "V"), ("lazy", "Mid", "Z"),
           ("lazynone", "Leaf", None), ("unreg", "Base", None), ("unreg", "Mid", None),
           ("unreg", "Leaf", None), ("unreg", "Clash", None), ("ask", "Leaf", None),
           ("ask", "Mid", None), ("ask", "Clash", None), ("clear", None, None)]


class RefRegistry:
    def __init__(self):
        self.eager, self.lazy = {}, {}

    def apply(self, op):
        k, c, a = op
        if k == "reg":
            self.eager[LATTICE[c]] = a
        elif k == "lazy":
            self.lazy[LATTICE[c]] = a
        elif k == "unreg":
            self.eager.pop(LATTICE[c], None)
            self.lazy.pop(LATTICE[c], None)
        elif k == "clear":
            self.eager, self.lazy = {}, {}

    def find(self, cls):
        for c in cls.__mro__:
            if c in self.eager:
                return self.eager[c]
            if c in self.lazy:
                return self.lazy[c]
        if issubclass(cls, Virtual) and Virtual in self.eager:
            return self.eager[Virtual]
        return None

    def key(self):
        return (tuple(sorted((c.__qualname__, a) for c, a in self.eager.items())),
                tuple(sorted((c.__qualname__, a) for c, a in self.lazy.items())))


def apply_real(viz, registry, op, ads):
    k, c, a = op
    if k == "reg":
        viz.register_adapter(LATTICE[c], ads[a])
    elif k == "lazy":
        registry.register_lazy_adapter(LATTICE[c].__name__, lambda: (LATTICE[c], ads[a]))
    elif k == "lazynone":
        registry.register_lazy_adapter(LATTICE[c].__name__, lambda: (None, None))
    elif k == "unreg":
        viz.unregister_adapter(LATTICE[c])
    elif k == "ask":
        viz.list_capabilities(LATTICE[c]())
    elif k == "clear":
        viz.clear_registry()


def registry_part(ck: Check, prefix):
    import kd.viz as viz
    from kd.viz import registry
    depth = 5 if ck.thorough else 4
    rest = depth - len(prefix)
    tails = itertools.chain.from_iterable(itertools.product(REG_OPS, repeat=n)
                                          for n in range(0 if rest else 0, rest + 1))
    try:
        for tail in tails:
            hist = tuple(prefix) + tail
            if tail and tail[-1][0] == "ask" and len(hist) < depth:
                pass
            viz.clear_registry()
            ads, ref = new_adapters(), RefRegistry()
            with ck.case("history", replay=[list(map(str, o)) for o in hist]):
                for op in hist:
                    apply_real(viz, registry, op, ads)
                    ref.apply(op)
                    ck.step()
                ck.visit(ref.key())
                ck.trace()
                for name, cls in LATTICE.items():
                    want = ref.find(cls)
                    target = cls if name == "Virtual" else cls()
                    caps = set(viz.list_capabilities(target))
                    got = sorted(c[3:] for c in caps if c.startswith("id:"))
                    if not ck.expect(got == ([want] if want else []), f"adapter-for-{name}",
                                     lambda: f"{name} served by {got}, registered for the most "
                                     f"specific class: {want}; history {hist}",
                                     [list(map(str, o)) for o in hist]):
                        continue
                    ck.outcome((name, want))
                    if len(hist) <= depth - 2:
                        for kind in ("ex", "nope"):
                            for a in ads.values():
                                a.calls.clear()
                            opts = {"x": 1}
                            req = viz.VizRequest(kind=kind, target=target, options=opts)
                            res = viz.render(req)
                            calls = [(n, c) for n, a in ads.items() for c in a.calls]
                            ok = want is not None and kind in ads[want].capabilities
                            if ok:
                                good = (len(calls) == 1 and calls[0][0] == want
                                        and calls[0][1][0].target is target
                                        and calls[0][1][0].kind == kind
                                        and dict(calls[0][1][1].options) == {"x": 1}
                                        and res.metadata.get("by") == want and not res.warnings)
                            else:
                                good = (not calls and res.intent == kind and len(res.warnings) == 1
                                        and not res.has_content
                                        and (want is None or res.metadata.get("capabilities")
                                             == sorted(ads[want].capabilities)))
                            ck.step()
                            ck.expect(good and opts == {"x": 1}, f"answer-{kind}-{'ok' if ok else 'no'}",
                                      lambda: f"{name}/{kind}: calls {[c[0] for c in calls]}, result "
                                      f"{res}, expected {'adapter ' + want if ok else 'unsupported'}",
                                      [list(map(str, o)) for o in hist])
    finally:
        viz.clear_registry()


def odd_targets(ck: Check):
    import kd.viz as viz
    ck.part("registry")
    viz.clear_registry()
    for name, target in [("None", None), ("int", 3), ("lambda", lambda: 0), ("class", int),
                         ("type", type), ("array", np.zeros(3)), ("list", []), ("str", "model")]:
        for reg in (False, True):
            viz.clear_registry()
            if reg:
                viz.register_adapter(Mid, Adapter("M"))
            with ck.case("odd-target", name):
                res = viz.render(viz.VizRequest(kind="ex", target=target))
                ck.step()
                ck.expect(not res.has_content and len(res.warnings) == 1 and res.intent == "ex",
                          "odd-target", f"{name}: {res}", name)
                ck.expect(list(viz.list_capabilities(target)) == [], "odd-target-capabilities",
                          name, name)
    viz.clear_registry()


# ------------------------------------------------------------------ isolation
S1, S2 = {"font.size": 7, "lines.linewidth": 3.5}, {"axes.labelsize": 5.0, "font.size": 9}
ISO_OPS = [("plot", None, None), ("plot", "S1", None), ("plot", "S2", "A"), ("plot", None, "B"),
           ("plot", "bad", None), ("raise", "S1", None), ("nest", "S2", None),
           ("mutate", "S1", None), ("style", "S1"), ("style", "empty"), ("dir", "A"), ("dir", "B"), ("dir", None)]


def isolation_part(ck: Check, first):
    import matplotlib
    import kd.viz as viz
    styles = {None: None, "S1": S1, "S2": S2, "empty": {}, "bad": {"no.such.key": 1}}
    default = {'font.size': 12, 'figure.titlesize': 14, 'axes.labelsize': 12, 'xtick.labelsize': 10,
               'ytick.labelsize': 10, 'savefig.dpi': 300, 'savefig.bbox': 'tight'}
    WATCH = sorted(set(default) | set(S1) | set(S2))
    depth = 4 if ck.thorough else 3
    scratch = pathlib.Path(tempfile.mkdtemp(prefix="c24i"))
    cwd = os.getcwd()

    class Boom(Exception):
        pass

    class Probe:
        capabilities = {"ex", "raise", "nest", "mutate"}

        def __init__(self):
            self.seen = []

        def render(self, request, ctx):
            import matplotlib
            self.seen.append(({k: matplotlib.rcParams[k] for k in WATCH}, ctx.save_path("sub/f.png"),
                              dict(ctx.options)))
            if request.kind == "raise":
                raise Boom()
            if request.kind == "mutate":
                matplotlib.rcParams["lines.linewidth"] = 99
                matplotlib.rcParams["font.size"] = 99
            if request.kind == "nest":
                viz.render(viz.VizRequest("ex", request.target, {"style": S1}))
                self.seen.append(({k: matplotlib.rcParams[k] for k in WATCH},
                                  ctx.save_path("sub/f.png"), dict(ctx.options)))
            return viz.VizResult(intent=request.kind)

    try:
        os.chdir(scratch)
        dirs = {None: scratch / ".", "A": scratch / "A", "B": scratch / "B"}
        probe = Probe()
        viz.clear_registry()
        viz.register_adapter(Mid, probe)
        rc0 = matplotlib.rcParams.copy()
        for n in range(0, depth):
            for tail in itertools.product(ISO_OPS, repeat=n):
                hist = (first,) + tail
                viz.configure(style={}, save_dir=None)
                conf_style, conf_dir = {}, None
                with ck.case("isolation", replay=str(hist)):
                    for i, op in enumerate(hist):
                        ck.step()
                        if op[0] == "style":
                            conf_style = styles[op[1]]
                            viz.configure(style=dict(conf_style))
                        elif op[0] == "dir":
                            conf_dir = op[1]
                            viz.configure(save_dir=None if op[1] is None else str(dirs[op[1]]))
                        else:
                            opts = {}
                            if styles[op[1]] is not None:
                                opts["style"] = dict(styles[op[1]])
                            if op[2]:
                                opts["output_dir"] = op[2]
                            given = {k: (dict(v) if isinstance(v, dict) else v) for k, v in opts.items()}
                            probe.seen.clear()
                            kind = op[0] if op[0] != "plot" else "ex"
                            try:
                                viz.render(viz.VizRequest(kind, Mid(), opts))
                            except Boom:
                                ck.expect(kind == "raise", "wrong-exception", str(hist))
                            except KeyError:
                                ck.expect(op[1] == "bad", "wrong-exception", str(hist), str(hist))
                            ck.expect(opts == given, "options-changed", f"{given} -> {opts}", str(hist))
                            base = dict(rc0) | default | conf_style
                            want = [base | (styles[op[1]] or {})]
                            if kind == "nest":
                                want = [want[0], want[0] | S1, want[0]]
                                # the nested plot sees the surrounding style plus its own
                                want[1] = want[0] | default | conf_style | S1
                            if op[1] == "bad":
                                want = []
                            seen = probe.seen
                            ck.expect(len(seen) == len(want), "render-count", str(hist), str(hist))
                            for j, (g, w) in enumerate(zip(seen, want)):
                                bad = [k for k in WATCH if g[0][k] != w[k]]
                                ck.expect(not bad, "style-seen",
                                          lambda: f"{[(k, g[0][k], w[k]) for k in bad]} at step {i} "
                                          f"of {hist}", str(hist))
                                p = (dirs[conf_dir] / "sub" / "f.png").resolve()
                                ck.expect(pathlib.Path(g[1]).resolve() == p and p.parent.is_dir(),
                                          "save-path", lambda: f"{g[1]} instead of {p} at step {i} of "
                                          f"{hist}", str(hist))
                                if j != 1:
                                    ck.expect(g[2] == given, "options-seen", lambda: f"{g[2]} instead of "
                                              f"{given}", str(hist))
                        rc = matplotlib.rcParams
                        bad = [k for k in rc0 if k != "backend" and rc[k] != rc0[k]]
                        if not ck.expect(not bad, "style-leak", lambda: f"{bad} changed after step {i} "
                                         f"of {hist}", str(hist)):
                            rc.update(rc0)
                    ck.visit((str(conf_style), conf_dir, hist[-1]))
                    ck.trace()
    finally:
        viz.clear_registry()
        viz.configure(style={}, save_dir=None)
        os.chdir(cwd)
        shutil.rmtree(scratch, ignore_errors=True)


# ------------------------------------------------------------------ api
def api_part(ck: Check):
    import contextlib
    import io
    import kd.viz as viz
    ck.part("api")

    class Cap:
        capabilities = set(INTENTS)

        def __init__(self):
            self.calls = []

        def render(self, request, ctx):
            self.calls.append((request.kind, request.target, dict(ctx.options), request.options))
            return viz.VizResult(intent=request.kind, metadata={"n": len(self.calls)})

    cap = Cap()
    viz.clear_registry()
    viz.register_adapter(Mid, cap)
    A = {k: np.arange(3.0) + i for i, k in enumerate(
        ["x_coords", "t_coords", "true_field", "predicted_field", "residual_field", "spatial_coords",
         "slice_times", "actual", "predicted", "coordinates"])}
    extra = {"output_dir": "o", "bins": 3, "style": {"font.size": 3}}
    table = {
        "plot_training_curve": ("training_curve", [], [], {}),
        "plot_validation_curve": ("validation_curve", [], [], {}),
        "plot_search_evolution": ("search_evolution", [], [], {}),
        "plot_optimization": ("optimization", [], [], {}),
        "render_equation": ("equation", [], [], {}),
        "plot_time_slices": ("time_slices", ["t_coords", "true_field", "predicted_field"],
                             ["x_coords", "spatial_coords", "slice_times"], {}),
        "plot_residuals": ("residual", ["actual", "predicted"], ["coordinates"], {}),
        "plot_field_comparison": ("field_comparison", ["t_coords", "true_field", "predicted_field"],
                                  ["x_coords", "spatial_coords", "residual_field"], {}),
        "plot_derivative_relationships": ("derivative_relationships", [], ["top_n_terms"],
                                          {"top_n_terms": 4}),
        "plot_parity": ("parity", [], ["title"], {}),
    }
    A |= {"top_n_terms": 2, "title": "T"}
    model, foreign = Mid(), Base()
    for fn, (kind, req, opt, dflt) in table.items():
        for bits in itertools.product((0, 1), repeat=len(opt)):
            for ex in (0, 1):
                for info in (None, True, False):
                    for target in (model, foreign, None):
                        kw = {k: A[k] for k in req} | {k: A[k] for k, b in zip(opt, bits) if b}
                        if ex:
                            kw |= extra
                        want = dflt | kw
                        if info is not None:
                            kw = kw | {"show_info": info}
                        with ck.case(fn, replay=[fn, sorted(kw)]):
                            cap.calls.clear()
                            out = io.StringIO()
                            with contextlib.redirect_stdout(out):
                                res = getattr(viz, fn)(target, **kw)
                            ck.step()
                            ck.trace()
                            ck.visit((fn, bits, ex, info, target is model))
                            ck.expect(res.intent == kind, fn + "-intent", f"{res.intent}", fn)
                            if info is False:
                                ck.expect(out.getvalue() == "", fn + "-show-info", out.getvalue())
                            if target is not model:
                                ck.expect(not cap.calls and len(res.warnings) == 1 and not res.has_content,
                                          fn + "-foreign", f"{res}", fn)
                                continue
                            ok = len(cap.calls) == 1
                            if ok:
                                k, t, o, _ = cap.calls[0]
                                ok = k == kind and t is model and set(o) == set(want) and all(
                                    o[x] is want[x] or (not isinstance(want[x], np.ndarray)
                                                        and o[x] == want[x]) for x in want)
                            ck.expect(ok, fn + "-payload", lambda: f"{cap.calls} instead of {kind} "
                                      f"{want}", [fn, sorted(kw)])
    viz.clear_registry()
    ck.end_part()


# ------------------------------------------------------------------ shipped adapters
class Bare:
    pass


def fitted(which, v):
    """A stand-in model holding the attributes the adapter reads (variant v differs)."""
    m = Bare()
    n = 5 + v
    base = np.linspace(0.0, 1.0 + v, n)
    if which == "dlga":
        m.train_loss_history = [1.0 + v, 0.8, 0.6]
        m.val_loss_history = [1.2 + v, 1.0, 0.9]
        m.evolution_history = [{"fitness": 1.0 + v, "complexity": 5, "population_size": 10,
                                "unique_modules": 4},
                               {"fitness": 0.8, "complexity": 4, "population_size": 9,
                                "unique_modules": 5}]
        m.Chrom, m.coef = [[[0], [1]]], [np.array([[1.0 + v], [0.5]])]
        m.name, m.user_operators = ["u_t"], ["u", "u_x"]
        m.metadata = {"u_t": base, "u": base + 1, "u_x": base - 0.5}
    elif which == "discover":
        class S:
            pass
        m.searcher = S()
        m.searcher.r_train = [[0.5 + v, 0.6, 0.55], [0.7, 0.65, 0.72 + v]]
        m.searcher.r_history = [np.asarray(b) for b in m.searcher.r_train]
        m.best_p = None
    elif which == "sga":
        from kd.model.sga.sgapde.equation import SGAEquationDetails, SGAEquationTerm
        c = Bare()
        x, t = np.linspace(0, 1, 3), np.linspace(0, 1, 4)
        c.x, c.t = np.meshgrid(x, t, indexing="ij")
        c.u = np.outer(x, 1 + t) + v
        c.u_origin = c.u + 0.1 * c.t
        c.ut, c.ut_origin = c.u * 0.5 + c.x * c.t, c.u_origin * 0.5
        c.right_side_full, c.right_side_full_origin = c.ut - 0.02 * c.x, c.ut_origin - 0.01 * c.t
        m.context_ = c
        m.best_equation_details_ = SGAEquationDetails(
            lhs="u_t", terms=[SGAEquationTerm(label="u", source="default", coefficient=1.0, tree=None)],
            predicted_rhs=c.ut + 0.1 * c.x)
        m.equation_latex = lambda include_coefficients=True, notation="subscript": (
            f"u_t = {2 + v} u_x" if include_coefficients else f"u_t = u_x + {v}")
    elif which == "pysr":
        m.X_train_ = np.stack([base, base ** 2], 1)
        m.y_train_ = base * 2
        m.predict = lambda X: np.asarray(X)[:, 0] * 2.1 + np.asarray(X)[:, 1]
        m.equation_latex = lambda: f"y = {v} x_0"
    return m


def payload(intent, v):
    x, t = np.linspace(0, 1, 4), np.linspace(0, 1, 3)
    f = np.outer(x, t) + v * np.outer(x ** 2, t + 1)
    if intent in ("field_comparison", "time_slices"):
        return {"x_coords": x, "t_coords": t, "true_field": f, "predicted_field": f * 0.9}
    if intent == "residual":
        return {"actual": x + v, "predicted": x * 0.9 + v * x ** 2}
    return {}


EXTRA_INTENTS = ["density", "tree", "spr_residual", "spr_field_comparison", "no_such_intent"]


def adapters_part(ck: Check, item):
    which, intent = item
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.figure
    import matplotlib.pyplot as plt
    import kd.viz as viz
    from kd.viz import _adapters as A
    adapter = {"dlga": A.DLGAVizAdapter, "discover": A.DiscoverVizAdapter, "sga": A.SGAVizAdapter,
               "pysr": A.PySRVizAdapter}[which]()
    real = matplotlib.figure.Figure.savefig

    def small(self, fname, **kw):
        kw["dpi"] = 18
        kw.pop("bbox_inches", None)
        return real(self, fname, **kw)

    scratch = pathlib.Path(tempfile.mkdtemp(prefix="c24a"))
    cwd = os.getcwd()
    matplotlib.figure.Figure.savefig = small
    rc0 = matplotlib.rcParams.copy()
    supported = intent in set(adapter.capabilities)

    class Model(Bare):
        pass

    viz.clear_registry()
    viz.register_adapter(Bare, adapter)

    def files(root):
        return {str(p.relative_to(root)): hashlib.sha1(p.read_bytes()).hexdigest()
                for p in root.rglob("*") if p.is_file()}

    def ask(model, dest, pay, root):
        """dest: 'A'/'B' output_dir, 'S' configured save_dir, 'C' current directory"""
        opts = dict(pay)
        viz.configure(save_dir=str(root / "S") if dest == "S" else None)
        if dest in "AB":
            opts["output_dir"] = str(root / dest)
        with quiet():
            return viz.render(viz.VizRequest(intent, model, opts))

    try:
        # bare models and unsupported intents: a clear answer, no exception, no file
        for dest in "AC":
            root = pathlib.Path(tempfile.mkdtemp(dir=scratch))
            os.chdir(root)
            with ck.case(f"{which}-bare-{intent}", replay=[which, intent, dest]):
                res = ask(Bare(), dest, {}, root)
                ck.step()
                ck.expect(res.intent == intent and res.warnings and not res.has_content,
                          f"{which}-bare", f"{intent}: {res}", [which, intent])
                ck.expect(not files(root), f"{which}-bare-files", f"{intent}: {files(root)}")
        if not supported:
            with ck.case(f"{which}-unsupported-{intent}"):
                root = pathlib.Path(tempfile.mkdtemp(dir=scratch))
                os.chdir(root)
                res = ask(fitted(which, 0), "A", payload(intent, 0), root)
                ck.expect(res.warnings and not res.has_content and res.metadata.get("capabilities")
                          == sorted(adapter.capabilities), f"{which}-unsupported", f"{intent}: {res}")
                ck.visit((which, intent, "unsupported"))
            return
        ref = {}
        for v in (0, 1):
            root = pathlib.Path(tempfile.mkdtemp(dir=scratch))
            os.chdir(root)
            with ck.case(f"{which}-{intent}", replay=[which, intent, v]):
                res = ask(fitted(which, v), "A", payload(intent, v), root)
                got = files(root)
                ref[v] = {pathlib.Path(k).name: d for k, d in got.items()} if res.paths else None
                ck.expect(bool(res.paths) != bool(res.warnings), f"{which}-content-or-warning",
                          f"{intent}: {res}")
        if ref.get(0) is None or ref.get(1) is None:
            ck.visit((which, intent, "no content"))
            return
        ck.expect(ref[0] != ref[1], f"{which}-{intent}-ignores-model",
                  "two different models give the same picture", [which, intent])
        reqs = list(itertools.product((0, 1), "ABSC"))
        firsts = reqs if ck.thorough else [(0, "A"), (1, "S"), (0, "C")]
        for first, second in itertools.product(firsts, reqs):
            root = pathlib.Path(tempfile.mkdtemp(dir=scratch))
            os.chdir(root)
            state = {}
            with ck.case(f"{which}-{intent}-pair", replay=[which, intent, first, second]):
                for v, dest in (first, second):
                    res = ask(fitted(which, v), dest, payload(intent, v), root)
                    ck.step()
                    where = {"A": "A/", "B": "B/", "S": "S/", "C": ""}[dest]
                    for p in res.paths:
                        rel = os.path.relpath(pathlib.Path(p).resolve(), root.resolve())
                        state[rel] = ref[v].get(os.path.basename(rel))
                        ck.expect(rel.startswith(where) and not (where == "" and rel[:2] in
                                                                 ("A/", "B/", "S/")),
                                  f"{which}-{intent}-destination", f"{rel} for destination {dest}",
                                  [which, intent, first, second])
                    now = files(root)
                    ck.expect(len(res.paths) >= 1 and now == state, f"{which}-{intent}-files",
                              lambda: f"after {first}, {second}: files {sorted(now)} "
                              f"{'(stale or foreign content)' if set(now) == set(state) else ''}, "
                              f"reported {sorted(state)}", [which, intent, first, second])
                ck.trace()
                ck.visit((which, intent, first, second))
                bad = [k for k in rc0 if k != "backend" and matplotlib.rcParams[k] != rc0[k]]
                ck.expect(not bad, f"{which}-style-leak", f"{intent}: {bad}", [which, intent])
                ck.expect(not plt.get_fignums(), f"{which}-open-figures",
                          f"{intent}: figures left open {plt.get_fignums()}", [which, intent])
                plt.close("all")
            shutil.rmtree(root, ignore_errors=True)
    finally:
        viz.clear_registry()
        viz.configure(save_dir=None)
        matplotlib.figure.Figure.savefig = real
        os.chdir(cwd)
        shutil.rmtree(scratch, ignore_errors=True)


def defaults_part(ck: Check):
    """The shipped registration: each model class gets its own adapter, subclasses too."""
    ck.part("defaults")
    import kd.viz as viz
    from kd.viz import adapters, registry
    from kd.viz import _adapters as A
    from kd.model import KD_DLGA, KD_SGA
    from kd.model.kd_discover import KD_Discover
    kinds = {"dlga": A.DLGAVizAdapter, "discover": A.DiscoverVizAdapter, "sga": A.SGAVizAdapter}
    viz.clear_registry()
    with ck.case("defaults"):
        adapters.register_default_adapters()
        names = {KD_DLGA: "dlga", KD_Discover: "discover", KD_SGA: "sga"}
        try:
            from kd.model.kd_discover import KD_Discover_SPR
            names[KD_Discover_SPR] = "discover"
        except ImportError:
            pass
        for cls, n in names.items():
            for c in (cls, type("User" + cls.__name__, (cls,), {})):
                caps = set(viz.list_capabilities(c))
                ck.step()
                ck.visit((c.__name__,))
                ck.expect(caps == set(kinds[n].capabilities), "default-" + c.__name__,
                          f"{sorted(caps)}")
    viz.clear_registry()
    ck.end_part()


ORDER_MODS = ["kd.model.kd_dlga", "kd.model.dlga", "kd.model.kd_discover", "kd.model.kd_sga", "kd.viz",
              "kd.viz.api", "kd.viz.equation_renderer", "kd.runner", "kd.model.kd_discover_regression"]
ORDER_CODE = """
import sys, importlib, json
try:
    import triton._C.libtriton
except Exception:
    pass
for m in sys.argv[1].split(","):
    importlib.import_module(m)
import kd.viz as viz
out = {}
for m, c in (("kd.model.kd_dlga", "KD_DLGA"), ("kd.model.kd_discover", "KD_Discover"),
             ("kd.model.kd_discover", "KD_Discover_SPR"), ("kd.model.kd_sga", "KD_SGA")):
    cls = getattr(importlib.import_module(m), c)
    out[c] = [type(viz.registry.get_adapter(cls)).__name__, len(list(viz.list_capabilities(cls)))]
print("RESULT" + json.dumps(out))
"""


def order_part(ck: Check, item):
    """The adapters are there whatever was imported first."""
    import json
    import subprocess
    import sys
    key = "import-order[" + ",".join(item) + "]"
    p = subprocess.run([sys.executable, "-W", "ignore", "-c", ORDER_CODE, ",".join(item)],
                       capture_output=True, text=True, timeout=300)
    line = [x for x in p.stdout.splitlines() if x.startswith("RESULT")]
    ck.step()
    ck.visit(item)
    if not ck.expect(line, key, lambda: f"import failed: {p.stderr[-300:]}", {"imports": item}):
        return
    got = json.loads(line[0][6:])
    want = {"KD_DLGA": "DLGAVizAdapter", "KD_Discover": "DiscoverVizAdapter",
            "KD_Discover_SPR": "DiscoverVizAdapter", "KD_SGA": "SGAVizAdapter"}
    for cls, name in want.items():
        ck.expect(got[cls][0] == name and got[cls][1] > 0, key + ":" + cls,
                  lambda: f"plots of {cls} are handled by {got[cls]}", {"imports": item})
    ck.trace()


def run(ck: Check):
    import matplotlib
    matplotlib.use("Agg")
    with quiet():
        import kd.viz  # noqa: F401
        from kd.viz import _adapters  # noqa: F401
    ck.part("registry")
    with quiet():
        odd_targets(ck)
        ck.part("registry")
        ck.pool(registry_part, [(o,) for o in REG_OPS] if not ck.thorough
                else [(a, b) for a in REG_OPS for b in REG_OPS])
        ck.end_part()
        ck.part("isolation")
        ck.pool(isolation_part, ISO_OPS)
        ck.end_part()
        api_part(ck)
        ck.part("adapters")
        items = [(w, i) for i in INTENTS + EXTRA_INTENTS
                 for w in ("dlga", "discover", "sga", "pysr")]
        items.sort(key=lambda it: hashlib.sha1(repr(it).encode()).hexdigest())
        ck.pool(adapters_part, items)
        ck.end_part()
        defaults_part(ck)
        ck.part("import order")
        firsts = [(m,) for m in ORDER_MODS]
        if ck.thorough:
            firsts += [(a, b) for a in ORDER_MODS for b in ORDER_MODS if a != b]
        ck.pool(order_part, firsts)
        ck.end_part()
