"""C06: an estimator that has been used before behaves like a fresh one."""
import copy
import itertools
import json
import logging
import os
import pathlib
import random
import shutil
import tempfile

try:
    import triton._C.libtriton  # noqa: F401  (must be loaded before TensorFlow)
except Exception:  # noqa: BLE001
    pass
import numpy as np

from checks.c08 import coords_for, field_on, frozen, make_nd
from mc.core import h, quiet

# ------------------------------------------------------------------ settings of the caller

CONFIGS = {
    "none": None,
    "A": {"task": {"max_depth": 3, "threshold": 1e-4},
          "prior": {"length": {"min_": 4, "max_": 20, "on": True},
                    "repeat": {"tokens": "mul", "min_": None, "max_": 2, "on": True},
                    "count_constraints": False},
          "training": {"epsilon": 0.2},
          "controller": {"num_units": 8, "pqt": False}},
    "B": {"task": {"function_set": ["add", "sub", "mul", "diff", "n2"]},
          "prior": {"soft_length": {"loc": 6, "scale": 2, "on": False},
                    "relational": {"targets": "mul", "effectors": "add", "relationship": "child",
                                   "on": True}},
          "state_manager": {"observe_action": True, "observe_dangling": True},
          "training": {"epsilon": 0.1, "stability_selection": 1}},
}
TORCH = {"A": {"prior": {"repeat": {"tokens": "mul_t", "min_": None, "max_": 2, "on": True}},
               "pinn": {"n_hidden": 4, "number_layer": 2, "iter_num": 1}},
         "B": {"task": {"function_set": ["add_t", "sub_t", "mul_t", "diff_t", "n2_t"]},
               "prior": {"relational": {"targets": "mul_t", "effectors": "add_t"}},
               "pinn": {"n_hidden": 3, "number_layer": 3, "generation_type": "AD"}}}


def merged(a, b):
    out = copy.deepcopy(a)
    for k, v in b.items():
        out[k] = merged(out[k], v) if isinstance(v, dict) and isinstance(out.get(k), dict) else copy.deepcopy(v)
    return out


def config(name, kind):
    if name == "none":
        return None
    c = copy.deepcopy(CONFIGS[name])
    if kind == "spr":
        c = merged(c, TORCH[name])
    if kind == "regression" and name == "B":
        c["task"]["function_set"] = ["add", "sub", "mul", "const"]
    return c


SIZES = {"x": 9, "y": 8, "z": 8, "t": 10}
_DS = {}


def make_1d(c, which, **more):
    from kd.dataset import PDEDataset
    return PDEDataset("mc-case", x=c["x"], t=c["t"], usol=field_on("xt", c, which), **more)


def dataset(name):
    if name not in _DS:
        c1, c2, c3 = (coords_for(a, SIZES) for a in ("xt", "xyt", "xyzt"))
        _DS[name] = {
            "D1": lambda: make_1d(c1, 0),
            "D1v": lambda: make_1d(c1, 1),
            "D1p": lambda: make_1d(c1, 0, param_fields={"k": field_on("xt", c1, 3)}),
            "D2v": lambda: make_nd("xyt", c2, target="v", fields=("u", "v")),
            "D2": lambda: make_nd("xyt", c2),
            "D2p": lambda: make_nd("xyt", c2, params=("k", "nu")),
            "D3": lambda: make_nd("xyzt", c3),
        }[name]()
    return _DS[name]


# ------------------------------------------------------------------ canonical effective state

def canon(v, depth=0):
    import torch
    if isinstance(v, (str, int, bool, type(None))):
        return v
    if isinstance(v, float):
        return repr(v)
    if isinstance(v, np.generic):
        return canon(v.item())
    if torch.is_tensor(v):
        return ("tensor", tuple(v.shape), str(v.dtype), h(v.detach().cpu().numpy().tobytes()))
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            return [canon(i, depth + 1) for i in v.ravel()]
        return ("array", v.shape, str(v.dtype), h(np.ascontiguousarray(v).tobytes()))
    if isinstance(v, dict):
        return {str(k): canon(x, depth + 1) for k, x in sorted(v.items(), key=lambda kv: str(kv[0]))}
    if isinstance(v, (list, tuple)):
        return [canon(x, depth + 1) for x in v]
    if isinstance(v, set):
        return sorted(map(str, v))
    return f"<{type(v).__name__}>"


def attrs(o, skip=()):
    return {k: canon(v) for k, v in sorted(vars(o).items()) if k not in skip}


def token(t):
    return {k: canon(v) for k, v in sorted(vars(t).items()) if k != "function"} | {
        "class": type(t).__name__, "function": getattr(getattr(t, "function", None), "__name__", None)}


def effective(m, kind):
    """Everything that decides what the next search does, as plain values."""
    import torch
    from kd.model.discover.program import Program
    task, lib = Program.task, Program.library
    out = {
        "settings": {k: canon(v) for k, v in m.get_params(deep=False).items() if k not in ("out_path", "config_out")},
        "operators": canon(m.operator),
        "config": canon(dict(m.config)),
        "library": [token(t) for t in lib.tokens],
        "torch tokens": [token(t) for t in getattr(lib, "torch_tokens", {}).values()],
        "library sets": attrs(lib, ("tokens", "torch_tokens")),
        "task": attrs(task, ("library", "prior", "model")) | {"class": type(task).__name__},
        "rules": [{"class": type(p).__name__, "text": p.describe() if hasattr(p, "describe") else None}
                  | attrs(p, ("library",)) for p in m.prior.priors],
        "state manager": attrs(m.state_manager, ("library",)),
        "controller": attrs(m.controller, ("prior", "state_manager", "lib", "task", "cell", "optimizer")),
        "network": {k: canon(v) for k, v in m.controller.cell.state_dict().items()},
        "optimizer": [type(m.controller.optimizer).__name__,
                      canon([g["lr"] for g in m.controller.optimizer.param_groups])],
        "wired": [m.controller.prior is m.prior, m.controller.task is task, m.controller.lib is lib,
                  m.searcher.controller is m.controller],
        "searcher": {k: canon(v) for k, v in sorted(vars(m.searcher).items())
                     if k not in ("controller", "gp_aggregator", "plotter")},
        "evaluation": [Program.use_torch, Program.execute_function.__name__, len(getattr(Program, "cache", ())),
                       canon(getattr(Program, "default_terms", None)), type(Program.const_optimizer).__name__,
                       canon(getattr(Program, "function_terms", None)), canon(getattr(Program, "reward_list", None))],
        "dataset": [canon(m.dataset), canon(m.data_class.get_data()) if m.data_class is not None else None],
        "random state": [h(np.random.get_state()[1].tobytes()), h(random.getstate()),
                         h(torch.random.get_rng_state().numpy().tobytes())],
    }
    if kind == "regular":
        from kd.model.discover.program import from_str_tokens
        p = from_str_tokens("mul,u1,u1" if "mul" in lib.names else "n2,u1")
        out["score of u^2"] = [canon(p.r_ridge), canon(getattr(p.STRidge, "coef", None))]
    if kind == "spr" and hasattr(m, "denoise_pinn"):
        p = m.denoise_pinn
        out["pinn"] = attrs(p, ("nn", "writer", "optimizer", "optimizer_pretrain", "cache", "pretrain_path",
                                "pinn_path", "pic_path"))
        out["pinn network"] = {k: canon(v) for k, v in p.nn.state_dict().items()}
    return out


def difference(a, b, path=""):
    if type(a) is not type(b):
        return f"{path}: {str(a)[:90]} instead of {str(b)[:90]}"
    if isinstance(a, dict):
        for k in sorted(set(a) | set(b), key=str):
            if k not in a or k not in b:
                return f"{path}.{k} {'missing' if k not in a else 'left over'}"
            d = difference(a[k], b[k], f"{path}.{k}")
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return f"{path}: {str(a)[:120]} instead of {str(b)[:120]}"
        for i, (x, y) in enumerate(zip(a, b)):
            d = difference(x, y, f"{path}[{i}]")
            if d:
                return d
        return None
    return None if a == b else f"{path}: {str(a)[:90]} instead of {str(b)[:90]}"


# ------------------------------------------------------------------ estimators under test

def StubProgram():
    """A real program object whose score and validity are given instead of computed."""
    from kd.model.discover.program import Program
    p = Program.__new__(Program)
    p.__dict__.update(tokens=np.array([0]), r_ridge=0.5, r=0.5, invalid=False, complexity=1.0,
                      str_expression="u1", STRidge=None, parsed=None, on_policy_count=1, off_policy_count=0)
    return p


def quiet_training(m):
    """Neural training and sampling are replaced; everything around them is the real code."""
    m.pretrain = lambda: None
    m.pinn_train = lambda *a, **k: None
    real = m.make_searcher

    def make_searcher():
        s = real()
        s.search = lambda *a, **k: {"program": StubProgram(), "r": 0.5}
        return s
    m.make_searcher = make_searcher


def new(kind, **params):
    import kd.model.kd_discover as mod
    if kind == "regression":
        from kd.model.kd_discover_regression import KD_Discover_Regression as cls
    else:
        cls = mod.KD_Discover if kind == "regular" else mod.KD_Discover_SPR
    m = cls(n_iterations=2, n_samples_per_batch=5, **params)
    if kind == "spr":
        quiet_training(m)
        if hasattr(mod, "from_tokens"):
            mod.from_tokens = lambda *a, **k: StubProgram()
    return m


BINARY = {"regular": ["add", "mul"], "spr": ["add_t", "mul_t"], "regression": ["add", "sub"]}
UNARY = {"regular": ["n2"], "spr": ["n2_t"], "regression": ["sin"]}
XS = {"fitA": (6, 2, None), "fitB": (7, 3, ["p", "q", "r"]), "fitC": (6, 2, ["a", "b"])}

ALPHABET = {
    "regular": ["cfg:none", "cfg:A", "cfg:B", "file:A", "par:A", "ops", "unary", "noops", "seed", "out",
                "eval", "imp:D1", "imp:D1v", "imp:D1p", "imp:D2", "imp:D2p", "imp:D2v", "imp:D3", "named:D1", "setup"],
    "spr": ["cfg:none", "cfg:A", "cfg:B", "par:B", "ops", "noops", "seed", "imp:D1", "imp:D1p",
            "imp:D2", "imp:D2p", "imp:D3", "eval", "reset", "train", "setup"],
    "regression": ["cfg:none", "cfg:A", "cfg:B", "par:A", "ops", "unary", "noops", "seed", "fitA", "fitB", "fitC", "setup"],
}
LOADS = ("imp", "named", "fit")
PREPARES = LOADS + ("setup", "train")


class Model:
    """The settings a fresh estimator would need to reach the same state."""

    def __init__(self, kind):
        self.kind = kind
        self.cfg = "none"
        self.bin, self.un, self.seed, self.out = [], [], 0, "log0"
        self.load = None
        self.out_at_load = None

    def apply(self, op):
        name, _, arg = op.partition(":")
        if name in ("cfg", "file", "par"):
            self.cfg = arg
        elif name == "ops":
            self.bin, self.un = BINARY[self.kind], UNARY[self.kind]
        elif name == "unary":
            self.un = UNARY[self.kind]
        elif name == "noops":
            self.bin, self.un = [], []
        elif name == "seed":
            self.seed = 7
        elif name == "out":
            self.out = "log1"
        elif name in LOADS or op in XS:
            self.load = op
            self.out_at_load = (self.out, self.seed)

    def key(self, last):
        return (self.cfg, tuple(self.bin), tuple(self.un), self.seed, self.load, last == "train",
                self.kind == "spr" and last == "reset")

    def fresh(self, last):
        m = new(self.kind, binary_operators=list(self.bin), unary_operators=list(self.un), seed=self.seed,
                out_path=self.out, config_out=config(self.cfg, self.kind))
        do(m, self.load, self.kind, None)
        if last in ("train", "reset"):
            do(m, last, self.kind, None)
        return m


def do(m, op, kind, given):
    """One step on the real estimator; `given` remembers what the caller passed in."""
    name, _, arg = op.partition(":")
    if name in ("cfg", "file", "par"):
        c = config(arg, kind)
        if given is not None and isinstance(c, dict):
            given.append((c, copy.deepcopy(c)))
        if name == "file":
            path = f"cfg-{arg}.json"
            with open(path, "w") as f:
                json.dump(c, f)
            c = path
        if name == "par":
            m.set_params(config_out=c)
        else:
            m.set_config(c)
    elif name == "ops":
        b, u = list(BINARY[kind]), list(UNARY[kind])
        if given is not None:
            given.append(([b, u], copy.deepcopy([b, u])))
        m.set_params(binary_operators=b, unary_operators=u)
    elif name == "unary":
        m.set_params(unary_operators=list(UNARY[kind]))
    elif name == "eval":
        # expressions scored by the search that went before
        from kd.model.discover.program import Program, from_str_tokens
        texts = ["u1"] + [t for t in ("mul_t,u1,u1", "mul,u1,u1", "n2,u1")
                          if t.split(",")[0] in Program.library.names]
        for text in texts:
            p = from_str_tokens(text)
            if kind != "spr":
                p.r_ridge  # noqa: B018
    elif name == "noops":
        m.set_params(binary_operators=[], unary_operators=[])
    elif name == "seed":
        m.set_params(seed=7)
    elif name == "out":
        m.set_params(out_path="log1")
    elif name == "imp":
        if kind == "spr":
            m.import_dataset(dataset(arg), sample=12, colloc_num=6, random_state=3)
        else:
            m.import_dataset(dataset(arg))
    elif name == "named":
        m.import_dataset(dataset(arg), dataset_name="mine")
    elif name in XS:
        n, k, names = XS[name]
        X = np.sin(np.arange(n * k, dtype=float)).reshape(n, k)
        y = X[:, 0] + 2
        if given is not None:
            given.append(([X, y, names], copy.deepcopy([X, y, names])))
        from kd.model.discover.program import from_str_tokens

        def train(**k):
            from kd.model.discover.program import Program
            p = from_str_tokens("add,x1,x1" if "add" in Program.library.names else "sin,x1")
            return {"program": p, "r": p.r_ridge}
        m.train = lambda *a, **k: train()
        m.fit(X, y, names)
        # what the fit itself evaluated is not part of the prepared state
        from kd.model.discover.program import Program
        Program.clear_cache()
    elif name == "setup":
        m.setup()
    elif name == "reset":
        m.reset_up()
    elif name == "train":
        m.train(n_epochs=1, verbose=False)


_FRESH = {}


def same(a, b):
    return difference(canon(a), canon(b)) is None


def shipped():
    import kd.model
    root = pathlib.Path(kd.model.__file__).parent / "discover" / "config"
    return {p.name: h(p.read_bytes()) for p in sorted(root.glob("*.json"))}


def class_level(kind):
    import kd.model.kd_discover as mod
    out = {}
    for cls in (mod.KD_Discover, mod.KD_Discover_SPR):
        for k, v in vars(cls).items():
            if isinstance(v, (dict, list, set, tuple, str, int)) and k not in ("__doc__", "__module__"):
                out[f"{cls.__name__}.{k}"] = canon(v)
        d = cls.__init__.__defaults__
        out[cls.__name__ + " defaults"] = canon(d)
    return out


def history(ck, case):
    kind, seq = case
    rep = {"estimator": kind, "steps": list(seq)}
    key = f"{kind}:{seq[-1]}"
    ck.visit(case)
    with ck.case(key, rep, timeout=120), quiet():
        model, given = Model(kind), []
        m = new(kind, out_path="log0")
        out_before = None
        for op in seq:
            out_before = m.out_path
            do(m, op, kind, given)
            model.apply(op)
            ck.step()
        last = seq[-1]
        got = effective(m, kind)
        out = m.out_path
        fk = (kind,) + model.key(last)
        if fk not in _FRESH:
            f = model.fresh(last)
            _FRESH[fk] = (effective(f, kind), f.out_path)
        want, fresh_out = _FRESH[fk]
        d = difference(got, want)
        ck.expect(d is None, key + ":differs from a fresh estimator:" + (d or "").split(":")[0].split("[")[0],
                  f"after {' -> '.join(seq)}: {d}", rep)
        if last.partition(":")[0] in ("imp", "named"):
            f = "log0" if model.out == "log0" else "log1"
            ck.expect(pathlib.PurePath(out).parent == pathlib.PurePath(f)
                      and pathlib.PurePath(out).name == pathlib.PurePath(fresh_out).name,
                      key + ":output path", f"{out} after {' -> '.join(seq)}, a fresh estimator has {fresh_out}", rep)
        else:
            ck.expect(out == out_before, key + ":output path",
                      f"{last} moved the output path from {out_before} to {out}", rep)
        for now, before in given:
            ck.expect(same(now, before), key + ":settings of the caller",
                      f"{str(before)[:150]} became {str(now)[:150]}", rep)
        ck.trace()
        ck.outcome(h(str(got)))
        ck.sample(rep)


def in_scratch(ck, cases, fn):
    """Run the cases in a scratch working directory (logs, checkpoints and tensorboard files)."""
    def one(sub, case):
        d = tempfile.mkdtemp(prefix="c06-")
        cwd = os.getcwd()
        os.chdir(d)
        try:
            fn(sub, case)
        finally:
            os.chdir(cwd)
            shutil.rmtree(d, ignore_errors=True)
    ck.pool(one, cases)


def histories(kind, depth):
    """All sequences up to `depth` steps that end in a step preparing a search."""
    prepares = [o for o in ALPHABET[kind] if o.partition(":")[0] in PREPARES or o in XS]
    out = []
    for n in range(1, depth + 1):
        for seq in itertools.product(ALPHABET[kind], repeat=n):
            loaded = False
            ok = True
            for op in seq:
                name = op.partition(":")[0]
                if name in LOADS or op in XS:
                    loaded = True
                elif name in ("setup", "train", "reset", "eval") and not loaded:
                    ok = False
            if ok and seq[-1] in prepares:
                out.append((kind, seq))
    return out


# ------------------------------------------------------------------ two estimators

def siblings(ck, case):
    """A second estimator is not affected by what was done with, or passed to, a first one."""
    kind, cfg, first, second = case
    rep = {"estimator": kind, "shared config": cfg, "first": list(first), "second": list(second)}
    key = f"{kind}:second estimator"
    ck.visit(case)
    with ck.case(key, rep, timeout=120), quiet():
        shared = config(cfg, kind)
        before = copy.deepcopy(shared)
        levels = class_level(kind)
        b, u = [], []
        a = new(kind, binary_operators=b, unary_operators=u, config_out=shared, out_path="log0")
        for op in first:
            do(a, op, kind, None)
            ck.step()
        m = new(kind, binary_operators=b, unary_operators=u, config_out=shared, out_path="log0")
        for op in second:
            do(m, op, kind, None)
            ck.step()
        got = effective(m, kind)
        f = new(kind, config_out=before, out_path="log0")
        for op in second:
            do(f, op, kind, None)
        want = effective(f, kind)
        d = difference(got, want)
        ck.expect(d is None, key + ":" + (d or "").split(":")[0].split("[")[0],
                  f"after another estimator did {' -> '.join(first)}: {d}", rep)
        ck.expect(same(shared, config(cfg, kind)), key + ":shared configuration", "the shared dict changed", rep)
        ck.expect(b == [] and u == [], key + ":shared operator lists", f"{b} {u}", rep)
        d = difference(class_level(kind), levels)
        ck.expect(d is None, key + ":class defaults", str(d), rep)
        ck.trace()


def run(ck):
    logging.disable(logging.CRITICAL)
    depth = {"regular": 3, "spr": 3, "regression": 3}
    if ck.thorough:
        depth = {"regular": 4, "spr": 3, "regression": 4}
    before = shipped()
    with quiet():
        data = {n: frozen(dataset(n)) for n in ("D1", "D1v", "D1p", "D2", "D2p", "D2v", "D3")}
    for kind in ("regular", "spr", "regression"):
        ck.part(f"histories of {kind}")
        cases = histories(kind, depth[kind])
        if kind == "spr" and not ck.thorough:
            # three steps: all of those whose last two steps prepare something
            cases = [c for c in cases if len(c[1]) < 3 or c[1][1].partition(":")[0] in ("imp", "cfg", "train")]
        cases.sort(key=lambda c: h(str(c)))

        def one(sub, case):
            history(sub, case)
            for n, v in data.items():
                sub.expect(frozen(dataset(n)) == v, f"{case[0]}:dataset of the caller", n,
                           {"estimator": case[0], "steps": list(case[1])})
        in_scratch(ck, cases, one)
        ck.end_part()
    ck.part("two estimators")
    cases = []
    for kind, steps in (("regular", ["cfg:B", "ops", "imp:D1p", "imp:D2", "setup"]),
                        ("spr", ["cfg:B", "ops", "imp:D1p", "imp:D2", "train"]),
                        ("regression", ["cfg:B", "ops", "fitA", "fitB"])):
        firsts = [s for n in (1, 2) for s in itertools.product(steps, repeat=n)
                  if not (s[0] in ("setup", "train"))
                  and not (len(s) > 1 and s[1] in ("setup", "train") and s[0] in ("cfg:B", "ops"))]
        seconds = [(s,) for s in steps if s.partition(":")[0] in LOADS or s in XS]
        for cfg in ("none", "A"):
            cases += [(kind, cfg, f, s) for f in firsts for s in seconds]
    cases.sort(key=lambda c: h(str(c)))
    in_scratch(ck, cases, siblings)
    ck.expect(shipped() == before, "shipped defaults", "a configuration file of the package changed")
    ck.end_part()
    ck.assumptions += [
        "neural training (pretrain, pinn_train) and the sampling loop are replaced by stubs: what is compared is the "
        "state the next search starts from (operator library, rules, network weights, data, configuration, random "
        "state, output path)",
        "one estimator is active at a time: the active task is process-wide by design",
    ]
