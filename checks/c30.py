"""C30: network-assisted discovery fits one network to the observations and the equation found."""
import contextlib
import copy
import glob
import itertools
import math
import os
import shutil
import tempfile

import numpy as np

from mc.core import h, quiet

SEPS = ("add_t", "sub_t")
ARITY = {"add_t": 2, "sub_t": 2, "mul_t": 2, "div_t": 2, "diff_t": 2, "diff2_t": 2, "diff3_t": 2, "n2_t": 1, "n3_t": 1, "lap_t": 1}
OPS = ["add_t", "sub_t", "mul_t", "div_t", "diff_t", "diff2_t", "diff3_t", "n2_t", "n3_t", "lap_t"]


@contextlib.contextmanager
def scratch():
    old, d = os.getcwd(), tempfile.mkdtemp(prefix="kdmc.")
    os.chdir(d)
    import logging
    try:
        yield d
    finally:
        logging.disable(logging.NOTSET)
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


# ------------------------------------------------------------------ what an equation means
def trees(size, leaves, xs, ops):
    """Every expression of exactly `size` tokens; derivatives are taken along an axis."""
    out = {1: [(l,) for l in leaves]}
    for n in range(2, size + 1):
        cur = []
        for op in ops:
            if ARITY[op] == 1:
                cur += [(op,) + a for a in out[n - 1]]
            elif op.startswith("diff"):
                if n >= 3:
                    cur += [(op,) + a + (x,) for a in out[n - 2] for x in xs]
            else:
                for k in range(1, n - 1):
                    cur += [(op,) + a + b for a in out[k] for b in out[n - 1 - k]]
        out[n] = cur
    return out[size]


def read(tokens, i=0):
    op = tokens[i]
    i += 1
    kids = []
    for _ in range(ARITY.get(op, 0)):
        k, i = read(tokens, i)
        kids.append(k)
    return (op, kids), i


def split(node):
    op, kids = node
    return split(kids[0]) + split(kids[1]) if op in SEPS else [node]


def value(node, u, x, params):
    """The quantity a term denotes, differentiated exactly."""
    import torch

    def d(f, axis, order):
        for _ in range(order):
            g = torch.autograd.grad(f, axis, torch.ones_like(f), create_graph=True, allow_unused=True)[0]
            if g is None:
                return torch.zeros_like(f)
            f = g
        return f
    op, kids = node
    if op == "u1":
        return u
    if op in params:
        return torch.full_like(u, params[op])
    if op.startswith("x"):
        return x[int(op[1:]) - 1]
    a = value(kids[0], u, x, params)
    if op.startswith("diff"):
        return d(a, x[int(kids[1][0][1:]) - 1], {"diff_t": 1, "diff2_t": 2, "diff3_t": 3}[op])
    if op == "lap_t":
        return sum(d(a, c, 2) for c in x)
    if op == "n2_t":
        return a * a
    if op == "n3_t":
        return a * a * a
    b = value(kids[1], u, x, params)
    return {"add_t": lambda: a + b, "sub_t": lambda: a - b, "mul_t": lambda: a * b, "div_t": lambda: a / b}[op]()


class Net:
    """An exact copy of a network, read as a function of the coordinates."""

    def __init__(self, nn, lb, ub):
        import torch
        self.nn = copy.deepcopy(nn).double().cpu()
        self.lb, self.ub = torch.tensor(lb, dtype=torch.float64), torch.tensor(ub, dtype=torch.float64)

    def coords(self, pts):
        import torch
        return [torch.tensor(np.asarray(pts, float)[:, i:i + 1], requires_grad=True) for i in range(np.shape(pts)[1])]

    def __call__(self, cs):
        import torch
        return self.nn(2 * (torch.cat(cs, 1) - self.lb) / (self.ub - self.lb) - 1)

    def derivative(self, pts):
        import torch
        cs = self.coords(pts)
        u = self(cs)
        return u.detach().numpy(), torch.autograd.grad(u.sum(), cs[-1])[0].numpy()

    def residual(self, pts, equation, params):
        import torch
        cs = self.coords(pts)
        u = self(cs)
        ut = torch.autograd.grad(u.sum(), cs[-1], create_graph=True)[0]
        r = ut
        for c, term in equation:
            r = r - c * value(term, u, cs[:-1], params)
        return (r ** 2).mean()

    def loss(self, obs, u, colloc, equation, params, coef, local):
        cs = self.coords(obs)
        import torch
        loss = ((self(cs) - torch.tensor(np.asarray(u, float))) ** 2).mean()
        if coef:
            loss = loss + coef * self.residual(colloc, equation, params)
            if local:
                loss = loss + coef * self.residual(obs, equation, params)
        return loss

    def step(self, lr, *a):
        import torch
        loss = self.loss(*a)
        self.nn.zero_grad()
        g = torch.autograd.grad(loss, list(self.nn.parameters()), allow_unused=True)
        with torch.no_grad():
            for p, q in zip(self.nn.parameters(), g):
                if q is not None:
                    p -= lr * q
        return float(loss)

    def weights(self):
        return np.concatenate([p.detach().numpy().ravel() for p in self.nn.parameters()])


def weights(nn):
    return np.concatenate([p.detach().cpu().numpy().astype(float).ravel() for p in nn.parameters()])


# ------------------------------------------------------------------ a small real model
def make(dims, params, seed=0, scale=1.0, offset=0.0, **pinn):
    from kd.dataset import PDEDataset
    from kd.model.kd_discover import KD_Discover_SPR
    names = ["x", "y", "z"][:dims] + ["t"]
    n = {1: (15, 14), 2: (7, 6, 8), 3: (5, 4, 5, 6)}[dims]
    axes = {a: offset + scale * np.linspace(0, 1 + 0.3 * i, k) for i, (a, k) in enumerate(zip(names, n))}
    grid = np.meshgrid(*axes.values(), indexing="ij")
    u = np.sin(sum((i + 1.3) * (g - offset) / scale for i, g in enumerate(grid))) + 0.3 * (grid[0] - offset) / scale
    pf = {k: np.full(n, v) for k, v in params.items()} or None
    if dims == 1:
        ds = PDEDataset(equation_name="c30", x=axes["x"], t=axes["t"], usol=u, param_fields=pf)
    else:
        ds = PDEDataset(equation_name="c30", fields_data={"u": u}, coords_1d=axes, axis_order=names, target_field="u", lhs_axis="t",
                        param_fields=pf)
    ops = [o for o in OPS]
    m = KD_Discover_SPR(n_samples_per_batch=2, binary_operators=[o for o in ops if ARITY[o] == 2],
                        unary_operators=[o for o in ops if ARITY[o] == 1], seed=seed)
    m.out_path = os.path.join(os.getcwd(), "out", "c30.csv")
    m.import_dataset(ds, sample_ratio=0.15, colloc_num=20, random_state=seed + 1)
    m.config_pinn.update({"n_hidden": 5, "number_layer": 2, "duration": 2, "pinn_epoch": 2, "local_sample": False, "coef_pde": 0.5, **pinn})
    m.setup()
    data = m.data_class.get_data()
    lb, ub = [float(axes[a][0]) for a in names], [float(axes[a][-1]) for a in names]
    return m, data, lb, ub


def observed(data, validation=True):
    """(points, values) given to the network."""
    pts, u = np.asarray(data["X_u_train"], float), np.asarray(data["u_train"], float)
    if validation:
        pts, u = np.vstack([pts, data["X_u_val"]]), np.vstack([u, data["u_val"]])
    return pts, u


def inject(p, name, opt):
    import torch
    if not isinstance(getattr(p, name, None), torch.optim.Optimizer):
        return False
    setattr(p, name, opt)
    return True


def close(ck, got, want, before, key, rep, what):
    """Weights after a step, relative to the step itself."""
    size = np.abs(want - before).max()
    ck.expect(got.shape == want.shape and np.all(np.abs(got - want) <= 2e-3 * size + 3e-6 * (1 + np.abs(want))), key,
              lambda: f"{rep}: {what}: weights move by {size:.3g}, off by {np.abs(got - want).max():.3g}", rep)


# ------------------------------------------------------------------ one training round on every equation
def equations(ck, item):
    import triton._C.libtriton  # noqa: F401
    import torch
    from kd.model.discover.program import Program, from_str_tokens
    dims, params, local, coef, progs, seed = item
    params = dict(params)
    with quiet(), scratch():
        with ck.case("equations-setup", dict(dims=dims, params=params)):
            m, data, lb, ub = make(dims, params, seed)
            p = m.denoise_pinn
            p.pretrain_epoch = 2
            m.pretrain()
            m.config_pinn["pinn_epoch"] = p.pinn_epoch = 1
        obs, u = observed(data)
        start = copy.deepcopy(p.nn.state_dict())
        for toks in progs:
            rep = dict(part="equations", dims=dims, params=params, local=local, coef=coef, equation=",".join(toks))
            ck.visit((item[:4], toks))
            with ck.case("equations", rep):
                Program.clear_cache()
                prog = from_str_tokens(",".join(toks))
                prog.r_ridge
                ck.step()
                terms = split(read(list(toks))[0])
                if prog.invalid or not isinstance(prog.w, (list, tuple, np.ndarray)) or len(prog.w) != len(terms):
                    ck.outcome((dims, "invalid"))
                    continue
                eq = [(float(c), t) for c, t in zip(prog.w, terms)]
                p.nn.load_state_dict(start)
                net = Net(p.nn, lb, ub)
                before = net.weights()
                loss = None
                with contextlib.suppress(RuntimeError):
                    loss = net.step(0.05, obs, u, data["X_f_train"], eq, params, coef, local)
                if loss is None or not math.isfinite(loss) or loss > 1e6 or not np.abs(net.weights() - before).max() < 1e3:
                    ck.outcome((dims, "undefined"))
                    continue
                if not inject(p, "optimizer", torch.optim.SGD(p.nn.parameters(), lr=0.05)):
                    continue
                p.train_pinn([prog], count=1, coef=coef, local_sample=local, last=False)
                close(ck, weights(p.nn), net.weights(), before, "equation-step", rep, f"equation {prog.str_expression}")
                ck.step()
                f = glob.glob(os.path.join(os.path.dirname(m.out_path), "*pinn1.ckpt"))
                if f:
                    sd = torch.load(f[0], map_location="cpu")
                    ck.expect(all(torch.equal(sd[k], v) for k, v in p.nn.state_dict().items()), "equation-checkpoint", f"{rep}", rep)
                ck.outcome((dims, local, coef, round(loss, 6)))
        p.close()
        ck.trace()


def equation_items(deep):
    out = []
    for dims in (1, 2, 3):
        xs = [f"x{i + 1}" for i in range(dims)]
        for params in ((), (("nu", 2.5),), (("k", -0.75), ("nu", 1e-6))):
            leaves = ["u1"] + [k for k, _ in params] + xs[:1]
            all_ops = OPS
            progs = []
            for size in range(1, 6):
                for t in trees(size, leaves, xs, all_ops if size < 5 else [o for o in OPS if o not in ("sub_t", "n3_t", "diff3_t", "div_t")]):
                    if "u1" not in t or (params and not any(k in t for k, _ in params)):
                        continue
                    progs.append(t)
            progs.sort(key=lambda t: h(str((dims, params, t))))
            progs.sort(key=len)
            n = sum(len(t) <= 4 for t in progs)
            progs = progs[:n + (8000 if deep else 300)] if deep or n < 900 else progs[:900]
            for local, coef in ((False, 0.5), (True, 0.5), (True, 2.0), (False, 0.0)):
                sub = progs if coef == 0.5 else progs[:25]
                step = 130
                for i in range(0, len(sub), step):
                    out.append((dims, params, local, coef, sub[i:i + step], 0))
    return sorted(out, key=lambda i: h(str(i)))


# ------------------------------------------------------------------ pretraining and its checkpoint
class Script:
    """An optimizer whose steps set the network to the constants of a script."""

    def __new__(cls, nn, script):
        import torch

        class S(torch.optim.SGD):
            def __init__(self):
                super().__init__(nn.parameters(), lr=1.0)
                self.todo, self.taken = list(script), 0

            def step(self, closure=None):
                self.taken += 1
                constant(nn, self.todo.pop(0) if self.todo else 0.0)
        return S()


def constant(nn, b):
    import torch
    with torch.no_grad():
        ps = list(nn.parameters())
        for q in ps:
            q.zero_()
        ps[-1].fill_(b)


def sparse(dims=1, seed=0, n=6, nv=3, nf=5):
    g = np.random.default_rng(seed)
    f = lambda k: g.uniform(0.1, 0.9, (k, dims + 1)).astype(np.float32)
    return dict(X_u_train=f(n), u_train=g.normal(size=(n, 1)).astype(np.float32), X_f_train=f(nf), X_u_val=f(nv),
                u_val=np.zeros((nv, 1), np.float32), lb=np.zeros(dims + 1), ub=np.ones(dims + 1))


def network(dims=1, **cfg):
    import torch
    from kd.model.discover.pinn import PINN_model
    c = dict(number_layer=2, input_dim=dims + 1, n_hidden=4, out_dim=1, activation="sin", coef_pde=0.1, noise=0, data_ratio=1,
             coll_data=5, data_type="1D_1U", lr=1e-3, pinn_epoch=2, duration=2)
    c.update(cfg)
    return PINN_model(os.path.join(os.getcwd(), "net", "run.csv"), c, None, torch.device("cpu"))


LEVELS = (0.5, 1.0, 3.0, 1e6, float("nan"))


def pretraining(ck, item):
    """Every course of the validation loss up to a bounded length."""
    import triton._C.libtriton  # noqa: F401
    import torch
    duration, length, first, second = item
    with quiet(), scratch():
        data = sparse()
        for tail in itertools.product(LEVELS, repeat=length - 2):
            script = (first, second) + tail
            rep = dict(part="pretraining", validation=script, duration=duration)
            ck.visit(("pre", item, script))
            with ck.case("pretraining", rep):
                for f in glob.glob("net/*.ckpt"):
                    os.remove(f)
                p = network(duration=duration)
                p.import_outter_data(data)
                if not hasattr(p, "pretrain_epoch"):
                    continue
                p.pretrain_epoch = length - 1
                constant(p.nn, script[0])
                if not inject(p, "optimizer_pretrain", Script(p.nn, script[1:])):
                    continue
                p.pretrain()
                ck.step(length - 1)
                best, at, stop = math.inf, 0, length - 1
                for i, b in enumerate(script[:-1]):
                    if b * b < best:
                        best, at = b * b, i
                    if i - at > duration:
                        stop = i + 1
                        break
                ck.expect(p.optimizer_pretrain.taken == stop, "pretraining:stop", lambda: f"{rep}: {p.optimizer_pretrain.taken} epochs", rep)
                f = glob.glob("net/*pretrain*.ckpt")
                ck.expect(len(f) == (best < math.inf), "pretraining:checkpoint", lambda: f"{rep}: {f}", rep)
                if f:
                    q = network()
                    q.import_outter_data(data)
                    q.load_model(f[0])
                    got = float(q.evaluate(torch.rand(1, 2))[0, 0].detach())
                    ck.expect(got == np.float32(script[at]), "pretraining:best", lambda: f"{rep}: the checkpoint holds {got}", rep)
                    q.close()
                    r = network(pretrain_path=f[0])
                    r.import_outter_data(data)
                    r.pretrain()
                    got = float(r.evaluate(torch.rand(1, 2))[0, 0].detach())
                    ck.expect(got == np.float32(script[at]), "pretraining:given", lambda: f"{rep}: the given network answers {got}", rep)
                    all_observed(ck, r, data, rep)
                    r.close()
                    ck.step(2)
                p.close()
                ck.outcome((duration, stop, at))
            ck.trace()


def pretraining_items(deep):
    n = 6 if deep else 5
    return sorted([(d, k, a, b) for d in (0, 1, 2, 5) for k in range(2, n + 1)
                   for a in (LEVELS[:3] if k == n else LEVELS) for b in (LEVELS[:2] if k == n else LEVELS)], key=lambda i: h(str(i)))


def all_observed(ck, p, data, rep):
    """After pretraining every observation is in use, once, with its own value."""
    pts, u = observed(data)
    if hasattr(p, "x") and hasattr(p, "u_train"):
        got = np.concatenate([np.asarray(v.detach()) for v in p.x] + [np.asarray(p.t.detach()), np.asarray(p.u_train)], 1)
        want = np.concatenate([pts, u], 1)
        ck.expect(sorted(map(tuple, got.astype(np.float32))) == sorted(map(tuple, want.astype(np.float32))), "pretraining:observations",
                  lambda: f"{rep}: {len(got)} observations", rep)


def gradient(ck, item):
    """Pretraining follows the training observations only; afterwards all observations count, once each."""
    import triton._C.libtriton  # noqa: F401
    import torch
    dims, n, nv, epochs, activation, unit = item
    rep = dict(part="gradient", dims=dims, observations=n, validation=nv, epochs=epochs, unit=unit)
    ck.visit(("gradient", item))
    with quiet(), scratch(), ck.case("gradient", rep):
        data = sparse(dims, seed=n * 7 + nv, n=n, nv=nv)
        data["u_val"] = np.linspace(-1, 1, nv).reshape(-1, 1).astype(np.float32)
        for k in ("X_u_train", "X_u_val", "X_f_train"):
            data[k] = (data[k] * np.float32(unit)).astype(np.float32)
        lb, ub = [0.0] * (dims + 1), [unit * (1 + i) for i in range(dims + 1)]
        data["lb"], data["ub"] = np.array(lb), np.array(ub)
        keep = {k: np.array(v) for k, v in data.items()}
        p = network(dims, activation=activation, duration=100)
        p.import_outter_data(data)
        p.pretrain_epoch = epochs
        net = Net(p.nn, lb, ub)
        before = net.weights()
        if not inject(p, "optimizer_pretrain", torch.optim.SGD(p.nn.parameters(), lr=0.1)):
            return
        p.pretrain()
        ck.step()
        for _ in range(epochs):
            net.step(0.1, *observed(data, False), None, None, {}, 0, False)
        close(ck, weights(p.nn), net.weights(), before, "pretraining:step", rep, "pretraining")
        all_observed(ck, p, data, rep)
        some = np.float32(unit) * np.linspace(0.1, 0.8, 4 * (dims + 1)).reshape(4, -1).astype(np.float32)
        want = net(net.coords(some)).detach().numpy()
        for form in (torch.tensor(some), [torch.tensor(some[:, i:i + 1]) for i in range(dims + 1)]):
            for ask in (p.evaluate, p.predict, p.net_u):
                ck.expect(np.allclose(np.asarray(ask(form).detach()), want, atol=1e-4), "network:value", lambda: f"{rep}", rep)
                ck.step()
        ck.expect(all(np.array_equal(keep[k], data[k]) for k in keep), "pretraining:data", f"{rep}: the observations were changed", rep)
        p.close()
        ck.trace()


# ------------------------------------------------------------------ the last round's checkpoint
def last_round(ck, item):
    import triton._C.libtriton  # noqa: F401
    import torch
    from kd.model.discover.program import Program, from_str_tokens
    coef, local, length, first = item
    levels = (0.5, -1.0, 3.0, 1e6, float("nan"))
    with quiet(), scratch():
        with ck.case("last-setup"):
            m, data, lb, ub = make(1, {}, 0)
            p = m.denoise_pinn
            p.pretrain_epoch = 2
            m.pretrain()
            Program.clear_cache()
            prog = from_str_tokens("u1")
            prog.r_ridge
            w = float(prog.w[0])
        obs, u = observed(data)
        for tail in itertools.product(levels, repeat=length - 1):
            script = (first,) + tail
            rep = dict(part="last round", script=script, coef=coef, local=local)
            ck.visit(("last", item, script))
            with ck.case("last round", rep):
                for f in glob.glob("out/**/*.ckpt", recursive=True):
                    os.remove(f)
                p.pinn_epoch = length - 1
                constant(p.nn, script[0])
                if not inject(p, "optimizer", Script(p.nn, script[1:])):
                    continue
                p.train_pinn([prog], count=3, coef=coef, local_sample=local, last=True)
                ck.step(length - 1)

                def loss(b):
                    r = (w * b) ** 2
                    return float(((u - b) ** 2).mean()) + coef * (r + (r if local else 0))
                best, at = math.inf, None
                for i, b in enumerate(script[:-1]):
                    if loss(b) < best:
                        best, at = loss(b), i
                ck.expect(p.optimizer.taken == length - 1, "last:epochs", lambda: f"{rep}: {p.optimizer.taken}", rep)
                fs = {os.path.basename(f): f for f in glob.glob("out/**/*pinn3*.ckpt", recursive=True)}
                b = [f for n, f in fs.items() if "best" in n]
                end = [f for n, f in fs.items() if "best" not in n]
                ck.expect(len(end) == 1 and len(b) == (at is not None), "last:files", lambda: f"{rep}: {sorted(fs)}", rep)

                def held(f):
                    return float(list(torch.load(f, map_location="cpu").values())[-1][0])
                if b and at is not None:
                    ck.expect(held(b[0]) == np.float32(script[at]) or loss(held(b[0])) == best, "last:best",
                              lambda: f"{rep}: the best checkpoint holds {held(b[0])}, the best was {script[at]}", rep)
                if end:
                    ck.expect(held(end[0]) == np.float32(script[-1]) or script[-1] != script[-1], "last:end", lambda: f"{rep}: {held(end[0])}", rep)
                ck.outcome((at, coef, local))
            ck.trace()
        p.close()


# ------------------------------------------------------------------ what candidates are scored on
def on_network(ck, m, data, lb, ub, cut, key, rep):
    """The points, field and time derivative of the task are those of the network as it is now."""
    from kd.model.discover.program import Program
    task, p = Program.task, m.denoise_pinn
    pts = np.concatenate([np.asarray(v.detach(), float) for v in task.x] + [np.asarray(task.t.detach(), float)], 1)
    full = np.asarray(data["X_f_train"], np.float32)
    low, up = np.quantile(full, cut, axis=0), np.quantile(full, 1 - cut, axis=0)
    tol = 1e-6 * (1 + np.abs(up))
    inside, edge = np.all((full > low + tol) & (full < up - tol), 1), np.all((full >= low - tol) & (full <= up + tol), 1)
    have = set(map(tuple, pts.astype(np.float32)))
    ck.expect(len(pts) > 0 and have <= set(map(tuple, full[edge])) and set(map(tuple, full[inside])) <= have, key + ":points",
              lambda: f"{rep}: {len(pts)} points, {inside.sum()}..{edge.sum()} expected", rep)
    net = Net(p.nn, lb, ub)
    u, ut = net.derivative(pts)
    ck.expect(np.allclose(np.asarray(task.u[0].detach()), u, atol=1e-4), key + ":field", lambda: f"{rep}: not the network's field", rep)
    got = np.asarray(task.ut).reshape(ut.shape) if np.size(task.ut) == ut.size else np.full(1, np.nan)
    ck.expect(got.shape == ut.shape and np.allclose(got, ut, atol=1e-4 * (1 + np.abs(ut).max())), key + ":derivative",
              lambda: f"{rep}: not the network's time derivative", rep)
    return net, pts, ut


def rounds(ck, item):
    """The whole alternation of search and training, the searches' answers enumerated."""
    import triton._C.libtriton  # noqa: F401
    import torch
    from kd.model.discover.program import Program, from_str_tokens
    dims, params, local, coef, n_rounds, picks, again = item
    params = dict(params)
    rep = dict(part="rounds", dims=dims, params=params, local=local, coef=coef, found=[",".join(t) for t in picks], again=again)
    ck.visit(("rounds", item))
    with quiet(), scratch(), ck.case("rounds", rep):
        m, data, lb, ub = make(dims, params, 0, iter_num=n_rounds, local_sample=local, coef_pde=coef)
        cut = m.config_task.get("cut_ratio", 0.0)
        for turn in range(1 + again):
            if turn:
                m.setup()
            p = m.denoise_pinn
            p.pretrain_epoch = 3
            if not inject(p, "optimizer", torch.optim.SGD(p.nn.parameters(), lr=0.05)):
                return
            obs, u = observed(data)
            log, todo = [], list(picks)
            state = {}

            def search(**k):
                net, pts, ut = on_network(ck, m, data, lb, ub, cut, f"search", rep)
                if "w" in state:
                    before, want = state.pop("w")
                    close(ck, net.weights(), want, before, "round-training", rep, f"training of round {len(log)}")
                prog = from_str_tokens(",".join(todo.pop(0)))
                prog.r_ridge
                state["net"] = net
                log.append(("search", prog))
                return {"program": prog, "r": prog.r_ridge}
            m.searcher.search = search
            real = p.train_pinn

            def train(best_p, *a, **k):
                prog = best_p[0] if isinstance(best_p, (list, tuple)) else best_p
                net = state["net"]
                before = net.weights()
                ck.expect(np.allclose(before, weights(p.nn), atol=1e-5), "round-start", f"{rep}: the network changed during a search", rep)
                log.append(("train", prog))
                if not prog.invalid:
                    terms = split(read([t.name for t in prog.traversal])[0])
                    if len(terms) == len(prog.w):
                        eq = [(float(c), t) for c, t in zip(prog.w, terms)]
                        for _ in range(2):
                            net.step(0.05, obs, u, data["X_f_train"], eq, params, coef, local)
                        state["w"] = (before, net.weights())
                return real(best_p, *a, **k)
            p.train_pinn = train
            res = m.callIterPINN(1, verbose=False)
            ck.step(2 * n_rounds + 1)
            ck.expect([k for k, _ in log] == ["search", "train"] * n_rounds + ["search"], "round-order", lambda: f"{rep}: {[k for k, _ in log]}", rep)
            for i in range(1, len(log), 2):
                allowed = {id(log[i - 1][1])} if i == 1 else None
                if allowed:
                    ck.expect(id(log[i][1]) in allowed, "round-equation", lambda: f"{rep}: trained on {log[i][1].str_expression}", rep)
                else:
                    texts = [[t.name for t in log[j][1].traversal] for j in range(0, i, 2)]
                    ck.expect([t.name for t in log[i][1].traversal] in texts, "round-equation", lambda: f"{rep}: {log[i][1].str_expression}", rep)
            prog = res["program"]
            net, pts, ut = on_network(ck, m, data, lb, ub, cut, "end", rep)
            terms = split(read(list(picks[-1]))[0])
            if not prog.invalid and len(terms) == 1:
                cs = net.coords(pts)
                T = value(terms[0], net(cs), cs[:-1], params).detach().numpy()
                want = float((T * ut).sum() / (T * T).sum())
                ck.expect(abs(prog.w[0] - want) <= 1e-3 * abs(want) + 1e-4, "end:coefficient",
                          lambda: f"{rep}: {prog.w} instead of {want} on the final network", rep)
            p.close()
            ck.outcome((dims, n_rounds, len(log)))
        ck.trace()


def round_items(deep):
    pool = {1: [("u1",), ("mul_t", "u1", "diff_t", "u1", "x1"), ("add_t", "u1", "diff2_t", "u1", "x1"), ("diff_t", "u1", "x1"), ("diff_t", "x1", "x1")],
            2: [("u1",), ("add_t", "diff_t", "u1", "x2", "diff_t", "u1", "x1"), ("diff2_t", "u1", "x2"), ("lap_t", "u1")],
            3: [("u1",), ("diff_t", "u1", "x3"), ("add_t", "u1", "diff_t", "u1", "x2")]}
    out = []
    for dims, eqs in pool.items():
        for params in ((), (("nu", 2.5),)):
            es = [tuple("nu" if (params and i == 1 and t == "u1") else t for i, t in enumerate(e)) for e in eqs]
            if params:
                es = [("mul_t", "nu", "u1"), ("mul_t", "nu", "diff_t", "u1", "x1"), ("u1",)]
            for n in (1, 2, 3 if deep else 2):
                for picks in itertools.product(es, repeat=n + 1):
                    if n == 3 and h(str(picks)) % 4:
                        continue
                    for local, coef in ((False, 0.5), (True, 1.0)):
                        if not deep and n == 2 and (h(str((dims, params, picks))) % 6 or local != bool(h(str(picks)) % 2)):
                            continue
                        out.append((dims, params, local, coef, n, picks, h(str(picks)) % 5 == 0))
    return sorted(set(out), key=lambda i: h(str(i)))


def run(ck):
    import triton._C.libtriton  # noqa: F401
    import kd.model.kd_discover  # noqa: F401
    import kd.model.discover.pinn  # noqa: F401
    deep = ck.thorough
    ck.part("pretraining")
    ck.pool(pretraining, pretraining_items(deep))
    ck.part("observations")
    ck.pool(gradient, [(d, n, v, e, a, s) for d in (1, 2, 3) for n in (1, 2, 5) for v in (1, 2, 4) for e in (1, 2, 4)
                       for a in ("sin", "tanh") for s in ((1.0, 1e-3, 100.0) if deep or e != 4 else (1.0,))])
    ck.part("last round")
    ck.pool(last_round, [(c, l, n, f) for c in (0.0, 0.5, 2.0) for l in (False, True) for n in range(2, 6 if deep else 5)
                         for f in (0.5, -1.0, 3.0, 1e6, float("nan"))])
    ck.part("equations")
    ck.pool(equations, equation_items(deep))
    ck.part("rounds")
    ck.pool(rounds, round_items(deep))
    ck.end_part()
    ck.assumptions += [
        "the optimizers are replaced by plain gradient descent or by scripted ones, so that one step shows the gradient of the loss",
        "the searches' answers are enumerated instead of sampled in 'rounds'; networks have one hidden layer",
    ]
