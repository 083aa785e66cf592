"""C29: the surrogate networks EqGPT scores candidates on stand for the observations of their own case."""
import contextlib
import itertools
import math
import os
import pathlib
import pickle
import shutil
import tempfile

try:
    import triton._C.libtriton  # noqa: F401  (must be loaded before TensorFlow)
except Exception:  # noqa: BLE001
    pass
import numpy as np

from mc.core import h, quiet

NAMES = ("N_G1Tp10A050", "G2Tp12A100_broad", "N_G2Tp15A080", "B_G3Tp20A010")
XGRID = np.concatenate([np.linspace(8.18, 9.34, 50), np.linspace(9.77, 10.93, 50), np.linspace(11.41, 12.57, 50)])
DT = 0.05


def scales(name):
    tp = int(name.split("Tp")[1].split("A")[0]) / 10.0
    return tp, 9.81 * tp ** 2 / (2.0 * math.pi)


def times(last):
    return np.arange(0.05 + 0.1, last - 0.1, 0.05)


def observations(name, last, stride, order):
    """Rows (time, position, elevation) on the points of the scoring grid, and one later row that sets the end."""
    t, x = times(last), XGRID[::stride]
    rows = [(a, b, np.sin(3 * a + 1.3 * b) + 0.1 * len(name) + a * b) for a in t for b in x]
    rows.append((last, XGRID[0], 0.5))
    rows = np.array(rows)
    if order == "reversed":
        rows = rows[::-1].copy()
    elif order == "shuffled":
        rows = rows[np.argsort([h((name, i)) for i in range(len(rows))])]
    return rows


class Watch:
    """Everything that passes through a module: inputs of networks, and what they are compared with."""

    def __init__(self, script=None):
        self.script = script
        self.inputs, self.losses, self.states = [], [], []

    def __enter__(self):
        from torch.nn.modules import module as M
        import torch
        depth = [0]

        def pre(mod, args):
            depth[0] += 1
            if depth[0] == 1 and len(args) == 1 and torch.is_tensor(args[0]) and args[0].ndim == 2:
                self.inputs.append((mod, args[0].detach().cpu().numpy().copy()))
            if depth[0] == 1 and len(args) == 2 and all(torch.is_tensor(a) for a in args):
                self.losses.append([a.detach().cpu().numpy().copy() for a in args])

        def post(mod, args, out):
            depth[0] -= 1
            if depth[0] == 0 and len(args) == 1 and self.script is not None:
                return self.script(self, mod, args[0], out)
            return None
        self.handles = [M.register_module_forward_pre_hook(pre), M.register_module_forward_hook(post)]
        return self

    def __exit__(self, *a):
        for x in self.handles:
            x.remove()


@contextlib.contextmanager
def scene(data, stored=()):
    """The real KD_EqGPT up to the point where a candidate is scored; candidates and the language model are stand-ins."""
    import torch
    import kd.model.kd_eqgpt as ke
    from kd.model.eqgpt import continue_train_GPT_all as c, gpt_model as g
    n = len(g.id2word)

    class StubGPT(torch.nn.Module):
        def __init__(self):
            super().__init__()
            self.bias = torch.nn.Parameter(torch.zeros(n))

        def load_state_dict(self, *a, **k):
            return None

        def step(self, sentence, mask):
            return g.word2id["E"], None

        def forward(self, x):
            return self.bias.expand(x.shape[0] * x.shape[1], -1), []

    d = pathlib.Path(tempfile.mkdtemp(prefix="c29-"))
    (d / "gpt_model").mkdir()
    torch.save({}, str(d / "gpt_model" / "PDEGPT_wave_breaking.pt"))
    with open(d / "wave_breaking_data.pkl", "wb") as f:
        pickle.dump(data, f)
    got = {}

    def reward(sentence, nets, dbs, values, mask, variables, nx, nt):
        got.update(nets=list(nets), dbs=list(dbs), nx=list(nx), nt=list(nt), variables=list(variables))
        return 0.5, values, mask
    weights = {}
    from kd.model.eqgpt.neural_network import NN
    for name in stored:
        p = d / "model_save" / "wave_breaking" / f"95_0_{name}(Non_unit)"
        p.mkdir(parents=True)
        for k in (500, 1000):
            torch.manual_seed(h((name, k)) % 2 ** 31)
            net = NN(Num_Hidden_Layers=6, Neurons_Per_Layer=60, Input_Dim=2, Output_Dim=1, Data_Type=torch.float32,
                     Device="cpu", Activation_Function="Sin", Batch_Norm=False)
            torch.save(net.state_dict(), str(p / f"Net_Sin_{k}.pkl"))
            weights[name, k] = {q: v.clone() for q, v in net.state_dict().items()}
        np.save(str(p / "best_epoch.npy"), np.array([500 if len(name) % 2 else 1000]))
    stand_ins = [(m, a, v) for m in (g, c, ke) for a, v in (
        ("GPT", StubGPT), ("calculate_reward", reward), ("_DATA_DIR", d), ("_EQGPT_DIR", d)) if hasattr(m, a)]
    saved = [(m, a, getattr(m, a)) for m, a, _ in stand_ins]
    for m, a, v in stand_ins:
        setattr(m, a, v)

    def files():
        return {str(p.relative_to(d)): h(p.read_bytes()) for p in sorted(d.rglob("*")) if p.is_file()}

    def go(**k):
        got.clear()
        before = files()
        with quiet():
            ke.KD_EqGPT(optimize_epochs=1, samples_per_epoch=1, **k).fit_pretrained()
        got["unchanged files"] = files() == before
        return dict(got)
    try:
        yield go, weights, d
    finally:
        for m, a, v in saved:
            setattr(m, a, v)
        shutil.rmtree(d, ignore_errors=True)


def same_weights(net, want):
    s = net.state_dict()
    return set(s) == set(want) and all(np.array_equal(s[k].numpy(), want[k].numpy()) for k in s)


def grid_ok(ck, got, i, name, rows, key, rep):
    """The scoring grid: every position at every kept time, time in the first column, time-major."""
    tp, lam = scales(name)
    t = times(rows[:, 0].max())
    db = got["dbs"][i].detach().cpu().numpy()
    T, X = np.meshgrid(t / tp, (XGRID - 8.17) / lam, indexing="ij")
    ok = ck.expect((got["nx"][i], got["nt"][i]) == (len(XGRID), len(t)), key + ":size",
                   f"{rep}: {got['nx'][i]} x {got['nt'][i]}, expected {len(XGRID)} x {len(t)}", rep)
    ok &= ck.expect(db.shape == (T.size, 2) and np.allclose(db, np.stack([T.ravel(), X.ravel()], 1), atol=1e-5),
                    key + ":points", lambda: f"{rep}: {name}: scored on other points than its own", rep)
    ck.expect(got["dbs"][i].requires_grad, key + ":gradient", f"{rep}", rep)
    return ok


def stored_case(ck, case):
    names, stored, flt, order = case
    rep = {"cases": list(names), "weights shipped for": list(stored), "filter": flt}
    data = {n: observations(n, 0.35 + 0.05 * i, 50, "as is") for i, n in enumerate(names)}
    before = {k: v.copy() for k, v in data.items()}
    key = "stored"
    ck.visit(repr(case))
    want = [n for n in sorted(names) if (flt == "all" or "N" in n) and n in stored]
    with ck.case(key, rep), scene(data, stored) as (go, weights, d):
        ck.step()
        if not want:
            try:
                go(case_filter=flt)
            except RuntimeError:
                ck.trace()
                ck.outcome("none")
                return
            ck.fail(key + ":none", f"{rep}: no case with weights, and the search still ran", rep)
            return
        got = go(case_filter=flt)
        ck.expect(len(got["nets"]) == len(got["dbs"]) == len(got["nx"]) == len(got["nt"]) == len(want),
                  key + ":cases", f"{rep}: {len(got['nets'])} networks for {want}", rep)
        for i, n in enumerate(want[:len(got["nets"])]):
            k = 500 if len(n) % 2 else 1000
            ck.expect(same_weights(got["nets"][i], weights[n, k]), key + ":weights",
                      f"{rep}: network {i} is not the best one of {n}", rep)
            ck.expect(not got["nets"][i].training, key + ":mode", f"{rep}", rep)
            grid_ok(ck, got, i, n, data[n], key + ":grid", rep)
        ck.expect(got["variables"] == ["t", "x"], key + ":variables", str(got["variables"]), rep)
        ck.expect(got["unchanged files"], key + ":files", f"{rep}: shipped files changed", rep)
        ck.trace()
    ck.expect(all(np.array_equal(data[k], before[k]) for k in data), key + ":data", f"{rep}", rep)
    ck.outcome(tuple(want))


def trained_case(ck, case):
    """Retrained networks: fitted to the observations at the very points they are asked about."""
    names, flt, last, stride, order, epochs, seed = case
    rep = {"cases": list(names), "filter": flt, "last time": last, "every": stride, "order": order,
           "surrogate_epochs": epochs, "seed": seed}
    data = {n: observations(n, last, stride, order) for n in names}
    before = {k: v.copy() for k, v in data.items()}
    key = "retrained"
    ck.visit(repr(case))
    want = [n for n in sorted(names) if flt == "all" or "N" in n]
    with ck.case(key, rep, timeout=300), scene(data, names) as (go, weights, d):
        with Watch() as w:
            got = go(case_filter=flt, retrain_surrogate=True, surrogate_epochs=epochs, seed=seed)
        ck.step()
        ck.expect(len(got["nets"]) == len(want), key + ":cases", f"{rep}: {len(got['nets'])} networks for {want}", rep)
        ck.expect(got["unchanged files"], key + ":files", f"{rep}: the shipped weights were overwritten", rep)
        mods = []
        for m, a in w.inputs:
            if a.shape[1] == 2 and m not in mods:
                mods.append(m)
        for i, n in enumerate(want[:len(got["nets"])]):
            grid_ok(ck, got, i, n, data[n], key + ":grid", rep)
            if len(mods) != len(want):
                continue
            rows = data[n]
            tp, lam = scales(n)
            keep = rows[:, 0] < last - 1e-9
            fed = [a for m, a in w.inputs if m is mods[i]]
            db = got["dbs"][i].detach().cpu().numpy()
            # the training batch is the largest of what the network was given while training
            batch = max(fed, key=len)
            n_val = int(0.05 * len(rows))
            ck.expect(int(0.95 * len(rows)) == len(batch), key + ":batch",
                      f"{rep}: {n}: fitted on {len(batch)} of {len(rows)} observations", rep)
            near = np.abs(batch[:, None, :] - db[None, :, :]).max(2)
            at = near.argmin(1)
            off = near[np.arange(len(at)), at] > 1e-4
            extra = int((~keep).sum())
            ck.expect(off.sum() <= extra, key + ":coordinates",
                      lambda: f"{rep}: {n}: fitted at {batch[off][:2].tolist()}, which is no point of the grid it is "
                              f"scored on ({db.min(0).tolist()} to {db.max(0).tolist()})", rep)
            if off.sum() > extra:
                continue
            ck.expect(len(set(map(tuple, batch.round(5).tolist()))) == len(batch), key + ":repeated", f"{rep}", rep)
            # what it is compared with, observation by observation
            pairs = [p for p in w.losses if p[0].shape == p[1].shape == (len(batch), 1)]
            nx = got["nx"][i]
            raw = {(round(a, 6), round(b, 6)): v for a, b, v in rows}
            t = times(rows[:, 0].max())
            truth = np.array([raw.get((round(t[k // nx], 6), round(XGRID[k % nx], 6)), np.nan) for k in at])
            truth[off] = np.nan
            ck.expect(np.isnan(truth).sum() <= extra, key + ":points", f"{rep}: {n}", rep)
            mine = [p for p in pairs if any(ratio_const(q[:, 0], truth) for q in p)]
            ck.expect(not pairs or mine, key + ":values",
                      f"{rep}: {n}: the network is compared with values of other observations", rep)
            good = ~np.isnan(truth) & (np.abs(truth) > 1e-3)
            sized = [q for p in mine for q in p if ratio_const(q[:, 0], truth)]
            ck.expect(good.sum() < 3 or not sized or any(np.allclose(q[good, 0], truth[good] * 100 / lam, rtol=1e-3) for q in sized),
                      key + ":units", lambda: f"{rep}: {n}: elevations are not in hundredths of the case's wavelength", rep)
        ck.trace()
    ck.expect(all(np.array_equal(data[k], before[k]) for k in data), key + ":data", f"{rep}: observations changed", rep)
    ck.outcome((tuple(want), epochs))
    ck.sample(rep)


def ratio_const(a, b):
    ok = ~np.isnan(b) & (np.abs(b) > 1e-3)
    if ok.sum() < 3:
        return True
    r = a[ok] / b[ok]
    return bool(np.all(r > 0) and np.allclose(r, r[0], rtol=1e-3))


def chosen_case(ck, case):
    """Which of the stored stages of the training is used: the one with the lowest validation error."""
    errors, tail = case
    epochs = 500 * len(errors) + tail
    name = NAMES[0]
    rep = {"validation errors": list(errors), "surrogate_epochs": epochs}
    data = {name: observations(name, 0.35, 7, "as is")}
    n_val = int(0.05 * len(data[name]))
    key = "chosen"
    ck.visit(repr(case))
    if not 1 <= n_val < 4:
        ck.fail("harness", f"{n_val} validation rows", rep)
        return
    states = []

    def script(w, mod, x, out):
        if x.ndim == 2 and x.shape[1] == 2 and len(x) == n_val:
            e = errors[len(states)] if len(states) < len(errors) else 9.0
            states.append({k: v.detach().clone() for k, v in mod.state_dict().items()})
            ys = data[name][:, 2] * 100
            # far from every observation, the further the larger the scripted error
            return out.detach() * 0 + 1e5 + 1e4 * float(e) + float(ys.max())
        return None
    with ck.case(key, rep, timeout=600), scene(data, [name]) as (go, weights, d):
        with Watch(script) as w:
            got = go(case_filter="all", retrain_surrogate=True, surrogate_epochs=epochs)
        ck.step(epochs)
        n_train = int(0.95 * len(data[name]))
        train = {tuple(r) for _, a in w.inputs if len(a) == n_train and a.shape[1] == 2 for r in a.round(6).tolist()}
        val = {tuple(r) for _, a in w.inputs if len(a) == n_val and a.shape[1] == 2 for r in a.round(6).tolist()}
        ck.expect(not (train & val), key + ":validation rows", f"{rep}: {len(train & val)} of them are trained on", rep)
        if len(states) != len(errors):
            return                       # validation is not taken once per stage: nothing to compare
        best = min(errors)
        ck.expect(any(same_weights(got["nets"][0], s) for s, e in zip(states, errors) if e == best), key + ":stage",
                  lambda: f"{rep}: the network used is that of stage "
                          f"{[i for i, s in enumerate(states) if same_weights(got['nets'][0], s)]}", rep)
        ck.trace()
    ck.outcome(errors)


def run(ck):
    import torch
    torch.set_num_threads(1)
    ck.part("stored weights")
    cases = []
    for k in (1, 2, 3, 4):
        for names in itertools.permutations(NAMES, k):
            if k > 2 and not ck.thorough and h(names) % 4:
                continue
            for s in range(2 ** k):
                stored = tuple(n for i, n in enumerate(names) if s >> i & 1)
                if k == 4 and not ck.thorough and h((names, s)) % 2:
                    continue
                for flt in ("N", "all"):
                    cases.append((names, stored, flt, None))
    ck.pool(stored_case, sorted(cases, key=lambda c: h(str(c))))
    ck.end_part()
    ck.part("retrained")
    cases = []
    for k in (1, 2, 3):
        for names in itertools.permutations(NAMES, k):
            if k == 3 and not ck.thorough and h(names) % 3:
                continue
            for flt in ("N", "all"):
                if not any(flt == "all" or "N" in n for n in names):
                    continue
                for last, stride, order, epochs in itertools.product(
                        (0.3, 0.41), (50, 7), ("as is", "reversed", "shuffled"), (1, 3)):
                    if k > 1 and (stride == 50 or order == "reversed" or epochs == 3):
                        continue
                    for seed in (0, 1):
                        cases.append((names, flt, last, stride, order, epochs, seed))
    ck.pool(trained_case, sorted(cases, key=lambda c: h(str(c))))
    ck.end_part()
    ck.part("chosen stage")
    cases = [(e, 0) for n in (1, 2) for e in itertools.product((0, 1), repeat=n)]
    cases += [(e, 0) for e in itertools.product((0, 1, 2), repeat=3)
              if ck.thorough or len(set(e)) == 3]
    cases += [((1, 0), 137), ((0, 1), 499)]
    if ck.thorough:
        cases += [(e, 0) for e in itertools.permutations(range(4))]
    ck.pool(chosen_case, sorted(cases, key=lambda c: -len(c[0])))
    ck.end_part()
    ck.assumptions += ["the language model and the scoring of candidates are stand-ins; the surrogate networks, their "
                       "training and the grids are the real code",
                       "observations lie on the scoring grid, apart from the one that ends the record"]
