"""C05: the reported best expression is the best one ever evaluated."""
import itertools
import math
import os

os.environ.setdefault("TQDM_DISABLE", "1")

try:
    import triton._C.libtriton  # noqa: F401
except Exception:  # noqa: BLE001
    pass
import numpy as np

from mc.core import h, quiet
from mc.explore import sequences

LENGTH = 4
# name: (valid, score). Equal, zero, negative and invalid scores; an invalid one may outscore valid ones.
SCORES = {"I": (False, 0.0), "J": (False, 0.0), "N": (True, -1.0), "M": (True, -0.25), "Z": (True, 0.0), "a": (True, 0.5),
          "b": (True, 0.5), "c": (True, 0.75), "d": (True, 0.9)}
TREES = {"I": ("x1",), "J": ("x2",), "N": ("add", "x1", "x1"), "M": ("add", "x1", "x2"), "Z": ("add", "x2", "x1"),
         "a": ("add", "x2", "x2"), "b": ("sin", "x1"), "c": ("sin", "x2"), "d": ("sin", "sin", "x1")}


class Stub:
    """A controller that returns the scripted batches and records how it is trained."""

    def __init__(self, lib, pqt_k=2, pqt_batch_size=1):
        self.pqt_k, self.pqt_batch_size, self.max_length = pqt_k, pqt_batch_size, LENGTH
        self.lib, self.todo, self.trained, self.sampled = lib, [], [], []

    def rows(self, names, first=0):
        acts = []
        for k, n in enumerate(names):
            t = [self.lib.names.index(x) for x in TREES[n]]
            acts.append(t + [(k + first) % len(self.lib.names)] * (LENGTH - len(t)))
        ids = np.arange(first, first + len(names), dtype=np.float32)
        obs = np.tile(ids[:, None, None], (1, 4, LENGTH)) + np.arange(4, dtype=np.float32)[None, :, None] * 100
        pri = np.tile(ids[:, None, None], (1, LENGTH, len(self.lib.names))) * 2
        return np.array(acts, dtype=np.int64), obs, pri

    def sample_episodes(self, batch_size):
        import torch
        names = self.todo.pop(0)
        assert batch_size == len(names), (batch_size, names)
        acts, obs, pri = self.rows(names, 10 * len(self.sampled))
        self.sampled.append((names, acts, obs, pri))
        return torch.tensor(acts), torch.tensor(obs), torch.tensor(pri), torch.full((len(names),), LENGTH), torch.ones(len(names), dtype=torch.bool)

    def train_step(self, baseline, batch, pqt_batch):
        self.trained.append((baseline, batch, pqt_batch))


class Rig:
    def __init__(self, scores=SCORES, **kw):
        from kd.model.discover.program import Program
        from kd.model.discover.task.regression import RegressionTask
        t = RegressionTask(["add", "sin"], "case")
        z = np.arange(1.0, 5.0)
        t.load_data({"X": np.array([z, z + 1]), "y": z})
        Program.n_objects, Program.default_terms = 1, []
        Program.set_task(t)
        Program.set_execute(False, False)
        Program.set_const_optimizer("dummy")
        Program.set_complexity("token")
        Program.clear_cache()
        self.scores, self.calls = dict(scores), 0
        self.key = {v: k for k, v in TREES.items()}

        def reward(p):
            self.calls += 1
            ok, r = self.scores[self.key[tuple(x.name for x in p.traversal)]]
            p.invalid = not ok
            return r, [1.0], None, None
        t.reward_function = reward
        self.Program, self.task = Program, t
        self.stub = Stub(t.library, **kw)

    def searcher(self, batch, epsilon, n=1, **kw):
        from kd.model.discover.searcher import Searcher
        return Searcher(self.stub, dict(n_iterations=n, n_samples_per_batch=batch, stability_selection=0, epsilon=epsilon), **kw)

    def name(self, p):
        return self.key[tuple(x.name for x in p.traversal)]


def quantile(r, eps):
    s = sorted(r)
    return s[min(len(s) - 1, math.ceil((1 - eps) * (len(s) - 1) - 1e-12))]


def best_of(names, scores):
    ok = [scores[n][1] for n in names if scores[n][0]]
    return max(ok) if ok else None


def judge(ck, key, rig, s, seen, rep):
    """What the searcher reports after the candidates `seen`."""
    want = best_of(seen, rig.scores)
    if want is None:
        return
    if not ck.expect(s.best_p is not None, f"{key}:none", lambda: f"{rep}: nothing reported", rep):
        return
    ck.expect(s.r_best == want and s.best_reward == want, f"{key}:score", lambda: f"{rep}: reports {s.r_best}, the best of {seen} is {want}", rep)
    n = rig.name(s.best_p)
    ck.expect(n in seen and rig.scores[n] == (True, want), f"{key}:expression",
              lambda: f"{rep}: reports {n} {rig.scores[n]}, the best of {seen} is {want}", rep)


def judge_training(ck, rig, before, names, eps, rep):
    """The candidates handed to training are exactly the valid ones at or above the quantile, each with its own parts."""
    r = [rig.scores[n][1] for n in names]
    q = quantile(r, eps)
    keep = [i for i, n in enumerate(names) if r[i] >= q and rig.scores[n][0]]
    new = rig.stub.trained[before:]
    if not keep:
        ck.expect(not new, "selection:trained-on-nothing", lambda: f"{rep}: {names}", rep)
        return []
    if not ck.expect(len(new) == 1, "selection:not-trained", lambda: f"{rep}: {names} keeps {keep}", rep):
        return []
    b, batch, pq = new[0]
    _, acts, obs, pri = rig.stub.sampled[-1]
    ck.expect(float(b) == q, "selection:baseline", lambda: f"{rep}: {names}: baseline {b}, quantile {q}", rep)

    def row(bt, i):
        return (tuple(int(v) for v in bt.actions[i]), np.asarray(bt.obs[i]).tobytes(), np.asarray(bt.priors[i]).tobytes(),
                int(bt.lengths[i]), float(bt.rewards[i]), bool(bt.on_policy[i]))
    got = sorted(row(batch, i) for i in range(len(batch.actions)))
    want = sorted((tuple(int(v) for v in acts[i]), obs[i].tobytes(), pri[i].tobytes(), len(TREES[names[i]]), r[i], True) for i in keep)
    ck.expect(got == want, "selection:kept", lambda: f"{rep}: {names}: rewards {[g[4] for g in got]} expected {[w[4] for w in want]}", rep)
    for i in range(len(pq.actions)):
        t = rig.key.get(tuple(rig.task.library.names[int(v)] for v in pq.actions[i])[:int(pq.lengths[i])])
        ck.expect(t is not None and rig.scores[t][0] and abs(float(pq.rewards[i]) - rig.scores[t][1]) < 1e-6, "queue:sample", lambda: f"{rep}: {t}", rep)
    return keep


# ------------------------------------------------------------ step by step
def a_steps(ck, item):
    alphabet, size, depth, eps, first = item
    rig = Rig()
    for tail in itertools.product(itertools.product(alphabet, repeat=size), repeat=depth - 1):
        hist = (first,) + tail
        rep = dict(epsilon=eps, batches=["".join(b) for b in hist])
        ck.visit((eps, hist))
        with quiet(), ck.case("step", rep):
            rig.Program.clear_cache()
            rig.stub.todo = list(hist)
            rig.stub.trained, rig.stub.sampled = [], []
            s = rig.searcher(size, eps)
            seen, last, kept_all = [], -np.inf, []
            for k, b in enumerate(hist):
                n0 = len(rig.stub.trained)
                info = s.search_one_step(epoch=k)
                ck.step()
                seen += b
                judge(ck, "step", rig, s, seen, rep)
                if best_of(seen, rig.scores) is not None:
                    ck.expect(s.r_best >= last, "step:decreased", lambda: f"{rep}: {last} -> {s.r_best}", rep)
                    last = s.r_best
                keep = judge_training(ck, rig, n0, list(b), eps, rep)
                if keep:
                    top = max(rig.scores[b[i]][1] for i in keep)
                    kept_all += [b[i] for i in keep]
                    ck.expect(info is not None and info["r"] == top and rig.scores[rig.name(info["program"])] == (True, top), "step:information",
                              lambda: f"{rep}: {info}", rep)
                if kept_all and len(s.pq):
                    ck.expect(s.pq.get_max()[0] == max(rig.scores[n][1] for n in kept_all), "queue:best",
                              lambda: f"{rep}: {s.pq.get_max()[0]}", rep)
                held = [rig.Program.cache.get(i[0]) for i in s.pq.iter_in_order()]
                ck.expect(all(p is None or (not p.invalid and rig.name(p) in kept_all) for p in held), "queue:members", lambda: f"{rep}", rep)
            ck.expect(s.nevals == len(seen) and s.total_epoch == len(hist), "step:counts", lambda: f"{rep}: {s.nevals}, {s.total_epoch}", rep)
            ck.outcome((len(kept_all), s.r_best))
        ck.trace()


# ------------------------------------------------------------ whole searches
OPS = [("step", "N"), ("step", "a"), ("step", "I"), ("search", "IN", False), ("search", "Za", False), ("search", "IJ", False), ("search", "cb", False),
       ("search", "N", True), ("search", "d", True), ("search", "I", True), ("clear",), ("search", "Mc", False)]


def b_searches(ck, item):
    eps, batch, first, depth = item
    rig = Rig()
    for tail in itertools.product(range(len(OPS)), repeat=depth - 1):
        hist = [OPS[i] for i in (first,) + tail]
        rep = dict(epsilon=eps, batch=batch, operations=[list(o) for o in hist])
        ck.visit((eps, batch, first) + tail)
        with quiet(), ck.case("search", rep):
            rig.Program.clear_cache()
            rig.stub.trained, rig.stub.sampled, rig.stub.todo = [], [], []
            s = rig.searcher(batch, eps)
            seen = []
            for o in hist:
                ck.step()
                if o[0] == "clear":
                    rig.Program.clear_cache()
                    continue
                batches = [(n,) * batch if batch == 1 else (n, "I") for n in o[1]]
                rig.stub.todo = list(batches)
                if o[0] == "step":
                    s.search_one_step(epoch=1)
                    seen += batches[0]
                else:
                    if not o[2]:
                        seen = []
                    for b in batches:
                        seen += b
                    res = s.search(n_epochs=len(batches), verbose=bool(first % 2), keep_history=o[2])
                    want = best_of(seen, rig.scores)
                    if want is not None:
                        n = rig.name(res["program"])
                        ck.expect(res["r"] == want and n in seen and rig.scores[n] == (True, want), "search:result",
                                  lambda: f"{rep}: {n} {res['r']}, the best of {seen} is {want}", rep)
                        ck.expect(res["expression"] == res["program"].str_expression, "search:text", lambda: f"{rep}: {res['expression']}", rep)
                        ck.expect(res["traversal"] == ",".join(TREES[n]), "search:traversal", lambda: f"{rep}: {res['traversal']}", rep)
                ck.expect(not rig.stub.todo, "search:epochs", lambda: f"{rep}: batches left {rig.stub.todo}", rep)
                judge(ck, "search", rig, s, seen, rep)
                s.print_pq()
        ck.trace()


# ------------------------------------------------------------ with an aggregator of further candidates
def c_aggregator(ck, item):
    eps, batch = item
    rig = Rig()
    import torch  # noqa: F401
    from kd.model.discover.program import from_tokens
    names = "INZabd"
    for extra in [e for k in range(3) for e in itertools.product(names, repeat=k)]:
        for extra2 in ((), ("a",), ("d",), ("I",)):
            rep = dict(epsilon=eps, batch="".join(batch), aggregated=["".join(extra), "".join(extra2)])
            ck.visit((eps, batch, extra, extra2))

            class Agg:
                num = 1
                todo = [extra, extra2]

                def __call__(self, programs, length):
                    e = self.todo.pop(0)
                    a, o, p = rig.stub.rows(e, 500) if e else ([], [], [])
                    self.ran = e
                    return [from_tokens(x) for x in a], a, o, p
            with quiet(), ck.case("aggregator", rep):
                rig.Program.clear_cache()
                rig.stub.trained, rig.stub.sampled = [], []
                rig.stub.todo = [batch, batch]
                agg = Agg()
                s = rig.searcher(len(batch), eps, gp_aggregator=agg)
                seen = []
                for k in range(2):
                    agg.ran = ()
                    s.search_one_step(epoch=k)
                    ck.step()
                    seen += list(batch) + list(agg.ran)
                    judge(ck, "aggregator", rig, s, seen, rep)
            ck.trace()


# ------------------------------------------------------------ the selection function itself
def d_quantile(ck, item):
    """All score vectors, NaN among them, through the selection."""
    from kd.model.discover import searcher as mod
    if not hasattr(mod, "quantile_select"):
        return
    n, eps = item
    rig = Rig()
    vals = (float("nan"), -1.0, 0.0, 0.5, 0.9)
    flags = {}
    for names in itertools.product("IaJNb", repeat=n):
        flags[tuple(rig.scores[x][0] for x in names)] = names
    for valid, names in sorted(flags.items()):
        for r in itertools.product(vals, repeat=n):
            rep = dict(scores=[str(x) for x in r], valid=valid, epsilon=eps)
            ck.visit((n, eps, valid, tuple(str(x) for x in r)))
            with quiet(), ck.case("quantile", rep):
                acts, obs, pri = rig.stub.rows(names)
                progs = []
                for a, v in zip(acts, valid):
                    from kd.model.discover.program import Program
                    p = Program(a[:len(a)])
                    p.invalid = not v
                    progs.append(p)
                arr = np.array(r)
                res = mod.quantile_select(acts, obs, pri, list(progs), arr, eps)
                ck.step()
                rr = [0.0 if x != x else x for x in r]
                q = quantile(rr, eps)
                keep = [i for i in range(n) if rr[i] >= q and valid[i]]
                if not keep:
                    ck.expect(res is None, "quantile:nothing", lambda: f"{rep}", rep)
                    continue
                if not ck.expect(res is not None, "quantile:lost", lambda: f"{rep}", rep):
                    continue
                ps, r1, r_train = res[0], res[1], res[2]
                ck.expect([id(p) for p in ps] == [id(progs[i]) for i in keep] and list(r1) == [rr[i] for i in keep]
                          and list(r_train) == [rr[i] for i in keep], "quantile:kept", lambda: f"{rep}: {list(r1)} expected {keep}", rep)
            ck.trace()


# ------------------------------------------------------------ scores computed by the real tasks
def e_real(ck, item):
    from checks import c03
    kind, param, eps, first = item
    if kind == "pde":
        ws, x = c03.worlds()
        u = ws[param[1]]
        data = {"u": u, "X": [x.reshape(-1, 1)], "ut": 0.7 * u + 0.3 * np.cos(3 * u) - 0.2, "n_input_dim": 1}
        task = c03.setup(("add", "mul", "diff"), data, metric="pde_reward")
        from kd.model.discover.task.pde.pde import make_pde_metric
        m = make_pde_metric("pde_reward", param[0])
        task.metric = m[0] if isinstance(m, tuple) else m
        trees = [("u1",), ("x1",), ("add", "u1", "u1"), ("mul", "u1", "u1"), ("mul", "x1", "u1"), ("diff", "u1", "x1"), ("add", "u1", "x1"),
                 ("add", "u1", "diff", "u1", "x1"), ("add", "u1", "mul", "u1", "u1")]
    else:
        z = np.linspace(-1, 2, 7)
        task = c03.setup_regression(("add", "log", "mul"), [z, z ** 2], z ** 3)
        task.metric = __import__("kd.model.discover.task.regression", fromlist=["x"]).make_regression_metric("inv_nrmse", param[0])[0]
        trees = [("x1",), ("log", "x1"), ("add", "x1", "x2"), ("mul", "x1", "x1"), ("mul", "x1", "x2"), ("log", "x2"), ("add", "x1", "x1"),
                 ("mul", "x1", "mul", "x1", "x1")]
    from kd.model.discover.program import Program, from_tokens
    from kd.model.discover.searcher import Searcher
    lib = task.library
    toks = {t: np.array([lib.names.index(n) for n in t] + [lib.names.index(n) for n in lib.names[:1]] * (LENGTH + 2 - len(t))) for t in trees}

    class C(Stub):
        def rows(self, names, first=0):
            return (np.array([toks[t] for t in names]), np.zeros((len(names), 4, LENGTH + 2), np.float32),
                    np.zeros((len(names), LENGTH + 2, len(lib.names)), np.float32))
    stub = C(lib)
    table = {}
    with quiet():
        for t in trees:
            p = Program(np.array([lib.names.index(n) for n in t], dtype=np.int32))
            r = p.r_ridge
            table[t] = (not p.invalid, float(r))
    stub.max_length = LENGTH + 2
    for hist in itertools.product(trees, repeat=3):
        b = (trees[first], hist[0]), (hist[1], hist[2])
        rep = dict(task=kind, parameter=list(param), epsilon=eps, batches=[[",".join(t) for t in x] for x in b])
        ck.visit((item, hist))
        with quiet(), ck.case("real", rep):
            Program.clear_cache()
            stub.todo = list(b)
            s = Searcher(stub, dict(n_iterations=2, n_samples_per_batch=2, stability_selection=0, epsilon=eps))
            seen = list(b[0] + b[1])
            res = s.search(verbose=False)
            ck.step(2)
            want = best_of(seen, table)
            if want is not None:
                t = tuple(x.name for x in res["program"].traversal)
                ck.expect(abs(res["r"] - want) < 1e-12 and abs(s.r_best - want) < 1e-12 and t in seen and table[t][0] and abs(table[t][1] - want) < 1e-12,
                          "real:best", lambda: f"{rep}: {t} {res['r']}, best {want}", rep)
        ck.trace()


# ------------------------------------------------------------ alternating with the network
def f_rounds(ck, item):
    from kd.model.kd_discover import KD_Discover_SPR
    if not hasattr(KD_Discover_SPR, "callIterPINN"):
        return
    rounds, eps, first = item
    names = "aNcI"
    tables = [dict(zip(names, v)) for v in (
        ((True, .5), (True, -1.), (True, .75), (False, 0.)), ((True, .2), (True, .9), (False, 0.), (True, .6)),
        ((False, 0.), (True, .4), (True, .4), (True, -.5)), ((False, 0.), (False, 0.), (True, -.3), (False, 0.)))]
    for combo in itertools.product(range(len(tables)), repeat=rounds + 1):
        for picks in itertools.product(names, repeat=rounds):
            if rounds == 3 and h(str((combo, picks))) % 8:
                continue
            picks = (names[first],) + picks
            rep = dict(rounds=rounds, tables=combo, found=picks)
            ck.visit((item, combo, picks))
            rig = Rig({k: SCORES[k] for k in names})
            phase = [0]
            rig.scores = dict(tables[combo[0]])
            given = []
            with quiet(), ck.case("rounds", rep):
                m = KD_Discover_SPR.__new__(KD_Discover_SPR)
                m.config_pinn = dict(iter_num=rounds, coef_pde=0.1, local_sample=False, generation_type="AD")
                m.config_task = {"eq_num": 1}
                m.best_p = [None]
                m.searcher = rig.searcher(1, eps)
                rig.stub.todo = [(n,) for n in picks]
                m.pretrain = lambda: None
                m.reset_up = lambda **k: rig.Program.clear_cache()

                def pinn_train(best_p, count, **k):
                    given.append((rig.name(best_p[0]), dict(rig.scores)))
                    phase[0] += 1
                    rig.scores = dict(tables[combo[phase[0]]])
                m.pinn_train = pinn_train
                res = m.callIterPINN(1, verbose=False)
                ck.step(rounds + 1)
                prev = None
                for k, (g, sc) in enumerate(given):
                    cand = [picks[k]] + ([prev] if prev else [])
                    want = best_of(cand, sc)
                    if want is not None:
                        ck.expect(g in cand and sc[g] == (True, want), "rounds:given", lambda: f"{rep}: round {k}: {g} of {cand} {sc}", rep)
                    prev = g
                ck.expect(len(given) == rounds, "rounds:number", lambda: f"{rep}: {len(given)}", rep)
                ck.expect(rig.name(res["program"]) == picks[-1] and rig.name(m.searcher.best_p) == picks[-1], "rounds:result",
                          lambda: f"{rep}: {rig.name(res['program'])}", rep)
                bp = m.best_p[0] if isinstance(m.best_p, list) else m.best_p
                ck.expect(bp is res["program"], "rounds:model-best", lambda: f"{rep}: the model keeps {rig.name(bp)}", rep)
            ck.trace()


def run(ck):
    deep = ck.thorough
    eps_all = (0.02, 0.25, 0.5, 0.75, 1.0)
    ck.part("steps")
    items = []
    for eps in eps_all:
        plan = [("IJNMZabcd", 1, 3), ("INZacd", 1, 5 if deep else 4), ("IJNMZabcd", 2, 2), ("INac", 2, 4 if deep else 3), ("IJNMZabcd", 3, 1),
                ("INZad", 3, 2), ("INZabd", 4, 1), ("INZad", 5, 1)]
        if deep:
            plan += [("IJNMZabcd", 4, 1), ("INZacd", 3, 2), ("INZad", 6, 1), ("INa", 3, 3)]
        for al, size, depth in plan:
            if not deep and (size, depth) in ((3, 2), (5, 1)) and eps in (0.25, 0.75):
                continue
            items += [(al, size, depth, eps, f) for f in itertools.product(al, repeat=size)]
    ck.pool(a_steps, sorted(set(items), key=lambda i: h(str(i))))
    ck.part("searches")
    ck.pool(b_searches, sorted([(e, b, f, 4 if deep and b == 1 else 3) for e in (0.02, 0.5, 1.0) for b in (1, 2) for f in range(len(OPS))], key=lambda i: h(str(i))))
    ck.part("aggregator")
    ck.pool(c_aggregator, [(e, b) for e in (0.5, 1.0) for b in itertools.product("INad", repeat=2)])
    ck.part("selection")
    ck.pool(d_quantile, [(n, e) for n in range(1, 6 if deep else 5) for e in eps_all + (0.1, 1 / 3) if deep or n < 4 or e in (0.02, 0.25, 0.5)])
    ck.part("real scores")
    items = [("pde", (c, w), e, f) for c in (0.01, 0.6) for w in (("generic", "zeros") if deep else ("generic",)) for e in (0.3, 1.0) for f in range(9)]
    items += [("regression", (c,), e, f) for c in ((0.0, 0.3, 0.5) if deep else (0.3,)) for e in (0.3, 1.0) for f in range(8)]
    ck.pool(e_real, sorted(items, key=lambda i: h(str(i))))
    ck.part("rounds with the network")
    ck.pool(f_rounds, [(n, e, f) for n in ((1, 2, 3) if deep else (1, 2)) for e in (0.02, 1.0) for f in range(4)])
    ck.assumptions.append("stability selection, which deliberately reports another expression, is off (as shipped)")
