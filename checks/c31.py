"""C31: the sampler trains on the very distribution it samples from."""
import contextlib
import itertools
import math

try:
    import triton._C.libtriton  # noqa: F401
except Exception:  # noqa: BLE001
    pass
import numpy as np

from checks.c01 import LIBS, Lib, build_prior, make_task
from mc.core import h, quiet

LIBRARIES = {}
RULES = {
    "none": (),
    "inputs": (("no_inputs", {}),),
    "right": (("diff_right", {}),),
    "soft": (("soft_length", {"loc": 3, "scale": 2}),),
    "arity": (("uniform_arity", {}),),
}
# what the network sees: parent, sibling, previous token, open slots
SEES = [(1, 1, 0, 0, False), (1, 1, 1, 1, False), (0, 0, 1, 0, False), (0, 1, 0, 1, False), (1, 1, 1, 1, True)]


def lib_of(name):
    if name not in LIBRARIES:
        LIBRARIES[name] = Lib(name)
    return LIBRARIES[name]


@contextlib.contextmanager
def installed(L):
    from kd.model.discover.program import Program
    old = {k: getattr(Program, k, None) for k in ("library", "task", "cache", "n_objects")}
    Program.library, Program.task, Program.cache, Program.n_objects = L.lib, make_task(L), {}, 1
    try:
        yield
    finally:
        for k, v in old.items():
            setattr(Program, k, v)


def live(L, toks):
    """Length of the first complete tree, or None while it is open."""
    n = 1
    for i, t in enumerate(toks):
        n += L.arity[t] - 1
        if n == 0:
            return i + 1
    return None


class Draws:
    """Stands in for the random draw: row r follows its script, then takes the first permitted token."""

    def __init__(self, L, scripts):
        self.L, self.scripts = L, scripts
        self.taken = [[] for _ in scripts]
        self.alts = []
        self.probs = []

    def __call__(self, probs, num_samples=1, *a, **k):
        assert num_samples == 1
        t, out = len(self.probs), []
        p = probs.reshape(len(self.scripts), -1)
        self.probs.append(p)
        v = p.detach().numpy()
        for r, s in enumerate(self.scripts):
            if np.isnan(v[r]).any():
                raise AssertionError(f"no token is permitted after {[self.L.names[k] for k in self.taken[r]]}")
            ok = np.flatnonzero(v[r] > 0).tolist()
            done = live(self.L, self.taken[r]) is not None
            if t < len(s):
                c = s[t]
            else:
                c = ok[0]
                if not done:
                    self.alts += [(r, tuple(self.taken[r]) + (o,)) for o in ok[1:]]
            self.taken[r].append(c)
            out.append(c)
        import torch
        return torch.tensor(out, dtype=torch.int64).reshape(probs.shape[:-1] + (1,))


def episodes(c, L, scripts):
    """One real call of the sampler with its draws taken over."""
    import torch
    d = Draws(L, scripts)
    real = torch.multinomial
    torch.multinomial = d
    try:
        with quiet():
            res = c.sample_episodes(len(scripts))
    finally:
        torch.multinomial = real
    return d, res


def everything(ck, c, L, batch, key, rep, limit):
    """Every expression the sampler can draw, `batch` at a time, with the probabilities it was drawn with."""
    todo, seen, step_p, groups = [()], {}, {}, []
    while todo:
        now, todo = todo[:batch], todo[batch:]
        real = len(now)
        now = now + [now[-1]] * (batch - real)
        d, res = episodes(c, L, now)
        if not d.probs:
            return None, None
        ck.step(len(d.probs))
        todo += [p for r, p in d.alts if r < real]
        rows = []
        acts = np.asarray(res[0])
        for r in range(batch):
            ck.expect(acts[r].tolist() == d.taken[r], key + ":drawn", lambda: f"{rep}: drew {d.taken[r]}, reports {acts[r].tolist()}", rep)
            n = live(L, d.taken[r]) or len(d.taken[r])
            lp = 0.0
            for t in range(n):
                v = d.probs[t][r].detach().numpy()
                lp += math.log(v[d.taken[r][t]])
                pre = tuple(d.taken[r][:t])
                if pre in step_p:
                    ck.expect(np.allclose(step_p[pre], v, atol=1e-5), key + ":depends on the batch",
                              lambda: f"{rep}: after {[L.names[k] for k in pre]}: {v} and {step_p[pre]}", rep)
                else:
                    step_p[pre] = v
            e = tuple(d.taken[r][:n])
            rows.append((e, n, lp))
            seen[e] = lp
        groups.append((d, res, rows, real))
        if len(seen) > limit:
            ck.exhaustive = False
            break
    else:
        total = sum(math.exp(v) for v in seen.values())
        ck.expect(abs(total - 1) < 1e-4, key + ":total", lambda: f"{rep}: the probabilities of all expressions sum to {total}", rep)
    ck.count_states(len(step_p))
    return seen, groups


def reference(d, rows, gamma, which):
    """log-probabilities and entropies of the drawn rows from the probabilities they were drawn with."""
    import torch
    nl, en = [], []
    for r in which:
        e, n, _ = rows[r]
        a, b = 0.0, 0.0
        for t in range(n):
            p = d.probs[t][r]
            a = a - torch.log(p[e[t]])
            q = p[p > 0]
            b = b + gamma ** t * -(q * torch.log(q)).sum()
        nl.append(a)
        en.append(b)
    return torch.stack(nl), torch.stack(en)


def rewards(e, k):
    return 0.1 + (h(str((e, k))) % 90) / 100


def learning(ck, item):
    import torch
    from kd.model.discover.controller import Controller
    from kd.model.discover.dso.memory import Batch
    from kd.model.discover.state_manager import make_state_manager
    lib, rule, length, cell, layers, sees, batch, mode, seed = item
    L = lib_of(lib)
    key = f"{cell}{layers}/{mode[0]}"
    rep = dict(library=L.names, rules=rule, length=length, cell=cell, layers=layers, sees=sees, batch=batch, mode=mode, seed=seed)
    with installed(L), ck.case(key, rep, timeout=600):
        prior = build_prior(L, RULES[rule], length)
        par, sib, act, dang, emb = sees
        _, pqt, use_pg, weight, ew, gamma = mode
        torch.manual_seed(seed)
        with quiet():
            sm = make_state_manager(dict(type="hierarchical", observe_parent=bool(par), observe_sibling=bool(sib),
                                         observe_action=bool(act), observe_dangling=bool(dang), embedding=emb, embedding_size=2))
            c = Controller(prior, sm, cell=cell, num_layers=layers, num_units=3, initializer="var_scale", optimizer="sgd",
                           learning_rate=0.5, entropy_weight=ew, entropy_gamma=gamma, pqt=pqt, pqt_k=3, pqt_batch_size=2,
                           pqt_weight=weight, pqt_use_pg=use_pg, max_length=length[1])
        params = [p for g in c.optimizer.param_groups for p in g["params"]]
        lr = c.optimizer.param_groups[0]["lr"]
        if params and all(float(p.detach().abs().max()) < 3 for p in params):
            with torch.no_grad():
                for i, p in enumerate(params):      # far from the start: every connection matters
                    p += torch.tensor(np.random.RandomState(seed * 50 + i).uniform(-0.8, 0.8, p.shape), dtype=p.dtype)
        for rnd in range(2):
            seen, groups = everything(ck, c, L, batch, key, rep, 4000)
            if groups is None:
                ck.sample({"not explored": "the draw was not intercepted"})
                return
            ck.visit((item, rnd))
            start = [p.detach().clone() for p in params]
            jobs = []                       # the references first: a training step changes the network in place
            for gi, (d, res, rows, real) in enumerate(groups):
                if not d.probs[0].requires_grad:
                    break
                acts, obs, pri = (v.detach() for v in res[:3])
                n = torch.tensor([r[1] for r in rows], dtype=torch.int32)
                rw = torch.tensor([rewards(r[0], gi) for r in rows], dtype=torch.float64)
                # what a batch filtered by its rewards looks like: some rows, and a pair taken from the queue
                for keep in [list(range(batch))] + ([[k] for k in range(min(2, real))] if batch > 1 and gi < 6 else []):
                    pair = [keep[0], keep[-1]]
                    base = float(min(rw[keep])) if gi % 2 else 0.25

                    def make(rows_):
                        return Batch(actions=acts[rows_], obs=obs[rows_], priors=pri[rows_], lengths=n[rows_],
                                     rewards=rw[rows_], on_policy=torch.ones(len(rows_), dtype=torch.bool))
                    nl, en = reference(d, rows, gamma, keep)
                    loss = -ew * en.mean()
                    if not pqt or use_pg:
                        loss = loss + ((rw[keep] - base) * nl).mean()
                    if pqt:
                        loss = loss + weight * reference(d, rows, gamma, pair)[0].mean()
                    grads = torch.autograd.grad(loss, params, retain_graph=True, allow_unused=True)
                    jobs.append(([rows[r][0] for r in keep], base, make(keep), make(pair), grads))
            for kept, base, b, q, grads in jobs:
                with quiet():
                    c.train_step(base, b, q)
                ck.step()
                err, big = 0.0, 0.0
                for p, p0, g in zip(params, start, grads):
                    g = torch.zeros_like(p0) if g is None else g
                    err = max(err, float(((p0 - p.detach()) / lr - g).abs().max()))
                    big = max(big, float(g.abs().max()))
                    p.data.copy_(p0)
                ck.expect(err <= 1e-4 + 2e-3 * big, f"{key}:gradient",
                          lambda: f"{rep}: training on {[[L.names[k] for k in e] for e in kept]} moves the network by another "
                                  f"gradient than that of what was drawn (off by {err}, largest {big})", rep)
            if rnd == 0:
                # learn for good, then look at the new distribution
                d, res, rows, real = groups[0]
                rw = torch.tensor([rewards(r[0], 0) for r in rows], dtype=torch.float64)
                n = torch.tensor([r[1] for r in rows], dtype=torch.int32)
                b = Batch(actions=res[0].detach(), obs=res[1].detach(), priors=res[2].detach(), lengths=n, rewards=rw,
                          on_policy=torch.ones(batch, dtype=torch.bool))
                with quiet():
                    c.train_step(0.0, b, b)
        ck.outcome((cell, layers, rule, len(seen)))
    ck.trace()


MODES = [("pg", False, False, 0.0, 0.0, 1.0), ("entropy", False, False, 0.0, 0.5, 0.7), ("queue", True, False, 2.0, 0.03, 0.7),
         ("queue+pg", True, True, 0.5, 0.03, 1.0)]


def items(deep):
    out = []
    for lib, length in (("tiny", (1, 3)), ("tiny", (3, 4)), ("const", (2, 3)), ("tiny", (3, 5)), ("nd", (2, 3)), ("reg", (1, 3))) + \
            ((("pde", (3, 4)), ("reg", (2, 4)), ("two", (1, 3))) if deep else ()):
        for rule in RULES:
            if rule == "right" and lib in ("nd", "reg", "two") or rule == "inputs" and lib == "reg":
                continue
            for cell, layers in (("lstm", 1), ("gru", 1), ("lstm", 2), ("gru", 2)):
                for sees, batch, mode, seed in itertools.product(SEES, (1, 2, 5), MODES, (0, 1) if deep else (0,)):
                    k = h(str((lib, length, rule, cell, layers, sees, batch, mode, seed)))
                    if length[1] > 3 and k % (7 if deep else 40):
                        continue
                    if not deep and k % 6:
                        continue
                    out.append((lib, rule, length, cell, layers, sees, batch, mode, seed))
    return sorted(out, key=lambda i: h(str(i)))


def run(ck):
    import kd.model.kd_discover  # noqa: F401
    ck.part("learning")
    ck.pool(learning, items(ck.thorough))
    ck.end_part()
    ck.assumptions += [
        "the random draw is taken over (torch.multinomial), the network, its optimizer (plain gradient descent) and the rules are real",
        f"libraries of {min(len(LIBS[k][3]) for k in ('tiny', 'const', 'nd', 'reg')) + 2} to 8 tokens, expressions of at most five tokens, three units per layer",
    ]
