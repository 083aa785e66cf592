"""C19: the neural genetic search keeps valid members and never loses the best."""
import collections
import itertools
import os
import pathlib
import tempfile

import numpy as np

from mc.core import h, quiet
from mc.explore import ControlledRandom, Explorer

ALL_OPS = ["u", "u_x", "u_t", "u_xx", "u_xxx", "u_tt"]
N = 12
_rows = np.arange(N)
# fixed, generic columns (no two proportional, none constant)
LIB = np.stack([np.sin(0.7 * _rows + 0.3), np.cos(1.3 * _rows) + 0.2, 0.5 * np.sin(2.1 * _rows) - 0.4,
                np.cos(0.4 * _rows * _rows), np.sin(1.9 * _rows + 1), np.cos(2.7 * _rows - 1)],
               axis=1).astype(np.float32)
TARGETS = {
    "exact_ut": (0.5 * LIB[:, [0]] * LIB[:, [1]] - 0.25 * LIB[:, [1]],
                 np.sin(_rows * 0.9 + 2)[:, None].astype(np.float32)),
    "exact_utt": (np.cos(_rows * 1.7 + 1)[:, None].astype(np.float32),
                  1.5 * LIB[:, [0]] + 0.1 * LIB[:, [0]] ** 2),
    "neither": (np.cos(_rows * 1.7 + 1)[:, None].astype(np.float32),
                np.sin(_rows * 0.9 + 2)[:, None].astype(np.float32)),
}


class Rot(ControlledRandom):
    """Rotating defaults: the default execution already draws different values."""

    def __init__(self, ch, k, floats=(0.0, 0.999999)):
        super().__init__(ch, floats=floats)
        self.k = k

    def np_randint(self, low, high=None, size=None, dtype=int):
        lo, hi = (0, low) if high is None else (low, high)
        if hi <= lo:
            raise ValueError("low >= high")

        def one():
            self.k += 1
            return int(lo) + (self.ch.choose(int(hi) - int(lo), "randint") + self.k) % (int(hi) - int(lo))
        return self._fill(size, one)

    def py_randint(self, a, b):
        if b < a:
            raise ValueError("empty range for randrange()")
        return self.np_randint(a, b + 1)

    def _f(self):
        self.k += 1
        return self.floats[(self.ch.choose(len(self.floats), "float") + self.k) % len(self.floats)]

    def py_uniform(self, a, b):
        return a + (b - a) * self._f()

    def np_uniform(self, low=0.0, high=1.0, size=None):
        return self._fill(size, lambda: low + (high - low) * self._f())

    def np_random(self, size=None):
        return self._fill(size, self._f)


def make(kind, pop, gens, max_length=2, nops=4, target="exact_ut", epi=0.01, rates=(0.4, 0.5, 0.4)):
    import torch
    from kd.model.dlga import DLGA
    from kd.model.kd_dlga import KD_DLGA
    if kind == "base":
        m = DLGA(epi, 2, max_iter=1)
        ops = 4
    else:
        m = KD_DLGA(operators=ALL_OPS[:nops], epi=epi, input_dim=2, verbose=True, max_iter=1)
        ops = nops
    m.pop_size, m.n_generations, m.max_length = pop, gens, max_length
    m.add_rate, m.delete_rate, m.mutate_rate = rates
    m.Theta = torch.from_numpy(LIB.copy())[:, :6 if kind == "base" else nops]
    ut, utt = TARGETS[target]
    m.u_t, m.u_tt = ut.copy(), utt.copy()
    return m, ops


def column(module):
    c = np.ones(N)
    for g in module:
        c = c * LIB[:, g].astype(float)
    return c


def tls(lhs, cols):
    a = np.column_stack([lhs[:, 0].astype(float)] + cols)
    w, v = np.linalg.eigh(a.T @ a)
    return np.sqrt(max(w[0], 0.0)), v[:, 0]


def score_of(genome, target, epi):
    """Independent fit: (score, name) candidates for both left-hand sides."""
    cols = [column(m) for m in genome]
    out = {}
    for name, lhs in zip(("u_t", "u_tt"), TARGETS[target]):
        smin, v = tls(lhs, cols)
        with np.errstate(all="ignore"):
            coef = -v[1:] / v[0]
            res = lhs[:, 0] - np.column_stack(cols) @ coef
        out[name] = (float(np.mean(res ** 2)) + epi * sum(map(len, genome)), coef, smin, abs(v[0]))
    return out


def judge(ck, key, genome, coef, score, name, target, epi, replay):
    """The reported numbers are those of a fit of the reported terms."""
    coef = np.asarray(coef, float)
    if not ck.expect(coef.shape == (len(genome), 1), f"{key}:coef-shape",
                     lambda: f"coefficients of shape {coef.shape} for terms {genome}", replay):
        return
    if not ck.expect(name in ("u_t", "u_tt"), f"{key}:name", f"left-hand side {name!r}", replay):
        return
    lhs = TARGETS[target][0 if name == "u_t" else 1][:, 0].astype(float)
    cols = np.column_stack([column(m) for m in genome])
    res = lhs - cols @ coef[:, 0]
    mse = float(np.mean(res ** 2)) + epi * sum(map(len, genome))
    ck.expect(abs(mse - score) <= 1e-5 * max(1, abs(mse)), f"{key}:score",
              lambda: f"score {score!r} reported for {genome} with {coef.ravel().tolist()} ({name}); "
                      f"these terms and coefficients give {mse!r}", replay)
    ref = score_of(genome, target, epi)
    best_s, best_c, smin, v0 = ref[name]
    if v0 > 1e-3:
        ratio = np.linalg.norm(res) / np.sqrt(1 + float(coef[:, 0] @ coef[:, 0]))
        ck.expect(ratio <= smin * (1 + 1e-3) + 1e-5, f"{key}:fit",
                  lambda: f"coefficients {coef.ravel().tolist()} of {genome} ({name}) are not the fitted "
                          f"ones {best_c.tolist()}", replay)
    other = ref["u_tt" if name == "u_t" else "u_t"]
    if v0 > 1e-3 and other[3] > 1e-3:
        ck.expect(best_s <= other[0] * (1 + 1e-4) + 1e-5, f"{key}:side",
                  lambda: f"{name} reported for {genome} (score {best_s!r}) although the other left-hand "
                          f"side scores {other[0]!r}", replay)


def valid_module(m, ops, max_length):
    return (isinstance(m, list) and 1 <= len(m) <= max_length
            and all(isinstance(g, (int, np.integer)) and 0 <= g < ops for g in m))


def valid_genome(g, ops, max_length, distinct=True):
    if not isinstance(g, list) or not g or not all(valid_module(m, ops, max_length) for m in g):
        return False
    return not distinct or len({tuple(sorted(m)) for m in g}) == len(g)


# ------------------------------------------------------------------ random members
def part_random(ck):
    ck.part("random members")
    items = [(kind, ml, nops, what)
             for kind in ("base", "kd") for what in ("random_module", "random_genome")
             for ml in ((1, 2, 3) if what == "random_module" or ck.thorough else (1, 2))
             for nops in ((4,) if kind == "base" else (1, 2, 3))
             if not (what == "random_genome" and ml == 3 and nops > 2)]

    def one(ck, it):
        kind, ml, nops, what = it
        m, ops = make(kind, 2, 1, ml, nops)
        key = f"{what}[{kind},max_length={ml},ops={ops}]"

        def body(ch):
            with ControlledRandom(ch).installed(), quiet():
                return getattr(m, what)()
        ex = Explorer(body)
        with ck.case(key, {"case": it}):
            for ch, r in ex.runs():
                ck.step()
                rp = {"case": it, "choices": ch.choices}
                if what == "random_module":
                    ck.expect(valid_module(r, ops, ml), f"{key}:{r}", f"{what} gave {r}", rp)
                else:
                    ck.expect(valid_genome(r, ops, ml, distinct=False) and len(r) <= ml, f"{key}:{r}",
                              f"{what} gave {r}", rp)
                ck.visit((it, repr(r)))
        ck.trace(ex.count)
        ck.sample({"case": it, "executions": ex.count, "complete": ex.complete})
    ck.pool(one, sorted(items, key=lambda i: h(str(i))))
    ck.end_part()


# ------------------------------------------------------------------ single genetic steps
def genomes(genes=(0, 1)):
    mods = [[g] for g in genes] + [[0, 1]]
    out = [[list(a)] for a in mods]
    out += [[list(a), list(b)] for a, b in itertools.permutations(mods, 2)]
    return out


def flat(pop):
    return collections.Counter(tuple(m) for c in pop for m in c)


def part_steps(ck):
    ck.part("genetic steps")
    small = genomes()
    tiny = [small[0], small[2], small[3], small[5]]
    items = []
    for kind in ("base", "kd"):
        for step in ("cross_over", "mutation", "delete_duplicates", "select"):
            for pop in (1, 2, 3, 4):
                space = small if pop <= 2 else tiny
                for gens in (1, 5):
                    if step != "cross_over" and gens != 1:
                        continue
                    combos = list(itertools.product(range(len(space)), repeat=pop))
                    if pop >= 3 and not ck.thorough:
                        combos = [c for c in combos if h(("c19", step, pop, c)) % 4 == 0] \
                            if pop == 3 else [c for c in combos if len(set(c)) > 1][::16]
                    for c in combos:
                        items.append((kind, step, pop, gens, c))

    def one(ck, it):
        kind, step, pop, gens, c = it
        space = small if pop <= 2 else tiny
        key = f"{step}[{kind},pop={pop},gens={gens}]"
        rp0 = {"case": it}
        rates = [(0.4, 0.5, 0.4)] if step != "mutation" else \
            [(0.4, 0.5, 0.4), (1.0, 1.0, 1.0), (0.0, 0.0, 0.0)]
        for rate in rates:
            m, ops = make(kind, pop, gens, 2, 2, "neither", rates=rate)
            start = [[list(x) for x in space[i]] for i in c]
            if step == "delete_duplicates":
                # repeated and unordered spellings of the same terms
                for g in start:
                    g.append(list(reversed(g[0])))
            dev = None if (pop <= 1 or step in ("cross_over", "delete_duplicates")) else \
                (3 if ck.thorough else 2 if pop <= 2 and step != "select" else 1)

            def body(ch):
                m.Chrom = [[list(x) for x in g] for g in start]
                m.fitness_history, m.evolution_history = [], []
                with ControlledRandom(ch, floats=(0.999999, 0.0)).installed(), quiet():
                    getattr(m, step)()
                return m.Chrom
            ex = Explorer(body, deviations=dev)
            with ck.case(key + f":{c}", rp0):
                for ch, pop_ in ex.runs():
                    ck.step()
                    rp = {"case": it, "rates": rate, "choices": ch.choices, "start": start}
                    kk = f"{key}"
                    ck.visit((it, repr(pop_)))
                    if not ck.expect(len(pop_) == pop, kk + ":size",
                                     lambda: f"{pop} members became {len(pop_)}", rp):
                        continue
                    if step == "cross_over":
                        ck.expect(flat(pop_) == flat(start), kk + ":terms-lost",
                                  lambda: f"{start} became {pop_}", rp)
                        ck.expect([len(x) for x in pop_] == [len(x) for x in start], kk + ":lengths",
                                  lambda: f"{start} became {pop_}", rp)
                    elif step == "delete_duplicates":
                        for a, b in zip(start, pop_):
                            want = {tuple(sorted(x)) for x in a}
                            got = [tuple(x) for x in b]
                            ck.expect(len(got) == len(set(got)) and {tuple(sorted(x)) for x in got} == want,
                                      kk + ":not-the-distinct-terms", lambda: f"{a} became {b}", rp)
                    elif step == "mutation":
                        for a, b in zip(start, pop_):
                            ck.expect(valid_genome(b, ops, 2, distinct=False), kk + ":invalid",
                                      lambda: f"{a} became {b}", rp)
                            if rate == (0.0, 0.0, 0.0):
                                ck.expect(a == b, kk + ":rate-zero", lambda: f"{a} became {b}", rp)
                            ck.expect(abs(len(a) - len(b)) <= 1, kk + ":length", lambda: f"{a} became {b}", rp)
                    else:
                        check_selection(ck, kk, m, start, pop, ops, "neither", 0.01, rp)
            ck.trace(ex.count)
        ck.sample({"case": it})
    ck.pool(one, sorted(items, key=lambda i: h(str(i))))
    ck.end_part()


def part_repeats(ck):
    """Every chromosome of up to three modules in every spelling: exactly the repetitions go."""
    ck.part("repeated terms")
    genes = (0, 1, 2)
    mods = [list(w) for n in (1, 2) for w in itertools.product(genes, repeat=n)]
    mods += [list(w) for w in itertools.product((0, 1), repeat=3)]
    if ck.thorough:
        mods += [list(w) for w in itertools.product(genes, repeat=3) if 2 in w]
    items = [(kind, i) for kind in ("base", "kd") for i in range(len(mods))]

    def one(ck, it):
        kind, i = it
        m, ops = make(kind, 1, 1, 2, 2, "neither", rates=(0.4, 0.5, 0.4))
        for n in (0, 1, 2):
            for rest in itertools.product(range(len(mods)), repeat=n):
                start = [list(mods[j]) for j in (i,) + rest]
                m.Chrom = [[list(x) for x in start]]
                with ck.case(f"repeats[{kind}]", {"chromosome": start}):
                    with quiet():
                        m.delete_duplicates()
                    ck.step()
                    got = [tuple(sorted(x)) for x in m.Chrom[0]]
                    want = {tuple(sorted(x)) for x in start}
                    ck.visit((kind, tuple(map(tuple, start))))
                    ck.expect(len(got) == len(set(got)) and set(got) == want, f"repeats[{kind}]:kept",
                              lambda: f"{start} became {m.Chrom[0]}", {"chromosome": start})
        ck.trace()
    ck.pool(one, sorted(items, key=lambda i: h(str(i))))
    ck.end_part()


def check_selection(ck, key, m, before, pop, ops, target, epi, rp, max_length=2):
    """`before` was scored and selected: `m` now holds the better half, best first, and newcomers."""
    k = max(1, pop // 2)
    want = []
    for g in before:
        r = score_of(g, target, epi)
        want.append(min(v[0] for v in r.values()))
    trusted = all(min(v[3] for v in score_of(g, target, epi).values()) > 1e-3 for g in before)
    fit = [float(x) for x in m.Fitness]
    ck.expect(len(fit) == len(m.coef) == len(m.name) and len(fit) >= 1, key + ":reported-counts",
              lambda: f"{len(fit)} scores, {len(m.coef)} coefficient sets, {len(m.name)} names", rp)
    ck.expect(fit == sorted(fit), key + ":order", lambda: f"scores {fit} are not in order", rp)
    if trusted and len(fit) == k:
        ref = sorted(want)[:k]
        ck.expect(np.allclose(fit, ref, rtol=1e-3, atol=1e-5), key + ":not-the-best",
                  lambda: f"kept scores {fit}; the population's best are {ref}", rp)
    have = collections.Counter(repr(g) for g in before)
    for i, s in enumerate(fit):
        g = m.Chrom[i]
        ck.expect(repr(g) in have, key + ":invented", lambda: f"{g} was not in the population {before}", rp)
        ck.expect(valid_genome(g, ops, max_length + 0), key + ":scored-invalid", lambda: f"scored member {g}", rp)
        judge(ck, key, g, m.coef[i], s, m.name[i], target, epi, rp)
    for g in m.Chrom[len(fit):]:
        ck.expect(valid_genome(g, ops, max_length, distinct=False), key + ":newcomer", lambda: f"newcomer {g}", rp)
    if m.fitness_history:
        ck.expect(abs(float(m.fitness_history[-1]) - min(fit)) <= 1e-12, key + ":history",
                  lambda: f"history {m.fitness_history[-1]} for best {min(fit)}", rp)
    ck.expect(len(m.evolution_history) == len(m.fitness_history), key + ":history-length",
              lambda: f"{len(m.evolution_history)} records, {len(m.fitness_history)} scores", rp)
    if m.evolution_history:
        e = m.evolution_history[-1]
        ck.expect(float(e["fitness"]) == float(m.fitness_history[-1]) and e["population_size"] == pop
                  and e["complexity"] == len(m.Chrom[0]), key + ":history-record", lambda: f"{e}", rp)


# ------------------------------------------------------------------ whole runs
class Watch:
    """Records populations around every selection and the first genomes drawn."""

    def __init__(self, model):
        self.m, self.log, self.drawn = model, [], []

    def __enter__(self):
        cls = type(self.m)
        w = self
        self.saved = []
        owners = [c for c in cls.__mro__ if "select" in c.__dict__ or "random_genome" in c.__dict__]
        for c in owners:
            for name in ("select", "random_genome"):
                if name in c.__dict__:
                    f = c.__dict__[name]
                    self.saved.append((c, name, f))
                    setattr(c, name, self.wrap(name, f))
        return w

    def wrap(self, name, f):
        w = self
        if name == "random_genome":
            def g(model, *a, **k):
                r = f(model, *a, **k)
                if not w.log:
                    w.drawn.append([list(x) for x in r])
                return r
        else:
            def g(model, *a, **k):
                before = [[list(x) for x in c] for c in model.Chrom]
                w.log.append(before)
                r = f(model, *a, **k)
                w.after(model, before)
                return r
        return g

    def after(self, model, before):
        self.checks(model, before)

    def __exit__(self, *a):
        for c, name, f in self.saved:
            setattr(c, name, f)


def part_runs(ck):
    ck.part("runs")
    items = []
    for kind in ("base", "kd"):
        for pop in (1, 2, 3, 4, 5):
            for gens in (0, 1, 2, 3):
                for ti, target in enumerate(TARGETS):
                    for ri, rates in enumerate(((0.4, 0.5, 0.4), (1.0, 1.0, 1.0), (0.0, 0.0, 0.0),
                                                (1.0, 0.0, 0.0))):
                        for k0 in (0, 1, 2, 5):
                            if ck.thorough or (ti + ri + pop + gens) % (3 if gens < 3 else 6) == k0:
                                items.append((kind, pop, gens, target, rates, k0))

    def one(ck, it):
        kind, pop, gens, target, rates, k0 = it
        key = f"run[{kind},pop={pop},gens={gens}]"
        scratch()
        deep = ck.thorough and gens <= 2 and pop <= 3 and k0 <= 1

        def body(ch):
            m, ops = make(kind, pop, gens, 2, 3, target, rates=rates)
            rp = {"case": it, "chooser": ch}
            w = Watch(m)

            def after(model, before):
                r = {"case": it, "choices": list(ch.choices)}
                ck.step()
                ck.visit((it[:4], repr(before)))
                ck.expect(len(before) == pop and len(model.Chrom) == pop, key + ":size",
                          lambda: f"population of {len(before)} -> {len(model.Chrom)}", r)
                for g in before:
                    ck.expect(valid_genome(g, ops, 2), key + ":scored-invalid", lambda: f"member {g} was scored", r)
                check_selection(ck, key, model, before, len(before), ops, target, 0.01, r)
            w.checks = after
            with w, Rot(ch, k0).installed(), quiet():
                res = m.evolution()
            return m, ops, w, res
        ex = Explorer(body, deviations=2 if deep else 1)
        n = 0
        with ck.case(key + f":{target},{rates},{k0}", {"case": it}, timeout=400):
            for ch, (m, ops, w, res) in ex.runs():
                n += 1
                rp = {"case": it, "choices": ch.choices}
                chrom, coef, fit, name = res
                ck.expect(valid_genome(chrom, ops, 2), key + ":result-invalid", lambda: f"{chrom}", rp)
                judge(ck, key + ":result", chrom, coef, float(fit), name, target, 0.01, rp)
                hist = [float(x) for x in m.fitness_history]
                ck.expect(len(hist) == gens, key + ":history-length",
                          lambda: f"{len(hist)} recorded scores for {gens} generations", rp)
                ck.expect(all(b <= a + 1e-9 for a, b in zip(hist, hist[1:])), key + ":best-lost",
                          lambda: f"best scores {hist}", rp)
                if hist:
                    ck.expect(float(fit) == hist[-1], key + ":result-score", lambda: f"{fit} vs {hist}", rp)
                init = w.drawn[:pop]
                if len(init) == pop:
                    refs = []
                    for g in init:
                        d = [list(x) for x in dict.fromkeys(tuple(sorted(x)) for x in g)]
                        r = score_of(d, target, 0.01)
                        refs.append(min(v[0] for v in r.values()) if min(v[3] for v in r.values()) > 1e-3
                                    else np.inf)
                    ck.expect(float(fit) <= min(refs) * (1 + 1e-3) + 1e-5, key + ":initial-best-lost",
                              lambda: f"result {chrom} scores {float(fit)!r}; a first member scored {min(refs)!r}"
                                      f" ({init})", rp)
        ck.trace(n)
        ck.sample({"case": it, "executions": n, "complete": ex.complete})
    ck.pool(one, sorted(items, key=lambda i: h(str(i))))
    ck.end_part()


_scratch = None


def scratch():
    """The search writes result_save/ and model_save/ in the current directory: one per worker."""
    global _scratch
    if _scratch is None or _scratch[0] != os.getpid():
        d = tempfile.mkdtemp(dir=os.environ.get("MC_SCRATCH"))
        _scratch = (os.getpid(), d)
    os.chdir(_scratch[1])
    return pathlib.Path(_scratch[1])


# ------------------------------------------------------------------ refits and neighbours
def part_refit(ck):
    ck.part("refits")
    acts = [("a", "exact_ut"), ("a", "exact_utt"), ("b", "neither"), ("b", "exact_ut")]
    depth = 3
    items = [(k, w) for k in ("base", "kd") for w in itertools.product(range(len(acts)), repeat=depth)]

    def one(ck, it):
        kind, word = it
        scratch()
        ms = {"a": make(kind, 3, 2, 2, 3), "b": make(kind, 2, 2, 2, 2)}
        for d, i in enumerate(word):
            who, target = acts[i]
            m, ops = ms[who]
            rp = {"case": it, "at": d}
            key = f"refit[{kind}]"
            m.u_t, m.u_tt = (x.copy() for x in TARGETS[target])
            with ck.case(key, rp):
                from mc.explore import Chooser
                with Rot(Chooser(), 3 * d).installed(), quiet():
                    chrom, coef, fit, name = m.evolution()
                ck.step()
                ck.visit((it[0], word[:d + 1]))
                ck.expect(valid_genome(chrom, ops, 2), key + ":result-invalid", lambda: f"{chrom}", rp)
                judge(ck, key, chrom, coef, float(fit), name, target, 0.01, rp)
                hist = [float(x) for x in m.fitness_history]
                ck.expect(len(hist) == 2 and len(m.evolution_history) == 2, key + ":stale-history",
                          lambda: f"{len(hist)} scores recorded by a run of 2 generations", rp)
                ck.expect(all(b <= a + 1e-9 for a, b in zip(hist, hist[1:])), key + ":best-lost",
                          lambda: f"best scores {hist}", rp)
        ck.trace()
    ck.pool(one, sorted(items, key=lambda i: h(str(i))))
    ck.end_part()


# ------------------------------------------------------------------ the library of derivatives
def analytic():
    import torch

    class Net(torch.nn.Module):
        def forward(self, X):
            x, t = X[:, 0:1], X[:, 1:2]
            return torch.sin(1.5 * x) * torch.exp(-0.5 * t) + 0.25 * x ** 3 * t ** 2 + 0.5 * x * t

    def values(X):
        x, t = X[:, 0:1].astype(float), X[:, 1:2].astype(float)
        s, c, e = np.sin(1.5 * x), np.cos(1.5 * x), np.exp(-0.5 * t)
        return {"u": s * e + 0.25 * x ** 3 * t ** 2 + 0.5 * x * t,
                "u_x": 1.5 * c * e + 0.75 * x ** 2 * t ** 2 + 0.5 * t,
                "u_xx": -2.25 * s * e + 1.5 * x * t ** 2,
                "u_xxx": -3.375 * c * e + 1.5 * t ** 2,
                "u_t": -0.5 * s * e + 0.5 * x ** 3 * t + 0.5 * x,
                "u_tt": 0.25 * s * e + 0.5 * x ** 3}
    return Net(), values


def part_library(ck):
    ck.part("derivative library")
    names = ALL_OPS + ["u_xxxx"]
    lists = [list(p) for k in (1, 2, 3) for p in itertools.permutations(names, k)]
    if ck.thorough:
        lists += [list(p) for p in itertools.permutations(ALL_OPS, 4)]
    lists += [list(ALL_OPS), list(reversed(ALL_OPS)), ["u", "u"], ["u_x", "u", "u_x"]]
    if not ck.thorough:
        lists = [x for x in lists if len(x) != 3 or h(("lib", str(x))) % 2 == 0]
    xs = [np.array([[0.1, 0.2], [0.5, -0.3], [-0.7, 0.9], [1.1, 0.4]]),
          np.array([[0.3, 0.6]])]

    def one(ck, ops):
        import torch
        from kd.model.dlga import DLGA
        from kd.model.kd_dlga import KD_DLGA
        d = scratch()
        (d / "model_save").mkdir(exist_ok=True)
        net, values = analytic()
        for xi, X in enumerate(xs):
            rp = {"operators": ops, "points": xi}
            key = f"library[{','.join(ops or ['-'])}]"
            with ck.case(key, rp):
                if ops is None:
                    m = DLGA(0.01, 2, max_iter=1)
                    order = ["u", "u_x", "u_xx", "u_xxx", "u_t", "u_tt"]
                else:
                    m = KD_DLGA(operators=list(ops), epi=0.01, input_dim=2, max_iter=1)
                    order = ops
                m.Net, m.best_epoch = net, 1
                torch.save(net.state_dict(), "model_save/Net_1.pkl")
                keep = X.copy()
                ck.step()
                unknown = [o for o in order if o not in ALL_OPS]
                try:
                    with quiet():
                        theta = m.generate_meta_data(X)
                except Exception as e:  # noqa: BLE001
                    ck.expect(bool(unknown), key + ":refused", f"{type(e).__name__}: {e}", rp)
                    continue
                if unknown:
                    ck.fail(key + ":unknown-accepted", f"operators {ops} accepted although {unknown} "
                            f"cannot be built", rp)
                    continue
                ck.expect(np.array_equal(X, keep), key + ":input-changed", "sample points changed", rp)
                v = values(X)
                th = theta.detach().cpu().numpy()
                ck.expect(th.shape == (len(X), len(order)) and np.array_equal(
                    th, m.Theta.detach().cpu().numpy()), key + ":shape", lambda: f"{th.shape}", rp)
                for j, o in enumerate(order):
                    if j < th.shape[1]:
                        ck.expect(np.allclose(th[:, [j]], v[o], rtol=1e-3, atol=1e-4), key + f":{o}",
                                  lambda: f"column {j} ({o}): {th[:, j]} for {v[o][:, 0]}", rp)
                ck.expect(np.allclose(m.u_t, v["u_t"], rtol=1e-3, atol=1e-4), key + ":u_t", "u_t differs", rp)
                ck.expect(np.allclose(m.u_tt, v["u_tt"], rtol=1e-3, atol=1e-4), key + ":u_tt", "u_tt differs", rp)
                for o, arr in m.metadata.items():
                    ck.expect(o in v and np.allclose(arr, v[o], rtol=1e-3, atol=1e-4), key + f":metadata-{o}",
                              lambda: f"metadata {o}: {np.ravel(arr)}", rp)
                # terms are products of these columns
                for mod in ([0], [0, 0], [len(order) - 1, 0]):
                    with quiet():
                        g, n = m.translate_DNA([mod, [0]])
                    want = np.column_stack([np.prod([v[order[i]][:, 0] for i in mod], axis=0), v[order[0]][:, 0]])
                    ck.expect(np.allclose(g, want, rtol=1e-3, atol=1e-4) and n == len(mod) + 1, key + ":terms",
                              lambda: f"terms of {mod}: {g.tolist()} (length {n})", rp)
                ck.visit((str(ops), xi))
        ck.trace()
    ck.pool(one, [None] + sorted(lists, key=lambda i: h(str(i))))
    ck.end_part()


def part_relibrary(ck):
    """One estimator whose operators and points change between calls: every history of three."""
    ck.part("library histories")
    acts = [(ops, how, xi) for ops in (["u"], ["u_x", "u_xx"], ["u_xxx", "u", "u_tt"]) for how in ("keep", "set", "params")
            for xi in (0, 1)]
    xs = [np.array([[0.1, 0.2], [0.5, -0.3], [-0.7, 0.9], [1.1, 0.4]]), np.array([[0.3, 0.6], [0.2, 0.1]])]

    def one(ck, first):
        import torch
        from kd.model.kd_dlga import KD_DLGA
        d = scratch()
        (d / "model_save").mkdir(exist_ok=True)
        net, values = analytic()
        torch.save(net.state_dict(), "model_save/Net_1.pkl")
        for rest in itertools.product(range(len(acts)), repeat=2 if ck.thorough or first % 3 == 0 else 1):
            word = (first,) + rest
            rp = {"history": [acts[i] for i in word]}
            with ck.case("library-history", rp), quiet():
                m = KD_DLGA(operators=["u", "u_x"], epi=0.01, input_dim=2, max_iter=1)
                m.Net, m.best_epoch = net, 1
                ops = ["u", "u_x"]
                for i in word:
                    new, how, xi = acts[i]
                    if how == "set":
                        m.operators, ops = list(new), new
                    elif how == "params":
                        m.set_params(operators=list(new))
                        ops = new
                    theta = m.generate_meta_data(xs[xi]).detach().numpy()
                    ck.step()
                    v = values(xs[xi])
                    ck.expect(list(m.operators) == ops and list(m.get_params()["operators"]) == ops, "library-history:operators",
                              lambda: f"{m.operators} after setting {ops}", rp)
                    ck.expect(theta.shape == (len(xs[xi]), len(ops)) and all(
                        np.allclose(theta[:, [j]], v[o], rtol=1e-3, atol=1e-4) for j, o in enumerate(ops)),
                        "library-history:columns", lambda: f"columns of {ops}: {theta.tolist()}", rp)
                    ck.expect(set(m.metadata) >= set(ALL_OPS) and all(
                        np.allclose(m.metadata[o], v[o], rtol=1e-3, atol=1e-4) for o in m.metadata if o in v),
                        "library-history:metadata", lambda: f"derivatives {sorted(m.metadata)} after {word}", rp)
                    u = np.asarray(m.predict(xs[xi]), float)
                    ck.expect(u.shape == v["u"].shape and np.allclose(u, v["u"], rtol=1e-3, atol=1e-4), "library-history:predict",
                              lambda: f"predicted {u.ravel()} where the network gives {v['u'].ravel()}", rp)
                    # members are built from all of these columns and no others
                    from mc.explore import Chooser
                    genes = set()
                    for k in range(4 * len(ops)):
                        with Rot(Chooser(), k).installed():
                            genes |= set(m.random_module())
                    ck.expect(genes <= set(range(len(ops))) and (len(genes) > 1 or len(ops) == 1), "library-history:genes",
                              lambda: f"genes {sorted(genes)} for {ops}", rp)
                ck.visit(word)
        ck.trace()
    ck.pool(one, list(range(len(acts))))
    ck.end_part()


# ------------------------------------------------------------------ fitting the network
def part_train(ck):
    ck.part("training data")
    n_all = (1, 2, 3, 4, 5, 10, 11)
    items = [(n, mi, oned) for n in n_all for mi in (1, 2, 3) for oned in (False, True)]
    items += [(10, 501, False), (10, 1000, True)]

    def one(ck, it):
        n, mi, oned = it
        scratch()
        import torch
        from kd.model.kd_dlga import KD_DLGA
        key = f"train[n={n},max_iter={mi},1d={oned}]"
        rp = {"case": it}
        if n < 2 or int(n * 0.8) == 0:
            return
        with ck.case(key, rp, timeout=120):
            torch.manual_seed(0)
            m = KD_DLGA(operators=["u", "u_x"], epi=0.1, input_dim=2, max_iter=mi)
            X = np.stack([np.linspace(0, 1, n), np.linspace(1, 2, n)], axis=1)
            y = np.arange(n, dtype=float) + 0.5
            y = y if oned else y.reshape(-1, 1)
            X0, y0 = X.copy(), y.copy()
            preds = []
            from mc.explore import Chooser
            with Rot(Chooser(), 1).installed(), quiet():
                hook = m.Net.register_forward_hook(lambda mod, i, o: preds.append(
                    (i[0].detach().numpy().copy(), o.detach().numpy().copy())))
                net, best = m.train_NN(X, y)
                hook.remove()
            ck.step()
            ck.expect(np.array_equal(X, X0) and np.array_equal(y, y0), key + ":data-changed",
                      "the caller's training arrays were reordered", rp)
            ck.expect(len(m.train_loss_history) == len(m.val_loss_history) == mi, key + ":losses",
                      lambda: f"{len(m.train_loss_history)}/{len(m.val_loss_history)} losses for {mi} steps", rp)
            ck.expect(os.path.exists(f"model_save/Net_{best}.pkl") and best == m.best_epoch, key + ":checkpoint",
                      lambda: f"no saved network for the best epoch {best}", rp)
            # each loss is the mean squared error of the split it names, pairs kept together
            target = {tuple(np.float32(a)): float(b) for a, b in zip(X0, y0.reshape(-1))}
            ntr = int(n * 0.8)
            for step in range(mi):
                tr, va = preds[2 * step], preds[2 * step + 1]
                for what, (xi, oi), got in (("train", tr, m.train_loss_history[step]),
                                            ("validation", va, m.val_loss_history[step])):
                    if len(xi) == 0:
                        continue
                    want = np.mean([(float(o) - target[tuple(r)]) ** 2 for r, o in zip(xi, oi[:, 0])])
                    ck.expect(abs(want - got) <= 1e-3 * max(1, abs(want)), key + f":{what}-loss",
                              lambda: f"step {step}: {what} loss {got}, its pairs give {want}", rp)
                seen = [tuple(r) for r in tr[0]] + [tuple(r) for r in va[0]]
                ck.expect(len(set(seen)) == len(seen) and len(tr[0]) == ntr, key + ":split",
                          lambda: f"{len(tr[0])} training and {len(va[0])} validation points of {n}", rp)
            if mi >= 500:
                vals = [m.val_loss_history[k - 1] for k in range(500, mi + 1, 500)]
                want = (int(np.argmin(vals)) + 1) * 500
                ck.expect(best == want, key + ":best-epoch", lambda: f"best epoch {best}, checkpoints {vals}", rp)
            ck.visit(it)
        ck.trace()
    ck.pool(one, items)
    ck.end_part()


def part_checkpoints(ck):
    """Every order of the validation errors of up to three checkpoints: the best one is kept and used."""
    ck.part("best checkpoint")

    def one(ck, it):
        pattern, extra = it
        scratch()
        import torch
        from kd.model.kd_dlga import KD_DLGA
        key = f"checkpoints[{''.join(map(str, pattern))}+{extra}]"
        rp = {"case": it}
        with ck.case(key, rp, timeout=200):
            torch.manual_seed(0)
            mi = 500 * len(pattern) + extra
            m = KD_DLGA(operators=["u", "u_x"], epi=0.1, input_dim=2, max_iter=mi)
            X = np.stack([np.linspace(0, 1, 10), np.linspace(1, 2, 10)], axis=1)
            y = np.arange(10, dtype=float).reshape(-1, 1) + 0.5
            target = {tuple(np.float32(a)): float(b) for a, b in zip(X, y[:, 0])}
            count = [0]

            def hook(mod, i, o):
                if len(i[0]) > 5:
                    return None
                count[0] += 1
                k = min((count[0] - 1) // 500, len(pattern) - 1)
                t = torch.tensor([[target[tuple(r)]] for r in i[0].detach().numpy()])
                return t + float(np.sqrt(pattern[k] if count[0] % 500 == 0 else 0.5))

            hk = m.Net.register_forward_hook(hook)
            with quiet():
                net, best = m.train_NN(X, y)
            hk.remove()
            ck.step()
            ok = best == m.best_epoch and best % 500 == 0 and 1 <= best // 500 <= len(pattern) and pattern[best // 500 - 1] == min(pattern)
            ck.expect(ok, key + ":best-epoch", lambda: f"best epoch {best}, validation errors {pattern} at 500, 1000, ...", rp)
            # the network the derivatives come from is the saved one of that epoch
            last = {n: v.clone() for n, v in m.Net.state_dict().items()}
            f = f"model_save/Net_{best}.pkl"
            if ok and os.path.exists(f) and hasattr(m, "generate_meta_data"):
                want = torch.load(f, weights_only=True)
                with quiet():
                    m.generate_meta_data(X)
                got = m.Net.state_dict()
                ck.expect(all(torch.equal(want[n], got[n]) for n in want), key + ":network",
                          lambda: f"the terms do not come from the network of epoch {best}", rp)
                if best < mi:
                    ck.expect(any(not torch.equal(want[n], last[n]) for n in want), key + ":saved-late",
                              lambda: f"the network saved for epoch {best} is the last one", rp)
            ck.visit(it)
        ck.trace()
    items = [(p, e) for k in (1, 2, 3) for p in itertools.product((1, 2, 3)[:k], repeat=k) for e in ((0, 3) if k < 3 else (0,))]
    ck.pool(one, items)
    ck.end_part()


def run(ck):
    import triton._C.libtriton  # noqa: F401  (before TensorFlow's LLVM)
    import kd.model.kd_dlga  # noqa: F401
    part_random(ck)
    part_steps(ck)
    part_checkpoints(ck)
    part_repeats(ck)
    part_runs(ck)
    part_refit(ck)
    part_library(ck)
    part_relibrary(ck)
    part_train(ck)
    ck.assumptions.append("random source is numpy's and Python's module-level generators")
