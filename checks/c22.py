"""C22: every vocabulary term is computed as the quantity it names."""
import itertools

import numpy as np

from mc.core import h, quiet

END, PLUS, TIMES, OVER = 1, 2, 3, 4
ORDERS = [p for names in (("t", "x"), ("t", "x", "y"), ("t", "x", "y", "z")) for p in itertools.permutations(names)]
ORDERS += [("x",), ("x", "y"), ("y", "x"), ("x", "y", "z")]
EXTRA = ["(u^2)xx", "uyyyy", "uxxyy", "uzzzz", "uyyzz", "uxxzz", "Div(u)"]


def mods():
    import kd.model.eqgpt.calculate_terms as ct
    import kd.model.eqgpt.continue_train_GPT_all as c
    return ct, c


# ------------------------------------------------------------------ an independent meaning of the words
def fields():
    import sympy as sp
    x, y, z, t = sp.symbols("x y z t")
    return [
        2 + sp.Rational(3, 10) * x * t + sp.sin(x + t / 2 + y * sp.Rational(3, 10) - z / 5) / 2 + y * z / 7,
        -3 + x ** 5 * y ** 4 / 20 - t ** 3 * x ** 2 * z ** 4 / 11 + x * y * z * t / 3 + t ** 2 * x ** 3 * y ** 2 / 9 + z ** 2,
        sp.exp(-t / 3 + x / 4) * sp.cos(y / 2) + sp.Rational(5, 2) + z ** 3 / 8,
    ]


def words():
    """word -> (sympy expression builder, variables needed)."""
    import sympy as sp
    x, y, z, t = sp.symbols("x y z t")

    def D(e, *vs):
        for v in vs:
            e = sp.diff(e, v)
        return e
    T = {
        "ut": lambda u, S: D(u, t), "u": lambda u, S: u, "ux": lambda u, S: D(u, x),
        "uxx": lambda u, S: D(u, x, x), "uxxt": lambda u, S: D(u, x, x, t), "ut^2": lambda u, S: D(u, t) ** 2,
        "uxt": lambda u, S: D(u, x, t), "utt": lambda u, S: D(u, t, t), "ux^2": lambda u, S: D(u, x) ** 2,
        "uxxxx": lambda u, S: D(u, x, x, x, x), "(uux)x": lambda u, S: D(u * D(u, x), x),
        "uxxtt": lambda u, S: D(u, x, x, t, t), "(u^4)xx": lambda u, S: D(u ** 4, x, x), "u^2": lambda u, S: u ** 2,
        "uxxx": lambda u, S: D(u, x, x, x), "u^3": lambda u, S: u ** 3, "x": lambda u, S: x,
        "uyy": lambda u, S: D(u, y, y), "(1/u)xx": lambda u, S: D(1 / u, x, x),
        "(u^-2*ux)x": lambda u, S: D(u ** -2 * D(u, x), x), "uxxxxx": lambda u, S: D(u, x, x, x, x, x),
        "ut^3": lambda u, S: D(u, t) ** 3, "sqrt(u)": lambda u, S: sp.sqrt(sp.Abs(u)),
        "sin(u)": lambda u, S: sp.sin(u), "sinh(u)": lambda u, S: sp.sinh(u),
        "BiLaplace(u)": lambda u, S: lap(lap(u, S), S), "uy": lambda u, S: D(u, y),
        "Laplace(u)": lambda u, S: lap(u, S), "y": lambda u, S: y, "x^2": lambda u, S: x ** 2,
        "y^2": lambda u, S: y ** 2, "uy^2": lambda u, S: D(u, y) ** 2, "uxy": lambda u, S: D(u, x, y),
        "uz": lambda u, S: D(u, z), "uzz": lambda u, S: D(u, z, z),
        "Laplace(utt)": lambda u, S: lap(D(u, t, t), S), "(x+y)": lambda u, S: x + y,
        "exp(x)": lambda u, S: sp.exp(x), "uyyt": lambda u, S: D(u, y, y, t), "sint": lambda u, S: sp.sin(t),
        "sinx": lambda u, S: sp.sin(x), "(uxx+ux/x)^2": lambda u, S: (D(u, x, x) + D(u, x) / x) ** 2,
        "x^4": lambda u, S: x ** 4, "sqrt(x)": lambda u, S: sp.sqrt(x), "exp(-y)": lambda u, S: sp.exp(-y),
        "t": lambda u, S: t, "uyyy": lambda u, S: D(u, y, y, y), "(uux)t": lambda u, S: D(u * D(u, x), t),
        "(uux)xx": lambda u, S: D(u * D(u, x), x, x), "(u^3)xx": lambda u, S: D(u ** 3, x, x),
        "(u(u^2)xx)xx": lambda u, S: D(u * D(u ** 2, x, x), x, x),
        "(u^2)xx": lambda u, S: D(u ** 2, x, x), "uyyyy": lambda u, S: D(u, y, y, y, y),
        "uxxyy": lambda u, S: D(u, x, x, y, y), "uzzzz": lambda u, S: D(u, z, z, z, z),
        "uyyzz": lambda u, S: D(u, y, y, z, z), "uxxzz": lambda u, S: D(u, x, x, z, z),
        "Div(u)": lambda u, S: sum(D(u, v) for v in (x, y, z) if str(v) in S),
    }

    def lap(e, S):
        return sum(D(e, v, v) for v in (x, y, z) if str(v) in S)
    return T


def needed(word):
    w = word
    for junk in ("sqrt", "exp", "sin", "Laplace", "Bi", "Div"):
        w = w.replace(junk, "")
    out = {a for a in "xyzt" if a in w} | {"x"}
    if "Laplace" in word or word == "Div(u)":
        out |= {"x", "y"}
    return out


class Field:
    """A network that is an exactly known function of its input columns."""

    def __init__(self, expr, variables):
        import sympy as sp
        import torch
        self.variables = tuple(variables)
        gone = {s: sp.Rational(1, 2) for s in sp.symbols("x y z t") if str(s) not in variables}
        self.expr = expr.subs(gone)
        self.syms = [sp.Symbol(v) for v in variables]
        self.fn = sp.lambdify(self.syms, self.expr, modules=[{
            n: (lambda a, f=f: f(a if torch.is_tensor(a) else torch.tensor(float(a), dtype=torch.float64)))
            for n, f in (("sin", torch.sin), ("cos", torch.cos), ("exp", torch.exp))}, "math"])

    def __call__(self, database):
        return self.fn(*[database[:, i] for i in range(database.shape[1])]).reshape(-1, 1)

    def value(self, build, points):
        import sympy as sp
        e = build(self.expr, set(self.variables))
        f = sp.lambdify(self.syms, e, modules="numpy")
        out = f(*[points[:, i] for i in range(points.shape[1])])
        return np.broadcast_to(np.asarray(out, float), (len(points),))


def points_for(variables, n=7, seed=0):
    k = np.arange(n)
    cols = {"x": 0.4 + 0.23 * ((k * 3 + seed) % n), "t": 0.1 + 0.31 * ((k * 2 + 1 + seed) % n),
            "y": -0.7 + 0.27 * ((k * 5 + 2) % n), "z": 0.2 + 0.19 * ((k * 4 + 3) % n)}
    return np.stack([cols[v] for v in variables], axis=1)


def tensor(pts):
    import torch
    return torch.tensor(pts, dtype=torch.float64, requires_grad=True)


def part_terms(ck):
    ck.part("term values")
    T = words()
    ct, c = mods()
    vocab = list(ct.id2word[6:])
    missing = [w for w in vocab if w not in T]
    if missing:
        ck.notes["words without a reference"] = missing
    names = vocab + EXTRA
    items = [(o, f) for o in ORDERS for f in range(3)]

    def one(ck, it):
        order, fi = it
        net = Field(fields()[fi], order)
        for n, seed in (((7, 0), (1, 2), (4, 1)) if ck.thorough else ((7, 0), (1, 2))):
            pts = points_for(order, n, seed)
            for word in names:
                if word not in T or not needed(word) <= set(order):
                    continue
                want = net.value(T[word], pts)
                for which, fn in (("calculate_terms", lambda w, d: ct.calculate_terms(w, net, d, list(order), n, 1)),
                                  ("calculate_terms_PINN", lambda w, d: ct.calculate_terms_PINN(w, net, d, list(order)))):
                    key = f"{which}[{word}]"
                    rp = {"word": word, "variables": order, "field": fi, "points": n}
                    with ck.case(key, rp):
                        db = tensor(pts)
                        keep = db.detach().clone()
                        got = fn(word, db)
                        ck.step()
                        ck.visit((which, word, order, fi, n))
                        if got is None:
                            ck.expect(False, key + ":none", f"{word} has no value for {order}", rp)
                            continue
                        got = got.detach().numpy() if hasattr(got, "detach") else np.asarray(got)
                        ck.expect(got.size == n, key + ":size", lambda: f"{got.shape} for {n} points", rp)
                        if got.size == n:
                            ok = np.allclose(got.reshape(-1), want, rtol=1e-7, atol=1e-9)
                            ck.expect(ok, key + f":{'/'.join(order)}", lambda: f"{word} with columns {order}: "
                                      f"{got.reshape(-1)[:3]} instead of {want[:3]}", rp)
                        ck.expect(bool((db.detach() == keep).all()), key + ":points-changed", word, rp)
        ck.trace()
        ck.sample({"order": it[0], "field": it[1]})
    ck.pool(one, sorted(items, key=lambda i: h(str(i))))
    ck.end_part()


# ------------------------------------------------------------------ rewards
PAIRS = [{"u", "sin(u)"}, {"u", "sinh(u)"}, {"sin(u)", "sinh(u)"}, {"u", "u^2", "u^3"}, {"x", "sinx"}]


def ref_reward(names, ops, values, variables):
    """names/ops: the equation after removing repeated terms; values: per case word -> column."""
    if any(p <= set(names) for p in PAIRS):
        return 0.0
    text = "".join(n.replace("sqrt", "sqr") for n in names)
    for v in variables:
        if v not in text and "Div" not in text and "Laplace" not in text:
            return 0.0
    rewards = []
    for vals in values:
        cols, cur, over = [], None, False
        for w, op in zip(names, ops):
            v = vals[w]
            with np.errstate(all="ignore"):
                cur = v.copy() if cur is None else (cur / v if over else cur * v)
            over = op == OVER
            if op in (PLUS, END):
                cols.append(cur)
                cur = None
        uniq = []
        for col in cols:
            if not any(np.array_equal(col, o) for o in uniq):
                uniq.append(col)
        A = np.stack(uniq, axis=1)
        A = A[~np.isinf(A).any(axis=1)]
        if np.isnan(A).any():
            continue
        if A.shape[1] == 1:
            fit = np.zeros(len(A))
        else:
            coef = np.linalg.lstsq(A[:, 1:], A[:, 0], rcond=None)[0]
            fit = A[:, 1:] @ coef
        with np.errstate(all="ignore"):
            r2 = 1 - ((A[:, 0] - fit) ** 2).sum() / ((A[:, 0] - A[:, 0].mean()) ** 2).sum()
        rewards.append((1 - 0.02 * np.log10(A.shape[1])) * r2)
    r = float(np.mean(rewards)) if rewards else 0.0
    return r if np.isfinite(r) else 0.0


def dedup(names, ops):
    terms, cur = [], []
    for w, op in zip(names, ops):
        cur.append((w, op))
        if op in (PLUS, END):
            terms.append(cur)
            cur = []
    kept, seen = [], set()
    for t in terms:
        num = [t[0][0]] + [t[i][0] for i in range(1, len(t)) if t[i - 1][1] == TIMES]
        den = [t[i][0] for i in range(1, len(t)) if t[i - 1][1] == OVER]
        key = (tuple(sorted(num)), tuple(sorted(den)))
        if key not in seen:
            seen.add(key)
            kept.append([list(x) for x in t])
    for t in kept:
        t[-1][1] = PLUS
    kept[-1][-1][1] = END
    flat = [x for t in kept for x in t]
    return [x[0] for x in flat], [x[1] for x in flat]


class Cases:
    """One to three measured cases with exactly known fields; zero and sign changes included."""

    def __init__(self, setup):
        import sympy as sp
        x, y, z, t = sp.symbols("x y z t")
        self.variables, kind = setup
        F = fields()
        if kind == "plain":
            self.nets = [Field(F[0], self.variables)]
            self.pts = [points_for(self.variables, 9)]
        elif kind == "two":
            self.nets = [Field(F[0], self.variables), Field(F[2], self.variables)]
            self.pts = [points_for(self.variables, 9), points_for(self.variables, 7, 2)]
        elif kind == "same size":
            self.nets = [Field(f, self.variables) for f in (F[0], F[2], F[1])]
            self.pts = [points_for(self.variables, 9, s) for s in (0, 2, 0)]
        elif kind == "zero":      # the field and its slope vanish at one point: divisions by zero there
            self.nets = [Field((x - 1) ** 2 * (1 + t) * sp.exp(x / 5), self.variables), Field(F[0], self.variables)]
            p = points_for(self.variables, 9)
            p[3, list(self.variables).index("x")] = 1.0
            self.pts = [p, points_for(self.variables, 7, 2)]
        elif kind == "negative":  # sqrt(x) is undefined in the first case
            self.nets = [Field(F[0], self.variables), Field(F[2], self.variables)]
            p = points_for(self.variables, 9)
            p[:, list(self.variables).index("x")] -= 1.5
            self.pts = [p, points_for(self.variables, 7, 2)]
        elif kind == "flat":      # nothing changes in time: the first term is zero everywhere
            self.nets = [Field(1 + x ** 2 + sp.sin(x) / 4, self.variables)]
            self.pts = [points_for(self.variables, 9)]
        self.dbs = [tensor(p) for p in self.pts]
        self.T = words()
        self.memo = {}

    def values(self, names):
        out = []
        for i, net in enumerate(self.nets):
            d = {}
            for w in set(names):
                if (i, w) not in self.memo:
                    with np.errstate(all="ignore"):
                        self.memo[i, w] = np.array(net.value(self.T[w], self.pts[i]))
                d[w] = self.memo[i, w]
            out.append(d)
        return out

    def real(self, sent, state):
        ct, c = mods()
        with quiet(), np.errstate(all="ignore"):
            r, w2v, mask = c.calculate_reward(list(sent), self.nets, self.dbs, state[0], state[1], list(self.variables),
                                              [p.shape[0] for p in self.pts], [1] * len(self.pts))
        return float(r), (w2v, mask)


def fresh(variables):
    ct, c = mods()
    return {}, c.get_mask_invalid(list(variables))


def equations(ck, word_list):
    """Right-hand sides of up to three words with every operator pattern."""
    for n in (1, 2, 3):
        for ws in itertools.product(word_list, repeat=n):
            for ops in itertools.product((PLUS, TIMES, OVER), repeat=n - 1):
                yield ("ut",) + ws, (PLUS,) + ops + (END,)


WORDS2 = ["u", "ux", "uxx", "u^2", "sin(u)", "x", "sqrt(x)", "ut"]
SETUPS = [(("t", "x"), k) for k in ("plain", "two", "same size", "zero", "negative", "flat")] + [
    (("x", "t"), "two"), (("t", "x", "y"), "two"), (("x", "y", "t"), "zero")]
SINGULAR = {"(1/u)xx", "(u^-2*ux)x"}
WORDS3 = ["u", "uyy", "Laplace(u)", "ux", "y", "exp(-y)"]


def part_reward(ck):
    ck.part("rewards")
    ct, c = mods()
    items = []
    for s in SETUPS:
        ws = WORDS2 if len(s[0]) == 2 else [w for w in WORDS3 if w != "exp(-y)"]
        eqs = list(equations(ck, ws))
        # everything in the vocabulary alone, and beside ux
        for w in ct.id2word[6:]:
            if needed(w) <= set(s[0]):
                eqs.append((("ut", w), (PLUS, END)))
                eqs.append((("ut", "ux", w), (PLUS, PLUS, END)))
                eqs.append((("ut", "ux", w), (PLUS, OVER, END)))
        eqs += [(("ut",), (END,)), (("ut", "u", "u^2", "u^3"), (PLUS, PLUS, PLUS, END)),
                (("ut", "u", "u^2", "u^3", "uxx"), (PLUS, TIMES, PLUS, PLUS, END)),
                (("ut", "ux", "uxx", "uxxx", "u"), (PLUS, TIMES, OVER, TIMES, END)),
                (("ut", "ux", "uxx", "ux", "uxx"), (PLUS, TIMES, PLUS, OVER, END))]
        eqs = sorted(set(eqs))
        if not ck.thorough:
            eqs = [e for e in eqs if len(e[0]) < 4 or h(str(e)) % 3 == 0]
        if s == SETUPS[1]:
            # repeated terms: every pair of terms of up to three words over two
            terms = [(w, o) for n in (1, 2, 3) for w in itertools.product(("u", "ux"), repeat=n) for o in itertools.product((TIMES, OVER), repeat=n - 1)]
            eqs += [(("ut",) + a + b, (PLUS,) + oa + (PLUS,) + ob + (END,)) for (a, oa), (b, ob) in itertools.product(terms, repeat=2)
                    if (len(a) == 3) + (len(b) == 3) < 2 or ck.thorough or sorted(a) == sorted(b)]
        for i in range(8):
            items.append((s, eqs[i::8]))

    def one(ck, it):
        setup, eqs = it
        cs = Cases(setup)
        state = fresh(cs.variables)          # shared by all equations of this chunk, as in a search
        for names, ops in eqs:
            if setup[1] == "zero" and SINGULAR & set(names):
                continue        # infinite at one of the points: no value to speak of
            if "exp(-y)" in names or "exp(x)" in names and "x" not in "".join(n for n in names if n != "exp(x)"):
                continue
            sent = [x for p in zip([ct.word2id[w] for w in names], ops) for x in p]
            n2, o2 = dedup(names, ops)
            key = "reward"
            text = "".join(w + {PLUS: "+", TIMES: "*", OVER: "/", END: ""}[o] for w, o in zip(names, ops))
            rp = {"setup": setup, "equation": text}
            with ck.case(key + f"[{setup[1]}]:{text}", rp):
                want = ref_reward(n2, o2, cs.values(n2), cs.variables)
                got, state = cs.real(sent, state)
                alone, _ = cs.real(sent, fresh(cs.variables))
                ck.step(2)
                ck.visit((setup, text))
                ck.expect(np.isfinite(got), key + f"[{setup[1]}]:finite", f"{text}: {got}", rp)
                ok = abs(got - want) <= 1e-6 * max(1, abs(want))
                if not ok:      # nearly collinear columns: the fitted value is only known to rounding
                    ok = shaky(n2, o2, cs)
                ck.expect(ok, key + f"[{setup[1]}]:value", f"{text}: {got} instead of {want}", rp)
                ck.expect(got == alone, key + f"[{setup[1]}]:history", f"{text}: {got} after other equations, {alone} alone", rp)
                for i, db in enumerate(cs.dbs):
                    ck.expect(np.array_equal(db.detach().numpy(), cs.pts[i]), key + ":points-changed", text, rp)
        ck.trace(len(eqs))
        ck.sample({"setup": setup, "equations": len(eqs)})
    ck.pool(one, sorted(items, key=lambda i: h(str(i[0]) + str(i[1][:1]))))
    ck.end_part()


def shaky(names, ops, cs):
    for vals in cs.values(names):
        cols, cur, over = [], None, False
        for w, op in zip(names, ops):
            with np.errstate(all="ignore"):
                cur = vals[w] if cur is None else (cur / vals[w] if over else cur * vals[w])
            over = op == OVER
            if op in (PLUS, END):
                cols.append(cur)
                cur = None
        for a, b in itertools.combinations(cols, 2):     # equal up to rounding: a repeated column or not?
            if np.allclose(a, b, rtol=1e-9, atol=0, equal_nan=True):
                return True
        A = np.stack(cols[1:], axis=1) if len(cols) > 1 else np.zeros((len(cols[0]), 0))
        A = A[np.isfinite(A).all(axis=1)]
        if A.size:
            s = np.linalg.svd(A, compute_uv=False)
            if s[-1] < 1e-9 * s[0]:
                return True
    return False


def part_masks(ck):
    """Evaluating an equation only ever removes terms that cannot be evaluated."""
    ck.part("mask updates")
    ct, c = mods()
    import torch

    def one(ck, setup):
        cs = Cases(setup)
        vocab = [w for w in ct.id2word[6:] if needed(w) <= set(cs.variables)
                 and not (setup[1] == "zero" and w in SINGULAR)]
        for pair in [(w,) for w in vocab] + list(itertools.product(["ux", "sqrt(x)", "sqrt(u)", "u"], repeat=2)):
            names = ("ut",) + pair
            sent = [x for p in zip([ct.word2id[w] for w in names], (PLUS,) * len(pair) + (END,)) for x in p]
            with ck.case(f"mask[{setup[1]}]{pair}", {"setup": setup, "terms": pair}):
                before = fresh(cs.variables)
                keep = before[1].clone()
                r, (w2v, mask) = cs.real(sent, before)
                ck.step()
                ck.visit((setup, pair))
                vals = cs.values(names)
                for i, w in enumerate(ct.id2word):
                    nan = w in names and any(np.isnan(v[w]).any() for v in vals)
                    want = 0.0 if nan else float(keep[i])
                    ck.expect(float(mask[i]) == want, f"mask[{setup[1]}]:{w}", f"after {names}: {w} is {float(mask[i])}",
                              {"setup": setup, "terms": pair})
        ck.trace()
    ck.pool(one, SETUPS[:6])
    ck.end_part()


def run(ck):
    with quiet():
        mods()
    part_terms(ck)
    part_reward(ck)
    part_masks(ck)
