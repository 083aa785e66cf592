"""C21: generated term sequences always follow the equation grammar."""
import contextlib
import itertools
import math
import os
import pathlib
import pickle
import tempfile

import numpy as np

from mc.core import h, quiet
from mc.explore import ControlledRandom, Explorer

PAD, END, PLUS, TIMES, OVER, START, UT = range(7)
OPS = (END, PLUS, TIMES, OVER)


def mods():
    import kd.model.eqgpt.gpt_model as g
    import kd.model.eqgpt.continue_train_GPT_all as c
    return g, c


class Picks(ControlledRandom):
    """np.random.choice over the positive entries only, with a rotating default."""

    def __init__(self, ch, k=0):
        super().__init__(ch)
        self.k = k
        self.supports = []

    def np_choice(self, a, size=None, replace=True, p=None):
        pop = list(range(a)) if isinstance(a, (int, np.integer)) else [int(x) for x in a]
        if p is not None:
            p = np.asarray(p, float).ravel()
            if not np.all(np.isfinite(p)) or (p < 0).any() or abs(p.sum() - 1) > 1e-3:
                raise ValueError("probabilities do not sum to 1 / contain NaN")
            pop = [x for x, q in zip(pop, p) if q > 0]
        if not pop:
            raise ValueError("'a' cannot be empty unless no samples are taken")
        self.supports.append(pop)
        self.k += 1
        return pop[(self.ch.choose(len(pop), "token") + self.k) % len(pop)]


def scorer(logits):
    """The real GPT.step over a stub network giving these scores at every position."""
    import torch
    g, _ = mods()

    class Stub:
        step = g.GPT.step

        def decoder(self, x):
            return torch.zeros(1, x.shape[1], 1), []

        def projection(self, x):
            t = torch.tensor(logits, dtype=torch.float32)
            return t.expand(1, x.shape[1], -1).clone()
    return Stub()


def masks():
    import torch
    g, c = mods()
    out = [("variables " + ",".join(v), c.get_mask_invalid(list(v)))
           for v in (("t", "x"), ("x",), ("t", "x", "y"), ("t", "x", "y", "z"), ("x", "y"))]
    one = c.get_mask_invalid(["t", "x"]).clone()
    keep = [i for i in range(6, len(g.id2word)) if one[i] != 0][:2]
    for i in range(6, len(g.id2word)):
        if i not in keep:
            one[i] = 0
    out.append(("two terms left", one))
    return out


def part_step(ck):
    ck.part("one step")
    g, c = mods()
    n = len(g.id2word)
    items = list(range(n)) + [-1, -2]

    def one(ck, dom):
        import torch
        for name, mask in masks():
            for size in ((0.0, 30.0, 1e4) if dom >= 0 else (1.0,)):
                if dom == -1:
                    logits = np.linspace(-3, 3, n)
                elif dom == -2:
                    logits = np.linspace(200, -200, n)
                else:
                    logits = np.zeros(n)
                    logits[dom] = size
                for sent in ([START], [START, UT], [START, UT, PLUS], [START, UT, PLUS, 8],
                             [START, UT, OVER, 8, TIMES], [START] + [8, PLUS] * 20, [START] + [8, PLUS] * 20 + [9]):
                    m = scorer(logits)
                    at_term = len(sent) % 2 == 1
                    keep = mask.clone()
                    key = f"step[{'term' if at_term else 'operator'},{name}]"
                    rp = {"dominant": dom, "size": size, "mask": name, "sentence": sent}
                    ops_seen = set()

                    def body(ch):
                        p = Picks(ch)
                        with p.installed(), quiet():
                            return m.step(list(sent), mask)[0]
                    ex = Explorer(body)
                    with ck.case(key, rp):
                        for ch, tok in ex.runs():
                            ck.step()
                            tok = int(tok)
                            ops_seen.add(tok)
                            ok = (tok >= 6 and keep[tok] != 0) if at_term else tok in OPS
                            word = g.id2word[tok]
                            ck.expect(ok, key + f":{word}", lambda: f"after {sent} the symbol {word} was chosen "
                                      f"(dominant {g.id2word[dom] if dom >= 0 else dom})", rp)
                        ck.expect(torch.equal(mask, keep), key + ":mask-changed", "the mask was changed", rp)
                        ck.visit((key, dom, size, len(sent), tuple(sorted(ops_seen))))
                    ck.trace(ex.count)
    ck.pool(one, sorted(items, key=lambda i: h(str(i))))
    ck.end_part()


def part_mask(ck):
    """The mask for a set of variables excludes exactly what cannot be evaluated on the right-hand side."""
    ck.part("mask")
    g, c = mods()
    for k in range(1, 4):
        for extra in itertools.combinations("tyz", k - 1):
            var = ["x"] + list(extra)
            with ck.case(f"mask{var}", {"variables": var}):
                m = c.get_mask_invalid(var)
                ck.step()
                ck.visit(tuple(var))
                for i, w in enumerate(g.id2word):
                    if i < 6:
                        continue
                    letters = {a for a in "xyzt" if a in needed(w)}
                    bad = letters - set(var)
                    if bad or "t" in letters:
                        ck.expect(float(m[i]) == 0, f"mask{var}:{w}", f"{w} is allowed with variables {var}",
                                  {"variables": var, "word": w})
            ck.trace()
    ck.end_part()


def needed(word):
    """The variables a vocabulary word speaks of."""
    w = word.replace("sqrt", "").replace("exp", "").replace("Laplace", "").replace("Bi", "")
    out = {a for a in "xyzt" if a in w}
    if "Laplace" in word:
        out |= {"x", "y"}
    return out


# ------------------------------------------------------------------ de-duplication and formatting
def groups(sent):
    out, cur = [], []
    for w in sent:
        if w == PLUS:
            out.append(cur)
            cur = []
        else:
            cur.append(w)
    out.append(cur)
    return out


def canon(term):
    num, den = [], []
    for i in range(0, len(term), 2):
        (den if i and term[i - 1] == OVER else num).append(term[i])
    return tuple(sorted(num)), tuple(sorted(den))


def reference(sent):
    body = list(sent[:-1] if sent[-1] == END else sent)
    kept, seen = [], set()
    for t in groups(body):
        if canon(t) not in seen:
            seen.add(canon(t))
            kept.append(t)
    out = []
    for i, t in enumerate(kept):
        out += ([PLUS] if i else []) + list(t)
    return out + [END]


def sequences(ck):
    words = (7, 8, 9)
    top = 4
    for n in range(1, top + 1):
        for ws in itertools.product(words, repeat=n):
            for ops in itertools.product((PLUS, TIMES, OVER), repeat=n - 1):
                yield [x for pair in zip(ws, ops + (END,)) for x in pair]
    if ck.thorough:
        for ws in itertools.product((7, 8), repeat=6):
            for ops in itertools.product((PLUS, TIMES, OVER), repeat=5):
                yield [x for pair in zip(ws, ops + (END,)) for x in pair]
    # every vocabulary word once, alone and beside another one
    for w in range(6, 57):
        yield [w, END]
        yield [UT, PLUS, w, END]
        yield [UT, PLUS, w, TIMES, 8, PLUS, 8, TIMES, w, END]
        yield [UT, PLUS, w, OVER, 8, PLUS, 8, OVER, w, END]


def part_dedup(ck):
    ck.part("splitting and duplicates")
    seqs = list(sequences(ck))
    chunks = [seqs[i::64] for i in range(64)]

    def one(ck, chunk):
        from kd.model.kd_eqgpt import KD_EqGPT
        g, c = mods()
        for s in chunk:
            for given in (list(s), s[:-1]):
                key = "dedup"
                rp = {"sentence": given}
                want = reference(given)
                with ck.case(key + f":{s}", rp):
                    arg = list(given)
                    got = c.delete_duplicate(arg)
                    ck.step()
                    ck.expect([int(x) for x in got] == want, key + f":{show(g, s)}",
                              lambda: f"{show(g, s)} became {show(g, got)} instead of {show(g, want)}", rp)
                    ck.expect(arg == given, key + ":argument-changed", f"the argument {given} became {arg}", rp)
                    ck.expect(c.delete_duplicate(list(got)) == got, key + ":not-stable",
                              f"{got} changes when repeated", rp)
                    # formatting: the equation shown and the sequence trained on
                    sent = list(given)
                    if not all(hasattr(KD_EqGPT, n) for n in ("_format_results", "_prepare_train_data")):
                        continue        # covered by the whole search below
                    with quiet():
                        eqs, rew = KD_EqGPT._format_results([sent], [0.5], g.id2word, c.delete_duplicate, g.word2id)
                        data = KD_EqGPT._prepare_train_data([list(given)], [0.5], g.word2id, g.id2word,
                                                            c.delete_duplicate)
                    ck.step(2)
                    text = "".join(g.id2word[i] for i in want[:-1])
                    ck.expect(eqs == [text] and rew == [0.5], key + ":shown", lambda: f"{show(g, s)} shown as {eqs}", rp)
                    ck.expect(data == [[START] + want], key + ":training-sequence",
                              lambda: f"{show(g, s)} trained as {data}", rp)
                    ck.visit(tuple(given))
        ck.trace(len(chunk))
        ck.sample({"sentence": chunk[0]})
    ck.pool(one, chunks)
    ck.end_part()


def show(g, s):
    return "".join(g.id2word[int(i)] for i in s)


# ------------------------------------------------------------------ the search loop
@contextlib.contextmanager
def loop(reward, logits=None, model_hook=None):
    """The real KD_EqGPT.fit_pretrained over a stub network, no measured data and explored rewards.

    reward(sentence) -> number; the yielded function runs the loop and returns its result.
    """
    import torch
    import kd.model.kd_eqgpt as ke
    g, c = mods()
    n = len(g.id2word)

    class StubGPT(torch.nn.Module):
        def __init__(self):
            super().__init__()
            self.bias = torch.nn.Parameter(torch.zeros(n))

        def load_state_dict(self, *a, **k):
            return None

        def decoder(self, x):
            return torch.zeros(1, x.shape[1], 1), []

        def projection(self, x):
            base = torch.zeros(n) if logits is None else torch.tensor(logits, dtype=torch.float32)
            return base.expand(1, x.shape[1], -1).clone()

        def forward(self, x):
            out = self.bias.expand(x.shape[0] * x.shape[1], -1)
            return out, []
        step = g.GPT.step

    d = pathlib.Path(tempfile.mkdtemp(dir=os.environ.get("MC_SCRATCH")))
    (d / "gpt_model").mkdir()
    torch.save({}, str(d / "gpt_model" / "PDEGPT_wave_breaking.pt"))
    with open(d / "wave_breaking_data.pkl", "wb") as f:
        pickle.dump({}, f)
    seen = []

    def fake_reward(sentence, nets, dbs, values, mask, variables, nx, nt):
        s = [int(x) for x in sentence]
        r = reward(s)
        seen.append((s, r))
        return r, values, mask
    trained = []

    class Set(c.MyDataSet):
        def __init__(self, datas):
            trained.append([list(x) for x in datas])
            super().__init__(datas)
    stand_ins = [(m, a, v) for m in (g, c, ke) for a, v in (
        ("GPT", StubGPT), ("calculate_reward", fake_reward), ("MyDataSet", Set), ("_DATA_DIR", d)) if hasattr(m, a)]
    stand_ins.append((ke.KD_EqGPT, "_load_surrogates", lambda self, *a, **k: ([None], [None], [1], [1])))
    saved = [(m, a, getattr(m, a)) for m, a, _ in stand_ins]
    for m, a, v in stand_ins:
        setattr(m, a, v)

    def go(epochs, samples):
        seen.clear()
        trained.clear()
        m = ke.KD_EqGPT(optimize_epochs=epochs, samples_per_epoch=samples)
        with quiet():
            res = m.fit_pretrained()
        return res, list(seen), [list(t) for t in trained]
    try:
        yield go
    finally:
        for m, a, v in saved:
            setattr(m, a, v)
        import shutil
        shutil.rmtree(d, ignore_errors=True)


def part_loop(ck):
    ck.part("generated equations")
    g, c = mods()
    n = len(g.id2word)
    shapes = {"level": np.zeros(n), "end-first": np.where(np.arange(n) == END, 5.0, 0.0),
              "never-ends": np.where(np.arange(n) == END, -1e4, 0.0),
              "pad": np.where(np.arange(n) == PAD, 1e4, 0.0), "start": np.where(np.arange(n) == START, 1e4, 0.0),
              "ut": np.where(np.arange(n) == UT, 1e4, 0.0),
              "terms": np.where(np.arange(n) >= 6, 1e4, 0.0), "operators": np.where(np.arange(n) < 6, 1e4, 0.0)}
    items = [(s, k) for s in shapes for k in range(6 if ck.thorough else 3)]

    def one(ck, it):
        shape, k = it
        mask = c.get_mask_invalid(["t", "x"])
        key = f"generated[{shape}]"

        def check(seen, rp):
            for s, _ in seen:
                ck.visit(tuple(s))
                full = [START] + s
                ok_len = len(full) <= 49
                ck.expect(ok_len, key + ":length", lambda: f"{len(full)} symbols: {show(g, s)}", rp)
                ck.expect(s[:2] == [UT, PLUS], key + ":start", lambda: show(g, s), rp)
                ck.expect(s[-1] == END and s.count(END) == 1, key + ":end",
                          lambda: f"does not end properly: {show(g, s)}", rp)
                for i, w in enumerate(s):
                    if i % 2 == 1:
                        ck.expect(w in OPS, key + ":operator", lambda: f"{g.id2word[w]} at {i} in {show(g, s)}", rp)
                    elif i > 0:
                        ck.expect(w >= 6 and mask[w] != 0, key + ":term",
                                  lambda: f"{g.id2word[w]} at {i} in {show(g, s)}", rp)
                ck.expect(len(s) % 2 == 0, key + ":alternation", lambda: show(g, s), rp)
        with loop(lambda s: 0.1, shapes[shape]) as go:
            def body(ch):
                p = Picks(ch, 7 * k)
                with p.installed():
                    return go(1, 1)
            ex = Explorer(body, deviations=1, max_runs=400 if ck.thorough else 60)
            with ck.case(key, {"case": it}, timeout=300):
                for ch, (res, seen, trained) in ex.runs():
                    rp = {"case": it, "choices": ch.choices}
                    ck.step()
                    check(seen, rp)
                    want = "".join(g.id2word[i] for i in reference(seen[0][0])[:-1])
                    ck.expect(res["equations"] == [want], key + ":shown",
                              lambda: f"{show(g, seen[0][0])} reported as {res['equations']}", rp)
                    ck.expect(trained == [[[START] + reference(seen[0][0])]], key + ":trained",
                              lambda: f"{show(g, seen[0][0])} trained as {trained}", rp)
        ck.trace(ex.count)
        if not ex.complete:
            ck.notes["loops cut at the run limit"] = ck.notes.get("loops cut at the run limit", 0) + 1
        ck.sample({"case": it, "executions": ex.count, "complete": ex.complete})
    ck.pool(one, sorted(items, key=lambda i: h(str(i))))
    ck.end_part()


def run(ck):
    with quiet():
        g, c = mods()
        import kd.model.kd_eqgpt  # noqa: F401
    part_mask(ck)
    part_step(ck)
    if hasattr(c, "delete_duplicate"):
        part_dedup(ck)
    part_loop(ck)
