"""C23: the running list of best equations is exactly the best seen so far."""
import itertools
import math

import numpy as np

from checks import c21
from mc.core import h, quiet
from mc.explore import Explorer

NAN, INF = float("nan"), float("inf")
LIMIT = 10


def f32(v):
    return float(np.float32(v))


def best(scores):
    """The distinct defined scores, best first, at most ten."""
    return sorted({f32(s) for s in scores if math.isfinite(s)}, reverse=True)[:LIMIT]


def same(a, b):
    return len(a) == len(b) and all(f32(x) == f32(y) for x, y in zip(a, b))


def judge(ck, key, rp, history, awards, sentences, text=lambda s: tuple(int(x) for x in s)):
    """history: [(sentence, score)] of every round so far."""
    want = best([s for _, s in history])
    ck.expect(same(awards, want), key + ":scores", lambda: f"{awards} instead of {want}", rp)
    ck.expect(len(sentences) == len(awards), key + ":lengths", lambda: f"{len(sentences)} equations for {len(awards)}", rp)
    for a, s in zip(awards, sentences):
        ok = any(f32(sc) == f32(a) and text(eq) == text(s) for eq, sc in history)
        ck.expect(ok, key + ":pairing", lambda: f"{s} listed with {a}, which was never its score", rp)


# ------------------------------------------------------------------ the merge itself
def streams(ck):
    """Rounds of scores: every short stream over a few values, and structured long ones."""
    vals = (0.0, 0.25, 0.5, -1.0, NAN)
    for n in (1, 2, 3):
        for r1 in itertools.product(vals, repeat=n):
            for r2 in itertools.product(vals, repeat=n):
                yield (r1, r2)
    for n in (1, 2):
        for rs in itertools.product(itertools.product((0.25, 0.5, NAN), repeat=n), repeat=3):
            yield rs
    if ck.thorough:
        for n in (1, 2):
            for rs in itertools.product(itertools.product((0.25, 0.5, 0.75, NAN), repeat=n), repeat=4 if n == 1 else 3):
                yield rs
        for r1 in itertools.product((0.0, 0.5, NAN, INF), repeat=4):
            for r2 in itertools.product((0.25, 0.5, NAN), repeat=4):
                yield (r1, r2)
    # around the capacity of ten: k distinct scores first, then every small second round
    for k in (8, 9, 10, 11, 12):
        first = tuple(i / 16 for i in range(1, k + 1))
        probes = (0.0, 1 / 16, 1.5 / 16, 3.5 / 16, k / 16, k / 16 + 0.5, NAN, -INF, INF)
        for second in itertools.product(probes, repeat=2):
            yield (first, second)
            yield (first[::-1], second)
            yield (second, first)
            yield (second, first, second)
        if ck.thorough:
            for second in itertools.product(probes, repeat=3):
                yield (first, second)
                yield (first, second[:1], second[1:2], second[2:])
        # negative scores, mixed signs, repeated scores filling the sample
        yield (tuple(-x for x in first), first)
        yield (first, tuple(-x for x in first), first)
        yield (first + first, first[:3] + (0.99,))
        yield ((0.5,) * 12, (0.5, 0.25) * 6, first)


def uniform(rounds):
    return len({len(r) for r in rounds}) == 1


def part_merge(ck):
    ck.part("merging rounds")
    items = sorted(set(map(repr, streams(ck))))
    chunks = [items[i::64] for i in range(64)]
    env = {"nan": NAN, "inf": INF}

    def one(ck, chunk):
        import torch
        from kd.model.eqgpt.continue_train_GPT_all import find_min_no_repeat
        from kd.model.kd_eqgpt import KD_EqGPT
        for text in chunk:
            rounds = eval(text, {}, dict(env))
            key = "merge"
            rp = {"rounds": text}
            with ck.case(key + f"[{text}]", rp):
                aw = se = None
                history = []
                for e, scores in enumerate(rounds):
                    # the equation of a score: distinct per (round, position) so pairing is checked
                    sents = [[6, 2, 7 + (e * 16 + i) % 40, 2, 8 + e, 3, 7 + i % 40, 1] for i in range(len(scores))]
                    history += list(zip([list(s) for s in sents], scores))
                    t = torch.tensor(scores, dtype=torch.float32)
                    keep, kept_sents = t.clone(), [list(s) for s in sents]
                    with quiet():
                        aw, se = KD_EqGPT._update_top10(e, t, sents, aw, se, find_min_no_repeat, len(scores))
                    ck.step()
                    ck.visit((tuple(f32(a) for a in aw), tuple(map(tuple, se))))
                    judge(ck, key, dict(rp, round=e), history, aw, se)
                    ck.expect(torch.equal(torch.nan_to_num(t), torch.nan_to_num(keep)) and sents == kept_sents,
                              key + ":round-changed", text, rp)
        ck.trace(len(chunk))
        ck.sample({"rounds": chunk[0]})
    ck.pool(one, chunks)
    ck.end_part()


# ------------------------------------------------------------------ the whole search
SCALES = {
    "ties": lambda n: [0.5, 0.5, 0.25],
    "rising": lambda n: [i / 64 for i in range(64)],
    "falling": lambda n: [1 - i / 64 for i in range(64)],
    "negative": lambda n: [-i / 7 for i in range(40)],
    "all zero": lambda n: [0.0],
    "saw": lambda n: [((i * 7) % 23) / 23 for i in range(64)],
}


def part_search(ck):
    ck.part("whole searches")
    shapes = [(1, 1), (1, 2), (1, 12), (2, 1), (2, 6), (3, 5), (4, 3), (2, 13)]
    if ck.thorough:
        shapes += [(6, 4), (3, 12), (12, 1), (1, 30)]
    items = [(name, e, s, v) for name in SCALES for e, s in shapes for v in ("by call", "by equation")]

    def one(ck, it):
        from kd.model.eqgpt import gpt_model as g
        from kd.model.eqgpt.continue_train_GPT_all import delete_duplicate
        name, epochs, samples, how = it
        scale = SCALES[name](samples)
        key = f"search[{name},{how}]"
        count = [0]

        def reward(s):
            count[0] += 1
            if how == "by call":
                return scale[(count[0] - 1) % len(scale)]
            return scale[h(tuple(s)) % len(scale)]

        # short equations: the end symbol is preferred by the rotating default
        logits = np.where(np.arange(len(g.id2word)) == c21.END, 1.0, 0.0)

        with c21.loop(reward, logits) as go:
            def body(ch):
                count[0] = 0
                p = c21.Picks(ch, 0)
                p.k = -1
                real = p.np_choice

                def choice(a, size=None, replace=True, p=None):
                    # operators: default to ending (then +), terms: rotate
                    return real(a, size, replace, p)
                p.np_choice = choice
                with p.installed():
                    return go(epochs, samples)
            ex = Explorer(body, deviations=1, max_runs=40 if ck.thorough else 8)
            with ck.case(key, {"case": it}, timeout=300):
                for ch, (res, seen, trained) in ex.runs():
                    rp = {"case": it, "choices": ch.choices[:40]}
                    ck.step(len(seen))
                    ck.expect(len(seen) == epochs * samples, key + ":evaluations", lambda: str(len(seen)), rp)
                    text = [("".join(g.id2word[int(i)] for i in delete_duplicate(list(s))[:-1]), r) for s, r in seen]
                    judge(ck, key, rp, text, res["rewards"], res["equations"], text=str)
                    want = best([r for _, r in seen])
                    first = (res["equations"][0], res["rewards"][0]) if res["equations"] else ("", 0.0)
                    ck.expect((res["best_equation"], res["best_reward"]) == first, key + ":best",
                              lambda: f"{res['best_equation']!r} {res['best_reward']}", rp)
                    # what each round trains on is the list after that round
                    for e, data in enumerate(trained):
                        w = best([r for _, r in seen[:(e + 1) * samples]])
                        ck.expect(len(data) == len(w), key + ":trained", lambda: f"round {e}: {len(data)} for {len(w)}", rp)
                    ck.visit((it, tuple(want), tuple(res["equations"])))
        ck.trace(ex.count)
        ck.sample({"case": it, "executions": ex.count})
    ck.pool(one, sorted(items, key=lambda i: h(str(i))))
    ck.end_part()


def part_every_score(ck):
    """Every assignment of scores to the candidates of a small search."""
    ck.part("every score")
    values = (0.25, 0.5, 0.0, -0.5)
    shapes = [(1, 3), (2, 2), (3, 1)] + ([(2, 3), (3, 2), (4, 1)] if ck.thorough else [(4, 1)])
    items = [(e, s, v) for e, s in shapes for v in values]

    def one(ck, it):
        from kd.model.eqgpt import gpt_model as g
        from kd.model.eqgpt.continue_train_GPT_all import delete_duplicate
        epochs, samples, first = it
        logits = np.where(np.arange(len(g.id2word)) == c21.END, 1.0, 0.0)
        box = {}

        def reward(s):
            if not box["n"]:
                box["n"] = 1
                return first
            return values[box["ch"].choose(len(values), "score")]
        with c21.loop(reward, logits) as go:
            def body(ch):
                from mc.explore import Chooser
                box.update(n=0, ch=ch)
                p = c21.Picks(Chooser(()), 0)
                with p.installed():
                    return go(epochs, samples)
            ex = Explorer(body)
            key = "every-score"
            with ck.case(key, {"case": it}, timeout=600):
                for ch, (res, seen, trained) in ex.runs():
                    rp = {"case": it, "scores": [r for _, r in seen]}
                    ck.step(len(seen))
                    text = [("".join(g.id2word[int(i)] for i in delete_duplicate(list(s))[:-1]), r) for s, r in seen]
                    judge(ck, key, rp, text, res["rewards"], res["equations"], text=str)
                    ck.visit((epochs, samples, tuple(r for _, r in seen)))
        ck.trace(ex.count)
    ck.pool(one, sorted(items, key=lambda i: h(str(i))))
    ck.end_part()


def run(ck):
    with quiet():
        g, c = c21.mods()
        from kd.model.kd_eqgpt import KD_EqGPT
    if hasattr(KD_EqGPT, "_update_top10") and hasattr(c, "find_min_no_repeat"):
        part_merge(ck)
    part_search(ck)
    part_every_score(ck)
