"""C16: the genetic search (tree based) never loses its best equation."""
import contextlib
import copy

import numpy as np

from mc.core import quiet
from mc.explore import ControlledRandom, Explorer
from mc import sgalib as L
from checks.c14 import Livelock, RedrawRandom

INF = float("inf")


class Rot(RedrawRandom):
    """Rotating defaults, so that the default execution already builds different members."""

    def __init__(self, ch, k):
        super().__init__(ch)
        self.k = k

    def np_randint(self, low, high=None, size=None, dtype=int):
        lo, hi = (0, low) if high is None else (low, high)
        key = (int(lo), int(hi))
        if self.last is not None and self.last[0] == key:
            return super().np_randint(low, high, size, dtype)
        self.k += 1
        v = int(lo) + (self.ch.choose(int(hi) - int(lo), "randint") + self.k) % (int(hi) - int(lo))
        self.last, self.run = (key, v), 0
        return v

    def np_random(self, size=None):
        self.last = None
        self.k += 1
        return [0.0, 0.999999][(self.ch.choose(2, "random") + self.k) % 2]


@contextlib.contextmanager
def scored(score):
    """Replace the score of a candidate by an explored one (its text decides: same text, same score)."""
    from kd.model.sga.sgapde import pde as pm, solver as sm
    real = pm.evaluate_mse

    def fake(p, context, is_term=False, **kw):
        if is_term or kw:
            return real(p, context, is_term, **kw)
        return score(p.visualize()), 0
    old = {m: m.evaluate_mse for m in (pm, sm) if hasattr(m, "evaluate_mse")}
    for m in old:
        m.evaluate_mse = fake
    try:
        yield
    finally:
        for m, f in old.items():
            m.evaluate_mse = f


def snapshot(s):
    return [(e.visualize(), float(m)) for e, m in zip(s.eqs, s.mses)]


def assigned(ck, num, gens, alphabet, dev, k0, p_cro, p_mute, p_rep, width=2):
    from kd.model.sga.sgapde.solver import SGA
    ctx = L.make_context()
    key = f"assigned[num={num},gens={gens},p_cro={p_cro},p_rep={p_rep},start={k0}]"

    def body(ch):
        table, log = {}, []

        def score(text):
            if text not in table:
                # spread the defaults over the alphabet as well
                n = len(alphabet)
                table[text] = alphabet[(ch.choose(n, "score") + len(table)) % n]
            log.append((text, table[text]))
            return table[text]
        stages = []
        try:
            with Rot(ch, k0).installed(), quiet(), scored(score):
                s = SGA(ctx, num, 2, width, 0.5, p_mute, p_rep, p_cro, [], [])
                stages.append(("start", snapshot(s), len(log)))
                for g in range(gens):
                    s.cross_over(p_cro)
                    stages.append(("crossover", snapshot(s), len(log)))
                    s.change(p_mute, p_rep)
                    stages.append(("change", snapshot(s), len(log)))
                eq, m = s.the_best()
                best = (eq.visualize(), float(m))
        except Livelock:
            return None
        return table, log, stages, best
    ex = Explorer(body, deviations=dev, horizon=600, on_horizon="cut")
    with ck.case(key, timeout=700):
        for ch, res in ex.runs():
            ck.step(len(ch.trace))
            rep = {"choices": ch.choices, "start": k0}
            if res is None:
                ck.fail(key + ":livelock", "mutation never ends", rep)
                continue
            table, log, stages, best = res
            prev = None
            admitted = INF
            done = 0
            for stage, pop, upto in stages:
                txt = f"{stage}: {pop}"
                ck.expect(len(pop) == num, key + f":{stage}:size", f"{len(pop)} members; {txt}", rep)
                sc = [m for _, m in pop]
                ck.expect(sc == sorted(sc), key + f":{stage}:order", txt, rep)
                bad = [(t, m, table.get(t)) for t, m in pop if table.get(t) != m]
                ck.expect(not bad, key + f":{stage}:score-of-another",
                          f"{bad[:2]} (text, stored score, its score)", rep)
                if stage == "start":
                    ck.expect(all(-100 <= m < INF for m in sc), key + ":start:undefined", txt, rep)
                    admitted = min(sc)
                else:
                    admitted = min([admitted] + [m for _, m in log[done:upto]])
                    ck.expect(min(sc) <= prev, key + f":{stage}:worse", f"{prev} -> {txt}", rep)
                ck.expect(min(sc) == admitted, key + f":{stage}:lost-best",
                          f"best ever {admitted}; {txt}", rep)
                prev, done = min(sc), upto
                ck.visit((stage, tuple(pop)))
            ck.expect(best[1] == prev and table.get(best[0]) == best[1], key + ":returned",
                      f"returned {best}, population best {prev}", rep)
            ck.trace()
            ck.outcome((best[1], len(table)))
    if ex.cut:
        ck.exhaustive = False
        ck.notes["cut"] = ck.notes.get("cut", 0) + ex.cut
    ck.sample({"num": num, "gens": gens, "executions": ex.count, "start": k0})


def real_scores(ck, name, kw, num, gens, dev, k0):
    """Same search with real scores: each stored score is that of its equation, evaluated afresh."""
    from kd.model.sga.sgapde.config import SolverConfig  # noqa: F401
    from kd.model.sga.sgapde.pde import evaluate_mse
    from kd.model.sga.sgapde.solver import SGA, SGAPDE_Solver
    ctx = L.make_context(**kw, num=num, depth=2, width=2, p_mute=0.5, p_cro=1.0, p_rep=0.5,
                         sga_run=gens)
    key = f"real[{name},num={num},gens={gens},start={k0}]"

    def body(ch):
        stages = []
        try:
            with Rot(ch, k0).installed(), quiet(), np.errstate(all="ignore"):
                s = SGA(ctx, num, 2, 2, 0.5, 0.5, 0.5, 1.0, [], [])
                stages.append(copy.deepcopy((s.eqs, s.mses)))
                for _ in range(gens):
                    s.cross_over(1.0)
                    stages.append(copy.deepcopy((s.eqs, s.mses)))
                    s.change(0.5, 0.5)
                    stages.append(copy.deepcopy((s.eqs, s.mses)))
            # the public entry point makes the very same choices
            ch2 = type(ch)(ch.choices, ch.horizon)
            with Rot(ch2, k0).installed(), quiet(), np.errstate(all="ignore"):
                sol = SGAPDE_Solver(ctx.config)
                text, score = sol.run(ctx)
        except Livelock:
            return None
        return stages, text, score, sol.best_equation_details_
    ex = Explorer(body, deviations=dev, horizon=600, on_horizon="cut")
    with ck.case(key, timeout=700):
        for ch, res in ex.runs():
            ck.step(len(ch.trace))
            rep = {"choices": ch.choices, "start": k0}
            if res is None:
                ck.fail(key + ":livelock", "mutation never ends", rep)
                continue
            stages, text, score, details = res
            prev = INF
            for i, (eqs, mses) in enumerate(stages):
                ck.expect(len(eqs) == len(mses) == num, key + ":size", f"{len(eqs)}", rep)
                ck.expect(list(mses) == sorted(mses), key + ":order", str(mses), rep)
                ck.expect(min(mses) <= prev, key + ":worse", f"{prev} -> {mses}", rep)
                prev = min(mses)
                for e, m in zip(eqs, mses):
                    with quiet(), np.errstate(all="ignore"):
                        again = evaluate_mse(copy.deepcopy(e), ctx)[0]
                    ck.expect(again == m or abs(again - m) < 1e-6 * max(1, abs(m)),
                              key + ":stale-score", f"{e.visualize()}: stored {m}, evaluates to {again}",
                              rep)
                    ck.visit((name, i, e.visualize()))
            eqs, mses = stages[-1]
            ok = [e.visualize() for e, m in zip(eqs, mses) if m == min(mses)]
            ck.expect(score == prev and text in ok, key + ":returned",
                      f"returned {text} {score}; best of final population {ok} {prev}", rep)
            if ck.expect(details is not None, key + ":details", "no structured equation", rep):
                best = eqs[int(np.argmin(mses))]
                n = len(best.elements) + 1
                ck.expect(len(details.terms) <= n, key + ":details-terms", text, rep)
            ck.trace()
            ck.outcome(text)
    ck.sample({"problem": name, "executions": ex.count, "start": k0})


def run(ck):
    T = ck.thorough
    ck.part("search")
    import kd.model.sga.sgapde.solver  # noqa: F401
    A = [1.0, 2.0, INF, -5.0]
    jobs = []
    for k in range(6 if not T else 12):
        jobs.append(("a", 2, 1, A, 2, k, 1.0, 0.5, 0.5))
        jobs.append(("a", 3, 1, A, 1 if not T else 2, k, 0.67, 0.5, 1.0))
        jobs.append(("a", 3, 2, A + [-150.0], 1, k, 1.0, 0.5, 0.5))
        jobs.append(("a", 4, 1, A, 1, k, 0.5, 1.0, 0.0))
        jobs.append(("r", "xt", {}, 3, 1, 1, k))
        jobs.append(("r", "xt-uv", dict(fields=("u", "v")), 2, 2, 1, k))
    jobs.sort(key=lambda j: j[0] != "r")

    def work(c, j):
        (assigned if j[0] == "a" else real_scores)(c, *j[1:])
    ck.pool(work, jobs)
    ck.assumptions += ["executions with at most 1-2 departures from a rotating default choice",
                       "equal texts have equal scores"]
