"""C14: every tree produced by the genetic search is well-formed; every operation terminates.

Explored: all answers of the random source inside tree creation, mutation, term
replacement and whole generations, on the real classes.
"""
import copy

import numpy as np

from mc.core import quiet
from mc.explore import Chooser, ControlledRandom, Explorer, Horizon
from mc.sgalib import ARITY, BadTree, inorder, make_context, preorder, read_tree, squash


class Livelock(BaseException):
    pass


class RedrawRandom(ControlledRandom):
    """As ControlledRandom, but a rejection loop is explored once per candidate.

    Drawing again is memoryless, so only the first draw of a loop branches; later draws of the
    same loop walk through all candidates in turn.  A loop that has rejected every candidate
    several times in a row can never end: Livelock.
    """

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.last = None
        self.run = 0

    def np_randint(self, low, high=None, size=None, dtype=int):
        lo, hi = (0, low) if high is None else (low, high)
        key = (int(lo), int(hi))
        if self.last is not None and self.last[0] == key:
            self.run += 1
            if self.run > 4 * (hi - lo) + 8:
                raise Livelock(f"{self.run} rejected draws")
            v = lo + (self.last[1] - lo + 1) % (hi - lo)
            self.last = (key, v)
            return v
        v = super().np_randint(low, high, size, dtype)
        self.last, self.run = (key, v), 0
        return v

    def np_choice(self, *a, **k):
        self.last = None
        return super().np_choice(*a, **k)

    def np_random(self, size=None):
        self.last = None
        return super().np_random(size)


CONTEXTS = {
    "xt": dict(order=("x", "t")),
    "tx": dict(order=("t", "x")),
    "ty": dict(order=("t", "y")),
    "xt-lhs-x": dict(order=("x", "t"), lhs="x"),
    "xyt": dict(order=("x", "y", "t")),
    "xt-uv": dict(order=("x", "t"), fields=("u", "v")),
}


def table(ctx):
    """name -> payload for every terminal and operator of a context."""
    t = {}
    for row in list(ctx.VARS) + list(ctx.OPS) + list(ctx.den):
        t.setdefault(row[0], row[2])
    return t


def same(a, b):
    if callable(a) or callable(b):
        return a is b or getattr(a, "__name__", 1) == getattr(b, "__name__", 2)
    return a is b or np.array_equal(np.asarray(a), np.asarray(b))


def check_tree(ck, ctx, tree, max_depth, key, replay, tab, text=True):
    try:
        e = read_tree(tree)
    except BadTree as b:
        ck.fail(key + ":malformed", str(b), replay)
        return None
    axes = {row[0] for row in ctx.den}
    leaves = {row[0] for row in ctx.VARS} | axes

    def rec(x, d):
        if d + 1 > max_depth:
            ck.fail(key + ":too-deep", preorder(e), replay)
        if len(x) == 1:
            ck.expect(x[0] in leaves, key + ":unknown-leaf", preorder(e), replay)
        if x[0] in ("d", "d^2"):
            ck.expect(len(x[2]) == 1 and x[2][0] in axes, key + ":derivative-axis",
                      f"{preorder(x)} in {preorder(e)}", replay)
        for c in x[1:]:
            rec(c, d + 1)
    rec(e, 0)
    ck.expect(e[0] in ARITY, key + ":leaf-root", preorder(e), replay)
    for lv in tree.tree:
        for n in lv:
            if not (n.name in tab and same(n.var, tab[n.name]) and n.full[0] == n.name):
                ck.fail(key + ":payload", f"node {n.name} of {preorder(e)} holds another value", replay)
                break
    if text:
        ck.expect(squash(tree.preorder) == squash(preorder(e)), key + ":preorder-text",
                  lambda: f"{tree.preorder} for {preorder(e)}", replay)
        ck.expect(squash(tree.inorder) == squash(inorder(e)), key + ":inorder-text",
                  lambda: f"{tree.inorder} for {inorder(e)}", replay)
    return e


def explore_gen(ck, name, depth, p_var, deviations, keep=None, cap=None):
    from kd.model.sga.sgapde.tree import Tree
    ctx = make_context(**CONTEXTS[name])
    tab = table(ctx)

    def body(ch):
        with ControlledRandom(ch).installed():
            return Tree(ctx, depth, p_var)
    ex = Explorer(body, deviations=deviations, horizon=500)
    found = {}
    key = f"create[{name},depth={depth},p_var={p_var}]"
    with ck.case(key, timeout=600):
        for ch, tr in ex.runs():
            ck.step(len(ch.trace))
            e = check_tree(ck, ctx, tr, depth, key, {"choices": ch.choices, "ctx": name}, tab)
            if e is not None:
                ck.trace()
                if ck.visit((name, depth, e)):
                    ck.outcome(e[0])
                if keep is not None and e not in found:
                    found[e] = tr
    if name == "xt":
        ck.sample({"context": name, "depth": depth, "p_var": p_var, "trees": ex.count})
    return ctx, found


def explore_mutate(ck, name, depth, p_mute, deviations, start_dev, stride=1, offset=0):
    ctx, found = explore_gen(ck, name, depth, 0.5, start_dev, keep=True)
    tab = table(ctx)
    key = f"mutate[{name},depth={depth},p_mute={p_mute}]"
    for e0, tr in list(found.items())[offset::stride]:
        before = inorder(e0)

        def body(ch):
            t2 = copy.deepcopy(tr)
            try:
                with RedrawRandom(ch).installed():
                    t2.mutate(ctx, p_mute)
            except Livelock:
                return None
            return t2
        ex = Explorer(body, deviations=deviations, horizon=400)
        with ck.case(key, {"tree": preorder(e0), "ctx": name}, timeout=120):
            for ch, t2 in ex.runs():
                ck.step(len(ch.trace))
                rep = {"tree": preorder(e0), "choices": ch.choices, "ctx": name, "p_mute": p_mute}
                if t2 is None:
                    ck.fail(key + ":livelock", f"mutating {preorder(e0)} never ends", rep)
                    continue
                e = check_tree(ck, ctx, t2, depth, key, rep, tab)
                if e is not None:
                    ck.trace()
                    ck.visit((name, "mut", depth, e))
                    # same skeleton: only node names change
                    def shape(x):
                        return tuple(shape(c) for c in x[1:])
                    ck.expect(shape(e) == shape(e0), key + ":reshaped",
                              f"{preorder(e0)} -> {preorder(e)}", rep)
                    if p_mute == 0.0:
                        ck.expect(e == e0, key + ":mutated-at-0", preorder(e), rep)
            ck.expect(inorder(read_tree(tr)) == before and tr.inorder and
                      squash(tr.inorder) == squash(before), key + ":aliased",
                      f"mutating a copy changed {before}", {"tree": preorder(e0)})


def explore_pde(ck, name, depth, width, deviations):
    from kd.model.sga.sgapde.pde import PDE
    ctx = make_context(**CONTEXTS[name])
    tab = table(ctx)
    key = f"pde[{name},depth={depth},width={width}]"

    def body(ch):
        with ControlledRandom(ch).installed():
            p = PDE(ctx, depth, width, 0.5)
            first = [t for t in p.elements]
            texts = [t.inorder for t in first]
            p.replace()
        return p, first, texts
    ex = Explorer(body, deviations=deviations, horizon=400)
    sizes = set()
    with ck.case(key, timeout=600):
        for ch, (p, first, texts) in ex.runs():
            ck.step(len(ch.trace))
            rep = {"choices": ch.choices, "ctx": name}
            ck.expect(1 <= len(first) <= width and len(p.elements) == len(first) == p.W,
                      key + ":term-count", f"{len(first)} -> {len(p.elements)}, W={p.W}", rep)
            sizes.add(len(first))
            ids = [id(t) for t in p.elements]
            ck.expect(len(set(ids)) == len(ids), key + ":shared-term", str(texts), rep)
            kept = sum(a is b for a, b in zip(p.elements, first))
            ck.expect(kept == len(first) - 1, key + ":replace-one",
                      f"{len(first) - kept} terms replaced", rep)
            es = [check_tree(ck, ctx, t, depth, key, rep, tab) for t in p.elements]
            ck.expect(squash(p.visualize()) == squash("+".join(inorder(e) for e in es if e)),
                      key + ":text", p.visualize(), rep)
            for t, s in zip(first, texts):
                ck.expect(t.inorder == s, key + ":replaced-text", s, rep)
            ck.trace()
            ck.visit((name, "pde", depth, width, tuple(e for e in es if e)))
    ck.expect(sizes == set(range(1, width + 1)), key + ":widths", f"sizes seen {sorted(sizes)}")


def explore_generation(ck, name, num, depth, width, deviations, p_cro, p_mute, p_rep, stride=1,
                       offset=0):
    """Whole generations of the real search: members stay well-formed and within the width."""
    from kd.model.sga.sgapde.solver import SGA
    ctx = make_context(**CONTEXTS[name])
    key = f"generation[{name},num={num},depth={depth},width={width},p_cro={p_cro}]"

    class Rot(RedrawRandom):
        """Rotating default so that repeated default choices still give different members."""

        def __init__(self, ch):
            super().__init__(ch)
            self.k = offset
            self.building = True

        def np_randint(self, low, high=None, size=None, dtype=int):
            lo, hi = (0, low) if high is None else (low, high)
            if not self.building:
                return super().np_randint(low, high, size, dtype)
            self.k += 1
            return lo + (self.ch.choose(hi - lo, "randint") + self.k) % (hi - lo)

    def body(ch):
        rnd = Rot(ch)
        try:
            with rnd.installed(), quiet():
                s = SGA(ctx, num, depth, width, 0.5, p_mute, p_rep, p_cro, [], [])
                after = [copy.deepcopy([[n.name for n in lv] for t in e.elements for lv in t.tree]
                                       ) for e in s.eqs]
                stages = [(list(s.eqs), "start", after)]
                s.cross_over(p_cro)
                stages.append((list(s.eqs), "crossover", None))
                rnd.building = False
                s.change(p_mute, p_rep)
                stages.append((list(s.eqs), "change", None))
        except Livelock:
            return None
        return stages
    ex = Explorer(body, deviations=deviations, horizon=2000)
    with ck.case(key, timeout=800):
        for ch, stages in ex.runs():
            ck.step(len(ch.trace))
            rep = {"choices": ch.choices, "ctx": name, "offset": offset}
            if stages is None:
                ck.fail(key + ":livelock", "a generation never ends", rep)
                continue
            ck.trace()
            for eqs, stage, _ in stages:
                for p in eqs:
                    k2 = f"{key}:{stage}"
                    ck.expect(0 <= len(p.elements) <= width and p.W == len(p.elements),
                              k2 + ":term-count", f"{len(p.elements)} terms, W={p.W}", rep)
                    tab = table(p.context)
                    for t in p.elements:
                        e = check_tree(ck, p.context, t, depth, k2, rep, tab)
                        ck.visit((name, stage, e))


def run(ck):
    T = ck.thorough
    ck.assumptions += ["the random source is numpy's / Python's module-level generator",
                       "rejection loops are memoryless: each candidate is explored once per loop"]
    jobs = []
    for n in CONTEXTS:
        for pv in (0.0, 0.5, 1.0):
            jobs.append(("gen", n, 2, pv, None))
        small = n in ("xt", "tx", "ty", "xt-lhs-x")
        jobs.append(("gen", n, 3, 0.5, None if small or T else 4))
        jobs.append(("gen", n, 4, 0.5, 3 if not T else 4))
        jobs.append(("mut", n, 2, 0.5, None if n != "xyt" or T else 4, None, 1, 0))
        jobs.append(("mut", n, 2, 0.0, None, None, 1, 0))
        jobs.append(("mut", n, 2, 1.0, None, None, 1, 0))
        st = 4
        for off in range(st):
            jobs.append(("mut", n, 3, 0.5, 3, 3 if not T else 4, st, off))
            jobs.append(("mut", n, 3, 1.0, 1 if not T else 2, 3, st, off))
        jobs.append(("pde", n, 2, 2, 3 if not T else 4))
        jobs.append(("pde", n, 3, 3, 2 if not T else 3))
        for off in range(4 if not T else 8):
            jobs.append(("generation", n, 2, 2, 2, 1 if not T else 2, 1.0, 0.5, 0.5, off))
            jobs.append(("generation", n, 3, 3, 2, 1, 0.67, 1.0, 1.0, off))
    ck.part("trees")

    def work(c, job):
        kind, *a = job
        if kind == "gen":
            explore_gen(c, a[0], a[1], a[2], a[3])
        elif kind == "mut":
            explore_mutate(c, a[0], a[1], a[2], a[3], a[4], a[5], a[6])
        elif kind == "pde":
            explore_pde(c, *a)
        else:
            n, num, d, w, dev, pc, pm, pr, off = a
            explore_generation(c, n, num, d, w, dev, pc, pm, pr, offset=off)
    import kd.model.sga.sgapde.solver  # noqa: F401  (loaded before forking)
    jobs.sort(key=lambda j: j[0] != "generation")
    ck.pool(work, jobs)
    ck.notes["bounds"] = {"contexts": list(CONTEXTS), "jobs": len(jobs)}
