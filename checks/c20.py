"""C20: a neural genetic-search equation is displayed as the one found."""
import collections
import itertools
import os
import re

import numpy as np

from mc.core import h, quiet
from checks.c19 import ALL_OPS, LIB, TARGETS, make, scratch

BASE = ["u", "ux", "uxx", "uxxx", "ut", "utt"]
COEFS = [0.5, -0.25, 1.0, -1.0, 0.0, 0.00001, -0.00001, 1.00001, -0.99999, 0.99994, 12345.6789, -1e7,
         0.12345, -2.0, 1e20]
NUM = r"\d+(?:\.\d*)?(?:[eE][+-]?\d+)?"


def norm(name):
    """u_{xx}, u_xx, uxx -> uxx"""
    return re.sub(r"[_{}\s\\]", "", name)


def read_latex(text):
    """-> (lhs, Counter of (coefficient to 4 decimals, factors)) or None when it cannot be read."""
    m = re.fullmatch(r"\$(.*?)=(.*)\$", text.strip())
    if not m:
        return None
    lhs, rest = norm(m.group(1)), m.group(2)
    pos, terms, first = 0, [], True
    rest = rest.strip()
    if rest == "0":
        return lhs, []
    while pos < len(rest):
        s = re.compile(r"\s*([+-])?\s*").match(rest, pos)
        if not s.group(1) and not first:
            return None
        sign = -1.0 if s.group(1) == "-" else 1.0
        pos, first = s.end(), False
        n = re.compile(NUM).match(rest, pos)
        coef = 1.0
        if n:
            coef, pos = float(n.group()), n.end()
        factors = []
        while True:
            f = re.compile(r"\s*(?:\\cdot)?\s*(u(?:_(?:\{[xt]+\}|[xt](?![xt])))?)(?:\^(?:\{(\d+)\}|(\d)))?").match(rest, pos)
            if not f:
                break
            factors += [norm(f.group(1))] * int(f.group(2) or f.group(3) or 1)
            pos = f.end()
        if not factors and not n:
            return None
        terms.append((sign * coef, tuple(sorted(factors))))
        pos = re.compile(r"\s*").match(rest, pos).end()
    return lhs, terms


def read_text(text):
    m = re.fullmatch(r"([^=]*)=(.*)", text.strip())
    if not m:
        return None
    lhs, rest = norm(m.group(1)), m.group(2).replace(" ", "")
    pos, terms, first = 0, [], True
    term = re.compile(r"((?:[+-]){0,2})(" + NUM + r"|inf|nan)((?:\*[A-Za-z_]+)*)")
    while pos < len(rest):
        f = term.match(rest, pos)
        if not f or (not first and not f.group(1)):
            return None
        sign = -1.0 if f.group(1).count("-") == 1 else 1.0
        terms.append((sign * float(f.group(2)), tuple(sorted(norm(x) for x in f.group(3).split("*")[1:]))))
        pos, first = f.end(), False
    return lhs, terms


def same(read, want):
    if read is None or read[0] != norm(want[0]) or len(read[1]) != len(want[1]):
        return False
    left = list(read[1])
    for c, fac in want[1]:
        hit = next((i for i, (d, g) in enumerate(left)
                    if g == fac and abs(d - c) <= 0.5001e-4 + 1e-9 * abs(c)), None)
        if hit is None:
            return False
        left.pop(hit)
    return True


def modules(n, top):
    return [list(m) for k in range(1, top + 1) for m in itertools.combinations_with_replacement(range(n), k)]


def part_render(ck):
    ck.part("rendering")
    lists = [None]
    for k in (1, 2, 3):
        lists += [list(p) for p in itertools.permutations(ALL_OPS, k)]
    if not ck.thorough:
        lists = [x for x in lists if x is None or len(x) < 3 or h(str(x)) % 8 == 0]
    lists += [list(ALL_OPS), list(reversed(ALL_OPS)), ["u_x", "u_xx", "u_xxx", "u"]]
    items = [(i, part, nparts) for i, ops in enumerate(lists) for nparts in [6 if ops is None or len(ops) > 3 else 1]
             for part in range(nparts)]

    def one(ck, it):
        from kd.viz.dlga_eq2latex import dlga_eq2latex
        i, part, nparts = it
        ops = lists[i]
        names = ops or BASE
        n = len(names)
        m, _ = make("base" if ops is None else "kd", 2, 1, nops=min(n, 6))
        if ops is not None:
            m.operators = list(ops)
        mods = modules(n, 3 if n <= 3 else 2)
        small = modules(n, 2)[:9 if n > 3 else 14]
        cases = [[(a, c)] for a in mods for c in COEFS]
        pairs = list(itertools.permutations(small, 2))
        cc = [(0.5, -0.25), (-1.0, 1.0), (-1e7, -0.00001), (1.00001, 1e20), (0.0, -2.0), (0.12345, 0.5)]
        cases += [[(a, c), (b, d)] for a, b in pairs for c, d in cc]
        trip = list(itertools.permutations(small[:6], 3))
        cases += [[(a, 0.5), (b, -1.0), (c, 1.0)] for a, b, c in trip]
        if ck.thorough:
            cases += [[(a, x), (b, y), (c, z)] for a, b, c in trip
                      for x, y, z in itertools.product((0.5, -0.25, 1.0, -1.0), repeat=3)]
        seen = {}
        for ci, case in enumerate(cases):
            if ci % nparts != part:
                continue
            chrom = [list(a) for a, _ in case]
            coef = np.array([[c] for _, c in case])
            for lhs in ("u_t", "u_tt"):
                rp = {"operators": ops, "chromosome": chrom, "coefficients": coef[:, 0].tolist(), "lhs": lhs}
                key = f"render[{','.join(ops or ['default'])}]"
                want = (lhs, [(c, tuple(sorted(norm(names[g]) for g in a))) for a, c in case])
                ck.step(2)
                with ck.case(key + f":{chrom}", rp):
                    with quiet():
                        tex = dlga_eq2latex(chromosome=[list(a) for a in chrom], coefficients=coef.copy(),
                                            lhs_name_str=lhs, operator_names=None if ops is None else list(ops))
                        txt = m.convert_chrom_to_eq([list(a) for a in chrom], lhs, coef.copy())
                    ck.expect(same(read_latex(tex), want), key + ":latex",
                              lambda: f"{want} displayed as {tex}", rp)
                    ck.expect(same(read_text(txt), want), key + ":text", lambda: f"{want} displayed as {txt}", rp)
                    canon = (lhs, tuple(sorted((f, round(c, 4)) for c, f in want[1])))
                    for kind, shown in (("latex", tex), ("text", txt)):
                        old = seen.setdefault((kind, shown), canon)
                        ck.expect(old == canon or close(old, canon), key + ":ambiguous",
                                  lambda: f"{old} and {canon} both displayed as {shown}", rp)
                    ck.visit((it, tex))
        ck.trace(len(cases))
        ck.sample({"operators": ops, "cases": len(cases)})
    ck.pool(one, sorted(items, key=lambda i: h(str(i))))
    ck.end_part()


def close(a, b):
    return (a[0] == b[0] and len(a[1]) == len(b[1])
            and all(f == g and abs(c - d) <= 1.0001e-4 for (f, c), (g, d) in zip(a[1], b[1])))


# ------------------------------------------------------------------ the model's own display after a search
def part_fit(ck):
    ck.part("displayed after a search")
    lists = [None] + [list(p) for k in (1, 2, 3) for p in itertools.permutations(ALL_OPS, k)]
    if not ck.thorough:
        lists = [x for x in lists if x is None or len(x) < 3 or h(("f", str(x))) % 4 == 0]
    items = [(i, target, k0) for i in range(len(lists)) for target in TARGETS for k0 in (0, 3)]

    def one(ck, it):
        import torch
        from kd.viz._adapters.dlga import DLGAVizAdapter  # noqa: F401
        from mc.explore import Chooser
        from checks.c19 import Rot
        i, target, k0 = it
        ops = lists[i]
        names = ops or BASE
        scratch()
        key = f"fit[{','.join(ops or ['default'])}]"
        rp = {"operators": ops, "target": target, "start": k0}
        with ck.case(key, rp):
            m, _ = make("base" if ops is None else "kd", 3, 2, nops=len(names), target=target)
            if ops is not None:
                m.operators = list(ops)
            col = {"u": 0, "u_x": 1, "u_xx": 2, "u_xxx": 3, "u_t": 4, "u_tt": 5}

            def theta(X):
                order = [col[o] for o in ops] if ops else range(6)
                m.Theta = torch.from_numpy(LIB[:, list(order)].copy())
                m.u_t, m.u_tt = (x.copy() for x in TARGETS[target])
                return m.Theta
            m.train_NN = lambda X, y: (m.Net, 1)
            m.generate_meta_data = theta
            with Rot(Chooser(), k0).installed(), quiet():
                m.fit(np.zeros((4, 2)), np.zeros((4, 1)))
            ck.step()
            for index in range(len(m.Fitness)):
                chrom, coef, lhs = m.Chrom[index], m.coef[index], m.name[index]
                want = (lhs, [(float(c), tuple(sorted(norm(names[g]) for g in a)))
                              for a, c in zip(chrom, coef[:, 0])])
                if index == 0:
                    ck.expect(same(read_latex(m.eq_latex), want), key + ":eq_latex",
                              lambda: f"{want} displayed as {m.eq_latex}", rp)
                if ops is None:      # plots exist for the public wrapper only
                    continue
                with quiet():
                    shown = adapter_latex(m, index)
                ck.expect(shown is not None and same(read_latex(shown), want), key + ":adapter",
                          lambda: f"solution {index}: {want} displayed as {shown}", rp)
                ck.step()
            ck.visit((it, m.eq_latex))
        ck.trace()
    ck.pool(one, sorted(items, key=lambda i: h(str(i))))
    ck.end_part()


def adapter_latex(m, index):
    import kd.viz as viz
    import kd.viz._adapters.dlga as mod
    old = mod.render_latex_to_image
    got = []
    mod.render_latex_to_image = lambda latex, *a, **k: got.append(latex)
    try:
        res = viz.render_equation(m, solution_index=index)
    finally:
        mod.render_latex_to_image = old
    if res.metadata.get("latex") and got and got[0] != res.metadata["latex"]:
        return f"image {got[0]} but metadata {res.metadata['latex']}"
    return res.metadata.get("latex", f"no equation: {res.warnings}")


def run(ck):
    import triton._C.libtriton  # noqa: F401
    import kd.model.kd_dlga  # noqa: F401
    import kd.viz  # noqa: F401
    os.chdir(os.environ["MC_SCRATCH"])
    part_render(ck)
    part_fit(ck)
