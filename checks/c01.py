"""C01: sampled symbolic expressions are complete, bounded and rule-abiding."""
import itertools

try:
    import triton._C.libtriton  # noqa: F401
except Exception:  # noqa: BLE001
    pass
import numpy as np

from mc.core import h, quiet
from mc.explore import Explorer

# name: (inputs, states, params, functions, task)
LIBS = {
    "pde": (1, 1, 0, ("add", "mul", "diff", "diff2", "n2"), "pde"),
    "const": (1, 1, 0, ("sub", "sin", "diff", "mul", "const"), "pde"),
    "nd": (2, 1, 1, ("add", "Diff", "lap", "n2"), "pde"),
    "reg": (2, 0, 0, ("add", "sin", "exp", "log", "const"), "regression"),
    "pow": (1, 1, 0, ("add_t", "diff_t", "n2", "sqrt", "neg"), "pde"),
    "tiny": (1, 1, 0, ("add", "diff", "n2"), "pde"),
    "wide": (1, 1, 0, ("sub_t", "diff3", "div", "cos", "n3", "n4", "inv"), "pde"),
    "two": (2, 2, 1, ("Diff2", "mul", "sub", "lap_t", "exp"), "pde"),
}
MORE = ("wide", "two")          # many tokens: explored to a smaller length
ARITY = {"add": 2, "sub": 2, "mul": 2, "diff": 2, "diff2": 2, "Diff": 2, "lap": 1, "n2": 1, "sin": 1,
         "exp": 1, "log": 1, "sqrt": 1, "neg": 1, "add_t": 2, "diff_t": 2, "sub_t": 2, "diff3": 2, "div": 2, "Diff2": 2, "cos": 1, "n3": 1, "n4": 1,
         "inv": 1, "lap_t": 1}
INVERSE = {"exp": "log", "log": "exp", "sqrt": "n2", "n2": "sqrt", "neg": "neg", "inv": "inv"}
DIFFS = {"diff", "diff2", "diff3", "Diff", "Diff2", "diff_t"}
NESTLESS = DIFFS | {"sin", "cos"}
LAPS = {"lap", "lap_t"}
RULES = {
    "inverse": {}, "trig": {}, "const": {}, "no_inputs": {}, "diff_left": {}, "diff_left_strict": {},
    "diff_right": {}, "diff_descedent": {}, "diff_descedent2": {}, "laplace_child": {}, "soft_length":
    {"loc": 3, "scale": 2}, "uniform_arity": {},
}


def rel(kind, targets, effectors):
    return ("relational", {"targets": ",".join(targets), "effectors": ",".join(effectors), "relationship": kind})


def rule_sets(lib, thorough):
    """Every single rule, every pair, the shipped combinations, and relational/repeat variants."""
    fn = [f for f in LIBS[lib][3] if f != "const"]
    two = [f for f in fn if ARITY[f] == 2]
    one = [f for f in fn if ARITY[f] == 1]
    singles = [(k, dict(v)) for k, v in RULES.items()]
    singles += [("repeat", {"tokens": two[0], "min_": None, "max_": m}) for m in (0, 1, 2)]
    singles.append(("repeat", {"tokens": ",".join([two[0], one[0]]), "min_": None, "max_": 1}))
    leaf = "u1" if LIBS[lib][1] else "x1"
    singles.append(("repeat", {"tokens": leaf, "min_": None, "max_": 1}))
    for kind in ("child", "descendant", "lchild", "rchild", "uchild"):
        for eff, tgt in ((two[:1], ["x1"]), (two[-1:], [one[0], "x1"]), (one[:1], two[:1]), ([two[0], one[0]], [leaf])):
            singles.append(rel(kind, tgt, eff))
    singles.append(rel("sibling", ["x1"], [leaf, one[0]]))
    singles.append(rel("sibling", [two[0]], one))
    out = [(s,) for s in singles]
    base = [(k, dict(v)) for k, v in RULES.items() if k not in ("soft_length", "uniform_arity")]
    base.append(("repeat", {"tokens": two[0], "min_": None, "max_": 1}))
    base.append(rel("descendant", [one[0]], two[:1]))
    out += list(itertools.combinations(base, 2))
    shipped = tuple([("repeat", {"tokens": two[0], "min_": None, "max_": 2}), ("inverse", {}), ("trig", {}),
                     ("soft_length", {"loc": 3, "scale": 2}), ("diff_left", {}), ("diff_right", {}),
                     ("diff_descedent", {})])
    out.append(shipped)
    out.append(shipped + (("diff_descedent2", {}), ("const", {}), ("laplace_child", {})))
    out.append(shipped + (("diff_left_strict", {}), ("uniform_arity", {})))
    out.append(())
    if thorough:
        out += list(itertools.combinations(base, 3))
    return out


class Lib:
    """The library under test together with what its tokens are, written down independently."""

    def __init__(self, name):
        from kd.model.discover.functions import create_tokens
        from kd.model.discover.library import Library
        n_in, n_state, n_par, fns, task = LIBS[name]
        toks = create_tokens(n_in, list(fns), False, n_state_var=n_state or 1, task_type=task, n_param_var=n_par)
        self.lib = Library(toks)
        self.names = list(self.lib.names)
        self.id = {n: i for i, n in enumerate(self.names)}
        self.L = len(self.names)
        self.arity = [ARITY.get(n, 0) for n in self.names]
        self.inputs = {self.id[f"x{i+1}"] for i in range(n_in)}
        self.states = {self.id[f"u{i+1}"] for i in range(n_state)} if task == "pde" else set()
        self.term = {i for i, a in enumerate(self.arity) if a == 0}
        self.unary = {i for i, a in enumerate(self.arity) if a == 1}
        self.binary = {i for i, a in enumerate(self.arity) if a == 2}
        self.diffs = {self.id[d] for d in DIFFS if d in self.id}
        self.constant = {self.id["const"]} if "const" in self.id else set()
        # the rank of a function among the functions is how the sampler is told about parents
        self.rank = {t: k for k, t in enumerate(sorted(self.unary | self.binary))}

    def ids(self, text):
        return {self.id[n] for n in text.split(",")}


class Node:
    """What is known about the open slot that is filled next."""
    __slots__ = ("parent", "first", "left", "anc")

    def __init__(self, parent, first, left, anc):
        self.parent, self.first, self.left, self.anc = parent, first, left, anc


NONE = frozenset()


def forbidders(L, rules, length):
    """[(label, f(node, n, open, counts) -> forbidden tokens)]: what each rule states, slot by slot."""
    out = []

    def relational(label, kind, T, E):
        T, E = frozenset(T), frozenset(E)
        if not T or not E:
            return
        Eu = E & L.unary

        def f(nd, n, op, cnt):
            p = nd.parent
            if kind == "child":
                return T if p in E else NONE
            if kind == "descendant":
                return T if nd.anc & E else NONE
            if kind == "lchild":
                return T if p in E and nd.first else NONE
            if kind == "rchild":
                return T if p in E and not nd.first else NONE
            if kind == "uchild":
                return T if p in Eu or (p in E and nd.left in T) else NONE
            if kind == "sibling":
                return (T if nd.left in E else NONE) | (E if nd.left in T else NONE)
        out.append((label, f))

    for name, args in rules:
        if name == "relational":
            try:
                T, E = L.ids(args["targets"]), L.ids(args["effectors"])
            except KeyError:
                continue
            if args["relationship"] != "sibling" and E & L.term:
                continue
            relational("relational-" + args["relationship"], args["relationship"], T, E)
        elif name == "inverse":
            for a, b in INVERSE.items():
                if a in L.id and b in L.id:
                    relational(name, "child", {L.id[a]}, {L.id[b]})
        elif name == "trig":
            S = {L.id[n] for n in NESTLESS if n in L.id}
            relational(name, "descendant", S, S)
        elif name == "const":
            relational(name, "uchild", L.constant, L.unary | L.binary)
        elif name == "diff_left":
            relational(name, "lchild", L.inputs | L.constant, L.diffs)
        elif name == "diff_left_strict":
            relational(name, "lchild", set(range(L.L)) - L.states - L.diffs, L.diffs)
        elif name == "diff_right":
            relational(name, "rchild", set(range(L.L)) - L.inputs, L.diffs)
        elif name == "diff_descedent":
            relational(name, "descendant", {L.id[n] for n in ("add", "add_t", "sub", "sub_t", "const") if n in L.id},
                       L.diffs)
        elif name == "diff_descedent2":
            relational(name, "descendant", {L.id[n] for n in ("n2", "n3", "n4", "mul", "div", "exp", "log", "sin",
                                                             "cos", "const") if n in L.id}, L.diffs)
        elif name == "laplace_child":
            relational(name, "uchild", set(range(L.L)) - L.states, {L.id[n] for n in LAPS if n in L.id})
        elif name == "repeat":
            T, top = frozenset(L.ids(args["tokens"])), args["max_"]
            out.append((name, lambda nd, n, op, cnt, T=T, top=top: T if sum(cnt[t] for t in T) >= top else NONE))
        elif name == "no_inputs":
            need = frozenset(L.states or L.inputs)
            rest = frozenset(L.term - need)
            if rest:
                out.append((name, lambda nd, n, op, cnt, need=need, rest=rest:
                            rest if op == 1 and not any(cnt[t] for t in need) else NONE))
    if length is not None:
        lo, hi = length
        term, un, bi = frozenset(L.term), frozenset(L.unary), frozenset(L.binary)

        def low(nd, n, op, cnt):
            return term if n == 0 or (lo is not None and op == 1 and n + 1 < lo) else NONE

        def high(nd, n, op, cnt):
            out = NONE
            if hi is not None:
                if n + op + 1 > hi:
                    out = out | un
                if n + op + 2 > hi:
                    out = out | bi
            return out
        out.append((f"length_min{lo}", low))
        if hi is not None:
            out.append((f"length_max{hi}", high))
    return out


def tree_of(L, toks):
    pos = 0

    def go():
        nonlocal pos
        t = toks[pos]
        pos += 1
        return (t, [go() for _ in range(L.arity[t])])
    try:
        node = go()
    except IndexError:
        return None
    return node if pos == len(toks) else None


def broken_rule(L, toks, rules, length):
    """Judge a whole finished expression against the rules, as a tree."""
    root = tree_of(L, toks)
    if root is None:
        return "not exactly one complete expression tree"
    if length is not None:
        lo, hi = length
        if (lo is not None and len(toks) < lo) or (hi is not None and len(toks) > hi):
            return f"length {len(toks)} outside {length}"

    def walk(n):
        yield n
        for c in n[1]:
            yield from walk(c)

    def below(n):
        for c in n[1]:
            yield from walk(c)
    nodes = list(walk(root))

    def relation(kind, T, E):
        for n in nodes:
            if kind == "sibling":
                if len(n[1]) == 2:
                    a, b = n[1][0][0], n[1][1][0]
                    if (a in T and b in E) or (a in E and b in T):
                        return True
                continue
            if n[0] not in E:
                continue
            kids = [c[0] for c in n[1]]
            if kind == "child" and set(kids) & T:
                return True
            if kind == "descendant" and any(d[0] in T for d in below(n)):
                return True
            if kind == "lchild" and kids[0] in T:
                return True
            if kind == "rchild" and len(kids) == 2 and kids[1] in T:
                return True
            if kind == "uchild" and all(k in T for k in kids):
                return True
        return False

    for name, args in rules:
        bad = False
        if name == "relational":
            try:
                T, E = L.ids(args["targets"]), L.ids(args["effectors"])
            except KeyError:
                continue
            if args["relationship"] != "sibling" and E & L.term:
                continue
            bad = relation(args["relationship"], T, E)
        elif name == "inverse":
            bad = any(relation("child", {L.id[a]}, {L.id[b]}) for a, b in INVERSE.items()
                      if a in L.id and b in L.id)
        elif name == "trig":
            S = {L.id[n] for n in NESTLESS if n in L.id}
            bad = relation("descendant", S, S)
        elif name == "const":
            bad = relation("uchild", L.constant, L.unary | L.binary)
        elif name == "diff_left":
            bad = relation("lchild", L.inputs | L.constant, L.diffs)
        elif name == "diff_left_strict":
            bad = relation("lchild", set(range(L.L)) - L.states - L.diffs, L.diffs)
        elif name == "diff_right":
            bad = relation("rchild", set(range(L.L)) - L.inputs, L.diffs)
        elif name == "diff_descedent":
            bad = relation("descendant", {L.id[n] for n in ("add", "add_t", "sub", "sub_t", "const") if n in L.id},
                           L.diffs)
        elif name == "diff_descedent2":
            bad = relation("descendant", {L.id[n] for n in ("n2", "n3", "n4", "mul", "div", "exp", "log", "sin",
                                                          "cos", "const") if n in L.id}, L.diffs)
        elif name == "laplace_child":
            bad = relation("uchild", set(range(L.L)) - L.states, {L.id[n] for n in LAPS if n in L.id})
        elif name == "repeat":
            bad = sum(t in L.ids(args["tokens"]) for t in toks) > args["max_"]
        elif name == "no_inputs":
            bad = bool(L.term - (L.states or L.inputs)) and not set(toks) & (L.states or L.inputs)
        if bad:
            return f"rule {name} {args} is broken"
    return None


def label_of(rules, length):
    def one(n, a):
        if n == "relational":
            return f"{a['relationship']}({a['targets']}|{a['effectors']})"
        if n == "repeat":
            return f"repeat({a['tokens']}|{a['max_']})"
        return n
    return "+".join(one(n, a) for n, a in rules) + (f"+len{length[0]}-{length[1]}" if length else "")


def build_prior(L, rules, length):
    from kd.model.discover.dso.prior import make_prior
    cfg = {}
    if length is not None:
        cfg["length"] = {"min_": length[0], "max_": length[1], "on": True}
    for n, a in rules:
        cfg.setdefault(n, []).append(dict(a, on=True))
    cfg.setdefault("trig", {"on": False})
    with quiet():
        return make_prior(L.lib, cfg)


def make_task(L):
    from kd.model.discover.task.task import HierarchicalTask

    class T(HierarchicalTask):
        task_type = "regression"
        stochastic = False
        name = "mc"

        def __init__(self):
            self.library = L.lib

        def reward_function(self, p):
            return 0.0

        def evaluate(self, p):
            return {}
    return T()


def advance(L, stack, tok):
    """Open slots after filling the first one with `tok` (the list ends with the next slot)."""
    nd = stack[-1]
    rest = stack[:-1]
    a = L.arity[tok]
    if a:
        anc = nd.anc | {tok}
        if a == 2:
            rest = rest + (Node(tok, False, None, anc),)
        rest = rest + (Node(tok, True, None, anc),)
    # a finished or unfinished first operand is the left neighbour of the second one
    if nd.first and nd.parent is not None and L.arity[nd.parent] == 2:
        k = len(stack) - 2
        n2 = stack[k]
        rest = rest[:k] + (Node(n2.parent, False, tok, n2.anc),) + rest[k + 1:]
    return rest


def explore_config(ck, L, rules, length, cap, tail):
    """Every sequence of permitted tokens, all partial expressions of one length advanced together."""
    lab = label_of(rules, length)
    key = f"{L.names}".replace(" ", "")
    key = f"lib({h(key) % 1000})/{lab}"
    rep = {"library": L.names, "rules": [list(r) for r in rules], "length": length}
    with ck.case(key, rep, timeout=600):
        prior = build_prior(L, rules, length)
        task = make_task(L)
        fs = forbidders(L, rules, length)
        first = np.asarray(prior.initial_prior())
        obs0 = np.asarray(task.reset_task(prior), dtype=np.float32)
        ck.step()

        def permitted(row):
            return set(np.nonzero(~np.isneginf(row))[0].tolist()) if not np.isnan(row).any() else set()

        def judge(row, nd, n, op, cnt, toks):
            real = permitted(np.asarray(row))
            per = [(lb, f(nd, n, op, cnt)) for lb, f in fs]
            want = set(range(L.L)) - set().union(*[p for _, p in per]) if per else set(range(L.L))
            names = [L.names[t] for t in toks]
            if real != want:
                more = sorted(L.names[t] for t in real - want)
                less = sorted(L.names[t] for t in want - real)
                ck.fail(key + ":mask", f"after {names}: wrongly permitted {more}, wrongly forbidden {less}",
                        dict(rep, tokens=names))
            if not real:
                # name the smallest set of rules that together permit nothing
                names_ = sorted({lb for lb, p in per if p})
                why = None
                for r in range(1, len(names_) + 1):
                    for c in itertools.combinations(names_, r):
                        if len(set().union(*[p for lb, p in per if lb in c])) == L.L:
                            why = "+".join(c)
                            break
                    if why:
                        break
                ck.fail("masks/dead-end:" + (why or "unexplained:" + key), f"after {names} no token is permitted ({lab})",
                        dict(rep, tokens=names))
            return real

        cnt0 = [0] * L.L
        root = Node(None, True, None, NONE)
        level = [((), (root,), cnt0, judge(first, root, 0, 1, cnt0, ()))]
        if not ck.expect(obs0.shape == (4,) and obs0[1] == len(L.rank) and obs0[2] == L.L and obs0[3] == 1,
                         key + ":initial-obs", f"initial observation {obs0.tolist()}", rep):
            return
        obs = {(): obs0}
        seen = 1
        depth = 0
        done = 0
        while level and depth < cap:
            rows, nodes = [], []
            for toks, stack, cnt, perm in level:
                for t in sorted(perm):
                    nt = toks + (t,)
                    if stack:
                        ns = advance(L, stack, t)
                        nc = list(cnt)
                        nc[t] += 1
                    else:
                        ns, nc = (), None
                    rows.append((toks, nt))
                    nodes.append((nt, ns, nc))
            if not rows:
                break
            # finished expressions are judged as trees
            for nt, ns, nc in nodes:
                if not ns and nc is not None:
                    bad = broken_rule(L, nt, rules, length)
                    done += 1
                    if bad:
                        ck.fail(key + ":finished", f"{[L.names[t] for t in nt]}: {bad}", dict(rep, tokens=list(nt)))
            A = np.array([r[1] for r in rows], dtype=np.int32)
            O = np.stack([obs[r[0]] for r in rows]).astype(np.float32)
            before = O.copy()
            with quiet():
                nobs, pri = task.get_next_obs(A.copy(), O)
            ck.step()
            nobs, pri = np.asarray(nobs), np.asarray(pri)
            if not ck.expect(nobs.shape == (len(rows), 4) and pri.shape == (len(rows), L.L), key + ":shape",
                             f"observation {nobs.shape}, prior {pri.shape} for a batch of {len(rows)}", rep):
                return
            # a batch of one gives the same row
            for j in sorted({0, len(rows) - 1, len(rows) // 2}):
                with quiet():
                    o1, p1 = task.get_next_obs(A[j:j + 1].copy(), before[j:j + 1].copy())
                ck.step()
                ck.expect(np.array_equal(np.asarray(o1)[0], nobs[j]) and np.array_equal(np.asarray(p1)[0], pri[j]),
                          key + ":batch", f"{[L.names[t] for t in rows[j][1]]} alone gives another observation or "
                          "mask than in a batch", dict(rep, tokens=list(rows[j][1])))
            nxt = []
            depth += 1
            nobs_of = {}
            for j, (nt, ns, nc) in enumerate(nodes):
                seen += 1
                if ns:
                    nd = ns[-1]
                    want = (nt[-1], L.rank.get(nd.parent, len(L.rank)), L.L if nd.left is None else nd.left, len(ns))
                    if tuple(int(v) for v in nobs[j]) != want:
                        ck.fail(key + ":obs", f"after {[L.names[t] for t in nt]} the sampler is told (token, parent, "
                                f"sibling, open slots) = {nobs[j].tolist()}, the tree says {want}", dict(rep, tokens=list(nt)))
                    perm = judge(pri[j], nd, depth, len(ns), nc, nt)
                    nxt.append((nt, ns, nc, perm))
                elif tail:
                    # the sampler goes on to draw (and discard) tokens until the maximum length
                    perm = permitted(pri[j])
                    if not perm and depth < length[1]:
                        ck.fail(key + ":dead-tail", f"after the complete {[L.names[t] for t in nt]} nothing is permitted, "
                                "and the sampler still draws", dict(rep, tokens=list(nt)))
                    nxt.append((nt, (), None, perm))
                nobs_of[nt] = nobs[j]
            obs = nobs_of
            level = nxt
            if len(level) > 400000:
                ck.exhaustive = False
                break
            ck.visit((key, depth))
        ck.count_states(seen)
        ck.trace(done)
        ck.outcome((key, seen, done))
        ck.sample({"rules": lab, "partial expressions": seen, "finished": done})


def at_once(ck, L, rules, length, n):
    """The masks recomputed for whole sequences agree with the ones shown step by step."""
    from kd.model.discover.dso import subroutines
    key = f"{'-'.join(L.names)}/{label_of(rules, length)}"
    with ck.case(key, {"rules": rules}, timeout=100):
        prior = build_prior(L, rules, length)
        task = make_task(L)
        if not prior.priors or not hasattr(prior, "at_once"):
            return
        seqs = np.array(list(itertools.product(range(L.L), repeat=n)), dtype=np.int32)
        obs = np.tile(np.asarray(task.reset_task(prior), dtype=np.float32), (len(seqs), 1))
        masks = [np.tile(prior.initial_prior(), (len(seqs), 1))]
        par, sib = [obs[:, 1]], [obs[:, 2]]
        for t in range(1, n):
            with quiet():
                obs, p = task.get_next_obs(seqs[:, :t].copy(), obs)
            masks.append(p)
            par.append(obs[:, 1])
            sib.append(obs[:, 2])
        P, S = np.stack(par, 1).astype(np.int32), np.stack(sib, 1).astype(np.int32)
        with quiet():
            got = np.asarray(prior.at_once(seqs, P, S))
        ck.step(n + 1)
        ck.visit(key)
        want = np.stack(masks, 1)
        # only positions inside the first complete tree matter
        ar = np.array(L.arity)[seqs]
        open_before = np.concatenate([np.ones((len(seqs), 1)), 1 + np.cumsum(ar - 1, 1)[:, :-1]], 1)
        live = np.minimum.accumulate(open_before, 1) > 0
        same = np.array_equal(np.isneginf(got[live]), np.isneginf(want[live]))
        ck.expect(same, key + ":at-once", "masks recomputed for a whole sequence differ from those used while sampling",
                  {"rules": rules})
        if hasattr(subroutines, "jit_parents_siblings_at_once"):
            with quiet():
                p2, s2 = subroutines.jit_parents_siblings_at_once(seqs, arities=L.lib.arities,
                                                                  parent_adjust=L.lib.parent_adjust)
            ck.step()
            ck.expect(np.array_equal(np.asarray(p2)[live], P[live]) and np.array_equal(np.asarray(s2)[live], S[live]),
                      key + ":at-once-obs", "parents and siblings recomputed for a whole sequence differ", {"rules": rules})
        ck.trace(len(seqs))


def controller(ck, L, rules, length, batch, sizes):
    """The real sampling loop with every random pick taken over."""
    import torch
    from kd.model.discover.controller import Controller
    from kd.model.discover.program import Program, from_tokens
    from kd.model.discover.state_manager import make_state_manager
    lab = label_of(rules, length)
    key = f"{'-'.join(L.names)}/{lab}/batch{batch}"
    rep = {"library": L.names, "rules": [list(r) for r in rules], "length": length, "batch": batch}
    fs = forbidders(L, rules, length)
    old = {k: getattr(Program, k) for k in ("library", "task", "cache")}
    real = torch.multinomial
    try:
        with ck.case(key, rep, timeout=600):
            Program.library, Program.task = L.lib, make_task(L)
            Program.cache = {}
            prior = build_prior(L, rules, length)
            with quiet():
                sm = make_state_manager({"type": "hierarchical", "observe_dangling": True, "observe_action": True})
                torch.manual_seed(0)
                c = Controller(prior, sm, max_length=length[1], num_units=4)

            def body(ch):
                def pick(probs, num_samples=1, **k):
                    out = []
                    for row in probs.detach():
                        if bool(torch.isnan(row).any()):
                            raise AssertionError("no token is permitted")
                        out.append(ch.pick([i for i in range(L.L) if float(row[i]) > 0], "token"))
                    return torch.tensor(out).reshape(-1, 1)
                torch.multinomial = pick
                try:
                    with quiet(), torch.no_grad():
                        return c.sample_episodes(batch)
                finally:
                    torch.multinomial = real
            ex = Explorer(body, max_runs=sizes)
            for ch, (acts, obs, priors, lengths, fin) in ex.runs():
                acts, obs, priors = (np.asarray(v) for v in (acts, obs, priors))
                ck.step(acts.shape[1] + 1)
                ck.visit((key, tuple(ch.choices)))
                for b in range(batch):
                    stack, cnt = (Node(None, True, None, NONE),), [0] * L.L
                    names = [L.names[t] for t in acts[b]]
                    for t, tok in enumerate(acts[b].tolist()):
                        if not stack:
                            break
                        nd = stack[-1]
                        want = (L.L if t == 0 else int(acts[b][t - 1]), L.rank.get(nd.parent, len(L.rank)),
                                L.L if nd.left is None else nd.left, len(stack))
                        got = tuple(int(v) for v in obs[b, :, t])
                        ck.expect(got == want, key + ":recorded-obs", f"{names}: step {t} recorded {got}, tree {want}", rep)
                        bad = set().union(*[f(nd, t, len(stack), cnt) for _, f in fs]) if fs else set()
                        ck.expect(set(np.nonzero(np.isneginf(priors[b, t]))[0].tolist()) == bad, key + ":recorded-prior",
                                  f"{names}: mask recorded for step {t} is not the one of that step", rep)
                        ck.expect(tok not in bad, key + ":picked-forbidden", f"{names}: step {t} took a forbidden token", rep)
                        stack = advance(L, stack, tok)
                        cnt[tok] += 1
                    with quiet():
                        p = from_tokens(acts[b].astype(np.int32))
                    got = [L.id[t.name] for t in p.traversal]
                    bad = broken_rule(L, got, rules, length)
                    ck.expect(bad is None, key + ":finished", f"{names} becomes {[L.names[t] for t in got]}: {bad}", rep)
                    ck.expect(got == acts[b].tolist()[:len(got)], key + ":prefix",
                              f"{names} becomes {[L.names[t] for t in got]}", rep)
                    ck.outcome(tuple(got))
                ck.trace()
            if not ex.complete:
                ck.exhaustive = False
            ck.sample({"rules": lab, "episodes": ex.count})
    finally:
        torch.multinomial = real
        for k, v in old.items():
            setattr(Program, k, v)


def run(ck):
    big = 7 if ck.thorough else 6
    jobs = []
    for lib in LIBS:
        for rules in rule_sets(lib, ck.thorough):
            n = big - 1 if lib in MORE else big
            jobs.append(("masks", lib, rules, (3, n), n, False))
        base = rule_sets(lib, False)[-3:]
        for rules in base + [[("no_inputs", {})], [("diff_right", {})], [("trig", {})]]:
            for length in ((None, 4), (1, 3), (2, 2), (2, 4), (4, 6), (3, None), (None, 5), None):
                jobs.append(("masks", lib, tuple(rules), length, 4 if length is None or length[1] is None else length[1], False))
    for rules in rule_sets("tiny", True):
        jobs.append(("masks", "tiny", rules, (3, 9 if ck.thorough else 7), 9, False))
        jobs.append(("masks", "tiny", rules, (3, 7 if ck.thorough else 6), 7, True))
    for lib in LIBS:
        for rules in rule_sets(lib, False):
            jobs.append(("at_once", lib, rules, (3, 5), 4))
    for lib in ("tiny", "const"):
        for rules in rule_sets(lib, False)[-4:]:
            for batch, length in ((1, (3, 4)), (2, (2, 3)), (1, (3, 5)), (1, (1, 3))):
                jobs.append(("controller", lib, rules, length, batch, 30000 if ck.thorough else 2500))
    jobs = sorted(jobs, key=lambda j: h(str(j)))
    libs = {}

    def work(ck, job):
        kind, lib = job[0], job[1]
        if lib not in libs:
            libs[lib] = Lib(lib)
        ck.part(kind)
        if kind == "masks":
            explore_config(ck, libs[lib], *job[2:])
        elif kind == "at_once":
            at_once(ck, libs[lib], *job[2:])
        else:
            controller(ck, libs[lib], *job[2:])
        ck.end_part()
    ck.pool(work, jobs)
