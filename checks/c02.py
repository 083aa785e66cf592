"""C02: a token list always denotes one and the same expression."""
import copy
import itertools
import pickle

try:
    import triton._C.libtriton  # noqa: F401
except Exception:  # noqa: BLE001
    pass
import numpy as np

from mc.core import h, quiet
from mc.explore import ControlledRandom, Explorer, sequences

ARITY = {"add": 2, "sub": 2, "mul": 2, "div": 2, "diff": 2, "n2": 1, "n3": 1, "sin": 1, "add_t": 2, "sub_t": 2,
         "mul_t": 2, "exp": 1, "neg": 1, "inv": 1, "n4": 1, "n5": 1, "expneg": 1, "tanh": 1, "sqrt": 1}
# name: (inputs, states, params, functions, task type)
LIBS = {
    "pde": (1, 1, 0, ("add", "sub", "n2"), "pde"),
    "pde2": (2, 2, 1, ("mul", "n2"), "pde"),
    "reg": (2, 0, 0, ("add", "sin", "const"), "regression"),
    "hard": (1, 0, 0, ("mul", "const", 0.5, -2.0), "regression"),
    "noin": (0, 2, 0, ("add", "n2"), "pde"),
    "split": (1, 1, 0, ("add", "sub", "mul", "n2"), "pde"),
    "split_t": (1, 1, 0, ("add_t", "sub_t", "mul_t"), "pde"),
    "text": (2, 1, 0, ("add", "sub", "mul", "div", "n2", "n3", "n4", "n5", "neg", "inv", "sin", "exp", "const"),
             "regression"),
    "diff": (1, 1, 0, ("add", "mul", "diff", "n2"), "pde"),
}


class World:
    """A library, its stub task, and everything about its tokens written down independently."""

    def __init__(self, name, torch=False):
        from kd.model.discover.functions import create_tokens
        from kd.model.discover.library import Library
        from kd.model.discover.program import Program
        n_in, n_state, n_par, fns, task = LIBS[name]
        self.name, self.task_type = name, task
        self.lib = Library(create_tokens(n_in, list(fns), False, n_state_var=n_state, task_type=task,
                                         n_param_var=n_par))
        self.names = list(self.lib.names)
        self.id = {n: i for i, n in enumerate(self.names)}
        self.arity = [ARITY.get(n, 0) for n in self.names]
        self.inputs = [i for i, n in enumerate(self.names) if n[0] == "x" and n[1:].isdigit()]
        if not self.inputs:
            self.inputs = [i for i, n in enumerate(self.names) if n[0] == "u" and n[1:].isdigit()]
        w = self

        class Task:
            stochastic = False
            task_type = w.task_type
            library = w.lib
            noise_level, max_depth, cut_ratio, spatial_error, add_const = 0, 50, 0.02, False, False
            calls = 0

            def mse_function(self, p):
                return float(sum((c - 3.0) ** 2 for c in p.get_constants()))

            def reward_function(self, p):
                Task.calls += 1
                names = [repr(t) for t in p.traversal]
                return reward(names), [float(len(names))], None, None

            def evaluate(self, p):
                return {"nmse_test": reward([repr(t) for t in p.traversal])}
        self.task = Task()
        self.P = Program
        Program.n_objects = 1
        Program.set_task(self.task)
        Program.set_execute(False, torch)
        Program.set_const_optimizer("dummy")
        Program.set_complexity("token")
        Program.default_terms = []
        Program.clear_cache()

    def first_tree(self, toks, n=1):
        """(tokens of the first n complete trees, open slots left)"""
        need = n
        for k, t in enumerate(toks):
            need += self.arity[t] - 1
            if need == 0:
                return list(toks[:k + 1]), 0
        return list(toks), need


def reward(names):
    return (h("|".join(names)) % 9973) / 9973.0


def trees(w, size):
    """All complete token lists of exactly `size` tokens."""
    def rec(left, need):
        if left == 0:
            if need == 0:
                yield ()
            return
        if need <= 0 or need > left:
            return
        for t in range(len(w.names)):
            for r in rec(left - 1, need - 1 + w.arity[t]):
                yield (t,) + r
    yield from rec(size, 1)


# ------------------------------------------------------------------ part A: token lists
def as_forms(toks):
    yield "int32", np.array(toks, dtype=np.int32)
    yield "int64", np.array(toks, dtype=np.int64)
    yield "list", list(toks)
    yield "int8", np.array(toks, dtype=np.int8)


def check_denotes(ck, w, p, want, key, rep):
    names = [w.names[t] for t in want]
    ok = ck.expect(list(map(int, p.tokens)) == list(want), key + ":tokens", f"{rep}: tokens {list(p.tokens)}", rep)
    ok &= ck.expect([t.name for t in p.traversal] == names, key + ":traversal",
                    f"{rep}: traversal {[t.name for t in p.traversal]}", rep)
    ck.expect(p.len_traversal == len(want), key + ":length", f"{rep}", rep)
    return ok


def a_token_lists(ck, items):
    for name, toks in [items]:
        w = world(name)
        from kd.model.discover.program import from_tokens
        want, missing = w.first_tree(toks)
        rep = {"lib": name, "tokens": [w.names[t] for t in toks]}
        key = f"{name}:{'finished' if not missing else 'unfinished'}"
        with ck.case(key, rep):
            w.P.clear_cache()
            if not missing:
                seen = []
                for n, (form, t) in enumerate(as_forms(toks)):
                    before = copy.copy(t)
                    p = from_tokens(t, on_policy=n % 2 == 0)
                    ck.step()
                    check_denotes(ck, w, p, want, key, {**rep, "form": form})
                    ck.expect(type(t) is type(before) and list(t) == list(before), key + ":argument", f"{rep}", rep)
                    seen.append(p)
                    if n and p is not seen[0]:
                        ck.fail(key + ":identity", f"{rep}: as {form} it is another expression", {**rep, "form": form})
                exact = from_tokens(np.array(want, dtype=np.int32))
                ck.expect(exact is seen[0], key + ":identity", f"{rep}: not the expression of its first tree", rep)
                text = from_str_tokens_of(w, want)
                if text is not None:
                    ck.expect(text is seen[0], key + ":identity", f"{rep}: as text it is another expression", rep)
                fresh = from_tokens(np.array(toks, dtype=np.int32), skip_cache=True)
                check_denotes(ck, w, fresh, want, key + ":skip-cache", rep)
                ck.expect(fresh is not seen[0], key + ":skip-cache", f"{rep}: the cache was not bypassed", rep)
                ck.trace()
                continue
            done = set()

            def body(ch):
                w.P.clear_cache()
                cr = ControlledRandom(ch)
                with cr.installed():
                    p = from_tokens(np.array(toks, dtype=np.int32))
                got = list(map(int, p.tokens))
                ck.step()
                ck.expect(got[:len(toks)] == list(toks), key + ":prefix", f"{rep}: {got}", rep)
                tail = got[len(toks):]
                ck.expect(len(tail) == missing, key + ":count", f"{rep}: completed by {len(tail)} tokens, "
                          f"{missing} are open", {**rep, "choices": list(ch.choices)})
                ck.expect(all(t in w.inputs for t in tail), key + ":completion",
                          f"{rep}: completed with {[w.names[t] for t in tail]}", rep)
                check_denotes(ck, w, p, got, key, rep)
                again = from_tokens(got)
                ck.expect(again is p, key + ":identity", f"{rep}: completed list is another expression", rep)
                done.add(tuple(got))
            ex = Explorer(body, max_runs=3000)
            for _ in ex.runs():
                pass
            ck.expect(ex.complete, key + ":incomplete", f"{rep}", rep)
            ck.count_states(len(done))
            ck.trace(ex.count)


def from_str_tokens_of(w, toks):
    from kd.model.discover.program import from_str_tokens
    names = [w.names[t] for t in toks]
    return from_str_tokens(list(names))


_W = {}


def world(name, torch=False):
    k = (name, torch)
    if k not in _W:
        _W[k] = World(name, torch)
    w = _W[k]
    w.P.n_objects = 1
    w.P.set_task(w.task)
    w.P.set_execute(False, torch)
    w.P.set_const_optimizer("dummy")
    w.P.default_terms = []
    return w


def a_multi(ck, items):
    """Several expressions in one list: each is exactly its own complete tree."""
    for name, toks, n in [items]:
        w = world(name)
        from kd.model.discover.program import from_tokens
        want, missing = w.first_tree(toks, n)
        rep = {"lib": name, "tokens": [w.names[t] for t in toks], "objects": n}
        key = f"{name}:objects{n}"
        with ck.case(key, rep):
            w.P.clear_cache()
            w.P.set_n_objects(n)
            try:
                p = from_tokens(np.array(toks, dtype=np.int32))
            finally:
                w.P.set_n_objects(1)
            ck.step()
            ck.expect(list(map(int, p.tokens)) == want, key + ":tokens", f"{rep}: {list(p.tokens)}", rep)
            parts, rest = [], list(want)
            while rest:
                t, _ = w.first_tree(rest)
                parts.append([w.names[i] for i in t])
                rest = rest[len(t):]
            got = [[t.name for t in tr] for tr in p.traversals]
            ck.expect(got == parts, key + ":parts", f"{rep}: {got} instead of {parts}", rep)
            ck.trace()


# ------------------------------------------------------------------ part B: histories
class Model:
    """What each live expression must be: its tree, its own constants, and which ones are shared."""

    def __init__(self):
        self.cache = {}
        self.scored = {}
        self.live = []           # (program, tree, [constants or None])


def b_histories(ck, items):
    from kd.model.discover.program import from_str_tokens, from_tokens
    for name, ops in [items]:
        w = world(name)
        c = w.id["const"]
        fn = w.id["add"] if "add" in w.id else w.id["mul"]
        x = w.id["x1"]
        tree = {"A": (fn, x, c), "B": (fn, c, c), "C": (x,)}
        rep = {"lib": name, "ops": list(ops)}
        key = "history"
        with ck.case(key, rep):
            w.P.clear_cache()
            m = Model()
            for n, op in enumerate(ops):
                kind, arg = op.split(":")
                if kind in ("int", "junk"):
                    t = list(tree[arg]) + ([x, fn] if kind == "junk" else [])
                    p = from_tokens(np.array(t, dtype=np.int64 if kind == "junk" else np.int32),
                                    on_policy=kind == "int")
                    expect_shared(ck, m, p, tree[arg], rep, n)
                elif kind == "str":
                    p = from_str_tokens(",".join(w.names[i] for i in tree[arg]))
                    expect_shared(ck, m, p, tree[arg], rep, n)
                elif kind == "hard" and c not in tree[arg]:
                    p = from_str_tokens([w.names[i] for i in tree[arg]])
                    expect_shared(ck, m, p, tree[arg], rep, n)
                elif kind == "hard":
                    vals = iter(["2.5", "-7.0"])
                    p = from_str_tokens([w.names[i] if i != c else next(vals) for i in tree[arg]])
                    known = [q for q, _, _ in m.live]
                    ck.expect(not any(p is q for q in known), key + ":own-constants",
                              f"{rep}: step {n}: the expression with its own constants is a shared one", rep)
                    m.live.append((p, tree[arg], [2.5, -7.0][:tree[arg].count(c)]))
                elif kind == "opt":
                    q = m.cache.get(tree[arg])
                    if q is not None and id(q) in m.scored:
                        ck.expect(q.r_ridge == m.scored[id(q)], key + ":reward-changed", f"{rep}: step {n}", rep)
                    elif q is not None:
                        p = q
                        r = m.scored[id(p)] = p.r_ridge
                        for i, (o, t, k) in enumerate(m.live):
                            if o is p:
                                new = [1.0] * t.count(c)
                                m.live[i] = (o, t, new)
                                ck.expect(r == reward([repr(z) for z in p.traversal]), key + ":reward",
                                          f"{rep}: step {n}: reward {r}", rep)
                elif kind == "set":
                    q = m.cache.get(tree[arg])
                    if q is not None:
                        vals = [4.25, 5.5][:tree[arg].count(c)]
                        q.set_constants(vals)
                        for i, (o, t, k) in enumerate(m.live):
                            if o is q:
                                m.live[i] = (o, t, list(vals))
                elif kind == "clear":
                    w.P.clear_cache()
                    m.cache.clear()
                elif kind == "copy":
                    q = m.cache.get(tree[arg])
                    if q is not None:
                        old = next(k for o, t, k in m.live if o is q)
                        for p in (pickle.loads(pickle.dumps(q)), copy.deepcopy(q)):
                            m.live.append((p, tree[arg], list(old)))
                ck.step()
                if not look_all(ck, w, m, rep, n):
                    break
            ck.trace()
            ck.visit((name, tuple(sorted(str((t, k)) for _, t, k in m.live)), len(m.cache)))


def expect_shared(ck, m, p, tree, rep, n):
    if tree in m.cache:
        ck.expect(p is m.cache[tree], "history:identity", f"{rep}: step {n}: same tokens, another expression", rep)
    else:
        ck.expect(not any(p is q for q, _, _ in m.live), "history:cleared",
                  f"{rep}: step {n}: the cleared expression is back", rep)
        m.cache[tree] = p
        m.live.append((p, tree, [None] * sum(1 for i in tree if Program_is_const(p, i))))


def Program_is_const(p, i):
    return p.library.names[i] == "const"


def look_all(ck, w, m, rep, n):
    c = w.id["const"]
    ok = True
    for p, tree, consts in m.live:
        it = iter(consts)
        want = []
        for i in tree:
            v = next(it) if i == c else None
            want.append(w.names[i] if v is None else str(v))
        got = [repr(t) for t in p.traversal]
        same = len(got) == len(want) and all(g == x or (is_num(g) and is_num(x) and float(g) == float(x))
                                             for g, x in zip(got, want))
        ok &= ck.expect(same, "history:denotes", f"{rep}: step {n}: {got} instead of {want}", rep)
        ok &= ck.expect(list(map(int, p.tokens)) == list(tree), "history:tokens", f"{rep}: step {n}", rep)
        ok &= ck.expect(repr(p) == ",".join(got), "history:repr", f"{rep}: step {n}: {p!r}", rep)
        if all(v is not None for v in consts):
            ok &= ck.expect(list(p.get_constants()) == list(consts), "history:constants",
                            f"{rep}: step {n}: {p.get_constants()}", rep)
    return ok


def is_num(s):
    try:
        float(s)
        return True
    except ValueError:
        return False


# ------------------------------------------------------------------ part C: signed terms
def value(w, toks, env):
    """Value of a complete token list by direct recursion."""
    pos = [0]

    def rec():
        n = w.names[toks[pos[0]]]
        pos[0] += 1
        a = [rec() for _ in range(ARITY.get(n, 0))]
        n = n.removesuffix("_t")
        return {"add": lambda: a[0] + a[1], "sub": lambda: a[0] - a[1], "mul": lambda: a[0] * a[1],
                "n2": lambda: a[0] * a[0], "n3": lambda: a[0] ** 3}.get(n, lambda: env[n])()
    return rec()


U = np.array([[2.0], [3.0], [-5.0], [7.0], [0.5]])
X = np.array([[1.0], [-2.0], [4.0], [8.0], [3.0]])


def signed_terms(w, toks):
    """Reference: the additive terms of a tree with their signs, left to right."""
    def rec(i, sign):
        n = w.names[toks[i]].removesuffix("_t")
        if n not in ("add", "sub"):
            t, _ = w.first_tree(toks[i:])
            return [(sign, tuple(t))], i + len(t)
        left, j = rec(i + 1, sign)
        right, k = rec(j, sign if n == "add" else -sign)
        return left + right, k
    out, end = rec(0, 1)
    assert end == len(toks)
    return out


def c_split(ck, items):
    from kd.model.discover.program import from_tokens
    for name, toks in [items]:
        torch_mode = name == "split_t"
        w = world(name, torch_mode)
        rep = {"lib": name, "tokens": [w.names[t] for t in toks]}
        key = f"{name}:split"
        env = {"u1": U, "x1": X}
        with ck.case(key, rep):
            w.P.clear_cache()
            p = from_tokens(np.array(toks, dtype=np.int32))
            want = signed_terms(w, toks)
            whole = value(w, toks, env)
            got = [[t.name for t in term] for term in p.STRidge.terms_token]
            ck.step()
            ck.expect(got == [[w.names[i] for i in t] for _, t in want], key + ":terms",
                      f"{rep}: {got}", rep)
            signs = [getattr(t, "symbol", None) for t in p.STRidge.terms]
            if None not in signs:
                ck.expect(signs == [s for s, _ in want], key + ":signs",
                          f"{rep}: signs {signs} instead of {[s for s, _ in want]}", rep)
            ck.expect([strip(repr(t)) for t in p.STRidge.terms] == [render(w, t) for _, t in want], key + ":text",
                      f"{rep}: {p.STRidge.terms}", rep)
            ck.expect([t.name for t in p.traversal] == rep["tokens"], key + ":unchanged", f"{rep}", rep)
            if not torch_mode:
                w.P.set_const_optimizer("scipy")
                y, right, coef = p.execute([U], [X], whole)
                w.P.set_const_optimizer("dummy")
                if not p.invalid:
                    ck.expect(np.allclose(np.asarray(y).reshape(-1), whole.reshape(-1)), key + ":value",
                              f"{rep}: {np.asarray(y).reshape(-1)}", rep)
                    tot = sum(c * value(w, t, env).reshape(-1) for c, (_, t) in zip(coef, want))
                    ck.expect(len(coef) == len(want) and np.allclose(tot, whole.reshape(-1)), key + ":weights",
                              f"{rep}: weights {coef} do not give the expression", rep)
                    ck.outcome("value")
                else:
                    ck.outcome("refused")
            copied = [pickle.loads(pickle.dumps(p)), copy.deepcopy(p)]
            for q in copied:
                ck.expect([repr(t) for t in q.STRidge.terms] == [repr(t) for t in p.STRidge.terms]
                          and [getattr(t, "symbol", None) for t in q.STRidge.terms] == signs,
                          key + ":restored", f"{rep}", rep)
            ck.trace()


def strip(s):
    return s.replace(" ", "")


def render(w, toks):
    def rec(i):
        n = w.names[toks[i]]
        i += 1
        a = []
        for _ in range(ARITY.get(n, 0)):
            s, i = rec(i)
            a.append(s)
        return (n + "(" + ",".join(a) + ")" if a else n), i
    return rec(0)[0]


# ------------------------------------------------------------------ part D: text and saving
VALS = {"x1": 1.3, "x2": -0.7, "u1": 0.9}


def d_text(ck, items):
    import sympy
    from kd.model.discover.program import from_str_tokens, from_tokens
    for name, toks, consts in [items]:
        w = world(name)
        rep = {"lib": name, "tokens": [w.names[t] for t in toks], "constants": list(consts)}
        key = f"{name}:text"
        with ck.case(key, rep):
            w.P.clear_cache()
            p = from_tokens(np.array(toks, dtype=np.int32))
            if consts:
                p.set_constants(list(consts))
            ck.step()
            text = repr(p)
            for form in (text, text.split(",")):
                q = from_str_tokens(form)
                a, b = [repr(t) for t in p.traversal], [repr(t) for t in q.traversal]
                ck.expect(a == b and list(q.tokens) == list(p.tokens), key + ":round-trip",
                          f"{rep}: {a} read back as {b}", rep)
                if not consts:
                    ck.expect(q is p, key + ":identity", f"{rep}: read back as another expression", rep)
            env = dict(VALS)
            want = number(w, toks, consts, env)
            expr = p.sympy_expr[0]
            if want is not None and not isinstance(expr, str):
                try:
                    got = complex(sympy.sympify(expr).subs(env).replace(
                        lambda e: e.func.__name__ == "n5", lambda e: e.args[0] ** 5).evalf())
                except Exception as e:  # noqa: BLE001
                    got = f"{type(e).__name__}: {e}"
                good = not isinstance(got, str) and abs(got - want) <= 1e-9 * max(1, abs(want))
                ck.expect(good, key + ":sympy", f"{rep}: displayed as {expr} = {got}, not {want}", rep)
                ck.outcome(str(expr))
            else:
                ck.expect(want is None or not isinstance(expr, str), key + ":sympy-unread", f"{rep}: {expr}", rep)
            ck.expect([repr(t) for t in p.traversal] == [repr(t) for t in from_str_tokens(text).traversal],
                      key + ":unchanged", f"{rep}: displaying it changed it", rep)
            ck.trace()


def d_numbers(ck, items):
    """Text with numbers in it: the kept tokens carry the numbers written in their places."""
    from kd.model.discover.program import from_str_tokens
    vals = ["2.5", "-7.0", "0.125", "31", "-1e-3", "4.5", "6.75"]
    for name, toks in [items]:
        w = world(name)
        want, missing = w.first_tree(toks)
        text, given, k = [], [], 0
        for t in toks:
            if w.names[t] == "const":
                text.append(vals[k])
                given.append(float(vals[k]))
                k += 1
            else:
                text.append(w.names[t])
        rep = {"lib": name, "text": text}
        key = f"{name}:numbers"
        with ck.case(key, rep):
            w.P.clear_cache()
            p = from_str_tokens(list(text))
            q = from_str_tokens(",".join(text))
            ck.step()
            n = sum(w.names[t] == "const" for t in want)
            for r in (p, q):
                ck.expect(list(map(int, r.tokens))[:len(want)] == list(want), key + ":tokens", f"{rep}: {r}", rep)
                ck.expect([float(v) for v in r.get_constants()][:n] == given[:n], key + ":values",
                          f"{rep}: carries {r.get_constants()}", rep)
            ck.trace()


def number(w, toks, consts, env):
    import math
    pos, cs = [0], iter(consts)

    def rec():
        n = w.names[toks[pos[0]]]
        pos[0] += 1
        if n == "const":
            return next(cs)
        if n in env:
            return env[n]
        a = [rec() for _ in range(ARITY[n])]
        return {"add": lambda: a[0] + a[1], "sub": lambda: a[0] - a[1], "mul": lambda: a[0] * a[1],
                "div": lambda: a[0] / a[1], "n2": lambda: a[0] ** 2, "n3": lambda: a[0] ** 3,
                "n4": lambda: a[0] ** 4, "n5": lambda: a[0] ** 5, "neg": lambda: -a[0], "inv": lambda: 1 / a[0],
                "sin": lambda: math.sin(a[0]), "exp": lambda: math.exp(a[0])}[n]()
    try:
        v = rec()
        return v if abs(v) < 1e12 else None
    except (ZeroDivisionError, OverflowError):
        return None


def d_diff_text(ck, items):
    """Displaying an expression with derivatives keeps them."""
    import sympy
    from kd.model.discover.program import from_tokens
    for name, toks in [items]:
        w = world(name)
        rep = {"lib": name, "tokens": [w.names[t] for t in toks]}
        key = f"{name}:display"
        with ck.case(key, rep):
            w.P.clear_cache()
            p = from_tokens(np.array(toks, dtype=np.int32))
            expr = p.sympy_expr[0]
            ck.step()
            # reference: a derivative is an opaque quantity identified by its operands
            atoms = {}

            def rec(i):
                n = w.names[toks[i]]
                i += 1
                a = []
                for _ in range(ARITY.get(n, 0)):
                    v, i = rec(i)
                    a.append(v)
                if n == "diff":
                    return diff_value(a[0], a[1]), i
                if n in ("u1", "x1"):
                    return VALS[n], i
                return {"add": lambda: a[0] + a[1], "mul": lambda: a[0] * a[1], "n2": lambda: a[0] ** 2}[n](), i
            want = rec(0)[0]
            got = sympy.sympify(expr)
            got = got.xreplace({s: sympy.Float(VALS[str(s)], 17) for s in got.free_symbols})
            try:
                while got.atoms(sympy.core.function.AppliedUndef):
                    inner = [f for f in got.atoms(sympy.core.function.AppliedUndef)
                             if not any(x.atoms(sympy.core.function.AppliedUndef) for x in f.args)]
                    got = got.xreplace({f: sympy.Float(diff_value(*map(float, f.args)), 17) for f in inner})
                val = float(got)
            except Exception as e:  # noqa: BLE001
                val = f"{type(e).__name__}: {e}"
            ck.expect(not isinstance(val, str) and abs(val - want) <= 1e-9 * max(1, abs(want)), key,
                      f"{rep}: displayed as {expr}", rep)
            atoms.clear()
            ck.trace()


def diff_value(a, b):
    return np.sin(1.7 * a + 0.3) * 2.0 + b * 0.61


def d_save(ck, items):
    from kd.model.discover.program import from_tokens
    for name, toks, state in [items]:
        w = world(name)
        rep = {"lib": name, "tokens": [w.names[t] for t in toks], "state": state}
        key = f"{name}:save:{state}"
        with ck.case(key, rep):
            w.P.clear_cache()
            p = from_tokens(np.array(toks, dtype=np.int32), on_policy=state != "off")
            n = sum(1 for t in toks if w.names[t] == "const")
            if state == "set":
                p.set_constants([1.25 * (i + 1) for i in range(n)])
            elif state == "scored":
                p.r_ridge
            elif state == "evaluated":
                p.r_ridge
                p.evaluate
            elif state == "invalid":
                p.invalid, p.error_node, p.error_type = True, "bad_diff", None
            elif state == "off":
                from_tokens(np.array(toks, dtype=np.int32), on_policy=False)
            calls = w.task.calls if hasattr(w.task, "calls") else 0
            import dill
            # copying is only possible once: copies of copies too
            makers = {"pickle": lambda o: pickle.loads(pickle.dumps(o)), "deepcopy": copy.deepcopy, "copy": copy.copy,
                      "twice": lambda o: copy.deepcopy(pickle.loads(pickle.dumps(o))),
                      "dill": lambda o: dill.loads(dill.dumps(o))}
            before = state_of(p)
            for how, make in makers.items():
                q = make(p)
                ck.step()
                ck.expect(state_of(q) == before, f"{key}:{how}", f"{rep}: {how}: {state_of(q)} instead of {before}",
                          {**rep, "how": how})
                ck.expect(state_of(p) == before, f"{key}:{how}:source", f"{rep}: {how} changed the original", rep)
                ck.expect(q is not p, f"{key}:{how}", f"{rep}", rep)
                q.set_constants([99.0] * n)
                ck.expect(state_of(p) == before, f"{key}:{how}:shared",
                          f"{rep}: constants of the {how} are those of the original", rep)
            if state in ("scored", "evaluated"):
                q = makers["pickle"](p)
                ck.expect(q.r_ridge == p.r_ridge and list(q.w) == list(p.w), key + ":score",
                          f"{rep}: score {q.r_ridge} restored for {p.r_ridge}", rep)
            del calls
            ck.trace()


def state_of(p):
    st = getattr(p, "STRidge", None)
    d = p.__dict__
    return (tuple(map(int, p.tokens)), tuple(repr(t) for t in p.traversal), tuple(t.name for t in p.traversal),
            bool(p.invalid), None if st is None else tuple(repr(t) for t in st.terms),
            None if st is None else tuple(getattr(t, "symbol", 0) for t in st.terms),
            d.get("r_ridge"), tuple(d["w"]) if "w" in d else None, repr(d.get("evaluate")),
            tuple(p.const_pos), p.str)


# ------------------------------------------------------------------ part E: displayed equation
def e_display(ck, items):
    """After scoring, every way of reading the equation lists the terms with their own weights."""
    from kd.model.discover.program import from_tokens
    for name, toks, const in [items]:
        w = world(name)
        rep = {"lib": name, "tokens": [w.names[t] for t in toks], "add_const": const}
        key = f"{name}:displayed"
        with ck.case(key, rep):
            w.P.clear_cache()
            w.task.add_const = const
            p = from_tokens(np.array(toks, dtype=np.int32))
            w.task.add_const = False
            want = signed_terms(w, toks)
            coefs = [round(0.5 + 1.25 * i * (-1) ** i, 4) for i in range(len(want) + int(const))]
            p.cached_terms = None
            p.w = list(coefs)
            ck.step()
            text = strip(p.str_expression)
            parts = ["%.4f" % c + "*" + render(w, t) for c, (_, t) in zip(coefs, want)]
            if const:
                parts.append("%.4f" % coefs[-1])
            ck.expect(text == "+".join(parts), key + ":text", f"{rep}: {p.str_expression!r}", rep)
            ck.expect([strip(s) for s in p.funcion_expression.split("|")] == [render(w, t) for _, t in want],
                      key + ":terms", f"{rep}: {p.funcion_expression!r}", rep)
            ck.expect([float(s) for s in p.coefficents.split("|")] == coefs, key + ":weights",
                      f"{rep}: {p.coefficents!r}", rep)
            ck.trace()


def a_stochastic(ck, items):
    """Where scores are random draws, no two requests share a score."""
    from kd.model.discover.program import from_tokens
    for name, toks in [items]:
        w = world(name)
        tree, left = w.first_tree(toks)
        if left:
            continue
        rep = {"library": name, "tokens": [w.names[t] for t in toks]}
        with ck.case("stochastic", rep):
            w.P.clear_cache()
            w.task.stochastic = True
            try:
                a, b = from_tokens(list(tree)), from_tokens(list(tree))
                draws = iter((0.25, 0.75))
                real = w.task.reward_function
                w.task.reward_function = lambda p: (next(draws),) + tuple(real(p))[1:]
                got = (a.r_ridge, b.r_ridge)
                c = from_str_tokens_of(w, tree) if "const" not in rep["tokens"] else from_tokens(list(tree))
                ck.step(3)
                ck.expect(a is not b and c is not a and c is not b, "stochastic:shared", f"{rep}: one object for all", rep)
                ck.expect(got == (0.25, 0.75), "stochastic:score", f"{rep}: {got}", rep)
                for p in (a, b, c):
                    check_denotes(ck, w, p, tree, "stochastic", rep)
            finally:
                w.task.__dict__.pop("stochastic", None)
                w.task.__dict__.pop("reward_function", None)
                w.P.clear_cache()
            ck.trace()


def run(ck):
    quiet()
    big = ck.thorough

    def lists(name, most):
        w = world(name)
        for n in range(1, most + 1):
            for t in itertools.product(range(len(w.names)), repeat=n):
                yield name, t
    ck.part("token lists")
    jobs = []
    for name, most in (("pde", 7 if big else 6), ("pde2", 6 if big else 5), ("reg", 7 if big else 6),
                       ("hard", 7 if big else 6), ("noin", 7 if big else 6)):
        jobs += [j for j in lists(name, most)]
    jobs = sorted(jobs, key=lambda i: h(str(i)))
    ck.count_states(len(jobs))
    ck.pool(a_token_lists, jobs)
    ck.sample({"lib": jobs[0][0], "tokens": jobs[0][1]})
    ck.end_part()

    ck.part("random scores")
    jobs = [j for name, most in (("pde", 4), ("reg", 4)) for j in lists(name, most)]
    ck.count_states(len(jobs))
    ck.pool(a_stochastic, jobs)
    ck.end_part()

    ck.part("numbers in the text")
    jobs = [j for name, most in (("reg", 6 if big else 5),) for j in lists(name, most)
            if any(world(name).names[t] == "const" for t in j[1])]
    ck.count_states(len(jobs))
    ck.pool(d_numbers, sorted(jobs, key=lambda i: h(str(i))))
    ck.end_part()

    ck.part("several expressions")
    jobs = []
    for name in ("reg", "hard"):
        w = world(name)
        for n in (2, 3):
            for ln in range(n, 8 if big else 7):
                for t in itertools.product(range(len(w.names)), repeat=ln):
                    if w.first_tree(t, n)[1] == 0:
                        jobs.append((name, t, n))
    ck.count_states(len(jobs))
    ck.pool(a_multi, sorted(jobs, key=lambda i: h(str(i))))
    ck.end_part()

    ck.part("histories")
    ops = ["int:A", "junk:A", "str:A", "hard:A", "opt:A", "set:A", "copy:A", "clear:-", "int:B", "hard:B", "opt:B",
           "set:B", "str:C", "hard:C"]
    jobs = [(n, s) for n in ("reg", "hard") for s in sequences(ops, 5 if big else 4)]
    ck.pool(b_histories, sorted(jobs, key=lambda i: h(str(i))))
    ck.end_part()

    ck.part("signed terms")
    jobs = []
    for name in ("split", "split_t"):
        w = world(name)
        for s in range(1, (9 if name == "split" else 8) if big else 8):
            jobs += [(name, t) for t in trees(w, s)
                     if big and s < 8 or s < 7 or not any(w.names[i] in ("n2", "x1") for i in t)]
        # deep sums of leaves: every shape with up to 5 (6) leaves
        add = [i for i, n in enumerate(w.names) if n.removesuffix("_t") in ("add", "sub")]
        u = w.id["u1"]

        def shapes(k):
            if k == 1:
                yield (u,)
                return
            for a in range(1, k):
                for l in shapes(a):
                    for r in shapes(k - a):
                        for o in add:
                            yield (o,) + l + r
        for k in range(4, 8 if big else 7):
            jobs += [(name, t) for t in shapes(k)]
    jobs = sorted(set(jobs), key=lambda i: h(str(i)))
    ck.count_states(len(jobs))
    ck.pool(c_split, jobs)
    ck.end_part()

    ck.part("text")
    w = world("text")
    jobs = []
    keep4 = {"add", "sub", "div", "n2", "neg", "inv", "x1", "const"}
    keep5 = {"sub", "div", "neg", "inv", "x1", "const"}
    for s in range(1, 6):
        for t in trees(w, s):
            ns = {w.names[i] for i in t}
            if s == 4 and not (big or ns <= keep4) or s == 5 and not ns <= (keep4 if big else keep5):
                continue
            n = sum(1 for i in t if w.names[i] == "const")
            for cs in ([()] if n == 0 else [(0.5, -3.0, 1e-7, 2e20)[:n], (-0.1, 12345.678, 3.0, 1.0)[:n]]):
                jobs.append(("text", t, cs))
    ck.count_states(len(jobs))
    ck.pool(d_text, sorted(jobs, key=lambda i: h(str(i))))
    w = world("diff")
    jobs = [("diff", t) for s in range(1, 9 if big else 8) for t in trees(w, s)]
    ck.count_states(len(jobs))
    ck.pool(d_diff_text, sorted(jobs, key=lambda i: h(str(i))))
    ck.end_part()

    ck.part("saved and restored")
    jobs = []
    for name in ("pde", "reg", "hard"):
        w = world(name)
        for s in range(1, 7 if big else 6):
            for t in trees(w, s):
                for st in ("fresh", "set", "scored", "evaluated", "invalid", "off"):
                    jobs.append((name, t, st))
    ck.count_states(len(jobs))
    ck.pool(d_save, sorted(jobs, key=lambda i: h(str(i))))
    ck.end_part()

    ck.part("displayed equation")
    w = world("split")
    jobs = [("split", t, c) for s in range(1, 9 if big else 8) for t in trees(w, s) for c in (False, True)]
    ck.count_states(len(jobs))
    ck.pool(e_display, sorted(jobs, key=lambda i: h(str(i))))
    ck.end_part()
    ck.assumptions.append("an empty token list is not an unfinished expression (never sampled); constants are tried "
                          "in regression mode, the only mode whose shipped libraries contain them")
