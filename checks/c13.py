"""C13 - configuration containers behave like ordinary mappings and parameters.

attrdict   every sequence (depth 4 / 5) of item and attribute reads, writes, deletions, updates,
           pops, merges and copies, compared step by step with an ordinary dictionary.
merge      every pair (thorough: triple) of nested dictionaries of a small family: result, sources
           untouched, nothing mutable shared.
nested     every history of set_params on nested estimators.
estimators every estimator class: every parameter and pair of parameters through the constructor
           and through set_params, read back, refused when unknown, shared with nobody.
config     every way of giving a configuration: merged over the shipped defaults, arguments and
           defaults untouched.
"""
from __future__ import annotations

import collections
import copy
import itertools
import json
import os
import pickle
import tempfile

import numpy as np

from mc.core import Check, quiet

KEYS = ["a", "b_c", "_p"]


# ------------------------------------------------------------------ attribute dictionary
def attr_ops():
    ops = []
    for k in KEYS[:2]:
        ops += [("setitem", k), ("setattr", k), ("delitem", k), ("delattr", k), ("pop", k),
                ("setdefault", k)]
    ops += [("setattr", "_p"), ("delattr", "_p"), ("update", ("a", "b_c")), ("update_kw", ("a",)),
            ("ior", ("b_c", "z")), ("popitem", None), ("clear", None), ("rebuild", None),
            ("rebuild_kw", None), ("copy.copy", None), ("deepcopy", None), ("pickle", None),
            ("ormerge", ("a", "q")), ("nest", "a"), ("nest_write", "a")]
    return ops


def outcome(f):
    try:
        return ("ok", f())
    except (KeyError, AttributeError, TypeError, IndexError) as e:
        return ("err", type(e))


def attr_apply(d, op, n, attr):
    """Apply op to d (attr: d is the attribute dictionary). Returns (result, new d)."""
    k, a = op
    v = [n, "v"]
    if k == "setitem":
        d[a] = v
    elif k == "setattr":
        if attr:
            setattr(d, a, v)
        else:
            d[a] = v
    elif k == "delitem":
        def f():
            del d[a]
        return outcome(f), d
    elif k == "delattr":
        if attr:
            r = outcome(lambda: delattr(d, a))
            return (("err", KeyError) if r == ("err", AttributeError) else r), d

        def f():
            del d[a]
        return outcome(f), d
    elif k == "pop":
        return outcome(lambda: d.pop(a)), d
    elif k == "setdefault":
        return outcome(lambda: d.setdefault(a, v)), d
    elif k == "update":
        return outcome(lambda: d.update({x: [n, x] for x in a})), d
    elif k == "update_kw":
        return outcome(lambda: d.update(**{x: [n, x] for x in a})), d
    elif k == "ior":
        d |= {x: [n, x] for x in a}
    elif k == "popitem":
        return outcome(lambda: d.popitem()), d
    elif k == "clear":
        d.clear()
    elif k == "rebuild":
        return ("ok", None), type(d)(d)
    elif k == "rebuild_kw":
        return ("ok", None), type(d)(list(d.items()), extra=n)
    elif k in ("copy.copy", "deepcopy", "pickle"):
        fn = {"copy.copy": copy.copy, "deepcopy": copy.deepcopy,
              "pickle": lambda x: pickle.loads(pickle.dumps(x))}[k]
        return ("ok", None), fn(d)
    elif k == "ormerge":
        m = d | {x: [n, x] for x in a}
        return ("ok", dict(m)), d
    elif k == "nest":
        d[a] = {"deep": [n]} if not attr else type(d)({"deep": [n]})
    elif k == "nest_write":
        def f():
            x = d[a]
            if isinstance(x, dict):
                if attr and isinstance(x, type(d)):
                    x.deep = n
                else:
                    x["deep"] = n
                return True
            return False
        return outcome(f), d
    return ("ok", None), d


def plain(x):
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    return x


def attrdict_part(ck: Check, prefix):
    from kd.utils import Attrdict
    OPS = attr_ops()
    depth = (5 if ck.thorough else 4) - len(prefix)
    probe = KEYS + ["extra", "z", "missing", "__deepcopy__", "__getstate_x__"]
    for tail in itertools.product(OPS, repeat=depth):
        hist = prefix + tail
        d, r = Attrdict(), {}
        olds = []
        for i, op in enumerate(hist):
            with ck.case("attrdict-" + op[0], replay=[list(map(str, o)) for o in hist[:i + 1]]):
                ck.step()
                before_d, before_r = d, r
                got, d = attr_apply(d, op, i, True)
                want, r = attr_apply(r, op, i, False)
                if d is not before_d:
                    if op[0] in ("copy.copy", "deepcopy", "pickle"):
                        ck.expect(type(d) is Attrdict, "copy-type", f"{op[0]} gives {type(d)}")
                    inner = [x for x in vars(d).values()] if hasattr(d, "__dict__") else []
                    ck.expect(not any(x is before_d for x in inner), "copy-refers-to-source",
                              f"{op[0]} keeps a reference to the object it was copied from",
                              [list(map(str, o)) for o in hist[:i + 1]])
                    olds.append((before_d, before_r))
                ok = plain(got[1]) == plain(want[1]) if got[0] == "ok" == want[0] else got == want
                ck.expect(ok, "result-" + op[0], lambda: f"{op} gives {got}, dictionary gives {want}; "
                          f"history {hist}", [list(map(str, o)) for o in hist[:i + 1]])
                ck.expect(list(map(plain, d.items())) == list(map(plain, r.items())) and d == plain(r)
                          and len(d) == len(r) and list(d) == list(r) and list(d.keys()) == list(r),
                          "contents-" + op[0], lambda: f"after {hist[:i+1]}: {dict(d)} instead of {r}",
                          [list(map(str, o)) for o in hist[:i + 1]])
        with ck.case("attrdict-read", replay=[list(map(str, o)) for o in hist]):
            for k in probe:
                has = k in r
                bad = []
                if (k in d) != has or hasattr(d, k) != has:
                    bad.append("membership")
                a = outcome(lambda: getattr(d, k))
                b = outcome(lambda: d[k])
                if has and not (plain(a[1]) == plain(b[1]) == plain(r[k]) and a[1] is b[1] is d.get(k)):
                    bad.append("value")
                if not has and (a != ("err", AttributeError) or b != ("err", KeyError)
                                or getattr(d, k, 7) != 7 or d.get(k, 7) != 7):
                    bad.append("missing")
                if has and isinstance(k, str) and k not in dir(d):
                    bad.append("dir")
                ck.expect(not bad, "read-" + "-".join(bad), lambda: f"key {k}: {a} / {b}, dictionary "
                          f"{r.get(k, 'no entry')}; history {hist}", [list(map(str, o)) for o in hist])
            for od, orr in olds:
                ck.expect(plain(od) == plain(orr), "source-of-copy", lambda: f"{dict(od)} instead of {orr}; "
                          f"history {hist}", [list(map(str, o)) for o in hist])
            ck.visit(repr(plain(r)))
            ck.trace()
            ck.outcome(repr(sorted(r)))


# ------------------------------------------------------------------ merging
def nested_family(level):
    """Nested dictionaries over keys a, b with scalars, lists, None and dictionaries as values."""
    leaves = [1, [1, 2], None]
    if level:
        subs = [s for s in nested_family(level - 1)]
        vals = leaves + subs
    else:
        vals = leaves
    out = []
    opts = ["-"] + vals
    for va in opts:
        for vb in (opts if level == 0 else ["-", 2, [3], {"b": 4}, {}]):
            d = {}
            if va is not "-":   # noqa: F632
                d["a"] = va
            if vb is not "-":   # noqa: F632
                d["b"] = vb
            out.append(d)
    return out


def ref_merge(a, b):
    if a is None:
        return copy.deepcopy(b)
    if b is None:
        return copy.deepcopy(a)
    out = {k: copy.deepcopy(v) for k, v in a.items()}
    for k, v in b.items():
        if isinstance(v, dict) and isinstance(out.get(k), dict):
            out[k] = ref_merge(out[k], v)
        else:
            out[k] = copy.deepcopy(v)
    return out


def mutables(x, acc=None):
    acc = set() if acc is None else acc
    if isinstance(x, dict):
        acc.add(id(x))
        for v in x.values():
            mutables(v, acc)
    elif isinstance(x, list):
        acc.add(id(x))
        for v in x:
            mutables(v, acc)
    return acc


def merge_part(ck: Check, item):
    from kd.model.discover.utils import safe_merge_dicts
    w, n = item
    fam = [None] + nested_family(1)
    types = [dict, collections.OrderedDict, lambda d: collections.defaultdict(dict, d)]

    def conv(x, t):
        if isinstance(x, dict):
            return t({k: conv(v, t) for k, v in x.items()})
        return copy.deepcopy(x)

    for i, a in enumerate(fam):
        if i % n != w:
            continue
        for j, b in enumerate(fam):
            for t in (types if (i + j) % 7 == 0 else types[:1]):
                A, B = conv(a, t), conv(b, t)
                with ck.case("merge", replay=[a, b]):
                    got = safe_merge_dicts(A, B)
                    ck.step()
                    ck.visit((repr(a), repr(b)))
                    ck.expect(got == ref_merge(a, b), "merge-result",
                              lambda: f"merge({a}, {b}) = {got} instead of {ref_merge(a, b)}", [a, b])
                    ck.expect(A == conv(a, t) and B == conv(b, t), "merge-changes-source",
                              lambda: f"merge({a}, {b}) left sources {A}, {B}", [a, b])
                    ck.expect(not (mutables(got) & (mutables(A) | mutables(B))), "merge-shares",
                              lambda: f"merge({a}, {b}) shares mutable values with a source", [a, b])
                    ck.outcome(repr(got))
                    if ck.thorough and got is not None and i % 4 == 0:
                        for c in fam[::5]:
                            g2 = safe_merge_dicts(got, c)
                            ck.step()
                            ck.expect(g2 == ref_merge(ref_merge(a, b), c), "merge-chain",
                                      f"{a} {b} {c}", [a, b, c])
    ck.trace()


# ------------------------------------------------------------------ parameters
def nested_params_part(ck: Check):
    from kd.base import BaseEstimator
    ck.part("nested")

    class Inner(BaseEstimator):
        def __init__(self, p=1, q=None):
            self.p, self.q = p, q

    class Outer(BaseEstimator):
        def __init__(self, inner=None, alpha=0, klass=Inner):
            self.inner, self.alpha, self.klass = inner, alpha, klass

    class Top(BaseEstimator):
        def __init__(self, outer, x=3, **kwargs):
            self.outer, self.x = outer, x

    lst = [1]
    OPS = [{"x": 5}, {"x": lst}, {"outer__alpha": 9}, {"outer__inner__p": 4},
           {"outer__inner__q": "s", "x": 6}, {"outer__klass": int},
           {"outer__inner__p": 1, "outer__alpha": 2}, {"outer": "NEW"}, {"outer__inner": "NEW"},
           {"outer": "NEW", "outer__alpha": 5}, {"outer__inner__p": 6, "outer__inner": "NEW"}, {"nope__x": 1},
           {}, {"nope": 1}, {"outer__nope": 1}, {"outer__inner__nope": 2}]

    def expected(top, deep):
        out = {"x": top["x"], "outer": top["outer"]["obj"]}
        if deep:
            o = top["outer"]
            for k in ("alpha", "klass"):
                out["outer__" + k] = o[k]
            out["outer__inner"] = o["inner"]["obj"]
            for k in ("p", "q"):
                out["outer__inner__" + k] = o["inner"][k]
        return out

    depth = 4 if ck.thorough else 3
    for hist in itertools.product(OPS, repeat=depth):
        with ck.case("nested", replay=str(hist)):
            inner = Inner(p=2)
            outer = Outer(inner=inner)
            top = Top(outer)
            ref = {"x": 3, "outer": {"obj": outer, "alpha": 0, "klass": Inner,
                                     "inner": {"obj": inner, "p": 2, "q": None}}}
            for op in hist:
                ck.step()
                op = dict(op)
                if op.get("outer") == "NEW":
                    i2 = Inner(p=8)
                    op["outer"] = Outer(inner=i2, alpha=7)
                    new = {"obj": op["outer"], "alpha": 7, "klass": Inner,
                           "inner": {"obj": i2, "p": 8, "q": None}}
                if op.get("outer__inner") == "NEW":
                    op["outer__inner"] = Inner(q="n")
                bad = any("nope" in k for k in op)
                try:
                    r = top.set_params(**op)
                    ck.expect(not bad, "unknown-accepted", f"{op}", str(hist))
                    ck.expect(r is top, "set-returns-self", f"{r}")
                except ValueError as e:
                    ck.expect(bad, "known-refused", f"{op}: {e}", str(hist))
                    continue
                if bad:
                    continue
                for k, v in sorted(op.items(), key=lambda kv: kv[0].count("__")):
                    if k == "x":
                        ref["x"] = v
                    elif k == "outer":
                        ref["outer"] = new
                    elif k == "outer__inner":
                        ref["outer"]["inner"] = {"obj": v, "p": 1, "q": "n"}
                    elif k.startswith("outer__inner__"):
                        ref["outer"]["inner"][k.split("__")[-1]] = v
                    else:
                        ref["outer"][k.split("__")[-1]] = v
            for deep in (True, False):
                got, want = top.get_params(deep=deep), expected(ref, deep)
                ck.expect(set(got) == set(want) and all(got[k] is want[k] for k in want),
                          f"read-back-{'deep' if deep else 'flat'}",
                          lambda: f"{ {k: (got.get(k), want.get(k)) for k in set(got) | set(want) if got.get(k) is not want.get(k)} } "
                          f"after {hist}", str(hist))
            ck.visit(str(hist))
            ck.trace()
            repr(top)
    ck.end_part()


def estimators():
    from kd.model import KD_DLGA, KD_PySR, KD_SGA
    from kd.model.dlga import DLGA
    from kd.model.kd_discover import KD_Discover, KD_Discover_SPR
    from kd.model.kd_discover_regression import KD_Discover_Regression
    disc = {"n_iterations": [3, 7], "n_samples_per_batch": [5, 11], "binary_operators": [["add"], ["mul", "sub"]],
            "unary_operators": [["n2"], []], "out_path": ["./x/", None], "core_num": [2, 4],
            "config_out": [None, {"training": {"epsilon": 0.5}}, {}], "seed": [1, 9]}
    return {
        "KD_SGA": (KD_SGA, {}, {"sga_run": [1, 2], "num": [3, 4], "depth": [2, 3], "width": [2, 3],
                               "p_var": [.1, .9], "p_mute": [0., 1.], "p_cro": [.2, .3], "seed": [1, 5],
                               "use_autograd": [True, False], "max_epoch": [5, 6],
                               "use_metadata": [True, False], "delete_edges": [True, False],
                               "target_field": ["v", None], "lhs_axis": ["y", None],
                               "primary_spatial_axis": ["z", None]}),
        "DLGA": (DLGA, {"epi": .1, "input_dim": 2}, {"epi": [.2, .3], "input_dim": [1, 3],
                                                    "max_iter": [10, 20]}),
        "KD_DLGA": (KD_DLGA, {"operators": ["u"], "epi": .1, "input_dim": 2},
                    {"operators": [["u", "u_x"], ["u_xx"]], "epi": [.2, .3], "input_dim": [1, 3],
                     "verbose": [True, False]}),
        "KD_PySR": (KD_PySR, {}, {"niterations": [3, 4], "binary_operators": [["+"], ["*", "-"]],
                                 "unary_operators": [["exp"], []],
                                 "extra_model_kwargs": [{"a": 1}, {}]}),
        "KD_Discover": (KD_Discover, {}, disc),
        "KD_Discover_SPR": (KD_Discover_SPR, {}, disc),
        "KD_Discover_Regression": (KD_Discover_Regression, {}, disc),
    }


def estimator_part(ck: Check, item):
    name, hows = item
    cls, base, table = estimators()[name]

    def same(a, b):
        return type(a) is type(b) and a == b

    with ck.case(name + "-names", replay=name):
        got = cls(**base).get_params(deep=False)
        ck.expect(set(got) == set(table), name + "-parameter-names",
                  f"{sorted(got)} instead of {sorted(table)}", name)
        ck.expect(name in repr(cls(**base)), name + "-repr", repr(cls(**base)))
    default = None
    with ck.case(name + "-names", replay=name):
        default = cls(**base).get_params()
    if default is None:
        return
    for r in (1, 2):
        for ks in itertools.combinations(sorted(table), r):
            for vs in itertools.product(*[range(len(table[k])) for k in ks]):
                kw = {k: copy.deepcopy(table[k][v]) for k, v in zip(ks, vs)}
                given = copy.deepcopy(kw)
                for how in hows:
                    with ck.case(f"{name}-{how}", replay=[name, how, str(kw)]):
                        if how == "ctor":
                            e = cls(**{**base, **kw})
                        else:
                            e = cls(**base)
                            if how == "set-twice":
                                e.set_params(**{k: copy.deepcopy(table[k][v - 1]) for k, v in zip(ks, vs)})
                            if how == "unknown":
                                e.set_params(**kw)
                                for bad in ("no_such", "_x", ""):
                                    try:
                                        e.set_params(**{bad: 1})
                                        ck.fail(f"{name}-unknown-accepted", f"set_params({bad!r})", name)
                                    except ValueError:
                                        pass
                            else:
                                e.set_params(**kw)
                        ck.step()
                        got = e.get_params()
                        want = {**default, **given}
                        bad = [k for k in want if k not in got or not same(got[k], want[k])]
                        ck.expect(not bad and set(got) == set(want), f"{name}-{how}-read-back",
                                  lambda: f"{ {k: (got.get(k), want[k]) for k in bad} } after {how} {given}",
                                  [name, how, str(given)])
                        ck.expect(kw == given, f"{name}-changes-arguments", f"{given} -> {kw}")
                        bad = [k for k in want if not same(getattr(e, k), want[k])]
                        ck.expect(not bad, f"{name}-attribute", f"{bad}")
                        ck.visit((name, str(given)))
                        ck.trace()
    # two estimators share no mutable parameter, and a reader cannot change defaults
    with ck.case(name + "-defaults", replay=name):
        e1 = cls(**copy.deepcopy(base))
        for v in e1.get_params().values():
            if isinstance(v, list):
                v.append("junk")
            if isinstance(v, dict):
                v["junk"] = 1
        if hasattr(e1, "operator"):
            e1.operator.append("junk")
        if hasattr(e1, "config"):
            for v in e1.config.values():
                if isinstance(v, dict):
                    v["junk"] = 1
        e2 = cls(**copy.deepcopy(base))
        dirty = [k for k, v in e2.get_params().items() if "junk" in str(v)]
        ck.expect(not dirty, name + "-shared-default", f"{dirty} shared between instances", name)
        ck.expect("junk" not in str(getattr(e2, "config", "")) + str(getattr(e2, "operator", "")),
                  name + "-shared-config", "configuration shared between instances", name)


def config_part(ck: Check):
    """config_out as dictionary or file: merged over the shipped defaults, caller's copy untouched."""
    ck.part("config")
    import kd.model.kd_discover as kdd
    from kd.model.kd_discover import KD_Discover, KD_Discover_SPR
    from kd.model.kd_discover_regression import KD_Discover_Regression
    import commentjson
    root = os.path.dirname(os.path.realpath(kdd.__file__))
    shipped = {KD_Discover: "config_pde.json", KD_Discover_SPR: "config_pde_pinn.json",
               KD_Discover_Regression: "config_regression.json"}
    cases = [{}, {"training": {"epsilon": 0.5}}, {"task": {"function_set": ["add"]}},
             {"prior": {"length": {"min_": 2, "on": False}}}, {"new": {"x": [1, {"y": 2}]}},
             {"training": {"epsilon": 0.5, "new": [1]}, "controller": {"ewma_alpha": 0.1}},
             {"task": {"task_type": "pde"}, "gp_agg": {"run_gp_agg": False}}]
    for cls, fname in shipped.items():
        with open(os.path.join(root, "discover", "config", fname), encoding="utf-8") as f:
            defaults = commentjson.load(f)
        for c in cases:
            for how in ("dict", "file", "set_config", "twice"):
                with ck.case(f"config-{cls.__name__}-{how}", replay=str(c)):
                    arg = copy.deepcopy(c)
                    if how == "file":
                        with tempfile.NamedTemporaryFile("w", suffix=".json", delete=False) as f:
                            json.dump(c, f)
                        try:
                            m = cls(config_out=f.name)
                        finally:
                            os.unlink(f.name)
                    elif how == "dict":
                        m = cls(config_out=arg)
                    elif how == "set_config":
                        m = cls()
                        m.set_config(arg)
                    else:
                        m = cls(config_out={"training": {"epsilon": 0.9, "left": 1}})
                        m.set_config(arg)
                    ck.step()
                    ck.visit((cls.__name__, how, str(c)))
                    want = ref_merge(defaults, c)
                    got = plain(m.config)
                    if cls is KD_Discover_SPR:
                        want.setdefault("task", {})["task_type"] = "pde_pinn"
                    diff = [k for k in set(got) | set(want) if got.get(k, {}) != want.get(k, {})]
                    ck.expect(not diff, "config-effective", lambda: f"{cls.__name__} {how} {c}: sections "
                              f"{diff} differ from defaults + given", str(c))
                    m.config["training"]["epsilon"] = "mark"
                    m.config["task"]["function_set"].append("mark")
                    ck.expect(arg == c, "config-caller-changed", f"{c} -> {arg}", str(c))
                    m2 = cls()
                    ck.expect("mark" not in str(m2.config), "config-defaults-changed", str(c))
                    ck.trace()
    ck.end_part()


def run(ck: Check):
    ck.part("attrdict")
    ops = attr_ops()
    with quiet():
        import kd.utils  # noqa: F401
        pre = [(o,) for o in ops] if not ck.thorough else list(itertools.product(ops, ops))
        ck.pool(attrdict_part, pre)
        ck.end_part()
        import kd.model.discover.utils  # noqa: F401
        ck.part("merge")
        ck.pool(merge_part, [(w, 8) for w in range(8)])
        ck.end_part()
        nested_params_part(ck)
        ck.part("estimators")
        ck.pool(estimator_part, [(n, (h,)) for h in ("ctor", "set", "set-twice", "unknown")
                                 for n in sorted(estimators(), reverse=True)])
        ck.end_part()
        config_part(ck)
