"""C10 - every advertised dataset name loads what it advertises.

registry   every listed name, every pending one, every near-miss spelling; loaded arrays compared
           with an independent reading of the file.
loading    every entry kind (mat, npy bundle, single npy) and the runner's file loader over
           every stored orientation, size and array layout, written to scratch files.
info       every sequence (depth 4 / 5) of metadata operations against a plain dictionary.
files      the low-level readers over every small table.
"""
from __future__ import annotations

import copy
import dataclasses
import itertools
import os
import shutil
import sys
import tempfile
import types

import numpy as np

from mc.core import Check, h, quiet

BAD = (ValueError, KeyError, TypeError, AttributeError, FileNotFoundError, OSError, IndexError)


def near_misses(name):
    out = {name + " ", " " + name, name.upper(), name.lower(), name.capitalize(), name.replace("-", "_"),
           name.replace("_", "-"), name[:-1], name + "s", name[::-1], name + ".mat", name + ".npy"}
    return sorted(out - {name}) + ["", "nope", "../data/burgers2", "burgers2.mat"]


def registry_part(ck: Check):
    import scipy.io
    import kd
    import kd.dataset as D
    ck.part("registry")
    root = os.path.join(os.path.dirname(kd.__file__), "dataset", "data")
    names = D.list_available_datasets()
    ck.expect(len(names) == len(set(names)) and len(names) >= 8, "names", f"{names}")
    for name in names:
        with ck.case(f"load-{name}", replay=name):
            info = D.get_dataset_info(name)
            keep = copy.deepcopy(D.PDE_REGISTRY)
            for kw in ({}, {"epi": 0.5}):
                ck.step()
                ds = D.load_pde(name, **kw)
                if not ck.expect(isinstance(ds, D.PDEDataset), "not-a-dataset", f"{name}: {ds!r}", name):
                    break
                ck.visit((name, str(kw)))
                if "files" in info:
                    u, x, t = (np.load(os.path.join(root, info["files"][k])) for k in "uxt")
                elif info["file"].endswith(".npy"):
                    u = np.load(os.path.join(root, info["file"]))
                    nx, nt = info["shape"]
                    ck.expect(u.size == nx * nt, "shape-entry", f"{name}", name)
                    x = np.linspace(*info["domain"]["x"], nx)
                    t = np.linspace(*info["domain"]["t"], nt)
                    if u.shape not in ((nx, nt), (nt, nx)):
                        u = u.reshape(nx, nt)
                else:
                    m = scipy.io.loadmat(os.path.join(root, info["file"]))
                    k = info.get("keys", {})
                    u, x, t = (m[k.get(a, d)] for a, d in (("u_key", "usol"), ("x_key", "x"), ("t_key", "t")))
                x, t, u = np.ravel(x).astype(float), np.ravel(t).astype(float), np.real(u)
                want = u if u.shape == (len(x), len(t)) else u.T
                ck.expect(np.array_equal(ds.x, x) and np.array_equal(ds.t, t), "coordinates", name, name)
                ck.expect(ds.usol.shape == want.shape and np.array_equal(ds.usol, want), "field",
                          f"{name}: {ds.usol.shape}", name)
                ck.expect(np.array_equal(ds.u, ds.usol), "u-alias", name)
                ck.expect(np.all(np.isfinite(ds.usol)) and np.all(np.diff(ds.x) > 0) and np.all(np.diff(ds.t) > 0),
                          "axes-increase", name, name)
                ck.expect(ds.registry_name == name and ds.equation_name == name, "tags", f"{ds.registry_name}", name)
                al = info.get("aliases") or {}
                ck.expect(ds.aliases == al and ds.legacy_name == al.get("legacy", name), "aliases",
                          f"{ds.aliases} {ds.legacy_name}", name)
                ck.expect(ds.get_domain() == info.get("domain") or (ds.get_domain() is None and not info.get("domain")),
                          "domain", f"{ds.get_domain()}", name)
                ck.expect(ds.epi == kw.get("epi", 1e-3), "epi", f"{ds.epi}", name)
                ds.usol[...] = 0
                ds.x[...] = 0
                again = D.load_pde(name)
                ck.expect(np.array_equal(again.usol, want) and np.array_equal(again.x, x), "second-load",
                          f"{name}: changing one loaded dataset changes the next", name)
                ck.trace()
            ck.expect(keep == D.PDE_REGISTRY, "registry-changed", name, name)
            sym = D.get_dataset_sym_true(name)
            ck.expect(sym == info.get("sym_true"), "sym_true", f"{name}: {sym}", name)
            if sym:
                ck.expect(complete_prefix(sym.split(",")), "sym_true-expression", f"{name}: {sym}", name)
    # the leading coefficient check: the stored field satisfies the advertised axis roles
    bad = set(D.PDE_REGISTRY) - set(names)
    for name in names:
        bad |= {n for n in near_misses(name) if n not in D.PDE_REGISTRY}
    for name in sorted(bad):
        for f in (D.load_pde, D.get_dataset_info, D.get_dataset_sym_true):
            if name in D.PDE_REGISTRY and f is not D.load_pde:
                continue
            ck.step()
            ck.visit((name, f.__name__))
            try:
                got = f(name)
            except BAD as e:
                ck.expect(not name or name in str(e), "refusal-names-it", f"{f.__name__}({name!r}): {e}", name)
                continue
            ck.fail("unknown-accepted", f"{f.__name__}({name!r}) -> {got!r}", name)
    for bad in (None, 3):
        try:
            D.load_pde(bad)
            ck.fail("unknown-accepted", f"load_pde({bad!r})")
        except BAD:
            ck.step()
    # tabular data sets
    for name, cols in (("tlc_cc_t1", 0), ("tlc_cc_t2", 0)):
        with ck.case("regression-" + name):
            X, y, meta = D.load_regression(name)
            raw = np.load(os.path.join(root, name.replace("tlc_cc", "tlc_cc_Rf") + ".npy"))
            ck.expect(np.array_equal(X, raw[:, [0, 1]]) and np.array_equal(y, raw[:, 2])
                      and meta["var_names"] == ["R_F", "r"] and len(y) == len(X), "regression", name)
            ck.step()
            meta["var_names"] is None
    for name in ("", "tlc", "TLC_CC_T1", "tlc_cc_t3"):
        try:
            D.load_regression(name)
            ck.fail("regression-unknown", name)
        except BAD as e:
            ck.expect(name in str(e), "refusal-names-it", f"{e}")
            ck.step()
    for f, file, keys in ((D.load_burgers_equation, "burgers2.mat", ("x", "t", "usol")),
                          (D.load_kdv_equation, "KdV_equation.mat", ("x", "tt", "uu"))):
        with ck.case("deprecated-" + f.__name__):
            m = scipy.io.loadmat(os.path.join(root, file))
            ds = f()
            ck.step()
            ck.expect(np.array_equal(ds.x, m[keys[0]].ravel()) and np.array_equal(ds.t, m[keys[1]].ravel())
                      and np.array_equal(ds.usol, np.real(m[keys[2]])), "deprecated", f.__name__)
    ck.end_part()


def complete_prefix(tokens):
    from kd.dataset import _registry  # noqa: F401
    ar = {"add": 2, "mul": 2, "sub": 2, "div": 2, "diff": 2, "diff2": 2, "diff3": 2, "diff4": 2, "n2": 1, "n3": 1,
          "n4": 1, "sin": 1, "cos": 1, "exp": 1, "log": 1}
    need = 1
    for t in tokens:
        if need == 0:
            return False
        need += ar.get(t, 0) - 1
    return need == 0


# ------------------------------------------------------------------ loader on written files
def enc(nx, nt):
    """u[i, j] identifies (i, j)."""
    return (np.arange(nx)[:, None] * 10 + np.arange(nt)[None, :] + 0.5) * 1.0


LAY = {"flat": lambda c: c, "col": lambda c: c.reshape(-1, 1), "row": lambda c: c.reshape(1, -1)}


def loading_part(ck: Check):
    import scipy.io
    import kd.dataset as D
    from kd.runner import load_dataset
    ck.part("loading")
    scratch = tempfile.mkdtemp()
    pkg = "mc_scratch_data"
    os.makedirs(os.path.join(scratch, pkg))
    open(os.path.join(scratch, pkg, "__init__.py"), "w").close()
    sys.path.insert(0, scratch)
    d = os.path.join(scratch, pkg)
    top = 5 if ck.thorough else 4
    saved = dict(D.PDE_REGISTRY)
    real_files = D.resources.files
    import kd.dataset._base as B

    class Res:
        """Stands in for importlib.resources: the data directory is the scratch one."""
        def __getattr__(self, a):
            return getattr(real_mod, a)

        def files(self, pkgname):
            return real_files(pkg if "data" in pkgname else pkgname)
    real_mod = D.resources
    try:
        n = 0
        for nx, nt in itertools.product(range(1, top + 1), repeat=2):
            u = enc(nx, nt)
            x, t = np.linspace(2, 3, nx), np.linspace(-1, 4, nt)
            forms = {"(x,t)": u, "(t,x)": u.T, "extra": np.vstack([u, u[:1]]), "flat": u.ravel(),
                     "complex": u + 3j, "complex(t,x)": u.T - 1j}
            for form, lx, lt in itertools.product(forms, LAY, LAY):
                good = form != "extra" and (form != "flat" or 1 in (nx, nt))   # a .mat vector is a row
                if form == "extra" and (nt, nx) == forms[form].shape:
                    continue
                if form in ("(t,x)", "complex(t,x)") and nx == nt:
                    want = u.T         # a square field can only be taken as it is stored
                else:
                    want = u
                n += 1
                file = f"f{n}.mat"
                scipy.io.savemat(os.path.join(d, file), {"xx": LAY[lx](x), "tt": LAY[lt](t), "uu": forms[form],
                                                         "x": x + 50, "t": t + 50, "usol": u + 50})
                rep = [nx, nt, form, lx, lt]
                ways = {
                    "load_pde_dataset": lambda: D.load_pde_dataset(file, "e", "xx", "tt", "uu", domain={"x": (0, 1)},
                                                                   epi=.25, data_dir_module=pkg),
                    "runner": lambda: load_dataset({"dataset_file": os.path.join(d, file), "dataset_name": "kdv",
                                                    "file_config": {"x_key": "xx", "t_key": "tt", "u_key": "uu"}}),
                }
                if (lx, lt) == ("flat", "col"):
                    def by_name():
                        D.PDE_REGISTRY["mc-new"] = {"file": file, "keys": {"x_key": "xx", "t_key": "tt",
                                                                           "u_key": "uu"}, "status": "active"}
                        old = B.resources
                        B.resources = Res()
                        try:
                            ck.expect("mc-new" in D.list_available_datasets(), "new-not-listed", "mc-new")
                            return D.load_pde("mc-new")
                        finally:
                            B.resources = old
                            D.PDE_REGISTRY.pop("mc-new", None)
                    ways["load_pde"] = by_name
                for way, f in ways.items():
                    with ck.case(f"{way}", replay=rep):
                        ck.step()
                        ck.visit((way, *map(str, rep)))
                        try:
                            ds = f()
                        except BAD as e:
                            ck.expect(not good, way + "-refused", f"{type(e).__name__} {e} {rep}", rep)
                            continue
                        if ds is None:
                            ck.expect(not good and way == "load_pde_dataset", way + "-none", f"{rep}", rep)
                            continue
                        if not ck.expect(good, way + "-accepted", f"{rep}", rep):
                            continue
                        ck.expect(np.array_equal(ds.x, x) and np.array_equal(ds.t, t), way + "-coordinates",
                                  f"{rep}", rep)
                        ck.expect(ds.usol.shape == (nx, nt) and np.array_equal(ds.usol, want), way + "-orientation",
                                  f"{rep}: {ds.usol.tolist()}", rep)
                        ck.trace()
                os.unlink(os.path.join(d, file))
            # single npy and bundle entries
            for form in ("(x,t)", "(t,x)", "flat", "cube"):
                raw = {"(x,t)": u, "(t,x)": u.T, "flat": u.ravel(), "cube": u.reshape(nx, nt, 1)}[form]
                np.save(os.path.join(d, "single.npy"), raw)
                np.save(os.path.join(d, "bu.npy"), raw)
                np.save(os.path.join(d, "bx.npy"), LAY["col"](x))
                np.save(os.path.join(d, "bt.npy"), LAY["row"](t))
                want = u.T if (form == "(t,x)" and nx == nt) else u
                entries = {"single": {"file": "single.npy", "shape": (nx, nt), "domain": {"x": (2, 3), "t": (-1, 4)}},
                           "single-list": {"file": "single.npy", "shape": [nx, nt],
                                           "domain": {"x": (2, 3), "t": (-1, 4)}},
                           "bundle": {"files": {"u": "bu.npy", "x": "bx.npy", "t": "bt.npy"}, "domain": None}}
                for kind, entry in entries.items():
                    good = kind != "bundle" or form in ("(x,t)", "(t,x)")
                    rep = [nx, nt, form, kind]
                    with ck.case(kind, replay=rep):
                        ck.step()
                        ck.visit((kind, *map(str, rep)))
                        D.PDE_REGISTRY["mc-new"] = {**entry, "status": "active"}
                        D.resources = Res()
                        try:
                            ds = D.load_pde("mc-new")
                        except BAD as e:
                            ck.expect(not good, kind + "-refused", f"{type(e).__name__} {e} {rep}", rep)
                            continue
                        finally:
                            D.resources = real_mod
                            D.PDE_REGISTRY.pop("mc-new", None)
                        ck.expect(good and np.allclose(ds.x, x) and np.allclose(ds.t, t), kind + "-coordinates",
                                  f"{rep} {ds.x} {ds.t}", rep)
                        ck.expect(ds.usol.shape == (nx, nt) and np.array_equal(ds.usol, want), kind + "-orientation",
                                  f"{rep}: {ds.usol.tolist()}", rep)
                        ck.trace()
                if form in ("(x,t)", "flat"):
                    for dom in (None, {"x": (2, 3), "t": (-1, 4)}, {"x": (2, 3)}, {"t": (-1, 4)}, {}):
                        for shape in ([nx, nt], None, [nx, nt + 1]):
                            cfg = {"dataset_file": os.path.join(d, "single.npy"), "file_config": {}}
                            if dom is not None:
                                cfg["file_config"]["domain"] = dom
                            if shape is not None:
                                cfg["file_config"]["shape"] = shape
                            rep = [nx, nt, form, str(dom), shape]
                            keep = copy.deepcopy(cfg)
                            with ck.case("runner-npy", replay=rep):
                                ck.step()
                                ck.visit(("runner-npy", str(rep)))
                                try:
                                    ds = load_dataset(cfg)
                                except BAD:
                                    ck.expect(shape != [nx, nt], "runner-npy-refused", f"{rep}", rep)
                                    continue
                                ex = np.linspace(*((dom or {}).get("x", (0, 1))), nx)
                                et = np.linspace(*((dom or {}).get("t", (0, 1))), nt)
                                ck.expect(shape == [nx, nt] and np.array_equal(ds.usol, u) and np.allclose(ds.x, ex)
                                          and np.allclose(ds.t, et), "runner-npy", f"{rep}", rep)
                                ck.expect(cfg == keep, "runner-config-changed", f"{rep}", rep)
        # unusable requests
        bad = os.path.join(d, "x.txt")
        open(bad, "w").write("1 2 3")
        np.savez(os.path.join(d, "z.npz"), u=u)
        for cfg in ({}, {"dataset_name": None}, {"dataset_name": ""}, {"dataset_file": bad},
                    {"dataset_file": os.path.join(d, "missing.mat")}, {"dataset_file": os.path.join(d, "z.npz")},
                    {"dataset_name": "nope"}):
            ck.step()
            try:
                got = load_dataset(cfg)
                ck.fail("runner-unusable", f"{cfg} -> {got!r}", str(cfg))
            except BAD:
                ck.visit(str(cfg))
        for kw in ({"filename": "missing.mat"}, {"filename": "x.txt"}):
            ck.step()
            try:
                got = D.load_pde_dataset(**kw, data_dir_module=pkg)
                ck.expect(got is None, "unusable-file", f"{kw} -> {got!r}")
            except BAD:
                pass
    finally:
        D.resources = real_mod
        D.PDE_REGISTRY.clear()
        D.PDE_REGISTRY.update(saved)
        sys.path.remove(scratch)
        shutil.rmtree(scratch, ignore_errors=True)
    ck.end_part()


# ------------------------------------------------------------------ metadata
def info_part(ck: Check, prefix):
    from kd.dataset._info import DatasetInfo
    fields = [f.name for f in dataclasses.fields(DatasetInfo)]
    ops = info_ops()
    depth = (5 if ck.thorough else 4) - len(prefix)
    for tail in itertools.product(ops, repeat=depth):
        word = list(prefix) + list(tail)
        with ck.case("info", replay=str(word)):
            d = DatasetInfo(description="d0", keywords=["k"])
            ref = {f: "" for f in fields}
            ref.update(description="d0", keywords=["k"])
            frozen = []
            for op, arg in word:
                ck.step()
                if op == "update":
                    keep = copy.deepcopy(arg)
                    bad = any(k not in fields for k in arg)
                    try:
                        d.update(**arg)
                        ck.expect(not bad, "update-unknown-accepted", f"{arg}", str(word))
                    except AttributeError:
                        ck.expect(bad, "update-refused", f"{arg}", str(word))
                    if not bad:
                        ref.update(copy.deepcopy(arg))
                    ck.expect(arg == keep, "update-changes-argument", f"{arg}")
                elif op == "copy":
                    c = d.copy()
                    ck.expect(c == d and c is not d, "copy-differs", f"{word}", str(word))
                    frozen.append((d, copy.deepcopy(ref)))
                    d = c
                elif op == "append":
                    if isinstance(d.keywords, list):
                        d.keywords.append(arg)
                        ref["keywords"] = ref["keywords"] + [arg]
                elif op == "dict":
                    t = d.to_dict()
                    ck.expect(t == ref, "to_dict", f"{t} != {ref}", str(word))
                    t["description"] = "changed"
                    if isinstance(t["keywords"], list):
                        t["keywords"].append("changed")
                elif op == "rebuild":
                    t = {**d.to_dict(), "unknown": 3}
                    keep = copy.deepcopy(t)
                    d = DatasetInfo.from_dict(t)
                    ck.expect(t == keep, "from_dict-changes-argument", f"{t}")
                    if isinstance(ref["keywords"], str):
                        ref["keywords"] = [k.strip() for k in ref["keywords"].split(",")]
                    elif ref["keywords"] is None:
                        ref["keywords"] = []
                elif op == "new":
                    d = DatasetInfo(**copy.deepcopy(arg))
                    ref = {f: "" for f in fields}
                    ref["keywords"] = []
                    ref.update(copy.deepcopy(arg))
                    if isinstance(ref["keywords"], str):
                        ref["keywords"] = [k.strip() for k in ref["keywords"].split(",")]
                    elif ref["keywords"] is None:
                        ref["keywords"] = []
                now = {f: getattr(d, f) for f in fields}
                ck.expect(now == ref, "info-state", lambda: f"{now} != {ref} after {word}", str(word))
                ck.expect(all(str(v) in repr(d) for v in now.values()), "info-repr", f"{word}")
                other = DatasetInfo.from_dict({**now, "author": "someone else"})
                ck.expect((other == d) == (other.to_dict() == now) and (d == "x") is False, "info-equality", f"{word}")
            for o, r in frozen:
                now = {f: getattr(o, f) for f in fields}
                ck.expect(now == r, "copy-shares", f"{now} != {r} after {word}", str(word))
            ck.visit(str(word))
            ck.trace()


def info_ops():
    return [("update", {"description": "d1"}), ("update", {"keywords": ["a", "b"]}), ("update", {"nope": 1}),
            ("update", {"description": "d2", "nope": 1}), ("update", {"nope": 1, "description": "d3"}),
            ("update", {"author": None, "version": "2"}), ("update", {}), ("copy", None), ("append", "z"),
            ("dict", None), ("rebuild", None), ("new", {"keywords": "p, q ,r", "author": "me"}),
            ("new", {"keywords": None}), ("new", {})]


# ------------------------------------------------------------------ readers
def files_part(ck: Check):
    import scipy.io
    from kd.dataset._base import PDEDataLoader, load_csv_data, load_mat_file, load_numpy_data
    ck.part("files")
    scratch = tempfile.mkdtemp()
    try:
        for r, c in itertools.product((1, 2, 3), repeat=2):
            a = np.arange(r * c, dtype=float).reshape(r, c) + 0.5
            for head in (True, False):
                with ck.case("csv", replay=[r, c, head]):
                    p = os.path.join(scratch, f"t{r}{c}{int(head)}.csv")
                    with open(p, "w") as f:
                        if head:
                            f.write(",".join("c%d" % i for i in range(c)) + "\n")
                        for row in a:
                            f.write(",".join(map(str, row)) + "\n")
                    got = load_csv_data(p, has_header=head)
                    ck.step()
                    ck.expect(got.shape == (r, c) and np.array_equal(got, a), "csv", f"{got}", [r, c, head])
                    if head:
                        g2 = PDEDataLoader(scratch).load_data(equation_name=f"t{r}{c}1")
                        g3 = PDEDataLoader("/nowhere").load_data(file=p)
                        ck.expect(np.array_equal(g2, a) and np.array_equal(g3, a), "loader-csv", "", [r, c])
                    ck.visit((r, c, head))
            with ck.case("binary", replay=[r, c]):
                np.save(os.path.join(scratch, f"n{r}{c}.npy"), a)
                np.savez(os.path.join(scratch, f"z{r}{c}.npz"), a=a, b=a + 1)
                scipy.io.savemat(os.path.join(scratch, f"m{r}{c}.mat"), {"a": a, "b_": a + 1})
                L = PDEDataLoader(scratch)
                ck.expect(np.array_equal(load_numpy_data(os.path.join(scratch, f"n{r}{c}.npy")), a), "npy", "")
                z = L.load_data(equation_name=f"z{r}{c}")
                ck.expect(sorted(z.keys()) == ["a", "b"] and np.array_equal(z["b"], a + 1), "npz", "")
                m = load_mat_file(os.path.join(scratch, f"m{r}{c}.mat"))
                ck.expect(set(m) == {"a", "b_"} and np.array_equal(m["a"], a), "mat", f"{set(m)}")
                ck.expect(np.array_equal(L.load_data(equation_name=f"n{r}{c}"), a)
                          and set(L.load_data(file=os.path.join(scratch, f"m{r}{c}.mat"))) == {"a", "b_"}, "loader", "")
                ck.step(5)
        # an earlier file format of the same name wins in the documented order
        for name, exts in itertools.product(("eq", "eq.v2", "eq.csv", "an eq"), itertools.chain.from_iterable(
                itertools.combinations((".csv", ".mat", ".npy", ".npz"), k) for k in range(5))):
            sub = tempfile.mkdtemp(dir=scratch)
            if name != "eq":
                for e in (".npy", ".csv"):      # files of another equation
                    with open(os.path.join(sub, ("eq" if name != "eq.csv" else "eq.v2") + e), "w") as f:
                        f.write("h\n-1\n")
            for e in exts:
                p = os.path.join(sub, name + e)
                if e == ".csv":
                    open(p, "w").write("h\n1\n")
                elif e == ".mat":
                    scipy.io.savemat(p, {"v": 2.0})
                elif e == ".npy":
                    np.save(p, np.array(3.0))
                else:
                    np.savez(p, v=4.0)
            ck.step()
            try:
                got = PDEDataLoader(sub).load_data(equation_name=name)
                first = exts[0] if exts else None
                ok = {".csv": lambda: float(np.ravel(got)[0]) == 1, ".mat": lambda: float(np.ravel(got["v"])[0]) == 2,
                      ".npy": lambda: float(got) == 3, ".npz": lambda: float(got["v"]) == 4}
                ck.expect(first is not None and ok[first](), "format-order", f"{name}: {exts}", exts)
            except FileNotFoundError as e:
                ck.expect(not exts and name in str(e), "missing-file", f"{name}: {exts}: {e}", exts)
            ck.visit((name, exts))
        p = os.path.join(scratch, "n11.txt")
        open(p, "w").write("1")
        for kw in ({}, {"equation_name": "absent"}, {"file": os.path.join(scratch, "absent.csv")}, {"file": p}):
            ck.step()
            try:
                got = PDEDataLoader(scratch).load_data(**kw)
                ck.fail("loader-unusable", f"{kw} -> {got}", str(kw))
            except (ValueError, FileNotFoundError):
                ck.visit(str(kw))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    ck.end_part()


def bundled_part(ck: Check):
    """The handler of the bundled grids: every listed name, loaded once or twice, in any order."""
    try:
        from kd.data import RegularData, data_list
    except ImportError:
        return
    import pathlib
    import scipy.io as scio
    import kd
    root = pathlib.Path(kd.__file__).parent
    ck.part("bundled grids")

    def reference(name):
        if name == "chafee-infante":
            d = root / "data_file"
            return (np.load(d / "chafee_infante_CI.npy"), np.load(d / "chafee_infante_x.npy").ravel(),
                    np.load(d / "chafee_infante_t.npy").ravel())
        f, u, t = {"Burgers": (root / "data_file" / "burgers.mat", "usol", "t"),
                   "Kdv": (root / "model/discover/task/pde/data_new/Kdv.mat", "uu", "tt")}[name]
        m = scio.loadmat(f)
        return m[u], m["x"].ravel(), m[t].ravel()
    known = [n for n in data_list if n in ("chafee-infante", "Burgers", "Kdv")]
    for seq in [s for n in (1, 2) for s in itertools.product(known, repeat=n)]:
        rep = {"loads": list(seq)}
        ck.visit(seq)
        with ck.case("load:" + seq[-1], rep):
            if len(seq) == 2 and seq[0] == seq[1]:
                handler = RegularData(seq[0])
                handler.load_data()
                handler.load_data()
            else:
                for n in seq:
                    handler = RegularData(n)
                    handler.load_data()
            d = handler.get_data()
            u, x, t = reference(seq[-1])
            ck.step(len(seq))
            ck.expect(np.array_equal(d["u"], u), "field:" + seq[-1], "the field is not the stored one", rep)
            ck.expect(len(d["X"]) == 1 and np.array_equal(np.ravel(d["X"][0]), x), "coordinate:" + seq[-1],
                      f"{len(d['X'])} coordinates", rep)
            want = np.empty(u.shape)
            dt = t[1] - t[0]
            want[:, 1:-1] = (u[:, 2:] - u[:, :-2]) / (2 * dt)
            want[:, 0] = (-3 * u[:, 0] / 2 + 2 * u[:, 1] - u[:, 2] / 2) / dt
            want[:, -1] = (3 * u[:, -1] / 2 - 2 * u[:, -2] + u[:, -3] / 2) / dt
            ck.expect(np.shape(d["ut"]) == u.shape and np.allclose(d["ut"], want, rtol=1e-9, atol=1e-9),
                      "time derivative:" + seq[-1], "", rep)
            ck.trace()
    for bad in ("", "burgers", "KdV", "Burgers ", "unknown"):
        if bad in data_list:
            continue
        with ck.case("unknown:" + bad, {"name": bad}):
            try:
                RegularData(bad)
                ck.fail("unknown name accepted", bad, {"name": bad})
            except Exception:  # noqa: BLE001
                pass
            ck.step()
    ck.end_part()


def run(ck: Check):
    with quiet():
        bundled_part(ck)
        import kd.runner  # noqa: F401
        registry_part(ck)
        loading_part(ck)
        ck.part("info")
        ck.pool(info_part, sorted([(o,) for o in info_ops()], key=lambda i: h(str(i))))
        ck.end_part()
        files_part(ck)
