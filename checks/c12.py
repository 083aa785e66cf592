"""C12: the job client, the web callbacks and the command runner under every placement of faults."""
import contextlib
import importlib.util
import io
import itertools
import json
import os
import pathlib
import shutil
import sys
import tempfile
import types
from types import SimpleNamespace
from unittest import mock

try:
    import triton._C.libtriton  # noqa: F401  (must be loaded before TensorFlow)
except Exception:  # noqa: BLE001
    pass
import numpy as np

from mc.core import quiet

os.environ.setdefault("TQDM_DISABLE", "1")
REPO = os.environ.get("KD_REPO", "/repo")


class Fault(Exception):
    """What the remote service answers when it fails."""


# ------------------------------------------------------------------ the remote service
class Service:
    """A stand-in for the platform: one scripted answer per remote call, every call recorded."""

    def __init__(self, **script):
        self.script, self.calls, self.uploads = script, [], []

    def answer(self, step, default):
        self.calls.append(step)
        a = self.script.get(step, default)
        if isinstance(a, Exception):
            raise a
        return a

    def client(self, access_key=None, app_key=None, **kw):
        self.answer("client", None)
        self.keys = (access_key, app_key)
        return SimpleNamespace(
            user=SimpleNamespace(list_project=lambda *a, **k: self.answer("projects", {"data": {"items": [{"project_id": 7}, {"project_id": 8}]}})),
            app=SimpleNamespace(job=SimpleNamespace(submit=self.submit, detail=self.detail)),
            web=SimpleNamespace(sub_model=SimpleNamespace(download=self.download)))

    def submit(self, **kw):
        self.request = kw
        self.uploads = []
        for item in kw.get("upload_files", []):
            path = pathlib.Path(item.src)
            self.uploads.append((item.input_field, path.read_bytes() if path.exists() else None))
        return self.answer("submit", {"code": 0, "data": {"jobId": 42}})

    def detail(self, job_id, *a, **k):
        self.asked = job_id
        return self.answer("detail", {"data": {"status": 1}})

    def download(self, job_id, remote_target=None, save_path=None, **kw):
        self.asked = job_id
        files = self.answer("download", {})
        for name, content in files.items():
            if isinstance(content, Exception):
                raise content
            p = pathlib.Path(save_path) / name
            p.parent.mkdir(parents=True, exist_ok=True)
            p.write_text(content)


@contextlib.contextmanager
def stand_in(name, module):
    old = sys.modules.get(name)
    sys.modules[name] = module
    try:
        yield
    finally:
        if old is None:
            sys.modules.pop(name, None)
        else:
            sys.modules[name] = old


@contextlib.contextmanager
def platform(service):
    sdk = types.ModuleType("bohrium_open_sdk")
    sdk.OpenSDK = service.client
    sdk.UploadInputItem = lambda input_field=None, src=None, **kw: SimpleNamespace(input_field=input_field, src=src)
    with stand_in("bohrium_open_sdk", sdk):
        yield


@contextlib.contextmanager
def scratch():
    old, cwd = tempfile.tempdir, os.getcwd()
    d = tempfile.mkdtemp(prefix="c12-")
    tmp = os.path.join(d, "tmp")
    os.mkdir(tmp)
    tempfile.tempdir = tmp
    os.chdir(d)
    try:
        yield pathlib.Path(d), pathlib.Path(tmp)
    finally:
        tempfile.tempdir = old
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)


def cookie(text):
    return SimpleNamespace(headers={} if text is None else {"cookie": text})


GOOD = cookie("a=b; appAccessKey=AK; clientName=CN")
COOKIES = {"ok": GOOD, "none": cookie(None), "empty": cookie(""), "no-key": cookie("clientName=CN"), "no-name": cookie("appAccessKey=AK")}


def tree(d):
    return {str(p.relative_to(d)): p.read_bytes() for p in sorted(pathlib.Path(d).rglob("*")) if p.is_file()}


def attempt(fn, *a, **k):
    """(value, error)"""
    try:
        return fn(*a, **k), None
    except Exception as e:  # noqa: BLE001
        return None, e


# ------------------------------------------------------------------ submission
PROJECTS = {"two": ({"data": {"items": [{"project_id": 7}, {"project_id": 8}]}}, 7),
            "one": ({"data": {"items": [{"project_id": 9}]}}, 9),
            "raise": (Fault("projects"), None), "empty": ({"data": {"items": []}}, None),
            "no-data": ({}, None), "null": ({"data": None}, None), "no-id": ({"data": {"items": [{}]}}, None)}
SUBMITS = {"ok": ({"code": 0, "data": {"jobId": 42}}, 42), "raise": (Fault("submit"), None), "no-data": ({"code": 1, "message": "quota"}, None),
           "null": ({"data": None}, None), "no-id": ({"data": {}}, None), "null-id": ({"data": {"jobId": None}}, None), "nothing": (None, None)}
PARAMS = {"plain": {"epi": 0.1, "operators": "u,u_x", "sample": None}, "empty": {}, "text": {"operators": "é,μ", "n": [1, 2]},
          "bad": {"x": {1, 2}}}


def part_submit(ck):
    from kd import job
    ck.part("submit")
    space = list(itertools.product(COOKIES, ("ok", "raise"), ("given", "setting", *PROJECTS), SUBMITS, PARAMS,
                                   ("none", "there", "missing"), ("burgers", None)))

    def one(ck, cfg):
        ck_, ctor, proj, sub, par, file, name = cfg
        rep = dict(zip(("cookies", "client", "project", "submit", "params", "file", "dataset"), cfg))
        ck.visit(cfg)
        svc = Service(client=Fault("client") if ctor == "raise" else None, submit=SUBMITS[sub][0],
                      **({"projects": PROJECTS[proj][0]} if proj in PROJECTS else {}))
        with scratch() as (d, tmp), platform(svc), ck.case("submit", rep), mock.patch.object(job, "KD_GPU_PROJECT_ID", 5 if proj == "setting" else 0):
            (d / "mine.npy").write_bytes(b"user data")
            path = {"none": None, "there": str(d / "mine.npy"), "missing": str(d / "gone.npy")}[file]
            params = json.loads(json.dumps(PARAMS[par])) if par != "bad" else {"x": {1, 2}}
            before = tree(d)
            given = repr(params)
            pid = {"given": 3, "setting": 5}.get(proj) or PROJECTS.get(proj, (None, None))[1]
            got, err = attempt(job.submit_gpu_job, "dlga", name, params, COOKIES[ck_], project_id=3 if proj == "given" else None, dataset_file=path)
            ck.step()
            possible = ck_ == "ok" and ctor == "ok" and pid is not None and par != "bad" and file != "missing"
            good = possible and SUBMITS[sub][1] is not None
            ck.outcome((good, type(err).__name__, tuple(svc.calls)))
            if good:
                ck.trace()
                ck.expect(err is None and got == 42, "submit:fails", f"{rep}: {got} {err!r}", rep)
            else:
                ck.expect(err is not None, "submit:claims-success", f"{rep}: returned {got!r}", rep)
            ck.expect(svc.calls.count("submit") == (1 if possible else 0), "submit:sent", f"{rep}: {svc.calls}", rep)
            if "submit" in svc.calls:
                ck.expect(svc.keys == ("AK", "CN"), "submit:credentials", f"{rep}: {svc.keys}", rep)
                ck.expect(svc.request.get("project_id") == pid, "submit:project", f"{rep}: {svc.request.get('project_id')} != {pid}", rep)
                ck.expect(svc.request.get("app_key") == job.KD_GPU_APP_KEY and svc.request.get("sub_model_name") == job.KD_GPU_SUB_MODEL,
                          "submit:target", f"{rep}: {svc.request}", rep)
                up = dict(svc.uploads)
                conf = json.loads(up["config"]) if up.get("config") else None
                ck.expect(conf is not None and conf.get("model") == "dlga" and conf.get("params") == PARAMS[par]
                          and conf.get("dataset_name") == name, "submit:config", f"{rep}: uploaded {conf}", rep)
                ck.expect(up.get("dataset_file") == (b"user data" if file == "there" else None), "submit:file", f"{rep}: {up.get('dataset_file')}", rep)
                ck.expect(set(up) <= set(svc.request.get("inputs", {})), "submit:inputs", f"{rep}: {svc.request}", rep)
            ck.expect(tree(d) == before, "submit:files", f"{rep}: files {sorted(tree(d))} were {sorted(before)}", rep)
            ck.expect(repr(params) == given, "submit:params-changed", f"{rep}: {params}", rep)

    ck.pool(one, space)


# ------------------------------------------------------------------ status
def part_status(ck):
    from kd import job
    ck.part("status")
    codes = [*range(-2, 16), 99, None, "10"]
    for code, when in itertools.product(codes, ("", "3 min")):
        rep = {"status": code, "spend": when}
        svc = Service(detail={"data": {"status": code, **({"spendTime": when} if when else {})}})
        ck.visit((code, when))
        with platform(svc), ck.case("status", rep):
            got = job.check_job(42, GOOD)
            ck.step()
            ck.trace()
            ck.expect(svc.asked == 42 and svc.keys == ("AK", "CN"), "status:asked", f"{rep}", rep)
            ck.expect(got["status_code"] == code and got["spend_time"] == when, "status:values", f"{rep}: {got}", rep)
            ck.expect(bool(got["finished"]) == (code in (10, 11)) and bool(got["failed"]) == (code in (12, 13)), "status:verdict", f"{rep}: {got}", rep)
            known = isinstance(code, int) and 0 <= code <= 13
            ck.expect(("Unknown" in got["status_text"]) == (not known), "status:text", f"{rep}: {got}", rep)
            if known:
                ck.expect(got["finished"] == (got["status_text"] == "Finished") and got["failed"] == (got["status_text"] in ("Failed", "Error")),
                          "status:contradiction", f"{rep}: {got}", rep)
    for name, answer in {"raise": Fault("detail"), "no-data": {}, "null": {"data": None}, "no-status": {"data": {}}, "nothing": None}.items():
        for who, req in COOKIES.items():
            rep = {"answer": name, "cookies": who}
            ck.visit((name, who))
            ck.step()
            with platform(Service(detail=answer)):
                got, err = attempt(job.check_job, 42, req)
            ck.expect(err is not None, "status:made-up", f"{rep}: {got}", rep)


# ------------------------------------------------------------------ download
def result(eq, status="success", **kw):
    return json.dumps({"equation": eq, "status": status, "elapsed_seconds": 1.5, **kw})


DOWNLOADS = {
    "A": {"result.json": result("eq A"), "a.txt": "a"}, "B": {"result.json": result("eq B"), "sub/b.txt": "b"},
    "failed": {"result.json": result("(error)", "error", error="boom")},
    "raise": Fault("download"), "partial": {"a.txt": "part", "x": Fault("lost")},
    "half": {"result.json": '{"equation": "eq A", "stat'}, "late": {"result.json": result("eq A"), "x": Fault("lost")},
    "none": {}, "other": {"a.txt": "only"}, "blank": {"result.json": ""},
}
GOOD_DOWNLOADS = {"A": "eq A", "B": "eq B"}


def part_download(ck):
    from kd import job
    ck.part("download")
    depth = 4 if ck.thorough else 3
    seqs = [s for n in range(1, depth + 1) for s in itertools.product(DOWNLOADS, repeat=n)]
    items = [(s, where) for s in seqs for where in ("given", "default")]

    def one(ck, it):
        seq, where = it
        with scratch() as (d, tmp), mock.patch.object(job, "JOB_OUTPUT_DIR", str(d / "out")):
            target = d / "out" / ("kd_42" if where == "default" else "chosen")
            target.mkdir(parents=True)
            (target / "notes.md").write_text("mine")
            (d / "out" / "kd_41").mkdir()
            (d / "out" / "kd_41" / "result.json").write_text(result("another job"))
            for n, what in enumerate(seq):
                rep = {"downloads": seq[:n + 1], "dir": where}
                ck.visit((seq[:n + 1], where))
                svc = Service(download=DOWNLOADS[what])
                with platform(svc), ck.case("download", rep):
                    got, err = attempt(job.download_result, 42, GOOD, **({"save_dir": str(target)} if where == "given" else {}))
                    ck.step()
                    if what in GOOD_DOWNLOADS:
                        ck.trace()
                        ok = ck.expect(err is None, "download:fails", f"{rep}: {err!r}", rep)
                        if ok:
                            res, at = got
                            ck.expect(res == json.loads(DOWNLOADS[what]["result.json"]), "download:result", f"{rep}: {res}", rep)
                            ck.expect(pathlib.Path(at).resolve() == target.resolve(), "download:where", f"{rep}: {at}", rep)
                            have = tree(target)
                            ck.expect(all(have.get(k) == v.encode() for k, v in DOWNLOADS[what].items()), "download:files", f"{rep}: {sorted(have)}", rep)
                    elif err is None:
                        res, at = got
                        ck.expect(isinstance(res, dict) and res.get("status") == "error" and not str(res.get("equation", "")).startswith("eq "),
                                  "download:claims-success", f"{rep}: {res}", rep)
                    ck.outcome((what, type(err).__name__))
                    have = tree(d)
                    ck.expect(have.get(f"out/{target.name}/notes.md") == b"mine", "download:user-file", f"{rep}: {sorted(have)}", rep)
                    ck.expect(json.loads(have.get("out/kd_41/result.json", b"{}")).get("equation") == "another job", "download:other-job", f"{rep}", rep)
                    ck.expect(len(os.listdir(tmp)) == 0 and all(x.is_file() or x.name == "sub" for x in target.iterdir()),
                              "download:left-behind", f"{rep}: {sorted(x.name for x in target.iterdir())}", rep)

    ck.pool(one, items)
    for who, req in COOKIES.items():
        if who == "ok":
            continue
        with scratch() as (d, _), platform(Service(download=DOWNLOADS["A"])):
            got, err = attempt(job.download_result, 42, req, save_dir=str(d / "o"))
            ck.visit(who)
            ck.step()
            ck.expect(err is not None, "download:credentials", f"cookies {who}: {got}", {"cookies": who})


# ------------------------------------------------------------------ the web callbacks
_APP = None


def load_app():
    """app.py with a stand-in for the user interface library."""
    global _APP
    if _APP is None:
        gr = types.ModuleType("gradio")
        gr.update = lambda **kw: dict(kw)
        gr.Request = object
        for n in ("Blocks", "State", "Markdown", "Tabs", "TabItem", "Row", "Column", "Dropdown", "Number", "Textbox", "Slider",
                  "Button", "Plot", "Group", "Radio", "themes", "Accordion", "Checkbox"):
            setattr(gr, n, mock.MagicMock())
        spec = importlib.util.spec_from_file_location("kd_app_under_check", os.path.join(REPO, "app.py"))
        mod = importlib.util.module_from_spec(spec)
        with stand_in("gradio", gr):
            spec.loader.exec_module(mod)
        _APP = mod
    return _APP


FORM = dict(sga_run=3, sga_num=4, sga_depth=2, sga_seed=1, dlga_ops="u, u_x,u_xx", dlga_epi=0.25, dlga_max_iter=17, dlga_sample=11,
            dscv_binary="add_t, mul_t ,diff_t", dscv_unary="n2_t", dscv_batch=23, dscv_epochs=4, dscv_seed=6, spr_sample_ratio=0.3, spr_epochs=2)
POLLS = {"pending": {"data": {"status": 0}}, "running": {"data": {"status": 4, "spendTime": "2s"}}, "unknown": {"data": {"status": 77}},
         "raise": Fault("detail"), "failed": {"data": {"status": 12}}, "error": {"data": {"status": 13}},
         "done+A": ({"data": {"status": 10}}, "A"), "done+failed": ({"data": {"status": 10}}, "failed"),
         "done+raise": ({"data": {"status": 11}}, "raise"), "done+none": ({"data": {"status": 11}}, "none"),
         "done+half": ({"data": {"status": 11}}, "half")}
KEEPS = {"pending", "running", "unknown", "raise", "done+raise", "done+half"}   # the job is still there afterwards


def part_app(ck):
    from kd import job
    ck.part("web session")
    app = load_app()
    if not all(hasattr(app, n) for n in ("run_training", "check_gpu_status")):
        ck.notes["web"] = "callbacks not found"
        return
    depth = 4 if ck.thorough else 3
    items = [(m, s, seq) for m in ("KD_DLGA", "KD_DSCV_SPR") for s in SUBMITS for n in range(1, depth + 1)
             for seq in itertools.product(POLLS, repeat=n) if s == "ok" or n == 1]

    def one(ck, it):
        model, sub, seq = it
        with scratch() as (d, _), mock.patch.object(job, "JOB_OUTPUT_DIR", str(d / "out")), mock.patch.object(job, "KD_GPU_PROJECT_ID", 1):
            svc = Service(submit=SUBMITS[sub][0])
            rep = {"model": model, "submit": sub, "polls": seq}
            with platform(svc), ck.case("web", rep):
                with quiet():
                    out = app.run_training("burgers", model, **FORM, request=GOOD)
                ck.step()
                ok = SUBMITS[sub][1] is not None
                held = out[4]
                ck.expect(held == (42 if ok else None), "web:job", f"{rep}: {out[4]!r} {out[0][:80]}", rep)
                ck.expect(("submitted" in out[0]) == ok and svc.calls.count("submit") == 1, "web:submit-message", f"{rep}: {out[0][:100]}", rep)
                gone = not ok
                for n, p in enumerate(seq):
                    rep = {"model": model, "submit": sub, "polls": seq[:n + 1]}
                    ck.visit((model, sub, seq[:n + 1]))
                    a = POLLS[p]
                    detail, dl = a if isinstance(a, tuple) else (a, None)
                    svc.script.update(detail=detail, **({"download": DOWNLOADS[dl]} if dl else {}))
                    before = len(svc.calls)
                    with quiet():
                        out = app.check_gpu_status(held, GOOD)
                    ck.step()
                    text, held2 = str(out[0]), out[4]
                    if gone:
                        ck.expect(len(svc.calls) == before and held2 is None and "eq A" not in text, "web:no-job", f"{rep}: {text[:80]}", rep)
                        continue
                    good = p == "done+A"
                    ck.trace()
                    ck.expect(("eq A" in text) == good, "web:result", f"{rep}: {text[:120]}", rep)
                    if not good:
                        ck.expect(p in ("pending", "running", "unknown") or "fail" in text.lower() or "not found" in text, "web:silent", f"{rep}: {text[:120]}", rep)
                        ck.expect(("still running" in text) == (p in ("pending", "running", "unknown")), "web:message", f"{rep}: {text[:120]}", rep)
                        ck.expect("Finished" not in str(out[5]), "web:claims-finished", f"{rep}: {out[5]}", rep)
                    ck.expect(held2 == (42 if p in KEEPS else None), "web:job-kept", f"{rep}: {held2!r} after {p}", rep)
                    ck.outcome((p, text[:20], held2))
                    held = held2
                    gone = held is None
            import matplotlib.pyplot as plt
            plt.close("all")

    ck.pool(one, items)


# ------------------------------------------------------------------ the runner
class Recorder:
    """Stands in for the estimators: records how they are built and fitted."""

    def __init__(self):
        self.built, self.fitted, self.fault, self.answer = [], [], None, "u_t = u*u_x"

    def classes(self):
        rec = self

        def make(name):
            class Model:
                def __init__(self, *a, **kw):
                    if rec.fault == "build":
                        raise Fault("build")
                    rec.built.append((name, a, kw))
                    self.eq_latex = None

                def fit_dataset(self, dataset, **kw):
                    if rec.fault == "fit":
                        raise Fault("fit")
                    rec.fitted.append((name, dataset, kw))
                    if rec.answer is None:
                        return None
                    self.eq_latex = rec.answer
                    return {"expression": rec.answer, "best_equation": rec.answer}

                def equation_latex(self):
                    return rec.answer
            Model.__name__ = name
            return Model
        return {n: make(n) for n in ("KD_DLGA", "KD_Discover_SPR", "KD_Discover", "KD_SGA")}

    @contextlib.contextmanager
    def installed(self):
        import kd.model
        from kd.model import kd_discover, kd_dlga, kd_sga
        cl = self.classes()
        with contextlib.ExitStack() as st:
            for mod in (kd_dlga, kd_discover, kd_sga, kd.model):
                for n, c in cl.items():
                    if hasattr(mod, n):
                        st.enter_context(mock.patch.object(mod, n, c))
            yield self


def run_main(config, out, path):
    """(exit code, result.json or None)"""
    from kd import runner
    if config is not None:
        path.write_text(config if isinstance(config, str) else json.dumps(config))
    argv = ["runner", "--config", str(path)] + ([] if out is None else ["--output_dir", str(out)])
    code = 0
    with mock.patch.object(sys, "argv", argv), contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        try:
            runner.main()
        except SystemExit as e:
            code = 0 if e.code is None else e.code if isinstance(e.code, int) else 1
        except Exception:  # noqa: BLE001
            code = 1
    return code


DLGA_OPTS = {"operators": ["u,u_x", ["u", "u_xx"], " u , u_x ,", None], "epi": [0.5, "0.5", None, "x"], "max_iter": [12, "12", None, "many"],
             "sample": [9, None, 0], "input_dim": [3, None]}
SPR_OPTS = {"binary_operators": ["add_t,mul_t", ["add_t"], None], "unary_operators": ["n2_t, n3_t", None], "n_samples_per_batch": [13, None, "b"],
            "seed": [4, None], "n_epochs": [3, None, "z"], "sample_ratio": [0.2, "0.2", None, "r"]}


def split(v):
    return [o.strip() for o in v.split(",") if o.strip()] if isinstance(v, str) else list(v)


def want_dlga(p):
    return {"operators": split(p.get("operators", "u,u_x,u_xx,u_xxx")), "epi": float(p.get("epi", 0.1)), "input_dim": int(p.get("input_dim", 2)),
            "max_iter": int(p.get("max_iter", 3000)), "sample": int(p["sample"]) if p.get("sample") else None}


def want_spr(p):
    return {"binary_operators": split(p.get("binary_operators", "add_t,mul_t,div_t,diff_t,diff2_t")), "unary_operators": split(p.get("unary_operators", "n2_t")),
            "n_samples_per_batch": int(p.get("n_samples_per_batch", 200)), "seed": int(p.get("seed", 0)),
            "n_epochs": int(p.get("n_epochs", 5)), "sample_ratio": float(p.get("sample_ratio", 0.1))}


RUN = {"dlga": ("KD_DLGA", want_dlga, DLGA_OPTS), "dscv_spr": ("KD_Discover_SPR", want_spr, SPR_OPTS)}


def combos(opts):
    names = list(opts)
    for vals in itertools.product(*(opts[n] for n in names)):
        yield {n: v for n, v in zip(names, vals) if v is not None or n == "sample"}


def judged(ck, key, rep, rec, runner_model, params, code, res):
    """The estimator was built and fitted exactly as the options name it."""
    cls, want, _ = RUN[runner_model]
    try:
        w = want(params)
    except ValueError:
        w = None
    if w is None:
        ck.expect(code != 0 and not rec.fitted, key + ":bad-accepted", f"{rep}: exit {code}, fitted {rec.fitted}", rep)
        ck.expect(res is not None and res.get("status") == "error" and "u_t" not in str(res.get("equation")), key + ":bad-result", f"{rep}: {res}", rep)
        return False
    ok = ck.expect(code == 0 and len(rec.built) == 1 and len(rec.fitted) == 1, key + ":run", f"{rep}: exit {code} {res and res.get('error')}", rep)
    if not ok:
        return False
    name, args, kw = rec.built[0]
    got = {**kw, **rec.fitted[0][2]}
    ck.expect(name == cls == rec.fitted[0][0] and not args, key + ":model", f"{rep}: {name}{args}", rep)
    ck.expect(all(k in got and got[k] == v and type(got[k]) is type(v) for k, v in w.items()), key + ":options",
              f"{rep}: built with {got}, asked for {w}", rep)
    return True


def part_runner_options(ck):
    ck.part("runner options")
    items = [(m, p) for m in RUN for p in combos(RUN[m][2])]

    def one(ck, it):
        m, p = it
        rep = {"model": m, "params": p}
        ck.visit((m, repr(p)))
        rec = Recorder()
        with scratch() as (d, _), rec.installed(), ck.case("options", rep):
            code = run_main({"model": m, "dataset_name": "burgers", "output_dir": "ignored", "params": p}, d / "o", d / "c.json")
            ck.step()
            f = d / "o" / "result.json"
            res = json.loads(f.read_text()) if f.exists() else None
            ck.expect(res is not None and res.get("params") == p and res.get("model") == m and res.get("dataset") == "burgers",
                      "options:result", f"{rep}: {res}", rep)
            if judged(ck, "options", rep, rec, m, p, code, res):
                ck.trace()
                ck.expect(res["status"] == "success" and res["equation"] == "u_t = u*u_x", "options:equation", f"{rep}: {res}", rep)
            ck.expect(not (d / "ignored").exists(), "options:directory", f"{rep}", rep)

    ck.pool(one, items)


def mats(d):
    """Files of the user with the data they hold: {name: (path, file_config, ok, nx, nt)}"""
    from scipy.io import savemat
    out = {}
    for nx, nt in ((5, 4), (4, 4), (3, 6)):
        x, t = np.linspace(-1, 2, nx), np.linspace(0, 3, nt)
        u = np.add.outer(10.0 * np.arange(nx), np.arange(nt))
        tag = f"{nx}x{nt}"
        for lay, arr in (("xt", u), ("tx", u.T)):
            if lay == "tx" and nx == nt:
                continue
            savemat(d / f"{tag}{lay}.mat", {"x": x, "t": t, "usol": arr})
            savemat(d / f"{tag}{lay}k.mat", {"xx": x, "tt": t, "w": arr, "x": x[:2], "t": t[:2], "usol": arr[:2, :2]})
            np.save(d / f"{tag}{lay}.npy", arr)
            out[f"mat:{tag}{lay}"] = (f"{tag}{lay}.mat", {}, True, x, t, u)
            out[f"mat-keys:{tag}{lay}"] = (f"{tag}{lay}k.mat", {"x_key": "xx", "t_key": "tt", "u_key": "w"}, True, x, t, u)
            out[f"mat-nokey:{tag}{lay}"] = (f"{tag}{lay}.mat", {"u_key": "nope"}, False, x, t, u)
            out[f"npy:{tag}{lay}"] = (f"{tag}{lay}.npy", {"shape": [nx, nt], "domain": {"x": [-1, 2], "t": [0, 3]}}, True, x, t, u)
            out[f"npy-unit:{tag}{lay}"] = (f"{tag}{lay}.npy", {"shape": [nx, nt]}, True, np.linspace(0, 1, nx), np.linspace(0, 1, nt), u)
            out[f"npy-x:{tag}{lay}"] = (f"{tag}{lay}.npy", {"shape": [nx, nt], "domain": {"x": [-1, 2]}}, True, x, np.linspace(0, 1, nt), u)
            out[f"npy-noshape:{tag}{lay}"] = (f"{tag}{lay}.npy", {}, False, x, t, u)
            out[f"npy-wrong:{tag}{lay}"] = (f"{tag}{lay}.npy", {"shape": [nx + 1, nt]}, False, x, t, u)
        np.save(d / f"{tag}flat.npy", u.ravel())
        out[f"npy-flat:{tag}"] = (f"{tag}flat.npy", {"shape": [nx, nt], "domain": {"x": [-1, 2], "t": [0, 3]}}, True, x, t, u)
        np.save(d / f"{tag}other.npy", u[:-1] if nx > nt else np.vstack([u, u]))
        out[f"npy-other:{tag}"] = (f"{tag}other.npy", {"shape": [nx, nt]}, False, x, t, u)
        if nx * nt == 20:
            np.save(d / f"{tag}fold.npy", u.reshape(2, 10))
            out[f"npy-fold:{tag}"] = (f"{tag}fold.npy", {"shape": [nx, nt]}, False, x, t, u)
    (d / "text.csv").write_text("1,2")
    (d / "broken.mat").write_text("not a matlab file")
    (d / "broken.npy").write_text("not an array")
    out["csv"] = ("text.csv", {}, False, None, None, None)
    out["broken-mat"] = ("broken.mat", {}, False, None, None, None)
    out["broken-npy"] = ("broken.npy", {"shape": [2, 2]}, False, None, None, None)
    out["missing-file"] = ("gone.mat", {}, False, None, None, None)
    return out


def values_of(ds):
    return np.asarray(ds.x, dtype=float).ravel(), np.asarray(ds.t, dtype=float).ravel(), np.asarray(ds.usol)


def part_runner_data(ck):
    ck.part("runner datasets")
    with scratch() as (d0, _):
        names = list(mats(d0))
    items = [(m, n, other) for m in RUN for n in names for other in (None, "burgers", "nosuch")]
    items += [(m, None, other) for m in RUN for other in ("burgers", "kdv", "nosuch", None, "")]

    def one(ck, it):
        m, n, other = it
        rep = {"model": m, "file": n, "dataset_name": other}
        ck.visit(it)
        rec = Recorder()
        with scratch() as (d, _), rec.installed(), ck.case("data", rep):
            conf = {"model": m, "params": {}}
            if other is not None:
                conf["dataset_name"] = other
            good, want = False, None
            if n is not None:
                f, fc, good, x, t, u = mats(d)[n]
                conf["dataset_file"] = str(d / f)
                if fc:
                    conf["file_config"] = fc
                want = (x, t, u)
            elif other in ("burgers", "kdv"):
                from kd.dataset import load_pde
                good, want = True, values_of(load_pde(other))
            before = tree(d)
            code = run_main(conf, d / "o", d / "c.json")
            ck.step()
            p = d / "o" / "result.json"
            res = json.loads(p.read_text()) if p.exists() else None
            ck.outcome((code, n and n.split(":")[0]))
            ck.expect(all((d / k).read_bytes() == v for k, v in before.items()), "data:user-file", f"{rep}", rep)
            if not good:
                ck.expect(code != 0 and not rec.fitted and res is not None and res["status"] == "error", "data:bad-accepted",
                          f"{rep}: exit {code} {res and res['status']}", rep)
                return
            ok = ck.expect(code == 0 and len(rec.fitted) == 1 and res and res["status"] == "success", "data:refused",
                           f"{rep}: exit {code} {res and str(res.get('error'))[-300:]}", rep)
            if not ok:
                return
            ck.trace()
            got = values_of(rec.fitted[0][1])
            ck.expect(all(a.shape == b.shape and np.allclose(a, b) for a, b in zip(got, want)), "data:values",
                      f"{rep}: shapes {[a.shape for a in got]} / {[b.shape for b in want]}", rep)
            if n is not None:
                ck.expect(res["dataset"] != "burgers", "data:named", f"{rep}: {res['dataset']}", rep)

    ck.pool(one, items)


def part_runner_faults(ck):
    ck.part("runner faults")
    configs = {"ok": {"model": "dlga", "dataset_name": "burgers"}, "spr": {"model": "dscv_spr", "dataset_name": "burgers"},
               "no-model": {"dataset_name": "burgers"}, "null-model": {"model": None, "dataset_name": "burgers"},
               "unknown": {"model": "sga", "dataset_name": "burgers"}, "case": {"model": "DLGA", "dataset_name": "burgers"},
               "not-json": "{", "missing": None, "empty": ""}
    space = itertools.product(configs, (None, "build", "fit", "write", "viz"), ("u_t = u", None), ("given", "config", "default", "file"), (False, True))
    for cfg, fault, answer, out, stale in space:
        rep = {"config": cfg, "fault": fault, "equation": answer, "output": out, "stale": stale}
        ck.visit(tuple(rep.values()))
        rec = Recorder()
        rec.fault, rec.answer = fault, answer
        with scratch() as (d, _), rec.installed(), ck.case("faults", rep), contextlib.ExitStack() as st:
            conf = configs[cfg]
            if isinstance(conf, dict):
                conf = {**conf, **({"output_dir": str(d / "conf")} if out != "default" else {})}
            target = {"given": d / "giv", "config": d / "conf", "default": d / "output", "file": d / "taken"}[out]
            if out == "file":
                target.write_text("a file of the user")
            elif stale:
                target.mkdir()
                (target / "result.json").write_text(result("old equation"))
                (target / "mine.txt").write_text("mine")
            if fault == "write":
                real = json.dump
                st.enter_context(mock.patch.object(json, "dump", lambda *a, **k: (_ for _ in ()).throw(OSError("disk full"))))
            if fault == "viz":
                import kd.viz.core as vc
                st.enter_context(mock.patch.object(vc, "render", side_effect=Fault("viz")))
                st.enter_context(mock.patch.object(vc, "list_capabilities", side_effect=Fault("viz")))
            code = run_main(conf, target if out in ("given", "file") else None, d / "c.json")
            ck.step()
            p = target / "result.json"
            try:
                res = json.loads(p.read_text()) if out != "file" and p.exists() else None
            except ValueError:
                res = None
            valid = cfg in ("ok", "spr")
            works = valid and fault not in ("build", "fit", "write") and out != "file"
            ck.outcome((code, works, bool(res)))
            ck.expect((code == 0) == works, "faults:exit", f"{rep}: exit {code}", rep)
            if not valid:
                ck.expect(not rec.built and not rec.fitted, "faults:ran", f"{rep}: {rec.built}", rep)
            if works:
                ck.trace()
                ck.expect(res is not None and res["status"] == "success" and (answer is None or res["equation"] == answer)
                          and (answer is not None or "u_t" not in res["equation"]) and not res.get("error"), "faults:result", f"{rep}: {res}", rep)
            elif valid and out != "file" and fault != "write":
                ck.expect(res is not None and res["status"] == "error" and res.get("error") and "old" not in res["equation"], "faults:report", f"{rep}: {res}", rep)
            if out == "file":
                ck.expect(target.read_text() == "a file of the user", "faults:overwrites", f"{rep}", rep)
            elif stale:
                ck.expect((target / "mine.txt").read_text() == "mine", "faults:user-file", f"{rep}", rep)
            import matplotlib.pyplot as plt
            plt.close("all")


# ------------------------------------------------------------------ remote and local runs agree
def part_routes(ck):
    """The same form gives the same estimator whether it runs in process or through the platform."""
    ck.part("routes")
    app = load_app()
    if not hasattr(app, "run_training"):
        return
    vary = {"dlga_ops": ["u, u_x,u_xx", " u ,"], "dlga_epi": [0.25, "0.5"], "dlga_max_iter": [17, 18.0], "dlga_sample": [11, None, 0, ""],
            "dscv_binary": ["add_t, mul_t", "diff_t"], "dscv_unary": ["n2_t", "n2_t, n3_t"], "dscv_batch": [23, 9.0],
            "dscv_seed": [6, 0], "spr_epochs": [2, 7], "spr_sample_ratio": [0.3, 1]}
    of = {"KD_DLGA": [k for k in vary if k.startswith("dlga")], "KD_DSCV_SPR": [k for k in vary if not k.startswith("dlga")]}
    items = [(m, dict(zip(of[m], v))) for m in of for v in itertools.product(*(vary[k] for k in of[m]))]

    def one(ck, it):
        m, change = it
        rep = {"model": m, "form": change}
        ck.visit((m, repr(change)))
        form = {**FORM, **change}
        got = {}
        with scratch() as (d, _), ck.case("routes", rep):
            rec = Recorder()
            with rec.installed(), quiet():
                out = app.run_training("burgers", m, **form, request=None)
            ck.step()
            ck.expect("error" not in str(out[0]).lower(), "routes:local", f"{rep}: {out[0][-300:]}", rep)
            got["local"] = (rec.built, [(n, k) for n, _, k in rec.fitted])
            svc = Service()
            with platform(svc), quiet():
                out = app.run_training("burgers", m, **form, request=GOOD)
            conf = json.loads(dict(svc.uploads).get("config", b"null")) if svc.uploads else None
            if not ck.expect(conf is not None, "routes:not-sent", f"{rep}: {out[0]}", rep):
                return
            rec = Recorder()
            with rec.installed():
                code = run_main(conf, d / "o", d / "c.json")
            ck.step(2)
            got["remote"] = (rec.built, [(n, k) for n, _, k in rec.fitted])
            ck.trace()
            same = code == 0 and [b[0] for b in got["local"][0]] == [b[0] for b in got["remote"][0]] and len(rec.fitted) == 1
            if same:
                a = {**got["local"][0][0][2], **got["local"][1][0][1]}
                b = {**got["remote"][0][0][2], **got["remote"][1][0][1]}
                same = a == b
            ck.expect(same, "routes:differ", f"{rep}: local {got['local']}, remote {got['remote']}", rep)
            import matplotlib.pyplot as plt
            plt.close("all")

    ck.pool(one, items)
    for name in ("KD_SGA", "KD_DSCV", "KD_DLGA", "KD_DSCV_SPR", "nope"):
        for req in ("none", "ok"):
            if req == "ok" and name in ("KD_DLGA", "KD_DSCV_SPR"):
                continue
            for fault in (None, "build", "fit"):
                rep = {"model": name, "request": req, "fault": fault}
                ck.visit(tuple(rep.values()))
                rec, svc = Recorder(), Service()
                rec.fault = fault
                with scratch(), rec.installed(), platform(svc), ck.case("local", rep), quiet():
                    out = app.run_training("burgers", name, **FORM, request=GOOD if req == "ok" else None)
                    ck.step()
                    good = fault is None and name != "nope"
                    ck.expect(not svc.calls, "local:sent", f"{rep}: {svc.calls}", rep)
                    ck.expect(("u_t = u*u_x" in str(out[0])) == good and (out[2] is not None) == good, "local:outcome", f"{rep}: {str(out[0])[-200:]}", rep)
                    ck.expect(out[4] is None, "local:job", f"{rep}", rep)


def run(ck):
    import matplotlib
    matplotlib.use("Agg")
    import kd.model  # noqa: F401
    part_submit(ck)
    part_status(ck)
    part_download(ck)
    part_app(ck)
    part_runner_options(ck)
    part_runner_data(ck)
    part_runner_faults(ck)
    part_routes(ck)
    ck.assumptions += ["The platform and the web toolkit are stand-ins answering from a script; the estimators of the runner are recorders.",
                       "Options the runner does not know are ignored by design."]
