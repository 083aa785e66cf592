"""Shared machinery of the checks: counters, findings, evidence, worker pool.

Every check is a module `checks/cNN.py` with a function `run(ck)`; `ck` is a
`Check`.  Vocabulary used in the evidence:

* state       a distinct state / configuration / program reached (hashed key)
* transition  one call into the real code that moves between states
* trace       one complete execution of the real code compared, step by step,
              with the reference model
"""
from __future__ import annotations

import contextlib
import hashlib
import json
import os
import pathlib
import pickle
import signal
import sys
import time
import traceback

VERIF = pathlib.Path(__file__).resolve().parent.parent
KNOWN = VERIF / "known_findings.txt"


class CaseTimeout(BaseException):
    """Raised by the alarm when one case does not terminate."""


def h(key) -> int:
    if not isinstance(key, (bytes, bytearray)):
        key = repr(key).encode()
    return int.from_bytes(hashlib.blake2b(key, digest_size=8).digest(), "big")


class Check:
    def __init__(self, prop: str, tier: str, seed: int, replay=None):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.states: set[int] = set()
        self.counted = 0              # states distinct by construction, not stored
        self.transitions = 0
        self.traces = 0
        self.samples: list = []
        self.parts: dict[str, dict] = {}
        self.notes: dict = {}
        self.assumptions: list[str] = []
        self.fails: dict[str, dict] = {}
        self.exhaustive = True
        self.t0 = time.time()
        self._part = "main"
        self._part_t0 = time.time()
        self.replay = replay          # replay document or None
        self.outcomes: dict[str, set[int]] = {}
        self.budget = float(os.environ.get("MC_BUDGET", "760"))
        self.stop_after = int(os.environ.get("MC_STOP_AFTER", "25"))

    # ---------------------------------------------------------- counters
    def part(self, name: str):
        if getattr(self, "_part_t0", None) is not None and self._part in self.parts:
            self.end_part()
        self._part = name
        self.parts.setdefault(name, {"states": 0, "transitions": 0, "traces": 0,
                                     "outcomes": 0, "wall_s": 0.0})
        self._part_t0 = time.time()
        return self

    def _p(self):
        return self.parts.setdefault(self._part, {"states": 0, "transitions": 0,
                                                  "traces": 0, "outcomes": 0, "wall_s": 0.0})

    def visit(self, key) -> bool:
        k = h((self._part, key))
        if k in self.states:
            return False
        self.states.add(k)
        p = self._p()
        p["states"] += 1
        if p["states"] in (1, 50, 2500):
            self.sample(key)
        return True

    def count_states(self, n: int):
        self.counted += n
        self._p()["states"] += n

    def step(self, n: int = 1):
        self.transitions += n
        self._p()["transitions"] += n

    def trace(self, n: int = 1):
        self.traces += n
        self._p()["traces"] += n

    def outcome(self, key):
        s = self.outcomes.setdefault(self._part, set())
        s.add(h(key))
        self._p()["outcomes"] = len(s)

    def sample(self, obj, limit: int = 3):
        mine = [s for s in self.samples if s.get("part") == self._part]
        if len(mine) < limit:
            self.samples.append({"part": self._part, "case": _jsonable(obj)})

    def end_part(self):
        self._p()["wall_s"] = round(self._p()["wall_s"] + time.time() - self._part_t0, 2)
        self._part_t0 = time.time()

    # ---------------------------------------------------------- verdicts
    def fail(self, key: str, what: str, replay=None):
        """A violation.  `key` identifies the failing input / call site / history."""
        key = "/".join([self._part, key]) if not key.startswith(self._part) else key
        if key not in self.fails:
            self.fails[key] = {"what": what, "replay": _jsonable(replay), "count": 1,
                               "part": self._part}
        else:
            self.fails[key]["count"] += 1
        if os.environ.get("MC_VERBOSE"):
            print("FAIL", key, what, file=sys.stderr)

    def expect(self, cond, key: str, what="", replay=None) -> bool:
        if not cond:
            self.fail(key, what() if callable(what) else str(what), replay)
            return False
        return True

    @contextlib.contextmanager
    def case(self, key: str, replay=None, timeout: float | None = 60.0, allow=()):
        """Run one case; an unexpected exception or a hang is a violation."""
        old = None
        if timeout:
            def on_alarm(signum, frame):
                raise CaseTimeout()
            old = signal.signal(signal.SIGALRM, on_alarm)
            signal.setitimer(signal.ITIMER_REAL, timeout)
        try:
            yield
        except CaseTimeout:
            self.fail(key + ":no-termination", f"did not terminate within {timeout} s", replay)
        except HarnessError:
            raise
        except allow:
            pass
        except (KeyboardInterrupt, GeneratorExit):
            raise
        except BaseException as e:   # noqa: BLE001  (SystemExit from code under test too)
            tb = traceback.extract_tb(e.__traceback__)
            frames = [f for f in tb if "/verif/" not in f.filename]
            where = frames[-1] if frames else tb[-1]
            if not frames and isinstance(e, (TypeError, ValueError, IndexError, KeyError)):
                # the value handed back cannot be used as what it is documented to be
                self.fail(key + ":unusable-result", f"{type(e).__name__}: {str(e)[:200]} at "
                          f"{os.path.basename(where.filename)}:{where.lineno}", replay)
                return
            if not frames and not isinstance(e, AssertionError):
                raise HarnessError(f"{key}: {type(e).__name__}: {e} at {where.filename}:{where.lineno}\n"
                                   + traceback.format_exc()) from e
            self.fail(key + ":exception",
                      f"{type(e).__name__}: {str(e)[:200]} at {os.path.basename(where.filename)}"
                      f":{where.name}", replay)
        finally:
            if timeout:
                signal.setitimer(signal.ITIMER_REAL, 0)
                signal.signal(signal.SIGALRM, old)

    @contextlib.contextmanager
    def guard(self):
        """An exception from inside the code under test that no case expected is a violation."""
        try:
            yield
        except (HarnessError, KeyboardInterrupt, GeneratorExit, CaseTimeout):
            raise
        except BaseException as e:  # noqa: BLE001
            repo = os.path.realpath(os.environ.get("KD_REPO", "/repo")) + "/"
            frames = [f for f in traceback.extract_tb(e.__traceback__)
                      if os.path.realpath(f.filename).startswith(repo)]
            if not frames:
                raise
            where = frames[-1]
            self.fail(f"uncaught:{type(e).__name__}:{os.path.basename(where.filename)}:{where.name}",
                      f"{type(e).__name__}: {str(e)[:200]}")

    # ---------------------------------------------------------- workers
    def pool(self, fn, items, workers: int | None = None, share: float = 0.75):
        """Run fn(ck, item) for every item in forked workers and merge the results."""
        items = list(items)
        n = workers or min(8, len(os.sched_getaffinity(0)), max(1, len(items)))
        # the whole check must answer within its limit: no part takes more than this share of
        # what is left, and what a part did not get to is reported in the evidence
        left = max(5.0, self.budget - (time.time() - self.t0))
        until = time.time() + left * share
        if n <= 1 or os.environ.get("MC_SERIAL"):
            for it in items:
                with self.guard():
                    fn(self, it)
            return
        sys.stdout.flush()
        sys.stderr.flush()
        kids = []
        for w in range(n):
            r, wfd = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                code = 0
                sub = Check(self.prop, self.tier, self.seed, self.replay)
                sub._part = self._part
                err = None
                try:
                    mine = items[w::n]
                    for k, it in enumerate(mine):
                        if time.time() > until:
                            sub.exhaustive = False
                            sub.notes[f"not explored: {self._part}"] = len(mine) - k
                            break
                        with sub.guard():
                            fn(sub, it)
                except BaseException as e:  # noqa: BLE001
                    err = f"{type(e).__name__}: {e}\n{traceback.format_exc()}"
                try:
                    blob = pickle.dumps((sub.states, sub.transitions, sub.traces, sub.samples,
                                         sub.parts, sub.notes, sub.fails, sub.outcomes,
                                         sub.exhaustive, sub.counted, err))
                    with os.fdopen(wfd, "wb") as f:
                        f.write(blob)
                except BaseException:  # noqa: BLE001
                    code = 3
                os._exit(code)
            os.close(wfd)
            kids.append((pid, r))
        errs = []
        for pid, r in kids:
            with os.fdopen(r, "rb") as f:
                blob = f.read()
            os.waitpid(pid, 0)
            if not blob:
                errs.append("worker died")
                continue
            st, tr, tc, sm, parts, notes, fails, outs, exhaustive, counted, err = pickle.loads(blob)
            self.counted += counted
            self.exhaustive = self.exhaustive and exhaustive
            if err:
                errs.append(err)
            self.states |= st
            self.transitions += tr
            self.traces += tc
            for s in sm:
                if len([x for x in self.samples if x["part"] == s["part"]]) < 3:
                    self.samples.append(s)
            for name, p in parts.items():
                q = self.parts.setdefault(name, {"states": 0, "transitions": 0, "traces": 0,
                                                 "outcomes": 0, "wall_s": 0.0})
                for k in ("states", "transitions", "traces"):
                    q[k] += p[k]
            for name, s in outs.items():
                o = self.outcomes.setdefault(name, set())
                o |= s
                self.parts[name]["outcomes"] = len(o)
            for k, v in notes.items():
                if isinstance(v, (int, float)) and isinstance(self.notes.get(k, 0), (int, float)):
                    self.notes[k] = self.notes.get(k, 0) + v
                else:
                    self.notes.setdefault(k, v)
            for k, v in fails.items():
                if k in self.fails:
                    self.fails[k]["count"] += v["count"]
                else:
                    self.fails[k] = v
        if errs:
            raise HarnessError(errs[0])

    # ---------------------------------------------------------- the end
    def finish(self) -> int:
        self.end_part()
        known = load_known(self.prop)
        new = {}
        for k, v in self.fails.items():
            if k in known:
                print(f"KNOWN-FINDING: property={self.prop} {k}: {known[k]}")
            else:
                new[k] = v
        evdir = VERIF / "evidence"
        evdir.mkdir(exist_ok=True)
        rdir = evdir / "replay"
        shown = 0
        for k, v in new.items():
            if shown >= self.stop_after:
                break
            shown += 1
            rdir.mkdir(exist_ok=True)
            path = rdir / f"{self.prop}-{h(k):016x}.json"
            path.write_text(json.dumps({"property": self.prop, "tier": self.tier, "key": k,
                                        "what": v["what"], "count": v["count"],
                                        "replay": v["replay"]}, indent=1, default=str))
            print(f"VIOLATION property={self.prop} replay={path}")
            print(f"  {k}: {v['what']} (x{v['count']})")
        if len(new) > shown:
            print(f"  ... and {len(new) - shown} more distinct violations")
        cov = {"states": len(self.states) + self.counted, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces,
               "samples": self.samples[:40] or [{"part": "none"}],
               "parts": self.parts, "exhaustive": self.exhaustive}
        cov.update(self.notes)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed,
              "level": "model_checking", "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(new)}
        (evdir / f"{self.prop}.json").write_text(json.dumps(ev, indent=1, default=str))
        print(f"{self.prop} {self.tier}: states={len(self.states) + self.counted} transitions={self.transitions} "
              f"traces={self.traces} violations={len(new)} known={len(self.fails) - len(new)} "
              f"wall={ev['wall_s']}s")
        return 1 if new else 0


class HarnessError(BaseException):
    """The harness itself failed (never a verdict about the code under test)."""


def load_known(prop):
    out = {}
    if KNOWN.exists():
        for line in KNOWN.read_text().splitlines():
            line = line.strip()
            if not line.startswith("finding:"):
                continue
            rest = line[len("finding:"):].strip()
            parts = rest.split(" ", 2)
            if len(parts) < 3 or parts[0] != f"property={prop}":
                continue
            assert parts[1].startswith("key=")
            out[parts[1][4:]] = parts[2]
    return out


def _jsonable(x):
    try:
        json.dumps(x)
        return x
    except TypeError:
        if isinstance(x, dict):
            return {str(k): _jsonable(v) for k, v in x.items()}
        if isinstance(x, (list, tuple, set)):
            return [_jsonable(v) for v in x]
        return str(x)


@contextlib.contextmanager
def quiet():
    """Silence stdout of the code under test (keeps our own verdict lines clean)."""
    import io
    with contextlib.redirect_stdout(io.StringIO()):
        yield
