"""Shared runner for the generated-input checks.

A check module calls `Check(...)`, registers one or more generated campaigns with
`campaign()` / `stateful()`, and finishes with `main()`.  A campaign draws a plain
JSON-serialisable case from a Hypothesis strategy and hands it to a body which raises
`Violation` when the observed behaviour contradicts the oracle.  Hypothesis shrinks
the case; the minimal one is written to a replay file.

Exit codes: 0 held, 1 violation (line `VIOLATION property=.. replay=..`), 2 the check
itself failed.
"""
import argparse
import contextlib
import ctypes
import hashlib
import json
import os
import random
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY_SRC = os.path.join(REPO, "src", "python")

os.environ.setdefault("PYTHONHASHSEED", "0")
sys.dont_write_bytecode = True
# never trust byte code compiled before the sources last changed
sys.pycache_prefix = "/nonexistent/vp-pycache"
if PY_SRC not in sys.path:
    sys.path.insert(0, PY_SRC)
for _p in ("/opt/veriftools/pyvenv/lib/python3.12/site-packages",):
    if os.path.isdir(_p) and _p not in sys.path:
        sys.path.append(_p)

import warnings  # noqa: E402

warnings.simplefilter("ignore")
import hypothesis  # noqa: E402
from hypothesis import HealthCheck, Phase, given, settings  # noqa: E402
from hypothesis import seed as hseed  # noqa: E402
from hypothesis import strategies as st  # noqa: E402, F401
from hypothesis.internal.conjecture import engine as _engine  # noqa: E402

# variations of one case with parts of it repeated: most of the budget, few new situations
_vary = getattr(_engine.ConjectureRunner, "generate_mutations_from", None)
_varied = [0]


def _vary_some(self, data):
    _varied[0] += 1
    if _varied[0] % 8 == 0:
        _vary(self, data)


if _vary is not None:
    _engine.ConjectureRunner.generate_mutations_from = _vary_some

SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
# seconds without a finished case after which native code counts as blocked
STALL = 180
MEMORY = 10 * 2**30
_sleep, _clock = time.sleep, time.monotonic
if TIER not in ("quick", "thorough"):
    TIER = "quick"


def _adopt():
    """Processes left behind by a case become children of this one."""
    try:
        ctypes.CDLL(None).prctl(36, 1, 0, 0, 0)  # PR_SET_CHILD_SUBREAPER
    except Exception:
        pass


def _end_children():
    """Processes left behind by a case keep the output of the check open: end those started from here."""
    me = os.getpid()
    for _ in range(20):
        parents = {}
        for d in os.listdir("/proc"):
            if d.isdigit():
                try:
                    with open(f"/proc/{d}/stat") as f:
                        st_ = f.read().rsplit(")", 1)[1].split()
                    if st_[0] not in "ZX":
                        parents[int(d)] = int(st_[1])
                except (OSError, IndexError):
                    pass
        mine, found = {me}, True
        while found:
            found = {p for p, q in parents.items() if q in mine and p not in mine}
            mine |= found
        mine.discard(me)
        if not mine:
            return
        for p in mine:
            try:
                os.kill(p, signal.SIGKILL)
            except OSError:
                pass
        _sleep(0.05)


class Violation(Exception):
    """The code under test contradicted the property."""


def require(cond, msg):
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


def equal(got, want, what):
    if got != want:
        raise Violation(f"{what}: got {short(got)}, expected {short(want)}")


def short(x, n=600):
    s = repr(x)
    return s if len(s) <= n else s[:n] + f"...({len(s)} chars)"


@contextlib.contextmanager
def sut(what):
    """Anything the code under test raises on a valid input is a violation."""
    try:
        yield
    except Violation:
        raise
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:  # noqa: B902
        if type(e).__module__.startswith("hypothesis"):
            raise
        if type(e).__name__ in ("NotInStandIn", "MissingMethod"):
            raise
        tb = traceback.extract_tb(e.__traceback__)
        if isinstance(e, (TypeError, AttributeError)) and tb and tb[-1].filename.endswith(("faketorch.py", "faketf.py")):
            raise  # the stand-in does not understand the call
        where = ""
        for f in reversed(tb):
            if "/deepgnn/" in f.filename:
                where = f" at {os.path.basename(f.filename)}:{f.name}"
                break
        raise Violation(f"{what} raised {type(e).__name__}: {e}{where}") from e


# ---------------------------------------------------------------- blocking calls
_thread_errors = []


def _thread_hook(args):
    if args.exc_type is SystemExit:
        return
    _thread_errors.append((args.exc_type, args.exc_value, args.thread))


threading.excepthook = _thread_hook


def run_blocking(fn, what, stall_ticks=400, thread_death_is_error=True):
    """Run fn in a helper thread and return its result.

    A call that never returns is recognised without a wall-clock limit: the waiting
    thread keeps being scheduled (ticks) while the process burns no CPU time beyond
    the waiting itself.  A machine that is merely slow keeps burning CPU in fn.
    A worker thread of the code under test that dies from an exception ends the call.
    """
    box = {}
    del _thread_errors[:]

    def target():
        try:
            box["ok"] = fn()
        except BaseException as e:  # noqa: B902
            box["err"] = e

    t = threading.Thread(target=target, daemon=True)
    t.start()
    t.join(2.0)
    ticks = 0
    grace = 0
    last_cpu = _cpu()
    while t.is_alive():
        t.join(0.05)
        if _thread_errors and thread_death_is_error:
            grace += 1
            if grace > 20 and t.is_alive():
                et, ev, _ = _thread_errors[0]
                raise Violation(f"{what}: a worker died with {et.__name__}: {ev}")
        ticks += 1
        # the waiting itself costs well under a millisecond of CPU per tick
        if _cpu() - last_cpu > 0.2:
            ticks, last_cpu = 0, _cpu()
        if ticks > stall_ticks:
            raise Violation(f"{what}: blocked forever (all threads idle)")
    if "err" in box:
        raise box["err"]
    if _thread_errors and thread_death_is_error:
        et, ev, _ = _thread_errors[0]
        raise Violation(f"{what}: a worker died with {et.__name__}: {ev}")
    return box["ok"]


def _cpu():
    t = os.times()
    return t.user + t.system + t.children_user + t.children_system


# ------------------------------------------------------------------- known findings
def known_findings(prop):
    out = []
    path = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line.startswith("{"):
                    d = json.loads(line)
                    if d["property"] == prop and d["status"] == "known":
                        out.append(d)
    return out


class Check:
    def __init__(self, prop, rule, assumptions=(), level="exploration", native=False):
        self.prop = prop
        self.rule = rule
        self.level = level
        self.assumptions = list(assumptions)
        self.native = native
        self.campaigns = []
        self.evaluations = 0
        self.nontrivial = set()
        self.samples = []
        self.violations = []
        self.known_cases = {}
        self._sample_budget = {}
        self.scratch = None
        self.extra = {}
        self.fork = False
        self._running = None

    # a body calls note(key) at most once per case, when the case is non-trivial
    def note(self, key):
        self.nontrivial.add(hashlib.sha1(repr(key).encode()).hexdigest()[:16])

    def campaign(self, name, strategy, body, quick, thorough, samples=3):
        self.campaigns.append((name, strategy, body, quick, thorough))
        self._sample_budget[name] = samples

    def known_case(self, finding_id, campaign, case):
        """A recorded defect of the unchanged tree, replayed by its exact input."""
        self.known_cases[finding_id] = (campaign, case)

    def tmp(self):
        return tempfile.mkdtemp(dir=self.scratch)

    def _body(self, name):
        for c in self.campaigns:
            if c[0] == name:
                return c[2]
        raise KeyError(name)

    def _run_case(self, name, body, case):
        self.evaluations += 1
        if self._sample_budget[name] > 0 and self.evaluations % 7 == 1:
            self._sample_budget[name] -= 1
            self.samples.append({"campaign": name, "case": json.loads(json.dumps(case, default=str)) if len(repr(case)) < 4000 else short(case, 3000)})
        if self.native:
            with open(os.path.join(self.scratch, "current_case.json"), "w") as f:
                json.dump({"property": self.prop, "campaign": name, "case": case}, f)
        d = self.tmp()
        self._running = (_clock(), name, case)
        try:
            if self.fork:
                self._forked(body, case, d)
            else:
                body(case, d)
        finally:
            self._running = None
            shutil.rmtree(d, ignore_errors=True)

    def _watch(self, t0, replay):
        """Report a case that never ends: cases take well below a second."""
        while True:
            _sleep(1)
            now = self._running
            if now is not None and _clock() - now[0] > STALL:
                msg = f"a case did not finish in {STALL} s, blocked forever"
                p = replay or self._write_replay(now[1], now[2], msg)
                self.violations.append(msg)
                # a case can have redirected the output
                print(f"{self.prop}/{now[1]}: {msg}\nVIOLATION property={self.prop} replay={p}", file=sys.__stdout__, flush=True)
                if not replay:
                    self._evidence(time.time() - t0)
                self._finish(1)

    def _forked(self, body, case, d):
        """One case in a process of its own, so that the death of the engine can be shrunk."""
        out = os.path.join(self.scratch, "forked.txt")
        if os.path.exists(out):
            os.remove(out)
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                body(case, d)
            except Violation as v:
                with open(out, "w") as f:
                    f.write(str(v))
                code = 3
            except BaseException:  # noqa: B902
                with open(out, "w") as f:
                    f.write(traceback.format_exc())
                code = 4
            os._exit(code)
        limit = time.monotonic() + 20
        while True:
            done, status = os.waitpid(pid, os.WNOHANG)
            if done:
                break
            if time.monotonic() > limit:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                raise Violation("engine did not finish in 20 s, blocked forever")
            time.sleep(0.002)
        if os.WIFSIGNALED(status):
            raise Violation(f"engine died with signal {os.WTERMSIG(status)}")
        code = os.WEXITSTATUS(status)
        if code:
            with open(out) as f:
                text = f.read()
            raise Violation(text) if code == 3 else RuntimeError(text)

    def _run_campaign(self, name, strategy, body, n):
        holder = {}
        me = self
        cseed = SEED * 1000003 + int(hashlib.sha1(name.encode()).hexdigest()[:6], 16)

        @hseed(cseed)
        @settings(
            max_examples=n,
            database=None,
            deadline=None,
            derandomize=False,
            report_multiple_bugs=False,
            print_blob=False,
            suppress_health_check=list(HealthCheck),
            phases=(Phase.generate, Phase.target, Phase.shrink),
        )
        @given(strategy)
        def prop(case):
            random.seed(12345)
            if holder.get("harness"):
                return
            # bound shrinking: the verdict is already known
            if "v" in holder:
                holder["shrinks"] = holder.get("shrinks", 0) + 1
                if holder["shrinks"] > holder.get("max_shrinks", 400) or time.monotonic() - holder["t"] > 45:
                    if json.dumps(case, sort_keys=True, default=str) != holder["key"]:
                        return
            try:
                me._run_case(name, body, case)
            except Violation as v:
                key = json.dumps(case, sort_keys=True, default=str)
                if "blocked forever" in str(v) or "TimeoutError" in str(v):
                    holder["max_shrinks"] = 3
                holder.setdefault("t", time.monotonic())
                holder["v"] = str(v)
                holder["case"] = case
                holder["key"] = key
                raise
            except (KeyboardInterrupt, SystemExit):
                raise
            except BaseException as e:  # noqa: B902
                if type(e).__module__.startswith("hypothesis"):
                    raise
                holder["harness"] = traceback.format_exc()
                holder["hcase"] = case

        try:
            prop()
        except Violation:
            pass
        except BaseException:  # noqa: B902
            if "v" not in holder:
                raise
        if holder.get("harness") and "v" not in holder:
            sys.stderr.write(holder["harness"])
            sys.stderr.write("case: " + short(holder["hcase"], 3000) + "\n")
            raise RuntimeError(f"harness error in {self.prop}/{name}")
        if "v" in holder:
            return holder["case"], holder["v"]
        return None

    def _write_replay(self, name, case, msg):
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, f"{self.prop}-{name}.json")
        with open(p, "w") as f:
            json.dump({"property": self.prop, "campaign": name, "message": msg, "case": case}, f, indent=1)
        return p

    def _evidence(self, wall):
        ev = {
            "property": self.prop,
            "tier": TIER,
            "seed": SEED,
            "level": self.level,
            "coverage": dict(
                {
                    "evaluations": self.evaluations,
                    "distinct_nontrivial": len(self.nontrivial),
                    "rule": self.rule,
                    "samples": self.samples,
                },
                **self.extra,
            ),
            "assumptions": self.assumptions,
            "wall_s": round(wall, 3),
            "violations": len(self.violations),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{self.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1)

    def _finish(self, code):
        sys.stdout.flush()
        sys.stderr.flush()
        _end_children()
        if self.scratch and os.path.basename(self.scratch).startswith("vp-"):
            shutil.rmtree(self.scratch, ignore_errors=True)
        os._exit(code)

    def main(self):
        ap = argparse.ArgumentParser()
        ap.add_argument("--replay")
        ap.add_argument("--only")
        ap.add_argument("--scale", type=float, default=float(os.environ.get("VERIF_SCALE", "1")))
        ap.add_argument("--child", action="store_true")
        ap.add_argument("--fork", action="store_true")
        args = ap.parse_args()
        _adopt()

        if self.native and not args.child:
            self._native_parent(args)
            return
        self.fork = args.fork
        t0 = time.time()
        self.scratch = os.environ.get("VP_SCRATCH") or tempfile.mkdtemp(prefix=f"vp-{self.prop}-")
        tempfile.tempdir = self.scratch
        if not self.native:
            # endless growth ends in an error of the case, not of the machine
            resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
            threading.Thread(target=self._watch, args=(t0, args.replay), daemon=True).start()
        try:
            code = self._main(args)
        except Exception:
            traceback.print_exc()
            code = 2
        if not args.replay and code in (0, 1):
            self._evidence(time.time() - t0)
        self._finish(code)

    def _native_parent(self, args):
        """Native code may abort the process: run it in a child, report its last case."""
        t0 = time.time()
        scratch = tempfile.mkdtemp(prefix=f"vp-{self.prop}-")
        # freed and fresh memory holds garbage
        env = dict(os.environ, VP_SCRATCH=scratch, MALLOC_PERTURB_="165")
        cur = os.path.join(scratch, "current_case.json")
        log = tempfile.TemporaryFile()
        child = subprocess.Popen([sys.executable] + sys.argv + ["--child"], env=env, stderr=log)
        blocked = False
        while True:
            try:
                code = child.wait(5)
                break
            except subprocess.TimeoutExpired:
                # cases take well below a second
                if os.path.exists(cur) and time.time() - os.path.getmtime(cur) > STALL:
                    blocked = True
                    child.kill()
                    code = child.wait()
                    break
        log.seek(0)
        err = log.read()
        sys.stderr.buffer.write(err[-6000:])
        died = f"engine died with signal {-code}"
        if blocked:
            died = f"engine did not finish a case in {STALL} s"
        if blocked or code in (-signal.SIGSEGV, -signal.SIGABRT, -signal.SIGFPE, -signal.SIGBUS, -signal.SIGILL):
            if os.path.exists(cur):
                with open(cur) as f:
                    c = json.load(f)
                if args.replay:
                    p = args.replay
                    print(f"reproduced: {died}")
                else:
                    p = self._write_replay(c["campaign"], c["case"], f"{died}: {err[-500:].decode(errors='replace')}")
                    print(f"{died} in campaign {c['campaign']}", flush=True)
                    # the same inputs again, one process each: rewrites the replay file with a smaller case
                    with contextlib.suppress(subprocess.TimeoutExpired):
                        subprocess.run(
                            [sys.executable] + sys.argv + ["--child", "--fork", "--only", c["campaign"]],
                            env=dict(env, VP_SHRINK="1"), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=240,
                        )
                print(f"VIOLATION property={self.prop} replay={p}", flush=True)
                self.violations.append("crash")
                self.evaluations += 1
                self._evidence(time.time() - t0)
                code = 1
            else:
                code = 2
        elif code < 0:
            code = 2
        _end_children()
        shutil.rmtree(scratch, ignore_errors=True)
        sys.stdout.flush()
        os._exit(code)

    def _main(self, args):
        if args.replay:
            with open(args.replay) as f:
                r = json.load(f)
            self._sample_budget = {c[0]: 0 for c in self.campaigns}
            try:
                self._run_case(r["campaign"], self._body(r["campaign"]), r["case"])
            except Violation as v:
                print(f"reproduced: {v}")
                print(f"VIOLATION property={self.prop} replay={args.replay}")
                return 1
            print("not reproduced")
            return 0

        # recorded defects of the unchanged tree
        for k in known_findings(self.prop):
            if k["id"] not in self.known_cases:
                raise RuntimeError(f"known finding {k['id']} has no recorded case")
            name, case = self.known_cases[k["id"]]
            try:
                self._run_case(name, self._body(name), case)
            except Violation:
                print(f"KNOWN-FINDING: property={self.prop} {k['id']} {k['what']}")
            else:
                print(f"known finding {k['id']} no longer fails")

        for name, strategy, body, quick, thorough in self.campaigns:
            if args.only and args.only != name:
                continue
            n = quick if TIER == "quick" else thorough
            n = max(1, int(n * args.scale))
            t = time.time()
            res = self._run_campaign(name, strategy, body, n)
            print(f"[{self.prop}/{name}] n={n} total_evaluations={self.evaluations} nontrivial={len(self.nontrivial)} {time.time()-t:.1f}s", flush=True)
            if res is not None:
                case, msg = res
                p = self._write_replay(name, case, msg)
                self.violations.append(msg)
                print(f"{self.prop}/{name}: {msg}")
                print(f"VIOLATION property={self.prop} replay={p}", flush=True)
                return 1
        if self.evaluations == 0 or (not self.nontrivial and not args.only):
            raise RuntimeError("vacuous run: no non-trivial case")
        return 0


def silence_logging():
    import logging

    import deepgnn

    deepgnn.get_logger().setLevel(logging.CRITICAL)


def lean(args):
    """Arguments by name, {name: (value, documented default)}, without those that are defaults anyway."""
    return {k: v for k, (v, default) in args.items() if not (v is default or (type(v) is type(default) and v == default))}


# values that samplers and datasets document for arguments left out
USUAL = {
    "epochs": 1, "epoch": 1, "shuffle": False, "drop_last": False, "worker_index": 0, "num_workers": 1, "data_parallel_num": 1,
    "data_parallel_index": 0, "delimeter": "\t", "feature_dim": 0, "sample_num": -1, "enable_prefetch": False, "batch_size": 1,
}


def brief(fn, *args, **kw):
    """Call without the arguments that have their usual values anyway."""
    return fn(*args, **{k: v for k, v in kw.items() if k not in USUAL or type(v) is not type(USUAL[k]) or v != USUAL[k]})


def np_seed(x):
    import numpy as np

    np.random.seed(x % (2**32))
