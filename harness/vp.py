"""Framework shared by all checks.

A check binds a TLA+ specification (in ../spec) to the code in /repo:

* ``Check.tlc`` runs TLC on a specification, in a scratch directory. Cases that
  the specification emits (``Emit(rec)`` in Vp.tla) are returned as Python
  objects, and clauses that a trace specification finds broken
  (``Broken(...)`` in Vp.tla) become violations.
* A violation of an invariant *inside* TLC while no trace of the code is loaded
  is an error of the specification (exit 2), never a verdict on the code.
* Anything that the code under test raises on an input of the property's domain
  is a violation of the property ("raised"); anything the harness itself raises
  is an error of the check (exit 2).
"""

import contextlib
import io
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import warnings

warnings.filterwarnings("ignore")
os.environ.setdefault("OMP_NUM_THREADS", "4")
sys.dont_write_bytecode = True

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
SPEC = os.path.join(ROOT, "spec")
OUT = os.path.join(ROOT, "out")
REPO = "/repo"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class MachineryError(Exception):
    pass


class ReturnTimeout(Exception):
    """The code under test did not return."""


class TlcResult:
    def __init__(self):
        self.generated = 0
        self.distinct = 0
        self.cases = []
        self.broken = []
        self.output = ""
        self.wall = 0.0


class Check:
    def __init__(self, pid, tier, seed, level="model_checking"):
        self.pid, self.tier, self.seed, self.level = pid, tier, seed, level
        self.quick = tier == "quick"
        self.rng = random.Random(f"{pid}-{seed}")
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.violations = []
        self.extra = {}
        self.assumptions = []
        self.tlc_runs = []
        self._known = load_known(pid)
        self.known_seen = {}

    # ---------------------------------------------------------------- seeds
    def numpy_rng(self, salt=0):
        import numpy as np

        return np.random.default_rng([self.seed, sum(map(ord, self.pid)), salt])

    # --------------------------------------------------------------- verdict
    def sample(self, obj, limit=4):
        if len(self.samples) < limit:
            self.samples.append(obj)

    def count(self, key, n=1):
        self.extra[key] = self.extra.get(key, 0) + n

    def trace(self, n=1):
        """n traces (replayed behaviours or recorded executions) were compared."""
        self.traces += n

    def violation(self, clause, data, key=None):
        """The code broke clause on data. key identifies a known finding."""
        key = key or clause
        if key in self._known:
            self.known_seen[key] = self._known[key]
            return
        if len(self.violations) < 50:
            self.violations.append({"clause": clause, "key": key, "data": data})

    def expect(self, cond, clause, data, key=None):
        if not cond:
            self.violation(clause, data() if callable(data) else data, key)
        return bool(cond)

    @contextlib.contextmanager
    def guard(self, clause, data, seconds=None):
        """Exceptions of the code under test inside the block are violations."""
        old = None
        start = _now()
        if seconds:
            old = signal.signal(signal.SIGALRM, _alarm)
            left = signal.setitimer(signal.ITIMER_REAL, seconds)[0]
            begun = _now()
        try:
            yield
        except MachineryError:
            raise
        except BaseException as e:  # noqa
            if isinstance(e, (KeyboardInterrupt, SystemExit)):
                raise
            if not from_code(e) and not (seconds and isinstance(e, ReturnTimeout)):
                raise
            self.violation(f"{clause}: raised {type(e).__name__}", {
                "input": data() if callable(data) else data,
                "exception": short_exc(e),
            })
            # code that hangs on many inputs: what was found is enough
            self._lost = getattr(self, "_lost", 0) + _now() - start
            if self._lost > 150:
                raise MachineryError("stopped after too many failures")
        finally:
            if seconds:
                signal.setitimer(
                    signal.ITIMER_REAL,
                    max(left - (_now() - begun), 0.5) if left else 0)
                signal.signal(signal.SIGALRM, old)

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, constants=None, *, spec="Spec", init=None, next=None,
            invariants=(), properties=(), constraints=(), view=None,
            postcondition=None, defs="", data=None, simulate=None, depth=None,
            workers=1, timeout=600, deadlock=False, verdict=False, symmetry=None,
            label=None, expect_error=False, heap="6g"):
        """Run TLC on spec/<module>.tla.

        constants: name -> TLA+ expression text (defined in a generated MC module)
        data:      name -> Python object, written as JSON and read back as a
                   constant of the generated module
        verdict:   the run judges a trace of the code: clauses that it reports
                   broken are violations
        """
        r = TlcResult()
        d = tempfile.mkdtemp(prefix=f"vp-{self.pid}-")
        t = time.time()
        try:
            for f in os.listdir(SPEC):
                if f.endswith(".tla"):
                    shutil.copy(os.path.join(SPEC, f), d)
            lines = ["---- MODULE MC ----", f"EXTENDS {module}, TLC, Json"]
            cfg = []
            for k, v in (constants or {}).items():
                lines.append(f"mc_{k} == {v}")
                cfg.append(f"CONSTANT {k} <- mc_{k}")
            for k, v in (data or {}).items():
                # specifications name the data through an alias definition,
                # which TLC evaluates once
                with open(os.path.join(d, f"{k}.json"), "w") as fh:
                    json.dump(v, fh, default=lambda o: o.item())
                lines.append(f'mc_{k} == JsonDeserialize("{k}.json")')
                cfg.append(f"CONSTANT {k} <- mc_{k}")
            lines += [defs, "===="]
            with open(os.path.join(d, "MC.tla"), "w") as fh:
                fh.write("\n".join(lines) + "\n")
            if init:
                cfg += [f"INIT {init}", f"NEXT {next}"]
            else:
                cfg.append(f"SPECIFICATION {spec}")
            cfg += [f"INVARIANT {i}" for i in invariants]
            cfg += [f"PROPERTY {i}" for i in properties]
            cfg += [f"CONSTRAINT {i}" for i in constraints]
            if view:
                cfg.append(f"VIEW {view}")
            if postcondition:
                cfg.append(f"POSTCONDITION {postcondition}")
            cfg.append(f"CHECK_DEADLOCK {'TRUE' if deadlock else 'FALSE'}")
            with open(os.path.join(d, "MC.cfg"), "w") as fh:
                fh.write("\n".join(cfg) + "\n")
            cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap,
                   "-Djava.io.tmpdir=" + d, "-cp", JARS, "tlc2.TLC",
                   "-config", "MC.cfg", "-metadir", os.path.join(d, "states"),
                   "-workers", str(workers), "-noGenerateSpecTE"]
            if simulate:
                cmd += ["-simulate", f"num={simulate}", "-depth", str(depth or 20),
                        "-seed", str(self.seed)]
            cmd.append("MC.tla")
            for again in (True, False):
                try:
                    p = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE,
                                       stderr=subprocess.STDOUT, timeout=timeout)
                except subprocess.TimeoutExpired as e:
                    raise MachineryError(f"TLC timed out on {module}") from e
                if p.returncode not in (-9, 137) or not again:
                    break
                # ended from outside for want of memory: once more, later
                time.sleep(20)
            out = p.stdout.decode(errors="replace")
            r.output = out
            for ln in out.splitlines():
                if ln.startswith('"@@C '):
                    r.cases.append(json.loads(json.loads(ln)[4:]))
                elif ln.startswith('"@@B '):
                    r.broken.append(json.loads(json.loads(ln)[4:]))
            m = re.findall(r"(\d+) states generated, (\d+) distinct states", out)
            if m:
                r.generated, r.distinct = int(m[-1][0]), int(m[-1][1])
            else:
                m = re.findall(r"(\d+) states checked", out)
                m2 = re.findall(r"The number of states generated: (\d+)", out)
                n = int((m2 or m or ["0"])[-1])
                r.generated = r.distinct = n
            bad = p.returncode != 0 or "Error:" in out
            over = re.search(r"Overflow when computing [^\n]*", out) if bad else None
            if over and verdict and data:
                # recorded values far outside those of the specification
                at = re.findall(r"^State (\d+):", out, re.M)
                r.broken.append({"clause": "recorded values are of the expected magnitude",
                                 "rec": {"at state": at[-1:], "tlc": over.group(0)}})
                bad = False
            if bad and not expect_error:
                tail = "\n".join(l for l in out.splitlines()
                                 if not l.startswith('"@@'))[-3000:]
                err = out[max(0, out.find("Error:") - 200):][:1500] if "Error:" in out else ""
                raise MachineryError(f"TLC failed on {module}:\n{err}\n...\n{tail[-800:]}")
            r.failed = bad
        finally:
            shutil.rmtree(d, ignore_errors=True)
        r.wall = time.time() - t
        self.states += r.distinct
        self.transitions += r.generated
        self.tlc_runs.append({"module": module, "label": label or "",
                              "states": r.distinct, "transitions": r.generated,
                              "cases": len(r.cases), "wall_s": round(r.wall, 2)})
        if verdict:
            for b in r.broken:
                self.violation(f"{module}: {b.get('clause')}", b)
        return r

    # --------------------------------------------------------------- finish
    def finish(self, out):
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces,
               "samples": self.samples or ["none"], "tlc_runs": self.tlc_runs}
        cov.update(self.extra)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed,
              "level": self.level, "coverage": cov,
              "assumptions": self.assumptions,
              "violations": len(self.violations),
              "wall_s": round(time.time() - self.t0, 2)}
        with open(os.path.join(ROOT, "evidence", f"{self.pid}.json"), "w") as fh:
            json.dump(ev, fh, indent=1, default=str)
        for k, v in self.known_seen.items():
            print(f"KNOWN-FINDING: property={self.pid} {v}", file=out)
        if not self.violations:
            print(f"OK property={self.pid} tier={self.tier} states={self.states} "
                  f"traces={self.traces} wall={ev['wall_s']}s", file=out)
            return 0
        os.makedirs(os.path.join(OUT, "replay"), exist_ok=True)
        path = os.path.join(OUT, "replay", f"{self.pid}.json")
        with open(path, "w") as fh:
            json.dump({"property": self.pid, "tier": self.tier, "seed": self.seed,
                       "violations": self.violations}, fh, indent=1, default=str)
        for v in self.violations[:5]:
            print(f"  broken: {v['clause']}  {json.dumps(v['data'], default=str)[:300]}", file=out)
        print(f"VIOLATION property={self.pid} replay={path}", file=out)
        return 1


_now = time.time     # a check may replace the clock of the code


def _alarm(sig, frame):
    raise ReturnTimeout("the code under test did not return in time")


def short_exc(e):
    return "".join(traceback.format_exception(type(e), e, e.__traceback__))[-2500:]


def from_code(e):
    """Was e raised by the code under test (rather than by the harness)?"""
    tb = e.__traceback__
    hit = False
    while tb is not None:
        if "/ebsdtorch/" in tb.tb_frame.f_code.co_filename:
            hit = True
        tb = tb.tb_next
    if hit:
        return True
    txt = str(e)
    if "/ebsdtorch/" in txt or "TorchScript" in txt:
        return True
    if isinstance(e, (ImportError, AttributeError)) and "ebsdtorch" in txt:
        return True
    return False


def load_known(pid):
    known = {}
    p = os.path.join(ROOT, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r"known: property=(\S+) key=\"([^\"]+)\" (.*)", ln)
            if m and m.group(1) == pid:
                known[m.group(2)] = m.group(3).strip()
    return known


# ------------------------------------------------------------------ helpers
def fx(x, scale):
    """fixed point integer of a float (clipped into TLC's range, NaN -> big)."""
    import math

    x = float(x)
    if math.isnan(x):
        return 2000000000
    v = x * scale
    if v > 2e9:
        return 2000000000
    if v < -2e9:
        return -2000000000
    return int(math.floor(v + 0.5))


def fxs(t, scale):
    """nested list of fixed point integers of a tensor or array."""
    if hasattr(t, "detach"):
        t = t.detach().cpu().double()
        t = t.tolist()
    elif hasattr(t, "tolist"):
        t = t.tolist()
    if isinstance(t, (list, tuple)):
        return [fxs(v, scale) for v in t]
    return fx(t, scale)


def quiet(fn, *a, **k):
    """call fn and swallow what it prints."""
    with contextlib.redirect_stdout(io.StringIO()):
        return fn(*a, **k)


def partitions(rng, n, max_parts=None):
    """a random composition of n."""
    parts = []
    while n > 0:
        k = rng.randint(1, n)
        if max_parts and len(parts) == max_parts - 1:
            k = n
        parts.append(k)
        n -= k
    rng.shuffle(parts)
    return parts
