"""Driver shared by all checks.

A check is a module ``checks/<id>.py`` with a function ``case(c)``.  ``case`` runs one
randomly generated workload against the real magnopy code and judges, through the
monitors, everything that the code did.  It reports through ``c``:

* ``c.rng``          generator that depends only on (property, seed, index of the case)
* ``c.op(...)``      append one line to the trace of the workload (for the replay file)
* ``c.ev(kind, n)``  count events that a monitor has actually judged
* ``c.state(x)``     remember a fingerprint of a judged state (distinct states are counted)
* ``c.check(cond, what, ...)``  the oracle; raises Violation
* ``c.tmp()``        scratch directory, removed after the case

Verdicts: 0 - held on everything that was observed, 1 - violation (VIOLATION line),
2 - the run is inconclusive (monitors saw too little, or a workload had to be stopped).
"""

import collections
import hashlib
import importlib
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
EVIDENCE = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.txt")


class Violation(Exception):
    def __init__(self, what, key=None, **detail):
        super().__init__(what)
        self.what = what
        self.key = key or what
        self.detail = detail


class Stopped(BaseException):
    """The case did not finish in the (very generous) limit of wall-clock time."""


class Endless(BaseException):
    """The case consumed an absurd amount of processor time (it needs less than a
    hundredth of it, whatever the load of the machine is): the code does not terminate."""


def fingerprint(x):
    return hashlib.blake2b(repr(x).encode(), digest_size=8).hexdigest()


_home = {}


class Case:
    def __init__(self, prop, seed, index, tier):
        import numpy as np

        self.prop, self.seed, self.index, self.tier = prop, seed, index, tier
        h = int.from_bytes(
            hashlib.blake2b(f"{prop}/{seed}/{index}".encode(), digest_size=8).digest(),
            "big",
        )
        self.rng = np.random.default_rng(h)
        # The code under test uses the global generator for random initial guesses
        np.random.seed(h % 2**32)
        self.events = collections.Counter()
        self.states = set()
        self.trace = []
        self.sample = None
        self._tmp = None

    # -- monitors -----------------------------------------------------------------
    def op(self, *args):
        if len(self.trace) < 400:
            self.trace.append(" ".join(str(a) for a in args)[:2000])

    def ev(self, kind, n=1):
        self.events[kind] += n

    def state(self, x):
        self.states.add(fingerprint(x))

    def check(self, cond, what, key=None, **detail):
        if not cond:
            raise Violation(what, key=key, **detail)

    def close(self, got, want, what, rtol=1e-9, atol=1e-9, scale=None, **detail):
        """got == want with the tolerance atol + rtol * (magnitude of the problem)."""
        import numpy as np

        got, want = np.asarray(got), np.asarray(want)
        if got.shape != want.shape:
            raise Violation(
                f"{what}: shape {got.shape} instead of {want.shape}", **detail
            )
        if got.size == 0:
            return
        if scale is None:
            scale = float(np.max(np.abs(want)))
        diff = np.abs(got - want)
        bad = not np.all(np.isfinite(got)) or not np.all(diff <= atol + rtol * scale)
        if bad:
            raise Violation(
                f"{what}: differs by {float(np.max(diff)):.3e} (scale {scale:.3e})",
                got=got.tolist() if got.dtype != complex else str(got),
                want=want.tolist() if want.dtype != complex else str(want),
                **detail,
            )

    def raises(self, exc, fn, what, **detail):
        """fn() has to be refused with exc."""
        try:
            fn()
        except exc:
            return
        except Violation:
            raise
        except Exception as e:
            raise Violation(
                f"{what}: {type(e).__name__} ({e}) instead of {exc}", **detail
            )
        raise Violation(f"{what}: was accepted", **detail)

    def tmp(self):
        if self._tmp is None:
            # All cases of one process use the same path: what the code remembers about
            # the files of one case must not come through in the next ones
            if _home.get("pid") == os.getpid():
                try:
                    os.mkdir(_home["path"], 0o700)
                    self._tmp = _home["path"]
                except OSError:
                    pass
            if self._tmp is None:
                self._tmp = tempfile.mkdtemp(prefix="verif_")
                _home.update(pid=os.getpid(), path=self._tmp)
        return self._tmp

    def cleanup(self):
        if self._tmp is not None:
            os.chdir("/")
            shutil.rmtree(self._tmp, ignore_errors=True)
            self._tmp = None


def known_findings(prop):
    """{key: text} of the findings that are recorded and not repaired."""
    result = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN, encoding="utf-8"):
            if line.startswith(f"finding: property={prop} key="):
                key, _, text = line.split("key=", 1)[1].strip().partition(" | ")
                result[key] = text
    return result


_module = None
_tier = None
_seed = None
_limit = None


CPU_LIMIT = 150


def _alarm(*_):
    raise Stopped()


def _prof(*_):
    raise Endless()


def run_case(prop, module, seed, index, tier, limit=None):
    """One case -> dict with the observations and, maybe, with the violation."""
    c = Case(prop, seed, index, tier)
    result = {"index": index, "violation": None, "stopped": False}
    cwd = os.getcwd()
    try:
        if limit:
            signal.signal(signal.SIGALRM, _alarm)
            signal.alarm(limit)
            signal.signal(signal.SIGPROF, _prof)
            signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT)
        module.case(c)
    except Violation as v:
        result["violation"] = {"what": v.what, "key": v.key, "detail": v.detail}
    except Endless:
        result["violation"] = {
            "what": f"the operation did not end in {CPU_LIMIT} s of processor time",
            "key": "endless",
            "detail": {},
        }
    except Stopped:
        result["stopped"] = True
        result["violation"] = None
    except (Exception, SystemExit) as e:
        # Every operation of the workload is legal: an exception that the workload does
        # not expect is a failure of the operation.
        tb = traceback.extract_tb(e.__traceback__)
        result["violation"] = {
            "what": f"unexpected {type(e).__name__}: {e}",
            "key": f"unexpected {type(e).__name__}",
            "detail": {
                "traceback": [f"{f.filename}:{f.lineno} {f.name}" for f in tb][-8:]
            },
        }
    finally:
        if limit:
            signal.alarm(0)
            signal.setitimer(signal.ITIMER_PROF, 0)
        c.cleanup()
        os.chdir(cwd)
    result.update(
        events=c.events, states=c.states, trace=c.trace, sample=c.sample or c.trace[:12]
    )
    if result["violation"] is None and not result["stopped"]:
        result["trace"] = None
        if index > 2:
            result["sample"] = None
    return result


def _quiet():
    """Output of the code under test is not needed (it is judged where it matters)."""
    import logging

    logging.disable(logging.CRITICAL)
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    os.dup2(null, 2)


def _work(conn):
    """Process that executes the requested cases, one by one."""
    _quiet()
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    while True:
        index = conn.recv()
        if index is None:
            os._exit(0)
        conn.send(run_case(_module.PROP, _module, _seed, index, _tier, _limit))


class Workers:
    """Pool of processes that survives death of any of them.

    A case that kills its process is repeated once; the second death is reported."""

    FATAL = (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL)

    def __init__(self, procs):
        self.ctx = mp.get_context("fork")
        self.procs = procs
        self.alive = {}  # connection -> [process, index, time of the start]
        self.died = collections.Counter()
        # Everything temporary is in one place, also if the processes are killed
        self.base = tempfile.mkdtemp(prefix="verif_")
        tempfile.tempdir = self.base

    def start(self):
        here, there = self.ctx.Pipe()
        p = self.ctx.Process(target=_work, args=(there,), daemon=True)
        p.start()
        there.close()
        self.alive[here] = [p, None, 0.0]
        return here

    def run(self, indices):
        todo = collections.deque(indices)
        for _ in range(min(self.procs, len(todo))):
            self.start()
        for conn in list(self.alive):
            self.give(conn, todo)
        while any(x[1] is not None for x in self.alive.values()):
            busy = [k for k, x in self.alive.items() if x[1] is not None]
            for conn in mp.connection.wait(busy, timeout=5):
                index = self.alive[conn][1]
                try:
                    result = conn.recv()
                except (EOFError, OSError):
                    result = self.dead(conn, index, todo)
                else:
                    self.give(conn, todo)
                if result is not None:
                    yield result
            for conn in [k for k, x in self.alive.items() if x[1] is not None]:
                p, index, t = self.alive[conn]
                if time.time() - t > _limit + 60:
                    p.kill()

    def give(self, conn, todo):
        x = self.alive[conn]
        if todo:
            x[1], x[2] = todo.popleft(), time.time()
            try:
                conn.send(x[1])
            except OSError:
                pass  # will be noticed as the end of file
        else:
            x[1] = None

    def dead(self, conn, index, todo):
        p = self.alive.pop(conn)[0]
        conn.close()
        p.join(10)
        code = p.exitcode
        self.died[index] += 1
        result = None
        if self.died[index] < 2:
            todo.appendleft(index)
        else:
            result = {
                "index": index,
                "violation": None,
                "stopped": True,
                "events": {},
                "states": set(),
                "trace": [f"process ended with {code}"],
                "sample": None,
            }
            if code is not None and -code in self.FATAL:
                result["stopped"] = False
                result["violation"] = {
                    "what": f"the interpreter was killed by the signal {-code}",
                    "key": f"signal {-code}",
                    "detail": {},
                }
        if todo:
            self.give(self.start(), todo)
        return result

    def stop(self):
        for conn, (p, _, _) in self.alive.items():
            p.kill()
            conn.close()
        for p, _, _ in self.alive.values():
            p.join(10)
        self.alive = {}
        tempfile.tempdir = None
        shutil.rmtree(self.base, ignore_errors=True)


def _jsonable(x):
    try:
        json.dumps(x)
        return x
    except TypeError:
        if isinstance(x, dict):
            return {str(k): _jsonable(v) for k, v in x.items()}
        if isinstance(x, (list, tuple)):
            return [_jsonable(v) for v in x]
        return repr(x)[:4000]


def main(argv):
    global _module, _tier, _seed, _limit
    if argv[0] == "--self-test":
        import h5py, matplotlib, numpy, scipy, wulfric  # noqa
        import magnopy

        print(magnopy.__file__)
        return 0
    if argv[0] == "--replay":
        return replay(argv[1])
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    os.makedirs(EVIDENCE, exist_ok=True)

    evidence_file = os.path.join(EVIDENCE, f"{prop}.json")
    if os.path.exists(evidence_file):
        os.remove(evidence_file)

    import magnopy

    where = os.path.abspath(magnopy.__file__)
    if not where.startswith(os.path.join(REPO, "src")):
        print(f"magnopy is imported from {where}, not from {REPO}", file=sys.stderr)
        return 2

    _module = importlib.import_module(f"checks.{prop.lower()}")
    _tier, _seed = tier, seed
    n_cases = _module.QUICK if tier == "quick" else _module.THOROUGH
    n_cases = int(os.environ.get("VERIF_CASES", n_cases))
    budget = 420 if tier == "quick" else 3000
    budget = float(os.environ.get("VERIF_BUDGET", budget))
    _limit = 300

    events = collections.Counter()
    states = set()
    violations, samples, stopped, done = [], [], 0, 0
    truncated = False
    known = known_findings(prop)
    known_seen = collections.Counter()

    procs = max(1, min(8, len(os.sched_getaffinity(0))))
    sys.stdout.flush()
    pool = Workers(procs)
    try:
        for r in pool.run(range(n_cases)):
            done += 1
            events.update(r["events"])
            states |= r["states"]
            if r["index"] <= 2 and r["sample"]:
                samples.append({"case": r["index"], "trace": r["sample"]})
            if r["stopped"]:
                stopped += 1
            v = r["violation"]
            if v is not None:
                if v["key"] in known:
                    known_seen[v["key"]] += 1
                else:
                    violations.append(r)
                    if len(violations) >= 5:
                        truncated = True
                        break
            if time.time() - t0 > budget:
                truncated = True
                break
    finally:
        pool.stop()

    for key in known:
        print(f"KNOWN-FINDING: property={prop} {known[key]}")

    # Replay files
    out = []
    for r in sorted(violations, key=lambda r: r["index"])[:5]:
        v = r["violation"]
        path = os.path.join(EVIDENCE, f"replay_{prop}_{seed}_{r['index']}.json")
        with open(path, "w", encoding="utf-8") as f:
            json.dump(
                {
                    "property": prop,
                    "seed": seed,
                    "case": r["index"],
                    "tier": tier,
                    "what": v["what"],
                    "detail": _jsonable(v["detail"]),
                    "trace": r["trace"],
                    "how": f"bash {VERIF}/run.sh --replay {path}",
                },
                f,
                indent=1,
            )
        out.append((path, v["what"]))

    missing = [
        f"{k} ({events.get(k, 0)} < {n})"
        for k, n in getattr(_module, "EXPECT", {}).items()
        if events.get(k, 0) < n
    ]

    wall = time.time() - t0
    with open(evidence_file, "w", encoding="utf-8") as f:
        json.dump(
            {
                "property": prop,
                "tier": tier,
                "seed": seed,
                "level": "exploration",
                "coverage": {
                    "evaluations": done,
                    "distinct_nontrivial": len(states),
                    "rule": _module.RULE,
                    "samples": samples or [{"case": 0, "trace": []}],
                    "judged_events": int(sum(events.values())),
                    "workloads_planned": n_cases,
                    "truncated": truncated,
                    "stopped_workloads": stopped,
                    "events": dict(sorted(events.items())),
                    "known_findings_seen": dict(known_seen),
                    "processes": procs,
                    "replays": [{"replay": p, "what": w[:500]} for p, w in out],
                },
                "assumptions": getattr(_module, "ASSUMPTIONS", []),
                "violations": len(violations),
                "wall_s": round(wall, 2),
            },
            f,
            indent=1,
        )

    print(
        f"{prop} {tier} seed={seed}: {done}/{n_cases} workloads, "
        f"{sum(events.values())} judged events of {len(events)} kinds, "
        f"{len(states)} distinct states, {wall:.1f} s"
    )
    for k, n in sorted(events.items()):
        print(f"    {k}: {n}")
    if out:
        for path, what in out:
            print(f"  {what}")
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    if stopped or (missing and not truncated) or not events or missing:
        print(f"INCONCLUSIVE property={prop} stopped={stopped} missing={missing}")
        return 2
    return 0


def replay(path):
    data = json.load(open(path, encoding="utf-8"))
    prop = data["property"]
    module = importlib.import_module(f"checks.{prop.lower()}")
    r = run_case(prop, module, data["seed"], data["case"], data["tier"])
    if not r["violation"]:
        # It may need what has been executed before in the same process
        before = range(max(0, data["case"] - 200), data["case"])
        for index in before:
            run_case(prop, module, data["seed"], index, data["tier"])
        r = run_case(prop, module, data["seed"], data["case"], data["tier"])
        if r["violation"]:
            print(f"   after the workloads {before[0]}-{before[-1]}")
    for line in r["trace"] or []:
        print("  ", line)
    if r["violation"]:
        print(json.dumps(_jsonable(r["violation"]), indent=1))
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    print("the violation is not reproduced")
    return 0

