"""Runs one check: distributes its cases over worker processes, merges what they covered, writes the evidence.

A check module (checks/<id>.py) defines
  LEVEL, RULE, ASSUMPTIONS
  cases(tier, seed) -> list of JSON-able dicts (the exhaustively enumerated top-level choices, simplest first)
  run_case(case, rec) -> None; reports to the Recorder (states, transitions, validated traces, failures)
Optional: TIMEOUT (seconds per case), WORKERS, TIMEOUT_IS_VIOLATION, finalize(tier, coverage) -> list of failures.
"""
from __future__ import annotations

import hashlib
import importlib
import json
import os
import queue
import subprocess
import sys
import tempfile
import threading
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import paths  # noqa: E402

VERIF = paths.VERIF
sys.path.insert(0, str(VERIF / "checks"))


class HarnessError(Exception):
    """The harness cannot give an answer (not a violation)."""


class Recorder:
    """What one case covered."""

    def __init__(self):
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.failures = []
        self.samples = []
        self.extra = {}

    def state(self, *key):
        self.states.add(hashlib.blake2b(repr(key).encode(), digest_size=8).hexdigest())

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def fail(self, key, message, **replay):
        """key identifies the failing input / call site / history (used for known findings)."""
        self.failures.append({"key": str(key), "message": str(message)[:2000], "detail": replay})

    def expect(self, ok, key, message, **replay):
        if not ok:
            self.fail(key, message, **replay)
        return ok

    def sample(self, s):
        if len(self.samples) < 2:
            self.samples.append(s)

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    def dump(self):
        return {"states": sorted(self.states), "transitions": self.transitions, "traces": self.traces,
                "failures": self.failures, "samples": self.samples, "extra": self.extra}


def classify(exc):
    """'violation' if the exception came out of the code under test, else 'harness'."""
    if isinstance(exc, HarnessError):
        return "harness"
    names = {c.__name__ for c in type(exc).__mro__}
    if "Unsupported" in names or "NotImplementedError" in names:
        frames = traceback.extract_tb(exc.__traceback__)
        if frames and str(paths.FAKE) in frames[-1].filename:
            return "harness"
    for fr in traceback.extract_tb(exc.__traceback__):
        if fr.filename.startswith(str(paths.SRC)) or "/src/dxss/" in fr.filename:
            return "violation"
    # a judgement that fails over a malformed result (nothing returned, another shape, not a number)
    text = str(exc)
    if names & {"TypeError", "ValueError", "IndexError", "ZeroDivisionError", "LinAlgError"} and not any(w in text for w in ("positional argument", "keyword argument")):
        frames = traceback.extract_tb(exc.__traceback__)
        if frames and str(paths.FAKE) not in frames[-1].filename and any(str(VERIF / "checks") in fr.filename for fr in frames):
            return "violation"
    return "harness"


def guarded(rec, key, f, *a, **k):
    """Run f; an exception from the code under test is a failure. Returns (ok, value)."""
    try:
        return True, f(*a, **k)
    except Exception as e:  # noqa: BLE001
        if classify(e) == "harness":
            raise
        rec.fail(key, f"raised {type(e).__name__}: {e}", trace=traceback.format_exc()[-1500:])
        return False, None


def worker_main(modname):
    out = os.fdopen(os.dup(1), "w")
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get("VERIF_SHOW"):
        err = os.open(os.environ.get("VERIF_WORKER_LOG", os.devnull), os.O_WRONLY | os.O_CREAT | os.O_APPEND)
        os.dup2(err, 2)
    mod = None
    for line in sys.stdin:
        case = json.loads(line)
        rec = Recorder()
        res = {}
        try:
            if mod is None:
                mod = importlib.import_module(modname)
            mod.run_case(case, rec)
        except BaseException as e:  # noqa: BLE001
            if isinstance(e, KeyboardInterrupt):
                raise
            if classify(e) == "violation":
                rec.fail(f"exception:{type(e).__name__}", f"{type(e).__name__}: {e}", trace=traceback.format_exc()[-2500:])
            else:
                res["harness_error"] = traceback.format_exc()[-3000:]
        res.update(rec.dump())
        out.write(json.dumps(res, default=str) + "\n")
        out.flush()
    out.close()
    os._exit(0)


class Worker:
    def __init__(self, modname):
        self.p = subprocess.Popen([sys.executable, "-P", os.path.abspath(__file__), "--worker", modname],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, cwd="/tmp",
                                  start_new_session=True)

    def call(self, case, timeout):
        box = []

        def reader():
            box.append(self.p.stdout.readline())
        try:
            self.p.stdin.write(json.dumps(case) + "\n")
            self.p.stdin.flush()
        except BrokenPipeError:
            return "crash", None
        t = threading.Thread(target=reader, daemon=True)
        t.start()
        t.join(timeout)
        if t.is_alive():
            self.kill()
            return "timeout", None
        if not box or not box[0]:
            self.p.wait()
            return "crash", self.p.returncode
        return "ok", json.loads(box[0])

    def kill(self):
        try:
            os.killpg(self.p.pid, 9)
        except ProcessLookupError:
            pass
        self.p.wait()

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(10)
        except Exception:  # noqa: BLE001
            self.kill()


def run_pool(modname, cases, nworkers, timeout, deadline, stop_on=None):
    """stop_on: development aid, stops at the first result for which it holds."""
    todo = queue.Queue()
    for i, c in enumerate(cases):
        todo.put((i, c))
    results = [None] * len(cases)

    def loop():
        w = None
        while True:
            try:
                i, c = todo.get_nowait()
            except queue.Empty:
                break
            if time.time() > deadline:
                results[i] = {"skipped": True}
                continue
            for attempt in range(2):
                if w is None:
                    w = Worker(modname)
                st, res = w.call(c, timeout)
                if st == "ok":
                    results[i] = res
                    if stop_on and stop_on(res):
                        while not todo.empty():
                            try:
                                results[todo.get_nowait()[0]] = {"skipped": True}
                            except queue.Empty:
                                pass
                    break
                w.kill()
                w = None
                if attempt == 1:
                    results[i] = {"bad": st, "code": res}
        if w is not None:
            w.close()
    ts = [threading.Thread(target=loop) for _ in range(max(1, min(nworkers, len(cases))))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    return results


def known_findings(pid):
    path = VERIF / "KNOWN_FINDINGS.json"
    if not path.exists():
        return []
    return [f for f in json.loads(path.read_text())["findings"] if f["property"] == pid]


def main(argv):
    if argv[:1] == ["--worker"]:
        worker_main(argv[1])
        return 0
    if argv[:1] == ["--selftest"]:
        import selftest
        return selftest.main()
    if argv[:1] == ["--replay"]:
        return replay(argv[1])
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    os.environ["VERIF_TIER"] = tier
    t0 = time.time()
    modname = pid.lower()
    mod = importlib.import_module(modname)
    cases = mod.cases(tier, seed)
    budget = float(os.environ.get("VERIF_BUDGET", 780 if tier == "quick" else 6 * 3600))
    nworkers = getattr(mod, "WORKERS", min(8, os.cpu_count() or 8))
    timeout = getattr(mod, "TIMEOUT", 240) * (1 if tier == "quick" else 10)
    known = {k["key"] for k in known_findings(pid)}
    stop = None
    if os.environ.get("VERIF_FAILFAST"):
        nworkers = min(nworkers, int(os.environ["VERIF_FAILFAST"]))

        def stop(r):
            return any(f["key"] not in known for f in r["failures"])
    with tempfile.TemporaryDirectory(prefix=f"verif-{pid}-", ignore_cleanup_errors=True) as scratch:
        os.environ["TMPDIR"] = scratch  # everything the workers (and MPI) put into a temporary directory goes with it
        results = run_pool(modname, cases, nworkers, timeout, t0 + budget, stop)

    states, transitions, traces = set(), 0, 0
    failures, samples, extra, errors, skipped = [], [], {}, [], 0
    for i, (case, r) in enumerate(zip(cases, results)):
        if r.get("skipped"):
            skipped += 1
            continue
        if "bad" in r:
            what = ("the process died (code %s)" % r["code"]) if r["bad"] == "crash" else f"no answer within {timeout} s"
            failures.append({"key": r["bad"], "message": f"{what} in case {case}", "detail": {}, "case": case})
            continue
        if "harness_error" in r:
            errors.append((case, r["harness_error"]))
        states.update(r["states"])
        transitions += r["transitions"]
        traces += r["traces"]
        for f in r["failures"]:
            failures.append({**f, "case": case})
        samples += [{"case": case, "observed": s} for s in r["samples"]]
        for k, v in r["extra"].items():
            extra[k] = extra.get(k, 0) + v
    if hasattr(mod, "finalize"):
        for f in mod.finalize(tier, cases, results):
            failures.append({**f, "case": f.get("case")})

    findings = known_findings(pid)
    seen, new = {}, []
    for f in failures:
        hit = next((k for k in findings if k["key"] == f["key"]), None)
        if hit:
            seen[hit["key"]] = hit
        else:
            new.append(f)

    step = max(1, len(samples) // 5)
    cov = {
        "states": len(states), "transitions": transitions, "traces_validated_against_impl": traces,
        "samples": samples[::step][:6], "exhaustive": not skipped and not errors, "cases": len(cases), "rule": mod.RULE,
        "bounds": mod.bounds(tier) if hasattr(mod, "bounds") else mod.RULE, **extra,
    }
    if mod.LEVEL in ("exploration", "fault_enumeration"):
        cov["evaluations"] = traces
        cov["distinct_nontrivial"] = len(states)
    ev = {"property": pid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": mod.LEVEL,
          "coverage": cov, "assumptions": list(mod.ASSUMPTIONS), "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    (VERIF / "evidence").mkdir(exist_ok=True)
    (VERIF / "evidence" / f"{pid}.json").write_text(json.dumps(ev, indent=1, default=str) + "\n")

    print(f"{pid} {tier}: {len(cases)} cases, {len(states)} states, {transitions} transitions, {traces} traces validated, "
          f"{time.time() - t0:.1f} s")
    for k in seen.values():
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    for case, tb in errors[:3]:
        print(f"HARNESS ERROR in case {case}:\n{tb}")
    if new:
        d = VERIF / "out" / "replays"
        d.mkdir(parents=True, exist_ok=True)
        shown = set()
        for n, f in enumerate(new):
            if f["key"] in shown or len(shown) >= 5:
                continue
            shown.add(f["key"])
            p = d / f"{pid}-{len(shown)}.json"
            p.write_text(json.dumps({"property": pid, **f}, indent=1, default=str))
            print(f"  {f['key']}: {f['message'][:400]}  [case {json.dumps(f['case'])[:300]}]")
            print(f"VIOLATION property={pid} replay={p}")
        return 1
    if errors:
        return 2
    if skipped:
        print(f"{skipped} of {len(cases)} cases not reached within the time budget")
        return 2
    if not states or not traces:
        print("nothing was explored")
        return 2
    return 0


def replay(path):
    r = json.loads(open(path).read())
    mod = importlib.import_module(r["property"].lower())
    rec = Recorder()
    try:
        mod.run_case(r["case"], rec)
    except Exception as e:  # noqa: BLE001
        traceback.print_exc()
        if classify(e) != "violation":
            return 2
        rec.fail(f"exception:{type(e).__name__}", str(e))
    for f in rec.failures:
        print(f["key"], f["message"])
        print(json.dumps(f["detail"], indent=1, default=str))
    return 1 if rec.failures else 0


if __name__ == "__main__":
    sys.modules["runner"] = sys.modules["__main__"]
    sys.exit(main(sys.argv[1:]))
