"""C09: every sequence of solves up to a depth; each outcome equals the one in a fresh process."""
import itertools
import json
import os
import subprocess
import sys

import krylov as K
import numpy as np

LEVEL = "model_checking"
RULE = ("every sequence of solves up to the given length over an alphabet of solves that differ in size, tolerances, limits, restart, "
        "reporting and outcome; a state is a prefix, a transition one solve whose solution, residual, progress lines and error are "
        "compared with those in a fresh process; and every pair over all "
        "combinations of operator, size and setting of a larger menu")
ASSUMPTIONS = ["serial PETSc 3.19 (real)"]


def _a(n):
    return np.diag(np.arange(1.0, n + 1)) + np.eye(n, k=1)


def letters():
    bad = np.diag([1.0, 0.0])
    return {
        "plain": (_a(4), np.ones(4), np.eye(4), {}),
        "big": (_a(12), np.cos(np.arange(12)), np.eye(12), {"maxsteps": 50}),
        "same-norm": (_a(4), 2.0 * np.eye(4)[2], np.eye(4), {}),
        "transposed": (_a(4).T, np.ones(4), np.eye(4), {}),
        "quiet": (_a(4), np.ones(4), np.eye(4), {"printrates": False}),
        "restart": (_a(6), np.ones(6), np.eye(6), {"restart": 2, "maxsteps": 80}),
        "loose": (_a(6), np.ones(6), np.eye(6), {"reltol": 0.1, "printrates": False}),
        "abs": (_a(6), np.ones(6), np.eye(6), {"tol": 0.5, "reltol": 0.0}),
        "limit": (_a(8), np.ones(8), np.eye(8), {"maxsteps": 2}),
        "singular": (bad, np.ones(2), np.eye(2), {}),
        "pre": (_a(6), np.ones(6), np.diag(1.0 / np.arange(1, 7)), {"reltol": 1e-4}),
        "raise": (_a(5), np.ones(5), np.eye(5), {"fault": "raise"}),
        "nan": (_a(5), np.ones(5), np.eye(5), {"fault": "nan", "printrates": False}),
        "shift40": (np.roll(np.eye(40), 1, axis=0), np.eye(40)[0], np.eye(40), {"printrates": False}),
    }


OPERATORS = {"identity": lambda n: 2.0 * np.eye(n), "spread": lambda n: np.diag(np.linspace(1, 30, n)) + np.eye(n, k=1),
             "shift": lambda n: np.roll(np.eye(n), 1, axis=0)}
SETTINGS = [{}, {"restart": 2, "maxsteps": 300}, {"restart": 5, "maxsteps": 300, "reltol": 1e-9}, {"reltol": 0.1}, {"reltol": 1e-10, "maxsteps": 400},
            {"tol": 0.5, "reltol": 0.0}, {"maxsteps": 3}, {"printrates": True}]


def products(tier):
    """Every operator x size x setting; a letter of its own, written out."""
    return [json.dumps([o, n, k]) for o in OPERATORS for n in ((2, 6, 13) if tier == "quick" else (1, 2, 6, 13, 40))
            for k in range(len(SETTINGS))]


def letter_of(name):
    if not name.startswith("["):
        return letters()[name]
    o, n, k = json.loads(name)
    return OPERATORS[o](n), np.cos(np.arange(n)), np.eye(n), {"printrates": False, **SETTINGS[k]}


def outcome(letter):
    A, b, M, kw = letter_of(letter)
    kw = dict(kw)
    f = kw.pop("fault", None)

    def fault(call, out):
        if call == 3:
            if f == "raise":
                raise ValueError("injected")
            return out * np.nan
        return None
    o = K.solve(K.Op(A, fault if f else None), b, K.Pre(M), **kw)
    return {"error": None if o["error"] is None else type(o["error"]).__name__,
            "x": None if o["error"] else [float(v).hex() for v in o["x"]], "r": None if o["error"] else [float(v).hex() for v in o["r"]],
            "progress": o["progress"]}


_fresh = {}


def fresh(letter):
    if letter.startswith("[") and letter not in _fresh:
        o = K.isolated(history, [letter])  # nothing was solved in this process before
        _fresh[letter] = o[0] if isinstance(o, list) else {"error": f"died: {o}", "x": None, "r": None, "progress": []}
    if letter not in _fresh:
        here = os.path.dirname(os.path.abspath(__file__))
        code = (f"import sys, json, os; sys.path[:0] = [{here!r}, {os.path.join(os.path.dirname(here), 'lib')!r}]; import c09; "
                f"o = c09.outcome({letter!r}); sys.stderr.write('@@' + json.dumps(o))")
        p = subprocess.run([sys.executable, "-P", "-c", code], capture_output=True, text=True, timeout=120)
        if "@@" not in p.stderr:
            raise RuntimeError(p.stderr[-2000:])
        _fresh[letter] = json.loads(p.stderr.split("@@", 1)[1])
    return _fresh[letter]


def history(word):
    K.FREE = False
    return [outcome(a) for a in word]


def cases(tier, seed):
    return [{"first": a, "depth": 3 if tier == "quick" else 4} for a in letters()] + [
        {"first": a, "times": t, "second": products(tier)} for a in products(tier) for t in ((1,) if tier == "quick" else (1, 2, 5))]


def run_case(case, rec):
    for words in ([[(case["first"],) * case["times"] + (b,) for b in case["second"]]] if "second" in case else [
            ((case["first"], *rest) for rest in itertools.product(letters(), repeat=n - 1)) for n in range(1, case["depth"] + 1)]):
        for word in words:
            outcomes = K.isolated(history, word)
            if isinstance(outcomes, dict):
                rec.fail("history:died", f"the process running the solves {word} died (status {outcomes['died']})", word=word)
                return
            for i, a in enumerate(word):
                got = outcomes[i]
                rec.step()
                want = fresh(a)
                for part in ("error", "progress", "x", "r"):
                    if got[part] != want[part]:
                        rec.fail(f"history:{part}", f"{part} of solve {a!r} after {word[:i]} is {str(got[part])[:150]}, in a fresh "
                                 f"process {str(want[part])[:150]}", word=word)
                        return
            rec.state(word)
            rec.trace()
    rec.sample({"first": case["first"], "fresh": {k: str(v)[:80] for k, v in fresh(case["first"]).items()}})
