"""C01: tabulated time-integration matrices against exact rational integrals, after every history of calls."""
import itertools

import numpy as np
import stprob as P
from runner import guarded

LEVEL = "model_checking"
RULE = ("every ordered history of calls (order pairs, optionally altering the delivered tables in place afterwards) up to the given "
        "length; a state is a history prefix, a transition one call whose six tables are compared entry by entry with exact "
        "rational integrals")
ASSUMPTIONS = ["none beyond the bound on the history length; the real function runs with the installed sympy"]
PAIRS = [(q, s) for q in range(4) for s in range(4)]
get = P._real_elmat
WANT = {p: P.time_float(*p) for p in PAIRS}


def bounds(tier):
    return "all 256 ordered pairs of calls" + ("" if tier == "quick" else ", all triples among orders summing to at most 3") + \
        ", each with and without altering the earlier results"


def cases(tier, seed):
    out = [{"first": list(p), "depth": 2} for p in PAIRS]
    if tier != "quick":
        out += [{"first": list(p), "depth": 3} for p in PAIRS if sum(p) <= 3]
    return out


def call(rec, pair, history):
    ok, r = guarded(rec, "raises", get, *pair)
    if not ok:
        return None
    rec.step()
    rec.state(history, pair)
    want = WANT[pair]
    for name, w in want.items():
        if not rec.expect(name in r, f"missing:{name}", f"table {name} missing for orders {pair}"):
            return None
        m = np.array(r[name], dtype=float)
        ok = m.shape == w.shape and np.all(np.abs(m - w) <= 1e-12 * (1 + np.abs(w)))
        if not rec.expect(ok, f"entries:{name}", f"{name} for q={pair[0]}, qstar={pair[1]} after {history}: got {m.tolist()}, exact {w.tolist()}",
                          history=history, pair=pair):
            return None
    return r


def spoil(r):
    for m in r.values():
        try:
            m[...] = -77.5
        except (ValueError, TypeError):
            pass        # a read-only table cannot be altered


def run_case(case, rec):
    first = tuple(case["first"])
    words = [(first, *w) for w in itertools.product(PAIRS if case["depth"] == 2 else [p for p in PAIRS if sum(p) <= 3], repeat=case["depth"] - 1)]
    for i, w in enumerate(words):
        held = []
        for n, pair in enumerate(w):
            if n == 0 and i and not rec.failures:
                # the first call is repeated (and spoilt) once per four words; its spoilt result stays alive otherwise
                if i % 4:
                    held.append(keep)
                    continue
            r = call(rec, pair, w[:n])
            if r is None:
                return
            before = {k: np.array(v, dtype=float) for k, v in r.items()}
            for h, _ in held:
                spoil(h)
            same = all(np.array_equal(before[k], np.array(r[k], dtype=float)) for k in before)
            if not rec.expect(same, "aliased", f"tables of call {pair} change when the result of an earlier call in {w[:n]} is altered"):
                return
            held.append((r, before))
            if n == 0:
                keep = held[0]
        rec.trace()
    rec.sample({"first": first, "words": len(words)})
