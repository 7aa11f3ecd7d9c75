"""Explicit-state and stateless search with process snapshots: every branch of a search runs in a forked child, so the
parent keeps the exact state (library objects included) from which the next branch starts."""
import hashlib
import os
import pickle
import sys
import traceback

import numpy as np


class Died(Exception):
    pass


def branch(f, *args):
    """f(*args) in a forked child; its picklable result. Exceptions of f are re-raised as text in Died."""
    rd, wr = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rd)
            try:
                data = pickle.dumps(("ok", f(*args)))
            except BaseException:  # noqa: BLE001
                data = pickle.dumps(("exc", traceback.format_exc()[-3000:]))
            with os.fdopen(wr, "wb") as w:
                w.write(data)
        finally:
            os._exit(0)
    os.close(wr)
    with os.fdopen(rd, "rb") as r:
        data = r.read()
    _, status = os.waitpid(pid, 0)
    if not data:
        raise Died(f"process died with status {status}")
    kind, value = pickle.loads(data)
    if kind == "exc":
        raise Died(value)
    return value


def _sig(v, depth=0):
    name = type(v).__name__
    if v is None or isinstance(v, (bool, int, str)):
        return repr(v)
    if isinstance(v, float):
        return f"{v:.12g}"
    if name == "Mat":
        i, j, a = v.getValuesCSR()
        # values to single precision: assembling the same form twice may differ in the last bits
        return "Mat" + hashlib.blake2b(np.asarray(a, dtype=np.float32).tobytes() + j.tobytes(), digest_size=6).hexdigest()
    if name == "Form":
        for attr in ("ufl", "ufl_form"):
            f = getattr(v, attr, None)
            if f is not None and hasattr(f, "integrals"):
                return f"Form{len(f.integrals())}"
        return "Form"
    if isinstance(v, (list, tuple)) and depth < 2 and len(v) < 12:
        return name + "[" + ",".join(_sig(x, depth + 1) for x in v) + "]"
    if isinstance(v, dict) and depth < 2:
        return "{" + ",".join(f"{k}:{_sig(x, depth + 1)}" for k, x in sorted(v.items(), key=str)) + "}"
    return name


def fingerprint(obj):
    """Abstraction of an object's state: which of its attributes exist, plain values, and matrix contents."""
    text = ";".join(f"{k}={_sig(v)}" for k, v in sorted(vars(obj).items()))
    return hashlib.blake2b(text.encode(), digest_size=8).hexdigest()


class Search:
    """Depth-first search over all reachable states. enabled(path) -> letters; step(letter, path) executes the letter on the
    current process' objects and returns a list of (key, message) failures; state() -> fingerprint."""

    def __init__(self, enabled, step, state, limit=100000):
        self.enabled, self.step, self.state, self.limit = enabled, step, state, limit

    def run(self):
        s0 = self.state()
        seen, edges, fails = {s0}, 0, []
        stats = self._visit(s0, (), seen)
        return stats

    def _visit(self, s, path, seen):
        edges, fails, longest = 0, [], len(path)
        for a in self.enabled(path):
            if len(fails) >= 3 or len(seen) > self.limit:
                break
            try:
                new, e, f, d = branch(self._take, a, path, seen)
            except Died as x:
                return seen, edges, [*fails, ("died", f"{str(x)[-1500:]} after {(*path, a)}", (*path, a))], longest
            seen |= new
            edges += e
            fails += f
            longest = max(longest, d)
        return seen, edges, fails, longest

    def _take(self, a, path, seen):
        fails = [(k, m, (*path, a)) for k, m in self.step(a, path)]
        if fails:
            return set(), 1, fails, len(path) + 1
        s = self.state()
        if s in seen:
            return set(), 1, [], len(path) + 1
        before = set(seen)
        new = set(seen)
        new.add(s)
        got, e, f, d = self._visit(s, (*path, a), new)
        return got - before, e + 1, f, d
