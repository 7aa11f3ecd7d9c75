"""The enumerated space-time configurations shared by several checks."""
import itertools

import stprob as P

FLAGS = [(f, w) for f in (False, True) for w in (False, True)]
ORDERS = [(q, s) for q in range(4) for s in range(4)]
MESHES = (["interval", 1], ["irregular", 3], ["square", 1, 1], ["square", 2, 1], ["skew"], ["quad", 2, 1], ["tet", 1], ["hex", 2, 1, 1])
STABS = ({"data": 1e4, "dual": 1.0, "primal": 1e-3, "primal-jump": 1.0}, {"data": 0.5, "dual": 2.0, "primal": 0.25, "primal-jump": 3.0})


class Bag:
    def __init__(self, allow=lambda c: True):
        self.out, self.seen, self.allow = [], set(), allow

    def add(self, **kw):
        c = P.default_cfg(**kw)
        if c["ks"] > c["k"] + 1 or not self.allow(c):
            return
        key = repr(sorted(c.items(), key=str))
        if key not in self.seen:
            self.seen.add(key)
            self.out.append(c)


def operator_configs(tier, allow=lambda c: True):
    """Small problems for checks that go through all unit vectors: every time order pair x flags, space orders, meshes,
    slab counts, end times, data domains, numberings, weights (pairs of dimensions are combined exhaustively)."""
    b = Bag(allow)
    for (q, s), (f, w) in itertools.product(ORDERS, FLAGS):
        if tier == "quick" and q + s > 3 and (f or not w):
            continue
        b.add(q=q, qs=s, fw=f, wp=w, N=3 if q + s < 4 else 2, T=0.75, mesh=["irregular", 2] if q + s < 4 else ["interval", 1])
    for k, ks in itertools.product((1, 2, 3), (1, 2, 3)):
        b.add(k=k, ks=ks, q=1, qs=1, mesh=["irregular", 2], T=1.25, wp=True)
        b.add(k=k, ks=ks, q=2, qs=0, mesh=["interval", 2], T=1.25, numbering="interleaved")
    for m in MESHES:
        b.add(mesh=m, q=1, qs=0, N=2, omega="rough" if m[0] != "skew" else "unfitted")
        if m[0] not in ("tet", "hex"):
            b.add(mesh=m, k=2, ks=1, q=1, qs=1, N=2, wp=True, T=2.0)
    for N, T in itertools.product((1, 2, 3, 4, 5), (0.5, 1.0, 2.0)):
        for f, w in FLAGS:
            b.add(N=N, T=T, fw=f, wp=w, q=1, qs=0, mesh=["irregular", 2])
    for (N, T), (f, w) in itertools.product(((9, 4.5), (13, 0.01), (2, 1e-4), (2, 60.0), (6, 200.0)), FLAGS):
        b.add(N=N, T=T, fw=f, wp=w, q=1, qs=0, mesh=["interval", 1 + (N < 7)])
    for f, w in FLAGS:
        b.add(N=36, T=9.0, fw=f, wp=w, q=1, qs=0, mesh=["interval", 1])
    b.add(q=3, qs=3, k=2, ks=2, N=6, wp=True, mesh=["interval", 1], T=3.0)
    b.add(q=1, qs=1, k=1, ks=1, N=2, mesh=["irregular", 12], T=3.0, omega="rough")
    for m in (["scaled", 3, 0.02], ["scaled", 3, 40.0], ["interval", 48], ["square", 4, 4]):
        for w in (False, True):
            b.add(mesh=m, q=w, qs=0, N=2, wp=w, fw=w and m[0] == "scaled", T=0.6)
    for om, num in itertools.product(("half", "rough", "unfitted"), ("blocked", "interleaved", "permuted")):
        b.add(omega=om, numbering=num, mesh=["irregular", 3], q=1, qs=1)
    for stab in STABS:
        for f, w in FLAGS:
            b.add(stab=stab, fw=f, wp=w, q=2, qs=1, k=2)
    if tier != "quick":
        for (q, s), (f, w), (k, ks), N in itertools.product(ORDERS, FLAGS, ((1, 1), (2, 1), (2, 2)), (1, 2, 3)):
            b.add(q=q, qs=s, fw=f, wp=w, k=k, ks=ks, N=N, mesh=["irregular", 2], T=1.5, omega="rough")
        for m in MESHES:
            for (q, s), (k, ks), w in itertools.product(((0, 0), (1, 1), (2, 0)), ((1, 1), (2, 1)), (False, True)):
                b.add(mesh=m, q=q, qs=s, k=k, ks=ks, N=2, T=0.7, wp=w)
    return b.out


def chunk(cfgs, size, name="cfgs"):
    n = max(1, -(-len(cfgs) // size))
    return [{name: cfgs[i::n]} for i in range(n)]
