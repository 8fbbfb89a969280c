"""On-site parameters as exchange parameters: the merged view has the same energy."""

import numpy as np

from vlib import gen, history, oracle

PROP = "P06"
QUICK, THOROUGH = 16000, 150000
RULE = (
    "At random points of random histories the energy of random spin directions is computed "
    "from the merged view (only the exchange factor is used) and from the separate exchange "
    "and on-site parameters.  Distinct = distinct (notation, stored keys)."
)
EXPECT = {"views judged": 5000, "with on-site terms": 3000}
ASSUMPTIONS = []

WEIGHTS = dict(
    change_notation=8,
    add_bond=3,
    remove_bond=1,
    add_site=3,
    remove_site=1,
    remove_atom=0.4,
    add_atom=0.6,
    copy=0.2,
)


def judge(c, h):
    rng = c.rng
    snap = oracle.snapshot(h)
    dc, sn, ef, of = snap["notation"]
    view = h.exchange_like
    c.check(
        len(view) == len(snap["exchange"]) + len(snap["on_site"]),
        f"length of the merged view is {len(view)}",
    )
    seen = {}
    for a, b, r, p in view:
        k = (a.name, a.index, b.name, b.index, tuple(int(x) for x in r))
        c.check(k not in seen, f"{k} is listed twice in the merged view")
        seen[k] = np.array(p.matrix)
    want = set(snap["exchange"]) | {(*k, *k, (0, 0, 0)) for k in snap["on_site"]}
    c.check(
        set(seen) == want,
        f"keys of the merged view differ: {sorted(set(seen) ^ want, key=str)[:4]}",
    )
    for k, J in snap["exchange"].items():
        c.check(np.array_equal(seen[k], J), f"exchange {k} differs in the merged view")
    spins = {a[:2]: float(np.linalg.norm(a[3])) for a in snap["atoms"]}
    # Contributions to the energy, term by term and in total
    e = {a[:2]: gen.unit(rng) for a in snap["atoms"]}
    total, merged, scale = 0.0, 0.0, 1e-300
    for (n1, i1, n2, i2, r), J in snap["exchange"].items():
        f = 1.0 if sn else spins[(n1, i1)] * spins[(n2, i2)]
        total += ef * f * (e[(n1, i1)] @ J @ e[(n2, i2)])
        scale += abs(ef * f) * float(np.abs(J).max())
    for k, J in snap["on_site"].items():
        f = 1.0 if sn else spins[k] ** 2
        x = of * f * (e[k] @ J @ e[k])
        y = ef * f * (e[k] @ seen[(*k, *k, (0, 0, 0))] @ e[k])
        s = abs(of * f) * float(np.abs(J).max())
        c.close(y, x, f"energy of the on-site term {k}", rtol=1e-11, atol=0, scale=s)
        total += x
        scale += s
    for (n1, i1, n2, i2, r), J in seen.items():
        f = 1.0 if sn else spins[(n1, i1)] * spins[(n2, i2)]
        merged += ef * f * (e[(n1, i1)] @ J @ e[(n2, i2)])
    c.close(merged, total, "energy from the merged view", rtol=1e-11, atol=0, scale=scale)
    # The view is only a view: nothing is changed by the iteration
    d = oracle.difference(snap, oracle.snapshot(h))
    c.check(d is None, f"iteration over the merged view changed the Hamiltonian: {d}")
    c.ev("views judged")
    if snap["on_site"]:
        c.ev("with on-site terms")
    c.state((snap["notation"], sorted(map(str, seen))))


def case(c):
    h = history.History(c)
    judge(c, h.h)
    for _ in range(int(c.rng.integers(1, 10))):
        if h.step(WEIGHTS) is not None:
            judge(c, h.h)
