"""Classical energies agree with the explicit sum over the spins of the lattice."""

import numpy as np

from vlib import gen, history, oracle

PROP = "P07"
QUICK, THOROUGH = 6000, 100000
RULE = (
    "Energies returned by the code for random Hamiltonians, notations, spin directions, "
    "cone axes and spiral vectors are compared with the explicit arrangement of spins "
    "(every spin is rotated and every pair is summed), averaged over the lattice.  "
    "Distinct = distinct (case, notation, number of spins, keys)."
)
EXPECT = {"ferro": 4000, "antiferro": 3000, "spiral": 3000, "after a history": 300}
ASSUMPTIONS = [
    "spiral vectors with 2q equal to a reciprocal lattice vector are judged only in the antiferro case",
]

WEIGHTS = dict(
    change_notation=6, add_bond=3, remove_bond=1, add_site=2, remove_site=0.5,
    remove_atom=0.5, add_atom=0.5, copy=0.2,
)


def lengths(c, e):
    """Only the direction of vectors is important."""
    if gen.chance(c.rng, 0.5):
        return e
    return e * (10.0 ** c.rng.uniform(-2, 2, len(e)))[:, None]


def given(c, e):
    e = lengths(c, e)
    if len(e) == 1 and gen.chance(c.rng, 0.5):
        e = e[0]
    return e.tolist() if gen.chance(c.rng, 0.2) else e


def axis_of(c, n):
    return n * float(10.0 ** c.rng.uniform(-2, 2)) if gen.chance(c.rng, 0.4) else n


def judge(c, h, field=None):
    from magnopy import Energy

    rng = c.rng
    snap = oracle.snapshot(h)
    lat = oracle.Lattice(snap)
    if not lat.magnetic:
        return
    E = Energy(h)
    if field is not None:
        E.magnetic_field = field.tolist() if gen.chance(rng, 0.3) else field
    scale = lat.energy_scale()
    if field is not None:
        scale += sum(
            oracle.MU_B / oracle.MEV * abs(lat.g[a]) * lat.spins[a] for a in lat.magnetic
        ) * float(np.linalg.norm(field))
    tol = dict(rtol=1e-9, atol=1e-300, scale=scale)
    rec = oracle.reciprocal(snap["cell"])
    for _ in range(2):
        e = np.array([gen.unit(rng) for _ in lat.magnetic])
        if gen.chance(rng, 0.15):
            e = np.array([e[0] * gen.pick(rng, (1, -1)) for _ in lat.magnetic])
        n = gen.unit(rng)
        if gen.chance(rng, 0.15):
            n = e[0] * gen.pick(rng, (1, -1))
        # Energy per unit cell of the collinear arrangement of cells
        c.close(
            E.ferro(given(c, e)), lat.energy(e, field), "energy of the ferro state", **tol
        )
        c.ev("ferro")
        # Two kinds of cells
        q = rng.integers(-1, 2, 3) @ rec / 2
        want = np.mean(
            [
                lat.energy(e, field, n, lambda R: p + q @ (R @ snap["cell"]))
                for p in (0.0, np.pi)
            ]
        )
        c.close(
            E.antiferro(given(c, e), axis_of(c, n), q),
            want,
            "energy of the antiferro state",
            **tol,
        )
        c.ev("antiferro")
        # All phases of the spiral are equally present
        q = rng.uniform(-1, 1, 3) @ rec
        if gen.chance(rng, 0.3):
            q = rng.integers(-4, 5, 3) / gen.pick(rng, (3, 5, 7)) @ rec
            if np.allclose(q, 0):
                q = rec[0] / 3
        want = np.mean(
            [
                lat.energy(e, field, n, lambda R: p + q @ (R @ snap["cell"]))
                for p in 2 * np.pi * np.arange(5) / 5
            ]
        )
        # Energy of one more phase shows that the average is not trivial
        c.close(
            E.spiral(given(c, e), axis_of(c, n), q if gen.chance(rng, 0.8) else q.tolist()),
            want,
            "energy of the spiral state",
            **tol,
        )
        c.ev("spiral")
    d = oracle.difference(snap, oracle.snapshot(h))
    c.check(d is None, f"computation of energy changed the Hamiltonian: {d}")
    c.state((snap["notation"], len(lat.magnetic), sorted(map(str, snap["exchange"]))))


def case(c):
    rng = c.rng
    if gen.chance(rng, 0.3):
        h = history.History(c)
        for _ in range(int(rng.integers(1, 8))):
            h.step(WEIGHTS)
        judge(c, h.h)
        c.ev("after a history")
    else:
        s = gen.spec(rng, symmetric_onsite=gen.chance(rng, 0.8), extreme=0.1)
        c.op("notation", s.notation)
        h = gen.build(rng, s, c)
        # The oracle is independent from what the Hamiltonian reports
        d = oracle.couplings_differ(
            oracle.couplings(oracle.snapshot(h)), oracle.couplings_of_spec(s)
        )
        c.check(d is None, f"constructed Hamiltonian: {d}")
        judge(c, h)
