"""Standardization changes only the choice of the cell."""

import numpy as np

from checks import p12
from vlib import gen, history, lswt, oracle

PROP = "P23"
QUICK, THOROUGH = 700, 14000
RULE = (
    "Hamiltonians with cells that are examples of Bravais lattices in a random orientation and "
    "with a random choice of the lattice vectors, or completely random, are standardized (also "
    "after histories and repeatedly); absolute vectors of bonds, places of atoms, parameters, "
    "absolute spiral vector, energies and spectra are compared across the operation.  Distinct "
    "= distinct (lattice, number of atoms and bonds, change of the cell)."
)
EXPECT = {
    "standardized": 350,
    "cell has changed": 150,
    "bonds moved to other cells": 100,
    "with spiral vector": 60,
    "repeated": 60,
    "energies": 100,
    "spectra": 80,
    "refused": 20,
    "after a history": 30,
    "another cell before": 30,
}
ASSUMPTIONS = [
    "lattices that wulfric can not standardize (error, or a cell of another lattice) are judged only as refused operations",
    "left-handed cells that become right-handed are not judged for the spiral vector (sign of the reciprocal cell of wulfric)",
]
LATTICES = (
    "CUB FCC BCC TET BCT1 BCT2 ORC ORCF1 ORCF2 ORCF3 ORCI ORCC HEX RHL1 RHL2 MCL MCLC1 MCLC2 "
    "MCLC3 MCLC4 MCLC5 TRI1a TRI2a TRI1b TRI2b"
).split()
WEIGHTS = dict(change_notation=3, add_bond=4, remove_bond=1, add_site=1, remove_atom=0.5, add_atom=0.5)


def unimodular(rng):
    M = np.eye(3, dtype=int)
    for _ in range(int(rng.integers(0, 4))):
        i, j = (int(x) for x in rng.choice(3, 2, replace=False))
        M[i] += int(rng.integers(-1, 2)) * M[j]
    if gen.chance(rng, 0.5):
        M = M[[1, 2, 0]]
    if gen.chance(rng, 0.3):
        M = M * np.array([[-1], [-1], [1]])
    return M


def cell(rng):
    from wulfric import lattice_example

    if gen.chance(rng, 0.2):
        return "random", gen.cell(rng)
    name = gen.pick(rng, LATTICES)
    c = np.array(lattice_example(name).cell) * float(rng.uniform(0.7, 1.5))
    if gen.chance(rng, 0.5):
        c = c @ gen.rotation(rng)
    c = unimodular(rng) @ c
    if gen.chance(rng, 0.1):
        c = c[::-1].copy()
    return name, c


def standard(c):
    """The cell that wulfric considers standard or None"""
    from wulfric import Lattice

    try:
        x = Lattice(c.copy())
        x.standardize()
        new = np.array(x.cell)
        M = new @ np.linalg.inv(c)
        # For some lattices wulfric returns a cell of another lattice
        return new if np.abs(M - np.rint(M)).max() < 1e-6 else None
    except Exception:
        return None


def places(snap):
    return {a[:2]: a[2] @ snap["cell"] for a in snap["atoms"]}


def bonds(snap):
    p = places(snap)
    return [
        ((n1, i1, n2, i2), p[(n2, i2)] - p[(n1, i1)] + np.array(r) @ snap["cell"], J, r)
        for (n1, i1, n2, i2, r), J in snap["exchange"].items()
    ]


def compare(c, before, after, tol):
    M = after["cell"] @ np.linalg.inv(before["cell"])
    c.close(M, np.rint(M), "new cell is a cell of the same lattice", rtol=0, atol=1e-6)
    c.close(abs(np.linalg.det(M)), 1.0, "volume of the cell", rtol=1e-6)
    c.check([a[:2] for a in after["atoms"]] == [a[:2] for a in before["atoms"]], "atoms")
    P0, P1 = places(before), places(after)
    for a in P0:
        c.close(P1[a], P0[a], f"place of {a}", rtol=0, atol=tol)
    for a, b in zip(after["atoms"], before["atoms"]):
        c.check(
            np.array_equal(a[3], b[3]) and a[4] == b[4] and a[5] == b[5], f"data of the atom {a[:2]}"
        )
    c.check(after["notation"] == before["notation"], "notation")
    B0, B1 = bonds(before), bonds(after)
    c.check(len(B0) == len(B1), f"{len(B1)} bonds instead of {len(B0)}")
    for key, d, J, r in B0:
        c.check(
            any(k == key and np.abs(x - d).max() < tol and np.array_equal(J, y) for k, x, y, _ in B1),
            f"bond {key} {r} with the vector {d.tolist()} is lost",
        )
    c.check(
        set(before["on_site"]) == set(after["on_site"])
        and all(np.array_equal(before["on_site"][k], after["on_site"][k]) for k in before["on_site"]),
        "on-site parameters",
    )
    q0, q1 = before["spiral_vector"], after["spiral_vector"]
    c.check((q0 is None) == (q1 is None), f"spiral vector {q0} -> {q1}")
    if q0 is not None and np.linalg.det(M) > 0:
        r0, r1 = oracle.reciprocal(before["cell"]), oracle.reciprocal(after["cell"])
        c.close(q1 @ r1, q0 @ r0, "absolute spiral vector", rtol=0, atol=1e-6 * np.abs(r0).max())
        c.ev("with spiral vector")
    n0, n1 = before["cone_axis"], after["cone_axis"]
    c.check((n0 is None) == (n1 is None) and (n0 is None or np.array_equal(n0, n1)), "cone axis")
    return M, B0, B1


def case(c):
    from magnopy import Energy, MagnonDispersion

    rng = c.rng
    name, cl = cell(rng)
    s = p12.model(c, 1.0) if gen.chance(rng, 0.4) else gen.spec(rng, near=True)
    s.cell = cl
    h = gen.build(rng, s, c)
    if gen.chance(rng, 0.15):
        x = history.History(c)
        for _ in range(int(rng.integers(1, 8))):
            x.step(WEIGHTS)
        h = x.h
        name, cl = "history", np.array(h.cell)
        c.ev("after a history")
    if gen.chance(rng, 0.25):
        # Another cell was standardized before
        _, old = cell(rng)
        h.cell = old
        if standard(old) is not None:
            h.standardize()
            c.ev("another cell before")
        h.cell = cl
    c.op("cell", name, cl.tolist())
    if gen.chance(rng, 0.3):
        # Properties of the lattice are cached by wulfric
        try:
            h.variation, h.kpoints
        except Exception:
            pass
    before = oracle.snapshot(h)
    want = standard(before["cell"])
    if want is None:
        try:
            h.standardize()
        except Exception:
            d = oracle.difference(before, oracle.snapshot(h))
            c.check(d is None, f"refused standardization changed the Hamiltonian: {d}")
            c.ev("refused")
        return
    size = float(np.abs(before["cell"]).max())
    reach = 1 + max([max(abs(x) for x in k[4]) for k in before["exchange"]] + [1])
    tol = 1e-6 * size * reach
    energies = []
    complete = all(x is not None for x in before["notation"]) and (before["exchange"] or before["on_site"])
    E = Energy(h) if complete else None
    h.standardize()
    after = oracle.snapshot(h)
    M, B0, B1 = compare(c, before, after, tol)
    c.close(after["cell"], want, "standardized cell", rtol=1e-9)
    c.ev("standardized")
    if not np.allclose(M, np.eye(3), atol=1e-6):
        c.ev("cell has changed")
        if sorted(b[3] for b in B0) != sorted(b[3] for b in B1):
            c.ev("bonds moved to other cells")
    if gen.chance(rng, 0.3):
        again = standard(after["cell"])
        if again is not None and np.allclose(again, after["cell"], rtol=1e-6, atol=1e-6):
            h.standardize()
            compare(c, after, oracle.snapshot(h), tol)
            c.close(np.array(h.cell), after["cell"], "cell after the second standardization", rtol=1e-5)
            c.ev("repeated")
    if E is not None and gen.chance(rng, 0.4):
        F = Energy(h)
        n = len(h.magnetic_atoms)
        e = np.array([gen.unit(rng) for _ in range(n)])
        axis, q = gen.unit(rng), rng.normal(size=3) / size
        scale = oracle.Lattice(before).scale
        c.close(F.ferro(e), E.ferro(e), "ferromagnetic energy", rtol=0, atol=1e-9 * scale)
        c.close(F.spiral(e, axis, q), E.spiral(e, axis, q), "spiral energy", rtol=0, atol=1e-4 * scale)
        c.ev("energies")
    if E is not None and before["exchange"] and gen.chance(rng, 0.4) and all(
        np.linalg.norm(a.spin_vector) > 0 for a in h.magnetic_atoms
    ):
        md = MagnonDispersion(h)
        W = lswt.Waves(before)
        for _ in range(2):
            k = rng.normal(size=3) / size
            H, margin, negative, ev, _, big = W.omega(k)
            if margin > 1e-3:
                got = np.array(md.omega(k))
                c.close(got, np.sort(ev.real)[W.N :][::-1], "spectrum", rtol=0, atol=1e-4 * big + 2e-8)
                c.ev("spectra")
    c.state((name, len(before["atoms"]), len(before["exchange"]), np.rint(M).astype(int).tolist()))
