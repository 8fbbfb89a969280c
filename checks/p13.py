"""Symmetries of the magnon spectrum; the source Hamiltonian is never touched."""

import numpy as np

from checks import p12
from checks.p04 import mutate
from vlib import gen, oracle

PROP = "P13"
QUICK, THOROUGH = 17500, 50000
RULE = (
    "Pairs of equivalent descriptions of the same magnet (other notation, rotated frame of "
    "spins, reversed spins and wave vector, shifted origin, atom moved to another cell, "
    "other order of atoms, supercell, scaled parameters, other origin of the reciprocal "
    "space) must have the same spectrum; the Hamiltonian is compared with its snapshot.  "
    "Distinct = distinct (transformation, notation, keys)."
)
TRANSFORMATIONS = (
    "reciprocal",
    "notation",
    "rotation",
    "reversal",
    "origin",
    "other cell",
    "order",
    "supercell",
    "scale",
    "mutated source",
    "interleaved",
)
EXPECT = {t: 80 for t in TRANSFORMATIONS}
ASSUMPTIONS = ["spins form an arrangement with positive definite dynamical matrix"]


def clone(s):
    t = gen.Spec()
    t.cell = s.cell.copy()
    t.atoms = [
        dict(a, position=a["position"].copy(), spin=a["spin"].copy()) for a in s.atoms
    ]
    t.bonds = {b: J.copy() for b, J in s.bonds.items()}
    t.onsite = {b: J.copy() for b, J in s.onsite.items()}
    t.notation = s.notation
    t.spiral_vector, t.cone_axis = s.spiral_vector, s.cone_axis
    return t


def case(c):
    from magnopy import MagnonDispersion

    rng = c.rng
    s = p12.model(c, 1.0)
    if not s.bonds:
        return
    h = gen.build(rng, s, c)
    before = oracle.snapshot(h)
    md = MagnonDispersion(h)
    rec = oracle.reciprocal(s.cell)
    k = rng.uniform(-1, 1, 3) @ rec
    w = np.array(md.omega(k))
    d = oracle.difference(before, oracle.snapshot(h))
    c.check(d is None, f"computation of magnons changed the Hamiltonian: {d}")
    top = float(np.abs(w).max())
    if np.any(w <= 0):
        return
    tol = dict(rtol=1e-6, atol=2e-8, scale=top)
    how = gen.pick(rng, TRANSFORMATIONS)
    c.op(how, s.notation, k.tolist())

    def spectrum(t, k):
        return np.array(MagnonDispersion(gen.build(rng, t)).omega(k))

    if how == "reciprocal":
        G = rng.integers(-3, 4, 3) @ rec
        c.close(np.array(md.omega(k + G)), w, "spectrum is not periodic", **tol)
    elif how == "notation":
        h.notation = gen.notation(rng)
        snap = oracle.snapshot(h)
        got = np.array(MagnonDispersion(h).omega(k))
        c.close(got, w, f"spectrum depends on the notation {h.notation}", **tol)
        d = oracle.difference(snap, oracle.snapshot(h))
        c.check(d is None, f"computation of magnons changed the Hamiltonian: {d}")
        h.notation = before["notation"]
        d = oracle.couplings_differ(
            oracle.couplings(before), oracle.couplings(oracle.snapshot(h))
        )
        c.check(d is None, f"notation is not restored: {d}")
    elif how == "rotation":
        t = clone(s)
        R = gen.rotation(rng)
        if gen.chance(rng, 0.3):
            # One of the spins is along (or almost along) z, the special direction
            a = t.atoms[int(rng.integers(len(t.atoms)))]["spin"]
            if np.linalg.norm(a) > 0:
                z = a / np.linalg.norm(a)
                x = np.cross(np.eye(3)[int(np.argmin(np.abs(z)))], z)
                x /= np.linalg.norm(x)
                R = np.array([x, np.cross(z, x), z])
                if gen.chance(rng, 0.5):
                    R = np.diag([1.0, -1.0, -1.0]) @ R
        for a in t.atoms:
            a["spin"] = R @ a["spin"]
        t.bonds = {b: R @ J @ R.T for b, J in t.bonds.items()}
        t.onsite = {b: R @ J @ R.T for b, J in t.onsite.items()}
        c.close(spectrum(t, k), w, "spectrum depends on the frame of spins", **tol)
    elif how == "reversal":
        t = clone(s)
        for a in t.atoms:
            a["spin"] = -a["spin"]
        c.close(spectrum(t, -k), w, "spectrum after the time reversal", **tol)
    elif how == "origin":
        t = clone(s)
        v = rng.uniform(-1, 1, 3)
        for a in t.atoms:
            a["position"] = a["position"] + v
        c.close(spectrum(t, k), w, "spectrum depends on the origin", **tol)
    elif how == "other cell":
        t = clone(s)
        a = gen.pick(rng, t.atoms)
        n = rng.integers(-2, 3, 3)
        a["position"] = a["position"] + n
        bonds = {}
        for (x, y, r), J in t.bonds.items():
            r = np.array(r) + (n if x == a["name"] else 0) - (n if y == a["name"] else 0)
            bonds[(x, y, tuple(int(i) for i in r))] = J
        t.bonds = bonds
        c.close(spectrum(t, k), w, "spectrum depends on the choice of the cell of an atom", **tol)
    elif how == "order":
        t = clone(s)
        order = rng.permutation(len(t.atoms))
        t.atoms = [t.atoms[int(i)] for i in order]
        bonds = {}
        for b, J in t.bonds.items():
            if gen.chance(rng, 0.5):
                bonds[gen.mirror(b)] = J.T
            else:
                bonds[b] = J
        t.bonds = bonds
        c.close(spectrum(t, k), w, "spectrum depends on the order of atoms and bonds", **tol)
    elif how == "supercell":
        axis = int(rng.integers(3))
        t = gen.Spec()
        t.notation = s.notation
        t.cell = s.cell.copy()
        t.cell[axis] *= 2
        e = np.eye(3, dtype=int)[axis]
        for m in (0, 1):
            for a in s.atoms:
                p = a["position"] + m * e
                p[axis] /= 2
                t.atoms.append(dict(a, name=f"{a['name']}@{m}", position=p, spin=a["spin"].copy()))
        for (x, y, r), J in s.bonds.items():
            for m in (0, 1):
                q = list(r)
                full = m + r[axis]
                q[axis], m2 = full // 2, full % 2
                t.bonds[(f"{x}@{m}", f"{y}@{m2}", tuple(int(i) for i in q))] = J
        for x, J in s.onsite.items():
            for m in (0, 1):
                t.onsite[f"{x}@{m}"] = J
        w2 = np.array(md.omega(k + rec[axis] / 2))
        if np.any(w2 <= 0):
            return
        want = np.sort(np.concatenate((w, w2)))
        c.close(np.sort(spectrum(t, k)), want, "folded spectrum of the supercell", **tol)
    elif how == "scale":
        t = clone(s)
        x = float(10.0 ** rng.uniform(-1, 2))
        t.bonds = {b: J * x for b, J in t.bonds.items()}
        t.onsite = {b: J * x for b, J in t.onsite.items()}
        c.close(spectrum(t, k), w * x, "spectrum is not proportional to the parameters", rtol=1e-6, atol=2e-8, scale=top * x)
    elif how == "mutated source":
        mutate(c, h, 6)
        c.close(md.omega(k), w, "spectrum follows the changes of the source Hamiltonian", **tol)
    else:
        # Results do not depend on the other calls
        for _ in range(4):
            md.omega(rng.normal(size=3))
            md.omega(-k, return_G=True)
            md.omegas([np.zeros(3), rec[1] / 3], zeros_to_none=True)
        c.close(md.omega(k), w, "spectrum depends on the previous calls", **tol)
        kk = k.copy()
        md.omega(kk)
        c.check(np.array_equal(kk, k), "wave vector is changed")
    c.ev(how)
    c.state((how, s.notation, sorted(map(str, s.bonds))))
