"""Magnon energies agree with the linearized equations of motion of the spins."""

import numpy as np

from vlib import gen, lswt, oracle

PROP = "P12"
QUICK, THOROUGH = 8000, 60000
RULE = (
    "Magnon energies of random Hamiltonians (all notations, non-collinear spins, different "
    "spin values, DMI, several atoms) at random wave vectors are compared with an "
    "independent linearization of the equations of motion.  Distinct = distinct "
    "(kind of the matrix, notation, number of atoms, keys)."
)
EXPECT = {
    "stable": 3000,
    "negative": 200,
    "unstable": 300,
    "with gapless modes": 500,
    "transformation": 1000,
    "low modes": 100,
    "inverted gapless modes": 50,
    "not-a-number in a spectrum": 50,
    "close points": 500,
    "weak interactions": 200,
}
ASSUMPTIONS = [
    "points where the definiteness of the dynamical matrix is decided by rounding are not judged",
]


def model(c, stable, many=0.02):
    rng = c.rng
    many = gen.chance(rng, many)
    s = gen.spec(
        rng,
        n_atoms=int(rng.integers(6, 10)) if many else int(gen.pick(rng, (1, 1, 2, 2, 3, 4))),
        n_bonds=int(rng.integers(12, 30)) if many else int(rng.integers(1, 9)),
        scale=float(10.0 ** rng.uniform(-2, 2)) if gen.chance(rng, 0.3) else 1.0,
        near=True,
    )
    if stable:
        # Strong easy axis along every spin (or hard one, for the inverted spectrum)
        size = sum(
            float(np.abs(J).max())
            * abs(s.notation[2])
            * (1 if s.notation[1] else s.spin(b[0]) * s.spin(b[1]))
            for b, J in s.bonds.items()
        ) + 1e-3
        for a in s.atoms:
            S = float(np.linalg.norm(a["spin"]))
            if S == 0:
                continue
            e = a["spin"] / S
            A = -stable * size * float(rng.uniform(2, 5)) * np.outer(e, e)
            s.onsite[a["name"]] = s.onsite.get(a["name"], 0) * 0.01 + A / (
                s.notation[3] * (1 if s.notation[1] else S**2)
            )
    return s


def heisenberg(c):
    """Ferro- or antiferromagnet with gapless modes."""
    rng = c.rng
    s = gen.Spec()
    s.cell = gen.cell(rng)
    s.notation = gen.notation(rng)
    n = int(gen.pick(rng, (1, 2, 2, 3)))
    afm = n == 2 and gen.chance(rng, 0.6)
    e = gen.unit(rng)
    nm = gen.names(rng, n)
    S = gen.spin_value(rng)
    for i in range(n):
        sign = -1 if afm and i == 1 else 1
        s.atoms.append(
            dict(name=nm[i], position=rng.uniform(0, 1, 3),
                 spin=e * sign * (S if afm or gen.chance(rng, 0.7) else gen.spin_value(rng)),
                 g=2.0, charge=None)
        )
    for _ in range(int(rng.integers(1, 7))):
        i, j = int(rng.integers(n)), int(rng.integers(n))
        b = (nm[i], nm[j], gen.ijk(rng, near=True))
        if (i == j and b[2] == (0, 0, 0)) or b in s.bonds or gen.mirror(b) in s.bonds:
            continue
        sign = -1 if not afm or i == j else 1
        K = sign * float(rng.uniform(0.2, 3))
        s.bonds[b] = K * np.eye(3) / (
            s.notation[2]
            * (2 if s.notation[0] else 1)
            * (1 if s.notation[1] else s.spin(nm[i]) * s.spin(nm[j]))
        )
    return s


def hierarchy(c):
    """Sublattices with very different energies: low modes are far below the top."""
    rng = c.rng
    s = model(c, 0.0)
    mag = [a["name"] for a in s.atoms if np.linalg.norm(a["spin"]) > 0]
    for a in s.atoms:
        # (directions close to z are replaced with z, which is less accurate)
        S = float(np.linalg.norm(a["spin"]))
        e = gen.rotation(rng)[0]
        if S > 0 and abs(e[2]) < 0.999:
            a["spin"] = e * S
    D = {x: float(10.0 ** -rng.uniform(0, 7.5)) for x in mag}
    D[gen.pick(rng, mag)] = 1.0
    units = float(10.0 ** rng.uniform(0, 2.5))
    D = {x: d * units for x, d in D.items()}
    low = min(D.values())
    for b, J in s.bonds.items():
        K = J / max(float(np.abs(J).max()), 1e-30) * low * float(rng.uniform(0.01, 0.2))
        s.bonds[b] = K / (
            len(s.bonds) * s.notation[2] * (2 if s.notation[0] else 1)
            * (1 if s.notation[1] else s.spin(b[0]) * s.spin(b[1]))
        )
    s.onsite = {}
    for x in mag:
        S = s.spin(x)
        e = next(a["spin"] for a in s.atoms if a["name"] == x) / S
        s.onsite[x] = -D[x] * np.outer(e, e) / (s.notation[3] * (1 if s.notation[1] else S**2))
    return s


def noise(kind, size):
    """Rounding of two evaluations (it is amplified for modes with zero energy)."""
    return (1e-9 * size if kind != "gapless" else 3e-7 * size + 3 * np.sqrt(2e-8 * size)) + 2e-8


def judge(c, W, md, k, h, how=None):
    N = W.N
    H, margin, negative, ev, vecs, size = W.omega(k)
    # The magnitude of the terms that may cancel each other
    whole = W.lat.scale / float(W.S.min())
    if size < 1e-3 * whole:
        margin, negative = margin * size / whole, negative * size / whole
        size = whole
    got = np.array(md.omega(k))
    c.check(got.shape == (N,), f"shape of energies {got.shape}")
    ev = np.sort(ev.real)
    tol = 1e-7 * size
    if how == "hierarchy" and margin > 1e-10 and np.all(np.abs(W.e3[:, 2]) < 0.9999):
        got_low = np.sort(got)
        c.close(
            got_low, ev[N:], "energies of very different magnons", rtol=0,
            atol=max(1e-12 * np.linalg.cond(vecs) * size, 2e-8),
        )
        if ev[N] < 1e-3 * ev[-1] and ev[N] > 1e-7:
            c.ev("low modes")
    if margin > 1e-4:
        want = ev[N:][::-1]
        c.close(got, want, "magnon energies", rtol=0, atol=max(tol, 2e-8))
        c.check(np.all(np.diff(got) <= tol), f"energies are not sorted {got}")
        c.ev("stable")
        kind = "stable"
    elif negative < -1e-4:
        c.close(np.sort(got), ev[:N], "energies of the negative definite matrix", rtol=0, atol=max(tol, 2e-8))
        c.ev("negative")
        kind = "negative"
    elif margin < -1e-4 and negative > 1e-4:
        # The matrix may be shifted by 1e-8 meV
        if min(-margin, negative) * size < 1e-7:
            return None
        c.check(np.all(got == 0), f"unstable point has the energies {got}")
        none = np.array(md.omega(k, zeros_to_none=True), dtype=float)
        c.check(none.shape == (N,) and np.all(np.isnan(none)), f"no energies: {none}")
        c.ev("unstable")
        return "unstable"
    elif abs(margin) < 1e-12 and (negative > 1e-4 or abs(negative) < 1e-12):
        # Gapless modes: the matrix is shifted by 1e-8 meV if needed
        want = np.sort(np.clip(ev[N:], 0, None))[::-1]
        # (rounding errors of defective eigenvalues grow like a square root)
        c.close(got, want, "energies of gapless magnons", rtol=0, atol=3e-7 * size + 3 * np.sqrt(2e-8 * size) + 2e-8)
        c.ev("with gapless modes")
        kind = "gapless"
    elif abs(negative) < 1e-12 and margin < -1e-4:
        # The same with the opposite sign of all energies
        want = np.clip(ev[:N], None, 0)
        c.close(
            np.sort(got), want, "energies of inverted gapless magnons", rtol=0,
            atol=3e-7 * size + 3 * np.sqrt(2e-8 * size) + 2e-8,
        )
        c.ev("inverted gapless modes")
        kind = "gapless"
    else:
        return None
    none = np.array(md.omega(k, zeros_to_none=True), dtype=float)
    c.close(none, got, "zeros_to_none changes the energies", rtol=0, atol=noise(kind, size))
    return kind


def case(c):
    from magnopy import MagnonDispersion

    rng = c.rng
    r = rng.random()
    if r < 0.25:
        s = heisenberg(c)
        how = "heisenberg"
        if gen.chance(rng, 0.2):
            # Maximum of the energy
            for b in s.bonds:
                s.bonds[b] = -s.bonds[b]
            how = "inverted heisenberg"
    elif r < 0.65:
        s = model(c, 1.0)
        how = "stable"
        if gen.chance(rng, 0.15):
            # Weak interactions (energies below 1e-8 meV are zeros by definition)
            units = float(10.0 ** rng.uniform(-6.5, -3))
            for x in (s.bonds, s.onsite):
                for key in x:
                    x[key] = x[key] * units
            how = "weak"
            c.ev("weak interactions")
    elif r < 0.78:
        s = hierarchy(c)
        how = "hierarchy"
    elif r < 0.86:
        s = model(c, -1.0)
        how = "inverted"
    else:
        s = model(c, 0.0)
        how = "any"
    if not s.bonds:
        return
    h = gen.build(rng, s, c)
    snap = oracle.snapshot(h)
    c.op(how, s.notation, [a["spin"].tolist() for a in s.atoms])
    W = lswt.Waves(snap)
    md = MagnonDispersion(h)
    c.check(md.N == W.N, f"number of magnons {md.N}")
    rec = oracle.reciprocal(s.cell)
    ks = [np.zeros(3), rec[0] / 2, rng.uniform(-1, 1, 3) @ rec, rng.normal(size=3)]
    ks += [rng.integers(-2, 3, 3) / 4 @ rec]
    # Close to the previous one
    ks.append(ks[3] + rng.normal(size=3) * float(10.0 ** rng.uniform(-5, -2)))
    kinds = []
    same = np.zeros(3)
    for k in ks:
        c.op("k", k.tolist())
        if gen.chance(rng, 0.3):
            # The same array with other values
            same[:] = k
            kinds.append(judge(c, W, md, same, h, how))
        else:
            kinds.append(judge(c, W, md, k.tolist() if gen.chance(rng, 0.2) else k, h, how))
        if len(kinds) == 6 and kinds[-1] is not None:
            c.ev("close points")
    # Many points in one call
    many = np.array(md.omegas(ks))
    c.check(many.shape == (W.N, len(ks)), f"shape of the spectrum {many.shape}")
    call = np.array(md(ks))
    c.check(call.shape == many.shape, f"shape of the called spectrum {call.shape}")
    for i, (k, kind) in enumerate(zip(ks, kinds)):
        if kind is None:
            continue
        atol = noise(kind, W.omega(k)[-1])
        c.close(many[:, i], md.omega(k), "omegas() != omega()", rtol=0, atol=atol)
        c.close(call[:, i], many[:, i], "call != omegas()", rtol=0, atol=atol)
    none = np.array(gen.pick(rng, (md.omegas, md))(ks, zeros_to_none=True), dtype=float)
    c.check(none.shape == many.shape, f"shape of the spectrum with zeros_to_none {none.shape}")
    for i, (k, kind) in enumerate(zip(ks, kinds)):
        if kind == "unstable":
            c.check(np.all(np.isnan(none[:, i])), f"not a number is expected, {none[:, i]}")
            c.ev("not-a-number in a spectrum")
        elif kind is not None:
            c.close(
                none[:, i], many[:, i], "zeros_to_none changes the spectrum", rtol=0,
                atol=noise(kind, W.omega(k)[-1]),
            )
    # Transformation
    k = ks[2]
    w, G = md.omega(k, return_G=True)
    c.check(np.array(w).shape == (2 * W.N,), f"2N energies with return_G, got {np.array(w).shape}")
    if kinds[2] is not None:
        c.close(
            np.array(w)[: W.N], md.omega(k), "energies with return_G", rtol=0,
            atol=noise(kinds[2], W.omega(k)[-1]),
        )
    if kinds[2] == "stable":
        g = np.diag(np.concatenate((np.ones(W.N), -np.ones(W.N))))
        G = np.array(G)
        size = max(1.0, float(np.linalg.norm(G)) ** 2)
        c.close(G @ g @ G.conj().T, g, "magnons are not bosons", rtol=0, atol=1e-8 * size)
        # Energies of the vector -k are the second half
        c.close(np.array(w)[W.N :][::-1], md.omega(-k), "second half of energies", rtol=1e-6, atol=1e-6)
        c.ev("transformation")
    c.state((kinds, s.notation, len(s.atoms), sorted(map(str, s.bonds))))
