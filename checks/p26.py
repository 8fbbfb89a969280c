"""Matrices of the magnon Hamiltonian follow their documented formulas."""

import numpy as np
from wulfric import Kpoints

from checks import p12
from vlib import gen, lswt, oracle

PROP = "P26"
QUICK, THOROUGH = 6000, 50000
RULE = (
    "J(k), A(k), B(k), C, h(k), the spins and the local frames of random Hamiltonians in "
    "all notations are compared with the documented sums over the bonds, that are computed "
    "from the couplings of the Hamiltonian; the returned transformation is substituted in "
    "its definition.  Distinct = distinct (notation, atoms, keys, kind of the spins)."
)
EXPECT = {
    "blocks": 8000,
    "transformation": 1000,
    "collection of points": 300,
    "points of Kpoints": 2000,
    "several atoms": 800,
    "along z": 200,
    "repeated": 300,
    "close points": 1000,
    "any units of energy": 200,
}
ASSUMPTIONS = ["spins of all magnetic atoms are defined and are not zero"]


def case(c):
    from magnopy import MagnonDispersion

    rng = c.rng
    if gen.chance(rng, 0.2):
        s = p12.heisenberg(c)
    else:
        s = p12.model(c, float(gen.pick(rng, (0.0, 1.0, 1.0, -1.0))))
    if not s.bonds:
        return
    units = 1.0
    if gen.chance(rng, 0.15):
        units = float(10.0 ** (rng.uniform(-12, -6) if gen.chance(rng, 0.7) else rng.uniform(4, 8)))
        for x in (s.bonds, s.onsite):
            for key in x:
                x[key] = x[key] * units
        c.ev("any units of energy")
    along = 0
    if gen.chance(rng, 0.3):
        # Special (and almost special) directions of the local frame
        for a in s.atoms:
            S = float(np.linalg.norm(a["spin"]))
            if S == 0 or gen.chance(rng, 0.3):
                continue
            e = np.array([0.0, 0.0, gen.pick(rng, (-1.0, 1.0))])
            if gen.chance(rng, 0.4):
                e = e + rng.normal(size=3) * 10.0 ** rng.uniform(-9, -2)
                e /= np.linalg.norm(e)
            new = e * S
            # (bonds are not rescaled: the lengths are kept)
            a["spin"] = new
            along += 1
    h = gen.build(rng, s, c)
    before = oracle.snapshot(h)
    W = lswt.Waves(before)
    N = W.N
    c.op(s.notation, [a["spin"].tolist() for a in s.atoms])
    md = MagnonDispersion(h)
    c.check(md.N == N, f"number of magnetic atoms {md.N}, not {N}")

    # Spins and frames
    S, u, v = np.array(md.S), np.array(md.u), np.array(md.v)
    c.check(S.shape == u.shape == v.shape == (N, 3), f"shapes {S.shape} {u.shape} {v.shape}")
    want = W.e3 * W.S[:, None]
    c.close(S, want, "spin vectors", rtol=1e-10, atol=0, scale=float(W.S.max()))
    c.close(v, W.e3, "v is the direction of the spin", rtol=0, atol=2e-8)
    for i in range(N):
        c.close(u[i] @ u[i], 0.0, "u u = 0", rtol=0, atol=1e-10)
        c.close(u[i] @ u[i].conj(), 2.0, "u u* = 2", rtol=0, atol=1e-10)
        c.close(u[i] @ v[i], 0.0, "u v = 0", rtol=0, atol=1e-10)
        c.close(np.cross(u[i], u[i].conj()), -2j * v[i], "u x u* = -2i v", rtol=0, atol=1e-10)
    if along:
        c.ev("along z")

    # Exchange in the notation of the formulas: sum over all pairs, spins are not
    # normalized, all factors are one
    def J(k):
        result = np.zeros((N, N, 3, 3), dtype=complex)
        for i, j, d, Q in W.terms:
            result[i, j] += Q / (2 * W.S[i] * W.S[j]) * np.exp(-1j * (k @ d))
        return result

    rec = oracle.reciprocal(s.cell)
    ks = [np.zeros(3), rng.uniform(-1, 1, 3) @ rec, rng.normal(size=3), rec[int(rng.integers(3))] / 2]
    ks.append(ks[1] + rng.normal(size=3) * float(10.0 ** rng.uniform(-6, -2)))
    same = np.zeros(3)
    size = sum(
        float(np.abs(Q).max()) / (2 * W.S[i] * W.S[j]) for i, j, d, Q in W.terms
    )
    sized = size * float(W.S.max())
    tolJ = dict(rtol=1e-9, atol=0, scale=size)
    tol = dict(rtol=1e-7, atol=0, scale=sized)
    order = list(range(len(ks)))
    if gen.chance(rng, 0.3):
        order += [int(i) for i in rng.integers(0, len(ks), 3)]
        c.ev("repeated")
    C = None
    for n in order:
        k = ks[n]
        c.op("k", k.tolist())
        given = k.tolist() if gen.chance(rng, 0.2) else k.copy()
        if gen.chance(rng, 0.3):
            same[:] = k
            given = same
        if n == 4:
            c.ev("close points")
        Jk, Jm = J(k), J(-k)
        got = np.array(md.J(given))
        c.check(got.shape == (N, N, 3, 3), f"shape of J(k) {got.shape}")
        c.close(got, Jk, "J(k)", **tolJ)
        r = np.sqrt(np.outer(W.S, W.S)) / 2
        A = r * np.einsum("ia,ijab,jb->ij", u, Jm, u.conj())
        B = r * np.einsum("ia,ijab,jb->ij", u, Jm, u)
        A_m = r * np.einsum("ia,ijab,jb->ij", u, Jk, u.conj())
        C = np.diag(np.einsum("l,ia,ilab,lb->i", W.S, v, J(np.zeros(3)), v))
        c.close(np.array(md.A(given)), A, "A(k)", **tol)
        c.close(np.array(md.B(given)), B, "B(k)", **tol)
        c.close(np.array(md.C()), C, "C", **tol)
        H = np.block(
            [[2 * A - 2 * C, 2 * B], [2 * B.conj().T, 2 * A_m.conj() - 2 * C]]
        )
        got = np.array(md.h(given))
        c.check(got.shape == (2 * N, 2 * N), f"shape of h(k) {got.shape}")
        c.close(got, H, "h(k)", **tol)
        c.close(got, got.conj().T, "h(k) is not Hermitian", **tol)
        c.check(np.array_equal(np.array(given), k), "wave vector is changed")
        c.ev("blocks", 4)
        # Transformation to the operators of magnons
        w = np.linalg.eigvalsh((H + H.conj().T) / 2)
        full, G = md.omega(given, return_G=True)
        full, G = np.array(full), np.array(G)
        c.check(full.shape == (2 * N,), f"2N energies with return_G, got {full.shape}")
        c.check(G.shape == (2 * N, 2 * N), f"shape of G {G.shape}")
        if gen.chance(rng, 0.2):
            none, G0 = md.omega(given, zeros_to_none=True, return_G=True)
            c.check(np.shape(none) == (2 * N,), f"2N energies with zeros_to_none, got {np.shape(none)}")
            c.check(np.shape(G0) == (2 * N, 2 * N), f"shape of G with zeros_to_none {np.shape(G0)}")
        plain = np.array(md.omega(given))
        c.check(not np.iscomplexobj(plain), "energies are complex")
        z = md.omega(given, return_imaginary=True)
        if w[0] > 1e-4 * w[-1] and units >= 1:
            c.close(full[:N], plain, "energies with return_G", rtol=1e-9, atol=2e-8, scale=sized)
            c.close(
                np.array(z).real, plain, "real part with return_imaginary",
                rtol=1e-9, atol=2e-8, scale=sized,
            )
            c.check(np.all(np.abs(np.array(z).imag) <= 1e-9 * sized), "imaginary part of stable magnons")
            g = np.diag(np.concatenate((np.ones(N), -np.ones(N))))
            n2 = max(1.0, float(np.linalg.norm(G)) ** 2)
            c.close(G @ g @ G.conj().T, g, "magnons are not bosons", rtol=0, atol=1e-8 * n2)
            Gi = np.linalg.inv(G)
            c.close(
                Gi.conj().T @ H @ Gi, np.diag(full), "G does not diagonalize h(k)",
                rtol=1e-7 * n2, atol=2e-8, scale=sized,
            )
            c.ev("transformation")
    if N > 1:
        c.ev("several atoms")
    if gen.chance(rng, 0.3) and units >= 1:
        # Other collections of points
        good = [k for k in ks if np.linalg.eigvalsh(W.omega(k)[0])[0] > 1e-4 * W.omega(k)[-1]]
        want = np.array([md.omega(k) for k in good]).T
        for kk in (np.array(good), tuple(map(tuple, good)), [k.tolist() for k in good]):
            if good:
                c.close(
                    md.omegas(kk), want, f"omegas() of {type(kk).__name__}",
                    rtol=1e-9, atol=2e-8, scale=sized,
                )
                c.ev("collection of points")
        # Path in the reciprocal space, as made by wulfric
        rel = np.array(ks) @ np.linalg.inv(h.reciprocal_cell)
        names = [f"K{i}" for i in range(len(rel))]
        kp = Kpoints(
            *h.reciprocal_cell, coordinates=rel, names=names,
            path="-".join(names), n=int(rng.integers(1, 5)),
        ) if len(rel) > 1 else None
        if kp is not None:
            points = kp.points()
            got = np.array(md.omegas(kp))
            c.check(got.shape == (N, len(points)), f"shape of omegas() of Kpoints {got.shape}")
            for i, k in enumerate(points):
                ev = np.linalg.eigvalsh(W.omega(k)[0])
                if ev[0] > 1e-4 * ev[-1]:
                    c.close(
                        got[:, i], md.omega(k), "omegas() of Kpoints",
                        rtol=1e-9, atol=2e-8, scale=sized,
                    )
                    c.ev("points of Kpoints")
    d = oracle.difference(before, oracle.snapshot(h))
    c.check(d is None, f"computation of magnons changed the Hamiltonian: {d}")
    c.state((s.notation, N, sorted(map(str, s.bonds)), along))
