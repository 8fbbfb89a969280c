"""Diagonalization of bosonic quadratic Hamiltonians."""

import numpy as np

from vlib import gen

PROP = "P11"
QUICK, THOROUGH = 48000, 120000
RULE = (
    "Random Hermitian matrices (generic, degenerate, block, ill-conditioned, real, "
    "with the magnon symmetry, not positive definite) are given to the diagonalization; "
    "the returned energies and transformation are substituted in the definitions.  "
    "Distinct = distinct (kind, size, spectrum)."
)
EXPECT = {"diagonalized": 3000, "degenerate": 500, "refused": 500, "magnon symmetry": 500}
ASSUMPTIONS = ["condition number of the matrix is below 1e7"]


def herm(rng, n):
    return rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n))


def unitary(rng, n):
    q, _ = np.linalg.qr(herm(rng, n))
    return q


def para_unitary(rng, N, strength):
    """exp of an element of the algebra of U(N, N):  T^+ g T = g"""
    from scipy.linalg import expm

    g = np.diag(np.concatenate((np.ones(N), -np.ones(N))))
    X = herm(rng, 2 * N) * strength
    X = (X + X.conj().T) / 2
    return expm(1j * g @ X), g


def case(c):
    from magnopy import solve_via_colpa
    from magnopy.exceptions import ColpaFailed

    rng = c.rng
    N = int(gen.pick(rng, (1, 1, 2, 2, 3, 4, 6, 10)))
    g = np.diag(np.concatenate((np.ones(N), -np.ones(N))))
    scale = float(10.0 ** (rng.uniform(-3, 3) if gen.chance(rng, 0.8) else rng.uniform(-14, 14)))
    kind = gen.pick(
        rng, ("generic", "known", "known", "degenerate", "magnon", "diagonal", "bad", "real")
    )
    known = None
    if kind == "generic":
        X = herm(rng, 2 * N)
        D = X @ X.conj().T + np.eye(2 * N) * float(10.0 ** rng.uniform(-2, 1))
    elif kind == "real":
        X = rng.normal(size=(2 * N, 2 * N))
        D = X @ X.T + np.eye(2 * N) * 0.1
    elif kind in ("known", "degenerate"):
        # Spectrum is known in advance
        E1 = rng.uniform(0.1, 5, N)
        E2 = rng.uniform(0.1, 5, N)
        if kind == "degenerate":
            E1 = np.full(N, E1[0]) if gen.chance(rng, 0.5) else rng.integers(1, 3, N) * 1.0
            E2 = E1.copy() if gen.chance(rng, 0.5) else np.full(N, E1[0])
        T, _ = para_unitary(rng, N, 0.3 / np.sqrt(N))
        D = T.conj().T @ np.diag(np.concatenate((E1, E2))) @ T
        known = (np.sort(E1)[::-1] * scale, np.sort(E2) * scale)
    elif kind == "magnon":
        A = herm(rng, N)
        A = A @ A.conj().T + np.eye(N) * 2
        B = herm(rng, N)
        B = (B + B.T) / 2
        B *= 0.5 * np.linalg.eigvalsh(A)[0] / max(np.linalg.norm(B, 2), 1e-12)
        D = np.block([[A, B], [B.conj().T, A.conj()]])
    elif kind == "diagonal":
        D = np.diag(rng.integers(1, 4, 2 * N).astype(float))
    else:
        # One eigenvalue is definitely negative
        U = unitary(rng, 2 * N)
        w = rng.uniform(0.1, 2, 2 * N)
        w[int(rng.integers(2 * N))] = -float(rng.uniform(0.05, 2))
        D = U @ np.diag(w) @ U.conj().T
        if gen.chance(rng, 0.2):
            D = -np.eye(2 * N)
    D = (D + D.conj().T) / 2 * scale
    c.op(kind, N, np.round(D / scale, 3).tolist())
    given = D.tolist() if gen.chance(rng, 0.1) else D.copy()
    before = D.copy()
    if kind == "bad":
        c.raises(ColpaFailed, lambda: solve_via_colpa(given), "not positive definite matrix")
        c.ev("refused")
        c.state((kind, N))
        return
    if np.linalg.cond(D) > 1e7:
        return
    E, G = solve_via_colpa(given)
    c.check(np.array_equal(np.array(given), before), "the given matrix is changed")
    E, G = np.array(E), np.array(G)
    c.check(E.shape == (2 * N,) and G.shape == (2 * N, 2 * N), f"shapes {E.shape} {G.shape}")
    c.check(np.all(np.isfinite(G)) and np.all(np.isfinite(E)), "not a number in the result")
    c.check(
        np.max(np.abs(np.imag(E))) <= 1e-9 * scale and np.min(np.real(E)) > 0,
        f"energies of a positive definite matrix are {E.tolist()}",
    )
    E = np.real(E)
    cond = float(np.linalg.cond(G))
    eps = 1e-10 * max(1.0, cond**2)
    if eps > 1e-4:
        return
    top = float(E.max())
    tol = 1e-12 * np.linalg.cond(D) * top + 1e-12 * top
    c.check(np.all(np.diff(E[:N]) <= tol), f"first energies are not descending: {E}")
    c.check(np.all(np.diff(E[N:]) >= -tol), f"last energies are not ascending: {E}")
    # New operators are bosons
    c.close(G @ g @ G.conj().T, g, "commutation relations", rtol=0, atol=eps)
    c.close(G.conj().T @ g @ G, g, "commutation relations (inverse)", rtol=0, atol=eps)
    # The Hamiltonian is diagonal in them
    Gi = np.linalg.inv(G)
    c.close(Gi.conj().T @ D @ Gi, np.diag(E), "not diagonal", rtol=eps, atol=0, scale=float(np.abs(D).max()) + top)
    c.close(G.conj().T @ np.diag(E) @ G, D, "Hamiltonian is not restored", rtol=eps, atol=0, scale=float(np.abs(D).max()) + top)
    # Independent spectrum
    w = np.sort(np.linalg.eigvals(g @ D).real)
    c.close(np.sort(np.concatenate((E[:N], -E[N:]))), w, "spectrum", rtol=max(eps, 1e-6), atol=0, scale=top)
    if known is not None:
        c.close(E[:N], known[0], "known energies", rtol=max(eps, 1e-8), atol=0, scale=top)
        c.close(E[N:], known[1], "known energies", rtol=max(eps, 1e-8), atol=0, scale=top)
    if kind == "magnon":
        c.close(E[:N], E[N:][::-1], "magnon symmetry", rtol=max(eps, 1e-8), atol=0, scale=top)
        c.ev("magnon symmetry")
    c.ev("diagonalized")
    if kind in ("degenerate", "diagonal"):
        c.ev("degenerate")
    c.state((kind, N, np.round(E / scale, 6).tolist()))
