"""Linear spin-wave theory from the equations of motion of classical spins.

    hbar dS_i/dt = (dE/dS_i) x S_i,     E = sum of all terms

linearized around the given directions; deviations are S_i x_i with the plane wave
exp(i k r_i - i w t).  Nothing is taken from the code under test, only the definition of
the documentation that the terms linear in the deviations are dropped."""

import numpy as np

from vlib import oracle


class Waves:
    def __init__(self, snap):
        self.lat = oracle.Lattice(snap)
        self.cell = snap["cell"]
        pos = {a[:2]: a[2] for a in snap["atoms"]}
        vec = {a[:2]: a[3] for a in snap["atoms"]}
        self.atoms = self.lat.magnetic
        self.N = len(self.atoms)
        index = {a: i for i, a in enumerate(self.atoms)}
        self.S = np.array([self.lat.spins[a] for a in self.atoms])
        self.e3 = np.array([vec[a] / np.linalg.norm(vec[a]) for a in self.atoms])
        self.e1, self.e2 = np.zeros_like(self.e3), np.zeros_like(self.e3)
        for i, z in enumerate(self.e3):
            a = np.eye(3)[int(np.argmin(np.abs(z)))]
            x = np.cross(a, z)
            x /= np.linalg.norm(x)
            self.e1[i], self.e2[i] = x, np.cross(z, x)  # e1 x e2 = e3
        # Energy = 1/2 sum_{i,j,d} e_i Q_ij(d) e_j,  every ordered pair is present
        self.terms = []
        for (a, b, r), K in self.lat.K.items():
            d = (pos[b] - pos[a] + np.array(r)) @ self.cell
            i, j = index[a], index[b]
            self.terms.append((i, j, d, K))
            self.terms.append((j, i, -d, K.T))
        for a, A in self.lat.A.items():
            i = index[a]
            self.terms.append((i, i, np.zeros(3), 2 * A))

    def matrix(self, k):
        """Real quadratic form of deviations in local coordinates, 2N x 2N Hermitian.

        e_i = x_i e1 + y_i e2 + (1 - (x^2 + y^2)/2) e3
        """
        N = self.N
        M = np.zeros((2 * N, 2 * N), dtype=complex)
        for i, j, d, Q in self.terms:
            f = np.exp(1j * (k @ d))
            for a, u in enumerate((self.e1[i], self.e2[i])):
                for b, v in enumerate((self.e1[j], self.e2[j])):
                    M[a * N + i, b * N + j] += f * (u @ Q @ v)
            z = self.e3[i] @ Q @ self.e3[j]
            M[i, i] -= z
            M[N + i, N + i] -= z
        return M

    def omega(self, k):
        """(N,) energies of magnons with the vector k, descending, and the smallest
        eigenvalue of the Hermitian boson matrix, relative to its largest one."""
        N = self.N
        M = self.matrix(np.asarray(k, float))
        # Canonical variables: x = X / sqrt(S), y = Y / sqrt(S), {X, Y} = 1
        s = 1.0 / np.sqrt(np.concatenate((self.S, self.S)))
        H = s[:, None] * M * s[None, :]
        w = np.linalg.eigvalsh((H + H.conj().T) / 2)
        margin = w[0] / max(abs(w[0]), abs(w[-1]), 1e-300)
        negative = w[-1] / max(abs(w[0]), abs(w[-1]), 1e-300)
        # dX/dt = dE/dY, dY/dt = -dE/dX  with the orientation of the spin
        Om = np.block([[np.zeros((N, N)), np.eye(N)], [-np.eye(N), np.zeros((N, N))]])
        ev, vecs = np.linalg.eig(1j * Om @ H)
        return H, margin, negative, ev, vecs, float(np.abs(w).max())
