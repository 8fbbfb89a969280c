"""Reference models.  They are written from the definitions in the documentation and do
not call the code that they judge; Hamiltonians are observed only through the public
interface (iteration over the parameters, notation, atoms)."""

import numpy as np

# CODATA 2018 (SI)
EV = 1.602176634e-19
MEV = 1e-3 * EV
KB = 1.380649e-23
MU_B = 9.2740100783e-24
RYDBERG = 2.1798723611035e-18
BOHR = 0.529177210903  # Angstrom


def snapshot(h):
    """Everything that is observable through the public interface, as plain data."""

    def get(attr):
        try:
            return getattr(h, attr)
        except Exception as e:
            if type(e).__name__ == "NotationError":
                return None
            raise

    return {
        "cell": np.array(h.cell),
        "atoms": [
            (
                a.name,
                a.index,
                np.array(a.position),
                np.array(a.spin_vector),
                float(a.g_factor),
                charge(a),
            )
            for a in h.atoms
        ],
        "notation": tuple(
            get(x)
            for x in (
                "double_counting",
                "spin_normalized",
                "exchange_factor",
                "on_site_factor",
            )
        ),
        "exchange": {
            (a.name, a.index, b.name, b.index, tuple(int(x) for x in r)): np.array(
                p.matrix
            )
            for a, b, r, p in h.exchange
        },
        "on_site": {(a.name, a.index): np.array(p.matrix) for a, p in h.on_site},
        "spiral_vector": None
        if h.spiral_vector is None
        else np.array(h.spiral_vector),
        "cone_axis": None if h.cone_axis is None else np.array(h.cone_axis),
    }


def charge(atom):
    try:
        return float(atom.charge)
    except ValueError:
        return None


def same_value(a, b, rtol=0.0, atol=0.0):
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, (bool, np.bool_)) and isinstance(b, (bool, np.bool_)):
        return bool(a) == bool(b)
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    return bool(np.all(np.abs(a - b) <= atol + rtol * np.abs(b)))


def difference(s1, s2, rtol=0.0, atol=0.0):
    """None or description of the first difference between two snapshots."""
    if not same_value(s1["cell"], s2["cell"], rtol, atol):
        return f"cell {s1['cell'].tolist()} != {s2['cell'].tolist()}"
    if len(s1["atoms"]) != len(s2["atoms"]):
        return f"number of atoms {len(s1['atoms'])} != {len(s2['atoms'])}"
    for a, b in zip(s1["atoms"], s2["atoms"]):
        if a[:2] != b[:2]:
            return f"atom {a[:2]} != {b[:2]}"
        for i, what in ((2, "position"), (3, "spin"), (4, "g factor"), (5, "charge")):
            if not same_value(a[i], b[i], rtol, atol):
                return f"{what} of atom {a[0]}: {a[i]} != {b[i]}"
    for i, what in enumerate(
        ("double counting", "spin normalized", "exchange factor", "on-site factor")
    ):
        if not same_value(s1["notation"][i], s2["notation"][i], rtol, atol):
            return f"{what}: {s1['notation'][i]} != {s2['notation'][i]}"
    for part in ("exchange", "on_site"):
        extra = set(s1[part]) ^ set(s2[part])
        if extra:
            return f"{part}: only in one of two {sorted(extra, key=str)[:4]}"
        for key in s1[part]:
            if not same_value(s1[part][key], s2[part][key], rtol, atol):
                return (
                    f"{part} {key}: {s1[part][key].tolist()} != "
                    f"{s2[part][key].tolist()}"
                )
    for part in ("spiral_vector", "cone_axis"):
        if not same_value(s1[part], s2[part], rtol, atol):
            return f"{part}: {s1[part]} != {s2[part]}"
    return None


def canonical(bond):
    """One of two mirrored descriptions of the bond and whether it is mirrored."""
    a, b, (i, j, k) = bond
    m = (b, a, (-i, -j, -k))
    return (bond, False) if repr(bond) <= repr(m) else (m, True)


def couplings(snap):
    """Physical content of the Hamiltonian:  E = sum  e_i K_b e_j + sum e_i A_i e_i,

    one term per pair of spins, e_i are unit vectors.  Does not depend on the notation.
    """
    dc, sn, ef, of = snap["notation"]
    spins = {a[:2]: float(np.linalg.norm(a[3])) for a in snap["atoms"]}
    K, A = {}, {}
    for (n1, i1, n2, i2, r), J in snap["exchange"].items():
        a, b = (n1, i1), (n2, i2)
        key, mirrored = canonical((a, b, r))
        f = ef * (1.0 if sn else spins[a] * spins[b])
        K[key] = K.get(key, 0.0) + f * (J.T if mirrored else J)
    for a, J in snap["on_site"].items():
        f = of * (1.0 if sn else spins[a] ** 2)
        A[a] = f * (J + J.T) / 2
    return K, A


def couplings_of_spec(spec):
    """The same from the description; every bond is listed there exactly once and it
    enters the double sum twice if the double counting is present."""
    dc, sn, ef, of = spec.notation
    index = {a["name"]: i + 1 for i, a in enumerate(spec.atoms)}
    K, A = {}, {}
    for (n1, n2, r), J in spec.bonds.items():
        a, b = (n1, index[n1]), (n2, index[n2])
        key, mirrored = canonical((a, b, r))
        f = ef * (2.0 if dc else 1.0) * (1.0 if sn else spec.spin(n1) * spec.spin(n2))
        K[key] = f * (J.T if mirrored else J)
    for n, J in spec.onsite.items():
        f = of * (1.0 if sn else spec.spin(n) ** 2)
        A[(n, index[n])] = f * (J + J.T) / 2
    return K, A


def couplings_differ(c1, c2, rtol=1e-9, atol=1e-12):
    for what, x, y in (("bond", c1[0], c2[0]), ("on-site", c1[1], c2[1])):
        extra = set(x) ^ set(y)
        if extra:
            return f"{what} only in one of two: {sorted(extra, key=str)[:4]}"
        for key in x:
            s = max(float(np.max(np.abs(x[key]))), float(np.max(np.abs(y[key]))))
            if not np.all(np.abs(x[key] - y[key]) <= atol + rtol * s):
                return f"{what} {key}: {x[key].tolist()} != {y[key].tolist()}"
    return None


def rotate(v, axis, angle):
    """Right-handed rotation of v around the unit vector axis (Rodrigues)."""
    v, n = np.asarray(v, float), np.asarray(axis, float)
    return (
        np.cos(angle) * v
        + np.sin(angle) * np.cross(n, v)
        + (1 - np.cos(angle)) * n * (n @ v)
    )


class Lattice:
    """Brute-force energy of the explicit arrangement of spins on the lattice."""

    def __init__(self, snap):
        self.cell = snap["cell"]
        self.atoms = [a[:2] for a in snap["atoms"]]
        self.spins = {a[:2]: float(np.linalg.norm(a[3])) for a in snap["atoms"]}
        self.g = {a[:2]: a[4] for a in snap["atoms"]}
        self.K, self.A = couplings(snap)
        dc, sn, ef, of = snap["notation"]
        self.scale = 1e-300
        for (n1, i1, n2, i2, r), J in snap["exchange"].items():
            f = 1.0 if sn else self.spins[(n1, i1)] * self.spins[(n2, i2)]
            self.scale += abs(ef * f) * float(np.abs(J).max())
        for a, J in snap["on_site"].items():
            f = 1.0 if sn else self.spins[a] ** 2
            self.scale += abs(of * f) * float(np.abs(J).max())
        mag = set(self.A)
        for a, b, _ in self.K:
            mag |= {a, b}
        # Magnetic atoms: at least one parameter, ordered by the index
        self.magnetic = sorted(mag, key=lambda a: (a[1], a[0]))

    def energy_scale(self):
        """Sum of the magnitudes of all terms (also of those that cancel)."""
        return self.scale

    def energy(self, directions, field=None, axis=None, phase=None, cells=((0, 0, 0),)):
        """Energy per unit cell, averaged over the given cells.

        phase(R) is the angle of the rotation of all spins of the cell R around axis.
        """
        index = {a: i for i, a in enumerate(self.magnetic)}
        e = np.asarray(directions, float)
        e = e / np.linalg.norm(e, axis=1)[:, None]

        def spin(a, R):
            v = e[index[a]]
            if axis is None:
                return v
            return rotate(v, axis, phase(R))

        total = 0.0
        for R in cells:
            R = np.array(R)
            for (a, b, r), K in self.K.items():
                total += spin(a, R) @ K @ spin(b, R + np.array(r))
            for a, A in self.A.items():
                s = spin(a, R)
                total += s @ A @ s
            if field is not None:
                for a in self.magnetic:
                    total += (
                        MU_B / MEV * self.g[a] * self.spins[a] * (field @ spin(a, R))
                    )
        return total / len(cells)


def reciprocal(cell):
    return 2 * np.pi * np.linalg.inv(np.asarray(cell)).T
