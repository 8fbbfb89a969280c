"""Generators of hostile inputs.  Everything depends only on the given rng."""

import numpy as np

PREDEFINED = {
    "magnopy": (True, False, 0.5, 1.0),
    "tb2j": (True, True, -1.0, -1.0),
    "spinw": (True, False, 1.0, 1.0),
    "vampire": (True, True, -0.5, -1.0),
}

# Names that are prefixes of each other, differ by case, start with digits ...
NAMES = (
    "Cr Cr1 Cr10 Cr11 cr1 CR1 Fe Fe_1 Fe_10 1Fe 2 22 A a AA Aa B b C D E F G x y z r1 "
    "Ni1 Ni2 Ni3 Mn1 Mn2 O O1 I1 I2 Br3 X q-1 S s m1 d1 i1 e Spin name1 k.1 N:a "
    "Chromium1 Chromium12 LongName_of_atom_1 LongName_of_atom_12"
).split()


def pick(rng, seq):
    return seq[int(rng.integers(len(seq)))]


def chance(rng, p):
    return bool(rng.random() < p)


def unit(rng):
    """Direction: generic, along the axes, or very close to the axes."""
    r = rng.random()
    if r < 0.3:
        v = np.zeros(3)
        v[int(rng.integers(3))] = pick(rng, (1.0, -1.0))
        return v
    v = rng.normal(size=3)
    v /= np.linalg.norm(v)
    if r < 0.4:
        axis = np.zeros(3)
        axis[int(rng.integers(3))] = pick(rng, (1.0, -1.0))
        v = axis + v * 10.0 ** rng.uniform(-7, -2)
        v /= np.linalg.norm(v)
    elif r < 0.5:
        v[int(rng.integers(3))] = 0.0
        if np.linalg.norm(v) < 1e-3:
            v = np.array([0.0, 1.0, 0.0])
        v /= np.linalg.norm(v)
    return v


def rotation(rng):
    q, r = np.linalg.qr(rng.normal(size=(3, 3)))
    q = q * np.sign(np.diag(r))
    if np.linalg.det(q) < 0:
        q[:, 0] *= -1
    return q


def spin_value(rng):
    r = rng.random()
    if r < 0.6:
        return pick(rng, (0.5, 1.0, 1.5, 2.0, 2.5, 3.5))
    return float(10.0 ** rng.uniform(-1, 1))


def cell(rng):
    """Non-singular cell: orthogonal, oblique, left-handed, of very different sizes."""
    while True:
        r = rng.random()
        if r < 0.25:
            c = np.diag(rng.uniform(1, 10, 3))
        elif r < 0.4:
            c = np.eye(3) * rng.uniform(1, 8)
            if chance(rng, 0.4):
                # Two of the three are the same
                k = int(rng.integers(3))
                c[k] *= rng.uniform(0.5, 2)
        else:
            c = rng.normal(size=(3, 3)) * rng.uniform(1, 8)
        if chance(rng, 0.2):
            c = c[::-1].copy()
        norms = np.linalg.norm(c, axis=1)
        if abs(np.linalg.det(c)) > 0.15 * np.prod(norms) and norms.min() > 0.5:
            return c


def factor(rng):
    r = rng.random()
    if r < 0.7:
        return pick(rng, (0.5, -0.5, 1.0, -1.0, 2.0, -2.0))
    return float(pick(rng, (1, -1)) * 10.0 ** rng.uniform(-1, 1))


def notation(rng):
    """(double counting, spin normalized, exchange factor, on-site factor)"""
    if chance(rng, 0.35):
        return PREDEFINED[pick(rng, sorted(PREDEFINED))]
    return (chance(rng, 0.5), chance(rng, 0.5), factor(rng), factor(rng))


def matrix(rng, scale=1.0, symmetric=False):
    r = rng.random()
    m = rng.normal(size=(3, 3))
    if r < 0.2:
        m = np.eye(3) * rng.normal()
    elif r < 0.3:
        d = rng.normal(size=3)
        m = np.array([[0, d[2], -d[1]], [-d[2], 0, d[0]], [d[1], -d[0], 0]])
        if symmetric:
            m = np.diag(d)
    elif r < 0.4:
        m = (m + m.T) / 2
    elif r < 0.45:
        m = np.diag(rng.normal(size=3))
    elif r < 0.5:
        m = np.zeros((3, 3))
        m[int(rng.integers(3)), int(rng.integers(3))] = rng.normal()
    elif r < 0.55:
        m = rng.integers(-3, 4, size=(3, 3)).astype(float)
    elif r < 0.58:
        m = np.zeros((3, 3))
    elif r < 0.61:
        # Uniaxial
        a, b = rng.normal(size=2)
        m = np.diag(np.roll([a, a, b], int(rng.integers(3))))
    elif r < 0.64:
        m -= np.eye(3) * np.trace(m) / 3
    elif r < 0.70:
        # Almost isotropic, symmetric or antisymmetric
        tiny = 10 ** rng.uniform(-7, -2)
        base = pick(rng, (np.eye(3), (m + m.T) / 2, (m - m.T) / 2 if not symmetric else np.eye(3)))
        m = base * float(rng.normal()) + tiny * rng.normal(size=(3, 3))
    if symmetric:
        m = (m + m.T) / 2
    return m * scale


def ijk(rng, near=False):
    r = rng.random()
    if r < 0.2 and not near:
        return (0, 0, 0)
    if r < 0.9:
        return tuple(int(x) for x in rng.integers(-2, 3, 3))
    if r < 0.97:
        v = [0, 0, 0]
        v[int(rng.integers(3))] = int(pick(rng, (-1, 1))) * int(rng.integers(1, 4))
        return tuple(v)
    if r < 0.99:
        return tuple(int(x) for x in rng.integers(-15, 16, 3))
    # Far cells
    return tuple(int(x) for x in rng.integers(-40000, 40001, 3) // pick(rng, (1, 100, 250)))


def mirror(bond):
    a, b, (i, j, k) = bond
    return (b, a, (-i, -j, -k))


def charge(rng):
    return rng.normal() * 3 if chance(rng, 0.8) else pick(rng, (0.0, 1.0, -2.0))


def names(rng, n):
    pool = list(NAMES)
    rng.shuffle(pool)
    result = pool[:n]
    while len(result) < n:
        result.append(f"At{len(result)}")
    return [str(x) for x in result]


class Spec:
    """Plain description of the Hamiltonian (no magnopy objects).

    atoms  : list of dict(name, position, spin (vector), g, charge)
    bonds  : {(name1, name2, ijk): 3x3}, mirrored bonds are never listed
    onsite : {name: symmetric 3x3}
    """

    def __init__(self):
        self.cell = None
        self.atoms = []
        self.bonds = {}
        self.onsite = {}
        self.notation = None
        self.spiral_vector = None
        self.cone_axis = None

    def atom(self, name):
        for a in self.atoms:
            if a["name"] == name:
                return a
        raise KeyError(name)

    def spin(self, name):
        return float(np.linalg.norm(self.atom(name)["spin"]))


def spec(
    rng,
    n_atoms=None,
    n_bonds=None,
    p_onsite=0.5,
    notation_=None,
    scale=None,
    nonmagnetic=True,
    ground_state=True,
    near=False,
    symmetric_onsite=True,
    extreme=0.0,
):
    s = Spec()
    s.cell = cell(rng)
    if n_atoms is None:
        n_atoms = int(pick(rng, (1, 1, 2, 2, 3, 3, 4, 5)))
        if n_bonds is None and chance(rng, 0.02):
            # More than ten of everything, sometimes more than one hundred
            n_atoms = int(rng.integers(6, 14))
            n_bonds = int(pick(rng, (15, 40, 130)))
    if scale is None:
        scale = 1.0
        if chance(rng, 0.3):
            scale = float(10.0 ** (rng.uniform(-2, 2) if chance(rng, 0.9) else rng.uniform(-4, 4.5)))
    if chance(rng, extreme):
        # Any units of energy
        scale = float(10.0 ** (rng.uniform(-12, -6) if chance(rng, 0.8) else rng.uniform(5, 9)))
    n_extra = int(rng.integers(0, 3)) if nonmagnetic and chance(rng, 0.3) else 0
    nm = names(rng, n_atoms + n_extra)
    magnetic = list(range(n_atoms + n_extra))
    rng.shuffle(magnetic)
    magnetic = sorted(magnetic[:n_atoms])
    for i, name in enumerate(nm):
        if i in magnetic:
            spin = unit(rng) * spin_value(rng)
        else:
            spin = np.zeros(3)
        pos = rng.uniform(0, 1, 3)
        if chance(rng, 0.2):
            pos = rng.integers(0, 4, 3) / 4.0
        if chance(rng, 0.1):
            pos = rng.uniform(-2, 2, 3)
        s.atoms.append(
            dict(
                name=name,
                position=pos,
                spin=spin,
                g=2.0 if chance(rng, 0.6) else float(rng.uniform(-3, 3)),
                charge=None if chance(rng, 0.6) else float(charge(rng)),
            )
        )
    mag = [nm[i] for i in magnetic]
    if n_bonds is None:
        n_bonds = int(rng.integers(0, 4 * n_atoms + 2))
    for _ in range(n_bonds):
        b = (pick(rng, mag), pick(rng, mag), ijk(rng, near))
        if (b[0] == b[1] and b[2] == (0, 0, 0)) or b in s.bonds or mirror(b) in s.bonds:
            continue
        s.bonds[b] = matrix(rng, scale)
    for name in mag:
        if chance(rng, p_onsite):
            s.onsite[name] = matrix(rng, scale, symmetric=symmetric_onsite)
    s.notation = notation_ if notation_ is not None else notation(rng)
    if ground_state and chance(rng, 0.4):
        s.spiral_vector = rng.uniform(-0.5, 0.5, 3)
        r = rng.random()
        if r < 0.1:
            s.spiral_vector = rng.uniform(-4, 4, 3)
        elif r < 0.2:
            s.spiral_vector = rng.integers(-2, 3, 3) / 2.0
        elif r < 0.25:
            s.spiral_vector = np.zeros(3)
    if ground_state and chance(rng, 0.4):
        s.cone_axis = unit(rng)
    return s


def build(rng, s, c=None, with_notation=True):
    """Build SpinHamiltonian from the description through the public interface.

    Different but equivalent ways to give the same data are chosen randomly.
    """
    from wulfric import Atom

    from magnopy import SpinHamiltonian

    if chance(rng, 0.12):
        return fill(rng, s, c, worn(rng, s, c, with_notation))
    r = rng.random()
    if with_notation and r < 0.5:
        h = SpinHamiltonian(cell=s.cell.copy(), notation=s.notation)
    else:
        h = SpinHamiltonian(cell=s.cell.copy())
        if with_notation:
            h.notation = s.notation
    for a in s.atoms:
        kw = dict(
            position=a["position"].copy(), spin=a["spin"].copy(), g_factor=a["g"]
        )
        if a["charge"] is not None:
            kw["charge"] = a["charge"]
        way = rng.random()
        if way < 0.5:
            h.add_atom(a["name"], **kw)
        elif way < 0.8:
            h.add_atom(Atom(name=a["name"], **kw))
        else:
            h.add_atom(name=a["name"], **kw)
    return fill(rng, s, c, h)


def ask(h):
    """Everything that can be asked from the Hamiltonian without its change."""
    from magnopy import Energy, MagnonDispersion

    names = [a.name for a in h.magnetic_atoms]
    len(h.exchange), len(h.on_site)
    bonds = list(h.exchange)
    for a, b, r, _ in bonds:
        h.get_distance(a, b, r)
        h[a, b, r], (a, b, r) in h
    list(h.on_site)
    h.filtered(max_distance=5.0)
    h.filtered(min_distance=2.0)
    h.crystal, h.copy()
    try:
        h.notation
    except Exception:
        return
    len(h.exchange_like), list(h.exchange_like)
    if len(names) and len(bonds):
        Energy(h).ferro([[0.0, 0.6, 0.8]] * len(names))
        MagnonDispersion(h).omega([0.1, 0.2, 0.3])


def worn(rng, s, c, with_notation):
    """Hamiltonian without parameters, that was another Hamiltonian before."""
    from magnopy import SpinHamiltonian

    if c is not None:
        c.op("worn Hamiltonian")
    h = SpinHamiltonian(cell=s.cell + np.diag(rng.uniform(0.1, 1.0, 3)) * np.abs(s.cell).max())
    if with_notation:
        h.notation = notation(rng)
    for a in s.atoms:
        h.add_atom(a["name"], position=rng.uniform(0, 1, 3), spin=unit(rng) * 1.25, g_factor=1.5)
    names = [a["name"] for a in s.atoms]
    if names:
        same = chance(rng, 0.5)
        for key in s.bonds:
            a, b = pick(rng, names), pick(rng, names)
            r = (int(rng.integers(1, 3)), int(rng.integers(-2, 3)), int(rng.integers(-2, 3)))
            if same:
                a, b, r = key[0], key[1], tuple(int(x) for x in key[2])
            h.add_exchange(a, b, r, matrix=matrix(rng))
        for a in rng.permutation(names)[: len(s.onsite)]:
            h.add_on_site(str(a), matrix=matrix(rng, symmetric=True))
    ask(h)
    h.filter(max_distance=1e9)
    if with_notation:
        h.notation = s.notation
    for a, b, r in [x[:3] for x in h.exchange]:
        h.remove_exchange(a, b, r, raise_if_no_bond=False)
    for a in [x[0] for x in h.on_site]:
        h.remove_on_site(a)
    h.cell = s.cell.copy()
    for a in s.atoms:
        atom = h.get_atom(a["name"])
        atom.position, atom.spin, atom.g_factor = a["position"].copy(), a["spin"].copy(), a["g"]
        if a["charge"] is not None:
            atom.charge = a["charge"]
    return h


def fill(rng, s, c, h):
    """Parameters of the description for the Hamiltonian with the same atoms."""
    from magnopy import MatrixParameter

    order = list(s.bonds)
    rng.shuffle(order)
    order = [tuple(b) for b in order]
    for a1, a2, r3 in order:
        r3 = tuple(int(x) for x in r3)
        J = s.bonds[(a1, a2, r3)]
        x1 = a1 if chance(rng, 0.5) else h.get_atom(a1)
        x2 = a2 if chance(rng, 0.5) else h.get_atom(a2)
        if c is not None:
            c.op("bond", a1, a2, r3, np.round(J, 4).tolist())
        way = rng.random()
        if way < 0.35:
            h.add_exchange(x1, x2, r3, MatrixParameter(J))
        elif way < 0.6:
            h.add_exchange(x1, x2, r3, matrix=J)
        elif way < 0.8:
            h[x1, x2, r3] = MatrixParameter(matrix=J)
        else:
            iso = float(np.trace(J) / 3)
            S = (J + J.T) / 2 - np.eye(3) * iso
            A = (J - J.T) / 2
            h.add_exchange(
                x1, x2, r3, iso=iso, aniso=S, dmi=(A[1][2], A[2][0], A[0][1])
            )
    order = list(s.onsite)
    rng.shuffle(order)
    for name in order:
        name = str(name)
        J = s.onsite[name]
        x = name if chance(rng, 0.5) else h.get_atom(name)
        if c is not None:
            c.op("on-site", name, np.round(J, 4).tolist())
        if chance(rng, 0.5):
            h.add_on_site(x, matrix=J)
        else:
            h[x] = MatrixParameter(J)
    if s.spiral_vector is not None:
        h.spiral_vector = s.spiral_vector
    if s.cone_axis is not None:
        h.cone_axis = s.cone_axis
    return h
