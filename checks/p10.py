"""Minimization: energy never grows, the result is a stationary point, history is true."""

import contextlib
import io
import os

import numpy as np

from vlib import gen, mon, oracle

PROP = "P10"
QUICK, THOROUGH = 900, 12000
RULE = (
    "Minimizations of random Hamiltonians (all three kinds of states, with and without "
    "field, random and special initial guesses, 1-4 spins) are executed with the history "
    "written to a file.  The recorded trace is judged line by line (energy of the recorded "
    "arrangement, monotonic decrease, unit vectors), the result is judged with an "
    "independent gradient.  Distinct = distinct (kind, number of spins, length of history)."
)
EXPECT = {
    "converged ferro": 150,
    "converged antiferro": 60,
    "converged spiral": 40,
    "known minimum": 80,
    "flat landscape": 20,
    "history lines": 3000,
    "converged with given tolerance": 150,
    "torques in history": 1000,
    "stopped by the limit of iterations": 30,
    "printed history": 50,
    "settings": 50,
}
ASSUMPTIONS = [
    "sum of the magnitudes of all terms of the energy is between 0.3 and 20 meV (default tolerances are absolute)",
    "initial guess is not closer than rounding to a maximum or a saddle point, unless it is one exactly",
]
EVALUATIONS = 400000


def torque(f, e, axis, q, hstep=1e-5):
    """Numerical derivative of the independent energy along rotations of each vector."""
    res = []
    vectors = [e[i] for i in range(len(e))] + ([axis] if axis is not None else [])
    for i, v in enumerate(vectors):
        a = np.array([1.0, 0, 0]) if abs(v[0]) < 0.7 else np.array([0, 1.0, 0])
        u = np.cross(v, a)
        u /= np.linalg.norm(u)
        w = np.cross(v, u)
        t = []
        for d in (u, w):
            vals = []
            for sgn in (1, -1):
                x = v * np.cos(hstep) + sgn * d * np.sin(hstep)
                if i < len(e):
                    ee = e.copy()
                    ee[i] = x
                    vals.append(f(ee, axis, q))
                else:
                    vals.append(f(e, x, q))
            t.append((vals[0] - vals[1]) / 2 / hstep)
        res.append(float(np.hypot(*t)))
    return np.array(res)


def make(c):
    """Random Hamiltonian with moderate energies."""
    rng = c.rng
    s = gen.spec(
        rng,
        n_atoms=int(gen.pick(rng, (1, 1, 2, 2, 3, 4))),
        n_bonds=int(rng.integers(1, 7)),
        scale=1.0,
        near=True,
    )
    for a in s.atoms:
        if np.linalg.norm(a["spin"]) > 0:
            a["spin"] = a["spin"] / np.linalg.norm(a["spin"]) * gen.pick(rng, (0.5, 1.0, 1.5, 2.5))
    h = gen.build(rng, s)
    scale = oracle.Lattice(oracle.snapshot(h)).scale
    if scale < 1e-6:
        return None
    k = float(rng.uniform(0.3, 20)) / scale
    for b in s.bonds:
        s.bonds[b] = s.bonds[b] * k
    for b in s.onsite:
        s.onsite[b] = s.onsite[b] * k
    h = gen.build(rng, s, c)
    return s, h


def flat(c):
    """Energy of the ferromagnetic state does not depend on the directions (DMI between
    the same atoms cancels), only rounding errors are left."""
    from magnopy import Energy

    rng = c.rng
    s = gen.spec(rng, n_atoms=int(rng.integers(1, 3)), n_bonds=0, p_onsite=0, nonmagnetic=False)
    names = [a["name"] for a in s.atoms]
    for _ in range(int(rng.integers(2, 6))):
        n, r = gen.pick(rng, names), gen.ijk(rng, near=True)
        if r != (0, 0, 0) and (n, n, r) not in s.bonds and gen.mirror((n, n, r)) not in s.bonds:
            d = rng.normal(size=3) * float(rng.uniform(0.1, 4))
            s.bonds[(n, n, r)] = np.array([[0, d[2], -d[1]], [-d[2], 0, d[0]], [d[1], -d[0], 0]])
    if not s.bonds:
        return
    scale = oracle.Lattice(oracle.snapshot(gen.build(rng, s))).scale
    k = float(rng.uniform(0.3, 20)) / scale
    s.bonds = {b: J * k for b, J in s.bonds.items()}
    E = Energy(gen.build(rng, s, c))
    guess = np.array([gen.unit(rng) for _ in range(len(E.spins))])
    guess += rng.normal(size=guess.shape) * 0.3
    c.op("flat", guess.tolist())
    r = run(c, E, dict(case="ferro", initial_guess=guess, max_iterations=100))
    c.close(E.ferro(r[0]), 0.0, "energy of the flat landscape", rtol=0, atol=1e-9)
    c.close(np.linalg.norm(r[0], axis=1), np.ones(len(guess)), "length of the spins", atol=1e-6)
    c.ev("flat landscape")


def known_minimum(c):
    """Energy landscapes with only one kind of minima."""
    from wulfric import Atom

    from magnopy import Energy, MatrixParameter, SpinHamiltonian

    rng = c.rng
    S = gen.pick(rng, (0.5, 1.0, 1.5, 2.0))
    h = SpinHamiltonian(cell=gen.cell(rng), notation=gen.notation(rng))
    h.add_atom(Atom(name="A", position=(0, 0, 0), spin=S))
    kind = int(rng.integers(4))
    iterations = 2000
    if kind == 0:
        # One spin, quadratic form: the smallest eigenvalue
        w = np.sort(rng.uniform(-2, 2, 3))
        Q = gen.rotation(rng)
        A = Q @ np.diag(w) @ Q.T / (h.on_site_factor * (1 if h.spin_normalized else S**2))
        h.add_on_site("A", matrix=A)
        want = w[0]
        field = None
    elif kind == 1:
        # One spin in the field
        h.add_on_site("A", matrix=np.zeros((3, 3)))
        field = gen.unit(rng) * float(rng.uniform(2, 30))
        want = -oracle.MU_B / oracle.MEV * 2 * S * np.linalg.norm(field)
    elif kind == 2:
        # Two spins: parallel or antiparallel
        S2 = gen.pick(rng, (0.5, 1.0, 2.5))
        h.add_atom(Atom(name="B", position=(0.5, 0.5, 0.5), spin=S2))
        K = float(gen.pick(rng, (-1, 1)) * rng.uniform(0.3, 3))
        J = K / (
            h.exchange_factor
            * (2 if h.double_counting else 1)
            * (1 if h.spin_normalized else S * S2)
        )
        h.add_exchange("A", "B", (0, 0, 0), iso=J)
        want = -abs(K)
        field = None
    else:
        # Two spins: DMI only, canted by 90 degrees
        h.add_atom(Atom(name="B", position=(0.5, 0.5, 0.5), spin=S))
        D = gen.unit(rng) * float(rng.uniform(0.3, 3))
        f = h.exchange_factor * (2 if h.double_counting else 1) * (
            1 if h.spin_normalized else S**2
        )
        h.add_exchange("A", "B", (1, 0, 0), dmi=D / f)
        want = -float(np.linalg.norm(D))
        field = None
    E = Energy(h)
    if field is not None:
        E.magnetic_field = field
    guess = np.array([gen.unit(rng) for _ in range(E_spins(E))])
    guess += rng.normal(size=guess.shape) * 0.3  # not a special point
    c.op("known minimum", kind, want, h.notation, guess.tolist())
    if gen.chance(rng, 0.7):
        r = run(c, E, dict(case="ferro", initial_guess=guess, max_iterations=iterations))
    else:
        r = run(c, E, dict(case=0, max_iterations=iterations))
    got = E.ferro(r[0])
    c.close(got, want, f"minimum of the landscape {kind}", rtol=0, atol=2e-4)
    c.ev("known minimum")
    c.state(("known", kind, h.notation))


def E_spins(E):
    return len(E.spins)


def run(c, E, kw):
    """Minimization with the bounded number of evaluations of energy."""
    from magnopy import Energy

    class TooMany(Exception):
        pass

    with mon.count_calls(
        Energy, ("ferro", "antiferro", "spiral"), EVALUATIONS, lambda n: TooMany(n)
    ) as total:
        try:
            return E.optimize(**kw)
        except TooMany as e:
            c.check(False, f"minimization does not end: {e} evaluations of energy")


def settings(c, E):
    """Parameters of the algorithm are kept and bad ones are refused."""
    rng = c.rng
    for name, kind, value in (
        ("m", int, int(rng.integers(1, 20))),
        ("wolfe_c1", float, float(10.0 ** rng.uniform(-5, -3))),
        ("wolfe_c2", float, float(rng.uniform(0.5, 0.95))),
    ):
        if gen.chance(rng, 0.6):
            c.op("setting", name, value)
            setattr(E, name, str(value) if gen.chance(rng, 0.3) else value)
            got = getattr(E, name)
            c.check(type(got) is kind and got == value, f"{name} is {got} after setting it to {value}")
            c.raises(ValueError, lambda: setattr(E, name, gen.pick(rng, ("a", None, [1, 2]))), name)
            c.check(getattr(E, name) == value, f"refused value of {name} has changed it")
            c.ev("settings")


def case(c):
    from magnopy import Energy

    rng = c.rng
    x = rng.random()
    if x < 0.3:
        return known_minimum(c)
    if x < 0.36:
        return flat(c)
    made = make(c)
    if made is None:
        return
    s, h = made
    snap = oracle.snapshot(h)
    lat = oracle.Lattice(snap)
    n = len(lat.magnetic)
    rec = oracle.reciprocal(snap["cell"])
    E = Energy(h)
    field = None
    if gen.chance(rng, 0.3):
        field = gen.unit(rng) * float(rng.uniform(0.1, 20))
        E.magnetic_field = field
    kind = gen.pick(rng, ("ferro", "ferro", "antiferro", "spiral"))

    def energy(e, axis, q):
        if kind == "ferro":
            return lat.energy(e, field)
        phases = (0.0, np.pi) if kind == "antiferro" else 2 * np.pi * np.arange(3) / 3
        return np.mean(
            [
                lat.energy(e, field, axis, lambda R: p + q @ (R @ snap["cell"]))
                for p in phases
            ]
        )

    e = np.array([gen.unit(rng) for _ in range(n)])
    axis = gen.unit(rng)
    q = rng.uniform(-0.5, 0.5, 3) @ rec
    if gen.chance(rng, 0.2):
        e = np.array([axis for _ in range(n)])
    full = gen.chance(rng, 0.8)
    limit = 400 if full else int(rng.integers(0, 6))
    name = {"ferro": 0, "antiferro": 1, "spiral": 2}[kind] if gen.chance(rng, 0.3) else kind
    kw = dict(case=name, max_iterations=limit, save_history=True, history_step=int(gen.pick(rng, (1, 2, 7, 100))))
    path = os.path.join(c.tmp(), "history")
    printed = gen.chance(rng, 0.25)
    if not printed:
        kw["history_filename"] = path
    elif gen.chance(rng, 0.5):
        kw["history_filename"] = None
    tolerance = (1e-5, 1e-5, 1e-5)
    if gen.chance(rng, 0.5):
        # Loose tolerance of the energy and tight one of the torques, and vice versa
        tolerance = tuple(
            float(10.0 ** rng.uniform(*lim)) for lim in ((-8, 1.5), (-5, -1.5), (-5, -1.5))
        )
        kw["tolerance"] = tolerance[:2] if kind == "ferro" else tolerance
        if gen.chance(rng, 0.3):
            kw["tolerance"] = list(kw["tolerance"])
    guess_e = e * 3.0
    if n == 1 and gen.chance(rng, 0.3):
        guess_e = guess_e[0]
    if kind == "ferro":
        kw["initial_guess"] = guess_e
    elif kind == "antiferro":
        q = rng.integers(-1, 2, 3) @ rec / 2
        kw["antiferro_q"] = q
        kw["initial_guess"] = (guess_e, axis * 2)
    else:
        kw["initial_guess"] = (guess_e, axis * 2, q)
    random_start = gen.chance(rng, 0.2)
    if random_start:
        kw["initial_guess"] = None
        if kind != "ferro" and gen.chance(rng, 0.5):
            kw["initial_guess"] = (None, axis) if kind == "antiferro" else (None, axis, None)
    c.op(kind, "spins", n, "limit", limit, "field", field is not None, "random", random_start, "tolerance", tolerance)
    c.op("guess", e.tolist(), axis.tolist(), q.tolist())
    if gen.chance(rng, 0.2):
        settings(c, E)
    with contextlib.redirect_stdout(io.StringIO()) as out:
        result = run(c, E, kw)
    if printed:
        c.check(not os.path.exists(path), "file of the history")
        c.ev("printed history")
        text = out.getvalue()
    else:
        text = open(path).read()
    c.check(
        isinstance(result, tuple) and len(result) == (1 if kind == "ferro" else 3),
        f"{kind} returned {type(result)} of length {len(result)}",
    )
    spins = np.array(result[0])
    c.check(spins.shape == (n, 3), f"shape of the spins is {spins.shape}")
    c.close(np.linalg.norm(spins, axis=1), np.ones(n), "length of the spins", atol=1e-6)
    axis_r = q_r = None
    if kind != "ferro":
        axis_r, q_r = np.array(result[1]), np.array(result[2])
        c.close(np.linalg.norm(axis_r), 1.0, "length of the cone axis", atol=1e-6)
    if kind == "antiferro":
        c.close(q_r, q, "spiral vector of the antiferro case is fixed", atol=1e-12)
    scale = lat.scale + (
        0
        if field is None
        else 0.06 * np.linalg.norm(field) * sum(abs(lat.g[a]) * lat.spins[a] for a in lat.magnetic)
    )
    e_end = energy(spins, axis_r, q_r)
    if not random_start:
        e_start = energy(e, axis, q)
        c.check(
            e_end <= e_start + 1e-9 * scale,
            f"energy has grown in the {kind} case: {e_start} -> {e_end}",
        )
    # Recorded trace
    lines = text.split("\n")
    c.check(lines[0].split()[0] == "Energy", f"header of the history: {lines[0]}")
    rows = [[float(x) for x in line.split()] for line in lines[1:] if line.strip()]
    width = 1 + (1 if kind == "ferro" else 2) + 3 * n + (0 if kind == "ferro" else 6)
    c.check(
        all(len(r) == width for r in rows) and len(lines[0].split()) == width,
        f"width of the history is {[len(r) for r in rows][:3]} instead of {width}",
    )
    c.check(len(rows) >= 1, "history is empty")
    k = 2 if kind == "ferro" else 3
    prev = None
    # Arrangements are written with eight digits; derivative of the energy with respect
    # to the spiral vector is proportional to the length of the bonds
    longest = max([float(np.linalg.norm(np.array(b[2]) @ snap["cell"])) for b in lat.K] + [1.0])
    precision = 3e-7 * scale * (1 + longest)
    for i, r in enumerate(rows):
        ee = np.array(r[k : k + 3 * n]).reshape(n, 3)
        c.close(np.linalg.norm(ee, axis=1), np.ones(n), "spins in the history", atol=1e-6)
        ax = qq = None
        if kind != "ferro":
            ax, qq = np.array(r[k + 3 * n : k + 3 * n + 3]), np.array(r[-3:])
            ax = ax / np.linalg.norm(ax)
            if kind == "antiferro":
                qq = q
        if i < 3 or i >= len(rows) - 2 or i % 10 == 0:
            c.close(
                r[0],
                energy(ee, ax, qq),
                f"line {i} of the history: energy of the recorded arrangement",
                rtol=0,
                atol=precision,
            )
        if prev is not None:
            c.check(
                r[0] <= prev + 2e-8 * max(abs(prev), abs(r[0])) + 1e-12,
                f"line {i} of the history: energy has grown from {prev} to {r[0]}",
            )
        if i > 0 and (i < 3 or i >= len(rows) - 2):
            t = torque(energy, ee / np.linalg.norm(ee, axis=1)[:, None], ax, qq)
            want = [float(np.max(t[:n]))] + ([] if kind == "ferro" else [float(t[-1])])
            c.close(
                r[1:k],
                want,
                f"line {i} of the history: torques of the recorded arrangement",
                rtol=1e-4,
                atol=1e-5 * scale * (1 + longest),
            )
            c.ev("torques in history")
        prev = r[0]
        c.ev("history lines")
    if not random_start:
        c.close(rows[0][0], e_start, "first line of the history", rtol=0, atol=precision)
    c.close(rows[-1][0], e_end, "last line of the history", rtol=0, atol=precision)
    c.check(len(rows) <= limit + 1, f"{len(rows) - 1} iterations with the limit {limit}")
    iterations = len(rows) - 1
    if iterations < limit:
        t = torque(energy, spins, axis_r, q_r)
        limits = np.array([tolerance[1]] * n + ([] if kind == "ferro" else [tolerance[2]]))
        c.check(
            np.all(t <= 1.01 * limits + 1e-6 * scale),
            f"{kind} converged to a point with the torque {t.tolist()}, tolerance {tolerance}",
        )
        if "tolerance" in kw:
            c.ev("converged with given tolerance")
        if iterations > 0:
            c.check(
                abs(rows[-2][0] - rows[-1][0]) <= tolerance[0] + 2e-8 * abs(rows[-1][0]),
                f"last change of energy is {rows[-2][0] - rows[-1][0]}, tolerance {tolerance}",
            )
        c.ev("converged " + kind)
    else:
        c.ev("stopped by the limit of iterations")
    c.state((kind, n, iterations, field is not None))
