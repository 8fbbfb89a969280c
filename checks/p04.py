"""Copies, filtered Hamiltonians and crystals are independent; filters keep what they say."""

import numpy as np

from vlib import gen, oracle

PROP = "P04"
QUICK, THOROUGH = 36000, 60000
RULE = (
    "Every source of a second object (copy, filtered, crystal, construction from a "
    "crystal) is followed by random mutations of one side; full snapshots of the other "
    "side before and after are compared.  Filters are compared with the set of parameters "
    "selected by an independent evaluation of distances.  Distinct = distinct (source, "
    "mutations, result of the filter)."
)
EXPECT = {
    "limit close to a distance": 300,
    "mutations of a copy": 1000,
    "mutations of the original": 1000,
    "filters judged": 2000,
    "crystals judged": 500,
    "bonds kept": 500,
    "bonds removed": 500,
    "bonds exactly at the limit": 300,
}
ASSUMPTIONS = ["with double counting two mirrored bonds are kept together"]


def mutate(c, h, n):
    """Random changes through the public interface (also of the atoms and arrays)."""
    from magnopy import MatrixParameter

    rng = c.rng
    done = []
    for _ in range(n):
        r = int(rng.integers(13))
        atoms = list(h.atoms)
        bonds = [(a, b, q) for a, b, q, _ in h.exchange]
        sites = [a for a, _ in h.on_site]
        if r == 0 and atoms:
            gen.pick(rng, atoms).spin = gen.unit(rng) * 1.25
        elif r == 1 and atoms:
            gen.pick(rng, atoms).position = rng.uniform(0, 1, 3)
        elif r == 2 and atoms:
            gen.pick(rng, atoms).position += 0.125
        elif r == 3 and atoms:
            a = gen.pick(rng, atoms)
            a.g_factor = float(rng.normal())
            a.charge = float(rng.normal())
        elif r == 4 and bonds:
            h.remove_exchange(*gen.pick(rng, bonds))
        elif r == 5 and bonds:
            h.add_exchange(*gen.pick(rng, bonds), MatrixParameter(gen.matrix(rng)))
        elif r == 6 and sites:
            h[gen.pick(rng, sites)] = MatrixParameter(gen.matrix(rng))
        elif r == 7 and sites:
            h.remove_on_site(gen.pick(rng, sites))
        elif r == 8 and atoms:
            h.remove_atom(gen.pick(rng, atoms))
        elif r == 9:
            h.add_atom("Zz", position=(0.3, 0.2, 0.1), spin=1.0, index=int(rng.integers(100, 10**9)))
        elif r == 10:
            if all(np.linalg.norm(a.spin_vector) > 0 for a in h.magnetic_atoms):
                h.notation = gen.notation(rng)
        elif r == 11:
            h.cone_axis = gen.unit(rng)
            h.spiral_vector = rng.uniform(-1, 1, 3)
        elif r == 12:
            # Values inside of the objects that the Hamiltonian gives out
            k = rng.random()
            if k < 0.3 and bonds:
                h[gen.pick(rng, bonds)].matrix = gen.matrix(rng)
            elif k < 0.5 and sites:
                h[gen.pick(rng, sites)].iso = 3.25
            elif k < 0.7 and h.spiral_vector is not None:
                h.spiral_vector[0] += 0.5
            elif k < 0.8 and h.cone_axis is not None:
                h.cone_axis[:] = h.cone_axis[::-1].copy()
            elif bonds:
                h[gen.pick(rng, bonds)].matrix[1, 2] += 1.0
        else:
            continue
        done.append(r)
    return done


def isolation(c):
    from magnopy import SpinHamiltonian

    rng = c.rng
    s = gen.spec(rng, extreme=0.03)
    with_notation = gen.chance(rng, 0.7)
    h = gen.build(rng, s, c, with_notation=with_notation)
    before = oracle.snapshot(h)
    r = rng.random()
    if r < 0.6:
        other = h.copy()
        kind = "copy"
    elif r < 0.75:
        other = h.filtered()
        kind = "filtered"
    else:
        kind = "crystal"
        crystal = h.crystal
        c.check(
            np.array_equal(crystal.cell, before["cell"]), "cell of the crystal differs"
        )
        got = [
            (
                a.name,
                a.index,
                np.array(a.position),
                np.array(a.spin_vector),
                float(a.g_factor),
                oracle.charge(a),
            )
            for a in crystal.atoms
        ]
        fake = dict(before, atoms=got)
        d = oracle.difference(before, fake)
        c.check(d is None, f"crystal of the Hamiltonian differs from it: {d}")
        for a in list(crystal.atoms):
            a.spin = gen.unit(rng) * 7.5
            a.position += 0.25
            a.g_factor = 11.0
        crystal.add_atom("Zz", position=(0, 0, 0))
        if gen.chance(rng, 0.5):
            crystal.remove_atom(crystal.atoms[0])
        d = oracle.difference(before, oracle.snapshot(h))
        c.check(d is None, f"change of the crystal changed the Hamiltonian: {d}")
        # The other way round
        crystal = h.crystal
        n = len(crystal.atoms)
        first = [(a.name, a.index, np.array(a.spin_vector)) for a in crystal.atoms]
        mutate(c, h, 6)
        c.check(
            len(crystal.atoms) == n
            and all(
                a.name == f[0] and a.index == f[1] and np.array_equal(a.spin_vector, f[2])
                for a, f in zip(crystal.atoms, first)
            ),
            "change of the Hamiltonian changed the crystal that was taken from it",
        )
        # A Hamiltonian made on the crystal has the same atoms and no parameters
        h2 = SpinHamiltonian(crystal=h.crystal)
        c.check(
            len(h2.exchange) == 0
            and len(h2.on_site) == 0
            and [(a.name, a.index) for a in h2.atoms]
            == [(a.name, a.index) for a in h.atoms],
            "Hamiltonian made from the crystal",
        )
        c.ev("crystals judged")
        c.state(("crystal", len(first)))
        return
    d = oracle.difference(before, oracle.snapshot(other))
    c.check(d is None, f"{kind} is not equal to the original: {d}")
    if gen.chance(rng, 0.5):
        done = mutate(c, other, int(rng.integers(1, 10)))
        c.op("mutations of", kind, done)
        d = oracle.difference(before, oracle.snapshot(h))
        c.check(d is None, f"mutation of the {kind} changed the original: {d}")
        c.ev("mutations of a copy", len(done))
    else:
        done = mutate(c, h, int(rng.integers(1, 10)))
        c.op("mutations of the original,", kind, done)
        d = oracle.difference(before, oracle.snapshot(other))
        c.check(d is None, f"mutation of the original changed the {kind}: {d}")
        c.ev("mutations of the original", len(done))
    c.state((kind, done, before["notation"], len(before["exchange"])))


def filters(c):
    rng = c.rng
    s = gen.spec(rng, n_bonds=int(rng.integers(2, 16)), p_onsite=0.7)
    exact = gen.chance(rng, 0.5)
    if exact:
        # All distances are exact in floating point numbers
        s.cell = np.diag([3.0, 4.0, 12.0])
        for i, a in enumerate(s.atoms):
            a["position"] = np.zeros(3)
    with_notation = gen.chance(rng, 0.8)
    h = gen.build(rng, s, c, with_notation=with_notation)
    snap = oracle.snapshot(h)
    pos = {a[:2]: a[2] for a in snap["atoms"]}
    dist = {}
    for k in snap["exchange"]:
        v = pos[k[2:4]] - pos[k[0:2]] + np.array(k[4])
        dist[k] = float(np.linalg.norm(v @ snap["cell"]))
    values = sorted(dist.values())

    def limit():
        if values and gen.chance(rng, 0.85):
            d = gen.pick(rng, values)
            if exact and np.isclose(d, round(d), rtol=0, atol=1e-9):
                c.ev("bonds exactly at the limit")
                return float(round(d))
            if gen.chance(rng, 0.25):
                # Just above or below
                c.ev("limit close to a distance")
                return d + float(gen.pick(rng, (-1, 1)) * 10.0 ** rng.uniform(-6.5, -3))
            # A limit between two different distances
            above = [x for x in values if x > d + 1e-6]
            if above:
                return (d + above[0]) / 2
            return d + 1.0
        return float(rng.uniform(0.001, 30))

    kw = {}
    if gen.chance(rng, 0.5):
        kw["max_distance"] = limit()
    if gen.chance(rng, 0.4):
        kw["min_distance"] = limit() if gen.chance(rng, 0.8) else gen.pick(rng, (0, 0.0, -1.5))
    if gen.chance(rng, 0.5):
        mode = int(rng.integers(5))
        x = float(rng.normal() * 0.5)
        if mode == 0:
            kw["custom_filter"] = lambda p: abs(p.iso) >= abs(x)
        elif mode == 3:
            kw["custom_filter"] = lambda p: int(p.xx >= x)
        elif mode == 4:
            kw["custom_filter"] = lambda p: [p] if p.zz >= x else None
        elif mode == 1:
            # Not symmetric with respect to the transposition
            kw["custom_filter"] = lambda p: p.matrix[0][1] >= x
        else:
            kw["custom_filter"] = lambda p: p.dmi_module > abs(x)
    tol = 1e-9
    # A distance that is too close to the limit (and not exact) is not judged
    for d in dist.values():
        for lim in ("max_distance", "min_distance"):
            if lim in kw and abs(d - kw[lim]) < 1e-7 and not (
                exact and d == kw[lim] == round(d)
            ):
                if abs(d - kw[lim]) != 0 or not exact:
                    return
    c.op("filter", {k: v for k, v in kw.items() if k != "custom_filter"}, "custom" if "custom_filter" in kw else "")

    from magnopy import MatrixParameter

    f = kw.get("custom_filter")

    def keep_bond(k):
        if "max_distance" in kw and dist[k] > kw["max_distance"]:
            return False
        if "min_distance" in kw and dist[k] < kw["min_distance"]:
            return False
        return f is None or bool(f(MatrixParameter(snap["exchange"][k])))

    def keep_site(k):
        if "min_distance" in kw and kw["min_distance"] > 0:
            return False
        return f is None or bool(f(MatrixParameter(snap["on_site"][k])))

    dc = snap["notation"][0]
    expect = set()
    for k in snap["exchange"]:
        m = (k[2], k[3], k[0], k[1], tuple(-x for x in k[4]))
        if keep_bond(k) and (not dc or keep_bond(m)):
            expect.add(k)
    want = dict(
        snap,
        exchange={k: snap["exchange"][k] for k in expect},
        on_site={k: v for k, v in snap["on_site"].items() if keep_site(k)},
    )
    result = h.filtered(**kw)
    d = oracle.difference(want, oracle.snapshot(result))
    c.check(d is None, f"filtered Hamiltonian is not what was asked for: {d}")
    d = oracle.difference(snap, oracle.snapshot(h))
    c.check(d is None, f"filtered() changed the Hamiltonian: {d}")
    r = h.filter(**kw)
    d = oracle.difference(want, oracle.snapshot(h))
    c.check(d is None, f"filter() did not keep what was asked for: {d}")
    c.ev("filters judged")
    c.ev("bonds kept", len(expect))
    c.ev("bonds removed", len(snap["exchange"]) - len(expect))
    c.state((sorted(kw), dc, sorted(map(str, expect)), len(want["on_site"])))


def case(c):
    if gen.chance(c.rng, 0.55):
        isolation(c)
    else:
        filters(c)
