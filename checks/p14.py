"""Round trip through .hdf5 files is exact."""

import os

import numpy as np

from vlib import files, gen, history, oracle

PROP = "P14"
QUICK, THOROUGH = 1600, 30000
RULE = (
    "Hamiltonians (random ones and results of random histories, up to 40 atoms and "
    "hundreds of parameters, with partially defined notation and without parameters) are "
    "saved to a real file and loaded back; full snapshots are compared bit for bit, then "
    "the same operations are applied to both.  Distinct = distinct (numbers of atoms and "
    "parameters, notation, present parts)."
)
EXPECT = {
    "round trips": 1200,
    "ten or more atoms": 100,
    "ten or more bonds": 400,
    "after a history": 200,
    "partial notation": 60,
    "no parameters": 25,
    "continued": 200,
}
ASSUMPTIONS = ["names of atoms are unique and do not contain two underscores"]

WEIGHTS = dict(
    change_notation=5, add_bond=4, remove_bond=1.5, add_site=2, remove_site=0.7,
    remove_atom=0.8, add_atom=0.8, copy=0.2,
)


def hamiltonian(c):
    """(Hamiltonian, kind)"""
    from magnopy import SpinHamiltonian

    rng = c.rng
    r = rng.random()
    if r < 0.3:
        x = history.History(c)
        for _ in range(int(rng.integers(1, 15))):
            x.step(WEIGHTS)
        return x.h, "after a history"
    if r < 0.38:
        # Only a part of the notation is needed for the parameters that are present
        s = gen.spec(rng, symmetric_onsite=gen.chance(rng, 0.8))
        if gen.chance(rng, 0.5):
            s.bonds = {}
        else:
            s.onsite = {}
        h = gen.build(rng, s, c, with_notation=False)
        h.spin_normalized = s.notation[1]
        if s.bonds:
            h.double_counting = s.notation[0]
            h.exchange_factor = s.notation[2]
        else:
            h.on_site_factor = s.notation[3]
        return h, "partial notation"
    if r < 0.42:
        s = gen.spec(rng, n_bonds=0, p_onsite=0)
        h = gen.build(rng, s, c, with_notation=gen.chance(rng, 0.5))
        return h, "no parameters"
    if r < 0.6:
        n = int(rng.integers(9, 40)) if gen.chance(rng, 0.7) else int(rng.integers(1, 5))
        s = gen.spec(rng, n_atoms=n, n_bonds=int(rng.integers(0, 130)))
    else:
        s = gen.spec(rng, symmetric_onsite=gen.chance(rng, 0.8))
    if gen.chance(rng, 0.05):
        # Far values
        x = 10.0 ** rng.uniform(-12, 9)
        s.bonds = {b: J * x for b, J in s.bonds.items()}
    return gen.build(rng, s, c), "random"


def case(c):
    from magnopy import dump_spinham_hdf5, load_spinham_hdf5

    rng = c.rng
    h, kind = hamiltonian(c)
    before = oracle.snapshot(h)
    c.op(kind, len(before["atoms"]), len(before["exchange"]), before["notation"])
    path = os.path.join(c.tmp(), gen.pick(rng, ("a.hdf5", "model", "x y.h5", "é.hdf5")))
    group = gen.pick(rng, ("spinham", "a/b/c", "Group 1", "1"))
    how = rng.random()
    if how < 0.3:
        dump_spinham_hdf5(h, path)
        group = "spinham"
    elif how < 0.6:
        dump_spinham_hdf5(h, path, group)
    else:
        dump_spinham_hdf5(h, filename=path, groupname=group, overwrite=gen.chance(rng, 0.5))
    d = oracle.difference(before, oracle.snapshot(h))
    c.check(d is None, f"saving changed the Hamiltonian: {d}")
    data = files.read(path)
    if gen.chance(rng, 0.5):
        g = load_spinham_hdf5(path, group)
    else:
        g = load_spinham_hdf5(path)
    c.check(files.read(path) == data, "loading changed the file")
    after = oracle.snapshot(g)
    # Axis is normalized once more: one unit in the last place
    if before["cone_axis"] is not None and after["cone_axis"] is not None:
        c.close(after["cone_axis"], before["cone_axis"], "cone axis", rtol=0, atol=4e-16)
        after["cone_axis"] = before["cone_axis"]
    d = files.difference(before, after)
    c.check(d is None, f"loaded Hamiltonian is different: {d}")
    have = {x for b in before["exchange"] for x in (b[0], b[2])}
    have |= {a for a, _ in before["on_site"]}
    c.check(
        [a.name for a in g.magnetic_atoms] == [a[0] for a in before["atoms"] if a[0] in have],
        "order of magnetic atoms is changed",
    )
    c.ev("round trips")
    c.ev(kind)
    if len(before["atoms"]) >= 10:
        c.ev("ten or more atoms")
    if len(before["exchange"]) >= 10:
        c.ev("ten or more bonds")
    c.state((
        len(before["atoms"]), len(before["exchange"]), len(before["on_site"]), before["notation"],
        before["spiral_vector"] is None, before["cone_axis"] is None,
    ))

    # Life goes on
    if None not in files.by_name(before)["notation"] and gen.chance(rng, 0.4):
        new = gen.notation(rng)
        h.notation = new
        g.notation = new
        names = [a.name for a in h.magnetic_atoms]
        a, b = gen.pick(rng, names), gen.pick(rng, names)
        r = gen.ijk(rng)
        stored = {(x.name, y.name, tuple(int(i) for i in t)) for x, y, t, _ in h.exchange}
        if (a, b, r) in stored or ((a, b, r) != (b, a, (0, 0, 0)) and gen.mirror((a, b, r)) not in stored):
            J = gen.matrix(rng)
            h.add_exchange(a, b, r, matrix=J)
            g.add_exchange(a, b, r, matrix=J)
        if len(names) > 1 and gen.chance(rng, 0.3):
            h.remove_atom(a)
            g.remove_atom(a)
        d = files.difference(
            files.undirected(oracle.snapshot(h)),
            files.undirected(oracle.snapshot(g)),
            rtol=1e-13,
            atol=1e-15,
        )
        c.check(d is None, f"loaded Hamiltonian behaves differently: {d}")
        # Once more, over the previous one
        dump_spinham_hdf5(g, path, group, overwrite=True)
        d = files.difference(
            oracle.snapshot(g), oracle.snapshot(load_spinham_hdf5(path, group)), atol=1e-15
        )
        c.check(d is None, f"second round trip: {d}")
        c.ev("continued")
