"""Output files of TB2J are loaded without loss."""

import contextlib
import io
import os

import numpy as np

from vlib import files, gen, oracle, tb2j

PROP = "P19"
QUICK, THOROUGH = 2500, 60000
RULE = (
    "Random files in the format of TB2J (numbers of atoms, columns and bonds, presence and "
    "order of parts, scientific notation, additional lines) from an independent writer are "
    "loaded; everything observable is compared with the numbers known to the writer, then the "
    "notation is changed and the couplings are compared.  Distinct = distinct (numbers of "
    "atoms and bonds, columns, present parts)."
)
EXPECT = {
    "files": 2400,
    "bonds": 10000,
    "with DMI": 800,
    "with anisotropy": 800,
    "without moments": 200,
    "non-magnetic atoms": 500,
    "notation changed": 400,
    "not quiet": 800,
    "type of the lattice": 30,
    "type of the lattice refused": 20,
    "warned about the distance": 100,
}
ASSUMPTIONS = ["every bond is listed in both directions with consistent parameters, as TB2J does"]


def compare(c, h, m):
    """Loaded Hamiltonian against the model."""
    exp = tb2j.snapshot(m)
    c.close(np.array(h.cell), exp["cell"], "cell", rtol=1e-12)
    atoms = list(h.atoms)
    c.check([a.name for a in atoms] == [a[0] for a in exp["atoms"]], f"atoms {[a.name for a in atoms]}")
    for a, (name, index, pos, mom, _, charge) in zip(atoms, exp["atoms"]):
        c.close(np.array(a.position), pos, f"position of {name}", rtol=1e-9, atol=1e-12)
        c.check(a.index == index, f"index of {name} is {a.index}")
        if charge is not None:
            c.close(float(a.charge), charge, f"charge of {name}", rtol=1e-12, atol=1e-14)
        if mom is not None:
            c.close(np.array(a.magmom), mom, f"moment of {name}", rtol=1e-12, atol=1e-14)
    c.check(tuple(h.notation) == exp["notation"], f"notation {h.notation}")
    got = {}
    for a, b, r, J in h.exchange:
        k = (a.name, b.name, tuple(int(x) for x in r))
        c.check(k not in got, f"bond {k} twice")
        got[k] = np.array(J.matrix)
    c.check(set(got) == set(exp["exchange"]), f"bonds {sorted(set(got) ^ set(exp['exchange']))[:4]}")
    for k, J in exp["exchange"].items():
        c.close(got[k], J, f"parameter of {k}", rtol=1e-9, atol=1e-12)
        c.ev("bonds")
    c.check(len(list(h.on_site)) == 0, "on-site parameters appeared")
    c.check(h.spiral_vector is None and h.cone_axis is None, "ground state appeared")
    mag = {x for b in got for x in b[:2]}
    c.check([a.name for a in h.magnetic_atoms] == [a[0] for a in exp["atoms"] if a[0] in mag], "magnetic atoms")


def lattice_type(c, path, h, m):
    """Expected type of the lattice is either obtained or refused."""
    from magnopy import load_tb2j

    rng = c.rng
    try:
        own = h.type()
    except Exception:
        return  # limitation of wulfric
    asked = own if gen.chance(rng, 0.5) else gen.pick(rng, ("CUB", "TET", "HEX", "TRI", "FCC", "unknown"))
    c.op("bravais_type", asked, "detected", own)
    try:
        g = load_tb2j(path, bravais_type=asked, quiet=gen.chance(rng, 0.5))
    except ValueError:
        c.check(asked != own, f"type {asked} of the lattice is refused")
        c.ev("type of the lattice refused")
        return
    c.check(g.type() == asked, f"type of the lattice is {g.type()} instead of {asked}")
    compare(c, g, m)
    c.ev("type of the lattice")


def case(c):
    from magnopy import load_tb2j

    rng = c.rng
    m = tb2j.model(rng)
    if gen.chance(rng, 0.2):
        m["wrong"] = {gen.pick(rng, m["bonds"])[0] for _ in range(int(rng.integers(1, 3)))}
    text = tb2j.render(rng, m)
    for x in text.splitlines():
        c.op(x)
    folder = c.tmp()
    name = gen.pick(rng, ("exchange.out", "a b.out", "TB2J_results", "é.txt"))
    path = os.path.join(folder, name)
    with open(path, "w", encoding="utf-8") as f:
        f.write(text)
    data = files.listing(folder)
    quiet = gen.chance(rng, 0.5)
    with contextlib.redirect_stdout(io.StringIO()) as out:
        if quiet:
            h = load_tb2j(path, **({} if gen.chance(rng, 0.5) else {"quiet": True}))
        else:
            h = load_tb2j(path, quiet=False)
            c.ev("not quiet")
    warned = "distance" in out.getvalue().lower()
    if quiet:
        c.check(not out.getvalue(), f"quiet loading has printed {out.getvalue()[:100]}")
    else:
        c.check(warned == bool(m.get("wrong")), f"warning about {m.get('wrong')}: {out.getvalue()[:100]}")
        if warned:
            c.ev("warned about the distance")
    compare(c, h, m)
    if gen.chance(rng, 0.05):
        lattice_type(c, path, h, m)
    c.check(files.listing(folder) == data, "loading changed the files")
    c.ev("files")
    if m["aniso"]:
        c.ev("with anisotropy")
    if m["dmi"]:
        c.ev("with DMI")
    if m["columns"] < 8:
        c.ev("without moments")
    if len({a for b, *_ in m["bonds"] for a in b[:2]}) < len(m["atoms"]):
        c.ev("non-magnetic atoms")
    if m["columns"] == 8 and gen.chance(rng, 0.3):
        before = oracle.couplings(oracle.snapshot(h))
        h.notation = gen.notation(rng)
        d = oracle.couplings_differ(before, oracle.couplings(oracle.snapshot(h)))
        c.check(d is None, f"couplings after the change of notation: {d}")
        c.ev("notation changed")
    c.state((len(m["atoms"]), len(m["bonds"]), m["columns"], m["aniso"], m["dmi"], m["sci"], m["digits"]))
