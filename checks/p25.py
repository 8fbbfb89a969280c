"""Files in the documented binary format are read as the documentation says."""

import os

import h5py
import numpy as np

from checks import p17
from vlib import files, gen, oracle, txtmodel

PROP = "P25"
QUICK, THOROUGH = 6000, 40000
RULE = (
    "Random .hdf5 files are written with the file library directly after the documented "
    "structure (units, types of numbers and strings, order of creation, foreign content) and "
    "loaded; the Hamiltonian is compared with the meaning known to the writer.  The same files "
    "with one documented rule broken have to be refused.  Distinct = distinct (units, set of "
    "groups, rule)."
)
EXPECT = {
    "files": 1800,
    "Bohr": 400,
    "absolute spiral vector": 200,
    "relative cone axis": 200,
    "more than nine atoms": 30,
    "more than nine bonds": 100,
    "second direction omitted": 200,
    "foreign content": 300,
    "refused": 500,
}
ASSUMPTIONS = [
    "absolute spiral vectors are judged for right-handed cells",
    "every atom has its name, position, spin and g-factor",
]
UNITS = {
    "milli-electron-volt": 1.0,
    "electron-volt": 1e3,
    "joule": 1.0 / oracle.MEV,
    "kelvin": oracle.KB / oracle.MEV,
    "rydberg": oracle.RYDBERG / oracle.MEV,
}
SHOWN = ("milli-electron-Volt", "electron-Volt", "Joule", "Kelvin", "Rydberg")


def text(rng, x):
    return x if gen.chance(rng, 0.6) else np.bytes_(x.encode())


def write_numbers(rng, group, name, x):
    """Value that is really written."""
    x = np.asarray(x, dtype=float)
    r = rng.random()
    if r < 0.7:
        group.create_dataset(name, data=x)
    elif r < 0.9:
        group.create_dataset(name, data=x, dtype=">f8")
    else:
        group[name] = x if x.ndim == 0 else x.tolist()
    return x


def content(c, root):
    """Write random Hamiltonian to the group -> expected snapshot."""
    rng = c.rng
    s = gen.spec(
        rng,
        n_atoms=int(gen.pick(rng, (1, 2, 2, 3, 4, 11))),
        n_bonds=int(gen.pick(rng, (0, 1, 3, 6, 12, 14))),
        symmetric_onsite=gen.chance(rng, 0.8),
    )
    exp = {}
    root.attrs["type"] = txtmodel.case_of(rng, "SpinHamiltonian") if gen.chance(rng, 0.2) else "SpinHamiltonian"
    todo = ["cell", "atoms", "notation", "exchange", "on-site", "spiral-vector", "cone-axis"]
    index = {a["name"]: i + 1 for i, a in enumerate(s.atoms)}
    bohr = gen.chance(rng, 0.4)
    u = oracle.BOHR if bohr else 1.0
    scale = {part: gen.pick(rng, SHOWN) for part in ("exchange", "on-site")}
    given = {
        "exchange": bool(s.bonds) or gen.chance(rng, 0.1),
        "on-site": bool(s.onsite) or gen.chance(rng, 0.1),
    }
    q = n = None
    if gen.chance(rng, 0.6):
        q = rng.uniform(-1, 1, 3)
    if gen.chance(rng, 0.6):
        n = gen.unit(rng) * float(rng.uniform(0.2, 5))
    exp["cone_axis"] = exp["spiral_vector"] = None
    exp["exchange"], exp["on_site"] = {}, {}
    exp["atoms"] = [None] * len(s.atoms)
    exp["notation"] = (None,) * 4
    dc, sn, ef, of = s.notation
    info = {"given": [k for k in given if given[k]], "atoms": len(s.atoms), "bonds": len(s.bonds)}
    rng.shuffle(todo)
    todo = [str(x) for x in todo]
    # The meaning of the axes depends on the cell
    todo.sort(key=lambda x: x in ("spiral-vector", "cone-axis"))
    for part in todo:
        if part == "cell":
            g = root.create_group("cell")
            g.attrs["units"] = txtmodel.case_of(rng, "Bohr" if bohr else "Angstrom")
            exp["cell"] = np.array([write_numbers(rng, g, f"a{i + 1}", s.cell[i]) for i in range(3)]) * u
            if bohr:
                c.ev("Bohr")
        elif part == "atoms":
            g = root.create_group("atoms")
            order = list(range(len(s.atoms)))
            rng.shuffle(order)
            for i in order:
                a = s.atoms[i]
                x = g.create_group(str(i + 1))
                x["name"] = text(rng, a["name"])
                rel = write_numbers(rng, x, "position", a["position"])
                spin = write_numbers(rng, x, "spin", a["spin"])
                gf = float(write_numbers(rng, x, "g-factor", a["g"]))
                charge = a["charge"]
                if charge is not None:
                    charge = float(write_numbers(rng, x, "charge", charge))
                if gen.chance(rng, 0.1):
                    x["orbital-moment"] = rng.normal(size=3)
                if gen.chance(rng, 0.1):
                    x["total-moment"] = rng.normal(size=3)
                exp["atoms"][i] = (a["name"], i + 1, rel, spin, gf, charge)
            if len(s.atoms) > 9:
                c.ev("more than nine atoms")
        elif part == "notation":
            if not any(given.values()):
                continue
            g = root.create_group("notation")
            value = {"s": sn}
            for k, name, flag in (("s", "spin-normalized", sn), ("d", "double-counting", dc)):
                if k == "s" or given["exchange"] or gen.chance(rng, 0.3):
                    g[name] = gen.pick(rng, (int(flag), bool(flag), np.int8(flag), np.int64(flag)))
            for k, name, x, part2 in (
                ("e", "exchange-factor", ef, "exchange"),
                ("o", "on-site-factor", of, "on-site"),
            ):
                if given[part2] or gen.chance(rng, 0.3):
                    x = float(write_numbers(rng, g, name, x))
                    if given[part2]:
                        value[k] = x
            if given["exchange"]:
                value["d"] = dc
            exp["notation"] = tuple(value.get(k) for k in "dseo")
        elif part == "exchange":
            if not given["exchange"]:
                continue
            g = root.create_group("exchange")
            g.attrs["units"] = txtmodel.case_of(rng, scale["exchange"])
            f = UNITS[scale["exchange"].lower()]
            bonds = list(s.bonds.items())
            order = list(range(len(bonds)))
            rng.shuffle(order)
            for i in order:
                b, J = bonds[i]
                x = g.create_group(str(i + 1))
                x["atom-1"] = text(rng, b[0])
                x["atom-2"] = text(rng, b[1])
                x["ijk"] = gen.pick(rng, (list(b[2]), np.array(b[2], dtype="i4"), np.array(b[2], dtype="i8")))
                J = write_numbers(rng, x, "matrix", J / f) * f
                key = (b[0], index[b[0]], b[1], index[b[1]], b[2])
                exp["exchange"][key] = J
                if dc:
                    m = gen.mirror(b)
                    exp["exchange"][(m[0], index[m[0]], m[1], index[m[1]], m[2])] = J.T
                    c.ev("second direction omitted")
            if len(bonds) > 9:
                c.ev("more than nine bonds")
        elif part == "on-site":
            if not given["on-site"]:
                continue
            g = root.create_group("on-site")
            g.attrs["units"] = txtmodel.case_of(rng, scale["on-site"])
            f = UNITS[scale["on-site"].lower()]
            for i, (name, A) in enumerate(s.onsite.items()):
                x = g.create_group(str(i + 1))
                x["atom"] = text(rng, name)
                exp["on_site"][(name, index[name])] = write_numbers(rng, x, "matrix", A / f) * f
        elif part == "spiral-vector" and q is not None:
            v = write_numbers(rng, root, "spiral-vector", q)
            absolute = gen.chance(rng, 0.5) and np.linalg.det(exp["cell"]) > 0
            if absolute:
                # In the inverse units of the lattice vectors
                v = (v / u) @ exp["cell"].T / (2 * np.pi)
                c.ev("absolute spiral vector")
            root["spiral-vector"].attrs["units"] = txtmodel.case_of(rng, "Absolute" if absolute else "Relative")
            exp["spiral_vector"] = v
        elif part == "cone-axis" and n is not None:
            v = write_numbers(rng, root, "cone-axis", n)
            relative = gen.chance(rng, 0.5)
            if relative:
                v = v @ exp["cell"]
                c.ev("relative cone axis")
            root["cone-axis"].attrs["units"] = txtmodel.case_of(rng, "Relative" if relative else "Absolute")
            exp["cone_axis"] = v / np.linalg.norm(v)
    info["units"] = (bohr, scale)
    return exp, info


def foreign(c, f, name):
    """Content that does not belong to the Hamiltonian."""
    rng = c.rng
    top = name.split("/")[0]
    for x in ("data", "zz", "0"):
        if x == top or gen.chance(rng, 0.5):
            continue
        r = rng.random()
        if r < 0.3:
            f[x] = rng.normal(size=4)
            f[x].attrs["units"] = "Bohr"
        else:
            g = f.create_group(x)
            g["cell"] = rng.normal(size=(3, 3))
            k = gen.pick(rng, ("DFT", "Spin", "SpinHamiltonians", "", 5, 1.5, None, "bytes", "array"))
            if isinstance(k, str) and k == "bytes":
                k = np.bytes_(b"SpinModel")
            elif isinstance(k, str) and k == "array":
                k = np.arange(3)
            if k is not None:
                g.attrs["type"] = k
    c.ev("foreign content")


def break_rule(c, f, name, info):
    """Break one rule of the format -> expected errors."""
    rng = c.rng
    g = f[name]
    have = info["given"]
    rules = ["cell", "atoms", "cell units", "vector", "name"]
    if have:
        rules += ["notation", "spin-normalized", "units"] * 2
    if "exchange" in have:
        rules += ["double-counting", "exchange-factor"]
        if info["bonds"]:
            rules += ["unknown atom", "bond data"] * 2
    if "on-site" in have:
        rules.append("on-site-factor")
        if len(g["on-site"]):
            rules += ["unknown atom of on-site", "on-site data"]
    if "spiral-vector" in g:
        rules.append("spiral units")
    if "cone-axis" in g:
        rules.append("cone units")
    if info.get("search"):
        rules += ["type"] * 3
    rule = gen.pick(rng, rules)
    bad = gen.pick(rng, ("", "meter", "unknown", "nm", "x"))
    err = KeyError
    if rule in ("cell", "atoms", "notation"):
        del g[rule]
    elif rule == "type":
        # nothing to find
        err = RuntimeError
        if gen.chance(rng, 0.5):
            del g.attrs["type"]
        else:
            g.attrs["type"] = gen.pick(rng, ("spinham", "Spin Hamiltonian", "", 5))
    elif rule == "vector":
        del g["cell"][gen.pick(rng, ("a1", "a2", "a3"))]
    elif rule == "name":
        x = gen.pick(rng, sorted(g["atoms"]))
        del g["atoms"][x][gen.pick(rng, ("name", "position"))]
    elif rule in ("spin-normalized", "double-counting", "exchange-factor", "on-site-factor"):
        del g["notation"][rule]
    elif rule == "unknown atom":
        x = g["exchange"][gen.pick(rng, sorted(g["exchange"]))]
        k = gen.pick(rng, ("atom-1", "atom-2"))
        del x[k]
        x[k] = "Unknown"
        err = ValueError
    elif rule == "unknown atom of on-site":
        x = g["on-site"][gen.pick(rng, sorted(g["on-site"]))]
        del x["atom"]
        x["atom"] = "Unknown"
        err = ValueError
    elif rule == "bond data":
        x = g["exchange"][gen.pick(rng, sorted(g["exchange"]))]
        del x[gen.pick(rng, ("atom-1", "atom-2", "ijk", "matrix"))]
    elif rule == "on-site data":
        x = g["on-site"][gen.pick(rng, sorted(g["on-site"]))]
        del x[gen.pick(rng, ("atom", "matrix"))]
    else:
        err = ValueError
        where = {"cell units": "cell", "spiral units": "spiral-vector", "cone units": "cone-axis"}.get(rule)
        g[where or gen.pick(rng, have)].attrs["units"] = bad
    return rule, err


def case(c):
    from magnopy import io

    rng = c.rng
    folder = c.tmp()
    path = os.path.join(folder, gen.pick(rng, ("model.hdf5", "a b.hdf5", "m", "x.h5")))
    name = gen.pick(rng, ("spinham", "a/b", "1", "model 2", "a/b/c"))
    broken = None
    kw = {"groupname": name} if gen.chance(rng, 0.4) else {}
    with h5py.File(path, "w") as f:
        exp, info = content(c, f.create_group(name))
        if gen.chance(rng, 0.5):
            foreign(c, f, name)
        if gen.chance(rng, 0.3):
            broken = break_rule(c, f, name, {**info, "search": not kw})
            c.ev("broken rule: " + broken[0])
    data = files.read(path)
    c.op(name, str(info), broken and broken[0], kw)

    def load():
        return io.load_spinham_hdf5(path, **kw)

    if broken is None:
        h = load()
        p17.compare(c, oracle.snapshot(h), exp)
        c.ev("files")
    else:
        c.raises(broken[1], load, f"file with the broken rule '{broken[0]}'")
        c.ev("refused")
    c.check(files.read(path) == data, "loading changed the file")
    c.check(os.listdir(folder) == [os.path.basename(path)], "loading created files")
    c.state((info["given"], str(info["units"]), broken and broken[0]))
