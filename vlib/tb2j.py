"""Independent writer of output files of TB2J."""

import numpy as np

from vlib import gen

ELEMENTS = ("Cr", "Fe", "Ni", "Br", "I", "O", "C", "Mn", "S", "H")


def model(rng, moments=None):
    """Plain description; all numbers are exactly the ones that are printed."""
    m = {"digits": int(gen.pick(rng, (3, 4, 6))), "sci": gen.chance(rng, 0.2)}
    m["cell"] = np.round(gen.cell(rng), m["digits"])
    n_mag = int(gen.pick(rng, (1, 1, 2, 2, 3, 4, 11)))
    n_other = int(gen.pick(rng, (0, 0, 1, 2, 5)))
    counters = {}
    few = [gen.pick(rng, ELEMENTS) for _ in range(2)]
    names = []
    for _ in range(n_mag + n_other):
        e = gen.pick(rng, few) if gen.chance(rng, 0.7) else gen.pick(rng, ELEMENTS)
        counters[e] = counters.get(e, 0) + 1
        names.append(f"{e}{counters[e]}")
    columns = moments or gen.pick(rng, (8, 8, 8, 8, 8, 5, 4))
    m["columns"] = columns
    m["atoms"] = []
    for x in names:
        mom = np.round(gen.unit(rng) * rng.uniform(0.2, 5), 4)
        if not np.any(mom):
            mom[2] = 1.0
        m["atoms"].append(
            dict(
                name=x,
                position=np.round(rng.uniform(-1, 2, 3) @ m["cell"], 4),
                charge=float(np.round(rng.uniform(-3, 9), 4)) if columns >= 5 else None,
                moment=mom if columns >= 8 else None,
            )
        )
    mag = list(names)
    rng.shuffle(mag)
    mag = [str(x) for x in mag[:n_mag]]
    for a in m["atoms"]:
        if a["name"] not in mag and a["moment"] is not None and gen.chance(rng, 0.3):
            a["moment"] = np.zeros(3)
    m["aniso"], m["dmi"] = gen.chance(rng, 0.6), gen.chance(rng, 0.6)
    mixed = gen.chance(rng, 0.3)  # the parts are present only in some of the bonds
    bonds = {}
    for _ in range(int(rng.integers(1, 4 * n_mag + 2))):
        b = (gen.pick(rng, mag), gen.pick(rng, mag), gen.ijk(rng))
        if (b[0] == b[1] and b[2] == (0, 0, 0)) or b in bonds or gen.mirror(b) in bonds:
            continue
        d = m["digits"]
        iso = float(np.round(rng.normal() * 10 ** rng.uniform(-2, 1), d))
        ani = np.round(rng.normal(size=(3, 3)), d)
        ani = np.triu(ani) + np.triu(ani, 1).T
        dm = np.round(rng.normal(size=3) * 10 ** rng.uniform(-2, 1), d)
        if gen.chance(rng, 0.2):
            ani = np.diag(np.diag(ani))
        has = [not mixed or gen.chance(rng, 0.5) for _ in range(2)]
        bonds[b] = (
            iso,
            ani if m["aniso"] and has[0] else None,
            dm if m["dmi"] and has[1] else None,
        )
    if not bonds:
        bonds[(mag[0], mag[0], (1, 0, 0))] = (1.25, None, None)
    # Both directions of every bond are listed
    listed = []
    for b, (iso, ani, dm) in bonds.items():
        listed.append((b, iso, ani, dm))
        listed.append((gen.mirror(b), iso, ani, None if dm is None else -dm))
    if gen.chance(rng, 0.7):
        order = list(range(len(listed)))
        rng.shuffle(order)
        listed = [listed[i] for i in order]
    m["bonds"] = listed
    return m


def parameter(iso, ani, dm):
    J = np.eye(3) * iso
    if ani is not None:
        J = J + ani
    if dm is not None:
        x, y, z = dm
        J = J + np.array([[0, z, -y], [-z, 0, x], [y, -x, 0]])
    return J


def snapshot(m):
    inv = np.linalg.inv(m["cell"])
    return {
        "cell": m["cell"],
        "atoms": [
            (a["name"], i + 1, a["position"] @ inv, a["moment"], None, a["charge"])
            for i, a in enumerate(m["atoms"])
        ],
        "notation": (True, True, -1.0, -1.0),
        "exchange": {b: parameter(*x) for b, *x in m["bonds"]},
        "spiral_vector": None,
        "cone_axis": None,
    }


def render(rng, m):
    d = m["digits"]
    major, minor = "=" * 90, "-" * 88
    tag = gen.pick(rng, ("", "[Testing!] ", "[Testing!]"))
    out = []
    if gen.chance(rng, 0.8):
        out += [major, "Information: ", "Exchange parameters generated by TB2J 0.7.2."]
    if gen.chance(rng, 0.3):
        out += ["Hamiltonian is read from wannier90 files.", ""]
    out += [major, "Cell (Angstrom):"]
    out += [" ".join(f"{x:{d + 5}.{d}f}" for x in v) for v in m["cell"]]
    out += [""] * int(rng.integers(0, 2))
    out += [major, "Atoms:  ", "(Note: charge and magmoms only count the wannier functions.)"]
    out += ["Atom number     x          y          z      w_charge     M(x)      M(y)      M(z)"]
    total = 0.0
    for a in m["atoms"]:
        s = f"{a['name']:<9}" + "".join(f" {x:10.4f}" for x in a["position"])
        if a["charge"] is not None:
            s += f" {a['charge']:9.4f}"
            total += a["charge"]
        if a["moment"] is not None:
            s += "".join(f" {x:9.4f}" for x in a["moment"])
        out.append(s)
    out += [f"Total            {total:30.4f}", ""]
    out += [""] * int(rng.integers(0, 2))
    if gen.chance(rng, 0.2):
        out += [major, "Orbitals used in decomposition: ", "The name of the orbitals for the decomposition: "]
        out += [f"{a['name']} : ('s', 'px', 'py', 'pz')" for a in m["atoms"]] + [""]
    out += [major, "Exchange: "]
    out += ["    i      j          R        J_iso(meV)          vector          distance(A)"]
    pos = {a["name"]: a["position"] for a in m["atoms"]}
    for (a1, a2, r), iso, ani, dm in m["bonds"]:
        v = np.array(r) @ m["cell"] + pos[a2] - pos[a1]
        distance = np.linalg.norm(v)
        if (a1, a2, r) in m.get("wrong", ()):
            distance += 0.01
        out.append(minor)
        out.append(
            f"   {a1:>5}   {a2:>5}   ({r[0]:3d}, {r[1]:3d}, {r[2]:3d}) {iso:.4f}     "
            f"({v[0]:6.3f}, {v[1]:6.3f}, {v[2]:6.3f})  {distance:.3f} "
        )
        parts = [[f"J_iso:  {iso:.{d}f} "]]
        if dm is not None:
            sep = gen.pick(rng, (" ", ", "))
            parts.append([f"{tag}DMI: (" + sep.join(f"{x:7.{d}f}" for x in dm) + ")"])
        if ani is not None:
            f = f"{d + 6}.{d + 2}e" if m["sci"] else f"{d + 4}.{d}f"
            rows = ["[" + " ".join(f"{x:{f}}" for x in v) + "]" for v in ani]
            parts.append([f"{tag}J_ani:", "[" + rows[0], " " + rows[1], " " + rows[2] + "]"])
        if gen.chance(rng, 0.2):
            parts.append(["[Testing!] Jprime:  5.388,  B: -0.925"])
        tail = parts[1:]
        rng.shuffle(tail)
        for p in parts[:1] + list(tail):
            out += [str(x) for x in p]
        out += [""] * int(rng.integers(0, 3))
    return "\n".join(out) + "\n"
