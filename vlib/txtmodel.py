"""Writer of model files in the documented text format, independent from magnopy.

``document(rng)`` -> (sections, expected) where a section is a list of (role, tokens) and
expected is the snapshot of the Hamiltonian that the documentation assigns to the file.
``render(rng, sections)`` -> text with random layout."""

import numpy as np

from vlib import gen, oracle

ENERGY = {
    None: 1.0,
    "m": 1.0,
    "e": 1e3,
    "j": 1.0 / oracle.MEV,
    "k": oracle.KB / oracle.MEV,
    "r": oracle.RYDBERG / oracle.MEV,
}
ENERGY_WORDS = {
    "m": ("meV", "MEV", "mev", "m", "milli-electron-Volt"),
    "e": ("eV", "ev", "e", "electron-Volt", "EV"),
    "j": ("J", "j", "Joule", "joules"),
    "k": ("K", "k", "Kelvin", "KELVIN"),
    "r": ("Ry", "ry", "r", "Rydberg", "RY"),
}
TRUE, FALSE = ("true", "t", "1", "yes", "y"), ("false", "f", "0", "no", "n")


def case_of(rng, word):
    r = rng.random()
    if r < 0.4:
        return word
    if r < 0.6:
        return word.upper()
    if r < 0.8:
        return word.lower()
    return word.capitalize()


def number(rng, x):
    """Text and the value of it."""
    x = float(x)
    r = rng.random()
    if r < 0.6:
        t = repr(x)
    elif r < 0.75:
        t = f"{x:.17e}"
    elif r < 0.85:
        t = f"{x:+.16E}"
    else:
        t = f"{x:.6g}"
    if t.startswith("0.") and rng.random() < 0.2:
        t = t[1:]
    return t


def numbers(rng, xs):
    """Tokens and the array of the values that they really have."""
    t = [number(rng, x) for x in xs]
    return t, np.array([float(x) for x in t])


def boolean(rng, value):
    return case_of(rng, gen.pick(rng, TRUE if value else FALSE))


def energy_units(rng):
    key = gen.pick(rng, (None, "m", "e", "j", "k", "r"))
    return key, [] if key is None else [gen.pick(rng, ENERGY_WORDS[key])]


def matrix_parts(rng, J, factor):
    """Random way to write a parameter: lines and the value (in meV)."""
    J = np.asarray(J) / factor
    M = np.zeros((3, 3))
    lines = []
    r = rng.random()
    use = [gen.chance(rng, 0.4) for _ in range(4)]
    if r < 0.35:
        use = [True, False, False, False]
    elif r < 0.5:
        use = [False, True, True, True]
    if not any(use):
        use[int(rng.integers(4))] = True
    blocks = []
    if use[0]:
        rows = []
        for i in range(3):
            t, v = numbers(rng, J[i])
            M[i] = v
            rows.append(("row", t))
        blocks.append([("matrix", [case_of(rng, gen.pick(rng, ("matrix", "m", "Mat")))])] + rows)
    iso = S = A = None
    if use[1]:
        t, v = numbers(rng, [gen.pick(rng, (float(np.trace(J) / 3), float(rng.normal()) / factor))])
        iso = v[0]
        blocks.append([("iso", [case_of(rng, gen.pick(rng, ("isotropic", "iso", "i")))] + t)])
    if use[2]:
        d = np.array([J[1, 2] - J[2, 1], J[2, 0] - J[0, 2], J[0, 1] - J[1, 0]]) / 2
        if gen.chance(rng, 0.3):
            d = rng.normal(size=3) / factor
        t, d = numbers(rng, d)
        A = np.array([[0, d[2], -d[1]], [-d[2], 0, d[0]], [d[1], -d[0], 0]])
        blocks.append([("dmi", [case_of(rng, gen.pick(rng, ("dmi", "DMI", "d")))] + t)])
    if use[3]:
        P = (J + J.T) / 2 - np.eye(3) * np.trace(J) / 3
        v = [P[0, 0], P[1, 1], P[0, 1], P[0, 2], P[1, 2]]
        if gen.chance(rng, 0.3):
            v = rng.normal(size=5) / factor
        t, v = numbers(rng, v)
        S = np.array([[v[0], v[2], v[3]], [v[2], v[1], v[4]], [v[3], v[4], -v[0] - v[1]]])
        word = gen.pick(rng, ("symmetric-anisotropy", "symm", "s"))
        blocks.append([("symm", [case_of(rng, word)] + t)])
    miso = np.trace(M) / 3
    msym = (M + M.T) / 2 - miso * np.eye(3)
    masym = (M - M.T) / 2
    value = (
        (miso if iso is None else iso) * np.eye(3)
        + (msym if S is None else S)
        + (masym if A is None else A)
    )
    rng.shuffle(order := list(range(len(blocks))))
    for i in order:
        lines.extend(blocks[int(i)])
    return lines, value * factor


def dashes(rng, t):
    """Some (or all) of the blocks are skipped."""
    some = rng.random(3) < 0.5
    some[int(rng.integers(3))] = True
    if gen.chance(rng, 0.4):
        some[:] = True
    return ["-" if x else y for x, y in zip(some, t)]


def sub(rng):
    return ("sub", ["-" * int(gen.pick(rng, (10, 11, 30, 80)))])


def document(rng, rich=True, full=False):
    s = gen.spec(rng, n_atoms=int(gen.pick(rng, (1, 2, 2, 3, 4))), n_bonds=int(rng.integers(0, 6)))
    if full:
        while not s.bonds or not s.onsite:
            s = gen.spec(rng, n_atoms=int(gen.pick(rng, (1, 2, 3))), n_bonds=int(rng.integers(2, 6)), p_onsite=0.8)
    exp = {}
    sections = {}

    # ---- Cell
    bohr = gen.chance(rng, 0.3)
    units = []
    if bohr:
        units = [gen.pick(rng, ("Bohr", "b", "BOHR", "bohr-radius"))]
    elif gen.chance(rng, 0.6):
        units = [gen.pick(rng, ("Angstrom", "a", "ANG", "angstrom"))]
    u = oracle.BOHR if bohr else 1.0
    sec = [("header", [case_of(rng, "cell")] + units)]
    rows = []
    cell = np.zeros((3, 3))
    for i in range(3):
        t, v = numbers(rng, s.cell[i])
        cell[i] = v * u
        rows.append(("vector", t))
    scale = np.ones(3)
    r = rng.random()
    if r < 0.2:
        t, v = numbers(rng, [rng.uniform(0.3, 4)])
        scale = scale * v[0]
        sec.append(("scale", t))
    elif r < 0.35 and not bohr:
        t, v = numbers(rng, [-gen.pick(rng, (rng.uniform(10, 300), rng.uniform(0.05, 10)))])
        scale = scale * abs(v[0]) / abs(np.linalg.det(cell))
        sec.append(("scale", t))
    elif r < 0.5:
        three = rng.uniform(0.3, 4, 3)
        if gen.chance(rng, 0.3):
            # Some of the numbers coincide
            three = rng.choice([1.0, float(three[0]), 2.0], size=3)
        t, v = numbers(rng, three)
        scale = v
        sec.append(("scale", t))
    cell = cell * scale
    exp["cell"] = cell
    sections["cell"] = sec + rows

    # ---- Atoms
    pos = gen.pick(rng, ("r", "r", "x", "both"))
    if pos == "r":
        units = gen.pick(rng, ([], [], ["Relative"], ["r"], ["Bohr"], ["angstrom"]))
        au = 1.0
    else:
        units = gen.pick(rng, ([], ["Angstrom"], ["A"], ["Bohr"], ["b"], ["BOHR"]))
        au = oracle.BOHR if units and units[0][0].lower() == "b" else 1.0
    columns = ["name"]
    if pos in ("r", "both"):
        columns += ["r1", "r2", "r3"]
    if pos in ("x", "both"):
        columns += ["x", "y", "z"]
    kinds = gen.pick(
        rng, ((), ("s",), ("v",), ("v",), ("a",), ("a",), ("v", "s"), ("v", "a"))
    )
    if "v" in kinds:
        columns += ["sx", "sy", "sz"]
    if "a" in kinds:
        columns += ["sp", "st", "s"]
    elif "s" in kinds:
        columns += ["s"]
    for k in ("g", "q"):
        if gen.chance(rng, 0.5):
            columns.append(k)
    for k in ("l", "j"):
        if gen.chance(rng, 0.1):
            columns += gen.pick(rng, ([k], [k + "x", k + "y", k + "z"], [k, k + "p", k + "t"]))
    if gen.chance(rng, 0.2):
        columns += gen.pick(rng, (["mass"], ["occupation", "U"], ["number"]))
    rng.shuffle(columns)
    columns = [str(x) for x in columns]
    shown = [case_of(rng, x) for x in columns]
    sec = [("header", [case_of(rng, "atoms")] + list(units)), ("columns", shown)]
    exp["atoms"] = []
    inv = np.linalg.inv(cell)
    for n, a in enumerate(s.atoms):
        row = {"name": a["name"]}
        # One of the two may be skipped
        skip = gen.pick(rng, ("", "", "", "r", "x")) if "r1" in columns and "x" in columns else ""
        if "r1" in columns:
            t, rel = numbers(rng, a["position"])
            row.update(zip(("r1", "r2", "r3"), dashes(rng, t) if skip == "r" else t))
        if "x" in columns:
            cart = (a["position"] @ cell) / scale / au
            if "r1" in columns and gen.chance(rng, 0.7):
                cart = rng.normal(size=3)  # has to be ignored
                if skip == "r":
                    cart = (a["position"] @ cell) / scale / au
            t, cart = numbers(rng, cart)
            row.update(zip("xyz", dashes(rng, t) if skip == "x" else t))
            if "r1" not in columns or skip == "r":
                rel = (cart * au * scale) @ inv
        spin = np.zeros(3)
        v = a["spin"]
        skip_v = gen.chance(rng, 0.1)
        skip_a = gen.chance(rng, 0.1)
        found = False
        if "sx" in columns:
            t, x = numbers(rng, v)
            if skip_v:
                t = dashes(rng, t)
            else:
                spin, found = x, True
            row.update(zip(("sx", "sy", "sz"), t))
        if "sp" in columns:
            S = float(np.linalg.norm(v))
            th = np.degrees(np.arccos(np.clip(v[2] / S, -1, 1))) if S else 0.0
            ph = np.degrees(np.arctan2(v[1], v[0])) % 360
            if found and gen.chance(rng, 0.7):
                th, ph, S = rng.uniform(0, 180), rng.uniform(0, 360), 7.0
            t, x = numbers(rng, [ph, th, S])
            if skip_a:
                t = dashes(rng, t)
                if not found and t[2] != "-":
                    # Spin value alone
                    spin = np.array([0.0, 0.0, x[2]])
            elif not found:
                p_, t_ = np.radians(x[:2])
                spin = x[2] * np.array([np.cos(p_) * np.sin(t_), np.sin(p_) * np.sin(t_), np.cos(t_)])
                found = True
            row.update(zip(("sp", "st", "s"), t))
        elif "s" in columns:
            t, x = numbers(rng, [gen.spin_value(rng)])
            if skip_a:
                t = ["-"]
            elif not found:
                spin = np.array([0.0, 0.0, x[0]])
            row["s"] = t[0]
        g, q = 2.0, 0.0
        if "g" in columns:
            t, x = numbers(rng, [a["g"]])
            if gen.chance(rng, 0.15):
                t = ["-"]
            else:
                g = x[0]
            row["g"] = t[0]
        if "q" in columns:
            t, x = numbers(rng, [a["charge"] or 0.5])
            if gen.chance(rng, 0.15):
                t = ["-"]
            else:
                q = x[0]
            row["q"] = t[0]
        for k in columns:
            if k not in row:
                row[k] = "-" if gen.chance(rng, 0.3) else number(rng, rng.normal())
        sec.append(("atom", [row[k] for k in columns]))
        exp["atoms"].append((a["name"], n + 1, rel, spin, g, q))
    sections["atoms"] = sec

    # ---- Notation
    dc, sn, ef, of = s.notation
    need = set()
    if s.bonds:
        need |= {"d", "s", "e"}
    if s.onsite:
        need |= {"s", "o"}
    lines = []
    value = {}
    for key, words in (
        ("d", ("double-counting", "d", "dc", "Double-counting")),
        ("s", ("spin-normalized", "s", "Spin-normalized")),
        ("e", ("exchange-factor", "e", "Exchange-factor")),
        ("o", ("on-site-factor", "o", "On-site-factor")),
    ):
        if key not in need and gen.chance(rng, 0.5):
            continue
        word = case_of(rng, gen.pick(rng, words))
        if key in "ds":
            lines.append(("flag", [word, boolean(rng, dc if key == "d" else sn)]))
            value[key] = dc if key == "d" else sn
        else:
            t, x = numbers(rng, [ef if key == "e" else of])
            lines.append(("factor", [word] + t))
            value[key] = float(x[0])
    rng.shuffle(order := list(range(len(lines))))
    lines = [lines[int(i)] for i in order]
    if need or (lines and gen.chance(rng, 0.5)):
        sections["notation"] = [("header", [case_of(rng, "notation")])] + lines
    exp["notation"] = tuple(value.get(k) for k in "dseo") if need else (None,) * 4

    # ---- Exchange
    exp["exchange"] = {}
    index = {a["name"]: i + 1 for i, a in enumerate(s.atoms)}

    def key(b):
        return (b[0], index[b[0]], b[1], index[b[1]], b[2])

    if s.bonds:
        k, words = energy_units(rng)
        f = ENERGY[k]
        sec = [("header", [case_of(rng, "exchange")] + words), sub(rng)]
        todo = []
        for b, J in s.bonds.items():
            todo.append((b, J))
        for b, J in todo:
            lines, M = matrix_parts(rng, J, f)
            sec.append(("bond", [b[0], b[1]] + [str(i) for i in b[2]]))
            sec += lines + [sub(rng)]
            exp["exchange"][key(b)] = M
            if dc:
                exp["exchange"][key(gen.mirror(b))] = M.T
        sections["exchange"] = sec

    # ---- On-site
    exp["on_site"] = {}
    if s.onsite:
        k, words = energy_units(rng)
        f = ENERGY[k]
        sec = [("header", [case_of(rng, "on-site")] + words), sub(rng)]
        for name, A in s.onsite.items():
            A = A / f
            t, v = numbers(rng, [A[0, 0], A[1, 1], A[2, 2], A[0, 1], A[0, 2], A[1, 2]])
            sec += [("site", [name]), ("six", t), sub(rng)]
            exp["on_site"][(name, index[name])] = f * np.array(
                [[v[0], v[3], v[4]], [v[3], v[1], v[5]], [v[4], v[5], v[2]]]
            )
        sections["on-site"] = sec

    # ---- Ground state
    exp["cone_axis"] = exp["spiral_vector"] = None
    if gen.chance(rng, 0.5) or full:
        r = rng.random()
        n = gen.unit(rng) * float(rng.uniform(0.2, 5))
        if r < 0.35:
            t, v = numbers(rng, n)
            words = gen.pick(rng, ([], ["Relative"], ["r"], ["REL"]))
            v = v @ cell
        elif r < 0.65:
            t, v = numbers(rng, n)
            words = gen.pick(rng, (["Absolute"], ["a"], ["ABS"]))
        else:
            t, v = numbers(rng, [rng.uniform(0, 180), rng.uniform(0, 360)])
            al, be = np.radians(v)
            v = np.array([np.cos(be) * np.sin(al), np.sin(be) * np.sin(al), np.cos(al)])
            words = gen.pick(rng, ([], ["Absolute"], ["relative"]))
        exp["cone_axis"] = v / np.linalg.norm(v)
        sections["cone-axis"] = [("header", [case_of(rng, "cone-axis")] + words), ("axis", t)]
    if gen.chance(rng, 0.5) or full:
        t, v = numbers(
            rng, gen.pick(rng, (rng.uniform(-1, 1, 3), rng.uniform(-1, 1, 3), rng.normal(size=3) * 3, np.zeros(3)))
        )
        # (the reciprocal cell of wulfric has the opposite sign for left-handed cells)
        if gen.chance(rng, 0.5) or np.linalg.det(cell) < 0:
            words = gen.pick(rng, ([], ["Relative"], ["r"], ["REL"]))
        else:
            words = gen.pick(rng, (["Absolute"], ["a"], ["ABS"]))
            # v = q @ reciprocal,  in the inverse units of the lattice vectors
            v = (v / u) @ cell.T / (2 * np.pi)
        exp["spiral_vector"] = v
        sections["spiral-vector"] = [("header", [case_of(rng, "spiral-vector")] + words), ("q", t)]

    # ---- Unknown sections are ignored
    if gen.chance(rng, 0.1):
        word = gen.pick(rng, ("description", "Parameters", "cells", "atom", "on-sites", "dipole", "x"))
        sections["unknown"] = [("header", [word] + ["K"] * int(rng.integers(2)))]
        for _ in range(int(rng.integers(4))):
            sections["unknown"].append(("free", gen.pick(rng, (["1", "2"], ["Fe1", "Fe1", "0", "0", "0"], ["-" * 12]))))
    return sections, exp


def render(rng, sections, shuffle=True):
    """Text of the file: random order of sections, spaces, comments and blank lines."""
    names = list(sections)
    if shuffle and gen.chance(rng, 0.5):
        rng.shuffle(names)
    noise = gen.pick(rng, (0.0, 0.0, 0.1, 0.4))
    out = []

    def comment():
        return gen.pick(rng, ("# ", "#", "#", "##")) + gen.pick(rng, ("comment", "==========", "cell Bohr", "Matrix 1 2 3", "-----------", "# é"))

    def junk():
        while rng.random() < noise:
            out.append(gen.pick(rng, ("", "    ", comment(), "  " + comment())))

    def line(tokens):
        t = tokens[0]
        for x in tokens[1:]:
            t += " " * int(gen.pick(rng, (1, 1, 2, 5))) + x
        if rng.random() < noise:
            t = "   " + t
        if rng.random() < noise:
            t += gen.pick(rng, ("  ", " ", "", "   ")) + comment()
        elif rng.random() < noise:
            t += "   "
        out.append(t)

    def separator():
        line(["=" * int(gen.pick(rng, (10, 12, 40, 80)))])
        if rng.random() < noise:
            line(["=" * 10])

    junk()
    if gen.chance(rng, 0.9):
        separator()
    for i, name in enumerate(names):
        junk()
        for role, tokens in sections[str(name)]:
            line(tokens)
            junk()
        if i + 1 < len(names) or gen.chance(rng, 0.8):
            separator()
    end = gen.pick(rng, ("\n", "\n", "\n", "\r\n"))
    return end.join(out) + gen.pick(rng, ("", end))
