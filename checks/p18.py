"""Files that violate the documented text format are refused, valid ones are accepted."""

import copy
import os

from checks import p17
from vlib import gen, oracle, txtmodel

PROP = "P18"
QUICK, THOROUGH = 24000, 150000
RULE = (
    "One corruption (of a kind that certainly violates the documented format) is injected "
    "at a random place of a random valid file; the loader has to refuse it with the "
    "dedicated error.  The same file without the corruption has to be accepted.  Distinct = "
    "distinct (corruption, section, place)."
)
JUNK = ("abc", "1,5", "1.0.0", "--", "0x10", "1e", "1-", "True", "1/2", "e5", "(1)")
ASSUMPTIONS = ["only the listed kinds of corruptions are judged"]


def lines_of(sections, *roles):
    return [
        (name, i)
        for name, sec in sections.items()
        for i, (role, _) in enumerate(sec)
        if role in roles
    ]


def columns(sections):
    return [x.lower() for x in sections["atoms"][1][1]]


def names(sections):
    k = columns(sections).index("name")
    return [t[k] for role, t in sections["atoms"] if role == "atom"]


# Every corruption changes the sections in place and returns the description or None, if it
# is not possible for this file
def missing_section(rng, s):
    can = ["cell", "atoms"]
    if "exchange" in s or "on-site" in s:
        can.append("notation")
    name = gen.pick(rng, can)
    del s[name]
    return name


def misspelled_section(rng, s):
    can = ["cell", "atoms"]
    if "exchange" in s or "on-site" in s:
        can.append("notation")
    name = gen.pick(rng, can)
    t = s[name][0][1]
    t[0] = t[0][:-1] if gen.chance(rng, 0.5) else t[0] + "s"
    return name


def wrong_units(rng, s):
    name = gen.pick(rng, [x for x in s if x != "unknown"])
    t = s[name][0][1]
    word = {
        "cell": "nm", "atoms": "nm", "notation": "tb2j", "exchange": "Hartree",
        "on-site": "Hartree", "cone-axis": "degrees", "spiral-vector": "nm",
    }[name]
    t[:] = [t[0], gen.pick(rng, (word, "?", "5"))]
    return name


def long_header(rng, s):
    name = gen.pick(rng, [x for x in s if x != "unknown"])
    t = s[name][0][1]
    units = {"cell": "a", "atoms": "a", "notation": "x"}.get(name, "a" if "-" in name and name != "on-site" else "meV")
    t[:] = [t[0], units, gen.pick(rng, ("1", units, "extra"))]
    return name


NUMERIC = ("vector", "scale", "row", "iso", "dmi", "symm", "six", "axis", "q", "factor")
WITH_WORD = ("iso", "dmi", "symm", "factor")


def not_a_number(rng, s):
    name, i = gen.pick(rng, lines_of(s, *NUMERIC))
    role, t = s[name][i]
    k = int(rng.integers(1 if role in WITH_WORD else 0, len(t)))
    t[k] = gen.pick(rng, JUNK)
    return f"{name} {role}"


def missing_number(rng, s):
    name, i = gen.pick(rng, lines_of(s, *NUMERIC))
    role, t = s[name][i]
    for _ in range(int(gen.pick(rng, (1, 1, 1, 2, 3, 4)))):
        k = 1 if role in WITH_WORD else 0
        if k < len(t):
            del t[int(rng.integers(k, len(t)))]
    # three scale factors and three numbers of cone axis can be shorter
    if not t or role == "axis" and len(t) == 2 or role == "scale" and len(t) == 1:
        return None
    return f"{name} {role}"


def extra_number(rng, s):
    name, i = gen.pick(rng, lines_of(s, *NUMERIC))
    role, t = s[name][i]
    for _ in range(int(gen.pick(rng, (1, 1, 1, 2, 3, 6)))):
        t.append(gen.pick(rng, ("1.0", "0", "2")))
    if role in ("axis", "scale") and len(t) == 3:
        return None
    return f"{name} {role}"


def zero_scale(rng, s):
    can = lines_of(s, "scale")
    if not can:
        return None
    t = s["cell"][can[0][1]][1]
    if len(t) == 1:
        t[0] = gen.pick(rng, ("0", "0.0", "-0"))
    else:
        t[int(rng.integers(3))] = gen.pick(rng, ("0", "-1.5", "-0.1"))
    return f"{len(t)} numbers"


def missing_vector(rng, s):
    can = lines_of(s, "vector")
    scale = lines_of(s, "scale")
    if scale and len(s["cell"][scale[0][1]][1]) == 3:
        return None
    del s["cell"][gen.pick(rng, can)[1]]
    return "with scale" if scale else "no scale"


def extra_vector(rng, s):
    if not lines_of(s, "scale"):
        return None
    s["cell"].append(("vector", ["1", "0", "0"]))
    return "with scale"


def drop_column(rng, s, names_):
    have = columns(s)
    can = [x for x in names_ if x in have]
    if not can:
        return None
    k = have.index(gen.pick(rng, can))
    word = have[k]
    for role, t in s["atoms"][1:]:
        del t[k]
    return word


def missing_position_column(rng, s):
    return drop_column(rng, s, ("r1", "r2", "r3", "x", "y", "z"))


def missing_name_column(rng, s):
    return drop_column(rng, s, ("name",))


def missing_spin_column(rng, s):
    return drop_column(rng, s, ("sx", "sy", "sz", "sp", "st"))


def repeated_column(rng, s):
    have = columns(s)
    word = gen.pick(rng, have)
    k = have.index(word)
    for role, t in s["atoms"][1:]:
        t.append(t[k])
    return word


def missing_atom_data(rng, s):
    _, i = gen.pick(rng, lines_of(s, "atom"))
    t = s["atoms"][i][1]
    k = columns(s).index("name")
    del t[gen.pick(rng, [j for j in range(len(t)) if j != k])]
    return "atom"


def extra_atom_data(rng, s):
    _, i = gen.pick(rng, lines_of(s, "atom"))
    s["atoms"][i][1].append("1")
    return "atom"


def junk_atom_data(rng, s):
    _, i = gen.pick(rng, lines_of(s, "atom"))
    t = s["atoms"][i][1]
    have = columns(s)
    k = gen.pick(
        rng,
        [j for j, x in enumerate(have) if x in ("r1", "r2", "r3", "x", "y", "z", "sx", "sy", "sz", "sp", "st", "s", "g", "q")],
    )
    t[k] = gen.pick(rng, JUNK)
    return have[k]


def skipped_position(rng, s):
    """No complete triple of coordinates is left for one atom."""
    _, i = gen.pick(rng, lines_of(s, "atom"))
    t = s["atoms"][i][1]
    have = columns(s)
    for words in (("r1", "r2", "r3"), ("x", "y", "z")):
        if words[0] in have:
            some = rng.random(3) < 0.5
            some[int(rng.integers(3))] = True
            for word, bad in zip(words, some):
                if bad:
                    t[have.index(word)] = "-"
    return f"{len(have)} columns"


def no_atoms(rng, s):
    s["atoms"] = s["atoms"][:2] if gen.chance(rng, 0.7) else s["atoms"][:1]
    for x in ("exchange", "on-site"):
        s.pop(x, None)
    return "atoms"


def repeated_atom(rng, s):
    rows = lines_of(s, "atom")
    _, i = gen.pick(rng, rows)
    t = list(s["atoms"][i][1])
    s["atoms"].append(("atom", t))
    return "atom"


def bad_atom_name(rng, s):
    k = columns(s).index("name")
    bad = gen.pick(rng, ("_Cr", "-Cr", "?1", "*", ".a", "Cr__", "__Cr", "(Cr)"))
    row = ["1"] * len(columns(s))
    row[k] = bad
    s["atoms"].insert(int(rng.integers(2, len(s["atoms"]) + 1)), ("atom", row))
    return bad


def missing_property(rng, s):
    if "exchange" not in s and "on-site" not in s:
        return None
    need = set()
    if "exchange" in s:
        need |= set("dse")
    if "on-site" in s:
        need |= set("so")
    can = [i for n, i in lines_of(s, "flag", "factor") if s[n][i][1][0][0].lower() in need]
    i = gen.pick(rng, can)
    word = s["notation"][i][1][0]
    del s["notation"][i]
    return word[0].lower()


def repeated_property(rng, s):
    can = lines_of(s, "flag", "factor")
    if not can:
        return None
    _, i = gen.pick(rng, can)
    s["notation"].append((s["notation"][i][0], list(s["notation"][i][1])))
    return s["notation"][i][0]


def bad_flag(rng, s):
    can = lines_of(s, "flag")
    if not can:
        return None
    _, i = gen.pick(rng, can)
    s["notation"][i][1][1] = gen.pick(rng, ("maybe", "2", "tru", "on", "-1", "1.0", "+"))
    return "flag"


def flag_blocks(rng, s):
    can = lines_of(s, "flag", "factor")
    if not can:
        return None
    _, i = gen.pick(rng, can)
    t = s["notation"][i][1]
    if gen.chance(rng, 0.5):
        del t[1]
    else:
        t.append(t[1])
    return f"{len(t)} blocks"


def unknown_atom(rng, s):
    can = lines_of(s, "bond", "site")
    if not can:
        return None
    name, i = gen.pick(rng, can)
    role, t = s[name][i]
    k = int(rng.integers(2)) if role == "bond" else 0
    old = t[k]
    options = [old + "0", "Zz", old.swapcase(), old[:-1], old + "__1"]
    options = [x for x in options if x and x not in names(s)]
    t[k] = gen.pick(rng, options)
    return role


def bond_header(rng, s):
    can = lines_of(s, "bond")
    if not can:
        return None
    name, i = gen.pick(rng, can)
    t = s[name][i][1]
    if gen.chance(rng, 0.5):
        del t[int(rng.integers(len(t)))]
    else:
        t.append("0")
    return f"{len(t)} blocks"


def bad_ijk(rng, s):
    can = lines_of(s, "bond")
    if not can:
        return None
    name, i = gen.pick(rng, can)
    t = s[name][i][1]
    t[int(rng.integers(2, 5))] = gen.pick(rng, ("1.5", "a", "1.0", "1e0", "--1", "-"))
    return "bond"


def bond_without_value(rng, s):
    can = lines_of(s, "bond")
    if not can:
        return None
    name, i = gen.pick(rng, can)
    sec = s[name]
    j = i + 1
    while j < len(sec) and sec[j][0] != "sub":
        j += 1
    del sec[i + 1 : j]
    return "bond"


def repeated_value(rng, s):
    can = lines_of(s, "iso", "dmi", "symm")
    if not can:
        return None
    name, i = gen.pick(rng, can)
    s[name].insert(i, (s[name][i][0], list(s[name][i][1])))
    return s[name][i][0]


def missing_row(rng, s):
    can = lines_of(s, "row")
    if not can:
        return None
    name, i = gen.pick(rng, can)
    del s[name][i]
    return "row"


def empty_section(rng, s):
    can = [x for x in s if x not in ("cell", "atoms", "notation", "unknown")]
    if "exchange" in s or "on-site" in s:
        can.append("notation")
    can.append("cell")
    name = gen.pick(rng, can)
    s[name] = s[name][:1]
    if name in ("exchange", "on-site") and gen.chance(rng, 0.5):
        s[name].append(("sub", ["-" * 10]))
    return name


def site_without_value(rng, s):
    can = lines_of(s, "six")
    if not can:
        return None
    name, i = gen.pick(rng, can)
    del s[name][i]
    return "site"


def extra_line(rng, s):
    can = [x for x in ("cone-axis", "spiral-vector") if x in s]
    if not can:
        return None
    name = gen.pick(rng, can)
    s[name].append(("axis", ["1", "0", "0"]))
    return name


def short_subseparator(rng, s):
    can = lines_of(s, "sub")
    if not can:
        return None
    name, i = gen.pick(rng, can)
    s[name][i][1][0] = "-" * int(rng.integers(1, 10))
    return name


def truncated(rng, s):
    """Section ends in the middle of the last parameter."""
    can = []
    for name in ("exchange", "on-site"):
        sec = s.get(name, [])
        rows = 0
        for i, (role, _) in enumerate(sec):
            rows = rows + 1 if role == "row" else 0
            if role in ("bond", "site", "matrix") or role == "row" and rows % 3:
                can.append((name, i))
    if not can:
        return None
    name, i = gen.pick(rng, can)
    role = s[name][i][0]
    del s[name][i + 1 :]
    if gen.chance(rng, 0.3):
        s[name].append(("sub", ["-" * 10]))
    return f"{name} after {role}"


def incomplete_vector(rng, s):
    """Orbital or total moment without one of its columns."""
    have = columns(s)
    can = [k for k in "lj" if not any(x.startswith(k) for x in have)]
    if not can:
        return None
    k = gen.pick(rng, can)
    words = gen.pick(rng, ("x", "y", "z", "p", "t", "xy", "yz", "xz", "pt", ".p", ".t", ".xy", "xyzp"))
    words = [k + x.replace(".", "") for x in words]
    for word in words:
        at = int(rng.integers(len(s["atoms"][1][1]) + 1))
        for role, t in s["atoms"][1:]:
            t.insert(at, word if role == "columns" else "0.5")
    return str(words)


def extra_row(rng, s):
    """One more row of the matrix."""
    can = lines_of(s, "row")
    if not can:
        return None
    name, i = gen.pick(rng, can)
    s[name].insert(i, (s[name][i][0], list(s[name][i][1])))
    return "row"


def repeated_matrix(rng, s):
    can = lines_of(s, "matrix")
    if not can:
        return None
    name, i = gen.pick(rng, can)
    j = i + 4
    while gen.chance(rng, 0.5) and s[name][j][0] != "sub":
        j += 1
    s[name][j:j] = copy.deepcopy(s[name][i : i + 4])
    return "matrix"


def unknown_value(rng, s):
    """A line in the bond, that is neither value of the parameter nor separator."""
    can = lines_of(s, "bond", "iso", "dmi", "symm")
    can = [x for x in can if x[0] == "exchange"]
    if not can:
        return None
    name, i = gen.pick(rng, can)
    words = gen.pick(
        rng,
        (["J", "1.0"], ["0"], ["1", "2", "3"], ["exchange", "1"], ["Jiso", "0.5"], ["antisymmetric", "1", "0", "0"],
         ["Tensor"], ["xx", "1"], ["(dmi)", "1", "0", "0"], ["=", "="], ["-isotropic", "1"]),
    )
    s[name].insert(i + 1, ("word", list(words)))
    return words[0]


def lost_subseparator(rng, s):
    """Two bonds with nothing in between."""
    sec = s.get("exchange", [])
    can = [i for i, x in enumerate(sec) if x[0] == "bond" and i > 2]
    if not can:
        return None
    i = gen.pick(rng, can)
    while sec[i - 1][0] == "sub":
        del sec[i - 1]
        i -= 1
    return f"after {sec[i - 1][0]}, before {sec[i][1][0][0].lower()}"


def site_header(rng, s):
    can = lines_of(s, "site")
    if not can:
        return None
    name, i = gen.pick(rng, can)
    s[name][i][1].append(gen.pick(rng, ("0", "1.0", *names(s))))
    return "site"


def lost_separator(rng, text):
    """Two sections with nothing in between."""
    clean = [x.split("#")[0].strip() for x in text]
    full = [i for i, x in enumerate(clean) if x]
    is_end = {i: set(clean[i]) == {"="} for i in full}
    groups, section = [], None
    for n, i in enumerate(full):
        if not is_end[i]:
            if n == 0 or is_end[full[n - 1]]:
                before, section = section, clean[i].split()[0].lower()
                if before is not None:
                    groups.append((n, before, section))
    known = ("cell", "atoms", "notation", "exchange", "on-site", "cone-axis", "spiral-vector")
    # (unrecognized properties in the notation are only reported)
    groups = [x for x in groups if x[1] in known and x[2] in known and x[1:] != ("notation", "cone-axis")]
    if not groups:
        return None
    n, before, section = gen.pick(rng, groups)
    # Last subseparator before the separator may be omitted as well
    n -= 1
    drop = gen.chance(rng, 0.5)
    while is_end[full[n]] or drop and set(clean[full[n]]) == {"-"}:
        text[full[n]] = ""
        n -= 1
    return "\n".join(text), f"{before}, {section}"


KINDS = [
    missing_section, misspelled_section, wrong_units, long_header, not_a_number,
    missing_number, extra_number, zero_scale, missing_vector, extra_vector,
    missing_position_column, missing_name_column, missing_spin_column, repeated_column,
    missing_atom_data, extra_atom_data, junk_atom_data, no_atoms, repeated_atom,
    bad_atom_name, missing_property, repeated_property, bad_flag, flag_blocks, unknown_atom,
    bond_header, bad_ijk, bond_without_value, repeated_value, missing_row, empty_section,
    site_without_value, extra_line, short_subseparator, truncated, incomplete_vector,
    site_header, skipped_position, extra_row, repeated_matrix, unknown_value, lost_subseparator,
]
EXPECT = {k.__name__: 60 for k in KINDS}
EXPECT["short_separator"] = 60
EXPECT["lost_separator"] = 60
EXPECT["repeated_section"] = 60
EXPECT["valid files"] = 2000


def case(c):
    from magnopy import load_spinham_txt
    from magnopy.exceptions import FailedToVerifyTxtModelFile

    rng = c.rng
    sections, exp = txtmodel.document(rng, full=gen.chance(rng, 0.8))
    path = os.path.join(c.tmp(), "model.txt")

    def write(text):
        c.trace.clear()
        for x in text.splitlines():
            c.op(x)
        with open(path, "w", encoding="utf-8", newline="") as f:
            f.write(text)

    if gen.chance(rng, 0.25):
        write(txtmodel.render(rng, sections))
        p17.compare(c, oracle.snapshot(load_spinham_txt(path)), exp)
        c.ev("valid files")
    bad = copy.deepcopy(sections)
    k = int(rng.integers(len(KINDS) + 3))
    if k == len(KINDS) + 2:
        # The second one has either the same content or another one
        end = "\n" + "=" * 20 + "\n"
        name = gen.pick(rng, [x for x in bad if x != "unknown"])
        source = bad
        if gen.chance(rng, 0.5):
            source, _ = txtmodel.document(rng, full=True)
        if name not in source:
            return
        second = txtmodel.render(rng, {name: source[name]})
        first = txtmodel.render(rng, bad)
        text = first + end + second if gen.chance(rng, 0.5) else second + end + first
        kind, where = "repeated_section", name
    elif k == len(KINDS) + 1:
        found = lost_separator(rng, txtmodel.render(rng, bad).split("\n"))
        if found is None:
            return
        kind = "lost_separator"
        text, where = found
    elif k == len(KINDS):
        text = txtmodel.render(rng, bad).split("\n")
        lines = [i for i, x in enumerate(text) if x.split("#")[0].strip() and set(x.split("#")[0].strip()) == {"="}]
        i = lines[int(rng.integers(len(lines)))]
        text[i] = "=" * int(rng.integers(1, 10)) + (" # comment" if gen.chance(rng, 0.2) else "")
        text = "\n".join(text)
        kind, where = "short_separator", "file"
    else:
        kind = KINDS[k].__name__
        where = KINDS[k](rng, bad)
        if where is None:
            return
        text = txtmodel.render(rng, bad)
    write(text)
    c.op("# corruption:", kind, where)
    c.raises(
        FailedToVerifyTxtModelFile,
        lambda: load_spinham_txt(path),
        f"file with the corruption '{kind}' ({where})",
    )
    c.ev(kind)
    c.state((kind, where, sorted(sections), len(text)))
