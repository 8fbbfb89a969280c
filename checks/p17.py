"""Files in the documented text format are read as the documentation says."""

import os

import numpy as np

from vlib import files, gen, oracle, txtmodel

PROP = "P17"
QUICK, THOROUGH = 36000, 150000
RULE = (
    "Random files derived from the documented grammar (units, scales, orders of columns, "
    "all ways to write spins and parameters, spelling and case of keywords, comments, "
    "layout) by an independent writer are loaded; the Hamiltonian is compared with the "
    "meaning known to the writer.  Distinct = distinct (headers of sections, columns, kinds "
    "of lines)."
)
EXPECT = {
    "files": 4000,
    "scale": 1000,
    "absolute positions": 500,
    "angles": 500,
    "cone-axis": 1000,
    "spiral-vector": 1000,
    "exchange": 1000,
    "on-site": 1000,
    "unknown": 1500,
    "filtered copy": 200,
    "second layout": 500,
}
ASSUMPTIONS = [
    "negative scale (volume of the cell) is used with Angstrom only, its units are not documented for Bohr",
    "undefined data of atoms are given as '-' for the whole spin, g-factor or charge",
]


def compare(c, got, exp):
    c.close(got["cell"], exp["cell"], "cell", rtol=1e-9)
    c.check(
        [a[0] for a in got["atoms"]] == [a[0] for a in exp["atoms"]],
        f"atoms are {[a[0] for a in got['atoms']]}",
    )
    for a, b in zip(got["atoms"], exp["atoms"]):
        c.close(a[2], b[2], f"position of {a[0]}", rtol=1e-9)
        c.close(a[3], b[3], f"spin of {a[0]}", rtol=1e-9)
        c.close(a[4], b[4], f"g factor of {a[0]}", rtol=1e-12, atol=0)
        if a[5] is None or b[5] is None:
            c.check(a[5] is b[5], f"charge of {a[0]}: {a[5]} != {b[5]}")
        else:
            c.close(a[5], b[5], f"charge of {a[0]}", rtol=1e-12, atol=0)
    got, exp = files.by_name(got), files.by_name(exp)
    c.check(got["notation"] == exp["notation"], f"notation {got['notation']} != {exp['notation']}")
    for part in ("exchange", "on_site"):
        c.check(
            set(got[part]) == set(exp[part]),
            f"{part}: only in one of two {sorted(set(got[part]) ^ set(exp[part]), key=str)[:4]}",
        )
        for k, J in exp[part].items():
            c.close(got[part][k], J, f"{part} {k}", rtol=1e-8, atol=1e-12)
    for part in ("cone_axis", "spiral_vector"):
        a, b = got[part], exp[part]
        c.check((a is None) == (b is None), f"{part}: {a} != {b}")
        if a is not None:
            c.close(a, b, part, rtol=1e-8)


def case(c):
    from magnopy import load_spinham_txt

    rng = c.rng
    sections, exp = txtmodel.document(rng)
    text = txtmodel.render(rng, sections)
    for x in text.splitlines():
        c.op(x)
    folder = c.tmp()
    name = gen.pick(rng, ("model.txt", "model", "x y.txt", "é.in"))
    path = os.path.join(folder, name)
    with open(path, "w", encoding="utf-8", newline="") as f:
        f.write(text)
    data = files.read(path)
    filtered = gen.chance(rng, 0.1)
    if filtered and gen.chance(rng, 0.5):
        os.chdir(folder)
        path = name
    h = load_spinham_txt(path, save_filtered=True) if filtered else load_spinham_txt(path)
    compare(c, oracle.snapshot(h), exp)
    c.check(files.read(path) == data, "loading changed the file")
    have = sorted(os.listdir(folder))
    c.check(have == sorted([name] + ["filtered_" + name] * filtered), f"files after loading: {have}")
    if filtered:
        g = load_spinham_txt(os.path.join(folder, "filtered_" + name))
        d = oracle.difference(oracle.snapshot(h), oracle.snapshot(g))
        c.check(d is None, f"filtered copy has another meaning: {d}")
        c.ev("filtered copy")
    if gen.chance(rng, 0.2):
        other = os.path.join(folder, "other")
        with open(other, "w", encoding="utf-8", newline="") as f:
            f.write(txtmodel.render(rng, sections))
        d = oracle.difference(oracle.snapshot(h), oracle.snapshot(load_spinham_txt(other)))
        c.check(d is None, f"meaning depends on the layout: {d}")
        c.ev("second layout")
    c.ev("files")
    for x in sections:
        c.ev(x)
    roles = [r for x in sections.values() for r, _ in x]
    columns = sorted(x.lower() for x in sections["atoms"][1][1])
    if "scale" in roles:
        c.ev("scale")
    if "x" in columns and "r1" not in columns:
        c.ev("absolute positions")
    if "sp" in columns:
        c.ev("angles")
    c.state((columns, sorted(set(roles)), [x[0][1] for x in sections.values()]))
