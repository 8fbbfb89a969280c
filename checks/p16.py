"""Round trip through .txt files, up to the printed precision."""

import contextlib
import io
import os

import numpy as np

from checks import p14
from vlib import files, gen, oracle

PROP = "P16"
QUICK, THOROUGH = 12000, 60000
RULE = (
    "Hamiltonians (random ones and results of random histories) are written to real text "
    "files with all combinations of the options of the output and loaded back; snapshots "
    "are compared within the printed precision.  Distinct = distinct (options, notation, "
    "numbers of atoms and parameters, present parts)."
)
EXPECT = {
    "round trips": 2000,
    "spin angles": 500,
    "only parts of parameters": 400,
    "matrix and parts": 400,
    "text returned": 200,
    "text printed": 100,
    "refused": 50,
    "after a history": 300,
    "file is present": 200,
    "replaced content": 200,
}
ASSUMPTIONS = [
    "names of atoms are unique and do not contain two underscores",
    "undefined charge is read as zero (there is no other way to write it)",
    "parameters, spins and angles are printed with 4 decimals, everything else with 8",
]
OPTIONS = ("write_matrix", "write_iso", "write_dmi", "write_symm", "write_distance", "write_spin_angles")


def visible(J, o):
    """Part of the parameter that the user has asked to write."""
    J = np.array(J)
    if o["write_matrix"]:
        return J
    iso = np.trace(J) / 3
    S = (J + J.T) / 2 - iso * np.eye(3)
    A = (J - J.T) / 2
    return o["write_iso"] * iso * np.eye(3) + o["write_symm"] * S + o["write_dmi"] * A


def compare(c, before, after, o):
    want, got = files.by_name(before), files.by_name(after)
    c.close(got["cell"], want["cell"], "cell", rtol=0, atol=0.51e-8)
    c.check(
        [a[0] for a in got["atoms"]] == [a[0] for a in want["atoms"]],
        f"atoms are {[a[0] for a in got['atoms']]}",
    )
    for a, b in zip(got["atoms"], want["atoms"]):
        c.close(a[2], b[2], f"position of {a[0]}", rtol=0, atol=0.51e-8)
        S = float(np.linalg.norm(b[3]))
        tol = 0.51e-4
        if o["write_spin_angles"]:
            tol = 0.51e-4 * (1 + 2 * S * np.pi / 180)
        c.close(a[3], b[3], f"spin of {a[0]}", rtol=1e-12, atol=tol)
        c.close(a[4], b[4], f"g factor of {a[0]}", rtol=0, atol=0.51e-8)
        c.close(a[5], b[5] or 0.0, f"charge of {a[0]}", rtol=0, atol=0.51e-8)
    c.check(got["notation"] == want["notation"], f"notation {got['notation']} != {want['notation']}")
    for part in ("exchange", "on_site"):
        c.check(
            set(got[part]) == set(want[part]),
            f"{part}: only in one of two {sorted(set(got[part]) ^ set(want[part]), key=str)[:4]}",
        )
        for key, J in want[part].items():
            full = part == "on_site"
            if full and not np.allclose(J, J.T, rtol=0, atol=1e-9):
                # Only symmetric on-site parameters have a meaning (and a format)
                c.close(np.diag(got[part][key]), np.diag(J), f"{part} {key}", rtol=1e-12, atol=0.51e-4)
                continue
            tol = 0.51e-4 if full or not (o["write_iso"] or o["write_symm"] or o["write_dmi"]) else 2.1e-4
            c.close(
                got[part][key], J if full else visible(J, o), f"{part} {key}", rtol=1e-12, atol=tol
            )
    for part, tol in (("spiral_vector", 0.51e-8), ("cone_axis", 1.1e-8)):
        a, b = got[part], want[part]
        c.check((a is None) == (b is None), f"{part}: {a} != {b}")
        if a is not None:
            c.close(a, b, part, rtol=0, atol=tol)


def case(c):
    from magnopy import dump_spinham_txt, load_spinham_txt
    from magnopy.exceptions import NotationError

    rng = c.rng
    h, kind = p14.hamiltonian(c)
    before = oracle.snapshot(h)
    o = {k: gen.chance(rng, 0.5) for k in OPTIONS}
    if not (o["write_matrix"] or o["write_iso"] or o["write_dmi"] or o["write_symm"]):
        o["write_matrix"] = True
    given = {k: v for k, v in o.items() if v != (k == "write_matrix") or gen.chance(rng, 0.3)}
    c.op(kind, given, len(before["atoms"]), len(before["exchange"]), before["notation"])
    path = os.path.join(c.tmp(), gen.pick(rng, ("a.txt", "model", "x y.hdf", "é.txt")))

    if gen.chance(rng, 0.05) and (before["exchange"] or before["on_site"]):
        # The notation is not complete: nothing can be written
        s = gen.spec(rng, n_bonds=3, p_onsite=1)
        bad = gen.build(rng, s, with_notation=False)
        attrs = ["double_counting", "spin_normalized", "exchange_factor", "on_site_factor"]
        skip = int(rng.integers(4))
        for i, attr in enumerate(attrs):
            if i != skip and gen.chance(rng, 0.8):
                setattr(bad, attr, s.notation[i])
        if s.bonds:
            with open(path, "w", encoding="utf-8") as f:
                f.write("precious\n")
            c.raises(NotationError, lambda: dump_spinham_txt(bad, path, **given), "save without notation")
            c.check(files.read(path) == b"precious\n", "refused save destroyed the file")
            c.ev("refused")

    if gen.chance(rng, 0.2) and not os.path.exists(path):
        # Old (longer) content is replaced
        with open(path, "w", encoding="utf-8") as f:
            f.write("cell\n1 0 0\n" * int(rng.integers(1, 2000)))
        c.ev("file is present")
    dump_spinham_txt(h, path, **given)
    d = oracle.difference(before, oracle.snapshot(h))
    c.check(d is None, f"saving changed the Hamiltonian: {d}")
    data = files.read(path)
    if gen.chance(rng, 0.2):
        text = dump_spinham_txt(h, print_if_none=False, **given)
        c.check(
            "\n".join(text).strip().encode() == data.strip()
            or strip_logo("\n".join(text)) == strip_logo(data.decode()),
            "returned text is not the same as the written one",
        )
        c.ev("text returned")
    if gen.chance(rng, 0.1):
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            r = dump_spinham_txt(h, **given)
        c.check(r is None, "text is both printed and returned")
        c.check(strip_logo(out.getvalue()) == strip_logo(data.decode()), "printed text is not the same as the written one")
        c.ev("text printed")
    g = load_spinham_txt(path, save_filtered=gen.chance(rng, 0.1))
    c.check(files.read(path) == data, "loading changed the file")
    after = oracle.snapshot(g)
    compare(c, before, after, o)
    c.ev("round trips")
    c.ev(kind)
    if o["write_spin_angles"]:
        c.ev("spin angles")
        rows = [x.split() for x in data.decode().splitlines()]
        start = next(i for i, x in enumerate(rows) if x[:2] == ["name", "r1"])
        k = rows[start].index("St")
        for x in rows[start + 1 : start + 1 + len(before["atoms"])]:
            if x[k] == "-":
                continue
            c.check(0 <= float(x[k]) <= 180 and 0 <= float(x[k + 1]) <= 360, f"angles of the spin {x[k : k + 2]}")
    if before["exchange"]:
        parts = o["write_iso"] or o["write_dmi"] or o["write_symm"]
        if not o["write_matrix"]:
            c.ev("only parts of parameters")
        elif parts:
            c.ev("matrix and parts")
    c.state((
        sorted(o.items()), len(before["atoms"]), len(before["exchange"]), len(before["on_site"]),
        before["notation"], before["spiral_vector"] is None, before["cone_axis"] is None,
    ))
    # What was printed once is printed in the same way again
    if o["write_matrix"] and not o["write_spin_angles"] and not (
        o["write_iso"] or o["write_dmi"] or o["write_symm"]
    ):
        second = path + "2"
        dump_spinham_txt(g, second, **given)
        compare(c, after, oracle.snapshot(load_spinham_txt(second)), o)
        c.ev("second round trip")
    if gen.chance(rng, 0.2):
        # Other content under the same name
        h.cell = h.cell * float(rng.uniform(0.8, 1.2))
        for a, b, r in [x[:3] for x in h.exchange][:2]:
            h.add_exchange(a, b, r, matrix=gen.matrix(rng))
        for a in [x[0] for x in h.on_site][:2]:
            h.add_on_site(a, matrix=gen.matrix(rng, symmetric=True))
        before = oracle.snapshot(h)
        dump_spinham_txt(h, path, **given)
        compare(c, before, oracle.snapshot(load_spinham_txt(path)), o)
        c.ev("replaced content")


def strip_logo(text):
    """Content without comments (the logo may contain the date)."""
    lines = [x.split("#")[0].strip() for x in text.splitlines()]
    return [x for x in lines if x]
