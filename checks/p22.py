"""Files written by the scripts contain what the library computes."""

import contextlib
import functools
import io
import os
import re
import sys

import numpy as np

from checks import p10, p12, p23
from vlib import files, gen, lswt, oracle

PROP = "P22"
QUICK, THOROUGH = 200, 4000
RULE = (
    "The scripts for minimization of energy and for magnon dispersion are executed (as functions "
    "and from the command line) on files of all formats with random options; written files are "
    "parsed by independent readers, reported states and energies are compared with the results "
    "returned by the library (recorded by hooks) and with the brute-force energy, reported spectra "
    "with the library and with the independent equations of motion.  Distinct = distinct (script, "
    "format, options, number of spins)."
)
EXPECT = {
    "minimizations": 60,
    "reported states": 150,
    "ferro": 40,
    "antiferro": 5,
    "spiral": 20,
    "with field": 20,
    "dispersions": 50,
    "points of dispersions": 2000,
    "points against equations of motion": 150,
    "joined output": 8,
    "custom path": 12,
    "low energies": 10,
    "format against the name": 20,
    "custom points": 8,
    "command line": 50,
    "files are present": 20,
    "curves of the picture": 50,
    "many spins": 1,
    "information about the dispersion": 40,
}
ASSUMPTIONS = [
    "number of iterations of every minimization is limited by the hook (convergence is judged by P10)",
    "lattices for which wulfric does not give the standard cell or the path are not used",
]


@contextlib.contextmanager
def hooked(limit):
    """Limit and record minimizations."""
    from magnopy import Energy

    real, record = Energy.optimize, []

    @functools.wraps(real)
    def optimize(self, *args, **kwargs):
        if len(args) < 4 and kwargs.get("max_iterations") is None:
            kwargs["max_iterations"] = limit
        result = real(self, *args, **kwargs)
        record.append([np.array(x) for x in result])
        return result

    Energy.optimize = optimize
    try:
        yield record
    finally:
        Energy.optimize = real


def reals(text):
    return np.array([float(x) for x in re.findall(r"[-+]?\d+\.?\d*(?:e[-+]?\d+)?", text)])


def command(main, argv):
    old = sys.argv
    sys.argv = ["script"] + [str(x) for x in argv]
    try:
        main()
    finally:
        sys.argv = old


def save(c, h, folder, binary=False):
    """File with the Hamiltonian, arguments for the script and the loaded Hamiltonian."""
    from magnopy import dump_spinham_hdf5, dump_spinham_txt, load_spinham

    rng = c.rng
    if gen.chance(rng, 0.5) and not binary:
        fmt, name = "txt", gen.pick(rng, ("m.txt", "model", "a b.txt", "m.hdf5", "x_exchange.out"))
        path = os.path.join(folder, name)
        dump_spinham_txt(h, path)
    else:
        fmt, name = "hdf5", gen.pick(rng, ("m.hdf5", "x.txt.hdf5", "model", "m.txt"))
        path = os.path.join(folder, name)
        dump_spinham_hdf5(h, path, groupname=gen.pick(rng, ("spinham", "a/b")))
    plain = "hdf5" if name.endswith(".hdf5") else "tb2j" if name.endswith("exchange.out") else "txt"
    given = fmt if gen.chance(rng, 0.3) or plain != fmt else None
    if plain != fmt:
        c.ev("format against the name")
    return path, given


def loaded(path, fmt):
    from magnopy import load_spinham

    return load_spinham(path, spinham_format=fmt)


def numbers(text):
    return np.array([float(x) for x in text.split()])


def parse_results(c, text, n):
    """[(names, positions, spins, axis, q)], energies"""
    L = text.splitlines()
    blocks, i = [], 0
    summary = None
    while i < len(L):
        w = L[i].split()
        if w == ["name", "r1", "r2", "r3", "sx", "sy", "sz"]:
            rows = [x.split() for x in L[i + 1 : i + 1 + n]]
            c.check(all(len(r) == 7 for r in rows), f"lines of spins {rows}")
            a = np.array([r[1:] for r in rows], float)
            blocks.append([[r[0] for r in rows], a[:, :3], a[:, 3:], None, None])
            i += n
        elif L[i].startswith("Cone axis is:"):
            blocks[-1][3] = numbers(L[i].split(":")[1])
        elif L[i].startswith("Spiral vector is:"):
            blocks[-1][4] = numbers(L[i].split(":")[1])
        elif "Summary" in L[i]:
            summary = L[i + 1 :]
            break
        i += 1
    c.check(summary is not None, "no summary in the results")
    energies, anti = {}, None
    for x in summary:
        if x.startswith("Ferromagnetic energy"):
            energies["ferro"] = [float(x.split(":")[1])]
            anti = None
        elif x.startswith("Spiral energy"):
            energies["spiral"] = [float(x.split(":")[1])]
            anti = None
        elif x.startswith("Antiferromagnetic energies"):
            anti = energies["antiferro"] = []
        elif anti is not None and x.strip():
            j, e = x.split()
            anti.append(float(e))
            c.check(int(j) == len(anti), f"number {j} of the energy {len(anti)}")
    return blocks, energies


def minimization(c):
    from magnopy.score import minimize_energy

    rng = c.rng
    made = p10.make(c)
    if made is None:
        return
    folder = c.tmp()
    os.chdir(folder)
    os.mkdir("in")
    path, fmt = save(c, made[1], "in")
    h = loaded(path, fmt)
    snap = oracle.snapshot(h)
    lat = oracle.Lattice(snap)
    n = len(lat.magnetic)
    if not snap["exchange"]:
        return  # notation of the absent exchange is not saved
    rec = oracle.reciprocal(snap["cell"])
    if np.linalg.det(snap["cell"]) < 0:
        rec = -rec  # convention of wulfric
    r = rng.random()
    if r < 0.12:
        kinds, asked = ["ferro", "antiferro", "spiral"], gen.pick(rng, (None, ["all"], "all"))
    elif r < 0.22:
        kinds = asked = ["antiferro"]
    elif r < 0.7:
        kinds = asked = ["ferro"]
    elif r < 0.85:
        kinds = asked = ["spiral"]
    else:
        kinds = asked = gen.pick(rng, (["ferro", "spiral"], ["spiral", "ferro"]))
    field = gen.unit(rng) * float(rng.uniform(0.5, 20)) if gen.chance(rng, 0.4) else None
    if field is not None:
        field = np.round(field, 6)
        c.ev("with field")
    seed = gen.pick(rng, (None, "x", "out/y", os.path.join(folder, "z"), "a b"))
    os.mkdir("out")
    data = files.listing(folder)
    if gen.chance(rng, 0.25):
        # Old (longer) results are replaced
        with open(("minim" if seed is None else seed) + "-results", "w", encoding="utf-8") as f:
            f.write("Ferromagnetic energy : 1.0\n" * 5000)
        c.ev("files are present")
    limit = 8 if "antiferro" in kinds else 40
    c.op("minimize", path, fmt, asked, field, seed)
    np.random.seed(int(rng.integers(2**31)))
    cli = gen.chance(rng, 0.5)
    with hooked(limit) as record:
        if cli:
            argv = [gen.pick(rng, ("-sh", "--spinham")), path]
            if fmt is not None:
                argv += [gen.pick(rng, ("-shf", "--spinham-format")), fmt]
            if asked is not None and asked != "all":
                argv += [gen.pick(rng, ("-gst", "--ground-state-type"))] + asked
            if field is not None:
                argv += [gen.pick(rng, ("-mf", "--magnetic-field"))] + [f"{x:.6f}" for x in field]
            if seed is not None:
                argv += [gen.pick(rng, ("-os", "--output-seedname")), seed]
            command(minimize_energy.main, argv)
            c.ev("command line")
        else:
            kw = {}
            if fmt is not None:
                kw["spinham_format"] = fmt
            if asked is not None:
                kw["ground_state_type"] = asked
            if field is not None:
                kw["magnetic_field"] = field
            if seed is not None:
                kw["output_seedname"] = seed
            minimize_energy.manager(path, **kw)
    seed = "minim" if seed is None else os.path.relpath(os.path.join(folder, seed), folder)
    have = files.listing(folder)
    for k, v in data.items():
        c.check(have.pop(k, None) == v, f"file {k} is changed")
    qs = [(i, j, k) for i in (-1, 0, 1) for j in (-1, 0, 1) for k in (-1, 0, 1)]
    want = {seed + "-results"}
    jobs = []
    for kind in kinds:
        if kind == "antiferro":
            for number, q in enumerate(qs):
                if q != (0, 0, 0):
                    jobs.append((kind, f"{seed}-antiferro-history-{number + 1}", np.array(q) @ rec / 2))
        else:
            jobs.append((kind, f"{seed}-{kind}-history", None))
    want |= {j[1] for j in jobs}
    c.check(set(have) == want, f"files: {sorted(set(have) ^ want)[:4]}")
    blocks, energies = parse_results(c, have[seed + "-results"].decode(), n)
    c.check(len(blocks) == len(jobs), f"{len(blocks)} states are reported, {len(jobs)} are expected")
    c.check(len(record) == len(jobs), f"{len(record)} minimizations instead of {len(jobs)}")
    c.check(list(energies) == kinds, f"energies of {list(energies)} are reported")
    reported = [e for k in kinds for e in energies[k]]
    c.check(len(reported) == len(jobs), f"{len(reported)} energies are reported")
    pos = {a[:2]: a[2] for a in snap["atoms"]}
    scale = lat.scale + (
        0
        if field is None
        else 0.06 * np.linalg.norm(field) * sum(abs(lat.g[a]) * lat.spins[a] for a in lat.magnetic)
    )
    digits = 0.51e-8
    for (kind, history, q), (names, P, e, axis, Q), result, E in zip(jobs, blocks, record, reported):
        c.check(names == [a[0] for a in lat.magnetic], f"names {names}")
        c.close(P, np.array([pos[a] for a in lat.magnetic]), "positions", rtol=0, atol=digits)
        c.close(e, result[0], f"spins of the {kind} state", rtol=0, atol=digits)
        if kind == "ferro":
            c.check(axis is None and Q is None, "cone axis of the ferromagnetic state")
            true = lat.energy(result[0], field)
        else:
            c.close(axis, result[1], "cone axis", rtol=0, atol=digits)
            c.close(Q, q if kind == "antiferro" else result[2], "spiral vector", rtol=0, atol=1e-7)
            phases = (0.0, np.pi) if kind == "antiferro" else 2 * np.pi * np.arange(3) / 3
            qq = q if kind == "antiferro" else result[2]
            true = np.mean(
                [lat.energy(result[0], field, result[1], lambda R: p + qq @ (R @ snap["cell"])) for p in phases]
            )
        c.close(E, true, f"energy of the {kind} state", rtol=0, atol=digits + 1e-9 * scale)
        lines = [x for x in have[history].decode().splitlines() if x.strip()]
        c.check(lines[0].split()[0] == "Energy", f"header of {history}")
        last = numbers(lines[-1])
        c.close(last[0], true, f"last energy in {history}", rtol=1e-7, atol=1e-7)
        c.ev("reported states")
        c.ev(kind)
    c.ev("minimizations")
    c.state(("minimization", str(asked), fmt, n, field is None, cli))


def dispersion(c):
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    from matplotlib.figure import Figure

    from magnopy import MagnonDispersion
    from magnopy.score import magnon_dispersion

    rng = c.rng
    for _ in range(20):
        s = p12.heisenberg(c) if gen.chance(rng, 0.3) else p12.model(c, 1.0, many=0.2)
        _, s.cell = p23.cell(rng)
        # avoid very short cells: rounding of wave vectors matters there
        if p23.standard(s.cell) is not None and np.linalg.norm(s.cell, axis=1).min() > 0.8:
            break
    else:
        return
    for b, J in s.bonds.items():
        s.bonds[b] = np.clip(J, -50, 50)
    weak = gen.chance(rng, 0.2)
    if weak:
        # Low energies need all digits
        x = 10.0 ** rng.uniform(-6, -3)
        s.bonds = {b: J * x for b, J in s.bonds.items()}
        s.onsite = {a: A * x for a, A in s.onsite.items()}
        c.ev("low energies")
    h = gen.build(rng, s, c)
    folder = c.tmp()
    os.chdir(folder)
    os.mkdir("in")
    path, fmt = save(c, h, "in", binary=weak)
    h = loaded(path, fmt)
    orig = oracle.snapshot(h)
    if p23.standard(orig["cell"]) is None or not orig["exchange"]:
        return
    try:
        h.standardize()
        kp = h.kpoints
        kp.points()
        if not kp.path:
            return
    except Exception:
        return  # limitation of wulfric, lattice without a path
    kw, argv = {}, []
    points, route = None, None
    if gen.chance(rng, 0.35):
        points = []
        for name in ("QQ", "U7x", "T1", "AB")[: int(rng.integers(1, 5))]:
            x = np.round(rng.uniform(-1, 1, 3), 3)
            points += [name, "$" + name + "$", *[str(float(y)) for y in x]]
            kp.add_hs_point(name=name, coordinates=[float(y) for y in x], label="$" + name + "$")
        kw["k_points"] = points
        argv += [gen.pick(rng, ("-kps", "--k-points"))] + points
        c.ev("custom points")
    if points is not None or gen.chance(rng, 0.3):
        names = [x for x in kp.hs_names]
        k = min(len(names), int(rng.integers(2, 5)))
        route = "-".join(str(x) for x in rng.choice(names, k, replace=False))
        if k == 4 and gen.chance(rng, 0.5):
            p = route.split("-")
            route = f"{p[0]}-{p[1]}|{p[2]}-{p[3]}"
        kp.path = route
        kw["k_path"] = route
        argv += [gen.pick(rng, ("-kp", "--k-path")), route]
        c.ev("custom path")
    seed = gen.pick(rng, (None, "disp", "new/folder/d", "out/", os.path.join(folder, "z")))
    if seed is not None:
        kw["output_seedname"] = seed
        argv += [gen.pick(rng, ("-os", "--output-seedname")), seed]
    txt, join = gen.chance(rng, 0.85), gen.chance(rng, 0.35)
    if txt:
        kw["save_txt"] = True
        argv += [gen.pick(rng, ("-st", "--save-txt"))]
    if join:
        kw["join_output"] = True
        argv += [gen.pick(rng, ("-jo", "--join-output"))]
    if fmt is not None:
        kw["spinham_format"] = fmt
        argv += ["-shf", fmt]
    if gen.chance(rng, 0.3):
        kw["verbose"] = True
        argv += ["-v"]
    c.op("dispersion", path, kw)
    data = files.listing(folder)
    old_files = gen.chance(rng, 0.25)
    # A name without a folder is placed beside the input
    if seed is None:
        base = "in/dispersion"
    elif seed == "disp":
        base = "in/disp"
    elif seed == "out/":
        base = "out/dispersion"
    else:
        base = os.path.relpath(os.path.join(folder, seed), folder)
    if old_files:
        # Old (longer) files are replaced
        os.makedirs(os.path.dirname(base) or ".", exist_ok=True)
        for x in (".txt", "_data.txt", "_info.txt", ".png"):
            if x == ".png" or txt and join == (x == ".txt"):
                with open(base + x, "w", encoding="utf-8") as f:
                    f.write("1 2 3\n" * 50000)
        c.ev("files are present")
    real = Figure.savefig

    pictures = []

    def savefig(self, *args, **kwargs):
        # contents of the picture are recorded; high resolution takes most of the time
        kwargs["dpi"] = 20
        for ax in self.axes:
            curves = [np.array(x.get_xydata(), dtype=float) for x in ax.lines]
            ticks = [float(x) for x in ax.get_xticks()]
            labels = [x.get_text() for x in ax.get_xticklabels()]
            pictures.append((curves, ticks, labels, ax.get_xlim()))
        return real(self, *args, **kwargs)

    Figure.savefig = savefig
    cli = gen.chance(rng, 0.5)
    try:
        if cli:
            command(magnon_dispersion.main, ["-sh", path] + argv)
            c.ev("command line")
        else:
            magnon_dispersion.manager(path, **kw)
    finally:
        Figure.savefig = real
        plt.close("all")
    have = files.listing(folder)
    for k, v in data.items():
        c.check(have.pop(k, None) == v, f"file {k} is changed")
    want = {base + ".png"}
    if txt:
        want |= {base + ".txt"} if join else {base + "_data.txt", base + "_info.txt"}
    c.check(set(have) == want, f"files {sorted(have)} instead of {sorted(want)}")
    c.check(have[base + ".png"][:4] == b"\x89PNG", "picture is not a picture")
    c.ev("dispersions")
    c.check(len(pictures) == 1, f"{len(pictures)} plots in the picture")
    curves, ticks, labels, limits = pictures[0]
    flat, kabs = np.array(kp.flatten_points()), np.array(kp.points(relative=False))
    c.check(len(curves) == len(h.magnetic_atoms), f"{len(curves)} curves for {len(h.magnetic_atoms)} spins")
    c.close(ticks, np.array(kp.ticks()), "ticks of the picture", rtol=0, atol=1e-9)
    c.check(labels == [str(x) for x in kp.labels], f"labels of the picture {labels} instead of {kp.labels}")
    c.close(limits, np.array([flat[0], flat[-1]]), "limits of the picture", rtol=0, atol=1e-9)
    md = MagnonDispersion(h)
    some = [int(i) for i in rng.choice(len(flat), min(len(flat), 20), replace=False)]
    exact = np.array([md.omega(kabs[i]) for i in some]).T
    for n, curve in enumerate(curves):
        c.check(len(curve) == len(flat), f"{len(curve)} points in the curve {n}")
        c.close(curve[:, 0], flat, "coordinate in the picture", rtol=0, atol=1e-9)
        c.close(curve[some, 1], exact[n], f"energies in the picture ({n})", rtol=1e-7, atol=1e-7 * (1 + np.abs(exact).max()))
        c.ev("curves of the picture")
    if len(curves) > 6:
        c.ev("many spins")
    c.state(("dispersion", fmt, seed, txt, join, route is None, points is None, len(h.magnetic_atoms)))
    if not txt:
        return
    text = have[base + (".txt" if join else "_data.txt")].decode()
    info = text if join else have[base + "_info.txt"].decode()
    c.check(os.path.abspath(path) in info, "name of the input in the output")
    found = [x for x in info.splitlines() if x.strip() == kp.path_string]
    c.check(len(found) == 1, f"path {kp.path_string} in the output")
    c.check(join or os.path.abspath(base + "_data.txt") in info, "name of the file with data in the output")
    v = info[info.index("Cell:") : info.index("Detected")]
    v = numbers("".join(x if x in "0123456789+-.e" else " " for x in v[5:]))
    c.check(len(v) == 9, f"cell in the output {v}")
    c.close(v.reshape(3, 3), np.array(h.cell), "cell in the output", rtol=1e-6, atol=1e-7)
    v = info[info.index("klabels") : info.index("dispersion\n")].replace("float64", "")
    c.close(reals(v), np.array(kp.ticks()), "positions of the labels in the output", rtol=0, atol=1e-6)
    v = info[info.index("kpoints\n") : info.index("klabels")].replace("float64", "")
    want = np.concatenate([np.array(kp.hs_coordinates[x], dtype=float) for x in kp.hs_names])
    c.close(reals(v), want, "high-symmetry points in the output", rtol=0, atol=1e-6)
    c.ev("information about the dispersion")
    if join:
        c.ev("joined output")
        text = text[text.index("k_z (abs)") + len("k_z (abs)") :]
    rows = [numbers(x) for x in text.splitlines() if x.strip() and not x.startswith("#")]
    N = len(h.magnetic_atoms)
    c.check(all(len(r) == 7 + N for r in rows), f"numbers of columns {[len(r) for r in rows][:3]}")
    D = np.array(rows)
    coord, omega, rel, ab = D[:, 0], D[:, 1 : 1 + N], D[:, 1 + N : 4 + N], D[:, 4 + N :]
    krel, kabs = np.array(kp.points(relative=True)), np.array(kp.points(relative=False))
    c.check(len(D) == len(kabs), f"{len(D)} points instead of {len(kabs)}")
    c.close(rel, krel, "relative wave vectors", rtol=0, atol=1e-7)
    c.close(ab, kabs, "absolute wave vectors", rtol=0, atol=1e-7)
    c.close(coord, np.array(kp.flatten_points()), "coordinate along the path", rtol=0, atol=1e-7)
    rec = oracle.reciprocal(np.array(h.cell))
    if np.linalg.det(np.array(h.cell)) < 0:
        rec = -rec
    c.close(ab, rel @ rec, "absolute and relative wave vectors", rtol=0, atol=1e-6)
    W = lswt.Waves(orig)
    md = MagnonDispersion(h)
    top = max(float(np.abs(omega).max()), W.lat.scale / float(W.S.min()))
    picked = rng.choice(len(D), min(len(D), 40), replace=False)
    for i in picked:
        i = int(i)
        c.close(omega[i], np.array(md.omega(kabs[i])), f"energies at the point {i}", rtol=0, atol=1e-7 * top)
        c.ev("points of dispersions")
    for i in picked[:8]:
        H, margin, negative, ev, _, big = W.omega(kabs[int(i)])
        if margin * big > 1e-3 * top:
            # wave vectors of wulfric are rounded at the level of the accuracy of the lattice
            c.close(
                omega[int(i)], np.sort(ev.real)[N:][::-1], f"equations of motion at {i}", rtol=0, atol=1e-5 * top + 2e-8
            )
            c.ev("points against equations of motion")


def case(c):
    with contextlib.redirect_stdout(io.StringIO()):
        if gen.chance(c.rng, 0.5):
            minimization(c)
        else:
            dispersion(c)
