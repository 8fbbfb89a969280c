"""Files for Vampire describe the same magnet."""

import os

import numpy as np

from vlib import files, gen, history, oracle

PROP = "P20"
QUICK, THOROUGH = 15000, 60000
RULE = (
    "Hamiltonians (random ones and results of random histories, all notations) are exported; "
    "files are parsed by an independent reader of the format of Vampire, couplings of every "
    "pair of spins and moments are compared with the source, headers with the content, the "
    "Hamiltonian with its snapshot; failing exports are injected.  Distinct = distinct (numbers "
    "of atoms and interactions, notation, options)."
)
EXPECT = {
    "UCF files": 2500,
    "interactions": 15000,
    "on-site interactions": 1500,
    "mat files": 1500,
    "complete exports": 300,
    "masked": 300,
    "threshold of the mask": 200,
    "shared materials": 300,
    "refused": 200,
    "after a history": 300,
    "energies": 2500,
    "logo": 800,
    "no logo": 800,
}
ASSUMPTIONS = [
    "Vampire sums -1/2 S_i J_ij S_j over all listed interactions with unit vectors S",
    "atoms that share a material have the same moment",
]
WEIGHTS = dict(
    change_notation=5, add_bond=4, remove_bond=1.5, add_site=2, remove_site=0.7,
    remove_atom=0.8, add_atom=0.8, copy=0.2,
)


def data_lines(text):
    return [x for x in text.splitlines() if x.strip() and not x.lstrip().startswith("#")]


def parse_ucf(c, text):
    L = data_lines(text)
    u = {"size": np.array(L[0].split(), float)}
    u["cell"] = np.array([x.split() for x in L[1:4]], float)
    n, u["materials"] = (int(x) for x in L[4].split())
    u["atoms"] = []
    for x in L[5 : 5 + n]:
        w = x.split()
        u["atoms"].append((int(w[0]), np.array(w[1:4], float), int(w[4])))
    w = L[5 + n].split()
    u["kind"] = w[1]
    rows = [x.split() for x in L[6 + n :]]
    c.check(int(w[0]) == len(rows), f"{w[0]} interactions are announced, {len(rows)} are listed")
    u["rows"] = [
        (int(x[0]), int(x[1]), int(x[2]), tuple(int(y) for y in x[3:6]), np.array(x[6:], float).reshape(3, 3))
        for x in rows
    ]
    return u


def expected(snap, mask):
    """{(i, j, r): J in Joules} for the sum  -1/2 e_i J e_j"""
    K, A = oracle.couplings(snap)
    J = {}
    for (a, b, r), M in K.items():
        m = (b, a, tuple(-x for x in r))
        # one pair of spins enters the sum twice, as ij and as ji
        J[(a, b, r)] = mask(-M * oracle.MEV)
        J[m] = mask(-M.T * oracle.MEV)
    for a, M in A.items():
        J[(a, a, (0, 0, 0))] = mask(-2 * M * oracle.MEV)
    return J


def judge_ucf(c, text, snap, magnetic, materials, mask, decimals):
    u = parse_ucf(c, text)
    c.close(u["cell"], snap["cell"], "vectors of the cell", rtol=0, atol=0.51e-8)
    c.close(u["size"], np.linalg.norm(snap["cell"], axis=1), "size of the cell", rtol=0, atol=0.51e-8)
    pos = {a[:2]: a[2] for a in snap["atoms"]}
    c.check(len(u["atoms"]) == len(magnetic), f"{len(u['atoms'])} atoms")
    mats = materials or list(range(len(magnetic)))
    c.check(u["materials"] == len(set(mats)), f"{u['materials']} materials are announced")
    for i, (x, a) in enumerate(zip(u["atoms"], magnetic)):
        c.check(x[0] == i, f"index {x[0]} of the atom {i}")
        c.close(x[1], pos[a], f"position of {a}", rtol=0, atol=0.51e-8)
        c.check(x[2] == mats[i], f"material {x[2]} of the atom {a}")
    c.check(u["kind"] == "tensorial", f"kind of interactions is {u['kind']}")
    c.check([x[0] for x in u["rows"]] == list(range(len(u["rows"]))), "numbers of interactions")
    exp, got = expected(snap, mask), {}
    full = expected(snap, lambda J: J)
    for _, i, j, r, J in u["rows"]:
        k = (magnetic[i], magnetic[j], r)
        c.check(k not in got, f"interaction {k} is listed twice")
        got[k] = J
    c.check(set(got) == set(exp), f"interactions {sorted(set(got) ^ set(exp), key=str)[:4]}")
    for k, J in exp.items():
        if k[0] == k[1] and k[2] == (0, 0, 0):
            # only the symmetric part contributes to the energy
            tol = 0.51 * 10.0**-decimals * (np.abs(got[k]) + np.abs(got[k].T))
            got[k], J = (got[k] + got[k].T) / 2, (J + J.T) / 2
        else:
            tol = 0.0
        tol = tol + 0.51 * 10.0**-decimals * np.abs(J) + 1e-11 * np.abs(full[k]).max()
        ok = np.all(np.abs(got[k] - J) <= tol)
        c.check(ok, f"interaction {k}: {got[k].tolist()} instead of {J.tolist()}")
        c.ev("interactions")
        if k[0] == k[1] and k[2] == (0, 0, 0):
            c.ev("on-site interactions")
    # Energy of a random arrangement, in which the directions in different cells differ
    e = {}

    def spin(i, r):
        if (i, r) not in e:
            e[(i, r)] = gen.unit(c.rng)
        return e[(i, r)]

    E1 = E2 = s = rounding = 0.0
    for _, i, j, r, J in u["rows"]:
        x, y = spin(magnetic[i], (0, 0, 0)), spin(magnetic[j], r)
        E1 += -0.5 * x @ J @ y
        E2 += -0.5 * x @ exp[(magnetic[i], magnetic[j], r)] @ y
        s += np.abs(full[(magnetic[i], magnetic[j], r)]).max()
        rounding += 1e-14 * np.abs(J).max()
    c.close(E1, E2, "energy", rtol=0, atol=5 * s * 10.0**-decimals + rounding + 1e-40)
    c.ev("energies")
    c.ev("UCF files")


def judge_logo(c, text, kw):
    import magnopy

    shown = f"Version: {magnopy.__version__}" in text
    c.check(shown != bool(kw.get("nologo")), f"logo is {'' if shown else 'not '}written, nologo={kw.get('nologo')}")
    c.check("magnopy" not in text.lower() or shown, "part of the logo is written")
    c.ev("logo" if shown else "no logo")


def judge_mat(c, text, h, materials):
    got = {}
    for x in data_lines(text):
        k, v = x.split("=", 1)
        got[k.strip()] = v.split("!")[0].strip()
    mag = list(h.magnetic_atoms)
    mats = materials or list(range(len(mag)))
    n = int(got.pop("material:num-materials"))
    c.check(n == max(mats) + 1, f"{n} materials are announced")
    seen = {}
    for a, m in zip(mag, mats):
        if m in seen:
            continue
        seen[m] = a
        p = f"material[{m + 1}]:"
        c.check(got.get(p + "material-name") == a.name, f"name of the material {m + 1}")
        c.check(p + "material-element" in got, f"element of the material {m + 1}")
        moment = abs(a.g_factor) * float(np.linalg.norm(a.spin_vector))
        c.close(float(got[p + "atomic-spin-moment"]), moment, f"moment of {a.name}", rtol=1e-9, atol=1e-12)
        d = np.array(got[p + "initial-spin-direction"].split(","), float)
        v = np.array(a.spin_vector)
        c.close(d, v / np.linalg.norm(v), f"direction of {a.name}", rtol=0, atol=1e-7)
    for k in got:
        m = int(k.split("[")[1].split("]")[0]) - 1
        c.check(m in seen, f"unexpected material {m + 1}")
    c.ev("mat files")


def hamiltonian(c):
    rng = c.rng
    if gen.chance(rng, 0.25):
        x = history.History(c)
        for _ in range(int(rng.integers(1, 12))):
            x.step(WEIGHTS)
        if x.h.exchange or x.h.on_site:
            c.ev("after a history")
            return x.h
    while True:
        s = gen.spec(rng)
        if s.bonds or s.onsite:
            break
    return gen.build(rng, s, c)


def case(c):
    from magnopy import dump_mat, dump_ucf, dump_vampire

    rng = c.rng
    h = hamiltonian(c)
    snap = oracle.snapshot(h)
    magnetic = [(a.name, a.index) for a in h.magnetic_atoms]
    materials = None
    if gen.chance(rng, 0.4):
        kinds = int(rng.integers(1, len(magnetic) + 1))
        materials = [int(x) for x in rng.integers(0, kinds, len(magnetic))]
        if gen.chance(rng, 0.5):
            materials[-1] = int(rng.integers(0, len(magnetic)))
        c.ev("shared materials")
    kw, mask = {}, lambda J: J
    if gen.chance(rng, 0.25):
        c.ev("masked")
        r = int(rng.integers(5))
        if r == 4:
            # Small elements are dropped, units of the mask are units of the library
            every = np.abs([M / oracle.MEV for M in expected(snap, mask).values()] or [np.eye(3)]).ravel()
            t = float(gen.pick(rng, every[every > 0] if every.any() else [1.0])) * float(gen.pick(rng, (0.99, 1.01)))
            symmetric = all(np.array_equal(x, x.T) for x in snap["on_site"].values())
            if symmetric and not np.isclose(every, t, rtol=1e-4, atol=0).any():
                mask = lambda J: np.where(np.abs(J) < t * oracle.MEV, 0, J)
                kw["custom_mask"] = lambda J: np.where(np.abs(J) < t, 0, np.array(J))
                c.ev("threshold of the mask")
        elif r == 3:
            p = gen.pick(
                rng,
                (
                    np.eye(3),
                    0.5 * np.ones((3, 3)),
                    np.diag([1, 0, 2.0]),
                    np.triu(np.ones((3, 3))),
                    np.round(rng.normal(size=(3, 3)), 2),
                ),
            )
            if not all(np.array_equal(x, x.T) for x in snap["on_site"].values()):
                p = (p + p.T) / 2  # antisymmetric part of on-site parameters has no meaning
            mask = lambda J: J * p
            kw["custom_mask"] = lambda J: np.array(J) * p
            if gen.chance(rng, 0.5):
                kw["dmi"] = False  # is ignored with the custom mask
        else:
            no_dmi, no_ani = r in (0, 2), r in (1, 2)
            kw.update(dmi=not no_dmi, anisotropic=not no_ani)

            def mask(J):
                iso, A = np.eye(3) * np.trace(J) / 3, (J - J.T) / 2
                S = (J + J.T) / 2 - iso
                return iso + S * (not no_ani) + A * (not no_dmi)

    decimals = 5
    if gen.chance(rng, 0.3):
        decimals = kw["decimals"] = int(gen.pick(rng, (3, 8, 12)))
    if materials is not None:
        kw["materials"] = list(materials)
    if gen.chance(rng, 0.7):
        kw["nologo"] = gen.chance(rng, 0.7)
    mkw = {k: v for k, v in kw.items() if k in ("materials", "nologo")}
    c.op("options", {k: v for k, v in kw.items() if k != "custom_mask"})
    folder = c.tmp()
    os.chdir(folder)
    r = rng.random()

    def old(name):
        # Old (longer) content is replaced
        if gen.chance(rng, 0.3):
            with open(name, "w", encoding="utf-8") as f:
                f.write("1 2 3 4 5\n" * 3000)
            c.ev("file is present")

    if r < 0.4:
        text = dump_ucf(h, **kw)
        judge_ucf(c, text, snap, magnetic, materials, mask, decimals)
        judge_logo(c, text, kw)
        if gen.chance(rng, 0.5):
            text = dump_mat(h, **mkw)
            judge_mat(c, text, h, materials)
            judge_logo(c, text, kw)
        c.check(not os.listdir(folder), "files appeared")
    elif r < 0.7:
        name = gen.pick(rng, ("x.UCF", "a b", "é"))
        old(name)
        old("m.mat")
        dump_ucf(h, filename=name, **kw)
        judge_ucf(c, files.read(name).decode(), snap, magnetic, materials, mask, decimals)
        judge_logo(c, files.read(name).decode(), kw)
        if gen.chance(rng, 0.7):
            dump_mat(h, filename="m.mat", **mkw)
            judge_mat(c, files.read("m.mat").decode(), h, materials)
    elif r < 0.88:
        seed = gen.pick(rng, ("vampire", "x", "sub/y", "a b"))
        os.mkdir("sub")
        if gen.chance(rng, 0.3):
            for x in (seed + ".UCF", seed + ".mat", "input"):
                old(x)
        if seed == "vampire" and gen.chance(rng, 0.5):
            dump_vampire(h, **kw)
        else:
            dump_vampire(h, seedname=seed, **kw)
        want = {"input", seed + ".UCF", seed + ".mat"}
        c.check(set(files.listing(folder)) == want, f"files {sorted(files.listing(folder))}")
        judge_ucf(c, files.read(seed + ".UCF").decode(), snap, magnetic, materials, mask, decimals)
        judge_mat(c, files.read(seed + ".mat").decode(), h, materials)
        pairs = dict(x.split("=", 1) for x in data_lines(files.read("input").decode()))
        pairs = {k.strip(): v.strip() for k, v in pairs.items()}
        c.check(
            pairs == {"material:file": seed + ".mat", "material:unit-cell-file": seed + ".UCF"},
            f"input file {pairs}",
        )
        for name in want:
            judge_logo(c, files.read(name).decode(), kw)
        c.ev("complete exports")
    else:
        # Failing exports
        what = gen.pick(rng, ("no folder", "mask fails", "notation"))
        if what == "no folder":
            fn = gen.pick(rng, (dump_ucf, dump_mat))
            k = kw if fn is dump_ucf else mkw
            c.raises(OSError, lambda: fn(h, filename="no/such/file", **k), "export to a missing folder")
        elif what == "mask fails":
            left = [int(rng.integers(0, len(h.exchange_like)))]

            def bad(J):
                left[0] -= 1
                if left[0] < 0:
                    raise ZeroDivisionError("injected")
                return J

            k = {x: y for x, y in kw.items() if x != "custom_mask"}
            c.raises(ZeroDivisionError, lambda: dump_ucf(h, custom_mask=bad, **k), "mask that fails")
        else:
            from magnopy import SpinHamiltonian
            from magnopy.exceptions import NotationError

            g = SpinHamiltonian(cell=np.array(h.cell))
            for a in h.atoms:
                g.add_atom(a.name, position=np.array(a.position), spin=np.array(a.spin_vector))
            for a, b, R, J in h.exchange:
                g.add_exchange(g.atoms[0], g.atoms[-1], (1, 0, 0), matrix=np.array(J.matrix))
                break
            else:
                g.add_on_site(g.atoms[0], matrix=np.eye(3))
            part = int(rng.integers(3))
            if part == 1 and g.exchange:
                g.double_counting = True
            elif part == 2:
                g.spin_normalized = True
            s0 = oracle.snapshot(g)
            c.raises(NotationError, lambda: dump_ucf(g, **{k: v for k, v in kw.items() if k != "materials"}), "undefined notation")
            d = oracle.difference(s0, oracle.snapshot(g))
            c.check(d is None, f"refused export changed the Hamiltonian: {d}")
        c.check(not os.listdir(folder), f"failed export left {os.listdir(folder)}")
        c.ev("refused")
    d = oracle.difference(snap, oracle.snapshot(h))
    c.check(d is None, f"export changed the Hamiltonian: {d}")
    if materials is not None:
        c.check(kw["materials"] == materials, "list of materials is changed")
    c.state((len(magnetic), len(snap["exchange"]), len(snap["on_site"]), snap["notation"], str(sorted(kw))))
