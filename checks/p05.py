"""Decomposition and arithmetic of the 3x3 parameters."""

import numpy as np

from vlib import gen

PROP = "P05"
QUICK, THOROUGH = 24000, 150000
RULE = (
    "Random sequences of constructions, assignments of parts and arithmetic operations on "
    "one parameter are executed in lock step with a plain 3x3 array; after each of them "
    "the matrix and all its parts are compared and all operands are checked to be "
    "unchanged.  Distinct = distinct (sequence of operations, values)."
)
EXPECT = {"parts judged": 20000, "part assigned": 5000, "operator": 5000, "refused": 500}
ASSUMPTIONS = ["the anisotropic part that is assigned is symmetric and traceless"]

ELEMENTS = [a + b for a in "xyz" for b in "xyz"]


def parts(M):
    iso = np.trace(M) / 3
    symm = (M + M.T) / 2
    asymm = (M - M.T) / 2
    aniso = symm - iso * np.eye(3)
    return iso, symm, asymm, aniso, np.array([asymm[1, 2], asymm[2, 0], asymm[0, 1]])


def from_parts(iso, aniso, dmi):
    return (
        iso * np.eye(3)
        + aniso
        + np.array(
            [[0, dmi[2], -dmi[1]], [-dmi[2], 0, dmi[0]], [dmi[1], -dmi[0], 0]]
        )
    )


def judge(c, p, M, what, tol=1e-12, floor=0.0):
    s = max(float(np.max(np.abs(M))), floor) + 1e-300
    kw = dict(rtol=tol, atol=0, scale=s)
    c.close(p.matrix, M, f"{what}: matrix", **kw)
    iso, symm, asymm, aniso, dmi = parts(M)
    c.close(p.iso, iso, f"{what}: iso", **kw)
    c.close(p.iso_matrix, iso * np.eye(3), f"{what}: iso_matrix", **kw)
    c.close(p.symm_matrix, symm, f"{what}: symmetric part", **kw)
    c.close(p.asymm_matrix, asymm, f"{what}: asymmetric part", **kw)
    c.close(p.aniso, aniso, f"{what}: aniso", **kw)
    c.close(p.aniso_diagonal, np.diag(aniso), f"{what}: diagonal of aniso", **kw)
    c.close(
        p.aniso_diagonal_matrix, np.diag(np.diag(aniso)), f"{what}: aniso_diagonal_matrix", **kw
    )
    c.close(p.dmi, dmi, f"{what}: dmi", **kw)
    c.close(p.dmi_matrix, asymm, f"{what}: dmi_matrix", **kw)
    c.close(p.dmi_module, np.linalg.norm(dmi), f"{what}: dmi_module", **kw)
    if abs(iso) > 1e-3 * s:
        c.close(p.rel_dmi, np.linalg.norm(dmi) / abs(iso), f"{what}: rel_dmi", rtol=1e-8)
    c.close(p.T.matrix, M.T, f"{what}: transposed", **kw)
    for i, name in enumerate(ELEMENTS):
        c.close(getattr(p, name), M[i // 3, i % 3], f"{what}: element {name}", **kw)
    # Sum of the parts, action of the matrix
    c.close(p.iso_matrix + p.aniso + p.dmi_matrix, M, f"{what}: sum of parts", **kw)
    c.close(np.array(p), M, f"{what}: as an array", **kw)
    c.ev("parts judged")


def make_aniso(rng, scale):
    A = gen.matrix(rng, scale, symmetric=True)
    return A - np.trace(A) / 3 * np.eye(3)


def case(c):
    from magnopy import MatrixParameter

    rng = c.rng
    scale = float(10.0 ** rng.uniform(-3, 3))
    # Construction: parts overwrite the corresponding part of the matrix
    M = np.zeros((3, 3))
    kw = {}
    if gen.chance(rng, 0.7):
        M = gen.matrix(rng, scale)
        kw["matrix"] = M.tolist() if gen.chance(rng, 0.3) else M.copy()
    iso, _, _, aniso, dmi = parts(M)
    if gen.chance(rng, 0.4):
        iso = float(rng.normal() * scale) if gen.chance(rng, 0.8) else 0
        kw["iso"] = iso
    if gen.chance(rng, 0.4):
        aniso = make_aniso(rng, scale)
        kw["aniso"] = aniso.copy()
    if gen.chance(rng, 0.4):
        dmi = rng.normal(size=3) * scale * rng.integers(0, 2, 3)
        kw["dmi"] = tuple(dmi)
    if set(kw) - {"matrix"}:
        M = from_parts(iso, aniso, dmi)
    given = kw.get("matrix")
    c.op("construct", sorted(kw))
    p = MatrixParameter(**kw)
    judge(c, p, M, "construction", floor=scale)
    # The parameter does not share memory with the given array
    if isinstance(given, np.ndarray):
        given[0, 1] += 1.0
        judge(c, p, M, "change of the given array", floor=scale)
    for _ in range(int(rng.integers(1, 8))):
        r = rng.random()
        iso, _, _, aniso, dmi = parts(M)
        largest = max(float(np.max(np.abs(M))), scale)
        if r < 0.12:
            iso = float(rng.normal() * scale) if gen.chance(rng, 0.7) else 0
            p.iso = iso
            M = from_parts(iso, aniso, dmi)
            what = "part assigned"
            c.op("iso =", iso)
        elif r < 0.24:
            aniso = make_aniso(rng, scale)
            p.aniso = aniso.tolist()
            M = from_parts(iso, aniso, dmi)
            what = "part assigned"
            c.op("aniso =", aniso.tolist())
        elif r < 0.36:
            dmi = rng.normal(size=3) * scale * rng.integers(0, 2, 3)
            p.dmi = dmi
            M = from_parts(iso, aniso, dmi)
            what = "part assigned"
            c.op("dmi =", dmi.tolist())
        elif r < 0.46:
            i = int(rng.integers(9))
            v = float(rng.normal() * scale)
            setattr(p, ELEMENTS[i], v)
            M = M.copy()
            M[i // 3, i % 3] = v
            what = "element assigned"
            c.op(ELEMENTS[i], "=", v)
        elif r < 0.52:
            M = gen.matrix(rng, scale)
            p.matrix = M
            what = "matrix assigned"
            c.op("matrix =", M.tolist())
        elif r < 0.6:
            bad = gen.pick(
                rng,
                (
                    ("matrix", [[1, 2], [3, 4]]),
                    ("matrix", np.zeros(3)),
                    ("matrix", np.zeros((3, 3, 1))),
                    ("matrix", "xyz"),
                    ("matrix", [[1, 2, 3], [4, 5, 6], [7, 8]]),
                    ("dmi", [1, 2]),
                    ("dmi", np.zeros((3, 3))),
                    ("dmi", "abc"),
                    ("aniso", [1, 2, 3]),
                    ("aniso", np.zeros((2, 2))),
                    ("aniso", "q"),
                ),
            )
            c.op("refused", bad)
            c.raises(ValueError, lambda: setattr(p, *bad), f"assignment of {bad}")
            what = "refused"
        elif r < 0.66:
            N = gen.matrix(rng, scale)
            q = MatrixParameter(N)
            c.check((p == q) == bool(np.array_equal(M, N)), "equality of parameters")
            c.check((p == MatrixParameter(p.matrix)) is not False, "equality with itself")
            c.check(bool(p == p.matrix.tolist()), "equality with an array")
            N = np.array(p.matrix)
            i, j = int(rng.integers(3)), int(rng.integers(3))
            N[i, j] += scale
            c.check(not (p == MatrixParameter(N)), "different parameters are equal")
            c.check(not (p == N), "different parameter and array are equal")
            c.check(p != MatrixParameter(N), "different parameters are not unequal")
            what = "compared"
        else:
            N = gen.matrix(rng, scale)
            q = MatrixParameter(N)
            x = float(gen.pick(rng, (-1, 1)) * 10.0 ** rng.uniform(-2, 2))
            if gen.chance(rng, 0.2):
                x = int(gen.pick(rng, (-3, -1, 1, 2, 5)))
            v = rng.normal(size=3)
            cur = np.array(p.matrix)
            ops = {
                "+": (lambda: p + q, cur + N),
                "-": (lambda: p - q, cur - N),
                "* number": (lambda: p * x, cur * x),
                "number *": (lambda: x * p, cur * x),
                "/ number": (lambda: p / x, cur / x),
                "// number": (lambda: p // x, cur // x),
                "% number": (lambda: p % x, cur % x),
                "neg": (lambda: -p, -cur),
                "pos": (lambda: +p, cur),
                "abs": (lambda: abs(p), np.abs(cur)),
                "T": (lambda: p.T, cur.T),
            }
            name = gen.pick(rng, sorted(ops))
            c.op("operator", name, x)
            res = ops[name][0]()
            c.check(
                isinstance(res, MatrixParameter), f"result of '{name}' is {type(res)}"
            )
            c.check(res is not p and res is not q, f"'{name}' returned its operand")
            c.close(res.matrix, ops[name][1], f"'{name}'", rtol=1e-12, atol=0)
            judge(c, res, np.array(ops[name][1]), f"result of '{name}'")
            # The result is independent from the operands
            if gen.chance(rng, 0.5):
                res.matrix[0, 2] += 1.0
                res.yy = 17.0
            judge(c, p, M, f"operand of '{name}' (it has to stay the same)", floor=largest)
            c.close(q.matrix, N, f"second operand of '{name}'", rtol=0, atol=0)
            c.close(p @ v, cur @ v, "parameter @ vector", rtol=1e-12, scale=scale * 10)
            c.close(v @ p, v @ cur, "vector @ parameter", rtol=1e-12, scale=scale * 10)
            c.close(p @ N, cur @ N, "parameter @ matrix", rtol=1e-12, scale=scale**2 * 10)
            c.close(N @ p, N @ cur, "matrix @ parameter", rtol=1e-12, scale=scale**2 * 10)
            if gen.chance(rng, 0.5):
                c.close(v.tolist() @ p, v @ cur, "list @ parameter", rtol=1e-12, scale=scale * 10)
                c.close(p @ tuple(v), cur @ v, "parameter @ tuple", rtol=1e-12, scale=scale * 10)
                c.close(N.tolist() @ p, N @ cur, "nested list @ parameter", rtol=1e-12, scale=scale**2 * 10)
                same = MatrixParameter(cur)
                c.check(bool(p == same) and not (p != same), "parameter is not equal to the same one")
                c.check(bool(p == cur.tolist()), "parameter is not equal to its matrix")
                i, j = (int(x) for x in rng.integers(0, 3, 2))
                other = cur.copy()
                other[i, j] = np.nextafter(other[i, j], np.inf) + 1e-9 * scale
                other = MatrixParameter(other)
                c.check(not (p == other) and bool(p != other), f"difference in the component {i} {j}")
                digits = int(rng.integers(0, 9))
                shown = [float(x) for x in f"{p:.{digits}f}".split()]
                c.close(np.array(shown).reshape(3, 3), cur, "formatted parameter", rtol=1e-12, atol=0.51 * 10.0**-digits)
                shown = [float(x) for x in str(p).split()]
                c.close(np.array(shown).reshape(3, 3), cur, "printed parameter", rtol=1e-12, atol=0.51e-4)
                c.ev("comparison")
            if gen.chance(rng, 0.3):
                c.raises(TypeError, lambda: p + 1, "sum of the parameter and a number")
                c.raises(TypeError, lambda: p - 1.0, "difference with a number")
                c.ev("refused")
            what = "operator"
        judge(c, p, M, what, tol=1e-11, floor=largest)
        # No accumulation of rounding errors in the shadow
        M = np.array(p.matrix)
        c.ev(what)
        c.state((what, np.round(M / scale, 6).tolist()))
