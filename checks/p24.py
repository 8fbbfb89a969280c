"""Operations with wrong arguments are refused with an error and change nothing."""

import os

import numpy as np

from checks import p10
from vlib import gen, history, oracle

PROP = "P24"
QUICK, THOROUGH = 6000, 60000
RULE = (
    "Random histories of legal operations on Hamiltonians, energies, dispersions and parameters "
    "are interrupted by operations with wrong arguments.  Each has to raise an error of the "
    "documented type; snapshots (exact) before and after it are compared; the following legal "
    "operations are judged against the shadow model that never saw the refused ones.  Distinct = "
    "distinct (refused operation, state)."
)
EXPECT = {
    "refused: hamiltonian": 8000,
    "refused: new atom": 800,
    "refused: ambiguous name": 300,
    "refused: energy": 1500,
    "refused: optimize": 800,
    "refused: undefined notation": 500,
    "refused: parameter": 1500,
    "legal operations after": 2000,
    "optimizations after": 100,
}
ASSUMPTIONS = [
    "zero factors of the notation and zero spins are not given",
    "objects of wrong types in place of the atoms and parameters are not given",
]

WRONG3 = (
    [1.0, 2.0],
    [1.0, 2.0, 3.0, 4.0],
    [[1.0, 2.0, 3.0]],
    "abc",
    5.0,
    [1.0, "x", 2.0],
    [],
    np.zeros((3, 3)),
    {"x": 1},
    [1.0, [2.0], 3.0],
)
WRONG33 = (
    [1.0, 2.0, 3.0],
    np.zeros((3, 2)),
    np.zeros((2, 3)),
    np.zeros((4, 4)),
    np.zeros((1, 3, 3)),
    "abc",
    7.0,
    [[1, 2], [3]],
    [],
)
NOTATIONS = (
    "unknown",
    "",
    "magnopy ",
    "mag",
    "tb",
    "spinwave",
    "my vampire",
    (True,),
    (True, False),
    (True, False, 1.0, 1.0, 1.0),
    (),
    5,
    1.5,
    (True, False, "x"),
    (False, True, 1.0, "x"),
    (True, True, "x", 2.0),
    (False, False, 2.0, [1.0, 2.0]),
)
ERR = (ValueError, KeyError, TypeError)


class Raised(Exception):
    pass


def refused(c, h, exc, fn, what):
    before = oracle.snapshot(h)
    c.op("refused", what)
    c.raises(exc, fn, what)
    d = oracle.difference(before, oracle.snapshot(h))
    c.check(d is None, f"refused operation '{what}' changed the Hamiltonian: {d}")
    order = [x[0] for x in before["atoms"]]
    c.check(order == [a.name for a in h.atoms], f"refused operation '{what}' changed the atoms")
    c.ev("refused: hamiltonian")
    c.state((what, before["notation"], len(before["exchange"]), len(before["on_site"])))


def put(obj, name, value):
    return lambda: setattr(obj, name, value)


def wrong(c, h, removed):
    """One wrong operation on the Hamiltonian."""
    from wulfric import Atom

    from magnopy import MatrixParameter

    rng = c.rng
    names = [a.name for a in h.atoms]
    unknown = gen.pick(rng, ["Qq", "", names[0] + "z", *sorted(removed)])
    if unknown in names:
        unknown = "Qq"
    known = gen.pick(rng, names)
    atom = h.get_atom(known)
    ref = known if gen.chance(rng, 0.5) else atom
    ijk = gen.ijk(rng)
    p = MatrixParameter(gen.matrix(rng))
    far = (91, -92, 93)
    stranger = Atom("Qq", position=(0.1, 0.2, 0.3), spin=1.0, index=999999)
    new = Atom("Ww", position=(0.1, 0.2, 0.3), spin=1.0)
    if gen.chance(rng, 0.5):
        new.index = 777777
    r = int(rng.integers(26))
    pair = [unknown, ref] if gen.chance(rng, 0.5) else [ref, unknown]
    if r == 0:
        refused(c, h, ValueError, lambda: h.add_exchange(*pair, ijk, p), "add_exchange, unknown name")
    elif r == 1:
        refused(c, h, ValueError, lambda: h.__setitem__((*pair, ijk), p), "h[...] =, unknown name")
    elif r == 2:
        refused(c, h, ValueError, lambda: h.add_on_site(unknown, p), "add_on_site, unknown name")
    elif r == 3:
        refused(c, h, ValueError, lambda: h.__setitem__(unknown, p), "h[atom] =, unknown name")
    elif r == 4:
        kw = gen.chance(rng, 0.5)
        refused(
            c,
            h,
            ValueError,
            lambda: h.remove_exchange(*pair, ijk, raise_if_no_bond=kw),
            "remove_exchange, unknown name",
        )
        refused(
            c,
            h,
            ValueError,
            lambda: h.remove_on_site(unknown, raise_if_no_bond=kw),
            "remove_on_site, unknown name",
        )
    elif r == 5:
        refused(c, h, ValueError, lambda: h.__getitem__((*pair, ijk)), "h[...], unknown name")
        refused(c, h, ValueError, lambda: h.__getitem__(unknown), "h[atom], unknown name")
        refused(c, h, ValueError, lambda: h.__delitem__((*pair, ijk)), "del h[...], unknown name")
        refused(c, h, ValueError, lambda: h.__delitem__(unknown), "del h[atom], unknown name")
    elif r == 6:
        refused(c, h, ValueError, lambda: h.remove_atom(unknown), "remove_atom, unknown name")
    elif r == 7:
        refused(c, h, ValueError, lambda: h.remove_atom(stranger), "remove_atom, atom from outside")
    elif r == 8:
        refused(c, h, KeyError, lambda: h.remove_exchange(ref, ref, far), "remove_exchange, no bond")
        refused(c, h, KeyError, lambda: h.__delitem__((ref, ref, far)), "del h[...], no bond")
        refused(c, h, KeyError, lambda: h.__getitem__((ref, ref, far)), "h[...], no bond")
    elif r == 9:
        x = [stranger, ref] if gen.chance(rng, 0.5) else [ref, stranger]
        refused(c, h, KeyError, lambda: h.remove_exchange(*x, ijk), "remove_exchange, atom from outside")
        refused(c, h, KeyError, lambda: h.__getitem__((*x, ijk)), "h[...], atom from outside")
    elif r == 10:
        have = [a.name for a, _ in h.on_site]
        free = [n for n in names if n not in have]
        x = stranger
        if free and gen.chance(rng, 0.8):
            x = gen.pick(rng, free)
            x = x if gen.chance(rng, 0.5) else h.get_atom(x)
        refused(c, h, KeyError, lambda: h.remove_on_site(x), "remove_on_site, no parameter")
        refused(c, h, KeyError, lambda: h.__delitem__(x), "del h[atom], no parameter")
        refused(c, h, KeyError, lambda: h.__getitem__(x), "h[atom], no parameter")
    elif r == 11:
        key = gen.pick(rng, (5, None, (known,), (known, known), (known, known, (0, 0, 1), 1), 2.5, ()))
        refused(c, h, KeyError, lambda: h.__getitem__(key), "h[wrong key]")
        refused(c, h, KeyError, lambda: h.__setitem__(key, p), "h[wrong key] =")
        refused(c, h, KeyError, lambda: h.__delitem__(key), "del h[wrong key]")
        refused(c, h, KeyError, lambda: key in h, "wrong key in h")
    elif r in (12, 13):
        n = gen.pick(rng, NOTATIONS)
        refused(c, h, ERR, put(h, "notation", n), f"notation = {n!r}")
    elif r == 14:
        x = gen.pick(rng, ("x", None, [1.0, 2.0], {}))
        name = gen.pick(rng, ("exchange_factor", "on_site_factor"))
        refused(c, h, ERR, put(h, name, x), f"{name} = {x!r}")
    elif r in (15, 16):
        name = gen.pick(rng, ("spiral_vector", "cone_axis"))
        x = gen.pick(rng, WRONG3)
        refused(c, h, ValueError, put(h, name, x), f"{name} = {x!r}")
    elif r == 17:
        refused(c, h, ValueError, put(h, "cone_axis", gen.pick(rng, ([0, 0, 0], np.zeros(3)))), "cone_axis = 0")
    elif r == 18:
        # The filter fails at the n-th parameter
        kw = {}
        if gen.chance(rng, 0.4):
            kw["max_distance"] = float(rng.uniform(1, 30))
        if gen.chance(rng, 0.4):
            kw["min_distance"] = float(rng.uniform(0, 10))
        calls = []
        h.filtered(custom_filter=lambda p: calls.append(1) or True, **kw)
        n = len(calls)
        if n == 0:
            return
        count = [int(rng.integers(n))]

        def bad(p):
            count[0] -= 1
            if count[0] < 0:
                raise Raised
            return gen.chance(rng, 0.5)

        if gen.chance(rng, 0.5):
            refused(c, h, Raised, lambda: h.filter(custom_filter=bad, **kw), "filter that fails")
        else:
            refused(c, h, Raised, lambda: h.filtered(custom_filter=bad, **kw), "filtered that fails")
    elif r in (19, 20):
        # New atom together with something wrong
        other = gen.pick(rng, (unknown, stranger_name(names)))
        x = [new, other] if gen.chance(rng, 0.5) else [other, new]
        k = int(rng.integers(6))
        c.ev("refused: new atom")
        if k == 0:
            refused(c, h, ValueError, lambda: h.add_exchange(*x, ijk, p), "new atom and unknown name")
        elif k == 1:
            refused(c, h, ValueError, lambda: h.__setitem__((*x, ijk), p), "new atom and unknown name, []")
        elif k == 2:
            x = [new, ref] if gen.chance(rng, 0.5) else [ref, new]
            m = gen.pick(rng, WRONG33)
            refused(
                c, h, ValueError, lambda: h.add_exchange(*x, ijk, matrix=m), "new atom and wrong matrix"
            )
        elif k == 3:
            x = [new, ref] if gen.chance(rng, 0.5) else [ref, new]
            q = gen.pick(rng, ((1, 2), (1, 2, 3, 4), (), 5, "abc", ("a", 0, 0), (0, 0, None)))
            refused(c, h, ERR, lambda: h.add_exchange(*x, q, p), f"new atom and ijk {q}")
        elif k == 4:
            # Wrong types
            err = (*ERR, AttributeError)
            what = gen.pick(rng, ("atom", "ijk", "parameter"))
            x, q, y = [new, ref], ijk, p
            if what == "atom":
                x[1] = gen.pick(rng, (5, None, 2.5, (0, 0, 0), Raised))
            elif what == "ijk":
                q = gen.pick(rng, (list(ijk), np.array(ijk)))
            else:
                y = gen.pick(rng, (5, "abc", [1.0, 2.0], (1.0, 0.0)))
            x = x if gen.chance(rng, 0.5) else x[::-1]
            refused(c, h, err, lambda: h.add_exchange(*x, q, y), f"new atom and wrong type of {what}")
        else:
            m = gen.pick(rng, WRONG33)
            refused(c, h, ValueError, lambda: h.add_on_site(new, matrix=m), "on-site, new atom and wrong matrix")
    elif r == 21:
        kw = gen.pick(
            rng,
            (
                dict(matrix=gen.pick(rng, WRONG33)),
                dict(aniso=gen.pick(rng, WRONG33)),
                dict(dmi=gen.pick(rng, WRONG3)),
                dict(iso="x"),
                dict(unknown=1),
            ),
        )
        stored = [(a, b, q) for a, b, q, _ in h.exchange]
        if stored and gen.chance(rng, 0.7):
            bond = gen.pick(rng, stored)
        else:
            bond = (ref, known, far)
        refused(c, h, ERR, lambda: h.add_exchange(*bond, **kw), f"add_exchange, {kw}")
        refused(c, h, ERR, lambda: h.add_on_site(ref, **kw), f"add_on_site, {kw}")
    elif r == 22:
        q = gen.pick(rng, ((1, 2), (1, 2, 3, 4), (), 5, None, "abc", ("a", 0, 0), (0, 0, None)))
        refused(c, h, ERR, lambda: h.add_exchange(ref, known, q, p), f"add_exchange, ijk {q}")
    elif r == 23:
        refused(c, h, (ValueError, TypeError), lambda: h.add_atom(atom), "add_atom, the same atom")
    elif r == 24:
        # Two atoms with the same name
        h2 = h.copy()
        h2.add_atom(Atom(known, position=(0.4, 0.3, 0.2), spin=1.0, index=555555))
        x = [known, gen.pick(rng, names)]
        if gen.chance(rng, 0.5):
            x = x[::-1]
        for what, fn in (
            ("add_exchange", lambda: h2.add_exchange(*x, ijk, p)),
            ("add_exchange with a new atom", lambda: h2.add_exchange(new, known, ijk, p)),
            ("add_on_site", lambda: h2.add_on_site(known, p)),
            ("remove_exchange", lambda: h2.remove_exchange(*x, ijk)),
            ("remove_on_site", lambda: h2.remove_on_site(known)),
            ("remove_atom", lambda: h2.remove_atom(known)),
            ("h[...]", lambda: h2[(*x, ijk)]),
            ("h[atom]", lambda: h2[known]),
        ):
            refused(c, h2, ValueError, fn, "ambiguous name: " + what)
            c.ev("refused: ambiguous name")
    elif r == 25:
        # Given arrays are not the arrays of the Hamiltonian
        v = rng.uniform(-1, 1, 3)
        h2 = h.copy()
        name = gen.pick(rng, ("spiral_vector", "cone_axis"))
        setattr(h2, name, v)
        before = oracle.snapshot(h2)
        v += 1
        d = oracle.difference(before, oracle.snapshot(h2))
        c.check(d is None, f"{name} is changed together with the given array: {d}")


def stranger_name(names):
    x = "Q"
    while x in names:
        x += "Q"
    return x


WEIGHTS = {
    "change_notation": 4,
    "add_bond": 5,
    "remove_bond": 2,
    "add_site": 2,
    "remove_site": 1,
    "remove_atom": 1,
    "add_atom": 1,
    "copy": 1,
}


def hamiltonian(c):
    rng = c.rng
    H = history.History(c)
    for _ in range(int(rng.integers(2, 7))):
        for _ in range(int(rng.integers(1, 4))):
            wrong(c, H.h, H.removed)
        what = H.step(WEIGHTS)
        if what is not None:
            H.judge(what)
            c.ev("legal operations after")


def undefined(c):
    """Notation that is not (completely) defined."""
    from magnopy import Energy
    from magnopy.exceptions import NotationError

    rng = c.rng
    s = gen.spec(rng)
    h = gen.build(rng, s, with_notation=False)
    fields = ["double_counting", "spin_normalized", "exchange_factor", "on_site_factor"]
    missing = [f for f in fields if gen.chance(rng, 0.4)]
    if not missing or (missing == ["on_site_factor"] and not s.onsite):
        missing = ["double_counting"]
    for f, x in zip(fields, s.notation):
        if f not in missing:
            setattr(h, f, x)
    for f in missing:
        refused(c, h, NotationError, lambda: getattr(h, f), f"{f} of undefined notation")
    refused(c, h, NotationError, lambda: h.notation, "undefined notation")
    refused(c, h, NotationError, lambda: Energy(h), f"Energy, undefined {missing}")
    if "on_site_factor" in missing or "exchange_factor" in missing:
        if s.onsite:
            refused(c, h, NotationError, lambda: list(h.exchange_like), f"exchange_like, undefined {missing}")
    c.ev("refused: undefined notation")


def parameter(c):
    from magnopy import MatrixParameter

    rng = c.rng
    J = gen.matrix(rng)
    p = MatrixParameter(J)
    other = MatrixParameter(gen.matrix(rng))
    entries = ("xx", "xy", "xz", "yx", "yy", "yz", "zx", "zy", "zz")
    for _ in range(6):
        x33, x3 = gen.pick(rng, WRONG33), gen.pick(rng, WRONG3)
        e = gen.pick(rng, entries)
        bad = gen.pick(rng, ("x", [1.0, 2.0], None, {}))
        exc, what, fn = gen.pick(
            rng,
            (
                (ValueError, f"matrix = {x33!r}", put(p, "matrix", x33)),
                (ValueError, f"aniso = {x33!r}", put(p, "aniso", x33)),
                (ValueError, f"dmi = {x3!r}", put(p, "dmi", x3)),
                (ERR, "iso = 'x'", put(p, "iso", "x")),
                (ERR, f"{e} = {bad!r}", put(p, e, bad)),
                (TypeError, "p + 1", lambda: p + 1),
                (TypeError, "p - 1", lambda: p - 1),
                (TypeError, "p + matrix", lambda: p + J),
                (TypeError, "p * 'x'", lambda: p * "x"),
                (TypeError, "'x' * p", lambda: "x" * p),
                (TypeError, "p / 'x'", lambda: p / "x"),
                (TypeError, "p // 'x'", lambda: p // "x"),
                (TypeError, "p @ 'x'", lambda: p @ "x"),
                (ValueError, "p == wrong shape", lambda: p == np.zeros((2, 2))),
            ),
        )
        c.op("refused", what)
        c.raises(exc, fn, what)
        c.check(
            np.array_equal(p.matrix, J), f"refused operation '{what}' changed the parameter", got=p.matrix.tolist()
        )
        c.ev("refused: parameter")
        c.state(("parameter", what))
    p.iso = 1.5
    q = p + other
    want = J + np.eye(3) * (1.5 - np.trace(J) / 3) + other.matrix
    c.close(q.matrix, want, "parameter after refused operations", atol=1e-12, scale=10)


def observe(E, state):
    return (
        E.m,
        E.wolfe_c1,
        E.wolfe_c2,
        None if E.magnetic_field is None else np.array(E.magnetic_field).tolist(),
        [float(x) for x in E.g_factors],
        [float(x) for x in E.spins],
        float(E.ferro(state[0])),
        float(E.antiferro(*state)),
        float(E.spiral(*state)),
    )


def energy(c):
    from magnopy import Energy

    rng = c.rng
    made = p10.make(c)
    if made is None:
        return
    s, h = made
    E, twin = Energy(h), Energy(h)
    n = len(E.spins)

    def directions():
        return np.array([gen.unit(rng) for _ in range(n)])

    state = (directions(), gen.unit(rng), rng.uniform(-0.5, 0.5, 3))
    for _ in range(int(rng.integers(2, 5))):
        # Legal change
        r = int(rng.integers(5))
        if r == 0:
            x = rng.normal(size=3)
            E.magnetic_field = x
            twin.magnetic_field = x
        elif r == 1:
            x = rng.uniform(1.5, 2.5, n)
            E.g_factors = x
            twin.g_factors = x
        elif r == 2:
            x = int(rng.integers(3, 12))
            E.m = x
            twin.m = x
        elif r == 3:
            x = float(rng.uniform(1e-5, 1e-3))
            E.wolfe_c1 = x
            twin.wolfe_c1 = x
        for _ in range(3):
            before = observe(E, state)
            k = int(rng.integers(10))
            w3 = gen.pick(rng, WRONG3)
            if k == 0:
                what, fn = f"magnetic_field = {w3!r}", put(E, "magnetic_field", w3)
            elif k in (1, 2):
                name = ("g_factors", "spins")[k - 1]
                x = gen.pick(
                    rng,
                    (
                        [1.5] * (n + 1),
                        [1.5] * (n - 1),
                        5.0,
                        [1.5] * (n - 1) + ["x"],
                        [7.5] * (n - 1) + [None],
                        [7.5] * (n - 1) + [[1.0, 2.0]],
                        np.full((n, 3), 7.5),
                        np.full(n + 1, 7.5),
                    ),
                )
                what, fn = f"{name} = {x!r}", put(E, name, x)
            elif k == 3:
                x = gen.pick(rng, ("x", None, [1, 2], "1.5"))
                what, fn = f"m = {x!r}", put(E, "m", x)
            elif k == 4:
                x = gen.pick(rng, ("x", None, [0.1, 0.2]))
                name = gen.pick(rng, ("wolfe_c1", "wolfe_c2"))
                what, fn = f"{name} = {x!r}", put(E, name, x)
            else:
                bad = [*state]
                j = int(rng.integers(1 if k in (5, 6) else 3))
                if j == 0:
                    bad[0] = gen.pick(
                        rng,
                        (
                            np.ones((n + 1, 3)),
                            np.ones((n, 2)),
                            np.ones((n, 4)),
                            np.ones((n + 2, 3)).tolist(),
                            "abc",
                            [["x"] * 3] * n,
                        ),
                    )
                else:
                    bad[j] = w3
                if k in (5, 6):
                    what, fn = f"ferro({bad[0]!r})", lambda: E.ferro(bad[0])
                elif k == 7:
                    what, fn = f"antiferro(argument {j}: {bad[j]!r})", lambda: E.antiferro(*bad)
                else:
                    what, fn = f"spiral(argument {j}: {bad[j]!r})", lambda: E.spiral(*bad)
            c.op("refused", what)
            c.raises(ValueError, fn, what)
            c.check(
                observe(E, state) == before,
                f"refused operation '{what}' changed the energy",
                before=before,
                after=observe(E, state),
            )
            c.ev("refused: energy")
            c.state(("energy", what))
    c.check(observe(E, state) == observe(twin, state), "energy after refused operations differs from its twin")
    # Minimization
    folder = c.tmp()
    for _ in range(3):
        before = observe(E, state)
        case = gen.pick(rng, ("ferro", "antiferro", "spiral", 0, 1, 2))
        kind = {0: "ferro", 1: "antiferro", 2: "spiral"}.get(case, case)
        good = {"ferro": state[0], "antiferro": state[:2], "spiral": state}[kind]
        kw = dict(case=case, initial_guess=good, max_iterations=3, antiferro_q=(0.5, 0, 0))
        k = int(rng.integers(5))
        w3 = gen.pick(rng, WRONG3)
        wrong_spins = gen.pick(
            rng, (np.ones((n + 1, 3)), np.ones((n, 2)), "abc", [["x"] * 3] * n, [[1.0, 2.0], [3.0]], np.ones((n, 4)))
        )
        if k == 0:
            kw["case"] = gen.pick(rng, ("ferri", 3, None, "", "Spiral ", -1))
        elif k == 1:
            kw["initial_guess"] = wrong_spins if kind == "ferro" else (wrong_spins, *good[1:])
        elif k == 2:
            if kind == "ferro":
                continue
            j = int(rng.integers(1, len(good)))
            kw["initial_guess"] = [w3 if x == j else good[x] for x in range(len(good))]
        elif k == 3:
            t = {"ferro": 2, "antiferro": 3, "spiral": 3}[kind]
            kw["tolerance"] = gen.pick(rng, ((1e-5,) * (t - 1), (1e-5,) * (t + 1), ()))
        else:
            if kind == "ferro":
                continue
            if kind == "antiferro" and gen.chance(rng, 0.5):
                kw["antiferro_q"] = w3
            else:
                kw["initial_guess"] = gen.pick(rng, (good[:1], (*good, good[-1]), good[:-1]))
        name = os.path.join(folder, "history.txt")
        kw.update(save_history=gen.chance(rng, 0.7), history_filename=name)
        what = f"optimize, {kind}, wrong argument {k}"
        c.op("refused", what, str(kw))
        c.raises(ValueError, lambda: E.optimize(**kw), what)
        c.check(observe(E, state) == before, f"refused operation '{what}' changed the energy")
        c.check(os.listdir(folder) == [], f"refused operation '{what}' created a file")
        c.ev("refused: optimize")
        c.state(("optimize", kind, k))
    if gen.chance(rng, 0.4):
        kw = dict(
            case="spiral",
            initial_guess=state,
            max_iterations=5,
            save_history=False,
        )
        results = []
        for x in (E, twin):
            try:
                results.append([np.array(y).tolist() for y in x.optimize(**kw)])
            except ValueError as e:
                results.append(str(e))
        c.check(results[0] == results[1], "minimization after refused operations differs from its twin")
        c.ev("optimizations after")


def case(c):
    r = c.rng.random()
    if r < 0.55:
        hamiltonian(c)
    elif r < 0.7:
        undefined(c)
    elif r < 0.8:
        parameter(c)
    else:
        energy(c)
