"""Energy object is independent from the Hamiltonian and from its own past."""

import numpy as np

from vlib import gen, oracle

PROP = "P09"
QUICK, THOROUGH = 2500, 40000
RULE = (
    "Random schedules of energy evaluations, minimizations and mutations of the source "
    "Hamiltonian; every evaluation is compared with the first value for the same "
    "arguments, arguments and Hamiltonian are compared with their snapshots.  Distinct = "
    "distinct schedules."
)
EXPECT = {
    "repeated evaluation": 5000,
    "mutation of the source": 1000,
    "other notation": 1000,
    "minimization": 500,
    "arrays are not shared": 500,
    "repeated minimization": 200,
    "arguments changed in place": 1000,
}
ASSUMPTIONS = ["minimization from the given initial guess is deterministic"]


def case(c):
    from checks.p04 import mutate
    from magnopy import Energy

    rng = c.rng
    s = gen.spec(rng, n_atoms=int(gen.pick(rng, (1, 2, 2, 3))), scale=1.0, near=True)
    for a in s.atoms:
        a["spin"] = a["spin"] / max(np.linalg.norm(a["spin"]), 1e-12) * (
            gen.pick(rng, (0.5, 1.0, 1.5)) if np.linalg.norm(a["spin"]) > 0 else 0.0
        )
    h = gen.build(rng, s, c)
    if not h.magnetic_atoms:
        return
    before = oracle.snapshot(h)
    h0 = h.copy()
    E = Energy(h)
    d = oracle.difference(before, oracle.snapshot(h))
    c.check(d is None, f"creation of Energy changed the Hamiltonian: {d}")
    n = len(h.magnetic_atoms)
    scale = oracle.Lattice(before).energy_scale()
    rec = oracle.reciprocal(s.cell)
    args = []
    for _ in range(3):
        e = np.array([gen.unit(rng) for _ in range(n)]) * 1.5
        axis = gen.unit(rng) * 2.0
        q = rng.uniform(-1, 1, 3) @ rec
        args.append((e, axis, q))
    keep = [tuple(x.copy() for x in a) for a in args]

    def evaluate(X, i):
        e, axis, q = args[i]
        return (X.ferro(e), X.antiferro(e, axis, q), X.spiral(e, axis, q))

    def same_args(what):
        for a, b in zip(args, keep):
            for x, y in zip(a, b):
                c.check(np.array_equal(x, y), f"{what} changed its arguments")

    first = [evaluate(E, i) for i in range(3)]
    same_args("evaluation")
    results = {}
    schedule = []
    for _ in range(int(rng.integers(3, 12))):
        r = rng.random()
        if r < 0.35:
            i = int(rng.integers(3))
            got = evaluate(E, i)
            c.close(got, first[i], f"repeated evaluation after {schedule}", rtol=1e-11, atol=0, scale=scale)
            c.ev("repeated evaluation")
            schedule.append("eval")
        elif r < 0.55:
            done = mutate(c, h, 3)
            c.op("mutations of the Hamiltonian", done)
            i = int(rng.integers(3))
            c.close(evaluate(E, i), first[i], "energy after the change of the Hamiltonian", rtol=1e-11, atol=0, scale=scale)
            c.ev("mutation of the source")
            schedule.append("mutate")
        elif r < 0.75:
            # The same Hamiltonian in another notation has the same energy
            h2 = gen.build(rng, s)
            h2.notation = gen.notation(rng)
            if gen.chance(rng, 0.5):
                h2.notation = gen.notation(rng)
            c.op("notation", h2.notation)
            snap2 = oracle.snapshot(h2)
            i = int(rng.integers(3))
            c.close(evaluate(Energy(h2), i), first[i], f"energy in the notation {h2.notation}", rtol=1e-9, atol=0, scale=scale)
            d = oracle.difference(snap2, oracle.snapshot(h2))
            c.check(d is None, f"Energy changed the notation: {d}")
            c.ev("other notation")
            schedule.append("notation")
        elif r < 0.9:
            # Minimization between the evaluations
            i = int(rng.integers(3))
            e, axis, q = args[i]
            kind = gen.pick(rng, ("ferro", "antiferro", "spiral"))
            steps = int(rng.integers(1, 4))
            kw = dict(case=kind, max_iterations=steps)
            if kind == "ferro":
                kw["initial_guess"] = e
            elif kind == "antiferro":
                kw["initial_guess"] = (e, axis)
                kw["antiferro_q"] = rec[0] / 2
            else:
                kw["initial_guess"] = (e, axis, q)
            c.op("minimize", kind, steps)
            try:
                res = E.optimize(**kw)
            except ValueError as err:
                if "Wolfe" not in str(err):
                    raise
                res = None
            same_args("minimization")
            c.ev("minimization")
            schedule.append(kind)
            key = (kind, i, steps)
            flat = None if res is None else [np.array(x) for x in res]
            if key in results and flat is not None and results[key] is not None:
                for x, y in zip(flat, results[key]):
                    c.close(x, y, f"the second minimization {key} differs", rtol=1e-9, atol=1e-9)
                c.ev("repeated minimization")
            results[key] = flat
            if flat is not None:
                # A new object gives the same: nothing is left from the previous calls
                res2 = Energy(h0).optimize(**kw)
                for x, y in zip(res2, flat):
                    c.close(x, y, f"minimization {key} depends on the past of the object", rtol=1e-9, atol=1e-9)
                c.ev("repeated minimization")
            if res is not None:
                # Results belong to the user
                for x in res:
                    x += 1.0
            c.close(evaluate(E, i), first[i], "energy after the minimization", rtol=1e-11, atol=0, scale=scale)
        else:
            # Calculator does not share memory with what is given to it
            i = int(rng.integers(3))
            field = gen.unit(rng) * 10
            spins = np.array([float(x) for x in E.spins])
            g = np.array([float(x) for x in E.g_factors])
            if gen.chance(rng, 0.5):
                spins, g = spins.tolist(), g.tolist()
            old = list(spins), list(g)
            E.magnetic_field, E.spins, E.g_factors = field, spins, g
            there = evaluate(E, i)
            field += 3.0
            for k in range(n):
                spins[k] = 7.25
                g[k] = -3.5
            c.close(
                evaluate(E, i), there, "energy after the change of the given arrays",
                rtol=1e-11, atol=0, scale=scale,
            )
            E.magnetic_field, E.spins, E.g_factors = None, old[0], old[1]
            # What is given out can be used to restore the state
            mine = E.spins, E.g_factors
            E.spins, E.g_factors = [x + 0.5 for x in old[0]], [x - 0.5 for x in old[1]]
            E.spins, E.g_factors = mine
            c.close(
                evaluate(E, i), first[i], "energy after the spins and g-factors are restored",
                rtol=1e-11, atol=0, scale=scale,
            )
            c.ev("arrays are not shared")
            schedule.append("field")
    # The same arrays with other content
    work = tuple(x.copy() for x in keep[0])
    for i in list(rng.integers(0, 3, 4)):
        for x, y in zip(work, keep[i]):
            x[...] = y
        e, axis, q = work
        got = (E.ferro(e), E.antiferro(e, axis, q), E.spiral(e, axis, q))
        c.close(got, first[i], "energy after the arguments are changed in place", rtol=1e-11, atol=0, scale=scale)
        c.ev("arguments changed in place")
    for i in range(3):
        c.close(evaluate(E, i), first[i], f"energy after the schedule {schedule}", rtol=1e-11, atol=0, scale=scale)
    same_args("schedule")
    c.state(schedule)
