"""Mirrored bonds are consistent with the double counting, always."""

import numpy as np

from vlib import gen, history, mon, oracle

PROP = "P02"
QUICK, THOROUGH = 16000, 150000
RULE = (
    "Every public operation that can change a Hamiltonian is hooked; the mirror invariant "
    "is judged after each of them (also after the refused ones).  Distinct = distinct "
    "(double counting, set of stored bonds)."
)
EXPECT = {"states with double counting": 2000, "states without double counting": 1000}
ASSUMPTIONS = ["without double counting the user gives every bond only once"]

WEIGHTS = dict(
    change_notation=5,
    add_bond=6,
    remove_bond=2,
    add_site=0.5,
    remove_site=0.3,
    remove_atom=0.7,
    add_atom=0.7,
    copy=0.3,
)


def case(c):
    from magnopy import SpinHamiltonian
    from magnopy.exceptions import NotationError

    rng = c.rng
    scale_tol = 1e-12

    def after(name, h, error):
        try:
            dc = h.double_counting
        except NotationError:
            return
        bonds = {}
        for a, b, r, p in h.exchange:
            key = (a.name, a.index, b.name, b.index, tuple(int(x) for x in r))
            c.check(key not in bonds, f"bond {key} is listed twice after {name}")
            bonds[key] = np.array(p.matrix)
        for (n1, i1, n2, i2, r), J in bonds.items():
            m = (n2, i2, n1, i1, tuple(-x for x in r))
            if dc:
                c.check(
                    m in bonds,
                    f"bond {(n1, n2, r)} has no mirrored bond after '{name}'",
                )
                s = float(np.max(np.abs(J))) + 1e-300
                c.check(
                    np.all(np.abs(bonds[m] - J.T) <= scale_tol * s),
                    f"mirrored bond of {(n1, n2, r)} is not transposed after '{name}'",
                    J=J.tolist(),
                    mirrored=bonds[m].tolist(),
                )
            else:
                c.check(
                    m not in bonds,
                    f"both {(n1, n2, r)} and its mirror are stored after '{name}'",
                )
        # Access by the key agrees with the iteration
        for a, b, r, p in list(h.exchange)[:6]:
            c.check((a, b, r) in h, f"listed bond is not found after '{name}'")
            m = (b, a, tuple(-x for x in r))
            c.check((m in h) == bool(dc), f"mirrored bond, membership after '{name}'")
        c.ev("states with double counting" if dc else "states without double counting")
        c.ev("judged bonds", len(bonds))
        c.ev("after " + name)
        c.state((bool(dc), sorted(bonds)))

    with mon.watch(SpinHamiltonian, after):
        h = history.History(c)
        for _ in range(int(rng.integers(4, 26))):
            if gen.chance(rng, 0.1):
                keep = rng.random(4)
                sel = {}
                if keep[0] < 0.5:
                    sel["max_distance"] = float(rng.uniform(0, 20))
                if keep[1] < 0.3:
                    sel["min_distance"] = float(rng.uniform(0, 5))
                if keep[2] < 0.5:
                    x = float(rng.normal())
                    sel["custom_filter"] = lambda p, x=x: float(p.iso) > x
                c.op("filter", sorted(sel))
                h.h.filter(**sel)
                # Shadow of the physical content follows the real content here
                h.K, h.A = oracle.couplings(oracle.snapshot(h.h))
            elif gen.chance(rng, 0.1):
                # Refused operations
                stored = h.stored()
                b = (gen.pick(rng, h.mag), gen.pick(rng, h.mag), (7, -5, 9))
                if b not in stored and gen.mirror(b) not in stored:
                    c.op("remove missing", b)
                    c.raises(
                        KeyError,
                        lambda: h.h.remove_exchange(*b),
                        "removal of a missing bond",
                    )
            else:
                what = h.step(WEIGHTS)
                # Every bond is there, in one of the directions at least
                have = set(oracle.couplings(oracle.snapshot(h.h))[0])
                c.check(
                    have == set(h.K),
                    f"bonds are lost or appeared after '{what}': "
                    f"{sorted(have ^ set(h.K), key=str)[:3]}",
                )
