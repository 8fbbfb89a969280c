"""Change of the notation never changes the physics."""

from vlib import gen, history

PROP = "P01"
QUICK, THOROUGH = 8000, 150000
RULE = (
    "A state counts when the physical couplings of the Hamiltonian (one matrix per pair "
    "of spins and per on-site term, in the notation-free form) were compared with the "
    "shadow model; distinct = distinct (notation, set of bonds, set of on-site atoms)."
)
EXPECT = {"notation changed": 2000, "bond rewritten": 100, "atom removed": 50}
ASSUMPTIONS = [
    "without double counting a bond is given in the direction in which it is stored",
    "spins of atoms with parameters are not zero and are not changed",
]

WEIGHTS = dict(
    change_notation=10,
    add_bond=3,
    remove_bond=1,
    add_site=2,
    remove_site=0.7,
    remove_atom=0.4,
    add_atom=0.6,
    copy=0.5,
)


def case(c):
    h = history.History(c)
    h.judge("construction")
    # Seldom looks let stale answers of the earlier states come through
    sparse = 1 if gen.chance(c.rng, 0.7) else int(c.rng.integers(2, 6))
    for step in range(int(c.rng.integers(4, 26))):
        what = h.step(WEIGHTS)
        if what is None:
            continue
        if step % sparse:
            c.ev(what)
            continue
        snap = h.judge(what)
        c.ev(what)
        c.ev("judged bonds", len(snap["exchange"]))
        c.ev("judged on-site terms", len(snap["on_site"]))
        c.state((h.notation, sorted(map(str, h.K)), sorted(map(str, h.A))))
    # Return to the first notation: parameters have to be restored
    before = h.spec.notation
    h.h.notation = before
    h.notation = before
    h.judge("return to the initial notation")
    c.ev("returned")
