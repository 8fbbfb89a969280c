"""Energy in the magnetic field."""

import numpy as np

from checks import p07
from vlib import gen, oracle

PROP = "P08"
QUICK, THOROUGH = 5000, 90000
RULE = (
    "Energies in random magnetic fields are compared with the explicit sum of "
    "mu_B g_i h.S_i over the spins of the lattice (together with the rest of the "
    "Hamiltonian); spins and g-factors are also redefined through the public attributes.  "
    "Distinct = distinct (notation, number of spins, keys)."
)
EXPECT = {"ferro": 3000, "spiral": 3000, "field removed": 500, "redefined": 300}
ASSUMPTIONS = ["field is in Tesla, energy is in meV, mu_B is the CODATA value"]


def case(c):
    from magnopy import Energy

    rng = c.rng
    s = gen.spec(rng, scale=float(10.0 ** rng.uniform(-3, 0.5)))
    c.op("notation", s.notation)
    h = gen.build(rng, s, c)
    field = gen.unit(rng) * float(10.0 ** rng.uniform(-1, 2))
    if gen.chance(rng, 0.05):
        field = np.zeros(3)
    c.op("field", field.tolist())
    p07.judge(c, h, field)

    lat = oracle.Lattice(oracle.snapshot(h))
    if not lat.magnetic:
        return
    e = np.array([gen.unit(rng) for _ in lat.magnetic])
    n = gen.unit(rng)
    q = rng.uniform(-1, 1, 3) @ oracle.reciprocal(s.cell)
    E = Energy(h)
    c.check(E.magnetic_field is None, "there is a field by default")
    c.close(E.spins, [lat.spins[a] for a in lat.magnetic], "values of spins")
    c.close(E.g_factors, [lat.g[a] for a in lat.magnetic], "g-factors")
    zero = (E.ferro(e), E.antiferro(e, n, q), E.spiral(e, n, q))
    scale = lat.energy_scale()
    mu = oracle.MU_B / oracle.MEV
    gs = np.array([lat.g[a] * lat.spins[a] for a in lat.magnetic])
    if gen.chance(rng, 0.3):
        # g-factors are redefined
        g = [float(x) for x in rng.uniform(-3, 3, len(lat.magnetic))]
        E.g_factors = g
        c.close(E.g_factors, g, "new g-factors", rtol=1e-12, atol=0)
        gs = np.array([x * lat.spins[a] for x, a in zip(g, lat.magnetic)])
        c.ev("redefined")
    E.magnetic_field = field
    scale += mu * float(np.abs(gs).sum() * np.linalg.norm(field))
    tol = dict(rtol=1e-9, atol=1e-300, scale=scale)
    full = mu * gs @ (e @ field)
    along = mu * gs @ (e @ n) * (n @ field)
    c.close(E.ferro(e) - zero[0], full, "Zeeman energy (ferro)", **tol)
    c.close(E.antiferro(e, n, q) - zero[1], along, "Zeeman energy (antiferro)", **tol)
    c.close(E.spiral(e, n, q) - zero[2], along, "Zeeman energy (spiral)", **tol)
    # Linear in the field
    k = float(rng.uniform(-3, 3))
    E.magnetic_field = k * field
    c.close(E.ferro(e) - zero[0], k * full, "Zeeman energy is not linear", rtol=1e-9, atol=1e-300, scale=4 * scale)
    c.close(E.magnetic_field, k * field, "value of the field", rtol=1e-12)
    # Given array does not belong to the object
    given = np.array(field)
    E.magnetic_field = given
    given += 5.0
    c.close(E.ferro(e) - zero[0], full, "given field was changed later", **tol)
    # Field is switched off
    E.magnetic_field = None
    c.check(
        (E.ferro(e), E.antiferro(e, n, q), E.spiral(e, n, q)) == zero,
        "energies differ after the field is removed",
    )
    c.ev("field removed")
    for bad in ([1, 2], np.zeros((3, 3)), "abc", [1, 2, 3, 4]):
        c.raises(ValueError, lambda: setattr(E, "magnetic_field", bad), f"field {bad}")
    c.check(E.magnetic_field is None and E.ferro(e) == zero[0], "refused field is used")
