"""The Hamiltonian as a container: agrees with a dictionary, for any history."""

import numpy as np

from vlib import gen

PROP = "P03"
QUICK, THOROUGH = 12000, 60000
RULE = (
    "Random histories of public operations (atoms given by name, full name or object) are "
    "executed in lock step with a plain dictionary; after every operation membership, "
    "access, iteration, number of parameters and magnetic atoms are compared.  Distinct = "
    "distinct (double counting, atoms, stored keys)."
)
EXPECT = {
    "bond written": 3000,
    "bond overwritten": 300,
    "bond removed": 500,
    "atom removed": 300,
    "missing key refused": 500,
    "missing key ignored": 200,
    "nested iterations": 300,
    "vector written": 500,
    "on-site written with new atom": 100,
}
ASSUMPTIONS = [
    "atoms are unique by (name, index); atoms without a unique name are given by object or full name",
    "without double counting a bond is given in one direction",
]


class Shadow:
    def __init__(self):
        self.atoms, self.bonds, self.sites, self.dc = [], {}, {}, None
        self.spiral = self.cone = None


def case(c):
    from wulfric import Atom

    from magnopy import MatrixParameter, SpinHamiltonian

    rng = c.rng
    s = Shadow()
    r = rng.random()
    notation = gen.notation(rng)
    h = SpinHamiltonian(cell=gen.cell(rng))
    if r < 0.45:
        notation = (True, *notation[1:])
        h.notation = notation
        s.dc = True
    elif r < 0.7:
        notation = (False, *notation[1:])
        h.notation = notation
        s.dc = False
    elif r < 0.8:
        s.dc = gen.chance(rng, 0.5)
        h.double_counting = s.dc
    c.op("double counting", s.dc)

    objects = {}
    pool = gen.names(rng, int(rng.integers(1, 6)))
    if gen.chance(rng, 0.5):
        pool = pool + pool[:2]  # the same name with another index

    def ref(a):
        """a = (name, index); one of the ways to point to the atom of the Hamiltonian"""
        name, index = a
        unique = sum(1 for x in s.atoms if x[0] == name) == 1
        way = rng.random()
        if unique and way < 0.4:
            return name
        if isinstance(index, (int, np.integer)) and way < 0.55:
            return f"{name}__{index}"
        if way < 0.65:
            return Atom(name=name, index=index)  # equal, but another object
        return objects[a]

    def new_atom():
        name = gen.pick(rng, pool)
        if gen.chance(rng, 0.4):
            index = int(rng.integers(-3, 30))
            atom = Atom(name=name, index=index, spin=gen.spin_value(rng))
        else:
            index = len(s.atoms) + 1
            atom = Atom(name=name, spin=gen.spin_value(rng))
        return (name, index), atom

    def random_key():
        a, b = gen.pick(rng, s.atoms), gen.pick(rng, s.atoms)
        if s.bonds and gen.chance(rng, 0.5):
            k = gen.pick(rng, sorted(s.bonds, key=str))
            return gen.mirror(k) if s.dc is not False and gen.chance(rng, 0.3) else k
        return (a, b, gen.ijk(rng))

    def given(r):
        return r if gen.chance(rng, 0.8) else tuple(np.int64(x) for x in r)

    def parameter():
        J = gen.matrix(rng)
        way = rng.random()
        if way < 0.1:
            return np.zeros((3, 3)), dict(parameter=None)
        if way < 0.4:
            return J, dict(matrix=J.tolist())
        if way < 0.5:
            # Keywords are ignored if the parameter is given
            return J, dict(parameter=MatrixParameter(J), iso=55.0)
        return J, dict(parameter=MatrixParameter(J))

    def judge(what):
        atoms = [(a.name, a.index) for a in h.atoms]
        c.check(atoms == s.atoms, f"after {what} atoms are {atoms}, not {s.atoms}")
        c.check(len(h) == len(s.atoms), f"after {what} number of atoms is {len(h)}")
        seen = {}
        it = h.exchange
        c.check(
            len(it) == len(s.bonds),
            f"after {what} there are {len(it)} exchange parameters, not {len(s.bonds)}",
        )
        for a, b, r, p in it:
            k = ((a.name, a.index), (b.name, b.index), tuple(int(x) for x in r))
            c.check(k not in seen, f"after {what} bond {k} is listed twice")
            seen[k] = np.array(p.matrix)
        c.check(
            set(seen) == set(s.bonds),
            f"after {what} stored bonds differ: {sorted(set(seen) ^ set(s.bonds), key=str)[:4]}",
        )
        for k in seen:
            c.check(
                np.array_equal(seen[k], s.bonds[k]),
                f"after {what} parameter of {k} is {seen[k].tolist()}, not {s.bonds[k].tolist()}",
            )
        if len(s.bonds) < 6 and gen.chance(rng, 0.1):
            # Several iterations at the same time
            pairs = sum(1 for _ in h.exchange for _ in h.exchange)
            c.check(pairs == len(s.bonds) ** 2, f"after {what} nested iterations gave {pairs}")
            pairs = sum(1 for _ in h.on_site for _ in h.on_site)
            c.check(pairs == len(s.sites) ** 2, f"after {what} nested iterations gave {pairs}")
            both = list(zip(h.exchange, h.exchange))
            c.check(len(both) == len(s.bonds), f"after {what} two iterations gave {len(both)}")
            c.check(all(x[:3] == y[:3] and np.array_equal(x[3].matrix, y[3].matrix) for x, y in both), f"after {what} two iterations")
            c.ev("nested iterations")
        for name, want, tol in (("spiral_vector", s.spiral, 0), ("cone_axis", s.cone, 1e-12)):
            got = getattr(h, name)
            if want is None:
                c.check(got is None, f"after {what} {name} is {got}")
            else:
                c.check(np.shape(got) == (3,), f"after {what} {name} is {got}")
                c.close(got, want, f"after {what} {name}", rtol=0, atol=tol)
        it = h.on_site
        c.check(
            len(it) == len(s.sites), f"after {what} there are {len(it)} on-site terms"
        )
        seen = {}
        for a, p in it:
            k = (a.name, a.index)
            c.check(k not in seen, f"after {what} on-site {k} is listed twice")
            seen[k] = np.array(p.matrix)
        c.check(
            set(seen) == set(s.sites),
            f"after {what} on-site terms differ: {sorted(set(seen) ^ set(s.sites), key=str)}",
        )
        for k in seen:
            c.check(np.array_equal(seen[k], s.sites[k]), f"after {what} on-site of {k}")
        mag = {x for k in s.bonds for x in k[:2]} | set(s.sites)
        mag = sorted(mag, key=lambda a: (a[1], a[0]))
        got = [(a.name, a.index) for a in h.magnetic_atoms]
        c.check(
            sorted(got) == sorted(mag)
            and [g[1] for g in got] == sorted(g[1] for g in got),
            f"after {what} magnetic atoms are {got}, not {mag}",
        )
        c.check(h.I == len(mag), f"after {what} number of spins is {h.I}")
        # Access by key
        for _ in range(3):
            if not s.atoms:
                break
            k = random_key()
            q = (ref(k[0]), ref(k[1]), given(k[2]))
            c.check((q in h) == (k in s.bonds), f"after {what} membership of {k}")
            if k in s.bonds:
                c.check(
                    np.array_equal(h[q].matrix, s.bonds[k]), f"after {what} value of {k}"
                )
            else:
                c.raises(KeyError, lambda: h[q], f"access to the missing bond {k}")
                c.ev("missing key refused")
            a = gen.pick(rng, s.atoms)
            q1 = ref(a)
            c.check((q1 in h) == (a in s.sites), f"after {what} membership of {a}")
            if a in s.sites:
                c.check(
                    np.array_equal(h[q1].matrix, s.sites[a]), f"after {what} value of {a}"
                )
            else:
                c.raises(KeyError, lambda: h[q1], f"access to the missing on-site {a}")
        c.ev("states judged")
        c.state((s.dc, s.atoms, sorted(s.bonds, key=str), sorted(s.sites, key=str)))

    def put_bond(k, J):
        s.bonds[k] = J
        if s.dc:
            s.bonds[gen.mirror(k)] = J.T.copy()

    # Seldom looks let stale answers of the earlier states come through
    sparse = 1 if gen.chance(rng, 0.6) else int(rng.integers(2, 6))
    for step in range(int(rng.integers(5, 40))):
        r = rng.random()
        what = None
        if not s.atoms or r < 0.1:
            k, atom = new_atom()
            if k in s.atoms:
                c.op("add the same atom", k)
                c.raises(ValueError, lambda: h.add_atom(atom), "repeated atom")
                what = "atom refused"
            else:
                c.op("add atom", k)
                h.add_atom(atom if gen.chance(rng, 0.7) else Atom(name=k[0], index=k[1]))
                atom = h.atoms[-1]
                s.atoms.append(k)
                objects[k] = atom
                what = "atom added"
        elif r < 0.45:
            k = random_key()
            if k[0] == k[1] and k[2] == (0, 0, 0):
                continue
            if s.dc is False and gen.mirror(k) in s.bonds:
                continue
            what = "bond overwritten" if k in s.bonds else "bond written"
            J, kw = parameter()
            args = [ref(k[0]), ref(k[1])]
            new = None
            if gen.chance(rng, 0.1):
                k2, atom = new_atom()
                # An atom without index and with a name of another atom is ambiguous
                if k2 not in s.atoms and k2[0] not in [x[0] for x in s.atoms]:
                    i = int(rng.integers(2))
                    args[i] = atom
                    k = (k2, k[1], k[2]) if i == 0 else (k[0], k2, k[2])
                    new = (k2, atom)
                    what = "bond written with new atom"
            c.op(what, k, sorted(kw))
            if "parameter" in kw and kw["parameter"] is not None and gen.chance(rng, 0.5):
                h[(args[0], args[1], given(k[2]))] = kw["parameter"]
            else:
                h.add_exchange(args[0], args[1], given(k[2]), **kw)
            if new is not None:
                s.atoms.append(new[0])
                objects[new[0]] = new[1]
            put_bond(k, J)
        elif r < 0.6:
            a = gen.pick(rng, s.atoms)
            J, kw = parameter()
            what = "on-site overwritten" if a in s.sites else "on-site written"
            q = ref(a)
            if gen.chance(rng, 0.1):
                k2, atom = new_atom()
                if k2 not in s.atoms and k2[0] not in [x[0] for x in s.atoms]:
                    a, q, what = k2, atom, "on-site written with new atom"
                    s.atoms.append(a)
                    objects[a] = atom
            c.op(what, a, sorted(kw))
            if "parameter" in kw and kw["parameter"] is not None and gen.chance(rng, 0.5):
                h[q] = kw["parameter"]
            else:
                h.add_on_site(q, **kw)
            s.sites[a] = J
        elif r < 0.75:
            k = random_key()
            q = (ref(k[0]), ref(k[1]), given(k[2]))
            if k in s.bonds:
                c.op("remove bond", k)
                if gen.chance(rng, 0.5):
                    h.remove_exchange(*q)
                else:
                    del h[q]
                del s.bonds[k]
                if s.dc:
                    s.bonds.pop(gen.mirror(k), None)
                what = "bond removed"
            elif gen.chance(rng, 0.5):
                c.op("remove missing bond", k)
                c.raises(KeyError, lambda: h.remove_exchange(*q), "missing bond")
                c.raises(KeyError, lambda: h.__delitem__(q), "missing bond")
                what = "missing key refused"
            else:
                h.remove_exchange(*q, raise_if_no_bond=False)
                what = "missing key ignored"
        elif r < 0.85:
            a = gen.pick(rng, s.atoms)
            q = ref(a)
            if a in s.sites:
                c.op("remove on-site", a)
                if gen.chance(rng, 0.5):
                    h.remove_on_site(q)
                else:
                    del h[q]
                del s.sites[a]
                what = "on-site removed"
            elif gen.chance(rng, 0.5):
                c.raises(KeyError, lambda: h.remove_on_site(q), "missing on-site")
                c.raises(KeyError, lambda: h.__delitem__(q), "missing on-site")
                what = "missing key refused"
            else:
                h.remove_on_site(q, raise_if_no_bond=False)
                what = "missing key ignored"
        elif r < 0.895:
            # Vectors of the ground state: values are taken at the moment of the assignment
            v = rng.normal(size=3) * float(10.0 ** rng.uniform(-4, 4))
            if gen.chance(rng, 0.3):
                v = np.round(v)
            name = gen.pick(rng, ("spiral_vector", "cone_axis"))
            vector = gen.pick(rng, (v.copy(), v.tolist(), tuple(v)))
            if name == "cone_axis" and not v.any():
                c.raises(ValueError, lambda: setattr(h, name, vector), "zero cone axis")
                what = "vector refused"
            else:
                c.op(name, v)
                setattr(h, name, vector)
                if name == "cone_axis":
                    s.cone = v / np.linalg.norm(v)
                else:
                    s.spiral = v
                if not isinstance(vector, tuple):
                    vector[int(rng.integers(3))] += 1.0
                what = "vector written"
        elif r < 0.92:
            a = gen.pick(rng, s.atoms)
            c.op("remove atom", a)
            h.remove_atom(ref(a))
            s.atoms.remove(a)
            s.sites.pop(a, None)
            for k in [k for k in s.bonds if a in k[:2]]:
                del s.bonds[k]
            what = "atom removed"
        elif r < 0.96 and s.dc is None and not any(
            gen.mirror(k) in s.bonds for k in s.bonds
        ):
            # Notation is specified for the first time: values are only interpreted
            s.dc = gen.chance(rng, 0.6)
            c.op("double_counting =", s.dc)
            h.double_counting = s.dc
            if s.dc:
                for k, J in list(s.bonds.items()):
                    s.bonds[gen.mirror(k)] = J.T.copy()
            else:
                # Which of two directions is stored is a matter of convention
                stored = {
                    ((a.name, a.index), (b.name, b.index), tuple(int(x) for x in q))
                    for a, b, q, _ in h.exchange
                }
                for k in list(s.bonds):
                    if k not in stored and gen.mirror(k) in stored:
                        s.bonds[gen.mirror(k)] = s.bonds.pop(k).T.copy()
            what = "double counting specified"
        else:
            h = h.copy()
            objects = {(a.name, a.index): a for a in h.atoms}
            what = "copied"
        if step % sparse == 0:
            judge(what)
        c.ev(what)
    judge("all of that")
