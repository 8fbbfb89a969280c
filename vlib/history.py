"""Random histories of operations on one SpinHamiltonian with the shadow model of its
physical content (couplings, see oracle.couplings)."""

import numpy as np

from vlib import gen, oracle


class History:
    """Legal histories only:  in the notation without double counting a bond is always
    given in the direction in which it is stored, bonds of an atom with itself in the same
    cell are not used, spins of the atoms with parameters are not zero and do not change."""

    def __init__(self, c, n_atoms=None, undefined_start=None):
        rng = c.rng
        self.c, self.rng = c, rng
        s = gen.spec(rng, n_atoms=n_atoms, symmetric_onsite=gen.chance(rng, 0.8), extreme=0.05)
        self.spec = s
        if undefined_start is None:
            undefined_start = gen.chance(rng, 0.3)
        self.h = gen.build(rng, s, c, with_notation=not undefined_start)
        if undefined_start:
            self._define_first_time(s.notation)
        c.op("notation", s.notation, "undefined at start:", undefined_start)
        self.K, self.A = oracle.couplings_of_spec(s)
        self.notation = s.notation
        self.mag = [a["name"] for a in s.atoms if np.linalg.norm(a["spin"]) > 0]
        self.removed = set()

    def _define_first_time(self, notation):
        h, rng = self.h, self.rng
        if gen.chance(rng, 0.5):
            h.notation = notation
            return
        fields = ["double_counting", "spin_normalized", "exchange_factor"]
        fields.append("on_site_factor")
        values = dict(zip(fields, notation))
        rng.shuffle(fields)
        for f in fields:
            setattr(h, str(f), values[str(f)])

    # -- helpers -------------------------------------------------------------------
    def index(self, name):
        return self.h.get_atom(name).index

    def key(self, bond):
        a, b, r = bond
        return oracle.canonical(((a, self.index(a)), (b, self.index(b)), r))

    def stored(self):
        return [
            (a.name, b.name, tuple(int(x) for x in r)) for a, b, r, _ in self.h.exchange
        ]

    def ref(self, name):
        return name if gen.chance(self.rng, 0.5) else self.h.get_atom(name)

    def factor_bond(self, a, b):
        dc, sn, ef, _ = self.notation
        s = self.spec.spin(a) * self.spec.spin(b)
        return ef * (2.0 if dc else 1.0) * (1.0 if sn else s)

    def factor_site(self, a):
        _, sn, _, of = self.notation
        return of * (1.0 if sn else self.spec.spin(a) ** 2)

    def scale(self):
        return float(10.0 ** self.rng.uniform(-12, 3)) if gen.chance(self.rng, 0.1) else 1.0

    def factor(self, old):
        if gen.chance(self.rng, 0.15):
            # Close to the previous one, but different
            return old * (1.0 + float(gen.pick(self.rng, (-1, 1)) * 10.0 ** self.rng.uniform(-8, -2)))
        return gen.factor(self.rng)

    # -- operations ----------------------------------------------------------------
    def change_notation(self):
        c, h, rng = self.c, self.h, self.rng
        dc, sn, ef, of = self.notation
        r = rng.random()
        if r < 0.2:
            name = gen.pick(rng, sorted(gen.PREDEFINED))
            text = gen.pick(rng, (name, name.upper(), name.capitalize()))
            h.notation = text
            self.notation = gen.PREDEFINED[name]
            c.op("notation =", text)
        elif r < 0.4:
            new = gen.notation(rng)
            if gen.chance(rng, 0.2):
                new = (*new[:2], self.factor(ef), self.factor(of))
            kind = gen.pick(rng, ("tuple", "tuple", "list", "numbers", "objects"))
            given = list(new) if kind == "list" else new
            if kind in ("numbers", "objects"):
                given = np.array(new, dtype=float if kind == "numbers" else object)
            h.notation = given
            self.notation = new
            c.op("notation =", new)
        elif r < 0.5:
            new = gen.notation(rng)[:3]
            h.notation = new
            self.notation = (*new, new[2])
            c.op("notation =", new)
        elif r < 0.65:
            dc = gen.chance(rng, 0.5)
            h.double_counting = dc if gen.chance(rng, 0.7) else int(dc)
            self.notation = (dc, sn, ef, of)
            c.op("double_counting =", dc)
        elif r < 0.8:
            sn = gen.chance(rng, 0.5)
            h.spin_normalized = sn if gen.chance(rng, 0.7) else int(sn)
            self.notation = (dc, sn, ef, of)
            c.op("spin_normalized =", sn)
        elif r < 0.9:
            ef = self.factor(ef)
            h.exchange_factor = ef
            self.notation = (dc, sn, ef, of)
            c.op("exchange_factor =", ef)
        else:
            of = self.factor(of)
            h.on_site_factor = of
            self.notation = (dc, sn, ef, of)
            c.op("on_site_factor =", of)
        return "notation changed"

    def add_bond(self):
        from magnopy import MatrixParameter

        c, h, rng = self.c, self.h, self.rng
        stored = self.stored()
        if stored and gen.chance(rng, 0.4):
            b = gen.pick(rng, stored)
            if self.notation[0] and gen.chance(rng, 0.5):
                b = gen.mirror(b)
            kind = "bond rewritten"
        else:
            b = (gen.pick(rng, self.mag), gen.pick(rng, self.mag), gen.ijk(rng))
            kind = "bond added"
            if b[0] == b[1] and b[2] == (0, 0, 0):
                return None
            if b in stored or gen.mirror(b) in stored:
                return None
        J = gen.matrix(rng, self.scale())
        c.op("add", b, np.round(J, 4).tolist())
        p = MatrixParameter(J)
        bonds = [b]
        # The same object of the parameter is given to several bonds
        if gen.chance(rng, 0.3):
            b2 = (gen.pick(rng, self.mag), gen.pick(rng, self.mag), gen.ijk(rng))
            if not (b2[0] == b2[1] and b2[2] == (0, 0, 0)) and not (
                {b2, gen.mirror(b2)} & (set(stored) | {b, gen.mirror(b)})
            ):
                bonds.append(b2)
                c.op("the same parameter for", b2)
        for x in bonds:
            if gen.chance(rng, 0.5):
                h.add_exchange(self.ref(x[0]), self.ref(x[1]), x[2], p)
            else:
                h[self.ref(x[0]), self.ref(x[1]), x[2]] = p
            key, mirrored = self.key(x)
            self.K[key] = self.factor_bond(x[0], x[1]) * (J.T if mirrored else J)
        return kind

    def remove_bond(self):
        h, rng = self.h, self.rng
        stored = self.stored()
        if not stored:
            return None
        b = gen.pick(rng, stored)
        self.c.op("remove", b)
        x = (self.ref(b[0]), self.ref(b[1]), b[2])
        r = rng.random()
        if r < 0.35:
            h.remove_exchange(*x)
        elif r < 0.65:
            h.remove_exchange(*x, raise_if_no_bond=False)
        else:
            del h[x]
        if gen.chance(rng, 0.2):
            # Absent bond, nothing happens
            h.remove_exchange(*x, raise_if_no_bond=False)
        del self.K[self.key(b)[0]]
        return "bond removed"

    def add_site(self):
        from magnopy import MatrixParameter

        h, rng = self.h, self.rng
        a = gen.pick(rng, self.mag)
        J = gen.matrix(rng, self.scale(), symmetric=True)
        self.c.op("on-site", a, np.round(J, 4).tolist())
        if gen.chance(rng, 0.5):
            h.add_on_site(self.ref(a), MatrixParameter(J))
        else:
            h[self.ref(a)] = MatrixParameter(matrix=J)
        self.A[(a, self.index(a))] = self.factor_site(a) * J
        return "on-site written"

    def remove_site(self):
        h, rng = self.h, self.rng
        have = [a.name for a, _ in h.on_site]
        if not have:
            return None
        a = gen.pick(rng, have)
        self.c.op("remove on-site", a)
        r = rng.random()
        if r < 0.35:
            h.remove_on_site(self.ref(a))
        elif r < 0.65:
            h.remove_on_site(self.ref(a), raise_if_no_bond=False)
        else:
            del h[self.ref(a)]
        if gen.chance(rng, 0.2):
            h.remove_on_site(self.ref(a), raise_if_no_bond=False)
        del self.A[(a, self.index(a))]
        return "on-site removed"

    def remove_atom(self):
        h, rng = self.h, self.rng
        names = [a.name for a in h.atoms]
        if len(self.mag) < 2:
            return None
        a = gen.pick(rng, names)
        self.c.op("remove atom", a)
        key = (a, self.index(a))
        h.remove_atom(self.ref(a))
        self.A.pop(key, None)
        for b in list(self.K):
            if key in b[:2]:
                del self.K[b]
        if a in self.mag:
            self.mag.remove(a)
        self.removed.add(a)
        return "atom removed"

    def add_atom(self):
        from wulfric import Atom

        h, rng = self.h, self.rng
        used = {a["name"] for a in self.spec.atoms}
        free = [n for n in gen.NAMES if n not in used]
        name = gen.pick(rng, free)
        spin = gen.unit(rng) * gen.spin_value(rng)
        pos = rng.uniform(0, 1, 3)
        self.spec.atoms.append(
            dict(name=name, position=pos, spin=spin, g=2.0, charge=None)
        )
        self.c.op("add atom", name, spin.tolist())
        kw = {}
        if gen.chance(rng, 0.4):
            # Index of another atom, or any other
            kw["index"] = int(gen.pick(rng, [a.index for a in h.atoms] + [0, -2, 77]))
            self.c.op("index", kw["index"])
        atom = Atom(name=name, position=pos, spin=spin, **kw)
        self.mag.append(name)
        other = gen.pick(rng, self.mag[:-1]) if len(self.mag) > 1 else None
        if other is None or gen.chance(rng, 0.4):
            h.add_atom(atom)
        elif gen.chance(rng, 0.3):
            # ... together with its on-site term
            J = gen.matrix(rng, symmetric=True)
            h.add_on_site(atom, matrix=J)
            self.A[(name, self.index(name))] = self.factor_site(name) * J
        else:
            # The atom comes to the Hamiltonian together with its bond
            J = gen.matrix(rng)
            r = gen.ijk(rng)
            b = (name, other, r) if gen.chance(rng, 0.5) else (other, name, r)
            args = [atom if x == name else self.ref(x) for x in b[:2]]
            h.add_exchange(*args, r, matrix=J)
            key, mirrored = self.key(b)
            self.K[key] = self.factor_bond(b[0], b[1]) * (J.T if mirrored else J)
        return "atom added"

    def copy(self):
        self.c.op("copy")
        self.h = self.h.copy()
        return "copied"

    def standardize_noop(self):
        return None

    def step(self, weights):
        names = list(weights)
        w = np.array([weights[n] for n in names], dtype=float)
        name = names[int(self.rng.choice(len(names), p=w / w.sum()))]
        return getattr(self, name)()

    def judge(self, what):
        snap = oracle.snapshot(self.h)
        d = oracle.couplings_differ(
            oracle.couplings(snap), (self.K, self.A), rtol=1e-9, atol=1e-300
        )
        self.c.check(d is None, f"after '{what}' the energy is changed: {d}")
        n = snap["notation"]
        self.c.check(
            tuple(bool(x) for x in n[:2]) == tuple(bool(x) for x in self.notation[:2])
            and tuple(n[2:]) == tuple(self.notation[2:]),
            f"after '{what}' notation is {n} instead of {self.notation}",
        )
        return snap
