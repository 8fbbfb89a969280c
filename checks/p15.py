"""Several Hamiltonians in one .hdf5 file; refused and failed saves."""

import contextlib
import gc
import os

import h5py
import numpy as np

from vlib import files, gen, oracle

PROP = "P15"
QUICK, THOROUGH = 600, 10000
RULE = (
    "Random sequences of saves (to new groups, over existing ones with and without the "
    "permission, refused because of the data, interrupted by an error of the file library "
    "at a random call) and loads over one file with foreign data; after every operation "
    "all groups are loaded and compared with the model of the file.  Distinct = distinct "
    "(operation, set of groups)."
)
EXPECT = {
    "saved to a new group": 1000,
    "overwritten": 80,
    "not overwritten": 300,
    "refused because of the data": 200,
    "interrupted": 300,
    "groups judged": 5000,
    "detected group": 300,
    "ambiguous group": 200,
    "missing group": 100,
}
ASSUMPTIONS = [
    "a group that contains other Hamiltonians is never overwritten",
    "own group of an interrupted save is not judged (only the other groups are)",
    "faults are errors raised by calls of the file library",
]
GROUPS = ("spinham", "a", "a/b", "a/b/c", "ab", "A", "1", "10", "x/y", "x/y/z", "x/yz", "spinham/old", "Spin ham")


class Injected(OSError):
    pass


@contextlib.contextmanager
def fault_at(n):
    """The n-th call that writes to the file fails."""
    count = [0]
    saved = (h5py.Group.create_dataset, h5py.Group.create_group)

    def wrap(fn):
        def f(self, *args, **kwargs):
            count[0] += 1
            if count[0] == n:
                raise Injected(28, "No space left on device")
            return fn(self, *args, **kwargs)

        return f

    h5py.Group.create_dataset = wrap(saved[0])
    h5py.Group.create_group = wrap(saved[1])
    try:
        yield count
    finally:
        h5py.Group.create_dataset, h5py.Group.create_group = saved


def foreign(path):
    """All data that do not belong to Hamiltonians."""
    with h5py.File(path, "r") as f:
        if "foreign" not in f:
            return None
        g = f["foreign"]
        return (
            g["data"][:].tolist(),
            dict(g.attrs),
            sorted(g),
        )


def case(c):
    from magnopy import dump_spinham_hdf5, load_spinham_hdf5
    from magnopy.exceptions import NotationError

    rng = c.rng
    path = os.path.join(c.tmp(), "file.hdf5")
    model = {}
    n_foreign = None
    if gen.chance(rng, 0.5):
        n_foreign = rng.normal(size=4).tolist()
        with h5py.File(path, "w") as f:
            g = f.create_group("foreign")
            g.create_dataset("data", data=n_foreign)
            g.attrs["type"] = "Something"
            f.attrs["note"] = "top"

    def judge(what):
        if not os.path.exists(path):
            c.check(not model, f"after '{what}' the file does not exist")
            return
        if n_foreign is not None:
            c.check(
                foreign(path) == (n_foreign, {"type": "Something"}, ["data"]),
                f"after '{what}' foreign data are {foreign(path)}",
            )
        for group, snap in model.items():
            d = files.difference(snap, oracle.snapshot(load_spinham_hdf5(path, group)), atol=1e-15)
            c.check(d is None, f"after '{what}' group {group} is different: {d}")
            c.ev("groups judged")
        c.state((what.split(" in ")[0], sorted(model)))

    def inside(group):
        return [g for g in model if g.startswith(group + "/")]

    def exists(group):
        return group in model or inside(group)

    for _ in range(int(rng.integers(3, 9))):
        group = gen.pick(rng, GROUPS)
        s = gen.spec(rng, n_bonds=int(rng.integers(0, 5)))
        h = gen.build(rng, s)
        snap = oracle.snapshot(h)
        r = rng.random()
        if r < 0.55 or not model:
            if not exists(group):
                what = f"save in {group}"
                c.op(what)
                dump_spinham_hdf5(h, path, groupname=group, overwrite=gen.chance(rng, 0.3))
                model[group] = snap
                c.ev("saved to a new group")
            elif gen.chance(rng, 0.6) and not inside(group):
                what = f"overwrite in {group}"
                c.op(what)
                dump_spinham_hdf5(h, path, groupname=group, overwrite=True)
                model[group] = snap
                c.ev("overwritten")
            else:
                what = f"save without permission in {group}"
                c.op(what)
                c.raises(
                    FileExistsError,
                    lambda: dump_spinham_hdf5(h, path, groupname=group),
                    what,
                )
                c.ev("not overwritten")
        elif r < 0.67:
            group = gen.pick(rng, sorted(model))
            what = f"save without permission in {group}"
            c.op(what)
            c.raises(
                FileExistsError, lambda: dump_spinham_hdf5(h, path, groupname=group), what
            )
            c.ev("not overwritten")
        elif r < 0.8:
            # Not all necessary properties of the notation are defined
            s = gen.spec(rng, n_bonds=3, p_onsite=1)
            bad = gen.build(rng, s, with_notation=False)
            for attr, value in zip(
                ("double_counting", "spin_normalized", "exchange_factor", "on_site_factor"),
                s.notation,
            ):
                if gen.chance(rng, 0.5):
                    setattr(bad, attr, value)
            if None not in oracle.snapshot(bad)["notation"] or not s.bonds:
                continue
            over = gen.chance(rng, 0.6)
            if over and model and gen.chance(rng, 0.7):
                group = gen.pick(rng, sorted(model))
            if exists(group) and not over:
                errors = (NotationError, FileExistsError)
            else:
                errors = NotationError
            what = f"refused save in {group}"
            c.op(what, over)
            c.raises(
                errors,
                lambda: dump_spinham_hdf5(bad, path, groupname=group, overwrite=over),
                what,
            )
            c.ev("refused because of the data")
        else:
            if inside(group):
                continue
            over = gen.chance(rng, 0.5) or group in model
            n = int(rng.integers(1, 25))
            what = f"interrupted save in {group}"
            c.op(what, "call", n)
            try:
                with fault_at(n):
                    dump_spinham_hdf5(h, path, groupname=group, overwrite=over)
                model[group] = snap
            except Injected:
                c.ev("interrupted")
                model.pop(group, None)
                gc.collect()
                judge(what)
                # There is the space again
                what = f"repeated save in {group}"
                dump_spinham_hdf5(h, path, groupname=group, overwrite=True)
                model[group] = snap
        judge(what)
        d = oracle.difference(snap, oracle.snapshot(h))
        c.check(d is None, f"'{what}' changed the Hamiltonian: {d}")
        # The group can be found if it is the only one
        if os.path.exists(path):
            if len(model) == 1:
                g = load_spinham_hdf5(path)
                d = files.difference(next(iter(model.values())), oracle.snapshot(g), atol=1e-15)
                c.check(d is None, f"automatically detected group is different: {d}")
                c.ev("detected group")
            else:
                c.raises(RuntimeError, lambda: load_spinham_hdf5(path), "choice of the group")
                c.ev("ambiguous group")
            missing = [g for g in GROUPS if not exists(g)]
            if missing and gen.chance(rng, 0.3):
                m = gen.pick(rng, missing)
                c.raises(KeyError, lambda: load_spinham_hdf5(path, m), f"absent group {m}")
                c.ev("missing group")
