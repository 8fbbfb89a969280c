"""Comparison of Hamiltonians that went through files.

Indices of atoms are not a part of the files (atoms are identified by names), and parts of
the notation that belong to absent parameters are not saved."""

import numpy as np

from vlib import oracle


def by_name(snap):
    s = dict(snap)
    s["atoms"] = [(a[0], 0, *a[2:]) for a in snap["atoms"]]
    s["exchange"] = {(a, 0, b, 0, r): J for (a, _, b, _, r), J in snap["exchange"].items()}
    s["on_site"] = {(a, 0): J for (a, _), J in snap["on_site"].items()}
    dc, sn, ef, of = snap["notation"]
    s["notation"] = (
        None if dc is None or not snap["exchange"] else bool(dc),
        None if sn is None or not (snap["exchange"] or snap["on_site"]) else bool(sn),
        ef if snap["exchange"] else None,
        of if snap["on_site"] else None,
    )
    return s


def undirected(snap):
    """Without double counting it is free which of the two halves of the bond is kept (the
    choice depends on the indices of atoms): one and the same half for each bond."""
    s = dict(snap)
    if snap["notation"][0] or snap["notation"][0] is None:
        return s
    s["exchange"] = {}
    for (a, x, b, y, r), J in snap["exchange"].items():
        m = tuple(-i for i in r)
        if repr((a, b, tuple(r))) <= repr((b, a, m)):
            s["exchange"][(a, x, b, y, r)] = J
        else:
            s["exchange"][(b, y, a, x, m)] = J.T
    return s


def difference(s1, s2, rtol=0.0, atol=0.0):
    return oracle.difference(by_name(s1), by_name(s2), rtol, atol)


def read(path):
    with open(path, "rb") as f:
        return f.read()


def listing(folder):
    import os

    found = {}
    for root, _, names in os.walk(folder):
        for n in names:
            p = os.path.join(root, n)
            found[os.path.relpath(p, folder)] = read(p)
    return found


def same(a, b):
    return np.array_equal(a, b)
