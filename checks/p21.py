"""All routes of loading give the same Hamiltonian; conversion is faithful."""

import os
import sys

import numpy as np

from vlib import files, gen, oracle, tb2j, txtmodel

PROP = "P21"
QUICK, THOROUGH = 4000, 40000
RULE = (
    "The same data in files of three formats, with names and folders that resemble other "
    "formats, is loaded through the dispatcher with the guessed and with the explicit format "
    "(all spellings) and compared with the known content; files of TB2J are converted with the "
    "script (as a function and from the command line) and the results are compared with the "
    "source.  Distinct = distinct (format, name, spelling, options)."
)
EXPECT = {
    "guessed": 800,
    "explicit": 800,
    "refused": 150,
    "with options": 150,
    "converted to text": 250,
    "converted to binary": 250,
    "command line": 250,
    "default name": 20,
    "conversion refused": 30,
    "output is present": 100,
}
ASSUMPTIONS = []

FOLDERS = ("", "x.hdf5", "exchange.out", "a b", "é")
TXT = ("model.txt", "model", "exchange.out.txt", "hdf5", "x.hdf5.txt", "exchange.dat", "a.HDF5x", "txt")
BIN = ("a.hdf5", "exchange.out.hdf5", "a.txt.hdf5", ".hdf5", "txt.hdf5")
TB = ("exchange.out", "my_exchange.out", "x.hdf5_exchange.out", "txt-exchange.out")
OTHER = ("file", "x.dat", "tb2j", "exchange.out", "a.hdf5", "a.txt", "out")


def spell(rng, w):
    return gen.pick(rng, (w, w.upper(), w.capitalize(), "".join(gen.pick(rng, (x, x.upper())) for x in w)))


def place(rng, folder, names):
    sub = gen.pick(rng, FOLDERS)
    d = os.path.join(folder, sub)
    os.makedirs(d, exist_ok=True)
    return os.path.join(d, gen.pick(rng, names))


def routes(c, kind, write, judge, kwargs=None, own=()):
    """Write the file under different names and load it."""
    from magnopy import load_spinham

    rng = c.rng
    folder = c.tmp()
    kwargs = kwargs or {}
    first = None
    for explicit in (False, True):
        path = place(rng, os.path.join(folder, str(explicit)), OTHER if explicit else own)
        write(path)
        data = files.listing(folder)
        if gen.chance(rng, 0.3):
            os.chdir(os.path.dirname(path))
            path = gen.pick(rng, (os.path.basename(path), "./" + os.path.basename(path)))
        if explicit:
            f = spell(rng, kind)
            c.op("load", path, f, kwargs)
            h = load_spinham(path, spinham_format=f, **kwargs) if gen.chance(rng, 0.5) else load_spinham(path, f, **kwargs)
            c.ev("explicit")
            c.state((kind, os.path.basename(path), f))
        else:
            c.op("load", path, kwargs)
            h = load_spinham(path, **kwargs)
            c.ev("guessed")
            c.state((kind, os.path.basename(path)))
        judge(h)
        if kwargs:
            c.ev("with options")
        c.check(files.listing(folder) == data or "save_filtered" in kwargs, "loading changed the files")
        s = oracle.snapshot(h) if kind != "tb2j" else bonds(h)
        if first is not None:
            d = oracle.difference(first, s) if kind != "tb2j" else (None if str(first) == str(s) else "bonds")
            c.check(d is None, f"two routes give different Hamiltonians: {d}")
        first = s
        if gen.chance(rng, 0.15):
            bad = gen.pick(rng, ("text", "h5", "tb2", "", "hdf", "txt ", ".txt", "vampire", "exchange.out"))
            c.raises(ValueError, lambda: load_spinham(path, spinham_format=bad), f"format {bad!r}")
            c.ev("refused")


def bonds(h):
    return [(a.name, b.name, tuple(r), np.array(J.matrix).tolist()) for a, b, r, J in h.exchange]


def case_txt(c):
    from checks import p17

    sections, exp = txtmodel.document(c.rng)
    text = txtmodel.render(c.rng, sections)

    def write(path):
        with open(path, "w", encoding="utf-8", newline="") as f:
            f.write(text)

    kw = {"save_filtered": True} if gen.chance(c.rng, 0.2) else {}
    routes(c, "txt", write, lambda h: p17.compare(c, oracle.snapshot(h), exp), kw, TXT)


def case_hdf5(c):
    from checks import p14
    from magnopy import dump_spinham_hdf5

    rng = c.rng
    h, kind = p14.hamiltonian(c)
    before = oracle.snapshot(h)
    group = gen.pick(rng, (None, None, "spinham", "a/b", "x y"))

    def write(path):
        kw = {} if group is None else {"groupname": group}
        dump_spinham_hdf5(h, path, **kw)

    def judge(g):
        # normalization of the cone axis is not exact
        d = files.difference(before, oracle.snapshot(g), rtol=1e-14, atol=1e-15)
        c.check(d is None, f"loaded Hamiltonian differs: {d}")

    kw = {"groupname": "spinham" if group is None else group}
    routes(c, "hdf5", write, judge, kw, BIN)


def case_tb2j(c):
    from checks import p19

    m = tb2j.model(c.rng)
    text = tb2j.render(c.rng, m)

    def write(path):
        with open(path, "w", encoding="utf-8") as f:
            f.write(text)

    kw = {"quiet": gen.chance(c.rng, 0.5)} if gen.chance(c.rng, 0.5) else {}
    routes(c, "tb2j", write, lambda h: p19.compare(c, h, m), kw, TB)


def case_convert(c):
    from checks import p16, p19
    from magnopy import load_spinham_hdf5, load_spinham_txt, load_tb2j
    from magnopy.score import convert_tb2j

    rng = c.rng
    m = tb2j.model(rng)
    text = tb2j.render(rng, m)
    folder = c.tmp()
    source = place(rng, folder, OTHER)
    with open(source, "w", encoding="utf-8") as f:
        f.write(text)
    h = load_tb2j(source)
    p19.compare(c, h, m)
    work = os.path.join(folder, "work")
    os.mkdir(work)
    os.chdir(work)
    out = gen.pick(rng, (None, "a.txt", "a.hdf5", "a", "x y.hdf5", "b.txt.hdf5", "c.hdf5.txt", "sub.hdf5/d", "text.txt", "tx.txt", "x.t.xt.txt", "5fdh.hdf5", "next.hdf5.hdf5", "t.txt.txt", ".txt.hdf5", "sub.txt/e.hdf5", "é"))
    fmt = gen.pick(rng, (None, None, "txt", "hdf5"))
    if out and "/" in out:
        os.mkdir(out.split("/")[0])
    data = files.read(source)
    cli = gen.chance(rng, 0.5)
    c.op("convert", source, out, fmt, cli)
    if gen.chance(rng, 0.08):
        f = gen.pick(rng, ("h5", "text", "json"))
        if cli:
            c.raises(SystemExit, lambda: command(convert_tb2j.main, ["-if", source, "-of", "x", "-f", f]), "unknown format")
        else:
            c.raises(RuntimeError, lambda: convert_tb2j.manager(source, "x", f), "unknown format")
        c.check(not files.listing(work), "files appeared after the refused conversion")
        c.ev("conversion refused")
    if gen.chance(rng, 0.2):
        # The output of another conversion is already there
        other = os.path.join(folder, "other.out")
        with open(other, "w", encoding="utf-8") as f:
            f.write(tb2j.render(rng, tb2j.model(rng)))
        kw = {} if out is None else {"output_filename": out}
        convert_tb2j.manager(input_filename=other, **kw, **({} if fmt is None else {"format": fmt}))
        os.remove(other)
        c.ev("output is present")
        if (fmt or ("hdf5" if out and out.endswith(".hdf5") else "txt")) == "hdf5":
            # Existing group is never replaced
            old = files.listing(work)
            kw = {} if out is None else {"output_filename": out}
            c.raises(FileExistsError, lambda: convert_tb2j.manager(source, **kw, format=fmt), "conversion to the same group")
            c.check(files.listing(work) == old, "refused conversion changed the file")
            return
    if cli:
        argv = [gen.pick(rng, ("-if", "--input-filename")), source]
        if out is not None:
            argv += [gen.pick(rng, ("-of", "--output-filename")), out]
        if fmt is not None:
            argv += [gen.pick(rng, ("-f", "--format")), fmt]
        if gen.chance(rng, 0.3):
            argv += ["-v"]
        command(convert_tb2j.main, argv)
        c.ev("command line")
    else:
        kw = {"verbose": True} if gen.chance(rng, 0.3) else {}
        if out is not None:
            kw["output_filename"] = out
        if fmt is not None:
            kw["format"] = spell(rng, fmt)
        convert_tb2j.manager(input_filename=source, **kw)
    name = "spinham.txt" if out is None else out
    if out is None:
        c.ev("default name")
    kind = fmt or ("hdf5" if name.endswith(".hdf5") else "txt")
    have = list(files.listing(work))
    c.check(len(have) == 1, f"files after the conversion: {have}")
    if kind == "hdf5":
        # ".txt" is removed, ".hdf5" is added
        base = name[:-4] if name.endswith(".txt") else name
        want = base if base.endswith(".hdf5") else base + ".hdf5"
    else:
        want = name
    c.check(have == [want], f"file {have} instead of {want}")
    c.check(files.read(source) == data, "conversion changed the source")
    before = oracle.snapshot(h)
    if kind == "hdf5":
        g = load_spinham_hdf5(want, groupname="spinham")
        d = files.difference(before, oracle.snapshot(g))
        c.check(d is None, f"converted Hamiltonian differs: {d}")
        c.ev("converted to binary")
    else:
        g = load_spinham_txt(want)
        o = {k: k == "write_matrix" for k in p16.OPTIONS}
        p16.compare(c, before, oracle.snapshot(g), o)
        c.ev("converted to text")
    c.state((kind, out, fmt, cli))


def command(main, argv):
    old = sys.argv
    sys.argv = ["magnopy-convert-tb2j"] + [str(x) for x in argv]
    try:
        return main()
    finally:
        sys.argv = old


def case(c):
    r = c.rng.random()
    if r < 0.25:
        case_txt(c)
    elif r < 0.4:
        case_hdf5(c)
    elif r < 0.6:
        case_tb2j(c)
    else:
        case_convert(c)
