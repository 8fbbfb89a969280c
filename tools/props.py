"""Source of properties.jsonl and MANIFEST.json:  python tools/props.py"""

import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/magnopy/"
HAM, EN, PAR = S + "spinham/hamiltonian.py", S + "spinham/energy.py", S + "spinham/parameter.py"
DISP, COLPA = S + "magnons/dispersion.py", S + "magnons/diagonalization.py"
H5, TXT, VER = S + "io/hdf5/internal.py", S + "io/txt/internal.py", S + "io/txt/verify.py"
TB2J, VAMP, IO = S + "io/txt/tb2j.py", S + "io/txt/vampire.py", S + "io/__init__.py"
MIN, MD, CONV = S + "score/minimize_energy.py", S + "score/magnon_dispersion.py", S + "score/convert_tb2j.py"
GEO = S + "geometry.py"

PROPS = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=()):
    PROPS.append(locals())


prop(
    "P01", "Changing the notation never changes the physics",
    "Once the notation of a spin Hamiltonian is defined, any change of it (double counting, spin normalization, numerical factors, predefined names, one by one or all together) rescales the parameters so that the energy of every arrangement of spins stays the same. This holds at every point of every history of additions, removals, overwrites and copies, for bonds between any atoms and in any direction, including a parameter object that is given to several bonds. The notation that is read back is the one that was set; the first definition of a property of the notation only interprets the parameters and does not change them.",
    ["histories", "inputs", "configurations"],
    "all Hamiltonians with non-zero spins, all sequences of operations, all notations with non-zero factors",
    "Unit tests change one property of the notation of two or three small Hamiltonians; the guarantee is about every sequence of changes interleaved with edits, different spin values and mirrored bonds.",
    [HAM],
    [("notation setters", HAM + ": notation, double_counting, spin_normalized, exchange_factor, on_site_factor"),
     ("mirrors of bonds", HAM + ": _ensure_double_counting, _ensure_no_double_counting")],
    "runtime monitoring: shadow model of notation-free couplings, judged after every operation of random histories",
    "Every operation of the explored histories is judged against the shadow model; nothing is claimed for histories that were not generated.",
)
prop(
    "P02", "Mirrored bonds always agree with double counting",
    "With double counting the Hamiltonian holds, at every moment visible to the user, both directions of every bond, and the parameter of one is the transpose of the parameter of the other. Without double counting every bond is present exactly once. This is true after every public operation, also after the refused ones.",
    ["histories", "inputs"],
    "all sequences of public operations, also those that end with an exception, all atoms and translations",
    "Tests look at the mirrored bond right after one addition or one change of the notation; rewrites, removals of bonds and atoms, filters, copies and toggles in between are combinations.",
    [HAM],
    [("additions and removals keep the mirror", HAM + ": add_exchange, remove_exchange, remove_atom, filter"),
     ("toggle", HAM + ": _ensure_double_counting, _ensure_no_double_counting")],
    "runtime monitoring: hooks on all mutating operations with the mirror invariant judged after each of them",
    "Invariant is judged after each hooked public operation of the explored histories.",
    observe=["every public method and setter of the Hamiltonian that can change it"],
)
prop(
    "P03", "The Hamiltonian is a faithful container of its parameters",
    "A parameter that is written for a bond or for an atom is the one that is read back, is listed exactly once by the iteration, is counted by the length and by the membership test, until it is overwritten or removed; nothing else is affected. Atoms can be given by an object, by the name or by the full name with the same result; removal of an atom removes exactly the atom and the parameters in which it participates. Magnetic atoms are exactly the atoms that have at least one parameter, in the order of their indices, and access to an absent parameter is refused (or silently ignored by a removal, if the user asks for that). The spiral vector and the direction of the cone axis are the ones that were given at the moment of the assignment.",
    ["histories", "inputs"],
    "all sequences of operations, all sets of atoms with names that resemble each other, all translations",
    "Tests sample a few keys on a few fixed Hamiltonians; here every operation must agree with a dictionary for any history.",
    [HAM],
    [("key access", HAM + ": __contains__, __getitem__, __setitem__, __delitem__"),
     ("iteration", HAM + ": exchange, on_site, magnetic_atoms"),
     ("removal", HAM + ": remove_exchange, remove_on_site, remove_atom")],
    "runtime monitoring: lock-step execution with a dictionary model, judged after every operation",
    "Lock-step with the model on all explored histories.",
)
prop(
    "P04", "Copies, filtered Hamiltonians and crystals are independent",
    "A copy, a filtered Hamiltonian and an extracted crystal hold the same data as their source, and from that moment on no change of one side is visible on the other side. Filtering by distance and by a custom function keeps exactly the parameters that satisfy all given conditions (limits are included, under double counting a bond is kept together with its mirror, on-site parameters have zero distance) and touches nothing else. The filtered copy leaves the original unchanged.",
    ["histories", "inputs"],
    "all Hamiltonians, all mutations of any side after the separation, all filters",
    "Sharing of state is visible only for the particular kind of mutation of the particular kind of object; tests check equality right after copying.",
    [HAM],
    [("copy", HAM + ": copy, crystal, filtered"), ("filter", HAM + ": filter")],
    "runtime monitoring: snapshots of one side compared across random mutations of the other; filters against an independent selection",
    "Snapshots cover everything that is observable through the public interface.",
)
prop(
    "P05", "Parameters decompose and combine like 3x3 matrices",
    "The isotropic, symmetric anisotropic and antisymmetric (DMI) parts of a parameter always add up to its matrix, and each part and element is the one defined in the documentation. Assignment of one part or element changes that part or element only. Arithmetic gives the same result as with plain arrays and never changes the operands, and input of a wrong shape is refused without a change of the parameter.",
    ["inputs", "histories"],
    "all real 3x3 matrices, all sequences of assignments and operations",
    "Tests evaluate each accessor on several matrices separately; laws that link them and hold after any sequence of assignments are not sampled.",
    [PAR],
    [("decomposition", PAR + ": iso, aniso, dmi, symm_matrix, asymm_matrix and setters"),
     ("arithmetic", PAR + ": __add__, __mul__, __matmul__ ...")],
    "runtime monitoring: lock-step execution with a plain array, all parts judged after every operation",
    "Lock-step with plain arrays on all explored sequences.",
)
prop(
    "P06", "The exchange-like view has the same energy as the Hamiltonian",
    "Iteration over all parameters as if they were exchange parameters gives, with the exchange factor alone, the same energy for any directions of spins as the separate exchange and on-site parameters with their own factors. Exchange parameters are listed as they are, on-site ones as bonds of an atom with itself in the same cell. Iteration changes nothing in the Hamiltonian.",
    ["inputs", "configurations", "histories"],
    "all Hamiltonians and notations in which all four properties are defined, at any point of any history",
    "Existing tests only count the entries of this view.",
    [HAM],
    [("merged view", HAM + ": exchange_like")],
    "runtime monitoring: energies of random spin arrangements from the view and from the parameters compared during random histories",
    "Energy compared for random directions at random points of explored histories.",
)
prop(
    "P07", "Classical energies equal the explicit sum over the lattice",
    "The ferromagnetic, antiferromagnetic and spiral classical energies are, in meV per unit cell, the energies of the explicit arrangement of spins in which the spins of every cell are rotated around the cone axis by the angle given by the spiral vector, averaged over the lattice. They depend only on the directions of the given vectors, not on their lengths. They do not depend on the notation of the Hamiltonian, on the order of bonds or on its history.",
    ["inputs", "configurations", "histories"],
    "all Hamiltonians (DMI, on-site, several atoms, oblique cells), notations, spin directions, cone axes and spiral vectors",
    "There are no tests of energies against an explicit sum; only a few special cases can be enumerated.",
    [EN, HAM],
    [("energies", EN + ": Energy.ferro, Energy.antiferro, Energy.spiral"), ("preparation", EN + ": Energy.__init__")],
    "runtime monitoring: every returned energy compared with a brute-force lattice oracle",
    "Agreement with the brute-force sum to 1e-9 of the sum of magnitudes of terms.",
)
prop(
    "P08", "Zeeman energy is the sum of mu_B g h.S over the spins",
    "With a magnetic field (in Tesla) every classical energy, in meV, contains in addition the sum over the spins of the cell of Bohr magneton times g-factor times spin value times the projection of the direction of the spin (averaged over the lattice, thus only its projection on the cone axis survives in a spiral) on the field. Redefinition of the spin values and g-factors has the effect of the same values in the Hamiltonian. Removal of the field restores the energy without the field.",
    ["inputs", "configurations"],
    "all fields, g-factors, spin values, Hamiltonians, arrangements",
    "No test uses a magnetic field with several different g-factors and spins.",
    [EN],
    [("field", EN + ": Energy.magnetic_field, g_factors, spins and the energies")],
    "runtime monitoring: every returned energy compared with a brute-force lattice oracle with the field",
    "Agreement with the brute-force sum.",
)
prop(
    "P09", "Energy evaluation is pure",
    "Construction of the energy calculator, evaluation of energies and minimization change neither the Hamiltonian nor the arguments. A value depends only on its arguments: repeated evaluations, in any order and interleaved with minimizations, with changes of the source Hamiltonian (after construction) and with other calculators, return the same value. Minimization from the same initial guess gives the same result.",
    ["schedules", "histories", "inputs"],
    "all interleavings of evaluations, minimizations and mutations of the source",
    "Tests never evaluate twice around a mutation; hidden sharing or caches show up only for particular sequences.",
    [EN],
    [("own copy of the data", EN + ": Energy.__init__"), ("evaluation", EN + ": ferro, antiferro, spiral, optimize")],
    "runtime monitoring: snapshots of arguments and Hamiltonian around every call of random schedules, first value kept as the oracle",
    "Bit-wise or 1e-12 comparison with the first value within the explored schedules.",
)
prop(
    "P10", "Minimization descends, converges and tells the truth",
    "Minimization never returns a state with an energy above the one of the initial guess; without a limit of iterations being hit, the result is a stationary point within the tolerances that the user gave, and it consists of unit vectors. For Hamiltonians with a known ground state the minimum is found. The recorded history is complete and every line of it holds the energy of the state recorded in this line; energies in it do not grow.",
    ["inputs", "configurations"],
    "all initial guesses, fields, Hamiltonians with energies between 0.3 and 20 meV, three kinds of states",
    "Convergence from arbitrary points cannot be settled by several fixed starts; tests cover only helper functions.",
    [EN],
    [("gradients", EN + ": _ferro_grad, _antiferro_grad, _spiral_grad"), ("search", EN + ": optimize, _compute_search_direction, _lambda")],
    "runtime monitoring: recorded history of each minimization judged line by line, result judged with an independent gradient; watchdog for endless loops",
    "All recorded steps of the explored minimizations are judged.",
)
prop(
    "P11", "Bosonic diagonalization satisfies its definition",
    "For every positive definite Hermitian matrix of even size the diagonalization returns a transformation that diagonalizes the matrix, preserves the bosonic commutation relations, and gives the energies (first half for the particles in descending order, second half for the holes) that belong to it. A matrix that is not positive definite is refused with the documented error. The input is not changed.",
    ["inputs"],
    "all Hermitian positive definite matrices, including degenerate and ill-conditioned",
    "Tests check a few fixed matrices; degenerate spectra and arbitrary sizes are out of their reach.",
    [COLPA],
    [("algorithm of Colpa", COLPA + ": solve_via_colpa")],
    "runtime monitoring: returned energies and transformation substituted in the definitions",
    "Residuals of the definitions below rounding for condition numbers below 1e7.",
)
prop(
    "P12", "Magnon energies solve the linearized equations of motion",
    "For every Hamiltonian, directions of spins and wave vector the returned magnon energies are the frequencies of the spin waves given by the linearization of the equations of motion around these directions: N real energies in descending order for N magnetic atoms, in meV. Where the state is unstable at the wave vector, zeros (or not-a-number, if asked) are returned instead of energies. The spectrum of many points is the collection of the spectra of single points, and the returned transformation preserves the commutation relations of bosons.",
    ["inputs", "configurations"],
    "all Hamiltonians (DMI, on-site, non-collinear spins, different spin values, all notations), all wave vectors",
    "Existing tests check only the orthonormal frame and the diagonalization; energies themselves are not tested.",
    [DISP, COLPA],
    [("boson Hamiltonian", DISP + ": MagnonDispersion.J, A, B, C, h"), ("energies", DISP + ": omega, omegas")],
    "runtime monitoring: every returned spectrum compared with an independent linearized equation of motion",
    "Agreement within 1e-7 of the magnitude; points whose stability is decided by rounding are not judged.",
)
prop(
    "P13", "Equivalent descriptions of a magnet give the same magnons",
    "The spectrum is periodic in the reciprocal space and does not depend on the notation, on the global frame of spins, on the origin, on the choice of the cell of an atom, on the order of atoms and on the directions in which bonds are given; it folds in a supercell, scales with the parameters and is mirrored by the time reversal. Computation of magnons changes neither the Hamiltonian nor the wave vector. Later changes of the Hamiltonian do not change the spectrum computed by an existing object.",
    ["inputs", "configurations", "histories"],
    "all Hamiltonians with a stable state, all wave vectors, all listed equivalences",
    "Equivalences relate infinitely many pairs of inputs; tests have no such pair.",
    [DISP],
    [("construction", DISP + ": MagnonDispersion.__init__, span_orthonormal_set"), ("energies", DISP + ": omega")],
    "runtime monitoring: metamorphic pairs of executions compared, snapshots of the Hamiltonian around every call",
    "Agreement within 1e-6 of the top of the spectrum.",
)
prop(
    "P14", "Binary files keep the Hamiltonian exactly",
    "A Hamiltonian that is saved to an .hdf5 file and loaded back is the same Hamiltonian: cell, atoms in the same order with positions, spins, g-factors and charges, notation, all parameters, spiral vector and cone axis, bit for bit (the cone axis up to the rounding of its normalization; the properties of the notation that the stored parameters need). This holds for any number of atoms and parameters, for partially defined notations and empty Hamiltonians. Saving does not change the Hamiltonian, and the loaded one behaves as the original under any further operations.",
    ["inputs", "configurations", "histories"],
    "all Hamiltonians, also with tens of atoms and parameters",
    "Tests save and load one small Hamiltonian.",
    [H5],
    [("save", H5 + ": dump_spinham_hdf5"), ("load", H5 + ": load_spinham_hdf5")],
    "runtime monitoring: full snapshots before and after a round trip through real files compared bit for bit",
    "Bit-wise equality of everything observable for the explored Hamiltonians.",
)
prop(
    "P15", "Hamiltonians in one binary file do not disturb each other",
    "Several Hamiltonians saved to different groups of one .hdf5 file are all loaded back exactly, in any order of saves, overwrites and loads, together with foreign data in the same file. A save without the permission to overwrite, and a save of a Hamiltonian that can not be saved (notation is not defined), are refused and leave all existing data intact, also in the requested group. A save that is interrupted by an error of the file at any moment leaves all other groups intact and can be repeated.",
    ["histories", "fault_sequences", "crash_points"],
    "all sequences of saves and loads over nested and similar group names, failures injected at each write operation of a save",
    "Tests use one group in a new file and never fail in the middle.",
    [H5],
    [("groups", H5 + ": dump_spinham_hdf5, load_spinham_hdf5")],
    "runtime monitoring with fault injection: model of the file content judged after every operation, errors injected at every write call",
    "Injected errors are exceptions raised by calls of the file library inside a save; power loss in the middle of a library call is not modelled.",
)
prop(
    "P16", "Text files keep the Hamiltonian up to the printed precision",
    "A Hamiltonian that is saved to a text file and loaded back is the same Hamiltonian up to the number of printed digits: cell, atoms, spins (written as vectors or as angles), g-factors, charges, notation, parameters (one value per pair or repeated for both directions), spiral vector and cone axis. This holds for all options of the output format and for any order in which the data was created. Saving does not change the Hamiltonian.",
    ["inputs", "configurations"],
    "all Hamiltonians with unique names of atoms, all combinations of the options of the output",
    "Tests do not combine writing and reading; options multiply.",
    [TXT, VER, GEO],
    [("save", TXT + ": dump_spinham_txt, _write_exchange"), ("load", TXT + ": load_spinham_txt"), ("angles", GEO)],
    "runtime monitoring: snapshots before and after a round trip through real files compared within the printed precision",
    "Equality within the printed precision for the explored Hamiltonians.",
)
prop(
    "P17", "Text files are read as the documentation says",
    "Every file that follows the documented text format is accepted and gives the Hamiltonian that the documentation assigns to it: units and scales of all sections, relative and absolute coordinates, all ways to give a spin, notation, parameters as sums of their parts, order and letter case of keywords, comments and blank lines. The same model written in different ways gives the same Hamiltonian. Reading has no side effects on the file.",
    ["inputs", "configurations"],
    "all files derivable from the documented format",
    "Tests verify fragments of single sections; combinations of units, keywords and layouts are not read end to end.",
    [TXT, VER],
    [("sections", TXT + ": _read_cell, _read_atoms, _read_notation, _read_exchange, _read_bond, _read_on_site, _read_cone_axis, _read_spiral_vector"), ("filter", TXT + ": _filter_txt_file")],
    "runtime monitoring: random files from an independent writer of the documented grammar, loaded Hamiltonian compared with the intended one",
    "Grammar-based workload; every loaded file is compared with the meaning known to the writer.",
)
prop(
    "P18", "Malformed text files are refused, never silently misread",
    "A text file that violates the documented format (missing or empty required section, wrong amount or wrong type of the numbers in a line, unknown atom in a bond, wrong word for units, repeated or missing property of the notation, column of the atoms, value of the bond or section, foreign line in a bond, skipped position, missing or too short separator) is refused with the dedicated error and no Hamiltonian is returned. No other kind of error escapes. A valid file is never refused.",
    ["inputs", "fault_sequences"],
    "all valid files with one corruption of a listed kind, at any place of the file",
    "Tests feed handmade fragments to the internal verifiers; files are not corrupted systematically.",
    [VER, TXT],
    [("verification", VER + ": _verify_model_file and verifiers of the sections")],
    "runtime monitoring with fault injection: corrupted files given to the loader, every outcome classified",
    "Only corruptions that are certain violations of the documented format are judged as such.",
)
prop(
    "P19", "TB2J output is imported without loss",
    "Loading of an output file of TB2J gives the cell, the positions, charges and magnetic moments of the listed atoms and the parameter of every listed bond: isotropic, anisotropic symmetric and DMI parts in the notation of TB2J, in meV. Both directions of every bond agree. Layout of the file (number of atoms and bonds, presence of the anisotropic and DMI parts, additional lines) does not matter.",
    ["inputs", "configurations"],
    "all files in the format of TB2J",
    "Tests load two fixed files and look only at a few values.",
    [TB2J],
    [("reader", TB2J + ": load_tb2j")],
    "runtime monitoring: random files from an independent writer of the format, loaded Hamiltonian compared with the intended one",
    "Every loaded file is compared with the data known to the writer.",
)
prop(
    "P20", "Export to Vampire describes the same magnet",
    "Files exported for Vampire describe a magnet with the same energy for every arrangement of spins: cell, positions, interactions of all pairs (in Joules, in the notation of Vampire, on-site anisotropy as interaction of a spin with itself), materials and magnetic moments. Numbers announced in the headers agree with the content. Export changes nothing in the Hamiltonian, also when it fails.",
    ["inputs", "configurations", "histories"],
    "all Hamiltonians and notations, all assignments of materials",
    "There are no tests of the exported files.",
    [VAMP],
    [("export", VAMP + ": dump_vampire, dump_ucf, dump_mat")],
    "runtime monitoring: exported files parsed by an independent reader and the energy compared with the source",
    "Energies compared up to the printed precision.",
)
prop(
    "P21", "Formats are recognized and converted without loss",
    "Loading with the automatic detection of the format gives the same Hamiltonian as loading with the explicitly named format; all supported spellings of the format are accepted and unknown ones are refused. Conversion of a TB2J file to the text or binary format gives a file that holds the same Hamiltonian as the source. Names of files and folders do not matter.",
    ["inputs", "configurations"],
    "all supported formats, names of files and folders, options of the converter",
    "Tests do not go through the dispatcher and the converter end to end.",
    [IO, CONV],
    [("dispatch", IO + ": load_spinham"), ("conversion", CONV + ": manager")],
    "runtime monitoring: results of different routes of loading the same data compared",
    "All routes of the explored files are compared.",
)
prop(
    "P22", "Command line reports agree with the library",
    "Files written by the scripts for magnon dispersion and for minimization of energy contain the numbers that the library computes for the same input: wave vectors, energies of magnons, energies and directions of spins of the minimum. The picture of the dispersion shows every mode at every point. All announced files are written and nothing else. The scripts do not change their input files.",
    ["inputs", "configurations"],
    "all Hamiltonians, paths in the reciprocal space, fields and options of the scripts",
    "The scripts have no tests.",
    [MIN, MD],
    [("minimization", MIN + ": manager"), ("dispersion", MD + ": manager")],
    "runtime monitoring: output files of the real scripts judged by independent readers and by the library",
    "Numbers compared up to the printed precision.",
)
prop(
    "P23", "Standardization of the cell does not change the magnet",
    "Standardization changes only the choice of the cell: it is the standardized cell of the same lattice, every bond connects the same two places in the absolute coordinates with the same parameter, and the numbers of atoms and parameters, the notation, the spins and the spiral vector in absolute coordinates stay the same. Therefore energies and magnon spectra (as functions of absolute wave vectors) do not change. Repeated standardization changes nothing.",
    ["inputs", "histories"],
    "all Hamiltonians with a non-standard cell",
    "No test standardizes a Hamiltonian with bonds in a cell that is not standard already.",
    [HAM],
    [("standardization", HAM + ": standardize")],
    "runtime monitoring: absolute vectors of all bonds and the spectra compared across the operation",
    "Vectors compared within 1e-6 of the size of the cell.",
)
prop(
    "P24", "Refused operations leave everything as it was",
    "An operation with invalid arguments (unknown or ambiguous atom, absent bond, wrong shape or type of data, unknown name or impossible properties of the notation, impossible values of the settings of the minimization) raises an error of the documented kind. The object on which it was called is not changed at all. Later legal operations work as if the refused ones never happened.",
    ["fault_sequences", "histories", "inputs"],
    "all refused operations at any point of any history",
    "Tests check that an exception is raised, not that the state survived it.",
    [HAM, EN, PAR, DISP],
    [("checks of arguments", HAM + ": all setters and additions; " + EN + ": setters")],
    "runtime monitoring with fault injection: snapshots around refused operations in random histories",
    "Everything observable is compared around each refused operation.",
)
prop(
    "P25", "Binary files are read as the documentation says",
    "Every .hdf5 file with the documented structure is read with the documented meaning: units of the cell and of the energies, absolute and relative vectors, order of atoms, one or both directions of a bond, any type of numbers, other content of the file ignored. A file that breaks one of the rules (missing group or data, unknown units, unknown atom) is refused with an error. Reading never changes the file.",
    ["inputs", "configurations"],
    "all files with the documented structure, whoever wrote them",
    "Tests read only the files that magnopy itself has written.",
    [H5],
    [("reader", H5 + ": load_spinham_hdf5")],
    "runtime monitoring: files of an independent writer, meaning known to the writer compared with what was loaded",
    "All data of the explored files are compared.",
)

prop(
    "P26", "Matrices of the magnon Hamiltonian follow their formulas",
    "For every Hamiltonian and wave vector the matrices J(k), A(k), B(k), C and h(k) of the magnon dispersion are the documented sums over all neighbours: spins are the vectors of the magnetic atoms in their order, v and u form a right-handed frame with the spin as the third axis, h(k) is Hermitian and assembled from the blocks. The transformation returned with the energies diagonalizes h(k) and preserves the commutation relations; energies are real unless the imaginary part is asked for. All of that is the same for every notation of the source Hamiltonian and for every type of the collection of wave vectors.",
    ["inputs", "configurations"],
    "all Hamiltonians (DMI, on-site, all notations, spins along any direction), all wave vectors",
    "Existing tests check only the orthonormal frame and the diagonalization; the matrices are not tested.",
    [DISP],
    [("matrices", DISP + ": MagnonDispersion.J, A, B, C, h"), ("frames", DISP + ": span_orthonormal_set"), ("transformation", DISP + ": omega")],
    "runtime monitoring: every returned matrix compared with the documented sum computed from notation-free couplings",
    "Agreement within 1e-7 of the sum of magnitudes.",
)


def main():
    have = [p for p in PROPS if os.path.exists(f"{VERIF}/checks/{p['id'].lower()}.py")]
    with open(f"{VERIF}/properties.jsonl", "w", encoding="utf-8") as f:
        for p in have:
            assert len(p["title"]) <= 80, p["title"]
            f.write(
                json.dumps(
                    {
                        "id": p["id"],
                        "title": p["title"],
                        "statement": p["statement"],
                        "quantifier": {"over": p["over"], "text": p["text"]},
                        "why_tests_cant": p["why"],
                        "anchors": {
                            "files": p["files"],
                            "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                            "observe_at": list(p["observe"]) or [b for _, b in p["mech"]],
                            "hook_needed": None,
                        },
                    }
                )
                + "\n"
            )
    manifest = {
        "version": 1,
        "setup_cmd": "bash setup.sh",
        "checks": [
            {
                "property": p["id"],
                "quick_cmd": f"bash run.sh {p['id']} quick",
                "thorough_cmd": f"bash run.sh {p['id']} thorough",
                "evidence_file": f"evidence/{p['id']}.json",
                "technique": p["technique"],
                "level": "exploration",
                "level_note": p["note"],
            }
            for p in have
        ],
        "not_applicable": [],
        "notes": "magnopy is imported directly from /repo/src of the current working tree; instrumentation is attached at run time from /verif, there are no hooks in /repo. Genuine defects that were repaired are listed in known_findings.txt.",
    }
    with open(f"{VERIF}/MANIFEST.json", "w", encoding="utf-8") as f:
        json.dump(manifest, f, indent=1)
        f.write("\n")
    print(len(have), "properties")


main()
