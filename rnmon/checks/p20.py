"""P20: damaged files are reported, never half-read."""

import os
import re
import shutil
import tempfile

import numpy as np

from rnmon import gen, genfiles
from rnmon.core import Violation, case, digest

RULE = "distinct (file kind, reader, kind of damage, place of damage) for which the reader's outcome was judged"
ASSUMPTIONS = [
    "damage: truncation at line and token boundaries, lost lines, junk in place of a token, foreign contents; a number replaced by another valid number is undetectable and not injected",
    "a damaged header may hide whole frames of an OUTCAR trajectory: any ordered selection of intact frames is accepted there",
    "lines of the POTCAR list are not dropped one by one, nor is their keyword damaged (the list has no redundancy in some VASP versions)",
]
REQUIRED_EVENTS = ["reported", "intact", "truncations", "lost lines", "lost sections", "junk tokens", "lost tokens", "doubled tokens", "damaged headers", "damaged numbers", "damaged lattices", "foreign files", "missing files", "damaged collections", "models kept"]

JUNK = ["****", "abc", "1.0.0", "--", "1e", "0x1F", "?", "12-"]


# one character takes the place of one of the number, more take its place
INVALID = ["x", "O", "l", "*", "_", ",", ";", ":", "\0", "\udcff", "\u0663", "\u00e9", "nan", "NaN", "inf", "-inf", "Infinity", "1_0", "1e999", "********", "0,5", "1.0D"]
NUMBER = re.compile(r"(?<![\w.])-?\d+(\.\d+)?(?![\w.])")
NUMBERS = re.compile(r"-?\d+\.\d+(\s+-?\d+\.\d+)*")


def lattice_lines(kind):
    """First lines of the lattices of a file."""
    if kind.name.startswith("OUTCAR"):
        return [k + 1 for k, line in enumerate(kind.lines) if "direct lattice vectors" in line]
    if kind.name.startswith("vasprun"):
        return [k + 1 for k, line in enumerate(kind.lines) if 'name="basis"' in line]
    return [2]


def plain(result):
    """Comparable form of what a reader returned."""
    name = type(result).__name__
    if name == "Phonons":
        return (result.ref_positions, result.wavenumbers, result.displacements)
    if name == "Trajectory":
        return (result.positions_ts, result.timestep)
    if name == "ReferenceStructure":
        return (result.lattice, result.atomic_numbers, result.positions)
    if name == "PolarizabilityDataset":
        return (np.asarray(result.positions), np.asarray(result.polarizabilities), np.asarray(result.atomic_numbers))
    if isinstance(result, tuple):
        return tuple(x.copy() if isinstance(x, np.ndarray) else x for x in result)
    return (np.array(result),)


def equal(a, b):
    return digest(a) == digest(b)


def subsequence(frames, whole):
    k = 0
    for frame in frames:
        while k < len(whole) and not np.array_equal(frame, whole[k]):
            k += 1
        if k == len(whole):
            return False
        k += 1
    return len(frames) > 0


class Kind:
    """A file kind: text plus the readers that apply to it."""

    def __init__(self, name, lines, readers, frames=()):
        self.name = name
        self.lines = lines
        self.readers = readers  # name -> function(path)
        self.frames = set(frames)  # readers that return a series of frames


def kinds(rng, index):
    from ramannoodle.io import generic
    from ramannoodle.io.vasp import outcar, poscar, vasprun, xdatcar

    def small():
        return genfiles.calc(rng, n_types=int(rng.integers(1, 4)), max_count=2, kind="skew")

    which = index % 8
    potcar = "ABC"[(index // 8) % 3]
    if which == 0:
        c = genfiles.add_polarizability(small(), rng)
        return c, Kind("OUTCAR eps", genfiles.outcar(c, rng, potcar), {
            "positions_and_polarizability": outcar.read_positions_and_polarizability,
            "structure_and_polarizability": outcar.read_structure_and_polarizability,
            "positions": outcar.read_positions,
            "ref_structure": outcar.read_ref_structure,
            "generic": lambda p: generic.read_structure_and_polarizability(p, "outcar"),
            "dataset": outcar.read_polarizability_dataset,
        })
    if which == 1:
        c = genfiles.add_phonons(genfiles.calc(rng, n_types=int(rng.integers(1, 3)), max_count=2, kind="skew"), rng)
        return c, Kind("OUTCAR phonons", genfiles.outcar(c, rng, potcar, decoys=False), {
            "phonons": outcar.read_phonons,
            "generic": lambda p: generic.read_phonons(p, "outcar"),
        })
    if which == 2:
        c = genfiles.add_md(small(), rng, frames=int(rng.integers(1, 5)), mode=["ai", "ml"][int(rng.integers(2))])
        return c, Kind("OUTCAR MD", genfiles.outcar(c, rng, potcar), {
            "trajectory": outcar.read_trajectory,
            "generic": lambda p: generic.read_trajectory(p, "outcar"),
            "positions": outcar.read_positions,
        }, {"trajectory", "generic"})
    if which == 3:
        c = genfiles.add_polarizability(small(), rng)
        return c, Kind("vasprun eps", genfiles.vasprun(c, rng), {
            "positions_and_polarizability": vasprun.read_positions_and_polarizability,
            "structure_and_polarizability": vasprun.read_structure_and_polarizability,
            "positions": vasprun.read_positions,
            "ref_structure": vasprun.read_ref_structure,
            "generic": lambda p: generic.read_positions_and_polarizability(p, "vasprun.xml"),
            "dataset": vasprun.read_polarizability_dataset,
        })
    if which == 4:
        c = genfiles.add_phonons(genfiles.calc(rng, n_types=int(rng.integers(1, 3)), max_count=2, kind="skew"), rng)
        return c, Kind("vasprun phonons", genfiles.vasprun(c, rng), {"phonons": vasprun.read_phonons})
    if which == 5:
        c = genfiles.add_md(small(), rng, frames=int(rng.integers(1, 5)))
        return c, Kind("vasprun MD", genfiles.vasprun(c, rng), {
            "trajectory": vasprun.read_trajectory,
            "generic": lambda p: generic.read_trajectory(p, "vasprun.xml"),
        }, {"trajectory", "generic"})
    if which == 6:
        c = small()
        scale = [1.0, 2.5, -50.0][int(rng.integers(3))]
        lines, _ = genfiles.poscar(c, rng, scale=scale, cartesian=bool(rng.integers(2)), selective=bool(rng.integers(2)), trailing=bool(rng.integers(2)))
        return c, Kind("POSCAR", lines, {
            "positions": poscar.read_positions,
            "structure": poscar.read_structure,
            "ref_structure": poscar.read_ref_structure,
            "generic": lambda p: generic.read_positions(p, "poscar"),
        })
    c = small()
    frames = rng.random((int(rng.integers(1, 5)), c.n, 3))
    return c, Kind("XDATCAR", genfiles.xdatcar(c, frames), {
        "positions_ts": xdatcar.read_positions_ts,
        "trajectory": lambda p: xdatcar.read_trajectory(p, 1.5),
        "positions": poscar.read_positions,
        "structure": poscar.read_structure,
    }, {"positions_ts", "trajectory"})


def judge(mon, kind, reader, path, intact, what, allow_selection=False):
    from ramannoodle.exceptions import InvalidFileException, SymmetryException

    allowed = (InvalidFileException, SymmetryException) if reader == "ref_structure" else (InvalidFileException,)
    mon.oracles += 1
    try:
        result = plain(kind.readers[reader](path))
    except allowed:
        mon.event("reported")
        return
    except Exception as exc:
        raise Violation(f"{kind.name} / {reader} / {what}: unrelated {type(exc).__name__}: {exc}") from exc
    if equal(result, intact):
        mon.event("intact")
        return
    if allow_selection and reader in kind.frames:
        frames, whole = result[0], intact[0]
        if frames.shape[1:] == whole.shape[1:] and subsequence(frames, whole) and equal(result[1:], intact[1:]):
            mon.event("intact frames only")
            return
    raise Violation(f"{kind.name} / {reader} / {what}: returned other data\n    got {result}\n    intact {intact}")


def write(folder, text):
    path = os.path.join(folder, "damaged")
    with open(path, "wb") as file:
        file.write(text if isinstance(text, bytes) else text.encode("utf-8"))
    return path


def sections(lines):
    """(start, end) of all elements of an XML file, or of all paragraphs of a text file."""
    found = []
    if lines[0].startswith("<?xml"):
        opened = []
        for k, line in enumerate(lines):
            for closing, tag, rest in re.findall(r"<(/?)([A-Za-z_]+)([^>]*)>", line):
                if closing:
                    begun, start = opened.pop()
                    assert begun == tag
                    if start != k:
                        found.append((start, k + 1))
                elif not rest.endswith("/"):
                    opened.append((tag, k))
        return found[:-1]
    start = None
    for k, line in enumerate(lines + [""]):
        blank = not line.strip() or set(line.strip()) == {"-"}
        if blank and start is not None:
            found.append((start, k))
            start = None
        elif not blank and start is None:
            start = k
    return found


def in_folder(fn):
    def run(mon, rng, index):
        folder = tempfile.mkdtemp(prefix="rnmon_p20_")
        try:
            fn(mon, rng, index, folder)
        finally:
            shutil.rmtree(folder)

    run.__name__ = fn.__name__
    return run


def baseline(mon, kind, folder, original):
    intact = {}
    for name, fn in list(kind.readers.items()):
        try:
            intact[name] = plain(fn(original))
        except Exception as exc:
            if type(exc).__name__ != "SymmetryException":
                raise
            del kind.readers[name]
    return intact


@case(quick=40, thorough=1200)
@in_folder
def damaged(mon, rng, index, folder):
    _, kind = kinds(rng, index)
    lines = kind.lines
    original = os.path.join(folder, "original")
    genfiles.save(original, lines)
    intact = baseline(mon, kind, folder, original)
    readers = list(kind.readers)
    text = "\n".join(lines) + "\n"
    budget = 400 if mon.thorough else 45

    # truncation after every line (sampled), and after tokens
    places = rng.permutation(len(lines))[:budget]
    for k in places:
        cut = "\n".join(lines[:k]) + ("\n" if k and rng.random() < 0.7 else "")
        path = write(folder, cut)
        reader = readers[int(rng.integers(len(readers)))]
        judge(mon, kind, reader, path, intact[reader], f"cut after {k} of {len(lines)} lines ({lines[k - 1]!r} last)", True)
        mon.event("truncations")
        mon.nontrivial(kind.name, reader, "cut", int(k), len(lines))
    ends = [i for i in range(1, len(text)) if text[i].isspace() and not text[i - 1].isspace()]
    for i in rng.permutation(ends)[: budget // 2]:
        path = write(folder, text[: int(i)])
        reader = readers[int(rng.integers(len(readers)))]
        judge(mon, kind, reader, path, intact[reader], f"cut after character {i}: ...{text[max(0, i - 60) : i]!r}", True)
        mon.event("truncations")
        mon.nontrivial(kind.name, reader, "cut char", int(i))
    # lost lines
    for k in rng.permutation(len(lines))[:budget]:
        if "POTCAR" in lines[k]:
            continue
        path = write(folder, "\n".join(lines[:k] + lines[k + 1 :]) + "\n")
        reader = readers[int(rng.integers(len(readers)))]
        judge(mon, kind, reader, path, intact[reader], f"line {k} lost: {lines[k]!r}", True)
        mon.event("lost lines")
        mon.nontrivial(kind.name, reader, "lost", int(k))
    # whole sections lost, or swapped for nothing but their frame
    found = sections(lines)
    for k in rng.permutation(len(found))[:budget]:
        start, end = found[k]
        if any("POTCAR" in line for line in lines[start:end]):
            continue
        path = write(folder, "\n".join(lines[:start] + lines[end:]) + "\n")
        for reader in readers:
            judge(mon, kind, reader, path, intact[reader], f"section of lines {start} to {end} lost: {lines[start]!r}", True)
        mon.event("lost sections")
        mon.nontrivial(kind.name, "section", start, end)
    # junk in place of a token
    for k in rng.permutation(len(lines))[:budget]:
        tokens = lines[k].split()
        if not tokens:
            continue
        junk = JUNK[int(rng.integers(len(JUNK)))]
        t = int(rng.integers(len(tokens)))
        if "POTCAR" in tokens[t]:
            continue
        start = -1
        pos = 0
        for _ in range(t + 1):
            start = lines[k].index(tokens[_], pos)
            pos = start + len(tokens[_])
        line = lines[k][:start] + junk + lines[k][pos:]
        path = write(folder, "\n".join(lines[:k] + [line] + lines[k + 1 :]) + "\n")
        reader = readers[int(rng.integers(len(readers)))]
        judge(mon, kind, reader, path, intact[reader], f"token {t} of line {k} damaged: {line!r}", True)
        mon.event("junk tokens")
        mon.nontrivial(kind.name, reader, "junk", int(k), t)
    # a token lost, or doubled
    for k in rng.permutation(len(lines))[:budget]:
        found = list(re.finditer(r"\S+", lines[k]))
        words = re.sub(r"<[^>]*>", "", lines[k])
        if not found or "POTCAR" in lines[k] or "<structure" in lines[k] or (re.search(r"\d\.\d", words) and not re.search("[A-Za-z]{3}", words)):
            # rows of numbers: one too few or too many cannot be told in all formats;
            # a structure of vasprun.xml without its name is another valid structure
            continue
        t = int(rng.integers(len(found)))
        token = found[t]
        if rng.random() < 0.6:
            line = lines[k][: token.start()] + lines[k][token.end() :]
            label = "lost"
        else:
            line = lines[k][: token.end()] + " " + token.group() + lines[k][token.end() :]
            label = "doubled"
        path = write(folder, "\n".join(lines[:k] + [line] + lines[k + 1 :]) + "\n")
        reader = readers[int(rng.integers(len(readers)))]
        judge(mon, kind, reader, path, intact[reader], f"token {t} of line {k} {label}: {line!r}", True)
        mon.event(label + " tokens")
        mon.nontrivial(kind.name, reader, label, int(k), t)
    # numbers damaged in place
    places = [(k, t) for k, line in enumerate(lines) if "POTCAR" not in line for t in NUMBER.finditer(line)]
    for i in rng.permutation(len(places))[: 2 * budget]:
        k, t = places[i]
        token = t.group()
        new = INVALID[int(rng.integers(len(INVALID)))]
        if len(new) == 1:
            at = int(rng.integers(len(token)))
            new = token[:at] + new + token[at + 1 :]
        line = lines[k][: t.start()] + new + lines[k][t.end() :]
        path = write(folder, ("\n".join(lines[:k] + [line] + lines[k + 1 :]) + "\n").encode("utf-8", "surrogateescape"))
        for reader in readers:
            judge(mon, kind, reader, path, intact[reader], f"{token} replaced by {new!r} in line {k}: {line!r}", True)
        mon.event("damaged numbers")
        mon.nontrivial(kind.name, "number", int(k), t.start(), new)
    # lattices that span no cell
    for first in lattice_lines(kind):
        for label, new in (("zero", ["0.0 0.0 0.0"] * 3), ("equal", [None, lines[first], None]), ("zero vector", [None, None, "0.0 0.0 0.0"])):
            rows = [lines[first + j] if text is None else NUMBERS.sub(text, lines[first + j], 1) if text[0] == "0" else text for j, text in enumerate(new)]
            path = write(folder, "\n".join(lines[:first] + rows + lines[first + 3 :]) + "\n")
            for reader in readers:
                judge(mon, kind, reader, path, intact[reader], f"lattice in line {first} has {label} vectors: {rows}", True)
            mon.event("damaged lattices")
    # species and counts of structure files (their last headers), every token, every reader
    if kind.name in ("POSCAR", "XDATCAR"):
        for k in (5, 6):
            tokens = lines[k].split()
            for t in range(len(tokens)):
                for label, new in (("lost", []), ("doubled", [tokens[t]] * 2)):
                    line = "  " + "  ".join(tokens[:t] + new + tokens[t + 1 :])
                    path = write(folder, "\n".join(lines[:k] + [line] + lines[k + 1 :]) + "\n")
                    for reader in readers:
                        judge(mon, kind, reader, path, intact[reader], f"token {t} of line {k} {label}: {line!r}", True)
                    mon.event("damaged headers")
        # counts that are no counts
        counts = lines[6].split()
        for t in range(len(counts)):
            for new in (counts[t] + ".5", counts[t] + ".", f"{counts[t]}.02", f"0.{counts[t]}", counts[t] + "e0", "-" + counts[t], counts[t] + "*", "0", f"{max(1, int(counts[t]) - 1)}.5", f"{max(1, int(counts[t]) // 2)}.{counts[t]}", "1e0"):
                line = "  " + "  ".join(counts[:t] + [new] + counts[t + 1 :])
                path = write(folder, "\n".join(lines[:6] + [line] + lines[7:]) + "\n")
                for reader in readers:
                    judge(mon, kind, reader, path, intact[reader], f"count {t} damaged: {line!r}", True)
                mon.event("damaged headers")
    if kind.name == "OUTCAR phonons":
        marks = [k for k, line in enumerate(lines) if " cm-1 " in line and re.match(r" *\d+ +f", line)]
        for k in rng.permutation(marks)[: budget // 4]:
            for old, new in (("f/i=", "    "), ("f  =", "   ="), ("f  =", "    "), ("THz", "   "), ("2PiTHz", ""), ("cm-1", "    ")):
                if old in lines[k]:
                    path = write(folder, "\n".join(lines[:k] + [lines[k].replace(old, new, 1)] + lines[k + 1 :]) + "\n")
                    for reader in readers:
                        judge(mon, kind, reader, path, intact[reader], f"{old!r} of line {k} lost: {lines[k]!r}")
                    mon.event("damaged headers")
    # reading the original again is unaffected
    for reader in readers:
        mon.check(equal(plain(kind.readers[reader](original)), intact[reader]), f"{kind.name} / {reader}: failed reads affect later ones")
    mon.sample(kind=kind.name, lines=len(lines), readers=readers)


FOREIGN = ["empty", "newline", "blank lines", "binary", "utf-16", "nul", "html", "json", "text", "numbers", "bomb", "xml", "long line", "latin-1", "gzip", "xml doctype"]


def foreign_bytes(name, rng):
    if name == "binary":
        return bytes(rng.integers(0, 256, int(rng.integers(1, 5000)), dtype=np.uint8))
    return {
        "empty": b"",
        "newline": b"\n",
        "blank lines": b"\n   \n\t\n" * 40,
        "utf-16": "POTCAR:    PAW_PBE Ti 07Sep2000\nions per type = 2\n".encode("utf-16"),
        "nul": b"\0" * 3000,
        "html": b"<!DOCTYPE html><html><body><p>404</body></html>\n",
        "json": b'{"lattice": [[1,0,0],[0,1,0],[0,0,1]]}\n',
        "text": b"Lorem ipsum dolor sit amet\n" * 30,
        "numbers": b"1.0 2.0 3.0\n" * 30,
        "bomb": b'<?xml version="1.0"?>\n<!DOCTYPE l [<!ENTITY a "1234567890"><!ENTITY b "&a;&a;&a;&a;&a;&a;&a;&a;"><!ENTITY c "&b;&b;&b;&b;&b;&b;&b;&b;">]>\n<modeling>&c;</modeling>\n',
        "xml": b"<?xml version=\"1.0\"?>\n<modeling><atominfo><array><set></set></array></atominfo></modeling>\n",
        "long line": b"x" * 200000,
        "latin-1": "Größe Å\n1.0\n".encode("latin-1") * 5,
        "gzip": bytes.fromhex("1f8b0800000000000003") + bytes(range(256)),
        "xml doctype": b'<?xml version="1.0"?>\n<!DOCTYPE modeling SYSTEM "file:///nonexistent">\n<modeling></modeling>\n',
    }[name]


@case(quick=48, thorough=400)
@in_folder
def foreign(mon, rng, index, folder):
    """Files of another kind, and missing ones."""
    from ramannoodle.exceptions import InvalidFileException

    all_kinds = [kinds(rng, k)[1] for k in range(8)]
    name = FOREIGN[index % len(FOREIGN)]
    path = write(folder, foreign_bytes(name, rng))
    missing = os.path.join(folder, "no such file")
    for kind in all_kinds:
        for reader, fn in kind.readers.items():
            mon.raises(InvalidFileException, f"{kind.name} / {reader} on {name}", fn, path)
            mon.event("foreign files")
            mon.nontrivial("foreign", kind.name, reader, name)
            if index % 6 == 0:
                mon.raises(FileNotFoundError, f"{kind.name} / {reader} on a missing file", fn, missing)
                mon.event("missing files")
    # files of one kind given to the readers of another
    family = {"OUTCAR": 0, "vasprun": 1, "POSCAR": 2, "XDATCAR": 2}
    a = all_kinds[index % 8]
    path = write(folder, "\n".join(a.lines) + "\n")
    for kind in all_kinds:
        if family[kind.name.split()[0]] != family[a.name.split()[0]]:
            for reader, fn in kind.readers.items():
                mon.raises(InvalidFileException, f"{kind.name} / {reader} on {a.name}", fn, path)
                mon.event("foreign files")
    # the right kind of file lacking what was asked for
    lacking = {
        "OUTCAR eps": ["OUTCAR phonons", "OUTCAR MD"], "OUTCAR phonons": ["OUTCAR eps", "OUTCAR MD"], "OUTCAR MD": ["OUTCAR phonons", "OUTCAR eps"],
        "vasprun eps": ["vasprun phonons", "vasprun MD"], "vasprun phonons": ["vasprun eps", "vasprun MD"], "vasprun MD": ["vasprun phonons", "vasprun eps"],
    }
    for kind in all_kinds:
        if kind.name in lacking.get(a.name, ()):
            for reader, fn in kind.readers.items():
                if reader not in ("positions", "ref_structure"):
                    mon.raises(InvalidFileException, f"{kind.name} / {reader} on {a.name}", fn, path)
                    mon.event("foreign files")
    mon.sample(content=name, donor=a.name)


@case(quick=24, thorough=600)
@in_folder
def collections(mon, rng, index, folder):
    """One damaged file among several, at every place."""
    from ramannoodle.exceptions import InvalidFileException
    from ramannoodle.io import generic
    from ramannoodle.io.vasp import outcar, vasprun

    fmt = ["outcar", "vasprun.xml"][index % 2]
    render = {"outcar": lambda c: genfiles.outcar(c, rng, "ABC"[index % 3]), "vasprun.xml": lambda c: genfiles.vasprun(c, rng)}[fmt]
    specific = {"outcar": outcar, "vasprun.xml": vasprun}[fmt]
    read = (lambda files: generic.read_polarizability_dataset(files, fmt)) if index % 4 < 2 else specific.read_polarizability_dataset
    base = genfiles.calc(rng, max_count=2, n_types=int(rng.integers(1, 3)), kind="skew")
    count = int(rng.integers(1, 6))
    paths, texts = [], []
    for k in range(count):
        c = genfiles.Calc(base.types, base.counts, base.lattice, rng.random((base.n, 3)))
        genfiles.add_polarizability(c, rng)
        texts.append(render(c))
        paths.append(genfiles.save(os.path.join(folder, f"good{k}"), texts[-1]))
    intact = plain(read(paths))
    marks = ("dielectric_dft", "MACROSCOPIC STATIC DIELECTRIC TENSOR (incl")
    bad = os.path.join(folder, "bad")
    for place in range(count + 1):
        lines = texts[min(place, count - 1)]
        cut = next(k for k, line in enumerate(lines) if any(m in line for m in marks))
        how = ["cut early", "cut at the tensor", "empty", "unfinished tensor", "missing", "foreign"][int(rng.integers(6))]
        error = InvalidFileException
        if how == "cut early":
            genfiles.save(bad, lines[: int(rng.integers(1, cut))])
        elif how == "cut at the tensor":
            genfiles.save(bad, lines[:cut])
        elif how == "unfinished tensor":
            genfiles.save(bad, lines[: cut + int(rng.integers(1, 4))])
        elif how == "empty":
            genfiles.save(bad, [""])
        elif how == "foreign":
            with open(bad, "wb") as file:
                file.write(foreign_bytes(FOREIGN[int(rng.integers(len(FOREIGN)))], rng))
        elif os.path.exists(bad):
            os.remove(bad)
        if how == "missing":
            error = FileNotFoundError
        mon.raises(error, f"{fmt}: file {place} of {count + 1} is damaged ({how})", read, paths[:place] + [bad] + paths[place:])
        mon.event("damaged collections")
        mon.nontrivial("collection", fmt, how, place, count)
    mon.check(equal(plain(read(paths)), intact), "failed reads affect later ones")


@case(quick=14, thorough=300)
@in_folder
def models(mon, rng, index, folder):
    """A failed read has no effect on models."""
    from ramannoodle.exceptions import InvalidFileException
    from ramannoodle.pmodel import ARTModel, InterpolationModel

    crystal = gen.BASE["p1_three"]
    art = bool(index % 2)
    fmt = ["outcar", "vasprun.xml"][(index // 2) % 2]
    render = {"outcar": lambda c: genfiles.outcar(c, rng, "A"), "vasprun.xml": lambda c: genfiles.vasprun(c, rng)}[fmt]
    symbols = [genfiles.elements.SYMBOL[z] for z in crystal.numbers]

    def save(name, disp):
        c = genfiles.Calc(symbols, [1] * 3, crystal.lattice, (crystal.positions + disp) % 1)
        c.lattice = crystal.lattice
        genfiles.add_polarizability(c, rng)
        path = os.path.join(folder, name)
        genfiles.save(path, render(c))
        return path

    u = np.zeros((3, 3))
    atom = int(rng.integers(3))
    u[atom] = rng.normal(size=3) * 0.02
    good = [save("g0", u), save("g1", -u)]
    v = np.zeros((3, 3))
    v[atom] = rng.normal(size=3) * 0.02
    pol = 4 * np.eye(3)
    model = ARTModel(crystal.ref(), pol) if art else InterpolationModel(crystal.ref(), pol)
    add = (lambda p: model.add_art_from_files(p, fmt)) if art else (lambda p: model.add_dof_from_files(p, fmt, 1))
    state = lambda m: digest([m.cart_basis_vectors, [(s.t, s.c, s.k) for s in m.interpolations], m.mask, m.ref_polarizability, m.calc_polarizabilities(np.array([crystal.positions + 0.5 * u]))])
    before = state(model)
    bad = os.path.join(folder, "bad")
    with open(good[1], encoding="utf-8") as file:
        lines = file.read().split("\n")
    k = int(rng.integers(5, len(lines) - 12))
    cut = next(i for i, line in enumerate(lines) if "dielectric_dft" in line or "MACROSCOPIC STATIC DIELECTRIC TENSOR (incl" in line)
    genfiles.save(bad, lines[: min(k, cut + int(rng.integers(0, 4)))])
    missing = os.path.join(folder, "missing")
    for paths, error in (([good[0], bad], InvalidFileException), ([bad, good[0]], InvalidFileException), ([good[0], missing], FileNotFoundError), ([bad], InvalidFileException)):
        mon.raises(error, "damaged file refused while adding a degree of freedom", add, paths)
        mon.check(state(model) == before, "failed read changed the model")
        mon.event("models kept")
    add(good)
    mon.check(len(model.cart_basis_vectors) == 1 and len(model.mask) == 1, "model usable after failed reads")
    mon.nontrivial("models", art, fmt, k)
