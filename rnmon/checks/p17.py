"""P17: existing files are never destroyed without permission."""

import os
import shutil
import stat
import sys
import tempfile
from pathlib import Path

import numpy as np

from rnmon import gen
from rnmon.core import case

RULE = "distinct (writer, kind of existing target, overwrite flag, kind of request) whose target's bytes were compared before and after"
ASSUMPTIONS = [
    "races are injected where the writer opens, renames or links its target (audit events); a race inside one system call is out of reach",
]
REQUIRED_EVENTS = ["kept files", "races won", "overwrites", "invalid requests"]


class Race:
    """Creates a file at the very moment a writer is about to open/replace it."""

    installed = None

    def __init__(self):
        self.target = None
        self.content = b""
        self.fired = 0
        self.busy = False

    @classmethod
    def get(cls):
        if cls.installed is None:
            cls.installed = cls()
            sys.addaudithook(cls.installed.hook)
        return cls.installed

    def hook(self, event, args):
        if self.target is None or self.busy:
            return
        if event == "open":
            paths, flags = [args[0]], args[2]
            if not (flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT)):
                return
        elif event in ("os.rename", "os.link", "os.symlink"):
            paths = [args[1]]
        elif event in ("shutil.move", "shutil.copyfile"):
            paths = [args[1]]
        else:
            return
        for path in paths:
            try:
                name = os.path.abspath(os.fsdecode(path))
            except TypeError:
                continue
            if name == self.target and not os.path.lexists(name):
                self.busy = True
                try:
                    with open(name, "xb") as file:
                        file.write(self.content)
                    self.fired += 1
                finally:
                    self.busy = False


class Workload:
    """A valid request for one of the writers, with a fresh reference output."""

    WRITERS = [
        "poscar.write_structure", "xdatcar.write_trajectory", "generic poscar", "generic xdatcar structure",
        "generic trajectory", "displaced", "ast displaced",
    ]

    def __init__(self, rng, index):
        self.name = self.WRITERS[index % len(self.WRITERS)]
        n = int(rng.integers(1, 5))
        crystal = gen.BASE["sc"] if n == 1 else gen.p1_crystal(rng, n)
        self.crystal = crystal
        self.ref = crystal.ref()
        self.ts = rng.random((int(rng.integers(1, 5)), n, 3))
        self.direction = rng.normal(size=3)
        self.field = rng.normal(size=(n, 3))
        self.atom = int(rng.integers(n))
        self.fmt = ["poscar", "xdatcar"][int(rng.integers(2))]
        self.amps = rng.uniform(-0.2, 0.2, 1)
        self.as_path = rng.random() < 0.5

    def __call__(self, path, overwrite=None, numbers=None, positions=None, fmt=None, amps=None):
        from ramannoodle.io import generic
        from ramannoodle.io.vasp import poscar, xdatcar
        from ramannoodle.structure import write_ast_displaced_structures, write_displaced_structures

        kw = {} if overwrite is None else {"overwrite": overwrite}
        if self.as_path:
            path = [Path(p) for p in path] if isinstance(path, list) else Path(path)
        c = self.crystal
        numbers = list(c.numbers) if numbers is None else numbers
        pos = c.positions if positions is None else positions
        ts = self.ts if positions is None else np.array([positions] * 3)
        amps = self.amps if amps is None else amps
        if self.name == "poscar.write_structure":
            return poscar.write_structure(c.lattice, numbers, pos, path, **kw)
        if self.name == "xdatcar.write_trajectory":
            return xdatcar.write_trajectory(c.lattice, numbers, ts, path, **kw)
        if self.name == "generic poscar":
            return generic.write_structure(c.lattice, numbers, pos, path, "poscar" if fmt is None else fmt, **kw)
        if self.name == "generic xdatcar structure":
            return generic.write_structure(c.lattice, numbers, pos, path, "xdatcar" if fmt is None else fmt, **kw)
        if self.name == "generic trajectory":
            return generic.write_trajectory(c.lattice, numbers, ts, path, "xdatcar" if fmt is None else fmt, **kw)
        ref = self.ref
        if numbers != c.numbers:
            from ramannoodle.structure import ReferenceStructure

            ref = ReferenceStructure(numbers, c.lattice, c.positions)
        if self.name == "displaced":
            return write_displaced_structures(ref, self.field, amps, path, self.fmt if fmt is None else fmt, **kw)
        return write_ast_displaced_structures(ref, self.atom, self.direction, amps, path, self.fmt if fmt is None else fmt, **kw)


def snapshot(folder):
    """Everything observable about the files of a folder."""
    out = {}
    for root, dirs, files in os.walk(folder):
        for name in files + dirs:
            p = os.path.join(root, name)
            st = os.lstat(p)
            if stat.S_ISLNK(st.st_mode):
                out[p] = ("link", os.readlink(p))
            elif stat.S_ISREG(st.st_mode):
                with open(p, "rb") as file:
                    out[p] = ("file", file.read(), st.st_mode, st.st_ino, st.st_mtime_ns)
            else:
                out[p] = ("other", st.st_mode)
    return out


TARGETS = ["text", "empty", "binary", "same content", "symlink", "dangling symlink", "hard link", "read-only", "directory", "longer"]


def make_target(kind, path, folder, rng, fresh):
    aside = os.path.join(folder, "aside")
    if kind == "directory":
        os.mkdir(path)
    elif kind == "dangling symlink":
        os.symlink(os.path.join(folder, "nothing"), path)
    elif kind == "symlink":
        Path(aside).write_bytes(b"precious\n")
        os.symlink(aside, path)
    elif kind == "hard link":
        Path(aside).write_bytes(b"precious\n" * 9)
        os.link(aside, path)
    else:
        data = {
            "text": b"precious data\n",
            "empty": b"",
            "binary": bytes(rng.integers(0, 256, 300, dtype=np.uint8)),
            "same content": fresh,
            "read-only": b"precious\n",
            "longer": fresh * 3 + b"tail",
        }[kind]
        Path(path).write_bytes(data)
        if kind == "read-only":
            os.chmod(path, 0o444)


def sandbox(fn):
    def run(mon, rng, index):
        folder = tempfile.mkdtemp(prefix="rnmon_p17_")
        try:
            fn(mon, rng, index, folder)
        finally:
            Race.get().target = None
            shutil.rmtree(folder)

    run.__name__ = fn.__name__
    return run


def fresh_output(work, folder):
    path = os.path.join(folder, "fresh")
    work(path)
    data = Path(path).read_bytes()
    os.remove(path)
    return data


@case(quick=140, thorough=3000)
@sandbox
def kept(mon, rng, index, folder):
    """Refusals leave every byte in place."""
    work = Workload(rng, index)
    fresh = fresh_output(work, folder)
    kind = TARGETS[(index // len(Workload.WRITERS)) % len(TARGETS)]
    path = os.path.join(folder, "target")
    make_target(kind, path, folder, rng, fresh)
    before = snapshot(folder)
    # no permission: nothing said, or any of the usual false values
    denied = [None, False, 0, np.bool_(False), np.False_ & True][int(rng.integers(5))]
    mon.event(f"permission: {denied!r}")
    exc = mon.raises(OSError, f"{work.name} onto {kind}: refused", work, path, denied)
    if kind != "directory":
        mon.check(isinstance(exc, FileExistsError), f"{work.name} onto {kind}: FileExistsError", got=type(exc))
    mon.check(snapshot(folder) == before, f"{work.name} onto {kind}: existing file untouched")
    mon.event("kept files")
    mon.nontrivial("kept", work.name, kind)
    mon.sample(writer=work.name, target=kind, error=repr(exc))


@case(quick=70, thorough=1500)
@sandbox
def races(mon, rng, index, folder):
    """The file appears after the writer looked, before it opens."""
    work = Workload(rng, index)
    fresh_output(work, folder)
    path = os.path.join(folder, "target")
    race = Race.get()
    race.target, race.content, race.fired = path, b"someone else's data\n", 0
    try:
        exc = None
        try:
            work(path)
        except OSError as err:
            exc = err
    finally:
        race.target = None
    if not race.fired:
        mon.skip("no audit event for the target")
        return
    mon.check(Path(path).read_bytes() == race.content, f"{work.name}: file created meanwhile was destroyed", error=exc)
    mon.check(exc is not None, f"{work.name}: refusal not reported to the caller")
    mon.event("races won")
    mon.nontrivial("race", work.name, index % 50)
    mon.sample(writer=work.name, error=repr(exc))


@case(quick=100, thorough=2000)
@sandbox
def overwritten(mon, rng, index, folder):
    """With permission, the file holds exactly the new content."""
    work = Workload(rng, index)
    fresh = fresh_output(work, folder)
    kind = [k for k in TARGETS if k not in ("directory", "dangling symlink")][(index // len(Workload.WRITERS)) % 8]
    path = os.path.join(folder, "target")
    other = os.path.join(folder, "unrelated")
    Path(other).write_bytes(b"unrelated\n")
    make_target(kind, path, folder, rng, fresh)
    work(path, True)
    mon.check(Path(path).read_bytes() == fresh, f"{work.name} over {kind}: exactly the new content", got=Path(path).read_bytes()[:200], want=fresh[:200])
    mon.check(Path(other).read_bytes() == b"unrelated\n", "unrelated file touched")
    names = set(os.listdir(folder)) - {"aside"}
    mon.same(names, {"target", "unrelated"}, "no stray files left behind")
    # overwriting something that does not exist simply writes
    path2 = os.path.join(folder, "new")
    work(path2, True)
    mon.check(Path(path2).read_bytes() == fresh, f"{work.name}: overwriting nothing writes")
    mon.event("overwrites")
    mon.nontrivial("overwrite", work.name, kind)


@case(quick=140, thorough=3000)
@sandbox
def invalid(mon, rng, index, folder):
    """Rejected requests change no file at all."""
    work = Workload(rng, index)
    flavour = ["ungrouped", "format", "positions", "paths", "paths few", "number", "shape"][(index // len(Workload.WRITERS)) % 7]
    displaced = work.name in ("displaced", "ast displaced")
    path = os.path.join(folder, "target")
    Path(path).write_bytes(b"precious\n")
    for k in range(4):
        Path(folder, f"more{k}").write_bytes(b"precious %d\n" % k)
    n = work.crystal.n
    kw = {}
    target = path
    if flavour == "ungrouped":
        if n < 3:
            work.crystal = gen.p1_crystal(rng, 3)
            work.ref = work.crystal.ref()
            work.field = rng.normal(size=(3, 3))
            work.atom, n = 0, 3
            work.ts = rng.random((2, 3, 3))
        numbers = [8, 22] + [8] * (n - 2)
        kw["numbers"] = numbers
        if displaced:
            target = [path] + [os.path.join(folder, f"more{k}") for k in range(2)]
            kw["amps"] = np.array([0.1, 0.2, 0.3])
    elif flavour == "format":
        if work.name.startswith(("poscar", "xdatcar")):
            mon.skip("no format argument")
            return
        kw["fmt"] = ["outcar", "vasprun.xml", "POSCAR", "", "poscar ", "cif"][int(rng.integers(6))]
    elif flavour == "positions":
        if displaced:
            mon.skip("positions are generated")
            return
        bad = work.crystal.positions.copy()
        bad[-1, 2] = rng.choice([1.0001, -0.2])
        kw["positions"] = bad
    elif flavour in ("paths", "paths few"):
        if not displaced:
            mon.skip("single path")
            return
        kw["amps"] = np.array([0.1, 0.2, 0.3]) if flavour == "paths few" else np.array([0.1])
        target = [path, os.path.join(folder, "more0")]
    elif flavour == "number":
        if displaced:
            mon.skip("numbers come from the structure")
            return
        kw["numbers"] = [119] * n if rng.random() < 0.5 else work.crystal.numbers + [1]
    else:
        if displaced:
            kw["amps"] = np.array([[0.1]])
        else:
            kw["positions"] = work.crystal.positions[:, :2]
    before = snapshot(folder)
    overwrite = bool(rng.random() < 0.8)
    mon.raises((ValueError, TypeError), f"{work.name} {flavour}: refused", work, target, overwrite, **kw)
    mon.check(snapshot(folder) == before, f"{work.name} {flavour}: rejected request changed a file", overwrite=overwrite)
    mon.event("invalid requests")
    mon.nontrivial("invalid", work.name, flavour, overwrite)
    mon.sample(writer=work.name, flavour=flavour)


@case(quick=30, thorough=600)
@sandbox
def several(mon, rng, index, folder):
    """Several files, one of which exists: that one is kept and the caller is told."""
    work = Workload(rng, 5 + index % 2)
    m = int(rng.integers(2, 7))
    amps = rng.uniform(-0.2, 0.2, m)
    names = [os.path.join(folder, f"f{k}") for k in range(m)]
    victim = int(rng.integers(m))
    Path(names[victim]).write_bytes(b"precious\n")
    before = snapshot(folder)[names[victim]]
    mon.raises(FileExistsError, "existing file among several: refused", work, names, None, amps=amps)
    mon.check(snapshot(folder)[names[victim]] == before, "existing file among several: kept", victim=victim)
    # repeated path without permission: the first content survives
    path = os.path.join(folder, "twice")
    mon.raises(FileExistsError, "same path twice: refused", work, [path, path], None, amps=amps[:2])
    one = os.path.join(folder, "one")
    work(one, None, amps=amps[:1])
    mon.check(Path(path).read_bytes() == Path(one).read_bytes(), "first of two writes to one path survives")
    mon.event("kept files")
    mon.nontrivial("several", work.name, m, victim)
