"""Synthetic calculation files with known contents, and an independent POSCAR parser.

Layouts follow real VASP output (blocks in the same order, the same decoy blocks).  The
truth of every quantity is what is *printed*: values are rounded to the printed precision
before they become part of the truth.  Nothing in here uses ramannoodle.
"""

from __future__ import annotations

import numpy as np

from rnmon import elements, gen

SUFFIXES = ["", "_pv", "_sv", "_d", "_h", "_s", "_GW", "_sv_GW", "_3"]


def rnd(x, digits):
    """Value as printed with a number of decimals."""
    return np.array(
        [float(f"{v:.{digits}f}") for v in np.asarray(x, dtype=float).ravel()]
    ).reshape(np.shape(x))


class Calc:
    """What one calculation knows; writers render it in different formats."""

    def __init__(self, symbols, counts, lattice, positions):
        self.types = list(symbols)
        self.counts = [int(c) for c in counts]
        self.symbols = [s for s, c in zip(symbols, counts) for _ in range(c)]
        self.numbers = [elements.NUMBER[s] for s in self.symbols]
        self.weights = np.array([elements.WEIGHT[elements.NUMBER[s]] for s in self.symbols])
        self.lattice = rnd(lattice, 9)
        self.positions = rnd(positions, 8)
        self.polarizability = None
        self.wavenumbers = None  # file order, cm-1, imaginary negative
        self.eigenvectors = None  # Cartesian (M,N,3)
        self.frames = None  # fractional (S,N,3)
        self.kinds = None  # per-frame "ml"/"ai"/"shadow"
        self.timestep = None

    @property
    def n(self):
        return len(self.symbols)

    def __repr__(self):
        return f"Calc(types={self.types}, counts={self.counts}, lattice={self.lattice.tolist()})"

    def displacements(self):
        """Fractional displacements a reader must report."""
        cart = self.eigenvectors / np.sqrt(self.weights)[:, None]
        return cart @ np.linalg.inv(self.lattice)


USABLE = list(elements.NUMBER)


def weight_tolerance(symbols):
    """Relative tolerance of displacements per atom: weights differ between tables.

    Elements without stable isotopes have no standard weight at all.
    """
    z = np.array([elements.NUMBER[s] for s in symbols])
    return np.where((z > 83) | (z == 43) | (z == 61), 3e-2, 4e-4)


def calc(rng, n_types=None, max_count=4, repeat_types=False, kind=None, usable=None):
    """Random structure; positions may sit on cell faces."""
    n_types = n_types or int(rng.integers(1, 5))
    pool = list(rng.permutation(usable or USABLE))
    symbols = [str(s) for s in pool[:n_types]]
    if repeat_types and n_types >= 2:
        symbols[-1] = symbols[0] if n_types > 2 or rng.random() < 0.5 else symbols[-1]
    counts = rng.integers(1, max_count + 1, n_types)
    # components of 100 Å or more overflow the printed columns
    lattice = gen.lattice(rng, kind or rng.choice(["skew", "ortho", "left", "rot", "aspect", "big"]))
    lattice = lattice * min(1.0, 90.0 / np.abs(lattice).sum(axis=0).max())
    n = int(counts.sum())
    while True:
        positions = rng.random((n, 3)) * 0.999
        if rng.random() < 0.5:
            positions[rng.integers(n)] = rng.choice([0.0, 0.5, 0.25], 3)
        d = positions[:, None] - positions[None]
        d -= np.rint(d)
        if (np.abs(d).max(axis=-1) + np.eye(n)).min() > 0.01:
            break
    return Calc(symbols, counts, lattice, positions)


def add_polarizability(c, rng):
    t = gen.sym_tensor(rng, 0.8) + 3 * np.eye(3)
    if rng.random() < 0.3:
        t += rng.normal(size=(3, 3)) * 0.01  # printed tensors are not exactly symmetric
    c.polarizability = rnd(t, 6)
    return c


def add_phonons(c, rng, modes=None):
    m = 3 * c.n if modes is None else modes
    w = np.sort(rng.uniform(20, 1200, m))[::-1].copy()
    imaginary = rng.random(m) < rng.choice([0.0, 0.1, 0.4])
    w[imaginary] *= -0.2
    if rng.random() < 0.5:
        w = np.concatenate([w[w >= 0], np.sort(w[w < 0])[::-1]])
    if rng.random() < 0.3 and m > 2:
        w[1] = w[0]  # degenerate
    c.wavenumbers = rnd(w, 6)
    e = rng.normal(size=(m, c.n, 3))
    if rng.random() < 0.3:
        e[:, rng.integers(c.n)] = 0
    e /= np.linalg.norm(e.reshape(m, -1), axis=1)[:, None, None] + 1e-300
    c.eigenvectors = rnd(e, 6)
    return c


def add_md(c, rng, frames=None, mode="ai"):
    s = int(frames or rng.integers(1, 8))
    steps = rng.normal(size=(s, c.n, 3)) * 0.02
    walk = c.positions + np.cumsum(steps, axis=0)
    c.frames = walk
    c.timestep = float(rnd(rng.choice([0.25, 0.5, 1.0, 1.5, 2.0, 10.0]), 4))
    if mode == "ai":
        c.kinds = ["ai"] * s
    elif mode == "ml":
        c.kinds = ["ml"] * s
    else:
        # leading ab-initio frames, then machine-learned frames, some followed by a
        # "shadow" ab-initio block repeating the configuration, which ab-initio frames
        # of their own may follow (an ab-initio block directly after a machine-learned
        # one would be its shadow)
        lead = int(rng.integers(0, 3))
        relapse = float(rng.choice([0.0, 0.4, 0.7]))
        kinds, order = [], []
        for k in range(s):
            if k < min(lead, s - 1) or (kinds and kinds[-1] != "ml" and k < s - 1 and rng.random() < relapse):
                kinds.append("ai")
                order.append(k)
            else:
                kinds.append("ml")
                order.append(k)
                if rng.random() < 0.5 or k == s - 1:
                    kinds.append("shadow")
                    order.append(k)
        c.kinds, c.order = kinds, order
    return c


# -------------------------------------------------------------------- OUTCAR
DASH = " " + "-" * 86


def _num(x, width, digits):
    return f"{x:{width}.{digits}f}"


def outcar(c, rng, potcar="A", decoys=True, version="6.3.0", md_shift=True):
    """OUTCAR text (list of lines). Fills c.md_truth for MD files."""
    out = [
        f" vasp.{version} 20Jan22 (build Mar 29 2022 16:24:06) complex",
        "",
        " executed on             Cluster date 2023.01.05  14:44:16",
        " running on   64 total cores",
        "",
        DASH,
        "",
        " INCAR:",
        "   ENCUT = 400.0 eV",
    ]
    if c.timestep is not None and decoys:
        out.append(f"   POTIM = {c.timestep * 3 + 0.1}")
    out.append("")
    titles = []
    for t in c.types:
        suffix = SUFFIXES[int(rng.integers(len(SUFFIXES)))]
        flavour = ["PAW_PBE", "PAW", "PAW_GGA", "US"][int(rng.integers(4))]
        titles.append(f" POTCAR:    {flavour} {t}{suffix} 0{rng.integers(1, 9)}Apr2002")
    c.titles = titles
    if potcar == "A":
        # complete potential headers after the list
        out += titles
        for title, t in zip(titles, c.types):
            out += [title, f"   VRHFIN ={t}: s1p1", "   LEXCH  = PE", "   EATOM  =   432.3788 eV,   31.7789 Ry", ""]
    elif potcar == "B":
        out += titles
        out += [DASH, "", "  local pseudopotential read in"]
    else:
        out += titles
        for title in titles:
            out += [
                title,
                "  local pseudopotential read in",
                "  partial core-charges read in",
                "    PAW grid and wavefunctions read in",
                "",
                "   number of l-projection  operators is LMAX  =           6",
                "",
            ]
    lat = c.lattice
    rec = np.linalg.inv(lat).T
    if decoys:
        out += ["", "  volume of cell :       1.0", ""]
        out.append("  direct lattice vectors                    reciprocal lattice vectors")
        prim = lat * 0.5 if rng.random() < 0.5 else lat[[1, 2, 0]]
        for a, b in zip(prim, np.linalg.inv(prim).T):
            out.append(" " + "".join(_num(v, 13, 9) for v in a) + "  " + "".join(_num(v, 13, 9) for v in b))
        out += ["", "  length of vectors", ""]
        out.append("  position of ions in fractional coordinates (direct lattice)")
        for p in c.positions:
            out.append(" " + "".join(_num(v, 13, 9) for v in p))
        out.append("")
    out += [
        f"   number of dos      NEDOS =    301   number of ions     NIONS = {c.n:6d}",
        "   ions per type =           " + "".join(f"{k:4d}" if k < 1000 else f" {k}" for k in c.counts),
        "",
    ]
    if c.timestep is not None:
        out.append(f"   POTIM  = {c.timestep:.4f}    time-step for ionic-motion")
        out.append("   TEIN   =    0.0    initial temperature")
    out += ["  Mass of Ions in am", "   POMASS =  47.88 16.00", "", " Write flags", "   LWAVE        =      F    write WAVECAR", ""]
    out += ["  energy-cutoff  :      400.00", "  volume of cell :      100.00"]
    out.append("      direct lattice vectors                 reciprocal lattice vectors")
    for a, b in zip(lat, rec):
        out.append("   " + "".join(_num(v, 13, 9) for v in a) + "   " + "".join(_num(v, 13, 9) for v in b))
    out += ["", "  length of vectors", "     " + " ".join(_num(np.linalg.norm(v), 12, 9) for v in lat), "", ""]
    out += [" k-points in units of 2pi/SCALE and weight: Automatic mesh", "   0.00000000  0.00000000  0.00000000       1.000", ""]
    out.append(" position of ions in fractional coordinates (direct lattice)")
    for p in c.positions:
        out.append("   " + " ".join(_num(v, 11, 8) for v in p))
    out += ["", " position of ions in cartesian coordinates  (Angst):"]
    for p in c.positions @ lat:
        out.append("   " + " ".join(_num(v, 11, 8) for v in p))
    out += ["", "", DASH, ""]
    if c.polarizability is not None:
        tensor = ["".join(" " + _num(v, 13, 6) for v in row) for row in c.polarizability]
        wrong = ["".join(" " + _num(v, 13, 6) for v in row) for row in c.polarizability * 1.3 + 0.1]
        if decoys:
            out += [" HEAD OF MICROSCOPIC STATIC DIELECTRIC TENSOR (INDEPENDENT PARTICLE, excluding Hartree and local field effects)", DASH] + wrong + [DASH, ""]
            if rng.random() < 0.5:
                out += [" MACROSCOPIC STATIC DIELECTRIC TENSOR (excluding local field effects)", DASH] + wrong + [DASH, ""]
        for k in range(2):
            out += [" MACROSCOPIC STATIC DIELECTRIC TENSOR (including local field effects in DFT)", DASH] + tensor + [DASH, ""]
        if decoys:
            out += [" MACROSCOPIC STATIC DIELECTRIC TENSOR IONIC CONTRIBUTION", DASH] + wrong + [DASH, ""]
    if c.eigenvectors is not None:
        out += [" Eigenvectors and eigenvalues of the dynamical matrix", " ----------------------------------------------------", "", ""]
        cart = c.positions @ lat
        for block, factor in ((0, 1.0), (1, 0.37)):
            if block == 1:
                if not decoys:
                    break
                out += ["", " Eigenvectors after division by SQRT(mass)", "", " Eigenvectors and eigenvalues of the dynamical matrix", " ----------------------------------------------------", "", ""]
            for k, (w, e) in enumerate(zip(c.wavenumbers, c.eigenvectors)):
                a = abs(w)
                label = "f/i=" if w < 0 else "f  ="
                out.append(
                    f"{k + 1:4d} {label} {a / 33.35641:11.6f} THz {a / 5.30884:12.6f} 2PiTHz{a:12.6f} cm-1 {a * 0.123984:12.6f} meV"
                )
                out.append("             X         Y         Z           dx          dy          dz")
                for x, d in zip(cart, e * factor):
                    out.append("   " + "".join(_num(v, 10, 6) for v in x) + "  " + "".join("  " + _num(v, 10, 6) for v in d))
                out.append(" ")
    if c.frames is not None:
        truth = []
        seq = list(enumerate(c.kinds)) if not hasattr(c, "order") else list(zip(c.order, c.kinds))
        for k, kind in seq:
            # VASP prints Cartesian positions folded into the cell
            frac = c.frames[k] - np.floor(c.frames[k]) if md_shift else c.frames[k]
            cart = rnd(frac @ lat, 5)
            if kind == "shadow":
                cart = cart + 0.01
            out += [DASH, ""]
            if decoys and rng.random() < 0.5:
                out.append("      direct lattice vectors                 reciprocal lattice vectors")
                for a, b in zip(lat, rec):
                    out.append("   " + "".join(_num(v, 13, 9) for v in a) + "   " + "".join(_num(v, 13, 9) for v in b))
                out.append("")
            head = " POSITION                                       TOTAL-FORCE (eV/Angst)"
            out.append(head + (" (ML)" if kind == "ml" else ""))
            out.append(" " + "-" * 83)
            for x in cart:
                f = rng.normal(size=3)
                out.append(" " + " ".join(_num(v, 12, 5) for v in x) + "  " + " ".join(_num(v, 13, 6) for v in f))
            out.append(" " + "-" * 83)
            out.append("    total drift:                                0.000000      0.000000      0.000000")
            if kind != "shadow":
                truth.append(cart @ np.linalg.inv(lat))
        c.md_truth = np.array(truth)
    out += ["", " General timing and accounting informations for this job:", "", "                  Total CPU time used (sec):      100.0"]
    return out


# ---------------------------------------------------------------- vasprun.xml
def _varray(name, rows, indent, digits=8):
    pad = " " * indent
    out = [f'{pad}<varray name="{name}" >']
    for row in rows:
        out.append(f"{pad} <v>" + "".join(" " + _num(v, 16, digits) for v in row) + " </v>")
    out.append(f"{pad}</varray>")
    return out


def _structure(lat, positions, attr, indent=1, digits=8, wrap_in=None):
    pad = " " * indent
    out = [f"{pad}<structure{attr}>", f"{pad} <crystal>"]
    out += _varray("basis", lat, indent + 2, 9)
    out.append(f'{pad}  <i name="volume">     {abs(np.linalg.det(lat)):.8f} </i>')
    out += _varray("rec_basis", np.linalg.inv(lat).T, indent + 2)
    out.append(f"{pad} </crystal>")
    out += _varray("positions", positions, indent + 1, digits)
    out.append(f"{pad}</structure>")
    return out


def vasprun(c, rng, decoys=True):
    """vasprun.xml text (list of lines). Fills c.wavenumbers_xml and c.md_truth_xml."""
    lat = c.lattice
    out = ['<?xml version="1.0" encoding="ISO-8859-1"?>', "<modeling>", " <generator>", '  <i name="program" type="string">vasp </i>', " </generator>"]
    if decoys:
        out += [" <incar>", '  <i type="string" name="PREC">accurate</i>']
        if c.timestep is not None:
            out.append(f'  <i name="POTIM">      {c.timestep * 2 + 0.3:.8f}</i>')
        out.append(" </incar>")
        out += [" <primitive_cell_info>"] + _structure(lat * 0.5, c.positions[:1], ' name="primitive_cell"', 2) + [" </primitive_cell_info>"]
    out += [" <kpoints>", "  <varray name=\"kpointlist\" >", "   <v>       0.00000000       0.00000000       0.00000000 </v>", "  </varray>", " </kpoints>"]
    out += [" <parameters>", '  <separator name="general" >', '   <i type="string" name="SYSTEM">unknown</i>', "  </separator>"]
    if decoys:
        out += ['  <separator name="electronic" >', '   <i name="POTIM">      9.99000000</i>', "  </separator>"]
    out += ['  <separator name="ionic" >', '   <i type="int" name="NSW">     3</i>']
    if c.timestep is not None:
        out.append(f'   <i name="POTIM">      {c.timestep:.8f}</i>')
    out += ["  </separator>", " </parameters>"]
    out += [" <atominfo>", f"  <atoms>     {c.n} </atoms>", f"  <types>       {len(c.types)} </types>"]
    out += ['  <array name="atoms" >', '   <dimension dim="1">ion</dimension>', '   <field type="string">element</field>', '   <field type="int">atomtype</field>', "   <set>"]
    index = [k + 1 for k, cnt in enumerate(c.counts) for _ in range(cnt)]
    for s, t in zip(c.symbols, index):
        out.append(f"    <rc><c>{s:<2s}</c><c>{t:4d}</c></rc>")
    out += ["   </set>", "  </array>", '  <array name="atomtypes" >', '   <dimension dim="1">type</dimension>', "   <set>"]
    for s, k in zip(c.types, c.counts):
        out.append(f"    <rc><c>{k:4d}</c><c>{s:<2s}</c><c>     {elements.WEIGHT[elements.NUMBER[s]]:.8f}</c><c>      4.00000000</c><c>  PAW_PBE {s} 06Sep2000 </c></rc>")
    out += ["   </set>", "  </array>", " </atominfo>"]
    out += _structure(lat, c.positions, ' name="initialpos" ')
    if decoys and c.eigenvectors is not None:
        for _ in range(int(rng.integers(0, 4))):
            out += [" <calculation>"] + _structure(lat, (c.positions + 0.002) % 1, "", 2)
            out += _varray("forces", np.zeros((c.n, 3)), 2) + [" </calculation>"]
    out.append(" <calculation>")
    out.append("  <scstep>")
    out.append('   <energy><i name="e_fr_energy">   -10.0 </i></energy>')
    out.append("  </scstep>")
    if decoys:
        out += _structure(lat * 1.01, (c.positions + 0.013) % 1, "", 2)
    if c.polarizability is not None:
        if decoys:
            out += _varray("dielectric_ipa", c.polarizability * 1.4 + 0.2, 2)
        out += _varray("dielectric_dft", c.polarizability, 2)
        if decoys:
            out += _varray("epsilon", c.polarizability * 0.9, 2)
            out += _varray("epsilon_ion", c.polarizability * 0.1, 2)
    if c.eigenvectors is not None:
        out.append("  <dynmat>")
        m = 3 * c.n
        if decoys:
            out += _varray("hessian", np.zeros((min(m, 6), m)), 3)
        values = -np.sign(c.wavenumbers) * (np.abs(c.wavenumbers) * 0.0299792458) ** 2
        values = rnd(values, 8)
        c.wavenumbers_xml = -np.sign(values) * np.sqrt(np.abs(values)) / 0.0299792458
        out.append('   <v name="eigenvalues">' + "".join(" " + _num(v, 16, 8) for v in values) + " </v>")
        out += _varray("eigenvectors", c.eigenvectors.reshape(len(c.eigenvectors), -1), 3)
        out.append("  </dynmat>")
    out.append(" </calculation>")
    if c.frames is not None:
        truth = []
        for frame in c.frames:
            frac = rnd(frame - np.floor(frame), 8)
            out += _structure(lat, frac, "")
            if decoys:
                out += _varray("forces", rng.normal(size=(c.n, 3)), 1)
            if decoys and rng.random() < 0.3:
                out += [" <calculation>"] + _structure(lat, c.positions, "", 2) + [" </calculation>"]
            truth.append(frac)
        c.md_truth_xml = np.array(truth)
        last = c.md_truth_xml[-1]
    else:
        last = c.positions
    # relaxed positions differ from atom to atom; a run may also end before they are written
    kind = int(rng.integers(6)) if decoys else 1
    if kind:
        out += _structure(lat, rnd((last + rng.normal(size=last.shape) * 0.01) % 1, 8) if decoys else last, ' name="finalpos" ')
    out.append("</modeling>")
    return out


# ------------------------------------------------------------- POSCAR / XDATCAR
def poscar(c, rng, scale=1.0, cartesian=False, selective=False, trailing=False, label="system", extra=(), digits=16):
    """POSCAR text in one of its dialects (list of lines)."""
    lat = c.lattice
    factor = scale
    if scale < 0:
        factor = np.cbrt(abs(scale) / abs(np.linalg.det(lat)))
        # vectors are free up to a common factor, the volume decides
        free = rng.uniform(0.5, 2.0)
        shown = lat * free
        real = lat * factor
        scale_text = f"{scale:.10f}"
    else:
        shown = lat / scale
        real = lat
        scale_text = f"{scale!r}"
    out = [label, "  " + scale_text]
    for v in shown:
        out.append("   " + "  ".join(f"{x:.{digits}f}" for x in v))
    out.append("  " + " ".join(c.types))
    out.append("  " + " ".join(str(k) for k in c.counts))
    if selective:
        out.append(["Selective dynamics", "selective", "S"][int(rng.integers(3))])
    if cartesian:
        out.append(["Cartesian", "cart", "C"][int(rng.integers(3))])
        # Cartesian coordinates are multiplied by the same universal factor
        k = scale if scale > 0 else None
        rows = c.positions @ (shown if k is not None else shown)
    else:
        out.append(["Direct", "direct", "D"][int(rng.integers(3))])
        rows = c.positions
    for k, x in enumerate(rows):
        line = "  " + "  ".join(f"{v:.{digits}f}" for v in x)
        if selective:
            line += "  " + "  ".join(str(f) for f in rng.choice(["T", "F"], 3))
        if trailing:
            line += f"  {c.symbols[k]}"
        out.append(line)
    out += list(extra)
    return out, real


def xdatcar(c, frames, digits=8, label="system", scale=1.0):
    """XDATCAR text (list of lines)."""
    out = [label, f"           {scale!r}"]
    for v in c.lattice / scale:
        out.append("   " + "  ".join(f"{x:.10f}" for x in v))
    out.append("  " + " ".join(c.types))
    out.append("  " + " ".join(str(k) for k in c.counts))
    for k, frame in enumerate(frames):
        out.append(f"Direct configuration= {k + 1:5d}")
        for x in frame:
            out.append("   " + "  ".join(f"{v:.{digits}f}" for v in x))
    return out


def parse_poscar(text):
    """Independent strict parser of direct-coordinate POSCAR/XDATCAR files.

    Returns (label, lattice, symbols, list of frames).
    """
    lines = text.split("\n")
    if lines and lines[-1] == "":
        lines.pop()
    scale = float(lines[1])
    lattice = np.array([[float(v) for v in line.split()] for line in lines[2:5]]) * scale
    types = lines[5].split()
    counts = [int(v) for v in lines[6].split()]
    assert len(types) == len(counts)
    symbols = [s for s, k in zip(types, counts) for _ in range(k)]
    n = len(symbols)
    rest = lines[7:]
    frames = []
    while rest:
        assert rest[0].lower().startswith("direct"), rest[0]
        rows = [[float(v) for v in line.split()] for line in rest[1 : n + 1]]
        frame = np.array(rows)
        assert frame.shape == (n, 3), frame.shape
        frames.append(frame)
        rest = rest[n + 1 :]
    return lines[0], lattice, symbols, frames


def save(path, lines, newline="\n"):
    with open(path, "w", encoding="utf-8", newline="") as file:
        file.write(newline.join(lines) + newline)
    return path
