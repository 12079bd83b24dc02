"""Writes /verif/properties.jsonl (one source for ids, titles, statements and anchors)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "ramannoodle/structure/"; M = "ramannoodle/pmodel/"; IO = "ramannoodle/io/"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                     observe_at=observe, hook_needed=None)))

prop("P01", "Periodic-boundary arithmetic is exact modulo lattice translations",
 "Wrapping fractional positions yields coordinates in [0,1) (rounding up to 1 only for values a rounding error below a cell face) that differ from the input by integers only, and wrapping a displacement yields components in (-1/2,1/2] that differ from the input by integers only. Displacing a structure and then measuring the displacement between the original and the result returns the minimum-image displacement; measured displacements are antisymmetric (up to the half-cell tie) and do not change when any atom of either structure is moved by whole lattice vectors. Transforming positions by a lattice rotation and a translation gives the rotated and translated positions modulo lattice vectors.",
 ["inputs"], "All float64 position/displacement arrays (negative, far outside the cell, exactly on cell faces, tiny negative), all integer shifts, single structures and batches.",
 "The tests check four hand-written arrays; wrapping conventions must hold for every coordinate, and the failure modes (negative remainders, the half-cell tie, values just below zero) are not sampled.",
 [S+"utils.py"], [("apply_pbc / apply_pbc_displacement", S+"utils.py"), ("displace_positions, calc_displacement, transform_positions", S+"utils.py")],
 ["return values of the public functions in ramannoodle.structure.utils"])

prop("P02", "Fractional/Cartesian conversions are faithful to the lattice",
 "For every lattice (skewed, left-handed, very long or very short axes), converting a fractional displacement to Cartesian coordinates gives the lattice-weighted sum of its minimum image, converting back restores it, and the two conversions are linear and mutually inverse on displacements smaller than half a cell. Directions are converted without periodic wrapping, keep the documented shape, and so preserve direction whatever the magnitude of the vector supplied. Looking atoms up by element symbol returns exactly the indexes of the atoms of those elements, in order.",
 ["inputs"], "All lattices, structures, displacements and direction vectors of any magnitude, single displacements and batches of displacements.",
 "No test converts in a non-orthogonal cell, none converts a direction longer than half a cell, and none round-trips.",
 [S+"_reference.py"], [("get_cart_displacement, get_frac_displacement", S+"_reference.py"), ("get_cart_direction, get_frac_direction, get_atom_indexes", S+"_reference.py")],
 ["return values of the ReferenceStructure conversion methods"])

prop("P03", "Equivalent displacements are true symmetry images and complete by atom orbit",
 "Every displacement reported as symmetrically equivalent to a given one is, up to a positive scale, the image of that displacement under some symmetry operation of the crystal (as a Cartesian vector field over the atoms), and every operation that carries the displacement to plus or minus a reported one is represented. Reported degrees of freedom are mutually orthogonal in Cartesian space, entries inside one degree of freedom are collinear and distinct, and the original displacement belongs to the first one. The partition of atoms into equivalent groups is exactly the set of orbits of the crystal's symmetry group, and the number of groups equals the reported number of nonequivalent atoms. Structures that have no symmetry (numbers that are not finite, lattice vectors that span no cell) are refused with an error.",
 ["inputs", "configurations"], "All crystals (all lattice systems, primitive and conventional cells, supercells, rotated, origin-shifted, re-ordered and re-chosen cells), all single-atom and collective displacements.",
 "The tests check only counts of atoms and displacements on three tetragonal/cubic/triclinic cells, where the fractional and Cartesian pictures coincide.",
 [S+"_reference.py", S+"_symmetry_utils.py"], [("spglib symmetry search + permutation matrices", S+"_reference.py"), ("get_equivalent_displacements / get_equivalent_atom_dict", S+"_reference.py"), ("is_orthogonal_to_all, are_collinear", S+"_symmetry_utils.py")],
 ["return values of ReferenceStructure.get_equivalent_displacements, get_equivalent_atom_dict, num_nonequivalent_atoms"],
 [("symmetry operations", "rotations/translations/permutations of the reference structure", S+"_reference.py")])

prop("P04", "Generated displaced structures realise exactly the requested displacement",
 "Structures generated for a displacement direction and a list of amplitudes contain, in order, one structure per amplitude whose minimum-image Cartesian displacement from the reference equals the amplitude (in Å, with sign) times the unit vector along the direction, whatever the direction's magnitude and for any number of amplitudes; single-atom generation moves only the named atom. When written to files, the i-th file contains the i-th structure on the unchanged lattice with the unchanged elements, and the written set can be read back into the same amplitudes.",
 ["inputs", "configurations"], "All reference structures and lattices, directions, amplitude lists of any length (including hundreds), any atom, one or many output paths given as strings or Path objects.",
 "The tests displace one atom of one orthogonal cell with two or three amplitudes.",
 [S+"_displace.py", S+"_reference.py", "ramannoodle/exceptions.py"], [("get_displaced_positions / get_ast_displaced_positions", S+"_displace.py"), ("write_displaced_structures / write_ast_displaced_structures", S+"_displace.py"), ("verify_list_len", "ramannoodle/exceptions.py")],
 ["returned position lists", "files written to a scratch directory"])

prop("P05", "Interpolation reproduces supplied data and superposes over degrees of freedom",
 "At every displacement amplitude that was supplied for a degree of freedom the model returns exactly the supplied polarizability (and the reference polarizability at zero when the reference is included), polynomial data of degree up to the interpolation order is reproduced everywhere in the sampled range, and the response to a displacement along several degrees of freedom is the sum of the individual responses while components outside them contribute nothing. Evaluating a batch gives the same answer as evaluating each configuration alone in any order, and moving any atoms by whole lattice vectors changes nothing.",
 ["inputs", "configurations"], "All reference structures, all sets of mutually orthogonal degrees of freedom, amplitudes, polarizabilities and orders, all batches of configurations.",
 "The tests only count degrees of freedom and compare one TiO2 spectrum; no test evaluates a model at a supplied point, in a skewed cell, or compares batch and single evaluation.",
 [M+"_interpolation.py"], [("calc_polarizabilities", M+"_interpolation.py"), ("_get_dof, _construct_and_add_interpolations", M+"_interpolation.py")],
 ["return values of calc_polarizabilities on the built model"])

prop("P06", "Symmetry-completed models reproduce a symmetric crystal's response",
 "If the polarizability data supplied for symmetry-inequivalent displacements come from a response that respects the crystal's symmetry, the completed model returns the correctly transformed polarizability at every symmetry image of the supplied displacements, is itself equivariant under every symmetry operation of the crystal, and, when the data are complete, equals the true linear response in every direction. This holds for every lattice type, cell choice, orientation and origin.",
 ["inputs", "configurations"], "All crystals in all lattice systems and cell choices, all symmetric response functions (random linear responses projected on the crystal's space group), all choices of inequivalent displacements.",
 "Existing tests use one tetragonal crystal whose axes coincide with the Cartesian axes, for which untransformed and transformed tensors cannot be told apart from fractional ones.",
 [M+"_interpolation.py", M+"_art.py", S+"_reference.py"], [("tensor rotation of supplied polarizabilities", M+"_interpolation.py"), ("get_equivalent_displacements", S+"_reference.py")],
 ["calc_polarizabilities of models built through add_dof and add_art"])

prop("P07", "Model building is validated and transactional",
 "Adding a degree of freedom either succeeds, leaving all degrees of freedom unit-norm and mutually orthogonal with one unmasked entry each, or raises an error and leaves the model exactly as it was, so that later additions and predictions behave as if the failed call had never been made. Displacements overlapping existing degrees of freedom (including only through symmetry images), amplitudes duplicated explicitly or by symmetry, too few points for the order, mismatched shapes and incompatible or non-collinear structures are rejected. The order in which compatible degrees of freedom are added does not change predictions.",
 ["histories", "inputs"], "All histories of valid and invalid additions (direct, from files, from in-memory structures) on all reference structures, for general, atomic and placeholder models.",
 "The tests raise each error once on a fresh model and never look at the model afterwards; no test interleaves failing and succeeding additions.",
 [M+"_interpolation.py", M+"_art.py"], [("orthogonality, duplicate and point-count checks before commit", M+"_interpolation.py"), ("ART restrictions", M+"_art.py")],
 ["basis vectors, interpolations, mask and predictions before/after each call"],
 [("model state", "basis vectors, interpolations and mask", M+"_interpolation.py")])

prop("P08", "Masking removes exactly the masked contributions and never leaks",
 "A masked copy of a model predicts the reference polarizability plus only the contributions of the unmasked degrees of freedom, and masks exactly those listed, so that partial responses add up to the full one; the original model is unaffected by making, using, changing or further building on the copy and vice versa. Clearing the mask restores the full prediction, and the degree-of-freedom indexes reported for atoms or element symbols are exactly those that move those atoms.",
 ["inputs", "histories"], "All models, all masks, and all sequences of masking, unmasking, copying and adding degrees of freedom.",
 "One test masks two element groups of one model and compares against stored spectra.",
 [M+"_interpolation.py", M+"_art.py"], [("mask, get_masked_model, unmask", M+"_interpolation.py"), ("get_dof_indexes", M+"_art.py")],
 ["calc_polarizabilities, mask, get_dof_indexes"])

prop("P09", "Placeholder (dummy) models track specifications but never predict",
 "A dummy model accepts exactly the degree-of-freedom specifications a real model accepts, rejects those it rejects with the same kind of error, and ends with the same basis vectors, masks and specification report, whatever polarizabilities are passed. Asking it (or any masked copy, or any spectrum calculation through it) for polarizabilities always raises the documented user error instead of returning numbers.",
 ["histories", "inputs"], "All histories of additions including the empty one, all configurations evaluated.",
 "The tests build one dummy model and never evaluate an empty one.",
 [M+"_interpolation.py", M+"_art.py"], [("is_dummy_model handling", M+"_interpolation.py")],
 ["state of real and dummy models driven in lockstep", "exceptions of calc_polarizabilities"])

prop("P10", "Every way of specifying a degree of freedom builds the same model",
 "Specifying a degree of freedom directly by displacement and amplitudes, from result files, or from in-memory structures yields models that agree in basis, interpolation and prediction, and the three ways accept and reject the same specifications; the magnitude of a displacement or direction argument never matters. Atomic Raman tensor models are exactly interpolation models restricted to single-atom, first-order degrees of freedom with two amplitudes, refuse the unrestricted entry points, and report (in tuples and in the printed summary) for each inequivalent atom its equivalents and the directions specified so far.",
 ["inputs", "programs"], "All crystals, displacements, amplitude sets, file formats and orders of files.",
 "Tests compare file-based and direct construction once each on one crystal with axis-aligned unit displacements.",
 [M+"_art.py", M+"_interpolation.py", IO+"pymatgen.py", IO+"generic.py"], [("add_dof / add_dof_from_files / add_dof_from_pymatgen", M+"_interpolation.py"), ("add_art / add_art_from_files / add_art_from_pymatgen, get_specification_tuples", M+"_art.py")],
 ["models built through the different entry points"])

prop("P11", "Phonon Raman tensors are directional derivatives of the model's polarizability",
 "The Raman tensor reported for a phonon is proportional, with one constant common to all phonons, models and structures, to the central-difference directional derivative of the model's polarizability along that phonon's displacement at the reference positions; order, number and wavenumbers of the phonons are preserved. It is linear in the displacement where the model is linear, vanishes where the model does not respond, and incompatible models and phonons are rejected.",
 ["inputs", "programs"], "All polarizability models (built-in and user-defined), all phonon sets.",
 "One TiO2 spectrum is compared with a stored one; no test compares against a derivative of an analytic model.",
 ["ramannoodle/dynamics/_phonon.py", "ramannoodle/constants.py"], [("get_raman_spectrum", "ramannoodle/dynamics/_phonon.py")],
 ["configurations the model is asked for", "raman_tensors of the spectrum"])

prop("P12", "Phonon Raman intensities are the orientation-averaged invariants",
 "A powder phonon spectrum reports, at each phonon's wavenumber and in the phonons' order, 45 times the squared isotropic part plus 7 times the squared anisotropy of the symmetric Raman tensor. Intensities are therefore non-negative, unchanged by any rotation or sign change of the tensors, scale quadratically, and do not depend on the other phonons; repeated measurement gives the same answer and unsupported orientations are refused.",
 ["inputs"], "All sets of phonon wavenumbers and 3x3 Raman tensors, all rotations.",
 "The tests compare with stored spectra; a formula error that vanishes on those tensors (for instance in one off-diagonal term) is invisible.",
 ["ramannoodle/spectrum/_raman.py"], [("PhononRamanSpectrum.measure", "ramannoodle/spectrum/_raman.py")],
 ["return value of measure"])

prop("P13", "Molecular-dynamics spectra are power spectra of the polarizability derivative",
 "A signal's spectrum is the non-negative-frequency Fourier transform of its one-sided autocorrelation on a wavenumber axis fixed by the timestep, and an MD Raman spectrum is the 45/7 combination of the spectra of the isotropic and anisotropic parts of the polarizability time derivative, with the zero-wavenumber point removed. A sinusoidal polarizability therefore peaks at its own wavenumber; spectra are unchanged by a constant offset, a rotation of the frame, and an overall sign, scale quadratically with the polarizability, and have wavenumbers inversely proportional to the timestep.",
 ["inputs"], "All polarizability time series (any length, even or odd), timesteps and rotations; all real signals.",
 "Two stored spectra and one 3-sample signal are compared; parity of length, individual tensor components and timestep scaling are not exercised.",
 ["ramannoodle/spectrum/_raman.py", "ramannoodle/spectrum/utils.py", "ramannoodle/dynamics/_trajectory.py"], [("MDRamanSpectrum.measure", "ramannoodle/spectrum/_raman.py"), ("calc_signal_spectrum", "ramannoodle/spectrum/utils.py")],
 ["return values of measure and calc_signal_spectrum"])

prop("P14", "Laser and Bose-Einstein corrections multiply the raw spectrum by the stated laws",
 "Turning on the laser correction multiplies every intensity by the fourth power of the wavenumber difference to the laser (10^7 over the wavelength in nm) divided by the wavenumber, turning on the thermal correction multiplies it by the Bose-Einstein factor 1/(1-exp(-hc nu/kT)), and turning on both multiplies by both, for phonon and MD spectra alike, leaving wavenumbers untouched. Correction parameters have no effect while their correction is off, every temperature and wavelength accepted is positive, and non-positive ones are rejected.",
 ["inputs", "configurations"], "All spectra, wavelengths, temperatures and all four combinations of switches, in any sequence of measurements.",
 "Only a few stored spectra at default settings are compared.",
 ["ramannoodle/spectrum/_raman.py", "ramannoodle/constants.py"], [("get_bose_einstein_correction, get_laser_correction", "ramannoodle/spectrum/_raman.py")],
 ["measure under all switch combinations"])

prop("P15", "Spectrum convolution conserves weight and is linear and local",
 "Convolving a spectrum replaces each line by a normalised Gaussian (standard deviation equal to the width) or Lorentzian (full width at half maximum equal to the width) centred on it, so the result is the sum over lines, is linear in intensities, independent of line order, symmetric about a line, and integrates to the total intensity. It is returned on exactly the requested output grid whatever its numeric type, length, order or spacing, or by default on a grid extending 100 cm-1 beyond the lines at about 1 cm-1 spacing; invalid widths, shapes and functions are rejected.",
 ["inputs", "configurations"], "All line positions (negative, repeated, unsorted), intensities, widths, functions and output grids including integer ones.",
 "Two stored convolved spectra on float grids at one width.",
 ["ramannoodle/spectrum/utils.py"], [("convolve_spectrum", "ramannoodle/spectrum/utils.py")],
 ["return value of convolve_spectrum"])

prop("P16", "Structures and trajectories survive writing and reading back",
 "Writing any valid structure or trajectory and reading the file back, through the specific or the generic interface, returns the same lattice, the same elements in the same order and the same positions to at least 12 significant decimals, for any number of atoms, species and frames and any label text. Reading only positions, a full structure, or a reference structure from one file gives consistent results, every read reflects what the file contains then, and a structure that cannot be represented is refused rather than written incorrectly.",
 ["inputs"], "All lattices, element sequences, positions in [0,1], frame counts (including one and more than 10^5 label values), labels containing newlines, quotes and non-ASCII text.",
 "The tests round-trip one or two files from the data directory.",
 [IO+"vasp/poscar.py", IO+"vasp/xdatcar.py", IO+"generic.py", IO+"_utils.py"], [("write_structure / read_structure", IO+"vasp/poscar.py"), ("write_trajectory / read_positions_ts", IO+"vasp/xdatcar.py"), ("generic dispatch", IO+"generic.py")],
 ["files in a scratch directory, read back and parsed by an independent parser"])

prop("P17", "Existing files are never destroyed without permission",
 "No writing function replaces, truncates or alters an existing file unless overwriting was requested, even if the file appears between the call and the write; the refusal is an error the caller sees. With overwriting requested the file afterwards holds exactly the new content, and a request that is rejected as invalid (bad structure, elements that cannot be grouped, unknown format, wrong number of paths) changes no file at all.",
 ["inputs", "fault_sequences", "schedules"], "All writing entry points, all prior states of the target path (absent, regular file, longer file, symbolic link, appearing late), all invalid arguments.",
 "The tests check overwrite refusal on one file in one writer; races and invalid requests on existing files are not exercised.",
 [IO+"vasp/poscar.py", IO+"vasp/xdatcar.py", IO+"generic.py", S+"_displace.py"], [("exclusive-create open mode; validation before open", IO+"vasp/poscar.py"), ("overwrite flag forwarding", IO+"generic.py")],
 ["audited file opens and directory snapshots of a scratch directory"])

prop("P18", "Readers of calculation outputs return what the file says",
 "Reading an OUTCAR or vasprun.xml returns the lattice, element sequence, initial fractional positions, dielectric tensor, timestep and trajectory frames stored in it, and phonon wavenumbers and displacements in file order with imaginary modes negative and displacements equal to eigenvectors divided by the square root of each atom's mass, in fractional coordinates. This holds for any number of atoms, species and frames, any lattice, any supported element and potential-name variant, and for machine-learning MD files in which every machine-learned frame counts once.",
 ["inputs", "configurations"], "All well-formed files; a generator produces synthetic files with known contents in every variant.",
 "The tests read one file per reader, with two to four species, no imaginary modes on one path and a single lattice type.",
 [IO+"vasp/outcar.py", IO+"vasp/vasprun.py", "ramannoodle/constants.py"], [("OUTCAR section scanners", IO+"vasp/outcar.py"), ("vasprun element parsers", IO+"vasp/vasprun.py")],
 ["values returned for synthetic files with known ground truth"])

prop("P19", "All routes to the same data agree",
 "The same calculation read from different supported formats, through the generic and the format-specific interface, or via pymatgen objects, gives the same structures, phonons, trajectories, polarizabilities and datasets within the formats' printed precision; asking for a format an operation does not support raises a clear error. Equivalent spellings of a structure file (scale factor other than one, Cartesian or direct coordinates, selective dynamics, trailing columns, repeated species) describe the same structure.",
 ["inputs", "programs", "configurations"], "All structures and calculation results expressible in more than one format or dialect, all format/operation pairs.",
 "Each reader is tested alone on its own file; no test reads one calculation from two formats or dialects.",
 [IO+"generic.py", IO+"vasp/poscar.py", IO+"vasp/outcar.py", IO+"vasp/vasprun.py", IO+"vasp/xdatcar.py", IO+"pymatgen.py"], [("format dispatch tables", IO+"generic.py"), ("POSCAR dialect handling", IO+"vasp/poscar.py"), ("pymatgen adapters", IO+"pymatgen.py")],
 ["values returned by the different routes"])

prop("P20", "Damaged files are reported, never half-read",
 "Reading a truncated, corrupted or foreign file either returns data identical to what the intact part of the file fully specifies or raises the documented invalid-file error (file-not-found for a missing one); it never returns arrays with missing atoms, missing rows, a wrong shape or numbers that are not finite, and never fails with an unrelated internal error. A failed read has no effect on models or on later reads.",
 ["crash_points", "fault_sequences", "inputs"], "Truncation at every line (as left by an interrupted calculation), deletion and corruption of single lines and tokens, empty and foreign files, for every reader.",
 "The tests feed three hand-made malformed files to some of the readers.",
 [IO+"vasp/outcar.py", IO+"vasp/vasprun.py", IO+"vasp/poscar.py", IO+"vasp/xdatcar.py"], [("InvalidFileException conversion", IO+"vasp/outcar.py"), ("NoMatchingLineFoundException", IO+"_utils.py")],
 ["outcome (value or exception) of every reader on every damaged file"])

prop("P21", "Trajectories behave as immutable-length sequences of wrapped configurations",
 "A trajectory built from any position time series holds the same configurations wrapped into the cell, in order; its length, indexing (including negative), slicing, iteration and containment of frames agree with each other and with the positions it reports, out-of-range access raises an index error, and non-positive timesteps or malformed arrays are rejected. Spectra computed from it use every frame once, in order, with the stored timestep.",
 ["inputs", "histories"], "All position time series and index/slice expressions.",
 "The tests index one trajectory at a few places.",
 ["ramannoodle/dynamics/_trajectory.py"], [("Trajectory sequence protocol", "ramannoodle/dynamics/_trajectory.py")],
 ["public sequence protocol and positions seen by a recording model"])

prop("P22", "Public calls have no hidden side effects",
 "No public function or method modifies the arrays, lists or objects passed to it, results and values documented as copies can be modified freely without changing the object they came from or later results, and repeating a call on the same object with the same arguments gives the same result regardless of what was called in between. Only the documented mutators (adding degrees of freedom, setting or clearing masks, rescaling a dataset, training, writing files) change anything.",
 ["histories", "programs"], "All sequences of public calls, all returned values mutated by the caller in between.",
 "The tests never mutate a result or compare arguments before and after a call.",
 [S+"_reference.py", M+"_interpolation.py", "ramannoodle/spectrum/_raman.py", "ramannoodle/dynamics/_phonon.py", "ramannoodle/dynamics/_trajectory.py", "ramannoodle/dataset/torch/_dataset.py"], [("copying getters", S+"_reference.py"), ("copying getters", "ramannoodle/spectrum/_raman.py"), ("deepcopy of models", M+"_interpolation.py")],
 ["digests of arguments and object state around every call"])

prop("P23", "Training datasets keep samples aligned and scaling invertible",
 "A polarizability dataset keeps every sample's lattice, elements, positions and polarizability together and in order, reports the element-wise mean and population standard deviation, and its scaled 6-component targets (xx,yy,zz,xy,xz,yz) satisfy target*stddev+mean = polarizability for its own or any supplied mean and standard deviation, remaining usable for training. Tensor/vector conversions are mutually inverse on symmetric tensors, and datasets assembled from several files or structures preserve order and refuse mismatched lattices, elements or atom counts.",
 ["inputs", "histories"], "All sample sets, scalings applied in any order, files and structures in any order, compatible or not.",
 "One dataset is read and its shapes checked.",
 ["ramannoodle/dataset/torch/_dataset.py", "ramannoodle/dataset/torch/utils.py", IO+"_utils.py", IO+"pymatgen.py"], [("scaling and flattening", "ramannoodle/dataset/torch/_dataset.py"), ("dataset assembly", IO+"_utils.py"), ("vector/tensor conversion", "ramannoodle/dataset/torch/utils.py")],
 ["dataset items and properties"])

prop("P24", "Neural-network predictions depend on the physics only",
 "A neural-network polarizability model's prediction for a configuration is deterministic, symmetric, rescaled by exactly the stored mean and standard deviation, and independent of the other members, size and order of the batch and of previous calls. It is unchanged when all atoms are translated together or moved by whole lattice vectors, follows a consistent relabelling of atoms, does not depend on atoms out of reach of all others, and saving and restoring the parameters preserves it.",
 ["inputs", "histories"], "All reference structures, network sizes, parameter values, batches and configurations (with neighbours present), fresh and trained models.",
 "The tests compare a handful of internal helper values and run one training loop; batch composition and history are never varied.",
 [M+"torch/_gnn.py", M+"torch/_utils.py"], [("graph construction and batching", M+"torch/_gnn.py"), ("calc_polarizabilities", M+"torch/_gnn.py")],
 ["calc_polarizabilities / forward on permuted, split, translated and relabelled inputs"])

prop("P25", "One training epoch uses each sample once and reports honest losses",
 "A training epoch presents every training sample exactly once, updates parameters only from the training set with one optimizer step per batch and fresh gradients, and leaves the network ready for evaluation. The reported training loss is the mean over batches of the loss before each update, the reported validation loss and prediction variance are those of the updated network on the validation set, and the validation data never influence the parameters.",
 ["histories", "configurations"], "All dataset and batch sizes (dividing or not), loss functions, optimizers, numbers of epochs.",
 "One test trains one model and checks that the loss falls.",
 [M+"torch/_train.py"], [("train_single_epoch", M+"torch/_train.py")],
 ["optimizer/loss call log, parameters before and after, reported values"])

prop("P26", "Raman spectra are physically invariant end to end",
 "A spectrum computed from symmetry-inequivalent data does not depend on arbitrary choices: rigid rotation of the crystal with its tensors, shift of origin, order of atoms, primitive or conventional or otherwise re-chosen cell, sign of the phonon vectors and mixing of degenerate ones (for the summed intensity), choice of equivalent representative atoms and of orthogonal displacement directions. Partial spectra tensors obtained by masking add up to the full ones, and an MD run of small harmonic motion shows lines at the phonon wavenumber with the same relative tensor as the phonon route.",
 ["inputs", "programs", "configurations"], "All crystals, symmetric responses, phonon sets and the listed transformations.",
 "Spectra of a single crystal in a single setting are compared with stored ones.",
 ["ramannoodle/dynamics/_phonon.py", "ramannoodle/dynamics/_trajectory.py", M+"_interpolation.py", M+"_art.py", "ramannoodle/spectrum/_raman.py", S+"_reference.py"], [("model + dynamics + spectrum pipeline", "ramannoodle/dynamics/_phonon.py")],
 ["measured spectra of transformed inputs"])

with open(os.path.join(HERE, "properties.jsonl"), "w", encoding="utf-8") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), max(len(p["title"]) for p in P))
