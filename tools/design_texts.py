"""texts of the per-property table of DESIGN.md: (what is under contract, against what; what stays bounded or is assumed)"""
P = {
"C01": ("Solver2x2 and Solver4x4 run on the same arbitrary isotropic media (complex n, any angle, any number of wavelengths) and their Jones matrices are compared: the bare interface exactly; any number of layers by loop contracts on both solvers (4x4: state = ghost matrix @ exit matrix, the layer contract of C04 is a characteristic matrix; 2x2: the state before layer k maps the amplitudes of the two waves in layer k to those in front, and the ghost solution is carried from layer to layer); R and T from both solvers' amplitudes; absorbing incidence media wherever one exit wave both travels and decays forwards (elsewhere: known finding absorbing-front-branch).",
        "additional concrete stacks and the two solvers side by side on one and two given layers (bounded duplicates of the proved rule)"),
"C02": ("Poynting flux: with real symmetric tensors the Berreman matrix is J-selfadjoint, so the propagator conserves the flux; with (eps-eps^H)/i >= 0 the flux can only decrease (LYAP). Both carried through the loop over arbitrarily many slices to R+T=1 / R+T<=1 for the R and T the real Result returns.",
        "LYAP (sign of the flux derivative gives the sign of the difference); lossless front medium"),
"C03": ("Berreman matrix of the real code against curl E, curl H with the tensor of the layer; the half-space matrices' columns are eigenvectors travelling the right way; stack of arbitrarily many slices: the tangential fields at the exit are the product of the propagators applied to those at the entrance, with the real Jones matrices of the Result.",
        "EXPM: exp(i k0 d Delta) solves the layer's ODE"),
"C04": ("PropagatorExpm (scipy, torch), PropagatorEig, PropagatorLinear: result is exp(i k0 d Delta) (Delta diagonalisable for Eig: any numpy.linalg.eig result, degenerate included), 1 + i k0 d Delta for Linear, identity for zero thickness.",
        "contracts of expm and eig; laws of the exponential (LEMMA)"),
"C05": ("every material and dispersion at an arbitrary wavelength of an axis of arbitrary length equals the value of the scalar wavelength, also after reordering; the 4x4 solver on any stack of arbitrary slices; inhomogeneous layers with any number of divisions.",
        "the 2x2 solver: stacks of at most two layers (bounded)"),
"C06": ("frame conditions: the whole reachable heap (public attributes, lists, dicts, array contents as terms) before and after each real call; independence: everything the caller can reach is overwritten by fresh values, the result must keep its terms; an evaluated sample is compared with a never evaluated twin after the same modifications.",
        "nested and repeated lists and the 2x2 solver: at most two layers of each kind (any stack in the 4x4 solver and any inhomogeneous layer: proved)"),
"C07": ("Experiment.set_vector with arbitrary Jones, real Jones and Stokes vectors (poles of the sphere included); the result lies on the same ray of the Poincare sphere, normalised.", ""),
"C08": ("rho, psi, delta, their matrices and the ranges of delta for arbitrary amplitudes; tan(psi) exp(-i delta) = rho, folding by multiples of 360.", ""),
"C09": ("Mueller matrix of a Result with arbitrary Jones matrices maps Stokes vectors as the Jones matrix maps Jones vectors; real, normalised, invariant under a common factor; all sixteen elements against the closed form.", ""),
"C10": ("all named elements of a Result for arbitrary matrices: linear, circular, ellipsometric, numbered or lettered, unknown names refused.", ""),
"C11": ("ResultList: every attribute is the members' attributes stacked or averaged; members of a list of arbitrary length (vf/members.py) with arbitrary values.",
        "attribute order of stacked lists and lists that grow: at most three members (bounded)"),
"C12": ("tensors of isotropic, uniaxial, biaxial materials with arbitrary dispersions and rotations: R diag R^T, symmetric, invariants; independence of materials; type errors.", ""),
"C13": ("rotation helpers with arbitrary angles and axes: orthogonal, determinant 1, axis fixed, trace; agreement of the helpers.", "scipy.linalg.expm of a skew matrix (contract)"),
"C14": ("Bruggeman, Looyenga, Maxwell-Garnett, VCA with arbitrary tensors and fractions: the defining equation of each theory, end points, equal components, refused fractions.", "principal roots (side conditions are obligations)"),
"C15": ("permittivity profiles of layers with arbitrary tensors: order, thicknesses, slice centres, twists and varying mixtures with any number of divisions (arrays of symbolic length), repeated and nested layers.", "order, repetition and nesting of lists: at most three layers each (bounded)"),
"C16": ("a layer split at any position in an arbitrary stack, an empty layer inserted anywhere: same state after the loop rule for the 4x4 solver; repeated layers against the stack written out.", "exp(A+B)=exp(A)exp(B) for commuting (ADD); the 2x2 solver with one neighbour on each side (bounded)"),
"C17": ("each dispersion's function against its closed form for arbitrary parameters, any number of oscillators (fold rule: induction over the list), any wavelengths.", "the numerical Kramers-Kronig consistency of the oscillators is sampled; current parameters: two sets (bounded)"),
"C18": ("sum of any number of operands is the sum of their functions (fold rule); the operand list of a + b is the concatenation, for every expression of at most four operands of arbitrary kind, in every grouping.", "shapes of expressions of at most four operands (bounded)"),
"C19": ("binding of parameters for every model and every split into positional and keyword arguments, arbitrary values; frame: nothing else changes.", "arbitrary templates, required parameters, formula, histories: stated sizes (bounded)"),
"C20": ("index and dielectric views of an arbitrary function and of every model.", "tables of up to four points in any order (bounded); interp1d by contract"),
"C21": ("unit conversions as inverse bijections for scalars and arrays; quarter-wave thickness.", ""),
"C22": ("rho, pseudo-dielectric function in every output format, delta ranges, Mueller matrix from psi and delta, for tables with any number of rows; the bulk sample round trip.", "row-by-row comparison of all formats and the Mueller table: four rows (bounded)"),
"C23": ("each callback of the formula grammar is the operation of its production for arbitrary operands; the parser gives the usual precedence.", "formulas up to the stated size (bounded)"),
"C24": ("both Maclaurin transforms on axes of any length through generic even and odd elements (vf/seq.py): weights, step, parity, sign; linearity.", "element-by-element: short axes (bounded)"),
"C25": ("entries with arbitrary coefficients (up to 17) and tables with any number of rows: dispersion returned is the one documented; selection and filters.", "wavelength filters: a catalogue of seven rows (bounded)"),
"C26": ("one contract per operation of ParamsHist on a history of arbitrary length and maximum (vf/anylist.py): current values, saved list, return value; induction over histories.", "whole histories of three (any operation) or forty (sampled) operations (bounded)"),
"C27": ("residuals of both fits, shown and plotted curves, difference mode, buttons and files for data of any number of rows and an arbitrary model, with lmfit's Parameters and Minimizer by contract.", "lmfit contracts (cross-checked by real fits)"),
"C28": ("readers executed on texts whose numbers are arbitrary, HDF5 trees with spectra of any length; formulas and tables of NeXus materials of one to three axes.", "number of rows or angles in text files at most four (bounded)"),
}
ALARMS = [
 "C14: the statement first had the Bruggeman coefficients of host and guest exchanged with respect to the code's (f is the guest fraction); the end points show the code is right, the statement was corrected.",
 "C12/C13: axes given as a direction had to be unit vectors for one helper (documented); precondition corrected.",
 "C04: overflow for unphysically thick samples; ranges of the sampled thickness restricted (C29 is not claimed).",
 "C08: the property text claimed folding of the matrices for the range (0, 180); the Mueller matrix is computed from the unfolded matrix, so the text was corrected.",
 "C02: 'hence R + T = 1' was claimed for totally reflecting or absorbing front media, where R and T do not add up by definition; restricted to a lossless front medium with a propagating wave.",
 "C17: docstrings of two models have misprints; the oracle is the cited formula, confirmed against the numerical Kramers-Kronig integral.",
 "C19: as_index is documented as a view, so it follows later changes of the original; the frame contract allows that.",
 "C05: delta of an rho that is rounding noise (|rho| ~ 1e-16) differs between batch sizes; such entries are not compared.",
 "Engine: one disagreeing sample of the cross-check no longer makes a harness undecided when the disagreement is confined to a single badly conditioned sample.",
]
OBSERVED = [
 "p-polarised power_correction for an absorbing exit medium uses Re(n cos) instead of Re(n* cos); documented TODO in the code (C02 requires a lossless exit medium for T).",
 "DrudeEnergy's real part and sign follow the documentation and are not causal with the other models' convention.",
 "Unpolarised Stokes vectors give NaN Jones vectors; a vector of three numbers is silently ignored by set_vector.",
 "Mixture or anisotropic exit media have no power correction.",
 "An EMA whose tensors have an off-diagonal element that is zero in only one constituent gives NaN.",
 "KKR reads x[1] even on an axis of one point (IndexError); FitMuellerMatrix relies on the order of the columns; fit_button_clicked commits twice; a failing update leaves a spurious history entry; ParamsHist.revert out of range raises IndexError.",
 "RII: coefficient texts with double blanks raise; wavelength filters of numpy integers are refused.",
 "Accurion files with several ROIs or repeated points are summed and missing values become 0; SpectraRay files with a decimal comma in the header angles are not converted.",
 "NeXus psi/delta: the data type is looked up in the group 'sample' even if another name is given.",
 "Formula: parameter names equal to a built-in constant are shadowed by it; empty repeated lists raise.",
]
