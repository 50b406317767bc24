import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=["src/elli/"+f for f in files],mechanism=[dict(name=n,where="src/elli/"+w) for n,w in mech],hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where="src/elli/"+w) for n,m,w in state]
    if observe: d["anchors"]["observe_at"]=observe
    assert len(title)<=80,(id,len(title))
    P.append(d)

p("C01","The 2x2 and the 4x4 solver agree on isotropic stacks",
"For a structure whose half-spaces and layers are all isotropic and passive, Solver2x2 and Solver4x4 return the same reflection and transmission Jones matrices (zero p-s conversion) and the same reflectances and transmittances, whichever exact propagator the 4x4 solver uses.",
["inputs","configurations"],"every incidence medium (transparent), every list of isotropic layers with any thicknesses >= 0, every transparent or absorbing exit medium including total internal reflection, every angle in [0, 90) and every wavelength array",
"The suite compares the two solvers on one structure at one angle; the agreement has to hold for every stack, angle and wavelength.",
["solver2x2.py","solver4x4.py"],
[("Solver2x2.calculate / fresnel / list_snell / is_forward_angle","solver2x2.py"),("Solver4x4.calculate / build_delta_matrix / transition_matrix_iso_halfspace / get_k_z","solver4x4.py")],observe=["Result.jones_matrix_r","Result.jones_matrix_t","Result.R","Result.T"])
p("C02","Energy is conserved in lossless stacks, never created in passive ones",
"With transparent isotropic half-spaces and layers whose permittivity tensor is real symmetric (isotropic or anisotropic, in any orientation), the reflectances and transmittances add to one: R_pp+R_sp+T_pp+T_sp = R_ss+R_ps+T_ss+T_ps = 1, hence R+T=1 where there is no p-s conversion; in total reflection R is 1 and T is 0. If layers absorb, R+T does not exceed 1.",
["inputs","configurations"],"every stack of real-symmetric layers, number of layers, thickness, angle and wavelength, for Solver4x4 (any exact propagator) and, for isotropic layers, Solver2x2",
"Tests check R+T on a handful of structures; the balance must hold for every stack and angle.",
["solver4x4.py","solver2x2.py","result.py"],
[("power_correction and Jones matrices","solver4x4.py"),("power_correction","solver2x2.py"),("Result.R_matrix / T_matrix / R / T","result.py")],observe=["Result.R_matrix","Result.T_matrix","Result.R","Result.T"])
p("C03","The 4x4 solver solves Maxwell's equations for the stack",
"Solver4x4 propagates the tangential fields with the Berreman matrix of the layer's permittivity tensor at the conserved tangential wave number n_front*sin(theta), and the returned Jones matrices satisfy continuity of the tangential fields from the front to the back half-space: incident plus reflected fields equal the layers' propagators applied to the transmitted fields. The half-space matrices hold the plane-wave solutions of their medium, ordered by polarisation and direction, with the transmitted ones travelling (or decaying) away from the stack.",
["inputs"],"every complex permittivity tensor with non-zero zz component, tangential wave number, layer list, thickness and wavelength; isotropic exit media of any refractive index and anisotropic exit media whose Berreman matrix can be diagonalised",
"Tests compare a few crystals and layers to reference spectra; the field equations must hold for every tensor and stack.",
["solver4x4.py"],
[("Solver4x4.build_delta_matrix","solver4x4.py"),("Solver4x4.transition_matrix_iso_halfspace / transition_matrix_halfspace","solver4x4.py"),("Solver4x4.calculate","solver4x4.py")])
p("C04","Layer propagators are the matrix exponential they stand for",
"PropagatorExpm with either backend and PropagatorEig both return exp(2*pi*i*d*Delta/lambda) for every wavelength, PropagatorLinear returns its first-order expansion; consequently thicknesses add (P(d1+d2)=P(d1)P(d2)), P(-d) inverts P(d) and P(0) is the identity. An unknown backend name is rejected.",
["inputs","configurations"],"every 4x4 complex Delta matrix (diagonalisable for PropagatorEig), every real thickness and wavelength array",
"Tests run the propagators on one TiO2 sample; the identity is over all matrices and thicknesses.",
["solver4x4.py"],[("PropagatorLinear / PropagatorExpm / PropagatorEig.calculate_propagation","solver4x4.py")])
p("C05","Spectra are computed wavelength by wavelength",
"Evaluating a structure on an array of wavelengths gives, at each position, exactly what evaluating that single wavelength gives, regardless of the array's length, order or repetitions; a scalar wavelength gives the same as a one-element array. This holds for material tensors and dispersions as well as for every quantity of the result.",
["inputs","configurations"],"every wavelength array (length >= 1, any order), every structure and both solvers",
"Tests only evaluate fixed sorted spectra and never compare against pointwise evaluation.",
["solver2x2.py","solver4x4.py","materials.py","experiment.py","result.py"],
[("vectorised solver code","solver4x4.py"),("vectorised solver code","solver2x2.py"),("SingleMaterial.get_tensor","materials.py"),("Experiment.set_lbda","experiment.py")])
p("C06","Evaluation has no side effects and results are independent snapshots",
"Evaluating an experiment or reading any quantity from its result changes neither the structure, layers, materials, dispersions, wavelength array and vector passed in, nor global NumPy error settings, and evaluating twice gives the same values. A result already computed does not change when the structure, materials or wavelengths are modified afterwards.",
["inputs","histories"],"every structure, solver and sequence of evaluations, reads and later modifications of the inputs",
"Tests never compare the inputs before and after or mutate them after evaluation.",
["solver.py","solver4x4.py","solver2x2.py","experiment.py","result.py","materials.py"],
[("deepcopy in Solver.__init__","solver.py"),("Experiment.evaluate","experiment.py"),("np.seterr handling","materials.py")])
p("C07","Jones and Stokes descriptions of the incident light agree",
"Setting a Jones vector gives the Stokes vector (|a|^2+|b|^2, |a|^2-|b|^2, 2Re(ab*), -2Im(ab*)); setting a Stokes vector with a polarised part gives a normalised Jones vector, with real non-negative first component, whose Stokes parameters equal the polarised part divided by its length. Not giving a vector means diagonal polarisation.",
["inputs"],"every complex Jones vector and every Stokes vector with positive intensity and non-zero polarised part, including vertical polarisation",
"Tests set only one or two vectors.",
["experiment.py"],[("Experiment.set_vector","experiment.py")],observe=["Experiment.jones_vector","Experiment.stokes_vector"])
p("C08","rho = tan(psi) exp(-i delta), and delta lies in the chosen range",
"For every result psi is in [0, 90] degrees and tan(psi)*exp(-i*delta) equals rho, for the reflected and transmitted light and element by element for the matrices; rho is (r_pp E_p + r_ps E_s)/(r_sp E_p + r_ss E_s) for the incident Jones vector E, and the matrices are divided by the ss element. Delta lies in [lower, lower+360) of the chosen range, and for the range (0, 180) delta of the incident light is folded to |delta| in [0, 180] (the matrices are not folded).",
["inputs","configurations"],"every Jones matrix with non-zero ss element, every incident vector and every accepted delta range",
"Tests check the ranges (-180, 180) and (0, 360) on a few spectra; the identity is over all complex ratios and ranges.",
["result.py","utils.py"],
[("Result.rho/psi/delta and *_t, *_matrix, *_matrix_t","result.py"),("Result.as_delta_range","result.py"),("DeltaRange","utils.py")])
p("C09","The Mueller matrix describes the same sample as the Jones matrix",
"The Mueller matrix is real, has M11 = 1, and maps the Stokes vector of any fully polarised incident light to the Stokes vector of the light reflected by the Jones matrix, up to the common normalisation. It does not depend on a common factor of the Jones matrix.",
["inputs"],"every Jones matrix with non-zero ss element and every incident Jones vector",
"Tests compare one fitted spectrum; the map must be right for every Jones matrix, including p-s conversion.",
["result.py"],[("Result.mueller_matrix","result.py")])
p("C10","Named access returns the element it names",
"Result attributes and get() with names such as r_sp, t_pp, R_ss, T_ps, psi_pp, delta_sp, rho_ps (also with Greek letters), circular names (rc_LR, Tc_RL, ...) and numbered Mueller names return the element of the corresponding matrix with p or L first and s or R second; R_ij=|r_ij|^2, T_ij is |t_ij|^2 times the power correction, R and T are the means of pp and ss. The circular matrices are the linear ones changed to the basis (1, i)/sqrt2, (1, -i)/sqrt2 (with the reflected basis reversed); unknown names raise an error.",
["inputs"],"every Jones matrix pair, power correction and every name accepted by the accessor",
"Tests read a few names from a few spectra.",
["result.py"],[("Result.__getattr__ / get / _convert_index","result.py"),("Result.jones_matrix_rc / jones_matrix_tc / R / T / Rc_matrix / Tc_matrix","result.py")])
p("C11","Result lists stack and average what their members return",
"A ResultList returns, for every quantity, its members' values stacked in order (with unit axes removed), and its mean returns the arithmetic mean over the members, element by element, with the shape a single result has. Appending adds exactly one member at the end, and a mean cannot be averaged again.",
["inputs","histories"],"every number of results >= 1, number of wavelengths >= 1 and every quantity name",
"Tests use fixed lists of a few equal-length results.",
["result.py"],[("ResultList.__getattr__ / append / __len__","result.py"),("AveragedResultList.__getattr__","result.py")])
p("C12","Material tensors are the dispersions in the crystal's orientation",
"A material's permittivity tensor at each wavelength is R diag(ex, ey, ez) R^T with the dielectric functions of the assigned dispersions and the set rotation R; it is symmetric, and an isotropic material stays eps times the identity under every rotation. Arguments that are not dispersions (or not materials, for mixtures, layers and structures) are rejected with a TypeError.",
["inputs","configurations"],"every dispersion, rotation, material class and scalar or array of wavelengths",
"Tests check single materials without rotation.",
["materials.py","structure.py"],[("SingleMaterial.get_tensor / set_rotation","materials.py"),("Iso/Uni/BiaxialMaterial.set_dispersion","materials.py")])
p("C13","Rotation helpers return proper rotations with the stated inverses",
"rotation_euler, rotation_v and rotation_v_theta return real orthogonal matrices with determinant +1 that rotate right-handedly about the stated axes by the stated angle; the documented inverses (-r,-n,-p), -v and -theta invert them, and angles about one axis add. rotation_v(v) equals rotation_v_theta(v/|v|, |v| in degrees), and rotation_euler(p,n,r) is the product Rz(p) Rx(n) Rz(r).",
["inputs"],"every real angle and every unit axis or rotation vector",
"Tests try a few fixed angles.",
["utils.py"],[("rotation_euler / rotation_v / rotation_v_theta","utils.py")])
p("C14","Effective media follow their formula and have the right end points",
"Each mixture returns the pure host at fraction 0 and the pure guest at fraction 1, and in between its documented formula: the linear mean, Looyenga's cube of the mean cube roots, Maxwell Garnett's expression, and for Bruggeman a solution of 2x^2 + [(3f-2)e_host + (1-3f)e_guest]x - e_host e_guest = 0; components that are equal in host and guest stay unchanged. A mixture fraction outside [0, 1] (or not a number) is rejected.",
["inputs","configurations"],"every pair of host and guest permittivities (passive), every fraction in [0, 1], isotropic or diagonal tensors for the non-linear formulas",
"Mixture tests need a database that is not installed; they sample single fractions anyway.",
["materials.py"],[("VCAMaterial / LooyengaEMA / MaxwellGarnettEMA / BruggemanEMA.get_tensor_fraction","materials.py"),("MixtureMaterial.set_fraction","materials.py")])
p("C15","The structure's profile lists its layers in order with the right slices",
"A structure's permittivity profile is the front half-space, then every layer's slices from front to back, then the back half-space, the half-spaces with infinite thickness; slice thicknesses are non-negative and add to the layer's thickness. Inhomogeneous layers have the requested number of equal slices, a twisted layer evaluated at the slice centres with twist angle*z/d about z, a mixture layer with the modulated fraction at the slice centre; repeated layers give the last `before` layers, the layers n times, then the first `after` layers, also when nested.",
["inputs","configurations"],"every list and nesting of layers, numbers of slices and repetitions, thickness and modulation function",
"Tests check one repeated stack and one twisted layer.",
["structure.py"],[("Structure.get_permittivity_profile","structure.py"),("RepeatedLayers / Layer / InhomogeneousLayer.get_permittivity_profile","structure.py"),("TwistedLayer / VaryingMixtureLayer.get_tensor","structure.py")])
p("C16","Splitting a layer or adding a zero-thickness layer changes nothing",
"Replacing a homogeneous layer of thickness d by two adjacent layers of the same material with thicknesses adding to d, or inserting a layer of zero thickness of any material anywhere, or writing a periodic stack out instead of using repeated layers, leaves every reflection and transmission coefficient unchanged, for both solvers and the exact propagators.",
["inputs","configurations"],"every structure, split point and insertion position, every angle and wavelength",
"Tests compare one Bragg mirror; the invariance is over all structures.",
["solver2x2.py","solver4x4.py","structure.py"],[("layer loop of Solver4x4.calculate","solver4x4.py"),("layer loop of Solver2x2.calculate","solver2x2.py"),("RepeatedLayers.get_permittivity_profile","structure.py")])
p("C17","Dispersion models compute their documented closed form",
"Each closed-form dispersion model returns at every wavelength the value of its documented formula for its parameters, summed over all added oscillators in the convention eps1 + i*eps2 (where a docstring has a misprint in a sign, a width or a prefactor: the literature formula the model is named after); the models written as optical oscillators (Lorentz, Gaussian, Tauc-Lorentz and Cody-Lorentz imaginary parts, Drude, Cauchy/Urbach tail) have a non-negative imaginary part for physical parameters. Tauc-Lorentz and Cody-Lorentz do not absorb below the gap or decay below it as documented.",
["inputs","configurations"],"every real parameter set, number of oscillators and wavelength",
"Tests compare stored curves at one parameter set per model.",
["dispersions/cauchy.py","dispersions/sellmeier.py","dispersions/lorentz_energy.py","dispersions/lorentz_lambda.py","dispersions/gaussian.py","dispersions/tauc_lorentz.py","dispersions/cody_lorentz.py","dispersions/drude_energy.py","dispersions/drude_resistivity.py","dispersions/poles.py","dispersions/polynomial.py","dispersions/cauchy_custom.py","dispersions/cauchy_urbach.py","dispersions/sellmeier_custom.py","dispersions/epsilon_inf.py","dispersions/constant_refractive_index.py","dispersions/tanguy.py"],
[("dielectric_function / refractive_index of each model","dispersions/")])
p("C18","Adding dispersions adds their functions and leaves the operands alone",
"The sum of dispersions (or of a dispersion and a real number, on either side) has the sum of the operands' dielectric functions - for index-based ones the sum of their refractive indices - whatever the order or grouping, and none of the operands changes. Mixing dielectric- and index-based dispersions, adding two tables or adding anything else raises an error.",
["inputs","histories"],"every sequence and grouping of additions of dispersions, sums, tables and numbers",
"Tests add two or three Sellmeier terms and look at one grouping.",
["dispersions/base_dispersion.py","dispersions/table_epsilon.py","dispersions/table_index.py"],
[("Dispersion / IndexDispersion / DispersionSum / IndexDispersionSum.__add__, __radd__","dispersions/base_dispersion.py"),("Table / TableEpsilon.__add__","dispersions/table_index.py")])
p("C19","Dispersion parameters bind as declared and are not shared between objects",
"Positional arguments fill the model's parameters in their declared order, keywords by name, and the rest keep their defaults, for single and repeated parameters; unknown names, a parameter given twice, too many arguments or a missing required one raise InvalidParameters. Creating or extending one dispersion never changes another one, the model's defaults or the arguments, and repeated sets are kept in the order added.",
["inputs","histories"],"every model, every split of its parameters into positional and keyword arguments and every sequence of objects and added parameter sets",
"Tests check a few calls of the factory and single error cases.",
["dispersions/base_dispersion.py"],[("BaseDispersion.__init__ / add / _fill_params_dict / _guard_invalid_params","dispersions/base_dispersion.py"),("DispersionFactory.get_dispersion","dispersions/base_dispersion.py")])
p("C20","Index and dielectric views agree; tables return their data",
"For every dispersion the dielectric function is the square of the refractive index, DataFrames hold exactly these values (imaginary part negated if conjugated) against the wavelengths, and as_index gives the same optical response. Tables return the tabulated value at every tabulated wavelength, interpolate linearly between neighbours by default, and refuse wavelengths outside the table and unequal or empty columns.",
["inputs"],"every dispersion and wavelength array, every table with distinct wavelengths in any order",
"Tests interpolate one table and compare single frames.",
["dispersions/base_dispersion.py","dispersions/table_index.py","dispersions/table_epsilon.py","dispersions/pseudo_dielectric.py"],
[("get_dielectric / get_refractive_index / *_df / as_index","dispersions/base_dispersion.py"),("Table / TableEpsilon","dispersions/table_index.py")])
p("C21","Unit conversions are consistent and invert each other",
"Wavelength-energy, wavelength-frequency and wavelength-wavenumber conversions are their own inverses, energy-to-frequency inverts frequency-to-energy, going from wavelength to frequency to energy equals going directly, and the values follow E = hc/lambda, f = c/lambda and 1e7/lambda in nm, eV, Hz and 1/cm. The quarter-wave thickness is lambda/(4n).",
["inputs"],"every positive scalar or array",
"Tests check single numbers.",
["utils.py"],[("conversion_* functions","utils.py"),("get_qwp_thickness","utils.py")])
p("C22","Conversions of measured psi/delta data agree with the solver's conventions",
"rho computed from psi/delta data is tan(psi)*exp(-i*delta); the pseudo-dielectric function of the rho a bulk isotropic sample produces at that angle is the sample's permittivity, in all output formats; shifting delta values to another range changes them by multiples of 360 degrees only; and the isotropic Mueller matrix computed from psi/delta equals the Mueller matrix of a result with those angles.",
["inputs"],"every psi in [0, 90], delta, angle in (0, 90), permittivity of a bulk sample and accepted delta range",
"Tests convert one measured file.",
["utils.py","dispersions/pseudo_dielectric.py"],[("calc_rho / calc_pseudo_diel / convert_delta_range / convert_psi_delta_to_isotropic_mueller_matrix","utils.py"),("PseudoDielectricFunction","dispersions/pseudo_dielectric.py")])
p("C23","Formula dispersions evaluate the formula as written",
"A formula dispersion returns the arithmetic value of its formula string with the usual precedence, functions and constants, parameter values bound by name, sum[...] summing its bracket over all repeated parameter sets, and eps= / n= selecting dielectric or index meaning. The wavelength axis is converted to the formula's length or energy unit; unknown names, functions, units or a mismatched left-hand side are rejected.",
["programs","inputs"],"every formula of the grammar, parameter values and wavelength array",
"Tests evaluate a few formulas.",
["formula_parser/parser.py","dispersions/formula.py"],[("grammar and FormulaTransformer","formula_parser/parser.py"),("FormulaParser","dispersions/formula.py")])
p("C24","Kramers-Kronig transforms follow Maclaurin's formula",
"Each Kramers-Kronig function returns, at every point of an equidistant axis, (4/pi)*step times the alternate-point sum of Maclaurin's integrand over all points of the opposite parity; it is linear in the transformed values, the functions for reciprocal axes compute the same integral in 1/x, and arrays of different length are rejected.",
["inputs"],"every real array of values and every strictly monotonic axis of length >= 2",
"Tests transform two fixed spectra.",
["kkr/kkr.py"],[("im2re / re2im / *_reciprocal / _calc_kkr / _integrate_*","kkr/kkr.py")])
p("C25","Refractive-index database entries become the dispersion they describe",
"A refractiveindex.info entry gives a dispersion whose refractive index is the entry's formula (with up to the 17 coefficients the database format defines) or tabulated n + i*k at the wavelength converted from micrometres to nanometres; an entry of two parts takes n from one and k from the other. Searching returns exactly the catalogue rows that match: equal values for an exact search, similar ones (equal ones included) for a fuzzy search, and with a wavelength filter only entries whose range contains it. Unsupported or unknown entries raise an error.",
["inputs"],"every supported entry type and coefficient list, every table, every catalogue and query",
"The database is not available to the tests, which are skipped.",
["database/refractive_index_info.py"],[("RII.get_dispersion / get_mat / search","database/refractive_index_info.py")])
p("C26","Parameter history: undo restores the values before each tracked change",
"After any sequence of tracked changes, popping returns the parameters' values step by step to what they were before each change, newest first, and returns the values being replaced; the history never exceeds its maximum length and drops the oldest entries first. Saved entries and parameter sets handed in do not change when the current parameters do, and popping or reverting with an empty history changes nothing.",
["histories"],"every sequence of commits, tracked updates, pops, reverts and length changes",
"No test covers the history.",
["fitting/params_hist.py"],[("ParamsHist.commit / update_value / update_params / pop / revert / max_history_len","fitting/params_hist.py")],state=[("history list","saved parameter sets, oldest first","fitting/params_hist.py")])
p("C27","Fit residuals compare the model with the measurement at every point",
"The residual the fit minimises contains for every measured wavelength and angle exactly the difference between model and measurement - real and imaginary part of rho for psi/delta fits, the selected Mueller elements for Mueller fits - so it is zero exactly when the model reproduces the data. It evaluates the user's model with the current parameters and the measured wavelengths. Model data returned, shown or written for a parameter set are the model's with those parameters; displayed residuals are measurement minus model (Mueller matrices: model minus measurement); the parameter boxes show and set the current values, and the undo, redo, reset and fit buttons act on the current parameters.",
["inputs","configurations"],"every measured data set, model and parameter set",
"Fit notebooks check only that one fit converges.",
["fitting/decorator_psi_delta.py","fitting/decorator_mmatrix.py","fitting/decorator.py"],[("FitRho.fit_function / residuals","fitting/decorator_psi_delta.py"),("FitMuellerMatrix","fitting/decorator_mmatrix.py")])
p("C28","Importers return the numbers in the measurement file",
"Reading a SpectraRay, Woollam (WVASE or CompleteEASE), Accurion or NeXus file with one entry per angle and wavelength returns a table with exactly the file's psi and delta (or Mueller matrix) values at their angle and wavelength, in degrees and nanometres: sorted by angle and wavelength with delta moved to [-180, 180) by multiples of 360 for SpectraRay and Accurion, in file order and unchanged for Woollam and NeXus; the functions reading rho return tan(psi)*exp(-i*delta) of these. SpectraRay material tables and NeXus material files become the dispersion functions, tables and isotropic, uniaxial or biaxial materials they describe. Other data types and incomplete files raise an error.",
["inputs"],"every well-formed file of the supported formats",
"Tests read one file per format and compare shapes.",
["importer/spectraray.py","importer/woollam.py","importer/accurion.py","importer/nexus.py","dispersions/table_spectraray.py"],
[("read_* functions","importer/"),("TableSpectraRay.load_dispersion_table","dispersions/table_spectraray.py")])
p("C29","Numerical results stay finite and accurate in double precision",
"For physically reasonable input (thick or strongly absorbing layers, many layers, near-degenerate eigenvalues) the solvers' floating-point results differ from the exact value of their formulas only by rounding errors and never become NaN.",
["inputs"],"every physically reasonable structure",
"Tests use thin, weakly absorbing stacks.",
["solver4x4.py","solver2x2.py"],[("double-precision evaluation of the solvers","solver4x4.py")])
with open("/verif/properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+"\n")
print(len(P))
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for d in P: jsonschema.validate(d,s)
