"""writes /verif/properties.jsonl (kept as a script so that the texts stay reviewable)"""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)
    if state: a['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))

p('C01', 'Backscatter equals the first-order radiative-transfer closed form',
  "For every illumination and viewing geometry and every volume/surface phase function, the surface, volume and interaction contributions returned by the model equal the published first-order radiative-transfer expressions (attenuated surface with the bare-soil fraction and the surface scale factor, single-scattering volume, and both interaction paths with their exponential-integral kernels). The total is the sum of the contributions, the interaction part is present exactly when it has been requested, and a layer with optical depth zero contributes neither volume nor interaction backscatter. The contributions are linear in the incident intensity, and the volume and interaction contributions vanish for a bare-soil fraction of one.",
  ['inputs', 'configurations'],
  'all real incidence/exit zenith angles in (0, pi/2), all azimuths, all tau > 0 (and tau = 0), omega, I0, bsf, NormBRDF (scalars and arrays), all phase functions / BRDFs, interaction on or off',
  'The tests compare a handful of fixed numeric examples against stored values and one literature figure; agreement on those points says nothing about other geometries, parameters or phase functions.',
  ['rt1/rt1.py'],
  [('RT1.calc', 'rt1/rt1.py: calc'), ('RT1.surface', 'rt1/rt1.py: surface'), ('RT1.volume', 'rt1/rt1.py: volume'), ('RT1.interaction', 'rt1/rt1.py: interaction, _calc_Fint_1, _calc_Fint_2, _S2_mu')],
  ['the values returned by RT1.calc(), RT1.surface(), RT1.volume(), RT1.interaction()'])

p('C02', 'Fourier/Legendre coefficients reproduce the azimuthal interaction integral',
  "The expansion coefficients used for the interaction contribution represent the azimuth-integrated product of the volume- and surface-expansions exactly: summing coefficient times the respective cosine power reproduces the integral over the intermediate azimuth for every intermediate zenith angle and every geometry. In particular the average of any monomial in sine and cosine of the azimuth, and the average of every cosine power, equals its exact closed-form value. The coefficients are the same for scalar and array inputs and for both supported numerical back ends.",
  ['inputs', 'configurations'],
  'all angles, all orders of the expansions, all combinations of volume and surface phase functions and of fixed/variable/mono geometry',
  'The tests compare the coefficients with hand-derived expressions for three combinations at one or two angles.',
  ['rt1/rt1.py'],
  [('RT1._integrate_0_2pi_phis', 'rt1/rt1.py'), ('RT1._cosintegral', 'rt1/rt1.py'), ('RT1._extract_coefficients', 'rt1/rt1.py'), ('RT1._fn / _fnevals', 'rt1/rt1.py')],
  ['RT1.fn_input-free evaluation of the interaction-coefficients (fn and the callable used for evaluation)'])

p('C03', 'Slopes and curvatures are the true angular derivatives of the model',
  "In monostatic geometry the reported slope and curvature of the surface, the volume and the total backscatter are the first and second derivative of the respective reported backscatter with respect to the incidence angle. This holds in each of the four unit modes (intensity or sigma-0, linear or dB), where the quantity that is differentiated is the backscatter expressed in that unit. It holds for every phase function, including scale factors, optical depth and bare-soil fraction. The phase functions themselves report their first and second derivative with respect to the exit angle also for bistatic geometries, and reject geometries that do not fit the angles.",
  ['inputs', 'configurations'],
  'all incidence angles in (0, pi/2), all parameter values, all twice differentiable phase functions, all unit modes',
  'The tests contain no check of slopes or curvatures against a derivative at all beyond shape; a finite sample could not exclude errors in terms that vanish for the sampled phase function.',
  ['rt1/rt1.py', 'rt1/surface.py', 'rt1/volume.py'],
  [('RT1.surface_slope/curv', 'rt1/rt1.py'), ('RT1.volume_slope/curv', 'rt1/rt1.py'), ('RT1.tot_slope/curv', 'rt1/rt1.py'), ('brdf_theta_diff / p_theta_diff', 'rt1/surface.py, rt1/volume.py')],
  ['RT1.surface_slope/volume_slope/tot_slope and the curvature functions; brdf_theta_diff, p_theta_diff'])

p('C04', 'Model jacobian entries are the true parameter derivatives',
  "Each entry of the jacobian of the model equals the partial derivative of the surface-plus-volume backscatter with respect to the requested parameter: single-scattering albedo, optical depth, surface scale factor, bare-soil fraction or any named parameter of the phase functions. The entries come in the requested order and in the requested units (intensity or sigma-0, linear or dB). A request for a parameter the model does not have is rejected instead of being answered with a wrong number.",
  ['inputs', 'configurations'],
  'all angles and geometries, all parameter values, all differentiable phase functions and parameters, all unit modes, any parameter list',
  'Tests only exercise the jacobian through fits on a few datasets, which converge to similar optima even with a wrong gradient.',
  ['rt1/rt1.py'],
  [('RT1.jacobian', 'rt1/rt1.py'), ('RT1._dvolume_dtau ... _d_surface_ddummy', 'rt1/rt1.py'), ('RT1._diff_lambda', 'rt1/rt1.py')],
  ['RT1.jacobian(dB, sig0, param_list)'])

p('C05', 'Phase functions evaluate to their definition and expand into Legendre series',
  "Every provided volume- and surface-scattering function evaluates numerically to its documented formula in the generalised scattering angle, for scalar and array angles alike, and to the same value as its symbolic form. The Legendre coefficients it reports are those of that formula for every order, so that the Legendre series built from them is the truncated expansion of the function. Linear combinations evaluate to the weighted sum of their components, and so do their expansions.",
  ['inputs', 'configurations'],
  'all angles, all parameter values (asymmetry parameters in (-1,1), scattering-angle coefficients), all expansion orders, all linear combinations',
  'Tests check a few angles and a few coefficients of a few functions.',
  ['rt1/surface.py', 'rt1/volume.py', 'rt1/scatter.py'],
  [('Scatter.scat_angle', 'rt1/scatter.py'), ('Surface.brdf / Volume.p', 'rt1/surface.py, rt1/volume.py'), ('legexpansion / legcoefs', 'rt1/surface.py, rt1/volume.py'), ('LinCombSRF, LinCombV', 'rt1/surface.py, rt1/volume.py')],
  ['brdf(), p(), legexpansion(), legcoefs, theta_diff of the objects'])

p('C06', 'Geometry settings only restrict which angles vary, never the result',
  "In monostatic geometry the exit angle always equals the incidence angle and the exit azimuth is the incidence azimuth plus pi, also after the incidence angle has been changed. Treating an angle as fixed gives exactly the same backscatter as treating it as variable with that value, for each of the sixteen fixed/variable combinations. Angles that are declared fixed must be unique, and inconsistent or unknown geometry declarations are rejected.",
  ['inputs', 'configurations', 'histories'],
  'all angle values, all geometry declarations, all changes of angles after construction that keep fixed angles unchanged',
  'Tests only use three declarations with a few angles, and never compare declarations with each other.',
  ['rt1/rt1.py'],
  [('RT1 angle setters (t_0, t_ex, p_0, p_ex)', 'rt1/rt1.py'), ('RT1._fnevals, _calc_Fint_2', 'rt1/rt1.py'), ('Scatter.scat_angle', 'rt1/scatter.py')],
  ['RT1.t_0/t_ex/p_0/p_ex, RT1.calc() per geometry'])

p('C07', 'Unit conversions between dB/linear and intensity/sigma-0 are exact inverses',
  "Converting a value between intensity and sigma-0 and between linear and dB units multiplies linear values by 4*pi*cos(incidence angle) (respectively its inverse) and applies 10*log10, in every combination of source and target representation. Converting there and back returns the original value, and converting to the same representation is the identity. Fit results are converted with the same rules, so that model results, datasets and jacobians agree in the representation selected for the fit.",
  ['inputs', 'configurations'],
  'all positive values, all incidence angles in [0, pi/2), all sixteen source/target combinations, scalars and arrays',
  'The conversion is only tested indirectly through two fit configurations.',
  ['rt1/general_functions.py', 'rt1/rtfits.py'],
  [('dBsig0convert', 'rt1/general_functions.py'), ('Fits._calc_model', 'rt1/rtfits.py'), ('Fits._calc_slope_curv', 'rt1/rtfits.py')],
  ['dBsig0convert(), Fits.calc()'])

p('C08', 'Sequence helpers neither lose, duplicate nor reorder data',
  "Grouping, splitting, pairing, chunking and padding of sequences never lose, duplicate or invent elements: grouping by a key keeps every item exactly once and in order of appearance within its group (with sorted keys on request), splitting yields consecutive pieces whose concatenation is the input, pairing yields exactly the consecutive pairs, and chunking covers the input with pieces of the requested size. Padding to a rectangle (of the longest row or of a requested width) keeps every value in place, marks exactly the padded entries in the returned mask and pads only with the last value of the respective row. Searching for the next free numbers never returns an excluded one, and rescaling maps the smallest and largest value exactly to the requested limits.",
  ['inputs'],
  'all finite sequences of all lengths (also empty and single-element ones), all keys, all chunk sizes, all limits',
  'Only two of these helpers have a direct test, each with one short literal list.',
  ['rt1/general_functions.py', 'rt1/rtresults.py'],
  [('groupby_unsorted, split_into, pairwise, rectangularize, find_missing, scale, rt1 chunking', 'rt1/general_functions.py, rt1/rtresults.py')],
  ['return values of the helper functions'])

p('C09', 'Every observation is assigned to exactly one value of each fit-parameter',
  "For every parameter that is fitted, each observation of the dataset is assigned to exactly one of the parameter's values, the assignment follows the requested variability (constant, calendar frequency, number of observations per value, an explicit list, or a combination with a manually provided grouping), and the groups of observations partition the dataset. Distributing the values of a parameter to the observations puts each value at exactly the observations of its group, in the shape of the data. The number of start values, of bounds and of fitted values of a parameter equals the number of its groups.",
  ['inputs', 'configurations'],
  'all datasets (any length, repeated timestamps, gaps), all variability declarations of all parameters and their combinations',
  'The fit tests use a few combinations on two datasets and look only at the final fit.',
  ['rt1/rtfits.py'],
  [('Fits.param_dyn_dict', 'rt1/rtfits.py'), ('Fits.param_dyn_df', 'rt1/rtfits.py'), ('Fits._groupindex, _idx_assigns, _param_assigns', 'rt1/rtfits.py'), ('Fits._assignvals', 'rt1/rtfits.py'), ('Fits._startvaldict, _boundsvaldict', 'rt1/rtfits.py')],
  ['param_dyn_dict, param_dyn_df, the result data frame'])

p('C10', 'The fit minimises weighted model-minus-data residuals with their true jacobian',
  "The residual vector handed to the optimiser contains, for every observation exactly once and for nothing else, data weight times (model minus observed value), where the model uses the current values of the fitted parameters, the fixed values and the unit mode of the fit. The jacobian handed to the optimiser is arranged consistently with the residual and parameter vectors, and equals the chain-rule combination of the model jacobian with the derivatives of user-defined relations for optical depth, albedo and surface scale factor, including the data weights. Start values, bounds and results are distributed to the parameters in one and the same order. Evaluating the model of a fit for given values (scalars, arrays or data frames matched by date) uses exactly these values together with the constants of the fit; recording intermediate results or printing the progress does not change the fit.",
  ['inputs', 'configurations'],
  'all datasets (irregular group sizes, weights), all parameter definitions incl. symbolic relations and shared symbols, all parameter values, all unit modes',
  'Tests only compare fitted values after convergence; wrong residual weights, ordering or gradient entries can still converge to within the tolerance.',
  ['rt1/rtfits.py'],
  [('Fits.performfit', 'rt1/rtfits.py'), ('Fits._calc_model', 'rt1/rtfits.py'), ('Fits._calc_jac, _jac_assign_rule', 'rt1/rtfits.py'), ('Fits._set_calc_values', 'rt1/rtfits.py')],
  ['the functions, start values and bounds handed to scipy.optimize.least_squares; res_dict'])

p('C11', 'Performance metrics follow their definitions for all series',
  "The performance metrics equal their textbook definitions for every pair of series: slope and intercept of the linear regression, RMSD, unbiased RMSD, bias, mean absolute error, mean absolute percentage error (relative to the first series), the ratio of the standard deviations and the Pearson and Spearman correlation. In particular the squared RMSD is the sum of the squared unbiased RMSD and the squared bias. Symmetric metrics do not depend on the order of the two series, and the metric objects of a fit apply them to exactly the requested pair of series aligned on common timestamps.",
  ['inputs'],
  'all pairs of finite real series of equal length >= 2',
  'Tests compare single numbers for one random dataset.',
  ['rt1/rtmetrics.py'],
  [('RTmetrics', 'rt1/rtmetrics.py'), ('_metric_keys, _RTmetrics1', 'rt1/rtmetrics.py')],
  ['RTmetrics functions, fit.metric'])

p('C12', 'Parameter definitions survive conversion between their list and object forms',
  "A parameter definition converted from its list form to its object form and back contains the same information, with the documented defaults for omitted trailing entries and nothing shared with the definition it was created from. The names of fitted, constant and externally supplied parameters, the start values, bounds, fixed values and interpolation settings derived from it are mutually consistent: every parameter is in exactly one class. Variables that are added or removed one by one give the same definitions. A change of one parameter's definition never affects another parameter.",
  ['inputs', 'configurations'],
  'all admissible parameter definitions (any number of parameters, any class, any omitted trailing entries)',
  'Tests only use a few fixed definitions.',
  ['rt1/_containers.py', 'rt1/rtfits.py', 'rt1/rtprocess.py'],
  [('_RT1_defdict, _RT1_variable', 'rt1/_containers.py'), ('Fits.defdict and derived dictionaries', 'rt1/rtfits.py')],
  ['Fits.defdict, to_dict, start values, bounds, fixed values'])

p('C13', 'IDs of fits are always valid identifiers and are assigned one-to-one',
  "Whatever ID is set for a fit, the stored ID is a valid identifier, an ID that already is a valid identifier is kept unchanged, and setting a stored ID again changes nothing. Setting the ID of a multi-configuration container gives every attached configuration the same ID. Adding a configuration under a name makes exactly that configuration available under the name, once, with the dataset, auxiliary data and reader arguments of the container, and changes no other configuration. A function called for the whole container reaches exactly the attached configurations with the given arguments.",
  ['inputs', 'histories'],
  'all strings and numbers used as ID, all sequences of adding configurations and setting IDs',
  'Tests use two literal IDs.',
  ['rt1/rtfits.py', 'rt1/general_functions.py'],
  [('Fits.ID', 'rt1/rtfits.py'), ('isidentifier', 'rt1/general_functions.py'), ('MultiFits.add_config, set_ID', 'rt1/rtfits.py')],
  ['Fits.ID, MultiFits.config_names'])

p('C14', 'Configuration files are read back as exactly the declared settings',
  "Every setting of a configuration file is returned with the type and value that its section declares: numbers, booleans, paths, lists, dictionaries, dates, parameter definitions and volume/surface definitions. In a file with multiple configurations each named configuration consists of the general sections overridden by exactly its own sections, without influence of any other configuration. Sections or names that are not allowed are rejected. Settings that are overridden for a processing run replace exactly the given settings, the last override counts.",
  ['inputs', 'configurations'],
  'all configuration files made of the documented sections with any number of named configurations',
  'The tests read two fixed files.',
  ['rt1/rtparse.py', 'rt1/rtprocess.py'],
  [('RT1_configparser', 'rt1/rtparse.py'), ('RTprocess.override_config, setup', 'rt1/rtprocess.py')],
  ['RT1_configparser.get_config, get_fit, get_process_specs'])

p('C15', 'Results never depend on values that have been replaced before',
  "After any sequence of changes to the inputs of a model (angles in variable geometry, albedo, optical depth, scale factor, bare-soil fraction, intensity, parameter values) interleaved with evaluations, an evaluation returns exactly what a newly created model with the current inputs returns. The same holds for a fit object after changes of its dataset, unit mode, parameter definitions and volume/surface definition, and copying, dumping or loading an object in between makes no difference. Evaluations themselves do not alter the inputs.",
  ['histories', 'inputs'],
  'all interleavings of setter calls and evaluations',
  'Tests create an object, evaluate it and throw it away; only histories of changes can reveal stale intermediate results.',
  ['rt1/rt1.py', 'rt1/rtfits.py'],
  [('RT1 properties and caches', 'rt1/rt1.py'), ('Fits.__setattr__, _clear_cache, _cached_props', 'rt1/rtfits.py'), ('MultiFits.set_dataset', 'rt1/rtfits.py')],
  ['RT1.calc()/jacobian() and Fits results after setter histories'],
  state=[('caches', 'intermediate results kept between evaluations', 'rt1/rt1.py, rt1/rtfits.py')])

p('C16', 'The HDF results store returns what was written',
  "Every fit result, static layer and metric written to the results store can be read back unchanged under its ID and key. Reading a number of IDs returns exactly these IDs with all their rows, in order and without duplicates, for every chunk size. A processing run stores for each feature exactly the fit of its own data with its own auxiliary data and reader arguments, and an export of the stored fits contains the requested parameters of each of them in the requested units. An interrupted processing run ends and can be continued without losing or duplicating IDs.",
  ['inputs', 'histories', 'crash_points'],
  'all sets of results, all read sizes, all interruptions',
  'Tests process a handful of fits into one file.',
  ['rt1/_rtprocess_writer.py', 'rt1/rtresults.py', 'rt1/rtprocess.py'],
  [('RT1_processor', 'rt1/_rtprocess_writer.py'), ('HDFaccessor', 'rt1/rtresults.py'), ('RTprocess._evalfunc, run_finaloutput, export_data_to_HDF', 'rt1/rtprocess.py')],
  ['HDFaccessor.select, get_nids, get_id'])

p('C17', 'Scattering objects can be re-created from their serialised definition',
  "The serialised definition of every volume- or surface-scattering object re-creates an object that evaluates identically for all angles, including asymmetry parameters, expansion orders, scattering-angle coefficients, albedo, optical depth and scale factor, and linear combinations with their weights. Creating objects from a definition that uses parameter names inserts exactly the values given for those names. Serialising the re-created object gives an equivalent definition again.",
  ['inputs', 'configurations'],
  'all provided scattering functions with all admissible numeric or symbolic arguments, also as components of linear combinations',
  'Tests re-create one or two objects and compare printed definitions.',
  ['rt1/volume.py', 'rt1/surface.py', 'rt1/rtfits.py'],
  [('init_dict of Volume / Surface classes', 'rt1/volume.py, rt1/surface.py'), ('Fits._init_V_SRF', 'rt1/rtfits.py')],
  ['init_dict, Fits._init_V_SRF result'])

p('C18', 'Time and progress helpers return exact values',
  "Splitting a duration into days, hours, minutes and seconds is exact and keeps each component in its range. The mean of a set of timestamps lies at the arithmetic mean of the times, and progress reports give the correct share of finished work. Interpolating values to a new index returns the given values at the given positions and keeps the number of requested positions.",
  ['inputs'],
  'all non-negative durations, all sets of timestamps, all progress states, all value/index pairs',
  'The tests do not cover these functions at all, or with one literal example.',
  ['rt1/general_functions.py'],
  [('dt_to_hms, update_progress, meandatetime, interpolate_to_index', 'rt1/general_functions.py')],
  ['return values of the functions'])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for q in P: f.write(json.dumps(q) + '\n')
