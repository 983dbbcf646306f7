"""Regenerates /verif/properties.jsonl (the property list, kept as code so that
the entries stay uniform)."""
import json, os
P = []


def p(id, title, statement, over, qtext, why, files, mech, observe=None,
      state=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files,
                          mechanism=[dict(name=a, where=b) for a, b in mech]))
    if state:
        d['anchors']['state'] = [dict(name=a, meaning=b, where=c)
                                 for a, b, c in state]
    if observe:
        d['anchors']['observe_at'] = observe
    d['anchors']['hook_needed'] = None
    P.append(d)


M, U, T, K = ('empymod/model.py', 'empymod/utils.py', 'empymod/transform.py',
              'empymod/kernel.py')

p('C01', 'Equivalent layered-model descriptions give the same field',
  'A layered model means the same however it is written down: interfaces listed top-down or bottom-up together with their layer parameters (a resistivity dictionary with extra per-layer parameters included), with or without the enclosing plus/minus infinity, with default parameters omitted or given explicitly as ones, and with a missing vertical permittivity or permeability standing for the horizontal one. Every modelling routine returns the same field for all descriptions of one model.',
  ['inputs', 'configurations'],
  'all layered models and all sequences of meaning-preserving rewrites of their description, for every modelling routine that takes a layered model',
  'The tests compare a handful of hand-picked pairs of descriptions of two or three models; the combinations (order x infinities x which parameters are given x dictionary form) are never enumerated.',
  [U, M], [('check_model: ordering, infinities, defaults, swap of every layer parameter', U)],
  ['return values of dipole, bipole, loop, dipole_k, analytical'])

p('C02', 'Malformed input is rejected with an error, well-formed input is accepted',
  'A call with a non-monotonic depth list, a layer parameter, source, receiver or angle of the wrong size, a source or receiver with the wrong number of elements, a finite-length bipole of zero length, an unknown field configuration, signal, transform name or analytical solution raises an error instead of returning numbers. A call satisfying the documented size and value rules is accepted.',
  ['inputs'],
  'all combinations of input sizes and kinds within the documented grammar of each argument, for each modelling routine',
  'The tests trigger single errors on otherwise fixed inputs, by calling the check functions directly; they cannot establish that no malformed combination slips through to a number.',
  [U, M], [('check_model, check_dipole, check_bipole, check_ab, check_time_only, check_solution, check_hankel, check_time', U)],
  ['exception or return value of the modelling routines'])

p('C03', 'Minimum values: explicit state machine, clipping exactly below the minimum',
  'Setting minima changes exactly the ones given and leaves the others, and reading them returns the values last set. Every later computation behaves as if each frequency, time, offset or (horizontal or vertical) resistivity below its current minimum were exactly that minimum, values at or above are untouched, and a warning is issued if and only if something was replaced and warnings are enabled.',
  ['histories', 'inputs'],
  'all histories of set/read/compute operations over the five minima, with values below, at and above each minimum',
  'The tests set and read one value each and restore the state; order, partial updates, and the effect on later computations are not exercised as histories.',
  [U], [('set_minimum/get_minimum and _check_min', U)],
  ['get_minimum(), fields and printed warnings'],
  [('_min_freq, _min_time, _min_off, _min_res, _min_angle', 'current minima', U)])

p('C04', 'Layer membership is half-open and splitting a layer changes nothing',
  'A source or receiver located exactly on an interface belongs to the layer above it (the side of smaller depth), anywhere else to the layer containing it. Cutting a homogeneous layer by an additional interface, at any depth and with source and receiver anywhere relative to it, does not change the computed field.',
  ['inputs', 'configurations'],
  'all numbers of layers, all source/receiver layer combinations (including on interfaces and in the outermost layers), all positions of the extra interface, all 36 field components',
  'The tests use a few fixed depths; wrong recursion indices in one particular source-layer/receiver-layer/number-of-layers combination are not sampled.',
  [U, K], [('get_layer_nr', U), ('greenfct, reflections, fields: per-layer recursions', K)],
  ['fields returned by dipole/bipole'])

p('C05', 'A multi source/receiver call equals the assembly of single calls',
  'The result of one call with several sources and receivers holds, for every source, receiver and frequency or time, exactly the value of the call with only that source, that receiver and that frequency or time, whatever mixture of equal and different depths, coordinates and angles is used. The output has the axes (frequency/time, receiver, source), and squeezing only removes axes of length one.',
  ['inputs', 'configurations'],
  'all numbers and patterns (shared or distinct depth, scalar or per-element coordinates and angles, dipole or finite length) of sources and receivers, for bipole, dipole, loop and analytical',
  'The tests compare a few multi-calls with a few single ones; the slot bookkeeping has four loop cases times integration points that are not enumerated.',
  [M, U], [('bipole: loops over source/receiver depths and slot assignment', M), ('get_off_ang, get_azm_dip', U)],
  ['shape and entries of the returned array'])

p('C06', 'Arbitrary orientation is the direction-cosine combination of components',
  'The field for an arbitrarily oriented source and receiver equals the sum of the nine principal-component fields weighted with the direction cosines given by azimuth (anticlockwise from x) and dip (positive towards increasing depth), for electric and magnetic sources and receivers. Reversing a direction changes the sign of the field, and multiples of 360 degrees change nothing.',
  ['inputs'],
  'all azimuth/dip angles of source and receiver, in particular all multiples of 90 degrees and arrays mixing them, all four electric/magnetic pairings',
  'Component elimination depends on the exact angle pattern; the tests sample only a few angle pairs.',
  [U, M], [('get_abs: selection of the needed components', U), ('get_geo_fact: direction cosines', U)],
  ['field returned by bipole vs fields returned by dipole'])

p('C07', 'Finite-length bipoles are the Gauss-Legendre average of point dipoles',
  'A finite-length source or receiver gives the Gauss-Legendre weighted average, with the requested number of integration points (fewer than three meaning the midpoint), of point dipoles along it, oriented from the first to the second end point. With a non-zero source strength the result is that average times strength, source length and receiver length (a point dipole counts as length one), so it is linear in strength and changes sign when the end points of one bipole are swapped.',
  ['inputs', 'configurations'],
  'all bipole geometries (any direction), point/finite pairings, numbers of integration points, strengths of either sign',
  'The tests check a few horizontal or dipping bipoles with positive strength; signs, zero strength, and point/finite pairings are not enumerated.',
  [U, M], [('get_azm_dip: points, weights, lengths', U), ('bipole: integration loops and scaling', M)],
  ['field returned by bipole'])

p('C08', 'Source/receiver types b, j and loop scale with the local medium parameter',
  'A magnetic-flux receiver returns the magnetic field times the magnetic impedivity of the layer the receiver is in, a current-density receiver the electric field times the electric admittivity of the layer the receiver is in, and a flux source the magnetic-source field times the impedivity of the layer of the source, frequency by frequency. The loop routine is identical to the bipole routine with such a source and a single source point.',
  ['inputs', 'configurations'],
  'all receiver/source types, all layers (also when the elements or integration points of one call lie in different layers), all frequencies, real and Laplace domain',
  'The tests compare one or two configurations; the dependence on the layer of each element and integration point is not sampled.',
  [M, U], [('bipole: eta/zeta factors of the local layer', M), ('check_bipole: type flags', U), ('loop', M)],
  ['field returned by bipole and loop'])

p('C09', 'Source-receiver reciprocity holds for every field component',
  'Exchanging source and receiver relates every component to its transposed one in any layered model: electric-electric and magnetic-magnetic responses are equal, electric-magnetic ones equal up to sign. The vertical electric-magnetic pairs are identically zero.',
  ['inputs', 'configurations'],
  'all 36 components, all layered anisotropic models, all source/receiver layers, any offset',
  'The tests check reciprocity for isolated components; reciprocity over all layer combinations needs a model-based enumeration.',
  [U, M, K], [('check_ab: reciprocity mapping', U), ('greenfct: reciprocity switches', K), ('fem: zero components', M)],
  ['fields returned by dipole'])

p('C10', 'The field respects the symmetries of a layered earth',
  'Shifting the whole experiment horizontally or vertically changes nothing; rotating it about the vertical axis rotates the horizontal components; mirroring it in a vertical or horizontal plane (which also turns a positive-down into a positive-up coordinate system) changes each component only by the sign its parity dictates. This holds for every component and any position of source and receiver.',
  ['inputs', 'configurations'],
  'the group generated by translations, quarter-turn and arbitrary rotations, and mirrors, acting on all experiments and all 36 components',
  'The tests have one left-/right-handed comparison; the symmetry group is not exercised over layer structures and components.',
  [K, M, U], [('angle_factor', K), ('check_model: depth order', U), ('fullspace, greenfct', K)],
  ['fields returned by dipole'])

p('C11', 'Execution options change cost, never results',
  'Loop choice (frequencies, offsets, vectorised), verbosity, keyword or positional passing and compiled or interpreted kernels do not change the returned values. Neither does computing many offsets, times or frequencies in one call rather than one by one when the standard (non-interpolating) transform is used.',
  ['configurations', 'inputs'],
  'all combinations of loop, verbosity, transform option and sizes, in frequency, Laplace and time domain',
  'The tests compare one or two option pairs on fixed inputs.',
  [M, T, U], [('fem: loop over frequencies/offsets', M), ('check_loop', U), ('dlf', T)],
  ['returned values; printed text is not compared'])

p('C12', 'The direct field is additive: total = direct + secondary',
  'For source and receiver in one layer the total field is the sum of the analytical full-space field of that layer and the secondary field; for source and receiver in different layers the three direct-field options give the same result. In a homogeneous full-space (a stack of identical layers included) the analytical and the wavenumber-domain direct field agree and the secondary field vanishes.',
  ['inputs', 'configurations'],
  'all components, layers, anisotropic models and transforms under the three direct-field options',
  'The tests check some options in a few models; the option x component x layer product is not covered.',
  [M, K, U], [('fem: xdirect and full-space handling', M), ('greenfct: direct field', K), ('fullspace', K)],
  ['fields returned by dipole/bipole/analytical'])

p('C13', 'The wavenumber kernel solves the layered-earth boundary-value problem',
  'For any layer stack, the wavenumber-domain response equals the exact solution of the up/down-going wave problem: waves satisfy the interface continuity conditions, decay away from the source and carry the source discontinuity, for transverse magnetic and transverse electric modes. This holds for every number of layers, every source and receiver layer, and every component.',
  ['inputs', 'configurations'],
  'all stacks up to the enumerated number of layers with rational (exactly evaluable) layer data, all source/receiver layers and depths, all components',
  'The tests compare with stored numbers of a few models; those cannot show correctness for the other index combinations of the recursions.',
  [K, M], [('reflections, fields, greenfct, wavenumber', K), ('dipole_k', M)],
  ['kernel.wavenumber / greenfct / reflections / fields and dipole_k return values'])

p('C14', 'Transform options: case-insensitive, defaulted, unknown ones reported',
  'Every Hankel and Fourier transform option given by the user is honoured, every option not given takes its documented default, option names that the method does not know cause a warning (when warnings are enabled) and never a change of the result, and transform names are case-insensitive. Filters may be given by name or as filter instance with the same effect, and the dictionaries passed in are not modified.',
  ['inputs', 'configurations'],
  'all subsets of options for every Hankel and Fourier method, including unknown options and options of other methods',
  'The tests check selected options one at a time; interactions (e.g. signal forcing the filter kind) are sampled.',
  [U], [('check_hankel, check_time', U)],
  ['effective settings returned by the checks, fields, warnings'])

p('C15', 'Digital filtering evaluates every requested point with the right coefficients',
  'The digital-linear-filter transform of a tabulated kernel equals the filter-weighted sum for every output point, for any number and order of output points. The points computed for the lagged-convolution and the splined variant cover the whole range needed by all requested outputs, and both variants reproduce the standard variant wherever their sampling coincides with it.',
  ['inputs', 'configurations'],
  'all filters, all point sets (any order, single points, duplicates), all variants and kinds, kernels with any of the three parts missing',
  'The tests use a few fixed offsets and two filters; coverage of the range for every set of points and filter spacing is not decidable by sampling.',
  [T], [('get_dlf_points, dlf', T)],
  ['transform.dlf, transform.get_dlf_points'])

p('C16', 'Adaptive transforms never claim convergence they did not reach',
  'If any of the integrals of a quadrature or quadrature-with-extrapolation transform misses its requested tolerance within the permitted number of intervals or subdivisions, the call reports it (flag and, unless silenced, a warning), whichever part or offset it was. If all of them converge, nothing is reported and the result agrees with the other transforms within the tolerances.',
  ['inputs', 'histories'],
  'all sequences of interval contributions (converging, stalling, diverging), all parts (real/imaginary, J0/J1), all offsets and times',
  'The tests provoke one non-convergence; which of the many integrals fails, and when, is not varied.',
  [T, U], [('qwe, quad, hankel_qwe, hankel_quad, fourier_qwe', T), ('conv_warning', U)],
  ['convergence flag and warnings'])

p('C17', 'Time-domain signals are consistent with each other and with the static field',
  'Switch-on plus switch-off response equals the static (zero-frequency) field at every time, both derivatives equal plus/minus the impulse response, and every time-domain response is causal, linear in the field and independent of which other times are requested in the accuracy of the chosen transform. All Fourier methods agree with each other and with the analytical solutions within that accuracy.',
  ['inputs', 'configurations'],
  'all signals, Fourier methods, filter kinds and times within the range the method supports',
  'The tests compare stored numbers or single analytical values per method.',
  [M, T, U], [('tem: scaling with the signal', M), ('fourier_dlf/qwe/fftlog/fft', T), ('check_time: kind selection', U)],
  ['fields returned with signal = -1, 0, 1'])

p('C18', 'An arbitrary waveform is the superposition of its segments',
  'The response to a piecewise-linear current waveform is the sum over its segments of minus the slope (the convention in which a switched-off current gives plus the response) times the integral of the response to the chosen inner signal over the part of the segment that precedes the evaluation time; segments in the future and segments of constant current contribute nothing. Hence the response is additive in the waveform, invariant under splitting a segment at an intermediate node and under shifting nodes and times together, and evaluation times are independent of each other.',
  ['inputs', 'histories'],
  'all piecewise-linear waveforms (any number, position and order of ramps, constants and zero segments) and all evaluation times before, inside, between and after segments',
  'The tests compare three published waveforms; the case analysis segment x time position x quadrature is not enumerated.',
  [U, M], [('check_waveform, apply_waveform', U), ('tem', M)],
  ['utils.check_waveform, fields returned with a waveform signal'])

p('C19', 'Calls are pure: inputs untouched, results independent of history and threads',
  'A modelling call never modifies the objects passed to it (arrays, lists, dictionaries, filter instances), and its result depends only on its arguments and on the minimum values in force, not on what was computed before, how often, or concurrently in other threads. Repeating a call gives bit-identical results.',
  ['histories', 'schedules'],
  'all interleavings of modelling calls with different options, in one or several threads',
  'Tests run each call once in a fixed order and rarely compare inputs afterwards.',
  [M, U, T, 'empymod/filters.py'], [('deep copies of htarg/ftarg/res, local state only', U), ('_check_var copies', U)],
  ['arguments after the call, repeated results'])

p('C20', 'Filter collections: every listed filter loads, is cached, and stays intact',
  'Every filter a collection lists can be obtained by its name, has equally long base and coefficient arrays, strictly increasing logarithmically even base with the stated spacing factor, and a name matching its key; asking again returns the same data regardless of the order of requests and of other filters loaded in between. Unknown names raise an attribute error, and deprecated names keep delivering their filter.',
  ['histories', 'inputs'],
  'all histories of accesses to the filters of the two collections, and all filters',
  'The tests check coefficient sums of listed filters once in a fixed order.',
  ['empymod/filters.py'], [('lazy loading and caching of filters', 'empymod/filters.py')],
  ['empymod.filters.Hankel(), empymod.filters.Fourier()'],
  [('cached filter instances', 'filters already loaded', 'empymod/filters.py')])

p('C21', 'Saved data are read back exactly, whatever the format and shape',
  'Data saved and loaded again come back with the same values, the same real or complex type and the same three-dimensional shape, for both text and JSON formats, and saving again over an existing file replaces it completely. An unknown format or data that are not three-dimensional are rejected before anything is written.',
  ['inputs', 'histories'],
  'all shapes, real/complex, magnitudes (huge, tiny, negative, zero, signed zero), formats and sequences of save/load on a set of files',
  'The tests round-trip two small arrays.',
  ['empymod/io.py'], [('save_data, load_data', 'empymod/io.py')],
  ['files and the loaded arrays'], [('files on disk', 'what was last saved', 'empymod/io.py')])

p('C22', 'Saved input dictionaries reproduce the same computation',
  'An input dictionary saved and loaded again yields the same parameters (arrays as lists, filters as their names, complex numbers as pairs of real and imaginary parts, nothing lost or reordered), and using it gives the same result as the original. Any combination of scalars, lists, nested lists, arrays, booleans, None, strings and nested dictionaries is accepted, an empty dictionary included.',
  ['inputs', 'histories'],
  'all nested input dictionaries over the value kinds the modelling routines accept',
  'The tests round-trip one dictionary.',
  ['empymod/io.py'], [('save_input, load_input, JSON encoder', 'empymod/io.py')],
  ['the loaded dictionary'])

p('C23', 'Digital filters survive storing and loading',
  'A filter written to disk and read back has identical base, factor and coefficients for exactly the coefficient sets it had, whatever its name, length, path form and file-compression choice; stored inversion output comes back with it. Loading does not alter other filters. (Where nothing else was stored under that name before; names given to the save and load functions of the filter design contain a dot only to request compression.)',
  ['inputs', 'histories'],
  'all filters, coefficient-set combinations, name and path forms and save/load orders',
  'The tests store one filter once.',
  ['empymod/filters.py', 'empymod/scripts/fdesign.py'], [('DigitalFilter.tofile/fromfile', 'empymod/filters.py'), ('save_filter, load_filter', 'empymod/scripts/fdesign.py')],
  ['files and loaded filters'])

p('C24', 'The command line computes exactly what the Python functions compute',
  'For every routine and input file the command line writes or prints the same numbers as calling the routine from Python with the content of that file, with the full three-dimensional shape. An erroneous call (missing file, malformed input, unknown parameter or routine) ends with a non-zero exit status and leaves no output file and any existing output file untouched; incomplete calls only print information.',
  ['inputs', 'fault_sequences'],
  'all routines, argument combinations, input contents, output formats and error causes',
  'The tests run four successful and a few failing command lines.',
  ['empymod/__main__.py', 'empymod/io.py'], [('main, run', 'empymod/__main__.py')],
  ['exit status, output files, standard output'])

p('C25', 'Amplitude and phase of a result obey their definitions for any array',
  'For any complex result, amplitude times the phase factor reproduces the data, lead phase is minus the lag phase, degrees are radians times 180 over pi, and unwrapping changes the phase by multiples of one turn only so that neighbours differ by at most half a turn. The data themselves are not changed, and slicing or arithmetic keeps these abilities.',
  ['inputs', 'histories'],
  'all complex arrays of any shape (scalars, empty, multi-dimensional, special values) and all option combinations and call orders',
  'The tests check a four-element array.',
  [U], [('EMArray.amp/pha', U)],
  ['EMArray methods'])

p('C26', 'Unknown keyword arguments are refused, irrelevant known ones only warned about',
  'Every modelling routine accepts its documented keywords, prints a warning (when warnings are enabled) and ignores a keyword that only another routine knows, and raises a type error for a keyword no routine knows. Ignored keywords never influence the result.',
  ['inputs', 'configurations'],
  'all routines x all sets of known, foreign and unknown keywords x verbosity',
  'The tests try two keyword combinations on one routine.',
  [U, M], [('get_kwargs', U)],
  ['exception, warning and return value of every routine'])

p('C27', 'TM/TE separation is complete and consistent with the total field',
  'The up- and down-going TM and TE contributions and direct parts add up to the field of the ordinary dipole computation for the supported configuration, in any layer, and each contribution separately is invariant under a vertical shift of the whole experiment. Unsupported configurations (different layers, several frequencies, full-space) are rejected.',
  ['inputs', 'configurations'],
  'all layer stacks, all layers for the source-receiver pair, isotropic and anisotropic, any offset and azimuth',
  'The tests check the sum for a few layers of one model; individual terms are never checked.',
  ['empymod/scripts/tmtemod.py'], [('dipole, greenfct, fields', 'empymod/scripts/tmtemod.py')],
  ['tmtemod.dipole return values'])

p('C28', 'Filter design returns the best filter of the searched grid and is repeatable',
  'The designed filter has the requested length and a base given by the chosen spacing and shift, the chosen pair minimises the stated criterion over the whole requested grid, and the filter reproduces its transform pair where the criterion says so. The design does not modify its arguments, so designing again gives the same filter, and each supplied theoretical transform pair satisfies its transform relation.',
  ['inputs', 'configurations'],
  'all grids, criteria (amplitude or range), real/imaginary, transform pairs and filter lengths in the enumerated set',
  'The tests run a single design and compare with stored numbers.',
  ['empymod/scripts/fdesign.py'], [('design, _get_min_val, _calculate_filter, transform pairs', 'empymod/scripts/fdesign.py')],
  ['fdesign.design return values'])

p('C29', 'In-phase/quadrature and GPR helpers follow their definition',
  'In-phase and quadrature are the real and imaginary part of scale times the secondary over the primary field, the primary being the co-planar full-space field of the first layer for the source direction. The ground-penetrating-radar routine equals the inverse Fourier transform of the wavelet-weighted field, with gain multiplied only if one is given; both reject the configurations they do not implement.',
  ['inputs', 'configurations'],
  'all magnetic components, layer parameter forms, scales, offsets; all gains, receivers and times',
  'The tests check single configurations.',
  [M], [('ip_and_q', M), ('gpr', M)],
  ['return values of ip_and_q and gpr'])

p('C30', 'Analytical solutions agree with the layered computation and with their parts',
  'The analytical full-space solution equals the layered computation in a homogeneous model for every component; the analytical half-space solution equals the layered computation of the diffusive half-space below an insulating air layer; and the split solutions (direct/reflected/air-wave and TE/TM parts) add up to the total half-space solution, in frequency, Laplace and time domain. Solution, signal and component combinations that do not exist are rejected.',
  ['inputs', 'configurations'],
  'all components, anisotropies, positions, frequencies, Laplace values and times of the supported solutions',
  'The tests compare stored numbers for some components.',
  [M, K, U], [('fullspace, halfspace', K), ('analytical', M), ('check_solution', U)],
  ['return values of analytical'])

p('C31', 'User hooks replace exactly what they return and see the documented values',
  'A user function for the electric or magnetic medium parameters is called with the model dictionary and the computed parameters, and the field is the one of the returned parameters, layer for layer in the order the computation uses; returning the unchanged values changes nothing. A user frequency-filter function is applied to the frequency-domain field exactly once, before any transform to time.',
  ['inputs', 'configurations'],
  'all layer orders and sizes, electric and magnetic hooks alone or together, extra per-layer parameters, frequency and time domain, dipole, bipole, analytical',
  'The tests use one induced-polarisation model in given layer order.',
  [M, U], [('func_eta/func_zeta and bandpass calls', M), ('check_model: dictionary handling', U)],
  ['arguments seen by the hook and the returned field'])

p('C32', 'Frequency sign selects Laplace domain; scaling laws of the diffusive field hold',
  'Frequencies are interpreted as Laplace values only if none is positive, and then the field is real and equals the analytic continuation of the frequency-domain field. The field obeys the dimensional scaling of the governing equations: scaling lengths, conductivities, permittivities and frequencies consistently scales every component by its known power.',
  ['inputs', 'configurations'],
  'all frequency vectors of either or mixed sign, all layered models, all 36 components, scaling factors',
  'The tests have a few Laplace values against stored numbers and no scaling law.',
  [U, K, M], [('check_frequency', U), ('fullspace, halfspace, greenfct', K)],
  ['fields returned by the modelling routines'])

p('C33', 'Low-level interfaces agree with the public modelling routines',
  'The wavenumber-domain routine, transformed with the filter weights, gives the frequency-domain field of the dipole routine for all components and several offsets; the single-step frequency and time routines, fed with checked input, give exactly what the public routines return.',
  ['inputs', 'configurations'],
  'all 36 components, layers, offsets (several at once; any wavenumber array shape for one offset), frequencies and signals',
  'The tests compare two electric components of dipole_k and single calls of the core routines.',
  [M, K], [('dipole_k, fem, tem', M)],
  ['return values of dipole_k, fem, tem'])

p('C34', 'Messages: silence, warnings exactly when warranted, true summaries',
  'A call with verbosity 0 prints nothing. From verbosity 1 on, each unusual circumstance (values below their minimum, unknown transform arguments, unused keywords, a missed tolerance of a quadrature, current density or flux wanted in a layer which is anisotropic in the parameter it is computed with) is reported, for one or any number of sources and receivers, and nothing is reported without reason. Verbosity 2 adds the run time and the true number of kernel calls, 3 a summary, 4 all values; what is reported are the values which are used, of every source and receiver.',
  ['inputs', 'configurations'],
  'all combinations of circumstances, layers of sources and receivers, loops, layer orders, verbosities and modelling routines of the bounded model',
  'The tests look for single messages of single functions.',
  [M, U], [('bipole, dipole: warnings, kernel counts, conv', M), ('printstartfinish, conv_warning, _check_min, _prnt_min_max_val, get_azm_dip', U)],
  ['standard output of a call'])

p('C35', 'Extreme values: always finite, nothing through walls, nothing from behind',
  'For models whose thicknesses, resistivities, frequencies and distances differ by many orders of magnitude the field is finite, in the frequency, Laplace, time and wavenumber domain. A receiver which is separated from the source by a layer of thousands of skin depths receives nothing, and layers behind such a layer, as well as its thickness, have no influence on the field.',
  ['inputs', 'configurations'],
  'all models of powers of ten of the bounded grid, any layer and side of layer for source and receiver, all components, Hankel methods and routines',
  'The tests use models of ordinary proportions.',
  [K, M], [('wavenumber, greenfct, reflections, fields, fullspace', K), ('dipole, bipole, dipole_k', M)],
  ['fields returned by the modelling routines'])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for d in P:
        f.write(json.dumps(d) + '\n')
print(len(P))
