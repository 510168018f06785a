"""Regenerates /verif/properties.jsonl."""
import json, os
P = []
def p(id, title, st, over, text, why, files, mech, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=st,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               observe_at=list(observe), hook_needed=None)))

p('C01', 'A constituent is the same wave everywhere it is named',
  'Every constituent has exactly one name: the name is spelled like its identifier, reads back (in any letter case) to that constituent, and occurs once in the list of known constituents; any other name is rejected with an error. '
  'A wave table built from all or from any selection of constituents holds, under each selected constituent, the wave of that very constituent, whichever way it is looked up (name, identifier, position, iteration), and nothing under the others. '
  'Listing, size and positional access of a table agree with each other.',
  ['inputs', 'configurations'],
  'all 75 constituents and every selection of them handed to a wave table',
  'The tests name some constituents and never compare the order of the known list with the identifiers the table is indexed by; a swapped or missing entry in one of the five parallel tables needs the right constituent to show.',
  ['src/library/constituent.cpp', 'include/fes/constituent.hpp', 'include/fes/detail/wave/name.hpp', 'src/library/wave/table.cpp', 'include/fes/wave/table.hpp'],
  [('constituents::name/parse/known', 'src/library/constituent.cpp'), ('Table::wave_factory and constructors', 'src/library/wave/table.cpp'), ('Table::operator[]/find/constituents', 'include/fes/wave/table.hpp')],
  ['Table::operator[]', 'Table::find', 'constituents::known'])

p('C02', 'Every constituent has its documented astronomical definition',
  'For every constituent, the wave carries the documented Doodson numbers, phase shift, coefficients of the nodal angles, nodal factor, tidal type (long or short period) and inference flag. '
  'The frequency is the sum of the speeds of the astronomical elements weighted by the Doodson numbers, and the printed Doodson number encodes those same numbers. '
  'The nodal phase of a compound constituent is the signed sum of the nodal phases of the constituents it is documented to be made of.',
  ['inputs'], 'all 75 constituents, for every value of the astronomical angles',
  'The wave tests evaluate the nodal corrections with every astronomical angle equal to one, so any change of the coefficients that keeps their sum, or exchanges two angles, passes.',
  ['include/fes/wave.hpp', 'src/library/wave.cpp', 'include/fes/detail/angle/astronomic/speed.hpp', 'include/fes/detail/angle/astronomic/frequency.hpp'],
  [('the constructor of each class of fes::wave', 'include/fes/wave.hpp'), ('Wave::frequency', 'include/fes/wave.hpp'), ('Wave::doodson_number', 'src/library/wave.cpp'), ('astronomic::speed/frequency', 'include/fes/detail/angle/astronomic')],
  ['Wave::freq', 'Wave::v', 'Wave::u', 'Wave::doodson_number'])

p('C03', "Nodal factors follow Schureman's formulae",
  "For every inclination of the lunar orbit and every lunar node, each nodal factor equals the formula of Schureman's manual it is documented with (73 to 79, 141, 149, 207, 215, 227, 234), and the factor of a compound is the product of the factors of its components.",
  ['inputs'], 'every value of the astronomical angles, for the 22 nodal factors',
  'The tests evaluate the factors at a few fixed angles with a tolerance, which cannot tell a formula from one that agrees there.',
  ['include/fes/angle/astronomic.hpp'], [('Astronomic::f_*', 'include/fes/angle/astronomic.hpp'), ('detail::math::pow', 'include/fes/detail/math.hpp')],
  ['Astronomic::f_*'])

p('C04', 'Astronomical angles follow the selected formulae at every date',
  'For every date, number of leap seconds and choice of formulae, the mean longitudes are the polynomials published for that choice, the angles are in radians in their normal range, and the lunar-node dependent quantities (inclination, xi, nu, nu prime, nu second, R, 1/Ra) are those of Schureman for the current date. '
  'Updating an object gives the same angles as building a new one: nothing of an earlier date remains, whatever was computed before, and a copy keeps the selected formulae.',
  ['inputs', 'histories'], 'every date, leap second count, formulae, and sequence of updates',
  'The tests compare a handful of dates; a wrong higher order term, a value left over from the previous date, or a wrong branch past 180 degrees needs another date or another order of calls.',
  ['include/fes/angle/astronomic.hpp', 'include/fes/detail/math.hpp'],
  [('Astronomic::update, schureman_order1, schureman_order3, meeus', 'include/fes/angle/astronomic.hpp'), ('horner, dms_to_degrees, normalize_angle', 'include/fes/detail/math.hpp')],
  ['Astronomic::n/s/h/p/p1/t/i/xi/nu/...'])

p('C05', 'Nodal corrections of a wave depend only on the current angles',
  'Computing the nodal corrections of a wave table updates every wave it holds: v, u and f become functions of the angles given and of the constituent alone, whatever was computed before; L2 and M13 carry their additional nodal term. '
  'The phase used for prediction is v plus u reduced modulo one turn, and the period is one turn divided by the frequency.',
  ['inputs', 'histories'], 'every table, every sequence of corrections, every value of the angles',
  'The tests compute corrections once per table at few dates, so a wave that is skipped or a term that accumulates from call to call is not seen.',
  ['include/fes/wave.hpp', 'include/fes/wave/table.hpp'],
  [('Wave::nodal_a, Wave::nodal_g, L2/M13 overrides, vu, period', 'include/fes/wave.hpp'), ('Table::compute_nodal_corrections', 'include/fes/wave/table.hpp')],
  ['Wave::vu', 'Wave::f', 'Wave::u'])

p('C06', 'Minor constituents are inferred by the documented admittance relations',
  'Inference by admittance sets each inferred constituent to the documented linear combination of the major diurnal (Q1, O1, K1) or semidiurnal (2N2, N2, M2, K2) constituents, for any complex values of these. '
  'A constituent that does not allow inference keeps its own value, and no other property of any wave changes.',
  ['inputs', 'configurations'], 'every complex value of the major constituents and every setting of the inference flags',
  'The table test checks the values for one set of major constituents; a coefficient multiplying a component that is zero or a flag that is not honoured for one constituent passes.',
  ['src/library/wave/table.cpp'], [('Table::admittance', 'src/library/wave/table.cpp')], ['Wave::tide'])

p('C07', 'The predicted tide is the sum of exactly the right contributions',
  'At every point and date the short-period tide is the sum, over all waves computed by the model or inferred by admittance, of the nodal factor times the real part of the constituent rotated by its phase, and the long-period tide collects in the same way the long-period ones, plus the equilibrium long-period tide for ocean tide models only. '
  'Where the model has no value both the short-period tide is undefined and the equilibrium tide alone is returned, and a radial (load) tide never receives the equilibrium tide. '
  'A long-period wave that the model provides is never also counted by the equilibrium tide, an excluded constituent never contributes its modelled value, and each step (angles, corrections, interpolation, inference, sum) uses the date and position of the element computed.',
  ['inputs', 'configurations', 'histories'], 'every model, position, date, list of excluded or additional constituents and tide type',
  'The tests evaluate a few points with full atlases; double counting or a wrongly skipped wave only shows for models with other constituents, outside their coverage, or for radial tides.',
  ['include/fes/tide.hpp', 'include/fes/abstract_tidal_model.hpp'],
  [('evaluate_tide, detail::evaluate_tide, build_wave_table', 'include/fes/tide.hpp')], ['evaluate_tide'])

p('C08', 'The equilibrium long-period tide matches its published expansion',
  'For every date and latitude the equilibrium long-period tide is the Cartwright-Tayler-Edden sum: each second-order line contributes its amplitude times the cosine, each third-order line its amplitude times the sine, of its own argument, weighted by the latitude polynomials and Love number factors. '
  'Removing the waves a model computes dynamically removes the lines of exactly those constituents (main and nodal lines with their Doodson numbers), whatever order and however many times removals and evaluations are made, and no other line.',
  ['inputs', 'configurations', 'histories'], 'every date, latitude and set of dynamic waves, in any order of calls',
  'One reference series is tested with few sets of dynamic waves; a row index off by one or a zeroed line that stays zeroed changes the result by millimetres and only for some sets.',
  ['src/library/wave/long_period_equilibrium.cpp', 'include/fes/wave/long_period_equilibrium.hpp'],
  [('LongPeriodEquilibrium constructor tables, disable_dynamic_wave, lpe_minus_n_waves', 'src/library/wave/long_period_equilibrium.cpp')], ['lpe_minus_n_waves'])

p('C09', 'Parallel evaluation processes every element exactly once',
  'For any number of elements, including zero, and any number of threads, every element is handed to exactly one worker, no worker receives an index out of range, and all workers have finished when the call returns. '
  'An exception raised by any worker reaches the caller, and passing it on involves no unsynchronised access.',
  ['schedules', 'inputs', 'fault_sequences'], 'all sizes, thread counts, interleavings and worker failures',
  'The tests run a few sizes with a few threads; the partition of odd sizes, an empty input and two workers failing together are not tried.',
  ['include/fes/detail/thread.hpp'], [('parallel_for', 'include/fes/detail/thread.hpp')], ['parallel_for'])

p('C10', 'Evaluations never modify or share what they must not',
  'Computing tides from a wave table or from a tidal model leaves the table, the model and everything reachable from them as they were, and two workers of a parallel evaluation never write to the same memory: each has its own wave table, equilibrium tide and interpolation cache and writes only its own elements of the results. '
  'Copying a wave table gives independent waves.',
  ['schedules', 'histories'], 'all interleavings of the workers and all sequences of operations on the caller\'s objects',
  'The tests compare results on fast runs where races rarely show and never look at the caller\'s table after a prediction.',
  ['include/fes/tide.hpp', 'src/library/wave/table.cpp', 'include/fes/wave/table.hpp', 'include/fes/tidal_model/lgp.hpp', 'include/fes/tidal_model/cartesian.hpp', 'include/fes/mesh/index.hpp'],
  [('workers of evaluate_tide, tide_from_mapping, LGP::calculate_selected_indices', 'include/fes/tide.hpp, src/library/wave/table.cpp, include/fes/tidal_model/lgp.hpp'), ('Table copy', 'include/fes/wave/table.hpp'), ('const interface of AbstractTidalModel', 'include/fes/abstract_tidal_model.hpp')],
  ['evaluate_tide', 'Table::tide_from_mapping'])

p('C11', 'Every element of a result is computed from its own input element',
  'Every array returned by an evaluation over arrays (tides, quality flags, tides from mapped constituents, nodal modulations, axis indices, interpolated values) has the shape of the inputs, every element of it is assigned, and element i is computed from element i of every input; no element depends on uninitialised memory or on another element.',
  ['inputs'], 'all sizes and shapes of the input arrays, including non-square and empty ones',
  'The tests use a few sizes, square or one-dimensional arrays, and fresh memory that often reads as zero.',
  ['include/fes/tide.hpp', 'src/library/wave/table.cpp', 'include/fes/abstract_tidal_model.hpp', 'src/python/core/axis.cpp'],
  [('result loops of evaluate_tide, tide_from_mapping, tide_from_tide_series, compute_nodal_modulations, AbstractTidalModel::interpolate', 'include/fes/tide.hpp, src/library/wave/table.cpp, include/fes/abstract_tidal_model.hpp')], [])

p('C12', 'Serialization restores every observable property of an object',
  'For every axis, grid, mesh and tidal model, the reader takes back exactly the sequence of fields the writer puts, with the same types and order, and every field that can influence a later operation is restored. '
  'An object rebuilt from its state therefore behaves like the original in every operation, including adding constituents and the list of dynamic constituents.',
  ['inputs', 'histories'], 'every object that can be built and every operation after its restoration',
  'The tests rebuild one object of each kind and compare a few accessors; a field that only matters when one continues to use the object is not compared.',
  ['include/fes/detail/serialize.hpp', 'src/library/axis.cpp', 'src/library/mesh/index.cpp', 'include/fes/tidal_model/cartesian.hpp', 'include/fes/tidal_model/lgp.hpp', 'include/fes/abstract_tidal_model.hpp'],
  [('getstate/setstate of Axis, mesh::Index, Cartesian, LGP', 'src/library/axis.cpp, src/library/mesh/index.cpp, include/fes/tidal_model'), ('serialize.hpp primitives', 'include/fes/detail/serialize.hpp')], ['getstate', 'setstate'])

p('C13', 'A damaged state is rejected, never half-loaded',
  'Restoring an object from a truncated or altered state either succeeds with an object that is internally consistent (array lengths agree with the grid or mesh, indices are in range, types and constituents are known) or throws an error; a truncated state is always refused; no length or index read from the state is used before it has been checked (no size computed from them overflows), and no memory outside the state is read.',
  ['inputs', 'fault_sequences'], 'every byte string given as a state',
  'One truncated string per class is tested; lengths that overflow, negative lengths and inconsistent sizes are not.',
  ['include/fes/detail/serialize.hpp', 'include/fes/detail/isviewstream.hpp', 'src/library/axis.cpp', 'src/library/mesh/index.cpp', 'include/fes/tidal_model/cartesian.hpp', 'include/fes/tidal_model/lgp.hpp'],
  [('read_matrix, read_vector, read_string, read_constituent_map', 'include/fes/detail/serialize.hpp'), ('isviewstream', 'include/fes/detail/isviewstream.hpp'), ('setstate of each class', 'include/fes/tidal_model, src/library')], ['setstate'])

p('C14', 'Inconsistent arguments are rejected before anything is computed',
  'Wherever an operation documents that arrays must have equal sizes, or that a value must lie in a range, the check happens before any element is read or any state is changed, covers every array, and raises an error. '
  'This holds for every public entry point: predictions, tables, models, meshes, axes and grids.',
  ['inputs'], 'every combination of argument sizes and values',
  'Each test breaks one argument of some functions; an argument that is not checked on another entry point is not covered.',
  ['include/fes/detail/broadcast.hpp', 'include/fes/tide.hpp', 'src/library/wave/table.cpp', 'include/fes/tidal_model/cartesian.hpp', 'include/fes/tidal_model/lgp.hpp', 'src/library/axis.cpp', 'src/library/mesh/index.cpp'],
  [('check_eigen_shape', 'include/fes/detail/broadcast.hpp'), ('checks of add_constituent, constructors', 'include/fes/tidal_model, src/library')], [])

p('C15', 'Axis lookup finds the grid cell containing a coordinate',
  'For every regular axis, ascending or descending, circular or not, the index found for a coordinate is that of the nearest node (or none when the coordinate is more than half a step away from every node), and the pair found is that of the two adjacent nodes whose interval contains it, wrapping between last and first on a circular axis, or nothing outside the axis. '
  'Bounds, increment, size and equality describe the points the axis was built from; points that are not evenly spaced or strictly monotonic are rejected.',
  ['inputs'], 'every axis and every coordinate',
  'The tests try a few axes and coordinates, mostly inside cells of ascending axes.',
  ['src/library/axis.cpp', 'include/fes/axis.hpp'],
  [('Axis::find_index, find_indices, normalize_coordinate, constructors, is_evenly_spaced', 'src/library/axis.cpp, include/fes/axis.hpp')], ['Axis::find_index', 'Axis::find_indices'])

p('C16', 'Gridded models interpolate bilinearly between the four enclosing nodes',
  'For every point inside a grid, stored in either memory order, the interpolated constituent is the bilinear combination of the values of that constituent at the four nodes enclosing the point, undefined nodes being left out with the weights renormalised, and the quality is the number of usable nodes. '
  'A point outside the grid, or none of whose usable nodes has any weight, gives an undefined value flagged as undefined.',
  ['inputs', 'configurations'], 'every grid, memory order, position and pattern of undefined nodes',
  'The tests use small grids in which rows, columns and weights are partly symmetric and nodes mostly defined.',
  ['include/fes/detail/grid.hpp', 'include/fes/detail/math.hpp', 'include/fes/tidal_model/cartesian.hpp'],
  [('Cartesian::interpolate', 'include/fes/tidal_model/cartesian.hpp'), ('detail::Grid indexing', 'include/fes/detail/grid.hpp'), ('bilinear_weights, bilinear_interpolation', 'include/fes/detail/math.hpp')], ['Cartesian::interpolate'])

p('C17', 'Finite element models evaluate the Lagrange basis of the right triangle',
  'For every point inside a triangle, the first and second order elements return the sum of the nodal values, looked up by the codes of that triangle, weighted by the Lagrange basis, which is a partition of unity and is one at its own node and zero at the others. '
  'When the mesh search answers with a projection of the point, the value is that at the projection; on a vertex it is the value of the node of that vertex, flagged as given by one point; without any triangle it is undefined and flagged so.',
  ['inputs', 'configurations'], 'every mesh, every position and every element order',
  'The tests use the nodes of one mesh and second-order elements mainly; extrapolation to a particular vertex of a first-order element is not exercised.',
  ['include/fes/tidal_model/lgp.hpp', 'src/library/mesh/index.cpp', 'include/fes/mesh/index.hpp'],
  [('LGP<T,N>::interpolate, LGP1/LGP2 beta', 'include/fes/tidal_model/lgp.hpp'), ('mesh::Index::search/nearest', 'src/library/mesh/index.cpp')], ['LGP1/LGP2::interpolate'])

p('C18', 'Geometry primitives are consistent on the sphere',
  'A point converts to the WGS84 Earth-centred coordinates of its longitude and latitude, and longitudes reduce into one turn starting where asked. '
  'The coordinates (x, y) of a point in the reference triangle reproduce the point from the vertices as (1-x-y) V1 + x V2 + y V3, whatever the turns the longitudes are given on, also across the antimeridian, and are zero for a flat triangle. '
  'Vertices are returned in the order given, can be replaced one by one, which keeps the outline closed, and a point equal to a vertex is recognised as that vertex.',
  ['inputs'], 'every point and triangle, on either side of the antimeridian',
  'The tests use few triangles away from the date line and interior points.',
  ['src/library/geometry/triangle.cpp', 'include/fes/geometry/triangle.hpp', 'include/fes/geometry/point.hpp', 'include/fes/geometry/ecef.hpp', 'include/fes/detail/geometry/algorithm.hpp'],
  [('Triangle::is_inside, covered_by, reference coordinates, vertex_idx', 'src/library/geometry/triangle.cpp, include/fes/geometry/triangle.hpp'), ('EarthCenteredEarthFixed', 'include/fes/geometry/ecef.hpp')], [])

p('C19', 'Caches never change a result',
  'An evaluation that reuses an accelerator gives the result of an evaluation with a new one: cached angles are reused only for dates within the configured tolerance of the date they were computed for, the cached triangle is reused only when it contained the earlier point and contains the new one, and results of an earlier point never show up for a later one.',
  ['histories', 'inputs'], 'every sequence of dates and positions evaluated with one accelerator',
  'The tests evaluate regular series; returning to an earlier place, or a point just outside the cached cell after one inside, is not tried.',
  ['include/fes/abstract_tidal_model.hpp', 'include/fes/tidal_model/cartesian.hpp', 'include/fes/tidal_model/lgp.hpp'],
  [('Accelerator::calculate_angle, clear/emplace_back', 'include/fes/abstract_tidal_model.hpp'), ('CartesianAccelerator, LGPAccelerator', 'include/fes/tidal_model')], ['AbstractTidalModel::interpolate', 'evaluate_tide'])

p('C20', 'The Python bindings pass every argument through to the library',
  'Every function of the extension module forwards each of its Python arguments to the parameter of the library function it names, with the documented default, and returns the library result unchanged; every constituent, formulae, quality and tide type of the library is exported under its own name with its own value. '
  'Long computations that release the interpreter lock touch no Python object meanwhile.',
  ['inputs', 'programs'], 'every call from Python, with every combination of optional arguments',
  'The extension module is not built in the reliable test set here, and optional arguments left at their default hide a dropped argument.',
  ['src/python/core'], [('pybind11 definitions', 'src/python/core/*.cpp, src/python/core/tidal_model/*.cpp, src/python/core/wave/*.cpp')], [])

p('C21', 'The Python layer selects what the configuration and arguments say',
  'Loading a configuration yields the model class, element order, tide type, grid orientation, units and options written in it, and rejects unknown or inconsistent settings; two grids or meshes are taken as identical only if all their properties agree. '
  'The Python wave tables forward every argument, the chosen formulae included, and order the waves like the table.',
  ['configurations', 'inputs'], 'every configuration file and every argument of the Python classes',
  'The Python tests need the compiled module and atlases that are not in the reliable test set; a wrong branch needs a configuration that is not in the examples.',
  ['src/python/pyfes/config.py', 'src/python/pyfes/wave_table.py', 'src/python/pyfes/astronomic_angle.py', 'src/python/pyfes/__init__.py'],
  [('Cartesian.load, LGP.load, load_config, GridProperties', 'src/python/pyfes/config.py'), ('WaveTable, WaveDict', 'src/python/pyfes/wave_table.py')], [])

p('C22', 'Leap seconds are looked up for the date asked for',
  'For every date the number of leap seconds returned is the one in force at that date according to the bundled table: the last entry at or before the date, and dates before the first entry are handled as documented; an expired table is used when no newer one can be fetched; conversion of dates between Python, NumPy and seconds since 1970 is exact to the unit for every calendar date and NumPy resolution.',
  ['inputs'], 'every date in every resolution',
  'The tests try a few dates, mostly far from the changes of the table and after 1970.',
  ['src/python/pyfes/leap_seconds.py', 'include/fes/python/datemanip.hpp', 'include/fes/python/datetime64.hpp', 'src/python/core/datemanip.cpp'],
  [('get_leap_seconds', 'src/python/pyfes/leap_seconds.py'), ('datemanip, datetime64', 'include/fes/python')], [])

p('C23', 'Harmonic analysis and series prediction use consistent conventions',
  'Prediction from a series of dates sums f*(re cos(vu)+im sin(vu)) over exactly the waves of the table in table order, prediction from a map gives that term for every point (row) and wave (column), and the nodal modulations of row i and column j are those of wave i at date j. '
  'Harmonic analysis solves the least squares problem for that same model, so analysis and prediction use one sign convention, and gives undefined values when an observation is undefined. '
  'The waves selected for an analysis are those whose period is less than the given factor times the duration.',
  ['inputs', 'configurations'], 'every table, series and duration',
  'The tests analyse one series; a sign or order convention that is wrong in both the analysis and the test data cancels.',
  ['src/library/wave/table.cpp', 'include/fes/wave/table.hpp'],
  [('Table::harmonic_analysis, tide_from_tide_series, tide_from_mapping, compute_nodal_modulations, select_waves_for_analysis', 'src/library/wave/table.cpp')], [])

p('C24', 'Every model object is released exactly once and none is leaked',
  'Objects handed out by the library as owning pointers (accelerators, waves, index structures) are owned by exactly one owner on every path, including those on which an exception is thrown, and borrowed pointers are never deleted or kept beyond the object they belong to.',
  ['histories', 'fault_sequences'], 'every path of every function, exceptional ones included',
  'A leak or double release on an error path does not fail a test that checks values.',
  ['include/fes/abstract_tidal_model.hpp', 'include/fes/tide.hpp', 'include/fes/tidal_model/cartesian.hpp', 'include/fes/tidal_model/lgp.hpp', 'src/library/wave/table.cpp'],
  [('accelerator() and its callers', 'include/fes/tide.hpp'), ('Table::wave_factory', 'src/library/wave/table.cpp')], [])

p('C25', 'Predictions reproduce the reference FES implementation numerically',
  'For the published atlases, predicted tides agree with those of the reference implementation to better than a tenth of a millimetre at every sea point and date of the validity period.',
  ['inputs'], 'every sea point and date',
  'The tests compare a few points; the atlases are not in the repository.',
  ['include/fes/tide.hpp', 'src/library/wave/table.cpp'], [('evaluate_tide', 'include/fes/tide.hpp')], [])

p('C26', 'Spatial search returns the true nearest mesh element',
  'For every mesh, the search considers the triangles of the eleven vertices nearest to the point in Earth-centred coordinates: it returns the first of them that contains the point, with the point itself, flagged as inside. '
  'Otherwise, when the nearest vertex is nearer than the permitted distance (distances below a centimetre counting as zero), it returns the triangle of them at the smallest distance, with the projection of the point on it; otherwise no triangle.',
  ['inputs'], 'every mesh and position', 'The tests use one mesh.',
  ['src/library/mesh/index.cpp'], [('mesh::Index::nearest/search over a Boost R-tree', 'src/library/mesh/index.cpp')], [])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + '\n')
print(len(P))
