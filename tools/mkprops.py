import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,obs=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],hook_needed=None))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if obs: d['anchors']['observe_at']=obs
    P.append(d)

p('C01','Text data files round-trip',
 'Saving any data set as an ALTA text file and loading that file back yields a data set with the same input and output dimensions, the same declared parametrizations, and the same samples in the same order. Every input and output value comes back equal to at least 15 significant digits, however the saves and loads are chained.',
 ['inputs','histories'],'every data set (any dimensions, any parametrization with a registered name, any finite values, any number of rows including none) and every chain of save and load',
 'The tests convert one or two shipped files; magnitude, sign, subnormal, tiny/huge values, dimension mixes and repeated save/load chains are never varied.',
 ['sources/core/data_storage.cpp','sources/core/data.cpp','sources/core/args.h'],
 [('text writer','sources/core/data_storage.cpp: save_data_as_text'),('text reader','sources/core/data_storage.cpp: load_data_from_text'),('header reader','sources/core/args.h: parse_header')],
 obs=['data::save','plugins_manager::load_data','data::get'])
p('C02','Loading a text file keeps exactly the requested samples, in order',
 'Loading a text data file yields exactly the data rows whose every input lies in the closed range given by the min and max options and whose every output lies in the closed range given by ymin and ymax, in file order and with their values. Comment lines and blank lines contribute no sample, unspecified bounds exclude nothing, and the reported input range of the data set is the tightest box around the kept samples.',
 ['inputs','configurations'],'every sequence of rows, comments and blank lines, every dimension pair, and every combination of the four bounds (scalar or vector, present or absent)',
 'The existing tests never use the bounds and only check a row count; which rows survive depends on every combination of bound, dimension and position.',
 ['sources/core/data_storage.cpp','sources/core/args.h','sources/core/vertical_segment.cpp'],
 [('row filter','sources/core/data_storage.cpp: within_bounds, load_data_from_text'),('bounds parsing','sources/core/args.h: get_vec'),('range computation','sources/core/vertical_segment.cpp: data_min, data_max')],
 obs=['data::get','data::size','data::min','data::max'])
p('C03','Confidence intervals follow the file and the dt options',
 'Every sample loaded from text carries, for each output, the interval prescribed by the file\'s declared segment kind (none, symmetric or asymmetric columns; outputs without columns use the dt option, 0.1 by default) and by the mode option: absolute, relative to the value, or the larger of the two; with the positive option value and bounds are raised to at least zero. The interval a data set reports for a sample is the one it was loaded or built with, and for non-negative half-widths and values it contains the sample value.',
 ['inputs','configurations'],'every segment kind, number of outputs, value sign, half-width, and combination of dt, dt-relative, dt-max and dt-positive',
 'Tests only fit a curve with one or two option sets and never read an interval back.',
 ['sources/core/data_storage.cpp','sources/core/vertical_segment.cpp','sources/core/vertical_segment.h'],
 [('interval reader','sources/core/data_storage.cpp: read_confidence_interval'),('interval accessor','sources/core/vertical_segment.cpp: vertical_segment::get(int, vec&, vec&, vec&)')],
 obs=['vertical_segment::get','vertical_segment::matrix_view'])
p('C04','Binary data files round-trip bit for bit and truncated ones never load',
 'Saving any data set in the ALTA binary format and loading it back yields bit-identical samples, the same confidence-interval kind and bit-identical interval columns, and the same dimensions and parametrizations. A binary file cut anywhere before the end of its sample payload is reported as an error and never yields a data set, and so is one whose header declares another byte order, precision or format version, or more samples than the file holds.',
 ['inputs','crash_points','histories'],'every data set and interval kind, every chain of saves and loads, and every byte at which the written file may stop',
 'One unit test saves and reloads a single grid of points with tolerance; no test cuts a file or covers the interval kinds.',
 ['sources/core/data_storage.cpp','sources/core/plugins_manager.cpp','sources/core/args.h'],
 [('binary writer/reader','sources/core/data_storage.cpp: save_data_as_binary, load_data_from_binary'),('stream exceptions','sources/core/data_storage.cpp: in.exceptions(failbit)'),('format dispatch','sources/core/plugins_manager.cpp: load_data')],
 obs=['save_data_as_binary','load_data_from_binary','plugins_manager::load_data'])
p('C05','Sample storage keeps every sample independent under any edit history',
 'After any sequence of sample reads and writes on an in-memory data set, reading a sample returns exactly the values last written to it, no other sample has changed, and a write that gives only inputs and outputs leaves that sample\'s interval columns as they were. Reads, interval queries, copies handed out and saving never modify the data set.',
 ['histories','inputs'],'every history of reads and writes over every interval kind, dimensions and index',
 'Tests write each sample once in order; aliasing and stride errors only show under interleaved partial writes with other dimensions and interval kinds.',
 ['sources/core/vertical_segment.cpp','sources/core/vertical_segment.h','sources/core/data.h'],
 [('row view','sources/core/vertical_segment.h: matrix_view, data_view'),('writer','sources/core/vertical_segment.cpp: vertical_segment::set')],
 state=[('_data','row-major samples with interval columns','sources/core/vertical_segment.h')],
 obs=['vertical_segment::get','vertical_segment::set','vertical_segment::matrix_view'])
p('C06','Command lines are parsed by one fixed grammar',
 'For any argument list, every word starting with two dashes that is not part of an earlier bracketed value defines the option named by the rest of the word. Its value is the next word unless that word starts with a dash, and a value opening with a bracket runs to the first word that closes it; the first occurrence of an option wins. Typed readers (string, int, float, vector, pair, string list) return the parsed value when present and the caller\'s default when the option is absent, a vector component that is not given takes the default, and reading never changes the options.',
 ['inputs','histories'],'every sequence of words including bracketed lists split over words, repeated and valueless options, and every update history',
 'A Python test sets two options; the grammar has interacting cases (brackets across words, flags without values, duplicates) that no finite list samples.',
 ['sources/core/args.h'],
 [('tokenizer','sources/core/args.h: arguments(argc, argv)'),('typed readers','sources/core/args.h: get_string/get_int/get_float/get_vec/get_pair/get_vec<std::string>'),('update','sources/core/args.h: update')],
 obs=['arguments::is_defined','arguments::operator[]','arguments::get_*'])
p('C07','File headers and recorded commands are read back as written',
 'Reading a file header yields exactly the key/value pairs of its leading hash lines, comments and anything after the header are not taken as keys, and the reader is left at the first line after the header, so no data line is lost or re-read. Recreating options from a recorded command string gives the same options as the command line that was recorded, when no value outside brackets contains a blank.',
 ['inputs'],'every header/comment/body line sequence (with and without an end-of-header marker) and every option set',
 'The header reader is only exercised by well-formed files; the boundary between header and body depends on line sequences tests do not enumerate.',
 ['sources/core/args.h'],
 [('header reader','sources/core/args.h: parse_header'),('command record','sources/core/args.h: get_cmd, create_arguments')],
 obs=['arguments::parse_header','arguments::get_cmd','arguments::create_arguments'])
p('C08','Sums and products of functions obey one parameter layout',
 'A sum (product) of functions evaluates, at any input, to the per-output sum (product) of its parts evaluated at that input expressed in each part\'s own input parametrization. Its parameter vector, lower bounds, upper bounds and Jacobian columns are those of its non-fixed parts in order, so that after any history of parameter updates reading parameters returns what was written, each part receives its own slice, fixed parts never change, and the Jacobian is the derivative of the value with respect to that same vector.',
 ['histories','inputs','configurations'],'every nesting of sums and products, every mix of fixed and free parts, parameter counts and output dimensions, and every history of parameter updates',
 'Tests evaluate single functions; slicing errors need several parts with different parameter counts, several outputs and fixed parts at once.',
 ['sources/core/function.cpp','sources/core/function.h'],
 [('sum','sources/core/function.cpp: compound_function'),('product','sources/core/function.cpp: product_function'),('parametrization merge','sources/core/function.cpp: compound_parameters, product_parameters')],
 obs=['nonlinear_function::value','parameters','setParameters','parametersJacobian','getParametersMin/Max'])
p('C09','The function option builds exactly the described function',
 'Building a function from options yields the structure the option string describes: one plugin name gives that function, a bracketed list gives the sum of its members in order, a fresnel or product option multiplies, and each member\'s fixed flag makes its parameters constant. The same description given as options or recorded in a saved function file builds the same structure, and an unknown name yields no function instead of a partial one presented as complete.',
 ['configurations','inputs'],'every description in the option grammar (lists, nested arguments, products, fixed flags, unknown names)',
 'Tests build single functions; the grammar is recursive.',
 ['sources/core/plugins_manager.cpp','sources/core/args.h'],
 [('builder','sources/core/plugins_manager.cpp: get_function(arguments)'),('list parsing','sources/core/args.h: get_vec<std::string>, create_arguments')],
 obs=['plugins_manager::get_function','nbParameters','value'])
p('C10','Saved functions reload as the same function',
 'Saving any function (single, sum, product or rational, with any parameters) in the ALTA format and loading the file yields a function of the same structure, input and output parametrization and dimensions, with the same parameters or coefficients to the precision written, hence the same values. Parts of a sum keep their own parameters and order, and a file that does not contain a valid function never yields one.',
 ['inputs','configurations','crash_points'],'every function structure, parameter vector and parametrization, and every corruption or truncation of the header that declares the function',
 'Tests reload one fitted rational function; sums and products have per-part records read sequentially, where one wrong rewind silently shifts all later parts.',
 ['sources/core/function.cpp','sources/core/rational_function.cpp','sources/core/plugins_manager.cpp'],
 [('save','sources/core/function.cpp: function::save, save_header, save_body, save_call'),('load','sources/core/function.cpp: *::load; sources/core/plugins_manager.cpp: load_function'),('rational load','sources/core/rational_function.cpp: rational_function::load')],
 obs=['function::save','plugins_manager::load_function'])
p('C11','Rational functions use one canonical monomial basis',
 'For any input dimension, coefficient i of a rational function always multiplies the same monomial, distinct coefficients multiply distinct monomials, and monomials appear by non-decreasing total degree so that the first n coefficients always span every monomial of each completed degree. The order within a degree is the one saved files rely on: the last coordinate varies slowest. The value is numerator over denominator in that basis for each output, and any history of resizing and coefficient updates keeps the coefficients that were set and keeps outputs independent.',
 ['inputs','histories'],'every dimension, index, coefficient vector and history of resizes and updates',
 'Fits in the tests are one-dimensional, where the enumeration is trivial; multi-dimensional enumeration is unchecked.',
 ['sources/core/rational_function.cpp','sources/core/rational_function.h'],
 [('enumeration','sources/core/rational_function.cpp: rational_function_1d::index2degree'),('evaluation','sources/core/rational_function.cpp: p, q, value'),('coefficients','sources/core/rational_function.cpp: update, resize, getP/getQ')],
 obs=['index2degree','rational_function::value','rational_function_1d::getP/getQ'])
p('C12','A rational fit that is accepted passes through every interval',
 'When an interval-constrained rational fit reports success, the returned function has the domain of the data, lies inside the confidence interval of every sample for every output (up to solver round-off), has the number of coefficients within the requested bounds, and its denominator keeps one sign over the samples. The sequential fitter returns the first size in its search order that is feasible, the parallel one a feasible share of the first feasible total; when no size within the bounds is feasible the fit reports failure, and when one is it reports success. This holds for every scheduling mode, chunk size, growth factor, margin and number of starting points, and for data without intervals, whose intervals are a proportion of the value.',
 ['inputs','configurations'],'every small data set, interval width, size bound and scheduling option',
 'The tests only check that the tool exits normally on one shipped curve; they never evaluate the fitted function against the intervals.',
 ['sources/plugins/rational_fitters/quadprog.cpp','sources/plugins/rational_fitters/quadprog_parallel.cpp','sources/plugins/rational_fitters/quadratic_program.h','external/quadprog++/QuadProg++.cc'],
 [('size search','sources/plugins/rational_fitters/quadprog.cpp: fit_data'),('constraints','sources/plugins/rational_fitters/quadprog.cpp: get_constraint, fit_data'),('active set solver','external/quadprog++/QuadProg++.cc')],
 obs=['fitter::fit_data','data2brdf exit status and output file'])
p('C13','Constraint scheduling never changes feasibility of the quadratic program',
 'Whatever scheduling is used to feed constraints to the incremental quadratic solver, when it reports a solution every constraint is satisfied and the solution is the minimiser, and when the constraints are contradictory it reports that no solution exists. The number of constraints considered and the answer do not depend on the order in which constraints were added.',
 ['schedules','inputs'],'every constraint set, insertion order, scheduling strategy and chunk size',
 'Three command-line tests run one curve under each strategy and check only the exit status; termination rules of the sliding window depend on the satisfaction pattern of all windows.',
 ['sources/plugins/rational_fitters/quadratic_program.h','external/quadprog++/QuadProg++.cc'],
 [('strategies','sources/plugins/rational_fitters/quadratic_program.h: solve_program, test_constraints'),('solver','external/quadprog++/QuadProg++.cc')],
 obs=['quadratic_program::solve_program'])
p('C14','The parallel rational fit is independent of thread timing',
 'For given data and options the parallel rational fitter returns the same function and the same verdict for every number of threads and every interleaving of the workers, namely the candidate closest to the data among all the feasible candidates of the total it stopped at, and of equal ones the one with fewer denominator coefficients. No candidate size smaller than the returned one was feasible.',
 ['schedules','configurations'],'every interleaving of the candidate workers and every worker count',
 'The test suite runs it with two threads once and only looks at the exit status.',
 ['sources/plugins/rational_fitters/quadprog_parallel.cpp'],
 [('reduction','sources/plugins/rational_fitters/quadprog_parallel.cpp: fit_data, omp critical'),('candidate split','sources/plugins/rational_fitters/quadprog_parallel.cpp: fit_data')],
 obs=['rational_fitter_parallel::fit_data'])
p('C15','Nonlinear fits never leave the declared bounds or touch fixed parts',
 'A nonlinear fit that reports success leaves every free parameter within the bounds the function declares, leaves the parameters of fixed parts untouched, records the data\'s input range in the function, and its squared error on the data is no larger than that of the starting point. A fit reported as failed is visible to the caller as a failure.',
 ['inputs','configurations'],'every function structure with and without fixed parts, every data set and every nonlinear fitter',
 'Tests fit one function once and only check it runs.',
 ['sources/plugins/nonlinear_fitter_ceres/fitter.cpp','sources/plugins/nonlinear_fitter_eigen/fitter.cpp','sources/plugins/nonlinear_fitter_nlopt/fitter.cpp','sources/core/function.cpp'],
 [('bound checks','sources/plugins/nonlinear_fitter_*/fitter.cpp: Evaluate, operator(), nlopt_set_*_bounds'),('start point','sources/core/function.cpp: bootstrap')],
 obs=['fitter::fit_data','nonlinear_function::parameters'])
p('C16','Measured BRDF tables index every sample consistently',
 'For tabulated BRDF data sets, the sample number, the input configuration it reports and the storage cell it uses are in one-to-one correspondence: reading sample i gives back what was last written to sample i and to no other, and evaluating the data set at the configuration reported for sample i gives the value stored there. The range a table declares holds every configuration it reports, a new table holds no undefined samples, and this holds for every index of the table and every history of writes.',
 ['inputs','histories'],'every sample index of every table kind (MERL, UTIA, two- and three-dimensional slices of any size, regular grids of any size) and every history of writes',
 'The tests never load such tables; nested index arithmetic with wrap-around and flooring has boundary cases at every cell edge.',
 ['sources/plugins/data_io/merl.cpp','sources/plugins/data_io/utia.cpp','sources/plugins/data_io/slice.cpp','sources/plugins/data_interpolants/grid.cpp'],
 [('index maps','sources/plugins/data_io/merl.cpp: get/set/value/index helpers'),('grid indices','sources/plugins/data_interpolants/grid.cpp: get_index, get_indices')],
 obs=['data::get','data::set','data::value'])
p('C17','Measured BRDF files round-trip and incomplete ones are refused',
 'Saving a tabulated BRDF data set to its native format and loading it back gives the same samples and dimensions. A native file that is missing, carries wrong dimensions, or ends before its declared payload is refused with an error instead of yielding a data set with undefined samples.',
 ['inputs','crash_points'],'every stored table and every truncation point of the file',
 'No test reads or writes these formats.',
 ['sources/plugins/data_io/merl.cpp','sources/plugins/data_io/utia.cpp','sources/plugins/data_io/astm.cpp'],
 [('readers','sources/plugins/data_io/merl.cpp: read_brdf; utia.cpp: load; astm.cpp: load_data'),('writers','sources/plugins/data_io/merl.cpp: save; utia.cpp: save')],
 obs=['plugins_manager::load_data','data::save'])
p('C18','Plugins are found by one documented search order',
 'A plugin request is answered by the first library with the requested name, in the order of the directories of the plugin path variable and then the installation directory, that loads and provides the requested kind of object; unloadable or unsuitable candidates are skipped. When no directory provides it the request fails cleanly, and an empty request gives the built-in default object for that kind.',
 ['configurations'],'every list of directories and every assignment of good, broken, wrong-kind or missing libraries to them',
 'The tests run with a single plugin directory that contains everything.',
 ['sources/core/plugins_manager.cpp'],
 [('search path','sources/core/plugins_manager.cpp: plugin_search_path, open_library, load_library'),('defaults','sources/core/plugins_manager.cpp: get_function, load_data, get_data, get_fitter')],
 obs=['plugins_manager::get_*'])
p('C19','Conversion tools keep every sample and its values',
 'Converting a data set between file formats or parametrizations gives one output sample per input sample, in order, at the same geometric configuration and with the same output values, apart from samples reported as having no valid counterpart. Evaluating a function on a data set gives, at each input configuration in order, that function\'s value there, independent of the number of threads.',
 ['inputs','configurations','schedules'],'every data set, option combination, target parametrization and thread count',
 'The tests run each tool once on one file and look only at the exit status.',
 ['sources/softs/data2data/main.cpp','sources/softs/brdf2data/main.cpp','sources/softs/brdf2gnuplot/main.cpp','sources/python/alta.cpp'],
 [('conversion loops','sources/softs/data2data/main.cpp: convert_vertical_segment, convert_with_interpolation'),('evaluation loop','sources/softs/brdf2data/main.cpp')],
 obs=['output file of the tool'])
p('C20','Tools report failure and success truthfully',
 'A command-line tool exits with status zero only if the output it was asked for was produced and is complete, and exits with a non-zero status (never by a crash or hang) when a mandatory option is missing, an input cannot be read, a plugin cannot be found or a fit fails. A run refused because of its options, inputs, plugins or fit leaves an existing output file as it was, and no run changes any other file.',
 ['inputs','configurations','fault_sequences'],'every tool, every combination of missing or invalid inputs, options and plugins',
 'The tests check help output and a handful of successful runs.',
 ['sources/softs/data2data/main.cpp','sources/softs/data2brdf/main.cpp','sources/softs/brdf2data/main.cpp','sources/softs/brdf2brdf/main.cpp','sources/softs/brdf2gnuplot/main.cpp','sources/softs/data2stats/data2stats.cpp','sources/softs/data2moments/main.cpp'],
 [('argument checks','sources/softs/*/main.cpp'),('I/O error handling','sources/core/common.h: CATCH_FILE_IO_ERROR')],
 obs=['exit status','existence and contents of the output file'])
p('C21','Error metrics measure exactly the compared samples',
 'The distance metrics between two data sets are the sums, maxima and means over exactly the reference samples selected by the mask (all of them without a mask), each compared with the evaluated data set at that sample\'s configuration; they are zero when both agree and do not depend on masked-out samples. The mean divides by the number of samples compared. The statistics that the tools print and write, and the distances of a function to data, are those of the files they were given.',
 ['inputs','configurations'],'every pair of data sets, every mask and output dimension',
 'The tests only start the tool with its help option.',
 ['sources/core/metrics.cpp','sources/core/metrics.h','sources/softs/data2stats/data2stats.cpp','sources/softs/fit2stat/fit2stat.cpp','sources/core/function.cpp'],
 [('metric computation','sources/core/metrics.cpp: errors::compute, evaluate, checkMaskSize')],
 obs=['errors::compute','output of data2stats and brdf2stats','function::L2_distance','function::Linf_distance'])
p('C22','Changing input parametrization preserves the geometric configuration',
 'Converting a valid light/view configuration from one parametrization to another and back, along any chain of parametrizations that carry the full configuration, returns the same configuration, and parametrizations that carry less keep exactly the quantities they name. Every parametrization has one name, parsing its name gives it back, and its declared dimension is the number of values conversions read and write.',
 ['inputs','histories'],'every parametrization pair and chain, and every configuration of the upper hemisphere including grazing, normal and coplanar ones',
 'The unit tests check a handful of angles for two parametrizations.',
 ['sources/core/params.cpp','sources/core/params.h'],
 [('conversion','sources/core/params.cpp: params::convert, to_cartesian, from_cartesian'),('registry','sources/core/params.cpp: parse_input, get_name, dimension')],
 obs=['params::convert','params::parse_input','params::get_name','params::dimension'])
p('C23','The Python interface gives the library\'s own results',
 'Every operation offered by the Python module (options, vectors, data loading and saving, function construction, sums, products, parameters, evaluation, fitting and conversions) has the effect and result of the corresponding library operation on the same inputs. Errors the library reports as exceptions reach Python as exceptions rather than terminating the interpreter.',
 ['histories','inputs'],'every sequence of Python calls',
 'Three small scripts touch constructors and one evaluation.',
 ['sources/python/alta.cpp','sources/python/wrapper_args.h','sources/python/wrapper_vec.h','sources/python/wrapper_data.h'],
 [('bindings','sources/python/alta.cpp and wrapper_*.h')],
 obs=['Python module alta'])
p('C24','Data set equality means equal shape, parametrization and values',
 'Two data sets compare equal exactly when they have the same size, dimensions and parametrizations and every corresponding input and output value differs by no more than the tolerance, which defaults to a few units of double-precision round-off. Equality is reflexive on finite data, symmetric, and a single differing value in any position makes two data sets unequal.',
 ['inputs'],'every pair of data sets and every position and size of a difference',
 'Tests only assert equality of data sets that should be equal, never inequality.',
 ['sources/core/data.cpp','sources/core/data.h'],
 [('comparison','sources/core/data.cpp: data::equals')],
 obs=['data::equals'])
p('C25','Shipped reflectance models compute their formula and its derivative',
 'Every reflectance, Fresnel and shadowing model shipped as a plugin returns the parameters last set, evaluates at every configuration to the formula it documents with those parameters, and is zero outside its stated domain. The derivatives it reports are those of its value with respect to each parameter at every configuration, and changing a parameter of one output changes no other output. The bounds it declares have one entry per parameter, lower at most upper, and contain the parameters a fit starts from.',
 ['inputs','histories'],'every parameter vector, number of outputs and lobes, and light/view configuration',
 'The tests evaluate a few models at a few points and compare derivatives for Lafortune only; a wrong derivative still fits, only worse.',
 ['sources/plugins/nonlinear_function_*','sources/plugins/nonlinear_fresnel_*','sources/plugins/nonlinear_shadowing_*','sources/core/function.h'],
 [('models','sources/plugins/nonlinear_function_ward/function.cpp: value, parametersJacobian'),('Fresnel','sources/plugins/nonlinear_fresnel_schlick/function.cpp'),('shadowing','sources/plugins/nonlinear_shadowing_walter_smith/function.cpp')],
 obs=['nonlinear_function::value','nonlinear_function::parametersJacobian','nonlinear_function::getParametersMin'])
p('C26','Linear rational fitters find the best rational function of the size asked for',
 'Given data with an interval for every sample, the linear rational fitters return, for every output, a rational function with the number of numerator and denominator coefficients asked for and the data\'s domain. When the samples are the values of such a function and determine it, the returned function has those values at every sample (rational_fitter_eigen: any numerator and denominator; rational_fitter_leastsquare: constant denominators, and constant numerators). On any other data rational_fitter_eigen returns coefficients of least algebraic residual, and rational_fitter_leastsquare the numerator that is best in least squares for the denominator it returns. Data without such intervals and functions that are not rational are refused. This holds for every fit of a fitter that is used several times.',
 ['inputs','histories','configurations'],'every data set, number of outputs and inputs, size of numerator and denominator, and history of fits',
 'No unit test runs these fitters against known answers; one integration test checks only that a fit is produced.',
 ['sources/plugins/rational_fitters/eigen.cpp','sources/plugins/rational_fitters/leastsquare.cpp','sources/core/rational_function.cpp'],
 [('algebraic fit','sources/plugins/rational_fitters/eigen.cpp: fit_data'),('alternating fit','sources/plugins/rational_fitters/leastsquare.cpp: fit_data')],
 obs=['fitter::fit_data','rational_function::value'])
open(__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.abspath(__file__)), '..', 'properties.jsonl'), 'w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,s); assert len(x['title'])<=80,x['id']
print(len(P))
