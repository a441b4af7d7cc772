P = []
NA = {}
def prop(id, title, statement, over, text, why, files, mech, tech, note, **kw):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, tech=tech, note=note, **kw))

T = 'crates/aether_time/src/time/'
prop('T01', 'UTC seconds and civil calendar dates convert exactly both ways',
 'A UTC instant converts to the proleptic-Gregorian date and time of day that a calendar counted day by day from 1970-01-01 gives, with the nanoseconds unchanged. Converting that civil date back yields the same instant. This holds before 1970, before year 0, and in years far from the epoch.',
 ['inputs'], 'every day of a span of thousands of years, every second of chosen days, and full 400-year cycles at the far ends of the i32 year range',
 'Tests check a handful of dates after 1970; leap-year, negative-instant and era boundaries need every day.',
 [T+'schedule.rs'], [('civil-from-days and days-from-civil', T+'schedule.rs')],
 'exhaustive enumeration of calendar states on the real code against a day-counting model',
 'All days of years -2400..4800 (quick) or -12000..20000 (thorough), each at three times of day; complete within those bounds.')
prop('T02', 'Instant and duration arithmetic is exact with canonical nanoseconds',
 'Adding, subtracting and comparing instants and durations gives exactly the result of integer nanosecond arithmetic, with the nanosecond part always in [0, 1e9). Every duration constructor (seconds, milliseconds, microseconds, nanoseconds) and normalisation yields exactly the stated length, also for negative values.',
 ['inputs', 'histories'], 'all pairs of boundary values, all histories of additions and subtractions to a depth',
 'Tests use a few positive examples; carries and borrows fail only at particular sign and nanosecond combinations.',
 [T+'duration.rs', T+'time.rs'], [('normalize and the operators', T+'duration.rs')],
 'bounded exhaustive exploration of operation histories on the real code against an i128 nanosecond model',
 'Pairs over 187+ boundary values, words of length 5 (quick) / 6 over 12 operations. Assumes |sec| <= 2^61.')
prop('T03', 'Time-scale conversions stay exact, also while leap seconds are updated',
 'Converting between UTC, TAI, GPS and Unix time applies exactly the leap-second count (TAI-UTC = 10 + leap seconds) and the fixed 19 s and GPS-epoch offsets, so round trips return the same instant. A conversion that runs while another party changes the leap-second count gives the result for one single count that was current during the call; conversions that do not involve UTC are unaffected.',
 ['schedules', 'inputs'], 'every interleaving of one conversion with up to two leap-second updates; all leap counts and boundary instants',
 'Tests run conversions single-threaded with one leap count; torn reads of the shared count need a particular interleaving.',
 [T+'time.rs', T+'mission.rs'], [('shared leap second count', T+'time.rs')],
 'stateless model checking of the real conversions: all placements of updates at the instrumented atomic accesses',
 'One reader, at most two updates, every access point. The leap count is one atomic cell, so per-location sequential consistency covers weak orders.',
 hook='cfg(aether_mc) atomic wrapper reporting each access of the leap-second count')
prop('T04', 'Periodic timers fire exactly when the elapsed time crosses a period',
 'A periodic timer stepped by any sequence of non-negative time steps reports a firing on exactly those steps during which its total elapsed time reaches or passes a multiple of its period, and never drifts. Timers in a set behave as if each were alone, also when one is replaced.',
 ['histories'], 'all step words to a depth over steps chosen relative to the period, for many periods',
 'Tests step a timer a few times; lost remainders only show for particular step sequences.',
 [T+'mission.rs'], [('accumulator of the timer', T+'mission.rs')],
 'bounded exhaustive exploration of step histories on the real timers against an exact integer model',
 'All words of length 5 (quick) / 7 over 8 relative steps for 10 periods, plus long deterministic runs.')
prop('T05', 'Schedules fire once per due instant and always move to the next one',
 'A UTC schedule (once, interval, hourly, daily, yearly) checked at any non-decreasing sequence of instants fires on a check exactly when its due instant has been reached, and its next due instant is then the first matching one strictly after the check. A one-shot schedule or alarm fires at most once. This holds for instants before 1970 too.',
 ['histories', 'inputs'], 'all check histories to a depth for each pattern and start; all hourly phases and all yearly dates',
 'Tests check one or two fires after 1970; skipped or repeated periods need particular histories.',
 [T+'schedule.rs'], [('advance and next-occurrence computation', T+'schedule.rs')],
 'bounded exhaustive exploration of check histories on the real schedules against a calendar model',
 '16 patterns x 10 starts x all histories of length 4 (quick) / 6. 29 February is outside the domain of yearly dates.')
prop('T06', 'GPS week rollover resolves to the nearest week for every week and hint',
 'For every GPS instant the raw week is the week count modulo 1024 and the second of week is in [0, 604800). The full week is congruent to the raw week modulo 1024, never negative, and the one nearest to the reference week given, so an instant within 511 weeks of the reference resolves to its true week.',
 ['inputs'], 'all 1024 raw weeks with every reference week of several ranges; weeks before the GPS epoch',
 'Tests try a few weeks; rollover edges and weeks before the epoch need all of them.',
 [T+'gps.rs'], [('to_gps_week', T+'gps.rs')],
 'exhaustive enumeration of week x hint states on the real code against a nearest-congruent model',
 'All 1024 raw weeks x thousands of hints; weeks -2100..6200. A tie between two nearest weeks may resolve either way.')
prop('T07', 'Tick counters become exact time at any rate and across counter wrap',
 'The time a keeper derives from a free-running tick counter equals the elapsed ticks divided by the tick rate, truncated to the nanosecond, also when the 64-bit counter wraps. TAI, UTC and GPS readings are the mission start plus that time in the respective scale, and time never runs backwards as ticks advance.',
 ['inputs', 'histories'], 'all combinations of boundary rates, counter starts and offsets; all words of readings across the wrap',
 'Tests use one or two rates near zero; wrap-around and rounding need boundary combinations.',
 [T+'mission.rs'], [('tick to duration conversion', T+'mission.rs')],
 'exhaustive enumeration of boundary rates/offsets and reading histories on the real code against u128 arithmetic',
 'Within the listed boundary sets and words of length 6 (quick) / 7.')

C = 'crates/aether_core/src/'
prop('M01', 'Matrix and vector arithmetic is the exact linear algebra for every shape',
 'For every matrix and vector shape, products, sums, differences, negation, scaling, division, transpose, trace, identity, diagonal, outer and cross products, dot products, norms, normalisation, angles, indexing, iteration, casts and row/column views equal the textbook definition, exactly when the operands are integers so small that every intermediate is representable. A NaN operand makes exactly the elements of a product that depend on it NaN. By-value, by-reference, generic and blocked variants of an operation agree.',
 ['inputs'], 'shapes up to 257 with every block edge, every rank-one term of every product, all 2x2 pairs and 3-vector pairs over a value set',
 'Tests multiply a few small matrices; block remainders and single swapped terms show only at particular shapes and entries.',
 [C+'math/matrix.rs', C+'math/vector.rs', C+'math/algorithms.rs'], [('blocked product', C+'math/algorithms.rs')],
 'exhaustive enumeration of product terms and operand words on the real code against integer arithmetic',
 'Complete per shape in the rank-one terms (products are bilinear); values beyond small integers are not enumerated. Like A01-A03, M02, M03 and M05 explored in two builds: std with SIMD, and no_std without.')
prop('M02', 'Every SIMD kernel computes what the scalar operation computes',
 'Each x86 SIMD kernel (matrix-vector with 4 or 6 columns, matrix-matrix of any shape, 4-element dot product; f64 and f32; with and without fused multiply-add) and each entry point that dispatches to one returns the scalar result: exactly for small integers and within rounding of the sum of absolute products otherwise; a NaN shows in exactly the elements that depend on it. This holds for every number of rows and every remainder of columns.',
 ['inputs'], 'every kernel, 1..12 and up to 65 rows, every remainder lane up to 33 columns, up to 131 columns, every single product term; all 5^8 dot operand words',
 'Tests compare a few kernels at one or two shapes; remainder lanes and single lanes need every shape and position.',
 [C+'math/arch/x86/matrix_simd.rs', C+'math/arch/x86/vector_simd.rs', C+'math/matrix.rs', C+'math/vector.rs'], [('kernels', C+'math/arch/x86/matrix_simd.rs')],
 'exhaustive enumeration of lanes, terms and operand words on the real kernels against integer arithmetic',
 'Runs on x86-64 with AVX and FMA; M08 explores the other processors.')
prop('M03', 'Linear solvers and inverses solve, and refuse singular or indefinite input',
 'For every non-singular well-scaled matrix, LU decomposition reproduces the row-permuted matrix with the right permutation and sign, solve and solve_multi satisfy A x = b, the inverses multiply to the identity and the determinant is exact up to rounding. Residuals stay at rounding level also for badly graded matrices, because rows are exchanged. Singular matrices are refused (or have a pivot at rounding level), and Cholesky factors exactly the positive definite matrices.',
 ['inputs'], 'all 2x2 over -9..9, all 3x3 and 4x4 over value sets, every row order of 5x5/6x6 families, graded matrices, full matrices up to 64x64 with the rows in every shifted order',
 'Tests solve a few systems; pivot orders, zero pivots and sign errors need all permutations.',
 [C+'numerical_methods/solvers/lu.rs', C+'numerical_methods/solvers/spd.rs', C+'math/matrix.rs'], [('partial pivoting', C+'numerical_methods/solvers/lu.rs')],
 'exhaustive enumeration of matrices over value sets and of row orders, on the real code against exact integer determinants and residuals',
 'Complete over the listed sets. Positive definite means all leading minors positive, decided exactly.')
prop('M04', 'Serialised matrices round trip, and bad input is refused without leaks',
 'A matrix or vector encoded with serde (as nested row arrays) or bincode (elements in row order) decodes to the same bits. Any truncated, too short, too long or element-wise failing input is an error, never a value or a panic; then every element decoded before the fault is dropped exactly once, and no element is dropped that was never created.',
 ['inputs', 'fault_sequences'], 'every single fault: each element failing, each row short or long, each missing or extra row, every byte truncation, for many shapes and owned/borrowed decoding',
 'Tests round trip one matrix; partially initialised values and drops need a fault at every point.',
 [C+'math/matrix.rs', C+'math/vector.rs'], [('partially initialised decode', C+'math/matrix.rs')],
 'fault enumeration: every decode is cut or failed at every element and byte, with a census of live elements',
 'Single faults; 20 shapes with drop-counting elements, 12 matrix and 8 vector shapes for value round trips, five element types in documents, streams and small buffers.')
prop('M05', 'Tensor cells and views address every element exactly once, row-major',
 'In every rank-3 and rank-4 tensor, indexing, the flat slice and dynamic-rank views agree on one row-major cell per index; a write through any of them changes that cell only, is seen through all of them, and out-of-range tensor indices are refused.',
 ['inputs'], 'every cell of 108 shapes, every write path; views of all ranks up to 5 with axes up to 3, of long axes and of ranks up to 12',
 'Tests read a few cells of one shape; swapped strides show only on non-cubic shapes.',
 [C+'math/tensor.rs'], [('flat view of nested arrays', C+'math/tensor.rs')],
 'exhaustive enumeration of cells and write paths on the real code against row-major numbering',
 'Complete over the listed shapes.')
prop('M06', 'The build without the standard library computes what the standard one does',
 'Every function, constant and conversion of the real-number trait, in the build with the standard library and in the default one without it, agrees with the standard library: exactly for rounding, sign, minimum, maximum and square root, within a few units in the last place for the others, with the same infinities, NaNs and signs of powers, for f32 and f64. Attitude conversions, linear algebra, solvers and tensors in the build without it satisfy their own properties there too.',
 ['inputs'], 'every sign and exponent with a set of mantissas, points over [-500, 500], all pairs of special values; the spaces of A01, M01, M02, M03, M05 again',
 'Tests run with one feature set; the other build has its own implementation of every function.',
 [C+'real/no_std_impl.rs', C+'real/std_impl.rs', C+'real/real.rs'], [('real functions over libm', C+'real/no_std_impl.rs')],
 'exhaustive enumeration of number patterns on both real builds against the standard library, and of the other core spaces in the one without it',
 '64 (quick) / 4096 mantissas per exponent of f32, 16 / 512 of f64.')
prop('M07', 'Serialised attitude, position and frame values round trip',
 'A quaternion, direction cosine matrix, Euler triple, Cartesian, body or assembly frame, or inertial, Earth-fixed or local frame value written with serde or bincode reads back to the same numbers in the same fields. Positions are written as plain triples and frames as pairs of triples, binary values as their numbers in order. Every truncated text or encoding is an error, never a value or a panic.',
 ['inputs', 'fault_sequences'], 'twelve types, every value of a set in every field over several backgrounds; every text and binary prefix',
 'Tests round trip one quaternion with two equal elements, which a swap of fields survives.',
 [C+'coordinate/cartesian.rs', C+'reference_frame/body.rs', C+'reference_frame/asm.rs', C+'attitude/quaternion.rs'], [('hand-written serde', C+'reference_frame/body.rs')],
 'exhaustive enumeration of field values and of truncations on the real encoders and decoders',
 '1500 texts and 3600 encodings, each with every prefix.')
prop('M08', 'Linear algebra is the same for every processor and every feature set',
 'On x86 processors with any of SSE, SSE2, AVX and FMA, found at run time or fixed at compile time, on AArch64, and on ARM with or without DSP, with and without the standard library, SIMD and fused multiply-add, every matrix and vector product and every entry point that may use SIMD returns the textbook result, exactly for small integers and with a NaN in exactly the elements that depend on one, for every number of rows and columns. No build lacks an entry point.',
 ['configurations', 'inputs'], '24 builds covering the feature sets and processors the code distinguishes; in each every shape, block edge and remainder, every single product term, all dot products over a value set',
 'Tests run one feature set on one processor; most kernels and dispatch branches are not even compiled there.',
 [C+'math/matrix.rs', C+'math/vector.rs', C+'math/arch/x86/matrix_simd.rs', C+'math/arch/x86/vector_simd.rs', C+'math/arch/arm/neon.rs', C+'math/arch/arm/m33_dsp.rs'], [('dispatch to kernels', C+'math/matrix.rs'), ('NEON kernels', C+'math/arch/arm/neon.rs')],
 'exhaustive exploration of all build configurations times operand terms on the real source, whose target questions are answered as on each processor, against integer arithmetic',
 'NEON intrinsics are scalar definitions, the processor is what the answers say; the machine must have AVX and FMA. 32-bit builds differ from 64-bit ones only in their features.')
prop('M09', 'Numbers of 16 and 128 bits are first-class',
 'With half and quadruple precision enabled, every function, constant and conversion of the real-number trait on them agrees with the rounded exact one: for half precision on every value, exactly for rounding, sign, minimum, maximum and square root; conversions between any two widths round once. Attitude conversions, coordinates, linear algebra, integration and root finding in quadruple precision are right to about 30 digits, so nothing in them passes through a narrower number.',
 ['inputs'], 'every half-precision value; signs and exponents of quadruple precision with six mantissas; Euler angle grids; all 3x3 matrices over a value set',
 'Tests never instantiate the library at these widths.',
 [C+'real/real.rs', C+'attitude/quaternion.rs', C+'math/matrix.rs', C+'numerical_methods/solvers/newton.rs'], [('real functions over the compiler built-ins', C+'real/real.rs')],
 'exhaustive enumeration of number patterns, angles and matrices on the real code at both widths',
 'References: the standard functions of f64 (for f16) and of f128. A signalling NaN is not passed to two-argument functions.')
prop('A01', 'All rotation representations denote the same rotation',
 'Quaternion, direction cosine matrix, Euler (roll, pitch, yaw) and Rotation values converted into one another, by value or reference, along every path, denote the same rotation: each turns every vector into the same vector, at every angle including the poles and half turns. Inverses, conjugates and transposes undo it; angles extracted are in range; identity changes nothing. Sums, scalings and products of the values, in every operand form, are those of their numbers, and printing shows the numbers in order.',
 ['inputs'], 'every Euler triple of an angle grid, pitches down to and at the poles, every axis of a set turned by every grid angle; every conversion path',
 'Tests convert a few generic angles; half turns, poles and the four branches of matrix-to-quaternion need the whole grid.',
 [C+'attitude/quaternion.rs', C+'attitude/dcm.rs', C+'attitude/euler.rs', C+'attitude/rotation.rs'], [('conversions between representations', C+'attitude/quaternion.rs')],
 'exhaustive enumeration of an angle grid and of all conversion paths on the real code against Rodrigues matrices',
 'Convention: passive, v_B = R v_A. f64, and f32 on a fifth of the grid. Within rounding of a pole angles may move by the square root of the machine epsilon.')
prop('A02', 'Composing and integrating rotations matches matrix products in order',
 'Applying rotation a and then b equals the composed rotation b*a (quaternions), the matrix product, and Rotation::compose, for every sequence and either association, with From/To frames chaining. Integrating a constant body rate over a time turns by exactly that angle about that body axis; the Taylor step agrees with the kinematic equation to fourth order.',
 ['histories', 'inputs'], 'all words over the 24 cube rotations, all typed chains of general rotations, all words of body-rate quarter turns, Taylor steps over rate and acceleration sets',
 'Tests compose commuting or single rotations; a wrong order shows only on non-commuting words.',
 [C+'attitude/quaternion.rs', C+'attitude/rotation.rs', C+'attitude/dcm.rs'], [('Hamilton product and integrate', C+'attitude/quaternion.rs')],
 'explicit-state exploration of all composition words over a finite rotation group on the real code against exact integer matrices',
 'Words of length 3 (quick) / 4 over 24 rotations, length 5 / 6 over 9 body-rate steps; the reachable set of the group closes at 24 states.')
prop('A03', 'Coordinates and reference frames convert consistently and round trip',
 'Cartesian, spherical and cylindrical coordinates convert into one another along every path without changing the point, with angles in range, also on the axes. Typed coordinate arithmetic is component-wise. Frame transforms (ICRF/ITRF, ITRF/NED, body/NED, wind, flight path) are proper rotations that send the defining directions where their definition says.',
 ['inputs'], 'all triples over magnitudes from 1e-12 to 1e9 and every sign, full angle grids, every conversion path; every angle pair or triple of a grid per transform',
 'Tests convert a few generic points; axis points, negative quadrants and improper matrices need the full grid.',
 [C+'coordinate/cartesian.rs', C+'coordinate/spherical.rs', C+'coordinate/cylindrical.rs', C+'reference_frame/transforms.rs', C+'reference_frame/itrf.rs'], [('conversions', C+'coordinate/spherical.rs'), ('frame matrices', C+'reference_frame/transforms.rs')],
 'exhaustive enumeration of grids and conversion paths on the real code against definitions by direction vectors',
 'Inclination near an axis is only determined to the square root of the machine epsilon.')
VZ = 'crates/aether_viz/src/'
prop('V01', 'A followed CSV file shows exactly its complete rows after any history',
 'After every poll, initialisation or column change the realtime plotter holds exactly the rows that the complete lines of the current file give: header names, finite numeric cells of the selected columns, aligned, at most the last max_points. A line still being written, at whatever byte it is cut, counts only once it is complete. Truncated, replaced, deleted or recreated files are followed; a missing column is an error and never yields rows. A poll that changes rows reports it.',
 ['histories', 'inputs'], 'every delivery of files in pieces, all histories of appends, truncations, replacements, deletions, polls and column changes to a depth',
 'There are no tests of it; cut lines, cut characters and replaced files need every cut and order.',
 [VZ+'realtime.rs'], [('partial line and file identity tracking', VZ+'realtime.rs')],
 'bounded exhaustive exploration of file histories on the real plotter and a real file against a whole-file parser',
 'Words of length 5 (quick) / 6 over 16 operations; all 1..3-piece deliveries. Excluded: a file shrunk and regrown in place between polls, same-length in-place rewrites, text that is not UTF-8.')
prop('V02', 'Polls racing with the writer never mix files and recover on the next poll',
 'Whatever the writer does (append, truncate, replace, delete, recreate) between any two file-system calls of a poll, a first load or a column change, the call succeeds, the rows it leaves are those of a line-complete prefix of one version of the file, and the next undisturbed poll shows exactly the current file.',
 ['schedules', 'fault_sequences'], 'one or two writer actions at every pair of system calls of a look at the file and the following poll',
 'Tests cannot place an action between two system calls of a poll.',
 [VZ+'realtime.rs'], [('open, identity and read of one poll', VZ+'realtime.rs')],
 'stateless model checking at system-call granularity: libc open/read/lseek/statx are interposed and every placement of writer actions is run',
 'One or two writer actions per run, 10 kinds, 11 starting files, 4 kinds of look. The code is not instrumented.')
prop('V03', 'Charts draw every finite point of every series at its place',
 'plot, plot_series, plot_error_on_grid and the realtime render draw each series with every finite point once, in order, in its style and its own colour of the palette (the 21 colours in turn), inside the picture, and at the position an increasing affine scale per axis gives; non-finite points are left out and a chart of nothing is an error. Title, axis and series labels appear, each label once beside the mark and colour of its series.',
 ['inputs'], 'all value words over finite and non-finite values, one and two series, both styles, extreme magnitudes; up to 98 series with labels, up to 65537 points; files of 0..5 rows and 1..3 columns',
 'There are no tests of it; misplaced or dropped points depend on signs, gaps and ranges.',
 [VZ+'lib.rs', VZ+'realtime.rs'], [('bounds and point filtering', VZ+'lib.rs')],
 'exhaustive enumeration of series over value sets on the real code, read back from the SVG',
 'Magnitudes up to 1e300; SVG backend; places to 2 pixels.')
prop('V04', 'The CSV viewer plots exactly the ticked columns of every run, correctly named',
 'After any history of ticking boxes, rows arriving and run files appearing, the viewer draws for every file it follows one line per ticked column, named by run and column, holding that column of that file. Nothing is ever drawn under another column or run name, also when some files lack a column; a file that lacks one is reported. Boxes show what is ticked, including columns given as arguments, and a click changes only its box. When the units of the two groups differ (a group has a unit if all its columns carry that one, otherwise none), the second is scaled affinely onto the range of the first; when they do not, it is drawn as it is. Arguments are read as documented.',
 ['histories', 'inputs'], 'all words of clicks, rows and new runs from seven starting situations; all argument lists from a set',
 'There are no tests of it and the build of the tests leaves it out; names go wrong only for mixed files after certain clicks.',
 [VZ+'bin/csv_tail_egui.rs', VZ+'realtime.rs'], [('selection and run discovery', VZ+'bin/csv_tail_egui.rs')],
 'bounded exhaustive exploration of interaction histories on the real program with real egui, driven by pointer events and a controlled clock',
 'Words of length 4 (quick) / 5 over 8 operations; up to two new runs; 210 argument lists. The window and the plot widget are stood in for.')
OP = 'crates/aether_opt/src/gradient_descent/'
prop('R01', 'The generator is xorshift64* of full period with reals in range',
 'From any seed the generator yields the xorshift64* sequence, the same for the same seed, and runs through all 2^64-1 states before repeating. A uniform real, in f64 or f32, is in [0, 1), is the value its output word denotes, and uses up exactly one word. A normal variate is finite and is the Box-Muller value of the two next uniform draws, also when a draw is 0.',
 ['inputs', 'histories'], 'the whole state space through the exact linear map; all words of mixed draws; all leading bit patterns of an output word, all words near the ends of the range',
 'Tests draw a thousand numbers; a short period, a draw of exactly 0 or a rounding to 1 are one in millions or never seen.',
 ['crates/aether_rand/src/randomizers/xor_shift.rs'], [('next_u64, next_real, normal01_real', 'crates/aether_rand/src/randomizers/xor_shift.rs')],
 'state-space analysis of the generator: its exact transition matrix read off the real code, replayed against it, and its order computed; exhaustive enumeration of output words by inverting the map',
 'All 2^23 (quick) / 2^26 leading patterns with 6 tails. Linearity is replayed on all words of weight up to 3 / 4 and along runs.')
prop('O01', 'Gradient descent follows its rules whatever objective and gradient answer',
 'From the start point projected into the bounds, every iterate of gradient descent and stochastic descent is the projection of x - a g + m (x - previous x), with g the mean of exactly batch-size samples of one random stream. Points evaluated or returned lie in the bounds. A line search takes the first step of lr, lr t, lr t^2.. with sufficient decrease and never goes uphill. The search stops exactly when a gradient, step, value or iteration limit says so, and the value returned is the objective at the point returned. Without momentum it reaches the minimum of a convex quadratic.',
 ['histories', 'inputs'], 'all answer words of the objective and of the gradient or its samples over small alphabets, for every configuration of a product of step sizes, momenta, tolerances, limits, bounds and starts',
 'Tests minimise two quadratics without bounds; active bounds, failed line searches and stopping edges need hostile answers.',
 [OP+'basic.rs', OP+'stochastic.rs'], [('minimize', OP+'basic.rs'), ('minimize', OP+'stochastic.rs')],
 'exhaustive exploration of environment answer words (objective and gradient as adversary) driving the real optimisers, each step checked against the documented rules',
 'Answer words of length 3 (quick) / 4, up to 6 iterations, plus runs of 70000 iterations, batches of 65537 and up to 40 coordinates. The update rule with momentum inside a line search is not fixed, only its descent.')
prop('O02', 'Parallel stochastic descent does not depend on the thread schedule',
 'For a given seed, thread count and input, parallel stochastic descent returns bit-identical results and draws the same samples under every schedule of its threads. Each iteration draws exactly batch-size samples at the current iterate, no two samples share a random state, and the update, projection and stopping rules are those of the sequential optimiser on the mean gradient.',
 ['schedules', 'inputs'], 'every order in which the workers can be resumed at their gradient calls, for many thread counts, batch sizes and seeds; threads x batch sizes for the partition',
 'Tests run one schedule of the operating system; order-dependent sums and lost samples need other interleavings.',
 [OP+'stochastic_parallel.rs'], [('workers and reduction', OP+'stochastic_parallel.rs')],
 'stateless model checking: a controller stops every worker in the gradient callback and enumerates depth-first all orders of resuming them, comparing results bit for bit',
 'Up to 6 (quick) / 7 workers, 10 / 12 samples, 3 / 5 iterations. Workers meet user code only in the callback; thread ends are observed.')
ST='crates/aether_stats/src/'
prop('S01', 'Sample statistics and distributions equal their definitions on any sample',
 'Mean, covariance, cross covariance, standard deviations and correlation of any sample equal their definitions, covariance matrices are symmetric with non-negative variances, correlations lie in [-1, 1] and convert back, and empty, too small or mismatched samples are errors. Densities and mass functions equal their formulas and integrate or sum to 1; variates are mu + sigma z of the stream; fits are the maximum likelihood values.',
 ['inputs'], 'all samples over small value sets in one to three dimensions with shifts and scales, all binary samples, all count vectors, all small integer covariance matrices',
 'Tests check one sample each; an off-by-one divisor or swapped index shows only on asymmetric data or odd sizes.',
 [ST+'covariance.rs', ST+'distributions/gaussian.rs', ST+'distributions/multivariate.rs', ST+'distributions/bernoulli.rs', ST+'distributions/categorical.rs'], [('covariance functions', ST+'covariance.rs'), ('density and variates', ST+'distributions/gaussian.rs')],
 'exhaustive enumeration of samples over small value sets on the real code against exact integer arithmetic',
 'Samples of up to 6 (quick) / 8 points in one dimension, fewer in more. Singular covariances are outside the domain of the multivariate density.')
IN='crates/aether_interp/src/'
prop('I01', 'Interpolants pass through their data and reproduce what they promise',
 'lerp returns its ends at 0 and 1 and is affine between; inverse_lerp and remap invert it on any non-degenerate range. The polynomial interpolant passes through every knot and equals the unique polynomial of its degree everywhere; the cubic spline passes through every knot, is twice continuously differentiable with zero second derivative at the ends, and is the unique such spline. Bad knots (unsorted, repeated, NaN, too few) are errors.',
 ['inputs'], 'all knot sets over a grid of positions with all data words over a value set, several scales, evaluated at and between knots and outside',
 'Tests interpolate one quadratic and one line; conditions at every knot need many knot sets.',
 [IN+'lerp.rs', IN+'polynomial.rs', IN+'spline.rs'], [('evaluate', IN+'polynomial.rs'), ('new', IN+'spline.rs')],
 'exhaustive enumeration of knot and data words on the real code against independent solutions and the defining conditions',
 'Up to 5 (quick) / 6 knots.')
ML='crates/aether_ml/src/'
prop('L01', 'Learners take the documented steps and reach what their losses promise',
 'On every data set a training epoch of each regression or classifier, and one fixed or searched step of its fit by the optimiser, is the gradient step of its loss (mean squared error, ridge, cross entropy, hinge, perceptron rule). The perceptron separates every separable labelling within the mistake bound. Fits by the optimiser end at a stationary point of the loss, or never above its start for non-smooth losses. Bayes, linear and quadratic discriminants have the sample priors, means and covariances, however far the points lie from zero, and predict a class of largest posterior.',
 ['inputs', 'histories'], 'all words of labelled points over a grid from several weights, all separable labellings of subsets of the grid',
 'Tests train on one or two easy data sets where any descent direction succeeds.',
 [ML+'regression/linear.rs', ML+'regression/ridge.rs', ML+'regression/logistic.rs', ML+'classification/perceptron.rs', ML+'classification/svm.rs', ML+'classification/naive_bayes.rs', ML+'classification/lda_qda.rs'], [('train_epoch and fit_with_optimizer', ML+'regression/logistic.rs'), ('fit and predict', ML+'classification/lda_qda.rs')],
 'exhaustive enumeration of labelled data sets on the real code against loss gradients and posteriors computed from the definitions',
 'Up to 3 (quick) / 4 points for training and fits, 5 / 6 for classifiers; runs of up to 300 points; 1 to 5 features, f64 and f32. The weights inside the shared covariance of the linear discriminant are not fixed.')
SH='crates/aether_shapes/src/'
prop('P01', 'Mass properties of combined solids follow from their parts',
 'Volume and principal moments of prism, cylinder and sphere equal their integrals. Adding or subtracting two posed solids gives the summed volume and mass, the mass-weighted centre, the parallel-axis inertia about that centre (symmetric, rotated into the assembly), and the ratio as density, by operator and by method alike; empty, inverted or non-positive results are refused.',
 ['inputs'], 'all pairs of bodies over shapes, densities, rotations and places, added and subtracted, f64 and f32',
 'Tests combine aligned bodies; a transposed rotation or a wrong sign of the offset needs general poses.',
 [SH+'attributes.rs', SH+'cylinder.rs', SH+'prism.rs', SH+'sphere.rs'], [('combination of mass properties', SH+'attributes.rs')],
 'exhaustive enumeration of pairs of posed bodies on the real code against second moments summed independently',
 'Nine shapes, 3 (quick) / 5 densities, 7 / 27 rotations, 4 places.')
prop('F01', 'Tank limits and totals follow from shape, density and fill',
 'For any tank shape, density and fill fraction the geometric volume is that of the shape, the usable volume is the fill fraction of it with the fraction clamped to [0, 1], the propellant limit is density times usable volume, none is negative, and inertia is that of the shape. Totals over any list of tanks are the sums, negative masses counting as none.',
 ['inputs'], 'all shapes over a set of lengths, 146 fill fractions, 6 densities; all lists of tanks to a length',
 'Tests look at one tank; clamps and sums need negative, zero and infinite values and longer lists.',
 ['crates/aether_fluids/src/lib.rs'], [('tank limits and aggregates', 'crates/aether_fluids/src/lib.rs')],
 'exhaustive enumeration of tanks and tank lists on the real code against the definitions',
 'Lists of up to 3 (quick) / 4 tanks.')
MO='crates/aether_models/src/'
prop('G01', 'Geodetic and Earth-fixed coordinates convert both ways everywhere',
 'Latitude, longitude and altitude map to the point that far along the normal of the WGS 84 ellipsoid. Both inverses give back latitude, longitude and altitude from any point, from 100 km below the surface to interplanetary distance, at the poles, the equator and the antimeridian, in range. The Earth rotation transforms turn by rate times time about the axis and are inverse to each other.',
 ['inputs'], 'a full latitude x longitude x altitude grid with poles, equator, antimeridian and their neighbours; times over years of both signs',
 'There are no tests of the conversions; a formula can be right at generic points and fail at the poles, far out or on one meridian.',
 [MO+'terrestrial/wgs84/transforms/mod.rs', MO+'terrestrial/earth.rs'], [('geodetic conversions', MO+'terrestrial/wgs84/transforms/mod.rs')],
 'exhaustive enumeration of a coordinate grid on the real code against the geometric definition, through every path',
 'About 60 thousand (quick) / 980 thousand points, f64 and f32. Within 43 km of the centre is outside the domain.')
prop('G02', 'Gravity and apparent forces are those of the rotating WGS 84 Earth',
 'On and above the ellipsoid the gravity vector is the gradient of the WGS 84 normal gravity potential, on the ellipsoid its magnitude is that of the closed formula, and the component form has the same magnitude. Coriolis force is -2 m w x v, centrifugal force -m w x (w x r), and the gravity-gradient torque 3 GM / r^5 r x I r.',
 ['inputs'], 'a full latitude x longitude x altitude grid; directions times magnitudes, masses and inertia matrices',
 'The only test prints one value on the equator, where wrong sine powers vanish.',
 [MO+'terrestrial/wgs84/gravity/mod.rs', MO+'terrestrial/earth.rs'], [('normal gravity', MO+'terrestrial/wgs84/gravity/mod.rs')],
 'exhaustive enumeration of a position grid on the real code against the zonal expansion of the potential',
 'Agreement to 2e-8; altitudes from 0 to lunar distance.')
prop('G03', 'The standard atmospheres follow their layers without jumps or panics',
 'At every altitude of its range the ISA and, below 86 km, the 1976 atmosphere give the temperature and pressure of the layered standard atmosphere; above, the 1976 temperature follows its laws. Temperature, pressure and density are continuous across layers, pressure falls, the gas law holds, speed of sound and viscosity follow from temperature. Outside the range every query, also through Earth, is an error and never a panic.',
 ['inputs'], 'every altitude at a fine step and every layer boundary from both sides, out-of-range and non-finite altitudes',
 'The only test prints one value; layer mix-ups and edges show at particular altitudes.',
 [MO+'terrestrial/atmospheres/isa.rs', MO+'terrestrial/atmospheres/ussa.rs', MO+'terrestrial/earth.rs'], [('layers', MO+'terrestrial/atmospheres/isa.rs'), ('layers', MO+'terrestrial/atmospheres/ussa.rs')],
 'exhaustive enumeration of altitudes on the real code against an independent integration through the layers',
 'Steps of 2 m (quick) / 0.25 m. Known findings: pressure jumps at 110, 120 and 500 km.')
prop('G04', 'Lunar frames, gravity and mean orbit agree with one another',
 'For any epoch and epoch orientation the inertial-to-fixed transform equals the chain through the lunar inertial frame, turns by the sidereal rate times the time since the epoch, and the inverse transforms are inverse. Lunar gravity is GM / r^2 towards the centre, zero at it, force is mass times it, the gravity-gradient torque follows, and the orbital period obeys Kepler\'s third law.',
 ['inputs'], 'epoch orientations x epochs x times of both signs; directions x distances; orbit parameter products',
 'Tests use epoch 0, where forgetting the epoch does not show.',
 [MO+'lunar/moon.rs', MO+'lunar/transforms.rs', MO+'lunar/orbit.rs'], [('epoch and orientation', MO+'lunar/moon.rs')],
 'exhaustive enumeration of epochs, orientations and times on the real code against explicit rotation matrices',
 '252 (quick) / 1872 epoch orientations. The rate field of the model is not used by its transforms.')
CA='crates/aether_catalogs/src/'
prop('W01', 'The magnetic model is the published field everywhere and at every epoch',
 'For every position and date the field is minus the gradient of the spherical harmonic potential of the published coefficients moved linearly in time from their epoch, turned into the geodetic frame. Declination, inclination, horizontal and total intensity and their rates follow from the components. It is periodic in longitude, finite at and continuous towards both poles, and every coefficient record is the one of its degree and order; other orders are zero.',
 ['inputs'], 'a latitude x longitude x height x date grid with both poles and wrapped longitudes, dates before and after the epoch',
 'Tests compare a few published points; recursion and pole errors show at particular degrees, latitudes and dates.',
 [CA+'wmm/mod.rs'], [('coefficients and synthesis', CA+'wmm/mod.rs')],
 'exhaustive enumeration of a position and date grid on the real code against an independent synthesis of the potential',
 'All 169 degree and order pairs; points to 1e-8 rad from the poles.')
prop('C01', 'Star catalogue records are read, moved and coloured as the catalogue says',
 'Reading a catalogue yields every well-formed record in order and counts each malformed one, whatever the mix; the file checksum is the SHA-256 of its bytes at every size. Positions, distance and velocity follow from angles, proper motion, parallax and epoch, with uncertainties that grow from the epoch of the record. Colour, temperature and magnitude follow from whichever magnitudes are present, in the documented order, and are always finite and in range; black-body colour is the documented fit at every temperature.',
 ['inputs', 'histories'], 'all words of row kinds; file sizes around every block edge; product of positions, motions, parallaxes and epochs; all presence patterns of magnitudes',
 'Tests read one good row; mixes of rows, block edges and missing fields need enumeration.',
 [CA+'star_catalogs/mod.rs', CA+'star_catalogs/color.rs'], [('records and checksum', CA+'star_catalogs/mod.rs'), ('colours', CA+'star_catalogs/color.rs')],
 'exhaustive enumeration of row words, file sizes and record fields on the real code against the definitions',
 'Files up to four hash blocks around buffer edges; rows up to 4 (quick) / 5.')
prop('U01', 'Unit conversions keep the quantity',
 'Each of the 59 prefixed units converts to its base unit and back by its exact power of ten in the working precision, and two prefixed units of one base are in the ratio of their powers. The twenty prefix factors are the powers of ten. Constructors hold the given number. Sum, difference, scaling and comparison of quantities are those of the numbers. Degrees and radians, single or in arrays, convert by pi / 180 both ways.',
 ['inputs'], 'all units x values over 24 decades of both signs, f64 and f32; degrees over four turns both ways',
 'Tests convert a few values with loose bounds; one wrong entry of the table or a lost digit goes unseen.',
 ['crates/aether_units/src/si/si_prefix.rs', 'crates/aether_units/src/base/units.rs', 'crates/aether_units/src/si/si.rs', 'crates/aether_core/src/utils/angle_conversion.rs'], [('prefix table', 'crates/aether_units/src/si/si_prefix.rs')],
 'exhaustive enumeration of units and values on the real code against powers of ten',
 '59 units, 12 (quick) / 412 values each.')
prop('K01', 'The orbit camera looks where its operations say',
 'After any sequence of operations the view direction is the one obtained by turning about the stated axes in order, forward, right and up are orthonormal with up not below the horizon, the position is the distance back from the target, and the reported yaw and pitch name the direction. The view matrix is rigid, takes the eye to the origin and the target to the negative depth axis; the projection takes the frustum onto the cube.',
 ['inputs', 'histories'], 'all words of 19 operations to a depth; all poses over a grid; projections over a grid',
 'There are no tests of the camera; order and axis mix-ups need two or more turns to show.',
 ['crates/aether_graphics/src/cameras/orbit_camera.rs', 'crates/aether_graphics/src/graphics/transforms.rs'], [('orbit operations', 'crates/aether_graphics/src/cameras/orbit_camera.rs')],
 'exhaustive enumeration of operation sequences on the real camera in step with an explicit rotation model',
 'Words of up to 5 (quick) / 6 operations. No handedness of right and up is claimed.')
prop('X01', 'The test assertions accept exactly what they say',
 'Approximate equality of matrices and vectors holds exactly when every element differs by at most the tolerance and otherwise names the first element that does not, NaN never passing. Largest difference, Frobenius norms, finiteness and symmetry are those of the definitions. The grid assertion passes exactly when the error at every grid point is within the tolerance and returns the worst point.',
 ['inputs'], 'all pairs of small matrices and vectors over values with NaN and infinities; all error words over a grid',
 'An assertion that misses one element, the last grid point or a NaN passes every test that should fail.',
 ['crates/aether_test/src/assert/matrix.rs', 'crates/aether_test/src/assert/vector.rs', 'crates/aether_test/src/assert/function.rs'], [('element comparison', 'crates/aether_test/src/assert/matrix.rs')],
 'exhaustive enumeration of values, positions and error words on the real assertions against their definitions',
 'Shapes to 4x3, 8 values, 4 tolerances. For equal infinities neither verdict is claimed.')
NM='crates/aether_core/src/numerical_methods/'
prop('N01', 'Integrators and Newton iteration take the defined steps',
 'A Runge-Kutta step of a vector, Cartesian or Euler-angle state is the classical fourth-order step of its vector field, exact for cubics, of fifth-order local error; the rectangle and trapezoid rules are theirs. Newton iteration follows x - f / f\' from the guess, returns the first iterate within tolerance of the one before, and is an error when the derivative is zero, the iterations run out or the answers are NaN.',
 ['inputs', 'histories'], 'eight vector fields x states x steps; all words of function and derivative answers to a depth',
 'Tests integrate one decay with a loose bound, which a lower-order rule passes too.',
 [NM+'integration/rk4.rs', NM+'integration/euler.rs', NM+'integration/trapezoidal.rs', NM+'solvers/newton.rs'], [('Runge-Kutta step', NM+'integration/rk4.rs'), ('solve', NM+'solvers/newton.rs')],
 'exhaustive enumeration of states, steps and answer words on the real code against the defined rules',
 'Words of up to 4 (quick) / 5 answers of 20 letters.')

prop('H01', 'Results depend only on the arguments and an object\'s own history',
 'Whatever was computed before, on whatever thread, a call answers bit for bit as it does alone in a fresh process: geodesy, gravity, atmospheres, the magnetic model, star colours and motion, catalogue reading, solids and tanks, interpolation, statistics, linear algebra, integration, attitude, views, optimisers, learners, time and charts. What an object with state does depends only on its own construction and the operations made on it: not on another instance, on the instance it was copied from or to, or on the thread. Reading an object does not change it. The leap second setting is the one thing shared.',
 ['histories', 'schedules'], 'all words of calls of each function over argument lists with near neighbours, words of each ordered pair of functions, all interleavings of pairs of histories on two instances, copies taken at every point, hand-overs between threads',
 'A test calls a function with one argument list and one instance in a fresh process; a stale cache or a shared static shows only in a second call that differs in what the key leaves out.',
 ['crates'], [('evaluate, coefficients_at', 'crates/aether_catalogs/src/wmm/mod.rs'), ('USSA, ISA', 'crates/aether_models/src/terrestrial/atmospheres/'), ('XorShift64Star', 'crates/aether_rand/src/randomizers/xor_shift.rs'), ('fit, train_epoch', 'crates/aether_ml/src/'), ('step, check', 'crates/aether_time/src/time/'), ('update_once', 'crates/aether_viz/src/realtime.rs')],
 'exhaustive exploration of bounded words of calls and of all interleavings of bounded histories on the real code, each step compared with the same call or history alone in a process of its own',
 'About 80 functions with up to 81 argument lists, 31 kinds of object. Calls do not overlap in time. Star colours drawn at random are left out.')
