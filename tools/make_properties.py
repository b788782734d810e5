"""Writes /verif/properties.jsonl (the source of the property statements)."""
import json
import os

P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=' '.join(statement.split()),
             quantifier=dict(over=over, text=' '.join(qtext.split())),
             why_tests_cant=' '.join(why.split()),
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          hook_needed=None))
    if observe:
        d['anchors']['observe_at'] = observe
    if state:
        d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)


F = 'src/flib/'
Y = 'src/pysimulators/'

prop('P01', 'Compiled kernels give the same result for every thread count and schedule',
"""Every compiled routine that distributes its loops over several threads computes what it computes
with a single thread, up to the order of floating-point additions, for every number of threads and
every interleaving. No variable or array element is written by one thread while another thread may
read or write it, unless through an atomic, critical or reduction construct, and no per-iteration
variable keeps a value from another iteration.""",
['schedules', 'inputs'],
"all thread counts, all assignments of iterations to threads, all interleavings, all inputs of every multi-threaded routine",
"""A race shows only under particular interleavings and inputs (two iterations hitting the same pixel
or the same scratch variable at the same time); the tests run small matrices a few times on one machine.""",
[F + 'sparse.f90.j2', F + 'module_operators.f90.j2', F + 'operators.f90.j2', F + 'projection.f90.j2',
 F + 'pointingmatrix_old.f90', F + 'module_pointingmatrix.f90', F + 'module_math_old.f90',
 F + 'wcsutils.f90', F + 'geometry.f90', F + 'bi.f90.j2', F + 'datautils.f90.j2'],
[('private/reduction clauses of the parallel regions', F + '*.f90*'),
 ('atomic and critical sections around scattered additions', F + 'sparse.f90.j2'),
 ('element-disjoint stores indexed by the parallel loop variable', F + 'sparse.f90.j2')],
['SparseOperator.__call__', 'ProjectionInMemoryOperator.__call__', 'Projection kernel / weights helpers'])

prop('P02', 'Routines that release the interpreter lock are re-entrant',
"""A compiled routine that runs without holding the interpreter lock depends only on its arguments
and on variables that are fresh in each call. It neither reads nor writes, directly or through the
routines it calls, any storage that survives the call or is shared between calls, so that calls made
concurrently from several Python threads return what they return one after another.""",
['schedules', 'programs'],
"all interleavings of concurrent calls, from any number of Python threads, of the routines flagged as not needing the lock",
"No test calls the extension from several Python threads at the same time.",
[F + 'geometry.f90', F + 'pointingmatrix_old.f90', F + 'module_geometry.f90.j2', F + 'module_pointingmatrix.f90',
 F + 'module_wcs.f90', F + 'module_sort.f90'],
[('threadsafe annotation of the wrapped routine', F + 'geometry.f90'),
 ('common blocks and saved module variables stay out of its call graph', F + 'module_wcs.f90')],
['geometry helpers and the pointing-matrix conversion called from threads'])

prop('P03', 'Missing entries of a sparse or pointing matrix are ignored everywhere',
"""In every sparse and pointing matrix, an element whose index is negative stands for "no entry":
products, transposes, normal matrices, kernels, restrictions, packings, masks and weights give the
same result as if it were absent, and it never makes any routine read or write outside an array.
In the general sparse formats it does not hide the other elements of its row or column either; in the
fixed-width pointing matrices, where missing elements are the trailing padding of a sample, the
elements before it all count and the other samples are unaffected.""",
['inputs'],
"all matrices: any number of missing elements at any position, for every storage format, index type and value type",
"""The tests use a handful of matrices, few with missing entries, and an out-of-bounds access at offset -1
usually goes unnoticed at run time.""",
[F + 'sparse.f90.j2', F + 'module_operators.f90.j2', F + 'operators.f90.j2', F + 'pointingmatrix_old.f90',
 F + 'module_pointingmatrix.f90', Y + 'sparse.py', Y + 'operators.py'],
[('sign test that guards each use of an element index', F + 'sparse.f90.j2'),
 ('skip of the element rather than of the row', F + 'sparse.f90.j2'),
 ('same guards in the pure Python fallbacks', Y + 'sparse.py')],
['SparseOperator.__call__', 'SparseOperator.T.__call__', 'ProjectionOperator.canonical_basis_in_kernel / pT1 / pTx_pT1 / intersects'])

prop('P04', 'Sparse products compute the stored matrix, and transposes its adjoint',
"""For every sparse format (plain, homothety with trailing dimension, 2-d rotation, 3-d rotation, and
block), every index type and every value type, the compiled direct product adds to each output element
exactly the products of the stored coefficients with the input elements they designate, and the
transposed product applies the transposed coefficients. Hence <y, A x> = <A' y, x> for all x and y, and
column-oriented and row-oriented storages of the same matrix are each other's transpose, and a compiled
normal matrix is the product of the transposed matrix by the matrix, repeated entries included. The pointing
matrix products set every output element, whatever the previous content of the output.""",
['inputs', 'configurations'],
"all matrices, all inputs, all formats x index types x value types x block shapes",
"Tests sample a few small matrices per format; not every (format, index, value, input type) instance is run.",
[F + 'sparse.f90.j2', F + 'module_operators.f90.j2', F + 'pointingmatrix_old.f90', F + 'module_pointingmatrix.f90'],
[('generated kernels fsc_*/fsr_* for each storage format', F + 'sparse.f90.j2'),
 ('block kernels', F + 'module_operators.f90.j2'),
 ('pointing matrix direct/transpose kernels', F + 'module_pointingmatrix.f90')],
['SparseOperator.__call__', 'SparseOperator.T.__call__', 'Projection operators'])

prop('P05', 'Python and compiled code agree on every compiled call',
"""Wherever the Python layer calls the compiled extension, the routine exists for every combination of
index type, value type and input type that the surrounding code lets through, and the arguments are
passed in the routine's order with the element type, storage layout and extents that the routine
declares. The in-memory layout of a matrix element (field order, integer and real widths, number of
coefficients) is the same on both sides, and a pure Python fallback computes the same thing as the
compiled routine it replaces.""",
['configurations', 'inputs'],
"all combinations of dtypes, formats and block shapes that reach the extension, on every call site",
"""The combinations are generated by name from the dtypes; the tests instantiate only part of them, and a
wrong extent or swapped pair of equally typed arguments shows only for rectangular shapes.""",
[Y + 'sparse.py', Y + 'operators.py', Y + 'datautils.py', Y + 'geometry.py', Y + 'wcsutils.py',
 Y + 'packedtables/layouts.py', Y + 'packedtables/scenes.py', Y + 'interfaces/healpy/scenes.py', F + 'sparse.f90.j2', F + 'operators.f90.j2', F + 'projection.f90.j2'],
[('routine names built from the dtypes', Y + 'sparse.py'),
 ('matrix element derived types', F + 'module_pointingmatrix.f90'),
 ('structured dtypes of the Python matrices', Y + 'sparse.py')],
['every _flib call'])

prop('P06', 'In-place application of an operator equals out-of-place application',
"""For every operator of the package that declares that it can be applied in place, and for each
direction in which it is applied (direct, and transposed or inverse where provided), applying it with
the same buffer as input and output gives what applying it with two distinct buffers gives. In
particular no input element is read after the output element that overlays it has been overwritten,
and an output element that must equal its input is left as it is.""",
['inputs', 'programs'],
"all inputs and parameters of every operator flagged as applicable in place, in each direction",
"""In-place execution is chosen by the operator framework for compositions; unit tests call mostly
out-of-place, with few parameter values.""",
[Y + 'operators.py', Y + 'interfaces/healpy/operators.py', F + 'operators.f90.j2', F + 'module_operators.f90.j2', F + 'bi.f90.j2'],
[('in-place flags of the operators', Y + 'operators.py'),
 ('trexp in-place and out-of-place kernels', F + 'module_operators.f90.j2')],
['Operator.__call__(x, x)', 'operator.T / operator.I compositions'])

prop('P07', "Functions do not modify their caller's arguments",
"""Calling a function, constructor or method of the package leaves every array, list, dict and header
passed to it, and every object obtained from an attribute of such an argument, as it was. The only
exceptions are documented destinations: an output buffer (out, output), the object on which an
in-place operator or setter is invoked, and functions documented to work in place.""",
['inputs', 'histories'],
"all public functions and constructors, all argument values, including non-copied arrays and cached attributes of arguments",
"""Tests compare return values and rarely look at the arguments afterwards; whether the caller's array is
aliased depends on its dtype, contiguity and unit.""",
[Y + 'datautils.py', Y + 'datatypes.py', Y + 'quantities.py', Y + 'geometry.py', Y + 'noises.py', Y + 'wcsutils.py',
 Y + 'operators.py', Y + 'acquisitions.py', Y + 'instruments.py', Y + 'mpiutils.py', Y + 'beams.py',
 Y + 'packedtables/core.py', Y + 'packedtables/layouts.py', Y + 'packedtables/samplings.py', Y + 'packedtables/scenes.py'],
[('defensive copies before in-place numpy operations', Y + '*.py')])

prop('P08', 'Results do not depend on the history of previous calls',
"""What a function, constructor or operator of the package returns depends on its arguments (and, for
random draws, on the random generator), not on calls made before it: no module-level table, class
attribute, mutable default argument or shared unit definition is modified by ordinary use, and a value
that an object keeps to avoid recomputing it always equals what recomputing it would give.""",
['histories'],
"all sequences of public calls, including calls that fail",
"""Tests run each call in a fresh context or in one fixed order; a leaked table entry or a stale cached
value needs a particular earlier call.""",
[Y + 'quantities.py', Y + 'acquisitions.py', Y + 'operators.py', Y + 'packedtables/core.py',
 Y + 'packedtables/layouts.py', Y + 'packedtables/samplings.py', Y + 'packedtables/scenes.py', Y + 'instruments.py', Y + 'mpiutils.py',
 Y + 'wcsutils.py', Y + 'datatypes.py', Y + 'interfaces/healpy/scenes.py'],
[('derived unit tables copied before use', Y + 'quantities.py'),
 ('cached operators dropped when a copy changes', Y + 'acquisitions.py')])

prop('P09', 'Units of results follow from the units of the operands',
"""Arithmetic on unit-aware arrays follows dimensional analysis: addition, comparison-like selection and
extrema convert the second operand to the unit of the first and keep that unit, products and quotients
combine the units, powers and roots scale them, and operands of incompatible dimensions raise an error
instead of being combined. Reductions and array functions (sum, mean, extrema, sorting, variance,
product-like ones, clipping, interpolation) return their result in the unit that the computation
implies, and converting a quantity never changes the physical value.""",
['inputs', 'programs'],
"all supported numpy functions and ufuncs, all unit combinations (with powers, derived units and unit-less operands)",
"""The product (function x unit combination x operand kind) is far larger than the sampled tests, and a wrong
unit does not raise.""",
[Y + 'quantities.py'],
[('table of unit rules per ufunc and numpy function', Y + 'quantities.py'),
 ('unit algebra (multiply, divide, power, conversion)', Y + 'quantities.py')],
['Quantity operators', 'numpy functions applied to Quantity'])

prop('P10', 'Maps and timelines keep mask, coverage, error, header and units consistent',
"""Slicing, viewing, copying, casting, arithmetic and unit conversion of maps and time-ordered data carry
the companion arrays (mask, coverage, error) and metadata (header, unit, derived units, display origin)
along: a companion array is sliced like the data, is not silently dropped or replaced by another
object's, and is not shared in such a way that changing the result's changes the original's. Saving an
object and reading it back, from a file name of any accepted kind, restores the same companions.""",
['histories', 'inputs'],
"all sequences of slicing/copying/arithmetic/saving operations on maps and timelines, all kinds of file names",
"The tests check single operations on one or two objects; loss or sharing of a companion shows only later.",
[Y + 'datatypes.py', Y + 'quantities.py'],
[('__array_finalize__ and __getitem__ propagation', Y + 'datatypes.py'),
 ('save and load of companion extensions', Y + 'datatypes.py')],
['Map', 'Tod', 'FitsArray', 'Quantity'])

prop('P11', 'Operator simplification rules preserve the product',
"""The algebraic rewriting that operators undergo when they are composed, added, transposed, inverted or
partitioned does not change what the expression computes: two operators cancel or merge only if every
parameter that influences their result makes that true, the associated transpose or inverse of an
operator undoes or transposes it with all of its parameters carried over, and a declared property
(linear, symmetric, diagonal, real, square, orthogonal, idempotent) holds for all parameter values
admitted by the constructor.""",
['programs', 'inputs'],
"all compositions of the package's operators, all constructor parameters",
"Tests check a few compositions with equal or default parameters; a missing comparison of one parameter shows only when it differs.",
[Y + 'operators.py', Y + 'sparse.py', Y + 'interfaces/healpy/operators.py'],
[('rules registered by the operators', Y + 'operators.py'),
 ('property flags (decorators)', Y + 'operators.py')],
['pyoperators composition of the package operators'])

prop('P12', 'Parallel (MPI) routines take the same communication steps on all ranks',
"""In every routine that takes a communicator, all processes of the communicator execute the same
sequence of collective communications with compatible arguments, whatever their rank, the size of their
local part (which may be empty) and the errors raised locally, so that no execution dead-locks; and
global offsets, lengths and shapes exchanged between processes describe the same partition on each of
them. Communicators and data types created for the exchange are released.""",
['schedules', 'inputs', 'fault_sequences'],
"all communicator sizes, all ranks, all partitions including empty local parts, locally raised errors",
"The reliable tests run on a single process, where every collective trivially matches.",
[Y + 'mpiutils.py', Y + 'acquisitions.py', Y + 'instruments.py', Y + 'operators.py', Y + 'packedtables/core.py',
 Y + 'packedtables/samplings.py', Y + 'packedtables/layouts.py', Y + 'datatypes.py', Y + 'wcsutils.py'],
[('collective calls kept outside rank-dependent branches', Y + 'mpiutils.py'),
 ('partition of local parts', Y + 'packedtables/core.py')],
['read_fits', 'write_fits', 'scatter', 'gather', 'get_operator'])

prop('P13', 'Spherical and frame conversions follow their declared convention',
"""Conversions between cartesian and spherical coordinates implement the declared angle convention
(zenith or elevation, azimuth before or after, degrees or radians) exactly, each conversion and its
declared inverse use the same convention and units for all parameter values, and a rotation between
celestial frames is undone by its declared inverse.""",
['inputs', 'configurations'],
"all directions, all angle conventions, degree and radian modes, all times and site coordinates",
"Tests sample a few directions and conventions.",
[Y + 'operators.py', Y + 'geometry.py', F + 'geometry.f90'],
[('convention-specific kernels', Y + 'operators.py'),
 ('associated inverse with the same parameters', Y + 'operators.py')],
['Cartesian2SphericalOperator', 'Spherical2CartesianOperator', 'frame conversion operators'])

prop('P14', 'Selections and partitions of tables keep every attribute aligned',
"""Selecting, packing, scattering and gathering elements of a layout, sampling or scene treats all of its
per-element attributes alike: after any chain of selections each attribute still refers to the same
elements as the index, scalar and explicitly special attributes are carried unchanged, lazily computed
attributes are evaluated for the selected elements, and packing followed by unpacking returns the
values at their places. Scattering over processes followed by gathering restores the whole table.""",
['histories', 'inputs'],
"all chains of selections (masks, slices with any sign, index arrays of any integer type), all attribute kinds",
"Tests try a few selections on tables with a couple of attributes.",
[Y + 'packedtables/core.py', Y + 'packedtables/layouts.py', Y + 'packedtables/samplings.py', Y + 'packedtables/scenes.py'],
[('attribute store with special and reserved names', Y + 'packedtables/core.py'),
 ('composition of selection indices', Y + 'packedtables/core.py')],
['PackedTable.__getitem__', 'pack', 'unpack', 'scatter', 'gather', 'all'])

prop('P15', 'Compiled routines define every output and read only defined variables',
"""Whatever its input, a compiled routine that returns normally has assigned every output it is
responsible for, on every path through the routine and for every loop trip count including zero, and
never uses a local variable before giving it a value. Its results are therefore a function of its
inputs and never of leftover memory.""",
['inputs'],
"all inputs of every compiled routine, including empty arrays and degenerate geometries",
"An uninitialised result is often zero by luck in a fresh test process.",
[F + 'geometry.f90', F + 'module_geometry.f90.j2', F + 'wcsutils.f90', F + 'projection.f90.j2', F + 'module_pointingmatrix.f90',
 F + 'pointingmatrix_old.f90', F + 'sparse.f90.j2', F + 'operators.f90.j2', F + 'bi.f90.j2', F + 'datautils.f90.j2', F + 'module_math_old.f90'],
[('assignment of intent(out) arguments', F + '*.f90*')])

prop('P16', 'Files and communication objects are released on every path',
"""Every file that the package opens itself is closed, and every communicator or message data type that it
creates is freed, on every path out of the function that created it, including paths on which an
exception is raised in between; and a file being written is complete or absent, never half-described,
when the function returns normally.""",
['fault_sequences', 'inputs'],
"all exception points between acquisition and release, all input files",
"Tests do not raise errors between the opening and the closing.",
[Y + 'datatypes.py', Y + 'mpiutils.py', Y + 'interfaces/madmap1.py', Y + 'wcsutils.py', Y + 'quantities.py'],
[('with statements and closing calls', Y + 'interfaces/madmap1.py')])

prop('P17', 'No reachable path fails on a missing name, attribute or argument',
"""No supported path of the package stops on an internal error of its own making: every name that it uses
is defined on every path that uses it, every function, attribute or keyword of the supported versions of
the libraries that it calls exists and is called with arguments it accepts, and every internal call matches
the signature of the function it calls. Errors raised for invalid arguments are the documented exceptions,
with a message that describes the argument.""",
['inputs', 'configurations'],
"all branches of all functions, including the rarely taken ones (error branches, optional arguments, alternative input kinds)",
"Python resolves names when a line runs; lines that no test runs are never resolved.",
[Y + '*.py'],
[('imports and call signatures', Y + '*.py')])

prop('P18', 'Closed-form functions compute their documented formula',
"""For all arguments: the gaussian beam is exp(-theta^2/2 sigma^2) with sigma derived from the full width at
half maximum and its solid angle is that of the same profile; rotations apply the matrix of the given
angle in degrees about the given centre, and circles, regular polygons, rectangles, squares and grids have the
documented vertices. Image helpers (gaussian, Airy disk, aperture, phase mask, distance, profiles, power spectra)
and noise helpers (one-over-f spectra, folding and unfolding of spectra, interpolation, sampling frequencies, noise
draws scaled by the spectrum, inverse covariances from spectra) evaluate the documented expression with the
documented normalisation. Power-law, grey-body and unit conversion operators apply the ratio of the documented
law at the two wavelengths or frequencies.""",
['inputs'],
"all argument values of the listed functions",
"Tests check a handful of points, and several at values where different formulas coincide.",
[Y + 'beams.py', Y + 'geometry.py', Y + 'noises.py', Y + 'operators.py', Y + 'datautils.py',
 Y + 'instruments.py', Y + 'interfaces/healpy/scenes.py', F + 'geometry.f90'],
[('formulas', Y + 'beams.py'), ('formulas', Y + 'geometry.py'), ('fold and unfold', Y + 'noises.py'),
 ('formulas', Y + 'datautils.py')])

prop('P19', 'FITS headers describe the requested grid, and are read back as such',
"""A header built by the package describes the grid that was asked for: axis lengths follow the shape in reverse
order, the reference pixel is the given one or the centre of the grid, pixel scale, position angle and axis
orientation enter the transformation matrix with their documented signs and units, and the coordinate types are
the documented ones. Functions that read a header (shape, pixel scale and angle, presence of astrometry, combination
of headers, conversion operators) invert the same definitions, so that what is read is what was written.""",
['inputs'],
"all shapes, centres, scales, angles and conventions accepted by the header builders, and all headers they produce",
"Tests sample a few headers, most of them square, unrotated or with symmetric scales.",
[Y + 'wcsutils.py', Y + 'packedtables/scenes.py', Y + 'packedtables/layouts.py'],
[('header construction', Y + 'wcsutils.py:create_fitsheader'), ('header interpretation', Y + 'wcsutils.py')])

prop('P20', 'Polygon to pixel intersection areas are exact',
"""The coefficients of a projection matrix computed from detector outlines are the exact areas of the
intersection of the outline with each pixel, and they sum to the area of the outline inside the map.""",
['inputs'], "all convex outlines and maps", "Tests sample a few outlines.",
[F + 'module_geometry.f90.j2', F + 'projection.f90.j2', F + 'module_pointingmatrix.f90'],
[('line-walking intersection', F + 'module_pointingmatrix.f90')])

prop('P21', 'Generated noise has the requested statistics',
"""Noise realisations drawn for a power spectral density have that spectral density in the limit of many
draws, and the inverse noise covariance operators are the inverse of that covariance.""",
['inputs'], "all power spectral densities and lengths", "Statistical and asymptotic.",
[Y + 'noises.py', Y + 'instruments.py', Y + 'operators.py'], [('FFT synthesis', Y + 'noises.py')])

prop('P22', 'HEALPix convolutions and map-making conserve the documented integrals',
"""Convolving a sky with a normalised beam conserves its mean, and projecting a constant sky gives the
constant back at every pointing, within numerical accuracy.""",
['inputs'], "all skies, resolutions and beams", "Tests sample one resolution.",
[Y + 'interfaces/healpy/operators.py', Y + 'interfaces/healpy/scenes.py', Y + 'packedtables/scenes.py'],
[('harmonic transforms', Y + 'interfaces/healpy/operators.py')])

prop('P23', 'Invalid arguments are rejected and valid ones accepted, in all combinations',
"""A function, constructor, method or operator of the package raises its documented exception for exactly the
arguments that do not meet the documented conditions (shapes, types, units, coordinate conventions, incompatible
keywords, missing files or library support), whatever the values of the other arguments, and does so before it has
changed anything. Arguments that meet the conditions are never rejected, and an invalid argument is never silently
replaced by another value.""",
['inputs', 'configurations'],
"all combinations of the arguments of every public function",
"Tests try a few invalid values of one argument at a time, with default values for the others.",
[Y + 'operators.py', Y + 'sparse.py', Y + 'quantities.py', Y + 'datatypes.py', Y + 'packedtables/core.py',
 Y + 'packedtables/samplings.py', Y + 'wcsutils.py', Y + 'acquisitions.py', Y + 'noises.py'],
[('argument validation', Y + '*.py'), ('operator input validation', Y + 'operators.py')])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for d in P:
            f.write(json.dumps(d) + '\n')
    print(len(P), 'properties')
