import json
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               observe_at=list(observe), hook_needed=None)))

p('C01', 'Transforms of every 1D function space are exact and mutually inverse',
  'For every one-dimensional function space (family, basis, quadrature, size, domain, data type) the backward transform of a coefficient vector gives the values of the expansion at the quadrature points, the scalar product of an array is the quadrature-weighted sum of the array against each (conjugated) basis function, and forward followed by backward reproduces any array that is a member of the space. The result does not depend on which transform kind (fast, recursive, vandermonde) computes it, nor on whether arrays are passed in or internal buffers are used.',
  ['inputs', 'configurations'], 'all coefficient vectors and arrays (the maps are linear: all unit vectors decide them), all families, bases, quadratures, sizes from the smallest admissible, domains, real and complex data, transform kinds',
  'Tests transform random arrays of one or two fixed sizes through a handful of bases; linear maps of every size/parity/quadrature/kind are not covered, and most generic or high-order bases never go through scalar_product at all.',
  ['shenfun/spectralbase.py', 'shenfun/fourier/bases.py', 'shenfun/chebyshev/bases.py', 'shenfun/chebyshevu/bases.py', 'shenfun/legendre/bases.py', 'shenfun/jacobi/bases.py', 'shenfun/ultraspherical/bases.py', 'shenfun/laguerre/bases.py', 'shenfun/hermite/bases.py', 'shenfun/legendre/dlt.py', 'shenfun/optimization/cython/transforms.pyx'],
  [('forward/backward/scalar_product of SpectralBase and CompositeBase', 'shenfun/spectralbase.py'), ('DCT/DST/FFT based fast transforms', 'shenfun/chebyshev/bases.py, shenfun/chebyshevu/bases.py, shenfun/fourier/bases.py'), ('three-term recursions', 'shenfun/optimization/cython/transforms.pyx'), ('fast Legendre transforms', 'shenfun/legendre/dlt.py')],
  [('forward.output_array / backward.input_array', 'internal transform buffers', 'shenfun/spectralbase.py Transform')],
  ['backward', 'forward', 'scalar_product'])
p('C02', 'Functions of a space with boundary conditions satisfy them exactly',
  'Every function represented in a space constructed with boundary conditions (Dirichlet, Neumann, higher derivatives, Robin, or any solvable mixture on either side, given as tuple, dictionary or string, in one dimension or as an expression along a boundary of a tensor product domain) satisfies those conditions in the physical domain, whatever its coefficients are. Every basis function satisfies the homogeneous conditions, and the named bases are the ones their documentation defines.',
  ['inputs', 'configurations'], 'all coefficient vectors (unit vectors), all combinations of boundary conditions up to the bound, families, domains, boundary values, basis names',
  'Tests check a few named bases on the reference domain; combinations of conditions, mapped domains and nonzero values of derivative and Robin conditions are unbounded in number.',
  ['shenfun/spectralbase.py', 'shenfun/utilities/findbasis.py', 'shenfun/forms/arguments.py', 'shenfun/tensorproductspace.py'],
  [('BoundaryConditions: scaling, ordering', 'shenfun/spectralbase.py'), ('stencil and boundary basis computation', 'shenfun/utilities/findbasis.py'), ('BoundaryValues.set_boundary_dofs, set_tensor_bcs', 'shenfun/tensorproductspace.py, shenfun/forms/arguments.py'), ('FunctionSpace: choice of basis', 'shenfun/forms/arguments.py')],
  (), ['FunctionSpace(bc=...)', 'backward', 'eval', 'Function.set_boundary_dofs'])
p('C03', 'A Function evaluates to its expansion everywhere, by every route',
  'For any coefficients and any points of the domain, evaluating a Function, or an expression of its derivatives, in one or several dimensions, real or complex, with every evaluation method, on the quadrature mesh or on a uniform mesh, with or without boundary values, gives the value of the same mathematical expansion. Basis functions and their derivatives evaluated one by one, all at once, or symbolically agree.',
  ['inputs', 'configurations'], 'all coefficients (unit vectors), all points of a grid including both end points, all families, axes, evaluation methods, derivative orders',
  'Tests compare few methods at a few random points for a few spaces; the three evaluation methods are separate implementations per dimensionality and data type.',
  ['shenfun/spectralbase.py', 'shenfun/tensorproductspace.py', 'shenfun/forms/arguments.py', 'shenfun/optimization/cython/evaluate.pyx'],
  [('eval, evaluate_basis*, evaluate_expansion', 'shenfun/spectralbase.py'), ('TensorProductSpace.eval methods 0/1/2', 'shenfun/tensorproductspace.py'), ('Function.backward on uniform mesh, Expr.eval', 'shenfun/forms/arguments.py')],
  (), ['Function.eval', 'Expr.eval', 'space.eval', 'Function.backward(mesh=...)'])
p('C04', 'One-dimensional assembled matrices equal the inner products they stand for',
  'For every pair of compatible test and trial bases, derivative orders, and polynomial weight, the matrix that is assembled in one dimension holds the weighted inner products of the (derivatives of the) basis functions on the physical domain, exactly where the quadrature is exact. Hard-coded, stencil-based, Vandermonde, and exact assembly agree with each other.',
  ['configurations', 'inputs'], 'all pairs of bases of a family, derivative orders, measures, quadratures, sizes, domains, assembly kinds',
  'Tests compare hard-coded matrices to quadrature computed by the same library for one size, on the reference domain; the pairs, sizes and mapped domains are not exhausted, and common-mode errors are invisible.',
  ['shenfun/matrixbase.py', 'shenfun/chebyshev/matrices.py', 'shenfun/chebyshevu/matrices.py', 'shenfun/legendre/matrices.py', 'shenfun/jacobi/matrices.py', 'shenfun/ultraspherical/matrices.py', 'shenfun/laguerre/matrices.py', 'shenfun/hermite/matrices.py', 'shenfun/fourier/matrices.py', 'shenfun/jacobi/recursions.py', 'shenfun/forms/inner.py'],
  [('SpectralMatrix assembly', 'shenfun/matrixbase.py'), ('hard-coded matrices', 'shenfun/*/matrices.py'), ('recursion matrices', 'shenfun/jacobi/recursions.py')],
  (), ['inner(v, u)', 'inner_product', 'SpectralMatrix'])
p('C05', 'Matrix objects obey linear algebra, in any sequence of operations',
  'Sparse, tensor-product and block matrix objects behave as the dense matrices they represent: products along any axis and in any storage format, scaling, addition, subtraction, negation, copies, transposition of the roles of operands and conversion give what dense arithmetic gives. No operation changes the value of any operand other than the one it is defined to modify, and a solve always uses the current value of the matrix.',
  ['histories', 'inputs', 'configurations'], 'all operation sequences to a bounded depth over a small set of matrices, all formats, axes and unit vectors',
  'Tests exercise single operations on freshly made matrices; sequences (scale, solve, add, copy, solve again) share lazily computed scales, caches and solvers.',
  ['shenfun/matrixbase.py', 'shenfun/la.py', 'shenfun/optimization/cython/Matvec.pyx', 'shenfun/chebyshev/matrices.py', 'shenfun/legendre/matrices.py'],
  [('SparseMatrix arithmetic, incorporate_scale, cached solver', 'shenfun/matrixbase.py'), ('TPMatrix.get_simplified, matvec, BlockMatrix.assemble', 'shenfun/matrixbase.py'), ('matvec specialisations', 'shenfun/*/matrices.py')],
  [('scale', 'lazily applied factor', 'SparseMatrix, TPMatrix'), ('solver', 'cached solver', 'SparseMatrix, BlockMatrix')],
  ['matvec', 'diags', 'solve', '+ - * /'])
p('C06', 'Every linear solver solves its system',
  'For every right-hand side, every solver (banded, generic sparse, tailored Helmholtz/biharmonic/Poisson, one or several non-periodic directions, block systems), along any axis, with inhomogeneous boundary conditions and with constraints, returns a solution that satisfies the assembled system, where constrained rows take the prescribed value. Solving again with the same solver object, in place or into a separate output, real or complex, gives the same answer as the first time.',
  ['inputs', 'histories', 'configurations'], 'all right-hand sides (unit vectors), matrices, axes, dimensions, constraint sets, repeated calls',
  'Tests solve one random right-hand side once for selected sizes; repeated use, constraints, parity of size, in-place use and complex data are sampled at best.',
  ['shenfun/la.py', 'shenfun/chebyshev/la.py', 'shenfun/legendre/la.py', 'shenfun/optimization/cython/la.pyx', 'shenfun/matrixbase.py'],
  [('banded LU and solve', 'shenfun/la.py, shenfun/optimization/cython/la.pyx'), ('SolverGeneric1ND/2ND/SolverND/BlockMatrixSolver', 'shenfun/la.py'), ('Helmholtz, Biharmonic, Poisson', 'shenfun/chebyshev/la.py, shenfun/legendre/la.py')],
  [('_lu, mat, _data', 'factorisations kept between calls', 'shenfun/la.py')],
  ['solver(b, u, constraints)', 'matrix.solve'])
p('C07', 'Differential operators obey vector calculus in every coordinate system',
  'Gradient, divergence, curl, scalar derivatives, Laplacians and their compositions, applied to scalar, vector and tensor functions in Cartesian and in any user-defined curvilinear coordinates (orthogonal or not, covariant or normalised basis vectors), equal the corresponding operators of ordinary vector calculus. Algebra on expressions (sums, differences, products with numbers and symbolic coefficients, indexing) means what it says and leaves its operands unchanged.',
  ['inputs', 'programs', 'configurations'], 'all operator compositions to a bounded depth, coordinate systems, spaces and test fields of a complete polynomial/Fourier basis',
  'Tests check selected identities for a few coordinate systems; operator compositions and expression algebra histories are unbounded.',
  ['shenfun/forms/operators.py', 'shenfun/forms/arguments.py', 'shenfun/coordinates.py'],
  [('div, grad, curl, Dx', 'shenfun/forms/operators.py'), ('Expr algebra', 'shenfun/forms/arguments.py'), ('metric tensors, basis vectors, Christoffel symbols', 'shenfun/coordinates.py')],
  (), ['project(expr)', 'Expr.eval', 'inner(v, expr)', 'Coordinates'])
p('C08', 'Multidimensional transforms are tensor products of the 1D transforms',
  'For a tensor product of any one-dimensional spaces, in any number of dimensions and with any order of transformed axes, forward, backward and scalar product act as the product of the corresponding one-dimensional transforms along each axis. Vector, tensor and composite spaces transform each component independently, and components, slices, indexing, shapes and meshes all refer to the same data.',
  ['inputs', 'configurations'], 'all coefficient arrays (unit tensors), combinations of families, axes orders, dimensions, data types, nesting of composite spaces',
  'Tests round-trip random arrays for selected spaces and one axes order; a permutation or scaling error that cancels in the round trip is invisible.',
  ['shenfun/tensorproductspace.py', 'shenfun/forms/arguments.py', 'shenfun/spectralbase.py'],
  [('configure_backwards, Transform chains', 'shenfun/tensorproductspace.py'), ('CompositeSpace/VectorSpace/TensorSpace', 'shenfun/tensorproductspace.py'), ('Function/Array views', 'shenfun/forms/arguments.py')],
  (), ['TensorProductSpace.forward/backward/scalar_product', 'Function[...]', 'local_mesh', 'shape'])
p('C09', 'Padding, truncation and convolution are free of aliasing',
  'A padded backward transform evaluates the same function on a finer mesh, a padded forward transform returns exactly the retained coefficients of the array, and products computed with sufficient padding (or by direct convolution) have exactly the retained coefficients of the product, for even and odd sizes, real and complex data and every axis. Nyquist coefficients are treated symmetrically and masks remove them and nothing else; 2/3-rule dealiasing removes exactly the upper third.',
  ['inputs', 'configurations'], 'all coefficient vectors and pairs of unit vectors, sizes (both parities), padding factors, axes, families',
  'Tests use one size and factor with smooth data, where aliasing errors are below tolerance.',
  ['shenfun/fourier/bases.py', 'shenfun/spectralbase.py', 'shenfun/tensorproductspace.py', 'shenfun/optimization/cython/convolve.pyx', 'shenfun/optimization/cython/applymask.pyx'],
  [('_truncation_forward/_padding_backward', 'shenfun/fourier/bases.py, shenfun/spectralbase.py'), ('Convolve, get_dealiased', 'shenfun/tensorproductspace.py'), ('mask_nyquist', 'shenfun/fourier/bases.py')],
  (), ['get_dealiased', 'Function.backward(padding_factor)', 'convolve', 'mask_nyquist', 'dot/outer/cross'])
p('C10', 'Projections and moves between spaces preserve the function',
  'Projecting a function, array or expression on a space that contains it, and moving a function to another space of the same kind (refined or coarsened, orthogonal, homogeneous, dealiased, different basis of the same family) gives the same function, or its truncation, exactly. Linear forms with Numbers, symbolic functions, arrays and functions assemble the corresponding inner products.',
  ['inputs', 'configurations'], 'all members of the source space (unit vectors), pairs of spaces of all families, dimensions, boundary values',
  'Tests project one analytic function per space with a loose tolerance.',
  ['shenfun/forms/project.py', 'shenfun/forms/inner.py', 'shenfun/forms/arguments.py', 'shenfun/spectralbase.py', 'shenfun/tensorproductspace.py'],
  [('project', 'shenfun/forms/project.py'), ('Function.assign/refine/to_ortho', 'shenfun/forms/arguments.py'), ('get_refined/get_orthogonal/get_homogeneous/get_dealiased/get_unplanned', 'shenfun/spectralbase.py, shenfun/tensorproductspace.py')],
  (), ['project', 'Function.assign', 'Function.refine', 'Function.to_ortho', 'inner(v, f)'])
p('C11', 'Distributed runs compute what a serial run computes',
  'For any number of processes and any decomposition (slab or pencil) of any tensor product space, every distributed operation - transforms with and without padding, meshes, inner products, matrix-vector products, solvers with constraints, evaluation, integration, masks, boundary values - yields the same global result as a single process, and no process waits for another forever.',
  ['schedules', 'configurations', 'inputs'], 'process counts, process grids, axes orders, spaces and operations within the bounds',
  'The test suite only ever runs on one process, where every communication is the identity.',
  ['shenfun/tensorproductspace.py', 'shenfun/la.py', 'shenfun/matrixbase.py', 'shenfun/forms/inner.py', 'shenfun/forms/arguments.py', 'shenfun/utilities/__init__.py'],
  [('pencils and transfers', 'shenfun/tensorproductspace.py'), ('local_slice, local_mesh, wavenumbers', 'shenfun/tensorproductspace.py'), ('solver data of local wavenumbers', 'shenfun/la.py'), ('allreduce in eval/inner/dx', 'shenfun/tensorproductspace.py, shenfun/forms/inner.py')],
  (), ['everything that takes a communicator'])
p('C12', 'Time integrators take the steps their methods define',
  'From any state, each explicit, implicit-explicit and exponential integrator advances the solution by exactly the update its documented scheme prescribes for the given linear and nonlinear terms, at every step, for real and complex, scalar and mixed states, one- and multidimensional, including the final time reached and the callbacks made. Continuing a run, changing the step size or repeating it from the same state gives the same sequence of states as a single run or a fresh integrator.',
  ['histories', 'inputs', 'configurations'], 'all sequences of solve/setup calls to a bounded depth, step sizes, linear symbols, nonlinear terms, states (unit vectors)',
  'Demos integrate one smooth problem and compare a final norm with loose tolerance; several integrators have no test at all.',
  ['shenfun/utilities/integrators.py'],
  [('setup, solve, stages of each scheme', 'shenfun/utilities/integrators.py')],
  [('params dt, _a, _b, solvers', 'step-size dependent coefficients kept between calls', 'shenfun/utilities/integrators.py')],
  ['integrator.solve', 'update callback'])
p('C13', 'What is written to file or checkpointed is what is read back',
  'Data written to file by the library - checkpoints, Functions and Arrays of any rank, space and precision, whole fields and slices, with meshes and metadata - is read back bit for bit the same for the same time or counter, however many writes, reads, restarts and interruptions preceded. After an interruption at any point of a checkpointing history the last completed checkpoint is recoverable and is never silently replaced by partial data.',
  ['histories', 'crash_points', 'configurations'], 'all sequences of write/update/read/restart operations to a bounded depth, and every crash point between file operations',
  'Tests write and read a file once in one process without interruption.',
  ['shenfun/io/__init__.py', 'shenfun/io/generate_xdmf.py', 'shenfun/forms/arguments.py'],
  [('ShenfunFile, Checkpoint, HDF5File, NCFile', 'shenfun/io/__init__.py'), ('generate_xdmf', 'shenfun/io/generate_xdmf.py'), ('Function/Array local_slice, names, get_mesh', 'shenfun/forms/arguments.py')],
  [('checkpoint file and its backup', 'persistent state', 'shenfun/io/__init__.py')],
  ['ShenfunFile.write/read', 'Checkpoint.update/read', 'generate_xdmf'])
p('C14', 'Results do not depend on what was computed before',
  'Any public operation on spaces, Functions, Arrays, expressions, forms and projectors gives the same result whatever operations were executed earlier on the same or on other objects, does not modify its inputs (other than a declared output), and returns data that later operations on other objects do not change.',
  ['histories'], 'all interleavings of a small alphabet of operations on shared spaces and functions up to a bounded depth',
  'Tests use fresh objects in a fixed order; planned transforms, work arrays, cached spaces, cached boundary values and class-level registries are shared between calls.',
  ['shenfun/spectralbase.py', 'shenfun/tensorproductspace.py', 'shenfun/forms/arguments.py', 'shenfun/forms/project.py', 'shenfun/forms/inner.py', 'shenfun/coordinates.py', 'shenfun/utilities/__init__.py', 'shenfun/matrixbase.py'],
  [('work arrays (CachedArrayDict), Transform buffers', 'shenfun/utilities/__init__.py, shenfun/spectralbase.py'), ('_padded_space, _backward_work_array', 'shenfun/tensorproductspace.py, shenfun/forms/arguments.py'), ('cached stencils, coordinates, wavenumbers', 'shenfun/spectralbase.py, shenfun/coordinates.py')],
  [('caches', 'anything kept on objects between calls', 'all modules')], ['every public operation'])
p('C15', 'The optimisation mode never changes a result',
  'Every computation gives the same result with Cython, Numba or plain Python kernels, for every shape, axis, data type and parity of size. Fast algorithms (fast Legendre-Chebyshev conversions, banded and structured solvers, structured matrix-vector products, table-free quadrature) agree with their straightforward definitions.',
  ['configurations', 'inputs'], 'all kernels, axes, dimensions, data types, sizes within the bounds, unit vectors',
  'The suite runs with the Cython mode only; the Numba and pure Python variants of most kernels are never executed, and Cython kernels along several axes only for random data.',
  ['shenfun/optimization/__init__.py', 'shenfun/optimization/cython/la.pyx', 'shenfun/optimization/cython/transforms.pyx', 'shenfun/optimization/cython/Matvec.pyx', 'shenfun/optimization/cython/leg2chebm.pyx', 'shenfun/optimization/cython/evaluate.pyx', 'shenfun/optimization/numba/__init__.py', 'shenfun/legendre/dlt.py', 'shenfun/la.py'],
  [('runtimeoptimizer/optimizer dispatch', 'shenfun/optimization/__init__.py'), ('three implementations of each kernel', 'shenfun/optimization')],
  (), ["config['optimization']['mode']"])
p('C16', 'Quadrature, integration and domain mapping are exact',
  'Quadrature points lie in the domain in the documented order, and points and weights of every family integrate exactly all polynomials (or trigonometric polynomials) of the degree the rule guarantees, on any domain and size. Mapping points and expressions between reference and physical domain and back is the identity, wavenumbers and meshes match the domain, and integrals of arrays and functions equal the true integrals.',
  ['inputs', 'configurations'], 'all families, sizes, quadratures, domains (finite, shifted, scaled) and the complete polynomial basis up to the guaranteed degree',
  'Tests check one or two sizes on the default domain.',
  ['shenfun/spectralbase.py', 'shenfun/chebyshev/bases.py', 'shenfun/legendre/bases.py', 'shenfun/legendre/lobatto.py', 'shenfun/legendre/fastgl/fastgl_wrap.pyx', 'shenfun/laguerre/bases.py', 'shenfun/hermite/bases.py', 'shenfun/jacobi/bases.py', 'shenfun/fourier/bases.py', 'shenfun/forms/inner.py', 'shenfun/utilities/__init__.py'],
  [('points_and_weights, mpmath_points_and_weights, get_measured_weights', 'shenfun/*/bases.py'), ('map_reference_domain, map_true_domain', 'shenfun/spectralbase.py'), ('inner(1, u), dx, Array integration', 'shenfun/forms/inner.py, shenfun/utilities/__init__.py')],
  (), ['points_and_weights', 'mesh', 'inner(1, u)', 'dx'])
p('C17', 'Assembled forms in several dimensions equal the integrals they denote',
  'For any bilinear form built from the differential operators, numbers and symbolic coefficients on scalar, vector or composite tensor product spaces in Cartesian or curvilinear coordinates, the assembled matrices applied to a trial function give the same as assembling the linear form with that function, which is the inner product of the form. Blocks are attributed to the right pair of components and matrices from boundary values complete the form.',
  ['programs', 'inputs', 'configurations'], 'all forms to a bounded size over the operator alphabet, spaces, coordinate systems and unit coefficient tensors',
  'Tests assemble selected forms and check that they run, or one manufactured solution.',
  ['shenfun/forms/inner.py', 'shenfun/forms/operators.py', 'shenfun/forms/arguments.py', 'shenfun/matrixbase.py', 'shenfun/coordinates.py'],
  [('inner, Inner, inner_product', 'shenfun/forms/inner.py'), ('TPMatrix, BlockMatrix', 'shenfun/matrixbase.py')],
  (), ['inner(test, trial)', 'TPMatrix.matvec', 'BlockMatrix.matvec', 'Inner'])
with open('/verif/properties.jsonl', 'w') as f:
    for q in P:
        assert len(q['title']) <= 80, q['title']
        f.write(json.dumps(q) + '\n')
print(len(P))
