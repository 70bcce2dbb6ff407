UNCLAIMED = {}
TECH['C01'] = 'model checking: bounded-exhaustive explicit-state exploration of the implementation (all configurations x all unit vectors x all transform kinds)'
NOTE['C01'] = 'Exhaustive within the stated sizes: the transforms are (affine) linear, so all unit vectors decide a configuration. Trusts scipy.special orthogonal polynomials, float64 rounding.'
TECH['C02'] = 'model checking: bounded-exhaustive exploration of (space, way of writing conditions, way of producing a function); conditions evaluated by an independent functional on every unit vector'
NOTE['C02'] = 'Exhaustive over the catalogue of bases/conditions/productions within the stated sizes; functionals applied to an independently fitted polynomial; 2D/3D with conditions varying along the boundary and a sequence of time updates.'
TECH['C16'] = 'model checking: bounded-exhaustive exploration of quadrature rules (family x rule x size x weighting x complete basis), domain mappings and integrals of unit modes'
NOTE['C16'] = 'Every size in the range and the complete basis up to the guaranteed degree; larger sizes of the Gauss-Legendre tables only in the thorough tier.'
TECH['C03'] = 'model checking: bounded-exhaustive exploration of (space, unit coefficient, evaluation route, derivative order) in 1D, 2D and 3D against an independent oracle expansion'
NOTE['C03'] = 'Exhaustive over unit coefficients and routes within the stated sizes; evaluation is linear in the coefficients, so the unit vectors decide a configuration. Vector-valued expressions are covered component by component.'
TECH['C04'] = 'model checking: bounded-exhaustive exploration of (test basis, trial basis, derivative orders, measure, kind of assembly, sizes, domain) with every matrix entry compared to an independent integral'
NOTE['C04'] = 'Every named pair and every hard-coded matrix; derivative/measure combinations are complete in the thorough tier and a fixed covering subset in the quick tier. Phi6 of ultraspherical(1.5) and some symbolic integrals are left out because SymPy alone takes minutes.'
TECH['C05'] = 'model checking: explicit-state breadth-first exploration of sequences of matrix-algebra operations on pools of real matrix objects, each checked against a dense shadow after every sequence; plus exhaustive sweep of specialised matvecs'
NOTE['C05'] = 'All operation sequences to depth 2 (quick) or 3-4 (thorough) over a pool of aliasable matrices, with states merged only when storage, scales, caches and aliasing agree. Every registered matrix class and every matvec format at several sizes.'
TECH['C06'] = 'model checking: explicit-state exploration of all histories of solver calls (constraints x in place/out of place x right-hand side) on one real solver object, every solution checked against an independently assembled system'
NOTE['C06'] = 'All histories of 2 (quick) or 3 (thorough) calls for every solver class, matrices of every family and boundary condition, tensor product systems with 0-3 non-periodic directions, tailored Helmholtz/Biharmonic and block systems; every unit right-hand side for banded classes. Constraint combinations beyond those listed and parallel runs are left to C11.'
TECH['C08'] = 'model checking: bounded-exhaustive exploration of tensor product spaces (all tuples of base kinds x transform orders x plan orders) with every unit array through every transform, against products of separately obtained 1D maps'
NOTE['C08'] = 'Linear in the array, so all unit arrays decide a configuration. 1-4 dimensions with small sizes; vector, tensor and composite spaces component by component. Serial only: distribution is C11.'
TECH['C09'] = 'model checking: bounded-exhaustive exploration of padded/truncated/dealiased transforms on all unit arrays, of convolutions on all pairs of modes, and explicit-state exploration of all histories of padded transforms of a Function'
NOTE['C09'] = 'Bilinear/linear in the data, so unit arrays and pairs of modes decide a configuration. Six padding factors, even and odd sizes, 1-3 dimensions; distributed padding is C11.'
TECH['C13'] = 'model checking: crash-point exploration of the real checkpointing code (crash image before every executed line of io, shutil and h5py, torn copies), crash images as start of further sessions; explicit-state exploration of all file-operation histories to a bounded depth'
NOTE['C13'] = 'A crash leaves the files as the operating system shows them at that point (process kill; not power loss with reordered disk writes). HDF5 back end only (netCDF4 is not installed). Tensor-valued fields cannot be written as scalars (refused with an exception). Distributed writing is part of C11.'
TECH['C12'] = 'model checking: explicit-state exploration of all histories of integrator calls (solve n steps with one of two step sizes, continue, restart, setup, reassemble) on real integrators, every step and callback checked against an independent reference scheme'
NOTE['C12'] = 'All histories to the stated depth, for each (scheme, space, rank, linear term, nonlinear term). The reference uses dense matrices from matrix-vector products (decided by C04/C05), phi functions from mpmath and published tableaux. 1-3 dimensions, small sizes.'
